pub mod builders;
pub mod concurrent;
pub mod documents;
pub mod faults;
pub mod filters;
pub mod generators;
pub mod graphs;
pub mod mix;
pub mod scheduling;
pub mod scores;
pub mod shape;
pub mod stores;
pub mod structure;
pub mod upgrades;
pub mod weights;

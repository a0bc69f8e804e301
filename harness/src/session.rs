//! Generated practice sessions: a library, a history, and a sequence of steps a student or a
//! client application takes, run against an instance while a model keeps track of the blacklist,
//! the review list and the recently failed exercises.

use proptest::{collection::vec, prelude::*};
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;
use trane::{
    blacklist::Blacklist,
    data::{
        ExerciseManifest,
        filter::{ExerciseFilter, FilterOp, FilterType, KeyValueFilter, UnitFilter},
    },
    review_list::ReviewList,
    scheduler::ExerciseScheduler,
};

use crate::{
    engine::{OrViolation, Res},
    library::{Index, Lib, LibParams, lib_strategy},
    world::{PastTrial, Pile, World, history, u},
};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Step {
    /// Requests a batch and answers the i-th exercise with `answers[i % len]`, 0 for no answer.
    Batch {
        filter: Option<UnitFilter>,
        answers: Vec<u8>,
    },
    Blacklist {
        unit: String,
    },
    Unblacklist {
        unit: String,
    },
    UnblacklistPrefix {
        prefix: String,
    },
    Review {
        unit: String,
    },
    Unreview {
        unit: String,
    },
    /// Scores an exercise that may not have been scheduled.
    Score {
        exercise: String,
        score: u8,
    },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct SessionCase {
    pub lib: Lib,
    pub history: Vec<PastTrial>,
    pub batch_size: Option<usize>,
    #[serde(default)]
    pub relearn_fraction: Option<f32>,
    #[serde(default)]
    pub max_lessons: Option<usize>,
    pub steps: Vec<Step>,
}

#[derive(Clone, Copy, Debug)]
pub struct SessionParams {
    pub lib: LibParams,
    pub steps: usize,
    pub blacklist: bool,
    pub review: bool,
    pub filters: bool,
    pub metadata_filters: bool,
    pub scores: bool,
    /// Let the batch size vary; otherwise it is the default.
    pub batch_sizes: bool,
}

#[derive(Clone, Debug)]
struct RawStep {
    kind: u8,
    picks: Vec<u16>,
    answers: Vec<u8>,
}

fn answers() -> impl Strategy<Value = Vec<u8>> {
    prop_oneof![
        3 => Just(vec![5]),
        2 => Just(vec![0]),
        2 => vec(prop_oneof![Just(0u8), Just(5u8), Just(5u8), Just(4u8), Just(2u8)], 1..6),
        3 => vec(0u8..=5, 1..8),
    ]
}

fn pick<T: Clone>(v: &[T], n: u16) -> Option<T> {
    (!v.is_empty()).then(|| v[n as usize % v.len()].clone())
}

pub fn kv_filter(picks: &[u16], depth: usize) -> KeyValueFilter {
    let n = picks.first().copied().unwrap_or(0) as usize;
    let key = ["genre", "level", "key"][n / 4 % 3].to_string();
    let value = ["a", "b", "c"][n / 12 % 3].to_string();
    let filter_type = if n / 36 % 4 == 0 {
        FilterType::Exclude
    } else {
        FilterType::Include
    };
    match n % 4 {
        0 => KeyValueFilter::CourseFilter {
            key,
            value,
            filter_type,
        },
        1 | 2 => KeyValueFilter::LessonFilter {
            key,
            value,
            filter_type,
        },
        _ => {
            if depth == 0 || picks.len() < 2 {
                return KeyValueFilter::LessonFilter {
                    key,
                    value,
                    filter_type,
                };
            }
            let rest = &picks[1..];
            let half = rest.len().div_ceil(2);
            KeyValueFilter::CombinedFilter {
                op: if n / 4 % 2 == 0 {
                    FilterOp::All
                } else {
                    FilterOp::Any
                },
                filters: rest.chunks(half).map(|c| kv_filter(c, depth - 1)).collect(),
            }
        }
    }
}

pub fn decode_filter(lib: &Lib, picks: &[u16], metadata: bool, review: bool) -> Option<UnitFilter> {
    let (first, rest) = picks.split_first()?;
    let courses: Vec<String> = lib.courses.iter().map(|c| c.id.clone()).collect();
    let lessons: Vec<String> = lib.lessons().map(|(_, l)| l.id.clone()).collect();
    let units: Vec<String> = courses.iter().chain(lessons.iter()).cloned().collect();
    let some = |v: &[String]| -> Vec<ustr::Ustr> {
        rest.iter()
            .take(3)
            .filter_map(|n| pick(v, *n).map(|s| u(&s)))
            .collect()
    };
    Some(match first % 8 {
        0 | 1 => UnitFilter::CourseFilter {
            course_ids: some(&courses),
        },
        2 => UnitFilter::LessonFilter {
            lesson_ids: some(&lessons),
        },
        3 => UnitFilter::Dependents {
            unit_ids: some(&units),
        },
        4 => UnitFilter::Dependencies {
            unit_ids: some(&units),
            depth: (first / 8 % 4) as usize,
        },
        5 if review => UnitFilter::ReviewListFilter,
        6 | 7 if metadata => UnitFilter::MetadataFilter {
            filter: kv_filter(rest, 2),
        },
        _ => UnitFilter::LessonFilter {
            lesson_ids: some(&lessons),
        },
    })
}

fn decode_step(raw: &RawStep, lib: &Lib, p: &SessionParams) -> Step {
    let units = lib.unit_ids();
    let exercises = lib.exercise_ids();
    let n = raw.picks.first().copied().unwrap_or(0);
    let batch = || Step::Batch {
        filter: if p.filters && raw.picks.first().copied().unwrap_or(0) % 4 != 0 {
            decode_filter(
                lib,
                raw.picks.get(1..).unwrap_or(&[]),
                p.metadata_filters,
                p.review,
            )
        } else {
            None
        },
        answers: raw.answers.clone(),
    };
    match raw.kind % 16 {
        0 | 1 if p.blacklist => match pick(&units, n) {
            Some(unit) => Step::Blacklist { unit },
            None => batch(),
        },
        2 if p.blacklist => match pick(&units, n) {
            Some(unit) => Step::Unblacklist { unit },
            None => batch(),
        },
        3 if p.blacklist => match pick(&units, n) {
            Some(prefix) => Step::UnblacklistPrefix { prefix },
            None => batch(),
        },
        4 | 5 | 8 if p.review => match pick(&units, n) {
            Some(unit) => Step::Review { unit },
            None => batch(),
        },
        6 if p.review => match pick(&units, n) {
            Some(unit) => Step::Unreview { unit },
            None => batch(),
        },
        7 if p.scores => match pick(&exercises, n) {
            Some(exercise) => Step::Score {
                exercise,
                score: 1 + (raw.answers.first().copied().unwrap_or(0) % 5),
            },
            None => batch(),
        },
        _ => batch(),
    }
}

pub fn session_strategy(p: SessionParams) -> BoxedStrategy<SessionCase> {
    let picks = prop_oneof![
        1 => vec(any::<u16>(), 0..3),
        4 => vec(any::<u16>(), 3..7),
    ];
    let raw_step = (any::<u8>(), picks, answers()).prop_map(|(kind, picks, answers)| RawStep {
        kind,
        picks,
        answers,
    });
    (
        lib_strategy(p.lib),
        vec(any::<u8>(), 1..24),
        if p.batch_sizes {
            prop_oneof![
                2 => Just(None),
                2 => (5usize..=12).prop_map(Some),
                1 => (1usize..=60).prop_map(Some)
            ]
            .boxed()
        } else {
            Just(None).boxed()
        },
        vec(raw_step, 1..=p.steps),
    )
        .prop_map(move |(lib, bytes, batch_size, raw)| {
            let history = history(&lib, &bytes);
            let steps = raw.iter().map(|s| decode_step(s, &lib, &p)).collect();
            SessionCase {
                lib,
                history,
                batch_size,
                relearn_fraction: None,
                max_lessons: None,
                steps,
            }
        })
        .boxed()
}

/// What the model knows about the state of the session.
#[derive(Default)]
pub struct State {
    pub blacklist: BTreeSet<String>,
    pub review: BTreeSet<String>,
    pub pile: Pile,
    pub scored: i64,
    pub answered: u64,
}

pub struct BatchEvent<'a> {
    pub world: &'a World,
    pub idx: &'a Index<'a>,
    pub state: &'a State,
    pub filter: &'a Option<UnitFilter>,
    pub batch: &'a [ExerciseManifest],
}

/// Runs the session and calls back after every batch.
pub fn run_session(case: &SessionCase, mut on_batch: impl FnMut(&BatchEvent) -> Res) -> Res<State> {
    run_session_in(case, &mut on_batch).map(|(_, state)| state)
}

/// Runs the session, calls back after every batch and returns the instance for further use.
pub fn run_session_in(
    case: &SessionCase,
    on_batch: &mut impl FnMut(&BatchEvent) -> Res,
) -> Res<(World, State)> {
    let idx = Index::new(&case.lib);
    let mut world = World::new(&case.lib)?;
    if case.batch_size.is_some() || case.relearn_fraction.is_some() || case.max_lessons.is_some() {
        let mut options = world.trane.get_scheduler_options();
        options.batch_size = case.batch_size.unwrap_or(options.batch_size);
        options.relearn_fraction = case.relearn_fraction.unwrap_or(options.relearn_fraction);
        options.max_lessons_in_progress =
            case.max_lessons.unwrap_or(options.max_lessons_in_progress);
        world.set_options(options);
    }
    world.record(&case.history)?;
    let mut state = State::default();
    for step in &case.steps {
        match step {
            Step::Batch { filter, answers } => {
                let batch = world.batch(filter.clone().map(ExerciseFilter::UnitFilter))?;
                on_batch(&BatchEvent {
                    world: &world,
                    idx: &idx,
                    state: &state,
                    filter,
                    batch: &batch,
                })?;
                if answers.is_empty() {
                    continue;
                }
                for (i, e) in batch.iter().enumerate() {
                    let score = answers[i % answers.len()];
                    if score > 0 {
                        answer(&world, &mut state, e.id.as_str(), score)?;
                    }
                }
            }
            Step::Blacklist { unit } => {
                world
                    .trane
                    .add_to_blacklist(u(unit))
                    .must("blacklist-error", "blacklisting a unit")?;
                state.blacklist.insert(unit.clone());
            }
            Step::Unblacklist { unit } => {
                world
                    .trane
                    .remove_from_blacklist(u(unit))
                    .must("blacklist-error", "removing a unit from the blacklist")?;
                state.blacklist.remove(unit);
            }
            Step::UnblacklistPrefix { prefix } => {
                world
                    .trane
                    .remove_prefix_from_blacklist(prefix)
                    .must("blacklist-error", "removing a prefix from the blacklist")?;
                state.blacklist.retain(|b| !b.starts_with(prefix.as_str()));
            }
            Step::Review { unit } => {
                world
                    .trane
                    .add_to_review_list(u(unit))
                    .must("review-error", "adding to the review list")?;
                state.review.insert(unit.clone());
            }
            Step::Unreview { unit } => {
                world
                    .trane
                    .remove_from_review_list(u(unit))
                    .must("review-error", "removing from the review list")?;
                state.review.remove(unit);
            }
            Step::Score { exercise, score } => answer(&world, &mut state, exercise, *score)?,
        }
    }
    Ok((world, state))
}

/// Scores an exercise, a second after the previous one.
pub fn answer(world: &World, state: &mut State, exercise: &str, score: u8) -> Res {
    world.score(exercise, score, world.now - 80_000 + state.scored)?;
    state.scored += 1;
    state.answered += 1;
    state.pile.update(exercise, score);
    Ok(())
}

//! Scripts of operations on a library, run by the checks and by the victim process.

use serde::{Deserialize, Serialize};
use std::{collections::BTreeMap, path::Path};
use trane::{
    Trane,
    blacklist::Blacklist,
    data::{
        ExerciseDelta, ExerciseTrial, MasteryScore, SchedulerPreferences, UnitReward,
        UserPreferences,
    },
    practice_deltas::PracticeDeltas,
    practice_rewards::PracticeRewards,
    practice_stats::PracticeStats,
    preferences_manager::PreferencesManager,
    review_list::ReviewList,
    scheduler::ExerciseScheduler,
};
use ustr::Ustr;

/// An operation. The numbers choose one of the units.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    Score(u16, u8),
    Trials(Vec<(u16, u8)>),
    Rewards(Vec<(u16, u8)>),
    Deltas(Vec<(u16, u8)>),
    /// Trims the scores, deltas or rewards.
    Trim(u8, u8),
    /// Removes the scores, deltas, rewards or blacklist entries of a unit and those below it.
    RemovePrefix(u8, u16),
    Blacklist(u16),
    Unblacklist(u16),
    Review(u16),
    Unreview(u16),
    Preferences(u8),
    Batch,
    Reopen,
}

/// A script with the units it is about.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Script {
    pub ops: Vec<Op>,
    pub exercises: Vec<String>,
    pub units: Vec<String>,
    pub now: i64,
}

pub fn open_at(root: &Path, now: i64) -> anyhow::Result<Trane> {
    let mut t = Trane::new_local(root, root)?;
    t.override_current_timestamp(Some(now));
    Ok(t)
}

impl Script {
    fn exercise(&self, n: u16) -> Ustr {
        Ustr::from(&self.exercises[n as usize % self.exercises.len()])
    }
    fn unit(&self, n: u16) -> Ustr {
        Ustr::from(&self.units[n as usize % self.units.len()])
    }

    /// Runs an operation other than `Reopen`.
    pub fn run(&self, t: &mut Trane, k: usize) -> anyhow::Result<()> {
        // Distinct times, ascending from operation to operation.
        let time = |i: usize| self.now - (self.ops.len() - k) as i64 * 90_000 + i as i64 * 100;
        match &self.ops[k] {
            Op::Score(e, s) => {
                let score = match s % 5 {
                    0 => MasteryScore::One,
                    1 => MasteryScore::Two,
                    2 => MasteryScore::Three,
                    3 => MasteryScore::Four,
                    _ => MasteryScore::Five,
                };
                t.score_exercise(self.exercise(*e), score, time(0))?;
            }
            Op::Trials(list) => {
                let trials: Vec<ExerciseTrial> = list
                    .iter()
                    .enumerate()
                    .map(|(i, (e, s))| ExerciseTrial {
                        exercise_id: self.exercise(*e),
                        score: f32::from(1 + s % 5),
                        timestamp: time(i),
                    })
                    .collect();
                t.record_exercise_scores(&trials)?;
            }
            Op::Rewards(list) => {
                let rewards: Vec<UnitReward> = list
                    .iter()
                    .enumerate()
                    .map(|(i, (n, v))| UnitReward {
                        unit_id: self.unit(*n),
                        value: f32::from(v % 5) * 0.2 - 0.4,
                        weight: 0.2 + f32::from(v / 5 % 4) * 0.2,
                        timestamp: time(i),
                    })
                    .collect();
                t.record_unit_rewards(&rewards)?;
            }
            Op::Deltas(list) => {
                let deltas: Vec<ExerciseDelta> = list
                    .iter()
                    .enumerate()
                    .map(|(i, (e, v))| ExerciseDelta {
                        exercise_id: self.exercise(*e),
                        delta: f32::from(v % 9) * 0.5 - 2.0,
                        timestamp: time(i),
                    })
                    .collect();
                t.record_exercise_deltas(&deltas)?;
            }
            Op::Trim(which, n) => {
                let n = u32::from(n % 4);
                match which % 3 {
                    0 => t.trim_scores(n)?,
                    1 => t.trim_deltas(n)?,
                    _ => t.trim_rewards(n)?,
                }
            }
            Op::RemovePrefix(which, n) => {
                let prefix = self.unit(*n);
                match which % 4 {
                    0 => t.remove_scores_with_prefix(&prefix)?,
                    1 => t.remove_deltas_with_prefix(&prefix)?,
                    2 => t.remove_rewards_with_prefix(&prefix)?,
                    _ => t.remove_prefix_from_blacklist(&prefix)?,
                }
            }
            Op::Blacklist(n) => t.add_to_blacklist(self.unit(*n))?,
            Op::Unblacklist(n) => t.remove_from_blacklist(self.unit(*n))?,
            Op::Review(n) => t.add_to_review_list(self.unit(*n))?,
            Op::Unreview(n) => t.remove_from_review_list(self.unit(*n))?,
            Op::Preferences(n) => t.set_user_preferences(UserPreferences {
                scheduler: Some(SchedulerPreferences {
                    batch_size: Some(usize::from(n % 30) + 5),
                }),
                ignored_paths: vec!["somewhere/else".repeat(usize::from(*n) + 1)],
                ..UserPreferences::default()
            })?,
            Op::Batch => {
                t.get_exercise_batch(None)?;
            }
            Op::Reopen => {}
        }
        Ok(())
    }

    /// Everything that is stored, by store and unit.
    pub fn dump(&self, t: &Trane) -> anyhow::Result<BTreeMap<String, Vec<String>>> {
        let mut out = BTreeMap::new();
        for e in &self.exercises {
            let id = Ustr::from(e);
            let scores = t.get_scores(id, 1000)?;
            out.insert(
                format!("scores {e}"),
                scores
                    .iter()
                    .map(|s| format!("{}: {:.5}", s.timestamp, s.score))
                    .collect(),
            );
            let deltas = t.get_deltas(id, 1000)?;
            out.insert(
                format!("deltas {e}"),
                deltas
                    .iter()
                    .map(|s| format!("{}: {:.5}", s.timestamp, s.delta))
                    .collect(),
            );
        }
        let blacklist = t.get_blacklist_entries()?;
        let review = t.get_review_list_entries()?;
        for unit in &self.units {
            let id = Ustr::from(unit);
            let mut rewards: Vec<String> = t
                .get_rewards(id, 1000)?
                .iter()
                .map(|s| format!("{}: {:.5} * {:.5}", s.timestamp, s.value, s.weight))
                .collect();
            rewards.sort();
            out.insert(format!("rewards {unit}"), rewards);
            for (name, list) in [("blacklist", &blacklist), ("review", &review)] {
                out.insert(
                    format!("{name} {unit}"),
                    list.iter()
                        .filter(|x| **x == id)
                        .map(ToString::to_string)
                        .collect(),
                );
            }
        }
        out.insert(
            "preferences".into(),
            vec![serde_json::to_string(&t.get_user_preferences()?)?],
        );
        Ok(out)
    }

    #[allow(dead_code)]
    /// What the instance reports about each unit.
    pub fn view(&self, t: &Trane) -> anyhow::Result<BTreeMap<String, Vec<String>>> {
        let mut out = self.dump(t)?;
        for unit in &self.units {
            let id = Ustr::from(unit);
            out.insert(
                format!("reported score {unit}"),
                t.get_unit_score(id)?
                    .iter()
                    .map(|s| format!("{s:.5}"))
                    .collect(),
            );
            out.insert(
                format!("is blacklisted {unit}"),
                vec![t.blacklisted(id)?.to_string()],
            );
        }
        Ok(out)
    }
}

/// Whether two entries of dumps are the same, up to the rounding of numbers with decimals.
pub fn same(a: &[String], b: &[String]) -> bool {
    let word = |a: &str, b: &str| {
        a == b
            || matches!(
                (a.contains('.'), a.parse::<f32>(), b.parse::<f32>()),
                (true, Ok(a), Ok(b)) if (a - b).abs() < 2e-3
            )
    };
    a.len() == b.len()
        && a.iter().zip(b).all(|(a, b)| {
            let (a, b): (Vec<&str>, Vec<&str>) = (a.split(' ').collect(), b.split(' ').collect());
            a.len() == b.len() && a.iter().zip(&b).all(|(a, b)| word(a, b))
        })
}

/// Whether two dumps are the same.
#[allow(dead_code)]
pub fn same_dumps(a: &BTreeMap<String, Vec<String>>, b: &BTreeMap<String, Vec<String>>) -> bool {
    a.len() == b.len() && a.iter().all(|(k, v)| b.get(k).is_some_and(|w| same(v, w)))
}

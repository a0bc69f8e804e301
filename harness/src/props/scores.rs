//! The scores of units: consistency of the caches, the exercise scorer, the averages of lessons
//! and courses, and the propagation of rewards.

use proptest::{collection::vec, prelude::*};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use trane::{
    Trane,
    blacklist::Blacklist,
    data::{ExerciseDelta, ExerciseTrial, ExerciseType, UnitReward},
    exercise_scorer::{ExerciseScorer, PowerLawScorer},
    practice_deltas::PracticeDeltas,
    practice_rewards::PracticeRewards,
    practice_stats::PracticeStats,
    scheduler::ExerciseScheduler,
};

use crate::{
    check,
    engine::{OrViolation, Prop, Res, Stats},
    library::{Course, Exercise, Index, Lesson, Lib, LibParams, lib_strategy},
    session::{SessionCase, SessionParams, run_session_in, session_strategy},
    world::{DAY, Model, PastTrial, World, history, u},
};

// ---------------------------------------------------------------------------------------------
// C07: the caches never show.

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    Score {
        exercise: String,
        score: u8,
    },
    Batch {
        answers: Vec<u8>,
    },
    Blacklist {
        unit: String,
    },
    Unblacklist {
        unit: String,
    },
    UnblacklistPrefix {
        prefix: String,
    },
    Trials {
        trials: Vec<PastTrial>,
    },
    Deltas {
        exercise: String,
        deltas: Vec<(i8, i64)>,
    },
    Rewards {
        unit: String,
        rewards: Vec<(i8, u8, i64)>,
    },
    TrimScores {
        keep: u32,
    },
    TrimDeltas {
        keep: u32,
    },
    TrimRewards {
        keep: u32,
    },
    RemoveScores {
        prefix: String,
    },
    RemoveDeltas {
        prefix: String,
    },
    RemoveRewards {
        prefix: String,
    },
    Options {
        superseding: u8,
        num_trials: u32,
        num_deltas: u32,
        num_rewards: u32,
    },
    ResetOptions,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct OpStep {
    pub op: Op,
    /// Whether all the scores are read and compared after this operation.
    pub compare: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct CacheCase {
    pub lib: Lib,
    pub history: Vec<PastTrial>,
    pub steps: Vec<OpStep>,
}

type RawOp = (u8, u16, u16, Vec<u8>, bool);

fn pick(v: &[String], n: u16) -> Option<String> {
    (!v.is_empty()).then(|| v[n as usize % v.len()].clone())
}

fn decode_op(lib: &Lib, (kind, n, m, bytes, _): &RawOp) -> Op {
    let units = lib.unit_ids();
    let exercises = lib.exercise_ids();
    let averaged: Vec<String> = lib
        .courses
        .iter()
        .flat_map(|c| std::iter::once(c.id.clone()).chain(c.lessons.iter().map(|l| l.id.clone())))
        .collect();
    let byte = |i: usize| bytes.get(i).copied().unwrap_or(7);
    let unit = pick(&units, *n).unwrap_or_default();
    let exercise = pick(&exercises, *n).unwrap_or_else(|| unit.clone());
    let prefix = if m % 4 == 0 {
        unit.chars().take(unit.len().saturating_sub(1)).collect()
    } else {
        unit.clone()
    };
    let ago = |b: u8| DAY * (1 + i64::from(b)) + 3600 * (1 + i64::from(b % 20));
    match kind % 32 {
        0..=5 => Op::Score {
            exercise,
            score: 1 + byte(0) % 5,
        },
        6..=8 => Op::Batch {
            answers: bytes.iter().map(|b| b % 6).collect(),
        },
        9..=11 => Op::Blacklist { unit },
        12..=13 => Op::Unblacklist { unit },
        14..=15 => Op::UnblacklistPrefix { prefix },
        16..=18 => {
            let trials = bytes
                .chunks(2)
                .enumerate()
                .filter_map(|(i, b)| {
                    Some(PastTrial {
                        exercise: if m % 2 == 0 {
                            exercise.clone()
                        } else {
                            pick(&exercises, n.wrapping_add(i as u16))?
                        },
                        score: 1 + b[0] % 5,
                        seconds_ago: ago(*b.get(1).unwrap_or(&3) / 4) + i as i64,
                    })
                })
                .collect();
            Op::Trials { trials }
        }
        19..=20 => Op::Deltas {
            exercise,
            deltas: bytes
                .chunks(2)
                .enumerate()
                .map(|(i, b)| {
                    (
                        (b[0] as i8) / 4,
                        ago(*b.get(1).unwrap_or(&1) / 8) + i as i64,
                    )
                })
                .collect(),
        },
        21..=23 => Op::Rewards {
            unit: pick(&averaged, *n).unwrap_or_default(),
            rewards: bytes
                .chunks(2)
                .enumerate()
                .map(|(i, b)| {
                    (
                        b[0] as i8,
                        b[0] % 101,
                        ago(*b.get(1).unwrap_or(&1) / 16) + i as i64,
                    )
                })
                .collect(),
        },
        24 => Op::TrimScores {
            keep: u32::from(byte(0) % 4),
        },
        25 => Op::TrimDeltas {
            keep: u32::from(byte(0) % 3),
        },
        26 => Op::TrimRewards {
            keep: u32::from(byte(0) % 3),
        },
        27 => Op::RemoveScores { prefix },
        28 => Op::RemoveDeltas { prefix },
        29 => Op::RemoveRewards { prefix },
        30 => Op::Options {
            superseding: byte(0) % 6,
            num_trials: 1 + u32::from(byte(1) % 8),
            num_deltas: 1 + u32::from(byte(2) % 5),
            num_rewards: 1 + u32::from(byte(3) % 5),
        },
        _ => Op::ResetOptions,
    }
}

fn apply_op(world: &mut World, op: &Op, scored: &mut i64) -> Res {
    let now = world.now;
    match op {
        Op::Score { exercise, score } => {
            *scored += 1;
            world.score(exercise, *score, now - 80_000 + *scored)?;
        }
        Op::Batch { answers } => {
            let batch = world.batch(None)?;
            if !answers.is_empty() {
                for (i, e) in batch.iter().enumerate() {
                    let score = answers[i % answers.len()];
                    if score > 0 {
                        *scored += 1;
                        world.score(e.id.as_str(), score, now - 80_000 + *scored)?;
                    }
                }
            }
        }
        Op::Blacklist { unit } => world
            .trane
            .add_to_blacklist(u(unit))
            .must("blacklist-error", "blacklisting")?,
        Op::Unblacklist { unit } => world
            .trane
            .remove_from_blacklist(u(unit))
            .must("blacklist-error", "removing from the blacklist")?,
        Op::UnblacklistPrefix { prefix } => world
            .trane
            .remove_prefix_from_blacklist(prefix)
            .must("blacklist-error", "removing a prefix from the blacklist")?,
        Op::Trials { trials } => world.record(trials)?,
        Op::Deltas { exercise, deltas } => {
            let deltas: Vec<ExerciseDelta> = deltas
                .iter()
                .map(|(d, ago)| ExerciseDelta {
                    exercise_id: u(exercise),
                    delta: f32::from(*d) / 8.0,
                    timestamp: now - ago,
                })
                .collect();
            world
                .trane
                .record_exercise_deltas(&deltas)
                .must("deltas-error", "recording deltas")?;
        }
        Op::Rewards { unit, rewards } => {
            let rewards: Vec<UnitReward> = rewards
                .iter()
                .map(|(v, w, ago)| UnitReward {
                    unit_id: u(unit),
                    value: f32::from(*v) / 128.0,
                    weight: f32::from(*w) / 100.0,
                    timestamp: now - ago,
                })
                .collect();
            world
                .trane
                .record_unit_rewards(&rewards)
                .must("rewards-error", "recording rewards")?;
        }
        Op::TrimScores { keep } => world
            .trane
            .trim_scores(*keep)
            .must("trim-error", "trimming scores")?,
        Op::TrimDeltas { keep } => world
            .trane
            .trim_deltas(*keep)
            .must("trim-error", "trimming deltas")?,
        Op::TrimRewards { keep } => world
            .trane
            .trim_rewards(*keep)
            .must("trim-error", "trimming rewards")?,
        Op::RemoveScores { prefix } => world
            .trane
            .remove_scores_with_prefix(prefix)
            .must("remove-error", "removing scores")?,
        Op::RemoveDeltas { prefix } => world
            .trane
            .remove_deltas_with_prefix(prefix)
            .must("remove-error", "removing deltas")?,
        Op::RemoveRewards { prefix } => world
            .trane
            .remove_rewards_with_prefix(prefix)
            .must("remove-error", "removing rewards")?,
        Op::Options {
            superseding,
            num_trials,
            num_deltas,
            num_rewards,
        } => {
            let mut o = world.trane.get_scheduler_options();
            o.superseding_score = f32::from(*superseding) * 0.9;
            o.num_trials = *num_trials as _;
            o.num_deltas = *num_deltas as _;
            o.num_rewards = *num_rewards as _;
            world.set_options(o);
        }
        Op::ResetOptions => world.trane.reset_scheduler_options(),
    }
    Ok(())
}

fn all_scores(trane: &Trane, lib: &Lib) -> Res<BTreeMap<String, Option<f32>>> {
    lib.unit_ids()
        .into_iter()
        .map(|id| {
            let score = trane
                .get_unit_score(u(&id))
                .must("score-error", "getting the score of a unit")?;
            Ok((id, score))
        })
        .collect()
}

pub struct C07;
impl Prop for C07 {
    type Case = CacheCase;
    fn id(&self) -> &'static str {
        "C07"
    }
    fn rule(&self) -> &'static str {
        "at least three operations changed the score of some unit as seen by the freshly opened instance"
    }
    fn quick_cases(&self) -> usize {
        1500
    }
    fn strategy(&self, thorough: bool) -> BoxedStrategy<CacheCase> {
        let params = |courses, lessons, exercises| LibParams {
            courses,
            lessons,
            exercises,
            superseding: true,
            encompassing: true,
            min_lessons: 1,
            ..LibParams::default()
        };
        let op = (
            any::<u8>(),
            any::<u16>(),
            any::<u16>(),
            vec(any::<u8>(), 1..8),
            prop::bool::weighted(0.7),
        );
        (
            prop_oneof![
                3 => lib_strategy(params(3, 3, 2)),
                1 => lib_strategy(params(5, 3, 3))
            ],
            vec(any::<u8>(), 1..16),
            vec(op, 1..=if thorough { 30 } else { 14 }),
        )
            .prop_map(|(lib, bytes, raw)| CacheCase {
                history: history(&lib, &bytes),
                steps: raw
                    .iter()
                    .map(|r| OpStep {
                        op: decode_op(&lib, r),
                        compare: r.4,
                    })
                    .collect(),
                lib,
            })
            .boxed()
    }
    fn check(&self, case: &CacheCase, stats: &mut Stats) -> Res {
        if case.lib.num_exercises() == 0 {
            return Ok(());
        }
        let mut world = World::new(&case.lib)?;
        world.record(&case.history)?;
        let mut scored = 0;
        let mut before = all_scores(&world.trane, &case.lib)?;
        let mut changes = 0;
        for (i, step) in case.steps.iter().enumerate() {
            apply_op(&mut world, &step.op, &mut scored)?;
            if !step.compare && i + 1 < case.steps.len() {
                continue;
            }
            let mut fresh = world.fresh()?;
            fresh.set_scheduler_options(world.trane.get_scheduler_options());
            let live = all_scores(&world.trane, &case.lib)?;
            let expected = all_scores(&fresh, &case.lib)?;
            for (id, want) in &expected {
                let got = live[id];
                let same = match (got, *want) {
                    (Some(a), Some(b)) => (a - b).abs() < 1e-4,
                    (a, b) => a.is_none() && b.is_none(),
                };
                check!(
                    same,
                    "stale-score",
                    "after {:?} the score of {id} is {got:?}, but {want:?} after reopening the library",
                    step.op
                );
            }
            let name = format!("{:?}", step.op);
            let name = name.split([' ', '{']).next().unwrap_or("");
            stats.hit(&format!("compared_after_{name}"));
            if expected != before {
                changes += 1;
                stats.hit(&format!("changed_by_{name}"));
            }
            before = expected;
        }
        if changes >= 3 {
            stats.mark_nontrivial();
        }
        Ok(())
    }
}

// ---------------------------------------------------------------------------------------------
// C08: the score of a single exercise.

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct TrialSpec {
    /// In quarters of a point.
    pub score4: u8,
    pub seconds_ago: i64,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct ScoreCase {
    pub declarative: bool,
    /// From newest to oldest.
    pub trials: Vec<TrialSpec>,
    /// In eighths of a point, with the seconds since they were recorded.
    pub deltas: Vec<(i8, i64)>,
    /// Value in hundredths, weight in hundredths, days since.
    pub lesson_rewards: Vec<(i8, u8, u16)>,
    pub course_rewards: Vec<(i8, u8, u16)>,
    pub num_trials: u32,
    pub num_deltas: u32,
    pub num_rewards: u32,
    /// A permutation seed for the order of recording.
    pub order: u64,
}

/// The documented scoring model, in double precision.
pub mod reference {
    pub const DAY: f64 = 86_400.0;

    /// `(score, timestamp)` from newest to oldest.
    pub type Entries = Vec<(f64, i64)>;

    fn decay(declarative: bool) -> f64 {
        if declarative { -0.4 } else { -0.2 }
    }

    pub fn retrievability(declarative: bool, days: f64, stability: f64) -> f64 {
        let d = decay(declarative);
        let factor = 0.9f64.powf(1.0 / d) - 1.0;
        (1.0 + factor * days / stability).powf(d).clamp(0.0, 1.0)
    }

    pub fn weighted(entries: &Entries) -> f64 {
        if entries.is_empty() {
            return 0.0;
        }
        let newest = entries[0].1;
        let (mut tn, mut td, mut pn, mut pd) = (0.0, 0.0, 0.0, 0.0);
        for (i, (v, ts)) in entries.iter().enumerate() {
            let weeks = ((newest - ts) as f64 / DAY / 7.0).max(0.0);
            let tw = 0.95f64.powf(weeks).max(0.1);
            let pw = 0.95f64.powi(i as i32).max(0.1);
            tn += tw * v;
            td += tw;
            pn += pw * v;
            pd += pw;
        }
        0.8 * tn / td + 0.2 * pn / pd
    }

    pub fn stability(declarative: bool, trials: &Entries) -> f64 {
        let failures = trials.iter().filter(|t| t.0 < 3.0).count() as f64;
        let mut difficulty = (1.0 + 9.0 * failures / trials.len() as f64).clamp(1.0, 10.0);
        let mut s = 1.0f64;
        let chronological: Vec<_> = trials.iter().rev().collect();
        for w in chronological.windows(2) {
            let days = ((w[1].1 - w[0].1) as f64 / DAY).max(0.0);
            let score = w[1].0;
            let p = (score - 1.0) / 4.0 - 0.5;
            let e = (11.0 - difficulty) / 5.0;
            let spacing = if p <= 0.0 {
                1.0
            } else {
                (1.0 + 0.65 * (1.0 - retrievability(declarative, days, s))).clamp(1.0, 1.65)
            };
            s = (s * (1.0 + 2.5 * p * e * spacing * days.min(1.0))).clamp(0.5, 730.0);
            let d = (difficulty + (3.0 - score) / 4.0 * 1.05).clamp(1.0, 10.0);
            difficulty = (0.16 * 5.0 + 0.84 * d).clamp(1.0, 10.0);
        }
        s
    }

    pub fn velocity(trials: &Entries) -> Option<f64> {
        if trials.len() < 2 {
            return None;
        }
        let oldest = trials.last().unwrap().1;
        let n = trials.len() as f64;
        let ts: Vec<f64> = trials.iter().map(|t| (t.1 - oldest) as f64 / DAY).collect();
        let mean_t = ts.iter().sum::<f64>() / n;
        let mean_s = trials.iter().map(|t| t.0).sum::<f64>() / n;
        let cov: f64 = ts
            .iter()
            .zip(trials)
            .map(|(t, s)| (t - mean_t) * (s.0 - mean_s))
            .sum();
        let var: f64 = ts.iter().map(|t| (t - mean_t) * (t - mean_t)).sum();
        if var < 1e-9 {
            return Some(0.0);
        }
        Some(cov / var)
    }

    pub struct Scored {
        pub value: f64,
        pub urgency: f64,
        /// The value depends on a condition too close to its threshold.
        pub unsure: bool,
    }

    pub fn score(declarative: bool, trials: &Entries, deltas: &Entries, now: i64) -> Scored {
        if trials.is_empty() {
            return Scored {
                value: 0.0,
                urgency: 1.0,
                unsure: false,
            };
        }
        let s = stability(declarative, trials);
        let days = ((now - trials[0].1) as f64 / DAY).max(0.0);
        let r = retrievability(declarative, days, s);
        let avg = weighted(trials);
        let floor = trials.len() >= 2 && avg >= 4.0 && days >= 50.0;
        let unsure = trials.len() >= 2
            && days > 49.99
            && avg > 3.999
            && ((avg - 4.0).abs() < 1e-3 || (days - 50.0).abs() < 1e-2);
        let eff = if floor { r.max(0.75) } else { r };
        let delta = if deltas.len() < 2 {
            0.0
        } else {
            weighted(deltas) * eff / 4.0
        };
        Scored {
            value: (eff * avg + delta).clamp(0.0, 5.0),
            urgency: 1.0 - r,
            unsure,
        }
    }

    /// `(value, weight, timestamp)`.
    pub type Rewards = Vec<(f64, f64, i64)>;

    fn average(rewards: &Rewards, now: i64) -> (f64, bool) {
        let (mut n, mut d, mut unsure) = (0.0, 0.0, false);
        for (v, w, ts) in rewards {
            let days = ((now - ts) / 86_400).max(0) as f64;
            let decay = 0.5f64.powf(days / 14.0);
            unsure |= (w * decay - 0.05).abs() < 1e-4;
            if w * decay < 0.05 {
                continue;
            }
            n += v * decay * w * decay;
            d += w * decay;
        }
        (if d == 0.0 { 0.0 } else { n / d }, unsure)
    }

    /// The reward, and whether it is too close to call.
    pub fn reward(course: &Rewards, lesson: &Rewards, now: i64) -> (f64, bool) {
        let (c, u1) = average(course, now);
        let (l, u2) = average(lesson, now);
        let value = match (course.is_empty(), lesson.is_empty()) {
            (true, true) => 0.0,
            (true, false) => l,
            (false, true) => c,
            (false, false) => 0.3 * c + 0.7 * l,
        };
        (value, u1 || u2)
    }

    pub fn applies(reward: f64, trials: &Entries, now: i64) -> bool {
        if trials.len() <= 2 {
            return false;
        }
        let avg = trials.iter().take(3).map(|t| t.0).sum::<f64>() / 3.0;
        let recent = (now - trials[0].1) as f64 / DAY < 7.0;
        !(recent && (reward > 0.0 && avg < 3.0 || reward < 0.0 && avg > 3.5))
    }
}

fn one_exercise(declarative: bool) -> Lib {
    Lib {
        courses: vec![Course {
            id: "c".to_string(),
            lessons: vec![Lesson {
                id: "c::l".to_string(),
                exercises: vec![Exercise {
                    id: "c::l::e".to_string(),
                    declarative,
                }],
                ..Lesson::default()
            }],
            ..Course::default()
        }],
    }
}

fn shuffled<T>(mut v: Vec<T>, mut seed: u64) -> Vec<T> {
    for i in (1..v.len()).rev() {
        seed = seed
            .wrapping_mul(6_364_136_223_846_793_005)
            .wrapping_add(1_442_695_040_888_963_407);
        v.swap(i, (seed >> 33) as usize % (i + 1));
    }
    v
}

fn trials_strategy(max: usize) -> BoxedStrategy<Vec<TrialSpec>> {
    let gap = prop_oneof![
        2 => 1800i64..20_000,
        4 => (0i64..6).prop_map(|d| d * DAY + 7200),
        3 => (1i64..40).prop_map(|d| d * DAY + 1000),
        1 => (40i64..400).prop_map(|d| d * DAY + 3000),
    ];
    // Not within an hour of the limit of a week, because rewards go by the real clock.
    let first = prop_oneof![
        6 => (1i64..5).prop_map(|h| h * 5000),
        4 => (0i64..7).prop_map(|d| d * DAY + 10_000),
        3 => (7i64..30).prop_map(|d| d * DAY + 10_000),
        4 => (45i64..75).prop_map(|d| d * DAY + 10_000),
        1 => (75i64..900).prop_map(|d| d * DAY + 10_000),
        1 => Just(-3000i64),
    ];
    let score = prop_oneof![
        3 => (1u8..=5).prop_map(|s| s * 4),
        2 => Just(20u8),
        1 => 4u8..=20
    ];
    (
        first,
        prop_oneof![
            8 => vec((score.clone(), gap.clone()), 0..=4),
            12 => vec((score.clone(), gap), 0..=max),
            // All at once. Their order is not known, so all scores are the same.
            1 => (score, 2usize..=4).prop_map(|(s, n)| vec![(s, 0i64); n]),
        ],
    )
        .prop_map(|(first, raw)| {
            let mut ago = first;
            raw.into_iter()
                .enumerate()
                .map(|(i, (score4, gap))| {
                    if i > 0 {
                        ago += gap;
                    }
                    TrialSpec {
                        score4,
                        seconds_ago: ago,
                    }
                })
                .collect()
        })
        .boxed()
}

fn rewards_strategy() -> BoxedStrategy<Vec<(i8, u8, u16)>> {
    prop_oneof![
        2 => Just(vec![]),
        3 => vec((-100i8..=100, 0u8..=100, prop_oneof![3 => 0u16..10, 2 => 0u16..80]), 1..8)
    ]
    .boxed()
}

/// A tuple that is close to what the scorer returns.
fn close(a: f32, b: f64, tol: f64) -> bool {
    (f64::from(a) - b).abs() <= tol
}

pub struct C08;
impl Prop for C08 {
    type Case = ScoreCase;
    fn id(&self) -> &'static str {
        "C08"
    }
    fn rule(&self) -> &'static str {
        "the exercise has at least three trials and its score lies strictly between 0 and 5"
    }
    fn quick_cases(&self) -> usize {
        6000
    }
    fn strategy(&self, thorough: bool) -> BoxedStrategy<ScoreCase> {
        let max = if thorough { 40 } else { 26 };
        (
            any::<bool>(),
            trials_strategy(max),
            prop_oneof![
                2 => Just(vec![]),
                3 => vec((-32i8..=32, 0i64..40), 1..14)
            ],
            rewards_strategy(),
            rewards_strategy(),
            prop_oneof![2 => Just((20u32, 10u32, 10u32)), 1 => (1u32..25, 1u32..14, 1u32..14)],
            any::<u64>(),
        )
            .prop_map(
                |(declarative, trials, deltas, lesson_rewards, course_rewards, nums, order)| {
                    ScoreCase {
                        declarative,
                        trials,
                        deltas: deltas
                            .iter()
                            .scan(5000i64, |ago, (d, days)| {
                                *ago += days * DAY + 1700;
                                Some((*d, *ago))
                            })
                            .collect(),
                        lesson_rewards,
                        course_rewards,
                        num_trials: nums.0,
                        num_deltas: nums.1,
                        num_rewards: nums.2,
                        order,
                    }
                },
            )
            .boxed()
    }
    fn check(&self, case: &ScoreCase, stats: &mut Stats) -> Res {
        let lib = one_exercise(case.declarative);
        let mut world = World::new(&lib)?;
        let mut o = world.trane.get_scheduler_options();
        o.num_trials = case.num_trials as _;
        o.num_deltas = case.num_deltas as _;
        o.num_rewards = case.num_rewards as _;
        world.set_options(o);
        let now = world.now;
        let id = u("c::l::e");

        let trials: Vec<ExerciseTrial> = case
            .trials
            .iter()
            .map(|t| ExerciseTrial {
                exercise_id: id,
                score: f32::from(t.score4) / 4.0,
                timestamp: now - t.seconds_ago,
            })
            .collect();
        let deltas: Vec<ExerciseDelta> = case
            .deltas
            .iter()
            .map(|(d, ago)| ExerciseDelta {
                exercise_id: id,
                delta: f32::from(*d) / 8.0,
                timestamp: now - ago,
            })
            .collect();
        // Distinct values, because similar rewards are merged.
        let rewards = |unit: &str, specs: &[(i8, u8, u16)]| -> Vec<UnitReward> {
            let mut rewards: Vec<UnitReward> = specs
                .iter()
                .enumerate()
                .map(|(i, (v, w, days))| UnitReward {
                    unit_id: u(unit),
                    value: f32::from(*v) / 100.0 + i as f32 * 1e-4,
                    weight: f32::from(*w) / 100.0,
                    timestamp: now - i64::from(*days) * DAY - 3600 - i as i64,
                })
                .collect();
            rewards.sort_by_key(|r| -r.timestamp);
            rewards
        };
        let lesson_rewards = rewards("c::l", &case.lesson_rewards);
        let course_rewards = rewards("c", &case.course_rewards);

        // Record everything in an arbitrary order, in two portions.
        let mixed = shuffled(trials.clone(), case.order);
        let (a, b) = mixed.split_at(mixed.len() / 2);
        for part in [a, b] {
            world
                .trane
                .record_exercise_scores(part)
                .must("record-error", "recording trials")?;
        }
        world
            .trane
            .record_exercise_deltas(&shuffled(deltas.clone(), case.order ^ 1))
            .must("record-error", "recording deltas")?;
        let all = lesson_rewards
            .iter()
            .chain(&course_rewards)
            .cloned()
            .collect();
        world
            .trane
            .record_unit_rewards(&shuffled(all, case.order ^ 2))
            .must("record-error", "recording rewards")?;

        let got = world
            .trane
            .get_unit_score(id)
            .must("score-error", "getting the score")?;
        check!(got.is_some(), "no-score", "the exercise has no score");
        let got = got.unwrap_or_default();
        check!(
            got.is_finite() && (0.0..=5.0).contains(&got),
            "out-of-range",
            "the score is {got}"
        );

        let entries: reference::Entries = trials
            .iter()
            .take(case.num_trials as usize)
            .map(|t| (f64::from(t.score), t.timestamp))
            .collect();
        let delta_entries: reference::Entries = deltas
            .iter()
            .take(case.num_deltas as usize)
            .map(|d| (f64::from(d.delta), d.timestamp))
            .collect();
        let reward_entries = |r: &[UnitReward]| -> reference::Rewards {
            r.iter()
                .take(case.num_rewards as usize)
                .map(|r| (f64::from(r.value), f64::from(r.weight), r.timestamp))
                .collect()
        };
        let want = reference::score(case.declarative, &entries, &delta_entries, now);
        let (reward, unsure) = reference::reward(
            &reward_entries(&course_rewards),
            &reward_entries(&lesson_rewards),
            now,
        );
        let applies = reward.abs() > 1e-6 && reference::applies(reward, &entries, now);
        let expected = if applies {
            (want.value + reward).clamp(0.0, 5.0)
        } else {
            want.value
        };
        if want.unsure || unsure || (reward != 0.0 && reward.abs() < 1e-5) {
            stats.hit("too_close_to_call");
        } else {
            check!(
                close(got, expected, 3e-3),
                "wrong-score",
                "the score is {got}, expected {expected}: {} without the reward {reward} ({}applied)",
                want.value,
                if applies { "" } else { "not " }
            );
        }
        stats.hit_if(applies && reward > 0.0, "positive_rewards_applied");
        stats.hit_if(applies && reward < 0.0, "negative_rewards_applied");
        stats.hit_if(reward != 0.0 && !applies, "rewards_not_applied");
        stats.hit_if(delta_entries.len() >= 2, "with_deltas");
        stats.hit_if(
            trials.len() > case.num_trials as usize,
            "more_trials_than_used",
        );

        // The scorer by itself: urgency, velocity and invariance under shifts in time.
        let kind = || {
            if case.declarative {
                ExerciseType::Declarative
            } else {
                ExerciseType::Procedural
            }
        };
        let scorer = PowerLawScorer {};
        let alone = scorer
            .score(kind(), &trials, &deltas, now)
            .must("scorer-error", "scoring the trials")?;
        let full: reference::Entries = trials
            .iter()
            .map(|t| (f64::from(t.score), t.timestamp))
            .collect();
        let full_deltas: reference::Entries = deltas
            .iter()
            .map(|d| (f64::from(d.delta), d.timestamp))
            .collect();
        let want = reference::score(case.declarative, &full, &full_deltas, now);
        if !want.unsure {
            check!(
                close(alone.value, want.value, 3e-3),
                "wrong-score",
                "the scorer returns {}, expected {}",
                alone.value,
                want.value
            );
        }
        check!(
            close(alone.urgency, want.urgency, 2e-3),
            "wrong-urgency",
            "the urgency is {}, expected {}",
            alone.urgency,
            want.urgency
        );
        match (alone.velocity, reference::velocity(&full)) {
            (None, None) => {}
            (Some(a), Some(b)) => check!(
                close(a, b, 2e-3 * (1.0 + b.abs())),
                "wrong-velocity",
                "the velocity is {a}, expected {b}"
            ),
            (a, b) => check!(
                false,
                "wrong-velocity",
                "the velocity is {a:?}, expected {b:?}"
            ),
        }
        let shift = (case.order % 2_000_000_000) as i64 - 1_000_000_000;
        let shifted_trials: Vec<ExerciseTrial> = trials
            .iter()
            .map(|t| ExerciseTrial {
                timestamp: t.timestamp + shift,
                ..t.clone()
            })
            .collect();
        let shifted_deltas: Vec<ExerciseDelta> = deltas
            .iter()
            .map(|d| ExerciseDelta {
                timestamp: d.timestamp + shift,
                ..d.clone()
            })
            .collect();
        let shifted = scorer
            .score(kind(), &shifted_trials, &shifted_deltas, now + shift)
            .must("scorer-error", "scoring the trials")?;
        check!(
            (shifted.value - alone.value).abs() < 1e-4
                && (shifted.urgency - alone.urgency).abs() < 1e-4,
            "depends-on-the-epoch",
            "the score is {} at one time and {} with everything {shift} seconds later",
            alone.value,
            shifted.value
        );
        // Forgetting: without deltas, the score never rises as time passes without practice, as
        // long as the exercise is not given the benefit of the doubt for a long absence.
        if want.value > 0.0 && deltas.is_empty() {
            let later = scorer
                .score(kind(), &trials, &[], now + DAY)
                .must("scorer-error", "scoring the trials")?;
            check!(
                later.urgency >= alone.urgency - 1e-5,
                "urgency-falls",
                "the urgency falls from {} to {} in a day without practice",
                alone.urgency,
                later.urgency
            );
        }
        if trials.len() >= 3 && got > 0.0 && got < 5.0 {
            stats.mark_nontrivial();
        }
        Ok(())
    }
}

// ---------------------------------------------------------------------------------------------
// C09: the scores of lessons and courses.

pub struct C09;
impl Prop for C09 {
    type Case = SessionCase;
    fn id(&self) -> &'static str {
        "C09"
    }
    fn rule(&self) -> &'static str {
        "some lesson and some course had different positive scores"
    }
    fn quick_cases(&self) -> usize {
        1500
    }
    fn strategy(&self, thorough: bool) -> BoxedStrategy<SessionCase> {
        session_strategy(SessionParams {
            lib: LibParams {
                courses: if thorough { 7 } else { 4 },
                superseding: true,
                encompassing: true,
                ..LibParams::default()
            },
            steps: if thorough { 24 } else { 12 },
            blacklist: true,
            review: false,
            filters: false,
            metadata_filters: false,
            scores: true,
            batch_sizes: false,
        })
    }
    fn check(&self, case: &SessionCase, stats: &mut Stats) -> Res {
        let idx = Index::new(&case.lib);
        let mut compare = |trane: &Trane, blacklist: &BTreeSet<String>| -> Res {
            let model = Model::new(trane, &idx, blacklist)?;
            let mut seen = BTreeSet::new();
            for id in idx.lessons.keys().chain(idx.courses.keys()) {
                let got = trane
                    .get_unit_score(u(id))
                    .must("score-error", "getting the score of a unit")?;
                let Some(want) = model.unit_score(id) else {
                    stats.hit("too_close_to_call");
                    continue;
                };
                stats.hit(match (want.is_some(), idx.lessons.contains_key(id)) {
                    (true, true) => "lesson_scores",
                    (true, false) => "course_scores",
                    (false, true) => "lessons_without_score",
                    (false, false) => "courses_without_score",
                });
                let same = match (got, want) {
                    (Some(a), Some(b)) => (a - b).abs() < 1e-3,
                    (a, b) => a.is_none() && b.is_none(),
                };
                check!(
                    same,
                    "wrong-average",
                    "the score of {id} is {got:?}, expected {want:?}; blacklist {blacklist:?}, exercises {:?}",
                    model.scores
                );
                if let Some(s) = want
                    && s > 0.0
                {
                    seen.insert((s * 1000.0) as i32);
                }
            }
            if seen.len() >= 2 {
                stats.mark_nontrivial();
            }
            Ok(())
        };
        let (world, state) = run_session_in(case, &mut |ev| {
            compare(&ev.world.trane, &ev.state.blacklist)
        })?;
        compare(&world.trane, &state.blacklist)
    }
}

// ---------------------------------------------------------------------------------------------
// C13: the propagation of rewards.

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct RewardCase {
    pub lib: Lib,
    pub scores: Vec<(String, u8)>,
}

pub type Edges = BTreeMap<String, Vec<(String, f32)>>;

/// The units that each unit encompasses, with the weights.
pub fn encompass_edges(lib: &Lib) -> Edges {
    let mut edges = Edges::new();
    let mut add = |id: &str, deps: &[String], listed: &[(String, f32)]| {
        let out = edges.entry(id.to_string()).or_default();
        out.extend(listed.iter().cloned());
        for d in deps {
            if !listed.iter().any(|(l, _)| l == d) {
                out.push((d.clone(), 1.0));
            }
        }
    };
    for c in &lib.courses {
        add(&c.id, &c.deps, &c.encompassed);
        for l in &c.lessons {
            add(&l.id, &l.deps, &l.encompassed);
        }
    }
    edges
}

pub fn reversed(edges: &Edges) -> Edges {
    let mut out = Edges::new();
    for (from, list) in edges {
        for (to, w) in list {
            out.entry(to.clone()).or_default().push((from.clone(), *w));
        }
    }
    out
}

/// All the `(value, weight)` pairs with which the propagation may arrive at each unit.
fn arrivals(edges: &Edges, roots: [&str; 2], init: f32) -> BTreeMap<String, Vec<(f32, f32)>> {
    let stop = |v: f32, w: f32| v.abs() < 0.2 || w < 0.2;
    let mut out: BTreeMap<String, Vec<(f32, f32)>> = BTreeMap::new();
    let mut stack: Vec<(String, f32, f32)> = vec![];
    for r in roots {
        for (to, e) in edges.get(r).into_iter().flatten() {
            stack.push((to.clone(), e * init, *e));
        }
    }
    while let Some((id, v, w)) = stack.pop() {
        if stop(v, w) {
            continue;
        }
        let known = out.entry(id.clone()).or_default();
        if known
            .iter()
            .any(|(a, b)| (a - v).abs() < 1e-6 && (b - w).abs() < 1e-6)
        {
            continue;
        }
        known.push((v, w));
        for (to, e) in edges.get(&id).into_iter().flatten() {
            stack.push((to.clone(), e * 0.9 * v, e * 0.8 * w));
        }
    }
    out
}

pub struct C13;
impl Prop for C13 {
    type Case = RewardCase;
    fn id(&self) -> &'static str {
        "C13"
    }
    fn rule(&self) -> &'static str {
        "at least one score was propagated over two edges or more, or arrived at a unit by two different paths"
    }
    fn quick_cases(&self) -> usize {
        2000
    }
    fn strategy(&self, thorough: bool) -> BoxedStrategy<RewardCase> {
        let params = |courses, lessons, encompassing| LibParams {
            courses,
            lessons,
            exercises: 1,
            encompassing,
            min_lessons: 1,
            min_exercises: 1,
            ..LibParams::default()
        };
        let big = if thorough { 9 } else { 6 };
        (
            prop_oneof![
                2 => lib_strategy(params(big, 3, true)),
                1 => lib_strategy(params(big, 3, false)),
                1 => lib_strategy(params(2, big + 2, true)),
            ],
            vec((any::<u16>(), 1u8..=5), 1..8),
        )
            .prop_map(|(lib, raw)| {
                let exercises = lib.exercise_ids();
                RewardCase {
                    scores: raw
                        .iter()
                        .filter_map(|(n, s)| Some((pick(&exercises, *n)?, *s)))
                        .collect(),
                    lib,
                }
            })
            .boxed()
    }
    fn check(&self, case: &RewardCase, stats: &mut Stats) -> Res {
        let idx = Index::new(&case.lib);
        let world = World::new(&case.lib)?;
        let edges = encompass_edges(&case.lib);
        let back = reversed(&edges);
        let mut units: Vec<String> = case.lib.unit_ids();
        units.extend(["missing0".to_string(), "missing1".to_string()]);
        let mut model: BTreeMap<String, Vec<(f32, f32, i64)>> = BTreeMap::new();
        for (i, (exercise, score)) in case.scores.iter().enumerate() {
            // Far enough apart for no two rewards to be merged.
            let timestamp = world.now - 40 * DAY + i as i64 * 2 * DAY;
            world.score(exercise, *score, timestamp)?;
            let (course, lesson, _) = idx.exercises[exercise.as_str()];
            let init = match score {
                5 => 0.8,
                4 => 0.4,
                3 => -0.3,
                2 => -0.5,
                _ => -1.0f32,
            };
            let graph = if init > 0.0 { &edges } else { &back };
            let arrivals = arrivals(graph, [&lesson.id, &course.id], init);
            // Where one path is the best by value but not by weight, what lies behind it depends
            // on the order in which the paths are taken.
            let contested = arrivals.values().any(|a| {
                let v = a.iter().map(|x| x.0.abs()).fold(0.0, f32::max);
                let w = a.iter().map(|x| x.1).fold(0.0, f32::max);
                !a.iter().any(|x| x.0.abs() > v - 1e-6 && x.1 > w - 1e-6)
                    || a.iter().any(|x| x.0.abs() > v - 1e-6 && x.1 < w - 1e-6)
            });
            // Too close to the thresholds at which the propagation stops.
            let close = |v: f32| (v.abs() - 0.2).abs() < 1e-5;
            let unsure = |g: &Edges| {
                arrivals.iter().any(|(id, a)| {
                    g.get(id).into_iter().flatten().any(|(_, e)| {
                        a.iter()
                            .any(|(v, w)| close(e * 0.9 * v) || close(e * 0.8 * w))
                    })
                })
            };
            if unsure(graph) {
                stats.hit("too_close_to_call");
                return Ok(());
            }
            let mut long = false;
            for id in &units {
                let rows = world
                    .trane
                    .get_rewards(u(id), 30)
                    .must("rewards-error", "getting the rewards")?;
                let expected = arrivals.get(id);
                let new: Vec<_> = rows.iter().filter(|r| r.timestamp == timestamp).collect();
                match expected {
                    None => check!(
                        new.is_empty(),
                        "unexpected-reward",
                        "{id} got {new:?} for the score {score} of {exercise}, although it is not within reach"
                    ),
                    Some(a) => {
                        check!(
                            new.len() <= 1,
                            "several-rewards",
                            "{id} got {new:?} for a single score"
                        );
                        let best = a.iter().map(|x| x.0.abs()).fold(0.0, f32::max);
                        long |= a.len() > 1 || best < init.abs() * 0.91;
                        if new.is_empty() {
                            check!(
                                contested,
                                "missing-reward",
                                "{id} got no reward for the score {score} of {exercise}, expected one of {a:?}"
                            );
                        }
                        for r in &new {
                            check!(
                                a.iter().any(|(v, w)| (v - r.value).abs() < 1e-4
                                    && (w - r.weight).abs() < 1e-4),
                                "wrong-reward",
                                "{id} got {r:?} for the score {score} of {exercise}, expected one of {a:?}"
                            );
                            check!(
                                contested || (r.value.abs() - best).abs() < 1e-4,
                                "not-the-strongest",
                                "{id} got {r:?} for the score {score} of {exercise}, expected the strongest of {a:?}"
                            );
                        }
                    }
                }
                // Earlier rewards are still there, from newest to oldest.
                let kept = model.entry(id.clone()).or_default();
                let old: Vec<(f32, f32, i64)> = rows
                    .iter()
                    .filter(|r| r.timestamp != timestamp)
                    .map(|r| (r.value, r.weight, r.timestamp))
                    .collect();
                check!(
                    old == *kept,
                    "rewards-lost",
                    "{id} had the rewards {kept:?} and now has {old:?}"
                );
                if let Some(r) = new.first() {
                    kept.insert(0, (r.value, r.weight, r.timestamp));
                    stats.hit(if init > 0.0 {
                        "positive_rewards"
                    } else {
                        "negative_rewards"
                    });
                }
            }
            stats.hit_if(contested, "contested");
            if long {
                stats.mark_nontrivial();
            }
        }
        Ok(())
    }
}

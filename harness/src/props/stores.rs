//! The stores kept next to the library: trials and deltas, rewards, blacklist and review list,
//! saved filters, study sessions and preferences.

use proptest::{collection::vec, prelude::*};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use trane::{
    Trane,
    blacklist::Blacklist,
    data::filter::{SavedFilter, SessionPart, StudySession, UnitFilter},
    data::{ExerciseDelta, ExerciseTrial, SchedulerPreferences, UnitReward, UserPreferences},
    filter_manager::FilterManager,
    practice_deltas::PracticeDeltas,
    practice_rewards::PracticeRewards,
    practice_stats::PracticeStats,
    preferences_manager::PreferencesManager,
    review_list::ReviewList,
    scheduler::ExerciseScheduler,
    study_session_manager::StudySessionManager,
};

use crate::{
    check,
    engine::{OrHarness, OrViolation, Prop, Res, Stats},
    library::{Course, Exercise, Lesson, Lib},
    session::{decode_filter, kv_filter},
    world::{DAY, World, mastery, open, tempdir, u},
};

/// IDs that are easily confused by pattern matching, case folding or byte counting.
const IDS: [&str; 22] = [
    "a", "ab", "a_b", "a%b", "axb", "A", "AB", "a::b", "a::b::c", "a:", "é", "éa", "e", "a'b",
    "a\"b", "a b", "a*", "a?b", "a[b]", "日本", "日", "_",
];

fn id_of(n: u8) -> String {
    IDS[n as usize % IDS.len()].to_string()
}

/// A library of exercises with confusable IDs.
fn confusable_library() -> Lib {
    Lib {
        courses: ["c", "c_x", "cyx", "C"]
            .iter()
            .map(|c| Course {
                id: (*c).to_string(),
                lessons: vec![Lesson {
                    id: format!("{c}::l"),
                    exercises: ["e", "e_1", "eé1"]
                        .iter()
                        .map(|e| Exercise {
                            id: format!("{c}::l::{e}"),
                            declarative: false,
                        })
                        .collect(),
                    ..Lesson::default()
                }],
                ..Course::default()
            })
            .collect(),
    }
}

fn prefix_of(id: &str, cut: u8) -> String {
    let n = id.chars().count();
    match cut % 4 {
        0 => id.to_string(),
        1 => id.chars().take(n.saturating_sub(1)).collect(),
        2 => id.chars().take(1).collect(),
        _ => id.chars().take(n.div_ceil(2)).collect(),
    }
}

// ---------------------------------------------------------------------------------------------
// C10: trials and deltas.

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Table {
    Trials,
    Deltas,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum HistoryOp {
    /// Records `(exercise, value, seconds ago)`.
    Record(Table, Vec<(String, i8, u32)>),
    Score(String, u8, u32),
    Trim(Table, u32),
    RemovePrefix(Table, String),
    Reopen,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct HistoryCase {
    pub ops: Vec<HistoryOp>,
    pub limits: Vec<u32>,
}

/// The rows of one unit: `(value, timestamp)`.
type Rows = Vec<(f32, i64)>;

fn sorted_desc(mut rows: Rows) -> Rows {
    rows.sort_by(|a, b| b.1.cmp(&a.1).then(a.0.total_cmp(&b.0)));
    rows
}

/// Whether `got` is a valid answer to a request for the newest `limit` rows, where the order and
/// choice of rows with the same timestamp is free.
fn valid_newest(got: &Rows, all: &Rows, limit: usize) -> bool {
    let want = sorted_desc(all.clone());
    if got.len() != want.len().min(limit) {
        return false;
    }
    if got.iter().zip(&want).any(|(g, w)| g.1 != w.1) {
        return false;
    }
    // Every row is one of the recorded ones.
    let mut left = want;
    got.iter().all(|g| {
        left.iter()
            .position(|w| w == g)
            .map(|i| left.swap_remove(i))
            .is_some()
    })
}

#[derive(Default)]
struct HistoryModel {
    trials: BTreeMap<String, Rows>,
    deltas: BTreeMap<String, Rows>,
}

impl HistoryModel {
    fn table(&mut self, t: Table) -> &mut BTreeMap<String, Rows> {
        match t {
            Table::Trials => &mut self.trials,
            Table::Deltas => &mut self.deltas,
        }
    }
}

fn read_rows(trane: &Trane, t: Table, id: &str, limit: u32) -> Res<Rows> {
    Ok(match t {
        Table::Trials => trane
            .get_scores(u(id), limit)
            .must("read-error", "getting the trials")?
            .iter()
            .map(|r| (r.score, r.timestamp))
            .collect(),
        Table::Deltas => trane
            .get_deltas(u(id), limit)
            .must("read-error", "getting the deltas")?
            .iter()
            .map(|r| (r.delta, r.timestamp))
            .collect(),
    })
}

fn compare_rows(
    trane: &Trane,
    model: &mut HistoryModel,
    ids: &BTreeSet<String>,
    limits: &[u32],
    when: &str,
) -> Res {
    for t in [Table::Trials, Table::Deltas] {
        for id in ids {
            let all = model.table(t).entry(id.clone()).or_default();
            for limit in limits.iter().copied().chain([1_000_000]) {
                let got = read_rows(trane, t, id, limit)?;
                check!(
                    valid_newest(&got, all, limit as usize),
                    "wrong-history",
                    "{when}, the newest {limit} {t:?} of {id:?} are {got:?}, but those recorded are {:?}",
                    sorted_desc(all.clone())
                );
            }
        }
    }
    Ok(())
}

pub struct C10;
impl Prop for C10 {
    type Case = HistoryCase;
    fn id(&self) -> &'static str {
        "C10"
    }
    fn rule(&self) -> &'static str {
        "some trimming or removal by prefix removed a part but not all of what was recorded"
    }
    fn quick_cases(&self) -> usize {
        1200
    }
    fn strategy(&self, thorough: bool) -> BoxedStrategy<HistoryCase> {
        let table = || prop_oneof![Just(Table::Trials), Just(Table::Deltas)];
        let lib_ids = confusable_library().exercise_ids();
        let lib_ids2 = lib_ids.clone();
        let any_id = (any::<u8>(), any::<u8>()).prop_map(move |(n, m)| {
            if m % 2 == 0 {
                lib_ids[n as usize % lib_ids.len()].clone()
            } else {
                id_of(n % 12)
            }
        });
        let lib_id = any::<u8>().prop_map(move |n| lib_ids2[n as usize % lib_ids2.len()].clone());
        let ago = prop_oneof![3 => (0u32..8).prop_map(|n| n * 50_000 + 200_000), 2 => 100_000u32..40_000_000];
        let op = prop_oneof![
            6 => (table(), vec((any_id.clone(), 1i8..=5, ago), 0..8))
                .prop_map(|(t, v)| HistoryOp::Record(t, v)),
            3 => (lib_id, 1u8..=5, 0u32..80_000).prop_map(|(e, s, a)| HistoryOp::Score(e, s, a)),
            1 => (table(), 0u32..5).prop_map(|(t, n)| HistoryOp::Trim(t, n)),
            2 => (table(), any_id, any::<u8>())
                .prop_map(|(t, id, cut)| HistoryOp::RemovePrefix(t, prefix_of(&id, cut))),
            1 => Just(HistoryOp::Reopen),
        ];
        (
            vec(op, 1..=if thorough { 40 } else { 16 }),
            vec(0u32..8, 1..3),
        )
            .prop_map(|(ops, limits)| HistoryCase { ops, limits })
            .boxed()
    }
    fn check(&self, case: &HistoryCase, stats: &mut Stats) -> Res {
        let lib = confusable_library();
        let mut world = World::new(&lib)?;
        let mut model = HistoryModel::default();
        let mut all_ids: BTreeSet<String> = lib.exercise_ids().into_iter().collect();
        all_ids.extend(IDS.iter().take(12).map(|s| (*s).to_string()));
        // Those with anything recorded so far, and one without.
        let mut ids: BTreeSet<String> = [IDS[0].to_string()].into();
        for op in &case.ops {
            match op {
                HistoryOp::Record(_, rows) => ids.extend(rows.iter().map(|r| r.0.clone())),
                HistoryOp::Score(id, _, _) => {
                    ids.insert(id.clone());
                }
                _ => {}
            }
            match op {
                HistoryOp::Record(t, rows) => {
                    let now = world.now;
                    // The value is made unique enough to tell rows apart.
                    let value = |v: i8, ago: u32| {
                        f32::from(v)
                            + if *t == Table::Deltas {
                                (ago % 7) as f32 / 8.0 - 3.0
                            } else {
                                0.0
                            }
                    };
                    match t {
                        Table::Trials => {
                            let trials: Vec<ExerciseTrial> = rows
                                .iter()
                                .map(|(id, v, ago)| ExerciseTrial {
                                    exercise_id: u(id),
                                    score: value(*v, *ago),
                                    timestamp: now - i64::from(*ago),
                                })
                                .collect();
                            world
                                .trane
                                .record_exercise_scores(&trials)
                                .must("record-error", "recording trials")?;
                        }
                        Table::Deltas => {
                            let deltas: Vec<ExerciseDelta> = rows
                                .iter()
                                .map(|(id, v, ago)| ExerciseDelta {
                                    exercise_id: u(id),
                                    delta: value(*v, *ago),
                                    timestamp: now - i64::from(*ago),
                                })
                                .collect();
                            world
                                .trane
                                .record_exercise_deltas(&deltas)
                                .must("record-error", "recording deltas")?;
                        }
                    }
                    for (id, v, ago) in rows {
                        model
                            .table(*t)
                            .entry(id.clone())
                            .or_default()
                            .push((value(*v, *ago), now - i64::from(*ago)));
                    }
                    stats.add("rows_recorded", rows.len() as u64);
                }
                HistoryOp::Score(id, score, ago) => {
                    let timestamp = world.now - i64::from(*ago);
                    let before = world
                        .trane
                        .get_unit_score(u(id))
                        .must("score-error", "getting the score")?
                        .unwrap_or_default();
                    world
                        .trane
                        .score_exercise(u(id), mastery(*score), timestamp)
                        .must("score-error", "scoring an exercise")?;
                    let trials = model.trials.entry(id.clone()).or_default();
                    let had_trials = !trials.is_empty();
                    trials.push((f32::from(*score), timestamp));
                    let rows = read_rows(&world.trane, Table::Deltas, id, 1_000_000)?;
                    let deltas = model.deltas.entry(id.clone()).or_default();
                    if had_trials {
                        // The difference between the actual and the predicted score.
                        let want = f32::from(*score) - before;
                        let new = rows.iter().find(|r| {
                            r.1 == timestamp
                                && (r.0 - want).abs() < 1e-3
                                && rows.iter().filter(|x| x == r).count()
                                    > deltas.iter().filter(|x| x == r).count()
                        });
                        check!(
                            new.is_some(),
                            "no-delta",
                            "scoring {id:?} with {score} when its score was {before} left the deltas {rows:?}"
                        );
                        deltas.extend(new);
                    } else {
                        check!(
                            rows.len() == deltas.len(),
                            "delta-without-trials",
                            "the first score of {id:?} recorded a delta: {rows:?}"
                        );
                    }
                    stats.hit(if had_trials {
                        "scores_with_delta"
                    } else {
                        "first_scores"
                    });
                }
                HistoryOp::Trim(t, keep) => {
                    match t {
                        Table::Trials => world
                            .trane
                            .trim_scores(*keep)
                            .must("trim-error", "trimming")?,
                        Table::Deltas => world
                            .trane
                            .trim_deltas(*keep)
                            .must("trim-error", "trimming")?,
                    }
                    for id in &ids {
                        let all = model.table(*t).entry(id.clone()).or_default();
                        let got = read_rows(&world.trane, *t, id, 1_000_000)?;
                        check!(
                            valid_newest(&got, all, *keep as usize),
                            "wrong-trim",
                            "after trimming {t:?} to {keep}, those of {id:?} are {got:?} of {:?}",
                            sorted_desc(all.clone())
                        );
                        if got.len() < all.len() && !got.is_empty() {
                            stats.hit("partial_trims");
                            stats.mark_nontrivial();
                        }
                        *all = got;
                    }
                }
                HistoryOp::RemovePrefix(t, prefix) => {
                    match t {
                        Table::Trials => world
                            .trane
                            .remove_scores_with_prefix(prefix)
                            .must("remove-error", "removing a prefix")?,
                        Table::Deltas => world
                            .trane
                            .remove_deltas_with_prefix(prefix)
                            .must("remove-error", "removing a prefix")?,
                    }
                    let table = model.table(*t);
                    let (mut removed, mut kept) = (0, 0);
                    for (id, rows) in table.iter_mut() {
                        if id.starts_with(prefix.as_str()) {
                            removed += rows.len();
                            rows.clear();
                        } else {
                            kept += rows.len();
                        }
                    }
                    if removed > 0 && kept > 0 {
                        stats.hit("partial_removals");
                        stats.mark_nontrivial();
                    }
                }
                HistoryOp::Reopen => {
                    let trane = world.fresh()?;
                    world.trane = trane;
                }
            }
            compare_rows(
                &world.trane,
                &mut model,
                &ids,
                &case.limits,
                &format!("after {op:?}"),
            )?;
        }
        let fresh = world.fresh()?;
        compare_rows(
            &fresh,
            &mut model,
            &all_ids,
            &case.limits,
            "after reopening",
        )
    }
}

// ---------------------------------------------------------------------------------------------
// C11: rewards.

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct RewardSpec {
    pub unit: String,
    /// In tenths.
    pub value: i8,
    /// In fiftieths.
    pub weight: u8,
    pub hours_ago: u32,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum RewardOp {
    Record(Vec<RewardSpec>),
    Trim(u32),
    RemovePrefix(String),
    Reopen,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct RewardsCase {
    pub ops: Vec<RewardOp>,
    pub limit: u32,
}

/// `(value, weight, timestamp)`.
type RewardRow = (f32, f32, i64);

#[derive(Default, Clone)]
struct UnitRewards {
    rows: Vec<RewardRow>,
    /// The last ones recorded by the open instance and not trimmed or removed since.
    recent: VecDeque<RewardRow>,
}

fn similar(a: &RewardRow, b: &RewardRow) -> bool {
    a.0 == b.0 && (a.2 - b.2).abs() < DAY && (a.1 - b.1).abs() < 0.1
}

fn newest(mut rows: Vec<RewardRow>, n: usize) -> Vec<i64> {
    rows.sort_by_key(|r| -r.2);
    rows.iter().take(n).map(|r| r.2).collect()
}

fn sub_multiset(part: &[RewardRow], all: &[RewardRow]) -> bool {
    let mut left = all.to_vec();
    part.iter().all(|g| {
        left.iter()
            .position(|w| w == g)
            .map(|i| left.swap_remove(i))
            .is_some()
    })
}

fn reward_rows(trane: &Trane, id: &str, limit: u32) -> Res<Vec<RewardRow>> {
    Ok(trane
        .get_rewards(u(id), limit)
        .must("read-error", "getting the rewards")?
        .iter()
        .map(|r| (r.value, r.weight, r.timestamp))
        .collect())
}

pub struct C11;
impl Prop for C11 {
    type Case = RewardsCase;
    fn id(&self) -> &'static str {
        "C11"
    }
    fn rule(&self) -> &'static str {
        "some reward was left out for being similar to a recent one and some unit had more rewards recorded than are kept, trimmed or removed"
    }
    fn quick_cases(&self) -> usize {
        2500
    }
    fn strategy(&self, thorough: bool) -> BoxedStrategy<RewardsCase> {
        let spec = (
            prop_oneof![3 => Just("a_b".to_string()), 2 => any::<u8>().prop_map(|n| id_of(n % 10))],
            -8i8..=8,
            0u8..=50,
            prop_oneof![2 => 0u32..60, 1 => 0u32..2000, 1 => Just(30u32)],
        );
        // Some rewards that only just differ from the one before.
        let record = vec((spec, 0u8..9), 0..14).prop_map(|raw| {
            let mut out: Vec<RewardSpec> = vec![];
            for ((unit, value, weight, hours_ago), kind) in raw {
                let mut spec = RewardSpec {
                    unit,
                    value,
                    weight,
                    hours_ago,
                };
                if kind < 5
                    && let Some(prev) = out.last()
                {
                    let (v, w, h) = (prev.value, prev.weight, prev.hours_ago);
                    spec = prev.clone();
                    match kind {
                        0 => spec.weight = w.saturating_sub(4),
                        1 => spec.weight = w.saturating_sub(6),
                        2 => spec.hours_ago = h + 23,
                        3 => spec.hours_ago = h + 25,
                        _ => spec.value = v + 1,
                    }
                }
                out.push(spec);
            }
            RewardOp::Record(out)
        });
        let op = prop_oneof![
            7 => record,
            1 => (0u32..6).prop_map(RewardOp::Trim),
            1 => (any::<u8>(), any::<u8>()).prop_map(|(n, cut)| RewardOp::RemovePrefix(prefix_of(&id_of(n % 10), cut))),
            1 => Just(RewardOp::Reopen),
        ];
        (vec(op, 1..=if thorough { 24 } else { 12 }), 0u32..12)
            .prop_map(|(ops, limit)| RewardsCase { ops, limit })
            .boxed()
    }
    fn check(&self, case: &RewardsCase, stats: &mut Stats) -> Res {
        let lib = confusable_library();
        let mut world = World::new(&lib)?;
        let now = world.now;
        let ids: Vec<String> = (0..12).map(id_of).collect();
        let mut model: BTreeMap<String, UnitRewards> = BTreeMap::new();
        let (mut skipped, mut dropped) = (false, false);
        for op in &case.ops {
            match op {
                RewardOp::Record(specs) => {
                    let rewards: Vec<UnitReward> = specs
                        .iter()
                        .map(|s| UnitReward {
                            unit_id: u(&s.unit),
                            value: f32::from(s.value) / 10.0,
                            weight: f32::from(s.weight) / 50.0,
                            timestamp: now - i64::from(s.hours_ago) * 3600,
                        })
                        .collect();
                    let written = world
                        .trane
                        .record_unit_rewards(&rewards)
                        .must("record-error", "recording rewards")?;
                    let mut written = written.iter().map(|id| id.to_string()).peekable();
                    // The units written appear in order; follow along.
                    let mut total: BTreeMap<String, usize> = BTreeMap::new();
                    let mut accepted: BTreeMap<String, usize> = BTreeMap::new();
                    let list: Vec<String> = written.by_ref().collect();
                    for id in &list {
                        *total.entry(id.clone()).or_default() += 1;
                    }
                    for id in rewards
                        .iter()
                        .map(|r| r.unit_id.to_string())
                        .collect::<BTreeSet<_>>()
                    {
                        let unit = model.entry(id.clone()).or_default();
                        let before = unit.rows.clone();
                        let mut free = false;
                        for r in rewards.iter().filter(|r| r.unit_id.as_str() == id) {
                            let row = (r.value, r.weight, r.timestamp);
                            let near = |x: &RewardRow| {
                                x.0 == row.0
                                    && (x.2 - row.2).abs() < DAY
                                    && ((x.1 - row.1).abs() - 0.1).abs() < 1e-4
                            };
                            let known = unit.recent.iter().any(|x| similar(x, &row));
                            let stored = unit.rows.iter().any(|x| similar(x, &row));
                            if unit.rows.iter().chain(&unit.recent).any(near) {
                                // The weights are too close to the limit to call.
                                stats.hit("too_close_to_call");
                                return Ok(());
                            }
                            if known {
                                skipped = true;
                                stats.hit("similar_left_out");
                                continue;
                            }
                            if stored {
                                // Recorded before the library was opened or the history trimmed.
                                free = true;
                                break;
                            }
                            stats.hit("recorded");
                            unit.rows.push(row);
                            unit.recent.push_back(row);
                            if unit.recent.len() > 10 {
                                unit.recent.pop_front();
                            }
                            *accepted.entry(id.clone()).or_default() += 1;
                        }
                        if free {
                            // Either is fine, and what follows depends on it.
                            stats.hit("either_way");
                            let got = reward_rows(&world.trane, &id, 1000)?;
                            let mut all = before;
                            all.extend(
                                rewards
                                    .iter()
                                    .filter(|r| r.unit_id.as_str() == id)
                                    .map(|r| (r.value, r.weight, r.timestamp)),
                            );
                            check!(
                                sub_multiset(&got, &all),
                                "unknown-reward",
                                "{id:?} has the rewards {got:?}, recorded were {all:?}"
                            );
                            return Ok(());
                        }
                        check!(
                            accepted.get(&id) == total.get(&id),
                            "wrong-list",
                            "recording {rewards:?} reports {list:?} as written, expected {:?} of {id:?}",
                            accepted.get(&id)
                        );
                    }
                }
                RewardOp::Trim(keep) => {
                    world
                        .trane
                        .trim_rewards(*keep)
                        .must("trim-error", "trimming")?;
                    for (id, unit) in &mut model {
                        let got = reward_rows(&world.trane, id, 1000)?;
                        let want = newest(unit.rows.clone(), (*keep as usize).min(20));
                        check!(
                            got.iter().map(|r| r.2).collect::<Vec<_>>() == want
                                && sub_multiset(&got, &unit.rows),
                            "wrong-trim",
                            "after trimming to {keep}, the rewards of {id:?} are {got:?} of {:?}",
                            unit.rows
                        );
                        if got.len() < unit.rows.len() {
                            dropped = true;
                            stats.hit("trimmed");
                        }
                        // Those removed are no longer known.
                        unit.rows = got;
                        unit.recent.clear();
                    }
                }
                RewardOp::RemovePrefix(prefix) => {
                    world
                        .trane
                        .remove_rewards_with_prefix(prefix)
                        .must("remove-error", "removing a prefix")?;
                    let before: usize = model.values().map(|m| m.rows.len()).sum();
                    model.retain(|id, _| !id.starts_with(prefix.as_str()));
                    let after: usize = model.values().map(|m| m.rows.len()).sum();
                    if after < before && after > 0 {
                        dropped = true;
                        stats.hit("partial_removals");
                    }
                }
                RewardOp::Reopen => {
                    let trane = world.fresh()?;
                    world.trane = trane;
                    for unit in model.values_mut() {
                        unit.recent.clear();
                    }
                }
            }
            for id in &ids {
                let unit = model.entry(id.clone()).or_default();
                let got = reward_rows(&world.trane, id, 1000)?;
                let want = newest(unit.rows.clone(), 20);
                check!(
                    got.iter().map(|r| r.2).collect::<Vec<_>>() == want
                        && sub_multiset(&got, &unit.rows),
                    "wrong-rewards",
                    "after {op:?}, the rewards of {id:?} are {got:?}, recorded were {:?}",
                    unit.rows
                );
                if unit.rows.len() > 20 {
                    dropped = true;
                    stats.hit("over_the_limit");
                }
                unit.rows = got.clone();
                let some = reward_rows(&world.trane, id, case.limit)?;
                check!(
                    some.iter().map(|r| r.2).collect::<Vec<_>>()
                        == newest(got.clone(), case.limit as usize)
                        && sub_multiset(&some, &got),
                    "wrong-rewards",
                    "the newest {} rewards of {id:?} are {some:?} of {got:?}",
                    case.limit
                );
            }
        }
        if skipped && dropped {
            stats.mark_nontrivial();
        }
        Ok(())
    }
}

// ---------------------------------------------------------------------------------------------
// C12: the blacklist and the review list.

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum ListOp {
    Blacklist(String),
    Unblacklist(String),
    UnblacklistPrefix(String),
    Review(String),
    Unreview(String),
    Reopen,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct ListCase {
    pub ops: Vec<ListOp>,
}

fn compare_lists(
    trane: &Trane,
    black: &BTreeSet<String>,
    review: &BTreeSet<String>,
    when: &str,
) -> Res {
    let as_strings = |v: Vec<ustr::Ustr>| -> Vec<String> {
        let mut v: Vec<String> = v.iter().map(|s| s.to_string()).collect();
        v.sort();
        v
    };
    let entries = as_strings(
        trane
            .get_blacklist_entries()
            .must("read-error", "getting the blacklist")?,
    );
    check!(
        entries == black.iter().cloned().collect::<Vec<_>>(),
        "wrong-blacklist",
        "{when}, the blacklist is {entries:?}, expected {black:?}"
    );
    for id in IDS {
        let got = trane
            .blacklisted(u(id))
            .must("read-error", "looking up the blacklist")?;
        check!(
            got == black.contains(id),
            "wrong-lookup",
            "{when}, looking up {id:?} in the blacklist gives {got}; entries {black:?}"
        );
    }
    let entries = as_strings(
        trane
            .get_review_list_entries()
            .must("read-error", "getting the review list")?,
    );
    check!(
        entries == review.iter().cloned().collect::<Vec<_>>(),
        "wrong-review-list",
        "{when}, the review list is {entries:?}, expected {review:?}"
    );
    Ok(())
}

pub struct C12;
impl Prop for C12 {
    type Case = ListCase;
    fn id(&self) -> &'static str {
        "C12"
    }
    fn rule(&self) -> &'static str {
        "a removal by prefix took some entries and left others, or the library was reopened with entries in both lists"
    }
    fn quick_cases(&self) -> usize {
        2500
    }
    fn strategy(&self, thorough: bool) -> BoxedStrategy<ListCase> {
        let id = || any::<u8>().prop_map(id_of);
        let op = prop_oneof![
            6 => id().prop_map(ListOp::Blacklist),
            3 => id().prop_map(ListOp::Unblacklist),
            2 => (id(), any::<u8>()).prop_map(|(id, cut)| ListOp::UnblacklistPrefix(prefix_of(&id, cut))),
            4 => id().prop_map(ListOp::Review),
            2 => id().prop_map(ListOp::Unreview),
            1 => Just(ListOp::Reopen),
        ];
        vec(op, 1..=if thorough { 60 } else { 30 })
            .prop_map(|ops| ListCase { ops })
            .boxed()
    }
    fn check(&self, case: &ListCase, stats: &mut Stats) -> Res {
        let mut world = World::new(&confusable_library())?;
        let mut black = BTreeSet::new();
        let mut review = BTreeSet::new();
        for op in &case.ops {
            match op {
                ListOp::Blacklist(id) => {
                    world
                        .trane
                        .add_to_blacklist(u(id))
                        .must("add-error", "blacklisting")?;
                    stats.hit_if(!black.insert(id.clone()), "added_twice");
                }
                ListOp::Unblacklist(id) => {
                    world
                        .trane
                        .remove_from_blacklist(u(id))
                        .must("remove-error", "removing from the blacklist")?;
                    stats.hit_if(!black.remove(id), "removed_but_absent");
                }
                ListOp::UnblacklistPrefix(prefix) => {
                    world
                        .trane
                        .remove_prefix_from_blacklist(prefix)
                        .must("remove-error", "removing a prefix from the blacklist")?;
                    let before = black.len();
                    black.retain(|b: &String| !b.starts_with(prefix.as_str()));
                    if black.len() < before && !black.is_empty() {
                        stats.hit("partial_removals");
                        stats.mark_nontrivial();
                    }
                }
                ListOp::Review(id) => {
                    world
                        .trane
                        .add_to_review_list(u(id))
                        .must("add-error", "adding to the review list")?;
                    review.insert(id.clone());
                }
                ListOp::Unreview(id) => {
                    world
                        .trane
                        .remove_from_review_list(u(id))
                        .must("remove-error", "removing from the review list")?;
                    review.remove(id);
                }
                ListOp::Reopen => {
                    let trane = world.fresh()?;
                    world.trane = trane;
                    if !black.is_empty() && !review.is_empty() {
                        stats.hit("reopened");
                        stats.mark_nontrivial();
                    }
                }
            }
            compare_lists(&world.trane, &black, &review, &format!("after {op:?}"))?;
        }
        let fresh = world.fresh()?;
        compare_lists(&fresh, &black, &review, "after reopening")
    }
}

// ---------------------------------------------------------------------------------------------
// C19: saved filters, study sessions and preferences.

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct SavedCase {
    pub filters: Vec<SavedFilter>,
    pub sessions: Vec<StudySession>,
    /// Preferences set one after the other, with whether to reopen the library after each.
    pub preferences: Vec<(UserPreferences, bool)>,
    /// What goes wrong, if anything: a duplicate or a broken file.
    pub broken: Option<u8>,
    pub pretty: bool,
}

fn text() -> BoxedStrategy<String> {
    prop_oneof![
        3 => "[a-zA-Z0-9 _-]{0,8}",
        1 => any::<u8>().prop_map(id_of),
        1 => "\\PC{0,12}"
    ]
    .boxed()
}

fn unit_filter() -> BoxedStrategy<UnitFilter> {
    let lib = confusable_library();
    vec(any::<u16>(), 1..8)
        .prop_map(move |picks| {
            decode_filter(&lib, &picks, true, true).unwrap_or(UnitFilter::MetadataFilter {
                filter: kv_filter(&picks, 3),
            })
        })
        .boxed()
}

fn preferences() -> BoxedStrategy<UserPreferences> {
    (
        prop::option::of((vec((text(), text()), 0..3), prop::option::of(text()))),
        prop::option::of(prop::option::of(1usize..500)),
        vec(text(), 0..3),
    )
        .prop_map(|(transcription, scheduler, ignored)| {
            let transcription = transcription.map(|(instruments, path)| {
                let list: Vec<_> = instruments
                    .iter()
                    .map(|(name, id)| serde_json::json!({"name": name, "id": id}))
                    .collect();
                serde_json::json!({"instruments": list, "download_path": path})
            });
            let mut p: UserPreferences =
                serde_json::from_value(serde_json::json!({"transcription": transcription}))
                    .expect("preferences");
            p.scheduler = scheduler.map(|batch_size| SchedulerPreferences { batch_size });
            // Ignoring a path may not hide the course of the library.
            p.ignored_paths = ignored
                .into_iter()
                .map(|s| format!("ignored/{s}"))
                .collect();
            p
        })
        .boxed()
}

fn saved_matches(trane: &Trane, case: &SavedCase) -> Res {
    let mut want: Vec<(String, String)> = case
        .filters
        .iter()
        .map(|f| (f.id.clone(), f.description.clone()))
        .collect();
    want.sort();
    let got = trane.list_filters();
    check!(
        got == want,
        "wrong-filters",
        "the saved filters are {got:?}, expected {want:?}"
    );
    for f in &case.filters {
        let got = trane.get_filter(&f.id);
        check!(
            got.as_deref() == Some(f),
            "wrong-filter",
            "the saved filter is {got:?}, expected {f:?}"
        );
    }
    check!(
        trane.get_filter("not there").is_none(),
        "wrong-filter",
        "a filter that was never saved is there"
    );
    let mut want: Vec<(String, String)> = case
        .sessions
        .iter()
        .map(|s| (s.id.clone(), s.description.clone()))
        .collect();
    want.sort();
    let got = trane.list_study_sessions();
    check!(
        got == want,
        "wrong-sessions",
        "the study sessions are {got:?}, expected {want:?}"
    );
    for s in &case.sessions {
        let got = trane.get_study_session(&s.id);
        check!(
            got.as_ref() == Some(s),
            "wrong-session",
            "the study session is {got:?}, expected {s:?}"
        );
    }
    check!(
        trane.get_study_session("not there").is_none(),
        "wrong-session",
        "a study session that was never saved is there"
    );
    Ok(())
}

pub struct C19;
impl Prop for C19 {
    type Case = SavedCase;
    fn id(&self) -> &'static str {
        "C19"
    }
    fn rule(&self) -> &'static str {
        "at least two filters or study sessions were saved, or a broken or duplicate one was"
    }
    fn quick_cases(&self) -> usize {
        2500
    }
    fn strategy(&self, thorough: bool) -> BoxedStrategy<SavedCase> {
        let n = if thorough { 10 } else { 5 };
        let part = (0u8..3, unit_filter(), text(), 0u32..200).prop_map(
            |(kind, filter, filter_id, duration)| match kind {
                0 => SessionPart::UnitFilter { filter, duration },
                1 => SessionPart::SavedFilter {
                    filter_id,
                    duration,
                },
                _ => SessionPart::NoFilter { duration },
            },
        );
        (
            vec((text(), text(), unit_filter()), 0..=n),
            vec((text(), text(), vec(part, 0..4)), 0..=n),
            vec((preferences(), any::<bool>()), 0..4),
            prop::option::weighted(0.2, any::<u8>()),
            any::<bool>(),
        )
            .prop_map(|(filters, sessions, preferences, broken, pretty)| {
                let mut case = SavedCase {
                    filters: vec![],
                    sessions: vec![],
                    preferences,
                    broken,
                    pretty,
                };
                for (id, description, filter) in filters {
                    if !case.filters.iter().any(|f| f.id == id) {
                        case.filters.push(SavedFilter {
                            id,
                            description,
                            filter,
                        });
                    }
                }
                for (id, description, parts) in sessions {
                    if !case.sessions.iter().any(|f| f.id == id) {
                        case.sessions.push(StudySession {
                            id,
                            description,
                            parts,
                        });
                    }
                }
                case
            })
            .boxed()
    }
    fn check(&self, case: &SavedCase, stats: &mut Stats) -> Res {
        let dir = tempdir()?;
        let lib = confusable_library();
        lib.write(dir.path())?;
        drop(open(dir.path()).must("open", "opening a valid library")?);
        let config = dir.path().join(".trane");
        let to_text = |v: serde_json::Value| -> Res<String> {
            if case.pretty {
                serde_json::to_string_pretty(&v).harness("serialize")
            } else {
                serde_json::to_string(&v).harness("serialize")
            }
        };
        for (i, f) in case.filters.iter().enumerate() {
            let text = to_text(serde_json::to_value(f).harness("serialize")?)?;
            std::fs::write(config.join("filters").join(format!("f{i}.json")), text)
                .harness("write")?;
        }
        for (i, s) in case.sessions.iter().enumerate() {
            let text = to_text(serde_json::to_value(s).harness("serialize")?)?;
            std::fs::write(
                config.join("study_sessions").join(format!("s{i}.json")),
                text,
            )
            .harness("write")?;
        }
        if case.filters.len() + case.sessions.len() >= 2 {
            stats.mark_nontrivial();
        }
        if let Some(b) = case.broken {
            let (dir, first) = if b % 2 == 0 {
                (
                    "filters",
                    case.filters
                        .first()
                        .map(|f| serde_json::to_string(f).harness("serialize")),
                )
            } else {
                (
                    "study_sessions",
                    case.sessions
                        .first()
                        .map(|s| serde_json::to_string(s).harness("serialize")),
                )
            };
            let text = match (b / 2 % 3, first) {
                (0, Some(first)) => first?,
                (1, Some(first)) => {
                    let text = first?;
                    let cut = text.len() / 2;
                    text.chars().take(cut.max(1)).collect()
                }
                _ => "{\"id\": 3}".to_string(),
            };
            std::fs::write(config.join(dir).join("zz.json"), &text).harness("write")?;
            let res = open(dir_of(&config));
            check!(
                res.is_err(),
                "broken-accepted",
                "the library opens although {dir} holds a second or broken file: {text}"
            );
            stats.hit("broken_files_rejected");
            stats.mark_nontrivial();
            return Ok(());
        }
        let mut trane = open(dir.path()).must("open", "opening the library with saved filters")?;
        saved_matches(&trane, case)?;
        for (preferences, reopen) in &case.preferences {
            trane
                .set_user_preferences(preferences.clone())
                .must("set-preferences", "setting the preferences")?;
            if *reopen {
                drop(trane);
                trane =
                    open(dir.path()).must("open", "opening the library with new preferences")?;
                let want = preferences
                    .scheduler
                    .as_ref()
                    .and_then(|s| s.batch_size)
                    .unwrap_or(50);
                let got = trane.get_scheduler_options().batch_size;
                check!(
                    got == want,
                    "batch-size",
                    "the batch size is {got}, the preferences ask for {:?}",
                    preferences.scheduler
                );
                stats.hit("reopened_with_preferences");
            }
            let got = trane
                .get_user_preferences()
                .must("get-preferences", "getting the preferences")?;
            check!(
                got == *preferences,
                "wrong-preferences",
                "the preferences are {got:?}, expected {preferences:?}"
            );
        }
        saved_matches(&trane, case)
    }
}

fn dir_of(config: &std::path::Path) -> &std::path::Path {
    config.parent().unwrap_or(config)
}

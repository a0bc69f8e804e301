//! C41: databases written by earlier versions, whose schemas were at any of the past stages.

use proptest::{collection::vec, prelude::*};
use rusqlite::{Connection, params};
use serde::{Deserialize, Serialize};
use std::{
    collections::{BTreeMap, BTreeSet},
    fs,
    path::{Path, PathBuf},
};
use trane::{
    Trane,
    blacklist::Blacklist,
    data::{ExerciseDelta, ExerciseTrial},
    practice_deltas::PracticeDeltas,
    practice_rewards::PracticeRewards,
    practice_stats::PracticeStats,
    review_list::ReviewList,
    scheduler::ExerciseScheduler,
};

use crate::{
    check,
    engine::{OrHarness, OrViolation, Prop, Res, Stats, violation},
    library::{Lib, LibParams, lib_strategy},
    world::{World, mastery, open, tempdir, u},
};

/// The stages that the schema of each database went through. They are history and never change,
/// whatever is added after them.
const STORES: [(&str, &[&str]); 5] = [
    (
        "practice_stats.db",
        &[
            "CREATE TABLE uids(unit_uid INTEGER PRIMARY KEY, unit_id TEXT NOT NULL UNIQUE);",
            "CREATE TABLE practice_stats(id INTEGER PRIMARY KEY, unit_uid INTEGER NOT NULL REFERENCES uids(unit_uid), score REAL, timestamp INTEGER);",
            "CREATE INDEX unit_ids ON uids (unit_id);",
            "CREATE INDEX unit_scores ON practice_stats (unit_uid);",
            "DROP INDEX unit_scores",
            "CREATE INDEX trials ON practice_stats (unit_uid, timestamp);",
        ],
    ),
    (
        "practice_deltas.db",
        &[
            "CREATE TABLE uids(unit_uid INTEGER PRIMARY KEY, unit_id TEXT NOT NULL UNIQUE);",
            "CREATE TABLE practice_deltas(id INTEGER PRIMARY KEY, unit_uid INTEGER NOT NULL REFERENCES uids(unit_uid), delta REAL, timestamp INTEGER);",
            "CREATE INDEX deltas_trials ON practice_deltas (unit_uid, timestamp);",
        ],
    ),
    (
        "practice_rewards.db",
        &[
            "CREATE TABLE uids(unit_uid INTEGER PRIMARY KEY, unit_id TEXT NOT NULL UNIQUE);",
            "CREATE TABLE practice_rewards(id INTEGER PRIMARY KEY, unit_uid INTEGER NOT NULL REFERENCES uids(unit_uid), reward REAL, weight REAL, timestamp INTEGER);",
            "CREATE INDEX unit_ids ON uids (unit_id);",
            "CREATE INDEX rewards ON practice_rewards (unit_uid, timestamp);",
        ],
    ),
    (
        "blacklist.db",
        &[
            "CREATE TABLE blacklist(unit_id TEXT NOT NULL UNIQUE);",
            "CREATE INDEX unit_id_index ON blacklist (unit_id);",
        ],
    ),
    (
        "review_list.db",
        &[
            "CREATE TABLE review_list(unit_id TEXT NOT NULL UNIQUE);",
            "CREATE INDEX unit_id_index ON review_list (unit_id);",
        ],
    ),
];

/// The stage at which a store can hold entries.
const TABLE: [usize; 5] = [2, 2, 2, 1, 1];

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct UpgradeCase {
    pub lib: Lib,
    /// The stage of each database, and none at all if there is no such file.
    pub stages: Vec<Option<u8>>,
    /// Whether the databases use write-ahead logging.
    pub wal: bool,
    /// Unit, value and age of the entries.
    pub trials: Vec<(u16, u8, i64)>,
    pub deltas: Vec<(u16, i8, i64)>,
    pub rewards: Vec<(u16, i8, i64)>,
    pub blacklist: Vec<u16>,
    pub review: Vec<u16>,
    /// The difference between the numbers of consecutive units.
    pub gap: u8,
    /// Exercises answered after the upgrade.
    pub answers: Vec<(u16, u8)>,
    /// Afterwards pretend that a later version changed the schema of this store.
    pub later: Option<(u8, u8)>,
}

type Entries = BTreeMap<String, Vec<(i64, String)>>;

/// What the stores hold.
#[derive(Clone, Debug, Default, PartialEq)]
struct Content {
    trials: Entries,
    deltas: Entries,
    rewards: Entries,
    blacklist: BTreeSet<String>,
    review: BTreeSet<String>,
}

fn add(entries: &mut Entries, id: &str, timestamp: i64, value: String) {
    let v = entries.entry(id.to_string()).or_default();
    v.push((timestamp, value));
    v.sort_by(|a, b| b.cmp(a));
}

fn three(x: f32) -> String {
    format!("{x:.3}")
}

impl Content {
    /// Reads everything through the instance.
    fn read(t: &Trane, ids: &[String]) -> Res<Content> {
        let mut c = Content::default();
        for id in ids {
            for x in t
                .get_scores(u(id), 10_000)
                .must("unreadable", "reading scores")?
            {
                add(&mut c.trials, id, x.timestamp, three(x.score));
            }
            for x in t
                .get_deltas(u(id), 10_000)
                .must("unreadable", "reading deltas")?
            {
                add(&mut c.deltas, id, x.timestamp, three(x.delta));
            }
            for x in t
                .get_rewards(u(id), 10_000)
                .must("unreadable", "reading rewards")?
            {
                add(
                    &mut c.rewards,
                    id,
                    x.timestamp,
                    format!("{} {}", three(x.value), three(x.weight)),
                );
            }
        }
        let all = |v: Vec<ustr::Ustr>| v.iter().map(|s| s.to_string()).collect();
        c.blacklist = all(t
            .get_blacklist_entries()
            .must("unreadable", "reading the blacklist")?);
        c.review = all(t
            .get_review_list_entries()
            .must("unreadable", "reading the review list")?);
        Ok(c)
    }
}

fn compare(got: &Content, want: &Content, when: &str) -> Res {
    for (what, g, w) in [
        ("scores", &got.trials, &want.trials),
        ("deltas", &got.deltas, &want.deltas),
        ("rewards", &got.rewards, &want.rewards),
    ] {
        check!(
            g == w,
            "wrong-content",
            "{when}, the {what} are {g:?}, expected {w:?}"
        );
    }
    for (what, g, w) in [
        ("blacklist", &got.blacklist, &want.blacklist),
        ("review list", &got.review, &want.review),
    ] {
        check!(
            g == w,
            "wrong-content",
            "{when}, the {what} is {g:?}, expected {w:?}"
        );
    }
    Ok(())
}

fn config(root: &Path) -> PathBuf {
    root.join(".trane")
}

pub struct C41;

impl C41 {
    fn ids(case: &UpgradeCase) -> Vec<String> {
        let mut ids = case.lib.unit_ids();
        ids.push("gone".to_string());
        ids.push("gone::l::e".to_string());
        ids
    }

    /// The entries that the databases hold, before any of them is upgraded.
    fn content(case: &UpgradeCase, now: i64) -> Content {
        let all = Self::ids(case);
        let mut exercises = case.lib.exercise_ids();
        exercises.push("gone::l::e".to_string());
        let upper: Vec<String> = all
            .iter()
            .filter(|id| !exercises.contains(id))
            .cloned()
            .collect();
        let holds =
            |store: usize| case.stages[store].is_some_and(|k| usize::from(k) >= TABLE[store]);
        let pick = |v: &[String], n: u16| v[n as usize % v.len()].clone();
        let mut c = Content::default();
        if holds(0) {
            for (n, score, ago) in &case.trials {
                let score = f32::from(*score % 5 + 1);
                add(
                    &mut c.trials,
                    &pick(&exercises, *n),
                    now - ago,
                    three(score),
                );
            }
        }
        if holds(1) {
            for (n, delta, ago) in &case.deltas {
                let delta = f32::from(*delta) / 32.0;
                add(
                    &mut c.deltas,
                    &pick(&exercises, *n),
                    now - ago,
                    three(delta),
                );
            }
        }
        if holds(2) {
            for (n, value, ago) in &case.rewards {
                let value = f32::from(*value) / 128.0;
                add(
                    &mut c.rewards,
                    &pick(&upper, *n),
                    now - ago,
                    format!("{} {}", three(value), three(1.0 - value.abs() / 2.0)),
                );
            }
        }
        if holds(3) {
            c.blacklist = case.blacklist.iter().map(|n| pick(&all, *n)).collect();
        }
        if holds(4) {
            c.review = case.review.iter().map(|n| pick(&all, *n)).collect();
        }
        c
    }

    /// Writes the databases as an earlier version did.
    fn write(case: &UpgradeCase, content: &Content, root: &Path) -> Res {
        fs::create_dir_all(config(root)).harness("create the directory")?;
        for (store, (file, steps)) in STORES.iter().enumerate() {
            let Some(stage) = case.stages[store] else {
                continue;
            };
            let stage = usize::from(stage).min(steps.len());
            let mut db = Connection::open(config(root).join(file)).harness("open a database")?;
            if case.wal {
                db.pragma_update(None, "journal_mode", "WAL")
                    .harness("set the journal")?;
            }
            let tx = db.transaction().harness("begin")?;
            for (i, step) in steps[..stage].iter().enumerate() {
                // Some entries are there before the last steps of the schema.
                if i == TABLE[store] {
                    Self::fill(case, content, store, &tx)?;
                }
                tx.execute_batch(step).harness("change the schema")?;
            }
            if stage == TABLE[store] {
                Self::fill(case, content, store, &tx)?;
            }
            tx.pragma_update(None, "user_version", stage as i64)
                .harness("set the version")?;
            tx.commit().harness("commit")?;
            db.close().map_err(|(_, e)| e).harness("close")?;
        }
        Ok(())
    }

    fn fill(case: &UpgradeCase, content: &Content, store: usize, db: &Connection) -> Res {
        let entries = match store {
            0 => &content.trials,
            1 => &content.deltas,
            2 => &content.rewards,
            _ => {
                let (ids, table) = if store == 3 {
                    (&content.blacklist, "blacklist")
                } else {
                    (&content.review, "review_list")
                };
                for id in ids {
                    db.execute(
                        &format!("INSERT INTO {table} (unit_id) VALUES (?1)"),
                        params![id],
                    )
                    .harness("insert a unit")?;
                }
                return Ok(());
            }
        };
        let mut uid = 1;
        let mut rows = vec![];
        for (id, values) in entries {
            db.execute(
                "INSERT INTO uids (unit_uid, unit_id) VALUES (?1, ?2)",
                params![uid, id],
            )
            .harness("insert a unit")?;
            for (timestamp, value) in values {
                rows.push((uid, *timestamp, value.clone()));
            }
            uid += i64::from(case.gap) + 1;
        }
        // Neither by unit nor by time.
        rows.sort_by_key(|(uid, timestamp, _)| (timestamp % 7, -uid, *timestamp));
        for (uid, timestamp, value) in rows {
            let mut v = value.split(' ').map(|x| x.parse::<f64>().unwrap_or(0.0));
            let (first, second) = (v.next(), v.next());
            match store {
                0 => db.execute(
                    "INSERT INTO practice_stats (unit_uid, score, timestamp) VALUES (?1, ?2, ?3)",
                    params![uid, first, timestamp],
                ),
                1 => db.execute(
                    "INSERT INTO practice_deltas (unit_uid, delta, timestamp) VALUES (?1, ?2, ?3)",
                    params![uid, first, timestamp],
                ),
                _ => db.execute(
                    "INSERT INTO practice_rewards (unit_uid, reward, weight, timestamp) VALUES (?1, ?2, ?3, ?4)",
                    params![uid, first, second, timestamp],
                ),
            }
            .harness("insert an entry")?;
        }
        Ok(())
    }

    /// The scores of the units are those of an instance of this version that holds the same.
    fn compare_scores(case: &UpgradeCase, content: &Content, t: &Trane, now: i64) -> Res {
        let mut world = World::new(&case.lib)?;
        world.now = now;
        world.trane.override_current_timestamp(Some(now));
        for (id, values) in &content.trials {
            for (timestamp, score) in values.iter().rev() {
                let trial = ExerciseTrial {
                    exercise_id: u(id),
                    score: score.parse().unwrap_or(0.0),
                    timestamp: *timestamp,
                };
                world
                    .trane
                    .record_exercise_scores(&[trial])
                    .must("record", "recording a trial")?;
            }
        }
        for (id, values) in &content.deltas {
            for (timestamp, delta) in values.iter().rev() {
                let delta = ExerciseDelta {
                    exercise_id: u(id),
                    delta: delta.parse().unwrap_or(0.0),
                    timestamp: *timestamp,
                };
                world
                    .trane
                    .record_exercise_deltas(&[delta])
                    .must("record", "recording a delta")?;
            }
        }
        for id in &content.blacklist {
            world
                .trane
                .add_to_blacklist(u(id))
                .must("record", "blacklisting")?;
        }
        for id in case.lib.unit_ids() {
            let got = t
                .get_unit_score(u(&id))
                .must("score", "asking for a score")?;
            let want = world
                .trane
                .get_unit_score(u(&id))
                .must("score", "asking for a score")?;
            let same = match (got, want) {
                (Some(a), Some(b)) => (a - b).abs() < 2e-3,
                (None, None) => true,
                _ => false,
            };
            check!(
                same,
                "wrong-score",
                "after the upgrade, the score of {id} is {got:?}, but {want:?} if the same answers are recorded by this version"
            );
        }
        Ok(())
    }
}

impl Prop for C41 {
    type Case = UpgradeCase;
    fn id(&self) -> &'static str {
        "C41"
    }
    fn rule(&self) -> &'static str {
        "at least two databases are at a stage before the last one and at least two hold entries"
    }
    fn quick_cases(&self) -> usize {
        1500
    }
    fn strategy(&self, thorough: bool) -> BoxedStrategy<UpgradeCase> {
        let lib = lib_strategy(LibParams {
            courses: if thorough { 4 } else { 2 },
            lessons: 2,
            exercises: 3,
            min_lessons: 1,
            min_exercises: 1,
            superseding: true,
            ..LibParams::default()
        });
        let stages: Vec<_> = STORES
            .iter()
            .map(|(_, steps)| {
                let n = steps.len() as u8;
                prop_oneof![1 => Just(None), 6 => (0..=n).prop_map(Some)]
            })
            .collect();
        let age = || prop_oneof![4 => 0i64..5_000_000, 1 => Just(1000i64)];
        let size = if thorough { 40 } else { 16 };
        (
            lib,
            stages,
            any::<bool>(),
            vec((any::<u16>(), any::<u8>(), age()), 0..size),
            vec((any::<u16>(), any::<i8>(), age()), 0..size),
            vec((any::<u16>(), any::<i8>(), age()), 0..8),
            (vec(any::<u16>(), 0..4), vec(any::<u16>(), 0..4)),
            0u8..4,
            vec((any::<u16>(), 1u8..=5), 0..5),
            prop::option::weighted(0.3, (0u8..5, 1u8..4)),
        )
            .prop_map(
                |(
                    lib,
                    stages,
                    wal,
                    trials,
                    deltas,
                    rewards,
                    (blacklist, review),
                    gap,
                    answers,
                    later,
                )| UpgradeCase {
                    lib,
                    stages,
                    wal,
                    trials,
                    deltas,
                    rewards,
                    blacklist,
                    review,
                    gap,
                    answers,
                    later,
                },
            )
            .boxed()
    }
    fn check(&self, case: &UpgradeCase, stats: &mut Stats) -> Res {
        let now = chrono::Utc::now().timestamp();
        let dir = tempdir()?;
        let root = dir.path();
        case.lib.write(root)?;
        let content = Self::content(case, now);
        Self::write(case, &content, root)?;
        let ids = Self::ids(case);

        // Opening the library upgrades the databases.
        let mut t = open(root).must(
            "upgrade-failed",
            &format!(
                "opening a library whose databases are at the stages {:?}",
                case.stages
            ),
        )?;
        t.override_current_timestamp(Some(now));
        compare(&Content::read(&t, &ids)?, &content, "after the upgrade")?;
        // Which of several entries of one second counts as the last is open.
        let distinct = |entries: &Entries| {
            entries
                .values()
                .all(|v| v.windows(2).all(|w| w[0].0 != w[1].0))
        };
        if content.rewards.is_empty() && distinct(&content.trials) && distinct(&content.deltas) {
            Self::compare_scores(case, &content, &t, now)?;
            stats.hit("scores_compared");
        }

        // They can be used like new ones.
        let mut want = Content::read(&t, &ids)?;
        let exercises = case.lib.exercise_ids();
        for (i, (n, score)) in case.answers.iter().enumerate() {
            let id = &exercises[*n as usize % exercises.len()];
            let timestamp = now + 1 + i as i64;
            t.score_exercise(u(id), mastery(*score), timestamp)
                .must("answer-failed", "answering after the upgrade")?;
            add(&mut want.trials, id, timestamp, three(f32::from(*score)));
        }
        let mut got = Content::read(&t, &ids)?;
        // What answers record besides is a matter of other properties.
        for (new, old) in [
            (&mut got.deltas, &mut want.deltas),
            (&mut got.rewards, &mut want.rewards),
        ] {
            for (id, values) in old.iter() {
                let kept = values
                    .iter()
                    .all(|v| new.get(id).is_some_and(|w| w.contains(v)));
                check!(
                    kept,
                    "lost",
                    "answering after the upgrade lost entries of {id}: {values:?}, now {:?}",
                    new.get(id)
                );
            }
            old.clone_from(new);
        }
        compare(&got, &want, "after answering")?;
        let some = &ids[case.gap as usize % ids.len()];
        t.add_to_blacklist(u(some))
            .must("blacklist-failed", "blacklisting after the upgrade")?;
        t.add_to_review_list(u(some)).must(
            "review-failed",
            "adding to the review list after the upgrade",
        )?;
        want.blacklist.insert(some.clone());
        want.review.insert(some.clone());
        got = Content::read(&t, &ids)?;
        compare(&got, &want, "after changing the lists")?;

        // And they are opened again.
        drop(t);
        let t = open(root).must("reopen-failed", "opening the upgraded library again")?;
        compare(&Content::read(&t, &ids)?, &want, "after opening again")?;
        drop(t);

        // A database of a later version is refused, or read without loss.
        if let Some((store, more)) = case.later {
            let path = config(root).join(STORES[store as usize % 5].0);
            let version = |set: Option<i64>| -> Res<i64> {
                let db = Connection::open(&path).harness("open a database")?;
                let old = db
                    .pragma_query_value(None, "user_version", |r| r.get::<_, i64>(0))
                    .harness("read the version")?;
                if let Some(v) = set {
                    db.pragma_update(None, "user_version", v)
                        .harness("set the version")?;
                }
                Ok(old)
            };
            let current = version(None)?;
            version(Some(current + i64::from(more)))?;
            if let Ok(t) = open(root) {
                compare(
                    &Content::read(&t, &ids)?,
                    &want,
                    "with a database of a later version",
                )?;
            } else {
                stats.hit("later_refused");
            }
            version(Some(current))?;
            let t = open(root).map_err(|e| {
                violation(
                    "later-damaged",
                    format!("after trying to open a database of a later version: {e:?}"),
                )
            })?;
            compare(
                &Content::read(&t, &ids)?,
                &want,
                "after trying to open a database of a later version",
            )?;
        }

        let early = case
            .stages
            .iter()
            .zip(STORES)
            .filter(|(s, (_, steps))| s.is_some_and(|s| usize::from(s) < steps.len()))
            .count();
        let filled = [
            content.trials.is_empty(),
            content.deltas.is_empty(),
            content.rewards.is_empty(),
            content.blacklist.is_empty(),
            content.review.is_empty(),
        ]
        .iter()
        .filter(|e| !**e)
        .count();
        stats.add("upgraded_databases", early as u64);
        if early >= 2 && filled >= 2 {
            stats.mark_nontrivial();
        }
        Ok(())
    }
}

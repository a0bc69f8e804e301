//! Threads that share an instance.

use parking_lot::RwLock;
use proptest::{collection::vec, prelude::*};
use serde::{Deserialize, Serialize};
use std::{
    collections::{BTreeMap, BTreeSet},
    sync::{
        Arc, Barrier,
        atomic::{AtomicI64, Ordering},
        mpsc,
    },
    time::Duration,
};
use trane::{
    Trane,
    blacklist::Blacklist,
    course_library::CourseLibrary,
    data::filter::{ExerciseFilter, UnitFilter},
    graph::UnitGraph,
    practice_stats::PracticeStats,
    review_list::ReviewList,
    scheduler::ExerciseScheduler,
};

use crate::{
    check, delays,
    engine::{OrViolation, Prop, Res, Stats, violation},
    library::{Index, Lib, LibParams, lib_strategy},
    script::{Script, same},
    world::{PastTrial, World, history, mastery, u},
};

/// What a thread does next. The numbers choose one of the units.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Act {
    Score(u16, u8),
    /// Requests a batch, of the given unit or everything, and answers the first ones.
    Batch(Option<u16>, Vec<u8>),
    UnitScore(u16),
    AllScores,
    Trials(u16),
    Manifests(u16),
    /// The following ones have the instance for themselves.
    Blacklist(u16),
    Unblacklist(u16),
    Review(u16),
    Options(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct ThreadsCase {
    pub lib: Lib,
    pub history: Vec<PastTrial>,
    pub threads: Vec<Vec<Act>>,
    pub delays: u64,
}

fn strategy(thorough: bool) -> BoxedStrategy<ThreadsCase> {
    let act = prop_oneof![
        // Mostly about a few units, so that the threads get in each other's way.
        8 => (0u16..3, 0u8..5).prop_map(|(e, s)| Act::Score(e, s)),
        4 => (any::<u16>(), 0u8..5).prop_map(|(e, s)| Act::Score(e, s)),
        3 => (proptest::option::of(any::<u16>()), vec(0u8..=5, 0..4))
            .prop_map(|(n, a)| Act::Batch(n, a)),
        3 => any::<u16>().prop_map(Act::UnitScore),
        3 => Just(Act::AllScores),
        1 => (0u16..3).prop_map(Act::Trials),
        1 => any::<u16>().prop_map(Act::Manifests),
        1 => any::<u16>().prop_map(Act::Blacklist),
        1 => any::<u16>().prop_map(Act::Unblacklist),
        1 => any::<u16>().prop_map(Act::Review),
        1 => any::<u8>().prop_map(Act::Options),
    ];
    let params = LibParams {
        courses: 3,
        lessons: 3,
        exercises: 3,
        superseding: true,
        encompassing: true,
        min_lessons: 1,
        min_exercises: 1,
        ..LibParams::default()
    };
    (
        lib_strategy(params),
        vec(any::<u8>(), 0..40),
        vec(vec(act, 1..=if thorough { 16 } else { 8 }), 2..=4),
        any::<u64>(),
    )
        .prop_map(|(lib, bytes, threads, delays)| {
            let history = history(&lib, &bytes);
            ThreadsCase {
                lib,
                history,
                threads,
                delays,
            }
        })
        .boxed()
}

/// What the threads share.
struct Shared {
    instance: RwLock<(Trane, BTreeSet<String>)>,
    lib: Lib,
    exercises: Vec<String>,
    units: Vec<String>,
    now: i64,
    clock: AtomicI64,
    barrier: Barrier,
}

/// The answers a thread gave: exercise, score and time.
type Answers = Vec<(String, u8, i64)>;

impl Shared {
    fn unit(&self, n: u16) -> &str {
        &self.units[n as usize % self.units.len()]
    }

    fn answer(&self, t: &Trane, exercise: &str, score: u8, answers: &mut Answers) -> Res {
        let time = self.now - 80_000 + self.clock.fetch_add(1, Ordering::SeqCst);
        t.score_exercise(u(exercise), mastery(score), time)
            .must("score-error", "scoring an exercise")?;
        answers.push((exercise.to_string(), score, time));
        // What was just acknowledged is there.
        let stored = t
            .get_scores(u(exercise), 1000)
            .must("read", "reading the trials")?;
        check!(
            stored.iter().any(|s| s.timestamp == time),
            "lost",
            "the answer to {exercise} at {time} was acknowledged, but the trials are {stored:?}"
        );
        Ok(())
    }

    fn act(&self, idx: &Index, act: &Act, answers: &mut Answers) -> Res {
        match act {
            Act::Score(n, score) => {
                let guard = self.instance.read();
                let exercise = &self.exercises[*n as usize % self.exercises.len()];
                self.answer(&guard.0, exercise, score + 1, answers)?;
            }
            Act::Batch(n, scores) => {
                let guard = self.instance.read();
                let (t, blacklist) = (&guard.0, &guard.1);
                let unit = n.map(|n| self.unit(n).to_string());
                let lesson = unit
                    .as_ref()
                    .filter(|x| idx.lessons.contains_key(x.as_str()));
                let filter = lesson.map(|l| {
                    ExerciseFilter::UnitFilter(UnitFilter::LessonFilter {
                        lesson_ids: vec![u(l)],
                    })
                });
                let batch = t
                    .get_exercise_batch(filter)
                    .must("batch-error", "requesting a batch")?;
                let mut seen = BTreeSet::new();
                for e in &batch {
                    let known = idx.exercises.get(e.id.as_str());
                    check!(known.is_some(), "unknown", "{} is not in the library", e.id);
                    check!(seen.insert(e.id), "twice", "{} is twice in a batch", e.id);
                    for id in [e.id, e.lesson_id, e.course_id] {
                        check!(
                            !blacklist.contains(id.as_str()),
                            "blacklisted",
                            "{} is in a batch although {id} is blacklisted",
                            e.id
                        );
                    }
                }
                let batch: Vec<String> = batch.iter().map(|e| e.id.to_string()).collect();
                drop(guard);
                for (e, score) in batch.iter().zip(scores) {
                    if *score > 0 {
                        let guard = self.instance.read();
                        self.answer(&guard.0, e, *score, answers)?;
                    }
                }
            }
            Act::UnitScore(n) => {
                let guard = self.instance.read();
                let score = guard
                    .0
                    .get_unit_score(u(self.unit(*n)))
                    .must("score-error", "getting a score")?;
                if let Some(s) = score {
                    check!(
                        (0.0..=5.0).contains(&s),
                        "range",
                        "the score of {} is {s}",
                        self.unit(*n)
                    );
                }
            }
            Act::AllScores => {
                for unit in &self.units {
                    let guard = self.instance.read();
                    guard
                        .0
                        .get_unit_score(u(unit))
                        .must("score-error", "getting a score")?;
                }
            }
            Act::Trials(n) => {
                let guard = self.instance.read();
                let exercise = &self.exercises[*n as usize % self.exercises.len()];
                let trials = guard
                    .0
                    .get_scores(u(exercise), 1000)
                    .must("read", "reading the trials")?;
                for (k, _, time) in answers.iter() {
                    check!(
                        k != exercise || trials.iter().any(|s| s.timestamp == *time),
                        "lost",
                        "the answer to {exercise} at {time} is gone, the trials are {trials:?}"
                    );
                }
            }
            Act::Manifests(n) => {
                let guard = self.instance.read();
                let (t, id) = (&guard.0, u(self.unit(*n)));
                check!(
                    t.get_unit_type(id).is_some(),
                    "unknown",
                    "the type of {id} is missing"
                );
                let found = t.get_course_manifest(id).is_some()
                    || t.get_lesson_manifest(id).is_some()
                    || t.get_exercise_manifest(id).is_some();
                check!(found, "unknown", "the manifest of {id} is missing");
            }
            Act::Blacklist(n) => {
                let mut guard = self.instance.write();
                let unit = self.unit(*n);
                guard
                    .0
                    .add_to_blacklist(u(unit))
                    .must("blacklist-error", "blacklisting a unit")?;
                guard.1.insert(unit.to_string());
            }
            Act::Unblacklist(n) => {
                let mut guard = self.instance.write();
                let unit = self.unit(*n);
                guard
                    .0
                    .remove_from_blacklist(u(unit))
                    .must("blacklist-error", "removing from the blacklist")?;
                guard.1.remove(unit);
            }
            Act::Review(n) => {
                let mut guard = self.instance.write();
                guard
                    .0
                    .add_to_review_list(u(self.unit(*n)))
                    .must("review-error", "adding to the review list")?;
            }
            Act::Options(n) => {
                let mut guard = self.instance.write();
                let mut options = guard.0.get_scheduler_options();
                options.batch_size = 10 + usize::from(*n % 50);
                guard.0.set_scheduler_options(options);
            }
        }
        Ok(())
    }
}

/// Runs the threads and returns what they answered.
fn run_threads(case: &ThreadsCase, shared: &Arc<Shared>) -> Res<Answers> {
    let (tx, rx) = mpsc::channel();
    for (i, acts) in case.threads.iter().enumerate() {
        let (tx, shared, acts) = (tx.clone(), shared.clone(), acts.clone());
        let seed = case.delays.wrapping_mul(31).wrapping_add(i as u64 * 7 + 1);
        std::thread::spawn(move || {
            let result = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                let mut answers = Answers::new();
                let idx = Index::new(&shared.lib);
                shared.barrier.wait();
                delays::enable(seed);
                let mut result = Ok(());
                for act in &acts {
                    delays::pause();
                    result = shared.act(&idx, act, &mut answers);
                    if result.is_err() {
                        break;
                    }
                }
                delays::disable();
                (result, answers)
            }));
            delays::disable();
            // The instance is closed before the thread says that it is done.
            drop(shared);
            let _ = tx.send(result);
        });
    }
    drop(tx);
    let mut all = Answers::new();
    let mut first = None;
    for _ in &case.threads {
        match rx.recv_timeout(Duration::from_secs(60)) {
            Ok(Ok((result, answers))) => {
                all.extend(answers);
                if let Err(e) = result {
                    first.get_or_insert(e);
                }
            }
            Ok(Err(_)) => {
                first.get_or_insert(crate::engine::thread_panic());
            }
            Err(_) => return Err(violation("hang", "the threads wait for each other forever")),
        }
    }
    first.map_or(Ok(all), Err)
}

pub struct C31;
impl Prop for C31 {
    type Case = ThreadsCase;
    fn id(&self) -> &'static str {
        "C31"
    }
    fn rule(&self) -> &'static str {
        "two threads answered the same exercise, or one while another requested a batch or scores"
    }
    fn quick_cases(&self) -> usize {
        2500
    }
    fn reps(&self) -> usize {
        30
    }
    fn workers(&self) -> usize {
        4
    }
    fn strategy(&self, thorough: bool) -> BoxedStrategy<ThreadsCase> {
        strategy(thorough)
    }
    fn check(&self, case: &ThreadsCase, stats: &mut Stats) -> Res {
        if case.lib.num_exercises() == 0 {
            return Ok(());
        }
        let mut world = World::new(&case.lib)?;
        world.record(&case.history)?;
        let World { trane, dir, now } = world;
        let shared = Arc::new(Shared {
            instance: RwLock::new((trane, BTreeSet::new())),
            lib: case.lib.clone(),
            exercises: case.lib.exercise_ids(),
            units: case.lib.unit_ids(),
            now,
            clock: AtomicI64::new(0),
            barrier: Barrier::new(case.threads.len()),
        });
        let answers = run_threads(case, &shared)?;
        let guard = shared.instance.read();
        let t = &guard.0;

        // Every answer is stored once, with the rest of the history.
        let mut want: BTreeMap<String, Vec<(i64, u8)>> = BTreeMap::new();
        for p in &case.history {
            let list = want.entry(p.exercise.clone()).or_default();
            list.push((now - p.seconds_ago, p.score));
        }
        let before: BTreeSet<String> = want.keys().cloned().collect();
        for (e, score, time) in &answers {
            want.entry(e.clone()).or_default().push((*time, *score));
        }
        for (e, list) in &mut want {
            let mut got: Vec<(i64, u8)> = t
                .get_scores(u(e), 1000)
                .must("read", "reading the trials")?
                .iter()
                .map(|s| (s.timestamp, s.score as u8))
                .collect();
            got.sort_unstable();
            list.sort_unstable();
            check!(
                got == *list,
                "lost",
                "the trials of {e} are {got:?}, expected {list:?}"
            );
            // Every answer but the first is compared with the score before it.
            let scored = answers.iter().filter(|(x, ..)| x == e).count();
            let deltas = trane::practice_deltas::PracticeDeltas::get_deltas(t, u(e), 1000)
                .must("read", "reading the deltas")?;
            let expected = scored.saturating_sub(usize::from(!before.contains(e)));
            check!(
                deltas.len() == expected,
                "deltas",
                "{e} was answered {scored} times and has {} deltas, expected {expected}",
                deltas.len()
            );
        }

        // What the instance reports is what another one reads from the files.
        let script = Script {
            ops: vec![],
            exercises: shared.exercises.clone(),
            units: shared.units.clone(),
            now,
        };
        let live = script.view(t).must("read", "reading everything")?;
        let fresh = crate::script::open_at(dir.path(), now).must("open", "opening it again")?;
        let fresh = script.view(&fresh).must("read", "reading everything")?;
        for (key, want) in &fresh {
            // The preferences do not say which options are in use.
            check!(
                same(&live[key], want),
                "stale",
                "{key} is {:?} in the running instance and {want:?} in the files",
                live[key]
            );
        }

        // Exercises all of whose answers were bad come back.
        let bad: BTreeSet<&String> = answers
            .iter()
            .filter(|(e, s, _)| *s < 3 && !answers.iter().any(|(x, t, _)| x == e && *t >= 3))
            .map(|(e, ..)| e)
            .collect();
        let maybe: BTreeSet<&String> = answers
            .iter()
            .filter(|(_, s, _)| *s < 3)
            .map(|(e, ..)| e)
            .collect();
        let mut ids: BTreeSet<String> = BTreeSet::new();
        let batch = t
            .get_exercise_batch(None)
            .must("batch-error", "requesting a batch")?;
        for e in &batch {
            ids.insert(e.id.to_string());
        }
        let options = t.get_scheduler_options();
        let share = options.batch_size as f32 * options.relearn_fraction;
        // Batches forget the failed exercises that are blacklisted at that time.
        let blacklisting = case
            .threads
            .iter()
            .flatten()
            .any(|a| matches!(a, Act::Blacklist(_)));
        if !blacklisting && (maybe.len() as f32) <= share {
            for e in bad {
                check!(
                    ids.contains(e),
                    "relearn",
                    "{e} was only answered badly and is not in the next batch {ids:?}"
                );
                stats.hit("relearned");
            }
        }

        let mut by: BTreeMap<&str, BTreeSet<usize>> = BTreeMap::new();
        let (mut scoring, mut reading) = (0usize, 0usize);
        for (i, acts) in case.threads.iter().enumerate() {
            for act in acts {
                match act {
                    Act::Score(n, _) => {
                        scoring |= 1 << i;
                        let e = &shared.exercises[*n as usize % shared.exercises.len()];
                        by.entry(e).or_default().insert(i);
                    }
                    Act::Batch(..) | Act::AllScores => reading |= 1 << i,
                    _ => {}
                }
            }
        }
        let contended = by.values().any(|s| s.len() > 1);
        let mixed = scoring != 0 && reading != 0 && (scoring | reading).count_ones() > 1;
        stats.hit_if(contended, "contended_exercise");
        stats.hit_if(mixed, "scored_while_read");
        if contended || mixed {
            stats.mark_nontrivial();
        }
        stats.add("answers", answers.len() as u64);
        Ok(())
    }
}

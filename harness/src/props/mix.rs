//! How batches are composed: the mix of mastery windows, the exercises to relearn, the order, the
//! reviews left out, and the options that control all of it.

use proptest::{collection::vec, prelude::*};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use trane::{
    blacklist::Blacklist,
    data::{
        ExerciseManifest, MasteryWindow, PassingScoreOptions, SchedulerOptions,
        filter::{ExerciseFilter, UnitFilter},
    },
    scheduler::ExerciseScheduler,
};

use super::scores::Edges;
use crate::{
    check,
    engine::{OrHarness, OrViolation, Prop, Res, Stats},
    library::{Course, Exercise, Index, Lesson, Lib, renamed},
    world::{DAY, PastTrial, Pile, World, open, tempdir, u},
};

/// A library without relations: courses of lessons of exercises, each exercise given by its
/// history profile.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Flat {
    pub courses: Vec<Vec<Vec<u8>>>,
    #[serde(default)]
    pub naming: u8,
}

impl Flat {
    pub fn lib(&self) -> Lib {
        let lib = Lib {
            courses: self
                .courses
                .iter()
                .enumerate()
                .map(|(c, lessons)| Course {
                    id: format!("c{c}"),
                    lessons: lessons
                        .iter()
                        .enumerate()
                        .map(|(l, exercises)| Lesson {
                            id: format!("c{c}::l{l}"),
                            exercises: (0..exercises.len())
                                .map(|e| Exercise {
                                    id: format!("c{c}::l{l}::e{e}"),
                                    declarative: e % 2 == 1,
                                })
                                .collect(),
                            ..Lesson::default()
                        })
                        .collect(),
                    ..Course::default()
                })
                .collect(),
        };
        renamed(lib, self.naming)
    }

    pub fn history(&self) -> Vec<PastTrial> {
        let profiles = self.courses.iter().flatten().flatten();
        let mut out = vec![];
        for (id, profile) in self.lib().exercise_ids().iter().zip(profiles) {
            out.extend(profile_trials(id, *profile));
        }
        out
    }
}

/// A spread of histories, from nothing to mastered.
pub fn profile_trials(exercise: &str, profile: u8) -> Vec<PastTrial> {
    let (kind, x) = (profile % 8, i64::from(profile / 8));
    let trial = |score: u8, seconds_ago: i64| PastTrial {
        exercise: exercise.to_string(),
        score,
        seconds_ago,
    };
    match kind {
        0 => vec![],
        1 => vec![trial(1, DAY + x * 3600), trial(2, 3 * DAY)],
        2 => (0..3)
            .map(|i| trial(2 + (i % 2), DAY * (1 + i64::from(i) + x)))
            .collect(),
        3 => (0..3).map(|i| trial(3, DAY * (1 + i + x / 4))).collect(),
        4 => (0..3).map(|i| trial(4, 7200 + DAY * (i + x / 8))).collect(),
        5 => (0..4)
            .map(|i| trial(5 - (i % 2) as u8, 7200 + DAY * i))
            .collect(),
        // A trial of this very moment is worth the top score exactly.
        6 if x == 0 => vec![trial(5, 0)],
        6 => (0..4).map(|i| trial(5, 3600 * x + DAY * i)).collect(),
        _ => (0..2)
            .map(|i| trial(5, DAY * (20 + 10 * x + i * 7)))
            .collect(),
    }
}

/// Valid options. The shares of the windows are multiples of 1/32.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Options {
    pub batch_size: usize,
    pub relearn_percent: u8,
    /// Shares of the new, target, current and easy windows.
    pub shares: Option<[u8; 4]>,
    /// Limits between the windows, in hundredths, ascending.
    pub limits: Option<[u16; 4]>,
    /// Minimum score and average number of trials to pass, in hundredths.
    pub passing: Option<(u16, u16)>,
    /// Superseding score, in hundredths.
    pub superseding: Option<u16>,
    pub max_lessons: usize,
}

impl Options {
    pub fn decode(&self) -> SchedulerOptions {
        let mut o = SchedulerOptions {
            batch_size: self.batch_size,
            relearn_fraction: f32::from(self.relearn_percent.min(100)) / 100.0,
            max_lessons_in_progress: self.max_lessons,
            ..SchedulerOptions::default()
        };
        if let Some(s) = self.shares {
            let pct = |n: u8| f32::from(n) / 32.0;
            o.new_window_opts.percentage = pct(s[0]);
            o.target_window_opts.percentage = pct(s[1]);
            o.current_window_opts.percentage = pct(s[2]);
            o.easy_window_opts.percentage = pct(s[3]);
            o.mastered_window_opts.percentage = pct(32 - s.iter().sum::<u8>());
        }
        if let Some(l) = self.limits {
            let at = |i: usize| f32::from(l[i]) / 100.0;
            o.new_window_opts.range = (0.0, at(0));
            o.target_window_opts.range = (at(0), at(1));
            o.current_window_opts.range = (at(1), at(2));
            o.easy_window_opts.range = (at(2), at(3));
            o.mastered_window_opts.range = (at(3), 5.0);
        }
        if let Some((score, trials)) = self.passing {
            o.passing_score = PassingScoreOptions {
                min_score: f32::from(score) / 100.0,
                min_fraction: 1.0,
                min_avg_trials: f32::from(trials) / 100.0,
            };
        }
        if let Some(s) = self.superseding {
            o.superseding_score = f32::from(s) / 100.0;
        }
        o
    }
}

pub fn options_strategy() -> BoxedStrategy<Options> {
    (
        prop_oneof![3 => Just(50usize), 3 => 10usize..=40, 1 => 1usize..10, 1 => 40usize..=90],
        0u8..=100,
        prop::option::of([0u8..=8, 0u8..=8, 0u8..=8, 0u8..=8]),
        prop::option::of([1u16..=120, 121u16..=290, 291u16..=390, 391u16..=490]),
        prop::option::of((100u16..=395, 100u16..=300)),
        prop::option::of(200u16..=480),
        prop_oneof![3 => Just(1000usize), 1 => 1usize..12],
    )
        .prop_map(
            |(batch_size, relearn_percent, shares, limits, passing, superseding, max_lessons)| {
                Options {
                    batch_size,
                    relearn_percent,
                    shares,
                    limits,
                    passing,
                    superseding,
                    max_lessons,
                }
            },
        )
        .boxed()
}

/// The window of each score: 0 for mastered to 4 for new.
pub fn window_of(o: &SchedulerOptions, score: f32) -> Option<usize> {
    let windows: [&MasteryWindow; 5] = [
        &o.mastered_window_opts,
        &o.easy_window_opts,
        &o.current_window_opts,
        &o.target_window_opts,
        &o.new_window_opts,
    ];
    (0..5).find(|i| {
        let (lo, hi) = windows[*i].range;
        (lo <= score && score < hi) || (*i == 0 && score >= 5.0)
    })
}

/// The shares after the adjustment to the success rate, from mastered to new.
fn adjusted_shares(o: &SchedulerOptions, successes: usize, failures: usize) -> [f64; 5] {
    let base = [
        o.mastered_window_opts.percentage,
        o.easy_window_opts.percentage,
        o.current_window_opts.percentage,
        o.target_window_opts.percentage,
        o.new_window_opts.percentage,
    ]
    .map(f64::from);
    let total = successes + failures;
    // Compared as fractions: 90 %, 75 % and 50 %.
    let shift = if total == 0 || successes * 10 > total * 9 {
        0.05
    } else if successes * 4 >= total * 3 {
        return base;
    } else if successes * 2 >= total {
        -0.05
    } else {
        -0.10
    };
    let clamp = |p: f64| p.clamp(0.05, 0.5);
    let mut out = [
        clamp(base[0] - shift),
        clamp(base[1] - shift),
        0.0,
        clamp(base[3] + shift),
        clamp(base[4] + shift),
    ];
    out[2] = (1.0 - out.iter().sum::<f64>()).max(0.05);
    out
}

/// All the numbers of exercises per window that the batch may have. There is more than one only
/// where a share of the batch is a whole number up to rounding.
fn expected_mix(sizes: [usize; 5], o: &SchedulerOptions, shares: [f64; 5]) -> BTreeSet<[usize; 5]> {
    let total: usize = sizes.iter().sum();
    let batch = if o.batch_size >= 10 && total < 3 * o.batch_size {
        (total / 3).max(10)
    } else {
        o.batch_size
    };
    let floor = |x: f64| (x.floor() as usize).max(1);
    let mut takes: Vec<[usize; 5]> = vec![[0; 5]];
    for (w, share) in shares.iter().enumerate() {
        let x = batch as f64 * share;
        let options: BTreeSet<usize> = [floor(x - 1e-4), floor(x + 1e-4)].into();
        takes = takes
            .into_iter()
            .flat_map(|t| {
                options.iter().map(move |n| {
                    let mut t = t;
                    t[w] = *n;
                    t
                })
            })
            .collect();
    }
    takes
        .into_iter()
        .map(|take| {
            let mut mix = [0; 5];
            for w in 0..5 {
                mix[w] = sizes[w].min(take[w]);
            }
            let base = (batch / 10).max(1);
            // Current, new, target, easy, mastered.
            let fill: [(usize, Option<usize>); 5] = [
                (2, None),
                (4, Some(5 * base)),
                (3, Some(3 * base)),
                (1, None),
                (0, None),
            ];
            for (w, most) in fill {
                let len: usize = mix.iter().sum();
                if len >= batch * 3 / 4 {
                    continue;
                }
                let room = (batch - len).min(most.unwrap_or(usize::MAX));
                mix[w] += (sizes[w] - mix[w]).min(room);
            }
            mix
        })
        .collect()
}

fn flat_strategy(courses: usize, lessons: usize, exercises: usize) -> BoxedStrategy<Flat> {
    // Some libraries are dominated by one or two profiles.
    (
        vec(any::<u8>(), 1..4),
        any::<bool>(),
        vec(
            vec(vec(any::<u8>(), 0..=exercises), 1..=lessons),
            1..=courses,
        ),
        0u8..3,
    )
        .prop_map(|(main, mixed, mut courses, naming)| {
            if !mixed {
                for p in courses.iter_mut().flatten().flatten() {
                    if *p % 5 != 0 {
                        *p = main[*p as usize % main.len()];
                    }
                }
            }
            Flat { courses, naming }
        })
        .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct MixCase {
    pub lib: Flat,
    pub options: Options,
    /// Answers given before each of the batches.
    pub rounds: Vec<Vec<u8>>,
    pub by_course: bool,
}

pub fn scores_of(world: &World, ids: &[String]) -> Res<BTreeMap<String, f32>> {
    ids.iter()
        .map(|id| {
            let s = world
                .trane
                .get_unit_score(u(id))
                .must("score-error", "getting a score")?;
            Ok((id.clone(), s.unwrap_or_default()))
        })
        .collect()
}

pub struct C29;
impl Prop for C29 {
    type Case = MixCase;
    fn id(&self) -> &'static str {
        "C29"
    }
    fn rule(&self) -> &'static str {
        "some batch had to leave out available exercises and drew from at least two mastery windows"
    }
    fn quick_cases(&self) -> usize {
        1500
    }
    fn strategy(&self, thorough: bool) -> BoxedStrategy<MixCase> {
        (
            prop_oneof![
                2 => flat_strategy(4, 4, 8),
                2 => flat_strategy(6, if thorough { 12 } else { 6 }, 12),
                1 => flat_strategy(1, 2, 8),
            ],
            options_strategy(),
            vec(
                prop_oneof![
                    2 => Just(vec![]),
                    2 => vec(1u8..=5, 1..12),
                    1 => (1u8..=5, 1usize..6).prop_map(|(s, n)| vec![s; n]),
                    1 => (0usize..10, 1usize..11).prop_map(|(bad, n)| {
                        (0..n).map(|i| if i < bad { 1 } else { 5 }).collect()
                    })
                ],
                1..4,
            ),
            any::<bool>(),
        )
            .prop_map(|(lib, mut options, rounds, by_course)| {
                // Every exercise of the library competes for a place.
                options.max_lessons = 10_000;
                options.relearn_percent = 0;
                MixCase {
                    lib,
                    options,
                    rounds,
                    by_course,
                }
            })
            .boxed()
    }
    fn check(&self, case: &MixCase, stats: &mut Stats) -> Res {
        let lib = case.lib.lib();
        let mut world = World::new(&lib)?;
        world.record(&case.lib.history())?;
        let mut options = case.options.decode();
        options.passing_score.min_fraction = 1.0;
        options
            .verify()
            .must("valid-options-rejected", "verifying valid options")?;
        world.set_options(options.clone());
        let ids = lib.exercise_ids();
        let (mut good, mut bad) = (0, 0);
        let mut answered = 0i64;
        for round in &case.rounds {
            if !ids.is_empty() {
                for (i, score) in round.iter().enumerate() {
                    let id = &ids[(i * 7 + answered as usize) % ids.len()];
                    world.score(id, *score, world.now - 3600 + answered)?;
                    answered += 1;
                    if *score >= 3 {
                        good += 1;
                    } else {
                        bad += 1;
                    }
                }
            }
            let scores = scores_of(&world, &ids)?;
            let mut sizes = [0; 5];
            let mut window = BTreeMap::new();
            for (id, s) in &scores {
                let Some(w) = window_of(&options, *s) else {
                    return Err(crate::engine::Fail::Harness(format!(
                        "the score {s} is in no window of {options:?}"
                    )));
                };
                sizes[w] += 1;
                window.insert(id.as_str(), w);
            }
            // A search may stop once it found ten times the size of the batch.
            let filter = if ids.len() >= 10 * options.batch_size {
                Some(ExerciseFilter::UnitFilter(UnitFilter::LessonFilter {
                    lesson_ids: lib.lessons().map(|(_, l)| u(&l.id)).collect(),
                }))
            } else {
                case.by_course.then(|| {
                    ExerciseFilter::UnitFilter(UnitFilter::CourseFilter {
                        course_ids: lib.courses.iter().map(|c| u(&c.id)).collect(),
                    })
                })
            };
            let batch = world.batch(filter)?;
            let mut mix = [0; 5];
            for e in &batch {
                mix[window[e.id.as_str()]] += 1;
            }
            let shares = adjusted_shares(&options, good, bad);
            let want = expected_mix(sizes, &options, shares);
            check!(
                want.contains(&mix),
                "wrong-mix",
                "a batch of size {} has {mix:?} exercises from the mastered, easy, current, target and new windows, expected one of {want:?}; {sizes:?} are available, {good} answers were good and {bad} bad, the shares are {shares:?}",
                options.batch_size
            );
            stats.hit("batches");
            stats.hit_if(good + bad > 0, "batches_after_answers");
            stats.hit_if(want.len() > 1, "batches_with_rounding");
            let left_out = batch.len() < ids.len();
            stats.hit_if(left_out, "batches_that_leave_exercises_out");
            if left_out && mix.iter().filter(|n| **n > 0).count() >= 2 {
                stats.mark_nontrivial();
            }
        }
        Ok(())
    }
}

// ---------------------------------------------------------------------------------------------
// C30: failed exercises come back.

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum RelearnStep {
    Score(u16, u8),
    Blacklist(u16),
    Unblacklist(u16),
    /// A batch with no filter, or of the given lesson only.
    Batch(Option<u16>),
    Options(usize, u8),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct RelearnCase {
    pub lib: Flat,
    pub batch_size: usize,
    pub relearn_percent: u8,
    pub steps: Vec<RelearnStep>,
}

pub struct C30;
impl Prop for C30 {
    type Case = RelearnCase;
    fn id(&self) -> &'static str {
        "C30"
    }
    fn rule(&self) -> &'static str {
        "a batch was requested while exercises failed during the session and not passed since were waiting to be relearned"
    }
    fn quick_cases(&self) -> usize {
        2000
    }
    fn strategy(&self, thorough: bool) -> BoxedStrategy<RelearnCase> {
        let step = prop_oneof![
            6 => (any::<u16>(), prop_oneof![3 => 1u8..=2, 2 => 3u8..=5]).prop_map(|(e, s)| RelearnStep::Score(e, s)),
            1 => any::<u16>().prop_map(RelearnStep::Blacklist),
            1 => any::<u16>().prop_map(RelearnStep::Unblacklist),
            4 => prop::option::of(any::<u16>()).prop_map(RelearnStep::Batch),
            1 => (1usize..60, 0u8..=100).prop_map(|(b, r)| RelearnStep::Options(b, r)),
        ];
        (
            flat_strategy(3, 4, 5),
            1usize..60,
            prop_oneof![Just(10u8), 0u8..=100],
            vec(step, 2..if thorough { 60 } else { 30 }),
        )
            .prop_map(|(lib, batch_size, relearn_percent, steps)| RelearnCase {
                lib,
                batch_size,
                relearn_percent,
                steps,
            })
            .boxed()
    }
    fn check(&self, case: &RelearnCase, stats: &mut Stats) -> Res {
        let lib = case.lib.lib();
        let idx = Index::new(&lib);
        let ids = lib.exercise_ids();
        let units = lib.unit_ids();
        let lessons: Vec<&str> = idx.lessons.keys().copied().collect();
        if ids.is_empty() {
            return Ok(());
        }
        let mut world = World::new(&lib)?;
        world.record(&case.lib.history())?;
        let mut options = Options {
            batch_size: case.batch_size,
            relearn_percent: case.relearn_percent,
            shares: None,
            limits: None,
            passing: None,
            superseding: None,
            max_lessons: 1000,
        };
        world.set_options(options.decode());
        let mut pile = Pile::default();
        // A blacklisted exercise is dropped from the pile by the next batch.
        let mut blacklist: BTreeSet<String> = BTreeSet::new();
        let hidden = |blacklist: &BTreeSet<String>, e: &str| {
            let (c, l, e) = idx.exercises[e];
            [&c.id, &l.id, &e.id].iter().any(|x| blacklist.contains(*x))
        };
        let mut time = world.now - 50_000;
        for step in &case.steps {
            match step {
                RelearnStep::Score(e, s) => {
                    let id = &ids[*e as usize % ids.len()];
                    time += 1;
                    world.score(id, *s, time)?;
                    pile.update(id, *s);
                }
                RelearnStep::Blacklist(n) => {
                    let unit = &units[*n as usize % units.len()];
                    world
                        .trane
                        .add_to_blacklist(u(unit))
                        .must("blacklist-error", "blacklisting")?;
                    blacklist.insert(unit.clone());
                }
                RelearnStep::Unblacklist(n) => {
                    let list: Vec<String> = blacklist.iter().cloned().collect();
                    if list.is_empty() {
                        continue;
                    }
                    let unit = &list[*n as usize % list.len()];
                    world
                        .trane
                        .remove_from_blacklist(u(unit))
                        .must("blacklist-error", "removing from the blacklist")?;
                    blacklist.remove(unit);
                }
                RelearnStep::Options(b, r) => {
                    options.batch_size = *b;
                    options.relearn_percent = *r;
                    world.set_options(options.decode());
                }
                RelearnStep::Batch(lesson) => {
                    let lesson = lesson.map(|n| lessons[n as usize % lessons.len()]);
                    let filter = lesson.map(|l| {
                        ExerciseFilter::UnitFilter(UnitFilter::LessonFilter {
                            lesson_ids: vec![u(l)],
                        })
                    });
                    let batch = world.batch(filter)?;
                    let got: BTreeSet<&str> = batch.iter().map(|e| e.id.as_str()).collect();
                    pile.0.retain(|e| !hidden(&blacklist, e));
                    if pile.0.is_empty() {
                        stats.hit("batches_with_nothing_to_relearn");
                    } else {
                        stats.hit("batches_with_exercises_to_relearn");
                        stats.mark_nontrivial();
                    }
                    let share = options.batch_size as f64
                        * f64::from(options.relearn_percent.min(100))
                        / 100.0;
                    let (least, most) = ((share - 1e-3) as usize, (share + 1e-3) as usize);
                    let there = pile.0.iter().filter(|e| got.contains(e.as_str())).count();
                    check!(
                        there >= least.min(pile.0.len()),
                        "not-relearned",
                        "only {there} of the {} failed exercises {:?} are in a batch that has room for {share}: {got:?}",
                        pile.0.len(),
                        pile.0
                    );
                    if let Some(l) = lesson {
                        // Only exercises to relearn come from outside of the filter.
                        let inside: BTreeSet<&str> = idx.exercises_in(l).into_iter().collect();
                        let outside: Vec<&&str> =
                            got.iter().filter(|e| !inside.contains(*e)).collect();
                        check!(
                            outside.iter().all(|e| pile.0.contains(**e)),
                            "outside-filter",
                            "{outside:?} offered with a filter on {l} although they are not to be relearned: {:?}",
                            pile.0
                        );
                        check!(
                            outside.len() <= most,
                            "too-many-relearned",
                            "{} exercises to relearn added to a batch that has room for {share}",
                            outside.len()
                        );
                        let waiting_outside = pile
                            .0
                            .iter()
                            .filter(|e| !inside.contains(e.as_str()))
                            .count();
                        let waiting_inside = pile.0.len() - waiting_outside;
                        stats.hit_if(!outside.is_empty(), "batches_with_exercises_from_outside");
                        check!(
                            outside.len()
                                >= least.saturating_sub(waiting_inside).min(waiting_outside),
                            "not-relearned",
                            "only {} of {waiting_outside} failed exercises outside of {l} were added to a batch with room for {share}",
                            outside.len()
                        );
                    }
                    for e in &got {
                        check!(
                            !hidden(&blacklist, e),
                            "blacklisted-offered",
                            "{e} offered although it is blacklisted"
                        );
                    }
                }
            }
        }
        Ok(())
    }
}

// ---------------------------------------------------------------------------------------------
// C35: hard exercises come in blocks.

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct OrderCase {
    pub lib: Flat,
    pub batch_size: usize,
    pub limits: Option<[u16; 4]>,
    pub batches: usize,
    /// Batches from which the order of the blocks is counted.
    pub counted: usize,
}

pub struct C35;
impl Prop for C35 {
    type Case = OrderCase;
    fn id(&self) -> &'static str {
        "C35"
    }
    fn rule(&self) -> &'static str {
        "some batch had at least two low-scoring exercises of each of two courses"
    }
    fn quick_cases(&self) -> usize {
        1500
    }
    fn strategy(&self, thorough: bool) -> BoxedStrategy<OrderCase> {
        let batch_size = || prop_oneof![2 => Just(50usize), 1 => 10usize..60];
        let limits = || prop::option::of([1u16..=120, 121u16..=290, 291u16..=390, 391u16..=490]);
        let blocks = (
            flat_strategy(if thorough { 8 } else { 5 }, 4, 6),
            batch_size(),
            limits(),
            1usize..5,
            Just(0),
        );
        let counted = (
            flat_strategy(5, 1, 3),
            batch_size(),
            limits(),
            Just(1),
            Just(if thorough { 20_000 } else { 4000 }),
        );
        prop_oneof![40 => blocks, 1 => counted]
            .prop_map(|(lib, batch_size, limits, batches, counted)| OrderCase {
                lib,
                batch_size,
                limits,
                batches,
                counted,
            })
            .boxed()
    }
    fn check(&self, case: &OrderCase, stats: &mut Stats) -> Res {
        let lib = case.lib.lib();
        let idx = Index::new(&lib);
        let mut world = World::new(&lib)?;
        world.record(&case.lib.history())?;
        let options = Options {
            batch_size: case.batch_size,
            relearn_percent: 10,
            shares: None,
            limits: case.limits,
            passing: None,
            superseding: None,
            max_lessons: 1000,
        }
        .decode();
        let threshold = options.target_window_opts.range.1;
        world.set_options(options);
        let scores = scores_of(&world, &lib.exercise_ids())?;
        for _ in 0..case.batches {
            let batch = world.batch(None)?;
            // Runs of low-scoring exercises of the same course.
            let mut runs: BTreeMap<&str, Vec<usize>> = BTreeMap::new();
            let mut previous: Option<&str> = None;
            for e in &batch {
                let course = idx.exercises[e.id.as_str()].0.id.as_str();
                let low = scores[e.id.as_str()] <= threshold;
                if low {
                    let list = runs.entry(course).or_default();
                    if previous == Some(course) {
                        *list.last_mut().harness_some("run")? += 1;
                    } else {
                        list.push(1);
                    }
                }
                previous = low.then_some(course);
            }
            stats.hit("batches");
            let blocks = runs
                .values()
                .filter(|r| r.iter().sum::<usize>() >= 2)
                .count();
            stats.add("courses_with_blocks", blocks as u64);
            if blocks >= 2 {
                stats.mark_nontrivial();
            }
            for (course, runs) in &runs {
                let odd = runs.iter().filter(|r| **r % 3 != 0).count();
                check!(
                    odd <= 1,
                    "scattered",
                    "the low-scoring exercises of {course} come in runs of {runs:?} instead of blocks of three: {:?}",
                    batch.iter().map(|e| e.id.as_str()).collect::<Vec<_>>()
                );
            }
        }
        if case.counted > 0 {
            self.count_orders(case, &world, &idx, &scores, threshold, stats)?;
        }
        Ok(())
    }
}

impl C35 {
    /// Blocks of new exercises come later than the others, but only somewhat.
    fn count_orders(
        &self,
        case: &OrderCase,
        world: &World,
        idx: &Index,
        scores: &BTreeMap<String, f32>,
        threshold: f32,
        stats: &mut Stats,
    ) -> Res {
        // How often the first of two blocks came first, by what the two are.
        let mut counts: BTreeMap<(bool, bool), (f64, f64)> = BTreeMap::new();
        for _ in 0..case.counted {
            let batch = world.batch(None)?;
            // The blocks that stand alone, by name: where they start and whether they are new.
            let mut low: BTreeMap<&str, Vec<(usize, f32)>> = BTreeMap::new();
            let mut blocks: BTreeMap<&str, (usize, bool)> = BTreeMap::new();
            for (i, e) in batch.iter().enumerate() {
                let score = scores[e.id.as_str()];
                if score <= threshold {
                    let course = idx.exercises[e.id.as_str()].0.id.as_str();
                    low.entry(course).or_default().push((i, score));
                } else {
                    blocks.insert(e.id.as_str(), (i, false));
                }
            }
            for (course, exercises) in low {
                let average = exercises.iter().map(|e| e.1).sum::<f32>() / exercises.len() as f32;
                if exercises.len() <= 3 && (average - 1.0).abs() > 0.01 {
                    blocks.insert(course, (exercises[0].0, average < 1.0));
                }
            }
            let of = |new: bool| blocks.values().filter(move |b| b.1 == new).map(|b| b.0);
            for (a, b) in [(true, false), (true, true), (false, false)] {
                let first = of(a).next();
                let second = of(b).nth(usize::from(a == b));
                if let (Some(x), Some(y)) = (first, second) {
                    let (k, n) = counts.entry((a, b)).or_default();
                    *n += 1.0;
                    *k += f64::from(u8::from(x < y));
                }
            }
        }
        for ((a, b), (k, n)) in counts {
            // The positions of new blocks are drawn from 0.2 to 1 and of others from 0 to 0.8.
            let p = if a == b { 0.5 } else { 0.28125 };
            let tolerance = 0.03 + 6.0 * (p * (1.0 - p) / n).sqrt();
            let what = |new: bool| if new { "new" } else { "other" };
            check!(
                (k / n - p).abs() <= tolerance,
                "order-of-blocks",
                "a block of {} exercises came before one of {} exercises in {k} of {n} batches, expected a share of {p}",
                what(a),
                what(b)
            );
            stats.hit(if a == b {
                "orders_alike"
            } else {
                "orders_biased"
            });
        }
        Ok(())
    }
}

trait HarnessSome<T> {
    fn harness_some(self, what: &str) -> Res<T>;
}
impl<T> HarnessSome<T> for Option<T> {
    fn harness_some(self, what: &str) -> Res<T> {
        self.ok_or_else(|| crate::engine::Fail::Harness(what.to_string()))
    }
}

// ---------------------------------------------------------------------------------------------
// C36: lessons that are passed but not mastered give a share of their exercises.

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct ShareCase {
    /// For each lesson the number of its exercises and the history of all of them.
    pub lessons: Vec<(u8, u8)>,
    pub options: Options,
    /// The minimum share, in hundredths.
    pub min_fraction: u8,
    /// How the lessons are asked for.
    pub how: u8,
    pub batches: u8,
}

pub struct C36;
impl Prop for C36 {
    type Case = ShareCase;
    fn id(&self) -> &'static str {
        "C36"
    }
    fn rule(&self) -> &'static str {
        "some lesson had an average between the passing score and four, and a share of its exercises that shows in the size of the batch"
    }
    fn quick_cases(&self) -> usize {
        2500
    }
    fn strategy(&self, thorough: bool) -> BoxedStrategy<ShareCase> {
        (
            vec((1u8..=24, any::<u8>()), 1..if thorough { 6 } else { 4 }),
            options_strategy(),
            100u16..=395,
            prop_oneof![2 => Just(50u8), 5 => 0u8..=100],
            0u8..3,
            1u8..4,
        )
            .prop_map(
                |(lessons, mut options, score, min_fraction, how, batches)| {
                    options.max_lessons = 10_000;
                    options.relearn_percent = 0;
                    // Lessons are always reached: each is in a course of its own.
                    let trials = options.passing.map_or(180, |(_, trials)| trials);
                    options.passing = Some((score, trials));
                    ShareCase {
                        lessons,
                        options,
                        min_fraction,
                        how,
                        batches,
                    }
                },
            )
            .boxed()
    }
    fn check(&self, case: &ShareCase, stats: &mut Stats) -> Res {
        let flat = Flat {
            courses: case
                .lessons
                .iter()
                .map(|(n, profile)| vec![vec![*profile; *n as usize]])
                .collect(),
            naming: case.how,
        };
        let mut lib = flat.lib();
        // All the exercises of a lesson have the same score.
        for e in lib
            .courses
            .iter_mut()
            .flat_map(|c| &mut c.lessons)
            .flat_map(|l| &mut l.exercises)
        {
            e.declarative = false;
        }
        let mut world = World::new(&lib)?;
        world.record(&flat.history())?;
        let mut options = case.options.decode();
        options.passing_score.min_fraction = f32::from(case.min_fraction) / 100.0;
        options
            .verify()
            .must("valid-options-rejected", "verifying valid options")?;
        world.set_options(options.clone());
        let scores = scores_of(&world, &lib.exercise_ids())?;
        let passing = f64::from(options.passing_score.min_score);
        // The possible numbers of exercises per window.
        let mut possible: BTreeSet<[usize; 5]> = [[0; 5]].into();
        let mut full = [0; 5];
        for (_, l) in lib.lessons() {
            let score = scores[l.exercises[0].id.as_str()];
            let Some(w) = window_of(&options, score) else {
                return Err(crate::engine::Fail::Harness(format!(
                    "the score {score} is in no window of {options:?}"
                )));
            };
            let total = l.exercises.len();
            full[w] += total;
            let score = f64::from(score);
            if (score - passing).abs() < 1e-3 || (score - 4.0).abs() < 1e-3 {
                stats.hit("too_close_to_call");
                return Ok(());
            }
            let numbers: BTreeSet<usize> = if score < passing || score > 4.0 {
                [total].into()
            } else {
                let min = f64::from(case.min_fraction) / 100.0;
                let share = min + (score - passing) / (4.0 - passing) * (1.0 - min);
                let x = share * total as f64;
                [x - 1e-3, x + 1e-3]
                    .map(|x| (x.max(0.0).floor() as usize).max(1))
                    .into()
            };
            possible = possible
                .into_iter()
                .flat_map(|p| {
                    numbers.iter().map(move |n| {
                        let mut p = p;
                        p[w] += n;
                        p
                    })
                })
                .collect();
        }
        let shares = adjusted_shares(&options, 0, 0);
        let want: BTreeSet<[usize; 5]> = possible
            .iter()
            .flat_map(|sizes| expected_mix(*sizes, &options, shares))
            .collect();
        if expected_mix(full, &options, shares).is_disjoint(&want) {
            stats.mark_nontrivial();
        }
        // A search may stop once it found ten times the size of the batch.
        let by_name = lib.num_exercises() >= 10 * options.batch_size;
        for _ in 0..case.batches {
            let filter = match case.how {
                0 if !by_name => None,
                1 if !by_name => Some(UnitFilter::CourseFilter {
                    course_ids: lib.courses.iter().map(|c| u(&c.id)).collect(),
                }),
                _ => Some(UnitFilter::LessonFilter {
                    lesson_ids: lib.lessons().map(|(_, l)| u(&l.id)).collect(),
                }),
            };
            let batch = world.batch(filter.map(ExerciseFilter::UnitFilter))?;
            let mut mix = [0; 5];
            for e in &batch {
                let score = scores[e.id.as_str()];
                mix[window_of(&options, score).harness_some("window")?] += 1;
            }
            check!(
                want.contains(&mix),
                "wrong-share",
                "a batch of size {} has {mix:?} exercises from the mastered, easy, current, target and new windows, expected one of {want:?}: with a passing score of {passing} and a share of at least {} %, {possible:?} of {full:?} are candidates",
                options.batch_size,
                case.min_fraction
            );
            stats.hit("batches");
            stats.hit_if(!possible.contains(&full), "batches_with_partial_lessons");
        }
        Ok(())
    }
}

// ---------------------------------------------------------------------------------------------
// C32: mastered exercises covered by many others are left out.

/// Covering lessons, each in a course of its own, and covered ones, related in different ways.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct CoverCase {
    /// For each covered lesson: the number of lessons that cover it, how, the weight of the edges
    /// and the history of its exercises.
    pub covered: Vec<(u8, u8, u8, u8)>,
    /// The profiles of the covering lessons.
    pub coverers: Vec<u8>,
    /// Additional edges between any of the lessons and courses.
    pub extra: Vec<(u8, u8, u8)>,
    pub batch_size: usize,
    pub batches: u8,
}

const WEIGHTS: [f32; 4] = [1.0, 0.5, 0.0, 0.8];

/// The history of a covered exercise: mostly mastered, sometimes good or not practiced.
fn covered_trials(id: &str, profile: u8, out: &mut Vec<PastTrial>) {
    let (n, score) = match profile % 8 {
        0..=3 => (5, 5),
        4 | 5 => (3, 4),
        6 => (2, 3),
        _ => (0, 0),
    };
    out.extend((0..n).map(|i| PastTrial {
        exercise: id.to_string(),
        score,
        seconds_ago: 3600 + i * DAY,
    }));
}

/// The total weight with which the lessons and courses of a pool encompass each unit. Nothing if
/// it depends on the order in which the relations are followed.
pub fn cover_weights(
    edges: &Edges,
    lib: &Lib,
    pool: &BTreeSet<String>,
) -> Option<BTreeMap<String, f32>> {
    let course_of: BTreeMap<&str, &str> = lib
        .lessons()
        .map(|(c, l)| (l.id.as_str(), c.id.as_str()))
        .collect();
    let mut sources: BTreeSet<&str> = BTreeSet::new();
    for l in pool {
        sources.extend([l.as_str(), course_of[l.as_str()]]);
    }
    let walk = |lifo: bool| {
        let mut total: BTreeMap<String, f32> = BTreeMap::new();
        for s in &sources {
            let mut visited = BTreeSet::new();
            let mut open = std::collections::VecDeque::from([(s.to_string(), 1.0f32, 1.0f32)]);
            while let Some((id, reward, weight)) = if lifo {
                open.pop_back()
            } else {
                open.pop_front()
            } {
                if !visited.insert(id.clone()) {
                    continue;
                }
                for (to, w) in edges.get(&id).into_iter().flatten() {
                    if *w == 0.0 || reward < 0.2 || weight < 0.2 {
                        continue;
                    }
                    *total.entry(to.clone()).or_default() += w;
                    open.push_back((to.clone(), reward * 0.9, w * weight * 0.8));
                    if let Some(c) = course_of.get(to.as_str()) {
                        open.push_back((c.to_string(), reward * 0.9, w * weight * 0.8));
                    }
                }
            }
        }
        total
    };
    let (a, b) = (walk(true), walk(false));
    let same = a.len() == b.len()
        && a.iter()
            .all(|(k, v)| b.get(k).is_some_and(|w| (v - w).abs() < 1e-3));
    same.then_some(a)
}

pub struct C32;
impl Prop for C32 {
    type Case = CoverCase;
    fn id(&self) -> &'static str {
        "C32"
    }
    fn rule(&self) -> &'static str {
        "some mastered exercise was covered enough to be left out, and some other mastered exercise of the pool was not"
    }
    fn quick_cases(&self) -> usize {
        1500
    }
    fn strategy(&self, _thorough: bool) -> BoxedStrategy<CoverCase> {
        let how = prop_oneof![Just(0u8), 0u8..6];
        let weight = prop_oneof![2 => Just(0u8), 1 => 0u8..4];
        let covered = (
            prop_oneof![2 => 0u8..=24, 1 => 9u8..=11, 1 => 4u8..=6],
            how,
            weight.clone(),
            any::<u8>(),
        );
        (
            prop_oneof![3 => vec(covered.clone(), 1..6), 1 => vec(covered, 6..20)],
            prop_oneof![3 => 8usize..=24, 1 => 1usize..40],
            prop_oneof![Just(Some(0u8)), Just(Some(6u8)), Just(None)],
            vec(any::<u8>(), 40),
            vec((any::<u8>(), any::<u8>(), weight), 0..4),
            prop_oneof![2 => Just(50usize), 1 => 10usize..30, 1 => 5usize..10],
            4u8..10,
        )
            .prop_map(
                |(covered, n, one, mut coverers, extra, batch_size, batches)| {
                    coverers.truncate(n);
                    if let Some(p) = one {
                        coverers.fill(p);
                    }
                    CoverCase {
                        covered,
                        coverers,
                        extra,
                        batch_size,
                        batches,
                    }
                },
            )
            .boxed()
    }
    fn check(&self, case: &CoverCase, stats: &mut Stats) -> Res {
        let coverers = case.coverers.len();
        let course = |id: String| Course {
            lessons: vec![Lesson {
                id: format!("{id}::l"),
                exercises: vec![Exercise {
                    id: format!("{id}::l::e"),
                    declarative: false,
                }],
                ..Lesson::default()
            }],
            id,
            ..Course::default()
        };
        let mut history = vec![];
        let mut covering: Vec<Course> = (0..coverers).map(|i| course(format!("a{i}"))).collect();
        for (i, p) in case.coverers.iter().enumerate() {
            history.extend(profile_trials(&format!("a{i}::l::e"), *p));
        }
        let (mut helpers, mut covered) = (vec![], vec![]);
        let mut targets: Vec<String> = vec![];
        for (m, (n, how, weight, profile)) in case.covered.iter().enumerate() {
            let weight = WEIGHTS[*weight as usize % 4];
            let mut c = course(format!("b{m}"));
            for e in 1..=(profile / 8) % 3 {
                c.lessons[0].exercises.push(Exercise {
                    id: format!("b{m}::l::e{e}"),
                    declarative: false,
                });
            }
            for e in &c.lessons[0].exercises {
                covered_trials(&e.id, *profile, &mut history);
            }
            let (course_id, lesson_id) = (c.id.clone(), c.lessons[0].id.clone());
            let mut helper = course(format!("h{m}"));
            match how % 6 {
                3 => helper.lessons[0]
                    .encompassed
                    .push((lesson_id.clone(), weight)),
                4 => helper.encompassed.push((lesson_id.clone(), weight)),
                _ => {}
            }
            for i in 0..(*n as usize).min(coverers) {
                // Spread over the coverers.
                let k = &mut covering[(i + m) % coverers];
                match how % 6 {
                    0 => k.lessons[0].encompassed.push((lesson_id.clone(), weight)),
                    1 => k.lessons[0].encompassed.push((course_id.clone(), weight)),
                    2 => k.lessons[0]
                        .encompassed
                        .extend([(lesson_id.clone(), weight), (course_id.clone(), weight)]),
                    5 => k.encompassed.push((course_id.clone(), weight)),
                    _ => k.lessons[0]
                        .encompassed
                        .push((helper.lessons[0].id.clone(), 1.0)),
                }
            }
            targets.push(lesson_id);
            covered.push(c);
            if matches!(how % 6, 3 | 4) {
                helpers.push(helper);
            }
        }
        // Edges go from earlier to later units, so there are no cycles.
        let mut lib = Lib {
            courses: covering.into_iter().chain(helpers).chain(covered).collect(),
        };
        let n = lib.courses.len();
        for (from, to, weight) in &case.extra {
            let (i, j) = (*from as usize / 2 % n, *to as usize / 2 % n);
            if i >= j {
                continue;
            }
            let target = if to % 2 == 0 {
                lib.courses[j].id.clone()
            } else {
                lib.courses[j].lessons[0].id.clone()
            };
            let c = &mut lib.courses[i];
            let list = if from % 2 == 0 {
                &mut c.encompassed
            } else {
                &mut c.lessons[0].encompassed
            };
            if !list.iter().any(|(t, _)| *t == target) {
                list.push((target, WEIGHTS[*weight as usize % 4]));
            }
        }
        let mut world = World::new(&lib)?;
        world.record(&history)?;
        let mut options = world.trane.get_scheduler_options();
        options.batch_size = case.batch_size;
        options.max_lessons_in_progress = 1000;
        options.passing_score.min_fraction = 1.0;
        world.set_options(options.clone());
        let scores = scores_of(&world, &lib.exercise_ids())?;
        let edges = super::scores::encompass_edges(&lib);
        let unit_of: BTreeMap<String, (String, String)> = lib
            .exercises()
            .map(|(c, l, e)| (e.id.clone(), (c.id.clone(), l.id.clone())))
            .collect();

        // Everything, and each covered lesson with all that may cover it.
        let everything: BTreeSet<String> = lib.lessons().map(|(_, l)| l.id.clone()).collect();
        let mut pools: Vec<(BTreeSet<String>, usize)> = vec![(everything, case.batches as usize)];
        for t in &targets {
            let mut pool: BTreeSet<String> = (0..coverers).map(|i| format!("a{i}::l")).collect();
            pool.insert(t.clone());
            pools.push((pool, 2));
            pools.push(([t.clone()].into(), 1));
        }
        let shares = adjusted_shares(&options, 0, 0);
        let (mut out, mut inside) = (false, false);
        for (p, (pool, batches)) in pools.iter().enumerate() {
            let Some(weights) = cover_weights(&edges, &lib, pool) else {
                stats.hit("pools_that_depend_on_the_order");
                continue;
            };
            // The window of each exercise: left out, or that of its score unless it is covered.
            let mut sizes = [0; 5];
            let mut place: BTreeMap<&str, Option<usize>> = BTreeMap::new();
            let mut unclear = false;
            for (id, (c, l)) in &unit_of {
                if !pool.contains(l) {
                    continue;
                }
                let weight = weights.get(l).copied().unwrap_or_default()
                    + weights.get(c).copied().unwrap_or_default();
                let score = scores[id];
                let near = |x: f32, limit: f32| x != limit && (x - limit).abs() < 1e-3;
                unclear |= near(weight, 10.0) || near(weight, 5.0);
                unclear |= near(score, 4.5) || near(score, 3.75);
                let window = if weight >= 10.0 && score >= 4.5 {
                    out = true;
                    None
                } else if weight >= 5.0 && score >= 3.75 {
                    stats.hit("moved_to_the_mastered_window");
                    Some(0)
                } else {
                    inside |= score >= 4.5;
                    window_of(&options, score)
                };
                if let Some(w) = window {
                    sizes[w] += 1;
                }
                place.insert(id, window);
            }
            if unclear {
                stats.hit("too_close_to_call");
                continue;
            }
            let want = expected_mix(sizes, &options, shares);
            for _ in 0..*batches {
                // A search without filter may stop once it found ten times the batch size.
                let batch = if p == 0 && place.len() < 10 * case.batch_size {
                    world.batch(None)?
                } else {
                    world.batch(Some(ExerciseFilter::UnitFilter(UnitFilter::LessonFilter {
                        lesson_ids: pool.iter().map(|l| u(l)).collect(),
                    })))?
                };
                let mut mix = [0; 5];
                for e in &batch {
                    let id = e.id.as_str();
                    let (c, l) = &unit_of[id];
                    match place.get(id) {
                        Some(Some(w)) => mix[*w] += 1,
                        Some(None) => {
                            return Err(crate::engine::violation(
                                "covered-offered",
                                format!(
                                    "{id} with score {} offered although the other exercises of the pool {pool:?} encompass its lesson with weight {:?} and its course with {:?}",
                                    scores[id],
                                    weights.get(l),
                                    weights.get(c)
                                ),
                            ));
                        }
                        None => {
                            return Err(crate::engine::violation(
                                "outside-filter",
                                format!("{id} offered with a filter on {pool:?}"),
                            ));
                        }
                    }
                }
                check!(
                    want.contains(&mix),
                    "wrong-mix",
                    "a batch from {pool:?} has {mix:?} exercises from the mastered or covered, easy, current, target and new ones, expected one of {want:?} as there are {sizes:?}; scores {:?}, weights {weights:?}",
                    place.keys().map(|k| (k, scores[*k])).collect::<Vec<_>>()
                );
                stats.hit("batches");
            }
            stats.add(
                "left_out",
                place.values().filter(|w| w.is_none()).count() as u64,
            );
        }
        if out && inside {
            stats.mark_nontrivial();
        }
        Ok(())
    }
}

// ---------------------------------------------------------------------------------------------
// C27: the options.

/// One way to make valid options invalid.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Flaw {
    BatchSize,
    Relearn(i8),
    Share(u8, i8),
    NewStart(i8),
    MasteredEnd(i8),
    Gap(u8, bool, i8),
    MaxLessons,
    PassingScore(i8),
    PassingFraction(i8),
    PassingTrials(i8),
}

fn apply_flaw(o: &mut SchedulerOptions, flaw: Flaw) {
    // Amounts are at least one hundredth.
    let amount = |n: i8| {
        let n = f32::from(n);
        (if n >= 0.0 { n + 1.0 } else { n - 1.0 }) / 100.0
    };
    fn windows(o: &mut SchedulerOptions) -> [&mut MasteryWindow; 5] {
        [
            &mut o.new_window_opts,
            &mut o.target_window_opts,
            &mut o.current_window_opts,
            &mut o.easy_window_opts,
            &mut o.mastered_window_opts,
        ]
    }
    match flaw {
        Flaw::BatchSize => o.batch_size = 0,
        Flaw::Relearn(n) => {
            o.relearn_fraction = if n >= 0 { 1.0 + amount(n) } else { amount(n) };
        }
        Flaw::Share(w, n) => windows(o)[w as usize % 5].percentage += amount(n),
        Flaw::NewStart(n) => o.new_window_opts.range.0 += amount(n),
        Flaw::MasteredEnd(n) => o.mastered_window_opts.range.1 += amount(n),
        Flaw::Gap(w, end, n) => {
            let w = w as usize % 4;
            if end {
                windows(o)[w].range.1 += amount(n);
            } else {
                windows(o)[w + 1].range.0 += amount(n);
            }
        }
        Flaw::MaxLessons => o.max_lessons_in_progress = 0,
        Flaw::PassingScore(n) => {
            o.passing_score.min_score = if n >= 0 { 4.0 + amount(n) } else { amount(n) };
        }
        Flaw::PassingFraction(n) => {
            o.passing_score.min_fraction = if n >= 0 { 1.0 + amount(n) } else { amount(n) };
        }
        Flaw::PassingTrials(n) => o.passing_score.min_avg_trials = 1.0 - amount(n).abs(),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct OptionsCase {
    pub options: Vec<Options>,
    pub flaw: Flaw,
    pub preferred: Option<usize>,
    pub session: crate::session::SessionCase,
}

pub struct C27;
impl Prop for C27 {
    type Case = OptionsCase;
    fn id(&self) -> &'static str {
        "C27"
    }
    fn rule(&self) -> &'static str {
        "after options were changed in an open library, a batch had exercises past a dependency while another lesson was held back under the new options but not under the old ones, or the other way around"
    }
    fn quick_cases(&self) -> usize {
        1200
    }
    fn strategy(&self, thorough: bool) -> BoxedStrategy<OptionsCase> {
        use crate::{
            library::LibParams,
            session::{SessionParams, session_strategy},
        };
        let flaw = prop_oneof![
            Just(Flaw::BatchSize),
            any::<i8>().prop_map(Flaw::Relearn),
            (any::<u8>(), -20i8..20).prop_map(|(w, n)| Flaw::Share(w, n)),
            any::<i8>().prop_map(Flaw::NewStart),
            any::<i8>().prop_map(Flaw::MasteredEnd),
            (any::<u8>(), any::<bool>(), any::<i8>()).prop_map(|(w, e, n)| Flaw::Gap(w, e, n)),
            Just(Flaw::MaxLessons),
            any::<i8>().prop_map(Flaw::PassingScore),
            any::<i8>().prop_map(Flaw::PassingFraction),
            any::<i8>().prop_map(Flaw::PassingTrials),
        ];
        let session = session_strategy(SessionParams {
            lib: LibParams {
                courses: if thorough { 6 } else { 4 },
                lessons: 3,
                exercises: 2,
                min_exercises: 1,
                superseding: true,
                ..LibParams::default()
            },
            steps: 2,
            blacklist: true,
            review: false,
            filters: false,
            metadata_filters: false,
            scores: true,
            batch_sizes: false,
        });
        (
            vec(options_strategy(), 1..5),
            flaw,
            prop::option::of(prop_oneof![1 => Just(0usize), 4 => 1usize..100]),
            session,
        )
            .prop_map(|(mut options, flaw, preferred, session)| {
                for o in &mut options {
                    o.batch_size = o.batch_size.max(10);
                }
                OptionsCase {
                    options,
                    flaw,
                    preferred,
                    session,
                }
            })
            .boxed()
    }
    fn check(&self, case: &OptionsCase, stats: &mut Stats) -> Res {
        let defaults = SchedulerOptions::default();
        // Only valid options are accepted.
        for o in &case.options {
            let good = o.decode();
            good.verify()
                .must("valid-options-rejected", "verifying valid options")?;
            let mut bad = good.clone();
            apply_flaw(&mut bad, case.flaw);
            check!(
                bad.verify().is_err(),
                "invalid-options-accepted",
                "options with the flaw {:?} are accepted: {bad:?}",
                case.flaw
            );
        }

        // The preferences are in effect when the library is opened, or it is rejected.
        if let Some(batch_size) = case.preferred {
            let dir = tempdir()?;
            case.session.lib.write(dir.path())?;
            std::fs::create_dir_all(dir.path().join(".trane")).harness("create dir")?;
            std::fs::write(
                dir.path().join(".trane/user_preferences.json"),
                serde_json::json!({"scheduler": {"batch_size": batch_size}}).to_string(),
            )
            .harness("write preferences")?;
            let opened = open(dir.path());
            if batch_size == 0 {
                check!(
                    opened.is_err(),
                    "invalid-options-accepted",
                    "a library with a preferred batch size of zero opens"
                );
            } else {
                let mut trane = opened.must("open", "opening with a preferred batch size")?;
                let want = SchedulerOptions {
                    batch_size,
                    ..defaults.clone()
                };
                check!(
                    trane.get_scheduler_options() == want,
                    "wrong-options",
                    "the options with a preferred batch size of {batch_size} are {:?}",
                    trane.get_scheduler_options()
                );
                let batch: Vec<ExerciseManifest> = trane
                    .get_exercise_batch(None)
                    .must("batch-error", "requesting a batch")?;
                check!(
                    batch.len() <= batch_size.max(5),
                    "too-large",
                    "a batch of {} exercises with a preferred size of {batch_size}",
                    batch.len()
                );
                trane.reset_scheduler_options();
                check!(
                    trane.get_scheduler_options() == defaults,
                    "wrong-options",
                    "the options after a reset are {:?}",
                    trane.get_scheduler_options()
                );
            }
        }

        // Options set later take effect at once and for everything.
        let (mut world, state) = crate::session::run_session_in(&case.session, &mut |_| Ok(()))?;
        let idx = Index::new(&case.session.lib);
        let mut previous: Option<BTreeSet<String>> = None;
        for (i, o) in case.options.iter().chain([&case.options[0]]).enumerate() {
            if i == case.options.len() {
                world.trane.reset_scheduler_options();
            } else {
                world.trane.set_scheduler_options(o.decode());
            }
            let want = if i == case.options.len() {
                defaults.clone()
            } else {
                o.decode()
            };
            check!(
                world.trane.get_scheduler_options() == want,
                "wrong-options",
                "the options are {:?} after setting {want:?}",
                world.trane.get_scheduler_options()
            );
            // Scores follow the new options without further ado: compare with an instance that
            // had them from the start.
            let mut fresh = world.fresh()?;
            fresh.set_scheduler_options(want.clone());
            for id in case.session.lib.unit_ids() {
                let a = world
                    .trane
                    .get_unit_score(u(&id))
                    .must("score-error", "score")?;
                let b = fresh.get_unit_score(u(&id)).must("score-error", "score")?;
                check!(
                    a.is_some() == b.is_some()
                        && (a.unwrap_or_default() - b.unwrap_or_default()).abs() < 1e-3,
                    "stale-score",
                    "the score of {id} is {a:?} after changing the options to {want:?}, {b:?} in an instance that was opened with them"
                );
            }
            let held = super::scheduling::check_under_options(&world, &idx, &state, &want, stats)?;
            if let (Some(held), Some(before)) = (&held, &previous)
                && held != before
            {
                stats.mark_nontrivial();
                stats.hit("options_that_change_what_is_reachable");
            }
            previous = held;
        }
        Ok(())
    }
}

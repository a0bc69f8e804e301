//! C40: the time that requests take on libraries whose units are related along very many paths.

use proptest::{collection::vec, prelude::*};
use serde::{Deserialize, Serialize};
use trane::{
    blacklist::Blacklist,
    data::{
        ExerciseTrial,
        filter::{ExerciseFilter, FilterOp, FilterType, KeyValueFilter, UnitFilter},
    },
    graph::UnitGraph,
    practice_stats::PracticeStats,
    review_list::ReviewList,
    scheduler::ExerciseScheduler,
};

use crate::{
    check,
    engine::{OrViolation, Prop, Res, Stats},
    library::{Course, Exercise, Lesson, Lib, Metadata},
    world::{World, u},
};

/// How much processor time any single request may take. On the unchanged tree the slowest ones
/// need less than a quarter of that.
const LIMIT: f64 = 5.0;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ShapeCase {
    /// The number of units in each layer, which all relate to all units of the layers before.
    pub width: usize,
    /// The number of layers before a unit that it relates to.
    pub reach: usize,
    /// The units are courses, lessons of one course, or lessons of different courses.
    pub level: u8,
    pub dependencies: bool,
    pub superseded: bool,
    pub encompassed: bool,
    /// The score of the past answers of each layer, repeated; zero stands for none.
    pub scores: Vec<u8>,
    /// The kinds of requests made, in order.
    pub requests: Vec<u8>,
}

impl ShapeCase {
    /// The growing numbers of layers to try. The number of paths grows at most 9-fold from each to
    /// the next, so that a request that follows all paths is slow before it is hopeless. Deep and
    /// narrow libraries have many paths but few relations.
    fn layers(&self) -> Vec<usize> {
        match (self.width, self.reach) {
            _ if self.dependencies && self.superseded => vec![6, 10, 14, 18],
            (1, 1) => vec![10, 50, 300],
            (1, _) => vec![10, 16, 22, 25, 28, 31, 34, 37, 40],
            (2, 1) => vec![6, 10, 14, 16, 18, 20, 22],
            (2, _) => vec![4, 6, 8, 10, 12, 14, 16, 18],
            _ => vec![4, 6, 8, 10, 12, 14, 16],
        }
    }

    fn unit(&self, layer: usize, i: usize) -> String {
        match self.level {
            0 => format!("u{layer}_{i}"),
            1 => format!("all::u{layer}_{i}"),
            _ => format!("u{layer}_{i}::l"),
        }
    }

    fn related(&self, layer: usize) -> Vec<String> {
        (layer.saturating_sub(self.reach)..layer)
            .rev()
            .flat_map(|l| (0..self.width).map(move |i| self.unit(l, i)))
            .collect()
    }

    fn exercise(&self, layer: usize, i: usize) -> String {
        match self.level {
            0 => format!("{}::l::e", self.unit(layer, i)),
            _ => format!("{}::e", self.unit(layer, i)),
        }
    }

    fn library(&self, layers: usize) -> Lib {
        let mut courses: Vec<Course> = vec![];
        if self.level == 1 {
            courses.push(Course {
                id: "all".into(),
                ..Course::default()
            });
        }
        for layer in 0..layers {
            for i in 0..self.width {
                let id = self.unit(layer, i);
                let related = self.related(layer);
                let list = |yes: bool| if yes { related.clone() } else { vec![] };
                let (deps, superseded) = (list(self.dependencies), list(self.superseded));
                let encompassed: Vec<(String, f32)> = list(self.encompassed)
                    .into_iter()
                    .map(|id| (id, 1.0))
                    .collect();
                let metadata = Some(Metadata::from([(
                    "layer".to_string(),
                    vec![if layer == 0 { "first" } else { "later" }.to_string()],
                )]));
                let exercises = vec![Exercise {
                    id: self.exercise(layer, i),
                    declarative: false,
                }];
                let mut lesson = Lesson {
                    id: id.clone(),
                    exercises,
                    metadata: metadata.clone(),
                    ..Lesson::default()
                };
                if self.level == 0 {
                    lesson.id = format!("{id}::l");
                    courses.push(Course {
                        id,
                        deps,
                        superseded,
                        encompassed,
                        metadata,
                        lessons: vec![lesson],
                    });
                    continue;
                }
                lesson.deps = deps;
                lesson.superseded = superseded;
                lesson.encompassed = encompassed;
                if self.level == 1 {
                    courses[0].lessons.push(lesson);
                } else {
                    courses.push(Course {
                        id: id.trim_end_matches("::l").to_string(),
                        metadata,
                        lessons: vec![lesson],
                        ..Course::default()
                    });
                }
            }
        }
        Lib { courses }
    }
}

/// The processor time that this thread has used.
fn cpu_seconds() -> f64 {
    let mut ts = libc_timespec { sec: 0, nsec: 0 };
    // SAFETY: clock_gettime only writes to the given struct.
    unsafe { clock_gettime(CLOCK_THREAD_CPUTIME_ID, &raw mut ts) };
    ts.sec as f64 + ts.nsec as f64 / 1e9
}
#[repr(C)]
#[allow(non_camel_case_types)]
struct libc_timespec {
    sec: i64,
    nsec: i64,
}
const CLOCK_THREAD_CPUTIME_ID: i32 = 3;
unsafe extern "C" {
    fn clock_gettime(clock: i32, ts: *mut libc_timespec) -> i32;
}

pub struct C40;
impl Prop for C40 {
    type Case = ShapeCase;
    fn id(&self) -> &'static str {
        "C40"
    }
    fn rule(&self) -> &'static str {
        "the largest library has more than a million paths from its first to its last units"
    }
    fn quick_cases(&self) -> usize {
        120
    }
    fn thorough_cases(&self) -> usize {
        4000
    }
    fn strategy(&self, _thorough: bool) -> BoxedStrategy<ShapeCase> {
        (
            prop_oneof![
                1 => Just((1usize, 1usize)),
                2 => Just((1, 2)),
                3 => Just((2, 1)),
                2 => Just((2, 2)),
                3 => Just((3, 1)),
            ],
            0u8..3,
            // Superseding units that depend on what they supersede are the usual case.
            prop_oneof![
                2 => Just((true, false, false)),
                2 => Just((true, true, false)),
                2 => Just((false, true, false)),
                1 => Just((true, false, true)),
                1 => Just((false, false, true)),
                1 => Just((true, true, true)),
            ],
            prop_oneof![
                3 => Just(vec![5u8]),
                1 => Just(vec![0u8]),
                2 => vec(0u8..=5, 1..4),
            ],
            vec(0u8..13, 8..20),
        )
            .prop_map(|(shape, level, relations, scores, requests)| {
                let (dependencies, superseded, encompassed) = relations;
                // A search checks for each dependency which of the units above it are superseded,
                // which is slow for many relations of both kinds, although not hopeless.
                let (width, reach) = if dependencies && superseded && shape.0 * shape.1 > 2 {
                    (2, 1)
                } else {
                    shape
                };
                ShapeCase {
                    width,
                    reach,
                    level,
                    dependencies,
                    superseded,
                    encompassed,
                    scores,
                    requests,
                }
            })
            .boxed()
    }
    fn check(&self, case: &ShapeCase, stats: &mut Stats) -> Res {
        for layers in case.layers() {
            self.check_layers(case, layers, stats)?;
        }
        let last = *case.layers().last().unwrap_or(&0) as f64;
        let growth = match (case.width as f64, case.reach) {
            (w, 1) => w,
            // Each unit relates to two layers: the positive root of x² = w x + w.
            (w, _) => (w + (w * w + 4.0 * w).sqrt()) / 2.0,
        };
        let paths = growth.powf(last - 1.0);
        stats.hit_if(paths > 1e6, "libraries_with_over_a_million_paths");
        if paths > 1e6 {
            stats.mark_nontrivial();
        }
        Ok(())
    }
}

impl C40 {
    fn check_layers(&self, case: &ShapeCase, layers: usize, stats: &mut Stats) -> Res {
        let lib = case.library(layers);
        let units: Vec<String> = (0..layers)
            .flat_map(|l| (0..case.width).map(move |i| (l, i)))
            .map(|(l, i)| case.unit(l, i))
            .collect();
        let (first, last) = (&units[0], &units[units.len() - 1]);
        let what = format!("in a library of {layers} layers");
        let slowest = std::cell::Cell::new(0.0f64);
        let timed = |name: &str, f: &mut dyn FnMut() -> Res| -> Res {
            let start = cpu_seconds();
            f()?;
            let took = cpu_seconds() - start;
            slowest.set(slowest.get().max(took));
            check!(
                took < LIMIT,
                "slow",
                "{name} took {took:.1} s of processor time {what} with {} units",
                units.len()
            );
            Ok(())
        };

        let mut opened = None;
        timed("opening", &mut || {
            opened = Some(World::new(&lib)?);
            Ok(())
        })?;
        let mut world = opened.expect("opened");
        let now = world.now;

        let mut trials = vec![];
        for layer in 0..layers {
            let score = case.scores[layer % case.scores.len()];
            for i in 0..case.width {
                for n in 0..if score == 0 { 0 } else { 3 } {
                    trials.push(ExerciseTrial {
                        exercise_id: u(&case.exercise(layer, i)),
                        score: f32::from(score),
                        timestamp: now - 3600 - n,
                    });
                }
            }
        }
        world
            .trane
            .record_exercise_scores(&trials)
            .must("record", "recording past trials")?;

        for request in &case.requests {
            let filter = match request {
                0 => Some(None),
                1 => Some(Some(UnitFilter::Dependencies {
                    unit_ids: vec![u(last)],
                    depth: layers,
                })),
                2 => Some(Some(UnitFilter::Dependencies {
                    unit_ids: vec![u(last), u(&units[units.len() / 2])],
                    depth: layers.saturating_sub(2),
                })),
                3 => Some(Some(UnitFilter::Dependents {
                    unit_ids: vec![u(first)],
                })),
                4 => Some(Some(UnitFilter::CourseFilter {
                    course_ids: lib.courses.iter().map(|c| u(&c.id)).collect(),
                })),
                5 => Some(Some(UnitFilter::LessonFilter {
                    lesson_ids: lib.lessons().map(|(_, l)| u(&l.id)).collect(),
                })),
                6 | 7 => Some(Some(UnitFilter::MetadataFilter {
                    filter: KeyValueFilter::CombinedFilter {
                        op: FilterOp::Any,
                        filters: vec![
                            KeyValueFilter::LessonFilter {
                                key: "layer".into(),
                                value: "first".into(),
                                filter_type: if *request == 6 {
                                    FilterType::Include
                                } else {
                                    FilterType::Exclude
                                },
                            },
                            KeyValueFilter::CourseFilter {
                                key: "layer".into(),
                                value: "none".into(),
                                filter_type: FilterType::Include,
                            },
                        ],
                    },
                })),
                _ => None,
            };
            if let Some(filter) = filter {
                let name = format!("a batch with the filter {filter:?}");
                timed(&name, &mut || {
                    world.batch(filter.clone().map(ExerciseFilter::UnitFilter))?;
                    Ok(())
                })?;
                stats.hit("batches");
                continue;
            }
            match request {
                8 => {
                    for id in units.iter().chain(lib.courses.iter().map(|c| &c.id)) {
                        timed("reading the score of a unit", &mut || {
                            world
                                .trane
                                .get_unit_score(u(id))
                                .must("unit-score", "reading the score of a unit")?;
                            Ok(())
                        })?;
                    }
                    stats.hit("scores_of_all_units");
                }
                9 | 10 => {
                    // A good answer spreads down the graph, and a bad one up.
                    let (layer, score) = if *request == 9 {
                        (layers - 1, 5)
                    } else {
                        (0, 1)
                    };
                    let exercise = case.exercise(layer, 0);
                    timed("answering an exercise", &mut || {
                        world.score(&exercise, score, now - 60)
                    })?;
                    stats.hit("answers");
                }
                11 => {
                    timed("changing the lists", &mut || {
                        let middle = u(&units[units.len() / 2]);
                        world
                            .trane
                            .add_to_blacklist(middle)
                            .must("blacklist", "adding to the blacklist")?;
                        world
                            .trane
                            .add_to_review_list(u(last))
                            .must("review", "adding to the review list")?;
                        world
                            .trane
                            .remove_from_blacklist(middle)
                            .must("blacklist", "removing from the blacklist")
                    })?;
                    timed("a batch of the review list", &mut || {
                        world.batch(Some(ExerciseFilter::UnitFilter(
                            UnitFilter::ReviewListFilter,
                        )))?;
                        Ok(())
                    })?;
                }
                _ => {
                    timed("exporting and checking the graph", &mut || {
                        let dot = world.trane.generate_dot_graph(false);
                        check!(!dot.is_empty(), "dot", "the graph is empty");
                        world
                            .trane
                            .check_cycles()
                            .must("cycles", "checking the graph for cycles")
                    })?;
                    stats.hit("exports");
                }
            }
        }
        stats.hit("libraries");
        stats.hit_if(
            slowest.get() > LIMIT / 10.0,
            "libraries_over_a_tenth_of_the_limit",
        );
        stats.hit_if(
            slowest.get() > LIMIT / 3.0,
            "libraries_over_a_third_of_the_limit",
        );
        Ok(())
    }
}

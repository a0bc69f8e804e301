//! Study sessions and metadata filters.

use chrono::{DateTime, Duration, Utc};
use proptest::{collection::vec, prelude::*};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use trane::{
    data::{
        CourseManifest, LessonManifest,
        filter::{
            ExerciseFilter, FilterOp, FilterType, KeyValueFilter, SavedFilter, SessionPart,
            StudySession, StudySessionData, UnitFilter,
        },
    },
    scheduler::ExerciseScheduler,
    study_session_manager::StudySessionManager,
};

use crate::{
    check,
    engine::{OrHarness, OrViolation, Prop, Res, Stats},
    library::{Course, Exercise, Lesson, Lib},
    world::{open, tempdir, u},
};

// ---------------------------------------------------------------------------------------------
// C20: study sessions.

/// One part of the generated session. Every part selects its own lesson.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum PartKind {
    Lesson,
    Course,
    SavedLesson,
    SavedCourse,
    MissingSaved,
    NoFilter,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct StudyCase {
    /// Kind and duration of each part.
    pub parts: Vec<(PartKind, u32)>,
    /// Seconds since the start for which the part is looked up.
    pub lookups: Vec<i64>,
    /// Indices of the parts, minutes into the part, for which batches are requested.
    pub batches: Vec<(u8, u16)>,
    /// The start of the session, in seconds since the epoch, for the lookups.
    pub start: i64,
}

/// The index of the part that covers the minute, if the session has any.
fn part_at(parts: &[(PartKind, u32)], seconds: i64) -> Option<usize> {
    if parts.is_empty() {
        return None;
    }
    let mut end = 0i128;
    for (i, (_, duration)) in parts.iter().enumerate() {
        end += i128::from(*duration) * 60;
        if i128::from(seconds.max(0)) < end || seconds <= -60 {
            return Some(i);
        }
    }
    Some(parts.len() - 1)
}

fn study_library(n: usize) -> Lib {
    Lib {
        courses: (0..n)
            .map(|c| Course {
                id: format!("c{c}"),
                lessons: (0..2)
                    .map(|l| Lesson {
                        id: format!("c{c}::l{l}"),
                        exercises: (0..2)
                            .map(|e| Exercise {
                                id: format!("c{c}::l{l}::e{e}"),
                                declarative: false,
                            })
                            .collect(),
                        ..Lesson::default()
                    })
                    .collect(),
                ..Course::default()
            })
            .collect(),
    }
}

fn study_filter(kind: PartKind, i: usize) -> UnitFilter {
    match kind {
        PartKind::Lesson | PartKind::SavedLesson => UnitFilter::LessonFilter {
            lesson_ids: vec![u(&format!("c{i}::l1"))],
        },
        _ => UnitFilter::CourseFilter {
            course_ids: vec![u(&format!("c{i}"))],
        },
    }
}

fn study_parts(parts: &[(PartKind, u32)]) -> Vec<SessionPart> {
    parts
        .iter()
        .enumerate()
        .map(|(i, (kind, duration))| {
            let duration = *duration;
            match kind {
                PartKind::Lesson | PartKind::Course => SessionPart::UnitFilter {
                    filter: study_filter(*kind, i),
                    duration,
                },
                PartKind::SavedLesson | PartKind::SavedCourse => SessionPart::SavedFilter {
                    filter_id: format!("saved{i}"),
                    duration,
                },
                PartKind::MissingSaved => SessionPart::SavedFilter {
                    filter_id: format!("missing{i}"),
                    duration,
                },
                PartKind::NoFilter => SessionPart::NoFilter { duration },
            }
        })
        .collect()
}

pub struct C20;
impl Prop for C20 {
    type Case = StudyCase;
    fn id(&self) -> &'static str {
        "C20"
    }
    fn rule(&self) -> &'static str {
        "the session has at least two parts and at least two different ones were looked up or practiced"
    }
    fn quick_cases(&self) -> usize {
        3000
    }
    fn strategy(&self, thorough: bool) -> BoxedStrategy<StudyCase> {
        let kind = prop_oneof![
            3 => Just(PartKind::Lesson),
            2 => Just(PartKind::Course),
            3 => Just(PartKind::SavedLesson),
            2 => Just(PartKind::SavedCourse),
            1 => Just(PartKind::MissingSaved),
            2 => Just(PartKind::NoFilter),
        ];
        let duration = prop_oneof![
            1 => Just(0u32),
            6 => 1u32..=5,
            3 => 1u32..=120,
            1 => any::<u32>(),
            1 => Just(u32::MAX),
        ];
        let n = if thorough { 10 } else { 6 };
        (
            vec((kind, duration), 0..=n),
            vec(
                prop_oneof![
                    1 => -100_000i64..0,
                    6 => 0i64..1500,
                    2 => 0i64..40_000,
                    1 => 0i64..400_000_000_000,
                ],
                1..12,
            ),
            vec((any::<u8>(), any::<u16>()), 0..4),
            0i64..4_000_000_000,
        )
            .prop_map(|(parts, lookups, batches, start)| {
                let mut lookups = lookups;
                // The edges of the parts.
                let mut end = 0i64;
                for (_, d) in &parts {
                    end += i64::from(*d) * 60;
                    lookups.extend([end - 1, end, end + 1, end + 59]);
                }
                StudyCase {
                    parts,
                    lookups,
                    batches,
                    start,
                }
            })
            .boxed()
    }
    fn check(&self, case: &StudyCase, stats: &mut Stats) -> Res {
        let parts = study_parts(&case.parts);
        let definition = StudySession {
            id: "session".to_string(),
            description: "A session".to_string(),
            parts: parts.clone(),
        };
        let mut seen = BTreeSet::new();

        // The part in effect is a function of the time since the start.
        let start = DateTime::<Utc>::from_timestamp(case.start, 0).unwrap_or_default();
        let data = StudySessionData {
            start_time: start,
            definition: definition.clone(),
        };
        for seconds in &case.lookups {
            // Less than a minute before the start the first part is in effect as well, even if it
            // has no duration.
            if (-59..0).contains(seconds) {
                continue;
            }
            let got = data.get_part(start + Duration::seconds(*seconds));
            match part_at(&case.parts, *seconds) {
                Some(i) => {
                    check!(
                        got == parts[i],
                        "wrong-part",
                        "{seconds} s into a session with durations {:?} the part is {got:?}, expected number {i}",
                        case.parts
                    );
                    seen.insert(i);
                    stats.hit("lookups");
                }
                None => check!(
                    matches!(got, SessionPart::NoFilter { .. }),
                    "wrong-part",
                    "the part of a session without parts is {got:?}"
                ),
            }
        }

        // Batches come from the part in effect.
        let lib = study_library(case.parts.len().max(1));
        let dir = tempdir()?;
        lib.write(dir.path())?;
        let config = dir.path().join(".trane");
        for sub in ["filters", "study_sessions"] {
            std::fs::create_dir_all(config.join(sub)).harness("create dir")?;
        }
        for (i, (kind, _)) in case.parts.iter().enumerate() {
            if matches!(kind, PartKind::SavedLesson | PartKind::SavedCourse) {
                let saved = SavedFilter {
                    id: format!("saved{i}"),
                    description: String::new(),
                    filter: study_filter(*kind, i),
                };
                std::fs::write(
                    config.join("filters").join(format!("{i}.json")),
                    serde_json::to_string(&saved).harness("serialize")?,
                )
                .harness("write filter")?;
            }
        }
        std::fs::write(
            config.join("study_sessions").join("session.json"),
            serde_json::to_string(&definition).harness("serialize")?,
        )
        .harness("write session")?;
        let trane = open(dir.path()).must("open", "opening a library with a study session")?;
        let Some(definition) = trane.get_study_session("session") else {
            return Err(crate::engine::violation(
                "wrong-session",
                "the study session is not there",
            ));
        };
        let wait = |k: &(u8, u16)| -> i64 {
            // Minutes since the start at a place inside some part, or past the end.
            if case.parts.is_empty() {
                return i64::from(k.1);
            }
            let i = k.0 as usize % (case.parts.len() + 1);
            let before: i64 = case.parts[..i].iter().map(|p| i64::from(p.1)).sum();
            let inside = case.parts.get(i).map_or(1000, |p| i64::from(p.1).max(1));
            before + i64::from(k.1) % inside
        };
        for k in &case.batches {
            let minutes = wait(k);
            // The sessions of the tests start at most some hundred years ago.
            if minutes > 100_000_000 {
                continue;
            }
            let data = StudySessionData {
                start_time: Utc::now() - Duration::seconds(minutes * 60 + 30),
                definition: definition.clone(),
            };
            let batch = trane.get_exercise_batch(Some(ExerciseFilter::StudySession(data)));
            let at = part_at(&case.parts, minutes * 60 + 30);
            let kind = at.map_or(PartKind::NoFilter, |i| case.parts[i].0);
            if kind == PartKind::MissingSaved {
                check!(
                    batch.is_err(),
                    "missing-filter-accepted",
                    "a part with a filter that is not saved gave {:?}",
                    batch.map(|b| b.len())
                );
                stats.hit("batches_with_a_missing_filter");
                continue;
            }
            let batch = batch.must("batch-error", "requesting a batch of a study session")?;
            let got: BTreeSet<String> = batch.iter().map(|e| e.id.to_string()).collect();
            let want: BTreeSet<String> = match (kind, at) {
                (PartKind::Lesson | PartKind::SavedLesson, Some(i)) => lib.courses[i].lessons[1]
                    .exercises
                    .iter()
                    .map(|e| e.id.clone())
                    .collect(),
                (PartKind::Course | PartKind::SavedCourse, Some(i)) => lib.courses[i]
                    .lessons
                    .iter()
                    .flat_map(|l| l.exercises.iter().map(|e| e.id.clone()))
                    .collect(),
                _ => {
                    let spread: BTreeSet<&str> = got.iter().map(|e| &e[..2]).collect();
                    check!(
                        !got.is_empty() && (got.len() <= 4 || spread.len() >= 2),
                        "wrong-batch",
                        "{minutes} minutes into a session with the parts {:?}, a part without filter offered only {got:?}",
                        case.parts
                    );
                    stats.hit("batches_without_filter");
                    continue;
                }
            };
            stats.hit("batches_of_a_part");
            if let Some(i) = at {
                seen.insert(i);
            }
            check!(
                got == want,
                "wrong-batch",
                "{minutes} minutes into a session with the parts {:?} the batch is {got:?}, expected {want:?}",
                case.parts
            );
        }
        if case.parts.len() >= 2 && seen.len() >= 2 {
            stats.mark_nontrivial();
        }
        Ok(())
    }
}

// ---------------------------------------------------------------------------------------------
// C21: metadata filters as boolean expressions.

type Meta = Option<BTreeMap<String, Vec<String>>>;

/// A filter in a form that keeps no code of the library under test.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Expr {
    Course(u8, u8, bool),
    Lesson(u8, u8, bool),
    All(Vec<Expr>),
    Any(Vec<Expr>),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct ExprCase {
    pub expr: Expr,
    pub courses: Vec<Meta>,
    pub lessons: Vec<Meta>,
}

const KEYS: [&str; 4] = ["genre", "level", "", "Genre"];
const VALUES: [&str; 4] = ["a", "b", "", "A"];

impl Expr {
    fn filter(&self) -> KeyValueFilter {
        let filter_type = |include: bool| {
            if include {
                FilterType::Include
            } else {
                FilterType::Exclude
            }
        };
        match self {
            Expr::Course(k, v, include) => KeyValueFilter::CourseFilter {
                key: KEYS[*k as usize % 4].to_string(),
                value: VALUES[*v as usize % 4].to_string(),
                filter_type: filter_type(*include),
            },
            Expr::Lesson(k, v, include) => KeyValueFilter::LessonFilter {
                key: KEYS[*k as usize % 4].to_string(),
                value: VALUES[*v as usize % 4].to_string(),
                filter_type: filter_type(*include),
            },
            Expr::All(list) => KeyValueFilter::CombinedFilter {
                op: FilterOp::All,
                filters: list.iter().map(Expr::filter).collect(),
            },
            Expr::Any(list) => KeyValueFilter::CombinedFilter {
                op: FilterOp::Any,
                filters: list.iter().map(Expr::filter).collect(),
            },
        }
    }

    fn holds(&self, course: &Meta, lesson: &Meta) -> bool {
        let has = |m: &Meta, k: &u8, v: &u8| {
            let (k, v) = (KEYS[*k as usize % 4], VALUES[*v as usize % 4]);
            m.iter()
                .flat_map(|m| m.iter())
                .any(|(key, values)| key == k && values.iter().any(|x| x == v))
        };
        match self {
            Expr::Course(k, v, include) => has(course, k, v) == *include,
            Expr::Lesson(k, v, include) => has(lesson, k, v) == *include,
            Expr::All(list) => !list.iter().any(|e| !e.holds(course, lesson)),
            Expr::Any(list) => list.iter().any(|e| e.holds(course, lesson)),
        }
    }

    fn on_lessons(&self) -> bool {
        match self {
            Expr::Course(..) => false,
            Expr::Lesson(..) => true,
            Expr::All(l) | Expr::Any(l) => l.iter().any(Expr::on_lessons),
        }
    }

    fn size(&self) -> usize {
        match self {
            Expr::All(l) | Expr::Any(l) => 1 + l.iter().map(Expr::size).sum::<usize>(),
            _ => 1,
        }
    }
}

/// Mostly the first keys and values, so that filters and metadata meet.
fn name() -> BoxedStrategy<u8> {
    prop_oneof![5 => 0u8..2, 1 => 0u8..4].boxed()
}

fn meta() -> BoxedStrategy<Meta> {
    prop::option::weighted(
        0.85,
        vec((name(), vec(name(), 0..3)), 0..4).prop_map(|pairs| {
            pairs
                .into_iter()
                .map(|(k, v)| {
                    (
                        KEYS[k as usize].to_string(),
                        v.into_iter()
                            .map(|v| VALUES[v as usize].to_string())
                            .collect(),
                    )
                })
                .collect()
        }),
    )
    .boxed()
}

fn manifests(course: &Meta, lesson: &Meta) -> Res<(CourseManifest, LessonManifest)> {
    let c = serde_json::from_value(serde_json::json!({
        "id": "c", "name": "Course", "metadata": course,
    }))
    .harness("course manifest")?;
    let l = serde_json::from_value(serde_json::json!({
        "id": "c::l", "course_id": "c", "name": "Lesson", "metadata": lesson,
    }))
    .harness("lesson manifest")?;
    Ok((c, l))
}

pub struct C21;
impl Prop for C21 {
    type Case = ExprCase;
    fn id(&self) -> &'static str {
        "C21"
    }
    fn rule(&self) -> &'static str {
        "the filter combines at least two filters and selects some of the generated lessons but not all"
    }
    fn quick_cases(&self) -> usize {
        200_000
    }
    fn strategy(&self, thorough: bool) -> BoxedStrategy<ExprCase> {
        let leaf = prop_oneof![
            (name(), name(), any::<bool>()).prop_map(|(k, v, i)| Expr::Course(k, v, i)),
            (name(), name(), any::<bool>()).prop_map(|(k, v, i)| Expr::Lesson(k, v, i)),
        ];
        let depth = if thorough { 6 } else { 4 };
        let expr = leaf.prop_recursive(depth, 24, 4, |inner| {
            prop_oneof![
                vec(inner.clone(), 0..4).prop_map(Expr::All),
                vec(inner, 0..4).prop_map(Expr::Any),
            ]
        });
        (expr, vec(meta(), 1..4), vec(meta(), 1..5))
            .prop_map(|(expr, courses, lessons)| ExprCase {
                expr,
                courses,
                lessons,
            })
            .boxed()
    }
    fn check(&self, case: &ExprCase, stats: &mut Stats) -> Res {
        let filter = case.expr.filter();
        let text = serde_json::to_string(&filter).harness("serialize")?;
        let back: KeyValueFilter =
            serde_json::from_str(&text).must("round-trip", "reading the filter back")?;
        check!(back == filter, "round-trip", "{text} was read as {back:?}");
        let (mut selected, mut total) = (0, 0);
        for course in &case.courses {
            let mut whole: Option<bool> = None;
            let mut every = true;
            for lesson in &case.lessons {
                let (c, l) = manifests(course, lesson)?;
                let want = case.expr.holds(course, lesson);
                let got = filter.apply_to_lesson(&c, &l);
                check!(
                    got == want,
                    "wrong-selection",
                    "the filter {text} says {got} for a lesson with metadata {lesson:?} in a course with metadata {course:?}"
                );
                total += 1;
                selected += usize::from(got);
                every &= want;
                whole = Some(filter.apply_to_course(&c));
            }
            let Some(whole) = whole else { continue };
            // A course that is selected as a whole has no lesson that is not.
            check!(
                !whole || every,
                "wrong-course",
                "the filter {text} selects the course with metadata {course:?} but not all of its lessons {:?}",
                case.lessons
            );
            stats.hit_if(whole, "courses_selected");
            // Filters on the course alone decide about the course.
            let plain = match &case.expr {
                Expr::All(list) | Expr::Any(list) => {
                    list.iter().all(|e| matches!(e, Expr::Course(..)))
                }
                e => matches!(e, Expr::Course(..)),
            };
            if plain {
                let want = case.expr.holds(course, &None);
                check!(
                    whole == want,
                    "wrong-course",
                    "the filter {text} says {whole} for a course with metadata {course:?}"
                );
                stats.hit("filters_on_courses_only");
            }
            if matches!(case.expr, Expr::Lesson(..)) {
                check!(
                    !whole,
                    "wrong-course",
                    "the filter {text}, which is about lessons, selects a whole course"
                );
            }
        }
        stats.hit_if(case.expr.on_lessons(), "filters_on_lessons");
        if selected > 0 && selected < total && case.expr.size() >= 3 {
            stats.mark_nontrivial();
        }
        // Filters by ID select exactly the units they name.
        let ids: Vec<ustr::Ustr> = KEYS.iter().take(case.courses.len()).map(|k| u(k)).collect();
        for id in KEYS.iter().map(|k| u(k)) {
            let named = ids.contains(&id);
            let by_course = UnitFilter::CourseFilter {
                course_ids: ids.clone(),
            };
            let by_lesson = UnitFilter::LessonFilter {
                lesson_ids: ids.clone(),
            };
            check!(
                by_course.passes_course_filter(&id) == named
                    && by_lesson.passes_lesson_filter(&id) == named
                    && !by_course.passes_lesson_filter(&id)
                    && !by_lesson.passes_course_filter(&id),
                "wrong-unit",
                "filters on the units {ids:?} are wrong about {id}"
            );
        }
        Ok(())
    }
}

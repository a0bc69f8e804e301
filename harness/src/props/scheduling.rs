//! What the batches contain: gating by dependencies, the blacklist, reachability, filters, shape
//! and superseding.

use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;
use trane::{
    data::{
        ExerciseManifest,
        filter::{ExerciseFilter, FilterOp, FilterType, KeyValueFilter, UnitFilter},
    },
    scheduler::ExerciseScheduler,
};

use crate::{
    check,
    engine::{Prop, Res, Stats, violation},
    library::{Course, Index, Kind, Lesson, Lib, LibParams},
    session::{
        BatchEvent, SessionCase, SessionParams, State, Step, answer, kv_filter, run_session,
        run_session_in, session_strategy,
    },
    world::{DAY, Model, Tri, World},
};

/// The units named by a filter that are allowed regardless of their dependencies.
pub struct Exempt {
    pub lessons: BTreeSet<String>,
    pub courses: BTreeSet<String>,
}

/// The dependencies of a unit at a depth; paths that end earlier contribute their last unit.
pub fn dependencies_at_depth(idx: &Index, unit: &str, depth: usize) -> BTreeSet<String> {
    let mut level: BTreeSet<String> = [unit.to_string()].into();
    let mut out = BTreeSet::new();
    for _ in 0..depth {
        let mut next = BTreeSet::new();
        for id in &level {
            let deps = idx.deps(id);
            if deps.is_empty() {
                out.insert(id.clone());
            } else {
                next.extend(deps.iter().cloned());
            }
        }
        level = next;
    }
    out.extend(level);
    out.retain(|id| idx.kind(id).is_some());
    out
}

fn exempt(idx: &Index, filter: &Option<UnitFilter>) -> Option<Exempt> {
    let mut e = Exempt {
        lessons: BTreeSet::new(),
        courses: BTreeSet::new(),
    };
    let add = |e: &mut Exempt, id: &str| match idx.kind(id) {
        Some(Kind::Course) => {
            e.courses.insert(id.to_string());
        }
        Some(Kind::Lesson) => {
            e.lessons.insert(id.to_string());
        }
        _ => {}
    };
    match filter {
        None => {}
        Some(UnitFilter::CourseFilter { course_ids }) => {
            for c in course_ids {
                let Some(course) = idx.courses.get(c.as_str()) else {
                    continue;
                };
                e.courses.insert(course.id.clone());
                for l in &course.lessons {
                    if starting_lesson(idx, course, l) {
                        e.lessons.insert(l.id.clone());
                    }
                }
            }
        }
        Some(UnitFilter::Dependents { unit_ids }) => {
            for id in unit_ids {
                add(&mut e, id.as_str());
            }
        }
        Some(UnitFilter::Dependencies { unit_ids, depth }) => {
            for id in unit_ids {
                for d in dependencies_at_depth(idx, id.as_str(), *depth) {
                    add(&mut e, &d);
                }
            }
        }
        _ => return None,
    }
    Some(e)
}

/// A lesson without dependencies on other lessons of its course.
pub fn starting_lesson(_idx: &Index, course: &Course, lesson: &Lesson) -> bool {
    !lesson
        .deps
        .iter()
        .any(|d| course.lessons.iter().any(|l| l.id == *d))
}

/// Checks that nothing in the batch is ahead of its dependencies.
fn check_gating(ev: &BatchEvent, stats: &mut Stats) -> Res {
    let Some(exempt) = exempt(ev.idx, ev.filter) else {
        return Ok(());
    };
    let model = Model::new(&ev.world.trane, ev.idx, &ev.state.blacklist)?;
    let mut gated = 0;
    for e in ev.batch {
        if ev.state.pile.0.contains(e.id.as_str()) {
            continue;
        }
        let Some((course, lesson, _)) = ev.idx.exercises.get(e.id.as_str()) else {
            continue;
        };
        if exempt.lessons.contains(&lesson.id) {
            continue;
        }
        let mut held_by: Vec<&str> = lesson.deps.iter().map(String::as_str).collect();
        let external = lesson.deps.iter().any(|d| ev.idx.kind(d).is_some());
        if !external && !exempt.courses.contains(&course.id) {
            held_by.extend(course.deps.iter().map(String::as_str));
        }
        for d in held_by {
            match model.satisfied(d) {
                Some(false) => {
                    return Err(violation(
                        "gating",
                        format!(
                            "{} offered with filter {:?} although {d} is not passed: score {:?}, average trials {:?}",
                            e.id,
                            ev.filter,
                            model.unit_score(d),
                            model.avg_trials(d)
                        ),
                    ));
                }
                Some(true) => {
                    if ev.idx.kind(d).is_some() {
                        gated += 1;
                    }
                }
                None => stats.hit("too_close_to_call"),
            }
        }
    }
    let held = ev
        .idx
        .lib
        .lessons()
        .filter(|(c, l)| {
            l.deps
                .iter()
                .chain(c.deps.iter())
                .any(|d| model.satisfied(d) == Some(false))
        })
        .count();
    stats.add("exercises_past_a_dependency", gated);
    stats.hit_if(held > 0, "batches_with_lessons_held_back");
    stats.hit("batches");
    if gated > 0 && held > 0 {
        stats.mark_nontrivial();
    }
    Ok(())
}

pub struct C01;
impl Prop for C01 {
    type Case = SessionCase;
    fn id(&self) -> &'static str {
        "C01"
    }
    fn rule(&self) -> &'static str {
        "at least one batch offered an exercise past a dependency that the model calls passed, while some other lesson was held back by one that is not"
    }
    fn quick_cases(&self) -> usize {
        1200
    }
    fn strategy(&self, thorough: bool) -> BoxedStrategy<SessionCase> {
        session_strategy(SessionParams {
            lib: LibParams {
                courses: if thorough { 7 } else { 5 },
                superseding: true,
                ..LibParams::default()
            },
            steps: if thorough { 16 } else { 8 },
            blacklist: true,
            review: false,
            filters: true,
            metadata_filters: false,
            scores: true,
            batch_sizes: true,
        })
    }
    fn check(&self, case: &SessionCase, stats: &mut Stats) -> Res {
        run_session(case, |ev| check_gating(ev, stats)).map(|_| ())
    }
}

/// The lessons that a search of the whole library reaches, by the documented rules of the search.
pub fn reference_search(model: &Model) -> Tri<BTreeSet<String>> {
    reference_filtered_search(model, None)
}

/// The lessons that a search of the whole library with a metadata filter reaches, those that do
/// not match included.
pub fn reference_filtered_search(
    model: &Model,
    filter: Option<&KeyValueFilter>,
) -> Tri<BTreeSet<String>> {
    let idx = model.idx;
    let mut search = Search {
        model,
        filter,
        pending: idx
            .lib
            .courses
            .iter()
            .map(|c| (c.id.as_str(), c.lessons.len()))
            .collect(),
        visited: BTreeSet::new(),
        completed: BTreeSet::new(),
        allowed: None,
        stack: vec![],
    };
    for c in &idx.lib.courses {
        // A course whose first lessons all depend on other units is reached from those.
        let free = c.lessons.is_empty()
            || !c.deps.is_empty()
            || c.lessons.iter().any(|l| {
                starting_lesson(idx, c, l)
                    && (l.deps.is_empty() || l.deps.iter().any(|d| idx.kind(d).is_none()))
            });
        if free && c.deps.iter().all(|d| idx.kind(d).is_none()) {
            let starting = search.starting(c)?;
            if starting.is_empty() {
                search.stack.push(c.id.as_str());
            } else {
                search.stack.extend(starting);
            }
        }
    }
    search.run()?;
    Some(search.visited.iter().map(|s| (*s).to_string()).collect())
}

/// The lessons that a search that starts at the given units reaches.
pub fn reference_unit_search(
    model: &Model,
    units: impl IntoIterator<Item = String>,
) -> Tri<BTreeSet<String>> {
    let idx = model.idx;
    let mut search = Search {
        model,
        filter: None,
        pending: idx
            .lib
            .courses
            .iter()
            .map(|c| (c.id.as_str(), c.lessons.len()))
            .collect(),
        visited: BTreeSet::new(),
        completed: BTreeSet::new(),
        allowed: None,
        stack: vec![],
    };
    for unit in units {
        if let Some(c) = idx.courses.get(unit.as_str()) {
            search.stack.push(&c.id);
        } else if let Some((_, l)) = idx.lessons.get(unit.as_str()) {
            search.stack.push(&l.id);
        }
    }
    search.run()?;
    Some(search.visited.iter().map(|s| (*s).to_string()).collect())
}

/// The lessons that a search of the given courses reaches.
pub fn reference_course_search(model: &Model, courses: &[String]) -> Tri<BTreeSet<String>> {
    let idx = model.idx;
    let mut search = Search {
        model,
        filter: None,
        pending: Default::default(),
        visited: BTreeSet::new(),
        completed: BTreeSet::new(),
        allowed: Some(courses.iter().cloned().collect()),
        stack: vec![],
    };
    for id in courses {
        let c = idx.courses.get(id.as_str())?;
        search.stack.extend(
            c.lessons
                .iter()
                .filter(|l| starting_lesson(idx, c, l))
                .map(|l| l.id.as_str()),
        );
    }
    search.run()?;
    Some(search.visited.iter().map(|s| (*s).to_string()).collect())
}

struct Search<'a, 'b> {
    model: &'b Model<'a>,
    filter: Option<&'b KeyValueFilter>,
    pending: std::collections::BTreeMap<&'a str, usize>,
    visited: BTreeSet<&'a str>,
    completed: BTreeSet<&'a str>,
    allowed: Option<BTreeSet<String>>,
    stack: Vec<&'a str>,
}

impl<'a> Search<'a, '_> {
    fn all_satisfied(&self, unit: &str) -> Tri<bool> {
        let mut all = true;
        for d in self.model.idx.deps(unit) {
            all &= match self.filter {
                None => self.model.satisfied(d)?,
                Some(filter) => effectively_satisfied(self.model, d, filter)?,
            };
        }
        Some(all)
    }

    fn starting(&self, course: &'a Course) -> Tri<Vec<&'a str>> {
        let mut out = vec![];
        for l in &course.lessons {
            if starting_lesson(self.model.idx, course, l) && self.all_satisfied(&l.id)? {
                out.push(l.id.as_str());
            }
        }
        Some(out)
    }

    fn push_dependents(&mut self, unit: &str) -> Tri<()> {
        let lib = self.model.idx.lib;
        for c in &lib.courses {
            if c.deps.iter().any(|d| d == unit) && self.all_satisfied(&c.id)? {
                self.stack.push(&c.id);
            }
            for l in &c.lessons {
                if l.deps.iter().any(|d| d == unit) && self.all_satisfied(&l.id)? {
                    self.stack.push(&l.id);
                }
            }
        }
        Some(())
    }

    fn run(&mut self) -> Tri<()> {
        let idx = self.model.idx;
        while let Some(unit) = self.stack.pop() {
            if let Some(course) = idx.courses.get(unit) {
                if self.allowed.is_some() || self.completed.contains(unit) {
                    continue;
                }
                let starting = self.starting(course)?;
                self.stack
                    .extend(starting.iter().filter(|l| !self.visited.contains(*l)));
                if self.model.blacklisted(unit)
                    || self.filter.is_some_and(|f| !course_matches(f, course))
                    || self.pending[unit] == 0
                    || self.model.superseded(unit)?
                {
                    self.completed.insert(&course.id);
                    self.push_dependents(unit)?;
                }
                continue;
            }
            let (course, lesson) = idx.lessons[unit];
            if self.visited.contains(unit) {
                continue;
            }
            if let Some(allowed) = &self.allowed {
                if !allowed.contains(&course.id) {
                    continue;
                }
                self.visited.insert(&lesson.id);
            } else {
                self.visited.insert(&lesson.id);
                let pending = self.pending.get_mut(course.id.as_str())?;
                *pending = pending.saturating_sub(1);
                if *pending == 0 {
                    self.stack.push(&course.id);
                }
            }
            let skip = self.model.blacklisted(unit)
                || self
                    .filter
                    .is_some_and(|f| !lesson_matches(f, course, lesson))
                || self.model.superseded(unit)?
                || self.model.superseded(&course.id)?;
            if skip || self.passes(unit)? {
                self.push_dependents(unit)?;
            }
        }
        Some(())
    }

    /// Whether the search continues past the lesson.
    fn passes(&self, lesson: &str) -> Tri<bool> {
        let m = self.model;
        if m.valid_exercises(lesson).is_empty() {
            return Some(true);
        }
        m.satisfied(lesson)
    }
}

/// Whether the metadata filter selects the course as a whole.
fn course_matches(filter: &KeyValueFilter, course: &Course) -> bool {
    match filter {
        KeyValueFilter::CourseFilter { .. } => lesson_matches(filter, course, &Lesson::default()),
        KeyValueFilter::LessonFilter { .. } => false,
        KeyValueFilter::CombinedFilter { op, filters } => {
            let plain = |f: &KeyValueFilter| matches!(f, KeyValueFilter::CourseFilter { .. });
            match op {
                FilterOp::All => filters.iter().all(|f| course_matches(f, course)),
                FilterOp::Any => {
                    filters.iter().all(plain) && filters.iter().any(|f| course_matches(f, course))
                }
            }
        }
    }
}

/// The units that stand in for the dependency among those the filter selects.
fn effective(idx: &Index, dep: &str, filter: &KeyValueFilter) -> BTreeSet<String> {
    let through = |deps: Vec<&String>| -> BTreeSet<String> {
        deps.into_iter()
            .flat_map(|d| effective(idx, d, filter))
            .collect()
    };
    if let Some((course, lesson)) = idx.lessons.get(dep) {
        if lesson_matches(filter, course, lesson) {
            return [dep.to_string()].into();
        }
        let mut next: Vec<&String> = lesson.deps.iter().collect();
        if starting_lesson(idx, course, lesson) {
            next.extend(&course.deps);
        }
        return through(next);
    }
    if let Some(course) = idx.courses.get(dep) {
        if course_matches(filter, course) {
            return [dep.to_string()].into();
        }
        let matching: Vec<&Lesson> = course
            .lessons
            .iter()
            .filter(|l| lesson_matches(filter, course, l))
            .collect();
        if matching.is_empty() {
            return through(course.deps.iter().collect());
        }
        return matching
            .iter()
            .filter(|l| !matching.iter().any(|m| m.deps.contains(&l.id)))
            .map(|l| l.id.clone())
            .collect();
    }
    BTreeSet::new()
}

fn effectively_satisfied(model: &Model, dep: &str, filter: &KeyValueFilter) -> Tri<bool> {
    let mut all = true;
    for d in effective(model.idx, dep, filter) {
        all &= model.satisfied(&d)?;
    }
    Some(all)
}

/// The exercises that the search offers from the lessons it reached.
fn offered(model: &Model, lessons: &BTreeSet<String>) -> Tri<BTreeSet<String>> {
    let mut out = BTreeSet::new();
    for l in lessons {
        let course = &model.idx.lessons[l.as_str()].0.id;
        if model.superseded(l)? || model.superseded(course)? {
            continue;
        }
        out.extend(model.valid_exercises(l).into_iter().map(str::to_string));
    }
    Some(out)
}

/// With this few exercises available, a batch has room for all of them.
const FITS: usize = 4;

/// With few exercises available, the batch contains all of those the search reaches.
fn check_exact(ev: &BatchEvent, stats: &mut Stats) -> Res {
    let model = Model::new(&ev.world.trane, ev.idx, &ev.state.blacklist)?;
    let lessons = match ev.filter {
        None => reference_search(&model),
        Some(UnitFilter::CourseFilter { course_ids }) => {
            let ids: Vec<String> = course_ids.iter().map(|c| c.to_string()).collect();
            reference_course_search(&model, &ids)
        }
        Some(UnitFilter::MetadataFilter { filter }) => {
            reference_filtered_search(&model, Some(filter)).map(|mut lessons| {
                lessons.retain(|l| {
                    let (c, l) = ev.idx.lessons[l.as_str()];
                    lesson_matches(filter, c, l)
                });
                lessons
            })
        }
        _ => return Ok(()),
    };
    let Some(lessons) = lessons else {
        stats.hit("too_close_to_call");
        return Ok(());
    };
    let Some(offered) = offered(&model, &lessons) else {
        stats.hit("too_close_to_call");
        return Ok(());
    };
    let batch: BTreeSet<String> = ev.batch.iter().map(|e| e.id.to_string()).collect();
    check!(
        offered.is_empty() || !batch.is_empty(),
        "empty-batch",
        "an empty batch for {:?} although these exercises are available: {offered:?}",
        ev.filter
    );
    // What might compete for a place in the batch: everything not held back for certain.
    let upper = ev
        .idx
        .lib
        .lessons()
        .filter(|(c, l)| match ev.filter {
            Some(UnitFilter::MetadataFilter { filter }) => lesson_matches(filter, c, l),
            _ => !l.deps.iter().any(|d| model.satisfied(d) == Some(false)),
        })
        .map(|(_, l)| model.valid_exercises(&l.id).len())
        .sum::<usize>();
    if upper > FITS {
        stats.hit("batches_checked_for_being_empty");
        return Ok(());
    }
    stats.hit("batches_checked_for_inclusion");
    for l in &lessons {
        let inside: Vec<&str> = model
            .valid_exercises(l)
            .into_iter()
            .filter(|e| offered.contains(*e))
            .collect();
        if inside.is_empty() {
            continue;
        }
        let avg = inside.iter().map(|e| model.scores[*e]).sum::<f32>() / inside.len() as f32;
        // Mastered exercises are left out when enough of the others cover them.
        let (mastered, inside): (Vec<&str>, Vec<&str>) =
            inside.iter().partition(|e| model.scores[**e] >= 4.49);
        let there = inside.iter().filter(|e| batch.contains(**e)).count();
        let sampled = (2.99..4.01).contains(&avg);
        check!(
            there == inside.len() || (sampled && (there > 0 || !mastered.is_empty())),
            "available-not-offered",
            "only {there} of the exercises {inside:?} of lesson {l} (average {avg}) are in the batch {batch:?}, although only {} exercises are available",
            offered.len()
        );
    }
    Ok(())
}

/// Answers unfiltered batches with top scores until every exercise that is not excluded was
/// offered. Returns the exercises never offered.
pub fn drive(
    world: &mut World,
    idx: &Index,
    state: &mut State,
    on_batch: impl FnMut(&World, &State, &[ExerciseManifest]) -> Res,
) -> Res<(BTreeSet<String>, usize)> {
    drive_filtered(world, idx, state, None, on_batch)
}

/// The same with batches restricted by a metadata filter.
pub fn drive_filtered(
    world: &mut World,
    idx: &Index,
    state: &mut State,
    filter: Option<&KeyValueFilter>,
    mut on_batch: impl FnMut(&World, &State, &[ExerciseManifest]) -> Res,
) -> Res<(BTreeSet<String>, usize)> {
    let wanted: BTreeSet<String> = {
        let blacklist = &state.blacklist;
        idx.lib
            .exercises()
            .filter(|(c, l, e)| {
                !blacklist.contains(&c.id)
                    && !blacklist.contains(&l.id)
                    && !blacklist.contains(&e.id)
                    && filter.is_none_or(|f| lesson_matches(f, c, l))
            })
            .map(|(_, _, e)| e.id.clone())
            .collect()
    };
    let unit_filter = filter.map(|f| UnitFilter::MetadataFilter { filter: f.clone() });
    let mut missing = wanted;
    let bound = 40 + 10 * missing.len();
    let mut idle = 0;
    for i in 0..bound {
        if missing.is_empty() {
            return Ok((missing, i));
        }
        let batch = world.batch(unit_filter.clone().map(ExerciseFilter::UnitFilter))?;
        on_batch(world, state, &batch)?;
        let before = missing.len();
        for e in &batch {
            missing.remove(e.id.as_str());
            answer(world, state, e.id.as_str(), 5)?;
        }
        // A long stretch without anything new is conclusive.
        idle = if missing.len() == before { idle + 1 } else { 0 };
        if idle > 80 {
            break;
        }
        // What is superseded is not offered.
        if idle % 10 == 5 {
            let model = Model::new(&world.trane, idx, &state.blacklist)?;
            if missing.iter().all(|e| {
                let (c, l, _) = idx.exercises[e.as_str()];
                model.superseded(&c.id) == Some(true) || model.superseded(&l.id) == Some(true)
            }) {
                break;
            }
        }
        // Mastered exercises covered by many others are only offered again after a while, even if
        // they were not tried often enough to continue past them.
        if idle % 10 == 9 {
            world.advance(6 * DAY);
        }
    }
    // Mastered exercises are left out when enough of the others cover them.
    let model = Model::new(&world.trane, idx, &state.blacklist)?;
    missing.retain(|e| model.scores[e] < 4.4);
    Ok((missing, bound))
}

pub struct C03;
impl Prop for C03 {
    type Case = SessionCase;
    fn id(&self) -> &'static str {
        "C03"
    }
    fn rule(&self) -> &'static str {
        "the library has at least two lessons related by dependencies and at least one exercise was not available at first but was offered later"
    }
    fn quick_cases(&self) -> usize {
        700
    }
    fn strategy(&self, thorough: bool) -> BoxedStrategy<SessionCase> {
        let params = |courses, lessons, exercises| SessionParams {
            lib: LibParams {
                courses,
                lessons,
                exercises,
                ..LibParams::default()
            },
            steps: 5,
            blacklist: true,
            review: false,
            filters: true,
            metadata_filters: false,
            scores: true,
            batch_sizes: false,
        };
        prop_oneof![
            2 => session_strategy(params(if thorough { 8 } else { 5 }, 4, 3)),
            3 => session_strategy(params(4, 3, 1)),
        ]
        .boxed()
    }
    fn check(&self, case: &SessionCase, stats: &mut Stats) -> Res {
        let idx = Index::new(&case.lib);
        let (mut world, mut state) =
            run_session_in(case, &mut |ev: &BatchEvent| check_exact(ev, stats))?;
        let mut first: Option<BTreeSet<String>> = None;
        let mut later = false;
        let (missing, rounds) = drive(&mut world, &idx, &mut state, |world, state, batch| {
            let ids: BTreeSet<String> = batch.iter().map(|e| e.id.to_string()).collect();
            match &first {
                None => first = Some(ids),
                Some(f) => later |= ids.iter().any(|e| !f.contains(e)),
            }
            if case.lib.num_exercises() <= 12 {
                check_exact(
                    &BatchEvent {
                        world,
                        idx: &idx,
                        state,
                        filter: &None,
                        batch,
                    },
                    stats,
                )?;
            }
            Ok(())
        })?;
        check!(
            missing.is_empty(),
            "never-offered",
            "after {rounds} batches answered with top scores, these exercises were never offered: {missing:?} (blacklist {:?})",
            state.blacklist
        );
        stats.add("batches_until_everything_was_offered", rounds as u64);
        if later && case.lib.lessons().count() >= 2 {
            stats.mark_nontrivial();
        }
        Ok(())
    }
}

pub struct C02;
impl Prop for C02 {
    type Case = SessionCase;
    fn id(&self) -> &'static str {
        "C02"
    }
    fn rule(&self) -> &'static str {
        "at least one batch with exercises was requested while the blacklist excluded some exercise of the library"
    }
    fn quick_cases(&self) -> usize {
        1000
    }
    fn strategy(&self, thorough: bool) -> BoxedStrategy<SessionCase> {
        session_strategy(SessionParams {
            lib: LibParams {
                courses: if thorough { 6 } else { 4 },
                lessons: 3,
                exercises: 3,
                metadata: true,
                min_exercises: 1,
                ..LibParams::default()
            },
            steps: if thorough { 24 } else { 14 },
            blacklist: true,
            review: true,
            filters: true,
            metadata_filters: true,
            scores: true,
            batch_sizes: true,
        })
    }
    fn check(&self, case: &SessionCase, stats: &mut Stats) -> Res {
        let mut on_batch = |ev: &BatchEvent| {
            let mut excluded = 0;
            let is_excluded = |id: &str| -> bool {
                let b = &ev.state.blacklist;
                ev.idx.exercises.get(id).is_some_and(|(c, l, e)| {
                    b.contains(&c.id) || b.contains(&l.id) || b.contains(&e.id)
                })
            };
            for e in ev.idx.exercises.keys() {
                excluded += u64::from(is_excluded(e));
            }
            for e in ev.batch {
                check!(
                    !is_excluded(e.id.as_str()),
                    "blacklisted-offered",
                    "{} offered with filter {:?} although the blacklist is {:?}",
                    e.id,
                    ev.filter,
                    ev.state.blacklist
                );
            }
            stats.hit("batches");
            if excluded > 0 && !ev.batch.is_empty() {
                stats.hit("batches_with_exclusions");
                if let Some(f) = ev.filter {
                    stats.hit(&format!(
                        "batches_with_exclusions_{}",
                        format!("{f:?}").split([' ', '{']).next().unwrap_or("")
                    ));
                }
                stats.mark_nontrivial();
            }
            Ok(())
        };
        let (mut world, mut state) = run_session_in(case, &mut on_batch)?;
        // The blacklisted units do not keep the rest of the library from being offered.
        if !state.blacklist.is_empty() && case.lib.num_exercises() <= 14 {
            let idx = Index::new(&case.lib);
            let (missing, rounds) = drive(&mut world, &idx, &mut state, |world, state, batch| {
                on_batch(&BatchEvent {
                    world,
                    idx: &idx,
                    state,
                    filter: &None,
                    batch,
                })
            })?;
            check!(
                missing.is_empty(),
                "blocked-by-blacklist",
                "after {rounds} batches answered with top scores, these exercises were never offered: {missing:?} (blacklist {:?})",
                state.blacklist
            );
            stats.hit("sessions_driven_to_the_end");
        }
        Ok(())
    }
}

/// The metadata filter, evaluated independently.
pub fn lesson_matches(filter: &KeyValueFilter, course: &Course, lesson: &Lesson) -> bool {
    let has = |m: &Option<crate::library::Metadata>, key: &str, value: &str| {
        m.as_ref()
            .and_then(|m| m.get(key))
            .is_some_and(|v| v.iter().any(|x| x == value))
    };
    match filter {
        KeyValueFilter::CourseFilter {
            key,
            value,
            filter_type,
        } => has(&course.metadata, key, value) == (*filter_type == FilterType::Include),
        KeyValueFilter::LessonFilter {
            key,
            value,
            filter_type,
        } => has(&lesson.metadata, key, value) == (*filter_type == FilterType::Include),
        KeyValueFilter::CombinedFilter { op, filters } => match op {
            FilterOp::All => filters.iter().all(|f| lesson_matches(f, course, lesson)),
            FilterOp::Any => filters.iter().any(|f| lesson_matches(f, course, lesson)),
        },
    }
}

/// The lessons in the subgraph of the units that depend on the given ones.
fn dependents_closure(idx: &Index, roots: &[String]) -> BTreeSet<String> {
    let mut seen: BTreeSet<String> = BTreeSet::new();
    let mut stack: Vec<String> = roots.to_vec();
    while let Some(id) = stack.pop() {
        if idx.kind(&id).is_none() || !seen.insert(id.clone()) {
            continue;
        }
        for c in &idx.lib.courses {
            if c.deps.contains(&id) {
                stack.push(c.id.clone());
            }
            if c.id == id {
                stack.extend(c.lessons.iter().map(|l| l.id.clone()));
            }
            for l in &c.lessons {
                if l.deps.contains(&id) {
                    stack.push(l.id.clone());
                }
            }
            // A course ends with its last lesson.
            if !c.lessons.is_empty() && c.lessons.iter().all(|l| seen.contains(&l.id)) {
                stack.push(c.id.clone());
            }
        }
    }
    seen.retain(|id| idx.kind(id) == Some(Kind::Lesson));
    seen
}

/// The exercises a batch with the filter may contain.
fn allowed_by_filter(ev: &BatchEvent, filter: &UnitFilter) -> BTreeSet<String> {
    let idx = ev.idx;
    let mut out = BTreeSet::new();
    match filter {
        UnitFilter::CourseFilter { course_ids } => {
            for c in course_ids {
                out.extend(idx.exercises_in(c.as_str()).iter().map(|s| s.to_string()));
            }
        }
        UnitFilter::LessonFilter { lesson_ids } => {
            for l in lesson_ids {
                out.extend(idx.exercises_in(l.as_str()).iter().map(|s| s.to_string()));
            }
        }
        UnitFilter::MetadataFilter { filter } => {
            for (c, l) in idx.lib.lessons() {
                if lesson_matches(filter, c, l) {
                    out.extend(l.exercises.iter().map(|e| e.id.clone()));
                }
            }
        }
        UnitFilter::ReviewListFilter => {
            for id in &ev.state.review {
                out.extend(idx.exercises_in(id).iter().map(|s| s.to_string()));
            }
        }
        UnitFilter::Dependents { unit_ids } => {
            let roots: Vec<String> = unit_ids.iter().map(|u| u.to_string()).collect();
            for l in dependents_closure(idx, &roots) {
                out.extend(idx.exercises_in(&l).iter().map(|s| s.to_string()));
            }
        }
        UnitFilter::Dependencies { unit_ids, depth } => {
            let roots: Vec<String> = unit_ids
                .iter()
                .flat_map(|u| dependencies_at_depth(idx, u.as_str(), *depth))
                .collect();
            for l in dependents_closure(idx, &roots) {
                out.extend(idx.exercises_in(&l).iter().map(|s| s.to_string()));
            }
        }
    }
    out
}

/// The exercises that a batch with the filter must be able to choose from: with at least one of
/// them, the batch is not empty.
fn guaranteed_by_filter(ev: &BatchEvent, filter: &UnitFilter, model: &Model) -> BTreeSet<String> {
    let idx = ev.idx;
    let valid = |id: &str| -> Vec<String> {
        model
            .valid_exercises(id)
            .into_iter()
            .map(str::to_string)
            .collect()
    };
    let course = |id: &str| -> Vec<String> {
        let Some(c) = idx.courses.get(id) else {
            return vec![];
        };
        if model.superseded(id) != Some(false) {
            return vec![];
        }
        c.lessons
            .iter()
            .filter(|l| starting_lesson(idx, c, l) && model.superseded(&l.id) == Some(false))
            .flat_map(|l| valid(&l.id))
            .collect()
    };
    let free = |l: &Lesson| idx.deps(&l.id).is_empty();
    let unsuperseded = |l: &Lesson| -> Vec<String> {
        let course = idx.lessons[l.id.as_str()].0;
        if model.superseded(&course.id) == Some(false) && model.superseded(&l.id) == Some(false) {
            valid(&l.id)
        } else {
            vec![]
        }
    };
    // What a search that starts at the unit finds at once.
    let start = |id: &str| -> Vec<String> {
        match idx.kind(id) {
            Some(Kind::Lesson) => unsuperseded(idx.lessons[id].1),
            Some(Kind::Course) => idx.courses[id]
                .lessons
                .iter()
                .filter(|l| free(l) && idx.deps(id).is_empty())
                .flat_map(|l| unsuperseded(l))
                .collect(),
            _ => vec![],
        }
    };
    let mut out = BTreeSet::new();
    match filter {
        UnitFilter::CourseFilter { course_ids } => {
            for c in course_ids {
                out.extend(course(c.as_str()));
            }
        }
        UnitFilter::LessonFilter { lesson_ids } => {
            for l in lesson_ids {
                out.extend(valid(l.as_str()));
            }
        }
        UnitFilter::ReviewListFilter => {
            for id in &ev.state.review {
                match idx.kind(id) {
                    Some(Kind::Course) => out.extend(course(id)),
                    Some(Kind::Lesson) => out.extend(valid(id)),
                    Some(Kind::Exercise) => {
                        if !model.exercise_blacklisted(id) {
                            out.insert(id.clone());
                        }
                    }
                    None => {}
                }
            }
        }
        UnitFilter::MetadataFilter { filter } => {
            for (c, l) in idx.lib.lessons() {
                if free(l) && idx.deps(&c.id).is_empty() && lesson_matches(filter, c, l) {
                    out.extend(unsuperseded(l));
                }
            }
        }
        UnitFilter::Dependents { unit_ids } => {
            for id in unit_ids {
                out.extend(start(id.as_str()));
            }
        }
        UnitFilter::Dependencies { unit_ids, depth } => {
            for id in unit_ids {
                for dependency in dependencies_at_depth(idx, id.as_str(), *depth) {
                    out.extend(start(&dependency));
                }
            }
        }
    }
    out
}

fn filter_name(filter: &UnitFilter) -> String {
    format!("{filter:?}")
        .split([' ', '{'])
        .next()
        .unwrap_or("")
        .to_string()
}

pub struct C04;
impl Prop for C04 {
    type Case = SessionCase;
    fn id(&self) -> &'static str {
        "C04"
    }
    fn rule(&self) -> &'static str {
        "at least one batch with exercises was requested with a filter that excludes some exercise of the library"
    }
    fn quick_cases(&self) -> usize {
        1500
    }
    fn strategy(&self, thorough: bool) -> BoxedStrategy<SessionCase> {
        session_strategy(SessionParams {
            lib: LibParams {
                courses: if thorough { 7 } else { 5 },
                lessons: 4,
                exercises: 3,
                metadata: true,
                superseding: true,
                ..LibParams::default()
            },
            steps: if thorough { 20 } else { 10 },
            blacklist: true,
            review: true,
            filters: true,
            metadata_filters: true,
            scores: true,
            batch_sizes: true,
        })
    }
    fn check(&self, case: &SessionCase, stats: &mut Stats) -> Res {
        run_session(case, |ev| {
            let Some(filter) = ev.filter else {
                return Ok(());
            };
            let allowed = allowed_by_filter(ev, filter);
            for e in ev.batch {
                check!(
                    allowed.contains(e.id.as_str()) || ev.state.pile.0.contains(e.id.as_str()),
                    "outside-filter",
                    "{} offered, which is outside of the filter {filter:?} (review list {:?})",
                    e.id,
                    ev.state.review
                );
            }
            let name = filter_name(filter);
            if !ev.batch.is_empty() {
                stats.hit(&format!("non_empty_{name}"));
                if allowed.len() < ev.idx.exercises.len() {
                    stats.mark_nontrivial();
                }
            }
            let model = Model::new(&ev.world.trane, ev.idx, &ev.state.blacklist)?;
            let guaranteed = guaranteed_by_filter(ev, filter, &model);
            check!(
                guaranteed.is_empty() || !ev.batch.is_empty(),
                "empty-batch",
                "an empty batch with the filter {filter:?} although it selects {guaranteed:?}",
            );
            // Batches are not filled past three quarters of their size.
            let room = ev.world.trane.get_scheduler_options().batch_size * 3 / 4 >= FITS;
            if room
                && !guaranteed.is_empty()
                && guaranteed.len() <= 2
                && allowed.len() <= FITS
            {
                stats.hit("small_filters");
                // Nothing competes for the place in the batch.
                for id in &guaranteed {
                    let lesson = ev.idx.exercises[id.as_str()].1;
                    // Mastered exercises are left out when enough of the others cover them.
                    if lesson.exercises.len() > 1 || model.scores[id.as_str()] >= 4.49 {
                        continue;
                    }
                    check!(
                        ev.batch.iter().any(|e| e.id == id.as_str()),
                        "selected-not-offered",
                        "{id} is not in the batch {:?} for the filter {filter:?}, which selects only {allowed:?}",
                        ev.batch.iter().map(|e| e.id).collect::<Vec<_>>()
                    );
                }
            }
            Ok(())
        })
        .map(|_| ())
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ShapeCase {
    pub session: SessionCase,
    pub relearn_percent: u8,
    pub max_lessons: usize,
}

pub struct C05;
impl Prop for C05 {
    type Case = ShapeCase;
    fn id(&self) -> &'static str {
        "C05"
    }
    fn rule(&self) -> &'static str {
        "at least one batch held five exercises or more"
    }
    fn quick_cases(&self) -> usize {
        900
    }
    fn strategy(&self, thorough: bool) -> BoxedStrategy<ShapeCase> {
        let params = |courses, lessons, exercises| SessionParams {
            lib: LibParams {
                courses,
                lessons,
                exercises,
                metadata: true,
                ..LibParams::default()
            },
            steps: if thorough { 16 } else { 8 },
            blacklist: false,
            review: true,
            filters: true,
            metadata_filters: true,
            scores: true,
            batch_sizes: true,
        };
        (
            prop_oneof![
                3 => session_strategy(params(5, 4, 5)),
                1 => session_strategy(params(8, 6, 8))
            ],
            0u8..=100,
            prop_oneof![Just(10usize), 1usize..12],
        )
            .prop_map(|(session, relearn_percent, max_lessons)| ShapeCase {
                session,
                relearn_percent,
                max_lessons,
            })
            .boxed()
    }
    fn check(&self, case: &ShapeCase, stats: &mut Stats) -> Res {
        let manifests = expected_manifests(&case.session.lib);
        let mut case_with_options = case.session.clone();
        case_with_options.relearn_fraction = Some(f32::from(case.relearn_percent) / 100.0);
        case_with_options.max_lessons = Some(case.max_lessons);
        run_session(&case_with_options, |ev| {
            let mut seen = BTreeSet::new();
            for e in ev.batch {
                check!(
                    seen.insert(e.id.to_string()),
                    "duplicate",
                    "{} is twice in the batch for {:?} (review list {:?})",
                    e.id,
                    ev.filter,
                    ev.state.review
                );
                let expected = manifests.get(e.id.as_str());
                check!(
                    expected == Some(e),
                    "wrong-manifest",
                    "the batch holds {e:?}, the library {expected:?}"
                );
            }
            let options = ev.world.trane.get_scheduler_options();
            let from_pile = seen.iter().filter(|e| ev.state.pile.0.contains(*e)).count();
            let relearn =
                ((options.batch_size as f32 * options.relearn_fraction) as usize).min(from_pile);
            let bound = options.batch_size.max(5) + relearn;
            check!(
                ev.batch.len() <= bound,
                "too-many",
                "{} exercises in a batch, batch size {}, relearn fraction {}",
                ev.batch.len(),
                options.batch_size,
                options.relearn_fraction
            );
            stats.hit("batches");
            stats.hit_if(
                ev.batch.len() > options.batch_size,
                "batches_over_batch_size",
            );
            stats.hit_if(ev.batch.len() >= options.batch_size, "full_batches");
            if ev.batch.len() >= 5 {
                stats.mark_nontrivial();
            }
            if ev.filter.is_none() {
                let model = Model::new(&ev.world.trane, ev.idx, &ev.state.blacklist)?;
                let mut in_progress = BTreeSet::new();
                for e in ev.batch {
                    if ev.state.pile.0.contains(e.id.as_str()) {
                        continue;
                    }
                    let lesson = &ev.idx.exercises[e.id.as_str()].1.id;
                    if let Some(Some(score)) = model.unit_score(lesson)
                        && score <= options.target_window_opts.range.1 - 0.002
                    {
                        in_progress.insert(lesson.clone());
                    }
                }
                check!(
                    in_progress.len() <= options.max_lessons_in_progress,
                    "too-many-lessons",
                    "{} lessons in progress in a batch: {in_progress:?}, limit {}",
                    in_progress.len(),
                    options.max_lessons_in_progress
                );
                stats.hit_if(
                    in_progress.len() == options.max_lessons_in_progress,
                    "batches_at_the_lesson_limit",
                );
            }
            Ok(())
        })
        .map(|_| ())
    }
}

fn expected_manifests(lib: &Lib) -> std::collections::BTreeMap<String, ExerciseManifest> {
    lib.exercises()
        .map(|(c, l, e)| {
            let manifest: ExerciseManifest =
                serde_json::from_value(e.manifest(&l.id, &c.id)).expect("a manifest");
            (e.id.clone(), manifest)
        })
        .collect()
}

pub struct C06;
impl Prop for C06 {
    type Case = SessionCase;
    fn id(&self) -> &'static str {
        "C06"
    }
    fn rule(&self) -> &'static str {
        "at least one unit was superseded while some other unit with superseding units was not"
    }
    fn quick_cases(&self) -> usize {
        900
    }
    fn strategy(&self, thorough: bool) -> BoxedStrategy<SessionCase> {
        let params = |courses, lessons, exercises| SessionParams {
            lib: LibParams {
                courses,
                lessons,
                exercises,
                superseding: true,
                metadata: true,
                ..LibParams::default()
            },
            steps: if thorough { 14 } else { 7 },
            blacklist: true,
            review: false,
            filters: true,
            metadata_filters: true,
            scores: true,
            batch_sizes: false,
        };
        prop_oneof![
            2 => session_strategy(params(5, 3, 2)),
            2 => session_strategy(params(4, 3, 1)),
        ]
        .boxed()
    }
    fn check(&self, case: &SessionCase, stats: &mut Stats) -> Res {
        let idx = Index::new(&case.lib);
        let mut on_batch = |ev: &BatchEvent| -> Res {
            let model = Model::new(&ev.world.trane, ev.idx, &ev.state.blacklist)?;
            let (mut yes, mut no) = (0, 0);
            for id in ev.idx.superseded_by.keys() {
                match model.superseded(id) {
                    Some(true) => yes += 1,
                    Some(false) => no += 1,
                    None => {}
                }
            }
            stats.add("superseded_units", yes);
            stats.add("units_not_yet_superseded", no);
            if yes > 0 && no > 0 {
                stats.mark_nontrivial();
            }
            if !matches!(
                ev.filter,
                Some(UnitFilter::LessonFilter { .. } | UnitFilter::ReviewListFilter)
            ) {
                for e in ev.batch {
                    if ev.state.pile.0.contains(e.id.as_str()) {
                        continue;
                    }
                    let (c, l, _) = ev.idx.exercises[e.id.as_str()];
                    for unit in [&l.id, &c.id] {
                        check!(
                            model.superseded(unit) != Some(true),
                            "superseded-offered",
                            "{} offered with filter {:?} although {unit} is superseded by {:?}",
                            e.id,
                            ev.filter,
                            ev.idx.superseded_by.get(unit.as_str())
                        );
                    }
                }
            }
            check_exact(ev, stats)
        };
        let (mut world, mut state) = run_session_in(case, &mut on_batch)?;
        let (missing, rounds) = if case.lib.num_exercises() <= 16 {
            drive(&mut world, &idx, &mut state, |world, state, batch| {
                on_batch(&BatchEvent {
                    world,
                    idx: &idx,
                    state,
                    filter: &None,
                    batch,
                })
            })?
        } else {
            return Ok(());
        };
        // What was never offered must have been superseded.
        let model = Model::new(&world.trane, &idx, &state.blacklist)?;
        for e in &missing {
            let (c, l, _) = idx.exercises[e.as_str()];
            check!(
                model.superseded(&c.id) != Some(false) || model.superseded(&l.id) != Some(false),
                "never-offered",
                "after {rounds} batches answered with top scores, {e} was never offered, although neither its lesson nor its course is superseded"
            );
        }
        Ok(())
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct MetadataCase {
    pub session: SessionCase,
    /// The filter that the student keeps using after the session.
    pub last: KeyValueFilter,
}

pub struct C34;
impl Prop for C34 {
    type Case = MetadataCase;
    fn id(&self) -> &'static str {
        "C34"
    }
    fn rule(&self) -> &'static str {
        "a metadata filter that selects some lessons but not all offered an exercise of a lesson with dependencies of which at least one, or one of the units behind it, is not selected"
    }
    fn quick_cases(&self) -> usize {
        1000
    }
    fn strategy(&self, thorough: bool) -> BoxedStrategy<MetadataCase> {
        let params = |courses, lessons, exercises| SessionParams {
            lib: LibParams {
                courses,
                lessons,
                exercises,
                min_lessons: 1,
                min_exercises: 1,
                metadata: true,
                superseding: false,
                ..LibParams::default()
            },
            steps: 5,
            blacklist: true,
            review: false,
            filters: true,
            metadata_filters: true,
            scores: true,
            batch_sizes: false,
        };
        (
            prop_oneof![
                2 => session_strategy(params(if thorough { 8 } else { 6 }, 4, 2)),
                3 => session_strategy(params(5, 3, 1)),
            ],
            proptest::collection::vec(any::<u16>(), 1..6),
        )
            .prop_map(|(mut session, picks)| {
                // All batches use metadata filters.
                for (i, step) in session.steps.iter_mut().enumerate() {
                    if let crate::session::Step::Batch { filter, .. } = step {
                        let mut p = picks.clone();
                        p.iter_mut()
                            .for_each(|n| *n = n.wrapping_add((i as u16).wrapping_mul(7919)));
                        *filter = Some(UnitFilter::MetadataFilter {
                            filter: kv_filter(&p, 2),
                        });
                    }
                }
                MetadataCase {
                    session,
                    last: kv_filter(&picks, 2),
                }
            })
            .boxed()
    }
    fn check(&self, case: &MetadataCase, stats: &mut Stats) -> Res {
        let idx = Index::new(&case.session.lib);
        let (mut world, mut state) = run_session_in(&case.session, &mut |ev: &BatchEvent| {
            if let Some(UnitFilter::MetadataFilter { filter }) = ev.filter {
                check_filtered_gating(ev, filter, stats)?;
            }
            check_exact(ev, stats)
        })?;
        let unit_filter = Some(UnitFilter::MetadataFilter {
            filter: case.last.clone(),
        });
        let (missing, rounds) = drive_filtered(
            &mut world,
            &idx,
            &mut state,
            Some(&case.last),
            |world, state, batch| {
                let ev = BatchEvent {
                    world,
                    idx: &idx,
                    state,
                    filter: &unit_filter,
                    batch,
                };
                check_filtered_gating(&ev, &case.last, stats)?;
                check_exact(&ev, stats)
            },
        )?;
        check!(
            missing.is_empty(),
            "never-offered",
            "after {rounds} batches with the filter {:?} answered with top scores, these exercises were never offered: {missing:?} (blacklist {:?})",
            case.last,
            state.blacklist
        );
        Ok(())
    }
}

/// Checks that what a batch with a metadata filter contains is selected by the filter and not
/// ahead of the units selected by it.
fn check_filtered_gating(ev: &BatchEvent, filter: &KeyValueFilter, stats: &mut Stats) -> Res {
    let model = Model::new(&ev.world.trane, ev.idx, &ev.state.blacklist)?;
    stats.hit("batches");
    let selected = ev
        .idx
        .lib
        .lessons()
        .filter(|(c, l)| lesson_matches(filter, c, l))
        .count();
    let partial = selected > 0 && selected < ev.idx.lessons.len();
    for e in ev.batch {
        if ev.state.pile.0.contains(e.id.as_str()) {
            continue;
        }
        let Some((course, lesson, _)) = ev.idx.exercises.get(e.id.as_str()) else {
            continue;
        };
        check!(
            lesson_matches(filter, course, lesson),
            "outside-filter",
            "{} offered, which the filter {filter:?} does not select",
            e.id
        );
        let mut held_by: Vec<&String> = lesson.deps.iter().collect();
        if !lesson.deps.iter().any(|d| ev.idx.kind(d).is_some()) {
            held_by.extend(&course.deps);
        }
        for d in held_by {
            let targets = effective(ev.idx, d, filter);
            let bridged = ev.idx.kind(d).is_some() && !targets.contains(d);
            for t in &targets {
                match model.satisfied(t) {
                    Some(false) => {
                        return Err(violation(
                            "gating",
                            format!(
                                "{} offered with filter {filter:?} although {t}, which it depends on through {d}, is not passed: score {:?}, average trials {:?}",
                                e.id,
                                model.unit_score(t),
                                model.avg_trials(t)
                            ),
                        ));
                    }
                    Some(true) => stats.hit("exercises_past_a_dependency"),
                    None => stats.hit("too_close_to_call"),
                }
            }
            if bridged {
                stats.hit("exercises_past_a_bridged_dependency");
                stats.hit_if(!targets.is_empty(), "bridged_to_another_unit");
                if partial {
                    stats.mark_nontrivial();
                }
            }
        }
    }
    Ok(())
}

/// Checks batches of the open instance against the search under the given options. Returns the
/// lessons that are reachable under them.
pub fn check_under_options(
    world: &World,
    idx: &Index,
    state: &State,
    options: &trane::data::SchedulerOptions,
    stats: &mut Stats,
) -> Res<Option<BTreeSet<String>>> {
    let model = Model::new(&world.trane, idx, &state.blacklist)?;
    let Some(lessons) = reference_search(&model) else {
        stats.hit("too_close_to_call");
        return Ok(None);
    };
    let Some(offered) = offered(&model, &lessons) else {
        stats.hit("too_close_to_call");
        return Ok(None);
    };
    let mut seen: BTreeSet<String> = BTreeSet::new();
    let mut lessons_seen = 0;
    for _ in 0..3 {
        let batch = world.batch(None)?;
        check_gating(
            &BatchEvent {
                world,
                idx,
                state,
                filter: &None,
                batch: &batch,
            },
            &mut Stats::default(),
        )?;
        let mut in_progress: BTreeSet<&str> = BTreeSet::new();
        let mut relearned = 0;
        for e in &batch {
            if state.pile.0.contains(e.id.as_str()) {
                relearned += 1;
                continue;
            }
            let (course, lesson, _) = idx.exercises[e.id.as_str()];
            for unit in [&course.id, &lesson.id] {
                check!(
                    model.superseded(unit) != Some(true),
                    "superseded-offered",
                    "{} offered although {unit} is superseded with the options {options:?}",
                    e.id
                );
            }
            let valid = model.valid_exercises(&lesson.id);
            let avg = valid.iter().map(|e| model.scores[*e]).sum::<f32>() / valid.len() as f32;
            if avg < options.target_window_opts.range.1 - 1e-3 {
                in_progress.insert(&lesson.id);
            }
            seen.insert(e.id.to_string());
        }
        check!(
            in_progress.len() <= options.max_lessons_in_progress,
            "too-many-lessons",
            "a batch with exercises of {in_progress:?} in progress, with a limit of {}",
            options.max_lessons_in_progress
        );
        let relearn = (options.batch_size as f32 * options.relearn_fraction + 1e-3) as usize;
        check!(
            batch.len() <= options.batch_size.max(5) + relearn.min(relearned),
            "too-large",
            "a batch of {} exercises with the options {options:?}",
            batch.len()
        );
        lessons_seen = lessons_seen.max(in_progress.len());
    }
    stats.hit("options_checked");
    // With few exercises available, all of them are offered.
    let upper = idx
        .lib
        .lessons()
        .filter(|(_, l)| !l.deps.iter().any(|d| model.satisfied(d) == Some(false)))
        .map(|(_, l)| model.valid_exercises(&l.id).len())
        .sum::<usize>();
    check!(
        offered.is_empty() || !seen.is_empty() || !state.pile.0.is_empty(),
        "empty-batch",
        "nothing offered although {offered:?} are available"
    );
    if upper <= FITS && options.max_lessons_in_progress > upper {
        for l in &lessons {
            let inside: Vec<&str> = model
                .valid_exercises(l)
                .into_iter()
                .filter(|e| offered.contains(*e))
                .collect();
            if inside.iter().any(|e| state.pile.0.contains(*e)) {
                continue;
            }
            let there = inside.iter().filter(|e| seen.contains(**e)).count();
            let mastered = inside.iter().any(|e| model.scores[*e] >= 4.49);
            check!(
                there > 0 || inside.is_empty() || mastered,
                "available-not-offered",
                "none of {inside:?} is offered with the options {options:?} although only {} exercises are available",
                offered.len()
            );
            stats.hit("lessons_checked_for_inclusion");
        }
    }
    Ok(Some(lessons))
}

/// The exercises that the filter selects: those the search it asks for reaches.
fn selected(
    model: &Model,
    filter: &Option<UnitFilter>,
    review: &BTreeSet<String>,
) -> Tri<BTreeSet<String>> {
    let idx = model.idx;
    let valid = |id: &str| -> Vec<String> {
        model
            .valid_exercises(id)
            .into_iter()
            .map(str::to_string)
            .collect()
    };
    let in_library = |c: &String| idx.courses.contains_key(c.as_str());
    let courses = |ids: Vec<String>| -> Tri<BTreeSet<String>> {
        let ids: Vec<String> = ids.into_iter().filter(in_library).collect();
        offered(model, &reference_course_search(model, &ids)?)
    };
    let strings =
        |ids: &[ustr::Ustr]| -> Vec<String> { ids.iter().map(|i| i.to_string()).collect() };
    match filter {
        None => offered(model, &reference_search(model)?),
        Some(UnitFilter::CourseFilter { course_ids }) => courses(strings(course_ids)),
        Some(UnitFilter::LessonFilter { lesson_ids }) => {
            Some(lesson_ids.iter().flat_map(|l| valid(l.as_str())).collect())
        }
        Some(UnitFilter::MetadataFilter { filter }) => {
            let mut lessons = reference_filtered_search(model, Some(filter))?;
            lessons.retain(|l| {
                let (c, l) = idx.lessons[l.as_str()];
                lesson_matches(filter, c, l)
            });
            offered(model, &lessons)
        }
        Some(UnitFilter::ReviewListFilter) => {
            let mut out = BTreeSet::new();
            for id in review {
                match idx.kind(id) {
                    Some(Kind::Course) => out.extend(courses(vec![id.clone()])?),
                    Some(Kind::Lesson) => out.extend(valid(id)),
                    Some(Kind::Exercise) => {
                        if !model.exercise_blacklisted(id) {
                            out.insert(id.clone());
                        }
                    }
                    None => {}
                }
            }
            Some(out)
        }
        Some(UnitFilter::Dependents { unit_ids }) => {
            offered(model, &reference_unit_search(model, strings(unit_ids))?)
        }
        Some(UnitFilter::Dependencies { unit_ids, depth }) => {
            let units = unit_ids
                .iter()
                .flat_map(|id| dependencies_at_depth(idx, id.as_str(), *depth));
            offered(model, &reference_unit_search(model, units)?)
        }
    }
}

/// The filter is asked at most this often for the exercises it selects.
const ROUNDS: usize = 80;

pub struct C38;
impl Prop for C38 {
    type Case = SessionCase;
    fn id(&self) -> &'static str {
        "C38"
    }
    fn rule(&self) -> &'static str {
        "at least one filter selected some exercise but not all those of the library, and all it selected were offered"
    }
    fn quick_cases(&self) -> usize {
        6000
    }
    fn strategy(&self, thorough: bool) -> BoxedStrategy<SessionCase> {
        let params = |courses, lessons, exercises, dense: bool| SessionParams {
            lib: LibParams {
                courses,
                lessons,
                exercises,
                metadata: true,
                superseding: !dense,
                dense,
                min_lessons: usize::from(dense),
                min_exercises: usize::from(dense),
                ..LibParams::default()
            },
            steps: if thorough { 14 } else { 8 },
            blacklist: true,
            review: true,
            filters: true,
            metadata_filters: true,
            scores: false,
            batch_sizes: false,
        };
        (
            prop_oneof![
                2 => session_strategy(params(4, 3, 2, false)),
                2 => session_strategy(params(if thorough { 8 } else { 6 }, 2, 1, false)),
                2 => session_strategy(params(if thorough { 8 } else { 6 }, 2, 1, true))
                    .prop_map(|mut case| {
                        // Units reached on paths of different lengths.
                        for (i, step) in case.steps.iter_mut().enumerate() {
                            if let Step::Batch { filter: Some(filter), .. } = step
                                && let UnitFilter::CourseFilter { course_ids } = filter
                            {
                                *filter = UnitFilter::Dependencies {
                                    unit_ids: course_ids.clone(),
                                    depth: 1 + i % 4,
                                };
                            }
                        }
                        case
                    }),
            ],
            20usize..=60,
        )
            .prop_map(|(case, size)| SessionCase {
                batch_size: Some(size),
                max_lessons: Some(1000),
                ..case
            })
            .boxed()
    }
    fn check(&self, case: &SessionCase, stats: &mut Stats) -> Res {
        run_session(case, |ev| {
            let model = Model::new(&ev.world.trane, ev.idx, &ev.state.blacklist)?;
            let Some(selected) = selected(&model, ev.filter, &ev.state.review) else {
                stats.hit("too_close_to_call");
                return Ok(());
            };
            // Reviews of mastered exercises are left out when enough of the others cover them.
            let mut missing: BTreeSet<&String> = selected
                .iter()
                .filter(|e| model.scores[*e] < 4.4)
                .collect();
            let name = ev.filter.as_ref().map_or("None".to_string(), filter_name);
            let mut batch = ev.batch.to_vec();
            let mut rounds = 1;
            loop {
                for e in &batch {
                    let id = e.id.to_string();
                    check!(
                        selected.contains(&id) || ev.state.pile.0.contains(&id),
                        "not-selected-but-offered",
                        "{id} was offered with the filter {:?} (review list {:?}, blacklist {:?}), which selects {selected:?}",
                        ev.filter,
                        ev.state.review,
                        ev.state.blacklist
                    );
                    missing.remove(&id);
                }
                if missing.is_empty() || rounds == ROUNDS {
                    break;
                }
                batch = ev
                    .world
                    .batch(ev.filter.clone().map(ExerciseFilter::UnitFilter))?;
                rounds += 1;
            }
            check!(
                missing.is_empty(),
                "selected-never-offered",
                "{missing:?} was not offered in {rounds} batches with the filter {:?} (review list {:?}, blacklist {:?}), which selects {selected:?}",
                ev.filter,
                ev.state.review,
                ev.state.blacklist
            );
            stats.add("rounds", rounds as u64);
            stats.hit(&format!("filters_{name}"));
            stats.hit_if(!selected.is_empty(), &format!("selecting_{name}"));
            stats.hit_if(rounds > 10, "more_than_10_rounds");
            stats.hit_if(rounds > 30, "more_than_30_rounds");
            if !selected.is_empty() && selected.len() < ev.idx.exercises.len() {
                stats.mark_nontrivial();
            }
            Ok(())
        })
        .map(|_| ())
    }
}

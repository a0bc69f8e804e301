//! C39: a unit graph built through its public interface, in any order and past rejected changes.

use proptest::{collection::vec, prelude::*};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use trane::{
    data::UnitType,
    error::UnitGraphError,
    graph::{InMemoryUnitGraph, UnitGraph},
};

use super::structure::{any_lib, compare_dot, compare_graph, compare_sinks, rename};
use crate::{
    check,
    engine::{OrViolation, Prop, Res, Stats},
    library::Lib,
    world::{World, u},
};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct BuildCase {
    pub lib: Lib,
    /// Build the graph of an open library rather than a graph on its own.
    pub opened: bool,
    /// Decides the order of the additions.
    pub order: Vec<u16>,
    /// Courses with lessons are not added by themselves.
    pub implicit: bool,
    /// Dependencies and superseded units are added one by one.
    pub pieces: bool,
    /// Additions that must be rejected: when, the kind, and the units they use.
    pub rejected: Vec<(u16, u8, u16)>,
    /// The relation to add in reverse at the end: the kind and the relation.
    pub reverse: (u8, u16),
}

#[derive(Clone, Debug)]
enum Op {
    Course(String),
    Lesson(String, String),
    Exercise(String, String),
    Deps(String, UnitType, Vec<String>),
    Encompassed(String, Vec<String>, Vec<(String, f32)>),
    Superseded(String, Vec<String>),
}

impl Op {
    /// The unit that must have been added before, if any.
    fn needs(&self) -> Option<&str> {
        match self {
            Op::Course(_) | Op::Superseded(..) => None,
            Op::Lesson(_, up) | Op::Exercise(_, up) => Some(up),
            Op::Deps(id, ..) | Op::Encompassed(id, ..) => Some(id),
        }
    }

    fn apply<T: UnitGraph>(&self, g: &mut T) -> Result<(), UnitGraphError> {
        let all = |v: &[String]| v.iter().map(|s| u(s)).collect::<Vec<_>>();
        match self {
            Op::Course(id) => g.add_course(u(id)),
            Op::Lesson(id, up) => g.add_lesson(u(id), u(up)),
            Op::Exercise(id, up) => g.add_exercise(u(id), u(up)),
            Op::Deps(id, kind, deps) => g.add_dependencies(u(id), kind.clone(), &all(deps)),
            Op::Encompassed(id, deps, enc) => {
                let enc: Vec<_> = enc.iter().map(|(e, w)| (u(e), *w)).collect();
                g.add_encompassed(u(id), &all(deps), &enc)
            }
            Op::Superseded(id, superseded) => {
                g.add_superseded(u(id), &all(superseded));
                Ok(())
            }
        }
    }
}

impl BuildCase {
    /// The additions, before they are put in order.
    fn ops(&self) -> Vec<Op> {
        let mut ops = vec![];
        let pieces = |v: &[String]| -> Vec<Vec<String>> {
            if self.pieces && !v.is_empty() {
                v.iter().map(|x| vec![x.clone()]).collect()
            } else {
                vec![v.to_vec()]
            }
        };
        for c in &self.lib.courses {
            if !self.implicit || c.lessons.is_empty() {
                ops.push(Op::Course(c.id.clone()));
            }
            for d in pieces(&c.deps) {
                ops.push(Op::Deps(c.id.clone(), UnitType::Course, d));
            }
            ops.push(Op::Encompassed(
                c.id.clone(),
                c.deps.clone(),
                c.encompassed.clone(),
            ));
            for s in pieces(&c.superseded) {
                ops.push(Op::Superseded(c.id.clone(), s));
            }
            for l in &c.lessons {
                ops.push(Op::Lesson(l.id.clone(), c.id.clone()));
                for d in pieces(&l.deps) {
                    ops.push(Op::Deps(l.id.clone(), UnitType::Lesson, d));
                }
                ops.push(Op::Encompassed(
                    l.id.clone(),
                    l.deps.clone(),
                    l.encompassed.clone(),
                ));
                for s in pieces(&l.superseded) {
                    ops.push(Op::Superseded(l.id.clone(), s));
                }
                for e in &l.exercises {
                    ops.push(Op::Exercise(e.id.clone(), l.id.clone()));
                }
            }
        }
        ops
    }

    /// One of the allowed orders of the additions: a unit comes before what is said of it, and a
    /// course or lesson before what belongs to it.
    fn ordered(&self) -> Vec<Op> {
        let ops = self.ops();
        let mut keyed: Vec<(u32, usize, Op)> = ops
            .into_iter()
            .enumerate()
            .map(|(i, op)| {
                let key = match self.order.len() {
                    0 => 0,
                    n => {
                        (u32::from(self.order[i % n]) + (i / n) as u32 * 7919)
                            .wrapping_mul(2_654_435_761)
                            >> 8
                    }
                };
                (key, i, op)
            })
            .collect();
        keyed.sort_by_key(|(key, i, _)| (*key, *i));
        // Which additions are still missing before a unit counts as added.
        let mut pending: BTreeMap<String, usize> = BTreeMap::new();
        for (_, _, op) in &keyed {
            match op {
                Op::Course(id) | Op::Lesson(id, _) | Op::Exercise(id, _) => {
                    *pending.entry(id.clone()).or_default() += 1;
                }
                _ => {}
            }
        }
        // Courses that are only added with their first lesson.
        for c in &self.lib.courses {
            if self.implicit && !c.lessons.is_empty() {
                pending.insert(c.id.clone(), 1);
            }
        }
        let mut out = vec![];
        while !keyed.is_empty() {
            let next = keyed
                .iter()
                .position(|(_, _, op)| match op {
                    // The first lesson adds the course.
                    Op::Lesson(_, up) if self.implicit => {
                        self.lib.courses.iter().any(|c| c.id == *up)
                    }
                    _ => op.needs().is_none_or(|id| pending.get(id) == Some(&0)),
                })
                .expect("additions that wait for each other");
            let (_, _, op) = keyed.remove(next);
            match &op {
                Op::Course(id) | Op::Exercise(id, _) => {
                    pending.insert(id.clone(), 0);
                }
                Op::Lesson(id, up) => {
                    pending.insert(id.clone(), 0);
                    pending.insert(up.clone(), 0);
                }
                _ => {}
            }
            out.push(op);
        }
        out
    }
}

/// The units added so far, by kind.
#[derive(Default)]
struct Added {
    courses: Vec<String>,
    lessons: Vec<String>,
    exercises: Vec<String>,
}

impl Added {
    fn note(&mut self, op: &Op) {
        match op {
            Op::Course(id) => self.courses.push(id.clone()),
            Op::Lesson(id, up) => {
                self.lessons.push(id.clone());
                if !self.courses.contains(up) {
                    self.courses.push(up.clone());
                }
            }
            Op::Exercise(id, _) => self.exercises.push(id.clone()),
            _ => {}
        }
    }

    /// An addition that must be rejected, with the ID of the unit that it must not add.
    fn rejected(&self, kind: u8, pick: u16, n: usize) -> Option<(Op, Option<String>)> {
        let of = |v: &Vec<String>| (!v.is_empty()).then(|| v[pick as usize % v.len()].clone());
        let any: Vec<String> = [&self.courses, &self.lessons, &self.exercises]
            .into_iter()
            .flatten()
            .cloned()
            .collect();
        let upper: Vec<String> = [&self.courses, &self.lessons]
            .into_iter()
            .flatten()
            .cloned()
            .collect();
        let kind_of = |id: &String| {
            if self.courses.contains(id) {
                UnitType::Course
            } else {
                UnitType::Lesson
            }
        };
        let new = format!("rejected{n}");
        let own = Some(new.clone());
        Some(match kind % 16 {
            0 => (Op::Course(of(&any)?), None),
            1 => (Op::Lesson(of(&any)?, of(&self.courses)?), None),
            2 => (Op::Exercise(of(&any)?, of(&self.lessons)?), None),
            3 => (Op::Lesson(new, of(&self.lessons)?), own),
            4 => (Op::Lesson(new, of(&self.exercises)?), own),
            5 => (Op::Lesson(new.clone(), new), own),
            6 => (Op::Exercise(new, of(&self.courses)?), own),
            7 => (Op::Exercise(new, of(&self.exercises)?), own),
            8 => (Op::Exercise(new.clone(), new), own),
            9 => {
                let e = of(&self.exercises)?;
                let up = of(&upper)?;
                (Op::Deps(e, UnitType::Exercise, vec![up]), None)
            }
            10 => (Op::Deps(new, UnitType::Course, vec![of(&upper)?]), own),
            11 => {
                let id = of(&upper)?;
                let other = upper[(pick as usize / 7) % upper.len()].clone();
                let mut deps = vec![id.clone()];
                if other != id {
                    deps.insert(0, other);
                }
                (Op::Deps(id.clone(), kind_of(&id), deps), None)
            }
            k => {
                let weight = [-0.1, 1.5, f32::NAN, f32::INFINITY][k as usize % 4];
                let id = of(&upper)?;
                let ok = upper[(pick as usize / 7) % upper.len()].clone();
                (
                    Op::Encompassed(id, vec![], vec![(ok.clone(), 0.5), (ok, weight)]),
                    None,
                )
            }
        })
    }
}

fn build<T: UnitGraph>(g: &mut T, case: &BuildCase, stats: &mut Stats) -> Res {
    let lib = &case.lib;
    let ops = case.ordered();
    let mut added = Added::default();
    let mut new_ids = vec![];
    for (i, op) in ops.iter().enumerate() {
        op.apply(g)
            .must("addition-failed", &format!("{op:?}, addition number {i},"))?;
        added.note(op);
        for (n, (at, kind, pick)) in case.rejected.iter().enumerate() {
            if *at as usize % ops.len() != i {
                continue;
            }
            let Some((bad, new)) = added.rejected(*kind, *pick, n) else {
                continue;
            };
            check!(
                bad.apply(g).is_err(),
                "not-rejected",
                "{bad:?} was accepted, after addition number {i}"
            );
            stats.hit("rejected");
            new_ids.extend(new);
        }
    }
    g.update_starting_lessons();
    let explicit = lib.courses.iter().any(|c| !c.encompassed.is_empty())
        || lib.lessons().any(|(_, l)| !l.encompassed.is_empty());
    check!(
        !explicit || !g.encompasing_equals_dependency(),
        "wrong-equality",
        "the graph with explicitly encompassed units says that its encompassed units are the dependencies"
    );
    compare_graph(g, lib, "once built")?;
    if !explicit {
        g.set_encompasing_equals_dependency();
        check!(
            g.encompasing_equals_dependency(),
            "wrong-equality",
            "the encompassed units were declared to be the dependencies, without effect"
        );
        compare_graph(
            g,
            lib,
            "with the encompassed units taken from the dependencies",
        )?;
    }
    compare_sinks(g, lib, "once built")?;
    compare_dot(g, lib)?;
    for id in &new_ids {
        check!(
            g.get_unit_type(u(id)).is_none()
                && g.get_dependencies(u(id)).is_none_or(|d| d.is_empty())
                && g.get_course_lessons(u(id)).is_none_or(|d| d.is_empty())
                && g.get_lesson_exercises(u(id)).is_none_or(|d| d.is_empty())
                && g.get_lesson_course(u(id)).is_none()
                && g.get_exercise_lesson(u(id)).is_none()
                && !g.get_dependency_sinks().contains(&u(id)),
            "rejected-added",
            "{id}, whose addition was rejected, is part of the graph"
        );
    }
    g.check_cycles().must(
        "false-cycle",
        "checking a graph without cycles for them failed:",
    )?;

    // The reverse of a relation closes a cycle.
    let mut relations: Vec<Op> = vec![];
    let units = lib.courses.iter().flat_map(|c| {
        std::iter::once((&c.id, &c.deps, &c.superseded, &c.encompassed, true)).chain(
            c.lessons
                .iter()
                .map(|l| (&l.id, &l.deps, &l.superseded, &l.encompassed, false)),
        )
    });
    let added_kind = |id: &String| {
        if added.courses.contains(id) {
            Some(UnitType::Course)
        } else if added.lessons.contains(id) {
            Some(UnitType::Lesson)
        } else {
            None
        }
    };
    for (id, deps, superseded, encompassed, _) in units {
        match case.reverse.0 % 3 {
            0 => {
                relations.extend(deps.iter().filter_map(|d| {
                    added_kind(d).map(|k| Op::Deps(d.clone(), k, vec![id.clone()]))
                }))
            }
            1 => relations.extend(
                superseded
                    .iter()
                    .map(|s| Op::Superseded(s.clone(), vec![id.clone()])),
            ),
            _ => relations.extend(
                encompassed
                    .iter()
                    .map(|(e, _)| Op::Encompassed(e.clone(), vec![], vec![(id.clone(), 0.5)])),
            ),
        }
    }
    if !relations.is_empty() {
        let op = &relations[case.reverse.1 as usize % relations.len()];
        op.apply(g).must("addition-failed", &format!("{op:?}"))?;
        check!(
            g.check_cycles().is_err(),
            "missed-cycle",
            "the cycle closed by {op:?} was not found"
        );
        stats.hit(
            [
                "dependency_cycle",
                "superseding_cycle",
                "encompassing_cycle",
            ][case.reverse.0 as usize % 3],
        );
    }
    Ok(())
}

pub struct C39;
impl Prop for C39 {
    type Case = BuildCase;
    fn id(&self) -> &'static str {
        "C39"
    }
    fn rule(&self) -> &'static str {
        "the graph has at least two courses, a dependency, and an addition that must be rejected"
    }
    fn quick_cases(&self) -> usize {
        20000
    }
    fn strategy(&self, thorough: bool) -> BoxedStrategy<BuildCase> {
        (
            any_lib(thorough),
            vec(any::<u8>(), 0..8),
            prop::bool::weighted(0.2),
            vec(any::<u16>(), 0..24),
            any::<bool>(),
            any::<bool>(),
            vec((any::<u16>(), 0u8..16, any::<u16>()), 0..8),
            (0u8..3, any::<u16>()),
        )
            .prop_map(
                |(lib, names, opened, order, implicit, pieces, rejected, reverse)| BuildCase {
                    lib: rename(&lib, &names),
                    opened,
                    order,
                    implicit,
                    pieces,
                    rejected,
                    reverse,
                },
            )
            .boxed()
    }
    fn check(&self, case: &BuildCase, stats: &mut Stats) -> Res {
        if case.opened {
            let mut world = World::new(&Lib { courses: vec![] })?;
            build(&mut world.trane, case, stats)?;
            stats.hit("opened");
        } else {
            build(&mut InMemoryUnitGraph::default(), case, stats)?;
        }
        let deps = case.lib.courses.iter().any(|c| !c.deps.is_empty())
            || case.lib.lessons().any(|(_, l)| !l.deps.is_empty());
        if case.lib.courses.len() > 1 && deps && stats.counters.contains_key("rejected") {
            stats.mark_nontrivial();
        }
        Ok(())
    }
}

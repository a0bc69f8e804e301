//! Generated course libraries: their specification, their files on disk and the facts about them
//! that the oracles need.

use proptest::{collection::vec, prelude::*};
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::{
    collections::{BTreeMap, BTreeSet},
    fs,
    path::Path,
};

use crate::engine::{OrHarness, Res};

pub type Metadata = BTreeMap<String, Vec<String>>;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Lib {
    pub courses: Vec<Course>,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq)]
pub struct Course {
    pub id: String,
    #[serde(default)]
    pub deps: Vec<String>,
    #[serde(default)]
    pub superseded: Vec<String>,
    #[serde(default)]
    pub encompassed: Vec<(String, f32)>,
    #[serde(default)]
    pub metadata: Option<Metadata>,
    pub lessons: Vec<Lesson>,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq)]
pub struct Lesson {
    pub id: String,
    #[serde(default)]
    pub deps: Vec<String>,
    #[serde(default)]
    pub superseded: Vec<String>,
    #[serde(default)]
    pub encompassed: Vec<(String, f32)>,
    #[serde(default)]
    pub metadata: Option<Metadata>,
    pub exercises: Vec<Exercise>,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq)]
pub struct Exercise {
    pub id: String,
    #[serde(default)]
    pub declarative: bool,
}

/// What the generated libraries contain.
#[derive(Clone, Copy, Debug)]
pub struct LibParams {
    pub courses: usize,
    pub lessons: usize,
    pub exercises: usize,
    /// Let units depend on units that are not in the library.
    pub missing: bool,
    pub superseding: bool,
    pub encompassing: bool,
    pub metadata: bool,
    /// Smallest number of lessons and exercises.
    pub min_lessons: usize,
    pub min_exercises: usize,
    /// Most units depend on several others.
    pub dense: bool,
}

impl Default for LibParams {
    fn default() -> Self {
        LibParams {
            courses: 5,
            lessons: 4,
            exercises: 4,
            missing: true,
            superseding: false,
            encompassing: false,
            metadata: false,
            min_lessons: 0,
            min_exercises: 0,
            dense: false,
        }
    }
}

#[derive(Clone, Debug)]
struct RawUnit {
    deps: Vec<u16>,
    superseded: Vec<u16>,
    encompassed: Vec<(u16, u8)>,
    metadata: u8,
    exercises: u8,
    declarative: u8,
}

#[derive(Clone, Debug)]
struct RawCourse {
    unit: RawUnit,
    lessons: Vec<RawUnit>,
}

fn raw_unit(p: LibParams) -> impl Strategy<Value = RawUnit> {
    (
        if p.dense {
            vec(any::<u16>(), 0..=4).boxed()
        } else {
            prop_oneof![
                3 => Just(vec![]),
                5 => vec(any::<u16>(), 1..=1),
                3 => vec(any::<u16>(), 2..=3)
            ]
            .boxed()
        },
        if p.superseding {
            prop_oneof![3 => Just(vec![]), 2 => vec(any::<u16>(), 1..=2)].boxed()
        } else {
            Just(vec![]).boxed()
        },
        if p.encompassing {
            prop_oneof![2 => Just(vec![]), 2 => vec((any::<u16>(), 0u8..5), 1..=3)].boxed()
        } else {
            Just(vec![]).boxed()
        },
        any::<u8>(),
        (p.min_exercises as u8)..=(p.exercises as u8),
        any::<u8>(),
    )
        .prop_map(
            |(deps, superseded, encompassed, metadata, exercises, declarative)| RawUnit {
                deps,
                superseded,
                encompassed,
                metadata,
                exercises,
                declarative,
            },
        )
}

const WEIGHTS: [f32; 5] = [1.0, 0.0, 0.3, 0.5, 0.8];

fn decode_metadata(bits: u8, course: bool) -> Option<Metadata> {
    if bits.is_multiple_of(5) {
        return None;
    }
    let mut m = Metadata::new();
    let keys = if course {
        ["genre", "level"]
    } else {
        ["level", "key"]
    };
    let values = ["a", "b", "c"];
    let first = &mut m;
    first.insert(
        keys[0].to_string(),
        vec![values[(bits as usize / 5) % 3].to_string()],
    );
    if bits & 0x40 != 0 {
        first.insert(
            keys[1].to_string(),
            if bits & 0x80 != 0 {
                vec!["a".to_string(), "b".to_string()]
            } else {
                vec![values[(bits as usize / 16) % 3].to_string()]
            },
        );
    }
    Some(m)
}

fn dedup<T: PartialEq + Clone>(v: Vec<T>) -> Vec<T> {
    let mut out: Vec<T> = vec![];
    for x in v {
        if !out.contains(&x) {
            out.push(x);
        }
    }
    out
}

fn decode(raw: Vec<RawCourse>, p: LibParams) -> Lib {
    let mut courses: Vec<Course> = vec![];
    for (ci, rc) in raw.iter().enumerate() {
        let id = format!("c{ci}");
        let earlier_lessons: Vec<String> = courses
            .iter()
            .flat_map(|c| c.lessons.iter().map(|l| l.id.clone()))
            .collect();
        let earlier_courses: Vec<String> = courses.iter().map(|c| c.id.clone()).collect();
        let pick = |v: &[String], n: u16| -> Option<String> {
            (!v.is_empty()).then(|| v[n as usize % v.len()].clone())
        };
        let outer = |n: u16| -> Option<String> {
            let (kind, n) = (n % 10, n / 10);
            match kind {
                0..=5 => pick(&earlier_courses, n),
                6..=8 => pick(&earlier_lessons, n).or_else(|| pick(&earlier_courses, n)),
                _ => p.missing.then(|| format!("missing{}", n % 2)),
            }
        };
        // Units of earlier courses only, never a missing one.
        let outer_existing = |n: u16| -> Option<String> {
            let (kind, n) = (n % 2, n / 2);
            if kind == 0 {
                pick(&earlier_courses, n)
            } else {
                pick(&earlier_lessons, n).or_else(|| pick(&earlier_courses, n))
            }
        };
        let mut course = Course {
            deps: dedup(rc.unit.deps.iter().filter_map(|n| outer(*n)).collect()),
            superseded: dedup(
                rc.unit
                    .superseded
                    .iter()
                    .filter_map(|n| outer_existing(*n))
                    .collect(),
            ),
            encompassed: vec![],
            metadata: p
                .metadata
                .then(|| decode_metadata(rc.unit.metadata, true))
                .flatten(),
            lessons: vec![],
            id,
        };
        for (n, w) in &rc.unit.encompassed {
            if let Some(u) = outer_existing(*n)
                && !course.encompassed.iter().any(|(x, _)| *x == u)
            {
                course.encompassed.push((u, WEIGHTS[*w as usize]));
            }
        }
        for (li, rl) in rc.lessons.iter().enumerate() {
            let id = format!("{}::l{li}", course.id);
            let siblings: Vec<String> = course.lessons.iter().map(|l| l.id.clone()).collect();
            let inner = |n: u16| -> Option<String> {
                let (kind, n) = (n % 10, n / 10);
                match kind {
                    0..=5 => pick(&siblings, n),
                    6..=7 => pick(&earlier_lessons, n),
                    8 => pick(&earlier_courses, n),
                    _ => p.missing.then(|| format!("missing{}", n % 2)),
                }
            };
            let inner_existing = |n: u16| -> Option<String> {
                let (kind, n) = (n % 4, n / 4);
                match kind {
                    0 | 1 => pick(&siblings, n),
                    2 => pick(&earlier_lessons, n),
                    _ => pick(&earlier_courses, n),
                }
            };
            let mut lesson = Lesson {
                deps: dedup(rl.deps.iter().filter_map(|n| inner(*n)).collect()),
                superseded: dedup(
                    rl.superseded
                        .iter()
                        .filter_map(|n| inner_existing(*n))
                        .collect(),
                ),
                encompassed: vec![],
                metadata: p
                    .metadata
                    .then(|| decode_metadata(rl.metadata, false))
                    .flatten(),
                exercises: (0..rl.exercises)
                    .map(|e| Exercise {
                        id: format!("{id}::e{e}"),
                        declarative: rl.declarative >> (e % 8) & 1 == 1,
                    })
                    .collect(),
                id,
            };
            for (n, w) in &rl.encompassed {
                if let Some(u) = inner_existing(*n)
                    && !lesson.encompassed.iter().any(|(x, _)| *x == u)
                {
                    lesson.encompassed.push((u, WEIGHTS[*w as usize]));
                }
            }
            course.lessons.push(lesson);
        }
        courses.push(course);
    }
    Lib { courses }
}

/// Generates acyclic libraries: every relation of a unit goes to units of earlier courses or to
/// earlier lessons of the same course.
pub fn lib_strategy(p: LibParams) -> BoxedStrategy<Lib> {
    let course = (raw_unit(p), vec(raw_unit(p), p.min_lessons..=p.lessons))
        .prop_map(|(unit, lessons)| RawCourse { unit, lessons });
    (
        vec(course, 1..=p.courses),
        prop_oneof![3 => Just(0u8), 1 => Just(1u8), 1 => Just(2u8)],
    )
        .prop_map(move |(raw, naming)| renamed(decode(raw, p), naming))
        .boxed()
}

/// Gives the units other IDs. Besides the usual ones, in which the ID of a unit starts with that
/// of its owner and units come in the order of their relations, there are libraries in which the
/// IDs of different courses interleave, in the opposite order, and libraries in which one ID is
/// often the start of another one and which has unusual characters.
pub fn renamed(mut lib: Lib, naming: u8) -> Lib {
    if naming == 0 {
        return lib;
    }
    let mut names: BTreeMap<String, String> = BTreeMap::new();
    let n = lib.courses.len();
    for (ci, c) in lib.courses.iter().enumerate() {
        let course = if naming == 1 {
            format!("k{}", n - ci)
        } else {
            format!("ü{}", "a".repeat(ci))
        };
        names.insert(c.id.clone(), course.clone());
        for (li, l) in c.lessons.iter().enumerate() {
            let back = c.lessons.len() - li;
            let lesson = if naming == 1 {
                format!("{back}.{}", n - ci)
            } else {
                format!("{course}_{}", "%".repeat(back))
            };
            names.insert(l.id.clone(), lesson.clone());
            for (ei, e) in l.exercises.iter().enumerate() {
                let back = l.exercises.len() - ei;
                let exercise = if naming == 1 {
                    format!("e{back}-{lesson}")
                } else {
                    format!("{lesson} {}", "x".repeat(back))
                };
                names.insert(e.id.clone(), exercise);
            }
        }
    }
    let rename = |id: &mut String| {
        if let Some(name) = names.get(id) {
            *id = name.clone();
        }
    };
    for c in &mut lib.courses {
        rename(&mut c.id);
        c.deps.iter_mut().for_each(rename);
        c.superseded.iter_mut().for_each(rename);
        c.encompassed.iter_mut().for_each(|(id, _)| rename(id));
        for l in &mut c.lessons {
            rename(&mut l.id);
            l.deps.iter_mut().for_each(rename);
            l.superseded.iter_mut().for_each(rename);
            l.encompassed.iter_mut().for_each(|(id, _)| rename(id));
            l.exercises.iter_mut().for_each(|e| rename(&mut e.id));
        }
    }
    lib
}

impl Exercise {
    pub fn manifest(&self, lesson_id: &str, course_id: &str) -> serde_json::Value {
        json!({
            "id": self.id,
            "lesson_id": lesson_id,
            "course_id": course_id,
            "name": format!("Exercise {}", self.id),
            "exercise_type": if self.declarative { "Declarative" } else { "Procedural" },
            "exercise_asset": {"BasicAsset": {"InlinedAsset": {"content": format!("do {}", self.id)}}},
        })
    }
}

impl Lesson {
    pub fn manifest(&self, course_id: &str) -> serde_json::Value {
        json!({
            "id": self.id,
            "course_id": course_id,
            "name": format!("Lesson {}", self.id),
            "dependencies": self.deps,
            "superseded": self.superseded,
            "encompassed": self.encompassed,
            "metadata": self.metadata,
        })
    }
}

impl Course {
    pub fn manifest(&self) -> serde_json::Value {
        json!({
            "id": self.id,
            "name": format!("Course {}", self.id),
            "dependencies": self.deps,
            "superseded": self.superseded,
            "encompassed": self.encompassed,
            "metadata": self.metadata,
        })
    }
}

pub fn write_json(path: &Path, value: &serde_json::Value) -> Res {
    fs::write(path, serde_json::to_string(value).harness("serialize")?).harness("write file")
}

impl Lib {
    /// Writes the library as manifest files under the root.
    pub fn write(&self, root: &Path) -> Res {
        fs::create_dir_all(root).harness("create the root")?;
        for (ci, c) in self.courses.iter().enumerate() {
            let cdir = root.join(format!("course{ci}"));
            fs::create_dir_all(&cdir).harness("create dir")?;
            write_json(&cdir.join("course_manifest.json"), &c.manifest())?;
            for (li, l) in c.lessons.iter().enumerate() {
                let ldir = cdir.join(format!("lesson{li}"));
                fs::create_dir_all(&ldir).harness("create dir")?;
                write_json(&ldir.join("lesson_manifest.json"), &l.manifest(&c.id))?;
                for (ei, e) in l.exercises.iter().enumerate() {
                    let edir = ldir.join(format!("exercise{ei}"));
                    fs::create_dir_all(&edir).harness("create dir")?;
                    write_json(
                        &edir.join("exercise_manifest.json"),
                        &e.manifest(&l.id, &c.id),
                    )?;
                }
            }
        }
        Ok(())
    }

    pub fn exercises(&self) -> impl Iterator<Item = (&Course, &Lesson, &Exercise)> {
        self.courses.iter().flat_map(|c| {
            c.lessons
                .iter()
                .flat_map(move |l| l.exercises.iter().map(move |e| (c, l, e)))
        })
    }

    pub fn lessons(&self) -> impl Iterator<Item = (&Course, &Lesson)> {
        self.courses
            .iter()
            .flat_map(|c| c.lessons.iter().map(move |l| (c, l)))
    }

    pub fn exercise_ids(&self) -> Vec<String> {
        self.exercises().map(|(_, _, e)| e.id.clone()).collect()
    }

    pub fn num_exercises(&self) -> usize {
        self.exercises().count()
    }

    /// All the IDs of the units in the library.
    pub fn unit_ids(&self) -> Vec<String> {
        let mut ids = vec![];
        for c in &self.courses {
            ids.push(c.id.clone());
            for l in &c.lessons {
                ids.push(l.id.clone());
                ids.extend(l.exercises.iter().map(|e| e.id.clone()));
            }
        }
        ids
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Course,
    Lesson,
    Exercise,
}

/// Lookup tables over a library.
pub struct Index<'a> {
    pub lib: &'a Lib,
    pub courses: BTreeMap<&'a str, &'a Course>,
    pub lessons: BTreeMap<&'a str, (&'a Course, &'a Lesson)>,
    pub exercises: BTreeMap<&'a str, (&'a Course, &'a Lesson, &'a Exercise)>,
    /// The units that supersede each unit.
    pub superseded_by: BTreeMap<&'a str, BTreeSet<&'a str>>,
}

impl<'a> Index<'a> {
    pub fn new(lib: &'a Lib) -> Self {
        let mut idx = Index {
            lib,
            courses: BTreeMap::new(),
            lessons: BTreeMap::new(),
            exercises: BTreeMap::new(),
            superseded_by: BTreeMap::new(),
        };
        for c in &lib.courses {
            idx.courses.insert(&c.id, c);
            for s in &c.superseded {
                idx.superseded_by.entry(s).or_default().insert(&c.id);
            }
            for l in &c.lessons {
                idx.lessons.insert(&l.id, (c, l));
                for s in &l.superseded {
                    idx.superseded_by.entry(s).or_default().insert(&l.id);
                }
                for e in &l.exercises {
                    idx.exercises.insert(&e.id, (c, l, e));
                }
            }
        }
        idx
    }

    pub fn kind(&self, id: &str) -> Option<Kind> {
        if self.courses.contains_key(id) {
            Some(Kind::Course)
        } else if self.lessons.contains_key(id) {
            Some(Kind::Lesson)
        } else if self.exercises.contains_key(id) {
            Some(Kind::Exercise)
        } else {
            None
        }
    }

    pub fn deps(&self, id: &str) -> &'a [String] {
        if let Some(c) = self.courses.get(id) {
            &c.deps
        } else if let Some((_, l)) = self.lessons.get(id) {
            &l.deps
        } else {
            &[]
        }
    }

    /// The exercises inside the unit, or the exercise itself.
    pub fn exercises_in(&self, id: &str) -> Vec<&'a str> {
        match self.kind(id) {
            Some(Kind::Course) => self.courses[id]
                .lessons
                .iter()
                .flat_map(|l| l.exercises.iter().map(|e| e.id.as_str()))
                .collect(),
            Some(Kind::Lesson) => self.lessons[id]
                .1
                .exercises
                .iter()
                .map(|e| e.id.as_str())
                .collect(),
            Some(Kind::Exercise) => vec![self.exercises[id].2.id.as_str()],
            None => vec![],
        }
    }
}

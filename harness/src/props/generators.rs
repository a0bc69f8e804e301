//! The generated courses: what is written on disk against the units that appear in the library.

use proptest::{collection::vec, prelude::*};
use serde::{Deserialize, Serialize};
use serde_json::{Value, json};
use std::{
    collections::{BTreeMap, BTreeSet},
    fs,
    os::unix::ffi::OsStrExt,
    path::{Path, PathBuf},
};
use trane::{
    Trane,
    course_library::CourseLibrary,
    data::{
        BasicAsset, ExerciseAsset, ExerciseManifest, ExerciseType, LessonManifest, UnitType,
        course_generator::{literacy::LiteracyLessonType, transcription::TranscriptionLink},
    },
    graph::UnitGraph,
    scheduler::ExerciseScheduler,
};

use crate::{
    check,
    engine::{OrHarness, OrViolation, Prop, Res, Stats},
    library::write_json,
    world::{open, tempdir, u},
};

/// The units that a library must consist of.
#[derive(Default)]
pub(super) struct Expected {
    pub(super) courses: BTreeMap<String, Value>,
    lessons: BTreeMap<String, Value>,
    exercises: BTreeMap<String, Value>,
}

/// Orders the lists that have no order of their own.
fn normal(mut v: Value) -> Value {
    let sort = |v: &mut Value| {
        if let Value::Array(a) = v {
            a.sort_by_key(|x| x.to_string());
        }
    };
    for key in ["dependencies", "superseded", "encompassed"] {
        if let Some(list) = v.get_mut(key) {
            sort(list);
        }
    }
    if let Some(Value::Object(m)) = v.get_mut("metadata") {
        for list in m.values_mut() {
            sort(list);
        }
    }
    v
}

pub(super) fn value<T: Serialize>(t: &T) -> Res<Value> {
    serde_json::to_value(t).harness("serialize").map(normal)
}

impl Expected {
    pub(super) fn lesson(&mut self, l: &LessonManifest) -> Res {
        self.lessons.insert(l.id.to_string(), value(l)?);
        Ok(())
    }
    pub(super) fn exercise(&mut self, e: &ExerciseManifest) -> Res {
        self.exercises.insert(e.id.to_string(), value(e)?);
        Ok(())
    }

    pub(super) fn compare(&self, t: &Trane) -> Res {
        let set = |v: Vec<ustr::Ustr>| v.iter().map(ToString::to_string).collect::<Vec<_>>();
        let keys = |m: &BTreeMap<String, Value>| m.keys().cloned().collect::<Vec<_>>();
        let mut lessons = vec![];
        let mut courses = set(t.get_course_ids());
        courses.sort();
        check!(
            courses == keys(&self.courses),
            "wrong-units",
            "the courses are {courses:?}, expected {:?}",
            keys(&self.courses)
        );
        for (id, want) in &self.courses {
            let got = t
                .get_course_manifest(u(id))
                .ok_or("none")
                .must("wrong-units", "getting the manifest of a course")?;
            let got = value(&*got)?;
            check!(
                got == *want,
                "wrong-course",
                "the course {id} is {got}, expected {want}"
            );
            lessons.extend(set(t.get_lesson_ids(u(id)).unwrap_or_default()));
        }
        lessons.sort();
        check!(
            lessons == keys(&self.lessons),
            "wrong-units",
            "the lessons are {lessons:?}, expected {:?}",
            keys(&self.lessons)
        );
        let mut exercises = vec![];
        for (id, want) in &self.lessons {
            let got = t
                .get_lesson_manifest(u(id))
                .ok_or("none")
                .must("wrong-units", "getting the manifest of a lesson")?;
            let got = value(&*got)?;
            check!(
                got == *want,
                "wrong-lesson",
                "the lesson {id} is {got}, expected {want}"
            );
            exercises.extend(set(t.get_exercise_ids(u(id)).unwrap_or_default()));
            let ids = |v: &Value| {
                v.as_array()
                    .into_iter()
                    .flatten()
                    .filter_map(|x| x.as_str().map(ToString::to_string))
                    .collect::<BTreeSet<_>>()
            };
            let deps: BTreeSet<String> = t
                .get_dependencies(u(id))
                .iter()
                .flat_map(|s| s.iter().map(ToString::to_string))
                .collect();
            check!(
                deps == ids(&want["dependencies"]),
                "wrong-dependencies",
                "{id} depends on {deps:?}, expected {}",
                want["dependencies"]
            );
            check!(
                t.get_unit_type(u(id)) == Some(UnitType::Lesson),
                "wrong-units",
                "{id} is not a lesson"
            );
        }
        exercises.sort();
        check!(
            exercises == keys(&self.exercises),
            "wrong-units",
            "the exercises are {exercises:?}, expected {:?}",
            keys(&self.exercises)
        );
        for (id, want) in &self.exercises {
            let got = t
                .get_exercise_manifest(u(id))
                .ok_or("none")
                .must("wrong-units", "getting the manifest of an exercise")?;
            let got = value(&*got)?;
            check!(
                got == *want,
                "wrong-exercise",
                "the exercise {id} is {got}, expected {want}"
            );
        }
        let batch = t
            .get_exercise_batch(None)
            .must("batch-error", "requesting a batch")?;
        check!(
            batch.is_empty() == self.exercises.is_empty(),
            "batch",
            "a batch has {} of {} exercises",
            batch.len(),
            self.exercises.len()
        );
        Ok(())
    }
}

/// Writes the manifest of a course. Returns the manifest as it must appear in the library.
fn write_course(dir: &Path, manifest: &Value) -> Res<Value> {
    fs::create_dir_all(dir).harness("create dir")?;
    write_json(&dir.join("course_manifest.json"), manifest)?;
    let m: trane::data::CourseManifest =
        serde_json::from_value(manifest.clone()).harness("course manifest")?;
    value(&m)
}

pub(super) fn put(path: &Path, text: &str) -> Res {
    fs::write(path, text).harness("write file")
}

/// Texts that appear in names, descriptions and contents.
pub(super) fn text() -> BoxedStrategy<String> {
    prop_oneof![
        3 => "[a-zA-Z]{1,8}",
        1 => Just(String::new()),
        1 => Just("{} {0} %s \"quoted\" 'x'".to_string()),
        1 => Just("línea 1\n\n  línea 2\t音\n".to_string()),
        1 => Just(" spaces ".to_string()),
    ]
    .boxed()
}

/// Keys that the generators of courses use as well.
const GENERATED_KEYS: &[&str] = &[
    "transcription_artist",
    "transcription_album",
    "transcription_course",
    "transcription_lesson",
    "literacy_course",
    "literacy_lesson",
];

pub(super) fn metadata() -> BoxedStrategy<Option<BTreeMap<String, Vec<String>>>> {
    prop::option::of(prop::collection::btree_map(
        prop_oneof![
            4 => "[a-c]",
            1 => prop::sample::select(GENERATED_KEYS).prop_map(str::to_string),
        ],
        vec("[x-z]", 0..3),
        0..3,
    ))
    .boxed()
}

/// A unit named in a list: an earlier lesson by its short or full ID, or another unit.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Ref {
    Short(u8),
    Full(u8),
    Other(u8),
}

fn refs() -> BoxedStrategy<Vec<Ref>> {
    vec(
        prop_oneof![
            3 => any::<u8>().prop_map(Ref::Short),
            1 => any::<u8>().prop_map(Ref::Full),
            1 => (0u8..3).prop_map(Ref::Other),
        ],
        0..3,
    )
    .boxed()
}

pub(super) const WEIGHTS: [f32; 4] = [1.0, 0.5, 0.0, 0.8];

/// A reference as it is written, and the earlier lesson it means.
fn decode_ref(
    r: Ref,
    i: usize,
    shorts: &[String],
    full: impl Fn(&str) -> String,
) -> (String, Option<usize>) {
    match r {
        Ref::Short(n) if i > 0 => {
            let j = n as usize % i;
            (shorts[j].clone(), Some(j))
        }
        Ref::Full(n) if i > 0 => (full(&shorts[n as usize % i]), None),
        Ref::Short(n) | Ref::Full(n) | Ref::Other(n) => (format!("other::unit{}", n % 3), None),
    }
}

/// Drops the references that mean the same unit as an earlier one.
fn distinct<T: Clone>(
    list: &[T],
    key: impl Fn(&T) -> Ref,
    i: usize,
    shorts: &[String],
    full: impl Fn(&str) -> String + Copy,
) -> Vec<(T, String, Option<usize>)> {
    let mut seen = BTreeSet::new();
    list.iter()
        .filter_map(|r| {
            let (written, j) = decode_ref(key(r), i, shorts, full);
            let target = j.map_or(written.clone(), |j| full(&shorts[j]));
            seen.insert(target).then(|| (r.clone(), written, j))
        })
        .collect()
}

const SHORTS: [&str; 13] = [
    "l0",
    "l1",
    "l2",
    "a.b",
    "two words",
    "ünïcode",
    "lesson",
    "l1::sub",
    "10",
    "1",
    ".hidden",
    "L0",
    "kb::course",
];

/// Distinct short IDs.
pub(super) fn shorts(names: &[u8]) -> Vec<String> {
    let mut used = BTreeSet::new();
    names
        .iter()
        .enumerate()
        .map(|(i, n)| {
            let s = SHORTS[*n as usize % SHORTS.len()];
            if used.insert(s) {
                s.to_string()
            } else {
                format!("s{i}")
            }
        })
        .collect()
}

/// Ways in which a JSON file can be broken.
const BROKEN: [&str; 5] = ["", "{", "[\"a\", ", "{\"x\": [[1]]}", "12.5"];

/// Overwrites one of the files, and checks that the library does not open with it and opens again
/// once it is repaired.
fn check_broken(
    root: &Path,
    files: &[PathBuf],
    broken: Option<(u16, u8)>,
    stats: &mut Stats,
) -> Res {
    let Some((n, how)) = broken else {
        return Ok(());
    };
    if files.is_empty() {
        return Ok(());
    }
    let path = &files[n as usize % files.len()];
    let before = fs::read(path).harness("read file")?;
    put(path, BROKEN[how as usize % BROKEN.len()])?;
    check!(
        open(root).is_err(),
        "broken-accepted",
        "the library opens although {} is {:?}",
        path.display(),
        BROKEN[how as usize % BROKEN.len()]
    );
    fs::write(path, before).harness("write file")?;
    open(root).must("open", "opening the repaired library")?;
    stats.hit("broken_files");
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C22: knowledge base courses.

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct KbExercise {
    pub front: Option<String>,
    pub back: Option<String>,
    pub name: Option<String>,
    pub description: Option<String>,
    pub declarative: Option<bool>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct KbLesson {
    pub short: u8,
    pub deps: Vec<Ref>,
    pub superseded: Vec<Ref>,
    pub encompassed: Vec<(Ref, u8)>,
    pub name: Option<String>,
    pub description: Option<String>,
    pub metadata: Option<BTreeMap<String, Vec<String>>>,
    pub declarative: Option<bool>,
    pub instructions: Option<String>,
    pub material: Option<String>,
    pub exercises: Vec<KbExercise>,
    /// Which files that have no meaning lie around.
    pub decoys: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct KbCase {
    pub inlined: bool,
    pub lessons: Vec<KbLesson>,
    pub course_metadata: Option<BTreeMap<String, Vec<String>>>,
    /// A lesson with its own manifest in the same course.
    pub regular: bool,
    pub decoys: u8,
    pub broken: Option<(u16, u8)>,
}

pub(super) fn exercise_type(declarative: bool) -> ExerciseType {
    if declarative {
        ExerciseType::Declarative
    } else {
        ExerciseType::Procedural
    }
}

pub(super) const EXERCISE_SHORTS: [&str; 8] = [
    "e0", "a.front", "x y", "é", "lesson.x", "b.name", "E0", "::",
];

pub struct C22;
impl Prop for C22 {
    type Case = KbCase;
    fn id(&self) -> &'static str {
        "C22"
    }
    fn rule(&self) -> &'static str {
        "the course has at least two lessons with exercises and one refers to another by its short ID"
    }
    fn quick_cases(&self) -> usize {
        8000
    }
    fn strategy(&self, thorough: bool) -> BoxedStrategy<KbCase> {
        let opt = || prop::option::of(text());
        let exercise = (
            prop::option::weighted(0.85, text()),
            opt(),
            opt(),
            opt(),
            prop::option::of(any::<bool>()),
        )
            .prop_map(|(front, back, name, description, declarative)| KbExercise {
                front,
                back,
                name,
                description,
                declarative,
            });
        let lesson = (
            (any::<u8>(), refs(), refs(), refs(), vec(any::<u8>(), 3)),
            (opt(), opt(), metadata(), prop::option::of(any::<bool>())),
            (opt(), opt(), vec(exercise, 0..4), any::<u8>()),
        )
            .prop_map(
                |(
                    (short, deps, superseded, encompassed, weights),
                    (name, description, metadata, declarative),
                    (instructions, material, exercises, decoys),
                )| KbLesson {
                    short,
                    deps,
                    superseded,
                    encompassed: encompassed.into_iter().zip(weights).collect(),
                    name,
                    description,
                    metadata,
                    declarative,
                    instructions,
                    material,
                    exercises,
                    decoys,
                },
            );
        (
            any::<bool>(),
            vec(lesson, 0..if thorough { 10 } else { 5 }),
            metadata(),
            any::<bool>(),
            any::<u8>(),
            prop::option::weighted(0.3, (any::<u16>(), any::<u8>())),
        )
            .prop_map(
                |(inlined, lessons, course_metadata, regular, decoys, broken)| KbCase {
                    inlined,
                    lessons,
                    course_metadata,
                    regular,
                    decoys,
                    broken,
                },
            )
            .boxed()
    }
    fn check(&self, case: &KbCase, stats: &mut Stats) -> Res {
        let tmp = tempdir()?;
        let root = tmp.path().canonicalize().harness("canonicalize")?;
        let dir = root.join("kb");
        let mut want = Expected::default();
        let config = if case.inlined || case.decoys & 1 == 0 {
            json!({"KnowledgeBase": {"inlined": case.inlined}})
        } else {
            json!({"KnowledgeBase": {}})
        };
        let course = write_course(
            &dir,
            &json!({
                "id": "kb::course", "name": "Knowledge", "metadata": case.course_metadata,
                "generator_config": config,
            }),
        )?;
        want.courses.insert("kb::course".into(), course);
        let shorts = shorts(&case.lessons.iter().map(|l| l.short).collect::<Vec<_>>());
        let full = |s: &str| format!("kb::course::{s}");
        let mut json_files = vec![];
        let (mut with_exercises, mut by_short) = (0, false);
        for (i, l) in case.lessons.iter().enumerate() {
            let ldir = dir.join(format!("{}.lesson", shorts[i]));
            fs::create_dir_all(&ldir).harness("create dir")?;
            let lesson_id = full(&shorts[i]);
            let resolve = |(_, written, j): &(Ref, String, Option<usize>)| {
                u(&j.map_or(written.clone(), |j| full(&shorts[j])))
            };
            let deps = distinct(&l.deps, |r| *r, i, &shorts, full);
            let superseded = distinct(&l.superseded, |r| *r, i, &shorts, full);
            let encompassed = distinct(&l.encompassed, |r| r.0, i, &shorts, full);
            by_short |= deps.iter().any(|d| d.2.is_some());
            let mut file = |name: &str, v: Value| -> Res {
                let path = ldir.join(name);
                write_json(&path, &v)?;
                json_files.push(path);
                Ok(())
            };
            let written = |v: &[(Ref, String, Option<usize>)]| {
                json!(v.iter().map(|x| x.1.clone()).collect::<Vec<_>>())
            };
            if !deps.is_empty() || l.decoys & 1 == 0 {
                file("lesson.dependencies.json", written(&deps))?;
            }
            if !superseded.is_empty() {
                file("lesson.superseded.json", written(&superseded))?;
            }
            if !encompassed.is_empty() {
                file(
                    "lesson.encompassed.json",
                    json!(
                        encompassed
                            .iter()
                            .map(|((_, w), id, _)| json!([id, WEIGHTS[*w as usize % 4]]))
                            .collect::<Vec<_>>()
                    ),
                )?;
            }
            for (name, v) in [
                ("lesson.name.json", json!(l.name)),
                ("lesson.description.json", json!(l.description)),
                ("lesson.metadata.json", json!(l.metadata)),
                (
                    "lesson.default_exercise_type.json",
                    json!(l.declarative.map(exercise_type)),
                ),
            ] {
                if v != Value::Null {
                    file(name, v)?;
                }
            }
            let asset = |name: &str, content: &Option<String>| -> Res<Option<BasicAsset>> {
                let Some(content) = content else {
                    return Ok(None);
                };
                put(&ldir.join(name), content)?;
                Ok(Some(BasicAsset::MarkdownAsset {
                    path: ldir.join(name).display().to_string(),
                }))
            };
            let lesson_instructions = asset("lesson.instructions.md", &l.instructions)?;
            let lesson_material = asset("lesson.material.md", &l.material)?;
            want.lesson(&LessonManifest {
                id: u(&lesson_id),
                course_id: u("kb::course"),
                name: l.name.clone().unwrap_or(format!("Lesson {}", shorts[i])),
                description: l.description.clone(),
                dependencies: deps.iter().map(resolve).collect(),
                superseded: superseded.iter().map(resolve).collect(),
                encompassed: encompassed
                    .iter()
                    .map(|((r, w), s, j)| (resolve(&(*r, s.clone(), *j)), WEIGHTS[*w as usize % 4]))
                    .collect(),
                metadata: l.metadata.clone(),
                lesson_instructions,
                lesson_material,
            })?;
            let mut any_exercise = false;
            for (k, e) in l.exercises.iter().enumerate() {
                let short = EXERCISE_SHORTS[(k + l.short as usize) % EXERCISE_SHORTS.len()];
                let front = ldir.join(format!("{short}.front.md"));
                let back = ldir.join(format!("{short}.back.md"));
                if let Some(c) = &e.front {
                    put(&front, c)?;
                }
                if let Some(c) = &e.back {
                    put(&back, c)?;
                }
                for (suffix, v) in [
                    ("name", json!(e.name)),
                    ("description", json!(e.description)),
                    ("type", json!(e.declarative.map(exercise_type))),
                ] {
                    if v != Value::Null {
                        let path = ldir.join(format!("{short}.{suffix}.json"));
                        write_json(&path, &v)?;
                        if e.front.is_some() {
                            json_files.push(path);
                        }
                    }
                }
                let Some(front_content) = &e.front else {
                    stats.hit("exercises_without_front");
                    continue;
                };
                any_exercise = true;
                want.exercise(&ExerciseManifest {
                    id: u(&format!("{lesson_id}::{short}")),
                    lesson_id: u(&lesson_id),
                    course_id: u("kb::course"),
                    name: e.name.clone().unwrap_or(format!("Exercise {short}")),
                    description: e.description.clone(),
                    exercise_type: exercise_type(e.declarative.or(l.declarative).unwrap_or(false)),
                    exercise_asset: if case.inlined {
                        ExerciseAsset::InlineFlashcardAsset {
                            front_content: front_content.clone(),
                            back_content: e.back.clone(),
                        }
                    } else {
                        ExerciseAsset::FlashcardAsset {
                            front_path: front.display().to_string(),
                            back_path: e.back.as_ref().map(|_| back.display().to_string()),
                        }
                    },
                })?;
            }
            with_exercises += usize::from(any_exercise);
            // Files that mean nothing.
            if l.decoys & 2 != 0 {
                put(&ldir.join("README.md"), "no")?;
                put(&ldir.join("e9.front.txt"), "no")?;
                put(&ldir.join("e8.front.md.bak"), "no")?;
                put(&ldir.join(".front.md"), "no")?;
                put(&ldir.join(".back.md"), "no")?;
                put(&ldir.join("lesson.other.json"), "{")?;
            }
            if l.decoys & 4 != 0 {
                fs::create_dir_all(ldir.join("sub")).harness("create dir")?;
                put(&ldir.join("sub/e7.front.md"), "no")?;
            }
        }
        if case.decoys & 2 != 0 {
            fs::create_dir_all(dir.join("not_a_lesson")).harness("create dir")?;
            put(&dir.join("not_a_lesson/e0.front.md"), "no")?;
            put(&dir.join("file.lesson"), "no")?;
            put(&dir.join("e0.front.md"), "no")?;
            fs::create_dir_all(dir.join("x.lesson.d")).harness("create dir")?;
            put(&dir.join("x.lesson.d/e0.front.md"), "no")?;
        }
        if case.decoys & 12 == 12 {
            // A directory whose name is not text.
            let name = std::ffi::OsStr::from_bytes(b"\xff\xfe.lesson");
            fs::create_dir_all(dir.join(name)).harness("create dir")?;
            stats.hit("names_that_are_not_text");
        }
        if case.regular {
            let ldir = dir.join("regular");
            fs::create_dir_all(ldir.join("ex")).harness("create dir")?;
            let l = json!({"id": "kb::regular", "course_id": "kb::course", "name": "Regular"});
            write_json(&ldir.join("lesson_manifest.json"), &l)?;
            let e = json!({
                "id": "kb::regular::e", "lesson_id": "kb::regular", "course_id": "kb::course",
                "name": "E", "exercise_asset": {"BasicAsset": {"InlinedAsset": {"content": "x"}}},
            });
            write_json(&ldir.join("ex/exercise_manifest.json"), &e)?;
            want.lesson(&serde_json::from_value(l).harness("manifest")?)?;
            want.exercise(&serde_json::from_value(e).harness("manifest")?)?;
        }
        let trane = open(&root).must("open", "opening a knowledge base course")?;
        want.compare(&trane)?;
        drop(trane);
        stats.add("exercises", want.exercises.len() as u64);
        stats.hit_if(case.inlined, "inlined");
        check_broken(&root, &json_files, case.broken, stats)?;
        if with_exercises >= 2 && by_short {
            stats.mark_nontrivial();
        }
        Ok(())
    }
}

// ---------------------------------------------------------------------------------------------
// C24: literacy courses.

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct LitLesson {
    pub short: u8,
    pub deps: Vec<Ref>,
    pub superseded: Vec<Ref>,
    pub encompassed: Vec<(Ref, u8)>,
    pub name: Option<String>,
    pub description: Option<String>,
    pub instructions: Option<String>,
    /// Examples and exceptions in their own files, with answers.
    pub own: [Vec<(Option<String>, Option<String>)>; 2],
    /// One per line.
    pub lines: [Option<Vec<String>>; 2],
    /// In YAML files.
    pub yaml: [Option<Vec<(String, Option<String>)>>; 2],
    pub decoys: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct LitCase {
    pub dictation: Option<bool>,
    pub name: Option<String>,
    pub lessons: Vec<LitLesson>,
    pub metadata: Option<BTreeMap<String, Vec<String>>>,
    pub instructions: Option<String>,
    pub manifest_instructions: bool,
    pub decoys: u8,
    pub broken: Option<(u16, u8)>,
}

pub struct C24;
impl Prop for C24 {
    type Case = LitCase;
    fn id(&self) -> &'static str {
        "C24"
    }
    fn rule(&self) -> &'static str {
        "a lesson refers to another one by its short ID and some lesson has examples from two sources"
    }
    fn quick_cases(&self) -> usize {
        8000
    }
    fn strategy(&self, thorough: bool) -> BoxedStrategy<LitCase> {
        let opt = || prop::option::of(text());
        let own = || vec((prop::option::weighted(0.85, text()), opt()), 0..3);
        let lines = || prop::option::of(vec(text(), 0..4));
        let yaml = || prop::option::of(vec((text(), opt()), 0..4));
        let lesson = (
            (any::<u8>(), refs(), refs(), refs(), vec(any::<u8>(), 3)),
            (opt(), opt(), opt(), any::<u8>()),
            (own(), own(), lines(), lines(), yaml(), yaml()),
        )
            .prop_map(
                |(
                    (short, deps, superseded, encompassed, weights),
                    (name, description, instructions, decoys),
                    (o1, o2, l1, l2, y1, y2),
                )| LitLesson {
                    short,
                    deps,
                    superseded,
                    encompassed: encompassed.into_iter().zip(weights).collect(),
                    name,
                    description,
                    instructions,
                    own: [o1, o2],
                    lines: [l1, l2],
                    yaml: [y1, y2],
                    decoys,
                },
            );
        (
            prop::option::weighted(0.8, any::<bool>()),
            opt(),
            vec(lesson, 0..if thorough { 10 } else { 5 }),
            metadata(),
            opt(),
            any::<bool>(),
            any::<u8>(),
            prop::option::weighted(0.3, (any::<u16>(), any::<u8>())),
        )
            .prop_map(
                |(
                    dictation,
                    name,
                    lessons,
                    metadata,
                    instructions,
                    manifest_instructions,
                    decoys,
                    broken,
                )| LitCase {
                    dictation,
                    name,
                    lessons,
                    metadata,
                    instructions,
                    manifest_instructions,
                    decoys,
                    broken,
                },
            )
            .boxed()
    }
    fn check(&self, case: &LitCase, stats: &mut Stats) -> Res {
        let tmp = tempdir()?;
        let root = tmp.path().canonicalize().harness("canonicalize")?;
        let dir = root.join("literacy");
        let id = "lit::course";
        let mut want = Expected::default();
        let mut manifest = json!({
            "id": id, "metadata": case.metadata,
            "generator_config": {"Literacy": {}},
        });
        if let Some(d) = case.dictation {
            manifest["generator_config"]["Literacy"]["generate_dictation"] = json!(d);
        }
        if let Some(n) = &case.name {
            manifest["name"] = json!(n);
        }
        if case.manifest_instructions {
            manifest["course_instructions"] =
                json!({"InlinedAsset": {"content": "from the manifest"}});
        }
        let mut course = write_course(&dir, &manifest)?;
        let mut metadata = case.metadata.clone().unwrap_or_default();
        metadata.insert("literacy_course".into(), vec!["true".into()]);
        course["metadata"] = json!(metadata);
        if let Some(text) = &case.instructions {
            put(&dir.join("course.instructions.md"), text)?;
            course["course_instructions"] = json!({"InlinedAsset": {"content": text}});
        }
        want.courses.insert(id.into(), normal(course));
        let course_name = match &case.name {
            Some(n) if !n.is_empty() => n.clone(),
            _ => id.to_string(),
        };
        let dictation = case.dictation.unwrap_or(false);

        let shorts = shorts(&case.lessons.iter().map(|l| l.short).collect::<Vec<_>>());
        let reading = |s: &str| format!("{id}::{s}::reading");
        let mut json_files = vec![];
        let (mut by_short, mut sources) = (false, false);
        for (i, l) in case.lessons.iter().enumerate() {
            let ldir = dir.join(format!("{}.lesson", shorts[i]));
            fs::create_dir_all(&ldir).harness("create dir")?;
            let deps = distinct(&l.deps, |r| *r, i, &shorts, reading);
            let superseded = distinct(&l.superseded, |r| *r, i, &shorts, reading);
            let encompassed = distinct(&l.encompassed, |r| r.0, i, &shorts, reading);
            by_short |= deps.iter().any(|d| d.2.is_some());
            let mut file = |name: &str, v: Value| -> Res {
                let path = ldir.join(name);
                write_json(&path, &v)?;
                json_files.push(path);
                Ok(())
            };
            let written = |v: &[(Ref, String, Option<usize>)]| {
                json!(v.iter().map(|x| x.1.clone()).collect::<Vec<_>>())
            };
            if !deps.is_empty() {
                file("lesson.dependencies.json", written(&deps))?;
            }
            if !superseded.is_empty() {
                file("lesson.superseded.json", written(&superseded))?;
            }
            if !encompassed.is_empty() {
                file(
                    "lesson.encompassed.json",
                    json!(
                        encompassed
                            .iter()
                            .map(|((_, w), id, _)| json!([id, WEIGHTS[*w as usize % 4]]))
                            .collect::<Vec<_>>()
                    ),
                )?;
            }
            if let Some(n) = &l.name {
                file("lesson.name.json", json!(n))?;
            }
            if let Some(d) = &l.description {
                file("lesson.description.json", json!(d))?;
            }
            if let Some(t) = &l.instructions {
                put(&ldir.join("lesson.instructions.md"), t)?;
            }
            if l.decoys & 1 != 0 {
                put(&ldir.join("README.md"), "no")?;
                put(&ldir.join("e9.example.txt"), "no")?;
                put(&ldir.join("lesson.other.json"), "{")?;
            }
            // The examples and exceptions.
            let mut contents: [Vec<(String, Option<String>)>; 2] = [vec![], vec![]];
            for k in 0..2 {
                let (item, answer) = [("example", "answer"), ("exception", "exception_answer")][k];
                for (n, (c, a)) in l.own[k].iter().enumerate() {
                    let short = ["", "x", "a.b", "x.example"][(n + l.short as usize) % 4];
                    if let Some(c) = c {
                        put(&ldir.join(format!("{short}.{item}.md")), c)?;
                    }
                    if let Some(a) = a {
                        put(&ldir.join(format!("{short}.{answer}.md")), a)?;
                    }
                    if let Some(c) = c {
                        contents[k].push((c.clone(), a.clone()));
                    }
                }
                if let Some(lines) = &l.lines[k] {
                    put(
                        &ldir.join(format!("simple_{item}s.md")),
                        &lines.join(if l.decoys & 2 == 0 { "\n" } else { "\r\n" }),
                    )?;
                    contents[k].extend(
                        lines
                            .iter()
                            .flat_map(|l| l.split('\n'))
                            .map(str::trim)
                            .filter(|l| !l.is_empty())
                            .map(|l| (l.to_string(), None)),
                    );
                }
                if let Some(entries) = &l.yaml[k] {
                    let mut yaml = String::new();
                    for (c, a) in entries {
                        yaml += &format!("- {item}: {}\n", json!(c));
                        if let Some(a) = a {
                            yaml += &format!("  answer: {}\n", json!(a));
                        }
                    }
                    if entries.is_empty() {
                        yaml = "[]\n".into();
                    }
                    put(
                        &ldir.join(format!("simple_{item}s_with_answers.yaml")),
                        &yaml,
                    )?;
                    contents[k].extend(entries.iter().cloned());
                }
                let n = usize::from(l.own[k].iter().any(|(c, _)| c.is_some()))
                    + usize::from(l.lines[k].iter().any(|v| !v.is_empty()))
                    + usize::from(l.yaml[k].iter().any(|v| !v.is_empty()));
                sources |= n >= 2;
                contents[k].sort();
            }
            for kind in ["reading", "dictation"] {
                if kind == "dictation" && !dictation {
                    continue;
                }
                let target = |written: &str, j: &Option<usize>| {
                    u(&j.map_or(written.to_string(), |j| {
                        format!("{id}::{}::{kind}", shorts[j])
                    }))
                };
                let lesson_id = format!("{id}::{}::{kind}", shorts[i]);
                let title = if kind == "reading" {
                    "Reading"
                } else {
                    "Dictation"
                };
                let name = format!(
                    "{course_name} - {} - {title}",
                    l.name.clone().unwrap_or(shorts[i].clone())
                );
                let mut dependencies: Vec<ustr::Ustr> = deps
                    .iter()
                    .filter(|d| kind == "reading" || d.2.is_some())
                    .map(|(_, w, j)| target(w, j))
                    .collect();
                if kind == "dictation" {
                    dependencies.push(u(&reading(&shorts[i])));
                }
                want.lesson(&LessonManifest {
                    id: u(&lesson_id),
                    course_id: u(id),
                    name: name.clone(),
                    description: l.description.clone(),
                    dependencies,
                    superseded: superseded.iter().map(|(_, w, j)| target(w, j)).collect(),
                    encompassed: encompassed
                        .iter()
                        .map(|((_, x), w, j)| (target(w, j), WEIGHTS[*x as usize % 4]))
                        .collect(),
                    metadata: Some(BTreeMap::from([(
                        "literacy_lesson".to_string(),
                        vec![kind.to_string()],
                    )])),
                    lesson_instructions: l
                        .instructions
                        .clone()
                        .map(|content| BasicAsset::InlinedAsset { content }),
                    lesson_material: None,
                })?;
                want.exercise(&ExerciseManifest {
                    id: u(&format!("{lesson_id}::exercise")),
                    lesson_id: u(&lesson_id),
                    course_id: u(id),
                    name,
                    description: l.description.clone(),
                    exercise_type: ExerciseType::Procedural,
                    exercise_asset: ExerciseAsset::LiteracyAsset {
                        lesson_type: if kind == "reading" {
                            LiteracyLessonType::Reading
                        } else {
                            LiteracyLessonType::Dictation
                        },
                        examples: contents[0].clone(),
                        exceptions: contents[1].clone(),
                    },
                })?;
            }
        }
        if case.decoys & 2 != 0 {
            fs::create_dir_all(dir.join("not_a_lesson")).harness("create dir")?;
            put(&dir.join("not_a_lesson/x.example.md"), "no")?;
            put(&dir.join("file.lesson"), "no")?;
            fs::create_dir_all(dir.join(".lesson")).harness("create dir")?;
        }
        if case.decoys & 12 == 12 {
            let name = std::ffi::OsStr::from_bytes(b"\xff\xfe.lesson");
            fs::create_dir_all(dir.join(name)).harness("create dir")?;
            stats.hit("names_that_are_not_text");
        }
        let trane = open(&root).must("open", "opening a literacy course")?;
        want.compare(&trane)?;
        drop(trane);
        stats.hit_if(dictation, "with_dictation");
        stats.add("exercises", want.exercises.len() as u64);
        check_broken(&root, &json_files, case.broken, stats)?;
        if by_short && sources {
            stats.mark_nontrivial();
        }
        Ok(())
    }
}

// ---------------------------------------------------------------------------------------------
// C23: transcription courses.

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Passages {
    pub short: u8,
    pub track: String,
    pub artist: Option<String>,
    pub album: Option<String>,
    pub duration: Option<String>,
    pub link: Option<String>,
    pub intervals: BTreeMap<u8, (String, String)>,
    /// In the course manifest instead of the directory.
    pub inlined: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct TranscriptionCourse {
    pub deps: Vec<u8>,
    pub passages: Vec<Passages>,
    pub skip_singing: Option<bool>,
    pub skip_advanced: Option<bool>,
    pub metadata: Option<BTreeMap<String, Vec<String>>>,
    pub instructions: bool,
    pub use_directory: bool,
    pub decoys: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct TranscriptionCase {
    pub courses: Vec<TranscriptionCourse>,
    /// Instruments of the preferences. Nothing if there are no such preferences.
    pub instruments: Option<Vec<u8>>,
    pub distinct: bool,
}

const INSTRUMENTS: [(&str, &str); 4] = [
    ("piano", "Piano"),
    ("tenor_sax", "Tenor Saxophone"),
    ("guitar", "Guitar"),
    ("voice", "Voice {}"),
];

/// A word for names that appear in the text of an exercise.
fn word() -> BoxedStrategy<String> {
    prop_oneof![
        4 => "[a-zA-Z]{1,8}",
        1 => Just("{} {0}".to_string()),
        1 => Just("Año 9: \"x\" - y".to_string()),
    ]
    .boxed()
}

pub struct C23;
impl Prop for C23 {
    type Case = TranscriptionCase;
    fn id(&self) -> &'static str {
        "C23"
    }
    fn rule(&self) -> &'static str {
        "a course depends on another, has passages from the directory and from the manifest, and there is an instrument"
    }
    fn quick_cases(&self) -> usize {
        6000
    }
    fn strategy(&self, thorough: bool) -> BoxedStrategy<TranscriptionCase> {
        let opt = || prop::option::of(word());
        let passages = (
            any::<u8>(),
            word(),
            opt(),
            opt(),
            opt(),
            opt(),
            prop::collection::btree_map(0u8..20, (word(), word()), 0..4),
            any::<bool>(),
        )
            .prop_map(
                |(short, track, artist, album, duration, link, intervals, inlined)| Passages {
                    short,
                    track,
                    artist,
                    album,
                    duration,
                    link,
                    intervals,
                    inlined,
                },
            );
        let flag = || prop::option::of(any::<bool>());
        let course = (
            vec(any::<u8>(), 0..3),
            vec(passages, 0..5),
            flag(),
            flag(),
            metadata(),
            any::<bool>(),
            prop::bool::weighted(0.85),
            any::<u8>(),
        )
            .prop_map(
                |(
                    deps,
                    passages,
                    skip_singing,
                    skip_advanced,
                    metadata,
                    instructions,
                    use_directory,
                    decoys,
                )| TranscriptionCourse {
                    deps,
                    passages,
                    skip_singing,
                    skip_advanced,
                    metadata,
                    instructions,
                    use_directory,
                    decoys,
                },
            );
        (
            vec(course, 1..if thorough { 6 } else { 4 }),
            prop::option::weighted(
                0.85,
                prop_oneof![
                    6 => prop::sample::subsequence(vec![0u8, 1, 2, 3], 0..4),
                    1 => vec(0u8..4, 0..4),
                ],
            ),
            prop::bool::weighted(0.8),
        )
            .prop_map(|(courses, instruments, distinct)| TranscriptionCase {
                courses,
                instruments,
                distinct,
            })
            .boxed()
    }
    fn check(&self, case: &TranscriptionCase, stats: &mut Stats) -> Res {
        let tmp = tempdir()?;
        let root = tmp.path().canonicalize().harness("canonicalize")?;
        let mut want = Expected::default();
        let instruments: Vec<(&str, &str)> = case
            .instruments
            .iter()
            .flatten()
            .map(|i| INSTRUMENTS[*i as usize % 4])
            .collect();
        let preferences = case.instruments.as_ref().map(|_| {
            json!({"instruments": instruments.iter().map(|(id, name)| json!({"id": id, "name": name})).collect::<Vec<_>>()})
        });
        fs::create_dir_all(root.join(".trane")).harness("create dir")?;
        write_json(
            &root.join(".trane/user_preferences.json"),
            &json!({"transcription": preferences}),
        )?;
        // Whether the library must be rejected.
        let mut invalid = false;
        let mut seen_lessons = BTreeSet::new();
        let mut seen_exercises = BTreeSet::new();
        let mut nontrivial = false;
        // The texts of the exercises: the lines that must appear.
        let mut lines: BTreeMap<String, Vec<String>> = BTreeMap::new();
        let mut links: BTreeMap<String, Option<String>> = BTreeMap::new();
        for (i, c) in case.courses.iter().enumerate() {
            let id = format!("transcription::c{i}");
            let name = format!("Course {i}");
            let dir = root.join(format!("t{i}"));
            fs::create_dir_all(dir.join("passages/sub")).harness("create dir")?;
            let deps: BTreeSet<String> = c
                .deps
                .iter()
                .map(|d| match (*d as usize % 8, i) {
                    (7, _) | (_, 0) => "transcription::missing".to_string(),
                    (d, i) => format!("transcription::c{}", d % i),
                })
                .collect();
            let mut inlined = vec![];
            let mut directory_ids = BTreeSet::new();
            let mut used: Vec<(String, &Passages)> = vec![];
            for (k, p) in c.passages.iter().enumerate() {
                let short = if case.distinct {
                    format!("p{k}")
                } else {
                    format!("p{}", p.short % 6)
                };
                let mut track = json!({"short_id": short, "track_name": p.track});
                for (key, v) in [
                    ("artist_name", &p.artist),
                    ("album_name", &p.album),
                    ("duration", &p.duration),
                ] {
                    if let Some(v) = v {
                        track[key] = json!(v);
                    }
                }
                if let Some(l) = &p.link {
                    track["external_link"] = json!({"YouTube": l});
                }
                let mut v = json!({"asset": {"Track": track}});
                if !p.intervals.is_empty() || c.decoys & 1 == 0 {
                    v["intervals"] = json!(p.intervals);
                }
                if p.inlined {
                    inlined.push(v);
                } else {
                    let ext = if k % 3 == 2 { "JSON" } else { "json" };
                    write_json(&dir.join(format!("passages/file{k}.{ext}")), &v)?;
                    if !c.use_directory {
                        continue;
                    }
                    invalid |= !directory_ids.insert(short.clone());
                }
                used.push((short, p));
            }
            // Files that are not passages.
            put(&dir.join("passages/notes.txt"), "{")?;
            put(&dir.join("passages/sub/other.json"), "{")?;
            if c.decoys & 12 == 12 {
                let name = std::ffi::OsStr::from_bytes(b"passages/caf\xe9.txt");
                put(&dir.join(name), "{")?;
                stats.hit("names_that_are_not_text");
            }
            let mut config = json!({
                "transcription_dependencies": deps, "inlined_passages": inlined,
            });
            if c.use_directory {
                config["passage_directory"] = json!(if c.decoys & 2 == 0 {
                    "passages".to_string()
                } else {
                    dir.join("passages").display().to_string()
                });
            }
            if let Some(b) = c.skip_singing {
                config["skip_singing_lessons"] = json!(b);
            }
            if let Some(b) = c.skip_advanced {
                config["skip_advanced_lessons"] = json!(b);
            }
            let mut manifest = json!({
                "id": id, "name": name, "metadata": c.metadata,
                "generator_config": {"Transcription": config},
            });
            if c.instructions {
                manifest["course_instructions"] = json!({"InlinedAsset": {"content": "mine"}});
            }
            let mut course = write_course(&dir, &manifest)?;
            let mut metadata = c.metadata.clone().unwrap_or_default();
            metadata.insert("transcription_course".into(), vec!["true".into()]);
            for (key, get) in [
                (
                    "transcription_artist",
                    (|p: &Passages| p.artist.clone()) as fn(&Passages) -> Option<String>,
                ),
                ("transcription_album", |p: &Passages| p.album.clone()),
            ] {
                let all: Vec<String> = used.iter().filter_map(|(_, p)| get(p)).collect();
                if !all.is_empty() {
                    metadata.entry(key.to_string()).or_default().extend(all);
                }
            }
            course["metadata"] = json!(metadata);
            want.courses.insert(id.clone(), normal(course));
            nontrivial |= deps.iter().any(|d| d != "transcription::missing")
                && !instruments.is_empty()
                && used.iter().any(|(_, p)| p.inlined)
                && used.iter().any(|(_, p)| !p.inlined);

            // The lessons: ID, name, dependencies, superseded, metadata, instrument, exercises.
            let skip_singing = c.skip_singing.unwrap_or(false);
            let skip_advanced = c.skip_advanced.unwrap_or(false);
            type Spec<'a> = (
                String,
                String,
                Vec<String>,
                Vec<String>,
                &'a str,
                Option<(&'a str, &'a str)>,
                bool,
            );
            let mut lessons: Vec<Spec> = vec![(
                format!("{id}::singing"),
                format!("{name} - Singing"),
                deps.iter().map(|d| format!("{d}::singing")).collect(),
                vec![],
                "singing",
                None,
                !skip_singing,
            )];
            if !skip_advanced {
                lessons.push((
                    format!("{id}::advanced_singing"),
                    format!("{name} - Advanced Singing"),
                    vec![format!("{id}::singing")],
                    vec![format!("{id}::singing")],
                    "advanced_singing",
                    None,
                    !skip_singing,
                ));
            }
            for (iid, iname) in &instruments {
                let mut d: Vec<String> = deps
                    .iter()
                    .map(|d| format!("{d}::transcription::{iid}"))
                    .collect();
                d.push(format!("{id}::singing"));
                lessons.push((
                    format!("{id}::transcription::{iid}"),
                    format!("{name} - Transcription - {iname}"),
                    d,
                    vec![],
                    "transcription",
                    Some((iid, iname)),
                    true,
                ));
                if !skip_advanced {
                    lessons.push((
                        format!("{id}::advanced_transcription::{iid}"),
                        format!("{name} - Advanced Transcription - {iname}"),
                        vec![
                            format!("{id}::transcription::{iid}"),
                            format!("{id}::advanced_singing"),
                        ],
                        vec![format!("{id}::transcription::{iid}")],
                        "advanced_transcription",
                        Some((iid, iname)),
                        true,
                    ));
                }
            }
            for (lid, lname, d, s, kind, instrument, with_exercises) in lessons {
                invalid |= !seen_lessons.insert(lid.clone());
                // The texts are taken as they are; what matters is that they are there.
                want.lesson(&LessonManifest {
                    id: u(&lid),
                    course_id: u(&id),
                    name: lname.clone(),
                    description: None,
                    dependencies: d.iter().map(|d| u(d)).collect(),
                    superseded: s.iter().map(|d| u(d)).collect(),
                    encompassed: vec![],
                    metadata: Some(BTreeMap::from([
                        ("transcription_lesson".to_string(), vec![kind.to_string()]),
                        (
                            "instrument".to_string(),
                            vec![instrument.map_or("voice", |i| i.0).to_string()],
                        ),
                    ])),
                    lesson_instructions: None,
                    lesson_material: None,
                })?;
                if !with_exercises {
                    continue;
                }
                for (short, p) in &used {
                    let mut parts: Vec<(String, String, String)> = p
                        .intervals
                        .iter()
                        .map(|(k, (a, b))| (format!("{lid}::{short}::{k}"), a.clone(), b.clone()))
                        .collect();
                    if parts.is_empty() {
                        parts.push((
                            format!("{lid}::{short}"),
                            "Start of passage".into(),
                            "End of passage".into(),
                        ));
                    }
                    for (eid, start, end) in parts {
                        invalid |= !seen_exercises.insert(eid.clone());
                        want.exercise(&ExerciseManifest {
                            id: u(&eid),
                            lesson_id: u(&lid),
                            course_id: u(&id),
                            name: lname.clone(),
                            description: None,
                            exercise_type: ExerciseType::Procedural,
                            exercise_asset: ExerciseAsset::TranscriptionAsset {
                                content: String::new(),
                                external_link: p.link.clone().map(TranscriptionLink::YouTube),
                            },
                        })?;
                        let text = |v: &Option<String>| v.clone().unwrap_or_default();
                        let mut must = vec![
                            format!("- Track name: {}", p.track),
                            format!("- Artist name: {}", text(&p.artist)),
                            format!("- Album name: {}", text(&p.album)),
                            format!("- Track duration: {}", text(&p.duration)),
                            format!("- External link: {}", text(&p.link)),
                            format!("- Passage interval: {start} - {end}"),
                        ];
                        if let Some((_, iname)) = instrument {
                            must.push(format!(
                                "Transcribe the passage using the instrument: {iname}."
                            ));
                        }
                        lines.insert(eid.clone(), must);
                        links.insert(eid, p.link.clone());
                    }
                }
            }
        }
        let opened = open(&root);
        if invalid {
            stats.hit("duplicate_ids");
            check!(
                opened.is_err(),
                "duplicates-accepted",
                "a library whose transcription courses have duplicate IDs opens"
            );
            return Ok(());
        }
        let trane = opened.must("open", "opening transcription courses")?;
        // Compare the texts first, then everything else without them.
        let mut descriptions: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
        for (eid, must) in &lines {
            let e = trane
                .get_exercise_manifest(u(eid))
                .ok_or("none")
                .must("wrong-units", &format!("getting the exercise {eid}"))?;
            let ExerciseAsset::TranscriptionAsset { content, .. } = &e.exercise_asset else {
                return Err(crate::engine::violation(
                    "wrong-asset",
                    format!("{eid} is {:?}", e.exercise_asset),
                ));
            };
            let mut rest: Vec<&str> = content.lines().map(str::trim).collect();
            for line in must {
                let at = rest.iter().position(|l| *l == line.trim());
                check!(
                    at.is_some(),
                    "wrong-text",
                    "the text of {eid} lacks the line {line:?}: {content:?}"
                );
                rest.remove(at.unwrap_or_default());
            }
            // The rest depends only on the kind of the lesson.
            let lesson = trane
                .get_lesson_manifest(e.lesson_id)
                .ok_or("none")
                .must("wrong-units", "getting a lesson")?;
            let kind = lesson
                .metadata
                .iter()
                .flat_map(|m| m.get("transcription_lesson"))
                .flatten()
                .cloned()
                .collect::<String>();
            rest.retain(|l| !l.is_empty());
            descriptions
                .entry(kind)
                .or_default()
                .insert(rest.join("\n"));
        }
        let all: BTreeSet<&String> = descriptions.values().flatten().collect();
        check!(
            descriptions.values().all(|d| d.len() == 1) && all.len() == descriptions.len(),
            "wrong-text",
            "the instructions of the exercises differ within, or not between, the kinds of lessons: {descriptions:?}"
        );
        let mut instructions: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
        for (id, v) in &mut want.lessons {
            let got = trane
                .get_lesson_manifest(u(id))
                .ok_or("none")
                .must("wrong-units", &format!("getting the lesson {id}"))?;
            let got = value(&*got)?;
            let kind = v["metadata"]["transcription_lesson"][0].to_string();
            check!(
                got["description"].is_string() && !got["lesson_instructions"].is_null(),
                "wrong-lesson",
                "the lesson {id} lacks a description or instructions: {got}"
            );
            instructions.entry(kind).or_default().insert(format!(
                "{} {}",
                got["description"], got["lesson_instructions"]
            ));
            v["description"] = got["description"].clone();
            v["lesson_instructions"] = got["lesson_instructions"].clone();
        }
        let all: BTreeSet<&String> = instructions.values().flatten().collect();
        check!(
            instructions.values().all(|d| d.len() == 1) && all.len() == instructions.len(),
            "wrong-text",
            "the instructions of the lessons differ within, or not between, their kinds: {instructions:?}"
        );
        for (id, v) in &mut want.courses {
            if v["course_instructions"].is_null() {
                let got = trane
                    .get_course_manifest(u(id))
                    .ok_or("none")
                    .must("wrong-units", &format!("getting the course {id}"))?;
                let got = value(&*got)?;
                check!(
                    !got["course_instructions"].is_null(),
                    "wrong-course",
                    "the course {id} has no instructions"
                );
                v["course_instructions"] = got["course_instructions"].clone();
            }
        }
        for (id, v) in &mut want.exercises {
            if let Some(e) = trane.get_exercise_manifest(u(id))
                && let ExerciseAsset::TranscriptionAsset { content, .. } = &e.exercise_asset
            {
                v["exercise_asset"]["TranscriptionAsset"]["content"] = json!(content);
            }
        }
        want.compare(&trane)?;
        stats.add("exercises", want.exercises.len() as u64);
        stats.add("lessons", want.lessons.len() as u64);
        if nontrivial {
            stats.mark_nontrivial();
        }
        Ok(())
    }
}

// ---------------------------------------------------------------------------------------------
// C25: courses that teach a piece of music.

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Passage {
    pub start: String,
    pub end: String,
    pub parts: BTreeMap<u16, Passage>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct PieceCase {
    pub passage: Passage,
    pub link: Option<String>,
    pub name: String,
    pub metadata: Option<BTreeMap<String, Vec<String>>>,
}

fn passage_json(p: &Passage) -> Value {
    json!({
        "start": p.start, "end": p.end,
        "sub_passages": p.parts.iter().map(|(k, p)| (k.to_string(), passage_json(p))).collect::<serde_json::Map<_, _>>(),
    })
}

fn passages<'a>(p: &'a Passage, id: String, out: &mut Vec<(String, &'a Passage)>) {
    for (k, part) in &p.parts {
        passages(part, format!("{id}::{k}"), out);
    }
    out.push((id, p));
}

pub struct C25;
impl Prop for C25 {
    type Case = PieceCase;
    fn id(&self) -> &'static str {
        "C25"
    }
    fn rule(&self) -> &'static str {
        "the piece has passages at three levels or more, and one with two sub-passages"
    }
    fn quick_cases(&self) -> usize {
        10000
    }
    fn strategy(&self, thorough: bool) -> BoxedStrategy<PieceCase> {
        let leaf = (word(), word()).prop_map(|(start, end)| Passage {
            start,
            end,
            parts: BTreeMap::new(),
        });
        let index = prop_oneof![4 => 0u16..4, 1 => any::<u16>()];
        let passage = leaf.prop_recursive(if thorough { 6 } else { 4 }, 24, 4, move |inner| {
            (
                word(),
                word(),
                prop::collection::btree_map(index.clone(), inner, 0..4),
            )
                .prop_map(|(start, end, parts)| Passage { start, end, parts })
        });
        (passage, prop::option::of(word()), text(), metadata())
            .prop_map(|(passage, link, name, metadata)| PieceCase {
                passage,
                link,
                name,
                metadata,
            })
            .boxed()
    }
    fn check(&self, case: &PieceCase, stats: &mut Stats) -> Res {
        let tmp = tempdir()?;
        let root = tmp.path().canonicalize().harness("canonicalize")?;
        let dir = root.join("piece");
        let id = "piece::course";
        let asset = match &case.link {
            Some(l) => json!({"SoundSlice": l}),
            None => json!({"LocalFile": "music sheet.pdf"}),
        };
        let mut want = Expected::default();
        let course = write_course(
            &dir,
            &json!({
                "id": id, "name": case.name, "metadata": case.metadata,
                "generator_config": {"MusicPiece": {
                    "music_asset": asset, "passages": passage_json(&case.passage),
                }},
            }),
        )?;
        want.courses.insert(id.into(), course);
        let mut all = vec![];
        passages(&case.passage, format!("{id}::0"), &mut all);
        let trane = open(&root).must("open", "opening a piece of music")?;
        let mut texts = BTreeSet::new();
        for (lid, p) in &all {
            want.lesson(&LessonManifest {
                id: u(lid),
                course_id: u(id),
                name: case.name.clone(),
                description: None,
                dependencies: p.parts.keys().map(|k| u(&format!("{lid}::{k}"))).collect(),
                superseded: vec![],
                encompassed: vec![],
                metadata: None,
                lesson_instructions: None,
                lesson_material: None,
            })?;
            // The text is taken as it is, except for the passage.
            let eid = format!("{lid}::exercise");
            let got = trane
                .get_exercise_manifest(u(&eid))
                .ok_or("none")
                .must("wrong-units", &format!("getting the exercise {eid}"))?;
            let content = match (&got.exercise_asset, &case.link) {
                (
                    ExerciseAsset::SoundSliceAsset {
                        link,
                        description: Some(text),
                        backup: None,
                    },
                    Some(want),
                ) if link == want => text.clone(),
                (ExerciseAsset::BasicAsset(BasicAsset::InlinedAsset { content }), None) => {
                    check!(
                        content.contains("music sheet.pdf"),
                        "wrong-text",
                        "the text of {eid} does not name the file: {content:?}"
                    );
                    content.clone()
                }
                (other, _) => {
                    return Err(crate::engine::violation(
                        "wrong-asset",
                        format!("{eid} is {other:?}"),
                    ));
                }
            };
            let mut rest: Vec<&str> = content.lines().map(str::trim).collect();
            for line in [
                format!("- Passage start: {}", p.start),
                format!("- Passage end: {}", p.end),
            ] {
                let at = rest.iter().position(|l| *l == line.trim());
                check!(
                    at.is_some(),
                    "wrong-text",
                    "the text of {eid} lacks the line {line:?}: {content:?}"
                );
                rest.remove(at.unwrap_or_default());
            }
            texts.insert(rest.join("\n"));
            want.exercise(&ExerciseManifest {
                id: u(&eid),
                lesson_id: u(lid),
                course_id: u(id),
                name: case.name.clone(),
                description: None,
                exercise_type: ExerciseType::Procedural,
                exercise_asset: got.exercise_asset.clone(),
            })?;
        }
        check!(
            texts.len() == 1,
            "wrong-text",
            "the instructions of the exercises differ: {texts:?}"
        );
        want.compare(&trane)?;
        // Only the smallest passages are offered at first.
        let batch = trane
            .get_exercise_batch(None)
            .must("batch-error", "requesting a batch")?;
        let leaves: BTreeSet<String> = all
            .iter()
            .filter(|(_, p)| p.parts.is_empty())
            .map(|(id, _)| format!("{id}::exercise"))
            .collect();
        for e in &batch {
            check!(
                leaves.contains(e.id.as_str()),
                "not-ready",
                "{} is offered before its sub-passages were practiced",
                e.id
            );
        }
        stats.add("passages", all.len() as u64);
        if all.iter().any(|(id, _)| id.matches("::").count() >= 4)
            && all.iter().any(|(_, p)| p.parts.len() >= 2)
        {
            stats.mark_nontrivial();
        }
        Ok(())
    }
}

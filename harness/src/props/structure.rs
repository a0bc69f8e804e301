//! How libraries are read: contents, graph, layout on disk, invalid libraries and serialization.

use proptest::{collection::vec, prelude::*};
use serde::{Deserialize, Serialize};
use serde_json::{Value, json};
use std::{
    collections::{BTreeMap, BTreeSet, HashMap},
    fs,
    path::{Path, PathBuf},
};
use trane::{
    Trane,
    course_library::{CourseLibrary, LocalCourseLibrary, SerializedCourseLibrary},
    data::{
        BasicAsset, CourseManifest, ExerciseAsset, ExerciseManifest, ExerciseType, LessonManifest,
        UnitType, UserPreferences,
        course_generator::{literacy::LiteracyLessonType, transcription::TranscriptionLink},
    },
    graph::UnitGraph,
    scheduler::ExerciseScheduler,
};

use crate::{
    check,
    engine::{OrHarness, OrViolation, Prop, Res, Stats},
    library::{Course, Index, Kind, Lesson, Lib, LibParams, lib_strategy, write_json},
    world::{PastTrial, World, history, open, tempdir, u},
};

type Set = BTreeSet<String>;

fn set_of(v: Option<std::sync::Arc<ustr::UstrSet>>) -> Set {
    v.map(|s| s.iter().map(|x| x.to_string()).collect())
        .unwrap_or_default()
}

fn sorted(v: impl IntoIterator<Item = String>) -> Vec<String> {
    let mut v: Vec<String> = v.into_iter().collect();
    v.sort();
    v
}

fn strings(v: Vec<ustr::Ustr>) -> Vec<String> {
    v.iter().map(|s| s.to_string()).collect()
}

fn edges(v: Option<Vec<(ustr::Ustr, f32)>>) -> Vec<(String, f32)> {
    let mut v: Vec<(String, f32)> = v
        .unwrap_or_default()
        .iter()
        .map(|(s, w)| (s.to_string(), *w))
        .collect();
    v.sort_by(|a, b| a.0.cmp(&b.0).then(a.1.total_cmp(&b.1)));
    v
}

/// The relations among the units, read off the specification.
struct Relations {
    deps: BTreeMap<String, Set>,
    dependents: BTreeMap<String, Set>,
    supersedes: BTreeMap<String, Set>,
    superseded_by: BTreeMap<String, Set>,
    encompasses: BTreeMap<String, Vec<(String, f32)>>,
    encompassed_by: BTreeMap<String, Vec<(String, f32)>>,
    missing: Set,
}

impl Relations {
    fn new(lib: &Lib) -> Self {
        let idx = Index::new(lib);
        let mut r = Relations {
            deps: BTreeMap::new(),
            dependents: BTreeMap::new(),
            supersedes: BTreeMap::new(),
            superseded_by: BTreeMap::new(),
            encompasses: BTreeMap::new(),
            encompassed_by: BTreeMap::new(),
            missing: Set::new(),
        };
        let mut units: Vec<(&String, &Vec<String>, &Vec<String>, &Vec<(String, f32)>)> = vec![];
        for c in &lib.courses {
            units.push((&c.id, &c.deps, &c.superseded, &c.encompassed));
            for l in &c.lessons {
                units.push((&l.id, &l.deps, &l.superseded, &l.encompassed));
            }
        }
        for (id, deps, superseded, encompassed) in units {
            for d in deps {
                r.deps.entry(id.clone()).or_default().insert(d.clone());
                r.dependents
                    .entry(d.clone())
                    .or_default()
                    .insert(id.clone());
                if idx.kind(d).is_none() {
                    r.missing.insert(d.clone());
                }
            }
            for s in superseded {
                r.supersedes
                    .entry(id.clone())
                    .or_default()
                    .insert(s.clone());
                r.superseded_by
                    .entry(s.clone())
                    .or_default()
                    .insert(id.clone());
            }
            let mut full = encompassed.clone();
            for d in deps {
                if !encompassed.iter().any(|(e, _)| e == d) {
                    full.push((d.clone(), 1.0));
                }
            }
            for (e, w) in full {
                r.encompasses
                    .entry(id.clone())
                    .or_default()
                    .push((e.clone(), w));
                r.encompassed_by.entry(e).or_default().push((id.clone(), w));
            }
        }
        for v in r
            .encompasses
            .values_mut()
            .chain(r.encompassed_by.values_mut())
        {
            v.sort_by(|a, b| a.0.cmp(&b.0).then(a.1.total_cmp(&b.1)));
        }
        r
    }
}

/// Compares everything the graph and the library say with the specification.
fn compare_structure<T: UnitGraph + CourseLibrary>(t: &T, lib: &Lib, when: &str) -> Res {
    compare_relations(t, lib, when)?;
    compare_sinks(t, lib, when)
}

/// Compares what the graph says about every unit with the specification.
pub fn compare_graph<T: UnitGraph>(t: &T, lib: &Lib, when: &str) -> Res {
    let idx = Index::new(lib);
    let rel = Relations::new(lib);
    let mut ids: Set = lib.unit_ids().into_iter().collect();
    ids.extend(rel.missing.iter().cloned());
    ids.insert("nothing".to_string());
    let none = Set::new();
    let no_edges = vec![];
    for id in &ids {
        let kind = idx.kind(id);
        let want_type = kind.map(|k| match k {
            Kind::Course => UnitType::Course,
            Kind::Lesson => UnitType::Lesson,
            Kind::Exercise => UnitType::Exercise,
        });
        let got_type = t.get_unit_type(u(id));
        check!(
            got_type == want_type,
            "wrong-type",
            "{when}, {id} is a {got_type:?}, expected {want_type:?}"
        );
        for (what, got, want) in [
            ("dependencies", t.get_dependencies(u(id)), &rel.deps),
            ("dependents", t.get_dependents(u(id)), &rel.dependents),
            ("superseded units", t.get_supersedes(u(id)), &rel.supersedes),
            (
                "superseding units",
                t.get_superseded_by(u(id)),
                &rel.superseded_by,
            ),
        ] {
            let got = set_of(got);
            let want = want.get(id).unwrap_or(&none);
            check!(
                got == *want,
                "wrong-relation",
                "{when}, the {what} of {id} are {got:?}, expected {want:?}"
            );
        }
        for (what, got, want) in [
            (
                "encompassed units",
                t.get_encompasses(u(id)),
                &rel.encompasses,
            ),
            (
                "encompassing units",
                t.get_encompassed_by(u(id)),
                &rel.encompassed_by,
            ),
        ] {
            let got = edges(got);
            let want = want.get(id).unwrap_or(&no_edges);
            check!(
                got == *want,
                "wrong-encompassing",
                "{when}, the {what} of {id} are {got:?}, expected {want:?}"
            );
        }
        // What belongs to what.
        let (mut lessons, mut starting, mut exercises) = (Set::new(), Set::new(), Set::new());
        let (mut of_course, mut of_lesson) = (None, None);
        match kind {
            Some(Kind::Course) => {
                let c = idx.courses[id.as_str()];
                lessons = c.lessons.iter().map(|l| l.id.clone()).collect();
                starting = c
                    .lessons
                    .iter()
                    .filter(|l| l.deps.iter().all(|d| !lessons.contains(d)))
                    .map(|l| l.id.clone())
                    .collect();
            }
            Some(Kind::Lesson) => {
                let (c, l) = idx.lessons[id.as_str()];
                exercises = l.exercises.iter().map(|e| e.id.clone()).collect();
                of_course = Some(c.id.clone());
            }
            Some(Kind::Exercise) => {
                of_lesson = Some(idx.exercises[id.as_str()].1.id.clone());
            }
            None => {}
        }
        let got = (
            set_of(t.get_course_lessons(u(id))),
            set_of(t.get_starting_lessons(u(id))),
            set_of(t.get_lesson_exercises(u(id))),
            t.get_lesson_course(u(id)).map(|s| s.to_string()),
            t.get_exercise_lesson(u(id)).map(|s| s.to_string()),
        );
        let want = (lessons, starting, exercises, of_course, of_lesson);
        check!(
            got == want,
            "wrong-hierarchy",
            "{when}, the lessons, starting lessons, exercises, course and lesson of {id} are {got:?}, expected {want:?}"
        );
    }
    Ok(())
}

fn compare_relations<T: UnitGraph + CourseLibrary>(t: &T, lib: &Lib, when: &str) -> Res {
    compare_graph(t, lib, when)?;
    let idx = Index::new(lib);
    let rel = Relations::new(lib);
    let mut ids: Set = lib.unit_ids().into_iter().collect();
    ids.extend(rel.missing.iter().cloned());
    ids.insert("nothing".to_string());
    for id in &ids {
        let kind = idx.kind(id);
        let (mut lesson_ids, mut exercise_ids, mut all) = (vec![], vec![], vec![]);
        match kind {
            Some(Kind::Course) => {
                let c = idx.courses[id.as_str()];
                lesson_ids = sorted(c.lessons.iter().map(|l| l.id.clone()));
                all = sorted(idx.exercises_in(id).iter().map(|s| (*s).to_string()));
            }
            Some(Kind::Lesson) => {
                let (_, l) = idx.lessons[id.as_str()];
                exercise_ids = sorted(l.exercises.iter().map(|e| e.id.clone()));
                all = exercise_ids.clone();
            }
            Some(Kind::Exercise) => all = vec![id.clone()],
            None => {}
        }
        let got = (
            t.get_lesson_ids(u(id)).map(strings).unwrap_or_default(),
            t.get_exercise_ids(u(id)).map(strings).unwrap_or_default(),
            strings(t.get_all_exercise_ids(Some(u(id)))),
        );
        let want = (lesson_ids, exercise_ids, all);
        check!(
            got == want,
            "wrong-hierarchy",
            "{when}, the lessons, exercises and all exercises of {id} are {got:?}, expected {want:?}"
        );
        // Exactly the manifest of its own kind.
        let got = (
            t.get_course_manifest(u(id)).map(|m| m.id.to_string()),
            t.get_lesson_manifest(u(id)).map(|m| m.id.to_string()),
            t.get_exercise_manifest(u(id)).map(|m| m.id.to_string()),
        );
        let only = |k: Kind| (kind == Some(k)).then(|| id.clone());
        let want = (only(Kind::Course), only(Kind::Lesson), only(Kind::Exercise));
        check!(
            got == want,
            "wrong-manifest",
            "{when}, the manifests of {id} are {got:?}, expected {want:?}"
        );
    }
    let got = strings(t.get_course_ids());
    let want = sorted(lib.courses.iter().map(|c| c.id.clone()));
    check!(
        got == want,
        "wrong-courses",
        "{when}, the courses are {got:?}, expected {want:?}"
    );
    let got = strings(t.get_all_exercise_ids(None));
    let want = sorted(lib.exercise_ids());
    check!(
        got == want,
        "wrong-exercises",
        "{when}, the exercises are {got:?}, expected {want:?}"
    );

    // Units by prefix.
    let mut prefixes: Set = ["", "zz", "c1"].iter().map(|s| (*s).to_string()).collect();
    for id in ids.iter().step_by(3) {
        prefixes.insert(id.clone());
        prefixes.insert(id.chars().take(id.len().saturating_sub(1)).collect());
    }
    for prefix in &prefixes {
        for (kind, unit_type) in [
            (None, None),
            (Some(Kind::Course), Some(UnitType::Course)),
            (Some(Kind::Lesson), Some(UnitType::Lesson)),
            (Some(Kind::Exercise), Some(UnitType::Exercise)),
        ] {
            let got: Set = t
                .get_matching_prefix(prefix, unit_type)
                .iter()
                .map(|s| s.to_string())
                .collect();
            let want: Set = lib
                .unit_ids()
                .into_iter()
                .filter(|id| id.starts_with(prefix.as_str()))
                .filter(|id| kind.is_none() || idx.kind(id) == kind)
                .collect();
            check!(
                got == want,
                "wrong-prefix",
                "{when}, the units of kind {kind:?} with prefix {prefix:?} are {got:?}, expected {want:?}"
            );
        }
    }

    Ok(())
}

/// The sinks: units without dependencies, from which everything can be reached.
pub fn compare_sinks<T: UnitGraph>(t: &T, lib: &Lib, when: &str) -> Res {
    let idx = Index::new(lib);
    let rel = Relations::new(lib);
    let sinks: Set = t
        .get_dependency_sinks()
        .iter()
        .map(|s| s.to_string())
        .collect();
    for s in &sinks {
        let ok = match idx.kind(s) {
            Some(Kind::Course) => idx.courses[s.as_str()].deps.is_empty(),
            None => rel.missing.contains(s),
            _ => false,
        };
        check!(ok, "wrong-sink", "{when}, {s} is a dependency sink");
    }
    for m in &rel.missing {
        check!(
            sinks.contains(m),
            "missing-sink",
            "{when}, the missing unit {m} is not a dependency sink"
        );
    }
    let mut reached = Set::new();
    let mut stack: Vec<String> = sinks.iter().cloned().collect();
    while let Some(id) = stack.pop() {
        if !reached.insert(id.clone()) {
            continue;
        }
        stack.extend(rel.dependents.get(&id).into_iter().flatten().cloned());
        // Completing the lessons of a course leads on to what depends on the course.
        if let Some((c, _)) = idx.lessons.get(id.as_str()) {
            stack.extend(rel.dependents.get(&c.id).into_iter().flatten().cloned());
        }
        if let Some(c) = idx.courses.get(id.as_str()) {
            stack.extend(
                c.lessons
                    .iter()
                    .filter(|l| l.deps.iter().all(|d| !c.lessons.iter().any(|x| x.id == *d)))
                    .map(|l| l.id.clone()),
            );
        }
    }
    for l in lib.lessons() {
        check!(
            reached.contains(&l.1.id),
            "unreachable",
            "{when}, {} cannot be reached from the dependency sinks {sinks:?}",
            l.1.id
        );
    }
    Ok(())
}

/// The nodes and edges that the DOT graph has to contain, in order.
fn expected_dot(lib: &Lib, courses_only: bool) -> String {
    let rel = Relations::new(lib);
    let idx = Index::new(lib);
    let mut out = String::from("digraph dependent_graph {\n");
    let mut courses: Vec<&Course> = lib.courses.iter().collect();
    courses.sort_by(|a, b| a.id.cmp(&b.id));
    for c in courses {
        out += &format!("    \"{}\" [color=red, style=filled]\n", c.id);
        let mut to: Vec<String> = rel
            .dependents
            .get(&c.id)
            .into_iter()
            .flatten()
            .filter(|d| !courses_only || idx.kind(d) == Some(Kind::Course))
            .cloned()
            .collect();
        if !courses_only {
            to.extend(
                c.lessons
                    .iter()
                    .filter(|l| l.deps.iter().all(|d| !c.lessons.iter().any(|x| x.id == *d)))
                    .map(|l| l.id.clone()),
            );
        }
        to.sort();
        for d in to {
            out += &format!("    \"{}\" -> \"{d}\"\n", c.id);
        }
        if courses_only {
            continue;
        }
        let mut lessons: Vec<&Lesson> = c.lessons.iter().collect();
        lessons.sort_by(|a, b| a.id.cmp(&b.id));
        for l in lessons {
            out += &format!("    \"{}\" [color=blue, style=filled]\n", l.id);
            for d in rel.dependents.get(&l.id).into_iter().flatten() {
                out += &format!("    \"{}\" -> \"{d}\"\n", l.id);
            }
        }
    }
    out + "}\n"
}

pub fn compare_dot<T: UnitGraph>(t: &T, lib: &Lib) -> Res {
    for courses_only in [false, true] {
        let lines = |s: &str| {
            let mut v: Vec<String> = s.lines().map(|l| l.trim().to_string()).collect();
            v.sort();
            v
        };
        let got = t.generate_dot_graph(courses_only);
        let want = expected_dot(lib, courses_only);
        check!(
            lines(&got) == lines(&want),
            "wrong-dot",
            "the DOT graph (courses only: {courses_only}) is\n{got}\nexpected\n{want}"
        );
        check!(
            got == t.generate_dot_graph(courses_only),
            "unstable-dot",
            "the DOT graph differs from call to call"
        );
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C14: the graph and the contents of a library.

pub fn full_params(thorough: bool) -> LibParams {
    LibParams {
        courses: if thorough { 10 } else { 6 },
        lessons: if thorough { 8 } else { 5 },
        exercises: 3,
        missing: true,
        superseding: true,
        encompassing: true,
        metadata: true,
        min_lessons: 0,
        min_exercises: 0,
        dense: false,
    }
}

/// Libraries with or without explicitly encompassed units.
pub fn any_lib(thorough: bool) -> BoxedStrategy<Lib> {
    let p = full_params(thorough);
    prop_oneof![
        2 => lib_strategy(p),
        1 => lib_strategy(LibParams { encompassing: false, ..p })
    ]
    .boxed()
}

/// Renames the courses and lessons so that their order and prefixes vary.
pub fn rename(lib: &Lib, names: &[u8]) -> Lib {
    const NAMES: [&str; 12] = [
        "c1", "c10", "z", "a::b", "é", "C1", "c1::l0x", "lesson", "b c", "_", "~", "0",
    ];
    if names.is_empty() {
        return lib.clone();
    }
    let mut map: HashMap<String, String> = HashMap::new();
    let mut used = BTreeSet::new();
    for (i, c) in lib.courses.iter().enumerate() {
        let mut name = NAMES[names[i % names.len()] as usize % NAMES.len()].to_string();
        while !used.insert(name.clone()) {
            name.push('\'');
        }
        map.insert(c.id.clone(), name.clone());
        let n = c.lessons.len();
        for (k, l) in c.lessons.iter().enumerate() {
            // Some orders that differ from the order in which the lessons depend on each other.
            let pos = (k * 7 + names[(i + 1) % names.len()] as usize) % 97;
            let lesson = format!(
                "{name}::l{pos}{}",
                if n > 90 { k.to_string() } else { String::new() }
            );
            map.insert(l.id.clone(), lesson.clone());
            for e in &l.exercises {
                let tail = e.id.rsplit("::").next().unwrap_or("e");
                map.insert(e.id.clone(), format!("{lesson}::{tail}"));
            }
        }
    }
    let get = |s: &String| map.get(s).cloned().unwrap_or_else(|| s.clone());
    let list = |v: &[String]| v.iter().map(get).collect::<Vec<_>>();
    let pairs = |v: &[(String, f32)]| v.iter().map(|(s, w)| (get(s), *w)).collect::<Vec<_>>();
    Lib {
        courses: lib
            .courses
            .iter()
            .map(|c| Course {
                id: get(&c.id),
                deps: list(&c.deps),
                superseded: list(&c.superseded),
                encompassed: pairs(&c.encompassed),
                metadata: c.metadata.clone(),
                lessons: c
                    .lessons
                    .iter()
                    .map(|l| Lesson {
                        id: get(&l.id),
                        deps: list(&l.deps),
                        superseded: list(&l.superseded),
                        encompassed: pairs(&l.encompassed),
                        metadata: l.metadata.clone(),
                        exercises: l
                            .exercises
                            .iter()
                            .map(|e| crate::library::Exercise {
                                id: get(&e.id),
                                declarative: e.declarative,
                            })
                            .collect(),
                    })
                    .collect(),
            })
            .collect(),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct GraphCase {
    pub lib: Lib,
}

pub struct C14;
impl Prop for C14 {
    type Case = GraphCase;
    fn id(&self) -> &'static str {
        "C14"
    }
    fn rule(&self) -> &'static str {
        "the library has at least two courses, and a dependency, a superseded and an encompassed unit"
    }
    fn quick_cases(&self) -> usize {
        3000
    }
    fn strategy(&self, thorough: bool) -> BoxedStrategy<GraphCase> {
        (any_lib(thorough), vec(any::<u8>(), 0..8))
            .prop_map(|(lib, names)| GraphCase {
                lib: rename(&lib, &names),
            })
            .boxed()
    }
    fn check(&self, case: &GraphCase, stats: &mut Stats) -> Res {
        let world = World::new(&case.lib)?;
        compare_structure(&world.trane, &case.lib, "after opening")?;
        compare_dot(&world.trane, &case.lib)?;
        let rel = Relations::new(&case.lib);
        stats.add("units", case.lib.unit_ids().len() as u64);
        stats.add("missing_dependencies", rel.missing.len() as u64);
        let explicit = case.lib.courses.iter().any(|c| !c.encompassed.is_empty())
            || case.lib.lessons().any(|(_, l)| !l.encompassed.is_empty());
        stats.hit_if(explicit, "explicitly_encompassed");
        if case.lib.courses.len() > 1
            && !rel.deps.is_empty()
            && !rel.supersedes.is_empty()
            && explicit
        {
            stats.mark_nontrivial();
        }
        Ok(())
    }
}

// ---------------------------------------------------------------------------------------------
// C15: opening a library from disk.

fn mix(a: &str, salt: u64) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325 ^ salt.wrapping_mul(0x9e37_79b9_7f4a_7c15);
    for b in a.bytes() {
        h = (h ^ u64::from(b)).wrapping_mul(0x100_0000_01b3);
    }
    h ^ (h >> 29)
}

/// The details of a manifest, a function of the unit and a salt.
struct Decor(u64);

impl Decor {
    fn of(id: &str, salt: u64) -> Self {
        Decor(mix(id, salt))
    }
    fn bits(&self, shift: u32, n: u64) -> u64 {
        (self.0 >> shift) % n
    }
    fn opt_text(&self, shift: u32, what: &str) -> Option<String> {
        match self.bits(shift, 4) {
            0 | 1 => None,
            2 => Some(format!("{what} \"é\"\n{}", self.bits(shift, 1000))),
            _ => Some(String::new()),
        }
    }
}

/// Writes the files an asset needs and returns its JSON form and the manifest it must become.
fn basic_asset(dir: &Path, d: &Decor, shift: u32, name: &str) -> Res<Option<(Value, BasicAsset)>> {
    let file = format!("{name}.md");
    let put = |p: &Path| fs::write(p, format!("content of {name}")).harness("write asset");
    Ok(match d.bits(shift, 7) {
        0 | 1 => None,
        2 => Some((
            json!({"InlinedAsset": {"content": format!("inlined {name}")}}),
            BasicAsset::InlinedAsset {
                content: format!("inlined {name}"),
            },
        )),
        3 => Some((
            json!({"InlinedUniqueAsset": {"content": format!("unique {name}")}}),
            BasicAsset::InlinedUniqueAsset {
                content: u(&format!("unique {name}")),
            },
        )),
        4 => {
            put(&dir.join(&file))?;
            Some((
                json!({"MarkdownAsset": {"path": file}}),
                BasicAsset::MarkdownAsset {
                    path: dir.join(&file).display().to_string(),
                },
            ))
        }
        5 => {
            let sub = dir.join("assets_dir");
            fs::create_dir_all(&sub).harness("create dir")?;
            put(&dir.join(&file))?;
            Some((
                json!({"MarkdownAsset": {"path": format!("./assets_dir/../{file}")}}),
                BasicAsset::MarkdownAsset {
                    path: dir.join(&file).display().to_string(),
                },
            ))
        }
        _ => {
            let path = format!("/does/not/need/to/exist/{file}");
            Some((
                json!({"MarkdownAsset": {"path": path}}),
                BasicAsset::MarkdownAsset { path },
            ))
        }
    })
}

fn exercise_asset(dir: &Path, d: &Decor) -> Res<(Value, ExerciseAsset)> {
    let put = |name: &str| -> Res<String> {
        fs::write(dir.join(name), name).harness("write asset")?;
        Ok(dir.join(name).display().to_string())
    };
    Ok(match d.bits(20, 9) {
        0 => (
            json!({"FlashcardAsset": {"front_path": "front.md", "back_path": "back.md"}}),
            ExerciseAsset::FlashcardAsset {
                front_path: put("front.md")?,
                back_path: Some(put("back.md")?),
            },
        ),
        1 => (
            json!({"FlashcardAsset": {"front_path": "front.md"}}),
            ExerciseAsset::FlashcardAsset {
                front_path: put("front.md")?,
                back_path: None,
            },
        ),
        2 => (
            json!({"InlineFlashcardAsset": {"front_content": "f", "back_content": "b"}}),
            ExerciseAsset::InlineFlashcardAsset {
                front_content: "f".into(),
                back_content: Some("b".into()),
            },
        ),
        3 => (
            json!({"LiteracyAsset": {"lesson_type": "Dictation", "examples": [["a", "b"], ["c", null]]}}),
            ExerciseAsset::LiteracyAsset {
                lesson_type: LiteracyLessonType::Dictation,
                examples: vec![("a".into(), Some("b".into())), ("c".into(), None)],
                exceptions: vec![],
            },
        ),
        4 => (
            json!({"SoundSliceAsset": {"link": "l", "description": "d", "backup": "backup.xml"}}),
            ExerciseAsset::SoundSliceAsset {
                link: "l".into(),
                description: Some("d".into()),
                backup: Some(put("backup.xml")?),
            },
        ),
        5 => (
            json!({"SoundSliceAsset": {"link": "l"}}),
            ExerciseAsset::SoundSliceAsset {
                link: "l".into(),
                description: None,
                backup: None,
            },
        ),
        6 => (
            json!({"TranscriptionAsset": {"content": "c", "external_link": {"YouTube": "y"}}}),
            ExerciseAsset::TranscriptionAsset {
                content: "c".into(),
                external_link: Some(TranscriptionLink::YouTube("y".into())),
            },
        ),
        7 => (
            json!({"TranscriptionAsset": {}}),
            ExerciseAsset::TranscriptionAsset {
                content: String::new(),
                external_link: None,
            },
        ),
        _ => match basic_asset(dir, d, 24, "exercise")? {
            Some((j, a)) => (json!({"BasicAsset": j}), ExerciseAsset::BasicAsset(a)),
            None => (
                json!({"BasicAsset": {"InlinedAsset": {"content": "x"}}}),
                ExerciseAsset::BasicAsset(BasicAsset::InlinedAsset {
                    content: "x".into(),
                }),
            ),
        },
    })
}

/// Adds a field, or leaves it out when it has its default and the bit says so.
fn put_field(obj: &mut Value, key: &str, value: Value, default: &Value, leave_out: bool) {
    if !(leave_out && value == *default) {
        obj[key] = value;
    }
}

#[derive(Default)]
struct Manifests {
    courses: BTreeMap<String, CourseManifest>,
    lessons: BTreeMap<String, LessonManifest>,
    exercises: BTreeMap<String, ExerciseManifest>,
}

fn ustrs(v: &[String]) -> Vec<ustr::Ustr> {
    v.iter().map(|s| u(s)).collect()
}

fn pairs(v: &[(String, f32)]) -> Vec<(ustr::Ustr, f32)> {
    v.iter().map(|(s, w)| (u(s), *w)).collect()
}

/// Writes a course with all its details and returns the manifests it must be read as.
fn write_rich_course(dir: &Path, c: &Course, salt: u64, out: &mut Manifests) -> Res {
    fs::create_dir_all(dir).harness("create dir")?;
    let dir = dir.canonicalize().harness("canonicalize")?;
    let d = Decor::of(&c.id, salt);
    let drop_defaults = d.bits(3, 2) == 0;
    let name = d.opt_text(5, "Name").unwrap_or_default();
    let description = d.opt_text(8, "Description");
    let authors = match d.bits(11, 4) {
        0 => Some(vec![]),
        1 => Some(vec!["A".to_string(), "B".to_string()]),
        _ => None,
    };
    let material = basic_asset(&dir, &d, 14, "material")?;
    let instructions = basic_asset(&dir, &d, 17, "instructions")?;
    let mut j = json!({"id": c.id});
    let null = Value::Null;
    let empty = json!([]);
    put_field(&mut j, "name", json!(name), &json!(""), drop_defaults);
    put_field(&mut j, "dependencies", json!(c.deps), &empty, drop_defaults);
    put_field(
        &mut j,
        "superseded",
        json!(c.superseded),
        &empty,
        drop_defaults,
    );
    put_field(
        &mut j,
        "encompassed",
        json!(c.encompassed),
        &empty,
        drop_defaults,
    );
    put_field(
        &mut j,
        "description",
        json!(description),
        &null,
        drop_defaults,
    );
    put_field(&mut j, "authors", json!(authors), &null, drop_defaults);
    put_field(&mut j, "metadata", json!(c.metadata), &null, drop_defaults);
    put_field(
        &mut j,
        "course_material",
        json!(material.as_ref().map(|m| &m.0)),
        &null,
        drop_defaults,
    );
    put_field(
        &mut j,
        "course_instructions",
        json!(instructions.as_ref().map(|m| &m.0)),
        &null,
        drop_defaults,
    );
    write_json(&dir.join("course_manifest.json"), &j)?;
    out.courses.insert(
        c.id.clone(),
        CourseManifest {
            id: u(&c.id),
            name,
            dependencies: ustrs(&c.deps),
            encompassed: pairs(&c.encompassed),
            superseded: ustrs(&c.superseded),
            description,
            authors,
            metadata: c.metadata.clone(),
            course_material: material.map(|m| m.1),
            course_instructions: instructions.map(|m| m.1),
            generator_config: None,
        },
    );
    for (li, l) in c.lessons.iter().enumerate() {
        let d = Decor::of(&l.id, salt);
        let dir = dir.join(format!(
            "{}{li}",
            ["lesson", "l ", "é", "dir.lesson"][d.bits(30, 4) as usize]
        ));
        fs::create_dir_all(&dir).harness("create dir")?;
        let drop_defaults = d.bits(3, 2) == 0;
        let name = d.opt_text(5, "Name").unwrap_or_default();
        let description = d.opt_text(8, "Description");
        let material = basic_asset(&dir, &d, 14, "material")?;
        let instructions = basic_asset(&dir, &d, 17, "instructions")?;
        let mut j = json!({"id": l.id, "course_id": c.id});
        put_field(&mut j, "name", json!(name), &json!(""), drop_defaults);
        put_field(&mut j, "dependencies", json!(l.deps), &empty, drop_defaults);
        put_field(
            &mut j,
            "superseded",
            json!(l.superseded),
            &empty,
            drop_defaults,
        );
        put_field(
            &mut j,
            "encompassed",
            json!(l.encompassed),
            &empty,
            drop_defaults,
        );
        put_field(
            &mut j,
            "description",
            json!(description),
            &null,
            drop_defaults,
        );
        put_field(&mut j, "metadata", json!(l.metadata), &null, drop_defaults);
        put_field(
            &mut j,
            "lesson_material",
            json!(material.as_ref().map(|m| &m.0)),
            &null,
            drop_defaults,
        );
        put_field(
            &mut j,
            "lesson_instructions",
            json!(instructions.as_ref().map(|m| &m.0)),
            &null,
            drop_defaults,
        );
        write_json(&dir.join("lesson_manifest.json"), &j)?;
        out.lessons.insert(
            l.id.clone(),
            LessonManifest {
                id: u(&l.id),
                dependencies: ustrs(&l.deps),
                encompassed: pairs(&l.encompassed),
                superseded: ustrs(&l.superseded),
                course_id: u(&c.id),
                name,
                description,
                metadata: l.metadata.clone(),
                lesson_material: material.map(|m| m.1),
                lesson_instructions: instructions.map(|m| m.1),
            },
        );
        for (ei, e) in l.exercises.iter().enumerate() {
            let d = Decor::of(&e.id, salt);
            let dir = dir.join(format!(
                "{}{ei}",
                ["exercise", "e ", "é", "x.exercise"][d.bits(30, 4) as usize]
            ));
            fs::create_dir_all(&dir).harness("create dir")?;
            let drop_defaults = d.bits(3, 2) == 0;
            let name = d.opt_text(5, "Name").unwrap_or_default();
            let description = d.opt_text(8, "Description");
            let (asset_json, asset) = exercise_asset(&dir, &d)?;
            let mut j = json!({
                "id": e.id, "lesson_id": l.id, "course_id": c.id, "exercise_asset": asset_json
            });
            put_field(&mut j, "name", json!(name), &json!(""), drop_defaults);
            put_field(
                &mut j,
                "description",
                json!(description),
                &null,
                drop_defaults,
            );
            let kind = if e.declarative {
                "Declarative"
            } else {
                "Procedural"
            };
            put_field(
                &mut j,
                "exercise_type",
                json!(kind),
                &json!("Procedural"),
                drop_defaults,
            );
            write_json(&dir.join("exercise_manifest.json"), &j)?;
            out.exercises.insert(
                e.id.clone(),
                ExerciseManifest {
                    id: u(&e.id),
                    lesson_id: u(&l.id),
                    course_id: u(&c.id),
                    name,
                    description,
                    exercise_type: if e.declarative {
                        ExerciseType::Declarative
                    } else {
                        ExerciseType::Procedural
                    },
                    exercise_asset: asset,
                },
            );
            // Not manifests of this library.
            if d.bits(36, 3) == 0 {
                fs::write(dir.join("lesson_manifest.json"), "{").harness("write decoy")?;
                fs::write(dir.join("notes.json"), "{").harness("write decoy")?;
            }
            stray_files(&dir, d.bits(41, 12))?;
            if d.bits(38, 5) == 0 {
                let deep = dir.join("deeper");
                fs::create_dir_all(&deep).harness("create decoy")?;
                fs::write(deep.join("exercise_manifest.json"), "{").harness("write decoy")?;
            }
        }
        stray_files(&dir, d.bits(41, 12))?;
        if d.bits(36, 3) == 0 {
            fs::write(dir.join("exercise_manifest.json"), "{").harness("write decoy")?;
            fs::create_dir_all(dir.join("empty").join("exercise_manifest.json"))
                .harness("create decoy")?;
        }
    }
    stray_files(&dir, d.bits(41, 12))?;
    if d.bits(36, 3) == 0 {
        fs::write(dir.join("lesson_manifest.json"), "{").harness("write decoy")?;
        fs::write(dir.join("exercise_manifest.json"), "{").harness("write decoy")?;
        fs::create_dir_all(dir.join("empty").join("lesson_manifest.json"))
            .harness("create decoy")?;
        fs::write(dir.join("course_manifest.json.bak"), "{").harness("write decoy")?;
    }
    Ok(())
}

/// Leaves a file that is no manifest, at any place where a manifest could be.
fn stray_files(dir: &Path, kind: u64) -> Res {
    use std::os::unix::ffi::OsStrExt;
    let name = |b: &[u8]| dir.join(std::ffi::OsStr::from_bytes(b));
    match kind {
        // Names that are not UTF-8.
        0 => fs::write(name(b"tak\xe9.json"), "{").harness("write decoy")?,
        1 => fs::write(name(b"\xff\xfelesson_manifest.json"), "{").harness("write decoy")?,
        2 => {
            for m in ["course", "lesson", "exercise"] {
                fs::write(dir.join(format!("{m}_manifest.json~")), "{").harness("write decoy")?;
                fs::write(dir.join(format!("{m}_manifest.JSON")), "{").harness("write decoy")?;
                fs::write(dir.join(format!("old_{m}_manifest.json")), "{")
                    .harness("write decoy")?;
            }
        }
        3 => {
            let _ = std::os::unix::fs::symlink("/nonexistent/file", dir.join("broken.json"));
            fs::write(dir.join(".lesson_manifest.json.swp"), "{").harness("write decoy")?;
        }
        _ => {}
    }
    Ok(())
}

fn compare_manifests<T: CourseLibrary>(t: &T, want: &Manifests, when: &str) -> Res {
    for (id, m) in &want.courses {
        let got = t.get_course_manifest(u(id));
        check!(
            got.as_deref() == Some(m),
            "wrong-manifest",
            "{when}, the course is {got:?}, expected {m:?}"
        );
    }
    for (id, m) in &want.lessons {
        let got = t.get_lesson_manifest(u(id));
        check!(
            got.as_deref() == Some(m),
            "wrong-manifest",
            "{when}, the lesson is {got:?}, expected {m:?}"
        );
    }
    for (id, m) in &want.exercises {
        let got = t.get_exercise_manifest(u(id));
        check!(
            got.as_deref() == Some(m),
            "wrong-manifest",
            "{when}, the exercise is {got:?}, expected {m:?}"
        );
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct LayoutCase {
    pub lib: Lib,
    pub salt: u64,
    /// The directory of each course, relative to the root.
    pub dirs: Vec<String>,
    pub ignored: Vec<String>,
}

fn ignored_by(dir: &str, ignored: &str) -> bool {
    let parts = |s: &str| -> Vec<String> {
        s.split('/')
            .filter(|p| !p.is_empty() && *p != ".")
            .map(str::to_string)
            .collect()
    };
    parts(dir).starts_with(&parts(ignored))
}

pub struct C15;
impl Prop for C15 {
    type Case = LayoutCase;
    fn id(&self) -> &'static str {
        "C15"
    }
    fn rule(&self) -> &'static str {
        "the library has at least two courses and some but not all of them are ignored"
    }
    fn quick_cases(&self) -> usize {
        2500
    }
    fn strategy(&self, thorough: bool) -> BoxedStrategy<LayoutCase> {
        (
            any_lib(thorough),
            vec(any::<u8>(), 0..8),
            any::<u64>(),
            vec((0u8..8, 0u8..5, any::<u8>()), 1..8),
            vec((any::<u8>(), 0u8..7), 0..4),
        )
            .prop_map(|(lib, names, salt, places, ignored)| {
                let lib = rename(&lib, &names);
                let mut dirs: Vec<String> = vec![];
                for i in 0..lib.courses.len() {
                    let (parent, kind, n) = places[i % places.len()];
                    let parent =
                        ["", "p", "p/q", "px", "p.q", "é", "p/q/r", "p q"][parent as usize];
                    // Some courses lie inside the directory of an earlier one.
                    let parent = match (kind, dirs.get(n as usize % dirs.len().max(1))) {
                        (0, Some(d)) => format!("{d}/more"),
                        _ => parent.to_string(),
                    };
                    let name = ["course", "course_", "co", "_", "course"][kind as usize];
                    let dir = format!("{parent}/{name}{i}");
                    dirs.push(dir.trim_start_matches('/').to_string());
                }
                let ignored = ignored
                    .into_iter()
                    .map(|(n, kind)| {
                        let d = dirs[n as usize % dirs.len()].clone();
                        match kind {
                            0 | 1 => d,
                            2 => d.split('/').next().unwrap_or("p").to_string(),
                            // A prefix of the name of a directory is not the directory.
                            3 => {
                                let n = d.chars().count() - 1;
                                let cut: String = d.chars().take(n).collect();
                                if cut.ends_with('/') || cut.is_empty() {
                                    "nothing".into()
                                } else {
                                    cut
                                }
                            }
                            4 => format!("./{d}/"),
                            5 => "p".to_string(),
                            _ => "nothing/here".to_string(),
                        }
                    })
                    .collect();
                LayoutCase {
                    lib,
                    salt,
                    dirs,
                    ignored,
                }
            })
            .boxed()
    }
    fn check(&self, case: &LayoutCase, stats: &mut Stats) -> Res {
        let dir = tempdir()?;
        let root = dir.path().canonicalize().harness("canonicalize")?;
        let mut want = Manifests::default();
        let mut visible = Lib { courses: vec![] };
        for (c, d) in case.lib.courses.iter().zip(&case.dirs) {
            if case.ignored.iter().any(|i| ignored_by(d, i)) {
                write_rich_course(&root.join(d), c, case.salt, &mut Manifests::default())?;
            } else {
                write_rich_course(&root.join(d), c, case.salt, &mut want)?;
                visible.courses.push(c.clone());
            }
        }
        fs::write(root.join("README.md"), "read me").harness("write")?;
        stray_files(&root, case.salt % 8)?;
        for (i, d) in case.dirs.iter().enumerate() {
            if let Some(parent) = root.join(d).parent() {
                stray_files(parent, case.salt.rotate_left(i as u32) % 12)?;
            }
        }
        let config = root.join(".trane");
        fs::create_dir_all(&config).harness("create dir")?;
        if !case.ignored.is_empty() {
            write_json(
                &config.join("user_preferences.json"),
                &json!({"ignored_paths": case.ignored}),
            )?;
        }
        let trane = open(&root).must("open", "opening a valid library")?;
        compare_structure(&trane, &visible, "after opening")?;
        compare_manifests(&trane, &want, "after opening")?;
        stats.add("courses", case.lib.courses.len() as u64);
        let hidden = case.lib.courses.len() - visible.courses.len();
        stats.add("ignored_courses", hidden as u64);
        if hidden > 0 && !visible.courses.is_empty() {
            stats.mark_nontrivial();
        }
        // The instance works on what it has read.
        let batch = trane
            .get_exercise_batch(None)
            .must("batch-error", "requesting a batch")?;
        for m in &batch {
            check!(
                want.exercises.get(m.id.as_str()) == Some(m),
                "wrong-manifest",
                "the batch has the exercise {m:?}, expected {:?}",
                want.exercises.get(m.id.as_str())
            );
        }
        // A second instance reads the same.
        drop(trane);
        let again = open(&root).must("open", "opening a valid library again")?;
        compare_manifests(&again, &want, "after opening again")
    }
}

// ---------------------------------------------------------------------------------------------
// C16: invalid libraries.

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Relation {
    Dependency,
    Superseded,
    Encompassed,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Defect {
    /// Adds relations that may or may not close a cycle: `(kind, from, to)`.
    Edges(Vec<(Relation, u16, u16)>),
    /// Gives a unit the ID of another one.
    DuplicateId(u16, u16),
    EmptyId(u16),
    /// Changes the `course_id` or `lesson_id` of a lesson or exercise.
    WrongOwner(u16, u8),
    BadWeight(u16, u8),
    MissingAsset(u16),
    /// Cuts a manifest short, removes a required field or changes the type of a value.
    BrokenJson(u16, u8),
    /// Replaces bytes of a manifest; anything may happen but a panic.
    Noise(u16, Vec<(u16, u8)>),
    /// The directory of the library has a name that is not UTF-8; it may be rejected.
    RootName(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct InvalidCase {
    pub lib: Lib,
    pub defect: Defect,
}

fn has_cycle(edges: &BTreeMap<String, Set>) -> bool {
    // Colors: 1 in progress, 2 done.
    fn visit(n: &str, edges: &BTreeMap<String, Set>, colors: &mut HashMap<String, u8>) -> bool {
        match colors.get(n) {
            Some(1) => return true,
            Some(_) => return false,
            None => {}
        }
        colors.insert(n.to_string(), 1);
        for m in edges.get(n).into_iter().flatten() {
            if visit(m, edges, colors) {
                return true;
            }
        }
        colors.insert(n.to_string(), 2);
        false
    }
    let mut colors = HashMap::new();
    edges.keys().any(|n| visit(n, edges, &mut colors))
}

/// Whether the relations can be followed forever.
fn cyclic(lib: &Lib) -> bool {
    let rel = Relations::new(lib);
    let encompasses: BTreeMap<String, Set> = rel
        .encompasses
        .iter()
        .map(|(k, v)| (k.clone(), v.iter().map(|(s, _)| s.clone()).collect()))
        .collect();
    // Whether a unit is superseded depends on the scores of the superseding units, and the score
    // of a course on those of its lessons.
    let mut scores = rel.superseded_by.clone();
    for c in &lib.courses {
        scores
            .entry(c.id.clone())
            .or_default()
            .extend(c.lessons.iter().map(|l| l.id.clone()));
    }
    has_cycle(&rel.deps) || has_cycle(&encompasses) || has_cycle(&scores)
}

fn pick_path(paths: &[PathBuf], n: u16) -> Option<&PathBuf> {
    (!paths.is_empty()).then(|| &paths[n as usize % paths.len()])
}

/// The manifests under the root in a fixed order.
fn manifest_paths(lib: &Lib, root: &Path) -> Vec<PathBuf> {
    let mut out = vec![];
    for (ci, c) in lib.courses.iter().enumerate() {
        let cdir = root.join(format!("course{ci}"));
        out.push(cdir.join("course_manifest.json"));
        for (li, l) in c.lessons.iter().enumerate() {
            let ldir = cdir.join(format!("lesson{li}"));
            out.push(ldir.join("lesson_manifest.json"));
            for ei in 0..l.exercises.len() {
                out.push(
                    ldir.join(format!("exercise{ei}"))
                        .join("exercise_manifest.json"),
                );
            }
        }
    }
    out
}

fn read_value(path: &Path) -> Res<Value> {
    serde_json::from_str(&fs::read_to_string(path).harness("read")?).harness("parse")
}

/// Applies the relations and returns the resulting specification.
fn add_edges(lib: &Lib, edges: &[(Relation, u16, u16)]) -> Lib {
    let mut lib = lib.clone();
    let mut units: Vec<String> = vec![];
    for c in &lib.courses {
        units.push(c.id.clone());
        units.extend(c.lessons.iter().map(|l| l.id.clone()));
    }
    for (kind, from, to) in edges {
        let from = units[*from as usize % units.len()].clone();
        let to = units[*to as usize % units.len()].clone();
        for c in &mut lib.courses {
            let add = |deps: &mut Vec<String>,
                       sup: &mut Vec<String>,
                       enc: &mut Vec<(String, f32)>| match kind {
                Relation::Dependency => {
                    if !deps.contains(&to) {
                        deps.push(to.clone());
                    }
                }
                Relation::Superseded => {
                    if !sup.contains(&to) {
                        sup.push(to.clone());
                    }
                }
                Relation::Encompassed => {
                    if !enc.iter().any(|(e, _)| *e == to) {
                        enc.push((to.clone(), 0.5));
                    }
                }
            };
            if c.id == from {
                add(&mut c.deps, &mut c.superseded, &mut c.encompassed);
            }
            for l in &mut c.lessons {
                if l.id == from {
                    add(&mut l.deps, &mut l.superseded, &mut l.encompassed);
                }
            }
        }
    }
    lib
}

/// Uses everything an application would call on a library it has just opened.
fn exercise_library(trane: &Trane, lib: &Lib) -> Res {
    for _ in 0..2 {
        let batch = trane
            .get_exercise_batch(None)
            .must("batch-error", "requesting a batch")?;
        for m in batch.iter().take(4) {
            trane
                .score_exercise(m.id, trane::data::MasteryScore::Five, 1_700_000_000)
                .must("score-error", "scoring an exercise")?;
        }
    }
    for id in lib.unit_ids() {
        trane
            .get_unit_score(u(&id))
            .must("score-error", "getting a unit's score")?;
    }
    Ok(())
}

pub struct C16;
impl C16 {
    fn must_reject(root: &Path, what: &str) -> Res {
        match open(root) {
            Err(_) => Ok(()),
            Ok(_) => Err(crate::engine::violation(
                "invalid-accepted",
                format!("a library with {what} was opened"),
            )),
        }
    }
}
impl Prop for C16 {
    type Case = InvalidCase;
    fn id(&self) -> &'static str {
        "C16"
    }
    fn rule(&self) -> &'static str {
        "the defect made the library invalid"
    }
    fn quick_cases(&self) -> usize {
        4000
    }
    fn strategy(&self, thorough: bool) -> BoxedStrategy<InvalidCase> {
        let relation = prop_oneof![
            Just(Relation::Dependency),
            Just(Relation::Superseded),
            Just(Relation::Encompassed)
        ];
        let one_kind =
            (relation.clone(), vec((any::<u16>(), any::<u16>()), 1..5)).prop_map(|(k, v)| {
                v.into_iter()
                    .map(|(a, b)| (k.clone(), a, b))
                    .collect::<Vec<_>>()
            });
        let defect = prop_oneof![
            4 => one_kind.prop_map(Defect::Edges),
            2 => vec((relation, any::<u16>(), any::<u16>()), 1..6).prop_map(Defect::Edges),
            2 => (any::<u16>(), any::<u16>()).prop_map(|(a, b)| Defect::DuplicateId(a, b)),
            1 => any::<u16>().prop_map(Defect::EmptyId),
            2 => (any::<u16>(), any::<u8>()).prop_map(|(a, b)| Defect::WrongOwner(a, b)),
            1 => (any::<u16>(), any::<u8>()).prop_map(|(a, b)| Defect::BadWeight(a, b)),
            1 => any::<u16>().prop_map(Defect::MissingAsset),
            1 => (any::<u16>(), any::<u8>()).prop_map(|(a, b)| Defect::BrokenJson(a, b)),
            2 => (any::<u16>(), vec((any::<u16>(), any::<u8>()), 1..6)).prop_map(|(a, b)| Defect::Noise(a, b)),
            1 => any::<u8>().prop_map(Defect::RootName),
        ];
        (
            any_lib(thorough)
                .prop_filter_map("no lessons", |l| (l.lessons().count() > 0).then_some(l)),
            defect,
        )
            .prop_map(|(lib, defect)| InvalidCase { lib, defect })
            .boxed()
    }
    fn check(&self, case: &InvalidCase, stats: &mut Stats) -> Res {
        let dir = tempdir()?;
        let root = dir.path();
        let lib = &case.lib;
        lib.write(root)?;
        let paths = manifest_paths(lib, root);
        // The valid library opens before the defect and once it is repaired.
        let mut repair: Option<(PathBuf, Vec<u8>)> = None;
        let mut keep = |p: &Path| -> Res {
            repair = Some((p.to_path_buf(), fs::read(p).harness("read")?));
            Ok(())
        };
        match &case.defect {
            Defect::Edges(edges) => {
                let changed = add_edges(lib, edges);
                changed.write(root)?;
                if cyclic(&changed) {
                    Self::must_reject(root, "a cycle")?;
                    stats.hit("cycles_rejected");
                    stats.mark_nontrivial();
                    lib.write(root)?;
                } else {
                    let trane = open(root).must("valid-rejected", "opening an acyclic library")?;
                    // Relations between a course and its own lessons, which are no cycle among
                    // the declared relations, may make some of it unreachable.
                    compare_relations(&trane, &changed, "after opening")?;
                    exercise_library(&trane, &changed)?;
                    stats.hit("acyclic_accepted");
                    return Ok(());
                }
            }
            Defect::DuplicateId(a, b) => {
                let ids = lib.unit_ids();
                let (a, b) = (*a as usize % ids.len(), *b as usize % ids.len());
                if a == b {
                    return Ok(());
                }
                keep(&paths[a])?;
                let mut v = read_value(&paths[a])?;
                v["id"] = json!(ids[b]);
                write_json(&paths[a], &v)?;
                Self::must_reject(root, "two units with the same ID")?;
                stats.hit("duplicate_ids_rejected");
                stats.mark_nontrivial();
            }
            Defect::EmptyId(n) => {
                let p = pick_path(&paths, *n).unwrap_or(&paths[0]);
                keep(p)?;
                let mut v = read_value(p)?;
                v["id"] = json!("");
                write_json(p, &v)?;
                Self::must_reject(root, "an empty ID")?;
                stats.hit("empty_ids_rejected");
                stats.mark_nontrivial();
            }
            Defect::WrongOwner(n, kind) => {
                let owned: Vec<PathBuf> = paths
                    .iter()
                    .filter(|p| !p.ends_with("course_manifest.json"))
                    .cloned()
                    .collect();
                let Some(p) = pick_path(&owned, *n) else {
                    return Ok(());
                };
                keep(p)?;
                let mut v = read_value(p)?;
                let key = if p.ends_with("exercise_manifest.json") && kind % 2 == 0 {
                    "lesson_id"
                } else {
                    "course_id"
                };
                // Another unit of the library, or none.
                let ids = lib.unit_ids();
                let other = &ids[*kind as usize / 2 % ids.len()];
                v[key] = if v[key] == json!(other) {
                    json!("another")
                } else {
                    json!(other)
                };
                write_json(p, &v)?;
                Self::must_reject(root, &format!("a wrong {key}"))?;
                stats.hit("wrong_owners_rejected");
                stats.mark_nontrivial();
            }
            Defect::BadWeight(n, kind) => {
                let units: Vec<PathBuf> = paths
                    .iter()
                    .filter(|p| !p.ends_with("exercise_manifest.json"))
                    .cloned()
                    .collect();
                let p = pick_path(&units, *n).unwrap_or(&paths[0]);
                keep(p)?;
                let mut v = read_value(p)?;
                let weight = [-0.1, 1.1, -1.0, 2.0, 1.001, -0.001, 1e9][*kind as usize % 7];
                let mut list = v["encompassed"].as_array().cloned().unwrap_or_default();
                list.insert(
                    *kind as usize / 7 % (list.len() + 1),
                    json!(["elsewhere", weight]),
                );
                v["encompassed"] = json!(list);
                write_json(p, &v)?;
                Self::must_reject(root, &format!("the weight {weight}"))?;
                stats.hit("bad_weights_rejected");
                stats.mark_nontrivial();
            }
            Defect::RootName(n) => {
                use std::os::unix::ffi::OsStrExt;
                let name: &[u8] = [&b"\xff"[..], b"l\xe9", b"\xc3\x28x"][*n as usize % 3];
                let mut odd = root.join(std::ffi::OsStr::from_bytes(name));
                if n & 64 != 0 {
                    odd = odd.join("library");
                }
                lib.write(&odd)?;
                if let Ok(trane) = open(&odd) {
                    exercise_library(&trane, lib)?;
                }
                fs::remove_dir_all(&odd).harness("remove")?;
                stats.hit("odd_root_names");
            }
            Defect::MissingAsset(n) => {
                let p = pick_path(&paths, *n).unwrap_or(&paths[0]);
                keep(p)?;
                let mut v = read_value(p)?;
                let asset = json!({"MarkdownAsset": {"path": "not_there.md"}});
                let there = p.with_file_name("there.md");
                fs::write(&there, "x").harness("write")?;
                let key = match p.file_name().and_then(|f| f.to_str()) {
                    Some("course_manifest.json") => {
                        ["course_material", "course_instructions"][*n as usize % 2]
                    }
                    Some("lesson_manifest.json") => {
                        ["lesson_material", "lesson_instructions"][*n as usize % 2]
                    }
                    _ => "exercise_asset",
                };
                v[key] = if key == "exercise_asset" {
                    let description = json!({"link": "https://x", "description": null});
                    match n / 8 % 5 {
                        0 => json!({"FlashcardAsset": {"front_path": "not_there.md"}}),
                        1 => json!({"FlashcardAsset":
                            {"front_path": "there.md", "back_path": "not_there.md"}}),
                        2 => json!({"FlashcardAsset":
                            {"front_path": "not_there.md", "back_path": "there.md"}}),
                        3 => {
                            let mut v = description;
                            v["backup"] = json!("not_there.md");
                            json!({"SoundSliceAsset": v})
                        }
                        _ => json!({"BasicAsset": asset}),
                    }
                } else {
                    asset
                };
                write_json(p, &v)?;
                Self::must_reject(root, "a missing asset")?;
                stats.hit("missing_assets_rejected");
                stats.mark_nontrivial();
            }
            Defect::BrokenJson(n, kind) => {
                let p = pick_path(&paths, *n).unwrap_or(&paths[0]);
                keep(p)?;
                let text = fs::read_to_string(p).harness("read")?;
                let mut v = read_value(p)?;
                let text = match kind % 5 {
                    0 => text[..text.len() - 1].to_string(),
                    1 => String::new(),
                    2 => {
                        v.as_object_mut().map(|o| o.remove("id"));
                        v.to_string()
                    }
                    3 => {
                        v["name"] = json!(3);
                        v.to_string()
                    }
                    _ => {
                        v["id"] = json!(["x"]);
                        v.to_string()
                    }
                };
                fs::write(p, text).harness("write")?;
                Self::must_reject(root, "a broken manifest")?;
                stats.hit("broken_manifests_rejected");
                stats.mark_nontrivial();
            }
            Defect::Noise(n, changes) => {
                let p = pick_path(&paths, *n).unwrap_or(&paths[0]);
                keep(p)?;
                let mut bytes = fs::read(p).harness("read")?;
                for (pos, byte) in changes {
                    let i = *pos as usize % bytes.len();
                    const POOL: &[u8] = b"\"{}[],:01.-ecl:\\ \xff";
                    bytes[i] = if byte % 2 == 0 {
                        POOL[*byte as usize / 2 % POOL.len()]
                    } else {
                        *byte
                    };
                }
                fs::write(p, bytes).harness("write")?;
                // Anything but a panic, and an instance that works if there is one.
                match open(root) {
                    Ok(trane) => {
                        stats.hit("noise_accepted");
                        let batch = trane
                            .get_exercise_batch(None)
                            .must("batch-error", "requesting a batch")?;
                        stats.add("noise_batch", batch.len() as u64);
                    }
                    Err(_) => {
                        stats.hit("noise_rejected");
                        stats.mark_nontrivial();
                    }
                }
            }
        }
        if let Some((path, bytes)) = repair {
            fs::write(path, bytes).harness("write")?;
        }
        let trane = open(root).must("open", "opening the library after repairing it")?;
        compare_structure(&trane, lib, "after the repair")?;
        exercise_library(&trane, lib)
    }
}

// ---------------------------------------------------------------------------------------------
// C17: serialized libraries.

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct SerializedCase {
    pub lib: Lib,
    pub salt: u64,
    pub history: Vec<PastTrial>,
}

pub struct C17;
impl Prop for C17 {
    type Case = SerializedCase;
    fn id(&self) -> &'static str {
        "C17"
    }
    fn rule(&self) -> &'static str {
        "the library has at least two courses and three exercises, and some exercise was scored"
    }
    fn quick_cases(&self) -> usize {
        1500
    }
    fn strategy(&self, thorough: bool) -> BoxedStrategy<SerializedCase> {
        (
            any_lib(thorough),
            vec(any::<u8>(), 0..8),
            any::<u64>(),
            vec(any::<u8>(), 0..8),
        )
            .prop_map(|(lib, names, salt, bytes)| {
                let lib = rename(&lib, &names);
                let history = history(&lib, &bytes);
                SerializedCase { lib, salt, history }
            })
            .boxed()
    }
    fn check(&self, case: &SerializedCase, stats: &mut Stats) -> Res {
        let dir = tempdir()?;
        let root = dir.path().canonicalize().harness("canonicalize")?;
        let mut want = Manifests::default();
        for (i, c) in case.lib.courses.iter().enumerate() {
            write_rich_course(&root.join(format!("course{i}")), c, case.salt, &mut want)?;
        }
        let library = LocalCourseLibrary::new(&root, UserPreferences::default())
            .must("open", "reading a valid library")?;
        let serialized = SerializedCourseLibrary::from(&library);
        let bytes =
            postcard::to_stdvec(&serialized).must("serialize", "serializing the library")?;
        let back: SerializedCourseLibrary =
            postcard::from_bytes(&bytes).must("deserialize", "deserializing the library")?;
        check!(
            back == serialized,
            "binary-round-trip",
            "the library read back from its binary form differs:\n{back:?}\nexpected\n{serialized:?}"
        );
        let text =
            serde_json::to_string(&serialized).must("serialize", "serializing the library")?;
        let from_json: SerializedCourseLibrary =
            serde_json::from_str(&text).must("deserialize", "deserializing the library")?;
        check!(
            from_json == serialized,
            "json-round-trip",
            "the library read back from JSON differs:\n{from_json:?}\nexpected\n{serialized:?}"
        );
        drop(library);

        // An instance over the serialized library and empty directories.
        let other = tempdir()?;
        let mut embedded = Trane::new_local_from_serialized(other.path(), back)
            .must("open-serialized", "opening a serialized library")?;
        compare_structure(&embedded, &case.lib, "after opening the serialized library")?;
        compare_manifests(&embedded, &want, "after opening the serialized library")?;
        compare_dot(&embedded, &case.lib)?;
        let again = {
            let library = LocalCourseLibrary::new(&root, UserPreferences::default())
                .must("open", "reading a valid library")?;
            SerializedCourseLibrary::from(&library)
        };
        check!(
            again == serialized,
            "unstable",
            "reading the same library twice gives different results"
        );

        // It behaves like the instance over the files.
        let mut local = open(&root).must("open", "opening a valid library")?;
        let now = chrono::Utc::now().timestamp();
        for t in [&mut local, &mut embedded] {
            t.override_current_timestamp(Some(now));
            let trials: Vec<trane::data::ExerciseTrial> = case
                .history
                .iter()
                .map(|h| trane::data::ExerciseTrial {
                    exercise_id: u(&h.exercise),
                    score: f32::from(h.score),
                    timestamp: now - h.seconds_ago,
                })
                .collect();
            trane::practice_stats::PracticeStats::record_exercise_scores(t, &trials)
                .must("record", "recording trials")?;
        }
        for id in case.lib.unit_ids() {
            let a = local
                .get_unit_score(u(&id))
                .must("score-error", "getting a score")?;
            let b = embedded
                .get_unit_score(u(&id))
                .must("score-error", "getting a score")?;
            check!(
                match (a, b) {
                    (None, None) => true,
                    (Some(a), Some(b)) => (a - b).abs() < 1e-3,
                    _ => false,
                },
                "different-score",
                "the score of {id} is {a:?} over the files and {b:?} over the serialized library"
            );
        }
        let a = local
            .get_exercise_batch(None)
            .must("batch-error", "requesting a batch")?;
        let b = embedded
            .get_exercise_batch(None)
            .must("batch-error", "requesting a batch")?;
        check!(
            a.is_empty() == b.is_empty(),
            "different-batch",
            "the batches over the files and the serialized library are {a:?} and {b:?}"
        );
        for m in &b {
            check!(
                want.exercises.get(m.id.as_str()) == Some(m),
                "wrong-manifest",
                "the batch has the exercise {m:?}, expected {:?}",
                want.exercises.get(m.id.as_str())
            );
        }
        stats.add("bytes", bytes.len() as u64);
        if case.lib.courses.len() > 1 && want.exercises.len() > 2 && !case.history.is_empty() {
            stats.mark_nontrivial();
        }
        Ok(())
    }
}

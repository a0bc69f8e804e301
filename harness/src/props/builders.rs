//! The course builders: what is built must open as exactly the given course.

use proptest::{collection::vec, prelude::*};
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::{
    collections::{BTreeMap, BTreeSet},
    fs,
    path::{Path, PathBuf},
};
use trane::{
    course_builder::{
        AssetBuilder, CourseBuilder, ExerciseBuilder, LessonBuilder,
        knowledge_base_builder::{
            CourseBuilder as KbCourseBuilder, ExerciseBuilder as KbExerciseBuilder,
            LessonBuilder as KbLessonBuilder, SimpleKnowledgeBaseCourse,
            SimpleKnowledgeBaseExercise, SimpleKnowledgeBaseLesson,
        },
    },
    data::{
        BasicAsset, CourseManifest, ExerciseAsset, ExerciseManifest, ExerciseManifestBuilder,
        LessonManifest, LessonManifestBuilder,
        course_generator::{
            knowledge_base::{KnowledgeBaseExercise, KnowledgeBaseLesson},
            transcription::TranscriptionLink,
        },
    },
};

use super::generators::{
    EXERCISE_SHORTS, Expected, WEIGHTS, exercise_type, metadata, put, shorts, text, value,
};
use crate::{
    check,
    engine::{OrHarness, OrViolation, Prop, Res, Stats},
    world::{open, tempdir, u},
};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct BExercise {
    pub kind: u8,
    pub content: String,
    pub back: Option<String>,
    pub name: Option<String>,
    pub description: Option<String>,
    pub declarative: Option<bool>,
    /// In a directory of its own.
    pub sub: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct BLesson {
    pub short: u8,
    /// Earlier lessons.
    pub deps: Vec<u8>,
    pub superseded: Vec<u8>,
    pub encompassed: Vec<(u8, u8)>,
    pub name: Option<String>,
    pub description: Option<String>,
    pub metadata: Option<BTreeMap<String, Vec<String>>>,
    pub declarative: Option<bool>,
    /// Nothing, inlined, or in a file.
    pub instructions: (u8, String),
    pub material: (u8, String),
    pub exercises: Vec<BExercise>,
    /// Further files.
    pub extra: Vec<String>,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Kind {
    Regular,
    KnowledgeBase,
    Simple,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Fault {
    /// A file that a manifest refers to is not built.
    Missing(u16),
    /// A file to build is there already.
    Existing(u16),
    /// Two lessons or two exercises of a lesson have the same ID.
    Duplicate(u16, bool),
    /// A lesson or an exercise has no ID.
    Empty(u16, bool),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct BuildCase {
    pub kind: Kind,
    pub lessons: Vec<BLesson>,
    /// What the lessons are replaced with by building once more.
    pub again: Option<Vec<BLesson>>,
    pub template_metadata: Option<BTreeMap<String, Vec<String>>>,
    pub instructions: (u8, String),
    pub inlined: bool,
    pub fault: Option<Fault>,
}

/// Picks some of the earlier lessons, without repetition.
fn pick(list: &[u8], i: usize) -> Vec<usize> {
    let mut seen = BTreeSet::new();
    list.iter()
        .filter(|_| i > 0)
        .map(|n| *n as usize % i)
        .filter(|j| seen.insert(*j))
        .collect()
}

/// An asset in a manifest and the builder of its file.
fn basic(a: &(u8, String), file: &str) -> (Option<BasicAsset>, Option<AssetBuilder>) {
    match a.0 % 4 {
        0 => (None, None),
        1 => (
            Some(BasicAsset::InlinedAsset {
                content: a.1.clone(),
            }),
            None,
        ),
        _ => (
            Some(BasicAsset::MarkdownAsset { path: file.into() }),
            Some(AssetBuilder {
                file_name: file.into(),
                contents: a.1.clone(),
            }),
        ),
    }
}

/// The same asset as it appears in the library.
fn resolved(a: Option<BasicAsset>, dir: &Path) -> Option<BasicAsset> {
    a.map(|a| match a {
        BasicAsset::MarkdownAsset { path } => BasicAsset::MarkdownAsset {
            path: dir.join(path).display().to_string(),
        },
        a => a,
    })
}

/// All the files below the directory and what is in them.
fn snapshot(dir: &Path) -> Res<BTreeMap<PathBuf, Option<Vec<u8>>>> {
    let mut out = BTreeMap::new();
    let mut todo = vec![dir.to_path_buf()];
    while let Some(d) = todo.pop() {
        for entry in fs::read_dir(&d).harness("read dir")? {
            let path = entry.harness("entry")?.path();
            if path.is_dir() {
                out.insert(path.clone(), None);
                todo.push(path);
            } else {
                out.insert(path.clone(), Some(fs::read(&path).harness("read")?));
            }
        }
    }
    Ok(out)
}

/// Checks that the assets are on disk with exactly their contents.
fn check_files(files: &[(PathBuf, String)]) -> Res {
    for (path, content) in files {
        let got = fs::read(path).must("asset", &format!("reading the asset {}", path.display()))?;
        check!(
            got == content.as_bytes(),
            "asset",
            "{} holds {:?}, expected {content:?}",
            path.display(),
            String::from_utf8_lossy(&got)
        );
    }
    Ok(())
}

fn regular(case: &BuildCase, root: &Path, stats: &mut Stats) -> Res {
    let course_dir = root.join("the course");
    let (instructions, builder) = basic(&case.instructions, "instructions.md");
    // The assets with their directories, in the order of the builders.
    let mut assets: Vec<(PathBuf, AssetBuilder)> = vec![];
    let mut referred = vec![];
    if let Some(b) = builder {
        referred.push(assets.len());
        assets.push((course_dir.clone(), b));
    }
    let mut want = Expected::default();
    let manifest = CourseManifest {
        id: u("course"),
        name: "Course".into(),
        dependencies: vec![u("somewhere::else")],
        encompassed: vec![],
        superseded: vec![],
        description: Some("About {it}".into()),
        authors: Some(vec!["A".into(), "B".into()]),
        metadata: case.template_metadata.clone(),
        course_material: None,
        course_instructions: instructions.clone(),
        generator_config: None,
    };
    want.courses.insert(
        "course".into(),
        value(&CourseManifest {
            course_instructions: resolved(instructions, &course_dir),
            ..manifest.clone()
        })?,
    );
    let shorts = shorts(&case.lessons.iter().map(|l| l.short).collect::<Vec<_>>());
    let id = |j: usize| format!("course::{}", shorts[j]);
    // For each lesson, its manifest and directory and the manifests and directories of exercises.
    type Built<T> = (T, PathBuf);
    let mut lessons: Vec<(Built<LessonManifest>, Vec<Built<ExerciseManifest>>)> = vec![];
    for (i, l) in case.lessons.iter().enumerate() {
        let dir = course_dir.join(format!("lesson_{i}"));
        let mut add = |builder: Option<AssetBuilder>, dir: &Path, is_referred: bool| {
            if let Some(b) = builder {
                if is_referred {
                    referred.push(assets.len());
                }
                assets.push((dir.to_path_buf(), b));
            }
        };
        let (lesson_instructions, builder) = basic(&l.instructions, "texts/instructions.md");
        add(builder, &dir, true);
        let (lesson_material, builder) = basic(&l.material, "material.md");
        add(builder, &dir, true);
        for (k, content) in l.extra.iter().enumerate() {
            let b = AssetBuilder {
                file_name: format!("extra_{k}.txt"),
                contents: content.clone(),
            };
            add(Some(b), &dir, false);
        }
        let lesson = LessonManifest {
            id: u(&id(i)),
            course_id: u("course"),
            dependencies: pick(&l.deps, i).into_iter().map(|j| u(&id(j))).collect(),
            superseded: pick(&l.superseded, i)
                .into_iter()
                .map(|j| u(&id(j)))
                .collect(),
            encompassed: pick(&l.encompassed.iter().map(|e| e.0).collect::<Vec<_>>(), i)
                .into_iter()
                .map(|j| (u(&id(j)), WEIGHTS[(i + j) % 4]))
                .collect(),
            name: l.name.clone().unwrap_or_default(),
            description: l.description.clone(),
            metadata: l.metadata.clone().or(case.template_metadata.clone()),
            lesson_instructions,
            lesson_material,
        };
        let mut exercises = vec![];
        for (k, e) in l.exercises.iter().enumerate() {
            let edir = dir.join(format!("exercise_{k}"));
            let file = |name: &str| {
                if e.sub {
                    format!("files/{name}")
                } else {
                    name.to_string()
                }
            };
            let mut asset = |name: &str, content: &str| {
                add(
                    Some(AssetBuilder {
                        file_name: file(name),
                        contents: content.to_string(),
                    }),
                    &edir,
                    true,
                );
                file(name)
            };
            let exercise_asset = match e.kind % 6 {
                0 => ExerciseAsset::BasicAsset(BasicAsset::InlinedAsset {
                    content: e.content.clone(),
                }),
                1 => ExerciseAsset::BasicAsset(BasicAsset::MarkdownAsset {
                    path: asset("exercise.md", &e.content),
                }),
                2 => ExerciseAsset::FlashcardAsset {
                    front_path: asset("front.md", &e.content),
                    back_path: e.back.as_ref().map(|b| asset("back.md", b)),
                },
                3 => ExerciseAsset::InlineFlashcardAsset {
                    front_content: e.content.clone(),
                    back_content: e.back.clone(),
                },
                4 => ExerciseAsset::SoundSliceAsset {
                    link: e.content.clone(),
                    description: e.description.clone(),
                    backup: e.back.as_ref().map(|b| asset("backup.xml", b)),
                },
                _ => ExerciseAsset::TranscriptionAsset {
                    content: e.content.clone(),
                    external_link: e.back.clone().map(TranscriptionLink::YouTube),
                },
            };
            exercises.push((
                ExerciseManifest {
                    id: u(&format!("{}::e{k}", lesson.id)),
                    lesson_id: lesson.id,
                    course_id: u("course"),
                    name: e.name.clone().unwrap_or_default(),
                    description: e.description.clone(),
                    exercise_type: exercise_type(e.declarative.or(l.declarative).unwrap_or(false)),
                    exercise_asset,
                },
                edir,
            ));
        }
        lessons.push(((lesson, dir), exercises));
    }
    let missing = match case.fault {
        Some(Fault::Missing(n)) if !referred.is_empty() => {
            Some(referred[n as usize % referred.len()])
        }
        _ => None,
    };
    let of = |dir: &Path| -> Vec<AssetBuilder> {
        assets
            .iter()
            .enumerate()
            .filter(|(i, (d, _))| d == dir && missing != Some(*i))
            .map(|(_, (_, b))| b.clone())
            .collect()
    };
    let name = |p: &Path| p.file_name().unwrap().to_str().unwrap().to_string();
    let course = CourseBuilder {
        directory_name: name(&course_dir),
        course_manifest: manifest,
        asset_builders: of(&course_dir),
        // What all lessons have in common comes from the template.
        lesson_manifest_template: LessonManifestBuilder::default()
            .course_id("course")
            .metadata(case.template_metadata.clone())
            .clone(),
        lesson_builders: lessons
            .iter()
            .zip(&case.lessons)
            .map(|(((lesson, dir), exercises), l)| {
                let (lesson, own) = (lesson.clone(), l.metadata.is_some());
                let mut template = ExerciseManifestBuilder::default();
                template.course_id("course").lesson_id(lesson.id);
                if let Some(d) = l.declarative {
                    template.exercise_type(exercise_type(d));
                }
                LessonBuilder {
                    directory_name: name(dir),
                    manifest_closure: Box::new(move |mut b: LessonManifestBuilder| {
                        let l = lesson.clone();
                        b.id(l.id)
                            .name(l.name)
                            .description(l.description)
                            .dependencies(l.dependencies)
                            .superseded(l.superseded)
                            .encompassed(l.encompassed)
                            .lesson_instructions(l.lesson_instructions)
                            .lesson_material(l.lesson_material);
                        if own {
                            b.metadata(l.metadata);
                        }
                        b
                    }),
                    exercise_manifest_template: template,
                    asset_builders: of(dir),
                    exercise_builders: exercises
                        .iter()
                        .zip(&l.exercises)
                        .map(|((exercise, dir), e)| {
                            let (exercise, own) = (exercise.clone(), e.declarative.is_some());
                            ExerciseBuilder {
                                directory_name: name(dir),
                                manifest_closure: Box::new(
                                    move |mut b: ExerciseManifestBuilder| {
                                        let e = exercise.clone();
                                        b.id(e.id)
                                            .name(e.name)
                                            .description(e.description)
                                            .exercise_asset(e.exercise_asset);
                                        if own {
                                            b.exercise_type(e.exercise_type);
                                        }
                                        b
                                    },
                                ),
                                asset_builders: of(dir),
                            }
                        })
                        .collect(),
                }
            })
            .collect(),
    };

    if let Some(n) = missing {
        let (dir, b) = &assets[n];
        check!(
            course.build(root).is_err(),
            "missing-accepted",
            "building works although {} in {} is missing",
            b.file_name,
            dir.display()
        );
        stats.hit("missing_files");
        return Ok(());
    }
    if let Some(Fault::Existing(n)) = case.fault
        && !assets.is_empty()
    {
        let (dir, b) = &assets[n as usize % assets.len()];
        let path = dir.join(&b.file_name);
        fs::create_dir_all(path.parent().unwrap()).harness("create dir")?;
        put(&path, "precious")?;
        check!(
            course.build(root).is_err(),
            "existing-accepted",
            "building works although {} exists already",
            path.display()
        );
        check_files(&[(path, "precious".to_string())])?;
        stats.hit("existing_files");
        return Ok(());
    }

    course.build(root).must("build", "building the course")?;
    let files: Vec<(PathBuf, String)> = assets
        .iter()
        .map(|(d, b)| (d.join(&b.file_name), b.contents.clone()))
        .collect();
    check_files(&files)?;
    for ((lesson, dir), exercises) in lessons {
        want.lesson(&LessonManifest {
            lesson_instructions: resolved(lesson.lesson_instructions, &dir),
            lesson_material: resolved(lesson.lesson_material, &dir),
            ..lesson
        })?;
        for (exercise, dir) in exercises {
            let full = |p: String| dir.join(p).display().to_string();
            want.exercise(&ExerciseManifest {
                exercise_asset: match exercise.exercise_asset {
                    ExerciseAsset::BasicAsset(a) => {
                        ExerciseAsset::BasicAsset(resolved(Some(a), &dir).unwrap())
                    }
                    ExerciseAsset::FlashcardAsset {
                        front_path,
                        back_path,
                    } => ExerciseAsset::FlashcardAsset {
                        front_path: full(front_path),
                        back_path: back_path.map(full),
                    },
                    ExerciseAsset::SoundSliceAsset {
                        link,
                        description,
                        backup,
                    } => ExerciseAsset::SoundSliceAsset {
                        link,
                        description,
                        backup: backup.map(full),
                    },
                    a => a,
                },
                ..exercise
            })?;
        }
    }
    want.compare(&open(root).must("open", "opening the library")?)?;
    check_files(&files)?;
    stats.add("files", files.len() as u64);
    Ok(())
}

const COURSE: &str = "kb::course";

fn lines(s: &str) -> Vec<String> {
    s.split('\n').map(ToString::to_string).collect()
}

/// The further files of a lesson of a knowledge base course.
fn kb_files(l: &BLesson) -> Vec<AssetBuilder> {
    let mut files = vec![];
    for (a, name) in [
        (&l.instructions, "lesson.instructions.md"),
        (&l.material, "lesson.material.md"),
    ] {
        if a.0 % 4 >= 2 {
            files.push(AssetBuilder {
                file_name: name.into(),
                contents: a.1.clone(),
            });
        }
    }
    for (k, content) in l.extra.iter().enumerate() {
        files.push(AssetBuilder {
            file_name: format!("files/extra_{k}.txt"),
            contents: content.clone(),
        });
    }
    files
}

fn exercise_short(l: &BLesson, k: usize) -> String {
    EXERCISE_SHORTS[(k + l.short as usize) % EXERCISE_SHORTS.len()].to_string()
}

/// What the lessons must be in the library.
fn kb_expected(
    case: &BuildCase,
    lessons: &[BLesson],
    shorts: &[String],
    dir: &Path,
    manifest: &CourseManifest,
) -> Res<(Expected, Vec<(PathBuf, String)>)> {
    let simple = case.kind == Kind::Simple;
    let mut want = Expected::default();
    let mut files = vec![];
    want.courses.insert(COURSE.into(), value(manifest)?);
    let id = |j: usize| u(&format!("{COURSE}::{}", shorts[j]));
    for (i, l) in lessons.iter().enumerate() {
        let ldir = dir.join(format!("{}.lesson", shorts[i]));
        for b in kb_files(l) {
            files.push((ldir.join(&b.file_name), b.contents));
        }
        let asset = |a: &(u8, String), name: &str| {
            (a.0 % 4 >= 2).then(|| BasicAsset::MarkdownAsset {
                path: ldir.join(name).display().to_string(),
            })
        };
        want.lesson(&LessonManifest {
            id: id(i),
            course_id: u(COURSE),
            dependencies: pick(&l.deps, i).into_iter().map(id).collect(),
            superseded: pick(&l.superseded, i).into_iter().map(id).collect(),
            encompassed: pick(&l.encompassed.iter().map(|e| e.0).collect::<Vec<_>>(), i)
                .into_iter()
                .map(|j| (id(j), WEIGHTS[(i + j) % 4]))
                .collect(),
            name: l
                .name
                .clone()
                .filter(|_| !simple)
                .unwrap_or(format!("Lesson {}", shorts[i])),
            description: l.description.clone().filter(|_| !simple),
            metadata: l.metadata.clone(),
            lesson_instructions: asset(&l.instructions, "lesson.instructions.md"),
            lesson_material: asset(&l.material, "lesson.material.md"),
        })?;
        for (k, e) in l.exercises.iter().enumerate() {
            let short = exercise_short(l, k);
            let front = ldir.join(format!("{short}.front.md"));
            let back = ldir.join(format!("{short}.back.md"));
            files.push((front.clone(), e.content.clone()));
            if let Some(b) = &e.back {
                files.push((back.clone(), b.clone()));
            }
            want.exercise(&ExerciseManifest {
                id: u(&format!("{}::{short}", id(i))),
                lesson_id: id(i),
                course_id: u(COURSE),
                name: e
                    .name
                    .clone()
                    .filter(|_| !simple)
                    .unwrap_or(format!("Exercise {short}")),
                description: e.description.clone().filter(|_| !simple),
                exercise_type: exercise_type(
                    e.declarative
                        .or(l.declarative)
                        .filter(|_| !simple)
                        .unwrap_or(false),
                ),
                exercise_asset: if case.inlined {
                    ExerciseAsset::InlineFlashcardAsset {
                        front_content: e.content.clone(),
                        back_content: e.back.clone(),
                    }
                } else {
                    ExerciseAsset::FlashcardAsset {
                        front_path: front.display().to_string(),
                        back_path: e.back.as_ref().map(|_| back.display().to_string()),
                    }
                },
            })?;
        }
    }
    Ok((want, files))
}

fn kb_manifest(case: &BuildCase) -> Res<CourseManifest> {
    serde_json::from_value(json!({
        "id": COURSE, "name": "Course", "metadata": case.template_metadata,
        "generator_config": {"KnowledgeBase": {"inlined": case.inlined}},
    }))
    .harness("manifest")
}

fn simple_course(
    manifest: &CourseManifest,
    lessons: &[BLesson],
    shorts: &[String],
    encompassed: &[(ustr::Ustr, f32)],
) -> SimpleKnowledgeBaseCourse {
    SimpleKnowledgeBaseCourse {
        manifest: manifest.clone(),
        encompassed: encompassed.to_vec(),
        lessons: lessons
            .iter()
            .enumerate()
            .map(|(i, l)| SimpleKnowledgeBaseLesson {
                short_id: u(&shorts[i]),
                dependencies: pick(&l.deps, i)
                    .into_iter()
                    .map(|j| u(&shorts[j]))
                    .collect(),
                superseded: pick(&l.superseded, i)
                    .into_iter()
                    .map(|j| u(&shorts[j]))
                    .collect(),
                encompassed: pick(&l.encompassed.iter().map(|e| e.0).collect::<Vec<_>>(), i)
                    .into_iter()
                    .map(|j| (u(&shorts[j]), WEIGHTS[(i + j) % 4]))
                    .collect(),
                metadata: l.metadata.clone(),
                additional_files: kb_files(l),
                exercises: l
                    .exercises
                    .iter()
                    .enumerate()
                    .map(|(k, e)| SimpleKnowledgeBaseExercise {
                        short_id: exercise_short(l, k),
                        front: lines(&e.content),
                        back: e.back.as_deref().map(lines).unwrap_or_default(),
                    })
                    .collect(),
            })
            .collect(),
    }
}

fn simple(case: &BuildCase, root: &Path, stats: &mut Stats) -> Res {
    let dir = root.join("kb");
    fs::create_dir_all(&dir).harness("create dir")?;
    let mut manifest = kb_manifest(case)?;
    let names = shorts(&case.lessons.iter().map(|l| l.short).collect::<Vec<_>>());
    // The course may encompass others, according to its manifest or the list beside it, which
    // comes first.
    let n = case.instructions.1.len() + case.lessons.len();
    if n % 2 == 1 {
        manifest.encompassed = vec![(u("other"), 0.25)];
    }
    let encompassed: Vec<(ustr::Ustr, f32)> = [("another", 0.5), ("other", 1.0)]
        .into_iter()
        .take(n / 2 % 3)
        .map(|(id, w)| (u(id), w))
        .collect();
    let course = simple_course(&manifest, &case.lessons, &names, &encompassed);
    if !encompassed.is_empty() {
        manifest.encompassed = encompassed.clone();
    }

    // Such courses are written as JSON by hand.
    let text = serde_json::to_string(&course).harness("serialize")?;
    let parsed: SimpleKnowledgeBaseCourse =
        serde_json::from_str(&text).must("json", "reading a serialized course")?;
    check!(
        parsed == course,
        "json",
        "{text} reads as another course than it was written from"
    );
    course.build(&dir).must("build", "building the course")?;
    let (want, files) = kb_expected(case, &case.lessons, &names, &dir, &manifest)?;
    check_files(&files)?;
    want.compare(&open(root).must("open", "opening the library")?)?;
    stats.add("files", files.len() as u64);

    // Building again replaces the lessons.
    let lessons: Vec<BLesson> = match &case.again {
        None => case.lessons.clone(),
        Some(again) => case
            .lessons
            .iter()
            .enumerate()
            .map(|(i, old)| {
                let mut new = again.get(i).unwrap_or(old).clone();
                new.short = old.short;
                new
            })
            .collect(),
    };
    let mut second = simple_course(&manifest, &lessons, &names, &encompassed);
    // Nothing is changed by a course that is not valid.
    let num = lessons.len();
    let with_exercise: Vec<usize> = (0..num)
        .filter(|i| !lessons[*i].exercises.is_empty())
        .collect();
    let at = |n: u16| n as usize % num.max(1);
    let ex_at = |n: u16| {
        with_exercise
            .get(n as usize % with_exercise.len().max(1))
            .copied()
    };
    let invalid = match case.fault {
        Some(Fault::Duplicate(n, true)) if num > 0 => {
            let copy = second.lessons[at(n)].clone();
            second.lessons.push(copy);
            true
        }
        Some(Fault::Duplicate(n, false)) if ex_at(n).is_some() => {
            let l = &mut second.lessons[ex_at(n).unwrap()];
            let copy = SimpleKnowledgeBaseExercise {
                front: vec!["another".into()],
                ..l.exercises[0].clone()
            };
            l.exercises.push(copy);
            true
        }
        Some(Fault::Empty(n, true)) if num > 0 => {
            second.lessons[at(n)].short_id = u("");
            true
        }
        Some(Fault::Empty(n, false)) if ex_at(n).is_some() => {
            let l = &mut second.lessons[ex_at(n).unwrap()];
            l.exercises[0].short_id = String::new();
            true
        }
        _ => false,
    };
    if invalid {
        let before = snapshot(&dir)?;
        check!(
            second.build(&dir).is_err(),
            "invalid-accepted",
            "building works with the fault {:?}",
            case.fault
        );
        check!(
            snapshot(&dir)? == before,
            "invalid-changes",
            "the files changed by building a course with the fault {:?}",
            case.fault
        );
        want.compare(&open(root).must("open", "opening the library")?)?;
        stats.hit("invalid_courses");
    } else {
        second
            .build(&dir)
            .must("build", "building the course again")?;
        let (want, files) = kb_expected(case, &lessons, &names, &dir, &manifest)?;
        check_files(&files)?;
        want.compare(&open(root).must("open", "opening the library")?)?;
        stats.hit("rebuilt");
    }
    Ok(())
}

fn knowledge_base(case: &BuildCase, root: &Path, stats: &mut Stats) -> Res {
    let dir = root.join("kb");
    let manifest = kb_manifest(case)?;
    let names = shorts(&case.lessons.iter().map(|l| l.short).collect::<Vec<_>>());
    let course = KbCourseBuilder {
        directory_name: "kb".into(),
        manifest: manifest.clone(),
        assets: vec![AssetBuilder {
            file_name: "about.txt".into(),
            contents: case.instructions.1.clone(),
        }],
        lessons: case
            .lessons
            .iter()
            .enumerate()
            .map(|(i, l)| KbLessonBuilder {
                lesson: KnowledgeBaseLesson {
                    short_id: u(&names[i]),
                    course_id: u(COURSE),
                    dependencies: pick(&l.deps, i).into_iter().map(|j| u(&names[j])).collect(),
                    superseded: pick(&l.superseded, i)
                        .into_iter()
                        .map(|j| u(&names[j]))
                        .collect(),
                    encompassed: pick(&l.encompassed.iter().map(|e| e.0).collect::<Vec<_>>(), i)
                        .into_iter()
                        .map(|j| (u(&names[j]), WEIGHTS[(i + j) % 4]))
                        .collect(),
                    name: l.name.clone(),
                    description: l.description.clone(),
                    metadata: l.metadata.clone(),
                    has_instructions: l.instructions.0 % 4 >= 2,
                    has_material: l.material.0 % 4 >= 2,
                    default_exercise_type: l.declarative.map(exercise_type),
                },
                asset_builders: kb_files(l),
                exercises: l
                    .exercises
                    .iter()
                    .enumerate()
                    .map(|(k, e)| {
                        let short_id = exercise_short(l, k);
                        let front_file = format!("{short_id}.front.md");
                        let back_file = e.back.as_ref().map(|_| format!("{short_id}.back.md"));
                        let mut asset_builders = vec![AssetBuilder {
                            file_name: front_file.clone(),
                            contents: e.content.clone(),
                        }];
                        if let (Some(file_name), Some(contents)) = (&back_file, &e.back) {
                            asset_builders.push(AssetBuilder {
                                file_name: file_name.clone(),
                                contents: contents.clone(),
                            });
                        }
                        KbExerciseBuilder {
                            exercise: KnowledgeBaseExercise {
                                short_id,
                                short_lesson_id: u(&names[i]),
                                course_id: u(COURSE),
                                front_file,
                                back_file,
                                name: e.name.clone(),
                                description: e.description.clone(),
                                exercise_type: e.declarative.map(exercise_type),
                            },
                            asset_builders,
                        }
                    })
                    .collect(),
            })
            .collect(),
    };
    course.build(root).must("build", "building the course")?;
    let (want, mut files) = kb_expected(case, &case.lessons, &names, &dir, &manifest)?;
    files.push((dir.join("about.txt"), case.instructions.1.clone()));
    check_files(&files)?;
    want.compare(&open(root).must("open", "opening the library")?)?;
    stats.add("files", files.len() as u64);

    // A course that exists is not touched.
    let before = snapshot(&dir)?;
    check!(
        course.build(root).is_err(),
        "existing-accepted",
        "the course is built although its directory exists"
    );
    check!(
        snapshot(&dir)? == before,
        "existing-changes",
        "the files of the course changed by building it once more"
    );
    Ok(())
}

pub struct C26;
impl Prop for C26 {
    type Case = BuildCase;
    fn id(&self) -> &'static str {
        "C26"
    }
    fn rule(&self) -> &'static str {
        "the course has at least two lessons, one of which depends on another, and two exercises"
    }
    fn quick_cases(&self) -> usize {
        4000
    }
    fn strategy(&self, thorough: bool) -> BoxedStrategy<BuildCase> {
        let opt = || prop::option::of(text());
        let asset = || (0u8..4, text());
        let exercise = (
            (0u8..6, text(), opt(), opt(), opt()),
            (prop::option::of(any::<bool>()), any::<bool>()),
        )
            .prop_map(
                |((kind, content, back, name, description), (declarative, sub))| BExercise {
                    kind,
                    content,
                    back,
                    name,
                    description,
                    declarative,
                    sub,
                },
            );
        let few = || vec(any::<u8>(), 0..3);
        let lesson = (
            (
                any::<u8>(),
                few(),
                few(),
                vec((any::<u8>(), any::<u8>()), 0..3),
            ),
            (opt(), opt(), metadata(), prop::option::of(any::<bool>())),
            (asset(), asset(), vec(exercise, 0..4), vec(text(), 0..2)),
        )
            .prop_map(
                |(
                    (short, deps, superseded, encompassed),
                    (name, description, metadata, declarative),
                    (instructions, material, exercises, extra),
                )| BLesson {
                    short,
                    deps,
                    superseded,
                    encompassed,
                    name,
                    description,
                    metadata,
                    declarative,
                    instructions,
                    material,
                    exercises,
                    extra,
                },
            );
        let max = if thorough { 8 } else { 5 };
        let fault = prop_oneof![
            any::<u16>().prop_map(Fault::Missing),
            any::<u16>().prop_map(Fault::Existing),
            (any::<u16>(), any::<bool>()).prop_map(|(n, l)| Fault::Duplicate(n, l)),
            (any::<u16>(), any::<bool>()).prop_map(|(n, l)| Fault::Empty(n, l)),
        ];
        (
            prop_oneof![
                2 => Just(Kind::Regular),
                1 => Just(Kind::KnowledgeBase),
                1 => Just(Kind::Simple),
            ],
            vec(lesson.clone(), 0..max),
            prop::option::of(vec(lesson, 0..max)),
            metadata(),
            asset(),
            any::<bool>(),
            prop::option::of(fault),
        )
            .prop_map(
                |(kind, lessons, again, template_metadata, instructions, inlined, fault)| {
                    BuildCase {
                        kind,
                        lessons,
                        again,
                        template_metadata,
                        instructions,
                        inlined,
                        fault,
                    }
                },
            )
            .boxed()
    }
    fn check(&self, case: &BuildCase, stats: &mut Stats) -> Res {
        let tmp = tempdir()?;
        let root = tmp.path().canonicalize().harness("canonicalize")?;
        match case.kind {
            Kind::Regular => regular(case, &root, stats)?,
            Kind::KnowledgeBase => knowledge_base(case, &root, stats)?,
            Kind::Simple => simple(case, &root, stats)?,
        }
        let depends = case
            .lessons
            .iter()
            .enumerate()
            .any(|(i, l)| !pick(&l.deps, i).is_empty());
        let exercises: usize = case.lessons.iter().map(|l| l.exercises.len()).sum();
        if depends && exercises >= 2 {
            stats.mark_nontrivial();
        }
        Ok(())
    }
}

//! C18: documents of the published formats keep their meaning.

use chrono::{DateTime, Utc};
use proptest::{collection::vec, prelude::*};
use serde::{Deserialize, Serialize, de::DeserializeOwned};
use serde_json::{Map, Value, json};
use std::fmt::Debug;
use trane::{
    course_builder::{
        AssetBuilder,
        knowledge_base_builder::{
            SimpleKnowledgeBaseCourse, SimpleKnowledgeBaseExercise, SimpleKnowledgeBaseLesson,
        },
    },
    data::{
        BasicAsset, CourseGenerator, CourseManifest, ExerciseAsset, ExerciseManifest,
        ExerciseTrial, LessonManifest, MasteryScore, MasteryWindow, PassingScoreOptions,
        RepositoryMetadata, SchedulerOptions, UnitReward, UnitType, UserPreferences,
        course_generator::music_piece::MusicPassage,
        filter::{ExerciseFilter, KeyValueFilter, SavedFilter, StudySession, UnitFilter},
    },
};

use crate::{
    check,
    engine::{OrHarness, Prop, Res, Stats, violation},
};

/// The type of a value in a document.
#[derive(Clone, Copy)]
enum T {
    /// A string.
    S,
    /// A number with a fraction.
    F,
    /// A number without sign up to a limit.
    N(u64),
    /// A number with a sign.
    I,
    B,
    /// A point in time.
    D,
    V(&'static T),
    O(&'static T),
    /// An object from any keys.
    M(&'static T),
    /// An object from numbers.
    K(&'static T),
    P(&'static [T]),
    R(&'static str),
}
use T::*;

/// Whether a field has to be there or what it is otherwise.
#[derive(Clone, Copy)]
enum Otherwise {
    Required,
    Null,
    Empty,
    EmptyObject,
    Blank,
    False,
    Variant(&'static str),
}
use Otherwise::*;

type Field = (&'static str, T, Otherwise);

#[derive(Clone, Copy)]
enum Var {
    Unit,
    New(T),
    Of(&'static [Field]),
}

enum Def {
    Struct(&'static [Field]),
    Enum(&'static [(&'static str, Var)]),
}
use Def::{Enum, Struct};

const STRINGS: T = V(&S);
const METADATA: T = O(&M(&STRINGS));
const WEIGHTED: T = V(&P(&[S, F]));
const U32: T = N(u32::MAX as u64);
const ANY: T = N(u64::MAX);

/// The formats, as the documentation of the types describes them.
const DEFS: &[(&str, Def)] = &[
    (
        "CourseManifest",
        Struct(&[
            ("id", S, Required),
            ("name", S, Blank),
            ("dependencies", STRINGS, Empty),
            ("encompassed", WEIGHTED, Empty),
            ("superseded", STRINGS, Empty),
            ("description", O(&S), Null),
            ("authors", O(&STRINGS), Null),
            ("metadata", METADATA, Null),
            ("course_material", O(&R("BasicAsset")), Null),
            ("course_instructions", O(&R("BasicAsset")), Null),
            ("generator_config", O(&R("CourseGenerator")), Null),
        ]),
    ),
    (
        "LessonManifest",
        Struct(&[
            ("id", S, Required),
            ("dependencies", STRINGS, Empty),
            ("encompassed", WEIGHTED, Empty),
            ("superseded", STRINGS, Empty),
            ("course_id", S, Required),
            ("name", S, Blank),
            ("description", O(&S), Null),
            ("metadata", METADATA, Null),
            ("lesson_material", O(&R("BasicAsset")), Null),
            ("lesson_instructions", O(&R("BasicAsset")), Null),
        ]),
    ),
    (
        "ExerciseManifest",
        Struct(&[
            ("id", S, Required),
            ("lesson_id", S, Required),
            ("course_id", S, Required),
            ("name", S, Blank),
            ("description", O(&S), Null),
            ("exercise_type", R("ExerciseType"), Variant("Procedural")),
            ("exercise_asset", R("ExerciseAsset"), Required),
        ]),
    ),
    (
        "ExerciseAsset",
        Enum(&[
            ("BasicAsset", Var::New(R("BasicAsset"))),
            (
                "FlashcardAsset",
                Var::Of(&[("front_path", S, Required), ("back_path", O(&S), Null)]),
            ),
            (
                "InlineFlashcardAsset",
                Var::Of(&[
                    ("front_content", S, Required),
                    ("back_content", O(&S), Null),
                ]),
            ),
            (
                "LiteracyAsset",
                Var::Of(&[
                    ("lesson_type", R("LiteracyLessonType"), Required),
                    ("examples", V(&P(&[S, O(&S)])), Empty),
                    ("exceptions", V(&P(&[S, O(&S)])), Empty),
                ]),
            ),
            (
                "SoundSliceAsset",
                Var::Of(&[
                    ("link", S, Required),
                    ("description", O(&S), Null),
                    ("backup", O(&S), Null),
                ]),
            ),
            (
                "TranscriptionAsset",
                Var::Of(&[
                    ("content", S, Blank),
                    ("external_link", O(&R("TranscriptionLink")), Null),
                ]),
            ),
        ]),
    ),
    (
        "UserPreferences",
        Struct(&[
            ("transcription", O(&R("TranscriptionPreferences")), Null),
            ("scheduler", O(&R("SchedulerPreferences")), Null),
            ("ignored_paths", STRINGS, Empty),
        ]),
    ),
    (
        "SavedFilter",
        Struct(&[
            ("id", S, Required),
            ("description", S, Required),
            ("filter", R("UnitFilter"), Required),
        ]),
    ),
    (
        "StudySession",
        Struct(&[
            ("id", S, Required),
            ("description", S, Blank),
            ("parts", V(&R("SessionPart")), Empty),
        ]),
    ),
    (
        "ExerciseFilter",
        Enum(&[
            ("UnitFilter", Var::New(R("UnitFilter"))),
            ("StudySession", Var::New(R("StudySessionData"))),
        ]),
    ),
    (
        "SchedulerOptions",
        Struct(&[
            ("batch_size", ANY, Required),
            ("relearn_fraction", F, Required),
            ("new_window_opts", R("MasteryWindow"), Required),
            ("target_window_opts", R("MasteryWindow"), Required),
            ("current_window_opts", R("MasteryWindow"), Required),
            ("easy_window_opts", R("MasteryWindow"), Required),
            ("mastered_window_opts", R("MasteryWindow"), Required),
            ("passing_score", R("PassingScoreOptions"), Required),
            ("superseding_score", F, Required),
            ("num_trials", U32, Required),
            ("num_deltas", U32, Required),
            ("num_rewards", U32, Required),
            ("max_lessons_in_progress", ANY, Required),
        ]),
    ),
    (
        "SimpleKnowledgeBaseCourse",
        Struct(&[
            ("manifest", R("CourseManifest"), Required),
            ("encompassed", WEIGHTED, Empty),
            ("lessons", V(&R("SimpleKnowledgeBaseLesson")), Empty),
        ]),
    ),
    (
        "RepositoryMetadata",
        Struct(&[("id", S, Required), ("url", S, Required)]),
    ),
    (
        "ExerciseTrial",
        Struct(&[
            ("exercise_id", S, Required),
            ("score", F, Required),
            ("timestamp", I, Required),
        ]),
    ),
    (
        "UnitReward",
        Struct(&[
            ("unit_id", S, Required),
            ("value", F, Required),
            ("weight", F, Required),
            ("timestamp", I, Required),
        ]),
    ),
    (
        "MasteryScore",
        Enum(&[
            ("One", Var::Unit),
            ("Two", Var::Unit),
            ("Three", Var::Unit),
            ("Four", Var::Unit),
            ("Five", Var::Unit),
        ]),
    ),
    (
        "UnitType",
        Enum(&[
            ("Exercise", Var::Unit),
            ("Lesson", Var::Unit),
            ("Course", Var::Unit),
        ]),
    ),
    (
        "CourseGenerator",
        Enum(&[
            ("KnowledgeBase", Var::New(R("KnowledgeBaseConfig"))),
            ("Literacy", Var::New(R("LiteracyConfig"))),
            ("MusicPiece", Var::New(R("MusicPieceConfig"))),
            ("Transcription", Var::New(R("TranscriptionConfig"))),
        ]),
    ),
    // From here on only as parts of the ones above.
    (
        "BasicAsset",
        Enum(&[
            ("MarkdownAsset", Var::Of(&[("path", S, Required)])),
            ("InlinedAsset", Var::Of(&[("content", S, Required)])),
            ("InlinedUniqueAsset", Var::Of(&[("content", S, Required)])),
        ]),
    ),
    (
        "MusicPassage",
        Struct(&[
            ("start", S, Required),
            ("end", S, Required),
            ("sub_passages", K(&R("MusicPassage")), Required),
        ]),
    ),
    (
        "KeyValueFilter",
        Enum(&[
            (
                "CourseFilter",
                Var::Of(&[
                    ("key", S, Required),
                    ("value", S, Required),
                    ("filter_type", R("FilterType"), Required),
                ]),
            ),
            (
                "LessonFilter",
                Var::Of(&[
                    ("key", S, Required),
                    ("value", S, Required),
                    ("filter_type", R("FilterType"), Required),
                ]),
            ),
            (
                "CombinedFilter",
                Var::Of(&[
                    ("op", R("FilterOp"), Required),
                    ("filters", V(&R("KeyValueFilter")), Required),
                ]),
            ),
        ]),
    ),
    (
        "UnitFilter",
        Enum(&[
            (
                "CourseFilter",
                Var::Of(&[("course_ids", STRINGS, Required)]),
            ),
            (
                "LessonFilter",
                Var::Of(&[("lesson_ids", STRINGS, Required)]),
            ),
            (
                "MetadataFilter",
                Var::Of(&[("filter", R("KeyValueFilter"), Required)]),
            ),
            ("ReviewListFilter", Var::Unit),
            ("Dependents", Var::Of(&[("unit_ids", STRINGS, Required)])),
            (
                "Dependencies",
                Var::Of(&[("unit_ids", STRINGS, Required), ("depth", ANY, Required)]),
            ),
        ]),
    ),
    (
        "SessionPart",
        Enum(&[
            (
                "UnitFilter",
                Var::Of(&[
                    ("filter", R("UnitFilter"), Required),
                    ("duration", U32, Required),
                ]),
            ),
            (
                "SavedFilter",
                Var::Of(&[("filter_id", S, Required), ("duration", U32, Required)]),
            ),
            ("NoFilter", Var::Of(&[("duration", U32, Required)])),
        ]),
    ),
    (
        "StudySessionData",
        Struct(&[
            ("start_time", D, Required),
            ("definition", R("StudySession"), Required),
        ]),
    ),
    (
        "MasteryWindow",
        Struct(&[("percentage", F, Required), ("range", P(&[F, F]), Required)]),
    ),
    (
        "PassingScoreOptions",
        Struct(&[
            ("min_fraction", F, Required),
            ("min_score", F, Required),
            ("min_avg_trials", F, Required),
        ]),
    ),
    (
        "ExerciseType",
        Enum(&[("Declarative", Var::Unit), ("Procedural", Var::Unit)]),
    ),
    (
        "LiteracyLessonType",
        Enum(&[("Reading", Var::Unit), ("Dictation", Var::Unit)]),
    ),
    ("FilterOp", Enum(&[("All", Var::Unit), ("Any", Var::Unit)])),
    (
        "FilterType",
        Enum(&[("Include", Var::Unit), ("Exclude", Var::Unit)]),
    ),
    ("TranscriptionLink", Enum(&[("YouTube", Var::New(S))])),
    ("KnowledgeBaseConfig", Struct(&[("inlined", B, False)])),
    (
        "LiteracyConfig",
        Struct(&[("generate_dictation", B, False)]),
    ),
    (
        "MusicPieceConfig",
        Struct(&[
            ("music_asset", R("MusicAsset"), Required),
            ("passages", R("MusicPassage"), Required),
        ]),
    ),
    (
        "MusicAsset",
        Enum(&[("SoundSlice", Var::New(S)), ("LocalFile", Var::New(S))]),
    ),
    (
        "TranscriptionConfig",
        Struct(&[
            ("transcription_dependencies", STRINGS, Empty),
            ("passage_directory", S, Blank),
            ("inlined_passages", V(&R("TranscriptionPassages")), Empty),
            ("skip_singing_lessons", B, False),
            ("skip_advanced_lessons", B, False),
        ]),
    ),
    (
        "TranscriptionPassages",
        Struct(&[
            ("asset", R("TranscriptionAsset"), Required),
            ("intervals", K(&P(&[S, S])), EmptyObject),
        ]),
    ),
    (
        "TranscriptionAsset",
        Enum(&[(
            "Track",
            Var::Of(&[
                ("short_id", S, Required),
                ("track_name", S, Required),
                ("artist_name", O(&S), Null),
                ("album_name", O(&S), Null),
                ("duration", O(&S), Null),
                ("external_link", O(&R("TranscriptionLink")), Null),
            ]),
        )]),
    ),
    (
        "TranscriptionPreferences",
        Struct(&[
            ("instruments", V(&R("Instrument")), Empty),
            ("download_path", O(&S), Null),
            ("download_path_alias", O(&S), Null),
        ]),
    ),
    (
        "Instrument",
        Struct(&[("name", S, Required), ("id", S, Required)]),
    ),
    (
        "SchedulerPreferences",
        Struct(&[("batch_size", O(&ANY), Null)]),
    ),
    (
        "SimpleKnowledgeBaseLesson",
        Struct(&[
            ("short_id", S, Required),
            ("dependencies", STRINGS, Empty),
            ("superseded", STRINGS, Empty),
            ("encompassed", WEIGHTED, Empty),
            ("exercises", V(&R("SimpleKnowledgeBaseExercise")), Empty),
            ("metadata", METADATA, Null),
            ("additional_files", V(&R("AssetBuilder")), Empty),
        ]),
    ),
    (
        "SimpleKnowledgeBaseExercise",
        Struct(&[
            ("short_id", S, Required),
            ("front", STRINGS, Required),
            ("back", STRINGS, Empty),
        ]),
    ),
    (
        "AssetBuilder",
        Struct(&[("file_name", S, Required), ("contents", S, Required)]),
    ),
];

/// The formats that are documents of their own, more often the first ones.
const DOCUMENTS: usize = 16;

fn def(name: &str) -> &'static Def {
    match DEFS.iter().find(|(n, _)| *n == name) {
        Some((_, d)) => d,
        None => unreachable!("no format {name}"),
    }
}

fn default(o: Otherwise) -> Value {
    match o {
        Required | Null => Value::Null,
        Empty => json!([]),
        EmptyObject => json!({}),
        Blank => json!(""),
        False => json!(false),
        Variant(v) => json!(v),
    }
}

// Generation.

fn text() -> BoxedStrategy<Value> {
    prop_oneof![
        6 => "[a-z:_/0-9]{0,8}".prop_map(Value::String),
        2 => "[ -~]{0,10}".prop_map(Value::String),
        2 => "\\PC{0,6}".prop_map(Value::String),
        1 => vec(any::<char>(), 0..5).prop_map(|v| Value::String(v.into_iter().collect())),
    ]
    .boxed()
}

fn float() -> BoxedStrategy<Value> {
    prop_oneof![
        4 => (-200i32..600).prop_map(|n| json!(f64::from(n) / 100.0)),
        1 => (0i32..6).prop_map(|n| json!(n)),
        1 => any::<f32>().prop_filter("a number", |x| x.is_finite()).prop_map(|x| json!(x)),
        1 => (-1e6f64..1e6).prop_map(|x| json!(x)),
    ]
    .boxed()
}

fn value(t: &'static T, depth: u32) -> BoxedStrategy<Value> {
    let few = 0..=3;
    match t {
        V(_) if depth == 0 => Just(json!([])).boxed(),
        M(_) | K(_) if depth == 0 => Just(json!({})).boxed(),
        S => text(),
        F => float(),
        N(max) => {
            let max = *max;
            prop_oneof![3 => 0u64..100, 1 => Just(max), 1 => 0..=max]
                .prop_map(|n| json!(n))
                .boxed()
        }
        I => prop_oneof![3 => 0i64..2_000_000_000, 1 => any::<i64>()]
            .prop_map(|n| json!(n))
            .boxed(),
        B => any::<bool>().prop_map(Value::Bool).boxed(),
        D => (
            0i64..4_000_000_000,
            prop_oneof![Just(0u32), 0u32..1_000_000_000],
            prop_oneof![Just(0i32), -23 * 60..23 * 60],
            any::<bool>(),
        )
            .prop_map(|(s, n, offset, z)| {
                let t = DateTime::<Utc>::from_timestamp(s, n).unwrap_or_default();
                let text = match chrono::FixedOffset::east_opt(offset * 60) {
                    Some(o) if !z => t.with_timezone(&o).to_rfc3339(),
                    _ => t.to_rfc3339_opts(chrono::SecondsFormat::AutoSi, true),
                };
                Value::String(text)
            })
            .boxed(),
        V(t) => vec(value(t, depth.saturating_sub(1)), few)
            .prop_map(Value::Array)
            .boxed(),
        O(t) => prop_oneof![
            1 => Just(Value::Null),
            3 => value(t, depth),
        ]
        .boxed(),
        M(t) => prop::collection::btree_map(
            prop_oneof![3 => "[a-z]{1,4}", 1 => "\\PC{0,4}"],
            value(t, depth.saturating_sub(1)),
            few,
        )
        .prop_map(|m| Value::Object(m.into_iter().collect()))
        .boxed(),
        K(t) => prop::collection::btree_map(
            prop_oneof![3 => 0usize..9, 1 => any::<usize>()],
            value(t, depth.saturating_sub(1)),
            few,
        )
        .prop_map(|m| Value::Object(m.into_iter().map(|(k, v)| (k.to_string(), v)).collect()))
        .boxed(),
        P(ts) => ts
            .iter()
            .map(|t| value(t, depth))
            .collect::<Vec<_>>()
            .prop_map(Value::Array)
            .boxed(),
        R(name) => named(name, depth.saturating_sub(1)),
    }
}

fn fields(fs: &'static [Field], depth: u32) -> BoxedStrategy<Value> {
    fs.iter()
        .map(|(_, t, o)| {
            let v = value(t, depth);
            if matches!(o, Required) {
                v.prop_map(Some).boxed()
            } else {
                prop::option::weighted(0.6, v).boxed()
            }
        })
        .collect::<Vec<_>>()
        .prop_map(move |vs| {
            Value::Object(
                fs.iter()
                    .zip(vs)
                    .filter_map(|((k, _, _), v)| v.map(|v| ((*k).to_string(), v)))
                    .collect(),
            )
        })
        .boxed()
}

/// Filters and passages hold further ones, which end at some depth.
fn ends(name: &str) -> bool {
    name != "CombinedFilter"
}

fn named(name: &'static str, depth: u32) -> BoxedStrategy<Value> {
    match def(name) {
        Struct(fs) => fields(fs, depth),
        Enum(vs) => {
            let options: Vec<BoxedStrategy<Value>> = vs
                .iter()
                .filter(|(tag, _)| depth > 0 || ends(tag))
                .map(|(tag, var)| match var {
                    Var::Unit => Just(json!(tag)).boxed(),
                    Var::New(t) => value(t, depth).prop_map(move |v| json!({*tag: v})).boxed(),
                    Var::Of(fs) => fields(fs, depth)
                        .prop_map(move |v| json!({*tag: v}))
                        .boxed(),
                })
                .collect();
            prop::strategy::Union::new(options).boxed()
        }
    }
}

// Meaning.

/// The value with all optional fields, without fields that are not of the format.
fn complete(t: &T, v: &Value) -> Value {
    match (t, v) {
        (F, v) => {
            #[allow(clippy::cast_possible_truncation)]
            let x = v.as_f64().map(|x| x as f32);
            json!(x.map(|x| if x == 0.0 { 0.0 } else { x }))
        }
        (D, Value::String(s)) => match DateTime::parse_from_rfc3339(s) {
            Ok(d) => json!([d.timestamp(), d.timestamp_subsec_nanos()]),
            Err(e) => json!(format!("{s}: {e}")),
        },
        (V(t), Value::Array(a)) => a.iter().map(|v| complete(t, v)).collect(),
        (O(_), Value::Null) => Value::Null,
        (O(t), v) => complete(t, v),
        (M(t) | K(t), Value::Object(m)) => Value::Object(
            m.iter()
                .map(|(k, v)| (k.clone(), complete(t, v)))
                .collect::<Map<_, _>>(),
        ),
        (P(ts), Value::Array(a)) => ts.iter().zip(a).map(|(t, v)| complete(t, v)).collect(),
        (R(name), v) => complete_named(name, v),
        (_, v) => v.clone(),
    }
}

fn complete_fields(fs: &[Field], v: &Value) -> Value {
    Value::Object(
        fs.iter()
            .map(|(k, t, o)| {
                let v = match v.get(k) {
                    Some(v) => complete(t, v),
                    None => default(*o),
                };
                ((*k).to_string(), v)
            })
            .collect(),
    )
}

fn complete_named(name: &str, v: &Value) -> Value {
    match def(name) {
        Struct(fs) => complete_fields(fs, v),
        Enum(vs) => {
            for (tag, var) in *vs {
                if let Some(v) = v.get(tag) {
                    return match var {
                        Var::Unit => v.clone(),
                        Var::New(t) => json!({*tag: complete(t, v)}),
                        Var::Of(fs) => json!({*tag: complete_fields(fs, v)}),
                    };
                }
            }
            v.clone()
        }
    }
}

// Damage.

/// A way to make the document wrong: the path to a value and what becomes of it.
#[derive(Clone, Debug)]
enum Harm {
    Remove,
    Replace(Value),
    Rename,
}

type Sites = Vec<(Vec<String>, Harm)>;

fn sites(t: &T, v: &Value, path: &mut Vec<String>, out: &mut Sites) {
    fn inside(key: &str, t: &T, v: &Value, path: &mut Vec<String>, out: &mut Sites) {
        path.push(key.to_string());
        sites(t, v, path, out);
        path.pop();
    }
    let mut wrong = |v: Value| out.push((path.clone(), Harm::Replace(v)));
    match t {
        S | D => {
            wrong(json!(1));
            wrong(json!(["a"]));
            wrong(Value::Null);
            if matches!(t, D) {
                wrong(json!("yesterday"));
            }
        }
        F => {
            wrong(json!("1"));
            wrong(Value::Null);
        }
        N(max) => {
            wrong(json!(-1));
            wrong(json!(1.5));
            wrong(json!("1"));
            if let Some(more) = max.checked_add(1) {
                wrong(json!(more));
            }
        }
        I => {
            wrong(json!(1.5));
            wrong(json!("1"));
        }
        B => {
            wrong(json!(0));
            wrong(json!("true"));
        }
        V(t) => {
            wrong(json!({}));
            wrong(json!("a"));
            for (i, v) in v.as_array().into_iter().flatten().enumerate() {
                inside(&i.to_string(), t, v, path, out);
            }
        }
        O(t) => {
            if !v.is_null() {
                let from = out.len();
                sites(t, v, path, out);
                // No value is a value.
                let here = path.clone();
                let mut i = 0;
                out.retain(|(p, h)| {
                    i += 1;
                    i <= from || *p != here || !matches!(h, Harm::Replace(Value::Null))
                });
            }
        }
        M(t) | K(t) => {
            wrong(json!("a"));
            wrong(json!([1]));
            if matches!(*t, R(_) | P(_) | V(_)) {
                wrong(json!({"1": 5}));
            }
            if matches!(v, Value::Object(_)) && path.last().is_some_and(|p| p == "intervals") {
                wrong(json!({"one": ["a", "b"]}));
            }
            for (k, v) in v.as_object().into_iter().flatten() {
                inside(k, t, v, path, out);
            }
        }
        P(ts) => {
            wrong(json!([]));
            wrong(json!({}));
            if let Value::Array(a) = v {
                wrong(Value::Array(a[..a.len() - 1].to_vec()));
                let mut more = a.clone();
                more.push(json!(1));
                wrong(Value::Array(more));
                for (i, (t, v)) in ts.iter().zip(a).enumerate() {
                    inside(&i.to_string(), t, v, path, out);
                }
            }
        }
        R(name) => match def(name) {
            Struct(fs) => {
                wrong(json!(1));
                wrong(json!("a"));
                field_sites(fs, v, path, out);
            }
            Enum(vs) => {
                wrong(json!("Unknown"));
                wrong(json!({"Unknown": {}}));
                wrong(json!(1));
                for (tag, var) in *vs {
                    let Some(v) = v.get(tag) else { continue };
                    out.push((
                        path.iter().cloned().chain([(*tag).to_string()]).collect(),
                        Harm::Rename,
                    ));
                    match var {
                        Var::Unit => {}
                        Var::New(t) => inside(tag, t, v, path, out),
                        Var::Of(fs) => {
                            path.push((*tag).to_string());
                            field_sites(fs, v, path, out);
                            path.pop();
                        }
                    }
                }
            }
        },
    }
}

fn field_sites(fs: &[Field], v: &Value, path: &mut Vec<String>, out: &mut Sites) {
    for (k, t, o) in fs {
        let Some(v) = v.get(k) else { continue };
        path.push((*k).to_string());
        if matches!(o, Required) {
            out.push((path.clone(), Harm::Remove));
        }
        sites(t, v, path, out);
        path.pop();
    }
}

fn harm(doc: &mut Value, path: &[String], harm: &Harm) {
    let Some((last, before)) = path.split_last() else {
        if let Harm::Replace(v) = harm {
            *doc = v.clone();
        }
        return;
    };
    let mut at = doc;
    for key in before {
        at = match at {
            Value::Array(a) => match key.parse::<usize>().ok().and_then(|i| a.get_mut(i)) {
                Some(v) => v,
                None => return,
            },
            v => match v.get_mut(key) {
                Some(v) => v,
                None => return,
            },
        };
    }
    match (at, harm) {
        (Value::Array(a), Harm::Replace(v)) => {
            if let Some(x) = last.parse::<usize>().ok().and_then(|i| a.get_mut(i)) {
                *x = v.clone();
            }
        }
        (Value::Object(m), Harm::Replace(v)) => {
            m.insert(last.clone(), v.clone());
        }
        (Value::Object(m), Harm::Remove) => {
            m.remove(last);
        }
        (Value::Object(m), Harm::Rename) => {
            if let Some(v) = m.remove(last) {
                m.insert(format!("{last}s"), v);
            }
        }
        _ => {}
    }
}

// Layout.

/// Writes the document with any order of fields, spaces, escapes, and further fields.
struct Layout {
    state: u64,
    more: bool,
}

impl Layout {
    fn next(&mut self, n: u64) -> u64 {
        self.state = self
            .state
            .wrapping_mul(6_364_136_223_846_793_005)
            .wrapping_add(1_442_695_040_888_963_407);
        (self.state >> 33) % n
    }
    fn space(&mut self, out: &mut String) {
        match self.next(6) {
            0 => out.push('\n'),
            1 => out.push_str("  "),
            2 => out.push_str("\t\r\n"),
            _ => {}
        }
    }
    fn string(&mut self, s: &str, out: &mut String) {
        // Numbers as keys are read without escapes.
        if self.next(4) > 0 || s.bytes().all(|b| b.is_ascii_digit()) {
            out.push_str(&Value::String(s.to_string()).to_string());
            return;
        }
        out.push('"');
        let mut buffer = [0; 2];
        for c in s.chars() {
            if c.is_ascii_alphanumeric() && self.next(2) == 0 {
                out.push(c);
            } else {
                for n in c.encode_utf16(&mut buffer) {
                    out.push_str(&format!("\\u{n:04x}"));
                }
            }
        }
        out.push('"');
    }
    fn write(&mut self, t: Option<&'static T>, v: &Value, out: &mut String) {
        self.space(out);
        match v {
            Value::String(s) => self.string(s, out),
            Value::Array(a) => {
                out.push('[');
                for (i, v) in a.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    let t = match t {
                        Some(V(t)) => Some(*t),
                        Some(P(ts)) => ts.get(i),
                        _ => None,
                    };
                    self.write(t, v, out);
                }
                self.space(out);
                out.push(']');
            }
            Value::Object(m) => match t {
                Some(O(t)) => self.write(Some(t), v, out),
                Some(M(t) | K(t)) => self.object(m, |_| Some(t), false, out),
                Some(R(name)) => match def(name) {
                    Struct(fs) => self.fields(m, fs, out),
                    Enum(vs) => {
                        out.push('{');
                        for (i, (k, v)) in m.iter().enumerate() {
                            if i > 0 {
                                out.push(',');
                            }
                            self.space(out);
                            self.string(k, out);
                            self.space(out);
                            out.push(':');
                            match vs.iter().find(|(tag, _)| tag == k) {
                                Some((_, Var::New(t))) => self.write(Some(t), v, out),
                                Some((_, Var::Of(fs))) if v.is_object() => {
                                    if let Value::Object(m) = v {
                                        self.fields(m, fs, out);
                                    }
                                }
                                _ => self.write(None, v, out),
                            }
                        }
                        self.space(out);
                        out.push('}');
                    }
                },
                _ => self.object(m, |_| None, false, out),
            },
            v => out.push_str(&v.to_string()),
        }
        self.space(out);
    }
    fn fields(&mut self, m: &Map<String, Value>, fs: &'static [Field], out: &mut String) {
        self.object(
            m,
            |k| fs.iter().find(|(f, _, _)| *f == k).map(|(_, t, _)| t),
            true,
            out,
        );
    }
    /// `known` says whether the keys are fields of a format.
    fn object(
        &mut self,
        m: &Map<String, Value>,
        t: impl Fn(&str) -> Option<&'static T>,
        known: bool,
        out: &mut String,
    ) {
        let mut keys: Vec<&String> = m.keys().collect();
        for i in (1..keys.len()).rev() {
            let j = self.next(i as u64 + 1) as usize;
            keys.swap(i, j);
        }
        out.push('{');
        let mut more = known && self.more;
        for (i, k) in keys.into_iter().enumerate() {
            if i > 0 {
                out.push(',');
            }
            if more && self.next(5) == 0 {
                more = false;
                out.push_str("\"x_note\": [1, {\"id\": null}],");
            }
            self.space(out);
            self.string(k, out);
            self.space(out);
            out.push(':');
            self.write(t(k), &m[k], out);
        }
        self.space(out);
        out.push('}');
    }
}

/// Reads the document, which has to be the same after writing and reading it, and writes it.
fn rewrite<X: DeserializeOwned + Serialize + PartialEq + Debug>(
    text: &str,
) -> Res<Result<String, String>> {
    let read = match serde_json::from_str::<X>(text) {
        Ok(x) => x,
        Err(e) => return Ok(Err(e.to_string())),
    };
    let mut written = String::new();
    for pretty in [true, false] {
        written = if pretty {
            serde_json::to_string_pretty(&read)
        } else {
            serde_json::to_string(&read)
        }
        .harness("write the document")?;
        match serde_json::from_str::<X>(&written) {
            Ok(again) => check!(
                again == read,
                "changed",
                "reading {text} gives {read:?}, which is written as {written} and then read as {again:?}"
            ),
            Err(e) => {
                return Err(violation(
                    "unreadable",
                    format!("{read:?} is written as {written}, which cannot be read: {e}"),
                ));
            }
        }
    }
    Ok(Ok(written))
}

fn rewrite_named(name: &str, text: &str) -> Res<Result<String, String>> {
    macro_rules! of {
        ($($t:ident),*) => {
            match name {
                $(stringify!($t) => rewrite::<$t>(text),)*
                _ => unreachable!("no type {name}"),
            }
        };
    }
    of!(
        CourseManifest,
        LessonManifest,
        ExerciseManifest,
        ExerciseAsset,
        UserPreferences,
        SavedFilter,
        StudySession,
        ExerciseFilter,
        SchedulerOptions,
        SimpleKnowledgeBaseCourse,
        SimpleKnowledgeBaseLesson,
        SimpleKnowledgeBaseExercise,
        AssetBuilder,
        RepositoryMetadata,
        ExerciseTrial,
        UnitReward,
        MasteryScore,
        UnitType,
        CourseGenerator,
        BasicAsset,
        MusicPassage,
        KeyValueFilter,
        UnitFilter,
        MasteryWindow,
        PassingScoreOptions
    )
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct DocumentCase {
    pub format: String,
    pub document: Value,
    /// The order of fields, the spaces and the escapes.
    pub layout: u64,
    /// Whether there are fields that the format does not have.
    pub more: bool,
    /// Make one thing wrong.
    pub harm: Option<u16>,
}

pub struct C18;

impl Prop for C18 {
    type Case = DocumentCase;
    fn id(&self) -> &'static str {
        "C18"
    }
    fn rule(&self) -> &'static str {
        "the document has at least three values and leaves out an optional field or is made wrong"
    }
    fn quick_cases(&self) -> usize {
        120_000
    }
    fn strategy(&self, thorough: bool) -> BoxedStrategy<DocumentCase> {
        let depth = if thorough { 9 } else { 7 };
        let formats: Vec<(u32, BoxedStrategy<(String, Value)>)> = DEFS[..DOCUMENTS]
            .iter()
            .enumerate()
            .map(|(i, (name, _))| {
                let weight = if i < 10 { 4 } else { 1 };
                let s = named(name, depth).prop_map(|v| ((*name).to_string(), v));
                (weight, s.boxed())
            })
            .collect();
        (
            prop::strategy::Union::new_weighted(formats),
            any::<u64>(),
            prop::bool::weighted(0.3),
            prop::option::weighted(0.4, any::<u16>()),
        )
            .prop_map(|((format, document), layout, more, harm)| DocumentCase {
                format,
                document,
                layout,
                more,
                harm,
            })
            .boxed()
    }
    fn check(&self, case: &DocumentCase, stats: &mut Stats) -> Res {
        let Some((name, _)) = DEFS.iter().find(|(n, _)| *n == case.format) else {
            return Ok(());
        };
        let format: &'static T = match DEFS.iter().position(|(n, _)| n == name) {
            Some(i) => Box::leak(Box::new(R(DEFS[i].0))),
            None => return Ok(()),
        };
        let write = |v: &Value| {
            let mut out = String::new();
            let mut layout = Layout {
                state: case.layout,
                more: case.more,
            };
            layout.write(Some(format), v, &mut out);
            out
        };
        let text = write(&case.document);
        let parsed: Value = serde_json::from_str(&text).harness("the layout is no JSON")?;
        let want = complete_named(name, &case.document);
        if complete_named(name, &parsed) != want {
            return Err(violation("harness-layout", text));
        }
        match rewrite_named(name, &text)? {
            Ok(written) => {
                let v: Value = serde_json::from_str(&written).harness("no JSON was written")?;
                let got = complete_named(name, &v);
                check!(
                    got == want,
                    "wrong-value",
                    "the {name} {text} is read as {got}, expected {want}"
                );
            }
            Err(e) => {
                return Err(violation(
                    "refused",
                    format!("the {name} {text} is refused: {e}"),
                ));
            }
        }
        let values = text.matches(':').count();
        let partial = complete_named(name, &case.document)
            .to_string()
            .matches(':')
            .count()
            > case.document.to_string().matches(':').count();
        if let Some(n) = case.harm {
            let mut all = vec![];
            sites(format, &case.document, &mut vec![], &mut all);
            let (path, h) = &all[n as usize % all.len()];
            let mut wrong = case.document.clone();
            harm(&mut wrong, path, h);
            if wrong != case.document {
                let text = write(&wrong);
                let read = rewrite_named(name, &text)?;
                check!(
                    read.is_err(),
                    "accepted",
                    "the {name} {text}, which is wrong at {path:?} ({h:?}), is read as {read:?}"
                );
                stats.hit("made_wrong");
            }
        }
        stats.hit(name);
        if values >= 3 && (partial || case.harm.is_some()) {
            stats.mark_nontrivial();
        }
        Ok(())
    }
}

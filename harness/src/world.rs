//! A Trane instance opened on a generated library, and the reference model of the scores and of
//! the conditions derived from them.

use chrono::Utc;
use serde::{Deserialize, Serialize};
use std::{
    cell::RefCell,
    collections::{BTreeMap, BTreeSet, HashMap},
    path::{Path, PathBuf},
};
use tempfile::TempDir;
use trane::{
    Trane,
    data::{ExerciseTrial, MasteryScore, SchedulerOptions},
    practice_stats::PracticeStats,
    scheduler::ExerciseScheduler,
};
use ustr::Ustr;

use crate::{
    engine::{OrHarness, OrViolation, Res},
    library::{Index, Kind, Lib},
};

pub const DAY: i64 = 86_400;

pub fn u(id: &str) -> Ustr {
    Ustr::from(id)
}

pub fn scratch_root() -> PathBuf {
    std::env::var_os("TRANE_PBT_SCRATCH")
        .map(PathBuf::from)
        .unwrap_or_else(std::env::temp_dir)
}

pub fn tempdir() -> Res<TempDir> {
    tempfile::Builder::new()
        .prefix("case")
        .tempdir_in(scratch_root())
        .harness("create a scratch directory")
}

pub fn mastery(score: u8) -> MasteryScore {
    match score {
        0 | 1 => MasteryScore::One,
        2 => MasteryScore::Two,
        3 => MasteryScore::Three,
        4 => MasteryScore::Four,
        _ => MasteryScore::Five,
    }
}

/// A trial recorded before the session of the test starts.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct PastTrial {
    pub exercise: String,
    pub score: u8,
    pub seconds_ago: i64,
}

pub fn open(root: &Path) -> anyhow::Result<Trane> {
    Trane::new_local(root, root)
}

/// An open instance in its own scratch directory.
pub struct World {
    pub trane: Trane,
    pub dir: TempDir,
    /// The time the scheduler believes it is.
    pub now: i64,
}

impl World {
    /// Writes the library and opens it.
    pub fn new(lib: &Lib) -> Res<World> {
        let dir = tempdir()?;
        lib.write(dir.path())?;
        let trane = open(dir.path()).must("open", "opening a valid library")?;
        let mut w = World {
            trane,
            dir,
            now: Utc::now().timestamp(),
        };
        w.trane.override_current_timestamp(Some(w.now));
        Ok(w)
    }

    pub fn root(&self) -> &Path {
        self.dir.path()
    }

    /// Opens a second instance over the same files, with the same time.
    pub fn fresh(&self) -> Res<Trane> {
        let mut t = open(self.root()).must("reopen", "reopening the library")?;
        t.override_current_timestamp(Some(self.now));
        Ok(t)
    }

    /// Puts the options in effect the way an application does: as the student's preferences when
    /// the library is opened.
    pub fn set_options(&mut self, options: SchedulerOptions) {
        self.trane.set_scheduler_options(options);
    }

    /// Lets time pass.
    pub fn advance(&mut self, seconds: i64) {
        self.now += seconds;
        self.trane.override_current_timestamp(Some(self.now));
        self.trane.invalidate_cached_scores_with_prefix("");
    }

    pub fn record(&mut self, trials: &[PastTrial]) -> Res {
        let trials: Vec<ExerciseTrial> = trials
            .iter()
            .map(|t| ExerciseTrial {
                exercise_id: u(&t.exercise),
                score: f32::from(t.score),
                timestamp: self.now - t.seconds_ago,
            })
            .collect();
        self.trane
            .record_exercise_scores(&trials)
            .must("record", "recording past trials")
    }

    pub fn batch(
        &self,
        filter: Option<trane::data::filter::ExerciseFilter>,
    ) -> Res<Vec<trane::data::ExerciseManifest>> {
        self.trane
            .get_exercise_batch(filter)
            .must("batch-error", "requesting a batch")
    }

    pub fn score(&self, exercise: &str, score: u8, timestamp: i64) -> Res {
        self.trane
            .score_exercise(u(exercise), mastery(score), timestamp)
            .must("score-error", "scoring an exercise")
    }
}

/// Derives a history of trials from raw bytes: each lesson gets one of several profiles, from
/// untouched to mastered.
pub fn history(lib: &Lib, bytes: &[u8]) -> Vec<PastTrial> {
    let mut out = vec![];
    if bytes.is_empty() {
        return out;
    }
    for (li, (_, lesson)) in lib.lessons().enumerate() {
        let b = bytes[li % bytes.len()];
        let profile = b % 10;
        for (k, e) in lesson.exercises.iter().enumerate() {
            let n = bytes[(li * 7 + k * 3 + 1) % bytes.len()];
            let m = i64::from(n);
            let jitter = (k as i64) * 61 + (li as i64) * 7;
            let mut push = |score: u8, ago: i64| {
                out.push(PastTrial {
                    exercise: e.id.clone(),
                    score,
                    seconds_ago: DAY + ago + jitter,
                });
            };
            match profile {
                0 => {}
                1..=3 => {
                    // Mastered, recently.
                    for i in 0..(2 + m % 2) {
                        push(5, 3600 * (2 + 30 * i));
                    }
                }
                4 => {
                    for i in 0..(2 + m % 3) {
                        push(1 + ((n >> i) & 1), 3600 * (3 + 26 * i));
                    }
                }
                5 => {
                    for i in 0..3 {
                        push(3 + ((n >> i) & 1), 3600 * (4 + 50 * i));
                    }
                }
                6 => push(5, 3600 * (5 + m % 40)),
                7 => {
                    for i in 0..3 {
                        push(5, DAY * (90 + m + i * 10));
                    }
                }
                8 => {
                    if k % 2 == 0 {
                        for i in 0..2 {
                            push(5, 3600 * (2 + 30 * i));
                        }
                    }
                }
                _ => {
                    for i in 0..2 {
                        push(4, 3600 * (6 + 20 * i));
                    }
                }
            }
        }
    }
    out
}

/// Three-valued answers: `None` when the condition is too close to its threshold to call.
pub type Tri<T> = Option<T>;

const EPS: f32 = 2e-3;

fn at_least(value: f32, threshold: f32) -> Tri<bool> {
    if (value - threshold).abs() < EPS {
        None
    } else {
        Some(value > threshold)
    }
}

/// The reference model of unit scores, superseding and dependency satisfaction over the scores of
/// the single exercises.
pub struct Model<'a> {
    pub idx: &'a Index<'a>,
    pub blacklist: &'a BTreeSet<String>,
    pub options: SchedulerOptions,
    pub scores: BTreeMap<String, f32>,
    pub trials: BTreeMap<String, usize>,
    superseded_memo: RefCell<HashMap<String, Tri<bool>>>,
    score_memo: RefCell<HashMap<String, Tri<Option<f32>>>>,
}

impl<'a> Model<'a> {
    /// Takes the scores of the single exercises from the given instance.
    pub fn new(trane: &Trane, idx: &'a Index<'a>, blacklist: &'a BTreeSet<String>) -> Res<Self> {
        let options = trane.get_scheduler_options();
        let mut scores = BTreeMap::new();
        let mut trials = BTreeMap::new();
        for id in idx.exercises.keys() {
            let score = trane
                .get_unit_score(u(id))
                .must("score-error", "getting an exercise's score")?;
            scores.insert((*id).to_string(), score.unwrap_or_default());
            let n = trane
                .get_scores(u(id), options.num_trials)
                .must("stats-error", "getting an exercise's trials")?
                .len();
            trials.insert((*id).to_string(), n);
        }
        Ok(Self::from_scores(idx, blacklist, options, scores, trials))
    }

    pub fn from_scores(
        idx: &'a Index<'a>,
        blacklist: &'a BTreeSet<String>,
        options: SchedulerOptions,
        scores: BTreeMap<String, f32>,
        trials: BTreeMap<String, usize>,
    ) -> Self {
        Model {
            idx,
            blacklist,
            options,
            scores,
            trials,
            superseded_memo: RefCell::default(),
            score_memo: RefCell::default(),
        }
    }

    pub fn blacklisted(&self, id: &str) -> bool {
        self.blacklist.contains(id)
    }

    /// Whether the exercise, its lesson or its course is blacklisted.
    pub fn exercise_blacklisted(&self, id: &str) -> bool {
        let Some((c, l, e)) = self.idx.exercises.get(id) else {
            return self.blacklisted(id);
        };
        self.blacklisted(&e.id) || self.blacklisted(&l.id) || self.blacklisted(&c.id)
    }

    /// The exercises of the unit that are not excluded by the blacklist.
    pub fn valid_exercises(&self, id: &str) -> Vec<&'a str> {
        match self.idx.kind(id) {
            Some(Kind::Exercise) => {
                if self.blacklisted(id) {
                    vec![]
                } else {
                    self.idx.exercises_in(id)
                }
            }
            _ => self
                .idx
                .exercises_in(id)
                .into_iter()
                .filter(|e| !self.exercise_blacklisted(e))
                .collect(),
        }
    }

    fn superseded_by_set(&self, id: &str, superseding: &BTreeSet<&'a str>) -> Tri<bool> {
        if superseding.is_empty() {
            return Some(false);
        }
        for e in self.valid_exercises(id) {
            let s = self.scores[e];
            if s <= 0.0 {
                return Some(false);
            }
            if s < 1e-4 {
                return None;
            }
        }
        let mut unsure = false;
        for sup in superseding {
            match self.unit_score(sup) {
                None => unsure = true,
                Some(None) => {}
                Some(Some(s)) => match at_least(s, self.options.superseding_score) {
                    None => unsure = true,
                    Some(false) => return Some(false),
                    Some(true) => {}
                },
            }
        }
        if unsure { None } else { Some(true) }
    }

    fn replace(&self, set: &BTreeSet<&'a str>) -> Tri<BTreeSet<&'a str>> {
        let mut out = BTreeSet::new();
        for id in set {
            match self.idx.superseded_by.get(id) {
                Some(sup) => {
                    if self.superseded_by_set(id, sup)? {
                        out.extend(self.replace(sup)?);
                    } else {
                        out.insert(*id);
                    }
                }
                None => {
                    out.insert(*id);
                }
            }
        }
        Some(out)
    }

    /// Whether the unit has been superseded by others.
    pub fn superseded(&self, id: &str) -> Tri<bool> {
        if let Some(r) = self.superseded_memo.borrow().get(id) {
            return *r;
        }
        let res = match self.idx.superseded_by.get(id) {
            None => Some(false),
            Some(set) => self
                .replace(set)
                .and_then(|set| self.superseded_by_set(id, &set)),
        };
        self.superseded_memo
            .borrow_mut()
            .insert(id.to_string(), res);
        res
    }

    fn mean(values: &[f32]) -> Option<f32> {
        (!values.is_empty()).then(|| values.iter().sum::<f32>() / values.len() as f32)
    }

    /// The score of a unit, `Some(None)` when it has no valid score.
    pub fn unit_score(&self, id: &str) -> Tri<Option<f32>> {
        if let Some(r) = self.score_memo.borrow().get(id) {
            return *r;
        }
        let res = self.unit_score_uncached(id);
        self.score_memo.borrow_mut().insert(id.to_string(), res);
        res
    }

    fn unit_score_uncached(&self, id: &str) -> Tri<Option<f32>> {
        match self.idx.kind(id) {
            None => Some(None),
            Some(Kind::Exercise) => Some(Some(self.scores[id])),
            Some(Kind::Lesson) => {
                if self.blacklisted(id) || self.superseded(id)? {
                    return Some(None);
                }
                let scores: Vec<f32> = self
                    .idx
                    .exercises_in(id)
                    .into_iter()
                    .filter(|e| !self.blacklisted(e))
                    .map(|e| self.scores[e])
                    .collect();
                Some(Self::mean(&scores))
            }
            Some(Kind::Course) => {
                if self.blacklisted(id) || self.superseded(id)? {
                    return Some(None);
                }
                let mut scores = vec![];
                for l in &self.idx.courses[id].lessons {
                    if let Some(s) = self.unit_score(&l.id)? {
                        scores.push(s);
                    }
                }
                Some(Self::mean(&scores))
            }
        }
    }

    fn lesson_trials(&self, id: &str) -> Option<f32> {
        let trials: Vec<f32> = self
            .idx
            .exercises_in(id)
            .into_iter()
            .filter(|e| !self.blacklisted(e))
            .map(|e| self.trials[e] as f32)
            .collect();
        Self::mean(&trials)
    }

    /// The average number of trials of the unit.
    pub fn avg_trials(&self, id: &str) -> Tri<Option<f32>> {
        match self.idx.kind(id) {
            Some(Kind::Lesson) => Some(self.lesson_trials(id)),
            Some(Kind::Course) => {
                let mut trials = vec![];
                for l in &self.idx.courses[id].lessons {
                    if self.blacklisted(&l.id) || self.superseded(&l.id)? {
                        continue;
                    }
                    if let Some(t) = self.lesson_trials(&l.id) {
                        trials.push(t);
                    }
                }
                Some(Self::mean(&trials))
            }
            _ => Some(None),
        }
    }

    /// Whether the dependency no longer holds back the units that depend on it.
    pub fn satisfied(&self, id: &str) -> Tri<bool> {
        let course = match self.idx.kind(id) {
            Some(Kind::Lesson) => self.idx.lessons[id].0.id.as_str(),
            Some(Kind::Course) => id,
            _ => return Some(true),
        };
        if self.blacklisted(id)
            || self.blacklisted(course)
            || self.superseded(id)?
            || self.superseded(course)?
        {
            return Some(true);
        }
        match (self.unit_score(id)?, self.avg_trials(id)?) {
            (Some(score), Some(trials)) => {
                let s = at_least(score, self.options.passing_score.min_score);
                let t = at_least(trials, self.options.passing_score.min_avg_trials);
                match (s, t) {
                    (Some(false), _) | (_, Some(false)) => Some(false),
                    (Some(true), Some(true)) => Some(true),
                    _ => None,
                }
            }
            _ => Some(true),
        }
    }
}

/// The exercises that the batches may contain because they were failed recently.
#[derive(Default)]
pub struct Pile(pub BTreeSet<String>);

impl Pile {
    pub fn update(&mut self, exercise: &str, score: u8) {
        if score <= 2 {
            self.0.insert(exercise.to_string());
        } else {
            self.0.remove(exercise);
        }
    }
}

//! C37: the weights by which the exercises of a mastery window are drawn.

use proptest::{collection::vec, prelude::*};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use trane::scheduler::ExerciseScheduler;

use super::{
    mix::{cover_weights, scores_of, window_of},
    scores::{encompass_edges, reference, reversed},
};
use crate::{
    check,
    engine::{OrViolation, Prop, Res, Stats},
    library::{Course, Exercise, Lesson, Lib},
    world::{PastTrial, World, open},
};

/// An exercise: trials of `(score, hours since the one after it)`, newest first.
type Trials = Vec<(u8, u16)>;

/// Courses of lessons; each lesson but the first of its course depends on an earlier one.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Small {
    pub courses: Vec<Vec<(u8, Vec<Trials>)>>,
    /// Edges between lessons: from a later one to an earlier one, with a weight in tenths.
    pub extra: Vec<(u8, u8, u8)>,
    pub batch_size: usize,
    /// Minimum score, in hundredths, and number of trials, in tenths, to pass.
    pub passing: (u16, u8),
    /// Limits of the mastery windows, in hundredths.
    pub limits: Option<[u16; 4]>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct WeightCase {
    pub libs: Vec<Small>,
    pub sessions: u8,
    pub batches: u8,
    pub seed: u64,
}

impl Small {
    fn lib(&self) -> Lib {
        let mut lib = Lib { courses: vec![] };
        for (c, lessons) in self.courses.iter().enumerate() {
            let lesson = |l: usize| format!("c{c}::l{l}");
            lib.courses.push(Course {
                id: format!("c{c}"),
                lessons: lessons
                    .iter()
                    .enumerate()
                    .map(|(l, (parent, exercises))| Lesson {
                        id: lesson(l),
                        deps: if l == 0 {
                            vec![]
                        } else {
                            vec![lesson(*parent as usize % l)]
                        },
                        exercises: (0..exercises.len())
                            .map(|e| Exercise {
                                id: format!("c{c}::l{l}::e{e}"),
                                declarative: e % 2 == 1,
                            })
                            .collect(),
                        ..Lesson::default()
                    })
                    .collect(),
                ..Course::default()
            });
        }
        let ids: Vec<String> = lib.lessons().map(|(_, l)| l.id.clone()).collect();
        for (a, b, w) in &self.extra {
            let (a, b) = (*a as usize % ids.len(), *b as usize % ids.len());
            let (from, to) = (a.max(b), a.min(b));
            if from == to {
                continue;
            }
            let lesson = lib
                .courses
                .iter_mut()
                .flat_map(|c| &mut c.lessons)
                .nth(from);
            if let Some(l) = lesson
                && !l.encompassed.iter().any(|(t, _)| *t == ids[to])
            {
                l.encompassed
                    .push((ids[to].clone(), f32::from(w % 11) / 10.0));
            }
        }
        lib
    }

    fn trials(&self) -> BTreeMap<String, Trials> {
        let mut out = BTreeMap::new();
        for (c, lessons) in self.courses.iter().enumerate() {
            for (l, (_, exercises)) in lessons.iter().enumerate() {
                for (e, trials) in exercises.iter().enumerate() {
                    out.insert(format!("c{c}::l{l}::e{e}"), trials.clone());
                }
            }
        }
        out
    }
}

fn past(exercise: &str, trials: &Trials) -> Vec<PastTrial> {
    let mut ago = 0;
    trials
        .iter()
        .map(|(score, hours)| {
            ago += 3600 * i64::from(*hours) + 60;
            PastTrial {
                exercise: exercise.to_string(),
                score: score % 5 + 1,
                seconds_ago: ago,
            }
        })
        .collect()
}

/// What the weight of a candidate depends on, but for how often it was offered before.
struct Candidate {
    id: String,
    window: usize,
    urgency: f64,
    log_cost: f64,
    factors: [f64; 9],
}

const FACTORS: [&str; 11] = [
    "depth",
    "dead end",
    "urgency",
    "velocity",
    "stagnant below mastery",
    "stagnant and mastered",
    "coverage of others",
    "coverage by others",
    "declining too fast",
    "frequency",
    "weight",
];

impl Candidate {
    fn weight(&self, frequency: u32) -> f64 {
        let cost = (self.log_cost + 2.0 * f64::from(frequency).ln_1p()).exp();
        // The logarithm of the velocity is not defined below -1.
        if cost.is_nan() {
            return 0.05;
        }
        (self.urgency / cost.clamp(0.05, 100.0).sqrt()).max(0.05)
    }
}

/// The candidates of a search of the whole library. Nothing if a condition is too close to call.
fn candidates(small: &Small, lib: &Lib, world: &World) -> Res<Option<Vec<Candidate>>> {
    let options = world.trane.get_scheduler_options();
    let scores = scores_of(world, &lib.exercise_ids())?;
    let trials = small.trials();
    // The lessons reached, with their depth and whether they are a dead end.
    let mut reached: BTreeMap<String, (f64, bool)> = BTreeMap::new();
    for (_, l) in lib.lessons() {
        let depth = match l.deps.first() {
            None => 1.0,
            Some(d) => match reached.get(d) {
                Some((depth, false)) => depth + 1.0,
                _ => continue,
            },
        };
        let n = l.exercises.len() as f64;
        let avg: f64 = l
            .exercises
            .iter()
            .map(|e| f64::from(scores[&e.id]))
            .sum::<f64>()
            / n;
        let count: f64 = l
            .exercises
            .iter()
            .map(|e| trials[&e.id].len() as f64)
            .sum::<f64>()
            / n;
        let limits = &options.passing_score;
        let (min, min_count) = (
            f64::from(limits.min_score),
            f64::from(limits.min_avg_trials),
        );
        if (avg - min).abs() < 1e-3 || (count - min_count).abs() < 1e-3 {
            return Ok(None);
        }
        let passed = avg > min && count > min_count;
        reached.insert(l.id.clone(), (depth, !passed));
    }
    let pool: BTreeSet<String> = reached.keys().cloned().collect();
    let edges = encompass_edges(lib);
    let (Some(covered), Some(covers)) = (
        cover_weights(&edges, lib, &pool),
        cover_weights(&reversed(&edges), lib, &pool),
    ) else {
        return Ok(None);
    };
    let mut out = vec![];
    for (c, l) in lib.lessons() {
        let Some((depth, dead_end)) = reached.get(&l.id) else {
            continue;
        };
        let total = |m: &BTreeMap<String, f32>| -> f64 {
            [&l.id, &c.id]
                .iter()
                .map(|id| f64::from(m.get(*id).copied().unwrap_or(0.0)))
                .sum()
        };
        let (covered, covers) = (total(&covered), total(&covers));
        for e in &l.exercises {
            let score = scores[&e.id];
            if [5.0, 10.0].iter().any(|w| (covered - w).abs() < 1e-3) {
                return Ok(None);
            }
            if covered > 10.0 && score >= 4.5 {
                continue;
            }
            let Some(window) = (if covered > 5.0 && score >= 3.75 {
                Some(0)
            } else {
                window_of(&options, score)
            }) else {
                return Ok(None);
            };
            let entries: reference::Entries = past(&e.id, &trials[&e.id])
                .iter()
                .map(|t| (f64::from(t.score), world.now - t.seconds_ago))
                .collect();
            let urgency = reference::score(e.declarative, &entries, &vec![], world.now).urgency;
            let velocity = reference::velocity(&entries);
            let stagnant = velocity.is_some_and(|v| v.abs() < 0.2);
            let mastered = score >= 4.0;
            if velocity.is_some_and(|v| (v.abs() - 0.2).abs() < 1e-3 || (v + 1.0).abs() < 1e-3)
                || (stagnant && (score - 4.0).abs() < 1e-3)
            {
                return Ok(None);
            }
            let on = |b: bool| f64::from(u8::from(b));
            let speed = velocity.map_or(0.0, f64::ln_1p);
            let log_cost = -0.7 * depth.ln_1p() - 0.9 * covers.ln_1p() + 0.6 * covered.ln_1p()
                - on(*dead_end)
                - 0.5 * speed
                - 0.7 * on(stagnant && !mastered)
                + on(stagnant && mastered);
            out.push(Candidate {
                id: e.id.clone(),
                window,
                urgency,
                log_cost,
                factors: [
                    depth.ln_1p(),
                    on(*dead_end),
                    urgency,
                    if speed.is_finite() { speed } else { 0.0 },
                    on(stagnant && !mastered),
                    on(stagnant && mastered),
                    covers.ln_1p(),
                    covered.ln_1p(),
                    on(!speed.is_finite()),
                ],
            });
        }
    }
    Ok(Some(out))
}

struct Rng(u64);
impl Rng {
    /// Uniform in (0, 1).
    fn next(&mut self) -> f64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        ((z ^ (z >> 31)) >> 11) as f64 / (1u64 << 53) as f64 + 1e-17
    }
}

const SIMULATIONS: usize = 60;

/// The mean and variance of the sums of the factors of `k` candidates drawn one after the other
/// without replacement, with probabilities proportional to their weights.
fn simulate(weights: &[f64], factors: &[[f64; 11]], k: usize, rng: &mut Rng) -> [(f64, f64); 11] {
    let n = weights.len();
    let mut sums = [(0.0, 0.0); 11];
    let mut clocks: Vec<(f64, usize)> = vec![];
    // Sums relative to their expectation if all were equal, to avoid cancellation.
    let mut base = [0.0; 11];
    for f in factors {
        for (b, x) in base.iter_mut().zip(f) {
            *b += x * k as f64 / n as f64;
        }
    }
    for _ in 0..SIMULATIONS {
        clocks.clear();
        clocks.extend((0..n).map(|i| (-rng.next().ln() / weights[i], i)));
        clocks.select_nth_unstable_by(k - 1, |a, b| a.0.total_cmp(&b.0));
        let mut s = [0.0; 11];
        for (_, i) in &clocks[..k] {
            for (t, x) in s.iter_mut().zip(&factors[*i]) {
                *t += x;
            }
        }
        for j in 0..11 {
            let x = s[j] - base[j];
            sums[j].0 += x;
            sums[j].1 += x * x;
        }
    }
    let m = SIMULATIONS as f64;
    std::array::from_fn(|j| {
        let mean = sums[j].0 / m;
        let var = (sums[j].1 / m - mean * mean).max(0.0) * m / (m - 1.0);
        (mean + base[j], var * (1.0 + 1.0 / m))
    })
}

pub struct C37;
impl Prop for C37 {
    type Case = WeightCase;
    fn id(&self) -> &'static str {
        "C37"
    }
    fn rule(&self) -> &'static str {
        "in the batches of the case every factor of the weights differs among the exercises they were drawn from, with a variance of at least 6 in total"
    }
    fn quick_cases(&self) -> usize {
        8
    }
    fn reps(&self) -> usize {
        1
    }
    fn strategy(&self, _thorough: bool) -> BoxedStrategy<WeightCase> {
        let hours = prop_oneof![
            2 => 0u16..48,
            2 => 24u16..240,
            1 => 240u16..1500,
        ];
        let trials = prop_oneof![
            1 => Just(vec![]),
            // Of changing quality.
            3 => vec((0u8..5, hours.clone()), 1..6),
            // Of steady quality.
            3 => (2u8..5, vec(hours.clone(), 2..6))
                .prop_map(|(s, h)| h.into_iter().map(|h| (s, h)).collect()),
            // Slowly changing.
            2 => (2u8..4, hours, 24u16..100, 2usize..5, any::<bool>()).prop_map(|(s, h, gap, n, up)| {
                (0..n)
                    .map(|i| {
                        let newer = i < n / 2;
                        (s + u8::from(newer == up), if i == 0 { h } else { gap })
                    })
                    .collect()
            }),
        ];
        let lesson = (any::<u8>(), vec(trials, 1..5));
        let small = (
            vec(vec(lesson, 1..5), 2..5),
            vec((any::<u8>(), any::<u8>(), any::<u8>()), 0..12),
            8usize..14,
            (30u16..390, 10u8..25),
            prop_oneof![
                3 => Just(Some([1u16, 2, 480, 490])),
                1 => Just(None),
                1 => Just(Some([1u16, 2, 3, 4])),
                1 => Just(Some([50u16, 200, 300, 400])),
            ],
        )
            .prop_map(|(courses, extra, batch_size, passing, limits)| Small {
                courses,
                extra,
                batch_size,
                passing,
                limits,
            });
        (vec(small, 120..=120), any::<u64>())
            .prop_map(|(libs, seed)| WeightCase {
                libs,
                sessions: 5,
                batches: 40,
                seed,
            })
            .boxed()
    }
    fn check(&self, case: &WeightCase, stats: &mut Stats) -> Res {
        let mut rng = Rng(case.seed);
        // Observed minus expected, and the variance, of the sums of each factor.
        let mut total = [(0.0, 0.0); 11];
        for small in &case.libs {
            let lib = small.lib();
            let mut world = World::new(&lib)?;
            let mut history = vec![];
            for (id, trials) in small.trials() {
                history.extend(past(&id, &trials));
            }
            world.record(&history)?;
            let options = {
                let mut o = super::mix::Options {
                    batch_size: small.batch_size,
                    relearn_percent: 10,
                    shares: None,
                    limits: small.limits,
                    passing: Some((small.passing.0, u16::from(small.passing.1) * 10)),
                    superseding: None,
                    max_lessons: 1000,
                }
                .decode();
                o.passing_score.min_fraction = 1.0;
                o
            };
            options
                .verify()
                .must("valid-options-rejected", "verifying valid options")?;
            world.set_options(options.clone());
            let Some(pool) = candidates(small, &lib, &world)? else {
                stats.hit("too_close_to_call");
                continue;
            };
            // A search may stop once it found ten times the size of the batch.
            if lib.num_exercises() >= 10 * options.batch_size {
                continue;
            }
            for session in 0..case.sessions {
                if session > 0 {
                    // Only one instance at a time, as an application would do.
                    world.trane = open(world.root()).must("open", "opening a valid library")?;
                    world.trane.override_current_timestamp(Some(world.now));
                    world.set_options(options.clone());
                }
                let mut offered: BTreeMap<String, u32> = BTreeMap::new();
                for _ in 0..case.batches {
                    let batch: BTreeSet<String> = world
                        .batch(None)?
                        .iter()
                        .map(|e| e.id.to_string())
                        .collect();
                    for id in &batch {
                        check!(
                            pool.iter().any(|c| c.id == *id),
                            "not-a-candidate",
                            "{id} is in a batch, although it cannot be reached or is covered by others"
                        );
                    }
                    for window in 0..5 {
                        let members: Vec<&Candidate> =
                            pool.iter().filter(|c| c.window == window).collect();
                        let k = members.iter().filter(|c| batch.contains(&c.id)).count();
                        if k == 0 || k == members.len() {
                            continue;
                        }
                        let frequency =
                            |c: &Candidate| offered.get(&c.id).copied().unwrap_or_default();
                        let weights: Vec<f64> =
                            members.iter().map(|c| c.weight(frequency(c))).collect();
                        let factors: Vec<[f64; 11]> = members
                            .iter()
                            .zip(&weights)
                            .map(|(c, w)| {
                                let mut f = [0.0; 11];
                                f[..9].copy_from_slice(&c.factors);
                                f[9] = f64::from(frequency(c)).ln_1p();
                                f[10] = w.ln();
                                f
                            })
                            .collect();
                        let expected = simulate(&weights, &factors, k, &mut rng);
                        for (j, (mean, var)) in expected.iter().enumerate() {
                            let observed: f64 = members
                                .iter()
                                .zip(&factors)
                                .filter(|(c, _)| batch.contains(&c.id))
                                .map(|(_, f)| f[j])
                                .sum();
                            total[j].0 += observed - mean;
                            total[j].1 += var;
                        }
                        stats.hit("selections");
                        stats.add("selected", k as u64);
                    }
                    for id in batch {
                        *offered.entry(id).or_default() += 1;
                    }
                }
            }
        }
        let mut wide = true;
        for (name, (difference, variance)) in FACTORS.iter().zip(total) {
            if variance < 6.0 {
                wide = false;
                continue;
            }
            let z = difference / variance.sqrt();
            stats.add(&format!("variance of {name}"), variance as u64);
            check!(
                z.abs() < 6.0,
                "biased-selection",
                "the sum of the {name} of the selected exercises is off by {difference:.1}, which is {z:.1} standard deviations"
            );
            stats.hit_if(z.abs() > 2.0, &format!("beyond two deviations: {name}"));
            stats.hit_if(z > 0.0, &format!("above the expectation: {name}"));
        }
        if wide {
            stats.mark_nontrivial();
        }
        Ok(())
    }
}

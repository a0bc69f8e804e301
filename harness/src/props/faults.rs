//! Crashes and failing writes: the victim process is killed, or its writes fail, at a chosen call
//! that changes files, and the files it leaves are compared with an undisturbed run.

use chrono::Utc;
use proptest::{collection::vec, prelude::*};
use serde::{Deserialize, Serialize};
use std::{
    collections::{BTreeMap, BTreeSet},
    os::unix::process::ExitStatusExt,
    path::{Path, PathBuf},
    process::{Command, Stdio},
    time::{Duration, Instant},
};
use trane::scheduler::ExerciseScheduler;

use crate::{
    check,
    engine::{Fail, OrHarness, OrViolation, Prop, Res, Stats},
    library::{Lib, LibParams, lib_strategy},
    script::{Op, Script, open_at, same, same_dumps},
    world::{tempdir, u},
};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct FaultCase {
    pub lib: Lib,
    pub ops: Vec<Op>,
    /// Where to strike, as parts of the run, how, and for how many calls.
    pub points: Vec<(u16, u8, u8)>,
}

type Dump = BTreeMap<String, Vec<String>>;

fn strategy(thorough: bool) -> BoxedStrategy<FaultCase> {
    let some = || vec((any::<u16>(), any::<u8>()), 1..5);
    let op = prop_oneof![
        6 => (any::<u16>(), any::<u8>()).prop_map(|(e, s)| Op::Score(e, s)),
        2 => some().prop_map(Op::Trials),
        2 => some().prop_map(Op::Rewards),
        1 => some().prop_map(Op::Deltas),
        2 => (any::<u8>(), any::<u8>()).prop_map(|(w, n)| Op::Trim(w, n)),
        2 => (any::<u8>(), any::<u16>()).prop_map(|(w, n)| Op::RemovePrefix(w, n)),
        3 => any::<u16>().prop_map(Op::Blacklist),
        1 => any::<u16>().prop_map(Op::Unblacklist),
        2 => any::<u16>().prop_map(Op::Review),
        1 => any::<u16>().prop_map(Op::Unreview),
        2 => any::<u8>().prop_map(Op::Preferences),
        1 => Just(Op::Batch),
        1 => Just(Op::Reopen),
    ];
    let params = LibParams {
        courses: 2,
        lessons: 3,
        exercises: 2,
        encompassing: true,
        min_lessons: 1,
        min_exercises: 1,
        ..LibParams::default()
    };
    (
        lib_strategy(params),
        vec(op, 1..=if thorough { 24 } else { 12 }),
        vec((any::<u16>(), any::<u8>(), any::<u8>()), 3..=6),
    )
        .prop_map(|(lib, ops, points)| FaultCase { lib, ops, points })
        .boxed()
}

fn script(case: &FaultCase) -> Script {
    Script {
        ops: case.ops.clone(),
        exercises: case.lib.exercise_ids(),
        units: case.lib.unit_ids(),
        // Away from the full days that the ages of rewards are rounded to.
        now: Utc::now().timestamp() - 3_600,
    }
}

/// Runs the script undisturbed and returns what is stored before and after each operation.
fn reference(case: &FaultCase, s: &Script) -> Res<Vec<Dump>> {
    let tmp = tempdir()?;
    case.lib.write(tmp.path())?;
    let mut t = open_at(tmp.path(), s.now).must("open", "opening the library")?;
    let mut dumps = vec![s.dump(&t).must("read", "reading what is stored")?];
    for (k, op) in s.ops.iter().enumerate() {
        if *op == Op::Reopen {
            drop(t);
            t = open_at(tmp.path(), s.now).must("open", "opening the library")?;
        }
        s.run(&mut t, k).must("run", &format!("{op:?}"))?;
        dumps.push(s.dump(&t).must("read", "reading what is stored")?);
    }
    Ok(dumps)
}

struct Outcome {
    killed: bool,
    /// The operations acknowledged, opening the library being the first.
    done: usize,
    /// The operations that failed at least once.
    failed: BTreeSet<usize>,
    /// The number of calls, and of those in opening the library, if it ran to its end.
    calls: Option<(i64, i64)>,
}

fn victim(
    dir: &Path,
    case: &FaultCase,
    s: &Script,
    mode: usize,
    at: i64,
    len: i64,
) -> Res<(PathBuf, Outcome)> {
    let root = dir.join(format!("root-{mode}-{at}-{len}"));
    std::fs::create_dir_all(&root).harness("create dir")?;
    case.lib.write(&root)?;
    let file = dir.join("script.json");
    let text = serde_json::to_string(s).harness("serialize")?;
    std::fs::write(&file, text).harness("write script")?;
    let exe = std::env::current_exe()
        .harness("current exe")?
        .with_file_name("victim");
    let (out, err) = (dir.join("out"), dir.join("err"));
    let mut child = Command::new(exe)
        .arg(&file)
        .arg(&root)
        .args([mode.to_string(), at.to_string(), len.to_string()])
        .stdin(Stdio::null())
        .stdout(std::fs::File::create(&out).harness("create")?)
        .stderr(std::fs::File::create(&err).harness("create")?)
        .spawn()
        .harness("start the victim")?;
    let start = Instant::now();
    let status = loop {
        if let Some(status) = child.try_wait().harness("wait")? {
            break status;
        }
        if start.elapsed() > Duration::from_secs(60) {
            let _ = child.kill();
            let _ = child.wait();
            return Err(crate::engine::violation(
                "hang",
                format!("the process hangs (fault {mode} at call {at} for {len} calls)"),
            ));
        }
        std::thread::sleep(Duration::from_micros(500));
    };
    let text = std::fs::read_to_string(&out).harness("read the output")?;
    let mut outcome = Outcome {
        killed: status.signal() == Some(9),
        done: 0,
        failed: BTreeSet::new(),
        calls: None,
    };
    for c in text.chars() {
        match c {
            'o' => outcome.done += 1,
            'f' => {
                outcome.failed.insert(outcome.done);
            }
            'd' => {
                outcome.calls = text
                    .split('d')
                    .nth(1)
                    .and_then(|n| n.trim().split_once(' '))
                    .and_then(|(n, m)| Some((n.parse().ok()?, m.parse().ok()?)));
            }
            _ => {}
        }
    }
    if !outcome.killed && status.code() != Some(0) {
        let err = std::fs::read_to_string(&err).unwrap_or_default();
        let message = err.lines().take(30).collect::<Vec<_>>().join(" | ");
        let signature = match status.code() {
            Some(101) => "panic",
            Some(3) => "fault",
            _ => "died",
        };
        return Err(crate::engine::violation(
            signature,
            format!("with fault {mode} at call {at} for {len} calls ({status}): {message}"),
        ));
    }
    Ok((root, outcome))
}

/// The undisturbed run of the victim, which says how many calls there are.
fn count(dir: &Path, case: &FaultCase, s: &Script, dumps: &[Dump]) -> Res<(i64, i64)> {
    let (root, outcome) = victim(dir, case, s, 0, 0, 0)?;
    let (calls, opening) = outcome
        .calls
        .ok_or_else(|| Fail::Harness("the victim did not count its calls".into()))?;
    let t = open_at(&root, s.now).must("open", "opening the library after a normal end")?;
    let got = s.dump(&t).must("read", "reading what is stored")?;
    let want = dumps.last().unwrap();
    for (key, want) in want {
        check!(
            same(&got[key], want),
            "lost",
            "after a normal end, {key} holds {:?}, expected {want:?}",
            got[key]
        );
    }
    if calls < 10 {
        return Err(Fail::Harness(format!("only {calls} calls were seen")));
    }
    Ok((calls, opening))
}

/// The call to strike at: one in six points is in opening the library for the first time.
fn call(part: u16, calls: i64, opening: i64) -> i64 {
    let (n, of) = (i64::from(part / 6), 65_536 / 6 + 1);
    if part % 6 == 0 {
        n * opening / of
    } else {
        opening + n * (calls - opening) / of
    }
}

pub struct C28;
impl Prop for C28 {
    type Case = FaultCase;
    fn id(&self) -> &'static str {
        "C28"
    }
    fn rule(&self) -> &'static str {
        "the process was killed during an operation that changes what is stored"
    }
    fn quick_cases(&self) -> usize {
        1200
    }
    fn reps(&self) -> usize {
        2
    }
    fn strategy(&self, thorough: bool) -> BoxedStrategy<FaultCase> {
        strategy(thorough)
    }
    fn check(&self, case: &FaultCase, stats: &mut Stats) -> Res {
        if case.lib.num_exercises() == 0 {
            return Ok(());
        }
        let s = script(case);
        let dumps = reference(case, &s)?;
        let tmp = tempdir()?;
        let (calls, opening) = count(tmp.path(), case, &s, &dumps)?;
        stats.add("calls", calls as u64);
        for (part, how, _) in &case.points {
            let at = call(*part, calls, opening);
            let mode = if how % 3 == 0 { 2 } else { 1 };
            let (root, outcome) = victim(tmp.path(), case, &s, mode, at, 1)?;
            if !outcome.killed {
                continue;
            }
            stats.hit("kills");
            let mut t =
                open_at(&root, s.now).must("open", "opening the library after the crash")?;
            let got = s
                .dump(&t)
                .must("read", "reading what is stored after the crash")?;
            // The first acknowledgement is that of opening the library.
            let k = outcome.done.saturating_sub(1);
            let before = &dumps[k];
            let after = if outcome.done == 0 {
                before
            } else {
                dumps.get(k + 1).unwrap_or(before)
            };
            let what = match (outcome.done, case.ops.get(k)) {
                (0, _) => "opening the library".to_string(),
                (_, Some(op)) => format!("{op:?}"),
                (_, None) => "closing the library".to_string(),
            };
            // The batches of a store are stored in full or not at all.
            let whole = matches!(
                case.ops.get(k),
                Some(Op::Score(..) | Op::Trials(_) | Op::Rewards(_) | Op::Deltas(_))
            );
            let mut sides: BTreeMap<&str, (bool, &str)> = BTreeMap::new();
            for (key, got) in &got {
                let (before, after) = (&before[key], &after[key]);
                check!(
                    same(got, before) || same(got, after),
                    "lost",
                    "killed at call {at} (mode {mode}) during {what}, {key} holds {got:?}, \
                     expected {before:?} or {after:?}"
                );
                if whole && !same(before, after) {
                    let store = key.split(' ').next().unwrap_or_default();
                    let side = same(got, after);
                    let (first, other) = *sides.entry(store).or_insert((side, key));
                    check!(
                        first == side,
                        "partial",
                        "killed at call {at} (mode {mode}) during {what}, only one of {key} and \
                         {other} was stored"
                    );
                }
            }
            if !same_dumps(before, after) {
                stats.mark_nontrivial();
                stats.hit("during_a_change");
                stats.hit_if(same_dumps(&got, after), "change_complete");
                stats.hit_if(
                    !same_dumps(&got, after) && !same_dumps(&got, before),
                    "change_in_part",
                );
            }
            stats.hit_if(outcome.done == 0, "while_opening");
            // The library is of use afterwards.
            t.get_exercise_batch(None)
                .must("unusable", "requesting a batch after the crash")?;
            for k in outcome.done.saturating_sub(1)..s.ops.len() {
                s.run(&mut t, k).must(
                    "unusable",
                    &format!("{:?} after a crash during {what}", s.ops[k]),
                )?;
            }
            drop(t);
            let _ = std::fs::remove_dir_all(&root);
        }
        Ok(())
    }
}

pub struct C33;
impl Prop for C33 {
    type Case = FaultCase;
    fn id(&self) -> &'static str {
        "C33"
    }
    fn rule(&self) -> &'static str {
        "an operation that changes what is stored reported an error and was repeated"
    }
    fn quick_cases(&self) -> usize {
        1000
    }
    fn reps(&self) -> usize {
        2
    }
    fn strategy(&self, thorough: bool) -> BoxedStrategy<FaultCase> {
        strategy(thorough)
    }
    fn check(&self, case: &FaultCase, stats: &mut Stats) -> Res {
        if case.lib.num_exercises() == 0 {
            return Ok(());
        }
        let s = script(case);
        let dumps = reference(case, &s)?;
        let want = dumps.last().unwrap();
        let tmp = tempdir()?;
        let (calls, opening) = count(tmp.path(), case, &s, &dumps)?;
        stats.add("calls", calls as u64);
        for (part, how, len) in &case.points {
            let at = call(*part, calls, opening);
            let mode = 3 + usize::from(how % 2);
            let len = [1, 1, 2, 5, 20][*len as usize % 5];
            let (root, outcome) = victim(tmp.path(), case, &s, mode, at, len)?;
            stats.hit("runs");
            let what = format!("fault {mode} at call {at} for {len} calls");
            let t = open_at(&root, s.now).must("open", &format!("opening after {what}"))?;
            let got = s.dump(&t).must("read", "reading what is stored")?;
            // The steps of answering an exercise go to different stores, so repeating it may store
            // the answer again.
            let answer = outcome
                .failed
                .iter()
                .any(|k| *k > 0 && matches!(case.ops.get(k - 1), Some(Op::Score(..))));
            for (key, want) in want {
                let got = &got[key];
                let fine = if !answer {
                    same(got, want)
                } else if key.starts_with("deltas") {
                    true
                } else {
                    // Trimming may keep a repeated answer in the place of an older one.
                    let among = |a: &[String], b: &[String]| {
                        a.iter()
                            .all(|x| b.iter().any(|y| same(&[x.clone()], &[y.clone()])))
                    };
                    (among(got, want) && among(want, got))
                        || case.ops.iter().any(|op| matches!(op, Op::Trim(..)))
                };
                check!(
                    fine,
                    "lost",
                    "with {what}, after repeating the operations {:?} that failed, {key} holds \
                     {got:?}, expected {want:?}",
                    outcome.failed
                );
            }
            for k in &outcome.failed {
                if *k > 0 && dumps[k - 1] != dumps[*k] {
                    stats.mark_nontrivial();
                    stats.hit("changes_that_failed");
                }
            }
            stats.hit_if(outcome.failed.is_empty(), "without_effect");
            stats.hit_if(outcome.failed.contains(&0), "while_opening");
            t.get_exercise_batch(None)
                .must("unusable", "requesting a batch")?;
            let _ = t.get_unit_score(u(&s.units[0]));
            drop(t);
            let _ = std::fs::remove_dir_all(&root);
        }
        Ok(())
    }
}

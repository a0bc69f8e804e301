mod delays;
mod engine;
mod library;
mod props;
mod script;
mod session;
mod world;

use engine::{Prop, RunConfig};
use std::path::PathBuf;

enum Cmd {
    Parent,
    Child,
    Index(usize, Option<PathBuf>),
    Replay(PathBuf),
}

fn exec<P: Prop>(prop: &P, cmd: &Cmd, tier: &str, cfg: &RunConfig) -> i32 {
    match cmd {
        Cmd::Parent => engine::run_parent(prop.id(), tier, cfg),
        Cmd::Child => engine::run_child(prop, cfg),
        Cmd::Index(i, dump) => engine::run_index(prop, cfg, *i, dump.as_deref()),
        Cmd::Replay(path) => engine::replay(prop, path),
    }
}

macro_rules! dispatch {
    ($id:expr, $cmd:expr, $tier:expr, $cfg:expr; $($prop:expr),* $(,)?) => {{
        $(
            let prop = $prop;
            if prop.id() == $id {
                return exec(&prop, $cmd, $tier, $cfg);
            }
        )*
        eprintln!("unknown property {}", $id);
        2
    }};
}

fn run(id: &str, cmd: &Cmd, tier: &str, cfg: &RunConfig) -> i32 {
    use props::*;
    dispatch!(id, cmd, tier, cfg;
        scheduling::C01,
        documents::C18,
        scheduling::C02,
        scheduling::C03,
        scheduling::C04,
        scheduling::C05,
        scheduling::C06,
        scores::C07,
        scores::C08,
        scores::C09,
        scores::C13,
        stores::C10,
        stores::C11,
        stores::C12,
        stores::C19,
        structure::C14,
        structure::C15,
        structure::C16,
        structure::C17,
        filters::C20,
        filters::C21,
        scheduling::C34,
        mix::C27,
        mix::C29,
        mix::C30,
        mix::C32,
        mix::C35,
        mix::C36,
        generators::C22,
        generators::C23,
        generators::C24,
        generators::C25,
        builders::C26,
        faults::C28,
        faults::C33,
        concurrent::C31,
        scheduling::C38,
        weights::C37,
        graphs::C39,
        shape::C40,
        upgrades::C41,
    )
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let usage = "usage: trane-pbt run|child|index|dump|replay <ID> <quick|thorough|FILE> [...]";
    if args.len() < 4 {
        eprintln!("{usage}");
        std::process::exit(2);
    }
    let (mode, id, third) = (args[1].as_str(), args[2].as_str(), args[3].as_str());
    let seed = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse::<u64>().ok())
        .unwrap_or(1);
    let verif = std::env::var_os("TRANE_PBT_VERIF")
        .map(PathBuf::from)
        .unwrap_or_else(|| PathBuf::from(env!("CARGO_MANIFEST_DIR")).join(".."));
    let verif = verif.canonicalize().unwrap_or(verif);

    // The scratch directory is created and removed by the outermost process.
    let inherited = std::env::var_os("TRANE_PBT_SCRATCH").map(PathBuf::from);
    let mut own: Option<tempfile::TempDir> = None;
    let scratch = match inherited {
        Some(p) => p,
        None => {
            let base = ["/dev/shm", "/tmp"]
                .iter()
                .map(PathBuf::from)
                .find(|p| p.is_dir())
                .unwrap_or_else(std::env::temp_dir);
            let dir = tempfile::Builder::new()
                .prefix("trane-pbt")
                .tempdir_in(&base)
                .or_else(|_| tempfile::tempdir())
                .expect("cannot create a scratch directory");
            let path = dir.path().to_path_buf();
            own = Some(dir);
            path
        }
    };
    // Set before any thread is started.
    unsafe { std::env::set_var("TRANE_PBT_SCRATCH", &scratch) };

    let cfg = RunConfig {
        seed,
        thorough: third == "thorough",
        verif,
        scratch,
        cases_override: std::env::var("TRANE_PBT_CASES")
            .ok()
            .and_then(|s| s.parse().ok()),
    };
    let code = match mode {
        "run" => run(id, &Cmd::Parent, third, &cfg),
        "child" => {
            engine::install_panic_hook();
            run(id, &Cmd::Child, third, &cfg)
        }
        "index" | "dump" => {
            engine::install_panic_hook();
            let index = args.get(4).and_then(|s| s.parse().ok()).unwrap_or(0);
            let dump =
                (mode == "dump").then(|| PathBuf::from(args.get(5).cloned().unwrap_or_default()));
            run(id, &Cmd::Index(index, dump), third, &cfg)
        }
        "replay" => {
            engine::install_panic_hook();
            run(id, &Cmd::Replay(PathBuf::from(third)), "quick", &cfg)
        }
        _ => {
            eprintln!("{usage}");
            2
        }
    };
    drop(own);
    std::process::exit(code);
}

mod drive;
mod engine;
mod ffi;
mod gen;
mod model;
mod props;
mod tape;

use std::path::Path;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let props = props::all();
    let find = |id: &str| {
        props.iter().find(|p| p.id == id).unwrap_or_else(|| {
            eprintln!("no property {}", id);
            std::process::exit(2)
        })
    };
    let num = |n: &str| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).and_then(|s| s.parse::<u64>().ok()).unwrap_or(0);
    let rc = match a.get(1).map(|s| s.as_str()) {
        // check ROOT ID TIER [--only SUB] [--keep]
        Some("check") => {
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
            let only = a.iter().position(|x| x == "--only").map(|i| a[i + 1].clone());
            let keep = a.iter().any(|x| x == "--keep");
            engine::check(find(&a[3]), Path::new(&a[2]), seed, a[4] == "thorough", only.as_deref(), keep)
        }
        // worker ID ROOT DIR SHARD SEED TIER
        Some("worker") => {
            let only = a.iter().position(|x| x == "--only").map(|i| a[i + 1].clone());
            let keep = a.iter().any(|x| x == "--keep");
            engine::worker(
                find(&a[2]),
                Path::new(&a[3]),
                Path::new(&a[4]),
                a[5].parse().unwrap(),
                a[6].parse().unwrap(),
                a[7] == "thorough",
                only.as_deref(),
                keep,
                num("--from") as usize,
                num("--again"),
            )
        }
        Some("shrink") => engine::shrink(find(&a[2]), Path::new(&a[3]), Path::new(&a[4]), Path::new(&a[5]), a[6] == "thorough"),
        Some("replay") => engine::replay(&props, Path::new(&a[2]), Path::new(&a[3])),
        Some("shrinktape") => engine::shrinktape(find(&a[3]), Path::new(&a[2]), &a[4], Path::new(&a[5])),
        // mkreplay ROOT ID SUB TAPE: writes a replay file for a tape
        Some("mkreplay") => {
            let d = Path::new(&a[2]).join("build/replays");
            std::fs::create_dir_all(&d).unwrap();
            let f = d.join("manual.replay");
            std::fs::write(&f, format!("{}\n{}\n{}\n", a[3], a[4], a[5])).unwrap();
            println!("{}", f.display());
            0
        }
        Some("libs") => {
            println!("{}", match find(&a[2]).libs {
                engine::Libs::Std => "std",
                engine::Libs::Asan => "asan",
                engine::Libs::Wide => "std wide",
                engine::Libs::Bins => "std bins",
            });
            0
        }
        _ => {
            eprintln!("usage: harness check|replay ...");
            2
        }
    };
    std::process::exit(rc);
}

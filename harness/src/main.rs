mod api;
mod budget;
mod checks;
mod engine;
mod gen;
mod model;
mod rx;
mod sch;
mod src;
mod val;

use std::path::PathBuf;

#[global_allocator]
static A: budget::Counting = budget::Counting;

fn main() {
    engine::init();
    let a: Vec<String> = std::env::args().collect();
    std::process::exit(run(&a));
}

fn find(id: &str) -> &'static engine::Prop {
    checks::PROPS.iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("no property {}", id);
        std::process::exit(2)
    })
}

fn run(a: &[String]) -> i32 {
    let root = PathBuf::from(std::env::var("VH_ROOT").unwrap_or_else(|_| "/verif".into()));
    match a.get(1).map(|x| x.as_str()) {
        Some("check") => {
            let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
            let tier = a.get(3).cloned().unwrap_or(tier);
            let seed = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
            let scale = std::env::var("VH_SCALE").ok().and_then(|x| x.parse().ok()).unwrap_or(1.0);
            let jobs = std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(8).clamp(2, 16);
            engine::check(find(&a[2]), &engine::Opts { tier, seed, root, jobs, scale })
        }
        Some("worker") => engine::worker(
            find(&a[2]),
            engine::Opts {
                tier: a[3].clone(),
                seed: a[4].parse().unwrap(),
                root,
                jobs: a[6].parse().unwrap(),
                scale: a[7].parse().unwrap(),
            },
            a[5].parse().unwrap(),
            PathBuf::from(&a[8]),
        ),
        Some("one") => {
            let th = a[3] == "thorough";
            if let Some(i) = a[4].strip_prefix("fixed:") {
                return engine::one(find(&a[2]), Some(i.parse().unwrap()), vec![], th);
            }
            let mut b = vec![];
            use std::io::Read;
            std::io::stdin().read_to_end(&mut b).unwrap();
            engine::one(find(&a[2]), None, b, th)
        }
        Some("index") => {
            // show one generated case: index ID tier seed i
            let p = find(&a[2]);
            let i: u64 = a[5].parse().unwrap();
            let b = engine::bytes_for(a[4].parse().unwrap(), p.id, i, &engine::config());
            let f = if i < p.fixed { Some(i) } else { None };
            engine::one(p, f, b, a[3] == "thorough")
        }
        Some("replay") => engine::replay(checks::PROPS, &a[2], root),
        Some("list") => {
            for p in checks::PROPS {
                println!("{}", p.id);
            }
            0
        }
        Some(x) => checks::child(x, &a[2..]),
        None => 2,
    }
}

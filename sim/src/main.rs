//! Simulation driver.
pub mod conc;
pub mod ctor;
pub mod exec;
pub mod hist;
pub mod plan;
pub mod runner;
use simcore::world::*;

#[global_allocator]
static A: simrt::mem::SimAlloc = simrt::mem::SimAlloc;

pub fn builder(v: Variant, k: ItemKind) -> Build {
    match (v.heap(), v, k) {
        (true, _, ItemKind::U32) => ih_u32::build,
        (true, _, ItemKind::U8) => ih_u8::build,
        (true, _, ItemKind::B3) => ih_b3::build,
        (true, _, ItemKind::P2) => ih_p2::build,
        (true, _, ItemKind::Trk) => ih_trk::build,
        (true, _, ItemKind::Pad) => ih_pad::build,
        (true, _, ItemKind::Spa) => ih_spa::build,
        (true, _, ItemKind::Big) => ih_big::build,
        (_, Variant::ConcStack, ItemKind::Trk) => ics_trk::build,
        (_, Variant::ConcStack, _) => ics_u32::build,
        (_, _, ItemKind::Trk) => ils_trk::build,
        (_, _, _) => ils_u32::build,
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let opt = |n: &str, d: &str| -> String {
        a.iter().position(|x| x == n).and_then(|k| a.get(k + 1).cloned()).unwrap_or(d.to_string())
    };
    let prop = |s: &str| -> u32 { s.trim_start_matches('C').parse().expect("property") };
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let p = prop(&a[2]);
            let tier = opt("--tier", "quick");
            let config = opt("--config", "cfg-async");
            let c = runner::Cfg {
                prop: p,
                seed: opt("--seed", "1").parse().unwrap_or(1),
                runs: opt("--runs", "0").parse().unwrap(),
                wall: opt("--wall", "60").parse().unwrap(),
                workers: opt("--workers", "8").parse().unwrap(),
                out: opt("--out", "/dev/stdout"),
                replays: opt("--replays", "/tmp"),
                dump: opt("--dump", ""),
                minimise: opt("--minimise", if tier == "quick" { "25" } else { "90" }).parse().unwrap(),
                profile: opt("--profile", "dev"),
                known: a.iter().enumerate().filter(|(k, _)| *k > 0 && a[*k - 1] == "--known").map(|(_, x)| x.clone()).collect(),
                tier,
                config,
            };
            runner::check(&c)
        }
        Some("replay") => runner::replay(&a[2]),
        Some("one") => {
            runner::one(prop(&a[2]), &a[3], a[4].parse().unwrap());
            0
        }
        _ => {
            eprintln!("simdrv check PROP .. | replay FILE | one PROP SCENARIO SEED");
            2
        }
    };
    std::process::exit(code);
}

//! Executable contracts over the real crate (public API): used to turn a failed proof obligation into a
//! concrete failing input and as the labelled bounded stand-in for code outside the verifier's reach.
//!   vreplay run <ID> --seed N --seconds S --cases N --out DIR     (parent: watches for hangs and crashes)
//!   vreplay case <ID> --seed N --index I                          (re-runs one case, prints it)
mod anim;
mod core;
mod data;
mod events;
mod geo;
mod look;
mod read;
mod select;
use crate::core::*;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

fn arg(name: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned())
}
fn size_of(index: u64) -> usize {
    1 + (index / 40).min(24) as usize / 2
}

thread_local! { static PANIC: std::cell::RefCell<String> = Default::default(); }

fn run_one<P: Prop>(p: &P, seed: u64, index: u64) -> Result<usize, (String, String)> {
    let mut rng = Rng::new(seed, index);
    let case = p.gen(&mut rng, size_of(index));
    match catch_unwind(AssertUnwindSafe(|| p.check(&case))) {
        Ok(Ok(n)) => Ok(n),
        Ok(Err(e)) => Err((e, format!("{case:#?}"))),
        Err(_) => Err((format!("panic: {}", PANIC.with(|p| p.borrow().clone())), format!("{case:#?}"))),
    }
}

fn child<P: Prop>(p: P, mode: &str) -> i32 {
    let seed: u64 = arg("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    std::panic::set_hook(Box::new(|i| PANIC.with(|p| *p.borrow_mut() = i.to_string())));
    if mode == "case" {
        let index: u64 = arg("--index").unwrap().parse().unwrap();
        let mut rng = Rng::new(seed, index);
        let case = p.gen(&mut rng, size_of(index));
        println!("{case:#?}");
        if arg("--describe").is_some() {
            return 0;
        }
        return match run_one(&p, seed, index) {
            Ok(n) => { println!("HELD ({n} observations)"); 0 }
            Err((e, _)) => { println!("FAILED: {e}"); 1 }
        };
    }
    let seconds: f64 = arg("--seconds").and_then(|s| s.parse().ok()).unwrap_or(5.0);
    let cases: u64 = arg("--cases").and_then(|s| s.parse().ok()).unwrap_or(u64::MAX);
    let progress = std::fs::OpenOptions::new().create(true).write(true).open(arg("--progress").unwrap()).unwrap();
    let start = Instant::now();
    let (mut done, mut nontrivial, mut obs) = (0u64, 0u64, 0u64);
    let mut index = 0;
    let mut sample = String::new();
    while index < cases && start.elapsed().as_secs_f64() < seconds {
        let _ = progress.write_all_at(&(index + 1).to_le_bytes(), 0);
        match run_one(&p, seed, index) {
            Ok(n) => {
                done += 1;
                if n > 1 { nontrivial += 1; }
                obs += n as u64;
                if index == 45 || (sample.is_empty() && n > 1) {
                    let mut rng = Rng::new(seed, index);
                    sample = format!("{:?}", p.gen(&mut rng, size_of(index)));
                }
            }
            Err((e, case)) => {
                println!("FAIL index={index}");
                let out = serde_json::json!({"index": index, "seed": seed, "error": e, "case": case});
                std::fs::write(arg("--fail").unwrap(), serde_json::to_string_pretty(&out).unwrap()).unwrap();
                return 1;
            }
        }
        index += 1;
    }
    sample.truncate(1500);
    println!("{}", serde_json::json!({"evaluations": done, "distinct_nontrivial": nontrivial, "observations": obs, "sample": sample}));
    let _ = std::io::stdout().flush();
    0
}

fn parent(id: &str) -> i32 {
    let out = arg("--out").unwrap_or_else(|| "/tmp".into());
    let seed = arg("--seed").unwrap_or_else(|| "1".into());
    let progress = format!("{out}/progress-{id}");
    let fail = format!("{out}/fail-{id}.json");
    let _ = std::fs::remove_file(&progress);
    let _ = std::fs::remove_file(&fail);
    let mut args: Vec<String> = std::env::args().skip(1).collect();
    args[0] = "child".into();
    args.extend(["--progress".into(), progress.clone(), "--fail".into(), fail.clone()]);
    let mut child = std::process::Command::new(std::env::current_exe().unwrap()).args(&args).spawn().unwrap();
    let mut last = (0u64, Instant::now());
    let limit = Duration::from_secs(45);
    let verdict = loop {
        if let Some(status) = child.try_wait().unwrap() {
            match status.code() {
                Some(c @ (0 | 1)) => return c,
                _ => break format!("process died: {status}"),
            }
        }
        let mut b = [0u8; 8];
        let _ = std::fs::File::open(&progress).and_then(|f| f.read_exact_at(&mut b, 0));
        let now = u64::from_le_bytes(b);
        if now != last.0 {
            last = (now, Instant::now());
        } else if last.1.elapsed() > limit {
            let _ = child.kill();
            let _ = child.wait();
            break "no result within 45 s (does not terminate)".to_string();
        }
        std::thread::sleep(Duration::from_millis(50));
    };
    let mut b = [0u8; 8];
    let _ = std::fs::File::open(&progress).and_then(|f| f.read_exact_at(&mut b, 0));
    let index = u64::from_le_bytes(b).saturating_sub(1);
    let describe = std::process::Command::new(std::env::current_exe().unwrap())
        .args(["case", id, "--seed", &seed, "--index", &index.to_string(), "--describe", "1"])
        .output().map(|o| String::from_utf8_lossy(&o.stdout).to_string()).unwrap_or_default();
    println!("FAIL index={index}");
    let doc = serde_json::json!({"index": index, "seed": seed, "error": verdict, "case": describe});
    std::fs::write(&fail, serde_json::to_string_pretty(&doc).unwrap()).unwrap();
    1
}

fn dispatch(id: &str, mode: &str) -> i32 {
    match id {
        "C01" => child(data::Data { kind: data::Kind::Converge }, mode),
        "C02" => child(data::Data { kind: data::Kind::Arbitrary }, mode),
        "C03" => child(geo::Conv, mode),
        "C18" => child(geo::Geo { kind: geo::Kind::Scroll }, mode),
        "C19" => child(geo::Geo { kind: geo::Kind::Compose }, mode),
        "C04" => child(data::Data { kind: data::Kind::Order }, mode),
        "C05" => child(events::Events { kind: events::Kind::Hover }, mode),
        "C06" => child(events::Events { kind: events::Kind::Focus }, mode),
        "C07" => child(events::Events { kind: events::Kind::Drag }, mode),
        "C08" => child(events::Emit, mode),
        "C09" => child(select::Select { dynamic: false }, mode),
        "C10" => child(select::Select { dynamic: true }, mode),
        "C11" => child(look::Look { kind: look::Kind::Shorthand }, mode),
        "C12" => child(look::Look { kind: look::Kind::Units }, mode),
        "C13" => child(look::Look { kind: look::Kind::Cascade }, mode),
        "C14" => child(anim::Anim { kind: anim::Kind::Interpolate }, mode),
        "C15" => child(anim::Anim { kind: anim::Kind::Clock }, mode),
        "C16" => child(anim::Anim { kind: anim::Kind::Frames }, mode),
        "C17" => child(anim::Anim { kind: anim::Kind::Transition }, mode),
        "C20" => child(look::Look { kind: look::Kind::Reset }, mode),
        "C21" => child(data::Data { kind: data::Kind::Scope }, mode),
        "C22" => child(data::Data { kind: data::Kind::Spans }, mode),
        "C23" => child(data::Data { kind: data::Kind::Ids }, mode),
        "C24" => child(read::Read { any: true }, mode),
        "C25" => child(read::Read { any: false }, mode),
        _ => { eprintln!("unknown property {id}"); 2 }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (mode, id) = (a[1].clone(), a[2].clone());
    let code = if mode == "run" { parent(&id) } else {
        // deep recursion of the code under test must not be confused with a small stack of ours
        std::thread::Builder::new().stack_size(64 << 20).spawn(move || dispatch(&id, &mode)).unwrap().join().unwrap_or(2)
    };
    std::process::exit(code);
}

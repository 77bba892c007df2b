mod adapt;
mod alloc_meter;
mod bytesgen;
mod checks;
mod explore;
mod gen;
mod model;
mod spaces;
mod stream;

use explore::*;
use std::fmt::Write as _;
use std::path::{Path, PathBuf};
use std::process::{exit, Command, Stdio};
use alloc_meter::USUAL_CAP;
use std::time::Instant;

#[global_allocator]
static METER: alloc_meter::Meter = alloc_meter::Meter;

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

static CHILD: std::sync::OnceLock<(String, PathBuf)> = std::sync::OnceLock::new();

fn write_violation(dir: &Path, name: &str, v: &Violation) {
    let p: Vec<String> = v.prefix.iter().map(|x| x.to_string()).collect();
    let s = format!("VIOLATION\n{name}\n{}\n{}\n", p.join(","), v.message.replace('\n', " "));
    std::fs::write(dir.join("violation"), s).expect("HARNESS: write");
}

/// Called by the watchdog: the process cannot go on.
pub fn report_hang(_index: usize, e: &Exploration, v: Violation) -> ! {
    if let Some((_, dir)) = CHILD.get() {
        write_violation(dir, &e.name, &v);
    } else {
        println!("{}", v.message);
    }
    exit(3)
}

fn parse_prefix(s: &str) -> Prefix {
    s.split(',').filter(|x| !x.trim().is_empty()).map(|x| x.trim().parse().expect("HARNESS: prefix")).collect()
}

/// Explores all of a property; results go to files in `dir`.
fn child(id: &str, thorough: bool, dir: &Path) {
    let _ = CHILD.set((id.to_string(), dir.to_path_buf()));
    alloc_meter::set_cap(USUAL_CAP);
    let workers = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(1, 8);
    let journal = Journal(std::fs::File::create(dir.join("journal")).ok());
    let es = checks::explorations(id, thorough).expect("HARNESS: unknown property");
    let mut total = Ctx::default();
    let mut parts = vec![];
    let mut engine = None;
    for (i, e) in es.iter().enumerate() {
        let t = Instant::now();
        let (c, v) = explore(i, e, thorough, &journal, workers);
        parts.push(format!(
            "{{\"exploration\":{},\"deviation_bound\":{},\"states\":{},\"impl_calls\":{},\"scenarios\":{},\"wall_s\":{:.3}}}",
            esc(&e.name),
            if e.bound == u32::MAX { -1 } else { e.bound as i64 },
            c.nodes,
            c.ops,
            c.cases,
            t.elapsed().as_secs_f64()
        ));
        total.cases += c.cases;
        total.nodes += c.nodes;
        total.ops += c.ops;
        for (k, n) in c.outcomes {
            *total.outcomes.entry(k).or_default() += n;
        }
        for s in c.samples.into_iter().take(2) {
            if total.samples.len() < 12 {
                total.samples.push(format!("[{}] {}", e.name, s));
            }
        }
        if let Some(v) = v {
            if v.message.contains("HARNESS:") {
                engine = Some(format!("{}: {}", e.name, v.message));
            } else {
                write_violation(dir, &e.name, &v);
            }
            break;
        }
        if c.cases == 0 {
            engine = Some(format!("{}: explored nothing", e.name));
            break;
        }
    }
    let complete = parts.len() == es.len() && engine.is_none() && !dir.join("violation").exists();
    if let Some(m) = engine {
        std::fs::write(dir.join("engine"), m).expect("HARNESS: write");
    }
    let outcomes: Vec<String> = total.outcomes.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
    let samples: Vec<String> = total.samples.iter().map(|s| esc(s)).collect();
    let body = format!(
        "\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},\"exhaustive\":{complete},\"outcome_classes\":{{{}}},\"explorations\":[{}],\"samples\":[{}]",
        total.nodes + total.cases,
        total.ops,
        total.cases,
        outcomes.join(","),
        parts.join(","),
        samples.join(",")
    );
    std::fs::write(dir.join("coverage"), body).expect("HARNESS: write");
    exit(0)
}

fn scratch() -> PathBuf {
    let d = std::env::temp_dir().join(format!("mc.{}", std::process::id()));
    std::fs::create_dir_all(&d).expect("HARNESS: scratch");
    d
}

fn spawn(args: &[&str], dir: &Path) -> (std::process::ExitStatus, Vec<u8>, Vec<u8>) {
    let o = std::fs::File::create(dir.join("stdout")).unwrap();
    let e = std::fs::File::create(dir.join("stderr")).unwrap();
    let st = Command::new(std::env::current_exe().unwrap()).args(args).stdin(Stdio::null()).stdout(o).stderr(e).status().expect("HARNESS: spawn");
    (st, std::fs::read(dir.join("stdout")).unwrap(), std::fs::read(dir.join("stderr")).unwrap())
}

fn run(id: &str, tier: &str, out: &Path) -> i32 {
    let t0 = Instant::now();
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let dir = scratch();
    let thorough = tier == "thorough";
    let (st, so, se) = spawn(&["child", id, tier, dir.to_str().unwrap()], &dir);
    let mut violation: Option<(String, String, String)> = None;
    let mut engine: Option<String> = std::fs::read_to_string(dir.join("engine")).ok();
    if let Ok(s) = std::fs::read_to_string(dir.join("violation")) {
        let l: Vec<&str> = s.lines().collect();
        violation = Some((l[1].into(), l[2].into(), l[3..].join(" ")));
    } else if !st.success() && engine.is_none() {
        // The process died: find the scenario that kills it.
        let es = checks::explorations(id, thorough).expect("HARNESS: unknown property");
        let j = std::fs::read(dir.join("journal")).unwrap_or_default();
        for slot in j.chunks(Journal::SLOT) {
            let s = String::from_utf8_lossy(slot);
            let line = s.split('\n').next().unwrap_or("").trim_matches('\0').to_string();
            if let Some((e, p)) = line.split_once(':') {
                let Ok(e) = e.parse::<usize>() else { continue };
                let (st1, _, _) = spawn(&["one", id, tier, &es[e].name, p, "-"], &dir);
                if !st1.success() && st1.code() != Some(2) {
                    let how = match st1.code() {
                        Some(alloc_meter::ABORT_CODE) => format!("memory use runs away (over {USUAL_CAP} bytes held)"),
                        _ => format!("the process dies: {st1}"),
                    };
                    violation = Some((es[e].name.clone(), p.to_string(), how));
                    break;
                }
            }
        }
        if violation.is_none() {
            engine = Some(format!("child ended with {st}; stderr: {}", String::from_utf8_lossy(&se[..se.len().min(2000)])));
        }
    }
    if violation.is_none() && engine.is_none() && id == "C21" && (!so.is_empty() || !se.is_empty()) {
        let o = if so.is_empty() { &se } else { &so };
        violation = Some(("output".into(), String::new(), format!("the codec printed {} bytes, beginning {:?}", so.len() + se.len(), String::from_utf8_lossy(&o[..o.len().min(80)]))));
    }
    let cov = std::fs::read_to_string(dir.join("coverage")).unwrap_or_else(|_| "\"states\":0,\"transitions\":0,\"traces_validated_against_impl\":0,\"samples\":[]".into());
    std::fs::create_dir_all(out.join("replays")).expect("HARNESS: evidence dir");
    let ev = format!(
        "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":\"model_checking\",\"coverage\":{{{}}},\"assumptions\":[{}],\"wall_s\":{:.3},\"violations\":{}}}\n",
        esc(id),
        esc(tier),
        seed,
        cov,
        checks::assumptions(id).iter().map(|s| esc(s)).collect::<Vec<_>>().join(","),
        t0.elapsed().as_secs_f64(),
        violation.is_some() as u32
    );
    std::fs::write(out.join(format!("{id}.json")), ev).expect("HARNESS: evidence");
    for f in ["stdout", "stderr", "journal", "violation", "engine", "coverage"] {
        let _ = std::fs::remove_file(dir.join(f));
    }
    let _ = std::fs::remove_dir(&dir);
    if let Some(m) = engine {
        eprintln!("ENGINE ERROR property={id}: {m}");
        return 2;
    }
    if let Some((name, prefix, msg)) = violation {
        let f = out.join("replays").join(format!("{id}.txt"));
        std::fs::write(&f, format!("{id}\n{tier}\n{name}\n{prefix}\n{msg}\n")).expect("HARNESS: replay");
        println!("{msg}");
        println!("VIOLATION property={id} replay={}", f.display());
        return 1;
    }
    println!("OK property={id} tier={tier} wall={:.1}s", t0.elapsed().as_secs_f64());
    0
}

/// Runs one decision sequence; prints what it finds.
fn one(id: &str, tier: &str, name: &str, prefix: &str) -> i32 {
    alloc_meter::set_cap(USUAL_CAP);
    let es = checks::explorations(id, tier == "thorough").expect("HARNESS: unknown property");
    let Some(e) = es.iter().find(|e| e.name == name) else {
        println!("no exploration named {name}");
        return 2;
    };
    let p = parse_prefix(prefix);
    // The leaf gets a thread of its own with the same stack, under a time limit.
    let (tx, rx) = std::sync::mpsc::channel();
    let hang = e.hang;
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(STACK)
            .spawn_scoped(s, move || {
                let mut c = Ctx { tier_thorough: tier == "thorough", ..Ctx::default() };
                let mut ch = Chooser::new(p);
                let r = run_leaf(e, &mut c, &mut ch);
                let _ = tx.send(r);
            })
            .unwrap();
        match rx.recv_timeout(std::time::Duration::from_secs(hang)) {
            Ok(Ok(())) => {
                println!("no violation");
                0
            }
            Ok(Err(m)) => {
                println!("{m}");
                if m.contains("HARNESS:") {
                    2
                } else {
                    1
                }
            }
            Err(_) => {
                println!("the call does not return");
                exit(3)
            }
        }
    })
}

fn main() {
    install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    let code = match arg(1) {
        "child" => {
            child(arg(2), arg(3) == "thorough", Path::new(arg(4)));
            0
        }
        "run" => run(arg(2), arg(3), Path::new(arg(4))),
        "one" => one(arg(2), arg(3), arg(4), arg(5)),
        "replay" => {
            let s = std::fs::read_to_string(arg(2)).expect("replay file");
            let l: Vec<&str> = s.lines().collect();
            if l[2] == "output" {
                println!("run the check again: the property is about what the codec prints");
                2
            } else {
                one(l[0], l[1], l[2], l[3])
            }
        }
        "list" => {
            for id in checks::IDS {
                println!("{id}");
            }
            0
        }
        _ => {
            eprintln!("usage: mc run ID quick|thorough EVIDENCE_DIR | mc replay FILE | mc list");
            2
        }
    };
    exit(code);
}

/// Fixed header length of a buffer that starts with a complete header.
pub fn model_header_len(b: &[u8]) -> usize {
    match model::dec::header(b) {
        model::dec::Hdr::Ok { hlen, .. } => hlen,
        _ => 0,
    }
}

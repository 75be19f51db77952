//! Runs the simulations: worker processes, watchdog, minimisation, replay, evidence.

use crate::clock;
use crate::geom::is_valid;
use crate::prng::{mix, sub, Fold, Prng};
use crate::props::{self, Prop};
use crate::scn::*;
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

const HANG_SECS: u64 = 75;

struct Ran {
    res: Res,
    cx: Cx,
    ticks: u64,
    crashes: u64,
}

/// One simulated run on a thread of its own: no state survives from run to run.
fn exec(p: &Prop, s: &Scn, verbose: bool, record: bool) -> Ran {
    let (run, s) = (p.run, s.clone());
    let j = std::thread::Builder::new()
        // what a spawned thread gets by default
        .stack_size(if option_env!("VSIM_ASAN").is_some() { 16 << 20 } else { 2 << 20 })
        .spawn(move || {
            crate::entropy(s.hash() ^ s.order.seed);
            let mut cx = Cx { verbose, ..Cx::default() };
            if record {
                crate::order::record(true);
            }
            let res = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(&s, &mut cx))) {
                Ok(r) => r,
                Err(e) => {
                    let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                    Err(Viol { class: "panic", msg: format!("panic outside a call: {m}"), pin: vec![] })
                }
            };
            clock::set_hook(0, None);
            rand::sim_install(None);
            let (ticks, crashes) = clock::totals();
            let words = crate::order::last_recorded();
            (Ran { res, cx, ticks, crashes }, words)
        })
        .unwrap();
    match j.join() {
        Ok((r, words)) => {
            if record {
                crate::order::put_recorded(words);
            }
            r
        }
        Err(_) => Ran { res: Err(Viol { class: "panic", msg: "the run's thread died".into(), pin: vec![] }), cx: Cx::default(), ticks: 0, crashes: 0 },
    }
}

fn find(id: &str) -> Prop {
    match props::all().into_iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("vsim: no property {id} in this build");
            std::process::exit(2)
        }
    }
}

fn scenario(p: &Prop, seed: u64, i: u64) -> Scn {
    let base = sub(seed, p.id.bytes().fold(0, |a, b| mix(a ^ b as u64)));
    let mut r = Prng::new(sub(base, i));
    (p.gen)(&mut r, i)
}

struct Args(Vec<String>);
impl Args {
    fn get(&self, k: &str) -> Option<&str> {
        self.0.iter().position(|a| a == k).and_then(|i| self.0.get(i + 1)).map(|s| s.as_str())
    }
    fn num(&self, k: &str, d: u64) -> u64 {
        self.get(k).and_then(|v| v.parse().ok()).unwrap_or(d)
    }
}

/// A run whose memory grows without end dies alone (and counts as an abort).
fn cap_memory(bytes: u64) {
    extern "C" {
        fn setrlimit(what: i32, lim: *const [u64; 2]) -> i32;
    }
    const RLIMIT_AS: i32 = 9;
    unsafe {
        setrlimit(RLIMIT_AS, &[bytes, bytes]);
    }
}

pub fn main() {
    if std::env::var("VSIM_PANICS").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let args = Args(std::env::args().skip(1).collect());
    // (AddressSanitizer reserves its shadow up front and has a limit of its own)
    if option_env!("VSIM_ASAN").is_none() && matches!(args.0.first().map(|s| s.as_str()), Some("work" | "replay" | "shrink")) {
        cap_memory(3 << 30);
    }
    let code = match args.0.first().map(|s| s.as_str()) {
        Some("check") => check(&args),
        Some("work") => work(&args),
        Some("replay") => replay(&args),
        Some("shrink") => shrink_cmd(&args),
        Some("digest") => digest(&args),
        Some("show") => {
            let p = find(&args.0[1]);
            print!("{}", scenario(&p, args.num("--seed", 1), args.num("--run", 0)).text());
            0
        }
        Some("genstat") => crate::gen::selfcheck(args.num("--runs", 2000)),
        _ => {
            eprintln!("usage: vsim check ID | replay FILE | digest ID --runs N | show ID --run N");
            2
        }
    };
    std::process::exit(code);
}

// ---- worker ----------------------------------------------------------

fn put_set(path: PathBuf, s: &HashSet<u64>) {
    let mut b = Vec::with_capacity(s.len() * 8);
    for v in s {
        b.extend_from_slice(&v.to_le_bytes());
    }
    let _ = fs::write(path, b);
}
fn get_set(path: PathBuf, into: &mut HashSet<u64>) {
    if let Ok(b) = fs::read(path) {
        into.extend(b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
    }
}
const SET_CAP: usize = 6_000_000;

fn work(a: &Args) -> i32 {
    let p = find(&a.0[1]);
    let dir = PathBuf::from(a.get("--dir").unwrap());
    let (w, workers) = (a.num("--worker", 0), a.num("--workers", 1));
    let (seed, runs) = (a.num("--seed", 1), a.num("--runs", 1));
    let round = a.num("--round", 0);
    let deadline = Instant::now() + Duration::from_secs(a.num("--secs", 240));
    let tag = format!("w{}.{round}", a.num("--tag", w));
    let progress = fs::File::create(dir.join(format!("{tag}.progress"))).unwrap();
    let (mut schedules, mut states, mut nontrivial) = (HashSet::new(), HashSet::new(), HashSet::new());
    let mut stats: BTreeMap<&'static str, u64> = BTreeMap::new();
    let (mut ran, mut ticks, mut crashes) = (0u64, 0u64, 0u64);
    let mut i = a.num("--from", 0);
    while i % workers != w {
        i += 1;
    }
    let mut beat = 0u64;
    while i < runs {
        if Instant::now() > deadline || dir.join("stop").exists() && stop_at(&dir) <= i {
            break;
        }
        beat += 1;
        let mut b = [0u8; 16];
        b[..8].copy_from_slice(&i.to_le_bytes());
        b[8..].copy_from_slice(&beat.to_le_bytes());
        let _ = progress.write_all_at(&b, 0);
        let s = scenario(&p, seed, i);
        let r = exec(&p, &s, false, false);
        ran += 1;
        ticks += r.ticks;
        crashes += r.crashes;
        if r.cx.nontrivial > 0 && nontrivial.len() < SET_CAP {
            let mut f = Fold(s.hash());
            let mut v: Vec<u64> = r.cx.schedules.iter().copied().collect();
            v.sort_unstable();
            v.iter().for_each(|h| f.add(*h));
            nontrivial.insert(f.0);
        }
        if schedules.len() < SET_CAP {
            schedules.extend(r.cx.schedules);
        }
        if states.len() < SET_CAP {
            states.extend(r.cx.states);
        }
        for (k, v) in r.cx.stats {
            let e = stats.entry(k).or_insert(0);
            if k.starts_with("max ") {
                *e = (*e).max(v);
            } else {
                *e += v;
            }
        }
        if let Err(v) = r.res {
            let t = format!("run {i}\nclass {}\nmsg {}\n{}", v.class, v.msg.replace('\n', " "), pinned(&s, &v).text());
            let tmp = dir.join(format!("{tag}.viol.tmp"));
            let _ = fs::write(&tmp, t);
            let _ = fs::rename(&tmp, dir.join(format!("{tag}.viol")));
            break;
        }
        i += workers;
    }
    put_set(dir.join(format!("{tag}.sched")), &schedules);
    put_set(dir.join(format!("{tag}.state")), &states);
    put_set(dir.join(format!("{tag}.nontriv")), &nontrivial);
    let mut o = format!("runs\t{ran}\nticks\t{ticks}\ncrashes\t{crashes}\n");
    for (k, v) in stats {
        o.push_str(&format!("stat\t{k}\t{v}\n"));
    }
    let _ = fs::write(dir.join(format!("{tag}.out")), o);
    0
}
fn stop_at(dir: &Path) -> u64 {
    fs::read_to_string(dir.join("stop")).ok().and_then(|s| s.trim().parse().ok()).unwrap_or(u64::MAX)
}
fn pinned(s: &Scn, v: &Viol) -> Scn {
    let mut s = s.clone();
    for (k, x) in &v.pin {
        s.p.insert(k.to_string(), *x);
    }
    s
}

// ---- check -----------------------------------------------------------

struct Worker {
    child: Child,
    w: u64,
    round: u64,
    last: (u64, u64, Instant),
    done: bool,
}

/// Runs `lo..hi`, done by `workers` processes of one build of the simulator.
#[derive(Clone)]
struct Lane {
    bin: PathBuf,
    build: String,
    what: String,
    lo: u64,
    hi: u64,
    workers: u64,
}

struct Found {
    run: u64,
    class: String,
    msg: String,
    text: String,
    lane: Lane,
}

fn read_viol(path: &Path, lane: &Lane) -> Option<Found> {
    let t = fs::read_to_string(path).ok()?;
    let mut f = Found { run: 0, class: String::new(), msg: String::new(), text: String::new(), lane: lane.clone() };
    for l in t.lines() {
        if let Some(x) = l.strip_prefix("run ") {
            f.run = x.parse().ok()?;
        } else if let Some(x) = l.strip_prefix("class ") {
            f.class = x.into();
        } else if let Some(x) = l.strip_prefix("msg ") {
            f.msg = x.into();
        } else {
            f.text.push_str(l);
            f.text.push('\n');
        }
    }
    Some(f)
}

fn spawn(bin: &Path, a: &[String]) -> Child {
    Command::new(bin).args(a).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::inherit()).spawn().unwrap()
}

fn check(a: &Args) -> i32 {
    let t0 = Instant::now();
    let p = find(&a.0[1]);
    let tier = a.get("--tier").map(|s| s.to_string()).or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or_else(|| "quick".into());
    let thorough = tier == "thorough";
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let runs = a.num("--runs", if thorough { p.thorough } else { p.quick });
    let cores = std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4);
    let workers = a.num("--workers", cores.clamp(1, 8)).min(runs.max(1));
    let secs = a.num("--secs", if thorough { 3000 } else { 240 });
    let root = PathBuf::from(a.get("--root").unwrap_or("/verif"));
    let dir = root.join("sim/work").join(format!("{}-{}", p.id, std::process::id()));
    let _ = fs::remove_dir_all(&dir);
    if let Err(e) = fs::create_dir_all(&dir) {
        eprintln!("vsim: {}: {e}", dir.display());
        return 2;
    }
    let mut lanes = vec![Lane { bin: std::env::current_exe().unwrap(), build: String::new(), what: String::new(), lo: 0, hi: runs, workers }];
    // The same simulator built otherwise takes further runs: `--extra NAME BIN FIRST COUNT WHAT`.
    if let Some(k) = a.0.iter().position(|x| x == "--extra") {
        let x = &a.0[k + 1..];
        let lo = if x[2] == "-" { runs } else { x[2].parse().unwrap() };
        let n = if x[3] == "-" { (runs / 12).max(1) } else { x[3].parse::<u64>().unwrap() * if thorough { 10 } else { 1 } };
        lanes.push(Lane { bin: PathBuf::from(&x[1]), build: x[0].clone(), what: x[4].clone(), lo, hi: lo + n, workers: workers.min(n) });
    }
    // which lane, and which of its workers
    let place = |w: u64| -> (&Lane, u64) { if w < workers { (&lanes[0], w) } else { (&lanes[1], w - workers) } };
    let launch = |w: u64, round: u64, from: u64| -> Worker {
        let (lane, k) = place(w);
        let (bin, ks, lo, hi) = (&lane.bin, lane.workers, lane.lo, lane.hi);
        let left = secs.saturating_sub(t0.elapsed().as_secs()).max(1);
        let v: Vec<String> = ["work", p.id, "--dir", dir.to_str().unwrap(), "--worker", &k.to_string(), "--tag", &w.to_string(), "--workers", &ks.to_string(), "--seed", &seed.to_string(), "--runs", &hi.to_string(), "--round", &round.to_string(), "--from", &from.max(lo).to_string(), "--secs", &left.to_string()]
            .iter()
            .map(|s| s.to_string())
            .collect();
        Worker { child: spawn(bin, &v), w, round, last: (u64::MAX, 0, Instant::now()), done: false }
    };
    let mut ws: Vec<Worker> = (0..lanes.iter().map(|l| l.workers).sum()).map(|w| launch(w, 0, 0)).collect();
    let mut found: Vec<Found> = vec![];
    let mut unjudged = 0u64;
    let mut rounds: Vec<(u64, u64)> = vec![];
    let mut stop_since: Option<Instant> = None;
    while ws.iter().any(|w| !w.done) {
        std::thread::sleep(Duration::from_millis(20));
        let mut relaunch = vec![];
        for k in ws.iter_mut().filter(|k| !k.done) {
            let lane = place(k.w).0;
            let tag = format!("w{}.{}", k.w, k.round);
            let cur = fs::read(dir.join(format!("{tag}.progress"))).ok().filter(|b| b.len() == 16).map(|b| {
                (u64::from_le_bytes(b[..8].try_into().unwrap()), u64::from_le_bytes(b[8..].try_into().unwrap()))
            });
            if let Some((run, beat)) = cur {
                if (run, beat) != (k.last.0, k.last.1) {
                    k.last = (run, beat, Instant::now());
                }
            }
            let mut ended = None;
            if let Ok(Some(st)) = k.child.try_wait() {
                ended = Some(st);
            } else if k.last.2.elapsed().as_secs() > HANG_SECS {
                let _ = k.child.kill();
                let _ = k.child.wait();
                k.done = true;
                rounds.push((k.w, k.round));
                if p.may_hang {
                    unjudged += 1;
                    relaunch.push((k.w, k.round + 1, k.last.0.wrapping_add(1)));
                } else {
                    found.push(Found { run: k.last.0, class: "hang".into(), msg: format!("no end after {HANG_SECS} s without a single callback or coordinate operation being counted out"), text: scenario(&p, seed, k.last.0).text(), lane: lane.clone() });
                }
                continue;
            }
            if let Some(st) = ended {
                k.done = true;
                rounds.push((k.w, k.round));
                if let Some(f) = read_viol(&dir.join(format!("{tag}.viol")), lane) {
                    found.push(f);
                } else if !dir.join(format!("{tag}.out")).exists() {
                    let why = match st.signal() {
                        Some(s) => format!("the process was ended by signal {s}"),
                        None => format!("the process ended with status {:?}", st.code()),
                    };
                    found.push(Found { run: k.last.0, class: "abort".into(), msg: why, text: scenario(&p, seed, if k.last.0 == u64::MAX { k.w } else { k.last.0 }).text(), lane: lane.clone() });
                }
            }
        }
        for (w, r, from) in relaunch {
            ws.push(launch(w, r, from));
        }
        // after a finding, let the others catch up to it, so that the lowest run is the one reported
        if let Some(m) = found.iter().map(|f| f.run).min() {
            let _ = fs::write(dir.join("stop.tmp"), m.to_string());
            let _ = fs::rename(dir.join("stop.tmp"), dir.join("stop"));
            let since = *stop_since.get_or_insert_with(Instant::now);
            if since.elapsed().as_secs() > 30 {
                for k in ws.iter_mut().filter(|k| !k.done) {
                    let _ = k.child.kill();
                    let _ = k.child.wait();
                    k.done = true;
                    rounds.push((k.w, k.round));
                }
            }
        }
    }
    // what was covered
    let (mut schedules, mut states, mut nontrivial) = (HashSet::new(), HashSet::new(), HashSet::new());
    let mut stats: BTreeMap<String, u64> = BTreeMap::new();
    let (mut ran, mut ticks, mut crashes) = (0u64, 0u64, 0u64);
    for (w, r) in &rounds {
        let tag = format!("w{w}.{r}");
        get_set(dir.join(format!("{tag}.sched")), &mut schedules);
        get_set(dir.join(format!("{tag}.state")), &mut states);
        get_set(dir.join(format!("{tag}.nontriv")), &mut nontrivial);
        for l in fs::read_to_string(dir.join(format!("{tag}.out"))).unwrap_or_default().lines() {
            let f: Vec<&str> = l.split('\t').collect();
            match f[..] {
                ["runs", v] => {
                    let v = v.parse::<u64>().unwrap_or(0);
                    ran += v;
                    if *w >= workers {
                        *stats.entry(format!("runs {}", place(*w).0.what)).or_insert(0) += v;
                    }
                }
                ["ticks", v] => ticks += v.parse::<u64>().unwrap_or(0),
                ["crashes", v] => crashes += v.parse::<u64>().unwrap_or(0),
                ["stat", k, v] => {
                    let v: u64 = v.parse().unwrap_or(0);
                    let e = stats.entry(k.to_string()).or_insert(0);
                    *e = if k.starts_with("max ") { (*e).max(v) } else { *e + v };
                }
                _ => {}
            }
        }
    }
    let sim_wall = t0.elapsed().as_secs_f64();
    found.sort_by_key(|f| f.run);
    let mut code = 0;
    let mut report = None;
    if let Some(f) = found.first() {
        if f.class == "harness" {
            eprintln!("vsim: {}: run {}: {}", p.id, f.run, f.msg);
            code = 2;
        } else {
            let path = minimise(&p, f, &root, seed, &dir);
            code = 1;
            report = Some(path);
        }
    }
    let _ = fs::remove_dir_all(&dir);
    let wall = t0.elapsed().as_secs_f64();
    evidence(&p, &root, &tier, seed, ran, runs, &schedules, &states, &nontrivial, &stats, ticks, crashes, unjudged, workers, sim_wall, wall, (code == 1) as u64);
    println!(
        "{}: {} runs, {} distinct schedules, {} distinct results, {} steps of simulated time, {:.1} s{}",
        p.id,
        ran,
        schedules.len(),
        states.len(),
        ticks,
        wall,
        if code == 0 { ": held" } else { "" }
    );
    if let Some((path, f)) = report {
        println!("{}", f);
        println!("VIOLATION property={} replay={}", p.id, path.display());
    }
    code
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[allow(clippy::too_many_arguments)]
fn evidence(p: &Prop, root: &Path, tier: &str, seed: u64, ran: u64, planned: u64, schedules: &HashSet<u64>, states: &HashSet<u64>, nontrivial: &HashSet<u64>, stats: &BTreeMap<String, u64>, ticks: u64, crashes: u64, unjudged: u64, workers: u64, sim_wall: f64, wall: f64, violations: u64) {
    let mut samples = vec![];
    // small ones, written out in full
    let mut i = 0;
    while samples.len() < 3 && i < 4000 && i < planned.max(1) {
        let k = if planned > 8000 { i + 100 } else { i };
        let t = scenario(p, seed, k % planned.max(1)).text();
        if t.len() < 700 || i > 3900 {
            samples.push(esc(&format!("seed {seed} run {k}: {}", t.chars().take(700).collect::<String>().trim())));
        }
        i += 1;
    }
    let list = |pre: bool| {
        let mut v = vec![];
        for (k, n) in stats {
            if k.starts_with("fault: ") == pre {
                v.push(format!("{}: {n}", esc(k.trim_start_matches("fault: "))));
            }
        }
        v.join(", ")
    };
    let mut faults = list(true);
    if crashes > 0 && !stats.contains_key("fault: crash in user code") {
        if !faults.is_empty() {
            faults.push_str(", ");
        }
        faults.push_str(&format!("\"crash in user code\": {crashes}"));
    }
    let per_hour = (ran as f64 / sim_wall.max(0.001) * 3600.0) as u64;
    let j = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {seed},\n \"level\": {},\n \"coverage\": {{\n  \"evaluations\": {ran},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}],\n  \"runs_planned\": {planned},\n  \"runs_per_hour\": {per_hour},\n  \"seeds\": \"every run has its own seed, derived from VERIF_SEED={seed}, the property and the run number\",\n  \"simulated_time_steps\": {ticks},\n  \"simulated_time_unit\": \"one step = one coordinate operation, index clone or comparison, or callback into user code\",\n  \"faults_injected\": {{{faults}}},\n  \"reached\": {{{}}},\n  \"distinct_schedules\": {},\n  \"distinct_schedules_measure\": \"hash of the insertion-order words drawn (and, where tasks or faults are scheduled, of the switches and fault positions) together with the scenario\",\n  \"distinct_results\": {},\n  \"stopped_unjudged\": {unjudged},\n  \"worker_processes\": {workers},\n  \"real_components\": {},\n  \"stubbed_components\": {}\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {violations}\n}}\n",
        esc(p.id),
        esc(tier),
        esc(p.level),
        nontrivial.len(),
        esc(p.rule),
        samples.join(", "),
        list(false),
        schedules.len(),
        states.len(),
        esc(p.real),
        esc(p.stub),
        p.assumptions.iter().map(|a| esc(a)).collect::<Vec<_>>().join(", "),
        wall
    );
    let d = root.join("evidence");
    let _ = fs::create_dir_all(&d);
    let tmp = d.join(format!(".{}.tmp", p.id));
    if fs::write(&tmp, j).and_then(|_| fs::rename(&tmp, d.join(format!("{}.json", p.id)))).is_err() {
        eprintln!("vsim: cannot write the evidence of {}", p.id);
    }
}

// ---- minimisation and replay -----------------------------------------

fn wait_for(mut c: Child, secs: u64) -> Option<std::process::ExitStatus> {
    let t = Instant::now();
    loop {
        if let Ok(Some(s)) = c.try_wait() {
            return Some(s);
        }
        if t.elapsed().as_secs() >= secs {
            let _ = c.kill();
            let _ = c.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(10));
    }
}

/// Does a replay of `file` in a fresh process fail in class `class`?
fn reproduces(bin: &Path, file: &Path, class: &str) -> bool {
    let c = spawn(bin, &["replay".into(), file.to_str().unwrap().into(), "--class".into(), class.into()]);
    match wait_for(c, HANG_SECS) {
        None => class == "hang",
        Some(s) if s.signal().is_some() => class == "abort",
        Some(s) => s.code() == Some(1) || (class == "abort" && !matches!(s.code(), Some(0) | Some(3))),
    }
}

fn minimise(p: &Prop, f: &Found, root: &Path, seed: u64, dir: &Path) -> (PathBuf, String) {
    let (bin, lane) = (&f.lane.bin, &f.lane);
    let out = root.join("replays");
    let _ = fs::create_dir_all(&out);
    let path = out.join(format!("{}-seed{}-run{}.replay", p.id, seed, f.run));
    let head = |note: &str| format!("# {}: {}\n# found with VERIF_SEED={} in run {}; {}\n# replay: {}/check.sh replay {}\nexpect {}\n", f.class, f.msg, seed, f.run, note, root.display(), path.display(), f.class) + &if lane.build.is_empty() { String::new() } else { format!("build {}\n", lane.build) };
    let orig = dir.join("orig.replay");
    let _ = fs::write(&orig, format!("{}{}", head("as found"), f.text));
    let mut text = f.text.clone();
    let mut note = "as found";
    if f.class != "hang" && f.class != "blocked" && f.class != "abort" {
        let small = dir.join("small.replay");
        let c = spawn(bin, &["shrink".into(), orig.to_str().unwrap().into(), small.to_str().unwrap().into(), "--class".into(), f.class.clone(), "--secs".into(), "40".into()]);
        wait_for(c, 60);
        if let Ok(t) = fs::read_to_string(&small) {
            if reproduces(bin, &small, &f.class) {
                text = t.lines().filter(|l| !l.starts_with('#') && !l.starts_with("expect") && !l.starts_with("build")).map(|l| format!("{l}\n")).collect();
                note = "minimised";
            }
        }
    }
    let _ = fs::write(&path, format!("{}{}", head(note), text));
    let mut again = reproduces(bin, &path, &f.class);
    // The failure may need what earlier calls of the process left behind: put them in front.
    let before = f.run.saturating_sub(lane.lo) / lane.workers;
    let t0 = Instant::now();
    let mut k = 1;
    while !again && before > 0 && t0.elapsed().as_secs() < 120 {
        let k_now = k.min(before);
        let _ = fs::write(&path, format!("{}history {seed} {} {k_now} {}\n{}", head("as found, after the runs that preceded it in its process"), lane.workers, f.run, f.text));
        again = reproduces(bin, &path, &f.class);
        if k >= before {
            break;
        }
        k *= 4;
    }
    if !again {
        let _ = fs::write(&path, format!("{}{}", head(note), text));
    }
    // the digest of the failing history, for exact comparison
    let mut d = Command::new(bin);
    d.args(["replay", path.to_str().unwrap(), "--class", &f.class]).stderr(Stdio::null());
    let d = if matches!(f.class.as_str(), "hang" | "blocked" | "abort") { None } else { d_output(&mut d) };
    if let Some(d) = d {
        let t = fs::read_to_string(&path).unwrap_or_default();
        let _ = fs::write(&path, format!("{t}# history digest {d}\n"));
    }
    let s = format!("{} [{}] {}{}", p.id, f.class, f.msg, if again { "" } else { " (the replay in a fresh process did not fail again: the change under test behaves differently from process to process)" });
    (path, s)
}
fn d_output(c: &mut Command) -> Option<String> {
    let o = c.output().ok()?;
    let t = String::from_utf8_lossy(&o.stdout).to_string();
    t.lines().find_map(|l| l.strip_prefix("digest ").map(|s| s.to_string()))
}

fn valid_for(p: &Prop, s: &Scn) -> bool {
    !p.valid_only || s.sets.iter().all(|x| is_valid(x))
}

fn shrink_cmd(a: &Args) -> i32 {
    let text = fs::read_to_string(&a.0[1]).unwrap();
    let s = Scn::parse(&text).unwrap();
    let p = find(&s.prop);
    let class = a.get("--class").unwrap_or("").to_string();
    let out = PathBuf::from(&a.0[2]);
    let secs = a.num("--secs", 40);
    let mut fails = |c: &Scn| -> bool { matches!(exec(&p, c, false, true).res, Err(v) if v.class == class) };
    let mut best = |c: &Scn| {
        let tmp = out.with_extension("tmp");
        let _ = fs::write(&tmp, format!("expect {class}\n{}", c.text()));
        let _ = fs::rename(&tmp, &out);
    };
    best(&s);
    shrink(&s, &|c| valid_for(&p, c), &mut fails, &mut best, Limits { evals: 200_000, secs });
    0
}

fn replay(a: &Args) -> i32 {
    let Some(text) = a.0.get(1).and_then(|f| fs::read_to_string(f).ok()) else {
        eprintln!("vsim: cannot read the replay file");
        return 2;
    };
    let Some(s) = Scn::parse(&text) else {
        eprintln!("vsim: not a replay file");
        return 2;
    };
    let p = find(&s.prop);
    let class = a.get("--class").map(|s| s.to_string()).or_else(|| text.lines().find_map(|l| l.strip_prefix("expect ").map(|s| s.to_string())));
    let h: Vec<u64> = text.lines().find_map(|l| l.strip_prefix("history ")).map(|l| l.split_whitespace().filter_map(|x| x.parse().ok()).collect()).unwrap_or_default();
    if let [seed, step, count, run] = h[..] {
        for j in (1..=count).rev() {
            if let Some(i) = run.checked_sub(j * step) {
                exec(&p, &scenario(&p, seed, i), false, false);
            }
        }
    }
    let r = exec(&p, &s, true, false);
    print!("{}", s.text());
    for l in &r.cx.log {
        println!("{}", l.chars().take(4000).collect::<String>());
    }
    println!("digest {:016x}", r.cx.digest.0);
    let _ = std::io::stdout().flush();
    match r.res {
        Err(v) => {
            println!("violation [{}] {}", v.class, v.msg);
            println!("VIOLATION property={} replay={}", p.id, a.0[1]);
            if class.is_none() || class.as_deref() == Some(v.class) {
                1
            } else {
                3
            }
        }
        Ok(()) => {
            println!("no violation");
            0
        }
    }
}

/// One line per run: used to show that a seed is one execution.
fn digest(a: &Args) -> i32 {
    let p = find(&a.0[1]);
    let seed = a.num("--seed", 1);
    let mut all = Fold::default();
    let from = a.num("--from", 0);
    for i in from..from + a.num("--runs", 100) {
        let r = exec(&p, &scenario(&p, seed, i), false, false);
        let mut f = r.cx.digest;
        f.add(r.ticks);
        f.add(r.res.is_err() as u64);
        all.add(f.0);
        if a.get("--each").is_some() {
            println!("{i} {:016x}", f.0);
        }
    }
    println!("{} {:016x}", p.id, all.0);
    0
}

//! C15: the debug tracing on a simulated, failing file system.

use super::*;
use crate::bins::*;
use crate::real::OPAQUE;
use crate::fsim::{self, Sim};
use crate::viol;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C15",
        level: "exploration",
        quick: 90_000,
        thorough: 1_500_000,
        valid_only: false,
        may_hang: false,
        gen: gen_c15,
        run: run_c15,
        rule: "one run = 1 to 4 calls (valid, undersized, empty, failing builder) with the tracing feature built in, under one tracing configuration and one simulated file system with a fault trace; every file operation of the tracing is a fault point; non-trivial: tracing was on and at least one file operation was hit by a fault",
        real: "the whole triangulate crate built with the _debugging feature, its trace code included; std::fs and std::io down to the libc calls; svg_fmt, text_trees",
        stub: "libc file calls (in-memory file system, sampled faults); thread_rng and OS entropy; coordinates, indices, lists and collections of the simulated user",
        assumptions: &["tracing reaches the disk through the libc calls std uses", "what the trace files contain is not judged"],
    }]
}

const PATHS: [&str; 7] = ["/simfs/out", "out", "", "/simfs/out/", "/simfs/a/../out", ".", "/simfs/out/deep"];

fn gen_c15(r: &mut Prng, run: u64) -> Scn {
    let max = if run % 50 == 0 { 22 } else { 10 };
    let polys = workload_or_large(r, run, max, 500, 200);
    let mut s = Scn::new("C15", polys, any_order(r));
    if r.chance(1, 3) {
        let p = workload(r, 8);
        s.sets.push(p);
    }
    dress_view(r, &mut s);
    s.p.insert("path".into(), if r.chance(1, 12) { -1 } else { r.range(0, PATHS.len() as i64 - 1) });
    s.p.insert("level".into(), *r.pick(&[-1, 0, 1, 2, 2, 3, 3, 3, 3, 4, 2, 3, 3, 5 + run as i64 % 5]));
    s.p.insert("opaque".into(), r.chance(1, 8) as i64);
    s.p.insert("hide".into(), r.range(0, 1));
    // 0: there; 1: missing; 2: a file; 3: read-only; 4: there, with an earlier trace
    s.p.insert("dir".into(), *r.pick(&[0, 0, 0, 0, 1, 2, 3, 4]));
    if r.chance(1, 5) {
        s.p.insert("room".into(), 1 + *r.pick(&[0, 1, 100, 5_000, 60_000]) + r.range(0, 99));
    }
    if r.chance(1, 4) {
        s.p.insert("noise".into(), *r.pick(&[5, 50, 300, 900]));
        s.p.insert("nseed".into(), r.range(0, 1 << 30));
    }
    for _ in 0..1 + r.us(3) {
        let what = if r.chance(2, 3) { 0 } else { r.range(1, 3) };
        let op = vec![0, what, r.range(0, s.sets.len() as i64 - 1), r.range(0, BINS as i64 - 1), r.range(0, 60), r.range(0, 1)];
        s.ops.push(op);
    }
    if r.chance(2, 3) {
        let span = *r.pick(&[3, 20, 100, 400]);
        for _ in 0..1 + r.us(6) {
            let op = vec![1, r.range(0, span), r.range(0, fsim::FAULTS.len() as i64 - 1), r.range(0, 1 << 30)];
            s.ops.push(op);
        }
    }
    s
}

struct Opaque;
impl Drop for Opaque {
    fn drop(&mut self) {
        OPAQUE.set(false);
    }
}

fn run_c15(s: &Scn, cx: &mut Cx) -> Res {
    let h = s.order.install();
    let path = s.get("path");
    let root = if path >= 0 { PATHS[path as usize % PATHS.len()] } else { "/simfs/out" };
    let level = s.get("level");
    let off = path < 0 || level <= 0 || level == 9;
    OPAQUE.set(s.get("opaque") != 0);
    let _opaque = Opaque;
    let mut fs = Sim::new(root);
    fs.verbose = cx.verbose;
    match s.get("dir") {
        1 => {}
        2 => {
            if !fs.dirs.contains(&fs.root) {
                let r = fs.root.clone();
                fs.files.insert(r, vec![]);
            }
        }
        d => {
            // every ancestor of the root exists
            let mut p = String::new();
            let comps: Vec<String> = fs.root.split('/').filter(|c| !c.is_empty()).map(|c| c.to_string()).collect();
            for c in comps {
                p = format!("{p}/{c}");
                fs.dirs.insert(p.clone());
            }
            if d == 3 {
                fs.read_only = true;
            }
            if d == 4 {
                for k in 0..3 {
                    let sub = format!("{}/{k:03}", fs.root);
                    fs.files.insert(format!("{sub}/000.svg"), vec![]);
                    fs.dirs.insert(sub);
                }
            }
        }
    }
    if s.get("room") > 0 {
        fs.room = Some(s.get("room") as u64 - 1);
    }
    fs.noise = s.get("noise") as u64;
    fs.rng = Some(Prng::new(s.get("nseed") as u64));
    for o in s.ops.iter().filter(|o| o[0] == 1 && o.len() >= 4) {
        fs.plan.insert(o[1].max(0) as u64, (o[2].unsigned_abs() as usize % fsim::FAULTS.len(), o[3].unsigned_abs()));
    }
    fsim::install(fs);
    if path >= 0 {
        std::env::set_var("TRIANGULATE_SVG_OUTPUT_PATH", root);
    } else {
        std::env::remove_var("TRIANGULATE_SVG_OUTPUT_PATH");
    }
    if level >= 0 {
        std::env::set_var("TRIANGULATE_SVG_OUTPUT_LEVEL", match level {
            4..=9 => ["all", "", "-1", "03", " 3", "0"][level as usize - 4].to_string(),
            _ => level.to_string(),
        });
    } else {
        std::env::remove_var("TRIANGULATE_SVG_OUTPUT_LEVEL");
    }
    if s.get("hide") != 0 {
        std::env::set_var("TRIANGULATE_SVG_HIDE_LABELS", "1");
    } else {
        std::env::remove_var("TRIANGULATE_SVG_HIDE_LABELS");
    }
    let res = calls(s, cx);
    let fs = fsim::take().unwrap();
    for v in ["PATH", "LEVEL"] {
        std::env::remove_var(format!("TRIANGULATE_SVG_OUTPUT_{v}"));
    }
    let mut struck = 0;
    for (k, n) in &fs.fired {
        cx.stat(k, *n);
        struck += n;
    }
    cx.stat("file operations", fs.ops);
    cx.stat("trace bytes written", fs.bytes);
    cx.stat("fault: output directory missing, a file, or read-only", (!off && matches!(s.get("dir"), 1..=3)) as u64);
    cx.hist(fs.ops);
    cx.hist(fs.bytes);
    if cx.verbose {
        cx.log.extend(fs.log.iter().cloned());
    }
    res?;
    if let Some(e) = fs.escapes.first() {
        viol!("outside", "tracing into {root:?} tried to {e}");
    }
    if off && fs.changes > 0 {
        viol!("wrote-while-off", "tracing is off (path {path}, level {level}) and yet {} file operations were made", fs.changes);
    }
    if fs.open_files() > 0 {
        viol!("left-open", "{} trace files were left open", fs.open_files());
    }
    cx.schedule(h.taken().0 ^ s.hash());
    if !off && (struck > 0 || matches!(s.get("dir"), 1..=3)) {
        cx.nontrivial += 1;
    }
    Ok(())
}

fn calls(s: &Scn, cx: &mut Cx) -> Res {
    let bud = 300_000_000;
    for (k, op) in s.ops.iter().filter(|o| o[0] == 0 && o.len() >= 6).enumerate() {
        let [what, set, kind_, pos, rev] = [op[1], op[2], op[3], op[4], op[5]];
        let polys = &s.sets[set.unsigned_abs() as usize % s.sets.len()];
        if !is_valid(polys) {
            return Ok(());
        }
        let kind_ = kind_.unsigned_abs() as usize % BINS;
        let mut bin = Bin::new(kind_, (pos % 4) as u32);
        let before = bin.content();
        let none = Fault::new(-2, false);
        let fault = Fault::new(pos % 4, pos % 8 >= 4);
        let mut given = polys.clone();
        let mut f = &none;
        match what {
            1 => {
                f = &fault;
            }
            2 => {
                let at = pos as usize % (given.len() + 1);
                given.insert(at, (0..1 + pos % 2).map(|i| (1_000_000 + i, 1_000_000)).collect());
            }
            3 => given.clear(),
            _ => {}
        }
        let list = SimList::new(&given, s.view());
        let c = Call { fault: f, reversed: rev != 0, delim: DELIM, outer: pos % 2 == 1 };
        fsim::active(true);
        let out = guarded(bud, u64::MAX, || into_list(&list, &mut bin, &c));
        fsim::active(false);
        cx.hist(what as u64);
        let fired = f.fired();
        match out {
            Out::Panic(m) => viol!("panic", "call {k}: panicked while tracing: {m}"),
            Out::Budget => viol!("no-end", "call {k}: no result within {bud} steps"),
            Out::Crash => viol!("harness", "unplanned crash"),
            Out::Done(Ok(())) => {
                if fired || what >= 2 {
                    viol!("result", "call {k}: succeeded although it had to fail");
                }
                let ts = match appended(kind_, &before, &bin.content(), DELIM) {
                    Ok(t) => t,
                    Err(m) => viol!("result", "call {k} into {}: {m}", Bin::name(kind_)),
                };
                let reg = region(polys);
                if let Err(e) = judge_tiling(polys, &reg, &ts, rev != 0) {
                    viol!("result", "call {k}: not a triangulation: {}", e.msg);
                }
                cx.state(hash_tris(&ts));
                cx.stat("calls that succeeded", 1);
            }
            Out::Done(Err(e)) => {
                let good = match &e {
                    Kind::Builder(_) => fired,
                    Kind::NotEnough(n) => what == 2 && *n as i64 == 1 + pos % 2,
                    Kind::NoVertices => what == 3,
                    _ => false,
                };
                if !good {
                    viol!("result", "call {k}: {e:?} although tracing must not affect the result");
                }
                cx.stat("calls that failed as they must", 1);
                cx.hist(e.code());
            }
        }
    }
    Ok(())
}

//! Parent/worker orchestration, verdicts, replay files and evidence.

use crate::checks;
use crate::engine::*;
use crate::rng::hash_bytes;
use crate::steps;
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

const WORKERS: u64 = 8;
/// Live-heap cap per worker; requests beyond it fail as if memory ran out.
const HEAP_CAP: usize = 2 << 30;
/// A case that makes no progress for this long is inconclusive.
const STALL_SECS: u64 = 300;

struct Known {
    property: String,
    sig: String,
    desc: String,
}

fn verif_dir() -> PathBuf {
    std::env::var("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}

fn load_known() -> Vec<Known> {
    let mut out = Vec::new();
    let Ok(s) = fs::read_to_string(verif_dir().join("known-findings.txt")) else {
        return out;
    };
    for l in s.lines() {
        let Some(r) = l.strip_prefix("known: property=") else { continue };
        let mut it = r.splitn(3, ' ');
        let property = it.next().unwrap_or("").to_string();
        let sig = it.next().and_then(|x| x.strip_prefix("sig=")).unwrap_or("").to_string();
        let desc = it.next().unwrap_or("").to_string();
        out.push(Known { property, sig, desc });
    }
    out
}

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o
}

fn one_line(s: &str) -> String {
    s.replace('\n', "\\n")
}

pub fn main() {
    install_panic_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let code = match args.first().map(|s| s.as_str()) {
        Some("check") => check(&args[1]),
        Some("worker") => worker(&args[1..]),
        Some("one") => one(&args[1..]),
        Some("replay") => replay(&args[1]),
        Some("tool") => checks::tool(&args[1..]),
        _ => {
            eprintln!("usage: harness check <ID> | replay <file> | one <ID> <seed> <idx> | tool ...");
            2
        }
    };
    std::process::exit(code);
}

fn find(id: &str) -> Option<Prop> {
    checks::all().into_iter().find(|p| p.id == id)
}

fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|v| v.parse().ok()).unwrap_or(d)
}

struct FoundFail {
    idx: u64,
    fail: Fail,
    choices: Vec<u64>,
    shrunk_from: usize,
}

// -------------------------------------------------------------------
// Worker
// -------------------------------------------------------------------

fn worker(a: &[String]) -> i32 {
    let id = &a[0];
    let thorough = a[1] == "thorough";
    let seed: u64 = a[2].parse().unwrap();
    let start: u64 = a[3].parse().unwrap();
    let total: u64 = a[4].parse().unwrap();
    let progress = &a[5];
    let result = &a[6];
    let Some(p) = find(id) else { return 2 };
    let known: Vec<String> =
        load_known().into_iter().filter(|k| k.property == *id).map(|k| k.sig).collect();
    steps::CAP.store(HEAP_CAP, std::sync::atomic::Ordering::Relaxed);
    use std::os::unix::fs::FileExt;
    let pf = fs::File::create(progress).unwrap();
    let mut rf = std::io::BufWriter::new(fs::OpenOptions::new().create(true).append(true).open(result).unwrap());
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut evals = 0u64;
    let mut ops = 0u64;
    let mut samples = 0;
    let mut idx = start;
    let t_start = Instant::now();
    let deadline = env_u64("VERIF_TIME_LIMIT", if thorough { u64::MAX } else { 400 });
    let mut code = 0;
    while idx < total {
        if evals > 0 && t_start.elapsed().as_secs() >= deadline {
            let _ = writeln!(rf, "T {idx}");
            break;
        }
        let _ = pf.write_at(&idx.to_le_bytes(), 0);
        let mut src = Src::random(case_seed(seed, id, idx));
        let mut ctx = Ctx { known: known.clone(), tier_thorough: thorough, want_sample: samples < 2, ..Default::default() };
        let t_case = Instant::now();
        let o = run_case(p.run, &mut src, &mut ctx);
        if std::env::var("HARNESS_SLOW").is_ok() && t_case.elapsed().as_millis() > 1000 {
            if let Ok(mut f) = fs::OpenOptions::new().create(true).append(true).open("/tmp/slow.log") {
                let _ = writeln!(f, "SLOW {id} {seed} {idx} {} ms", t_case.elapsed().as_millis());
            }
        }
        evals += 1;
        ops += ctx.ops;
        for (k, v) in &ctx.labels {
            crate::engine::merge_label(&mut labels, k, *v);
        }
        for (s, m) in &ctx.known_hits {
            let _ = writeln!(rf, "K {}\t{}", s, one_line(m));
        }
        if ctx.nontrivial {
            let mut b = Vec::with_capacity(src.rec.len() * 8);
            for c in &src.rec {
                b.extend_from_slice(&c.to_le_bytes());
            }
            let _ = writeln!(rf, "H {:016x}", hash_bytes(5, &b));
            if samples < 2 && !ctx.sample.is_empty() {
                samples += 1;
                let mut s = one_line(&ctx.sample);
                if s.len() > 900 {
                    let mut e = 900;
                    while !s.is_char_boundary(e) {
                        e -= 1;
                    }
                    s.truncate(e);
                    s.push_str("...");
                }
                let _ = writeln!(rf, "X case {idx}: {s}");
            }
        }
        match o {
            Outcome::Pass => {}
            Outcome::HarnessError(m) => {
                let _ = writeln!(rf, "E case {idx}: {}", one_line(&m));
                code = 2;
                break;
            }
            Outcome::Fail(f) if known.contains(&f.sig) => {
                let _ = writeln!(rf, "K {}\t{}", f.sig, one_line(&f.msg));
            }
            Outcome::Fail(f) => {
                let _ = rf.flush();
                let rec = src.rec.clone();
                // Record the failure before shrinking: a candidate may
                // take the process down.
                let _ = writeln!(rf, "F {idx}\t{}\t{}\t{}\t{}", rec.len(), join(&rec), one_line(&f.sig), one_line(&f.msg));
                let _ = rf.flush();
                let n0 = rec.len();
                let sig = f.sig.clone();
                let best = shrink(rec, 1500, |c| {
                    let mut s = Src::replay(c.to_vec());
                    let mut cx = Ctx { known: known.clone(), tier_thorough: thorough, ..Default::default() };
                    match run_case(p.run, &mut s, &mut cx) {
                        Outcome::Fail(g) if g.sig == sig => Some(s.rec),
                        _ => None,
                    }
                });
                let mut s = Src::replay(best.clone());
                let mut cx = Ctx { known: known.clone(), tier_thorough: thorough, ..Default::default() };
                if let Outcome::Fail(g) = run_case(p.run, &mut s, &mut cx) {
                    let _ = writeln!(rf, "F {idx}\t{n0}\t{}\t{}\t{}", join(&best), one_line(&g.sig), one_line(&g.msg));
                }
                code = 1;
                break;
            }
        }
        idx += WORKERS;
    }
    for (k, v) in labels {
        let _ = writeln!(rf, "L {v} {k}");
    }
    let _ = writeln!(rf, "N {evals}");
    let _ = writeln!(rf, "O {ops}");
    let _ = rf.flush();
    code
}

fn join(v: &[u64]) -> String {
    v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}
fn split(s: &str) -> Vec<u64> {
    s.split(',').filter_map(|x| x.trim().parse().ok()).collect()
}

fn one(a: &[String]) -> i32 {
    let Some(p) = find(&a[0]) else { return 2 };
    let seed: u64 = a[1].parse().unwrap();
    let idx: u64 = a[2].parse().unwrap();
    let mut src = Src::random(case_seed(seed, &a[0], idx));
    if let Some(t) = a.get(3) {
        src.set_trace(fs::File::create(t).unwrap());
    }
    run_single(&p, src, &a[0])
}

fn run_single(p: &Prop, mut src: Src, id: &str) -> i32 {
    steps::CAP.store(HEAP_CAP, std::sync::atomic::Ordering::Relaxed);
    let known: Vec<String> =
        load_known().into_iter().filter(|k| k.property == *id).map(|k| k.sig).collect();
    let mut ctx = Ctx {
        want_sample: true,
        known,
        tier_thorough: std::env::var("VERIF_TIER").as_deref() == Ok("thorough"),
        ..Default::default()
    };
    let o = run_case(p.run, &mut src, &mut ctx);
    println!("labels: {:?}", ctx.labels);
    println!("sample: {}", ctx.sample);
    match o {
        Outcome::Pass => {
            println!("PASS");
            0
        }
        Outcome::Fail(f) => {
            println!("FAIL sig={}\n{}", f.sig, f.msg);
            1
        }
        Outcome::HarnessError(m) => {
            println!("HARNESS ERROR {m}");
            2
        }
    }
}

fn read_replay(path: &str) -> Option<(String, Vec<u64>)> {
    let s = fs::read_to_string(path).ok()?;
    let mut id = None;
    let mut ch = None;
    for l in s.lines() {
        if let Some(x) = l.strip_prefix("property=") {
            id = Some(x.to_string());
        }
        if let Some(x) = l.strip_prefix("choices=") {
            ch = Some(split(x));
        }
    }
    Some((id?, ch?))
}

fn replay(path: &str) -> i32 {
    let Some((id, ch)) = read_replay(path) else {
        eprintln!("cannot read replay file {path}");
        return 2;
    };
    let Some(p) = find(&id) else { return 2 };
    run_single(&p, Src::replay(ch), &id)
}

// -------------------------------------------------------------------
// Parent
// -------------------------------------------------------------------

fn classify_death(status: std::process::ExitStatus, stderr: &str) -> String {
    use std::os::unix::process::ExitStatusExt;
    if status.code() == Some(steps::STEP_EXIT) {
        return "step-limit".into();
    }
    if stderr.contains("memory allocation of") {
        return "alloc-abort".into();
    }
    if stderr.contains("overflowed its stack") {
        return "stack-overflow".into();
    }
    match status.signal() {
        Some(s) => format!("abort:signal{s}"),
        None => format!("abort:exit{:?}", status.code()),
    }
}

/// Run `replay` on a choice list in a subprocess; returns the signature
/// of abnormal death, or None.
fn probe(exe: &Path, dir: &Path, id: &str, choices: &[u64], n: &mut u64) -> Option<String> {
    *n += 1;
    let f = dir.join(format!("probe{n}"));
    fs::write(&f, format!("property={id}\nchoices={}\n", join(choices))).ok()?;
    let ef = dir.join(format!("probe{n}.err"));
    let mut c = Command::new(exe)
        .arg("replay")
        .arg(&f)
        .stdout(Stdio::null())
        .stderr(fs::File::create(&ef).ok()?)
        .spawn()
        .ok()?;
    let t = Instant::now();
    let st = loop {
        if let Some(s) = c.try_wait().ok()? {
            break s;
        }
        if t.elapsed() > Duration::from_secs(60) {
            let _ = c.kill();
            let _ = c.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(5));
    };
    match st.code() {
        Some(0) | Some(1) | Some(2) => None,
        _ => Some(classify_death(st, &fs::read_to_string(&ef).unwrap_or_default())),
    }
}

fn check(id: &str) -> i32 {
    let t0 = Instant::now();
    let Some(p) = find(id) else {
        eprintln!("unknown property {id}");
        return 2;
    };
    let seed = env_u64("VERIF_SEED", 1);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let thorough = tier == "thorough";
    let mut total = if thorough { p.thorough } else { p.quick };
    total = env_u64("VERIF_CASES", total);
    let exe = std::env::current_exe().unwrap();
    let dir = std::env::temp_dir().join(format!("verif-{}-{}", id, std::process::id()));
    std::env::set_var("HARNESS_SCRATCH", &dir);
    fs::create_dir_all(&dir).unwrap();
    let known: Vec<Known> = load_known().into_iter().filter(|k| k.property == id).collect();
    let known_sigs: Vec<String> = known.iter().map(|k| k.sig.clone()).collect();

    struct W {
        child: std::process::Child,
        k: u64,
        last: u64,
        last_t: Instant,
    }
    let pfile = |k: u64| dir.join(format!("p{k}"));
    let rfile = |k: u64| dir.join(format!("r{k}"));
    let efile = |k: u64| dir.join(format!("e{k}"));
    let spawn = |k: u64, start: u64| -> std::process::Child {
        Command::new(&exe)
            .arg("worker")
            .arg(id)
            .arg(&tier)
            .arg(seed.to_string())
            .arg(start.to_string())
            .arg(total.to_string())
            .arg(pfile(k))
            .arg(rfile(k))
            .stdout(Stdio::null())
            .stderr(fs::File::create(efile(k)).unwrap())
            .spawn()
            .expect("spawn worker")
    };
    let mut ws: Vec<W> = (0..WORKERS.min(total))
        .map(|k| W { child: spawn(k, k), k, last: u64::MAX, last_t: Instant::now() })
        .collect();
    let mut errors: Vec<String> = Vec::new();
    let mut fails: Vec<FoundFail> = Vec::new();
    let mut known_hits: BTreeMap<String, String> = BTreeMap::new();
    let mut deaths: Vec<(u64, String)> = Vec::new();
    while !ws.is_empty() {
        let mut i = 0;
        while i < ws.len() {
            let w = &mut ws[i];
            match w.child.try_wait().unwrap() {
                None => {
                    let cur = fs::read(pfile(w.k))
                        .ok()
                        .and_then(|b| b.get(..8).map(|x| u64::from_le_bytes(x.try_into().unwrap())))
                        .unwrap_or(u64::MAX);
                    if cur != w.last {
                        w.last = cur;
                        w.last_t = Instant::now();
                    } else if w.last_t.elapsed().as_secs() > STALL_SECS {
                        let _ = w.child.kill();
                        let _ = w.child.wait();
                        // Shrinking a recorded failure may be slow; the
                        // unshrunk failure is already on record.
                        let has_f = fs::read_to_string(rfile(w.k)).map(|s| s.lines().any(|l| l.starts_with("F "))).unwrap_or(false);
                        if !has_f {
                            errors.push(format!("inconclusive: case {cur} made no progress for {STALL_SECS}s"));
                        }
                        ws.remove(i);
                        continue;
                    }
                    i += 1;
                }
                Some(st) => {
                    let k = w.k;
                    match st.code() {
                        Some(0) | Some(1) => {
                            ws.remove(i);
                        }
                        Some(2) => {
                            ws.remove(i);
                        }
                        _ => {
                            let err = fs::read_to_string(efile(k)).unwrap_or_default();
                            let sig = classify_death(st, &err);
                            let idx = fs::read(pfile(k))
                                .ok()
                                .and_then(|b| b.get(..8).map(|x| u64::from_le_bytes(x.try_into().unwrap())));
                            let has_f = fs::read_to_string(rfile(k)).map(|s| s.lines().any(|l| l.starts_with("F "))).unwrap_or(false);
                            match idx {
                                _ if has_f => {
                                    // Died while shrinking; failure is recorded.
                                    ws.remove(i);
                                }
                                Some(idx) if known_sigs.contains(&sig) => {
                                    known_hits.insert(sig, format!("case {idx}"));
                                    let nk = spawn(k, idx + WORKERS);
                                    ws[i].child = nk;
                                    ws[i].last_t = Instant::now();
                                    i += 1;
                                }
                                Some(idx) => {
                                    deaths.push((idx, sig));
                                    ws.remove(i);
                                }
                                None => {
                                    errors.push(format!("worker {k} died before its first case: {err}"));
                                    ws.remove(i);
                                }
                            }
                        }
                    }
                }
            }
        }
        std::thread::sleep(Duration::from_millis(10));
    }

    // Deaths: reproduce alone, then shrink in subprocesses.
    let mut nprobe = 0;
    deaths.sort();
    let mut seen_death: BTreeSet<String> = BTreeSet::new();
    let shrink_start = Instant::now();
    for (idx, sig) in deaths {
        if !seen_death.insert(sig.clone()) {
            continue;
        }
        let tf = dir.join(format!("trace{idx}"));
        let ef = dir.join(format!("trace{idx}.err"));
        let st = Command::new(&exe)
            .args(["one", id, &seed.to_string(), &idx.to_string()])
            .arg(&tf)
            .stdout(Stdio::null())
            .stderr(fs::File::create(&ef).unwrap())
            .status()
            .unwrap();
        let again = match st.code() {
            Some(0) | Some(1) | Some(2) => None,
            _ => Some(classify_death(st, &fs::read_to_string(&ef).unwrap_or_default())),
        };
        if again.as_deref() != Some(sig.as_str()) {
            errors.push(format!("case {idx} died with {sig} but gave {again:?} when run alone"));
            continue;
        }
        let choices: Vec<u64> =
            fs::read_to_string(&tf).unwrap_or_default().lines().filter_map(|l| l.parse().ok()).collect();
        let n0 = choices.len();
        let best = shrink(choices, 150, |c| {
            if shrink_start.elapsed() > Duration::from_secs(100) {
                return None;
            }
            if probe(&exe, &dir, id, c, &mut nprobe).as_deref() == Some(sig.as_str()) {
                Some(c.to_vec())
            } else {
                None
            }
        });
        let detail = fs::read_to_string(&ef).unwrap_or_default();
        fails.push(FoundFail {
            idx,
            fail: Fail::new(sig.clone(), format!("process died ({sig}): {}", one_line(detail.trim()))),
            choices: best,
            shrunk_from: n0,
        });
    }

    // Collect results.
    let mut evals = 0u64;
    let mut ops = 0u64;
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut distinct: BTreeSet<u64> = BTreeSet::new();
    let mut samples: Vec<String> = Vec::new();
    let mut cut_short = false;
    for k in 0..WORKERS {
        let Ok(s) = fs::read_to_string(rfile(k)) else { continue };
        let mut last_fail: Option<FoundFail> = None;
        for l in s.lines() {
            let (t, r) = l.split_at(l.len().min(2));
            match t {
                "L " => {
                    if let Some((n, name)) = r.split_once(' ') {
                        crate::engine::merge_label(&mut labels, name, n.parse::<u64>().unwrap_or(0));
                    }
                }
                "N " => evals += r.parse::<u64>().unwrap_or(0),
                "O " => ops += r.parse::<u64>().unwrap_or(0),
                "H " => {
                    distinct.insert(u64::from_str_radix(r, 16).unwrap_or(0));
                }
                "X " => samples.push(r.to_string()),
                "T " => cut_short = true,
                "E " => errors.push(r.to_string()),
                "K " => {
                    if let Some((s, m)) = r.split_once('\t') {
                        known_hits.insert(s.to_string(), m.to_string());
                    }
                }
                "F " => {
                    let f: Vec<&str> = r.split('\t').collect();
                    if f.len() >= 5 {
                        last_fail = Some(FoundFail {
                            idx: f[0].parse().unwrap_or(0),
                            fail: Fail::new(f[3], f[4..].join("\t")),
                            choices: split(f[2]),
                            shrunk_from: f[1].parse().unwrap_or(0),
                        });
                    }
                }
                _ => {}
            }
        }
        if let Some(f) = last_fail {
            fails.push(f);
        }
    }
    samples.sort_by_key(|s| s.len());
    let samples: Vec<String> = if samples.len() > 6 {
        let step = samples.len() / 6;
        samples.into_iter().step_by(step.max(1)).take(6).collect()
    } else {
        samples
    };

    // Verdicts.
    fails.sort_by_key(|f| (f.fail.sig.clone(), f.choices.len(), f.idx));
    let mut done: BTreeSet<String> = BTreeSet::new();
    let mut violations = Vec::new();
    let rdir = verif_dir().join("replays");
    for f in &fails {
        if !done.insert(f.fail.sig.clone()) {
            continue;
        }
        let _ = fs::create_dir_all(&rdir);
        let name = format!("{id}-{:08x}.txt", hash_bytes(1, f.fail.sig.as_bytes()) as u32);
        let path = rdir.join(name);
        let body = format!(
            "property={id}\nsig={}\nseed={seed} case={} choices_before_shrinking={}\nchoices={}\nmessage={}\n# run: ./check replay {}\n",
            f.fail.sig,
            f.idx,
            f.shrunk_from,
            join(&f.choices),
            f.fail.msg,
            path.display()
        );
        let _ = fs::write(&path, body);
        let mut m = f.fail.msg.clone();
        if m.len() > 1500 {
            let mut e = 1500;
            while !m.is_char_boundary(e) {
                e -= 1;
            }
            m.truncate(e);
        }
        println!("VIOLATION property={id} replay={}", path.display());
        println!("  sig={} case={} choices={} (from {})", f.fail.sig, f.idx, f.choices.len(), f.shrunk_from);
        println!("  {m}");
        violations.push((f.fail.sig.clone(), path.display().to_string()));
    }
    for k in &known {
        if let Some(m) = known_hits.get(&k.sig) {
            println!("KNOWN-FINDING: property={id} {} [{}] {}", k.sig, k.desc, m);
        } else {
            println!("KNOWN-FINDING: property={id} {} [{}] (listed; not reached by this run)", k.sig, k.desc);
        }
    }
    for e in &errors {
        println!("ERROR: {e}");
    }
    let wall = t0.elapsed().as_secs_f64();

    // Evidence.
    let mut j = String::new();
    j += "{\n";
    j += &format!("  \"property\": \"{id}\",\n  \"tier\": \"{}\",\n  \"seed\": {seed},\n", if thorough { "thorough" } else { "quick" });
    j += &format!("  \"level\": \"{}\",\n", checks::level(id));
    j += "  \"coverage\": {\n";
    j += &format!("    \"evaluations\": {evals},\n    \"distinct_nontrivial\": {},\n", distinct.len());
    j += &format!("    \"operations\": {ops},\n");
    j += &format!("    \"cut_short_by_time_limit\": {cut_short},\n");
    j += &format!("    \"rule\": \"{}\",\n", esc(p.rule));
    j += &format!("    \"library_edges_instrumented\": {},\n", steps::NUM_GUARDS.load(std::sync::atomic::Ordering::Relaxed));
    j += "    \"classes\": {";
    j += &labels.iter().map(|(k, v)| format!("\"{}\": {v}", esc(k))).collect::<Vec<_>>().join(", ");
    j += "},\n    \"samples\": [\n";
    j += &samples.iter().map(|s| format!("      \"{}\"", esc(s))).collect::<Vec<_>>().join(",\n");
    j += "\n    ]\n  },\n";
    j += &format!("  \"wall_s\": {wall:.2},\n");
    j += &format!(
        "  \"assumptions\": [{}],\n",
        checks::assumptions(id).iter().map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(", ")
    );
    j += &format!("  \"violations\": {}\n", violations.len());
    j += "}\n";
    let ed = verif_dir().join("evidence");
    let _ = fs::create_dir_all(&ed);
    let _ = fs::write(ed.join(format!("{id}.json")), j);
    let _ = fs::remove_dir_all(&dir);

    println!(
        "{id} {tier} seed={seed}: {evals} cases ({} distinct non-trivial), {ops} operations, {wall:.1}s, {} violations, {} errors",
        distinct.len(),
        violations.len(),
        errors.len()
    );
    if std::env::var("HARNESS_LABELS").is_ok() {
        for (k, v) in &labels {
            println!("   {v:>9} {k}");
        }
    }
    if !violations.is_empty() {
        1
    } else if !errors.is_empty() {
        2
    } else if evals == 0 {
        println!("ERROR: nothing was evaluated");
        2
    } else {
        0
    }
}

//! C13 reader failures, C14 independence of operations, C15 what is
//! read, C20 access routes.

use crate::checks::content::diff;
use crate::engine::*;
use crate::img::*;
use crate::ops::*;
use crate::world::{World, S};
use crate::{ensure, fail};
use ext4_view::{DirEntry, Ext4, Ext4Error, Ext4Read, File, PathBuf, ReadDir};
use std::error::Error;
use std::io::{Read, Seek, SeekFrom};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C13",
            run: c13,
            quick: 8000,
            thorough: 120000,
            rule: "case = generated image and a drawn history of operations (path operations, reads and seeks on open files, directory iteration, entry metadata) during which the reader fails at drawn reads, with or without scribbling over the buffer; every failure must come back as that very error and every retry must equal the failure-free result; non-trivial: at least 3 operations failed by injection and were retried",
        },
        Prop {
            id: "C14",
            run: c14,
            quick: 12000,
            thorough: 150000,
            rule: "case = generated image and a drawn interleaving of operations over clones, several open files and several directory iterators (also after every filesystem handle was dropped), each result compared with the one of the same operation alone on a fresh handle; non-trivial: at least 10 steps with 2 open handles",
        },
        Prop {
            id: "C15",
            run: c15,
            quick: 3500,
            thorough: 40000,
            rule: "case = generated image, load and a full tour with every read logged and range-checked, then the same with other contents in everything unused (free blocks, boot area, unused inodes, other files' data, slack after end of file); non-trivial: at least 20 reads were logged and something unused was changed",
        },
        Prop {
            id: "C20",
            run: c20,
            quick: 1500,
            thorough: 20000,
            rule: "case = generated small image read through Vec<u8>, std File, load_from_path and two custom readers, and every object through every route (whole, incremental, std, string, canonical path, symlink, listed entry); non-trivial: at least one file with data was compared",
        },
    ]
}

fn mixed_cfg(src: &mut Src) -> Cfg {
    let mut cfg = Cfg { max_nodes: 16, huge_pct: 2, bigdir_pct: 10, bigdir_max: 150, encrypt: true, ..Default::default() };
    cfg.kinds = [6, 4, 3, 1];
    if src.chance(1, 3) {
        // Small blocks: more of them than the cache holds.
        cfg.max_log_bs = 1;
    }
    cfg
}

fn reachable(img: &Img, p: &[u8]) -> bool {
    resolve(img, p, true, &mut RInfo::default()).is_ok()
}

/// An image, one in six with a journal to replay.
fn gen_mixed(src: &mut Src, cfg: &Cfg) -> Img {
    if src.chance(1, 6) {
        use crate::journal::*;
        let mut cfg = cfg.clone();
        cfg.max_nodes = cfg.max_nodes.min(8);
        cfg.bigdir_max = cfg.bigdir_max.min(60);
        cfg.big_sparse = false;
        let hc = HistCfg { max_txs: 4, bulk_pct: 2, revokes: true, all: false, min_len: 0 };
        let h = gen_history(src, &cfg, &hc);
        let n = h.txs.len();
        let mut d = h.base(src, n);
        h.write_old_log(src, &mut d);
        h.write_log(&mut d, h.log.len(), &|_| false);
        let mut img = h.states[n].clone();
        img.dirty = Some(d);
        img.hidden = h.effective(n).keys().copied().filter(|b| !h.critical.contains(b)).collect();
        return img;
    }
    let mut img = Img::begin(src, cfg);
    img.gen_tree(src, cfg);
    if src.chance(1, 4) {
        super::path::encrypt_some(src, &mut img);
        img.geo.incompat |= 0x10000;
    }
    img.finish(src, cfg);
    img
}

fn is_inj(e: &Ext4Error, lo: u64, hi: u64) -> bool {
    match e {
        Ext4Error::Io(b) => matches!((**b).downcast_ref::<InjErr>(), Some(InjErr(t)) if *t > lo && *t <= hi),
        _ => false,
    }
}

fn is_inj_io(e: &std::io::Error, lo: u64, hi: u64) -> bool {
    let Some(r) = e.get_ref() else { return false };
    let mut cur: Option<&(dyn Error + 'static)> = Some(r);
    while let Some(x) = cur {
        if let Some(InjErr(t)) = x.downcast_ref::<InjErr>() {
            return *t > lo && *t <= hi;
        }
        if let Some(y) = x.downcast_ref::<Ext4Error>() {
            return is_inj(y, lo, hi);
        }
        cur = x.source();
    }
    false
}

type TapRc = std::rc::Rc<std::cell::RefCell<Tap>>;

/// Install a failure plan. Returns its description.
fn plan(src: &mut Src, tap: &TapRc, span: u64) -> String {
    let mut t = tap.borrow_mut();
    t.fail_idx = 0;
    t.fail_partial = src.chance(1, 2);
    let mode = src.weighted(&[6, 3, 2]);
    let d;
    match mode {
        0 => {
            let j = src.below(span.max(1));
            t.fail_at = Some(Box::new(move |i| i == j));
            d = format!("fail read {j}");
        }
        1 => {
            let j = src.below(span.max(1));
            t.fail_at = Some(Box::new(move |i| i >= j));
            d = format!("fail reads from {j}");
        }
        _ => {
            let m = src.u64();
            let k = src.range(2, 5);
            t.fail_at = Some(Box::new(move |i| crate::rng::mix(m ^ i) % k == 0));
            d = format!("fail 1/{k} of reads");
        }
    }
    d + if t.fail_partial { " after a partial fill" } else { "" }
}

fn clear(tap: &TapRc) {
    tap.borrow_mut().fail_at = None;
}

fn token(tap: &TapRc) -> u64 {
    tap.borrow().fail_token
}

struct Open {
    f: File,
    n: usize,
    pos: u64,
}

fn c13(src: &mut Src, ctx: &mut Ctx) -> Res {
    let cfg = mixed_cfg(src);
    let img = gen_mixed(src, &cfg);
    let desc = img.describe();
    let reference = load_ok(&img)?;
    let tap = Tap::new(img.media().clone());
    let mut trace = String::new();
    let mut injected = 0u64;

    // Failures while loading.
    {
        drop(load_tap(&tap));
        let reads = tap.borrow().nreads;
        for _ in 0..src.range(1, 3) {
            let t0 = token(&tap);
            let d = plan(src, &tap, reads);
            let r = load_tap(&tap);
            clear(&tap);
            let t1 = token(&tap);
            if t1 > t0 {
                injected += 1;
                ctx.label("load failed by injection");
                match r {
                    Err(e) if is_inj(&e, t0, t1) => {}
                    Err(e) => fail!("load:other-error", "{d} during load: error {e:?} is not the reader's; {desc}"),
                    Ok(_) => fail!("load:ignored", "{d} during load: the failure was ignored; {desc}"),
                }
            }
        }
    }
    let fs = match load_tap(&tap) {
        Ok(fs) => fs,
        Err(e) => fail!("load:retry", "load after failed loads: {e:?}; {desc}"),
    };

    let tour = tour(&img);
    let paths = img.paths();
    let files: Vec<(Vec<u8>, usize)> = paths
        .iter()
        .filter(|(p, n)| img.nodes[*n].is_reg() && !img.nodes[*n].encrypted && reachable(&img, p))
        .cloned()
        .collect();
    let dirs: Vec<(Vec<u8>, usize)> = paths
        .iter()
        .filter(|(p, n)| img.nodes[*n].is_dir() && !img.nodes[*n].encrypted && reachable(&img, p))
        .cloned()
        .collect();
    let mut open: Vec<Open> = Vec::new();
    let mut held: Vec<DirEntry> = Vec::new();
    let bs = img.geo.bs;
    let steps = src.range(4, 24);
    let budget = Budget::new(300_000_000);
    for _ in 0..steps {
        tick();
        ctx.ops += 1;
        if !budget.left() {
            ctx.label("cut short: work budget");
            break;
        }
        let t0 = token(&tap);
        let kind = src.weighted(&[8, 4, 6, 3, 2]);
        match kind {
            // A path operation.
            0 => {
                let op = if src.chance(2, 3) { src.pick(&tour).clone() } else { {
                    let p = src.pick(&paths).0.clone();
                    gen_op(src, p)
                } };
                let want = exec(&reference, &op);
                let d = plan(src, &tap, 6);
                let r = exec_raw(&fs, &op);
                clear(&tap);
                let t1 = token(&tap);
                trace += &format!(" [{d}: {} {:?}{}]", op.name(), String::from_utf8_lossy(op.path()), if t1 > t0 { " hit" } else { "" });
                if t1 > t0 {
                    injected += 1;
                    ctx.label(&format!("{} failed by injection", op.name()));
                    match r {
                        Err(e) if is_inj(&e, t0, t1) => {
                            let io: std::io::Error = e.into();
                            ensure!(is_inj_io(&io, t0, t1), "op:io-conversion", "{op:?} with {d}: converted error {io:?} does not contain the reader's; {desc}");
                        }
                        Err(e) => fail!("op:other-error", "{op:?} with {d}: error {e:?} is not the reader's;{trace}; {desc}"),
                        Ok(s) => fail!("op:ignored", "{op:?} with {d}: the failure was ignored, result {s};{trace}; {desc}"),
                    }
                    let got = exec(&fs, &op);
                    ensure!(got == want, "op:retry", "{op:?} after {d}: {got:?}, without failure {want:?};{trace}; {desc}");
                } else {
                    let got = match r {
                        Ok(s) => Obs::Ok(s),
                        Err(e) => Obs::Err(kind_of(&e), format!("{e:?}")),
                    };
                    ensure!(got == want, "op:later", "{op:?}: {got:?}, without earlier failures {want:?};{trace}; {desc}");
                }
            }
            // Open.
            1 => {
                if files.is_empty() {
                    continue;
                }
                let (p, n) = src.pick(&files).clone();
                let d = plan(src, &tap, 3);
                let r = fs.open(p.as_slice());
                clear(&tap);
                let t1 = token(&tap);
                trace += &format!(" [{d}: open {:?}{}]", String::from_utf8_lossy(&p), if t1 > t0 { " hit" } else { "" });
                let f = match r {
                    Ok(_) if t1 > t0 => fail!("open:ignored", "open with {d}: the failure was ignored;{trace}; {desc}"),
                    Ok(f) => f,
                    Err(e) if t1 > t0 => {
                        ensure!(is_inj(&e, t0, t1), "open:other-error", "open with {d}: {e:?};{trace}; {desc}");
                        match fs.open(p.as_slice()) {
                            Ok(f) => f,
                            Err(e) => fail!("open:retry", "open after {d}: {e:?};{trace}; {desc}"),
                        }
                    }
                    Err(e) => fail!("open:later", "open: {e:?};{trace}; {desc}"),
                };
                if open.len() >= 3 {
                    open.remove(0);
                }
                open.push(Open { f, n, pos: 0 });
            }
            // Read or seek on an open file.
            2 => {
                if open.is_empty() {
                    continue;
                }
                let k = src.below(open.len() as u64) as usize;
                let o = &mut open[k];
                let node = &img.nodes[o.n];
                let size = node.size;
                if src.chance(1, 2) {
                    // Seek.
                    let cap = size.min(400_000 * bs);
                    let to = match src.below(3) {
                        0 => src.below(cap + 1),
                        1 => src.below(cap / bs + 1) * bs,
                        _ if !node.runs.is_empty() => {
                            let r = src.pick(&node.runs);
                            ((r.log + src.below(2) * r.len) * bs).min(cap)
                        }
                        _ => src.below(cap + 1),
                    };
                    let d = plan(src, &tap, 3);
                    let std = src.chance(1, 2);
                    let r: Result<(), (String, bool)> = if std {
                        let r = o.f.seek(SeekFrom::Start(to));
                        let t1 = token(&tap);
                        r.map(|_| ()).map_err(|e| (format!("{e:?}"), is_inj_io(&e, t0, t1)))
                    } else {
                        let r = o.f.seek_to(to);
                        let t1 = token(&tap);
                        r.map_err(|e| (format!("{e:?}"), is_inj(&e, t0, t1)))
                    };
                    clear(&tap);
                    let t1 = token(&tap);
                    trace += &format!(" [{d}: seek {to}{}]", if t1 > t0 { " hit" } else { "" });
                    match r {
                        Ok(()) => {
                            ensure!(t1 == t0, "seek:ignored", "seek with {d}: the failure was ignored;{trace}; {desc}");
                            o.pos = to;
                        }
                        Err((e, inj)) => {
                            ensure!(inj, "seek:other-error", "seek with {d}: {e};{trace}; {desc}");
                            injected += 1;
                            ctx.label("seek failed by injection");
                            if src.chance(1, 2) {
                                if let Err(e) = o.f.seek_to(to) {
                                    fail!("seek:retry", "seek after {d}: {e:?};{trace}; {desc}");
                                }
                                o.pos = to;
                            } else {
                                // Whatever the position is now, reads
                                // must agree with it.
                                o.pos = o.f.position();
                            }
                        }
                    }
                    ensure!(o.f.position() == o.pos, "position", "position {} should be {};{trace}; {desc}", o.f.position(), o.pos);
                }
                // Read.
                let t0 = token(&tap);
                let len = src.range(1, 2 * bs.min(4096)) as usize;
                let d = plan(src, &tap, 2);
                let std = src.weighted(&[2, 2, 1]);
                let mut buf = vec![0u8; len];
                let mut got = 0usize;
                let r: Result<usize, (String, bool)> = match std {
                    0 => {
                        let r = o.f.read_bytes(&mut buf);
                        let t1 = token(&tap);
                        r.map_err(|e| (format!("{e:?}"), is_inj(&e, t0, t1)))
                    }
                    1 => {
                        let r = o.f.read(&mut buf);
                        let t1 = token(&tap);
                        r.map_err(|e| (format!("{e:?}"), is_inj_io(&e, t0, t1)))
                    }
                    _ if size.saturating_sub(o.pos) < 1 << 20 => {
                        buf = Vec::new();
                        let r = o.f.read_to_end(&mut buf);
                        let t1 = token(&tap);
                        if r.is_err() {
                            got = buf.len();
                        }
                        r.map_err(|e| (format!("{e:?}"), is_inj_io(&e, t0, t1)))
                    }
                    _ => Ok(0),
                };
                clear(&tap);
                let t1 = token(&tap);
                trace += &format!(" [{d}: read {len}@{}{}]", o.pos, if t1 > t0 { " hit" } else { "" });
                match r {
                    Ok(n) => {
                        ensure!(t1 == t0, "read:ignored", "read with {d}: the failure was ignored;{trace}; {desc}");
                        got = n;
                    }
                    Err((e, inj)) => {
                        ensure!(inj, "read:other-error", "read with {d}: {e};{trace}; {desc}");
                        injected += 1;
                        ctx.label("read failed by injection");
                    }
                }
                let want = img.file_bytes(o.n, o.pos, got as u64);
                if let Some(i) = diff(&want, &buf[..got]) {
                    fail!("read:content", "read of {len} at {}: byte {i} is wrong;{trace}; {desc}", o.pos);
                }
                o.pos += got as u64;
                ensure!(o.f.position() == o.pos, "position", "position {} should be {};{trace}; {desc}", o.f.position(), o.pos);
                if t1 > t0 {
                    // Retry: exactly what follows.
                    let mut at = 0;
                    let mut buf = vec![0u8; len];
                    while at < len {
                        match o.f.read_bytes(&mut buf[at..]) {
                            Ok(0) => break,
                            Ok(n) => at += n,
                            Err(e) => fail!("read:retry", "read after {d}: {e:?};{trace}; {desc}"),
                        }
                    }
                    let want = img.file_bytes(o.n, o.pos, len as u64);
                    if let Some(i) = diff(&want, &buf[..at]) {
                        fail!("read:retry", "read of {len} at {} after {d}: got {at} bytes, want {}, first difference at {i};{trace}; {desc}", o.pos, want.len());
                    }
                    o.pos += at as u64;
                }
            }
            // Directory iteration.
            3 => {
                if dirs.is_empty() {
                    continue;
                }
                let (p, _) = src.pick(&dirs).clone();
                let want = raw_names(&reference, &p);
                let d = plan(src, &tap, 5);
                let (got, e, more) = match fs.read_dir(p.as_slice()) {
                    Err(e) => (Vec::new(), Some(e), 0),
                    Ok(mut it) => {
                        let mut got = Vec::new();
                        let mut er = None;
                        let mut more = 0;
                        while let Some(x) = it.next() {
                            match x {
                                Ok(x) => {
                                    got.push(x.file_name().as_ref().to_vec());
                                    if held.len() < 8 && src.chance(1, 4) {
                                        held.push(x);
                                    }
                                }
                                Err(e) => {
                                    er = Some(e);
                                    for _ in 0..3 {
                                        if it.next().is_some() {
                                            more += 1;
                                        }
                                    }
                                    break;
                                }
                            }
                        }
                        (got, er, more)
                    }
                };
                clear(&tap);
                let t1 = token(&tap);
                trace += &format!(" [{d}: read_dir {:?}{}]", String::from_utf8_lossy(&p), if t1 > t0 { " hit" } else { "" });
                if t1 > t0 {
                    injected += 1;
                    ctx.label("read_dir failed by injection");
                    match e {
                        Some(e) => ensure!(is_inj(&e, t0, t1), "iter:other-error", "iteration with {d}: {e:?};{trace}; {desc}"),
                        None => fail!("iter:ignored", "iteration with {d}: the failure was ignored, {} entries;{trace}; {desc}", got.len()),
                    }
                    ensure!(more == 0, "iter:continues", "iteration continues after the error of {d};{trace}; {desc}");
                    ensure!(got.len() <= want.len() && got[..] == want[..got.len()], "iter:content", "entries before the failure of {d} are wrong;{trace}; {desc}");
                } else if let Some(e) = e {
                    fail!("iter:later", "iteration: {e:?};{trace}; {desc}");
                }
                let again = raw_names(&fs, &p);
                ensure!(again == want, "iter:retry", "iteration after {d}: {} entries, should be {};{trace}; {desc}", again.len(), want.len());
            }
            // Metadata of a listed entry.
            _ => {
                if held.is_empty() {
                    continue;
                }
                let e = src.pick(&held);
                let d = plan(src, &tap, 1);
                let r = e.metadata();
                clear(&tap);
                let t1 = token(&tap);
                let want = img.nodes[node_of(&img, e)].clone();
                if t1 > t0 {
                    injected += 1;
                    ctx.label("entry metadata failed by injection");
                    match r {
                        Err(x) => ensure!(is_inj(&x, t0, t1), "entry:other-error", "entry metadata with {d}: {x:?};{trace}; {desc}"),
                        Ok(_) => fail!("entry:ignored", "entry metadata with {d}: the failure was ignored;{trace}; {desc}"),
                    }
                }
                match e.metadata() {
                    Ok(m) => ensure!(m.len() == want.size && m.uid() == want.uid, "entry:retry", "entry metadata after {d} is wrong: {m:?};{trace}; {desc}"),
                    Err(x) => fail!("entry:retry", "entry metadata after {d}: {x:?};{trace}; {desc}"),
                }
            }
        }
    }
    // Everything, once more, on the handle that saw the failures.
    for op in &tour {
        if src.chance(1, 4) && budget.left() {
            let a = exec(&fs, op);
            let b = exec(&reference, op);
            ctx.ops += 1;
            ensure!(a == b, "op:after", "{op:?}: {a:?}, without failures {b:?};{trace}; {desc}");
        }
    }
    ctx.nontrivial = injected >= 3;
    if ctx.want_sample {
        ctx.sample = format!("{trace}; {desc}");
    }
    Ok(())
}

fn kind_of(e: &Ext4Error) -> &'static str {
    kind(e)
}

fn raw_names(fs: &Ext4, p: &[u8]) -> Vec<Vec<u8>> {
    match fs.read_dir(p) {
        Ok(it) => it
            .map(|x| match x {
                Ok(x) => x.file_name().as_ref().to_vec(),
                Err(e) => format!("/error {e:?}").into_bytes(),
            })
            .collect(),
        Err(e) => vec![format!("/error {e:?}").into_bytes()],
    }
}

/// The model node of a listed entry.
fn node_of(img: &Img, e: &DirEntry) -> usize {
    let p = e.path();
    let b: &[u8] = p.as_ref();
    let i = b.iter().rposition(|c| *c == b'/').unwrap_or(0);
    let parent = if i == 0 { b"/".to_vec() } else { b[..i].to_vec() };
    let d = img
        .paths()
        .into_iter()
        .find(|(q, n)| *q == parent && img.nodes[*n].is_dir())
        .map(|x| x.1)
        .unwrap_or(0);
    match &b[i + 1..] {
        b"." => d,
        b".." => img.nodes[d].dir().unwrap().parent,
        x => img.lookup(d, x).unwrap_or(d),
    }
}

// -------------------------------------------------------------------

enum Slot {
    File { f: File, n: usize, pos: u64 },
    Dir { it: ReadDir, want: Vec<String>, at: usize },
    Entry { e: DirEntry, want: String },
}

fn entry_str(e: &DirEntry) -> String {
    format!(
        "{:?} {:?} {:?} {:?}",
        e.file_name().as_ref(),
        e.path().as_ref() as &[u8],
        e.file_type().map(ftype_code).map_err(|e| kind(&e)),
        e.metadata().map(|m| meta_str(&m)).map_err(|e| kind(&e))
    )
}

/// Results of operations on a damaged image: nothing says what they
/// are, but they do not depend on what was done before.
fn c14_damaged(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut cfg = super::meta::small_cfg();
    cfg.csum = if src.chance(1, 2) { Some(false) } else { None };
    cfg.max_log_bs = if src.chance(1, 8) { 6 } else { 2 };
    let mut w = World::gen(src, &cfg, 20);
    let all = w.structures();
    let mut what = Vec::new();
    for _ in 0..src.size(1, 5) {
        let groups: Vec<S> = all.iter().copied().filter(|s| matches!(s, S::Desc(_))).collect();
        let (s, b) = if src.chance(1, 3) {
            // An inode table next to, or over, the start of the disk.
            let s = *src.pick(&groups);
            let mut b = w.get(s);
            let to = src.below(3) as u32;
            b[8..12].copy_from_slice(&to.to_le_bytes());
            what.push(format!("{s:?}: inode table at {to}"));
            ctx.label("inode table at the start");
            (s, b)
        } else {
            let s = super::hostile::pick_structure(src, &all);
            let mut b = w.get(s);
            what.push(w.alter(src, s, &mut b));
            (s, b)
        };
        let mut b = b;
        if src.chance(17, 20) {
            w.seal(s, &mut b);
        }
        w.put(s, &b);
    }
    let desc = format!("{what:?}; {}", w.img.describe());
    let load = || crate::ops::load(&w.disk);
    let text = |r: Result<String, Ext4Error>| r.map_err(|e| format!("{e} ({e:?})"));
    let shared = match load() {
        Ok(f) => f,
        Err(e) => {
            ctx.label("damaged: not loaded");
            let e = format!("{e} ({e:?})");
            match load() {
                Err(f) if format!("{f} ({f:?})") == e => return Ok(()),
                f => fail!("load:again", "load gave {e}, then {:?}; {desc}", f.map(|_| ()).map_err(|f| format!("{f} ({f:?})"))),
            }
        }
    };
    let paths = sampled_paths(&w.img);
    let tour = tour(&w.img);
    let budget = Budget::new(400_000_000);
    let (mut oks, mut errs) = (0, 0);
    for _ in 0..src.range(10, 60) {
        if !budget.left() {
            ctx.label("cut short: work budget");
            break;
        }
        ctx.ops += 1;
        let op = if src.chance(3, 4) {
            src.pick(&tour).clone()
        } else {
            let p = src.pick(&paths).0.clone();
            gen_op(src, p)
        };
        let alone = match load() {
            Ok(f) => f,
            Err(e) => fail!("load:again", "loaded before, now {e:?}; {desc}"),
        };
        if let Ok(m) = alone.metadata(op.path()) {
            if m.len() > 4 << 20 {
                continue;
            }
        }
        let alone = match load() {
            Ok(f) => f,
            Err(e) => fail!("load:again", "loaded before, now {e:?}; {desc}"),
        };
        let want = text(exec_raw(&alone, &op));
        let got = text(exec_raw(&shared, &op));
        ensure!(got == want, "damaged:op", "{op:?} gives {got:?}, alone {want:?}; {desc}");
        if got.is_ok() {
            oks += 1;
        } else {
            errs += 1;
        }
    }
    if errs > 0 {
        ctx.label("damaged: operations fail");
        if oks > 0 {
            ctx.nontrivial = true;
        }
    }
    Ok(())
}

fn c14(src: &mut Src, ctx: &mut Ctx) -> Res {
    if src.chance(1, 4) {
        return c14_damaged(src, ctx);
    }
    let cfg = mixed_cfg(src);
    let img = gen_mixed(src, &cfg);
    let desc = img.describe();
    let tap = Tap::new(img.media().clone());
    let alone_tap = Tap::new(img.media().clone());
    let first = match load_tap(&tap) {
        Ok(f) => f,
        Err(e) => fail!("load:valid", "{e:?}; {desc}"),
    };
    let mut handles = vec![first];
    let paths = img.paths();
    let tour = tour(&img);
    let files: Vec<(Vec<u8>, usize)> = paths
        .iter()
        .filter(|(p, n)| img.nodes[*n].is_reg() && !img.nodes[*n].encrypted && reachable(&img, p))
        .cloned()
        .collect();
    let dirs: Vec<(Vec<u8>, usize)> = paths
        .iter()
        .filter(|(p, n)| img.nodes[*n].is_dir() && !img.nodes[*n].encrypted && reachable(&img, p))
        .cloned()
        .collect();
    let bs = img.geo.bs;
    let mut slots: Vec<Slot> = Vec::new();
    let mut trace = String::new();
    let steps = src.range(5, 60);
    let mut interleaved = 0;
    let mut dropped = false;
    let budget = Budget::new(300_000_000);
    for _ in 0..steps {
        tick();
        ctx.ops += 1;
        if !budget.left() {
            ctx.label("cut short: work budget");
            break;
        }
        if slots.len() >= 2 {
            interleaved += 1;
        }
        match src.weighted(&[6, 3, 3, 12, 2, 1, 1]) {
            0 => {
                if handles.is_empty() {
                    continue;
                }
                let h = src.below(handles.len() as u64) as usize;
                let op = if src.chance(2, 3) {
                    src.pick(&tour).clone()
                } else {
                    let p = src.pick(&paths).0.clone();
                    gen_op(src, p)
                };
                let alone = match load_tap(&alone_tap) {
                    Ok(f) => f,
                    Err(e) => fail!("load:valid", "{e:?}; {desc}"),
                };
                let want = exec(&alone, &op);
                let got = exec(&handles[h], &op);
                trace += &format!(" {}#{h}({:?})", op.name(), String::from_utf8_lossy(op.path()));
                ensure!(got == want, "op", "{op:?} gives {got:?}, alone {want:?};{trace}; {desc}");
            }
            1 => {
                if files.is_empty() || handles.is_empty() {
                    continue;
                }
                let h = src.below(handles.len() as u64) as usize;
                let (p, n) = src.pick(&files).clone();
                trace += &format!(" open#{h}({:?})", String::from_utf8_lossy(&p));
                let times = if src.chance(1, 3) { 2 } else { 1 };
                for _ in 0..times {
                    match handles[h].open(p.as_slice()) {
                        Ok(f) => slots.push(Slot::File { f, n, pos: 0 }),
                        Err(e) => fail!("open", "open fails: {e:?};{trace}; {desc}"),
                    }
                }
            }
            2 => {
                if handles.is_empty() {
                    continue;
                }
                let h = src.below(handles.len() as u64) as usize;
                if dirs.is_empty() {
                    continue;
                }
                let (p, _) = src.pick(&dirs).clone();
                trace += &format!(" read_dir#{h}({:?})", String::from_utf8_lossy(&p));
                let alone = match load_tap(&alone_tap) {
                    Ok(f) => f,
                    Err(e) => fail!("load:valid", "{e:?}; {desc}"),
                };
                let mut want = Vec::new();
                match alone.read_dir(p.as_slice()) {
                    Ok(it) => {
                        for e in it {
                            match e {
                                Ok(e) => want.push(entry_str(&e)),
                                Err(e) => fail!("read_dir", "iteration alone: {e:?};{trace}; {desc}"),
                            }
                        }
                    }
                    Err(e) => fail!("read_dir", "read_dir alone: {e:?};{trace}; {desc}"),
                }
                match handles[h].read_dir(p.as_slice()) {
                    Ok(it) => slots.push(Slot::Dir { it, want, at: 0 }),
                    Err(e) => fail!("read_dir", "read_dir fails: {e:?};{trace}; {desc}"),
                }
            }
            3 => {
                if slots.is_empty() {
                    continue;
                }
                let k = src.below(slots.len() as u64) as usize;
                let mut new = None;
                match &mut slots[k] {
                    Slot::File { f, n, pos } => {
                        let node = &img.nodes[*n];
                        let size = node.size;
                        if src.chance(1, 4) {
                            let cap = size.min(400_000 * bs) + 10;
                            let to = match src.below(3) {
                                0 => src.below(cap + 1),
                                1 => src.below(cap / bs + 1) * bs,
                                _ => *pos,
                            };
                            trace += &format!(" seek[{k}]({to})");
                            let r = if src.chance(1, 2) {
                                f.seek_to(to).map_err(|e| format!("{e:?}"))
                            } else {
                                f.seek(SeekFrom::Current(to as i64 - *pos as i64)).map(|_| ()).map_err(|e| format!("{e:?}"))
                            };
                            if let Err(e) = r {
                                fail!("seek", "seek fails: {e};{trace}; {desc}");
                            }
                            *pos = to;
                        }
                        let len = src.range(1, 2 * bs.min(4096));
                        let mut buf = vec![0u8; len as usize];
                        trace += &format!(" read[{k}]({len}@{pos})");
                        let got = match f.read_bytes(&mut buf) {
                            Ok(g) => g as u64,
                            Err(e) => fail!("read", "read fails: {e:?};{trace}; {desc}"),
                        };
                        let avail = size.saturating_sub(*pos);
                        ensure!(got <= len.min(avail) && (got > 0 || avail == 0), "read:count", "read of {len} gave {got}, {avail} available;{trace}; {desc}");
                        let want = img.file_bytes(*n, *pos, got);
                        if let Some(i) = diff(&want, &buf[..got as usize]) {
                            fail!("read:content", "byte {i} differs;{trace}; {desc}");
                        }
                        *pos += got;
                        ensure!(f.position() == *pos, "position", "position {} should be {pos};{trace}; {desc}", f.position());
                        if let Some(d) = meta_diff(&img, *n, f.metadata()) {
                            fail!("metadata", "open file's metadata: {d};{trace}; {desc}");
                        }
                    }
                    Slot::Dir { it, want, at } => {
                        trace += &format!(" next[{k}]@{at}");
                        for _ in 0..src.range(1, 6) {
                            match it.next() {
                                None => ensure!(*at >= want.len(), "iter:short", "iteration ends after {at} of {};{trace}; {desc}", want.len()),
                                Some(Err(e)) => fail!("iter:error", "iteration fails: {e:?};{trace}; {desc}"),
                                Some(Ok(e)) => {
                                    let s = entry_str(&e);
                                    ensure!(*at < want.len() && want[*at] == s, "iter:content", "entry {at} is {s}, alone {:?};{trace}; {desc}", want.get(*at));
                                    *at += 1;
                                    if src.chance(1, 4) {
                                        new = Some(Slot::Entry { e, want: s });
                                    }
                                }
                            }
                        }
                    }
                    Slot::Entry { e, want } => {
                        trace += &format!(" entry[{k}]");
                        let s = entry_str(e);
                        ensure!(s == *want, "entry", "entry now reads {s}, before {want};{trace}; {desc}");
                    }
                }
                if let Some(n) = new {
                    slots.push(n);
                }
            }
            4 => {
                // Clone.
                if handles.is_empty() || handles.len() > 4 {
                    continue;
                }
                let h = src.below(handles.len() as u64) as usize;
                let c = handles[h].clone();
                trace += &format!(" clone#{h}");
                ensure!(c.label() == handles[h].label() && c.uuid() == handles[h].uuid(), "clone", "clone has another label or UUID; {desc}");
                handles.push(c);
            }
            5 => {
                // Drop handles.
                if handles.is_empty() {
                    continue;
                }
                if src.chance(1, 3) {
                    handles.clear();
                    trace += " drop-all";
                } else {
                    let h = src.below(handles.len() as u64) as usize;
                    handles.remove(h);
                    trace += &format!(" drop#{h}");
                }
                if handles.is_empty() {
                    dropped = true;
                    if slots.is_empty() {
                        break;
                    }
                }
            }
            _ => {
                if slots.len() > 1 {
                    let k = src.below(slots.len() as u64) as usize;
                    trace += &format!(" close[{k}]");
                    slots.remove(k);
                }
            }
        }
        while slots.len() > 8 {
            slots.remove(0);
        }
    }
    if dropped && interleaved > 0 {
        ctx.label("handles used after the filesystem was dropped");
    }
    // Exhaust what is still open.
    for s in &mut slots {
        match s {
            Slot::Dir { it, want, at } => {
                for e in it {
                    match e {
                        Ok(e) => {
                            let s = entry_str(&e);
                            ensure!(*at < want.len() && want[*at] == s, "iter:content", "entry {at} is {s}, alone {:?};{trace}; {desc}", want.get(*at));
                            *at += 1;
                        }
                        Err(e) => fail!("iter:error", "iteration fails: {e:?};{trace}; {desc}"),
                    }
                }
                ensure!(*at == want.len(), "iter:short", "iteration ends after {at} of {};{trace}; {desc}", want.len());
            }
            Slot::File { f, n, pos } => {
                if img.nodes[*n].size.saturating_sub(*pos) < 1 << 20 {
                    let mut v = Vec::new();
                    if let Err(e) = f.read_to_end(&mut v) {
                        fail!("read", "read_to_end fails: {e:?};{trace}; {desc}");
                    }
                    let want = img.file_bytes(*n, *pos, 1 << 20);
                    ensure!(diff(&want, &v).is_none(), "read:content", "rest of the file differs;{trace}; {desc}");
                }
            }
            Slot::Entry { e, want } => {
                let s = entry_str(e);
                ensure!(s == *want, "entry", "entry now reads {s}, before {want};{trace}; {desc}");
            }
        }
    }
    if tap.borrow().nreads > 60 {
        ctx.label("more than 60 device reads");
    }
    ctx.nontrivial = interleaved >= 10;
    if ctx.want_sample {
        ctx.sample = format!("{trace}; {desc}");
    }
    Ok(())
}

// -------------------------------------------------------------------

fn c15(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut cfg = mixed_cfg(src);
    cfg.huge_pct = 5;
    if src.chance(1, 4) {
        // Devices whose end is near everything.
        cfg.small_disk = true;
    }
    let img = gen_mixed(src, &cfg);
    let desc = img.describe();
    let geo = img.geo.clone();
    let declared = geo.blocks * geo.bs;
    let mut disk = img.media().clone();
    // The device may be larger than the filesystem.
    disk.size = declared;
    let tap = Tap::new(disk);
    tap.borrow_mut().logging = true;
    let fs = match load_tap(&tap) {
        Ok(f) => f,
        Err(e) => fail!("load:valid", "load on a device of exactly the declared size: {e:?}; reads {:?}; {desc}", tap.borrow().log),
    };
    let gdt = (geo.gdt_block() * geo.bs, (geo.gdt_block() + geo.gdt_blocks()) * geo.bs);
    if img.dirty.is_some() {
        ctx.label("unclean");
        for (s, l) in &tap.borrow().log {
            let e = s.checked_add(*l as u64);
            ensure!(*s >= 1024 && matches!(e, Some(e) if e <= declared), "load:range", "load reads {l} bytes at {s}; {desc}");
        }
    } else {
        let t = tap.borrow();
        for (s, l) in &t.log {
            let e = s + *l as u64;
            let sb = *s >= 1024 && e <= 2048;
            let g = *s >= gdt.0 && e <= gdt.1;
            ensure!(sb || g || *l == 0, "load:range", "load reads {l} bytes at {s}, neither superblock nor descriptors {gdt:?}; {desc}");
        }
    }
    let ops = tour(&img);
    let mut first = Vec::new();
    let budget = Budget::new(200_000_000);
    for op in &ops {
        tick();
        if !budget.left() {
            ctx.label("cut short: work budget");
            break;
        }
        ctx.ops += 1;
        tap.borrow_mut().log.clear();
        let o = exec(&fs, op);
        let t = tap.borrow();
        for (s, l) in &t.log {
            let e = s.checked_add(*l as u64);
            ensure!(*s >= 1024, "read:boot", "{op:?} reads {l} bytes at {s}: the first 1024 bytes are not its business; {desc}");
            ensure!(matches!(e, Some(e) if e <= declared), "read:beyond", "{op:?} reads {l} bytes at {s}, the filesystem ends at {declared}; {desc}");
            if e.unwrap() > declared - geo.bs {
                ctx.label("read of the last block");
            }
        }
        ctx.count("reads", t.log.len() as u64);
        drop(t);
        first.push(o);
    }
    ensure!(tap.borrow().oob.is_empty(), "read:beyond", "reads out of bounds: {:?}; {desc}", tap.borrow().oob);
    for (op, o) in ops.iter().zip(&first) {
        // Nothing on this image is a reason for these errors.
        ensure!(!matches!(o, Obs::Err("Io" | "Corrupt" | "Incompatible", _)), "tour:error", "{op:?} gives {o:?}; {desc}");
    }

    // Other contents in what is not used.
    let mut d2 = img.media().clone();
    d2.free_seed = src.u64();
    let mut what = vec!["free blocks"];
    if src.chance(1, 2) {
        what.push("boot area");
        let noise = noise(src, 1024);
        d2.write_at(0, &noise);
    }
    if src.chance(1, 2) {
        what.push("unused inodes");
        let used: std::collections::BTreeSet<u32> =
            img.used_inos.iter().copied().chain(img.nodes.iter().map(|n| n.ino)).collect();
        for _ in 0..src.range(1, 12) {
            let g = src.below(geo.groups.min(64) as u64) as u32;
            let ino = g * geo.ipg + 1 + src.below(geo.ipg as u64) as u32;
            if used.contains(&ino) {
                continue;
            }
            let noise = noise(src, geo.inode_size as usize);
            d2.write_at(geo.inode_offset(ino), &noise);
        }
    }
    if !img.hidden.is_empty() && src.chance(1, 2) {
        what.push("blocks that the journal replaces");
        for b in img.hidden.clone() {
            let nz = noise(src, geo.bs as usize);
            d2.set_block(b, nz);
        }
    }
    // All data of files other than `keep`, and what of `keep`'s own
    // blocks is not data.
    let regs: Vec<usize> = (0..img.nodes.len()).filter(|n| img.nodes[*n].is_reg() && Some(img.nodes[*n].ino) != img.journal_ino).collect();
    let keep = if regs.is_empty() { 0 } else { *src.pick(&regs) };
    let others = src.chance(1, 2);
    let slack = src.chance(1, 2);
    if others {
        what.push("other files' data");
    }
    if slack {
        what.push("slack and unwritten blocks");
    }
    for &n in &regs {
        let node = &img.nodes[n];
        for r in &node.runs {
            let eof = node.size.div_ceil(geo.bs);
            if n != keep && others {
                for b in 0..r.len.min(16) {
                    let nz = noise(src, geo.bs as usize);
                    d2.set_block(r.phys + b, nz);
                }
            } else if slack {
                for b in 0..r.len.min(16) {
                    if r.uninit || r.log + b >= eof {
                        let nz = noise(src, geo.bs as usize);
                        d2.set_block(r.phys + b, nz);
                    }
                }
                // The tail of the last block.
                if node.size % geo.bs != 0 && !r.uninit && eof > r.log && eof <= r.log + r.len {
                    let nz = noise(src, (geo.bs - node.size % geo.bs) as usize);
                    d2.write_at((r.phys + eof - 1 - r.log) * geo.bs + node.size % geo.bs, &nz);
                }
            }
        }
    }
    let fs2 = match load(&d2) {
        Ok(f) => f,
        Err(e) => fail!("unused:load", "with other contents in {what:?}: load fails {e:?}; {desc}"),
    };
    for (op, a) in ops.iter().zip(&first) {
        if let Op::Read(p) | Op::OpenRead(p, _) | Op::ReadStr(p) = op {
            if others {
                match resolve(&img, p, true, &mut RInfo::default()) {
                    Ok((n, _)) if n == keep => {}
                    _ => continue,
                }
            }
        }
        let b = exec(&fs2, op);
        ctx.ops += 1;
        ensure!(*a == b, "unused:influence", "{op:?} gives {a:?}, with other contents in {what:?} {b:?}; {desc}");
    }
    for w in &what {
        ctx.label(&format!("changed {w}"));
    }
    ctx.nontrivial = tap.borrow().nreads >= 20;
    if ctx.want_sample {
        ctx.sample = format!("changed {what:?}, {} reads; {desc}", tap.borrow().nreads);
    }
    Ok(())
}

fn noise(src: &mut Src, n: usize) -> Vec<u8> {
    // One draw decides.
    let mut r = crate::rng::Rng(src.u64());
    let mut v = vec![0u8; n];
    if r.below(4) == 0 {
        v.fill(r.below(256) as u8);
    } else {
        crate::disk::Disk::fill_noise(&mut r, &mut v);
    }
    v
}

// -------------------------------------------------------------------

/// A reader that gives the bytes in odd ways: it fills the buffer in
/// small pieces, back to front.
struct Chunky(Vec<u8>, usize);
impl Ext4Read for Chunky {
    fn read(&mut self, start: u64, dst: &mut [u8]) -> Result<(), Box<dyn Error + Send + Sync>> {
        let s = usize::try_from(start)?;
        let e = s.checked_add(dst.len()).ok_or("overflow")?;
        if e > self.0.len() {
            return Err("out of bounds".into());
        }
        let src = &self.0[s..e];
        let mut i = dst.len();
        while i > 0 {
            let k = i.saturating_sub(self.1);
            dst[k..i].copy_from_slice(&src[k..i]);
            i = k;
        }
        Ok(())
    }
}

struct Scratch(std::path::PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_file(&self.0);
    }
}

fn scratch_file(data: &[u8]) -> Scratch {
    use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
    static N: AtomicU64 = AtomicU64::new(0);
    let dir = std::env::var("HARNESS_SCRATCH").unwrap_or_else(|_| "/tmp".into());
    let p = std::path::PathBuf::from(dir).join(format!("xv-{}-{}.img", std::process::id(), N.fetch_add(1, Relaxed)));
    std::fs::write(&p, data).unwrap_or_else(|e| panic!("harness: cannot write {p:?}: {e}"));
    Scratch(p)
}

/// Fill a file's mapped blocks with text, so that reading it as a
/// string mostly succeeds; sometimes with one flaw.
fn write_text(src: &mut Src, img: &mut Img, n: usize) {
    let size = img.nodes[n].size as usize;
    let mut rng = crate::rng::Rng(src.u64());
    let mut text = Vec::with_capacity(size + 4);
    match src.below(4) {
        0 => text.extend("\u{feff}".as_bytes()),
        1 => text.extend(b"\r\n"),
        _ => {}
    }
    let wide = src.below(3);
    while text.len() < size {
        let c = match (rng.next() % 8, wide) {
            (0, _) => *[b'\0', b'\n', b'\r', b' ', 0x1a, 0x7f].get((rng.next() % 6) as usize).unwrap() as char,
            (k, w) if k < w * 3 => *['\u{80}', '\u{7ff}', '\u{800}', '\u{d7ff}', '\u{e000}', '\u{feff}', '\u{fffd}', '\u{ffff}', '\u{10000}', '\u{10ffff}'].get((rng.next() % 10) as usize).unwrap(),
            _ => (b'a' + (rng.next() % 26) as u8) as char,
        };
        let mut b = [0; 4];
        let e = c.encode_utf8(&mut b).as_bytes();
        // A character that does not fit is replaced or cut.
        if text.len() + e.len() > size && wide < 2 {
            text.resize(size, b'.');
        } else {
            text.extend(e);
        }
    }
    text.truncate(size);
    if size > 0 && src.chance(1, 5) {
        let at = match src.below(3) {
            0 => 0,
            1 => size - 1,
            _ => src.below(size as u64) as usize,
        };
        text[at] = *src.pick(&[0x80u8, 0xc0, 0xc2, 0xe0, 0xed, 0xf4, 0xf5, 0xff]);
    }
    let bs = img.geo.bs;
    for run in img.nodes[n].runs.clone() {
        let a = (run.log * bs) as usize;
        if run.uninit || a >= size {
            continue;
        }
        let b = size.min(((run.log + run.len) * bs) as usize);
        img.disk.write_at(run.phys * bs, &text[a..b]);
    }
}

fn c20(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut cfg = mixed_cfg(src);
    cfg.small_disk = true;
    cfg.huge_pct = 0;
    cfg.big_sparse = false;
    let mut img = gen_mixed(src, &cfg);
    for n in 0..img.nodes.len() {
        let node = &img.nodes[n];
        if img.dirty.is_none() && node.is_reg() && !node.runs.is_empty() && node.size <= 1 << 18 && src.chance(1, 2) {
            write_text(src, &mut img, n);
        }
    }
    let desc = img.describe();
    let mut flat = img.media().flatten();
    // The image may be cut short or carry something after its end.
    let cut = src.chance(1, 8);
    if cut {
        let n = flat.len() as u64;
        flat.truncate(src.range(n / 2, n) as usize);
        ctx.label("image cut short");
    } else if src.chance(1, 8) {
        flat.extend(noise(src, 5000));
    }
    let file = scratch_file(&flat);
    let open = || std::fs::File::open(&file.0).unwrap_or_else(|e| panic!("harness: open: {e}"));
    let mut tapdisk = crate::disk::Disk::new(1 << 10, flat.len() as u64, 0);
    for (i, c) in flat.chunks(1024).enumerate() {
        let mut b = c.to_vec();
        b.resize(1024, 0);
        tapdisk.set_block(i as u64, b);
    }
    let chunk = src.range(1, 700) as usize;
    // The readers themselves.
    for _ in 0..4 {
        let start = match src.below(4) {
            0 => src.below(flat.len() as u64 + 2),
            1 => (flat.len() as u64).saturating_sub(src.below(3000)),
            2 => src.edgy64().min(i64::MAX as u64),
            _ => src.below(4096),
        };
        let len = src.size(0, 9000) as usize;
        let end = start.checked_add(len as u64);
        let valid = matches!(end, Some(e) if e <= flat.len() as u64);
        let mut a = vec![7u8; len];
        let mut b = vec![9u8; len];
        let ra = flat.read(start, &mut a);
        let rb = open_read(open(), start, &mut b);
        if valid {
            ensure!(ra.is_ok() && rb.is_ok(), "reader:error", "reader: {len} bytes at {start} of {}: Vec {ra:?}, File {rb:?}", flat.len());
            let w = &flat[start as usize..start as usize + len];
            ensure!(a == w && b == w, "reader:content", "reader: {len} bytes at {start} of {}: wrong content", flat.len());
        } else if len > 0 {
            ensure!(ra.is_err() && rb.is_err(), "reader:bounds", "reader: {len} bytes at {start} of {}: Vec {ra:?}, File {rb:?}", flat.len());
        }
    }
    let tap = Tap::new(tapdisk);
    let routes: Vec<(&str, Result<Ext4, Ext4Error>)> = vec![
        ("Vec", Ext4::load(Box::new(flat.clone()))),
        ("File", Ext4::load(Box::new(open()))),
        ("path", Ext4::load_from_path(&file.0)),
        ("custom", Ext4::load(Box::new(TapReader(tap)))),
        ("chunked", Ext4::load(Box::new(Chunky(flat.clone(), chunk)))),
    ];
    let show = |r: &Result<Ext4, Ext4Error>| match r {
        Ok(_) => "ok".to_string(),
        Err(e) => kind(e).to_string(),
    };
    for (n, r) in &routes {
        ensure!(show(r) == show(&routes[0].1), "route:load", "load through {n}: {}, through Vec: {}; {desc}", show(r), show(&routes[0].1));
        if !cut {
            ensure!(r.is_ok(), "route:load", "load through {n}: {}; {desc}", show(r));
        }
    }
    if routes[0].1.is_err() {
        return Ok(());
    }
    let fss: Vec<(&str, Ext4)> = routes.into_iter().map(|(n, r)| (n, r.ok().unwrap())).collect();
    for (n, f) in &fss {
        ensure!(f.label() == fss[0].1.label() && f.uuid() == fss[0].1.uuid(), "route:label", "label or UUID through {n} differs; {desc}");
    }
    let mut ops = tour(&img);
    let paths = sampled_paths(&img);
    for _ in 0..5 {
        let p = src.pick(&paths).0.clone();
        ops.push(gen_op(src, p));
    }
    let budget = Budget::new(400_000_000);
    for op in &ops {
        tick();
        if !budget.left() {
            ctx.label("cut short: work budget");
            break;
        }
        let a = exec(&fss[0].1, op);
        for (n, f) in &fss[1..] {
            ctx.ops += 1;
            let b = exec(f, op);
            ensure!(a == b, "route:result", "{op:?} through {n}: {b:?}, through Vec: {a:?}; {desc}");
        }
    }
    if cut {
        return Ok(());
    }
    // Routes to the same object.
    let fs = &src.pick(&fss).1;
    for (p, n) in &paths {
        let mut info = RInfo::default();
        let node = &img.nodes[*n];
        if !(node.is_reg() || node.is_link()) || node.encrypted {
            continue;
        }
        if !budget.left() {
            break;
        }
        let Ok((t, _)) = resolve(&img, p, true, &mut info) else { continue };
        if !img.nodes[t].is_reg() || img.nodes[t].encrypted || info.maybe_long || img.nodes[t].size > 4 << 20 {
            continue;
        }
        let d = |w: &str, e: String| Fail::new(format!("same:{w}"), format!("{w} of {:?}: {e}; {desc}", String::from_utf8_lossy(p)));
        let es = |e: Ext4Error| format!("{e:?}");
        let whole = fs.read(p.as_slice()).map_err(|e| d("read", es(e)))?;
        let want = img.file_bytes(t, 0, img.nodes[t].size);
        ensure!(diff(&want, &whole).is_none(), "same:read", "read of {:?} is wrong; {desc}", String::from_utf8_lossy(p));
        if !whole.is_empty() {
            ctx.nontrivial = true;
        }
        // Incremental.
        let mut f = fs.open(p.as_slice()).map_err(|e| d("open", es(e)))?;
        let mut inc = Vec::new();
        let step = src.range(1, 3 * img.geo.bs) as usize;
        loop {
            let mut b = vec![0u8; step];
            let k = f.read_bytes(&mut b).map_err(|e| d("read_bytes", es(e)))?;
            if k == 0 {
                break;
            }
            inc.extend_from_slice(&b[..k]);
        }
        ensure!(inc == whole, "same:incremental", "incremental read of {:?} by {step} differs; {desc}", String::from_utf8_lossy(p));
        // std.
        let mut f = fs.open(p.as_slice()).map_err(|e| d("open", es(e)))?;
        let mut v = Vec::new();
        f.read_to_end(&mut v).map_err(|e| d("read_to_end", format!("{e:?}")))?;
        ensure!(v == whole, "same:std", "std read of {:?} differs; {desc}", String::from_utf8_lossy(p));
        f.seek(SeekFrom::Start(0)).map_err(|e| d("seek", format!("{e:?}")))?;
        let mut v = Vec::new();
        std::io::copy(&mut f, &mut v).map_err(|e| d("copy", format!("{e:?}")))?;
        ensure!(v == whole, "same:std", "std copy of {:?} differs; {desc}", String::from_utf8_lossy(p));
        let fm = meta_str(f.metadata());
        // String.
        match (fs.read_to_string(p.as_slice()), std::str::from_utf8(&whole)) {
            (Ok(s), Ok(w)) => {
                ensure!(s == w, "same:string", "string of {:?} differs; {desc}", String::from_utf8_lossy(p));
                ctx.label("string read of UTF-8");
                if !w.is_ascii() {
                    ctx.label("string read of non-ASCII UTF-8");
                }
                let mut f = fs.open(p.as_slice()).map_err(|e| d("open", es(e)))?;
                let mut s2 = String::new();
                f.read_to_string(&mut s2).map_err(|e| d("std string", format!("{e:?}")))?;
                ensure!(s2 == w, "same:string", "std string of {:?} differs; {desc}", String::from_utf8_lossy(p));
            }
            (Err(Ext4Error::NotUtf8), Err(_)) => {}
            (r, w) => fail!("same:string", "string read of {:?} gives {:?}, valid: {}; {desc}", String::from_utf8_lossy(p), r.map(|s| s.len()), w.is_ok()),
        }
        // Metadata.
        let pm = fs.metadata(p.as_slice()).map_err(|e| d("metadata", es(e)))?;
        ensure!(meta_str(&pm) == fm, "same:metadata", "metadata of {:?}: path {}, open file {fm}; {desc}", String::from_utf8_lossy(p), meta_str(&pm));
        // Canonical path.
        let c: PathBuf = fs.canonicalize(p.as_slice()).map_err(|e| d("canonicalize", es(e)))?;
        let v = fs.read(&c).map_err(|e| d("read canonical", es(e)))?;
        ensure!(v == whole, "same:canonical", "read of {c:?} differs from {:?}; {desc}", String::from_utf8_lossy(p));
        let cm = fs.symlink_metadata(&c).map_err(|e| d("symlink_metadata", es(e)))?;
        ensure!(meta_str(&cm) == fm, "same:metadata", "metadata of canonical {c:?}: {}, open file {fm}; {desc}", meta_str(&cm));
        ctx.ops += 8;
    }
    // Listed entries.
    let budget = Budget::new(200_000_000);
    for (p, n) in &paths {
        if !img.nodes[*n].is_dir() || img.nodes[*n].encrypted || !reachable(&img, p) {
            continue;
        }
        let it = match fs.read_dir(p.as_slice()) {
            Ok(it) => it,
            Err(e) => fail!("same:read_dir", "read_dir {p:?}: {e:?}; {desc}"),
        };
        for (k, e) in it.enumerate() {
            if k > 20 || !budget.left() {
                break;
            }
            let e = match e {
                Ok(e) => e,
                Err(e) => fail!("same:read_dir", "iteration of {p:?}: {e:?}; {desc}"),
            };
            let ep = e.path();
            if ep.as_ref().len() > 4000 {
                continue;
            }
            let em = e.metadata().map(|m| meta_str(&m)).map_err(|x| format!("{x:?}"));
            let sm = fs.symlink_metadata(&ep).map(|m| meta_str(&m)).map_err(|x| format!("{x:?}"));
            let special = matches!(e.file_name().as_ref(), b"." | b"..");
            ctx.ops += 1;
            ensure!(em == sm, "same:entry-metadata", "metadata of entry {ep:?}: {em:?}, of its path: {sm:?}; {desc}");
            let _ = special;
            let ft = e.file_type().map(ftype_code).map_err(|x| format!("{x:?}"));
            let mt = e.metadata().map(|m| ftype_code(m.file_type())).map_err(|x| format!("{x:?}"));
            ensure!(ft == mt, "same:entry-type", "type of entry {ep:?}: {ft:?}, by its metadata {mt:?}; {desc}");
        }
    }
    if ctx.want_sample {
        ctx.sample = desc;
    }
    Ok(())
}

fn open_read(mut f: std::fs::File, start: u64, dst: &mut [u8]) -> Result<(), Box<dyn Error + Send + Sync>> {
    Ext4Read::read(&mut f, start, dst)
}

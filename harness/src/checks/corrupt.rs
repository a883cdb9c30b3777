//! C10 checksums, C11 arbitrary input, C12 bounded work.

use crate::engine::*;
use crate::img::*;
use crate::ops::*;
use crate::world::*;
use crate::{ensure, fail};
use super::meta::show;
use ext4_view::Ext4;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C10",
            run: c10,
            quick: 2000,
            thorough: 30000,
            rule: "case = generated checksummed image (one in five with a journal to replay) and 10 drawn alterations of one or two checksummed structures (superblock, descriptors, inodes, directory leaves and index blocks, extent nodes, journal superblock) whose checksum is then wrong by the harness's own CRC; every operation of a full tour must fail or give what it gave before; non-trivial: at least 5 alterations with a wrong checksum, and some operation failed because of one",
        },
    ]
}

/// What one operation shows: a list of values and errors.
fn look(fs: &Ext4, op: &Op) -> Vec<Result<String, String>> {
    let mut out = Vec::new();
    if let Op::ReadDir(p) = op {
        tick();
        match fs.read_dir(p.as_slice()) {
            Err(e) => out.push(Err(format!("{e:?}"))),
            Ok(it) => {
                for e in it {
                    match e {
                        Ok(e) => {
                            out.push(Ok(format!("{:?} {:?} {:?}", e.file_name().as_ref(), e.path().as_ref() as &[u8], e.file_type().map(ftype_code).ok())));
                            out.push(e.metadata().map(|m| meta_str(&m)).map_err(|e| format!("{e:?}")));
                        }
                        Err(e) => {
                            out.push(Err(format!("{e:?}")));
                            return out;
                        }
                    }
                }
                out.push(Ok("end".into()));
            }
        }
    } else {
        match exec(fs, op) {
            Obs::Ok(s) => out.push(Ok(s)),
            Obs::Err(_, s) => out.push(Err(s)),
        }
    }
    out
}

const REFS: [&str; 7] = ["superblock", "group descriptor", "inode", "directory leaf", "directory index", "extent node", "journal superblock"];

fn c10(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut cfg = super::meta::small_cfg();
    cfg.csum = Some(true);
    cfg.kinds = [4, 4, 3, 1];
    cfg.bigdir_pct = 35;
    cfg.max_log_bs = if src.chance(1, 6) { 6 } else { 2 };
    let w = World::gen(src, &cfg, 20);
    let desc = match &w.hist {
        Some(h) => h.describe(),
        None => w.img.describe(),
    };
    let fs = match load(&w.disk) {
        Ok(f) => f,
        Err(e) => fail!("valid:refused", "{e:?}; {desc}"),
    };
    let mut ops = Vec::new();
    let mut want = Vec::new();
    let b = Budget::new(30_000_000);
    for op in tour(&w.img) {
        if !b.left() {
            break;
        }
        let o = look(&fs, &op);
        for x in &o {
            if let Err(e) = x {
                ensure!(!e.contains("Checksum"), "valid:checksum", "{} {}: {e}; {desc}", op.name(), show(op.path()));
            }
        }
        want.push(o);
        ops.push(op);
    }
    ctx.ops += ops.len() as u64;
    let all: Vec<S> = w.structures().into_iter().filter(|s| REFS.contains(&s.name())).collect();
    let kinds: Vec<&str> = REFS.iter().copied().filter(|k| all.iter().any(|s| s.name() == *k)).collect();
    // What says where the journal is.
    let jext: Vec<S> = all.iter().copied().filter(|s| matches!(s, S::Ext(n, _) if w.hist.as_ref().is_some_and(|h| h.jnode == *n))).collect();
    let mut wrong = 0;
    let mut seen = 0u64;
    for _ in 0..10 {
        let mut m = w.clone();
        let mut what = Vec::new();
        let mut skip = false;
        for _ in 0..if src.chance(1, 5) { 2 } else { 1 } {
            let decoy = if src.chance(1, 6) { m.decoy(src) } else { None };
            if decoy.is_some() {
                ctx.label("pointer to a changed copy");
            }
            let (s, old, mut b, mut d) = match decoy {
                Some((s, b, d)) => (s, m.get(s), b, d),
                None => {
                    let k = *src.pick(&kinds);
                    let of: Vec<S> = all.iter().copied().filter(|s| s.name() == k).collect();
                    let mut s = *src.pick(&of);
                    if !jext.is_empty() && src.chance(1, 5) {
                        s = *src.pick(&jext);
                        ctx.label("extent node of the journal");
                    }
                    let old = m.get(s);
                    let mut b = old.clone();
                    let mut d = m.alter(src, s, &mut b);
                    for _ in 0..src.weighted(&[6, 3, 2]) {
                        d += &m.alter(src, s, &mut b);
                    }
                    // The bytes of the tail that no checksum covers.
                    if matches!(s, S::Dir(..)) && src.chance(1, 4) {
                        let o = b.len() - 12;
                        match src.below(3) {
                            0 => b[o..o + 8].fill(0),
                            1 => {
                                let x = src.bytes(8);
                                b[o..o + 8].copy_from_slice(&x);
                            }
                            _ => b[o + *src.pick(&[0usize, 4, 5, 6, 7, 7])] = *src.pick(&[0u8, 1, 2, 0xdf, 0xff]),
                        }
                        d += ", tail";
                    }
                    (s, old, b, d)
                }
            };
            // Checksum fields with values that a reader might take
            // specially.
            if src.chance(1, 8) {
                let x = *src.pick(&[0u8, 0xff]);
                for (o, n) in m.csum_at(s, &b) {
                    if o + n <= b.len() {
                        b[o..o + n].fill(x);
                    }
                }
                d += &format!(", checksum {x:#x}..");
            }
            if s == S::Sb && g32(&b, 0x64) & R_METADATA_CSUM == 0 {
                skip = true;
            }
            if b == old || m.valid(s, &b) {
                skip = true;
            }
            m.put(s, &b);
            what.push(d);
        }
        if skip {
            ctx.count("alterations without effect on a checksum", 1);
            continue;
        }
        wrong += 1;
        for k in what.iter() {
            let n = k.split(['+', ' ']).next().unwrap_or("");
            let n = n.split('(').next().unwrap_or("");
            ctx.label(&format!("altered {n}"));
        }
        let f2 = match load(&m.disk) {
            Ok(f) => f,
            Err(_) => {
                seen += 1;
                ctx.label("refused at load");
                continue;
            }
        };
        let l = (f2.label().as_bytes().to_vec(), *f2.uuid().as_bytes());
        ensure!(l == (fs.label().as_bytes().to_vec(), *fs.uuid().as_bytes()), "altered:superblock", "{what:?}: label or UUID {l:?}; {desc}");
        let bud = Budget::new(60_000_000);
        let mut failed = false;
        for (op, w0) in ops.iter().zip(&want) {
            if !bud.left() {
                break;
            }
            let o = look(&f2, op);
            ctx.ops += 1;
            for (i, x) in o.iter().enumerate() {
                match x {
                    Err(_) => {
                        if w0.get(i).is_none_or(|y| y.is_ok()) {
                            failed = true;
                        }
                    }
                    Ok(x) => {
                        let y = w0.get(i);
                        ensure!(
                            matches!(y, Some(Ok(y)) if y == x),
                            "altered:trusted",
                            "{what:?}: {} {} gives {x:?} (item {i}), {y:?} before; {desc}",
                            op.name(),
                            show(op.path())
                        );
                    }
                }
            }
        }
        if failed {
            seen += 1;
            ctx.label("noticed by operations");
        }
    }
    if wrong >= 5 && seen > 0 {
        ctx.nontrivial = true;
    }
    if ctx.want_sample {
        ctx.sample = desc;
    }
    Ok(())
}

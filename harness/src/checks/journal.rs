//! C08 journal replay, C09 crashes and damaged logs.

use crate::disk::Disk;
use crate::engine::*;
use crate::img::*;
use crate::journal::*;
use crate::ops::*;
use crate::fail;
use super::meta::show;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C08",
            run: c08,
            quick: 4000,
            thorough: 30000,
            rule: "case = drawn history of transactions (creations, removals, renames, overwrites, superblock changes, repeated copies, revocations) on a generated image, laid out in a circular log, compared through a full tour with the same filesystem with the history applied, and with the model; non-trivial: some block of the filesystem differs from its newest copy in the log",
        },
        Prop {
            id: "C09",
            run: c09,
            quick: 2400,
            thorough: 25000,
            rule: "case = drawn history and 6 drawn crash points (log cut anywhere, last transaction with missing blocks, stale tail) or damaged log blocks; the result must be the state after a prefix of the transactions, the one the damage allows; non-trivial: at least one crash inside a transaction or one damaged block, and 2 different states",
        },
    ]
}

fn hist_cfg(src: &mut Src) -> (Cfg, HistCfg) {
    let mut cfg = Cfg { max_nodes: src.range(2, 8), huge_pct: 5, bigdir_pct: 15, bigdir_max: 60, big_sparse: false, ..Default::default() };
    cfg.maps = [1, 4, 3, 0, 3, 2];
    cfg.max_log_bs = if src.chance(5, 6) { 2 } else { 6 };
    let hc = HistCfg { max_txs: if src.chance(1, 8) { 14 } else { 5 }, bulk_pct: 6, revokes: src.chance(3, 4), all: src.chance(1, 6), min_len: 0 };
    (cfg, hc)
}

/// All that a full tour shows.
fn observe(disk: &Disk, img: &Img) -> Result<Vec<(Op, Obs)>, Obs> {
    let fs = match load(disk) {
        Ok(fs) => fs,
        Err(e) => return Err(Obs::Err(kind(&e), format!("{e:?}"))),
    };
    let l = fs.label().as_bytes().to_vec();
    let mut out = vec![(Op::Exists(b"(label)".to_vec()), Obs::Ok(format!("{l:?} {:?}", fs.uuid())))];
    let b = Budget::new(40_000_000);
    for op in tour(img) {
        if !b.left() {
            break;
        }
        let o = exec(&fs, &op);
        out.push((op, o));
    }
    Ok(out)
}

/// First difference.
fn differ(a: &[(Op, Obs)], b: &[(Op, Obs)]) -> Option<String> {
    for (x, y) in a.iter().zip(b) {
        if x.1 != y.1 {
            return Some(format!("{} {}: {:?} should be {:?}", x.0.name(), show(x.0.path()), x.1, y.1));
        }
    }
    None
}

fn hist_labels(h: &History, ctx: &mut Ctx) {
    ctx.count("transactions", h.txs.len() as u64);
    ctx.count("log blocks", h.log.len() as u64);
    if h.at(h.log.len().max(1) - 1) < h.jsb.start as usize {
        ctx.label("log wraps");
    }
    let n = (h.jsb.maxlen - h.jsb.first) as usize;
    if h.log.len() == n {
        ctx.label("log full");
    }
    if h.txs.iter().any(|t| t.writes.iter().any(|w| w.0 > u32::MAX as u64)) {
        ctx.label("64-bit block in log");
    }
    if h.jsb.sequence.checked_add(h.txs.len() as u32).is_none() {
        ctx.label("sequence wraps");
    }
    if h.txs.iter().any(|t| t.writes.iter().any(|w| t.revokes.contains(&w.0))) {
        ctx.label("logged and revoked in one transaction");
    }
    if h.txs.iter().any(|t| t.writes.iter().enumerate().any(|(i, w)| t.writes[..i].iter().any(|x| x.0 == w.0))) {
        ctx.label("logged twice in one transaction");
    }
    let mut hidden = false;
    let mut again = false;
    for (i, t) in h.txs.iter().enumerate() {
        for r in &t.revokes {
            if h.txs[..i].iter().any(|u| u.writes.iter().any(|w| w.0 == *r)) {
                hidden = true;
                if h.txs[i + 1..].iter().any(|u| u.writes.iter().any(|w| w.0 == *r)) {
                    again = true;
                }
            }
        }
    }
    if hidden {
        ctx.label("revocation hides a copy");
    }
    if again {
        ctx.label("copied again after revocation");
    }
    for t in 0..h.txs.len() {
        let d = h.log.iter().filter(|b| b.tx == t && b.part == Part::Descriptor).count();
        if d > 1 {
            ctx.label("several descriptors");
        }
        let d = h.log.iter().filter(|b| b.tx == t && b.part == Part::Revoke).count();
        if d > 1 {
            ctx.label("several revocation blocks");
        }
    }
    ctx.label(&format!("block size {}", h.jsb.bs));
}

/// Blocks whose home content is not what the log says.
fn stale_home(h: &History, d: &Disk, k: usize) -> u64 {
    h.effective(k).keys().filter(|b| d.block(**b) != h.states[k].disk.block(**b)).count() as u64
}

fn c08(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (cfg, hc) = hist_cfg(src);
    let mut h = gen_history(src, &cfg, &hc);
    let n = h.txs.len();
    hist_labels(&h, ctx);
    let mode = src.weighted(&[7, 1, 1]);
    let (disk, k) = match mode {
        0 => {
            let mut d = h.base(src, n);
            h.write_old_log(src, &mut d);
            h.write_log(&mut d, h.log.len(), &|_| false);
            (d, n)
        }
        1 => {
            // An empty log (start 0), with an intact one in its place.
            ctx.label("empty log");
            let k = src.below(n as u64 + 1) as usize;
            let mut d = h.states[k].disk.clone();
            let start = h.jsb.start;
            h.jsb.start = 0;
            d.set_block(h.map[0], h.jsb.bytes());
            h.jsb.start = start;
            h.write_log(&mut d, h.log.len(), &|_| false);
            (d, k)
        }
        _ => {
            // No recovery needed, whatever the journal holds.
            ctx.label("clean");
            let k = src.below(n as u64 + 1) as usize;
            let mut d = h.clean_disk(k);
            match src.below(3) {
                0 => {
                    h.write_old_log(src, &mut d);
                    h.write_log(&mut d, h.log.len(), &|_| false);
                }
                1 => {
                    let mut b = h.jsb.bytes();
                    b[src.below(128) as usize] ^= 1 << src.below(8);
                    d.set_block(h.map[0], b);
                    h.write_log(&mut d, h.log.len(), &|_| false);
                }
                _ => {
                    let s = &h.states[k];
                    let mut sb = s.sb_bytes();
                    let f = g32(&sb, 0x60) & !4;
                    p32(&mut sb, 0x60, f);
                    let f = g32(&sb, 0x5c) & !4;
                    p32(&mut sb, 0x5c, f);
                    reseal_sb(&mut sb, s.geo.csum);
                    d.write_at(1024, &sb);
                    h.write_log(&mut d, h.log.len(), &|_| false);
                }
            }
            (d, k)
        }
    };
    let stale = if mode == 0 { stale_home(&h, &disk, n) } else { h.effective(n).keys().filter(|b| h.states[k].disk.block(**b) != h.states[n].disk.block(**b)).count() as u64 };
    ctx.count("blocks differing from the log", stale);
    let want = match observe(&h.clean_disk(k), &h.states[k]) {
        Ok(w) => w,
        Err(e) => fail!("clean:load", "clean state {k}: {e:?}; {}", h.describe()),
    };
    let got = match observe(&disk, &h.states[k]) {
        Ok(w) => w,
        Err(e) => fail!("load", "{e:?}; {}", h.describe()),
    };
    if let Some(d) = differ(&got, &want) {
        let also = (0..=n).filter(|i| *i != k).find(|i| observe(&h.clean_disk(*i), &h.states[k]).is_ok_and(|w| differ(&got, &w).is_none()));
        fail!("replay", "state {k} of {n}: {d} (looks like state {also:?}); {}", h.describe());
    }
    ctx.ops += got.len() as u64;
    // Other route: the model.
    let fs = load(&disk).map_err(|e| Fail::new("load", format!("{e:?}")))?;
    super::meta::check_all(&h.states[k], &fs, src, ctx)?;
    if stale > 0 {
        ctx.nontrivial = true;
        if ctx.want_sample {
            ctx.sample = h.describe();
        }
    }
    Ok(())
}

/// Damage one log block; false if nothing changed.
fn damage(src: &mut Src, h: &History, disk: &mut Disk, pos: usize) -> Option<String> {
    let b = &h.log[pos];
    let phys = h.map[h.at(pos)];
    let mut v = b.data.clone();
    let len = v.len() as u64;
    // Fields are at the start and at the end.
    let spot = |src: &mut Src| -> usize {
        (match src.below(3) {
            0 => src.below(80.min(len)),
            1 => len - 1 - src.below(16),
            _ => src.below(len),
        }) as usize
    };
    let what;
    match src.weighted(&[6, 3, 2, 3, 1, 1, 2]) {
        6 if !matches!(b.part, Part::Data(_)) => {
            // Another header, with a right checksum: a block of an
            // earlier pass or of a kind not known.
            let seed = h.jsb.seed();
            if src.chance(1, 2) {
                let k = *src.pick(&[0, 3, 4, 6, 7, 0x100, 0xffff_ffff]);
                pb32(&mut v, 4, k);
                what = format!("of kind {k}");
            } else {
                let x = gb32(&v, 8);
                let y = *src.pick(&[x.wrapping_sub(1), x.wrapping_add(1), 0, x.wrapping_sub(h.txs.len() as u32), x ^ 0x8000_0000, x.swap_bytes()]);
                if x == y {
                    return None;
                }
                pb32(&mut v, 8, y);
                what = format!("of transaction {y:#x} for {x:#x}");
            }
            if matches!(b.part, Part::Commit) {
                seal_commit(&mut v, seed);
            } else {
                seal_tail(&mut v, seed);
            }
        }
        0 | 6 => {
            let i = spot(src);
            let bit = src.below(8);
            v[i] ^= 1 << bit;
            what = format!("bit {bit} of byte {i}");
        }
        1 => {
            let i = spot(src);
            let l = src.size(1, 600).min(len - i as u64) as usize;
            for x in &mut v[i..i + l] {
                *x = src.below(256) as u8;
            }
            what = format!("bytes {i}+{l}");
        }
        2 => {
            v = vec![0; len as usize];
            what = "zeroed".into();
        }
        3 => {
            let o = src.below(h.log.len() as u64) as usize;
            let x = &h.log[o];
            if x.tx == b.tx && !matches!(x.part, Part::Data(_)) {
                return None;
            }
            v = x.data.clone();
            what = format!("replaced by log block {o}");
        }
        4 => {
            // Only the first part was written.
            let i = src.below(len) as usize;
            let old = disk.block(h.map[src.below(h.map.len() as u64) as usize]);
            v[i..].copy_from_slice(&old[i..]);
            what = format!("torn at {i}");
        }
        _ => {
            let i = spot(src) & !3;
            let x = gb32(&v, i);
            let y = match src.below(3) {
                0 => x.wrapping_add(1),
                1 => src.u32(),
                _ => x.swap_bytes(),
            };
            pb32(&mut v, i, y);
            what = format!("word {i}: {x:x} to {y:x}");
        }
    }
    // Blocks that end in their own CRC (extent nodes of one inode) have
    // equal checksums: no reader could tell.
    let seq = h.jsb.sequence.wrapping_add(b.tx as u32);
    if tag_csum(h.jsb.seed(), seq, &v) == tag_csum(h.jsb.seed(), seq, &b.data) {
        return None;
    }
    // Nor could it if this is now another such block of the transaction.
    if h.log.iter().any(|x| x.tx == b.tx && !matches!(x.part, Part::Data(_)) && x.data == v) {
        return None;
    }
    disk.set_block(phys, v);
    Some(format!("{:?} block {pos} of transaction {}: {what}", b.part, b.tx))
}

fn c09(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (cfg, hc) = hist_cfg(src);
    let h = gen_history(src, &cfg, &hc);
    let n = h.txs.len();
    hist_labels(&h, ctx);
    let ends = h.boundaries();
    let mut wants: std::collections::BTreeMap<usize, Vec<(Op, Obs)>> = Default::default();
    let mut inside = 0;
    for _ in 0..6 {
        if h.log.is_empty() {
            break;
        }
        let mut may_fail = false;
        let (disk, k, what) = if src.chance(1, 2) {
            // A crash.
            let p = src.below(h.log.len() as u64 + 1) as usize;
            let mut k = ends.iter().filter(|e| **e <= p).count();
            let lo = if k == 0 { 0 } else { ends[k - 1] };
            let mut p = p;
            let mut skip = Vec::new();
            if k < n && src.chance(1, 2) {
                // Any of the blocks of the last transaction are there.
                p = ends[k];
                if src.chance(1, 2) {
                    skip.push(lo + src.below((p - lo) as u64) as usize);
                } else {
                    let m = src.u64();
                    let q = src.range(2, 4);
                    skip.extend((lo..p).filter(|i| crate::rng::mix(m ^ *i as u64) % q == 0));
                }
            }
            // `k` transactions are complete; what the base holds must
            // not depend on the incomplete one.
            let mut d = h.base(src, k);
            h.write_old_log(src, &mut d);
            h.write_log(&mut d, p, &|i| skip.contains(&i));
            while k < n && (lo..ends[k]).all(|i| d.block(h.map[h.at(i)]) == h.log[i].data) && p >= ends[k] {
                // Nothing is missing after all.
                k += 1;
                d = h.base(src, k);
                h.write_old_log(src, &mut d);
                h.write_log(&mut d, p, &|_| false);
                break;
            }
            if p > lo && k < n {
                inside += 1;
                ctx.label("crash inside a transaction");
            }
            if !skip.is_empty() {
                ctx.label("blocks missing");
            }
            (d, k, format!("crash at {p} of {} (transactions end at {ends:?}), missing {skip:?}", h.log.len()))
        } else {
            let pos = src.below(h.log.len() as u64) as usize;
            let k = h.log[pos].tx;
            let mut d = h.base(src, k);
            h.write_old_log(src, &mut d);
            h.write_log(&mut d, h.log.len(), &|_| false);
            let Some(w) = damage(src, &h, &mut d, pos) else { continue };
            may_fail = true;
            inside += 1;
            ctx.label(&format!("damage: {}", match h.log[pos].part {
                Part::Data(_) => "data",
                Part::Commit => "commit",
                Part::Revoke => "revocation",
                Part::Descriptor => "descriptor",
            }));
            (d, k, w)
        };
        if !wants.contains_key(&k) {
            match observe(&h.clean_disk(k), &h.states[k]) {
                Ok(w) => wants.insert(k, w),
                Err(e) => fail!("clean:load", "clean state {k}: {e:?}; {}", h.describe()),
            };
        }
        let want = &wants[&k];
        let got = match observe(&disk, &h.states[k]) {
            Ok(w) => w,
            Err(e) if may_fail => {
                ctx.label(&format!("refused: {}", e.kind()));
                continue;
            }
            Err(e) => fail!("load", "{e:?}; {what}; {}", h.describe()),
        };
        if let Some(d) = differ(&got, want) {
            let also = (0..=n).filter(|i| *i != k).find(|i| observe(&h.clean_disk(*i), &h.states[k]).is_ok_and(|w| differ(&got, &w).is_none()));
            fail!("prefix", "{what}: state {k} of {n}: {d} (looks like state {also:?}); {}", h.describe());
        }
        ctx.ops += got.len() as u64;
    }
    if inside > 0 && n > 0 && (0..n).any(|i| h.effective(i + 1).keys().any(|b| h.states[i].disk.block(*b) != h.states[i + 1].disk.block(*b))) {
        ctx.nontrivial = true;
        if ctx.want_sample {
            ctx.sample = h.describe();
        }
    }
    Ok(())
}

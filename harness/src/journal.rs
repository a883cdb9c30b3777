//! Histories of a journalled filesystem and their logs.
//!
//! A history is a list of states (complete disks with their models).
//! Between two states, every changed block is journalled, or revoked
//! and written in place, or (when no earlier copy of it is in the log)
//! written in place; unchanged blocks may be journalled again and any
//! block may be revoked. The disk as found after a crash in which the
//! first k transactions are complete holds, for blocks with a live
//! copy in the log, any older version, and for all others the version
//! of state k. A correct reader shows state k.

use crate::crc::crc32c;
use crate::disk::Disk;
use crate::engine::Src;
use crate::img::*;
use crate::rng::{mix, Rng};
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

pub const MAGIC: u32 = 0xc03b_3998;

pub fn pb32(b: &mut [u8], o: usize, v: u32) {
    b[o..o + 4].copy_from_slice(&v.to_be_bytes());
}
pub fn gb32(b: &[u8], o: usize) -> u32 {
    u32::from_be_bytes(b[o..o + 4].try_into().unwrap())
}

#[derive(Clone, Default)]
pub struct Tx {
    /// Block number -> contents, in log order.
    pub writes: Vec<(u64, Rc<Vec<u8>>)>,
    pub revokes: Vec<u64>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Part {
    Descriptor,
    Data(u64),
    Revoke,
    Commit,
}

#[derive(Clone)]
pub struct LogBlock {
    pub tx: usize,
    pub part: Part,
    pub data: Vec<u8>,
}

#[derive(Clone)]
pub struct Jsb {
    pub bs: u64,
    pub maxlen: u32,
    pub first: u32,
    pub sequence: u32,
    pub start: u32,
    pub compat: u32,
    pub incompat: u32,
    pub ro: u32,
    pub uuid: [u8; 16],
    pub noise: u64,
}

impl Jsb {
    pub fn seed(&self) -> u32 {
        crc32c(!0, &self.uuid)
    }
    /// The journal superblock; `fill` is what follows it in the block.
    pub fn bytes(&self) -> Vec<u8> {
        let mut b = vec![0u8; self.bs as usize];
        pb32(&mut b, 0, MAGIC);
        pb32(&mut b, 4, 4);
        pb32(&mut b, 0xc, self.bs as u32);
        pb32(&mut b, 0x10, self.maxlen);
        pb32(&mut b, 0x14, self.first);
        pb32(&mut b, 0x18, self.sequence);
        pb32(&mut b, 0x1c, self.start);
        pb32(&mut b, 0x24, self.compat);
        pb32(&mut b, 0x28, self.incompat);
        pb32(&mut b, 0x2c, self.ro);
        b[0x30..0x40].copy_from_slice(&self.uuid);
        pb32(&mut b, 0x40, 1);
        b[0x50] = 4;
        let mut r = Rng(self.noise);
        if r.below(2) == 0 {
            // Unused by readers: head hint, users.
            pb32(&mut b, 0x58, r.next() as u32);
            Disk::fill_noise(&mut r, &mut b[0x100..0x110]);
        }
        seal_jsb(&mut b);
        b
    }
}

pub fn seal_jsb(b: &mut [u8]) {
    pb32(b, 0xfc, 0);
    let c = crc32c(!0, &b[..1024]);
    pb32(b, 0xfc, c);
}

/// Checksum in the last four bytes (descriptor and revocation blocks).
pub fn seal_tail(b: &mut [u8], seed: u32) {
    let n = b.len();
    pb32(b, n - 4, 0);
    let c = crc32c(seed, b);
    pb32(b, n - 4, c);
}

pub fn seal_commit(b: &mut [u8], seed: u32) {
    pb32(b, 16, 0);
    let c = crc32c(seed, b);
    pb32(b, 16, c);
}

pub fn tag_csum(seed: u32, seq: u32, data: &[u8]) -> u32 {
    crc32c(crc32c(seed, &seq.to_be_bytes()), data)
}

fn header(bs: u64, kind: u32, seq: u32) -> Vec<u8> {
    let mut b = vec![0u8; bs as usize];
    pb32(&mut b, 0, MAGIC);
    pb32(&mut b, 4, kind);
    pb32(&mut b, 8, seq);
    b
}

/// How a transaction is written.
#[derive(Clone, Copy, Debug)]
pub struct Style {
    /// At most this many tags in a descriptor.
    pub tag_cap: usize,
    /// At most this many entries in a revocation block.
    pub revoke_cap: usize,
    /// Use every byte of a descriptor that the format allows.
    pub tight: bool,
    /// Repeat the UUID in some later tags.
    pub uuids: bool,
    /// Where revocation blocks go: 0 first, 1 last, 2 in between.
    pub revoke_at: u64,
    pub noise: u64,
}

/// The log blocks of one transaction.
pub fn encode_tx(j: &Jsb, tx: &Tx, txi: usize, seq: u32, st: Style) -> Vec<LogBlock> {
    let bs = j.bs as usize;
    let seed = j.seed();
    let mut out: Vec<Vec<LogBlock>> = Vec::new();
    let mut r = Rng(st.noise);
    // Revocations.
    let mut rev = Vec::new();
    let cap = ((bs - 16 - 4) / 8).min(st.revoke_cap.max(1));
    for chunk in tx.revokes.chunks(cap) {
        let mut b = header(j.bs, 5, seq);
        pb32(&mut b, 12, 16 + 8 * chunk.len() as u32);
        for (i, x) in chunk.iter().enumerate() {
            b[16 + i * 8..24 + i * 8].copy_from_slice(&x.to_be_bytes());
        }
        seal_tail(&mut b, seed);
        rev.push(LogBlock { tx: txi, part: Part::Revoke, data: b });
    }
    // Descriptors.
    let mut i = 0;
    while i < tx.writes.len() {
        let mut b = header(j.bs, 1, seq);
        let mut group = Vec::new();
        let mut off = 12;
        let mut n = 0;
        let end = bs - 4;
        let mut last_flags;
        loop {
            let (blk, data) = &tx.writes[i];
            let uuid = n == 0 || (st.uuids && r.below(4) == 0 && off + 32 <= end);
            let size = if uuid { 32 } else { 16 };
            // Readers take no notice of the flag for deleted blocks.
            let gone = if r.below(16) == 0 { 4 } else { 0 };
            let flags = if uuid { gone } else { 2 | gone };
            pb32(&mut b, off, *blk as u32);
            pb32(&mut b, off + 4, flags);
            pb32(&mut b, off + 8, (*blk >> 32) as u32);
            pb32(&mut b, off + 12, tag_csum(seed, seq, data));
            if uuid {
                b[off + 16..off + 32].copy_from_slice(&j.uuid);
            }
            last_flags = off + 4;
            off += size;
            n += 1;
            group.push(LogBlock { tx: txi, part: Part::Data(*blk), data: (**data).clone() });
            i += 1;
            let need = if st.tight { 16 } else { 32 };
            if i >= tx.writes.len() || n >= st.tag_cap.max(1) || off + need > end {
                break;
            }
        }
        let f = gb32(&b, last_flags) | 8;
        pb32(&mut b, last_flags, f);
        seal_tail(&mut b, seed);
        group.insert(0, LogBlock { tx: txi, part: Part::Descriptor, data: b });
        out.push(group);
    }
    for x in rev {
        let at = match st.revoke_at {
            0 => 0,
            1 => out.len(),
            _ => r.below(out.len() as u64 + 1) as usize,
        };
        out.insert(at, vec![x]);
    }
    // Commit.
    let mut b = header(j.bs, 2, seq);
    let sec = r.next();
    b[48..56].copy_from_slice(&(sec & 0xffff_ffff).to_be_bytes());
    pb32(&mut b, 56, (sec >> 34) as u32);
    seal_commit(&mut b, seed);
    let mut v: Vec<LogBlock> = out.into_iter().flatten().collect();
    v.push(LogBlock { tx: txi, part: Part::Commit, data: b });
    v
}

pub struct History {
    /// states[i]: after i transactions.
    pub states: Vec<Img>,
    pub txs: Vec<Tx>,
    /// Blocks that must be readable before recovery.
    pub critical: BTreeSet<u64>,
    pub jnode: usize,
    pub jsb: Jsb,
    pub log: Vec<LogBlock>,
    /// Physical block of each journal block.
    pub map: Vec<u64>,
    pub trace: Vec<String>,
}

pub struct HistCfg {
    pub max_txs: u64,
    /// Per-cent chance of a transaction with very many blocks.
    pub bulk_pct: u64,
    pub revokes: bool,
    /// Journal every changed block.
    pub all: bool,
    /// The journal is at least this long.
    pub min_len: u64,
}

fn free_node_blocks(img: &mut Img, n: usize) {
    let runs = img.nodes[n].runs.clone();
    for r in runs {
        img.free(r.phys);
        for b in 0..r.len.min(4096) {
            img.disk.blocks.remove(&(r.phys + b));
        }
    }
    for b in img.nodes[n].meta.clone() {
        img.free(b);
    }
    img.nodes[n].runs.clear();
    img.nodes[n].meta.clear();
    img.nodes[n].root = [0; 60];
    img.nodes[n].flags &= !0x8_0000;
    img.nodes[n].extents = false;
    img.nodes[n].size = 0;
    img.nodes[n].depth = 0;
}

fn rewrite_dir(img: &mut Img, src: &mut Src, n: usize) {
    free_node_blocks(img, n);
    let frag = *src.pick(&[0u64, 1, 2]);
    let ext = !src.chance(1, 4);
    img.write_dir(n, frag, ext, 100);
    img.write_inode(n);
}

fn live_dirs(img: &Img) -> Vec<usize> {
    let mut v: Vec<usize> = img.paths().into_iter().map(|x| x.1).filter(|n| img.nodes[*n].is_dir()).collect();
    v.sort();
    v.dedup();
    v
}

/// Apply one operation; returns its description.
fn mutate(img: &mut Img, src: &mut Src, cfg: &Cfg) -> String {
    let dirs = live_dirs(img);
    let d = *src.pick(&dirs);
    let fresh = |src: &mut Src, img: &mut Img| -> Vec<u8> {
        loop {
            let mut r = Rng(img.arng.next());
            let n = gen_name(src, &mut r);
            if img.lookup(d, &n).is_none() && n != b"." && n != b".." {
                return n;
            }
        }
    };
    let room = (img.used_inos.len() as u64 + 20) < img.geo.ipg as u64 * img.geo.groups as u64;
    let ents = img.nodes[d].dir().unwrap().ents.clone();
    match src.weighted(&[6, 4, 3, 3, 3, 1, 2]) {
        0 if room => {
            let kind = match src.weighted(&[4, 2, 2]) {
                0 => Kind::Reg,
                1 => Kind::Dir(DirInfo { parent: d, ..Default::default() }),
                _ => Kind::Symlink(Vec::new()),
            };
            let name = fresh(src, img);
            let n = img.new_node(src, kind.clone());
            match kind {
                Kind::Reg => img.gen_file(src, cfg, n),
                Kind::Dir(_) => img.write_dir(n, 0, true, 100),
                _ => {
                    let t = img.gen_symlink_target(src);
                    img.set_symlink(src, n, t);
                }
            }
            img.write_inode(n);
            img.add_entry(d, name, n);
            rewrite_dir(img, src, d);
            format!("create #{}", img.nodes[n].ino)
        }
        1 if !ents.is_empty() => {
            let k = src.below(ents.len() as u64) as usize;
            let v = ents[k].node;
            if img.nodes[v].dir().is_some_and(|x| !x.ents.is_empty()) {
                return "nothing".into();
            }
            img.nodes[d].dir_mut().ents.remove(k);
            rewrite_dir(img, src, d);
            let still = img.paths().iter().any(|x| x.1 == v);
            if !still {
                free_node_blocks(img, v);
            }
            format!("unlink #{}", img.nodes[v].ino)
        }
        2 if !ents.is_empty() => {
            let k = src.below(ents.len() as u64) as usize;
            let name = fresh(src, img);
            img.nodes[d].dir_mut().ents[k].name = name;
            rewrite_dir(img, src, d);
            format!("rename #{}", img.nodes[ents[k].node].ino)
        }
        3 => {
            let n = if ents.is_empty() { d } else { src.pick(&ents).node };
            let node = &mut img.nodes[n];
            node.perm = src.below(0o10000) as u16;
            node.uid = src.u32();
            node.gid = src.below(3000) as u32;
            img.write_inode(n);
            format!("chown #{}", img.nodes[n].ino)
        }
        4 => {
            // Rewrite a file with other contents.
            let regs: Vec<usize> = ents.iter().map(|e| e.node).filter(|n| img.nodes[*n].is_reg()).collect();
            if regs.is_empty() {
                return "nothing".into();
            }
            let n = *src.pick(&regs);
            free_node_blocks(img, n);
            img.gen_file(src, cfg, n);
            img.write_inode(n);
            format!("rewrite #{}", img.nodes[n].ino)
        }
        5 => {
            let s = src.u64();
            let mut r = Rng(s);
            for i in 0..16 {
                img.geo.label[i] = if i < 10 { b'a' + r.below(26) as u8 } else { 0 };
            }
            img.write_sb();
            "label".into()
        }
        _ => {
            // Overwrite data in place.
            let regs: Vec<usize> = img.nodes.iter().enumerate().filter(|(i, n)| n.is_reg() && Some(n.ino) != img.journal_ino && !n.runs.is_empty() && *i != 0).map(|x| x.0).collect();
            if regs.is_empty() {
                return "nothing".into();
            }
            let n = *src.pick(&regs);
            let r = src.pick(&img.nodes[n].runs).clone();
            let b = r.phys + src.below(r.len);
            let mut rng = Rng(src.u64());
            let mut v = vec![0u8; img.geo.bs as usize];
            Disk::fill_noise(&mut rng, &mut v);
            img.disk.set_block(b, v);
            format!("overwrite #{}", img.nodes[n].ino)
        }
    }
}

fn changed(a: &Disk, b: &Disk) -> Vec<u64> {
    let keys: BTreeSet<u64> = a.blocks.keys().chain(b.blocks.keys()).copied().collect();
    keys.into_iter()
        .filter(|k| match (a.blocks.get(k), b.blocks.get(k)) {
            (Some(x), Some(y)) if Rc::ptr_eq(x, y) => false,
            _ => a.block(*k) != b.block(*k),
        })
        .collect()
}

/// Some contents that block b does not have to have.
fn other_block(src: &mut Src, states: &[Img], b: u64) -> Rc<Vec<u8>> {
    let mut v = states[src.below(states.len() as u64) as usize].disk.block(b);
    if src.chance(1, 2) {
        let seed = src.u64();
        Disk::fill_noise(&mut Rng(seed), &mut v);
    }
    if v[..4] == MAGIC.to_be_bytes() {
        v[0] = 0;
    }
    Rc::new(v)
}

pub fn gen_history(src: &mut Src, cfg: &Cfg, hc: &HistCfg) -> History {
    let mut img = Img::begin(src, cfg);
    // Free and used blocks look alike: what is in use changes.
    img.disk.free_seed = img.disk.seed;
    img.gen_tree(src, cfg);
    let jnode = img.new_node(src, Kind::Reg);
    if src.chance(2, 3) {
        let old = img.nodes[jnode].ino;
        img.used_inos.remove(&old);
        img.nodes[jnode].ino = 8;
    }
    img.journal_ino = Some(img.nodes[jnode].ino);
    img.geo.compat |= 4;
    img.geo.incompat |= 4;
    let ntx = src.range(1, hc.max_txs);

    // The log's size is only known once the history is; reserve room.
    let bulk: Vec<bool> = (0..ntx).map(|_| src.chance(hc.bulk_pct, 100)).collect();
    let bs = img.geo.bs;
    let est: u64 = 40 + ntx * 60 + bulk.iter().filter(|b| **b).count() as u64 * if bs <= 4096 { 300 } else { 40 };
    let est = est.max(hc.min_len).min((img.geo.blocks / 3).max(30));
    let frag = *src.pick(&[0u64, 0, 30, 7]);
    let ext = !src.chance(1, 3);
    img.map_contiguous(jnode, est, frag, ext);
    img.nodes[jnode].size = est * bs;
    img.finish(src, cfg);
    let map: Vec<u64> = (0..est).map(|l| img.phys(jnode, l).expect("harness: journal block")).collect();

    let geo = img.geo.clone();
    let mut critical: BTreeSet<u64> = BTreeSet::new();
    critical.insert(0);
    critical.insert(1024 / bs);
    for b in 0..geo.gdt_blocks() {
        critical.insert(geo.gdt_block() + b);
    }
    critical.insert(geo.inode_offset(img.nodes[jnode].ino) / bs);
    critical.extend(img.nodes[jnode].meta.iter().copied());
    let logset: BTreeSet<u64> = map.iter().copied().collect();

    // States and transactions.
    let mut jsb = Jsb {
        bs,
        maxlen: if src.chance(1, 6) { (est - src.below((est / 3).min(est.saturating_sub(hc.min_len).max(1)))) as u32 } else { est as u32 },
        first: if src.chance(1, 8) { 1 + src.below(8) as u32 } else { 1 },
        sequence: match src.weighted(&[3, 2, 1, 1]) {
            0 => 1 + src.below(50) as u32,
            1 => src.u32(),
            2 => u32::MAX - src.below(4) as u32,
            _ => 0,
        },
        start: 1,
        compat: if src.chance(1, 4) { 1 } else { 0 },
        incompat: 0x12,
        ro: 0,
        uuid: [0; 16],
        noise: src.u64(),
    };
    for (i, x) in mix(jsb.noise).to_le_bytes().iter().chain(&mix(jsb.noise + 1).to_le_bytes()).enumerate() {
        jsb.uuid[i] = *x;
    }
    if src.chance(1, 4) {
        // Commonly the filesystem's own.
        jsb.uuid = geo.uuid;
    }
    let mut states = vec![img];
    let mut txs: Vec<Tx> = Vec::new();
    let mut trace = Vec::new();
    let mut live: BTreeSet<u64> = BTreeSet::new();
    let mut log: Vec<LogBlock> = Vec::new();
    let mut file_cfg = cfg.clone();
    file_cfg.big_sparse = false;
    file_cfg.maps = [1, 4, 3, 0, 3, 2];
    for t in 0..ntx as usize {
        let mut s = states[t].clone();
        let mut what = Vec::new();
        for _ in 0..src.range(0, 3) {
            what.push(mutate(&mut s, src, &file_cfg));
        }
        let mut tx = Tx::default();
        let mut revoked: BTreeSet<u64> = BTreeSet::new();
        let mut written: BTreeSet<u64> = BTreeSet::new();
        for b in changed(&states[t].disk, &s.disk) {
            if logset.contains(&b) {
                continue;
            }
            if live.contains(&b) {
                // Must be journalled or revoked.
                if !hc.revokes || hc.all || critical.contains(&b) || !src.chance(1, 3) {
                    written.insert(b);
                } else {
                    revoked.insert(b);
                }
            } else if hc.all || critical.contains(&b) || !src.chance(1, 5) {
                written.insert(b);
            }
        }
        // Unchanged blocks, journalled again.
        let keys: Vec<u64> = s.disk.blocks.keys().copied().collect();
        for _ in 0..src.below(6) {
            let b = *src.pick(&keys);
            if !logset.contains(&b) && !revoked.contains(&b) {
                written.insert(b);
            }
        }
        if bulk[t] {
            let n = if bs <= 4096 { src.range(40, 220) } else { src.range(1, 30) };
            let top = geo.blocks;
            let lo = geo.gdt_block() + geo.gdt_blocks();
            let b0 = src.range(lo, top - 1);
            for b in b0..(b0 + n).min(top) {
                if !logset.contains(&b) && !revoked.contains(&b) {
                    written.insert(b);
                }
            }
        }
        if hc.revokes && !hc.all {
            for _ in 0..src.below(5) {
                let b = match src.below(3) {
                    0 if !live.is_empty() => *live.iter().nth(src.below(live.len() as u64) as usize).unwrap(),
                    1 => *src.pick(&keys),
                    _ => src.edgy64(),
                };
                if !written.contains(&b) && !critical.contains(&b) {
                    revoked.insert(b);
                }
            }
            if src.chance(1, 12) {
                // A full table, or several.
                let n = src.range((bs - 20) / 8 - 1, (bs - 20) / 8 + 2).min(1000);
                for i in 0..n {
                    let b = geo.blocks + 1000 + i;
                    revoked.insert(b);
                }
            }
        }
        let mut order: Vec<u64> = written.iter().copied().collect();
        if src.chance(1, 2) {
            src.shuffle(&mut order[..]);
        }
        if order.len() > 60 {
            // Keep the choice sequence short.
            order.sort();
        }
        tx.writes = order.iter().map(|b| (*b, Rc::new(s.disk.block(*b)))).collect();
        tx.revokes = revoked.iter().copied().collect();
        let extra = order.len() <= 60 && src.chance(1, 6);
        if extra && !tx.writes.is_empty() {
            // Blocks logged more than once: the last one counts.
            for _ in 0..src.size(1, 3) {
                let i = src.below(tx.writes.len() as u64) as usize;
                let b = tx.writes[i].0;
                let last = tx.writes.iter().rposition(|w| w.0 == b).unwrap();
                let at = src.below(last as u64 + 1) as usize;
                let data = other_block(src, &states, b);
                tx.writes.insert(at, (b, data));
            }
        }
        if !revoked.is_empty() && src.chance(1, 3) {
            // Blocks logged and revoked in the same transaction: the
            // revocation counts.
            let all: Vec<u64> = revoked.iter().copied().filter(|b| *b < geo.blocks && !logset.contains(b)).take(20).collect();
            for b in all {
                if src.chance(1, 2) {
                    let at = src.below(tx.writes.len() as u64 + 1) as usize;
                    let data = other_block(src, &states, b);
                    tx.writes.insert(at, (b, data));
                }
            }
        }
        if tx.writes.iter().any(|(_, d)| d[..4] == MAGIC.to_be_bytes()) {
            panic!("harness: escaped block generated");
        }
        if !tx.revokes.is_empty() {
            jsb.incompat |= 1;
        }
        let st = Style {
            tag_cap: match src.weighted(&[4, 1]) {
                0 => usize::MAX,
                _ => src.range(1, 5) as usize,
            },
            revoke_cap: match src.weighted(&[4, 1]) {
                0 => usize::MAX,
                _ => src.range(1, 3) as usize,
            },
            tight: src.chance(1, 3),
            uuids: src.chance(1, 5),
            revoke_at: src.below(3),
            noise: src.u64(),
        };
        let blocks = encode_tx(&jsb, &tx, t, jsb.sequence.wrapping_add(t as u32), st);
        if log.len() + blocks.len() > (jsb.maxlen - jsb.first) as usize {
            // No room in the log: the history ends here.
            break;
        }
        log.extend(blocks);
        for b in &revoked {
            live.remove(b);
        }
        live.extend(written.iter().copied());
        trace.push(format!("tx{t}[{}; {} blocks, {} revoked]", what.join(", "), tx.writes.len(), tx.revokes.len()));
        txs.push(tx);
        states.push(s);
    }
    if src.chance(1, 4) {
        jsb.incompat |= 1;
    }
    // The circular log: any start; sometimes no block to spare.
    jsb.start = match src.weighted(&[2, 3, 1]) {
        0 => jsb.first,
        1 => jsb.first + src.below((jsb.maxlen - jsb.first) as u64) as u32,
        _ => jsb.maxlen - 1,
    };
    History { states, txs, critical, jnode, jsb, log, map, trace }
}

impl History {
    /// Journal block index of log position i.
    pub fn at(&self, i: usize) -> usize {
        let j = &self.jsb;
        let n = (j.maxlen - j.first) as usize;
        ((j.start - j.first) as usize + i) % n + j.first as usize
    }

    pub fn boundaries(&self) -> Vec<usize> {
        // End (exclusive) of each transaction in the log.
        let mut v = Vec::new();
        for (i, b) in self.log.iter().enumerate() {
            if b.part == Part::Commit {
                v.push(i + 1);
            }
        }
        v
    }

    /// Blocks whose contents come from the log when k transactions are
    /// complete, with the index of the transaction.
    pub fn effective(&self, k: usize) -> BTreeMap<u64, usize> {
        let mut m = BTreeMap::new();
        for (t, tx) in self.txs[..k].iter().enumerate() {
            for b in &tx.revokes {
                m.remove(b);
            }
            for (b, _) in &tx.writes {
                if !tx.revokes.contains(b) {
                    m.insert(*b, t);
                }
            }
        }
        m
    }

    /// The filesystem's own blocks as found when k transactions are
    /// complete (journal not written yet).
    pub fn base(&self, src: &mut Src, k: usize) -> Disk {
        let mut d = self.states[k].disk.clone();
        let eff = self.effective(k);
        let mode = src.weighted(&[3, 2, 2]);
        for (b, t) in &eff {
            debug_assert!(self.txs[*t].writes.iter().any(|(x, c)| x == b && **c == d.block(*b)));
            let how = match mode {
                0 => 0,
                1 => 3,
                _ => src.below(4),
            };
            match how {
                // Never written back.
                0 => {
                    let v = self.states[0].disk.block(*b);
                    d.set_block(*b, v);
                }
                // Some version before.
                1 => {
                    let s = src.below(k as u64 + 1) as usize;
                    let v = self.states[s].disk.block(*b);
                    d.set_block(*b, v);
                }
                2 => {}
                _ => {
                    if self.critical.contains(b) {
                        let v = self.states[0].disk.block(*b);
                        d.set_block(*b, v);
                    } else {
                        let mut v = vec![0u8; d.bs as usize];
                        let mut r = Rng(mix(*b ^ self.jsb.noise));
                        if r.below(3) != 0 {
                            Disk::fill_noise(&mut r, &mut v);
                        }
                        d.set_block(*b, v);
                    }
                }
            }
        }
        d
    }

    /// Fill the log with what an earlier use left, and write the journal
    /// superblock.
    pub fn write_old_log(&self, src: &mut Src, d: &mut Disk) {
        let n = self.map.len();
        let bs = self.jsb.bs as usize;
        match src.weighted(&[2, 1, 3]) {
            0 => {
                for b in &self.map[1..] {
                    d.set_block(*b, vec![0; bs]);
                }
            }
            1 => {
                let mut r = Rng(src.u64());
                for b in &self.map[1..] {
                    let mut v = vec![0; bs];
                    Disk::fill_noise(&mut r, &mut v);
                    d.set_block(*b, v);
                }
            }
            _ => {
                // Older transactions, at any phase, so that they may
                // directly follow the current ones.
                let mut i = 0;
                let mut age = src.range(1, 40) as u32;
                let mut r = Rng(src.u64());
                let phase = src.below(8);
                let mut blocks: Vec<Vec<u8>> = (0..phase).map(|_| vec![0; bs]).collect();
                while blocks.len() < n - 1 && i < 200 {
                    let mut tx = Tx::default();
                    for _ in 0..1 + r.below(6) {
                        let (b, _) = match self.txs.get(r.below(self.txs.len() as u64) as usize).and_then(|t| t.writes.get(r.below(t.writes.len().max(1) as u64) as usize)) {
                            Some(x) => x.clone(),
                            None => (self.map[0] + 1, Rc::new(vec![])),
                        };
                        let mut v = vec![0; bs];
                        Disk::fill_noise(&mut r, &mut v);
                        tx.writes.push((b, Rc::new(v)));
                    }
                    if r.below(3) == 0 {
                        tx.revokes.push(r.below(self.states[0].geo.blocks));
                    }
                    let seq = self.jsb.sequence.wrapping_sub(age);
                    age = age.saturating_sub(1).max(1);
                    let st = Style { tag_cap: 5, revoke_cap: 5, tight: false, uuids: false, revoke_at: 0, noise: r.next() };
                    blocks.extend(encode_tx(&self.jsb, &tx, 0, seq, st).into_iter().map(|x| x.data));
                    i += 1;
                }
                for (j, b) in self.map[1..].iter().enumerate() {
                    let v = blocks.get(j).cloned().unwrap_or_else(|| vec![0; bs]);
                    d.set_block(*b, v);
                }
            }
        }
        d.set_block(self.map[0], self.jsb.bytes());
    }

    pub fn write_log(&self, d: &mut Disk, upto: usize, skip: &dyn Fn(usize) -> bool) {
        for (i, b) in self.log[..upto].iter().enumerate() {
            if !skip(i) {
                d.set_block(self.map[self.at(i)], b.data.clone());
            }
        }
    }

    /// State k without a journal to replay.
    pub fn clean_disk(&self, k: usize) -> Disk {
        let s = &self.states[k];
        let mut d = s.disk.clone();
        let mut sb = s.sb_bytes();
        let f = g32(&sb, 0x60) & !4;
        p32(&mut sb, 0x60, f);
        reseal_sb(&mut sb, s.geo.csum);
        d.write_at(1024, &sb);
        d
    }

    pub fn describe(&self) -> String {
        format!(
            "journal #{} of {} blocks (log {}..{}), start {}, sequence {}, log {} blocks: {}; {}",
            self.states[0].nodes[self.jnode].ino,
            self.map.len(),
            self.jsb.first,
            self.jsb.maxlen,
            self.jsb.start,
            self.jsb.sequence,
            self.log.len(),
            self.trace.join(" "),
            self.states[0].describe()
        )
    }
}

pub fn reseal_sb(sb: &mut [u8], csum: bool) {
    if csum {
        let c = crc32c(!0, &sb[..0x3fc]);
        p32(sb, 0x3fc, c);
    }
}

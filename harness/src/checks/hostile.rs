//! C11 arbitrary input never panics, C12 bounded work and memory.

use crate::disk::Disk;
use crate::engine::*;
use crate::img::*;
use crate::ops::*;
use crate::steps;
use crate::world::*;
use ext4_view::{Ext4, Ext4Error};
use std::error::Error;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C11",
            run: c11,
            quick: 3000,
            thorough: 200000,
            rule: "case = generated image (one in four with a journal to replay) and 8 rounds of 1 to 6 alterations of its structures (field-aware values, bit flips, ranges, exchanged structures, cross-references), checksums made right again in most; or noise over blocks, truncation, noise behind a valid superblock; every public operation and every formatting is then called; non-trivial: at least 3 altered images still loaded and at least 40 operations ran",
        },
        Prop {
            id: "C12",
            run: c12,
            quick: 8000,
            thorough: 60000,
            rule: "case = generated image of at most a few thousand blocks (one in five with a journal to replay) and 6 rounds, each with structures made to refer to themselves or each other or to claim huge counts, with right checksums: extent trees (files, directories, symlinks, journal), block maps, sizes, hash trees, directory records, superblock counts, journals; every operation is then metered (control-flow edges in the library, peak memory) against fixed limits; non-trivial: at least 3 such images and 20 metered operations",
        },
    ]
}

/// Everything an error can be asked.
pub fn poke_err(e: Ext4Error) {
    let _ = format!("{e} {e:?}");
    let mut s: Option<&dyn Error> = e.source();
    let mut n = 0;
    while let Some(x) = s {
        let _ = format!("{x} {x:?}");
        s = x.source();
        n += 1;
        assert!(n < 10, "endless chain of error sources");
    }
    let _ = e.as_io().map(|x| format!("{x}"));
    let io: std::io::Error = e.into();
    let _ = format!("{io} {io:?} {:?}", io.kind());
}

fn small_seek(len: u64, off: u64, bs: u64) -> bool {
    len.min(off) / bs <= 1 << 18
}

/// Results that would take long to produce are not asked for.
fn len_ok(len: u64) -> bool {
    len <= 4 << 20 || len > 3 << 30
}

pub struct Poke {
    pub ops: u64,
    pub oks: u64,
}

/// Call every operation on a path.
pub fn poke_path(fs: &Ext4, src: &mut Src, p: &[u8], bs: u64, k: &mut Poke, found: &mut Vec<Vec<u8>>) {
    tick();
    k.ops += 9;
    let mut big = false;
    match fs.metadata(p) {
        Ok(m) => {
            k.oks += 1;
            let _ = format!("{m:?}");
            let _ = (m.is_dir(), m.is_symlink(), m.mode(), m.uid(), m.gid(), m.len());
            big = m.file_type().is_regular_file() && !len_ok(m.len());
        }
        Err(e) => poke_err(e),
    }
    match fs.symlink_metadata(p) {
        Ok(m) => {
            let _ = meta_str(&m);
        }
        Err(e) => poke_err(e),
    }
    match fs.exists(p) {
        Ok(_) => {}
        Err(e) => poke_err(e),
    }
    match fs.canonicalize(p) {
        Ok(q) => {
            let _ = format!("{q:?} {}", q.display());
        }
        Err(e) => poke_err(e),
    }
    match fs.read_link(p) {
        Ok(q) => {
            let _ = format!("{q:?} {} {:?}", q.display(), q.components().collect::<Vec<_>>());
        }
        Err(e) => poke_err(e),
    }
    match fs.read_dir(p) {
        Ok(mut it) => {
            let _ = format!("{it:?}");
            let mut n = 0;
            let mut ended = false;
            for e in it.by_ref() {
                n += 1;
                match e {
                    Ok(e) => {
                        let _ = format!("{e:?} {} {:?}", e.file_name().display(), e.file_name());
                        if let Err(e) = e.file_type() {
                            poke_err(e);
                        }
                        let q = e.path();
                        if n % 16 == 1 || n < 30 {
                            match e.metadata() {
                                Ok(m) => {
                                    let _ = meta_str(&m);
                                }
                                Err(e) => poke_err(e),
                            }
                        }
                        if found.len() < 300 && e.file_name() != "." && e.file_name() != ".." {
                            let q: &[u8] = q.as_ref();
                            found.push(q.to_vec());
                        }
                    }
                    Err(e) => {
                        poke_err(e);
                        ended = true;
                    }
                }
                if n > 20_000 {
                    break;
                }
            }
            if ended {
                let _ = it.next().is_none();
            }
        }
        Err(e) => poke_err(e),
    }
    match fs.open(p) {
        Ok(mut f) => {
            use std::io::{Read, Seek, SeekFrom};
            let len = f.metadata().len();
            let _ = format!("{f:?}");
            let n = src.size(0, 5000) as usize;
            let mut buf = vec![0u8; n];
            if let Err(e) = f.read_bytes(&mut buf) {
                poke_err(e);
            }
            for _ in 0..2 {
                let off = match src.below(4) {
                    0 => src.edgy64(),
                    1 => len.wrapping_add(src.below(5)).wrapping_sub(2),
                    2 => src.below(len.max(1)),
                    _ => src.size(0, 1 << 20),
                };
                if !small_seek(len, off, bs) {
                    continue;
                }
                k.ops += 2;
                if let Err(e) = f.seek_to(off) {
                    poke_err(e);
                }
                let _ = f.position();
                if let Err(e) = f.read_bytes(&mut buf) {
                    poke_err(e);
                }
            }
            let (base, d) = match src.below(3) {
                0 => (f.position(), SeekFrom::Current(src.edgy64() as i64)),
                1 => (len, SeekFrom::End(src.edgy64() as i64)),
                _ => (0, SeekFrom::Start(src.edgy64())),
            };
            let to = match d {
                SeekFrom::Current(x) | SeekFrom::End(x) => base.saturating_add_signed(x),
                SeekFrom::Start(x) => x,
            };
            if small_seek(len, to, bs) {
                if let Err(e) = f.seek(d) {
                    let _ = format!("{e:?}");
                }
                if let Err(e) = f.read(&mut buf) {
                    let _ = format!("{e:?}");
                }
            }
        }
        Err(e) => poke_err(e),
    }
    if !big {
        match fs.read(p) {
            Ok(_) => {}
            Err(e) => poke_err(e),
        }
        match fs.read_to_string(p) {
            Ok(_) => {}
            Err(e) => poke_err(e),
        }
    }
}

/// Takes this many bytes of text.
struct Sink(usize);

impl std::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 = self.0.checked_sub(s.len()).ok_or(std::fmt::Error)?;
        Ok(())
    }
}

/// Load and call everything.
pub fn poke(disk: &Disk, src: &mut Src, paths: &[Vec<u8>], bs: u64, budget: &Budget, k: &mut Poke) -> bool {
    tick();
    let fs = match load(disk) {
        Ok(f) => f,
        Err(e) => {
            poke_err(e);
            return false;
        }
    };
    // Formatting goes on as long as there are descriptors to show.
    let _ = std::fmt::Write::write_fmt(&mut Sink(1 << 20), format_args!("{} {:?} {} {:?} {fs:?}", fs.label().display(), fs.label(), fs.uuid(), fs.uuid()));
    let mut found = Vec::new();
    for p in paths {
        if !budget.left() {
            return true;
        }
        poke_path(&fs, src, p, bs, k, &mut found);
    }
    // What the listings showed.
    let mut i = 0;
    let mut all = Vec::new();
    while i < 6 && !found.is_empty() && budget.left() {
        let j = src.below(found.len() as u64) as usize;
        let p = found.swap_remove(j);
        poke_path(&fs, src, &p, bs, k, &mut all);
        if found.len() < 50 {
            found.append(&mut all);
        }
        i += 1;
    }
    true
}

/// A choice of structures: kinds evenly, then one of that kind.
pub fn pick_structure(src: &mut Src, all: &[S]) -> S {
    let mut kinds: Vec<&str> = Vec::new();
    for s in all {
        if !kinds.contains(&s.name()) {
            kinds.push(s.name());
        }
    }
    let k = *src.pick(&kinds);
    let of: Vec<S> = all.iter().copied().filter(|s| s.name() == k).collect();
    *src.pick(&of)
}

fn noise(src: &mut Src, d: &mut Disk, nblocks: u64) -> String {
    let b = if src.chance(1, 2) {
        let k = src.below(d.blocks.len() as u64) as usize;
        *d.blocks.keys().nth(k).unwrap()
    } else {
        src.below(nblocks.max(1))
    };
    let n = src.u64();
    let kind = src.below(3);
    let v = d.block_mut(b);
    match kind {
        0 => v.fill(0),
        1 => v.fill(0xff),
        _ => Disk::fill_noise(&mut crate::rng::Rng(n), v),
    }
    format!("block {b} overwritten ({kind})")
}

fn c11(src: &mut Src, ctx: &mut Ctx) -> Res {
    steps::arm(50_000_000_000);
    let mut cfg = super::meta::small_cfg();
    cfg.csum = if src.chance(1, 4) { Some(false) } else { None };
    cfg.bigdir_pct = 25;
    cfg.link_max = 200;
    cfg.max_log_bs = if src.chance(1, 8) { 6 } else { 2 };
    let w = World::gen(src, &cfg, 25);
    let bs = w.img.geo.bs;
    let all = w.structures();
    let known = sampled_paths(&w.img);
    let budget = Budget::new(1_500_000_000);
    let mut k = Poke { ops: 0, oks: 0 };
    let mut loaded = 0;
    for _ in 0..8 {
        if !budget.left() {
            ctx.label("out of budget");
            break;
        }
        let mut m = w.clone();
        let mut what = Vec::new();
        let mut paths = vec![b"/".to_vec()];
        match src.weighted(&[20, 2, 1, 6, 1]) {
            0 => {
                let n = src.size(1, 6);
                // Alterations of one structure, or of several.
                let same = src.chance(1, 3);
                let mut s = pick_structure(src, &all);
                for _ in 0..n {
                    if !same {
                        s = pick_structure(src, &all);
                    }
                    let mut b = m.get(s);
                    what.push(m.alter(src, s, &mut b));
                    if src.chance(17, 20) {
                        m.seal(s, &mut b);
                    }
                    m.put(s, &b);
                    ctx.label(&format!("altered {}", s.name()));
                }
            }
            1 => {
                for _ in 0..src.size(1, 8) {
                    what.push(noise(src, &mut m.disk, w.img.geo.blocks));
                }
                ctx.label("noise blocks");
            }
            2 => {
                let n = match src.below(3) {
                    0 => src.below(m.disk.size),
                    1 => src.below(8192),
                    _ => src.below(m.disk.size / bs) * bs,
                };
                m.disk.size = n;
                what.push(format!("truncated to {n}"));
                ctx.label("truncated");
            }
            3 => {
                let (p, n) = src.pick(&known).clone();
                let f = src.below(9);
                let r = match f {
                    0 => family_extents(src, &mut m, n),
                    1 => family_map(src, &mut m, n),
                    2 => family_size(src, &mut m, n),
                    3 => family_htree(src, &mut m),
                    4 => family_leaf(src, &mut m),
                    5 if m.disk.size < 1 << 33 => family_sb(src, &mut m),
                    5 => None,
                    6 => family_journal(src, &mut m),
                    _ => family_late(src, &mut m, &mut paths),
                };
                if let Some(r) = r {
                    what.push(r);
                    ctx.label(["extent trees", "block maps", "sizes", "hash trees", "directory records", "superblock counts", "journals", "late extents", "late extents"][f as usize]);
                }
                paths.push(p);
            }
            _ => {
                // Noise behind a superblock.
                let sb = m.get(S::Sb);
                let seed = src.u64();
                let mut d = Disk::new(bs, m.disk.size, seed);
                let mut b = sb;
                if src.chance(1, 2) {
                    what.push(m.alter(src, S::Sb, &mut b));
                    m.seal(S::Sb, &mut b);
                }
                d.write_at(1024, &b);
                if src.chance(2, 3) {
                    for g in 0..w.img.geo.groups.min(64) {
                        d.write_at(w.img.geo.desc_offset(g), &m.disk.bytes(w.img.geo.desc_offset(g), w.img.geo.desc_size as usize));
                    }
                }
                m.disk = d;
                what.push("noise behind superblock".into());
                ctx.label("noise behind superblock");
            }
        }
        for _ in 0..5 {
            paths.push(super::path::gen_path(src, &w.img));
        }
        if src.chance(1, 4) {
            let n = src.size(0, 300) as usize;
            paths.push(src.bytes(n));
        }
        for _ in 0..8 {
            paths.push(src.pick(&known).0.clone());
        }
        if std::env::var_os("HARNESS_LABELS").is_some() && false {
            eprintln!("{what:?}");
        }
        if poke(&m.disk, src, &paths, bs, &budget, &mut k) {
            loaded += 1;
        } else {
            ctx.label("refused at load");
        }
    }
    ctx.ops += k.ops;
    if loaded >= 3 && k.ops >= 40 {
        ctx.nontrivial = true;
    }
    if k.oks > 0 {
        ctx.label("operation succeeded on altered image");
    }
    if ctx.want_sample {
        ctx.sample = format!("{} rounds loaded {loaded}, {} operations", w.img.describe(), k.ops);
    }
    steps::disarm();
    Ok(())
}

// -------------------------------------------------------------------
// C12
// -------------------------------------------------------------------

/// Per-operation limits. Work: control-flow edges executed in the
/// library. Every image here has at most a few thousand blocks (or is
/// sparse, with few structures), and even a scan of a whole image per
/// path component stays far below. Loops over counts that nothing
/// vouches for, and trees that refer to themselves, go far above.
const WORK: u64 = 3_000_000_000;
const MEM: usize = 16 << 20;

pub struct Meter {
    pub worst: u64,
    pub worst_mem: usize,
    pub ops: u64,
    pub total: u64,
    /// Size of the image in bytes.
    pub image: u64,
    pub what: String,
    pub desc: String,
}

impl Meter {
    /// Run one operation under the limits; `ret` is what it may return.
    pub fn run<T>(&mut self, name: &str, work: u64, ret: usize, f: impl FnOnce() -> T) -> Result<T, Fail> {
        tick();
        let mark = steps::mem_mark();
        steps::arm(work);
        let r = f();
        let n = steps::steps();
        steps::disarm();
        let m = steps::mem_peak_since(mark);
        self.ops += 1;
        self.total += n;
        if n > 300_000_000 && std::env::var_os("HARNESS_WORST").is_some() {
            let _ = std::fs::write("/tmp/worst-op", format!("{n} edges: {name}; {}; {}", self.what, self.desc));
        }
        self.worst = self.worst.max(n);
        self.worst_mem = self.worst_mem.max(m);
        if m > MEM + 2 * self.image as usize + 4 * ret {
            return Err(Fail::new("memory", format!("{name}: {m} bytes of memory for an image with few structures; {}; {}", self.what, self.desc)));
        }
        Ok(r)
    }
}

/// Entries for a made-up extent tree node.
fn ext_node(depth: u16, max: u16, ents: &[(u32, u64, u16)], len: usize) -> Vec<u8> {
    let mut b = vec![0u8; len];
    p16(&mut b, 0, 0xf30a);
    p16(&mut b, 2, ents.len() as u16);
    p16(&mut b, 4, max);
    p16(&mut b, 6, depth);
    for (i, (log, phys, n)) in ents.iter().enumerate() {
        let o = 12 + 12 * i;
        if o + 12 > len {
            break;
        }
        p32(&mut b, o, *log);
        if depth == 0 {
            p16(&mut b, o + 4, *n);
            p16(&mut b, o + 6, (*phys >> 32) as u16);
            p32(&mut b, o + 8, *phys as u32);
        } else {
            p32(&mut b, o + 4, *phys as u32);
            p16(&mut b, o + 8, (*phys >> 32) as u16);
        }
    }
    b
}

fn put_inode(w: &mut World, n: usize, f: impl FnOnce(&mut [u8])) {
    let mut b = w.get(S::Inode(n));
    f(&mut b);
    w.seal(S::Inode(n), &mut b);
    w.put(S::Inode(n), &b);
}

fn set_size(b: &mut [u8], size: u64) {
    p32(b, 4, size as u32);
    p32(b, 0x6c, (size >> 32) as u32);
}

fn odd_size(src: &mut Src, bs: u64, blocks: u64) -> u64 {
    match src.below(8) {
        0 => bs,
        1 => 40 * bs,
        2 => blocks * bs,
        3 => (blocks + 1) * bs,
        4 => ((1u64 << 32) - 1) * bs,
        5 => (1u64 << 31) * bs,
        6 => src.size(0, 1 << 47),
        _ => src.size(0, blocks * bs),
    }
}

/// Nodes linked into each other without regard for sense.
fn family_extents(src: &mut Src, w: &mut World, n: usize) -> Option<String> {
    let bs = w.img.geo.bs as usize;
    let levels = src.range(1, 6) as u16;
    let per = src.range(1, 3);
    let mut blk: Vec<Vec<u64>> = Vec::new();
    for _ in 0..levels {
        let mut v = Vec::new();
        for _ in 0..per {
            v.push(w.img.try_alloc(1, false)?);
        }
        blk.push(v);
    }
    let max = ((bs - 16) / 12) as u16;
    // How the first blocks of entries run.
    let order = src.below(4);
    let data = w.img.try_alloc(1, false)?;
    let leaf = src.below(5);
    let cyc = src.chance(1, 3);
    let same_depth = src.chance(1, 3);
    let fill = if src.chance(2, 3) { max as u64 } else { src.range(1, max as u64) };
    let mut ctr: u32 = 0;
    for d in 0..levels {
        for k in 0..per as usize {
            let cnt = if d == 0 && leaf == 0 { 0 } else { fill };
            let mut e = Vec::new();
            for i in 0..cnt {
                let log = match order {
                    0 => i as u32,
                    1 => 0,
                    2 => {
                        ctr = ctr.wrapping_add(1);
                        ctr
                    }
                    _ => i as u32 * (u32::MAX / fill as u32),
                };
                if d == 0 {
                    let l = [1u16, 0, 32768, 1][(leaf as usize).max(1) - 1];
                    e.push((log, data, l));
                } else {
                    let t = if cyc && src.chance(1, 4) {
                        let j = src.below(levels as u64) as usize;
                        *src.pick(&blk[j])
                    } else {
                        *src.pick(&blk[d as usize - 1])
                    };
                    e.push((log, t, 0));
                }
            }
            let depth = if same_depth { 1 } else { d };
            let b = blk[d as usize][k];
            let mut bytes = ext_node(depth, max, &e, bs);
            let s = S::Ext(n, b);
            w.seal(s, &mut bytes);
            w.put(s, &bytes);
        }
    }
    let top = levels as usize - 1;
    let mut e = Vec::new();
    for i in 0..src.range(1, 4) {
        let log = if order == 1 { 0 } else { i as u32 * 1000 };
        e.push((log, *src.pick(&blk[top]), 0));
    }
    let rd = if src.chance(1, 8) { src.below(7) as u16 } else if same_depth { 2 } else { levels };
    let root = ext_node(rd, 4, &e, 60);
    let size = odd_size(src, bs as u64, w.img.geo.blocks);
    put_inode(w, n, |b| {
        let f = g32(b, 0x20) | 0x80000;
        p32(b, 0x20, f);
        set_size(b, size);
        b[0x28..0x64].copy_from_slice(&root);
    });
    Some(format!("extent tree of {levels} levels, {fill} entries each, order {order}, leaf {leaf}, cyclic {cyc}, equal depths {same_depth}, size {size}, on node {n}"))
}

/// The last extents of a directory or file, moved to where block
/// numbers end.
fn family_late(src: &mut Src, w: &mut World, paths: &mut Vec<Vec<u8>>) -> Option<String> {
    let mut c: Vec<(Vec<u8>, usize)> = sampled_paths(&w.img).into_iter().filter(|p| w.img.nodes[p.1].extents && !w.img.nodes[p.1].runs.is_empty()).collect();
    let d: Vec<(Vec<u8>, usize)> = c.iter().filter(|p| w.img.nodes[p.1].dir().is_some_and(|d| d.htree)).cloned().collect();
    if !d.is_empty() && src.chance(3, 4) {
        c = d;
    }
    if c.is_empty() {
        return None;
    }
    let (path, n) = src.pick(&c).clone();
    let node = w.img.nodes[n].clone();
    let mut desc = String::new();
    // Each node of the tree that holds extents may change.
    let mut all = vec![S::Inode(n)];
    all.extend(node.meta.iter().take(40).map(|b| S::Ext(n, *b)));
    for s in all {
        let mut b = w.get(s);
        let o = if matches!(s, S::Inode(_)) { 0x28 } else { 0 };
        let cnt = g16(&b, o + 2) as usize;
        if g16(&b, o + 6) != 0 || cnt == 0 || o + 12 + 12 * cnt > b.len() {
            continue;
        }
        let k = if src.chance(2, 3) { cnt - 1 } else { src.below(cnt as u64) as usize };
        let e = o + 12 + 12 * k;
        let len = *src.pick(&[1u16, 2, 5, 32767, 32768, 0, 32769, 65535]);
        let log = match src.below(4) {
            0 => u32::MAX,
            1 => u32::MAX - 1,
            2 => 0u32.wrapping_sub(len as u32),
            _ => 1 << 31,
        };
        p32(&mut b, e, log);
        if src.chance(1, 2) {
            p16(&mut b, e + 4, len);
        }
        w.seal(s, &mut b);
        w.put(s, &b);
        desc += &format!("extent {k} of {cnt} in {s:?} at {log:#x}; ");
    }
    let names: Vec<Vec<u8>> = match node.dir() {
        Some(_) => {
            let mut q = path.clone();
            q.push(b'/');
            sampled_paths(&w.img).into_iter().map(|p| p.0).filter(|p| p.starts_with(&q)).collect()
        }
        None => Vec::new(),
    };
    for _ in 0..6 {
        if !names.is_empty() {
            paths.push(src.pick(&names).clone());
        }
    }
    for i in 0..4 {
        let mut q = path.clone();
        q.extend_from_slice(format!("/nothing {i}").as_bytes());
        paths.push(q);
    }
    paths.push(path);
    if src.chance(1, 3) {
        desc += &family_size(src, w, n)?;
    }
    Some(desc)
}

fn family_map(src: &mut Src, w: &mut World, n: usize) -> Option<String> {
    let bs = w.img.geo.bs as usize;
    if let Some(d) = w.img.nodes[n].dir().filter(|_| src.chance(1, 2)) {
        // Directory blocks that are fine one by one, but many.
        let leaf = d.block_types.iter().position(|t| *t == b'l').and_then(|l| w.img.phys(n, l as u64)).filter(|p| *p <= u32::MAX as u64);
        let leaf = match leaf {
            Some(p) if src.chance(1, 3) => p,
            _ => {
                let p = w.img.try_alloc(1, true)?;
                let mut b = vec![0u8; bs];
                let tail = if w.img.geo.csum { 12 } else { 0 };
                p16(&mut b, 4, if bs - tail == 65536 { 0 } else { (bs - tail) as u16 });
                if tail > 0 {
                    p16(&mut b, bs - 8, 12);
                    b[bs - 5] = 0xde;
                }
                let s = S::Dir(n, p, b'l');
                w.seal(s, &mut b);
                w.put(s, &b);
                p
            }
        };
        let mut t = leaf;
        let mut tables = Vec::new();
        for _ in 0..3 {
            let b = w.img.try_alloc(1, true)?;
            let mut v = vec![0u8; bs];
            for i in 0..bs / 4 {
                p32(&mut v, 4 * i, t as u32);
            }
            w.put(S::Ind(n, b), &v);
            tables.push(b as u32);
            t = b;
        }
        let size = odd_size(src, bs as u64, w.img.geo.blocks);
        put_inode(w, n, |b| {
            let f = g32(b, 0x20) & !0x80000;
            p32(b, 0x20, f);
            set_size(b, size);
            for i in 0..12 {
                p32(b, 0x28 + 4 * i, leaf as u32);
            }
            for i in 0..3 {
                p32(b, 0x58 + 4 * i, tables[i]);
            }
        });
        return Some(format!("block map with one directory block all over, size {size}, on node {n}"));
    }
    let mut bl = Vec::new();
    for _ in 0..src.range(1, 3) {
        bl.push(w.img.try_alloc(1, true)?);
    }
    for b in bl.clone() {
        let mut v = vec![0u8; bs];
        for i in 0..bs / 4 {
            let t = *src.pick(&bl);
            p32(&mut v, 4 * i, if src.chance(1, 50) { 0 } else { t as u32 });
        }
        w.put(S::Ind(n, b), &v);
    }
    let size = odd_size(src, bs as u64, w.img.geo.blocks);
    let mut ptrs = [0u32; 15];
    for p in ptrs.iter_mut() {
        if src.chance(2, 3) {
            *p = *src.pick(&bl) as u32;
        }
    }
    put_inode(w, n, |b| {
        let f = g32(b, 0x20) & !0x80000;
        p32(b, 0x20, f);
        set_size(b, size);
        for (i, p) in ptrs.iter().enumerate() {
            p32(b, 0x28 + 4 * i, *p);
        }
    });
    Some(format!("block map with indirect blocks that point to themselves, size {size}, on node {n}"))
}

fn family_size(src: &mut Src, w: &mut World, n: usize) -> Option<String> {
    let size = odd_size(src, w.img.geo.bs, w.img.geo.blocks);
    put_inode(w, n, |b| set_size(b, size));
    Some(format!("size {size} on node {n}"))
}

fn family_htree(src: &mut Src, w: &mut World) -> Option<String> {
    let c: Vec<(usize, Vec<u8>)> = w
        .img
        .nodes
        .iter()
        .enumerate()
        .filter_map(|(i, x)| x.dir().filter(|d| d.htree && !x.encrypted && d.block_types.len() > 1).map(|d| (i, d.block_types.clone())))
        .collect();
    if c.is_empty() {
        return None;
    }
    let (n, types) = src.pick(&c).clone();
    let bs = w.img.geo.bs as usize;
    let nb = types.len() as u64;
    let hash = src.u32() & !1;
    let style = src.below(4);
    let mut did = 0;
    // Make some of the leaves index nodes as well.
    for (l, t) in types.iter().enumerate() {
        let p = w.img.phys(n, l as u64)?;
        if *t == b'l' && !src.chance(1, 3) {
            continue;
        }
        if *t != b'l' || src.chance(1, 2) {
            let (s, o) = if *t == b'r' { (S::Dir(n, p, b'r'), 0x20) } else { (S::Dir(n, p, b'n'), 8) };
            let mut b = w.get(s);
            if *t == b'l' {
                b.fill(0);
                p16(&mut b, 4, bs as u16);
            }
            let limit = (bs - o) / 8 - 1;
            let cnt = match src.below(3) {
                0 => limit,
                1 => src.range(1, limit as u64) as usize,
                _ => limit.min(3),
            };
            p16(&mut b, o, limit as u16);
            p16(&mut b, o + 2, cnt as u16);
            for i in 0..cnt {
                let h = match style {
                    0 => hash | 1,
                    1 => (i as u32) << 1 | 1,
                    2 => 1,
                    _ => 0,
                };
                if i > 0 {
                    p32(&mut b, o + 8 * i, h);
                }
                p32(&mut b, o + 8 * i + 4, src.below(nb + 1) as u32);
            }
            if *t == b'r' {
                b[0x1e] = *src.pick(&[0u8, 1, 2, 3, 4, 127, 255]);
            }
            w.seal(s, &mut b);
            w.put(s, &b);
            did += 1;
        }
    }
    let mut r = format!("index nodes of node {n} refer to each other ({did}, style {style})");
    if src.chance(1, 3) {
        r += &family_size(src, w, n)?;
    }
    Some(r)
}

fn family_leaf(src: &mut Src, w: &mut World) -> Option<String> {
    let c: Vec<S> = w.structures().into_iter().filter(|s| matches!(s, S::Dir(_, _, b'l'))).collect();
    if c.is_empty() {
        return None;
    }
    let s = *src.pick(&c);
    let mut b = w.get(s);
    let rl = *src.pick(&[0u16, 4, 8, 12, 16, 65535, 65532]);
    let mut o = 0;
    while o + 8 <= b.len() {
        p32(&mut b, o, 0);
        p16(&mut b, o + 4, rl);
        p16(&mut b, o + 6, 0);
        o += if (8..4096).contains(&rl) { rl as usize } else { 8 };
    }
    w.seal(s, &mut b);
    w.put(s, &b);
    Some(format!("{s:?} full of records of length {rl}"))
}

fn family_sb(src: &mut Src, w: &mut World) -> Option<String> {
    let mut b = w.get(S::Sb);
    let mut d = String::from("superblock:");
    for _ in 0..src.range(1, 3) {
        // Blocks, inodes, per group, sizes.
        let (o, wd) = *src.pick(&[(4usize, 4usize), (0x150, 4), (0, 4), (0x20, 4), (0x28, 4), (0xfe, 2), (0x58, 2), (0x18, 4), (0xce, 2), (0x14, 4), (0xe0, 4), (0x54, 4)]);
        let v = match src.below(8) {
            0 => 0,
            1 => 1,
            2 => u32::MAX,
            3 => 1 << src.below(32),
            4 => (1u32 << src.below(32)).wrapping_sub(1),
            5 => 8,
            6 => 32,
            _ => src.u32(),
        };
        if wd == 4 {
            p32(&mut b, o, v);
        } else {
            p16(&mut b, o, v as u16);
        }
        d += &format!(" {o:#x}={v:#x}");
    }
    w.seal(S::Sb, &mut b);
    w.put(S::Sb, &b);
    Some(d)
}

fn family_journal(src: &mut Src, w: &mut World) -> Option<String> {
    let h = w.hist.clone()?;
    let n = h.jnode;
    let mut d = String::from("journal:");
    match src.below(4) {
        0 => d += &family_size(src, w, n)?,
        1 => d += &family_extents(src, w, n)?,
        2 => d += &family_map(src, w, n)?,
        _ => {}
    }
    let mut b = w.get(S::Jsb);
    // maxlen, first, start
    let big = *src.pick(&[u32::MAX, u32::MAX - 1, 1 << 31, 1 << 30, w.img.geo.blocks as u32, w.img.geo.blocks as u32 - 1]);
    match src.below(4) {
        0 => {
            pb(&mut b, 0x10, big);
        }
        1 => {
            pb(&mut b, 0x10, big);
            pb(&mut b, 0x1c, big - 1);
        }
        2 => {
            pb(&mut b, 0x10, big);
            pb(&mut b, 0x14, big - 2);
            pb(&mut b, 0x1c, big - 1);
        }
        _ => {}
    }
    w.seal(S::Jsb, &mut b);
    w.put(S::Jsb, &b);
    for _ in 0..src.below(4) {
        let k = src.below(w.log.len().max(1) as u64) as usize;
        if w.log.is_empty() {
            break;
        }
        let s = S::Log(k);
        let mut b = w.get(s);
        d += &w.alter(src, s, &mut b);
        w.seal(s, &mut b);
        w.put(s, &b);
    }
    Some(d)
}

fn pb(b: &mut [u8], o: usize, v: u32) {
    b[o..o + 4].copy_from_slice(&v.to_be_bytes());
}

/// Symlinks that lead to each other, with long targets.
fn links(src: &mut Src, img: &mut Img) {
    let l: Vec<usize> = img.paths().into_iter().map(|p| p.1).filter(|n| img.nodes[*n].is_link() && !img.nodes[*n].encrypted).collect();
    if l.is_empty() {
        return;
    }
    let paths: Vec<Vec<u8>> = img.paths().into_iter().filter(|p| img.nodes[p.1].is_link() || img.nodes[p.1].is_dir()).map(|p| p.0).collect();
    for n in l {
        if !src.chance(1, 2) {
            continue;
        }
        let max = (img.geo.bs as usize - 1).min(1000);
        let unit = match src.below(4) {
            0 => b"../".to_vec(),
            1 => b"./".to_vec(),
            2 => {
                let mut p = src.pick(&paths).clone();
                p.push(b'/');
                p
            }
            _ => b"/".to_vec(),
        };
        let reps = src.size(1, 400);
        let mut t = Vec::new();
        for _ in 0..reps {
            if t.len() + unit.len() > max {
                break;
            }
            t.extend_from_slice(&unit);
        }
        let p = src.pick(&paths);
        if t.len() + p.len() <= max {
            t.extend_from_slice(p);
        }
        if t.is_empty() {
            continue;
        }
        img.set_symlink(src, n, t);
    }
}

fn c12(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut cfg = super::meta::small_cfg();
    cfg.csum = if src.chance(1, 3) { Some(false) } else { None };
    // Long symlinks and large directories together would be slow without
    // anything being wrong: each component of each target is looked up.
    let linky = src.chance(1, 6);
    cfg.bigdir_pct = if linky { 0 } else { 40 };
    cfg.link_max = if linky { 1000 } else { 100 };
    let unclean = !linky && src.chance(1, 5);
    cfg.small_disk = true;
    let w = if unclean {
        World::gen(src, &cfg, 100)
    } else {
        let mut img = Img::begin(src, &cfg);
        img.gen_tree(src, &cfg);
        if linky {
            links(src, &mut img);
        }
        img.finish(src, &cfg);
        World::clean(img)
    };
    let bs = w.img.geo.bs;
    let desc = w.img.describe();
    let known = sampled_paths(&w.img);
    let all = w.structures();
    let mut mt = Meter { worst: 0, worst_mem: 0, ops: 0, total: 0, image: w.disk.size, what: String::new(), desc };
    let mut rounds = 0;
    for _ in 0..6 {
        if mt.total > 3_000_000_000 {
            ctx.label("out of budget");
            break;
        }
        let mut m = w.clone();
        let mut focus: Vec<Vec<u8>> = Vec::new();
        let fam = if linky {
            src.weighted(&[0, 0, 2, 0, 2, 2, 0, 3])
        } else if unclean { src.weighted(&[1, 1, 1, 1, 1, 1, 8, 2]) } else { src.weighted(&[6, 4, 3, 4, 1, 3, 0, 3]) };
        let pick_node = |src: &mut Src, focus: &mut Vec<Vec<u8>>| {
            let dirs: Vec<&(Vec<u8>, usize)> = known.iter().filter(|p| w.img.nodes[p.1].is_dir()).collect();
            let (p, n) = if src.chance(1, 2) { (*src.pick(&dirs)).clone() } else { src.pick(&known).clone() };
            focus.push(p);
            n
        };
        let what = match fam {
            0 => {
                let n = pick_node(src, &mut focus);
                family_extents(src, &mut m, n)
            }
            1 => {
                let n = pick_node(src, &mut focus);
                family_map(src, &mut m, n)
            }
            2 => {
                let n = pick_node(src, &mut focus);
                family_size(src, &mut m, n)
            }
            3 => family_htree(src, &mut m),
            4 => family_leaf(src, &mut m),
            5 => family_sb(src, &mut m),
            6 => family_journal(src, &mut m),
            _ => {
                let mut d = String::new();
                for _ in 0..src.size(1, 5) {
                    let s = pick_structure(src, &all);
                    let mut b = m.get(s);
                    d += &m.alter(src, s, &mut b);
                    m.seal(s, &mut b);
                    m.put(s, &b);
                }
                Some(d)
            }
        };
        let Some(what) = what else { continue };
        ctx.label(["extent trees", "block maps", "sizes", "hash trees", "directory records", "superblock counts", "journals", "any structure"][fam]);
        mt.what = what;
        rounds += 1;
        let fs = match mt.run("load", WORK, 0, || load(&m.disk))? {
            Ok(f) => f,
            Err(_) => {
                ctx.label("refused at load");
                continue;
            }
        };
        for _ in 0..4 {
            focus.push(src.pick(&known).0.clone());
        }
        if let Some(d) = w.img.nodes.iter().position(|x| x.dir().is_some_and(|d| d.htree)) {
            focus.push(w.img.path_of_dir(d));
        }
        for p in focus.clone() {
            let mut q = p;
            q.extend_from_slice(b"/no such name");
            focus.push(q);
        }
        for p in &focus {
            meter_path(&fs, src, &mut mt, p, bs)?;
        }
    }
    ctx.ops += mt.ops;
    ctx.nontrivial = rounds >= 3 && mt.ops >= 20;
    ctx.max("largest work of one operation (edges)", mt.worst);
    ctx.max("largest memory of one operation (bytes)", mt.worst_mem as u64);
    if ctx.want_sample {
        ctx.sample = format!("{}: {}; worst {} edges, {} bytes", mt.desc, mt.what, mt.worst, mt.worst_mem);
    }
    Ok(())
}

/// Every operation on a path, each within its limits.
fn meter_path(fs: &Ext4, src: &mut Src, mt: &mut Meter, p: &[u8], bs: u64) -> Res {
    let meta = mt.run("metadata", WORK, 0, || fs.metadata(p))?;
    let _ = mt.run("symlink_metadata", WORK, 0, || fs.symlink_metadata(p).is_ok())?;
    let _ = mt.run("read_link", WORK, 0, || fs.read_link(p).is_ok())?;
    let _ = mt.run("canonicalize", WORK, 0, || fs.canonicalize(p).is_ok())?;
    let _ = mt.run("exists", WORK, 0, || fs.exists(p).is_ok())?;
    let r = mt.run("read_dir", WORK, 0, || {
        let Ok(mut it) = fs.read_dir(p) else { return Ok(0) };
        let mut n = 0u64;
        loop {
            match it.next() {
                Some(Ok(_)) => n += 1,
                Some(Err(_)) | None => break,
            }
        }
        // Ended, by an error or not: it stays ended.
        for _ in 0..3 {
            if let Some(x) = it.next() {
                return Err(format!("{x:?}"));
            }
        }
        Ok(n)
    })?;
    match r {
        Ok(n) => {
            let _ = n;
        }
        Err(x) => crate::fail!("iterator:resumed", "read_dir({}) gave {x} after its end; {}; {}", super::meta::show(p), mt.what, mt.desc),
    }
    let len = match &meta {
        Ok(m) => m.len(),
        Err(_) => 0,
    };
    if let Ok(m) = &meta {
        if m.file_type().is_regular_file() && !len_ok(m.len()) {
            // Would be long, and rightly so.
        } else {
            let ret = if len > 3 << 30 { 0 } else { len as usize };
            let big = m.file_type().is_regular_file() && len > 3 << 30;
            let r = mt.run("read", WORK, ret, || fs.read(p).map(|d| d.len()))?;
            if big && r.is_ok() {
                crate::fail!("read:huge", "read of {len} bytes succeeded with 2 GiB of memory");
            }
        }
    }
    let Ok(mut f) = mt.run("open", WORK, 0, || fs.open(p))? else { return Ok(()) };
    let len = f.metadata().len();
    let blocks = len / bs;
    let mut buf = vec![0u8; 3000];
    for _ in 0..3 {
        let off = match src.below(4) {
            0 => src.edgy64(),
            1 => len.saturating_add(src.below(5)).saturating_sub(2),
            2 => src.below(len.max(1)),
            _ => src.size(0, 1 << 20),
        };
        if len.min(off) / bs > 1 << 21 {
            continue;
        }
        // The position is found by going through the blocks before it.
        let work = 50_000_000 + 400 * (len.min(off) / bs).min(blocks);
        let _ = mt.run("seek", work.max(300_000_000), 0, || f.seek_to(off).is_ok())?;
        let _ = mt.run("read_bytes", 300_000_000, 0, || f.read_bytes(&mut buf).is_ok())?;
    }
    Ok(())
}

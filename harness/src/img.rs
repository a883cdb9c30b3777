//! ext4 image generator, written from the on-disk format description and
//! independent of the library under test.
//!
//! Produces a sparse `Disk` plus a model (`nodes`) that says what a
//! correct reader must observe.

use crate::crc::{crc16, crc32c};
use crate::disk::Disk;
use crate::engine::Src;
use crate::hash;
use crate::rng::{mix2, Rng};
use std::collections::{BTreeMap, BTreeSet};

// Feature bits.
pub const C_HAS_JOURNAL: u32 = 0x4;
pub const C_DIR_INDEX: u32 = 0x20;
pub const I_FILETYPE: u32 = 0x2;
pub const I_RECOVER: u32 = 0x4;
pub const I_EXTENTS: u32 = 0x40;
pub const I_64BIT: u32 = 0x80;
pub const I_FLEX_BG: u32 = 0x200;
pub const I_CSUM_SEED: u32 = 0x2000;
pub const I_ENCRYPT: u32 = 0x10000;
pub const R_GDT_CSUM: u32 = 0x10;
pub const R_METADATA_CSUM: u32 = 0x400;

pub const FL_ENCRYPT: u32 = 0x800;
pub const FL_INDEX: u32 = 0x1000;
pub const FL_EXTENTS: u32 = 0x8_0000;

pub fn p16(b: &mut [u8], o: usize, v: u16) {
    b[o..o + 2].copy_from_slice(&v.to_le_bytes());
}
pub fn p32(b: &mut [u8], o: usize, v: u32) {
    b[o..o + 4].copy_from_slice(&v.to_le_bytes());
}
pub fn g16(b: &[u8], o: usize) -> u16 {
    u16::from_le_bytes(b[o..o + 2].try_into().unwrap())
}
pub fn g32(b: &[u8], o: usize) -> u32 {
    u32::from_le_bytes(b[o..o + 4].try_into().unwrap())
}

#[derive(Clone, Debug)]
pub struct Geo {
    pub log_bs: u32,
    pub bs: u64,
    pub blocks: u64,
    pub first_data: u32,
    pub bpg: u32,
    pub ipg: u32,
    pub groups: u32,
    pub inode_size: u16,
    pub is64: bool,
    /// Effective descriptor size.
    pub desc_size: u16,
    pub csum: bool,
    pub seed: u32,
    pub uuid: [u8; 16],
    pub label: [u8; 16],
    pub hash_seed: [u32; 4],
    /// s_flags: 1 signed, 2 unsigned, 0 unspecified.
    pub hash_flags: u32,
    pub compat: u32,
    pub incompat: u32,
    pub ro: u32,
    /// First block of each group's inode table.
    pub itable: Vec<u64>,
}

impl Geo {
    pub fn unsigned_hash(&self) -> bool {
        self.hash_flags & 2 != 0
    }
    pub fn gdt_block(&self) -> u64 {
        if self.bs == 1024 {
            2
        } else {
            1
        }
    }
    pub fn gdt_blocks(&self) -> u64 {
        let per = self.bs / self.desc_size as u64;
        (self.groups as u64).div_ceil(per)
    }
    /// Byte offset of an inode.
    pub fn inode_offset(&self, ino: u32) -> u64 {
        let g = (ino - 1) / self.ipg;
        let i = (ino - 1) % self.ipg;
        self.itable[g as usize] * self.bs + i as u64 * self.inode_size as u64
    }
    pub fn desc_offset(&self, g: u32) -> u64 {
        let per = self.bs / self.desc_size as u64;
        (self.gdt_block() + g as u64 / per) * self.bs
            + (g as u64 % per) * self.desc_size as u64
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Run {
    pub log: u64,
    pub len: u64,
    pub phys: u64,
    pub uninit: bool,
}

#[derive(Clone, Debug)]
pub struct Ent {
    pub name: Vec<u8>,
    pub node: usize,
}

#[derive(Clone, Debug, Default)]
pub struct DirInfo {
    pub parent: usize,
    pub ents: Vec<Ent>,
    pub htree: bool,
    pub hash_version: u8,
    pub depth: u8,
    /// Names of records that were deleted (not live).
    pub deleted: Vec<Vec<u8>>,
    /// Logical block -> type ('l'eaf, 'r'oot, 'n'ode).
    pub block_types: Vec<u8>,
}

#[derive(Clone, Debug)]
pub enum Kind {
    Reg,
    Dir(DirInfo),
    Symlink(Vec<u8>),
    /// Directory-entry type code: 3 chr, 4 blk, 5 fifo, 6 sock.
    Special(u8),
}

#[derive(Clone, Debug)]
pub struct Node {
    pub ino: u32,
    pub kind: Kind,
    pub perm: u16,
    pub uid: u32,
    pub gid: u32,
    pub size: u64,
    pub gen: u32,
    pub flags: u32,
    pub encrypted: bool,
    pub extents: bool,
    pub runs: Vec<Run>,
    pub root: [u8; 60],
    pub meta: Vec<u64>,
    pub depth: u32,
    pub extra_isize: u16,
    pub noise: u64,
}

impl Node {
    pub fn dir(&self) -> Option<&DirInfo> {
        match &self.kind {
            Kind::Dir(d) => Some(d),
            _ => None,
        }
    }
    pub fn dir_mut(&mut self) -> &mut DirInfo {
        match &mut self.kind {
            Kind::Dir(d) => d,
            _ => panic!("harness: not a dir"),
        }
    }
    pub fn is_dir(&self) -> bool {
        matches!(self.kind, Kind::Dir(_))
    }
    pub fn is_reg(&self) -> bool {
        matches!(self.kind, Kind::Reg)
    }
    pub fn is_link(&self) -> bool {
        matches!(self.kind, Kind::Symlink(_))
    }
    /// Directory entry type code.
    pub fn ft(&self) -> u8 {
        match &self.kind {
            Kind::Reg => 1,
            Kind::Dir(_) => 2,
            Kind::Special(c) => *c,
            Kind::Symlink(_) => 7,
        }
    }
    pub fn mode(&self) -> u16 {
        let t: u16 = match &self.kind {
            Kind::Reg => 0x8000,
            Kind::Dir(_) => 0x4000,
            Kind::Symlink(_) => 0xa000,
            Kind::Special(3) => 0x2000,
            Kind::Special(4) => 0x6000,
            Kind::Special(5) => 0x1000,
            Kind::Special(_) => 0xc000,
        };
        t | self.perm
    }
}

#[derive(Clone)]
pub struct Img {
    pub geo: Geo,
    pub disk: Disk,
    pub nodes: Vec<Node>,
    pub arng: Rng,
    alloc_mode: u64,
    cursor: u64,
    pub used_inos: BTreeSet<u32>,
    /// Superblock bytes as written (before checksum), for re-writing.
    pub journal_ino: Option<u32>,
    sb_noise: u64,
    /// The unclean device that shows `disk` once its journal is
    /// replayed.
    pub dirty: Option<Disk>,
    /// Blocks of `dirty` that the journal replaces.
    pub hidden: Vec<u64>,
    link_max: u64,
}

/// What to generate.
#[derive(Clone, Debug)]
pub struct Cfg {
    pub max_nodes: u64,
    /// Per-cent chance that the disk has more than 2^32 blocks.
    pub huge_pct: u64,
    /// Per-cent chance of inode tables of more than 4 GiB.
    pub wide_pct: u64,
    pub csum: Option<bool>,
    /// Weights: regular, dir, symlink, special.
    pub kinds: [u64; 4],
    /// Per-cent chance for a directory to be populated heavily.
    pub bigdir_pct: u64,
    pub bigdir_max: u64,
    pub encrypt: bool,
    /// Weights of file map styles:
    /// empty, contiguous, fragmented, big extents, block map, text.
    pub maps: [u64; 6],
    /// Per-cent of images with small disks (for flattening to a Vec).
    pub small_disk: bool,
    pub collide_pct: u64,
    pub max_log_bs: u64,
    /// Allow very sparse files (large sizes).
    pub big_sparse: bool,
    /// Force hash version for htree dirs (e.g. unsupported one).
    pub hash_version: Option<u8>,
    pub clean: bool,
    /// Longest symlink target with many components.
    pub link_max: u64,
}

impl Default for Cfg {
    fn default() -> Self {
        Self {
            max_nodes: 10,
            huge_pct: 2,
            wide_pct: 0,
            csum: None,
            kinds: [5, 4, 3, 1],
            bigdir_pct: 10,
            bigdir_max: 300,
            encrypt: false,
            maps: [1, 4, 6, 1, 4, 3],
            small_disk: false,
            collide_pct: 0,
            max_log_bs: 6,
            big_sparse: true,
            hash_version: None,
            clean: false,
            link_max: 4095,
        }
    }
}

pub fn round4(n: usize) -> usize {
    n.div_ceil(4) * 4
}

/// Encode a directory record length.
pub fn enc_rec_len(len: usize, bs: u64) -> u16 {
    if len < 65536 {
        len as u16
    } else {
        assert!(len as u64 == bs && bs == 65536);
        65535
    }
}

pub fn gen_geo(src: &mut Src, cfg: &Cfg) -> Geo {
    let huge = cfg.huge_pct > 0 && src.chance(cfg.huge_pct, 100);
    let log_bs = if huge {
        // Large blocks keep the number of groups manageable.
        6 - src.below(2)
    } else {
        let c = [0u64, 2, 1, 3, 4, 6, 5];
        let w = [6u64, 5, 2, 1, 1, 1, 1];
        let v = c[src.weighted(&w)];
        v.min(cfg.max_log_bs)
    } as u32;
    let bs = 1024u64 << log_bs;
    let wide = !huge && cfg.wide_pct > 0 && src.chance(cfg.wide_pct, 100);
    let (log_bs, bs) = if wide { (6, 65536) } else { (log_bs, bs) };
    let is64 = huge || wide || src.chance(1, 2);
    let desc_size = if is64 {
        *src.pick(&[64u16, 64, 64, 64, 128, 256, 512, 1024])
    } else {
        32
    };
    let isizes: Vec<u16> = [256u16, 256, 256, 128, 512, 1024, 2048, 4096]
        .into_iter()
        .filter(|s| *s as u64 <= bs)
        .collect();
    let mut inode_size = *src.pick(&isizes);
    if wide {
        inode_size = 32768;
    } else if bs >= 8192 && src.chance(1, 8) {
        inode_size = (bs / 2).min(32768) as u16;
    }
    let csum = cfg.csum.unwrap_or_else(|| src.chance(1, 2));
    let first_data = if bs == 1024 { 1 } else { 0 };
    let ipb = (bs / inode_size as u64) as u32;
    let (bpg, blocks, ipg);
    if wide {
        bpg = (8 * bs) as u32;
        blocks = src.range(300_000, 500_000);
        ipg = 0x20000 + 2 * src.range(1, 0x10000) as u32;
    } else if huge {
        bpg = (8 * bs).min(65528) as u32;
        blocks = (1u64 << 32) + src.range(1 << 16, 1 << 26);
        ipg = ipb.max(8) * src.range(1, 4) as u32;
    } else {
        // Small groups make many of them.
        let full = (8 * bs).min(65528);
        bpg = match src.weighted(&[3, 2, 2]) {
            0 => full,
            1 => (full / 8).max(256),
            _ => {
                let k = src.range(32, full / 8);
                k * 8
            }
        } as u32;
        let min_blocks = if cfg.small_disk { 700 } else { 6000 };
        let max_blocks = if cfg.small_disk { 1500 } else { 400_000 };
        let b = match src.weighted(&[3, 3, 2]) {
            0 => min_blocks + src.below(min_blocks),
            1 => min_blocks + src.below(max_blocks / 8),
            _ => src.range(min_blocks, max_blocks),
        };
        // Not too many groups.
        blocks = b.min(bpg as u64 * 400) + first_data as u64;
        let max_mult = (8 * bs / ipb.max(8) as u64).min(32);
        ipg = ipb.max(8) * src.range(1, max_mult.max(1)) as u32;
    }
    let groups = (blocks - first_data as u64).div_ceil(bpg as u64) as u32;
    // Room for every node a tree may need.
    let mut ipg = ipg;
    while ipg as u64 * (groups as u64) < 160 {
        ipg += ipb.max(8);
    }
    let mut incompat = I_FILETYPE;
    if is64 {
        incompat |= I_64BIT;
    }
    // Images always announce extents support unless decided otherwise
    // by a check; the flag has no effect on interpretation.
    incompat |= I_EXTENTS;
    if src.chance(1, 2) {
        incompat |= I_FLEX_BG;
    }
    let csum_seed_feat = csum && src.chance(1, 3);
    if csum_seed_feat {
        incompat |= I_CSUM_SEED;
    }
    let mut ro = 0x1 | 0x2;
    if csum {
        ro |= R_METADATA_CSUM;
    } else if src.chance(1, 3) {
        ro |= R_GDT_CSUM;
    }
    for bit in [0x8u32, 0x20, 0x40, 0x100, 0x2000, 0x8000] {
        if src.chance(1, 4) {
            ro |= bit;
        }
    }
    let mut compat = C_DIR_INDEX;
    for bit in [0x8u32, 0x10, 0x200, 0x800, 0x1000] {
        if src.chance(1, 4) {
            compat |= bit;
        }
    }
    let nz = Rng(src.u64());
    let mut r = nz.clone();
    let mut uuid = [0u8; 16];
    for b in uuid.iter_mut() {
        *b = r.next() as u8;
    }
    let mut label = [0u8; 16];
    let ll = src.below(17) as usize;
    for b in label.iter_mut().take(ll) {
        *b = match r.below(8) {
            0 => r.next() as u8,
            _ => b'a' + r.below(26) as u8,
        };
    }
    let seed_kind = src.weighted(&[7, 2, 2]);
    let mut hash_seed = [r.next() as u32, r.next() as u32, r.next() as u32, r.next() as u32];
    match seed_kind {
        0 => {}
        1 => hash_seed = [0; 4],
        _ => {
            // Some zero words.
            let z = 1 + r.below(14);
            for (i, w) in hash_seed.iter_mut().enumerate() {
                if z >> i & 1 != 0 {
                    *w = 0;
                }
            }
        }
    }
    let seed = if csum_seed_feat {
        r.next() as u32
    } else {
        crc32c(!0, &uuid)
    };
    let hash_flags = *src.pick(&[1u32, 2, 1, 0]);
    Geo {
        log_bs,
        bs,
        blocks,
        first_data,
        bpg,
        ipg,
        groups,
        inode_size,
        is64,
        desc_size,
        csum,
        seed,
        uuid,
        label,
        hash_seed,
        hash_flags,
        compat,
        incompat,
        ro,
        itable: Vec::new(),
    }
}

pub fn gen_name(src: &mut Src, r: &mut Rng) -> Vec<u8> {
    let mut name: Vec<u8> = match src.weighted(&[8, 3, 2, 1, 1, 1]) {
        0 => {
            let n = 1 + r.below(10);
            (0..n).map(|_| b'a' + r.below(26) as u8).collect()
        }
        1 => {
            let n = 1 + r.below(40);
            (0..n)
                .map(|_| loop {
                    let b = r.next() as u8;
                    if b != 0 && b != b'/' {
                        break b;
                    }
                })
                .collect()
        }
        2 => {
            let w = ["é", "日本", "ß", "x", "😀", "a"];
            let n = 1 + r.below(8);
            (0..n).flat_map(|_| w[r.below(6) as usize].bytes()).collect()
        }
        3 => {
            let n = if r.below(2) == 0 { 255 } else { 200 + r.below(56) };
            (0..n).map(|_| b'A' + r.below(26) as u8).collect()
        }
        4 => {
            let t: [&[u8]; 8] = [b"...", b"..a", b".a", b" ", b"a ", b"\n", b"-", b"\xff"];
            t[r.below(8) as usize].to_vec()
        }
        _ => {
            let n = 1 + r.below(255);
            (0..n)
                .map(|_| loop {
                    let b = r.next() as u8;
                    if b != 0 && b != b'/' {
                        break b;
                    }
                })
                .collect()
        }
    };
    name.truncate(255);
    if name == b"." || name == b".." {
        name.push(b'x');
    }
    name
}

impl Img {
    // ---------------------------------------------------------------
    // Allocation
    // ---------------------------------------------------------------

    fn first_fit(&self, start: u64, len: u64, hi: u64) -> Option<u64> {
        let mut pos = start;
        loop {
            if pos + len > hi {
                return None;
            }
            if let Some((s, l)) = self.disk.used.range(..pos + len).next_back() {
                if s + l > pos {
                    pos = s + l;
                    continue;
                }
            }
            return Some(pos);
        }
    }

    /// The device as a reader gets it.
    pub fn media(&self) -> &Disk {
        self.dirty.as_ref().unwrap_or(&self.disk)
    }

    pub fn mark_used(&mut self, start: u64, len: u64) {
        if len > 0 {
            self.disk.used.insert(start, len);
        }
    }

    pub fn try_alloc(&mut self, len: u64, lim32: bool) -> Option<u64> {
        let hi = if lim32 { self.geo.blocks.min(1 << 32) } else { self.geo.blocks };
        let lo = self.geo.first_data as u64 + 1;
        let mode = if self.alloc_mode == 4 { self.arng.below(4) } else { self.alloc_mode };
        let start = match mode {
            0 => self.cursor.max(lo),
            1 => lo + self.arng.below(hi - lo),
            2 => {
                // Near the end of the device.
                let back = len + self.arng.below(64);
                hi.saturating_sub(back).max(lo)
            }
            _ => {
                if hi > (1 << 32) {
                    (1u64 << 32) - 4 + self.arng.below(64)
                } else {
                    lo + self.arng.below((hi - lo) / 2 + 1)
                }
            }
        };
        // The same block number modulo 2^32 as something else.
        let start = if hi > (1 << 32) && self.arng.below(3) == 0 && !self.disk.used.is_empty() {
            let below = self.arng.below(hi - (1 << 32));
            match self.disk.used.range(..=below).next_back() {
                Some((s, l)) => (1 << 32) + s + self.arng.below(*l),
                None => start,
            }
        } else {
            start
        };
        let p = self.first_fit(start, len, hi).or_else(|| self.first_fit(lo, len, hi))?;
        self.mark_used(p, len);
        if mode == 0 {
            self.cursor = p + len;
        }
        Some(p)
    }

    pub fn alloc(&mut self, len: u64, lim32: bool) -> u64 {
        self.try_alloc(len, lim32)
            .unwrap_or_else(|| panic!("harness: disk full allocating {len} of {}", self.geo.blocks))
    }

    pub fn free(&mut self, start: u64) {
        self.disk.used.remove(&start);
    }

    // ---------------------------------------------------------------
    // Reference contents
    // ---------------------------------------------------------------

    /// The bytes a correct reader returns for [off, off+len) of a node's
    /// data (clipped to the size).
    pub fn file_bytes(&self, n: usize, off: u64, len: u64) -> Vec<u8> {
        self.file_bytes_on(&self.disk, n, off, len)
    }

    pub fn file_bytes_on(&self, disk: &Disk, n: usize, off: u64, len: u64) -> Vec<u8> {
        let node = &self.nodes[n];
        let end = off.saturating_add(len).min(node.size);
        if off >= end {
            return Vec::new();
        }
        let mut out = vec![0u8; (end - off) as usize];
        let bs = self.geo.bs;
        let first = off / bs;
        let last = (end - 1) / bs;
        for run in &node.runs {
            if run.uninit || run.log > last || run.log + run.len <= first {
                continue;
            }
            let a = run.log.max(first);
            let b = (run.log + run.len).min(last + 1);
            // Byte range of this piece in the file.
            let fa = (a * bs).max(off);
            let fb = (b * bs).min(end);
            let da = (run.phys + (a - run.log)) * bs + (fa - a * bs);
            disk.read_at(da, &mut out[(fa - off) as usize..(fb - off) as usize]);
        }
        out
    }

    // ---------------------------------------------------------------
    // Mapping writers
    // ---------------------------------------------------------------

    pub fn ino_seed(&self, n: usize) -> u32 {
        let node = &self.nodes[n];
        let c = crc32c(self.geo.seed, &node.ino.to_le_bytes());
        crc32c(c, &node.gen.to_le_bytes())
    }

    /// Write the extent tree of node `n`; returns i_block.
    pub fn write_extents(&mut self, n: usize, extra_depth: u64, fan: u64) {
        let bs = self.geo.bs as usize;
        let seed = self.ino_seed(n);
        let csum = self.geo.csum;
        let runs = self.nodes[n].runs.clone();
        let mut rng = Rng(self.arng.next());
        let mut level: Vec<(u64, u64, [u8; 12])> = runs
            .iter()
            .map(|r| {
                let mut e = [0u8; 12];
                p32(&mut e, 0, r.log as u32);
                assert!(r.len >= 1 && r.len <= if r.uninit { 32767 } else { 32768 });
                p16(&mut e, 4, if r.uninit { (r.len + 32768) as u16 } else { r.len as u16 });
                p16(&mut e, 6, (r.phys >> 32) as u16);
                p32(&mut e, 8, r.phys as u32);
                (r.log, r.log + r.len, e)
            })
            .collect();
        let cap = (bs - 12 - if csum { 4 } else { 0 }) / 12;
        // Kernel's capacity ignores the tail but the division leaves room.
        let cap_hdr = (bs - 12) / 12;
        let cap = cap.min(cap_hdr);
        // Minimal depth.
        let mut t = 0u32;
        let mut c = level.len();
        while c > 4 {
            c = c.div_ceil(cap);
            t += 1;
        }
        let mut want = (t as u64 + extra_depth).min(5) as u32;
        if level.is_empty() {
            want = 0;
        }
        let mut meta = Vec::new();
        for lvl in 0..want {
            let remaining = (want - lvl) as f64;
            let len = level.len();
            // Smallest chunk that still converges.
            let mut min_c = 1usize;
            if len > 4 {
                min_c = ((len as f64 / 4.0).powf(1.0 / remaining).ceil() as usize).max(1);
                if min_c > 1 || len > 4 {
                    min_c = min_c.max(2);
                }
            }
            let mut next = Vec::new();
            let mut i = 0;
            while i < len {
                let k = (min_c + rng.below(fan + 1) as usize).min(cap).min(len - i);
                let chunk = &level[i..i + k];
                let mut blk = vec![0u8; bs];
                // Unused slots keep stale bytes, as on real disks.
                Disk::fill_noise(&mut rng, &mut blk[12..]);
                p16(&mut blk, 0, 0xf30a);
                p16(&mut blk, 2, k as u16);
                p16(&mut blk, 4, cap_hdr as u16);
                p16(&mut blk, 6, lvl as u16);
                p32(&mut blk, 8, rng.next() as u32);
                for (j, (_, _, e)) in chunk.iter().enumerate() {
                    blk[12 + 12 * j..24 + 12 * j].copy_from_slice(e);
                }
                if csum {
                    let o = 12 + 12 * cap_hdr;
                    let v = crc32c(seed, &blk[..o]);
                    p32(&mut blk, o, v);
                }
                let b = self.alloc(1, false);
                self.disk.set_block(b, blk);
                meta.push(b);
                // Linux requires the key to equal the first entry's block.
                let key = chunk[0].0;
                let mut e = [0u8; 12];
                p32(&mut e, 0, key as u32);
                p32(&mut e, 4, b as u32);
                p16(&mut e, 8, (b >> 32) as u16);
                p16(&mut e, 10, if rng.below(3) == 0 { rng.next() as u16 } else { 0 });
                let end = chunk.last().unwrap().1;
                next.push((key, end, e));
                i += k;
            }
            level = next;
        }
        assert!(level.len() <= 4, "harness: extent root overflow {} want {want}", level.len());
        let mut root = [0u8; 60];
        Disk::fill_noise(&mut rng, &mut root[12..]);
        p16(&mut root, 0, 0xf30a);
        p16(&mut root, 2, level.len() as u16);
        p16(&mut root, 4, 4);
        p16(&mut root, 6, want as u16);
        p32(&mut root, 8, rng.next() as u32);
        for (j, (_, _, e)) in level.iter().enumerate() {
            root[12 + 12 * j..24 + 12 * j].copy_from_slice(e);
        }
        let node = &mut self.nodes[n];
        node.root = root;
        node.meta = meta;
        node.depth = want;
        node.flags |= FL_EXTENTS;
        node.extents = true;
    }

    /// Write an indirect block map for node `n`.
    pub fn write_blockmap(&mut self, n: usize) {
        let bs = self.geo.bs;
        let ppb = bs / 4;
        let runs = self.nodes[n].runs.clone();
        let mut ptrs: BTreeMap<u64, u32> = BTreeMap::new();
        for r in &runs {
            assert!(!r.uninit);
            for i in 0..r.len {
                ptrs.insert(r.log + i, (r.phys + i) as u32);
            }
        }
        let mut root = [0u8; 60];
        for i in 0..12u64 {
            if let Some(p) = ptrs.get(&i) {
                p32(&mut root, i as usize * 4, *p);
            }
        }
        let mut meta = Vec::new();
        let mut base = 12u64;
        let mut span = ppb;
        for (slot, lvl) in [(12usize, 1u32), (13, 2), (14, 3)] {
            let b = self.write_ind(&ptrs, base, lvl, &mut meta);
            p32(&mut root, slot * 4, b as u32);
            base += span;
            span *= ppb;
        }
        let node = &mut self.nodes[n];
        node.root = root;
        node.meta = meta;
        node.extents = false;
        node.flags &= !FL_EXTENTS;
    }

    fn write_ind(&mut self, ptrs: &BTreeMap<u64, u32>, base: u64, lvl: u32, meta: &mut Vec<u64>) -> u64 {
        let bs = self.geo.bs;
        let ppb = bs / 4;
        let child_span = ppb.pow(lvl - 1);
        let end = base + child_span * ppb;
        if ptrs.range(base..end).next().is_none() {
            return 0;
        }
        let b = self.alloc(1, true);
        let mut blk = vec![0u8; bs as usize];
        if lvl == 1 {
            for (l, p) in ptrs.range(base..end) {
                p32(&mut blk, (l - base) as usize * 4, *p);
            }
        } else {
            let mut at = base;
            while let Some((l, _)) = ptrs.range(at..end).next() {
                let slot = (l - base) / child_span;
                let cb = base + slot * child_span;
                let c = self.write_ind(ptrs, cb, lvl - 1, meta);
                p32(&mut blk, slot as usize * 4, c as u32);
                at = cb + child_span;
            }
        }
        self.disk.set_block(b, blk);
        meta.push(b);
        b
    }

    /// Allocate physical blocks for `n` contiguous logical blocks as a
    /// (possibly fragmented) mapping and write the mapping.
    pub fn map_contiguous(&mut self, n: usize, nblocks: u64, frag: u64, extents: bool) {
        let mut runs = Vec::new();
        let mut log = 0;
        while log < nblocks {
            let k = if frag == 0 { nblocks - log } else { 1 + self.arng.below(frag) }
                .min(nblocks - log)
                .min(32768);
            let phys = self.alloc(k, !extents);
            runs.push(Run { log, len: k, phys, uninit: false });
            log += k;
        }
        self.nodes[n].runs = runs;
        if extents {
            let d = self.arng.below(3);
            self.write_extents(n, if frag == 0 { 0 } else { d }, 3);
        } else {
            self.write_blockmap(n);
        }
    }

    /// Write explicit data through a node's mapping.
    pub fn write_data(&mut self, n: usize, data: &[u8]) {
        let bs = self.geo.bs;
        let runs = self.nodes[n].runs.clone();
        for (i, chunk) in data.chunks(bs as usize).enumerate() {
            let l = i as u64;
            let r = runs
                .iter()
                .find(|r| l >= r.log && l < r.log + r.len)
                .expect("harness: data outside mapping");
            self.disk.write_at((r.phys + l - r.log) * bs, chunk);
        }
    }

    /// Physical block of a logical block of a node.
    pub fn phys(&self, n: usize, log: u64) -> Option<u64> {
        self.nodes[n]
            .runs
            .iter()
            .find(|r| log >= r.log && log < r.log + r.len)
            .map(|r| r.phys + log - r.log)
    }

    // ---------------------------------------------------------------
    // Inodes, descriptors, superblock
    // ---------------------------------------------------------------

    pub fn inode_bytes(&self, n: usize) -> Vec<u8> {
        let node = &self.nodes[n];
        let sz = self.geo.inode_size as usize;
        let mut b = vec![0u8; sz];
        let mut rng = Rng(node.noise);
        Disk::fill_noise(&mut rng, &mut b);
        p16(&mut b, 0, node.mode());
        p16(&mut b, 2, node.uid as u16);
        p32(&mut b, 4, node.size as u32);
        p32(&mut b, 0x14, 0); // dtime
        p16(&mut b, 0x18, node.gid as u16);
        p16(&mut b, 0x1a, 1 + (node.noise % 3) as u16);
        let fast_link = matches!(&node.kind, Kind::Symlink(t) if t.len() < 60);
        let nblk = node
            .runs
            .iter()
            .map(|r| r.len)
            .sum::<u64>()
            .wrapping_add(node.meta.len() as u64)
            * (self.geo.bs / 512);
        p32(&mut b, 0x1c, if fast_link { 0 } else { nblk as u32 });
        p32(&mut b, 0x20, node.flags);
        b[0x28..0x64].copy_from_slice(&node.root);
        p32(&mut b, 0x64, node.gen);
        p32(&mut b, 0x68, 0); // file_acl
        p32(&mut b, 0x6c, (node.size >> 32) as u32);
        // i_blocks_high, i_file_acl_high
        p16(&mut b, 0x74, 0);
        p16(&mut b, 0x76, 0);
        p16(&mut b, 0x78, (node.uid >> 16) as u16);
        p16(&mut b, 0x7a, (node.gid >> 16) as u16);
        p16(&mut b, 0x7c, 0);
        if sz > 128 {
            p16(&mut b, 0x80, node.extra_isize);
            if node.extra_isize >= 4 {
                p16(&mut b, 0x82, 0);
            }
        }
        if self.geo.csum {
            let c = crc32c(self.ino_seed(n), &b);
            p16(&mut b, 0x7c, c as u16);
            if sz > 128 && node.extra_isize >= 4 {
                p16(&mut b, 0x82, (c >> 16) as u16);
            }
        } else {
            // Fields have no meaning without checksums.
            p16(&mut b, 0x7c, rng.next() as u16);
        }
        b
    }

    pub fn write_inode(&mut self, n: usize) {
        let b = self.inode_bytes(n);
        let off = self.geo.inode_offset(self.nodes[n].ino);
        self.disk.write_at(off, &b);
    }

    pub fn desc_bytes(&self, g: u32) -> Vec<u8> {
        let ds = self.geo.desc_size as usize;
        let mut b = vec![0u8; ds];
        let mut rng = Rng(mix2(self.sb_noise, g as u64));
        Disk::fill_noise(&mut rng, &mut b);
        // Flags: only ones with no meaning for a used inode table.
        p16(&mut b, 0x12, 4);
        let t = self.geo.itable[g as usize];
        p32(&mut b, 0x8, t as u32);
        // Bitmap locations: any block; not used for reading.
        let bb = self.geo.itable[g as usize].wrapping_sub(1) as u32;
        p32(&mut b, 0x0, bb);
        p32(&mut b, 0x4, bb);
        if ds >= 64 {
            p32(&mut b, 0x20, 0);
            p32(&mut b, 0x24, 0);
            p32(&mut b, 0x28, (t >> 32) as u32);
        }
        p16(&mut b, 0x1e, 0);
        if self.geo.csum {
            let c = crc32c(self.geo.seed, &g.to_le_bytes());
            let c = crc32c(c, &b);
            p16(&mut b, 0x1e, c as u16);
        } else if self.geo.ro & R_GDT_CSUM != 0 {
            let c = crc16(!0, &self.geo.uuid);
            let c = crc16(c, &g.to_le_bytes());
            let c = crc16(c, &b[..0x1e]);
            let c = if ds > 32 { crc16(c, &b[0x20..]) } else { c };
            p16(&mut b, 0x1e, c);
        } else {
            p16(&mut b, 0x1e, rng.next() as u16);
        }
        b
    }

    pub fn write_gdt(&mut self) {
        let bs = self.geo.bs as usize;
        let per = bs / self.geo.desc_size as usize;
        let ds = self.geo.desc_size as usize;
        let mut g = 0u32;
        for blk in 0..self.geo.gdt_blocks() {
            let mut b = vec![0u8; bs];
            for i in 0..per {
                if g >= self.geo.groups {
                    break;
                }
                let d = self.desc_bytes(g);
                b[i * ds..(i + 1) * ds].copy_from_slice(&d);
                g += 1;
            }
            self.disk.set_block(self.geo.gdt_block() + blk, b);
        }
    }

    pub fn sb_bytes(&self) -> Vec<u8> {
        let g = &self.geo;
        let mut b = vec![0u8; 1024];
        let inodes = g.ipg as u64 * g.groups as u64;
        p32(&mut b, 0x0, inodes as u32);
        p32(&mut b, 0x4, g.blocks as u32);
        p32(&mut b, 0x8, (self.sb_noise >> 8) as u32 & 0xff); // reserved
        p32(&mut b, 0xc, (g.blocks / 2) as u32);
        p32(&mut b, 0x10, (inodes / 2) as u32);
        p32(&mut b, 0x14, g.first_data);
        p32(&mut b, 0x18, g.log_bs);
        p32(&mut b, 0x1c, g.log_bs);
        p32(&mut b, 0x20, g.bpg);
        p32(&mut b, 0x24, g.bpg);
        p32(&mut b, 0x28, g.ipg);
        p32(&mut b, 0x2c, 0x6000_0000);
        p32(&mut b, 0x30, 0x6000_0001);
        p16(&mut b, 0x34, (self.sb_noise & 0x7f) as u16);
        p16(&mut b, 0x36, 0xffff);
        p16(&mut b, 0x38, 0xef53);
        p16(&mut b, 0x3a, 1 + (self.sb_noise >> 16 & 1) as u16 * 2);
        p16(&mut b, 0x3c, 1);
        p32(&mut b, 0x4c, 1);
        p32(&mut b, 0x54, 11);
        p16(&mut b, 0x58, g.inode_size);
        p32(&mut b, 0x5c, g.compat);
        p32(&mut b, 0x60, g.incompat);
        p32(&mut b, 0x64, g.ro);
        b[0x68..0x78].copy_from_slice(&g.uuid);
        b[0x78..0x88].copy_from_slice(&g.label);
        let mut rng = Rng(self.sb_noise);
        for i in 0..64 {
            b[0x88 + i] = b'm' + (rng.next() % 8) as u8;
        }
        p32(&mut b, 0xe0, self.journal_ino.unwrap_or(0));
        for i in 0..4 {
            p32(&mut b, 0xec + i * 4, g.hash_seed[i]);
        }
        b[0xfc] = 1; // default hash version
        p16(&mut b, 0xfe, if g.is64 { g.desc_size } else { 0 });
        p32(&mut b, 0x150, (g.blocks >> 32) as u32);
        p16(&mut b, 0x15c, 32);
        p16(&mut b, 0x15e, 32);
        p32(&mut b, 0x160, g.hash_flags);
        b[0x174] = 4; // log_groups_per_flex
        b[0x175] = if g.csum { 1 } else { 0 };
        if g.incompat & I_CSUM_SEED != 0 {
            p32(&mut b, 0x270, g.seed);
        }
        if g.csum {
            let c = crc32c(!0, &b[..0x3fc]);
            p32(&mut b, 0x3fc, c);
        }
        b
    }

    pub fn write_sb(&mut self) {
        let b = self.sb_bytes();
        self.disk.write_at(1024, &b);
    }

    // ---------------------------------------------------------------
    // Directories
    // ---------------------------------------------------------------

    fn leaf_tail(&self, n: usize, blk: &mut [u8]) {
        if self.geo.csum {
            let bs = blk.len();
            let t = bs - 12;
            p32(blk, t, 0);
            p16(blk, t + 4, 12);
            blk[t + 6] = 0;
            blk[t + 7] = 0xde;
            let c = crc32c(self.ino_seed(n), &blk[..t]);
            p32(blk, t + 8, c);
        }
    }

    pub fn reseal_leaf(&self, n: usize, blk: &mut [u8]) {
        self.leaf_tail(n, blk);
    }

    fn dx_tail(&self, n: usize, blk: &mut [u8], count_off: usize) {
        if self.geo.csum {
            let limit = g16(blk, count_off) as usize;
            let count = g16(blk, count_off + 2) as usize;
            let t = count_off + limit * 8;
            p32(blk, t, 0);
            p32(blk, t + 4, 0);
            let c = crc32c(self.ino_seed(n), &blk[..count_off + count * 8]);
            let c = crc32c(c, &blk[t..t + 8]);
            p32(blk, t + 4, c);
        }
    }

    pub fn reseal_dx(&self, n: usize, blk: &mut [u8], count_off: usize) {
        self.dx_tail(n, blk, count_off);
    }

    /// Lay out records into one leaf block. `recs` must fit.
    /// Slack is distributed by `rng`; deleted records are inserted where
    /// there is room.
    fn fill_leaf(
        &self,
        recs: &[(u32, u8, Vec<u8>)],
        rng: &mut Rng,
        del: &mut Vec<Vec<u8>>,
        first_fixed: usize,
    ) -> Vec<u8> {
        let bs = self.geo.bs as usize;
        let usable = bs - if self.geo.csum { 12 } else { 0 };
        let mut blk = vec![0u8; bs];
        Disk::fill_noise(rng, &mut blk[..usable]);
        let need: usize = recs.iter().map(|r| round4(8 + r.2.len())).sum();
        assert!(need <= usable, "harness: leaf overflow");
        let mut slack = usable - need;
        let mut pos = 0usize;
        let put = |pos: usize, ino: u32, ft: u8, name: &[u8], rl: usize, blk: &mut Vec<u8>| {
            p32(blk, pos, ino);
            p16(blk, pos + 4, enc_rec_len(rl, bs as u64));
            blk[pos + 6] = name.len() as u8;
            blk[pos + 7] = ft;
            blk[pos + 8..pos + 8 + name.len()].copy_from_slice(name);
        };
        if recs.is_empty() {
            // A block without live records.
            let nl = rng.below(9) as usize;
            let name: Vec<u8> = (0..nl).map(|_| b'z' - rng.below(20) as u8).collect();
            put(0, 0, rng.below(8) as u8, &name, usable, &mut blk);
            if nl > 0 {
                del.push(name);
            }
        }
        for (i, (ino, ft, name)) in recs.iter().enumerate() {
            let last = i + 1 == recs.len();
            let min = round4(8 + name.len());
            // Deleted record before this one (not before the fixed
            // leading '.' and '..').
            if i >= first_fixed && slack >= 16 && rng.below(6) == 0 {
                let nl = 1 + rng.below((slack - 8).min(24) as u64) as usize;
                let dl = round4(8 + nl);
                if dl <= slack {
                    let dn: Vec<u8> = if rng.below(4) == 0 && !name.is_empty() && name.len() <= nl {
                        // Same name as a live one.
                        name.clone()
                    } else {
                        (0..nl).map(|_| b'a' + rng.below(26) as u8).collect()
                    };
                    put(pos, 0, rng.below(8) as u8, &dn, dl, &mut blk);
                    del.push(dn);
                    pos += dl;
                    slack -= dl;
                }
            }
            let mut extra = 0usize;
            if last {
                extra = slack;
            } else if i + 1 > first_fixed && slack >= 4 && rng.below(4) == 0 {
                extra = (4 * (1 + rng.below((slack / 4).min(16) as u64) as usize)).min(slack);
            }
            let rl = min + extra;
            put(pos, *ino, *ft, name, rl, &mut blk);
            // Stale record inside the slack (as left by deletion).
            if extra >= 12 && rng.below(2) == 0 {
                let nl = (extra - 8).min(1 + rng.below(20) as usize);
                let dn: Vec<u8> = (0..nl).map(|_| b'a' + rng.below(26) as u8).collect();
                put(pos + min, 1 + rng.below(60) as u32, 1, &dn, extra, &mut blk);
                del.push(dn);
            }
            pos += rl;
            slack -= extra;
        }
        blk
    }

    /// Build all blocks of a directory and map them.
    pub fn write_dir(&mut self, n: usize, frag: u64, extents: bool, fill_pct: u64) {
        let seed = self.arng.next();
        let mut rng = Rng(seed);
        let bs = self.geo.bs as usize;
        let usable = bs - if self.geo.csum { 12 } else { 0 };
        let info = self.nodes[n].dir().unwrap().clone();
        let me = self.nodes[n].ino;
        let parent = self.nodes[info.parent].ino;
        let mut del = Vec::new();
        let mut types = Vec::new();
        let mut blocks: Vec<Vec<u8>> = Vec::new();
        let recs: Vec<(u32, u8, Vec<u8>)> = info
            .ents
            .iter()
            .map(|e| (self.nodes[e.node].ino, self.nodes[e.node].ft(), e.name.clone()))
            .collect();
        if !info.htree {
            let mut cur = vec![(me, 2u8, b".".to_vec()), (parent, 2u8, b"..".to_vec())];
            let mut used = 24usize;
            let mut fixed = 2;
            for r in recs {
                let need = round4(8 + r.2.len());
                let early = used > 24 && rng.below(100) >= fill_pct && rng.below(8) == 0;
                if used + need > usable || early {
                    blocks.push(self.fill_leaf(&cur, &mut rng, &mut del, fixed));
                    types.push(b'l');
                    cur.clear();
                    used = 0;
                    fixed = 0;
                    if rng.below(20) == 0 {
                        // A wholly empty block in the middle.
                        blocks.push(self.fill_leaf(&[], &mut rng, &mut del, 0));
                        types.push(b'l');
                    }
                }
                used += need;
                cur.push(r);
            }
            blocks.push(self.fill_leaf(&cur, &mut rng, &mut del, fixed));
            types.push(b'l');
            if rng.below(10) == 0 {
                blocks.push(self.fill_leaf(&[], &mut rng, &mut del, 0));
                types.push(b'l');
            }
            // Directory blocks never mix; seal.
            for b in blocks.iter_mut() {
                self.leaf_tail(n, b);
            }
        } else {
            let uns = self.geo.unsigned_hash();
            let mut hr: Vec<(u32, u32, (u32, u8, Vec<u8>))> = recs
                .into_iter()
                .map(|r| {
                    let (h, m) = hash::dirhash(info.hash_version, uns, &self.geo.hash_seed, &r.2);
                    (h, m, r)
                })
                .collect();
            hr.sort();
            // Split into leaves.
            let max_leaves = {
                let cap_root = (bs - 32) / 8 - usize::from(self.geo.csum);
                let cap_node = (bs - 8) / 8 - usize::from(self.geo.csum);
                if info.depth == 0 {
                    cap_root - 1
                } else {
                    (cap_root - 1).min(40) * cap_node.min(100)
                }
            };
            let target_leaves = 1 + rng.below(hr.len().max(1) as u64) as usize;
            let target_leaves = target_leaves.min(24).min(max_leaves);
            let per = hr.len().div_ceil(target_leaves).max(1);
            let mut leaves: Vec<(u32, Vec<(u32, u8, Vec<u8>)>)> = vec![(0, Vec::new())];
            let mut used = 0usize;
            let mut prev: Option<u32> = None;
            for (h, _m, r) in hr {
                let need = round4(8 + r.2.len());
                let cur_len = leaves.last().unwrap().1.len();
                // Force a split between colliding names half of the time.
                let collide = prev == Some(h) && rng.below(2) == 0;
                if cur_len > 0 && (used + need > usable || cur_len >= per || collide) {
                    let cont = prev == Some(h);
                    // Leaves emptied by deletions may lie in between.
                    while collide && leaves.len() + 2 < max_leaves && rng.below(3) == 0 {
                        leaves.push((h | 1, Vec::new()));
                    }
                    leaves.push((if cont { h | 1 } else { h }, Vec::new()));
                    used = 0;
                }
                used += need;
                leaves.last_mut().unwrap().1.push(r);
                prev = Some(h);
            }
            // Sometimes index blocks are full, by leaves that have been
            // emptied by deletions.
            let full = bs <= 2048 && self.geo.blocks > 6000 && rng.below(6) == 0;
            if full {
                let goal = match info.depth {
                    0 => (bs - 32) / 8 - usize::from(self.geo.csum),
                    _ => (bs - 8) / 8 - usize::from(self.geo.csum),
                };
                let first = prev.map_or(2u64, |h| u64::from(h & !1) + 2);
                let step = 2 * (1 + rng.below(1 << 16));
                let mut h = first;
                while leaves.len() < goal && h < 0xffff_fffe {
                    leaves.push((h as u32, Vec::new()));
                    h += step;
                }
            }
            // Shuffle order inside each leaf.
            for (_, l) in leaves.iter_mut() {
                for i in (1..l.len()).rev() {
                    let j = rng.below(i as u64 + 1) as usize;
                    l.swap(i, j);
                }
            }
            // Interior nodes.
            let nleaf = leaves.len();
            let cap_root = (bs - 32) / 8 - usize::from(self.geo.csum);
            let cap_node = (bs - 8) / 8 - usize::from(self.geo.csum);
            let mut depth = info.depth;
            if depth == 0 && nleaf > cap_root {
                depth = 1;
            }
            // Levels of index nodes, lowest first: ranges of the level below.
            let mut levels: Vec<Vec<std::ops::Range<usize>>> = Vec::new();
            let mut below = nleaf;
            for _ in 0..depth {
                let mut v = Vec::new();
                let mut i = 0;
                let min_per = below.div_ceil(cap_root);
                while i < below {
                    let k = match full {
                        true => cap_node,
                        false => min_per + rng.below(4) as usize,
                    };
                    let k = k.min(cap_node).min(below - i);
                    v.push(i..i + k);
                    i += k;
                }
                below = v.len();
                levels.push(v);
            }
            let total = 1 + nleaf + levels.iter().map(Vec::len).sum::<usize>();
            // Random logical placement of everything but the root.
            let mut place: Vec<u32> = (1..total as u32).collect();
            for i in (1..place.len()).rev() {
                let j = rng.below(i as u64 + 1) as usize;
                place.swap(i, j);
            }
            blocks = vec![Vec::new(); total];
            types = vec![b'l'; total];
            // Hash and place of what the next level points to.
            let mut top: Vec<(u32, u32)> = Vec::new();
            for (i, (h, l)) in leaves.iter().enumerate() {
                let mut b = self.fill_leaf(l, &mut rng, &mut del, 0);
                self.leaf_tail(n, &mut b);
                blocks[place[i] as usize] = b;
                top.push((*h, place[i]));
            }
            let mut next = nleaf;
            for level in &levels {
                let mut up: Vec<(u32, u32)> = Vec::new();
                for g in level {
                    let at = place[next];
                    next += 1;
                    let mut b = vec![0u8; bs];
                    Disk::fill_noise(&mut rng, &mut b);
                    p32(&mut b, 0, 0);
                    p16(&mut b, 4, enc_rec_len(bs, bs as u64));
                    b[6] = 0;
                    b[7] = 0;
                    p16(&mut b, 8, cap_node as u16);
                    p16(&mut b, 10, g.len() as u16);
                    for (j, i) in g.clone().enumerate() {
                        if j > 0 {
                            p32(&mut b, 8 + j * 8, top[i].0);
                        }
                        p32(&mut b, 12 + j * 8, top[i].1);
                    }
                    self.dx_tail(n, &mut b, 8);
                    blocks[at as usize] = b;
                    types[at as usize] = b'n';
                    up.push((top[g.start].0, at));
                }
                top = up;
            }
            let mut b = vec![0u8; bs];
            Disk::fill_noise(&mut rng, &mut b);
            p32(&mut b, 0, me);
            p16(&mut b, 4, 12);
            b[6] = 1;
            b[7] = 2;
            b[8..12].copy_from_slice(b".\0\0\0");
            p32(&mut b, 12, parent);
            p16(&mut b, 16, enc_rec_len(bs - 12, bs as u64));
            b[18] = 2;
            b[19] = 2;
            b[20..24].copy_from_slice(b"..\0\0");
            p32(&mut b, 24, 0);
            b[28] = info.hash_version;
            b[29] = 8;
            b[30] = depth;
            b[31] = 0;
            p16(&mut b, 32, cap_root as u16);
            p16(&mut b, 34, top.len() as u16);
            for (j, (h, blk)) in top.iter().enumerate() {
                if j > 0 {
                    p32(&mut b, 32 + j * 8, *h);
                }
                p32(&mut b, 36 + j * 8, *blk);
            }
            self.dx_tail(n, &mut b, 32);
            blocks[0] = b;
            types[0] = b'r';
            let d = self.nodes[n].dir_mut();
            d.depth = depth;
        }
        let nb = blocks.len() as u64;
        {
            let node = &mut self.nodes[n];
            node.size = nb * bs as u64;
            if info.htree {
                node.flags |= FL_INDEX;
            }
            let live: BTreeSet<Vec<u8>> = info.ents.iter().map(|e| e.name.clone()).collect();
            let d = node.dir_mut();
            d.deleted = del.into_iter().filter(|x| !live.contains(x)).collect();
            d.block_types = types;
        }
        self.map_contiguous(n, nb, frag, extents);
        for (i, b) in blocks.into_iter().enumerate() {
            let p = self.phys(n, i as u64).unwrap();
            self.disk.set_block(p, b);
        }
    }

    // ---------------------------------------------------------------
    // Tree helpers
    // ---------------------------------------------------------------

    /// All (path, node) pairs reachable by names (first path per link).
    pub fn paths(&self) -> Vec<(Vec<u8>, usize)> {
        let mut out = vec![(b"/".to_vec(), 0usize)];
        let mut stack = vec![(Vec::<u8>::new(), 0usize)];
        while let Some((p, n)) = stack.pop() {
            if let Some(d) = self.nodes[n].dir() {
                for e in &d.ents {
                    let mut q = p.clone();
                    q.push(b'/');
                    q.extend_from_slice(&e.name);
                    out.push((q.clone(), e.node));
                    if self.nodes[e.node].is_dir() {
                        stack.push((q, e.node));
                    }
                }
            }
        }
        out
    }

    pub fn path_of_dir(&self, n: usize) -> Vec<u8> {
        let mut parts = Vec::new();
        let mut cur = n;
        while cur != 0 {
            let p = self.nodes[cur].dir().unwrap().parent;
            let name = self.nodes[p]
                .dir()
                .unwrap()
                .ents
                .iter()
                .find(|e| e.node == cur)
                .expect("harness: orphan dir")
                .name
                .clone();
            parts.push(name);
            cur = p;
        }
        if parts.is_empty() {
            return b"/".to_vec();
        }
        let mut out = Vec::new();
        for p in parts.iter().rev() {
            out.push(b'/');
            out.extend_from_slice(p);
        }
        out
    }

    pub fn lookup(&self, dir: usize, name: &[u8]) -> Option<usize> {
        let d = self.nodes[dir].dir()?;
        match name {
            b"." => Some(dir),
            b".." => Some(d.parent),
            _ => d.ents.iter().find(|e| e.name == name).map(|e| e.node),
        }
    }

    pub fn new_node(&mut self, src: &mut Src, kind: Kind) -> usize {
        let total = self.geo.ipg as u64 * self.geo.groups as u64;
        let noise = self.arng.next();
        let ino = if self.nodes.is_empty() {
            2
        } else {
            let hi = total.min(u32::MAX as u64) as u32;
            let mut cand = match src.weighted(&[3, 3, 1, 1]) {
                0 => 11 + self.arng.below(40) as u32,
                1 => 11 + self.arng.below(hi as u64 - 10) as u32,
                2 => {
                    // First or last inode of a group.
                    let g = self.arng.below(self.geo.groups as u64) as u32;
                    g.wrapping_mul(self.geo.ipg).wrapping_add(self.arng.below(2) as u32)
                }
                _ => hi,
            };
            loop {
                if cand < 11 || cand > hi {
                    cand = 11;
                }
                if self.used_inos.contains(&cand) {
                    cand += 1;
                    continue;
                }
                break cand;
            }
        };
        self.used_inos.insert(ino);
        let mut rng = Rng(noise);
        let perm = match src.weighted(&[2, 1]) {
            0 => *[0o644u16, 0o755, 0o777, 0][..].get(rng.below(4) as usize).unwrap(),
            _ => (rng.next() & 0xfff) as u16,
        };
        let (uid, gid) = match src.weighted(&[2, 1, 1]) {
            0 => (rng.below(2000) as u32, rng.below(2000) as u32),
            1 => (rng.next() as u32, rng.next() as u32),
            _ => ((rng.next() as u32) << 16, (rng.next() as u32) & 0xffff),
        };
        // Harmless flags.
        let mut flags = 0;
        for b in [0x10u32, 0x20, 0x40, 0x80, 0x20000, 0x40000] {
            if rng.below(6) == 0 {
                flags |= b;
            }
        }
        // 0x40000 (HUGE_FILE) changes only i_blocks units.
        let isz = self.geo.inode_size;
        let extra = if isz > 128 {
            let max = (isz - 128).min(64) & !3;
            match rng.below(8) {
                0 => 4,
                1 => 28,
                2 if max >= 4 => (4 + 4 * rng.below((max as u64) / 4)) as u16,
                3 if cfg_extra0() => 0,
                _ => 32,
            }
            .min(max)
        } else {
            0
        };
        self.nodes.push(Node {
            ino,
            kind,
            perm,
            uid,
            gid,
            size: 0,
            gen: if rng.below(3) == 0 { 0 } else { rng.next() as u32 },
            flags,
            encrypted: false,
            extents: false,
            runs: Vec::new(),
            root: [0; 60],
            meta: Vec::new(),
            depth: 0,
            extra_isize: extra,
            noise: mix2(noise, 1),
        });
        self.nodes.len() - 1
    }

    /// Create geometry, reserve metadata and an empty root.
    pub fn begin(src: &mut Src, cfg: &Cfg) -> Img {
        let mut geo = gen_geo(src, cfg);
        let alloc_mode = *src.pick(&[0u64, 4, 1, 2]);
        let arng = Rng(src.u64());
        let disk = Disk::new(geo.bs, geo.blocks * geo.bs, mix2(arng.0, 77));
        geo.itable = Vec::new();
        let mut img = Img {
            sb_noise: mix2(arng.0, 3),
            geo,
            disk,
            nodes: Vec::new(),
            arng,
            alloc_mode,
            cursor: 0,
            used_inos: BTreeSet::new(),
            journal_ino: None,
            dirty: None,
            hidden: Vec::new(),
            link_max: cfg.link_max,
        };
        let gdt_end = img.geo.gdt_block() + img.geo.gdt_blocks();
        img.mark_used(0, gdt_end);
        let tbl = (img.geo.ipg as u64 * img.geo.inode_size as u64).div_ceil(img.geo.bs);
        for _ in 0..img.geo.groups {
            let lim = !img.geo.is64;
            let b = if img.geo.groups > 500 {
                // Cheap placement for huge disks: group start.
                let g = img.geo.itable.len() as u64;
                let b = g * img.geo.bpg as u64 + gdt_end + 8;
                if b + tbl > img.geo.blocks {
                    // A short last group.
                    img.alloc(tbl, lim)
                } else {
                    img.mark_used(b, tbl);
                    b
                }
            } else {
                img.alloc(tbl, lim)
            };
            img.geo.itable.push(b);
        }
        if img.cursor == 0 {
            img.cursor = gdt_end;
        }
        img
    }

    /// Generate a regular file's mapping according to a style.
    pub fn gen_file(&mut self, src: &mut Src, cfg: &Cfg, n: usize) {
        let bs = self.geo.bs;
        let mut style = src.weighted(&cfg.maps);
        let huge = self.geo.blocks > (1 << 32);
        if style == 3 && (self.geo.blocks < 120_000 || bs > 16384) && !huge {
            style = 2;
        }
        if cfg.small_disk && style == 3 {
            style = 2;
        }
        match style {
            0 => {
                let ext = src.chance(1, 2);
                if ext {
                    self.write_extents(n, 0, 2);
                }
                // Entirely sparse file.
                if src.chance(1, 2) {
                    self.nodes[n].size = src.range(1, 40 * bs);
                }
            }
            1 => {
                let nb = src.size(1, if bs >= 16384 { 8 } else { 40 });
                let cut = if src.chance(1, 3) { 0 } else { src.below(bs) };
                self.nodes[n].size = nb * bs - cut;
                let ext = !src.chance(1, 4);
                self.map_contiguous(n, nb, 0, ext);
            }
            2 => {
                let k = src.size(1, if cfg.small_disk { 20 } else { 90 });
                let mut log = if src.chance(1, 3) { src.below(5) } else { 0 };
                let mut runs = Vec::new();
                let cap_len = if bs >= 16384 { 2 } else { 6 };
                for _ in 0..k {
                    let len = src.range(1, cap_len);
                    let uninit = src.chance(1, 6);
                    let phys = self.alloc(len, false);
                    runs.push(Run { log, len, phys, uninit });
                    log += len;
                    log += match src.weighted(&[5, 2, 1]) {
                        0 => 0,
                        1 => src.range(1, 4),
                        _ => {
                            if cfg.big_sparse && bs <= 4096 {
                                src.range(1, 3000)
                            } else {
                                src.range(1, 12)
                            }
                        }
                    };
                }
                let end = runs.last().map(|r| r.log + r.len).unwrap();
                // Size: inside the last extent, in a trailing hole, or
                // well before preallocated extents.
                let size = match src.weighted(&[4, 2, 1, 1]) {
                    0 => end * bs - src.below(bs),
                    1 => end * bs + src.below(6 * bs),
                    2 => {
                        // Everything beyond EOF must be unwritten.
                        let s = src.range(1, end) * bs - src.below(bs);
                        let eb = s.div_ceil(bs);
                        let mut out = Vec::new();
                        for r in runs.drain(..) {
                            if r.log + r.len <= eb {
                                out.push(r);
                            } else if r.log >= eb {
                                out.push(Run { uninit: true, ..r });
                            } else {
                                let k = eb - r.log;
                                out.push(Run { len: k, ..r.clone() });
                                out.push(Run {
                                    log: eb,
                                    len: r.len - k,
                                    phys: r.phys + k,
                                    uninit: true,
                                });
                            }
                        }
                        runs = out;
                        s
                    }
                    _ => end * bs,
                };
                self.nodes[n].runs = runs;
                self.nodes[n].size = size;
                let d = src.below(6);
                let fan = src.range(0, 8);
                self.write_extents(n, d, fan);
            }
            3 => {
                let mut runs = Vec::new();
                let mut log = src.below(3);
                let k = src.range(1, 3);
                for _ in 0..k {
                    let uninit = src.chance(1, 2);
                    let len = match src.weighted(&[2, 2, 1]) {
                        0 => 32767,
                        1 => 32768 - src.below(2),
                        _ => src.range(1000, 32000),
                    };
                    let len = if uninit { len.min(32767) } else { len };
                    let gap = src.below(3);
                    // The rest of the tree must still fit.
                    let Some(phys) = self.try_alloc(len + 4000, false) else { continue };
                    self.free(phys);
                    self.mark_used(phys, len);
                    runs.push(Run { log, len, phys, uninit });
                    log += len + gap;
                }
                let end = runs.last().map(|r| r.log + r.len).unwrap_or(0);
                self.nodes[n].runs = runs;
                self.nodes[n].size = (end * bs).saturating_sub(src.below(bs));
                let d = src.below(3);
                self.write_extents(n, d, 2);
            }
            4 => {
                // Indirect block map with holes anywhere.
                let ppb = bs / 4;
                let b1 = 12;
                let b2 = 12 + ppb;
                let b3 = 12 + ppb + ppb * ppb;
                let b3_ok = cfg.big_sparse && b3 < 2_000_000;
                let b2_ok = cfg.big_sparse || b2 < 600;
                let mut marks: Vec<(u64, u64)> = Vec::new();
                let k = src.size(1, 10);
                for _ in 0..k {
                    let len = src.range(1, 4);
                    let at = match src.weighted(&[4, 3, if b2_ok { 3 } else { 0 }, if b3_ok { 1 } else { 0 }]) {
                        0 => src.below(13),
                        1 => b1 - 1 + src.below(ppb),
                        2 => match src.below(3) {
                            0 => (b2 + src.below(8)).saturating_sub(3),
                            1 => {
                                let s = src.below(ppb.min(64));
                                (b2 + s * ppb + src.below(6)).saturating_sub(2)
                            }
                            _ => b2 + src.below((ppb * ppb).min(40_000)),
                        },
                        _ => match src.below(2) {
                            0 => (b3 + src.below(8)).saturating_sub(3),
                            _ => b3 + src.below((ppb * ppb).min(30_000)),
                        },
                    };
                    marks.push((at, len));
                }
                marks.sort();
                let mut runs: Vec<Run> = Vec::new();
                let mut next = 0;
                for (at, len) in marks {
                    let a = at.max(next);
                    let e = at + len;
                    if e <= a {
                        continue;
                    }
                    let phys = self.alloc(e - a, true);
                    runs.push(Run { log: a, len: e - a, phys, uninit: false });
                    next = e;
                }
                let end = runs.last().map(|r| r.log + r.len).unwrap_or(0);
                let size = match src.weighted(&[3, 2]) {
                    0 => end * bs - src.below(bs).min(end * bs),
                    _ => {
                        let extra = match src.below(3) {
                            0 => src.below(4),
                            1 => src.below(ppb * 2),
                            _ => src.below(40),
                        };
                        end * bs + extra.min(5000) * bs + src.below(bs)
                    }
                };
                self.nodes[n].runs = runs;
                self.nodes[n].size = size;
                self.write_blockmap(n);
            }
            _ => {
                // Explicit text.
                let len = src.size(1, 3000) as usize;
                let mut rng = Rng(self.arng.next());
                let mut t = Vec::new();
                let pieces = ["hello ", "wörld\n", "日本語", "x", "😀", "\u{0}", "line\n"];
                while t.len() < len {
                    t.extend_from_slice(pieces[rng.below(7) as usize].as_bytes());
                }
                if src.chance(1, 4) {
                    // Possibly cuts a character or inserts an invalid byte.
                    let i = src.below(t.len() as u64) as usize;
                    match src.below(2) {
                        0 => t.truncate(i.max(1)),
                        _ => t[i] = 0x80 | (rng.next() as u8 & 0x7f),
                    }
                }
                self.nodes[n].size = t.len() as u64;
                let nb = (t.len() as u64).div_ceil(bs);
                let ext = !src.chance(1, 4);
                let frag = src.below(3);
                self.map_contiguous(n, nb, frag, ext);
                self.write_data(n, &t);
            }
        }
    }

    pub fn gen_symlink_target(&mut self, src: &mut Src) -> Vec<u8> {
        let paths = self.paths();
        let bs = self.geo.bs as usize;
        let max = (bs - 1).min(4095);
        let mut t: Vec<u8> = match src.weighted(&[5, 4, 2, 2, 1]) {
            // Absolute path of something that exists.
            0 => src.pick(&paths).0.clone(),
            // Relative.
            1 => {
                let mut t = Vec::new();
                for _ in 0..src.below(4) {
                    t.extend_from_slice(*src.pick(&[&b"../"[..], b"./", b".//"]));
                }
                let p = &src.pick(&paths).0;
                t.extend_from_slice(&p[1..]);
                if t.is_empty() {
                    t.extend_from_slice(src.pick(&[&b"."[..], b".."]));
                }
                t
            }
            // Dangling or arbitrary.
            2 => {
                let mut r = Rng(self.arng.next());
                let mut t = gen_name(src, &mut r);
                if src.chance(1, 2) {
                    t.insert(0, b'/');
                    t.truncate(255);
                }
                t
            }
            // Long target with redundant pieces.
            3 => {
                let want = match src.weighted(&[2, 2, 1]) {
                    0 => src.range(57, 64),
                    1 => src.range(100, 400),
                    _ => src.range(1, max as u64),
                }
                .min(self.link_max) as usize;
                let p = src.pick(&paths).0.clone();
                let mut t = Vec::new();
                let abs = src.chance(1, 2);
                if abs {
                    t.push(b'/');
                }
                let filler = *src.pick(&[&b"./"[..], b"./", b"../"]);
                // Every component of a path costs a scan of a block or more;
                // with large blocks, many of them take minutes.
                let filler = if want > 100 && self.geo.bs > 4096 { &b"//"[..] } else { filler };
                while t.len() + filler.len() + p.len() <= want {
                    t.extend_from_slice(filler);
                }
                t.extend_from_slice(&p[1..]);
                while t.len() < want {
                    t.push(b'/');
                }
                t
            }
            _ => src.pick(&[&b"/"[..], b".", b"..", b"//", b"../..", b"/.."]).to_vec(),
        };
        if src.chance(1, 6) {
            t.push(b'/');
        }
        if t.is_empty() {
            t.push(b'.');
        }
        t.truncate(max);
        t
    }

    pub fn set_symlink(&mut self, src: &mut Src, n: usize, t: Vec<u8>) {
        self.nodes[n].size = t.len() as u64;
        if self.nodes[n].perm <= 0o777 {
            self.nodes[n].perm = 0o777;
        }
        if t.len() < 60 {
            let mut root = [0u8; 60];
            root[..t.len()].copy_from_slice(&t);
            self.nodes[n].root = root;
            self.nodes[n].flags &= !FL_EXTENTS;
        } else {
            let ext = !src.chance(1, 3);
            self.map_contiguous(n, 1, 0, ext);
            self.write_data(n, &t);
        }
        self.nodes[n].kind = Kind::Symlink(t);
    }

    /// Generate a whole filesystem.
    pub fn gen(src: &mut Src, cfg: &Cfg) -> Img {
        let mut img = Img::begin(src, cfg);
        img.gen_tree(src, cfg);
        img.finish(src, cfg);
        img
    }

    pub fn add_entry(&mut self, dir: usize, name: Vec<u8>, node: usize) -> bool {
        let d = self.nodes[dir].dir_mut();
        if d.ents.iter().any(|e| e.name == name) {
            return false;
        }
        d.ents.push(Ent { name, node });
        true
    }

    pub fn gen_tree(&mut self, src: &mut Src, cfg: &Cfg) {
        self.new_node(src, Kind::Dir(DirInfo::default()));
        let count = src.range(1, cfg.max_nodes.max(1));
        let mut dirs = vec![0usize];
        let mut encdirs: Vec<usize> = Vec::new();
        let mut nrng = Rng(self.arng.next());
        let mut links: Vec<usize> = Vec::new();
        for _ in 0..count {
            let parent = if !encdirs.is_empty() && src.chance(1, 6) {
                *src.pick(&encdirs)
            } else {
                *src.pick(&dirs)
            };
            let mut name = gen_name(src, &mut nrng);
            if src.chance(1, 12) {
                // Near-duplicate of an existing name.
                if let Some(e) = self.nodes[parent].dir().unwrap().ents.last() {
                    let mut m = e.name.clone();
                    match src.below(3) {
                        0 if m.len() < 255 => m.push(b'x'),
                        1 if m.len() > 1 => {
                            m.pop();
                        }
                        _ => m[0] ^= 0x20,
                    }
                    if m != b"." && m != b".." && !m.contains(&0) && !m.contains(&b'/') {
                        name = m;
                    }
                }
            }
            if self.lookup(parent, &name).is_some() {
                continue;
            }
            let k = src.weighted(&cfg.kinds);
            // Hard link sometimes.
            if k == 0 && src.chance(1, 10) {
                let cands: Vec<usize> =
                    (0..self.nodes.len()).filter(|i| !self.nodes[*i].is_dir()).collect();
                if !cands.is_empty() {
                    let t = *src.pick(&cands);
                    self.add_entry(parent, name, t);
                    continue;
                }
            }
            match k {
                0 => {
                    let n = self.new_node(src, Kind::Reg);
                    self.gen_file(src, cfg, n);
                    self.add_entry(parent, name, n);
                }
                1 => {
                    let n = self.new_node(
                        src,
                        Kind::Dir(DirInfo { parent, ..Default::default() }),
                    );
                    if cfg.encrypt && src.chance(1, 4) {
                        self.nodes[n].flags |= FL_ENCRYPT;
                        self.nodes[n].encrypted = true;
                        self.geo.incompat |= I_ENCRYPT;
                        encdirs.push(n);
                    } else {
                        dirs.push(n);
                    }
                    self.add_entry(parent, name, n);
                }
                2 => {
                    let n = self.new_node(src, Kind::Symlink(Vec::new()));
                    links.push(n);
                    self.add_entry(parent, name, n);
                }
                _ => {
                    let c = *src.pick(&[5u8, 6, 3, 4]);
                    let n = self.new_node(src, Kind::Special(c));
                    let r = self.arng.next();
                    // Device number lives in i_block.
                    p32(&mut self.nodes[n].root, 0, r as u32 & 0xffff);
                    p32(&mut self.nodes[n].root, 4, (r >> 32) as u32);
                    self.add_entry(parent, name, n);
                }
            }
        }
        // Targets are chosen once the tree exists.
        for n in links {
            let t = self.gen_symlink_target(src);
            self.set_symlink(src, n, t);
        }
        // Populate some directories heavily with hard links.
        for d in dirs {
            if !src.chance(cfg.bigdir_pct, 100) {
                continue;
            }
            let cands: Vec<usize> = (0..self.nodes.len())
                .filter(|i| !self.nodes[*i].is_dir())
                .collect();
            let cands = if cands.is_empty() {
                let n = self.new_node(src, Kind::Special(5));
                vec![n]
            } else {
                cands
            };
            let cnt = src.range(10, cfg.bigdir_max);
            for i in 0..cnt {
                let mut name = gen_name(src, &mut nrng);
                if self.nodes[d].dir().unwrap().ents.len() > 5 && name.len() > 60 && i % 3 != 0 {
                    name.truncate(20);
                }
                if name == b"." || name == b".." {
                    continue;
                }
                let t = cands[nrng.below(cands.len() as u64) as usize];
                self.add_entry(d, name, t);
            }
            if src.chance(2, 3) {
                let hv = cfg.hash_version.unwrap_or(*src.pick(&[1u8, 2]));
                let depth = src.weighted(&[4, 4, 1]) as u8;
                if cfg.collide_pct > 0 && src.chance(cfg.collide_pct, 100) {
                    self.add_collisions(src, d, hv, &cands);
                }
                let info = self.nodes[d].dir_mut();
                info.htree = true;
                info.hash_version = hv;
                info.depth = depth;
            }
        }
    }

    /// Add names with equal hashes.
    fn add_collisions(&mut self, src: &mut Src, d: usize, hv: u8, cands: &[usize]) {
        let uns = self.geo.unsigned_hash();
        let salt = src.below(1000);
        let mut v: Vec<(u32, u32)> = (0..110_000u32)
            .map(|i| {
                let name = format!("c{salt}_{i:x}");
                (hash::dirhash(hv, uns, &self.geo.hash_seed, name.as_bytes()).0, i)
            })
            .collect();
        v.sort();
        let mut added = 0;
        for w in v.windows(2) {
            if w[0].0 == w[1].0 {
                for x in w {
                    let t = cands[self.arng.below(cands.len() as u64) as usize];
                    self.add_entry(d, format!("c{salt}_{:x}", x.1).into_bytes(), t);
                }
                added += 1;
                if added >= 3 {
                    break;
                }
            }
        }
    }

    /// Write directories, inodes, descriptors and superblock.
    pub fn finish(&mut self, src: &mut Src, _cfg: &Cfg) {
        for n in 0..self.nodes.len() {
            if self.nodes[n].is_dir() {
                let frag = *src.pick(&[0u64, 1, 2, 4]);
                let extents = !src.chance(1, 4);
                let fill = *src.pick(&[100u64, 60, 0]);
                self.write_dir(n, frag, extents, fill);
            }
        }
        for n in 0..self.nodes.len() {
            self.write_inode(n);
        }
        self.write_gdt();
        self.write_sb();
    }

    /// One-line description for samples.
    pub fn describe(&self) -> String {
        let j = if self.dirty.is_some() { "unclean, " } else { "" };
        format!("{j}{}", self.describe_fs())
    }

    fn describe_fs(&self) -> String {
        let g = &self.geo;
        let mut s = format!(
            "bs={} blocks={} groups={} bpg={} ipg={} isz={} desc={} csum={} feat={:x}/{:x}/{:x};",
            g.bs, g.blocks, g.groups, g.bpg, g.ipg, g.inode_size, g.desc_size, g.csum, g.compat,
            g.incompat, g.ro
        );
        for n in self.nodes.iter().take(14) {
            match &n.kind {
                Kind::Reg => {
                    s += &format!(
                        " reg#{}(size={},{}:{} runs,depth{})",
                        n.ino,
                        n.size,
                        if n.extents { "ext" } else { "map" },
                        n.runs.len(),
                        n.depth
                    )
                }
                Kind::Dir(d) => {
                    s += &format!(
                        " dir#{}({} ents,{} blocks{}{})",
                        n.ino,
                        d.ents.len(),
                        d.block_types.len(),
                        if d.htree { format!(",htree v{} d{}", d.hash_version, d.depth) } else { String::new() },
                        if n.encrypted { ",enc" } else { "" }
                    )
                }
                Kind::Symlink(t) => {
                    s += &format!(" sym#{}({})", n.ino, String::from_utf8_lossy(&t[..t.len().min(40)]).escape_debug())
                }
                Kind::Special(c) => s += &format!(" special{}#{}", c, n.ino),
            }
        }
        s
    }
}

fn cfg_extra0() -> bool {
    true
}

impl Disk {
    pub fn fill_noise(rng: &mut Rng, buf: &mut [u8]) {
        let mut i = 0;
        while i < buf.len() {
            let v = rng.next().to_le_bytes();
            let n = (buf.len() - i).min(8);
            buf[i..i + n].copy_from_slice(&v[..n]);
            i += n;
        }
    }
}

//! A generated image (clean or with a journal) whose metadata
//! structures can be found, altered and given right checksums again.

use crate::crc::crc32c;
use crate::disk::Disk;
use crate::engine::*;
use crate::img::*;
use crate::journal::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum S {
    Sb,
    Desc(u32),
    /// Inode of a node.
    Inode(usize),
    /// Directory block: node, physical block, 'l' / 'r' / 'n'.
    Dir(usize, u64, u8),
    /// Extent node.
    Ext(usize, u64),
    /// Indirect block.
    Ind(usize, u64),
    /// Target of a long symlink.
    Link(usize, u64),
    Jsb,
    /// Log position.
    Log(usize),
}

impl S {
    pub fn name(&self) -> &'static str {
        match self {
            S::Sb => "superblock",
            S::Desc(_) => "group descriptor",
            S::Inode(_) => "inode",
            S::Dir(_, _, b'l') => "directory leaf",
            S::Dir(..) => "directory index",
            S::Ext(..) => "extent node",
            S::Ind(..) => "indirect block",
            S::Link(..) => "symlink block",
            S::Jsb => "journal superblock",
            S::Log(_) => "log block",
        }
    }
}

#[derive(Clone)]
pub struct World {
    pub img: Img,
    pub disk: Disk,
    /// Log entries: position -> data; None for clean images.
    pub hist: Option<std::rc::Rc<History>>,
    pub log: Vec<LogBlock>,
    /// Live log position of a block.
    pub live: std::collections::BTreeMap<u64, usize>,
}

impl World {
    pub fn clean(img: Img) -> World {
        World { disk: img.disk.clone(), img, hist: None, log: Vec::new(), live: Default::default() }
    }

    pub fn unclean(src: &mut Src, h: History) -> World {
        let n = h.txs.len();
        let mut d = h.base(src, n);
        h.write_old_log(src, &mut d);
        h.write_log(&mut d, h.log.len(), &|_| false);
        let eff = h.effective(n);
        let mut live = std::collections::BTreeMap::new();
        for (b, t) in eff {
            let p = h.log.iter().rposition(|l| l.tx == t && l.part == Part::Data(b)).expect("harness: live log block");
            live.insert(b, p);
        }
        let mut img = h.states[n].clone();
        img.dirty = Some(d.clone());
        World { img, disk: d, log: h.log.clone(), hist: Some(std::rc::Rc::new(h)), live }
    }

    pub fn gen(src: &mut Src, cfg: &Cfg, unclean_pct: u64) -> World {
        if src.chance(unclean_pct, 100) {
            let mut cfg = cfg.clone();
            cfg.max_nodes = cfg.max_nodes.min(6);
            let hc = HistCfg { max_txs: 3, bulk_pct: 0, revokes: true, all: false, min_len: 0 };
            let h = gen_history(src, &cfg, &hc);
            World::unclean(src, h)
        } else {
            let mut img = Img::begin(src, cfg);
            img.gen_tree(src, cfg);
            if src.chance(1, 10) {
                crate::checks::encrypt_some(src, &mut img);
                img.geo.incompat |= I_ENCRYPT;
            }
            img.finish(src, cfg);
            World::clean(img)
        }
    }

    /// All structures that reading may involve.
    pub fn structures(&self) -> Vec<S> {
        let img = &self.img;
        let mut v = vec![S::Sb];
        for g in 0..img.geo.groups.min(4) {
            v.push(S::Desc(g));
        }
        let mut seen = std::collections::BTreeSet::new();
        let mut nodes: Vec<usize> = img.paths().into_iter().map(|p| p.1).collect();
        if let Some(h) = &self.hist {
            nodes.push(h.jnode);
        }
        for n in nodes {
            if !seen.insert(n) {
                continue;
            }
            v.push(S::Inode(n));
            let node = &img.nodes[n];
            for b in node.meta.iter().take(40) {
                v.push(if node.extents { S::Ext(n, *b) } else { S::Ind(n, *b) });
            }
            match &node.kind {
                Kind::Dir(d) => {
                    for (l, t) in d.block_types.iter().enumerate().take(60) {
                        if let Some(p) = img.phys(n, l as u64) {
                            v.push(S::Dir(n, p, *t));
                        }
                    }
                }
                Kind::Symlink(t) if t.len() >= 60 => {
                    if let Some(p) = img.phys(n, 0) {
                        v.push(S::Link(n, p));
                    }
                }
                _ => {}
            }
        }
        if self.hist.is_some() {
            v.push(S::Jsb);
            for i in 0..self.log.len() {
                if !matches!(self.log[i].part, Part::Data(_)) {
                    v.push(S::Log(i));
                }
            }
        }
        v
    }

    fn span(&self, s: S) -> (u64, usize) {
        let g = &self.img.geo;
        let bs = g.bs as usize;
        match s {
            S::Sb => (1024, 1024),
            S::Desc(i) => (g.desc_offset(i), g.desc_size as usize),
            S::Inode(n) => (g.inode_offset(self.img.nodes[n].ino), g.inode_size as usize),
            S::Dir(_, b, _) | S::Ext(_, b) | S::Ind(_, b) | S::Link(_, b) => (b * g.bs, bs),
            S::Jsb => (self.hist.as_ref().unwrap().map[0] * g.bs, 1024),
            S::Log(i) => {
                let h = self.hist.as_ref().unwrap();
                (h.map[h.at(i)] * g.bs, bs)
            }
        }
    }

    /// A block as recovery shows it.
    fn block(&self, b: u64) -> Vec<u8> {
        match self.live.get(&b) {
            Some(p) => self.log[*p].data.clone(),
            None => self.disk.block(b),
        }
    }

    /// Tag checksum for changed data.
    fn fix_tag(&mut self, pos: usize) {
        let h = self.hist.clone().unwrap();
        let mut d = pos;
        while self.log[d].part != Part::Descriptor {
            d -= 1;
        }
        let k = pos - d - 1;
        let mut b = self.log[d].data.clone();
        let mut o = 12;
        for _ in 0..k {
            if o + 32 > b.len() {
                break;
            }
            o += if gb32(&b, o + 4) & 2 != 0 { 16 } else { 32 };
        }
        if o + 16 > b.len() {
            // The descriptor has been altered too.
            return;
        }
        let seq = gb32(&b, 8);
        pb32(&mut b, o + 12, tag_csum(h.jsb.seed(), seq, &self.log[pos].data));
        seal_tail(&mut b, h.jsb.seed());
        self.put_log(d, b);
    }

    fn put_log(&mut self, pos: usize, data: Vec<u8>) {
        let h = self.hist.clone().unwrap();
        self.disk.set_block(h.map[h.at(pos)], data.clone());
        self.log[pos].data = data;
    }

    pub fn get(&self, s: S) -> Vec<u8> {
        let (off, len) = self.span(s);
        let bs = self.img.geo.bs;
        let mut out = Vec::with_capacity(len);
        let mut o = off;
        while o < off + len as u64 {
            let b = self.block(o / bs);
            let i = (o % bs) as usize;
            let n = (bs as usize - i).min((off + len as u64 - o) as usize);
            out.extend_from_slice(&b[i..i + n]);
            o += n as u64;
        }
        out
    }

    /// Store; data in the log gets its tag right.
    pub fn put(&mut self, s: S, data: &[u8]) {
        let (off, len) = self.span(s);
        assert!(data.len() == len);
        if let S::Log(i) = s {
            self.put_log(i, data.to_vec());
            return;
        }
        let bs = self.img.geo.bs;
        let mut o = off;
        let mut i = 0;
        while i < len {
            let blk = o / bs;
            let at = (o % bs) as usize;
            let n = (bs as usize - at).min(len - i);
            let mut b = self.block(blk);
            b[at..at + n].copy_from_slice(&data[i..i + n]);
            // The superblock's own location is read before recovery too.
            match self.live.get(&blk).copied() {
                Some(p) if s != S::Jsb => {
                    self.put_log(p, b);
                    self.fix_tag(p);
                }
                _ => self.disk.set_block(blk, b),
            }
            o += n as u64;
            i += n;
        }
    }

    /// Put the right checksum into the bytes of a structure.
    pub fn seal(&self, s: S, b: &mut [u8]) {
        let img = &self.img;
        let csum = img.geo.csum;
        match s {
            S::Sb if csum => {
                let c = crc32c(!0, &b[..0x3fc]);
                p32(b, 0x3fc, c);
            }
            S::Desc(g) if csum => {
                p16(b, 0x1e, 0);
                let c = crc32c(img.geo.seed, &g.to_le_bytes());
                let c = crc32c(c, b);
                p16(b, 0x1e, c as u16);
            }
            S::Inode(n) if csum => {
                let hi = b.len() > 128 && g16(b, 0x80) >= 4;
                p16(b, 0x7c, 0);
                if hi {
                    p16(b, 0x82, 0);
                }
                // Number and generation take part.
                let c = crc32c(img.geo.seed, &img.nodes[n].ino.to_le_bytes());
                let c = crc32c(c, &b[0x64..0x68]);
                let c = crc32c(c, b);
                p16(b, 0x7c, c as u16);
                if hi {
                    p16(b, 0x82, (c >> 16) as u16);
                }
            }
            S::Dir(n, _, b'l') if csum => {
                let e = b.len() - 12;
                let c = crc32c(img.ino_seed(n), &b[..e]);
                p32(b, e + 8, c);
            }
            S::Dir(n, _, t) if csum => {
                let o = if t == b'r' { 0x20 } else { 8 };
                let e = b.len() - 8;
                let count = g16(b, o + 2) as usize;
                let m = (o + count * 8).min(e);
                p32(b, e + 4, 0);
                let c = crc32c(img.ino_seed(n), &b[..m]);
                let c = crc32c(c, &b[e..]);
                p32(b, e + 4, c);
            }
            S::Ext(n, _) if csum => {
                let o = 12 + 12 * g16(b, 4) as usize;
                if o + 4 <= b.len() {
                    let c = crc32c(img.ino_seed(n), &b[..o]);
                    p32(b, o, c);
                }
            }
            S::Jsb => seal_jsb(b),
            S::Log(i) => {
                let seed = self.hist.as_ref().unwrap().jsb.seed();
                match self.log[i].part {
                    Part::Commit => seal_commit(b, seed),
                    _ => seal_tail(b, seed),
                }
            }
            _ => {}
        }
    }

    /// Whether these bytes carry a right checksum, under any reading of
    /// the structure.
    pub fn valid(&self, s: S, b: &[u8]) -> bool {
        let kinds: Vec<S> = match s {
            S::Dir(n, p, _) => vec![S::Dir(n, p, b'l'), S::Dir(n, p, b'r'), S::Dir(n, p, b'n')],
            _ => vec![s],
        };
        if let S::Ext(..) = s {
            if 16 + 12 * g16(b, 4) as usize > b.len() {
                return false;
            }
        }
        kinds.into_iter().any(|k| {
            let mut c = b.to_vec();
            self.seal(k, &mut c);
            c == b
        })
    }

    /// Offsets of the checksum fields.
    pub fn csum_at(&self, s: S, b: &[u8]) -> Vec<(usize, usize)> {
        match s {
            S::Sb => vec![(0x3fc, 4)],
            S::Desc(_) => vec![(0x1e, 2)],
            S::Inode(_) if b.len() > 128 && g16(b, 0x80) >= 4 => vec![(0x7c, 2), (0x82, 2)],
            S::Inode(_) => vec![(0x7c, 2)],
            S::Dir(..) => vec![(b.len() - 4, 4)],
            S::Ext(..) => vec![(12 + 12 * g16(b, 4) as usize, 4)],
            S::Jsb => vec![(0xfc, 4)],
            S::Log(i) => match self.log[i].part {
                Part::Commit => vec![(16, 4)],
                _ => vec![(b.len() - 4, 4)],
            },
            _ => vec![],
        }
    }

    /// Fields worth changing: (offset, bytes), big-endian in the journal.
    fn fields(&self, s: S, b: &[u8]) -> Vec<(usize, usize)> {
        let mut v: Vec<(usize, usize)> = Vec::new();
        match s {
            S::Sb => {
                for o in (0..0x64).step_by(4) {
                    v.push((o, 4));
                }
                v.extend([(0x18, 4), (0x14, 4), (0x20, 4), (0x28, 4), (0x58, 2), (0xfe, 2), (0x64, 4), (0xe0, 4), (0x150, 4), (0xfc, 1), (0x270, 4), (0x175, 1), (0x160, 4), (0x38, 2), (0x60, 4), (0x5c, 4), (0x4, 4), (0, 4)]);
            }
            S::Desc(_) => {
                v.extend([(8, 4), (0, 4), (4, 4), (0x12, 2), (0x1e, 2)]);
                if b.len() >= 64 {
                    v.extend([(0x28, 4), (0x20, 4)]);
                }
            }
            S::Inode(_) => {
                v.extend([(0, 2), (4, 4), (0x6c, 4), (0x1c, 4), (0x20, 4), (0x64, 4), (4, 4), (0x20, 4), (0, 2)]);
                for i in 0..15 {
                    v.push((0x28 + 4 * i, 4));
                }
                v.extend([(0x28, 2), (0x2a, 2), (0x2c, 2), (0x2e, 2), (0x38, 2), (0x3a, 2), (0x3c, 4)]);
                if b.len() > 128 {
                    v.push((0x80, 2));
                }
            }
            S::Dir(_, _, b'l') => {
                let mut o = 0;
                while o + 8 <= b.len() && v.len() < 200 {
                    v.extend([(o, 4), (o + 4, 2), (o + 6, 1), (o + 7, 1)]);
                    let r = g16(b, o + 4) as usize;
                    if r < 8 {
                        break;
                    }
                    o += r;
                }
                v.extend([(b.len() - 12, 4), (b.len() - 8, 2), (b.len() - 5, 1)]);
            }
            S::Dir(_, _, t) => {
                let o = if t == b'r' { 0x20 } else { 8 };
                v.extend([(0, 4), (4, 2), (6, 1), (7, 1), (o, 2), (o + 2, 2), (o, 2), (o + 2, 2)]);
                if t == b'r' {
                    v.extend([(12, 4), (16, 2), (18, 1), (0x18, 4), (0x1c, 1), (0x1d, 1), (0x1e, 1), (0x1e, 1), (0x1f, 1)]);
                }
                let c = (g16(b, o + 2) as usize).clamp(1, 8);
                for i in 0..c {
                    v.extend([(o + i * 8, 4), (o + i * 8 + 4, 4)]);
                }
            }
            S::Ext(..) => {
                v.extend([(0, 2), (2, 2), (4, 2), (6, 2), (2, 2), (6, 2)]);
                let c = (g16(b, 2) as usize).clamp(1, 20);
                for i in 0..c {
                    let o = 12 + 12 * i;
                    if o + 12 <= b.len() {
                        v.extend([(o, 4), (o + 4, 2), (o + 6, 2), (o + 8, 4), (o + 4, 4), (o + 8, 2)]);
                    }
                }
            }
            S::Ind(..) => {
                for i in 0..12 {
                    v.push((i * 4, 4));
                }
                v.push((b.len() - 4, 4));
            }
            S::Link(..) => v.extend([(0, 4), (1, 1), (2, 1)]),
            S::Jsb => {
                for o in (0..0x48).step_by(4) {
                    v.push((o, 4));
                }
                v.extend([(0x50, 1), (0x10, 4), (0x14, 4), (0x18, 4), (0x1c, 4), (0x1c, 4), (0x28, 4)]);
            }
            S::Log(i) => {
                v.extend([(0, 4), (4, 4), (8, 4)]);
                match self.log[i].part {
                    Part::Descriptor => {
                        for k in 0..12 {
                            v.push((12 + 4 * k, 4));
                        }
                    }
                    Part::Revoke => v.extend([(12, 4), (12, 4), (16, 4), (20, 4), (24, 4)]),
                    _ => v.extend([(12, 4), (16, 4)]),
                }
            }
        }
        v.retain(|(o, n)| o + n <= b.len());
        v
    }

    /// Values that mean something here.
    fn value(&self, src: &mut Src, old: u64, width: usize, sibling: &[u8], at: usize) -> u64 {
        let img = &self.img;
        let max = if width >= 8 { u64::MAX } else { (1u64 << (8 * width)) - 1 };
        let v = match src.weighted(&[4, 3, 3, 3, 2, 2, 2, 2, 2]) {
            0 => old ^ (1 << src.below(8 * width as u64)),
            1 => old.wrapping_add(1 + src.below(3)),
            2 => old.wrapping_sub(1 + src.below(3)),
            3 => *src.pick(&[0, 1, 2, 3, 4, 5, 7, 8, 11, 12, 16, 127, 128, 255, 256, 1023, 1024, 32767, 32768, 32769, 65535, 65536, 0x7fff_ffff, 0x8000_0000, 0xffff_fffe, 0xffff_ffff]),
            4 => src.u64(),
            5 => {
                // A block in use.
                let k = src.below(img.disk.blocks.len() as u64) as usize;
                *img.disk.blocks.keys().nth(k).unwrap()
            }
            6 => *src.pick(&[img.geo.blocks, img.geo.blocks - 1, img.geo.blocks + 1, img.geo.bs, img.geo.bs - 1, img.geo.bs + 1, img.geo.ipg as u64, img.geo.groups as u64]),
            7 => {
                // An inode.
                src.pick(&img.nodes).ino as u64
            }
            _ => {
                let mut x = 0;
                for i in 0..width {
                    x |= (*sibling.get(at + i).unwrap_or(&0) as u64) << (8 * i);
                }
                x
            }
        };
        v & max
    }

    /// Write an outdated or foreign copy of some metadata, right in
    /// itself, to free space, and give a checksummed structure (with the
    /// bytes it has to have for that) that then points to the copy.
    pub fn decoy(&mut self, src: &mut Src) -> Option<(S, Vec<u8>, String)> {
        let all = self.structures();
        let g = self.img.geo.clone();
        if src.chance(1, 2) {
            let groups: Vec<u32> = all.iter().filter_map(|s| if let S::Desc(g) = s { Some(*g) } else { None }).collect();
            let gi = *src.pick(&groups);
            let len = (g.ipg as u64 * g.inode_size as u64).div_ceil(g.bs);
            if len > 256 {
                return None;
            }
            let to = self.img.try_alloc(len, !g.is64)?;
            for i in 0..len {
                let b = self.block(g.itable[gi as usize] + i);
                self.disk.set_block(to + i, b);
            }
            let what = src.below(3);
            for s in &all {
                if let S::Inode(n) = s {
                    let ino = self.img.nodes[*n].ino;
                    if (ino - 1) / g.ipg != gi {
                        continue;
                    }
                    let mut b = self.get(*s);
                    match what {
                        0 => b[2] ^= 1,
                        1 => b[0] ^= 0o44,
                        _ => {
                            if self.img.nodes[*n].dir().is_none() && self.img.nodes[*n].size > 1 {
                                let x = g32(&b, 4);
                                p32(&mut b, 4, if x > 1 { x - 1 } else { x });
                            }
                        }
                    }
                    self.seal(*s, &mut b);
                    let off = to * g.bs + ((ino - 1) % g.ipg) as u64 * g.inode_size as u64;
                    self.disk.write_at(off, &b);
                }
            }
            let s = S::Desc(gi);
            let mut b = self.get(s);
            p32(&mut b, 8, to as u32);
            if g.is64 {
                p32(&mut b, 0x28, (to >> 32) as u32);
            }
            return Some((s, b, format!("{s:?} inode table to a copy at {to}")));
        }
        // Pointers in extent trees: container, offset of the entry, block, leaf.
        let mut ptrs: Vec<(S, usize, u64, bool)> = Vec::new();
        for s in &all {
            let (n, root) = match s {
                S::Inode(n) => (*n, 0x28),
                S::Ext(n, _) => (*n, 0),
                _ => continue,
            };
            if !self.img.nodes[n].extents {
                continue;
            }
            let b = self.get(*s);
            if g16(&b, root) != 0xf30a {
                continue;
            }
            let leaf = g16(&b, root + 6) == 0;
            for k in 0..g16(&b, root + 2) as usize {
                let o = root + 12 + 12 * k;
                if o + 12 > b.len() {
                    break;
                }
                let (lo, hi) = if leaf { (g32(&b, o + 8), g16(&b, o + 6)) } else { (g32(&b, o + 4), g16(&b, o + 8)) };
                let p = (hi as u64) << 32 | lo as u64;
                let target = all.iter().any(|t| match t {
                    S::Ext(m, q) => !leaf && *m == n && *q == p,
                    S::Dir(m, q, _) => leaf && *m == n && *q == p && g16(&b, o + 4) == 1,
                    _ => false,
                });
                if target {
                    ptrs.push((*s, o, p, leaf));
                }
            }
        }
        if ptrs.is_empty() {
            return None;
        }
        let (s, o, p, leaf) = *src.pick(&ptrs);
        let t = *all.iter().find(|t| matches!(t, S::Ext(_, q) | S::Dir(_, q, _) if *q == p))?;
        let to = self.img.try_alloc(1, !g.is64)?;
        let mut c = self.get(t);
        match t {
            S::Ext(..) => {
                let leaf = g16(&c, 6) == 0;
                if g16(&c, 2) == 0 {
                    return None;
                }
                let k = 12 + 12 * src.below(g16(&c, 2) as u64) as usize;
                let at = k + if leaf { 8 } else { 4 };
                // Altered before.
                if at + 4 > c.len() {
                    return None;
                }
                let x = g32(&c, at);
                p32(&mut c, at, x ^ 1);
            }
            S::Dir(n, _, b'l') => {
                // Another inode for the first entry with one.
                let inos: Vec<u32> = all.iter().filter_map(|s| if let S::Inode(m) = s { Some(self.img.nodes[*m].ino) } else { None }).collect();
                let ino = *src.pick(&inos);
                if g32(&c, 0) == 0 || n == usize::MAX {
                    return None;
                }
                p32(&mut c, 0, ino);
            }
            _ => {
                // Index block: swap two children.
                let e = if matches!(t, S::Dir(_, _, b'r')) { 0x20 } else { 8 };
                let n = g16(&c, e + 2) as usize;
                if n < 2 {
                    return None;
                }
                let (x, y) = (g32(&c, e + 4), g32(&c, e + 12));
                p32(&mut c, e + 4, y);
                p32(&mut c, e + 12, x);
            }
        }
        self.seal(t, &mut c);
        self.disk.set_block(to, c);
        let mut b = self.get(s);
        if leaf {
            p32(&mut b, o + 8, to as u32);
            p16(&mut b, o + 6, (to >> 32) as u16);
        } else {
            p32(&mut b, o + 4, to as u32);
            p16(&mut b, o + 8, (to >> 32) as u16);
        }
        Some((s, b, format!("{s:?}+{o:#x} from {t:?} to a changed copy at {to}")))
    }

    /// Alter the bytes of a structure.
    pub fn alter(&self, src: &mut Src, s: S, b: &mut [u8]) -> String {
        let all = self.structures();
        let same: Vec<S> = all.iter().copied().filter(|x| x.name() == s.name() && *x != s).collect();
        let other = if same.is_empty() { s } else { *src.pick(&same) };
        let sib = self.get(other);
        let be = matches!(s, S::Jsb | S::Log(_));
        let put = |b: &mut [u8], o: usize, w: usize, x: u64| {
            for i in 0..w {
                let k = if be { w - 1 - i } else { i };
                b[o + k] = (x >> (8 * i)) as u8;
            }
        };
        let get = |b: &[u8], o: usize, w: usize| -> u64 {
            let mut x = 0;
            for i in 0..w {
                let k = if be { w - 1 - i } else { i };
                x |= (b[o + k] as u64) << (8 * i);
            }
            x
        };
        match src.weighted(&[10, 3, 2, 1, 1, 1]) {
            0 => {
                let f = self.fields(s, b);
                let (o, w) = *src.pick(&f);
                let old = get(b, o, w);
                let x = self.value(src, old, w, &sib, o);
                put(b, o, w, x);
                format!("{s:?}+{o:#x} {old:#x} to {x:#x}")
            }
            1 => {
                let o = src.below(b.len() as u64) as usize;
                let bit = src.below(8);
                b[o] ^= 1 << bit;
                format!("{s:?}+{o:#x} bit {bit}")
            }
            2 => {
                let o = src.below(b.len() as u64) as usize & !3;
                let old = get(b, o, 4);
                let x = self.value(src, old, 4, &sib, o);
                put(b, o, 4, x);
                format!("{s:?}+{o:#x} {old:#x} to {x:#x}")
            }
            3 => {
                let o = src.below(b.len() as u64) as usize;
                let l = src.size(1, 200).min((b.len() - o) as u64) as usize;
                let fill = src.below(3);
                let seed = src.u64();
                match fill {
                    0 => b[o..o + l].fill(0),
                    1 => b[o..o + l].fill(0xff),
                    _ => Disk::fill_noise(&mut crate::rng::Rng(seed), &mut b[o..o + l]),
                }
                format!("{s:?}+{o:#x} {l} bytes")
            }
            4 => {
                let n = sib.len().min(b.len());
                b[..n].copy_from_slice(&sib[..n]);
                format!("{s:?} becomes {other:?}")
            }
            _ => {
                let o = src.below(b.len() as u64) as usize;
                let l = src.size(1, 64).min((b.len() - o) as u64) as usize;
                let p = src.below((sib.len() - l + 1) as u64) as usize;
                b[o..o + l].copy_from_slice(&sib[p..p + l]);
                format!("{s:?}+{o:#x} {l} bytes from {other:?}+{p:#x}")
            }
        }
    }
}

//! Sparse in-memory disk. Blocks without explicit contents read as
//! pseudo-random bytes that are a pure function of (seed, byte offset),
//! so file data costs nothing to store and a read of a wrong block is
//! always visible.

use crate::rng::mix;
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone)]
pub struct Disk {
    pub bs: u64,
    /// Total size in bytes that the reader accepts.
    pub size: u64,
    pub blocks: BTreeMap<u64, Rc<Vec<u8>>>,
    /// Seed for the contents of blocks in `used`.
    pub seed: u64,
    /// Seed for the contents of all other blocks.
    pub free_seed: u64,
    /// Block ranges (start -> length) that belong to something.
    pub used: BTreeMap<u64, u64>,
}

impl Disk {
    pub fn new(bs: u64, size: u64, seed: u64) -> Self {
        Self {
            bs,
            size,
            blocks: BTreeMap::new(),
            seed,
            free_seed: seed ^ 0x5555,
            used: BTreeMap::new(),
        }
    }

    pub fn is_used(&self, b: u64) -> bool {
        match self.used.range(..=b).next_back() {
            Some((s, l)) => b < s + l,
            None => false,
        }
    }

    fn fill_junk(seed: u64, off: u64, buf: &mut [u8]) {
        let mut i = 0usize;
        let mut pos = off;
        while i < buf.len() {
            let w = pos / 8;
            let v = mix(seed ^ w.wrapping_mul(0x2545_f491_4f6c_dd1d)).to_le_bytes();
            let s = (pos % 8) as usize;
            let n = (8 - s).min(buf.len() - i);
            buf[i..i + n].copy_from_slice(&v[s..s + n]);
            i += n;
            pos += n as u64;
        }
    }

    /// Read bytes; the caller has checked bounds.
    pub fn read_at(&self, off: u64, buf: &mut [u8]) {
        let mut i = 0usize;
        let mut pos = off;
        while i < buf.len() {
            let b = pos / self.bs;
            let o = (pos % self.bs) as usize;
            let n = (self.bs as usize - o).min(buf.len() - i);
            let dst = &mut buf[i..i + n];
            if let Some(data) = self.blocks.get(&b) {
                dst.copy_from_slice(&data[o..o + n]);
            } else {
                let seed = if self.is_used(b) { self.seed } else { self.free_seed };
                Self::fill_junk(seed, pos, dst);
            }
            i += n;
            pos += n as u64;
        }
    }

    pub fn block(&self, b: u64) -> Vec<u8> {
        let mut v = vec![0; self.bs as usize];
        self.read_at(b * self.bs, &mut v);
        v
    }

    pub fn block_mut(&mut self, b: u64) -> &mut Vec<u8> {
        if !self.blocks.contains_key(&b) {
            let v = self.block(b);
            self.blocks.insert(b, Rc::new(v));
        }
        Rc::make_mut(self.blocks.get_mut(&b).unwrap())
    }

    pub fn set_block(&mut self, b: u64, data: Vec<u8>) {
        assert_eq!(data.len() as u64, self.bs);
        self.blocks.insert(b, Rc::new(data));
    }

    pub fn write_at(&mut self, off: u64, data: &[u8]) {
        let mut i = 0usize;
        while i < data.len() {
            let pos = off + i as u64;
            let b = pos / self.bs;
            let o = (pos % self.bs) as usize;
            let n = (self.bs as usize - o).min(data.len() - i);
            self.block_mut(b)[o..o + n].copy_from_slice(&data[i..i + n]);
            i += n;
        }
    }

    pub fn bytes(&self, off: u64, len: usize) -> Vec<u8> {
        let mut v = vec![0; len];
        self.read_at(off, &mut v);
        v
    }

    /// Size, then (offset, length, bytes) of everything that is not
    /// free, with at most `max` bytes of the blocks of file data.
    pub fn export(&self, max: u64) -> Vec<u8> {
        let mut out = self.size.to_le_bytes().to_vec();
        let mut put = |off: u64, d: &[u8]| {
            out.extend(off.to_le_bytes());
            out.extend((d.len() as u64).to_le_bytes());
            out.extend(d);
        };
        for (b, d) in &self.blocks {
            put(b * self.bs, d);
        }
        let mut left = max;
        for (s, l) in &self.used {
            for b in *s..s + l {
                if left < self.bs {
                    return out;
                }
                let off = b * self.bs;
                if !self.blocks.contains_key(&b) && off < self.size {
                    left -= self.bs;
                    let n = self.bs.min(self.size - off);
                    put(off, &self.bytes(off, n as usize));
                }
            }
        }
        out
    }

    /// Materialise as a flat image (only for small disks).
    pub fn flatten(&self) -> Vec<u8> {
        self.bytes(0, self.size as usize)
    }
}

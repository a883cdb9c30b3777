//! C01 file contents, C02 reads and seeks.

use crate::engine::*;
use crate::img::*;
use crate::ops::*;
use crate::{ensure, fail};
use ext4_view::{Ext4, Ext4Error, File};
use std::io::{Read, Seek, SeekFrom};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            run: c01,
            quick: 16000,
            thorough: 200000,
            rule: "case = generated image (geometry, placement, files with extent trees / block maps / holes / unwritten extents), every regular file read whole and through an open handle and compared with the model; non-trivial: at least one file with a mapped block was compared",
        },
        Prop {
            id: "C02",
            run: c02,
            quick: 20000,
            thorough: 300000,
            rule: "case = generated image, one open file, a drawn sequence of read/seek calls (own and std interface, buffers and offsets biased to block, extent, EOF and integer boundaries) compared call by call with a byte-stream model; non-trivial: at least 3 reads returned data",
        },
    ]
}

pub fn diff(a: &[u8], b: &[u8]) -> Option<usize> {
    if a.len() != b.len() {
        return Some(a.len().min(b.len()));
    }
    if a == b {
        return None;
    }
    a.iter().zip(b).position(|(x, y)| x != y)
}

pub fn file_cfg(src: &mut Src) -> Cfg {
    let mut cfg = Cfg {
        max_nodes: 6,
        kinds: [12, 2, 1, 0],
        bigdir_pct: 0,
        huge_pct: 3,
        ..Default::default()
    };
    if src.chance(1, 3) {
        // Concentrate on one style.
        let s = src.below(6) as usize;
        for (i, m) in cfg.maps.iter_mut().enumerate() {
            *m = if i == s { 12 } else { 1 };
        }
    }
    cfg
}

pub fn map_labels(img: &Img, n: usize, ctx: &mut Ctx) {
    let node = &img.nodes[n];
    if node.extents {
        ctx.label(&format!("extent depth {}", node.depth));
        if node.runs.iter().any(|r| r.uninit) {
            ctx.label("file with unwritten extents");
        }
        if node.runs.iter().any(|r| r.len > 32000) {
            ctx.label("file with very long extents");
        }
    } else if !node.runs.is_empty() {
        let ppb = img.geo.bs / 4;
        let last = node.runs.last().map(|r| r.log + r.len).unwrap_or(0);
        let l = if last <= 12 {
            "direct"
        } else if last <= 12 + ppb {
            "indirect"
        } else if last <= 12 + ppb + ppb * ppb {
            "double indirect"
        } else {
            "triple indirect"
        };
        ctx.label(&format!("block map {l}"));
    }
    let mut at = 0;
    let mut hole = false;
    for r in &node.runs {
        if r.log > at {
            hole = true;
        }
        at = r.log + r.len;
    }
    let nb = node.size.div_ceil(img.geo.bs);
    if hole {
        ctx.label("file with inner hole");
    }
    if at < nb {
        ctx.label("file with trailing hole");
    }
    if at > nb {
        ctx.label("file with blocks past EOF");
    }
    if node.runs.iter().any(|r| r.phys + r.len > 1 << 32) {
        ctx.label("file with blocks above 2^32");
    }
}

/// Read [off, off+len) through an open file, in calls of at most `step`.
pub fn read_range(f: &mut File, off: u64, len: u64, step: usize) -> Result<Vec<u8>, Ext4Error> {
    f.seek_to(off)?;
    let mut out = vec![0u8; len as usize];
    let mut at = 0;
    while at < out.len() {
        let e = (at + step).min(out.len());
        let n = f.read_bytes(&mut out[at..e])?;
        if n == 0 {
            break;
        }
        at += n;
    }
    out.truncate(at);
    Ok(out)
}

pub fn check_content(img: &Img, fs: &Ext4, p: &[u8], n: usize, src: &mut Src, ctx: &mut Ctx) -> Res {
    let node = &img.nodes[n];
    let what = |e: &str| format!("{e}; file {:?} ino {} size {}; {}", String::from_utf8_lossy(p), node.ino, node.size, img.describe());
    if node.size <= 24 << 20 {
        let want = img.file_bytes(n, 0, node.size);
        ctx.ops += 1;
        match fs.read(p) {
            Ok(got) => {
                ensure!(got.len() as u64 == node.size, "read:length", "{}", what(&format!("read returned {} bytes", got.len())));
                if let Some(i) = diff(&want, &got) {
                    let b = i as u64 / img.geo.bs;
                    fail!("read:content", "{}", what(&format!("byte {i} (block {b}) is {:#x}, should be {:#x}; run {:?}", got[i], want[i], node.runs.iter().find(|r| b >= r.log && b < r.log + r.len))));
                }
            }
            Err(e) => fail!("read:error", "{}", what(&format!("read failed: {e:?}"))),
        }
    } else {
        ctx.label("file larger than 24 MiB");
    }
    // Through an open handle, at interesting places.
    let mut f = match fs.open(p) {
        Ok(f) => f,
        Err(e) => fail!("open:error", "{}", what(&format!("open failed: {e:?}"))),
    };
    let bs = img.geo.bs;
    let mut marks: Vec<u64> = vec![0, node.size.saturating_sub(1), node.size / 2];
    for _ in 0..3 {
        if !node.runs.is_empty() {
            let r = src.pick(&node.runs).clone();
            let m = match src.below(4) {
                0 => r.log * bs,
                1 => (r.log + r.len) * bs,
                2 => (r.log + src.below(r.len)) * bs,
                _ => (r.log * bs).saturating_sub(1),
            };
            marks.push(m);
        }
    }
    marks.push(src.below(node.size.max(1)));
    for m in marks {
        if m / bs > 2_500_000 {
            continue;
        }
        let len = src.range(1, 3 * bs.min(8192));
        let want = img.file_bytes(n, m, len);
        ctx.ops += 1;
        match read_range(&mut f, m, len, src.range(1, 5000) as usize) {
            Ok(got) => {
                if let Some(i) = diff(&want, &got) {
                    fail!("open-read:content", "{}", what(&format!("at {m}+{i} (len {len}): got {} bytes, want {}", got.len(), want.len())));
                }
            }
            Err(e) => fail!("open-read:error", "{}", what(&format!("read at {m} failed: {e:?}"))),
        }
    }
    Ok(())
}

fn c01(src: &mut Src, ctx: &mut Ctx) -> Res {
    let cfg = file_cfg(src);
    let img = Img::gen(src, &cfg);
    if ctx.want_sample {
        ctx.sample = img.describe();
    }
    ctx.label(&format!("block size {}", img.geo.bs));
    let fs = load_ok(&img)?;
    let mut paths = img.paths();
    src.shuffle(&mut paths);
    let mut seen = std::collections::BTreeSet::new();
    for (p, n) in paths {
        if !img.nodes[n].is_reg() || !seen.insert(n) {
            continue;
        }
        map_labels(&img, n, ctx);
        check_content(&img, &fs, &p, n, src, ctx)?;
        if img.nodes[n].runs.iter().any(|r| !r.uninit) {
            ctx.nontrivial = true;
        }
    }
    Ok(())
}

fn c02(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut cfg = file_cfg(src);
    cfg.max_nodes = 2;
    cfg.kinds = [1, 0, 0, 0];
    let img = Img::gen(src, &cfg);
    let fs = load_ok(&img)?;
    let Some((p, n)) = img.paths().into_iter().find(|(_, n)| img.nodes[*n].is_reg()) else {
        return Ok(());
    };
    let node = &img.nodes[n];
    let bs = img.geo.bs;
    let mut f = match fs.open(p.as_slice()) {
        Ok(f) => f,
        Err(e) => fail!("open:error", "open failed {e:?}; {}", img.describe()),
    };
    let size = node.size;
    let mut pos = 0u64;
    let mut trace = format!("size={size} bs={bs}:");
    let mut data_reads = 0;
    let k = src.range(1, 40);
    for _ in 0..k {
        ctx.ops += 1;
        let op = src.weighted(&[6, 3, 2, 2, 2, 1, 1]);
        let offset = |src: &mut Src| -> u64 {
            match src.weighted(&[4, 4, 4, 2, 2]) {
                0 => src.below(size + 1),
                1 => {
                    let b = src.below(size / bs + 2) * bs;
                    (b + src.below(3)).saturating_sub(1)
                }
                2 => {
                    if node.runs.is_empty() {
                        return size;
                    }
                    let r = src.pick(&node.runs);
                    let e = if src.below(2) == 0 { r.log } else { r.log + r.len };
                    (e * bs + src.below(3)).saturating_sub(1)
                }
                3 => (size + src.below(3 * bs)).saturating_sub(1),
                _ => src.edgy64(),
            }
        };
        match op {
            0 | 1 => {
                let len = match src.weighted(&[3, 3, 3, 1, 1]) {
                    0 => src.range(1, 64),
                    1 => (bs + src.below(3)).saturating_sub(1),
                    2 => src.range(1, 2 * bs),
                    3 => bs * src.range(2, 6),
                    _ => 0,
                };
                let mut buf = vec![0xc3u8; len as usize];
                let std = op == 1;
                let r = if std {
                    f.read(&mut buf).map_err(|e| format!("{e:?}"))
                } else {
                    f.read_bytes(&mut buf).map_err(|e| format!("{e:?}"))
                };
                let got = match r {
                    Ok(n) => n as u64,
                    Err(e) => fail!("read:error", "read of {len} at {pos} failed: {e}; {trace}; {}", img.describe()),
                };
                trace += &format!(" read({len})={got}");
                let avail = size.saturating_sub(pos);
                ensure!(got <= len && got <= avail, "read:count", "read of {len} at {pos} returned {got} (available {avail}); {trace}; {}", img.describe());
                ensure!(got > 0 || len == 0 || avail == 0, "read:zero", "read of {len} at {pos} returned 0 with {avail} bytes left; {trace}; {}", img.describe());
                let want = img.file_bytes(n, pos, got);
                if let Some(i) = diff(&want, &buf[..got as usize]) {
                    fail!("read:content", "read of {len} at {pos}: byte {i} is {:#x} should be {:#x}; {trace}; {}", buf[i], want[i], img.describe());
                }
                ensure!(buf[got as usize..].iter().all(|b| *b == 0xc3), "read:overrun", "read of {len} at {pos} returned {got} but wrote more; {trace}; {}", img.describe());
                if got > 0 {
                    data_reads += 1;
                }
                pos += got;
            }
            2 => {
                let o = offset(src);
                trace += &format!(" seek_to({o})");
                if let Err(e) = f.seek_to(o) {
                    fail!("seek:error", "seek_to({o}) failed {e:?}; {trace}; {}", img.describe());
                }
                pos = o;
            }
            3 | 4 | 5 => {
                let (sf, want): (SeekFrom, Option<i128>) = match op {
                    3 => {
                        let o = offset(src);
                        (SeekFrom::Start(o), Some(o as i128))
                    }
                    4 => {
                        let t = offset(src) as i128 - size as i128;
                        let d = match src.weighted(&[6, 2]) {
                            0 => t.clamp(i64::MIN as i128, i64::MAX as i128) as i64,
                            _ => src.edgy64() as i64,
                        };
                        (SeekFrom::End(d), Some(size as i128 + d as i128))
                    }
                    _ => {
                        let t = offset(src) as i128 - pos as i128;
                        let d = match src.weighted(&[6, 2]) {
                            0 => t.clamp(i64::MIN as i128, i64::MAX as i128) as i64,
                            _ => src.edgy64() as i64,
                        };
                        (SeekFrom::Current(d), Some(pos as i128 + d as i128))
                    }
                };
                let want = want.unwrap();
                trace += &format!(" seek({sf:?})");
                let r = f.seek(sf);
                if want < 0 || want > u64::MAX as i128 {
                    match r {
                        Err(e) if e.kind() == std::io::ErrorKind::InvalidInput => {}
                        r => fail!("seek:invalid", "seek to {want} gave {r:?}, should be InvalidInput; {trace}; {}", img.describe()),
                    }
                } else if op != 3 && (want > i64::MAX as i128 || pos > i64::MAX as u64) {
                    // Beyond what a signed offset can express: either
                    // outcome is sound as long as it is consistent.
                    match r {
                        Ok(x) => {
                            ensure!(x as i128 == want, "seek:result", "seek gave {x}, should be {want}; {trace}");
                            pos = x;
                        }
                        Err(e) => ensure!(e.kind() == std::io::ErrorKind::InvalidInput, "seek:kind", "seek gave {e:?}; {trace}"),
                    }
                } else {
                    match r {
                        Ok(x) => ensure!(x as i128 == want, "seek:result", "seek gave {x}, should be {want}; {trace}; {}", img.describe()),
                        Err(e) => fail!("seek:error", "seek to {want} failed {e:?}; {trace}; {}", img.describe()),
                    }
                    pos = want as u64;
                }
            }
            _ => {
                // read_exact / read_to_end of the std interface.
                let avail = size.saturating_sub(pos);
                if src.chance(1, 2) && avail < 4 << 20 {
                    trace += " read_to_end";
                    let mut v = Vec::new();
                    match f.read_to_end(&mut v) {
                        Ok(k) => {
                            let want = img.file_bytes(n, pos, avail);
                            ensure!(k == v.len() && diff(&want, &v).is_none(), "read:to-end", "read_to_end at {pos} wrong ({k} bytes, want {}); {trace}; {}", want.len(), img.describe());
                        }
                        Err(e) => fail!("read:error", "read_to_end failed {e:?}; {trace}; {}", img.describe()),
                    }
                    pos = pos.max(size);
                } else {
                    let len = src.range(1, 3 * bs);
                    trace += &format!(" read_exact({len})");
                    let mut v = vec![0u8; len as usize];
                    let r = f.read_exact(&mut v);
                    if avail >= len {
                        let want = img.file_bytes(n, pos, len);
                        ensure!(r.is_ok() && diff(&want, &v).is_none(), "read:exact", "read_exact({len}) at {pos} wrong: {r:?}; {trace}; {}", img.describe());
                        pos += len;
                    } else {
                        ensure!(r.is_err(), "read:exact", "read_exact({len}) at {pos} succeeded past EOF; {trace}");
                        pos = pos.max(size);
                    }
                }
            }
        }
        ensure!(f.position() == pos, "position", "position is {}, should be {pos}; {trace}; {}", f.position(), img.describe());
        match f.stream_position() {
            Ok(x) => {
                ensure!(x == pos, "position", "stream_position gave {x}, should be {pos}; {trace}");
            }
            Err(e) => ensure!(pos > i64::MAX as u64 && e.kind() == std::io::ErrorKind::InvalidInput, "position", "stream_position at {pos} failed {e:?}; {trace}"),
        }
    }
    if let Some(d) = meta_diff(&img, n, f.metadata()) {
        fail!("metadata", "open file's metadata: {d}; {trace}; {}", img.describe());
    }
    ctx.nontrivial = data_reads >= 3;
    map_labels(&img, n, ctx);
    if ctx.want_sample {
        ctx.sample = format!("{trace}; {}", img.describe());
    }
    Ok(())
}

//! C06 metadata and identity, C16 feature flags, C19 superblock
//! validation.

use crate::crc::crc32c;
use crate::disk::Disk;
use crate::engine::*;
use crate::img::*;
use crate::ops::*;
use crate::{ensure, fail};
use ext4_view::{Ext4, Ext4Error};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C06",
            run: c06,
            quick: 20000,
            thorough: 240000,
            rule: "case = generated image (all inode sizes, group counts, descriptor sizes, table placements, disks beyond 2^32 blocks); metadata of every object through path, link path, directory entry and open file, and label and UUID, compared with the model; non-trivial: at least 5 objects in at least 2 groups",
        },
        Prop {
            id: "C16",
            run: c16,
            quick: 16000,
            thorough: 200000,
            rule: "case = generated image loaded under generated feature words (each unsupported or unknown incompatible bit, missing required bit, random compatible and read-only bits, journal feature words, hash algorithms) and compared with the documented verdict, with a full tour when it must load; non-trivial: the feature words differ from those generated and the verdict was checked",
        },
        Prop {
            id: "C19",
            run: c19,
            quick: 20000,
            thorough: 240000,
            rule: "case = generated image with one superblock mutation: descriptive fields (must load and read the same) or an illegal value (must be refused, or every access must be); non-trivial: the mutated superblock differs from the original",
        },
    ]
}

pub fn show(p: &[u8]) -> String {
    p.escape_ascii().to_string()
}

/// Metadata of every object through every route, label and UUID.
pub fn check_meta(img: &Img, fs: &Ext4, ctx: &mut Ctx) -> Res {
    let g = &img.geo;
    let lb: &[u8] = fs.label().as_bytes();
    ensure!(lb == g.label, "label", "label is {:?}, should be {:?}; {}", fs.label(), show(&g.label), img.describe());
    ensure!(fs.uuid().as_bytes() == &g.uuid, "uuid", "uuid is {}, should be {:x?}; {}", fs.uuid(), g.uuid, img.describe());
    for (p, n) in img.paths() {
        let node = &img.nodes[n];
        let what = |e: String| format!("{e}; {} ino {} (group {} of {}, table at {}, inode size {}); {}", show(&p), node.ino, (node.ino - 1) / g.ipg, g.groups, g.itable[((node.ino - 1) / g.ipg) as usize], g.inode_size, img.describe());
        ctx.ops += 1;
        match fs.symlink_metadata(p.as_slice()) {
            Ok(m) => {
                if let Some(d) = meta_diff(img, n, &m) {
                    fail!("symlink_metadata", "{}", what(d));
                }
            }
            Err(e) => fail!("symlink_metadata:error", "{}", what(format!("failed {e:?}"))),
        }
        if !node.is_link() {
            match fs.metadata(p.as_slice()) {
                Ok(m) => {
                    if let Some(d) = meta_diff(img, n, &m) {
                        fail!("metadata", "{}", what(d));
                    }
                }
                Err(e) => fail!("metadata:error", "{}", what(format!("failed {e:?}"))),
            }
        }
        if node.is_reg() {
            match fs.open(p.as_slice()) {
                Ok(f) => {
                    if let Some(d) = meta_diff(img, n, f.metadata()) {
                        fail!("open:metadata", "{}", what(d));
                    }
                }
                Err(e) => fail!("open:error", "{}", what(format!("failed {e:?}"))),
            }
        }
        if node.is_dir() {
            match fs.read_dir(p.as_slice()) {
                Ok(it) => {
                    for e in it {
                        let Ok(e) = e else { fail!("read_dir:error", "{}", what("listing failed".into())) };
                        let name = e.file_name();
                        let Some(m) = img.lookup(n, name.as_ref()) else { continue };
                        match e.metadata() {
                            Ok(x) => {
                                if let Some(d) = meta_diff(img, m, &x) {
                                    fail!("entry:metadata", "{}", what(format!("entry {}: {d}", show(name.as_ref()))));
                                }
                            }
                            Err(x) => fail!("entry:metadata-error", "{}", what(format!("entry {}: {x:?}", show(name.as_ref())))),
                        }
                    }
                }
                Err(e) => fail!("read_dir:error", "{}", what(format!("failed {e:?}"))),
            }
        }
    }
    Ok(())
}

fn c06(src: &mut Src, ctx: &mut Ctx) -> Res {
    let cfg = Cfg {
        max_nodes: 24,
        kinds: [3, 2, 2, 3],
        huge_pct: 5,
        wide_pct: 3,
        bigdir_pct: 3,
        bigdir_max: 40,
        maps: [4, 3, 1, 1, 1, 1],
        ..Default::default()
    };
    let img = Img::gen(src, &cfg);
    if ctx.want_sample {
        ctx.sample = img.describe();
    }
    let fs = load_ok(&img)?;
    check_meta(&img, &fs, ctx)?;
    let groups: std::collections::BTreeSet<u32> = img.nodes.iter().map(|n| (n.ino - 1) / img.geo.ipg).collect();
    ctx.nontrivial = img.nodes.len() >= 5 && groups.len() >= 2;
    ctx.label(&format!("inode size {}", img.geo.inode_size));
    ctx.label(&format!("descriptor size {}", img.geo.desc_size));
    if img.geo.blocks > 1 << 32 {
        ctx.label("more than 2^32 blocks");
    }
    if img.geo.ipg as u64 * img.geo.inode_size as u64 > 1 << 32 {
        ctx.label("inode table of more than 4 GiB");
    }
    if img.nodes.iter().any(|n| img.geo.itable[((n.ino - 1) / img.geo.ipg) as usize] >> 32 != 0) {
        ctx.label("inode in a table above 2^32");
    }
    if img.nodes.iter().any(|n| n.size >> 32 != 0) {
        ctx.label("size above 4 GiB");
    }
    if img.geo.gdt_blocks() > 1 {
        ctx.label("several descriptor blocks");
    }
    Ok(())
}

/// Everything in the image reads as the model says.
pub fn check_all(img: &Img, fs: &Ext4, src: &mut Src, ctx: &mut Ctx) -> Res {
    check_meta(img, fs, ctx)?;
    for (p, n) in img.paths() {
        match &img.nodes[n].kind {
            Kind::Reg if !img.nodes[n].encrypted => super::content::check_content(img, fs, &p, n, src, ctx)?,
            Kind::Symlink(t) if !img.nodes[n].encrypted => match fs.read_link(p.as_slice()) {
                Ok(x) => {
                    let x: &[u8] = x.as_ref();
                    ensure!(x == t.as_slice(), "read_link", "{}: {} should be {}; {}", show(&p), show(x), show(t), img.describe());
                }
                Err(e) => fail!("read_link:error", "{}: {e:?}; {}", show(&p), img.describe()),
            },
            Kind::Dir(d) if !img.nodes[n].encrypted => match listing(fs, &p, 1 << 20) {
                Ok((l, None)) => ensure!(l.len() == d.ents.len() + 2, "read_dir:count", "{}: {} entries, should be {}; {}", show(&p), l.len(), d.ents.len() + 2, img.describe()),
                Ok((_, Some(e))) | Err(e) => fail!("read_dir:error", "{}: {e:?}; {}", show(&p), img.describe()),
            },
            _ => {}
        }
    }
    Ok(())
}

pub fn small_cfg() -> Cfg {
    Cfg {
        max_nodes: 8,
        huge_pct: 0,
        bigdir_pct: 20,
        bigdir_max: 80,
        max_log_bs: 2,
        big_sparse: false,
        ..Default::default()
    }
}

const BAD_INCOMPAT: [u32; 8] = [0x1, 0x8, 0x10, 0x100, 0x400, 0x1000, 0x4000, 0x8000];
/// Bits the library does not know.
const UNKNOWN_INCOMPAT: [u32; 17] = [
    0x20, 0x800, 0x2_0000, 0x4_0000, 0x8_0000, 0x10_0000, 0x20_0000, 0x40_0000, 0x80_0000, 0x100_0000, 0x200_0000, 0x400_0000, 0x800_0000, 0x1000_0000, 0x2000_0000, 0x4000_0000, 0x8000_0000,
];

fn is_incompatible(r: &Result<Ext4, Ext4Error>) -> bool {
    matches!(r, Err(Ext4Error::Incompatible(_)))
}

fn outcome(r: &Result<Ext4, Ext4Error>) -> String {
    match r {
        Ok(_) => "loaded".into(),
        Err(e) => format!("{e:?}"),
    }
}

/// Features of the journal.
fn c16_journal(src: &mut Src, ctx: &mut Ctx) -> Res {
    use crate::journal::*;
    let mut cfg = small_cfg();
    cfg.max_nodes = 4;
    cfg.bigdir_pct = 0;
    let hc = HistCfg { max_txs: 2, bulk_pct: 0, revokes: src.chance(1, 2), all: false, min_len: 0 };
    let mut h = gen_history(src, &cfg, &hc);
    ctx.sample = h.describe();
    let n = h.txs.len();
    let mut d = h.base(src, n);
    h.write_old_log(src, &mut d);
    h.write_log(&mut d, h.log.len(), &|_| false);
    let good = src.chance(1, 4);
    let what;
    let mut b;
    if good {
        // Words that do not matter.
        h.jsb.compat = src.u32();
        h.jsb.incompat |= 1;
        what = format!("compatible features {:#x}", h.jsb.compat);
        b = h.jsb.bytes();
        d.set_block(h.map[0], b);
        ctx.label("journal: harmless words");
    } else {
        match src.weighted(&[4, 2, 2, 1, 2]) {
            0 => {
                let bit = if src.chance(1, 2) { *src.pick(&[0x4u32, 0x8, 0x20, 0x40]) } else { 1 << src.range(5, 31) };
                h.jsb.incompat |= bit;
                b = h.jsb.bytes();
                what = format!("journal incompatible bit {bit:#x}");
                ctx.label("journal: unsupported bit");
            }
            1 => {
                h.jsb.incompat &= !*src.pick(&[0x2u32, 0x10, 0x12]);
                b = h.jsb.bytes();
                what = format!("journal incompatible features {:#x}", h.jsb.incompat);
                ctx.label("journal: required bit missing");
            }
            2 => {
                b = h.jsb.bytes();
                loop {
                    b[0x50] = src.below(256) as u8;
                    if b[0x50] != 4 {
                        break;
                    }
                }
                what = format!("journal checksum type {}", b[0x50]);
                seal_jsb(&mut b);
                ctx.label("journal: checksum type");
            }
            3 => {
                b = h.jsb.bytes();
                pb32(&mut b, 4, 3);
                what = "journal superblock version 1".into();
                seal_jsb(&mut b);
                ctx.label("journal: superblock version");
            }
            _ => {
                // An escaped block, in a complete transaction.
                b = h.jsb.bytes();
                let descs: Vec<usize> = (0..h.log.len()).filter(|i| h.log[*i].part == Part::Descriptor).collect();
                if descs.is_empty() {
                    ctx.label("journal: nothing to escape");
                    return Ok(());
                }
                let i = *src.pick(&descs);
                let mut x = h.log[i].data.clone();
                let f = gb32(&x, 16) | 1;
                pb32(&mut x, 16, f);
                seal_tail(&mut x, h.jsb.seed());
                d.set_block(h.map[h.at(i)], x);
                what = format!("escaped block in log block {i}");
                ctx.label("journal: escaped block");
            }
        }
        d.set_block(h.map[0], b);
    }
    let r = load(&d);
    ctx.ops += 1;
    ctx.nontrivial = true;
    if good {
        match r {
            Ok(fs) => check_all(&h.states[n], &fs, src, ctx)?,
            Err(e) => fail!("journal:refused", "{what}: {e:?}; {}", h.describe()),
        }
    } else {
        ensure!(is_incompatible(&r), "journal:accepted", "{what}: {}; {}", outcome(&r), h.describe());
        // Irrelevant when there is nothing to recover.
        let s = &h.states[0];
        let mut c = h.clean_disk(0);
        for blk in &h.map {
            c.set_block(*blk, d.block(*blk));
        }
        match load(&c) {
            Ok(fs) => check_all(s, &fs, src, ctx)?,
            Err(e) => fail!("journal:clean-refused", "{what}, clean filesystem: {e:?}; {}", h.describe()),
        }
    }
    Ok(())
}

fn c16(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut cfg = small_cfg();
    let mode = src.weighted(&[4, 2, 5, 4, 4, 3]);
    if mode == 5 {
        return c16_journal(src, ctx);
    }
    if mode == 3 {
        cfg.bigdir_pct = 100;
    }
    let mut img = Img::gen(src, &cfg);
    ctx.sample = img.describe();
    match mode {
        0 => {
            // At least one bit that must be refused, among others.
            let all: Vec<u32> = BAD_INCOMPAT.iter().chain(UNKNOWN_INCOMPAT.iter()).copied().collect();
            let b = *src.pick(&all);
            let mut w = img.geo.incompat | b;
            if src.chance(1, 4) {
                w |= *src.pick(&all);
            }
            img.geo.incompat = w;
            let which = if UNKNOWN_INCOMPAT.contains(&b) { "unknown" } else { "unsupported" };
            ctx.label(&format!("{which} incompatible bit {b:#x}"));
            img.write_sb();
            let r = load(&img.disk);
            ensure!(is_incompatible(&r), "incompat:accepted", "incompatible features {w:#x} ({which} {b:#x}): {}; {}", outcome(&r), img.describe());
            ctx.ops += 1;
            ctx.nontrivial = true;
        }
        1 => {
            // The required bit is missing.
            img.geo.incompat &= !I_FILETYPE;
            if src.chance(1, 3) {
                img.geo.incompat |= *src.pick(&BAD_INCOMPAT);
            }
            img.write_sb();
            let r = load(&img.disk);
            ensure!(is_incompatible(&r), "incompat:missing-accepted", "incompatible features {:#x}: {}; {}", img.geo.incompat, outcome(&r), img.describe());
            ctx.label("required bit missing");
            ctx.ops += 1;
            ctx.nontrivial = true;
        }
        2 => {
            // Harmless words: anything compatible, anything read-only
            // but checksums, harmless incompatible bits.
            let before = (img.geo.compat, img.geo.incompat, img.geo.ro);
            let word = |src: &mut Src| -> u32 {
                match src.below(4) {
                    0 => 1u32 << src.below(32),
                    1 => u32::MAX,
                    2 => 0,
                    _ => src.u32(),
                }
            };
            img.geo.compat = if src.chance(1, 2) { word(src) } else { img.geo.compat ^ (1 << src.below(32)) };
            let keep = R_METADATA_CSUM;
            let r = if src.chance(1, 2) { word(src) } else { img.geo.ro ^ (1 << src.below(32)) };
            img.geo.ro = (img.geo.ro & keep) | (r & !keep);
            for b in [I_EXTENTS, I_FLEX_BG, I_ENCRYPT] {
                if src.chance(1, 4) {
                    img.geo.incompat ^= b;
                }
            }
            // Needs recovery, but there is no journal.
            if img.geo.compat & C_HAS_JOURNAL == 0 && src.chance(1, 4) {
                img.geo.incompat |= I_RECOVER;
                ctx.label("recovery flag without a journal");
            }
            img.write_sb();
            let r = load(&img.disk);
            let fs = match r {
                Ok(f) => f,
                Err(e) => fail!("harmless:refused", "features {:#x}/{:#x}/{:#x}: {e:?}; {}", img.geo.compat, img.geo.incompat, img.geo.ro, img.describe()),
            };
            check_all(&img, &fs, src, ctx)?;
            ctx.label("harmless feature words");
            if img.geo.compat & C_HAS_JOURNAL != 0 {
                ctx.label("clean journal flag");
            }
            ctx.nontrivial = (img.geo.compat, img.geo.incompat, img.geo.ro) != before;
        }
        3 => {
            // Unsupported directory hash.
            let dirs: Vec<usize> = (0..img.nodes.len()).filter(|n| img.nodes[*n].dir().is_some_and(|d| d.htree)).collect();
            let mut bad = Vec::new();
            for n in dirs {
                if src.chance(1, 4) {
                    continue;
                }
                let v = *src.pick(&[0u8, 6, 3, 4, 5, 7, 8, 0x7f, 0x80, 0xff]);
                let p = img.phys(n, 0).unwrap();
                let mut b = img.disk.block(p);
                b[28] = v;
                img.reseal_dx(n, &mut b, 32);
                img.disk.set_block(p, b);
                bad.push((n, v));
            }
            let fs = load_ok(&img)?;
            for n in 0..img.nodes.len() {
                let Some(d) = img.nodes[n].dir() else { continue };
                if img.nodes[n].encrypted {
                    continue;
                }
                let base = img.path_of_dir(n);
                // Reachable only if no directory above is bad.
                let mut up = n;
                let mut above = false;
                while up != 0 {
                    up = img.nodes[up].dir().unwrap().parent;
                    above |= bad.iter().any(|b| b.0 == up);
                }
                let v = bad.iter().find(|b| b.0 == n).map(|b| b.1);
                if !above {
                    // Listing does not depend on the hash.
                    match listing(&fs, &base, 1 << 20) {
                        Ok((l, None)) => ensure!(l.len() == d.ents.len() + 2, "hash:listing", "listing of {} with hash {v:?}: {} entries, should be {}; {}", show(&base), l.len(), d.ents.len() + 2, img.describe()),
                        Ok((_, Some(e))) | Err(e) => fail!("hash:listing-error", "listing of {} with hash {v:?} failed {e:?}; {}", show(&base), img.describe()),
                    }
                }
                let mut names: Vec<(Vec<u8>, bool)> = d.ents.iter().take(20).map(|e| (e.name.clone(), true)).collect();
                names.push((b"no such name".to_vec(), false));
                for (name, live) in names {
                    let mut p = base.clone();
                    if p != b"/" {
                        p.push(b'/');
                    }
                    p.extend_from_slice(&name);
                    ctx.ops += 1;
                    let r = fs.symlink_metadata(p.as_slice());
                    if above || v.is_some() {
                        let ok = matches!(r, Err(Ext4Error::Incompatible(_)));
                        ensure!(ok, "hash:accepted", "lookup of {} with unsupported hash {v:?}: {:?}; {}", show(&p), r.map(|m| meta_str(&m)), img.describe());
                        ctx.label(&format!("lookup refused, hash {}", v.map_or("above".into(), |v| v.to_string())));
                        ctx.nontrivial = true;
                    } else if live {
                        ensure!(r.is_ok(), "hash:other", "lookup of {} failed {:?}; {}", show(&p), r.err(), img.describe());
                    } else {
                        ensure!(matches!(r, Err(Ext4Error::NotFound)), "hash:other", "lookup of absent {}: {:?}; {}", show(&p), r.map(|m| meta_str(&m)), img.describe());
                    }
                }
            }
        }
        _ => {
            // Checksum seed stored or derived, both with and without
            // the checksum feature.
            let fs = load_ok(&img)?;
            check_all(&img, &fs, src, ctx)?;
            ctx.label(if img.geo.incompat & I_CSUM_SEED != 0 { "stored checksum seed" } else { "features as generated" });
        }
    }
    Ok(())
}

fn reseal_sb(b: &mut [u8]) {
    if g32(b, 0x64) & R_METADATA_CSUM != 0 {
        let c = crc32c(!0, &b[..0x3fc]);
        p32(b, 0x3fc, c);
    }
}

/// Descriptive fields that do not affect reading: (offset, length).
const FREE_FIELDS: [(usize, usize); 28] = [
    (0x8, 4),    // reserved blocks
    (0xc, 4),    // free blocks
    (0x10, 4),   // free inodes
    (0x1c, 4),   // log cluster size (no bigalloc)
    (0x2c, 4),   // mount time
    (0x30, 4),   // write time
    (0x34, 2),   // mount count
    (0x36, 2),   // max mount count
    (0x3a, 2),   // state
    (0x3c, 2),   // errors
    (0x3e, 2),   // minor revision
    (0x40, 4),   // last check
    (0x44, 4),   // check interval
    (0x48, 4),   // creator OS
    (0x50, 2),   // default uid
    (0x52, 2),   // default gid
    (0x5a, 2),   // this superblock's group
    (0x88, 64),  // last mounted on
    (0xcc, 2),   // preallocation
    (0xce, 2),   // reserved GDT blocks
    (0xd0, 16),  // journal UUID
    (0xe8, 4),   // orphan list
    (0xfc, 1),   // default hash version
    (0x100, 8),  // default mount options, first metablock group
    (0x108, 72), // mkfs time, journal backup, ...
    (0x154, 8),  // reserved and free blocks, high
    (0x164, 16), // RAID, MMP
    (0x178, 0xf8), // written, snapshot and error records, quota, mount options
];

fn c19(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut cfg = small_cfg();
    cfg.max_log_bs = 6;
    cfg.huge_pct = 1;
    let img = Img::gen(src, &cfg);
    let mut disk: Disk = img.disk.clone();
    let orig = disk.bytes(1024, 1024);
    let mut sb = orig.clone();
    ctx.ops += 1;
    let bs = img.geo.bs;
    match src.weighted(&[3, 4, 2]) {
        0 => {
            let k = src.range(1, 6);
            let mut names = String::new();
            for _ in 0..k {
                let (o, l) = *src.pick(&FREE_FIELDS);
                let style = src.below(3);
                for x in sb[o..o + l].iter_mut() {
                    *x = match style {
                        0 => src.below(256) as u8,
                        1 => 0,
                        _ => 0xff,
                    };
                }
                names += &format!(" {o:#x}");
            }
            if !img.geo.is64 && src.chance(1, 2) {
                // Without 64-bit the descriptor size field is unused.
                let v = *src.pick(&[0u16, 32, 64, 0xffff]);
                p16(&mut sb, 0xfe, v);
            }
            if !img.geo.csum {
                p32(&mut sb, 0x3fc, src.u32());
                if img.geo.incompat & I_CSUM_SEED == 0 {
                    p32(&mut sb, 0x270, src.u32());
                }
            }
            reseal_sb(&mut sb);
            disk.write_at(1024, &sb);
            ctx.label("descriptive fields");
            ctx.sample = format!("fields{names}; {}", img.describe());
            let fs = match load(&disk) {
                Ok(f) => f,
                Err(e) => fail!("sb:refused", "superblock with fields{names} changed is refused: {e:?}; {}", img.describe()),
            };
            check_all(&img, &fs, src, ctx)?;
        }
        1 => {
            // Illegal values.
            let mut label: String;
            let must: &[&str];
            match src.below(12) {
                0 => {
                    let m = match src.below(2) {
                        0 => *src.pick(&[0u16, 0x53ef, 0xffff]),
                        _ => 0xef53 ^ (1 << src.below(16)),
                    };
                    p16(&mut sb, 0x38, m);
                    label = format!("magic {m:#x}");
                    must = &["Corrupt"];
                }
                1 => {
                    let v = *src.pick(&[7u32, 8, 10, 16, 20, 21, 22, 31, 32, 54, 64, 255, 256, 0x8000_0000, u32::MAX]);
                    p32(&mut sb, 0x18, v);
                    label = format!("log block size {v}");
                    must = &["Corrupt"];
                }
                2 => {
                    p32(&mut sb, 0x28, 0);
                    label = "no inodes per group".into();
                    must = &["Corrupt"];
                }
                3 => {
                    p32(&mut sb, 0x20, 0);
                    label = "no blocks per group".into();
                    must = &["Corrupt"];
                }
                4 => {
                    if img.geo.blocks >= u32::MAX as u64 {
                        return Ok(());
                    }
                    let v = *src.pick(&[img.geo.blocks as u32 + 1, u32::MAX]);
                    p32(&mut sb, 0x14, v);
                    label = format!("first data block {v}");
                    must = &["Corrupt"];
                }
                5 => {
                    let v = *src.pick(&[(bs + 1).min(65535) as u16, (bs * 2).min(65535) as u16, 0xffff]);
                    if v as u64 <= bs {
                        return Ok(());
                    }
                    p16(&mut sb, 0x58, v);
                    label = "inode larger than a block".into();
                    must = &["Corrupt"];
                }
                6 => {
                    let v = *src.pick(&[0u16, 1, 2, 64, 127]);
                    p16(&mut sb, 0x58, v);
                    label = format!("inode size {v}");
                    // Refused at load or at every access.
                    must = &[];
                }
                7 => {
                    if !img.geo.is64 {
                        return Ok(());
                    }
                    let v = *src.pick(&[0u16, 1, 31, 32, 33, 63]);
                    p16(&mut sb, 0xfe, v);
                    label = format!("descriptor size {v}");
                    must = &["Corrupt"];
                }
                8 => {
                    if !img.geo.is64 || bs >= 65536 {
                        return Ok(());
                    }
                    let v = (bs as u16).wrapping_mul(2).max(bs as u16 + 1);
                    p16(&mut sb, 0xfe, v);
                    label = "descriptor larger than a block".into();
                    must = &["Corrupt"];
                }
                9 => {
                    if !img.geo.csum {
                        return Ok(());
                    }
                    // Checksum or anything it covers.
                    let i = if src.chance(1, 2) { 0x3fc + src.below(4) } else { src.below(0x3fc) } as usize;
                    // The flag that enables the check is outside the
                    // reach of the check.
                    let mut m = 1u8 << src.below(8);
                    if i == 0x65 && m == 4 {
                        m = 8;
                    }
                    sb[i] ^= m;
                    label = "bad superblock checksum".into();
                    disk.write_at(1024, &sb);
                    let r = load(&disk);
                    ctx.label(&label);
                    ctx.nontrivial = true;
                    ensure!(matches!(r, Err(Ext4Error::Corrupt(_)) | Err(Ext4Error::Incompatible(_))), "sb:checksum", "bit {m:#x} of superblock byte {i:#x} flipped: {}; {}", outcome(&r), img.describe());
                    return Ok(());
                }
                10 => {
                    // More than 2^32 groups.
                    p32(&mut sb, 0x20, src.range(1, 8) as u32);
                    p32(&mut sb, 0x150, 0x40 + src.below(0xffff) as u32);
                    label = "too many groups".into();
                    must = &["Corrupt"];
                }
                _ => {
                    // A journal that needs replay, with no inode.
                    p32(&mut sb, 0x5c, img.geo.compat | C_HAS_JOURNAL);
                    p32(&mut sb, 0x60, img.geo.incompat | I_RECOVER);
                    p32(&mut sb, 0xe0, 0);
                    label = "no journal inode".into();
                    must = &["Corrupt"];
                }
            }
            // Several faults at once are still a fault.
            if src.chance(1, 6) {
                let (o, l) = *src.pick(&FREE_FIELDS);
                for x in sb[o..o + l].iter_mut() {
                    *x = src.below(256) as u8;
                }
                label += " and noise";
            }
            reseal_sb(&mut sb);
            disk.write_at(1024, &sb);
            let l = label.split(" and ").next().unwrap();
            ctx.label(if l.starts_with("first data") { "first data block past the end" } else { l });
            ctx.sample = format!("{label}; {}", img.describe());
            match load(&disk) {
                Err(e) => ensure!(must.is_empty() || must.contains(&kind(&e)), "sb:wrong-error", "{label}: {e:?}, should be {must:?}; {}", img.describe()),
                Ok(fs) => {
                    ensure!(must.is_empty(), "sb:accepted", "{label}: accepted; {}", img.describe());
                    for op in tour(&img) {
                        let o = exec(&fs, &op);
                        ensure!(o.is_err(), "sb:accepted", "{label}: {op:?} gives {o:?}; {}", img.describe());
                    }
                }
            }
        }
        _ => {
            // The device ends early.
            let cut = *src.pick(&[0u64, 1, 512, 1023, 1024, 1025, 1500, 2047]);
            disk.size = cut;
            ctx.label("truncated superblock");
            match load(&disk) {
                Err(Ext4Error::Io(_)) => {}
                r => fail!("sb:truncated", "device of {cut} bytes: {}", outcome(&r)),
            }
            // Descriptors cut off.
            let mut disk = img.disk.clone();
            let end = img.geo.desc_offset(img.geo.groups - 1) + img.geo.desc_size as u64;
            disk.size = end - 1 - src.below(img.geo.desc_size as u64 - 1);
            match load(&disk) {
                Err(Ext4Error::Io(_)) => {}
                r => fail!("sb:truncated-gdt", "device of {} bytes, descriptors to {end}: {}", disk.size, outcome(&r)),
            }
            ctx.nontrivial = true;
            return Ok(());
        }
    }
    ctx.nontrivial = sb != orig;
    Ok(())
}

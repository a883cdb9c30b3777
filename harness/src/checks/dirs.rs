//! C03 directory listings, C04 name lookup.

use crate::engine::*;
use crate::img::*;
use crate::ops::*;
use crate::{ensure, fail};
use std::collections::BTreeMap;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C03",
            run: c03,
            quick: 10000,
            thorough: 120000,
            rule: "case = generated image; every directory is listed and the multiset of (name, type, path, metadata) compared with the model; non-trivial: some listed directory has more than one block or is hash-indexed or holds deleted records",
        },
        Prop {
            id: "C04",
            run: c04,
            quick: 2400,
            thorough: 25000,
            rule: "case = generated image whose inodes have unique owners; every live name of every directory is looked up, and as many absent ones (deleted records, prefixes, extensions, case flips, random); non-trivial: a hash-indexed directory with at least 10 names was probed",
        },
    ]
}

fn dir_labels(img: &Img, n: usize, ctx: &mut Ctx) -> bool {
    let d = img.nodes[n].dir().unwrap();
    let nb = d.block_types.len();
    if d.htree {
        ctx.label(&format!("htree depth {} hash {}{}", d.depth, d.hash_version, if img.geo.unsigned_hash() { " unsigned" } else { "" }));
    } else {
        ctx.label("linear directory");
    }
    if nb > 1 {
        ctx.label("multi-block directory");
    }
    if nb > 20 {
        ctx.label("directory of more than 20 blocks");
    }
    if !img.nodes[n].extents {
        ctx.label("block-mapped directory");
    }
    if !d.deleted.is_empty() {
        ctx.label("directory with deleted records");
    }
    if img.geo.bs == 65536 {
        ctx.label("directory with 64 KiB blocks");
    }
    d.htree || nb > 1 || !d.deleted.is_empty()
}

fn join(base: &[u8], name: &[u8]) -> Vec<u8> {
    let mut v = base.to_vec();
    if v.last() != Some(&b'/') {
        v.push(b'/');
    }
    v.extend_from_slice(name);
    v
}

fn show(p: &[u8]) -> String {
    p.escape_ascii().to_string()
}

fn c03(src: &mut Src, ctx: &mut Ctx) -> Res {
    let cfg = Cfg {
        max_nodes: 14,
        bigdir_pct: 60,
        bigdir_max: *src.pick(&[120u64, 600, 1500]),
        maps: [4, 3, 1, 0, 1, 1],
        collide_pct: 2,
        ..Default::default()
    };
    let img = Img::gen(src, &cfg);
    if ctx.want_sample {
        ctx.sample = img.describe();
    }
    let fs = load_ok(&img)?;
    for n in 0..img.nodes.len() {
        if !img.nodes[n].is_dir() {
            continue;
        }
        if dir_labels(&img, n, ctx) {
            ctx.nontrivial = true;
        }
        let mut arg = img.path_of_dir(n);
        match src.weighted(&[6, 2, 2, 2]) {
            0 => {}
            1 => arg.push(b'/'),
            2 => arg.extend_from_slice(b"/."),
            _ => {
                // As long as a path may be: those of the entries are longer.
                let len = 4096 - src.size(0, 300) as usize;
                arg.resize(len.max(arg.len()), b'/');
                ctx.label("path near the longest");
            }
        }
        ctx.ops += 1;
        let what = |e: String| format!("{e}; listing {} (ino {}, {} blocks of {}); {}", show(&arg), img.nodes[n].ino, img.nodes[n].dir().unwrap().block_types.len(), img.geo.bs, img.describe());
        let it = match fs.read_dir(arg.as_slice()) {
            Ok(i) => i,
            Err(e) => fail!("read_dir:error", "{}", what(format!("read_dir failed {e:?}"))),
        };
        // Name -> expected node.
        let d = img.nodes[n].dir().unwrap();
        let mut want: BTreeMap<&[u8], usize> = d.ents.iter().map(|e| (e.name.as_slice(), e.node)).collect();
        want.insert(b".", n);
        want.insert(b"..", d.parent);
        let total = want.len();
        let mut seen = 0;
        for e in it {
            let e = match e {
                Ok(e) => e,
                Err(e) => fail!("read_dir:entry-error", "{}", what(format!("entry {seen} failed {e:?}"))),
            };
            seen += 1;
            let fname = e.file_name();
            let name: &[u8] = fname.as_ref();
            let Some(m) = want.remove(name) else {
                let dup = name == b"." || name == b".." || d.ents.iter().any(|x| x.name == name);
                if dup {
                    fail!("read_dir:duplicate", "{}", what(format!("entry {} appears twice", show(name))));
                }
                fail!("read_dir:extra", "{}", what(format!("entry {} is not live", show(name))));
            };
            match e.file_type() {
                Ok(t) => ensure!(ftype_code(t) == img.nodes[m].ft(), "read_dir:type", "{}", what(format!("entry {} has type {t:?}, should be {}", show(name), img.nodes[m].ft()))),
                Err(e) => fail!("read_dir:type", "{}", what(format!("entry {}: file_type failed {e:?}", show(name)))),
            }
            let p = e.path();
            let got: &[u8] = p.as_ref();
            ensure!(got == join(&arg, name), "read_dir:path", "{}", what(format!("entry {} has path {}", show(name), show(got))));
            let dbg = format!("{e:?}");
            ensure!(!dbg.is_empty(), "read_dir:debug", "empty debug");
            match e.metadata() {
                Ok(md) => {
                    if let Some(x) = meta_diff(&img, m, &md) {
                        fail!("read_dir:metadata", "{}", what(format!("entry {} (ino {}): {x}", show(name), img.nodes[m].ino)));
                    }
                }
                Err(e) => fail!("read_dir:metadata", "{}", what(format!("entry {}: metadata failed {e:?}", show(name)))),
            }
        }
        if let Some((k, _)) = want.iter().next() {
            fail!("read_dir:missing", "{}", what(format!("{} of {total} entries missing, e.g. {}", want.len(), show(k))));
        }
        ctx.count("entries listed", seen);
    }
    Ok(())
}

/// A name related to `name` but different from it.
pub fn mutate_name(src: &mut Src, name: &[u8]) -> Vec<u8> {
    let mut m = name.to_vec();
    match src.below(8) {
        0 => {
            m.pop();
        }
        1 => m.push(*src.pick(b"x0 \xff")),
        2 => {
            let i = src.below(m.len() as u64) as usize;
            m[i] ^= 0x20;
        }
        3 => {
            let i = src.below(m.len() as u64) as usize;
            m[i] ^= 0x80;
        }
        4 => {
            let i = src.below(m.len() as u64) as usize;
            m[i] = m[i].wrapping_add(1);
        }
        5 => {
            let i = src.below(m.len() as u64) as usize;
            let j = src.below(m.len() as u64) as usize;
            m.swap(i, j);
        }
        6 => {
            m.remove(0);
        }
        _ => {
            let h = m.len() / 2;
            m.truncate(h);
        }
    }
    m.truncate(255);
    m
}

fn c04(src: &mut Src, ctx: &mut Ctx) -> Res {
    let collide = src.chance(1, 8);
    let cfg = Cfg {
        max_nodes: 14,
        bigdir_pct: if collide { 100 } else { 60 },
        bigdir_max: *src.pick(&[60u64, 300, 1200]),
        maps: [4, 3, 1, 0, 1, 1],
        collide_pct: if collide { 100 } else { 0 },
        ..Default::default()
    };
    let mut img = Img::begin(src, &cfg);
    img.gen_tree(src, &cfg);
    let base = src.u32() >> 1;
    for (i, n) in img.nodes.iter_mut().enumerate() {
        n.uid = base.wrapping_add(i as u32);
    }
    img.finish(src, &cfg);
    if ctx.want_sample {
        ctx.sample = img.describe();
    }
    if collide {
        ctx.label("directory with colliding hashes");
    }
    let fs = load_ok(&img)?;
    for n in 0..img.nodes.len() {
        if !img.nodes[n].is_dir() {
            continue;
        }
        dir_labels(&img, n, ctx);
        let d = img.nodes[n].dir().unwrap();
        let base = img.path_of_dir(n);
        let what = |name: &[u8], e: String| {
            let h = if d.htree {
                let (h, m) = crate::hash::dirhash(d.hash_version, img.geo.unsigned_hash(), &img.geo.hash_seed, name);
                format!(" hash {h:#x}/{m:#x}")
            } else {
                String::new()
            };
            format!("{e}; name {}{h} in dir {} (ino {}, {} names, htree {} depth {}); {}", show(name), show(&base), img.nodes[n].ino, d.ents.len(), d.htree, d.depth, img.describe())
        };
        let mut probes: Vec<(Vec<u8>, Option<usize>)> = vec![(b".".to_vec(), Some(n)), (b"..".to_vec(), Some(d.parent))];
        let stride = (d.ents.len() / 250).max(1);
        for (i, e) in d.ents.iter().enumerate() {
            // Colliding names come last; very large directories are
            // sampled otherwise.
            if i % stride == 0 || i + 8 >= d.ents.len() {
                probes.push((e.name.clone(), Some(e.node)));
            }
        }
        let live: std::collections::BTreeSet<&[u8]> = d.ents.iter().map(|e| e.name.as_slice()).collect();
        let mut negs: Vec<Vec<u8>> = d.deleted.iter().take(60).cloned().collect();
        for e in d.ents.iter().take(80) {
            if src.chance(1, 2) {
                negs.push(mutate_name(src, &e.name));
            }
        }
        negs.push(b"no such name".to_vec());
        negs.push(vec![b'q'; 255]);
        for m in negs {
            if m.is_empty() || m == b"." || m == b".." || m.contains(&0) || m.contains(&b'/') || live.contains(m.as_slice()) {
                continue;
            }
            probes.push((m, None));
        }
        src.shuffle(&mut probes[..2]);
        if d.htree && d.ents.len() >= 10 {
            ctx.nontrivial = true;
        }
        for (name, want) in probes {
            let p = join(&base, &name);
            if p.len() > 4096 {
                continue;
            }
            ctx.ops += 1;
            match (fs.symlink_metadata(p.as_slice()), want) {
                (Ok(m), Some(w)) => {
                    if let Some(x) = meta_diff(&img, w, &m) {
                        fail!("lookup:wrong-inode", "{}", what(&name, format!("should be ino {}: {x}", img.nodes[w].ino)));
                    }
                }
                (Ok(m), None) => fail!("lookup:ghost", "{}", what(&name, format!("absent name found: {}", meta_str(&m)))),
                (Err(e), Some(_)) => {
                    if d.htree {
                        fail!(format!("lookup:htree:{}", kind(&e)), "{}", what(&name, format!("live name not found: {e:?}")));
                    }
                    fail!(format!("lookup:{}", kind(&e)), "{}", what(&name, format!("live name not found: {e:?}")));
                }
                (Err(e), None) => ensure!(kind(&e) == "NotFound", format!("lookup-absent:{}", kind(&e)), "{}", what(&name, format!("absent name gave {e:?}"))),
            }
        }
    }
    Ok(())
}

//! Writes generated images to files, for cross-validation with e2fsprogs.

use crate::engine::*;
use crate::img::*;
use std::io::{Seek, SeekFrom, Write};

/// dump-image <seed> <file> [csum 0/1]
pub fn dump(a: &[String]) -> i32 {
    let seed: u64 = a[0].parse().unwrap();
    let mut src = Src::random(case_seed(seed, "dump", 0));
    let cfg = Cfg { huge_pct: 0, small_disk: src.chance(1, 2), max_log_bs: 6, max_nodes: 14, bigdir_pct: 30, big_sparse: false, ..Default::default() };
    let img = Img::gen(&mut src, &cfg);
    println!("{}", img.describe());
    let mut f = std::fs::File::create(&a[1]).unwrap();
    f.set_len(img.disk.size).unwrap();
    let put = |f: &mut std::fs::File, b: u64| {
        f.seek(SeekFrom::Start(b * img.geo.bs)).unwrap();
        f.write_all(&img.disk.block(b)).unwrap();
    };
    for b in img.disk.blocks.keys() {
        put(&mut f, *b);
    }
    for n in &img.nodes {
        for r in &n.runs {
            for i in 0..r.len.min(3000) {
                put(&mut f, r.phys + i);
            }
        }
    }
    for (p, n) in img.paths() {
        let node = &img.nodes[n];
        let h = |d: &[u8]| d.iter().map(|b| format!("{b:02x}")).collect::<String>();
        match &node.kind {
            Kind::Reg if node.size < 4 << 20 => {
                let d = img.file_bytes(n, 0, node.size);
                println!("FILE {} {} {:08x} {}", node.ino, node.size, crate::crc::crc32c(!0, &d), h(&p));
            }
            Kind::Dir(d) => {
                println!("DIR {} {}", node.ino, d.ents.len());
                for e in &d.ents {
                    println!("ENT {} {} {}", node.ino, img.nodes[e.node].ino, h(&e.name));
                }
            }
            Kind::Symlink(t) => println!("LINK {} {}", node.ino, h(t)),
            _ => {}
        }
    }
    0
}

/// dump-journal <seed> <file>: an unclean image; prints the blocks that
/// replay must produce.
pub fn dump_journal(a: &[String]) -> i32 {
    use crate::journal::*;
    let seed: u64 = a[0].parse().unwrap();
    let mut src = Src::random(case_seed(seed, "dumpj", 0));
    let cfg = Cfg { huge_pct: 0, small_disk: false, max_log_bs: 2, max_nodes: 6, bigdir_pct: 10, big_sparse: false, csum: Some(true), ..Default::default() };
    let hc = HistCfg { max_txs: 6, bulk_pct: 6, revokes: true, all: false, min_len: 1024 };
    let mut h = gen_history(&mut src, &cfg, &hc);
    h.jsb.compat = 0;
    println!("{}", h.describe());
    let n = h.txs.len();
    let mut d = h.base(&mut src, n);
    h.write_old_log(&mut src, &mut d);
    h.write_log(&mut d, h.log.len(), &|_| false);
    let mut f = std::fs::File::create(&a[1]).unwrap();
    f.set_len(d.size).unwrap();
    let eff = h.effective(n);
    let keys: std::collections::BTreeSet<u64> = d.blocks.keys().copied().chain(eff.keys().copied()).collect();
    for b in keys {
        f.seek(SeekFrom::Start(b * d.bs)).unwrap();
        f.write_all(&d.block(b)).unwrap();
    }
    let hx = |x: &[u8]| crate::crc::crc32c(!0, x);
    println!("BS {} {}", d.bs, h.log.len());
    for b in eff.keys() {
        println!("EFF {} {:08x} {:08x}", b, hx(&h.states[n].disk.block(*b)), hx(&d.block(*b)));
    }
    for t in &h.txs {
        for r in &t.revokes {
            if !eff.contains_key(r) && d.blocks.contains_key(r) {
                println!("KEEP {} {:08x}", r, hx(&d.block(*r)));
            }
        }
    }
    0
}

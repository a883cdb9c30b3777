//! C21: filesystems written by e2fsprogs, an implementation of the
//! format that shares nothing with the generator of the other checks.

use crate::engine::*;
use crate::ops::kind;
use crate::{ensure, fail};
use ext4_view::{Ext4, FileType};
use std::collections::{BTreeMap, BTreeSet};
use std::ffi::OsStr;
use std::os::unix::ffi::OsStrExt;
use std::os::unix::fs::{FileExt, MetadataExt, PermissionsExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C21",
        run: c21,
        quick: 1200,
        thorough: 30000,
        rule: "case = drawn directory tree written by mke2fs with drawn features, block and inode sizes, then drawn changes by debugfs (punched and preallocated ranges, new and removed objects, device nodes, owners), e2fsck -D (hash trees), tune2fs, resize2fs and, in a third, part of the changes moved to the journal by debugfs; all that the library shows is compared with the drawn tree; non-trivial: the tools made the filesystem and at least 3 objects were compared",
    }]
}

struct Tmp(PathBuf);

impl Tmp {
    fn new() -> Tmp {
        use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
        static N: AtomicU64 = AtomicU64::new(0);
        let dir = std::env::var("HARNESS_SCRATCH").unwrap_or_else(|_| "/tmp".into());
        let p = Path::new(&dir).join(format!("xe-{}-{}", std::process::id(), N.fetch_add(1, Relaxed)));
        let _ = std::fs::remove_dir_all(&p);
        std::fs::create_dir_all(p.join("t")).unwrap_or_else(|e| panic!("harness: {p:?}: {e}"));
        Tmp(p)
    }
    fn at(&self, n: &str) -> PathBuf {
        self.0.join(n)
    }
}

impl Drop for Tmp {
    fn drop(&mut self) {
        // Does not follow symbolic links.
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn tool(t: &Tmp, name: &str, args: &[String], codes: &[i32]) -> Result<String, String> {
    let p = ["/usr/sbin", "/sbin", "/usr/local/sbin", "/usr/bin"].iter().map(|d| format!("{d}/{name}")).find(|p| Path::new(p).exists());
    let Some(p) = p else {
        panic!("harness: {name} is not installed")
    };
    let o = Command::new(p)
        .args(args)
        .current_dir(&t.0)
        .env_clear()
        .env("E2FSPROGS_FAKE_TIME", "1700000000")
        .env("MKE2FS_CONFIG", t.at("conf"))
        .env("E2FSCK_CONFIG", "/dev/null")
        .env("MKE2FS_SYNC", "0")
        .stdin(Stdio::null())
        .output()
        .unwrap_or_else(|e| panic!("harness: {name}: {e}"));
    let text = format!("{}{}", String::from_utf8_lossy(&o.stdout), String::from_utf8_lossy(&o.stderr));
    match o.status.code() {
        Some(c) if codes.contains(&c) => Ok(text),
        c => Err(format!("{name}: {c:?}: {} ({args:?})", text.lines().filter(|l| !l.is_empty() && !l.starts_with("Warning") && !l.starts_with("Creating")).last().unwrap_or(""))),
    }
}

#[derive(Clone, Debug, PartialEq)]
enum K {
    Dir,
    Reg(Vec<u8>),
    Link(Vec<u8>),
    Fifo,
    Chr,
    Blk,
}

#[derive(Clone, Debug)]
struct T {
    k: K,
    mode: u16,
    uid: u32,
    gid: u32,
}

/// By path; the root is "/".
type Tree = BTreeMap<Vec<u8>, T>;

fn join(d: &[u8], n: &[u8]) -> Vec<u8> {
    let mut v = if d == b"/" { vec![] } else { d.to_vec() };
    v.push(b'/');
    v.extend(n);
    v
}

fn show(p: &[u8]) -> String {
    let s: String = p.iter().flat_map(|b| std::ascii::escape_default(*b)).map(|b| b as char).collect();
    if s.len() > 80 {
        format!("{}...({} bytes)", &s[..60], p.len())
    } else {
        s
    }
}

fn gen_name(src: &mut Src) -> Vec<u8> {
    loop {
        let n: Vec<u8> = match src.weighted(&[6, 3, 2, 1]) {
            0 => format!("n{}", src.below(500)).into_bytes(),
            1 => {
                let l = src.size(1, 40) as usize;
                (0..l).map(|_| *src.pick(b"abcdefgh.-_ABC012 \xc3\xa9")).collect()
            }
            2 => {
                let l = src.size(1, 255) as usize;
                src.bytes(l)
            }
            _ => {
                let l = src.range(250, 255) as usize;
                let c = *src.pick(b"xyz\xff\x80");
                vec![c; l]
            }
        };
        let n: Vec<u8> = n.into_iter().map(|b| if b == 0 || b == b'/' { b'_' } else { b }).collect();
        if n != b"." && n != b".." && n != b"lost+found" && !n.is_empty() {
            return n;
        }
    }
}

fn gen_data(src: &mut Src, bs: u64) -> Vec<u8> {
    let r = src.u64();
    let fill = move |i: u64| (crate::rng::mix(r ^ (i / 8)) >> (8 * (i % 8))) as u8;
    let size = match src.weighted(&[2, 4, 4, 2, 1]) {
        0 => 0,
        1 => src.size(1, 200),
        2 => src.size(1, 10 * bs),
        3 => src.range(1, 40) * bs + src.below(3),
        _ => src.size(1, 600_000),
    };
    let mut v: Vec<u8> = (0..size).map(fill).collect();
    // Holes.
    if size > bs && src.chance(1, 2) {
        for _ in 0..src.range(1, 12) {
            let a = src.below(size);
            let n = src.size(1, size) as usize;
            let e = (a as usize + n).min(v.len());
            v[a as usize..e].fill(0);
        }
    }
    v
}

/// Write a file, zero blocks as holes.
fn write_sparse(p: &Path, d: &[u8]) {
    let f = std::fs::File::create(p).unwrap_or_else(|e| panic!("harness: {p:?}: {e}"));
    f.set_len(d.len() as u64).unwrap_or_else(|e| panic!("harness: {e}"));
    for (i, c) in d.chunks(4096).enumerate() {
        if c.iter().any(|b| *b != 0) {
            f.write_all_at(c, i as u64 * 4096).unwrap_or_else(|e| panic!("harness: {e}"));
        }
    }
}

struct Gen {
    tree: Tree,
    bs: u64,
    /// Clusters, which debugfs does not clear when a range is given
    /// back to a file.
    clusters: bool,
    /// There may be files with block maps.
    ind: bool,
    /// Paths of objects with several names.
    multi: BTreeSet<Vec<u8>>,
}

impl Gen {
    fn host(&self, t: &Tmp, p: &[u8]) -> PathBuf {
        let mut h = t.at("t").into_os_string();
        h.push(OsStr::from_bytes(p));
        PathBuf::from(h)
    }

    /// Make the tree on the host, to be copied by mke2fs.
    fn host_tree(&mut self, src: &mut Src, t: &Tmp) {
        let mut dirs: Vec<Vec<u8>> = vec![b"/".to_vec()];
        let n = src.size(2, 30);
        let mut total = 0;
        let mut regs: Vec<Vec<u8>> = vec![];
        for i in 0..n {
            let d = src.pick(&dirs).clone();
            let name = if src.chance(1, 3) { format!("f{i}").into_bytes() } else { gen_name(src) };
            let p = join(&d, &name);
            if p.len() > 2000 || self.tree.contains_key(&p) {
                continue;
            }
            let h = self.host(t, &p);
            match src.weighted(&[6, 3, 3, 1, 1]) {
                0 => {
                    let mut v = gen_data(src, self.bs);
                    total += v.len();
                    if total > 1_500_000 {
                        v.truncate(10);
                    }
                    write_sparse(&h, &v);
                    self.add(src, t, &p, K::Reg(v));
                    regs.push(p);
                }
                1 => {
                    std::fs::create_dir(&h).unwrap_or_else(|e| panic!("harness: {e}"));
                    self.add(src, t, &p, K::Dir);
                    dirs.push(p);
                }
                2 => {
                    let target: Vec<u8> = match src.below(4) {
                        0 => {
                            let l = src.size(1, 200) as usize;
                            src.bytes(l).into_iter().map(|b| if b == 0 { 1 } else { b }).collect()
                        }
                        1 => vec![b'q'; src.range(57, 63) as usize],
                        2 => {
                            // As long as a block allows.
                            let l = src.range(900, 1000) as usize;
                            vec![b'/'; l]
                        }
                        _ => self.tree.keys().nth(src.below(self.tree.len() as u64) as usize).unwrap().clone(),
                    };
                    std::os::unix::fs::symlink(OsStr::from_bytes(&target), &h).unwrap_or_else(|e| panic!("harness: {e}"));
                    self.add(src, t, &p, K::Link(target));
                }
                3 => {
                    let c = std::ffi::CString::new(h.as_os_str().as_bytes()).unwrap();
                    // SAFETY: a valid string.
                    if unsafe { mkfifo(c.as_ptr(), 0o644) } == 0 {
                        self.add(src, t, &p, K::Fifo);
                    }
                }
                _ => {
                    if let Some(o) = regs.last().cloned() {
                        if std::fs::hard_link(self.host(t, &o), &h).is_ok() {
                            let x = self.tree[&o].clone();
                            self.tree.insert(p.clone(), x);
                            self.multi.insert(p);
                            self.multi.insert(o);
                        }
                    }
                }
            }
        }
        // A directory of many entries.
        if src.chance(1, 3) {
            let d = src.pick(&dirs).clone();
            let n = src.size(20, 600);
            let style = src.below(3);
            let r = src.u64();
            let mut prev: Option<Vec<u8>> = None;
            for i in 0..n {
                let name: Vec<u8> = match style {
                    0 => format!("e{i}").into_bytes(),
                    1 => format!("{:016x}-{i}", crate::rng::mix(r ^ i)).into_bytes(),
                    _ => {
                        let l = 1 + crate::rng::mix(r ^ i) % 200;
                        let mut v = vec![b'a' + (i % 26) as u8; l as usize];
                        v.extend(i.to_string().bytes());
                        v
                    }
                };
                let p = join(&d, &name);
                if p.len() > 2000 || self.tree.contains_key(&p) {
                    continue;
                }
                let h = self.host(t, &p);
                match &prev {
                    Some(o) if i % 16 != 0 => {
                        if std::fs::hard_link(self.host(t, o), &h).is_ok() {
                            let x = self.tree[o].clone();
                            self.tree.insert(p.clone(), x);
                            self.multi.insert(p);
                            self.multi.insert(o.clone());
                        }
                    }
                    _ => {
                        write_sparse(&h, name.as_slice());
                        self.tree.insert(p.clone(), stat(&h, K::Reg(name)));
                        prev = Some(p);
                    }
                }
            }
        }
    }

    fn add(&mut self, src: &mut Src, t: &Tmp, p: &[u8], k: K) {
        let h = self.host(t, p);
        if src.chance(1, 3) {
            let id = |src: &mut Src| match src.below(3) {
                0 => src.below(1000) as u32,
                1 => src.range(65530, 70000) as u32,
                _ => src.u32() & 0x7fff_ffff,
            };
            let (u, g) = (id(src), id(src));
            let _ = std::os::unix::fs::lchown(&h, Some(u), Some(g));
        }
        if !matches!(k, K::Link(_)) && src.chance(1, 2) {
            let m = src.below(0o10000) as u32 | if k == K::Dir { 0o700 } else { 0o400 };
            let _ = std::fs::set_permissions(&h, std::fs::Permissions::from_mode(m));
        }
        self.tree.insert(p.to_vec(), stat(&h, k));
    }

    /// Changes by debugfs. Returns its commands.
    fn changes(&mut self, src: &mut Src, t: &Tmp, n: u64, blockwise: bool) -> Vec<String> {
        let mut c = vec![];
        for i in 0..n {
            // Only paths that need no quoting.
            let plain: Vec<Vec<u8>> = self
                .tree
                .keys()
                .filter(|p| p.len() < 100 && p.len() > 1 && p.iter().all(|b| b.is_ascii_alphanumeric() || b"/._-".contains(b)) && !p.ends_with(b"lost+found"))
                .cloned()
                .collect();
            let s = |p: &[u8]| String::from_utf8(p.to_vec()).unwrap();
            let regs: Vec<&Vec<u8>> = plain.iter().filter(|p| matches!(self.tree[*p].k, K::Reg(_)) && self.single(p)).collect();
            let mut dirs: Vec<Vec<u8>> = plain.iter().filter(|p| self.tree[*p].k == K::Dir).cloned().collect();
            dirs.push(b"/".to_vec());
            let fresh = join(src.pick(&dirs), format!("z{i}-{}", src.below(1000)).as_bytes());
            if self.tree.contains_key(&fresh) {
                continue;
            }
            let new = |k, mode| T { k, mode, uid: 0, gid: 0 };
            // Not all commands split paths.
            let i2 = fresh.iter().rposition(|b| *b == b'/').unwrap();
            let base = s(&fresh[i2 + 1..]);
            let cd = format!("cd {}", if i2 == 0 { "/".into() } else { s(&fresh[..i2]) });
            match src.weighted(&[4, 4, 3, 2, 2, 2, 2, 2, 1]) {
                // Holes.
                0 if !regs.is_empty() => {
                    let p = (*src.pick(&regs)).clone();
                    let K::Reg(d) = &mut self.tree.get_mut(&p).unwrap().k else { unreachable!() };
                    let nb = (d.len() as u64).div_ceil(self.bs);
                    if nb == 0 {
                        continue;
                    }
                    let many = src.chance(1, 3);
                    let step = src.range(2, 4);
                    let mut punch = |a: u64, e: u64| {
                        if self.ind {
                            // debugfs leaves out block 12 of a range that
                            // begins before it.
                            c.extend((a..=e).map(|x| format!("punch {} {x} {x}", s(&p))));
                        } else {
                            c.push(format!("punch {} {a} {e}", s(&p)));
                        }
                        let (lo, hi) = ((a * self.bs) as usize, (((e + 1) * self.bs) as usize).min(d.len()));
                        if lo < hi {
                            d[lo..hi].fill(0);
                        }
                    };
                    if many {
                        let mut a = src.below(step);
                        while a < nb.min(120) {
                            punch(a, a);
                            a += step;
                        }
                    } else {
                        let a = src.below(nb);
                        let e = a + src.below(nb - a);
                        punch(a, e);
                    }
                }
                // Unwritten blocks in holes.
                1 if !regs.is_empty() && !self.clusters => {
                    let p = (*src.pick(&regs)).clone();
                    let K::Reg(d) = &self.tree[&p].k else { unreachable!() };
                    let nb = (d.len() as u64).div_ceil(self.bs);
                    if nb == 0 {
                        continue;
                    }
                    let a = src.below(nb);
                    let e = a + src.below((nb - a).min(60));
                    c.push(format!("fallocate {} {a} {e}", s(&p)));
                }
                2 => {
                    let mut d = gen_data(src, self.bs);
                    d.truncate(100_000);
                    let f = format!("w{}", c.len() + 1000 * blockwise as usize);
                    write_sparse(&t.at(&f), &d);
                    c.push(cd);
                    c.push(format!("write {f} {}", base));
                    self.tree.insert(fresh, new(K::Reg(d), 0o644));
                }
                3 => {
                    c.push(cd);
                    c.push(format!("mkdir {}", base));
                    self.tree.insert(fresh, new(K::Dir, 0o755));
                }
                4 => {
                    // The type of an entry made by mknod is right, too.
                    let (w, k) = *src.pick(&[("p", 0), ("c 5 9", 1), ("b 8 17", 2)]);
                    c.push(cd);
                    c.push(format!("mknod {} {w}", base));
                    let k = [K::Fifo, K::Chr, K::Blk][k].clone();
                    self.tree.insert(fresh, new(k, 0));
                }
                5 => {
                    let l = src.size(1, 150) as usize;
                    let target: Vec<u8> = (0..l).map(|_| *src.pick(b"abc/.")).collect();
                    c.push(cd);
                    c.push(format!("symlink {} {}", base, s(&target)));
                    self.tree.insert(fresh, new(K::Link(target), 0o777));
                }
                6 if !regs.is_empty() => {
                    let p = (*src.pick(&regs)).clone();
                    c.push(format!("rm {}", s(&p)));
                    self.tree.remove(&p);
                }
                7 if !regs.is_empty() => {
                    let p = (*src.pick(&regs)).clone();
                    let o = self.tree.get_mut(&p).unwrap();
                    let v = src.u32();
                    match src.below(3) {
                        0 => {
                            c.push(format!("sif {} uid {v}", s(&p)));
                            o.uid = v;
                        }
                        1 => {
                            c.push(format!("sif {} gid {v}", s(&p)));
                            o.gid = v;
                        }
                        _ => {
                            let m = (v & 0o7777) as u16;
                            c.push(format!("sif {} mode 0{:o}", s(&p), 0o100000 | m));
                            o.mode = m;
                        }
                    }
                }
                _ if !regs.is_empty() => {
                    let p = (*src.pick(&regs)).clone();
                    let l = src.size(1, 300) as usize;
                    c.push(format!("ea_set {} user.a{i} {}", s(&p), "v".repeat(l)));
                }
                _ => {}
            }
        }
        c
    }

    /// No other name of the same inode.
    fn single(&self, p: &[u8]) -> bool {
        !self.multi.contains(p)
    }
}

extern "C" {
    fn mkfifo(p: *const std::ffi::c_char, m: u32) -> i32;
}

fn stat(h: &Path, k: K) -> T {
    let m = std::fs::symlink_metadata(h).unwrap_or_else(|e| panic!("harness: {e}"));
    T { k, mode: (m.mode() & 0o7777) as u16, uid: m.uid(), gid: m.gid() }
}

/// An image on disk, read by blocks.
struct Blocks(std::fs::File, u64, u64);

impl Blocks {
    fn open(p: &Path, bs: u64) -> Blocks {
        let f = std::fs::File::open(p).unwrap_or_else(|e| panic!("harness: {e}"));
        let n = f.metadata().unwrap_or_else(|e| panic!("harness: {e}")).len();
        Blocks(f, bs, n / bs)
    }
    fn get(&self, i: u64) -> Vec<u8> {
        let mut v = vec![0; self.1 as usize];
        self.0.read_exact_at(&mut v, i * self.1).unwrap_or_else(|e| panic!("harness: {e}"));
        v
    }
}

fn strs(a: &[&str]) -> Vec<String> {
    a.iter().map(|s| s.to_string()).collect()
}

fn uuid(src: &mut Src) -> String {
    let (a, b) = (src.u64(), src.u64());
    format!("{:08x}-{:04x}-{:04x}-{:04x}-{:012x}", a >> 32, a >> 16 & 0xffff, a & 0xffff, b >> 48, b & 0xffff_ffff_ffff)
}

fn debugfs(t: &Tmp, img: &str, cmds: &[String], rc: &str) -> Result<String, String> {
    std::fs::write(t.at(rc), cmds.join("\n") + "\n").unwrap_or_else(|e| panic!("harness: {e}"));
    tool(t, "debugfs", &strs(&["-w", "-f", rc, img]), &[0])
}

fn c21(src: &mut Src, ctx: &mut Ctx) -> Res {
    let t = Tmp::new();
    let mut desc = vec![];
    let r = make(src, ctx, &t, &mut desc);
    let (tree, label, id, odd) = match r {
        Ok(x) => x,
        Err(e) => {
            ctx.label("refused by the tools");
            if std::env::var("HARNESS_E2").is_ok() {
                eprintln!("{e} {desc:?}");
            }
            return Ok(());
        }
    };
    let d = desc.join("; ");
    if ctx.want_sample {
        ctx.sample = format!("{} objects; {d}", tree.len());
    }
    // What the library does not support.
    let mut w = [0u8; 4];
    let f = std::fs::File::open(t.at("img")).unwrap_or_else(|e| panic!("harness: {e}"));
    f.read_exact_at(&mut w, 1024 + 0x60).unwrap_or_else(|e| panic!("harness: {e}"));
    if odd || u32::from_le_bytes(w) & 0x2d519 != 0 {
        ctx.label("unsupported feature");
        match Ext4::load_from_path(t.at("img")) {
            Err(ext4_view::Ext4Error::Incompatible(_)) => return Ok(()),
            Err(e) => fail!("unsupported", "load gave {}; {d}", kind(&e)),
            Ok(_) => fail!("unsupported", "a filesystem with features {:#x} (or its journal) is accepted; {d}", u32::from_le_bytes(w)),
        }
    }
    let n = compare(&t.at("img"), &tree, &label, &id, src).map_err(|mut f| {
        f.msg = format!("{}; {d}", f.msg);
        f
    })?;
    ctx.ops += n;
    ctx.nontrivial = tree.len() >= 3;
    Ok(())
}

fn make(src: &mut Src, ctx: &mut Ctx, t: &Tmp, desc: &mut Vec<String>) -> Result<(Tree, String, String, bool), String> {
    let bs = 1024u64 << src.weighted(&[4, 3, 3, 1, 1, 0, 1]);
    let hash = *src.pick(&["half_md4", "tea"]);
    std::fs::write(
        t.at("conf"),
        format!("[defaults]\n\tbase_features = sparse_super,large_file,filetype,resize_inode,dir_index,ext_attr\n\tinode_size = 256\n\tinode_ratio = 8192\n\thash_alg = {hash}\n[fs_types]\n\text4 = {{\n\t\tfeatures = has_journal,extent,huge_file,flex_bg,metadata_csum,64bit,dir_nlink,extra_isize\n\t}}\n\tsmall = {{\n\t}}\n\tfloppy = {{\n\t}}\n"),
    )
    .unwrap_or_else(|e| panic!("harness: {e}"));
    let mut g = Gen { tree: Tree::new(), bs, ind: false, clusters: false, multi: BTreeSet::new() };
    g.tree.insert(b"/".to_vec(), stat(&t.at("t"), K::Dir));
    g.host_tree(src, t);
    // Features.
    let mut feat = vec![];
    for (f, n) in [
        ("^extent", 3),
        ("^64bit", 3),
        ("^metadata_csum,uninit_bg", 4),
        ("^metadata_csum,^uninit_bg", 6),
        ("metadata_csum_seed", 4),
        ("^flex_bg", 4),
        ("^dir_index", 8),
        ("^huge_file", 8),
        ("^large_file", 8),
        ("^resize_inode", 4),
        ("^sparse_super,^resize_inode", 8),
        ("sparse_super2", 6),
        ("^ext_attr", 8),
        ("^dir_nlink", 8),
        ("^extra_isize", 8),
        ("project", 8),
        ("quota", 8),
        ("bigalloc", 10),
        ("encrypt", 8),
        ("verity", 8),
        ("orphan_file", 8),
        ("stable_inodes", 12),
        ("casefold", 60),
        ("mmp", 60),
        ("ea_inode", 60),
        ("large_dir", 60),
        ("inline_data", 60),
        ("meta_bg,^resize_inode", 60),
    ] {
        if src.chance(1, n) {
            feat.push(f);
        }
    }
    let journal = src.chance(2, 3);
    let replay = journal && src.chance(2, 3);
    if replay && src.chance(15, 16) {
        // The library needs these for recovery.
        feat.retain(|f| !f.starts_with("^metadata_csum") && !["^64bit", "^extent"].contains(f));
    }
    if !journal {
        feat.push("^has_journal");
        feat.retain(|f| *f != "orphan_file");
    }
    if feat.iter().any(|f| f.starts_with("^metadata_csum")) {
        feat.retain(|f| *f != "metadata_csum_seed");
    }
    if feat.contains(&"^extent") {
        feat.retain(|f| *f != "bigalloc");
        feat.push("^64bit");
    }
    g.clusters = feat.contains(&"bigalloc");
    g.ind = feat.contains(&"^extent");
    let isz = 128u64 << src.weighted(&[2, 5, 1, 1]);
    let label: String = {
        let n = src.below(17);
        (0..n).map(|_| *src.pick(b"abcXYZ -_09") as char).collect()
    };
    let mut id = uuid(src);
    let mut a = strs(&["-q", "-F", "-t", "ext4", "-d", "t", "-b", &bs.to_string(), "-I", &isz.min(bs).to_string(), "-U", &id, "-L", &label]);
    if !feat.is_empty() {
        a.extend(strs(&["-O", &feat.join(",")]));
    }
    let mut ext = format!("hash_seed={}", uuid(src));
    if src.chance(1, 4) {
        ext += ",lazy_itable_init=1";
    }
    if src.chance(1, 6) {
        ext += ",packed_meta_blocks=1";
    }
    a.extend(strs(&["-E", &ext]));
    if src.chance(1, 4) {
        a.extend(strs(&["-g", &(8 * src.range(32, 256)).to_string()]));
    }
    if !feat.contains(&"^flex_bg") && src.chance(1, 4) {
        a.extend(strs(&["-G", &(1u64 << src.below(6)).to_string()]));
    }
    if src.chance(1, 4) {
        a.extend(strs(&["-N", &src.range(700, 3000).to_string()]));
    }
    let used = g.tree.values().map(|x| if let K::Reg(d) = &x.k { d.len() as u64 } else { 0 }).sum::<u64>();
    let mut nb = (used * 3 / 2 + (1 << 20)) / bs + src.range(1200, 3000).min(((24 << 20) / bs).max(400));
    if journal {
        nb += 1024;
        a.extend(strs(&["-J", &format!("size={}", (1024 * bs) >> 20)]));
    }
    a.extend(strs(&["img", &nb.to_string()]));
    desc.push(format!("mke2fs {} (hash {hash})", a[5..].join(" ")));
    tool(t, "mke2fs", &a, &[0])?;
    let lf = T { k: K::Dir, mode: 0o700, uid: 0, gid: 0 };
    g.tree.insert(b"/lost+found".to_vec(), lf);
    for f in &feat {
        ctx.label(&format!("-O {f}"));
    }
    let fsck = |t: &Tmp, a: &[&str]| tool(t, "e2fsck", &strs(a), &[0, 1]);
    if src.chance(1, 2) {
        let n = src.size(1, 25);
        let c = g.changes(src, t, n, false);
        desc.push(format!("debugfs: {}", c.join(", ")));
        let o = debugfs(t, "img", &c, "rc")?;
        if let Some(l) = o.lines().find(|l| !l.starts_with("debugfs") && !l.starts_with("File:") && !l.starts_with("Allocated inode") && !l.is_empty()) {
            return Err(format!("debugfs says {l}"));
        }
        ctx.label("changed by debugfs");
        // Free counts are not all kept by debugfs.
        fsck(t, &["-fy", "img"])?;
    }
    // The tools want a consistent filesystem.
    for i in 0..src.weighted(&[4, 3, 2, 1]) {
        let cmd: (&str, Vec<String>) = match src.below(9) {
            0 | 1 | 2 => ("e2fsck", strs(&["-fyD", "img"])),
            3 => ("e2fsck", strs(&["-fy", "-E", "bmap2extent", "img"])),
            4 => ("resize2fs", strs(&["-f", "img", &(nb + src.size(1, 9000).min(((32 << 20) / bs).max(200))).to_string()])),
            5 => ("resize2fs", strs(&["-f", if src.chance(1, 2) { "-b" } else { "-s" }, "img"])),
            6 => ("tune2fs", strs(&["-f", "-O", *src.pick(&["metadata_csum", "^metadata_csum", "metadata_csum_seed", "extent", "^has_journal", "project", "^flex_bg", "^dir_index", "dir_index"]), "img"])),
            7 => {
                let u = uuid(src);
                let r = ("tune2fs", strs(&["-f", "-U", &u, "img"]));
                if tool(t, r.0, &r.1, &[0]).is_ok() {
                    id = u;
                    desc.push(format!("{} {}", r.0, r.1.join(" ")));
                    ctx.label("UUID changed");
                }
                fsck(t, &["-fy", "img"])?;
                continue;
            }
            _ => ("resize2fs", strs(&["-f", "-M", "img"])),
        };
        std::fs::copy(t.at("img"), t.at("save")).map_err(|e| e.to_string())?;
        let ok = tool(t, cmd.0, &cmd.1, if cmd.0 == "e2fsck" { &[0, 1] } else { &[0] }).and_then(|_| fsck(t, &["-fy", "img"]));
        if let Err(e) = ok {
            if std::env::var("HARNESS_E2").is_ok() {
                eprintln!("step {i}: {e}");
            }
            std::fs::rename(t.at("save"), t.at("img")).map_err(|e| e.to_string())?;
            ctx.label("step refused");
            continue;
        }
        desc.push(format!("{} {}", cmd.0, cmd.1.join(" ")));
        ctx.label(&format!("{} {}", cmd.0, cmd.1.iter().filter(|s| !s.starts_with(|c: char| c.is_ascii_digit())).cloned().collect::<Vec<_>>().join(" ")));
    }
    let odd = replay && journaled(src, ctx, t, &mut g, desc)?;
    Ok((g.tree, label, id, odd))
}

/// Changes that are in the journal only. Returns whether its format is
/// one that the library does not know.
fn journaled(src: &mut Src, ctx: &mut Ctx, t: &Tmp, g: &mut Gen, desc: &mut Vec<String>) -> Result<bool, String> {
    let bs = g.bs;
    let io = |e: std::io::Error| e.to_string();
    std::fs::copy(t.at("img"), t.at("new")).map_err(io)?;
    let before = g.tree.clone();
    let n = src.size(1, 12);
    let c = g.changes(src, t, n, true);
    let undo = |g: &mut Gen| g.tree = before.clone();
    let o = debugfs(t, "new", &c, "rc2")?;
    if o.lines().any(|l| !l.starts_with("debugfs") && !l.starts_with("File:") && !l.starts_with("Allocated inode") && !l.is_empty()) {
        undo(g);
        return Ok(false);
    }
    let (a, b) = (Blocks::open(&t.at("img"), bs), Blocks::open(&t.at("new"), bs));
    let sb = 1024 / bs;
    // The newest contents of the blocks that differ.
    let diff: Vec<u64> = (0..b.2.min(a.2)).filter(|i| *i != sb && a.get(*i) != b.get(*i)).collect();
    if diff.is_empty() || diff.len() > 400 || a.2 != b.2 {
        undo(g);
        return Ok(false);
    }
    let ntx = src.range(1, 5) as usize;
    // Nor escaped blocks.
    let escape = src.chance(1, 30);
    let mut escaped = false;
    // Each block is last written in a drawn transaction, and has other
    // contents before that.
    let mut txs: Vec<BTreeMap<u64, Vec<u8>>> = vec![BTreeMap::new(); ntx];
    for i in &diff {
        let last = src.below(ntx as u64) as usize;
        for x in txs.iter_mut().take(last) {
            if src.chance(1, 3) {
                let k = src.u64();
                let mut v = b.get(*i);
                for (j, y) in v.iter_mut().enumerate() {
                    *y ^= crate::rng::mix(k ^ j as u64) as u8;
                }
                if escape {
                    v[..4].copy_from_slice(&[0xc0, 0x3b, 0x39, 0x98]);
                    escaped = true;
                }
                x.insert(*i, v);
            }
        }
        txs[last].insert(*i, b.get(*i));
    }
    // Blocks that are not to change: written, then revoked.
    let mut revoke: Vec<Vec<u64>> = vec![vec![]; ntx + 1];
    for _ in 0..src.below(6) {
        let i = src.below(b.2);
        if i == sb || diff.contains(&i) {
            continue;
        }
        let x = src.below(ntx as u64) as usize;
        let v: Vec<u8> = b.get(i).iter().map(|y| !y).collect();
        txs[x].insert(i, v);
        let r = src.range(x as u64 + 1, ntx as u64) as usize;
        for y in txs.iter_mut().skip(x + 1) {
            y.remove(&i);
        }
        revoke[r].push(i);
    }
    for r in &mut revoke {
        r.sort_unstable();
        r.dedup();
    }
    let ver = if src.chance(15, 16) { 3 } else { src.below(3) };
    let mut cmds = vec![if ver == 0 { "jo".to_string() } else { format!("jo -c -v {ver}") }];
    let list = |v: &mut dyn Iterator<Item = u64>| v.map(|x| x.to_string()).collect::<Vec<_>>().join(",");
    let mut nrev = 0;
    for i in 0..=ntx {
        if !revoke[i].is_empty() {
            cmds.push(format!("jw -r {} /dev/null", list(&mut revoke[i].iter().copied())));
            nrev += revoke[i].len();
        }
        if i < ntx && !txs[i].is_empty() {
            let f = format!("j{i}");
            let d: Vec<u8> = txs[i].values().flatten().copied().collect();
            std::fs::write(t.at(&f), d).map_err(io)?;
            cmds.push(format!("jw -b {} {f}", list(&mut txs[i].keys().copied())));
        }
    }
    // One more that is not committed.
    if src.chance(1, 3) {
        let i = *src.pick(&diff);
        std::fs::write(t.at("ju"), vec![0x5a; bs as usize]).map_err(io)?;
        cmds.push(format!("jw -c -b {i} ju"));
        ctx.label("uncommitted transaction");
    }
    cmds.push("jc".into());
    std::fs::copy(t.at("img"), t.at("save")).map_err(io)?;
    let r = debugfs(t, "img", &cmds, "rc3").and_then(|o| match o.lines().find(|l| !l.starts_with("debugfs") && !l.starts_with("Journal starts") && !l.starts_with("Setting csum") && !l.is_empty()) {
        Some(l) => Err(l.to_string()),
        None => Ok(()),
    });
    // e2fsprogs has to agree on what the journal holds.
    let r = r.and_then(|()| {
        std::fs::copy(t.at("img"), t.at("rep")).map_err(io)?;
        tool(t, "debugfs", &strs(&["-w", "-R", "jr", "rep"]), &[0])?;
        let c = Blocks::open(&t.at("rep"), bs);
        for i in &diff {
            if c.get(*i) != b.get(*i) {
                return Err(format!("block {i} is not replayed"));
            }
        }
        Ok(())
    });
    if let Err(e) = r {
        if std::env::var("HARNESS_E2").is_ok() {
            eprintln!("journal: {e} {cmds:?}");
        }
        ctx.label("journal refused");
        std::fs::rename(t.at("save"), t.at("img")).map_err(io)?;
        undo(g);
        return Ok(false);
    }
    ctx.label(&format!("changes in the journal, checksum version {ver}"));
    ctx.count("revoked blocks", nrev as u64);
    desc.push(format!("in the journal: {}; {} blocks in {ntx} transactions, version {ver}, {nrev} revoked", c.join(", "), diff.len()));
    // What the library needs.
    let o = tool(t, "dumpe2fs", &strs(&["-h", "img"]), &[0])?;
    let f = o.lines().find(|l| l.starts_with("Journal features:")).unwrap_or("");
    let odd = escaped || !f.contains("journal_64bit") || !f.contains("journal_checksum_v3");
    if odd {
        ctx.label("journal of an unsupported kind");
    }
    Ok(odd)
}

/// All that the library shows against the tree. Returns the number of
/// operations.
fn compare(img: &Path, tree: &Tree, label: &str, id: &str, src: &mut Src) -> Result<u64, Fail> {
    let fs = match Ext4::load_from_path(img) {
        Ok(f) => f,
        Err(e) => fail!("load", "load failed with {}: {e}", kind(&e)),
    };
    ensure!(fs.label().to_str() == Ok(label), "label", "label {:?}, should be {label:?}", fs.label());
    ensure!(fs.uuid().to_string() == id, "uuid", "UUID {}, should be {id}", fs.uuid());
    let mut ops = 0;
    let mut children: BTreeMap<&[u8], Vec<(&[u8], &T)>> = BTreeMap::new();
    for (p, x) in tree {
        if p != b"/" {
            let i = p.iter().rposition(|b| *b == b'/').unwrap();
            children.entry(if i == 0 { b"/" } else { &p[..i] }).or_default().push((&p[i + 1..], x));
        }
    }
    for (p, x) in tree {
        ops += 3;
        let m = match fs.symlink_metadata(&p[..]) {
            Ok(m) => m,
            Err(e) => fail!("metadata", "metadata of {} failed with {}", show(p), kind(&e)),
        };
        let ft = match x.k {
            K::Dir => FileType::Directory,
            K::Reg(_) => FileType::Regular,
            K::Link(_) => FileType::Symlink,
            K::Fifo => FileType::Fifo,
            K::Chr => FileType::CharacterDevice,
            K::Blk => FileType::BlockDevice,
        };
        ensure!(m.file_type() == ft, "type", "{} is {:?}, should be {ft:?}", show(p), m.file_type());
        ensure!(m.mode() & 0o7777 == x.mode && m.uid() == x.uid && m.gid() == x.gid, "meta", "{}: mode {:o} uid {} gid {}, should be {:o} {} {}", show(p), m.mode(), m.uid(), m.gid(), x.mode, x.uid, x.gid);
        match &x.k {
            K::Reg(d) => {
                ensure!(m.len() == d.len() as u64, "size", "{}: size {}, should be {}", show(p), m.len(), d.len());
                match fs.read(&p[..]) {
                    Ok(v) => {
                        if v != *d {
                            let i = v.iter().zip(d).position(|(a, b)| a != b).unwrap_or(v.len().min(d.len()));
                            fail!("content", "{}: {} bytes for {}, differ at {i}", show(p), v.len(), d.len());
                        }
                    }
                    Err(e) => fail!("read", "read of {} failed with {}", show(p), kind(&e)),
                }
            }
            K::Link(l) => {
                ensure!(m.len() == l.len() as u64, "size", "{}: size {}, should be {}", show(p), m.len(), l.len());
                match fs.read_link(&p[..]) {
                    Ok(v) => ensure!(v.as_ref() as &[u8] == &l[..], "target", "{}: target {:?}", show(p), v),
                    Err(e) => fail!("link", "read_link of {} failed with {}", show(p), kind(&e)),
                }
            }
            K::Dir => {
                let mut want: Vec<(Vec<u8>, FileType)> = vec![(b".".to_vec(), FileType::Directory), (b"..".to_vec(), FileType::Directory)];
                for (n, c) in children.get(&p[..]).map(|v| &v[..]).unwrap_or(&[]) {
                    let ft = match c.k {
                        K::Dir => FileType::Directory,
                        K::Reg(_) => FileType::Regular,
                        K::Link(_) => FileType::Symlink,
                        K::Fifo => FileType::Fifo,
                        K::Chr => FileType::CharacterDevice,
                        K::Blk => FileType::BlockDevice,
                    };
                    want.push((n.to_vec(), ft));
                }
                let mut got = vec![];
                let it = match fs.read_dir(&p[..]) {
                    Ok(i) => i,
                    Err(e) => fail!("read_dir", "read_dir of {} failed with {}", show(p), kind(&e)),
                };
                for e in it {
                    match e {
                        Ok(e) => {
                            let name = e.file_name();
                            let n: &[u8] = name.as_ref();
                            let ft = match e.file_type() {
                                Ok(f) => f,
                                Err(x) => fail!("entry", "type of {} in {} failed with {}", show(n), show(p), kind(&x)),
                            };
                            got.push((n.to_vec(), ft));
                            ensure!(got.len() < 5000, "entries", "{} has no end", show(p));
                        }
                        Err(e) => fail!("read_dir", "read_dir of {} failed with {}: {e}", show(p), kind(&e)),
                    }
                }
                let key = |x: &(Vec<u8>, FileType)| x.0.clone();
                want.sort_by_key(key);
                got.sort_by_key(key);
                if want != got {
                    let a = want.iter().find(|x| !got.contains(x)).map(|x| format!("without {} ", show(&x.0))).unwrap_or_default();
                    let b = got.iter().find(|x| !want.contains(x)).map(|x| format!("with {}", show(&x.0))).unwrap_or_default();
                    fail!("entries", "{}: {} entries for {} {a}{b}", show(p), got.len(), want.len());
                }
                // Names that are not there.
                for _ in 0..3 {
                    let q = join(p, &gen_name(src));
                    if tree.contains_key(&q) {
                        continue;
                    }
                    ops += 1;
                    match fs.symlink_metadata(&q[..]) {
                        Ok(_) => fail!("absent", "{} is found", show(&q)),
                        Err(ext4_view::Ext4Error::NotFound) => {}
                        Err(e) => fail!("absent", "{} gave {}: {e}", show(&q), kind(&e)),
                    }
                }
            }
            _ => {}
        }
    }
    Ok(ops)
}

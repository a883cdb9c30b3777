//! C05 path resolution, C07 misuse.

use crate::engine::*;
use crate::img::*;
use crate::ops::*;
use crate::{ensure, fail};
use ext4_view::{Ext4, Ext4Error};
use std::error::Error;
use std::io::{ErrorKind, Read, Seek, SeekFrom};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C05",
            run: c05,
            quick: 1600,
            thorough: 40000,
            rule: "case = generated image rich in directories and symlinks (chains around the limit of 40, loops, dangling, absolute and relative, in-inode and in-block targets); 25 generated paths, every path operation on each compared with a reference resolver; non-trivial: a path resolved through at least one symlink and one '..'",
        },
        Prop {
            id: "C07",
            run: c07,
            quick: 1500,
            thorough: 40000,
            rule: "case = generated image with every kind of object (some encrypted); every operation on every object, malformed and impossible paths, and injected reader errors, each compared with the documented error and its std::io conversion; non-trivial: at least 5 different errors were observed",
        },
    ]
}

fn show(p: &[u8]) -> String {
    let s = p.escape_ascii().to_string();
    if s.len() > 400 {
        format!("{}...{} ({} bytes)", &s[..200], &s[s.len() - 150..], p.len())
    } else {
        s
    }
}

/// A path: a walk over the tree, then decorated.
pub fn gen_path(src: &mut Src, img: &Img) -> Vec<u8> {
    let mut comps: Vec<Vec<u8>> = Vec::new();
    let mut cur = 0usize;
    let steps = src.size(0, 12);
    for _ in 0..steps {
        let Some(d) = img.nodes[cur].dir() else { break };
        match src.weighted(&[10, 1, 2]) {
            0 => {
                if d.ents.is_empty() {
                    break;
                }
                let e = if d.ents.len() > 12 && src.chance(1, 2) {
                    // Late entries hold the special links.
                    &d.ents[d.ents.len() - 1 - src.below(8) as usize]
                } else {
                    src.pick(&d.ents)
                };
                comps.push(e.name.clone());
                cur = e.node;
                if img.nodes[cur].is_link() {
                    let mut p = img.path_of_dir(cur_dir(img, d));
                    p.push(b'/');
                    p.extend_from_slice(&e.name);
                    match resolve(img, &p, true, &mut RInfo::default()) {
                        Ok((n, _)) => cur = n,
                        Err(_) => break,
                    }
                }
            }
            1 => comps.push(b".".to_vec()),
            _ => {
                comps.push(b"..".to_vec());
                cur = d.parent;
            }
        }
    }
    // Decorations of the component list.
    match src.weighted(&[14, 2, 2, 1, 1]) {
        0 => {}
        1 => comps.push(b"no such".to_vec()),
        2 => {
            if !comps.is_empty() {
                let i = src.below(comps.len() as u64) as usize;
                let m = super::dirs::mutate_name(src, &comps[i]);
                comps[i] = m;
            }
        }
        3 => comps.push(vec![b'n'; src.range(250, 260) as usize]),
        _ => {
            let i = src.below(comps.len() as u64 + 1) as usize;
            comps.insert(i, src.pick(&[&b".."[..], b".", b"...", b" "]).to_vec());
        }
    }
    let mut p: Vec<u8> = Vec::new();
    let sep = |src: &mut Src, p: &mut Vec<u8>| {
        let k = match src.below(12) {
            11 => 3,
            9 | 10 => 2,
            _ => 1,
        };
        for _ in 0..k {
            p.push(b'/');
        }
        if src.chance(1, 12) {
            p.extend_from_slice(b"./");
        }
    };
    for c in &comps {
        sep(src, &mut p);
        p.extend_from_slice(c);
    }
    if p.is_empty() || src.chance(1, 5) {
        sep(src, &mut p);
    }
    match src.weighted(&[40, 1, 1, 1]) {
        0 => {}
        1 => {
            // Relative.
            p.remove(0);
        }
        2 => {
            let i = src.below(p.len() as u64) as usize;
            p.insert(i, 0);
        }
        _ => {
            // Near the length limit.
            let want = src.range(4085, 4105) as usize;
            let filler = *src.pick(&[&b"/"[..], b"./", b"../"]);
            let mut q = b"/".to_vec();
            while q.len() + p.len() + filler.len() <= want {
                q.extend_from_slice(filler);
            }
            while q.len() + p.len() < want {
                q.push(b'/');
            }
            q.extend_from_slice(&p);
            p = q;
        }
    }
    p
}

fn cur_dir(img: &Img, d: &DirInfo) -> usize {
    img.nodes.iter().position(|n| n.dir().is_some_and(|x| std::ptr::eq(x, d))).unwrap()
}

/// Add chains of links around the limit, and loops.
fn add_chains(src: &mut Src, img: &mut Img) -> u64 {
    let dirs: Vec<usize> = (0..img.nodes.len()).filter(|n| img.nodes[*n].is_dir() && !img.nodes[*n].encrypted).collect();
    let paths = img.paths();
    let mut made = 0;
    for c in 0..src.weighted(&[3, 2, 1]) {
        let d = *src.pick(&dirs);
        let len = *src.pick(&[40u64, 41, 39, 42, 20, 80]);
        let base = img.path_of_dir(d);
        let abs_of = |name: &str| {
            let mut p = base.clone();
            if p != b"/" {
                p.push(b'/');
            }
            p.extend_from_slice(name.as_bytes());
            p
        };
        let mut prev: Vec<u8> = match src.below(4) {
            0 => src.pick(&paths).0.clone(),
            1 => b".".to_vec(),
            2 => b"..".to_vec(),
            // A loop: the first link points to the last.
            _ => abs_of(&format!("l{c}_{}", len - 1)),
        };
        let mixed = src.below(3);
        for i in 0..len {
            let name = format!("l{c}_{i}");
            if img.lookup(d, name.as_bytes()).is_some() {
                continue;
            }
            if img.used_inos.len() as u64 + 20 > img.geo.ipg as u64 * img.geo.groups as u64 {
                break;
            }
            let n = img.new_node(src, Kind::Symlink(Vec::new()));
            if prev.len() as u64 >= img.geo.bs {
                prev = b"/".to_vec();
            }
            img.set_symlink(src, n, prev.clone());
            img.add_entry(d, name.clone().into_bytes(), n);
            let slash = if mixed == 2 && i % 3 == 2 { "/" } else { "" };
            prev = if mixed == 0 || (mixed == 2 && i % 2 == 0) {
                format!("{name}{slash}").into_bytes()
            } else {
                let mut p = abs_of(&name);
                p.extend_from_slice(slash.as_bytes());
                p
            };
        }
        made += 1;
    }
    made
}

struct Exp<'a> {
    img: &'a Img,
    path: &'a [u8],
    follow: Result<(usize, Vec<u8>), RErr>,
    nofollow: Result<(usize, Vec<u8>), RErr>,
    fi: RInfo,
    ni: RInfo,
}

impl Exp<'_> {
    fn what(&self, e: String) -> String {
        format!("{e}; path {}; {}", show(self.path), self.img.describe())
    }
    /// Check an error against the expectation; true when `got` agrees.
    fn err_ok(&self, want: RErr, info: &RInfo, got: &str) -> bool {
        if got == want.kind() {
            return true;
        }
        if info.maybe_long && got == "PathTooLong" {
            return true;
        }
        if info.enc_dot && got == "Encrypted" {
            return true;
        }
        // Several things wrong at once: any of them may be reported.
        want == RErr::NotAbsolute && self.path.len() > 4096 && got == "PathTooLong"
    }
    /// Compare an outcome: `val` is the expected kind of error of the
    /// operation on the resolved node, or None when it must succeed.
    fn check<T>(&self, op: &str, follow: bool, on_node: impl Fn(usize) -> Option<&'static str>, got: Result<T, Ext4Error>, ok: impl Fn(usize, T) -> Option<String>) -> Res {
        let (want, info) = if follow { (&self.follow, &self.fi) } else { (&self.nofollow, &self.ni) };
        match want {
            Err(w) => match got {
                Ok(_) => fail!(format!("{op}:ok-not-{}", w.kind()), "{}", self.what(format!("{op} succeeded, should fail with {}", w.kind()))),
                Err(e) => ensure!(self.err_ok(*w, info, kind(&e)), format!("{op}:{}-not-{}", kind(&e), w.kind()), "{}", self.what(format!("{op} gave {e:?}, should be {}", w.kind()))),
            },
            Ok((n, _)) => match (on_node(*n), got) {
                (None, Ok(v)) => {
                    if let Some(d) = ok(*n, v) {
                        fail!(format!("{op}:wrong"), "{}", self.what(format!("{op}: {d}")));
                    }
                }
                (Some(k), Ok(_)) => fail!(format!("{op}:ok-not-{k}"), "{}", self.what(format!("{op} succeeded, should fail with {k}"))),
                (k, Err(e)) => {
                    let g = kind(&e);
                    let tolerated = (info.maybe_long && g == "PathTooLong") || (info.enc_dot && g == "Encrypted");
                    match k {
                        Some(k) => ensure!(g == k || tolerated, format!("{op}:{g}-not-{k}"), "{}", self.what(format!("{op} gave {e:?}, should be {k}"))),
                        None => ensure!(tolerated, format!("{op}:{g}"), "{}", self.what(format!("{op} failed with {e:?}, should succeed on ino {}", self.img.nodes[*n].ino))),
                    }
                }
            },
        }
        Ok(())
    }
}

/// Expected error of reading a node as a file.
fn read_err(img: &Img, n: usize) -> Option<&'static str> {
    let node = &img.nodes[n];
    match &node.kind {
        Kind::Reg if node.encrypted => Some("Encrypted"),
        Kind::Reg => None,
        Kind::Dir(_) => Some("IsADirectory"),
        _ => Some("IsASpecialFile"),
    }
}

fn list_err(img: &Img, n: usize) -> Option<&'static str> {
    let node = &img.nodes[n];
    match &node.kind {
        Kind::Dir(_) if node.encrypted => Some("Encrypted"),
        Kind::Dir(_) => None,
        _ => Some("NotADirectory"),
    }
}

fn link_err(img: &Img, n: usize) -> Option<&'static str> {
    let node = &img.nodes[n];
    match &node.kind {
        Kind::Symlink(_) if node.encrypted => Some("Encrypted"),
        Kind::Symlink(_) => None,
        _ => Some("NotASymlink"),
    }
}

/// Every path operation on one path against the model.
pub fn check_path(img: &Img, fs: &Ext4, p: &[u8], ctx: &mut Ctx) -> Res {
    let mut fi = RInfo::default();
    let mut ni = RInfo::default();
    let follow = resolve(img, p, true, &mut fi);
    let nofollow = resolve(img, p, false, &mut ni);
    if fi.links > 0 && fi.dotdots > 0 && follow.is_ok() {
        ctx.nontrivial = true;
    }
    ctx.label(&match &follow {
        Ok(_) if fi.links == 0 => "resolves without links".to_string(),
        Ok(_) if fi.links == 40 => "resolves through 40 links".to_string(),
        Ok(_) if fi.links >= 10 => "resolves through 10 or more links".to_string(),
        Ok(_) => "resolves through links".to_string(),
        Err(e) => format!("fails: {}", e.kind()),
    });
    let x = Exp { img, path: p, follow, nofollow, fi, ni };
    ctx.ops += 9;
    x.check("metadata", true, |_| None, fs.metadata(p), |n, m| meta_diff(img, n, &m))?;
    x.check("symlink_metadata", false, |_| None, fs.symlink_metadata(p), |n, m| meta_diff(img, n, &m))?;
    // A path that names nothing exists as `false`.
    match (&x.follow, fs.exists(p)) {
        (Err(RErr::NotFound), Ok(false)) => {}
        (Err(RErr::NotFound), Ok(true)) => fail!("exists:true", "{}", x.what("exists said true".into())),
        (Ok(_), Ok(b)) => ensure!(b, "exists:false", "{}", x.what("exists said false".into())),
        (_, r) => x.check("exists", true, |_| None, r, |_, b| if b { None } else { Some("false".into()) })?,
    }
    x.check("canonicalize", true, |_| None, fs.canonicalize(p), |_, c| {
        let got: &[u8] = c.as_ref();
        let want = &x.follow.as_ref().unwrap().1;
        (got != want.as_slice()).then(|| format!("got {}, want {}", show(got), show(want)))
    })?;
    if let Ok((n, c)) = &x.follow {
        if c.len() <= 4096 && !x.fi.maybe_long && !x.fi.enc_dot {
            match fs.canonicalize(c.as_slice()) {
                Ok(d) => ensure!(d.as_ref() as &[u8] == c.as_slice(), "canonicalize:fixed-point", "{}", x.what(format!("canonical {} canonicalizes to {}", show(c), show(d.as_ref())))),
                Err(e) => fail!("canonicalize:fixed-point", "{}", x.what(format!("canonical {} fails: {e:?}", show(c)))),
            }
            match fs.symlink_metadata(c.as_slice()) {
                Ok(m) => {
                    if let Some(d) = meta_diff(img, *n, &m) {
                        fail!("canonicalize:other-object", "{}", x.what(format!("canonical {}: {d}", show(c))));
                    }
                }
                Err(e) => fail!("canonicalize:fixed-point", "{}", x.what(format!("canonical {} fails: {e:?}", show(c)))),
            }
        }
    }
    x.check("read_link", false, |n| link_err(img, n), fs.read_link(p), |n, t| {
        let Kind::Symlink(w) = &img.nodes[n].kind else { unreachable!() };
        let got: &[u8] = t.as_ref();
        (got != w.as_slice()).then(|| format!("got {}, want {}", show(got), show(w)))
    })?;
    let big = |n: usize| img.nodes[n].size > 1 << 20;
    let skip = matches!(&x.follow, Ok((n, _)) if img.nodes[*n].is_reg() && big(*n));
    if !skip {
        x.check("read", true, |n| read_err(img, n), fs.read(p), |n, d| {
            let w = img.file_bytes(n, 0, img.nodes[n].size);
            (w != d).then(|| format!("{} bytes differ from the {} of ino {}", d.len(), w.len(), img.nodes[n].ino))
        })?;
        x.check(
            "read_to_string",
            true,
            |n| {
                read_err(img, n).or_else(|| {
                    let w = img.file_bytes(n, 0, img.nodes[n].size);
                    std::str::from_utf8(&w).is_err().then_some("NotUtf8")
                })
            },
            fs.read_to_string(p),
            |n, d| {
                let w = img.file_bytes(n, 0, img.nodes[n].size);
                (w != d.as_bytes()).then(|| "wrong text".to_string())
            },
        )?;
    }
    x.check("open", true, |n| read_err(img, n), fs.open(p), |n, f| meta_diff(img, n, f.metadata()))?;
    x.check("read_dir", true, |n| list_err(img, n), fs.read_dir(p), |n, it| {
        let d = img.nodes[n].dir().unwrap();
        // Which directory is it: its '.' names the inode.
        let mut cnt = 0;
        for e in it.take(40) {
            match e {
                Ok(e) => {
                    cnt += 1;
                    let f = e.file_name();
                    let name: &[u8] = f.as_ref();
                    if img.lookup(n, name).is_none() {
                        return Some(format!("entry {} is not of ino {}", show(name), img.nodes[n].ino));
                    }
                }
                Err(e) => return Some(format!("entry error {e:?}")),
            }
        }
        (cnt != (d.ents.len() + 2).min(40)).then(|| format!("{cnt} entries"))
    })?;
    Ok(())
}

fn tree_cfg(src: &mut Src) -> Cfg {
    Cfg {
        max_nodes: 30,
        kinds: [3, 7, 8, 1],
        bigdir_pct: 3,
        bigdir_max: 40,
        maps: [2, 3, 1, 0, 1, 4],
        encrypt: src.chance(1, 4),
        huge_pct: 0,
        max_log_bs: 2,
        big_sparse: false,
        ..Default::default()
    }
}

/// Mark some files and links reachable from plain directories as
/// encrypted.
pub fn encrypt_some(src: &mut Src, img: &mut Img) {
    for n in 1..img.nodes.len() {
        if (img.nodes[n].is_reg() || img.nodes[n].is_link()) && src.chance(1, 6) {
            img.nodes[n].flags |= FL_ENCRYPT;
            img.nodes[n].encrypted = true;
        }
    }
}

fn c05(src: &mut Src, ctx: &mut Ctx) -> Res {
    let cfg = tree_cfg(src);
    let mut img = Img::begin(src, &cfg);
    img.gen_tree(src, &cfg);
    let chains = add_chains(src, &mut img);
    if cfg.encrypt {
        encrypt_some(src, &mut img);
        img.geo.incompat |= I_ENCRYPT;
    }
    img.finish(src, &cfg);
    ctx.count("link chains", chains);
    let fs = load_ok(&img)?;
    let mut shown = Vec::new();
    for _ in 0..25 {
        let p = gen_path(src, &img);
        if ctx.want_sample && shown.len() < 6 {
            shown.push(show(&p));
        }
        check_path(&img, &fs, &p, ctx)?;
        // The same path with so many separators, dots or missing names
        // after it that replacing a link brings it to the limit.
        let mut info = RInfo::default();
        let _ = resolve(&img, &p, true, &mut info);
        if info.longest > 0 && src.chance(1, 6) {
            let goal = src.range(4093, 4099) as usize;
            let mut q = p.clone();
            let mut need = goal.saturating_sub(info.longest) as i64;
            if src.chance(1, 2) {
                // A long tail first.
                while need > 400 {
                    q.extend_from_slice(b"/");
                    q.extend(std::iter::repeat(b'n').take(200));
                    need -= 201;
                }
            }
            while need > 1 {
                q.extend_from_slice(b"/.");
                need -= 2;
            }
            if need > 0 {
                q.push(b'/');
            }
            if q.len() <= 4096 {
                let mut i = RInfo::default();
                let r = resolve(&img, &q, true, &mut i);
                if i.longest >= 4090 {
                    ctx.label(match r {
                        Err(RErr::TooLong) => "too long after a link",
                        _ => "nearly too long after a link",
                    });
                }
                check_path(&img, &fs, &q, ctx)?;
            }
        }
    }
    // The whole chain, from the far end.
    for (p, n) in img.paths() {
        if img.nodes[n].is_link() && src.chance(1, 8) {
            let mut q = p.clone();
            if src.chance(1, 4) {
                q.push(b'/');
            }
            if src.chance(1, 4) {
                q.extend_from_slice(b"/..");
            }
            if q.len() <= 4096 {
                check_path(&img, &fs, &q, ctx)?;
            }
        }
    }
    if ctx.want_sample {
        ctx.sample = format!("{}; paths {}", img.describe(), shown.join(" "));
    }
    Ok(())
}

fn io_kind(k: &str) -> ErrorKind {
    match k {
        "NotAbsolute" | "NotASymlink" | "IsASpecialFile" | "MalformedPath" => ErrorKind::InvalidInput,
        "NotFound" => ErrorKind::NotFound,
        "IsADirectory" => ErrorKind::IsADirectory,
        "NotADirectory" => ErrorKind::NotADirectory,
        "FileTooLarge" => ErrorKind::FileTooLarge,
        "NotUtf8" => ErrorKind::InvalidData,
        "Encrypted" => ErrorKind::PermissionDenied,
        _ => ErrorKind::Other,
    }
}

/// An error, its text and its conversion.
fn check_err(e: Ext4Error, want: &str, what: &dyn Fn(String) -> String) -> Res {
    let k = kind(&e);
    ensure!(k == want, format!("{k}-not-{want}"), "{}", what(format!("gave {e:?}, should be {want}")));
    ensure!(!e.to_string().is_empty() && !format!("{e:?}").is_empty(), "error-text", "{}", what("empty error text".into()));
    ensure!(e.as_io().is_none(), "as_io", "{}", what("as_io on an error that is not an I/O error".into()));
    let text = e.to_string();
    let io: std::io::Error = e.into();
    ensure!(io.kind() == io_kind(k), format!("io-kind:{k}"), "{}", what(format!("{k} became {:?}", io.kind())));
    if io_kind(k) == ErrorKind::Other {
        ensure!(io.to_string() == text, "io-text", "{}", what(format!("{k} became {io}")));
        let inner = io.get_ref().and_then(|r| r.downcast_ref::<Ext4Error>());
        ensure!(inner.is_some_and(|x| kind(x) == k), "io-inner", "{}", what(format!("{k} is lost in {io:?}")));
    }
    Ok(())
}

fn c07(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut cfg = tree_cfg(src);
    cfg.max_nodes = 16;
    cfg.kinds = [4, 4, 4, 4];
    cfg.encrypt = src.chance(1, 2);
    let mut img = Img::begin(src, &cfg);
    img.gen_tree(src, &cfg);
    if cfg.encrypt {
        encrypt_some(src, &mut img);
        img.geo.incompat |= I_ENCRYPT;
    }
    img.finish(src, &cfg);
    if ctx.want_sample {
        ctx.sample = img.describe();
    }
    let tap = Tap::new(img.disk.clone());
    let fs = match load_tap(&tap) {
        Ok(f) => f,
        Err(e) => fail!(format!("load-valid:{}", kind(&e)), "valid image does not load: {e:?}; {}", img.describe()),
    };
    let mut kinds = std::collections::BTreeSet::new();
    let mut paths = img.paths();
    src.shuffle(&mut paths);
    // The plain misuse matrix: object kind x operation.
    let mut good: Vec<Vec<u8>> = Vec::new();
    for (p, n) in paths.iter().take(24) {
        let mut info = RInfo::default();
        let Ok((t, _)) = resolve(&img, p, true, &mut info) else {
            check_path(&img, &fs, p, ctx)?;
            continue;
        };
        let what = |op: &'static str| {
            let img = &img;
            move |e: String| format!("{op}: {e}; {} (ino {}); {}", show(p), img.nodes[t].ino, img.describe())
        };
        if info.maybe_long {
            continue;
        }
        good.push(p.clone());
        let want = [
            ("read", read_err(&img, t)),
            ("open", read_err(&img, t)),
            ("read_to_string", read_err(&img, t)),
            ("read_dir", list_err(&img, t)),
            ("read_link", link_err(&img, *n)),
        ];
        for (op, w) in want {
            let Some(w) = w else { continue };
            ctx.ops += 1;
            kinds.insert(w);
            let e = match op {
                "read" => fs.read(p.as_slice()).err(),
                "open" => fs.open(p.as_slice()).err(),
                "read_to_string" => fs.read_to_string(p.as_slice()).err(),
                "read_dir" => fs.read_dir(p.as_slice()).err(),
                _ => fs.read_link(p.as_slice()).err(),
            };
            let Some(e) = e else { fail!(format!("{op}:ok-not-{w}"), "{}", what(op)(format!("succeeded, should be {w}"))) };
            ctx.label(&format!("{op} {w}"));
            check_err(e, w, &what(op))?;
        }
        // Text that is not text.
        let node = &img.nodes[t];
        if node.is_reg() && !node.encrypted && node.size < 1 << 20 {
            let b = img.file_bytes(t, 0, node.size);
            if std::str::from_utf8(&b).is_err() {
                match fs.read_to_string(p.as_slice()) {
                    Ok(_) => fail!("read_to_string:ok-not-NotUtf8", "{}", what("read_to_string")("succeeded on bytes that are not UTF-8".into())),
                    Err(e) => {
                        kinds.insert("NotUtf8");
                        check_err(e, "NotUtf8", &what("read_to_string"))?;
                    }
                }
            }
        }
    }
    // Paths no operation can accept.
    for _ in 0..8 {
        let base = src.pick(&paths).0.clone();
        let (p, w): (Vec<u8>, &'static str) = match src.below(6) {
            0 => {
                let mut p = base;
                let i = src.below(p.len() as u64 + 1) as usize;
                p.insert(i, 0);
                (p, "MalformedPath")
            }
            1 => {
                let mut p = base;
                p.push(b'/');
                p.extend(vec![b'c'; src.range(256, 300) as usize]);
                if src.chance(1, 2) {
                    p.extend_from_slice(b"/x");
                }
                (p, "MalformedPath")
            }
            2 => (base[1..].to_vec(), "NotAbsolute"),
            3 => {
                let mut p = base;
                while p.len() <= 4096 {
                    p.extend_from_slice(b"/.");
                }
                (p, "PathTooLong")
            }
            4 => (Vec::new(), "NotAbsolute"),
            _ => (b"/no such name".to_vec(), "NotFound"),
        };
        if w == "NotFound" && img.lookup(0, b"no such name").is_some() {
            continue;
        }
        kinds.insert(w);
        ctx.label(&format!("path {w}"));
        let q = p.as_slice();
        let what = |e: String| format!("{e}; path {}; {}", show(&p), img.describe());
        let errs: Vec<(&str, Option<Ext4Error>)> = vec![
            ("metadata", fs.metadata(q).err()),
            ("symlink_metadata", fs.symlink_metadata(q).err()),
            ("read", fs.read(q).err()),
            ("read_to_string", fs.read_to_string(q).err()),
            ("read_dir", fs.read_dir(q).err()),
            ("read_link", fs.read_link(q).err()),
            ("canonicalize", fs.canonicalize(q).err()),
            ("open", fs.open(q).err()),
        ];
        for (op, e) in errs {
            ctx.ops += 1;
            let Some(e) = e else { fail!(format!("{op}:ok-not-{w}"), "{}", what(format!("{op} succeeded, should be {w}"))) };
            check_err(e, w, &|e| what(format!("{op} {e}")))?;
        }
        match (fs.exists(q), w) {
            (Ok(false), "NotFound") => {}
            (Ok(b), _) => fail!("exists:ok", "{}", what(format!("exists said {b}, should be {w}"))),
            (Err(e), _) => check_err(e, w, &|e| what(format!("exists {e}")))?,
        }
    }
    // Everything else through the model.
    for _ in 0..12 {
        let p = gen_path(src, &img);
        check_path(&img, &fs, &p, ctx)?;
    }
    // Reader errors pass through unchanged.
    for _ in 0..6 {
        if good.is_empty() {
            break;
        }
        let p = src.pick(&good).clone();
        let at = src.size(0, 12);
        {
            let mut t = tap.borrow_mut();
            t.fail_idx = 0;
            t.fail_at = Some(Box::new(move |i| i >= at));
        }
        let op = src.below(10);
        let e: Option<Ext4Error> = match op {
            0 => load_tap(&tap).err(),
            1 => fs.metadata(p.as_slice()).err(),
            2 => fs.symlink_metadata(p.as_slice()).err(),
            3 => fs.canonicalize(p.as_slice()).err(),
            4 => fs.exists(p.as_slice()).err(),
            5 => fs.read_link(p.as_slice()).err(),
            6 => match resolve(&img, &p, true, &mut RInfo::default()) {
                Ok((n, _)) if img.nodes[n].size < 1 << 20 => fs.read(p.as_slice()).err(),
                _ => None,
            },
            7 => fs.open(p.as_slice()).err(),
            8 => listing(&fs, &p, 100_000).map_or_else(Some, |x| x.1),
            _ => {
                // The std interface of an open file.
                tap.borrow_mut().fail_at = None;
                let f = fs.open(p.as_slice());
                let mut t = tap.borrow_mut();
                t.fail_idx = 0;
                t.fail_at = Some(Box::new(move |i| i >= at));
                drop(t);
                if let Ok(mut f) = f {
                    let mut buf = vec![0u8; 512];
                    let sz = f.metadata().len();
                    let _ = f.seek(SeekFrom::Start(src.below(sz.min(1 << 22) + 1)));
                    if let Err(io) = f.read(&mut buf) {
                        ctx.label("injected error through std Read");
                        let tok = tap.borrow().fail_token;
                        let inner = io.get_ref().and_then(|r| r.downcast_ref::<InjErr>());
                        ensure!(inner == Some(&InjErr(tok)), "inject:io", "std read gave {io:?} instead of the reader's error; {}", img.describe());
                    }
                }
                None
            }
        };
        let (failed, tok) = {
            let t = tap.borrow();
            (t.failed, t.fail_token)
        };
        if let Some(e) = e {
            if kind(&e) == "Io" {
                ctx.label("injected error");
                kinds.insert("Io");
                let inner = e.as_io().and_then(|r| r.downcast_ref::<InjErr>());
                ensure!(inner == Some(&InjErr(tok)), "inject:as_io", "op {op}: {e:?} is not the reader's error; {}", img.describe());
                ensure!(e.source().is_none() || !e.to_string().is_empty(), "inject:text", "no text");
                ensure!(e.to_string().contains("injected failure"), "inject:text", "text {e} hides the reader's error");
                let io: std::io::Error = e.into();
                let inner = io.get_ref().and_then(|r| r.downcast_ref::<InjErr>());
                ensure!(inner == Some(&InjErr(tok)), "inject:io", "op {op}: {io:?} is not the reader's error; {}", img.describe());
            } else {
                ensure!(failed == 0 || tap.borrow().fail_idx <= at, "inject:other", "op {op} on {}: reader failed but the error is {e:?}; {}", show(&p), img.describe());
            }
        }
        let mut t = tap.borrow_mut();
        t.fail_at = None;
        t.failed = 0;
        t.fail_idx = 0;
    }
    ctx.nontrivial = kinds.len() >= 5;
    Ok(())
}

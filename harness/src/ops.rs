//! Driving the library: readers, operations, observations, and the
//! reference path resolver.

use crate::disk::Disk;
use crate::engine::{Fail, Src};
use crate::img::{Img, Kind};
use crate::rng::hash_bytes;
use ext4_view::{Ext4, Ext4Error, Ext4Read, FileType, Metadata, Path};
use std::cell::RefCell;
use std::collections::VecDeque;
use std::error::Error;
use std::fmt;
use std::rc::Rc;

#[derive(Debug, Clone, PartialEq)]
pub struct InjErr(pub u64);
impl fmt::Display for InjErr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "injected failure {}", self.0)
    }
}
impl Error for InjErr {}

#[derive(Debug)]
pub struct OobErr(pub u64, pub usize);
impl fmt::Display for OobErr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "read of {} bytes at {} is out of bounds", self.1, self.0)
    }
}
impl Error for OobErr {}

/// Shared reader state.
pub struct Tap {
    pub disk: Disk,
    pub log: Vec<(u64, usize)>,
    pub logging: bool,
    pub nreads: u64,
    pub nbytes: u64,
    pub oob: Vec<(u64, usize)>,
    /// Fail the reads for which this returns true (argument: index of
    /// the read since the plan was installed).
    pub fail_at: Option<Box<dyn FnMut(u64) -> bool>>,
    pub fail_idx: u64,
    pub fail_partial: bool,
    pub fail_token: u64,
    pub failed: u64,
}

impl Tap {
    pub fn new(disk: Disk) -> Rc<RefCell<Tap>> {
        Rc::new(RefCell::new(Tap {
            disk,
            log: Vec::new(),
            logging: false,
            nreads: 0,
            nbytes: 0,
            oob: Vec::new(),
            fail_at: None,
            fail_idx: 0,
            fail_partial: false,
            fail_token: 0,
            failed: 0,
        }))
    }
}

pub struct TapReader(pub Rc<RefCell<Tap>>);

impl Ext4Read for TapReader {
    fn read(&mut self, start: u64, dst: &mut [u8]) -> Result<(), Box<dyn Error + Send + Sync>> {
        let mut t = self.0.borrow_mut();
        t.nreads += 1;
        t.nbytes += dst.len() as u64;
        if t.logging {
            t.log.push((start, dst.len()));
        }
        let idx = t.fail_idx;
        t.fail_idx += 1;
        let fail = match &mut t.fail_at {
            Some(f) => f(idx),
            None => false,
        };
        if fail {
            t.failed += 1;
            t.fail_token += 1;
            if t.fail_partial {
                // Scribble over part of the buffer first.
                let n = dst.len() * 3 / 4;
                for (i, b) in dst[..n].iter_mut().enumerate() {
                    *b = (i as u8).wrapping_mul(31) ^ 0xa5;
                }
            }
            return Err(Box::new(InjErr(t.fail_token)));
        }
        match start.checked_add(dst.len() as u64) {
            Some(e) if e <= t.disk.size => {
                t.disk.read_at(start, dst);
                Ok(())
            }
            _ => {
                t.oob.push((start, dst.len()));
                Err(Box::new(OobErr(start, dst.len())))
            }
        }
    }
}

pub fn load_tap(tap: &Rc<RefCell<Tap>>) -> Result<Ext4, Ext4Error> {
    dump_if_asked(&tap.borrow().disk);
    Ext4::load(Box::new(TapReader(tap.clone())))
}

/// With HARNESS_DUMP=prefix, every image that is loaded is written to
/// prefix.N (see `Disk::export`).
fn dump_if_asked(disk: &Disk) {
    use std::sync::atomic::{AtomicUsize, Ordering};
    static N: AtomicUsize = AtomicUsize::new(0);
    static WHERE: std::sync::OnceLock<Option<String>> = std::sync::OnceLock::new();
    if let Some(p) = WHERE.get_or_init(|| std::env::var("HARNESS_DUMP").ok()) {
        let n = N.fetch_add(1, Ordering::Relaxed);
        if n < 200 {
            let _ = std::fs::write(format!("{p}.{n}"), disk.export(8 << 20));
        }
    }
}

pub fn load(disk: &Disk) -> Result<Ext4, Ext4Error> {
    load_tap(&Tap::new(disk.clone()))
}

/// Load an image that is valid: failing is a violation.
pub fn load_ok(img: &Img) -> Result<Ext4, Fail> {
    load(img.media()).map_err(|e| {
        Fail::new(
            format!("load-valid:{}", kind(&e)),
            format!("valid image does not load: {e:?}; {}", img.describe()),
        )
    })
}

pub fn kind(e: &Ext4Error) -> &'static str {
    match e {
        Ext4Error::NotAbsolute => "NotAbsolute",
        Ext4Error::NotASymlink => "NotASymlink",
        Ext4Error::NotFound => "NotFound",
        Ext4Error::IsADirectory => "IsADirectory",
        Ext4Error::NotADirectory => "NotADirectory",
        Ext4Error::IsASpecialFile => "IsASpecialFile",
        Ext4Error::FileTooLarge => "FileTooLarge",
        Ext4Error::NotUtf8 => "NotUtf8",
        Ext4Error::MalformedPath => "MalformedPath",
        Ext4Error::PathTooLong => "PathTooLong",
        Ext4Error::TooManySymlinks => "TooManySymlinks",
        Ext4Error::Encrypted => "Encrypted",
        Ext4Error::Io(_) => "Io",
        Ext4Error::Incompatible(_) => "Incompatible",
        Ext4Error::Corrupt(_) => "Corrupt",
        _ => "Other",
    }
}

pub fn ftype_code(t: FileType) -> u8 {
    match t {
        FileType::Regular => 1,
        FileType::Directory => 2,
        FileType::CharacterDevice => 3,
        FileType::BlockDevice => 4,
        FileType::Fifo => 5,
        FileType::Socket => 6,
        FileType::Symlink => 7,
    }
}

/// Compare metadata against a model node.
pub fn meta_diff(img: &Img, n: usize, m: &Metadata) -> Option<String> {
    let node = &img.nodes[n];
    let want = (
        node.ft(),
        node.perm,
        node.uid,
        node.gid,
        node.size,
        node.is_dir(),
        node.is_link(),
    );
    let got = (
        ftype_code(m.file_type()),
        m.mode(),
        m.uid(),
        m.gid(),
        m.len(),
        m.is_dir(),
        m.is_symlink(),
    );
    if want == got {
        // The type predicates partition the types.
        let t = m.file_type();
        let preds = [
            t.is_regular_file(),
            t.is_dir(),
            t.is_char_dev(),
            t.is_block_dev(),
            t.is_fifo(),
            t.is_socket(),
            t.is_symlink(),
        ];
        if preds.iter().filter(|x| **x).count() != 1 || !preds[node.ft() as usize - 1] {
            return Some(format!("file type predicates of {t:?}: {preds:?}"));
        }
        None
    } else {
        Some(format!("(type,mode,uid,gid,len,is_dir,is_symlink) want {want:?} got {got:?}"))
    }
}

// -------------------------------------------------------------------
// Reference path resolution
// -------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum RErr {
    NotAbsolute,
    Malformed,
    TooLong,
    NotFound,
    NotDir,
    TooManyLinks,
    Encrypted,
}

impl RErr {
    pub fn kind(self) -> &'static str {
        match self {
            RErr::NotAbsolute => "NotAbsolute",
            RErr::Malformed => "MalformedPath",
            RErr::TooLong => "PathTooLong",
            RErr::NotFound => "NotFound",
            RErr::NotDir => "NotADirectory",
            RErr::TooManyLinks => "TooManySymlinks",
            RErr::Encrypted => "Encrypted",
        }
    }
}

#[derive(Clone, Debug, Default)]
pub struct RInfo {
    /// Path text may have exceeded the documented limit on the way.
    pub maybe_long: bool,
    /// Touched '.' or '..' inside an encrypted directory, for which
    /// the behaviour is not specified.
    pub enc_dot: bool,
    /// The longest the path got when a link was replaced.
    pub longest: usize,
    pub links: u32,
    pub dotdots: u32,
}

/// A valid path in the library's sense.
pub fn path_valid(p: &[u8]) -> bool {
    !p.contains(&0) && p.split(|b| *b == b'/').all(|c| c.len() <= 255)
}

/// Returns (node, canonical path).
pub fn resolve(img: &Img, path: &[u8], follow_last: bool, info: &mut RInfo) -> Result<(usize, Vec<u8>), RErr> {
    if !path_valid(path) {
        return Err(RErr::Malformed);
    }
    if path.first() != Some(&b'/') {
        return Err(RErr::NotAbsolute);
    }
    if path.len() > 4096 {
        return Err(RErr::TooLong);
    }
    fn comps(p: &[u8]) -> Vec<Vec<u8>> {
        p.split(|b| *b == b'/').filter(|c| !c.is_empty()).map(|c| c.to_vec()).collect()
    }
    let mut rest: VecDeque<Vec<u8>> = comps(path).into();
    let mut trailing = path.last() == Some(&b'/');
    let mut stack: Vec<(Vec<u8>, usize)> = Vec::new();
    let mut cur = 0usize;
    let mut links = 0;
    while let Some(c) = rest.pop_front() {
        let Some(d) = img.nodes[cur].dir() else {
            return Err(RErr::NotDir);
        };
        if img.nodes[cur].encrypted {
            if c == b"." || c == b".." {
                info.enc_dot = true;
            } else {
                return Err(RErr::Encrypted);
            }
        }
        if c == b"." {
            continue;
        }
        if c == b".." {
            info.dotdots += 1;
            cur = d.parent;
            stack.pop();
            continue;
        }
        let Some(e) = d.ents.iter().find(|e| e.name == c) else {
            return Err(RErr::NotFound);
        };
        let child = e.node;
        let last = rest.is_empty();
        if let Kind::Symlink(t) = &img.nodes[child].kind {
            if last && !follow_last {
                // Documented here (and asserted by the project's tests):
                // a trailing separator does not make the link followed.
                if trailing {
                    return Err(RErr::NotDir);
                }
                stack.push((c, child));
                return Ok((child, canon(&stack)));
            }
            if img.nodes[child].encrypted && links < 40 {
                // The target of an encrypted link is not readable.
                return Err(RErr::Encrypted);
            }
            links += 1;
            info.links = links;
            if links > 40 {
                return Err(RErr::TooManyLinks);
            }
            // Length of the path with the link's target in place of the
            // link, before and after superfluous separators are removed.
            let pre: usize = match t[0] {
                b'/' => 0,
                _ if stack.is_empty() => 1,
                _ => canon(&stack).len() + 1,
            };
            let post: usize = rest.iter().map(|x| x.len() + 1).sum::<usize>() + usize::from(trailing);
            let raw = pre + t.len() + post;
            let extra = t.windows(2).filter(|w| w == b"//").count() + usize::from(t.last() == Some(&b'/') && post > 0);
            info.longest = info.longest.max(raw);
            if raw - extra > 4096 {
                return Err(RErr::TooLong);
            }
            if raw > 4096 {
                info.maybe_long = true;
            }
            let tc = comps(t);
            if last {
                trailing = trailing || t.last() == Some(&b'/');
            }
            for x in tc.into_iter().rev() {
                rest.push_front(x);
            }
            if t[0] == b'/' {
                stack.clear();
                cur = 0;
            }
            continue;
        }
        stack.push((c, child));
        cur = child;
    }
    if trailing && !img.nodes[cur].is_dir() {
        return Err(RErr::NotDir);
    }
    Ok((cur, canon(&stack)))
}

fn canon(stack: &[(Vec<u8>, usize)]) -> Vec<u8> {
    if stack.is_empty() {
        return b"/".to_vec();
    }
    let mut v = Vec::new();
    for (n, _) in stack {
        v.push(b'/');
        v.extend_from_slice(n);
    }
    v
}

// -------------------------------------------------------------------
// Operations and observations
// -------------------------------------------------------------------

#[derive(Clone, Debug)]
pub enum Op {
    Exists(Vec<u8>),
    Meta(Vec<u8>),
    SymMeta(Vec<u8>),
    ReadLink(Vec<u8>),
    Canon(Vec<u8>),
    Read(Vec<u8>),
    ReadStr(Vec<u8>),
    ReadDir(Vec<u8>),
    /// Open, then seek/read pairs (offset, length).
    OpenRead(Vec<u8>, Vec<(u64, u64)>),
}

impl Op {
    pub fn path(&self) -> &[u8] {
        match self {
            Op::Exists(p) | Op::Meta(p) | Op::SymMeta(p) | Op::ReadLink(p) | Op::Canon(p)
            | Op::Read(p) | Op::ReadStr(p) | Op::ReadDir(p) => p,
            Op::OpenRead(p, _) => p,
        }
    }
    pub fn name(&self) -> &'static str {
        match self {
            Op::Exists(_) => "exists",
            Op::Meta(_) => "metadata",
            Op::SymMeta(_) => "symlink_metadata",
            Op::ReadLink(_) => "read_link",
            Op::Canon(_) => "canonicalize",
            Op::Read(_) => "read",
            Op::ReadStr(_) => "read_to_string",
            Op::ReadDir(_) => "read_dir",
            Op::OpenRead(..) => "open",
        }
    }
}

/// Canonical observation of an operation.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Obs {
    Ok(String),
    Err(&'static str, String),
}

impl Obs {
    pub fn is_err(&self) -> bool {
        matches!(self, Obs::Err(..))
    }
    pub fn kind(&self) -> &str {
        match self {
            Obs::Ok(_) => "ok",
            Obs::Err(k, _) => k,
        }
    }
}

pub fn blob(d: &[u8]) -> String {
    format!("{} bytes {:016x}", d.len(), hash_bytes(9, d))
}

pub fn meta_str(m: &Metadata) -> String {
    format!("{:?} {:o} {}:{} {}", m.file_type(), m.mode(), m.uid(), m.gid(), m.len())
}

fn err(e: Ext4Error) -> Obs {
    // Debug text of an I/O error depends on the injected token only.
    let k = kind(&e);
    let s = if k == "Io" { String::new() } else { format!("{e:?}") };
    Obs::Err(k, s)
}

pub fn listing(fs: &Ext4, p: &[u8], cap: usize) -> Result<(Vec<String>, Option<Ext4Error>), Ext4Error> {
    let mut out = Vec::new();
    let it = fs.read_dir(p)?;
    for e in it {
        match e {
            Ok(e) => {
                let m = match e.metadata() {
                    Ok(m) => meta_str(&m),
                    Err(Ext4Error::Io(x)) => return Ok((out, Some(Ext4Error::Io(x)))),
                    Err(e) => format!("meta error {e:?}"),
                };
                out.push(format!(
                    "{:?} {:?} {:?} {}",
                    e.file_name().as_ref(),
                    e.path().as_ref() as &[u8],
                    e.file_type().map(ftype_code).unwrap_or(99),
                    m
                ));
            }
            Err(e) => return Ok((out, Some(e))),
        }
        if out.len() > cap {
            break;
        }
    }
    Ok((out, None))
}

/// Largest whole-file read performed by `exec` (larger ones are skipped
/// by reading the metadata first).
pub const READ_CAP: u64 = 96 << 20;

pub fn exec(fs: &Ext4, op: &Op) -> Obs {
    match exec_raw(fs, op) {
        Ok(s) => Obs::Ok(s),
        Err(e) => err(e),
    }
}

/// As `exec`, but keeps the error value.
pub fn exec_raw(fs: &Ext4, op: &Op) -> Result<String, Ext4Error> {
    crate::engine::tick();
    Ok(match op {
        Op::Exists(p) => {
            let b = fs.exists(p.as_slice())?;
            format!("{b}")
        },
        Op::Meta(p) => {
            let m = fs.metadata(p.as_slice())?;
            meta_str(&m)
        },
        Op::SymMeta(p) => {
            let m = fs.symlink_metadata(p.as_slice())?;
            meta_str(&m)
        },
        Op::ReadLink(p) => {
            let t = fs.read_link(p.as_slice())?;
            format!("{:?}", t.as_ref() as &[u8])
        },
        Op::Canon(p) => {
            let t = fs.canonicalize(p.as_slice())?;
            format!("{:?}", t.as_ref() as &[u8])
        },
        Op::Read(p) => {
            match fs.metadata(p.as_slice()) {
                Ok(m) if m.len() > READ_CAP && m.file_type().is_regular_file() => {
                    return Ok(format!("large file {}", m.len()))
                }
                Err(Ext4Error::Io(e)) => return Err(Ext4Error::Io(e)),
                _ => {}
            }
            {
            let d = fs.read(p.as_slice())?;
            blob(&d)
        }
        }
        Op::ReadStr(p) => {
            match fs.metadata(p.as_slice()) {
                Ok(m) if m.len() > READ_CAP && m.file_type().is_regular_file() => {
                    return Ok(format!("large file {}", m.len()))
                }
                Err(Ext4Error::Io(e)) => return Err(Ext4Error::Io(e)),
                _ => {}
            }
            {
            let d = fs.read_to_string(p.as_slice())?;
            blob(d.as_bytes())
        }
        }
        Op::ReadDir(p) => match listing(fs, p, 1 << 20)? {
            (l, None) => format!("{} entries {:016x}", l.len(), hash_bytes(3, l.join("\n").as_bytes())),
            (_, Some(e)) => return Err(e),
        },
        Op::OpenRead(p, plan) => {
            let mut f = fs.open(p.as_slice())?;
            let mut s = format!("{};", meta_str(f.metadata()));
            for (off, len) in plan {
                f.seek_to(*off)?;
                let mut buf = vec![0xeeu8; *len as usize];
                let mut at = 0;
                loop {
                    match f.read_bytes(&mut buf[at..]) {
                        Ok(0) => break,
                        Ok(n) => at += n,
                        Err(e) => return Err(e),
                    }
                }
                s += &format!("{}@{} pos {};", blob(&buf[..at]), off, f.position());
            }
            s
        }
    })
}

/// Draw an operation for a path.
pub fn gen_op(src: &mut Src, p: Vec<u8>) -> Op {
    match src.below(9) {
        0 => Op::Read(p),
        1 => Op::ReadDir(p),
        2 => Op::Meta(p),
        3 => Op::SymMeta(p),
        4 => Op::ReadLink(p),
        5 => Op::Canon(p),
        6 => Op::Exists(p),
        7 => Op::ReadStr(p),
        _ => {
            let k = src.range(1, 4);
            let plan = (0..k).map(|_| (src.size(0, 200_000), src.size(0, 20_000))).collect();
            Op::OpenRead(p, plan)
        }
    }
}

/// The paths of the image; of directories where each lookup is costly,
/// only some of the entries.
pub fn sampled_paths(img: &Img) -> Vec<(Vec<u8>, usize)> {
    let mut seen: std::collections::BTreeMap<Vec<u8>, (u64, u64)> = Default::default();
    let all = img.paths();
    let dirs: std::collections::BTreeMap<Vec<u8>, usize> =
        all.iter().filter(|(_, n)| img.nodes[*n].is_dir()).cloned().collect();
    let mut out = Vec::new();
    for (p, n) in all {
        let i = p.iter().rposition(|c| *c == b'/').unwrap();
        let parent = if i == 0 { b"/".to_vec() } else { p[..i].to_vec() };
        let (k, stride) = seen.entry(parent.clone()).or_insert_with(|| {
            let Some(&d) = dirs.get(&parent) else { return (0, 1) };
            let node = &img.nodes[d];
            let info = node.dir().unwrap();
            let each = if info.htree { 4 * img.geo.bs } else { node.size.max(1) };
            let room = ((2 << 20) / each).clamp(3, 80);
            (0, (info.ents.len() as u64).div_ceil(room).max(1))
        });
        *k += 1;
        // Directories are kept: others are below them.
        if (*k - 1) % *stride == 0 || (img.nodes[n].is_dir() && *stride <= 8) {
            out.push((p, n));
        }
    }
    out
}

/// A deterministic limit on the work of one case: some images make
/// every operation slow (large linear directories in deep trees), and
/// then fewer operations are done on them.
pub struct Budget(u64, u64);
impl Budget {
    pub fn new(edges: u64) -> Self {
        Budget(crate::steps::steps(), edges)
    }
    pub fn left(&self) -> bool {
        crate::steps::steps().wrapping_sub(self.0) < self.1
    }
}

/// Every operation that suits the object at each path: a full tour.
pub fn tour(img: &Img) -> Vec<Op> {
    let mut out = Vec::new();
    for (p, n) in sampled_paths(img) {
        let node = &img.nodes[n];
        out.push(Op::SymMeta(p.clone()));
        out.push(Op::Canon(p.clone()));
        out.push(Op::Exists(p.clone()));
        match &node.kind {
            Kind::Reg => {
                if node.size <= 2 << 20 {
                    out.push(Op::Read(p.clone()));
                }
                let s = node.size;
                out.push(Op::OpenRead(p.clone(), vec![(s / 2, 3000), (s.saturating_sub(10), 100), (0, 10)]));
            }
            Kind::Dir(_) => {
                out.push(Op::ReadDir(p.clone()));
                let mut q = p.clone();
                if q != b"/" {
                    q.push(b'/');
                }
                q.extend_from_slice(b"no such name");
                out.push(Op::Meta(q));
            }
            Kind::Symlink(_) => {
                out.push(Op::ReadLink(p.clone()));
                out.push(Op::Meta(p.clone()));
            }
            _ => {}
        }
    }
    out
}

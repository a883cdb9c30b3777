//! C17 paths, C18 names, labels, UUIDs and text forms.

use crate::engine::*;
use crate::{ensure, fail};
use ext4_view::{Component, DirEntryName, DirEntryNameError, Label, Path, PathBuf, PathError, Uuid};
use std::collections::hash_map::DefaultHasher;
use std::ffi::{OsStr, OsString};
use std::fmt::{Debug, Display};
use std::hash::{Hash, Hasher};
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C17",
            run: c17,
            quick: 4_000_000,
            thorough: 60_000_000,
            rule: "case = two generated byte strings (separators, dots, NULs, components around 255 bytes, UTF-8 and not); validity, every conversion, components, join/push, comparison and hashing checked against a model on bytes; non-trivial: both are valid and at least one has 2 or more components",
        },
        Prop {
            id: "C18",
            run: c18,
            quick: 4_000_000,
            thorough: 60_000_000,
            rule: "case = generated byte string taken as name, label, UUID and path; acceptance, conversions, comparison, hashing, Display and Debug checked against a model on bytes; non-trivial: the string is not plain ASCII letters",
        },
    ]
}

fn show(p: &[u8]) -> String {
    let s = p.escape_ascii().to_string();
    if s.len() > 300 {
        format!("{}...{} ({} bytes)", &s[..150], &s[s.len() - 100..], p.len())
    } else {
        s
    }
}

/// Bytes that stress text handling.
fn gen_text(src: &mut Src, max: usize) -> Vec<u8> {
    let n = src.size(0, 24);
    let mut v = Vec::new();
    for _ in 0..n {
        match src.weighted(&[8, 3, 3, 2, 2, 1]) {
            0 => v.push(b'a' + src.below(26) as u8),
            1 => v.extend_from_slice(src.pick(&["é", "日", "ß", "😀", "\u{300}", "\u{202e}", "\u{feff}", "\u{fffd}"]).as_bytes()),
            // Ill-formed UTF-8: stray continuation, truncated, overlong,
            // surrogate, beyond U+10FFFF.
            2 => v.extend_from_slice(src.pick(&[
                &b"\x80"[..], b"\xc3", b"\xe6\x97", b"\xf0\x9f\x98", b"\xc0\xaf", b"\xe0\x80\xaf", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xff", b"\xfe",
            ])),
            3 => v.push(*src.pick(b"\n\t\r\\\"'\x1b\x7f\x01 {}%")),
            4 => v.push(src.below(256) as u8),
            _ => v.extend_from_slice(src.pick(&[&b"."[..], b"..", b"...", b"-"])),
        }
    }
    v.truncate(max);
    v
}

fn gen_comp(src: &mut Src) -> Vec<u8> {
    match src.weighted(&[6, 3, 3, 4, 1]) {
        0 => gen_text(src, 255).into_iter().filter(|b| *b != b'/' && *b != 0).collect(),
        1 => b".".to_vec(),
        2 => b"..".to_vec(),
        3 => vec![b'a' + src.below(26) as u8; src.range(1, 4) as usize],
        _ => vec![b'w'; src.range(253, 257) as usize],
    }
}

fn gen_path(src: &mut Src) -> Vec<u8> {
    match src.weighted(&[8, 1, 1]) {
        0 => {}
        1 => return gen_text(src, 600),
        _ => return Vec::new(),
    }
    let mut p = Vec::new();
    if src.chance(1, 2) {
        for _ in 0..src.range(1, 3) {
            p.push(b'/');
        }
    }
    let n = src.size(0, 8);
    for i in 0..n {
        if i > 0 {
            for _ in 0..(1 + src.weighted(&[8, 2, 1])) {
                p.push(b'/');
            }
        }
        p.extend(gen_comp(src));
    }
    if src.chance(1, 4) {
        for _ in 0..src.range(1, 2) {
            p.push(b'/');
        }
    }
    if src.chance(1, 25) {
        let i = src.below(p.len() as u64 + 1) as usize;
        p.insert(i, 0);
    }
    p
}

/// Model: why a path is refused.
fn path_fault(p: &[u8]) -> Option<Vec<PathError>> {
    let mut v = Vec::new();
    if p.contains(&0) {
        v.push(PathError::ContainsNull);
    }
    if p.split(|b| *b == b'/').any(|c| c.len() > 255) {
        v.push(PathError::ComponentTooLong);
    }
    (!v.is_empty()).then_some(v)
}

fn comps(p: &[u8]) -> Vec<Vec<u8>> {
    let mut v = Vec::new();
    if p.first() == Some(&b'/') {
        v.push(b"/".to_vec());
    }
    let mut cur = Vec::new();
    for b in p.iter().chain(b"/") {
        if *b == b'/' {
            if !cur.is_empty() {
                v.push(std::mem::take(&mut cur));
            }
        } else {
            cur.push(*b);
        }
    }
    v
}

fn join(a: &[u8], b: &[u8]) -> Vec<u8> {
    if b.first() == Some(&b'/') {
        return b.to_vec();
    }
    let mut v = a.to_vec();
    if !v.is_empty() && v.last() != Some(&b'/') {
        v.push(b'/');
    }
    v.extend_from_slice(b);
    v
}

fn h<T: Hash>(t: &T) -> u64 {
    let mut d = DefaultHasher::new();
    t.hash(&mut d);
    d.finish()
}

fn check_comps<'a>(got: impl Iterator<Item = Component<'a>>, p: &[u8]) -> Res {
    let want = comps(p);
    let mut i = 0;
    for c in got {
        ensure!(i < want.len(), "components:extra", "extra component {c:?} of {}", show(p));
        let w = &want[i];
        let ok = match &c {
            Component::RootDir => w == b"/" && i == 0,
            Component::CurDir => w == b".",
            Component::ParentDir => w == b"..",
            Component::Normal(n) => {
                let b: &[u8] = n.as_ref();
                b == w.as_slice() && w != b"." && w != b".." && w != b"/"
            }
        };
        ensure!(ok, "components:wrong", "component {i} of {} is {c:?}, should be {}", show(p), show(w));
        ensure!(c == *w, "components:eq", "component {c:?} != {}", show(w));
        let mut other = w.clone();
        other.push(b'x');
        ensure!(c != other, "components:eq", "component {c:?} == {}", show(&other));
        ensure!(!format!("{c:?}").is_empty(), "components:debug", "no debug text");
        i += 1;
    }
    ensure!(i == want.len(), "components:missing", "{} has {i} components, should have {}", show(p), want.len());
    Ok(())
}

/// All constructors agree with the model.
fn check_valid(p: &[u8]) -> Result<bool, Fail> {
    let fault = path_fault(p);
    let judge = |what: &str, r: Result<Vec<u8>, PathError>| -> Res {
        match (&fault, r) {
            (None, Ok(b)) => ensure!(b == p, format!("convert:{what}"), "{what} changes {} to {}", show(p), show(&b)),
            (None, Err(e)) => fail!("path:refused", "{what} refuses {}: {e:?}", show(p)),
            (Some(f), Ok(_)) => fail!("path:accepted", "{what} accepts {} ({f:?})", show(p)),
            (Some(f), Err(e)) => {
                ensure!(f.contains(&e), "path:wrong-error", "{what} refuses {} with {e:?}, should be {f:?}", show(p));
                ensure!(!e.to_string().is_empty(), "path:error-text", "no text");
            }
        }
        Ok(())
    };
    let bytes = |x: Path<'_>| (x.as_ref() as &[u8]).to_vec();
    let obytes = |x: PathBuf| (x.as_ref() as &[u8]).to_vec();
    judge("Path from bytes", Path::try_from(p).map(bytes))?;
    judge("PathBuf from bytes", PathBuf::try_from(p).map(obytes))?;
    judge("PathBuf from Vec", PathBuf::try_from(p.to_vec()).map(obytes))?;
    let os = OsStr::from_bytes(p);
    judge("Path from OsStr", Path::try_from(os).map(bytes))?;
    let sp = std::path::Path::new(os);
    judge("Path from std Path", Path::try_from(sp).map(bytes))?;
    judge("PathBuf from OsString", PathBuf::try_from(OsString::from_vec(p.to_vec())).map(obytes))?;
    judge("PathBuf from std PathBuf", PathBuf::try_from(sp.to_path_buf()).map(obytes))?;
    if let Ok(s) = std::str::from_utf8(p) {
        judge("Path from str", Path::try_from(s).map(bytes))?;
        let owned = s.to_string();
        judge("Path from String", Path::try_from(&owned).map(bytes))?;
        judge("PathBuf from str", PathBuf::try_from(s).map(obytes))?;
        judge("PathBuf from &String", PathBuf::try_from(&owned).map(obytes))?;
        judge("PathBuf from String", PathBuf::try_from(owned.clone()).map(obytes))?;
    }
    macro_rules! arr {
        ($($n:literal)*) => { $(
            if let Ok(a) = <&[u8; $n]>::try_from(p) {
                judge("Path from array", Path::try_from(a).map(bytes))?;
                judge("PathBuf from array", PathBuf::try_from(a).map(obytes))?;
            }
        )* };
    }
    arr!(0 1 2 3 4 5 6 7 8 9 10 11 12);
    // The panicking constructors.
    let r = catch_unwind(AssertUnwindSafe(|| bytes(Path::new(p))));
    match (&fault, r) {
        (None, Ok(b)) => ensure!(b == p, "path:new", "Path::new changes bytes"),
        (None, Err(_)) => fail!("path:new-panics", "Path::new panics on {}", show(p)),
        (Some(_), Ok(_)) => fail!("path:new-accepts", "Path::new accepts {}", show(p)),
        (Some(_), Err(_)) => {
            take_panic();
        }
    }
    let r = catch_unwind(AssertUnwindSafe(|| obytes(PathBuf::new(p))));
    match (&fault, r) {
        (None, Ok(b)) => ensure!(b == p, "path:new", "PathBuf::new changes bytes"),
        (None, Err(_)) => fail!("path:new-panics", "PathBuf::new panics on {}", show(p)),
        (Some(_), Ok(_)) => fail!("path:new-accepts", "PathBuf::new accepts {}", show(p)),
        (Some(_), Err(_)) => {
            take_panic();
        }
    }
    Ok(fault.is_none())
}

fn c17(src: &mut Src, ctx: &mut Ctx) -> Res {
    let a = gen_path(src);
    let b = if src.chance(1, 6) {
        // A relative of the first.
        let mut b = a.clone();
        if !b.is_empty() && src.chance(1, 2) {
            let i = src.below(b.len() as u64) as usize;
            match src.below(3) {
                0 => b[i] = b[i].wrapping_add(1),
                1 => b.truncate(i),
                _ => {
                    let x = b[i];
                    b.insert(i, x);
                }
            }
        }
        b
    } else {
        gen_path(src)
    };
    ctx.ops += 2;
    if ctx.want_sample {
        ctx.sample = format!("{} and {}", show(&a), show(&b));
    }
    let va = check_valid(&a)?;
    let vb = check_valid(&b)?;
    ctx.label(match (va, vb) {
        (true, true) => "both valid",
        (false, false) => "both invalid",
        _ => "one invalid",
    });
    if !va {
        return Ok(());
    }
    let pa = Path::new(&a);
    let ba = PathBuf::new(&a);
    // Views of one path.
    ensure!(pa.is_absolute() == (a.first() == Some(&b'/')) && ba.is_absolute() == pa.is_absolute(), "is_absolute", "is_absolute of {} is {}", show(&a), pa.is_absolute());
    ensure!(pa.to_str().ok() == std::str::from_utf8(&a).ok() && ba.to_str().ok() == pa.to_str().ok(), "to_str", "to_str of {}", show(&a));
    let lossy = String::from_utf8_lossy(&a);
    ensure!(pa.display().to_string() == lossy && ba.display().to_string() == lossy, "display", "display of {} is {}", show(&a), pa.display());
    ensure!(format!("{pa:?}") == format!("{ba:?}"), "debug", "debug of Path and PathBuf differ");
    ensure!(ba.as_path() == pa && PathBuf::from(pa) == ba && pa == ba && ba == pa && pa == a && ba == a, "views", "views of {} are not equal", show(&a));
    ensure!(Path::try_from(&ba).map(|x| x == a).unwrap_or(false), "views", "Path::try_from(&PathBuf) of {}", show(&a));
    let sp: &std::path::Path = pa.into();
    ensure!(sp.as_os_str().as_bytes() == a, "to-std", "to std Path: {}", show(&a));
    let sb: std::path::PathBuf = ba.clone().into();
    ensure!(sb.as_os_str().as_bytes() == a, "to-std", "to std PathBuf: {}", show(&a));
    check_comps(pa.components(), &a)?;
    check_comps(ba.components(), &a)?;
    // Joining.
    let want = join(&a, &b);
    let mut pushed = ba.clone();
    let joined = catch_unwind(AssertUnwindSafe(|| {
        let j1 = pa.join(&b);
        let j2 = ba.join(&b);
        (j1, j2)
    }));
    let push = catch_unwind(AssertUnwindSafe(|| pushed.push(&b)));
    if vb {
        let (Ok((j1, j2)), Ok(())) = (joined, push) else {
            return Err(panic_fail(&format!("joining {} and {}", show(&a), show(&b))));
        };
        for (n, j) in [("Path::join", &j1), ("PathBuf::join", &j2), ("push", &pushed)] {
            let g: &[u8] = j.as_ref();
            ensure!(g == want, format!("join:{n}"), "{n} of {} and {} is {}, should be {}", show(&a), show(&b), show(g), show(&want));
        }
        let mut wc = if b.first() == Some(&b'/') { Vec::new() } else { comps(&a) };
        wc.extend(comps(&b));
        ensure!(comps(&want) == wc, "harness", "model: components of a join");
        check_comps(j1.components(), &want)?;
        if b.first() == Some(&b'/') {
            ctx.label("join with an absolute path");
        } else if a.is_empty() || a.last() == Some(&b'/') {
            ctx.label("join without adding a separator");
        } else {
            ctx.label("join adding a separator");
        }
        // Comparison and hashing as bytes.
        let pb = Path::new(&b);
        let bb = PathBuf::new(&b);
        ensure!(pa.cmp(&pb) == a.cmp(&b) && ba.cmp(&bb) == a.cmp(&b), "cmp", "{} against {}: {:?}", show(&a), show(&b), pa.cmp(&pb));
        ensure!(pa.partial_cmp(&pb) == Some(a.cmp(&b)) && ba.partial_cmp(&bb) == Some(a.cmp(&b)), "cmp", "partial_cmp of {} and {}", show(&a), show(&b));
        let eq = a == b;
        ensure!((pa == pb) == eq && (ba == bb) == eq && (pa == bb) == eq && (ba == pb) == eq && (pa == b) == eq && (ba == b.as_slice()) == eq, "eq", "{} against {}", show(&a), show(&b));
        if eq {
            ctx.label("equal pair");
            ensure!(h(&pa) == h(&pb) && h(&ba) == h(&bb), "hash", "equal paths hash differently: {}", show(&a));
        }
        // Components order and equality.
        let (ca, cb): (Vec<_>, Vec<_>) = (pa.components().collect(), pb.components().collect());
        for x in &ca {
            for y in &cb {
                ensure!((x == y) == (x.cmp(y) == std::cmp::Ordering::Equal), "component:cmp", "{x:?} against {y:?}");
                if x == y {
                    ensure!(h(x) == h(y), "component:hash", "{x:?} against {y:?}");
                }
            }
        }
        ctx.nontrivial = ca.len() >= 2 || cb.len() >= 2;
        ctx.ops += 3;
    } else {
        ensure!(joined.is_err() && push.is_err(), "join:invalid", "joining {} with the invalid {} does not panic", show(&a), show(&b));
        take_panic();
        let g: &[u8] = pushed.as_ref();
        ensure!(path_fault(g).is_none(), "join:invalid-left", "a refused push left {}", show(g));
    }
    ensure!(PathBuf::empty() == b"" && PathBuf::default() == b"" && Path::ROOT == b"/", "constants", "constants");
    Ok(())
}

/// Text forms of arbitrary bytes.
fn check_text(what: &str, bytes: &[u8], disp: &dyn Display, dbg: &dyn Debug) -> Res {
    let d = disp.to_string();
    match std::str::from_utf8(bytes) {
        Ok(s) => ensure!(d == s, format!("{what}:display"), "{what} {} displays as {d:?}", show(bytes)),
        Err(_) => ensure!(d == String::from_utf8_lossy(bytes), format!("{what}:display"), "{what} {} displays as {d:?}", show(bytes)),
    }
    let g = format!("{dbg:?}");
    ensure!(g == format!("{dbg:?}"), format!("{what}:debug"), "{what} debug is not deterministic");
    let want = match std::str::from_utf8(bytes) {
        Ok(s) => format!("\"{}\"", s.escape_debug()),
        Err(_) => format!("\"{}\"", bytes.escape_ascii()),
    };
    ensure!(g == want, format!("{what}:debug"), "{what} {}: debug is {g}, should be {want}", show(bytes));
    Ok(())
}

fn c18(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut v = gen_text(src, 400);
    match src.weighted(&[10, 1, 1, 1]) {
        0 => {}
        1 => v = vec![*src.pick(b"q\xc3\xff."); src.range(250, 260) as usize],
        2 => {
            let i = src.below(v.len() as u64 + 1) as usize;
            v.insert(i, 0);
        }
        _ => {
            let i = src.below(v.len() as u64 + 1) as usize;
            v.insert(i, b'/');
        }
    }
    if ctx.want_sample {
        ctx.sample = show(&v);
    }
    ctx.nontrivial = !v.iter().all(|b| b.is_ascii_alphabetic());
    ctx.ops += 4;
    // Names.
    let mut faults = Vec::new();
    if v.is_empty() {
        faults.push(DirEntryNameError::Empty);
    }
    if v.len() > 255 {
        faults.push(DirEntryNameError::TooLong);
    }
    if v.contains(&0) {
        faults.push(DirEntryNameError::ContainsNull);
    }
    if v.contains(&b'/') {
        faults.push(DirEntryNameError::ContainsSeparator);
    }
    let mut forms: Vec<(&str, Result<DirEntryName<'_>, DirEntryNameError>)> = vec![("bytes", DirEntryName::try_from(v.as_slice()))];
    if let Ok(s) = std::str::from_utf8(&v) {
        forms.push(("str", DirEntryName::try_from(s)));
    }
    if let Ok(a) = <&[u8; 3]>::try_from(v.as_slice()) {
        forms.push(("array", DirEntryName::try_from(a)));
    }
    forms.push((
        "component",
        match Component::normal(&v) {
            Ok(Component::Normal(n)) => Ok(n),
            Ok(c) => fail!("component:normal", "Component::normal gave {c:?}"),
            Err(e) => Err(e),
        },
    ));
    for (f, r) in forms {
        match r {
            Ok(n) => {
                ensure!(faults.is_empty(), "name:accepted", "name {} accepted from {f} ({faults:?})", show(&v));
                let b: &[u8] = n.as_ref();
                ensure!(b == v, "name:bytes", "name {} became {}", show(&v), show(b));
                ensure!(n == v && n == v.as_slice(), "name:eq", "name {} is not equal to its bytes", show(&v));
                ensure!(n.as_str().ok() == std::str::from_utf8(&v).ok(), "name:as_str", "as_str of {}", show(&v));
                check_text("name", &v, &n.display(), &n)?;
                let mut w = v.clone();
                match src.below(3) {
                    0 => w[0] = w[0].wrapping_add(1),
                    1 => w.push(b'x'),
                    _ => {}
                }
                if let Ok(m) = DirEntryName::try_from(w.as_slice()) {
                    ensure!(n.cmp(&m) == v.cmp(&w) && (n == m) == (v == w) && n.partial_cmp(&m) == Some(v.cmp(&w)), "name:cmp", "{} against {}", show(&v), show(&w));
                    if v == w {
                        ensure!(h(&n) == h(&m), "name:hash", "equal names hash differently");
                    }
                }
            }
            Err(e) => {
                ensure!(!faults.is_empty(), "name:refused", "name {} refused from {f}: {e:?}", show(&v));
                ensure!(faults.contains(&e), "name:wrong-error", "name {} refused with {e:?}, should be {faults:?}", show(&v));
                ensure!(!e.to_string().is_empty(), "name:error-text", "no text");
            }
        }
    }
    ctx.label(if faults.is_empty() { "valid name" } else { "invalid name" });
    ctx.label(if std::str::from_utf8(&v).is_ok() { "UTF-8" } else { "not UTF-8" });
    // A path is displayed like a name.
    if path_fault(&v).is_none() {
        let p = Path::new(&v);
        check_text("path", &v, &p.display(), &p)?;
        let b = PathBuf::new(&v);
        check_text("path", &v, &b.display(), &b)?;
    }
    // Labels: sixteen bytes, up to the first NUL.
    let mut l = [0u8; 16];
    let n = v.len().min(16);
    l[..n].copy_from_slice(&v[..n]);
    if n < 16 && src.chance(1, 3) {
        // Junk after the NUL.
        for x in l[n + 1..].iter_mut() {
            *x = src.below(256) as u8;
        }
    }
    let label = Label::new(l);
    let end = l.iter().position(|b| *b == 0).unwrap_or(16);
    ensure!(label.as_bytes() == &l, "label:bytes", "label bytes changed");
    ensure!(label.to_str().ok() == std::str::from_utf8(&l[..end]).ok(), "label:to_str", "label {}: {:?}", show(&l), label.to_str());
    check_text("label", &l[..end], &label.display(), &label)?;
    if end == 16 {
        ctx.label("label of 16 bytes");
    }
    let mut l2 = l;
    if src.chance(1, 2) {
        let i = src.below(16) as usize;
        l2[i] = l2[i].wrapping_add(1);
    }
    let lb2 = Label::new(l2);
    ensure!((label == lb2) == (l == l2) && label.cmp(&lb2) == l.cmp(&l2), "label:cmp", "labels {} and {}", show(&l), show(&l2));
    ensure!(l != l2 || h(&label) == h(&lb2), "label:hash", "equal labels hash differently");
    // UUIDs.
    let mut u = [0u8; 16];
    for x in u.iter_mut() {
        *x = src.below(256) as u8;
    }
    if src.chance(1, 8) {
        u = l;
    }
    let id = Uuid::new(u);
    ensure!(id.as_bytes() == &u, "uuid:bytes", "uuid bytes changed");
    let mut want = String::new();
    for (i, b) in u.iter().enumerate() {
        if [4, 6, 8, 10].contains(&i) {
            want.push('-');
        }
        want.push(char::from_digit((b >> 4) as u32, 16).unwrap());
        want.push(char::from_digit((b & 15) as u32, 16).unwrap());
    }
    ensure!(id.to_string() == want && format!("{id:?}") == want, "uuid:text", "uuid prints {id}, should be {want}");
    let mut u2 = u;
    if src.chance(1, 2) {
        let i = src.below(16) as usize;
        u2[i] = u2[i].wrapping_sub(1);
    }
    let id2 = Uuid::new(u2);
    ensure!((id == id2) == (u == u2) && id.cmp(&id2) == u.cmp(&u2), "uuid:cmp", "uuids {id} and {id2}");
    ensure!(u != u2 || h(&id) == h(&id2), "uuid:hash", "equal uuids hash differently");
    Ok(())
}

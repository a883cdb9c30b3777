//! The properties.

use crate::engine::Prop;

mod content;
mod corrupt;
mod dirs;
mod e2fs;
mod hostile;
mod journal;
mod meta;
mod names;
mod path;
mod reader;
pub use path::encrypt_some;

pub fn all() -> Vec<Prop> {
    let mut v = Vec::new();
    v.extend(content::props());
    v.extend(dirs::props());
    v.extend(path::props());
    v.extend(journal::props());
    v.extend(reader::props());
    v.extend(corrupt::props());
    v.extend(hostile::props());
    v.extend(meta::props());
    v.extend(names::props());
    v.extend(e2fs::props());
    v
}

pub fn level(_id: &str) -> &'static str {
    "exploration"
}

pub fn assumptions(_id: &str) -> Vec<String> {
    vec![
        "the generator's reading of the ext4 on-disk format (cross-validated with e2fsprogs) is right".into(),
        "64-bit little-endian host".into(),
    ]
}

pub fn tool(a: &[String]) -> i32 {
    match a.first().map(|s| s.as_str()) {
        Some("list") => {
            for p in all() {
                println!("{} {} {}", p.id, p.quick, p.thorough);
            }
            0
        }
        // dump-image <seed> <idx> <file>: small images for e2fsprogs.
        Some("dump-image") => crate::dump::dump(&a[1..]),
        Some("dump-journal") => crate::dump::dump_journal(&a[1..]),
        // hash <version> <unsigned> <seed: 4 x hex u32 words> <name>
        Some("hash") => {
            let ver: u8 = a[1].parse().unwrap();
            let uns = a[2] == "1";
            let mut seed = [0u32; 4];
            for i in 0..4 {
                seed[i] = u32::from_str_radix(&a[3 + i], 16).unwrap();
            }
            let (h, m) = crate::hash::dirhash(ver, uns, &seed, a[7].as_bytes());
            println!("{h:08x} {m:08x}");
            0
        }
        _ => 2,
    }
}

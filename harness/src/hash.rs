//! Directory hash functions, written from the kernel's documentation of
//! the format (half-MD4, TEA and legacy; signed and unsigned variants).

pub const LEGACY: u8 = 0;
pub const HALF_MD4: u8 = 1;
pub const TEA: u8 = 2;

fn str2hashbuf(msg: &[u8], num: usize, unsigned: bool) -> Vec<u32> {
    let len = msg.len();
    let mut pad = (len as u32) | ((len as u32) << 8);
    pad |= pad << 16;
    let mut val = pad;
    let mut out = Vec::new();
    let n = len.min(num * 4);
    for (i, &b) in msg[..n].iter().enumerate() {
        let c = if unsigned { b as u32 } else { b as i8 as i32 as u32 };
        val = c.wrapping_add(val << 8);
        if i % 4 == 3 {
            out.push(val);
            val = pad;
        }
    }
    if out.len() < num {
        out.push(val);
    }
    while out.len() < num {
        out.push(pad);
    }
    out
}

fn half_md4(buf: &mut [u32; 4], input: &[u32]) {
    fn f(x: u32, y: u32, z: u32) -> u32 {
        z ^ (x & (y ^ z))
    }
    fn g(x: u32, y: u32, z: u32) -> u32 {
        (x & y).wrapping_add((x ^ y) & z)
    }
    fn h(x: u32, y: u32, z: u32) -> u32 {
        x ^ y ^ z
    }
    const K2: u32 = 0o13240474631;
    const K3: u32 = 0o15666365641;
    let [mut a, mut b, mut c, mut d] = *buf;
    macro_rules! r {
        ($f:ident, $a:ident,$b:ident,$c:ident,$d:ident,$x:expr,$s:expr) => {
            $a = $a
                .wrapping_add($f($b, $c, $d))
                .wrapping_add($x)
                .rotate_left($s);
        };
    }
    let i = input;
    r!(f, a, b, c, d, i[0], 3);
    r!(f, d, a, b, c, i[1], 7);
    r!(f, c, d, a, b, i[2], 11);
    r!(f, b, c, d, a, i[3], 19);
    r!(f, a, b, c, d, i[4], 3);
    r!(f, d, a, b, c, i[5], 7);
    r!(f, c, d, a, b, i[6], 11);
    r!(f, b, c, d, a, i[7], 19);
    r!(g, a, b, c, d, i[1].wrapping_add(K2), 3);
    r!(g, d, a, b, c, i[3].wrapping_add(K2), 5);
    r!(g, c, d, a, b, i[5].wrapping_add(K2), 9);
    r!(g, b, c, d, a, i[7].wrapping_add(K2), 13);
    r!(g, a, b, c, d, i[0].wrapping_add(K2), 3);
    r!(g, d, a, b, c, i[2].wrapping_add(K2), 5);
    r!(g, c, d, a, b, i[4].wrapping_add(K2), 9);
    r!(g, b, c, d, a, i[6].wrapping_add(K2), 13);
    r!(h, a, b, c, d, i[3].wrapping_add(K3), 3);
    r!(h, d, a, b, c, i[7].wrapping_add(K3), 9);
    r!(h, c, d, a, b, i[2].wrapping_add(K3), 11);
    r!(h, b, c, d, a, i[6].wrapping_add(K3), 15);
    r!(h, a, b, c, d, i[1].wrapping_add(K3), 3);
    r!(h, d, a, b, c, i[5].wrapping_add(K3), 9);
    r!(h, c, d, a, b, i[0].wrapping_add(K3), 11);
    r!(h, b, c, d, a, i[4].wrapping_add(K3), 15);
    buf[0] = buf[0].wrapping_add(a);
    buf[1] = buf[1].wrapping_add(b);
    buf[2] = buf[2].wrapping_add(c);
    buf[3] = buf[3].wrapping_add(d);
}

fn tea(buf: &mut [u32; 4], i: &[u32]) {
    let mut sum = 0u32;
    let (mut b0, mut b1) = (buf[0], buf[1]);
    for _ in 0..16 {
        sum = sum.wrapping_add(0x9e37_79b9);
        b0 = b0.wrapping_add(
            (b1 << 4).wrapping_add(i[0]) ^ b1.wrapping_add(sum) ^ (b1 >> 5).wrapping_add(i[1]),
        );
        b1 = b1.wrapping_add(
            (b0 << 4).wrapping_add(i[2]) ^ b0.wrapping_add(sum) ^ (b0 >> 5).wrapping_add(i[3]),
        );
    }
    buf[0] = buf[0].wrapping_add(b0);
    buf[1] = buf[1].wrapping_add(b1);
}

fn legacy(name: &[u8], unsigned: bool) -> u32 {
    let (mut h0, mut h1) = (0x12a3_fe2du32, 0x37ab_e8f9u32);
    for &b in name {
        let c = if unsigned { b as u32 } else { b as i8 as i32 as u32 };
        let mut h = h1.wrapping_add(h0 ^ c.wrapping_mul(7152373));
        if h & 0x8000_0000 != 0 {
            h = h.wrapping_sub(0x7fff_ffff);
        }
        h1 = h0;
        h0 = h;
    }
    h0 << 1
}

/// Returns (major, minor).
pub fn dirhash(version: u8, unsigned: bool, seed: &[u32; 4], name: &[u8]) -> (u32, u32) {
    let mut buf: [u32; 4] = [0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476];
    if seed.iter().any(|s| *s != 0) {
        buf = *seed;
    }
    let (hash, minor) = match version {
        LEGACY => (legacy(name, unsigned), 0),
        HALF_MD4 => {
            let mut p = name;
            loop {
                let w = str2hashbuf(p, 8, unsigned);
                half_md4(&mut buf, &w);
                if p.len() <= 32 {
                    break;
                }
                p = &p[32..];
            }
            (buf[1], buf[2])
        }
        TEA => {
            let mut p = name;
            loop {
                let w = str2hashbuf(p, 4, unsigned);
                tea(&mut buf, &w);
                if p.len() <= 16 {
                    break;
                }
                p = &p[16..];
            }
            (buf[0], buf[1])
        }
        _ => panic!("harness: bad hash version"),
    };
    let mut h = hash & !1;
    if h == 0x7fff_ffff << 1 {
        h = (0x7fff_ffff - 1) << 1;
    }
    (h, minor)
}

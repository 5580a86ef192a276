//! Checksums and name hashes, written from the ext4/jbd2 format description,
//! independently of the library under test.

const fn make_tables() -> [[u32; 256]; 8] {
    let mut t = [[0u32; 256]; 8];
    let mut i = 0;
    while i < 256 {
        let mut c = i as u32;
        let mut k = 0;
        while k < 8 {
            c = if c & 1 != 0 { (c >> 1) ^ 0x82f6_3b78 } else { c >> 1 };
            k += 1;
        }
        t[0][i] = c;
        i += 1;
    }
    let mut j = 1;
    while j < 8 {
        let mut i = 0;
        while i < 256 {
            let p = t[j - 1][i];
            t[j][i] = (p >> 8) ^ t[0][(p & 0xff) as usize];
            i += 1;
        }
        j += 1;
    }
    t
}

static T: [[u32; 256]; 8] = make_tables();

/// Raw CRC32C register update (the kernel's crc32c(): no inversion).
pub fn crc32c(mut crc: u32, data: &[u8]) -> u32 {
    let mut it = data.chunks_exact(8);
    for ch in &mut it {
        let lo = u32::from_le_bytes([ch[0], ch[1], ch[2], ch[3]]) ^ crc;
        crc = T[7][(lo & 0xff) as usize]
            ^ T[6][(lo >> 8 & 0xff) as usize]
            ^ T[5][(lo >> 16 & 0xff) as usize]
            ^ T[4][(lo >> 24) as usize]
            ^ T[3][ch[4] as usize]
            ^ T[2][ch[5] as usize]
            ^ T[1][ch[6] as usize]
            ^ T[0][ch[7] as usize];
    }
    for b in it.remainder() {
        crc = (crc >> 8) ^ T[0][((crc ^ u32::from(*b)) & 0xff) as usize];
    }
    crc
}

fn str2hashbuf(msg: &[u8], unsigned: bool, num: usize) -> Vec<u32> {
    // Transcribed from the kernel's str2hashbuf_{signed,unsigned}.
    let len = msg.len();
    let mut pad = (len as u32) | ((len as u32) << 8);
    pad |= pad << 16;
    let mut val = pad;
    let len = len.min(num * 4);
    let mut out = Vec::new();
    let mut i = 0;
    while i < len {
        let c = if unsigned { u32::from(msg[i]) } else { msg[i] as i8 as i32 as u32 };
        val = c.wrapping_add(val << 8);
        if i % 4 == 3 {
            out.push(val);
            val = pad;
        }
        i += 1;
    }
    if out.len() < num {
        out.push(val);
    }
    while out.len() < num {
        out.push(pad);
    }
    out
}

fn tea_transform(buf: &mut [u32; 4], inp: &[u32]) {
    let mut sum = 0u32;
    let (mut b0, mut b1) = (buf[0], buf[1]);
    let (a, b, c, d) = (inp[0], inp[1], inp[2], inp[3]);
    for _ in 0..16 {
        sum = sum.wrapping_add(0x9E37_79B9);
        b0 = b0.wrapping_add(
            ((b1 << 4).wrapping_add(a)) ^ (b1.wrapping_add(sum)) ^ ((b1 >> 5).wrapping_add(b)),
        );
        b1 = b1.wrapping_add(
            ((b0 << 4).wrapping_add(c)) ^ (b0.wrapping_add(sum)) ^ ((b0 >> 5).wrapping_add(d)),
        );
    }
    buf[0] = buf[0].wrapping_add(b0);
    buf[1] = buf[1].wrapping_add(b1);
}

fn half_md4(buf: &mut [u32; 4], inp: &[u32]) {
    let f = |x: u32, y: u32, z: u32| z ^ (x & (y ^ z));
    let g = |x: u32, y: u32, z: u32| (x & y).wrapping_add((x ^ y) & z);
    let h = |x: u32, y: u32, z: u32| x ^ y ^ z;
    let (mut a, mut b, mut c, mut d) = (buf[0], buf[1], buf[2], buf[3]);
    macro_rules! r {
        ($f:ident,$a:ident,$b:ident,$c:ident,$d:ident,$x:expr,$k:expr,$s:expr) => {
            $a = $a.wrapping_add($f($b, $c, $d)).wrapping_add($x.wrapping_add($k)).rotate_left($s)
        };
    }
    const K2: u32 = 0o13240474631;
    const K3: u32 = 0o15666365641;
    r!(f, a, b, c, d, inp[0], 0, 3);
    r!(f, d, a, b, c, inp[1], 0, 7);
    r!(f, c, d, a, b, inp[2], 0, 11);
    r!(f, b, c, d, a, inp[3], 0, 19);
    r!(f, a, b, c, d, inp[4], 0, 3);
    r!(f, d, a, b, c, inp[5], 0, 7);
    r!(f, c, d, a, b, inp[6], 0, 11);
    r!(f, b, c, d, a, inp[7], 0, 19);
    r!(g, a, b, c, d, inp[1], K2, 3);
    r!(g, d, a, b, c, inp[3], K2, 5);
    r!(g, c, d, a, b, inp[5], K2, 9);
    r!(g, b, c, d, a, inp[7], K2, 13);
    r!(g, a, b, c, d, inp[0], K2, 3);
    r!(g, d, a, b, c, inp[2], K2, 5);
    r!(g, c, d, a, b, inp[4], K2, 9);
    r!(g, b, c, d, a, inp[6], K2, 13);
    r!(h, a, b, c, d, inp[3], K3, 3);
    r!(h, d, a, b, c, inp[7], K3, 9);
    r!(h, c, d, a, b, inp[2], K3, 11);
    r!(h, b, c, d, a, inp[6], K3, 15);
    r!(h, a, b, c, d, inp[1], K3, 3);
    r!(h, d, a, b, c, inp[5], K3, 9);
    r!(h, c, d, a, b, inp[0], K3, 11);
    r!(h, b, c, d, a, inp[4], K3, 15);
    buf[0] = buf[0].wrapping_add(a);
    buf[1] = buf[1].wrapping_add(b);
    buf[2] = buf[2].wrapping_add(c);
    buf[3] = buf[3].wrapping_add(d);
}

/// `version`: 1 half-MD4, 2 TEA. Returns the major hash.
pub fn dirhash(version: u8, unsigned: bool, seed: &[u32; 4], name: &[u8]) -> u32 {
    let mut buf = [0x67452301u32, 0xefcdab89, 0x98badcfe, 0x10325476];
    if seed.iter().any(|x| *x != 0) {
        buf = *seed;
    }
    let mut p = name;
    let h = if version == 1 {
        while !p.is_empty() {
            half_md4(&mut buf, &str2hashbuf(p, unsigned, 8));
            p = &p[p.len().min(32)..];
        }
        buf[1]
    } else {
        while !p.is_empty() {
            tea_transform(&mut buf, &str2hashbuf(p, unsigned, 4));
            p = &p[p.len().min(16)..];
        }
        buf[0]
    };
    let h = h & !1;
    if h == 0xffff_fffe {
        0xffff_fffc
    } else {
        h
    }
}

pub fn fnv(data: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in data {
        h = (h ^ u64::from(*b)).wrapping_mul(0x100_0000_01b3);
    }
    h
}

/// The checksum of block group descriptors without metadata_csum.
pub fn crc16(mut crc: u16, data: &[u8]) -> u16 {
    for b in data {
        crc ^= u16::from(*b);
        for _ in 0..8 {
            crc = if crc & 1 != 0 { crc >> 1 ^ 0xa001 } else { crc >> 1 };
        }
    }
    crc
}

/// Names of which all (after 224 times 'q') have the same half-MD4 hash
/// under the default seed; found by search.
pub const SAME_MD4: [&[u8; 16]; 20] = [
    b"aaaaaaacicebojci", b"aaaaaaacieboigmp", b"aaaaaaabahdohola", b"aaaaaaaciokecjaj", b"aaaaaaadbjmafmoi", b"aaaaaaabbofkbofo",
    b"aaaaaaadkdoammkj", b"aaaaaaabjpjkbkkf", b"aaaaaaabkealpbkm", b"aaaaaaaalgcmjcof", b"aaaaaaadlkllhgda", b"aaaaaaablfggkcka",
    b"aaaaaaaafcpgmkbi", b"aaaaaaaafdhfmdoo", b"aaaaaaaceljeaaca", b"aaaaaaadfddafece", b"aaaaaaadnjlgnpbc", b"aaaaaaabfebpjomc",
    b"aaaaaaadolfokpgn", b"aaaaaaacggjkpahd",
];
/// The same for TEA.
pub const SAME_TEA: [&[u8; 16]; 19] = [
    b"aaaaaaabieifcpie", b"aaaaaaacaoepdhll", b"aaaaaaacaphiabea", b"aaaaaaadbfjnbkgh", b"aaaaaaaajfdfchkm", b"aaaaaaaajklfknnb",
    b"aaaaaaaakackbbaj", b"aaaaaaacdgdklhfo", b"aaaaaaaddpaeeajn", b"aaaaaaadebgbepha", b"aaaaaaabmgnlgepd", b"aaaaaaabmmmlhiip",
    b"aaaaaaacnjjcfebl", b"aaaaaaaanlaechgo", b"aaaaaaaanocnjako", b"aaaaaaabgdhjgimh", b"aaaaaaadgoglhocj", b"aaaaaaadonkpkeea",
    b"aaaaaaadpdoofaal",
];

/// The same for the greatest hash, 0xfffffffc, which stands for 0xfffffffe too
/// (the first ones have that value before it is adjusted).
pub const LAST_MD4: [&[u8; 16]; 14] = [
    b"aaaaaaaajkdlpbof", b"aaaaaaabpnhjjgok", b"aaaaaaacebimjann", b"aaaaaaacghmpcdlp", b"aaaaaaafhcceeold", b"aaaaaaaabjlhmjje",
    b"aaaaaaaahkdabcnf", b"aaaaaaaaoodefkja", b"aaaaaaaaoofgngam", b"aaaaaaabhoiiknmn", b"aaaaaaabkgjfbkbe", b"aaaaaaacfogimolc",
    b"aaaaaaaclnbjjefg", b"aaaaaaadcjnjdcdf",
];
/// The same for the greatest hash, 0xfffffffc, which stands for 0xfffffffe too
/// (the first ones have that value before it is adjusted).
pub const LAST_TEA: [&[u8; 16]; 13] = [
    b"aaaaaaabbkdlkdnf", b"aaaaaaabihfjigdc", b"aaaaaaabppnlahkc", b"aaaaaaacbkbagiga", b"aaaaaaacfeoidfnd", b"aaaaaaadbcokcgko",
    b"aaaaaaaaobgaglbo", b"aaaaaaaapjomkdkc", b"aaaaaaabhcfmkgif", b"aaaaaaabpockejid", b"aaaaaaacmihcjeci", b"aaaaaaadhefpijnh",
    b"aaaaaaadpaehoibm",
];

/// The names above in full.
pub fn same_hash(ver: u8, last: bool) -> Vec<Vec<u8>> {
    let t: &[&[u8; 16]] = match (ver, last) {
        (1, false) => &SAME_MD4,
        (1, true) => &LAST_MD4,
        (_, false) => &SAME_TEA,
        (_, true) => &LAST_TEA,
    };
    t.iter().map(|s| [&[b'q'; 224][..], &s[..]].concat()).collect()
}

//! Independent oracle: CESR written from the specification, sharing no code with /repo.
pub const ALPHA: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";

pub fn idx(c: u8) -> Option<u32> {
    ALPHA.iter().position(|x| *x == c).map(|x| x as u32)
}
/// whole quadlets only
pub fn b64e(b: &[u8]) -> Vec<u8> {
    assert!(b.len() % 3 == 0);
    let mut out = vec![];
    for g in b.chunks(3) {
        let n = (g[0] as u32) << 16 | (g[1] as u32) << 8 | g[2] as u32;
        for k in [18, 12, 6, 0] {
            out.push(ALPHA[((n >> k) & 63) as usize]);
        }
    }
    out
}
pub fn b64d(t: &[u8]) -> Option<Vec<u8>> {
    if t.len() % 4 != 0 {
        return None;
    }
    let mut out = vec![];
    for g in t.chunks(4) {
        let mut n = 0u32;
        for c in g {
            n = n << 6 | idx(*c)?;
        }
        out.extend_from_slice(&[(n >> 16) as u8, (n >> 8) as u8, n as u8]);
    }
    Some(out)
}
/// first k sextets of a byte string as characters (bytes beyond the end count as zero)
pub fn sextets(b: &[u8], k: usize) -> Vec<u8> {
    (0..k)
        .map(|i| {
            let bit = 6 * i;
            let mut v = 0u32;
            for j in 0..6 {
                let p = bit + j;
                let x = b.get(p / 8).copied().unwrap_or(0);
                v = v << 1 | ((x >> (7 - p % 8)) & 1) as u32;
            }
            ALPHA[v as usize]
        })
        .collect()
}
pub fn int(t: &[u8]) -> Option<u128> {
    let mut n: u128 = 0;
    for c in t {
        n = n.checked_mul(64)? + idx(*c)? as u128;
    }
    Some(n)
}
pub fn enc(mut n: u128, len: usize) -> Vec<u8> {
    let mut out = vec![b'A'; len];
    for i in (0..len).rev() {
        out[i] = ALPHA[(n % 64) as usize];
        n /= 64;
    }
    out
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Sz {
    pub hs: usize,
    pub ss: usize,
    pub os: usize,
    pub ls: usize,
    pub fs: Option<usize>,
}
pub const MATTER: &[(&str, usize, usize, usize)] = &[
    // code, soft size, lead size, full size (0: variable)
    ("A", 0, 0, 44), ("B", 0, 0, 44), ("C", 0, 0, 44), ("D", 0, 0, 44), ("E", 0, 0, 44), ("F", 0, 0, 44),
    ("G", 0, 0, 44), ("H", 0, 0, 44), ("I", 0, 0, 44), ("J", 0, 0, 44), ("K", 0, 0, 76), ("L", 0, 0, 76),
    ("M", 0, 0, 4), ("N", 0, 0, 12), ("O", 0, 0, 44), ("P", 0, 0, 124), ("Q", 0, 0, 44),
    ("0A", 0, 0, 24), ("0B", 0, 0, 88), ("0C", 0, 0, 88), ("0D", 0, 0, 88), ("0E", 0, 0, 88), ("0F", 0, 0, 88),
    ("0G", 0, 0, 88), ("0H", 0, 0, 8), ("0I", 0, 0, 88),
    ("1AAA", 0, 0, 48), ("1AAB", 0, 0, 48), ("1AAC", 0, 0, 80), ("1AAD", 0, 0, 80), ("1AAE", 0, 0, 56),
    ("1AAF", 0, 0, 8), ("1AAG", 0, 0, 36), ("1AAH", 0, 0, 100), ("1AAI", 0, 0, 48), ("1AAJ", 0, 0, 48),
    ("2AAA", 0, 1, 8), ("3AAA", 0, 2, 8),
    ("4A", 2, 0, 0), ("5A", 2, 1, 0), ("6A", 2, 2, 0), ("7AAA", 4, 0, 0), ("8AAA", 4, 1, 0), ("9AAA", 4, 2, 0),
    ("4B", 2, 0, 0), ("5B", 2, 1, 0), ("6B", 2, 2, 0), ("7AAB", 4, 0, 0), ("8AAB", 4, 1, 0), ("9AAB", 4, 2, 0),
];
pub fn msz(code: &[u8]) -> Option<Sz> {
    MATTER.iter().find(|m| m.0.as_bytes() == code).map(|m| Sz {
        hs: m.0.len(),
        ss: m.1,
        os: 0,
        ls: m.2,
        fs: if m.3 == 0 { None } else { Some(m.3) },
    })
}
pub fn mhard(c: u8) -> Option<usize> {
    match c {
        b'A'..=b'Z' | b'a'..=b'z' => Some(1),
        b'0' | b'4' | b'5' | b'6' => Some(2),
        b'1' | b'2' | b'3' | b'7' | b'8' | b'9' => Some(4),
        _ => None,
    }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct M {
    pub code: String,
    pub size: u32,
    pub raw: Vec<u8>,
}
/// text of a code, soft part and raw
fn text(both: &[u8], ls: usize, raw: &[u8]) -> Vec<u8> {
    let p = if both.len() % 4 != 0 { both.len() % 4 } else { ls };
    let mut b = vec![0u8; p];
    b.extend_from_slice(raw);
    let t = b64e(&b);
    let mut out = both.to_vec();
    out.extend_from_slice(&t[both.len() % 4..]);
    out
}
pub fn m_text(m: &M) -> Vec<u8> {
    let z = msz(m.code.as_bytes()).unwrap();
    let mut both = m.code.as_bytes().to_vec();
    if z.fs.is_none() {
        both.extend(enc(m.size as u128, z.ss));
    }
    text(&both, z.ls, &m.raw)
}
pub fn m_full(m: &M) -> usize {
    let z = msz(m.code.as_bytes()).unwrap();
    z.fs.unwrap_or(z.hs + z.ss + 4 * m.size as usize)
}
pub fn m_raw_size(code: &str) -> Option<usize> {
    let z = msz(code.as_bytes())?;
    Some((z.fs? - z.hs) * 3 / 4 - z.ls)
}
/// material after the code characters, pad bits and lead bytes checked
fn body(both: &[u8], ls: usize, rest: &[u8]) -> Option<Vec<u8>> {
    let cs = both.len();
    let p = cs % 4;
    let mut t = vec![b'A'; p];
    t.extend_from_slice(rest);
    let b = b64d(&t)?;
    if p != 0 {
        // p code characters leave 2 * p pad bits at the head of the material
        let bits = 6 * p;
        for k in bits..8 * p {
            if (b[k / 8] >> (7 - k % 8)) & 1 != 0 {
                return None;
            }
        }
        Some(b[p..].to_vec())
    } else {
        if b.len() < ls || b[..ls].iter().any(|x| *x != 0) {
            return None;
        }
        Some(b[ls..].to_vec())
    }
}
pub fn m_parse(t: &[u8]) -> Option<M> {
    let hs = mhard(*t.first()?)?;
    let code = t.get(..hs)?;
    let z = msz(code)?;
    let cs = z.hs + z.ss;
    let (size, fs) = match z.fs {
        Some(f) => (0, f),
        None => {
            let n = int(t.get(z.hs..cs)?)? as usize;
            (n, cs + 4 * n)
        }
    };
    let t = t.get(..fs)?;
    let raw = body(&t[..cs], z.ls, &t[cs..])?;
    Some(M { code: String::from_utf8(code.to_vec()).ok()?, size: size as u32, raw })
}
pub fn m_bparse(b: &[u8]) -> Option<M> {
    if b.is_empty() {
        return None;
    }
    let first = sextets(b, 1)[0];
    let hs = mhard(first)?;
    if b.len() < (hs * 3).div_ceil(4) {
        return None;
    }
    let code = sextets(b, hs);
    let z = msz(&code)?;
    let cs = z.hs + z.ss;
    let fs = match z.fs {
        Some(f) => f,
        None => {
            if b.len() < (cs * 3).div_ceil(4) {
                return None;
            }
            cs + 4 * int(&sextets(b, cs)[z.hs..])? as usize
        }
    };
    let n = fs / 4 * 3;
    m_parse(&b64e(b.get(..n)?))
}
/// what the constructor should build; None: refuse
pub fn m_new(code: &str, raw: &[u8]) -> Option<M> {
    let z = msz(code.as_bytes())?;
    match z.fs {
        Some(f) => {
            let n = (f - z.hs) * 3 / 4 - z.ls;
            Some(M { code: code.to_string(), size: 0, raw: raw.get(..n)?.to_vec() })
        }
        None => {
            let ls = (3 - raw.len() % 3) % 3;
            let size = (raw.len() + ls) / 3;
            let tail = code.chars().last().unwrap();
            let code = if size < 4096 && z.ss == 2 {
                format!("{}{tail}", ["4", "5", "6"][ls])
            } else if size < 1 << 24 {
                format!("{}AA{tail}", ["7", "8", "9"][ls])
            } else {
                return None;
            };
            Some(M { code, size: size as u32, raw: raw.to_vec() })
        }
    }
}

// ---- indexed ---------------------------------------------------------------------------
pub const INDEXER: &[(&str, usize, usize, usize, usize, char)] = &[
    // code, soft size, other index size, full size (0: variable), lead size, kind: b(oth) c(urrent only) t(est)
    ("A", 1, 0, 88, 0, 'b'), ("B", 1, 0, 88, 0, 'c'), ("C", 1, 0, 88, 0, 'b'), ("D", 1, 0, 88, 0, 'c'),
    ("E", 1, 0, 88, 0, 'b'), ("F", 1, 0, 88, 0, 'c'),
    ("0A", 2, 1, 156, 0, 'b'), ("0B", 2, 1, 156, 0, 'c'),
    ("2A", 4, 2, 92, 0, 'b'), ("2B", 4, 2, 92, 0, 'c'), ("2C", 4, 2, 92, 0, 'b'), ("2D", 4, 2, 92, 0, 'c'),
    ("2E", 4, 2, 92, 0, 'b'), ("2F", 4, 2, 92, 0, 'c'),
    ("3A", 6, 3, 160, 0, 'b'), ("3B", 6, 3, 160, 0, 'c'),
    ("0z", 2, 0, 0, 0, 't'), ("1z", 2, 1, 76, 1, 't'), ("4z", 6, 3, 80, 1, 't'),
];
pub fn isz(code: &[u8]) -> Option<(Sz, char)> {
    INDEXER.iter().find(|m| m.0.as_bytes() == code).map(|m| {
        (Sz { hs: m.0.len(), ss: m.1, os: m.2, ls: m.4, fs: if m.3 == 0 { None } else { Some(m.3) } }, m.5)
    })
}
pub fn ihard(c: u8) -> Option<usize> {
    match c {
        b'A'..=b'Z' | b'a'..=b'z' => Some(1),
        b'0'..=b'4' => Some(2),
        _ => None,
    }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct I {
    pub code: String,
    pub index: u32,
    pub ondex: u32,
    pub raw: Vec<u8>,
}
pub fn i_text(i: &I) -> Vec<u8> {
    let z = isz(i.code.as_bytes()).unwrap().0;
    let mut both = i.code.as_bytes().to_vec();
    both.extend(enc(i.index as u128, z.ss - z.os));
    both.extend(enc(i.ondex as u128, z.os));
    text(&both, z.ls, &i.raw)
}
pub fn i_parse(t: &[u8]) -> Option<I> {
    let hs = ihard(*t.first()?)?;
    let code = t.get(..hs)?;
    let (z, k) = isz(code)?;
    let cs = z.hs + z.ss;
    let ms = z.ss - z.os;
    let index = int(t.get(hs..hs + ms)?)? as u32;
    let o = t.get(hs + ms..cs)?;
    let ondex = if z.os > 0 {
        int(o)? as u32
    } else if k == 'c' {
        0
    } else {
        index
    };
    if k == 'c' && ondex != 0 {
        return None;
    }
    let fs = z.fs.unwrap_or(cs + 4 * index as usize);
    let t = t.get(..fs)?;
    let raw = body(&t[..cs], z.ls, &t[cs..])?;
    Some(I { code: String::from_utf8(code.to_vec()).ok()?, index, ondex, raw })
}
pub fn i_bparse(b: &[u8]) -> Option<I> {
    if b.is_empty() {
        return None;
    }
    let hs = ihard(sextets(b, 1)[0])?;
    if b.len() < (hs * 3).div_ceil(4) {
        return None;
    }
    let (z, _) = isz(&sextets(b, hs))?;
    let cs = z.hs + z.ss;
    if b.len() < (cs * 3).div_ceil(4) {
        return None;
    }
    let fs = match z.fs {
        Some(f) => f,
        None => cs + 4 * int(&sextets(b, cs)[z.hs..])? as usize,
    };
    i_parse(&b64e(b.get(..fs / 4 * 3)?))
}
pub fn i_new(code: &str, raw: &[u8], index: u32, ondex: Option<u32>) -> Option<I> {
    let (z, k) = isz(code.as_bytes())?;
    let ms = z.ss - z.os;
    if index as u128 >= 64u128.pow(ms as u32) {
        return None;
    }
    if k == 'c' && ondex.is_some() {
        return None;
    }
    let o = match ondex {
        Some(o) => o,
        None if k == 'c' => 0,
        None if k == 'b' || z.os == 0 => index,
        None => 0,
    };
    if z.os == 0 && k != 'c' && o != index {
        return None;
    }
    if z.os > 0 && o as u128 >= 64u128.pow(z.os as u32) {
        return None;
    }
    let cs = z.hs + z.ss;
    let fs = z.fs.unwrap_or(cs + 4 * index as usize);
    let n = (fs - cs) * 3 / 4 - z.ls;
    Some(I { code: code.to_string(), index, ondex: o, raw: raw.get(..n)?.to_vec() })
}

// ---- counters --------------------------------------------------------------------------
pub const COUNTER: &[(&str, usize)] = &[
    ("-A", 2), ("-B", 2), ("-C", 2), ("-D", 2), ("-E", 2), ("-F", 2), ("-G", 2), ("-H", 2), ("-I", 2), ("-J", 2),
    ("-K", 2), ("-L", 2), ("-V", 2), ("-0V", 5), ("--AAA", 3),
];
pub fn c_parse(t: &[u8]) -> Option<(String, u32)> {
    for (c, ss) in COUNTER {
        if t.starts_with(c.as_bytes()) {
            return Some((c.to_string(), int(t.get(c.len()..c.len() + ss)?)? as u32));
        }
    }
    None
}
pub fn c_text(code: &str, count: u32) -> Vec<u8> {
    let ss = COUNTER.iter().find(|c| c.0 == code).unwrap().1;
    let mut t = code.as_bytes().to_vec();
    t.extend(enc(count as u128, ss));
    t
}
pub fn c_bparse(b: &[u8]) -> Option<(String, u32)> {
    let k = b.len() / 3 * 4;
    let t = sextets(b, k.min(8));
    c_parse(&t)
}

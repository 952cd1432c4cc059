//! Kinds for the CESR core: util, Matter, Indexer, Counter, tables.
use crate::ensure;
use crate::fw::*;
use crate::oracle::{self as o, I, M};
use keride::cesr::{Counter, Indexer, Matter};

#[derive(Default, Debug, Clone, PartialEq)]
pub struct Mt {
    code: String,
    size: u32,
    raw: Vec<u8>,
}
impl Matter for Mt {
    fn code(&self) -> String {
        self.code.clone()
    }
    fn size(&self) -> u32 {
        self.size
    }
    fn raw(&self) -> Vec<u8> {
        self.raw.clone()
    }
    fn set_code(&mut self, code: &str) {
        self.code = code.to_string()
    }
    fn set_size(&mut self, size: u32) {
        self.size = size
    }
    fn set_raw(&mut self, raw: &[u8]) {
        self.raw = raw.to_vec()
    }
}
#[derive(Default, Debug, Clone, PartialEq)]
pub struct It {
    code: String,
    raw: Vec<u8>,
    index: u32,
    ondex: u32,
}
impl Indexer for It {
    fn code(&self) -> String {
        self.code.clone()
    }
    fn set_code(&mut self, code: &str) {
        self.code = code.to_string()
    }
    fn raw(&self) -> Vec<u8> {
        self.raw.clone()
    }
    fn set_raw(&mut self, raw: &[u8]) {
        self.raw = raw.to_vec()
    }
    fn index(&self) -> u32 {
        self.index
    }
    fn set_index(&mut self, index: u32) {
        self.index = index
    }
    fn ondex(&self) -> u32 {
        self.ondex
    }
    fn set_ondex(&mut self, ondex: u32) {
        self.ondex = ondex
    }
}

pub fn mv<T: Matter>(m: &T) -> M {
    M { code: m.code(), size: m.size(), raw: m.raw() }
}
pub fn iv<T: Indexer>(m: &T) -> I {
    I { code: m.code(), index: m.index(), ondex: m.ondex(), raw: m.raw() }
}
fn res<T, E: std::fmt::Debug>(r: Result<T, E>) -> Option<T> {
    r.ok()
}
pub fn b64safe(t: &[u8]) -> bool {
    t.iter().all(|c| o::idx(*c).is_some())
}
fn show(b: &[u8]) -> String {
    if b.len() > 120 {
        format!("{:?}...({} bytes)", String::from_utf8_lossy(&b[..60]), b.len())
    } else {
        format!("{:?}", String::from_utf8_lossy(b))
    }
}
fn showm(m: &Option<M>) -> String {
    match m {
        None => "refused".into(),
        Some(m) => format!("code {:?} size {} raw {}", m.code, m.size, {
            let h = hex(&m.raw[..m.raw.len().min(40)]);
            format!("{h}({} bytes)", m.raw.len())
        }),
    }
}
fn showi(m: &Option<I>) -> String {
    match m {
        None => "refused".into(),
        Some(m) => format!("code {:?} index {} ondex {} raw {}({} bytes)", m.code, m.index, m.ondex, hex(&m.raw[..m.raw.len().min(40)]), m.raw.len()),
    }
}

// ---- Matter ------------------------------------------------------------------------------
fn m_make(c: &Case) -> Result<Option<(Mt, M)>, String> {
    let code = c.s(0);
    let raw = &c.b[1];
    let want = o::m_new(&code, raw);
    let got = res(<Mt as Matter>::new(Some(&code), Some(raw), None, None, None));
    let g = got.as_ref().map(mv);
    let want = if o::msz(code.as_bytes()).is_some() {
        want
    } else {
        // codes that are not published: refused, or turned into a published code of the same family
        let w = g.clone().and_then(|g| o::m_new(&g.code, raw));
        ensure!(w.is_some() || g.is_none(), "new(code {code:?}, raw of {} bytes) gave {}", raw.len(), showm(&g));
        w
    };
    ensure!(g == want, "new(code {code:?}, raw of {} bytes) gave {}, expected {}", raw.len(), showm(&g), showm(&want));
    Ok(match (got, want) {
        (Some(g), Some(w)) => Some((g, w)),
        _ => None,
    })
}
fn ck_m_text(c: &Case) -> Result<bool, String> {
    let (m, w) = match m_make(c)? {
        Some(x) => x,
        None => return Ok(false),
    };
    let t = m.qb64().map_err(|e| format!("qb64 of {} refused: {e}", showm(&Some(w.clone()))))?;
    let tb = m.qb64b().map_err(|e| format!("qb64b refused: {e}"))?;
    ensure!(t.as_bytes() == &tb[..], "qb64 and qb64b differ");
    ensure!(b64safe(&tb), "text {} has other characters", show(&tb));
    let want = o::m_text(&w);
    ensure!(tb == want, "text of {} is {}, expected {}", showm(&Some(w.clone())), show(&tb), show(&want));
    ensure!(tb.len() == o::m_full(&w), "length {} of text, table says {}", tb.len(), o::m_full(&w));
    let f = m.full_size().map_err(|e| format!("full_size refused: {e}"))?;
    ensure!(f as usize == o::m_full(&w), "full_size {} expected {}", f, o::m_full(&w));
    let suffix = c.s(2);
    for t in [t.clone(), format!("{t}{suffix}")] {
        let a = res(<Mt as Matter>::new(None, None, None, Some(&t), None)).map(|x| mv(&x));
        ensure!(a.as_ref() == Some(&w), "text {} read back as {}, expected {}", show(t.as_bytes()), showm(&a), showm(&Some(w.clone())));
        let a = res(<Mt as Matter>::new(None, None, Some(t.as_bytes()), None, None)).map(|x| mv(&x));
        ensure!(a.as_ref() == Some(&w), "text bytes {} read back as {}, expected {}", show(t.as_bytes()), showm(&a), showm(&Some(w.clone())));
    }
    Ok(true)
}
fn ck_m_bin(c: &Case) -> Result<bool, String> {
    let (m, w) = match m_make(c)? {
        Some(x) => x,
        None => return Ok(false),
    };
    let b = m.qb2().map_err(|e| format!("qb2 of {} refused: {e}", showm(&Some(w.clone()))))?;
    let want = o::b64d(&o::m_text(&w)).unwrap();
    ensure!(b == want, "binary of {} is {}, expected {}", showm(&Some(w.clone())), hex(&b[..b.len().min(200)]), hex(&want[..want.len().min(200)]));
    let t = m.qb64().map_err(|e| format!("qb64 refused: {e}"))?;
    ensure!(o::b64d(t.as_bytes()) == Some(b.clone()), "binary is not the decoding of the text");
    let mut b2 = b.clone();
    b2.extend_from_slice(&c.b[2]);
    for b in [b, b2] {
        let a = res(<Mt as Matter>::new(None, None, None, None, Some(&b))).map(|x| mv(&x));
        ensure!(a.as_ref() == Some(&w), "binary {} read back as {}, expected {}", hex(&b[..b.len().min(200)]), showm(&a), showm(&Some(w.clone())));
    }
    Ok(true)
}
fn m_ser(m: &Mt, used: &[u8], bin: bool) -> Result<(), String> {
    if bin {
        let b = m.qb2().map_err(|e| format!("qb2 after parsing refused: {e}"))?;
        ensure!(b == used, "parsed {} but serialises as {}", hex(used), hex(&b));
        m.qb64().map_err(|e| format!("qb64 after parsing refused: {e}"))?;
    } else {
        let b = m.qb64b().map_err(|e| format!("qb64b after parsing refused: {e}"))?;
        ensure!(b == used, "parsed {} but serialises as {}", show(used), show(&b));
        m.qb2().map_err(|e| format!("qb2 after parsing refused: {e}"))?;
    }
    Ok(())
}
fn ck_m_parse(c: &Case) -> Result<bool, String> {
    let t = &c.b[0];
    let utf = std::str::from_utf8(t).ok();
    let want = o::m_parse(t);
    let got = res(<Mt as Matter>::new(None, None, Some(t), None, None));
    let g = got.as_ref().map(mv);
    let wb = if utf.is_some() { want.clone() } else { None };
    if utf.is_some() || want.is_none() {
        ensure!(g == wb, "text bytes {} gave {}, expected {}", show(t), showm(&g), showm(&wb));
    }
    if let Some(s) = utf {
        let gs = res(<Mt as Matter>::new(None, None, None, Some(s), None));
        let g2 = gs.as_ref().map(mv);
        ensure!(g2 == want, "text {} gave {}, expected {}", show(t), showm(&g2), showm(&want));
        if let (Some(gs), Some(w)) = (&gs, &want) {
            m_ser(gs, &t[..o::m_full(w)], false)?;
        }
    }
    Ok(want.is_some())
}
fn ck_m_bparse(c: &Case) -> Result<bool, String> {
    let b = &c.b[0];
    let want = o::m_bparse(b);
    let got = res(<Mt as Matter>::new(None, None, None, None, Some(b)));
    let g = got.as_ref().map(mv);
    ensure!(g == want, "binary {} gave {}, expected {}", hex(&b[..b.len().min(200)]), showm(&g), showm(&want));
    if let (Some(m), Some(w)) = (&got, &want) {
        m_ser(m, &b[..o::m_full(w) / 4 * 3], true)?;
    }
    Ok(want.is_some())
}
const BADCODES: &[&str] = &["", "a", "Z", "0", "1", "4", "7", "0Z", "4C", "1AAZ", "7AAC", "7AA", "-", "_", "é", "4é", "\u{1F600}", "9", "6Bx", "7BBA", "2AAB", "Ax", "4AA", "0AA", "4AAB", "7BAAA", "5", "8"];
fn rand_code(r: &mut Rng) -> String {
    if r.chance(12) {
        r.pick(BADCODES).to_string()
    } else if r.chance(40) {
        let n = 1 + r.below(4);
        r.b64(n)
    } else {
        r.pick(o::MATTER).0.to_string()
    }
}
fn lens(r: &mut Rng) -> usize {
    if let Some(n) = r.dint(8, 40000) { return n as usize; }
    match r.below(10) {
        0 => 3 * 4096 - 4 + r.below(9),
        1 => 3 * 64 - 4 + r.below(9),
        2 => r.below(3000),
        _ => r.below(100),
    }
}
pub fn suffix(r: &mut Rng) -> String {
    match r.below(6) {
        0 => "=".into(),
        1 => "é\u{1F600}".into(),
        2 => "\0\n".into(),
        3 => "{\"v\":1}".into(),
        _ => {
            let n = r.len(60);
            r.b64(n)
        }
    }
}
fn gen_m(kind: &'static str, r: &mut Rng, i: u64) -> Option<Case> {
    // every code once, then the sizes around the quadlet limits, then at random
    let n = o::MATTER.len() as u64;
    if i < 3 * n {
        let (c, _, _, fs) = o::MATTER[(i % n) as usize];
        let len = if fs == 0 { [0usize, 4096 * 3 - 1, 4096 * 3][(i / n) as usize] } else { o::m_raw_size(c).unwrap() + (i / n) as usize };
        let raw = match i / n {
            0 => vec![0xff; len],
            _ => r.bytes(len),
        };
        let s = suffix(r);
        return Some(Case::new(kind).b(c).b(raw).b(s));
    }
    let code = rand_code(r);
    let len = match o::m_raw_size(&code) {
        Some(k) => match r.below(5) {
            0 => k + r.below(4),
            1 => k.saturating_sub(1 + r.below(3)),
            _ => k,
        },
        None => lens(r),
    };
    let raw = r.bytes(len);
    let s = suffix(r);
    Some(Case::new(kind).b(code).b(raw).b(s))
}
// what a primitive says of itself
fn ck_flags(c: &Case) -> Result<bool, String> {
    let (m, w) = match m_make(c)? {
        Some(x) => x,
        None => return Ok(false),
    };
    let dig = ["E", "F", "G", "H", "I", "0D", "0E", "0F", "0G"].contains(&w.code.as_str());
    let non = ["B", "1AAA", "1AAC", "1AAI"].contains(&w.code.as_str());
    ensure!(m.digestive() == dig, "{} says it is {}a digest", w.code, if dig { "not " } else { "" });
    ensure!(m.transferable() != non, "{} says it is {}transferable", w.code, if non { "" } else { "not " });
    Ok(true)
}
fn gen_flags(r: &mut Rng, i: u64) -> Option<Case> {
    gen_m("flags", r, i)
}
fn gen_m_text(r: &mut Rng, i: u64) -> Option<Case> {
    gen_m("m_text", r, i)
}
fn gen_m_bin(r: &mut Rng, i: u64) -> Option<Case> {
    gen_m("m_bin", r, i).map(|mut c| {
        if r.chance(2) {
            let n = r.below(40);
            c.b[2] = r.bytes(n)
        }
        c
    })
}
/// near misses of well formed text
pub fn mutate(r: &mut Rng, mut t: Vec<u8>, cs: usize) -> Vec<u8> {
    let k = 1 + r.below(3);
    for _ in 0..k {
        if t.is_empty() {
            break;
        }
        let n = t.len();
        match r.below(12) {
            0 => {
                t.truncate(r.below(n + 1));
            }
            1 => {
                let p = r.below(n);
                t[p] = *r.pick(b"=+/ \0-_A~.\x7f\x80\xff");
            }
            2 => {
                let p = (cs + r.below(5)).min(n - 1);
                t[p] = *r.pick(o::ALPHA);
            }
            3 => {
                let p = n - 1 - r.below(n.min(4));
                t[p] = *r.pick(b"=A_Bc");
            }
            4 => {
                let p = r.below(n.min(8));
                t[p] = *r.pick(o::ALPHA);
            }
            5 => {
                let p = r.below(n + 1);
                let ins = *r.pick(&["é", "=", "A", "\u{1F600}", "AAAA"]);
                t.splice(p..p, ins.bytes());
            }
            6 => {
                let p = r.below(n);
                t.remove(p);
            }
            7 => {
                let p = r.below(n.min(6));
                t.splice(p..(p + 2).min(n), "é".bytes());
            }
            8 => {
                let s = suffix(r);
                t.extend(s.bytes());
            }
            9 => {
                // a character of four bytes across the first code positions
                let p = r.below(n.min(4));
                t.splice(p..(p + 4).min(n), "\u{1F600}".bytes());
            }
            10 => {
                // set a bit of the character just after the code: pad bits or lead byte
                let p = cs.min(n - 1);
                let v = o::idx(t[p]).unwrap_or(0) | 1 << r.below(6);
                t[p] = o::ALPHA[v as usize];
            }
            _ => {}
        }
    }
    t
}
fn m_valid(r: &mut Rng) -> (Vec<u8>, usize) {
    let (c, ss, _, fs) = *r.pick(o::MATTER);
    let n = if fs == 0 { if r.chance(20) { lens(r) } else { r.below(40) } } else { o::m_raw_size(c).unwrap() };
    let raw = r.bytes(n);
    let m = o::m_new(c, &raw).unwrap();
    (o::m_text(&m), c.len() + ss)
}
fn gen_m_parse(r: &mut Rng, i: u64) -> Option<Case> {
    if i < 128 * 3 {
        let mut t = vec![(i % 128) as u8];
        t.extend(vec![b'A'; [0usize, 3, 200][(i / 128) as usize]]);
        return Some(Case::new("m_parse").b(t));
    }
    if i < 384 + 64 * 8 {
        // every code followed by nothing but its own material with one bit set at the head
        let k = (i - 384) as usize;
        let (c, ss, _, fs) = o::MATTER[k % 64 % o::MATTER.len()];
        let n = if fs == 0 { 6 } else { o::m_raw_size(c).unwrap() };
        let m = o::m_new(c, &vec![0u8; n]).unwrap();
        let mut t = o::m_text(&m);
        let p = (c.len() + ss + (k / 64) / 6).min(t.len() - 1);
        t[p] = o::ALPHA[1 << (k / 64 % 6)];
        return Some(Case::new("m_parse").b(t));
    }
    let (t, cs) = m_valid(r);
    let t = if r.chance(30) { (0..r.below(60)).map(|_| r.next() as u8).collect() } else if r.chance(10) { t } else { mutate(r, t, cs) };
    Some(Case::new("m_parse").b(t))
}
pub fn bmutate(r: &mut Rng, mut b: Vec<u8>, cs: usize) -> Vec<u8> {
    for _ in 0..1 + r.below(2) {
        let n = b.len();
        if n == 0 {
            break;
        }
        match r.below(6) {
            0 => b.truncate(r.below(n + 1)),
            1 => {
                let p = r.below(n);
                b[p] ^= 1 << r.below(8);
            }
            2 => {
                let p = (cs * 3 / 4 + r.below(3)).min(n - 1);
                b[p] ^= 1 << r.below(8);
            }
            3 => {
                let p = r.below(n.min(4));
                b[p] = r.next() as u8;
            }
            4 => b.extend((0..r.below(9)).map(|_| r.next() as u8)),
            _ => {
                b.pop();
            }
        }
    }
    b
}
fn gen_m_bparse(r: &mut Rng, i: u64) -> Option<Case> {
    if i < 768 {
        let mut t = vec![(i % 256) as u8];
        t.extend(vec![0u8; [0usize, 2, 200][(i / 256) as usize]]);
        return Some(Case::new("m_bparse").b(t));
    }
    let (t, cs) = m_valid(r);
    let b = o::b64d(&t).unwrap();
    let b = if r.chance(30) { (0..r.below(60)).map(|_| r.next() as u8).collect() } else if r.chance(10) { b } else { bmutate(r, b, cs) };
    Some(Case::new("m_bparse").b(b))
}
/// material longer than the small table can hold; the largest sizes once
fn gen_m_big(r: &mut Rng, i: u64) -> Option<Case> {
    if i >= 4 {
        return None;
    }
    let len = [3 * (1usize << 24) - 1, 3 * (1usize << 24), 3 * (1usize << 18) + 1, 3 * ((1usize << 24) - 1)][i as usize];
    let c = *r.pick(&["4A", "5B", "6A", "7AAA", "8AAB", "9AAA"]);
    Some(Case::new("m_big").b(c).b(vec![]).b("").n(len as u64))
}
fn ck_m_big(c: &Case) -> Result<bool, String> {
    let len = c.n[0] as usize;
    let raw: Vec<u8> = (0..len).map(|i| (i * 7 + i / 251) as u8).collect();
    let mut c2 = c.clone();
    c2.b[1] = raw;
    let a = ck_m_text(&c2)?;
    ck_m_bin(&c2)?;
    Ok(a)
}

// ---- Indexer -----------------------------------------------------------------------------
fn i_args(c: &Case) -> (String, u32, Option<u32>) {
    (c.s(0), c.n[0] as u32, if c.n[1] == 0 { None } else { Some((c.n[1] - 1) as u32) })
}
/// lengths beyond this are left to the contracts: "0z" declares 4 * index characters
fn ck_i_rt(c: &Case) -> Result<bool, String> {
    let (code, index, ondex) = i_args(c);
    let raw = &c.b[1];
    let want = o::i_new(&code, raw, index, ondex);
    let got = res(<It as Indexer>::new(Some(index), ondex, Some(&code), Some(raw), None, None, None));
    let g = got.as_ref().map(iv);
    ensure!(g == want, "new(code {code:?}, raw of {} bytes, index {index}, ondex {ondex:?}) gave {}, expected {}", raw.len(), showi(&g), showi(&want));
    let (m, w) = match (got, want) {
        (Some(g), Some(w)) => (g, w),
        _ => return Ok(false),
    };
    let d = showi(&Some(w.clone()));
    let t = m.qb64().map_err(|e| format!("qb64 of {d} refused: {e}"))?;
    let tb = m.qb64b().map_err(|e| format!("qb64b refused: {e}"))?;
    let want = o::i_text(&w);
    ensure!(t.as_bytes() == &tb[..], "qb64 and qb64b differ");
    ensure!(tb == want, "text of {d} is {}, expected {}", show(&tb), show(&want));
    let f = m.full_size().map_err(|e| format!("full_size refused: {e}"))?;
    ensure!(f as usize == want.len(), "full_size {} expected {}", f, want.len());
    let b = m.qb2().map_err(|e| format!("qb2 of {d} refused: {e}"))?;
    ensure!(Some(&b) == o::b64d(&want).as_ref(), "binary of {d} is {}, expected the decoding of {}", hex(&b), show(&want));
    let s = c.s(2);
    for t in [t.clone(), format!("{t}{s}")] {
        let a = res(<It as Indexer>::new(None, None, None, None, None, Some(&t), None)).map(|x| iv(&x));
        ensure!(a.as_ref() == Some(&w), "text {} read back as {}, expected {d}", show(t.as_bytes()), showi(&a));
        let a = res(<It as Indexer>::new(None, None, None, None, Some(t.as_bytes()), None, None)).map(|x| iv(&x));
        ensure!(a.as_ref() == Some(&w), "text bytes {} read back as {}, expected {d}", show(t.as_bytes()), showi(&a));
    }
    let mut b2 = b.clone();
    b2.extend_from_slice(&c.b[2]);
    for b in [b, b2] {
        let a = res(<It as Indexer>::new(None, None, None, None, None, None, Some(&b))).map(|x| iv(&x));
        ensure!(a.as_ref() == Some(&w), "binary {} read back as {}, expected {d}", hex(&b), showi(&a));
    }
    Ok(true)
}
fn i_raw_size(code: &str, index: u32) -> Option<usize> {
    let z = o::isz(code.as_bytes())?.0;
    let cs = z.hs + z.ss;
    let fs = z.fs.unwrap_or(cs + 4 * (index as usize).min(5000));
    Some((fs - cs) * 3 / 4 - z.ls)
}
fn gen_idx(r: &mut Rng, code: &str) -> u32 {
    let z = o::isz(code.as_bytes());
    let top = z.map_or(64, |z| 64u64.pow((z.0.ss - z.0.os) as u32));
    match r.below(6) {
        0 => (top - 1) as u32,
        1 => top.min(u32::MAX as u64) as u32,
        2 => r.num(32) as u32,
        _ => (r.num(32) as u64 % top) as u32,
    }
}
fn gen_i_rt(r: &mut Rng, i: u64) -> Option<Case> {
    let n = o::INDEXER.len() as u64;
    let code = if i < 8 * n { o::INDEXER[(i % n) as usize].0.to_string() } else if r.chance(15) { r.pick(&["", "a", "Z", "0C", "4A", "é", "0", "3z", "1A", "2G", "-", "0é", "5A", "G"]).to_string() } else { r.pick(o::INDEXER).0.to_string() };
    let mut index = match i / n {
        0 if i < 8 * n => 0,
        1 if i < 8 * n => 1,
        _ => gen_idx(r, &code),
    };
    if code == "0z" && index > 4096 {
        index %= 4097;
    }
    let ondex = match r.below(4) {
        0 | 1 => None,
        2 => Some(index),
        _ => {
            let z = o::isz(code.as_bytes());
            let top = z.map_or(64, |z| 64u64.pow(z.0.os.max(1) as u32));
            Some(match r.below(5) {
                0 => 0,
                1 => top as u32,
                2 => (top - 1) as u32,
                _ => (r.num(32) as u64 % top) as u32,
            })
        }
    };
    let k = i_raw_size(&code, index).unwrap_or(64);
    let k = match r.below(6) {
        0 => k + r.below(4),
        1 => k.saturating_sub(1 + r.below(3)),
        _ => k,
    };
    let raw = r.bytes(k);
    let s = suffix(r);
    Some(Case::new("i_rt").b(code).b(raw).b(s).n(index).n(ondex.map_or(0, |x| x as u64 + 1)))
}
fn i_valid(r: &mut Rng) -> (Vec<u8>, usize) {
    let (c, ss, os, _, _, k) = *r.pick(o::INDEXER);
    let mut index = (r.num(32) as u64 % 64u64.pow((ss - os) as u32)) as u32;
    if c == "0z" {
        index %= 50;
    }
    let ondex = if k == 'c' {
        0
    } else if os > 0 {
        (r.num(32) as u64 % 64u64.pow(os as u32)) as u32
    } else {
        index
    };
    let raw = r.bytes(i_raw_size(c, index).unwrap());
    (o::i_text(&I { code: c.into(), index, ondex, raw }), c.len() + ss)
}
fn gen_i_parse(r: &mut Rng, i: u64) -> Option<Case> {
    if i < 384 {
        let mut t = vec![(i % 128) as u8];
        t.extend(vec![b'A'; [0usize, 3, 200][(i / 128) as usize]]);
        return Some(Case::new("i_parse").b(t));
    }
    let (t, cs) = i_valid(r);
    let t = if r.chance(30) {
        (0..r.below(60)).map(|_| r.next() as u8).collect()
    } else if r.chance(10) {
        t
    } else if r.chance(5) {
        // bits at the head of the material, and in the index characters
        let mut t = t;
        let p = (cs - r.below(cs.min(4)) + r.below(3)).min(t.len() - 1);
        t[p] = *r.pick(o::ALPHA);
        t
    } else {
        mutate(r, t, cs)
    };
    Some(Case::new("i_parse").b(t))
}
fn gen_i_bparse(r: &mut Rng, i: u64) -> Option<Case> {
    if i < 768 {
        let mut t = vec![(i % 256) as u8];
        t.extend(vec![0u8; [0usize, 2, 200][(i / 256) as usize]]);
        return Some(Case::new("i_bparse").b(t));
    }
    let (t, cs) = i_valid(r);
    let b = o::b64d(&t).unwrap();
    let b = if r.chance(30) { (0..r.below(60)).map(|_| r.next() as u8).collect() } else if r.chance(10) { b } else { bmutate(r, b, cs) };
    Some(Case::new("i_bparse").b(b))
}
fn ck_i_parse(c: &Case) -> Result<bool, String> {
    let t = &c.b[0];
    let want = o::i_parse(t);
    let got = res(<It as Indexer>::new(None, None, None, None, Some(t), None, None)).map(|x| iv(&x));
    if let Ok(s) = std::str::from_utf8(t) {
        ensure!(got == want, "text bytes {} gave {}, expected {}", show(t), showi(&got), showi(&want));
        let m = res(<It as Indexer>::new(None, None, None, None, None, Some(s), None));
        let g = m.as_ref().map(iv);
        ensure!(g == want, "text {} gave {}, expected {}", show(t), showi(&g), showi(&want));
        if let Some(m) = m {
            let q = m.qb64b().map_err(|e| format!("qb64b after parsing refused: {e}"))?;
            ensure!(t.starts_with(&q), "parsed {} but serialises as {}", show(t), show(&q));
            m.qb2().map_err(|e| format!("qb2 after parsing refused: {e}"))?;
        }
    } else if want.is_none() {
        ensure!(got.is_none(), "text bytes {} gave {}", show(t), showi(&got));
    }
    Ok(want.is_some())
}
fn ck_i_bparse(c: &Case) -> Result<bool, String> {
    let b = &c.b[0];
    let want = o::i_bparse(b);
    let m = res(<It as Indexer>::new(None, None, None, None, None, None, Some(b)));
    let g = m.as_ref().map(iv);
    ensure!(g == want, "binary {} gave {}, expected {}", hex(b), showi(&g), showi(&want));
    if let Some(m) = m {
        let q = m.qb2().map_err(|e| format!("qb2 after parsing refused: {e}"))?;
        ensure!(b.starts_with(&q), "parsed {} but serialises as {}", hex(b), hex(&q));
        m.qb64().map_err(|e| format!("qb64 after parsing refused: {e}"))?;
    }
    Ok(want.is_some())
}

// ---- Counter -----------------------------------------------------------------------------
fn cv(c: &Counter) -> (String, u32) {
    (c.code(), c.count())
}
fn ck_c_rt(c: &Case) -> Result<bool, String> {
    let code = c.s(0);
    let count = c.n[0] as u32;
    let want = o::COUNTER.iter().find(|x| x.0 == code).is_some_and(|x| (count as u64) < 64u64.pow(x.1 as u32));
    let got = res(Counter::new_with_code_and_count(&code, count));
    ensure!(got.is_some() == want, "counter {code:?} {count}: {}", if want { "refused" } else { "accepted" });
    let got2 = res(Counter::new(Some(count), None, Some(&code), None, None, None));
    ensure!(got.as_ref().map(cv) == got2.as_ref().map(cv), "constructors disagree");
    let k = match got {
        Some(k) => k,
        None => return Ok(false),
    };
    let w = (code.clone(), count);
    ensure!(cv(&k) == w, "counter made from {w:?} is {:?}", cv(&k));
    let t = k.qb64().map_err(|e| format!("qb64 refused: {e}"))?;
    let want = o::c_text(&code, count);
    ensure!(t.as_bytes() == &want[..] && k.qb64b().ok().as_ref() == Some(&want), "text of {w:?} is {t:?}, expected {}", show(&want));
    let b = k.qb2().map_err(|e| format!("qb2 refused: {e}"))?;
    ensure!(Some(&b) == o::b64d(&want).as_ref(), "binary of {w:?} is {}", hex(&b));
    ensure!(k.full_size().ok() == Some(want.len()), "full size of {w:?} is {:?}", k.full_size());
    let ss = want.len() - code.len();
    ensure!(k.count_as_b64(ss).ok().map(|x| x.into_bytes()) == Some(o::enc(count as u128, ss)), "count_as_b64 of {w:?}");
    let s = c.s(1);
    for t in [t.clone(), format!("{t}{s}")] {
        let a = res(Counter::new_with_qb64(&t)).map(|x| cv(&x));
        ensure!(a.as_ref() == Some(&w), "text {t:?} read back as {a:?}, expected {w:?}");
        let a = res(Counter::new_with_qb64b(t.as_bytes())).map(|x| cv(&x));
        ensure!(a.as_ref() == Some(&w), "text bytes {t:?} read back as {a:?}, expected {w:?}");
    }
    let mut b2 = b.clone();
    b2.extend_from_slice(&c.b[1]);
    for b in [b, b2] {
        let a = res(Counter::new_with_qb2(&b)).map(|x| cv(&x));
        ensure!(a.as_ref() == Some(&w), "binary {} read back as {a:?}, expected {w:?}", hex(&b));
    }
    Ok(true)
}
const BADC: &[&str] = &["", "-", "--", "-M", "-a", "-0", "-0A", "A", "--AAB", "-0VA", "é", "-é", "--A", "-W", "--é", "-Z", "0V"];
fn gen_c_rt(r: &mut Rng, i: u64) -> Option<Case> {
    let n = o::COUNTER.len() as u64;
    let code = if i < 6 * n { o::COUNTER[(i % n) as usize].0.to_string() } else if r.chance(10) { r.pick(BADC).to_string() } else { r.pick(o::COUNTER).0.to_string() };
    let top = o::COUNTER.iter().find(|x| x.0 == code).map_or(4096, |x| 64u64.pow(x.1 as u32));
    let count = match if i < 6 * n { i / n } else { 6 } {
        0 => 0,
        1 => top - 1,
        2 => top,
        3 => u32::MAX as u64,
        _ => {
            if r.chance(4) {
                r.num(32) as u64
            } else {
                r.num(32) as u64 % top
            }
        }
    };
    let s = suffix(r);
    Some(Case::new("c_rt").b(code).b(s).n(count.min(u32::MAX as u64)))
}
fn gen_c_parse(r: &mut Rng, i: u64) -> Option<Case> {
    if i < 128 * 6 {
        let mut t = if i % 2 == 0 { b"-".to_vec() } else { b"--".to_vec() };
        if i >= 128 * 4 {
            t.clear();
        }
        t.push((i / 2 % 128) as u8);
        t.extend(vec![b'B'; [0usize, 2, 8][(i / 256) as usize % 3]]);
        return Some(Case::new("c_parse").b(t));
    }
    let (c, ss) = *r.pick(o::COUNTER);
    let top = 64u128.pow(ss as u32);
    let t = o::c_text(c, (r.num(32) % top) as u32);
    let t = if r.chance(20) {
        let n = r.below(10);
        r.b64(n).into_bytes()
    } else if r.chance(8) {
        t
    } else {
        mutate(r, t, c.len())
    };
    Some(Case::new("c_parse").b(t))
}
fn gen_c_bparse(r: &mut Rng, i: u64) -> Option<Case> {
    if i < 1024 {
        // every counter code character, short and long
        let mut t = b"-".to_vec();
        t.push(o::ALPHA[(i % 64) as usize]);
        t.extend(vec![b'B'; 10]);
        let mut b = o::b64d(&t).unwrap();
        b.truncate((i / 64) as usize % 10);
        return Some(Case::new("c_bparse").b(b));
    }
    let (c, ss) = *r.pick(o::COUNTER);
    let top = 64u128.pow(ss as u32);
    let b = o::b64d(&o::c_text(c, (r.num(32) % top) as u32)).unwrap();
    let b = if r.chance(20) {
        let n = r.below(12);
        (0..n).map(|_| r.next() as u8).collect()
    } else if r.chance(8) {
        b
    } else {
        bmutate(r, b, c.len())
    };
    Some(Case::new("c_bparse").b(b))
}
fn ck_c_parse(c: &Case) -> Result<bool, String> {
    let t = &c.b[0];
    let want = o::c_parse(t);
    let got = res(Counter::new_with_qb64b(t)).map(|x| cv(&x));
    if let Ok(s) = std::str::from_utf8(t) {
        ensure!(got == want, "text bytes {} gave {got:?}, expected {want:?}", show(t));
        let k = res(Counter::new_with_qb64(s));
        let g = k.as_ref().map(cv);
        ensure!(g == want, "text {} gave {g:?}, expected {want:?}", show(t));
        if let Some(k) = k {
            let q = k.qb64b().map_err(|e| format!("qb64b after parsing refused: {e}"))?;
            ensure!(t.starts_with(&q), "parsed {} but serialises as {}", show(t), show(&q));
            k.qb2().map_err(|e| format!("qb2 after parsing refused: {e}"))?;
        }
    } else if want.is_none() {
        ensure!(got.is_none(), "text bytes {} gave {got:?}", show(t));
    }
    Ok(want.is_some())
}
fn ck_c_bparse(c: &Case) -> Result<bool, String> {
    let b = &c.b[0];
    let want = o::c_bparse(b);
    let k = res(Counter::new_with_qb2(b));
    let g = k.as_ref().map(cv);
    ensure!(g == want, "binary {} gave {g:?}, expected {want:?}", hex(b));
    if let Some(k) = k {
        let q = k.qb2().map_err(|e| format!("qb2 after parsing refused: {e}"))?;
        ensure!(b.starts_with(&q), "parsed {} but serialises as {}", hex(b), hex(&q));
        k.qb64().map_err(|e| format!("qb64 after parsing refused: {e}"))?;
    }
    Ok(want.is_some())
}
fn part(p: &str) -> Option<u8> {
    // a decimal number of at most 63, as u8::from_str reads it (a leading '+' is allowed)
    let d = p.strip_prefix('+').unwrap_or(p);
    if d.is_empty() || !d.bytes().all(|c| c.is_ascii_digit()) {
        return None;
    }
    let n = d.bytes().fold(0u64, |a, c| (a * 10 + (c - b'0') as u64).min(1 << 40));
    if n < 64 {
        Some(n as u8)
    } else {
        None
    }
}
fn ck_semver(c: &Case) -> Result<bool, String> {
    let p: Vec<u8> = c.n.iter().map(|x| *x as u8).collect();
    let want = if p.iter().all(|x| *x < 64) { Some(p.iter().map(|x| o::ALPHA[*x as usize] as char).collect::<String>()) } else { None };
    let g = res(Counter::sem_ver_to_b64(p[0], p[1], p[2]));
    ensure!(g == want, "version parts {p:?} gave {g:?}, expected {want:?}");
    let s = format!("{}.{}.{}", p[0], p[1], p[2]);
    let g = res(Counter::sem_ver_str_to_b64(&s));
    ensure!(g == want, "version {s:?} gave {g:?}, expected {want:?}");
    Ok(want.is_some())
}
fn gen_semver(r: &mut Rng, i: u64) -> Option<Case> {
    let v = |r: &mut Rng| if r.chance(3) { 62 + r.below(4) as u64 } else { r.num(8) as u64 };
    let mut c = Case::new("semver");
    let k = i % 9;
    for j in 0..3 {
        let x = if i < 9 && k / 3 == j { [63u64, 64, 255][(k % 3) as usize] } else { v(r) };
        c = c.n(x);
    }
    Some(c)
}
/// text versions: "1.2.3"; any part that is not a number of at most 63 is refused. What the
/// function does with fewer or more than three parts is left open except that three characters come out.
fn ck_semstr(c: &Case) -> Result<bool, String> {
    let s = c.s(0);
    let g = res(Counter::sem_ver_str_to_b64(&s));
    let ps: Vec<&str> = s.split('.').collect();
    if ps.len() == 3 && ps.iter().all(|p| !p.is_empty()) {
        let w: Option<Vec<u8>> = ps.iter().map(|p| part(p)).collect();
        let want = w.map(|w| w.iter().map(|x| o::ALPHA[*x as usize] as char).collect::<String>());
        ensure!(g == want, "version {s:?} gave {g:?}, expected {want:?}");
    } else if let Some(g) = g {
        ensure!(g.len() == 3 && b64safe(g.as_bytes()), "version {s:?} gave {g:?}");
    }
    Ok(true)
}
fn gen_semstr(r: &mut Rng, _i: u64) -> Option<Case> {
    let mut ps = vec![];
    for _ in 0..(if r.chance(6) { r.below(5) } else { 3 }) {
        ps.push(match r.below(8) {
            0 => "-1".to_string(),
            1 => "x".to_string(),
            2 => "".to_string(),
            3 => format!("{}", 60 + r.below(8)),
            4 => format!("{}", 250 + r.below(20)),
            5 => "007".into(),
            _ => format!("{}", r.below(64)),
        });
    }
    Some(Case::new("semstr").b(ps.join(".")))
}

// ---- util and tables (hooks) --------------------------------------------------------------
#[cfg(keride_verif)]
mod hooked {
    use super::*;
    use keride::cesr::verif as v;
    pub fn ck_u_enc(c: &Case) -> Result<bool, String> {
        let (n, len) = (c.n[0], c.n[1] as usize);
        let fits = len as u32 * 6 >= 128 || n < 1u128 << (6 * len);
        if !fits {
            return Ok(false);
        }
        let want = String::from_utf8(o::enc(n, len)).unwrap();
        if n <= u32::MAX as u128 {
            let g = v::util::u32_to_b64(n as u32, len);
            ensure!(g.as_ref().ok() == Some(&want), "u32_to_b64({n}, {len}) gave {g:?}, expected {want:?}");
            let d = v::util::b64_to_u32(&want);
            ensure!(d.as_ref().ok() == Some(&(n as u32)), "b64_to_u32({want:?}) gave {d:?}");
        }
        let g = v::util::u64_to_b64(n as u64, len);
        ensure!(g.as_ref().ok() == Some(&want), "u64_to_b64({n}, {len}) gave {g:?}, expected {want:?}");
        let d = v::util::b64_to_u64(&want);
        ensure!(d.as_ref().ok() == Some(&(n as u64)), "b64_to_u64({want:?}) gave {d:?}");
        Ok(true)
    }
    pub fn gen_u_enc(r: &mut Rng, i: u64) -> Option<Case> {
        let n = match i {
            0..=639 => {
                let k = i / 10;
                (1u128 << k).wrapping_sub((i % 10 < 5) as u128) & u64::MAX as u128
            }
            _ => {
                let bits = if r.chance(2) { 32 } else { 64 };
                r.num(bits)
            }
        };
        let need = (0..).find(|l| *l >= 22 || n < 1u128 << (6 * l)).unwrap() as usize;
        let len = if i < 640 { need.max(1) + (i % 5) as usize } else { need + r.below(6) };
        Some(Case::new("u_enc").n(n).n(len as u64))
    }
    pub fn ck_u_dec(c: &Case) -> Result<bool, String> {
        let t = c.s(0);
        let n = o::int(t.as_bytes());
        // int overflows u128 only for values far beyond 64 bits
        let w32 = n.filter(|x| *x <= u32::MAX as u128).map(|x| x as u32);
        let w64 = n.filter(|x| *x <= u64::MAX as u128).map(|x| x as u64);
        let g = v::util::b64_to_u32(&t).ok();
        ensure!(g == w32, "b64_to_u32({t:?}) gave {g:?}, expected {w32:?}");
        let g = v::util::b64_to_u64(&t).ok();
        ensure!(g == w64, "b64_to_u64({t:?}) gave {g:?}, expected {w64:?}");
        Ok(w64.is_some())
    }
    pub fn gen_u_dec(r: &mut Rng, i: u64) -> Option<Case> {
        if i < 40 {
            let k = (i / 2) as usize;
            return Some(Case::new("u_dec").b(if i % 2 == 0 { "_".repeat(k) } else { format!("B{}", "A".repeat(k)) }));
        }
        let l = r.below(14);
        let mut t = r.b64(l);
        if r.chance(3) {
            t = format!("{}{t}", "A".repeat(r.below(8)));
        }
        if r.chance(3) {
            let mut b: Vec<char> = t.chars().collect();
            if !b.is_empty() {
                let p = r.below(b.len());
                b[p] = *r.pick(&['=', '+', '/', ' ', 'é', '\u{1F600}', '\0', '.', ',', '\u{100}', '\u{141}']);
            }
            t = b.into_iter().collect();
        }
        Some(Case::new("u_dec").b(t))
    }
    pub fn ck_u_code(c: &Case) -> Result<bool, String> {
        let t = c.s(0);
        let len = t.len();
        let mut want = t.as_bytes().to_vec();
        while want.len() % 4 != 0 {
            want.push(b'A');
        }
        let mut want = o::b64d(&want).unwrap();
        want.truncate((len * 3).div_ceil(4));
        let g = v::util::code_b64_to_b2(&t);
        ensure!(g.as_ref().ok() == Some(&want), "code_b64_to_b2({t:?}) gave {g:?}, expected {want:?}");
        let mut ext = want.clone();
        // whatever the unused low bits of the last byte are
        if let Some(x) = ext.last_mut() {
            *x |= (c.n[0] as u8) & ((1u16 << ((8 - 6 * len % 8) % 8)) - 1) as u8;
        }
        ext.extend_from_slice(&c.b[1]);
        let six: Vec<u8> = t.bytes().map(|x| o::idx(x).unwrap() as u8).collect();
        for b in [&want, &ext] {
            if len <= 8 {
                let g = v::util::code_b2_to_b64(b, len);
                ensure!(g.as_ref().ok() == Some(&t), "code_b2_to_b64({}, {len}) gave {g:?}, expected {t:?}", hex(b));
            }
            let g = v::util::nab_sextets(b, len);
            ensure!(g.as_ref().ok() == Some(&six), "nab_sextets({}, {len}) gave {g:?}, expected {six:?}", hex(b));
        }
        let short = &want[..want.len() - 1];
        ensure!(v::util::nab_sextets(short, len).is_err(), "nab_sextets of {} bytes for {len} sextets accepted", short.len());
        ensure!(v::util::code_b2_to_b64(short, len).is_err(), "code_b2_to_b64 of {} bytes for {len} characters accepted", short.len());
        Ok(true)
    }
    pub fn gen_u_code(r: &mut Rng, i: u64) -> Option<Case> {
        let len = if i < 40 { 1 + (i % 10) as usize } else { 1 + r.below(10) };
        let t = if i < 10 { "_".repeat(len) } else if i < 20 { "A".repeat(len) } else { r.b64(len) };
        let n = r.below(5);
        let x = r.bytes(n);
        Some(Case::new("u_code").b(t).b(x).n(r.next() & 255))
    }
    pub fn ck_u_char(c: &Case) -> Result<bool, String> {
        let ch = char::from_u32(c.n[0] as u32);
        if let Some(ch) = ch {
            let want = if ch.is_ascii() { o::idx(ch as u8).map(|x| x as u8) } else { None };
            let g = v::util::b64_char_to_index(ch).ok();
            ensure!(g == want, "b64_char_to_index({ch:?}) gave {g:?}, expected {want:?}");
        }
        if c.n[0] < 256 {
            let i = c.n[0] as u8;
            let want = o::ALPHA.get(i as usize).map(|x| *x as char);
            let g = v::util::b64_index_to_char(i).ok();
            ensure!(g == want, "b64_index_to_char({i}) gave {g:?}, expected {want:?}");
        }
        Ok(true)
    }
    pub fn gen_u_char(_r: &mut Rng, i: u64) -> Option<Case> {
        if i < 0x110000 {
            Some(Case::new("u_char").n(i))
        } else {
            None
        }
    }
    /// the tables against the published ones, and their internal consistency
    pub fn ck_table(c: &Case) -> Result<bool, String> {
        let code = c.s(0);
        let which = c.n[0];
        match which {
            0 => {
                let g = v::matter_sizage(&code).ok();
                let w = o::msz(code.as_bytes()).map(|z| [z.hs as u32, z.ss as u32, z.fs.map_or(u32::MAX, |x| x as u32), z.ls as u32]);
                ensure!(g == w, "matter sizage({code:?}) gave {g:?}, expected {w:?}");
                let r = v::matter_raw_size(&code).ok();
                let w2 = o::m_raw_size(&code).map(|x| x as u32);
                ensure!(r == w2, "raw_size({code:?}) gave {r:?}, expected {w2:?}");
            }
            1 => {
                let g = v::indexer_sizage(&code).ok();
                let w = o::isz(code.as_bytes()).map(|(z, _)| [z.hs as u32, z.ss as u32, z.os as u32, z.fs.map_or(u32::MAX, |x| x as u32), z.ls as u32]);
                ensure!(g == w, "indexer sizage({code:?}) gave {g:?}, expected {w:?}");
            }
            _ => {
                let g = v::counter_sizage(&code).ok();
                let w = o::COUNTER.iter().find(|x| x.0 == code).map(|x| [x.0.len() as u32, x.1 as u32, (x.0.len() + x.1) as u32, 0]);
                ensure!(g == w, "counter sizage({code:?}) gave {g:?}, expected {w:?}");
            }
        }
        if let Some(ch) = code.chars().next() {
            let ix = if ch.is_ascii() { o::idx(ch as u8) } else { None };
            match which {
                0 => {
                    let g = v::matter_hardage(ch).ok();
                    let w = if ch.is_ascii() { o::mhard(ch as u8).map(|x| x as u32) } else { None };
                    ensure!(g == w, "matter hardage({ch:?}) gave {g:?}, expected {w:?}");
                    if let Some(ix) = ix {
                        let g = v::matter_bardage(ix as u8).ok();
                        ensure!(g == w, "matter bardage({ix}) gave {g:?}, expected {w:?}");
                    }
                }
                1 => {
                    let g = v::indexer_hardage(ch).ok();
                    let w = if ch.is_ascii() { o::ihard(ch as u8).map(|x| x as u32) } else { None };
                    ensure!(g == w, "indexer hardage({ch:?}) gave {g:?}, expected {w:?}");
                    if let Some(ix) = ix {
                        let g = v::indexer_bardage(ix as u8).ok();
                        ensure!(g == w, "indexer bardage({ix}) gave {g:?}, expected {w:?}");
                    }
                }
                _ => {
                    if code.len() == 2 && b64safe(code.as_bytes()) {
                        let b = code.as_bytes();
                        let w = match &code[..] {
                            "-0" => Some(3),
                            "--" => Some(5),
                            c if o::COUNTER.iter().any(|x| x.0 == c) => Some(2),
                            _ => None,
                        };
                        let g = v::counter_hardage(&code).ok();
                        ensure!(g == w, "counter hardage({code:?}) gave {g:?}, expected {w:?}");
                        let b2: Vec<u8> = b.iter().map(|x| o::idx(*x).unwrap() as u8).collect();
                        let g = v::counter_bardage(&b2).ok();
                        ensure!(g == w, "counter bardage({b2:?}) gave {g:?}, expected {w:?}");
                    }
                }
            }
        }
        Ok(true)
    }
    pub fn gen_table(r: &mut Rng, i: u64) -> Option<Case> {
        let w = i % 3;
        let j = (i / 3) as usize;
        let c = match j {
            0..=63 => match w {
                0 => o::MATTER[j % o::MATTER.len()].0.to_string(),
                1 => o::INDEXER[j % o::INDEXER.len()].0.to_string(),
                _ => o::COUNTER[j % o::COUNTER.len()].0.to_string(),
            },
            64..=319 => char::from_u32((j - 64) as u32).unwrap().to_string(),
            320..=4415 => {
                let k = j - 320;
                format!("{}{}", o::ALPHA[k / 64] as char, o::ALPHA[k % 64] as char)
            }
            _ => {
                let n = 1 + r.below(5);
                let mut t = r.b64(n);
                if r.chance(2) {
                    t = format!("{}{t}", r.pick(&["1AA", "7AA", "8AA", "9AA", "--AA", "-0", "0", "2A", "3AA"]));
                }
                t
            }
        };
        Some(Case::new("table").b(c).n(w))
    }
}

pub fn kinds() -> Vec<Kind> {
    let mut k = vec![
        Kind { name: "m_text", props: &["C01", "C19", "C24"], check: ck_m_text, gen: gen_m_text, weight: 10 },
        Kind { name: "m_bin", props: &["C02", "C19"], check: ck_m_bin, gen: gen_m_bin, weight: 10 },
        Kind { name: "m_parse", props: &["C03", "C19", "C01"], check: ck_m_parse, gen: gen_m_parse, weight: 10 },
        Kind { name: "m_bparse", props: &["C03", "C19", "C02"], check: ck_m_bparse, gen: gen_m_bparse, weight: 10 },
        Kind { name: "flags", props: &["C11"], check: ck_flags, gen: gen_flags, weight: 1 },
        Kind { name: "m_big", props: &["C01", "C02"], check: ck_m_big, gen: gen_m_big, weight: 1 },
        Kind { name: "i_rt", props: &["C04", "C19", "C24"], check: ck_i_rt, gen: gen_i_rt, weight: 10 },
        Kind { name: "i_parse", props: &["C05", "C19"], check: ck_i_parse, gen: gen_i_parse, weight: 10 },
        Kind { name: "i_bparse", props: &["C05", "C19"], check: ck_i_bparse, gen: gen_i_bparse, weight: 10 },
        Kind { name: "c_rt", props: &["C06", "C19", "C24"], check: ck_c_rt, gen: gen_c_rt, weight: 5 },
        Kind { name: "c_parse", props: &["C06", "C19"], check: ck_c_parse, gen: gen_c_parse, weight: 5 },
        Kind { name: "c_bparse", props: &["C06", "C19"], check: ck_c_bparse, gen: gen_c_bparse, weight: 5 },
        Kind { name: "semver", props: &["C06", "C19"], check: ck_semver, gen: gen_semver, weight: 2 },
        Kind { name: "semstr", props: &["C06", "C19"], check: ck_semstr, gen: gen_semstr, weight: 2 },
    ];
    #[cfg(keride_verif)]
    {
        use hooked::*;
        k.push(Kind { name: "u_enc", props: &["C07"], check: ck_u_enc, gen: gen_u_enc, weight: 10 });
        k.push(Kind { name: "u_dec", props: &["C07"], check: ck_u_dec, gen: gen_u_dec, weight: 10 });
        k.push(Kind { name: "u_code", props: &["C07"], check: ck_u_code, gen: gen_u_code, weight: 10 });
        k.push(Kind { name: "u_char", props: &["C07"], check: ck_u_char, gen: gen_u_char, weight: 5 });
        k.push(Kind { name: "table", props: &["C24"], check: ck_table, gen: gen_table, weight: 10 });
    }
    k
}

U="src/cesr/core/util.rs"; M="src/cesr/core/matter/mod.rs"; I="src/cesr/core/indexer/mod.rs"
C="src/cesr/core/counter/mod.rs"; TH="src/cesr/core/tholder.rs"; SA="src/cesr/core/saider.rs"
PX="src/prefexing/prefixer.rs"; CM="src/cesr/core/common.rs"; PA="src/pathing/pather.rs"
SG="src/signing/signer.rs"; SL="src/cesr/core/salter.rs"; CR="src/signify/creating.rs"
DG="src/cesr/core/diger.rs"; NU="src/cesr/core/number.rs"; DT="src/cesr/core/dater.rs"; BX="src/cesr/core/bexter.rs"
SD="src/cesr/core/sadder.rs"; SE="src/cesr/core/serder.rs"; CD="src/cesr/core/creder.rs"; DA="src/data.rs"; SQ="src/cesr/core/seqner.rs"
IT="src/cesr/core/indexer/tables.rs"
H='''use keride::cesr::{matter, Matter};
#[derive(Default, Debug, Clone, PartialEq)]
struct Mt { code: String, size: u32, raw: Vec<u8> }
impl Matter for Mt {
    fn code(&self) -> String { self.code.clone() }
    fn size(&self) -> u32 { self.size }
    fn raw(&self) -> Vec<u8> { self.raw.clone() }
    fn set_code(&mut self, code: &str) { self.code = code.to_string() }
    fn set_size(&mut self, size: u32) { self.size = size }
    fn set_raw(&mut self, raw: &[u8]) { self.raw = raw.to_vec() }
}
'''
SEEDS=[
dict(id="s05",property="C01",edits=[(M,"let hard = code.get(1..2).unwrap_or_default();\n                        code = format!(\"{s}{}{hard}\", &\"AAAA\"[0..hs as usize - 2]);","let hard = code.get(1..2).unwrap_or_default();\n                        code = format!(\"{s}{}{hard}\", &\"AAAB\"[0..hs as usize - 2 + usize::from(hard == \"B\")][..2].replace('B', \"A\").repeat(1 + usize::from(size > 1 << 18)).chars().take(2).collect::<String>());")],needs="-",breaks="-",demo="fn main(){}"),
][:0]+[
dict(id="s05",property="C01",edits=[(M,"            Ok(format!(\"{both}{}\", &b64[cs % 4..]))","            Ok(format!(\"{both}{}\", &b64[ps..]))")],
 needs="a fixed size code with lead bytes",
 breaks="the text of codes with lead bytes loses the characters that hold them",
 demo=H+'''fn main() {
    for (c, n) in [("0A", 16), ("2AAA", 2), ("3AAA", 1)] {
        let m = <Mt as Matter>::new(Some(c), Some(&vec![9u8; n]), None, None, None).unwrap();
        let n = <Mt as Matter>::new(None, None, None, Some(&m.qb64().unwrap()), None).unwrap();
        assert!(m == n);
    }
}
'''),
dict(id="s06",property="C02",edits=[(M,"            for value in trim.iter().take((bcs + szg.ls) as usize).skip(bcs as usize) {","            for value in trim.iter().take((bcs + szg.ls.min(1)) as usize).skip(bcs as usize) {")],
 needs="binary material with two lead bytes of which only the second is non zero",
 breaks="binary material is accepted that its text form refuses, so the domains are no longer equivalent",
 demo=H+'''fn main() {
    let m = <Mt as Matter>::new(Some("6A"), Some(&[1u8]), None, None, None).unwrap();
    let mut b = m.qb2().unwrap();
    let l = b.len();
    b[l - 2] = 9;
    if let Ok(n) = <Mt as Matter>::new(None, None, None, None, Some(&b)) { assert_eq!(n.qb2().unwrap(), b) }
}
'''),
dict(id="s07",property="C04",edits=[(I,"let full = if n <= tables::SMALL_VRZ_BYTES {\n            (util::b64_to_u32(&both)? << (2 * (cs % 4))).to_be_bytes().to_vec()","let full = if n <= tables::SMALL_VRZ_BYTES {\n            (util::b64_to_u32(&both[..(cs - szg.os) as usize])? << (2 * ((cs - szg.os) % 4)) << (6 * szg.os)).to_be_bytes().to_vec()")],
 needs="a code whose index part is small and which carries a separate other index (Ed448), in binary, with another index that is not zero",
 breaks="the binary form of small dual index codes loses the other index",
 demo='''use keride::cesr::Indexer;
#[derive(Default, Debug, PartialEq)]
struct Ix { code: String, raw: Vec<u8>, index: u32, ondex: u32 }
impl Indexer for Ix {
    fn code(&self) -> String { self.code.clone() }
    fn raw(&self) -> Vec<u8> { self.raw.clone() }
    fn index(&self) -> u32 { self.index }
    fn ondex(&self) -> u32 { self.ondex }
    fn set_code(&mut self, c: &str) { self.code = c.to_string() }
    fn set_raw(&mut self, r: &[u8]) { self.raw = r.to_vec() }
    fn set_index(&mut self, i: u32) { self.index = i }
    fn set_ondex(&mut self, o: u32) { self.ondex = o }
}
fn main() {
    let x = <Ix as Indexer>::new(Some(3), Some(5), Some("0A"), Some(&[7u8; 114]), None, None, None).unwrap();
    let y = <Ix as Indexer>::new(None, None, None, None, None, None, Some(&x.qb2().unwrap())).unwrap();
    assert_eq!(x, y);
}
'''),
dict(id="s08",property="C05",edits=[(I,"            // not zero or None\n            if ondex.is_some() && ondex.unwrap() != 0 {\n                return err!(Error::Value(format!(\n                    \"Invalid ondex = '{o}' for code = '{hard}'.\",\n                    o = ondex.unwrap()\n                )));\n            }\n\n            // unset","            // not zero, nor the same index again\n            if ondex.is_some() && ondex != Some(0) && ondex != Some(index) {\n                return err!(Error::Value(format!(\n                    \"Invalid ondex = '{o}' for code = '{hard}'.\",\n                    o = ondex.unwrap()\n                )));\n            }\n\n            // unset")],
 needs="binary big current-only material whose other index is not zero but equal to its index",
 breaks="a non-zero other index is accepted on a current-only code: two binary forms for one value",
 demo='''use keride::cesr::{Indexer, Siger};
fn main() {
    let raw = [9u8; 64];
    let a = Siger::new_with_raw(&raw, None, Some(70), None, Some("2B")).unwrap();
    let mut b = a.qb2().unwrap();
    // 2B + two index characters + two other index characters: 36 bits
    let big = Siger::new_with_raw(&raw, None, Some(70), Some(70), Some("2A")).unwrap().qb2().unwrap();
    b[3] = big[3]; b[4] |= big[4] & 0xf0;
    if let Ok(c) = Siger::new_with_qb2(&b, None) { assert_eq!(c.qb2().unwrap(), b) }
}
'''),
dict(id="s09",property="C06",edits=[(C,"match strings[i].parse::<i8>() {\n                Ok(n) => {\n                    if n < 0 {","match strings[i].parse::<i16>() {\n                Ok(n) => {\n                    if n < 0 {")],
 needs="a semantic version with a part between 256 and 319",
 breaks="a part above 255 wraps around instead of being refused",
 demo='''use keride::cesr::Counter;
fn main() { assert!(Counter::sem_ver_str_to_b64("1.2.257").is_err()); assert_eq!(Counter::sem_ver_str_to_b64("1.2.3").unwrap(), "BCD"); }
'''),
dict(id="s10",property="C06",edits=[(C,"        for c in both[hs as usize..cs as usize].chars() {","        for c in both[hs as usize..cs as usize].trim_start_matches('A').chars().take(4) {")],
 needs="a big counter read from binary with a count of 64^4 or more",
 breaks="the last count character is ignored",
 demo='''use keride::cesr::{Counter, counter};
fn main() {
    let c = Counter::new_with_code_and_count("-0V", 64 * 64 * 64 * 64 + 5).unwrap();
    let d = Counter::new_with_qb2(&c.qb2().unwrap()).unwrap();
    assert_eq!(c, d);
}
'''),
dict(id="s11",property="C08",edits=[(NU,"            } else if num < 256_u128.pow(8) {","            } else if num <= 256_u128.pow(8) {")],
 needs="the number 2^64",
 breaks="2^64 is kept under a code for 8 bytes and reads back as zero",
 demo='''use keride::cesr::Number;
fn main() { let n = Number::new_with_num(1u128 << 64).unwrap(); assert_eq!(n.num().unwrap(), 1u128 << 64); }
'''),
dict(id="s12",property="C08",edits=[(NU,"        Ok(self.num()? > 0)","        Ok(self.num()? as u64 > 0)")],
 needs="a multiple of 2^64",
 breaks="a multiple of 2^64 is not reported as positive",
 demo="""use keride::cesr::Number;
fn main() { assert!(Number::new_with_num(3u128 << 64).unwrap().positive().unwrap()); assert!(!Number::new_with_num(0).unwrap().positive().unwrap()); }
"""),
dict(id="s13",property="C09",edits=[(DT,"    dts.replace(':', \"c\").replace('.', \"d\").replace('+', \"p\")","    dts.replace(':', \"c\").replace(['.', ','], \"d\").replace('+', \"p\")")],
 needs="a date-time written with a decimal comma",
 breaks="a text is accepted that does not read back as given",
 demo="""use keride::cesr::Dater;
fn main() {
    for s in ["2020-08-22T17:50:09,988921-06:30", "2020-08-22T17:50:09.988921-06:30"] {
        if let Ok(d) = Dater::new_with_dts(s, None) { assert_eq!(d.dts().unwrap(), s) }
    }
}
"""),
dict(id="s14",property="C10",edits=[(BX,"            if !REB64.is_match(bext) {","            if !REB64.is_match(bext.trim_end_matches('=')) {")],
 needs="a string that ends in Base64 padding characters",
 breaks="a string that is not Base64 text is accepted and reads back as something else",
 demo="""use keride::cesr::{Bexter, Bext};
fn main() { for s in ["abc", "bcd", "ab==", "abc=", "Zabcde=="] { if let Ok(b) = Bexter::new_with_bext(s) { assert_eq!(b.bext().unwrap(), s); } } }
"""),
dict(id="s15",property="C11",edits=[("src/cesr/core/verfer.rs","        matter::Codex::ECDSA_256k1,\n","        matter::Codex::ECDSA_256k1, matter::Codex::Ed448,\n")],
 needs="well formed material under the Ed448 key code",
 breaks="a verification key is accepted under a code that no suite implements",
 demo='''use keride::cesr::Verfer;
fn main() { assert!(Verfer::new(Some("1AAD"), Some(&[1u8; 57]), None, None, None).is_err()); }
'''),
dict(id="s16",property="C12",edits=[(DG,"        Ok(dig == self.raw())","        let raw = self.raw();\n        let l = dig.len().min(32);\n        Ok(dig[..l] == raw[..l])")],
 needs="a 64 byte digest whose second half is wrong",
 breaks="only the first 32 bytes of a digest are compared",
 demo='''use keride::cesr::{Diger, Matter, matter};
fn main() {
    let d = Diger::new_with_ser(b"abc", Some(matter::Codex::Blake3_512)).unwrap();
    let mut raw = d.raw();
    raw[50] ^= 1;
    let e = Diger::new_with_raw(&raw, Some(matter::Codex::Blake3_512)).unwrap();
    assert!(d.verify(b"abc").unwrap());
    assert!(!e.verify(b"abc").unwrap());
}
'''),
dict(id="s17",property="C13",edits=[(SG,"            let ondex = ondex.unwrap_or(index);","            let ondex = ondex.filter(|o| *o > 0).unwrap_or(index);")],
 needs="a dual index signature with other index zero and another index",
 breaks="the other index zero is replaced by the index",
 demo="""use keride::signing::Signer;
use keride::cesr::Indexer;
fn main() {
    let s = Signer::new_with_raw(&[3u8; 32], None, None).unwrap();
    let g = s.sign_indexed(b"x", false, 1, Some(0)).unwrap();
    assert_eq!((g.index(), g.ondex()), (1, 0));
}
"""),
dict(id="s18",property="C14",edits=[(TH,"        indices.sort();\n        indices.dedup();\n\n        if thold > 0","        if indices.len() > thold.max(0) as usize {\n            indices.dedup();\n        }\n        if thold > 0")],
 needs="a numeric threshold and an index repeated out of order",
 breaks="one signature given twice counts as two",
 demo="""use keride::cesr::Tholder;
use keride::data::{dat, Value};
fn main() {
    let t = Tholder::new_with_sith(&dat!(3)).unwrap();
    assert!(!t.satisfy(&[0, 1, 0]).unwrap());
    assert!(t.satisfy(&[0, 1, 2]).unwrap());
}
"""),
dict(id="s19",property="C15",edits=[(TH,"                clause.push(Rational32::new(numer, denom));","                clause.push(if denom > 100 { Rational32::new_raw(numer, denom) } else { Rational32::new(numer, denom) });")],
 needs="a reducible weight with a denominator above 100",
 breaks="weights that are not in lowest terms are kept, so equal thresholds differ",
 demo='''use keride::cesr::Tholder;
use keride::data::{dat, Value};
fn main() {
    let a = Tholder::new_with_sith(&dat!(["60/120", "1/2"])).unwrap();
    let b = Tholder::new_with_sith(&dat!(["1/2", "1/2"])).unwrap();
    assert_eq!(a.limen().unwrap(), b.limen().unwrap());
}
'''),
dict(id="s20",property="C16",edits=[(SA,"        if self.qb64()? != saider.qb64()? {","        if self.qb64()?[..44] != saider.qb64()?[..44] {")],
 needs="an identifier under a 512 bit digest that is wrong in its second half",
 breaks="only the first 44 characters of the identifier are compared",
 demo="""use keride::cesr::{matter, Matter, Saider};
use keride::data::{dat, Value};
fn main() {
    let c = Some(matter::Codex::Blake3_512);
    let (s, d) = Saider::saidify(&dat!({"d": "", "x": "y"}), c, None, None, None).unwrap();
    assert!(s.verify(&d, None, None, None, None, None).unwrap());
    let mut raw = s.raw();
    raw[60] ^= 1;
    let s = Saider::new_with_raw(&raw, c).unwrap();
    assert!(!s.verify(&d, None, None, None, None, None).unwrap());
}
"""),
dict(id="s21",property="C17",edits=[(PX,"    let map = ked.to_map()?;\n    if prefixed && (!map.contains_key(label) || ked[label].to_string()? != *pre) {\n        return Ok(false);\n    }\n\n    Ok(true)\n}\n\nimpl Prefixer","    let map = ked.to_map()?;\n    if prefixed && (!map.contains_key(label) || !ked[label].to_string()?.starts_with(pre)) {\n        return Ok(false);\n    }\n\n    Ok(true)\n}\n\nimpl Prefixer")],
 needs="an inception event whose identifier field is the prefix followed by something",
 breaks="an identifier field that is not the prefix is accepted when it is to be checked",
 demo="""use keride::cesr::{common, Matter};
use keride::prefexing::prefixer::Prefixer;
use keride::data::{dat, Value};
fn main() {
    let vs = common::versify(None, None, None, Some(0)).unwrap();
    let e = |i: &str| dat!({"v": vs.as_str(), "t": "icp", "d": "", "i": i, "k": []});
    let p = Prefixer::new_with_ked(&e(""), None, Some("E")).unwrap();
    let q = p.qb64().unwrap();
    assert!(p.verify(&e(&q), Some(true)).unwrap());
    assert!(!p.verify(&e(&format!("{q}A")), Some(true)).unwrap());
}
"""),
dict(id="s22",property="C18",edits=[(CM,"(?P<major>[0-9a-f])","(?P<major>[0-9])")],
 needs="a major version above 9",
 breaks="a version string made for major version 10 to 15 is not read back",
 demo='''use keride::cesr::common::{deversify, versify, Version};
fn main() {
    let vs = versify(None, Some(&Version { major: 11, minor: 12 }), None, Some(7)).unwrap();
    let d = deversify(&vs).unwrap();
    assert_eq!((d.version.major, d.version.minor, d.size), (11, 12, 7));
}
'''),
dict(id="s23",property="C19",edits=[(I,"        if qb2.len() < bfs as usize {","        if qb2.len() + 1 < bfs as usize {")],
 needs="indexed binary material that is exactly one byte short",
 breaks="truncated binary indexed material crashes the parser",
 demo='''use keride::cesr::{Indexer, Siger};
fn main() {
    let a = Siger::new_with_raw(&[1u8; 64], None, Some(1), None, Some("A")).unwrap();
    let b = a.qb2().unwrap();
    assert!(Siger::new_with_qb2(&b[..b.len() - 1], None).is_err());
}
'''),
dict(id="s24",property="C20",edits=[(PA,"        path.append(&mut to_append);","        if path.len() > to_append.len() || path[..] != to_append[..path.len()] {\n            path.append(&mut to_append);\n        } else {\n            path = to_append;\n        }")],
 needs="a path put under a root that it itself begins with",
 breaks="re-rooting leaves the root out when the path begins with the same components",
 demo='''use keride::pathing::pather::Pather;
use keride::data::{dat, Value};
fn main() {
    let a = Pather::new_with_path(&dat!(["a"])).unwrap();
    let b = Pather::new_with_path(&dat!(["a", "b"])).unwrap();
    let c = b.root(&a).unwrap();
    assert_eq!(c.path().unwrap(), dat!(["a", "a", "b"]));
    assert_eq!(c.strip(&a).unwrap(), b);
}
'''),
dict(id="s29",property="C03",edits=[(M,"                pi = (pi * 256) + (*b as i32)\n            }\n\n            if (pi & (2_i32.pow(pbs) - 1)) != 0 {","                pi = (pi * 256) + (*b as i32)\n            }\n\n            if (pi & (2_i32.pow(pbs / ps) - 1)) != 0 {")],
 needs="text of a two character code whose third or fourth pad bit is set",
 breaks="only half of the pad bits of two character codes are checked",
 demo=H+'''fn main() {
    let m = <Mt as Matter>::new(Some("0A"), Some(&[0u8; 16]), None, None, None).unwrap();
    let t = m.qb64().unwrap();
    let u = format!("0AQ{}", &t[3..]);
    if let Ok(n) = <Mt as Matter>::new(None, None, None, Some(&u), None) { assert_eq!(n.qb64().unwrap(), u) }
}
'''),
dict(id="s25",property="C21",edits=[(SL,"            let path = format!(\"{path}{n:x}\", n = (i + start));","            let path = format!(\"{path}{n:x}\", n = (i % 256 + start));")],
 needs="a run of more than 256 keys",
 breaks="keys repeat within one run",
 demo='''use keride::cesr::Salter;
use keride::cesr::Matter;
fn main() {
    let s = Salter::new_with_raw(&[5u8; 16], None, None).unwrap();
    let a = s.signers(Some(257), Some(0), None, None, None, None, Some(true)).unwrap();
    let b = s.signers(Some(1), Some(256), None, None, None, None, Some(true)).unwrap();
    assert_eq!(a[256].verfer().qb64().unwrap(), b[0].verfer().qb64().unwrap());
}
'''),
dict(id="s26",property="C22",edits=[(DA,"                for (key, value) in o {\n                    v.push(","                for (key, value) in o.iter().filter(|(k, _)| !k.is_empty()) {\n                    v.push(")],
 needs="an object with an empty key",
 breaks="a field with an empty name is left out of the JSON",
 demo='''use keride::data::Value;
fn main() {
    let j: serde_json::Value = serde_json::from_str(r#"{"":1,"a":2}"#).unwrap();
    assert_eq!(Value::from(&j).to_json().unwrap(), r#"{"":1,"a":2}"#);
}
'''),
dict(id="s27",property="C23",edits=[(SD,"        self.set_raw(&raw[..(result.size as usize)]);","        self.set_raw(if raw.len() < 2 * result.size as usize { &raw[..(result.size as usize)] } else { raw });")],
 needs="an event followed by at least as many bytes as it has itself",
 breaks="what follows a message is kept as part of its raw bytes",
 demo='''use keride::cesr::{Saider, Serder, Sadder, common};
use keride::data::{dat, Value};
fn main() {
    let vs = common::versify(None, None, None, Some(0)).unwrap();
    let (_, d) = Saider::saidify(&dat!({"v": vs.as_str(), "d": "", "t": "rpy"}), None, None, None, None).unwrap();
    let s = Serder::new_with_ked(&d, None, None).unwrap();
    let mut two = s.raw();
    two.extend(s.raw());
    assert_eq!(Serder::new_with_raw(&two).unwrap().raw(), s.raw());
}
'''),
dict(id="s28",property="C25",edits=[(SE,"            for witness in self.ked[label].to_vec()? {\n                result.push(Verfer::new(None, None, None, Some(&witness.to_string()?), None)?)\n            }","            for witness in self.ked[label].to_vec()? {\n                let w = Verfer::new(None, None, None, Some(&witness.to_string()?), None)?;\n                if !result.contains(&w) {\n                    result.push(w)\n                }\n            }")],
 needs="an event that lists a witness twice",
 breaks="a repeated witness is reported once",
 demo='''use keride::cesr::{Saider, Serder, Sadder, common};
use keride::data::{dat, Value};
fn main() {
    let vs = common::versify(None, None, None, Some(0)).unwrap();
    let w = "BKxy2sgzfplyr-tgwIxS19f2OchFHtLwPWD3v4oYimBx";
    let (_, d) = Saider::saidify(&dat!({"v": vs.as_str(), "d": "", "t": "icp", "b": [w, w]}), None, None, None, None).unwrap();
    let s = Serder::new_with_ked(&d, None, None).unwrap();
    assert_eq!(s.werfers().unwrap().len(), 2);
}
'''),
]
SEEDS=[s for s in SEEDS if s["breaks"]!="-"]

U="src/cesr/core/util.rs"; M="src/cesr/core/matter/mod.rs"
H='''use keride::cesr::{matter, Matter};
#[derive(Default, Debug, Clone, PartialEq)]
struct Mt { code: String, size: u32, raw: Vec<u8> }
impl Matter for Mt {
    fn code(&self) -> String { self.code.clone() }
    fn size(&self) -> u32 { self.size }
    fn raw(&self) -> Vec<u8> { self.raw.clone() }
    fn set_code(&mut self, code: &str) { self.code = code.to_string() }
    fn set_size(&mut self, size: u32) { self.size = size }
    fn set_raw(&mut self, raw: &[u8]) { self.raw = raw.to_vec() }
}
'''
SEEDS=[
dict(id="s02",property="C03",edits=[(M,"                li = (li * 256) + (*b as u32);","                li = *b as u32;")],
 needs="material with two lead bytes of which only the first is non zero",
 breaks="two different texts are accepted for one value: the first of two lead bytes is ignored",
 demo=H+'''fn main() {
    let m = <Mt as Matter>::new(Some("6A"), Some(&[1u8]), None, None, None).unwrap();
    let mut t = m.qb64().unwrap();
    assert_eq!(t, "6AABAAAB");
    t = "6AABgAAB".to_string();
    match <Mt as Matter>::new(None, None, None, Some(&t), None) {
        Ok(n) => assert_eq!(n.qb64().unwrap(), t),
        Err(_) => (),
    }
}
'''),
dict(id="s03",property="C02",edits=[(M,"            let size = util::b64_to_u32(&both[szg.hs as usize..cs as usize])?;","            let size = util::b64_to_u32(&both[szg.hs.max(cs - 3) as usize..cs as usize])?;")],
 needs="variable size material of 64^3 quadlets or more read from binary",
 breaks="the leading size character of a large code is ignored, the material is cut short",
 demo=H+'''fn main() {
    let raw: Vec<u8> = (0..3 * 64 * 64 * 64 + 2).map(|i| i as u8).collect();
    let m = <Mt as Matter>::new(Some("4A"), Some(&raw), None, None, None).unwrap();
    let n = <Mt as Matter>::new(None, None, None, None, Some(&m.qb2().unwrap())).unwrap();
    assert!(m == n);
}
'''),
dict(id="s04",property="C07",edits=[(U,"        '-' => 62,","        '-' | '+' => 62,")],
 needs="a size or count character of the other Base64 alphabet",
 breaks="decoding accepts '+' as if it were '-'",
 demo='''use keride::cesr::Counter;
fn main() {
    assert!(Counter::new_with_qb64("-AA+").is_err());
    assert_eq!(Counter::new_with_qb64("-AA-").unwrap().count(), 62);
}
'''),
]

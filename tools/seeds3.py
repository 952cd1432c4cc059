SEEDS=[
dict(id="s30",property="C26",flags="--cfg keride_verif",edits=[("src/messaging.rs","            sigers.len() as u32,","            sigers.len() as u8 as u32,")],
 needs="a message with more than 255 signatures",
 breaks="the counter of the group does not count all signatures",
 demo='''use keride::cesr::*;
use keride::data::dat;
use keride::signing::Signer;
fn main() {
    let e = Serder::new_with_ked(&dat!({"v": "KERI10JSON000000_", "d": "EAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA"}), None, None).unwrap();
    let s = Signer::new_with_raw(&[3u8; 32], None, None).unwrap();
    for n in [1usize, 255, 256, 300] {
        let g: Vec<Siger> = (0..n).map(|_| s.sign_indexed(b"x", true, 1, None).unwrap()).collect();
        let m = keride::messaging::verif::messagize(&e, Some(&g), None, None, None).unwrap();
        let t = &m[e.raw().len()..];
        let c = Counter::new_with_qb64(t).unwrap();
        assert_eq!(c.count() as usize, (t.len() - 4) / g[0].qb64().unwrap().len());
    }
}
'''),
dict(id="s31",property="C26",flags="--cfg keride_verif",edits=[("src/receipting.rs","        \"s\": &sner.numh()?","        \"s\": &format!(\"{:x}\", sner.num()? as u64)")],
 needs="a receipt of an event number above 2^64",
 breaks="the receipt carries another number",
 demo='''use keride::cesr::Sadder;
fn main() {
    for n in [0u128, 0xff, u64::MAX as u128, 1 << 64, u128::MAX] {
        let r = keride::receipting::verif::receipt("BAAA", n, "EAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA", None, None).unwrap();
        assert!(String::from_utf8(r.raw()).unwrap().contains(&format!("\\"s\\":\\"{n:x}\\"")));
    }
}
'''),
]

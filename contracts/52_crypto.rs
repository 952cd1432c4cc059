// ------------------------------------------------------------------------------------------
// Cryptographic libraries: trusted contracts.  Every function of the external crates is
// specified by uninterpreted functions of its inputs; the only axioms are output lengths and
// "a signature made with a key verifies under the matching public key".
// ------------------------------------------------------------------------------------------
pub uninterp spec fn x_sk_ok(suite: int, sk: Seq<u8>) -> bool;
pub uninterp spec fn x_pub(suite: int, sk: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn x_pk_ok(suite: int, pk: Seq<u8>) -> bool;
pub uninterp spec fn x_sig_ok(suite: int, sig: Seq<u8>) -> bool;
pub uninterp spec fn x_signed(suite: int, sk: Seq<u8>, ser: Seq<u8>, sig: Seq<u8>) -> bool;
pub uninterp spec fn x_verify(suite: int, pk: Seq<u8>, sig: Seq<u8>, ser: Seq<u8>) -> bool;
pub uninterp spec fn x_hash(alg: int, l: int, ser: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn x_argon(alg: int, ver: int, m: int, t: int, p: int, l: int, pwd: Seq<u8>, salt: Seq<u8>) -> Option<Seq<u8>>;
pub uninterp spec fn x_argon_params(m: int, t: int, p: int, l: int) -> bool;
pub broadcast axiom fn ax_pub(suite: int, sk: Seq<u8>)
    requires 0 <= suite < 3
    ensures (#[trigger] x_pub(suite, sk)).len() == (if suite == 0 { 32int } else { 33 }), x_sk_ok(suite, sk) ==> x_pk_ok(suite, x_pub(suite, sk));
pub broadcast axiom fn ax_signed(suite: int, sk: Seq<u8>, ser: Seq<u8>, sig: Seq<u8>)
    requires #[trigger] x_signed(suite, sk, ser, sig)
    ensures sig.len() == 64, x_sig_ok(suite, sig), x_verify(suite, x_pub(suite, sk), sig, ser);
pub broadcast axiom fn ax_sk(suite: int, sk: Seq<u8>)
    requires #[trigger] x_sk_ok(suite, sk)
    ensures sk.len() == 32;
pub axiom fn ax_ed_sk(sk: Seq<u8>)
    requires sk.len() == 32
    ensures x_sk_ok(0, sk);
pub broadcast axiom fn ax_hash(alg: int, l: int, ser: Seq<u8>)
    requires l >= 0
    ensures (#[trigger] x_hash(alg, l, ser)).len() == l;
pub broadcast axiom fn ax_argon(alg: int, ver: int, m: int, t: int, p: int, l: int, pwd: Seq<u8>, salt: Seq<u8>)
    ensures (#[trigger] x_argon(alg, ver, m, t, p, l, pwd, salt)).is_some() ==> x_argon(alg, ver, m, t, p, l, pwd, salt)->Some_0.len() == l;

// @ext ed25519_dalek::Signature ed25519_dalek::SigningKey ed25519_dalek::VerifyingKey
// @ext k256::ecdsa::Signature k256::ecdsa::SigningKey k256::ecdsa::VerifyingKey
// @ext p256::ecdsa::Signature p256::ecdsa::SigningKey p256::ecdsa::VerifyingKey
// @ext rand_core::OsRng blake2::Blake2b blake2::Blake2b512 blake2::Blake2s256 blake3::hash blake3::Hasher
// @ext sha2::Sha256 sha2::Sha512 sha3::Sha3_256 sha3::Sha3_512
// @ext argon2::Algorithm argon2::Argon2 argon2::Params argon2::Version
pub trait VInto<T> { spec fn into_ok(&self, r: T) -> bool; fn vinto(self) -> (r: T) where Self: Sized ensures self.into_ok(r); }
impl<'a, const N: usize> VTryInto<&'a [u8; N]> for &'a [u8] { open spec fn fits(&self) -> bool { self@.len() == N } open spec fn conv(&self) -> &'a [u8; N] { &arr_of::<N>(self@) }
    #[verifier::external_body] fn vtry_into(self) -> (r: Result<&'a [u8; N]>) { unimplemented!() } }
impl<const N: usize> VZeroize for [u8; N] { #[verifier::external_body] fn vzeroize(&mut self) { unimplemented!() } }
pub mod ext {
pub use super::extd::*;
use vstd::prelude::*;
pub mod rand_core { use vstd::prelude::*; use super::super::*;
    pub struct OsRng;
    pub trait VFill { spec fn fl(&self) -> nat; }
    impl OsRng {
        #[verifier::external_body] pub fn fill_bytes(self, b: &mut [u8]) ensures final(b)@.len() == old(b)@.len() { unimplemented!() }
    }
}
pub mod ed25519_dalek { use vstd::prelude::*; use super::super::*;
    #[verifier::external_body] pub struct SigningKey { x: u8 }
    #[verifier::external_body] pub struct VerifyingKey { x: u8 }
    #[verifier::external_body] pub struct Signature { x: u8 }
    impl SigningKey {
        pub uninterp spec fn sk(&self) -> Seq<u8>;
        #[verifier::external_body] pub fn generate(r: &mut super::rand_core::OsRng) -> (k: Self) ensures x_sk_ok(0, k.sk()) { unimplemented!() }
        #[verifier::external_body] pub fn from_bytes(b: &[u8; 32]) -> (k: Self) ensures k.sk() == b@, x_sk_ok(0, k.sk()) { unimplemented!() }
        #[verifier::external_body] pub fn to_bytes(&self) -> (b: [u8; 32]) ensures b@ == self.sk() { unimplemented!() }
        #[verifier::external_body] pub fn verifying_key(&self) -> (k: VerifyingKey) ensures k.pk() == x_pub(0, self.sk()) { unimplemented!() }
        #[verifier::external_body] pub fn sign(&self, ser: &[u8]) -> (s: Signature) ensures x_signed(0, self.sk(), ser@, s.sg()) { unimplemented!() }
    }
    impl VInto<VerifyingKey> for &SigningKey { open spec fn into_ok(&self, r: VerifyingKey) -> bool { r.pk() == x_pub(0, self.sk()) }
        #[verifier::external_body] fn vinto(self) -> (r: VerifyingKey) { unimplemented!() } }
    impl VerifyingKey {
        pub uninterp spec fn pk(&self) -> Seq<u8>;
        #[verifier::external_body] pub fn is_weak(&self) -> bool { unimplemented!() }
        #[verifier::external_body] pub fn as_bytes(&self) -> (b: &[u8; 32]) ensures b@ == self.pk() { unimplemented!() }
        #[verifier::external_body] pub fn to_bytes(&self) -> (b: [u8; 32]) ensures b@ == self.pk() { unimplemented!() }
        #[verifier::external_body] pub fn from_bytes(b: &[u8; 32]) -> (k: Result<Self>) ensures k.is_ok() == x_pk_ok(0, b@), k.is_ok() ==> k->Ok_0.pk() == b@ { unimplemented!() }
        #[verifier::external_body] pub fn verify(&self, ser: &[u8], sig: &Signature) -> (r: Result<()>) ensures r.is_ok() == x_verify(0, self.pk(), sig.sg(), ser@) { unimplemented!() }
    }
    impl Signature {
        pub uninterp spec fn sg(&self) -> Seq<u8>;
        #[verifier::external_body] pub fn from_bytes(b: &[u8; 64]) -> (s: Self) ensures s.sg() == b@, x_sig_ok(0, b@) { unimplemented!() }
        #[verifier::external_body] pub fn to_bytes(&self) -> (b: [u8; 64]) ensures b@ == self.sg() { unimplemented!() }
        #[verifier::external_body] pub fn to_vec(&self) -> (b: Vec<u8>) ensures b@ == self.sg() { unimplemented!() }
    }
}
pub mod k256 { pub mod ecdsa { use vstd::prelude::*; use super::super::super::*;
    #[verifier::external_body] pub struct SigningKey { x: u8 }
    #[verifier::external_body] pub struct VerifyingKey { x: u8 }
    #[verifier::external_body] pub struct Signature { x: u8 }
    #[verifier::external_body] pub struct Bytes { x: u8 }
    impl Bytes { pub uninterp spec fn by(&self) -> Seq<u8>;
        #[verifier::external_body] pub fn to_vec(&self) -> (b: Vec<u8>) ensures b@ == self.by() { unimplemented!() }
        #[verifier::external_body] pub fn as_bytes(&self) -> (b: &[u8]) ensures b@ == self.by() { unimplemented!() } }
    impl SigningKey {
        pub uninterp spec fn sk(&self) -> Seq<u8>;
        #[verifier::external_body] pub fn random(r: &mut super::super::rand_core::OsRng) -> (k: Self) ensures x_sk_ok(1, k.sk()) { unimplemented!() }
        #[verifier::external_body] pub fn from_slice(b: &[u8]) -> (k: Result<Self>) ensures k.is_ok() == x_sk_ok(1, b@), k.is_ok() ==> k->Ok_0.sk() == b@ { unimplemented!() }
        #[verifier::external_body] pub fn to_bytes(&self) -> (b: Bytes) ensures b.by() == self.sk() { unimplemented!() }
        #[verifier::external_body] pub fn sign_with_rng(&self, r: &mut super::super::rand_core::OsRng, ser: &[u8]) -> (s: Signature) ensures x_signed(1, self.sk(), ser@, s.sg()) { unimplemented!() }
        #[verifier::external_body] pub fn verifying_key(&self) -> (k: VerifyingKey) ensures k.pk() == x_pub(1, self.sk()) { unimplemented!() }
    }
    impl VerifyingKey {
        pub uninterp spec fn pk(&self) -> Seq<u8>;
        #[verifier::external_body] pub fn from(s: SigningKey) -> (k: Self) ensures k.pk() == x_pub(1, s.sk()) { unimplemented!() }
        #[verifier::external_body] pub fn from_sec1_bytes(b: &[u8]) -> (k: Result<Self>) ensures k.is_ok() == x_pk_ok(1, b@), k.is_ok() ==> k->Ok_0.pk() == b@ { unimplemented!() }
        #[verifier::external_body] pub fn to_encoded_point(&self, compress: bool) -> (b: Bytes) ensures compress ==> b.by() == self.pk() { unimplemented!() }
        #[verifier::external_body] pub fn verify(&self, ser: &[u8], sig: &Signature) -> (r: Result<()>) ensures r.is_ok() == x_verify(1, self.pk(), sig.sg(), ser@) { unimplemented!() }
    }
    impl Signature {
        pub uninterp spec fn sg(&self) -> Seq<u8>;
        #[verifier::external_body] pub fn try_from(b: &[u8]) -> (s: Result<Self>) ensures s.is_ok() == x_sig_ok(1, b@), s.is_ok() ==> s->Ok_0.sg() == b@ { unimplemented!() }
        #[verifier::external_body] pub fn from_slice(b: &[u8]) -> (s: Result<Self>) ensures s.is_ok() == x_sig_ok(1, b@), s.is_ok() ==> s->Ok_0.sg() == b@ { unimplemented!() }
        #[verifier::external_body] pub fn to_vec(&self) -> (b: Vec<u8>) ensures b@ == self.sg() { unimplemented!() }
        #[verifier::external_body] pub fn to_bytes(&self) -> (b: Bytes) ensures b.by() == self.sg() { unimplemented!() }
    }
} }
pub mod p256 { pub mod ecdsa { use vstd::prelude::*; use super::super::super::*;
    #[verifier::external_body] pub struct SigningKey { x: u8 }
    #[verifier::external_body] pub struct VerifyingKey { x: u8 }
    #[verifier::external_body] pub struct Signature { x: u8 }
    #[verifier::external_body] pub struct Bytes { x: u8 }
    impl Bytes { pub uninterp spec fn by(&self) -> Seq<u8>;
        #[verifier::external_body] pub fn to_vec(&self) -> (b: Vec<u8>) ensures b@ == self.by() { unimplemented!() }
        #[verifier::external_body] pub fn as_bytes(&self) -> (b: &[u8]) ensures b@ == self.by() { unimplemented!() } }
    impl SigningKey {
        pub uninterp spec fn sk(&self) -> Seq<u8>;
        #[verifier::external_body] pub fn random(r: &mut super::super::rand_core::OsRng) -> (k: Self) ensures x_sk_ok(2, k.sk()) { unimplemented!() }
        #[verifier::external_body] pub fn from_slice(b: &[u8]) -> (k: Result<Self>) ensures k.is_ok() == x_sk_ok(2, b@), k.is_ok() ==> k->Ok_0.sk() == b@ { unimplemented!() }
        #[verifier::external_body] pub fn to_bytes(&self) -> (b: Bytes) ensures b.by() == self.sk() { unimplemented!() }
        #[verifier::external_body] pub fn sign_with_rng(&self, r: &mut super::super::rand_core::OsRng, ser: &[u8]) -> (s: Signature) ensures x_signed(2, self.sk(), ser@, s.sg()) { unimplemented!() }
        #[verifier::external_body] pub fn verifying_key(&self) -> (k: VerifyingKey) ensures k.pk() == x_pub(2, self.sk()) { unimplemented!() }
    }
    impl VerifyingKey {
        pub uninterp spec fn pk(&self) -> Seq<u8>;
        #[verifier::external_body] pub fn from(s: SigningKey) -> (k: Self) ensures k.pk() == x_pub(2, s.sk()) { unimplemented!() }
        #[verifier::external_body] pub fn from_sec1_bytes(b: &[u8]) -> (k: Result<Self>) ensures k.is_ok() == x_pk_ok(2, b@), k.is_ok() ==> k->Ok_0.pk() == b@ { unimplemented!() }
        #[verifier::external_body] pub fn to_encoded_point(&self, compress: bool) -> (b: Bytes) ensures compress ==> b.by() == self.pk() { unimplemented!() }
        #[verifier::external_body] pub fn verify(&self, ser: &[u8], sig: &Signature) -> (r: Result<()>) ensures r.is_ok() == x_verify(2, self.pk(), sig.sg(), ser@) { unimplemented!() }
    }
    impl Signature {
        pub uninterp spec fn sg(&self) -> Seq<u8>;
        #[verifier::external_body] pub fn try_from(b: &[u8]) -> (s: Result<Self>) ensures s.is_ok() == x_sig_ok(2, b@), s.is_ok() ==> s->Ok_0.sg() == b@ { unimplemented!() }
        #[verifier::external_body] pub fn from_slice(b: &[u8]) -> (s: Result<Self>) ensures s.is_ok() == x_sig_ok(2, b@), s.is_ok() ==> s->Ok_0.sg() == b@ { unimplemented!() }
        #[verifier::external_body] pub fn to_vec(&self) -> (b: Vec<u8>) ensures b@ == self.sg() { unimplemented!() }
        #[verifier::external_body] pub fn to_bytes(&self) -> (b: Bytes) ensures b.by() == self.sg() { unimplemented!() }
    }
} }
#[verifier::external_body] pub struct HOut { x: u8 }
impl HOut { pub uninterp spec fn by(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn to_vec(&self) -> (b: Vec<u8>) ensures b@ == self.by() { unimplemented!() } }
pub mod blake2 { use vstd::prelude::*; use super::super::*;
    pub mod digest { pub mod consts { pub struct U32 {} pub struct U64 {} } }
    #[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct Blake2b<T> { x: core::marker::PhantomData<T> }
    #[verifier::external_body] pub struct Blake2b512 { x: u8 }
    #[verifier::external_body] pub struct Blake2s256 { x: u8 }
    impl Blake2b<digest::consts::U32> {
        pub uninterp spec fn fed(&self) -> Seq<u8>;
        #[verifier::external_body] pub fn new() -> (h: Self) ensures h.fed() == Seq::<u8>::empty() { unimplemented!() }
        #[verifier::external_body] pub fn update(&mut self, b: &[u8]) ensures final(self).fed() == old(self).fed() + b@ { unimplemented!() }
        #[verifier::external_body] pub fn finalize(self) -> (o: super::HOut) ensures o.by() == x_hash(x_b2b(), 32, self.fed()) { unimplemented!() }
        #[verifier::external_body] pub fn digest(b: &[u8]) -> (o: super::HOut) ensures o.by() == x_hash(x_b2b(), 32, b@) { unimplemented!() }
    }
    impl Blake2b512 {
        pub uninterp spec fn fed(&self) -> Seq<u8>;
        #[verifier::external_body] pub fn new() -> (h: Self) ensures h.fed() == Seq::<u8>::empty() { unimplemented!() }
        #[verifier::external_body] pub fn update(&mut self, b: &[u8]) ensures final(self).fed() == old(self).fed() + b@ { unimplemented!() }
        #[verifier::external_body] pub fn finalize(self) -> (o: super::HOut) ensures o.by() == x_hash(x_b2b(), 64, self.fed()) { unimplemented!() }
        #[verifier::external_body] pub fn digest(b: &[u8]) -> (o: super::HOut) ensures o.by() == x_hash(x_b2b(), 64, b@) { unimplemented!() }
    }
    impl Blake2s256 {
        pub uninterp spec fn fed(&self) -> Seq<u8>;
        #[verifier::external_body] pub fn new() -> (h: Self) ensures h.fed() == Seq::<u8>::empty() { unimplemented!() }
        #[verifier::external_body] pub fn update(&mut self, b: &[u8]) ensures final(self).fed() == old(self).fed() + b@ { unimplemented!() }
        #[verifier::external_body] pub fn finalize(self) -> (o: super::HOut) ensures o.by() == x_hash(x_b2s(), 32, self.fed()) { unimplemented!() }
        #[verifier::external_body] pub fn digest(b: &[u8]) -> (o: super::HOut) ensures o.by() == x_hash(x_b2s(), 32, b@) { unimplemented!() }
    }
}
pub mod sha2 { use vstd::prelude::*; use super::super::*;
    #[verifier::external_body] pub struct Sha256 { x: u8 }
    #[verifier::external_body] pub struct Sha512 { x: u8 }
    impl Sha256 {
        pub uninterp spec fn fed(&self) -> Seq<u8>;
        #[verifier::external_body] pub fn new() -> (h: Self) ensures h.fed() == Seq::<u8>::empty() { unimplemented!() }
        #[verifier::external_body] pub fn update(&mut self, b: &[u8]) ensures final(self).fed() == old(self).fed() + b@ { unimplemented!() }
        #[verifier::external_body] pub fn finalize(self) -> (o: super::HOut) ensures o.by() == x_hash(x_sha2(), 32, self.fed()) { unimplemented!() }
        #[verifier::external_body] pub fn digest(b: &[u8]) -> (o: super::HOut) ensures o.by() == x_hash(x_sha2(), 32, b@) { unimplemented!() }
    }
    impl Sha512 {
        pub uninterp spec fn fed(&self) -> Seq<u8>;
        #[verifier::external_body] pub fn new() -> (h: Self) ensures h.fed() == Seq::<u8>::empty() { unimplemented!() }
        #[verifier::external_body] pub fn update(&mut self, b: &[u8]) ensures final(self).fed() == old(self).fed() + b@ { unimplemented!() }
        #[verifier::external_body] pub fn finalize(self) -> (o: super::HOut) ensures o.by() == x_hash(x_sha2(), 64, self.fed()) { unimplemented!() }
        #[verifier::external_body] pub fn digest(b: &[u8]) -> (o: super::HOut) ensures o.by() == x_hash(x_sha2(), 64, b@) { unimplemented!() }
    }
}
pub mod sha3 { use vstd::prelude::*; use super::super::*;
    #[verifier::external_body] pub struct Sha3_256 { x: u8 }
    #[verifier::external_body] pub struct Sha3_512 { x: u8 }
    impl Sha3_256 {
        pub uninterp spec fn fed(&self) -> Seq<u8>;
        #[verifier::external_body] pub fn new() -> (h: Self) ensures h.fed() == Seq::<u8>::empty() { unimplemented!() }
        #[verifier::external_body] pub fn update(&mut self, b: &[u8]) ensures final(self).fed() == old(self).fed() + b@ { unimplemented!() }
        #[verifier::external_body] pub fn finalize(self) -> (o: super::HOut) ensures o.by() == x_hash(x_sha3(), 32, self.fed()) { unimplemented!() }
        #[verifier::external_body] pub fn digest(b: &[u8]) -> (o: super::HOut) ensures o.by() == x_hash(x_sha3(), 32, b@) { unimplemented!() }
    }
    impl Sha3_512 {
        pub uninterp spec fn fed(&self) -> Seq<u8>;
        #[verifier::external_body] pub fn new() -> (h: Self) ensures h.fed() == Seq::<u8>::empty() { unimplemented!() }
        #[verifier::external_body] pub fn update(&mut self, b: &[u8]) ensures final(self).fed() == old(self).fed() + b@ { unimplemented!() }
        #[verifier::external_body] pub fn finalize(self) -> (o: super::HOut) ensures o.by() == x_hash(x_sha3(), 64, self.fed()) { unimplemented!() }
        #[verifier::external_body] pub fn digest(b: &[u8]) -> (o: super::HOut) ensures o.by() == x_hash(x_sha3(), 64, b@) { unimplemented!() }
    }
}
pub mod blake3 { use vstd::prelude::*; use super::super::*;
    #[verifier::external_body] pub struct Hash { x: u8 }
    #[verifier::external_body] pub struct Hasher { x: u8 }
    #[verifier::external_body] pub struct OutputReader { x: u8 }
    #[verifier::external_body] pub fn hash(b: &[u8]) -> (h: Hash) ensures h.by() == x_hash(x_b3(), 32, b@) { unimplemented!() }
    impl Hash { pub uninterp spec fn by(&self) -> Seq<u8>;
        #[verifier::external_body] pub fn as_bytes(&self) -> (b: &[u8; 32]) ensures b@ == self.by() { unimplemented!() } }
    impl Hasher { pub uninterp spec fn fed(&self) -> Seq<u8>;
        #[verifier::external_body] pub fn new() -> (h: Self) ensures h.fed() == Seq::<u8>::empty() { unimplemented!() }
        #[verifier::external_body] pub fn update(&mut self, b: &[u8]) ensures final(self).fed() == old(self).fed() + b@ { unimplemented!() }
        #[verifier::external_body] pub fn finalize(&self) -> (h: Hash) ensures h.by() == x_hash(x_b3(), 32, self.fed()) { unimplemented!() }
        #[verifier::external_body] pub fn finalize_xof(&self) -> (o: OutputReader) ensures o.src() == self.fed() { unimplemented!() } }
    impl OutputReader { pub uninterp spec fn src(&self) -> Seq<u8>;
        #[verifier::external_body] pub fn fill<const N: usize>(self, b: &mut [u8; N]) ensures final(b)@ == x_hash(x_b3(), N as int, self.src()) { unimplemented!() } }
}
pub mod argon2 { use vstd::prelude::*; use super::super::*;
    pub enum Algorithm { Argon2d, Argon2i, Argon2id }
    pub enum Version { V0x10, V0x13 }
    #[verifier::external_body] pub struct Params { x: u8 }
    #[verifier::external_body] pub struct Argon2 { x: u8 }
    impl Params { pub uninterp spec fn m(&self) -> int; pub uninterp spec fn t(&self) -> int; pub uninterp spec fn p(&self) -> int; pub uninterp spec fn l(&self) -> int;
        #[verifier::external_body] pub fn new(m: u32, t: u32, p: u32, l: Option<usize>) -> (r: Result<Self>)
            ensures l.is_some() ==> r.is_ok() == x_argon_params(m as int, t as int, p as int, l->Some_0 as int)
                && (r.is_ok() ==> r->Ok_0.m() == m && r->Ok_0.t() == t && r->Ok_0.p() == p && r->Ok_0.l() == l->Some_0) { unimplemented!() } }
    pub open spec fn algi(a: Algorithm) -> int { match a { Algorithm::Argon2d => 0, Algorithm::Argon2i => 1, Algorithm::Argon2id => 2 } }
    pub open spec fn veri(a: Version) -> int { match a { Version::V0x10 => 16, Version::V0x13 => 19 } }
    impl Argon2 { pub uninterp spec fn a(&self) -> int; pub uninterp spec fn v(&self) -> int; pub uninterp spec fn ps(&self) -> Params;
        #[verifier::external_body] pub fn new(a: Algorithm, v: Version, p: Params) -> (r: Self) ensures r.a() == algi(a), r.v() == veri(v), r.ps() == p { unimplemented!() }
        #[verifier::external_body] pub fn hash_password_into(&self, pwd: &[u8], salt: &[u8], out: &mut Vec<u8>) -> (r: Result<()>)
            ensures ({ let e = x_argon(self.a(), self.v(), self.ps().m(), self.ps().t(), self.ps().p(), old(out)@.len() as int, pwd@, salt@);
                r.is_ok() == e.is_some() && (r.is_ok() ==> final(out)@ == e->Some_0) }) { unimplemented!() } }
}
} // ext
pub open spec fn x_b3() -> int { 3 }
pub open spec fn x_b2b() -> int { 2 }
pub open spec fn x_b2s() -> int { 4 }
pub open spec fn x_sha3() -> int { 30 }
pub open spec fn x_sha2() -> int { 20 }

// ---- which library a code selects ------------------------------------------------------------
pub open spec fn c1(a: u8) -> Seq<u8> { seq![a] }
pub open spec fn c2(a: u8, b: u8) -> Seq<u8> { seq![a, b] }
pub open spec fn c4(a: u8, b: u8, c: u8, d: u8) -> Seq<u8> { seq![a, b, c, d] }
// signature suite: 0 Ed25519 (D B A 0B), 1 secp256k1 (1AAB 1AAA J 0C), 2 secp256r1 (1AAJ 1AAI Q 0I)
pub open spec fn s_suite(c: Seq<u8>) -> Option<int> {
    if c == seq![68u8] || c == seq![66u8] || c == seq![65u8] || c == seq![48u8, 66u8] { Some(0) }
    else if c == seq![49u8, 65u8, 65u8, 66u8] || c == seq![49u8, 65u8, 65u8, 65u8] || c == seq![74u8] || c == seq![48u8, 67u8] { Some(1) }
    else if c == seq![49u8, 65u8, 65u8, 74u8] || c == seq![49u8, 65u8, 65u8, 73u8] || c == seq![81u8] || c == seq![48u8, 73u8] { Some(2) }
    else { None }
}
// the digest algorithm and length of a code
pub open spec fn h_alg(c: Seq<u8>) -> Option<(int, int)> {
    if c == seq![69u8] { Some((x_b3(), 32)) } else if c == seq![48u8, 68u8] { Some((x_b3(), 64)) }
    else if c == seq![70u8] { Some((x_b2b(), 32)) } else if c == seq![48u8, 69u8] { Some((x_b2b(), 64)) }
    else if c == seq![71u8] { Some((x_b2s(), 32)) }
    else if c == seq![72u8] { Some((x_sha3(), 32)) } else if c == seq![48u8, 70u8] { Some((x_sha3(), 64)) }
    else if c == seq![73u8] { Some((x_sha2(), 32)) } else if c == seq![48u8, 71u8] { Some((x_sha2(), 64)) }
    else { None }
}
pub open spec fn h_dig(c: Seq<u8>, ser: Seq<u8>) -> Seq<u8> { x_hash(h_alg(c)->Some_0.0, h_alg(c)->Some_0.1, ser) }
pub open spec fn s_pub(su: int, sk: Seq<u8>) -> Option<Seq<u8>> { if (su == 0 && sk.len() >= 32) { Some(x_pub(0, sk.take(32))) } else if su != 0 && x_sk_ok(su, sk) { Some(x_pub(su, sk)) } else { None } }
// None: the key or the signature is malformed
pub open spec fn s_ver(su: int, pk: Seq<u8>, sig: Seq<u8>, ser: Seq<u8>) -> Option<bool> {
    if x_pk_ok(su, pk) && x_sig_ok(su, sig) && (su == 0 ==> pk.len() == 32 && sig.len() == 64) { Some(x_verify(su, pk, sig, ser)) } else { None }
}
pub open spec fn v_res(r: Result<bool>, e: Option<bool>) -> bool { r.is_ok() == e.is_some() && (r.is_ok() ==> r->Ok_0 == e->Some_0) }
// security tiers of key stretching: (memory KiB, passes)
pub open spec fn t_min() -> Seq<u8> { seq![109u8, 105u8, 110u8] }
pub open spec fn t_low() -> Seq<u8> { seq![108u8, 111u8, 119u8] }
pub open spec fn t_med() -> Seq<u8> { seq![109u8, 101u8, 100u8] }
pub open spec fn t_high() -> Seq<u8> { seq![104u8, 105u8, 103u8, 104u8] }
pub open spec fn a_tier(t: Seq<u8>) -> Option<(int, int)> {
    if t == t_min() { Some((8, 1)) } else if t == t_low() { Some((65536, 2)) }
    else if t == t_med() { Some((262144, 3)) } else if t == t_high() { Some((1048576, 4)) } else { None }
}
pub open spec fn a_stretch(pwd: Seq<u8>, salt: Seq<u8>, l: int, tier: Seq<u8>) -> Option<Seq<u8>> {
    if a_tier(tier).is_some() && x_argon_params(a_tier(tier)->Some_0.0, a_tier(tier)->Some_0.1, 1, l) { x_argon(2, 19, a_tier(tier)->Some_0.0, a_tier(tier)->Some_0.1, 1, l, pwd, salt) } else { None }
}

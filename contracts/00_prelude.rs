// ------------------------------------------------------------------------------------------
// Trusted shims: contracts for the std / base64 / anyhow items the extracted code calls.
// Nothing in this file is executed; every `external_body` / `assume_specification` / axiom here
// is an assumption and is listed in the evidence file.
// ------------------------------------------------------------------------------------------
global size_of usize == 8;

#[derive(Debug)]
pub struct Error;
pub type Result<T> = core::result::Result<T, Error>;

#[verifier::external_body]
pub fn vp_err() -> Error { unimplemented!() }
#[verifier::external_body]
pub fn vp_into_err<E>(e: E) -> Error { unimplemented!() }
#[verifier::external_body]
pub fn vp_unreachable<T>() -> T requires false { unimplemented!() }
pub fn vp_rt_assert(b: bool) requires b {}

pub trait VMapErr<T> { spec fn vok(&self) -> bool; spec fn vval(&self) -> T;
    fn vmap_err(self) -> (r: Result<T>) ensures r.is_ok() == self.vok(), r.is_ok() ==> r->Ok_0 == self.vval(); }
impl<T, E> VMapErr<T> for core::result::Result<T, E> {
    open spec fn vok(&self) -> bool { self.is_ok() }
    open spec fn vval(&self) -> T { self->Ok_0 }
    #[verifier::external_body] fn vmap_err(self) -> (r: Result<T>) { unimplemented!() }
}
pub trait VOkOr<T> { spec fn vsome(&self) -> Option<T>;
    fn vok_or(self) -> (r: Result<T>) ensures r.is_ok() == self.vsome().is_some(), r.is_ok() ==> r->Ok_0 == self.vsome()->Some_0; }
impl<T> VOkOr<T> for Option<T> {
    open spec fn vsome(&self) -> Option<T> { *self }
    #[verifier::external_body] fn vok_or(self) -> (r: Result<T>) { unimplemented!() }
}

// ---- integer power -------------------------------------------------------------------------
pub open spec fn vpow(b: int, e: nat) -> int decreases e {
    if e == 0 { 1 } else { b * vpow(b, (e - 1) as nat) }
}
pub assume_specification [<u32>::pow] (b: u32, e: u32) -> (r: u32)
    requires vpow(b as int, e as nat) <= u32::MAX
    ensures r as int == vpow(b as int, e as nat);
pub assume_specification [<i32>::pow] (b: i32, e: u32) -> (r: i32)
    requires i32::MIN <= vpow(b as int, e as nat) <= i32::MAX
    ensures r as int == vpow(b as int, e as nat);
pub assume_specification [<u8>::pow] (b: u8, e: u32) -> (r: u8)
    requires vpow(b as int, e as nat) <= u8::MAX
    ensures r as int == vpow(b as int, e as nat);
pub assume_specification [<u64>::pow] (b: u64, e: u32) -> (r: u64)
    requires vpow(b as int, e as nat) <= u64::MAX
    ensures r as int == vpow(b as int, e as nat);
pub assume_specification [<usize>::pow] (b: usize, e: u32) -> (r: usize)
    requires vpow(b as int, e as nat) <= usize::MAX
    ensures r as int == vpow(b as int, e as nat);
pub assume_specification [<u128>::pow] (b: u128, e: u32) -> (r: u128)
    requires vpow(b as int, e as nat) <= u128::MAX
    ensures r as int == vpow(b as int, e as nat);

// ---- big endian bytes ----------------------------------------------------------------------
pub open spec fn be_int(s: Seq<u8>) -> int decreases s.len() {
    if s.len() == 0 { 0 } else { be_int(s.drop_last()) * 256 + s.last() as int }
}
pub open spec fn be_enc(n: int, l: nat) -> Seq<u8> decreases l {
    if l == 0 { Seq::empty() } else { be_enc(n / 256, (l - 1) as nat).push((n % 256) as u8) }
}
pub trait VBe { type A; fn vto_be(self) -> Self::A; }
impl VBe for u16 { type A = [u8; 2];
    #[verifier::external_body] fn vto_be(self) -> (r: [u8; 2]) ensures r@ == be_enc(self as int, 2) { unimplemented!() } }
impl VBe for u32 { type A = [u8; 4];
    #[verifier::external_body] fn vto_be(self) -> (r: [u8; 4]) ensures r@ == be_enc(self as int, 4) { unimplemented!() } }
impl VBe for u64 { type A = [u8; 8];
    #[verifier::external_body] fn vto_be(self) -> (r: [u8; 8]) ensures r@ == be_enc(self as int, 8) { unimplemented!() } }
impl VBe for u128 { type A = [u8; 16];
    #[verifier::external_body] fn vto_be(self) -> (r: [u8; 16]) ensures r@ == be_enc(self as int, 16) { unimplemented!() } }
#[verifier::external_body] pub fn vp_from_be_u8(r: [u8; 1]) -> (n: u8) ensures n as int == be_int(r@) { unimplemented!() }
#[verifier::external_body] pub fn vp_from_be_u16(r: [u8; 2]) -> (n: u16) ensures n as int == be_int(r@) { unimplemented!() }
#[verifier::external_body] pub fn vp_from_be_u32(r: [u8; 4]) -> (n: u32) ensures n as int == be_int(r@) { unimplemented!() }
#[verifier::external_body] pub fn vp_from_be_u64(r: [u8; 8]) -> (n: u64) ensures n as int == be_int(r@) { unimplemented!() }
#[verifier::external_body] pub fn vp_from_be_u128(r: [u8; 16]) -> (n: u128) ensures n as int == be_int(r@) { unimplemented!() }

// ---- slices / vectors ----------------------------------------------------------------------
pub assume_specification<T: Clone> [<[T]>::to_vec] (s: &[T]) -> (r: Vec<T>) ensures r@ == s@;

#[verifier::external_body]
pub fn vp_vec_fill<T: Copy>(x: T, n: usize) -> (r: Vec<T>)
    ensures r@ == rept(x, n as int), r@.len() == n, forall|i: int| 0 <= i < n ==> r@[i] == x
{ unimplemented!() }
pub open spec fn rept<T>(x: T, n: int) -> Seq<T> { Seq::new(n as nat, |i: int| x) }

pub trait BytesView { spec fn bv(&self) -> Seq<u8>; }
impl BytesView for Vec<u8> { open spec fn bv(&self) -> Seq<u8> { self@ } }
impl BytesView for [u8] { open spec fn bv(&self) -> Seq<u8> { self@ } }
impl<const N: usize> BytesView for [u8; N] { open spec fn bv(&self) -> Seq<u8> { self@ } }
impl BytesView for Str { open spec fn bv(&self) -> Seq<u8> { self@ } }
impl<T: BytesView + ?Sized> BytesView for &T { open spec fn bv(&self) -> Seq<u8> { (**self).bv() } }

// range slicing `&x[a..b]`: the panics of the std index operators are the preconditions
pub open spec fn bnd(s: Seq<u8>, i: int) -> bool {
    i == 0 || i == s.len() || (0 < i < s.len() && (s[i] < 0x80 || s[i] >= 0xC0))
}
pub trait VSub {
    type Out: ?Sized;
    type E;
    spec fn sv(&self) -> Seq<Self::E>;
    spec fn ov(o: &Self::Out) -> Seq<Self::E>;
    spec fn okb(&self, i: int) -> bool;
    fn vsub(&self, a: usize, b: usize) -> (r: &Self::Out)
        requires a <= b <= self.sv().len(), self.okb(a as int), self.okb(b as int)
        ensures Self::ov(r) == self.sv().subrange(a as int, b as int);
    fn vsub_from(&self, a: usize) -> (r: &Self::Out)
        requires a <= self.sv().len(), self.okb(a as int)
        ensures Self::ov(r) == self.sv().subrange(a as int, self.sv().len() as int);
    fn vsub_to(&self, b: usize) -> (r: &Self::Out)
        requires b <= self.sv().len(), self.okb(b as int)
        ensures Self::ov(r) == self.sv().subrange(0, b as int);
    fn vget(&self, a: usize, b: usize) -> (r: Option<&Self::Out>)
        ensures r.is_some() == (a <= b <= self.sv().len() && self.okb(a as int) && self.okb(b as int)),
            r.is_some() ==> Self::ov(r->Some_0) == self.sv().subrange(a as int, b as int);
    fn vget_from(&self, a: usize) -> (r: Option<&Self::Out>)
        ensures r.is_some() == (a <= self.sv().len() && self.okb(a as int)),
            r.is_some() ==> Self::ov(r->Some_0) == self.sv().subrange(a as int, self.sv().len() as int);
    fn vget_to(&self, b: usize) -> (r: Option<&Self::Out>)
        ensures r.is_some() == (b <= self.sv().len() && self.okb(b as int)),
            r.is_some() ==> Self::ov(r->Some_0) == self.sv().subrange(0, b as int);
}
impl VSub for Str {
    type Out = Str;
    type E = u8;
    open spec fn sv(&self) -> Seq<u8> { self@ }
    open spec fn ov(o: &Str) -> Seq<u8> { o@ }
    open spec fn okb(&self, i: int) -> bool { bnd(self@, i) }
    #[verifier::external_body] fn vsub(&self, a: usize, b: usize) -> (r: &Str) { unimplemented!() }
    #[verifier::external_body] fn vsub_from(&self, a: usize) -> (r: &Str) { unimplemented!() }
    #[verifier::external_body] fn vsub_to(&self, b: usize) -> (r: &Str) { unimplemented!() }
    #[verifier::external_body] fn vget(&self, a: usize, b: usize) -> (r: Option<&Str>) { unimplemented!() }
    #[verifier::external_body] fn vget_from(&self, a: usize) -> (r: Option<&Str>) { unimplemented!() }
    #[verifier::external_body] fn vget_to(&self, b: usize) -> (r: Option<&Str>) { unimplemented!() }
}
impl<T> VSub for Vec<T> {
    type Out = [T];
    type E = T;
    open spec fn sv(&self) -> Seq<T> { self@ }
    open spec fn ov(o: &[T]) -> Seq<T> { o@ }
    open spec fn okb(&self, i: int) -> bool { true }
    #[verifier::external_body] fn vsub(&self, a: usize, b: usize) -> (r: &[T]) { unimplemented!() }
    #[verifier::external_body] fn vsub_from(&self, a: usize) -> (r: &[T]) { unimplemented!() }
    #[verifier::external_body] fn vsub_to(&self, b: usize) -> (r: &[T]) { unimplemented!() }
    #[verifier::external_body] fn vget(&self, a: usize, b: usize) -> (r: Option<&[T]>) { unimplemented!() }
    #[verifier::external_body] fn vget_from(&self, a: usize) -> (r: Option<&[T]>) { unimplemented!() }
    #[verifier::external_body] fn vget_to(&self, b: usize) -> (r: Option<&[T]>) { unimplemented!() }
}
impl<T> VSub for [T] {
    type Out = [T];
    type E = T;
    open spec fn sv(&self) -> Seq<T> { self@ }
    open spec fn ov(o: &[T]) -> Seq<T> { o@ }
    open spec fn okb(&self, i: int) -> bool { true }
    #[verifier::external_body] fn vsub(&self, a: usize, b: usize) -> (r: &[T]) { unimplemented!() }
    #[verifier::external_body] fn vsub_from(&self, a: usize) -> (r: &[T]) { unimplemented!() }
    #[verifier::external_body] fn vsub_to(&self, b: usize) -> (r: &[T]) { unimplemented!() }
    #[verifier::external_body] fn vget(&self, a: usize, b: usize) -> (r: Option<&[T]>) { unimplemented!() }
    #[verifier::external_body] fn vget_from(&self, a: usize) -> (r: Option<&[T]>) { unimplemented!() }
    #[verifier::external_body] fn vget_to(&self, b: usize) -> (r: Option<&[T]>) { unimplemented!() }
}
impl<T, const N: usize> VSub for [T; N] {
    type Out = [T];
    type E = T;
    open spec fn sv(&self) -> Seq<T> { self@ }
    open spec fn ov(o: &[T]) -> Seq<T> { o@ }
    open spec fn okb(&self, i: int) -> bool { true }
    #[verifier::external_body] fn vsub(&self, a: usize, b: usize) -> (r: &[T]) { unimplemented!() }
    #[verifier::external_body] fn vsub_from(&self, a: usize) -> (r: &[T]) { unimplemented!() }
    #[verifier::external_body] fn vsub_to(&self, b: usize) -> (r: &[T]) { unimplemented!() }
    #[verifier::external_body] fn vget(&self, a: usize, b: usize) -> (r: Option<&[T]>) { unimplemented!() }
    #[verifier::external_body] fn vget_from(&self, a: usize) -> (r: Option<&[T]>) { unimplemented!() }
    #[verifier::external_body] fn vget_to(&self, b: usize) -> (r: Option<&[T]>) { unimplemented!() }
}

// `x[a..b].copy_from_slice(y)` / `clone_from_slice`
pub open spec fn splice(old: Seq<u8>, a: int, src: Seq<u8>) -> Seq<u8> {
    Seq::new(old.len(), |i: int| if a <= i < a + src.len() { src[i - a] } else { old[i] })
}
pub trait VCopy {
    spec fn cv(&self) -> Seq<u8>;
    fn vcopy_range<S: BytesView + ?Sized>(&mut self, a: usize, b: usize, src: &S)
        requires a <= b <= old(self).cv().len(), src.bv().len() == b - a
        ensures final(self).cv() == splice(old(self).cv(), a as int, src.bv());
    fn vcopy_from<S: BytesView + ?Sized>(&mut self, a: usize, src: &S)
        requires a <= old(self).cv().len(), src.bv().len() == old(self).cv().len() - a
        ensures final(self).cv() == splice(old(self).cv(), a as int, src.bv());
}
pub trait VCopyAll { spec fn cav(&self) -> Seq<u8>;
    fn vcopy_all<S: BytesView + ?Sized>(&mut self, src: &S)
        requires src.bv().len() == old(self).cav().len()
        ensures final(self).cav() == src.bv(); }
impl VCopyAll for Vec<u8> { open spec fn cav(&self) -> Seq<u8> { self@ }
    #[verifier::external_body] fn vcopy_all<S: BytesView + ?Sized>(&mut self, src: &S) { unimplemented!() } }
impl<const N: usize> VCopyAll for [u8; N] { open spec fn cav(&self) -> Seq<u8> { self@ }
    #[verifier::external_body] fn vcopy_all<S: BytesView + ?Sized>(&mut self, src: &S) { unimplemented!() } }
pub trait VAppend<T> { spec fn apv(&self) -> Seq<T>; fn vappend(&mut self, o: &mut Self)
        ensures final(self).apv() == old(self).apv() + old(o).apv(), final(o).apv() == Seq::<T>::empty(); }
impl<T> VAppend<T> for Vec<T> { open spec fn apv(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vappend(&mut self, o: &mut Self) { unimplemented!() } }
impl VCopy for Vec<u8> {
    open spec fn cv(&self) -> Seq<u8> { self@ }
    #[verifier::external_body] fn vcopy_range<S: BytesView + ?Sized>(&mut self, a: usize, b: usize, src: &S) { unimplemented!() }
    #[verifier::external_body] fn vcopy_from<S: BytesView + ?Sized>(&mut self, a: usize, src: &S) { unimplemented!() }
}
impl<const N: usize> VCopy for [u8; N] {
    open spec fn cv(&self) -> Seq<u8> { self@ }
    #[verifier::external_body] fn vcopy_range<S: BytesView + ?Sized>(&mut self, a: usize, b: usize, src: &S) { unimplemented!() }
    #[verifier::external_body] fn vcopy_from<S: BytesView + ?Sized>(&mut self, a: usize, src: &S) { unimplemented!() }
}

pub trait VZeroize { fn vzeroize(&mut self); }
impl VZeroize for Vec<u8> { #[verifier::external_body] fn vzeroize(&mut self) { unimplemented!() } }
impl VZeroize for Str { #[verifier::external_body] fn vzeroize(&mut self) { unimplemented!() } }

// ---- iterators used by `for` ---------------------------------------------------------------
#[verifier::external_body] #[verifier::accept_recursive_types(T)]
pub struct It<T> { v: Vec<T> }
impl<T> View for It<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
impl<T> It<T> {
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn at(&self, i: usize) -> (r: T) requires i < self@.len() ensures r == self@[i as int] { unimplemented!() }
    #[verifier::external_body]
    pub fn take(self, n: usize) -> (r: It<T>) ensures r@ == self@.take(if n < self@.len() { n as int } else { self@.len() as int }) { unimplemented!() }
    #[verifier::external_body]
    pub fn skip(self, n: usize) -> (r: It<T>) ensures r@ == self@.skip(if n < self@.len() { n as int } else { self@.len() as int }) { unimplemented!() }
    #[verifier::external_body]
    pub fn rev(self) -> (r: It<T>) ensures r@ == self@.reverse() { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        ensures old(self)@.len() == 0 ==> r.is_none() && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.skip(1) { unimplemented!() }
    #[verifier::external_body]
    pub fn enumerate(self) -> (r: It<(usize, T)>)
        ensures r@.len() == self@.len(), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == (i as usize, self@[i]) { unimplemented!() }
    #[verifier::external_body]
    pub fn collect(self) -> (r: Vec<T>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn count(self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn last(self) -> (r: Option<T>) ensures self@.len() == 0 ==> r.is_none(), self@.len() > 0 ==> r == Some(self@.last()) { unimplemented!() }
}
impl<T: Copy> It<&T> {
    #[verifier::external_body]
    pub fn copied(self) -> (r: It<T>) ensures r@.len() == self@.len(), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == *self@[i] { unimplemented!() }
    #[verifier::external_body]
    pub fn cloned(self) -> (r: It<T>) ensures r@.len() == self@.len(), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == *self@[i] { unimplemented!() }
}
pub trait VIter { type Item; spec fn its(&self) -> Seq<Self::Item>;
    fn vp_iter(self) -> (r: It<Self::Item>) where Self: Sized ensures r@ == self.its(); }
impl<T> VIter for It<T> { type Item = T; open spec fn its(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vp_iter(self) -> (r: It<T>) { unimplemented!() } }
pub open spec fn refs<'a, T>(s: Seq<T>) -> Seq<&'a T> { Seq::new(s.len(), |i: int| &s[i]) }
impl<'a, T> VIter for &'a Vec<T> { type Item = &'a T; open spec fn its(&self) -> Seq<&'a T> { refs(self@) }
    #[verifier::external_body] fn vp_iter(self) -> (r: It<&'a T>) { unimplemented!() } }
impl<'a, T> VIter for &'a [T] { type Item = &'a T; open spec fn its(&self) -> Seq<&'a T> { refs(self@) }
    #[verifier::external_body] fn vp_iter(self) -> (r: It<&'a T>) { unimplemented!() } }
impl<T> VIter for Vec<T> { type Item = T; open spec fn its(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vp_iter(self) -> (r: It<T>) { unimplemented!() } }
pub trait VIterRef<T> { spec fn irs(&self) -> Seq<T>; fn viter(&self) -> (r: It<&T>) ensures r@ == refs(self.irs()); }
impl<T> VIterRef<T> for Vec<T> { open spec fn irs(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn viter(&self) -> (r: It<&T>) { unimplemented!() } }
impl<T> VIterRef<T> for [T] { open spec fn irs(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn viter(&self) -> (r: It<&T>) { unimplemented!() } }

// ---- strings: the view is the UTF-8 byte sequence ------------------------------------------
#[verifier::external_body]
pub struct Str { s: String }
impl View for Str { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }

pub open spec fn rep(c: u8, n: int) -> Seq<u8> { Seq::new(n as nat, |i: int| c) }
pub uninterp spec fn chars_of(s: Seq<u8>) -> Seq<char>;
pub open spec fn ascii(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] < 0x80 }
// facts about UTF-8
pub broadcast axiom fn ax_chars_ascii(s: Seq<u8>)
    requires ascii(s)
    ensures #[trigger] chars_of(s).len() == s.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] chars_of(s)[i] as int == s[i] as int;
pub broadcast axiom fn ax_chars_ascii2(s: Seq<u8>)
    requires forall|i: int| 0 <= i < chars_of(s).len() ==> (#[trigger] chars_of(s)[i] as int) < 0x80
    ensures #[trigger] chars_of(s).len() == s.len(), ascii(s);
pub broadcast axiom fn ax_chars_first(s: Seq<u8>)
    requires s.len() > 0
    ensures #[trigger] chars_of(s).len() > 0,
        (chars_of(s)[0] as int) < 0x80 <==> s[0] < 0x80,
        s[0] < 0x80 ==> chars_of(s)[0] as int == s[0] as int;
pub broadcast axiom fn ax_chars_empty(s: Seq<u8>)
    requires s.len() == 0
    ensures #[trigger] chars_of(s).len() == 0;
// a non-ascii character never matches an ascii one, at the first offending position
pub broadcast axiom fn ax_chars_prefix(s: Seq<u8>, n: int)
    requires 0 <= n <= chars_of(s).len(), forall|i: int| 0 <= i < n ==> (#[trigger] chars_of(s)[i] as int) < 0x80
    ensures #![trigger chars_of(s).take(n)] n <= s.len(), forall|i: int| 0 <= i < n ==> s[i] as int == #[trigger] chars_of(s)[i] as int,
        n < chars_of(s).len() ==> n < s.len() && ((chars_of(s)[n] as int) < 0x80 <==> s[n] < 0x80) && (s[n] < 0x80 ==> chars_of(s)[n] as int == s[n] as int);

pub open spec fn utf8_len(c: char) -> int { if (c as int) < 0x80 { 1 } else if (c as int) < 0x800 { 2 } else if (c as int) < 0x10000 { 3 } else { 4 } }
pub uninterp spec fn utf8_of(c: char) -> Seq<u8>;
pub broadcast axiom fn ax_utf8_ascii(c: char)
    requires (c as int) < 0x80
    ensures #[trigger] utf8_of(c) == seq![c as u8];
pub uninterp spec fn valid_utf8(s: Seq<u8>) -> bool;
pub broadcast axiom fn ax_valid_ascii(s: Seq<u8>)
    requires ascii(s)
    ensures #[trigger] valid_utf8(s);

// a Str is valid UTF-8: the position after an ascii byte is a char boundary
pub broadcast axiom fn ax_str_bnd(s: Str, i: int)
    requires 0 < i <= s@.len(), s@[i - 1] < 0x80
    ensures #[trigger] bnd(s@, i);
pub trait VUnwrapDef { type O; fn vunwrap_or_default(self) -> Self::O; }
impl<'a> VUnwrapDef for Option<&'a Str> { type O = &'a Str;
    #[verifier::external_body]
    fn vunwrap_or_default(self) -> (r: &'a Str)
        ensures self.is_some() ==> r@ == self->Some_0@, self.is_none() ==> r@ == Seq::<u8>::empty() { unimplemented!() } }
impl VUnwrapDef for Option<u32> { type O = u32;
    fn vunwrap_or_default(self) -> (r: u32)
        ensures r == (if self.is_some() { self->Some_0 } else { 0 }) { match self { Some(x) => x, None => 0 } } }
impl Str {
    #[verifier::external_body]
    pub fn new() -> (r: Str) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: Str) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_char_boundary(&self, i: usize) -> (r: bool) ensures r == (i <= self@.len() && bnd(self@, i as int)) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_ascii(&self) -> (r: bool) ensures r == ascii(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn chars(&self) -> (r: It<char>) ensures r@ == chars_of(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn as_vstr(&self) -> (r: &Str) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &Str) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn as_bytes(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn into_bytes(self) -> (r: Vec<u8>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn repeat(&self, n: usize) -> (r: Str)
        ensures r@.len() == self@.len() * n, self@.len() == 1 ==> r@ == rep(self@[0], n as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn vconcat(self, o: &Str) -> (r: Str) ensures r@ == self@ + o@ { unimplemented!() }
    #[verifier::external_body]
    pub fn push_str(&mut self, o: &Str) ensures final(self)@ == old(self)@ + o@ { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, c: char) ensures final(self)@ == old(self)@ + utf8_of(c) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, i: usize, c: char)
        requires i <= old(self)@.len(), bnd(old(self)@, i as int)
        ensures final(self)@ == old(self)@.subrange(0, i as int) + utf8_of(c) + old(self)@.subrange(i as int, old(self)@.len() as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn from_utf8(v: Vec<u8>) -> (r: Result<Str>) ensures r.is_ok() == valid_utf8(v@), r.is_ok() ==> r->Ok_0@ == v@ { unimplemented!() }
    #[verifier::external_body]
    pub fn from_utf8_ref(v: &[u8]) -> (r: Result<&Str>) ensures r.is_ok() == valid_utf8(v@), r.is_ok() ==> r->Ok_0@ == v@ { unimplemented!() }
    #[verifier::external_body]
    pub fn from(v: &Str) -> (r: Str) ensures r@ == v@ { unimplemented!() }
    #[verifier::external_body]
    pub fn starts_with<P: VPat>(&self, p: P) -> (r: bool) ensures r == p.pv().is_prefix_of(self@) { unimplemented!() }
}
impl Clone for Str {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() }
}
impl Default for Str {
    #[verifier::external_body]
    fn default() -> (r: Self) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for Str {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Str) -> bool { self@ == other@ }
}
impl PartialEq for Str {
    #[verifier::external_body]
    fn eq(&self, other: &Str) -> (r: bool) { unimplemented!() }
}
#[verifier::external_body]
pub fn vp_streq(a: &Str, b: &Str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
#[verifier::external_body]
pub fn vp_byteseq(a: &[u8], b: &[u8]) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }

// equality used by `[..].contains(&x)` and `==` on strings
pub trait VEq<R: ?Sized> { spec fn eqs(&self, r: &R) -> bool; fn veq(&self, r: &R) -> (b: bool) ensures b == self.eqs(r); }
impl VEq<Str> for Str { open spec fn eqs(&self, r: &Str) -> bool { self@ == r@ }
    #[verifier::external_body] fn veq(&self, r: &Str) -> (b: bool) { unimplemented!() } }
impl<'a> VEq<&'a Str> for Str { open spec fn eqs(&self, r: &&'a Str) -> bool { self@ == r@ }
    #[verifier::external_body] fn veq(&self, r: &&'a Str) -> (b: bool) { unimplemented!() } }
impl<'a> VEq<Str> for &'a Str { open spec fn eqs(&self, r: &Str) -> bool { self@ == r@ }
    #[verifier::external_body] fn veq(&self, r: &Str) -> (b: bool) { unimplemented!() } }
impl<'a, 'b> VEq<&'b Str> for &'a Str { open spec fn eqs(&self, r: &&'b Str) -> bool { self@ == r@ }
    #[verifier::external_body] fn veq(&self, r: &&'b Str) -> (b: bool) { unimplemented!() } }
impl VEq<char> for char { open spec fn eqs(&self, r: &char) -> bool { *self == *r }
    #[verifier::external_body] fn veq(&self, r: &char) -> (b: bool) { unimplemented!() } }
impl<'a> VEq<char> for &'a char { open spec fn eqs(&self, r: &char) -> bool { **self == *r }
    #[verifier::external_body] fn veq(&self, r: &char) -> (b: bool) { unimplemented!() } }

// ---- formatting ----------------------------------------------------------------------------
pub open spec fn dec_digits(n: nat) -> Seq<u8> decreases n {
    if n < 10 { seq![(48 + n) as u8] } else { dec_digits(n / 10).push((48 + n % 10) as u8) }
}
pub open spec fn hexdig(d: int) -> u8 { if d < 10 { (48 + d) as u8 } else { (87 + d) as u8 } }
pub open spec fn hex_digits(n: nat) -> Seq<u8> decreases n {
    if n < 16 { seq![hexdig(n as int)] } else { hex_digits(n / 16).push(hexdig((n % 16) as int)) }
}
pub open spec fn zpad(s: Seq<u8>, w: int) -> Seq<u8> {
    if s.len() >= w { s } else { Seq::new((w - s.len()) as nat, |i: int| 48u8) + s }
}
#[verifier::external_body]
pub fn vp_cat(a: Str, b: Str) -> (r: Str) ensures r@ == a@ + b@ { unimplemented!() }
#[verifier::external_body]
pub fn vp_fmt_opaque() -> Str { unimplemented!() }
pub trait VDisp { spec fn dv(&self) -> Seq<u8>; fn vdisp(&self) -> (r: Str) ensures r@ == self.dv();
    fn vto_string(&self) -> (r: Str) ensures r@ == self.dv(); }
impl VDisp for Str { open spec fn dv(&self) -> Seq<u8> { self@ }
    #[verifier::external_body] fn vdisp(&self) -> (r: Str) { unimplemented!() }
    #[verifier::external_body] fn vto_string(&self) -> (r: Str) { unimplemented!() } }
impl<T: VDisp + ?Sized> VDisp for &T { open spec fn dv(&self) -> Seq<u8> { (**self).dv() }
    #[verifier::external_body] fn vdisp(&self) -> (r: Str) { unimplemented!() }
    #[verifier::external_body] fn vto_string(&self) -> (r: Str) { unimplemented!() } }
impl VDisp for char { open spec fn dv(&self) -> Seq<u8> { utf8_of(*self) }
    #[verifier::external_body] fn vdisp(&self) -> (r: Str) { unimplemented!() }
    #[verifier::external_body] fn vto_string(&self) -> (r: Str) { unimplemented!() } }
impl VDisp for u8 { open spec fn dv(&self) -> Seq<u8> { dec_digits(*self as nat) }
    #[verifier::external_body] fn vdisp(&self) -> (r: Str) { unimplemented!() }
    #[verifier::external_body] fn vto_string(&self) -> (r: Str) { unimplemented!() } }
impl VDisp for u32 { open spec fn dv(&self) -> Seq<u8> { dec_digits(*self as nat) }
    #[verifier::external_body] fn vdisp(&self) -> (r: Str) { unimplemented!() }
    #[verifier::external_body] fn vto_string(&self) -> (r: Str) { unimplemented!() } }
impl VDisp for u64 { open spec fn dv(&self) -> Seq<u8> { dec_digits(*self as nat) }
    #[verifier::external_body] fn vdisp(&self) -> (r: Str) { unimplemented!() }
    #[verifier::external_body] fn vto_string(&self) -> (r: Str) { unimplemented!() } }
impl VDisp for usize { open spec fn dv(&self) -> Seq<u8> { dec_digits(*self as nat) }
    #[verifier::external_body] fn vdisp(&self) -> (r: Str) { unimplemented!() }
    #[verifier::external_body] fn vto_string(&self) -> (r: Str) { unimplemented!() } }
impl VDisp for u128 { open spec fn dv(&self) -> Seq<u8> { dec_digits(*self as nat) }
    #[verifier::external_body] fn vdisp(&self) -> (r: Str) { unimplemented!() }
    #[verifier::external_body] fn vto_string(&self) -> (r: Str) { unimplemented!() } }
impl VDisp for i32 { open spec fn dv(&self) -> Seq<u8> { if *self < 0 { seq![45u8] + dec_digits((-*self) as nat) } else { dec_digits(*self as nat) } }
    #[verifier::external_body] fn vdisp(&self) -> (r: Str) { unimplemented!() }
    #[verifier::external_body] fn vto_string(&self) -> (r: Str) { unimplemented!() } }
impl VDisp for i64 { open spec fn dv(&self) -> Seq<u8> { if *self < 0 { seq![45u8] + dec_digits((-*self) as nat) } else { dec_digits(*self as nat) } }
    #[verifier::external_body] fn vdisp(&self) -> (r: Str) { unimplemented!() }
    #[verifier::external_body] fn vto_string(&self) -> (r: Str) { unimplemented!() } }
pub trait VHex { spec fn hv(&self) -> nat; fn vhex(&self, w: usize) -> (r: Str) ensures r@ == zpad(hex_digits(self.hv()), w as int); }
impl VHex for u128 { open spec fn hv(&self) -> nat { *self as nat } #[verifier::external_body] fn vhex(&self, w: usize) -> (r: Str) { unimplemented!() } }
impl VHex for u16 { open spec fn hv(&self) -> nat { *self as nat } #[verifier::external_body] fn vhex(&self, w: usize) -> (r: Str) { unimplemented!() } }
impl<'a, T: VHex> VHex for &'a T { open spec fn hv(&self) -> nat { (**self).hv() } #[verifier::external_body] fn vhex(&self, w: usize) -> (r: Str) { unimplemented!() } }
impl VHex for u8 { open spec fn hv(&self) -> nat { *self as nat } #[verifier::external_body] fn vhex(&self, w: usize) -> (r: Str) { unimplemented!() } }
impl VHex for u32 { open spec fn hv(&self) -> nat { *self as nat } #[verifier::external_body] fn vhex(&self, w: usize) -> (r: Str) { unimplemented!() } }
impl VHex for u64 { open spec fn hv(&self) -> nat { *self as nat } #[verifier::external_body] fn vhex(&self, w: usize) -> (r: Str) { unimplemented!() } }
impl VHex for i64 { open spec fn hv(&self) -> nat { if *self < 0 { (*self + 0x1_0000_0000_0000_0000) as nat } else { *self as nat } } #[verifier::external_body] fn vhex(&self, w: usize) -> (r: Str) { unimplemented!() } }
impl VHex for usize { open spec fn hv(&self) -> nat { *self as nat } #[verifier::external_body] fn vhex(&self, w: usize) -> (r: Str) { unimplemented!() } }

pub assume_specification [u8::is_ascii] (b: &u8) -> (r: bool) ensures r == (*b < 0x80);
// collecting characters or pieces of text into a String
pub trait VPushItem<T> { spec fn piv(x: T) -> Seq<u8>; fn vpush_item(&mut self, x: T) where Self: Sized; }
impl VPushItem<char> for Str { open spec fn piv(x: char) -> Seq<u8> { utf8_of(x) } #[verifier::external_body] fn vpush_item(&mut self, x: char) ensures final(self)@ == old(self)@ + Self::piv(x) { unimplemented!() } }
// ---- splitting, joining, parsing ---------------------------------------------------------------
pub open spec fn split_at(s: Seq<u8>, c: int) -> Seq<Seq<u8>> decreases s.len() {
    if s.len() == 0 { seq![Seq::empty()] }
    else { let r = split_at(s.drop_last(), c); if s.last() == c { r.push(Seq::empty()) } else { r.drop_last().push(r.last().push(s.last())) } }
}
pub trait VPat { spec fn pv(&self) -> Seq<u8>; }
impl VPat for char { open spec fn pv(&self) -> Seq<u8> { if (*self as int) < 0x80 { seq![*self as u8] } else { utf8_of(*self) } } }
impl<'a> VPat for &'a Str { open spec fn pv(&self) -> Seq<u8> { self@ } }
pub open spec fn views<'a>(s: Seq<&'a Str>) -> Seq<Seq<u8>> { Seq::new(s.len(), |i: int| s[i]@) }
impl Str {
    // splitting at a one byte separator
    #[verifier::external_body]
    pub fn split<'a, P: VPat>(&'a self, p: P) -> (r: It<&'a Str>) ensures p.pv().len() == 1 ==> views(r@) == split_at(self@, p.pv()[0] as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn parse_i32(&self) -> (r: Result<i32>) ensures r.is_ok() == p_i32(self@).is_some(), r.is_ok() ==> r->Ok_0 as int == p_i32(self@)->Some_0 { unimplemented!() }
    #[verifier::external_body]
    pub fn parse_usize(&self) -> (r: Result<usize>) ensures r.is_ok() == p_usize(self@).is_some(), r.is_ok() ==> r->Ok_0 as int == p_usize(self@)->Some_0 { unimplemented!() }
    #[verifier::external_body]
    pub fn parse_i8(&self) -> (r: Result<i8>) ensures r.is_ok() == p_i8(self@).is_some(), r.is_ok() ==> r->Ok_0 as int == p_i8(self@)->Some_0 { unimplemented!() }
}
pub open spec fn all_dig(s: Seq<u8>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> 48 <= #[trigger] s[i] <= 57 }
pub open spec fn dec_val(s: Seq<u8>) -> int decreases s.len() { if s.len() == 0 { 0 } else { dec_val(s.drop_last()) * 10 + (s.last() - 48) } }
// <i8 as FromStr>: optional sign, at least one digit, in range
pub open spec fn p_i8(s: Seq<u8>) -> Option<int> {
    if s.len() > 0 && s[0] == 45 { if all_dig(s.skip(1)) && dec_val(s.skip(1)) <= 128 { Some(-dec_val(s.skip(1))) } else { None } }
    else { let t = if s.len() > 0 && s[0] == 43 { s.skip(1) } else { s }; if all_dig(t) && dec_val(t) <= 127 { Some(dec_val(t)) } else { None } }
}
// <i32 as FromStr>
pub open spec fn p_i32(s: Seq<u8>) -> Option<int> {
    if s.len() > 0 && s[0] == 45 { if all_dig(s.skip(1)) && dec_val(s.skip(1)) <= 0x8000_0000 { Some(-dec_val(s.skip(1))) } else { None } }
    else { let t = if s.len() > 0 && s[0] == 43 { s.skip(1) } else { s }; if all_dig(t) && dec_val(t) <= 0x7fff_ffff { Some(dec_val(t)) } else { None } }
}
// <usize as FromStr>: optional '+'
pub open spec fn p_usize(s: Seq<u8>) -> Option<int> { let t = if s.len() > 0 && s[0] == 43 { s.skip(1) } else { s }; if all_dig(t) && dec_val(t) <= usize::MAX { Some(dec_val(t)) } else { None } }
pub open spec fn joined(s: Seq<Seq<u8>>, sep: Seq<u8>) -> Seq<u8> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else if s.len() == 1 { s[0] } else { joined(s.drop_last(), sep) + sep + s.last() }
}
pub trait VJoin { spec fn jv(&self) -> Seq<Seq<u8>>; fn vjoin(&self, sep: &Str) -> (r: Str) ensures r@ == joined(self.jv(), sep@); }
impl VJoin for Vec<Str> { open spec fn jv(&self) -> Seq<Seq<u8>> { Seq::new(self@.len(), |i: int| self@[i]@) }
    #[verifier::external_body] fn vjoin(&self, sep: &Str) -> (r: Str) { unimplemented!() } }
impl<'a> VJoin for Vec<&'a Str> { open spec fn jv(&self) -> Seq<Seq<u8>> { views(self@) }
    #[verifier::external_body] fn vjoin(&self, sep: &Str) -> (r: Str) { unimplemented!() } }
pub trait VToOwned { type O; spec fn owns(&self, r: &Self::O) -> bool;
    fn vto_owned(&self) -> (r: Self::O) ensures self.owns(&r); }
impl VToOwned for Str { type O = Str; open spec fn owns(&self, r: &Str) -> bool { r@ == self@ }
    #[verifier::external_body] fn vto_owned(&self) -> (r: Str) { unimplemented!() } }
impl VToOwned for [u8] { type O = Vec<u8>; open spec fn owns(&self, r: &Vec<u8>) -> bool { r@ == self@ }
    #[verifier::external_body] fn vto_owned(&self) -> (r: Vec<u8>) { unimplemented!() } }
impl VToOwned for u16 { type O = u16; open spec fn owns(&self, r: &u16) -> bool { *r == *self } fn vto_owned(&self) -> (r: u16) { *self } }

// ---- integer conversions -------------------------------------------------------------------
pub trait VTryInto<T> { spec fn fits(&self) -> bool; spec fn conv(&self) -> T;
    fn vtry_into(self) -> (r: Result<T>) ensures r.is_ok() == self.fits(), r.is_ok() ==> r->Ok_0 == self.conv(); }
impl VTryInto<u8> for u32 { open spec fn fits(&self) -> bool { *self <= 255 } open spec fn conv(&self) -> u8 { *self as u8 }
    #[verifier::external_body] fn vtry_into(self) -> (r: Result<u8>) { unimplemented!() } }
impl VTryInto<u8> for u64 { open spec fn fits(&self) -> bool { *self <= 255 } open spec fn conv(&self) -> u8 { *self as u8 }
    #[verifier::external_body] fn vtry_into(self) -> (r: Result<u8>) { unimplemented!() } }
impl VTryInto<u32> for u64 { open spec fn fits(&self) -> bool { *self <= u32::MAX } open spec fn conv(&self) -> u32 { *self as u32 }
    #[verifier::external_body] fn vtry_into(self) -> (r: Result<u32>) { unimplemented!() } }
impl VTryInto<u32> for usize { open spec fn fits(&self) -> bool { *self <= u32::MAX } open spec fn conv(&self) -> u32 { *self as u32 }
    #[verifier::external_body] fn vtry_into(self) -> (r: Result<u32>) { unimplemented!() } }

pub uninterp spec fn arr_of<const N: usize>(s: Seq<u8>) -> [u8; N];
pub broadcast axiom fn ax_arr_of<const N: usize>(s: Seq<u8>)
    requires s.len() == N
    ensures (#[trigger] arr_of::<N>(s))@ == s;
impl<'a, const N: usize> VTryInto<[u8; N]> for &'a [u8] { open spec fn fits(&self) -> bool { self@.len() == N } open spec fn conv(&self) -> [u8; N] { arr_of::<N>(self@) }
    #[verifier::external_body] fn vtry_into(self) -> (r: Result<[u8; N]>) { unimplemented!() } }

// <u128>::from_str_radix(s, 16): optional '+', at least one hex digit, in range
pub open spec fn hexval(c: int) -> int { if 48 <= c <= 57 { c - 48 } else if 97 <= c <= 102 { c - 87 } else if 65 <= c <= 70 { c - 55 } else { -1 } }
pub open spec fn all_hex(s: Seq<u8>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> hexval(#[trigger] s[i] as int) >= 0 }
pub open spec fn hex_int(s: Seq<u8>) -> int decreases s.len() { if s.len() == 0 { 0 } else { hex_int(s.drop_last()) * 16 + hexval(s.last() as int) } }
pub open spec fn p_hex(s: Seq<u8>, max: int) -> Option<int> {
    let t = if s.len() > 0 && s[0] == 43 { s.skip(1) } else { s };
    if all_hex(t) && hex_int(t) <= max { Some(hex_int(t)) } else { None }
}
#[verifier::external_body]
pub fn vp_from_radix_u128(s: &Str, radix: u32) -> (r: Result<u128>) ensures radix == 16 ==> r.is_ok() == p_hex(s@, u128::MAX as int).is_some() && (r.is_ok() ==> r->Ok_0 as int == p_hex(s@, u128::MAX as int)->Some_0) { unimplemented!() }
#[verifier::external_body]
pub fn vp_from_radix_usize(s: &Str, radix: u32) -> (r: Result<usize>) ensures radix == 16 ==> r.is_ok() == p_hex(s@, usize::MAX as int).is_some() && (r.is_ok() ==> r->Ok_0 as int == p_hex(s@, usize::MAX as int)->Some_0) { unimplemented!() }

#[verifier::external_body]
pub fn vp_from_radix_u8(s: &Str, radix: u32) -> (r: Result<u8>) ensures radix == 16 ==> r.is_ok() == p_hex(s@, u8::MAX as int).is_some() && (r.is_ok() ==> r->Ok_0 as int == p_hex(s@, u8::MAX as int)->Some_0) { unimplemented!() }
#[verifier::external_body]
pub fn vp_from_radix_u32(s: &Str, radix: u32) -> (r: Result<u32>) ensures radix == 16 ==> r.is_ok() == p_hex(s@, u32::MAX as int).is_some() && (r.is_ok() ==> r->Ok_0 as int == p_hex(s@, u32::MAX as int)->Some_0) { unimplemented!() }
// <i64>::from_str_radix(s, 16): optional sign
pub open spec fn p_hexi(s: Seq<u8>) -> Option<int> {
    if s.len() > 0 && s[0] == 45 { let t = s.skip(1); if all_hex(t) && hex_int(t) <= 0x8000_0000_0000_0000 { Some(-hex_int(t)) } else { None } } else { p_hex(s, i64::MAX as int) }
}
#[verifier::external_body]
pub fn vp_from_radix_i64(s: &Str, radix: u32) -> (r: Result<i64>) ensures radix == 16 ==> r.is_ok() == p_hexi(s@).is_some() && (r.is_ok() ==> r->Ok_0 as int == p_hexi(s@)->Some_0) { unimplemented!() }
// ---- lossless integer conversions ----------------------------------------------------------
pub trait VIntoInt: Sized { spec fn iv(self) -> int;
    fn vp_into_i64(self) -> (r: i64) requires i64::MIN <= self.iv() <= i64::MAX ensures r as int == self.iv();
    fn vp_into_u64(self) -> (r: u64) requires 0 <= self.iv() <= u64::MAX ensures r as int == self.iv();
    fn vp_into_u32(self) -> (r: u32) requires 0 <= self.iv() <= u32::MAX ensures r as int == self.iv();
    fn vp_into_i128(self) -> (r: i128) requires i128::MIN <= self.iv() <= i128::MAX ensures r as int == self.iv();
    fn vp_into_u128(self) -> (r: u128) requires 0 <= self.iv() <= u128::MAX ensures r as int == self.iv(); }
impl VIntoInt for i32 { open spec fn iv(self) -> int { self as int }
    #[verifier::external_body] fn vp_into_i64(self) -> (r: i64) { unimplemented!() }
    #[verifier::external_body] fn vp_into_u64(self) -> (r: u64) { unimplemented!() }
    #[verifier::external_body] fn vp_into_u32(self) -> (r: u32) { unimplemented!() }
    #[verifier::external_body] fn vp_into_i128(self) -> (r: i128) { unimplemented!() }
    #[verifier::external_body] fn vp_into_u128(self) -> (r: u128) { unimplemented!() } }
impl VIntoInt for u32 { open spec fn iv(self) -> int { self as int }
    #[verifier::external_body] fn vp_into_i64(self) -> (r: i64) { unimplemented!() }
    #[verifier::external_body] fn vp_into_u64(self) -> (r: u64) { unimplemented!() }
    #[verifier::external_body] fn vp_into_u32(self) -> (r: u32) { unimplemented!() }
    #[verifier::external_body] fn vp_into_i128(self) -> (r: i128) { unimplemented!() }
    #[verifier::external_body] fn vp_into_u128(self) -> (r: u128) { unimplemented!() } }
impl VIntoInt for u16 { open spec fn iv(self) -> int { self as int }
    #[verifier::external_body] fn vp_into_i64(self) -> (r: i64) { unimplemented!() }
    #[verifier::external_body] fn vp_into_u64(self) -> (r: u64) { unimplemented!() }
    #[verifier::external_body] fn vp_into_u32(self) -> (r: u32) { unimplemented!() }
    #[verifier::external_body] fn vp_into_i128(self) -> (r: i128) { unimplemented!() }
    #[verifier::external_body] fn vp_into_u128(self) -> (r: u128) { unimplemented!() } }
impl VIntoInt for u8 { open spec fn iv(self) -> int { self as int }
    #[verifier::external_body] fn vp_into_i64(self) -> (r: i64) { unimplemented!() }
    #[verifier::external_body] fn vp_into_u64(self) -> (r: u64) { unimplemented!() }
    #[verifier::external_body] fn vp_into_u32(self) -> (r: u32) { unimplemented!() }
    #[verifier::external_body] fn vp_into_i128(self) -> (r: i128) { unimplemented!() }
    #[verifier::external_body] fn vp_into_u128(self) -> (r: u128) { unimplemented!() } }
impl VIntoInt for i64 { open spec fn iv(self) -> int { self as int }
    #[verifier::external_body] fn vp_into_i64(self) -> (r: i64) { unimplemented!() }
    #[verifier::external_body] fn vp_into_u64(self) -> (r: u64) { unimplemented!() }
    #[verifier::external_body] fn vp_into_u32(self) -> (r: u32) { unimplemented!() }
    #[verifier::external_body] fn vp_into_i128(self) -> (r: i128) { unimplemented!() }
    #[verifier::external_body] fn vp_into_u128(self) -> (r: u128) { unimplemented!() } }
impl VIntoInt for u64 { open spec fn iv(self) -> int { self as int }
    #[verifier::external_body] fn vp_into_i64(self) -> (r: i64) { unimplemented!() }
    #[verifier::external_body] fn vp_into_u64(self) -> (r: u64) { unimplemented!() }
    #[verifier::external_body] fn vp_into_u32(self) -> (r: u32) { unimplemented!() }
    #[verifier::external_body] fn vp_into_i128(self) -> (r: i128) { unimplemented!() }
    #[verifier::external_body] fn vp_into_u128(self) -> (r: u128) { unimplemented!() } }
// ---- sorting -------------------------------------------------------------------------------
pub open spec fn sorted_u32(s: Seq<u32>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i] <= #[trigger] s[j] }
pub trait VSort { spec fn sov(&self) -> Seq<u32>; fn vsort(&mut self) ensures sorted_u32(final(self).sov()), final(self).sov().to_multiset() == old(self).sov().to_multiset(); }
impl VSort for Vec<u32> { open spec fn sov(&self) -> Seq<u32> { self@ } #[verifier::external_body] fn vsort(&mut self) { unimplemented!() } }
// Vec::dedup: of every run of equal elements the first stays
pub open spec fn dedup<T>(s: Seq<T>) -> Seq<T> decreases s.len() {
    if s.len() < 2 { s } else if s[s.len() - 1] == s[s.len() - 2] { dedup(s.drop_last()) } else { dedup(s.drop_last()).push(s.last()) }
}
pub trait VDedup { spec fn ddv(&self) -> Seq<u32>; fn vdedup(&mut self) ensures final(self).ddv() == dedup(old(self).ddv()); }
impl VDedup for Vec<u32> { open spec fn ddv(&self) -> Seq<u32> { self@ } #[verifier::external_body] fn vdedup(&mut self) { unimplemented!() } }
// ---- usize::from ---------------------------------------------------------------------------
pub trait VIntoUsize: Sized { spec fn us(self) -> int; fn into_usize(self) -> (r: usize) ensures r as int == self.us(); }
impl VIntoUsize for bool { open spec fn us(self) -> int { if self { 1 } else { 0 } } #[verifier::external_body] fn into_usize(self) -> (r: usize) { self as usize } }
impl VIntoUsize for u8 { open spec fn us(self) -> int { self as int } fn into_usize(self) -> (r: usize) { self as usize } }
impl VIntoUsize for u16 { open spec fn us(self) -> int { self as int } fn into_usize(self) -> (r: usize) { self as usize } }
// ---- regular expressions: only patterns with an axiom below mean anything ------------------
#[verifier::external_body]
pub struct Regex { x: u8 }
pub uninterp spec fn re_match(pat: Seq<u8>, s: Seq<u8>) -> bool;
impl Regex {
    pub uninterp spec fn pat(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn is_match(&self, s: &Str) -> (r: bool) ensures r == re_match(self.pat(), s@) { unimplemented!() }
}
#[verifier::external_body]
pub fn vp_regex(p: &Str) -> (r: Regex) ensures r.pat() == p@ { unimplemented!() }
// "^[A-Za-z0-9\\-_]*$" (no multi-line flag: $ is the end of the text)
pub open spec fn re_b64() -> Seq<u8> { seq![94u8, 91u8, 65u8, 45u8, 90u8, 97u8, 45u8, 122u8, 48u8, 45u8, 57u8, 92u8, 45u8, 95u8, 93u8, 42u8, 36u8] }
pub broadcast axiom fn ax_reb64(p: Seq<u8>, s: Seq<u8>)
    requires p == re_b64()
    ensures #[trigger] re_match(p, s) == all_b64(s);

// ---- replacing one byte patterns -----------------------------------------------------------
pub open spec fn repl(s: Seq<u8>, a: u8, b: u8) -> Seq<u8> { Seq::new(s.len(), |i: int| if s[i] == a { b } else { s[i] }) }
impl Str {
    #[verifier::external_body]
    pub fn vreplace<P: VPat>(&self, p: P, to: &Str) -> (r: Str) ensures p.pv().len() == 1 && p.pv()[0] < 0x80 && to@.len() == 1 ==> r@ == repl(self@, p.pv()[0], to@[0]) { unimplemented!() }
}

// ---- f32 (only the overflow estimate of u32_to_b64 / u64_to_b64 uses floats) ----------------
#[verifier::external_body] #[derive(Clone, Copy)]
pub struct F32 { f: f32 }
pub uninterp spec fn f_of(n: int) -> F32;
pub uninterp spec fn f_log2(a: F32) -> F32;
pub uninterp spec fn f_sub(a: F32, b: F32) -> F32;
pub uninterp spec fn f_add(a: F32, b: F32) -> F32;
pub uninterp spec fn f_mul(a: F32, b: F32) -> F32;
pub uninterp spec fn f_div(a: F32, b: F32) -> F32;
pub uninterp spec fn f_ge(a: F32, b: F32) -> bool;
pub uninterp spec fn f_gt(a: F32, b: F32) -> bool;
pub trait VF32 { spec fn fi(&self) -> int; fn vf32(self) -> (r: F32) where Self: Sized ensures r == f_of(self.fi()); }
impl VF32 for u32 { open spec fn fi(&self) -> int { *self as int } #[verifier::external_body] fn vf32(self) -> (r: F32) { unimplemented!() } }
impl VF32 for u64 { open spec fn fi(&self) -> int { *self as int } #[verifier::external_body] fn vf32(self) -> (r: F32) { unimplemented!() } }
impl VF32 for usize { open spec fn fi(&self) -> int { *self as int } #[verifier::external_body] fn vf32(self) -> (r: F32) { unimplemented!() } }
#[verifier::external_body] pub fn vp_flog2(a: F32) -> (r: F32) ensures r == f_log2(a) { unimplemented!() }
#[verifier::external_body] pub fn vp_fsub(a: F32, b: F32) -> (r: F32) ensures r == f_sub(a, b) { unimplemented!() }
#[verifier::external_body] pub fn vp_fadd(a: F32, b: F32) -> (r: F32) ensures r == f_add(a, b) { unimplemented!() }
#[verifier::external_body] pub fn vp_fmul(a: F32, b: F32) -> (r: F32) ensures r == f_mul(a, b) { unimplemented!() }
#[verifier::external_body] pub fn vp_fdiv(a: F32, b: F32) -> (r: F32) ensures r == f_div(a, b) { unimplemented!() }
#[verifier::external_body] pub fn vp_fge(a: F32, b: F32) -> (r: bool) ensures r == f_ge(a, b) { unimplemented!() }
#[verifier::external_body] pub fn vp_fgt(a: F32, b: F32) -> (r: bool) ensures r == f_gt(a, b) { unimplemented!() }
#[verifier::external_body] pub fn vp_fle(a: F32, b: F32) -> (r: bool) ensures r == f_ge(b, a) { unimplemented!() }
#[verifier::external_body] pub fn vp_flt(a: F32, b: F32) -> (r: bool) ensures r == f_gt(b, a) { unimplemented!() }
// length as f32 - (n as f32).log2() / 64f32.log2() >= 0.0 whenever 0 < n < 64^length, n < 2^64
// (validated exhaustively over every f32 in range by `harness --f32-axiom`)
pub broadcast axiom fn ax_f32_overflow(n: int, l: int)
    requires 0 < n <= 0xffff_ffff_ffff_ffff, l >= 1, n < vpow(64, l as nat)
    ensures f_ge(#[trigger] f_sub(f_of(l), f_div(f_log2(f_of(n)), f_log2(f_of(64)))), f_of(0));

// ---- base64 engine -------------------------------------------------------------------------
// decode accepts exactly the canonical padded url-safe encodings and is the inverse of encode
pub mod b64_engine {
    use vstd::prelude::*;
    use super::*;
    pub struct UrlSafe;
    pub const URL_SAFE: UrlSafe = UrlSafe;
    impl UrlSafe {
        #[verifier::external_body]
        pub fn encode<T: BytesView>(&self, x: T) -> (r: Str) ensures r@ == b64e(x.bv()) { unimplemented!() }
        #[verifier::external_body]
        pub fn encode_slice<T: BytesView>(&self, x: T, out: &mut Vec<u8>) -> (r: Result<usize>)
            ensures final(out)@.len() == old(out)@.len(),
                r.is_ok() == (b64e(x.bv()).len() <= old(out)@.len()),
                r.is_ok() ==> final(out)@ == splice(old(out)@, 0, b64e(x.bv())) && r->Ok_0 == b64e(x.bv()).len() { unimplemented!() }
        #[verifier::external_body]
        pub fn decode_vec<T: BytesView>(&self, x: T, out: &mut Vec<u8>) -> (r: Result<()>)
            ensures r.is_ok() ==> final(out)@.len() >= old(out)@.len()
                    && final(out)@.take(old(out)@.len() as int) == old(out)@
                    && x.bv() == b64e(final(out)@.skip(old(out)@.len() as int)),
                (all_b64(x.bv()) && x.bv().len() % 4 == 0) ==> r.is_ok() { unimplemented!() }
        #[verifier::external_body]
        pub fn decode<T: BytesView>(&self, x: T) -> (r: Result<Vec<u8>>)
            ensures r.is_ok() ==> x.bv() == b64e(r->Ok_0@),
                (all_b64(x.bv()) && x.bv().len() % 4 == 0) ==> r.is_ok() { unimplemented!() }
    }
}
pub const b64_engine: b64_engine::UrlSafe = b64_engine::UrlSafe;
pub mod base64 { pub mod engine { pub mod general_purpose { pub use super::super::super::b64_engine::*; } } }
// ---- `==` on byte vectors and slices: equality of contents (std) --------------------------
pub uninterp spec fn sv_eq<T, U>(a: Seq<T>, b: Seq<U>) -> bool;
pub broadcast axiom fn ax_sv_eq(a: Seq<u8>, b: Seq<u8>) ensures (#[trigger] sv_eq::<u8, u8>(a, b)) == (a == b);
pub assume_specification<'a, T: PartialEq<U>, U, A: core::alloc::Allocator>[<&'a [T] as PartialEq<Vec<U, A>>>::eq](a: &&'a [T], b: &Vec<U, A>) -> (r: bool) ensures r == sv_eq(a@, b@);
pub assume_specification<'a, T: PartialEq<U>, U, A: core::alloc::Allocator>[<Vec<T, A> as PartialEq<&'a [U]>>::eq](a: &Vec<T, A>, b: &&[U]) -> (r: bool) ensures r == sv_eq(a@, b@);
pub broadcast proof fn l_vec_eq(x: Vec<u8>, y: Vec<u8>) ensures (#[trigger] vstd::std_specs::cmp::PartialEqSpec::eq_spec(&x, &y)) == (x@ == y@) { if vstd::std_specs::cmp::PartialEqSpec::eq_spec(&x, &y) { assert(x@ =~= y@); } }
pub broadcast proof fn l_slice_eq(x: &[u8], y: &[u8]) ensures (#[trigger] vstd::std_specs::cmp::PartialEqSpec::eq_spec(&*x, y)) == (x@ == y@) { if vstd::std_specs::cmp::PartialEqSpec::eq_spec(&*x, y) { assert(x@ =~= y@); } }

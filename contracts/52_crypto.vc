@fn cesr::crypto::hash::digest(code, ser) -> res
ensures
    res.is_ok() == h_alg(code@).is_some(),
    res.is_ok() ==> res->Ok_0@ == h_dig(code@, ser@),
@entry
    proof { assert(Seq::<u8>::empty() + ser@ =~= ser@); }

@fn cesr::crypto::sign::generate(code) -> res
ensures
    res.is_ok() == s_suite(code@).is_some(),
    res.is_ok() ==> x_sk_ok(s_suite(code@)->Some_0, res->Ok_0@) && res->Ok_0@.len() == 32,
@entry
    broadcast use ax_sk;

@fn cesr::crypto::sign::public_key(code, private_key) -> res
requires
    s_suite(code@) == Some(0int) ==> private_key@.len() >= 32,
ensures
    res.is_ok() == (s_suite(code@).is_some() && s_pub(s_suite(code@)->Some_0, private_key@).is_some()),
    res.is_ok() ==> Some(res->Ok_0@) == s_pub(s_suite(code@)->Some_0, private_key@),

@fn cesr::crypto::sign::sign(code, private_key, ser) -> res
ensures
    res.is_ok() == (s_suite(code@).is_some() && (s_suite(code@)->Some_0 == 0 ==> private_key@.len() == 32) && (s_suite(code@)->Some_0 != 0 ==> x_sk_ok(s_suite(code@)->Some_0, private_key@))),
    res.is_ok() ==> x_signed(s_suite(code@)->Some_0, private_key@, ser@, res->Ok_0@),

@fn cesr::crypto::sign::verify(code, public_key, sig, ser) -> res
ensures
    s_suite(code@).is_some() ==> v_res(res, s_ver(s_suite(code@)->Some_0, public_key@, sig@, ser@)),
    s_suite(code@).is_none() ==> res.is_err(),

@fn cesr::crypto::sign::ed25519::generate() -> res
ensures
    res.is_ok(), x_sk_ok(0, res->Ok_0@),
@attrs #[verifier::exec_allows_no_decreases_clause]
@loop 0 vars(private_key, verifying_key, weak)
    invariant
        x_sk_ok(0, private_key.sk()),

@fn cesr::crypto::sign::ed25519::public_key(private_key) -> res
requires
    private_key@.len() >= 32,
ensures
    res.is_ok(), Some(res->Ok_0@) == s_pub(0, private_key@),
@entry
    broadcast use ax_arr_of;

@fn cesr::crypto::sign::ed25519::sign(private_key, ser) -> res
ensures
    res.is_ok() == (private_key@.len() == 32),
    res.is_ok() ==> x_signed(0, private_key@, ser@, res->Ok_0@),
@entry
    broadcast use ax_arr_of;

@fn cesr::crypto::sign::ed25519::verify(public_key, sig, ser) -> res
ensures
    v_res(res, s_ver(0, public_key@, sig@, ser@)),
@entry
    broadcast use ax_arr_of;

@fn cesr::crypto::sign::ecdsa_256k1::generate() -> res
ensures
    res.is_ok(), x_sk_ok(1, res->Ok_0@),

@fn cesr::crypto::sign::ecdsa_256k1::public_key(private_key) -> res
ensures
    res.is_ok() == s_pub(1, private_key@).is_some(),
    res.is_ok() ==> Some(res->Ok_0@) == s_pub(1, private_key@),

@fn cesr::crypto::sign::ecdsa_256k1::sign(private_key, ser) -> res
ensures
    res.is_ok() == x_sk_ok(1, private_key@),
    res.is_ok() ==> x_signed(1, private_key@, ser@, res->Ok_0@),

@fn cesr::crypto::sign::ecdsa_256k1::verify(public_key, sig, ser) -> res
ensures
    v_res(res, s_ver(1, public_key@, sig@, ser@)),

@fn cesr::crypto::sign::ecdsa_256r1::generate() -> res
ensures
    res.is_ok(), x_sk_ok(2, res->Ok_0@),

@fn cesr::crypto::sign::ecdsa_256r1::public_key(private_key) -> res
ensures
    res.is_ok() == s_pub(2, private_key@).is_some(),
    res.is_ok() ==> Some(res->Ok_0@) == s_pub(2, private_key@),

@fn cesr::crypto::sign::ecdsa_256r1::sign(private_key, ser) -> res
ensures
    res.is_ok() == x_sk_ok(2, private_key@),
    res.is_ok() ==> x_signed(2, private_key@, ser@, res->Ok_0@),

@fn cesr::crypto::sign::ecdsa_256r1::verify(public_key, sig, ser) -> res
ensures
    v_res(res, s_ver(2, public_key@, sig@, ser@)),

@fn cesr::crypto::salt::params(tier, length) -> res
ensures
    res.is_ok() == (a_tier(tier@).is_some() && x_argon_params(a_tier(tier@)->Some_0.0, a_tier(tier@)->Some_0.1, 1, length as int)),
    res.is_ok() ==> res->Ok_0.m() == a_tier(tier@)->Some_0.0 && res->Ok_0.t() == a_tier(tier@)->Some_0.1 && res->Ok_0.p() == 1 && res->Ok_0.l() == length,

@fn cesr::crypto::salt::stretch(pwd, salt, length, tier) -> res
ensures
    res.is_ok() == a_stretch(pwd@, salt@, length as int, tier@).is_some(),
    res.is_ok() ==> Some(res->Ok_0@) == a_stretch(pwd@, salt@, length as int, tier@),

@fn cesr::crypto::csprng::fill_bytes(bytes)
ensures
    final(bytes)@.len() == old(bytes)@.len(),

//@module ntru
//@file ntru.rs
//@deps mem ring trits::util trits::slice trits::trits spongos prng poly
//@mem none
//@struct PrivateKey
//@struct PublicKey
//@prelude
use crate::mem::*;
use crate::ring::*;
use crate::trits::defs::*;
use crate::trits::util::*;
use crate::trits::slice::*;
use crate::trits::trits::*;
use crate::spongos::*;
use crate::prng::*;
use crate::poly::*;

/// polynomial of small coefficients
pub open spec fn sm(t: Seq<u8>) -> Seq<int> { Seq::new(1024, |i: int| fld(tv(t[i]))) }
pub open spec fn p3(f: Seq<int>) -> Seq<int> { Seq::new(1024, |i: int| fmul(3, f[i])) }
pub open spec fn p31(f: Seq<int>) -> Seq<int> { p3(f).update(0, fadd(p3(f)[0], 1)) }
pub open spec fn nz(f: Seq<int>) -> bool { forall|i: int| 0 <= i < 1024 ==> #[trigger] f[i] != 0 }
pub open spec fn pinv(f: Seq<int>) -> Seq<int> { Seq::new(1024, |i: int| fpow(f[i], 12287)) }
/// NTT(1+3f)
#[verifier::opaque]
pub open spec fn n_f(sk: Seq<u8>) -> Seq<int> { s_ntt(p31(sm(sk))) }
/// NTT(3g)
#[verifier::opaque]
pub open spec fn n_g(g: Seq<u8>) -> Seq<int> { s_ntt(p3(sm(g))) }
#[verifier::opaque]
pub open spec fn n_h(f: Seq<int>, g: Seq<int>) -> Seq<int> { pmulp(pinv(f), g) }
pub open spec fn n_pk(h: Seq<int>) -> Seq<u8> { tr9(s_intt(h), 1024) }
/// the randomness `sg` gives a key pair
pub open spec fn good(sg: Seq<u8>) -> bool { nz(n_f(sg.take(1024))) && nz(n_g(sg.skip(1024))) }
pub open spec fn trial(key: Seq<u8>, nonce: Seq<u8>, c: Seq<u8>) -> Seq<u8> { prng_out(key, nonce + c, 2048) }
pub open spec fn ctr81(c: Seq<u8>) -> bool { is_trits(c) && c.len() == 81 }
/// the public key trits encode an invertible polynomial
pub open spec fn pk_valid(pk: Seq<u8>) -> bool { tr9_ok(pk) && nz(s_ntt(untr9(pk))) }
/// `sk` and `pk` belong together (with 3g for some small g)
pub open spec fn keypair(sk: Seq<u8>, g: Seq<u8>, pk: Seq<u8>) -> bool {
    is_trits(sk) && is_trits(g) && sk.len() == 1024 && g.len() == 1024 && nz(n_f(sk)) && nz(n_g(g)) && pk == n_pk(n_h(n_f(sk), n_g(g)))
}

/// r h
#[verifier::opaque]
pub open spec fn n_rh(h: Seq<int>, r: Seq<u8>) -> Seq<int> { s_intt(pmulp(s_ntt(sm(r)), h)) }
pub open spec fn n_a1(a: SP, rh: Seq<u8>) -> SP { sp_commit(sp_absorb(a, rh)) }
/// AE(r h; k)
pub open spec fn n_ae(a: SP, rh: Seq<u8>, k: Seq<u8>) -> Seq<u8> { sp_enc(n_a1(a, rh), k) + sp_sqout(sp_encr(n_a1(a, rh), k), 781) }
pub open spec fn n_sp(a: SP, rh: Seq<u8>, k: Seq<u8>) -> SP { sp_squeeze(sp_encr(n_a1(a, rh), k), 781) }
pub open spec fn n_enc(a: SP, h: Seq<int>, r: Seq<u8>, k: Seq<u8>) -> Seq<u8> {
    let t = n_rh(h, r);
    tr9(padd(t, sm(n_ae(a, tr9(t, 1024), k))), 1024)
}
pub open spec fn n_enc_sp(a: SP, h: Seq<int>, r: Seq<u8>, k: Seq<u8>) -> SP { n_sp(a, tr9(n_rh(h, r), 1024), k) }
/// decapsulation: the recovered small polynomial, r h, the key, the check of the tag and the state
#[verifier::opaque]
pub open spec fn n_kt(f: Seq<int>, y: Seq<u8>) -> Seq<u8> { rnd_trits(s_intt(pmulp(s_ntt(untr9(y)), f))) }
pub open spec fn n_drh(f: Seq<int>, y: Seq<u8>) -> Seq<u8> { tr9(psub(untr9(y), sm(n_kt(f, y))), 1024) }
pub open spec fn n_dk(a: SP, f: Seq<int>, y: Seq<u8>) -> Seq<u8> { sp_dec(n_a1(a, n_drh(f, y)), n_kt(f, y).take(243)) }
pub open spec fn n_dsp(a: SP, f: Seq<int>, y: Seq<u8>) -> SP { sp_squeeze(sp_decr(n_a1(a, n_drh(f, y)), n_kt(f, y).take(243)), 781) }
pub open spec fn n_dok(a: SP, f: Seq<int>, y: Seq<u8>) -> bool {
    tr9_ok(y) && sp_sqout(sp_decr(n_a1(a, n_drh(f, y)), n_kt(f, y).take(243)), 781) == n_kt(f, y).skip(243)
}
impl PrivateKey {
    pub open spec fn inv(self, h: Heap) -> bool { self.sk.ok(h) && self.sk.n == 1024 && self.f.wf() && self.f.val() == n_f(self.sk.val(h)) }
}
impl PublicKey {
    pub open spec fn inv(self, h: Heap) -> bool { self.pk.ok(h) && self.pk.n == 9216 && self.h.wf() && pk_valid(self.pk.val(h)) && self.h.val() == s_ntt(untr9(self.pk.val(h))) }
}
pub proof fn lemma_cat2(xs: Seq<Seq<u8>>)
    ensures xs.len() == 2 ==> cat(xs) == xs[0] + xs[1], xs.len() == 3 ==> cat(xs) == xs[0] + xs[1] + xs[2],
{
    reveal_with_fuel(cat, 4);
    if xs.len() == 2 { assert(cat(xs) =~= xs[0] + xs[1]); }
    if xs.len() == 3 { assert(xs.drop_last().drop_last() =~= seq![xs[0]]); assert(cat(xs) =~= xs[0] + xs[1] + xs[2]); }
}
pub proof fn lemma_prng_out(key: Seq<u8>, nonce: Seq<u8>, n: int)
    requires is_trits(key), is_trits(nonce), n >= 0,
    ensures prng_out(key, nonce, n).len() == n, is_trits(prng_out(key, nonce, n)),
{
    let x = key + nonce;
    assert(is_trits(x));
    assert(sp_ok(sp0()));
    lemma_run_ok(Op::Absorb, sp0(), x);
    let a = sp_absorb(sp0(), x);
    lemma_adv_ok(a);
    lemma_zeros_ok(n);
    lemma_run_ok(Op::Squeeze, sp_commit(a), zeros(n));
}
pub proof fn lemma_sm(t: Seq<u8>) ensures redp(sm(t)) {}
pub proof fn lemma_sndp(f: Seq<int>)
    ensures redp(s_ntt(f)), redp(s_intt(f)),
{
    assert forall|i: int| 0 <= i < 1024 implies red(#[trigger] s_ntt(f)[i]) by { lemma_fsum_red(|k: int| fmul(f[k], fpow(gam(2 * i + 1), k as nat)), 1024); }
    assert forall|i: int| 0 <= i < 1024 implies red(#[trigger] s_intt(f)[i]) by { lemma_fred(fmul(12277, gam(2048 - i)), feval(f, gam(2 * (1024 - i)))); }
}
/// the polynomial kept beside a generated public key is the transform of the encoded one
pub proof fn lemma_pk_gen(f: Seq<int>, g: Seq<int>)
    requires nz(f), nz(g), redp(f), redp(g),
    ensures pk_valid(n_pk(n_h(f, g))), s_ntt(untr9(n_pk(n_h(f, g)))) == n_h(f, g), n_pk(n_h(f, g)).len() == 9216, is_trits(n_pk(n_h(f, g))),
{
    reveal(n_h);
    let h = n_h(f, g);
    assert forall|i: int| 0 <= i < 1024 implies red(#[trigger] h[i]) && h[i] != 0 by {
        assert(red(f[i]) && f[i] != 0 && red(g[i]) && g[i] != 0);
        lemma_fermat(f[i]);
        lemma_fpow_red(f[i], 12287);
        lemma_fred(fpow(f[i], 12287), g[i]);
        if fpow(f[i], 12287) == 0 { lemma_fone(f[i]); }
        if h[i] == 0 { lemma_fnozd(fpow(f[i], 12287), g[i]); }
    }
    lemma_ntt_intt(h);
    lemma_sndp(h);
    lemma_tr9_round(s_intt(h));
    lemma_tr9_len(s_intt(h), 1024);
}
//@end
//@fn gen_step props=C17
    requires old(f).wf(), old(g).wf(), old(h).wf(),
    ensures final(f).wf(), final(g).wf(), final(h).wf(),
        final(f).val() == s_ntt(p31(old(f).val())), final(g).val() == s_ntt(p3(old(g).val())),
        r == (nz(final(f).val()) && nz(final(g).val())),
        r ==> final(h).val() == n_h(final(f).val(), final(g).val()),
//@hint after small3_add1 0
proof { assert(f.val() =~= p31(old(f).val())); }
//@hint after small_mul3 1
proof { assert(g.val() =~= p3(old(g).val())); }
//@hint after conv 0
proof { reveal(n_h); assert(h.val() =~= n_h(f.val(), g.val())); }
//@fn gen_r mem=rw props=C17 isolate
    requires prng.inv(old(mem)@), nonce.ok(old(mem)@), old(f).wf(), old(h).wf(), sk.inv(old(mem)@), sk.len() == 1024, pk.inv(old(mem)@), pk.len() == 9216, sk.b() != pk.b(),
    ensures extends2(old(mem)@, final(mem)@, sk.b(), pk.b()), final(f).wf(), final(h).wf(),
        r ==> exists|c: Seq<u8>| #[trigger] ctr81(c) && ({ let sg = trial(prng.key(old(mem)@), nonce.val(old(mem)@), c);
            good(sg) && final(f).val() == n_f(sg.take(1024)) && final(h).val() == n_h(n_f(sg.take(1024)), n_g(sg.skip(1024)))
            && final(mem)@[sk.b()] == sk.put(old(mem)@, sg.take(1024))[sk.b()] && final(mem)@[pk.b()] == pk.put(old(mem)@, n_pk(final(h).val()))[pk.b()] }),
        !r ==> forall|c: Seq<u8>| #[trigger] ctr81(c) ==> !good(trial(prng.key(old(mem)@), nonce.val(old(mem)@), c)),
//@hint let g 0
let ghost hh = old(mem)@;
let ghost key = prng.key(hh);
let ghost non = nonce.val(hh);
proof {
    assert(unat(i.val(mem@)) == 0) by { lemma_unat0(81); }
    assert forall|c: Seq<u8>| #[trigger] ctr81(c) implies unat(c) >= 0 by { lemma_unat_bound(c); }
    assert forall|c: int| #[trigger] hh.dom().contains(c) implies mem@.dom().contains(c) && mem@[c] == hh[c] by {}
    assert(is_trits(zeros(81)));
}
//@loop 0
    invariant_except_break
        extends(hh, mem@), forall|c: Seq<u8>| #[trigger] ctr81(c) && unat(c) < unat(i.val(mem@)) ==> !good(trial(key, non, c)),
    invariant
        hh == old(mem)@, key == prng.key(hh), non == nonce.val(hh), prng.inv(hh), nonce.ok(hh), sk.inv(hh), sk.len() == 1024, pk.inv(hh), pk.len() == 9216, sk.b() != pk.b(),
        f.wf(), g.wf(), h.wf(), i.ok(mem@), i.n == 81, r.inv(mem@), r.n == 2048, i.b() != r.b(), !hh.dom().contains(i.b()), !hh.dom().contains(r.b()),
    ensures
        extends2(hh, mem@, sk.b(), pk.b()),
        exists|c: Seq<u8>| #[trigger] ctr81(c) && ({ let sg = trial(key, non, c);
            good(sg) && f.val() == n_f(sg.take(1024)) && h.val() == n_h(n_f(sg.take(1024)), n_g(sg.skip(1024)))
            && mem@[sk.b()] == sk.put(hh, sg.take(1024))[sk.b()] && mem@[pk.b()] == pk.put(hh, n_pk(h.val()))[pk.b()] }),
    decreases pow3(81) - unat(i.val(mem@)),
//@hint loop 0 start
let ghost m0 = mem@;
let ghost c0 = i.val(mem@);
let ghost sg = trial(key, non, c0);
proof { assert(nonce.val(m0) =~= non); assert(prng.key(m0) == key); lemma_prng_out(key, non + c0, 2048); assert(i.slice_spec().val(m0) =~= c0); assert(hh.dom().contains(prng.secret_key.b())); assert(hh.dom().contains(nonce.b())); }
//@hint let nonces 0
proof { lemma_cat2(vals(nonces@, mem@)); assert(cat(vals(nonces@, mem@)) =~= non + c0); }
//@hint before small_from_trits 0
let ghost m1 = mem@;
proof {
    assert(extends_but(m0, m1, r.b()));
    assert(m0.dom().contains(r.b()) && m0.dom().contains(i.b()));
    lemma_put_val(r.slice_mut_spec(), m0, m1, sg);
    assert(r.val(m1) == sg);
    assert(r.slice_spec().s_take(1024).val(m1) =~= sg.take(1024));
    assert(r.slice_spec().s_drop(1024).val(m1) =~= sg.skip(1024));
    assert(extends(hh, m1)) by { assert forall|c: int| #[trigger] hh.dom().contains(c) implies m1.dom().contains(c) && m1[c] == hh[c] by { assert(m0.dom().contains(c)); } }
}
//@hint before gen_step 0
proof {
    assert(f.val() =~= sm(sg.take(1024)));
    assert(g.val() =~= sm(sg.skip(1024)));
    reveal(n_f); reveal(n_g);
}
//@hint before to_trits 0
proof { assert(hh.dom().contains(pk.b())); assert(hh.dom().contains(sk.b())); assert(pk.inv(mem@)); }
//@hint after copy 0
proof {
    assert(ctr81(c0));
    assert(mem@[sk.b()] == sk.put(hh, sg.take(1024))[sk.b()]);
    assert(mem@[pk.b()] == pk.put(hh, n_pk(h.val()))[pk.b()]);
    assert(extends2(hh, mem@, sk.b(), pk.b()));
}
//@hint before inc 0
let ghost m2 = mem@;
proof {
    assert(!good(sg));
    assert(i.val(m2) == c0);
    lemma_inc(c0);
    assert forall|c: Seq<u8>| #[trigger] ctr81(c) && unat(c) <= unat(c0) implies !good(trial(key, non, c)) by { if unat(c) == unat(c0) { lemma_unat_inj(c, c0); } }
    assert forall|c: Seq<u8>| #[trigger] ctr81(c) implies unat(c) < pow3(81) by { lemma_unat_bound(c); }
    lemma_unat_bound(inc_seq(c0));
    assert(wr(m2, i.b(), 0, inc_seq(c0))[i.b()] =~= inc_seq(c0));
}
//@fn encr_fo mem=rw props=C17
    requires h.wf(), old(cap_s).inv(old(mem)@), cap_k.ok(old(mem)@), cap_k.len() == 243, y.inv(old(mem)@), y.len() == 9216, r == y.s_take(1024), r.ok(old(mem)@),
        y.b() != old(cap_s).b(), cap_k.b() != old(cap_s).b(), cap_k.b() != y.b(),
    ensures final(cap_s).inv(final(mem)@), final(cap_s).same(*old(cap_s)), final(mem)@[old(cap_s).b()].len() == 486,
        final(mem)@ == y.put(old(mem)@, n_enc(old(cap_s).sp(old(mem)@), h.val(), r.val(old(mem)@), cap_k.val(old(mem)@))).insert(old(cap_s).b(), final(mem)@[old(cap_s).b()]),
        final(cap_s).sp(final(mem)@) == n_enc_sp(old(cap_s).sp(old(mem)@), h.val(), r.val(old(mem)@), cap_k.val(old(mem)@)),
//@hint entry
let ghost g = mem@;
let ghost a = cap_s.sp(g);
let ghost kv = cap_k.val(g);
let ghost rv = r.val(g);
let ghost yy = y;
let ghost sb = cap_s.b();
let ghost c = tr9(n_rh(h.val(), rv), 1024);
let ghost a1 = n_a1(a, c);
let ghost e = sp_enc(a1, kv);
//@hint after small_from_trits 0
proof { assert(t.val() =~= sm(rv)); }
//@hint after intt 0
let ghost tt = t.val();
proof { reveal(n_rh); assert(tt == n_rh(h.val(), rv)); lemma_tr9_len(tt, 1024); }
//@hint before absorb 0
let ghost m0 = mem@;
proof { assert(m0 == yy.put(g, c)); lemma_rd_wr(g, yy.b(), yy.o(), c); assert(y.val(m0) == c); lemma_sp_frame(*cap_s, g, m0); }
//@hint after commit 0
let ghost m1 = mem@;
proof {
    assert(m1[yy.b()] == m0[yy.b()] && m1[cap_k.b()] == g[cap_k.b()]); assert(cap_k.val(m1) == kv); lemma_sp_ok(*cap_s, m1); lemma_run_ok(Op::Encr, a1, kv);
    lemma_zeros_ok(781); lemma_run_ok(Op::Squeeze, sp_encr(a1, kv), zeros(781));
}
//@hint after encr 0
let ghost m2 = mem@;
proof { assert(m2[yy.b()] == splice(m1[yy.b()], yy.o(), e)); assert(r.s_drop(243).inv(m2)); }
//@hint before add_small 0
let ghost m3 = mem@;
let ghost ae = n_ae(a, c, kv);
proof { lemma_enc_buf(g[yy.b()], m3[yy.b()], yy.o(), c, e, sp_sqout(sp_encr(a1, kv), 781)); assert(r.val(m3) =~= ae); assert(is_trits(ae)); }
//@hint before to_trits 1
proof { assert(t.val() =~= padd(tt, sm(ae))); lemma_tr9_len(padd(tt, sm(ae)), 1024); lemma_enc_buf2(g[yy.b()], m3[yy.b()], yy.o(), tr9(padd(tt, sm(ae)), 1024)); assert(yy.inv(m3)); }
//@hint after to_trits 1
proof { let out = tr9(padd(tt, sm(ae)), 1024); assert(mem@ == yy.put(m3, out)); assert(mem@ =~= yy.put(g, out).insert(sb, mem@[sb])); lemma_sp_frame(*cap_s, m3, mem@); }
//@fn encr_r mem=rw props=C17
    requires h.wf(), old(s).inv(old(mem)@), k.ok(old(mem)@), k.len() == 243, y.inv(old(mem)@), y.len() == 9216, r == y.s_take(1024), r.ok(old(mem)@),
        y.b() != old(s).b(), k.b() != old(s).b(), k.b() != y.b(),
    ensures final(s).inv(final(mem)@), final(s).same(*old(s)), final(mem)@[old(s).b()].len() == 486,
        final(mem)@ == y.put(old(mem)@, n_enc(old(s).sp(old(mem)@), h.val(), r.val(old(mem)@), k.val(old(mem)@))).insert(old(s).b(), final(mem)@[old(s).b()]),
        final(s).sp(final(mem)@) == n_enc_sp(old(s).sp(old(mem)@), h.val(), r.val(old(mem)@), k.val(old(mem)@)),
//@fn pk_from_trits mem=ro props=C17
    requires pk.ok(mem@), pk.len() == 9216,
    ensures r.is_some() == pk_valid(pk.val(mem@)), r.is_some() ==> r.unwrap().wf() && r.unwrap().val() == s_ntt(untr9(pk.val(mem@))),
//@fn decr_fo mem=rw props=C17
    requires f.wf(), old(cap_s).inv(old(mem)@), y.ok(old(mem)@), y.len() == 9216, cap_k.inv(old(mem)@), cap_k.len() == 243, cap_k.b() != old(cap_s).b(),
    ensures final(cap_s).inv(final(mem)@), final(cap_s).same(*old(cap_s)), extends2(old(mem)@, final(mem)@, old(cap_s).b(), cap_k.b()),
        r == n_dok(old(cap_s).sp(old(mem)@), f.val(), y.val(old(mem)@)),
        ({ let (a, yv) = (old(cap_s).sp(old(mem)@), y.val(old(mem)@));
            &&& tr9_ok(yv) ==> final(cap_s).sp(final(mem)@) == n_dsp(a, f.val(), yv) && final(mem)@[cap_k.b()] == cap_k.put(old(mem)@, n_dk(a, f.val(), yv))[cap_k.b()]
            &&& !tr9_ok(yv) ==> final(mem)@ == old(mem)@ && final(cap_s).sp(final(mem)@) == a }),
//@hint entry
let ghost g = mem@;
let ghost a = cap_s.sp(g);
let ghost yv = y.val(g);
let ghost sb = cap_s.b();
let ghost kb = cap_k.b();
let ghost ktv = n_kt(f.val(), yv);
let ghost rhv = n_drh(f.val(), yv);
let ghost a1 = n_a1(a, rhv);
let ghost mut m3 = mem@;
let ghost mut m4 = mem@;
let ghost mut m5 = mem@;
//@hint let kt 0
proof { reveal(n_kt); assert(ktv == rnd_trits(r.val())); assert(mem@ == g.insert(kt.b(), zeros(1024))); }
//@hint after round_to_trits 0
let ghost m1 = mem@;
proof { assert(kt.val(m1) =~= ktv); lemma_rnd_ok(r.val()); assert(kt.slice_spec().val(m1) =~= ktv); }
//@hint after sub_small 0
proof { assert(t.val() =~= psub(untr9(yv), sm(ktv))); lemma_tr9_len(t.val(), 1024); assert(rhv == tr9(t.val(), 1024)); }
//@hint before absorb 0
proof { m3 = mem@;
    assert(m3[rh.p.base@] =~= rhv); assert(rh.val(m3) =~= rhv); assert(kt.val(m3) =~= ktv);
    assert(extends(g, m3));
    lemma_sp_frame(*cap_s, g, m3);
    assert(g.dom().contains(kb) && g.dom().contains(sb));
}
//@hint after commit 0
proof { m4 = mem@;
    assert(kt.s_take(243).val(m4) =~= ktv.take(243)); assert(is_trits(ktv.take(243)));
    lemma_outs_len(Op::Decr, a1, ktv.take(243));
}
//@hint after decr 0
proof { m5 = mem@; assert(kt.s_drop(243).val(m5) =~= ktv.skip(243)); }
//@hint exit
proof {
    let d = sp_dec(a1, ktv.take(243));
    assert(m4[kb] == g[kb]);
    assert(mem@[kb] == m5[kb]);
    assert(mem@[kb] == cap_k.put(g, n_dk(a, f.val(), yv))[kb]);
    assert forall|c: int| #[trigger] g.dom().contains(c) implies mem@.dom().contains(c) && (c != sb && c != kb ==> mem@[c] == g[c]) by { assert(m3.dom().contains(c)); }
}
//@fn decr_r mem=rw props=C17
    requires f.wf(), old(s).inv(old(mem)@), y.ok(old(mem)@), y.len() == 9216, k.inv(old(mem)@), k.len() == 243, k.b() != old(s).b(),
    ensures final(s).inv(final(mem)@), final(s).same(*old(s)), extends2(old(mem)@, final(mem)@, old(s).b(), k.b()),
        r == n_dok(old(s).sp(old(mem)@), f.val(), y.val(old(mem)@)),
        ({ let (a, yv) = (old(s).sp(old(mem)@), y.val(old(mem)@));
            &&& tr9_ok(yv) ==> final(s).sp(final(mem)@) == n_dsp(a, f.val(), yv) && final(mem)@[k.b()] == k.put(old(mem)@, n_dk(a, f.val(), yv))[k.b()]
            &&& !tr9_ok(yv) ==> final(mem)@ == old(mem)@ && final(s).sp(final(mem)@) == a }),
//@fn decr_sk mem=rw props=C17
    requires sk.ok(old(mem)@), sk.len() == 1024, old(s).inv(old(mem)@), y.ok(old(mem)@), y.len() == 9216, k.inv(old(mem)@), k.len() == 243, k.b() != old(s).b(),
    ensures final(s).inv(final(mem)@), final(s).same(*old(s)), extends2(old(mem)@, final(mem)@, old(s).b(), k.b()),
        r == n_dok(old(s).sp(old(mem)@), n_f(sk.val(old(mem)@)), y.val(old(mem)@)),
        ({ let (a, f, yv) = (old(s).sp(old(mem)@), n_f(sk.val(old(mem)@)), y.val(old(mem)@));
            &&& tr9_ok(yv) ==> final(s).sp(final(mem)@) == n_dsp(a, f, yv) && final(mem)@[k.b()] == k.put(old(mem)@, n_dk(a, f, yv))[k.b()]
            &&& !tr9_ok(yv) ==> final(mem)@ == old(mem)@ && final(s).sp(final(mem)@) == a }),
//@hint after small_from_trits 0
proof { assert(f.val() =~= sm(sk.val(old(mem)@))); }
//@hint after small3_add1 0
proof { reveal(n_f); assert(f.val() =~= p31(sm(sk.val(old(mem)@)))); }
//@fn encr_pk mem=rw props=C17
    requires old(s).inv(old(mem)@), prng.inv(old(mem)@), pk.ok(old(mem)@), pk.len() == 9216, h.wf(), n.ok(old(mem)@), k.ok(old(mem)@), k.len() == 243, y.inv(old(mem)@), y.len() == 9216,
        y.b() != old(s).b(), k.b() != old(s).b(), k.b() != y.b(),
    ensures final(s).inv(final(mem)@), final(s).same(*old(s)), extends2(old(mem)@, final(mem)@, old(s).b(), y.b()),
        ({ let g = old(mem)@; let rr = prng_out(prng.key(g), pk.val(g) + k.val(g) + n.val(g), 1024);
            final(mem)@[y.b()] == y.put(g, n_enc(old(s).sp(g), h.val(), rr, k.val(g)))[y.b()] && final(s).sp(final(mem)@) == n_enc_sp(old(s).sp(g), h.val(), rr, k.val(g)) }),
//@hint after gens 0
proof { m1 = mem@;
    let g = old(mem)@;
    lemma_cat2(vals(nonces@, g));
    assert(cat(vals(nonces@, g)) =~= pk.val(g) + k.val(g) + n.val(g));
    lemma_prng_out(prng.key(g), pk.val(g) + k.val(g) + n.val(g), 1024);
    lemma_put_val(r, g, m1, rr);
    assert(g.dom().contains(k.b()) && g.dom().contains(s.b()));
    assert(k.val(m1) == k.val(g));
    lemma_sp_frame(*s, g, m1);
}
//@hint after encr_r 0
proof {
    let g = old(mem)@;
    let out = n_enc(s0.sp(g), h.val(), rr, k.val(g));
    lemma_n_enc_len(s0.sp(g), h.val(), rr, k.val(g));
    assert(mem@[y.b()] =~= y.put(g, out)[y.b()]);
    assert forall|c: int| #[trigger] g.dom().contains(c) implies mem@.dom().contains(c) && (c != s.b() && c != y.b() ==> mem@[c] == g[c]) by { assert(m1.dom().contains(c)); }
}
//@hint entry
let ghost s0 = *s;
let ghost mut m1 = mem@;
let ghost rr = prng_out(prng.key(old(mem)@), pk.val(old(mem)@) + k.val(old(mem)@) + n.val(old(mem)@), 1024);
//@fn gen mem=rw props=C17
    requires prng.inv(old(mem)@), nonce.ok(old(mem)@), exists|c: Seq<u8>| #[trigger] ctr81(c) && good(trial(prng.key(old(mem)@), nonce.val(old(mem)@), c)),
    ensures extends(old(mem)@, final(mem)@), r.0.inv(final(mem)@), r.1.inv(final(mem)@), r.0.sk.b() != r.1.pk.b(), !old(mem)@.dom().contains(r.0.sk.b()), !old(mem)@.dom().contains(r.1.pk.b()),
        exists|c: Seq<u8>| #[trigger] ctr81(c) && ({ let sg = trial(prng.key(old(mem)@), nonce.val(old(mem)@), c);
            good(sg) && r.0.sk.val(final(mem)@) == sg.take(1024) && keypair(sg.take(1024), sg.skip(1024), r.1.pk.val(final(mem)@)) }),
//@hint before gen_r 0
let ghost m0 = mem@;
proof { assert(prng.key(m0) == prng.key(old(mem)@)); assert(nonce.val(m0) =~= nonce.val(old(mem)@)); }
//@hint exit
proof {
    let g = old(mem)@;
    let (key, non) = (prng.key(g), nonce.val(g));
    let (sb, pb) = (tail__.0.sk.b(), tail__.1.pk.b());
    let c = choose|c: Seq<u8>| #[trigger] ctr81(c) && ({ let sg = trial(key, non, c);
            good(sg) && tail__.0.f.val() == n_f(sg.take(1024)) && tail__.1.h.val() == n_h(n_f(sg.take(1024)), n_g(sg.skip(1024)))
            && mem@[sb] == tail__.0.sk.slice_mut_spec().put(m0, sg.take(1024))[sb] && mem@[pb] == tail__.1.pk.slice_mut_spec().put(m0, n_pk(tail__.1.h.val()))[pb] });
    let sg = trial(key, non, c);
    lemma_prng_out(key, non + c, 2048);
    assert(m0.dom().contains(sb) && m0.dom().contains(pb));
    lemma_fg_red(sg.take(1024), sg.skip(1024));
    lemma_pk_gen(n_f(sg.take(1024)), n_g(sg.skip(1024)));
    lemma_put_val(tail__.0.sk.slice_mut_spec(), m0, mem@, sg.take(1024));
    lemma_put_val(tail__.1.pk.slice_mut_spec(), m0, mem@, n_pk(tail__.1.h.val()));
    assert(keypair(sg.take(1024), sg.skip(1024), tail__.1.pk.val(mem@)));
    assert forall|b: int| #[trigger] g.dom().contains(b) implies mem@.dom().contains(b) && mem@[b] == g[b] by { assert(m0.dom().contains(b)); }
}
//@fn PrivateKey::decr_with_s mem=rw props=C17
    requires self.inv(old(mem)@), old(s).inv(old(mem)@), y.ok(old(mem)@), y.len() == 9216, k.inv(old(mem)@), k.len() == 243, k.b() != old(s).b(),
    ensures final(s).inv(final(mem)@), final(s).same(*old(s)), extends2(old(mem)@, final(mem)@, old(s).b(), k.b()),
        r == n_dok(old(s).sp(old(mem)@), n_f(self.sk.val(old(mem)@)), y.val(old(mem)@)),
        ({ let (a, f, yv) = (old(s).sp(old(mem)@), n_f(self.sk.val(old(mem)@)), y.val(old(mem)@));
            &&& tr9_ok(yv) ==> final(s).sp(final(mem)@) == n_dsp(a, f, yv) && final(mem)@[k.b()] == k.put(old(mem)@, n_dk(a, f, yv))[k.b()]
            &&& !tr9_ok(yv) ==> final(mem)@ == old(mem)@ && final(s).sp(final(mem)@) == a }),
//@hint entry
proof { assert(self.sk.slice_spec().val(mem@) =~= self.sk.val(mem@)); }
//@fn PrivateKey::decr mem=rw props=C17
    requires self.inv(old(mem)@), y.ok(old(mem)@), y.len() == 9216, k.inv(old(mem)@), k.len() == 243,
    ensures extends_but(old(mem)@, final(mem)@, k.b()),
        r == n_dok(sp0(), n_f(self.sk.val(old(mem)@)), y.val(old(mem)@)),
        ({ let (a, f, yv) = (sp0(), n_f(self.sk.val(old(mem)@)), y.val(old(mem)@));
            &&& tr9_ok(yv) ==> final(mem)@[k.b()] == k.put(old(mem)@, n_dk(a, f, yv))[k.b()]
            &&& !tr9_ok(yv) ==> final(mem)@[k.b()] == old(mem)@[k.b()] }),
//@hint let s 0
let ghost m0 = mem@;
proof { let g = old(mem)@; assert(g.dom().contains(k.b()) && g.dom().contains(y.b()) && g.dom().contains(self.sk.b())); assert(y.val(m0) =~= y.val(g)); assert(self.sk.val(m0) == self.sk.val(g)); }
//@hint exit
proof { assert forall|b: int| #[trigger] old(mem)@.dom().contains(b) implies mem@.dom().contains(b) && (b != k.b() ==> mem@[b] == old(mem)@[b]) by { assert(m0.dom().contains(b)); } }
//@fn PublicKey::trits props=C17
    ensures r == self.pk.slice_spec(),
//@fn PublicKey::from_trits mem=ro props=C17
    requires pk.ok(mem@),
    ensures r.is_some() == (pk.n == 9216 && pk_valid(pk.val(mem@))), r.is_some() ==> r.unwrap().inv(mem@) && r.unwrap().pk == pk,
//@hint entry
proof { assert(pk.slice_spec().val(mem@) =~= pk.val(mem@)); }
//@fn PublicKey::from_slice mem=rw props=C17
    requires pk.ok(old(mem)@),
    ensures r.is_some() == (pk.len() == 9216 && pk_valid(pk.val(old(mem)@))), extends(old(mem)@, final(mem)@),
        r.is_some() ==> r.unwrap().inv(final(mem)@) && r.unwrap().pk.val(final(mem)@) == pk.val(old(mem)@) && !old(mem)@.dom().contains(r.unwrap().pk.b()),
//@fn PublicKey::validate mem=ro props=C17
    requires old(self).pk.ok(mem@), old(self).pk.n == 9216, old(self).h.wf(),
    ensures final(self).pk == old(self).pk, r == pk_valid(final(self).pk.val(mem@)), r ==> final(self).inv(mem@), !r ==> *final(self) == *old(self),
//@hint entry
proof { assert(self.pk.slice_spec().val(mem@) =~= self.pk.val(mem@)); }
//@fn PublicKey::id props=C17
    requires self.pk.n == 9216, self.pk.wf(),
    ensures r == self.pk.slice_spec().s_take(81),
//@fn PublicKey.PartialEq::eq mem=ro rename=partial_eq meth:eq=partial_eq props=C17
    requires self.pk.inv(mem@), other.pk.inv(mem@),
    ensures r == (self.pk.val(mem@) == other.pk.val(mem@)),
//@fn PublicKey::encr_with_s mem=rw props=C17
    requires self.inv(old(mem)@), old(s).inv(old(mem)@), prng.inv(old(mem)@), nonce.ok(old(mem)@), k.ok(old(mem)@), k.len() == 243, y.inv(old(mem)@), y.len() == 9216,
        y.b() != old(s).b(), k.b() != old(s).b(), k.b() != y.b(),
    ensures final(s).inv(final(mem)@), final(s).same(*old(s)), extends2(old(mem)@, final(mem)@, old(s).b(), y.b()),
        ({ let g = old(mem)@; let rr = prng_out(prng.key(g), self.pk.val(g) + k.val(g) + nonce.val(g), 1024);
            final(mem)@[y.b()] == y.put(g, n_enc(old(s).sp(g), self.h.val(), rr, k.val(g)))[y.b()] && final(s).sp(final(mem)@) == n_enc_sp(old(s).sp(g), self.h.val(), rr, k.val(g)) }),
//@hint entry
proof { assert(self.pk.slice_spec().val(mem@) =~= self.pk.val(mem@)); }
//@fn PublicKey::encr mem=rw props=C17
    requires self.inv(old(mem)@), prng.inv(old(mem)@), nonce.ok(old(mem)@), k.ok(old(mem)@), k.len() == 243, y.inv(old(mem)@), y.len() == 9216, k.b() != y.b(),
    ensures extends_but(old(mem)@, final(mem)@, y.b()),
        ({ let g = old(mem)@; let rr = prng_out(prng.key(g), self.pk.val(g) + k.val(g) + nonce.val(g), 1024);
            final(mem)@[y.b()] == y.put(g, n_enc(sp0(), self.h.val(), rr, k.val(g)))[y.b()] }),
//@hint let s 0
let ghost m0 = mem@;
proof { let g = old(mem)@; assert(g.dom().contains(k.b()) && g.dom().contains(y.b()) && g.dom().contains(self.pk.b()) && g.dom().contains(nonce.b())); assert(k.val(m0) =~= k.val(g)); assert(nonce.val(m0) =~= nonce.val(g)); assert(self.pk.val(m0) == self.pk.val(g)); assert(prng.key(m0) == prng.key(g)); }
//@hint after encr_with_s 0
proof { assert forall|b: int| #[trigger] old(mem)@.dom().contains(b) implies mem@.dom().contains(b) && (b != y.b() ==> mem@[b] == old(mem)@[b]) by { assert(m0.dom().contains(b)); } }
//@postlude
pub proof fn lemma_sp_frame(s: Spongos, h1: Heap, h2: Heap)
    requires s.inv(h1), h2.dom().contains(s.b()), h2[s.b()] == h1[s.b()],
    ensures s.inv(h2), s.sp(h2) == s.sp(h1),
{ assert(s.outer.trits.val(h2) == s.outer.trits.val(h1)); assert(s.sp(h2).w =~= s.sp(h1).w); }
proof fn lemma_enc_buf(g0: Seq<u8>, b: Seq<u8>, o: int, c: Seq<u8>, e: Seq<u8>, t: Seq<u8>)
    requires 0 <= o, o + 9216 <= g0.len(), c.len() == 9216, e.len() == 243, t.len() == 781, b == splice(splice(splice(g0, o, c), o, e), o + 243, t),
    ensures b.subrange(o, o + 1024) == e + t, b.len() == g0.len(), forall|i: int| 0 <= i < b.len() && !(o <= i < o + 9216) ==> #[trigger] b[i] == g0[i],
{ assert(b.subrange(o, o + 1024) =~= e + t); }
proof fn lemma_enc_buf2(g0: Seq<u8>, b: Seq<u8>, o: int, c: Seq<u8>)
    requires 0 <= o, o + 9216 <= g0.len(), c.len() == 9216, b.len() == g0.len(), forall|i: int| 0 <= i < b.len() && !(o <= i < o + 9216) ==> #[trigger] b[i] == g0[i],
    ensures splice(b, o, c) == splice(g0, o, c),
{ assert(splice(b, o, c) =~= splice(g0, o, c)); }
proof fn lemma_rnd_ok(e: Seq<int>)
    requires e.len() == 1024,
    ensures rnd_trits(e).len() == 1024, is_trits(rnd_trits(e)),
{ assert forall|i: int| 0 <= i < 1024 implies #[trigger] rnd_trits(e)[i] < 3 by { lemma_bt_len(1, rnd3(e[i])); } }
pub proof fn lemma_n_dk_ok(a: SP, f: Seq<int>, y: Seq<u8>)
    requires sp_ok(a),
    ensures n_dk(a, f, y).len() == 243, is_trits(n_dk(a, f, y)),
{
    reveal(n_kt);
    let e = s_intt(pmulp(s_ntt(untr9(y)), f));
    assert(e.len() == 1024);
    lemma_rnd_ok(e);
    let rh = n_drh(f, y);
    lemma_tr9_len(psub(untr9(y), sm(n_kt(f, y))), 1024);
    lemma_run_ok(Op::Absorb, a, rh);
    lemma_adv_ok(sp_absorb(a, rh));
    let c = n_kt(f, y).take(243);
    assert forall|i: int| 0 <= i < 243 implies #[trigger] c[i] < 3 by { assert(n_kt(f, y)[i] < 3); }
    lemma_run_ok(Op::Decr, n_a1(a, rh), c);
}
proof fn lemma_n_enc_len(a: SP, h: Seq<int>, r: Seq<u8>, k: Seq<u8>)
    ensures n_enc(a, h, r, k).len() == 9216, is_trits(n_enc(a, h, r, k)),
{ let t = n_rh(h, r); lemma_tr9_len(padd(t, sm(n_ae(a, tr9(t, 1024), k))), 1024); }
pub proof fn lemma_unat_bound(s: Seq<u8>)
    requires is_trits(s),
    ensures 0 <= unat(s) < pow3(s.len()),
    decreases s.len(),
{ if s.len() > 0 { lemma_unat_bound(s.skip(1)); assert(s[0] < 3); } }
pub proof fn lemma_unat0(n: nat)
    ensures unat(zeros(n as int)) == 0,
    decreases n,
{ if n > 0 { lemma_unat0((n - 1) as nat); assert(zeros(n as int).skip(1) =~= zeros(n - 1)); } }
proof fn lemma_fg_red(sk: Seq<u8>, g: Seq<u8>)
    ensures redp(n_f(sk)), redp(n_g(g)),
{ reveal(n_f); reveal(n_g); lemma_sndp(p31(sm(sk))); lemma_sndp(p3(sm(g))); }
/// ---- decryption over the integers
pub open spec fn iv(t: Seq<u8>) -> Seq<int> { Seq::new(1024, |i: int| tv(t[i])) }
pub open spec fn fldp(f: Seq<int>) -> Seq<int> { Seq::new(1024, |i: int| fld(f[i])) }
pub open spec fn ixmul(g: Seq<int>) -> Seq<int> { Seq::new(1024, |i: int| if i == 0 { -g[1023] } else { g[i - 1] }) }
/// the product modulo x^1024 + 1 over the integers
pub open spec fn imul_from(f: Seq<int>, g: Seq<int>, k: int) -> Seq<int> decreases 1024 - k {
    if k >= 1024 { Seq::new(1024, |i: int| 0int) } else { let r = ixmul(imul_from(f, g, k + 1)); Seq::new(1024, |i: int| f[k] * g[i] + r[i]) }
}
pub open spec fn imul(f: Seq<int>, g: Seq<int>) -> Seq<int> { imul_from(f, g, 0) }
pub open spec fn small(f: Seq<int>) -> bool { f.len() == 1024 && forall|i: int| 0 <= i < 1024 ==> -1 <= #[trigger] f[i] <= 1 }
pub open spec fn ilin(a: Seq<int>, b: Seq<int>) -> Seq<int> { Seq::new(1024, |i: int| a[i] + 3 * b[i]) }
pub open spec fn i0() -> Seq<int> { Seq::new(1024, |i: int| 0int) }
pub open spec fn i1() -> Seq<int> { Seq::new(1024, |i: int| if i == 0 { 1int } else { 0int }) }
proof fn lemma_imul_len(f: Seq<int>, g: Seq<int>, k: int) ensures imul_from(f, g, k).len() == 1024 {}
proof fn lemma_imul_fld(f: Seq<int>, g: Seq<int>, k: int)
    requires 0 <= k <= 1024, f.len() == 1024, g.len() == 1024,
    ensures fldp(imul_from(f, g, k)) == ringmul_from(fldp(f), fldp(g), k),
    decreases 1024 - k,
{
    if k < 1024 {
        lemma_imul_fld(f, g, k + 1);
        let r = imul_from(f, g, k + 1);
        let rr = ringmul_from(fldp(f), fldp(g), k + 1);
        lemma_imul_len(f, g, k + 1);
        assert forall|i: int| 0 <= i < 1024 implies #[trigger] fldp(imul_from(f, g, k))[i] == ringmul_from(fldp(f), fldp(g), k)[i] by {
            lemma_fld_mac(f[k], g[i], if i == 0 { -r[1023] } else { r[i - 1] });
            assert(fldp(r)[1023] == rr[1023]);
            if i > 0 { assert(fldp(r)[i - 1] == rr[i - 1]); }
            lemma_fld_neg(r[1023]);
            assert(ixmul(r)[i] == if i == 0 { -r[1023] } else { r[i - 1] });
            assert(xmul(rr)[i] == if i == 0 { fsub(0, rr[1023]) } else { rr[i - 1] });
        }
        assert(fldp(imul_from(f, g, k)) =~= ringmul_from(fldp(f), fldp(g), k));
    } else { assert(fldp(imul_from(f, g, k)) =~= ringmul_from(fldp(f), fldp(g), k)); }
}
proof fn lemma_fld_neg(x: int) ensures fld(-x) == fsub(0, fld(x)) { reveal(fsub); }
proof fn lemma_fld_mac(a: int, b: int, c: int)
    ensures fld(a * b + c) == fadd(fmul(fld(a), fld(b)), fld(c)),
{
    reveal(fadd); reveal(fmul);
    vstd::arithmetic::div_mod::lemma_mul_mod_noop(a, b, 12289);
    vstd::arithmetic::div_mod::lemma_add_mod_noop(a * b, c, 12289);
    assert(((a % 12289) * (b % 12289)) % 12289 == (a * b) % 12289);
}
proof fn lemma_imul_small(f: Seq<int>, g: Seq<int>, k: int)
    requires 0 <= k <= 1024, small(f), small(g),
    ensures forall|i: int| 0 <= i < 1024 ==> -(1024 - k) <= #[trigger] imul_from(f, g, k)[i] <= 1024 - k,
    decreases 1024 - k,
{
    if k < 1024 {
        lemma_imul_small(f, g, k + 1);
        let r = imul_from(f, g, k + 1);
        assert forall|i: int| 0 <= i < 1024 implies -(1024 - k) <= #[trigger] imul_from(f, g, k)[i] <= 1024 - k by {
            let (a, b) = (f[k], g[i]);
            assert(-1 <= a <= 1 && -1 <= b <= 1);
            assert(-1 <= a * b <= 1) by(nonlinear_arith) requires -1 <= a <= 1, -1 <= b <= 1;
            assert(ixmul(r)[i] == if i == 0 { -r[1023] } else { r[i - 1] });
        }
    }
}
proof fn lemma_imul_lin(f: Seq<int>, a: Seq<int>, b: Seq<int>, k: int)
    requires 0 <= k <= 1024, f.len() == 1024, a.len() == 1024, b.len() == 1024,
    ensures forall|i: int| 0 <= i < 1024 ==> #[trigger] imul_from(f, ilin(a, b), k)[i] == imul_from(f, a, k)[i] + 3 * imul_from(f, b, k)[i],
    decreases 1024 - k,
{
    if k < 1024 {
        lemma_imul_lin(f, a, b, k + 1);
        let (r, ra, rb) = (imul_from(f, ilin(a, b), k + 1), imul_from(f, a, k + 1), imul_from(f, b, k + 1));
        assert forall|i: int| 0 <= i < 1024 implies #[trigger] imul_from(f, ilin(a, b), k)[i] == imul_from(f, a, k)[i] + 3 * imul_from(f, b, k)[i] by {
            let (x, y, z) = (f[k], a[i], b[i]);
            assert(x * (y + 3 * z) == x * y + 3 * (x * z)) by(nonlinear_arith);
            let j = if i == 0 { 1023 } else { i - 1 };
            assert(r[j] == ra[j] + 3 * rb[j]);
            assert(ixmul(r)[i] == ixmul(ra)[i] + 3 * ixmul(rb)[i]);
        }
    }
}
proof fn lemma_imul_01(f: Seq<int>, k: int)
    requires 0 <= k <= 1024, f.len() == 1024,
    ensures forall|i: int| 0 <= i < 1024 ==> #[trigger] imul_from(f, i0(), k)[i] == 0 && imul_from(f, i1(), k)[i] == if i + k < 1024 { f[i + k] } else { 0 },
    decreases 1024 - k,
{
    if k < 1024 {
        lemma_imul_01(f, k + 1);
        let (r, s) = (imul_from(f, i0(), k + 1), imul_from(f, i1(), k + 1));
        assert forall|i: int| 0 <= i < 1024 implies #[trigger] imul_from(f, i0(), k)[i] == 0 && imul_from(f, i1(), k)[i] == if i + k < 1024 { f[i + k] } else { 0 } by {
            let j = if i == 0 { 1023 } else { i - 1 };
            assert(r[j] == 0);
            assert(ixmul(r)[i] == 0);
            assert(ixmul(s)[i] == if i == 0 { -s[1023] } else { s[i - 1] });
            let x = f[k];
            assert(x * 0 == 0 && x * 1 == x);
            assert(i0()[i] == 0);
            assert(i1()[i] == if i == 0 { 1int } else { 0int });
        }
    }
}
/// 3 r g + m (1 + 3 f)
pub open spec fn dec_int(sk: Seq<u8>, g: Seq<u8>, r: Seq<u8>, m: Seq<u8>) -> Seq<int> {
    Seq::new(1024, |i: int| 3 * imul(iv(r), iv(g))[i] + iv(m)[i] + 3 * imul(iv(m), iv(sk))[i])
}
/// decapsulation is exact unless a coefficient reaches +-6145, the largest possible value
pub open spec fn nofail(sk: Seq<u8>, g: Seq<u8>, r: Seq<u8>, m: Seq<u8>) -> bool { forall|i: int| 0 <= i < 1024 ==> -6144 <= #[trigger] dec_int(sk, g, r, m)[i] <= 6144 }
pub open spec fn t1024(t: Seq<u8>) -> bool { t.len() == 1024 && is_trits(t) }
pub proof fn lemma_dec_bound(sk: Seq<u8>, g: Seq<u8>, r: Seq<u8>, m: Seq<u8>)
    requires t1024(sk), t1024(g), t1024(r), t1024(m),
    ensures forall|i: int| 0 <= i < 1024 ==> -6145 <= #[trigger] dec_int(sk, g, r, m)[i] <= 6145,
{
    lemma_iv(sk); lemma_iv(g); lemma_iv(r); lemma_iv(m);
    lemma_imul_small(iv(r), iv(g), 0); lemma_imul_small(iv(m), iv(sk), 0);
}
proof fn lemma_iv(t: Seq<u8>)
    requires t1024(t),
    ensures small(iv(t)), fldp(iv(t)) == sm(t),
{ assert(fldp(iv(t)) =~= sm(t)); }
/// y (1 + 3 f) = 3 r g + m (1 + 3 f)
proof fn lemma_dec_poly(sk: Seq<u8>, g: Seq<u8>, r: Seq<u8>, m: Seq<u8>)
    requires t1024(sk), t1024(g), t1024(r), t1024(m), nz(n_f(sk)),
    ensures ({ let (f, h) = (n_f(sk), n_h(n_f(sk), n_g(g))); s_intt(pmulp(s_ntt(padd(n_rh(h, r), sm(m))), f)) == fldp(dec_int(sk, g, r, m)) }),
{
    let (f, gg) = (n_f(sk), n_g(g));
    let h = n_h(f, gg);
    let (rr, mm, ff, g3) = (sm(r), sm(m), p31(sm(sk)), p3(sm(g)));
    let rh = n_rh(h, r);
    assert(redp(ff)) by { assert forall|i: int| 0 <= i < 1024 implies red(#[trigger] ff[i]) by { lemma_fred(3, sm(sk)[i]); lemma_fred(p3(sm(sk))[0], 1); } }
    assert(redp(g3)) by { assert forall|i: int| 0 <= i < 1024 implies red(#[trigger] g3[i]) by { lemma_fred(3, sm(g)[i]); } }
    lemma_sm(r); lemma_sm(m);
    lemma_fg_red(sk, g);
    lemma_ntt_add(rh, mm);
    let q = pmulp(s_ntt(rr), h);
    assert(redp(q)) by { assert forall|i: int| 0 <= i < 1024 implies red(#[trigger] q[i]) by { lemma_fred(s_ntt(rr)[i], h[i]); } }
    assert(s_ntt(rh) == q) by { reveal(n_rh); lemma_ntt_intt(q); }
    lemma_ntt_mul(rr, g3); lemma_ntt_mul(mm, ff);
    lemma_ringmul_ok(rr, g3); lemma_ringmul_ok(mm, ff);
    let sum = padd(ringmul(rr, g3), ringmul(mm, ff));
    lemma_ntt_add(ringmul(rr, g3), ringmul(mm, ff));
    let lhs = pmulp(s_ntt(padd(rh, mm)), f);
    assert(lhs =~= s_ntt(sum)) by {
        assert forall|i: int| 0 <= i < 1024 implies #[trigger] lhs[i] == s_ntt(sum)[i] by {
            let (a, b, c, fi) = (s_ntt(rr)[i], gg[i], s_ntt(mm)[i], f[i]);
            let v = fpow(fi, 12287);
            reveal(n_h); reveal(n_f); reveal(n_g);
            assert(h[i] == fmul(v, b));
            assert(gg[i] == s_ntt(g3)[i]);
            assert(f[i] == s_ntt(ff)[i]);
            assert(q[i] == fmul(a, fmul(v, b)));
            assert(s_ntt(padd(rh, mm))[i] == fadd(q[i], c));
            assert(lhs[i] == fmul(fadd(q[i], c), fi));
            lemma_fdist(fi, q[i], c);
            assert(red(fi) && fi != 0 && red(b));
            lemma_fermat(fi);
            // (a (v b)) fi = a b
            lemma_fmul_assoc(a, fmul(v, b), fi); lemma_fmul_comm(v, b); lemma_fmul_assoc(b, v, fi); lemma_fone(b);
            assert(fmul(q[i], fi) == fmul(a, b));
            assert(s_ntt(sum)[i] == fadd(s_ntt(ringmul(rr, g3))[i], s_ntt(ringmul(mm, ff))[i]));
            assert(s_ntt(ringmul(rr, g3))[i] == fmul(a, b));
            assert(s_ntt(ringmul(mm, ff))[i] == fmul(c, fi));
        }
    }
    assert(redp(sum)) by { assert forall|i: int| 0 <= i < 1024 implies red(#[trigger] sum[i]) by { lemma_fred(ringmul(rr, g3)[i], ringmul(mm, ff)[i]); } }
    lemma_intt_ntt(sum);
    // over the integers
    lemma_iv(sk); lemma_iv(g); lemma_iv(r); lemma_iv(m);
    let (ig, iff) = (ilin(i0(), iv(g)), ilin(i1(), iv(sk)));
    assert(fldp(ig) =~= g3) by { assert forall|i: int| 0 <= i < 1024 implies #[trigger] fldp(ig)[i] == g3[i] by { lemma_fld3(0, iv(g)[i]); assert(fldp(iv(g))[i] == sm(g)[i]); } }
    assert(fldp(iff) =~= ff) by { assert forall|i: int| 0 <= i < 1024 implies #[trigger] fldp(iff)[i] == ff[i] by { lemma_fld3(if i == 0 { 1int } else { 0int }, iv(sk)[i]); assert(fldp(iv(sk))[i] == sm(sk)[i]); } }
    lemma_imul_fld(iv(r), ig, 0); lemma_imul_fld(iv(m), iff, 0);
    lemma_imul_lin(iv(r), i0(), iv(g), 0); lemma_imul_lin(iv(m), i1(), iv(sk), 0);
    lemma_imul_01(iv(r), 0); lemma_imul_01(iv(m), 0);
    let d = dec_int(sk, g, r, m);
    assert(sum =~= fldp(d)) by {
        assert forall|i: int| 0 <= i < 1024 implies #[trigger] sum[i] == fldp(d)[i] by {
            assert(imul_from(iv(r), i0(), 0)[i] == 0);
            assert(imul_from(iv(m), i0(), 0)[i] == 0);
            assert(imul(iv(r), ig)[i] == 3 * imul(iv(r), iv(g))[i]);
            assert(imul(iv(m), iff)[i] == iv(m)[i] + 3 * imul(iv(m), iv(sk))[i]);
            assert(fldp(imul(iv(r), ig))[i] == ringmul(rr, g3)[i]);
            assert(fldp(imul(iv(m), iff))[i] == ringmul(mm, ff)[i]);
            lemma_fld_add(imul(iv(r), ig)[i], imul(iv(m), iff)[i]);
        }
    }
}
proof fn lemma_fld_add(a: int, b: int) ensures fld(a + b) == fadd(fld(a), fld(b)) { reveal(fadd); }
proof fn lemma_fld3(e: int, x: int)
    requires e == 0 || e == 1,
    ensures fld(e + 3 * x) == if e == 0 { fmul(3, fld(x)) } else { fadd(fmul(3, fld(x)), 1) },
{ reveal(fadd); reveal(fmul); vstd::arithmetic::div_mod::lemma_mul_mod_noop_right(3, x, 12289); }
proof fn lemma_rnd(d: int, m: u8, a: int)
    requires -6144 <= d <= 6144, m < 3, d == tv(m) + 3 * a,
    ensures bt(1, rnd3(fld(d)))[0] == m,
{
    assert(ctr(fld(d)) == d);
    assert(bmod3(d) == tv(m));
    reveal_with_fuel(bt, 2);
}
/// C17: decapsulating the capsule returns the key, and both sponges agree
pub proof fn lemma_decapsulate(a: SP, sk: Seq<u8>, g: Seq<u8>, r: Seq<u8>, k: Seq<u8>)
    requires sp_ok(a), t1024(sk), t1024(g), t1024(r), is_trits(k), k.len() == 243, nz(n_f(sk)),
        ({ let h = n_h(n_f(sk), n_g(g)); nofail(sk, g, r, n_ae(a, tr9(n_rh(h, r), 1024), k)) }),
    ensures ({ let (f, h) = (n_f(sk), n_h(n_f(sk), n_g(g))); let y = n_enc(a, h, r, k);
        n_dok(a, f, y) && n_dk(a, f, y) == k && n_dsp(a, f, y) == n_enc_sp(a, h, r, k) }),
{
    let (f, h) = (n_f(sk), n_h(n_f(sk), n_g(g)));
    let t = n_rh(h, r);
    let c = tr9(t, 1024);
    let a1 = n_a1(a, c);
    lemma_tr9_len(t, 1024);
    lemma_run_ok(Op::Absorb, a, c);
    lemma_adv_ok(sp_absorb(a, c));
    lemma_run_ok(Op::Encr, a1, k);
    let a2 = sp_encr(a1, k);
    lemma_zeros_ok(781);
    lemma_run_ok(Op::Squeeze, a2, zeros(781));
    let m = n_ae(a, c, k);
    let (e, tag) = (sp_enc(a1, k), sp_sqout(a2, 781));
    assert(t1024(m));
    let q = padd(t, sm(m));
    let y = n_enc(a, h, r, k);
    assert(y == tr9(q, 1024));
    assert(redp(q)) by { assert forall|i: int| 0 <= i < 1024 implies red(#[trigger] q[i]) by { lemma_fred(t[i], sm(m)[i]); } }
    lemma_tr9_round(q);
    lemma_dec_poly(sk, g, r, m);
    let d = dec_int(sk, g, r, m);
    assert(n_kt(f, y) =~= m) by {
        reveal(n_kt);
        assert forall|i: int| 0 <= i < 1024 implies #[trigger] n_kt(f, y)[i] == m[i] by {
            assert(-6144 <= d[i] <= 6144);
            lemma_rnd(d[i], m[i], imul(iv(r), iv(g))[i] + imul(iv(m), iv(sk))[i]);
            assert(fldp(d)[i] == fld(d[i]));
        }
    }
    reveal(n_rh);
    lemma_sndp(pmulp(s_ntt(sm(r)), h));
    assert(psub(q, sm(m)) =~= t) by { assert forall|i: int| 0 <= i < 1024 implies #[trigger] psub(q, sm(m))[i] == t[i] by { assert(red(t[i])); lemma_fsub(t[i], sm(m)[i]); } }
    assert(n_drh(f, y) == c);
    assert(m.take(243) =~= e && m.skip(243) =~= tag);
    lemma_decr_encr(a1, k);
}
/// C17 over the contracts: a generated pair, any nonce, key and equal states
pub proof fn lemma_key_pair(a: SP, sk: Seq<u8>, g: Seq<u8>, pk: Seq<u8>, r: Seq<u8>, k: Seq<u8>)
    requires keypair(sk, g, pk), sp_ok(a), t1024(r), is_trits(k), k.len() == 243,
        nofail(sk, g, r, n_ae(a, tr9(n_rh(s_ntt(untr9(pk)), r), 1024), k)),
    ensures pk_valid(pk), ({ let (f, h) = (n_f(sk), s_ntt(untr9(pk))); let y = n_enc(a, h, r, k);
        n_dok(a, f, y) && n_dk(a, f, y) == k && n_dsp(a, f, y) == n_enc_sp(a, h, r, k) }),
{
    lemma_fg_red(sk, g);
    lemma_pk_gen(n_f(sk), n_g(g));
    lemma_decapsulate(a, sk, g, r, k);
}
/// public key encodings: decode then encode is the identity on accepted keys, and distinct accepted encodings are distinct polynomials
pub proof fn lemma_pk_codec(pk: Seq<u8>, pk2: Seq<u8>)
    requires is_trits(pk), is_trits(pk2), pk.len() == 9216, pk2.len() == 9216, pk_valid(pk), pk_valid(pk2),
    ensures n_pk(s_ntt(untr9(pk))) == pk, s_ntt(untr9(pk)) == s_ntt(untr9(pk2)) ==> pk == pk2,
{
    lemma_untr9_round(pk, 1024); lemma_untr9_round(pk2, 1024);
    lemma_intt_ntt(untr9(pk)); lemma_intt_ntt(untr9(pk2));
    assert(pk.take(9216) =~= pk && pk2.take(9216) =~= pk2);
}
//@end

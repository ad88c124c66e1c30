//@module mss::mss
//@file mss/mss.rs
//@deps mem trits::util trits::slice trits::trits spongos prng wots mss::mt
//@mem none
//@struct SK
//@struct PublicKey
//@map wots::PrivateKey crate::wots::PrivateKey
//@map prng::PRNG crate::prng::PRNG
//@map std::mem::transmute crate::mss::mss::pk_of_trits
//@prelude
use crate::mem::*;
use crate::trits::defs::*;
use crate::trits::util::*;
use crate::trits::b1t1::*;
use crate::trits::slice::*;
use crate::trits::trits::*;
use crate::spongos::*;
use crate::prng::*;
use crate::mss::mt::*;
use crate::wots;
use crate::wots::{w_sig, w_pk, w_recover, lemma_hash_ok, lemma_recover_sign, lemma_pk_ok, lemma_recover_ok};

/// hash of two neighbour nodes
pub open spec fn m_mg() -> spec_fn(Seq<u8>, Seq<u8>) -> Seq<u8> { |a: Seq<u8>, b: Seq<u8>| sp_hash(a + b, 243) }
/// i-th one-time private key
pub open spec fn m_wsk(key: Seq<u8>, nonce: Seq<u8>, i: int) -> Seq<u8> { prng_out(key, nonce + bt(18, i), 13122) }
/// i-th leaf: one-time public key
pub open spec fn m_leaves(key: Seq<u8>, nonce: Seq<u8>) -> spec_fn(int) -> Seq<u8> { |i: int| w_pk(m_wsk(key, nonce, i)) }
pub open spec fn m_skn(d: int, skn: int) -> Seq<u8> { bt(4, d) + bt(14, skn) }
/// the first k nodes of the authentication path
pub open spec fn m_path(lf: spec_fn(int) -> Seq<u8>, skn: int, k: int) -> Seq<u8> decreases k { if k <= 0 { Seq::empty() } else { m_path(lf, skn, k - 1) + tn(lf, m_mg(), k - 1, sib(skn / p2(k - 1))) } }
pub open spec fn m_sig(key: Seq<u8>, nonce: Seq<u8>, d: int, skn: int, hash: Seq<u8>) -> Seq<u8> {
    m_skn(d, skn) + w_sig(m_wsk(key, nonce, skn), hash, 81) + m_path(m_leaves(key, nonce), skn, d)
}
pub open spec fn m_size(d: int) -> int { 18 + 13122 + 243 * d }
pub open spec fn m_d(sig: Seq<u8>) -> int { ival(sig.take(4)) }
pub open spec fn m_k(sig: Seq<u8>) -> int { ival(sig.subrange(4, 18)) }
pub open spec fn m_parsed(sig: Seq<u8>) -> bool { sig.len() >= 18 && m_d(sig) >= 0 && 0 <= m_k(sig) < p2(m_d(sig)) }
pub open spec fn m_valid(sig: Seq<u8>) -> bool { m_parsed(sig) && sig.len() >= m_size(m_d(sig)) }
pub open spec fn chunk(s: Seq<u8>, i: int) -> Seq<u8> { s.subrange(243 * i, 243 * i + 243) }
pub open spec fn chunks(s: Seq<u8>, d: int) -> Seq<Seq<u8>> { Seq::new(d as nat, |i: int| chunk(s, i)) }
/// the public key recovered from a signature
pub open spec fn m_rec(sig: Seq<u8>, hash: Seq<u8>) -> Seq<u8> {
    let d = m_d(sig);
    foldk(m_mg(), chunks(sig.skip(13140), d), m_k(sig), w_recover(sig.subrange(18, 13140), hash), d)
}

pub proof fn lemma_prefix(k: nat, m: nat, v: int)
    requires -half3(k) <= v <= half3(k),
    ensures bt(k + m, v).take(k as int) == bt(k, v), bt(k, v).len() == k, is_trits(bt(k, v)),
{
    lemma_bt_split(k, m, v, 0);
    lemma_bt_len(k, v);
    assert(pow3(k) * 0 == 0) by(nonlinear_arith);
    assert(bt(k + m, v).take(k as int) =~= bt(k, v));
}
pub proof fn lemma_half()
    ensures half3(4) == 40, half3(14) == 2391484, half3(6) == 364, half3(18) == 193710244,
{
    assert(half3(4) == 40) by(compute); assert(half3(14) == 2391484) by(compute);
    assert(half3(6) == 364) by(compute); assert(half3(18) == 193710244) by(compute);
}
pub proof fn lemma_zeros_ival(n: int)
    requires n >= 0,
    ensures ival(zeros(n)) == 0,
    decreases n,
{ if n > 0 { lemma_zeros_ival(n - 1); assert(zeros(n).skip(1) =~= zeros(n - 1)); assert(tv(zeros(n)[0]) == 0); } }
pub proof fn lemma_ival_pad(s: Seq<u8>, n: int)
    requires n >= 0,
    ensures ival(s + zeros(n)) == ival(s),
{ lemma_ival_cat(s, zeros(n)); lemma_zeros_ival(n); assert(pow3(s.len()) * 0 == 0) by(nonlinear_arith); }
pub proof fn lemma_ival_range(s: Seq<u8>)
    requires is_trits(s),
    ensures -half3(s.len()) <= ival(s) <= half3(s.len()),
{ lemma_bt_ival(s); }
pub proof fn lemma_leaf_ok(key: Seq<u8>, nonce: Seq<u8>, i: int)
    requires is_trits(key), is_trits(nonce),
    ensures m_wsk(key, nonce, i).len() == 13122, is_trits(m_wsk(key, nonce, i)), (m_leaves(key, nonce))(i).len() == 243, is_trits((m_leaves(key, nonce))(i)),
{
    lemma_bt_len(18, i);
    lemma_prng_ok(key, nonce + bt(18, i), 13122);
    lemma_pk_ok(m_wsk(key, nonce, i));
}
pub proof fn lemma_prng_ok(key: Seq<u8>, nonce: Seq<u8>, n: int)
    requires is_trits(key), is_trits(nonce), n >= 0,
    ensures prng_out(key, nonce, n).len() == n, is_trits(prng_out(key, nonce, n)),
{ lemma_hash_ok(key + nonce, n); }
pub proof fn lemma_mg_ok(a: Seq<u8>, b: Seq<u8>)
    requires is_trits(a), is_trits(b),
    ensures (m_mg())(a, b).len() == 243, is_trits((m_mg())(a, b)),
{ lemma_hash_ok(a + b, 243); }
pub proof fn lemma_tn_ok(key: Seq<u8>, nonce: Seq<u8>, d: int, i: int)
    requires is_trits(key), is_trits(nonce),
    ensures tn(m_leaves(key, nonce), m_mg(), d, i).len() == 243, is_trits(tn(m_leaves(key, nonce), m_mg(), d, i)),
    decreases d,
{
    if d <= 0 { lemma_leaf_ok(key, nonce, i); } else {
        lemma_tn_ok(key, nonce, d - 1, 2 * i); lemma_tn_ok(key, nonce, d - 1, 2 * i + 1);
        lemma_mg_ok(tn(m_leaves(key, nonce), m_mg(), d - 1, 2 * i), tn(m_leaves(key, nonce), m_mg(), d - 1, 2 * i + 1));
    }
}
pub proof fn lemma_path_ok(key: Seq<u8>, nonce: Seq<u8>, skn: int, k: int)
    requires is_trits(key), is_trits(nonce), k >= 0,
    ensures m_path(m_leaves(key, nonce), skn, k).len() == 243 * k, is_trits(m_path(m_leaves(key, nonce), skn, k)),
    decreases k,
{ if k > 0 { lemma_path_ok(key, nonce, skn, k - 1); lemma_tn_ok(key, nonce, k - 1, sib(skn / p2(k - 1))); } }
pub proof fn lemma_path_chunk(key: Seq<u8>, nonce: Seq<u8>, skn: int, k: int, j: int)
    requires is_trits(key), is_trits(nonce), 0 <= j < k,
    ensures chunk(m_path(m_leaves(key, nonce), skn, k), j) == tn(m_leaves(key, nonce), m_mg(), j, sib(skn / p2(j))),
    decreases k,
{
    let lf = m_leaves(key, nonce);
    lemma_path_ok(key, nonce, skn, k - 1); lemma_tn_ok(key, nonce, k - 1, sib(skn / p2(k - 1)));
    if j == k - 1 { assert(chunk(m_path(lf, skn, k), j) =~= tn(lf, m_mg(), j, sib(skn / p2(j)))); } else {
        lemma_path_chunk(key, nonce, skn, k - 1, j);
        assert(chunk(m_path(lf, skn, k), j) =~= chunk(m_path(lf, skn, k - 1), j));
    }
}
/// C13: a signature has the announced size, carries its height and key number, and recovers the root of the tree
pub proof fn lemma_sign_recover(key: Seq<u8>, nonce: Seq<u8>, d: int, skn: int, hash: Seq<u8>)
    requires is_trits(key), is_trits(nonce), 0 <= d <= 20, 0 <= skn < p2(d), is_trits(hash), hash.len() == 234,
    ensures ({
        let sig = m_sig(key, nonce, d, skn, hash);
        &&& sig.len() == m_size(d) && is_trits(sig)
        &&& m_valid(sig) && m_d(sig) == d && m_k(sig) == skn
        &&& m_rec(sig, hash) == tn(m_leaves(key, nonce), m_mg(), d, 0)
    }),
{
    let sig = m_sig(key, nonce, d, skn, hash);
    let lf = m_leaves(key, nonce);
    let sk = m_wsk(key, nonce, skn);
    lemma_half();
    lemma_p2_mono(d, 20); assert(p2(20) == 1048576) by(compute);
    lemma_bt_len(4, d); lemma_bt_len(14, skn);
    lemma_leaf_ok(key, nonce, skn);
    crate::wots::lemma_sig_len(sk, hash, 81);
    lemma_path_ok(key, nonce, skn, d);
    assert(sig.take(4) =~= bt(4, d));
    assert(sig.subrange(4, 18) =~= bt(14, skn));
    lemma_ival_bt(4, d); lemma_ival_bt(14, skn);
    assert(sig.subrange(18, 13140) =~= w_sig(sk, hash, 81));
    assert(sig.skip(13140) =~= m_path(lf, skn, d));
    lemma_recover_sign(sk, hash);
    let c = chunks(m_path(lf, skn, d), d);
    assert forall|j: int| 0 <= j < d implies #[trigger] c[j] == tn(lf, m_mg(), j, sib(skn / p2(j))) by { lemma_path_chunk(key, nonce, skn, d, j); }
    lemma_fold_path(lf, m_mg(), c, skn, d);
}

pub proof fn lemma_cat2(xs: Seq<Seq<u8>>)
    ensures xs.len() == 2 ==> cat(xs) == xs[0] + xs[1],
{ reveal_with_fuel(cat, 4); if xs.len() == 2 { assert(cat(xs) =~= xs[0] + xs[1]); } }

/// `transmute::<&Trits, &PublicKey>`: the public key is a struct around its trits (assumed: it has their layout).
/// Verus checks the type of the argument; a transmute between other types is rejected.
#[verifier::external_body]
pub fn pk_of_trits<'a>(t: &'a TritsT) -> (r: &'a PublicKey)
    ensures r.pk == *t,
{ unimplemented!() }
impl TNode for TritsT {
    type V = Seq<u8>;
    open spec fn nok(&self, h: Heap) -> bool { self.ok(h) && self.n == 243 }
    open spec fn nv(&self, h: Heap) -> Seq<u8> { self.val(h) }
    open spec fn nfresh(&self, h: Heap) -> bool { !h.dom().contains(self.b()) }
    proof fn lemma_nfresh(&self, h1: Heap, h2: Heap) { }
    proof fn lemma_nframe(&self, h1: Heap, h2: Heap) { assert(h1.dom().contains(self.b())); }
    fn clone(&self, mem: &mut Mem) -> (r: Self) {
        let ghost m0 = mem@;
        let r = TritsT::clone(self, mem);
        proof { assert forall|c: int| #[trigger] m0.dom().contains(c) implies mem@.dom().contains(c) && mem@[c] == m0[c] by { } }
        r
    }
    fn partial_eq(&self, other: &Self, mem: &Mem) -> (r: bool) { TritsT::partial_eq(self, other, mem) }
}
impl SK {
    pub open spec fn sok(&self, h: Heap) -> bool { self.prng.inv(h) && is_trits(self.prng.key(h)) && self.nonce.ok(h) }
    pub open spec fn key(&self, h: Heap) -> Seq<u8> { self.prng.key(h) }
    pub open spec fn nv(&self, h: Heap) -> Seq<u8> { self.nonce.val(h) }
}
impl<MT: TraversableMerkleTree<TritsT>> PrivateKeyT<MT> {
    pub open spec fn inv(&self, h: Heap) -> bool {
        &&& self.sk.sok(h)
        &&& self.mt.tinv(h, m_leaves(self.sk.key(h), self.sk.nv(h)), m_mg())
        &&& self.mt.theight() <= 20
    }
    pub proof fn lemma_inv(&self, h: Heap)
        requires self.inv(h),
        ensures 0 <= self.mt.theight() <= 20, 0 <= self.mt.tskn() <= p2(self.mt.theight()) <= 1048576, self.mt.troot().nok(h), self.mt.troot().val(h) == self.rootv(h),
            exists|h: Heap, lf: spec_fn(int) -> Seq<u8>, mg: spec_fn(Seq<u8>, Seq<u8>) -> Seq<u8>| #[trigger] self.mt.tinv(h, lf, mg),
            exists|lf: spec_fn(int) -> Seq<u8>, mg: spec_fn(Seq<u8>, Seq<u8>) -> Seq<u8>| #[trigger] self.mt.tinv(h, lf, mg),
    {
        self.mt.lemma_tinv(h, m_leaves(self.sk.key(h), self.sk.nv(h)), m_mg());
        lemma_p2_mono(self.mt.theight(), 20); assert(p2(20) == 1048576) by(compute);
    }
    /// no one-time keys are left
    pub open spec fn exhausted(&self) -> bool { self.mt.tskn() >= p2(self.mt.theight()) }
    /// nothing of the key is stored in block `b`
    pub open spec fn avoids(&self, h: Heap, b: int) -> bool {
        &&& self.sk.prng.secret_key.b() != b && self.sk.nonce.b() != b
        &&& forall|h2: Heap| #[trigger] extends_but(h, h2, b) ==> self.mt.tinv(h2, m_leaves(self.sk.key(h), self.sk.nv(h)), m_mg())
    }
    pub proof fn lemma_avoids(&self, h: Heap, h2: Heap, b: int)
        requires self.inv(h), self.avoids(h, b), extends_but(h, h2, b), h.dom().contains(b),
        ensures self.inv(h2), self.avoids(h2, b), self.sk.key(h2) == self.sk.key(h), self.sk.nv(h2) == self.sk.nv(h),
    {
        assert(h.dom().contains(self.sk.prng.secret_key.b())); assert(h.dom().contains(self.sk.nonce.b()));
        assert forall|h3: Heap| #[trigger] extends_but(h2, h3, b) implies self.mt.tinv(h3, m_leaves(self.sk.key(h), self.sk.nv(h)), m_mg()) by {
            lemma_ext_but(h, h2, h3, b);
        }
    }
    pub open spec fn sigv(&self, h: Heap, hash: Seq<u8>) -> Seq<u8> { m_sig(self.sk.key(h), self.sk.nv(h), self.mt.theight(), self.mt.tskn(), hash) }
    pub open spec fn rootv(&self, h: Heap) -> Seq<u8> { tn(m_leaves(self.sk.key(h), self.sk.nv(h)), m_mg(), self.mt.theight(), 0) }
}
pub proof fn lemma_foldk_ok(c: Seq<Seq<u8>>, skn: int, x: Seq<u8>, k: int)
    requires 0 <= k <= c.len(), is_trits(x), x.len() == 243, forall|i: int| 0 <= i < c.len() ==> is_trits(#[trigger] c[i]),
    ensures foldk(m_mg(), c, skn, x, k).len() == 243, is_trits(foldk(m_mg(), c, skn, x, k)),
    decreases k,
{
    if k > 0 {
        lemma_foldk_ok(c, skn, x, k - 1);
        lemma_mg_ok(foldk(m_mg(), c, skn, x, k - 1), c[k - 1]); lemma_mg_ok(c[k - 1], foldk(m_mg(), c, skn, x, k - 1));
    }
}
pub proof fn lemma_rec_ok(sig: Seq<u8>, hash: Seq<u8>)
    requires is_trits(sig), m_valid(sig), is_trits(hash), hash.len() == 234,
    ensures m_rec(sig, hash).len() == 243, is_trits(m_rec(sig, hash)),
{
    let d = m_d(sig);
    let c = chunks(sig.skip(13140), d);
    crate::wots::lemma_sub(sig, 18, 13140);
    lemma_recover_ok(sig.subrange(18, 13140), hash);
    assert forall|i: int| 0 <= i < c.len() implies is_trits(#[trigger] c[i]) by {
        assert(c[i] =~= sig.subrange(13140 + 243 * i, 13140 + 243 * i + 243));
        crate::wots::lemma_sub(sig, 13140 + 243 * i, 13140 + 243 * i + 243);
    }
    lemma_foldk_ok(c, m_k(sig), w_recover(sig.subrange(18, 13140), hash), d);
}
impl PublicKey {
    pub open spec fn ok(self, h: Heap) -> bool { self.pk.ok(h) && self.pk.n == 243 }
}
pub proof fn lemma_fresh_all(g: Heap, h1: Heap, b: int)
    requires extends(g, h1), !g.dom().contains(b),
    ensures forall|h2: Heap| #[trigger] extends_but(h1, h2, b) ==> extends(g, h2),
{ assert forall|h2: Heap| #[trigger] extends_but(h1, h2, b) implies extends(g, h2) by { lemma_ext_fresh(g, h1, h2, b); } }
pub struct MergeNodesFn;
//@end
//@postlude
impl GenLeaf<TritsT> for SK {
    open spec fn gok(&self, h: Heap) -> bool { self.sok(h) }
    open spec fn glim(&self) -> int { 1048576 }
    open spec fn leaves(&self, h: Heap) -> spec_fn(int) -> Seq<u8> { m_leaves(self.key(h), self.nv(h)) }
    proof fn lemma_gframe(&self, h1: Heap, h2: Heap) { assert(h1.dom().contains(self.prng.secret_key.b())); assert(h1.dom().contains(self.nonce.b())); }
    fn gen_leaf(&self, idx: Idx, mem: &mut Mem) -> (r: TritsT) { SK::gen_leaf(self, idx, mem) }
}
impl MergeNodes<TritsT> for MergeNodesFn {
    open spec fn merged(&self) -> spec_fn(Seq<u8>, Seq<u8>) -> Seq<u8> { m_mg() }
    fn merge_nodes(&self, h0: &TritsT, h1: &TritsT, mem: &mut Mem) -> (r: TritsT) { merge_nodes(h0, h1, mem) }
}
//@end
//@fn apath_size props=C13
    requires d <= 40,
    ensures r == 243 * d,
//@fn sig_size props=C13
    requires d <= 40,
    ensures r == m_size(d as int),
//@fn max_idx props=C13
    requires d <= 62,
    ensures r == p2(d as int), r >= 1,
//@hint entry
proof { lemma_shl(d); }
//@fn SK::gen_leaf_sk mem=rw props=C13
    requires self.sok(old(mem)@), 0 <= i <= 193710244,
    ensures extends(old(mem)@, final(mem)@), !old(mem)@.dom().contains(r.sk.b()), r.ok(final(mem)@), r.sk.val(final(mem)@) == m_wsk(self.key(old(mem)@), self.nv(old(mem)@), i as int),
//@hint let nonces 0
let ghost m1 = mem@;
proof {
    let m0 = old(mem)@;
    assert(extends(m0, m1));
    lemma_bt_len(18, i as int);
    assert(self.nonce.slice_spec().val(m1) =~= self.nv(m0));
    assert(ni.slice_spec().val(m1) =~= bt(18, i as int));
    let vs = vals(nonces@, m1);
    assert(vs =~= seq![self.nv(m0), bt(18, i as int)]);
    lemma_cat2(vs);
}
//@hint exit
proof { lemma_ext_trans(old(mem)@, m1, mem@); }
//@fn SK::gen_leaf_pk mem=rw props=C13
    requires self.sok(old(mem)@), 0 <= i < 1048576,
    ensures extends(old(mem)@, final(mem)@), r.nok(final(mem)@), r.val(final(mem)@) == (m_leaves(self.key(old(mem)@), self.nv(old(mem)@)))(i as int),
//@hint entry
proof { lemma_leaf_ok(self.key(mem@), self.nv(mem@), i as int); }
//@hint before calc_pk 0
let ghost m1 = mem@;
proof { assert(extends(old(mem)@, m1)); assert(wsk.sk.val(m1) == m_wsk(self.key(old(mem)@), self.nv(old(mem)@), i as int)); }
//@hint exit
proof {
    lemma_ext_fresh(old(mem)@, m1, mem@, tail__.b());
    assert(m1.dom().contains(tail__.b()));
    lemma_put_val(tail__.slice_mut_spec(), m1, mem@, w_pk(m_wsk(self.key(old(mem)@), self.nv(old(mem)@), i as int)));
}
//@fn SK.GenLeaf::gen_leaf mem=rw props=C13
    requires self.sok(old(mem)@), 0 <= i < 1048576,
    ensures extends(old(mem)@, final(mem)@), r.nok(final(mem)@), r.val(final(mem)@) == (m_leaves(self.key(old(mem)@), self.nv(old(mem)@)))(i as int),
//@fn merge_nodes mem=rw props=C13
    requires h0.nok(old(mem)@), h1.nok(old(mem)@),
    ensures extends(old(mem)@, final(mem)@), r.nok(final(mem)@), r.val(final(mem)@) == (m_mg())(h0.val(old(mem)@), h1.val(old(mem)@)),
//@hint entry
let ghost (a, b) = (h0.val(mem@), h1.val(mem@));
proof { lemma_mg_ok(a, b); lemma_cat(Op::Absorb, sp0(), a, b); }
//@hint before absorb_trits 1
proof { assert(h1.val(mem@) == b); }
//@hint exit
proof {
    let m0 = old(mem)@;
    assert forall|c: int| #[trigger] m0.dom().contains(c) implies mem@.dom().contains(c) && mem@[c] == m0[c] by { }
}
//@fn encode_skn mem=rw props=C13
    requires t.inv(old(mem)@), t.len() == 18, 0 <= height <= 40, 0 <= skn <= 2391484,
    ensures extends_but(old(mem)@, final(mem)@, t.b()), final(mem)@[t.b()] == t.put(old(mem)@, m_skn(height as int, skn as int))[t.b()],
//@hint entry
let ghost m0 = mem@;
proof {
    lemma_half();
    lemma_prefix(4, 2, height as int); lemma_prefix(14, 4, skn as int);
    lemma_bt_len(6, height as int); lemma_bt_len(18, skn as int);
}
//@hint after put6 0
let ghost v1 = ts.val(mem@);
proof { assert(v1.take(4) =~= bt(4, height as int)); }
//@hint after put18 0
let ghost v2 = ts.val(mem@);
proof { assert(v2.take(14) =~= bt(14, skn as int)); assert(mem@[t.b()] == t.put(m0, bt(4, height as int))[t.b()]); }
//@hint exit
proof {
    lemma_wr_adj(m0, t.b(), t.o(), bt(4, height as int), bt(14, skn as int));
    assert forall|c: int| #[trigger] m0.dom().contains(c) implies mem@.dom().contains(c) && (c != t.b() ==> mem@[c] == m0[c]) by { }
    assert(mem@[t.b()] =~= t.put(m0, m_skn(height as int, skn as int))[t.b()]);
}
//@fn parse_skn mem=rw props=C13
    requires t.ok(old(mem)@), t.len() == 18,
    ensures extends(old(mem)@, final(mem)@), r.is_some() <==> m_parsed(t.val(old(mem)@)),
        r.is_some() ==> r.unwrap().0 == m_d(t.val(old(mem)@)) && r.unwrap().1 == m_k(t.val(old(mem)@)),
//@hint entry
let ghost m0 = mem@;
let ghost tv_ = t.val(m0);
let ghost (t4, t14) = (tv_.take(4), tv_.subrange(4, 18));
proof {
    lemma_half();
    crate::wots::lemma_sub(tv_, 0, 4); crate::wots::lemma_sub(tv_, 4, 18);
    assert(t4 =~= tv_.subrange(0, 4));
    lemma_ival_pad(t4, 2); lemma_ival_pad(t14, 4); lemma_ival_range(t4); lemma_ival_range(t14);
    assert(tv_.take(18) =~= tv_);
}
//@hint before get6 0
proof { assert(ts.val(mem@).take(6) =~= t4 + zeros(2)); assert(is_trits(ts.val(mem@))); }
//@hint before get18 0
proof { assert(ts.val(mem@).take(18) =~= t14 + zeros(4)); }
//@fn PrivateKeyT::gen mem=rw memcall=gen val:merge_nodes=MergeNodesFn props=C13
    requires prng.inv(old(mem)@), is_trits(prng.key(old(mem)@)), nonce.ok(old(mem)@), height <= 20,
    ensures extends(old(mem)@, final(mem)@), r.inv(final(mem)@), r.mt.theight() == height, r.mt.tskn() == 0,
        r.sk.key(final(mem)@) == prng.key(old(mem)@), r.sk.nv(final(mem)@) == nonce.val(old(mem)@),
//@hint let sk 0
let ghost m1 = mem@;
proof {
    let m0 = old(mem)@;
    assert(extends(m0, m1));
    assert(sk.nonce.val(m1) =~= nonce.val(m0));
    assert(sk.sok(m1) && sk.key(m1) == prng.key(m0) && sk.nv(m1) == nonce.val(m0));
    lemma_p2_mono(height as int, 20); assert(p2(20) == 1048576) by(compute);
}
//@hint exit
proof { lemma_ext_trans(old(mem)@, m1, mem@); sk.lemma_gframe(m1, mem@); tail__.sk.lemma_gframe(m1, mem@); }
//@fn PrivateKeyT::public_key props=C13
    requires exists|h: Heap, lf: spec_fn(int) -> Seq<u8>, mg: spec_fn(Seq<u8>, Seq<u8>) -> Seq<u8>| #[trigger] self.mt.tinv(h, lf, mg),
    ensures r.pk == self.mt.troot(),
//@fn PrivateKeyT::height props=C13
    ensures r == self.mt.theight(),
//@fn PrivateKeyT::skn props=C13
    ensures r == self.mt.tskn(),
//@fn PrivateKeyT::encode_skn mem=rw props=C13
    requires self.inv(old(mem)@), skn.inv(old(mem)@), skn.len() == 18,
    ensures extends_but(old(mem)@, final(mem)@, skn.b()), final(mem)@[skn.b()] == skn.put(old(mem)@, m_skn(self.mt.theight(), self.mt.tskn()))[skn.b()],
//@hint entry
proof { self.lemma_inv(mem@); }
//@fn PrivateKeyT::encode_wotsig mem=rw props=C13
    requires self.inv(old(mem)@), hash.ok(old(mem)@), hash.len() == 234, wotsig.inv(old(mem)@), wotsig.len() == 13122, wotsig.b() != hash.b(),
    ensures extends_but(old(mem)@, final(mem)@, wotsig.b()),
        final(mem)@[wotsig.b()] == wotsig.put(old(mem)@, w_sig(m_wsk(self.sk.key(old(mem)@), self.sk.nv(old(mem)@), self.mt.tskn()), hash.val(old(mem)@), 81))[wotsig.b()],
//@hint entry
proof { self.lemma_inv(mem@); }
//@hint before sign 0
let ghost m1 = mem@;
proof { assert(hash.val(m1) =~= hash.val(old(mem)@)); }
//@hint exit
proof { lemma_ext_but(old(mem)@, m1, mem@, wotsig.b()); }
//@fn PrivateKeyT::encode_apath mem=rw memcall=apath props=C13
    requires self.inv(old(mem)@), apath.inv(old(mem)@), apath.len() == 243 * self.mt.theight(), self.mt.tskn() < p2(self.mt.theight()),
    ensures extends_but(old(mem)@, final(mem)@, apath.b()),
        final(mem)@[apath.b()] == apath.put(old(mem)@, m_path(m_leaves(self.sk.key(old(mem)@), self.sk.nv(old(mem)@)), self.mt.tskn(), self.mt.theight()))[apath.b()],
//@hint entry
let ghost m0 = mem@;
let ghost lf = m_leaves(self.sk.key(m0), self.sk.nv(m0));
let ghost skn = self.mt.tskn();
let ghost hh = self.mt.theight();
let ghost a0 = apath;
proof { self.lemma_inv(mem@); lemma_wr_empty(m0, apath.b(), apath.o()); }
//@hint let ap 0
let ghost m1 = mem@;
let ghost pv = ap.pv(m1);
//@loop 0
    invariant seq0@ == ap.nodes@, end0 == hh, it0 <= end0, hh == ap.nodes@.len(), m0 == old(mem)@, extends(m0, m1), ap.pok(m1), all_fresh(ap.nodes@, m0), pv == ap.pv(m1), is_path(lf, m_mg(), pv, skn), pv.len() == hh, hh <= 20,
        apath_m == a0.s_drop(243 * it0), a0.len() == 243 * hh, a0.inv(m0), extends_but(m1, mem@, a0.b()), mem@[a0.b()] == a0.put(m0, m_path(lf, skn, it0 as int))[a0.b()],
        is_trits(self.sk.key(m0)), is_trits(self.sk.nv(m0)), lf == m_leaves(self.sk.key(m0), self.sk.nv(m0)),
    decreases end0 - it0,
//@hint loop 0 start
let ghost m2 = mem@;
proof {
    let k = it0 - 1;
    assert(n.nok(m1) && n.nfresh(m0));
    assert(m0.dom().contains(a0.b()));
    assert(m1.dom().contains(n.b()));
    assert(n.slice_spec().val(m2) =~= n.val(m1));
    assert(pv[k] == n.val(m1));
    lemma_path_ok(self.sk.key(m0), self.sk.nv(m0), skn, k);
    assert(m_path(lf, skn, k + 1) == m_path(lf, skn, k) + n.val(m1));
}
//@hint loop 0 end
proof {
    let k = it0 - 1;
    lemma_wr_adj(m0, a0.b(), a0.o(), m_path(lf, skn, k), n.val(m1));
    assert(mem@[a0.b()] =~= a0.put(m0, m_path(lf, skn, k + 1))[a0.b()]);
}
//@hint exit
proof { lemma_ext_but(m0, m1, mem@, a0.b()); }
//@fn PrivateKeyT::sign mem=rw mayfail=self.exhausted() props=C13
    requires self.inv(old(mem)@), hash.ok(old(mem)@), hash.len() == 234, sig.inv(old(mem)@), sig.len() == m_size(self.mt.theight()), sig.b() != hash.b(), self.avoids(old(mem)@, sig.b()),
    ensures !self.exhausted(),  extends_but(old(mem)@, final(mem)@, sig.b()), final(mem)@[sig.b()] == sig.put(old(mem)@, self.sigv(old(mem)@, hash.val(old(mem)@)))[sig.b()],
//@hint entry
let ghost m0 = mem@;
let ghost s0 = sig;
let ghost (key, nonce, hv, d, skn) = (self.sk.key(m0), self.sk.nv(m0), hash.val(m0), self.mt.theight(), self.mt.tskn());
let ghost (a, b, c) = (m_skn(d, skn), w_sig(m_wsk(key, nonce, skn), hv, 81), m_path(m_leaves(key, nonce), skn, d));
proof {
    self.lemma_inv(m0);
    lemma_bt_len(4, d); lemma_bt_len(14, skn); lemma_leaf_ok(key, nonce, skn);
    crate::wots::lemma_sig_len(m_wsk(key, nonce, skn), hv, 81);
    lemma_path_ok(key, nonce, skn, d);
}
//@hint after encode_skn 0
let ghost m1 = mem@;
proof {
    self.lemma_avoids(m0, m1, s0.b());
    assert(m0.dom().contains(hash.b()));
    assert(hash.val(m1) =~= hv);
}
//@hint after encode_wotsig 0
let ghost m2 = mem@;
proof {
    lemma_ext_but(m0, m1, m2, s0.b());
    self.lemma_avoids(m0, m2, s0.b());
    lemma_wr_adj(m0, s0.b(), s0.o(), a, b);
    assert(m2[s0.b()] =~= s0.put(m0, a + b)[s0.b()]);
}
//@hint exit
proof {
    lemma_ext_but(m0, m2, mem@, s0.b());
    lemma_wr_adj(m0, s0.b(), s0.o(), a + b, c);
    assert(mem@[s0.b()] =~= s0.put(m0, a + b + c)[s0.b()]);
}
//@fn PrivateKeyT::skn_left props=C13
    requires exists|h: Heap| #[trigger] self.inv(h),
    ensures r == p2(self.mt.theight()) - self.mt.tskn(),
//@hint entry
proof { let h = choose|h: Heap| #[trigger] self.inv(h); self.lemma_inv(h); }
//@fn PrivateKeyT::next mem=rw val:merge_nodes=MergeNodesFn props=C13
    requires old(self).inv(old(mem)@),
    ensures extends(old(mem)@, final(mem)@), final(self).inv(final(mem)@), final(self).mt.theight() == old(self).mt.theight(), final(self).sk == old(self).sk,
        final(self).mt.tskn() == (if old(self).mt.tskn() < p2(old(self).mt.theight()) { old(self).mt.tskn() + 1 } else { old(self).mt.tskn() }),
        r == (final(self).mt.tskn() < p2(old(self).mt.theight())),
//@hint entry
proof { self.lemma_inv(mem@); lemma_p2_mono(self.mt.theight(), 20); }
//@fn fold_apath mem=rw props=C13 isolate
    requires 0 <= skn, ap.ok(old(mem)@), ap.len() % 243 == 0, hpk.ok(old(mem)@), hpk.len() == 243, ap.b() != hpk.b(),
    ensures extends_but(old(mem)@, final(mem)@, hpk.b()),
        final(mem)@[hpk.b()] == hpk.put(old(mem)@, foldk(m_mg(), chunks(ap.val(old(mem)@), ap.len() / 243), skn as int, hpk.val(old(mem)@), ap.len() / 243))[hpk.b()],
//@hint entry
let ghost m0 = mem@;
let ghost av = ap.val(m0);
let ghost d = ap.len() / 243;
let ghost c = chunks(av, d);
let ghost x = hpk.val(m0);
let ghost mut k: int = 0;
proof { lemma_wr_rd(m0, hpk.b(), hpk.o(), hpk.len()); assert(hpk.put(m0, x)[hpk.b()] =~= m0[hpk.b()]); assert(p2(0) == 1); }
//@loop 0
    invariant 0 <= skn, m0 == old(mem)@, av == ap.val(m0), ap.ok(m0), ap.len() == 243 * d, c == chunks(av, d), 0 <= k <= d, hpk.inv(m0), hpk.len() == 243, ap.b() != hpk.b(), x == hpk.val(m0), is_trits(x),
        ap_m == ap.s_drop(243 * k), skn_m == skn as int / p2(k), skn_m >= 0, extends_but(m0, mem@, hpk.b()),
        foldk(m_mg(), c, skn as int, x, k).len() == 243, is_trits(foldk(m_mg(), c, skn as int, x, k)),
        mem@[hpk.b()] == hpk.put(m0, foldk(m_mg(), c, skn as int, x, k))[hpk.b()],
    ensures k == d,
    decreases d - k,
//@hint loop 0 start
let ghost y = foldk(m_mg(), c, skn as int, x, k);
let ghost m1 = mem@;
proof {
    lemma_rd_wr(m0, hpk.b(), hpk.o(), y);
    assert(hpk.val(m1) =~= y);
    lemma_div2(skn as int, k);
    crate::wots::lemma_sub(av, 243 * k, 243 * k + 243);
    assert(m0.dom().contains(ap.b()));
    assert(ap_m.s_take(243).val(m1) =~= c[k]);
}
//@hint before hash_datas 0
let ghost z = (if (skn as int / p2(k)) % 2 == 0 { (m_mg())(y, c[k]) } else { (m_mg())(c[k], y) });
proof {
    lemma_mg_ok(y, c[k]); lemma_mg_ok(c[k], y);
    let vs = vals(h@, m1);
    lemma_cat2(vs);
    assert(h@.len() == 2);
    assert(sp_hash(cat(vs), 243) == z);
}
//@hint loop 0 end
proof {
    lemma_wr_over(m0, hpk.b(), hpk.o(), y, z);
    assert(mem@[hpk.b()] =~= hpk.put(m0, z)[hpk.b()]);
    lemma_ext_but(m0, m1, mem@, hpk.b());
    k = k + 1;
}
//@fn recover_apk mem=rw props=C13
    requires 0 <= height <= 40, 0 <= skn, hash.ok(old(mem)@), hash.len() == 234, wotsig.ok(old(mem)@), wotsig.len() == 13122, apath.ok(old(mem)@), apath.len() == 243 * height,
        apk.inv(old(mem)@), apk.len() == 243, apath.b() != apk.b(),
    ensures extends_but(old(mem)@, final(mem)@, apk.b()),
        final(mem)@[apk.b()] == apk.put(old(mem)@, foldk(m_mg(), chunks(apath.val(old(mem)@), height as int), skn as int, w_recover(wotsig.val(old(mem)@), hash.val(old(mem)@)), height as int))[apk.b()],
//@hint before fold_apath 0
let ghost m1 = mem@;
let ghost w = w_recover(wotsig.val(old(mem)@), hash.val(old(mem)@));
proof {
    let m0 = old(mem)@;
    lemma_recover_ok(wotsig.val(m0), hash.val(m0));
    lemma_rd_wr(m0, apk.b(), apk.o(), w);
    assert(apk.val(m1) =~= w);
    assert(m0.dom().contains(apath.b()));
    assert(apath.val(m1) =~= apath.val(m0));
    assert(apath.len() / 243 == height as int);
}
//@hint exit
proof {
    let m0 = old(mem)@;
    let v = foldk(m_mg(), chunks(apath.val(m0), height as int), skn as int, w, height as int);
    lemma_foldk_ok(chunks(apath.val(m0), height as int), skn as int, w, height as int);
    lemma_wr_over(m0, apk.b(), apk.o(), w, v);
    assert(mem@[apk.b()] =~= apk.put(m0, v)[apk.b()]);
    lemma_ext_but(m0, m1, mem@, apk.b());
}
//@fn recover mem=rw props=C13
    requires apk.inv(old(mem)@), apk.len() == 243, hash.ok(old(mem)@), hash.len() == 234, sig.ok(old(mem)@), sig.b() != apk.b(),
    ensures extends_but(old(mem)@, final(mem)@, apk.b()), r.is_some() <==> m_valid(sig.val(old(mem)@)),
        r.is_some() ==> r.unwrap() == m_size(m_d(sig.val(old(mem)@))) && final(mem)@[apk.b()] == apk.put(old(mem)@, m_rec(sig.val(old(mem)@), hash.val(old(mem)@)))[apk.b()],
        r.is_none() ==> final(mem)@[apk.b()] == old(mem)@[apk.b()],
//@hint entry
let ghost m0 = mem@;
let ghost sv = sig.val(m0);
proof { lemma_half(); if sv.len() >= 18 { crate::wots::lemma_sub(sv, 0, 4); assert(sig.s_take(18).val(m0) =~= sv.take(18)); lemma_ival_range(sv.take(4)); lemma_ival_range(sv.subrange(4, 18)); crate::wots::lemma_sub(sv, 4, 18); crate::wots::lemma_sub(sv, 0, 18); assert(sv.take(18) =~= sv.subrange(0, 18)); assert(sv.take(4) =~= sv.subrange(0, 4)); assert(sv.take(18).take(4) =~= sv.take(4)); assert(sv.take(18).subrange(4, 18) =~= sv.subrange(4, 18)); } }
//@hint after parse_skn 0
let ghost m1 = mem@;
//@hint before recover_apk 0
proof {
    crate::wots::lemma_sub(sv, 18, 13140);
    assert(wotsig.val(m1) =~= sv.subrange(18, 13140));
    assert(hash.val(m1) =~= hash.val(m0));
    assert(apath.s_take(n as int).val(m1) =~= sv.skip(13140).take(n as int));
    let (ca, cb) = (chunks(sv.skip(13140).take(n as int), d as int), chunks(sv.skip(13140), d as int));
    assert forall|i: int| 0 <= i < d implies ca[i] == cb[i] by { assert(ca[i] =~= cb[i]); }
    assert(ca =~= cb);
}
//@fn verify mem=rw cmp:trits=apk props=C13
    requires pk.ok(old(mem)@), pk.len() == 243, hash.ok(old(mem)@), hash.len() == 234, sig.ok(old(mem)@),
    ensures extends(old(mem)@, final(mem)@),
        r == (m_valid(sig.val(old(mem)@)) && sig.len() == m_size(m_d(sig.val(old(mem)@))) && pk.val(old(mem)@) == m_rec(sig.val(old(mem)@), hash.val(old(mem)@))),
//@hint before recover 0
let ghost m0 = old(mem)@;
let ghost m1 = mem@;
proof { assert(hash.val(m1) =~= hash.val(m0)); assert(sig.val(m1) =~= sig.val(m0)); lemma_fresh_all(m0, m1, apk.b());
    assert(m1.dom().contains(apk.b()));
    let v = m_rec(sig.val(m0), hash.val(m0));
    if m_valid(sig.val(m0)) { lemma_rec_ok(sig.val(m0), hash.val(m0)); }
    assert forall|h2: Heap| #[trigger] extends_but(m1, h2, apk.b()) && h2[apk.b()] == apk.slice_mut_spec().put(m1, v)[apk.b()] && v.len() == 243 implies apk.slice_spec().inv(h2) && apk.slice_spec().val(h2) == v by {
        lemma_put_val(apk.slice_mut_spec(), m1, h2, v);
        assert(apk.slice_spec().val(h2) =~= v);
    }
}
//@fn PublicKey::recover mem=rw props=C13
    requires hash.ok(old(mem)@), hash.len() == 234, sig.ok(old(mem)@),
    ensures extends(old(mem)@, final(mem)@), r.is_some() <==> m_valid(sig.val(old(mem)@)),
        r.is_some() ==> r.unwrap().1 == m_size(m_d(sig.val(old(mem)@))) && r.unwrap().0.ok(final(mem)@) && r.unwrap().0.pk.val(final(mem)@) == m_rec(sig.val(old(mem)@), hash.val(old(mem)@)),
//@hint before recover 0
let ghost m0 = old(mem)@;
let ghost m1 = mem@;
proof { assert(hash.val(m1) =~= hash.val(m0)); assert(sig.val(m1) =~= sig.val(m0)); lemma_fresh_all(m0, m1, pk.b()); }
//@hint after recover 0
proof {
    lemma_rec_ok(sig.val(m0), hash.val(m0));
    assert(m1.dom().contains(pk.b()));
    lemma_put_val(pk.slice_mut_spec(), m1, mem@, m_rec(sig.val(m0), hash.val(m0)));
}
//@fn PublicKey::verify mem=rw props=C13
    requires self.ok(old(mem)@), hash.ok(old(mem)@), hash.len() == 234, sig.ok(old(mem)@),
    ensures extends(old(mem)@, final(mem)@),
        r == (m_valid(sig.val(old(mem)@)) && sig.len() == m_size(m_d(sig.val(old(mem)@))) && self.pk.val(old(mem)@) == m_rec(sig.val(old(mem)@), hash.val(old(mem)@))),
//@hint entry
proof { assert(self.pk.slice_spec().val(mem@) =~= self.pk.val(mem@)); }

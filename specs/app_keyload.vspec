//@module app::channel::msg::keyload
//@file app/channel/msg/keyload.rs
//@deps mem trits::util trits::slice trits::trits spongos prng ring poly ntru pb3::spec pb3::err pb3::typ::trytes pb3::typ::size pb3::typ::repeated pb3::cmd::absorb pb3::cmd::join pb3::cmd::ntrukem pb3::msg app::core app::spec
//@map spongos::KEY_SIZE 243
//@map psk::PSKID_SIZE 81
//@map psk::Psk TritsT
//@map psk::PskId TritsT
//@map ntru::Pkid TritsT
//@map ntru::PKID_SIZE 81
//@map dyn:ExactSizeIterator<Item=(&psk:: Items<TritsT>
//@map dyn:ExactSizeIterator<Item=(&ntru:: Items<PublicKey>
//@ext HashMap::key_get ro
//@prelude
use crate::mem::*;
use crate::trits::defs::*;
use crate::trits::util::*;
use crate::trits::b1t1::*;
use crate::trits::slice::*;
use crate::trits::trits::*;
use crate::spongos::*;
use crate::prng::*;
use crate::ntru::{PublicKey, PrivateKey, keypair, nofail};
use crate::app::spec::*;
use crate::pb3::spec::*;
use crate::pb3::msg::*;
use crate::pb3::err::{Err, Result, guard};
use crate::pb3::typ::size::*;
use crate::pb3::typ::trytes::*;
use crate::pb3::cmd::join::*;
use crate::pb3::cmd::ntrukem::*;

/// the callers' iterators over the recipients
pub trait Items<V>: Sized {
    spec fn rest(&self) -> Seq<(TritsT, V)>;
    fn len(&self) -> (r: usize) ensures r == self.rest().len();
    fn next_item<'a>(&'a mut self) -> (r: Option<(&'a TritsT, &'a V)>)
        ensures r.is_some() == (old(self).rest().len() > 0),
            r.is_some() ==> *(r.unwrap().0) == old(self).rest()[0].0 && *(r.unwrap().1) == old(self).rest()[0].1 && final(self).rest() == old(self).rest().skip(1);
}
/// what a recipient's key stands for
pub trait KeyV: Sized {
    spec fn kok(&self, h: Heap) -> bool;
    spec fn kv(&self, h: Heap) -> Seq<u8>;
    spec fn kb(&self) -> int;
    proof fn lemma_key(&self, h1: Heap, h2: Heap, z: Set<int>)
        requires self.kok(h1), !z.contains(self.kb()), ext_s(h1, h2, z),
        ensures self.kok(h2), self.kv(h2) == self.kv(h1);
}
impl KeyV for TritsT {
    open spec fn kok(&self, h: Heap) -> bool { self.ok(h) && self.n == 243 }
    open spec fn kv(&self, h: Heap) -> Seq<u8> { self.val(h) }
    open spec fn kb(&self) -> int { self.b() }
    proof fn lemma_key(&self, h1: Heap, h2: Heap, z: Set<int>) { lemma_trits_ext(*self, h1, h2, z); }
}
impl KeyV for PrivateKey {
    open spec fn kok(&self, h: Heap) -> bool { self.inv(h) }
    open spec fn kv(&self, h: Heap) -> Seq<u8> { self.sk.val(h) }
    open spec fn kb(&self) -> int { self.sk.b() }
    proof fn lemma_key(&self, h1: Heap, h2: Heap, z: Set<int>) { lemma_trits_ext(self.sk, h1, h2, z); }
}
impl KeyV for PublicKey {
    open spec fn kok(&self, h: Heap) -> bool { self.inv(h) }
    open spec fn kv(&self, h: Heap) -> Seq<u8> { self.pk.val(h) }
    open spec fn kb(&self) -> int { self.pk.b() }
    proof fn lemma_key(&self, h1: Heap, h2: Heap, z: Set<int>) { lemma_trits_ext(self.pk, h1, h2, z); }
}
/// `std::collections::HashMap` with trit keys: a map from contents (assumed)
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct HashMap<K, V> { k: K, v: V }
impl<V> HashMap<TritsT, V> {
    pub uninterp spec fn m(self) -> Map<Seq<u8>, V>;
    #[verifier::external_body]
    pub fn key_get(&self, k: &TritsT, mem: &Mem) -> (r: Option<&V>)
        requires k.ok(mem@),
        ensures r.is_some() == self.m().dom().contains(k.val(mem@)), r.is_some() ==> *(r.unwrap()) == self.m()[k.val(mem@)],
    { unimplemented!() }
}
pub open spec fn keys_ok<V: KeyV>(m: HashMap<TritsT, V>, h: Heap, b: int) -> bool { forall|k: Seq<u8>| m.m().dom().contains(k) ==> (#[trigger] m.m()[k]).kok(h) && m.m()[k].kb() != b }
pub open spec fn keyv<V: KeyV>(m: HashMap<TritsT, V>, h: Heap) -> Map<Seq<u8>, Seq<u8>> { m.m().map_values(|v: V| v.kv(h)) }
pub proof fn lemma_keys<V: KeyV>(m: HashMap<TritsT, V>, h1: Heap, h2: Heap, b: int)
    requires keys_ok(m, h1, b), ext_s(h1, h2, set![b]),
    ensures keys_ok(m, h2, b), keyv(m, h2) == keyv(m, h1),
{
    assert forall|k: Seq<u8>| m.m().dom().contains(k) implies (#[trigger] m.m()[k]).kok(h2) && m.m()[k].kv(h2) == m.m()[k].kv(h1) by { m.m()[k].lemma_key(h1, h2, set![b]); }
    assert(keyv(m, h2) =~= keyv(m, h1));
}
/// the recipients of a keyload
pub open spec fn items_ok<V: KeyV>(v: Seq<(TritsT, V)>, h: Heap, z: Set<int>) -> bool {
    forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).0.ok(h) && v[i].0.n == 81 && !z.contains(v[i].0.b()) && v[i].1.kok(h) && !z.contains(v[i].1.kb())
}
pub open spec fn items<V: KeyV>(v: Seq<(TritsT, V)>, h: Heap) -> Seq<(Seq<u8>, Seq<u8>)> { Seq::new(v.len(), |i: int| (v[i].0.val(h), v[i].1.kv(h))) }
pub proof fn lemma_items<V: KeyV>(v: Seq<(TritsT, V)>, h1: Heap, h2: Heap, z: Set<int>)
    requires items_ok(v, h1, z), ext_s(h1, h2, z),
    ensures items_ok(v, h2, z), items(v, h2) == items(v, h1),
{
    assert forall|i: int| 0 <= i < v.len() implies (#[trigger] v[i]).0.ok(h2) && v[i].0.val(h2) == v[i].0.val(h1) && v[i].1.kok(h2) && v[i].1.kv(h2) == v[i].1.kv(h1) by {
        lemma_trits_ext(v[i].0, h1, h2, z); v[i].1.lemma_key(h1, h2, z);
    }
    assert(items(v, h2) =~= items(v, h1));
}
/// the part for pre-shared keys: the identifier and the key masked in the state after the pre-shared key
pub open spec fn psk_sp(a: SP, id: Seq<u8>, psk: Seq<u8>) -> SP { sp_commit(sp_absorb(sp_absorb(a, id), psk)) }
pub open spec fn psk_rec(a: SP, key: Seq<u8>, p: (Seq<u8>, Seq<u8>)) -> Seq<u8> { p.0 + sp_enc(psk_sp(a, p.0, p.1), key) }
pub open spec fn psk_out(a: SP, key: Seq<u8>, ps: Seq<(Seq<u8>, Seq<u8>)>) -> Seq<u8> decreases ps.len() {
    if ps.len() == 0 { Seq::empty() } else { psk_out(a, key, ps.drop_last()) + psk_rec(a, key, ps.last()) }
}
/// the part for public keys: the identifier and the encapsulated key
pub open spec fn npk_rec(a: SP, key: Seq<u8>, r: Seq<u8>, nonce: Seq<u8>, p: (Seq<u8>, Seq<u8>)) -> Seq<u8> { p.0 + kem_out(sp_absorb(a, p.0), p.1, r, nonce, key) }
pub open spec fn npk_out(a: SP, key: Seq<u8>, r: Seq<u8>, nonce: Seq<u8>, ps: Seq<(Seq<u8>, Seq<u8>)>) -> Seq<u8> decreases ps.len() {
    if ps.len() == 0 { Seq::empty() } else { npk_out(a, key, r, nonce, ps.drop_last()) + npk_rec(a, key, r, nonce, ps.last()) }
}
pub open spec fn kl_a3(a1: SP, nonce: Seq<u8>, p: int) -> SP { sp_absorb(sp_absorb(a1, nonce), s_size(p)) }
pub open spec fn kl_a5(a1: SP, nonce: Seq<u8>, p: int, q: int) -> SP { sp_absorb(kl_a3(a1, nonce, p), s_size(q)) }
pub open spec fn kl_end(a1: SP, nonce: Seq<u8>, p: int, q: int, key: Seq<u8>) -> SP { sp_commit(sp_absorb(kl_a5(a1, nonce, p, q), key)) }
pub open spec fn kl_out(a1: SP, id: Seq<u8>, nonce: Seq<u8>, r: Seq<u8>, key: Seq<u8>, ps: Seq<(Seq<u8>, Seq<u8>)>, ns: Seq<(Seq<u8>, Seq<u8>)>) -> Seq<u8> {
    id + nonce + s_size(ps.len() as int) + psk_out(kl_a3(a1, nonce, ps.len() as int), key, ps) + s_size(ns.len() as int) + npk_out(kl_a5(a1, nonce, ps.len() as int, ns.len() as int), key, r, nonce, ns)
}
pub open spec fn ids_ok(ps: Seq<(Seq<u8>, Seq<u8>)>) -> bool { forall|i: int| 0 <= i < ps.len() ==> (#[trigger] ps[i]).0.len() == 81 }
pub proof fn lemma_psk_len(a: SP, key: Seq<u8>, ps: Seq<(Seq<u8>, Seq<u8>)>)
    requires ids_ok(ps), key.len() == 243,
    ensures psk_out(a, key, ps).len() == 324 * ps.len(),
    decreases ps.len(),
{ if ps.len() > 0 { assert(ids_ok(ps.drop_last())); lemma_psk_len(a, key, ps.drop_last()); lemma_outs_len(Op::Encr, psk_sp(a, ps.last().0, ps.last().1), key); } }
pub proof fn lemma_npk_len(a: SP, key: Seq<u8>, r: Seq<u8>, nonce: Seq<u8>, ps: Seq<(Seq<u8>, Seq<u8>)>)
    requires ids_ok(ps),
    ensures npk_out(a, key, r, nonce, ps).len() == 9297 * ps.len(),
    decreases ps.len(),
{ if ps.len() > 0 { assert(ids_ok(ps.drop_last())); lemma_npk_len(a, key, r, nonce, ps.drop_last()); lemma_kem_len(sp_absorb(a, ps.last().0), ps.last().1, r, nonce, key); } }
/// a fork writes after the fields
pub proof fn lemma_w_fork(s0: Spongos, b0: TritSliceMutT, h0: Heap, s1: Spongos, b1: TritSliceMutT, h1: Heap, o: Seq<u8>, a: SP, f: Spongos, f2: Spongos, b2: TritSliceMutT, h2: Heap, o2: Seq<u8>, e: SP, z: Set<int>, l: Spongos)
    requires l.inv(h1), l.b() != b0.b(), l.b() != f.b(), can_wrap(s0, b0, h0, 0), wrote(s0, b0, h0, s1, b1, h1, o, a, z), z.contains(b0.b()), !h0.dom().contains(f.b()), f.b() != s1.b(), wrote(f, b1, h1, f2, b2, h2, o2, e, set![f.b(), b1.b()]),
    ensures wrote(s0, b0, h0, s1, b2, h2, o + o2, a, z), s1.inv(h2), s1.sp(h2) == a, l.inv(h2), l.sp(h2) == l.sp(h1),
{
    assert(h1.dom().contains(l.b())); lemma_sp_same(l, h1, h2);
    let y = set![f.b(), b1.b()];
    assert(h1.dom().contains(s1.b()));
    assert(s1.b() == s0.b() && b1.b() == b0.b());
    lemma_sp_same(s1, h1, h2);
    assert(h2[b0.b()] =~= b0.put(h0, o + o2)[b0.b()]);
    assert(ext_s(h0, h2, z)) by { assert forall|c: int| #[trigger] h0.dom().contains(c) implies h2.dom().contains(c) && (!z.contains(c) ==> h2[c] == h0[c]) by { assert(h1.dom().contains(c)); } }
}
pub proof fn lemma_wrote_f(m: Mode, s0: Spongos, b0: TritSliceMutT, h0: Heap, s1: Spongos, b1: TritSliceMutT, h1: Heap, v: Seq<u8>)
    requires can_wrap(s0, b0, h0, v.len() as int), wrapped(m, s0, b0, h0, s1, b1, h1, v),
    ensures wrote(s0, b0, h0, s1, b1, h1, wr_out(m, s0.sp(h0), v), sp_absorb(s0.sp(h0), v), set![s0.b(), b0.b()]),
{ lemma_wrote(m, s0, b0, h0, s1, b1, h1, v, set![s0.b(), b0.b()]); }
/// a fresh copy changes nothing
pub proof fn lemma_w_fresh(s0: Spongos, b0: TritSliceMutT, h0: Heap, s1: Spongos, b1: TritSliceMutT, h1: Heap, o: Seq<u8>, a: SP, z: Set<int>, h2: Heap, l: Spongos)
    requires l.inv(h1), can_wrap(s0, b0, h0, 0), wrote(s0, b0, h0, s1, b1, h1, o, a, z), extends(h1, h2),
    ensures wrote(s0, b0, h0, s1, b1, h2, o, a, z), s1.inv(h2), s1.sp(h2) == a, ext_s(h1, h2, z), l.inv(h2), l.sp(h2) == l.sp(h1),
{
    assert(h1.dom().contains(l.b())); lemma_sp_same(l, h1, h2);
    assert(h1.dom().contains(s1.b()) && h1.dom().contains(b0.b())) by { assert(h0.dom().contains(b0.b())); }
    lemma_sp_same(s1, h1, h2);
    assert(ext_s(h0, h2, z)) by { assert forall|c: int| #[trigger] h0.dom().contains(c) implies h2.dom().contains(c) && (!z.contains(c) ==> h2[c] == h0[c]) by { assert(h1.dom().contains(c)); } }
}
pub proof fn lemma_ext_fork(h0: Heap, h1: Heap, h2: Heap, z: Set<int>, fb: int, b: int)
    requires ext_s(h0, h1, z), ext_s(h1, h2, set![fb, b]), !h0.dom().contains(fb), z.contains(b),
    ensures ext_s(h0, h2, z),
{ assert forall|c: int| #[trigger] h0.dom().contains(c) implies h2.dom().contains(c) && (!z.contains(c) ==> h2[c] == h0[c]) by { assert(h1.dom().contains(c)); } }
/// the state of a fork moves on without output
pub proof fn lemma_w_step(s0: Spongos, b0: TritSliceMutT, h0: Heap, s1: Spongos, b1: TritSliceMutT, h1: Heap, o: Seq<u8>, a: SP, z: Set<int>, s2: Spongos, h2: Heap, e: SP)
    requires can_wrap(s0, b0, h0, 0), wrote(s0, b0, h0, s1, b1, h1, o, a, z), z.contains(s0.b()), s2.inv(h2), s2.same(s1), s2.sp(h2) == e, ext_s(h1, h2, set![s0.b()]),
    ensures wrote(s0, b0, h0, s2, b1, h2, o, e, z), can_wrap(s2, b1, h2, b0.len() - o.len()),
{
    assert(h0.dom().contains(b0.b())); assert(h1.dom().contains(b0.b()));
    assert(ext_s(h0, h2, z)) by { assert forall|c: int| #[trigger] h0.dom().contains(c) implies h2.dom().contains(c) && (!z.contains(c) ==> h2[c] == h0[c]) by { assert(h1.dom().contains(c)); } }
    lemma_wrote_next(s0, b0, h0, s2, b1, h2, o, e, z);
}
/// record `i` of `c` trits
pub open spec fn kl_id(y: Seq<u8>, c: int, i: int) -> Seq<u8> { y.skip(c * i).take(81) }
pub open spec fn kl_body(y: Seq<u8>, c: int, i: int) -> Seq<u8> { y.skip(c * i + 81) }
/// the first record for a known recipient, or `n`
pub open spec fn kl_first(m: Map<Seq<u8>, Seq<u8>>, y: Seq<u8>, c: int, n: int) -> int decreases n {
    if n <= 0 { 0 } else { let k = kl_first(m, y, c, n - 1); if k < n - 1 || m.dom().contains(kl_id(y, c, n - 1)) { k } else { n } }
}
pub proof fn lemma_first(m: Map<Seq<u8>, Seq<u8>>, y: Seq<u8>, c: int, n: int, k: int)
    requires 0 <= n <= k,
    ensures 0 <= kl_first(m, y, c, n) <= n, kl_first(m, y, c, n) < n ==> kl_first(m, y, c, k) == kl_first(m, y, c, n) && m.dom().contains(kl_id(y, c, kl_first(m, y, c, n))),
    decreases k,
{ if k > 0 { if n < k { lemma_first(m, y, c, n, k - 1); } else { lemma_first(m, y, c, n - 1, k - 1); } } }
pub open spec fn kl_nonce(x: Seq<u8>) -> Seq<u8> { x.skip(81).take(81) }
pub open spec fn kl_y(x: Seq<u8>, p: int) -> Seq<u8> { x.skip(162 + s_size(p).len() as int) }
pub open spec fn kl_z(x: Seq<u8>, p: int, q: int) -> Seq<u8> { kl_y(x, p).skip(324 * p + s_size(q).len() as int) }
pub open spec fn kl_len(p: int, q: int) -> int { 162 + s_size(p).len() as int + 324 * p + s_size(q).len() as int + 9297 * q }
pub open spec fn kl_split(x: Seq<u8>, p: int, q: int) -> bool {
    x.len() >= 162 && is_size(x.skip(162), p) && kl_y(x, p).len() >= 324 * p && is_size(kl_y(x, p).skip(324 * p), q) && kl_z(x, p, q).len() >= 9297 * q
}
pub open spec fn kl_pkey(a3: SP, m: Map<Seq<u8>, Seq<u8>>, y: Seq<u8>, i: int) -> Seq<u8> { rd_out(Mode::Mask, psk_sp(a3, kl_id(y, 324, i), m[kl_id(y, 324, i)]), kl_body(y, 324, i)).take(243) }
pub open spec fn kl_nok(a5: SP, w: Map<Seq<u8>, Seq<u8>>, z: Seq<u8>, j: int) -> bool { kem_ok(sp_absorb(a5, kl_id(z, 9297, j)), w[kl_id(z, 9297, j)], kl_body(z, 9297, j)) }
pub open spec fn kl_nkey(a5: SP, w: Map<Seq<u8>, Seq<u8>>, z: Seq<u8>, j: int) -> Seq<u8> { kem_key(sp_absorb(a5, kl_id(z, 9297, j)), w[kl_id(z, 9297, j)], kl_body(z, 9297, j)) }
/// the key a recipient with the pre-shared keys `m` and the private keys `w` reads
pub open spec fn kl_key(a1: SP, m: Map<Seq<u8>, Seq<u8>>, w: Map<Seq<u8>, Seq<u8>>, x: Seq<u8>, p: int, q: int) -> Seq<u8> {
    let i = kl_first(m, kl_y(x, p), 324, p);
    if i < p { kl_pkey(kl_a3(a1, kl_nonce(x), p), m, kl_y(x, p), i) } else { kl_nkey(kl_a5(a1, kl_nonce(x), p, q), w, kl_z(x, p, q), kl_first(w, kl_z(x, p, q), 9297, q)) }
}
/// C11: `x` starts with `p` and `q` records and one of them is for a known recipient; the first of them holds the key
pub open spec fn kl_is(a1: SP, m: Map<Seq<u8>, Seq<u8>>, w: Map<Seq<u8>, Seq<u8>>, x: Seq<u8>, p: int, q: int) -> bool {
    let z = kl_z(x, p, q);
    kl_split(x, p, q) && (kl_first(m, kl_y(x, p), 324, p) < p || (kl_first(w, z, 9297, q) < q && kl_nok(kl_a5(a1, kl_nonce(x), p, q), w, z, kl_first(w, z, 9297, q))))
}
pub open spec fn kl_some(a1: SP, m: Map<Seq<u8>, Seq<u8>>, w: Map<Seq<u8>, Seq<u8>>, x: Seq<u8>) -> bool { exists|p: int, q: int| #[trigger] kl_is(a1, m, w, x, p, q) }
/// the key was read
pub open spec fn kl_read(s0: Spongos, b0: TritSliceT, h0: Heap, s1: Spongos, b1: TritSliceT, h1: Heap, a1: SP, m: Map<Seq<u8>, Seq<u8>>, w: Map<Seq<u8>, Seq<u8>>) -> bool {
    let x = b0.val(h0);
    exists|p: int, q: int| #[trigger] kl_is(a1, m, w, x, p, q) && read(s0, b0, h0, s1, b1, h1, kl_len(p, q), kl_end(a1, kl_nonce(x), p, q, kl_key(a1, m, w, x, p, q)))
}
pub proof fn lemma_kl_p(x: Seq<u8>, p: int)
    requires is_trits(x), x.len() >= 162, is_size(x.skip(162), p),
    ensures forall|p2: int, q2: int| #[trigger] kl_split(x, p2, q2) ==> p2 == p,
{ lemma_skip_trits(x, 162); assert forall|p2: int, q2: int| #[trigger] kl_split(x, p2, q2) implies p2 == p by { lemma_size_inj(x.skip(162), p, p2); } }
pub proof fn lemma_kl_q(x: Seq<u8>, p: int, q: int)
    requires is_trits(x), x.len() >= 162, is_size(x.skip(162), p), kl_y(x, p).len() >= 324 * p, is_size(kl_y(x, p).skip(324 * p), q),
    ensures forall|p2: int, q2: int| #[trigger] kl_split(x, p2, q2) ==> p2 == p && q2 == q,
{
    lemma_kl_p(x, p); lemma_size_len(p);
    lemma_skip_trits(x, 162 + s_size(p).len() as int); lemma_skip_trits(kl_y(x, p), 324 * p);
    assert forall|p2: int, q2: int| #[trigger] kl_split(x, p2, q2) implies p2 == p && q2 == q by { lemma_size_inj(kl_y(x, p).skip(324 * p), q, q2); }
}
/// the contents are unique
pub proof fn lemma_kl_unique(a1: SP, m: Map<Seq<u8>, Seq<u8>>, w: Map<Seq<u8>, Seq<u8>>, x: Seq<u8>, p: int, q: int, p2: int, q2: int)
    requires is_trits(x), kl_is(a1, m, w, x, p, q), kl_is(a1, m, w, x, p2, q2),
    ensures p == p2, q == q2,
{ lemma_kl_q(x, p, q); assert(kl_split(x, p2, q2)); }
pub proof fn lemma_r_fresh(s0: Spongos, b0: TritSliceT, h0: Heap, s1: Spongos, b1: TritSliceT, h1: Heap, n: int, a: SP, h2: Heap)
    requires can_unwrap(s0, b0, h0), read(s0, b0, h0, s1, b1, h1, n, a), extends(h1, h2),
    ensures read(s0, b0, h0, s1, b1, h2, n, a), can_unwrap(s1, b1, h2),
{
    assert(h0.dom().contains(b0.b()) && h0.dom().contains(s0.b()));
    assert(h1.dom().contains(s1.b()));
    lemma_sp_same(s1, h1, h2);
    assert forall|c: int| #[trigger] h0.dom().contains(c) implies h2.dom().contains(c) && (c != s0.b() ==> h2[c] == h0[c]) by { assert(h1.dom().contains(c)); }
    lemma_read_next(s0, b0, h0, s1, b1, h2, n, a);
}
/// a fork reads after the fields
pub proof fn lemma_r_fork(s0: Spongos, b0: TritSliceT, h0: Heap, s1: Spongos, b1: TritSliceT, h1: Heap, n: int, a: SP, f: Spongos, f2: Spongos, b2: TritSliceT, h2: Heap, xb: int)
    requires can_unwrap(s0, b0, h0), read(s0, b0, h0, s1, b1, h1, n, a), !h0.dom().contains(f.b()), !h0.dom().contains(xb), keptx(f, b1, h1, f2, b2, h2, xb),
    ensures kept(s0, b0, h0, s1, b2, h2), forall|k: int| 0 <= k <= b1.len() && b2 == b1.s_drop(k) ==> #[trigger] read(s0, b0, h0, s1, b2, h2, n + k, a),
{
    assert(h0.dom().contains(s0.b()));
    assert(h1.dom().contains(s1.b()));
    lemma_sp_same(s1, h1, h2);
    assert forall|c: int| #[trigger] h0.dom().contains(c) implies h2.dom().contains(c) && (c != s0.b() ==> h2[c] == h0[c]) by { assert(h1.dom().contains(c)); }
    assert forall|k: int| 0 <= k <= b1.len() && b2 == b1.s_drop(k) implies #[trigger] read(s0, b0, h0, s1, b2, h2, n + k, a) by { }
}
/// trits that are not read
pub proof fn lemma_r_skip(s0: Spongos, b0: TritSliceT, h0: Heap, s1: Spongos, b1: TritSliceT, h1: Heap, n: int, a: SP, k: int)
    requires can_unwrap(s0, b0, h0), read(s0, b0, h0, s1, b1, h1, n, a), 0 <= k <= b1.len(),
    ensures read(s0, b0, h0, s1, b1.s_drop(k), h1, n + k, a),
{ }
/// one record of the written parts
pub proof fn lemma_psk_at(a: SP, key: Seq<u8>, ps: Seq<(Seq<u8>, Seq<u8>)>, i: int)
    requires ids_ok(ps), key.len() == 243, 0 <= i < ps.len(),
    ensures psk_out(a, key, ps).skip(324 * i).take(324) == psk_rec(a, key, ps[i]),
    decreases ps.len(),
{
    let d = ps.drop_last(); let o = psk_out(a, key, d); let n = ps.len() - 1;
    assert(ids_ok(d));
    lemma_psk_len(a, key, d); lemma_psk_len(a, key, ps); lemma_outs_len(Op::Encr, psk_sp(a, ps.last().0, ps.last().1), key);
    if i == n { assert(psk_out(a, key, ps).skip(324 * n).take(324) =~= psk_rec(a, key, ps.last())); }
    else { lemma_psk_at(a, key, d, i); assert(psk_out(a, key, ps).skip(324 * i).take(324) =~= o.skip(324 * i).take(324)); }
}
pub proof fn lemma_npk_at(a: SP, key: Seq<u8>, r: Seq<u8>, nonce: Seq<u8>, ps: Seq<(Seq<u8>, Seq<u8>)>, i: int)
    requires ids_ok(ps), 0 <= i < ps.len(),
    ensures npk_out(a, key, r, nonce, ps).skip(9297 * i).take(9297) == npk_rec(a, key, r, nonce, ps[i]),
    decreases ps.len(),
{
    hide(kem_out);
    let d = ps.drop_last(); let o = npk_out(a, key, r, nonce, d); let n = ps.len() - 1;
    assert(ids_ok(d));
    lemma_npk_len(a, key, r, nonce, d); lemma_npk_len(a, key, r, nonce, ps); lemma_kem_len(sp_absorb(a, ps.last().0), ps.last().1, r, nonce, key);
    if i == n { assert(npk_out(a, key, r, nonce, ps).skip(9297 * n).take(9297) =~= npk_rec(a, key, r, nonce, ps.last())); }
    else { lemma_npk_at(a, key, r, nonce, d, i); assert(npk_out(a, key, r, nonce, ps).skip(9297 * i).take(9297) =~= o.skip(9297 * i).take(9297)); }
}
/// the private key fits the public key and decapsulation does not fail
pub open spec fn n_good(a5: SP, sk: Seq<u8>, g: Seq<u8>, r: Seq<u8>, nonce: Seq<u8>, key: Seq<u8>, p: (Seq<u8>, Seq<u8>)) -> bool {
    let rr = kem_r(p.1, r, nonce, key);
    keypair(sk, g, p.1) && rr.len() == 1024 && is_trits(rr) && nofail(sk, g, rr, crate::ntru::n_ae(sp_absorb(a5, p.0), crate::poly::tr9(crate::ntru::n_rh(kem_h(p.1), rr), 1024), key))
}
pub proof fn lemma_first_or(m: Map<Seq<u8>, Seq<u8>>, y: Seq<u8>, c: int, n: int, i: int)
    requires 0 <= i < n, m.dom().contains(kl_id(y, c, i)),
    ensures kl_first(m, y, c, n) < n,
    decreases n,
{ lemma_first(m, y, c, n - 1, n); if i < n - 1 { lemma_first_or(m, y, c, n - 1, i); } }
/// C10: the split of a written keyload
pub proof fn lemma_kl_split(x: Seq<u8>, a1: SP, id: Seq<u8>, nonce: Seq<u8>, r: Seq<u8>, key: Seq<u8>, ps: Seq<(Seq<u8>, Seq<u8>)>, ns: Seq<(Seq<u8>, Seq<u8>)>)
    requires starts(x, kl_out(a1, id, nonce, r, key, ps, ns)), id.len() == 81, nonce.len() == 81, key.len() == 243, ids_ok(ps), ids_ok(ns), ps.len() <= size_max(), ns.len() <= size_max(),
    ensures ({ let (p, q) = (ps.len() as int, ns.len() as int);
        x.take(81) == id && kl_nonce(x) == nonce && kl_split(x, p, q) && starts(kl_y(x, p), psk_out(kl_a3(a1, nonce, p), key, ps)) && starts(kl_z(x, p, q), npk_out(kl_a5(a1, nonce, p, q), key, r, nonce, ns)) }),
{
    let (p, q) = (ps.len() as int, ns.len() as int);
    let o1 = psk_out(kl_a3(a1, nonce, p), key, ps); let o2 = npk_out(kl_a5(a1, nonce, p, q), key, r, nonce, ns);
    lemma_size_len(p); lemma_size_len(q); lemma_psk_len(kl_a3(a1, nonce, p), key, ps); lemma_npk_len(kl_a5(a1, nonce, p, q), key, r, nonce, ns);
    let (c1, c2, c3, c4) = (id + nonce, id + nonce + s_size(p), id + nonce + s_size(p) + o1, id + nonce + s_size(p) + o1 + s_size(q));
    lemma_starts_cat(x, c4, o2); lemma_starts_cat(x, c3, s_size(q)); lemma_starts_cat(x, c2, o1); lemma_starts_cat(x, c1, s_size(p)); lemma_starts_cat(x, id, nonce);
    assert(x.skip(c3.len() as int) =~= kl_y(x, p).skip(324 * p));
    assert(x.skip(c4.len() as int) =~= kl_z(x, p, q));
}
/// C10: every recipient of a written keyload reads the key and ends in the state of the writer
pub proof fn lemma_kl_round(x: Seq<u8>, a1: SP, id: Seq<u8>, nonce: Seq<u8>, r: Seq<u8>, key: Seq<u8>, ps: Seq<(Seq<u8>, Seq<u8>)>, ns: Seq<(Seq<u8>, Seq<u8>)>, m: Map<Seq<u8>, Seq<u8>>, w: Map<Seq<u8>, Seq<u8>>, gs: Seq<Seq<u8>>)
    requires is_trits(x), starts(x, kl_out(a1, id, nonce, r, key, ps, ns)), sp_ok(a1), id.len() == 81, nonce.len() == 81, is_trits(nonce), key.len() == 243, is_trits(key), ids_ok(ps), ids_ok(ns), ps.len() <= size_max(), ns.len() <= size_max(),
        forall|i: int| 0 <= i < ps.len() && m.dom().contains((#[trigger] ps[i]).0) ==> m[ps[i].0] == ps[i].1 && is_trits(ps[i].0) && is_trits(ps[i].1),
        forall|j: int| 0 <= j < ns.len() && w.dom().contains((#[trigger] ns[j]).0) ==> is_trits(ns[j].0) && n_good(kl_a5(a1, nonce, ps.len() as int, ns.len() as int), w[ns[j].0], gs[j], r, nonce, key, ns[j]),
        (exists|i: int| 0 <= i < ps.len() && m.dom().contains((#[trigger] ps[i]).0)) || (exists|j: int| 0 <= j < ns.len() && w.dom().contains((#[trigger] ns[j]).0)),
    ensures ({ let (p, q) = (ps.len() as int, ns.len() as int); kl_is(a1, m, w, x, p, q) && kl_key(a1, m, w, x, p, q) == key && kl_nonce(x) == nonce && x.take(81) == id }),
{
    hide(kem_out); hide(kem_ok); hide(kem_key); hide(n_good);
    let (p, q) = (ps.len() as int, ns.len() as int);
    let (a3, a5) = (kl_a3(a1, nonce, p), kl_a5(a1, nonce, p, q));
    let (y, z) = (kl_y(x, p), kl_z(x, p, q));
    let (o1, o2) = (psk_out(a3, key, ps), npk_out(a5, key, r, nonce, ns));
    lemma_kl_split(x, a1, id, nonce, r, key, ps, ns);
    lemma_size_len(p); lemma_size_len(q); lemma_psk_len(a3, key, ps); lemma_npk_len(a5, key, r, nonce, ns);
    lemma_absorb_ok(a1, nonce); lemma_absorb_ok(sp_absorb(a1, nonce), s_size(p)); lemma_absorb_ok(a3, s_size(q));
    lemma_skip_trits(x, 162 + s_size(p).len() as int); lemma_skip_trits(y, 324 * p + s_size(q).len() as int);
    assert forall|i: int| 0 <= i < p implies kl_id(y, 324, i) == (#[trigger] ps[i]).0 && starts(kl_body(y, 324, i), sp_enc(psk_sp(a3, ps[i].0, ps[i].1), key)) by {
        lemma_psk_at(a3, key, ps, i);
        let e = sp_enc(psk_sp(a3, ps[i].0, ps[i].1), key);
        lemma_outs_len(Op::Encr, psk_sp(a3, ps[i].0, ps[i].1), key);
        let u = y.skip(324 * i);
        assert(u.take(324) =~= o1.skip(324 * i).take(324)) by { assert(y.take(324 * p) == o1); assert forall|t: int| 0 <= t < 324 implies u[t] == o1[324 * i + t] by { assert(y.take(324 * p)[324 * i + t] == y[324 * i + t]); } }
        assert(u.take(81) =~= u.take(324).take(81)); assert(psk_rec(a3, key, ps[i]).take(81) =~= ps[i].0);
        assert(kl_body(y, 324, i).take(243) =~= u.take(324).skip(81)); assert(psk_rec(a3, key, ps[i]).skip(81) =~= e);
    }
    assert forall|j: int| 0 <= j < q implies kl_id(z, 9297, j) == (#[trigger] ns[j]).0 && kl_body(z, 9297, j).take(9216) == kem_out(sp_absorb(a5, ns[j].0), ns[j].1, r, nonce, key) && kl_body(z, 9297, j).len() >= 9216 by {
        lemma_npk_at(a5, key, r, nonce, ns, j);
        let e = kem_out(sp_absorb(a5, ns[j].0), ns[j].1, r, nonce, key);
        lemma_kem_len(sp_absorb(a5, ns[j].0), ns[j].1, r, nonce, key);
        let u = z.skip(9297 * j);
        assert(u.take(9297) =~= o2.skip(9297 * j).take(9297)) by { assert(z.take(9297 * q) == o2); assert forall|t: int| 0 <= t < 9297 implies u[t] == o2[9297 * j + t] by { assert(z.take(9297 * q)[9297 * j + t] == z[9297 * j + t]); } }
        assert(u.take(81) =~= u.take(9297).take(81)); assert(npk_rec(a5, key, r, nonce, ns[j]).take(81) =~= ns[j].0);
        assert(kl_body(z, 9297, j).take(9216) =~= u.take(9297).skip(81)); assert(npk_rec(a5, key, r, nonce, ns[j]).skip(81) =~= e);
    }
    lemma_first(m, y, 324, p, p); lemma_first(w, z, 9297, q, q);
    let i = kl_first(m, y, 324, p);
    if i < p {
        let e = psk_sp(a3, ps[i].0, ps[i].1);
        assert(m.dom().contains(ps[i].0));
        lemma_absorb_ok(a3, ps[i].0); lemma_absorb_ok(sp_absorb(a3, ps[i].0), ps[i].1); lemma_adv_ok(sp_absorb(sp_absorb(a3, ps[i].0), ps[i].1));
        lemma_skip_trits(y, 324 * i + 81);
        lemma_starts(Mode::Mask, e, kl_body(y, 324, i), key);
    } else {
        assert forall|k: int| 0 <= k < p implies !m.dom().contains((#[trigger] ps[k]).0) by { if m.dom().contains(ps[k].0) { lemma_first_or(m, y, 324, p, k); } }
        let k = choose|j: int| 0 <= j < ns.len() && w.dom().contains((#[trigger] ns[j]).0);
        lemma_first_or(w, z, 9297, q, k);
        let j = kl_first(w, z, 9297, q);
        assert(w.dom().contains(ns[j].0));
        lemma_absorb_ok(a5, ns[j].0);
        reveal(kem_out); reveal(kem_ok); reveal(kem_key); reveal(n_good);
        crate::ntru::lemma_key_pair(sp_absorb(a5, ns[j].0), w[ns[j].0], gs[j], ns[j].1, kem_r(ns[j].1, r, nonce, key), key);
    }
}
//@end
//@fn sizeof props=C10
    requires old(psks).rest().len() <= size_max(), old(ntrupks).rest().len() <= size_max(), 324 * old(psks).rest().len() + 9297 * old(ntrupks).rest().len() + 300 <= usize::MAX,
    ensures forall|a: SP, id: Seq<u8>, nonce: Seq<u8>, g: Seq<u8>, key: Seq<u8>, ps: Seq<(Seq<u8>, Seq<u8>)>, ns: Seq<(Seq<u8>, Seq<u8>)>| id.len() == 81 && nonce.len() == 81 && key.len() == 243 && ids_ok(ps) && ids_ok(ns) && ps.len() == old(psks).rest().len() && ns.len() == old(ntrupks).rest().len()
        ==> r == (#[trigger] kl_out(a, id, nonce, g, key, ps, ns)).len(),
//@hint entry
proof {
    lemma_size_len(psks.rest().len() as int); lemma_size_len(ntrupks.rest().len() as int);
    assert forall|x: int, y: int| y == 324 || y == 9297 implies #[trigger] (x * y) == (if y == 324 { 324 * x } else { 9297 * x }) by {}
}
//@hint exit
proof {
    assert forall|a: SP, id: Seq<u8>, nonce: Seq<u8>, g: Seq<u8>, key: Seq<u8>, ps: Seq<(Seq<u8>, Seq<u8>)>, ns: Seq<(Seq<u8>, Seq<u8>)>| id.len() == 81 && nonce.len() == 81 && key.len() == 243 && ids_ok(ps) && ids_ok(ns) && ps.len() == old(psks).rest().len() && ns.len() == old(ntrupks).rest().len()
        implies tail__ == (#[trigger] kl_out(a, id, nonce, g, key, ps, ns)).len() by {
        lemma_psk_len(kl_a3(a, nonce, ps.len() as int), key, ps); lemma_npk_len(kl_a5(a, nonce, ps.len() as int, ns.len() as int), key, g, nonce, ns);
    }
}
//@fn wrap mem=rw foriter=0,1 props=C10,C11 isolate
    requires ({ let g = old(mem)@; let z = set![old(s).b(), old(b).b(), old(slink).b()]; let (p, q) = (old(psks).rest().len(), old(ntrupks).rest().len());
        &&& can_wrap(*old(s), *old(b), g, (162 + s_size(p as int).len() + 324 * p + s_size(q as int).len() + 9297 * q) as int) && p <= size_max() && q <= size_max()
        &&& old(slink).inv(g) && old(slink).b() != old(s).b() && old(slink).b() != old(b).b()
        &&& msgid.ok(g) && msgid.len() == 81 && !z.contains(msgid.b()) && nonce.ok(g) && nonce.n == 81 && !z.contains(nonce.b()) && key.ok(g) && key.n == 243 && !z.contains(key.b())
        &&& prng.inv(g) && !z.contains(prng.secret_key.b()) && items_ok(old(psks).rest(), g, z) && items_ok(old(ntrupks).rest(), g, z) }),
    ensures final(slink).inv(final(mem)@), final(slink).same(*old(slink)), final(slink).sp(final(mem)@) == sp_squeeze(old(slink).sp(old(mem)@), 243),
        ({ let g = old(mem)@; let (a1, n, k, ps, ns) = (sp_join(old(s).sp(g), old(slink).sp(g)), nonce.val(g), key.val(g), items(old(psks).rest(), g), items(old(ntrupks).rest(), g));
            wrote(*old(s), *old(b), g, *final(s), *final(b), final(mem)@, kl_out(a1, msgid.val(g), n, prng.key(g), k, ps, ns), kl_end(a1, n, ps.len() as int, ns.len() as int, k), set![old(s).b(), old(b).b(), old(slink).b()]) }),
//@hint entry
hide(kem_out); hide(kem_end); hide(PublicKey::inv);
let ghost (h0, s0, b0) = (mem@, *s, *b);
let ghost z = set![s.b(), b.b(), slink.b()];
let ghost (psv, nsv) = (psks.rest(), ntrupks.rest());
let ghost (ps, ns) = (items(psv, h0), items(nsv, h0));
let ghost (id, nv, kv, rv) = (msgid.val(h0), nonce.val(h0), key.val(h0), prng.key(h0));
let ghost a1 = sp_join(s.sp(h0), slink.sp(h0));
let ghost lsp = sp_squeeze(slink.sp(h0), 243);
let ghost (p, q) = (ps.len() as int, ns.len() as int);
let ghost a3 = kl_a3(a1, nv, p);
let ghost a5 = kl_a5(a1, nv, p, q);
proof { lemma_size_len(p); lemma_size_len(q); lemma_psk_len(a3, kv, ps); lemma_npk_len(a5, kv, rv, nv, ns); }
//@hint after wrap_join 0
let ghost (h1, s1, b1) = (mem@, *s, *b);
proof {
    lemma_wrote_next(s0, b0, h0, s1, b1, h1, id, a1, z);
    lemma_trits_ext(*nonce, h0, h1, z);
}
//@hint after wrap_absorb 0
let ghost (h2, s2, b2) = (mem@, *s, *b);
proof { lemma_w_field(Mode::Absorb, s0, b0, h0, s1, b1, h1, s2, b2, h2, id, a1, nv, z); }
//@hint let fork 0
let ghost h3 = mem@;
proof { lemma_w_fresh(s0, b0, h0, s2, b2, h2, id + nv, sp_absorb(a1, nv), z, h3, *slink); lemma_wrote_next(s0, b0, h0, s2, b2, h3, id + nv, sp_absorb(a1, nv), z); }
//@hint after wrap_absorb 1
let ghost (h4, s4, b4) = (mem@, *s, *b);
let ghost o3 = id + nv + s_size(p);
let ghost mut i = 0int;
let ghost mut h5 = h4;
let ghost mut b5 = b4;
proof {
    lemma_w_field(Mode::Absorb, s0, b0, h0, s2, b2, h3, s4, b4, h4, id + nv, sp_absorb(a1, nv), s_size(p), z);
    assert(h3.dom().contains(slink.b()));
    lemma_sp_same(*slink, h3, h4);
    assert(ps.take(0) =~= Seq::<(Seq<u8>, Seq<u8>)>::empty());
    assert(o3 + Seq::<u8>::empty() =~= o3);
    assert(psv.skip(0) =~= psv);
}
//@loop 0
    invariant_except_break
        *s == s4, i == psv.len() - psks.rest().len(), 0 <= i <= psv.len(), psks.rest() == psv.skip(i),
        wrote(s0, b0, h0, *s, *b, mem@, o3 + psk_out(a3, kv, ps.take(i)), a3, z), slink.inv(mem@), slink.same(*old(slink)), slink.sp(mem@) == lsp,
    invariant
        can_wrap(s0, b0, h0, 0), z == set![s0.b(), b0.b(), old(slink).b()], s0.b() != b0.b(), old(slink).b() != b0.b(), old(slink).b() != s0.b(),
        nonce.ok(h0), nonce.n == 81, !z.contains(nonce.b()), key.ok(h0), key.n == 243, !z.contains(key.b()), kv == key.val(h0), nv == nonce.val(h0), rv == prng.key(h0), prng.inv(h0), !z.contains(prng.secret_key.b()),
        items_ok(psv, h0, z), ps == items(psv, h0), o3.len() + 324 * psv.len() <= b0.len(),
    ensures
        *s == s4, wrote(s0, b0, h0, *s, *b, mem@, o3 + psk_out(a3, kv, ps), a3, z), slink.inv(mem@), slink.same(*old(slink)), slink.sp(mem@) == lsp,
    decreases psks.rest().len(),
//@hint loop 0 top
proof { if psks.rest().len() == 0 { assert(ps.take(i) =~= ps); } }
//@hint loop 0 start
let ghost (g0, sb, bb) = (mem@, *s, *b);
let ghost ob = o3 + psk_out(a3, kv, ps.take(i));
let ghost it = ps[i];
proof {
    assert(psv.skip(i)[0] == psv[i]); assert(psv.skip(i).skip(1) =~= psv.skip(i + 1));
    assert(ps.take(i + 1).drop_last() =~= ps.take(i)); assert(ps.take(i + 1).last() == it);
    assert(ids_ok(ps.take(i))); lemma_psk_len(a3, kv, ps.take(i));
}
//@hint after fork_at 0
let ghost (g1, f1) = (mem@, fork);
proof {
    lemma_w_fresh(s0, b0, h0, sb, bb, g0, ob, a3, z, g1, *slink);
    lemma_wrote_next(s0, b0, h0, sb, bb, g1, ob, a3, z);
    assert(can_wrap(f1, bb, g1, 324)) by { assert(g0.dom().contains(bb.b())); }
    assert(!h0.dom().contains(f1.b())) by { assert(ext_s(h0, g0, z)); }
    lemma_wrote_none(f1, bb, g1, set![f1.b(), bb.b()]);
    lemma_trits_ext(psv[i].0, h0, g1, z); lemma_trits_ext(psv[i].1, h0, g1, z); lemma_trits_ext(*key, h0, g1, z);
}
//@hint after wrap_absorb 2
let ghost (g2, f2, bb2) = (mem@, fork, *b);
let ghost y = set![f1.b(), bb.b()];
proof {
    lemma_w_field(Mode::Absorb, f1, bb, g1, f1, bb, g1, f2, bb2, g2, Seq::empty(), a3, it.0, y);
    assert(Seq::<u8>::empty() + it.0 =~= it.0);
    lemma_ext_fork(h0, g1, g2, z, f1.b(), bb.b());
    lemma_trits_ext(psv[i].1, h0, g2, z);
    assert(psv[i].1.slice_spec().val(g2) =~= it.1);
}
//@hint after absorb 0
let ghost (g3, f3) = (mem@, fork);
proof { lemma_w_step(f1, bb, g1, f2, bb2, g2, it.0, sp_absorb(a3, it.0), y, f3, g3, sp_absorb(sp_absorb(a3, it.0), it.1)); }
//@hint after commit 0
let ghost (g4, f4) = (mem@, fork);
let ghost e4 = psk_sp(a3, it.0, it.1);
proof {
    lemma_w_step(f1, bb, g1, f3, bb2, g3, it.0, sp_absorb(sp_absorb(a3, it.0), it.1), y, f4, g4, e4);
    lemma_ext_fork(h0, g1, g4, z, f1.b(), bb.b());
    lemma_trits_ext(*key, h0, g4, z);
}
//@hint after wrap_mask 0
proof {
    lemma_w_field(Mode::Mask, f1, bb, g1, f4, bb2, g4, fork, *b, mem@, it.0, e4, kv, y);
    lemma_w_fork(s0, b0, h0, sb, bb, g1, ob, a3, f1, fork, *b, mem@, psk_rec(a3, kv, it), sp_absorb(e4, kv), z, *slink);
    assert(ob + psk_rec(a3, kv, it) =~= o3 + psk_out(a3, kv, ps.take(i + 1)));
    i = i + 1;
}
//@hint loop 0 post
proof { h5 = mem@; b5 = *b; lemma_wrote_next(s0, b0, h0, s4, b5, h5, o3 + psk_out(a3, kv, ps), a3, z); }
//@hint after wrap_absorb 3
let ghost (h6, s6, b6) = (mem@, *s, *b);
let ghost o5 = o3 + psk_out(a3, kv, ps) + s_size(q);
let ghost mut j = 0int;
let ghost mut h7 = h6;
let ghost mut b7 = b6;
proof {
    lemma_w_field(Mode::Absorb, s0, b0, h0, s4, b5, h5, s6, b6, h6, o3 + psk_out(a3, kv, ps), a3, s_size(q), z);
    assert(h5.dom().contains(slink.b()));
    lemma_sp_same(*slink, h5, h6);
    assert(ns.take(0) =~= Seq::<(Seq<u8>, Seq<u8>)>::empty());
    assert(o5 + Seq::<u8>::empty() =~= o5);
    assert(nsv.skip(0) =~= nsv);
}
//@loop 1
    invariant_except_break
        *s == s6, j == nsv.len() - ntrupks.rest().len(), 0 <= j <= nsv.len(), ntrupks.rest() == nsv.skip(j),
        wrote(s0, b0, h0, *s, *b, mem@, o5 + npk_out(a5, kv, rv, nv, ns.take(j)), a5, z), slink.inv(mem@), slink.same(*old(slink)), slink.sp(mem@) == lsp,
    invariant
        can_wrap(s0, b0, h0, 0), z == set![s0.b(), b0.b(), old(slink).b()], s0.b() != b0.b(), old(slink).b() != b0.b(), old(slink).b() != s0.b(),
        nonce.ok(h0), nonce.n == 81, !z.contains(nonce.b()), key.ok(h0), key.n == 243, !z.contains(key.b()), kv == key.val(h0), nv == nonce.val(h0), rv == prng.key(h0), prng.inv(h0), !z.contains(prng.secret_key.b()),
        items_ok(nsv, h0, z), ns == items(nsv, h0), o5.len() + 9297 * nsv.len() <= b0.len(),
    ensures
        *s == s6, wrote(s0, b0, h0, *s, *b, mem@, o5 + npk_out(a5, kv, rv, nv, ns), a5, z), slink.inv(mem@), slink.same(*old(slink)), slink.sp(mem@) == lsp,
    decreases ntrupks.rest().len(),
//@hint loop 1 top
proof { if ntrupks.rest().len() == 0 { assert(ns.take(j) =~= ns); } }
//@hint loop 1 start
let ghost (g0, sb, bb) = (mem@, *s, *b);
let ghost ob = o5 + npk_out(a5, kv, rv, nv, ns.take(j));
let ghost it = ns[j];
proof {
    assert(nsv.skip(j)[0] == nsv[j]); assert(nsv.skip(j).skip(1) =~= nsv.skip(j + 1));
    assert(ns.take(j + 1).drop_last() =~= ns.take(j)); assert(ns.take(j + 1).last() == it);
    assert(ids_ok(ns.take(j))); lemma_npk_len(a5, kv, rv, nv, ns.take(j));
}
//@hint after fork_at 1
let ghost (g1, f1) = (mem@, fork);
proof {
    lemma_w_fresh(s0, b0, h0, sb, bb, g0, ob, a5, z, g1, *slink);
    lemma_wrote_next(s0, b0, h0, sb, bb, g1, ob, a5, z);
    assert(can_wrap(f1, bb, g1, 9297)) by { assert(g0.dom().contains(bb.b())); }
    assert(!h0.dom().contains(f1.b())) by { assert(ext_s(h0, g0, z)); }
    lemma_wrote_none(f1, bb, g1, set![f1.b(), bb.b()]);
    lemma_trits_ext(nsv[j].0, h0, g1, z);
    assert(nsv[j].0.slice_spec().val(g1) =~= it.0);
}
//@hint after wrap_absorb_trits 0
let ghost (g2, f2, bb2) = (mem@, fork, *b);
let ghost y = set![f1.b(), bb.b()];
proof {
    lemma_w_field(Mode::Absorb, f1, bb, g1, f1, bb, g1, f2, bb2, g2, Seq::empty(), a5, it.0, y);
    assert(Seq::<u8>::empty() + it.0 =~= it.0);
    lemma_ext_fork(h0, g1, g2, z, f1.b(), bb.b());
    nsv[j].1.lemma_key(h0, g2, z);
    lemma_trits_ext(*key, h0, g2, z); lemma_trits_ext(*nonce, h0, g2, z); lemma_trits_ext(prng.secret_key, h0, g2, z);
    assert(key.slice_spec().val(g2) =~= kv); assert(nonce.slice_spec().val(g2) =~= nv);
}
//@hint after wrap_ntrukem 0
proof {
    let e = sp_absorb(a5, it.0);
    let c = kem_out(e, it.1, rv, nv, kv);
    lemma_kem_len(e, it.1, rv, nv, kv);
    lemma_wrote_cat(f1, bb, g1, f2, bb2, g2, fork, *b, mem@, it.0, e, c, kem_end(e, it.1, rv, nv, kv), y);
    lemma_w_fork(s0, b0, h0, sb, bb, g1, ob, a5, f1, fork, *b, mem@, npk_rec(a5, kv, rv, nv, it), kem_end(e, it.1, rv, nv, kv), z, *slink);
    assert(ob + npk_rec(a5, kv, rv, nv, it) =~= o5 + npk_out(a5, kv, rv, nv, ns.take(j + 1)));
    j = j + 1;
}
//@hint loop 1 post
proof { h7 = mem@; b7 = *b; let o7 = o5 + npk_out(a5, kv, rv, nv, ns);
    lemma_wrote_next(s0, b0, h0, s6, b7, h7, o7, a5, z);
    lemma_trits_ext(*key, h0, h7, z);
    assert(key.slice_spec().val(h7) =~= kv);
}
//@hint exit
proof {
    lemma_ext_s2(h7, mem@, s0.b(), s0.b(), z); lemma_ext_s(h0, h7, mem@, z);
    assert(h7.dom().contains(b0.b()) && h7.dom().contains(slink.b())) by { assert(h0.dom().contains(b0.b())); }
    lemma_sp_same(*slink, h7, mem@);
}
//@fn unwrap mem=rw meth:get=key_get props=C09,C10,C11 isolate rlimit=60
    requires can_unwrap(*old(s), *old(b), old(mem)@), keys_ok(*psks, old(mem)@, old(s).b()), keys_ok(*ntrusks, old(mem)@, old(s).b()),
    ensures kept(*old(s), *old(b), old(mem)@, *final(s), *final(b), final(mem)@),
        ({ let g = old(mem)@; let x = old(b).val(g); let (a1, m, w) = (sp_join(old(s).sp(g), lookup_link.state(x.take(81))), keyv(*psks, g), keyv(*ntrusks, g));
            &&& r.is_ok() == (linked::<(), Dyn0>(lookup_link, x) && kl_some(a1, m, w, x))
            &&& r.is_ok() ==> kl_read(*old(s), *old(b), g, *final(s), *final(b), final(mem)@, a1, m, w) }),
//@hint entry
hide(kept); hide(kem_ok); hide(kem_dsp); hide(kem_key); hide(keys_ok); hide(keyv); hide(s_size); hide(is_size);
let ghost (h0, s0, b0) = (mem@, *s, *b);
let ghost x = b.val(h0);
let ghost a1 = sp_join(s.sp(h0), lookup_link.state(x.take(81)));
let ghost (m, w) = (keyv(*psks, h0), keyv(*ntrusks, h0));
let ghost mut gp = 0int;
let ghost mut gq = 0int;
let ghost (mut h5, mut h9) = (h0, h0);
let ghost (mut b5, mut b9) = (b0, b0);
let ghost (mut gs4, mut gs7) = (s0, s0);
let ghost a2 = sp_absorb(a1, kl_nonce(x));
//@hint after unwrap_join 0
let ghost (h1, s1, b1) = (mem@, *s, *b);
proof { lemma_read_next(s0, b0, h0, s1, b1, h1, 81, a1); }
//@hint after unwrap_absorb_n 0
let ghost (h2, s2, b2) = (mem@, *s, *b);
proof { lemma_r_field(Mode::Absorb, s0, b0, h0, s1, b1, h1, s2, b2, h2, 81, a1, 81); }
//@hint let fork 0
let ghost h3 = mem@;
proof { lemma_r_fresh(s0, b0, h0, s2, b2, h2, 162, a2, h3); lemma_read_next(s0, b0, h0, s2, b2, h3, 162, a2);
    assert(!h0.dom().contains(key.b())) by { reveal(kept); }
    assert(input(Mode::Absorb, s2, b2, h3) =~= x.skip(162));
    assert forall|p: int, q: int| #[trigger] kl_is(a1, m, w, x, p, q) implies is_size(input(Mode::Absorb, s2, b2, h3), p) by {}
}
//@hint let psks_count 0
let ghost (h4, s4, b4) = (mem@, *s, *b);
let ghost p = psks_count.0 as int;
let ghost nB = 162 + s_size(p).len() as int;
let ghost a3 = kl_a3(a1, kl_nonce(x), p);
let ghost y = kl_y(x, p);
proof {
    lemma_r_field(Mode::Absorb, s0, b0, h0, s2, b2, h3, s4, b4, h4, 162, a2, s_size(p).len() as int);
    assert(x.skip(162).take(s_size(p).len() as int) == s_size(p)) by { reveal(is_size); }
    lemma_kl_p(x, p);
}
//@hint let pskid 0
let ghost hp = mem@;
proof {
    assert(h4.dom().contains(key.b())) by { assert(h3.dom().contains(key.b())); }
    lemma_r_fresh(s0, b0, h0, s4, b4, h4, nB, a3, hp);
    lemma_sp_ok(s4, hp);
    assert(!h0.dom().contains(pskid.b())) by { reveal(kept); }
    assert(key.b() != pskid.b()); assert(key.inv(hp)) by { reveal(kept); assert(h3.dom().contains(key.b())); assert(h4[key.b()] == h3[key.b()]); assert(hp[key.b()] == h4[key.b()]); } assert(pskid.inv(hp));
    assert forall|p2: int, q2: int| #[trigger] kl_is(a1, m, w, x, p2, q2) implies p2 == p && y.len() >= 324 * p by { assert(kl_split(x, p2, q2)); }
}
//@loop 0
    invariant
        h0 == old(mem)@, s0 == *old(s), b0 == *old(b), a1 == sp_join(s0.sp(h0), lookup_link.state(x.take(81))), can_unwrap(s0, b0, h0), x == b0.val(h0), is_trits(x), *s == s4, s.b() == s0.b(), read(s0, b0, h0, *s, *b, mem@, nB + 324 * n, a3), y == x.skip(nB), x.len() >= nB, 0 <= nB,
        keys_ok(*psks, h0, s0.b()), keys_ok(*ntrusks, h0, s0.b()), m == keyv(*psks, h0), w == keyv(*ntrusks, h0), sp_ok(a3), n <= psks_count.0, s.inv(mem@),
        key.inv(mem@), key.n == 243, !h0.dom().contains(key.b()), pskid.inv(mem@), pskid.n == 81, !h0.dom().contains(pskid.b()), key.b() != pskid.b(),
        key_found ==> n > 0 && kl_first(m, y, 324, n as int) == n - 1 && key.ok(mem@) && key.val(mem@) == kl_pkey(a3, m, y, n - 1), !key_found ==> kl_first(m, y, 324, n as int) == n,
        forall|p2: int, q2: int| #[trigger] kl_is(a1, m, w, x, p2, q2) ==> p2 == psks_count.0 && y.len() >= 324 * psks_count.0,
    decreases psks_count.0 - n,
//@hint loop 0 start
let ghost (g0, bb, nn) = (mem@, *b, n as int);
proof { lemma_read_next(s0, b0, h0, *s, bb, g0, nB + 324 * nn, a3); }
//@hint after fork_at 0
let ghost (g1, f1) = (mem@, fork);
let ghost kid = kl_id(y, 324, nn);
proof {
    lemma_r_fresh(s0, b0, h0, *s, bb, g0, nB + 324 * nn, a3, g1);
    lemma_read_next(s0, b0, h0, *s, bb, g1, nB + 324 * nn, a3);
    assert(!h0.dom().contains(f1.b())) by { reveal(kept); assert(extends_but(h0, g0, s0.b())); }
    assert(g0.dom().contains(bb.b()) && g0.dom().contains(pskid.b()) && g0.dom().contains(key.b()) && g0.dom().contains(s.b()));
    assert(can_unwrap(f1, bb, g1));
    assert(y.skip(324 * nn) =~= x.skip(nB + 324 * nn));
    assert forall|f: Spongos, c: TritSliceT, hh: Heap| #[trigger] keptx(f1, bb, g1, f, c, hh, pskid.b()) implies kept(s0, b0, h0, *s, c, hh) by { lemma_r_fork(s0, b0, h0, *s, bb, g1, nB + 324 * nn, a3, f1, f, c, hh, pskid.b()); }
}
//@hint after unwrap_absorb 0
let ghost (g2, f2, bb2) = (mem@, fork, *b);
proof {
    lemma_r_fork(s0, b0, h0, *s, bb, g1, nB + 324 * nn, a3, f1, f2, bb2, g2, pskid.b());
    assert(read(s0, b0, h0, *s, bb2, g2, nB + 324 * nn + 81, a3));
    lemma_read_next(s0, b0, h0, *s, bb2, g2, nB + 324 * nn + 81, a3);
    lemma_skip_trits(x, nB + 324 * nn);
    assert(g1.dom().contains(pskid.b()) && g1.dom().contains(key.b()) && g1.dom().contains(s.b()));
    assert(g2.dom().contains(pskid.b()) && g2.dom().contains(s.b()));
    assert(pskid.val(g2) =~= kid);
    assert(pskid.ok(g2)) by { assert forall|t: int| 0 <= t < 81 implies #[trigger] pskid.val(g2)[t] < 3 by { assert(x.skip(nB + 324 * nn)[t] < 3); } }
    assert(key.inv(g2));
    assert(y.skip(324 * nn + 81) =~= x.skip(nB + 324 * nn + 81));
    assert(f2.sp(g2) == sp_absorb(a3, kid));
    lemma_absorb_ok(a3, kid);
    lemma_keys(*psks, h0, g2, s0.b()) ;
    reveal(keys_ok); reveal(keyv);
    assert(can_unwrap(f2, bb2, g2));
}
//@hint before absorb 0
proof { assert(psk.slice_spec().val(g2) =~= psk.val(g2)); assert(keyv(*psks, g2)[kid] == psk.kv(g2)); assert(m[kid] == psk.val(g2)); }
//@hint after commit 0
let ghost (g4, f4) = (mem@, fork);
proof {
    assert(keptx(f2, bb2, g2, f4, bb2, g4, pskid.b()));
    lemma_r_fork(s0, b0, h0, *s, bb2, g2, nB + 324 * nn + 81, a3, f2, f4, bb2, g4, pskid.b());
    assert(read(s0, b0, h0, *s, bb2, g4, nB + 324 * nn + 81 + 0, a3));
    lemma_read_next(s0, b0, h0, *s, bb2, g4, nB + 324 * nn + 81, a3);
    assert(f4.sp(g4) == psk_sp(a3, kid, m[kid]));
    lemma_skip_trits(x, nB + 324 * nn + 81);
    lemma_sp_ok(f4, g4);
    lemma_rd_ok(Mode::Mask, f4.sp(g4), x.skip(nB + 324 * nn + 81));
    assert forall|f: Spongos, c: TritSliceT, hh: Heap| #[trigger] keptx(f4, bb2, g4, f, c, hh, key.b()) implies kept(s0, b0, h0, *s, c, hh) by { lemma_r_fork(s0, b0, h0, *s, bb2, g4, nB + 324 * nn + 81, a3, f4, f, c, hh, key.b()); }
}
//@hint after unwrap_mask 0
proof {
    lemma_r_fork(s0, b0, h0, *s, bb2, g4, nB + 324 * nn + 81, a3, f4, fork, *b, mem@, key.b());
    assert(read(s0, b0, h0, *s, *b, mem@, nB + 324 * nn + 81 + 243, a3));
    let v = rd_out(Mode::Mask, f4.sp(g4), x.skip(nB + 324 * nn + 81));
    assert(g4.dom().contains(pskid.b()) && g4.dom().contains(key.b()));
    assert(key.val(mem@) =~= v.take(243));
    lemma_skip_trits(v, 243);
}
//@hint after advance 0
proof { lemma_r_skip(s0, b0, h0, *s, bb2, mem@, nB + 324 * nn + 81, a3, 243); }
//@hint let sizeof_keyloadpsk 0
let ghost (h6, b6) = (mem@, *b);
proof {
    lemma_read_next(s0, b0, h0, *s, b6, h6, nB + 324 * n, a3);
    lemma_first(m, y, 324, n as int, p);
    assert forall|t: int, u: int| u == 324 implies #[trigger] (t * u) == 324 * t by { }
    assert forall|t: int, u: int| u == 324 && t >= 0 implies #[trigger] (t / u) == t / 324 by { }
}
//@hint after advance 1
proof {
    lemma_r_skip(s0, b0, h0, *s, b6, h6, nB + 324 * n, a3, 324 * (p - n));
    lemma_read_next(s0, b0, h0, *s, *b, mem@, nB + 324 * p, a3);
    assert(y.skip(324 * p) =~= x.skip(nB + 324 * p));
    assert(input(Mode::Absorb, *s, *b, mem@) =~= y.skip(324 * p));
    assert forall|p2: int, q2: int| #[trigger] kl_is(a1, m, w, x, p2, q2) implies is_size(input(Mode::Absorb, *s, *b, mem@), q2) by {}
    gp = p; gs4 = s4; h5 = mem@; b5 = *b;
}
//@hint let ntrus_count 0
let ghost p = gp;
let ghost nB = 162 + s_size(p).len() as int;
let ghost a3 = kl_a3(a1, kl_nonce(x), p);
let ghost y = kl_y(x, p);
let ghost i = kl_first(m, y, 324, p);
let ghost (h7, s7, b7) = (mem@, *s, *b);
let ghost q = ntrus_count.0 as int;
let ghost nC = nB + 324 * p + s_size(q).len() as int;
let ghost a5 = kl_a5(a1, kl_nonce(x), p, q);
let ghost z = kl_z(x, p, q);
proof {
    lemma_r_field(Mode::Absorb, s0, b0, h0, gs4, b5, h5, s7, b7, h7, nB + 324 * p, a3, s_size(q).len() as int);
    assert(y.skip(324 * p).take(s_size(q).len() as int) == s_size(q)) by { reveal(is_size); }
    lemma_kl_q(x, p, q);
    assert(z =~= x.skip(nC));
    assert(h5.dom().contains(key.b())); assert(h7.dom().contains(key.b()));
}
//@hint let ntrupkid 0
proof {
    lemma_r_fresh(s0, b0, h0, s7, b7, h7, nC, a5, mem@);
    lemma_sp_ok(s7, mem@);
    assert(!h0.dom().contains(ntrupkid.b())) by { reveal(kept); }
}
//@loop 1
    invariant
        h0 == old(mem)@, s0 == *old(s), b0 == *old(b), a1 == sp_join(s0.sp(h0), lookup_link.state(x.take(81))), can_unwrap(s0, b0, h0), x == b0.val(h0), is_trits(x), *s == s7, s.b() == s0.b(), read(s0, b0, h0, *s, *b, mem@, nC + 9297 * n, a5), z == x.skip(nC), x.len() >= nC, 0 <= nC,
        keys_ok(*psks, h0, s0.b()), keys_ok(*ntrusks, h0, s0.b()), m == keyv(*psks, h0), w == keyv(*ntrusks, h0), sp_ok(a5), n <= ntrus_count.0, s.inv(mem@),
        key.inv(mem@), key.n == 243, !h0.dom().contains(key.b()), ntrupkid.inv(mem@), ntrupkid.n == 81, !h0.dom().contains(ntrupkid.b()), key.b() != ntrupkid.b(),
        key_found ==> key.ok(mem@), !key_found ==> i >= p && kl_first(w, z, 9297, n as int) == n, 
        key_found ==> (if i < p { n == 0 && key.val(mem@) == kl_pkey(a3, m, y, i) } else { n > 0 && kl_first(w, z, 9297, n as int) == n - 1 && kl_nok(a5, w, z, n - 1) && key.val(mem@) == kl_nkey(a5, w, z, n - 1) }),
        forall|p2: int, q2: int| #[trigger] kl_is(a1, m, w, x, p2, q2) ==> p2 == p && q2 == ntrus_count.0 && z.len() >= 9297 * ntrus_count.0 && (i < p || (kl_first(w, z, 9297, q2) < q2 && kl_nok(a5, w, z, kl_first(w, z, 9297, q2)))),
    decreases ntrus_count.0 - n,
//@hint loop 1 start
let ghost (g0, bb, nn) = (mem@, *b, n as int);
proof { lemma_read_next(s0, b0, h0, *s, bb, g0, nC + 9297 * nn, a5); }
//@hint after fork_at 1
let ghost (g1, f1) = (mem@, fork);
let ghost kid = kl_id(z, 9297, nn);
proof {
    lemma_r_fresh(s0, b0, h0, *s, bb, g0, nC + 9297 * nn, a5, g1);
    lemma_read_next(s0, b0, h0, *s, bb, g1, nC + 9297 * nn, a5);
    assert(!h0.dom().contains(f1.b())) by { reveal(kept); assert(extends_but(h0, g0, s0.b())); }
    assert(g0.dom().contains(bb.b()) && g0.dom().contains(ntrupkid.b()) && g0.dom().contains(key.b()) && g0.dom().contains(s.b()));
    assert(can_unwrap(f1, bb, g1));
    assert(z.skip(9297 * nn) =~= x.skip(nC + 9297 * nn));
    assert forall|f: Spongos, c: TritSliceT, hh: Heap| #[trigger] keptx(f1, bb, g1, f, c, hh, ntrupkid.b()) implies kept(s0, b0, h0, *s, c, hh) by { lemma_r_fork(s0, b0, h0, *s, bb, g1, nC + 9297 * nn, a5, f1, f, c, hh, ntrupkid.b()); }
}
//@hint after unwrap_absorb 1
let ghost (g2, f2, bb2) = (mem@, fork, *b);
proof {
    lemma_r_fork(s0, b0, h0, *s, bb, g1, nC + 9297 * nn, a5, f1, f2, bb2, g2, ntrupkid.b());
    assert(read(s0, b0, h0, *s, bb2, g2, nC + 9297 * nn + 81, a5));
    lemma_read_next(s0, b0, h0, *s, bb2, g2, nC + 9297 * nn + 81, a5);
    lemma_skip_trits(x, nC + 9297 * nn);
    assert(g1.dom().contains(ntrupkid.b()) && g1.dom().contains(key.b()) && g1.dom().contains(s.b()));
    assert(g2.dom().contains(ntrupkid.b()) && g2.dom().contains(s.b()));
    assert(ntrupkid.val(g2) =~= kid);
    assert(ntrupkid.ok(g2)) by { assert forall|t: int| 0 <= t < 81 implies #[trigger] ntrupkid.val(g2)[t] < 3 by { assert(x.skip(nC + 9297 * nn)[t] < 3); } }
    assert(key.inv(g2));
    assert(z.skip(9297 * nn + 81) =~= x.skip(nC + 9297 * nn + 81));
    assert(f2.sp(g2) == sp_absorb(a5, kid));
    lemma_absorb_ok(a5, kid);
    lemma_keys(*ntrusks, h0, g2, s0.b()) ;
    reveal(keys_ok); reveal(keyv);
    assert(can_unwrap(f2, bb2, g2));
}
//@hint before unwrap_ntrukem 0
proof {
    lemma_first(w, z, 9297, nn + 1, ntrus_count.0 as int);
    assert forall|f: Spongos, c: TritSliceT, hh: Heap| #[trigger] keptx(f2, bb2, g2, f, c, hh, key.b()) implies kept(s0, b0, h0, *s, c, hh) by { lemma_r_fork(s0, b0, h0, *s, bb2, g2, nC + 9297 * nn + 81, a5, f2, f, c, hh, key.b()); }
}
//@hint after unwrap_ntrukem 0
proof {
    lemma_r_fork(s0, b0, h0, *s, bb2, g2, nC + 9297 * nn + 81, a5, f2, fork, *b, mem@, key.b());
    assert(read(s0, b0, h0, *s, *b, mem@, nC + 9297 * nn + 81 + 9216, a5));
    let v = kem_key(f2.sp(g2), w[kid], x.skip(nC + 9297 * nn + 81));
    assert(g2.dom().contains(ntrupkid.b()) && g2.dom().contains(key.b()));
    lemma_skip_trits(x, nC + 9297 * nn + 81);
    lemma_sp_ok(f2, g2);
    lemma_kem_key(f2.sp(g2), w[kid], x.skip(nC + 9297 * nn + 81));
    assert(key.val(mem@) =~= v);
}
//@hint after advance 2
proof { lemma_r_skip(s0, b0, h0, *s, bb2, mem@, nC + 9297 * nn + 81, a5, 9216); }
//@hint let sizeof_keyloadntru 0
let ghost (h8, b8) = (mem@, *b);
proof {
    lemma_read_next(s0, b0, h0, *s, b8, h8, nC + 9297 * n, a5);
    lemma_first(w, z, 9297, n as int, q);
    assert forall|t: int, u: int| u == 9297 implies #[trigger] (t * u) == 9297 * t by { }
    assert forall|t: int, u: int| u == 9297 && t >= 0 implies #[trigger] (t / u) == t / 9297 by { }
}
//@hint after advance 3
proof {
    lemma_r_skip(s0, b0, h0, *s, b8, h8, nC + 9297 * n, a5, 9297 * (q - n));
    gq = q; gs7 = s7; h9 = mem@; b9 = *b;
    lemma_read_next(s0, b0, h0, *s, *b, mem@, nC + 9297 * q, a5);
    if key_found { assert(kl_is(a1, m, w, x, p, q)); assert(key.val(mem@) == kl_key(a1, m, w, x, p, q)); }
}
//@hint before absorb 1
let ghost (p, q) = (gp, gq);
let ghost a5 = kl_a5(a1, kl_nonce(x), p, q);
let ghost kv = kl_key(a1, m, w, x, p, q);
proof { assert(key.slice_spec().val(mem@) =~= kv); }
//@hint after absorb 1
let ghost (h10, s10) = (mem@, *s);
proof {
    reveal(kept);
    assert(h9.dom().contains(b9.b()));
    lemma_val_same(b9, h9, h10);
    assert(kept(gs7, b9, h9, s10, b9, h10));
    assert(read(gs7, b9, h9, s10, b9, h10, 0, sp_absorb(a5, kv)));
    lemma_read_cat(s0, b0, h0, gs7, b9, h9, s10, b9, h10, kl_len(p, q), a5, 0, sp_absorb(a5, kv));
    lemma_read_next(s0, b0, h0, s10, b9, h10, kl_len(p, q), sp_absorb(a5, kv));
}
//@hint exit
proof {
    reveal(kept);
    let e = kl_end(a1, kl_nonce(x), p, q, kv);
    assert(h10.dom().contains(b9.b()));
    lemma_val_same(b9, h10, mem@);
    assert(kept(s10, b9, h10, *s, b9, mem@));
    assert(read(s10, b9, h10, *s, b9, mem@, 0, e));
    lemma_read_cat(s0, b0, h0, s10, b9, h10, *s, b9, mem@, kl_len(p, q), sp_absorb(a5, kv), 0, e);
    assert(kl_is(a1, m, w, x, p, q));
    assert(linked::<(), Dyn0>(lookup_link, x));
    assert(kl_end(a1, kl_nonce(x), p, q, kl_key(a1, m, w, x, p, q)) == e);
    assert(read(s0, b0, h0, *s, *b, mem@, kl_len(p, q), e));
    assert(kl_some(a1, m, w, x));
    assert(kl_read(s0, b0, h0, *s, *b, mem@, a1, m, w));
}

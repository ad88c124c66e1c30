//@module wots
//@file wots.rs
//@deps mem trits::util trits::slice trits::trits spongos prng
//@mem none
//@struct PrivateKey
//@struct PublicKey
//@map prng::PRNG crate::prng::PRNG
//@prelude
use crate::mem::*;
use crate::trits::defs::*;
use crate::trits::util::*;
use crate::trits::b1t1::*;
use crate::trits::slice::*;
use crate::trits::trits::*;
use crate::spongos::*;
use crate::prng::*;

/// one hash chain step, n times
pub open spec fn chain(x: Seq<u8>, n: int) -> Seq<u8> decreases n { if n <= 0 { x } else { sp_hash(chain(x, n - 1), x.len() as int) } }
/// i-th digit of the hash
pub open spec fn w_dig(hash: Seq<u8>, i: int) -> int { ival(hash.subrange(3 * i, 3 * i + 3)) }
pub open spec fn w_sum(hash: Seq<u8>, n: int) -> int decreases n { if n <= 0 { 0 } else { w_sum(hash, n - 1) + w_dig(hash, n - 1) } }
/// digit closest to zero, base 27
pub open spec fn m27(t: int) -> int { (t + 13) % 27 - 13 }
pub open spec fn q27(t: int) -> int { (t + 13) / 27 }
/// checksum left after taking k digits from it
pub open spec fn w_chk(hash: Seq<u8>, k: int) -> int decreases k { if k <= 0 { -w_sum(hash, 78) } else { q27(w_chk(hash, k - 1)) } }
/// chain position (offset by 13) of the i-th part
pub open spec fn w_pos(hash: Seq<u8>, i: int) -> int { if i < 78 { w_dig(hash, i) } else { m27(w_chk(hash, i - 78)) } }
pub open spec fn part(s: Seq<u8>, i: int) -> Seq<u8> { s.subrange(162 * i, 162 * i + 162) }
pub open spec fn w_sig(sk: Seq<u8>, hash: Seq<u8>, n: int) -> Seq<u8> decreases n { if n <= 0 { Seq::empty() } else { w_sig(sk, hash, n - 1) + chain(part(sk, n - 1), 13 + w_pos(hash, n - 1)) } }
/// what is hashed to the recovered public key
pub open spec fn w_rec(sig: Seq<u8>, hash: Seq<u8>, n: int) -> Seq<u8> decreases n { if n <= 0 { Seq::empty() } else { w_rec(sig, hash, n - 1) + chain(part(sig, n - 1), 13 - w_pos(hash, n - 1)) } }
pub open spec fn w_ends(sk: Seq<u8>, n: int) -> Seq<u8> decreases n { if n <= 0 { Seq::empty() } else { w_ends(sk, n - 1) + chain(part(sk, n - 1), 26) } }
pub open spec fn w_pk(sk: Seq<u8>) -> Seq<u8> { sp_hash(w_ends(sk, 81), 243) }
pub open spec fn w_recover(sig: Seq<u8>, hash: Seq<u8>) -> Seq<u8> { sp_hash(w_rec(sig, hash, 81), 243) }

pub proof fn lemma_hash_ok(x: Seq<u8>, n: int)
    requires is_trits(x), n >= 0,
    ensures sp_hash(x, n).len() == n, is_trits(sp_hash(x, n)),
{
    assert(sp_ok(sp0()));
    lemma_run_ok(Op::Absorb, sp0(), x);
    let a = sp_absorb(sp0(), x);
    lemma_adv_ok(a);
    lemma_run_ok(Op::Squeeze, sp_commit(a), zeros(n));
}
pub proof fn lemma_chain(x: Seq<u8>, n: int)
    requires is_trits(x),
    ensures chain(x, n).len() == x.len(), is_trits(chain(x, n)),
    decreases n,
{ if n > 0 { lemma_chain(x, n - 1); lemma_hash_ok(chain(x, n - 1), x.len() as int); } }
pub proof fn lemma_chain_add(x: Seq<u8>, n: int, m: int)
    requires n >= 0, m >= 0, is_trits(x),
    ensures chain(chain(x, n), m) == chain(x, n + m),
    decreases m,
{ lemma_chain(x, n); if m > 0 { lemma_chain_add(x, n, m - 1); } }
pub proof fn lemma_sub(s: Seq<u8>, a: int, b: int)
    requires is_trits(s), 0 <= a <= b <= s.len(),
    ensures is_trits(s.subrange(a, b)), s.subrange(a, b).len() == b - a,
{ assert forall|i: int| 0 <= i < b - a implies #[trigger] s.subrange(a, b)[i] < 3 by { assert(s[a + i] < 3); } }
pub proof fn lemma_dig(hash: Seq<u8>, i: int)
    requires is_trits(hash), hash.len() == 234, 0 <= i < 78,
    ensures -13 <= w_dig(hash, i) <= 13,
{
    lemma_sub(hash, 3 * i, 3 * i + 3);
    lemma_bt_ival(hash.subrange(3 * i, 3 * i + 3));
    lemma_pow3_vals();
}
pub proof fn lemma_sum(hash: Seq<u8>, n: int)
    requires is_trits(hash), hash.len() == 234, 0 <= n <= 78,
    ensures -13 * n <= w_sum(hash, n) <= 13 * n,
    decreases n,
{ if n > 0 { lemma_sum(hash, n - 1); lemma_dig(hash, n - 1); } }
pub proof fn lemma_pos(hash: Seq<u8>, i: int)
    requires is_trits(hash), hash.len() == 234, 0 <= i < 81,
    ensures -13 <= w_pos(hash, i) <= 13,
{ if i < 78 { lemma_dig(hash, i); } }
/// the three checksum digits are the checksum
proof fn lemma_chk(hash: Seq<u8>)
    requires is_trits(hash), hash.len() == 234,
    ensures w_pos(hash, 78) + 27 * w_pos(hash, 79) + 729 * w_pos(hash, 80) == -w_sum(hash, 78), w_chk(hash, 3) == 0,
        w_chk(hash, 0) == -w_sum(hash, 78), w_chk(hash, 1) == q27(w_chk(hash, 0)), w_chk(hash, 2) == q27(w_chk(hash, 1)), w_chk(hash, 3) == q27(w_chk(hash, 2)),
{
    lemma_sum(hash, 78);
    reveal_with_fuel(w_chk, 4);
    let t = -w_sum(hash, 78);
    assert(t == m27(t) + 27 * q27(t));
    let u = q27(t);
    assert(u == m27(u) + 27 * q27(u));
    let v = q27(u);
    assert(v == m27(v) + 27 * q27(v));
}
pub proof fn lemma_chk_range(hash: Seq<u8>, k: int)
    requires is_trits(hash), hash.len() == 234, 0 <= k <= 3,
    ensures -1014 <= w_chk(hash, k) <= 1014,
{ lemma_chk(hash); lemma_sum(hash, 78); }
pub proof fn lemma_sig_len(sk: Seq<u8>, hash: Seq<u8>, n: int)
    requires is_trits(sk), sk.len() == 13122, 0 <= n <= 81,
    ensures w_sig(sk, hash, n).len() == 162 * n, is_trits(w_sig(sk, hash, n)),
    decreases n,
{ if n > 0 { lemma_sig_len(sk, hash, n - 1); lemma_sub(sk, 162 * (n - 1), 162 * (n - 1) + 162); lemma_chain(part(sk, n - 1), 13 + w_pos(hash, n - 1)); } }
pub proof fn lemma_rec_ok(sig: Seq<u8>, hash: Seq<u8>, n: int)
    requires is_trits(sig), sig.len() == 13122, 0 <= n <= 81,
    ensures is_trits(w_rec(sig, hash, n)),
    decreases n,
{ if n > 0 { lemma_rec_ok(sig, hash, n - 1); lemma_sub(sig, 162 * (n - 1), 162 * (n - 1) + 162); lemma_chain(part(sig, n - 1), 13 - w_pos(hash, n - 1)); } }
pub proof fn lemma_ends_ok(sk: Seq<u8>, n: int)
    requires is_trits(sk), sk.len() == 13122, 0 <= n <= 81,
    ensures is_trits(w_ends(sk, n)),
    decreases n,
{ if n > 0 { lemma_ends_ok(sk, n - 1); lemma_sub(sk, 162 * (n - 1), 162 * (n - 1) + 162); lemma_chain(part(sk, n - 1), 26); } }
proof fn lemma_sig_part(sk: Seq<u8>, hash: Seq<u8>, n: int, i: int)
    requires is_trits(sk), sk.len() == 13122, 0 <= i < n <= 81,
    ensures part(w_sig(sk, hash, n), i) == chain(part(sk, i), 13 + w_pos(hash, i)),
    decreases n,
{
    lemma_sig_len(sk, hash, n - 1);
    lemma_sub(sk, 162 * (n - 1), 162 * (n - 1) + 162);
    lemma_chain(part(sk, n - 1), 13 + w_pos(hash, n - 1));
    if i == n - 1 { assert(part(w_sig(sk, hash, n), i) =~= chain(part(sk, i), 13 + w_pos(hash, i))); } else {
        lemma_sig_part(sk, hash, n - 1, i);
        assert(part(w_sig(sk, hash, n), i) =~= part(w_sig(sk, hash, n - 1), i));
    }
}
proof fn lemma_rec_sig(sk: Seq<u8>, hash: Seq<u8>, n: int)
    requires is_trits(sk), sk.len() == 13122, is_trits(hash), hash.len() == 234, 0 <= n <= 81,
    ensures w_rec(w_sig(sk, hash, 81), hash, n) == w_ends(sk, n),
    decreases n,
{
    if n > 0 {
        lemma_rec_sig(sk, hash, n - 1);
        lemma_sig_part(sk, hash, 81, n - 1);
        lemma_pos(hash, n - 1);
        lemma_sub(sk, 162 * (n - 1), 162 * (n - 1) + 162);
        lemma_chain_add(part(sk, n - 1), 13 + w_pos(hash, n - 1), 13 - w_pos(hash, n - 1));
    }
}
/// C12: recovering from a signature yields the signer's public key
pub proof fn lemma_recover_sign(sk: Seq<u8>, hash: Seq<u8>)
    requires is_trits(sk), sk.len() == 13122, is_trits(hash), hash.len() == 234,
    ensures w_recover(w_sig(sk, hash, 81), hash) == w_pk(sk),
{ lemma_rec_sig(sk, hash, 81); }
proof fn lemma_sum_mono(h: Seq<u8>, g: Seq<u8>, n: int)
    requires 0 <= n <= 78, forall|i: int| 0 <= i < n ==> #[trigger] w_dig(h, i) <= w_dig(g, i),
    ensures w_sum(h, n) <= w_sum(g, n), w_sum(h, n) == w_sum(g, n) ==> forall|i: int| 0 <= i < n ==> #[trigger] w_dig(h, i) == w_dig(g, i),
    decreases n,
{ if n > 0 { lemma_sum_mono(h, g, n - 1); assert(w_dig(h, n - 1) <= w_dig(g, n - 1)); } }
/// C12: positions of two different hashes are never ordered component-wise
pub proof fn lemma_incomparable(h: Seq<u8>, g: Seq<u8>)
    requires is_trits(h), h.len() == 234, is_trits(g), g.len() == 234, forall|i: int| 0 <= i < 81 ==> #[trigger] w_pos(h, i) <= w_pos(g, i),
    ensures h == g,
{
    lemma_chk(h);
    lemma_chk(g);
    assert forall|i: int| 0 <= i < 78 implies #[trigger] w_dig(h, i) <= w_dig(g, i) by { assert(w_pos(h, i) <= w_pos(g, i)); }
    lemma_sum_mono(h, g, 78);
    assert(w_pos(h, 78) <= w_pos(g, 78) && w_pos(h, 79) <= w_pos(g, 79) && w_pos(h, 80) <= w_pos(g, 80));
    assert(w_sum(h, 78) == w_sum(g, 78));
    assert forall|j: int| 0 <= j < 234 implies h[j] == g[j] by {
        let i = j / 3;
        assert(w_dig(h, i) == w_dig(g, i));
        let (a, b) = (h.subrange(3 * i, 3 * i + 3), g.subrange(3 * i, 3 * i + 3));
        lemma_sub(h, 3 * i, 3 * i + 3);
        lemma_sub(g, 3 * i, 3 * i + 3);
        lemma_bt_ival(a);
        lemma_bt_ival(b);
        assert(a[j - 3 * i] == b[j - 3 * i]);
    }
    assert(h =~= g);
}
impl PrivateKey {
    pub open spec fn ok(self, h: Heap) -> bool { self.sk.ok(h) && self.sk.n == 13122 }
}
impl PublicKey {
    pub open spec fn ok(self, h: Heap) -> bool { self.pk.ok(h) && self.pk.n == 243 }
}
pub proof fn lemma_vals_ok(xs: Seq<TritSliceT>, h: Heap, n: int)
    requires 0 <= n <= xs.len(), forall|i: int| 0 <= i < xs.len() ==> (#[trigger] xs[i]).ok(h),
    ensures is_trits(cat(vals(xs, h).take(n))), n == xs.len() ==> is_trits(cat(vals(xs, h))),
    decreases n,
{
    if n > 0 {
        lemma_vals_ok(xs, h, n - 1);
        assert(vals(xs, h).take(n).drop_last() =~= vals(xs, h).take(n - 1));
        assert(xs[n - 1].ok(h));
    }
    if n == xs.len() { assert(vals(xs, h).take(n) =~= vals(xs, h)); }
}
pub proof fn lemma_pk_ok(sk: Seq<u8>)
    requires is_trits(sk), sk.len() == 13122,
    ensures w_pk(sk).len() == 243, is_trits(w_pk(sk)),
{ lemma_ends_ok(sk, 81); lemma_hash_ok(w_ends(sk, 81), 243); }
pub proof fn lemma_recover_ok(sig: Seq<u8>, hash: Seq<u8>)
    requires is_trits(sig), sig.len() == 13122,
    ensures w_recover(sig, hash).len() == 243, is_trits(w_recover(sig, hash)),
{ lemma_rec_ok(sig, hash, 81); lemma_hash_ok(w_rec(sig, hash, 81), 243); }
//@end
//@fn rehash_data mem=rw props=C12
    requires h.ok(old(mem)@),
    ensures extends_but(old(mem)@, final(mem)@, h.b()), final(mem)@[h.b()] == h.put(old(mem)@, chain(h.val(old(mem)@), n as int))[h.b()], h.ok(final(mem)@), h.val(final(mem)@) == chain(h.val(old(mem)@), n as int),
//@hint entry
let ghost g = mem@;
let ghost v = h.val(g);
proof { lemma_wr_rd(g, h.b(), h.o(), h.len()); }
//@loop 0
    invariant it0 <= end0, end0 == n, g == old(mem)@, v == h.val(g), h.inv(g), is_trits(v), h.inv(mem@), extends_but(g, mem@, h.b()), mem@[h.b()] == h.put(g, chain(v, it0 as int))[h.b()],
    decreases end0 - it0,
//@hint loop 0 start
let ghost c = chain(v, it0 - 1);
proof { lemma_chain(v, it0 - 1); lemma_rd_wr(g, h.b(), h.o(), c); assert(h.val(mem@) =~= c); lemma_chain(v, it0 as int); }
//@hint loop 0 end
proof { lemma_wr_over(g, h.b(), h.o(), c, chain(v, it0 as int)); assert(mem@[h.b()] =~= h.put(g, chain(v, it0 as int))[h.b()]); }
//@hint loop 0 post
proof { lemma_chain(v, n as int); lemma_rd_wr(g, h.b(), h.o(), chain(v, n as int)); assert(h.val(mem@) =~= chain(v, n as int)); }
//@fn gen_sk mem=rw props=C12
    requires prng.inv(old(mem)@), forall|i: int| 0 <= i < nonces.len() ==> (#[trigger] nonces@[i]).ok(old(mem)@), sk.inv(old(mem)@), sk.len() == 13122,
    ensures extends_but(old(mem)@, final(mem)@, sk.b()),
        final(mem)@[sk.b()] == sk.put(old(mem)@, prng_out(prng.key(old(mem)@), cat(vals(nonces@, old(mem)@)), 13122))[sk.b()],
//@fn sign mem=rw props=C12
    requires sk.ok(old(mem)@), sk.len() == 13122, hash.ok(old(mem)@), hash.len() == 234, sig.inv(old(mem)@), sig.len() == 13122, sig.b() != sk.b(), sig.b() != hash.b(),
    ensures extends_but(old(mem)@, final(mem)@, sig.b()), final(mem)@[sig.b()] == sig.put(old(mem)@, w_sig(sk.val(old(mem)@), hash.val(old(mem)@), 81))[sig.b()],
//@hint entry
let ghost g = mem@;
let ghost vk = sk.val(g);
let ghost vh = hash.val(g);
proof { lemma_wr_empty(g, sig.b(), sig.o()); }
//@loop 0
    invariant it0 <= end0, end0 == 78, g == old(mem)@, vk == sk.val(g), vh == hash.val(g), sk.ok(g), hash.ok(g), sig.inv(g), sk.len() == 13122, hash.len() == 234, sig.len() == 13122, sig.b() != sk.b(), sig.b() != hash.b(),
        sk_m == sk.s_drop(162 * it0), hash_m == hash.s_drop(3 * it0), sig_m == sig.s_drop(162 * it0), t as int == w_sum(vh, it0 as int),
        sig_part.inv(mem@), sig_part.n == 162, !g.dom().contains(sig_part.b()), extends_but(g, mem@, sig.b()), mem@[sig.b()] == sig.put(g, w_sig(vk, vh, it0 as int))[sig.b()],
    decreases end0 - it0,
//@hint loop 0 start
let ghost k = it0 - 1;
let ghost m0 = mem@;
proof { lemma_dig(vh, k); lemma_sum(vh, k); assert(hash_m.val(m0) =~= vh.skip(3 * k)); assert(vh.skip(3 * k).take(3) =~= vh.subrange(3 * k, 3 * k + 3)); lemma_sub(vk, 162 * k, 162 * k + 162); lemma_sig_len(vk, vh, k); lemma_chain(part(vk, k), 13 + w_pos(vh, k)); }
//@hint before rehash_data 0
let ghost m1 = mem@;
proof { assert(sig_part.slice_mut_spec().val(mem@) =~= part(vk, k)); assert(g.dom().contains(sig.b()) && g.dom().contains(sk.b()) && g.dom().contains(hash.b())); assert(m1.dom().contains(sig.b())); }
//@hint after rehash_data 0
proof { assert(mem@[sig.b()] == m0[sig.b()]); assert(sig_part.slice_spec().val(mem@) =~= chain(part(vk, k), 13 + w_pos(vh, k))); assert forall|c: int| #[trigger] g.dom().contains(c) implies mem@.dom().contains(c) && mem@[c] == m0[c] by { assert(m1.dom().contains(c)); } }
//@hint loop 0 end
proof { lemma_wr_adj(g, sig.b(), sig.o(), w_sig(vk, vh, k), chain(part(vk, k), 13 + w_pos(vh, k))); assert(mem@[sig.b()] =~= sig.put(g, w_sig(vk, vh, it0 as int))[sig.b()]); }
//@hint loop 0 post
proof { lemma_sum(vh, 78); }
//@loop 1
    invariant it1 <= end1, end1 == 3, g == old(mem)@, vk == sk.val(g), vh == hash.val(g), sk.ok(g), hash.ok(g), sig.inv(g), sk.len() == 13122, hash.len() == 234, sig.len() == 13122, sig.b() != sk.b(), sig.b() != hash.b(),
        sk_m == sk.s_drop(162 * (78 + it1)), sig_m == sig.s_drop(162 * (78 + it1)), t as int == w_chk(vh, it1 as int),
        sig_part.inv(mem@), sig_part.n == 162, !g.dom().contains(sig_part.b()), extends_but(g, mem@, sig.b()), mem@[sig.b()] == sig.put(g, w_sig(vk, vh, 78 + it1))[sig.b()],
    decreases end1 - it1,
//@hint loop 1 start
let ghost k = 78 + it1 - 1;
let ghost m0 = mem@;
proof { lemma_chk_range(vh, it1 - 1); lemma_chk_range(vh, it1 as int); lemma_sub(vk, 162 * k, 162 * k + 162); lemma_sig_len(vk, vh, k); lemma_chain(part(vk, k), 13 + w_pos(vh, k)); }
//@hint before rehash_data 1
let ghost m1 = mem@;
proof { assert(sig_part.slice_mut_spec().val(mem@) =~= part(vk, k)); assert(g.dom().contains(sig.b()) && g.dom().contains(sk.b()) && g.dom().contains(hash.b())); assert(m1.dom().contains(sig.b())); }
//@hint after rehash_data 1
proof { assert(mem@[sig.b()] == m0[sig.b()]); assert(sig_part.slice_spec().val(mem@) =~= chain(part(vk, k), 13 + w_pos(vh, k))); assert forall|c: int| #[trigger] g.dom().contains(c) implies mem@.dom().contains(c) && mem@[c] == m0[c] by { assert(m1.dom().contains(c)); } }
//@hint loop 1 end
proof { lemma_wr_adj(g, sig.b(), sig.o(), w_sig(vk, vh, k), chain(part(vk, k), 13 + w_pos(vh, k))); assert(mem@[sig.b()] =~= sig.put(g, w_sig(vk, vh, k + 1))[sig.b()]); }
//@fn calc_pk mem=rw props=C12
    requires sk.ok(old(mem)@), sk.len() == 13122, pk.inv(old(mem)@), pk.len() == 243,
    ensures extends_but(old(mem)@, final(mem)@, pk.b()), final(mem)@[pk.b()] == pk.put(old(mem)@, w_pk(sk.val(old(mem)@)))[pk.b()],
//@hint entry
let ghost g = mem@;
let ghost vk = sk.val(g);
//@hint loop 0 pre
proof { assert(sp_absorb(sp0(), Seq::<u8>::empty()) == sp0()); }
//@loop 0
    invariant it0 <= end0, end0 == 81, g == old(mem)@, vk == sk.val(g), sk.ok(g), sk.len() == 13122, sk_m == sk.s_drop(162 * it0), pk.inv(g), pk.len() == 243,
        sk_part.inv(mem@), sk_part.n == 162, !g.dom().contains(sk_part.b()), extends(g, mem@), s.inv(mem@), !g.dom().contains(s.b()), s.b() != sk_part.b(),
        s.sp(mem@) == sp_absorb(sp0(), w_ends(vk, it0 as int)),
    decreases end0 - it0,
//@hint loop 0 start
let ghost k = it0 - 1;
let ghost m0 = mem@;
proof { lemma_sub(vk, 162 * k, 162 * k + 162); lemma_chain(part(vk, k), 26); lemma_cat(Op::Absorb, sp0(), w_ends(vk, k), chain(part(vk, k), 26)); }
//@hint before rehash_data 0
let ghost m1 = mem@;
proof { assert(sk_part.slice_mut_spec().val(mem@) =~= part(vk, k)); assert(m1.dom().contains(s.b())); assert(m1[s.b()] == m0[s.b()]); }
//@hint after rehash_data 0
proof { assert(mem@[s.b()] == m0[s.b()]); assert(s.sp(mem@) == s.sp(m0)); assert forall|c: int| #[trigger] g.dom().contains(c) implies mem@.dom().contains(c) && mem@[c] == g[c] by { assert(m1.dom().contains(c)); } }
//@hint before absorb 0
proof { assert(sk_part.slice_spec().val(mem@) =~= chain(part(vk, k), 26)); assert(s.inv(mem@)); assert(s.sp(mem@) == sp_absorb(sp0(), w_ends(vk, k))); }
//@hint before squeeze 0
let ghost h2 = mem@;
//@hint exit
proof { let v = w_pk(vk); assert(pk.put(h2, v)[pk.b()] =~= pk.put(g, v)[pk.b()]); assert forall|c: int| #[trigger] g.dom().contains(c) implies mem@.dom().contains(c) && (c != pk.b() ==> mem@[c] == g[c]) by { assert(h2.dom().contains(c)); } }
//@fn recover mem=rw props=C12 isolate
    requires sig.ok(old(mem)@), sig.len() == 13122, hash.ok(old(mem)@), hash.len() == 234, pk.inv(old(mem)@), pk.len() == 243,
    ensures extends_but(old(mem)@, final(mem)@, pk.b()), final(mem)@[pk.b()] == pk.put(old(mem)@, w_recover(sig.val(old(mem)@), hash.val(old(mem)@)))[pk.b()],
//@hint entry
let ghost g = mem@;
let ghost vs = sig.val(g);
let ghost vh = hash.val(g);
//@hint loop 0 pre
proof { assert(sp_absorb(sp0(), Seq::<u8>::empty()) == sp0()); }
//@loop 0
    invariant it0 <= end0, end0 == 78, g == old(mem)@, vs == sig.val(g), vh == hash.val(g), sig.ok(g), hash.ok(g), hash.len() == 234, sig.len() == 13122, pk.inv(g), pk.len() == 243,
        hash_m == hash.s_drop(3 * it0), sig_m == sig.s_drop(162 * it0), t as int == w_sum(vh, it0 as int),
        sig_part.inv(mem@), sig_part.n == 162, !g.dom().contains(sig_part.b()), extends(g, mem@), s.inv(mem@), !g.dom().contains(s.b()), s.b() != sig_part.b(),
        s.sp(mem@) == sp_absorb(sp0(), w_rec(vs, vh, it0 as int)),
    decreases end0 - it0,
//@hint loop 0 start
let ghost k = it0 - 1;
let ghost m0 = mem@;
proof { lemma_dig(vh, k); lemma_sum(vh, k); assert(hash_m.val(mem@) =~= vh.skip(3 * k)); assert(vh.skip(3 * k).take(3) =~= vh.subrange(3 * k, 3 * k + 3)); lemma_sub(vs, 162 * k, 162 * k + 162); lemma_chain(part(vs, k), 13 - w_pos(vh, k)); lemma_cat(Op::Absorb, sp0(), w_rec(vs, vh, k), chain(part(vs, k), 13 - w_pos(vh, k))); }
//@hint before get3 0
proof { assert(hash_m.val(mem@) =~= vh.skip(3 * k)); }
//@hint before rehash_data 0
let ghost m1 = mem@;
proof { assert(sig_part.slice_mut_spec().val(mem@) =~= part(vs, k)); assert(m1.dom().contains(s.b())); assert(m1[s.b()] == m0[s.b()]); }
//@hint after rehash_data 0
proof { assert(mem@[s.b()] == m0[s.b()]); assert(s.sp(mem@) == s.sp(m0)); assert forall|c: int| #[trigger] g.dom().contains(c) implies mem@.dom().contains(c) && mem@[c] == g[c] by { assert(m1.dom().contains(c)); } }
//@hint before absorb 0
proof { assert(sig_part.slice_spec().val(mem@) =~= chain(part(vs, k), 13 - w_pos(vh, k))); assert(s.inv(mem@)); assert(s.sp(mem@) == sp_absorb(sp0(), w_rec(vs, vh, k))); }
//@hint loop 0 post
proof { lemma_sum(vh, 78); }
//@loop 1
    invariant it1 <= end1, end1 == 3, g == old(mem)@, vs == sig.val(g), vh == hash.val(g), sig.ok(g), hash.ok(g), hash.len() == 234, sig.len() == 13122, pk.inv(g), pk.len() == 243,
        sig_m == sig.s_drop(162 * (78 + it1)), t as int == w_chk(vh, it1 as int),
        sig_part.inv(mem@), sig_part.n == 162, !g.dom().contains(sig_part.b()), extends(g, mem@), s.inv(mem@), !g.dom().contains(s.b()), s.b() != sig_part.b(),
        s.sp(mem@) == sp_absorb(sp0(), w_rec(vs, vh, 78 + it1)),
    decreases end1 - it1,
//@hint loop 1 start
let ghost k = 78 + it1 - 1;
let ghost m0 = mem@;
proof { lemma_chk_range(vh, it1 - 1); lemma_chk_range(vh, it1 as int); lemma_sub(vs, 162 * k, 162 * k + 162); lemma_chain(part(vs, k), 13 - w_pos(vh, k)); lemma_cat(Op::Absorb, sp0(), w_rec(vs, vh, k), chain(part(vs, k), 13 - w_pos(vh, k))); }
//@hint before rehash_data 1
let ghost m1 = mem@;
proof { assert(sig_part.slice_mut_spec().val(mem@) =~= part(vs, k)); assert(m1.dom().contains(s.b())); assert(m1[s.b()] == m0[s.b()]); }
//@hint after rehash_data 1
proof { assert(mem@[s.b()] == m0[s.b()]); assert(s.sp(mem@) == s.sp(m0)); assert forall|c: int| #[trigger] g.dom().contains(c) implies mem@.dom().contains(c) && mem@[c] == g[c] by { assert(m1.dom().contains(c)); } }
//@hint before absorb 1
proof { assert(sig_part.slice_spec().val(mem@) =~= chain(part(vs, k), 13 - w_pos(vh, k))); assert(s.inv(mem@)); assert(s.sp(mem@) == sp_absorb(sp0(), w_rec(vs, vh, k))); }
//@hint before squeeze 0
let ghost h2 = mem@;
//@hint exit
proof { let v = w_recover(vs, vh); assert(pk.put(h2, v)[pk.b()] =~= pk.put(g, v)[pk.b()]); assert forall|c: int| #[trigger] g.dom().contains(c) implies mem@.dom().contains(c) && (c != pk.b() ==> mem@[c] == g[c]) by { assert(h2.dom().contains(c)); } }
//@fn PrivateKey::gen mem=rw props=C12
    requires prng.inv(old(mem)@), forall|i: int| 0 <= i < nonces.len() ==> (#[trigger] nonces@[i]).ok(old(mem)@),
    ensures extends(old(mem)@, final(mem)@), !old(mem)@.dom().contains(r.sk.b()), r.ok(final(mem)@),
        r.sk.val(final(mem)@) == prng_out(prng.key(old(mem)@), cat(vals(nonces@, old(mem)@)), 13122),
//@hint before gen_sk 0
let ghost h1 = mem@;
proof { assert(vals(nonces@, h1) =~= vals(nonces@, old(mem)@)); assert(prng.key(h1) == prng.key(old(mem)@)); }
//@hint exit
proof {
    let v = prng_out(prng.key(old(mem)@), cat(vals(nonces@, old(mem)@)), 13122);
    lemma_ext_fresh(old(mem)@, h1, mem@, tail__.sk.b());
    lemma_vals_ok(nonces@, old(mem)@, nonces.len() as int);
    lemma_hash_ok(prng.key(old(mem)@) + cat(vals(nonces@, old(mem)@)), 13122);
    assert(h1.dom().contains(tail__.sk.b()));
    lemma_put_val(tail__.sk.slice_mut_spec(), h1, mem@, v);
}
//@fn PrivateKey::calc_pk mem=rw props=C12
    requires self.ok(old(mem)@), pk.inv(old(mem)@), pk.len() == 243,
    ensures extends_but(old(mem)@, final(mem)@, pk.b()), final(mem)@[pk.b()] == pk.put(old(mem)@, w_pk(self.sk.val(old(mem)@)))[pk.b()],
//@hint entry
proof { assert(self.sk.slice_spec().val(mem@) =~= self.sk.val(mem@)); }
//@fn PrivateKey::sign mem=rw props=C12
    requires self.ok(old(mem)@), hash.ok(old(mem)@), hash.len() == 234, sig.inv(old(mem)@), sig.len() == 13122, sig.b() != self.sk.b(), sig.b() != hash.b(),
    ensures extends_but(old(mem)@, final(mem)@, sig.b()), final(mem)@[sig.b()] == sig.put(old(mem)@, w_sig(self.sk.val(old(mem)@), hash.val(old(mem)@), 81))[sig.b()],
//@hint entry
proof { assert(self.sk.slice_spec().val(mem@) =~= self.sk.val(mem@)); }
//@fn PublicKey::gen mem=rw props=C12
    requires sk.ok(old(mem)@),
    ensures extends(old(mem)@, final(mem)@), !old(mem)@.dom().contains(r.pk.b()), r.ok(final(mem)@), r.pk.val(final(mem)@) == w_pk(sk.sk.val(old(mem)@)),
//@hint before calc_pk 0
let ghost h1 = mem@;
//@hint exit
proof {
    let v = w_pk(sk.sk.val(old(mem)@));
    lemma_ext_fresh(old(mem)@, h1, mem@, tail__.pk.b());
    lemma_pk_ok(sk.sk.val(old(mem)@));
    assert(h1.dom().contains(tail__.pk.b()));
    lemma_put_val(tail__.pk.slice_mut_spec(), h1, mem@, v);
}
//@fn PublicKey::verify mem=rw cmp:trits=self.pk props=C12
    requires self.ok(old(mem)@), hash.ok(old(mem)@), hash.len() == 234, sig.ok(old(mem)@), sig.len() == 13122,
    ensures extends(old(mem)@, final(mem)@), r == (self.pk.val(old(mem)@) == w_recover(sig.val(old(mem)@), hash.val(old(mem)@))),
//@hint before recover 0
let ghost h1 = mem@;
proof { assert(hash.val(h1) =~= hash.val(old(mem)@)); assert(sig.val(h1) =~= sig.val(old(mem)@)); }
//@hint after recover 0
proof {
    let v = w_recover(sig.val(old(mem)@), hash.val(old(mem)@));
    lemma_ext_fresh(old(mem)@, h1, mem@, pk.b());
    lemma_recover_ok(sig.val(old(mem)@), hash.val(old(mem)@));
    assert(h1.dom().contains(pk.b()));
    lemma_put_val(pk.slice_mut_spec(), h1, mem@, v);
}

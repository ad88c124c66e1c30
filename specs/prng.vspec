//@module prng
//@file prng.rs
//@deps mem trits::slice trits::trits spongos
//@mem none
//@struct PRNG
//@prelude
use crate::mem::*;
use crate::trits::defs::*;
use crate::trits::util::*;
use crate::trits::b1t1::*;
use crate::trits::slice::*;
use crate::trits::trits::*;
use crate::spongos::*;

impl PRNG {
    pub open spec fn inv(self, h: Heap) -> bool { self.secret_key.ok(h) && self.secret_key.n == 243 }
    pub open spec fn key(self, h: Heap) -> Seq<u8> { self.secret_key.val(h) }
}
/// the generated randomness
pub open spec fn prng_out(key: Seq<u8>, nonce: Seq<u8>, n: int) -> Seq<u8> { sp_hash(key + nonce, n) }
pub open spec fn tot(rs: Seq<TritSliceMutT>, k: int) -> int decreases k { if k <= 0 { 0 } else { tot(rs, k - 1) + rs[k - 1].len() } }
/// write consecutive squeezed pieces to the first k buffers
pub open spec fn sqfold(h: Heap, a: SP, rs: Seq<TritSliceMutT>, k: int) -> Heap decreases k {
    if k <= 0 { h } else { rs[k - 1].put(sqfold(h, a, rs, k - 1), sp_sqout(sp_squeeze(a, tot(rs, k - 1)), rs[k - 1].len())) }
}
/// C20: the pieces are consecutive parts of one output
pub proof fn lemma_pieces(a: SP, rs: Seq<TritSliceMutT>, k: int)
    requires 0 <= k <= rs.len(), forall|i: int| 0 <= i < rs.len() ==> (#[trigger] rs[i]).len() >= 0,
    ensures tot(rs, k) >= 0, cat(Seq::new(k as nat, |i: int| sp_sqout(sp_squeeze(a, tot(rs, i)), rs[i].len()))) == sp_sqout(a, tot(rs, k)),
    decreases k,
{
    let f = |i: int| sp_sqout(sp_squeeze(a, tot(rs, i)), rs[i].len());
    let s = Seq::new(k as nat, f);
    if k == 0 { assert(zeros(0) =~= Seq::<u8>::empty()); } else {
        lemma_pieces(a, rs, k - 1);
        assert(rs[k - 1].len() >= 0);
        assert(s.drop_last() =~= Seq::new((k - 1) as nat, f));
        lemma_squeeze_cat(a, tot(rs, k - 1), rs[k - 1].len());
    }
}
/// C20: a shorter request is a prefix of a longer one
pub proof fn lemma_prefix(key: Seq<u8>, nonce: Seq<u8>, n: int, m: int)
    requires 0 <= n <= m,
    ensures prng_out(key, nonce, n) == prng_out(key, nonce, m).take(n),
{
    let a = sp_commit(sp_absorb(sp0(), key + nonce));
    lemma_squeeze_cat(a, n, m - n);
    lemma_outs_len(Op::Squeeze, a, zeros(n));
    assert(zeros(n).len() == n);
    assert(prng_out(key, nonce, n) =~= prng_out(key, nonce, m).take(n));
}
pub proof fn lemma_frame_fold(h: Heap, a: SP, rs: Seq<TritSliceMutT>, k: int, b: int, c: int)
    requires 0 <= k <= rs.len(), forall|i: int| 0 <= i < rs.len() ==> (#[trigger] rs[i]).inv(h),
    ensures sqfold(h, a, rs, k).dom() == h.dom(), forall|i: int| 0 <= i < rs.len() ==> (#[trigger] rs[i]).inv(sqfold(h, a, rs, k)),
    decreases k,
{
    if k > 0 {
        lemma_frame_fold(h, a, rs, k - 1, b, c);
        let g = sqfold(h, a, rs, k - 1);
        assert(rs[k - 1].inv(h) && rs[k - 1].inv(g));
        assert(sqfold(h, a, rs, k).dom() =~= h.dom());
        assert forall|i: int| 0 <= i < rs.len() implies (#[trigger] rs[i]).inv(sqfold(h, a, rs, k)) by { assert(rs[i].inv(g)); }
    }
}
//@end
//@fn PRNG.Clone::clone mem=rw props=C13,C20
    requires self.inv(old(mem)@),
    ensures extends(old(mem)@, final(mem)@), r.inv(final(mem)@), r.key(final(mem)@) == self.key(old(mem)@),
//@fn PRNG::init mem=rw props=C20
    requires secret_key.inv(old(mem)@), secret_key.len() == 243,
    ensures r.secret_key.fresh(old(mem)@), r.secret_key.n == 243, final(mem)@ == old(mem)@.insert(r.secret_key.b(), secret_key.val(old(mem)@)),
//@fn PRNG::init_trits mem=rw props=C20
    requires secret_key.inv(old(mem)@), secret_key.n == 243,
    ensures r.secret_key.fresh(old(mem)@), r.secret_key.n == 243, final(mem)@ == old(mem)@.insert(r.secret_key.b(), secret_key.val(old(mem)@)),
//@hint entry
proof { assert(secret_key.slice_spec().val(mem@) =~= secret_key.val(mem@)); }
//@fn PRNG::gen_with_s mem=rw props=C20
    requires self.inv(old(mem)@), old(s).inv(old(mem)@), nonce.ok(old(mem)@), rnd.inv(old(mem)@), self.secret_key.b() != old(s).b(), nonce.b() != old(s).b(), rnd.b() != old(s).b(),
    ensures final(s).inv(final(mem)@), final(s).same(*old(s)),
        ({ let a = sp_commit(sp_absorb(old(s).sp(old(mem)@), self.key(old(mem)@) + nonce.val(old(mem)@)));
        final(mem)@ == rnd.put(old(mem)@, sp_sqout(a, rnd.len())).insert(old(s).b(), final(mem)@[old(s).b()]) && final(s).sp(final(mem)@) == sp_squeeze(a, rnd.len()) }),
//@hint entry
let ghost h = mem@;
proof { assert(self.secret_key.slice_spec().val(h) =~= self.key(h)); }
//@hint before absorb 1
let ghost h1 = mem@;
proof { assert(nonce.val(h1) =~= nonce.val(h)); }
//@hint before squeeze 0
let ghost h2 = mem@;
proof { lemma_cat(Op::Absorb, old(s).sp(h), self.key(h), nonce.val(h)); }
//@hint exit
proof {
    let v = sp_sqout(sp_commit(sp_absorb(old(s).sp(h), self.key(h) + nonce.val(h))), rnd.len());
    assert(rnd.put(h2, v).insert(s.b(), mem@[s.b()]) =~= rnd.put(h, v).insert(s.b(), mem@[s.b()]));
}
//@fn PRNG::gen mem=rw props=C20
    requires self.inv(old(mem)@), nonce.ok(old(mem)@), rnd.inv(old(mem)@),
    ensures extends_but(old(mem)@, final(mem)@, rnd.b()),
        final(mem)@[rnd.b()] == rnd.put(old(mem)@, prng_out(self.key(old(mem)@), nonce.val(old(mem)@), rnd.len()))[rnd.b()],
//@hint before gen_with_s 0
proof { assert(nonce.val(mem@) =~= nonce.val(old(mem)@)); }
//@fn PRNG::gen_trits mem=rw props=C20
    requires self.inv(old(mem)@), nonce.ok(old(mem)@), n <= MAXSZ,
    ensures extends(old(mem)@, final(mem)@), !old(mem)@.dom().contains(r.b()), r.inv(final(mem)@), r.n == n,
        r.val(final(mem)@) == prng_out(self.key(old(mem)@), nonce.val(old(mem)@), n as int),
//@hint before gen 0
let ghost h1 = mem@;
proof { assert(nonce.slice_spec().val(mem@) =~= nonce.val(old(mem)@)); assert(self.key(mem@) == self.key(old(mem)@)); }
//@hint exit
proof {
    let a = sp_commit(sp_absorb(sp0(), self.key(old(mem)@) + nonce.val(old(mem)@)));
    lemma_outs_len(Op::Squeeze, a, zeros(n as int));
    let b = tail__.b();
    let out = prng_out(self.key(old(mem)@), nonce.val(old(mem)@), n as int);
    assert(h1.dom().contains(b) && h1[b].len() == n);
    assert(nonce.val(h1) == nonce.val(old(mem)@));
    assert(out == sp_sqout(a, n as int));
    assert(tail__.slice_mut_spec().len() == n);
    assert(tail__.slice_mut_spec().put(h1, out)[b] =~= out);
    assert(mem@.dom().contains(b));
    assert(mem@[b] == out);
    assert forall|c: int| #[trigger] old(mem)@.dom().contains(c) implies mem@.dom().contains(c) && mem@[c] == old(mem)@[c] by { assert(c != b); assert(h1.dom().contains(c)); }
}
//@fn PRNG::gens mem=rw props=C20
    requires self.inv(old(mem)@), forall|i: int| 0 <= i < nonces.len() ==> (#[trigger] nonces@[i]).ok(old(mem)@), rnd.inv(old(mem)@),
    ensures extends_but(old(mem)@, final(mem)@, rnd.b()),
        final(mem)@[rnd.b()] == rnd.put(old(mem)@, prng_out(self.key(old(mem)@), cat(vals(nonces@, old(mem)@)), rnd.len()))[rnd.b()],
//@hint let s 0
let ghost h = old(mem)@;
let ghost vs = vals(nonces@, h);
let ghost key = self.key(h);
proof { assert(self.secret_key.slice_spec().val(mem@) =~= key); assert(vs.take(0) =~= Seq::<Seq<u8>>::empty()); assert(key + cat(vs.take(0)) =~= key); }
//@loop 0
    invariant seq0@ == nonces@, end0 == nonces.len(), it0 <= end0, h == old(mem)@, vs == vals(nonces@, h), s.inv(mem@), !h.dom().contains(s.b()), extends(h, mem@),
        forall|i: int| 0 <= i < nonces.len() ==> (#[trigger] nonces@[i]).ok(h), rnd.inv(h), key == self.key(h),
        s.sp(mem@) == sp_absorb(sp0(), key + cat(vs.take(it0 as int))),
    decreases end0 - it0,
//@hint loop 0 start
proof {
    let k = it0 - 1;
    assert(nonces@[k].ok(h));
    assert(nonces@[k].val(mem@) =~= vs[k]);
    assert(vs.take(it0 as int).drop_last() =~= vs.take(k));
    assert(vs.take(it0 as int).last() == vs[k]);
    lemma_cat(Op::Absorb, sp0(), key + cat(vs.take(k)), vs[k]);
    assert((key + cat(vs.take(k))) + vs[k] =~= key + cat(vs.take(it0 as int)));
}
//@hint loop 0 post
proof { assert(vs.take(nonces.len() as int) =~= vs); }
//@hint before squeeze 0
let ghost h2 = mem@;
//@hint exit
proof {
    let v = prng_out(key, cat(vs), rnd.len());
    assert(rnd.put(h2, v)[rnd.b()] =~= rnd.put(h, v)[rnd.b()]);
}
//@fn PRNG::genss mem=rw props=C20
    requires self.inv(old(mem)@), forall|i: int| 0 <= i < nonces.len() ==> (#[trigger] nonces@[i]).ok(old(mem)@), forall|i: int| 0 <= i < rnds.len() ==> (#[trigger] rnds@[i]).inv(old(mem)@),
    ensures ({ let a = sp_commit(sp_absorb(sp0(), self.key(old(mem)@) + cat(vals(nonces@, old(mem)@)))); extends(sqfold(old(mem)@, a, rnds@, rnds.len() as int), final(mem)@) }),
//@hint let s 0
let ghost h = old(mem)@;
let ghost vs = vals(nonces@, h);
let ghost key = self.key(h);
proof { assert(self.secret_key.slice_spec().val(mem@) =~= key); assert(vs.take(0) =~= Seq::<Seq<u8>>::empty()); assert(key + cat(vs.take(0)) =~= key); }
//@loop 0
    invariant seq0@ == nonces@, end0 == nonces.len(), it0 <= end0, h == old(mem)@, vs == vals(nonces@, h), s.inv(mem@), !h.dom().contains(s.b()), extends(h, mem@),
        forall|i: int| 0 <= i < nonces.len() ==> (#[trigger] nonces@[i]).ok(h), key == self.key(h),
        s.sp(mem@) == sp_absorb(sp0(), key + cat(vs.take(it0 as int))),
    decreases end0 - it0,
//@hint loop 0 start
proof {
    let k = it0 - 1;
    assert(nonces@[k].ok(h));
    assert(nonces@[k].val(mem@) =~= vs[k]);
    assert(vs.take(it0 as int).drop_last() =~= vs.take(k));
    assert(vs.take(it0 as int).last() == vs[k]);
    lemma_cat(Op::Absorb, sp0(), key + cat(vs.take(k)), vs[k]);
    assert((key + cat(vs.take(k))) + vs[k] =~= key + cat(vs.take(it0 as int)));
}
//@hint loop 0 post
proof { assert(vs.take(nonces.len() as int) =~= vs); }
//@hint after commit 0
let ghost a = s.sp(mem@);
proof { assert(zeros(0) =~= Seq::<u8>::empty()); }
//@loop 1
    invariant seq1@ == rnds@, end1 == rnds.len(), it1 <= end1, h == old(mem)@, s.inv(mem@), !h.dom().contains(s.b()),
        forall|i: int| 0 <= i < rnds.len() ==> (#[trigger] rnds@[i]).inv(h),
        extends(sqfold(h, a, rnds@, it1 as int), mem@), tot(rnds@, it1 as int) >= 0,
        s.sp(mem@) == sp_squeeze(a, tot(rnds@, it1 as int)),
    decreases end1 - it1,
//@hint loop 1 start
let ghost m0 = mem@;
let ghost s0 = s;
proof {
    let k = it1 - 1;
    assert(rnds@[k].inv(h));
    lemma_frame_fold(h, a, rnds@, k, 0, 0);
    assert(rnds@[k].inv(sqfold(h, a, rnds@, k)));
    lemma_squeeze_cat(a, tot(rnds@, k), rnds@[k].len());
}
//@hint loop 1 end
proof {
    let k = it1 - 1;
    let (f0, f1) = (sqfold(h, a, rnds@, k), sqfold(h, a, rnds@, it1 as int));
    let v = sp_sqout(sp_squeeze(a, tot(rnds@, k)), rnds@[k].len());
    lemma_frame_fold(h, a, rnds@, it1 as int, 0, 0);
    assert forall|c: int| #[trigger] f1.dom().contains(c) implies mem@.dom().contains(c) && mem@[c] == f1[c] by {
        assert(f0.dom().contains(c));
        assert(m0[c] == f0[c]);
    }
}
//@fn init mem=rw props=C20
    requires secret_key.inv(old(mem)@), secret_key.len() == 243,
    ensures r.secret_key.fresh(old(mem)@), r.secret_key.n == 243, final(mem)@ == old(mem)@.insert(r.secret_key.b(), secret_key.val(old(mem)@)),
//@fn init_trits mem=rw props=C20
    requires secret_key.inv(old(mem)@), secret_key.n == 243,
    ensures r.secret_key.fresh(old(mem)@), r.secret_key.n == 243, final(mem)@ == old(mem)@.insert(r.secret_key.b(), secret_key.val(old(mem)@)),
//@fn dbg_init_str mem=rw props=C20
    requires 12 * secret_key@.len() <= MAXSZ,
    ensures extends(old(mem)@, final(mem)@), !old(mem)@.dom().contains(r.secret_key.b()), r.secret_key.inv(final(mem)@), r.secret_key.n == 243,
        r.key(final(mem)@) == if str_ok(secret_key@) && secret_key@.len() > 0 { cyc(str_trits(secret_key@), 243) } else { zeros(243) },

//@module spongos
//@file spongos.rs
//@deps mem trits::slice trits::trits troika
//@mem none
//@struct Outer
//@struct Spongos
//@prelude
use crate::mem::*;
use crate::trits::defs::*;
use crate::trits::util::*;
use crate::trits::b1t1::*;
use crate::trits::slice::*;
use crate::trits::trits::*;
use crate::troika::*;

/// Abstract sponge: 729 trits and the position in the outer part.
pub struct SP { pub w: Seq<u8>, pub pos: int }
#[derive(PartialEq, Eq, Structural)]
pub enum Op { Absorb, Squeeze, Encr, Decr }

pub open spec fn sp0() -> SP { SP { w: zeros(729), pos: 0 } }
pub open spec fn sp_ok(a: SP) -> bool { is_state(a.w) && 0 <= a.pos < 486 }
/// the trit left in the outer part
pub open spec fn op_new(op: Op, x: u8, a: u8) -> u8 {
    match op { Op::Absorb => x, Op::Squeeze => 0, Op::Encr => x, Op::Decr => ((3 + x - a) % 3) as u8 }
}
/// the trit produced
pub open spec fn op_out(op: Op, x: u8, a: u8) -> u8 {
    match op { Op::Absorb => x, Op::Squeeze => a, Op::Encr => ((x + a) % 3) as u8, Op::Decr => ((3 + x - a) % 3) as u8 }
}
/// permute when the outer part is full
pub open spec fn sp_adv(a: SP) -> SP { if a.pos == 486 { SP { w: s_perm(a.w), pos: 0 } } else { a } }
pub open spec fn sp_step(op: Op, a: SP, x: u8) -> SP { sp_adv(SP { w: a.w.update(a.pos, op_new(op, x, a.w[a.pos])), pos: a.pos + 1 }) }
pub open spec fn sp_run(op: Op, a: SP, xs: Seq<u8>) -> SP decreases xs.len() { if xs.len() == 0 { a } else { sp_run(op, sp_step(op, a, xs[0]), xs.skip(1)) } }
pub open spec fn sp_outs(op: Op, a: SP, xs: Seq<u8>) -> Seq<u8> decreases xs.len() {
    if xs.len() == 0 { Seq::empty() } else { seq![op_out(op, xs[0], a.w[a.pos])] + sp_outs(op, sp_step(op, a, xs[0]), xs.skip(1)) }
}
pub open spec fn sp_commit(a: SP) -> SP { if a.pos == 0 { a } else { SP { w: s_perm(a.w), pos: 0 } } }
pub open spec fn sp_absorb(a: SP, xs: Seq<u8>) -> SP { sp_run(Op::Absorb, a, xs) }
pub open spec fn sp_squeeze(a: SP, n: int) -> SP { sp_run(Op::Squeeze, a, zeros(n)) }
pub open spec fn sp_sqout(a: SP, n: int) -> Seq<u8> { sp_outs(Op::Squeeze, a, zeros(n)) }
pub open spec fn sp_encr(a: SP, xs: Seq<u8>) -> SP { sp_run(Op::Encr, a, xs) }
pub open spec fn sp_enc(a: SP, xs: Seq<u8>) -> Seq<u8> { sp_outs(Op::Encr, a, xs) }
pub open spec fn sp_decr(a: SP, xs: Seq<u8>) -> SP { sp_run(Op::Decr, a, xs) }
pub open spec fn sp_dec(a: SP, xs: Seq<u8>) -> Seq<u8> { sp_outs(Op::Decr, a, xs) }
pub open spec fn sp_join(a: SP, j: SP) -> SP { sp_absorb(a, sp_sqout(j, 243)) }
pub open spec fn cat(xs: Seq<Seq<u8>>) -> Seq<u8> decreases xs.len() { if xs.len() == 0 { Seq::empty() } else { cat(xs.drop_last()) + xs.last() } }
/// squeeze `n` trits of hash after absorbing `x`
pub open spec fn sp_hash(x: Seq<u8>, n: int) -> Seq<u8> { sp_sqout(sp_commit(sp_absorb(sp0(), x)), n) }

impl Outer {
    pub open spec fn slice_spec(self) -> TritSliceT { TritSliceT { r: SliceRange { n: self.trits.n, d: self.pos }, p: self.trits.buf.ptr } }
    pub open spec fn inv(self, h: Heap) -> bool { self.trits.ok(h) && self.trits.n == 486 && self.pos <= 486 }
}
impl Spongos {
    pub open spec fn b(self) -> int { self.outer.trits.b() }
    pub open spec fn pre(self, h: Heap) -> bool {
        self.outer.inv(h) && self.s.wf() && forall|i: int| self.outer.pos <= i < 486 ==> #[trigger] self.outer.trits.val(h)[i] == self.s@[i]
    }
    pub open spec fn inv(self, h: Heap) -> bool { self.pre(h) && self.outer.pos < 486 }
    pub open spec fn sp(self, h: Heap) -> SP { SP { w: Seq::new(729, |i: int| if i < 486 { self.outer.trits.val(h)[i] } else { self.s@[i] }), pos: self.outer.pos as int } }
    pub open spec fn same(self, o: Spongos) -> bool { self.outer.trits == o.outer.trits }
}
/// only allocation `b` (of unchanged size) may differ
pub open spec fn upd(h1: Heap, h2: Heap, b: int) -> bool { h1.dom().contains(b) && h2 == h1.insert(b, h2[b]) && h2[b].len() == h1[b].len() }

pub proof fn lemma_op(op: Op, x: u8, a: u8)
    requires x < 3, a < 3,
    ensures op_new(op, x, a) < 3, op_out(op, x, a) < 3,
{}
pub proof fn lemma_adv_ok(a: SP)
    requires is_state(a.w), 0 <= a.pos <= 486,
    ensures sp_ok(sp_adv(a)), sp_ok(sp_commit(a)) || a.pos == 486,
{ lemma_perm_state(a.w); }
pub proof fn lemma_step_ok(op: Op, a: SP, x: u8)
    requires sp_ok(a), x < 3,
    ensures sp_ok(sp_step(op, a, x)), op_out(op, x, a.w[a.pos]) < 3,
{
    assert(a.w[a.pos] < 3);
    lemma_op(op, x, a.w[a.pos]);
    let w = a.w.update(a.pos, op_new(op, x, a.w[a.pos]));
    assert forall|i: int| 0 <= i < 729 implies #[trigger] w[i] < 3 by { if i != a.pos { assert(a.w[i] < 3); } }
    lemma_adv_ok(SP { w, pos: a.pos + 1 });
}
pub proof fn lemma_run_ok(op: Op, a: SP, xs: Seq<u8>)
    requires sp_ok(a), is_trits(xs),
    ensures sp_ok(sp_run(op, a, xs)), sp_outs(op, a, xs).len() == xs.len(), is_trits(sp_outs(op, a, xs)),
    decreases xs.len(),
{
    if xs.len() > 0 {
        assert(xs[0] < 3);
        lemma_step_ok(op, a, xs[0]);
        let ys = xs.skip(1);
        assert forall|i: int| 0 <= i < ys.len() implies #[trigger] ys[i] < 3 by { assert(xs[i + 1] < 3); }
        lemma_run_ok(op, sp_step(op, a, xs[0]), ys);
    }
}
pub proof fn lemma_outs_len(op: Op, a: SP, xs: Seq<u8>)
    ensures sp_outs(op, a, xs).len() == xs.len(),
    decreases xs.len(),
{ if xs.len() > 0 { lemma_outs_len(op, sp_step(op, a, xs[0]), xs.skip(1)); } }
/// C02: any sequence of operations in one call or two
pub proof fn lemma_cat(op: Op, a: SP, xs: Seq<u8>, ys: Seq<u8>)
    ensures sp_run(op, a, xs + ys) == sp_run(op, sp_run(op, a, xs), ys), sp_outs(op, a, xs + ys) == sp_outs(op, a, xs) + sp_outs(op, sp_run(op, a, xs), ys),
    decreases xs.len(),
{
    if xs.len() == 0 { assert(xs + ys =~= ys); assert(sp_outs(op, a, xs) + sp_outs(op, a, ys) =~= sp_outs(op, a, ys)); } else {
        assert((xs + ys).skip(1) =~= xs.skip(1) + ys);
        lemma_cat(op, sp_step(op, a, xs[0]), xs.skip(1), ys);
        assert(sp_outs(op, a, xs + ys) =~= sp_outs(op, a, xs) + sp_outs(op, sp_run(op, a, xs), ys));
    }
}
/// C01: decryption inverts encryption and ends in the same state
pub proof fn lemma_decr_encr(a: SP, xs: Seq<u8>)
    requires sp_ok(a), is_trits(xs),
    ensures sp_dec(a, sp_enc(a, xs)) == xs, sp_decr(a, sp_enc(a, xs)) == sp_encr(a, xs),
    decreases xs.len(),
{
    let c = sp_enc(a, xs);
    if xs.len() == 0 { assert(sp_dec(a, c) =~= xs); } else {
        let o = a.w[a.pos];
        assert(xs[0] < 3 && o < 3);
        let b = sp_step(Op::Encr, a, xs[0]);
        lemma_step_ok(Op::Encr, a, xs[0]);
        let ys = xs.skip(1);
        assert forall|i: int| 0 <= i < ys.len() implies #[trigger] ys[i] < 3 by { assert(xs[i + 1] < 3); }
        lemma_decr_encr(b, ys);
        assert(c.skip(1) =~= sp_enc(b, ys));
        assert(c[0] == (xs[0] + o) % 3);
        assert(op_new(Op::Decr, c[0], o) == xs[0]);
        assert(sp_dec(a, c) =~= xs);
    }
}
/// the same for encryption after decryption: decryption is a bijection
pub proof fn lemma_encr_decr(a: SP, xs: Seq<u8>)
    requires sp_ok(a), is_trits(xs),
    ensures sp_enc(a, sp_dec(a, xs)) == xs, sp_encr(a, sp_dec(a, xs)) == sp_decr(a, xs),
    decreases xs.len(),
{
    let c = sp_dec(a, xs);
    if xs.len() == 0 { assert(sp_enc(a, c) =~= xs); } else {
        let o = a.w[a.pos];
        assert(xs[0] < 3 && o < 3);
        let b = sp_step(Op::Decr, a, xs[0]);
        lemma_step_ok(Op::Decr, a, xs[0]);
        let ys = xs.skip(1);
        assert forall|i: int| 0 <= i < ys.len() implies #[trigger] ys[i] < 3 by { assert(xs[i + 1] < 3); }
        lemma_encr_decr(b, ys);
        assert(c.skip(1) =~= sp_dec(b, ys));
        assert(op_out(Op::Encr, c[0], o) == xs[0]);
        assert(sp_enc(a, c) =~= xs);
    }
}
/// one pass over the available part of the outer state
pub open spec fn op_news(op: Op, xs: Seq<u8>, v: Seq<u8>) -> Seq<u8> { Seq::new(xs.len(), |i: int| op_new(op, xs[i], v[i])) }
pub open spec fn op_outs(op: Op, xs: Seq<u8>, v: Seq<u8>) -> Seq<u8> { Seq::new(xs.len(), |i: int| op_out(op, xs[i], v[i])) }
pub proof fn lemma_bulk(op: Op, a: SP, xs: Seq<u8>, n: int)
    requires a.w.len() == 729, 0 <= a.pos, 0 < n <= xs.len(), a.pos + n <= 486,
    ensures ({
        let v = a.w.subrange(a.pos, a.pos + n);
        let b = sp_adv(SP { w: splice(a.w, a.pos, op_news(op, xs.take(n), v)), pos: a.pos + n });
        sp_run(op, a, xs) == sp_run(op, b, xs.skip(n)) && sp_outs(op, a, xs) == op_outs(op, xs.take(n), v) + sp_outs(op, b, xs.skip(n))
    }),
    decreases n,
{
    let v = a.w.subrange(a.pos, a.pos + n);
    let q = op_new(op, xs[0], a.w[a.pos]);
    let full = SP { w: splice(a.w, a.pos, op_news(op, xs.take(n), v)), pos: a.pos + n };
    if n == 1 {
        assert(full.w =~= a.w.update(a.pos, q));
        assert(op_outs(op, xs.take(1), v) =~= seq![op_out(op, xs[0], a.w[a.pos])]);
    } else {
        let b = sp_step(op, a, xs[0]);
        let ys = xs.skip(1);
        lemma_bulk(op, b, ys, n - 1);
        let v2 = b.w.subrange(b.pos, b.pos + n - 1);
        assert(splice(b.w, b.pos, op_news(op, ys.take(n - 1), v2)) =~= full.w);
        assert(ys.skip(n - 1) =~= xs.skip(n));
        let e = sp_adv(full);
        assert(seq![op_out(op, xs[0], a.w[a.pos])] + (op_outs(op, ys.take(n - 1), v2) + sp_outs(op, e, xs.skip(n))) =~= op_outs(op, xs.take(n), v) + sp_outs(op, e, xs.skip(n)));
    }
}
proof fn lemma_frame(h: Heap, b: int, yb: int, yo: int, d: Seq<u8>, q: Seq<u8>, c: Seq<u8>, q2: Seq<u8>)
    requires b != yb, h.dom().contains(yb),
    ensures wr(wr(h, yb, yo, d).insert(b, q), yb, yo + d.len(), c).insert(b, q2) == wr(h, yb, yo, d + c).insert(b, q2),
{
    lemma_wr_adj(h, yb, yo, d, c);
    assert(wr(wr(h, yb, yo, d).insert(b, q), yb, yo + d.len(), c).insert(b, q2) =~= wr(h, yb, yo, d + c).insert(b, q2));
}
pub proof fn lemma_zeros_ok(n: int)
    ensures is_trits(zeros(n)),
{}
proof fn lemma_zeros_cat(n: int, m: int)
    requires n >= 0, m >= 0,
    ensures zeros(n + m) == zeros(n) + zeros(m),
{ assert(zeros(n + m) =~= zeros(n) + zeros(m)); }
/// C02: squeezing in one call or two
pub proof fn lemma_squeeze_cat(a: SP, n: int, m: int)
    requires n >= 0, m >= 0,
    ensures sp_squeeze(a, n + m) == sp_squeeze(sp_squeeze(a, n), m), sp_sqout(a, n + m) == sp_sqout(a, n) + sp_sqout(sp_squeeze(a, n), m),
{ lemma_zeros_cat(n, m); lemma_cat(Op::Squeeze, a, zeros(n), zeros(m)); }
//@end
//@fn Outer.Clone::clone mem=rw props=C02
    requires self.trits.inv(old(mem)@),
    ensures r.pos == self.pos, r.trits.fresh(old(mem)@), r.trits.n == self.trits.n,
        final(mem)@ == old(mem)@.insert(r.trits.b(), self.trits.val(old(mem)@)),
//@fn Spongos.Clone::clone mem=rw props=C02
    requires self.inv(old(mem)@),
    ensures r.s == self.s, r.outer.pos == self.outer.pos, r.outer.trits.fresh(old(mem)@), r.outer.trits.n == self.outer.trits.n,
        final(mem)@ == old(mem)@.insert(r.b(), self.outer.trits.val(old(mem)@)),
//@fn Spongos.Clone::clone_from mem=rw props=C02
    requires source.inv(old(mem)@),
    ensures final(self).s == source.s, final(self).outer.pos == source.outer.pos, final(self).outer.trits.fresh(old(mem)@), final(self).outer.trits.n == source.outer.trits.n,
        final(mem)@ == old(mem)@.insert(final(self).b(), source.outer.trits.val(old(mem)@)),
//@fn Troika.PRP::transform mem=rw props=C01,C02
    requires old(self).wf(), old(outer).inv(old(mem)@), old(outer).r.n <= 729,
        forall|i: int| 0 <= i < old(outer).r.d ==> #[trigger] old(mem)@[old(outer).b()][old(outer).p.off + i] < 3,
    ensures final(self).wf(), final(outer).p == old(outer).p, final(outer).r.n == old(outer).r.n, final(outer).r.d == 0,
        final(self)@ == s_perm(splice(old(self)@, 0, rd(old(mem)@, old(outer).b(), old(outer).p.off as int, old(outer).r.d as int))),
        final(mem)@ == wr(old(mem)@, old(outer).b(), old(outer).p.off as int, final(self)@.take(old(outer).r.n as int)),
//@hint entry
let ghost h = mem@;
let ghost v = rd(h, outer.b(), outer.p.off as int, outer.r.d as int);
let ghost t0 = self@;
proof { assert forall|i: int| 0 <= i < v.len() implies #[trigger] v[i] < 3 by { assert(h[outer.b()][outer.p.off + i] < 3); } }
//@loop 0
    invariant h == mem@, end0 == n, it0 <= end0, n == outer.r.d, *outer == *old(outer), outer.inv(h), outer.r.n <= 729, self.wf(), v == rd(h, outer.b(), outer.p.off as int, outer.r.d as int),
        is_trits(v), o.p == outer.p, o.r.n == outer.r.d, o.r.d == it0, self@ == splice(t0, 0, v.take(it0 as int)),
    decreases end0 - it0,
//@hint loop 0 pre
proof { assert(self@ =~= splice(t0, 0, v.take(0))); }
//@hint loop 0 start
proof { assert(o.val(mem@)[0] == v[it0 - 1]); assert(v[it0 - 1] < 3); }
//@hint loop 0 end
proof { assert(self@ =~= splice(t0, 0, v.take(it0 as int))); }
//@hint loop 0 post
proof { assert(v.take(n as int) =~= v); }
//@loop 1
    invariant end1 == n, it1 <= end1, n == old(outer).r.n, n <= 729, h == old(mem)@, old(outer).inv(h), *outer == (TritSliceMutT { r: SliceRange { n: old(outer).r.n, d: 0 }, p: old(outer).p }), self.wf(), self@ == s_perm(splice(t0, 0, v)),
        o.p == outer.p, o.r.n == n, o.r.d == it1, mem@ == wr(h, outer.b(), outer.p.off as int, self@.take(it1 as int)),
    decreases end1 - it1,
//@hint loop 1 pre
proof { lemma_wr_empty(h, outer.b(), outer.p.off as int); assert(self@.take(0) =~= Seq::<u8>::empty()); }
//@hint loop 1 end
proof {
    lemma_wr_adj(h, outer.b(), outer.p.off as int, self@.take(it1 - 1), seq![self@[it1 - 1]]);
    assert(self@.take(it1 - 1) + seq![self@[it1 - 1]] =~= self@.take(it1 as int));
}
//@fn Outer::slice props=C01,C02
    requires self.trits.n >= 486, self.pos <= 486,
    ensures r.p == self.trits.buf.ptr, r.r.n == self.trits.n, r.r.d == self.pos,
//@fn Outer::slice_mut props=C01,C02
    requires old(self).trits.n >= 486, old(self).pos <= 486,
    ensures r.p == old(self).trits.buf.ptr, r.r.n == old(self).trits.n, r.r.d == old(self).pos, *final(self) == *old(self),
//@fn Spongos::to_inner mem=rw props=C02
    requires self.inv(old(mem)@), self.outer.pos == 0, inner.inv(old(mem)@), inner.len() == 243, inner.b() != self.b(),
    ensures final(mem)@ == inner.put(old(mem)@, self.sp(old(mem)@).w.skip(486)),
//@hint entry
let ghost h = mem@;
let ghost v = self.sp(h).w.skip(486);
proof { lemma_wr_empty(h, inner.b(), inner.o()); assert(v.take(0) =~= Seq::<u8>::empty()); }
//@loop 0
    invariant 486 <= it0 <= end0, end0 == 729, inner.inv(h), inner.len() == 243, inner_m == inner.s_drop(it0 - 486), self.s.wf(), v.len() == 243,
        forall|i: int| 0 <= i < 243 ==> #[trigger] v[i] == self.s@[486 + i],
        mem@ == inner.put(h, v.take(it0 - 486)),
    decreases end0 - it0,
//@hint loop 0 end
proof {
    let k = it0 - 487;
    lemma_wr_adj(h, inner.b(), inner.o(), v.take(k), seq![v[k]]);
    assert(v.take(k) + seq![v[k]] =~= v.take(k + 1));
}
//@hint exit
proof { assert(v.take(243) =~= v); }
//@fn Spongos::to_inner_trits mem=rw props=C02
    requires self.inv(old(mem)@), self.outer.pos == 0,
    ensures r.fresh(old(mem)@), r.n == 243, final(mem)@ == old(mem)@.insert(r.b(), self.sp(old(mem)@).w.skip(486)),
//@hint before to_inner 0
let ghost h1 = mem@;
proof { assert(self.sp(h1) == self.sp(old(mem)@)); }
//@hint exit
proof {
    let v = self.sp(old(mem)@).w.skip(486);
    assert(mem@[tail__.b()] =~= v);
    assert(mem@ =~= old(mem)@.insert(tail__.b(), v));
}
//@fn Spongos::from_inner mem=rw props=C02
    requires inner.ok(old(mem)@), inner.len() == 243,
    ensures r.inv(final(mem)@), !old(mem)@.dom().contains(r.b()), final(mem)@ == old(mem)@.insert(r.b(), zeros(486)),
        r.sp(final(mem)@) == (SP { w: zeros(486) + inner.val(old(mem)@), pos: 0 }),
//@hint let s 0
let ghost v = inner.val(old(mem)@);
proof { assert(inner.val(mem@) =~= v); assert(s.s@ =~= splice(s.s@, 486, v.take(0))); }
let ghost h1 = mem@;
let ghost s1 = s;
//@loop 0
    invariant 486 <= it0 <= end0, end0 == 729, h1 == mem@, inner.ok(h1), v == inner.val(h1), v.len() == 243, inner.len() == 243, inner_m == inner.s_drop(it0 - 486),
        s.s.wf(), s.outer == s1.outer, s1.s@ == zeros(729), s.s@ == splice(s1.s@, 486, v.take(it0 - 486)),
    decreases end0 - it0,
//@hint loop 0 start
proof { assert(inner_m.val(mem@)[0] == v[it0 - 487]); assert(v[it0 - 487] < 3); }
//@hint loop 0 end
proof { assert(s.s@ =~= splice(s1.s@, 486, v.take(it0 - 486))); }
//@hint exit
proof {
    assert(v.take(243) =~= v);
    assert(mem@[tail__.b()] =~= zeros(486));
    assert(tail__.sp(mem@).w =~= zeros(486) + v);
}
//@fn Spongos::from_inner_trits mem=rw props=C02
    requires inner.ok(old(mem)@), inner.n == 243,
    ensures r.inv(final(mem)@), !old(mem)@.dom().contains(r.b()), final(mem)@ == old(mem)@.insert(r.b(), zeros(486)),
        r.sp(final(mem)@) == (SP { w: zeros(486) + inner.val(old(mem)@), pos: 0 }),
//@hint entry
proof { assert(inner.slice_spec().val(mem@) =~= inner.val(mem@)); }
//@fn Spongos::update mem=rw props=C01,C02
    requires old(self).outer.inv(old(mem)@), old(self).s.wf(), old(self).outer.pos + n <= 486,
        forall|i: int| old(self).outer.pos + n <= i < 486 ==> #[trigger] old(self).outer.trits.val(old(mem)@)[i] == old(self).s@[i],
    ensures final(self).inv(final(mem)@), final(self).same(*old(self)), upd(old(mem)@, final(mem)@, old(self).b()),
        final(self).sp(final(mem)@) == sp_adv(SP { w: old(self).sp(old(mem)@).w, pos: old(self).outer.pos + n }),
//@hint entry
proof { assert(mem@ =~= mem@.insert(self.b(), mem@[self.b()])); }
//@hint exit
proof { if self.outer.pos != 0 { assert(self.sp(mem@).w =~= old(self).sp(mem@).w); } }
//@fn Spongos::init mem=rw props=C02
    ensures r.inv(final(mem)@), !old(mem)@.dom().contains(r.b()), final(mem)@ == old(mem)@.insert(r.b(), zeros(486)),
        r.sp(final(mem)@) == sp0(), r.outer.pos == 0, r.s@ == zeros(729),
//@hint exit
proof { assert(tail__.sp(mem@).w =~= zeros(729)); assert(mem@[tail__.b()] =~= zeros(486)); }
//@fn Spongos::absorb mem=rw props=C01,C02
    requires old(self).inv(old(mem)@), x.ok(old(mem)@), x.b() != old(self).b(),
    ensures final(self).inv(final(mem)@), final(self).same(*old(self)), upd(old(mem)@, final(mem)@, old(self).b()),
        final(self).sp(final(mem)@) == sp_absorb(old(self).sp(old(mem)@), x.val(old(mem)@)),
//@hint entry
let ghost h = mem@;
let ghost v = x.val(h);
let ghost b = self.b();
proof { assert(mem@ =~= mem@.insert(b, mem@[b])); assert(v.skip(0) =~= v); }
//@loop 0
    invariant h == old(mem)@, v == x.val(h), is_trits(v), b == old(self).b(), self.same(*old(self)), self.inv(mem@), upd(h, mem@, b), x.b() != b, x.inv(h),
        x_m.p == x.p, x_m.r.n == x.r.n, x.r.d <= x_m.r.d <= x.r.n,
        sp_absorb(self.sp(mem@), v.skip(x_m.r.d - x.r.d)) == sp_absorb(old(self).sp(h), v),
    decreases x_m.len(),
//@hint loop 0 start
let ghost m0 = mem@;
let ghost a0 = self.sp(m0);
let ghost s0 = *self;
let ghost k = x_m.r.d - x.r.d;
let ghost vx = v.skip(k);
proof { assert(x_m.val(m0) =~= vx); }
//@hint before update 0
proof {
    assert(self.s == s0.s);
    assert(self.outer.trits.val(mem@) =~= splice(s0.outer.trits.val(m0), a0.pos, vx.take(n as int)));
    assert forall|i: int| 0 <= i < n implies #[trigger] vx[i] < 3 by { assert(v[k + i] < 3); }
    assert forall|i: int| 0 <= i < 486 implies #[trigger] self.outer.trits.val(mem@)[i] < 3 by { if !(a0.pos <= i < a0.pos + n) { assert(s0.outer.trits.val(m0)[i] < 3); } else { assert(vx[i - a0.pos] < 3); } }
    assert(self.sp(mem@).w =~= splice(a0.w, a0.pos, op_news(Op::Absorb, vx.take(n as int), a0.w.subrange(a0.pos, a0.pos + n))));
    lemma_bulk(Op::Absorb, a0, vx, n as int);
}
//@hint loop 0 end
proof { assert(vx.skip(n as int) =~= v.skip(k + n)); assert(mem@ =~= h.insert(b, mem@[b])); }
//@hint exit
proof { assert(v.skip(v.len() as int) =~= Seq::<u8>::empty()); }
//@fn Spongos::absorb_trits mem=rw props=C02
    requires old(self).inv(old(mem)@), x.ok(old(mem)@), x.b() != old(self).b(),
    ensures final(self).inv(final(mem)@), final(self).same(*old(self)), upd(old(mem)@, final(mem)@, old(self).b()),
        final(self).sp(final(mem)@) == sp_absorb(old(self).sp(old(mem)@), x.val(old(mem)@)),
//@hint entry
proof { assert(x.slice_spec().val(mem@) =~= x.val(mem@)); }
//@fn Spongos::commit mem=rw props=C01,C02
    requires old(self).pre(old(mem)@),
    ensures final(self).inv(final(mem)@), final(self).same(*old(self)), upd(old(mem)@, final(mem)@, old(self).b()),
        final(self).sp(final(mem)@) == sp_commit(old(self).sp(old(mem)@)), final(self).outer.pos == 0,
//@hint entry
let ghost h = mem@;
proof { assert(mem@ =~= mem@.insert(self.b(), mem@[self.b()])); assert(forall|i: int| 0 <= i < 486 ==> #[trigger] self.outer.trits.val(h)[i] < 3); }
//@hint exit
proof {
    if old(self).outer.pos != 0 {
        let w = old(self).sp(h).w;
        assert(splice(old(self).s@, 0, rd(h, old(self).b(), 0, old(self).outer.pos as int)) =~= w);
        lemma_view_state(self.s);
        assert(mem@[self.b()] =~= self.s@.take(486));
        assert forall|i: int| 0 <= i < 486 implies #[trigger] self.outer.trits.val(mem@)[i] < 3 by { assert(self.s@[i] < 3); }
        assert(self.sp(mem@).w =~= self.s@);
        assert(mem@ =~= h.insert(self.b(), mem@[self.b()]));
    }
}
//@fn Spongos::squeeze mem=rw props=C01,C02
    requires old(self).inv(old(mem)@), y.inv(old(mem)@), y.b() != old(self).b(),
    ensures final(self).inv(final(mem)@), final(self).same(*old(self)), final(mem)@[old(self).b()].len() == 486,
        final(mem)@ == y.put(old(mem)@, sp_sqout(old(self).sp(old(mem)@), y.len())).insert(old(self).b(), final(mem)@[old(self).b()]),
        final(self).sp(final(mem)@) == sp_squeeze(old(self).sp(old(mem)@), y.len()),
//@hint entry
let ghost h = mem@;
let ghost b = self.b();
let ghost a1 = self.sp(h);
let ghost all = sp_sqout(a1, y.len());
let ghost mut done = Seq::<u8>::empty();
proof {
    lemma_wr_empty(h, y.b(), y.o());
    assert(mem@ =~= y.put(h, done).insert(b, mem@[b]));
    assert(done + all =~= all);
    lemma_outs_len(Op::Squeeze, a1, zeros(y.len()));
}
//@loop 0
    invariant h == old(mem)@, b == old(self).b(), a1 == old(self).sp(h), all == sp_sqout(a1, y.len()), all.len() == y.len(), self.same(*old(self)), self.inv(mem@), y.b() != b, y.inv(h), h.dom().contains(b),
        y_m.p == y.p, y_m.r.n == y.r.n, y.r.d <= y_m.r.d <= y.r.n, done.len() == y_m.r.d - y.r.d,
        mem@ == y.put(h, done).insert(b, mem@[b]), mem@[b].len() == 486,
        sp_squeeze(self.sp(mem@), y_m.len()) == sp_squeeze(a1, y.len()),
        done + sp_sqout(self.sp(mem@), y_m.len()) == all,
    decreases y_m.len(),
//@hint loop 0 start
let ghost m0 = mem@;
let ghost a0 = self.sp(m0);
let ghost s0 = *self;
let ghost k = y_m.r.d - y.r.d;
let ghost vx = zeros(y_m.len());
//@hint before update 0
let ghost c = a0.w.subrange(a0.pos, a0.pos + n);
let ghost m2 = mem@;
proof {
    assert(self.s == s0.s);
    assert(s0.outer.trits.val(m0).subrange(a0.pos, a0.pos + n) =~= c);
    assert(self.outer.trits.val(mem@) =~= splice(s0.outer.trits.val(m0), a0.pos, zeros(n as int)));
    assert forall|i: int| 0 <= i < 486 implies #[trigger] self.outer.trits.val(mem@)[i] < 3 by { if !(a0.pos <= i < a0.pos + n) { assert(s0.outer.trits.val(m0)[i] < 3); } }
    assert(vx.take(n as int) =~= zeros(n as int));
    assert(self.sp(mem@).w =~= splice(a0.w, a0.pos, op_news(Op::Squeeze, vx.take(n as int), c)));
    assert(op_outs(Op::Squeeze, vx.take(n as int), c) =~= c);
    lemma_bulk(Op::Squeeze, a0, vx, n as int);
    assert(vx.skip(n as int) =~= zeros(vx.len() - n));
    lemma_frame(h, b, y.b(), y.o(), done, m0[b], c, m2[b]);
    assert(s0.outer.slice_spec().val(m0).take(n as int) =~= c);
    assert(y.b() == y_m.b() && y_m.o() == y.o() + k);
    let m1 = wr(m0, y.b(), y.o() + k, c);
    assert(m2 == wr(m1, b, a0.pos, zeros(n as int)));
    assert(m2 =~= m1.insert(b, m2[b]));
    assert(m1.insert(b, m2[b]) == wr(y.put(h, done).insert(b, m0[b]), y.b(), y.o() + done.len(), c).insert(b, m2[b]));
    assert(m2 =~= y.put(h, done + c).insert(b, m2[b]));
}
//@hint loop 0 end
proof {
    assert((done + c) + sp_sqout(self.sp(mem@), y_m.len()) =~= done + (c + sp_sqout(self.sp(mem@), y_m.len())));
    done = done + c;
    assert(mem@ =~= y.put(h, done).insert(b, mem@[b]));
}
//@hint exit
proof { assert(zeros(0) =~= Seq::<u8>::empty()); assert(done =~= all); }
//@fn Spongos::squeeze_eq mem=rw props=C02,C11
    requires old(self).inv(old(mem)@), y.inv(old(mem)@), y.b() != old(self).b(),
    ensures final(self).inv(final(mem)@), final(self).same(*old(self)), upd(old(mem)@, final(mem)@, old(self).b()),
        r == (sp_sqout(old(self).sp(old(mem)@), y.len()) == y.val(old(mem)@)),
        final(self).sp(final(mem)@) == sp_squeeze(old(self).sp(old(mem)@), y.len()),
//@hint entry
let ghost h = mem@;
let ghost b = self.b();
let ghost a1 = self.sp(h);
let ghost all = sp_sqout(a1, y.len());
let ghost v = y.val(h);
proof {
    assert(mem@ =~= h.insert(b, mem@[b]));
    assert(all.take(0) =~= v.take(0));
    assert(all.skip(0) =~= all);
    lemma_outs_len(Op::Squeeze, a1, zeros(y.len()));
}
//@loop 0
    invariant h == old(mem)@, b == old(self).b(), a1 == old(self).sp(h), all == sp_sqout(a1, y.len()), all.len() == y.len(), v == y.val(h), self.same(*old(self)), self.inv(mem@), y.b() != b, y.inv(h), upd(h, mem@, b),
        y_m.p == y.p, y_m.r.n == y.r.n, y.r.d <= y_m.r.d <= y.r.n,
        sp_squeeze(self.sp(mem@), y_m.len()) == sp_squeeze(a1, y.len()),
        sp_sqout(self.sp(mem@), y_m.len()) == all.skip(y_m.r.d - y.r.d),
        eq == (all.take(y_m.r.d - y.r.d) == v.take(y_m.r.d - y.r.d)),
    decreases y_m.len(),
//@hint loop 0 start
let ghost m0 = mem@;
let ghost a0 = self.sp(m0);
let ghost s0 = *self;
let ghost k = y_m.r.d - y.r.d;
let ghost y0 = y_m;
let ghost vx = zeros(y_m.len());
//@hint before update 0
let ghost c = a0.w.subrange(a0.pos, a0.pos + n);
let ghost m2 = mem@;
proof {
    assert(self.s == s0.s);
    assert(self.outer.trits.val(mem@) =~= splice(s0.outer.trits.val(m0), a0.pos, zeros(n as int)));
    assert forall|i: int| 0 <= i < 486 implies #[trigger] self.outer.trits.val(mem@)[i] < 3 by { if !(a0.pos <= i < a0.pos + n) { assert(s0.outer.trits.val(m0)[i] < 3); } }
    assert(vx.take(n as int) =~= zeros(n as int));
    assert(self.sp(mem@).w =~= splice(a0.w, a0.pos, op_news(Op::Squeeze, vx.take(n as int), c)));
    assert(op_outs(Op::Squeeze, vx.take(n as int), c) =~= c);
    lemma_bulk(Op::Squeeze, a0, vx, n as int);
    assert(vx.skip(n as int) =~= zeros(vx.len() - n));
    assert(s0.outer.slice_spec().val(m0).take(n as int) =~= c);
    assert(y0.val(m0).take(n as int) =~= v.subrange(k, k + n));
    lemma_take_split(all, v, k, n as int);
    assert(c =~= all.subrange(k, k + n)) by { assert(all.skip(k).take(n as int) =~= c); assert(all.skip(k).take(n as int) =~= all.subrange(k, k + n)); }
}
//@hint loop 0 end
proof {
    assert(mem@ =~= h.insert(b, mem@[b]));
    assert(sp_sqout(self.sp(mem@), y_m.len()) =~= all.skip(k).skip(n as int));
    assert(all.skip(k).skip(n as int) =~= all.skip(k + n));
}
//@hint exit
proof { assert(all.take(y.len()) =~= all); assert(v.take(y.len()) =~= v); assert(zeros(0) =~= Seq::<u8>::empty()); }
//@fn Spongos::encr mem=rw props=C01,C02 rlimit=60
    requires old(self).inv(old(mem)@), x.ok(old(mem)@), y.inv(old(mem)@), y.b() != old(self).b(), x.b() != old(self).b(), x.len() == y.len(),
        x.b() != y.b() || x.o() == y.o() || x.o() + x.len() <= y.o() || y.o() + y.len() <= x.o(),
    ensures final(self).inv(final(mem)@), final(self).same(*old(self)), final(mem)@[old(self).b()].len() == 486,
        final(mem)@ == y.put(old(mem)@, sp_enc(old(self).sp(old(mem)@), x.val(old(mem)@))).insert(old(self).b(), final(mem)@[old(self).b()]),
        final(self).sp(final(mem)@) == sp_encr(old(self).sp(old(mem)@), x.val(old(mem)@)),
//@hint entry
let ghost h = mem@;
let ghost b = self.b();
let ghost a1 = self.sp(h);
let ghost v = x.val(h);
let ghost all = sp_enc(a1, v);
let ghost mut done = Seq::<u8>::empty();
proof {
    lemma_wr_empty(h, y.b(), y.o());
    assert(mem@ =~= y.put(h, done).insert(b, mem@[b]));
    assert(done + all =~= all);
    assert(v.skip(0) =~= v);
    lemma_outs_len(Op::Encr, a1, v);
}
//@loop 0
    invariant h == old(mem)@, b == old(self).b(), a1 == old(self).sp(h), v == x.val(h), is_trits(v), all == sp_enc(a1, v), all.len() == y.len(), x.len() == y.len(), self.same(*old(self)), self.inv(mem@), y.b() != b, x.b() != b, y.inv(h), x.inv(h), h.dom().contains(b),
        x.b() != y.b() || x.o() == y.o() || x.o() + x.len() <= y.o() || y.o() + y.len() <= x.o(),
        y_m.p == y.p, y_m.r.n == y.r.n, y.r.d <= y_m.r.d <= y.r.n, done.len() == y_m.r.d - y.r.d,
        x_m.p == x.p, x_m.r.n == x.r.n, x_m.r.d - x.r.d == y_m.r.d - y.r.d,
        mem@ == y.put(h, done).insert(b, mem@[b]), mem@[b].len() == 486,
        sp_encr(self.sp(mem@), v.skip(done.len() as int)) == sp_encr(a1, v),
        done + sp_enc(self.sp(mem@), v.skip(done.len() as int)) == all,
    decreases y_m.len(),
//@hint loop 0 start
let ghost m0 = mem@;
let ghost a0 = self.sp(m0);
let ghost s0 = *self;
let ghost k = y_m.r.d - y.r.d;
let ghost (x0, y0) = (x_m, y_m);
let ghost vx = v.skip(k);
proof {
    assert(x_m.val(m0) =~= vx);
    assert forall|i: int| 0 <= i < vx.len() implies #[trigger] vx[i] < 3 by { assert(v[k + i] < 3); }
    if x.b() == y.b() && x.o() == y.o() { assert(y_m.val(m0) =~= vx); }
    lemma_tail_ok(s0, m0);
}
//@hint before update 0
let ghost c = op_outs(Op::Encr, vx.take(n as int), a0.w.subrange(a0.pos, a0.pos + n));
let ghost m2 = mem@;
proof {
    let a = a0.w.subrange(a0.pos, a0.pos + n);
    let t = vx.take(n as int);
    let nw = op_news(Op::Encr, t, a);
    assert(self.s == s0.s);
    assert(s0.outer.slice_spec().val(m0).take(n as int) =~= a);
    assert(sadd(t, a) =~= c);
    assert(nw =~= t);
    assert(y.b() == y0.b() && y0.o() == y.o() + k);
    let m1 = wr(m0, y.b(), y.o() + k, c);
    assert(m2 == wr(m1, b, a0.pos, nw));
    assert(self.outer.trits.val(mem@) =~= splice(s0.outer.trits.val(m0), a0.pos, nw));
    assert forall|i: int| 0 <= i < 486 implies #[trigger] self.outer.trits.val(mem@)[i] < 3 by {
        if !(a0.pos <= i < a0.pos + n) { assert(s0.outer.trits.val(m0)[i] < 3); } else { let j = i - a0.pos; assert(a0.w[i] == s0.outer.trits.val(m0)[i]); assert(a0.w[i] < 3); assert(vx[j] < 3); lemma_op(Op::Encr, vx[j], a0.w[i]); assert(nw[j] < 3); }
    }
    assert(self.sp(mem@).w =~= splice(a0.w, a0.pos, nw));
    lemma_bulk(Op::Encr, a0, vx, n as int);
    assert(vx.skip(n as int) =~= v.skip(k + n));
    lemma_frame(h, b, y.b(), y.o(), done, m0[b], c, m2[b]);
    assert(m2 =~= m1.insert(b, m2[b]));
    assert(m1.insert(b, m2[b]) == wr(y.put(h, done).insert(b, m0[b]), y.b(), y.o() + done.len(), c).insert(b, m2[b]));
    assert(m2 =~= y.put(h, done + c).insert(b, m2[b]));
}
//@hint loop 0 end
proof {
    assert((done + c) + sp_enc(self.sp(mem@), v.skip(k + n)) =~= done + (c + sp_enc(self.sp(mem@), v.skip(k + n))));
    done = done + c;
    assert(mem@ =~= y.put(h, done).insert(b, mem@[b]));
}
//@hint exit
proof { assert(v.skip(v.len() as int) =~= Seq::<u8>::empty()); assert(done =~= all); }
//@fn Spongos::decr mem=rw props=C01,C02 rlimit=60
    requires old(self).inv(old(mem)@), x.ok(old(mem)@), y.inv(old(mem)@), y.b() != old(self).b(), x.b() != old(self).b(), x.len() == y.len(),
        x.b() != y.b() || x.o() == y.o() || x.o() + x.len() <= y.o() || y.o() + y.len() <= x.o(),
    ensures final(self).inv(final(mem)@), final(self).same(*old(self)), final(mem)@[old(self).b()].len() == 486,
        final(mem)@ == y.put(old(mem)@, sp_dec(old(self).sp(old(mem)@), x.val(old(mem)@))).insert(old(self).b(), final(mem)@[old(self).b()]),
        final(self).sp(final(mem)@) == sp_decr(old(self).sp(old(mem)@), x.val(old(mem)@)),
//@hint entry
let ghost h = mem@;
let ghost b = self.b();
let ghost a1 = self.sp(h);
let ghost v = x.val(h);
let ghost all = sp_dec(a1, v);
let ghost mut done = Seq::<u8>::empty();
proof {
    lemma_wr_empty(h, y.b(), y.o());
    assert(mem@ =~= y.put(h, done).insert(b, mem@[b]));
    assert(done + all =~= all);
    assert(v.skip(0) =~= v);
    lemma_outs_len(Op::Decr, a1, v);
}
//@loop 0
    invariant h == old(mem)@, b == old(self).b(), a1 == old(self).sp(h), v == x.val(h), is_trits(v), all == sp_dec(a1, v), all.len() == y.len(), x.len() == y.len(), self.same(*old(self)), self.inv(mem@), y.b() != b, x.b() != b, y.inv(h), x.inv(h), h.dom().contains(b),
        x.b() != y.b() || x.o() == y.o() || x.o() + x.len() <= y.o() || y.o() + y.len() <= x.o(),
        y_m.p == y.p, y_m.r.n == y.r.n, y.r.d <= y_m.r.d <= y.r.n, done.len() == y_m.r.d - y.r.d,
        x_m.p == x.p, x_m.r.n == x.r.n, x_m.r.d - x.r.d == y_m.r.d - y.r.d,
        mem@ == y.put(h, done).insert(b, mem@[b]), mem@[b].len() == 486,
        sp_decr(self.sp(mem@), v.skip(done.len() as int)) == sp_decr(a1, v),
        done + sp_dec(self.sp(mem@), v.skip(done.len() as int)) == all,
    decreases y_m.len(),
//@hint loop 0 start
let ghost m0 = mem@;
let ghost a0 = self.sp(m0);
let ghost s0 = *self;
let ghost k = y_m.r.d - y.r.d;
let ghost (x0, y0) = (x_m, y_m);
let ghost vx = v.skip(k);
proof {
    assert(x_m.val(m0) =~= vx);
    assert forall|i: int| 0 <= i < vx.len() implies #[trigger] vx[i] < 3 by { assert(v[k + i] < 3); }
    if x.b() == y.b() && x.o() == y.o() { assert(y_m.val(m0) =~= vx); }
    lemma_tail_ok(s0, m0);
}
//@hint before update 0
let ghost c = op_outs(Op::Decr, vx.take(n as int), a0.w.subrange(a0.pos, a0.pos + n));
let ghost m2 = mem@;
proof {
    let a = a0.w.subrange(a0.pos, a0.pos + n);
    let t = vx.take(n as int);
    let nw = op_news(Op::Decr, t, a);
    assert(self.s == s0.s);
    assert(s0.outer.slice_spec().val(m0).take(n as int) =~= a);
    assert(ssub(t, a) =~= c);
    assert(nw =~= c);
    assert(y.b() == y0.b() && y0.o() == y.o() + k);
    let m1 = wr(m0, y.b(), y.o() + k, c);
    assert(m2 == wr(m1, b, a0.pos, nw));
    assert(self.outer.trits.val(mem@) =~= splice(s0.outer.trits.val(m0), a0.pos, nw));
    assert forall|i: int| 0 <= i < 486 implies #[trigger] self.outer.trits.val(mem@)[i] < 3 by {
        if !(a0.pos <= i < a0.pos + n) { assert(s0.outer.trits.val(m0)[i] < 3); } else { let j = i - a0.pos; assert(a0.w[i] == s0.outer.trits.val(m0)[i]); assert(a0.w[i] < 3); assert(vx[j] < 3); lemma_op(Op::Decr, vx[j], a0.w[i]); assert(nw[j] < 3); }
    }
    assert(self.sp(mem@).w =~= splice(a0.w, a0.pos, nw));
    lemma_bulk(Op::Decr, a0, vx, n as int);
    assert(vx.skip(n as int) =~= v.skip(k + n));
    lemma_frame(h, b, y.b(), y.o(), done, m0[b], c, m2[b]);
    assert(m2 =~= m1.insert(b, m2[b]));
    assert(m1.insert(b, m2[b]) == wr(y.put(h, done).insert(b, m0[b]), y.b(), y.o() + done.len(), c).insert(b, m2[b]));
    assert(m2 =~= y.put(h, done + c).insert(b, m2[b]));
}
//@hint loop 0 end
proof {
    assert((done + c) + sp_dec(self.sp(mem@), v.skip(k + n)) =~= done + (c + sp_dec(self.sp(mem@), v.skip(k + n))));
    done = done + c;
    assert(mem@ =~= y.put(h, done).insert(b, mem@[b]));
}
//@hint exit
proof { assert(v.skip(v.len() as int) =~= Seq::<u8>::empty()); assert(done =~= all); }
//@fn Spongos::squeeze_trits mem=rw props=C02
    requires old(self).inv(old(mem)@), n <= MAXSZ,
    ensures final(self).inv(final(mem)@), final(self).same(*old(self)), r.fresh(old(mem)@), r.n == n, final(mem)@[old(self).b()].len() == 486,
        final(mem)@ == old(mem)@.insert(r.b(), sp_sqout(old(self).sp(old(mem)@), n as int)).insert(old(self).b(), final(mem)@[old(self).b()]),
        final(self).sp(final(mem)@) == sp_squeeze(old(self).sp(old(mem)@), n as int),
//@hint before squeeze 0
let ghost h1 = mem@;
proof { assert(self.sp(h1) == self.sp(old(mem)@)); }
//@hint exit
proof {
    let v = sp_sqout(old(self).sp(old(mem)@), n as int);
    lemma_outs_len(Op::Squeeze, old(self).sp(old(mem)@), zeros(n as int));
    let yb = tail__.b();
    assert(wr(h1, yb, 0, v)[yb] =~= v);
    assert(mem@ =~= old(mem)@.insert(yb, v).insert(self.b(), mem@[self.b()]));
}
//@fn Spongos::squeeze_eq_trits mem=rw props=C02
    requires old(self).inv(old(mem)@), y.inv(old(mem)@), y.b() != old(self).b(),
    ensures final(self).inv(final(mem)@), final(self).same(*old(self)), upd(old(mem)@, final(mem)@, old(self).b()),
        r == (sp_sqout(old(self).sp(old(mem)@), y.n as int) == y.val(old(mem)@)),
        final(self).sp(final(mem)@) == sp_squeeze(old(self).sp(old(mem)@), y.n as int),
//@hint entry
proof { assert(y.slice_spec().val(mem@) =~= y.val(mem@)); }
//@fn Spongos::encr_trits mem=rw props=C01,C02
    requires old(self).inv(old(mem)@), x.ok(old(mem)@), x.b() != old(self).b(),
    ensures final(self).inv(final(mem)@), final(self).same(*old(self)), r.fresh(old(mem)@), r.n == x.n, final(mem)@[old(self).b()].len() == 486,
        final(mem)@ == old(mem)@.insert(r.b(), sp_enc(old(self).sp(old(mem)@), x.val(old(mem)@))).insert(old(self).b(), final(mem)@[old(self).b()]),
        final(self).sp(final(mem)@) == sp_encr(old(self).sp(old(mem)@), x.val(old(mem)@)),
//@hint before encr 0
let ghost h1 = mem@;
proof { assert(self.sp(h1) == self.sp(old(mem)@)); assert(x.slice_spec().val(h1) =~= x.val(old(mem)@)); assert(self.inv(h1)); }
//@hint exit
proof {
    let v = sp_enc(old(self).sp(old(mem)@), x.val(old(mem)@));
    lemma_outs_len(Op::Encr, old(self).sp(old(mem)@), x.val(old(mem)@));
    let yb = tail__.b();
    assert(wr(h1, yb, 0, v)[yb] =~= v);
    assert(mem@ =~= old(mem)@.insert(yb, v).insert(self.b(), mem@[self.b()]));
}
//@fn Spongos::encr_mut_trits mem=rw props=C01,C02
    requires old(self).inv(old(mem)@), old(t).ok(old(mem)@), old(t).b() != old(self).b(),
    ensures final(self).inv(final(mem)@), final(self).same(*old(self)), *final(t) == *old(t), final(mem)@[old(self).b()].len() == 486,
        final(mem)@ == old(mem)@.insert(old(t).b(), sp_enc(old(self).sp(old(mem)@), old(t).val(old(mem)@))).insert(old(self).b(), final(mem)@[old(self).b()]),
        final(self).sp(final(mem)@) == sp_encr(old(self).sp(old(mem)@), old(t).val(old(mem)@)),
//@hint entry
let ghost h1 = mem@;
proof { assert(t.slice_spec().val(h1) =~= t.val(h1)); }
//@hint exit
proof {
    let v = sp_enc(old(self).sp(h1), old(t).val(h1));
    lemma_outs_len(Op::Encr, old(self).sp(h1), old(t).val(h1));
    let yb = t.b();
    assert(wr(h1, yb, 0, v)[yb] =~= v);
    assert(mem@ =~= h1.insert(yb, v).insert(self.b(), mem@[self.b()]));
}
//@fn Spongos::decr_trits mem=rw props=C01,C02
    requires old(self).inv(old(mem)@), x.ok(old(mem)@), x.b() != old(self).b(),
    ensures final(self).inv(final(mem)@), final(self).same(*old(self)), r.fresh(old(mem)@), r.n == x.n, final(mem)@[old(self).b()].len() == 486,
        final(mem)@ == old(mem)@.insert(r.b(), sp_dec(old(self).sp(old(mem)@), x.val(old(mem)@))).insert(old(self).b(), final(mem)@[old(self).b()]),
        final(self).sp(final(mem)@) == sp_decr(old(self).sp(old(mem)@), x.val(old(mem)@)),
//@hint before decr 0
let ghost h1 = mem@;
proof { assert(self.sp(h1) == self.sp(old(mem)@)); assert(x.slice_spec().val(h1) =~= x.val(old(mem)@)); assert(self.inv(h1)); }
//@hint exit
proof {
    let v = sp_dec(old(self).sp(old(mem)@), x.val(old(mem)@));
    lemma_outs_len(Op::Decr, old(self).sp(old(mem)@), x.val(old(mem)@));
    let yb = tail__.b();
    assert(wr(h1, yb, 0, v)[yb] =~= v);
    assert(mem@ =~= old(mem)@.insert(yb, v).insert(self.b(), mem@[self.b()]));
}
//@fn Spongos::decr_mut_trits mem=rw props=C01,C02
    requires old(self).inv(old(mem)@), old(t).ok(old(mem)@), old(t).b() != old(self).b(),
    ensures final(self).inv(final(mem)@), final(self).same(*old(self)), *final(t) == *old(t), final(mem)@[old(self).b()].len() == 486,
        final(mem)@ == old(mem)@.insert(old(t).b(), sp_dec(old(self).sp(old(mem)@), old(t).val(old(mem)@))).insert(old(self).b(), final(mem)@[old(self).b()]),
        final(self).sp(final(mem)@) == sp_decr(old(self).sp(old(mem)@), old(t).val(old(mem)@)),
//@hint entry
let ghost h1 = mem@;
proof { assert(t.slice_spec().val(h1) =~= t.val(h1)); }
//@hint exit
proof {
    let v = sp_dec(old(self).sp(h1), old(t).val(h1));
    lemma_outs_len(Op::Decr, old(self).sp(h1), old(t).val(h1));
    let yb = t.b();
    assert(wr(h1, yb, 0, v)[yb] =~= v);
    assert(mem@ =~= h1.insert(yb, v).insert(self.b(), mem@[self.b()]));
}
//@fn Spongos::fork_at mem=rw props=C02
    requires self.inv(old(mem)@),
    ensures final(fork).inv(final(mem)@), final(fork).sp(final(mem)@) == self.sp(old(mem)@), !old(mem)@.dom().contains(final(fork).b()),
        final(mem)@ == old(mem)@.insert(final(fork).b(), old(mem)@[self.b()]),
//@hint exit
proof { assert(fork.outer.trits.val(mem@) =~= self.outer.trits.val(old(mem)@)); assert(fork.sp(mem@).w =~= self.sp(old(mem)@).w); }
//@fn Spongos::fork mem=rw props=C02
    requires self.inv(old(mem)@),
    ensures r.inv(final(mem)@), r.sp(final(mem)@) == self.sp(old(mem)@), !old(mem)@.dom().contains(r.b()),
        final(mem)@ == old(mem)@.insert(r.b(), old(mem)@[self.b()]),
//@hint exit
proof { assert(tail__.outer.trits.val(mem@) =~= self.outer.trits.val(old(mem)@)); assert(tail__.sp(mem@).w =~= self.sp(old(mem)@).w); }
//@fn Spongos::join mem=rw props=C02
    requires old(self).inv(old(mem)@), old(joinee).inv(old(mem)@), old(self).b() != old(joinee).b(),
    ensures final(self).inv(final(mem)@), final(self).same(*old(self)), final(joinee).inv(final(mem)@), final(joinee).same(*old(joinee)),
        extends2(old(mem)@, final(mem)@, old(self).b(), old(joinee).b()),
        final(self).sp(final(mem)@) == sp_join(old(self).sp(old(mem)@), old(joinee).sp(old(mem)@)),
        final(joinee).sp(final(mem)@) == sp_squeeze(old(joinee).sp(old(mem)@), 243),
//@hint before squeeze 0
let ghost h1 = mem@;
proof { assert(joinee.sp(h1) == joinee.sp(old(mem)@)); assert(self.inv(h1) && joinee.inv(h1)); assert(self.sp(h1) == self.sp(old(mem)@)); }
//@hint before absorb 0
let ghost h2 = mem@;
let ghost v = sp_sqout(old(joinee).sp(old(mem)@), 243);
proof {
    lemma_sp_ok(*old(joinee), old(mem)@);
    lemma_zeros_ok(243);
    lemma_run_ok(Op::Squeeze, old(joinee).sp(old(mem)@), zeros(243));
    assert(x.slice_spec().val(h2) =~= v);
    assert(self.outer.trits.val(h2) =~= self.outer.trits.val(h1));
    assert(self.sp(h2) == self.sp(h1));
}
//@hint exit
proof { assert(joinee.sp(mem@) == joinee.sp(h2)); }
//@fn init mem=rw props=C02
    ensures r.inv(final(mem)@), !old(mem)@.dom().contains(r.b()), final(mem)@ == old(mem)@.insert(r.b(), zeros(486)),
        r.sp(final(mem)@) == sp0(),
//@fn hash_data mem=rw props=C20
    requires x.ok(old(mem)@), y.inv(old(mem)@),
    ensures extends_but(old(mem)@, final(mem)@, y.b()), final(mem)@[y.b()] == y.put(old(mem)@, sp_hash(x.val(old(mem)@), y.len()))[y.b()],
//@hint before absorb 0
let ghost h1 = mem@;
proof { assert(x.val(h1) =~= x.val(old(mem)@)); }
//@hint before squeeze 0
let ghost h2 = mem@;
//@hint exit
proof {
    let v = sp_hash(x.val(old(mem)@), y.len());
    assert(y.put(h2, v)[y.b()] =~= y.put(old(mem)@, v)[y.b()]);
}
//@fn hash_datas mem=rw props=C20
    requires forall|i: int| 0 <= i < xs.len() ==> (#[trigger] xs@[i]).ok(old(mem)@), y.inv(old(mem)@),
    ensures extends_but(old(mem)@, final(mem)@, y.b()), final(mem)@[y.b()] == y.put(old(mem)@, sp_hash(cat(vals(xs@, old(mem)@)), y.len()))[y.b()],
//@hint let s 0
let ghost h = old(mem)@;
let ghost vs = vals(xs@, h);
proof { assert(vs.take(0) =~= Seq::<Seq<u8>>::empty()); assert(cat(vs.take(0)) =~= Seq::<u8>::empty()); }
//@loop 0
    invariant seq0@ == xs@, end0 == xs.len(), it0 <= end0, h == old(mem)@, vs == vals(xs@, h), s.inv(mem@), !h.dom().contains(s.b()), extends(h, mem@),
        forall|i: int| 0 <= i < xs.len() ==> (#[trigger] xs@[i]).ok(h), y.inv(h),
        s.sp(mem@) == sp_absorb(sp0(), cat(vs.take(it0 as int))),
    decreases end0 - it0,
//@hint loop 0 start
proof {
    let k = it0 - 1;
    assert(xs@[k].ok(h));
    assert(xs@[k].val(mem@) =~= vs[k]);
    assert(vs.take(it0 as int).drop_last() =~= vs.take(k));
    assert(vs.take(it0 as int).last() == vs[k]);
    lemma_cat(Op::Absorb, sp0(), cat(vs.take(k)), vs[k]);
}
//@hint loop 0 post
proof { assert(vs.take(xs.len() as int) =~= vs); }
//@hint before squeeze 0
let ghost h2 = mem@;
//@hint exit
proof {
    let v = sp_hash(cat(vs), y.len());
    assert(y.put(h2, v)[y.b()] =~= y.put(h, v)[y.b()]);
}
//@postlude
pub open spec fn vals(xs: Seq<TritSliceT>, h: Heap) -> Seq<Seq<u8>> { Seq::new(xs.len(), |i: int| xs[i].val(h)) }
/// every allocation of `h1` except `b` is kept
pub open spec fn extends_but(h1: Heap, h2: Heap, b: int) -> bool {
    forall|c: int| #[trigger] h1.dom().contains(c) ==> h2.dom().contains(c) && (c != b ==> h2[c] == h1[c])
}
pub open spec fn extends2(h1: Heap, h2: Heap, b1: int, b2: int) -> bool {
    forall|c: int| #[trigger] h1.dom().contains(c) ==> h2.dom().contains(c) && (c != b1 && c != b2 ==> h2[c] == h1[c])
}
pub proof fn lemma_ext_fresh(g: Heap, h1: Heap, h2: Heap, b: int)
    requires extends(g, h1), !g.dom().contains(b), extends_but(h1, h2, b),
    ensures extends(g, h2),
{ assert forall|c: int| #[trigger] g.dom().contains(c) implies h2.dom().contains(c) && h2[c] == g[c] by { assert(h1.dom().contains(c)); } }
pub proof fn lemma_ext_but(g: Heap, h1: Heap, h2: Heap, b: int)
    requires extends(g, h1) || extends_but(g, h1, b), extends(h1, h2) || extends_but(h1, h2, b),
    ensures extends_but(g, h2, b),
{ assert forall|c: int| #[trigger] g.dom().contains(c) implies h2.dom().contains(c) && (c != b ==> h2[c] == g[c]) by { assert(h1.dom().contains(c)); } }
/// what a buffer holds after a whole slice of it was written
pub proof fn lemma_put_val(y: TritSliceMutT, h1: Heap, h2: Heap, v: Seq<u8>)
    requires y.inv(h1), h2.dom().contains(y.b()), h2[y.b()] == y.put(h1, v)[y.b()], v.len() == y.len(),
    ensures y.inv(h2), y.val(h2) == v, h2[y.b()].len() == h1[y.b()].len(), y.len() == h1[y.b()].len() ==> h2[y.b()] == v,
{ assert(y.val(h2) =~= v); if y.len() == h1[y.b()].len() { assert(h2[y.b()] =~= v); } }
proof fn lemma_take_split(a: Seq<u8>, b: Seq<u8>, k: int, n: int)
    requires 0 <= k, 0 <= n, k + n <= a.len(), a.len() == b.len(),
    ensures (a.take(k + n) == b.take(k + n)) == (a.take(k) == b.take(k) && a.subrange(k, k + n) == b.subrange(k, k + n)),
{
    assert(a.take(k + n) =~= a.take(k) + a.subrange(k, k + n));
    assert(b.take(k + n) =~= b.take(k) + b.subrange(k, k + n));
    if a.take(k + n) == b.take(k + n) {
        assert(a.take(k) =~= a.take(k + n).take(k));
        assert(b.take(k) =~= b.take(k + n).take(k));
        assert(a.subrange(k, k + n) =~= a.take(k + n).skip(k));
        assert(b.subrange(k, k + n) =~= b.take(k + n).skip(k));
    }
}
proof fn lemma_tail_ok(s: Spongos, h: Heap)
    requires s.inv(h),
    ensures s.outer.slice_spec().inv(h), is_trits(s.outer.slice_spec().val(h)), is_state(s.sp(h).w),
{
    let v = s.outer.slice_spec().val(h);
    assert forall|i: int| 0 <= i < v.len() implies #[trigger] v[i] < 3 by { assert(s.outer.trits.val(h)[s.outer.pos + i] < 3); }
    lemma_sp_ok(s, h);
}
pub proof fn lemma_sp_ok(s: Spongos, h: Heap)
    requires s.inv(h),
    ensures sp_ok(s.sp(h)),
{
    lemma_view_state(s.s);
    let w = s.sp(h).w;
    assert forall|i: int| 0 <= i < 729 implies #[trigger] w[i] < 3 by { if i < 486 { assert(s.outer.trits.val(h)[i] < 3); } else { assert(s.s@[i] < 3); } }
}
//@end

//@module mss::mt
//@file mss/mt.rs
//@deps mem
//@mem none
//@bound H TNode
//@prelude
use crate::mem::*;

/// 2^d
pub open spec fn p2(d: int) -> int decreases d { if d <= 0 { 1 } else { 2 * p2(d - 1) } }
pub proof fn lemma_p2(d: int) ensures p2(d) >= 1, d > 0 ==> p2(d) == 2 * p2(d - 1), d > 0 ==> p2(d) >= 2, decreases d { if d > 0 { lemma_p2(d - 1); } }
pub proof fn lemma_p2_mono(a: int, b: int)
    requires 0 <= a <= b,
    ensures p2(a) <= p2(b), p2(a) >= 1, a < b ==> 2 * p2(a) <= p2(b),
    decreases b - a,
{ lemma_p2(a); lemma_p2(b); if a < b { lemma_p2_mono(a, b - 1); } }
pub proof fn lemma_shl(d: usize)
    requires d < 63,
    ensures (1usize << d) == p2(d as int), p2(d as int) <= 0x4000_0000_0000_0000, p2(d as int) >= 1,
    decreases d,
{
    if d > 0 {
        let e = (d - 1) as usize;
        lemma_shl(e);
        assert((1usize << d) == 2 * (1usize << e)) by(bit_vector) requires e < 62, d == (e + 1) as usize;
    } else { assert((1usize << 0usize) == 1) by(bit_vector); }
    lemma_p2_mono(d as int, 62);
    assert(p2(62) == 0x4000_0000_0000_0000) by(compute);
}
pub proof fn lemma_div2(a: int, k: int)
    requires a >= 0, k >= 0,
    ensures (a / p2(k)) / 2 == a / p2(k + 1), a / p2(k) >= 0, a < p2(k) ==> a / p2(k) == 0,
{
    lemma_p2(k); lemma_p2(k + 1);
    vstd::arithmetic::div_mod::lemma_div_denominator(a, p2(k), 2);
    assert(p2(k) * 2 == p2(k + 1));
    vstd::arithmetic::div_mod::lemma_div_pos_is_pos(a, p2(k));
    if a < p2(k) { vstd::arithmetic::div_mod::lemma_basic_div(a, p2(k)); }
}
/// a < 2^d ==> a / 2^k < 2^(d-k)
pub proof fn lemma_div_lt(a: int, d: int, k: int)
    requires 0 <= a < p2(d), 0 <= k <= d,
    ensures 0 <= a / p2(k) < p2(d - k),
    decreases k,
{
    lemma_p2(k); lemma_p2(d - k);
    if k == 0 { assert(p2(0) == 1); assert(a / 1 == a); } else {
        lemma_div_lt(a, d, k - 1);
        lemma_div2(a, k - 1);
        assert(p2(d - k + 1) == 2 * p2(d - k)) by { lemma_p2(d - k + 1); }
    }
}

/// A hash value stored in a tree: a value of type `V`, possibly kept on the heap.
pub trait TNode: Sized {
    type V;
    spec fn nok(&self, h: Heap) -> bool;
    spec fn nv(&self, h: Heap) -> Self::V;
    /// its memory is not part of the heap
    spec fn nfresh(&self, h: Heap) -> bool;
    proof fn lemma_nfresh(&self, h1: Heap, h2: Heap)
        requires self.nfresh(h2), extends(h1, h2),
        ensures self.nfresh(h1);
    proof fn lemma_nframe(&self, h1: Heap, h2: Heap)
        requires self.nok(h1), extends(h1, h2),
        ensures self.nok(h2), self.nv(h2) == self.nv(h1);
    fn clone(&self, mem: &mut Mem) -> (r: Self)
        requires self.nok(old(mem)@),
        ensures extends(old(mem)@, final(mem)@), r.nok(final(mem)@), r.nv(final(mem)@) == self.nv(old(mem)@), r.nfresh(old(mem)@);
    fn partial_eq(&self, other: &Self, mem: &Mem) -> (r: bool)
        requires self.nok(mem@), other.nok(mem@),
        ensures r == (self.nv(mem@) == other.nv(mem@));
}
pub open spec fn all_ok<H: TNode>(s: Seq<H>, h: Heap) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).nok(h) }
pub open spec fn all_fresh<H: TNode>(s: Seq<H>, h: Heap) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).nfresh(h) }
pub open spec fn nvs<H: TNode>(s: Seq<H>, h: Heap) -> Seq<H::V> { Seq::new(s.len(), |i: int| s[i].nv(h)) }
pub proof fn lemma_frame<H: TNode>(s: Seq<H>, h1: Heap, h2: Heap)
    requires all_ok(s, h1), extends(h1, h2),
    ensures all_ok(s, h2), nvs(s, h2) == nvs(s, h1), forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).nv(h2) == s[i].nv(h1),
{
    assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).nok(h2) && s[i].nv(h2) == s[i].nv(h1) by { s[i].lemma_nframe(h1, h2); }
    assert(nvs(s, h2) =~= nvs(s, h1));
}
pub proof fn lemma_ext_trans(a: Heap, b: Heap, c: Heap)
    requires extends(a, b), extends(b, c),
    ensures extends(a, c),
{ assert forall|x: int| #[trigger] a.dom().contains(x) implies c.dom().contains(x) && c[x] == a[x] by { assert(b.dom().contains(x)); } }

/// The number of leaves is limited by `glim`.
pub trait GenLeaf<H: TNode> {
    spec fn gok(&self, h: Heap) -> bool;
    spec fn glim(&self) -> int;
    spec fn leaves(&self, h: Heap) -> spec_fn(int) -> H::V;
    proof fn lemma_gframe(&self, h1: Heap, h2: Heap)
        requires self.gok(h1), extends(h1, h2),
        ensures self.gok(h2), self.leaves(h2) == self.leaves(h1);
    fn gen_leaf(&self, idx: Idx, mem: &mut Mem) -> (r: H)
        requires self.gok(old(mem)@), idx < self.glim(),
        ensures extends(old(mem)@, final(mem)@), r.nok(final(mem)@), r.nv(final(mem)@) == (self.leaves(old(mem)@))(idx as int);
}
pub trait MergeNodes<H: TNode> {
    spec fn merged(&self) -> spec_fn(H::V, H::V) -> H::V;
    fn merge_nodes(&self, h0: &H, h1: &H, mem: &mut Mem) -> (r: H)
        requires h0.nok(old(mem)@), h1.nok(old(mem)@),
        ensures extends(old(mem)@, final(mem)@), r.nok(final(mem)@), r.nv(final(mem)@) == (self.merged())(h0.nv(old(mem)@), h1.nv(old(mem)@));
}

/// `i`-th node of the level `d` (leaves are at the level 0) of the complete binary hash tree over the leaves `lf`.
pub open spec fn tn<V>(lf: spec_fn(int) -> V, mg: spec_fn(V, V) -> V, d: int, i: int) -> V decreases d {
    if d <= 0 { lf(i) } else { mg(tn(lf, mg, d - 1, 2 * i), tn(lf, mg, d - 1, 2 * i + 1)) }
}
pub open spec fn sib(i: int) -> int { if i % 2 == 0 { i + 1 } else { i - 1 } }
/// the value after merging with the first `k` nodes of an authentication path of the leaf number `skn`
pub open spec fn foldk<V>(mg: spec_fn(V, V) -> V, s: Seq<V>, skn: int, x: V, k: int) -> V decreases k {
    if k <= 0 { x } else {
        let y = foldk(mg, s, skn, x, k - 1);
        if (skn / p2(k - 1)) % 2 == 0 { mg(y, s[k - 1]) } else { mg(s[k - 1], y) }
    }
}
/// an authentication path: one sibling per level
pub open spec fn is_path<V>(lf: spec_fn(int) -> V, mg: spec_fn(V, V) -> V, s: Seq<V>, skn: int) -> bool {
    forall|j: int| 0 <= j < s.len() ==> #[trigger] s[j] == tn(lf, mg, j, sib(skn / p2(j)))
}
/// C14: an authentication path leads from its leaf to the root
pub proof fn lemma_fold_path<V>(lf: spec_fn(int) -> V, mg: spec_fn(V, V) -> V, s: Seq<V>, skn: int, k: int)
    requires is_path(lf, mg, s, skn), 0 <= skn < p2(s.len() as int), 0 <= k <= s.len(),
    ensures foldk(mg, s, skn, lf(skn), k) == tn(lf, mg, k, skn / p2(k)), k == s.len() ==> skn / p2(k) == 0,
    decreases k,
{
    lemma_div2(skn, k);
    if k == 0 { assert(p2(0) == 1); assert(skn / 1 == skn); } else {
        lemma_fold_path(lf, mg, s, skn, k - 1);
        lemma_div2(skn, k - 1);
        let a = skn / p2(k - 1);
        assert(s[k - 1] == tn(lf, mg, k - 1, sib(a)));
        assert(a / 2 == skn / p2(k));
        assert(2 * (a / 2) == if a % 2 == 0 { a } else { a - 1 });
    }
}
/// C14: only the path nodes and the leaf number matter
pub proof fn lemma_foldk_ext<V>(mg: spec_fn(V, V) -> V, s: Seq<V>, t: Seq<V>, skn: int, x: V, k: int)
    requires 0 <= k <= s.len(), k <= t.len(), s.take(k) == t.take(k),
    ensures foldk(mg, s, skn, x, k) == foldk(mg, t, skn, x, k),
    decreases k,
{
    if k > 0 {
        assert(s.take(k - 1) =~= s.take(k).take(k - 1));
        assert(t.take(k - 1) =~= t.take(k).take(k - 1));
        lemma_foldk_ext(mg, s, t, skn, x, k - 1);
        assert(s.take(k)[k - 1] == s[k - 1]);
        assert(t.take(k)[k - 1] == t[k - 1]);
    }
}

// Expansion of the derived Clone/PartialEq of vectors of nodes: one value at a time.
pub trait VecNodes<H: TNode> {
    spec fn nodes(&self) -> Seq<H>;
    fn clone(&self, mem: &mut Mem) -> (r: Vec<H>)
        requires all_ok(self.nodes(), old(mem)@),
        ensures extends(old(mem)@, final(mem)@), r@.len() == self.nodes().len(), all_fresh(r@, old(mem)@), all_ok(r@, final(mem)@), nvs(r@, final(mem)@) == nvs(self.nodes(), old(mem)@);
    fn partial_eq(&self, other: &Vec<H>, mem: &Mem) -> (r: bool)
        requires all_ok(self.nodes(), mem@), all_ok(other@, mem@),
        ensures r == (nvs(self.nodes(), mem@) == nvs(other@, mem@));
}
impl<H: TNode> VecNodes<H> for Vec<H> {
    open spec fn nodes(&self) -> Seq<H> { self@ }
    fn clone(&self, mem: &mut Mem) -> (r: Vec<H>) {
        let mut r: Vec<H> = Vec::new();
        let mut i: usize = 0;
        while i < self.len()
            invariant i <= self@.len(), r@.len() == i, extends(old(mem)@, mem@), all_ok(self@, old(mem)@), all_ok(r@, mem@), all_fresh(r@, old(mem)@),
                forall|j: int| 0 <= j < i ==> (#[trigger] r@[j]).nv(mem@) == self@[j].nv(old(mem)@),
            decreases self@.len() - i,
        {
            let ghost m0 = mem@;
            proof { lemma_frame(self@, old(mem)@, m0); }
            let x = self[i].clone(mem);
            proof { lemma_frame(r@, m0, mem@); lemma_ext_trans(old(mem)@, m0, mem@); x.lemma_nfresh(old(mem)@, m0); }
            r.push(x);
            i = i + 1;
        }
        proof { assert(nvs(r@, mem@) =~= nvs(self@, old(mem)@)); }
        r
    }
    fn partial_eq(&self, other: &Vec<H>, mem: &Mem) -> (r: bool) {
        let ghost (a, b) = (nvs(self@, mem@), nvs(other@, mem@));
        if self.len() != other.len() { assert(a.len() != b.len()); return false; }
        let mut i: usize = 0;
        while i < self.len()
            invariant i <= self@.len(), self@.len() == other@.len(), a == nvs(self@, mem@), b == nvs(other@, mem@), all_ok(self@, mem@), all_ok(other@, mem@),
                forall|j: int| 0 <= j < i ==> a[j] == b[j],
            decreases self@.len() - i,
        {
            if !self[i].partial_eq(&other[i], mem) { assert(a[i as int] != b[i as int]); return false; }
            i = i + 1;
        }
        proof { assert(a =~= b); }
        true
    }
}

impl<H: TNode> APath<H> {
    pub open spec fn pok(self, h: Heap) -> bool { all_ok(self.nodes@, h) }
    pub open spec fn pv(self, h: Heap) -> Seq<H::V> { nvs(self.nodes@, h) }
}

/// The contract both tree implementations are proved against and the signature scheme relies on.
pub trait TraversableMerkleTree<H: TNode>: Sized {
    /// the tree over the leaves `lf` merged with `mg`
    spec fn tinv(&self, h: Heap, lf: spec_fn(int) -> H::V, mg: spec_fn(H::V, H::V) -> H::V) -> bool;
    spec fn theight(&self) -> int;
    spec fn tskn(&self) -> int;
    spec fn troot(&self) -> H;
    proof fn lemma_tinv(&self, h: Heap, lf: spec_fn(int) -> H::V, mg: spec_fn(H::V, H::V) -> H::V)
        requires self.tinv(h, lf, mg),
        ensures 0 <= self.theight() <= 60, 0 <= self.tskn() <= p2(self.theight()), self.troot().nok(h), self.troot().nv(h) == tn(lf, mg, self.theight(), 0);
    proof fn lemma_tframe(&self, h1: Heap, h2: Heap, lf: spec_fn(int) -> H::V, mg: spec_fn(H::V, H::V) -> H::V)
        requires self.tinv(h1, lf, mg), extends(h1, h2),
        ensures self.tinv(h2, lf, mg);
    fn gen<G: GenLeaf<H>, M: MergeNodes<H>>(g: &G, m: &M, height: Height, mem: &mut Mem) -> (r: Self)
        requires g.gok(old(mem)@), height <= 60, p2(height as int) <= g.glim(),
        ensures extends(old(mem)@, final(mem)@), r.tinv(final(mem)@, g.leaves(old(mem)@), m.merged()), r.theight() == height, r.tskn() == 0;
    fn next<G: GenLeaf<H>, M: MergeNodes<H>>(&mut self, g: &G, m: &M, mem: &mut Mem) -> (r: bool)
        requires g.gok(old(mem)@), old(self).tinv(old(mem)@, g.leaves(old(mem)@), m.merged()), p2(old(self).theight()) <= g.glim(),
        ensures extends(old(mem)@, final(mem)@), final(self).tinv(final(mem)@, g.leaves(old(mem)@), m.merged()), final(self).theight() == old(self).theight(),
            final(self).tskn() == (if old(self).tskn() < p2(old(self).theight()) { old(self).tskn() + 1 } else { old(self).tskn() }),
            r == (final(self).tskn() < p2(old(self).theight()));
    fn root(&self) -> (r: &H)
        requires exists|h: Heap, lf: spec_fn(int) -> H::V, mg: spec_fn(H::V, H::V) -> H::V| #[trigger] self.tinv(h, lf, mg),
        ensures *r == self.troot();
    fn height(&self) -> (r: Height)
        ensures r == self.theight();
    fn skn(&self) -> (r: Idx)
        ensures r == self.tskn();
    fn apath(&self, mem: &mut Mem) -> (r: APath<H>)
        requires exists|lf: spec_fn(int) -> H::V, mg: spec_fn(H::V, H::V) -> H::V| #[trigger] self.tinv(old(mem)@, lf, mg), self.tskn() < p2(self.theight()),
        ensures extends(old(mem)@, final(mem)@), r.skn == self.tskn(), r.nodes@.len() == self.theight(), r.pok(final(mem)@), all_fresh(r.nodes@, old(mem)@),
            forall|lf: spec_fn(int) -> H::V, mg: spec_fn(H::V, H::V) -> H::V| #[trigger] self.tinv(old(mem)@, lf, mg) ==> is_path(lf, mg, r.pv(final(mem)@), self.tskn());
}
//@end
//@fn APath.Clone::clone mem=rw props=C14,C15
    requires self.pok(old(mem)@),
    ensures extends(old(mem)@, final(mem)@), r.pok(final(mem)@), r.pv(final(mem)@) == self.pv(old(mem)@), r.skn == self.skn, r.nodes@.len() == self.nodes@.len(), all_fresh(r.nodes@, old(mem)@),
//@ext TNode::clone rw
//@ext TNode::partial_eq ro
//@ext GenLeaf::gen_leaf rw
//@ext MergeNodes::merge_nodes rw
//@fn max_skn props=C14,C15
    requires d <= 62,
    ensures r == p2(d as int), r <= 0x4000_0000_0000_0000, r >= 1,
//@hint entry
proof { lemma_shl(d); }
//@fn tree_size props=C14,C15
    requires d <= 61,
    ensures r == p2(d + 1) - 1,
//@hint entry
proof { lemma_shl((d + 1) as usize); }
//@fn APath::new props=C14
    ensures r.skn == 0, r.nodes@ == Seq::<H>::empty(),
//@fn APath::skn props=C14
    ensures r == self.skn,
//@fn APath::push props=C14
    ensures final(self).skn == old(self).skn, final(self).nodes@ == old(self).nodes@.push(h),
//@fn APath::fold_mut mem=rw props=C14
    requires self.pok(old(mem)@), old(h).nok(old(mem)@),
    ensures extends(old(mem)@, final(mem)@), final(h).nok(final(mem)@),
        final(h).nv(final(mem)@) == foldk(m.merged(), self.pv(old(mem)@), self.skn as int, old(h).nv(old(mem)@), self.nodes@.len() as int),
        r == (self.skn as int / p2(self.nodes@.len() as int) == 0),
//@hint entry
let ghost m0 = mem@;
let ghost x0 = h.nv(mem@);
let ghost pv = self.pv(m0);
proof { assert(p2(0) == 1); }
//@loop 0
    invariant seq0@ == self.nodes@, end0 == self.nodes@.len(), it0 <= end0, m0 == old(mem)@, extends(m0, mem@), self.pok(m0), pv == self.pv(m0), h.nok(mem@),
        h.nv(mem@) == foldk(m.merged(), pv, self.skn as int, x0, it0 as int), skn == self.skn as int / p2(it0 as int),
    decreases end0 - it0,
//@hint loop 0 start
let ghost m1 = mem@;
proof { lemma_frame(self.nodes@, m0, m1); lemma_div2(self.skn as int, it0 - 1); assert(pv[it0 - 1] == n.nv(m1)); }
//@hint loop 0 end
proof { lemma_ext_trans(m0, m1, mem@); }
//@fn APath::fold mem=rw props=C14
    requires self.pok(old(mem)@), h.nok(old(mem)@), self.skn < p2(self.nodes@.len() as int),
    ensures extends(old(mem)@, final(mem)@), r.nok(final(mem)@),
        r.nv(final(mem)@) == foldk(m.merged(), self.pv(old(mem)@), self.skn as int, h.nv(old(mem)@), self.nodes@.len() as int),
//@hint let hh 0
let ghost m1 = mem@;
proof { lemma_frame(self.nodes@, old(mem)@, m1); lemma_div2(self.skn as int, self.nodes@.len() as int); }
//@hint after fold_mut 0
proof { lemma_ext_trans(old(mem)@, m1, mem@); }
//@fn APath.PartialEq::eq mem=ro rename=partial_eq cmp:trits=.nodes props=C15
    requires self.pok(mem@), other.pok(mem@),
    ensures r == (self.skn == other.skn && self.pv(mem@) == other.pv(mem@)),

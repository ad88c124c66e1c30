//@module mss::mtcomplete
//@file mss/mtcomplete.rs
//@deps mem mss::mt
//@mem none
//@bound H TNode
//@prelude
use crate::mem::*;
use crate::mss::mt::*;

/// position of the `i`-th node of the depth `e` (the root has the depth 0)
pub open spec fn pos(hh: int, e: int, i: int) -> int { p2(hh + 1) - p2(e + 1) + i }
/// all the nodes that are present are the nodes of the hash tree
pub open spec fn lin<H: TNode>(s: Seq<H>, h: Heap, hh: int, lf: spec_fn(int) -> H::V, mg: spec_fn(H::V, H::V) -> H::V) -> bool {
    &&& all_ok(s, h)
    &&& forall|e: int, i: int| 0 <= e <= hh && 0 <= i < p2(e) && #[trigger] pos(hh, e, i) < s.len() ==> s[pos(hh, e, i)].nv(h) == tn(lf, mg, hh - e, i)
}
pub proof fn lemma_pos(hh: int, e: int, i: int, d: int, j: int)
    requires 0 <= e <= hh, 0 <= i < p2(e), 0 <= d <= hh, 0 <= j < p2(d),
    ensures 0 <= pos(hh, e, i) < p2(hh + 1) - 1, pos(hh, e, i) == pos(hh, d, j) ==> e == d && i == j, e > d ==> pos(hh, e, i) < pos(hh, d, j),
{
    lemma_p2_mono(e + 1, hh + 1); lemma_p2_mono(d + 1, hh + 1); lemma_p2(e + 1); lemma_p2(d + 1);
    if e < d { lemma_p2_mono(e + 1, d); } else if d < e { lemma_p2_mono(d + 1, e); }
    lemma_p2(e);
}
/// adding the next node
pub proof fn lemma_lin_push<H: TNode>(s: Seq<H>, x: H, h: Heap, hh: int, d: int, j: int, lf: spec_fn(int) -> H::V, mg: spec_fn(H::V, H::V) -> H::V)
    requires lin(s, h, hh, lf, mg), 0 <= d <= hh, 0 <= j < p2(d), s.len() == pos(hh, d, j), x.nok(h), x.nv(h) == tn(lf, mg, hh - d, j),
    ensures lin(s.push(x), h, hh, lf, mg),
{
    let t = s.push(x);
    assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).nok(h) by { if i < s.len() { assert(s[i].nok(h)); } }
    assert forall|e: int, i: int| 0 <= e <= hh && 0 <= i < p2(e) && #[trigger] pos(hh, e, i) < t.len() implies t[pos(hh, e, i)].nv(h) == tn(lf, mg, hh - e, i) by {
        lemma_pos(hh, e, i, d, j);
    }
}
pub proof fn lemma_lin_frame<H: TNode>(s: Seq<H>, h1: Heap, h2: Heap, hh: int, lf: spec_fn(int) -> H::V, mg: spec_fn(H::V, H::V) -> H::V)
    requires lin(s, h1, hh, lf, mg), extends(h1, h2),
    ensures lin(s, h2, hh, lf, mg),
{
    lemma_frame(s, h1, h2);
    assert forall|e: int, i: int| 0 <= e <= hh && 0 <= i < p2(e) && #[trigger] pos(hh, e, i) < s.len() implies s[pos(hh, e, i)].nv(h2) == tn(lf, mg, hh - e, i) by {
        lemma_pos(hh, e, i, e, i);
    }
}
impl<H: TNode> MT<H> {
    pub open spec fn inv(&self, h: Heap, lf: spec_fn(int) -> H::V, mg: spec_fn(H::V, H::V) -> H::V) -> bool {
        &&& self.height <= 60
        &&& self.skn <= p2(self.height as int)
        &&& if self.skn < p2(self.height as int) {
                self.nodes@.len() == p2(self.height + 1) - 1 && lin(self.nodes@, h, self.height as int, lf, mg)
            } else {
                self.nodes@.len() == 1 && self.nodes@[0].nok(h) && self.nodes@[0].nv(h) == tn(lf, mg, self.height as int, 0)
            }
    }
    pub open spec fn mroot(&self) -> H { self.nodes@[self.nodes@.len() - 1] }
    pub proof fn lemma_inv(&self, h: Heap, lf: spec_fn(int) -> H::V, mg: spec_fn(H::V, H::V) -> H::V)
        requires self.inv(h, lf, mg),
        ensures self.nodes@.len() > 0, self.mroot().nok(h), self.mroot().nv(h) == tn(lf, mg, self.height as int, 0), all_ok(self.nodes@, h), p2(self.height as int) >= 1,
    {
        let hh = self.height as int;
        lemma_p2(hh + 1); lemma_p2(hh); lemma_p2(0); lemma_p2(1);
        if self.skn < p2(hh) { assert(self.nodes@[pos(hh, 0, 0)] == self.mroot()); }
    }
    pub proof fn lemma_inv_frame(&self, h1: Heap, h2: Heap, lf: spec_fn(int) -> H::V, mg: spec_fn(H::V, H::V) -> H::V)
        requires self.inv(h1, lf, mg), extends(h1, h2),
        ensures self.inv(h2, lf, mg),
    {
        self.lemma_inv(h1, lf, mg);
        if self.skn < p2(self.height as int) { lemma_lin_frame(self.nodes@, h1, h2, self.height as int, lf, mg); } else { lemma_frame(self.nodes@, h1, h2); }
    }
}
/// C14: the path of the current leaf folds that leaf to the root of the hash tree
pub proof fn lemma_auth<H: TNode>(t: MT<H>, h: Heap, p: Seq<H::V>, lf: spec_fn(int) -> H::V, mg: spec_fn(H::V, H::V) -> H::V)
    requires t.inv(h, lf, mg), is_path(lf, mg, p, t.skn as int), p.len() == t.height, t.skn < p2(t.height as int),
    ensures foldk(mg, p, t.skn as int, lf(t.skn as int), p.len() as int) == t.mroot().nv(h), t.skn as int / p2(p.len() as int) == 0,
{
    t.lemma_inv(h, lf, mg);
    lemma_fold_path(lf, mg, p, t.skn as int, p.len() as int);
    lemma_div2(t.skn as int, p.len() as int);
}
/// C15: what `store` gives is accepted by `load`, and the loaded tree is the same tree
pub proof fn lemma_store_load<H: TNode>(t: MT<H>, u: MT<H>, h: Heap, h2: Heap, lf: spec_fn(int) -> H::V, mg: spec_fn(H::V, H::V) -> H::V)
    requires t.inv(h, lf, mg), u.height == t.height, u.skn == t.skn, all_ok(u.nodes@, h2), nvs(u.nodes@, h2) == nvs(t.nodes@, h),
    ensures (t.skn < p2(t.height as int) && u.nodes@.len() == p2(t.height + 1) - 1) || (t.skn == p2(t.height as int) && u.nodes@.len() == 1),
        u.inv(h2, lf, mg),
{
    let hh = t.height as int;
    assert(nvs(u.nodes@, h2).len() == u.nodes@.len());
    assert(nvs(t.nodes@, h).len() == t.nodes@.len());
    assert(u.nodes@.len() == t.nodes@.len());
    if t.skn < p2(hh) {
        assert forall|e: int, i: int| 0 <= e <= hh && 0 <= i < p2(e) && #[trigger] pos(hh, e, i) < u.nodes@.len() implies u.nodes@[pos(hh, e, i)].nv(h2) == tn(lf, mg, hh - e, i) by {
            lemma_pos(hh, e, i, e, i);
            let k = pos(hh, e, i); assert(0 <= k < t.nodes@.len()); assert(nvs(u.nodes@, h2)[k] == u.nodes@[k].nv(h2)); assert(nvs(t.nodes@, h)[k] == t.nodes@[k].nv(h));
        }
    } else {
        assert(u.nodes@.len() == 1); assert(u.nodes@[0].nok(h2)); assert(nvs(u.nodes@, h2)[0] == u.nodes@[0].nv(h2)); assert(nvs(t.nodes@, h)[0] == t.nodes@[0].nv(h));
    }
}
//@end
//@postlude
impl<H: TNode> TraversableMerkleTree<H> for MT<H> {
    open spec fn tinv(&self, h: Heap, lf: spec_fn(int) -> H::V, mg: spec_fn(H::V, H::V) -> H::V) -> bool { self.inv(h, lf, mg) }
    open spec fn theight(&self) -> int { self.height as int }
    open spec fn tskn(&self) -> int { self.skn as int }
    open spec fn troot(&self) -> H { self.mroot() }
    proof fn lemma_tinv(&self, h: Heap, lf: spec_fn(int) -> H::V, mg: spec_fn(H::V, H::V) -> H::V) { self.lemma_inv(h, lf, mg); }
    proof fn lemma_tframe(&self, h1: Heap, h2: Heap, lf: spec_fn(int) -> H::V, mg: spec_fn(H::V, H::V) -> H::V) { self.lemma_inv_frame(h1, h2, lf, mg); }
    fn gen<G: GenLeaf<H>, M: MergeNodes<H>>(g: &G, m: &M, height: Height, mem: &mut Mem) -> (r: Self) { MT::<H>::gen(g, m, height, mem) }
    fn next<G: GenLeaf<H>, M: MergeNodes<H>>(&mut self, g: &G, m: &M, mem: &mut Mem) -> (r: bool) { MT::<H>::next(self, g, m, mem) }
    fn root(&self) -> (r: &H) { MT::<H>::root(self) }
    fn height(&self) -> (r: Height) { MT::<H>::height(self) }
    fn skn(&self) -> (r: Idx) { MT::<H>::skn(self) }
    fn apath(&self, mem: &mut Mem) -> (r: APath<H>) { MT::<H>::apath(self, mem) }
}
//@end
//@fn MT::gen_mt mem=rw props=C14
    requires g.gok(old(mem)@), old(self).height <= 60, p2(old(self).height as int) <= g.glim(), old(self).nodes@.len() == 0,
    ensures extends(old(mem)@, final(mem)@), final(self).height == old(self).height, final(self).skn == old(self).skn,
        final(self).nodes@.len() == p2(old(self).height + 1) - 1, lin(final(self).nodes@, final(mem)@, old(self).height as int, g.leaves(old(mem)@), m.merged()),
//@hint entry
let ghost m0 = mem@;
let ghost lf = g.leaves(m0);
let ghost mg = m.merged();
let ghost hh = self.height as int;
let ghost skn0 = self.skn;
proof {
    lemma_p2(hh); lemma_p2(hh + 1);
    assert forall|e: int, i: int| 0 <= e <= hh && 0 <= i < p2(e) implies #[trigger] pos(hh, e, i) >= 0 by { lemma_pos(hh, e, i, e, i); }
}
//@loop 0
    invariant it0 <= end0, end0 == p2(hh), hh == self.height, hh <= 60, self.skn == skn0, extends(m0, mem@), g.gok(m0), lf == g.leaves(m0), p2(hh) <= g.glim(),
        self.nodes@.len() == it0, lin(self.nodes@, mem@, hh, lf, mg), p2(hh + 1) == 2 * p2(hh),
    decreases end0 - it0,
//@hint loop 0 start
let ghost m1 = mem@;
let ghost s1 = self.nodes@;
proof { g.lemma_gframe(m0, m1); }
//@hint loop 0 end
proof {
    lemma_ext_trans(m0, m1, mem@);
    lemma_lin_frame(s1, m1, mem@, hh, lf, mg);
    lemma_lin_push(s1, self.nodes@.last(), mem@, hh, hh, i as int, lf, mg);
    assert(self.nodes@ =~= s1.push(self.nodes@.last()));
}
//@hint loop 0 post
proof { assert(pos(hh, hh, p2(hh)) == self.nodes@.len()); }
//@loop 1
    invariant end1 == 0, it1 <= hh, hh == self.height, hh <= 60, self.skn == skn0, extends(m0, mem@), mg == m.merged(),
        self.nodes@.len() == p2(hh + 1) - p2(it1 as int), lin(self.nodes@, mem@, hh, lf, mg),
    decreases it1,
//@hint loop 1 start
proof { lemma_p2(d + 1); lemma_p2(d as int); lemma_p2(d + 2); }
//@loop 2
    invariant it2 <= end2, end2 == p2(d as int), d < hh, hh == self.height, hh <= 60, self.skn == skn0, extends(m0, mem@), mg == m.merged(),
        p2(d + 1) == 2 * p2(d as int), p2(d + 2) == 4 * p2(d as int), self.nodes@.len() == pos(hh, d as int, it2 as int), lin(self.nodes@, mem@, hh, lf, mg),
    decreases end2 - it2,
//@hint loop 2 start
let ghost m1 = mem@;
let ghost s1 = self.nodes@;
proof {
    lemma_pos(hh, d + 1, 2 * i, d as int, i as int);
    lemma_pos(hh, d + 1, 2 * i + 1, d as int, i as int);
    lemma_p2_mono(d as int, 60); assert(p2(60) == 0x1000_0000_0000_0000) by(compute);
}
//@hint after merge_nodes 0
proof {
    lemma_ext_trans(m0, m1, mem@);
    lemma_lin_frame(s1, m1, mem@, hh, lf, mg);
    assert(*h0 == s1[pos(hh, d + 1, 2 * i)]);
    assert(*h1 == s1[pos(hh, d + 1, 2 * i + 1)]);
    lemma_lin_push(s1, h01, mem@, hh, d as int, i as int, lf, mg);
}
//@hint exit
proof { lemma_p2(0); }
//@fn MT::idx props=C14
    requires self.height <= 60, d <= self.height, i < p2(d as int),
    ensures r == pos(self.height as int, d as int, i as int),
//@hint entry
proof { lemma_p2_mono(d + 1, self.height + 1); lemma_p2_mono(self.height + 1, 61); assert(p2(61) == 0x2000_0000_0000_0000) by(compute); lemma_p2(d + 1); }
//@fn MT::node props=C14
    requires self.height <= 60, d <= self.height, i < p2(d as int), pos(self.height as int, d as int, i as int) < self.nodes@.len(),
    ensures *r == self.nodes@[pos(self.height as int, d as int, i as int)],
//@fn MT.TraversableMerkleTree::gen mem=rw props=C14
    requires g.gok(old(mem)@), height <= 60, p2(height as int) <= g.glim(),
    ensures extends(old(mem)@, final(mem)@), r.inv(final(mem)@, g.leaves(old(mem)@), m.merged()), r.height == height, r.skn == 0,
//@hint exit
proof { lemma_p2(height as int); }
//@fn MT.TraversableMerkleTree::next mem=rw props=C14
    requires exists|lf: spec_fn(int) -> H::V, mg: spec_fn(H::V, H::V) -> H::V| #[trigger] old(self).inv(old(mem)@, lf, mg),
    ensures extends(old(mem)@, final(mem)@), forall|lf: spec_fn(int) -> H::V, mg: spec_fn(H::V, H::V) -> H::V| #[trigger] old(self).inv(old(mem)@, lf, mg) ==> final(self).inv(final(mem)@, lf, mg),
        final(self).height == old(self).height, final(self).skn == (if old(self).skn < p2(old(self).height as int) { old(self).skn + 1 } else { old(self).skn as int }),
        r == (final(self).skn < p2(old(self).height as int)),
//@hint entry
let ghost s0 = *self;
proof {
    let (lf, mg) = choose|lf: spec_fn(int) -> H::V, mg: spec_fn(H::V, H::V) -> H::V| #[trigger] self.inv(mem@, lf, mg);
    self.lemma_inv(mem@, lf, mg);
}
//@hint exit
proof {
    assert(s0 == *old(self));
    assert forall|lf: spec_fn(int) -> H::V, mg: spec_fn(H::V, H::V) -> H::V| #[trigger] s0.inv(old(mem)@, lf, mg) implies self.inv(mem@, lf, mg) by { s0.lemma_inv(old(mem)@, lf, mg); }
}
//@fn MT.TraversableMerkleTree::root props=C14
    requires self.nodes@.len() > 0,
    ensures *r == self.mroot(),
//@fn MT.TraversableMerkleTree::height props=C14
    ensures r == self.height,
//@fn MT.TraversableMerkleTree::skn props=C14
    ensures r == self.skn,
//@fn MT.TraversableMerkleTree::apath mem=rw props=C14
    requires exists|lf: spec_fn(int) -> H::V, mg: spec_fn(H::V, H::V) -> H::V| #[trigger] self.inv(old(mem)@, lf, mg), self.skn < p2(self.height as int),
    ensures extends(old(mem)@, final(mem)@), r.skn == self.skn, r.nodes@.len() == self.height, r.pok(final(mem)@), all_fresh(r.nodes@, old(mem)@),
        forall|lf: spec_fn(int) -> H::V, mg: spec_fn(H::V, H::V) -> H::V| #[trigger] self.inv(old(mem)@, lf, mg) ==> is_path(lf, mg, r.pv(final(mem)@), self.skn as int),
//@hint entry
let ghost m0 = mem@;
let ghost hh = self.height as int;
let ghost nn = self.nodes@;
proof { lemma_div2(self.skn as int, 0); assert(p2(0) == 1); assert(self.skn as int / 1 == self.skn); }
//@loop 0
    invariant end0 == 0, it0 <= hh, hh == self.height, nn == self.nodes@, hh <= 60, m0 == old(mem)@, extends(m0, mem@), all_ok(nn, m0), self.skn < p2(hh), nn.len() == p2(hh + 1) - 1,
        ap.nodes@.len() == hh - it0, ap.pok(mem@), all_fresh(ap.nodes@, m0), i == self.skn as int / p2(hh - it0),
        forall|lf: spec_fn(int) -> H::V, mg: spec_fn(H::V, H::V) -> H::V| #[trigger] self.inv(m0, lf, mg) ==> is_path(lf, mg, ap.pv(mem@), self.skn as int),
    decreases it0,
//@hint loop 0 start
let ghost m1 = mem@;
let ghost a1 = ap.nodes@;
let ghost p1 = ap.pv(m1);
let ghost j = hh - 1 - d;
proof {
    lemma_div_lt(self.skn as int, hh, j);
    lemma_div2(self.skn as int, j);
    assert((i >> 1) == i / 2 && (i & 1) == i % 2) by(bit_vector);
    assert((i ^ 1) == sib(i as int)) by { if i % 2 == 0 { assert((i ^ 1) == i + 1) by(bit_vector) requires i % 2 == 0; } else { assert((i ^ 1) == i - 1) by(bit_vector) requires i % 2 == 1; } }
    lemma_p2(d + 1);
    lemma_pos(hh, d + 1, sib(i as int), d + 1, 0);
    assert(nn[pos(hh, d + 1, sib(i as int))].nok(m0));
    lemma_frame(nn, m0, m1);
}
//@hint loop 0 end
proof {
    lemma_ext_trans(m0, m1, mem@);
    lemma_frame(a1, m1, mem@);
    let x = ap.nodes@.last();
    x.lemma_nfresh(m0, m1);
    assert(ap.nodes@ =~= a1.push(x));
    let p2_ = ap.pv(mem@);
    assert(p2_ =~= p1.push(x.nv(mem@)));
    assert forall|lf: spec_fn(int) -> H::V, mg: spec_fn(H::V, H::V) -> H::V| #[trigger] self.inv(m0, lf, mg) implies is_path(lf, mg, p2_, self.skn as int) by {
        assert(is_path(lf, mg, p1, self.skn as int));
        assert forall|k: int| 0 <= k < p2_.len() implies #[trigger] p2_[k] == tn(lf, mg, k, sib(self.skn as int / p2(k))) by {
            if k < p1.len() { assert(p1[k] == p2_[k]); }
        }
    }
}
//@fn MT.TraversableMerkleTree::store mem=rw props=C15
    requires all_ok(self.nodes@, old(mem)@),
    ensures extends(old(mem)@, final(mem)@), r.0 == self.height, r.1 == self.skn, all_ok(r.2@, final(mem)@), nvs(r.2@, final(mem)@) == nvs(self.nodes@, old(mem)@),
//@fn MT.TraversableMerkleTree::load props=C15
    requires height <= 61,
    ensures r.is_some() <==> (skn < p2(height as int) && nodes@.len() == p2(height + 1) - 1) || (skn == p2(height as int) && nodes@.len() == 1),
        r.is_some() ==> r.unwrap().height == height && r.unwrap().skn == skn && r.unwrap().nodes@ == nodes@,
//@fn MT.PartialEq::eq mem=ro rename=partial_eq cmp:trits=.nodes props=C15
    requires all_ok(self.nodes@, mem@), all_ok(other.nodes@, mem@),
    ensures r == (self.height == other.height && self.skn == other.skn && nvs(self.nodes@, mem@) == nvs(other.nodes@, mem@)),

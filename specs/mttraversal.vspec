//@module mss::mttraversal
//@file mss/mttraversal.rs
//@deps mem mss::mt
//@mem none
//@bound H TNode
//@prelude
use vstd::std_specs::iter::IteratorSpec;
use crate::mem::*;
use crate::mss::mt::*;

// ---- shapes of the treehash stacks: sequences of node levels
/// the levels go down, only the two top nodes may be of the same level
pub open spec fn wfl(s: Seq<int>) -> bool {
    &&& forall|j: int| 0 <= j < s.len() ==> #[trigger] s[j] >= 0
    &&& forall|j: int| 0 <= j < s.len() - 1 ==> #[trigger] s[j] >= s[j + 1] && (j < s.len() - 2 ==> s[j] > s[j + 1])
}
pub open spec fn strict(s: Seq<int>) -> bool {
    &&& forall|j: int| 0 <= j < s.len() ==> #[trigger] s[j] >= 0
    &&& forall|j: int| 0 <= j < s.len() - 1 ==> #[trigger] s[j] > s[j + 1]
}
/// number of leaves covered
pub open spec fn sumw(s: Seq<int>) -> int decreases s.len() { if s.len() == 0 { 0 } else { sumw(s.drop_last()) + p2(s.last()) } }
/// number of steps made: every leaf added and every pair merged is a step
pub open spec fn swt(s: Seq<int>) -> int { 2 * sumw(s) - s.len() }

pub proof fn lemma_first(s: Seq<int>)
    requires s.len() > 0,
    ensures sumw(s) == p2(s[0]) + sumw(s.drop_first()),
    decreases s.len(),
{
    if s.len() == 1 {
        assert(s.drop_last() =~= Seq::<int>::empty());
        assert(s.drop_first() =~= Seq::<int>::empty());
    } else {
        lemma_first(s.drop_last());
        assert(s.drop_first().drop_last() =~= s.drop_last().drop_first());
        assert(s.drop_first().last() == s.last());
    }
}
pub proof fn lemma_push(s: Seq<int>, x: int)
    ensures sumw(s.push(x)) == sumw(s) + p2(x), swt(s.push(x)) == swt(s) + 2 * p2(x) - 1,
{ assert(s.push(x).drop_last() =~= s); }
pub proof fn lemma_take(s: Seq<int>, j: int)
    requires 0 <= j < s.len(),
    ensures sumw(s.take(j + 1)) == sumw(s.take(j)) + p2(s[j]),
{ assert(s.take(j + 1).drop_last() =~= s.take(j)); }
pub proof fn lemma_sum_ge(s: Seq<int>)
    ensures sumw(s) >= s.len(), s.len() > 0 ==> sumw(s) >= p2(s[0]) + s.len() - 1,
    decreases s.len(),
{
    if s.len() > 0 { lemma_p2(s.last()); lemma_sum_ge(s.drop_last()); if s.len() == 1 { assert(sumw(s.drop_last()) == 0); } }
}
pub proof fn lemma_upper(s: Seq<int>)
    requires wfl(s), s.len() > 0,
    ensures 2 * p2(s[0]) - 1 <= swt(s) <= 4 * p2(s[0]) - 2,
    decreases s.len(),
{
    let r = s.drop_first();
    lemma_first(s); lemma_p2(s[0]); lemma_sum_ge(r);
    if r.len() > 0 {
        assert(s[0] >= s[0int + 1]);
        assert forall|j: int| 0 <= j < r.len() implies #[trigger] r[j] >= 0 by { assert(s[j + 1] >= 0); }
        assert forall|j: int| 0 <= j < r.len() - 1 implies #[trigger] r[j] >= r[j + 1] && (j < r.len() - 2 ==> r[j] > r[j + 1]) by { assert(s[j + 1] >= s[j + 1 + 1]); }
        lemma_upper(r);
        if s[0] > s[1] { lemma_p2_mono(s[1], s[0]); } else {
            assert(s.len() == 2);
            assert(r =~= seq![s[1]]);
            assert(r.drop_last() =~= Seq::<int>::empty());
            assert(sumw(r.drop_last()) == 0);
            assert(sumw(r) == p2(s[1]));
            assert(s[0] == s[1]);
        }
    } else { assert(sumw(r) == 0); }
}
pub proof fn lemma_tail_wfl(s: Seq<int>)
    requires wfl(s), s.len() > 0,
    ensures wfl(s.drop_first()), s[0] >= 0,
{
    let r = s.drop_first();
    assert forall|j: int| 0 <= j < r.len() implies #[trigger] r[j] >= 0 by { assert(s[j + 1] >= 0); }
    assert forall|j: int| 0 <= j < r.len() - 1 implies #[trigger] r[j] >= r[j + 1] && (j < r.len() - 2 ==> r[j] > r[j + 1]) by { assert(s[j + 1] >= s[j + 1 + 1]); }
}
/// the shape is determined by the number of steps made
pub proof fn lemma_unique(a: Seq<int>, b: Seq<int>)
    requires wfl(a), wfl(b), swt(a) == swt(b),
    ensures a == b,
    decreases a.len(),
{
    hide(wfl); hide(p2);
    lemma_sum_ge(a); lemma_sum_ge(b);
    if a.len() == 0 { assert(sumw(a) == 0); assert(b.len() == 0); assert(a =~= b); }
    else if b.len() == 0 { assert(sumw(b) == 0); assert(false); }
    else {
        lemma_upper(a); lemma_upper(b);
        let (x, y) = (a[0], b[0]);
        lemma_tail_wfl(a); lemma_tail_wfl(b);
        assert(x >= 0 && y >= 0);
        assert(x == y) by { if x < y { lemma_p2_mono(x, y); } else if y < x { lemma_p2_mono(y, x); } }
        lemma_first(a); lemma_first(b);
        assert(swt(a) == swt(a.drop_first()) + 2 * p2(x) - 1);
        assert(swt(b) == swt(b.drop_first()) + 2 * p2(x) - 1);
        lemma_unique(a.drop_first(), b.drop_first());
        assert(a =~= seq![a[0]] + a.drop_first());
        assert(b =~= seq![b[0]] + b.drop_first());
    }
}
pub proof fn lemma_strict(s: Seq<int>)
    requires strict(s), s.len() > 0,
    ensures sumw(s) < 2 * p2(s[0]),
    decreases s.len(),
{
    let r = s.drop_first();
    lemma_first(s); lemma_p2(s[0]);
    if r.len() > 0 {
        assert(s[0] > s[0int + 1]);
        assert forall|j: int| 0 <= j < r.len() implies #[trigger] r[j] >= 0 by { assert(s[j + 1] >= 0); }
        assert forall|j: int| 0 <= j < r.len() - 1 implies #[trigger] r[j] > r[j + 1] by { assert(s[j + 1] > s[j + 1 + 1]); }
        lemma_strict(r);
        lemma_p2_mono(s[1], s[0]);
    } else { assert(sumw(r) == 0); }
}
pub proof fn lemma_p2_mod(a: int, b: int)
    requires 0 <= a <= b,
    ensures p2(b) % p2(a) == 0,
    decreases b - a,
{
    lemma_p2(a);
    if a == b { vstd::arithmetic::div_mod::lemma_mod_self_0(p2(a)); } else {
        lemma_p2_mod(a, b - 1); lemma_p2(b);
        let k = p2(b - 1) / p2(a);
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(p2(b - 1), p2(a));
        assert(p2(b) == (2 * k) * p2(a)) by(nonlinear_arith) requires p2(b - 1) == p2(a) * k, p2(b) == 2 * p2(b - 1);
        vstd::arithmetic::div_mod::lemma_mod_multiples_basic(2 * k, p2(a));
    }
}
pub proof fn lemma_mod_add(a: int, b: int, m: int)
    requires m > 0, a % m == 0, b % m == 0,
    ensures (a + b) % m == 0,
{ vstd::arithmetic::div_mod::lemma_add_mod_noop(a, b, m); assert(0int % m == 0) by(nonlinear_arith) requires m > 0; }
/// nodes of levels above `l` cover a multiple of 2^(l+1) leaves
pub proof fn lemma_sum_mod(s: Seq<int>, l: int)
    requires l >= 0, forall|j: int| 0 <= j < s.len() ==> #[trigger] s[j] > l,
    ensures sumw(s) % p2(l + 1) == 0,
    decreases s.len(),
{
    lemma_p2(l + 1);
    if s.len() == 0 { assert(0int % p2(l + 1) == 0) by(nonlinear_arith) requires p2(l + 1) > 0; } else {
        assert forall|j: int| 0 <= j < s.drop_last().len() implies #[trigger] s.drop_last()[j] > l by { assert(s[j] > l); }
        lemma_sum_mod(s.drop_last(), l);
        assert(s.last() > l) by { assert(s[s.len() - 1] > l); }
        lemma_p2_mod(l + 1, s.last());
        lemma_mod_add(sumw(s.drop_last()), p2(s.last()), p2(l + 1));
    }
}
/// the levels below the top ones are above them
pub proof fn lemma_above(s: Seq<int>, j: int)
    requires wfl(s), s.len() >= 2, 0 <= j < s.len() - 2,
    ensures s[j] > s[s.len() - 2],
    decreases s.len() - j,
{
    assert(s[j] > s[j + 1]);
    if j + 1 < s.len() - 2 { lemma_above(s, j + 1); }
}

// ---- stacks
pub open spec fn lv<H: TNode>(s: Seq<Node<H>>) -> Seq<int> { Seq::new(s.len(), |j: int| s[j].d as int) }
/// the nodes are nodes of the hash tree
pub open spec fn sv<H: TNode>(s: Seq<Node<H>>, h: Heap, lf: spec_fn(int) -> H::V, mg: spec_fn(H::V, H::V) -> H::V) -> bool {
    forall|j: int| 0 <= j < s.len() ==> (#[trigger] s[j]).h.nok(h) && s[j].h.nv(h) == tn(lf, mg, s[j].d as int, s[j].i as int)
}
/// the nodes are adjacent and begin with the leaf `a`
pub open spec fn sx<H: TNode>(s: Seq<Node<H>>, a: int) -> bool {
    forall|j: int| 0 <= j < s.len() ==> (#[trigger] s[j]).i * p2(s[j].d as int) == a + sumw(lv(s).take(j))
}
pub open spec fn hs<H: TNode>(s: Seq<Node<H>>) -> Seq<H> { Seq::new(s.len(), |j: int| s[j].h) }
pub proof fn lemma_sv_frame<H: TNode>(s: Seq<Node<H>>, h1: Heap, h2: Heap, lf: spec_fn(int) -> H::V, mg: spec_fn(H::V, H::V) -> H::V)
    requires sv(s, h1, lf, mg), extends(h1, h2),
    ensures sv(s, h2, lf, mg),
{
    assert forall|j: int| 0 <= j < s.len() implies (#[trigger] s[j]).h.nok(h2) && s[j].h.nv(h2) == tn(lf, mg, s[j].d as int, s[j].i as int) by { s[j].h.lemma_nframe(h1, h2); }
}
impl<H: TNode> Stack<H> {
    /// the first leaf of the sub-tree being built
    pub open spec fn a0(self) -> int { if self.s@.len() == 0 { self.i as int } else { self.s@[0].i * p2(self.s@[0].d as int) } }
    pub open spec fn t(self) -> int { swt(lv(self.s@)) }
    pub open spec fn fin(self) -> bool { self.s@.len() > 0 && self.s@.last().d >= self.d }
    /// a partially or completely built sub-tree of height `d`
    pub open spec fn base(self, h: Heap, lf: spec_fn(int) -> H::V, mg: spec_fn(H::V, H::V) -> H::V) -> bool {
        &&& self.d <= 60
        &&& wfl(lv(self.s@))
        &&& sv(self.s@, h, lf, mg)
        &&& sx(self.s@, self.a0())
        &&& sumw(lv(self.s@)) <= p2(self.d as int)
        &&& self.a0() % p2(self.d as int) == 0
    }
    pub open spec fn live(self) -> bool { self.i == self.a0() + sumw(lv(self.s@)) }
    pub proof fn lemma_base(self, h: Heap, lf: spec_fn(int) -> H::V, mg: spec_fn(H::V, H::V) -> H::V)
        requires self.base(h, lf, mg),
        ensures self.t() <= 2 * p2(self.d as int) - 1, self.t() >= 0, self.fin() <==> self.t() == 2 * p2(self.d as int) - 1,
            self.fin() ==> self.s@.len() == 1 && self.s@[0].d == self.d && self.s@[0].i * p2(self.d as int) == self.a0(),
            self.s@.len() == 0 <==> self.t() == 0,
    {
        let s = lv(self.s@);
        let d = self.d as int;
        lemma_sum_ge(s); lemma_p2(d);
        if s.len() > 0 {
            lemma_p2(s[0]);
            assert(s[0] == self.s@[0].d);
            if s[0] > d { lemma_p2_mono(d, s[0]); }
            if s.len() > 1 && self.fin() { lemma_dec(s, s.len() - 1); lemma_p2_mono(d, s[0]); assert(false); }
            if s.len() == 1 { assert(s.drop_last() =~= Seq::<int>::empty()); assert(sumw(s) == p2(s[0])); if s[0] < d { lemma_p2_mono(s[0], d); } }
        } else { assert(sumw(s) == 0); }
    }
    pub proof fn lemma_base_frame(self, h1: Heap, h2: Heap, lf: spec_fn(int) -> H::V, mg: spec_fn(H::V, H::V) -> H::V)
        requires self.base(h1, lf, mg), extends(h1, h2),
        ensures self.base(h2, lf, mg),
    { lemma_sv_frame(self.s@, h1, h2, lf, mg); }
}
pub proof fn lemma_dec(s: Seq<int>, j: int)
    requires wfl(s), 0 <= j < s.len(),
    ensures s[0] >= s[j],
    decreases j,
{ if j > 0 { lemma_dec(s, j - 1); assert(s[j - 1] >= s[j - 1 + 1]); } }
/// the two top nodes are the children of one node
pub proof fn lemma_siblings<H: TNode>(k: Stack<H>, h: Heap, lf: spec_fn(int) -> H::V, mg: spec_fn(H::V, H::V) -> H::V)
    requires k.base(h, lf, mg), k.s@.len() >= 2, k.s@[k.s@.len() - 2].d == k.s@.last().d, k.s@.last().d < k.d,
    ensures k.s@[k.s@.len() - 2].i % 2 == 0, k.s@.last().i == k.s@[k.s@.len() - 2].i + 1,
{
    let s = lv(k.s@);
    let n = s.len() as int;
    let l = s[n - 1];
    let (a, b) = (k.s@[n - 2].i as int, k.s@[n - 1].i as int);
    assert(s[n - 2] == l);
    lemma_take(s, n - 2);
    lemma_p2(l); lemma_p2(l + 1);
    assert(k.s@[n - 1] == k.s@.last());
    assert(b * p2(l) == (a + 1) * p2(l)) by(nonlinear_arith) requires b * p2(l) == a * p2(l) + p2(l);
    assert(b == a + 1) by(nonlinear_arith) requires b * p2(l) == (a + 1) * p2(l), p2(l) > 0;
    let u = s.take(n - 2);
    assert forall|j: int| 0 <= j < u.len() implies #[trigger] u[j] > l by { lemma_above(s, j); }
    lemma_sum_mod(u, l);
    lemma_p2_mod(l + 1, k.d as int);
    lemma_p2(k.d as int);
    let q = k.a0() / p2(k.d as int);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(k.a0(), p2(k.d as int));
    lemma_mul_mod(q, p2(k.d as int), p2(l + 1));
    assert(k.a0() == q * p2(k.d as int)) by(nonlinear_arith) requires k.a0() == p2(k.d as int) * q + 0;
    lemma_mod_add(k.a0(), sumw(u), p2(l + 1));
    let e = (a * p2(l)) / p2(l + 1);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a * p2(l), p2(l + 1));
    assert(a == 2 * e) by(nonlinear_arith) requires a * p2(l) == p2(l + 1) * e, p2(l + 1) == 2 * p2(l), p2(l) > 0;
}
pub proof fn lemma_mul_mod(q: int, x: int, m: int)
    requires m > 0, x % m == 0,
    ensures (q * x) % m == 0,
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x, m);
    let k = x / m;
    assert(q * x == (q * k) * m) by(nonlinear_arith) requires x == m * k + 0;
    vstd::arithmetic::div_mod::lemma_mod_multiples_basic(q * k, m);
}
pub proof fn lemma_wfl_merge(u: Seq<int>, l: int)
    requires wfl(u.push(l).push(l)),
    ensures wfl(u.push(l + 1)), l >= 0,
{
    let a = u.push(l).push(l);
    let b = u.push(l + 1);
    assert(a[a.len() - 1] >= 0);
    assert forall|j: int| 0 <= j < b.len() implies #[trigger] b[j] >= 0 by { assert(a[j] >= 0); }
    assert forall|j: int| 0 <= j < b.len() - 1 implies #[trigger] b[j] >= b[j + 1] && (j < b.len() - 2 ==> b[j] > b[j + 1]) by { assert(a[j] > a[j + 1]); }
}
pub proof fn lemma_sv_merge<H: TNode>(s: Seq<Node<H>>, s2: Seq<Node<H>>, h: Heap, lf: spec_fn(int) -> H::V, mg: spec_fn(H::V, H::V) -> H::V)
    requires sv(s, h, lf, mg), s2.len() > 0, s2.len() - 1 <= s.len(), s2.drop_last() == s.take(s2.len() - 1), s2.last().h.nok(h), s2.last().h.nv(h) == tn(lf, mg, s2.last().d as int, s2.last().i as int),
    ensures sv(s2, h, lf, mg),
{
    hide(tn);
    let n = s2.len() - 1;
    assert forall|j: int| 0 <= j < s2.len() implies (#[trigger] s2[j]).h.nok(h) && s2[j].h.nv(h) == tn(lf, mg, s2[j].d as int, s2[j].i as int) by {
        if j < n { assert(s2[j] == s2.drop_last()[j]); assert(s.take(n)[j] == s[j]); } else { assert(s2[j] == s2.last()); }
    }
}
pub proof fn lemma_sx_merge<H: TNode>(s: Seq<Node<H>>, s2: Seq<Node<H>>, a: int)
    requires sx(s, a), s2.len() > 0, s2.len() - 1 <= s.len(), s2.drop_last() == s.take(s2.len() - 1), s2.last().i * p2(s2.last().d as int) == a + sumw(lv(s).take(s2.len() - 1)),
    ensures sx(s2, a),
{
    hide(p2); hide(sumw);
    let n = s2.len() - 1;
    assert forall|j: int| 0 <= j < s2.len() implies (#[trigger] s2[j]).i * p2(s2[j].d as int) == a + sumw(lv(s2).take(j)) by {
        assert forall|c: int| 0 <= c < j implies lv(s2)[c] == lv(s)[c] by { assert(s2[c] == s2.drop_last()[c]); assert(s.take(n)[c] == s[c]); }
        assert(lv(s2).take(j) =~= lv(s).take(j));
        if j < n { assert(s2[j] == s2.drop_last()[j]); assert(s.take(n)[j] == s[j]); } else { assert(s2[j] == s2.last()); }
    }
}
/// merging the two top nodes
pub proof fn lemma_merge<H: TNode>(k: Stack<H>, k2: Stack<H>, h: Heap, lf: spec_fn(int) -> H::V, mg: spec_fn(H::V, H::V) -> H::V)
    requires k.base(h, lf, mg), k.s@.len() >= 2, k.s@[k.s@.len() - 2].d == k.s@.last().d, k.s@.last().d < k.d,
        k2.d == k.d, k2.i == k.i, k2.s@.len() == k.s@.len() - 1, k2.s@.drop_last() == k.s@.take(k.s@.len() - 2), k2.s@.last().h.nok(h),
        k2.s@.last().d == k.s@.last().d + 1, k2.s@.last().i == k.s@[k.s@.len() - 2].i / 2, k2.s@.last().h.nv(h) == mg(k.s@[k.s@.len() - 2].h.nv(h), k.s@.last().h.nv(h)),
    ensures k2.base(h, lf, mg), k2.a0() == k.a0(), k2.t() == k.t() + 1, k.live() ==> k2.live(),
{
    hide(wfl); hide(p2); hide(sumw); hide(tn); hide(sx);
    let n = k.s@.len() as int;
    let (s, s2) = (k.s@, k2.s@);
    let (a, b) = (lv(s), lv(s2));
    let l = a[n - 1];
    let (x1, x2) = (s[n - 2], s[n - 1]);
    lemma_siblings(k, h, lf, mg);
    lemma_p2(l + 1); lemma_p2(l);
    let u = a.take(n - 2);
    assert(forall|j: int| 0 <= j < n - 2 ==> s2[j] == s[j]) by { assert forall|j: int| 0 <= j < n - 2 implies s2[j] == s[j] by { assert(s2.drop_last()[j] == s.take(n - 2)[j]); } }
    assert(b =~= u.push(l + 1));
    assert(a =~= u.push(l).push(l));
    lemma_push(u, l); lemma_push(u.push(l), l); lemma_push(u, l + 1);
    lemma_wfl_merge(u, l);
    let x = s2[n - 2];
    assert(x == s2.last());
    lemma_tn_merge(lf, mg, l, x.i as int);
    assert(x1.i == 2 * x.i && x2.i == 2 * x.i + 1);
    assert(x1.h.nok(h) && x2.h.nok(h));
    lemma_sv_merge(s, s2, h, lf, mg);
    assert(x1.i * p2(l) == k.a0() + sumw(u)) by { lemma_sx_at(s, k.a0(), n - 2); }
    assert(x.i * p2(l + 1) == x1.i * p2(l)) by(nonlinear_arith) requires p2(l + 1) == 2 * p2(l), x1.i == 2 * x.i;
    assert(k2.a0() == k.a0()) by { if n > 2 { assert(s2[0] == s[0]); } else { assert(s2[0] == x && s[0] == x1); } }
    lemma_sx_merge(s, s2, k.a0());
}
pub proof fn lemma_sx_at<H: TNode>(s: Seq<Node<H>>, a: int, j: int)
    requires sx(s, a), 0 <= j < s.len(),
    ensures s[j].i * p2(s[j].d as int) == a + sumw(lv(s).take(j)),
{ hide(p2); hide(sumw); }
pub proof fn lemma_tn_merge<V>(lf: spec_fn(int) -> V, mg: spec_fn(V, V) -> V, l: int, i: int)
    requires l >= 0,
    ensures tn(lf, mg, l + 1, i) == mg(tn(lf, mg, l, 2 * i), tn(lf, mg, l, 2 * i + 1)),
{ }
/// when the two top nodes can't be merged and the sub-tree is not finished there are leaves left in the sub-tree
pub proof fn lemma_more<H: TNode>(k: Stack<H>, h: Heap, lf: spec_fn(int) -> H::V, mg: spec_fn(H::V, H::V) -> H::V)
    requires k.base(h, lf, mg), !k.fin(), k.s@.len() >= 2 ==> k.s@[k.s@.len() - 2].d != k.s@.last().d,
    ensures sumw(lv(k.s@)) < p2(k.d as int), strict(lv(k.s@)),
{
    let s = lv(k.s@);
    let n = s.len() as int;
    lemma_p2(k.d as int);
    assert forall|j: int| 0 <= j < n - 1 implies #[trigger] s[j] > s[j + 1] by { assert(s[j] >= s[j + 1]); if j == n - 2 { assert(s[n - 2] != s[n - 1]); } }
    if n > 0 {
        lemma_sum_ge(s);
        if s[0] > k.d { lemma_p2_mono(k.d as int, s[0]); }
        if s[0] == k.d { assert(n == 1); assert(false); }
        lemma_strict(s);
        lemma_p2_mono(s[0], k.d as int);
    }
}
pub proof fn lemma_wfl_add(a: Seq<int>)
    requires strict(a),
    ensures wfl(a.push(0)),
{
    let b = a.push(0);
    assert forall|j: int| 0 <= j < b.len() implies #[trigger] b[j] >= 0 by { if j < a.len() { assert(a[j] >= 0); } }
    assert forall|j: int| 0 <= j < b.len() - 1 implies #[trigger] b[j] >= b[j + 1] && (j < b.len() - 2 ==> b[j] > b[j + 1]) by { assert(a[j] >= 0); if j + 1 < a.len() { assert(a[j] > a[j + 1]); } }
}
/// adding a leaf
pub proof fn lemma_add<H: TNode>(k: Stack<H>, k2: Stack<H>, h: Heap, lf: spec_fn(int) -> H::V, mg: spec_fn(H::V, H::V) -> H::V)
    requires k.base(h, lf, mg), k.live(), !k.fin(), k.s@.len() >= 2 ==> k.s@[k.s@.len() - 2].d != k.s@.last().d,
        k2.d == k.d, k2.i == k.i + 1, k2.s@.len() == k.s@.len() + 1, k2.s@.drop_last() == k.s@, k2.s@.last().h.nok(h),
        k2.s@.last().d == 0, k2.s@.last().i == k.i, k2.s@.last().h.nv(h) == lf(k.i as int),
    ensures k2.base(h, lf, mg), k2.a0() == k.a0(), k2.t() == k.t() + 1, k2.live(),
{
    hide(wfl); hide(strict); hide(p2); hide(sumw); hide(tn); hide(sx);
    let n = k.s@.len() as int;
    let (s, s2) = (k.s@, k2.s@);
    let (a, b) = (lv(s), lv(s2));
    lemma_more(k, h, lf, mg);
    lemma_p20(); lemma_tn0(lf, mg, k.i as int);
    assert forall|j: int| 0 <= j < n implies s2[j] == s[j] by { assert(s2.drop_last()[j] == s[j]); }
    assert(s2[n] == s2.last());
    assert(b =~= a.push(0));
    lemma_push(a, 0);
    lemma_wfl_add(a);
    assert(s.take(n) =~= s);
    assert(a.take(n) =~= a);
    lemma_sv_merge(s, s2, h, lf, mg);
    assert(s2[n].i * p2(0) == s2[n].i) by(nonlinear_arith) requires p2(0) == 1;
    assert(k2.a0() == k.a0()) by { if n > 0 { assert(s2[0] == s[0]); } else { lemma_sum_empty(); assert(a =~= Seq::<int>::empty()); assert(s2[0] == s2[n]); } }
    lemma_sx_merge(s, s2, k.a0());
}
/// the level and the number of leaves before the top node are determined by the number of steps
pub proof fn lemma_top_shape(s: Seq<int>, d: int)
    requires wfl(s), s.len() > 0, d >= 0,
    ensures ({
        let l = s.last();
        let w = sumw(s.drop_last());
        &&& l >= 0 && 0 <= w
        &&& w == 0 ==> swt(s) == 2 * p2(l) - 1
        &&& w == p2(l) ==> swt(s) == 4 * p2(l) - 2
        &&& swt(s) == 2 * p2(d) - 1 ==> l == d && w == 0
        &&& swt(s) == 4 * p2(d) - 2 ==> l == d && w == p2(l)
        &&& sumw(s) >= p2(l)
    }),
{
    hide(wfl); hide(p2); hide(sumw);
    let n = s.len() as int;
    let l = s[n - 1];
    let u = s.drop_last();
    assert(s =~= u.push(l));
    lemma_first_ge(s);
    lemma_push(u, l); lemma_sum_ge(u); lemma_p2(l); lemma_p2(d);
    lemma_sum_empty();
    let e = Seq::<int>::empty();
    assert(swt(e) == 0);
    assert(s.last() == l && s.drop_last() == u && s == u.push(l));
    if sumw(u) == 0 { assert(u.len() == 0); assert(u =~= e); assert(swt(s) == 2 * p2(l) - 1); }
    if sumw(u) == p2(l) {
        assert(u.len() > 0) by { if u.len() == 0 { assert(u =~= e); } }
        assert(u[0] == s[0]); lemma_p2_mono(l, u[0]); assert(u.len() == 1);
        assert(u =~= e.push(u[0])); lemma_push(e, u[0]);
        assert(swt(u) == 2 * p2(l) - 1);
        assert(swt(s) == 4 * p2(l) - 2);
    }
    lemma_push(e, d); lemma_push(e.push(d), d);
    lemma_wfl2(d);
    if swt(s) == 4 * p2(d) - 2 {
        let t = e.push(d).push(d);
        assert(swt(t) == 4 * p2(d) - 2);
        lemma_unique(s, t);
        assert(t.last() == d && t.drop_last() =~= e.push(d));
        assert(l == d && u == e.push(d));
        assert(sumw(u) == p2(l));
    }
    if swt(s) == 2 * p2(d) - 1 {
        let t = e.push(d);
        assert(swt(t) == 2 * p2(d) - 1);
        lemma_unique(s, t);
        assert(t.last() == d && t.drop_last() =~= e);
        assert(l == d && u == e && sumw(u) == 0);
    }
    assert(sumw(s) >= p2(l));
}
pub proof fn lemma_sum_empty() ensures sumw(Seq::<int>::empty()) == 0 { }
pub proof fn lemma_wfl2(d: int) requires d >= 0, ensures wfl(Seq::<int>::empty().push(d)), wfl(Seq::<int>::empty().push(d).push(d)) { }
pub proof fn lemma_first_ge(s: Seq<int>)
    requires wfl(s), s.len() > 0,
    ensures s[0] >= s.last(), s.last() >= 0,
{ lemma_dec(s, s.len() - 1); assert(s[s.len() - 1] >= 0); }
pub proof fn lemma_mul_eq(x: int, w: int, p: int)
    requires x * p == w, p > 0,
    ensures w == 0 <==> x == 0, w == p <==> x == 1,
{
    assert(w == 0 <==> x == 0) by(nonlinear_arith) requires x * p == w, p > 0;
    assert(w == p <==> x == 1) by(nonlinear_arith) requires x * p == w, p > 0;
}
/// the node on the top of the stack of the root when `t` steps are made
pub proof fn lemma_top<H: TNode>(k: Stack<H>, h: Heap, lf: spec_fn(int) -> H::V, mg: spec_fn(H::V, H::V) -> H::V, d: int)
    requires k.base(h, lf, mg), k.a0() == 0, k.s@.len() > 0, d >= 0,
    ensures k.s@.last().i == 1 ==> k.t() == 4 * p2(k.s@.last().d as int) - 2, k.s@.last().i == 0 ==> k.t() == 2 * p2(k.s@.last().d as int) - 1,
        k.t() == 4 * p2(d) - 2 ==> k.s@.last().d == d && k.s@.last().i == 1, k.t() == 2 * p2(d) - 1 ==> k.s@.last().d == d && k.s@.last().i == 0,
        k.s@.last().d <= k.d, k.s@.last().h.nok(h), k.s@.last().h.nv(h) == tn(lf, mg, k.s@.last().d as int, k.s@.last().i as int),
{
    hide(wfl); hide(p2); hide(sumw); hide(tn);
    let s = lv(k.s@);
    let n = s.len() as int;
    let x = k.s@[n - 1];
    assert(x == k.s@.last());
    let l = s.last();
    lemma_top_shape(s, d);
    assert(s.take(n - 1) =~= s.drop_last());
    lemma_p2(l);
    lemma_mul_eq(x.i as int, sumw(s.drop_last()), p2(l));
    if l > k.d { lemma_p2_mono(k.d as int, l); lemma_p2_mono(k.d as int + 1, l); lemma_p2(k.d as int + 1); lemma_p2(k.d as int); }
}
/// the initial state of the stack of the level `d`
pub open spec fn ini<H: TNode>(s: Stack<H>, d: int, filled: bool, h: Heap, lf: spec_fn(int) -> H::V, mg: spec_fn(H::V, H::V) -> H::V) -> bool {
    &&& s.d == d && s.i == 0
    &&& if filled { s.s@.len() == 1 && s.s@[0].d == d && s.s@[0].i == 0 && s.s@[0].h.nok(h) && s.s@[0].h.nv(h) == tn(lf, mg, d, 0) } else { s.s@.len() == 0 }
}
pub open spec fn inis<H: TNode>(ss: Seq<Stack<H>>, t: int, h: Heap, lf: spec_fn(int) -> H::V, mg: spec_fn(H::V, H::V) -> H::V) -> bool {
    forall|d: int| 0 <= d < ss.len() ==> ini(#[trigger] ss[d], d, 2 * p2(d) - 1 <= t, h, lf, mg)
}
pub proof fn lemma_inis_frame<H: TNode>(ss: Seq<Stack<H>>, t: int, h1: Heap, h2: Heap, lf: spec_fn(int) -> H::V, mg: spec_fn(H::V, H::V) -> H::V)
    requires inis(ss, t, h1, lf, mg), extends(h1, h2),
    ensures inis(ss, t, h2, lf, mg),
{
    assert forall|d: int| 0 <= d < ss.len() implies ini(#[trigger] ss[d], d, 2 * p2(d) - 1 <= t, h2, lf, mg) by {
        assert(ini(ss[d], d, 2 * p2(d) - 1 <= t, h1, lf, mg));
        if ss[d].s@.len() == 1 { ss[d].s@[0].h.lemma_nframe(h1, h2); }
    }
}
/// the right children are gathered bottom up
pub open spec fn rights<H: TNode>(s: Seq<H>, hh: int, t: int, h: Heap, lf: spec_fn(int) -> H::V, mg: spec_fn(H::V, H::V) -> H::V) -> bool {
    &&& s.len() <= hh
    &&& s.len() > 0 ==> 4 * p2(s.len() - 1) - 2 <= t
    &&& s.len() < hh ==> t < 4 * p2(s.len() as int) - 2
    &&& all_ok(s, h)
    &&& forall|d: int| 0 <= d < s.len() ==> (#[trigger] s[d]).nv(h) == tn(lf, mg, d, 1)
}
pub proof fn lemma_rights_frame<H: TNode>(s: Seq<H>, hh: int, t: int, h1: Heap, h2: Heap, lf: spec_fn(int) -> H::V, mg: spec_fn(H::V, H::V) -> H::V)
    requires rights(s, hh, t, h1, lf, mg), extends(h1, h2),
    ensures rights(s, hh, t, h2, lf, mg),
{ lemma_frame(s, h1, h2); }

pub proof fn lemma_empty_base<H: TNode>(k: Stack<H>, h: Heap, lf: spec_fn(int) -> H::V, mg: spec_fn(H::V, H::V) -> H::V)
    requires k.s@.len() == 0, k.i == 0, k.d <= 60,
    ensures k.base(h, lf, mg), k.live(), k.a0() == 0, k.t() == 0,
{
    assert(sumw(lv(k.s@)) == 0);
    lemma_p2(k.d as int);
    assert(0int % p2(k.d as int) == 0) by(nonlinear_arith) requires p2(k.d as int) > 0;
}
pub proof fn lemma_p20() ensures p2(0) == 1 { }
pub proof fn lemma_tn0<V>(lf: spec_fn(int) -> V, mg: spec_fn(V, V) -> V, i: int) ensures tn(lf, mg, 0, i) == lf(i) { }
/// one step of the tree hash: where the node on the top goes
pub proof fn lemma_step<H: TNode>(k: Stack<H>, n: int, hh: int, t1: int, h: Heap, lf: spec_fn(int) -> H::V, mg: spec_fn(H::V, H::V) -> H::V)
    requires k.base(h, lf, mg), k.a0() == 0, k.d == hh, k.t() == t1 + 1, 0 <= t1 < 2 * p2(hh) - 1, 0 <= n <= hh, n > 0 ==> 4 * p2(n - 1) - 2 <= t1, n < hh ==> t1 < 4 * p2(n) - 2,
    ensures k.s@.len() > 0, k.s@.last().d <= hh, k.s@.last().h.nok(h), k.s@.last().h.nv(h) == tn(lf, mg, k.s@.last().d as int, k.s@.last().i as int),
        k.s@.last().d == hh <==> t1 + 1 == 2 * p2(hh) - 1,
        k.s@.last().d == hh ==> n == hh && k.s@.last().i == 0,
        k.s@.last().i == 1 ==> k.s@.last().d == n && n < hh && t1 + 1 == 4 * p2(n) - 2,
        k.s@.last().i != 1 && n < hh ==> t1 + 1 < 4 * p2(n) - 2,
        k.s@.last().i == 0 ==> t1 + 1 == 2 * p2(k.s@.last().d as int) - 1,
        forall|e: int| 0 <= e < hh ==> ((2 * #[trigger] p2(e) - 1 <= t1) <==> (2 * p2(e) - 1 <= t1 + 1 && !(k.s@.last().d == e && k.s@.last().i == 0))),
{
    hide(wfl); hide(p2); hide(sx); hide(sv);
    k.lemma_base(h, lf, mg);
    let l = k.s@.last();
    let d = l.d as int;
    lemma_top(k, h, lf, mg, hh);
    lemma_top(k, h, lf, mg, n);
    lemma_p2(hh); lemma_p2(n); lemma_p2(d);
    assert(l == k.s@[k.s@.len() - 1]);
    if d == hh { assert(k.fin()); }
    if n < hh { lemma_p2_mono(n + 1, hh); lemma_p2(n + 1); }
    if n > 0 { lemma_p2(n - 1); }
    if l.i == 1 {
        if d < n { lemma_p2_mono(d, n - 1); assert(false); }
        if n < d { lemma_p2_mono(n + 1, d); lemma_p2(n + 1); lemma_p2_mono(d, hh); assert(false); }
        if n == hh { assert(k.t() == 4 * p2(hh) - 2); assert(false); }
    }
    assert forall|e: int| 0 <= e < hh implies ((2 * #[trigger] p2(e) - 1 <= t1) <==> (2 * p2(e) - 1 <= t1 + 1 && !(l.d == e && l.i == 0))) by { lemma_top(k, h, lf, mg, e); }
}
pub proof fn lemma_right_push<H: TNode>(a: Seq<H>, x: H, hh: int, t1: int, h: Heap, lf: spec_fn(int) -> H::V, mg: spec_fn(H::V, H::V) -> H::V)
    requires rights(a, hh, t1, h, lf, mg), a.len() < hh, t1 + 1 == 4 * p2(a.len() as int) - 2, x.nok(h), x.nv(h) == tn(lf, mg, a.len() as int, 1),
    ensures rights(a.push(x), hh, t1 + 1, h, lf, mg),
{
    hide(p2); hide(tn);
    let n = a.len() as int;
    lemma_p2(n); lemma_p2(n + 1);
    let b = a.push(x);
    assert forall|d: int| 0 <= d < b.len() implies (#[trigger] b[d]).nok(h) && b[d].nv(h) == tn(lf, mg, d, 1) by { if d < n { assert(b[d] == a[d]); } else { assert(b[d] == x); } }
}
pub proof fn lemma_inis_step<H: TNode>(k: Stack<H>, s1: Seq<Stack<H>>, s2: Seq<Stack<H>>, hh: int, t1: int, h: Heap, lf: spec_fn(int) -> H::V, mg: spec_fn(H::V, H::V) -> H::V)
    requires inis(s1, t1, h, lf, mg), s1.len() == hh, s2.len() == hh, k.s@.len() > 0,
        forall|e: int| 0 <= e < hh ==> ((2 * #[trigger] p2(e) - 1 <= t1) <==> (2 * p2(e) - 1 <= t1 + 1 && !(k.s@.last().d == e && k.s@.last().i == 0))),
        k.s@.last().i == 0 ==> t1 + 1 == 2 * p2(k.s@.last().d as int) - 1,
        if k.s@.last().i == 0 && k.s@.last().d < hh {
            let d = k.s@.last().d as int;
            let o = s1[d];
            let n = s2[d];
            &&& forall|e: int| 0 <= e < hh && e != d ==> #[trigger] s2[e] == s1[e]
            &&& n.d == o.d && n.i == o.i && n.s@.len() == o.s@.len() + 1 && n.s@.last().d == d && n.s@.last().i == 0 && n.s@.last().h.nok(h) && n.s@.last().h.nv(h) == tn(lf, mg, d, 0)
        } else { s2 == s1 },
    ensures inis(s2, t1 + 1, h, lf, mg),
{
    hide(p2); hide(tn);
    let d = k.s@.last().d as int;
    assert forall|e: int| 0 <= e < s2.len() implies ini(#[trigger] s2[e], e, 2 * p2(e) - 1 <= t1 + 1, h, lf, mg) by {
        assert(ini(s1[e], e, 2 * p2(e) - 1 <= t1, h, lf, mg));
        if d == e && k.s@.last().i == 0 { assert(s2[d].s@[0] == s2[d].s@.last()); } else { assert(s2[e] == s1[e]); }
    }
}

pub proof fn lemma_jp(k: int, d: int)
    requires k >= 0, d >= 0,
    ensures p2(d) >= 1, 0 <= k % p2(d) < p2(d), k == (k / p2(d)) * p2(d) + k % p2(d), k / p2(d) >= 0,
        (k + 1) % p2(d) == 0 ==> (k + 1) / p2(d) == k / p2(d) + 1 && k % p2(d) == p2(d) - 1,
        (k + 1) % p2(d) != 0 ==> (k + 1) / p2(d) == k / p2(d) && (k + 1) % p2(d) == k % p2(d) + 1,
{
    lemma_p2(d);
    let pp = p2(d);
    let (j, p) = (k / pp, k % pp);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(k, pp);
    vstd::arithmetic::div_mod::lemma_div_pos_is_pos(k, pp);
    vstd::arithmetic::div_mod::lemma_mod_bound(k, pp);
    assert(j * pp == pp * j) by(nonlinear_arith);
    if p == pp - 1 {
        assert(k + 1 == (j + 1) * pp + 0) by(nonlinear_arith) requires k == pp * j + p, p == pp - 1;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(k + 1, pp, j + 1, 0);
    } else {
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(k + 1, pp, j, p + 1);
    }
}
pub proof fn lemma_shr(x: usize, d: usize)
    requires d < 63,
    ensures (x >> d) == x as int / p2(d as int),
    decreases d,
{
    if d == 0 { assert((x >> 0usize) == x) by(bit_vector); assert(x as int / 1 == x); } else {
        let e = (d - 1) as usize;
        lemma_shr(x, e);
        lemma_div2(x as int, e as int);
        assert((x >> d) == (x >> e) / 2) by(bit_vector) requires e < 62, d == add(e, 1);
    }
}
/// the first leaf of the neighbour sub-tree of height `d`
pub proof fn lemma_xor(skn: usize, dd: usize, d: usize)
    requires d < 60, dd == p2(d as int), skn < 0x1000_0000_0000_0000, skn as int % p2(d as int) == 0,
    ensures ((skn + dd) as usize ^ dd) == sib(skn as int / p2(d as int) + 1) * p2(d as int),
{
    lemma_shl(d);
    lemma_p2_mono(d as int, 60); assert(p2(60) == 0x1000_0000_0000_0000) by(compute);
    let x = (skn + dd) as usize;
    let pp = p2(d as int);
    let j = skn as int / pp;
    lemma_shr(x, d);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(skn as int, pp);
    assert(x == (j + 1) * pp + 0) by(nonlinear_arith) requires x == skn + pp, skn == pp * j + 0;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(x as int, pp, j + 1, 0);
    assert((x >> d) == j + 1);
    if (j + 1) % 2 == 0 {
        assert((x ^ (1usize << d)) == add(x, 1usize << d)) by(bit_vector) requires (x >> d) % 2 == 0, d < 60;
        assert(x + dd == (j + 2) * pp) by(nonlinear_arith) requires x == (j + 1) * pp, dd == pp;
        assert(sib(j + 1) == j + 2);
    } else {
        assert((x ^ (1usize << d)) == sub(x, 1usize << d)) by(bit_vector) requires (x >> d) % 2 == 1, d < 60;
        assert(x - dd == j * pp) by(nonlinear_arith) requires x == (j + 1) * pp, dd == pp;
        assert(sib(j + 1) == j);
    }
}
pub proof fn lemma_not_div(m: int, d: int, e: int)
    requires 0 <= d <= e, m % p2(d) != 0,
    ensures m % p2(e) != 0,
{
    lemma_p2(d); lemma_p2(e);
    if m % p2(e) == 0 {
        lemma_p2_mod(d, e);
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(m, p2(e));
        let q = m / p2(e);
        lemma_mul_mod(q, p2(e), p2(d));
        assert(m == q * p2(e)) by(nonlinear_arith) requires m == p2(e) * q + 0;
    }
}
pub open spec fn min2(a: int, b: int) -> int { if a <= b { a } else { b } }
/// The state of the stack of the level `d` at the leaf `k` (`x` is 2 after, and 0 before the stacks are updated):
/// the sub-tree of height `d` which is needed next is built by two steps per leaf, so it is ready in time.
pub open spec fn st<H: TNode>(s: Stack<H>, d: int, k: int, hh: int, x: int, h: Heap, lf: spec_fn(int) -> H::V, mg: spec_fn(H::V, H::V) -> H::V) -> bool {
    let j = k / p2(d);
    &&& s.d == d && s.base(h, lf, mg)
    &&& if j == 0 { s.fin() && s.a0() == 0 && s.i == 0 }
        else if sib(j + 1) >= p2(hh - d) { s.s@.len() == 0 && s.i == sib(j + 1) * p2(d) }
        else { s.live() && s.a0() == sib(j + 1) * p2(d) && s.t() == min2(2 * (k % p2(d)) + x, 2 * p2(d) - 1) }
}
pub open spec fn sts<H: TNode>(ss: Seq<Stack<H>>, k: int, hh: int, x: int, h: Heap, lf: spec_fn(int) -> H::V, mg: spec_fn(H::V, H::V) -> H::V) -> bool {
    forall|d: int| 0 <= d < ss.len() ==> st(#[trigger] ss[d], d, k, hh, x, h, lf, mg)
}
pub proof fn lemma_sts_frame<H: TNode>(ss: Seq<Stack<H>>, k: int, hh: int, x: int, h1: Heap, h2: Heap, lf: spec_fn(int) -> H::V, mg: spec_fn(H::V, H::V) -> H::V)
    requires sts(ss, k, hh, x, h1, lf, mg), extends(h1, h2),
    ensures sts(ss, k, hh, x, h2, lf, mg),
{
    assert forall|d: int| 0 <= d < ss.len() implies st(#[trigger] ss[d], d, k, hh, x, h2, lf, mg) by {
        assert(st(ss[d], d, k, hh, x, h1, lf, mg));
        ss[d].lemma_base_frame(h1, h2, lf, mg);
    }
}
pub proof fn lemma_p2_add(a: int, b: int)
    requires a >= 0, b >= 0,
    ensures p2(a + b) == p2(a) * p2(b),
    decreases b,
{
    if b == 0 { assert(p2(0) == 1); assert(p2(a) * 1 == p2(a)); } else {
        lemma_p2_add(a, b - 1); lemma_p2(a + b); lemma_p2(b);
        assert(p2(a) * p2(b) == 2 * (p2(a) * p2(b - 1))) by(nonlinear_arith) requires p2(b) == 2 * p2(b - 1);
    }
}
/// what is put to the path and what is left when the leaf `k + 1` is reached
pub open spec fn refreshed<H: TNode>(o: Stack<H>, n: Stack<H>, d: int, k1: int) -> bool {
    if k1 % p2(d) == 0 { n.d == o.d && n.s@.len() == 0 && n.i == sib(k1 / p2(d) + 1) * p2(d) } else { n == o }
}
pub proof fn lemma_refresh<H: TNode>(o: Stack<H>, d: int, k: int, hh: int, h: Heap, lf: spec_fn(int) -> H::V, mg: spec_fn(H::V, H::V) -> H::V)
    requires st(o, d, k, hh, 2, h, lf, mg), 0 <= d < hh <= 60, 0 <= k, k + 1 < p2(hh),
    ensures (k + 1) % p2(d) == 0 ==> o.s@.len() == 1 && o.s@[0].d == d && o.s@[0].i == sib((k + 1) / p2(d)) && o.s@[0].h.nok(h) && o.s@[0].h.nv(h) == tn(lf, mg, d, sib((k + 1) / p2(d))),
        forall|n: Stack<H>| #[trigger] refreshed(o, n, d, k + 1) ==> st(n, d, k + 1, hh, 0, h, lf, mg),
{
    lemma_jp(k, d);
    o.lemma_base(h, lf, mg);
    let pp = p2(d);
    let j = k / pp;
    let j1 = (k + 1) / pp;
    lemma_p2(hh - d);
    if (k + 1) % pp == 0 {
        lemma_div_lt(k + 1, hh, d);
        assert(j1 == j + 1 && j1 < p2(hh - d));
        if j != 0 && sib(j + 1) >= p2(hh - d) { assert(p2(hh - d) == 2 * p2(hh - d - 1)); assert(false); }
        assert(o.fin());
        assert(o.a0() == sib(j1) * pp) by { if j == 0 { assert(sib(1) == 0); assert(0 * pp == 0) by(nonlinear_arith); } }
        assert(o.s@[0].i == sib(j1)) by(nonlinear_arith) requires o.s@[0].i * pp == sib(j1) * pp, pp > 0;
        assert(o.s@[0].h.nok(h));
        assert forall|n: Stack<H>| #[trigger] refreshed(o, n, d, k + 1) implies st(n, d, k + 1, hh, 0, h, lf, mg) by {
            assert(sumw(lv(n.s@)) == 0);
            assert((sib(j1 + 1) * pp) % pp == 0) by { vstd::arithmetic::div_mod::lemma_mod_multiples_basic(sib(j1 + 1), pp); }
            assert(n.base(h, lf, mg));
        }
    }
}
impl<H: TNode> MT<H> {
    pub open spec fn inv(&self, h: Heap, lf: spec_fn(int) -> H::V, mg: spec_fn(H::V, H::V) -> H::V) -> bool {
        let hh = self.height as int;
        &&& hh <= 60
        &&& self.apath.skn <= p2(hh)
        &&& self.root.nok(h) && self.root.nv(h) == tn(lf, mg, hh, 0)
        &&& if self.apath.skn < p2(hh) {
                &&& self.apath.nodes@.len() == hh && self.stacks@.len() == hh
                &&& self.apath.pok(h)
                &&& is_path(lf, mg, self.apath.pv(h), self.apath.skn as int)
                &&& sts(self.stacks@, self.apath.skn as int, hh, 2, h, lf, mg)
            } else {
                self.apath.nodes@.len() == 0 && self.stacks@.len() == 0
            }
    }
    pub proof fn lemma_inv_frame(&self, h1: Heap, h2: Heap, lf: spec_fn(int) -> H::V, mg: spec_fn(H::V, H::V) -> H::V)
        requires self.inv(h1, lf, mg), extends(h1, h2),
        ensures self.inv(h2, lf, mg),
    {
        self.root.lemma_nframe(h1, h2);
        if self.apath.skn < p2(self.height as int) {
            lemma_frame(self.apath.nodes@, h1, h2);
            lemma_sts_frame(self.stacks@, self.apath.skn as int, self.height as int, 2, h1, h2, lf, mg);
        }
    }
}
pub open spec fn idle<H: TNode>(o: Stack<H>, hh: int) -> bool { o.fin() || (o.s@.len() == 0 && o.i >= p2(hh)) }
pub open spec fn ready<H: TNode>(o: Stack<H>, d: int, hh: int, h: Heap, lf: spec_fn(int) -> H::V, mg: spec_fn(H::V, H::V) -> H::V) -> bool {
    o.d == d && o.base(h, lf, mg) && (idle(o, hh) || (o.live() && o.a0() + p2(d) <= p2(hh)))
}
/// two steps were made
pub open spec fn built<H: TNode>(o: Stack<H>, n: Stack<H>, d: int, hh: int, h: Heap, lf: spec_fn(int) -> H::V, mg: spec_fn(H::V, H::V) -> H::V) -> bool {
    n.d == d && n.base(h, lf, mg) && if idle(o, hh) { n == o } else { n.live() && n.a0() == o.a0() && n.t() == min2(o.t() + 2, 2 * p2(d) - 1) }
}
pub proof fn lemma_ready<H: TNode>(o: Stack<H>, d: int, k: int, hh: int, h: Heap, lf: spec_fn(int) -> H::V, mg: spec_fn(H::V, H::V) -> H::V)
    requires st(o, d, k, hh, 0, h, lf, mg), 0 <= d < hh <= 60, 0 < k < p2(hh),
    ensures ready(o, d, hh, h, lf, mg), forall|n: Stack<H>, h2: Heap| #[trigger] built(o, n, d, hh, h2, lf, mg) ==> st(n, d, k, hh, 2, h2, lf, mg),
{
    lemma_jp(k, d); lemma_div_lt(k, hh, d);
    o.lemma_base(h, lf, mg);
    lemma_p2_add(hh - d, d);
    let pp = p2(d);
    let j = k / pp;
    let q = p2(hh - d);
    if j != 0 {
        if sib(j + 1) >= q {
            assert(sib(j + 1) * pp >= q * pp) by(nonlinear_arith) requires sib(j + 1) >= q, pp > 0;
        } else {
            assert(sib(j + 1) * pp + pp <= q * pp) by(nonlinear_arith) requires sib(j + 1) + 1 <= q, pp > 0;
            if o.s@.len() == 0 { assert(o.a0() == o.i); }
        }
    }
}
pub proof fn lemma_initial<H: TNode>(t: MT<H>, h: Heap, lf: spec_fn(int) -> H::V, mg: spec_fn(H::V, H::V) -> H::V)
    requires t.height <= 60, t.root.nok(h), t.root.nv(h) == tn(lf, mg, t.height as int, 0), t.apath.skn == 0, t.apath.nodes@.len() == t.height, t.stacks@.len() == t.height,
        rights(t.apath.nodes@, t.height as int, 2 * p2(t.height as int) - 1, h, lf, mg), inis(t.stacks@, 2 * p2(t.height as int) - 1, h, lf, mg),
    ensures t.inv(h, lf, mg),
{
    let hh = t.height as int;
    lemma_p2(hh);
    let pv = t.apath.pv(h);
    assert forall|j: int| 0 <= j < pv.len() implies #[trigger] pv[j] == tn(lf, mg, j, sib(0int / p2(j))) by { lemma_jp(0, j); lemma_div2(0, j); assert(t.apath.nodes@[j].nv(h) == tn(lf, mg, j, 1)); }
    assert forall|d: int| 0 <= d < t.stacks@.len() implies st(#[trigger] t.stacks@[d], d, 0, hh, 2, h, lf, mg) by {
        lemma_jp(0, d); lemma_div2(0, d); lemma_p2_mono(d, hh);
        let s = t.stacks@[d];
        assert(ini(s, d, true, h, lf, mg));
        assert(lv(s.s@) =~= Seq::<int>::empty().push(d));
        lemma_push(Seq::<int>::empty(), d);
        assert(sumw(Seq::<int>::empty()) == 0);
        assert(s.s@[0] == s.s@.last());
        assert(s.s@[0].i * p2(d) == 0) by(nonlinear_arith) requires s.s@[0].i == 0;
        assert(lv(s.s@).take(0) =~= Seq::<int>::empty());
        assert(0int % p2(d) == 0) by(nonlinear_arith) requires p2(d) > 0;
    }
}
pub proof fn lemma_next_pre<H: TNode>(s0: MT<H>, h: Heap, lf: spec_fn(int) -> H::V, mg: spec_fn(H::V, H::V) -> H::V)
    requires s0.inv(h, lf, mg), s0.apath.skn + 1 < p2(s0.height as int),
    ensures forall|d: int| 0 <= d < s0.height && (s0.apath.skn + 1) % p2(d) == 0 ==> (#[trigger] s0.stacks@[d]).s@.len() == 1 && s0.stacks@[d].s@[0].d == d,
{
    assert forall|d: int| 0 <= d < s0.height && (s0.apath.skn + 1) % p2(d) == 0 implies (#[trigger] s0.stacks@[d]).s@.len() == 1 && s0.stacks@[d].s@[0].d == d by {
        lemma_refresh(s0.stacks@[d], d, s0.apath.skn as int, s0.height as int, h, lf, mg);
    }
}
pub open spec fn next_mid<H: TNode>(s0: MT<H>, s2: MT<H>) -> bool {
    let (hh, k) = (s0.height as int, s0.apath.skn as int);
    &&& s2.height == hh && s2.root == s0.root && s2.apath.skn == k + 1 && s2.apath.nodes@.len() == hh && s2.stacks@.len() == hh
    &&& forall|d: int| 0 <= d < hh ==> refreshed(s0.stacks@[d], #[trigger] s2.stacks@[d], d, k + 1)
    &&& forall|d: int| 0 <= d < hh ==> #[trigger] s2.apath.nodes@[d] == (if (k + 1) % p2(d) == 0 { s0.stacks@[d].s@[0].h } else { s0.apath.nodes@[d] })
}
pub proof fn lemma_next_mid<H: TNode>(s0: MT<H>, s1: MT<H>, s2: MT<H>, h: Heap, lf: spec_fn(int) -> H::V, mg: spec_fn(H::V, H::V) -> H::V)
    requires s0.inv(h, lf, mg), s0.apath.skn + 1 < p2(s0.height as int), next_mid(s0, s2),
    ensures sts(s2.stacks@, s0.apath.skn + 1, s0.height as int, 0, h, lf, mg), s2.apath.pok(h), is_path(lf, mg, s2.apath.pv(h), s0.apath.skn + 1),
        forall|d: int| 0 <= d < s0.height ==> ready(#[trigger] s2.stacks@[d], d, s0.height as int, h, lf, mg),
{
    let (hh, k) = (s0.height as int, s0.apath.skn as int);
    assert forall|d: int| 0 <= d < hh implies st(#[trigger] s2.stacks@[d], d, k + 1, hh, 0, h, lf, mg) && ready(s2.stacks@[d], d, hh, h, lf, mg) by {
        lemma_refresh(s0.stacks@[d], d, k, hh, h, lf, mg);
        assert(refreshed(s0.stacks@[d], s2.stacks@[d], d, k + 1));
        lemma_ready(s2.stacks@[d], d, k + 1, hh, h, lf, mg);
    }
    assert forall|d: int| 0 <= d < hh implies (#[trigger] s2.apath.nodes@[d]).nok(h) && s2.apath.nodes@[d].nv(h) == tn(lf, mg, d, sib((k + 1) / p2(d))) by {
        lemma_refresh(s0.stacks@[d], d, k, hh, h, lf, mg);
        lemma_jp(k, d);
        assert(s0.apath.nodes@[d].nok(h));
        assert(s0.apath.pv(h)[d] == s0.apath.nodes@[d].nv(h));
    }
}
pub proof fn lemma_next_end<H: TNode>(s0: MT<H>, s1: MT<H>, s2: MT<H>, s3: MT<H>, h: Heap, h2: Heap, lf: spec_fn(int) -> H::V, mg: spec_fn(H::V, H::V) -> H::V)
    requires s0.inv(h, lf, mg), s0.apath.skn + 1 < p2(s0.height as int), next_mid(s0, s2), extends(h, h2),
        s3.height == s0.height, s3.root == s2.root, s3.apath == s2.apath, s3.stacks@.len() == s0.height,
        forall|d: int| 0 <= d < s0.height ==> built(s2.stacks@[d], #[trigger] s3.stacks@[d], d, s0.height as int, h2, lf, mg),
    ensures s3.inv(h2, lf, mg),
{
    let (hh, k) = (s0.height as int, s0.apath.skn as int);
    lemma_next_mid(s0, s1, s2, h, lf, mg);
    s0.root.lemma_nframe(h, h2);
    lemma_frame(s2.apath.nodes@, h, h2);
    assert forall|d: int| 0 <= d < hh implies st(#[trigger] s3.stacks@[d], d, k + 1, hh, 2, h2, lf, mg) by {
        assert(st(s2.stacks@[d], d, k + 1, hh, 0, h, lf, mg));
        lemma_ready(s2.stacks@[d], d, k + 1, hh, h, lf, mg);
        assert(built(s2.stacks@[d], s3.stacks@[d], d, hh, h2, lf, mg));
    }
}
// ---- dumps
/// the trees `load` replays to find the shape of the stacks carry no values
impl TNode for () {
    type V = ();
    open spec fn nok(&self, h: Heap) -> bool { true }
    open spec fn nv(&self, h: Heap) -> () { () }
    open spec fn nfresh(&self, h: Heap) -> bool { true }
    proof fn lemma_nfresh(&self, h1: Heap, h2: Heap) { }
    proof fn lemma_nframe(&self, h1: Heap, h2: Heap) { }
    fn clone(&self, mem: &mut Mem) -> (r: Self) { () }
    fn partial_eq(&self, other: &Self, mem: &Mem) -> (r: bool) { true }
}
pub struct DummyLeaf;
pub struct DummyMerge;
impl GenLeaf<()> for DummyLeaf {
    open spec fn gok(&self, h: Heap) -> bool { true }
    open spec fn glim(&self) -> int { p2(64) }
    open spec fn leaves(&self, h: Heap) -> spec_fn(int) -> () { |i: int| () }
    proof fn lemma_gframe(&self, h1: Heap, h2: Heap) { }
    fn gen_leaf(&self, idx: Idx, mem: &mut Mem) -> (r: ()) { () }
}
impl MergeNodes<()> for DummyMerge {
    open spec fn merged(&self) -> spec_fn((), ()) -> () { |a: (), b: ()| () }
    fn merge_nodes(&self, h0: &(), h1: &(), mem: &mut Mem) -> (r: ()) { () }
}
/// the hash values of the stacks in the order of a dump
pub open spec fn chs<H: TNode>(ss: Seq<Stack<H>>) -> Seq<H> decreases ss.len() { if ss.len() == 0 { Seq::empty() } else { chs(ss.drop_last()) + hs(ss.last().s@) } }
pub open spec fn clen<H: TNode>(ss: Seq<Stack<H>>) -> int decreases ss.len() { if ss.len() == 0 { 0 } else { clen(ss.drop_last()) + ss.last().s@.len() } }
pub proof fn lemma_chs<H: TNode>(ss: Seq<Stack<H>>)
    ensures chs(ss).len() == clen(ss), clen(ss) >= 0,
    decreases ss.len(),
{ if ss.len() > 0 { lemma_chs(ss.drop_last()); } }
pub proof fn lemma_chs_take<H: TNode>(ss: Seq<Stack<H>>, j: int)
    requires 0 <= j < ss.len(),
    ensures chs(ss.take(j + 1)) == chs(ss.take(j)) + hs(ss[j].s@), clen(ss.take(j + 1)) == clen(ss.take(j)) + ss[j].s@.len(),
{ assert(ss.take(j + 1).drop_last() =~= ss.take(j)); }
pub proof fn lemma_clen_le<H: TNode>(ss: Seq<Stack<H>>, j: int)
    requires 0 <= j <= ss.len(),
    ensures clen(ss.take(j)) <= clen(ss),
    decreases ss.len() - j,
{ if j < ss.len() { lemma_clen_le(ss, j + 1); lemma_chs_take(ss, j); } else { assert(ss.take(j) =~= ss); } }
/// C15: the nodes of a dump: the path, the root and the stacks
pub open spec fn flat<H: TNode>(t: MT<H>) -> Seq<H> { t.apath.nodes@.push(t.root) + chs(t.stacks@) }
pub open spec fn stacks_ok<H: TNode>(ss: Seq<Stack<H>>, h: Heap) -> bool { forall|d: int, j: int| 0 <= d < ss.len() && 0 <= j < ss[d].s@.len() ==> (#[trigger] ss[d].s@[j]).h.nok(h) }
pub open spec fn mok<H: TNode>(t: MT<H>, h: Heap) -> bool { t.root.nok(h) && t.apath.pok(h) && stacks_ok(t.stacks@, h) }
pub proof fn lemma_mok<H: TNode>(t: MT<H>, h: Heap, lf: spec_fn(int) -> H::V, mg: spec_fn(H::V, H::V) -> H::V)
    requires t.inv(h, lf, mg),
    ensures mok(t, h),
{
    assert forall|d: int, j: int| 0 <= d < t.stacks@.len() && 0 <= j < t.stacks@[d].s@.len() implies (#[trigger] t.stacks@[d].s@[j]).h.nok(h) by {
        assert(st(t.stacks@[d], d, t.apath.skn as int, t.height as int, 2, h, lf, mg));
    }
    if t.apath.skn >= p2(t.height as int) { assert(t.apath.pok(h)); }
}
/// stacks with nodes of the same levels and indices
pub open spec fn shape<A: TNode, B: TNode>(a: Stack<A>, b: Stack<B>) -> bool {
    a.d == b.d && a.i == b.i && a.s@.len() == b.s@.len() && forall|j: int| 0 <= j < a.s@.len() ==> (#[trigger] a.s@[j]).d == b.s@[j].d && a.s@[j].i == b.s@[j].i
}
pub open spec fn shapes<A: TNode, B: TNode>(a: Seq<Stack<A>>, b: Seq<Stack<B>>) -> bool { a.len() == b.len() && forall|d: int| 0 <= d < a.len() ==> shape(#[trigger] a[d], b[d]) }
pub proof fn lemma_shapes_len<A: TNode, B: TNode>(a: Seq<Stack<A>>, b: Seq<Stack<B>>)
    requires shapes(a, b),
    ensures clen(a) == clen(b),
    decreases a.len(),
{
    if a.len() > 0 {
        let (x, y) = (a.drop_last(), b.drop_last());
        assert forall|d: int| 0 <= d < x.len() implies shape(#[trigger] x[d], y[d]) by { assert(shape(a[d], b[d])); }
        lemma_shapes_len(x, y);
        assert(shape(a[a.len() - 1], b[a.len() - 1]));
    }
}
/// the shape of a stack depends on the height and the leaf number only
pub proof fn lemma_shape<A: TNode, B: TNode>(a: Stack<A>, b: Stack<B>, d: int, k: int, hh: int, h1: Heap, lf1: spec_fn(int) -> A::V, mg1: spec_fn(A::V, A::V) -> A::V, h2: Heap, lf2: spec_fn(int) -> B::V, mg2: spec_fn(B::V, B::V) -> B::V)
    requires st(a, d, k, hh, 2, h1, lf1, mg1), st(b, d, k, hh, 2, h2, lf2, mg2), 0 <= d < hh, k >= 0,
    ensures shape(a, b),
{
    hide(wfl); hide(sx); hide(sv); hide(sumw); hide(p2); hide(tn); hide(swt); hide(sib);
    a.lemma_base(h1, lf1, mg1); b.lemma_base(h2, lf2, mg2);
    let (u, v) = (lv(a.s@), lv(b.s@));
    assert(a.t() == b.t());
    lemma_unique(u, v);
    assert(u.len() == a.s@.len() && v.len() == b.s@.len());
    assert(a.a0() == b.a0());
    assert(a.i == b.i);
    assert forall|j: int| 0 <= j < a.s@.len() implies (#[trigger] a.s@[j]).d == b.s@[j].d && a.s@[j].i == b.s@[j].i by {
        assert(u[j] == v[j]);
        let b0 = b.s@[j];
        lemma_sx_at(a.s@, a.a0(), j); lemma_sx_at(b.s@, b.a0(), j);
        lemma_p2(u[j]);
        let (x, y, w) = (a.s@[j].i as int, b0.i as int, p2(u[j]));
        assert(x == y) by(nonlinear_arith) requires x * w == y * w, w > 0;
    }
}
pub proof fn lemma_tree_shape<A: TNode, B: TNode>(a: MT<A>, b: MT<B>, h1: Heap, lf1: spec_fn(int) -> A::V, mg1: spec_fn(A::V, A::V) -> A::V, h2: Heap, lf2: spec_fn(int) -> B::V, mg2: spec_fn(B::V, B::V) -> B::V)
    requires a.inv(h1, lf1, mg1), b.inv(h2, lf2, mg2), a.height == b.height, a.apath.skn == b.apath.skn,
    ensures shapes(a.stacks@, b.stacks@), flat(a).len() == flat(b).len(),
{
    let (k, hh) = (a.apath.skn as int, a.height as int);
    assert forall|d: int| 0 <= d < a.stacks@.len() implies shape(#[trigger] a.stacks@[d], b.stacks@[d]) by {
        assert(st(a.stacks@[d], d, k, hh, 2, h1, lf1, mg1)); assert(st(b.stacks@[d], d, k, hh, 2, h2, lf2, mg2));
        lemma_shape(a.stacks@[d], b.stacks@[d], d, k, hh, h1, lf1, mg1, h2, lf2, mg2);
    }
    lemma_shapes_len(a.stacks@, b.stacks@); lemma_chs(a.stacks@); lemma_chs(b.stacks@);
}
pub open spec fn dummy(u: MT<()>, h: Heap, height: int, skn: int) -> bool { u.inv(h, DummyLeaf.leaves(h), DummyMerge.merged()) && u.height == height && u.apath.skn == skn }
/// the levels of the nodes of a stack after `t` steps (`lemma_unique`)
pub open spec fn lvs(t: int) -> Seq<int> { choose|s: Seq<int>| wfl(s) && #[trigger] swt(s) == t }
/// the number of the nodes of the stack of the level `d` at the leaf `k`
pub open spec fn slen(d: int, k: int, hh: int) -> int {
    let j = k / p2(d);
    if j == 0 { lvs(2 * p2(d) - 1).len() as int } else if sib(j + 1) >= p2(hh - d) { 0 } else { lvs(min2(2 * (k % p2(d)) + 2, 2 * p2(d) - 1)).len() as int }
}
pub open spec fn total(hh: int, k: int, j: int) -> int decreases j { if j <= 0 { 0 } else { total(hh, k, j - 1) + slen(j - 1, k, hh) } }
pub proof fn lemma_total_ge(hh: int, k: int, j: int) ensures total(hh, k, j) >= 0 decreases j { if j > 0 { lemma_total_ge(hh, k, j - 1); } }
/// C15: a dump of `n` nodes fits the height and the leaf number
pub open spec fn fit(height: int, skn: int, n: int) -> bool {
    if skn < p2(height) { n == height + 1 + total(height, skn, height) } else { skn == p2(height) && n == 1 }
}
pub proof fn lemma_total<H: TNode>(t: MT<H>, h: Heap, lf: spec_fn(int) -> H::V, mg: spec_fn(H::V, H::V) -> H::V, j: int)
    requires t.inv(h, lf, mg), t.apath.skn < p2(t.height as int), 0 <= j <= t.height,
    ensures clen(t.stacks@.take(j)) == total(t.height as int, t.apath.skn as int, j),
    decreases j,
{
    hide(wfl); hide(sx); hide(sv); hide(sumw); hide(p2); hide(tn); hide(swt); hide(sib);
    let (hh, k) = (t.height as int, t.apath.skn as int);
    if j > 0 {
        lemma_total(t, h, lf, mg, j - 1);
        lemma_chs_take(t.stacks@, j - 1);
        let s = t.stacks@[j - 1];
        assert(st(s, j - 1, k, hh, 2, h, lf, mg));
        s.lemma_base(h, lf, mg);
        let u = lv(s.s@);
        assert(wfl(u) && swt(u) == s.t());
        assert(wfl(lvs(s.t())) && swt(lvs(s.t())) == s.t());
        lemma_unique(u, lvs(s.t()));
        assert(u.len() == s.s@.len());
    } else { assert(t.stacks@.take(0) =~= Seq::<Stack<H>>::empty()); }
}
pub open spec fn loaded<H: TNode>(t: MT<H>, height: int, skn: int, nodes: Seq<H>) -> bool {
    t.height == height && t.apath.skn == skn && flat(t) == nodes
    && (if skn < p2(height) { t.apath.nodes@.len() == height && exists|u: MT<()>, h: Heap| #[trigger] dummy(u, h, height, skn) && shapes(t.stacks@, u.stacks@) } else { t.apath.nodes@.len() == 0 && t.stacks@.len() == 0 })
}
/// C15: exactly the dumps of as many nodes as the tree at that leaf has are accepted
pub proof fn lemma_fit<H: TNode>(t: MT<H>, h: Heap, lf: spec_fn(int) -> H::V, mg: spec_fn(H::V, H::V) -> H::V, n: int)
    requires t.inv(h, lf, mg),
    ensures fit(t.height as int, t.apath.skn as int, n) == (n == flat(t).len()),
{
    hide(st); hide(p2); hide(sts);
    lemma_flat(t); lemma_chs(t.stacks@);
    if t.apath.skn < p2(t.height as int) { lemma_total(t, h, lf, mg, t.height as int); assert(t.stacks@.take(t.height as int) =~= t.stacks@); }
}
/// the stacks are shorter than the tree
pub proof fn lemma_clen_p2(u: MT<()>, h: Heap, hh: int, k: int, j: int)
    requires dummy(u, h, hh, k), k < p2(hh), 0 <= j <= hh,
    ensures clen(u.stacks@.take(j)) < p2(j), j == hh ==> clen(u.stacks@) < p2(hh),
    decreases j,
{
    if j == hh { assert(u.stacks@.take(j) =~= u.stacks@); }
    if j > 0 {
        lemma_clen_p2(u, h, hh, k, j - 1);
        lemma_chs_take(u.stacks@, j - 1);
        let s = u.stacks@[j - 1];
        assert(st(s, j - 1, k, hh, 2, h, DummyLeaf.leaves(h), DummyMerge.merged()));
        lemma_sum_ge(lv(s.s@));
        lemma_p2(j - 1);
    } else { lemma_p20(); assert(u.stacks@.take(0) =~= Seq::<Stack<()>>::empty()); }
}
/// the nodes of the stack of the level `d` in a dump
pub proof fn lemma_chs_at<H: TNode>(ss: Seq<Stack<H>>, d: int, j: int)
    requires 0 <= d < ss.len(), 0 <= j < ss[d].s@.len(),
    ensures 0 <= clen(ss.take(d)) + j < chs(ss).len(), chs(ss)[clen(ss.take(d)) + j] == ss[d].s@[j].h,
    decreases ss.len(),
{
    let l = ss.drop_last();
    lemma_chs(ss); lemma_chs(l); lemma_chs(ss.take(d));
    if d < ss.len() - 1 { assert(l.take(d) =~= ss.take(d)); lemma_chs_at(l, d, j); } else { assert(l =~= ss.take(d)); assert(hs(ss.last().s@)[j] == ss[d].s@[j].h); }
}
pub proof fn lemma_shapes_take<A: TNode, B: TNode>(a: Seq<Stack<A>>, b: Seq<Stack<B>>, d: int)
    requires shapes(a, b), 0 <= d <= a.len(),
    ensures clen(a.take(d)) == clen(b.take(d)),
{ assert forall|e: int| 0 <= e < a.take(d).len() implies shape(#[trigger] a.take(d)[e], b.take(d)[e]) by { assert(shape(a[e], b[e])); } lemma_shapes_len(a.take(d), b.take(d)); }
/// values of a tree
pub open spec fn ndv<H: TNode>(n: Node<H>, h: Heap) -> (Height, Idx, H::V) { (n.d, n.i, n.h.nv(h)) }
pub open spec fn skv<H: TNode>(s: Stack<H>, h: Heap) -> (Height, Idx, Seq<(Height, Idx, H::V)>) { (s.d, s.i, Seq::new(s.s@.len(), |j: int| ndv(s.s@[j], h))) }
pub open spec fn stv<H: TNode>(ss: Seq<Stack<H>>, h: Heap) -> Seq<(Height, Idx, Seq<(Height, Idx, H::V)>)> { Seq::new(ss.len(), |d: int| skv(ss[d], h)) }
/// C15: what `==` compares
pub open spec fn same<H: TNode>(a: MT<H>, h1: Heap, b: MT<H>, h2: Heap) -> bool {
    a.height == b.height && a.root.nv(h1) == b.root.nv(h2) && a.apath.skn == b.apath.skn && a.apath.pv(h1) == b.apath.pv(h2) && stv(a.stacks@, h1) == stv(b.stacks@, h2)
}
pub proof fn lemma_flat<H: TNode>(t: MT<H>)
    ensures flat(t).len() == t.apath.nodes@.len() + 1 + clen(t.stacks@), clen(t.stacks@) >= 0, forall|i: int| 0 <= i < t.apath.nodes@.len() ==> #[trigger] flat(t)[i] == t.apath.nodes@[i], flat(t)[t.apath.nodes@.len() as int] == t.root,
        forall|d: int, j: int| 0 <= d < t.stacks@.len() && 0 <= j < t.stacks@[d].s@.len() ==> flat(t)[t.apath.nodes@.len() + 1 + clen(t.stacks@.take(d)) + j] == (#[trigger] t.stacks@[d].s@[j]).h && t.apath.nodes@.len() + 1 + clen(t.stacks@.take(d)) + j < flat(t).len() && clen(t.stacks@.take(d)) >= 0,
{
    lemma_chs(t.stacks@);
    assert forall|d: int, j: int| 0 <= d < t.stacks@.len() && 0 <= j < t.stacks@[d].s@.len() implies flat(t)[t.apath.nodes@.len() + 1 + clen(t.stacks@.take(d)) + j] == (#[trigger] t.stacks@[d].s@[j]).h && t.apath.nodes@.len() + 1 + clen(t.stacks@.take(d)) + j < flat(t).len() && clen(t.stacks@.take(d)) >= 0 by {
        lemma_chs_at(t.stacks@, d, j); lemma_chs(t.stacks@.take(d));
    }
}
/// a stack of the same shape and values is the same stack
pub proof fn lemma_copy<H: TNode>(b: Stack<H>, a: Stack<H>, d: int, k: int, hh: int, h: Heap, h2: Heap, lf: spec_fn(int) -> H::V, mg: spec_fn(H::V, H::V) -> H::V)
    requires st(b, d, k, hh, 2, h, lf, mg), shape(a, b), forall|j: int| 0 <= j < a.s@.len() ==> (#[trigger] a.s@[j]).h.nok(h2) && a.s@[j].h.nv(h2) == b.s@[j].h.nv(h),
    ensures skv(a, h2) == skv(b, h), st(a, d, k, hh, 2, h2, lf, mg),
{
    hide(wfl); hide(sumw); hide(p2); hide(tn); hide(swt); hide(sib);
    assert(skv(a, h2).2 =~= skv(b, h).2) by {
        assert forall|j: int| 0 <= j < a.s@.len() implies ndv(a.s@[j], h2) == ndv(b.s@[j], h) by { let x = a.s@[j]; }
    }
    assert(lv(a.s@) =~= lv(b.s@)) by {
        assert forall|j: int| 0 <= j < a.s@.len() implies lv(a.s@)[j] == lv(b.s@)[j] by { let x = a.s@[j]; }
    }
    if a.s@.len() > 0 { let x = a.s@[0]; assert(a.s@[0].i == b.s@[0].i && a.s@[0].d == b.s@[0].d); assert(a.s@[a.s@.len() - 1].d == b.s@[a.s@.len() - 1].d); }
    assert(a.a0() == b.a0());
    assert(sv(a.s@, h2, lf, mg)) by {
        assert forall|j: int| 0 <= j < a.s@.len() implies (#[trigger] a.s@[j]).h.nok(h2) && a.s@[j].h.nv(h2) == tn(lf, mg, a.s@[j].d as int, a.s@[j].i as int) by { assert(b.s@[j].h.nok(h)); }
    }
    assert(sx(a.s@, a.a0())) by {
        assert forall|j: int| 0 <= j < a.s@.len() implies (#[trigger] a.s@[j]).i * p2(a.s@[j].d as int) == a.a0() + sumw(lv(a.s@).take(j)) by { lemma_sx_at(b.s@, b.a0(), j); }
    }
}
/// C15: what `store` gives is accepted by `load`, and the loaded tree equals the stored one and is the same tree for every further operation
pub proof fn lemma_store_load<H: TNode>(t: MT<H>, r: MT<H>, nodes: Seq<H>, h: Heap, h2: Heap, lf: spec_fn(int) -> H::V, mg: spec_fn(H::V, H::V) -> H::V)
    requires t.inv(h, lf, mg), loaded(r, t.height as int, t.apath.skn as int, nodes), all_ok(nodes, h2), nvs(nodes, h2) == nvs(flat(t), h),
    ensures same(t, h, r, h2), r.inv(h2, lf, mg),
{
    hide(st); hide(p2); hide(flat);
    let (hh, k) = (t.height as int, t.apath.skn as int);
    let n = t.apath.nodes@.len() as int;
    lemma_flat(t); lemma_flat(r);
    assert(nvs(nodes, h2).len() == nodes.len()); assert(nvs(flat(t), h).len() == flat(t).len());
    assert forall|i: int| 0 <= i < nodes.len() implies (#[trigger] flat(r)[i]).nok(h2) && flat(r)[i].nv(h2) == flat(t)[i].nv(h) by { assert(nodes[i].nok(h2)); assert(nvs(nodes, h2)[i] == nodes[i].nv(h2)); assert(nvs(flat(t), h)[i] == flat(t)[i].nv(h)); }
    assert(r.apath.nodes@.len() == n);
    assert forall|i: int| 0 <= i < n implies (#[trigger] r.apath.nodes@[i]).nok(h2) && r.apath.nodes@[i].nv(h2) == t.apath.nodes@[i].nv(h) by { assert(flat(r)[i] == r.apath.nodes@[i]); assert(flat(t)[i] == t.apath.nodes@[i]); }
    assert(r.apath.pv(h2) =~= t.apath.pv(h));
    assert(flat(r)[n] == r.root && flat(t)[n] == t.root);
    if k < p2(hh) {
        let (u, hu) = choose|u: MT<()>, hu: Heap| #[trigger] dummy(u, hu, hh, k) && shapes(r.stacks@, u.stacks@);
        lemma_tree_shape(t, u, h, lf, mg, hu, DummyLeaf.leaves(hu), DummyMerge.merged());
        assert forall|d: int| 0 <= d < t.stacks@.len() implies shape(#[trigger] r.stacks@[d], t.stacks@[d]) by { assert(shape(r.stacks@[d], u.stacks@[d])); assert(shape(t.stacks@[d], u.stacks@[d])); 
            assert forall|j: int| 0 <= j < r.stacks@[d].s@.len() implies (#[trigger] r.stacks@[d].s@[j]).d == t.stacks@[d].s@[j].d && r.stacks@[d].s@[j].i == t.stacks@[d].s@[j].i by { let y = t.stacks@[d].s@[j]; } }
        assert(shapes(r.stacks@, t.stacks@));
        assert forall|d: int| 0 <= d < t.stacks@.len() implies #[trigger] skv(r.stacks@[d], h2) == skv(t.stacks@[d], h) && st(r.stacks@[d], d, k, hh, 2, h2, lf, mg) by {
            let (a, b) = (r.stacks@[d], t.stacks@[d]);
            assert(shape(a, b));
            lemma_shapes_take(r.stacks@, t.stacks@, d);
            assert forall|j: int| 0 <= j < a.s@.len() implies (#[trigger] a.s@[j]).h.nok(h2) && a.s@[j].h.nv(h2) == b.s@[j].h.nv(h) by {
                let i = n + 1 + clen(t.stacks@.take(d)) + j;
                assert(flat(r)[i] == r.stacks@[d].s@[j].h); assert(flat(t)[i] == t.stacks@[d].s@[j].h);
            }
            assert(st(b, d, k, hh, 2, h, lf, mg));
            lemma_copy(b, a, d, k, hh, h, h2, lf, mg);
        }
        assert(stv(r.stacks@, h2) =~= stv(t.stacks@, h)) by { assert forall|d: int| 0 <= d < t.stacks@.len() implies stv(r.stacks@, h2)[d] == stv(t.stacks@, h)[d] by { assert(skv(r.stacks@[d], h2) == skv(t.stacks@[d], h)); } }
        assert forall|d: int| 0 <= d < r.stacks@.len() implies st(#[trigger] r.stacks@[d], d, k, hh, 2, h2, lf, mg) by { assert(skv(r.stacks@[d], h2) == skv(t.stacks@[d], h)); }
    } else { assert(stv(r.stacks@, h2) =~= stv(t.stacks@, h)); }
}
/// Expansion of the vector comparisons: one element at a time.
pub open spec fn nds_ok<H: TNode>(s: Seq<Node<H>>, h: Heap) -> bool { forall|j: int| 0 <= j < s.len() ==> (#[trigger] s[j]).h.nok(h) }
pub open spec fn ndsv<H: TNode>(s: Seq<Node<H>>, h: Heap) -> Seq<(Height, Idx, H::V)> { Seq::new(s.len(), |j: int| ndv(s[j], h)) }
pub trait VecNode<H: TNode> {
    spec fn nds(&self) -> Seq<Node<H>>;
    fn partial_eq(&self, other: &Vec<Node<H>>, mem: &Mem) -> (r: bool)
        requires nds_ok(self.nds(), mem@), nds_ok(other@, mem@),
        ensures r == (ndsv(self.nds(), mem@) == ndsv(other@, mem@));
}
impl<H: TNode> VecNode<H> for Vec<Node<H>> {
    open spec fn nds(&self) -> Seq<Node<H>> { self@ }
    fn partial_eq(&self, other: &Vec<Node<H>>, mem: &Mem) -> (r: bool) {
        let ghost (a, b) = (ndsv(self@, mem@), ndsv(other@, mem@));
        if self.len() != other.len() { assert(a.len() != b.len()); return false; }
        let mut i: usize = 0;
        while i < self.len()
            invariant i <= self@.len(), self@.len() == other@.len(), a == ndsv(self@, mem@), b == ndsv(other@, mem@), nds_ok(self@, mem@), nds_ok(other@, mem@), forall|j: int| 0 <= j < i ==> a[j] == b[j],
            decreases self@.len() - i,
        {
            proof { assert(a[i as int] == ndv(self@[i as int], mem@)); assert(b[i as int] == ndv(other@[i as int], mem@)); }
            if !self[i].partial_eq(&other[i], mem) { assert(a[i as int] != b[i as int]); return false; }
            i = i + 1;
        }
        proof { assert(a =~= b); }
        true
    }
}
pub trait VecStack<H: TNode> {
    spec fn sks(&self) -> Seq<Stack<H>>;
    fn partial_eq(&self, other: &Vec<Stack<H>>, mem: &Mem) -> (r: bool)
        requires stacks_ok(self.sks(), mem@), stacks_ok(other@, mem@),
        ensures r == (stv(self.sks(), mem@) == stv(other@, mem@));
}
impl<H: TNode> VecStack<H> for Vec<Stack<H>> {
    open spec fn sks(&self) -> Seq<Stack<H>> { self@ }
    fn partial_eq(&self, other: &Vec<Stack<H>>, mem: &Mem) -> (r: bool) {
        let ghost (a, b) = (stv(self@, mem@), stv(other@, mem@));
        if self.len() != other.len() { assert(a.len() != b.len()); return false; }
        let mut i: usize = 0;
        while i < self.len()
            invariant i <= self@.len(), self@.len() == other@.len(), a == stv(self@, mem@), b == stv(other@, mem@), stacks_ok(self@, mem@), stacks_ok(other@, mem@), forall|j: int| 0 <= j < i ==> a[j] == b[j],
            decreases self@.len() - i,
        {
            proof { assert(a[i as int] == skv(self@[i as int], mem@)); assert(b[i as int] == skv(other@[i as int], mem@));
                assert forall|j: int| 0 <= j < self@[i as int].s@.len() implies (#[trigger] self@[i as int].s@[j]).h.nok(mem@) by {}
                assert forall|j: int| 0 <= j < other@[i as int].s@.len() implies (#[trigger] other@[i as int].s@[j]).h.nok(mem@) by {} }
            if !self[i].partial_eq(&other[i], mem) { assert(a[i as int] != b[i as int]); return false; }
            i = i + 1;
        }
        proof { assert(a =~= b); }
        true
    }
}
//@end
//@fn Node.Clone::clone mem=rw props=C14,C15
    requires self.h.nok(old(mem)@),
    ensures extends(old(mem)@, final(mem)@), r.h.nok(final(mem)@), r.h.nv(final(mem)@) == self.h.nv(old(mem)@), r.d == self.d, r.i == self.i,
//@postlude
impl<H: TNode> TraversableMerkleTree<H> for MT<H> {
    open spec fn tinv(&self, h: Heap, lf: spec_fn(int) -> H::V, mg: spec_fn(H::V, H::V) -> H::V) -> bool { self.inv(h, lf, mg) }
    open spec fn theight(&self) -> int { self.height as int }
    open spec fn tskn(&self) -> int { self.apath.skn as int }
    open spec fn troot(&self) -> H { self.root }
    proof fn lemma_tinv(&self, h: Heap, lf: spec_fn(int) -> H::V, mg: spec_fn(H::V, H::V) -> H::V) { }
    proof fn lemma_tframe(&self, h1: Heap, h2: Heap, lf: spec_fn(int) -> H::V, mg: spec_fn(H::V, H::V) -> H::V) { self.lemma_inv_frame(h1, h2, lf, mg); }
    fn gen<G: GenLeaf<H>, M: MergeNodes<H>>(g: &G, m: &M, height: Height, mem: &mut Mem) -> (r: Self) { MT::<H>::gen(g, m, height, mem) }
    fn next<G: GenLeaf<H>, M: MergeNodes<H>>(&mut self, g: &G, m: &M, mem: &mut Mem) -> (r: bool) { MT::<H>::next(self, g, m, mem) }
    fn root(&self) -> (r: &H) { MT::<H>::root(self) }
    fn height(&self) -> (r: Height) { MT::<H>::height(self) }
    fn skn(&self) -> (r: Idx) { MT::<H>::skn(self) }
    fn apath(&self, mem: &mut Mem) -> (r: APath<H>) { MT::<H>::apath(self, mem) }
}
//@end
//@fn Stack::new props=C14
    ensures r.d == d, r.i == 0, r.s@ == Seq::<Node<H>>::empty(),
//@fn Stack::is_empty props=C14
    ensures r == (self.s@.len() == 0),
//@fn Stack::len props=C14
    ensures r == self.s@.len(),
//@fn Stack::top props=C14
    requires self.s@.len() > 0,
    ensures *r == self.s@.last(),
//@fn Stack::before_top props=C14
    requires self.s@.len() > 1,
    ensures *r == self.s@[self.s@.len() - 2],
//@fn Stack::push props=C14
    ensures final(self).d == old(self).d, final(self).i == old(self).i, final(self).s@ == old(self).s@.push(n),
//@fn Stack::pop props=C14
    ensures final(self).d == old(self).d, final(self).i == old(self).i,
        old(self).s@.len() == 0 ==> r.is_none() && final(self).s@ == old(self).s@,
        old(self).s@.len() > 0 ==> r == Some(old(self).s@.last()) && final(self).s@ == old(self).s@.drop_last(),
//@fn Stack::is_finished props=C14
    ensures r == self.fin(),
//@fn Stack::can_merge props=C14
    ensures r == (self.s@.len() > 1 && self.s@.last().d == self.s@[self.s@.len() - 2].d),
//@fn Stack::merge mem=rw props=C14
    requires old(self).s@.len() >= 2, old(self).s@[old(self).s@.len() - 2].d == old(self).s@.last().d, old(self).s@.last().d < old(self).d, old(self).d <= 60,
        old(self).s@[old(self).s@.len() - 2].i % 2 == 0, old(self).s@.last().i == old(self).s@[old(self).s@.len() - 2].i + 1,
        old(self).s@[old(self).s@.len() - 2].h.nok(old(mem)@), old(self).s@.last().h.nok(old(mem)@),
    ensures extends(old(mem)@, final(mem)@), final(self).d == old(self).d, final(self).i == old(self).i, final(self).s@.len() == old(self).s@.len() - 1,
        final(self).s@.drop_last() == old(self).s@.take(old(self).s@.len() - 2), final(self).s@.last().h.nok(final(mem)@),
        final(self).s@.last().d == old(self).s@.last().d + 1, final(self).s@.last().i == old(self).s@[old(self).s@.len() - 2].i / 2,
        final(self).s@.last().h.nv(final(mem)@) == (m.merged())(old(self).s@[old(self).s@.len() - 2].h.nv(old(mem)@), old(self).s@.last().h.nv(old(mem)@)),
//@hint entry
proof {
    let (a, b) = (self.s@[self.s@.len() - 2].i, self.s@.last().i);
    assert((a ^ b) == 1) by(bit_vector) requires a % 2 == 0, b == add(a, 1);
    assert((b ^ a) == 1) by(bit_vector) requires a % 2 == 0, b == add(a, 1);
}
//@fn Stack::can_add_leaf props=C14
    ensures r == (self.i < max_skn),
//@fn Stack::add_leaf mem=rw props=C14
    requires g.gok(old(mem)@), old(self).i < g.glim(), old(self).i < usize::MAX,
    ensures extends(old(mem)@, final(mem)@), final(self).d == old(self).d, final(self).i == old(self).i + 1, final(self).s@.drop_last() == old(self).s@, final(self).s@.len() == old(self).s@.len() + 1,
        final(self).s@.last().h.nok(final(mem)@), final(self).s@.last().d == 0, final(self).s@.last().i == old(self).i, final(self).s@.last().h.nv(final(mem)@) == (g.leaves(old(mem)@))(old(self).i as int),
//@fn Stack::update mem=rw props=C14
    requires g.gok(old(mem)@), height <= 60, p2(height as int) <= g.glim(), old(self).base(old(mem)@, g.leaves(old(mem)@), m.merged()),
        old(self).fin() || (old(self).live() && old(self).a0() + p2(old(self).d as int) <= p2(height as int)) || (old(self).s@.len() == 0 && old(self).i >= p2(height as int)),
    ensures extends(old(mem)@, final(mem)@), final(self).base(final(mem)@, g.leaves(old(mem)@), m.merged()), final(self).d == old(self).d,
        old(self).fin() || (old(self).s@.len() == 0 && old(self).i >= p2(height as int)) ==> *final(self) == *old(self) && final(mem)@ == old(mem)@,
        !old(self).fin() && !(old(self).s@.len() == 0 && old(self).i >= p2(height as int)) ==> final(self).a0() == old(self).a0() && final(self).live() && final(self).t() == old(self).t() + 1,
//@hint entry
let ghost k = *self;
let ghost h0 = mem@;
let ghost lf = g.leaves(h0);
let ghost mg = m.merged();
proof {
    self.lemma_base(h0, lf, mg);
    lemma_shl(height);
    if self.s@.len() > 0 && !self.fin() { assert(self.s@.last() == self.s@[self.s@.len() - 1]); }
    if !(self.s@.len() > 1 && self.s@.last().d == self.s@[self.s@.len() - 2].d) && !self.fin() { lemma_more(k, h0, lf, mg); }
}
//@hint before merge 0
proof { lemma_siblings(k, h0, lf, mg); assert(k.s@[k.s@.len() - 2].h.nok(h0)); assert(k.s@[k.s@.len() - 1].h.nok(h0)); }
//@hint after merge 0
proof { k.lemma_base_frame(h0, mem@, lf, mg); k.s@[k.s@.len() - 2].h.lemma_nframe(h0, mem@); k.s@[k.s@.len() - 1].h.lemma_nframe(h0, mem@); lemma_merge(k, *self, mem@, lf, mg); }
//@hint after add_leaf 0
proof { k.lemma_base_frame(h0, mem@, lf, mg); lemma_add(k, *self, mem@, lf, mg); }
//@fn gen_mt mem=rw props=C14
    requires g.gok(old(mem)@), height <= 60, p2(height as int) <= g.glim(),
    ensures extends(old(mem)@, final(mem)@), r.0.nok(final(mem)@), r.0.nv(final(mem)@) == tn(g.leaves(old(mem)@), m.merged(), height as int, 0),
        r.1.skn == 0, rights(r.1.nodes@, height as int, 2 * p2(height as int) - 1, final(mem)@, g.leaves(old(mem)@), m.merged()), r.1.nodes@.len() == height,
        r.2@.len() == height, inis(r.2@, 2 * p2(height as int) - 1, final(mem)@, g.leaves(old(mem)@), m.merged()),
//@hint entry
hide(wfl); hide(sx); hide(sv); hide(p2); hide(tn); hide(Stack::base); hide(sumw);
let ghost m0 = mem@;
let ghost lf = g.leaves(m0);
let ghost mg = m.merged();
let ghost hh = height as int;
proof { lemma_p2(hh); lemma_p20(); lemma_tn0(lf, mg, 0); }
//@loop 0
    invariant it0 <= end0, end0 == height, stacks@.len() == it0, inis(stacks@, 0, m0, lf, mg),
    decreases end0 - it0,
//@hint loop 0 end
proof { lemma_p2(it0 - 1); }
//@hint let stack 0
proof { lemma_empty_base(stack, m0, lf, mg); lemma_p2(hh); lemma_p2(0); }
//@loop 1
    invariant height > 0, height <= 60, hh == height, m0 == old(mem)@, extends(m0, mem@), g.gok(m0), lf == g.leaves(m0), mg == m.merged(), p2(hh) <= g.glim(), p2(hh) >= 1,
        stack.base(mem@, lf, mg), stack.live(), stack.a0() == 0, stack.d == height, 0 <= stack.t() < 2 * p2(hh) - 1,
        apath.skn == 0, rights(apath.nodes@, hh, stack.t(), mem@, lf, mg), stacks@.len() == height, inis(stacks@, stack.t(), mem@, lf, mg),
    decreases 2 * p2(hh) - 1 - stack.t(),
//@hint loop 1 start

let ghost m1 = mem@;
let ghost t1 = stack.t();
proof { g.lemma_gframe(m0, m1); stack.lemma_base(m1, lf, mg); assert(!stack.fin()); }
//@hint after update 0
let ghost m2 = mem@;
let ghost ss = stacks@;
let ghost an = apath.nodes@;
proof {
    lemma_ext_trans(m0, m1, m2);
    lemma_rights_frame(an, hh, t1, m1, m2, lf, mg);
    lemma_inis_frame(ss, t1, m1, m2, lf, mg);
    stack.lemma_base(m2, lf, mg);
    lemma_step(stack, an.len() as int, hh, t1, m2, lf, mg);
}
//@hint return 0
proof {
    let m3 = mem@;
    lemma_ext_trans(m0, m2, m3);
    lemma_rights_frame(an, hh, t1, m2, m3, lf, mg);
    lemma_inis_frame(ss, t1, m2, m3, lf, mg);
    lemma_inis_step(stack, ss, ss, hh, t1, m3, lf, mg);
}
//@hint loop 1 end
proof {
    let m3 = mem@;
    lemma_ext_trans(m0, m2, m3);
    lemma_rights_frame(an, hh, t1, m2, m3, lf, mg);
    lemma_inis_frame(ss, t1, m2, m3, lf, mg);
    stack.lemma_base_frame(m2, m3, lf, mg);
    lemma_inis_step(stack, ss, stacks@, hh, t1, m3, lf, mg);
    if stack.s@.last().i == 1 { lemma_right_push(an, apath.nodes@.last(), hh, t1, m3, lf, mg); assert(apath.nodes@ =~= an.push(apath.nodes@.last())); }
}
//@fn MT::refresh props=C14 isolate
    requires old(self).height <= 60, old(self).apath.skn < p2(old(self).height as int), old(self).apath.nodes@.len() == old(self).height, old(self).stacks@.len() == old(self).height,
        forall|d: int| 0 <= d < old(self).height && old(self).apath.skn as int % p2(d) == 0 ==> (#[trigger] old(self).stacks@[d]).s@.len() == 1 && old(self).stacks@[d].s@[0].d == d,
    ensures final(self).height == old(self).height, final(self).root == old(self).root, final(self).apath.skn == old(self).apath.skn,
        final(self).apath.nodes@.len() == old(self).height, final(self).stacks@.len() == old(self).height,
        forall|d: int| 0 <= d < old(self).height ==> refreshed(old(self).stacks@[d], #[trigger] final(self).stacks@[d], d, old(self).apath.skn as int),
        forall|d: int| 0 <= d < old(self).height ==> #[trigger] final(self).apath.nodes@[d] == (if old(self).apath.skn as int % p2(d) == 0 { old(self).stacks@[d].s@[0].h } else { old(self).apath.nodes@[d] }),
//@hint entry
let ghost s0 = *self;
let ghost hh = self.height as int;
let ghost k = self.apath.skn as int;
//@loop 0
    invariant_except_break
        forall|d: int| 0 <= d < it0 ==> refreshed(s0.stacks@[d], #[trigger] self.stacks@[d], d, k),
        forall|d: int| 0 <= d < it0 ==> #[trigger] self.apath.nodes@[d] == (if k % p2(d) == 0 { s0.stacks@[d].s@[0].h } else { s0.apath.nodes@[d] }),
        forall|d: int| it0 <= d < hh ==> #[trigger] self.stacks@[d] == s0.stacks@[d],
        forall|d: int| it0 <= d < hh ==> #[trigger] self.apath.nodes@[d] == s0.apath.nodes@[d],
    invariant it0 <= end0, end0 == hh, hh == self.height, hh <= 60, s0.height == hh, skn == k, s0.apath.skn == k, k < p2(hh), self.root == s0.root, self.apath.skn == k, self.apath.nodes@.len() == hh, self.stacks@.len() == hh,
        s0.stacks@.len() == hh, s0.apath.nodes@.len() == hh,
        forall|d: int| 0 <= d < hh && k % p2(d) == 0 ==> (#[trigger] s0.stacks@[d]).s@.len() == 1 && s0.stacks@[d].s@[0].d == d,
    ensures
        forall|d: int| 0 <= d < hh ==> refreshed(s0.stacks@[d], #[trigger] self.stacks@[d], d, k),
        forall|d: int| 0 <= d < hh ==> #[trigger] self.apath.nodes@[d] == (if k % p2(d) == 0 { s0.stacks@[d].s@[0].h } else { s0.apath.nodes@[d] }),
    decreases end0 - it0,
//@hint loop 0 start
proof {
    lemma_shl(d);
    lemma_p2_mono(hh, 60); assert(p2(60) == 0x1000_0000_0000_0000) by(compute);
    lemma_p2_mono(d as int, 60);
    let e = d as int;
    if k % p2(e) == 0 { lemma_xor(skn, p2(e) as usize, d); assert(s0.stacks@[e] == self.stacks@[e]); }
    else {
        assert forall|c: int| e <= c < hh implies k % #[trigger] p2(c) != 0 by { lemma_not_div(k, e, c); }
    }
}
let ghost g1 = *self;
//@hint loop 0 end
proof {
    assert forall|c: int| 0 <= c < it0 implies refreshed(s0.stacks@[c], #[trigger] self.stacks@[c], c, k) by { if c < it0 - 1 { assert(self.stacks@[c] == g1.stacks@[c]); } }
    assert forall|c: int| 0 <= c < it0 implies #[trigger] self.apath.nodes@[c] == (if k % p2(c) == 0 { s0.stacks@[c].s@[0].h } else { s0.apath.nodes@[c] }) by { if c < it0 - 1 { assert(self.apath.nodes@[c] == g1.apath.nodes@[c]); } }
    assert forall|c: int| it0 <= c < hh implies #[trigger] self.stacks@[c] == s0.stacks@[c] by { assert(self.stacks@[c] == g1.stacks@[c]); }
    assert forall|c: int| it0 <= c < hh implies #[trigger] self.apath.nodes@[c] == s0.apath.nodes@[c] by { assert(self.apath.nodes@[c] == g1.apath.nodes@[c]); }
}
//@fn MT::build_stacks mem=rw props=C14
    requires g.gok(old(mem)@), old(self).height <= 60, p2(old(self).height as int) <= g.glim(), old(self).stacks@.len() == old(self).height,
        forall|d: int| 0 <= d < old(self).height ==> ready(#[trigger] old(self).stacks@[d], d, old(self).height as int, old(mem)@, g.leaves(old(mem)@), m.merged()),
    ensures extends(old(mem)@, final(mem)@), final(self).height == old(self).height, final(self).root == old(self).root, final(self).apath == old(self).apath, final(self).stacks@.len() == old(self).height,
        forall|d: int| 0 <= d < old(self).height ==> built(old(self).stacks@[d], #[trigger] final(self).stacks@[d], d, old(self).height as int, final(mem)@, g.leaves(old(mem)@), m.merged()),
//@hint entry
let ghost s0 = *self;
let ghost m0 = mem@;
let ghost lf = g.leaves(m0);
let ghost mg = m.merged();
let ghost hh = self.height as int;
//@loop 0
    invariant it0 <= end0, end0 == hh, height == hh, hh == self.height, hh <= 60, p2(hh) <= g.glim(), s0.stacks@.len() == hh, self.stacks@.len() == hh, m0 == old(mem)@, extends(m0, mem@), g.gok(m0), lf == g.leaves(m0), mg == m.merged(),
        self.root == s0.root, self.apath == s0.apath,
        forall|d: int| 0 <= d < hh ==> ready(#[trigger] s0.stacks@[d], d, hh, m0, lf, mg),
        forall|d: int| it0 <= d < hh ==> #[trigger] self.stacks@[d] == s0.stacks@[d],
        forall|d: int| 0 <= d < it0 ==> built(s0.stacks@[d], #[trigger] self.stacks@[d], d, hh, mem@, lf, mg),
    decreases end0 - it0,
//@hint loop 0 start
let ghost g1 = *self;
let ghost m1 = mem@;
let ghost o = self.stacks@[d as int];
proof { g.lemma_gframe(m0, m1); assert(o == s0.stacks@[d as int]); assert(ready(o, d as int, hh, m0, lf, mg)); o.lemma_base_frame(m0, m1, lf, mg); o.lemma_base(m1, lf, mg); }
//@hint after update 0
let ghost m2 = mem@;
let ghost o2 = *stack;
proof { lemma_ext_trans(m0, m1, m2); g.lemma_gframe(m0, m2); o2.lemma_base(m2, lf, mg); lemma_p2(d as int); }
//@hint loop 0 end
proof {
    let m3 = mem@;
    lemma_ext_trans(m0, m2, m3); lemma_ext_trans(m1, m2, m3);
    let n = self.stacks@[d as int];
    n.lemma_base(m3, lf, mg);
    assert(built(o, n, d as int, hh, m3, lf, mg));
    assert forall|c: int| 0 <= c < it0 implies built(s0.stacks@[c], #[trigger] self.stacks@[c], c, hh, m3, lf, mg) by {
        if c < it0 - 1 { assert(self.stacks@[c] == g1.stacks@[c]); g1.stacks@[c].lemma_base_frame(m1, m3, lf, mg); }
    }
    assert forall|c: int| it0 <= c < hh implies #[trigger] self.stacks@[c] == s0.stacks@[c] by { assert(self.stacks@[c] == g1.stacks@[c]); }
}
//@fn MT.TraversableMerkleTree::gen mem=rw props=C14
    requires g.gok(old(mem)@), height <= 60, p2(height as int) <= g.glim(),
    ensures extends(old(mem)@, final(mem)@), r.inv(final(mem)@, g.leaves(old(mem)@), m.merged()), r.height == height, r.apath.skn == 0,
//@hint let mt 0
proof { lemma_p2(height as int); lemma_initial(mt, mem@, g.leaves(old(mem)@), m.merged()); }
//@fn MT.TraversableMerkleTree::next mem=rw props=C14
    requires g.gok(old(mem)@), old(self).inv(old(mem)@, g.leaves(old(mem)@), m.merged()), p2(old(self).height as int) <= g.glim(),
    ensures extends(old(mem)@, final(mem)@), final(self).inv(final(mem)@, g.leaves(old(mem)@), m.merged()), final(self).height == old(self).height,
        final(self).apath.skn == (if old(self).apath.skn < p2(old(self).height as int) { old(self).apath.skn + 1 } else { old(self).apath.skn as int }),
        r == (final(self).apath.skn < p2(old(self).height as int)),
//@hint entry
let ghost s0 = *self;
let ghost m0 = mem@;
let ghost lf = g.leaves(m0);
let ghost mg = m.merged();
proof { lemma_p2_mono(self.height as int, 60); assert(p2(60) == 0x1000_0000_0000_0000) by(compute); }
//@hint before refresh 0
let ghost s1 = *self;
proof { lemma_next_pre(s0, m0, lf, mg); }
//@hint after refresh 0
let ghost s2 = *self;
proof { lemma_next_mid(s0, s1, s2, m0, lf, mg); }
//@hint after build_stacks 0
proof { lemma_next_end(s0, s1, s2, *self, m0, mem@, lf, mg); }
//@fn MT.TraversableMerkleTree::root props=C14
    ensures *r == self.root,
//@fn MT.TraversableMerkleTree::height props=C14
    ensures r == self.height,
//@fn MT.TraversableMerkleTree::skn props=C14
    ensures r == self.apath.skn,
//@fn MT.TraversableMerkleTree::apath mem=rw props=C14
    requires self.apath.pok(old(mem)@),
    ensures extends(old(mem)@, final(mem)@), r.skn == self.apath.skn, r.nodes@.len() == self.apath.nodes@.len(), all_fresh(r.nodes@, old(mem)@), r.pok(final(mem)@), r.pv(final(mem)@) == self.apath.pv(old(mem)@),
//@fn Node.PartialEq::eq mem=ro rename=partial_eq cmp:trits=.h props=C15
    requires self.h.nok(mem@), other.h.nok(mem@),
    ensures r == (ndv(*self, mem@) == ndv(*other, mem@)),
//@fn Stack.PartialEq::eq mem=ro rename=partial_eq cmp:trits=$.s props=C15
    requires nds_ok(self.s@, mem@), nds_ok(other.s@, mem@),
    ensures r == (skv(*self, mem@) == skv(*other, mem@)),
//@hint entry
proof { assert(ndsv(self.s@, mem@) =~= skv(*self, mem@).2); assert(ndsv(other.s@, mem@) =~= skv(*other, mem@).2); }
//@fn MT.PartialEq::eq mem=ro rename=partial_eq cmp:trits=$.root,$.apath,$.stacks props=C15
    requires mok(*self, mem@), mok(*other, mem@),
    ensures r == same(*self, mem@, *other, mem@),
//@fn MT.TraversableMerkleTree::store mem=rw props=C15
    requires mok(*self, old(mem)@),
    ensures extends(old(mem)@, final(mem)@), r.0 == self.height, r.1 == self.apath.skn, all_ok(r.2@, final(mem)@), nvs(r.2@, final(mem)@) == nvs(flat(*self), old(mem)@),
//@hint entry
let ghost m0 = mem@;
let ghost ss = self.stacks@;
let ghost p0 = self.apath.nodes@.push(self.root);
proof { assert(ss.take(0) =~= Seq::<Stack<H>>::empty()); }
//@hint let nodes 0
proof { self.root.lemma_nframe(m0, mem@); }
let ghost (ma, o0) = (mem@, nodes@);
//@hint after push 0
proof {
    lemma_ext_trans(m0, ma, mem@); lemma_frame(o0, ma, mem@);
    let x = nodes@[nodes@.len() - 1];
    assert(nodes@ =~= o0.push(x));
    assert forall|i: int| 0 <= i < nodes@.len() implies (#[trigger] nodes@[i]).nok(mem@) by { if i < o0.len() { assert(nodes@[i] == o0[i]); } }
    assert(p0 + chs(ss.take(0)) =~= p0);
    assert(nvs(nodes@, mem@) =~= nvs(o0, mem@).push(x.nv(mem@)));
    assert(nvs(p0, m0) =~= nvs(self.apath.nodes@, m0).push(self.root.nv(m0)));
}
//@loop 0
    invariant m0 == old(mem)@, extends(m0, mem@), mok(*self, m0), ss == self.stacks@, seq0@ == ss, 0 <= it0 <= end0, end0 == ss.len(), p0 == self.apath.nodes@.push(self.root),
        all_ok(nodes@, mem@), nvs(nodes@, mem@) == nvs(p0 + chs(ss.take(it0 as int)), m0),
    decreases end0 - it0,
//@hint loop 0 start
let ghost j0 = it0 - 1;
let ghost sk = ss[j0].s@;
//@loop 1
    invariant m0 == old(mem)@, extends(m0, mem@), mok(*self, m0), ss == self.stacks@, 0 <= j0 < ss.len(), sk == ss[j0].s@, seq1@ == sk, 0 <= it1 <= end1, end1 == sk.len(), p0 == self.apath.nodes@.push(self.root),
        all_ok(nodes@, mem@), nvs(nodes@, mem@) == nvs(p0 + chs(ss.take(j0)) + hs(sk.take(it1 as int)), m0),
    decreases end1 - it1,
//@hint loop 1 start
let ghost m1 = mem@;
let ghost o = nodes@;
let ghost e = it1 - 1;
proof { assert(sk[e].h.nok(m0)) by { assert(ss[j0].s@[e].h.nok(m0)); } lemma_frame(seq![sk[e].h], m0, m1); sk[e].h.lemma_nframe(m0, m1); }
//@hint loop 1 end
proof {
    lemma_ext_trans(m0, m1, mem@); lemma_frame(o, m1, mem@);
    let x = nodes@[nodes@.len() - 1];
    assert(nodes@ =~= o.push(x));
    assert forall|i: int| 0 <= i < nodes@.len() implies (#[trigger] nodes@[i]).nok(mem@) by { if i < o.len() { assert(nodes@[i] == o[i]); } }
    assert(hs(sk.take(e + 1)) =~= hs(sk.take(e)).push(sk[e].h));
    assert(p0 + chs(ss.take(j0)) + hs(sk.take(e + 1)) =~= (p0 + chs(ss.take(j0)) + hs(sk.take(e))).push(sk[e].h));
    assert(nvs(nodes@, mem@) =~= nvs(o, mem@).push(x.nv(mem@)));
    assert(nvs((p0 + chs(ss.take(j0)) + hs(sk.take(e))).push(sk[e].h), m0) =~= nvs(p0 + chs(ss.take(j0)) + hs(sk.take(e)), m0).push(sk[e].h.nv(m0)));
}
//@hint loop 1 pre
proof { assert(hs(sk.take(0)) =~= Seq::<H>::empty()); assert(p0 + chs(ss.take(j0)) + hs(sk.take(0)) =~= p0 + chs(ss.take(j0))); }
//@hint loop 1 post
proof {
    lemma_chs_take(ss, j0); assert(sk.take(sk.len() as int) =~= sk);
    assert(p0 + chs(ss.take(j0)) + hs(sk) =~= p0 + chs(ss.take(j0 + 1)));
}
//@hint loop 0 post
proof { assert(ss.take(ss.len() as int) =~= ss); }
//@fn MT.TraversableMerkleTree::load mem=rw closure:g=DummyLeaf closure:m=DummyMerge nomemrecv=inode.next lety:stacks_len=usize props=C15
    requires height <= 60,
    ensures extends(old(mem)@, final(mem)@), r.is_some() == fit(height as int, skn as int, nodes@.len() as int), r.is_some() ==> loaded(r.unwrap(), height as int, skn as int, nodes@),
//@hint entry
hide(p2); hide(MT::inv); hide(clen); hide(chs); hide(st); hide(fit);
let ghost ns = nodes@;
let ghost m0 = mem@;
let ghost (hh, k) = (height as int, skn as int);
proof { reveal(fit); lemma_p2_mono(hh, 60); lemma_p2_mono(hh, 64); assert(p2(60) == 0x1000_0000_0000_0000) by(compute); lemma_total_ge(hh, k, hh);
    assert(chs(Seq::<Stack<H>>::empty()) =~= Seq::<H>::empty()) by { reveal(chs); }
    if ns.len() == 1 { assert(Seq::<H>::empty().push(ns[0]) + chs(Seq::<Stack<H>>::empty()) =~= ns); }
}
//@hint let dummy_mt 0
proof { assert(dummy(dummy_mt, mem@, hh, 0)); }
//@loop 0
    invariant m0 == old(mem)@, extends(m0, mem@), hh == height, k == skn, height <= 60, p2(hh) <= p2(64), skn < p2(hh), end0 == skn, it0 <= end0, dummy(dummy_mt, mem@, hh, it0 as int),
    decreases end0 - it0,
//@hint loop 0 start
let ghost m1 = mem@;
//@hint loop 0 end
proof { lemma_ext_trans(m0, m1, mem@); }
//@hint let stacks_len 0
let ghost hu = mem@;
let ghost us = dummy_mt.stacks@;
proof {
    reveal(clen);
    assert(dummy_mt.apath.nodes@.len() == hh && us.len() == hh) by { reveal(MT::inv); }
    assert forall|n: int| fit(hh, k, n) == (n == flat(dummy_mt).len()) by { lemma_fit(dummy_mt, hu, DummyLeaf.leaves(hu), DummyMerge.merged(), n); }
    lemma_flat(dummy_mt); lemma_clen_p2(dummy_mt, hu, hh, k, hh);
    assert(us.take(0) =~= Seq::<Stack<()>>::empty());
    assert(us.take(us.len() as int) =~= us);
}
//@loop 1
    invariant seq1@ == us, us == dummy_mt.stacks@, end1 == us.len(), it1 <= end1, stacks_len == clen(us.take(it1 as int)), clen(us) < 0x1000_0000_0000_0000,
    decreases end1 - it1,
//@hint loop 1 start
proof { lemma_chs_take(us, it1 - 1); lemma_clen_le(us, it1 as int); }
//@hint let apath 0
proof { assert(ns.skip(0) =~= ns); assert(ns.take(0) =~= Seq::<H>::empty()); }
//@loop 2
    invariant ns.len() >= height, end2 == height, it2 <= end2, inode.remaining() == ns.skip(it2 as int), apath@ == ns.take(it2 as int),
    decreases end2 - it2,
//@hint loop 2 end
proof { let i = it2 - 1; assert(ns.skip(i).skip(1) =~= ns.skip(i + 1)); assert(ns.take(i).push(ns[i]) =~= ns.take(i + 1)); }
//@hint let stacks 0
proof { reveal(chs); assert(ns.skip(hh).skip(1) =~= ns.skip(hh + 1)); assert(ns.subrange(hh + 1, hh + 1) =~= Seq::<H>::empty()); }
//@loop 3
    invariant seq3@ == us, us == dummy_mt.stacks@, end3 == us.len(), it3 <= end3, hh == height, ns.len() == hh + 1 + clen(us), stacks@.len() == it3,
        inode.remaining() == ns.skip(hh + 1 + clen(us.take(it3 as int))), clen(us.take(it3 as int)) >= 0,
        forall|d: int| 0 <= d < it3 ==> shape(#[trigger] stacks@[d], us[d]), chs(stacks@) == ns.subrange(hh + 1, hh + 1 + clen(us.take(it3 as int))),
    decreases end3 - it3,
//@hint loop 3 start
let ghost d0 = it3 - 1;
let ghost b = hh + 1 + clen(us.take(d0));
let ghost sk = us[d0].s@;
let ghost os = stacks@;
proof { lemma_chs_take(us, d0); lemma_clen_le(us, it3 as int); assert(ns.subrange(b, b) =~= Seq::<H>::empty()); }
//@hint let s 0
proof { assert(hs(s@) =~= Seq::<H>::empty()); }
//@loop 4
    invariant seq4@ == sk, end4 == sk.len(), it4 <= end4, s@.len() == it4, 0 <= b, b + sk.len() <= ns.len(), inode.remaining() == ns.skip(b + it4),
        forall|j: int| 0 <= j < it4 ==> (#[trigger] s@[j]).d == sk[j].d && s@[j].i == sk[j].i, hs(s@) == ns.subrange(b, b + it4),
    decreases end4 - it4,
//@hint loop 4 start
let ghost o = s@;
//@hint loop 4 end
proof {
    let j = it4 - 1;
    assert(s@ =~= o.push(s@[j]));
    assert forall|c: int| 0 <= c < it4 implies (#[trigger] s@[c]).d == sk[c].d && s@[c].i == sk[c].i by { if c < j { assert(s@[c] == o[c]); } }
    assert(ns.skip(b + j).skip(1) =~= ns.skip(b + j + 1));
    assert(hs(s@) =~= hs(o).push(s@[j].h));
    assert(ns.subrange(b, b + j).push(ns[b + j]) =~= ns.subrange(b, b + j + 1));
}
//@hint loop 3 end
proof {
    reveal(chs);
    assert(stacks@ =~= os.push(stacks@[d0]));
    assert(stacks@.drop_last() =~= os);
    assert forall|d: int| 0 <= d < it3 implies shape(#[trigger] stacks@[d], us[d]) by { if d < d0 { assert(stacks@[d] == os[d]); } }
    assert(ns.subrange(hh + 1, b) + ns.subrange(b, b + sk.len()) =~= ns.subrange(hh + 1, b + sk.len()));
}
//@hint exit
proof {
    if tail__.is_some() {
        let t = tail__.unwrap();
        assert(flat(t) =~= ns);
        assert(dummy(dummy_mt, hu, hh, k) && shapes(t.stacks@, us));
    }
}

//@module trits::b1t1
//@file trits/b1t1.rs
//@deps trits::util
//@mem rw
//@assoc Trit.TritWord
//@prelude
use crate::mem::*;
use crate::trits::defs::*;
use crate::trits::util::*;

pub open spec fn sadd(x: Seq<u8>, s: Seq<u8>) -> Seq<u8> { Seq::new(x.len(), |i: int| ((x[i] + s[i]) % 3) as u8) }
pub open spec fn ssub(x: Seq<u8>, s: Seq<u8>) -> Seq<u8> { Seq::new(x.len(), |i: int| ((3 + x[i] - s[i]) % 3) as u8) }
/// the three trits of an unsigned tryte
pub open spec fn tryte3(t: int) -> Seq<u8> { seq![(t % 3) as u8, ((t / 3) % 3) as u8, (t / 9) as u8] }

pub proof fn lemma_sub_add(x: Seq<u8>, s: Seq<u8>)
    requires x.len() == s.len(), is_trits(x), is_trits(s),
    ensures ssub(sadd(x, s), s) == x, sadd(ssub(x, s), s) == x, is_trits(sadd(x, s)), is_trits(ssub(x, s)),
{
    assert forall|i: int| 0 <= i < x.len() implies ssub(sadd(x, s), s)[i] == x[i] && sadd(ssub(x, s), s)[i] == x[i] by {
        assert(x[i] < 3 && s[i] < 3);
    }
    assert(ssub(sadd(x, s), s) =~= x);
    assert(sadd(ssub(x, s), s) =~= x);
}
/// put18/put9/put6: two (three) adjacent writes
proof fn lemma_put2(h: Heap, b: int, o: int, ka: nat, kb: nat, v: int, r: int, q: int)
    requires h.dom().contains(b), v == r + pow3(ka) * q, -half3(ka) <= r <= half3(ka),
    ensures wr(wr(h, b, o, bt(ka, r)), b, o + ka, bt(kb, q)) == wr(h, b, o, bt(ka + kb, v)),
{
    lemma_bt_split(ka, kb, r, q);
    lemma_bt_len(ka, r);
    lemma_bt_len(kb, q);
    lemma_wr_adj(h, b, o, bt(ka, r), bt(kb, q));
}
proof fn lemma_get2(h: Heap, b: int, o: int, ka: int, kb: int)
    requires valid(h, b, o, ka + kb), ka >= 0, kb >= 0, is_trits(rd(h, b, o, ka + kb)),
    ensures ival(rd(h, b, o, ka + kb)) == ival(rd(h, b, o, ka)) + pow3(ka as nat) * ival(rd(h, b, o + ka, kb)),
        is_trits(rd(h, b, o, ka)), is_trits(rd(h, b, o + ka, kb)),
{
    let s = rd(h, b, o, ka + kb);
    assert(rd(h, b, o, ka) =~= s.subrange(0, ka));
    assert(rd(h, b, o + ka, kb) =~= s.subrange(ka, ka + kb));
    assert(s =~= s.subrange(0, ka) + s.subrange(ka, ka + kb));
    lemma_ival_cat(rd(h, b, o, ka), rd(h, b, o + ka, kb));
    assert forall|i: int| 0 <= i < ka implies #[trigger] rd(h, b, o, ka)[i] < 3 by { assert(s[i] < 3); }
    assert forall|i: int| 0 <= i < kb implies #[trigger] rd(h, b, o + ka, kb)[i] < 3 by { assert(s[ka + i] < 3); }
}
//@end
//@fn Trit.TritWord::zero free mem=none
    ensures r == 0,
//@fn Trit.TritWord::unsafe_copy free props=C05
    requires dx + x.off + n <= usize::MAX, dy + y.off + n <= usize::MAX,
        valid(old(mem)@, x.base@, x.off + dx, n as int), valid(old(mem)@, y.base@, y.off + dy, n as int),
    ensures final(mem)@ == wr(old(mem)@, y.base@, y.off + dy, rd(old(mem)@, x.base@, x.off + dx, n as int)),
//@fn Trit.TritWord::unsafe_set_zero free props=C05
    requires d + p.off + n <= usize::MAX, valid(old(mem)@, p.base@, p.off + d, n as int),
    ensures final(mem)@ == wr(old(mem)@, p.base@, p.off + d, zeros(n as int)),
//@fn Trit.TritWord::unsafe_eq free mem=ro props=C05
    requires dx + x.off + n <= usize::MAX, dy + y.off + n <= usize::MAX,
        valid(mem@, x.base@, x.off + dx, n as int), valid(mem@, y.base@, y.off + dy, n as int),
    ensures r == (rd(mem@, x.base@, x.off + dx, n as int) == rd(mem@, y.base@, y.off + dy, n as int)),
//@loop 0
    invariant it0 <= end0 == n, dx + x.off + n <= usize::MAX, dy + y.off + n <= usize::MAX,
        valid(mem@, x.base@, x.off + dx, n as int), valid(mem@, y.base@, y.off + dy, n as int),
        forall|j: int| 0 <= j < it0 ==> #[trigger] rd(mem@, x.base@, x.off + dx, n as int)[j] == rd(mem@, y.base@, y.off + dy, n as int)[j],
    decreases end0 - it0,
//@hint return 0
proof { assert(rd(mem@, x.base@, x.off + dx, n as int)[it0 - 1] != rd(mem@, y.base@, y.off + dy, n as int)[it0 - 1]); }
//@hint exit
proof { assert(rd(mem@, x.base@, x.off + dx, n as int) =~= rd(mem@, y.base@, y.off + dy, n as int)); }
//@fn Trit.TritWord::put_trit free props=C05
    requires d + p.off <= usize::MAX, valid(old(mem)@, p.base@, p.off + d, 1),
    ensures final(mem)@ == wr(old(mem)@, p.base@, p.off + d, seq![t]),
//@fn Trit.TritWord::get_trit free mem=ro props=C05
    requires d + p.off <= usize::MAX, valid(mem@, p.base@, p.off + d, 1),
    ensures r == mem@[p.base@][p.off + d], r == rd(mem@, p.base@, p.off + d, 1)[0],
//@fn Trit.TritWord::put_tryte free props=C04
    requires d + p.off + 3 <= usize::MAX, valid(old(mem)@, p.base@, p.off + d, 3), t < 27,
    ensures final(mem)@ == wr(old(mem)@, p.base@, p.off + d, tryte3(t as int)),
//@hint exit
proof {
    let h = old(mem)@;
    let (b, o) = (p.base@, p.off + d);
    let s = tryte3(t as int);
    assert(mem@[b] =~= wr(h, b, o, s)[b]);
    assert(mem@ =~= wr(h, b, o, s));
}
//@fn Trit.TritWord::get_tryte free mem=ro props=C04
    requires d + p.off + 3 <= usize::MAX, valid(mem@, p.base@, p.off + d, 3), is_trits(rd(mem@, p.base@, p.off + d, 3)),
    ensures r < 27, tryte3(r as int) == rd(mem@, p.base@, p.off + d, 3),
//@hint entry
proof { let s = rd(mem@, p.base@, p.off + d, 3); assert(s[0] < 3 && s[1] < 3 && s[2] < 3); }
//@hint exit
proof { assert(tryte3(tail__ as int) =~= rd(mem@, p.base@, p.off + d, 3)); }
//@fn Trit.TritWord::put1 free props=C03,C04
    requires d + p.off + 1 <= usize::MAX, valid(old(mem)@, p.base@, p.off + d, 1), -1 <= t <= 1,
    ensures final(mem)@ == wr(old(mem)@, p.base@, p.off + d, bt(1, t as int)),
//@hint exit
proof { assert(bt(1, t as int) =~= seq![(t as int % 3) as u8]) by { reveal_with_fuel(bt, 2); } }
//@fn Trit.TritWord::get1 free mem=ro props=C03,C04
    requires d + p.off + 1 <= usize::MAX, valid(mem@, p.base@, p.off + d, 1), is_trits(rd(mem@, p.base@, p.off + d, 1)),
    ensures -1 <= r <= 1, r as int == ival(rd(mem@, p.base@, p.off + d, 1)), r as int == tv(rd(mem@, p.base@, p.off + d, 1)[0]),
//@hint entry
proof { let s = rd(mem@, p.base@, p.off + d, 1); assert(s[0] < 3); reveal_with_fuel(ival, 2); }
//@fn Trit.TritWord::put3 free props=C03,C04
    requires d + p.off + 3 <= usize::MAX, valid(old(mem)@, p.base@, p.off + d, 3), -13 <= t <= 13,
    ensures final(mem)@ == wr(old(mem)@, p.base@, p.off + d, bt(3, t as int)),
//@hint after put1 2
proof {
    let (h, b, o) = (old(mem)@, p.base@, p.off + d);
    lemma_pow3_vals();
    lemma_put2(h, b, o, 1, 1, r0 + 3 * r1, r0 as int, r1 as int);
    lemma_put2(h, b, o, 2, 1, t as int, r0 + 3 * r1, r2 as int);
}
//@fn Trit.TritWord::get3 free mem=ro props=C03,C04
    requires d + p.off + 3 <= usize::MAX, valid(mem@, p.base@, p.off + d, 3), is_trits(rd(mem@, p.base@, p.off + d, 3)),
    ensures -13 <= r <= 13, r as int == ival(rd(mem@, p.base@, p.off + d, 3)),
//@hint entry
proof {
    let (b, o) = (p.base@, p.off + d);
    lemma_get2(mem@, b, o, 1, 2);
    lemma_get2(mem@, b, o + 1, 1, 1);
    lemma_pow3_vals();
}
//@fn Trit.TritWord::put6 free props=C03
    requires d + p.off + 6 <= usize::MAX, valid(old(mem)@, p.base@, p.off + d, 6), -364 <= t <= 364,
    ensures final(mem)@ == wr(old(mem)@, p.base@, p.off + d, bt(6, t as int)),
//@hint entry
proof { lemma_pow3_vals(); }
//@hint exit
proof { lemma_put2(old(mem)@, p.base@, p.off + d, 3, 3, t as int, r0 as int, r1 as int); }
//@fn Trit.TritWord::put9 free props=C03
    requires d + p.off + 9 <= usize::MAX, valid(old(mem)@, p.base@, p.off + d, 9), -9841 <= t <= 9841,
    ensures final(mem)@ == wr(old(mem)@, p.base@, p.off + d, bt(9, t as int)),
//@hint entry
proof { lemma_pow3_vals(); }
//@hint exit
proof {
    lemma_put2(old(mem)@, p.base@, p.off + d, 3, 3, r0 + 27 * r1, r0 as int, r1 as int);
    lemma_put2(old(mem)@, p.base@, p.off + d, 6, 3, t as int, r0 + 27 * r1, r2 as int);
}
//@fn Trit.TritWord::put18 free props=C03
    requires d + p.off + 18 <= usize::MAX, valid(old(mem)@, p.base@, p.off + d, 18), -193710244 <= t <= 193710244,
    ensures final(mem)@ == wr(old(mem)@, p.base@, p.off + d, bt(18, t as int)),
//@hint entry
proof { lemma_pow3_vals(); }
//@hint exit
proof { lemma_put2(old(mem)@, p.base@, p.off + d, 9, 9, t as int, r0 as int, r1 as int); }
//@fn Trit.TritWord::get6 free mem=ro props=C03
    requires d + p.off + 6 <= usize::MAX, valid(mem@, p.base@, p.off + d, 6), is_trits(rd(mem@, p.base@, p.off + d, 6)),
    ensures -364 <= r <= 364, r as int == ival(rd(mem@, p.base@, p.off + d, 6)),
//@hint entry
proof { lemma_get2(mem@, p.base@, p.off + d, 3, 3); lemma_pow3_vals(); }
//@fn Trit.TritWord::get9 free mem=ro props=C03
    requires d + p.off + 9 <= usize::MAX, valid(mem@, p.base@, p.off + d, 9), is_trits(rd(mem@, p.base@, p.off + d, 9)),
    ensures -9841 <= r <= 9841, r as int == ival(rd(mem@, p.base@, p.off + d, 9)),
//@hint entry
proof { lemma_get2(mem@, p.base@, p.off + d, 3, 6); lemma_get2(mem@, p.base@, p.off + d + 3, 3, 3); lemma_pow3_vals(); }
//@fn Trit.TritWord::get18 free mem=ro props=C03
    requires d + p.off + 18 <= usize::MAX, valid(mem@, p.base@, p.off + d, 18), is_trits(rd(mem@, p.base@, p.off + d, 18)),
    ensures -193710244 <= r <= 193710244, r as int == ival(rd(mem@, p.base@, p.off + d, 18)),
//@hint entry
proof { lemma_get2(mem@, p.base@, p.off + d, 9, 9); lemma_pow3_vals(); }
//@fn Trit.TritWord::unsafe_swap_add free props=C01,C05
    requires dx + x.off + n <= usize::MAX, ds + s.off + n <= usize::MAX,
        valid(old(mem)@, x.base@, x.off + dx, n as int), valid(old(mem)@, s.base@, s.off + ds, n as int), x.base@ != s.base@,
        is_trits(rd(old(mem)@, x.base@, x.off + dx, n as int)), is_trits(rd(old(mem)@, s.base@, s.off + ds, n as int)),
    ensures ({
        let h = old(mem)@;
        let vx = rd(h, x.base@, x.off + dx, n as int);
        let vs = rd(h, s.base@, s.off + ds, n as int);
        final(mem)@ == wr(wr(h, x.base@, x.off + dx, sadd(vx, vs)), s.base@, s.off + ds, vx)
    }),
//@hint entry
let ghost h = mem@;
let ghost (xb, xo, sb, so) = (x.base@, x.off + dx, s.base@, s.off + ds);
let ghost vx = rd(h, xb, xo, n as int);
let ghost vs = rd(h, sb, so, n as int);
proof { lemma_wr_empty(h, xb, xo); lemma_wr_empty(h, sb, so);
    assert(sadd(vx, vs).take(0) =~= Seq::<u8>::empty()); assert(vx.take(0) =~= Seq::<u8>::empty()); }
//@loop 0
    invariant it0 <= end0 == n, xb != sb,
        xo + n <= usize::MAX, so + n <= usize::MAX, valid(h, xb, xo, n as int), valid(h, sb, so, n as int),
        vx == rd(h, xb, xo, n as int), vs == rd(h, sb, so, n as int), is_trits(vx), is_trits(vs),
        px.base@ == xb, px.off == xo + it0, ps.base@ == sb, ps.off == so + it0,
        mem@ == wr(wr(h, xb, xo, sadd(vx, vs).take(it0 as int)), sb, so, vx.take(it0 as int)),
    decreases end0 - it0,
//@hint loop 0 start
let ghost k = it0 - 1;
proof { assert(vx[k] < 3 && vs[k] < 3); }
//@hint loop 0 end
proof {
    let hh = wr(wr(h, xb, xo, sadd(vx, vs).take(it0 as int)), sb, so, vx.take(it0 as int));
    assert(mem@[xb] =~= hh[xb]);
    assert(mem@[sb] =~= hh[sb]);
    assert(mem@ =~= hh);
}
//@hint loop 0 post
proof { assert(sadd(vx, vs).take(n as int) =~= sadd(vx, vs)); assert(vx.take(n as int) =~= vx); }
//@fn Trit.TritWord::unsafe_swap_sub free props=C01,C05
    requires dy + y.off + n <= usize::MAX, ds + s.off + n <= usize::MAX,
        valid(old(mem)@, y.base@, y.off + dy, n as int), valid(old(mem)@, s.base@, s.off + ds, n as int), y.base@ != s.base@,
        is_trits(rd(old(mem)@, y.base@, y.off + dy, n as int)), is_trits(rd(old(mem)@, s.base@, s.off + ds, n as int)),
    ensures ({
        let h = old(mem)@;
        let vy = rd(h, y.base@, y.off + dy, n as int);
        let vs = rd(h, s.base@, s.off + ds, n as int);
        final(mem)@ == wr(wr(h, y.base@, y.off + dy, ssub(vy, vs)), s.base@, s.off + ds, ssub(vy, vs))
    }),
//@hint entry
let ghost h = mem@;
let ghost (yb, yo, sb, so) = (y.base@, y.off + dy, s.base@, s.off + ds);
let ghost vy = rd(h, yb, yo, n as int);
let ghost vs = rd(h, sb, so, n as int);
proof { lemma_wr_empty(h, yb, yo); lemma_wr_empty(h, sb, so);
    assert(ssub(vy, vs).take(0) =~= Seq::<u8>::empty()); }
//@loop 0
    invariant it0 <= end0 == n, yb != sb,
        yo + n <= usize::MAX, so + n <= usize::MAX, valid(h, yb, yo, n as int), valid(h, sb, so, n as int),
        vy == rd(h, yb, yo, n as int), vs == rd(h, sb, so, n as int), is_trits(vy), is_trits(vs),
        py.base@ == yb, py.off == yo + it0, ps.base@ == sb, ps.off == so + it0,
        mem@ == wr(wr(h, yb, yo, ssub(vy, vs).take(it0 as int)), sb, so, ssub(vy, vs).take(it0 as int)),
    decreases end0 - it0,
//@hint loop 0 start
let ghost k = it0 - 1;
proof { assert(vy[k] < 3 && vs[k] < 3); }
//@hint loop 0 end
proof {
    let hh = wr(wr(h, yb, yo, ssub(vy, vs).take(it0 as int)), sb, so, ssub(vy, vs).take(it0 as int));
    assert(mem@[yb] =~= hh[yb]);
    assert(mem@[sb] =~= hh[sb]);
    assert(mem@ =~= hh);
}
//@hint loop 0 post
proof { assert(ssub(vy, vs).take(n as int) =~= ssub(vy, vs)); }
//@fn Trit.TritWord::unsafe_copy_add free props=C01,C05
    requires dx + x.off + n <= usize::MAX, ds + s.off + n <= usize::MAX, dy + y.off + n <= usize::MAX,
        valid(old(mem)@, x.base@, x.off + dx, n as int), valid(old(mem)@, s.base@, s.off + ds, n as int), valid(old(mem)@, y.base@, y.off + dy, n as int),
        x.base@ != s.base@, y.base@ != s.base@,
        x.base@ != y.base@ || x.off + dx + n <= y.off + dy || y.off + dy + n <= x.off + dx,
        is_trits(rd(old(mem)@, x.base@, x.off + dx, n as int)), is_trits(rd(old(mem)@, s.base@, s.off + ds, n as int)),
    ensures ({
        let h = old(mem)@;
        let vx = rd(h, x.base@, x.off + dx, n as int);
        let vs = rd(h, s.base@, s.off + ds, n as int);
        final(mem)@ == wr(wr(h, y.base@, y.off + dy, sadd(vx, vs)), s.base@, s.off + ds, vx)
    }),
//@hint entry
let ghost h = mem@;
let ghost (xb, xo, sb, so, yb, yo) = (x.base@, x.off + dx, s.base@, s.off + ds, y.base@, y.off + dy);
let ghost vx = rd(h, xb, xo, n as int);
let ghost vs = rd(h, sb, so, n as int);
proof { lemma_wr_empty(h, yb, yo); lemma_wr_empty(h, sb, so);
    assert(sadd(vx, vs).take(0) =~= Seq::<u8>::empty()); assert(vx.take(0) =~= Seq::<u8>::empty()); }
//@loop 0
    invariant it0 <= end0 == n, xb != sb, yb != sb, xb != yb || xo + n <= yo || yo + n <= xo,
        xo + n <= usize::MAX, so + n <= usize::MAX, yo + n <= usize::MAX,
        valid(h, xb, xo, n as int), valid(h, sb, so, n as int), valid(h, yb, yo, n as int),
        vx == rd(h, xb, xo, n as int), vs == rd(h, sb, so, n as int), is_trits(vx), is_trits(vs),
        px.base@ == xb, px.off == xo + it0, ps.base@ == sb, ps.off == so + it0, py.base@ == yb, py.off == yo + it0,
        mem@ == wr(wr(h, yb, yo, sadd(vx, vs).take(it0 as int)), sb, so, vx.take(it0 as int)),
    decreases end0 - it0,
//@hint loop 0 start
let ghost k = it0 - 1;
proof { assert(vx[k] < 3 && vs[k] < 3); assert(mem@[xb][xo + k] == vx[k]); }
//@hint loop 0 end
proof {
    let hh = wr(wr(h, yb, yo, sadd(vx, vs).take(it0 as int)), sb, so, vx.take(it0 as int));
    assert(mem@[yb] =~= hh[yb]);
    assert(mem@[sb] =~= hh[sb]);
    assert(mem@ =~= hh);
}
//@hint loop 0 post
proof { assert(sadd(vx, vs).take(n as int) =~= sadd(vx, vs)); assert(vx.take(n as int) =~= vx); }
//@fn Trit.TritWord::unsafe_copy_sub free props=C01,C05
    requires dx + x.off + n <= usize::MAX, ds + s.off + n <= usize::MAX, dy + y.off + n <= usize::MAX,
        valid(old(mem)@, x.base@, x.off + dx, n as int), valid(old(mem)@, s.base@, s.off + ds, n as int), valid(old(mem)@, y.base@, y.off + dy, n as int),
        x.base@ != s.base@, y.base@ != s.base@,
        x.base@ != y.base@ || x.off + dx + n <= y.off + dy || y.off + dy + n <= x.off + dx,
        is_trits(rd(old(mem)@, y.base@, y.off + dy, n as int)), is_trits(rd(old(mem)@, s.base@, s.off + ds, n as int)),
    ensures ({
        let h = old(mem)@;
        let vy = rd(h, y.base@, y.off + dy, n as int);
        let vs = rd(h, s.base@, s.off + ds, n as int);
        final(mem)@ == wr(wr(h, x.base@, x.off + dx, ssub(vy, vs)), s.base@, s.off + ds, ssub(vy, vs))
    }),
//@hint entry
let ghost h = mem@;
let ghost (xb, xo, sb, so, yb, yo) = (x.base@, x.off + dx, s.base@, s.off + ds, y.base@, y.off + dy);
let ghost vy = rd(h, yb, yo, n as int);
let ghost vs = rd(h, sb, so, n as int);
proof { lemma_wr_empty(h, xb, xo); lemma_wr_empty(h, sb, so);
    assert(ssub(vy, vs).take(0) =~= Seq::<u8>::empty()); }
//@loop 0
    invariant it0 <= end0 == n, xb != sb, yb != sb, xb != yb || xo + n <= yo || yo + n <= xo,
        xo + n <= usize::MAX, so + n <= usize::MAX, yo + n <= usize::MAX,
        valid(h, xb, xo, n as int), valid(h, sb, so, n as int), valid(h, yb, yo, n as int),
        vy == rd(h, yb, yo, n as int), vs == rd(h, sb, so, n as int), is_trits(vy), is_trits(vs),
        px.base@ == xb, px.off == xo + it0, ps.base@ == sb, ps.off == so + it0, py.base@ == yb, py.off == yo + it0,
        mem@ == wr(wr(h, xb, xo, ssub(vy, vs).take(it0 as int)), sb, so, ssub(vy, vs).take(it0 as int)),
    decreases end0 - it0,
//@hint loop 0 start
let ghost k = it0 - 1;
proof { assert(vy[k] < 3 && vs[k] < 3); assert(mem@[yb][yo + k] == vy[k]); }
//@hint loop 0 end
proof {
    let hh = wr(wr(h, xb, xo, ssub(vy, vs).take(it0 as int)), sb, so, ssub(vy, vs).take(it0 as int));
    assert(mem@[xb] =~= hh[xb]);
    assert(mem@[sb] =~= hh[sb]);
    assert(mem@ =~= hh);
}
//@hint loop 0 post
proof { assert(ssub(vy, vs).take(n as int) =~= ssub(vy, vs)); }

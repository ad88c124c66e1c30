//@module troika
//@file troika.rs
//@deps mem trits::defs
//@mem none
//@struct T27 derive(Clone, Copy)
//@struct Troika derive(Clone, Copy)
//@prelude
use crate::mem::*;
use crate::trits::defs::*;
//@end
//@fn T27::new props=C18
    ensures r == T27(p, n),
//@fn T27::clean props=C18
    ensures self.wf() ==> r == *self,
//@hint entry
proof { lemma_bits_clean(self.0, self.1); }
//@fn T27::add props=C18
    ensures self.wf() && other.wf() ==> r.wf() && forall|z: int| 0 <= z < 27 ==> #[trigger] r.t(z) == add3(self.t(z), other.t(z)),
//@hint exit
proof {
    if self.wf() && other.wf() {
        lemma_bits_add_wf(self.0, self.1, other.0, other.1);
        assert forall|z: int| 0 <= z < 27 implies #[trigger] tail__.t(z) == add3(self.t(z), other.t(z)) by { lemma_bits_add(self.0, self.1, other.0, other.1, z as u32); }
    }
}
//@fn T27::mul props=C18
    ensures self.wf() && other.wf() ==> r.wf() && forall|z: int| 0 <= z < 27 ==> #[trigger] r.t(z) == mul3(self.t(z), other.t(z)),
//@hint exit
proof {
    if self.wf() && other.wf() {
        lemma_bits_mul_wf(self.0, self.1, other.0, other.1);
        assert forall|z: int| 0 <= z < 27 implies #[trigger] tail__.t(z) == mul3(self.t(z), other.t(z)) by { lemma_bits_mul(self.0, self.1, other.0, other.1, z as u32); }
    }
}
//@fn T27::zero props=C18
    ensures r.wf(), forall|z: int| 0 <= z < 27 ==> #[trigger] r.t(z) == 0,
//@hint exit
proof { lemma_bits_const(); assert forall|z: int| 0 <= z < 27 implies #[trigger] tail__.t(z) == 0 by { lemma_bits_constz(z as u32); } }
//@fn T27::one props=C18
    ensures r.wf(), forall|z: int| 0 <= z < 27 ==> #[trigger] r.t(z) == 1,
//@hint exit
proof { lemma_bits_const(); assert forall|z: int| 0 <= z < 27 implies #[trigger] tail__.t(z) == 1 by { lemma_bits_constz(z as u32); } }
//@fn T27::minus props=C18
    ensures r.wf(), forall|z: int| 0 <= z < 27 ==> #[trigger] r.t(z) == 2,
//@hint exit
proof { lemma_bits_const(); assert forall|z: int| 0 <= z < 27 implies #[trigger] tail__.t(z) == 2 by { lemma_bits_constz(z as u32); } }
//@fn T27::dec props=C18
    ensures self.wf() ==> r.wf() && forall|z: int| 0 <= z < 27 ==> #[trigger] r.t(z) == add3(2, self.t(z)),
//@fn T27::inc props=C18
    ensures self.wf() ==> r.wf() && forall|z: int| 0 <= z < 27 ==> #[trigger] r.t(z) == add3(1, self.t(z)),
//@fn T27::set props=C18
    requires pos < 27,
    ensures old(self).wf() ==> final(self).wf() && forall|z: int| 0 <= z < 27 ==> #[trigger] final(self).t(z) == if z == pos { if value == 1 { 1int } else if value == 2 { 2int } else { 0int } } else { old(self).t(z) },
//@hint exit
proof {
    let (p, n) = (old(self).0, old(self).1);
    if old(self).wf() {
        lemma_bits_set_wf(p, n, pos as u32);
        assert forall|z: int| 0 <= z < 27 implies #[trigger] self.t(z) == if z == pos { if value == 1 { 1int } else if value == 2 { 2int } else { 0int } } else { old(self).t(z) } by { lemma_bits_set(p, n, pos as u32, z as u32); }
        assert(1u32 << pos == 1u32 << (pos as u32)) by { lemma_shl_usize(pos); }
    }
}
//@fn T27::get props=C18
    requires pos < 27,
    ensures r as int == self.t(pos as int), r < 3,
//@hint entry
proof { lemma_shl_usize(pos); lemma_bits_get(self.0, pos as u32); lemma_bits_get(self.1, pos as u32); }
//@fn T27::roll props=C18
    requires by <= 27,
    ensures self.wf() ==> r.wf() && forall|z: int| 0 <= z < 27 ==> #[trigger] r.t(z) == self.t((z + 27 - by) % 27),
//@hint exit
proof {
    if self.wf() {
        lemma_roll_usize(self.0, by);
        lemma_roll_usize(self.1, by);
        lemma_bits_roll_wf(self.0, self.1, by as u32);
        assert forall|z: int| 0 <= z < 27 implies #[trigger] tail__.t(z) == self.t((z + 27 - by) % 27) by { lemma_bits_roll(self.0, by as u32, z as u32); lemma_bits_roll(self.1, by as u32, z as u32); }
    }
}
//@fn Troika::new props=C18
    ensures r.wf(), r@ == zeros(729),
//@fn Troika.Default::default props=C18
    ensures r.wf(), r@ == zeros(729),
//@hint entry
proof { need_copy::<T27>(); }
//@hint exit
proof { assert forall|i: int| 0 <= i < 729 implies #[trigger] tail__@[i] == zeros(729)[i] by {} assert(tail__@ =~= zeros(729)); }
//@fn Troika::zeroize props=C19
    requires old(self).wf(),
    ensures final(self).wf(), final(self)@ == s_zeroize(old(self)@),
//@loop 0
    invariant end0 == 27, it0 <= end0, mask == 0x07fffe00u32, old(self).wf(),
        forall|l: int| 0 <= l < 27 ==> #[trigger] self.state@[l] == if l < it0 { T27(old(self).state@[l].0 & mask, old(self).state@[l].1 & mask) } else { old(self).state@[l] },
    decreases end0 - it0,
//@hint exit
proof {
    assert forall|l: int| 0 <= l < 27 implies (#[trigger] self.state@[l]).wf() by { lemma_bits_zeroize_wf(old(self).state@[l].0, old(self).state@[l].1); assert(old(self).state@[l].wf()); }
    assert forall|i: int| 0 <= i < 729 implies #[trigger] self@[i] == s_zeroize(old(self)@)[i] by {
        let l = i % 27; let z = i / 27;
        lemma_bits_zeroize(old(self).state@[l].0, z as u32);
        lemma_bits_zeroize(old(self).state@[l].1, z as u32);
    }
    assert(self@ =~= s_zeroize(old(self)@));
}
//@fn Troika::set1 props=C18
    requires old(self).wf(), idx < 729,
    ensures final(self).wf(), trit < 3 ==> final(self)@ == old(self)@.update(idx as int, trit),
//@hint exit
proof {
    let k = idx as int;
    assert(self.state@ =~= old(self).state@.update(k % 27, self.state@[k % 27]));
    assert forall|l: int| 0 <= l < 27 implies (#[trigger] self.state@[l]).wf() by { assert(old(self).state@[l].wf()); }
    if trit < 3 {
        assert forall|i: int| 0 <= i < 729 implies #[trigger] self@[i] == old(self)@.update(k, trit)[i] by {
            if i % 27 == k % 27 && i / 27 == k / 27 { assert(i == k); }
        }
        assert(self@ =~= old(self)@.update(k, trit));
    }
}
//@fn Troika::get1 props=C18
    requires idx < 729,
    ensures r == self@[idx as int], r < 3,
//@fn Troika::set props=C19
    requires old(self).wf(), idx + trits.len() <= 729, is_trits(trits@),
    ensures final(self).wf(), final(self)@ == splice(old(self)@, idx as int, trits@),
//@loop 0
    invariant seq0@ == trits@, end0 == trits.len(), it0 <= end0, self.wf(), idx + trits.len() <= 729, is_trits(trits@), i == idx + it0,
        self@ == splice(old(self)@, idx as int, trits@.take(it0 as int)),
    decreases end0 - it0,
//@hint loop 0 pre
proof { assert(self@ =~= splice(old(self)@, idx as int, trits@.take(it0 as int))); }
//@hint loop 0 end
proof { assert(self@ =~= splice(old(self)@, idx as int, trits@.take(it0 as int))); }
//@hint exit
proof { assert(trits@.take(trits.len() as int) =~= trits@); }
//@fn Troika::get formut=0 props=C19
    requires idx + old(trits).len() <= 729,
    ensures final(trits)@ == self@.subrange(idx as int, idx + old(trits).len()),
//@loop 0
    invariant end0 == trits.len(), end0 == old(trits).len(), it0 <= end0, idx + old(trits).len() <= 729, i == idx + it0,
        forall|j: int| 0 <= j < it0 ==> #[trigger] trits@[j] == self@[idx + j],
    decreases end0 - it0,
//@hint exit
proof { assert(trits@ =~= self@.subrange(idx as int, idx + old(trits).len())); }
//@fn Troika::permutation props=C18
    requires old(self).wf(),
    ensures final(self).wf(), final(self)@ == s_perm(old(self)@),
//@loop 0
    invariant end0 == 24, it0 <= end0, self.wf(), s_rounds(self@, it0 as int) == s_rounds(old(self)@, 0), s_perm(old(self)@) == s_rounds(old(self)@, 0),
    decreases end0 - it0,
//@hint loop 0 pre
proof { reveal(s_perm); }
//@hint loop 0 start
proof { reveal_with_fuel(s_rounds, 2); }
//@fn Troika::sub_tryte props=C18
    requires old(a).len() == 3, old(a)@[0].wf(), old(a)@[1].wf(), old(a)@[2].wf(),
    ensures final(a).len() == 3, final(a)@[0].wf(), final(a)@[1].wf(), final(a)@[2].wf(),
        forall|z: int, k: int| 0 <= z < 27 && 0 <= k < 3 ==> #[trigger] final(a)@[k].t(z) == sbox(old(a)@[0].t(z), old(a)@[1].t(z), old(a)@[2].t(z), k),
//@hint exit
proof {
    assert forall|z: int, k: int| 0 <= z < 27 && 0 <= k < 3 implies #[trigger] a@[k].t(z) == sbox(old(a)@[0].t(z), old(a)@[1].t(z), old(a)@[2].t(z), k) by {
        assert(k == 0 || k == 1 || k == 2);
    }
}
//@fn Troika::sub_trytes props=C18 isolate
    requires old(self).wf(),
    ensures final(self).wf(), final(self)@ == s_sub(old(self)@),
//@loop 0
    invariant end0 == 27, it0 <= 27, it0 % 3 == 0, old(self).wf(), self.wf(),
        forall|l: int, z: int| 0 <= l < 27 && 0 <= z < 27 ==> #[trigger] self.state@[l].t(z) ==
            if l < it0 { sbox(old(self).state@[l - l % 3].t(z), old(self).state@[l - l % 3 + 1].t(z), old(self).state@[l - l % 3 + 2].t(z), l % 3) } else { old(self).state@[l].t(z) },
    decreases end0 - it0,
//@hint loop 0 start
let ghost s1 = *self;
let ghost b = it0 - 3;
//@hint loop 0 end
proof {
    assert forall|l: int| 0 <= l < 27 implies (#[trigger] self.state@[l]).wf() by { assert(s1.state@[l].wf()); }
    assert forall|l: int, z: int| 0 <= l < 27 && 0 <= z < 27 implies #[trigger] self.state@[l].t(z) ==
            if l < it0 { sbox(old(self).state@[l - l % 3].t(z), old(self).state@[l - l % 3 + 1].t(z), old(self).state@[l - l % 3 + 2].t(z), l % 3) } else { old(self).state@[l].t(z) } by {
        if l < b || l >= it0 { assert(self.state@[l] == s1.state@[l]); assert(s1.state@[l].t(z) == s1.state@[l].t(z)); } else {
            assert(l - l % 3 == b);
            assert(s1.state@[b].t(z) == old(self).state@[b].t(z));
            assert(s1.state@[b + 1].t(z) == old(self).state@[b + 1].t(z));
            assert(s1.state@[b + 2].t(z) == old(self).state@[b + 2].t(z));
        }
    }
}
//@hint exit
proof {
    reveal(s_sub);
    assert forall|i: int| 0 <= i < 729 implies #[trigger] self@[i] == s_sub(old(self)@)[i] by {
        let l = i % 27; let z = i / 27;
        assert(self.state@[l].t(z) == self.state@[l].t(z));
    }
    assert(self@ =~= s_sub(old(self)@));
}
//@fn Troika::swap3 props=C18
    requires old(self).wf(), a < 27, b < 27, c < 27, a != b, b != c, a != c,
    ensures final(self).wf(), final(self).state@ == old(self).state@.update(a as int, old(self).state@[b as int]).update(b as int, old(self).state@[c as int]).update(c as int, old(self).state@[a as int]),
//@hint exit
proof {
    assert forall|l: int| 0 <= l < 27 implies (#[trigger] self.state@[l]).wf() by { assert(old(self).state@[a as int].wf() && old(self).state@[b as int].wf() && old(self).state@[c as int].wf() && old(self).state@[l].wf()); }
}
//@fn Troika::shift_rows props=C18
    requires old(self).wf(),
    ensures final(self).wf(), final(self)@ == s_rows(old(self)@),
//@hint exit
proof {
    reveal(s_rows);
    assert forall|l: int| 0 <= l < 27 implies #[trigger] self.state@[l] == old(self).state@[row_src(l)] by {}
    assert forall|i: int| 0 <= i < 729 implies #[trigger] self@[i] == s_rows(old(self)@)[i] by { assert(self.state@[i % 27] == old(self).state@[row_src(i % 27)]); }
    assert(self@ =~= s_rows(old(self)@));
}
//@fn Troika::shift_lanes props=C18
    requires old(self).wf(),
    ensures final(self).wf(), final(self)@ == s_lanes(old(self)@),
//@loop 0
    invariant end0 == 27, it0 <= 27, old(self).wf(), self.wf(),
        forall|l: int| it0 <= l < 27 ==> #[trigger] self.state@[l] == old(self).state@[l],
        forall|l: int, z: int| 0 <= l < it0 && 0 <= z < 27 ==> #[trigger] self.state@[l].t(z) == old(self).state@[l].t((z + 27 - shift_of(l)) % 27),
        forall|l: int| 0 <= l < 27 ==> 0 <= #[trigger] SHIFTS@[l] <= 27 && SHIFTS@[l] as int == shift_of(l),
    decreases end0 - it0,
//@hint loop 0 start
let ghost s1 = *self;
//@hint loop 0 end
proof {
    assert forall|l: int| 0 <= l < 27 implies (#[trigger] self.state@[l]).wf() by { assert(s1.state@[l].wf()); }
    assert forall|l: int, z: int| 0 <= l < it0 && 0 <= z < 27 implies #[trigger] self.state@[l].t(z) == old(self).state@[l].t((z + 27 - shift_of(l)) % 27) by {
        if l < it0 - 1 { assert(self.state@[l] == s1.state@[l]); assert(s1.state@[l].t(z) == s1.state@[l].t(z)); }
    }
}
//@hint exit
proof {
    reveal(s_lanes);
    assert forall|i: int| 0 <= i < 729 implies #[trigger] self@[i] == s_lanes(old(self)@)[i] by { assert(self.state@[i % 27].t(i / 27) == self.state@[i % 27].t(i / 27)); }
    assert(self@ =~= s_lanes(old(self)@));
}
//@fn Troika::add_column_parity props=C18 isolate
    requires old(self).wf(),
    ensures final(self).wf(), final(self)@ == s_par(old(self)@),
//@loop 0
    invariant end0 == 9, it0 <= 9, old(self).wf(), *self == *old(self),
        forall|c: int| 0 <= c < it0 ==> (#[trigger] parity@[c]).wf(),
        forall|c: int, z: int| 0 <= c < it0 && 0 <= z < 27 ==> #[trigger] parity@[c].t(z) == parl(self.state@, c, 3, z),
    decreases end0 - it0,
//@loop 1
    invariant end1 == 3, it1 <= 3, col < 9, self.wf(), col_sum.wf(),
        forall|z: int| 0 <= z < 27 ==> #[trigger] col_sum.t(z) == parl(self.state@, col as int, it1 as int, z),
    decreases end1 - it1,
//@hint loop 1 start
proof { assert(self.state@[9 * (it1 - 1) + col].wf()); }
//@loop 2
    invariant end2 == 3, it2 <= 3, old(self).wf(), self.wf(),
        forall|c: int| 0 <= c < 9 ==> (#[trigger] parity@[c]).wf(),
        forall|c: int, z: int| 0 <= c < 9 && 0 <= z < 27 ==> #[trigger] parity@[c].t(z) == parl(old(self).state@, c, 3, z),
        forall|l: int| 9 * it2 <= l < 27 ==> #[trigger] self.state@[l] == old(self).state@[l],
        forall|l: int, z: int| 0 <= l < 9 * it2 && 0 <= z < 27 ==> #[trigger] self.state@[l].t(z) == parv(old(self).state@, l, z),
    decreases end2 - it2,
//@loop 3
    invariant end3 == 9, it3 <= 9, row == it2 - 1, 0 <= row < 3, old(self).wf(), self.wf(),
        forall|c: int| 0 <= c < 9 ==> (#[trigger] parity@[c]).wf(),
        forall|c: int, z: int| 0 <= c < 9 && 0 <= z < 27 ==> #[trigger] parity@[c].t(z) == parl(old(self).state@, c, 3, z),
        forall|l: int| 9 * row + it3 <= l < 27 ==> #[trigger] self.state@[l] == old(self).state@[l],
        forall|l: int, z: int| 0 <= l < 9 * row + it3 && 0 <= z < 27 ==> #[trigger] self.state@[l].t(z) == parv(old(self).state@, l, z),
    decreases end3 - it3,
//@hint loop 3 start
let ghost s1 = *self;
proof { assert(self.state@[9 * row + (it3 - 1)].wf()); }
//@hint loop 3 end
proof {
    let k = 9 * row + (it3 - 1);
    let x = it3 - 1;
    assert(k % 9 == x);
    assert forall|l: int| 0 <= l < 27 implies (#[trigger] self.state@[l]).wf() by { assert(s1.state@[l].wf()); }
    assert forall|l: int, z: int| 0 <= l < k + 1 && 0 <= z < 27 implies #[trigger] self.state@[l].t(z) == parv(old(self).state@, l, z) by {
        if l < k { assert(self.state@[l] == s1.state@[l]); assert(s1.state@[l].t(z) == s1.state@[l].t(z)); } else {
            let x1 = if x == 0 { 8 } else { x - 1 };
            let x2 = if x == 8 { 0 } else { x + 1 };
            assert(x1 == (x + 8) % 9 && x2 == (x + 1) % 9);
            assert((z + 27 - 26) % 27 == (z + 1) % 27);
            assert(parity@[x1].t(z) == parl(old(self).state@, x1, 3, z));
            assert(parity@[x2].t((z + 1) % 27) == parl(old(self).state@, x2, 3, (z + 1) % 27));
            assert(self.state@[k].t(z) == add3(s1.state@[k].t(z), add3(parl(old(self).state@, x1, 3, z), parl(old(self).state@, x2, 3, (z + 1) % 27))));
        }
    }
}
//@hint exit
proof {
    reveal(s_par);
    assert forall|i: int| 0 <= i < 729 implies #[trigger] self@[i] == s_par(old(self)@)[i] by {
        let l = i % 27; let z = i / 27;
        assert(self.state@[l].t(z) == parv(old(self).state@, l, z));
        let x1 = (l % 9 + 8) % 9; let x2 = (l % 9 + 1) % 9; let z2 = (z + 1) % 27;
        lemma_parl(*old(self), x1, z);
        lemma_parl(*old(self), x2, z2);
    }
    assert(self@ =~= s_par(old(self)@));
}
//@fn Troika::add_round_constant props=C18
    requires old(self).wf(), round < 24,
    ensures final(self).wf(), final(self)@ == s_rc(old(self)@, round as int),
//@loop 0
    invariant end0 == 9, it0 <= 9, round < 24, old(self).wf(), self.wf(),
        forall|l: int| it0 <= l < 27 ==> #[trigger] self.state@[l] == old(self).state@[l],
        forall|l: int, z: int| 0 <= l < it0 && 0 <= z < 27 ==> #[trigger] self.state@[l].t(z) == add3(old(self).state@[l].t(z), FROUND_CONSTANTS@[round as int]@[l].t(z)),
    decreases end0 - it0,
//@hint loop 0 start
let ghost s1 = *self;
proof { lemma_constants_wf(round as int, it0 - 1); }
//@hint loop 0 end
proof {
    assert forall|l: int| 0 <= l < 27 implies (#[trigger] self.state@[l]).wf() by { assert(s1.state@[l].wf()); }
    assert forall|l: int, z: int| 0 <= l < it0 && 0 <= z < 27 implies #[trigger] self.state@[l].t(z) == add3(old(self).state@[l].t(z), FROUND_CONSTANTS@[round as int]@[l].t(z)) by {
        if l < it0 - 1 { assert(self.state@[l] == s1.state@[l]); assert(s1.state@[l].t(z) == s1.state@[l].t(z)); }
    }
}
//@hint exit
proof {
    reveal(s_rc);
    assert forall|i: int| 0 <= i < 729 implies #[trigger] self@[i] == s_rc(old(self)@, round as int)[i] by {
        assert(self.state@[i % 27].t(i / 27) == self.state@[i % 27].t(i / 27));
    }
    assert(self@ =~= s_rc(old(self)@, round as int));
}
//@fn TroikaSponge.Default::default props=C19
    ensures r.wf(), r@ == (TS { s: zeros(729), i: 0 }),
//@fn TroikaSponge::reset props=C19
    requires old(self).wf(),
    ensures final(self).wf(), final(self)@ == (TS { s: zeros(729), i: 0 }),
//@hint exit
proof { assert(self.transform@ =~= zeros(729)); }
//@fn TroikaSponge::avail props=C19
    requires self.index <= self.rate,
    ensures r == self.rate - self.index,
//@fn TroikaSponge::absorb props=C19
    requires old(self).wf(), is_trits(trits@),
    ensures final(self).wf(), final(self)@ == ts_absorb(old(self)@, trits@),
//@loop 0
    invariant self.wf(), is_trits(trits@), trit_idx + length == trits.len(), ts_absorb(self@, trits@.skip(trit_idx as int)) == ts_absorb(old(self)@, trits@),
    decreases length,
//@hint loop 0 pre
proof { assert(trits@.skip(0) =~= trits@); }
//@hint loop 0 start
let ghost a0 = self@;
let ghost k0 = trit_idx as int;
//@hint loop 0 end
proof {
    let xs = trits@.skip(k0);
    let n = trit_idx - k0;
    lemma_absorb_bulk(a0, xs, n);
    assert(xs.skip(n) =~= trits@.skip(trit_idx as int));
    assert(xs.take(n) =~= trits@.subrange(k0, trit_idx as int));
    lemma_zeroize_splice(a0.s, xs.take(n));
}
//@hint exit
proof { assert(trits@.skip(trits.len() as int) =~= Seq::<u8>::empty()); }
//@fn TroikaSponge::finalize props=C19
    requires old(self).wf(),
    ensures final(self).wf(), final(self)@ == ts_finalize(old(self)@),
//@hint before absorb 0
proof { assert(pad@ =~= seq![1u8]); }
//@fn TroikaSponge::squeeze props=C19
    requires old(self).wf(),
    ensures final(self).wf(), final(self)@ == ts_squeeze(old(self)@, old(trits).len() as int), final(trits)@ == ts_out(old(self)@, old(trits).len() as int),
//@loop 0
    invariant self.wf(), trits.len() == old(trits).len(), trit_idx + length == trits.len(),
        self@ == ts_squeeze(old(self)@, trit_idx as int), trits@.take(trit_idx as int) == ts_out(old(self)@, trit_idx as int),
    decreases length,
//@hint loop 0 pre
proof { assert(trits@.take(0) =~= Seq::<u8>::empty()); }
//@hint loop 0 start
let ghost a0 = self@;
let ghost k0 = trit_idx as int;
let ghost v0 = trits@;
//@hint loop 0 end
proof {
    let n = trit_idx - k0;
    lemma_squeeze_cat(old(self)@, k0, n);
    lemma_squeeze_bulk(a0, n);
    assert(trits@.take(trit_idx as int) =~= v0.take(k0) + a0.s.subrange(a0.i, a0.i + n));
}
//@hint exit
proof { assert(trits@.take(trits.len() as int) =~= trits@); }
//@postlude
impl Troika {
    pub open spec fn wf(self) -> bool { forall|l: int| 0 <= l < 27 ==> (#[trigger] self.state@[l]).wf() }
    /// the 729 trits of the state; trit 27*z + l is bit z of lane l
    pub open spec fn view(self) -> Seq<u8> { Seq::new(729, |i: int| self.state@[i % 27].t(i / 27) as u8) }
}
/// trit (lane, z) of a state
pub open spec fn at(s: Seq<u8>, l: int, z: int) -> int { s[27 * z + l] as int }
/// the state whose trit (lane, z) is f(lane, z)
pub open spec fn mkst(f: spec_fn(int, int) -> int) -> Seq<u8> { Seq::new(729, |i: int| f(i % 27, i / 27) as u8) }
pub open spec fn s_zeroize(s: Seq<u8>) -> Seq<u8> { Seq::new(729, |i: int| if i < 243 { 0u8 } else { s[i] }) }
/// component k of the S-box on three trits
pub open spec fn sbox(a0: int, a1: int, a2: int, k: int) -> int {
    let d = add3(2, a0);
    let e = add3(mul3(d, a1), a2);
    let f = add3(mul3(e, a1), d);
    let g = add3(mul3(e, f), a1);
    if k == 0 { g } else if k == 1 { f } else { e }
}
#[verifier::opaque]
pub open spec fn s_sub(s: Seq<u8>) -> Seq<u8> { mkst(|l: int, z: int| sbox(at(s, l - l % 3, z), at(s, l - l % 3 + 1, z), at(s, l - l % 3 + 2, z), l % 3)) }
/// row y is rotated by y trytes: lane = 9*y + x
pub open spec fn row_src(l: int) -> int { 9 * (l / 9) + (l % 9 + 9 - 3 * (l / 9)) % 9 }
#[verifier::opaque]
pub open spec fn s_rows(s: Seq<u8>) -> Seq<u8> { mkst(|l: int, z: int| at(s, row_src(l), z)) }
pub open spec fn shift_of(l: int) -> int { seq![19int, 13, 21, 10, 24, 15, 2, 9, 3, 14, 0, 6, 5, 1, 25, 22, 23, 20, 7, 17, 26, 12, 8, 18, 16, 11, 4][l] }
#[verifier::opaque]
pub open spec fn s_lanes(s: Seq<u8>) -> Seq<u8> { mkst(|l: int, z: int| at(s, l, (z + 27 - shift_of(l)) % 27)) }
/// column parity
pub open spec fn par(s: Seq<u8>, x: int, z: int) -> int { (at(s, x, z) + at(s, 9 + x, z) + at(s, 18 + x, z)) % 3 }
#[verifier::opaque]
pub open spec fn s_par(s: Seq<u8>) -> Seq<u8> { mkst(|l: int, z: int| (at(s, l, z) + par(s, (l % 9 + 8) % 9, z) + par(s, (l % 9 + 1) % 9, (z + 1) % 27)) % 3) }
#[verifier::opaque]
pub open spec fn s_rc(s: Seq<u8>, r: int) -> Seq<u8> { mkst(|l: int, z: int| if l < 9 { add3(at(s, l, z), FROUND_CONSTANTS@[r]@[l].t(z)) } else { at(s, l, z) }) }
pub open spec fn s_round(s: Seq<u8>, r: int) -> Seq<u8> { s_rc(s_par(s_lanes(s_rows(s_sub(s)))), r) }
pub open spec fn s_rounds(s: Seq<u8>, r: int) -> Seq<u8> decreases 24 - r { if r >= 24 { s } else { s_rounds(s_round(s, r), r + 1) } }
#[verifier::opaque]
pub open spec fn s_perm(s: Seq<u8>) -> Seq<u8> { s_rounds(s, 0) }
pub open spec fn is_state(s: Seq<u8>) -> bool { s.len() == 729 && is_trits(s) }

/// sum of the first k rows of column x
pub open spec fn parl(st: Seq<T27>, x: int, k: int, z: int) -> int decreases k { if k <= 0 { 0 } else { add3(parl(st, x, k - 1, z), st[9 * (k - 1) + x].t(z)) } }
pub open spec fn parv(st: Seq<T27>, l: int, z: int) -> int { add3(st[l].t(z), add3(parl(st, (l % 9 + 8) % 9, 3, z), parl(st, (l % 9 + 1) % 9, 3, (z + 1) % 27))) }
proof fn lemma_parl(s: Troika, x: int, z: int)
    requires s.wf(), 0 <= x < 9, 0 <= z < 27,
    ensures parl(s.state@, x, 3, z) == par(s@, x, z),
{ reveal_with_fuel(parl, 4); }
spec fn constants_wf(i: int) -> bool decreases 216 - i { i >= 216 || (FROUND_CONSTANTS@[i / 9]@[i % 9].wf() && constants_wf(i + 1)) }
proof fn lemma_constants_from(i: int, j: int)
    requires 0 <= i <= j < 216, constants_wf(i),
    ensures FROUND_CONSTANTS@[j / 9]@[j % 9].wf(),
    decreases j - i,
{ if i < j { lemma_constants_from(i + 1, j); } }
proof fn lemma_constants_wf(r: int, c: int)
    requires 0 <= r < 24, 0 <= c < 9,
    ensures FROUND_CONSTANTS@[r]@[c].wf(),
{
    assert(constants_wf(0)) by(compute);
    lemma_constants_from(0, 9 * r + c);
    assert((9 * r + c) / 9 == r && (9 * r + c) % 9 == c);
}
proof fn lemma_bits_zeroize_wf(p: u32, n: u32)
    requires p & n == 0, p <= 0x07ffffff, n <= 0x07ffffff,
    ensures (p & 0x07fffe00u32) & (n & 0x07fffe00u32) == 0, p & 0x07fffe00u32 <= 0x07ffffff, n & 0x07fffe00u32 <= 0x07ffffff,
{ assert(p & n == 0 && p <= 0x07ffffff && n <= 0x07ffffff ==> (p & 0x07fffe00u32) & (n & 0x07fffe00u32) == 0 && p & 0x07fffe00u32 <= 0x07ffffff && n & 0x07fffe00u32 <= 0x07ffffff) by(bit_vector); }
proof fn lemma_bits_zeroize(p: u32, z: u32)
    requires z < 27,
    ensures ((p & 0x07fffe00u32) >> z) & 1 == if z < 9 { 0u32 } else { (p >> z) & 1 },
{ assert(z < 27 ==> ((p & 0x07fffe00u32) >> z) & 1 == if z < 9 { 0u32 } else { (p >> z) & 1 }) by(bit_vector); }
impl T27 {
    pub open spec fn wf(self) -> bool { self.0 & self.1 == 0 && self.0 <= 0x07ffffff && self.1 <= 0x07ffffff }
    pub open spec fn t(self, z: int) -> int { if (self.0 >> (z as u32)) & 1 == 1 { 1 } else if (self.1 >> (z as u32)) & 1 == 1 { 2 } else { 0 } }
}
pub open spec fn add3(a: int, b: int) -> int { (a + b) % 3 }
pub open spec fn mul3(a: int, b: int) -> int { (a * b) % 3 }

proof fn lemma_shl_usize(x: usize)
    requires x < 27,
    ensures 1u32 << x == 1u32 << (x as u32),
{ assert(x < 27 ==> 1u32 << x == 1u32 << (x as u32)) by(bit_vector); }
proof fn lemma_roll_usize(p: u32, by: usize)
    requires by <= 27,
    ensures p << by == p << (by as u32), p >> ((27 - by) as usize) == p >> ((27 - (by as u32)) as u32),
{
    assert(by <= 27 ==> p << by == p << (by as u32)) by(bit_vector);
    let c = (27 - by) as usize;
    assert(c <= 27 ==> p >> c == p >> (c as u32)) by(bit_vector);
}
proof fn lemma_bits_clean(p: u32, n: u32)
    ensures p <= 0x07ffffff ==> p & 0x07ffffffu32 == p, n <= 0x07ffffff ==> n & 0x07ffffffu32 == n,
{
    assert(p <= 0x07ffffff ==> p & 0x07ffffffu32 == p) by(bit_vector);
    assert(n <= 0x07ffffff ==> n & 0x07ffffffu32 == n) by(bit_vector);
}
proof fn lemma_bits_const()
    ensures 0u32 & 0u32 == 0, 0x07ffffffu32 & 0u32 == 0, 0u32 & 0x07ffffffu32 == 0,
{ assert(0u32 & 0u32 == 0 && 0x07ffffffu32 & 0u32 == 0 && 0u32 & 0x07ffffffu32 == 0) by(bit_vector); }
proof fn lemma_bits_constz(z: u32)
    requires z < 27,
    ensures (0u32 >> z) & 1 == 0, (0x07ffffffu32 >> z) & 1 == 1,
{ assert(z < 27 ==> (0u32 >> z) & 1 == 0 && (0x07ffffffu32 >> z) & 1 == 1) by(bit_vector); }
proof fn lemma_bits_get(p: u32, z: u32)
    requires z < 27,
    ensures (p & (1u32 << z) != 0) == ((p >> z) & 1 == 1),
{ assert(z < 27 ==> ((p & (1u32 << z) != 0) == ((p >> z) & 1 == 1))) by(bit_vector); }
proof fn lemma_bits_set_wf(p: u32, n: u32, pos: u32)
    requires pos < 27, p & n == 0, p <= 0x07ffffff, n <= 0x07ffffff,
    ensures ({ let m = 1u32 << pos; let (q, k) = (p & !m, n & !m);
        &&& q & k == 0 && (q | m) & k == 0 && q & (k | m) == 0
        &&& q <= 0x07ffffff && k <= 0x07ffffff && (q | m) <= 0x07ffffff && (k | m) <= 0x07ffffff }),
{
    let m = 1u32 << pos;
    assert(pos < 27 && p & n == 0 && p <= 0x07ffffff && n <= 0x07ffffff && m == 1u32 << pos ==> (p & !m) & (n & !m) == 0 && ((p & !m) | m) & (n & !m) == 0 && (p & !m) & ((n & !m) | m) == 0
        && (p & !m) <= 0x07ffffff && (n & !m) <= 0x07ffffff && ((p & !m) | m) <= 0x07ffffff && ((n & !m) | m) <= 0x07ffffff) by(bit_vector);
}
proof fn lemma_bits_set(p: u32, n: u32, pos: u32, z: u32)
    requires pos < 27, z < 27,
    ensures ({ let m = 1u32 << pos; let (q, k) = (p & !m, n & !m);
        &&& z != pos ==> (q >> z) & 1 == (p >> z) & 1 && (k >> z) & 1 == (n >> z) & 1 && ((q | m) >> z) & 1 == (p >> z) & 1 && ((k | m) >> z) & 1 == (n >> z) & 1
        &&& z == pos ==> (q >> z) & 1 == 0 && (k >> z) & 1 == 0 && ((q | m) >> z) & 1 == 1 && ((k | m) >> z) & 1 == 1 }),
{
    let m = 1u32 << pos;
    assert(pos < 27 && z < 27 && z != pos && m == 1u32 << pos ==> ((p & !m) >> z) & 1 == (p >> z) & 1 && (((p & !m) | m) >> z) & 1 == (p >> z) & 1) by(bit_vector);
    assert(pos < 27 && z < 27 && z != pos && m == 1u32 << pos ==> ((n & !m) >> z) & 1 == (n >> z) & 1 && (((n & !m) | m) >> z) & 1 == (n >> z) & 1) by(bit_vector);
    assert(pos < 27 && z == pos && m == 1u32 << pos ==> ((p & !m) >> z) & 1 == 0 && ((n & !m) >> z) & 1 == 0 && (((p & !m) | m) >> z) & 1 == 1 && (((n & !m) | m) >> z) & 1 == 1) by(bit_vector);
}
proof fn lemma_bits_add_wf(p1: u32, n1: u32, p2: u32, n2: u32)
    requires p1 & n1 == 0, p2 & n2 == 0, p1 <= 0x07ffffff, n1 <= 0x07ffffff, p2 <= 0x07ffffff, n2 <= 0x07ffffff,
    ensures ({ let sz = !(p1 | n1); let p = !((n1 ^ n2) | (sz ^ p2)); let n = !((p1 ^ p2) | (sz ^ n2)); p & n == 0 && p <= 0x07ffffff && n <= 0x07ffffff }),
{
    let sz = !(p1 | n1);
    assert(p1 & n1 == 0 && p2 & n2 == 0 && p1 <= 0x07ffffff && n1 <= 0x07ffffff && p2 <= 0x07ffffff && n2 <= 0x07ffffff && sz == !(p1 | n1) ==>
        (!((n1 ^ n2) | (sz ^ p2))) & (!((p1 ^ p2) | (sz ^ n2))) == 0 && !((n1 ^ n2) | (sz ^ p2)) <= 0x07ffffff && !((p1 ^ p2) | (sz ^ n2)) <= 0x07ffffff) by(bit_vector);
}
proof fn lemma_bits_add(p1: u32, n1: u32, p2: u32, n2: u32, z: u32)
    requires z < 27, p1 & n1 == 0, p2 & n2 == 0,
    ensures T27(!((n1 ^ n2) | (!(p1 | n1) ^ p2)), !((p1 ^ p2) | (!(p1 | n1) ^ n2))).t(z as int) == add3(T27(p1, n1).t(z as int), T27(p2, n2).t(z as int)),
{
    let sz = !(p1 | n1);
    let (a, b, c, d) = ((p1 >> z) & 1, (n1 >> z) & 1, (p2 >> z) & 1, (n2 >> z) & 1);
    let (p, n) = (!((n1 ^ n2) | (sz ^ p2)), !((p1 ^ p2) | (sz ^ n2)));
    assert(p1 & n1 == 0 && z < 27 ==> !((p1 >> z) & 1 == 1 && (n1 >> z) & 1 == 1)) by(bit_vector);
    assert(p2 & n2 == 0 && z < 27 ==> !((p2 >> z) & 1 == 1 && (n2 >> z) & 1 == 1)) by(bit_vector);
    assert(z < 27 && sz == !(p1 | n1) && p == !((n1 ^ n2) | (sz ^ p2)) ==> (((p >> z) & 1 == 1) ==
        ((((n1 >> z) & 1 == 1) == ((n2 >> z) & 1 == 1)) && ((!((p1 >> z) & 1 == 1) && !((n1 >> z) & 1 == 1)) == ((p2 >> z) & 1 == 1))))) by(bit_vector);
    assert(z < 27 && sz == !(p1 | n1) && n == !((p1 ^ p2) | (sz ^ n2)) ==> (((n >> z) & 1 == 1) ==
        ((((p1 >> z) & 1 == 1) == ((p2 >> z) & 1 == 1)) && ((!((p1 >> z) & 1 == 1) && !((n1 >> z) & 1 == 1)) == ((n2 >> z) & 1 == 1))))) by(bit_vector);
}
proof fn lemma_bits_mul_wf(p1: u32, n1: u32, p2: u32, n2: u32)
    requires p1 & n1 == 0, p2 & n2 == 0, p1 <= 0x07ffffff, n1 <= 0x07ffffff, p2 <= 0x07ffffff, n2 <= 0x07ffffff,
    ensures ({ let p = (p1 & p2) | (n1 & n2); let n = (p1 & n2) | (n1 & p2); p & n == 0 && p <= 0x07ffffff && n <= 0x07ffffff }),
{
    assert(p1 & n1 == 0 && p2 & n2 == 0 && p1 <= 0x07ffffff && n1 <= 0x07ffffff && p2 <= 0x07ffffff && n2 <= 0x07ffffff ==>
        ((p1 & p2) | (n1 & n2)) & ((p1 & n2) | (n1 & p2)) == 0 && ((p1 & p2) | (n1 & n2)) <= 0x07ffffff && ((p1 & n2) | (n1 & p2)) <= 0x07ffffff) by(bit_vector);
}
proof fn lemma_bits_mul(p1: u32, n1: u32, p2: u32, n2: u32, z: u32)
    requires z < 27, p1 & n1 == 0, p2 & n2 == 0,
    ensures T27((p1 & p2) | (n1 & n2), (p1 & n2) | (n1 & p2)).t(z as int) == mul3(T27(p1, n1).t(z as int), T27(p2, n2).t(z as int)),
{
    let (p, n) = ((p1 & p2) | (n1 & n2), (p1 & n2) | (n1 & p2));
    assert(p1 & n1 == 0 && z < 27 ==> !((p1 >> z) & 1 == 1 && (n1 >> z) & 1 == 1)) by(bit_vector);
    assert(p2 & n2 == 0 && z < 27 ==> !((p2 >> z) & 1 == 1 && (n2 >> z) & 1 == 1)) by(bit_vector);
    assert(z < 27 && p == (p1 & p2) | (n1 & n2) ==> (((p >> z) & 1 == 1) ==
        (((p1 >> z) & 1 == 1) && ((p2 >> z) & 1 == 1) || ((n1 >> z) & 1 == 1) && ((n2 >> z) & 1 == 1)))) by(bit_vector);
    assert(z < 27 && n == (p1 & n2) | (n1 & p2) ==> (((n >> z) & 1 == 1) ==
        (((p1 >> z) & 1 == 1) && ((n2 >> z) & 1 == 1) || ((n1 >> z) & 1 == 1) && ((p2 >> z) & 1 == 1)))) by(bit_vector);
}
proof fn lemma_bits_roll_wf(p: u32, n: u32, by: u32)
    requires by <= 27, p & n == 0, p <= 0x07ffffff, n <= 0x07ffffff,
    ensures ({ let c = (27 - by) as u32; let q = ((p << by) | (p >> c)) & 0x07ffffff; let k = ((n << by) | (n >> c)) & 0x07ffffff; q & k == 0 && q <= 0x07ffffff && k <= 0x07ffffff }),
{
    let c = (27 - by) as u32;
    assert(by + c == 27);
    assert(by <= 27 && c == sub(27u32, by) && p & n == 0 && p <= 0x07ffffff && n <= 0x07ffffff ==>
        (((p << by) | (p >> c)) & 0x07ffffff) & (((n << by) | (n >> c)) & 0x07ffffff) == 0 && ((p << by) | (p >> c)) & 0x07ffffff <= 0x07ffffff && ((n << by) | (n >> c)) & 0x07ffffff <= 0x07ffffff) by(bit_vector);
}
proof fn lemma_bits_roll(p: u32, by: u32, z: u32)
    requires by <= 27, z < 27, p <= 0x07ffffff,
    ensures ({ let c = (27 - by) as u32; let q = ((p << by) | (p >> c)) & 0x07ffffff; let y = ((z + 27 - by) % 27) as u32; (q >> z) & 1 == (p >> y) & 1 }),
{
    let c = (27 - by) as u32;
    let y = ((z + 27 - by) % 27) as u32;
    let q = ((p << by) | (p >> c)) & 0x07ffffff;
    if z >= by {
        assert(y == z - by || (by == 0 && y == z));
        let y1 = (z - by) as u32;
        assert(by <= 27 && z < 27 && z >= by && c == sub(27u32, by) && y1 == sub(z, by) && p <= 0x07ffffff && q == ((p << by) | (p >> c)) & 0x07ffffff ==> (q >> z) & 1 == (p >> y1) & 1) by(bit_vector);
    } else {
        let y1 = (z + 27 - by) as u32;
        assert(by <= 27 && z < by && c == sub(27u32, by) && y1 == sub(add(z, 27u32), by) && p <= 0x07ffffff && q == ((p << by) | (p >> c)) & 0x07ffffff ==> (q >> z) & 1 == (p >> y1) & 1) by(bit_vector);
    }
}

// ---- the permutation is injective
pub proof fn lemma_ext(a: Seq<u8>, b: Seq<u8>)
    requires is_state(a), is_state(b), forall|l: int, z: int| 0 <= l < 27 && 0 <= z < 27 ==> #[trigger] at(a, l, z) == at(b, l, z),
    ensures a == b,
{
    assert forall|i: int| 0 <= i < 729 implies a[i] == b[i] by { let l = i % 27; let z = i / 27; assert(at(a, l, z) == at(b, l, z)); }
    assert(a =~= b);
}
pub proof fn lemma_mkst(f: spec_fn(int, int) -> int)
    requires forall|l: int, z: int| 0 <= l < 27 && 0 <= z < 27 ==> 0 <= #[trigger] f(l, z) < 3,
    ensures is_state(mkst(f)), forall|l: int, z: int| 0 <= l < 27 && 0 <= z < 27 ==> #[trigger] at(mkst(f), l, z) == f(l, z),
{
    assert forall|i: int| 0 <= i < 729 implies #[trigger] mkst(f)[i] < 3 by { let l = i % 27; let z = i / 27; assert(0 <= f(l, z) < 3); }
    assert forall|l: int, z: int| 0 <= l < 27 && 0 <= z < 27 implies #[trigger] at(mkst(f), l, z) == f(l, z) by {
        assert((27 * z + l) % 27 == l && (27 * z + l) / 27 == z);
        assert(0 <= f(l, z) < 3);
    }
}
proof fn lemma_sbox_inv(a0: int, a1: int, a2: int)
    requires 0 <= a0 < 3, 0 <= a1 < 3, 0 <= a2 < 3,
    ensures sbox_ok(a0, a1, a2),
{
    hide(sbox_ok);
    assert(sbox_check(0)) by(compute_only);
    let i = 9 * a0 + 3 * a1 + a2;
    lemma_sbox_check(0, i);
    assert(i / 9 == a0 && (i / 3) % 3 == a1 && i % 3 == a2);
}
spec fn sbox_ok(a0: int, a1: int, a2: int) -> bool {
    let (g, f, e) = (sbox(a0, a1, a2, 0), sbox(a0, a1, a2, 1), sbox(a0, a1, a2, 2));
    let b1 = add3(g, 2 * mul3(e, f)); let d = add3(f, 2 * mul3(e, b1)); let b0 = add3(d, 1); let b2 = add3(e, 2 * mul3(d, b1));
    a0 == b0 && a1 == b1 && a2 == b2 && 0 <= g < 3 && 0 <= f < 3 && 0 <= e < 3
}
spec fn sbox_check(i: int) -> bool decreases 27 - i { i >= 27 || (sbox_ok(i / 9, (i / 3) % 3, i % 3) && sbox_check(i + 1)) }
proof fn lemma_sbox_check(i: int, j: int)
    requires 0 <= i <= j < 27, sbox_check(i),
    ensures sbox_ok(j / 9, (j / 3) % 3, j % 3),
    decreases j - i,
{ hide(sbox_ok); if i < j { lemma_sbox_check(i + 1, j); } }
proof fn lemma_cancel3(a: int, b: int, t: int)
    requires 0 <= a < 3, 0 <= b < 3, (a + t) % 3 == (b + t) % 3,
    ensures a == b,
{}
proof fn lemma_par3(a: int, b: int, c: int, t: int)
    ensures ((a + t) % 3 + (b + t) % 3 + (c + t) % 3) % 3 == (a + b + c) % 3,
{}
proof fn lemma_sbox_inj(a0: int, a1: int, a2: int, b0: int, b1: int, b2: int)
    requires 0 <= a0 < 3, 0 <= a1 < 3, 0 <= a2 < 3, 0 <= b0 < 3, 0 <= b1 < 3, 0 <= b2 < 3,
        sbox(a0, a1, a2, 0) == sbox(b0, b1, b2, 0), sbox(a0, a1, a2, 1) == sbox(b0, b1, b2, 1), sbox(a0, a1, a2, 2) == sbox(b0, b1, b2, 2),
    ensures a0 == b0, a1 == b1, a2 == b2,
{
    lemma_sbox_inv(a0, a1, a2);
    lemma_sbox_inv(b0, b1, b2);
}
proof fn lemma_at(s: Seq<u8>)
    requires is_state(s),
    ensures forall|l: int, z: int| 0 <= l < 27 && 0 <= z < 27 ==> 0 <= #[trigger] at(s, l, z) < 3,
{
    assert forall|l: int, z: int| 0 <= l < 27 && 0 <= z < 27 implies 0 <= #[trigger] at(s, l, z) < 3 by { assert(s[27 * z + l] < 3); }
}
pub proof fn lemma_sub(s: Seq<u8>)
    requires is_state(s),
    ensures is_state(s_sub(s)), forall|l: int, z: int| 0 <= l < 27 && 0 <= z < 27 ==> #[trigger] at(s_sub(s), l, z) == sbox(at(s, l - l % 3, z), at(s, l - l % 3 + 1, z), at(s, l - l % 3 + 2, z), l % 3),
{
    reveal(s_sub);
    lemma_at(s);
    lemma_mkst(|l: int, z: int| sbox(at(s, l - l % 3, z), at(s, l - l % 3 + 1, z), at(s, l - l % 3 + 2, z), l % 3));
}
pub proof fn lemma_rows(s: Seq<u8>)
    requires is_state(s),
    ensures is_state(s_rows(s)), forall|l: int, z: int| 0 <= l < 27 && 0 <= z < 27 ==> #[trigger] at(s_rows(s), l, z) == at(s, row_src(l), z),
{
    reveal(s_rows);
    lemma_at(s);
    lemma_mkst(|l: int, z: int| at(s, row_src(l), z));
}
pub proof fn lemma_lanes(s: Seq<u8>)
    requires is_state(s),
    ensures is_state(s_lanes(s)), forall|l: int, z: int| 0 <= l < 27 && 0 <= z < 27 ==> #[trigger] at(s_lanes(s), l, z) == at(s, l, (z + 27 - shift_of(l)) % 27),
{
    reveal(s_lanes);
    lemma_at(s);
    lemma_mkst(|l: int, z: int| at(s, l, (z + 27 - shift_of(l)) % 27));
}
pub proof fn lemma_par(s: Seq<u8>)
    requires is_state(s),
    ensures is_state(s_par(s)), forall|l: int, z: int| 0 <= l < 27 && 0 <= z < 27 ==> #[trigger] at(s_par(s), l, z) == (at(s, l, z) + par(s, (l % 9 + 8) % 9, z) + par(s, (l % 9 + 1) % 9, (z + 1) % 27)) % 3,
{
    reveal(s_par);
    lemma_at(s);
    lemma_mkst(|l: int, z: int| (at(s, l, z) + par(s, (l % 9 + 8) % 9, z) + par(s, (l % 9 + 1) % 9, (z + 1) % 27)) % 3);
}
pub proof fn lemma_rc(s: Seq<u8>, r: int)
    requires is_state(s),
    ensures is_state(s_rc(s, r)), forall|l: int, z: int| 0 <= l < 27 && 0 <= z < 27 ==> #[trigger] at(s_rc(s, r), l, z) == if l < 9 { add3(at(s, l, z), FROUND_CONSTANTS@[r]@[l].t(z)) } else { at(s, l, z) },
{
    reveal(s_rc);
    lemma_at(s);
    lemma_mkst(|l: int, z: int| if l < 9 { add3(at(s, l, z), FROUND_CONSTANTS@[r]@[l].t(z)) } else { at(s, l, z) });
}
proof fn lemma_sub_inj(a: Seq<u8>, b: Seq<u8>)
    requires is_state(a), is_state(b), s_sub(a) == s_sub(b),
    ensures a == b,
{
    hide(sbox);
    lemma_sub(a); lemma_sub(b); lemma_at(a); lemma_at(b);
    assert forall|l: int, z: int| 0 <= l < 27 && 0 <= z < 27 implies #[trigger] at(a, l, z) == at(b, l, z) by {
        let k = l - l % 3;
        let s = s_sub(a);
        assert(at(s, k, z) == sbox(at(a, k, z), at(a, k + 1, z), at(a, k + 2, z), 0));
        assert(at(s, k + 1, z) == sbox(at(a, k, z), at(a, k + 1, z), at(a, k + 2, z), 1));
        assert(at(s, k + 2, z) == sbox(at(a, k, z), at(a, k + 1, z), at(a, k + 2, z), 2));
        assert(at(s, k, z) == sbox(at(b, k, z), at(b, k + 1, z), at(b, k + 2, z), 0));
        assert(at(s, k + 1, z) == sbox(at(b, k, z), at(b, k + 1, z), at(b, k + 2, z), 1));
        assert(at(s, k + 2, z) == sbox(at(b, k, z), at(b, k + 1, z), at(b, k + 2, z), 2));
        lemma_sbox_inj(at(a, k, z), at(a, k + 1, z), at(a, k + 2, z), at(b, k, z), at(b, k + 1, z), at(b, k + 2, z));
        assert(l == k || l == k + 1 || l == k + 2);
    }
    lemma_ext(a, b);
}
proof fn lemma_rows_inj(a: Seq<u8>, b: Seq<u8>)
    requires is_state(a), is_state(b), s_rows(a) == s_rows(b),
    ensures a == b,
{
    lemma_rows(a); lemma_rows(b);
    assert forall|l: int, z: int| 0 <= l < 27 && 0 <= z < 27 implies #[trigger] at(a, l, z) == at(b, l, z) by {
        let d = 9 * (l / 9) + (l % 9 + 3 * (l / 9)) % 9;
        assert(row_src(d) == l);
        assert(0 <= d < 27);
        assert(at(s_rows(a), d, z) == at(a, l, z));
        assert(at(s_rows(b), d, z) == at(b, l, z));
    }
    lemma_ext(a, b);
}
proof fn lemma_lanes_inj(a: Seq<u8>, b: Seq<u8>)
    requires is_state(a), is_state(b), s_lanes(a) == s_lanes(b),
    ensures a == b,
{
    lemma_lanes(a); lemma_lanes(b);
    assert forall|l: int, z: int| 0 <= l < 27 && 0 <= z < 27 implies #[trigger] at(a, l, z) == at(b, l, z) by {
        assert(0 <= shift_of(l) < 27);
        let y = (z + shift_of(l)) % 27;
        assert((y + 27 - shift_of(l)) % 27 == z);
        assert(at(s_lanes(a), l, y) == at(a, l, z));
        assert(at(s_lanes(b), l, y) == at(b, l, z));
    }
    lemma_ext(a, b);
}
proof fn lemma_par_keeps(s: Seq<u8>, x: int, z: int)
    requires is_state(s), 0 <= x < 9, 0 <= z < 27,
    ensures par(s_par(s), x, z) == par(s, x, z),
{
    lemma_par(s);
    let t = par(s, (x + 8) % 9, z) + par(s, (x + 1) % 9, (z + 1) % 27);
    assert(at(s_par(s), x, z) == (at(s, x, z) + t) % 3);
    assert((9 + x) % 9 == x && (18 + x) % 9 == x);
    assert(at(s_par(s), 9 + x, z) == (at(s, 9 + x, z) + t) % 3);
    assert(at(s_par(s), 18 + x, z) == (at(s, 18 + x, z) + t) % 3);
    lemma_par3(at(s, x, z), at(s, 9 + x, z), at(s, 18 + x, z), t);
}
proof fn lemma_par_inj(a: Seq<u8>, b: Seq<u8>)
    requires is_state(a), is_state(b), s_par(a) == s_par(b),
    ensures a == b,
{
    hide(par);
    lemma_par(a); lemma_par(b); lemma_at(a); lemma_at(b);
    assert forall|l: int, z: int| 0 <= l < 27 && 0 <= z < 27 implies #[trigger] at(a, l, z) == at(b, l, z) by {
        let (x1, x2, z2) = ((l % 9 + 8) % 9, (l % 9 + 1) % 9, (z + 1) % 27);
        lemma_par_keeps(a, x1, z); lemma_par_keeps(b, x1, z);
        lemma_par_keeps(a, x2, z2); lemma_par_keeps(b, x2, z2);
        let t = par(a, x1, z) + par(a, x2, z2);
        assert(par(b, x1, z) == par(a, x1, z));
        assert(par(b, x2, z2) == par(a, x2, z2));
        assert(at(s_par(a), l, z) == (at(a, l, z) + par(a, x1, z) + par(a, x2, z2)) % 3);
        assert(at(s_par(b), l, z) == (at(b, l, z) + par(b, x1, z) + par(b, x2, z2)) % 3);
        assert(0 <= at(a, l, z) < 3 && 0 <= at(b, l, z) < 3);
        lemma_cancel3(at(a, l, z), at(b, l, z), t);
    }
    lemma_ext(a, b);
}
proof fn lemma_rc_inj(a: Seq<u8>, b: Seq<u8>, r: int)
    requires is_state(a), is_state(b), s_rc(a, r) == s_rc(b, r),
    ensures a == b,
{
    lemma_rc(a, r); lemma_rc(b, r); lemma_at(a); lemma_at(b);
    assert forall|l: int, z: int| 0 <= l < 27 && 0 <= z < 27 implies #[trigger] at(a, l, z) == at(b, l, z) by {
        let c = FROUND_CONSTANTS@[r]@[l].t(z);
        assert(at(s_rc(a, r), l, z) == if l < 9 { add3(at(a, l, z), c) } else { at(a, l, z) });
        assert(at(s_rc(b, r), l, z) == if l < 9 { add3(at(b, l, z), c) } else { at(b, l, z) });
        assert(0 <= at(a, l, z) < 3 && 0 <= at(b, l, z) < 3);
    }
    lemma_ext(a, b);
}
pub proof fn lemma_round(a: Seq<u8>, r: int)
    requires is_state(a),
    ensures is_state(s_round(a, r)),
{
    let a1 = s_sub(a); lemma_sub(a);
    let a2 = s_rows(a1); lemma_rows(a1);
    let a3 = s_lanes(a2); lemma_lanes(a2);
    let a4 = s_par(a3); lemma_par(a3);
    lemma_rc(a4, r);
}
proof fn lemma_round_inj(a: Seq<u8>, b: Seq<u8>, r: int)
    requires is_state(a), is_state(b), s_round(a, r) == s_round(b, r),
    ensures a == b,
{
    let a1 = s_sub(a); lemma_sub(a);
    let a2 = s_rows(a1); lemma_rows(a1);
    let a3 = s_lanes(a2); lemma_lanes(a2);
    let a4 = s_par(a3); lemma_par(a3);
    let b1 = s_sub(b); lemma_sub(b);
    let b2 = s_rows(b1); lemma_rows(b1);
    let b3 = s_lanes(b2); lemma_lanes(b2);
    let b4 = s_par(b3); lemma_par(b3);
    lemma_rc_inj(a4, b4, r);
    lemma_par_inj(a3, b3);
    lemma_lanes_inj(a2, b2);
    lemma_rows_inj(a1, b1);
    lemma_sub_inj(a, b);
}
proof fn lemma_rounds_inj(a: Seq<u8>, b: Seq<u8>, r: int)
    requires is_state(a), is_state(b), s_rounds(a, r) == s_rounds(b, r),
    ensures a == b,
    decreases 24 - r,
{
    if r < 24 {
        lemma_round(a, r); lemma_round(b, r);
        lemma_rounds_inj(s_round(a, r), s_round(b, r), r + 1);
        lemma_round_inj(a, b, r);
    }
}
proof fn lemma_rounds_state(a: Seq<u8>, r: int)
    requires is_state(a),
    ensures is_state(s_rounds(a, r)),
    decreases 24 - r,
{ if r < 24 { lemma_round(a, r); lemma_rounds_state(s_round(a, r), r + 1); } }
/// C18: the permutation maps distinct states to distinct states
pub proof fn lemma_perm_inj(a: Seq<u8>, b: Seq<u8>)
    requires is_state(a), is_state(b), s_perm(a) == s_perm(b),
    ensures a == b,
{ reveal(s_perm); lemma_rounds_inj(a, b, 0); }
pub proof fn lemma_perm_state(a: Seq<u8>)
    requires is_state(a),
    ensures is_state(s_perm(a)),
{ reveal(s_perm); lemma_rounds_state(a, 0); }
pub proof fn lemma_view_state(s: Troika)
    requires s.wf(),
    ensures is_state(s@),
{
    assert forall|i: int| 0 <= i < 729 implies #[trigger] s@[i] < 3 by {}
}

// ---- the hash sponge
/// state and position of the hash sponge
pub struct TS { pub s: Seq<u8>, pub i: int }
impl TroikaSponge {
    pub open spec fn wf(self) -> bool { self.transform.wf() && self.rate == 243 && self.index < 243 }
    pub open spec fn view(self) -> TS { TS { s: self.transform@, i: self.index as int } }
}
pub open spec fn ts_step(a: TS) -> TS { if a.i >= 243 { TS { s: s_perm(a.s), i: 0 } } else { a } }
pub open spec fn ts_absorb1(a: TS, t: u8) -> TS {
    let s = if a.i == 0 { s_zeroize(a.s) } else { a.s };
    ts_step(TS { s: s.update(a.i, t), i: a.i + 1 })
}
pub open spec fn ts_absorb(a: TS, xs: Seq<u8>) -> TS decreases xs.len() { if xs.len() == 0 { a } else { ts_absorb(ts_absorb1(a, xs[0]), xs.skip(1)) } }
pub open spec fn ts_squeeze1(a: TS) -> TS { ts_step(TS { s: a.s, i: a.i + 1 }) }
pub open spec fn ts_squeeze(a: TS, n: int) -> TS decreases n { if n <= 0 { a } else { ts_squeeze1(ts_squeeze(a, n - 1)) } }
pub open spec fn ts_out(a: TS, n: int) -> Seq<u8> decreases n { if n <= 0 { Seq::empty() } else { let b = ts_squeeze(a, n - 1); ts_out(a, n - 1).push(b.s[b.i]) } }
pub open spec fn ts_finalize(a: TS) -> TS { let b = ts_absorb(a, seq![1u8]); if b.i != 0 { TS { s: s_perm(b.s), i: 0 } } else { b } }
pub open spec fn ts_ok(a: TS) -> bool { a.s.len() == 729 && 0 <= a.i < 243 }

proof fn lemma_zeroize_splice(s: Seq<u8>, xs: Seq<u8>) {}
proof fn lemma_ts_ok(a: TS)
    requires ts_ok(a),
    ensures ts_ok(ts_squeeze1(a)), forall|t: u8| ts_ok(#[trigger] ts_absorb1(a, t)),
{ lemma_perm_len(a.s); assert forall|t: u8| ts_ok(#[trigger] ts_absorb1(a, t)) by { lemma_perm_len(s_zeroize(a.s).update(a.i, t)); lemma_perm_len(a.s.update(a.i, t)); } }
proof fn lemma_rounds_len(s: Seq<u8>, r: int)
    requires s.len() == 729,
    ensures s_rounds(s, r).len() == 729,
    decreases 24 - r,
{ if r < 24 { reveal(s_rc); lemma_rounds_len(s_round(s, r), r + 1); } }
pub proof fn lemma_perm_len(s: Seq<u8>)
    requires s.len() == 729,
    ensures s_perm(s).len() == 729,
{ reveal(s_perm); lemma_rounds_len(s, 0); }
/// up to the end of the block, absorbing overwrites the state
proof fn lemma_absorb_bulk(a: TS, xs: Seq<u8>, n: int)
    requires ts_ok(a), 0 < n <= xs.len(), a.i + n <= 243,
    ensures ts_absorb(a, xs) == ts_absorb(ts_step(TS { s: splice(if a.i == 0 { s_zeroize(a.s) } else { a.s }, a.i, xs.take(n)), i: a.i + n }), xs.skip(n)),
    decreases n,
{
    let s0 = if a.i == 0 { s_zeroize(a.s) } else { a.s };
    if n == 1 {
        assert(splice(s0, a.i, xs.take(1)) =~= s0.update(a.i, xs[0]));
    } else {
        let b = ts_absorb1(a, xs[0]);
        let ys = xs.skip(1);
        lemma_absorb_bulk(b, ys, n - 1);
        assert(splice(s0.update(a.i, xs[0]), a.i + 1, ys.take(n - 1)) =~= splice(s0, a.i, xs.take(n)));
        assert(ys.skip(n - 1) =~= xs.skip(n));
    }
}
/// C19: absorbing is insensitive to chunking
pub proof fn lemma_absorb_cat(a: TS, xs: Seq<u8>, ys: Seq<u8>)
    ensures ts_absorb(a, xs + ys) == ts_absorb(ts_absorb(a, xs), ys),
    decreases xs.len(),
{
    if xs.len() == 0 { assert(xs + ys =~= ys); } else {
        assert((xs + ys).skip(1) =~= xs.skip(1) + ys);
        lemma_absorb_cat(ts_absorb1(a, xs[0]), xs.skip(1), ys);
    }
}
/// C19: squeezing is insensitive to chunking
pub proof fn lemma_squeeze_cat(a: TS, n: int, m: int)
    requires n >= 0, m >= 0,
    ensures ts_squeeze(a, n + m) == ts_squeeze(ts_squeeze(a, n), m), ts_out(a, n + m) == ts_out(a, n) + ts_out(ts_squeeze(a, n), m),
    decreases m,
{
    if m == 0 { assert(ts_out(a, n) + Seq::<u8>::empty() =~= ts_out(a, n)); } else {
        lemma_squeeze_cat(a, n, m - 1);
        let b = ts_squeeze(a, n + m - 1);
        assert(n + m - 1 == n + (m - 1));
        assert(ts_out(a, n + m) == ts_out(a, n + m - 1).push(b.s[b.i]));
        let c = ts_squeeze(a, n);
        assert(ts_out(c, m) == ts_out(c, m - 1).push(b.s[b.i]));
        assert(ts_out(a, n + m) =~= ts_out(a, n) + ts_out(c, m));
    }
}
proof fn lemma_squeeze_bulk(a: TS, n: int)
    requires ts_ok(a), 0 <= n, a.i + n <= 243,
    ensures ts_squeeze(a, n) == (if n == 0 { a } else { ts_step(TS { s: a.s, i: a.i + n }) }), ts_out(a, n) == a.s.subrange(a.i, a.i + n),
    decreases n,
{
    if n == 0 { assert(a.s.subrange(a.i, a.i) =~= Seq::<u8>::empty()); } else {
        lemma_squeeze_bulk(a, n - 1);
        assert(ts_out(a, n) =~= a.s.subrange(a.i, a.i + n));
    }
}
// ---- padding
/// the message followed by 1 and zeros up to a multiple of the rate
pub open spec fn ts_pad(x: Seq<u8>) -> Seq<u8> { x + seq![1u8] + zeros((242 - x.len() as int % 243) as int) }
/// absorb whole blocks
pub open spec fn ts_blocks(s: Seq<u8>, x: Seq<u8>) -> Seq<u8> decreases x.len() {
    if x.len() < 243 { s } else { ts_blocks(s_perm(splice(s, 0, x.take(243))), x.skip(243)) }
}
/// C19: two messages with the same padded form are equal
pub proof fn lemma_pad_inj(x: Seq<u8>, y: Seq<u8>)
    requires ts_pad(x) == ts_pad(y),
    ensures x == y,
{
    let (p, q) = (ts_pad(x), ts_pad(y));
    assert(p.len() == q.len());
    if x.len() < y.len() { assert(q[y.len() as int] == 1); assert(p[y.len() as int] == 0); }
    if y.len() < x.len() { assert(x.len() < q.len()); assert(p[x.len() as int] == 1); assert(q[x.len() as int] == zeros((242 - y.len() as int % 243) as int)[x.len() - y.len() - 1]); }
    assert(x =~= p.take(x.len() as int));
    assert(y =~= q.take(x.len() as int));
}
/// C19: absorbing a message and finalizing is absorbing the blocks of its padded form
pub proof fn lemma_digest(s: Seq<u8>, x: Seq<u8>)
    requires s.len() == 729,
    ensures ts_finalize(ts_absorb(TS { s, i: 0 }, x)) == (TS { s: ts_blocks(s, ts_pad(x)), i: 0 }), ts_pad(x).len() % 243 == 0,
    decreases x.len(),
{
    let a = TS { s, i: 0 };
    let p = ts_pad(x);
    if x.len() >= 243 {
        lemma_absorb_bulk(a, x, 243);
        assert(splice(s_zeroize(s), 0, x.take(243)) =~= splice(s, 0, x.take(243)));
        let s1 = s_perm(splice(s, 0, x.take(243)));
        lemma_perm_len(splice(s, 0, x.take(243)));
        lemma_digest(s1, x.skip(243));
        assert((x.len() - 243) % 243 == x.len() as int % 243);
        assert(p.take(243) =~= x.take(243));
        assert(p.skip(243) =~= ts_pad(x.skip(243)));
    } else {
        assert(x.len() as int % 243 == x.len());
        lemma_absorb_cat(a, x, seq![1u8]);
        let y = x + seq![1u8];
        lemma_absorb_bulk(a, y, y.len() as int);
        assert(y.skip(y.len() as int) =~= Seq::<u8>::empty());
        assert(y.take(y.len() as int) =~= y);
        assert(p.len() == 243);
        assert(splice(s_zeroize(s), 0, y) =~= splice(s, 0, p.take(243)));
        assert(p.skip(243) =~= Seq::<u8>::empty());
        let e = s_perm(splice(s, 0, p.take(243)));
        assert(ts_blocks(e, p.skip(243)) == e);
    }
}
//@end

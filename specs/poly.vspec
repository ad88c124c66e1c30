//@module poly
//@file poly.rs
//@deps ring trits::util trits::slice trits::trits
//@mem none
//@struct Poly derive(Clone, Copy)
//@prelude
use crate::mem::*;
use crate::ring::*;
use crate::trits::defs::*;
use crate::trits::util::*;
use crate::trits::slice::*;
use crate::trits::trits::*;

/// the field element a coefficient stands for (coefficients are kept multiplied by 2^16)
pub open spec fn fv(a: u16) -> int { (a as int * 2304) % 12289 }
/// the representative closest to zero
pub open spec fn ctr(e: int) -> int { if e > 6144 { e - 12289 } else { e } }
pub open spec fn fld(t: int) -> int { t % 12289 }
/// the remainder modulo 3 closest to zero
pub open spec fn bmod3(t: int) -> int { (t + 1) % 3 - 1 }
/// centred coefficients rounded to trits
pub open spec fn rnd3(e: int) -> int { bmod3(ctr(e)) }

impl Poly {
    pub open spec fn wf(self) -> bool { forall|i: int| 0 <= i < 1024 ==> (#[trigger] self.coeffs@[i]) < 12289 }
    pub open spec fn val(self) -> Seq<int> { Seq::new(1024, |i: int| fv(self.coeffs@[i])) }
}
pub proof fn lemma_val(p: Poly)
    ensures redp(p.val()), p.coeffs@.len() == 1024, forall|i: int| 0 <= i < 1024 ==> #[trigger] p.val()[i] == fv(p.coeffs@[i]),
{ assert forall|i: int| 0 <= i < 1024 implies red(#[trigger] p.val()[i]) by {} }
/// equal values, equal coefficients
pub proof fn lemma_fv_inj(a: u16, b: u16)
    requires a < 12289, b < 12289,
    ensures fv(a) == fv(b) <==> a == b,
{
    assert((fv(a) * 4091) % 12289 == a) by { lemma_unfv(a as int); }
    assert((fv(b) * 4091) % 12289 == b) by { lemma_unfv(b as int); }
}
/// 2304 * 4091 = 1
proof fn lemma_unfv(a: int)
    requires 0 <= a < 12289,
    ensures (((a * 2304) % 12289) * 4091) % 12289 == a,
{
    vstd::arithmetic::div_mod::lemma_mul_mod_noop_left(a * 2304, 4091, 12289);
    assert((a * 2304) * 4091 == a + 12289 * (a * 767)) by(nonlinear_arith) requires 2304 * 4091 == 1 + 12289 * 767;
    vstd::arithmetic::div_mod::lemma_mod_multiples_vanish(a * 767, a, 12289);
    vstd::arithmetic::div_mod::lemma_small_mod(a as nat, 12289);
}
/// Montgomery reduction
proof fn lemma_mredd(m: int, s: int, k: int, t: int)
    requires 0 <= m < 12289 * 65536, s == ((m % 65536) * 12287) % 65536, k == m + s * 12289, t == k / 65536,
    ensures t * 65536 == k, 0 <= t < 2 * 12289, t % 12289 == (m * 2304) % 12289,
{
    let m0 = m % 65536;
    // k = m0 + 12289 * 12287 * m0 = 2304 * 65536 * m0 (mod 65536)
    let (a, b) = (m / 65536, (m0 * 12287) / 65536);
    assert(m == 65536 * a + m0);
    assert(m0 * 12287 == 65536 * b + s);
    assert(k == 65536 * (a + 2304 * m0 - 12289 * b));
    assert(t == a + 2304 * m0 - 12289 * b);
    // t * 65536 * 2304 = t (mod 12289)
    assert(t * 65536 == m + s * 12289);
    assert(m * 2304 == t + 12289 * (t * 12287 - s * 2304)) by {
        assert(m * 2304 == t * 150994944 - s * 12289 * 2304);
    }
    vstd::arithmetic::div_mod::lemma_mod_multiples_vanish(t * 12287 - s * 2304, t, 12289);
}
/// (a b / 2^16) / 2^16 = (a / 2^16) (b / 2^16)
pub proof fn lemma_fv_mul(a: int, b: int, r: int)
    requires r % 12289 == ((a * b) * 2304) % 12289,
    ensures (r * 2304) % 12289 == fmul((a * 2304) % 12289, (b * 2304) % 12289),
{
    reveal(fmul);
    vstd::arithmetic::div_mod::lemma_mul_mod_noop(a * 2304, b * 2304, 12289);
    vstd::arithmetic::div_mod::lemma_mul_mod_noop_left(r, 2304, 12289);
    vstd::arithmetic::div_mod::lemma_mul_mod_noop_left((a * b) * 2304, 2304, 12289);
    assert((a * 2304) * (b * 2304) == ((a * b) * 2304) * 2304) by(nonlinear_arith);
}
pub proof fn lemma_fv_add(a: int, b: int, r: int)
    requires r % 12289 == (a + b) % 12289,
    ensures (r * 2304) % 12289 == fadd((a * 2304) % 12289, (b * 2304) % 12289),
{
    reveal(fadd);
    vstd::arithmetic::div_mod::lemma_mul_mod_noop_left(r, 2304, 12289);
    vstd::arithmetic::div_mod::lemma_mul_mod_noop_left(a + b, 2304, 12289);
    vstd::arithmetic::div_mod::lemma_add_mod_noop(a * 2304, b * 2304, 12289);
    assert((a + b) * 2304 == a * 2304 + b * 2304);
}
pub proof fn lemma_fv_sub(a: int, b: int, r: int)
    requires r % 12289 == (a - b) % 12289,
    ensures (r * 2304) % 12289 == fsub((a * 2304) % 12289, (b * 2304) % 12289),
{
    reveal(fsub);
    vstd::arithmetic::div_mod::lemma_mul_mod_noop_left(r, 2304, 12289);
    vstd::arithmetic::div_mod::lemma_mul_mod_noop_left(a - b, 2304, 12289);
    vstd::arithmetic::div_mod::lemma_sub_mod_noop(a * 2304, b * 2304, 12289);
    assert((a - b) * 2304 == a * 2304 - b * 2304);
}
proof fn lemma_fv_from(e: int)
    requires 0 <= e < 12289,
    ensures (((e * 65536) % 12289) * 2304) % 12289 == e,
{
    vstd::arithmetic::div_mod::lemma_mul_mod_noop_left(e * 65536, 2304, 12289);
    assert((e * 65536) * 2304 == e + 12289 * (e * 12287));
    vstd::arithmetic::div_mod::lemma_mod_multiples_vanish(e * 12287, e, 12289);
    vstd::arithmetic::div_mod::lemma_small_mod(e as nat, 12289);
}
/// the table of powers
spec fn tab_ok(s: Seq<u16>, lo: int, hi: int) -> bool decreases hi - lo {
    if hi <= lo { true } else if hi == lo + 1 { s[lo] < 12289 && (if lo <= 0 { s[0] == 4091 } else { s[lo] as int == (s[lo - 1] as int * 7) % 12289 }) } else { let m = (lo + hi) / 2; if lo < m && m < hi { tab_ok(s, lo, m) && tab_ok(s, m, hi) } else { false } }
}
proof fn lemma_tab(s: Seq<u16>, lo: int, hi: int, k: int)
    requires tab_ok(s, lo, hi), 0 <= lo <= k < hi,
    ensures s[k] < 12289, if k <= 0 { s[0] == 4091 } else { s[k] as int == (s[k - 1] as int * 7) % 12289 },
    decreases hi - lo,
{ if hi > lo + 1 { let m = (lo + hi) / 2; if k < m { lemma_tab(s, lo, m, k); } else { lemma_tab(s, m, hi, k); } } }
proof fn lemma_tabs(s: Seq<u16>, k: int)
    requires tab_ok(s, 0, 2049), 0 <= k <= 2048,
    ensures s[k] < 12289, fv(s[k]) == gam(k),
    decreases k,
{
    lemma_tab(s, 0, 2049, k);
    if k > 0 {
        lemma_tabs(s, k - 1);
        let a = s[k - 1] as int;
        reveal(fmul);
        vstd::arithmetic::div_mod::lemma_mul_mod_noop_left(a * 7, 2304, 12289);
        vstd::arithmetic::div_mod::lemma_mul_mod_noop_right(7, a * 2304, 12289);
        assert((a * 7) * 2304 == 7 * (a * 2304)) by(nonlinear_arith);
    }
}
#[verifier::rlimit(200)]
pub proof fn lemma_gamma_exp()
    ensures forall|k: int| 0 <= k <= 2048 ==> (#[trigger] GAMMA_EXP@[k]) < 12289 && fv(GAMMA_EXP@[k]) == gam(k), GAMMA_EXP@.len() == 2049,
{
    assert(tab_ok(GAMMA_EXP@, 0, 2049)) by(compute_only);
    assert forall|k: int| 0 <= k <= 2048 implies (#[trigger] GAMMA_EXP@[k]) < 12289 && fv(GAMMA_EXP@[k]) == gam(k) by { lemma_tabs(GAMMA_EXP@, k); }
}
spec fn idx_ok(s: Seq<usize>, lo: int, hi: int) -> bool decreases hi - lo {
    if hi <= lo { true } else if hi == lo + 1 { s[lo] < 1024 && s[lo] as int == rev(10, lo) && rev(10, rev(10, lo)) == lo } else { let m = (lo + hi) / 2; if lo < m && m < hi { idx_ok(s, lo, m) && idx_ok(s, m, hi) } else { false } }
}
proof fn lemma_idx(s: Seq<usize>, lo: int, hi: int, k: int)
    requires idx_ok(s, lo, hi), 0 <= lo <= k < hi,
    ensures s[k] < 1024, s[k] as int == rev(10, k), rev(10, rev(10, k)) == k,
    decreases hi - lo,
{ if hi > lo + 1 { let m = (lo + hi) / 2; if k < m { lemma_idx(s, lo, m, k); } else { lemma_idx(s, m, hi, k); } } }
#[verifier::rlimit(200)]
proof fn lemma_idx_table() ensures idx_ok(IDX_REV@, 0, 1024) { assert(idx_ok(IDX_REV@, 0, 1024)) by(compute_only); }
pub proof fn lemma_idx_rev()
    ensures forall|k: int| 0 <= k < 1024 ==> (#[trigger] IDX_REV@[k]) < 1024 && IDX_REV@[k] as int == rev(10, k), IDX_REV@.len() == 1024,
{
    lemma_idx_table();
    assert forall|k: int| 0 <= k < 1024 implies (#[trigger] IDX_REV@[k]) < 1024 && IDX_REV@[k] as int == rev(10, k) by { lemma_idx(IDX_REV@, 0, 1024, k); }
}
pub proof fn lemma_rev_at(k: int)
    requires 0 <= k < 1024,
    ensures 0 <= rev(10, k) < 1024, rev(10, rev(10, k)) == k,
{ lemma_idx_table(); lemma_idx(IDX_REV@, 0, 1024, k); }
pub proof fn lemma_n() ensures N == 1024, N / 2 == 512 { assert(1usize << 10usize == 1024) by(bit_vector); }
proof fn lemma_mask(j: usize, i: int, m: usize)
    requires 0 <= i < 10, m == pw2(i) - 1, j < 512,
    ensures (j & !m) as int == low0(j as int, i), j as int - j as int % pw2(i) == low0(j as int, i), low0(j as int, i) <= j,
{
    reveal(low0);
    lemma_pw2(i);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(j as int, pw2(i));
    let (jq, p) = (j as int / pw2(i), pw2(i));
    assert(p * jq == jq * p) by(nonlinear_arith);
    assert(j & !0usize == (j / 1) * 1) by(bit_vector);
    assert(j & !1usize == (j / 2) * 2) by(bit_vector);
    assert(j & !3usize == (j / 4) * 4) by(bit_vector);
    assert(j & !7usize == (j / 8) * 8) by(bit_vector);
    assert(j & !15usize == (j / 16) * 16) by(bit_vector);
    assert(j & !31usize == (j / 32) * 32) by(bit_vector);
    assert(j & !63usize == (j / 64) * 64) by(bit_vector);
    assert(j & !127usize == (j / 128) * 128) by(bit_vector);
    assert(j & !255usize == (j / 256) * 256) by(bit_vector);
    assert(j & !511usize == (j / 512) * 512) by(bit_vector);
}
proof fn lemma_shl(i: usize)
    requires i < 10,
    ensures (1usize << i) as int == pw2(i as int), 1 <= (1usize << i),
{
    lemma_pw2(i as int);
    assert(1usize << 0usize == 1 && 1usize << 1usize == 2 && 1usize << 2usize == 4 && 1usize << 3usize == 8 && 1usize << 4usize == 16) by(bit_vector);
    assert(1usize << 5usize == 32 && 1usize << 6usize == 64 && 1usize << 7usize == 128 && 1usize << 8usize == 256 && 1usize << 9usize == 512) by(bit_vector);
}
//@end
//@fn coeff_mredd props=C16
    requires m < 805371904,
    ensures r < 12289, r as int == (m as int * 2304) % 12289,
//@hint let s 0
proof {
    assert(m0 as int == m as int % 65536) by { assert(m as u16 == m % 65536) by(bit_vector); }
    let p: u32 = (m0 as u32 * 12287u32) as u32;
    assert(p as u16 == p % 65536) by(bit_vector);
    assert(0 <= s as int * 12289 <= 65535 * 12289) by(nonlinear_arith) requires 0 <= s <= 65535;
}
//@hint let k 0
proof { assert(k >> 16u32 == k / 65536) by(bit_vector); lemma_mredd(m as int, s as int, k as int, (k >> 16u32) as int); }
//@fn coeff_from_trint9 props=C16
    requires -6144 <= t <= 6144,
    ensures r < 12289, fv(r) == fld(t as int),
//@hint let d 0
proof { assert(d << 16usize == d * 65536) by(bit_vector) requires d < 12289; lemma_fv_from(d as int); assert(t as int % 12289 == d as int); }
//@fn coeff_to_trint9 props=C16
    requires c < 12289,
    ensures r as int == ctr(fv(c)), -6144 <= r <= 6144,
//@hint entry
proof { assert(c as int * 2304 <= 12288 * 2304); }
//@fn coeff_from_trint1 props=C16
    requires -1 <= t <= 1,
    ensures r < 12289, fv(r) == fld(t as int),
//@hint entry
proof { assert((4091int * 2304) % 12289 == 1) by(compute); assert((8198int * 2304) % 12289 == 12288) by(compute); }
//@fn coeff_add props=C16
    requires a < 12289, b < 12289,
    ensures r < 12289, fv(r) == fadd(fv(a), fv(b)),
//@hint exit
proof { lemma_fv_add(a as int, b as int, tail__ as int); }
//@fn coeff_sub props=C16
    requires a < 12289, b < 12289,
    ensures r < 12289, fv(r) == fsub(fv(a), fv(b)),
//@hint exit
proof { lemma_fv_sub(a as int, b as int, tail__ as int); }
//@fn coeff_mul props=C16
    requires a < 12289, b < 12289,
    ensures r < 12289, fv(r) == fmul(fv(a), fv(b)),
//@hint entry
proof { assert(a as int * b as int <= 12288 * 12288) by(nonlinear_arith) requires a <= 12288, b <= 12288; }
//@hint exit
proof { lemma_fv_mul(a as int, b as int, tail__ as int); }
//@fn coeff_inv props=C16
    requires 0 < a < 12289,
    ensures r < 12289, fmul(fv(r), fv(a)) == 1, fv(r) == fpow(fv(a), 12287),
//@hint entry
proof { assert((1u16 << 12) == 4096) by(bit_vector); }
//@loop 0
    invariant it0 <= end0, end0 == 11, 0 < a < 12289, e < 12289, fv(e) == fpow(fv(a), ones(it0 as nat)),
    decreases end0 - it0,
//@hint loop 0 end
proof { lemma_sq_step(fv(a), fv(e_0), (it0 - 1) as nat); }
//@hint loop 0 start
let ghost e_0 = e;
//@hint loop 0 pre
proof { lemma_fone(fv(a)); assert(fpow(fv(a), 1) == fv(a)) by { reveal_with_fuel(fpow, 2); } }
//@hint loop 0 post
let ghost e_1 = e;
proof {
    assert(ones(11) == 4095) by(compute);
    let x = fv(a);
    lemma_fmul_comm(fpow(x, 4095), x);
    assert(fpow(x, 4096) == fmul(fpow(x, 4095), x));
    lemma_fpow_add(x, 4096, 4096);
    lemma_fpow_add(x, 8192, 4095);
    lemma_fv_inj(a, 0);
    assert(fv(0) == 0);
    lemma_fermat(x);
    assert(fv(4091) == 1) by(compute);
    assert forall|y: u16| y < 12289 && #[trigger] fv(y) == 1 implies y == 4091 by { lemma_fv_inj(y, 4091); }
}
//@fn Poly.PartialEq::eq rename=partial_eq props=C16
    requires self.wf(), other.wf(),
    ensures r == (self.val() == other.val()), r == (self.coeffs@ == other.coeffs@),
//@hint entry
proof { lemma_n(); }
//@loop 0
    invariant it0 <= end0, end0 == 1024, self.wf(), other.wf(), forall|i: int| 0 <= i < it0 ==> #[trigger] self.coeffs@[i] == other.coeffs@[i],
    decreases end0 - it0,
//@hint return 0
proof { let k = it0 - 1; lemma_fv_inj(self.coeffs@[k], other.coeffs@[k]); assert(self.val()[k] != other.val()[k]); }
//@hint loop 0 post
proof { assert(self.coeffs@ =~= other.coeffs@); }
//@fn Poly::new props=C16
    ensures r.wf(), r.val() == Seq::new(1024, |i: int| 0int), r.coeffs@ == Seq::new(1024, |i: int| 0u16),
//@hint exit
proof { assert(tail__.val() =~= Seq::new(1024, |i: int| 0int)); assert(tail__.coeffs@ =~= Seq::new(1024, |i: int| 0u16)); }
//@fn Poly::round_small props=C16
    requires old(self).wf(),
    ensures final(self).wf(), final(self).val() == Seq::new(1024, |i: int| fld(rnd3(old(self).val()[i]))),
//@hint entry
proof { lemma_n(); }
//@loop 0
    invariant it0 <= end0, end0 == 1024, self.wf(), old(self).wf(),
        forall|i: int| 0 <= i < it0 ==> #[trigger] fv(self.coeffs@[i]) == fld(rnd3(fv(old(self).coeffs@[i]))),
        forall|i: int| it0 <= i < 1024 ==> #[trigger] self.coeffs@[i] == old(self).coeffs@[i],
    decreases end0 - it0,
//@hint loop 0 post
proof { assert(self.val() =~= Seq::new(1024, |i: int| fld(rnd3(old(self).val()[i])))); }
//@fn Poly::small3_add1 props=C16
    requires old(self).wf(),
    ensures final(self).wf(), final(self).val() == old(self).val().update(0, fadd(old(self).val()[0], 1)),
//@hint entry
proof { assert(fv(4091) == 1) by(compute); }
//@hint exit
proof { assert(self.val() =~= old(self).val().update(0, fadd(old(self).val()[0], 1))); }
//@fn Poly::small_mul3 props=C16
    requires old(self).wf(),
    ensures final(self).wf(), final(self).val() == Seq::new(1024, |i: int| fmul(3, old(self).val()[i])),
//@hint entry
proof { lemma_n(); }
//@loop 0
    invariant it0 <= end0, end0 == 1024, self.wf(), old(self).wf(),
        forall|i: int| 0 <= i < it0 ==> #[trigger] fv(self.coeffs@[i]) == fmul(3, fv(old(self).coeffs@[i])),
        forall|i: int| it0 <= i < 1024 ==> #[trigger] self.coeffs@[i] == old(self).coeffs@[i],
    decreases end0 - it0,
//@hint loop 0 start
proof { let v = fv(self.coeffs@[it0 - 1]); assert(fadd(fadd(v, v), v) == fmul(3, v) && fadd(v, fadd(v, v)) == fmul(3, v)) by { reveal(fadd); reveal(fmul); } }
//@hint loop 0 post
proof { assert(self.val() =~= Seq::new(1024, |i: int| fmul(3, old(self).val()[i]))); }
//@fn Poly::add props=C16
    requires old(self).wf(), g.wf(),
    ensures final(self).wf(), final(self).val() == Seq::new(1024, |i: int| fadd(old(self).val()[i], g.val()[i])),
//@hint entry
proof { lemma_n(); }
//@loop 0
    invariant it0 <= end0, end0 == 1024, self.wf(), old(self).wf(), g.wf(),
        forall|i: int| 0 <= i < it0 ==> #[trigger] fv(self.coeffs@[i]) == fadd(fv(old(self).coeffs@[i]), fv(g.coeffs@[i])),
        forall|i: int| it0 <= i < 1024 ==> #[trigger] self.coeffs@[i] == old(self).coeffs@[i],
    decreases end0 - it0,
//@hint loop 0 post
proof { assert(self.val() =~= Seq::new(1024, |i: int| fadd(old(self).val()[i], g.val()[i]))); }
//@fn Poly::sub props=C16
    requires old(self).wf(), g.wf(),
    ensures final(self).wf(), final(self).val() == Seq::new(1024, |i: int| fsub(old(self).val()[i], g.val()[i])),
//@hint entry
proof { lemma_n(); }
//@loop 0
    invariant it0 <= end0, end0 == 1024, self.wf(), old(self).wf(), g.wf(),
        forall|i: int| 0 <= i < it0 ==> #[trigger] fv(self.coeffs@[i]) == fsub(fv(old(self).coeffs@[i]), fv(g.coeffs@[i])),
        forall|i: int| it0 <= i < 1024 ==> #[trigger] self.coeffs@[i] == old(self).coeffs@[i],
    decreases end0 - it0,
//@hint loop 0 post
proof { assert(self.val() =~= Seq::new(1024, |i: int| fsub(old(self).val()[i], g.val()[i]))); }
//@fn Poly::conv props=C16
    requires old(self).wf(), g.wf(),
    ensures final(self).wf(), final(self).val() == Seq::new(1024, |i: int| fmul(old(self).val()[i], g.val()[i])),
//@hint entry
proof { lemma_n(); }
//@loop 0
    invariant it0 <= end0, end0 == 1024, self.wf(), old(self).wf(), g.wf(),
        forall|i: int| 0 <= i < it0 ==> #[trigger] fv(self.coeffs@[i]) == fmul(fv(old(self).coeffs@[i]), fv(g.coeffs@[i])),
        forall|i: int| it0 <= i < 1024 ==> #[trigger] self.coeffs@[i] == old(self).coeffs@[i],
    decreases end0 - it0,
//@hint loop 0 post
proof { assert(self.val() =~= Seq::new(1024, |i: int| fmul(old(self).val()[i], g.val()[i]))); }
//@fn Poly::add_small mem=ro props=C16
    requires old(self).wf(), t.ok(mem@), t.len() == 1024,
    ensures final(self).wf(), final(self).val() == Seq::new(1024, |i: int| fadd(old(self).val()[i], fld(tv(t.val(mem@)[i])))),
//@hint entry
proof { lemma_n(); }
//@loop 0
    invariant it0 <= end0, end0 == 1024, self.wf(), old(self).wf(), t.ok(mem@), t.len() == 1024, t_m == t.s_drop(it0 as int),
        forall|i: int| 0 <= i < it0 ==> #[trigger] fv(self.coeffs@[i]) == fadd(fv(old(self).coeffs@[i]), fld(tv(t.val(mem@)[i]))),
        forall|i: int| it0 <= i < 1024 ==> #[trigger] self.coeffs@[i] == old(self).coeffs@[i],
    decreases end0 - it0,
//@hint loop 0 start
proof { assert(t_m.val(mem@) =~= t.val(mem@).skip(it0 - 1)); }
//@hint loop 0 post
proof { assert(self.val() =~= Seq::new(1024, |i: int| fadd(old(self).val()[i], fld(tv(t.val(mem@)[i]))))); }
//@fn Poly::sub_small mem=ro props=C16
    requires old(self).wf(), t.ok(mem@), t.len() == 1024,
    ensures final(self).wf(), final(self).val() == Seq::new(1024, |i: int| fsub(old(self).val()[i], fld(tv(t.val(mem@)[i])))),
//@hint entry
proof { lemma_n(); }
//@loop 0
    invariant it0 <= end0, end0 == 1024, self.wf(), old(self).wf(), t.ok(mem@), t.len() == 1024, t_m == t.s_drop(it0 as int),
        forall|i: int| 0 <= i < it0 ==> #[trigger] fv(self.coeffs@[i]) == fsub(fv(old(self).coeffs@[i]), fld(tv(t.val(mem@)[i]))),
        forall|i: int| it0 <= i < 1024 ==> #[trigger] self.coeffs@[i] == old(self).coeffs@[i],
    decreases end0 - it0,
//@hint loop 0 start
proof { assert(t_m.val(mem@) =~= t.val(mem@).skip(it0 - 1)); }
//@hint loop 0 post
proof { assert(self.val() =~= Seq::new(1024, |i: int| fsub(old(self).val()[i], fld(tv(t.val(mem@)[i]))))); }
//@fn Poly::small_from_trits mem=ro props=C16
    requires old(self).wf(), t.ok(mem@), t.len() == 1024,
    ensures final(self).wf(), final(self).val() == Seq::new(1024, |i: int| fld(tv(t.val(mem@)[i]))),
//@hint entry
proof { lemma_n(); }
//@loop 0
    invariant it0 <= end0, end0 == 1024, self.wf(), old(self).wf(), t.ok(mem@), t.len() == 1024, t_m == t.s_drop(it0 as int),
        forall|i: int| 0 <= i < it0 ==> #[trigger] fv(self.coeffs@[i]) == fld(tv(t.val(mem@)[i])),
        forall|i: int| it0 <= i < 1024 ==> #[trigger] self.coeffs@[i] == old(self).coeffs@[i],
    decreases end0 - it0,
//@hint loop 0 start
proof { assert(t_m.val(mem@) =~= t.val(mem@).skip(it0 - 1)); }
//@hint loop 0 post
proof { assert(self.val() =~= Seq::new(1024, |i: int| fld(tv(t.val(mem@)[i])))); }
//@fn Poly::has_inv props=C16
    requires self.wf(),
    ensures r == forall|i: int| 0 <= i < 1024 ==> #[trigger] self.val()[i] != 0,
//@hint entry
proof { lemma_n(); }
//@loop 0
    invariant it0 <= end0, end0 == 1024, self.wf(), forall|i: int| 0 <= i < it0 ==> #[trigger] self.coeffs@[i] != 0,
    decreases end0 - it0,
//@hint return 0
proof { assert(self.val()[it0 - 1] == 0); }
//@hint loop 0 post
proof { assert forall|i: int| 0 <= i < 1024 implies #[trigger] self.val()[i] != 0 by { lemma_fv_inj(self.coeffs@[i], 0); } }
//@fn Poly::inv props=C16
    requires old(self).wf(), forall|i: int| 0 <= i < 1024 ==> #[trigger] old(self).val()[i] != 0,
    ensures final(self).wf(), final(self).val() == Seq::new(1024, |i: int| fpow(old(self).val()[i], 12287)), pmulp(final(self).val(), old(self).val()) == Seq::new(1024, |i: int| 1int),
//@hint entry
proof { lemma_n(); }
//@loop 0
    invariant it0 <= end0, end0 == 1024, self.wf(), old(self).wf(), forall|i: int| 0 <= i < 1024 ==> #[trigger] old(self).val()[i] != 0,
        forall|i: int| 0 <= i < it0 ==> #[trigger] fv(self.coeffs@[i]) == fpow(fv(old(self).coeffs@[i]), 12287) && fmul(fv(self.coeffs@[i]), fv(old(self).coeffs@[i])) == 1,
        forall|i: int| it0 <= i < 1024 ==> #[trigger] self.coeffs@[i] == old(self).coeffs@[i],
    decreases end0 - it0,
//@hint loop 0 start
proof { let c = self.coeffs@[it0 - 1]; assert(old(self).val()[it0 - 1] == fv(c)); assert(fv(0) == 0); }
//@hint loop 0 post
proof {
    assert(self.val() =~= Seq::new(1024, |i: int| fpow(old(self).val()[i], 12287)));
    assert(pmulp(self.val(), old(self).val()) =~= Seq::new(1024, |i: int| 1int));
}
//@fn Poly::ntt props=C16 rlimit=60
    requires old(self).wf(),
    ensures final(self).wf(), final(self).val() == s_ntt(old(self).val()),
//@hint entry
let ghost w = gam(2);
let ghost x = twisted(old(self).val());
proof { lemma_n(); lemma_gamma_exp(); lemma_idx_rev(); lemma_omega(); lemma_val(*old(self)); lemma_twisted(old(self).val()); }
//@loop 0
    invariant it0 <= end0, end0 == 1024, old(self).wf(), u.wf(), *self == *old(self), x == twisted(old(self).val()),
        forall|k: int| 0 <= k <= 2048 ==> (#[trigger] GAMMA_EXP@[k]) < 12289 && fv(GAMMA_EXP@[k]) == gam(k),
        forall|k: int| 0 <= k < 1024 ==> (#[trigger] IDX_REV@[k]) < 1024 && IDX_REV@[k] as int == rev(10, k),
        forall|p: int| 0 <= p < 1024 && 0 <= rev(10, p) < it0 ==> fv(#[trigger] u.coeffs@[p]) == x[rev(10, p)],
    decreases end0 - it0,
//@hint loop 0 start
proof { let k = it0 - 1; assert(IDX_REV@[k] as int == rev(10, k)); assert(GAMMA_EXP@[k] < 12289); assert(self.coeffs@[k] < 12289); assert(old(self).val()[k] == fv(self.coeffs@[k])); }
//@hint loop 0 end
proof {
    let k = it0 - 1;
    assert forall|p: int| 0 <= p < 1024 && 0 <= rev(10, p) < it0 implies fv(#[trigger] u.coeffs@[p]) == x[rev(10, p)] by {
        lemma_rev_at(p); lemma_rev_at(k);
        if rev(10, p) == k { assert(p == rev(10, k)); } else { assert(p != rev(10, k)); }
    }
}
//@hint loop 1 pre
proof {
    assert forall|p: int| 0 <= p < 1024 implies #[trigger] u.val()[p] == stage(w, x, 0)[p] by { lemma_stage_0(w, x, p); lemma_rev_at(p); }
    lemma_stage_len(w, x, 0);
    assert(u.val() =~= stage(w, x, 0));
}
//@loop 1
    invariant end1 == 0, it1 <= 10, old(self).wf(), u.wf(), self.wf(), redp(x), fpow(w, 512) == 12288, red(w), w == gam(2),
        forall|k: int| 0 <= k <= 2048 ==> (#[trigger] GAMMA_EXP@[k]) < 12289 && fv(GAMMA_EXP@[k]) == gam(k),
        u.val() == stage(w, x, 10 - it1), it1 < 10 ==> self.val() == u.val(),
    decreases it1,
//@hint loop 1 start
let ghost i_ = it1 as int;
let ghost un = u.val();
let ghost nx = stage(w, x, 10 - i_);
proof { lemma_n(); lemma_shl(it1); lemma_stage_len(w, x, 10 - i_); lemma_stage_len(w, x, 9 - i_); }
//@loop 2
    invariant it2 <= end2, end2 == 512, 0 <= i_ < 10, i_ == i as int, u.wf(), self.wf(), redp(x), fpow(w, 512) == 12288, red(w), w == gam(2), (1usize << i) as int == pw2(i_), 1 <= (1usize << i), nx.len() == 1024,
        forall|k: int| 0 <= k <= 2048 ==> (#[trigger] GAMMA_EXP@[k]) < 12289 && fv(GAMMA_EXP@[k]) == gam(k),
        un == u.val(), un == stage(w, x, 9 - i_), nx == stage(w, x, 10 - i_),
        forall|j: int| 0 <= j < it2 ==> fv(#[trigger] self.coeffs@[j]) == nx[j],
        forall|j: int| 512 <= j < 512 + it2 ==> fv(#[trigger] self.coeffs@[j]) == nx[j],
    decreases end2 - it2,
//@hint let r 0
proof {
    lemma_n();
    let j_ = it2 - 1;
    lemma_mask(j_ as usize, i_, ((1usize << i) - 1) as usize);
    lemma_twiddle(low0(j_, i_));
    lemma_stage_step(w, x, i_, j_);
    assert(un[2 * j_] == fv(u.coeffs@[2 * j_]) && un[2 * j_ + 1] == fv(u.coeffs@[2 * j_ + 1]));
    assert(fv(GAMMA_EXP@[2 * (low0(j_, i_))]) == gam(2 * (low0(j_, i_))));
    assert(u.coeffs@[2 * j_] < 12289 && u.coeffs@[2 * j_ + 1] < 12289);
}
//@hint loop 3 pre
proof { assert(self.val() =~= nx); }
//@loop 3
    invariant it3 <= end3, end3 == 1024, u.wf(), self.wf(), self.val() == nx,
        forall|j: int| 0 <= j < it3 ==> (#[trigger] u.coeffs@[j]) == self.coeffs@[j],
    decreases end3 - it3,
//@hint loop 3 start
proof { assert(self.coeffs@[it3 - 1] < 12289); }
//@hint loop 3 post
proof { assert(u.val() =~= self.val()); }
//@hint exit
proof { lemma_ntt_done(old(self).val()); }
//@fn Poly::intt props=C16 rlimit=60
    requires old(self).wf(),
    ensures final(self).wf(), final(self).val() == s_intt(old(self).val()),
//@hint entry
let ghost w = gam(2046);
let ghost x = old(self).val();
proof { lemma_n(); lemma_gamma_exp(); lemma_idx_rev(); lemma_omega(); lemma_val(*old(self)); lemma_twisted(old(self).val()); }
//@loop 0
    invariant it0 <= end0, end0 == 1024, old(self).wf(), u.wf(), *self == *old(self), x == old(self).val(),
        
        forall|k: int| 0 <= k < 1024 ==> (#[trigger] IDX_REV@[k]) < 1024 && IDX_REV@[k] as int == rev(10, k),
        forall|p: int| 0 <= p < 1024 && 0 <= rev(10, p) < it0 ==> fv(#[trigger] u.coeffs@[p]) == x[rev(10, p)],
    decreases end0 - it0,
//@hint loop 0 start
proof { let k = it0 - 1; assert(IDX_REV@[k] as int == rev(10, k));  assert(self.coeffs@[k] < 12289); assert(old(self).val()[k] == fv(self.coeffs@[k])); }
//@hint loop 0 end
proof {
    let k = it0 - 1;
    assert forall|p: int| 0 <= p < 1024 && 0 <= rev(10, p) < it0 implies fv(#[trigger] u.coeffs@[p]) == x[rev(10, p)] by {
        lemma_rev_at(p); lemma_rev_at(k);
        if rev(10, p) == k { assert(p == rev(10, k)); } else { assert(p != rev(10, k)); }
    }
}
//@hint loop 1 pre
proof {
    assert forall|p: int| 0 <= p < 1024 implies #[trigger] u.val()[p] == stage(w, x, 0)[p] by { lemma_stage_0(w, x, p); lemma_rev_at(p); }
    lemma_stage_len(w, x, 0);
    assert(u.val() =~= stage(w, x, 0));
}
//@loop 1
    invariant end1 == 0, it1 <= 10, old(self).wf(), u.wf(), self.wf(), redp(x), fpow(w, 512) == 12288, red(w), w == gam(2046),
        forall|k: int| 0 <= k <= 2048 ==> (#[trigger] GAMMA_EXP@[k]) < 12289 && fv(GAMMA_EXP@[k]) == gam(k),
        u.val() == stage(w, x, 10 - it1), it1 < 10 ==> self.val() == u.val(),
    decreases it1,
//@hint loop 1 start
let ghost i_ = it1 as int;
let ghost un = u.val();
let ghost nx = stage(w, x, 10 - i_);
proof { lemma_n(); lemma_shl(it1); lemma_stage_len(w, x, 10 - i_); lemma_stage_len(w, x, 9 - i_); }
//@loop 2
    invariant it2 <= end2, end2 == 512, 0 <= i_ < 10, i_ == i as int, u.wf(), self.wf(), redp(x), fpow(w, 512) == 12288, red(w), w == gam(2046), (1usize << i) as int == pw2(i_), 1 <= (1usize << i), nx.len() == 1024,
        forall|k: int| 0 <= k <= 2048 ==> (#[trigger] GAMMA_EXP@[k]) < 12289 && fv(GAMMA_EXP@[k]) == gam(k),
        un == u.val(), un == stage(w, x, 9 - i_), nx == stage(w, x, 10 - i_),
        forall|j: int| 0 <= j < it2 ==> fv(#[trigger] self.coeffs@[j]) == nx[j],
        forall|j: int| 512 <= j < 512 + it2 ==> fv(#[trigger] self.coeffs@[j]) == nx[j],
    decreases end2 - it2,
//@hint let r 0
proof {
    lemma_n();
    let j_ = it2 - 1;
    lemma_mask(j_ as usize, i_, ((1usize << i) - 1) as usize);
    lemma_twiddle(low0(j_, i_));
    lemma_stage_step(w, x, i_, j_);
    assert(un[2 * j_] == fv(u.coeffs@[2 * j_]) && un[2 * j_ + 1] == fv(u.coeffs@[2 * j_ + 1]));
    assert(fv(GAMMA_EXP@[2048 - 2 * (low0(j_, i_))]) == gam(2048 - 2 * (low0(j_, i_))));
    assert(u.coeffs@[2 * j_] < 12289 && u.coeffs@[2 * j_ + 1] < 12289);
}
//@hint loop 3 pre
proof { assert(self.val() =~= nx); }
//@loop 3
    invariant it3 <= end3, end3 == 1024, u.wf(), self.wf(), self.val() == nx,
        forall|j: int| 0 <= j < it3 ==> (#[trigger] u.coeffs@[j]) == self.coeffs@[j],
    decreases end3 - it3,
//@hint loop 3 start
proof { assert(self.coeffs@[it3 - 1] < 12289); }
//@hint loop 3 post
proof { assert(u.val() =~= self.val()); }
//@hint loop 4 pre
let ghost tt = self.val();
proof { assert(fv(64) == 12277) by(compute); assert(self.val() == stage(w, x, 10)); lemma_stage_len(w, x, 10); }
//@loop 4
    invariant it4 <= end4, end4 == 1024, self.wf(), tt == stage(w, x, 10), redp(x), w == gam(2046), fv(64) == 12277, tt.len() == 1024,
        forall|k: int| 0 <= k <= 2048 ==> (#[trigger] GAMMA_EXP@[k]) < 12289 && fv(GAMMA_EXP@[k]) == gam(k),
        forall|j: int| 0 <= j < it4 ==> fv(#[trigger] self.coeffs@[j]) == s_intt(x)[j],
        forall|j: int| it4 <= j < 1024 ==> fv(#[trigger] self.coeffs@[j]) == tt[j],
    decreases end4 - it4,
//@hint loop 4 start
proof { lemma_n(); let k = it4 - 1; assert(fv(self.coeffs@[k]) == tt[k]); lemma_intt_done(x, k); assert(GAMMA_EXP@[2048 - k] < 12289); assert(self.coeffs@[k] < 12289); }
//@hint loop 4 post
proof { assert(self.val() =~= s_intt(x)); }
//@prelude
/// the trits of the first `n` coefficients, each rounded to one trit
pub open spec fn rnd_trits(e: Seq<int>) -> Seq<u8> { Seq::new(e.len(), |i: int| bt(1, rnd3(e[i]))[0]) }
/// the first `n` coefficients, nine trits each
pub open spec fn tr9(e: Seq<int>, n: int) -> Seq<u8> decreases n { if n <= 0 { Seq::empty() } else { tr9(e, n - 1) + bt(9, ctr(e[n - 1])) } }
pub open spec fn blk9(v: Seq<u8>, i: int) -> int { ival(v.subrange(9 * i, 9 * i + 9)) }
/// nine-trit blocks within the range of centred coefficients
pub open spec fn tr9_ok(v: Seq<u8>) -> bool { forall|i: int| 0 <= i < 1024 ==> -6144 <= #[trigger] blk9(v, i) <= 6144 }
pub open spec fn untr9(v: Seq<u8>) -> Seq<int> { Seq::new(1024, |i: int| fld(blk9(v, i))) }
pub proof fn lemma_tr9_len(e: Seq<int>, n: int)
    requires n >= 0,
    ensures tr9(e, n).len() == 9 * n, is_trits(tr9(e, n)),
    decreases n,
{ if n > 0 { lemma_tr9_len(e, n - 1); lemma_bt_len(9, ctr(e[n - 1])); } }
proof fn lemma_tr9_blk(e: Seq<int>, n: int, i: int)
    requires 0 <= i < n, redp(e), n <= 1024,
    ensures blk9(tr9(e, n), i) == ctr(e[i]),
    decreases n,
{
    lemma_tr9_len(e, n - 1);
    lemma_bt_len(9, ctr(e[n - 1]));
    lemma_pow3_vals();
    assert(red(e[n - 1]));
    if i == n - 1 {
        assert(tr9(e, n).subrange(9 * i, 9 * i + 9) =~= bt(9, ctr(e[i])));
        lemma_ival_bt(9, ctr(e[i]));
    } else {
        lemma_tr9_blk(e, n - 1, i);
        assert(tr9(e, n).subrange(9 * i, 9 * i + 9) =~= tr9(e, n - 1).subrange(9 * i, 9 * i + 9));
    }
}
/// what `to_trits` writes, `from_trits` reads back
pub proof fn lemma_tr9_round(e: Seq<int>)
    requires redp(e),
    ensures tr9_ok(tr9(e, 1024)), untr9(tr9(e, 1024)) == e,
{
    assert forall|i: int| 0 <= i < 1024 implies -6144 <= #[trigger] blk9(tr9(e, 1024), i) <= 6144 && fld(blk9(tr9(e, 1024), i)) == e[i] by { lemma_tr9_blk(e, 1024, i); assert(red(e[i])); }
    assert(untr9(tr9(e, 1024)) =~= e);
}
/// what `from_trits` accepts, `to_trits` writes back
pub proof fn lemma_untr9_round(v: Seq<u8>, n: int)
    requires is_trits(v), v.len() == 9216, tr9_ok(v), 0 <= n <= 1024,
    ensures redp(untr9(v)), tr9(untr9(v), n) == v.take(9 * n),
    decreases n,
{
    assert forall|i: int| 0 <= i < 1024 implies red(#[trigger] untr9(v)[i]) by {}
    if n > 0 {
        lemma_untr9_round(v, n - 1);
        let b = v.subrange(9 * (n - 1), 9 * (n - 1) + 9);
        assert forall|i: int| 0 <= i < b.len() implies #[trigger] b[i] < 3 by { assert(v[9 * (n - 1) + i] < 3); }
        lemma_bt_ival(b);
        assert(-6144 <= blk9(v, n - 1) <= 6144);
        assert(ctr(untr9(v)[n - 1]) == blk9(v, n - 1));
        assert(v.take(9 * n) =~= v.take(9 * (n - 1)) + b);
    } else { assert(v.take(0) =~= Seq::<u8>::empty()); }
}
//@end
//@fn Poly::round_to_trits mem=rw props=C16
    requires self.wf(), t.inv(old(mem)@), t.len() == 1024,
    ensures final(mem)@ == t.put(old(mem)@, rnd_trits(self.val())),
//@hint entry
let ghost rr = rnd_trits(self.val());
proof { lemma_n(); lemma_val(*self); lemma_wr_empty(mem@, t.b(), t.o()); assert(rr.take(0) =~= Seq::<u8>::empty()); }
//@loop 0
    invariant it0 <= end0, end0 == 1024, self.wf(), t.inv(old(mem)@), t.len() == 1024, t_m == t.s_drop(it0 as int), mem@ == t.put(old(mem)@, rr.take(it0 as int)), rr == rnd_trits(self.val()), rr.len() == 1024,
    decreases end0 - it0,
//@hint loop 0 end
proof {
    let k = it0 - 1;
    lemma_bt_len(1, rnd3(self.val()[k]));
    assert(rr.take(it0 as int) =~= rr.take(k) + bt(1, rnd3(self.val()[k])));
    lemma_wr_adj(old(mem)@, t.b(), t.o(), rr.take(k), bt(1, rnd3(self.val()[k])));
}
//@hint loop 0 post
proof { assert(rr.take(1024) =~= rr); }
//@fn Poly::to_trits mem=rw props=C16
    requires self.wf(), t.inv(old(mem)@), t.len() == 9216,
    ensures final(mem)@ == t.put(old(mem)@, tr9(self.val(), 1024)),
//@hint entry
proof { lemma_n(); lemma_val(*self); lemma_wr_empty(mem@, t.b(), t.o()); }
//@loop 0
    invariant it0 <= end0, end0 == 1024, self.wf(), t.inv(old(mem)@), t.len() == 9216, t_m == t.s_drop(9 * it0), mem@ == t.put(old(mem)@, tr9(self.val(), it0 as int)),
    decreases end0 - it0,
//@hint loop 0 end
proof {
    let k = it0 - 1;
    lemma_tr9_len(self.val(), k);
    lemma_bt_len(9, ctr(self.val()[k]));
    lemma_wr_adj(old(mem)@, t.b(), t.o(), tr9(self.val(), k), bt(9, ctr(self.val()[k])));
}
//@fn Poly::from_trits mem=ro props=C16
    requires old(self).wf(), t.ok(mem@), t.len() == 9216,
    ensures final(self).wf(), r == tr9_ok(t.val(mem@)), r ==> final(self).val() == untr9(t.val(mem@)),
//@hint entry
proof { lemma_n(); }
//@loop 0
    invariant it0 <= end0, end0 == 1024, self.wf(), t.ok(mem@), t.len() == 9216, t_m == t.s_drop(9 * it0),
        forall|i: int| 0 <= i < it0 ==> -6144 <= #[trigger] blk9(t.val(mem@), i) <= 6144,
        forall|i: int| 0 <= i < it0 ==> #[trigger] fv(self.coeffs@[i]) == fld(blk9(t.val(mem@), i)),
    decreases end0 - it0,
//@hint loop 0 start
proof {
    let k = it0 - 1;
    assert(t_m.val(mem@) =~= t.val(mem@).skip(9 * k));
    assert(t_m.val(mem@).take(9) =~= t.val(mem@).subrange(9 * k, 9 * k + 9));
}
//@hint return 0
proof { assert(!(-6144 <= blk9(t.val(mem@), it0 - 1) <= 6144)); }
//@hint loop 0 post
proof { assert(self.val() =~= untr9(t.val(mem@))); }

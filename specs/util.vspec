//@module trits::util
//@file trits/util.rs
//@deps trits::defs
//@mem none
//@prelude
use crate::trits::defs::*;

/// balanced value of a trit
pub open spec fn tv(t: u8) -> int { if t == 2 { -1 } else { t as int } }
/// three to the k
pub open spec fn pow3(k: nat) -> int decreases k { if k == 0 { 1 } else { 3 * pow3((k - 1) as nat) } }
/// half range of k trits
pub open spec fn half3(k: nat) -> int { (pow3(k) - 1) / 2 }
/// the k balanced trits of v, least significant first
pub open spec fn bt(k: nat, v: int) -> Seq<u8> decreases k {
    if k == 0 { Seq::empty() } else { seq![(v % 3) as u8] + bt((k - 1) as nat, (v + 1) / 3) }
}
/// value of a trit sequence
pub open spec fn ival(s: Seq<u8>) -> int decreases s.len() {
    if s.len() == 0 { 0 } else { tv(s[0]) + 3 * ival(s.skip(1)) }
}
pub open spec fn tryte_char(t: int) -> char { if t == 0 { '9' } else { ((64 + t) as u8) as char } }
/// value of a tryte character, balanced
pub open spec fn char_val(c: char) -> int {
    if 'A' <= c && c <= 'M' { c as int - 64 } else if 'N' <= c && c <= 'Z' { c as int - 64 - 27 } else { 0 }
}
pub open spec fn is_tryte_char(c: char) -> bool { c == '9' || ('A' <= c && c <= 'Z') }
pub open spec fn val_char(v: int) -> char { if v == 0 { '9' } else if v < 0 { ((91 + v) as u8) as char } else { ((64 + v) as u8) as char } }

pub proof fn lemma_pow3_pos(k: nat)
    ensures pow3(k) > 0, pow3(k) % 2 == 1,
    decreases k,
{ if k > 0 { lemma_pow3_pos((k - 1) as nat); } }

pub proof fn lemma_bt_len(k: nat, v: int)
    ensures bt(k, v).len() == k, crate::mem::is_trits(bt(k, v)),
    decreases k,
{
    if k > 0 {
        lemma_bt_len((k - 1) as nat, (v + 1) / 3);
    }
}
pub proof fn lemma_half3(k: nat)
    ensures 2 * half3(k) + 1 == pow3(k), half3(k) >= 0, k > 0 ==> half3(k) == 3 * half3((k - 1) as nat) + 1,
    decreases k,
{
    lemma_pow3_pos(k);
    if k > 0 { lemma_half3((k - 1) as nat); }
}
/// splitting the trits of r + 3^a q
pub proof fn lemma_bt_split(a: nat, b: nat, r: int, q: int)
    requires -half3(a) <= r <= half3(a),
    ensures bt(a + b, r + pow3(a) * q) == bt(a, r) + bt(b, q),
    decreases a,
{
    if a == 0 {
        assert(half3(0) == 0);
        assert(bt(0, r) =~= Seq::<u8>::empty());
        assert(bt(a + b, r + pow3(a) * q) =~= bt(a, r) + bt(b, q));
    } else {
        let a1 = (a - 1) as nat;
        let p = pow3(a1);
        lemma_half3(a);
        lemma_half3(a1);
        let v = r + pow3(a) * q;
        assert(pow3(a) * q == 3 * (p * q)) by(nonlinear_arith) requires pow3(a) == 3 * p;
        assert(v == r + 3 * (p * q));
        assert(v % 3 == r % 3);
        assert((v + 1) / 3 == (r + 1) / 3 + p * q);
        lemma_bt_split(a1, b, (r + 1) / 3, q);
        assert((a + b - 1) as nat == a1 + b);
        assert(bt(a + b, v) =~= bt(a, r) + bt(b, q));
    }
}
/// decoding what was encoded
pub proof fn lemma_ival_bt(k: nat, v: int)
    requires -half3(k) <= v <= half3(k),
    ensures ival(bt(k, v)) == v,
    decreases k,
{
    lemma_half3(k);
    if k == 0 { assert(half3(0) == 0); } else {
        let k1 = (k - 1) as nat;
        lemma_half3(k1);
        lemma_ival_bt(k1, (v + 1) / 3);
        lemma_bt_len(k1, (v + 1) / 3);
        assert(bt(k, v).skip(1) =~= bt(k1, (v + 1) / 3));
    }
}
/// encoding what was decoded; the value is in range
pub proof fn lemma_bt_ival(s: Seq<u8>)
    requires crate::mem::is_trits(s),
    ensures bt(s.len(), ival(s)) == s, -half3(s.len()) <= ival(s) <= half3(s.len()),
    decreases s.len(),
{
    lemma_half3(s.len());
    if s.len() == 0 { assert(s =~= Seq::<u8>::empty()); assert(half3(0) == 0); } else {
        let t = s.skip(1);
        assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] < 3 by { assert(t[i] == s[i + 1]); }
        lemma_bt_ival(t);
        let v = ival(s);
        let d = tv(s[0]);
        assert(s[0] < 3);
        assert((v % 3) as u8 == s[0]);
        assert((v + 1) / 3 == ival(t));
        assert(bt(s.len(), v) =~= s) by {
            assert(s =~= seq![s[0]] + t);
        }
    }
}
pub proof fn lemma_ival_cat(s: Seq<u8>, t: Seq<u8>)
    ensures ival(s + t) == ival(s) + pow3(s.len()) * ival(t),
    decreases s.len(),
{
    if s.len() == 0 { assert(s + t =~= t); } else {
        lemma_ival_cat(s.skip(1), t);
        assert((s + t).skip(1) =~= s.skip(1) + t);
        let p = pow3((s.len() - 1) as nat);
        assert(pow3(s.len()) == 3 * p);
        let it = ival(t);
        let u = ival(s.skip(1));
        assert(3 * (p * it) == (3 * p) * it) by(nonlinear_arith);
        assert(ival(s.skip(1) + t) == u + p * it);
        assert((s + t)[0] == s[0]);
        assert(ival(s + t) == tv(s[0]) + 3 * ival((s + t).skip(1)));
        assert(ival(s) == tv(s[0]) + 3 * u);
        assert(ival(s + t) == tv(s[0]) + 3 * (u + p * it));
    }
}
pub proof fn lemma_pow3_vals()
    ensures pow3(1) == 3, pow3(2) == 9, pow3(3) == 27, pow3(6) == 729, pow3(9) == 19683, pow3(18) == 387420489,
        half3(1) == 1, half3(3) == 13, half3(6) == 364, half3(9) == 9841, half3(18) == 193710244,
{
    assert(pow3(18) == 387420489) by(compute);
    assert(pow3(9) == 19683) by(compute);
    assert(pow3(6) == 729) by(compute);
    assert(pow3(3) == 27) by(compute);
    assert(pow3(2) == 9) by(compute);
    assert(pow3(1) == 3) by(compute);
}
pub open spec fn trem(t: int, m: int) -> int { if t >= 0 { t % m } else { -((-t) % m) } }
pub open spec fn tdiv(t: int, m: int) -> int { if t >= 0 { t / m } else { -((-t) / m) } }
proof fn lemma_mods(t: int, m: int, r: int)
    requires m >= 3, m % 2 == 1, r == (trem(t, m) + m + (m - 1) / 2) % m - (m - 1) / 2,
    ensures (t - r) % m == 0, t - r == m * ((t - r) / m), -(t - r) == m * ((-(t - r)) / m),
        (-(t - r)) % m == 0, tdiv(t - r, m) * m == t - r, -((m - 1) / 2) <= r <= (m - 1) / 2,
{
    let h = (m - 1) / 2;
    let a = trem(t, m);
    vstd::arithmetic::div_mod::lemma_mod_bound(a + m + h, m);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(t, m);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(-t, m);
    let td = if t >= 0 { t / m } else { -((-t) / m) };
    assert(t == m * td + a) by(nonlinear_arith) requires td == (if t >= 0 { t / m } else { -((-t) / m) }), t == m * (t / m) + t % m, -t == m * ((-t) / m) + (-t) % m, a == (if t >= 0 { t % m } else { -((-t) % m) });
    let x = a + m + h;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x, m);
    let k = td - 1 + x / m;
    assert(t - r == m * k) by(nonlinear_arith) requires t == m * td + a, x == a + m + h, x == m * (x / m) + x % m, r == x % m - h, k == td - 1 + x / m;
    vstd::arithmetic::div_mod::lemma_mod_multiples_basic(k, m);
    vstd::arithmetic::div_mod::lemma_mod_multiples_basic(-k, m);
    assert(m * k == k * m) by(nonlinear_arith);
    assert(-(m * k) == (-k) * m) by(nonlinear_arith);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(t - r, m);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(-(t - r), m);
    let d = t - r;
    assert(tdiv(d, m) * m == d) by(nonlinear_arith) requires d == m * (d / m), -d == m * ((-d) / m), tdiv(d, m) == (if d >= 0 { d / m } else { -((-d) / m) });
}
/// every tryte character is the image of exactly one tryte (unsigned and balanced)
pub proof fn lemma_chars(c: char, v: int)
    ensures
        is_tryte_char(c) ==> -13 <= char_val(c) <= 13 && val_char(char_val(c)) == c,
        -13 <= v <= 13 ==> is_tryte_char(val_char(v)) && char_val(val_char(v)) == v,
{
}
//@end
//@fn mods_i32 props=C03,C04
    requires m == 3 || m == 27 || m == 19683, i32::MIN + (m - 1) / 2 < t < i32::MAX - (m - 1) / 2,
    ensures t == r.1 * m + r.0, -((m - 1) / 2) <= r.0 <= (m - 1) / 2,
//@hint let r 0
proof { lemma_mods(t as int, m as int, r as int); }
//@hint let q 0
proof { assert(q == tdiv(t - r, m as int)); }
//@fn mods1_usize props=C07
    ensures t == r.1 * 3 + r.0, -1 <= r.0 <= 1, r.1 <= (t + 1) / 3,
//@fn mods3_usize props=C07
    ensures t == r.1 * 27 + r.0, -13 <= r.0 <= 13, r.1 <= (t + 13) / 27,
//@fn mods1 props=C03,C04
    requires i32::MIN + 1 < t < i32::MAX - 1,
    ensures t == r.1 * 3 + r.0, -1 <= r.0 <= 1,
//@fn mods3 props=C03
    requires i32::MIN + 13 < t < i32::MAX - 13,
    ensures t == r.1 * 27 + r.0, -13 <= r.0 <= 13,
//@fn mods9 props=C03
    requires i32::MIN + 9841 < t < i32::MAX - 9841,
    ensures t == r.1 * 19683 + r.0, -9841 <= r.0 <= 9841,
//@fn tryte_to_char props=C04
    requires t < 27,
    ensures r == tryte_char(t as int), is_tryte_char(r),
//@fn tryte_from_char props=C04
    ensures r.is_some() == is_tryte_char(c),
        r.is_some() ==> r.unwrap() < 27 && tryte_char(r.unwrap() as int) == c,
        forall|t: u8| t < 27 && tryte_char(t as int) == c ==> r == Some(t),
//@fn tryte_to_trint3 props=C04
    requires t < 27,
    ensures -13 <= r <= 13, r as int == if t > 13 { t - 27 } else { t as int },
//@fn tryte_from_trint3 props=C04
    requires -13 <= t <= 13,
    ensures r < 27, r as int == if t < 0 { t + 27 } else { t as int },
//@fn trint3_to_char props=C04
    requires -13 <= t <= 13,
    ensures r == val_char(t as int), is_tryte_char(r), r == tryte_char(if t < 0 { t + 27 } else { t as int }),
//@fn trint3_from_char props=C04
    ensures r.is_some() == is_tryte_char(c),
        r.is_some() ==> -13 <= r.unwrap() <= 13 && r.unwrap() as int == char_val(c) && val_char(r.unwrap() as int) == c,

//@module ring
//@prelude
// The field with 12289 elements and polynomials modulo x^1024 + 1 over it: pure mathematics, no code.

#[verifier::opaque]
pub open spec fn fadd(a: int, b: int) -> int { (a + b) % 12289 }
#[verifier::opaque]
pub open spec fn fsub(a: int, b: int) -> int { (a - b) % 12289 }
#[verifier::opaque]
pub open spec fn fmul(a: int, b: int) -> int { (a * b) % 12289 }
pub open spec fn red(a: int) -> bool { 0 <= a < 12289 }
pub open spec fn redp(f: Seq<int>) -> bool { f.len() == 1024 && forall|i: int| 0 <= i < 1024 ==> red(#[trigger] f[i]) }
/// powers
pub open spec fn fpow(a: int, n: nat) -> int decreases n { if n == 0 { 1 } else { fmul(a, fpow(a, (n - 1) as nat)) } }
/// g(0) + ... + g(n-1)
pub open spec fn fsum(g: spec_fn(int) -> int, n: int) -> int decreases n { if n <= 0 { 0 } else { fadd(fsum(g, n - 1), g(n - 1)) } }
/// f(z)
pub open spec fn feval(f: Seq<int>, z: int) -> int { fsum(|i: int| fmul(f[i], fpow(z, i as nat)), 1024) }

// ---------------------------------------------------------------- field laws
pub proof fn lemma_fred(a: int, b: int)
    ensures red(fadd(a, b)), red(fsub(a, b)), red(fmul(a, b)),
{ reveal(fadd); reveal(fsub); reveal(fmul); }
pub proof fn lemma_fadd_comm(a: int, b: int) ensures fadd(a, b) == fadd(b, a) { reveal(fadd); }
pub proof fn lemma_fmul_comm(a: int, b: int) ensures fmul(a, b) == fmul(b, a) { reveal(fmul); assert(a * b == b * a) by(nonlinear_arith); }
pub proof fn lemma_fadd_assoc(a: int, b: int, c: int) ensures fadd(fadd(a, b), c) == fadd(a, fadd(b, c)) { reveal(fadd); }
pub proof fn lemma_fmul_assoc(a: int, b: int, c: int)
    ensures fmul(fmul(a, b), c) == fmul(a, fmul(b, c)),
{
    reveal(fmul);
    vstd::arithmetic::div_mod::lemma_mul_mod_noop_left(a * b, c, 12289);
    vstd::arithmetic::div_mod::lemma_mul_mod_noop_right(a, b * c, 12289);
    assert((a * b) * c == a * (b * c)) by(nonlinear_arith);
}
pub proof fn lemma_fdist(a: int, b: int, c: int)
    ensures fmul(a, fadd(b, c)) == fadd(fmul(a, b), fmul(a, c)), fmul(fadd(b, c), a) == fadd(fmul(b, a), fmul(c, a)),
{
    reveal(fmul); reveal(fadd);
    lemma_fmul_comm(a, fadd(b, c)); lemma_fmul_comm(a, b); lemma_fmul_comm(a, c);
    vstd::arithmetic::div_mod::lemma_mul_mod_noop_right(a, b + c, 12289);
    vstd::arithmetic::div_mod::lemma_add_mod_noop(a * b, a * c, 12289);
    assert(a * (b + c) == a * b + a * c) by(nonlinear_arith);
}
pub proof fn lemma_fsub(a: int, b: int)
    ensures fsub(a, b) == fadd(a, fsub(0, b)), fsub(0, b) == fmul(12288, b), fsub(a, b) == fadd(a, fmul(12288, b)), fadd(fsub(a, b), b) == a % 12289, fsub(fadd(a, b), b) == a % 12289,
{
    reveal(fmul); reveal(fadd); reveal(fsub);
    assert((12288 * b) % 12289 == (-b) % 12289);
}
pub proof fn lemma_fone(a: int)
    requires red(a),
    ensures fmul(1, a) == a, fmul(a, 1) == a, fadd(0, a) == a, fadd(a, 0) == a, fmul(0, a) == 0, fmul(a, 0) == 0, fsub(a, 0) == a, fsub(a, a) == 0,
{ reveal(fmul); reveal(fadd); reveal(fsub); }
pub proof fn lemma_fneg(a: int, b: int)
    ensures fmul(fsub(0, a), b) == fsub(0, fmul(a, b)), fmul(a, fsub(0, b)) == fsub(0, fmul(a, b)),
{
    lemma_fsub(0, a); lemma_fsub(0, b); lemma_fsub(0, fmul(a, b));
    lemma_fmul_assoc(12288, a, b);
    lemma_fmul_comm(a, fmul(12288, b)); lemma_fmul_assoc(12288, b, a); lemma_fmul_comm(b, a);
}
/// (a+b)+(c+d) = (a+c)+(b+d)
pub proof fn lemma_fadd4(a: int, b: int, c: int, d: int)
    ensures fadd(fadd(a, b), fadd(c, d)) == fadd(fadd(a, c), fadd(b, d)),
{ reveal(fadd); }
/// (a b)(c d) = (a c)(b d)
pub proof fn lemma_fmul4(a: int, b: int, c: int, d: int)
    ensures fmul(fmul(a, b), fmul(c, d)) == fmul(fmul(a, c), fmul(b, d)),
{
    lemma_fmul_assoc(a, b, fmul(c, d)); lemma_fmul_assoc(b, c, d); lemma_fmul_comm(b, c); lemma_fmul_assoc(c, b, d); lemma_fmul_assoc(a, c, fmul(b, d));
}
pub proof fn lemma_fpow_red(a: int, n: nat) ensures red(fpow(a, n)) { if n > 0 { lemma_fred(a, fpow(a, (n - 1) as nat)); } }
pub proof fn lemma_fpow_add(a: int, m: nat, n: nat)
    ensures fpow(a, m + n) == fmul(fpow(a, m), fpow(a, n)),
    decreases m,
{
    lemma_fpow_red(a, n);
    if m == 0 { lemma_fone(fpow(a, n)); } else {
        lemma_fpow_add(a, (m - 1) as nat, n);
        lemma_fmul_assoc(a, fpow(a, (m - 1) as nat), fpow(a, n));
    }
}
pub proof fn lemma_fpow_one(n: nat) ensures fpow(1, n) == 1 decreases n { if n > 0 { lemma_fpow_one((n - 1) as nat); lemma_fone(1); } }
pub proof fn lemma_fpow_mul(a: int, m: nat, n: nat)
    ensures fpow(fpow(a, m), n) == fpow(a, m * n),
    decreases n,
{
    if n == 0 { assert(m * n == 0) by(nonlinear_arith) requires n == 0; } else {
        lemma_fpow_mul(a, m, (n - 1) as nat);
        lemma_fpow_add(a, m, m * ((n - 1) as nat));
        assert(m + m * (n - 1) == m * n) by(nonlinear_arith);
    }
}
pub proof fn lemma_fpow_base(a: int, b: int, n: nat)
    ensures fpow(fmul(a, b), n) == fmul(fpow(a, n), fpow(b, n)),
    decreases n,
{
    if n == 0 { lemma_fone(1); } else { lemma_fpow_base(a, b, (n - 1) as nat); lemma_fmul4(a, b, fpow(a, (n - 1) as nat), fpow(b, (n - 1) as nat)); }
}

// ---------------------------------------------------------------- sums
pub proof fn lemma_fsum_red(g: spec_fn(int) -> int, n: int) ensures red(fsum(g, n)) { if n > 0 { lemma_fred(fsum(g, n - 1), g(n - 1)); } }
pub proof fn lemma_fsum_ext(f: spec_fn(int) -> int, g: spec_fn(int) -> int, n: int)
    requires forall|i: int| 0 <= i < n ==> #[trigger] f(i) == g(i),
    ensures fsum(f, n) == fsum(g, n),
    decreases n,
{ if n > 0 { lemma_fsum_ext(f, g, n - 1); assert(f(n - 1) == g(n - 1)); } }
pub proof fn lemma_fsum_add(f: spec_fn(int) -> int, g: spec_fn(int) -> int, n: int)
    ensures fsum(|i: int| fadd(f(i), g(i)), n) == fadd(fsum(f, n), fsum(g, n)),
    decreases n,
{
    if n <= 0 { lemma_fone(0); } else { lemma_fsum_add(f, g, n - 1); lemma_fadd4(fsum(f, n - 1), fsum(g, n - 1), f(n - 1), g(n - 1)); }
}
pub proof fn lemma_fsum_scale(c: int, g: spec_fn(int) -> int, n: int)
    ensures fsum(|i: int| fmul(c, g(i)), n) == fmul(c, fsum(g, n)),
    decreases n,
{
    if n <= 0 { reveal(fmul); } else { lemma_fsum_scale(c, g, n - 1); lemma_fdist(c, fsum(g, n - 1), g(n - 1)); }
}
pub proof fn lemma_fsum_zero(g: spec_fn(int) -> int, n: int)
    requires forall|i: int| 0 <= i < n ==> #[trigger] g(i) == 0,
    ensures fsum(g, n) == 0,
    decreases n,
{ if n > 0 { lemma_fsum_zero(g, n - 1); assert(g(n - 1) == 0); lemma_fone(0); } }
/// all terms but one are zero
pub proof fn lemma_fsum_one(g: spec_fn(int) -> int, n: int, k: int)
    requires 0 <= k < n, red(g(k)), forall|i: int| 0 <= i < n && i != k ==> #[trigger] g(i) == 0,
    ensures fsum(g, n) == g(k),
    decreases n,
{
    if n - 1 == k { lemma_fsum_zero(g, n - 1); lemma_fone(g(k)); }
    else { lemma_fsum_one(g, n - 1, k); assert(g(n - 1) == 0); lemma_fone(g(k)); }
}
/// even and odd terms
pub proof fn lemma_fsum_split(g: spec_fn(int) -> int, n: int)
    requires n >= 0,
    ensures fsum(g, 2 * n) == fadd(fsum(|i: int| g(2 * i), n), fsum(|i: int| g(2 * i + 1), n)),
    decreases n,
{
    let (e, o) = (|i: int| g(2 * i), |i: int| g(2 * i + 1));
    if n == 0 { lemma_fone(0); } else {
        lemma_fsum_split(g, n - 1);
        assert(2 * (n - 1) == 2 * n - 2);
        assert(fsum(g, 2 * n - 1) == fadd(fsum(g, 2 * n - 2), g(2 * n - 2)));
        assert(fsum(g, 2 * n) == fadd(fadd(fsum(g, 2 * n - 2), g(2 * n - 2)), g(2 * n - 1)));
        assert(e(n - 1) == g(2 * n - 2)); assert(o(n - 1) == g(2 * n - 1));
        let (a, b) = (fsum(e, n - 1), fsum(o, n - 1));
        assert(fsum(e, n) == fadd(a, g(2 * n - 2)));
        assert(fsum(o, n) == fadd(b, g(2 * n - 1)));
        lemma_fadd_assoc(fadd(a, b), g(2 * n - 2), g(2 * n - 1));
        lemma_fadd4(a, b, g(2 * n - 2), g(2 * n - 1));
    }
}
/// the first term taken out
pub proof fn lemma_fsum_first(g: spec_fn(int) -> int, n: int)
    requires n > 0,
    ensures fsum(g, n) == fadd(g(0), fsum(|i: int| g(i + 1), n - 1)),
    decreases n,
{
    let t = |i: int| g(i + 1);
    if n == 1 { lemma_fadd_comm(0, g(0)); assert(fsum(t, 0) == 0); assert(fsum(g, 0) == 0); } else {
        lemma_fsum_first(g, n - 1);
        lemma_fadd_assoc(g(0), fsum(t, n - 2), g(n - 1));
        assert(t(n - 2) == g(n - 1));
        assert(fsum(t, n - 1) == fadd(fsum(t, n - 2), t(n - 2)));
    }
}
/// exchanging two sums
pub proof fn lemma_fsum_swap(g: spec_fn(int, int) -> int, n: int, m: int)
    requires n >= 0, m >= 0,
    ensures fsum(|i: int| fsum(|j: int| g(i, j), m), n) == fsum(|j: int| fsum(|i: int| g(i, j), n), m),
    decreases n,
{
    let rows = |i: int| fsum(|j: int| g(i, j), m);
    let cols = |j: int| fsum(|i: int| g(i, j), n);
    if n == 0 {
        assert forall|j: int| 0 <= j < m implies #[trigger] cols(j) == 0 by {}
        lemma_fsum_zero(cols, m);
    } else {
        let cols1 = |j: int| fsum(|i: int| g(i, j), n - 1);
        let last = |j: int| g(n - 1, j);
        lemma_fsum_swap(g, n - 1, m);
        assert(rows(n - 1) == fsum(last, m)) by { lemma_fsum_ext(|j: int| g(n - 1, j), last, m); }
        lemma_fsum_add(cols1, last, m);
        lemma_fsum_ext(cols, |j: int| fadd(cols1(j), last(j)), m);
    }
}

// ---------------------------------------------------------------- the root of unity
/// powers of gamma = 7, a primitive 2048-th root of unity
pub open spec fn gam(n: int) -> int { fpow(7, n as nat) }
pub open spec fn fpow_c(a: int, e: int, n: nat) -> int decreases n { if n == 0 { e } else { fpow_c(a, (a * e) % 12289, (n - 1) as nat) } }
pub proof fn lemma_fpow_c(a: int, e: int, n: nat)
    requires red(e),
    ensures fpow_c(a, e, n) == fmul(fpow(a, n), e),
    decreases n,
{
    if n == 0 { lemma_fone(e); } else {
        reveal(fmul);
        let n1 = (n - 1) as nat;
        lemma_fpow_c(a, fmul(a, e), n1);
        lemma_fmul_assoc(fpow(a, n1), a, e);
        lemma_fmul_comm(fpow(a, n1), a);
    }
}
pub proof fn lemma_gam_vals()
    ensures gam(1024) == 12288, gam(2048) == 1, gam(0) == 1,
{
    lemma_fpow_c(7, 1, 512);
    let c = fpow_c(7, 1, 512);
    assert(fpow_c(7, 1, 512) * fpow_c(7, 1, 512) % 12289 == 12288) by(compute_only);
    lemma_fpow_red(7, 512);
    lemma_fone(gam(512));
    lemma_fpow_add(7, 512, 512);
    lemma_fpow_add(7, 1024, 1024);
    reveal(fmul);
    assert(12288int * 12288int % 12289 == 1) by(compute);
}
pub proof fn lemma_gam_add(m: int, n: int)
    requires m >= 0, n >= 0,
    ensures gam(m + n) == fmul(gam(m), gam(n)), red(gam(m)),
{ lemma_fpow_add(7, m as nat, n as nat); lemma_fpow_red(7, m as nat); }
pub proof fn lemma_gam_pow(m: int, n: int)
    requires m >= 0, n >= 0,
    ensures fpow(gam(m), n as nat) == gam(m * n), m * n >= 0,
{ assert(m * n >= 0) by(nonlinear_arith) requires m >= 0, n >= 0; lemma_fpow_mul(7, m as nat, n as nat); }
pub proof fn lemma_gam_period(m: int, k: int)
    requires m >= 0, k >= 0,
    ensures gam(m + 2048 * k) == gam(m), gam(m + 1024) == fsub(0, gam(m)), red(gam(m)),
{
    lemma_gam_vals();
    lemma_gam_pow(2048, k); lemma_fpow_one(k as nat);
    lemma_gam_add(m, 2048 * k);
    lemma_gam_add(m, 1024);
    lemma_fone(gam(m));
    lemma_fmul_comm(gam(m), 12288);
    lemma_fsub(0, gam(m));
}
/// no zero divisors: 12289 is prime
spec fn nodiv(lo: int, hi: int) -> bool decreases hi - lo { if hi <= lo { true } else if hi == lo + 1 { lo <= 1 || 12289int % lo != 0 } else { let m = (lo + hi) / 2; if lo < m && m < hi { nodiv(lo, m) && nodiv(m, hi) } else { false } } }
proof fn lemma_nodiv(lo: int, hi: int, k: int)
    requires nodiv(lo, hi), lo <= k < hi, k > 1,
    ensures 12289int % k != 0,
    decreases hi - lo,
{ if hi > lo + 1 { let m = (lo + hi) / 2; if k < m { lemma_nodiv(lo, m, k); } else { lemma_nodiv(m, hi, k); } } }
#[verifier::rlimit(200)]
proof fn lemma_prime(k: int)
    requires 1 < k < 12289,
    ensures 12289int % k != 0,
{ assert(nodiv(0, 12289)) by(compute_only); lemma_nodiv(0, 12289, k); }
pub proof fn lemma_nozd(a: int, b: int)
    requires 0 < a < 12289, (a * b) % 12289 == 0,
    ensures b % 12289 == 0,
    decreases a,
{
    if a > 1 {
        lemma_prime(a);
        let (r, k, q) = (12289int % a, 12289int / a, (a * b) / 12289);
        assert(12289 == a * k + r) by { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(12289, a); }
        assert(a * b == 12289 * q);
        assert(0 < r < a) by { vstd::arithmetic::div_mod::lemma_mod_bound(12289, a); }
        assert(r * b == 12289 * (b - k * q)) by(nonlinear_arith) requires 12289 == a * k + r, a * b == 12289 * q;
        assert((12289 * (b - k * q)) % 12289 == 0);
        lemma_nozd(r, b);
    } else { assert(a * b == b) by(nonlinear_arith) requires a == 1; }
}
pub proof fn lemma_fnozd(a: int, b: int)
    requires red(a), red(b), fmul(a, b) == 0, a != 0,
    ensures b == 0,
{ reveal(fmul); lemma_nozd(a, b); }

/// inverses: a^12287 a = 1, checked for every a
spec fn sq_c(e: int, a: int, n: nat) -> int decreases n { if n == 0 { e } else { sq_c((((e * e) % 12289) * a) % 12289, a, (n - 1) as nat) } }
spec fn chain_c(a: int) -> int { let e = sq_c(a, a, 11); let t = (e * a) % 12289; let u = (t * t) % 12289; (u * e) % 12289 }
spec fn okinv(lo: int, hi: int) -> bool decreases hi - lo { if hi <= lo { true } else if hi == lo + 1 { lo == 0 || (chain_c(lo) * lo) % 12289 == 1 } else { let m = (lo + hi) / 2; if lo < m && m < hi { okinv(lo, m) && okinv(m, hi) } else { false } } }
proof fn lemma_okinv(lo: int, hi: int, k: int)
    requires okinv(lo, hi), lo <= k < hi, k > 0,
    ensures (chain_c(k) * k) % 12289 == 1,
    decreases hi - lo,
{ if hi > lo + 1 { let m = (lo + hi) / 2; if k < m { lemma_okinv(lo, m, k); } else { lemma_okinv(m, hi, k); } } }
/// the exponents 1, 3, 7, ... reached by squaring and multiplying
pub open spec fn ones(k: nat) -> nat decreases k { if k == 0 { 1 } else { 2 * ones((k - 1) as nat) + 1 } }
pub proof fn lemma_sq_step(a: int, e: int, k: nat)
    requires e == fpow(a, ones(k)),
    ensures fmul(fmul(e, e), a) == fpow(a, ones((k + 1) as nat)),
{
    lemma_fpow_add(a, ones(k), ones(k));
    lemma_fmul_comm(fmul(e, e), a);
    assert(ones((k + 1) as nat) == 2 * ones(k) + 1);
    assert(ones(k) + ones(k) == 2 * ones(k));
}
proof fn lemma_sq_c(a: int, e: int, k: nat, n: nat)
    requires e == fpow(a, ones(k)),
    ensures sq_c(e, a, n) == fpow(a, ones(k + n)),
    decreases n,
{
    if n > 0 {
        reveal(fmul);
        lemma_fpow_add(a, ones(k), ones(k));
        let e2 = fmul(e, e);
        lemma_fmul_comm(e2, a);
        assert(ones((k + 1) as nat) == 2 * ones(k) + 1);
        assert(fpow(a, ones((k + 1) as nat)) == fmul(a, fpow(a, (2 * ones(k)) as nat)));
        assert(ones(k) + ones(k) == 2 * ones(k));
        lemma_sq_c(a, fmul(e2, a), k + 1, (n - 1) as nat);
        assert(((e * e) % 12289) * a % 12289 == fmul(e2, a));
    }
}
#[verifier::rlimit(400)]
pub proof fn lemma_fermat(a: int)
    requires 0 < a < 12289,
    ensures fmul(fpow(a, 12287), a) == 1,
{
    assert(okinv(0, 12289)) by(compute_only);
    lemma_okinv(0, 12289, a);
    lemma_fone(a);
    assert(fpow(a, 1) == a) by { reveal_with_fuel(fpow, 2); }
    lemma_sq_c(a, a, 0, 11);
    assert(ones(11) == 4095) by(compute);
    let e = fpow(a, 4095);
    assert(sq_c(a, a, 11) == e);
    reveal(fmul);
    let t = fmul(e, a);
    lemma_fmul_comm(e, a);
    assert(t == fpow(a, 4096));
    lemma_fpow_add(a, 4096, 4096);
    lemma_fpow_add(a, 8192, 4095);
    assert(chain_c(a) == fpow(a, 12287));
}

// ---------------------------------------------------------------- transforms
/// t_j = f(gamma^(2j+1))
pub open spec fn s_ntt(f: Seq<int>) -> Seq<int> { Seq::new(1024, |j: int| feval(f, gam(2 * j + 1))) }
/// f_k = n^-1 gamma^-k sum_j t_j gamma^(-2jk)
pub open spec fn s_intt(t: Seq<int>) -> Seq<int> { Seq::new(1024, |k: int| fmul(fmul(12277, gam(2048 - k)), feval(t, gam(2 * (1024 - k))))) }
pub open spec fn pmulp(f: Seq<int>, g: Seq<int>) -> Seq<int> { Seq::new(1024, |i: int| fmul(f[i], g[i])) }
/// x * g modulo x^1024 + 1
pub open spec fn xmul(g: Seq<int>) -> Seq<int> { Seq::new(1024, |i: int| if i == 0 { fsub(0, g[1023]) } else { g[i - 1] }) }
/// (f_k + f_(k+1) x + ... + f_1023 x^(1023-k)) g modulo x^1024 + 1
pub open spec fn ringmul_from(f: Seq<int>, g: Seq<int>, k: int) -> Seq<int> decreases 1024 - k {
    if k >= 1024 { Seq::new(1024, |i: int| 0int) } else { let r = xmul(ringmul_from(f, g, k + 1)); Seq::new(1024, |i: int| fadd(fmul(f[k], g[i]), r[i])) }
}
/// the product in the ring
pub open spec fn ringmul(f: Seq<int>, g: Seq<int>) -> Seq<int> { ringmul_from(f, g, 0) }
pub open spec fn padd(f: Seq<int>, g: Seq<int>) -> Seq<int> { Seq::new(1024, |i: int| fadd(f[i], g[i])) }
pub open spec fn psub(f: Seq<int>, g: Seq<int>) -> Seq<int> { Seq::new(1024, |i: int| fsub(f[i], g[i])) }

/// sum over a full period of a power of omega = gamma^2
proof fn lemma_geo(w: int, n: int)
    requires n >= 0, red(w),
    ensures fmul(fsub(w, 1), fsum(|i: int| fpow(w, i as nat), n)) == fsub(fpow(w, n as nat), 1),
    decreases n,
{
    let g = |i: int| fpow(w, i as nat);
    lemma_fone(1);
    lemma_fred(w, 1);
    if n == 0 { lemma_fone(fsub(w, 1)); assert(fsum(g, 0) == 0); } else {
        lemma_geo(w, n - 1);
        let p = fpow(w, (n - 1) as nat);
        lemma_fpow_red(w, (n - 1) as nat);
        lemma_fdist(fsub(w, 1), fsum(g, n - 1), p);
        // (w-1) p = w p - p
        lemma_fsub(w, 1); lemma_fdist(p, w, 12288); lemma_fmul_comm(w, p);
        lemma_fmul_comm(fsub(w, 1), p);
        assert(fmul(12288, 1) == 12288) by { lemma_fone(12288); }
        lemma_fmul_comm(p, 12288);
        assert(fmul(fsub(w, 1), p) == fadd(fmul(w, p), fmul(12288, p)));
        lemma_fsub(fmul(w, p), p);
        reveal(fadd); reveal(fsub); reveal(fmul);
    }
}
/// gamma^(2d) is not 1 for d in (0, 1024)
spec fn nontriv(e: int, n: nat) -> bool decreases n { if n == 0 { true } else { e != 1 && nontriv((49 * e) % 12289, (n - 1) as nat) } }
proof fn lemma_nontriv(e: int, n: nat, k: nat)
    requires nontriv(e, n), k < n, red(e),
    ensures fmul(gam(2 * k as int), e) != 1,
    decreases n,
{
    reveal(fmul);
    if k == 0 { lemma_fone(e); assert(gam(0) == 1); } else {
        let k1 = (k - 1) as nat;
        lemma_nontriv(fmul(49, e), (n - 1) as nat, k1);
        lemma_gam_add(2 * k1 as int, 2);
        assert(gam(2) == 49) by { reveal_with_fuel(fpow, 3); }
        lemma_fmul_assoc(gam(2 * k1 as int), 49, e);
        assert(2 * k1 + 2 == 2 * k);
    }
}
proof fn lemma_order(d: int)
    requires 0 < d < 1024,
    ensures gam(2 * d) != 1,
{
    assert(nontriv(49, 1023)) by(compute_only);
    lemma_nontriv(49, 1023, (d - 1) as nat);
    lemma_gam_add(2 * (d - 1), 2);
    assert(gam(2) == 49) by { reveal(fmul); reveal_with_fuel(fpow, 3); }
}
/// sum_j omega^(j e) for e not a multiple of 1024 is 0, else 1024
pub proof fn lemma_orth(e: int)
    requires e >= 0,
    ensures fsum(|j: int| gam(2 * e * j), 1024) == if e % 1024 == 0 { 1024int } else { 0int },
{
    let d = e % 1024;
    let w = gam(2 * d);
    let g = |j: int| gam(2 * e * j);
    let p = |j: int| fpow(w, j as nat);
    lemma_fpow_red(7, (2 * d) as nat);
    assert forall|j: int| 0 <= j < 1024 implies #[trigger] g(j) == p(j) by {
        lemma_gam_pow(2 * d, j);
        
        assert((e / 1024) * j >= 0) by(nonlinear_arith) requires e >= 0, j >= 0;
        assert(2 * e * j == 2 * d * j + 2048 * ((e / 1024) * j)) by(nonlinear_arith) requires e == 1024 * (e / 1024) + d;
        assert(2 * d * j >= 0) by(nonlinear_arith) requires d >= 0, j >= 0;
        lemma_gam_period(2 * d * j, (e / 1024) * j);
    }
    lemma_fsum_ext(g, p, 1024);
    lemma_gam_vals();
    if d == 0 {
        assert forall|j: int| 0 <= j < 1024 implies #[trigger] p(j) == 1 by { lemma_fpow_one(j as nat); }
        lemma_fsum_count(p, 1024);
    } else {
        lemma_geo(w, 1024);
        lemma_gam_pow(2 * d, 1024);
        lemma_gam_period(0, d);
        assert(2 * d * 1024 == 0 + 2048 * d);
        lemma_fone(1);
        lemma_order(d);
        lemma_fred(w, 1);
        lemma_fsum_red(p, 1024);
        assert(fsub(w, 1) != 0) by { reveal(fsub); }
        lemma_fnozd(fsub(w, 1), fsum(p, 1024));
    }
}
proof fn lemma_fsum_count(g: spec_fn(int) -> int, n: int)
    requires 0 <= n < 12289, forall|i: int| 0 <= i < n ==> #[trigger] g(i) == 1,
    ensures fsum(g, n) == n,
    decreases n,
{ if n > 0 { lemma_fsum_count(g, n - 1); assert(g(n - 1) == 1); reveal(fadd); } }

pub open spec fn gterm(e: int, j: int) -> int { gam(2 * e * j) }
/// C16: the inverse transform undoes the transform
pub proof fn lemma_intt_ntt(f: Seq<int>)
    requires redp(f),
    ensures s_intt(s_ntt(f)) == f,
{
    let t = s_ntt(f);
    assert forall|k: int| 0 <= k < 1024 implies #[trigger] s_intt(t)[k] == f[k] by {
        let z = gam(2 * (1024 - k));
        // t_j z^j = sum_i f_i gamma^i gamma^(2 j (i + 1024 - k))
        let g = |j: int, i: int| fmul(fmul(f[i], gam(i)), gam(2 * (i + 1024 - k) * j));
        let rows = |j: int| fsum(|i: int| g(j, i), 1024);
        let lhs = |j: int| fmul(t[j], fpow(z, j as nat));
        assert forall|j: int| 0 <= j < 1024 implies #[trigger] lhs(j) == rows(j) by {
            let zj = fpow(z, j as nat);
            let y = gam(2 * j + 1);
            let a = |i: int| fmul(f[i], fpow(y, i as nat));
            let b = |i: int| fmul(zj, a(i));
            let c = |i: int| g(j, i);
            lemma_fmul_comm(t[j], zj);
            lemma_fsum_ext(|i: int| fmul(f[i], fpow(y, i as nat)), a, 1024);
            lemma_fsum_scale(zj, a, 1024);
            lemma_fsum_ext(|i: int| fmul(zj, a(i)), b, 1024);
            assert forall|i: int| 0 <= i < 1024 implies #[trigger] b(i) == c(i) by { lemma_term1(f[i], i, j, k); }
            lemma_fsum_ext(b, c, 1024);
            lemma_fsum_ext(|i: int| g(j, i), c, 1024);
        }
        lemma_fsum_ext(lhs, rows, 1024);
        lemma_fsum_ext(|j: int| fmul(t[j], fpow(z, j as nat)), lhs, 1024);
        lemma_fsum_swap(g, 1024, 1024);
        let cols = |i: int| fsum(|j: int| g(j, i), 1024);
        lemma_fsum_ext(|j: int| fsum(|i: int| g(j, i), 1024), rows, 1024);
        lemma_fsum_ext(|i: int| fsum(|j: int| g(j, i), 1024), cols, 1024);
        assert forall|i: int| 0 <= i < 1024 implies #[trigger] cols(i) == if i == k { fmul(fmul(f[k], gam(k)), 1024) } else { 0 } by {
            let c0 = fmul(f[i], gam(i));
            let e = i + 1024 - k;
            let h = |j: int| gam(2 * e * j);
            lemma_fsum_scale(c0, h, 1024);
            lemma_fsum_ext(|j: int| g(j, i), |j: int| fmul(c0, h(j)), 1024);
            lemma_orth(e);
            lemma_fsum_ext(|j: int| gam(2 * e * j), h, 1024);
            lemma_fred(f[i], gam(i));
            lemma_fone(c0);
            assert(e % 1024 == 0 <==> i == k);
        }
        lemma_fred(fmul(f[k], gam(k)), 1024);
        lemma_fsum_one(cols, 1024, k);
        assert(feval(t, z) == fmul(fmul(f[k], gam(k)), 1024));
        lemma_final1(f[k], k);
    }
    assert(s_intt(t) =~= f);
}
proof fn lemma_term1(a: int, i: int, j: int, k: int)
    requires 0 <= i < 1024, 0 <= j < 1024, 0 <= k < 1024,
    ensures fmul(fpow(gam(2 * (1024 - k)), j as nat), fmul(a, fpow(gam(2 * j + 1), i as nat))) == fmul(fmul(a, gam(i)), gam(2 * (i + 1024 - k) * j)),
{
    lemma_gam_pow(2 * (1024 - k), j);
    lemma_gam_pow(2 * j + 1, i);
    let (u, v) = (2 * (1024 - k) * j, (2 * j + 1) * i);
    lemma_fmul_comm(gam(u), fmul(a, gam(v)));
    lemma_fmul_assoc(a, gam(v), gam(u));
    lemma_gam_add(v, u);
    let w = 2 * (i + 1024 - k) * j;
    assert(v + u == i + w) by(nonlinear_arith) requires u == 2 * (1024 - k) * j, v == (2 * j + 1) * i, w == 2 * (i + 1024 - k) * j;
    assert(w >= 0) by(nonlinear_arith) requires w == 2 * (i + 1024 - k) * j, i >= 0, j >= 0, k < 1024;
    lemma_gam_add(i, w);
    lemma_fmul_assoc(a, gam(i), gam(w));
}
proof fn lemma_final1(a: int, k: int)
    requires red(a), 0 <= k < 1024,
    ensures fmul(fmul(12277, gam(2048 - k)), fmul(fmul(a, gam(k)), 1024)) == a,
{
    lemma_fmul_comm(12277, gam(2048 - k));
    lemma_fmul_comm(fmul(a, gam(k)), 1024);
    let (c, g1, g0) = (12277int, gam(2048 - k), gam(k));
    // (g1 c)(1024 (a g0)) = (g1 (a g0)) ... regroup
    lemma_fmul_comm(g1, c); lemma_fmul4(c, g1, 1024, fmul(a, g0));
    assert(fmul(c, 1024) == 1) by { reveal(fmul); }
    lemma_fmul_comm(g1, fmul(a, g0));
    lemma_fmul_assoc(a, g0, g1);
    lemma_gam_add(k, 2048 - k);
    lemma_gam_vals();
    lemma_fone(a); lemma_fred(g1, fmul(a, g0)); lemma_fone(fmul(g1, fmul(a, g0)));
}
/// C16: and the other way round
pub proof fn lemma_ntt_intt(t: Seq<int>)
    requires redp(t),
    ensures s_ntt(s_intt(t)) == t,
{
    let f = s_intt(t);
    assert forall|j: int| 0 <= j < 1024 implies #[trigger] s_ntt(f)[j] == t[j] by {
        let y = gam(2 * j + 1);
        // f_k y^k = n^-1 sum_i t_i gamma^(2 k (j + 1024 - i))
        let g = |k: int, i: int| fmul(fmul(12277, t[i]), gam(2 * (j + 1024 - i) * k));
        let rows = |k: int| fsum(|i: int| g(k, i), 1024);
        let lhs = |k: int| fmul(f[k], fpow(y, k as nat));
        assert forall|k: int| 0 <= k < 1024 implies #[trigger] lhs(k) == rows(k) by {
            let z = gam(2 * (1024 - k));
            let yk = fpow(y, k as nat);
            let s = fmul(fmul(12277, gam(2048 - k)), yk);
            let a = |i: int| fmul(t[i], fpow(z, i as nat));
            let b = |i: int| fmul(s, a(i));
            let c = |i: int| g(k, i);
            lemma_fsum_ext(|i: int| fmul(t[i], fpow(z, i as nat)), a, 1024);
            let m = fmul(12277, gam(2048 - k));
            lemma_fmul_comm(fmul(m, feval(t, z)), yk); lemma_fmul_assoc(yk, m, feval(t, z)); lemma_fmul_comm(yk, m);
            assert(lhs(k) == fmul(s, feval(t, z)));
            lemma_fsum_scale(s, a, 1024);
            lemma_fsum_ext(|i: int| fmul(s, a(i)), b, 1024);
            assert forall|i: int| 0 <= i < 1024 implies #[trigger] b(i) == c(i) by { lemma_term2(t[i], i, j, k); }
            lemma_fsum_ext(b, c, 1024);
            lemma_fsum_ext(|i: int| g(k, i), c, 1024);
        }
        lemma_fsum_ext(lhs, rows, 1024);
        lemma_fsum_ext(|k: int| fmul(f[k], fpow(y, k as nat)), lhs, 1024);
        lemma_fsum_swap(g, 1024, 1024);
        let cols = |i: int| fsum(|k: int| g(k, i), 1024);
        lemma_fsum_ext(|k: int| fsum(|i: int| g(k, i), 1024), rows, 1024);
        lemma_fsum_ext(|i: int| fsum(|k: int| g(k, i), 1024), cols, 1024);
        assert forall|i: int| 0 <= i < 1024 implies #[trigger] cols(i) == if i == j { t[j] } else { 0 } by {
            let c0 = fmul(12277, t[i]);
            let e = j + 1024 - i;
            let h = |k: int| gam(2 * e * k);
            lemma_fsum_scale(c0, h, 1024);
            lemma_fsum_ext(|k: int| g(k, i), |k: int| fmul(c0, h(k)), 1024);
            lemma_orth(e);
            lemma_fsum_ext(|k: int| gam(2 * e * k), h, 1024);
            lemma_fred(12277, t[i]);
            lemma_fone(c0);
            assert(e % 1024 == 0 <==> i == j);
            lemma_fmul_comm(12277, t[i]); lemma_fmul_assoc(t[i], 12277, 1024);
            assert(fmul(12277, 1024) == 1) by { reveal(fmul); }
            lemma_fone(t[i]);
        }
        lemma_fsum_one(cols, 1024, j);
    }
    assert(s_ntt(f) =~= t);
}
proof fn lemma_term2(a: int, i: int, j: int, k: int)
    requires 0 <= i < 1024, 0 <= j < 1024, 0 <= k < 1024,
    ensures fmul(fmul(fmul(12277, gam(2048 - k)), fpow(gam(2 * j + 1), k as nat)), fmul(a, fpow(gam(2 * (1024 - k)), i as nat))) == fmul(fmul(12277, a), gam(2 * (j + 1024 - i) * k)),
{
    lemma_gam_pow(2 * (1024 - k), i);
    lemma_gam_pow(2 * j + 1, k);
    let (p, u, v, w) = (2048 - k, 2 * (1024 - k) * i, (2 * j + 1) * k, 2 * (j + 1024 - i) * k);
    lemma_fmul_assoc(12277, gam(p), gam(v));
    lemma_gam_add(p, v);
    lemma_fmul4(12277, gam(p + v), a, gam(u));
    lemma_gam_add(p + v, u);
    assert(w >= 0) by(nonlinear_arith) requires w == 2 * (j + 1024 - i) * k, j >= 0, k >= 0, i < 1024;
    // p + v + u = 2048 - k + 2jk + k + 2048 i - 2ki ; w = 2jk + 2048k - 2ik
    assert(p + v + u + 2048 * k == w + 2048 * (i + 1)) by(nonlinear_arith) requires p == 2048 - k, u == 2 * (1024 - k) * i, v == (2 * j + 1) * k, w == 2 * (j + 1024 - i) * k;
    lemma_gam_period(p + v + u, k);
    lemma_gam_period(w, i + 1);
}
proof fn lemma_ringmul_red(f: Seq<int>, g: Seq<int>, k: int)
    requires 0 <= k <= 1024,
    ensures redp(ringmul_from(f, g, k)), redp(xmul(ringmul_from(f, g, k))),
    decreases 1024 - k,
{
    if k < 1024 { lemma_ringmul_red(f, g, k + 1); }
    let r = ringmul_from(f, g, k);
    assert forall|i: int| 0 <= i < 1024 implies red(#[trigger] r[i]) by { if k < 1024 { lemma_fred(fmul(f[k], g[i]), xmul(ringmul_from(f, g, k + 1))[i]); } }
    lemma_fred(0, r[1023]);
    assert(redp(xmul(r)));
}
pub proof fn lemma_ringmul_ok(f: Seq<int>, g: Seq<int>) ensures redp(ringmul(f, g)) { lemma_ringmul_red(f, g, 0); }
/// evaluation at y with y^1024 = -1 is a ring homomorphism
pub proof fn lemma_eval_xmul(g: Seq<int>, y: int)
    requires fpow(y, 1024) == 12288, redp(g),
    ensures feval(xmul(g), y) == fmul(y, feval(g, y)),
{
    let x = xmul(g);
    let a = |i: int| fmul(g[i], fpow(y, i as nat));
    let b = |i: int| fmul(x[i], fpow(y, i as nat));
    let c = |i: int| fmul(y, a(i));
    lemma_fsum_ext(|i: int| fmul(g[i], fpow(y, i as nat)), a, 1024);
    lemma_fsum_ext(|i: int| fmul(x[i], fpow(y, i as nat)), b, 1024);
    lemma_fsum_scale(y, a, 1024);
    lemma_fsum_ext(|i: int| fmul(y, a(i)), c, 1024);
    assert(fsum(c, 1024) == fmul(y, feval(g, y)));
    lemma_fsum_first(b, 1024);
    let d = |i: int| b(i + 1);
    lemma_fsum_ext(|i: int| b(i + 1), d, 1023);
    assert forall|i: int| 0 <= i < 1023 implies #[trigger] d(i) == c(i) by { lemma_xterm(g[i], y, i as nat); }
    lemma_fsum_ext(d, c, 1023);
    assert(fsum(c, 1024) == fadd(fsum(c, 1023), c(1023)));
    lemma_xterm(g[1023], y, 1023);
    assert(c(1023) == fmul(g[1023], 12288));
    assert(b(0) == fmul(fsub(0, g[1023]), 1));
    lemma_fred(0, g[1023]);
    lemma_fone(fsub(0, g[1023]));
    lemma_fsub(0, g[1023]);
    lemma_fmul_comm(g[1023], 12288);
    lemma_fadd_comm(b(0), fsum(c, 1023));
}
proof fn lemma_xterm(a: int, y: int, i: nat)
    ensures fmul(y, fmul(a, fpow(y, i))) == fmul(a, fpow(y, i + 1)),
{ lemma_fmul_assoc(y, a, fpow(y, i)); lemma_fmul_comm(y, a); lemma_fmul_assoc(a, y, fpow(y, i)); }
proof fn lemma_eval_mul(f: Seq<int>, g: Seq<int>, y: int, k: int)
    requires fpow(y, 1024) == 12288, redp(f), redp(g), 0 <= k <= 1024,
    ensures feval(ringmul_from(f, g, k), y) == fmul(fsum(|i: int| fmul(f[k + i], fpow(y, i as nat)), 1024 - k), feval(g, y)),
    decreases 1024 - k,
{
    let r = ringmul_from(f, g, k);
    let tl = |i: int| fmul(f[k + i], fpow(y, i as nat));
    if k == 1024 {
        let z = |i: int| fmul(r[i], fpow(y, i as nat));
        lemma_fsum_ext(|i: int| fmul(r[i], fpow(y, i as nat)), z, 1024);
        assert forall|i: int| 0 <= i < 1024 implies #[trigger] z(i) == 0 by { lemma_fpow_red(y, i as nat); lemma_fone(fpow(y, i as nat)); }
        lemma_fsum_zero(z, 1024);
        assert(fsum(tl, 0) == 0);
        lemma_fsum_red(|i: int| fmul(g[i], fpow(y, i as nat)), 1024);
        lemma_fone(feval(g, y));
    } else {
        lemma_eval_mul(f, g, y, k + 1);
        let r1 = ringmul_from(f, g, k + 1);
        let xr = xmul(r1);
        lemma_ringmul_red(f, g, k + 1);
        lemma_eval_xmul(r1, y);
        // eval r = f_k eval g + eval xr
        let a = |i: int| fmul(g[i], fpow(y, i as nat));
        let b = |i: int| fmul(xr[i], fpow(y, i as nat));
        let fa = |i: int| fmul(f[k], a(i));
        let rr = |i: int| fmul(r[i], fpow(y, i as nat));
        assert forall|i: int| 0 <= i < 1024 implies #[trigger] rr(i) == fadd(fa(i), b(i)) by {
            let p = fpow(y, i as nat);
            lemma_fdist(p, fmul(f[k], g[i]), xr[i]);
            lemma_fmul_assoc(f[k], g[i], p);
        }
        lemma_fsum_ext(rr, |i: int| fadd(fa(i), b(i)), 1024);
        lemma_fsum_add(fa, b, 1024);
        lemma_fsum_ext(|i: int| fmul(r[i], fpow(y, i as nat)), rr, 1024);
        lemma_fsum_ext(|i: int| fmul(xr[i], fpow(y, i as nat)), b, 1024);
        lemma_fsum_ext(|i: int| fmul(g[i], fpow(y, i as nat)), a, 1024);
        lemma_fsum_scale(f[k], a, 1024);
        lemma_fsum_ext(|i: int| fmul(f[k], a(i)), fa, 1024);
        let ge = feval(g, y);
        assert(feval(r, y) == fadd(fmul(f[k], ge), fmul(y, feval(r1, y))));
        // tail sum of f
        let n1 = 1024 - k - 1;
        let t1 = |i: int| fmul(f[k + 1 + i], fpow(y, i as nat));
        lemma_fsum_ext(|i: int| fmul(f[k + 1 + i], fpow(y, i as nat)), t1, n1);
        lemma_fsum_first(tl, 1024 - k);
        let yt = |i: int| fmul(y, t1(i));
        lemma_fsum_scale(y, t1, n1);
        lemma_fsum_ext(|i: int| fmul(y, t1(i)), yt, n1);
        assert forall|i: int| 0 <= i < n1 implies #[trigger] yt(i) == tl(i + 1) by { lemma_xterm(f[k + 1 + i], y, i as nat); assert(k + (i + 1) == k + 1 + i); }
        lemma_fsum_ext(|i: int| tl(i + 1), yt, n1);
        lemma_fone(f[k]);
        assert(tl(0) == f[k]);
        let s1 = fsum(t1, n1);
        assert(fsum(tl, 1024 - k) == fadd(f[k], fmul(y, s1)));
        lemma_fdist(ge, f[k], fmul(y, s1));
        lemma_fmul_assoc(y, s1, ge);
        lemma_fsum_ext(|i: int| fmul(f[k + i], fpow(y, i as nat)), tl, 1024 - k);
    }
}
/// C16: pointwise multiplication of transforms is multiplication in the ring
pub proof fn lemma_ntt_mul(f: Seq<int>, g: Seq<int>)
    requires redp(f), redp(g),
    ensures s_ntt(ringmul(f, g)) == pmulp(s_ntt(f), s_ntt(g)), s_intt(pmulp(s_ntt(f), s_ntt(g))) == ringmul(f, g),
{
    assert forall|j: int| 0 <= j < 1024 implies #[trigger] s_ntt(ringmul(f, g))[j] == pmulp(s_ntt(f), s_ntt(g))[j] by {
        let y = gam(2 * j + 1);
        lemma_gam_pow(2 * j + 1, 1024);
        lemma_gam_vals();
        lemma_gam_period(1024, j);
        assert((2 * j + 1) * 1024 == 1024 + 2048 * j);
        lemma_eval_mul(f, g, y, 0);
        lemma_fsum_ext(|i: int| fmul(f[0 + i], fpow(y, i as nat)), |i: int| fmul(f[i], fpow(y, i as nat)), 1024);
    }
    assert(s_ntt(ringmul(f, g)) =~= pmulp(s_ntt(f), s_ntt(g)));
    lemma_ringmul_ok(f, g);
    lemma_intt_ntt(ringmul(f, g));
}
/// the transform is linear
pub proof fn lemma_ntt_add(f: Seq<int>, g: Seq<int>)
    ensures s_ntt(padd(f, g)) == padd(s_ntt(f), s_ntt(g)),
{
    assert forall|j: int| 0 <= j < 1024 implies #[trigger] s_ntt(padd(f, g))[j] == padd(s_ntt(f), s_ntt(g))[j] by {
        let y = gam(2 * j + 1);
        let a = |i: int| fmul(f[i], fpow(y, i as nat));
        let b = |i: int| fmul(g[i], fpow(y, i as nat));
        let c = |i: int| fmul(padd(f, g)[i], fpow(y, i as nat));
        assert forall|i: int| 0 <= i < 1024 implies #[trigger] c(i) == fadd(a(i), b(i)) by { lemma_fdist(fpow(y, i as nat), f[i], g[i]); }
        lemma_fsum_ext(c, |i: int| fadd(a(i), b(i)), 1024);
        lemma_fsum_add(a, b, 1024);
        lemma_fsum_ext(|i: int| fmul(f[i], fpow(y, i as nat)), a, 1024);
        lemma_fsum_ext(|i: int| fmul(g[i], fpow(y, i as nat)), b, 1024);
        lemma_fsum_ext(|i: int| fmul(padd(f, g)[i], fpow(y, i as nat)), c, 1024);
    }
    assert(s_ntt(padd(f, g)) =~= padd(s_ntt(f), s_ntt(g)));
}

// ---------------------------------------------------------------- the butterfly network
pub open spec fn pw2(n: int) -> int decreases n { if n <= 0 { 1 } else { 2 * pw2(n - 1) } }
/// the m lowest bits of b reversed
pub open spec fn rev(m: int, b: int) -> int decreases m { if m <= 0 { 0 } else { (b % 2) * pw2(m - 1) + rev(m - 1, b / 2) } }
/// transform of the 2^s terms x_o, x_(o + 2^(10-s)), ... at frequency q, by halves
pub open spec fn dft(w: int, x: Seq<int>, s: int, o: int, q: int) -> int decreases s {
    if s <= 0 { x[o] } else { fadd(dft(w, x, s - 1, o, q), fmul(fpow(w, (pw2(10 - s) * q) as nat), dft(w, x, s - 1, o + pw2(10 - s), q))) }
}
pub proof fn lemma_pw2(n: int)
    requires 0 <= n <= 10,
    ensures pw2(0) == 1, pw2(1) == 2, pw2(2) == 4, pw2(3) == 8, pw2(4) == 16, pw2(5) == 32, pw2(6) == 64, pw2(7) == 128, pw2(8) == 256, pw2(9) == 512, pw2(10) == 1024, pw2(n) > 0, pw2(n) * pw2(10 - n) == 1024,
{
    assert(pw2(10) == 1024) by(compute); assert(pw2(9) == 512) by(compute); assert(pw2(8) == 256) by(compute); assert(pw2(7) == 128) by(compute); assert(pw2(6) == 64) by(compute);
    assert(pw2(5) == 32) by(compute); assert(pw2(4) == 16) by(compute); assert(pw2(3) == 8) by(compute); assert(pw2(2) == 4) by(compute); assert(pw2(1) == 2) by(compute);
}
pub proof fn lemma_rev_bound(m: int, b: int)
    requires 0 <= m <= 10, b >= 0,
    ensures 0 <= rev(m, b) < pw2(m),
    decreases m,
{
    if m > 0 { lemma_rev_bound(m - 1, b / 2); assert((b % 2) * pw2(m - 1) <= pw2(m - 1) && (b % 2) * pw2(m - 1) >= 0) by(nonlinear_arith) requires pw2(m - 1) > 0, 0 <= b % 2 <= 1; }
}
pub proof fn lemma_dft_red(w: int, x: Seq<int>, s: int, o: int, q: int)
    requires 0 <= s <= 10, 0 <= o < pw2(10 - s), redp(x),
    ensures red(dft(w, x, s, o, q)),
{
    lemma_pw2(10 - s);
    if s > 0 { lemma_fred(dft(w, x, s - 1, o, q), fmul(fpow(w, (pw2(10 - s) * q) as nat), dft(w, x, s - 1, o + pw2(10 - s), q))); }
}
/// frequencies repeat after 2^s
pub proof fn lemma_dft_period(w: int, x: Seq<int>, s: int, o: int, q: int, k: int)
    requires 0 <= s <= 10, q >= 0, k >= 0, fpow(w, 1024) == 1,
    ensures dft(w, x, s, o, q + k * pw2(s)) == dft(w, x, s, o, q),
    decreases s,
{
    if s > 0 {
        lemma_pw2(s);
        assert(pw2(s) == 2 * pw2(s - 1));
        let q2 = q + k * pw2(s);
        assert(k * pw2(s) == (2 * k) * pw2(s - 1)) by(nonlinear_arith) requires pw2(s) == 2 * pw2(s - 1);
        lemma_dft_period(w, x, s - 1, o, q, 2 * k);
        lemma_dft_period(w, x, s - 1, o + pw2(10 - s), q, 2 * k);
        let p = pw2(10 - s);
        assert(p * q2 == p * q + 1024 * k) by(nonlinear_arith) requires p * pw2(s) == 1024, q2 == q + k * pw2(s);
        assert(pw2(s) * p == p * pw2(s)) by(nonlinear_arith);
        assert(p * q >= 0) by(nonlinear_arith) requires p > 0, q >= 0;
        lemma_fpow_add(w, (p * q) as nat, (1024 * k) as nat);
        lemma_fpow_mul(w, 1024, k as nat);
        lemma_fpow_one(k as nat);
        lemma_fpow_red(w, (p * q) as nat);
        lemma_fone(fpow(w, (p * q) as nat));
    }
}
/// the recursion computes the sum
pub proof fn lemma_dft_sum(w: int, x: Seq<int>, s: int, o: int, q: int)
    requires 0 <= s <= 10, 0 <= o < pw2(10 - s), q >= 0, redp(x),
    ensures dft(w, x, s, o, q) == fsum(|k: int| fmul(x[k * pw2(10 - s) + o], fpow(w, (pw2(10 - s) * q * k) as nat)), pw2(s)),
    decreases s,
{
    let p = pw2(10 - s);
    lemma_pw2(s); lemma_pw2(10 - s);
    let g = |k: int| fmul(x[k * p + o], fpow(w, (p * q * k) as nat));
    lemma_fsum_ext(|k: int| fmul(x[k * pw2(10 - s) + o], fpow(w, (pw2(10 - s) * q * k) as nat)), g, pw2(s));
    if s == 0 {
        assert(fsum(g, 1) == fadd(fsum(g, 0), g(0)));
        assert(p * q * 0 == 0);
        lemma_fone(x[o]);
        assert(0 * p + o == o);
    } else {
        lemma_dft_sum(w, x, s - 1, o, q);
        lemma_dft_sum(w, x, s - 1, o + p, q);
        let n = pw2(s - 1);
        let p2 = pw2(10 - (s - 1));
        assert(p2 == 2 * p);
        lemma_fsum_split(g, n);
        let (e, od) = (|i: int| g(2 * i), |i: int| g(2 * i + 1));
        let tw = fpow(w, (p * q) as nat);
        let ge = |k: int| fmul(x[k * p2 + o], fpow(w, (p2 * q * k) as nat));
        let go = |k: int| fmul(x[k * p2 + (o + p)], fpow(w, (p2 * q * k) as nat));
        lemma_fsum_ext(|k: int| fmul(x[k * pw2(10 - (s - 1)) + o], fpow(w, (pw2(10 - (s - 1)) * q * k) as nat)), ge, n);
        lemma_fsum_ext(|k: int| fmul(x[k * pw2(10 - (s - 1)) + (o + p)], fpow(w, (pw2(10 - (s - 1)) * q * k) as nat)), go, n);
        lemma_fsum_ext(|i: int| g(2 * i), e, n);
        lemma_fsum_ext(|i: int| g(2 * i + 1), od, n);
        assert forall|i: int| 0 <= i < n implies #[trigger] e(i) == ge(i) by {
            assert((2 * i) * p == i * p2) by(nonlinear_arith) requires p2 == 2 * p;
            assert(p * q * (2 * i) == p2 * q * i) by(nonlinear_arith) requires p2 == 2 * p;
        }
        lemma_fsum_ext(e, ge, n);
        let tg = |i: int| fmul(tw, go(i));
        assert forall|i: int| 0 <= i < n implies #[trigger] od(i) == tg(i) by {
            assert((2 * i + 1) * p + o == i * p2 + (o + p)) by(nonlinear_arith) requires p2 == 2 * p;
            assert(p * q * (2 * i + 1) == p * q + p2 * q * i) by(nonlinear_arith) requires p2 == 2 * p;
            assert(p * q >= 0) by(nonlinear_arith) requires p > 0, q >= 0;
            assert(p2 * q * i >= 0) by(nonlinear_arith) requires p2 > 0, q >= 0, i >= 0;
            lemma_fpow_add(w, (p * q) as nat, (p2 * q * i) as nat);
            let (a, b) = (x[i * p2 + (o + p)], fpow(w, (p2 * q * i) as nat));
            lemma_fmul_assoc(a, tw, b); lemma_fmul_comm(a, tw); lemma_fmul_assoc(tw, a, b);
        }
        lemma_fsum_ext(od, tg, n);
        lemma_fsum_scale(tw, go, n);
        lemma_fsum_ext(|i: int| fmul(tw, go(i)), tg, n);
    }
}
/// one butterfly
pub proof fn lemma_butterfly(w: int, x: Seq<int>, i: int, j: int)
    requires 0 <= i < 10, 0 <= j < 512, redp(x), fpow(w, 512) == 12288, red(w),
    ensures ({ let (s, q, b) = (9 - i, j / pw2(i), j % pw2(i));
        let c = dft(w, x, s, rev(i + 1, (2 * j) % pw2(i + 1)), (2 * j) / pw2(i + 1));
        let d = fmul(dft(w, x, s, rev(i + 1, (2 * j + 1) % pw2(i + 1)), (2 * j + 1) / pw2(i + 1)), fpow(w, (q * pw2(i)) as nat));
        &&& dft(w, x, s + 1, rev(i, b), q) == fadd(c, d)
        &&& (j + 512) % pw2(i) == b && dft(w, x, s + 1, rev(i, (j + 512) % pw2(i)), (j + 512) / pw2(i)) == fsub(c, d) }),
{
    let (s, p) = (9 - i, pw2(i));
    lemma_pw2(i); lemma_pw2(i + 1);
    assert(pw2(i + 1) == 2 * p);
    let (q, b) = (j / p, j % p);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(j, p);
    assert(0 <= b < p) by { vstd::arithmetic::div_mod::lemma_mod_bound(j, p); }
    assert(q >= 0) by { vstd::arithmetic::div_mod::lemma_div_pos_is_pos(j, p); }
    assert((2 * j) / (2 * p) == q && (2 * j) % (2 * p) == 2 * b) by { assert(2 * j == q * (2 * p) + 2 * b) by(nonlinear_arith) requires j == p * q + b; vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(2 * j, 2 * p, q, 2 * b); }
    assert((2 * j + 1) / (2 * p) == q && (2 * j + 1) % (2 * p) == 2 * b + 1) by { assert(2 * j + 1 == q * (2 * p) + 2 * b + 1) by(nonlinear_arith) requires j == p * q + b; vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(2 * j + 1, 2 * p, q, 2 * b + 1); }
    assert(rev(i + 1, 2 * b) == rev(i, b)) by { assert((2 * b) % 2 == 0 && (2 * b) / 2 == b); assert(0 * pw2(i) == 0); }
    assert(rev(i + 1, 2 * b + 1) == p + rev(i, b)) by { assert((2 * b + 1) % 2 == 1 && (2 * b + 1) / 2 == b); assert(1 * pw2(i) == p); }
    let m = pw2(9 - i);
    assert(pw2(10 - i) == 2 * m);
    lemma_pw2(9 - i);
    assert(p * m == 512) by(nonlinear_arith) requires p * pw2(10 - i) == 1024, pw2(10 - i) == 2 * m;
    assert(j + 512 == (q + m) * p + b) by(nonlinear_arith) requires j == p * q + b, p * m == 512;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(j + 512, p, q + m, b);
    lemma_fpow_add(w, 512, 512);
    assert(fmul(12288, 12288) == 1) by { reveal(fmul); }
    lemma_dft_period(w, x, s, rev(i, b), q, 1);
    lemma_dft_period(w, x, s, rev(i, b) + p, q, 1);
    assert(1 * pw2(s) == m);
    assert(p * q == q * p) by(nonlinear_arith);
    assert(p * q >= 0) by(nonlinear_arith) requires p > 0, q >= 0;
    assert(p * (q + m) == p * q + 512) by(nonlinear_arith) requires p * m == 512;
    let c = dft(w, x, s, rev(i, b), q);
    let d0 = dft(w, x, s, rev(i, b) + p, q);
    let t = fpow(w, (p * q) as nat);
    assert(10 - (s + 1) == i);
    lemma_fmul_comm(d0, t);
    lemma_fpow_add(w, (p * q) as nat, 512);
    lemma_fmul_comm(t, 12288);
    lemma_fmul_assoc(12288, t, d0);
    lemma_fsub(c, fmul(t, d0));
}
/// what the buffer holds after s stages
#[verifier::opaque]
pub open spec fn stage(w: int, x: Seq<int>, s: int) -> Seq<int> { Seq::new(1024, |p: int| dft(w, x, s, rev(10 - s, p % pw2(10 - s)), p / pw2(10 - s))) }
pub proof fn lemma_stage_len(w: int, x: Seq<int>, s: int) ensures stage(w, x, s).len() == 1024 { reveal(stage); }
/// j with its i low bits cleared
#[verifier::opaque]
pub open spec fn low0(j: int, i: int) -> int { (j / pw2(i)) * pw2(i) }
pub proof fn lemma_stage_step(w: int, x: Seq<int>, i: int, j: int)
    requires 0 <= i < 10, 0 <= j < 512, redp(x), fpow(w, 512) == 12288, red(w),
    ensures ({ let (a, b) = (stage(w, x, 9 - i), stage(w, x, 10 - i)); let d = fmul(a[2 * j + 1], fpow(w, low0(j, i) as nat));
        0 <= low0(j, i) && b[j] == fadd(a[2 * j], d) && b[j + 512] == fsub(a[2 * j], d) }),
{
    reveal(stage); reveal(low0);
    lemma_butterfly(w, x, i, j);
    lemma_pw2(i);
    assert((j / pw2(i)) * pw2(i) >= 0) by(nonlinear_arith) requires j / pw2(i) >= 0, pw2(i) > 0;
}
pub proof fn lemma_stage_0(w: int, x: Seq<int>, p: int)
    requires 0 <= p < 1024,
    ensures stage(w, x, 0)[p] == x[rev(10, p)],
{ reveal(stage); lemma_pw2(10); }
pub proof fn lemma_omega()
    ensures fpow(gam(2), 512) == 12288, fpow(gam(2046), 512) == 12288, red(gam(2)), red(gam(2046)),
{
    lemma_gam_vals();
    lemma_gam_pow(2, 512); lemma_gam_pow(2046, 512);
    lemma_gam_period(1024, 511);
    lemma_fpow_red(7, 2); lemma_fpow_red(7, 2046);
}
pub open spec fn twisted(f: Seq<int>) -> Seq<int> { Seq::new(1024, |i: int| fmul(gam(i), f[i])) }
pub proof fn lemma_twisted(f: Seq<int>) ensures redp(twisted(f)) { assert forall|i: int| 0 <= i < 1024 implies red(#[trigger] twisted(f)[i]) by { lemma_fred(gam(i), f[i]); } }
pub proof fn lemma_ntt_done(f: Seq<int>)
    requires redp(f),
    ensures stage(gam(2), twisted(f), 10) == s_ntt(f),
{
    reveal(stage);
    let (w, x) = (gam(2), twisted(f));
    lemma_twisted(f);
    lemma_pw2(10);
    assert forall|q: int| 0 <= q < 1024 implies #[trigger] stage(w, x, 10)[q] == s_ntt(f)[q] by {
        lemma_dft_sum(w, x, 10, 0, q);
        let a = |k: int| fmul(x[k * pw2(0) + 0], fpow(w, (pw2(0) * q * k) as nat));
        let b = |i: int| fmul(f[i], fpow(gam(2 * q + 1), i as nat));
        lemma_fsum_ext(|k: int| fmul(x[k * pw2(10 - 10) + 0], fpow(w, (pw2(10 - 10) * q * k) as nat)), a, 1024);
        assert forall|k: int| 0 <= k < 1024 implies #[trigger] a(k) == b(k) by {
            assert(pw2(0) * q * k == q * k);
            assert(q * k >= 0) by(nonlinear_arith) requires q >= 0, k >= 0;
            lemma_gam_pow(2, q * k); lemma_gam_pow(2 * q + 1, k);
            lemma_gam_add(k, 2 * (q * k));
            assert((2 * q + 1) * k == k + 2 * (q * k)) by(nonlinear_arith);
            lemma_fmul_comm(gam(k), f[k]);
            lemma_fmul_assoc(f[k], gam(k), gam(2 * (q * k)));
            assert(x[k * pw2(0) + 0] == x[k]);
        }
        lemma_fsum_ext(a, b, 1024);
        lemma_fsum_ext(|i: int| fmul(f[i], fpow(gam(2 * q + 1), i as nat)), b, 1024);
        assert(rev(0, q % 1) == 0); assert(q / 1 == q);
    }
    assert(stage(w, x, 10) =~= s_ntt(f));
}
pub proof fn lemma_intt_done(t: Seq<int>, q: int)
    requires redp(t), 0 <= q < 1024,
    ensures stage(gam(2046), t, 10)[q] == feval(t, gam(2 * (1024 - q))),
{
    reveal(stage);
    let w = gam(2046);
    lemma_pw2(10);
    lemma_dft_sum(w, t, 10, 0, q);
    let a = |k: int| fmul(t[k * pw2(0) + 0], fpow(w, (pw2(0) * q * k) as nat));
    let z = gam(2 * (1024 - q));
    let b = |i: int| fmul(t[i], fpow(z, i as nat));
    lemma_fsum_ext(|k: int| fmul(t[k * pw2(10 - 10) + 0], fpow(w, (pw2(10 - 10) * q * k) as nat)), a, 1024);
    assert forall|k: int| 0 <= k < 1024 implies #[trigger] a(k) == b(k) by {
        assert(pw2(0) * q * k == q * k);
        assert(q * k >= 0) by(nonlinear_arith) requires q >= 0, k >= 0;
        lemma_gam_pow(2046, q * k); lemma_gam_pow(2 * (1024 - q), k);
        let (u, v) = (2046 * (q * k), 2 * (1024 - q) * k);
        assert(u + 2048 * k == v + 2048 * (q * k)) by(nonlinear_arith) requires u == 2046 * (q * k), v == 2 * (1024 - q) * k;
        assert(v >= 0) by(nonlinear_arith) requires v == 2 * (1024 - q) * k, k >= 0, q < 1024;
        lemma_gam_period(u, k); lemma_gam_period(v, q * k);
        assert(t[k * pw2(0) + 0] == t[k]);
    }
    lemma_fsum_ext(a, b, 1024);
    lemma_fsum_ext(|i: int| fmul(t[i], fpow(z, i as nat)), b, 1024);
    assert(rev(0, q % 1) == 0); assert(q / 1 == q);
}
/// twiddle factors of the inverse transform
pub proof fn lemma_twiddle(r: int)
    requires 0 <= r < 1024,
    ensures gam(2 * r) == fpow(gam(2), r as nat), gam(2048 - 2 * r) == fpow(gam(2046), r as nat),
{
    lemma_gam_pow(2, r); lemma_gam_pow(2046, r);
    lemma_gam_period(2046 * r, 1);
    lemma_gam_period(2048 - 2 * r, r);
    assert(2046 * r + 2048 == 2048 - 2 * r + 2048 * r);
}
//@end

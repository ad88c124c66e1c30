use crate::fw::*;
use crate::t_sponge::{len, placed};
use iota_mam::ntru;
use iota_mam::poly::Poly;
use iota_mam::prng::PRNG;
use iota_mam::spongos::Spongos;
use iota_mam::trits::*;

pub const Q: i64 = 12289;
pub const N: usize = 1024;

pub fn tests() -> Vec<Test> {
    vec![
        Test { prop: "C16", name: "c16_coeffs", quick: 3000, thorough: 60000, f: c16_coeffs },
        Test { prop: "C16", name: "c16_pairs", quick: 1024, thorough: 12289, f: c16_pairs },
        Test { prop: "C16", name: "c16_ring", quick: 600, thorough: 12000, f: c16_ring },
        Test { prop: "C16", name: "c16_trits", quick: 3000, thorough: 60000, f: c16_trits },
        Test { prop: "C17", name: "c17_kem", quick: 1200, thorough: 24000, f: c17_kem },
        Test { prop: "C17", name: "c17_reject", quick: 3000, thorough: 60000, f: c17_reject },
        Test { prop: "C17", name: "c17_pk", quick: 3000, thorough: 60000, f: c17_pk },
    ]
}

pub fn cent(v: i64) -> i64 { let r = v.rem_euclid(Q); if r > Q / 2 { r - Q } else { r } }
fn enc(v: &[i64]) -> Vec<u8> { v.iter().flat_map(|c| bt(9, *c)).collect() }
/// polynomial with the given centred coefficients
fn poly(v: &[i64]) -> Poly {
    let mut p = Poly::new();
    assert!(p.from_trits(mk(&enc(v)).slice()));
    p
}
/// internal coefficients, all of which must be reduced
fn raw(p: &Poly, what: &str) -> Result<Vec<i64>, String> {
    let s = format!("{}", p);
    let v: Vec<i64> = s.split_whitespace().map(|x| x.parse().unwrap_or(-1)).collect();
    ckeq!(v.len(), N, "{}: coefficients", what);
    for (i, c) in v.iter().enumerate() { ck!(0 <= *c && *c < Q, "{}: coefficient {} is {}, not reduced", what, i, c); }
    Ok(v)
}
/// centred values
fn vals(p: &Poly, what: &str) -> Result<Vec<i64>, String> {
    let r = raw(p, what)?;
    let mut t = Trits::zero(9 * N);
    p.to_trits(t.slice_mut());
    let v: Vec<i64> = rdt(&t).chunks(9).map(ival).collect();
    // one internal representative per value
    let z = raw(&poly(&v), what)?;
    for i in 0..N { ck!(r[i] == z[i], "{}: coefficient {} (value {}) is represented by {}, not {}", what, i, v[i], r[i], z[i]); }
    Ok(v)
}
fn some_poly(r: &mut Rng) -> Vec<i64> {
    match r.below(8) {
        0 => { let i = r.below(N); let c = r.range(-6144, 6144); (0..N).map(|k| if k == i { c } else { 0 }).collect() }
        1 => (0..N).map(|_| if r.coin() { 6144 } else { -6144 }).collect(),
        2 => (0..N).map(|_| r.range(-1, 1)).collect(),
        3 => vec![r.range(-6144, 6144); N],
        4 => { let mut v = vec![0; N]; for _ in 0..4 { v[r.below(N)] = r.range(-6144, 6144); } v }
        _ => (0..N).map(|_| r.range(-6144, 6144)).collect(),
    }
}
pub fn ring_mul(a: &[i64], b: &[i64]) -> Vec<i64> {
    let mut c = vec![0i64; 2 * N];
    for i in 0..N { if a[i] != 0 { for j in 0..N { c[i + j] += a[i] * b[j]; } } }
    (0..N).map(|i| cent(c[i] - c[i + N])).collect()
}
fn pw(mut b: i64, mut e: i64) -> i64 { let mut r = 1; b = b.rem_euclid(Q); while e > 0 { if e & 1 == 1 { r = r * b % Q; } b = b * b % Q; e >>= 1; } r }
/// values at the odd powers of 7, a 2048-th root of unity
fn evals(a: &[i64]) -> Vec<i64> {
    let mut g = vec![1i64; 2 * N];
    for i in 1..2 * N { g[i] = g[i - 1] * 7 % Q; }
    (0..N).map(|j| cent((0..N).map(|i| a[i] * g[(2 * j + 1) * i % (2 * N)]).sum())).collect()
}
fn invertible(a: &[i64]) -> bool { evals(a).iter().all(|v| *v != 0) }

fn c16_coeffs(r: &mut Rng, _: u64) -> R {
    let (a, b) = (some_poly(r), some_poly(r));
    let z = |f: fn(i64, i64) -> i64| -> Vec<i64> { a.iter().zip(&b).map(|(x, y)| cent(f(*x, *y))).collect() };
    let mut p = poly(&a);
    ckeq!(vals(&p, "from_trits")?, a, "from_trits");
    p.add(&poly(&b));
    ckeq!(vals(&p, "add")?, z(|x, y| x + y), "add");
    let mut p = poly(&a);
    p.sub(&poly(&b));
    ckeq!(vals(&p, "sub")?, z(|x, y| x - y), "sub");
    let mut p = poly(&a);
    p.conv(&poly(&b));
    ckeq!(vals(&p, "conv")?, z(|x, y| x * y), "pointwise product");
    let mut p = poly(&a);
    p.small_mul3();
    ckeq!(vals(&p, "small_mul3")?, a.iter().map(|x| cent(3 * x)).collect::<Vec<_>>(), "small_mul3");
    p = poly(&a);
    p.small3_add1();
    let mut w = a.clone();
    w[0] = cent(w[0] + 1);
    ckeq!(vals(&p, "small3_add1")?, w, "small3_add1");
    let s: Vec<u8> = r.trits(N);
    let (t, d, _) = placed(r, &s);
    let sl = t.slice().drop(d).take(N);
    let mut p = poly(&a);
    p.add_small(sl);
    ckeq!(vals(&p, "add_small")?, (0..N).map(|i| cent(a[i] + tv(s[i]))).collect::<Vec<_>>(), "add_small");
    let mut p = poly(&a);
    p.sub_small(sl);
    ckeq!(vals(&p, "sub_small")?, (0..N).map(|i| cent(a[i] - tv(s[i]))).collect::<Vec<_>>(), "sub_small");
    p.small_from_trits(sl);
    ckeq!(vals(&p, "small_from_trits")?, s.iter().map(|t| tv(*t)).collect::<Vec<_>>(), "small_from_trits");
    ckeq!(poly(&a).has_inv(), a.iter().all(|x| *x != 0), "has_inv");
    let nz: Vec<i64> = a.iter().map(|x| if *x == 0 { 1 } else { *x }).collect();
    let mut p = poly(&nz);
    ck!(p.has_inv(), "has_inv of nonzero coefficients");
    p.inv();
    ckeq!(vals(&p, "inv")?, nz.iter().map(|x| cent(pw(*x, Q - 2))).collect::<Vec<_>>(), "inverses");
    // equality is equality of all coefficients
    let i = r.below(N);
    let mut c = a.clone();
    c[i] = cent(c[i] + 1);
    ck!(poly(&a) == poly(&a) && poly(&a) != poly(&c), "equality of polynomials differing in coefficient {}", i);
    let mut m = poly(&a);
    m.round_small();
    ckeq!(vals(&m, "round_small")?, a.iter().map(|x| cent3(*x)).collect::<Vec<_>>(), "round_small");
    Ok(())
}
fn cent3(v: i64) -> i64 { let r = v.rem_euclid(3); if r == 2 { -1 } else { r } }

/// one coefficient with 12 x 1024 consecutive others: all pairs over the thorough run
fn c16_pairs(r: &mut Rng, i: u64) -> R {
    let a = if i < 8 { [0, 1, -1, 6144, -6144, 3, 7, 4091][i as usize] } else { i as i64 - 6144 };
    let pa = poly(&vec![a; N]);
    let blocks: Vec<usize> = if i % 7 == 0 { (0..13).collect() } else { vec![r.below(13)] };
    for k in blocks {
        let b: Vec<i64> = (0..N).map(|j| ((k * N + j) as i64 - 6144).min(6144)).collect();
        let pb = poly(&b);
        let mut p = pa;
        p.conv(&pb);
        ckeq!(vals(&p, "conv")?, b.iter().map(|x| cent(a * x)).collect::<Vec<_>>(), "{} times all of block {}", a, k);
        let mut p = pa;
        p.add(&pb);
        ckeq!(vals(&p, "add")?, b.iter().map(|x| cent(a + x)).collect::<Vec<_>>(), "{} plus all of block {}", a, k);
        let mut p = pa;
        p.sub(&pb);
        ckeq!(vals(&p, "sub")?, b.iter().map(|x| cent(a - x)).collect::<Vec<_>>(), "{} minus all of block {}", a, k);
    }
    if i < 13 {
        let b: Vec<i64> = (0..N).map(|j| ((i as usize * N + j) as i64 - 6144).min(6144)).map(|x| if x == 0 { 1 } else { x }).collect();
        let mut p = poly(&b);
        p.inv();
        ckeq!(vals(&p, "inv")?, b.iter().map(|x| cent(pw(*x, Q - 2))).collect::<Vec<_>>(), "inverses of block {}", i);
    }
    Ok(())
}

fn c16_ring(r: &mut Rng, i: u64) -> R {
    let a = if i < 40 { let k = [0, 1, 2, 511, 512, 513, 1022, 1023, 255, 768][i as usize % 10]; let mut v = vec![0; N]; v[k] = [1, -1, 6144, -6144][i as usize / 10]; v } else { some_poly(r) };
    let b = some_poly(r);
    let mut p = poly(&a);
    p.ntt();
    let f = p;
    ckeq!(vals(&p, "ntt")?, evals(&a), "transform");
    p.intt();
    ckeq!(vals(&p, "intt")?, a, "inverse transform of the transform");
    let mut q = poly(&a);
    q.intt();
    vals(&q, "intt")?;
    q.ntt();
    ckeq!(vals(&q, "ntt")?, a, "transform of the inverse transform");
    let mut p = f;
    let mut g = poly(&b);
    g.ntt();
    p.conv(&g);
    p.intt();
    ckeq!(vals(&p, "product")?, ring_mul(&a, &b), "ring product");
    Ok(())
}

fn c16_trits(r: &mut Rng, _: u64) -> R {
    let mut v = some_poly(r);
    let bad = r.coin();
    if bad {
        let k = match r.below(4) { 0 => 0, 1 => N - 1, _ => r.below(N) };
        v[k] = match r.below(4) { 0 => 6145, 1 => -6145, 2 => 9841, _ => if r.coin() { -9841 } else { r.range(6145, 9841) } };
    }
    let e = enc(&v);
    let (t, d, _) = placed(r, &e);
    let mut p = Poly::new();
    let ok = p.from_trits(t.slice().drop(d).take(9 * N));
    ckeq!(ok, !bad, "from_trits with {}", if bad { "a coefficient out of range" } else { "all coefficients in range" });
    if bad { return Ok(()); }
    ckeq!(vals(&p, "from_trits")?, v, "from_trits");
    let (a, b) = (r.below(20), r.below(20));
    let bg = r.trits(a + 9 * N + b);
    let mut o = mk(&bg);
    p.to_trits(o.slice_mut().drop(a).take(9 * N));
    let g = rdt(&o);
    ck!(g[..a] == bg[..a] && g[a + 9 * N..] == bg[a + 9 * N..], "to_trits changed trits outside its output");
    ck!(g[a..a + 9 * N] == e[..], "to_trits is not the encoding that was read");
    let bg = r.trits(a + N + b);
    let mut o = mk(&bg);
    p.round_to_trits(o.slice_mut().drop(a).take(N));
    let g = rdt(&o);
    ck!(g[..a] == bg[..a] && g[a + N..] == bg[a + N..], "round_to_trits changed trits outside its output");
    ckeq!(g[a..a + N].to_vec(), v.iter().map(|x| x.rem_euclid(3) as u8).collect::<Vec<_>>(), "round_to_trits");
    Ok(())
}

fn sponges(r: &mut Rng) -> (Spongos, Spongos) {
    let (a, b, _) = crate::t_pb3::states(r);
    (a, b)
}
fn same(a: &Spongos, b: &Spongos, what: &str) -> R {
    let (mut f, mut g) = (a.fork(), b.fork());
    ckeq!(show(&rdt(&f.squeeze_trits(486))), show(&rdt(&g.squeeze_trits(486))), "{}: states", what);
    let (mut f, mut g) = (a.fork(), b.fork());
    f.absorb_trits(&mk(&[1]));
    g.absorb_trits(&mk(&[1]));
    f.commit();
    g.commit();
    ckeq!(show(&rdt(&f.squeeze_trits(486))), show(&rdt(&g.squeeze_trits(486))), "{}: states after a block", what);
    Ok(())
}
fn keypair(r: &mut Rng) -> (ntru::PrivateKey, ntru::PublicKey, Vec<u8>, Vec<u8>) {
    let key = r.utrits(243);
    let n = r.below(120);
    let nonce = r.utrits(n);
    let (sk, pk) = ntru::gen(&PRNG::init_trits(&mk(&key)), mk(&nonce).slice());
    (sk, pk, key, nonce)
}

fn c17_kem(r: &mut Rng, i: u64) -> R {
    let (sk, pk, key, nonce) = keypair(r);
    let h: Vec<i64> = rd(pk.trits()).chunks(9).map(ival).collect();
    // the key pair: h (1+3f) = 3g for the first suitable f, g drawn with an incremented counter
    let mut c = vec![0u8; 81];
    let (mut f1, mut g3);
    loop {
        let mut seed = key.clone();
        seed.extend(&nonce);
        seed.extend(&c);
        let x = crate::t_mss::hash(&seed, 2048);
        f1 = x[..N].iter().map(|t| 3 * tv(*t)).collect::<Vec<_>>();
        f1[0] += 1;
        g3 = x[N..].iter().map(|t| 3 * tv(*t)).collect::<Vec<_>>();
        if invertible(&f1) && invertible(&g3) { break; }
        let mut k = 0;
        while k < 81 && c[k] == 2 { c[k] = 0; k += 1; }
        ck!(k < 81, "no key pair");
        c[k] += 1;
    }
    ck!(ring_mul(&h, &f1) == g3.iter().map(|v| cent(*v)).collect::<Vec<_>>(), "public key times 1+3f is not 3g");
    ckeq!(rd(pk.id()), rd(pk.trits())[..81].to_vec(), "public key id");
    let pk = match i % 3 {
        0 => pk,
        1 => match ntru::PublicKey::from_slice(pk.trits()) { Some(k) => k, None => return Err("own public key refused".into()) },
        _ => match ntru::PublicKey::from_trits(pk.trits().clone_trits()) { Some(k) => k, None => return Err("own public key refused".into()) },
    };
    for _ in 0..2 {
        let (mut a, mut b) = sponges(r);
        let k = r.trits(243);
        let nn = len(r) / 3;
        let n = r.trits(nn);
        let pkey = r.utrits(243);
        let p = PRNG::init_trits(&mk(&pkey));
        let own = r.one_in(4);
        let start = b.fork();
        let (d, e) = (r.below(20), r.below(20));
        let bg = r.trits(d + 9216 + e);
        let mut t = mk(&bg);
        let y = t.slice_mut().drop(d).take(9216);
        let (kt, kd, _) = placed(r, &k);
        let ks = kt.slice().drop(kd).take(243);
        if own { pk.encr(&p, mk(&n).slice(), ks, y); a = Spongos::init(); b = Spongos::init(); } else { pk.encr_with_s(&mut a, &p, mk(&n).slice(), ks, y); }
        let g = rdt(&t);
        ck!(g[..d] == bg[..d] && g[d + 9216..] == bg[d + 9216..], "encapsulation changed trits outside its output");
        // the capsule is r h + m with m the masked key and tag over r h
        let mut seed = pkey.clone();
        seed.extend(rd(pk.trits()));
        seed.extend(&k);
        seed.extend(&n);
        let rnd: Vec<i64> = crate::t_mss::hash(&seed, N).iter().map(|t| tv(*t)).collect();
        let rh = ring_mul(&h, &rnd);
        let mut s = if own { Spongos::init() } else { start };
        s.absorb_trits(&mk(&enc(&rh)));
        s.commit();
        let mut m = rdt(&s.encr_trits(&mk(&k)));
        m.extend(rdt(&s.squeeze_trits(N - 243)));
        let want: Vec<i64> = (0..N).map(|j| cent(rh[j] + tv(m[j]))).collect();
        ck!(g[d..d + 9216] == enc(&want)[..], "capsule differs from r h + m");
        let bg = r.trits(d + 243 + e);
        let mut o = mk(&bg);
        let ok = { let ko = o.slice_mut().drop(d).take(243); let ys = t.slice().drop(d).take(9216); if own { sk.decr(ys, ko) } else { sk.decr_with_s(&mut b, ys, ko) } };
        ck!(ok, "own capsule not decapsulated");
        let g = rdt(&o);
        ck!(g[..d] == bg[..d] && g[d + 243..] == bg[d + 243..], "decapsulation changed trits outside its output");
        ckeq!(show(&g[d..d + 243]), show(&k), "decapsulated key");
        if !own { same(&a, &b, "after decapsulation")?; same(&b, &s, "reference after decapsulation")?; }
    }
    Ok(())
}

fn c17_reject(r: &mut Rng, _: u64) -> R {
    let (sk, pk, _, _) = keypair(r);
    let (mut a, mut b) = sponges(r);
    let k = r.trits(243);
    let p = PRNG::init_trits(&mk(&r.utrits(243)));
    let mut t = Trits::zero(9216);
    pk.encr_with_s(&mut a, &p, mk(&[1, 2]).slice(), mk(&k).slice(), t.slice_mut());
    let mut y: Vec<i64> = rdt(&t).chunks(9).map(ival).collect();
    let j = match r.below(4) { 0 => 0, 1 => N - 1, 2 => 243 + r.below(3), _ => r.below(N) };
    let mut sk = sk;
    let mut raw = rdt(&t);
    let what = match r.below(7) {
        // the tag trits of m start at coefficient 243
        0 => { y[j] = cent(y[j] + 1 - 2 * r.below(2) as i64); raw = enc(&y); format!("capsule with coefficient {} changed by one", j) }
        1 => { y[j] = cent(y[j] + r.range(1, Q - 1)); raw = enc(&y); format!("capsule with coefficient {} changed", j) }
        2 => { let z = if r.coin() { r.range(6145, 9841) } else { -r.range(6145, 9841) }; y[j] = z; raw = enc(&y); format!("capsule with coefficient {} = {} out of range", j, z) }
        3 => {
            // same residue, not reduced
            let (mut jj, mut z) = (j, 0);
            for _ in 0..N { z = if y[jj] < 0 { y[jj] + Q } else { y[jj] - Q }; if z.abs() <= 9841 { break; } jj = (jj + 1) % N; }
            if z.abs() > 9841 { return Ok(()); }
            y[jj] = z;
            raw = enc(&y);
            format!("capsule with coefficient {} not reduced", jj)
        }
        4 => { let x = r.below(3) as u8; b.absorb_trits(&mk(&[x])); "capsule of another transcript".to_string() }
        5 => { sk = keypair(r).0; "capsule for another key".to_string() }
        _ => { raw = r.utrits(9216); "random capsule".to_string() }
    };
    let mut o = Trits::zero(243);
    ck!(!sk.decr_with_s(&mut b, mk(&raw).slice(), o.slice_mut()), "{} accepted", what);
    Ok(())
}

fn c17_pk(r: &mut Rng, i: u64) -> R {
    let mut v = some_poly(r);
    let mut good = true;
    match r.below(5) {
        0 => { let k = match r.below(3) { 0 => 0, 1 => N - 1, _ => r.below(N) }; v[k] = match r.below(3) { 0 => 6145, 1 => -6145, _ => if r.coin() { r.range(6145, 9841) } else { -r.range(6145, 9841) } }; good = false; }
        1 => {
            // a root at some odd power of 7: subtract the value there from the constant
            let j = r.below(N);
            let e = evals(&v)[j];
            v[0] = cent(v[0] - e);
        }
        _ => {}
    }
    if good { good = invertible(&v); }
    let e = enc(&v);
    let (t, d, _) = placed(r, &e);
    let s = t.slice().drop(d).take(9216);
    let k = if i % 2 == 0 { ntru::PublicKey::from_slice(s) } else { ntru::PublicKey::from_trits(mk(&e)) };
    ckeq!(k.is_some(), good, "public key accepted (range and invertibility)");
    if let Some(k) = k {
        ck!(rd(k.trits()) == e, "trits of a public key differ from those it was made of");
        ckeq!(rd(k.id()), e[..81].to_vec(), "public key id");
        // the precomputed form belongs to these trits: encapsulate with it
        let p = PRNG::init_trits(&mk(&r.utrits(243)));
        let k2 = ntru::PublicKey::from_trits(mk(&e)).unwrap();
        let (mut y1, mut y2) = (Trits::zero(9216), Trits::zero(9216));
        k.encr(&p, mk(&[]).slice(), mk(&[1; 243]).slice(), y1.slice_mut());
        k2.encr(&p, mk(&[]).slice(), mk(&[1; 243]).slice(), y2.slice_mut());
        ck!(y1 == y2, "from_slice and from_trits give different keys");
    }
    // the same trits read into an object that already holds another key
    use iota_mam::pb3::{Absorb, Mask};
    let mut k = crate::t_msg::npk(r.below(5));
    let masked = r.coin();
    let mut b = mk(&e);
    if masked {
        let mut c = Trits::zero(9216);
        Spongos::init().encr(b.slice(), c.slice_mut());
        b = c;
    }
    let ok = if masked { k.unwrap_mask(&mut Spongos::init(), &mut b.slice()).is_ok() } else { k.unwrap_absorb(&mut Spongos::init(), &mut b.slice()).is_ok() };
    ckeq!(ok, good, "public key unwrapped over another one accepted");
    if ok {
        let p = PRNG::init_trits(&mk(&r.utrits(243)));
        let k2 = ntru::PublicKey::from_trits(mk(&e)).unwrap();
        let (mut y1, mut y2) = (Trits::zero(9216), Trits::zero(9216));
        k.encr(&p, mk(&[]).slice(), mk(&[1; 243]).slice(), y1.slice_mut());
        k2.encr(&p, mk(&[]).slice(), mk(&[1; 243]).slice(), y2.slice_mut());
        ck!(rd(k.trits()) == e && y1 == y2, "a public key unwrapped over another one encrypts differently");
    }
    let n = match r.below(3) { 0 => 9215, 1 => 9217, _ => r.below(9000) };
    let x = mk(&vec![0; n]);
    ck!(ntru::PublicKey::from_slice(x.slice()).is_none() && ntru::PublicKey::from_trits(x).is_none(), "public key of {} trits accepted", n);
    Ok(())
}

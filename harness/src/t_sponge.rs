use crate::fw::*;
use crate::oracle::{self, Sp};
use iota_mam::prng::PRNG;
use iota_mam::spongos::{self, Spongos};
use iota_mam::trits::*;
use iota_mam::troika::{Troika, TroikaSponge};

pub fn tests() -> Vec<Test> {
    vec![
        Test { prop: "C01", name: "c01_pair", quick: 1500, thorough: 30000, f: c01_pair },
        Test { prop: "C02", name: "c02_ops", quick: 1500, thorough: 30000, f: c02_ops },
        Test { prop: "C02", name: "c02_inner", quick: 300, thorough: 6000, f: c02_inner },
        Test { prop: "C18", name: "c18_cells", quick: 300, thorough: 3000, f: c18_cells },
        Test { prop: "C18", name: "c18_perm", quick: 1000, thorough: 20000, f: c18_perm },
        Test { prop: "C19", name: "c19_chunks", quick: 1500, thorough: 30000, f: c19_chunks },
        Test { prop: "C19", name: "c19_padding", quick: 1, thorough: 1, f: c19_padding },
        Test { prop: "C20", name: "c20_prng", quick: 1000, thorough: 20000, f: c20_prng },
        Test { prop: "C20", name: "c20_hash", quick: 1000, thorough: 20000, f: c20_hash },
    ]
}

/// interesting lengths around the block sizes
pub fn len(r: &mut Rng) -> usize {
    match r.below(8) {
        0 => 0,
        1 => 243 * r.below(5),
        2 => (486 * r.below(4) + r.below(5)).saturating_sub(2),
        3 => 1 + r.below(4),
        4 => r.below(1500),
        _ => r.below(500),
    }
}
/// random cut points of 0..n
pub fn cuts(r: &mut Rng, n: usize) -> Vec<(usize, usize)> {
    let mut v = vec![0, n];
    for _ in 0..r.below(5) { v.push(r.below(n + 1)); }
    if n > 486 && r.coin() { v.push(486); }
    v.sort();
    v.windows(2).map(|w| (w[0], w[1])).collect()
}
/// container with content placed at a random offset; returns (buffer, offset)
pub fn placed(r: &mut Rng, v: &[u8]) -> (Trits, usize, Vec<u8>) {
    let d = r.below(30);
    let e = r.below(30);
    let mut b = r.trits(d + v.len() + e);
    b[d..d + v.len()].copy_from_slice(v);
    (mk(&b), d, b)
}
/// output into a window of a random buffer, checking that nothing else changes
fn outw(r: &mut Rng, n: usize, what: &str, f: impl FnOnce(TritSliceMut)) -> Result<Vec<u8>, String> {
    let (d, e) = (r.below(30), r.below(30));
    let b = r.trits(d + n + e);
    let mut t = mk(&b);
    f(t.slice_mut().drop(d).take(n));
    let a = rdt(&t);
    ck!(a[..d] == b[..d] && a[d + n..] == b[d + n..], "{} changed trits outside its output", what);
    Ok(a[d..d + n].to_vec())
}

/// same future outputs as the reference
pub fn agree(s: &Spongos, m: &Sp, what: &str) -> R {
    let (mut a, mut b) = (s.fork(), m.clone());
    ckeq!(show(&rdt(&a.squeeze_trits(500))), show(&b.squeeze(500)), "{}: later squeeze", what);
    let (mut a, mut b) = (s.fork(), m.clone());
    a.commit();
    b.commit();
    ckeq!(show(&rdt(&a.squeeze_trits(486))), show(&b.squeeze(486)), "{}: squeeze after commit", what);
    let (mut a, mut b) = (s.fork(), m.clone());
    a.absorb_trits(&mk(&[1, 2, 1]));
    b.absorb(&[1, 2, 1]);
    a.commit();
    b.commit();
    ckeq!(show(&rdt(&a.squeeze_trits(486))), show(&b.squeeze(486)), "{}: squeeze after absorb and commit", what);
    Ok(())
}

/// encrypt/decrypt in one of the supported memory layouts
fn crypt(r: &mut Rng, s: &mut Spongos, x: &[u8], enc: bool) -> Result<(Vec<u8>, &'static str), String> {
    let n = x.len();
    Ok(match r.below(4) {
        0 => {
            let t = mk(x);
            (rdt(&if enc { s.encr_trits(&t) } else { s.decr_trits(&t) }), "fresh output")
        }
        1 => {
            if r.coin() {
                let mut t = mk(x);
                if enc { s.encr_mut_trits(&mut t) } else { s.decr_mut_trits(&mut t) }
                (rdt(&t), "in place")
            } else {
                let (mut t, d, b) = placed(r, x);
                let y = t.slice_mut().drop(d).take(n);
                if enc { s.encr(y.as_const(), y) } else { s.decr(y.as_const(), y) }
                let a = rdt(&t);
                ck!(a[..d] == b[..d] && a[d + n..] == b[d + n..], "in-place crypt changed trits outside");
                (a[d..d + n].to_vec(), "in place, inner window")
            }
        }
        2 => {
            let (t, d, b) = placed(r, x);
            let y = outw(r, n, "crypt", |y| { let x = t.slice().drop(d).take(n); if enc { s.encr(x, y) } else { s.decr(x, y) } })?;
            ckeq!(rdt(&t), b, "the input of an out-of-place crypt changed");
            (y, "separate buffers")
        }
        _ => {
            // two non-overlapping pieces of one container, in either order
            let gap = r.below(5);
            let b0 = r.trits(2 * n + gap + 20);
            let mut b = b0.clone();
            let (i, o) = if r.coin() { (7, 7 + n + gap) } else { (7 + n + gap, 7) };
            b[i..i + n].copy_from_slice(x);
            let mut t = mk(&b);
            let all = t.slice_mut();
            let y = all.drop(o).take(n);
            let xs = all.as_const().drop(i).take(n);
            if enc { s.encr(xs, y) } else { s.decr(xs, y) }
            let a = rdt(&t);
            for k in 0..a.len() { if !(o <= k && k < o + n) { ck!(a[k] == b[k], "crypt between pieces of one container changed trit {} outside its output", k); } }
            (a[o..o + n].to_vec(), "pieces of one container")
        }
    })
}

fn c01_pair(r: &mut Rng, _: u64) -> R {
    let (mut a, mut b) = (Spongos::init(), Spongos::init());
    let pre = len(r);
    let p = r.trits(pre);
    a.absorb_trits(&mk(&p));
    b.absorb_trits(&mk(&p));
    if r.coin() { a.commit(); b.commit(); }
    let mut log = format!("absorb {}", pre);
    for _ in 0..1 + r.below(4) {
        let n = len(r);
        let x = r.trits(n);
        let (y, l1) = crypt(r, &mut a, &x, true)?;
        let (z, l2) = crypt(r, &mut b, &y, false)?;
        log += &format!("; encr {} ({}) decr ({})", n, l1, l2);
        ckeq!(show(&z), show(&x), "{}: decrypted text", log);
        match r.below(4) {
            0 => { a.commit(); b.commit(); log += "; commit"; }
            1 => {
                let m = 1 + r.below(300);
                let t = a.squeeze_trits(m);
                log += &format!("; squeeze {}", m);
                ck!(b.squeeze_eq_trits(&t), "{}: tag squeezed by the encrypting side rejected by the decrypting side", log);
            }
            _ => {}
        }
        let mut f = a.fork();
        let mut g = b.fork();
        f.absorb_trits(&mk(&[1])); // keep partial blocks visible
        g.absorb_trits(&mk(&[1]));
        f.commit();
        g.commit();
        ckeq!(rdt(&f.squeeze_trits(486)), rdt(&g.squeeze_trits(486)), "{}: states differ after decryption", log);
        let (mut f, mut g) = (a.fork(), b.fork());
        ckeq!(rdt(&f.squeeze_trits(486)), rdt(&g.squeeze_trits(486)), "{}: squeezes differ after decryption", log);
    }
    Ok(())
}

fn c02_ops(r: &mut Rng, _: u64) -> R {
    let mut s = Spongos::init();
    let mut m = Sp::new();
    let mut log = String::new();
    for _ in 0..2 + r.below(6) {
        match r.below(8) {
            0 => {
                let n = len(r);
                let x = r.trits(n);
                log += &format!("; absorb {}", n);
                for (i, j) in cuts(r, n) {
                    if r.coin() { s.absorb_trits(&mk(&x[i..j])); } else {
                        let (t, d, _) = placed(r, &x[i..j]);
                        s.absorb(t.slice().drop(d).take(j - i));
                    }
                }
                m.absorb(&x);
            }
            1 => {
                let n = len(r);
                log += &format!("; squeeze {}", n);
                let mut y = vec![];
                for (i, j) in cuts(r, n) {
                    if r.coin() { y.extend(rdt(&s.squeeze_trits(j - i))); } else { y.extend(outw(r, j - i, "squeeze", |y| s.squeeze(y))?); }
                }
                ckeq!(show(&y), show(&m.squeeze(n)), "{}: output", log);
            }
            2 => {
                let n = len(r);
                let x = r.trits(n);
                log += &format!("; encr {}", n);
                let mut y = vec![];
                for (i, j) in cuts(r, n) { y.extend(crypt(r, &mut s, &x[i..j], true)?.0); }
                ckeq!(show(&y), show(&m.encr(&x)), "{}: output", log);
            }
            3 => {
                let n = len(r);
                let x = r.trits(n);
                log += &format!("; decr {}", n);
                let mut y = vec![];
                for (i, j) in cuts(r, n) { y.extend(crypt(r, &mut s, &x[i..j], false)?.0); }
                ckeq!(show(&y), show(&m.decr(&x)), "{}: output", log);
            }
            4 => {
                log += "; commit";
                s.commit();
                if r.coin() { s.commit(); }
                m.commit();
            }
            5 => {
                let n = len(r);
                let mut f = m.clone();
                let mut y = f.squeeze(n);
                let bad = n > 0 && r.coin();
                if bad { let i = match r.below(4) { 0 => 0, 1 => n - 1, _ => r.below(n) }; y[i] = (y[i] + 1 + r.below(2) as u8) % 3; }
                log += &format!("; squeeze_eq {} ({})", n, if bad { "altered" } else { "equal" });
                let (t, d, _) = placed(r, &y);
                let eq = if r.coin() { s.squeeze_eq(t.slice().drop(d).take(n)) } else { s.squeeze_eq_trits(&mk(&y)) };
                ckeq!(eq, !bad, "{}: answer", log);
                m = f;
            }
            6 => {
                log += "; fork";
                let (f, g) = if r.coin() { (s.fork(), m.clone()) } else { let mut f = Spongos::init(); f.absorb_trits(&mk(&[2; 9])); s.fork_at(&mut f); (f, m.clone()) };
                let x = r.trits(30);
                s.absorb_trits(&mk(&x));
                m.absorb(&x);
                agree(&f, &g, &format!("{}: fork after the original moved on", log))?;
                if r.coin() {
                    let (os, om) = (s.fork(), m.clone());
                    s = f;
                    m = g;
                    s.absorb_trits(&mk(&[2, 2]));
                    m.absorb(&[2, 2]);
                    s.commit();
                    m.commit();
                    agree(&os, &om, &format!("{}: original after its fork moved on", log))?;
                }
            }
            _ => {
                log += "; join";
                let n = len(r);
                let x = r.trits(n);
                let (mut o, mut q) = (Spongos::init(), Sp::new());
                o.absorb_trits(&mk(&x));
                q.absorb(&x);
                if r.coin() { o.commit(); q.commit(); }
                s.join(&mut o);
                m.join(&mut q);
                agree(&o, &q, &format!("{}: joined sponge", log))?;
            }
        }
    }
    agree(&s, &m, &log)
}

/// the serialised inner state restores a sponge whose later outputs agree once a block was absorbed
fn c02_inner(r: &mut Rng, _: u64) -> R {
    let mut s = Spongos::init();
    let mut m = Sp::new();
    let n = len(r);
    let x = r.trits(n);
    s.absorb_trits(&mk(&x));
    m.absorb(&x);
    s.commit();
    m.commit();
    let inner = if r.coin() { rdt(&s.to_inner_trits()) } else { outw(r, 243, "to_inner", |y| s.to_inner(y))? };
    ckeq!(show(&inner), show(&m.w[486..]), "inner part after absorbing {}", n);
    let t = if r.coin() { Spongos::from_inner_trits(&mk(&inner)) } else { let (b, d, _) = placed(r, &inner); Spongos::from_inner(b.slice().drop(d).take(243)) };
    let mut q = Sp::new();
    q.w[486..].copy_from_slice(&inner);
    agree(&t, &q, "restored sponge")
}

fn tr_get(t: &Troika) -> Vec<u8> { (0..729).map(|i| t.get1(i)).collect() }

fn c18_cells(r: &mut Rng, _: u64) -> R {
    let mut t = Troika::default();
    ckeq!(tr_get(&t), vec![0; 729], "new state");
    let mut w = r.trits(729);
    for i in 0..729 { t.set1(i, w[i]); }
    ckeq!(tr_get(&t), w, "state after writing all trits");
    for _ in 0..50 {
        let i = r.below(729);
        let v = r.below(3) as u8;
        t.set1(i, v);
        w[i] = v;
        ckeq!(tr_get(&t), w, "state after set1({}, {})", i, v);
    }
    Ok(())
}

fn c18_perm(r: &mut Rng, _: u64) -> R {
    let mut w = match r.below(3) {
        0 => { let mut w = vec![0; 729]; for _ in 0..1 + r.below(3) { w[r.below(729)] = 1 + r.below(2) as u8; } w }
        _ => r.trits(729),
    };
    let mut t = Troika::new();
    for i in 0..729 { t.set1(i, w[i]); }
    let w0 = show(&w);
    let mut u = t.clone();
    t.permutation();
    oracle::perm(&mut w);
    let g = tr_get(&t);
    ck!(g == w, "permutation of {} gives {}, expected {}", w0, show(&g), show(&w));
    u.permutation();
    ckeq!(tr_get(&u), g, "second permutation of the same state");
    // the state stays valid: permute again, and write and read back
    t.permutation();
    oracle::perm(&mut w);
    ckeq!(tr_get(&t), w, "two permutations");
    Ok(())
}

fn hash_ref(x: &[u8], n: usize) -> Vec<u8> {
    let mut p = x.to_vec();
    p.push(1);
    while p.len() % 243 != 0 { p.push(0); }
    let mut w = vec![0; 729];
    for c in p.chunks(243) {
        w[..243].copy_from_slice(c);
        oracle::perm(&mut w);
    }
    let mut y = vec![];
    while y.len() < n { y.extend(&w[..243]); oracle::perm(&mut w); }
    y.truncate(n);
    y
}

fn c19_chunks(r: &mut Rng, _: u64) -> R {
    let mut s = TroikaSponge::default();
    let mut log = String::new();
    for k in 0..1 + r.below(3) {
        if k > 0 {
            s.reset();
            log += "; reset";
        }
        let n = len(r).min(1000);
        let m = match r.below(3) { 0 => 243 * r.below(4), _ => r.below(600) };
        let x = r.trits(n);
        let full = k == 0 || !r.one_in(4);
        log += &format!("; absorb {}", n);
        for (i, j) in cuts(r, n) { s.absorb(&x[i..j]); }
        if full {
            s.finalize();
            let mut y = vec![0u8; m];
            for (i, j) in cuts(r, m) { s.squeeze(&mut y[i..j]); }
            log += &format!("; digest {}", m);
            ckeq!(show(&y), show(&hash_ref(&x, m)), "{}", log);
        }
    }
    Ok(())
}

fn c19_padding(_: &mut Rng, _: u64) -> R {
    let mut seen = std::collections::BTreeMap::new();
    for base in [vec![], vec![1u8], vec![2u8]] {
        for n in 0..500usize {
            let mut x: Vec<u8> = base.clone();
            x.resize(n.max(base.len()), 0);
            let mut s = TroikaSponge::default();
            s.absorb(&x);
            s.finalize();
            let mut y = vec![0u8; 243];
            s.squeeze(&mut y);
            if let Some(p) = seen.insert(y, x.clone()) { ck!(p == x, "messages {} ({} trits) and {} ({} trits) have equal digests", show(&p), p.len(), show(&x), x.len()); }
        }
    }
    Ok(())
}

fn c20_prng(r: &mut Rng, i: u64) -> R {
    let (prng, key) = if i % 16 == 0 {
        let k = if r.coin() { "PRNG9KEY" } else { "A" };
        let mut v = vec![];
        for c in k.bytes() { let t = if c == b'9' { 0 } else { (c - b'A' + 1) as i64 }; v.extend(bt(3, if t > 13 { t - 27 } else { t })); }
        (iota_mam::prng::dbg_init_str(k), (0..243).map(|j| v[j % v.len()]).collect::<Vec<u8>>())
    } else {
        let key = r.trits(243);
        let (b, d, _) = placed(r, &key);
        match r.below(4) {
            0 => (PRNG::init_trits(&mk(&key)), key),
            1 => (iota_mam::prng::init_trits(&mk(&key)), key),
            2 => (iota_mam::prng::init(b.slice().drop(d).take(243)), key),
            _ => (PRNG::init(b.slice().drop(d).take(243)), key),
        }
    };
    let prng = if r.coin() { prng.clone() } else { prng };
    for _ in 0..2 {
        let k = r.below(4);
        let mut nonces: Vec<Vec<u8>> = vec![];
        for _ in 0..k { let n = len(r) / 2; nonces.push(r.trits(n)); }
        let n = len(r);
        let mut seed = key.clone();
        for x in &nonces { seed.extend(x); }
        let want = oracle::hash(&seed, n + 50);
        let ts: Vec<(Trits, usize, Vec<u8>)> = nonces.iter().map(|x| placed(r, x)).collect();
        let ns: Vec<TritSlice> = ts.iter().zip(&nonces).map(|(t, x)| t.0.slice().drop(t.1).take(x.len())).collect();
        let whole: Vec<u8> = nonces.concat();
        let lens: Vec<usize> = nonces.iter().map(|x| x.len()).collect();
        let what = format!("nonces {:?}, {} trits", lens, n);
        ckeq!(show(&outw(r, n, "gens", |y| prng.gens(&ns, y))?), show(&want[..n]), "gens, {}", what);
        ckeq!(show(&outw(r, n, "gen", |y| prng.gen(mk(&whole).slice(), y))?), show(&want[..n]), "gen, {}", what);
        ckeq!(show(&rdt(&prng.gen_trits(&mk(&whole), n + 50))), show(&want), "gen_trits, {}", what);
        // several outputs, disjoint pieces of one buffer
        let c = cuts(r, n);
        let b = r.trits(n + 9 * c.len());
        let mut t = mk(&b);
        let all = t.slice_mut();
        let rs: Vec<TritSliceMut> = c.iter().enumerate().map(|(q, (i, j))| all.drop(i + 9 * q).take(j - i)).collect();
        prng.genss(&ns, &rs);
        let a = rdt(&t);
        let mut e = b.clone();
        for (q, (i, j)) in c.iter().enumerate() { e[i + 9 * q..j + 9 * q].copy_from_slice(&want[*i..*j]); }
        ckeq!(show(&a), show(&e), "genss into pieces {:?}, {}", c, what);
        for (t, x) in ts.iter().zip(&nonces) { ckeq!(rdt(&t.0)[t.1..t.1 + x.len()], x[..], "nonce changed"); }
    }
    Ok(())
}

fn c20_hash(r: &mut Rng, _: u64) -> R {
    let k = r.below(4);
    let mut xs: Vec<Vec<u8>> = vec![];
    for _ in 0..k { let n = len(r) / 2; xs.push(r.trits(n)); }
    let n = len(r);
    let ts: Vec<(Trits, usize, Vec<u8>)> = xs.iter().map(|x| placed(r, x)).collect();
    let ss: Vec<TritSlice> = ts.iter().zip(&xs).map(|(t, x)| t.0.slice().drop(t.1).take(x.len())).collect();
    let whole: Vec<u8> = xs.concat();
    let want = oracle::hash(&whole, n);
    ckeq!(show(&outw(r, n, "hash_datas", |y| spongos::hash_datas(&ss, y))?), show(&want), "hash_datas of {:?}, {} trits", xs.iter().map(|x| x.len()).collect::<Vec<_>>(), n);
    ckeq!(show(&outw(r, n, "hash_data", |y| spongos::hash_data(mk(&whole).slice(), y))?), show(&want), "hash_data of {}, {} trits", whole.len(), n);
    Ok(())
}

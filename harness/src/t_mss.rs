use crate::fw::*;
use crate::t_sponge::placed;
use iota_mam::mss::mt::{GenLeaf, MergeNodes, TraversableMerkleTree};
use iota_mam::mss::{self, mtcomplete, mttraversal};
use iota_mam::prng::PRNG;
use iota_mam::spongos::Spongos;
use iota_mam::trits::*;
use iota_mam::wots;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn tests() -> Vec<Test> {
    vec![
        Test { prop: "C12", name: "c12_wots", quick: 240, thorough: 4000, f: c12_wots },
        Test { prop: "C12", name: "c12_forge", quick: 120, thorough: 2000, f: c12_forge },
        Test { prop: "C13", name: "c13_complete", quick: 48, thorough: 800, f: c13_complete },
        Test { prop: "C13", name: "c13_traversal", quick: 48, thorough: 800, f: c13_traversal },
        Test { prop: "C13", name: "c13_headers", quick: 2000, thorough: 40000, f: c13_headers },
        Test { prop: "C14", name: "c14_complete", quick: 20000, thorough: 200000, f: c14_complete },
        Test { prop: "C14", name: "c14_traversal", quick: 20000, thorough: 200000, f: c14_traversal },
        Test { prop: "C15", name: "c15_complete", quick: 8000, thorough: 80000, f: c15_complete },
        Test { prop: "C15", name: "c15_traversal", quick: 8000, thorough: 80000, f: c15_traversal },
    ]
}

/// hash of the concatenation, made of sponge operations only (decided by C02 and C18)
pub fn hash(x: &[u8], n: usize) -> Vec<u8> {
    let mut s = Spongos::init();
    s.absorb_trits(&mk(x));
    s.commit();
    rdt(&s.squeeze_trits(n))
}
fn chain(x: &[u8], n: i64) -> Vec<u8> {
    let mut v = x.to_vec();
    for _ in 0..n { let k = v.len(); v = hash(&v, k); }
    v
}
/// chain lengths of a 234-trit hash: 78 digits and 3 checksum digits
pub fn digits(h: &[u8]) -> Vec<i64> {
    let mut d: Vec<i64> = h.chunks(3).map(ival).collect();
    let c = -d.iter().sum::<i64>();
    d.extend(bt(9, c).chunks(3).map(ival));
    d
}
pub fn w_sign(sk: &[u8], h: &[u8]) -> Vec<u8> {
    digits(h).iter().enumerate().flat_map(|(i, d)| chain(&sk[162 * i..162 * i + 162], 13 + d)).collect()
}
pub fn w_recover(sig: &[u8], h: &[u8]) -> Vec<u8> {
    let v: Vec<u8> = digits(h).iter().enumerate().flat_map(|(i, d)| chain(&sig[162 * i..162 * i + 162], 13 - d)).collect();
    hash(&v, 243)
}
fn some_hash(r: &mut Rng) -> Vec<u8> {
    let tr: Vec<i64> = match r.below(6) {
        0 => vec![13; 78],
        1 => vec![-13; 78],
        2 => vec![0; 78],
        3 => { let a = r.range(-13, 13); vec![a; 78] }
        _ => (0..78).map(|_| r.range(-13, 13)).collect(),
    };
    let mut h: Vec<u8> = tr.iter().flat_map(|t| bt(3, *t)).collect();
    if r.coin() { let k = r.below(234); h[k] = r.below(3) as u8; }
    h
}
fn prng(r: &mut Rng) -> (PRNG, Vec<u8>) {
    let k = r.utrits(243);
    (PRNG::init_trits(&mk(&k)), k)
}

fn c12_wots(r: &mut Rng, _: u64) -> R {
    let (p, key) = prng(r);
    let (na, nb) = (r.below(90), r.below(30));
    let (na, nb) = (r.utrits(na), r.utrits(nb));
    let (ta, tb) = (mk(&na), mk(&nb));
    let nonces = [ta.slice(), tb.slice()];
    let k = r.below(3);
    let mut seed = key;
    for x in [&na, &nb].iter().take(k) { seed.extend(x.iter()); }
    let sk = hash(&seed, 81 * 162);
    let w = wots::PrivateKey::gen(&p, &nonces[..k]);
    let h = some_hash(r);
    let ends: Vec<u8> = (0..81).flat_map(|i| chain(&sk[162 * i..162 * i + 162], 26)).collect();
    let pk = hash(&ends, 243);
    let (d, e) = (r.below(20), r.below(20));
    let bg = r.trits(d + 243 + e);
    let mut t = mk(&bg);
    w.calc_pk(t.slice_mut().drop(d).take(243));
    let g = rdt(&t);
    ck!(g[..d] == bg[..d] && g[d + 243..] == bg[d + 243..], "calc_pk changed trits outside its output");
    ckeq!(show(&g[d..d + 243]), show(&pk), "public key");
    let n = wots::SIG_SIZE;
    let bg = r.trits(d + n + e);
    let mut t = mk(&bg);
    let (ht, hd, hall) = placed(r, &h);
    let hs = ht.slice().drop(hd).take(234);
    w.sign(hs, t.slice_mut().drop(d).take(n));
    let g = rdt(&t);
    ck!(g[..d] == bg[..d] && g[d + n..] == bg[d + n..], "sign changed trits outside the signature");
    let sig = &g[d..d + n];
    let want = w_sign(&sk, &h);
    for i in 0..81 { ck!(sig[162 * i..162 * i + 162] == want[162 * i..162 * i + 162], "signature of {}: part {} is not the chain value for digit {}", show(&h), i, digits(&h)[i]); }
    let bg = r.trits(d + 243 + e);
    let mut q = mk(&bg);
    wots::recover(hs, t.slice().drop(d).take(n), q.slice_mut().drop(d).take(243));
    let g = rdt(&q);
    ck!(g[..d] == bg[..d] && g[d + 243..] == bg[d + 243..], "recover changed trits outside its output");
    ck!(g[d..d + 243] == pk[..], "key recovered from the signature of {} is not the signer's", show(&h));
    ckeq!(rdt(&ht), hall, "the signed hash changed");
    let wp = wots::PublicKey::gen(&w);
    ck!(wp.verify(hs, t.slice().drop(d).take(n)), "signature of {} does not verify", show(&h));
    Ok(())
}

/// recovery equals the reference for arbitrary signatures; verification is false for other hashes and keys
fn c12_forge(r: &mut Rng, _: u64) -> R {
    let (p, _) = prng(r);
    let w = wots::PrivateKey::gen(&p, &[]);
    let h = some_hash(r);
    let mut sig = Trits::zero(wots::SIG_SIZE);
    w.sign(mk(&h).slice(), sig.slice_mut());
    let mut v = rdt(&sig);
    let mut h2 = h.clone();
    let what = match r.below(4) {
        0 => {
            // move digits so that their sum is kept, or moved by a multiple of 27
            let mut d: Vec<i64> = h.chunks(3).map(ival).collect();
            let (i, j) = (r.below(78), r.below(78));
            if i != j && d[i] < 13 && d[j] > -13 { d[i] += 1; d[j] -= 1; } else { d[i] = if d[i] > 0 { d[i] - 1 } else { d[i] + 1 }; }
            h2 = d.iter().flat_map(|t| bt(3, *t)).collect();
            "another hash"
        }
        1 => { let k = r.below(234); h2[k] = (h2[k] + 1 + r.below(2) as u8) % 3; "another hash" }
        2 => { let k = r.below(v.len()); v[k] = (v[k] + 1 + r.below(2) as u8) % 3; "an altered signature" }
        _ => {
            // advance one chain
            let i = r.below(81);
            let c = chain(&v[162 * i..162 * i + 162], 1);
            v[162 * i..162 * i + 162].copy_from_slice(&c);
            "a signature with one chain moved forward"
        }
    };
    let mut q = Trits::zero(243);
    wots::recover(mk(&h2).slice(), mk(&v).slice(), q.slice_mut());
    ckeq!(show(&rdt(&q)), show(&w_recover(&v, &h2)), "key recovered from {}", what);
    let wp = wots::PublicKey::gen(&w);
    ck!(!wp.verify(mk(&h2).slice(), mk(&v).slice()), "{} verifies", what);
    // honest chain positions: no digit vector dominates another one
    let (a, b) = (digits(&h), digits(&h2));
    if h != h2 { ck!(a.iter().zip(&b).any(|(x, y)| x < y) && a.iter().zip(&b).any(|(x, y)| x > y), "digit vectors of two hashes are ordered"); }
    Ok(())
}

fn merge(a: &[u8], b: &[u8]) -> Vec<u8> {
    let mut v = a.to_vec();
    v.extend(b);
    hash(&v, 243)
}
/// all levels, leaves first
fn levels<T: Clone>(leaves: Vec<T>, m: impl Fn(&T, &T) -> T) -> Vec<Vec<T>> {
    let mut v = vec![leaves];
    while v[v.len() - 1].len() > 1 {
        let l: Vec<T> = v[v.len() - 1].chunks(2).map(|c| m(&c[0], &c[1])).collect();
        v.push(l);
    }
    v
}

fn c13_run<M: TraversableMerkleTree<Trits> + Clone>(r: &mut Rng, i: u64) -> R {
    let height = if i % 8 == 7 { 3 } else { r.below(3) };
    let (p, _) = prng(r);
    let nn = r.below(100);
    let nonce = r.utrits(nn);
    let tn = mk(&nonce);
    let wkey = |k: usize| {
        let ni = mk(&bt(18, k as i64));
        wots::PrivateKey::gen(&p, &[tn.slice(), ni.slice()])
    };
    let leaves: Vec<Vec<u8>> = (0..1 << height).map(|k| { let mut t = Trits::zero(243); wkey(k).calc_pk(t.slice_mut()); rdt(&t) }).collect();
    let lv = levels(leaves, |a, b| merge(a, b));
    let root = lv[height][0].clone();
    let mut sk: mss::PrivateKeyT<M> = mss::PrivateKeyT::gen(&p, tn.slice(), height);
    let pk = |sk: &mss::PrivateKeyT<M>| crate::t_pb3::msspk_trits(sk.public_key());
    ckeq!(show(&pk(&sk)), show(&root), "public key of a tree of height {}", height);
    let n = 18 + 81 * 162 + 243 * height;
    ckeq!(mss::sig_size(height), n, "sig_size({})", height);
    ckeq!(mss::apath_size(height), 243 * height, "apath_size({})", height);
    let other = crate::t_pb3::msspk(&r.utrits(243));
    for k in 0..1usize << height {
        let what = format!("height {}, key {}", height, k);
        ckeq!((sk.height(), sk.skn(), sk.skn_left()), (height, k, (1 << height) - k), "{}: height, key number, keys left", what);
        let h = some_hash(r);
        let (ht, hd, _) = placed(r, &h);
        let hs = ht.slice().drop(hd).take(234);
        let (d, e) = (r.below(20), r.below(20));
        let bg = r.trits(d + n + e);
        let mut t = mk(&bg);
        sk.sign(hs, t.slice_mut().drop(d).take(n));
        let g = rdt(&t);
        ck!(g[..d] == bg[..d] && g[d + n..] == bg[d + n..], "{}: sign changed trits outside the signature", what);
        let sig = g[d..d + n].to_vec();
        ckeq!(show(&sig[..4]), show(&bt(4, height as i64)), "{}: encoded height", what);
        ckeq!(show(&sig[4..18]), show(&bt(14, k as i64)), "{}: encoded key number", what);
        let mut ws = Trits::zero(wots::SIG_SIZE);
        wkey(k).sign(hs, ws.slice_mut());
        ck!(sig[18..18 + 81 * 162] == rdt(&ws)[..], "{}: one-time signature is not the one of key {}", what, k);
        let mut i = k;
        for l in 0..height {
            let o = 18 + 81 * 162 + 243 * l;
            ck!(sig[o..o + 243] == lv[l][i ^ 1][..], "{}: path node {} is not the sibling on its level", what, l);
            i /= 2;
        }
        // recover and verify
        let ss = t.slice().drop(d).take(n);
        let (rk, m) = match mss::PublicKey::recover(hs, ss) { Some(x) => x, None => return Err(format!("{}: own signature not recoverable", what)) };
        ckeq!(m, n, "{}: recovered signature size", what);
        ck!(rk == *sk.public_key(), "{}: recovered key is not the signer's", what);
        ck!(sk.public_key().verify(hs, ss), "{}: own signature does not verify", what);
        ck!(!other.verify(hs, ss), "{}: signature verifies under another key", what);
        // trailing trits: recoverable, not verifiable
        let mut long = sig.clone();
        let xn = 1 + r.below(300);
        long.extend(r.trits(xn));
        let tl = mk(&long);
        ck!(mss::PublicKey::recover(hs, tl.slice()).map_or(false, |(rk, m)| m == n && rk == *sk.public_key()), "{}: signature followed by {} more trits not recovered", what, xn);
        ck!(!sk.public_key().verify(hs, tl.slice()), "{}: signature followed by {} more trits verifies", what, xn);
        let cut = match r.below(3) { 0 => n - 1, 1 => r.below(20), _ => r.below(n) };
        ck!(!sk.public_key().verify(hs, ss.take(cut)), "{}: signature cut to {} of {} trits verifies", what, cut, n);
        ck!(mss::PublicKey::recover(hs, ss.take(cut)).is_none(), "{}: signature cut to {} of {} trits recovered", what, cut, n);
        for _ in 0..4 {
            let mut v = sig.clone();
            let j = match r.below(3) { 0 => r.below(18), 1 => n - 1 - r.below((243 * height).max(1)), _ => r.below(n) };
            v[j] = (v[j] + 1 + r.below(2) as u8) % 3;
            ck!(!sk.public_key().verify(hs, mk(&v).slice()), "{}: signature altered at trit {} verifies", what, j);
        }
        let mut h2 = h.clone();
        let j = r.below(234);
        h2[j] = (h2[j] + 1 + r.below(2) as u8) % 3;
        ck!(!sk.public_key().verify(mk(&h2).slice(), ss), "{}: signature verifies for a hash altered at trit {}", what, j);
        // a copy is at the same key
        let c = sk.clone();
        let more = sk.next();
        ckeq!(c.skn(), k, "{}: copy moved with the original", what);
        ckeq!(more, k + 1 < 1 << height, "{}: answer of next", what);
        ckeq!(show(&pk(&sk)), show(&root), "{}: public key after next", what);
    }
    ckeq!((sk.skn(), sk.skn_left()), (1 << height, 0), "exhausted key of height {}: key number, keys left", height);
    let mut t = Trits::zero(n);
    let refused = catch_unwind(AssertUnwindSafe(|| sk.sign(mk(&vec![0; 234]).slice(), t.slice_mut()))).is_err();
    ck!(refused, "exhausted key of height {} still signs", height);
    ck!(!sk.next(), "next of an exhausted key of height {} succeeds", height);
    ckeq!((sk.skn(), sk.skn_left()), (1 << height, 0), "exhausted key of height {} after next", height);
    Ok(())
}
fn c13_complete(r: &mut Rng, i: u64) -> R { c13_run::<mtcomplete::MT<Trits>>(r, i) }
fn c13_traversal(r: &mut Rng, i: u64) -> R { c13_run::<mttraversal::MT<Trits>>(r, i) }

/// arbitrary signatures: recovery matches the reference, for any header
fn c13_headers(r: &mut Rng, i: u64) -> R {
    let height = match r.below(3) { 0 => r.range(-40, 40), 1 => r.range(0, 20), _ => r.range(-1, 4) };
    let top = if height >= 0 { (1i64 << height).min(2_391_484) } else { 1 };
    let skn = match r.below(5) { 0 => r.range(-2_391_484, 2_391_484), 1 => top.min(2_391_484), 2 => top - 1, 3 => -1, _ => r.range(0, top - 1) };
    let mut sig = bt(4, height);
    sig.extend(bt(14, skn));
    let ok = height >= 0 && skn >= 0 && skn < 1i64 << height;
    let need = 81 * 162 + 243 * height.max(0) as usize;
    let extra = match r.below(4) { 0 => -1, 1 => 1 + r.below(300) as i64, 2 => -(r.below(need) as i64), _ => 0 };
    // accepted headers cost a full recovery: do those rarely
    let extra = if ok && extra >= 0 && i % 40 != 0 { -1 } else { extra };
    let body = (need as i64 + extra).max(0) as usize;
    sig.extend(r.utrits(body));
    let h = some_hash(r);
    let pk = r.utrits(243);
    let (t, d, _) = placed(r, &sig);
    let ss = t.slice().drop(d).take(sig.len());
    let mut q = mk(&pk);
    let got = mss::recover(q.slice_mut(), mk(&h).slice(), ss);
    let what = format!("height {}, key number {}, {} trits after the header", height, skn, body);
    let want = if ok && extra >= 0 { Some(18 + need) } else { None };
    ckeq!(got, want, "recover: {}", what);
    if want.is_some() {
        let mut v = w_recover(&sig[18..18 + 81 * 162], &h);
        let mut k = skn;
        for l in 0..height as usize {
            let o = 18 + 81 * 162 + 243 * l;
            let n = &sig[o..o + 243];
            v = if k % 2 == 0 { merge(&v, n) } else { merge(n, &v) };
            k /= 2;
        }
        ckeq!(show(&rdt(&q)), show(&v), "recovered key: {}", what);
        ckeq!(mss::verify(mk(&v).slice(), mk(&h).slice(), ss), extra == 0, "verify under the recovered key: {}", what);
    }
    ck!(!mss::verify(mk(&pk).slice(), mk(&h).slice(), ss), "verify under a random key: {}", what);
    Ok(())
}

// ---------------------------------------------------------------- trees

fn mix(a: u64, b: u64) -> u64 {
    let mut z = a.wrapping_mul(0x9E3779B97F4A7C15) ^ b.rotate_left(23).wrapping_mul(0xD6E8FEB86659FD93);
    z = (z ^ (z >> 32)).wrapping_mul(0xD6E8FEB86659FD93);
    z ^ (z >> 29)
}
struct G(u64, u64);
impl G { fn at(&self, i: usize) -> u64 { if self.1 == 0 { self.0 } else { mix(self.0, i as u64 % self.1) } } }
impl GenLeaf<u64> for G { fn gen_leaf(&self, i: usize) -> u64 { self.at(i) } }
struct M(std::cell::Cell<usize>);
impl MergeNodes<u64> for M { fn merge_nodes(&self, a: &u64, b: &u64) -> u64 { self.0.set(self.0.get() + 1); mix(mix(1, *a), *b) } }
fn mm(a: &u64, b: &u64) -> u64 { mix(mix(1, *a), *b) }

fn leafgen(r: &mut Rng) -> G {
    // all leaves equal, few different leaves, all different
    let k = match r.below(6) { 0 => 0, 1 => 2 + r.below(5) as u64, _ => 1 << 40 };
    G(r.next(), k)
}

fn c14_run<T: TraversableMerkleTree<u64>>(r: &mut Rng, i: u64) -> R {
    let height = if i < 12 { i as usize } else if i < 14 { i as usize + 5 } else { r.below(9) };
    let g = leafgen(r);
    let m = M(std::cell::Cell::new(0));
    let lv = levels((0..1usize << height).map(|i| g.at(i)).collect(), mm);
    let root = lv[height][0];
    let mut t = T::gen(&g, &m, height);
    for k in 0..1usize << height {
        let what = format!("height {}, leaf {}", height, k);
        ckeq!((t.height(), t.skn()), (height, k), "{}: height and leaf number", what);
        ckeq!(*t.root(), root, "{}: root", what);
        let ap = t.apath();
        ckeq!(ap.skn(), k, "{}: leaf number of the path", what);
        let want: Vec<u64> = (0..height).map(|l| lv[l][(k >> l) ^ 1]).collect();
        ckeq!(format!("{:?}", ap), format!("APath({}, {:?})", k, want), "{}: path", what);
        m.0.set(0);
        ckeq!(ap.fold(&m, &lv[0][k]), root, "{}: path folded from its leaf", what);
        ckeq!(m.0.get(), height, "{}: nodes in the path", what);
        let mut h = lv[0][k];
        ck!(ap.fold_mut(&m, &mut h), "{}: path reported too short", what);
        ckeq!(h, root, "{}: path folded in place", what);
        ckeq!(t.next(&g, &m), k + 1 < 1 << height, "{}: answer of next", what);
    }
    for _ in 0..2 {
        ckeq!((t.height(), t.skn()), (height, 1 << height), "exhausted tree of height {}", height);
        ckeq!(*t.root(), root, "root of an exhausted tree of height {}", height);
        ck!(!t.next(&g, &m), "next of an exhausted tree of height {} succeeds", height);
    }
    Ok(())
}
fn c14_complete(r: &mut Rng, i: u64) -> R { c14_run::<mtcomplete::MT<u64>>(r, i) }
fn c14_traversal(r: &mut Rng, i: u64) -> R { c14_run::<mttraversal::MT<u64>>(r, i) }

fn c15_run<T: TraversableMerkleTree<u64> + PartialEq + std::fmt::Debug + Clone>(r: &mut Rng, i: u64) -> R {
    if i == 8 { return c15_tall::<T>(r); }
    let height = if i < 8 { i as usize } else { r.below(8) };
    let g = leafgen(r);
    let m = M(std::cell::Cell::new(0));
    let mut t = T::gen(&g, &m, height);
    let mut counts = vec![];
    let mut k = 0;
    loop {
        let what = format!("height {}, leaf {}", height, k);
        let (h, s, n) = t.store();
        ckeq!((h, s), (height, k), "{}: stored height and index", what);
        let cnt = n.len();
        counts.push(cnt);
        let l = match T::load(h, s, n.clone()) { Some(l) => l, None => return Err(format!("{}: own dump refused", what)) };
        ck!(l == t, "{}: loaded tree differs: {:?} / {:?}", what, l, t);
        ckeq!(l.store(), (h, s, n.clone()), "{}: dump of the loaded tree", what);
        // wrong node counts
        for c in [0, 1, height, cnt.wrapping_sub(1), cnt + 1, cnt + 1 + r.below(40), r.below(cnt + 1)] {
            if c == cnt || c > 4000 { continue; }
            let mut v = n.clone();
            v.resize(c, 7);
            ck!(T::load(h, s, v).is_none(), "{}: dump with {} instead of {} nodes accepted", what, c, cnt);
        }
        // indices beyond the leaves
        for x in [(1 << h) + 1, (1 << h) + 1 + r.below(5), usize::MAX] { ck!(T::load(h, x, n.clone()).is_none(), "{}: index {} accepted", what, x); }
        // some later continuation agrees with the original
        if r.one_in(3) || k < 3 {
            let (mut a, mut b) = (t.clone(), l);
            for step in 0..1 + r.below(12) {
                let (x, y) = (a.next(&g, &m), b.next(&g, &m));
                ck!(x == y && a == b && a.skn() == b.skn() && a.root() == b.root(), "{}: loaded tree differs {} steps later", what, step + 1);
                if !x { break; }
                ck!(a.apath() == b.apath(), "{}: path of the loaded tree differs {} steps later", what, step + 1);
            }
        }
        if k == 1 << height { break; }
        t.next(&g, &m);
        k += 1;
    }
    // a dump is accepted at another index exactly when its node count fits there
    for _ in 0..4 {
        let (a, b) = (r.below(counts.len()), r.below(counts.len()));
        let got = T::load(height, b, vec![5; counts[a]]).is_some();
        ckeq!(got, counts[a] == counts[b], "height {}: {} nodes at index {}", height, counts[a], b);
    }
    Ok(())
}
/// one tall tree, stored and loaded at some of its leaves
fn c15_tall<T: TraversableMerkleTree<u64> + PartialEq + std::fmt::Debug + Clone>(r: &mut Rng) -> R {
    let height = 17;
    let g = leafgen(r);
    let m = M(std::cell::Cell::new(0));
    let mut t = T::gen(&g, &m, height);
    for k in 0..=1usize << height {
        if r.one_in(4000) || (k + 1) & k == 0 || k & (k.max(1) - 1) == 0 {
            let what = format!("height {}, leaf {}", height, k);
            let (h, s, n) = t.store();
            ckeq!((h, s), (height, k), "{}: stored height and index", what);
            let mut l = match T::load(h, s, n) { Some(l) => l, None => return Err(format!("{}: own dump refused", what)) };
            ck!(l == t, "{}: loaded tree differs", what);
            let mut a = t.clone();
            for _ in 0..3 {
                let (x, y) = (a.next(&g, &m), l.next(&g, &m));
                ck!(x == y && a == l && (!x || a.apath() == l.apath()), "{}: loaded tree differs later", what);
            }
        }
        ckeq!(t.next(&g, &m), k + 1 < 1 << height, "height {}, leaf {}: answer of next", height, k);
    }
    Ok(())
}
fn c15_complete(r: &mut Rng, i: u64) -> R { c15_run::<mtcomplete::MT<u64>>(r, i) }
fn c15_traversal(r: &mut Rng, i: u64) -> R { c15_run::<mttraversal::MT<u64>>(r, i) }

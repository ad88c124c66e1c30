use crate::fw::*;
use iota_mam::trits::*;

pub fn tests() -> Vec<Test> {
    vec![
        Test { prop: "C03", name: "c03_exhaustive_small", quick: 1, thorough: 1, f: c03_small },
        Test { prop: "C03", name: "c03_nine_eighteen", quick: 20000, thorough: 400000, f: c03_18 },
        Test { prop: "C03", name: "c03_mods", quick: 20000, thorough: 400000, f: c03_mods },
        Test { prop: "C04", name: "c04_chars", quick: 1, thorough: 1, f: c04_chars },
        Test { prop: "C04", name: "c04_text", quick: 20000, thorough: 400000, f: c04_text },
        Test { prop: "C04", name: "c04_tryte_cells", quick: 1, thorough: 1, f: c04_cells },
        Test { prop: "C05", name: "c05_ranges", quick: 20000, thorough: 400000, f: c05_ranges },
        Test { prop: "C05", name: "c05_data", quick: 20000, thorough: 400000, f: c05_data },
        Test { prop: "C05", name: "c05_alias", quick: 20000, thorough: 400000, f: c05_alias },
        Test { prop: "C05", name: "c05_arith", quick: 20000, thorough: 400000, f: c05_arith },
        Test { prop: "C06", name: "c06_inc", quick: 20000, thorough: 400000, f: c06_inc },
        Test { prop: "C06", name: "c06_cycle", quick: 8, thorough: 11, f: c06_cycle },
    ]
}

/// a buffer with random content and a window [d, d+n) in it
fn window(r: &mut Rng, n: usize) -> (Vec<u8>, usize) {
    let d = r.below(40);
    let e = r.below(40);
    (r.trits(d + n + e), d)
}

fn put_at(r: &mut Rng, k: usize, f: impl Fn(TritSliceMut), want: &[u8], what: &str) -> R {
    let (v, d) = window(r, k);
    let mut t = mk(&v);
    f(t.slice_mut().drop(d));
    let mut w = v.clone();
    w[d..d + k].copy_from_slice(want);
    ckeq!(rdt(&t), w, "{} at offset {} of {}", what, d, v.len());
    Ok(())
}

fn c03_small(r: &mut Rng, _: u64) -> R {
    // the published bounds are those of the balanced ternary ranges
    for (k, lo, hi) in [
        (1u32, MIN_TRINT1 as i64, MAX_TRINT1 as i64),
        (3, MIN_TRINT3 as i64, MAX_TRINT3 as i64),
        (6, MIN_TRINT6 as i64, MAX_TRINT6 as i64),
        (9, MIN_TRINT9 as i64, MAX_TRINT9 as i64),
        (18, MIN_TRINT18 as i64, MAX_TRINT18 as i64),
    ] {
        ckeq!(hi, (3i64.pow(k) - 1) / 2, "MAX_TRINT{}", k);
        ckeq!(lo, -hi, "MIN_TRINT{}", k);
    }
    for v in -1i64..=1 {
        put_at(r, 1, |s| s.put1(v as Trint1), &bt(1, v), &format!("put1({})", v))?;
    }
    for v in -13i64..=13 {
        put_at(r, 3, |s| s.put3(v as Trint3), &bt(3, v), &format!("put3({})", v))?;
        let t = mk(&bt(3, v));
        ckeq!(t.slice().get3() as i64, v, "get3 of {}", show(&bt(3, v)));
        ckeq!(tryte_to_trint3(tryte_from_trint3(v as i8)) as i64, v, "tryte_to_trint3(tryte_from_trint3({}))", v);
        ckeq!(tryte_from_trint3(v as i8) as i64, v.rem_euclid(27), "tryte_from_trint3({})", v);
    }
    for v in -364i64..=364 {
        put_at(r, 6, |s| s.put6(v as Trint6), &bt(6, v), &format!("put6({})", v))?;
        let t = mk(&bt(6, v));
        ckeq!(t.slice().get6() as i64, v, "get6 of {}", show(&bt(6, v)));
    }
    for v in -9841i64..=9841 {
        put_at(r, 9, |s| s.put9(v as Trint9), &bt(9, v), &format!("put9({})", v))?;
        let t = mk(&bt(9, v));
        ckeq!(t.slice().get9() as i64, v, "get9 of {}", show(&bt(9, v)));
    }
    for v in 0..3u8 {
        let t = mk(&[v]);
        ckeq!(t.slice().get1() as i64, tv(v), "get1 of {}", v);
        ckeq!(t.slice().get_trit(), v, "get_trit of {}", v);
    }
    let n = 3usize;
    let vs = r.trits(n);
    let t = mk(&vs);
    let mut o = [0i8; 3];
    t.slice().get1s(&mut o);
    ckeq!(o.iter().map(|x| *x as i64).collect::<Vec<_>>(), vs.iter().map(|x| tv(*x)).collect::<Vec<_>>(), "get1s");
    Ok(())
}

fn c03_18(r: &mut Rng, i: u64) -> R {
    let m: i64 = 193_710_244;
    let v = match i {
        0 => m, 1 => -m, 2 => 0, 3 => 1, 4 => -1, 5 => m - 1, 6 => 1 - m,
        7..=40 => { let p = 3i64.pow(((i - 7) / 2 + 1) as u32); if i % 2 == 0 { p } else { p / 2 } }
        _ => r.range(-m, m),
    };
    put_at(r, 18, |s| s.put18(v as Trint18), &bt(18, v), &format!("put18({})", v))?;
    let (b, d) = window(r, 18);
    let t = mk(&b);
    let s = t.slice().drop(d);
    ckeq!(s.get18() as i64, ival(&b[d..d + 18]), "get18 of {}", show(&b[d..d + 18]));
    ckeq!(s.get9() as i64, ival(&b[d..d + 9]), "get9 of {}", show(&b[d..d + 9]));
    ckeq!(s.get6() as i64, ival(&b[d..d + 6]), "get6 of {}", show(&b[d..d + 6]));
    ckeq!(s.get3() as i64, ival(&b[d..d + 3]), "get3 of {}", show(&b[d..d + 3]));
    // distinct values of the same width have distinct encodings: follows from get . put = id
    let t2 = { let mut t = mk(&vec![0; 18]); t.slice_mut().put18(v as i32); t };
    ckeq!(t2.slice().get18() as i64, v, "get18(put18({}))", v);
    Ok(())
}

fn c03_mods(r: &mut Rng, i: u64) -> R {
    for (m, which) in [(3i64, 0), (27, 1), (19683, 2)] {
        let h = (m - 1) / 2;
        let lo = i32::MIN as i64 + h + 1;
        let hi = i32::MAX as i64 - h - 1;
        let t = match i {
            0 => lo, 1 => hi, 2 => 0,
            3..=9000 => i as i64 * if r.coin() { 1 } else { -1 },
            _ => r.range(lo, hi),
        };
        // the intermediate sum (t%m)+m+(m-1)/2 never overflows; t - r stays in range by the documented bounds
        let (a, q) = match which { 0 => { let x = mods1(t as i32); (x.0 as i64, x.1 as i64) } 1 => { let x = mods3(t as i32); (x.0 as i64, x.1 as i64) } _ => { let x = mods9(t as i32); (x.0 as i64, x.1 as i64) } };
        ck!(-h <= a && a <= h && a + q * m == t, "mods by {} of {}: remainder {} quotient {}", m, t, a, q);
    }
    let t = match i { 0 => 0usize, 1 => usize::MAX - 13, 2..=9000 => i as usize, _ => (r.next() as usize) & (usize::MAX >> r.below(60)) };
    let t = t.min(usize::MAX - 27);
    let (a, q) = mods1_usize(t);
    ck!(-1 <= a && a <= 1 && a as i128 + 3 * q as i128 == t as i128, "mods1_usize({}) = ({}, {})", t, a, q);
    let (a, q) = mods3_usize(t);
    ck!(-13 <= a && a <= 13 && a as i128 + 27 * q as i128 == t as i128, "mods3_usize({}) = ({}, {})", t, a, q);
    Ok(())
}

const LET: &str = "9ABCDEFGHIJKLMNOPQRSTUVWXYZ";

fn c04_chars(_: &mut Rng, _: u64) -> R {
    let l: Vec<char> = LET.chars().collect();
    for t in 0..27u8 {
        let c = l[t as usize];
        let v = if t > 13 { t as i8 - 27 } else { t as i8 };
        ckeq!(tryte_to_char(t), c, "tryte_to_char({})", t);
        ckeq!(tryte_from_char(c), Some(t), "tryte_from_char({})", c);
        ckeq!(trint3_to_char(v), c, "trint3_to_char({})", v);
        ckeq!(trint3_from_char(c), Some(v), "trint3_from_char({})", c);
        ckeq!(tryte_to_trint3(t), v, "tryte_to_trint3({})", t);
        ckeq!(tryte_from_trint3(v), t, "tryte_from_trint3({})", v);
    }
    for x in 0..=0x10ffffu32 {
        if let Some(c) = char::from_u32(x) {
            let want = LET.find(c).is_some();
            ckeq!(tryte_from_char(c).is_some(), want, "tryte_from_char accepts U+{:04x}", x);
            ckeq!(trint3_from_char(c).is_some(), want, "trint3_from_char accepts U+{:04x}", x);
        }
    }
    Ok(())
}

fn cell(v: &[u8]) -> i64 { ival(v).rem_euclid(27) }

fn c04_cells(r: &mut Rng, _: u64) -> R {
    let l: Vec<char> = LET.chars().collect();
    for a in 0..27usize {
        let v = vec![(a % 3) as u8, (a / 3 % 3) as u8, (a / 9) as u8];
        let (mut b, d) = window(r, 3);
        b[d..d + 3].copy_from_slice(&v);
        let t = mk(&b);
        let s = t.slice().drop(d);
        ckeq!(s.get_char(), l[cell(&v) as usize], "get_char of {}", show(&v));
        ckeq!(s.get_tryte() as usize, a, "get_tryte of {}", show(&v));
        put_at(r, 3, |m| m.put_tryte(a as u8), &v, &format!("put_tryte({})", a))?;
        for n in 0..3usize {
            // truncated cell
            let c = l[cell(&v) as usize];
            let mut t = mk(&vec![1; n + 3]);
            let ok = t.slice_mut().take(n).put_char(c);
            let fits = v[n..].iter().all(|x| *x == 0);
            ckeq!(ok, fits, "put_char({}) into {} trits", c, n);
            let mut w = vec![1; n + 3];
            if fits { w[..n].copy_from_slice(&v[..n]); }
            if fits { ckeq!(rdt(&t), w, "put_char({}) into {} trits", c, n); }
            ckeq!(rdt(&t)[n..].to_vec(), w[n..].to_vec(), "put_char({}) beyond {} trits", c, n);
        }
    }
    Ok(())
}

fn enc(s: &str) -> Option<Vec<u8>> {
    let mut v = vec![];
    for c in s.chars() {
        let k = LET.find(c)? as i64;
        v.extend(bt(3, if k > 13 { k - 27 } else { k }));
    }
    Some(v)
}

fn c04_text(r: &mut Rng, i: u64) -> R {
    let l: Vec<char> = LET.chars().collect();
    let n = if i < 40 { i as usize } else { r.below(120) };
    let mut s: String = (0..n).map(|_| r.pick(&l)).collect();
    let w = enc(&s).unwrap();
    let t = Trits::from_str(&s);
    ck!(t.is_some(), "from_str({:?}) rejected", s);
    let t = t.unwrap();
    ckeq!(rdt(&t), w, "from_str({:?})", s);
    ckeq!(t.to_str(), s, "to_str of the trits of {:?}", s);
    // parsing into a buffer of m trits
    let m = r.below(3 * n + 4);
    let (b, d) = window(r, m);
    let mut t = mk(&b);
    let ok = t.slice_mut().drop(d).take(m).from_str(&s);
    // what does not fit must be zero, cell by cell
    let fits = w.len() <= m || w[m..].iter().all(|x| *x == 0);
    ckeq!(ok, fits, "from_str({:?}) into {} trits", s, m);
    let g = rdt(&t);
    ckeq!((&g[..d], &g[d + m..]), (&b[..d], &b[d + m..]), "from_str({:?}) outside the slice", s);
    if ok {
        let k = m.min(w.len());
        ckeq!(g[d..d + k].to_vec(), w[..k].to_vec(), "from_str({:?}) into {} trits", s, m);
        ckeq!(g[d + k..d + m].to_vec(), b[d + k..d + m].to_vec(), "from_str({:?}) after the text", s);
    }
    // text of arbitrary trits
    let v = { let k = r.below(100); r.trits(k) };
    let mut p = v.clone();
    while p.len() % 3 != 0 { p.push(0); }
    let want: String = p.chunks(3).map(|c| l[cell(c) as usize]).collect();
    ckeq!(mk(&v).to_str(), want, "to_str of {}", show(&v));
    ckeq!(format!("{}", mk(&v)), want, "Display of {}", show(&v));
    let back = Trits::from_str(&want);
    ck!(back.is_some() && rdt(back.as_ref().unwrap()) == p, "from_str(to_str({}))", show(&v));
    // cycling
    let k = r.below(300);
    let cy = rdt(&Trits::cycle_str(k, &s));
    let want: Vec<u8> = (0..k).map(|j| if w.is_empty() { 0 } else { w[j % w.len()] }).collect();
    ckeq!(cy, want, "cycle_str({}, {:?})", k, s);
    // a foreign character anywhere
    if n > 0 {
        let bad = r.pick(&['a', '8', '0', ' ', '@', '[', ':', '\u{7f}', '\u{e9}', '\u{3b1}', '\u{141}', '\n']);
        let j = r.below(n);
        s = s.chars().enumerate().map(|(k, c)| if k == j { bad } else { c }).collect();
        ck!(Trits::from_str(&s).is_none(), "from_str({:?}) accepted", s);
    }
    Ok(())
}

fn chk_slice(s: TritSlice, b: &[u8], d: usize, n: usize, what: &str) -> R {
    ckeq!((s.dropped_size(), s.total_size(), s.size(), s.avail_size(), s.is_empty()), (d, n, n - d, n - d, n == d), "{}: range", what);
    ckeq!(rd(s), b[d..n].to_vec(), "{}: contents", what);
    Ok(())
}

fn c05_ranges(r: &mut Rng, _: u64) -> R {
    let len = r.below(60);
    let b = r.utrits(len);
    let mut bb = b.clone();
    let n = r.below(len + 1);
    let d = r.below(n + 1);
    let s = TritSlice::from_slice(n, &b).drop(d);
    let ms = TritSliceMut::from_slice_mut(n, &mut bb).drop(d);
    chk_slice(s, &b, d, n, "from_slice/drop")?;
    let k = r.below(n - d + 1);
    let big = if r.one_in(4) { usize::MAX / 2 } else { r.below(2 * len + 2) };
    let m = (d + big).min(n);
    let what = format!("len {} n {} d {} k {} big {}", len, n, d, k, big);
    macro_rules! both { ($e:ident ( $($a:expr),* ), $d:expr, $n:expr) => {
        chk_slice(s.$e($($a),*), &b, $d, $n, &format!("{} [{}]", stringify!($e), what))?;
        chk_slice(ms.$e($($a),*).as_const(), &b, $d, $n, &format!("mut {} [{}]", stringify!($e), what))?;
    } }
    both!(take(k), d, d + k);
    both!(drop(k), d + k, n);
    both!(take_min(big), d, m);
    both!(drop_min(big), m, n);
    let q = r.below(d + 1);
    both!(pickup(q), d - q, n);
    both!(pickup_all(), 0, n);
    both!(drop_all(), n, n);
    both!(dropped(), 0, d);
    ckeq!(s.size_min(big), (n - d).min(big), "size_min [{}]", what);
    ckeq!(ms.size_min(big), (n - d).min(big), "mut size_min [{}]", what);
    ckeq!((ms.dropped_size(), ms.total_size(), ms.size(), ms.avail_size(), ms.is_empty()), (d, n, n - d, n - d, n == d), "mut sizes [{}]", what);
    let (x, y) = s.split_at(k);
    chk_slice(x, &b, d, d + k, "split_at.0")?;
    chk_slice(y, &b, d + k, n, "split_at.1")?;
    let (x, y) = ms.split_at(k);
    chk_slice(x.as_const(), &b, d, d + k, "mut split_at.0")?;
    chk_slice(y.as_const(), &b, d + k, n, "mut split_at.1")?;
    let (x, y) = s.split_at_min(big);
    chk_slice(x, &b, d, m, "split_at_min.0")?;
    chk_slice(y, &b, m, n, "split_at_min.1")?;
    let (x, y) = ms.split_at_min(big);
    chk_slice(x.as_const(), &b, d, m, "mut split_at_min.0")?;
    chk_slice(y.as_const(), &b, m, n, "mut split_at_min.1")?;
    let mut a = s;
    let t = a.advance(k);
    chk_slice(t, &b, d, d + k, "advance result")?;
    chk_slice(a, &b, d + k, n, "advance rest")?;
    chk_slice(a.diff(s), &b, d, d + k, "diff")?;
    let mut a = ms;
    let t = a.advance(k);
    chk_slice(t.as_const(), &b, d, d + k, "mut advance result")?;
    chk_slice(a.as_const(), &b, d + k, n, "mut advance rest")?;
    chk_slice(a.diff(ms).as_const(), &b, d, d + k, "mut diff")?;
    Ok(())
}

fn c05_data(r: &mut Rng, _: u64) -> R {
    let (n, m) = (r.below(50), if r.coin() { r.below(50) } else { 0 });
    let m = if m == 0 { n } else { m };
    let (a, da) = window(r, n);
    let (b, db) = window(r, m);
    let ta = mk(&a);
    let s = ta.slice().drop(da).take(n);
    let what = format!("n {} m {} da {} db {} a {} b {}", n, m, da, db, show(&a), show(&b));
    // copy, copy_min
    let k = n.min(m);
    let mut tb = mk(&b);
    let ret = s.copy_min(tb.slice_mut().drop(db).take(m));
    let mut w = b.clone();
    w[db..db + k].copy_from_slice(&a[da..da + k]);
    ckeq!(ret, k, "copy_min result [{}]", what);
    ckeq!(rdt(&tb), w, "copy_min [{}]", what);
    ckeq!(rdt(&ta), a, "copy_min changed its source [{}]", what);
    let mut tb = mk(&b);
    s.take(k).copy(tb.slice_mut().drop(db).take(k));
    ckeq!(rdt(&tb), w, "copy [{}]", what);
    // zero and fill
    let mut tb = mk(&b);
    tb.slice_mut().drop(db).take(m).set_zero();
    let mut w = b.clone();
    w[db..db + m].iter_mut().for_each(|x| *x = 0);
    ckeq!(rdt(&tb), w, "set_zero [{}]", what);
    let f = r.below(3) as u8;
    let mut tb = mk(&b);
    tb.slice_mut().drop(db).take(m).set_trit(f);
    let mut w = b.clone();
    w[db..db + m].iter_mut().for_each(|x| *x = f);
    ckeq!(rdt(&tb), w, "set_trit [{}]", what);
    // cycle
    let mut tb = mk(&b);
    tb.slice_mut().drop(db).take(m).cycle(s);
    let mut w = b.clone();
    if n > 0 { for i in 0..m { w[db + i] = a[da + i % n]; } }
    ckeq!(rdt(&tb), w, "cycle [{}]", what);
    // clone, chunks
    ckeq!(rdt(&s.clone_trits()), a[da..da + n].to_vec(), "clone_trits [{}]", what);
    ckeq!(rdt(&Trits::from_slice(s)), a[da..da + n].to_vec(), "from_slice [{}]", what);
    ckeq!(rdt(&ta.clone()), a, "clone [{}]", what);
    let c = 1 + r.below(20);
    let got: Vec<Vec<u8>> = s.chunks(c).iter().map(rdt).collect();
    let want: Vec<Vec<u8>> = a[da..da + n].chunks(c).map(|x| x.to_vec()).collect();
    ckeq!(got, want, "chunks({}) [{}]", c, what);
    // equality
    let mut x = a[da..da + n].to_vec();
    if n > 0 && r.coin() { let i = r.below(n); x[i] = (x[i] + 1 + r.below(2) as u8) % 3; }
    let (mut e, de) = window(r, n);
    e[de..de + n].copy_from_slice(&x);
    let te = mk(&e);
    let same = x[..] == a[da..da + n];
    let o = te.slice().drop(de).take(n);
    ckeq!(TritSlice::eq(s, o), same, "eq [{}] {}", what, show(&x));
    ckeq!(s == o, same, "== [{}] {}", what, show(&x));
    ckeq!(s.clone_trits() == o.clone_trits(), same, "Trits == [{}] {}", what, show(&x));
    let mut te2 = mk(&e);
    let mo = te2.slice_mut().drop(de).take(n);
    let mut ta2 = mk(&a);
    let mso = ta2.slice_mut().drop(da).take(n);
    ckeq!(mso == mo, same, "mut == [{}] {}", what, show(&x));
    ckeq!(TritSliceMut::eq(mso, mo), same, "mut eq [{}] {}", what, show(&x));
    let j = r.below(n + 1);
    ckeq!(s.take(j) == o, j == n && same, "== of different sizes [{}] {} {}", what, j, show(&x));
    ckeq!(s.eq_min(o.take(j)), (a[da..da + j] == x[..j], j), "eq_min [{}] {} {}", what, j, show(&x));
    ckeq!(o.take(j).eq_min(s), (a[da..da + j] == x[..j], j), "eq_min [{}] {} {}", what, j, show(&x));
    ckeq!(mso.eq_min(mo.take(j)), (a[da..da + j] == x[..j], j), "mut eq_min [{}] {} {}", what, j, show(&x));
    // zero container
    ckeq!(rdt(&Trits::zero(n)), vec![0u8; n], "zero({})", n);
    ckeq!((Trits::zero(n).size(), Trits::zero(n).is_empty()), (n, n == 0), "zero({}) size", n);
    Ok(())
}

fn c05_alias(r: &mut Rng, _: u64) -> R {
    let len = 1 + r.below(30);
    let v = r.utrits(len);
    let mut t = mk(&v);
    let m = t.slice_mut();
    let s = m.as_const();
    let sub = |r: &mut Rng| { let n = r.below(len + 1); let d = r.below(n + 1); (d, n) };
    let (d1, n1) = sub(r);
    let (d2, n2) = sub(r);
    let (x, y) = (s.take(n1).drop(d1), s.take(n2).drop(d2));
    let (mx, my) = (m.take(n1).drop(d1), m.take(n2).drop(d2));
    // rebased view: same trits, other pointer
    let y2 = TritSlice::from_slice(n2 - d2, &v[d2..n2]);
    let x2 = TritSlice::from_slice(n1, &v[..n1]).drop(d1);
    let what = format!("[{}..{}) [{}..{})", d1, n1, d2, n2);
    ckeq!(x.is_same(y), d1 == d2, "is_same {}", what);
    ckeq!(mx.is_same(my), d1 == d2, "mut is_same {}", what);
    ckeq!(x2.is_same(y2), d1 == d2, "is_same through another base {}", what);
    if d1 < n1 && d2 < n2 {
        let ov = d1 < n2 && d2 < n1;
        ckeq!(x.is_overlapped(y), ov, "is_overlapped {}", what);
        ckeq!(mx.is_overlapped(my), ov, "mut is_overlapped {}", what);
        ckeq!(x2.is_overlapped(y2), ov, "is_overlapped through another base {}", what);
    }
    Ok(())
}

fn c05_arith(r: &mut Rng, _: u64) -> R {
    let n = r.below(60);
    let (a, da) = window(r, n);
    let (b, db) = window(r, n);
    let (c, dc) = window(r, n);
    let (mut ta, mut tb, mut tc) = (mk(&a), mk(&b), mk(&c));
    let which = r.below(4);
    let x = ta.slice_mut().drop(da).take(n);
    let s = tb.slice_mut().drop(db).take(n);
    let y = tc.slice_mut().drop(dc).take(n);
    let (mut wa, mut wb, mut wc) = (a.clone(), b.clone(), c.clone());
    let min = r.coin();
    let k = if min { r.below(n + 1) } else { n };
    let ret;
    match which {
        0 => { ret = if min { x.swap_add_min(s.take(k)) } else { x.swap_add(s); n };
            for i in 0..k { let (u, v) = (a[da + i], b[db + i]); wa[da + i] = (u + v) % 3; wb[db + i] = u; } }
        1 => { ret = if min { x.swap_sub_min(s.take(k)) } else { x.swap_sub(s); n };
            for i in 0..k { let (u, v) = (a[da + i], b[db + i]); let t = (3 + u - v) % 3; wa[da + i] = t; wb[db + i] = t; } }
        2 => { ret = if min { x.as_const().copy_add_min(s.take(k), y) } else { x.as_const().copy_add(s, y); n };
            for i in 0..k { let (u, v) = (a[da + i], b[db + i]); wc[dc + i] = (u + v) % 3; wb[db + i] = u; } }
        _ => { ret = if min { x.as_const().copy_sub_min(s.take(k), y) } else { x.as_const().copy_sub(s, y); n };
            for i in 0..k { let (u, v) = (a[da + i], b[db + i]); let t = (3 + u - v) % 3; wc[dc + i] = t; wb[db + i] = t; } }
    }
    let nm = ["swap_add", "swap_sub", "copy_add", "copy_sub"][which];
    ckeq!(ret, k, "{} count", nm);
    ckeq!((rdt(&ta), rdt(&tb), rdt(&tc)), (wa, wb, wc), "{} n {} k {} at {} {} {} of {} {} {}", nm, n, k, da, db, dc, show(&a), show(&b), show(&c));
    Ok(())
}

fn c06_inc(r: &mut Rng, i: u64) -> R {
    let n = if i < 20 { i as usize } else { r.below(250) };
    let (mut b, d) = window(r, n);
    // long runs of 2 so that carries travel
    let run = r.below(n + 1);
    if r.coin() { for j in 0..run { b[d + j] = 2; } }
    if r.one_in(8) { for j in 0..n { b[d + j] = 2; } }
    let mut w = b.clone();
    let mut ok = false;
    for j in 0..n {
        w[d + j] = (w[d + j] + 1) % 3;
        if w[d + j] != 0 { ok = true; break; }
    }
    let mut t = mk(&b);
    let g = t.slice_mut().drop(d).take(n).inc();
    ckeq!(g, ok, "inc result of {}", show(&b[d..d + n]));
    ckeq!(rdt(&t), w, "inc of {} at {} of {}", show(&b[d..d + n]), d, b.len());
    Ok(())
}

fn c06_cycle(_: &mut Rng, i: u64) -> R {
    let n = i as usize;
    let mut t = mk(&vec![0; n]);
    let mut seen = std::collections::HashSet::new();
    for k in 0..3usize.pow(n as u32) {
        ck!(seen.insert(rdt(&t)), "value repeats after {} increments of {} trits", k, n);
        let ok = t.slice_mut().inc();
        ckeq!(ok, k + 1 < 3usize.pow(n as u32), "inc result after {} increments of {} trits", k, n);
    }
    ckeq!(rdt(&t), vec![0; n], "after wrapping");
    Ok(())
}

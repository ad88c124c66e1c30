use crate::fw::*;
use crate::oracle::Sp;
use crate::t_sponge::{agree, len};
use iota_mam::app::core::MsgId;
use iota_mam::pb3::{self, Absorb, Err as PErr, Mask};
use iota_mam::spongos::Spongos;
use iota_mam::trits::*;
use iota_mam::{mss, ntru};

pub fn tests() -> Vec<Test> {
    vec![
        Test { prop: "C07", name: "c07_sizes", quick: 20000, thorough: 400000, f: c07_sizes },
        Test { prop: "C07", name: "c07_decode", quick: 60000, thorough: 1000000, f: c07_decode },
        Test { prop: "C08", name: "c08_fields", quick: 12000, thorough: 200000, f: c08_fields },
        Test { prop: "C08", name: "c08_guard", quick: 12000, thorough: 200000, f: c08_small_buffer },
        Test { prop: "C09", name: "c09_fields", quick: 100000, thorough: 2000000, f: c09_fields },
        Test { prop: "C11", name: "c11_mac", quick: 10000, thorough: 200000, f: c11_mac },
    ]
}

pub const SIZE_MAX: i128 = 2_026_277_576_509_488_133;

/// Two equal sponges and the reference sponge in the same state.
pub fn states(r: &mut Rng) -> (Spongos, Spongos, Sp) {
    let (mut a, mut b, mut m) = (Spongos::init(), Spongos::init(), Sp::new());
    for _ in 0..r.below(3) {
        let n = len(r);
        let x = r.trits(n);
        a.absorb_trits(&mk(&x));
        b.absorb_trits(&mk(&x));
        m.absorb(&x);
        if r.coin() { a.commit(); b.commit(); m.commit(); }
    }
    (a, b, m)
}

/// canonical size encoding
pub fn size_enc(n: i128) -> Vec<u8> {
    let mut d = 0;
    let mut p: i128 = 1;
    while n > (p - 1) / 2 { p *= 27; d += 1; }
    let mut v = bt(3, d);
    let mut q = n;
    for _ in 0..d {
        let mut t = q.rem_euclid(27);
        if t > 13 { t -= 27; }
        v.extend(bt(3, t as i64));
        q = (q - t) / 27;
    }
    v
}
pub enum Dec { Ok(i128, usize), Bad, Eof }
/// decode a size field: value and length
pub fn size_dec(v: &[u8]) -> Dec {
    if v.len() < 3 { return Dec::Eof; }
    let d = ival(&v[..3]);
    if d < 0 { return Dec::Bad; }
    let d = d as usize;
    if v.len() < 3 + 3 * d { return Dec::Eof; }
    let mut n: i128 = 0;
    for k in (0..d).rev() { n = 27 * n + ival(&v[3 + 3 * k..6 + 3 * k]) as i128; }
    if n < 0 || size_enc(n) != v[..3 + 3 * d] { return Dec::Bad; }
    Dec::Ok(n, 3 + 3 * d)
}

fn some_size(r: &mut Rng) -> i128 {
    let d = r.below(14) as u32;
    let top = ((27i128.pow(d)) - 1) / 2;
    let n = match r.below(5) {
        0 => top,
        1 => top + r.range(-3, 3) as i128,
        2 => r.below(2000) as i128,
        3 => SIZE_MAX - r.below(5) as i128,
        _ => ((r.next() >> 1) as i128 * (r.next() >> 1) as i128).rem_euclid(top + 1),
    };
    n.clamp(0, SIZE_MAX)
}

fn c07_sizes(r: &mut Rng, i: u64) -> R {
    let n = if i < 3000 { i as i128 } else { some_size(r) };
    let want = size_enc(n);
    ckeq!(pb3::sizeof_sizet(n as usize), want.len(), "sizeof_sizet({})", n);
    ckeq!(pb3::Size(n as usize).sizeof(), want.len(), "Size({}).sizeof()", n);
    ckeq!(pb3::sizeof_repeated(n as usize), want.len(), "sizeof_repeated({})", n);
    let f = F { k: K::Size(n as usize), mask: r.coin() };
    roundtrip(r, &[f])
}

fn c07_decode(r: &mut Rng, _: u64) -> R {
    // a field near a canonical one, or random
    let mut v = if r.coin() { size_enc(some_size(r)) } else {
        let d = r.range(-13, 13);
        let mut v = bt(3, d);
        for _ in 0..d.max(0) {
            let t = if r.one_in(4) { 0 } else { r.range(-13, 13) };
            v.extend(bt(3, t));
        }
        v
    };
    match r.below(4) {
        0 => { let k = r.below(v.len()); v[k] = (v[k] + 1 + r.below(2) as u8) % 3; }
        1 => { let k = r.below(v.len() + 1); v.truncate(k); }
        2 => { let h = ival(&v[..3]); if h < 13 { v[..3].copy_from_slice(&bt(3, h + 1)); } let z = if r.coin() { vec![0; 3] } else { r.trits(3) }; v.extend(z); }
        _ => {}
    }
    let tail = if r.coin() { vec![] } else { let k = r.below(10); r.trits(k) };
    v.extend(&tail);
    let (mut a, _, mut m) = states(r);
    let mask = r.coin();
    let plain = v.clone();
    let wire = if mask {
        let mut q = m.clone();
        q.encr(&v)
    } else { v.clone() };
    let (t, d, _) = crate::t_sponge::placed(r, &wire);
    let b0 = t.slice().drop(d).take(wire.len());
    let mut b = b0;
    let got = if mask { pb3::Size::unwrap_mask_sized(&mut a, &mut b) } else { pb3::Size::unwrap_absorb_sized(&mut a, &mut b) };
    let rest = suffix(b0, b, "size")?;
    let what = format!("unwrap {} size field {}", if mask { "masked" } else { "absorbed" }, show(&plain));
    match (size_dec(&plain), got) {
        (Dec::Ok(n, l), Ok(x)) => {
            ckeq!(x.0 as i128, n, "{}", what);
            ckeq!(wire.len() - rest, l, "{}: trits consumed", what);
            m.absorb(&plain[..l]);
            agree(&a, &m, &what)
        }
        (Dec::Ok(n, _), Err(e)) => Err(format!("{}: refused with {:?}, expected {}", what, e, n)),
        (Dec::Bad, Ok(x)) => Err(format!("{}: not canonical but accepted as {}", what, x.0)),
        (Dec::Eof, Ok(x)) => Err(format!("{}: truncated but accepted as {}", what, x.0)),
        (_, Err(_)) => Ok(()),
    }
}

/// the remaining slice must be a suffix of the input
pub fn suffix(b0: TritSlice, b: TritSlice, what: &str) -> Result<usize, String> {
    ck!(b.size() <= b0.size(), "{}: {} trits left of {}", what, b.size(), b0.size());
    ck!(b.is_same(b0.drop(b0.size() - b.size())), "{}: the rest of the buffer is not a suffix of the input", what);
    Ok(b.size())
}

pub fn msspk(v: &[u8]) -> mss::PublicKey {
    let t = mk(v);
    mss::PublicKey::unwrap_absorb_sized(&mut Spongos::init(), &mut t.slice()).unwrap()
}
pub fn msgid(v: &[u8]) -> MsgId {
    let t = mk(v);
    MsgId::unwrap_absorb_sized(&mut Spongos::init(), &mut t.slice()).unwrap()
}
pub fn msspk_trits(k: &mss::PublicKey) -> Vec<u8> {
    let mut t = Trits::zero(243);
    k.wrap_absorb(&mut Spongos::init(), &mut t.slice_mut());
    rdt(&t)
}
thread_local!(pub static NPK: Vec<Vec<u8>> = valid_pks());
fn valid_pks() -> Vec<Vec<u8>> {
    let mut r = Rng(77);
    let mut o = vec![];
    for i in 0..6 {
        loop {
            let mut v = vec![];
            // dense, sparse and extreme coefficients
            for k in 0..1024 {
                let c = match i { 0 => (k == 0) as i64, 1 => if k == 5 { -6144 } else if k == 1023 { 6144 } else { 0 }, 2 => if r.coin() { 6144 } else { -6144 }, _ => r.range(-6144, 6144) };
                v.extend(bt(9, c));
            }
            if ntru::PublicKey::from_trits(mk(&v)).is_some() { o.push(v); break; }
        }
    }
    o
}

#[derive(Clone, Debug)]
pub enum K {
    T3(i8), T6(i16), T9(i16), T18(i32), OneOf(i8), Size(usize), Repeated(usize),
    Trytes(Vec<u8>), NTrytes(Vec<u8>), RawTrits(Vec<u8>), RawTrytes(Vec<u8>), SkipN(Vec<u8>),
    MssPk(Vec<u8>), NtruPk(Vec<u8>), MsgId(Vec<u8>),
    Ext(Vec<u8>), Join(Vec<u8>, Vec<u8>), Mac, Commit,
}
#[derive(Clone, Debug)]
pub struct F { pub k: K, pub mask: bool }

impl F {
    /// the trits the field carries in clear
    pub fn plain(&self) -> Vec<u8> {
        match &self.k {
            K::T3(v) | K::OneOf(v) => bt(3, *v as i64),
            K::T6(v) => bt(6, *v as i64),
            K::T9(v) => bt(9, *v as i64),
            K::T18(v) => bt(18, *v as i64),
            K::Size(n) | K::Repeated(n) => size_enc(*n as i128),
            K::Trytes(x) | K::RawTrytes(x) => { let mut v = size_enc(x.len() as i128 / 3); v.extend(x); v }
            K::NTrytes(x) | K::RawTrits(x) | K::SkipN(x) | K::MssPk(x) | K::NtruPk(x) | K::MsgId(x) => x.clone(),
            K::Ext(_) | K::Commit => vec![],
            K::Join(id, _) => id.clone(),
            K::Mac => vec![0; 243],
        }
    }
    /// reference encoding
    pub fn enc(&self, m: &mut Sp) -> Vec<u8> {
        match &self.k {
            K::Ext(x) => { m.absorb(x); vec![] }
            K::Commit => { m.commit(); vec![] }
            K::Join(id, x) => { let mut q = Sp::new(); q.absorb(x); q.commit(); m.join(&mut q); id.clone() }
            K::Mac => { m.commit(); m.squeeze(243) }
            _ => { let p = self.plain(); if self.mask { m.encr(&p) } else { m.absorb(&p); p } }
        }
    }
    pub fn sizeof(&self) -> usize {
        match &self.k {
            K::T3(_) => pb3::sizeof_tryte(),
            K::OneOf(_) => pb3::sizeof_oneof(),
            K::T6(_) => pb3::sizeof_trint(),
            K::T9(_) => pb3::sizeof_trint9(),
            K::T18(_) => <pb3::Trint18 as pb3::TrintField>::sizeof(),
            K::Size(n) => pb3::sizeof_sizet(*n),
            K::Repeated(n) => pb3::sizeof_repeated(*n),
            K::Trytes(x) => pb3::Trytes::sizeof(x.len() / 3),
            K::RawTrytes(x) => pb3::sizeof_trytes(x.len() / 3),
            K::NTrytes(x) | K::RawTrits(x) | K::SkipN(x) => if x.len() % 3 == 0 { pb3::sizeof_ntrytes(x.len() / 3) } else { x.len() },
            K::MssPk(_) => mss::PK_SIZE,
            K::NtruPk(_) => ntru::PK_SIZE,
            K::MsgId(_) => iota_mam::app::core::MSGID_SIZE,
            K::Ext(_) | K::Commit => 0,
            K::Join(..) => pb3::join::sizeof_join(),
            K::Mac => pb3::mac::sizeof_mac(),
        }
    }
    pub fn wrap(&self, s: &mut Spongos, b: &mut TritSliceMut) {
        macro_rules! w { ($x:expr) => { if self.mask { $x.wrap_mask(s, b) } else { $x.wrap_absorb(s, b) } } }
        match &self.k {
            K::T3(v) => w!(pb3::Trint3(*v)),
            K::OneOf(v) => w!(pb3::oneof(*v)),
            K::T6(v) => w!(pb3::Trint6(*v)),
            K::T9(v) => w!(pb3::Trint9(*v)),
            K::T18(v) => w!(pb3::Trint18(*v)),
            K::Size(n) => w!(pb3::Size(*n)),
            K::Repeated(n) => w!(pb3::repeated(*n)),
            K::Trytes(x) => w!(pb3::Trytes(mk(x))),
            K::NTrytes(x) => w!(mk(x)),
            K::SkipN(x) => pb3::wrap_absorb_trits(mk(x).slice(), s, b),
            K::RawTrits(x) => if self.mask { pb3::wrap_mask_trits(mk(x).slice(), s, b) } else { pb3::wrap_absorb_trits(mk(x).slice(), s, b) },
            K::RawTrytes(x) => if self.mask { pb3::wrap_mask_trytes(&mk(x), s, b) } else { pb3::wrap_absorb_trytes(&mk(x), s, b) },
            K::MssPk(x) => w!(msspk(x)),
            K::NtruPk(x) => w!(ntru::PublicKey::from_trits(mk(x)).unwrap()),
            K::MsgId(x) => msgid(x).wrap_absorb(s, b),
            K::Ext(x) => s.absorb(mk(x).slice()),
            K::Commit => s.commit(),
            K::Join(id, x) => { let mut q = Spongos::init(); q.absorb_trits(&mk(x)); q.commit(); pb3::join::wrap_join(mk(id).slice(), &mut q, s, b) }
            K::Mac => pb3::mac::wrap_mac(s, b),
        }
    }
    /// unwrap a field of this shape; true if the value equals this one
    pub fn unwrap(&self, r: &mut Rng, s: &mut Spongos, b: &mut TritSlice) -> pb3::Result<bool> {
        let inplace = r.coin();
        macro_rules! u { ($t:ty, $init:expr) => {{
            if inplace { let mut x: $t = $init; if self.mask { x.unwrap_mask(s, b)? } else { x.unwrap_absorb(s, b)? }; x }
            else if self.mask { <$t>::unwrap_mask_sized(s, b)? } else { <$t>::unwrap_absorb_sized(s, b)? }
        }} }
        Ok(match &self.k {
            K::T3(v) => u!(pb3::Trint3, pb3::Trint3(1)).0 == *v,
            K::OneOf(v) => u!(pb3::OneOf, pb3::oneof(1)).0 == *v,
            K::T6(v) => u!(pb3::Trint6, pb3::Trint6(1)).0 == *v,
            K::T9(v) => u!(pb3::Trint9, pb3::Trint9(1)).0 == *v,
            K::T18(v) => u!(pb3::Trint18, pb3::Trint18(1)).0 == *v,
            K::Size(n) => u!(pb3::Size, pb3::Size(1)).0 == *n,
            K::Repeated(n) => u!(pb3::Repeated, pb3::repeated(1)).0 == *n,
            K::Trytes(x) => rdt(&u!(pb3::Trytes, pb3::Trytes(mk(&[1, 1, 1]))).0) == *x,
            K::NTrytes(x) => { let mut t = mk(&vec![1; x.len()]); if self.mask { t.unwrap_mask(s, b)? } else { t.unwrap_absorb(s, b)? }; rdt(&t) == *x }
            K::RawTrits(x) => {
                let mut t = mk(&vec![1; x.len()]);
                if self.mask { pb3::unwrap_mask_trits(t.slice_mut(), s, b)? } else { pb3::unwrap_absorb_trits(t.slice_mut(), s, b)? };
                rdt(&t) == *x
            }
            K::SkipN(x) => { pb3::unwrap_absorb_n(x.len(), s, b)?; true }
            K::RawTrytes(x) => rdt(&if self.mask { pb3::unwrap_mask_trytes(s, b)? } else { pb3::unwrap_absorb_trytes(s, b)? }) == *x,
            K::MssPk(x) => msspk_trits(&u!(mss::PublicKey, msspk(&[1; 243]))) == *x,
            K::NtruPk(x) => {
                let k = u!(ntru::PublicKey, NPK.with(|n| ntru::PublicKey::from_trits(mk(&n[0])).unwrap()));
                rd(k.trits()) == *x
            }
            K::MsgId(x) => u!(MsgIdW, MsgIdW(msgid(&[1; 81]))).0 == msgid(x),
            K::Ext(x) => { s.absorb(mk(x).slice()); true }
            K::Commit => { s.commit(); true }
            K::Join(id, x) => pb3::join::unwrap_join(|i: TritSlice| if rd(i) == *id { let mut q = Spongos::init(); q.absorb_trits(&mk(x)); q.commit(); Some((q, 17u8)) } else { None }, s, b)? == 17,
            K::Mac => { pb3::mac::unwrap_mac(s, b)?; true }
        })
    }
}
/// MsgId has no masked form
pub struct MsgIdW(MsgId);
impl Absorb for MsgIdW {
    fn wrap_absorb(&self, s: &mut Spongos, b: &mut TritSliceMut) { self.0.wrap_absorb(s, b) }
    fn unwrap_absorb(&mut self, s: &mut Spongos, b: &mut TritSlice) -> pb3::Result<()> { self.0.unwrap_absorb(s, b) }
    fn unwrap_absorb_sized(s: &mut Spongos, b: &mut TritSlice) -> pb3::Result<Self> { Ok(MsgIdW(MsgId::unwrap_absorb_sized(s, b)?)) }
}
impl Mask for MsgIdW {
    fn wrap_mask(&self, _: &mut Spongos, _: &mut TritSliceMut) {}
    fn unwrap_mask_sized(_: &mut Spongos, _: &mut TritSlice) -> pb3::Result<Self> { Err(PErr::InternalError) }
}

pub fn field(r: &mut Rng) -> F {
    let n = match r.below(4) { 0 => r.below(4), 1 => 160 + r.below(4), _ => r.below(300) };
    let x3 = r.trits(3 * n);
    let k = match r.below(24) {
        0 => K::T3(r.range(-13, 13) as i8),
        1 => K::OneOf(r.range(-13, 13) as i8),
        2 => K::T6(r.range(-364, 364) as i16),
        3 => K::T9(r.range(-9841, 9841) as i16),
        4 | 5 => K::T18(match r.below(3) { 0 => 193_710_244, 1 => -193_710_244, _ => r.range(-193_710_244, 193_710_244) as i32 }),
        6 => K::Size(some_size(r) as usize),
        7 => K::Repeated(some_size(r) as usize),
        8 | 9 => K::Trytes(x3),
        10 | 11 => K::NTrytes(r.trits(n)),
        12 => K::RawTrits(r.trits(n)),
        13 | 14 => K::RawTrytes(x3),
        15 => K::SkipN(r.trits(n)),
        16 => K::MssPk(r.trits(243)),
        17 => if r.one_in(8) { let i = r.below(6); K::NtruPk(NPK.with(|n| n[i].clone())) } else { K::Commit },
        18 => K::MsgId(r.trits(81)),
        19 => K::Ext(r.trits(n)),
        20 => K::Join(r.trits(81), r.trits(n)),
        21 | 22 => K::Mac,
        _ => K::Commit,
    };
    let mask = r.coin() && !matches!(k, K::SkipN(_) | K::MsgId(_));
    F { k, mask }
}

fn brief(fs: &[F]) -> String {
    let s: Vec<String> = fs.iter().map(|f| { let s = format!("{:?}", f.k); format!("{}{}", if f.mask { "mask " } else { "" }, if s.len() > 40 { format!("{}..({} trits)", &s[..30], f.plain().len()) } else { s }) }).collect();
    s.join(", ")
}

/// wrap and unwrap a sequence of fields against the reference encoding
fn roundtrip(r: &mut Rng, fs: &[F]) -> R {
    let (mut w, mut u, mut m) = states(r);
    let what = brief(fs);
    let total: usize = fs.iter().map(|f| f.sizeof()).sum();
    let (d, e) = (r.below(20), r.below(20));
    let bg = r.trits(d + total + e);
    let mut buf = mk(&bg);
    let mut want = vec![];
    let mut ends = vec![];
    {
        let b0 = buf.slice_mut().drop(d);
        let mut b = b0;
        for (i, f) in fs.iter().enumerate() {
            let before = b.size();
            f.wrap(&mut w, &mut b);
            ckeq!(before - b.size(), f.sizeof(), "field {} of {}: trits the buffer was advanced by when wrapping", i, what);
            ck!(b.as_const().is_same(b0.as_const().drop(b0.size() - b.size())), "field {} of {}: buffer not advanced in place", i, what);
            want.extend(f.enc(&mut m));
            ends.push(m.clone());
        }
    }
    ckeq!(want.len(), total, "{}: announced size", what);
    let g = rdt(&buf);
    ck!(g[..d] == bg[..d] && g[d + total..] == bg[d + total..], "{}: wrapping changed trits outside the field", what);
    ck!(g[d..d + total] == want[..], "{}: wrapped as {}, expected {}", what, show(&g[d..d + total]), show(&want));
    agree(&w, &m, &format!("{}: writer", what))?;
    let b0 = buf.slice().drop(d);
    let mut b = b0;
    for (i, f) in fs.iter().enumerate() {
        let before = b.size();
        match f.unwrap(r, &mut u, &mut b) {
            Ok(eq) => ck!(eq, "field {} of {}: unwrapped value differs", i, what),
            Err(x) => return Err(format!("field {} of {}: unwrap failed with {:?}", i, what, x)),
        }
        ckeq!(before - b.size(), f.sizeof(), "field {} of {}: trits consumed when unwrapping", i, what);
        suffix(b0, b, &what)?;
        if i + 1 == fs.len() || r.one_in(3) { agree(&u, &ends[i], &format!("reader after field {} of {}", i, what))?; }
    }
    ckeq!(rdt(&buf), g, "{}: unwrapping changed the buffer", what);
    Ok(())
}

fn c08_fields(r: &mut Rng, _: u64) -> R {
    let mut fs = vec![];
    for _ in 0..1 + r.below(4) { fs.push(field(r)); }
    roundtrip(r, &fs)
}

/// a field whose buffer is exactly its size wraps and unwraps; one trit less is refused when unwrapping
fn c08_small_buffer(r: &mut Rng, _: u64) -> R {
    let f = field(r);
    let n = f.sizeof();
    let (mut w, mut u, _) = states(r);
    let mut v = u.fork();
    let mut buf = Trits::zero(n);
    let mut b = buf.slice_mut();
    f.wrap(&mut w, &mut b);
    ckeq!(b.size(), 0, "{:?}: trits left of an exactly sized buffer", f.k);
    let mut b = buf.slice();
    ckeq!(f.unwrap(r, &mut u, &mut b), Ok(true), "{:?} from an exactly sized buffer", f.k);
    if n > 0 {
        let k = if r.coin() { n - 1 } else { r.below(n) };
        let b0 = buf.slice().take(k);
        let mut b = b0;
        let g = f.unwrap(r, &mut v, &mut b);
        ckeq!(g, Err(PErr::Eof), "{:?} from {} of its {} trits", f.k, k, n);
        suffix(b0, b, "short buffer")?;
    }
    Ok(())
}

/// largest allowed single allocation while reading `n` trits: fixed scratch plus what the buffer can hold
pub fn alloc_limit(n: usize) -> usize { 40_000 + 3 * n }

fn c09_fields(r: &mut Rng, _: u64) -> R {
    // read one field shape from a damaged encoding of another, or from random trits
    let f = field(r);
    let (mut w, mut u, _) = states(r);
    let mut v = match r.below(4) {
        0 => { let n = r.below(60); r.trits(n) }
        1 => {
            // huge or odd announced size followed by few trits
            let mut v = F { k: K::Size(some_size(r) as usize), mask: false }.plain();
            let n = r.below(60);
            v.extend(r.trits(n));
            if f.mask { let (t, x) = (mk(&v), ()); let _ = x; v = rdt(&w.encr_trits(&t)); }
            v
        }
        _ => {
            let g = if r.coin() { f.clone() } else { field(r) };
            let mut t = Trits::zero(g.sizeof());
            g.wrap(&mut w, &mut t.slice_mut());
            rdt(&t)
        }
    };
    if !v.is_empty() {
        match r.below(4) {
            0 => { let k = r.below(v.len() + 1); v.truncate(k); }
            1 => { let k = r.below(v.len().min(45)); v[k] = (v[k] + 1 + r.below(2) as u8) % 3; }
            2 => { let k = r.below(v.len()); v.remove(k); }
            _ => {}
        }
    }
    let (t, d, all) = crate::t_sponge::placed(r, &v);
    let b0 = t.slice().drop(d).take(v.len());
    let mut b = b0;
    let name = format!("reading {} from {}", brief(&[f.clone()]), show(&v));
    alloc_reset();
    let g = f.unwrap(r, &mut u, &mut b);
    let peak = alloc_peak();
    let rest = suffix(b0, b, &name)?;
    ckeq!(rdt(&t), all, "{}: the input buffer changed", name);
    ck!(peak <= alloc_limit(v.len() + f.sizeof()) || matches!(f.k, K::Size(_)), "{}: allocated {} bytes for {} trits", name, peak, v.len());
    let fixed = !matches!(f.k, K::Size(_) | K::Repeated(_) | K::Trytes(_) | K::RawTrytes(_));
    if fixed && g.is_ok() { ckeq!(v.len() - rest, f.sizeof(), "{}: trits consumed", name); }
    if fixed && v.len() < f.sizeof() { ck!(g.is_err(), "{}: accepted although truncated", name); }
    Ok(())
}

/// a tag is accepted exactly when it equals what the transcript's sponge squeezes
fn c11_mac(r: &mut Rng, _: u64) -> R {
    let (mut w, mut u, mut m) = states(r);
    let mut q = m.clone();
    q.commit();
    let good = q.squeeze(243);
    let mut buf = Trits::zero(243);
    pb3::mac::wrap_mac(&mut w, &mut buf.slice_mut());
    ckeq!(show(&rdt(&buf)), show(&good), "tag");
    let mut tag = good.clone();
    let what = match r.below(5) {
        0 => "genuine tag".to_string(),
        1 => { let k = match r.below(4) { 0 => 0, 1 => 242, _ => r.below(243) }; tag[k] = (tag[k] + 1 + r.below(2) as u8) % 3; format!("tag altered at trit {}", k) }
        2 => {
            // another transcript: one more or one changed trit, or none committed
            let x = [r.below(3) as u8];
            let pos = m.pos;
            u.absorb_trits(&mk(&x));
            m.absorb(&x);
            let mut q = m.clone();
            q.commit();
            if q.squeeze(243) == good { return Ok(()); }
            format!("tag of a transcript one trit shorter (position {})", pos)
        }
        3 => { let n = r.below(243); tag.truncate(n); format!("tag truncated to {} trits", n) }
        _ => { let i = r.below(243); let j = r.below(243); tag.swap(i, j); "tag with two trits exchanged".into() }
    };
    let mut q = m.clone();
    q.commit();
    let expect = tag == q.squeeze(243);
    let (t, d, _) = crate::t_sponge::placed(r, &tag);
    let b0 = t.slice().drop(d).take(tag.len());
    let mut b = b0;
    let g = pb3::mac::unwrap_mac(&mut u, &mut b);
    ck!(g.is_ok() == expect, "unwrap_mac of a {}: {:?}", what, g);
    suffix(b0, b, "mac")?;
    if expect { agree(&u, &q, "reader after the tag")?; }
    Ok(())
}

use crate::fw::*;
use crate::oracle::Sp;
use crate::t_pb3::{alloc_limit, msgid, msspk_trits, size_enc, states, suffix};
use crate::t_sponge::{agree, placed};
use iota_mam::app::channel::msg::{announce, change_key, keyload, signed_packet, subscribe, tagged_packet, unsubscribe};
use iota_mam::app::core::MsgId;
use iota_mam::pb3::{self, Err as PErr};
use iota_mam::prng::PRNG;
use iota_mam::spongos::Spongos;
use iota_mam::trits::*;
use iota_mam::{mss, ntru};
use std::collections::HashMap;

pub fn tests() -> Vec<Test> {
    vec![
        Test { prop: "C10", name: "c10_messages", quick: 1600, thorough: 30000, f: c10_messages },
        Test { prop: "C10", name: "c10_codeword", quick: 400, thorough: 4000, f: c11_transcript },
        Test { prop: "C11", name: "c11_transcript", quick: 1600, thorough: 30000, f: c11_transcript },
        Test { prop: "C11", name: "c11_tamper", quick: 3000, thorough: 60000, f: c11_tamper },
        Test { prop: "C11", name: "c11_wrong_key", quick: 800, thorough: 16000, f: c11_wrong_key },
        Test { prop: "C11", name: "c11_mssig", quick: 400, thorough: 8000, f: c11_mssig },
        Test { prop: "C11", name: "c11_kem", quick: 800, thorough: 16000, f: c11_kem },
        Test { prop: "C09", name: "c09_messages", quick: 6000, thorough: 120000, f: c09_messages },
    ]
}

struct Pool { mss: Vec<mss::PrivateKey>, ntru: Vec<(ntru::PrivateKey, ntru::PublicKey)> }
thread_local!(static POOL: Pool = pool());
fn pool() -> Pool {
    let p = PRNG::init_trits(&mk(&(0..243).map(|i| (i * i % 3) as u8).collect::<Vec<_>>()));
    let n = |i: usize| mk(&bt(5, i as i64));
    let mut mss: Vec<mss::PrivateKey> = [0, 1, 2, 1, 0].iter().enumerate().map(|(i, h)| mss::PrivateKey::gen(&p, n(i).slice(), *h)).collect();
    mss[2].next();
    mss[2].next();
    mss[3].next();
    Pool { mss, ntru: (0..5).map(|i| ntru::gen(&p, n(10 + i).slice())).collect() }
}
fn msk(i: usize) -> mss::PrivateKey { POOL.with(|p| p.mss[i].clone()) }
fn nsk(i: usize) -> ntru::PrivateKey { POOL.with(|p| p.ntru[i].0.clone()) }
pub fn npk(i: usize) -> ntru::PublicKey { POOL.with(|p| p.ntru[i].1.clone()) }

#[derive(Clone, Debug)]
enum M {
    Header { typ: Vec<u8>, app: Vec<u8> },
    Announce { sk: usize, nk: Option<usize> },
    ChangeKey { sk: usize, old: usize },
    /// pre-shared keys and NTRU keys of the recipients; which of them this recipient holds
    Keyload { nonce: Vec<u8>, key: Vec<u8>, psks: Vec<(Vec<u8>, Vec<u8>)>, nks: Vec<usize>, have_psk: Vec<usize>, have_nk: Vec<usize>, rnd: Vec<u8> },
    Signed { pub_: Vec<u8>, mask: Vec<u8>, sk: usize },
    Tagged { pub_: Vec<u8>, mask: Vec<u8> },
    Subscribe { rnd: Vec<u8>, nonce: Vec<u8>, sub: usize, ch: usize },
    Unsubscribe { sub: usize },
}
/// a message with its link and the linked sponge's history
#[derive(Clone, Debug)]
struct Msg { m: M, id: Vec<u8>, link: Vec<u8> }

const HOOKS: bool = cfg!(verif_hooks);
#[cfg(verif_hooks)]
fn appinst(v: &[u8]) -> iota_mam::app::core::AppInst { iota_mam::app::core::AppInst::verif_new(mk(v)) }

fn payload(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(5) { 0 => 0, 1 => 1 + r.below(3), 2 => 13 + r.below(3), 3 => 155 + r.below(15), _ => r.below(400) };
    r.trits(3 * n)
}
fn message(r: &mut Rng) -> Msg {
    let m = match r.below(12) {
        0 if HOOKS => { let n = r.below(30); M::Header { typ: r.trits(3 * n), app: r.trits(243) } }
        0 | 1 | 2 => M::Tagged { pub_: payload(r), mask: payload(r) },
        3 => M::Announce { sk: r.below(5), nk: if r.coin() { Some(r.below(5)) } else { None } },
        4 => { let a = r.below(5); M::ChangeKey { sk: a, old: (a + 1 + r.below(4)) % 5 } }
        5 | 6 | 7 => {
            let np = r.below(5);
            let nn = if r.coin() { 0 } else { r.below(4) };
            let mut psks = vec![];
            for i in 0..np { let mut id = r.trits(81); id[..3].copy_from_slice(&bt(3, i as i64)); psks.push((id, r.trits(243))); }
            let have_psk = (0..np).filter(|_| r.one_in(3)).collect();
            let have_nk = (0..nn).filter(|_| r.coin()).collect();
            M::Keyload { nonce: r.trits(81), key: r.trits(243), psks, nks: (0..nn).map(|i| (i + 1) % 5).collect(), have_psk, have_nk, rnd: r.utrits(243) }
        }
        8 => M::Signed { pub_: payload(r), mask: payload(r), sk: r.below(5) },
        9 | 10 => { let a = r.below(5); let n = r.below(60); M::Subscribe { rnd: r.utrits(243), nonce: r.utrits(n), sub: (a + 1) % 5, ch: a } }
        _ => M::Unsubscribe { sub: r.below(5) },
    };
    let n = r.below(600);
    Msg { m, id: r.trits(81), link: r.trits(n) }
}

fn pairs(psks: &[(Vec<u8>, Vec<u8>)]) -> Vec<(Trits, Trits)> { psks.iter().map(|(a, b)| (mk(a), mk(b))).collect() }
fn nkeys(nks: &[usize]) -> Vec<(Trits, ntru::PublicKey)> { nks.iter().map(|k| { let k = npk(*k); (k.id().clone_trits(), k) }).collect() }

impl Msg {
    fn name(&self) -> String {
        match &self.m {
            M::Header { typ, .. } => format!("header with type of {} trytes", typ.len() / 3),
            M::Announce { sk, nk } => format!("announce with key {} and ntru key {:?}", sk, nk),
            M::ChangeKey { sk, old } => format!("change key to {} signed by {}", sk, old),
            M::Keyload { psks, nks, have_psk, have_nk, .. } => format!("keyload for {} psks and {} ntru keys, recipient holds psks {:?} and ntru keys {:?}", psks.len(), nks.len(), have_psk, have_nk),
            M::Signed { pub_, mask, sk } => format!("signed packet with {}+{} trytes by key {}", pub_.len() / 3, mask.len() / 3, sk),
            M::Tagged { pub_, mask } => format!("tagged packet with {}+{} trytes", pub_.len() / 3, mask.len() / 3),
            M::Subscribe { sub, ch, .. } => format!("subscribe with key {} to channel {}", sub, ch),
            M::Unsubscribe { sub } => format!("unsubscribe of key {}", sub),
        }
    }
    fn slink(&self) -> Spongos { let mut s = Spongos::init(); s.absorb_trits(&mk(&self.link)); s.commit(); s }
    fn sizeof(&self) -> usize {
        match &self.m {
            M::Header { typ, .. } => iota_mam::app::core::msg::header::sizeof(typ.len() / 3),
            M::Announce { sk, nk } => announce::sizeof(&msk(*sk), nk.is_some()),
            M::ChangeKey { sk, old } => change_key::sizeof(&msk(*sk), &msk(*old)),
            M::Keyload { psks, nks, .. } => { let (p, n) = (pairs(psks), nkeys(nks)); keyload::sizeof(&mut p.iter().map(|(a, b)| (a, b)), &mut n.iter().map(|(a, b)| (a, b))) }
            M::Signed { pub_, mask, sk } => signed_packet::sizeof(pub_.len() / 3, mask.len() / 3, &msk(*sk)),
            M::Tagged { pub_, mask } => tagged_packet::sizeof(pub_.len() / 3, mask.len() / 3),
            M::Subscribe { .. } => subscribe::sizeof(),
            M::Unsubscribe { .. } => unsubscribe::sizeof(),
        }
    }
    fn wrap(&self, s: &mut Spongos, b: &mut TritSliceMut) {
        let id = mk(&self.id);
        let mut l = self.slink();
        match &self.m {
            #[cfg(verif_hooks)]
            M::Header { typ, app } => iota_mam::app::core::msg::header::wrap(&pb3::Trytes(mk(typ)), &appinst(app), &msgid(&self.id), s, b),
            #[cfg(not(verif_hooks))]
            M::Header { .. } => unreachable!(),
            M::Announce { sk, nk } => announce::wrap(&msk(*sk), &nk.map(npk), s, b),
            M::ChangeKey { sk, old } => change_key::wrap(id.slice(), &mut l, &msk(*sk), &msk(*old), s, b),
            M::Keyload { nonce, key, psks, nks, rnd, .. } => {
                let (p, n) = (pairs(psks), nkeys(nks));
                keyload::wrap(id.slice(), &mut l, &mk(nonce), &mut p.iter().map(|(a, b)| (a, b)), &mut n.iter().map(|(a, b)| (a, b)), &PRNG::init_trits(&mk(rnd)), &mk(key), s, b)
            }
            M::Signed { pub_, mask, sk } => signed_packet::wrap(&msgid(&self.id), &mut l, &pb3::Trytes(mk(pub_)), &pb3::Trytes(mk(mask)), &msk(*sk), s, b),
            M::Tagged { pub_, mask } => tagged_packet::wrap(&msgid(&self.id), &mut l, &pb3::Trytes(mk(pub_)), &pb3::Trytes(mk(mask)), s, b),
            M::Subscribe { rnd, nonce, sub, ch } => subscribe::wrap(id.slice(), &mut l, &PRNG::init_trits(&mk(rnd)), mk(nonce).slice(), &npk(*sub), &npk(*ch), s, b),
            M::Unsubscribe { .. } => unsubscribe::wrap(id.slice(), &mut l, s, b),
        }
    }
    fn look<T: Clone>(&self, x: T) -> impl Fn(TritSlice) -> Option<(Spongos, T)> {
        let (id, l) = (self.id.clone(), self.slink());
        move |i: TritSlice| if rd(i) == id { Some((l.clone(), x.clone())) } else { None }
    }
    /// what the recipient gets: whether the contents equal those of this message
    fn unwrap(&self, variant: bool, s: &mut Spongos, b: &mut TritSlice) -> pb3::Result<bool> {
        Ok(match &self.m {
            #[cfg(verif_hooks)]
            M::Header { typ, app } => rdt(&iota_mam::app::core::msg::header::unwrap(&appinst(app), &msgid(&self.id), s, b)?.0) == *typ,
            #[cfg(not(verif_hooks))]
            M::Header { .. } => unreachable!(),
            M::Announce { sk, nk } => {
                let (a, n) = announce::unwrap(s, b)?;
                a == *msk(*sk).public_key() && n == nk.map(npk)
            }
            M::ChangeKey { sk, old } => change_key::unwrap(changer(self.look(msk(*old).public_key().clone())), s, b)? == *msk(*sk).public_key(),
            M::Keyload { psks, nks, have_psk, have_nk, .. } => {
                let p: HashMap<Trits, Trits> = have_psk.iter().map(|i| (mk(&psks[*i].0), mk(&psks[*i].1))).collect();
                let n: HashMap<Trits, ntru::PrivateKey> = have_nk.iter().map(|i| (npk(nks[*i]).id().clone_trits(), nsk(nks[*i]))).collect();
                keyload::unwrap(self.look(()), &p, &n, s, b)?;
                true
            }
            M::Signed { pub_, mask, sk } => {
                let (p, m) = if variant {
                    signed_packet::unwrap_verify(self.look(()), msk(*sk).public_key(), s, b)?
                } else {
                    let (k, p, m) = signed_packet::unwrap_recover(self.look(()), s, b)?;
                    if k != *msk(*sk).public_key() { return Ok(false); }
                    (p, m)
                };
                rdt(&p.0) == *pub_ && rdt(&m.0) == *mask
            }
            M::Tagged { pub_, mask } => { let (p, m) = tagged_packet::unwrap(self.look(()), s, b)?; rdt(&p.0) == *pub_ && rdt(&m.0) == *mask }
            M::Subscribe { sub, ch, .. } => subscribe::unwrap(self.look(()), &nsk(*ch), s, b)? == npk(*sub),
            M::Unsubscribe { sub } => unsubscribe::unwrap(self.look(npk(*sub)), s, b)? == npk(*sub),
        })
    }
    fn holds_key(&self) -> bool { match &self.m { M::Keyload { have_psk, have_nk, .. } => !have_psk.is_empty() || !have_nk.is_empty(), _ => true } }
    /// altering any trit must be detected
    fn authentic(&self) -> bool { !matches!(self.m, M::Keyload { .. } | M::Header { .. }) }
    /// reference encoding from the sponge reference, with signatures and capsules made by the library
    fn reference(&self, m: &mut Sp) -> Vec<u8> {
        let mut o = vec![];
        let mut l = Sp::new();
        l.absorb(&self.link);
        l.commit();
        fn put(m: &mut Sp, o: &mut Vec<u8>, x: &[u8]) { m.absorb(x); o.extend(x); }
        fn hide(m: &mut Sp, o: &mut Vec<u8>, x: &[u8]) { let y = m.encr(x); o.extend(y); }
        fn sized(x: &[u8]) -> Vec<u8> { let mut v = size_enc(x.len() as i128 / 3); v.extend(x); v }
        fn sign(sk: usize, h: &[u8], o: &mut Vec<u8>) {
            let k = msk(sk);
            let mut t = Trits::zero(mss::sig_size(k.height()));
            k.sign(mk(h).slice(), t.slice_mut());
            o.extend(rdt(&t));
        }
        fn tag(m: &mut Sp, n: usize) -> Vec<u8> { m.commit(); m.squeeze(n) }
        fn kem(m: &mut Sp, o: &mut Vec<u8>, pk: usize, rnd: &[u8], nonce: &[u8], key: &[u8]) {
            let pk = npk(pk);
            let mut seed = rnd.to_vec();
            seed.extend(rd(pk.trits()));
            seed.extend(key);
            seed.extend(nonce);
            let h: Vec<i64> = rd(pk.trits()).chunks(9).map(ival).collect();
            let x: Vec<i64> = crate::t_mss::hash(&seed, 1024).iter().map(|t| tv(*t)).collect();
            let rh = crate::t_ntru::ring_mul(&h, &x);
            m.absorb(&rh.iter().flat_map(|c| bt(9, *c)).collect::<Vec<_>>());
            m.commit();
            let mut k = m.encr(key);
            k.extend(m.squeeze(1024 - 243));
            for j in 0..1024 { o.extend(bt(9, crate::t_ntru::cent(rh[j] + tv(k[j])))); }
        }
        if !matches!(self.m, M::Header { .. } | M::Announce { .. }) { m.join(&mut l); o.extend(&self.id); }
        match &self.m {
            M::Header { typ, app } => { put(m, &mut o, &[1, 0, 0]); put(m, &mut o, &sized(typ)); m.absorb(app); m.absorb(&self.id); }
            M::Announce { sk, nk } => {
                put(m, &mut o, &msspk_trits(msk(*sk).public_key()));
                put(m, &mut o, &[nk.is_some() as u8, 0, 0]);
                if let Some(k) = nk { put(m, &mut o, &rd(npk(*k).trits())); }
                let h = tag(m, 234);
                sign(*sk, &h, &mut o);
            }
            M::ChangeKey { sk, old } => {
                put(m, &mut o, &msspk_trits(msk(*sk).public_key()));
                let h = tag(m, 234);
                sign(*sk, &h, &mut o);
                sign(*old, &h, &mut o);
            }
            M::Keyload { nonce, key, psks, nks, rnd, .. } => {
                put(m, &mut o, nonce);
                put(m, &mut o, &size_enc(psks.len() as i128));
                for (id, k) in psks { let mut f = m.clone(); put(&mut f, &mut o, id); f.absorb(k); f.commit(); hide(&mut f, &mut o, key); }
                put(m, &mut o, &size_enc(nks.len() as i128));
                for k in nks { let mut f = m.clone(); put(&mut f, &mut o, &rd(npk(*k).id())); kem(&mut f, &mut o, *k, rnd, nonce, key); }
                m.absorb(key);
                m.commit();
            }
            M::Signed { pub_, mask, sk } => { put(m, &mut o, &sized(pub_)); hide(m, &mut o, &sized(mask)); let h = tag(m, 234); sign(*sk, &h, &mut o); }
            M::Tagged { pub_, mask } => { put(m, &mut o, &sized(pub_)); hide(m, &mut o, &sized(mask)); o.extend(tag(m, 243)); }
            M::Subscribe { rnd, nonce, sub, ch } => {
                let mut seed = rnd.clone();
                seed.extend(nonce);
                let key = crate::t_mss::hash(&seed, 243);
                kem(m, &mut o, *ch, rnd, nonce, &key);
                m.commit();
                hide(m, &mut o, &rd(npk(*sub).trits()));
                o.extend(tag(m, 243));
            }
            M::Unsubscribe { .. } => o.extend(tag(m, 243)),
        }
        o
    }
}
/// change_key wants a lookup for every lifetime
fn changer<F: for<'b> Fn(TritSlice<'b>) -> Option<(Spongos, mss::PublicKey)>>(f: F) -> F { f }

fn future(a: &Spongos) -> (Vec<u8>, Vec<u8>) {
    let mut f = a.fork();
    let x = rdt(&f.squeeze_trits(500));
    let mut f = a.fork();
    f.absorb_trits(&mk(&[1]));
    f.commit();
    (x, rdt(&f.squeeze_trits(486)))
}

fn c10_messages(r: &mut Rng, _: u64) -> R {
    let x = message(r);
    let what = x.name();
    let (mut w, mut u, _) = states(r);
    let n = x.sizeof();
    let (d, e) = (r.below(20), r.below(20));
    let bg = r.trits(d + n + e);
    let mut t = mk(&bg);
    {
        let b0 = t.slice_mut().drop(d);
        let mut b = b0;
        x.wrap(&mut w, &mut b);
        ckeq!(b0.size() - b.size(), n, "{}: trits written, against the announced size", what);
        ck!(b.as_const().is_same(b0.as_const().drop(n)), "{}: buffer not advanced in place", what);
    }
    let g = rdt(&t);
    ck!(g[..d] == bg[..d] && g[d + n..] == bg[d + n..], "{}: wrapping changed trits outside the message", what);
    // a second message that only just fits
    {
        let mut w2 = u.fork();
        let mut t2 = Trits::zero(n);
        let mut b = t2.slice_mut();
        x.wrap(&mut w2, &mut b);
        ckeq!(b.size(), 0, "{}: trits left of an exactly sized buffer", what);
        ck!(rdt(&t2)[..] == g[d..d + n], "{}: two wraps from equal states differ", what);
    }
    let exact = r.coin();
    let b0 = if exact { t.slice().drop(d).take(n) } else { t.slice().drop(d) };
    let mut b = b0;
    let got = x.unwrap(r.coin(), &mut u, &mut b);
    suffix(b0, b, &what)?;
    if !x.holds_key() {
        ckeq!(got, Err(PErr::KeyNotFound), "{}", what);
        return Ok(());
    }
    ckeq!(got, Ok(true), "{}: unwrapped contents equal", what);
    ckeq!(b0.size() - b.size(), n, "{}: trits consumed", what);
    let (a, c) = (future(&w), future(&u));
    ck!(a == c, "{}: recipient's state differs from the sender's", what);
    ckeq!(rdt(&t), g, "{}: unwrapping changed the message", what);
    Ok(())
}

/// every byte, tag and signed hash comes from the transcript read before it
fn c11_transcript(r: &mut Rng, _: u64) -> R {
    let x = message(r);
    let what = x.name();
    let (mut w, mut u, mut m) = states(r);
    let want = x.reference(&mut m);
    let mut t = Trits::zero(want.len() + 100);
    x.wrap(&mut w, &mut t.slice_mut());
    let g = rdt(&t);
    if let Some(k) = (0..want.len()).find(|k| g[*k] != want[*k]) { return Err(format!("{}: trit {} of {} differs from the reference transcript", what, k, want.len())); }
    agree(&w, &m, &format!("{}: sender", what))?;
    if x.holds_key() {
        let t = mk(&want);
        let got = x.unwrap(r.coin(), &mut u, &mut t.slice());
        ckeq!(got, Ok(true), "{}: reference message unwrapped", what);
        agree(&u, &m, &format!("{}: recipient", what))?;
    }
    Ok(())
}

fn wire(x: &Msg, w: &mut Spongos) -> Vec<u8> {
    let mut t = Trits::zero(x.sizeof());
    x.wrap(w, &mut t.slice_mut());
    rdt(&t)
}

fn c11_tamper(r: &mut Rng, _: u64) -> R {
    let mut x = message(r);
    for _ in 0..50 { if x.authentic() { break; } x = message(r); }
    if !x.authentic() { return Ok(()); }
    let (mut w, mut u, _) = states(r);
    let mut v = wire(&x, &mut w);
    let n = v.len();
    let mut what = x.name();
    match r.below(8) {
        0 => {
            let k = r.below(3) as u8;
            u.absorb_trits(&mk(&[k]));
            what += ", read from a state with one trit more";
        }
        1 => {
            // whole different state
            let nn = 1 + r.below(600);
            let y = r.utrits(nn);
            let f = future(&u);
            u.absorb_trits(&mk(&y));
            u.commit();
            if future(&u) == f { return Ok(()); }
            what += ", read from another state";
        }
        2 => {
            let mut l = x.link.clone();
            l.push(1);
            if matches!(x.m, M::Announce { .. }) { return Ok(()); }
            // the sponge overwrites without padding, so one more trit can leave it as it was
            let f = x.slink().squeeze_trits(243);
            x.link = l;
            if x.slink().squeeze_trits(243) == f { return Ok(()); }
            what += ", linked to another message";
        }
        3 => { v.truncate(r.below(n)); what += &format!(", cut to {} of {} trits", v.len(), n); }
        4 => {
            // the same fields of another message
            let (mut w2, _, _) = states(r);
            let y = r.utrits(7);
            w2.absorb_trits(&mk(&y));
            let z = wire(&x, &mut w2);
            let k = n - 1 - r.below(n.min(300));
            if z[k..] == v[k..] { return Ok(()); }
            v[k..].copy_from_slice(&z[k..]);
            what += &format!(", with the trits from {} on taken from a copy wrapped in another state", k);
        }
        _ => {
            let k = match r.below(6) { 0 => r.below(n.min(100)), 1 => n - 1 - r.below(n.min(243)), 2 => (81 + r.below(243)).min(n - 1), _ => r.below(n) };
            v[k] = (v[k] + 1 + r.below(2) as u8) % 3;
            what += &format!(", altered at trit {} of {}", k, n);
        }
    }
    let (t, d, _) = placed(r, &v);
    let b0 = t.slice().drop(d).take(v.len());
    let mut b = b0;
    let got = x.unwrap(true, &mut u, &mut b);
    suffix(b0, b, &what)?;
    ck!(got.is_err(), "{}: accepted", what);
    Ok(())
}

fn c11_wrong_key(r: &mut Rng, _: u64) -> R {
    let (mut w, mut u, _) = states(r);
    let id = r.trits(81);
    let (a, o) = { let a = r.below(5); (a, (a + 1 + r.below(4)) % 5) };
    let (p, k) = (payload(r), payload(r));
    match r.below(4) {
        0 => {
            let x = Msg { m: M::Signed { pub_: p, mask: k, sk: a }, id, link: vec![] };
            let v = mk(&wire(&x, &mut w));
            let y = Msg { m: match &x.m { M::Signed { pub_, mask, .. } => M::Signed { pub_: pub_.clone(), mask: mask.clone(), sk: o }, _ => unreachable!() }, ..x.clone() };
            let mut s = u.fork();
            ckeq!(y.unwrap(true, &mut s, &mut v.slice()), Err(PErr::MssVerifyFailed), "packet signed by key {} verified against key {}", a, o);
            let rk = signed_packet::unwrap_recover(x.look(()), &mut u, &mut v.slice());
            ck!(rk.map(|t| t.0) == Ok(msk(a).public_key().clone()), "signer recovered from a packet signed by key {}", a);
        }
        1 => {
            // signed by the new key only / by a wrong old key
            let x = Msg { m: M::ChangeKey { sk: a, old: o }, id, link: vec![] };
            let v = mk(&wire(&x, &mut w));
            let z = (o + 1) % 5;
            let y = Msg { m: M::ChangeKey { sk: a, old: z }, ..x };
            ckeq!(y.unwrap(true, &mut u, &mut v.slice()), Err(PErr::MssVerifyFailed), "change to key {} signed by {} where {} is trusted", a, o, z);
        }
        2 => {
            // change key: proof of possession by another key of the same height
            let (a, o, z) = (1, 3, 0);
            let x = Msg { m: M::ChangeKey { sk: a, old: z }, id, link: vec![] };
            let mut v = wire(&x, &mut w);
            // the hash both signatures are made for
            let mut s = u.fork();
            s.join(&mut x.slink());
            s.absorb_trits(&mk(&v[81..324]));
            s.commit();
            let h = s.squeeze_trits(234);
            let n = mss::sig_size(1);
            let mut sig = Trits::zero(n);
            msk(o).sign(h.slice(), sig.slice_mut());
            v[324..324 + n].copy_from_slice(&rdt(&sig));
            ckeq!(x.unwrap(true, &mut u, &mut mk(&v).slice()), Err(PErr::MssVerifyFailed), "change to key {} with key {}'s own signature replaced by one of key {}", a, a, o);
        }
        _ => {
            // announce signed by another key of the same height
            let (a, o) = if r.coin() { (1, 3) } else { (0, 4) };
            let x = Msg { m: M::Announce { sk: a, nk: None }, id, link: vec![] };
            let mut v = wire(&x, &mut w);
            let mut s = u.fork();
            s.absorb_trits(&mk(&v[..246]));
            s.commit();
            let h = s.squeeze_trits(234);
            let n = v.len() - 246;
            let mut sig = Trits::zero(n);
            msk(o).sign(h.slice(), sig.slice_mut());
            v[246..].copy_from_slice(&rdt(&sig));
            ckeq!(x.unwrap(true, &mut u, &mut mk(&v).slice()), Err(PErr::MssVerifyFailed), "announcement of key {} signed by key {}", a, o);
        }
    }
    Ok(())
}

/// the mssig commands: the key accepted is the one the signature recovers for the squeezed hash
fn c11_mssig(r: &mut Rng, _: u64) -> R {
    let (mut w, u, _) = states(r);
    let a = r.below(5);
    let sk = msk(a);
    let n = pb3::mssig::sizeof_mssig(&sk);
    ckeq!(n, mss::sig_size(sk.height()), "sizeof_mssig");
    let mut hs = u.fork();
    hs.commit();
    let hash = hs.squeeze_trits(234);
    let mut f = u.fork();
    ckeq!(rdt(&pb3::mssig::squeeze_mss_hash(&mut f)), rdt(&hash), "squeezed hash");
    let tail = r.below(30);
    let mut t = Trits::zero(n + tail);
    {
        let mut b = t.slice_mut();
        if r.coin() { pb3::mssig::squeeze_wrap_mssig(&sk, &mut w, &mut b) } else { w.commit(); w.squeeze_trits(234); pb3::mssig::wrap_mssig(hash.slice(), &sk, &mut w, &mut b) }
        ckeq!(b.size(), tail, "trits left after wrapping a signature");
    }
    let mut v = rdt(&t);
    let mut h = rdt(&hash);
    let mut s = u.fork();
    match r.below(5) {
        0 => { let k = r.below(18); v[k] = r.below(3) as u8; }
        1 => { let k = r.below(n); v[k] = r.below(3) as u8; }
        2 => { let k = r.below(n); v.truncate(k); }
        3 => { s.absorb_trits(&mk(&[1])); let mut q = s.fork(); q.commit(); h = rdt(&q.squeeze_trits(234)); }
        _ => {}
    }
    // what the signature recovers, by the Merkle signature module alone
    let mut apk = Trits::zero(243);
    let (t, d, _) = placed(r, &v);
    let b0 = t.slice().drop(d).take(v.len());
    let rec = mss::recover(apk.slice_mut(), mk(&h).slice(), b0);
    let what = format!("signature of key {}", a);
    let mut f = s.fork();
    let mut b = b0;
    let got = if r.coin() { pb3::mssig::squeeze_unwrap_mssig_recover(&mut f, &mut b) } else { pb3::mssig::unwrap_mssig_recover(mk(&h).slice(), &mut f, &mut b) };
    match (rec, got) {
        (Some(k), Ok(p)) => { ck!(msspk_trits(&p) == rdt(&apk), "{}: recovered key", what); ckeq!(b0.size() - suffix(b0, b, &what)?, k, "{}: trits consumed", what); }
        (None, Err(_)) => {}
        (x, y) => return Err(format!("{}: recover gives {:?}, the field {:?}", what, x, y.is_ok())),
    }
    let exp = crate::t_pb3::msspk(&rdt(&apk));
    for (pk, name) in [(sk.public_key(), "the signer's key"), (&exp, "the recovered key")] {
        let want = rec.is_some() && msspk_trits(pk) == rdt(&apk);
        let mut f = s.fork();
        let mut b = b0;
        let got = if r.coin() { pb3::mssig::squeeze_unwrap_mssig_verify(pk, &mut f, &mut b) } else { pb3::mssig::unwrap_mssig_verify(mk(&h).slice(), pk, &mut f, &mut b) };
        ckeq!(got.is_ok(), want, "{} verified against {}", what, name);
        suffix(b0, b, &what)?;
    }
    Ok(())
}

/// a masked key is released only if the inner tag matches
fn c11_kem(r: &mut Rng, _: u64) -> R {
    let (mut w, mut u, _) = states(r);
    let a = r.below(5);
    let key = r.trits(243);
    let n = r.below(40);
    let p = PRNG::init_trits(&mk(&r.utrits(243)));
    let nonce = r.trits(n);
    ckeq!(pb3::ntrukem::sizeof_ntrukem(), 9216, "sizeof_ntrukem");
    let tail = r.below(30);
    let mut t = Trits::zero(9216 + tail);
    {
        let mut b = t.slice_mut();
        pb3::ntrukem::wrap_ntrukem(mk(&key).slice(), &npk(a), &p, mk(&nonce).slice(), &mut w, &mut b);
        ckeq!(b.size(), tail, "trits left after wrapping a capsule");
    }
    let mut v = rdt(&t);
    let mut o = a;
    let (what, ok) = match r.below(5) {
        0 => { let j = r.below(9216); v[j] = (v[j] + 1 + r.below(2) as u8) % 3; (format!("capsule altered at trit {}", j), false) }
        1 => { u.absorb_trits(&mk(&[r.below(3) as u8])); ("capsule read in another state".to_string(), false) }
        2 => { o = (a + 1) % 5; ("capsule read with another key".to_string(), false) }
        3 => { v.truncate(r.below(9216)); (format!("capsule cut to {} trits", v.len()), false) }
        _ => ("genuine capsule".to_string(), true),
    };
    let (t, d, _) = placed(r, &v);
    let b0 = t.slice().drop(d).take(v.len());
    let mut b = b0;
    let mut k = Trits::zero(243);
    let got = pb3::ntrukem::unwrap_ntrukem(k.slice_mut(), &nsk(o), &mut u, &mut b);
    ckeq!(got.is_ok(), ok, "{} accepted", what);
    suffix(b0, b, &what)?;
    if ok {
        ckeq!(show(&rdt(&k)), show(&key), "key released");
        ckeq!(b0.size() - b.size(), 9216, "trits consumed");
        ck!(future(&w) == future(&u), "states after the capsule differ");
    }
    Ok(())
}

fn c09_messages(r: &mut Rng, _: u64) -> R {
    let x = message(r);
    let (mut w, mut u, _) = states(r);
    let mut what = x.name();
    let mut v = match r.below(5) {
        0 => { let n = r.below(400); what += ", random trits"; let mut v = x.id.clone(); v.extend(r.trits(n)); v }
        1 => {
            // plausible start with an absurd count or size
            let mut m = Sp::new();
            let _ = &mut m;
            let mut v = x.id.clone();
            if matches!(x.m, M::Keyload { .. }) { v.extend(r.trits(81)); if r.coin() { v.extend(size_enc(r.below(3) as i128)); } }
            if matches!(x.m, M::Header { .. }) { v = vec![1, 0, 0]; }
            let big = match r.below(4) { 0 => 27i128.pow(r.below(13) as u32), 1 => crate::t_pb3::SIZE_MAX - r.below(3) as i128, 2 => (u64::MAX / 324) as i128 + r.below(3) as i128 - 1, _ => r.below(3000) as i128 };
            v.extend(size_enc(big.min(crate::t_pb3::SIZE_MAX)));
            let n = r.below(1000);
            v.extend(r.trits(n));
            what += &format!(", announcing a size of {}", big);
            v
        }
        _ => wire(&x, &mut w),
    };
    let n = v.len();
    match r.below(5) {
        0 => { v.truncate(r.below(n + 1)); what += &format!(", cut to {} of {} trits", v.len(), n); }
        1 => { let k = if r.coin() { r.below(n.min(400)) } else { r.below(n) }; v[k] = (v[k] + 1 + r.below(2) as u8) % 3; what += &format!(", altered at trit {}", k); }
        2 => { let k = r.below(n); v.remove(k); what += &format!(", without trit {}", k); }
        3 => { let k = 81.min(n - 1) + r.below(40).min(n - 1 - 81.min(n - 1)); let m = 1 + r.below(3); for j in k..(k + m).min(n) { v[j] = r.below(3) as u8; } what += &format!(", altered near trit {}", k); }
        _ => {}
    }
    // a recipient without a key still has to walk over the message
    let x = match &x.m { M::Keyload { nonce, key, psks, nks, rnd, have_nk, .. } if r.coin() => Msg { m: M::Keyload { nonce: nonce.clone(), key: key.clone(), psks: psks.clone(), nks: nks.clone(), rnd: rnd.clone(), have_psk: vec![], have_nk: if r.coin() { vec![] } else { have_nk.clone() } }, ..x.clone() }, _ => x };
    let (t, d, all) = placed(r, &v);
    let b0 = t.slice().drop(d).take(v.len());
    let mut b = b0;
    alloc_reset();
    let _ = x.unwrap(r.coin(), &mut u, &mut b);
    let peak = alloc_peak();
    suffix(b0, b, &what)?;
    ck!(peak <= alloc_limit(v.len()), "{}: allocated {} bytes for {} trits", what, peak, v.len());
    ckeq!(rdt(&t), all, "{}: the input buffer changed", what);
    Ok(())
}
#[allow(dead_code)]
fn _unused(_: MsgId) {}

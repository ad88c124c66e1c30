//@module app::channel::msg::announce
//@file app/channel/msg/announce.rs
//@deps mem trits::util trits::slice trits::trits spongos pb3::spec pb3::err pb3::typ::trytes pb3::cmd::join pb3::cmd::mac pb3::msg app::core app::spec ntru mss::mt mss::mtcomplete mss::mss pb3::cmd::mssig pb3::cmd::ntrukem pb3::typ::trint pb3::typ::oneof pb3::typ::msspk pb3::typ::ntrupk
//@prelude
use crate::mem::*;
use crate::trits::defs::*;
use crate::trits::util::*;
use crate::trits::b1t1::*;
use crate::trits::slice::*;
use crate::trits::trits::*;
use crate::spongos::*;
use crate::app::core::{MsgId, MSGID_SIZE};
use crate::app::spec::*;
use crate::pb3::spec::*;
use crate::pb3::msg::*;
use crate::pb3::err::{Err, Result, guard};
use crate::pb3::typ::size::*;
use crate::pb3::typ::trytes::*;
use crate::pb3::cmd::mac::*;
use crate::pb3::cmd::join::*;
use crate::mss::mt::*;
use crate::mss::mss::{PublicKey, m_sig, m_size, m_d, m_valid, m_rec, m_leaves, m_mg};
use crate::pb3::cmd::mssig::*;
use crate::ntru::pk_valid;

/// the encoding of an optional NTRU key, the announced keys and the state after them
pub open spec fn an_opt(o: Option<Seq<u8>>) -> Seq<u8> { match o { None => bt(3, 0), Some(n) => bt(3, 1) + n } }
pub open spec fn an_out(pk: Seq<u8>, o: Option<Seq<u8>>, sig: Seq<u8>) -> Seq<u8> { pk + an_opt(o) + sig }
pub open spec fn an_mid(a: SP, pk: Seq<u8>, o: Option<Seq<u8>>) -> SP {
    match o { None => sp_absorb(sp_absorb(a, pk), bt(3, 0)), Some(n) => sp_absorb(sp_absorb(sp_absorb(a, pk), bt(3, 1)), n) }
}
pub open spec fn an_rest(x: Seq<u8>, o: Option<Seq<u8>>) -> Seq<u8> { x.skip((243 + an_opt(o).len()) as int) }
/// C11: `x` starts with a public key, the optional NTRU key `o`, and a signature for that public key
pub open spec fn an_is(a: SP, x: Seq<u8>, o: Option<Seq<u8>>) -> bool {
    x.len() >= 246 && starts(x.skip(243), an_opt(o)) && (o.is_some() ==> o.unwrap().len() == 9216 && pk_valid(o.unwrap())) && signed(an_rest(x, o), mss_tag(an_mid(a, x.take(243), o)), x.take(243))
}
pub proof fn lemma_an_opt(x: Seq<u8>, o: Option<Seq<u8>>)
    requires is_trits(x),
    ensures starts(x, an_opt(o)) == (x.len() >= 3 && match o { None => ival(x.take(3)) == 0, Some(n) => ival(x.take(3)) == 1 && starts(x.skip(3), n) }),
        an_opt(o).len() == 3 + (if o.is_some() { o.unwrap().len() } else { 0 }), bt(3, 0).len() == 3, bt(3, 1).len() == 3, is_trits(bt(3, 0)), is_trits(bt(3, 1)),
{
    lemma_bt_len(3, 0); lemma_bt_len(3, 1);
    assert(half3(3) == 13) by(compute);
    lemma_ival_bt(3, 0); lemma_ival_bt(3, 1);
    if o.is_some() { lemma_starts_cat(x, bt(3, 1), o.unwrap()); }
    if x.len() >= 3 { lemma_skip_trits(x, 3); lemma_bt_ival(x.take(3)); }
}
pub proof fn lemma_an_unique(a: SP, x: Seq<u8>, o: Option<Seq<u8>>, o2: Option<Seq<u8>>)
    requires is_trits(x), an_is(a, x, o), an_is(a, x, o2),
    ensures o == o2,
{
    lemma_skip_trits(x, 243); lemma_an_opt(x.skip(243), o); lemma_an_opt(x.skip(243), o2);
    if o.is_some() { assert(o.unwrap() =~= o2.unwrap()); }
}
/// C10: what the owner of the key announces is accepted
pub proof fn lemma_an_round(a: SP, x: Seq<u8>, o: Option<Seq<u8>>, key: Seq<u8>, nonce: Seq<u8>, d: int, skn: int)
    requires sp_ok(a), is_trits(x), is_trits(key), is_trits(nonce), 0 <= d <= 20, 0 <= skn < p2(d), o.is_some() ==> o.unwrap().len() == 9216 && pk_valid(o.unwrap()) && is_trits(o.unwrap()),
        ({ let pk = tn(m_leaves(key, nonce), m_mg(), d, 0); pk.len() == 243 && is_trits(pk) && starts(x, an_out(pk, o, m_sig(key, nonce, d, skn, mss_tag(an_mid(a, pk, o))))) }),
    ensures an_is(a, x, o), x.take(243) == tn(m_leaves(key, nonce), m_mg(), d, 0), m_d(an_rest(x, o)) == d,
{
    let pk = tn(m_leaves(key, nonce), m_mg(), d, 0);
    let e = an_mid(a, pk, o);
    let tag = mss_tag(e);
    let sig = m_sig(key, nonce, d, skn, tag);
    lemma_starts_cat(x, pk + an_opt(o), sig);
    lemma_starts_cat(x, pk, an_opt(o));
    lemma_skip_trits(x, 243);
    lemma_an_opt(x.skip(243), o);
    lemma_absorb_ok(a, pk);
    lemma_absorb_ok(sp_absorb(a, pk), bt(3, 0)); lemma_absorb_ok(sp_absorb(a, pk), bt(3, 1));
    if o.is_some() { lemma_absorb_ok(sp_absorb(sp_absorb(a, pk), bt(3, 1)), o.unwrap()); }
    lemma_tag_ok(e);
    let y = an_rest(x, o);
    let rest = y.skip(sig.len() as int);
    assert(y.take(sig.len() as int) == sig);
    assert(y =~= sig + rest);
    lemma_skip_trits(x, (243 + an_opt(o).len()) as int); lemma_skip_trits(y, sig.len() as int);
    lemma_signed(key, nonce, d, skn, tag, rest);
}
pub open spec fn opt_val(o: Option<crate::ntru::PublicKey>, h: Heap) -> Option<Seq<u8>> { match o { None => None, Some(p) => Some(p.pk.val(h)) } }
//@end
//@fn sizeof props=C10
    requires 0 <= mss_sk.mt.theight() <= 20,
    ensures forall|pk: Seq<u8>, o: Option<Seq<u8>>, sig: Seq<u8>| pk.len() == 243 && o.is_some() == has_ntru_pk && (o.is_some() ==> o.unwrap().len() == 9216) && sig.len() == m_size(mss_sk.mt.theight()) ==> r == (#[trigger] an_out(pk, o, sig)).len(),
//@hint exit
proof { lemma_bt_len(3, 0); lemma_bt_len(3, 1); }
//@fn wrap mem=rw props=C10,C11
    requires mss_sk.steady(old(mem)@, set![old(s).b(), old(b).b()]), opt_ntru_pk.is_some() ==> opt_ntru_pk.unwrap().inv(old(mem)@) && opt_ntru_pk.unwrap().pk.b() != old(s).b() && opt_ntru_pk.unwrap().pk.b() != old(b).b(),
        can_wrap(*old(s), *old(b), old(mem)@, 246 + (if opt_ntru_pk.is_some() { 9216int } else { 0 }) + m_size(mss_sk.mt.theight())),
    ensures !mss_sk.exhausted(),
        ({ let (a, pk, o) = (old(s).sp(old(mem)@), mss_sk.rootv(old(mem)@), opt_val(*opt_ntru_pk, old(mem)@)); let e = an_mid(a, pk, o);
            wrote(*old(s), *old(b), old(mem)@, *final(s), *final(b), final(mem)@, an_out(pk, o, mss_sk.sigv(old(mem)@, mss_tag(e))), mss_end(e), set![old(s).b(), old(b).b()]) }),
//@hint entry
let ghost (h0, s0, b0) = (mem@, *s, *b);
let ghost z = set![s.b(), b.b()];
let ghost a0 = s.sp(h0);
let ghost pk = mss_sk.rootv(h0);
let ghost o = opt_val(*opt_ntru_pk, h0);
let ghost mut h2 = h0;
let ghost mut s2 = s0;
let ghost mut b2 = b0;
proof { lemma_bt_len(3, 0); lemma_bt_len(3, 1); mss_sk.lemma_inv(h0); lemma_wrote_none(s0, b0, h0, z); assert(half3(3) == 13) by(compute); assert(mss_sk.mt.troot().slice_spec().val(h0) =~= pk); }
//@hint after wrap_absorb_trits 0
let ghost (h1, s1, b1) = (mem@, *s, *b);
proof {
    lemma_w_field(Mode::Absorb, s0, b0, h0, s0, b0, h0, s1, b1, h1, Seq::empty(), a0, pk, z);
    assert(Seq::<u8>::empty() + pk =~= pk);
}
//@hint after wrap_absorb 0
proof {
    h2 = mem@; s2 = *s; b2 = *b;
    lemma_w_field(Mode::Absorb, s0, b0, h0, s1, b1, h1, s2, b2, h2, pk, sp_absorb(a0, pk), bt(3, 1), z);
    let n = opt_ntru_pk.unwrap();
    lemma_trits_ext(n.pk, h0, h2, z);
    assert(n.pk.slice_spec().val(h2) =~= n.pk.val(h0));
}
//@hint after wrap_absorb_trits 1
proof {
    let (h3, s3, b3) = (mem@, *s, *b);
    lemma_w_field(Mode::Absorb, s0, b0, h0, s2, b2, h2, s3, b3, h3, pk + bt(3, 1), sp_absorb(sp_absorb(a0, pk), bt(3, 1)), o.unwrap(), z);
    assert(pk + bt(3, 1) + o.unwrap() =~= pk + an_opt(o));
}
//@hint after wrap_absorb 1
proof {
    lemma_w_field(Mode::Absorb, s0, b0, h0, s1, b1, h1, *s, *b, mem@, pk, sp_absorb(a0, pk), bt(3, 0), z);
}
//@hint before squeeze_wrap_mssig 0
let ghost (h4, s4, b4) = (mem@, *s, *b);
let ghost e = an_mid(a0, pk, o);
proof {
    assert(wrote(s0, b0, h0, s4, b4, h4, pk + an_opt(o), e, z));
    lemma_wrote_next(s0, b0, h0, s4, b4, h4, pk + an_opt(o), e, z);
    mss_sk.lemma_steady(h0, h4, z);
}
//@hint exit
proof { lemma_w_more(s0, b0, h0, s4, b4, h4, *s, *b, mem@, pk + an_opt(o), e, mss_sk.sigv(h0, mss_tag(e)), mss_end(e), z, z); }
//@fn unwrap mem=rw props=C09,C10,C11
    requires can_unwrap(*old(s), *old(b), old(mem)@),
    ensures kept(*old(s), *old(b), old(mem)@, *final(s), *final(b), final(mem)@), r.is_ok() == exists|o: Option<Seq<u8>>| #[trigger] an_is(old(s).sp(old(mem)@), old(b).val(old(mem)@), o),
        r.is_ok() ==> ({ let (a, x, o) = (old(s).sp(old(mem)@), old(b).val(old(mem)@), opt_val((r->Ok_0).1, final(mem)@));
            &&& (r->Ok_0).0.ok(final(mem)@) && (r->Ok_0).0.pk.fresh(old(mem)@) && (r->Ok_0).0.pk.val(final(mem)@) == x.take(243) && ((r->Ok_0).1.is_some() ==> (r->Ok_0).1.unwrap().inv(final(mem)@) && (r->Ok_0).1.unwrap().pk.fresh(old(mem)@)) && an_is(a, x, o)
            &&& read(*old(s), *old(b), old(mem)@, *final(s), *final(b), final(mem)@, (243 + an_opt(o).len()) as int + m_size(m_d(an_rest(x, o))), mss_end(an_mid(a, x.take(243), o))) }),
//@hint entry
hide(kept); hide(signed); hide(m_d); hide(pk_valid);
let ghost (h0, s0, b0) = (mem@, *s, *b);
let ghost a0 = s.sp(h0);
let ghost x = b.val(h0);
let ghost pk = x.take(243);
let ghost mut h3 = h0;
let ghost mut s3 = s0;
let ghost mut b3 = b0;
proof {
    lemma_read_none(s0, b0, h0);
    lemma_bt_len(3, 0); lemma_bt_len(3, 1); assert(half3(3) == 13) by(compute);
    assert forall|o: Option<Seq<u8>>| #[trigger] an_is(a0, x, o) implies x.len() >= 246 && ({ let y = x.skip(243); match o { None => ival(y.take(3)) == 0, Some(n) => ival(y.take(3)) == 1 && starts(y.skip(3), n) && n.len() == 9216 && pk_valid(n) } }) by { lemma_skip_trits(x, 243); lemma_an_opt(x.skip(243), o); }
}
//@hint let msspk 0
let ghost (h1, s1, b1) = (mem@, *s, *b);
let ghost y = x.skip(243);
let ghost a1 = sp_absorb(a0, pk);
proof { lemma_r_field(Mode::Absorb, s0, b0, h0, s0, b0, h0, s1, b1, h1, 0, a0, 243); lemma_skip_trits(x, 243); assert(input(Mode::Absorb, s1, b1, h1) == y); }
//@hint let has_ntrupk 0
let ghost (h2, s2, b2) = (mem@, *s, *b);
let ghost v = y.take(3);
let ghost a2 = sp_absorb(a1, v);
proof {
    lemma_r_field(Mode::Absorb, s0, b0, h0, s1, b1, h1, s2, b2, h2, 243, a1, 3);
    lemma_skip_trits(y, 3); lemma_bt_ival(v);
    assert(input(Mode::Absorb, s2, b2, h2) == y.skip(3));
    h3 = h2; s3 = s2; b3 = b2;
}
//@hint let ntrupk 0
proof {
    h3 = mem@; s3 = *s; b3 = *b;
    lemma_r_field(Mode::Absorb, s0, b0, h0, s2, b2, h2, s3, b3, h3, 246, a2, 9216);
    assert(h1.dom().contains(s0.b())); assert(h2.dom().contains(s0.b()));
    lemma_trits_ext(msspk.pk, h1, h2, set![s0.b()]); lemma_trits_ext(msspk.pk, h2, h3, set![s0.b()]);
}
//@hint let n 0
let ghost o = opt_val(n, h3);
let ghost e = an_mid(a0, pk, o);
proof {
    assert(h1.dom().contains(s0.b())); assert(h2.dom().contains(s0.b()));
    if o.is_none() { lemma_trits_ext(msspk.pk, h1, h2, set![s0.b()]); }
    lemma_an_opt(y, o);
    assert(read(s0, b0, h0, s3, b3, h3, (243 + an_opt(o).len()) as int, e));
    lemma_read_next(s0, b0, h0, s3, b3, h3, (243 + an_opt(o).len()) as int, e);
    assert(b3.val(h3) == an_rest(x, o));
    assert forall|o2: Option<Seq<u8>>| #[trigger] an_is(a0, x, o2) implies o2 == o by { if o.is_some() { assert(o2.unwrap() =~= o.unwrap()); } }
    if o.is_some() { assert(starts(y.skip(3), o.unwrap())); }
    assert(an_is(a0, x, o) == signed(an_rest(x, o), mss_tag(e), pk));
}
//@hint exit
proof {
    let n2 = m_size(m_d(an_rest(x, o)));
    lemma_read_cat(s0, b0, h0, s3, b3, h3, *s, *b, mem@, (243 + an_opt(o).len()) as int, e, n2, mss_end(e));
    lemma_read_next(s3, b3, h3, *s, *b, mem@, n2, mss_end(e));
    assert(h3.dom().contains(s0.b()));
    lemma_trits_ext(msspk.pk, h3, mem@, set![s0.b()]);
    if n.is_some() { n.unwrap().lemma_info(h3, mem@, set![s0.b()]); }
}

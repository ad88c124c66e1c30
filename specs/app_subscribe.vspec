//@module app::channel::msg::subscribe
//@file app/channel/msg/subscribe.rs
//@deps mem trits::util trits::slice trits::trits spongos prng ring poly ntru pb3::spec pb3::err pb3::typ::trytes pb3::cmd::join pb3::cmd::mac pb3::cmd::ntrukem pb3::msg app::core app::spec pb3::typ::ntrupk
//@map spongos::MAC_SIZE 243
//@map spongos::KEY_SIZE 243
//@map ntru::PK_SIZE 9216
//@prelude
use crate::mem::*;
use crate::trits::defs::*;
use crate::trits::util::*;
use crate::trits::b1t1::*;
use crate::trits::slice::*;
use crate::trits::trits::*;
use crate::spongos::*;
use crate::prng::*;
use crate::ntru::{pk_valid, keypair, nofail};
use crate::app::core::{MsgId, MSGID_SIZE};
use crate::app::spec::*;
use crate::pb3::spec::*;
use crate::pb3::msg::*;
use crate::pb3::err::{Err, Result, guard};
use crate::pb3::typ::trytes::*;
use crate::pb3::cmd::mac::*;
use crate::pb3::cmd::join::*;
use crate::pb3::cmd::ntrukem::*;

/// the subscription of `sub` linked to `id` in the state `l`; the unsubscribe key `k` is encapsulated for `ch`
pub open spec fn su_mid(a1: SP, ch: Seq<u8>, key: Seq<u8>, nonce: Seq<u8>, k: Seq<u8>) -> SP { sp_commit(kem_end(a1, ch, key, nonce, k)) }
pub open spec fn su_out(a1: SP, id: Seq<u8>, ch: Seq<u8>, key: Seq<u8>, nonce: Seq<u8>, k: Seq<u8>, sub: Seq<u8>) -> Seq<u8> {
    let a2 = su_mid(a1, ch, key, nonce, k);
    id + kem_out(a1, ch, key, nonce, k) + sp_enc(a2, sub) + mac_tag(sp_absorb(a2, sub))
}
pub open spec fn su_end(a1: SP, ch: Seq<u8>, key: Seq<u8>, nonce: Seq<u8>, k: Seq<u8>, sub: Seq<u8>) -> SP { mac_end(sp_absorb(su_mid(a1, ch, key, nonce, k), sub)) }
/// what the owner of `sk` reads: the state after the key, the subscriber's key, the state after it
pub open spec fn su_dmid(a1: SP, sk: Seq<u8>, x: Seq<u8>) -> SP { sp_commit(kem_dsp(a1, sk, x.skip(81))) }
pub open spec fn su_pk(a1: SP, sk: Seq<u8>, x: Seq<u8>) -> Seq<u8> { sp_dec(su_dmid(a1, sk, x), x.skip(9297)).take(9216) }
pub open spec fn su_dend(a1: SP, sk: Seq<u8>, x: Seq<u8>) -> SP { sp_absorb(su_dmid(a1, sk, x), su_pk(a1, sk, x)) }
/// C11: `x` starts with a link to a known message, a key encapsulated for the owner of `sk`, a valid public key, and the tag over all of them
pub open spec fn su_body(a1: SP, sk: Seq<u8>, x: Seq<u8>) -> bool {
    kem_ok(a1, sk, x.skip(81)) && x.len() >= 81 + 9216 + 9216 && pk_valid(su_pk(a1, sk, x)) && starts(x.skip(18513), mac_tag(su_dend(a1, sk, x)))
}
pub open spec fn su_is<L: Lookup<()>>(f: L, a: SP, sk: Seq<u8>, x: Seq<u8>) -> bool { linked::<(), L>(f, x) && su_body(sp_join(a, f.state(x.take(81))), sk, x) }
pub proof fn lemma_su_len(a1: SP, id: Seq<u8>, ch: Seq<u8>, key: Seq<u8>, nonce: Seq<u8>, k: Seq<u8>, sub: Seq<u8>)
    requires id.len() == 81, sub.len() == 9216,
    ensures su_out(a1, id, ch, key, nonce, k, sub).len() == 81 + 9216 + 9216 + 243,
{
    let a2 = su_mid(a1, ch, key, nonce, k);
    lemma_kem_len(a1, ch, key, nonce, k);
    lemma_outs_len(Op::Encr, a2, sub);
    lemma_outs_len(Op::Squeeze, sp_commit(sp_absorb(a2, sub)), zeros(243));
}
/// C10: the channel owner reads the key that was sent and ends in the sender's state
pub proof fn lemma_su_round<L: Lookup<()>>(f: L, a: SP, l: SP, id: Seq<u8>, x: Seq<u8>, sk: Seq<u8>, g: Seq<u8>, ch: Seq<u8>, key: Seq<u8>, nonce: Seq<u8>, k: Seq<u8>, sub: Seq<u8>)
    requires id.len() == 81, f.known(id), f.state(id) == l, sp_ok(sp_join(a, l)), is_trits(x), keypair(sk, g, ch), is_trits(k), k.len() == 243, is_trits(sub), sub.len() == 9216, pk_valid(sub),
        ({ let a1 = sp_join(a, l); let r = kem_r(ch, key, nonce, k); r.len() == 1024 && is_trits(r) && nofail(sk, g, r, crate::ntru::n_ae(a1, crate::poly::tr9(crate::ntru::n_rh(kem_h(ch), r), 1024), k))
            && starts(x, su_out(a1, id, ch, key, nonce, k, sub)) }),
    ensures ({ let a1 = sp_join(a, l); su_is(f, a, sk, x) && su_pk(a1, sk, x) == sub && kem_key(a1, sk, x.skip(81)) == k && mac_end(su_dend(a1, sk, x)) == su_end(a1, ch, key, nonce, k, sub) }),
{
    let a1 = sp_join(a, l);
    let r = kem_r(ch, key, nonce, k);
    let c = kem_out(a1, ch, key, nonce, k);
    let a2 = su_mid(a1, ch, key, nonce, k);
    let e = sp_enc(a2, sub);
    let t = mac_tag(sp_absorb(a2, sub));
    lemma_su_len(a1, id, ch, key, nonce, k, sub);
    lemma_kem_len(a1, ch, key, nonce, k);
    lemma_outs_len(Op::Encr, a2, sub);
    lemma_starts_cat(x, id + c + e, t); lemma_starts_cat(x, id + c, e); lemma_starts_cat(x, id, c);
    assert(x.take(81) == id);
    let y = x.skip(81);
    assert(y.take(9216) == c);
    crate::ntru::lemma_key_pair(a1, sk, g, ch, r, k);
    assert(kem_dsp(a1, sk, y) == kem_end(a1, ch, key, nonce, k));
    lemma_kem_end_ok(a1, ch, key, nonce, k);
    lemma_skip_trits(x, 9297);
    lemma_starts(Mode::Mask, a2, x.skip(9297), sub);
}
//@end
//@fn sizeof props=C10
    ensures r == 18756, forall|a: SP, id: Seq<u8>, ch: Seq<u8>, key: Seq<u8>, nonce: Seq<u8>, k: Seq<u8>, sub: Seq<u8>| id.len() == 81 && sub.len() == 9216 ==> r == (#[trigger] su_out(a, id, ch, key, nonce, k, sub)).len(),
//@hint exit
proof {
    assert forall|a: SP, id: Seq<u8>, ch: Seq<u8>, key: Seq<u8>, nonce: Seq<u8>, k: Seq<u8>, sub: Seq<u8>| id.len() == 81 && sub.len() == 9216 implies tail__ == (#[trigger] su_out(a, id, ch, key, nonce, k, sub)).len() by { lemma_su_len(a, id, ch, key, nonce, k, sub); }
}
//@fn wrap mem=rw props=C10,C11
    requires can_wrap(*old(s), *old(b), old(mem)@, 18756), old(slink).inv(old(mem)@), old(slink).b() != old(s).b(), old(slink).b() != old(b).b(),
        msgid.ok(old(mem)@), msgid.len() == 81, msgid.b() != old(s).b(), msgid.b() != old(b).b(), msgid.b() != old(slink).b(),
        nonce.ok(old(mem)@), nonce.b() != old(s).b(), nonce.b() != old(b).b(), nonce.b() != old(slink).b(),
        prng.inv(old(mem)@), prng.secret_key.b() != old(s).b(), prng.secret_key.b() != old(b).b(), prng.secret_key.b() != old(slink).b(),
        sub_pk.inv(old(mem)@), sub_pk.pk.b() != old(s).b(), sub_pk.pk.b() != old(b).b(), sub_pk.pk.b() != old(slink).b(),
        ch_pk.inv(old(mem)@), ch_pk.pk.b() != old(s).b(), ch_pk.pk.b() != old(b).b(), ch_pk.pk.b() != old(slink).b(),
    ensures final(slink).inv(final(mem)@), final(slink).same(*old(slink)), final(slink).sp(final(mem)@) == sp_squeeze(old(slink).sp(old(mem)@), 243),
        ({ let g = old(mem)@; let (a1, id, ch, key, n, sub) = (sp_join(old(s).sp(g), old(slink).sp(g)), msgid.val(g), ch_pk.pk.val(g), prng.key(g), nonce.val(g), sub_pk.pk.val(g)); let k = prng_out(key, n, 243);
            wrote(*old(s), *old(b), g, *final(s), *final(b), final(mem)@, su_out(a1, id, ch, key, n, k, sub), su_end(a1, ch, key, n, k, sub), set![old(s).b(), old(b).b(), old(slink).b()]) }),
//@hint entry
hide(prng_out); hide(pk_valid); hide(kem_out); hide(kem_end); hide(crate::ntru::n_enc);
let ghost (h0, s0, b0) = (mem@, *s, *b);
let ghost z = set![s.b(), b.b(), slink.b()];
let ghost (a1, id, ch, key, n, sub) = (sp_join(s.sp(h0), slink.sp(h0)), msgid.val(h0), ch_pk.pk.val(h0), prng.key(h0), nonce.val(h0), sub_pk.pk.val(h0));
let ghost k = prng_out(key, n, 243);
//@hint after wrap_join 0
let ghost (h1, s1, b1) = (mem@, *s, *b);
proof { lemma_wrote_next(s0, b0, h0, s1, b1, h1, id, a1, z); lemma_trits_ext(prng.secret_key, h0, h1, z); }
//@hint let unsubscribe_key 0
let ghost hz = mem@;
proof { assert(h1.dom().contains(prng.secret_key.b()) && h1.dom().contains(nonce.b())) by { assert(h0.dom().contains(nonce.b())); } assert(prng.secret_key.val(hz) =~= key); assert(nonce.val(hz) =~= n); }
//@hint after gen 0
let ghost h2 = mem@;
proof {
    assert(ext_s(h1, h2, z)) by { assert forall|c: int| #[trigger] h1.dom().contains(c) implies h2.dom().contains(c) && h2[c] == h1[c] by { assert(hz.dom().contains(c)); } }
    assert(extends(h1, h2)) by { assert forall|c: int| #[trigger] h1.dom().contains(c) implies h2.dom().contains(c) && h2[c] == h1[c] by { assert(hz.dom().contains(c)); } }
    lemma_ext_s(h0, h1, h2, z);
    assert(h0.dom().contains(s0.b()) && h0.dom().contains(b0.b()) && h0.dom().contains(slink.b()) && h1.dom().contains(s0.b()) && h1.dom().contains(b0.b()) && h1.dom().contains(slink.b()));
    lemma_sp_same(s1, h1, h2); lemma_sp_same(*slink, h1, h2);
    assert(wrote(s0, b0, h0, s1, b1, h2, id, a1, z));
    lemma_wrote_next(s0, b0, h0, s1, b1, h2, id, a1, z);
    lemma_trits_ext(ch_pk.pk, h0, h2, z); lemma_trits_ext(prng.secret_key, h0, h2, z); lemma_trits_ext(sub_pk.pk, h0, h2, z);
    assert(h0.dom().contains(nonce.b())); assert(nonce.val(h2) =~= n);
    crate::ntru::lemma_prng_out(key, n, 243);
    assert(unsubscribe_key.slice_spec().val(h2) =~= k);
    assert(is_trits(unsubscribe_key.slice_spec().val(h2)));
    assert(hz.dom().contains(unsubscribe_key.b()));
    assert(h2[unsubscribe_key.b()] =~= k);
    assert(unsubscribe_key.slice_spec().inv(h2));
}
//@hint after wrap_ntrukem 0
let ghost (h3, s3, b3) = (mem@, *s, *b);
let ghost o = kem_out(a1, ch, key, n, k);
proof {
    lemma_kem_len(a1, ch, key, n, k);
    lemma_w_more(s0, b0, h0, s1, b1, h2, s3, b3, h3, id, a1, o, kem_end(a1, ch, key, n, k), z, set![s1.b(), b1.b()]);
    lemma_wrote_next(s0, b0, h0, s3, b3, h3, id + o, kem_end(a1, ch, key, n, k), z);
    lemma_trits_ext(sub_pk.pk, h0, h3, z);
    assert(ext_s(h2, h3, set![s1.b(), b1.b()]));
    assert(h2.dom().contains(slink.b()));
    lemma_sp_same(*slink, h2, h3);
}
//@hint after commit 0
let ghost (h4, s4) = (mem@, *s);
let ghost a2 = su_mid(a1, ch, key, n, k);
proof {
    lemma_ext_s2(h3, h4, s0.b(), s0.b(), z); lemma_ext_s(h0, h3, h4, z);
    assert(h3.dom().contains(b0.b()) && h3.dom().contains(slink.b()));
    assert(wrote(s0, b0, h0, s4, b3, h4, id + o, a2, z));
    lemma_wrote_next(s0, b0, h0, s4, b3, h4, id + o, a2, z);
    lemma_trits_ext(sub_pk.pk, h0, h4, z);
    lemma_sp_same(*slink, h3, h4);
}
//@hint after wrap_mask 0
let ghost (h5, s5, b5) = (mem@, *s, *b);
proof {
    lemma_w_field(Mode::Mask, s0, b0, h0, s4, b3, h4, s5, b5, h5, id + o, a2, sub, z);
    assert(h4.dom().contains(slink.b()));
    lemma_sp_same(*slink, h4, h5);
}
//@hint exit
proof {
    lemma_w_mac(s0, b0, h0, s5, b5, h5, *s, *b, mem@, id + o + sp_enc(a2, sub), sp_absorb(a2, sub), z);
    assert(h5.dom().contains(slink.b()));
    lemma_sp_same(*slink, h5, mem@);
}
//@fn unwrap mem=rw props=C09,C10,C11
    requires can_unwrap(*old(s), *old(b), old(mem)@), ch_sk.inv(old(mem)@), ch_sk.sk.b() != old(s).b(),
    ensures kept(*old(s), *old(b), old(mem)@, *final(s), *final(b), final(mem)@), r.is_ok() == su_is(lookup_link, old(s).sp(old(mem)@), ch_sk.sk.val(old(mem)@), old(b).val(old(mem)@)),
        r.is_ok() ==> ({ let (a, x, f) = (old(s).sp(old(mem)@), old(b).val(old(mem)@), ch_sk.sk.val(old(mem)@)); let a1 = sp_join(a, lookup_link.state(x.take(81)));
            &&& (r->Ok_0).inv(final(mem)@) && (r->Ok_0).pk.fresh(old(mem)@) && (r->Ok_0).pk.val(final(mem)@) == su_pk(a1, f, x)
            &&& read(*old(s), *old(b), old(mem)@, *final(s), *final(b), final(mem)@, 18756, mac_end(su_dend(a1, f, x))) }),
//@hint entry
hide(kept); hide(pk_valid); hide(kem_ok); hide(kem_dsp); hide(kem_key);
let ghost (h0, s0, b0) = (mem@, *s, *b);
let ghost x = b.val(h0);
let ghost f = ch_sk.sk.val(h0);
let ghost a1 = sp_join(s.sp(h0), lookup_link.state(x.take(81)));
//@hint after unwrap_join 0
let ghost (h1, s1, b1) = (mem@, *s, *b);
proof {
    lemma_read_next(s0, b0, h0, s1, b1, h1, 81, a1);
}
//@hint let unsubscribe_key 0
let ghost h2 = mem@;
let ghost t0 = unsubscribe_key;
proof {
    lemma_trits_ext(ch_sk.sk, h0, h1, set![s0.b()]);
    assert(h1.dom().contains(ch_sk.sk.b())); assert(ch_sk.sk.val(h2) =~= f);
    lemma_sp_same(s1, h1, h2); lemma_val_same(b1, h1, h2);
    assert forall|s2: Spongos, bb: TritSliceT, hh: Heap| keptx(s1, b1, h2, s2, bb, hh, t0.b()) implies kept(s1, b1, h1, s2, bb, hh) by { lemma_fresh_x(Mode::Mask, s1, b1, h1, h2, s2, bb, hh, t0); }
}
//@hint after unwrap_ntrukem 0
let ghost (h3, s3, b3) = (mem@, *s, *b);
let ghost e = kem_dsp(a1, f, x.skip(81));
proof {
    assert(kept(s1, b1, h1, s3, b3, h3));
    assert(read(s1, b1, h1, s3, b3, h3, 9216, e));
    lemma_read_cat(s0, b0, h0, s1, b1, h1, s3, b3, h3, 81, a1, 9216, e);
    lemma_read_next(s0, b0, h0, s3, b3, h3, 9297, e);
}
//@hint after commit 0
let ghost (h4, s4) = (mem@, *s);
let ghost a2 = su_dmid(a1, f, x);
proof {
    reveal(kept);
    assert(b3.b() != s3.b()); assert(h3.dom().contains(b3.b()));
    lemma_val_same(b3, h3, h4);
    assert(kept(s3, b3, h3, s4, b3, h4));
    assert(read(s3, b3, h3, s4, b3, h4, 0, a2));
    lemma_read_cat(s0, b0, h0, s3, b3, h3, s4, b3, h4, 9297, e, 0, a2);
    lemma_read_next(s0, b0, h0, s4, b3, h4, 9297, a2);
}
//@hint let sub_pk 0
let ghost (h5, s5, b5) = (mem@, *s, *b);
proof {
    lemma_r_field(Mode::Mask, s0, b0, h0, s4, b3, h4, s5, b5, h5, 9297, a2, 9216);
    assert(x.skip(18513) == b5.val(h5));
}
//@hint exit
proof {
    lemma_r_mac(s0, b0, h0, s5, b5, h5, *s, *b, mem@, 18513, sp_absorb(a2, su_pk(a1, f, x)));
    lemma_trits_ext(sub_pk.pk, h5, mem@, set![s0.b()]);
}

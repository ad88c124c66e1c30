//@module app::core::msg::header
//@file app/core/msg/header.rs
//@deps mem trits::util trits::slice trits::trits spongos pb3::spec pb3::err pb3::typ::trint pb3::typ::trytes pb3::msg app::core app::spec
//@prelude
use crate::mem::*;
use crate::trits::defs::*;
use crate::trits::util::*;
use crate::trits::b1t1::*;
use crate::trits::slice::*;
use crate::trits::trits::*;
use crate::spongos::*;
use crate::app::core::{AppInst, MsgId, APPINST_SIZE, MSGID_SIZE};
use crate::app::spec::*;
use crate::pb3::spec::*;
use crate::pb3::msg::*;
use crate::pb3::err::{Err, Result, guard};
use crate::pb3::typ::size::*;
use crate::pb3::typ::trytes::*;

/// the codeword of a header and the state after it
pub open spec fn hd_out(t: Seq<u8>) -> Seq<u8> { bt(3, 1) + s_trytes(t) }
pub open spec fn hd_end(a: SP, t: Seq<u8>, ai: Seq<u8>, id: Seq<u8>) -> SP { sp_absorb(sp_absorb(sp_absorb(sp_absorb(a, bt(3, 1)), s_trytes(t)), ai), id) }
pub open spec fn hd_is(x: Seq<u8>, t: Seq<u8>) -> bool { trytes_ok(t) && starts(x, hd_out(t)) }
pub proof fn lemma_hd(a: SP, x: Seq<u8>, t: Seq<u8>)
    requires sp_ok(a), is_trits(x),
    ensures hd_is(x, t) == (x.len() >= 3 && ival(x.take(3)) == 1 && is_trytes(x.skip(3), t)), hd_out(t).len() == 3 + s_trytes(t).len(),
{
    lemma_bt_len(3, 1);
    assert(half3(3) == 13) by(compute);
    lemma_ival_bt(3, 1);
    lemma_starts_cat(x, bt(3, 1), s_trytes(t));
    if x.len() >= 3 {
        lemma_skip_trits(x, 3);
        lemma_bt_ival(x.take(3));
        if is_trytes(x.skip(3), t) { lemma_is_trytes_ok(x.skip(3), t); }
    }
}
//@end
//@fn sizeof props=C10
    requires type_size <= size_max(),
    ensures forall|t: Seq<u8>| t.len() == 3 * type_size ==> r == (#[trigger] hd_out(t)).len(),
//@hint entry
proof { lemma_size_len(type_size as int); lemma_bt_len(3, 1); lemma_halfs(); }
//@fn wrap mem=rw props=C08,C10
    requires typ.0.ok(old(mem)@), typ.0.n % 3 == 0, typ.0.n / 3 <= size_max(), appinst.id.ok(old(mem)@), appinst.id.n == 243, msgid.id.ok(old(mem)@), msgid.id.n == 81,
        typ.0.b() != old(s).b(), typ.0.b() != old(b).b(), appinst.id.b() != old(s).b(), appinst.id.b() != old(b).b(), msgid.id.b() != old(s).b(), msgid.id.b() != old(b).b(),
        can_wrap(*old(s), *old(b), old(mem)@, hd_out(typ.0.val(old(mem)@)).len() as int),
    ensures wrote(*old(s), *old(b), old(mem)@, *final(s), *final(b), final(mem)@, hd_out(typ.0.val(old(mem)@)), hd_end(old(s).sp(old(mem)@), typ.0.val(old(mem)@), appinst.id.val(old(mem)@), msgid.id.val(old(mem)@)), set![old(s).b(), old(b).b()]),
//@hint entry
let ghost h0 = mem@;
let ghost s0 = *s;
let ghost b0 = *b;
let ghost z = set![s.b(), b.b()];
let ghost a0 = s.sp(mem@);
let ghost t = typ.0.val(mem@);
proof { lemma_bt_len(3, 1); lemma_wrote_none(s0, b0, h0, z); lemma_size_len(typ.0.n as int / 3); }
//@hint after wrap_absorb 0
let ghost h1 = mem@;
let ghost s1 = *s;
let ghost b1 = *b;
proof {
    lemma_w_field(Mode::Absorb, s0, b0, h0, s0, b0, h0, s1, b1, h1, Seq::empty(), a0, bt(3, 1), z);
    assert(Seq::<u8>::empty() + bt(3, 1) =~= bt(3, 1));
    lemma_trits_ext(typ.0, h0, h1, z);
}
//@hint after wrap_absorb 1
let ghost h2 = mem@;
proof {
    lemma_w_field(Mode::Absorb, s0, b0, h0, s1, b1, h1, *s, *b, h2, bt(3, 1), sp_absorb(a0, bt(3, 1)), s_trytes(t), z);
    lemma_trits_ext(appinst.id, h0, h2, z);
    assert(appinst.id.slice_spec().val(h2) =~= appinst.id.val(h0));
}
//@hint after absorb 0
proof {
    lemma_ext_s2(h2, mem@, s0.b(), s0.b(), z); lemma_ext_s(h0, h2, mem@, z);
    lemma_trits_ext(msgid.id, h0, mem@, z);
    assert(msgid.id.slice_spec().val(mem@) =~= msgid.id.val(h0));
}
let ghost h3 = mem@;
//@hint exit
proof { lemma_ext_s2(h3, mem@, s0.b(), s0.b(), z); lemma_ext_s(h0, h3, mem@, z); assert(h0.dom().contains(b0.b())); assert(h2.dom().contains(b0.b())); assert(h3.dom().contains(b0.b())); }
//@fn unwrap mem=rw props=C09,C10,C11
    requires appinst.id.ok(old(mem)@), appinst.id.n == 243, msgid.id.ok(old(mem)@), msgid.id.n == 81, appinst.id.b() != old(s).b(), msgid.id.b() != old(s).b(), can_unwrap(*old(s), *old(b), old(mem)@),
    ensures kept(*old(s), *old(b), old(mem)@, *final(s), *final(b), final(mem)@),
        r.is_ok() == exists|t: Seq<u8>| #[trigger] hd_is(old(b).val(old(mem)@), t),
        r.is_ok() ==> ({ let t = (r->Ok_0).0.val(final(mem)@);
            &&& (r->Ok_0).0.fresh(old(mem)@) && (r->Ok_0).0.ok(final(mem)@) && hd_is(old(b).val(old(mem)@), t)
            &&& read(*old(s), *old(b), old(mem)@, *final(s), *final(b), final(mem)@, hd_out(t).len() as int, hd_end(old(s).sp(old(mem)@), t, appinst.id.val(old(mem)@), msgid.id.val(old(mem)@))) }),
//@hint entry
let ghost h0 = mem@;
let ghost s0 = *s;
let ghost b0 = *b;
let ghost a0 = s.sp(mem@);
let ghost x = b.val(mem@);
proof {
    lemma_read_none(s0, b0, h0); lemma_sp_ok(s0, h0);
    assert forall|t: Seq<u8>| #[trigger] hd_is(x, t) implies x.len() >= 3 && ival(x.take(3)) == 1 && is_trytes(x.skip(3), t) by { lemma_hd(a0, x, t); }
}
//@hint let version 0
let ghost h1 = mem@;
let ghost s1 = *s;
let ghost b1 = *b;
let ghost a1 = sp_absorb(a0, bt(3, 1));
proof {
    lemma_r_field(Mode::Absorb, s0, b0, h0, s0, b0, h0, s1, b1, h1, 0, a0, 3);
    assert(input(Mode::Absorb, s1, b1, h1) == x.skip(3));
    if version.0 == 1 { lemma_skip_trits(x, 3); lemma_bt_ival(x.take(3)); }
}
//@hint let typ 0
let ghost h2 = mem@;
let ghost t = typ.0.val(h2);
let ghost l = s_trytes(t).len() as int;
proof {
    lemma_r_field(Mode::Absorb, s0, b0, h0, s1, b1, h1, *s, *b, h2, 3, a1, l);
    lemma_hd(a0, x, t);
    lemma_skip_trits(x, 3);
    lemma_is_trytes_ok(x.skip(3), t);
    assert(h0.dom().contains(appinst.id.b())); assert(h0.dom().contains(msgid.id.b()));
    assert(appinst.id.slice_spec().val(h2) =~= appinst.id.val(h0));
}
//@hint after absorb 0
let ghost h3 = mem@;
proof {
    assert(msgid.id.slice_spec().val(h3) =~= msgid.id.val(h0));
    lemma_sp_ok(*s, h3);
}
//@hint exit
proof {
    assert forall|c: int| #[trigger] h0.dom().contains(c) implies mem@.dom().contains(c) && (c != s0.b() ==> mem@[c] == h0[c]) by { assert(h2.dom().contains(c)); assert(h3.dom().contains(c)); }
    assert(typ.0.val(mem@) =~= t);
}

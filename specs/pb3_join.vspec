//@module pb3::cmd::join
//@file pb3/cmd/join.rs
//@deps mem trits::util trits::slice trits::trits spongos pb3::spec pb3::err pb3::typ::trytes pb3::msg
//@bound T crate::pb3::msg::Info
//@prelude
use crate::mem::*;
use crate::trits::defs::*;
use crate::trits::util::*;
use crate::trits::b1t1::*;
use crate::trits::slice::*;
use crate::trits::trits::*;
use crate::spongos::*;
use crate::pb3::spec::*;
use crate::pb3::msg::*;
use crate::pb3::err::{Err, Result, guard};
use crate::pb3::typ::trytes::sizeof_ntrytes;
/// what is linked by the first trits of `x`
pub open spec fn linked<T: Info, L: Lookup<T>>(f: L, x: Seq<u8>) -> bool { x.len() >= 81 && f.known(x.take(81)) }
//@end
//@fn sizeof_join props=C08,C10
    ensures r == 81,
//@fn wrap_join mem=rw props=C08,C10,C11
    requires can_wrap(*old(s), *old(b), old(mem)@, 81), old(slink).inv(old(mem)@), old(slink).b() != old(s).b(), old(slink).b() != old(b).b(),
        msgid.ok(old(mem)@), msgid.len() == 81, msgid.b() != old(s).b(), msgid.b() != old(b).b(), msgid.b() != old(slink).b(),
    ensures final(slink).inv(final(mem)@), final(slink).same(*old(slink)), final(slink).sp(final(mem)@) == sp_squeeze(old(slink).sp(old(mem)@), 243),
        wrote(*old(s), *old(b), old(mem)@, *final(s), *final(b), final(mem)@, msgid.val(old(mem)@), sp_join(old(s).sp(old(mem)@), old(slink).sp(old(mem)@)), set![old(s).b(), old(b).b(), old(slink).b()]),
//@hint after join 0
let ghost h1 = mem@;
proof { assert(old(mem)@.dom().contains(msgid.b())); assert(old(mem)@.dom().contains(old(b).b())); }
//@hint after copy 0
let ghost hc = mem@;
//@hint exit
proof {
    let v = msgid.val(old(mem)@);
    let m0 = old(mem)@;
    assert(m0.dom().contains(msgid.b())); assert(m0.dom().contains(old(b).b())); assert(m0.dom().contains(s.b())); assert(m0.dom().contains(slink.b()));
    assert(hc.dom().contains(old(b).b()) && h1.dom().contains(old(b).b()) && hc.dom().contains(s.b()) && hc.dom().contains(slink.b()));
    soft(msgid.val(h1) == msgid.val(old(mem)@));
    if h1[s.b()] == mem@[s.b()] { lemma_sp_same(*s, h1, mem@); }
    if h1[slink.b()] == mem@[slink.b()] { lemma_sp_same(*slink, h1, mem@); }
    if hc[s.b()] == m0[s.b()] { lemma_sp_same(*old(s), m0, hc); }
    if hc[slink.b()] == m0[slink.b()] { lemma_sp_same(*old(slink), m0, hc); }
    assert(mem@[old(b).b()] =~= old(b).put(old(mem)@, v)[old(b).b()]);
    let z = set![old(s).b(), old(b).b(), old(slink).b()];
    assert forall|c: int| #[trigger] old(mem)@.dom().contains(c) implies mem@.dom().contains(c) && (!z.contains(c) ==> mem@[c] == old(mem)@[c]) by { assert(h1.dom().contains(c) || hc.dom().contains(c)); }
}
//@fn unwrap_join mem=rw callas:lookup_link=lookup props=C08,C09,C10,C11
    requires can_unwrap(*old(s), *old(b), old(mem)@),
    ensures kept(*old(s), *old(b), old(mem)@, *final(s), *final(b), final(mem)@),
        r.is_ok() == linked::<T, Dyn0>(lookup_link, old(b).val(old(mem)@)),
        r.is_ok() ==> ({ let id = old(b).val(old(mem)@).take(81);
            &&& read(*old(s), *old(b), old(mem)@, *final(s), *final(b), final(mem)@, 81, sp_join(old(s).sp(old(mem)@), lookup_link.state(id)))
            &&& (r->Ok_0).iok(final(mem)@) && (r->Ok_0).iv(final(mem)@) == lookup_link.info(id) && forall|c: int| old(mem)@.dom().contains(c) ==> #[trigger] (r->Ok_0).off(c) }),
//@hint after zero 0
let ghost h1 = mem@;
//@hint before lookup_link 0
let ghost h2 = mem@;
let ghost v = old(b).val(old(mem)@).take(81);
proof {
    assert(msgid.slice_spec().val(h2) =~= v);
    assert forall|i: int| 0 <= i < 81 implies #[trigger] v[i] < 3 by { assert(old(b).val(old(mem)@)[i] < 3); }
    assert(extends(old(mem)@, h2)) by { assert forall|c: int| #[trigger] old(mem)@.dom().contains(c) implies h2.dom().contains(c) && h2[c] == old(mem)@[c] by { assert(h1.dom().contains(c)); } }
    assert forall|h3: Heap| #[trigger] extends(h2, h3) implies kept(*old(s), *old(b), old(mem)@, *s, *b, h3) && s.sp(h3) == s.sp(old(mem)@) by {
        assert(h2.dom().contains(s.b()));
        lemma_sp_same(*s, old(mem)@, h3);
        assert forall|c: int| #[trigger] old(mem)@.dom().contains(c) implies h3.dom().contains(c) && h3[c] == old(mem)@[c] by { assert(h2.dom().contains(c)); }
    }
}
//@hint before join 0
let ghost h4 = mem@;
//@hint exit
proof {
    let j = slink.b();
    assert(extends(h2, h4));
    let z = set![s.b(), slink.b()];
    assert(h2.dom().contains(s.b()));
    lemma_ext_s2(h4, mem@, s.b(), slink.b(), z);
    assert forall|b: int| z.contains(b) implies #[trigger] info.off(b) by { }
    info.lemma_info(h4, mem@, z);
    assert forall|c: int| #[trigger] old(mem)@.dom().contains(c) implies mem@.dom().contains(c) && (c != s.b() ==> mem@[c] == old(mem)@[c]) by { assert(h2.dom().contains(c)); assert(h4.dom().contains(c)); }
}

//@module mem
//@map std::cmp::min crate::mem::min_usize
//@map std::cmp::max crate::mem::max_usize
//@map TW Trit
//@map TW:: crate::trits::b1t1::
//@map Trit:: crate::trits::b1t1::
//@map String crate::mem::Str
//@map String:: crate::mem::Str::
//@map fmt::Formatter crate::mem::Formatter
//@map fmt::Result std::result::Result<(),crate::mem::FmtError>
//@map std::ptr::copy crate::mem::ptr_copy
//@map std::ptr::write_bytes crate::mem::ptr_write_bytes
//@alias TW TritWord
//@alias Trits TritsT
//@alias TritSlice TritSliceT
//@alias TritSliceMut TritSliceMutT
//@ext ptr_copy rw
//@ext Buf::clone rw
//@ext HashIn::hash_in ro
//@ext ptr_write_bytes rw
//@prelude
// Heap model: every allocation is a sequence of bytes named by an address.
// Trusted: raw pointer reads/writes, std::ptr::copy/write_bytes, Vec allocation.
global size_of usize == 8;
pub type Heap = Map<int, Seq<u8>>;

// single-bit forms of halving, doubling, parity and sibling
pub broadcast proof fn bit_shr(x: usize) ensures #[trigger] (x >> 1) == x / 2 { assert(x >> 1 == x / 2) by(bit_vector); }
pub broadcast proof fn bit_and(x: usize) ensures #[trigger] (x & 1) == x % 2 { assert(x & 1 == x % 2) by(bit_vector); }
pub broadcast proof fn bit_xor(x: usize) ensures #[trigger] (x ^ 1) == (if x % 2 == 0 { x + 1 } else { x - 1 }) { assert(x ^ 1 == (if x % 2 == 0 { add(x, 1) } else { sub(x, 1) })) by(bit_vector); assert(x % 2 == 0 ==> x < 0xffff_ffff_ffff_ffff); }
pub broadcast proof fn bit_or(x: usize) ensures #[trigger] (x | 1) == (if x % 2 == 0 { x + 1 } else { x as int }) { assert(x | 1 == (if x % 2 == 0 { add(x, 1) } else { x })) by(bit_vector); assert(x % 2 == 0 ==> x < 0xffff_ffff_ffff_ffff); }
pub broadcast proof fn bit_shl(x: usize) requires x < 0x8000_0000_0000_0000 ensures #[trigger] (x << 1) == 2 * x { assert(x < 0x8000_0000_0000_0000 ==> x << 1 == mul(2, x)) by(bit_vector); }
pub broadcast proof fn bit_shr_i(x: i32) requires x >= 0 ensures #[trigger] (x >> 1) == x / 2 { assert(x >= 0 ==> x >> 1 == x / 2) by(bit_vector); }
pub broadcast proof fn bit_and_i(x: i32) requires x >= 0 ensures #[trigger] (x & 1) == x % 2 { assert(x >= 0 ==> x & 1 == x % 2) by(bit_vector); }
pub broadcast proof fn bit_shl_i(x: i32) requires 0 <= x < 0x4000_0000 ensures #[trigger] (x << 1) == 2 * x { assert(0 <= x < 0x4000_0000 ==> x << 1 == mul(2, x)) by(bit_vector); }
pub broadcast group bits { bit_shr, bit_and, bit_xor, bit_or, bit_shl, bit_shr_i, bit_and_i, bit_shl_i }

#[verifier::external_body]
pub struct Mem { _p: [u8; 0] }

impl Mem {
    pub uninterp spec fn view(&self) -> Heap;
}

/// Rust allocations never exceed isize::MAX bytes.
pub spec const MAXSZ: int = 0x7fff_ffff_ffff_ffff;

#[derive(Clone, Copy)]
pub struct Ptr { pub base: Ghost<int>, pub off: usize }

pub open spec fn splice(x: Seq<u8>, o: int, s: Seq<u8>) -> Seq<u8> {
    Seq::new(x.len(), |i: int| if o <= i < o + s.len() { s[i - o] } else { x[i] })
}
pub open spec fn wr(h: Heap, b: int, o: int, s: Seq<u8>) -> Heap { h.insert(b, splice(h[b], o, s)) }
pub open spec fn rd(h: Heap, b: int, o: int, n: int) -> Seq<u8> { h[b].subrange(o, o + n) }
pub open spec fn valid(h: Heap, b: int, o: int, n: int) -> bool {
    h.dom().contains(b) && 0 <= o && 0 <= n && o + n <= h[b].len()
}
pub open spec fn zeros(n: int) -> Seq<u8> { Seq::new(n as nat, |i: int| 0u8) }
pub open spec fn is_trits(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] < 3 }

/// `h2` differs from `h1` only inside `[o, o+n)` of allocation `b`.
pub open spec fn only(h1: Heap, h2: Heap, b: int, o: int, n: int) -> bool {
    h1.dom().contains(b) && h2 == h1.insert(b, h2[b]) && h2[b].len() == h1[b].len()
    && (forall|i: int| 0 <= i < h1[b].len() && !(o <= i < o + n) ==> #[trigger] h2[b][i] == h1[b][i])
}
/// allocations of `h1` are kept unchanged in `h2`
pub open spec fn extends(h1: Heap, h2: Heap) -> bool {
    forall|b: int| #[trigger] h1.dom().contains(b) ==> h2.dom().contains(b) && h2[b] == h1[b]
}

impl Ptr {
    #[verifier::external_body]
    pub fn add(self, n: usize) -> (r: Ptr)
        requires self.off + n <= usize::MAX,
        ensures r.base == self.base, r.off == self.off + n,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn read(self, mem: &Mem) -> (r: u8)
        requires valid(mem@, self.base@, self.off as int, 1),
        ensures r == mem@[self.base@][self.off as int],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn write(self, v: u8, mem: &mut Mem)
        requires valid(old(mem)@, self.base@, self.off as int, 1),
        ensures final(mem)@ == wr(old(mem)@, self.base@, self.off as int, seq![v]),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn ptr_eq(self, o: Ptr) -> (r: bool)
        ensures r == (self.base == o.base && self.off == o.off),
    { unimplemented!() }
    /// Pointers are ordered by offset inside an allocation; distinct allocations do not overlap
    /// but their order is unknown.
    pub uninterp spec fn addr(self) -> int;
    #[verifier::external_body]
    pub fn ptr_le(self, o: Ptr) -> (r: bool)
        ensures r == (self.addr() <= o.addr()), self.base == o.base ==> r == (self.off <= o.off),
    { unimplemented!() }
}

#[verifier::external_body]
pub fn ptr_copy(x: Ptr, y: Ptr, n: usize, mem: &mut Mem)
    requires valid(old(mem)@, x.base@, x.off as int, n as int), valid(old(mem)@, y.base@, y.off as int, n as int),
    ensures final(mem)@ == wr(old(mem)@, y.base@, y.off as int, rd(old(mem)@, x.base@, x.off as int, n as int)),
{ unimplemented!() }

#[verifier::external_body]
pub fn ptr_write_bytes(p: Ptr, v: u8, n: usize, mem: &mut Mem)
    requires valid(old(mem)@, p.base@, p.off as int, n as int),
    ensures final(mem)@ == wr(old(mem)@, p.base@, p.off as int, Seq::new(n as nat, |i: int| v)),
{ unimplemented!() }

/// The byte buffer of a `TritsT` (a `Vec<u8>` in the source).
pub struct Buf { pub ptr: Ptr, pub len: usize }
impl Buf {
    pub fn as_ptr(&self) -> (r: Ptr) ensures r == self.ptr, { self.ptr }
    pub fn as_mut_ptr(&mut self) -> (r: Ptr) ensures r == old(self).ptr, *final(self) == *old(self), { self.ptr }
    pub fn len(&self) -> (r: usize) ensures r == self.len, { self.len }
    /// Vec::clone
    #[verifier::external_body]
    pub fn clone(&self, mem: &mut Mem) -> (r: Buf)
        requires self.ptr.off == 0, valid(old(mem)@, self.ptr.base@, 0, self.len as int),
        ensures r.len == self.len, r.ptr.off == 0, !old(mem)@.dom().contains(r.ptr.base@),
            final(mem)@ == old(mem)@.insert(r.ptr.base@, rd(old(mem)@, self.ptr.base@, 0, self.len as int)),
    { unimplemented!() }
}
#[verifier::external_body]
pub fn buf_alloc(v: u8, n: usize, mem: &mut Mem) -> (r: Buf)
    requires n <= MAXSZ,
    ensures r.len == n, r.ptr.off == 0, !old(mem)@.dom().contains(r.ptr.base@),
        final(mem)@ == old(mem)@.insert(r.ptr.base@, Seq::new(n as nat, |i: int| v)),
{ unimplemented!() }

#[verifier::external_body]
pub fn rust_panic() -> ! requires false, { panic!() }
/// a panic that is part of the behaviour (control does not come back)
#[verifier::external_body]
pub fn rust_abort() -> ! ensures false, { panic!() }

#[verifier::opaque]
pub closed spec fn mark(b: bool) -> bool { true }
/// claims nothing; the solver may split on `b`
pub proof fn soft(b: bool) ensures mark(b), { reveal(mark); }

/// makes a function depend on an implementation of Copy (Verus orders its axioms by such dependencies)
pub proof fn need_copy<T: Copy>() {}

pub fn min_usize(a: usize, b: usize) -> (r: usize) ensures r == if a <= b { a } else { b }, { if a <= b { a } else { b } }
pub fn max_usize(a: usize, b: usize) -> (r: usize) ensures r == if a >= b { a } else { b }, { if a >= b { a } else { b } }

/// Stand-in for std String (sequence of chars).
#[verifier::external_body]
pub struct Str { s: String }
impl Str {
    pub uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: Str) ensures r@ == Seq::<char>::empty(), { unimplemented!() }
    #[verifier::external_body]
    pub fn new() -> (r: Str) ensures r@ == Seq::<char>::empty(), { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, c: char) ensures final(self)@ == old(self)@.push(c), { unimplemented!() }
}
/// Stand-in for fmt::Formatter: the text written so far.
#[verifier::external_body]
pub struct Formatter { s: String }
pub struct FmtError {}
impl Formatter {
    pub uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn write_char(&mut self, c: char) -> (r: std::result::Result<(), FmtError>)
        ensures r.is_ok() ==> final(self)@ == old(self)@.push(c), { unimplemented!() }
}
/// Stand-in for a std::hash::Hasher: what was fed to it so far (assumed: integers and vectors feed their contents).
#[verifier::external_body]
pub struct HState { s: String }
pub enum HItem { N(int), S(Seq<u8>) }
impl HState { pub uninterp spec fn view(&self) -> Seq<HItem>; }
pub trait HashIn: Sized {
    spec fn hreq(&self, h: Heap) -> bool;
    spec fn hitem(&self, h: Heap) -> HItem;
    fn hash_in(&self, state: &mut HState, mem: &Mem)
        requires self.hreq(mem@),
        ensures final(state)@ == old(state)@.push(self.hitem(mem@));
}
impl HashIn for usize {
    open spec fn hreq(&self, h: Heap) -> bool { true }
    open spec fn hitem(&self, h: Heap) -> HItem { HItem::N(*self as int) }
    #[verifier::external_body]
    fn hash_in(&self, state: &mut HState, mem: &Mem) { unimplemented!() }
}
impl HashIn for Buf {
    open spec fn hreq(&self, h: Heap) -> bool { self.ptr.off == 0 && valid(h, self.ptr.base@, 0, self.len as int) }
    open spec fn hitem(&self, h: Heap) -> HItem { HItem::S(rd(h, self.ptr.base@, 0, self.len as int)) }
    #[verifier::external_body]
    fn hash_in(&self, state: &mut HState, mem: &Mem) { unimplemented!() }
}
#[verifier::external_body]
pub fn str_chars(s: &str) -> (r: Vec<char>) ensures r@ == s@, { unimplemented!() }
/// byte length of a string: at least the number of chars
#[verifier::external_body]
pub fn str_len(s: &str) -> (r: usize) ensures s@.len() <= r <= 4 * s@.len(), r <= MAXSZ,
        (forall|i: int| 0 <= i < s@.len() ==> 128 > (#[trigger] s@[i]) as int) ==> r == s@.len(), { unimplemented!() }

// ---- lemmas on the heap
pub proof fn lemma_wr_adj(h: Heap, b: int, o: int, s: Seq<u8>, t: Seq<u8>)
    requires h.dom().contains(b),
    ensures wr(wr(h, b, o, s), b, o + s.len(), t) == wr(h, b, o, s + t),
{
    let l = wr(wr(h, b, o, s), b, o + s.len(), t);
    let r = wr(h, b, o, s + t);
    assert(l[b] =~= r[b]);
    assert(l =~= r);
}
pub proof fn lemma_wr_over(h: Heap, b: int, o: int, s: Seq<u8>, t: Seq<u8>)
    requires h.dom().contains(b), s.len() == t.len(),
    ensures wr(wr(h, b, o, s), b, o, t) == wr(h, b, o, t),
{
    assert(wr(wr(h, b, o, s), b, o, t)[b] =~= wr(h, b, o, t)[b]);
    assert(wr(wr(h, b, o, s), b, o, t) =~= wr(h, b, o, t));
}
pub proof fn lemma_rd_wr(h: Heap, b: int, o: int, s: Seq<u8>)
    requires valid(h, b, o, s.len() as int),
    ensures rd(wr(h, b, o, s), b, o, s.len() as int) == s,
{
    assert(rd(wr(h, b, o, s), b, o, s.len() as int) =~= s);
}
pub proof fn lemma_rd_wr_sub(h: Heap, b: int, o: int, s: Seq<u8>, o2: int, n: int)
    requires valid(h, b, o, s.len() as int), o <= o2, 0 <= n, o2 + n <= o + s.len(),
    ensures rd(wr(h, b, o, s), b, o2, n) == s.subrange(o2 - o, o2 - o + n),
{
    assert(rd(wr(h, b, o, s), b, o2, n) =~= s.subrange(o2 - o, o2 - o + n));
}
pub proof fn lemma_rd_wr_disj(h: Heap, b: int, o: int, s: Seq<u8>, b2: int, o2: int, n: int)
    requires h.dom().contains(b), valid(h, b2, o2, n), b2 != b || o2 + n <= o || o + s.len() <= o2,
    ensures rd(wr(h, b, o, s), b2, o2, n) == rd(h, b2, o2, n),
{
    assert(rd(wr(h, b, o, s), b2, o2, n) =~= rd(h, b2, o2, n));
}
pub proof fn lemma_wr_rd(h: Heap, b: int, o: int, n: int)
    requires valid(h, b, o, n),
    ensures wr(h, b, o, rd(h, b, o, n)) == h,
{
    assert(wr(h, b, o, rd(h, b, o, n))[b] =~= h[b]);
    assert(wr(h, b, o, rd(h, b, o, n)) =~= h);
}
pub proof fn lemma_wr_comm(h: Heap, b1: int, o1: int, s1: Seq<u8>, b2: int, o2: int, s2: Seq<u8>)
    requires h.dom().contains(b1), h.dom().contains(b2), b1 != b2 || o1 + s1.len() <= o2 || o2 + s2.len() <= o1,
    ensures wr(wr(h, b1, o1, s1), b2, o2, s2) == wr(wr(h, b2, o2, s2), b1, o1, s1),
{
    let l = wr(wr(h, b1, o1, s1), b2, o2, s2);
    let r = wr(wr(h, b2, o2, s2), b1, o1, s1);
    assert(l[b1] =~= r[b1]);
    assert(l[b2] =~= r[b2]);
    assert(l =~= r);
}
pub proof fn lemma_wr_empty(h: Heap, b: int, o: int)
    requires h.dom().contains(b),
    ensures wr(h, b, o, Seq::<u8>::empty()) == h,
{
    assert(wr(h, b, o, Seq::<u8>::empty())[b] =~= h[b]);
    assert(wr(h, b, o, Seq::<u8>::empty()) =~= h);
}
pub proof fn lemma_wr_only(h: Heap, b: int, o: int, s: Seq<u8>)
    requires h.dom().contains(b),
    ensures only(h, wr(h, b, o, s), b, o, s.len() as int),
{
    let h2 = wr(h, b, o, s);
    assert(h2 =~= h.insert(b, h2[b]));
}
//@end

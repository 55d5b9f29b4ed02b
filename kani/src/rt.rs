//! Runtime of the harnesses: nondeterministic inputs, assumptions, witnesses, the element types
//! with destructor accounting, and ways to build a vector in an arbitrary valid state.
//!
//! Under Kani inputs are symbolic. Outside Kani the same harness runs on the concrete inputs of a
//! counterexample (a list of byte strings in the order in which the harness asks for inputs).

#![allow(dead_code)]

use core::mem::MaybeUninit;
use crate::witness;
use generic_vec::raw::Storage;
use generic_vec::GenericVec;

#[cfg(kani)]
mod imp {
    pub fn any_u8() -> u8 { kani::any() }
    pub fn any_u16() -> u16 { kani::any() }
    pub fn any_u32() -> u32 { kani::any() }
    pub fn any_usize() -> usize { kani::any() }
    pub fn assume(c: bool) { kani::assume(c) }
}

#[cfg(not(kani))]
mod imp {
    use std::cell::RefCell;
    use std::collections::VecDeque;
    thread_local!(pub static Q: RefCell<VecDeque<Vec<u8>>> = RefCell::new(VecDeque::new()));
    pub fn feed(v: VecDeque<Vec<u8>>) { Q.with(|q| *q.borrow_mut() = v) }
    fn take<const N: usize>() -> [u8; N] {
        Q.with(|q| {
            let v = q.borrow_mut().pop_front().unwrap_or_default();
            let mut out = [0u8; N];
            for (o, x) in out.iter_mut().zip(v) {
                *o = x
            }
            out
        })
    }
    pub fn any_u8() -> u8 { take::<1>()[0] }
    pub fn any_u16() -> u16 { u16::from_le_bytes(take()) }
    pub fn any_u32() -> u32 { u32::from_le_bytes(take()) }
    pub fn any_usize() -> usize { usize::from_le_bytes(take()) }
    pub fn assume(c: bool) {
        if !c {
            println!("GV-ASSUME-FAILED");
            std::process::exit(77)
        }
    }
}
pub use imp::*;

pub fn any_bool() -> bool { any_u8() & 1 == 1 }
/// any value `0..=max`
pub fn any_le(max: usize) -> usize {
    let x = any_u8() as usize;
    assume(x <= max);
    x
}
/// any value `0..n` (n > 0)
pub fn any_lt(n: usize) -> usize {
    assume(n > 0);
    any_le(n - 1)
}

/// reachability witness: the harness must be able to get here
#[macro_export]
macro_rules! witness {
    ($c:expr, $m:literal) => {
        #[cfg(kani)]
        kani::cover!($c, $m);
        #[cfg(not(kani))]
        let _ = $c;
    };
}

#[macro_export]
macro_rules! gv_assert {
    ($c:expr, $m:literal) => {
        assert!($c, concat!("GV-", $m))
    };
}

/// Runs `f`, which must panic. Under Kani the assertion behind the call must be unreachable.
#[cfg(kani)]
pub fn must_panic<R>(f: impl FnOnce() -> R) {
    kani::cover!(true, "refusal reached");
    let r = f();
    core::mem::forget(r);
    assert!(false, "GV-NOPANIC")
}
#[cfg(not(kani))]
pub fn must_panic<R>(f: impl FnOnce() -> R) {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => {
            core::mem::forget(r);
            assert!(false, "GV-NOPANIC")
        }
        Err(_) => (),
    }
}

// ---------------------------------------------------------------------------------------------
// elements

pub const MAXID: usize = 32;
static mut NEXT: u8 = 0;
static mut DROPPED: u32 = 0;
static mut ORIGIN: [u8; MAXID] = [0; MAXID];

pub fn next_id() -> u8 { unsafe { NEXT } }
/// how often the element was dropped (a second time is an assertion failure)
pub fn drops(id: u8) -> u8 { unsafe { (DROPPED >> (id & 31)) as u8 & 1 } }
pub fn reset() {
    unsafe {
        NEXT = 0;
        DROPPED = 0;
        ORIGIN = [0; MAXID];
        ZMADE = 0;
        ZDROPS = 0;
        LEAKED = false;
    }
}

/// An element with an identity. Two bytes, so that mixed up offsets and torn copies show.
#[repr(C, align(2))]
pub struct Tok {
    id: u8,
    chk: u8,
}

impl Tok {
    pub fn new() -> Tok {
        unsafe {
            let id = NEXT;
            assume((id as usize) < MAXID);
            NEXT = id + 1;
            Tok { id, chk: !id }
        }
    }
    fn copy_of(origin: u8) -> Tok {
        let t = Tok::new();
        unsafe { ORIGIN[t.id as usize] = origin + 1 }
        t
    }
    #[inline]
    pub fn id(&self) -> u8 {
        gv_assert!(self.chk == !self.id && self.id < next_id(), "garbage element");
        self.id
    }
    /// the id of the element this one was cloned from
    #[inline]
    pub fn origin(&self) -> u8 {
        let id = self.id();
        match unsafe { ORIGIN[id as usize] } {
            0 => id,
            o => o - 1,
        }
    }
}
impl Clone for Tok {
    fn clone(&self) -> Tok {
        gv_assert!(drops(self.id()) == 0, "cloned a dropped element");
        Tok::copy_of(self.origin())
    }
}
static mut CLASSES: u8 = 0;
/// equality of the first four elements: two bits per identity
pub fn set_classes(c: u8) { unsafe { CLASSES = c } }
impl PartialEq for Tok {
    fn eq(&self, o: &Tok) -> bool {
        let (i, j) = (self.id(), o.id());
        gv_assert!(drops(i) == 0 && drops(j) == 0, "compared a dropped element");
        if i < 4 && j < 4 {
            unsafe { CLASSES >> (2 * i) & 3 == CLASSES >> (2 * j) & 3 }
        } else {
            i == j
        }
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        let id = self.id();
        unsafe {
            gv_assert!(DROPPED >> id & 1 == 0, "element dropped twice");
            DROPPED |= 1 << id;
        }
    }
}

static mut LEAKED: bool = false;
/// the harness leaks something on purpose: elements may be lost (but never dropped twice)
pub fn leak_ok() { unsafe { LEAKED = true } }

/// every element ever made was dropped exactly once
pub fn all_dropped_once() {
    let q = any_u8();
    if (q as usize) < MAXID && q < next_id() && !unsafe { LEAKED } {
        gv_assert!(drops(q) == 1, "element not dropped exactly once");
    }
}

static mut ZMADE: usize = 0;
static mut ZDROPS: usize = 0;
/// zero-sized element with destructor accounting
pub struct Z(());
impl Z {
    pub fn new() -> Z {
        unsafe { ZMADE += 1 };
        Z(())
    }
}
impl Clone for Z {
    fn clone(&self) -> Z { Z::new() }
}
impl PartialEq for Z {
    fn eq(&self, _: &Z) -> bool { true }
}
impl Drop for Z {
    fn drop(&mut self) {
        unsafe {
            ZDROPS += 1;
            gv_assert!(ZDROPS <= ZMADE, "zero-sized element dropped twice");
        }
    }
}
pub fn zlive() -> usize { unsafe { ZMADE - ZDROPS } }
pub fn zdrops() -> usize { unsafe { ZDROPS } }
pub fn zmade() -> usize { unsafe { ZMADE } }
/// pretend `n` zero-sized elements exist already
pub fn zforge(n: usize) { unsafe { ZMADE += n } }
/// `n` zero-sized elements never existed
pub unsafe fn zunmake(n: usize) { ZMADE -= n }
pub fn z_all_dropped() { gv_assert!(zlive() == 0 || unsafe { LEAKED }, "zero-sized elements not dropped exactly once") }

/// An element without a destructor, two bytes large
#[repr(C, align(2))]
pub struct P(u8, u8);
impl P {
    pub fn new() -> P {
        unsafe {
            let id = NEXT;
            assume((id as usize) < MAXID);
            NEXT = id + 1;
            P(id, !id)
        }
    }
    pub fn id(&self) -> u8 {
        gv_assert!(self.1 == !self.0 && self.0 < next_id(), "garbage element");
        self.0
    }
}
impl Clone for P {
    fn clone(&self) -> P {
        let o = self.origin_id();
        let t = P::new();
        unsafe { ORIGIN[t.0 as usize] = o + 1 }
        t
    }
}
impl PartialEq for P {
    fn eq(&self, o: &P) -> bool {
        let (i, j) = (self.id(), o.id());
        if i < 4 && j < 4 {
            unsafe { CLASSES >> (2 * i) & 3 == CLASSES >> (2 * j) & 3 }
        } else {
            i == j
        }
    }
}
impl Elem for P {
    const ZST: bool = false;
    const TRACKED: bool = false;
    fn make() -> Self { P::new() }
    fn ident(&self) -> u8 { self.id() }
    fn live_check(&self) {}
    fn origin_id(&self) -> u8 {
        let id = self.id();
        match unsafe { ORIGIN[id as usize] } {
            0 => id,
            o => o - 1,
        }
    }
    fn finish() {}
}

/// What a harness needs to know about the elements to state its oracle over positions.
pub trait Elem: Sized + Clone + PartialEq {
    const ZST: bool;
    /// the destructor runs are recorded by identity
    const TRACKED: bool;
    fn make() -> Self;
    /// identity (always 0 for zero-sized elements)
    fn ident(&self) -> u8;
    fn live_check(&self);
    /// identity of the element this one was cloned from
    fn origin_id(&self) -> u8;
    fn finish();
}
impl Elem for Tok {
    const ZST: bool = false;
    const TRACKED: bool = true;
    fn make() -> Self { Tok::new() }
    fn ident(&self) -> u8 { self.id() }
    fn live_check(&self) { gv_assert!(drops(self.id()) == 0, "a dropped element is reachable") }
    fn origin_id(&self) -> u8 { self.origin() }
    fn finish() { all_dropped_once() }
}
impl Elem for Z {
    const ZST: bool = true;
    const TRACKED: bool = false;
    fn make() -> Self { Z::new() }
    fn ident(&self) -> u8 { 0 }
    fn live_check(&self) {}
    fn origin_id(&self) -> u8 { 0 }
    fn finish() { z_all_dropped() }
}

/// any range of positions within `len`
pub fn any_range(len: usize) -> (usize, usize) {
    let s = any_u8() as usize;
    let e = any_u8() as usize;
    assume(s <= e && e <= len);
    (s, e)
}

/// Runs `f` on any number up to `max` (at most 4), as separate cases with that number fixed
#[inline(never)]
pub fn pick(max: usize, mut f: impl FnMut(usize)) {
    match any_le(max) {
        0 => f(0),
        1 if max >= 1 => f(1),
        2 if max >= 2 => f(2),
        3 if max >= 3 => f(3),
        4 if max >= 4 => f(4),
        _ => (),
    }
}

/// The `p`-th of the positions `0..len` whose bit in `gone` is not set
pub fn nth_kept(gone: u8, len: usize, p: usize) -> usize {
    let mut left = p;
    let mut i = 0;
    while i < len {
        if gone >> i & 1 == 0 {
            if left == 0 {
                return i;
            }
            left -= 1;
        }
        i += 1;
    }
    len
}
/// how many of the positions `0..len` have their bit set
pub fn count(gone: u8, len: usize) -> usize {
    let mut n = 0;
    let mut i = 0;
    while i < len {
        n += (gone >> i & 1) as usize;
        i += 1;
    }
    n
}

/// the expected identity of the element (zero-sized elements have none)
pub fn idt<E: Elem>(i: usize) -> u8 {
    if E::ZST {
        0
    } else {
        i as u8
    }
}

// ---------------------------------------------------------------------------------------------
// vectors in an arbitrary valid state

/// largest capacity of the vectors (elements)
pub const N: usize = 4;

pub type V<E, S> = GenericVec<E, S>;

/// Puts elements with ids 0..len into the empty vector `v`, without using operations under test
/// other than the (unsafe) accessors.
pub fn setup<E: Elem, S: ?Sized + Storage<E>>(v: &mut GenericVec<E, S>, len: usize) {
    unsafe {
        let mut i = 0;
        while i < len {
            let e = E::make();
            if !E::ZST {
                v.as_mut_ptr().add(i).write(e);
            } else {
                core::mem::forget(e);
            }
            i += 1;
        }
        v.set_len_unchecked(len);
    }
}

/// The vector holds exactly `len` elements, and the one at every position `p` is `f(p)`
pub fn expect<E: Elem, S: ?Sized + Storage<E>>(v: &GenericVec<E, S>, len: usize, f: impl Fn(usize) -> usize) {
    gv_assert!(v.len() == len, "wrong length");
    gv_assert!(len <= v.capacity(), "length above capacity");
    let s: &[E] = v.as_slice();
    gv_assert!(s.len() == len, "slice view has another length");
    let p = any_u8() as usize;
    if p < len {
        gv_assert!(s[p].ident() == idt::<E>(f(p)), "wrong element");
        s[p].live_check();
    }
}

/// A step of a harness for every storage.
pub trait Body<E: Elem> {
    fn run<S: Storage<E>>(self, v: &mut GenericVec<E, S>, len: usize);
}

#[repr(C, align(8))]
pub struct Bytes<const M: usize>(pub [MaybeUninit<u8>; M]);

/// storages
pub mod store {
    use super::*;

    // Slice storage of any capacity 0..=C inside a larger buffer whose other bytes must not change
    fn slice_of<E: Elem, B: Body<E>, const C: usize>(b: B) {
        const PRE: usize = 1;
        const POST: usize = 1;
        let size = core::mem::size_of::<E>();
        let cap = any_le(C);
        let len = any_le(C);
        assume(len <= cap);
        // a byte buffer: the model checker moves bytes of byte arrays precisely
        const BYTES: usize = 2 * (PRE + N + POST);
        let mut raw: Bytes<BYTES> = Bytes([MaybeUninit::new(0xa5); BYTES]);
        {
            let buf = unsafe {
                core::slice::from_raw_parts_mut(raw.0.as_mut_ptr().cast::<MaybeUninit<E>>().add(PRE), cap)
            };
            let mut v = generic_vec::SliceVec::new(buf);
            let p0 = v.as_ptr();
            setup(&mut v, len);
            b.run(&mut v, len);
            witness!(true, "end reached");
            gv_assert!(v.as_ptr() == p0, "fixed storage moved its elements");
            gv_assert!(v.capacity() == cap, "fixed storage changed its capacity");
        }
        let q = any_u8() as usize;
        if q < size * PRE || (q >= size * (PRE + cap) && q < BYTES) {
            let t = unsafe { raw.0[q].assume_init() };
            gv_assert!(t == 0xa5, "wrote outside the buffer");
        }
        E::finish();
    }
    pub fn slice<B: Body<Tok>>(b: B) { slice_of::<Tok, B, N>(b) }
    /// up to three slots
    pub fn slice3<B: Body<Tok>>(b: B) { slice_of::<Tok, B, 3>(b) }
    /// up to two slots
    pub fn slice2<B: Body<Tok>>(b: B) { slice_of::<Tok, B, 2>(b) }
    /// slots for elements without a destructor
    pub fn pslice<B: Body<P>>(b: B) { slice_of::<P, B, N>(b) }
    pub fn pslice3<B: Body<P>>(b: B) { slice_of::<P, B, 3>(b) }
    pub fn pslice2<B: Body<P>>(b: B) { slice_of::<P, B, 2>(b) }

    // Inline buffer storage of capacity C
    fn ty_of<B: Body<Tok>, const C: usize>(b: B) {
        let len = any_le(C);
        let mut v = generic_vec::TypeVec::<Tok, [Tok; C]>::new();
        setup(&mut v, len);
        b.run(&mut v, len);
        witness!(true, "end reached");
        gv_assert!(v.capacity() == C, "fixed storage changed its capacity");
        drop(v);
        Tok::finish();
    }
    pub fn ty<B: Body<Tok>>(b: B) { ty_of::<B, N>(b) }
    pub fn ty3<B: Body<Tok>>(b: B) { ty_of::<B, 3>(b) }
    pub fn ty2<B: Body<Tok>>(b: B) { ty_of::<B, 2>(b) }

    #[cfg(feature = "alloc")]
    fn heap_cap_len<B: Body<Tok>, const C: usize, const L: usize>(b: B) {
        let mut v: generic_vec::HeapVec<Tok> = generic_vec::HeapVec::with_capacity(C);
        assume(v.capacity() == C);
        setup(&mut v, L);
        b.run(&mut v, L);
        witness!(true, "end reached");
        drop(v);
        Tok::finish();
    }

    // The sizes of heap blocks are split into cases (the solver is not asked about blocks of
    // symbolic size): every length up to the capacity is a separate case of the harness
    #[cfg(feature = "alloc")]
    pub fn heap_cap<B: Body<Tok>, const C: usize>(b: B) {
        let len = any_le(C);
        match len {
            0 => heap_cap_len::<B, C, 0>(b),
            1 if C >= 1 => heap_cap_len::<B, C, 1>(b),
            2 if C >= 2 => heap_cap_len::<B, C, 2>(b),
            3 if C >= 3 => heap_cap_len::<B, C, 3>(b),
            4 if C >= 4 => heap_cap_len::<B, C, 4>(b),
            _ => (),
        }
    }

    macro_rules! heap {
        ($($n:ident $c:literal)*) => {$(
            /// Heap storage with the capacity given by the name
            #[cfg(feature = "alloc")]
            pub fn $n<B: Body<Tok>>(b: B) { heap_cap::<B, $c>(b) }
        )*}
    }
    heap!(heap0 0 heap1 1 heap2 2 heap3 3 heap4 4);

    // Boxed inline buffer of capacity C
    #[cfg(feature = "alloc")]
    fn boxed_of<B: Body<Tok>, const C: usize>(b: B) {
        let len = any_le(C);
        let s: Box<generic_vec::raw::UninitBuffer<[Tok; C], Tok>> = Box::new(generic_vec::raw::UninitBuffer::uninit());
        let p = &*s as *const _ as usize;
        let mut v: GenericVec<Tok, Box<generic_vec::raw::UninitBuffer<[Tok; C], Tok>>> = GenericVec::with_storage(s);
        setup(&mut v, len);
        b.run(&mut v, len);
        witness!(true, "end reached");
        gv_assert!(v.capacity() == C, "fixed storage changed its capacity");
        gv_assert!(v.as_ptr() as usize == p, "boxed storage does not point to the boxed buffer");
        drop(v);
        Tok::finish();
    }
    #[cfg(feature = "alloc")]
    pub fn boxed<B: Body<Tok>>(b: B) { boxed_of::<B, 3>(b) }
    #[cfg(feature = "alloc")]
    pub fn boxed2<B: Body<Tok>>(b: B) { boxed_of::<B, 2>(b) }

    // A mutable reference to an inline buffer of capacity C
    fn refmut_of<B: Body<Tok>, const C: usize>(b: B) {
        let len = any_le(C);
        let mut s: generic_vec::raw::UninitBuffer<[Tok; C], Tok> = generic_vec::raw::UninitBuffer::uninit();
        let p = &s as *const _ as usize;
        let mut v: GenericVec<Tok, &mut generic_vec::raw::UninitBuffer<[Tok; C], Tok>> = GenericVec::with_storage(&mut s);
        setup(&mut v, len);
        b.run(&mut v, len);
        witness!(true, "end reached");
        gv_assert!(v.capacity() == C, "fixed storage changed its capacity");
        gv_assert!(v.as_ptr() as usize == p, "a storage behind a reference does not point to that storage");
        drop(v);
        Tok::finish();
    }
    pub fn refmut<B: Body<Tok>>(b: B) { refmut_of::<B, 3>(b) }
    pub fn refmut2<B: Body<Tok>>(b: B) { refmut_of::<B, 2>(b) }

    /// An unsized storage: a vector on a box of a dynamically sized slice of slots
    #[cfg(feature = "alloc")]
    pub fn dynbuf<B: Body<Tok>>(b: B) {
        let len = any_le(2);
        let mut s: Box<[MaybeUninit<Tok>]> = Box::new([MaybeUninit::<Tok>::uninit(), MaybeUninit::uninit()]);
        let p = s.as_ptr() as usize;
        let s: Box<generic_vec::raw::UninitSlice<Tok>> = unsafe { core::mem::transmute(s) };
        let mut v: GenericVec<Tok, Box<generic_vec::raw::UninitSlice<Tok>>> = GenericVec::with_storage(s);
        setup(&mut v, len);
        b.run(&mut v, len);
        witness!(true, "end reached");
        gv_assert!(v.capacity() == 2, "fixed storage changed its capacity");
        gv_assert!(v.as_ptr() as usize == p, "boxed storage does not point to the boxed buffer");
        drop(v);
        Tok::finish();
    }

    /// Counter of zero-sized elements
    pub fn zs<B: Body<Z>>(b: B) { zs_of(b, any_le(N)) }
    pub fn zs2<B: Body<Z>>(b: B) { zs_of(b, any_le(2)) }
    fn zs_of<B: Body<Z>>(b: B, len: usize) {
        let mut v = generic_vec::ZSVec::<Z>::new();
        setup(&mut v, len);
        b.run(&mut v, len);
        witness!(true, "end reached");
        drop(v);
        Z::finish();
    }

    /// Zero-sized elements in a slice
    pub fn zslice<B: Body<Z>>(b: B) { zslice_of(b, any_le(N)) }
    pub fn zslice2<B: Body<Z>>(b: B) { zslice_of(b, any_le(2)) }
    fn zslice_of<B: Body<Z>>(b: B, len: usize) {
        let mut buf: [MaybeUninit<Z>; N] = unsafe { MaybeUninit::uninit().assume_init() };
        let mut v = generic_vec::SliceVec::<Z>::new(&mut buf);
        setup(&mut v, len);
        b.run(&mut v, len);
        witness!(true, "end reached");
        drop(v);
        Z::finish();
    }

    /// Zero-sized elements in an inline buffer
    pub fn zty<B: Body<Z>>(b: B) { zty_of(b, any_le(N)) }
    pub fn zty2<B: Body<Z>>(b: B) { zty_of(b, any_le(2)) }
    fn zty_of<B: Body<Z>>(b: B, len: usize) {
        let mut v = generic_vec::TypeVec::<Z, [Z; 1]>::new();
        setup(&mut v, len);
        b.run(&mut v, len);
        witness!(true, "end reached");
        drop(v);
        Z::finish();
    }

    /// Zero-sized elements on the heap
    #[cfg(feature = "alloc")]
    pub fn zheap<B: Body<Z>>(b: B) { zheap_of(b, any_le(N)) }
    #[cfg(feature = "alloc")]
    pub fn zheap2<B: Body<Z>>(b: B) { zheap_of(b, any_le(2)) }
    #[cfg(feature = "alloc")]
    fn zheap_of<B: Body<Z>>(b: B, len: usize) {
        let mut v = generic_vec::HeapVec::<Z>::new();
        setup(&mut v, len);
        b.run(&mut v, len);
        witness!(true, "end reached");
        drop(v);
        Z::finish();
    }
}

/// One operation, run from an arbitrary valid state on several storages.
/// The string names the properties and flags; the driver reads it (see /verif/gv/driver.py).
#[macro_export]
macro_rules! op {
    ($m:ident, $props:literal, unwind $u:literal, [$($st:ident)*] alloc [$($al:ident)*],
     <$E:ident> |$v:ident, $len:ident| $b:block) => {
        pub mod $m {
            #![allow(unused_imports)]
            use super::*;
            pub struct B;
            impl<$E: Elem> Body<$E> for B {
                fn run<S: Storage<$E>>(self, $v: &mut GenericVec<$E, S>, $len: usize) $b
            }
            $(
                #[cfg_attr(kani, kani::proof)]
                #[cfg_attr(kani, kani::unwind($u))]
                pub fn $st() { store::$st(B) }
            )*
            $(
                #[cfg(feature = "alloc")]
                #[cfg_attr(kani, kani::proof)]
                #[cfg_attr(kani, kani::unwind($u))]
                pub fn $al() { store::$al(B) }
            )*
        }
    };
}

/// A free-standing harness.
#[macro_export]
macro_rules! harness {
    ($m:ident, $props:literal, unwind $u:literal, $b:block) => {
        pub mod $m {
            #![allow(unused_imports)]
            use super::*;
            #[cfg_attr(kani, kani::proof)]
            #[cfg_attr(kani, kani::unwind($u))]
            pub fn h() $b
        }
    };
}

/// A step of a harness that consumes the vector.
pub trait Own<E: Elem> {
    fn run<S: Storage<E>>(self, v: GenericVec<E, S>, len: usize);
}

/// storages for steps that consume the vector
pub mod own {
    use super::*;

    fn slice_of<E: Elem, B: Own<E>, const C: usize>(b: B) {
        let size = core::mem::size_of::<E>();
        let cap = any_le(C);
        let len = any_le(C);
        assume(len <= cap);
        const BYTES: usize = 2 * (N + 2);
        let mut raw: Bytes<BYTES> = Bytes([MaybeUninit::new(0xa5); BYTES]);
        {
            let buf = unsafe { core::slice::from_raw_parts_mut(raw.0.as_mut_ptr().cast::<MaybeUninit<E>>().add(1), cap) };
            let mut v = generic_vec::SliceVec::new(buf);
            setup(&mut v, len);
            b.run(v, len);
            witness!(true, "end reached");
        }
        let q = any_u8() as usize;
        if q < size || (q >= size * (1 + cap) && q < BYTES) {
            let t = unsafe { raw.0[q].assume_init() };
            gv_assert!(t == 0xa5, "wrote outside the buffer");
        }
        E::finish();
    }
    pub fn slice<B: Own<Tok>>(b: B) { slice_of::<Tok, B, N>(b) }
    pub fn slice3<B: Own<Tok>>(b: B) { slice_of::<Tok, B, 3>(b) }
    pub fn slice2<B: Own<Tok>>(b: B) { slice_of::<Tok, B, 2>(b) }
    pub fn pslice<B: Own<P>>(b: B) { slice_of::<P, B, N>(b) }
    pub fn pslice3<B: Own<P>>(b: B) { slice_of::<P, B, 3>(b) }
    pub fn pslice2<B: Own<P>>(b: B) { slice_of::<P, B, 2>(b) }

    fn ty_of<B: Own<Tok>, const C: usize>(b: B) {
        let len = any_le(C);
        let mut v = generic_vec::TypeVec::<Tok, [Tok; C]>::new();
        setup(&mut v, len);
        b.run(v, len);
        witness!(true, "end reached");
        Tok::finish();
    }
    pub fn ty<B: Own<Tok>>(b: B) { ty_of::<B, N>(b) }
    pub fn ty3<B: Own<Tok>>(b: B) { ty_of::<B, 3>(b) }

    #[cfg(feature = "alloc")]
    fn heap_cap_len<B: Own<Tok>, const C: usize, const L: usize>(b: B) {
        let mut v: generic_vec::HeapVec<Tok> = generic_vec::HeapVec::with_capacity(C);
        assume(v.capacity() == C);
        setup(&mut v, L);
        b.run(v, L);
        witness!(true, "end reached");
        Tok::finish();
    }
    #[cfg(feature = "alloc")]
    fn heap_cap<B: Own<Tok>, const C: usize>(b: B) {
        match any_le(C) {
            0 => heap_cap_len::<B, C, 0>(b),
            1 if C >= 1 => heap_cap_len::<B, C, 1>(b),
            2 if C >= 2 => heap_cap_len::<B, C, 2>(b),
            3 if C >= 3 => heap_cap_len::<B, C, 3>(b),
            4 if C >= 4 => heap_cap_len::<B, C, 4>(b),
            _ => (),
        }
    }
    #[cfg(feature = "alloc")]
    pub fn heap0<B: Own<Tok>>(b: B) { heap_cap::<B, 0>(b) }
    #[cfg(feature = "alloc")]
    pub fn heap2<B: Own<Tok>>(b: B) { heap_cap::<B, 2>(b) }
    #[cfg(feature = "alloc")]
    pub fn heap3<B: Own<Tok>>(b: B) { heap_cap::<B, 3>(b) }

    #[cfg(feature = "alloc")]
    fn boxed_of<B: Own<Tok>, const C: usize>(b: B) {
        let len = any_le(C);
        let s: Box<generic_vec::raw::UninitBuffer<[Tok; C], Tok>> = Box::new(generic_vec::raw::UninitBuffer::uninit());
        let mut v: GenericVec<Tok, Box<generic_vec::raw::UninitBuffer<[Tok; C], Tok>>> = GenericVec::with_storage(s);
        setup(&mut v, len);
        b.run(v, len);
        witness!(true, "end reached");
        Tok::finish();
    }
    #[cfg(feature = "alloc")]
    pub fn boxed<B: Own<Tok>>(b: B) { boxed_of::<B, 3>(b) }
    #[cfg(feature = "alloc")]
    pub fn boxed2<B: Own<Tok>>(b: B) { boxed_of::<B, 2>(b) }

    fn zs_of<B: Own<Z>>(b: B, len: usize) {
        let mut v = generic_vec::ZSVec::<Z>::new();
        setup(&mut v, len);
        b.run(v, len);
        witness!(true, "end reached");
        Z::finish();
    }
    pub fn zs<B: Own<Z>>(b: B) { zs_of(b, any_le(N)) }
    pub fn zs2<B: Own<Z>>(b: B) { zs_of(b, any_le(2)) }

    pub fn zty<B: Own<Z>>(b: B) {
        let len = any_le(N);
        let mut v = generic_vec::TypeVec::<Z, [Z; 1]>::new();
        setup(&mut v, len);
        b.run(v, len);
        witness!(true, "end reached");
        Z::finish();
    }
    #[cfg(feature = "alloc")]
    pub fn zheap<B: Own<Z>>(b: B) {
        let len = any_le(N);
        let mut v = generic_vec::HeapVec::<Z>::new();
        setup(&mut v, len);
        b.run(v, len);
        witness!(true, "end reached");
        Z::finish();
    }
}

/// One operation that consumes the vector (the storages are those of `own`).
#[macro_export]
macro_rules! own {
    ($m:ident, $props:literal, unwind $u:literal, [$($st:ident)*] alloc [$($al:ident)*],
     <$E:ident> |$v:ident, $len:ident| $b:block) => {
        pub mod $m {
            #![allow(unused_imports)]
            use super::*;
            pub struct B;
            impl<$E: Elem> Own<$E> for B {
                fn run<S: Storage<$E>>(self, mut $v: GenericVec<$E, S>, $len: usize) $b
            }
            $(
                #[cfg_attr(kani, kani::proof)]
                #[cfg_attr(kani, kani::unwind($u))]
                pub fn $st() { $crate::rt::own::$st(B) }
            )*
            $(
                #[cfg(feature = "alloc")]
                #[cfg_attr(kani, kani::proof)]
                #[cfg_attr(kani, kani::unwind($u))]
                pub fn $al() { $crate::rt::own::$al(B) }
            )*
        }
    };
}

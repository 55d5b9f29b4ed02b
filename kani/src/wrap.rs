//! Wrappers of storages forward to what they wrap (C25).
use crate::rt::*;
use crate::{gv_assert, harness, op, witness};
use core::mem::MaybeUninit;
use generic_vec::raw::{Storage, StorageWithCapacity, UninitBuffer, UninitSlice};
use generic_vec::GenericVec;

/// A storage that answers with what it is told to and records what it is asked
#[repr(C)]
pub struct Mock<const ALIGNED: bool> {
    buf: [u16; 2],
    cap: usize,
    shift: usize,
    answer: bool,
    asked: usize,
    kind: u8,
    calls: u8,
}
static mut MADE: (usize, u8) = (0, 0);

impl<const ALIGNED: bool> Mock<ALIGNED> {
    fn any() -> Self {
        Mock {
            buf: [0; 2],
            cap: any_usize(),
            shift: any_le(1),
            answer: any_bool(),
            asked: 0,
            kind: 0,
            calls: 0,
        }
    }
}
impl<const ALIGNED: bool> Default for Mock<ALIGNED> {
    fn default() -> Self {
        unsafe { MADE = (0, 9) };
        Mock { buf: [0; 2], cap: 0, shift: 0, answer: false, asked: 0, kind: 0, calls: 0 }
    }
}
unsafe impl<const ALIGNED: bool> Storage<u16> for Mock<ALIGNED> {
    const CONST_CAPACITY: Option<usize> = if ALIGNED { Some(77) } else { None };
    const IS_ALIGNED: bool = ALIGNED;
    fn capacity(&self) -> usize { self.cap }
    fn as_ptr(&self) -> *const u16 { unsafe { self.buf.as_ptr().add(self.shift) } }
    fn as_mut_ptr(&mut self) -> *mut u16 { unsafe { self.buf.as_mut_ptr().add(self.shift) } }
    fn reserve(&mut self, n: usize) {
        self.asked = n;
        self.kind = 1;
        self.calls += 1;
        self.cap = n;
    }
    fn try_reserve(&mut self, n: usize) -> bool {
        self.asked = n;
        self.kind = 2;
        self.calls += 1;
        self.answer
    }
}
unsafe impl<const ALIGNED: bool> StorageWithCapacity<u16> for Mock<ALIGNED> {
    fn with_capacity(n: usize) -> Self {
        let mut m = Self::any();
        m.cap = n;
        unsafe { MADE = (n, 1) };
        m
    }
    fn __with_capacity__const_capacity_checked(n: usize, old: Option<usize>) -> Self {
        let mut m = Self::any();
        m.cap = n;
        unsafe { MADE = (n, if old == Some(n) { 2 } else { 3 }) };
        m
    }
}

fn forwards<const A: bool, W: Storage<u16>>(mut w: W, look: impl Fn(&W) -> *const Mock<A>) {
    let m = look(&w);
    unsafe {
        gv_assert!(W::IS_ALIGNED == A, "wrapper: IS_ALIGNED");
        gv_assert!(W::CONST_CAPACITY == <Mock<A> as Storage<u16>>::CONST_CAPACITY, "wrapper: CONST_CAPACITY");
        gv_assert!(w.capacity() == (*m).cap, "wrapper: capacity");
        gv_assert!(w.as_ptr() == (*m).as_ptr(), "wrapper: as_ptr");
        gv_assert!(w.as_mut_ptr() as *const u16 == (*m).as_ptr(), "wrapper: as_mut_ptr");
        gv_assert!((*m).calls == 0, "wrapper: looking at it asked for room");
        let n = any_usize();
        let r = w.try_reserve(n);
        gv_assert!(r == (*m).answer && (*m).asked == n && (*m).kind == 2 && (*m).calls == 1, "wrapper: try_reserve");
        let n = any_usize();
        w.reserve(n);
        gv_assert!((*m).asked == n && (*m).kind == 1 && (*m).calls == 2, "wrapper: reserve");
        gv_assert!(w.capacity() == n, "wrapper: capacity after reserve");
        gv_assert!(look(&w) == m, "wrapper: moved the storage");
    }
    witness!(true, "end reached");
}

harness! { wrap_ref, "C25", unwind 4, {
    let mut m = Mock::<true>::any();
    forwards::<true, _>(&mut m, |w| &**w as *const _);
} }
harness! { wrap_ref_unaligned, "C25 C06", unwind 4, {
    let mut m = Mock::<false>::any();
    forwards::<false, _>(&mut m, |w| &**w as *const _);
} }
harness! { wrap_ref_ref, "C25", unwind 4, {
    let mut m = Mock::<true>::any();
    let mut r = &mut m;
    forwards::<true, _>(&mut r, |w| &***w as *const _);
} }
#[cfg(feature = "alloc")]
harness! { wrap_box, "C25", unwind 4, {
    forwards::<true, _>(Box::new(Mock::<true>::any()), |w| &**w as *const _);
} }
#[cfg(feature = "alloc")]
harness! { wrap_box_unaligned, "C25 C06", unwind 4, {
    forwards::<false, _>(Box::new(Mock::<false>::any()), |w| &**w as *const _);
} }
#[cfg(feature = "alloc")]
harness! { wrap_box_capacity, "C25", unwind 4, {
    // made with a capacity: the wrapped storage is made with that capacity
    let n = any_usize();
    let w = <Box<Mock<true>> as StorageWithCapacity<u16>>::with_capacity(n);
    unsafe { gv_assert!(MADE == (n, 1) && w.cap == n, "wrapper: made with another capacity") };
    // the room to expect may be known beforehand
    let k = any_usize();
    let old = if any_bool() { Some(k) } else { None };
    let w = <Box<Mock<true>> as StorageWithCapacity<u16>>::__with_capacity__const_capacity_checked(n, old);
    unsafe { gv_assert!(w.cap == n && MADE.0 == n && (MADE.1 == 1 || MADE.1 == if old == Some(n) { 2 } else { 3 }), "wrapper: made with another capacity") };
    let v = GenericVec::<u16, Box<Mock<true>>>::with_capacity(n);
    unsafe { gv_assert!(v.capacity() == n && v.len() == 0 && MADE == (n, 1), "wrapper: made with another capacity") };
    core::mem::forget(v);
    witness!(n > 5, "wrap_box_capacity");
} }

// vectors on the wrappers ask the wrapped storage for the same as a vector on it directly
fn asks<S: ?Sized + Storage<u16>>(v: &mut GenericVec<u16, S>, m: *const Mock<true>) {
    unsafe {
        let (cap, len, n) = ((*m).cap, any_usize(), any_usize());
        assume(len <= cap && cap < usize::MAX / 4);
        v.set_len_unchecked(len);
        gv_assert!(v.capacity() == cap && v.remaining_capacity() == cap - len, "wrapper: capacity");
        gv_assert!(v.is_full() == (len == cap), "wrapper: is_full");
        gv_assert!(v.as_ptr() == (*m).as_ptr() && v.as_mut_ptr() as *const u16 == (*m).as_ptr(), "wrapper: address");
        let r = v.try_reserve(n);
        if n <= cap - len {
            gv_assert!(r && (*m).calls == 0, "wrapper: asked for room although there was enough");
        } else if n > usize::MAX - len {
            gv_assert!(!r && (*m).calls == 0, "wrapper: unrepresentable request");
        } else {
            gv_assert!(r == (*m).answer && (*m).calls == 1 && (*m).asked == len + n && (*m).kind == 2, "wrapper: try_reserve asked for something else");
        }
        if n <= usize::MAX - len {
            let calls = (*m).calls;
            v.reserve(n);
            if n <= cap - len {
                gv_assert!((*m).calls == calls, "wrapper: asked for room although there was enough");
            } else {
                gv_assert!((*m).calls == calls + 1 && (*m).asked == len + n && (*m).kind == 1, "wrapper: reserve asked for something else");
            }
        }
        v.set_len_unchecked(0);
        witness!(n > cap, "asks");
    }
}
harness! { ask_ref, "C25 C05", unwind 4, {
    let mut m = Mock::<true>::any();
    let p = &m as *const _;
    let mut v = GenericVec::<u16, &mut Mock<true>>::with_storage(&mut m);
    asks(&mut v, p);
} }
harness! { ask_plain, "C05", unwind 4, {
    let mut v = GenericVec::<u16, Mock<true>>::with_storage(Mock::any());
    let p = v.storage() as *const _;
    asks(&mut v, p);
} }
#[cfg(feature = "alloc")]
harness! { ask_box, "C25", unwind 4, {
    let m = Box::new(Mock::<true>::any());
    let p = &*m as *const _;
    let mut v = GenericVec::<u16, Box<Mock<true>>>::with_storage(m);
    asks(&mut v, p);
} }
harness! { ask_unsized, "C25", unwind 4, {
    // a vector of unsized type
    trait Dyn {}
    let mut buf = [MaybeUninit::<Tok>::uninit(), MaybeUninit::uninit(), MaybeUninit::uninit()];
    let cap = any_le(3);
    let p = buf.as_ptr() as usize;
    let s = UninitSlice::from_mut(&mut buf[..cap]);
    let mut v: GenericVec<Tok, &mut UninitSlice<Tok>> = GenericVec::with_storage(s);
    let mut w: GenericVec<Tok, &mut &mut UninitSlice<Tok>> = {
        let r = unsafe { v.storage_mut() };
        GenericVec::with_storage(r)
    };
    gv_assert!(w.capacity() == cap && w.as_ptr() as usize == p && w.as_mut_ptr() as usize == p, "wrapper: capacity or address");
    let n = any_usize();
    gv_assert!(w.try_reserve(n) == (n <= cap), "wrapper: try_reserve");
    if n <= cap { w.reserve(n) }
    witness!(n == 3, "ask_unsized");
} }

#[cfg(feature = "alloc")]
harness! { wrap_refuse_box, "C25 C06 | panic", unwind 4, {
    // not aligned: refused
    must_panic(|| GenericVec::<u16, Box<Mock<false>>>::with_storage(Box::new(Mock::any())));
} }
harness! { wrap_refuse_ref, "C25 C06 | panic", unwind 4, {
    let mut m = Mock::<false>::any();
    if any_bool() {
        must_panic(|| GenericVec::<u16, &mut Mock<false>>::with_storage(&mut m));
    } else {
        must_panic(|| unsafe { GenericVec::<u16, &mut Mock<false>>::from_raw_parts(0, &mut m) });
    }
} }

// ------------------------------------------------------------------ boxed storages made with room

#[cfg(feature = "alloc")]
harness! { box_heap_capacity, "C25 C05", unwind 5, {
    pick(4, |n| {
        let mut v = GenericVec::<Tok, Box<generic_vec::raw::Heap<Tok>>>::with_capacity(n);
        gv_assert!(v.len() == 0 && v.capacity() >= n, "boxed heap storage made with too little room");
        let p = v.as_ptr();
        let mut i = 0;
        while i < n { v.push(Tok::new()); i += 1; }
        gv_assert!(v.as_ptr() == p, "moved although there was room");
        expect(&v, n, |p| p);
    });
    Tok::finish();
} }
#[cfg(feature = "alloc")]
harness! { box_clone, "C25 C14", unwind 5, {
    pick(3, |n| {
        let mut v = GenericVec::<Tok, Box<UninitBuffer<[Tok; 3]>>>::with_capacity(n);
        setup(&mut v, n);
        let w = v.clone();
        gv_assert!(w.capacity() >= n && w.len() == n && w.as_ptr() != v.as_ptr(), "clone of a boxed storage");
        let q = any_u8() as usize;
        if q < n { gv_assert!(w[q].origin() == q as u8 && w[q].id() != q as u8, "clone of a boxed storage"); }
        expect(&v, n, |p| p);
    });
    Tok::finish();
} }
#[cfg(feature = "alloc")]
harness! { box_refuse_capacity, "C25 C04 | panic", unwind 5, {
    let n = any_usize();
    assume(n > 3);
    must_panic(|| GenericVec::<Tok, Box<UninitBuffer<[Tok; 3]>>>::with_capacity(n));
} }
#[cfg(feature = "alloc")]
op! { box_split_full, "C25 C13 | panic", unwind 5, [slice3 ty3] alloc [boxed2], <E> |v, len| {
    let i = any_usize();
    assume(i <= len && len - i > 1);
    must_panic(|| v.split_off::<Box<UninitBuffer<[E; 1], E>>>(i));
    expect(v, len, |p| p);
} }

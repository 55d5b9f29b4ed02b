//! What a storage's capacity is worth (C06), for pairs of element sizes and any capacity.
use crate::rt::*;
use crate::{gv_assert, harness, op, witness};
use core::mem::{align_of, size_of, ManuallyDrop, MaybeUninit};
use core::ptr::NonNull;
use generic_vec::raw::{Storage, StorageWithCapacity, UninitBuffer, UninitSlice, ZeroSized};
use generic_vec::{GenericVec, TypeVec};

/// `cap` is the largest number of `U`s in `bytes` bytes
fn largest<U>(cap: usize, bytes: u128) {
    if size_of::<U>() == 0 {
        gv_assert!(cap == usize::MAX, "capacity for zero-sized elements");
    } else {
        let u = size_of::<U>() as u128;
        gv_assert!(cap as u128 * u <= bytes, "the capacity does not fit in the storage");
        gv_assert!((cap as u128 + 1) * u > bytes, "the capacity is not the largest that fits");
    }
}

/// requests for room on a fixed storage are granted exactly up to the capacity
fn fixed<U, S: ?Sized + Storage<U>>(s: &mut S, cap: usize) {
    let n = any_usize();
    gv_assert!(s.try_reserve(n) == (n <= cap), "fixed storage: try_reserve");
    if n <= cap { s.reserve(n) }
    gv_assert!(s.capacity() == cap, "fixed storage changed its capacity");
    witness!(n <= cap, "granted");
}

fn slice<T, U>() {
    // a slice of any length an object can have
    let n = any_usize();
    assume(size_of::<T>() == 0 || n <= isize::MAX as usize / size_of::<T>());
    let p: NonNull<MaybeUninit<T>> = NonNull::dangling();
    // (nothing is read from it)
    let s: &mut UninitSlice<T> = unsafe { core::mem::transmute(core::ptr::slice_from_raw_parts_mut(p.as_ptr(), n)) };
    let cap = <UninitSlice<T> as Storage<U>>::capacity(s);
    if size_of::<T>() == 0 && size_of::<U>() == 0 {
        // no size, but slots
        gv_assert!(cap == n, "slice storage of zero-sized elements: another number of slots");
    } else {
        largest::<U>(cap, n as u128 * size_of::<T>() as u128);
    }
    gv_assert!(<UninitSlice<T> as Storage<U>>::as_ptr(s) as usize == p.as_ptr() as usize, "slice storage: address");
    gv_assert!(<UninitSlice<T> as Storage<U>>::as_mut_ptr(s) as usize == p.as_ptr() as usize, "slice storage: address");
    gv_assert!(!<UninitSlice<T> as Storage<U>>::IS_ALIGNED || align_of::<T>() % align_of::<U>() == 0, "slice storage: claims to be aligned");
    gv_assert!(<UninitSlice<T> as Storage<U>>::IS_ALIGNED || align_of::<T>() < align_of::<U>(), "slice storage: claims not to be aligned");
    fixed::<U, UninitSlice<T>>(s, cap);
    witness!(cap == 3 || cap == 4 || size_of::<U>() == 0 || size_of::<T>() == 0, "a few");
}

#[cfg(feature = "alloc")]
fn heap<T, U>() {
    // a heap block of any size
    let n = any_usize();
    if size_of::<T>() == 0 {
        assume(n == usize::MAX);
    } else {
        assume(n <= isize::MAX as usize / size_of::<T>());
    }
    let p: NonNull<T> = NonNull::dangling();
    let s = ManuallyDrop::new(unsafe { generic_vec::raw::Heap::<T>::from_raw_parts(p, n) });
    let cap = Storage::<U>::capacity(&*s);
    largest::<U>(cap, if size_of::<T>() == 0 { 0 } else { n as u128 * size_of::<T>() as u128 });
    gv_assert!(Storage::<U>::as_ptr(&*s) as usize == p.as_ptr() as usize, "heap storage: address");
    type H<T> = generic_vec::raw::Heap<T>;
    gv_assert!(!<H<T> as Storage<U>>::IS_ALIGNED || align_of::<T>() % align_of::<U>() == 0, "heap storage: claims to be aligned");
    gv_assert!(<H<T> as Storage<U>>::IS_ALIGNED || align_of::<T>() < align_of::<U>(), "heap storage: claims not to be aligned");
    witness!(cap == 3 || cap == 4 || size_of::<U>() == 0 || size_of::<T>() == 0, "a few");
}
/// the room that is there is granted without asking for more
#[cfg(feature = "alloc")]
fn heap_has<T, U>() {
    let n = any_usize();
    assume(n <= isize::MAX as usize / size_of::<T>());
    let p: NonNull<T> = NonNull::dangling();
    let mut s = ManuallyDrop::new(unsafe { generic_vec::raw::Heap::<T>::from_raw_parts(p, n) });
    let k = any_usize();
    assume(k as u128 * size_of::<U>() as u128 <= n as u128 * size_of::<T>() as u128);
    gv_assert!(Storage::<U>::try_reserve(&mut *s, k), "heap storage: room refused");
    Storage::<U>::reserve(&mut *s, k);
    let (q, m) = ManuallyDrop::into_inner(s).into_raw_parts();
    gv_assert!(q == p && m == n, "heap storage: replaced its block");
    witness!(k == 3, "room for three");
}

fn buffer<B, A, U>() {
    let mut s = UninitBuffer::<B, A>::uninit();
    let bytes = size_of::<UninitBuffer<B, A>>();
    let cap = <UninitBuffer<B, A> as Storage<U>>::capacity(&s);
    largest::<U>(cap, bytes as u128);
    gv_assert!(UninitBuffer::<B, A>::capacity::<U>() == cap, "buffer: the associated capacity differs");
    let at = &s as *const _ as usize;
    gv_assert!(bytes == 0 || Storage::<U>::as_ptr(&s) as usize == at && Storage::<U>::as_mut_ptr(&mut s) as usize == at, "buffer: address");
    let aligned = <UninitBuffer<B, A> as Storage<U>>::IS_ALIGNED;
    gv_assert!(!aligned || align_of::<UninitBuffer<B, A>>() % align_of::<U>() == 0, "buffer: claims to be aligned");
    gv_assert!(aligned || align_of::<UninitBuffer<B, A>>() < align_of::<U>(), "buffer: claims not to be aligned");
    // documented: as large as the type, rounded up to the alignment
    let al = if align_of::<A>() > align_of::<B>() { align_of::<A>() } else { align_of::<B>() };
    gv_assert!(bytes == (size_of::<B>() + al - 1) / al * al && align_of::<UninitBuffer<B, A>>() == al, "buffer: another size or alignment than documented");
    fixed::<U, _>(&mut s, cap);
    let n = any_usize();
    assume(n <= cap);
    let s = <UninitBuffer<B, A> as StorageWithCapacity<U>>::with_capacity(n);
    gv_assert!(<UninitBuffer<B, A> as Storage<U>>::capacity(&s) == cap, "buffer: made with another capacity");
    if aligned {
        let v = TypeVec::<U, B, A>::with_storage(s);
        gv_assert!(v.capacity() == cap && v.len() == 0 && v.remaining_capacity() == cap, "vector on a buffer: capacity");
        gv_assert!((bytes == 0 || v.as_ptr() as usize == v.storage() as *const _ as usize) && v.as_ptr() as usize % align_of::<U>() == 0, "vector on a buffer: address");
    }
    witness!(true, "end reached");
}

type B3 = [u8; 3];
type B5 = [u8; 5];
type B7 = [u8; 7];

harness! { slice_1_2, "C06", unwind 3, { slice::<u8, [u8; 2]>() } }
harness! { slice_2_1, "C06", unwind 3, { slice::<[u8; 2], u8>() } }
harness! { slice_3_1, "C06", unwind 3, { slice::<B3, u8>() } }
harness! { slice_1_3, "C06", unwind 3, { slice::<u8, B3>() } }
harness! { slice_3_2, "C06", unwind 3, { slice::<B3, [u8; 2]>() } }
harness! { slice_2_3, "C06", unwind 3, { slice::<[u8; 2], B3>() } }
harness! { slice_8_2, "C06", unwind 3, { slice::<u64, u16>() } }
harness! { slice_2_8, "C06", unwind 3, { slice::<u16, u64>() } }
harness! { slice_16_8, "C06", unwind 3, { slice::<[u64; 2], u64>() } }
harness! { slice_4_4, "C06", unwind 3, { slice::<u32, u32>() } }
harness! { slice_5_7, "C06 | slow", unwind 3, { slice::<B5, B7>() } }
harness! { slice_7_5, "C06 | slow", unwind 3, { slice::<B7, B5>() } }
harness! { slice_0_1, "C06 C16", unwind 3, { slice::<(), u8>() } }
harness! { slice_1_0, "C06 C16", unwind 3, { slice::<u8, ()>() } }
harness! { slice_0_0, "C06 C16", unwind 3, { slice::<(), [u64; 0]>() } }

#[cfg(feature = "alloc")]
harness! { heap_1_2, "C06 | lanes std nightly", unwind 3, { heap::<u8, [u8; 2]>() } }
#[cfg(feature = "alloc")]
harness! { heap_2_1, "C06 | lanes std nightly", unwind 3, { heap::<[u8; 2], u8>() } }
#[cfg(feature = "alloc")]
harness! { heap_1_3, "C06", unwind 3, { heap::<u8, B3>() } }
#[cfg(feature = "alloc")]
harness! { heap_3_1, "C06", unwind 3, { heap::<B3, u8>() } }
#[cfg(feature = "alloc")]
harness! { heap_3_2, "C06 | lanes std nightly", unwind 3, { heap::<B3, [u8; 2]>() } }
#[cfg(feature = "alloc")]
harness! { heap_8_2, "C06", unwind 3, { heap::<u64, u16>() } }
#[cfg(feature = "alloc")]
harness! { heap_8_16, "C06", unwind 3, { heap::<u64, [u64; 2]>() } }
#[cfg(feature = "alloc")]
harness! { heap_4_4, "C06", unwind 3, { heap::<u32, u32>() } }
#[cfg(feature = "alloc")]
harness! { heap_5_7, "C06 | slow", unwind 3, { heap::<B5, B7>() } }
#[cfg(feature = "alloc")]
harness! { heap_0_1, "C06 C16 | lanes std nightly", unwind 3, { heap::<(), u8>() } }
#[cfg(feature = "alloc")]
harness! { heap_1_0, "C06 C16 | lanes std nightly", unwind 3, { heap::<u8, ()>() } }
#[cfg(feature = "alloc")]
harness! { heap_has_1_2, "C06 | lanes std nightly", unwind 3, { heap_has::<u8, [u8; 2]>() } }
#[cfg(feature = "alloc")]
harness! { heap_has_4_1, "C06", unwind 3, { heap_has::<u32, u8>() } }
#[cfg(feature = "alloc")]
harness! { heap_has_2_3, "C06", unwind 3, { heap_has::<[u8; 2], B3>() } }

harness! { buffer_plain, "C06", unwind 3, {
    buffer::<[u8; 8], u8, u8>();
    buffer::<[u8; 8], u8, [u8; 3]>();
    buffer::<[u8; 7], u8, [u8; 2]>();
    buffer::<[u32; 3], u8, u32>();
    buffer::<[u32; 3], u8, u8>();
    buffer::<u8, u8, [u8; 2]>();
    buffer::<(), u8, u8>();
} }
harness! { buffer_aligned, "C06", unwind 3, {
    buffer::<[u8; 5], u64, u64>();
    buffer::<[u32; 1], u64, u32>();
    buffer::<[u8; 9], u64, u64>();
    buffer::<[u8; 9], u32, u16>();
    buffer::<[u8; 9], u16, [u8; 3]>();
    buffer::<u64, u16, u64>();
    buffer::<(), u64, u64>();
    buffer::<u8, u64, u8>();
} }
harness! { buffer_unaligned, "C06", unwind 3, {
    // these claim not to be aligned
    buffer::<[u8; 16], u8, u64>();
    buffer::<[u32; 1], u8, u64>();
    buffer::<[u16; 4], u16, u32>();
} }
harness! { buffer_zst, "C06 C16", unwind 3, {
    buffer::<[u8; 4], u8, ()>();
    buffer::<[u64; 0], u8, [u64; 0]>();
    buffer::<(), u8, ()>();
} }

harness! { zero_sized, "C06 C16", unwind 3, {
    let mut s = ZeroSized::<[u64; 0]>::NEW;
    gv_assert!(s.capacity() == usize::MAX, "counter: capacity");
    gv_assert!(s.as_ptr() as usize % 8 == 0 && !s.as_ptr().is_null() && s.as_mut_ptr() as *const _ == s.as_ptr(), "counter: address");
    gv_assert!(s.try_reserve(any_usize()), "counter: try_reserve");
    s.reserve(any_usize());
    gv_assert!(ZeroSized::<()>::TRY_NEW.is_some() && ZeroSized::<u16>::TRY_NEW.is_none() && ZeroSized::<[u64; 0]>::TRY_NEW.is_some(), "counter: of other types");
} }

// -------------------------------------------------------------------------- insufficient alignment

macro_rules! refuse {
    ($($n:ident $e:expr;)*) => {$( harness! { $n, "C06 | panic", unwind 3, { must_panic(|| $e); } } )*}
}

harness! { unaligned_buffer, "C06 | panic", unwind 3, {
    must_panic(|| GenericVec::<u64, UninitBuffer<[u8; 16]>>::with_storage(UninitBuffer::uninit()));
} }
harness! { unaligned_buffer_2, "C06 | panic", unwind 3, {
    must_panic(|| GenericVec::<u64, UninitBuffer<[u32; 4], u16>>::with_storage(UninitBuffer::uninit()));
} }
harness! { unaligned_with_capacity, "C06 | panic", unwind 3, {
    let n = any_le(2);
    must_panic(|| GenericVec::<u64, UninitBuffer<[u8; 16]>>::with_capacity(n));
} }
harness! { unaligned_default, "C06 | panic", unwind 3, {
    must_panic(|| GenericVec::<u64, UninitBuffer<[u8; 16]>>::default());
} }
harness! { unaligned_parts, "C06 | panic", unwind 3, {
    must_panic(|| unsafe { GenericVec::<u16, UninitBuffer<[u8; 16]>>::from_raw_parts(0, UninitBuffer::uninit()) });
} }
harness! { unaligned_with_align, "C06 | panic", unwind 3, {
    must_panic(|| TypeVec::<u32, [u8; 16], u8>::with_align());
} }
harness! { unaligned_slice, "C06 | panic", unwind 3, {
    let mut b = [MaybeUninit::<u8>::uninit(); 8];
    let s = UninitSlice::from_mut(&mut b);
    if any_bool() {
        must_panic(|| GenericVec::<u16, &mut UninitSlice<u8>>::with_storage(s));
    } else {
        must_panic(|| unsafe { GenericVec::<u16, &mut UninitSlice<u8>>::from_raw_parts(0, s) });
    }
} }
#[cfg(feature = "alloc")]
harness! { unaligned_heap, "C06 | panic", unwind 3, {
    if any_bool() {
        must_panic(|| GenericVec::<u32, generic_vec::raw::Heap<u8>>::with_storage(generic_vec::raw::Heap::new()));
    } else {
        must_panic(|| unsafe { GenericVec::<u32, generic_vec::raw::Heap<[u16; 2]>>::from_raw_parts(0, generic_vec::raw::Heap::new()) });
    }
} }
#[cfg(feature = "alloc")]
harness! { unaligned_boxed, "C06 C25 | panic", unwind 3, {
    must_panic(|| GenericVec::<u32, Box<UninitBuffer<[u8; 16]>>>::with_storage(Box::new(UninitBuffer::uninit())));
} }
harness! { buffer_full, "C06 C04 | panic", unwind 3, {
    // requests beyond the capacity for another element type
    let n = any_usize();
    assume(n > 2);
    match any_u8() {
        0 => must_panic(|| <UninitBuffer<[u8; 7], u8> as StorageWithCapacity<B3>>::with_capacity(n)),
        1 => must_panic(|| Storage::<B3>::reserve(&mut UninitBuffer::<[u8; 7], u8>::uninit(), n)),
        _ => {
            let mut b = [MaybeUninit::<u8>::uninit(); 7];
            let s = UninitSlice::from_mut(&mut b);
            must_panic(|| <UninitSlice<u8> as Storage<B3>>::reserve(s, n));
        }
    }
} }

// ---------------------------------------------------- vectors whose elements are not those of the storage

harness! { other_elements, "C06 C04", unwind 6, {
    // three-byte elements in an inline buffer of eight bytes
    let mut v = TypeVec::<B3, u64, u8>::with_align();
    let n = any_le(3);
    let x = [any_u8(), any_u8(), any_u8()];
    let mut i = 0;
    while i < n {
        let r = v.try_push([x[i], i as u8, !x[i]]);
        gv_assert!(r.is_ok() == (i < 2), "room for another number of elements");
        i += 1;
    }
    let q = any_u8() as usize;
    if q < n && q < 2 { gv_assert!(v[q] == [x[q], q as u8, !x[q]], "wrong element"); }
    gv_assert!(v.len() == if n < 2 { n } else { 2 } && v.capacity() == 2, "room for another number of elements");
    witness!(n == 3, "other_elements");
} }
#[cfg(feature = "alloc")]
harness! { other_elements_heap, "C06 C05", unwind 6, {
    // three-byte elements in blocks of two-byte ones
    pick(4, |k| {
        let mut v = GenericVec::<B3, generic_vec::raw::Heap<[u8; 2]>>::with_capacity(k);
        gv_assert!(v.capacity() >= k, "made with too little room");
        let x = [any_u8(), any_u8(), any_u8(), any_u8()];
        let mut i = 0;
        while i < k { v.push([x[i], i as u8, !x[i]]); i += 1; }
        let q = any_u8() as usize;
        if q < k { gv_assert!(v[q] == [x[q], q as u8, !x[q]], "wrong element"); }
        gv_assert!(v.len() == k && v.capacity() >= k, "length and capacity");
    });
} }

//! Bulk growth (C14)
use crate::drain::Items;
use crate::rt::*;
use crate::{gv_assert, harness, op, own, witness};
use generic_vec::{raw::Storage, GenericVec};

/// how many elements exist that were ever made
fn made<E: Elem>() -> usize { if E::ZST { zmade() } else { next_id() as usize } }

fn extend_check<E: Elem, S: Storage<E>>(v: &mut GenericVec<E, S>, len: usize, k: usize, hint: Option<usize>) {
    v.extend(Items::<E>::new(k, hint));
    expect(v, len + k, |p| p);
    gv_assert!(made::<E>() == len + k, "extend made other elements");
}

op! { extend, "C14 C01 | slow heap2", unwind 8, [slice3 pslice3 ty3 zs zslice zty] alloc [heap2 boxed2 zheap], <E> |v, len| {
    // exact, absent or wrong size hints
    let k = any_le(3);
    assume(k <= v.capacity() - len);
    let hint = match any_le(2) { 0 => None, 1 => Some(any_u8() as usize), _ => Some(any_usize()) };
    let cap = v.capacity();
    extend_check(v, len, k, hint);
    witness!(k == 2 && hint.is_some(), "extend");
} }
op! { extend_grow, "C14 C05", unwind 6, [] alloc [heap0 heap1 heap2], <E> |v, len| {
    pick(2, |k| extend_check(v, len, k, None));
} }
op! { extend_grow_hint, "C14 C05", unwind 6, [] alloc [heap0 heap1], <E> |v, len| {
    let low = any_bool();
    pick(2, |k| if low { extend_check(v, len, k, Some(0)) } else { extend_check(v, len, k, Some(k + 1)) });
} }

op! { extend_ref, "C14 C01 | slow heap2", unwind 8, [slice3 pslice3 ty3 zs zslice] alloc [heap2 boxed2], <E> |v, len| {
    // by reference: every item is cloned once
    let mut src = generic_vec::TypeVec::<E, [E; 2]>::new();
    let k = any_le(2);
    setup(&mut src, k);
    assume(k <= v.capacity() - len);
    let before = made::<E>();
    v.extend(src.iter());
    gv_assert!(made::<E>() == before + k, "extend cloned another number of times");
    gv_assert!(v.len() == len + k, "extend: wrong length");
    clones_of(v, len, |j| len + j);
    expect(&src, k, |p| len + p);
    witness!(k == 2, "extend_ref");
} }

/// the elements from `len` on are clones: the one at `len + j` of `f(j)`
fn clones_of<E: Elem, S: ?Sized + Storage<E>>(v: &GenericVec<E, S>, len: usize, f: impl Fn(usize) -> usize) {
    let p = any_u8() as usize;
    if p < v.len() {
        let x = &v.as_slice()[p];
        x.live_check();
        if !E::ZST {
            if p < len {
                gv_assert!(x.ident() as usize == p, "growth disturbed an existing element");
            } else {
                gv_assert!(x.origin_id() as usize == f(p - len), "grew by a clone of another element");
            }
        }
    }
}

fn extend_slice_check<E: Elem, S: Storage<E>>(v: &mut GenericVec<E, S>, len: usize, k: usize) {
    let mut src = generic_vec::TypeVec::<E, [E; 2]>::new();
    setup(&mut src, k);
    let before = made::<E>();
    v.extend_from_slice(&src);
    gv_assert!(made::<E>() == before + k, "extend_from_slice cloned another number of times");
    gv_assert!(v.len() == len + k && v.len() <= v.capacity(), "extend_from_slice: wrong length");
    clones_of(v, len, |j| len + j);
    expect(&src, k, |p| len + p);
}
op! { extend_slice, "C14 C01 | lanes std nightly", unwind 8, [slice3 pslice3 ty3 zs zslice] alloc [heap2 boxed2], <E> |v, len| {
    let k = any_le(2);
    assume(k <= v.capacity() - len);
    extend_slice_check(v, len, k);
    witness!(k == 2 && len > 0, "extend_slice");
} }
op! { extend_slice_grow, "C14 C05", unwind 6, [] alloc [heap0 heap1 heap2], <E> |v, len| {
    pick(2, |k| extend_slice_check(v, len, k));
} }

fn grow_check<E: Elem, S: Storage<E>>(v: &mut GenericVec<E, S>, len: usize, k: usize) {
    let x = E::make();
    let before = made::<E>();
    v.grow(k, x);
    // the value itself is used or dropped, the rest are clones
    gv_assert!(made::<E>() == before + if k == 0 { 0 } else { k - 1 }, "grow cloned another number of times");
    gv_assert!(v.len() == len + k && v.len() <= v.capacity(), "grow: wrong length");
    clones_of(v, len, |_| len);
    if E::TRACKED && k == 0 { gv_assert!(drops(len as u8) == 1, "grow by nothing kept the value"); }
    if E::ZST { gv_assert!(zlive() == len + k, "grow: wrong number of elements alive"); }
}
op! { grow, "C14 C01 | lanes std nightly", unwind 8, [slice3 pslice3 ty3 zs zslice] alloc [heap2 boxed2], <E> |v, len| {
    let k = any_le(3);
    assume(k <= v.capacity() - len);
    grow_check(v, len, k);
    witness!(k == 2 && len > 0, "grow");
} }
op! { grow_grow, "C14 C05", unwind 6, [] alloc [heap0 heap1 heap2], <E> |v, len| {
    pick(2, |k| grow_check(v, len, k));
} }

fn grow_with_check<E: Elem, S: Storage<E>>(v: &mut GenericVec<E, S>, len: usize, k: usize) {
    let mut calls = 0;
    v.grow_with(k, || { calls += 1; E::make() });
    gv_assert!(calls == k, "grow_with called the generator another number of times");
    expect(v, len + k, |p| p);
}
op! { grow_with, "C14 C01", unwind 8, [slice3 pslice3 ty3 zs zslice] alloc [heap2 boxed2], <E> |v, len| {
    let k = any_le(3);
    assume(k <= v.capacity() - len);
    grow_with_check(v, len, k);
    witness!(k == 2 && len > 0, "grow_with");
} }
op! { grow_with_grow, "C14 C05", unwind 6, [] alloc [heap0 heap1 heap2], <E> |v, len| {
    pick(2, |k| grow_with_check(v, len, k));
} }

op! { resize, "C14 C01", unwind 8, [slice3 pslice3 ty3 zs zslice] alloc [heap2 boxed2], <E> |v, len| {
    let n = any_le(4);
    assume(n <= v.capacity());
    let x = E::make();
    let before = made::<E>();
    v.resize(n, x);
    gv_assert!(v.len() == n, "resize: wrong length");
    gv_assert!(made::<E>() == before + if n > len { n - len - 1 } else { 0 }, "resize cloned another number of times");
    clones_of(v, if n < len { n } else { len }, |_| len);
    if E::TRACKED {
        let q = any_u8() as usize;
        if q < len { gv_assert!(drops(q as u8) == (q >= n) as u8, "resize dropped another element"); }
        if n <= len { gv_assert!(drops(len as u8) == 1, "resize kept the value"); }
    } else if E::ZST {
        gv_assert!(zlive() == n, "resize: wrong number of elements alive");
    }
    witness!(n < len && n > 0, "resize");
} }
op! { resize_with, "C14 C01", unwind 8, [slice3 pslice3 ty3 zs zslice] alloc [heap2 boxed2], <E> |v, len| {
    let n = any_le(4);
    assume(n <= v.capacity());
    let mut calls = 0;
    v.resize_with(n, || { calls += 1; E::make() });
    gv_assert!(calls == if n > len { n - len } else { 0 }, "resize_with called the generator another number of times");
    expect(v, n, |p| p);
    if E::TRACKED {
        let q = any_u8() as usize;
        if q < len { gv_assert!(drops(q as u8) == (q >= n) as u8, "resize_with dropped another element"); }
    }
    witness!(n < len && n > 0, "resize_with");
} }
op! { resize_grow, "C14 C05", unwind 6, [] alloc [heap0 heap1 heap2], <E> |v, len| {
    let by = any_bool();
    pick(3, |n| {
        if by { v.resize(n, E::make()) } else { v.resize_with(n, E::make) }
        gv_assert!(v.len() == n, "resize: wrong length");
        clones_of(v, if n < len { n } else { len }, |j| if by { len } else { len + j });
    });
} }

// ------------------------------------------------------------------------------------ cloning

fn clone_from_check<E: Elem, S: Storage<E>>(v: &mut GenericVec<E, S>, len: usize, k: usize) {
    let mut src = generic_vec::TypeVec::<E, [E; 3]>::new();
    setup(&mut src, k);
    let before = made::<E>();
    v.clone_from(&src);
    gv_assert!(made::<E>() == before + k, "clone_from cloned another number of times");
    gv_assert!(v.len() == k && v.len() <= v.capacity(), "clone_from: wrong length");
    clones_of(v, 0, |j| len + j);
    if E::TRACKED {
        let q = any_u8() as usize;
        if q < len { gv_assert!(drops(q as u8) == 1, "clone_from kept an old element"); }
    } else if E::ZST {
        gv_assert!(zlive() == 2 * k, "clone_from: wrong number of elements alive");
    }
    expect(&src, k, |p| len + p);
}
op! { clone_from, "C14 C01 | slow heap2", unwind 8, [slice3 pslice3 ty3 zs zslice] alloc [heap2 boxed2], <E> |v, len| {
    let k = any_le(3);
    assume(k <= v.capacity() && (!E::ZST || k <= 1));
    clone_from_check(v, len, k);
    witness!(k == 2 && len == 1, "clone_from");
} }
op! { clone_from_grow, "C14 C05", unwind 6, [] alloc [heap0 heap1 heap2], <E> |v, len| {
    pick(3, |k| clone_from_check(v, len, k));
} }
op! { clone_from_full, "C14 C04 | panic", unwind 8, [slice3 ty3] alloc [boxed2], <E> |v, len| {
    let mut src = generic_vec::TypeVec::<E, [E; 4]>::new();
    let k = any_le(4);
    setup(&mut src, k);
    assume(k > v.capacity());
    must_panic(|| v.clone_from(&src));
} }

macro_rules! cloned {
    ($m:ident $ty:ty, $E:ident, $max:literal) => {
        harness! { $m, "C14 C01", unwind 6, {
            let len = any_le($max);
            let mut v = <$ty>::with_capacity(len);
            setup(&mut v, len);
            let before = made::<$E>();
            let c = v.clone();
            gv_assert!(made::<$E>() == before + len, "clone cloned another number of times");
            gv_assert!(c.len() == len && c.capacity() >= len, "clone: wrong length");
            clones_of(&c, 0, |j| j);
            expect(&v, len, |p| p);
            gv_assert!(len == 0 || <$E>::ZST || c.as_ptr() != v.as_ptr(), "clone shares memory");
            drop(v);
            clones_of(&c, 0, |j| j);
            drop(c);
            $E::finish();
            witness!(len == $max, "clone");
        } }
    };
}
cloned!(clone_ty generic_vec::TypeVec::<Tok, [Tok; 3]>, Tok, 3);
cloned!(clone_zs generic_vec::ZSVec::<Z>, Z, 3);
#[cfg(feature = "alloc")]
harness! { clone_heap, "C14 C01 C05", unwind 6, {
    pick(3, |len| {
        let mut v = generic_vec::HeapVec::<Tok>::with_capacity(len);
        setup(&mut v, len);
        let c = v.clone();
        gv_assert!(next_id() as usize == 2 * len, "clone cloned another number of times");
        gv_assert!(c.len() == len && c.capacity() >= len, "clone: wrong length");
        clones_of(&c, 0, |j| j);
        expect(&v, len, |p| p);
        gv_assert!(len == 0 || c.as_ptr() != v.as_ptr(), "clone shares memory");
        drop(v);
        clones_of(&c, 0, |j| j);
    });
    Tok::finish();
} }
#[cfg(feature = "alloc")]
harness! { clone_boxed, "C14 C01 C25", unwind 6, {
    let len = any_le(3);
    let mut v = GenericVec::<Tok, Box<generic_vec::raw::UninitBuffer<[Tok; 3], Tok>>>::with_capacity(len);
    setup(&mut v, len);
    let c = v.clone();
    gv_assert!(next_id() as usize == 2 * len, "clone cloned another number of times");
    gv_assert!(c.len() == len && c.capacity() == 3, "clone: wrong length");
    clones_of(&c, 0, |j| j);
    expect(&v, len, |p| p);
    drop(v);
    drop(c);
    Tok::finish();
} }

// ------------------------------------------------------------------------- collect and macros

harness! { collect_ty, "C14 C01", unwind 6, {
    let k = any_le(3);
    let hint = if any_bool() { Some(any_usize()) } else { None };
    let v: generic_vec::TypeVec<Tok, [Tok; 3]> = Items::<Tok>::new(k, hint).collect();
    expect(&v, k, |p| p);
    gv_assert!(next_id() as usize == k, "collect made other elements");
    drop(v);
    Tok::finish();
    witness!(k == 3 && hint == Some(1), "collect");
} }
harness! { collect_ty_full, "C14 C04 | panic", unwind 6, {
    let hint = if any_bool() { Some(any_usize()) } else { None };
    must_panic(|| Items::<Tok>::new(3, hint).collect::<generic_vec::TypeVec<Tok, [Tok; 2]>>());
} }
#[cfg(feature = "alloc")]
harness! { collect_heap, "C14 C01 C05", unwind 6, {
    let low = any_bool();
    pick(3, |k| {
        let v: generic_vec::HeapVec<Tok> = Items::<Tok>::new(k, if low { Some(0) } else { None }).collect();
        expect(&v, k, |p| p);
        gv_assert!(next_id() as usize == k, "collect made other elements");
    });
    Tok::finish();
} }

harness! { gvec_list, "C14 C01", unwind 6, {
    let a: generic_vec::TypeVec<Tok, [Tok; 4]> = generic_vec::gvec![];
    expect(&a, 0, |p| p);
    let a: generic_vec::TypeVec<Tok, [Tok; 1]> = generic_vec::gvec![Tok::new()];
    expect(&a, 1, |p| p);
    let b: generic_vec::TypeVec<Tok, [Tok; 2]> = generic_vec::gvec![Tok::new(), Tok::new()];
    expect(&b, 2, |p| 1 + p);
    let c: generic_vec::TypeVec<Tok, [Tok; 3]> = generic_vec::gvec![Tok::new(), Tok::new(), Tok::new()];
    expect(&c, 3, |p| 3 + p);
    let d: generic_vec::TypeVec<Tok, [Tok; 5]> = generic_vec::gvec![Tok::new(), Tok::new(), Tok::new(), Tok::new(), Tok::new()];
    expect(&d, 5, |p| 6 + p);
    let z: generic_vec::ZSVec<Z> = generic_vec::gvec![Z::new(), Z::new(), Z::new()];
    gv_assert!(z.len() == 3, "gvec of zero-sized elements");
    drop((a, b, c, d, z));
    Tok::finish();
    Z::finish();
} }
#[cfg(feature = "alloc")]
harness! { gvec_heap, "C14 C01 C05", unwind 6, {
    let b: generic_vec::HeapVec<Tok> = generic_vec::gvec![Tok::new(), Tok::new()];
    expect(&b, 2, |p| p);
    let d: generic_vec::HeapVec<Tok> = generic_vec::gvec![Tok::new(), Tok::new(), Tok::new()];
    expect(&d, 3, |p| 2 + p);
    let c: generic_vec::HeapVec<Tok> = generic_vec::gvec![];
    expect(&c, 0, |p| p);
    drop((b, c, d));
    Tok::finish();
} }
harness! { gvec_repeat, "C14 C01", unwind 6, {
    let n = any_le(3);
    let b: generic_vec::TypeVec<Tok, [Tok; 3]> = generic_vec::gvec![Tok::new(); n];
    gv_assert!(b.len() == n, "gvec: wrong length");
    gv_assert!(next_id() as usize == if n == 0 { 1 } else { n }, "gvec cloned another number of times");
    clones_of(&b, 0, |_| 0);
    drop(b);
    Tok::finish();
    witness!(n == 3, "gvec_repeat");
} }
harness! { gvec_full, "C14 C04 | panic", unwind 6, {
    let n = any_usize();
    assume(n > 2);
    must_panic(|| -> generic_vec::TypeVec<Tok, [Tok; 2]> { generic_vec::gvec![Tok::new(); n] });
} }
harness! { gvec_list_full, "C14 C04 | panic", unwind 6, {
    must_panic(|| -> generic_vec::TypeVec<Tok, [Tok; 2]> { generic_vec::gvec![Tok::new(), Tok::new(), Tok::new()] });
} }

// plain Copy elements take another path on nightly
harness! { copy_grow, "C14 | lanes std nightly | all", unwind 6, {
    let mut v = generic_vec::TypeVec::<u16, [u16; 4]>::new();
    let len = any_le(4);
    let base = any_u16();
    let mut i = 0;
    while i < len { v.push(base ^ i as u16); i += 1; }
    let k = any_le(3);
    assume(len + k <= 4);
    let x = any_u16();
    let src = [x, x ^ 0x1111, x ^ 0x2222];
    let same = any_bool();
    if same { v.grow(k, x) } else { v.extend_from_slice(&src[..k]) }
    gv_assert!(v.len() == len + k, "growth of plain elements: wrong length");
    let p = any_u8() as usize;
    if p < len {
        gv_assert!(v[p] == base ^ p as u16, "growth of plain elements changed an element");
    } else if p < len + k {
        gv_assert!(v[p] == if same { x } else { src[p - len] }, "growth of plain elements: wrong element");
    }
    witness!(k == 2 && len == 2, "copy_grow");
} }
harness! { copy_resize, "C14 | lanes std nightly | all", unwind 6, {
    let mut v = generic_vec::TypeVec::<u16, [u16; 4]>::new();
    let len = any_le(4);
    let base = any_u16();
    let mut i = 0;
    while i < len { v.push(base ^ i as u16); i += 1; }
    let n = any_le(4);
    let x = any_u16();
    let src = [x, x ^ 1, x ^ 2, x ^ 3];
    let cl = any_bool();
    if cl { v.clone_from(&src[..n]) } else { v.resize(n, x) }
    gv_assert!(v.len() == n, "resize of plain elements: wrong length");
    let p = any_u8() as usize;
    if p < n {
        gv_assert!(v[p] == if cl { src[p] } else if p < len { base ^ p as u16 } else { x }, "resize of plain elements: wrong element");
    }
    witness!(n == 3 && len == 2, "copy_resize");
} }

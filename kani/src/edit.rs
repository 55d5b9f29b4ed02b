//! Single-element edits (C02), refusals (C03).
use crate::rt::*;
use crate::{gv_assert, op, witness};
use generic_vec::{raw::Storage, GenericVec};

op! { push, "C02 C01 C04", unwind 6, [slice pslice ty zs zslice zty] alloc [boxed dynbuf refmut heap0 heap1 heap2 heap3 heap4 zheap],
<E> |v, len| {
    if len < v.capacity() || v.try_reserve(1) {
        {
            let r = v.push(E::make());
            gv_assert!(r.ident() == idt::<E>(len), "push returned another element");
        }
        expect(v, len + 1, |p| p);
        witness!(true, "push");
    }
} }

op! { push_grow, "C02 C05", unwind 6, [] alloc [heap0 heap1 heap2 heap3 heap4],
<E> |v, len| {
    // without reserving first: push itself has to grow the vector
    let cap = v.capacity();
    let p0 = v.as_ptr();
    v.push(E::make());
    gv_assert!(v.capacity() >= cap, "capacity shrank");
    if len < cap {
        gv_assert!(v.capacity() == cap, "reallocated although there was room");
        gv_assert!(v.as_ptr() == p0, "moved although there was room");
    } else {
        gv_assert!(v.capacity() >= 2 * cap, "grew by less than doubling");
    }
    expect(v, len + 1, |p| p);
    witness!(true, "push_grow");
} }

op! { insert, "C02 C01 C04", unwind 6, [slice pslice ty zs zslice zty] alloc [boxed dynbuf refmut heap0 heap1 heap2 heap3 heap4 zheap],
<E> |v, len| {
    let i = any_usize();
    assume(i <= len);
    if len < v.capacity() || v.try_reserve(1) {
        {
            let r = v.insert(i, E::make());
            gv_assert!(r.ident() == idt::<E>(len), "insert returned another element");
        }
        expect(v, len + 1, |p| if p < i { p } else if p == i { len } else { p - 1 });
        witness!(true, "insert");
    }
} }

op! { insert_grow, "C02 C05", unwind 6, [] alloc [heap0 heap1 heap2 heap3 heap4],
<E> |v, len| {
    let i = any_usize();
    assume(i <= len);
    v.insert(i, E::make());
    expect(v, len + 1, |p| if p < i { p } else if p == i { len } else { p - 1 });
    witness!(true, "insert_grow");
} }

op! { pop, "C02 C01", unwind 6, [slice pslice ty zs zslice zty] alloc [boxed refmut heap1 heap2 heap4 zheap],
<E> |v, len| {
    assume(len > 0);
    let r = v.pop();
    gv_assert!(r.ident() == idt::<E>(len - 1), "pop returned another element");
    r.live_check();
    expect(v, len - 1, |p| p);
    witness!(true, "pop");
} }

op! { remove, "C02 C01", unwind 6, [slice pslice ty zs zslice zty] alloc [boxed dynbuf refmut heap1 heap2 heap3 heap4 zheap],
<E> |v, len| {
    let i = any_usize();
    assume(i < len);
    let r = v.remove(i);
    gv_assert!(r.ident() == idt::<E>(i), "remove returned another element");
    r.live_check();
    expect(v, len - 1, |p| if p < i { p } else { p + 1 });
    witness!(true, "remove");
} }

op! { swap_remove, "C02 C01", unwind 6, [slice pslice ty zs zslice zty] alloc [boxed refmut heap1 heap2 heap4 zheap],
<E> |v, len| {
    let i = any_usize();
    assume(i < len);
    let r = v.swap_remove(i);
    gv_assert!(r.ident() == idt::<E>(i), "swap_remove returned another element");
    r.live_check();
    expect(v, len - 1, |p| if p == i { len - 1 } else { p });
    witness!(true, "swap_remove");
} }

op! { truncate, "C02 C01 C03", unwind 6, [slice pslice ty zs zslice zty] alloc [boxed dynbuf refmut heap1 heap2 heap4 zheap],
<E> |v, len| {
    let n = any_usize();
    let cap = v.capacity();
    v.truncate(n);
    gv_assert!(v.capacity() == cap, "truncate changed the capacity");
    let now = if n < len { n } else { len };
    expect(v, now, |p| p);
    // the others were dropped by truncate itself
    if E::TRACKED {
        let q = any_u8() as usize;
        if q >= now && q < len { gv_assert!(drops(q as u8) == 1, "truncated element not dropped"); }
    } else if E::ZST {
        gv_assert!(zlive() == now, "truncated elements not dropped");
    }
    witness!(n < len, "truncate");
} }

op! { clear, "C02 C01", unwind 6, [slice pslice ty zs zslice zty] alloc [boxed refmut heap1 heap2 heap4 zheap],
<E> |v, len| {
    let cap = v.capacity();
    v.clear();
    gv_assert!(v.capacity() == cap && v.is_empty(), "clear");
    expect(v, 0, |p| p);
    if E::TRACKED {
        let q = any_u8() as usize;
        if q < len { gv_assert!(drops(q as u8) == 1, "cleared element not dropped"); }
    } else if E::ZST {
        gv_assert!(zlive() == 0, "cleared elements not dropped");
    }
    witness!(len > 0, "clear");
} }

op! { try_push, "C02 C03 C01 C04", unwind 6, [slice pslice ty zs zslice zty] alloc [boxed dynbuf refmut heap0 heap1 heap2 heap3 heap4 zheap],
<E> |v, len| {
    let cap = v.capacity();
    let now = match v.try_push(E::make()) {
        Ok(r) => {
            gv_assert!(r.ident() == idt::<E>(len), "try_push returned another element");
            gv_assert!(len < cap, "try_push accepted an element into a full vector");
            len + 1
        }
        Err(e) => {
            gv_assert!(e.ident() == idt::<E>(len), "try_push gave back another element");
            e.live_check();
            gv_assert!(len == cap, "try_push refused although there was room");
            len
        }
    };
    gv_assert!(v.capacity() == cap, "try_push changed the capacity");
    expect(v, now, |p| p);
    witness!(true, "try_push");
} }

op! { try_insert, "C02 C03 C01 C04", unwind 6, [slice pslice ty zs zslice zty] alloc [boxed dynbuf refmut heap0 heap1 heap2 heap3 heap4 zheap],
<E> |v, len| {
    let i = any_usize();
    let cap = v.capacity();
    let ok = match v.try_insert(i, E::make()) {
        Ok(r) => {
            gv_assert!(r.ident() == idt::<E>(len), "try_insert returned another element");
            gv_assert!(len < cap && i <= len, "try_insert accepted what does not fit");
            true
        }
        Err(e) => {
            gv_assert!(e.ident() == idt::<E>(len), "try_insert gave back another element");
            e.live_check();
            gv_assert!(len == cap || i > len, "try_insert refused what fits");
            false
        }
    };
    gv_assert!(v.capacity() == cap, "try_insert changed the capacity");
    if ok {
        expect(v, len + 1, |p| if p < i { p } else if p == i { len } else { p - 1 });
    } else {
        expect(v, len, |p| p);
    }
    witness!(true, "try_insert");
} }

op! { try_pop, "C02 C03 C01", unwind 6, [slice pslice ty zs zslice zty] alloc [boxed refmut heap0 heap2 heap4 zheap],
<E> |v, len| {
    let r = v.try_pop();
    gv_assert!(r.is_some() == (len > 0), "try_pop refused or accepted wrongly");
    if let Some(e) = &r {
        gv_assert!(e.ident() == idt::<E>(len - 1), "try_pop returned another element");
        e.live_check();
    }
    expect(v, if len > 0 { len - 1 } else { 0 }, |p| p);
    witness!(len == 0, "try_pop empty");
} }

op! { try_remove, "C02 C03 C01", unwind 6, [slice pslice ty zs zslice zty] alloc [boxed refmut heap0 heap2 heap4 zheap],
<E> |v, len| {
    let i = any_usize();
    let r = v.try_remove(i);
    gv_assert!(r.is_some() == (i < len), "try_remove refused or accepted wrongly");
    if let Some(e) = &r {
        gv_assert!(e.ident() == idt::<E>(i), "try_remove returned another element");
        e.live_check();
        expect(v, len - 1, |p| if p < i { p } else { p + 1 });
    } else {
        expect(v, len, |p| p);
    }
    witness!(i == len, "try_remove at the length");
} }

op! { try_swap_remove, "C02 C03 C01", unwind 6, [slice pslice ty zs zslice zty] alloc [boxed refmut heap0 heap2 heap4 zheap],
<E> |v, len| {
    let i = any_usize();
    let r = v.try_swap_remove(i);
    gv_assert!(r.is_some() == (i < len), "try_swap_remove refused or accepted wrongly");
    if let Some(e) = &r {
        gv_assert!(e.ident() == idt::<E>(i), "try_swap_remove returned another element");
        e.live_check();
        expect(v, len - 1, |p| if p == i { len - 1 } else { p });
    } else {
        expect(v, len, |p| p);
    }
    witness!(i == len, "try_swap_remove at the length");
} }

op! { unchecked_push_pop, "C02 C01", unwind 6, [slice pslice ty zs zslice zty] alloc [boxed refmut heap1 heap2 heap4 zheap],
<E> |v, len| {
    assume(len < v.capacity());
    unsafe {
        gv_assert!(v.push_unchecked(E::make()).ident() == idt::<E>(len), "push_unchecked returned another element");
        expect(v, len + 1, |p| p);
        let e = v.pop_unchecked();
        gv_assert!(e.ident() == idt::<E>(len), "pop_unchecked returned another element");
        e.live_check();
    }
    expect(v, len, |p| p);
    witness!(true, "unchecked_push_pop");
} }

op! { unchecked_insert, "C02 C01", unwind 6, [slice pslice ty zs zslice zty] alloc [heap2 heap4 zheap],
<E> |v, len| {
    let i = any_usize();
    assume(len < v.capacity() && i <= len);
    unsafe {
        gv_assert!(v.insert_unchecked(i, E::make()).ident() == idt::<E>(len), "insert_unchecked returned another element");
    }
    expect(v, len + 1, |p| if p < i { p } else if p == i { len } else { p - 1 });
    witness!(true, "unchecked_insert");
} }

op! { unchecked_remove, "C02 C01", unwind 6, [slice pslice ty zs zslice zty] alloc [heap2 heap4 zheap],
<E> |v, len| {
    let i = any_usize();
    assume(i < len);
    if any_bool() {
        let e = unsafe { v.remove_unchecked(i) };
        gv_assert!(e.ident() == idt::<E>(i), "remove_unchecked returned another element");
        e.live_check();
        expect(v, len - 1, |p| if p < i { p } else { p + 1 });
    } else {
        let e = unsafe { v.swap_remove_unchecked(i) };
        gv_assert!(e.ident() == idt::<E>(i), "swap_remove_unchecked returned another element");
        e.live_check();
        expect(v, len - 1, |p| if p == i { len - 1 } else { p });
    }
    witness!(true, "unchecked_remove");
} }

op! { views, "C02 C01", unwind 6, [slice pslice ty zs zslice zty] alloc [boxed refmut heap0 heap2 heap4 zheap],
<E> |v, len| {
    gv_assert!(v.len() == len && v.is_empty() == (len == 0), "len / is_empty");
    gv_assert!(v.is_full() == (v.capacity() == len), "is_full");
    gv_assert!(v.remaining_capacity() == v.capacity() - len, "remaining_capacity");
    let p = any_u8() as usize;
    if p < len {
        gv_assert!(v[p].ident() == idt::<E>(p), "index");
        gv_assert!(v.as_slice()[p].ident() == idt::<E>(p), "as_slice");
        gv_assert!(v.as_mut_slice()[p].ident() == idt::<E>(p), "as_mut_slice");
        gv_assert!(v[p..].len() == len - p && v[p..][0].ident() == idt::<E>(p), "range index");
        gv_assert!(AsRef::<[E]>::as_ref(&*v)[p].ident() == idt::<E>(p), "AsRef");
        gv_assert!(AsMut::<[E]>::as_mut(&mut *v)[p].ident() == idt::<E>(p), "AsMut");
        v[p] = E::make();
        gv_assert!(v.get(p).unwrap().ident() == idt::<E>(len), "IndexMut");
        if E::TRACKED { gv_assert!(drops(p as u8) == 1, "overwritten element not dropped"); }
        expect(v, len, |q| if q == p { len } else { q });
    } else {
        gv_assert!(v.get(p).is_none(), "get out of bounds");
    }
    let mut n = 0;
    for e in (&*v).into_iter() { e.live_check(); n += 1; }
    for e in (&mut *v).into_iter() { e.live_check(); n += 1; }
    gv_assert!(n == 2 * len, "borrowing iterators");
    witness!(p < len, "views");
} }

// ------------------------------------------------------------------------------- refusals

op! { pop_empty, "C03 | panic", unwind 6, [slice ty zs zslice zty] alloc [boxed refmut heap0 heap2 zheap],
<E> |v, len| {
    assume(len == 0);
    witness!(true, "pop_empty");
    must_panic(|| v.pop());
    expect(v, len, |p| p);
} }

op! { remove_oob, "C03 | panic", unwind 6, [slice ty zs zslice zty] alloc [boxed refmut heap0 heap1 heap2 heap4 zheap],
<E> |v, len| {
    let i = any_usize();
    assume(i >= len);
    witness!(i == len, "remove_oob");
    must_panic(|| v.remove(i));
    expect(v, len, |p| p);
} }

op! { swap_remove_oob, "C03 | panic", unwind 6, [slice ty zs zslice zty] alloc [boxed refmut heap0 heap1 heap2 heap4 zheap],
<E> |v, len| {
    let i = any_usize();
    assume(i >= len);
    witness!(i == len, "swap_remove_oob");
    must_panic(|| v.swap_remove(i));
    expect(v, len, |p| p);
} }

op! { insert_oob, "C03 | panic", unwind 6, [slice ty zs zslice zty] alloc [boxed refmut heap0 heap1 heap2 heap4 zheap],
<E> |v, len| {
    let i = any_usize();
    assume(i > len);
    witness!(i == len + 1, "insert_oob");
    must_panic(|| v.insert(i, E::make()).ident());
    expect(v, len, |p| p);
} }

op! { index_oob, "C03 C02 | panic", unwind 6, [slice ty zs] alloc [heap2],
<E> |v, len| {
    let i = any_usize();
    assume(i >= len);
    witness!(i == len, "index_oob");
    must_panic(|| v[i].ident());
    expect(v, len, |p| p);
} }

op! { split_off_into_oob, "C03 C13 | panic", unwind 6, [slice ty zs] alloc [heap2],
<E> |v, len| {
    let i = any_usize();
    assume(i > len);
    let mut other = generic_vec::TypeVec::<E, [E; N]>::new();
    witness!(i == len + 1, "split_off_into_oob");
    must_panic(|| v.split_off_into(i, &mut other));
    expect(v, len, |p| p);
    expect(&other, 0, |p| p);
} }

op! { split_off_oob, "C03 C13 | panic", unwind 6, [slice ty zs] alloc [heap2],
<E> |v, len| {
    let i = any_usize();
    assume(i > len);
    witness!(i == len + 1, "split_off_oob");
    must_panic(|| v.split_off::<generic_vec::raw::UninitBuffer<[E; N], E>>(i));
    expect(v, len, |p| p);
} }

// a full fixed storage: the growing operations panic
op! { push_full, "C04 C03 | panic", unwind 6, [slice ty] alloc [boxed dynbuf refmut],
<E> |v, len| {
    assume(len == v.capacity());
    witness!(true, "push_full");
    must_panic(|| v.push(E::make()).ident());
    expect(v, len, |p| p);
} }

op! { insert_full, "C04 C03 | panic", unwind 6, [slice ty] alloc [boxed refmut],
<E> |v, len| {
    assume(len == v.capacity());
    let i = any_usize();
    witness!(i <= len, "insert_full");
    must_panic(|| v.insert(i, E::make()).ident());
    expect(v, len, |p| p);
} }

op! { reserve_full, "C04 | panic", unwind 6, [slice ty] alloc [boxed dynbuf refmut],
<E> |v, len| {
    let k = any_usize();
    assume(k > v.capacity() - len);
    witness!(k == v.capacity() - len + 1, "reserve_full");
    must_panic(|| v.reserve(k));
    expect(v, len, |p| p);
} }

op! { reserve_fits, "C04 C05", unwind 6, [slice pslice ty zs zslice zty] alloc [boxed refmut heap2 heap4 zheap],
<E> |v, len| {
    let k = any_usize();
    let cap = v.capacity();
    assume(k <= cap - len);
    let p0 = v.as_ptr();
    v.reserve(k);
    gv_assert!(v.capacity() == cap && v.as_ptr() == p0, "reserve moved although there was room");
    gv_assert!(v.try_reserve(k), "try_reserve refused although there was room");
    gv_assert!(v.capacity() == cap && v.as_ptr() == p0, "try_reserve moved although there was room");
    expect(v, len, |p| p);
    witness!(k == cap - len, "reserve_fits");
} }

op! { try_reserve_fixed, "C04", unwind 6, [slice pslice ty] alloc [boxed dynbuf refmut],
<E> |v, len| {
    let k = any_usize();
    let cap = v.capacity();
    let ok = v.try_reserve(k);
    gv_assert!(ok == (k <= cap - len), "try_reserve of a fixed storage answered wrongly");
    gv_assert!(v.capacity() == cap, "fixed storage changed its capacity");
    expect(v, len, |p| p);
    witness!(ok, "try_reserve_fixed");
} }

op! { grow_full, "C04 C14 | panic", unwind 6, [slice ty] alloc [boxed refmut],
<E> |v, len| {
    // any bulk growth by more than the room panics
    let room = v.capacity() - len;
    let k = any_usize();
    assume(k > room);
    let which = any_le(4);
    witness!(which == 4 && k == room + 1, "grow_full");
    must_panic(|| match which {
        0 => v.grow(k, E::make()),
        1 => v.grow_with(k, E::make),
        2 => { assume(len.checked_add(k).is_some()); v.resize(len + k, E::make()) }
        3 => { assume(len.checked_add(k).is_some()); v.resize_with(len + k, E::make) }
        _ => { assume(k <= N + 1); v.extend((0..k).map(|_| E::make())) }
    });
    expect(v, len, |p| p);
} }

op! { extend_slice_full, "C04 C14 | panic", unwind 6, [slice ty] alloc [boxed refmut],
<E> |v, len| {
    let room = v.capacity() - len;
    let src: [core::mem::ManuallyDrop<E>; N + 1] = core::array::from_fn(|_| core::mem::ManuallyDrop::new(E::make()));
    let src: &[E] = unsafe { core::slice::from_raw_parts(src.as_ptr().cast(), N + 1) };
    let k = any_le(N + 1);
    assume(k > room);
    witness!(k == room + 1, "extend_slice_full");
    must_panic(|| v.extend_from_slice(&src[..k]));
    expect(v, len, |p| p);
} }

//! Owning iteration (C11), deduplication (C12), splitting, appending, converting (C13)
use crate::rt::*;
use crate::{gv_assert, harness, op, own, witness};
use generic_vec::{raw::Storage, GenericVec};

// ------------------------------------------------------------------------------ into_iter

fn check_iter<E: Elem, S: Storage<E>>(it: &mut generic_vec::iter::IntoIter<E, S>, a: usize, b: usize) {
    gv_assert!(it.size_hint() == (b - a, Some(b - a)) && it.len() == b - a, "into_iter: wrong size hint");
    gv_assert!(it.as_slice().len() == b - a && it.as_mut_slice().len() == b - a, "into_iter: remaining slice has another length");
    let p = any_u8() as usize;
    if p < b - a {
        gv_assert!(it.as_slice()[p].ident() == idt::<E>(a + p), "into_iter: wrong remaining slice");
        gv_assert!(it.as_mut_slice()[p].ident() == idt::<E>(a + p), "into_iter: wrong remaining slice");
        it.as_slice()[p].live_check();
    }
}

pub fn into_iter_steps<E: Elem, S: Storage<E>>(v: GenericVec<E, S>, len: usize, k: usize) {
    let dirs = any_u8();
    let (mut a, mut b) = (0, len);
    let mut it = v.into_iter();
    let mut i = 0;
    while i < k {
        if dirs >> i & 1 == 0 {
            match it.next() {
                Some(x) => {
                    gv_assert!(a < b && x.ident() == idt::<E>(a), "into_iter: wrong element from the front");
                    x.live_check();
                    a += 1;
                }
                None => gv_assert!(a == b, "into_iter ended early"),
            }
        } else {
            match it.next_back() {
                Some(x) => {
                    gv_assert!(a < b && x.ident() == idt::<E>(b - 1), "into_iter: wrong element from the back");
                    x.live_check();
                    b -= 1;
                }
                None => gv_assert!(a == b, "into_iter ended early"),
            }
        }
        i += 1;
    }
    check_iter(&mut it, a, b);
    witness!(a > 0 && b < len && a < b, "into_iter");
    drop(it);
    if E::ZST { gv_assert!(zlive() == 0, "into_iter: elements not dropped"); }
}

own! { into_iter, "C11 C01", unwind 6, [slice pslice ty zs zty] alloc [heap2 heap3 boxed zheap], <E> |v, len| {
    let k = any_le(N + 1);
    into_iter_steps(v, len, k)
} }

own! { into_iter_nth, "C11 C01", unwind 6, [slice pslice ty zs zty] alloc [heap2 heap3 boxed zheap], <E> |v, len| {
    let (mut a, mut b) = (0, len);
    let mut it = v.into_iter();
    if any_bool() {
        if it.next().is_some() { a += 1; }
    }
    if any_bool() {
        if it.next_back().is_some() { b -= 1; }
    }
    let n = any_usize();
    let from = a;
    match it.nth(n) {
        Some(x) => {
            gv_assert!(n < b - a, "into_iter: nth past the end");
            gv_assert!(x.ident() == idt::<E>(a + n), "into_iter: nth returned another element");
            x.live_check();
            a += n + 1;
        }
        None => {
            gv_assert!(n >= b - a, "into_iter: nth ended early");
            a = b;
        }
    }
    // the skipped ones are gone now
    if E::TRACKED {
        let q = any_u8() as usize;
        if q >= from && q < a { gv_assert!(drops(q as u8) == 1, "into_iter: skipped element not dropped"); }
        if q >= a && q < b { gv_assert!(drops(q as u8) == 0, "into_iter: remaining element dropped"); }
    } else if E::ZST {
        gv_assert!(zlive() == b - a, "into_iter: wrong number of elements dropped by nth");
    }
    check_iter(&mut it, a, b);
    if any_bool() {
        gv_assert!(it.count() == b - a, "into_iter: wrong count");
    }
    witness!(n == 1 && from == 1, "into_iter_nth");
} }

own! { into_iter_adapters, "C11", unwind 6, [slice pslice ty zs zty] alloc [heap2 boxed], <E> |v, len| {
    let (mut a, mut b) = (0, len);
    let mut it = v.into_iter();
    if any_bool() && it.next().is_some() { a += 1; }
    match any_u8() {
        0 => {
            let n = any_usize();
            let x = it.nth_back(n);
            gv_assert!(x.is_some() == (n < b - a), "into_iter: nth_back");
            if let Some(x) = &x { gv_assert!(x.ident() == idt::<E>(b - 1 - n), "into_iter: nth_back returned another element"); }
            b = if n < b - a { b - n - 1 } else { a };
        }
        1 => {
            let x = it.by_ref().last();
            gv_assert!(x.is_some() == (a < b), "into_iter: last");
            if let Some(x) = &x { gv_assert!(x.ident() == idt::<E>(b - 1), "into_iter: last returned another element"); }
            a = b;
        }
        2 => {
            let mut at = b;
            it.by_ref().rev().for_each(|x| {
                at -= 1;
                gv_assert!(x.ident() == idt::<E>(at), "into_iter: reversed iteration");
            });
            gv_assert!(at == a, "into_iter: reversed iteration ended early");
            a = b;
        }
        _ => {
            let mut at = a;
            it.by_ref().for_each(|x| {
                gv_assert!(x.ident() == idt::<E>(at), "into_iter: iteration");
                at += 1;
            });
            gv_assert!(at == b, "into_iter: iteration ended early");
            a = b;
        }
    }
    check_iter(&mut it, a, b);
    witness!(b - a > 0 && a > 0, "into_iter_adapters");
} }

own! { into_iter_fused, "C11", unwind 6, [slice pslice zs] alloc [heap2], <E> |v, len| {
    // exhausted iterators stay exhausted, and nothing is yielded from the other end
    let mut it = v.into_iter();
    let back = any_bool();
    let mut n = 0;
    while (if back { it.next_back() } else { it.next() }).is_some() { n += 1; }
    gv_assert!(n == len, "into_iter: wrong number of elements");
    gv_assert!(it.next().is_none() && it.next_back().is_none() && it.nth(any_usize()).is_none(), "into_iter: not fused");
    gv_assert!(it.len() == 0 && it.as_slice().is_empty(), "into_iter: not empty");
} }

own! { into_iter_collect, "C11", unwind 6, [slice pslice ty zs] alloc [heap2], <E> |v, len| {
    // the provided adapters see the same sequence
    let mut at = 0;
    if any_bool() {
        v.into_iter().for_each(|x| {
            gv_assert!(x.ident() == idt::<E>(at), "into_iter: wrong order");
            at += 1;
        });
    } else {
        v.into_iter().rev().for_each(|x| {
            gv_assert!(x.ident() == idt::<E>(len - 1 - at), "into_iter: wrong reverse order");
            at += 1;
        });
    }
    gv_assert!(at == len, "into_iter: wrong number of elements");
} }

// ---------------------------------------------------------------------------------- dedup

/// which elements are kept, under a relation given as a bit matrix
fn kept(rel: u32, len: usize) -> u8 {
    let mut k = 1u8;
    let mut last = 0;
    let mut i = 1;
    while i < len {
        if rel >> (i * 5 + last) & 1 == 0 {
            k |= 1 << i;
            last = i;
        }
        i += 1;
    }
    k
}
pub fn dedup_check<E: Elem, S: Storage<E>>(v: &GenericVec<E, S>, len: usize, k: u8) {
    let gone = !k;
    if E::ZST {
        gv_assert!(zlive() == v.len(), "dedup: wrong number of elements dropped");
    }
    expect(v, len - count(gone, len), |p| nth_kept(gone, len, p));
    if E::TRACKED {
        let q = any_u8() as usize;
        if q < len { gv_assert!(drops(q as u8) == gone >> q & 1, "dedup: wrong element dropped"); }
    }
}

op! { dedup_by, "C12 C01", unwind 6, [slice pslice ty] alloc [heap2 boxed refmut], <E> |v, len| {
    let rel = any_u32();
    let mut calls = 0;
    let cap = v.capacity();
    let k = kept(rel, len);
    let mut last = 0;
    v.dedup_by(|a, b| {
        let (i, j) = (a.ident() as usize, b.ident() as usize);
        a.live_check();
        b.live_check();
        calls += 1;
        gv_assert!(i == calls && j == last, "dedup: relation called on other elements");
        let same = rel >> (i * 5 + j) & 1 == 1;
        if !same { last = i; }
        same
    });
    gv_assert!(calls == if len == 0 { 0 } else { len - 1 }, "dedup: relation not called once per later element");
    gv_assert!(v.capacity() == cap, "dedup changed the capacity");
    dedup_check(v, len, k);
    witness!(len == 3 && k == 5, "dedup_by");
} }

op! { dedup_by_zs, "C12 C01", unwind 6, [zs zslice zty] alloc [zheap], <E> |v, len| {
    let same = any_u8();
    let mut calls = 0;
    v.dedup_by(|_, _| { calls += 1; same >> calls & 1 == 1 });
    gv_assert!(calls == if len == 0 { 0 } else { len - 1 }, "dedup: relation not called once per later element");
    dedup_check(v, len, !(same & 0xfe));
    witness!(len == 4 && same == 2, "dedup_by_zs");
} }

op! { dedup_by_key, "C12 C01", unwind 6, [slice pslice ty] alloc [heap2], <E> |v, len| {
    let keys = any_u8();
    let key = |i: usize| keys >> (2 * i) & 3;
    v.dedup_by_key(|x| key(x.ident() as usize));
    let mut k = 1u8;
    let mut i = 1;
    while i < len {
        // equality is transitive: comparing with the previous element is the same
        if key(i) != key(i - 1) { k |= 1 << i; }
        i += 1;
    }
    dedup_check(v, len, k);
    witness!(len == 4 && k == 0b1001, "dedup_by_key");
} }

op! { dedup_by_key_asym, "C12", unwind 6, [slice3 pslice3] alloc [], <E> |v, len| {
    // a key whose equality is any relation: it decides, as (key of the later, key of the earlier)
    let rel = any_u32();
    let k = kept(rel, len);
    struct K(u32, usize);
    impl PartialEq for K {
        fn eq(&self, o: &K) -> bool { self.0 >> (self.1 * 5 + o.1) & 1 == 1 }
    }
    v.dedup_by_key(|x| K(rel, x.ident() as usize));
    dedup_check(v, len, k);
    witness!(len == 3 && k == 5, "dedup_by_key_asym");
} }

op! { dedup_eq, "C12 C01", unwind 6, [slice pslice ty] alloc [heap2], <E> |v, len| {
    let cl = any_u8();
    set_classes(cl);
    v.dedup::<(), ()>();
    let mut k = 1u8;
    let mut i = 1;
    while i < len {
        if cl >> (2 * i) & 3 != cl >> (2 * i - 2) & 3 { k |= 1 << i; }
        i += 1;
    }
    dedup_check(v, len, k);
    witness!(len == 4 && k == 0b0101, "dedup_eq");
} }

// ------------------------------------------------------------------------ split, append, convert

op! { split_off_into, "C13 C01", unwind 8, [slice3 pslice3 ty3 zs zslice] alloc [heap2 boxed2], <E> |v, len| {
    let mut o = generic_vec::TypeVec::<E, [E; N]>::new();
    let n = any_le(2);
    setup(&mut o, n);
    let cap = v.capacity();
    let i = any_usize();
    assume(i <= len && n + (len - i) <= o.capacity());
    v.split_off_into(i, &mut o);
    gv_assert!(v.capacity() == cap, "split_off changed the capacity");
    expect(v, i, |p| p);
    expect(&o, n + (len - i), |p| if p < n { len + p } else { i + (p - n) });
    witness!(n > 0 && i > 0 && i < len, "split_off_into");
} }

op! { append, "C13 C01", unwind 8, [slice3 pslice3 ty3 zs zslice] alloc [heap2 boxed2], <E> |v, len| {
    let mut o = generic_vec::TypeVec::<E, [E; 2]>::new();
    let n = any_le(2);
    setup(&mut o, n);
    assume(len + n <= v.capacity());
    v.append(&mut o);
    expect(&o, 0, |p| p);
    expect(v, len + n, |p| p);
    witness!(n > 0, "append");
} }

op! { append_to, "C13 C01", unwind 6, [slice3 pslice3 ty3 zs] alloc [heap2 boxed2], <E> |v, len| {
    // into another storage
    let mut o = generic_vec::TypeVec::<E, [E; N]>::new();
    let n = any_le(1);
    setup(&mut o, n);
    assume(len + n <= o.capacity());
    o.append(v);
    expect(v, 0, |p| p);
    expect(&o, n + len, |p| if p < n { len + p } else { p - n });
    witness!(n > 0 && len > 0, "append_to");
} }

#[cfg(feature = "alloc")]
op! { append_grow, "C13 C05", unwind 6, [] alloc [heap0 heap1 heap2], <E> |v, len| {
    // both on the heap; the destination grows by itself
    pick(2, |n| {
        let mut o: generic_vec::HeapVec<E> = generic_vec::HeapVec::with_capacity(n);
        setup(&mut o, n);
        v.append(&mut o);
        gv_assert!(o.capacity() >= n, "append took the other vector's memory");
        expect(&o, 0, |p| p);
        expect(v, len + n, |p| p);
        witness!(n > 0, "append_grow");
    });
} }

#[cfg(feature = "alloc")]
op! { split_off_heap, "C13 C25", unwind 6, [] alloc [heap0 heap1 heap2], <E> |v, len| {
    pick(2, |i| {
        assume(i <= len);
        let cap = v.capacity();
        let mut o: generic_vec::HeapVec<E> = v.split_off(i);
        gv_assert!(v.capacity() == cap, "split_off changed the capacity");
        gv_assert!(o.capacity() >= len - i, "split_off: too little capacity");
        expect(v, i, |p| p);
        expect(&o, len - i, |p| i + p);
        witness!(i == 0, "split_off_heap");
    });
} }

op! { split_off_fixed, "C13 C01", unwind 6, [slice pslice ty3 zs zslice] alloc [heap2 boxed2], <E> |v, len| {
    let i = any_usize();
    assume(i <= len);
    let cap = v.capacity();
    let o: generic_vec::TypeVec<E, [E; N], E> = v.split_off(i);
    gv_assert!(v.capacity() == cap, "split_off changed the capacity");
    expect(v, i, |p| p);
    expect(&o, len - i, |p| i + p);
    witness!(i > 0 && i < len, "split_off_fixed");
} }

#[cfg(feature = "alloc")]
op! { split_off_boxed, "C13 C25", unwind 6, [slice3 pslice3 zs] alloc [heap2], <E> |v, len| {
    let i = any_usize();
    assume(i <= len);
    let o: GenericVec<E, Box<generic_vec::raw::UninitBuffer<[E; 3], E>>> = {
        assume(len - i <= 3);
        v.split_off(i)
    };
    gv_assert!(o.capacity() >= 3, "split_off: too little capacity");
    expect(v, i, |p| p);
    expect(&o, len - i, |p| i + p);
    witness!(i > 0 && i < len, "split_off_boxed");
} }

own! { convert_fixed, "C13 C01", unwind 6, [slice pslice ty3 zs zty] alloc [heap2 boxed2 zheap], <E> |v, len| {
    let o: generic_vec::TypeVec<E, [E; N], E> = v.convert();
    expect(&o, len, |p| p);
} }

#[cfg(feature = "alloc")]
own! { convert_heap, "C13 C01", unwind 6, [] alloc [heap0 heap2], <E> |v, len| {
    let o: generic_vec::HeapVec<E> = v.convert();
    gv_assert!(o.capacity() >= len, "convert: too little capacity");
    expect(&o, len, |p| p);
} }

own! { convert_full, "C13 C04 | panic", unwind 6, [slice3 ty3] alloc [heap2 boxed2], <E> |v, len| {
    assume(len > 1);
    must_panic(|| v.convert::<generic_vec::raw::UninitBuffer<[E; 1], E>>());
} }

op! { split_off_full, "C13 C04 | panic", unwind 6, [slice3 ty3] alloc [heap2 boxed2], <E> |v, len| {
    let i = any_usize();
    assume(i <= len && len - i > 1);
    must_panic(|| v.split_off::<generic_vec::raw::UninitBuffer<[E; 1], E>>(i));
    expect(v, len, |p| p);
} }

op! { split_into_full, "C13 C04 | panic", unwind 6, [slice3 ty3] alloc [heap2 boxed2], <E> |v, len| {
    let mut o = generic_vec::TypeVec::<E, [E; 2]>::new();
    let n = any_le(2);
    setup(&mut o, n);
    let i = any_usize();
    assume(i <= len && n + (len - i) > 2);
    must_panic(|| v.split_off_into(i, &mut o));
    expect(v, len, |p| p);
    expect(&o, n, |p| len + p);
} }

op! { append_full, "C13 C04 | panic", unwind 6, [slice3 ty3] alloc [boxed2], <E> |v, len| {
    let mut o = generic_vec::TypeVec::<E, [E; 2]>::new();
    let n = any_le(2);
    setup(&mut o, n);
    assume(len + n > v.capacity());
    must_panic(|| v.append(&mut o));
    expect(v, len, |p| p);
    expect(&o, n, |p| len + p);
} }

//! drain (C07), drain_filter and retain (C08), splice (C09), what is left after leaking them (C19)
use crate::rt::*;
use crate::{gv_assert, harness, op, witness};
use generic_vec::{raw::Storage, GenericVec};

op! { drain, "C07 C01", unwind 6, [slice pslice ty zs zslice zty] alloc [boxed refmut heap1 heap2 heap4 zheap],
<E> |v, len| {
    let (s, e) = any_range(len);
    let cap = v.capacity();
    let dirs = any_u8();
    let k = any_le(N + 1);
    {
        let mut d = v.drain(s..e);
        let (mut a, mut b) = (s, e);
        let mut i = 0;
        while i < k {
            gv_assert!(d.size_hint() == (b - a, Some(b - a)) && d.len() == b - a, "drain: wrong size hint");
            if dirs >> i & 1 == 0 {
                match d.next() {
                    Some(x) => {
                        gv_assert!(a < b && x.ident() == idt::<E>(a), "drain: wrong element from the front");
                        x.live_check();
                        a += 1;
                    }
                    None => gv_assert!(a == b, "drain ended early"),
                }
            } else {
                match d.next_back() {
                    Some(x) => {
                        gv_assert!(a < b && x.ident() == idt::<E>(b - 1), "drain: wrong element from the back");
                        x.live_check();
                        b -= 1;
                    }
                    None => gv_assert!(a == b, "drain ended early"),
                }
            }
            i += 1;
        }
        witness!(a < b && k > 0 && s > 0, "drain dropped early");
    }
    gv_assert!(v.capacity() == cap, "drain changed the capacity");
    expect(v, len - (e - s), |p| if p < s { p } else { p + (e - s) });
    if E::TRACKED {
        let q = any_u8() as usize;
        if q >= s && q < e { gv_assert!(drops(q as u8) == 1, "drained element not dropped"); }
    } else if E::ZST {
        gv_assert!(zlive() == len - (e - s), "drained elements not dropped");
    }
    witness!(true, "drain end");
} }

op! { drain_adapters, "C07", unwind 6, [slice pslice ty zs zslice] alloc [boxed heap2],
<E> |v, len| {
    // the provided methods of the iterators, after at most one step
    let (s, e) = any_range(len);
    let (mut a, mut b) = (s, e);
    {
        let mut d = v.drain(s..e);
        if any_bool() && d.next().is_some() { a += 1; }
        match any_u8() {
            0 => {
                let n = any_usize();
                let x = d.nth(n);
                gv_assert!(x.is_some() == (n < b - a), "drain: nth");
                if let Some(x) = &x { gv_assert!(x.ident() == idt::<E>(a + n), "drain: nth returned another element"); }
                a = if n < b - a { a + n + 1 } else { b };
            }
            1 => {
                let n = any_usize();
                let x = d.nth_back(n);
                gv_assert!(x.is_some() == (n < b - a), "drain: nth_back");
                if let Some(x) = &x { gv_assert!(x.ident() == idt::<E>(b - 1 - n), "drain: nth_back returned another element"); }
                b = if n < b - a { b - n - 1 } else { a };
            }
            2 => {
                gv_assert!(d.by_ref().count() == b - a, "drain: count");
                a = b;
            }
            3 => {
                let x = d.by_ref().last();
                gv_assert!(x.is_some() == (a < b), "drain: last");
                if let Some(x) = &x { gv_assert!(x.ident() == idt::<E>(b - 1), "drain: last returned another element"); }
                a = b;
            }
            _ => {
                let mut at = b;
                d.by_ref().rev().for_each(|x| {
                    at -= 1;
                    gv_assert!(x.ident() == idt::<E>(at), "drain: reversed iteration");
                });
                gv_assert!(at == a, "drain: reversed iteration ended early");
                a = b;
            }
        }
        gv_assert!(d.size_hint() == (b - a, Some(b - a)), "drain: wrong size hint");
        witness!(b - a > 0 && s > 0, "drain adapters");
    }
    expect(v, len - (e - s), |p| if p < s { p } else { p + (e - s) });
    if E::ZST { gv_assert!(zlive() == len - (e - s), "drained elements not dropped"); }
} }

op! { drain_then_use, "C07", unwind 6, [slice pslice zs] alloc [heap2],
<E> |v, len| {
    // the vector can be filled again up to its capacity after a drain
    let (s, e) = any_range(len);
    v.drain(s..e);
    let now = len - (e - s);
    if now < v.capacity() {
        v.push(E::make());
        expect(v, now + 1, |p| if p < s { p } else if p < now { p + (e - s) } else { len });
        witness!(e > s, "drain_then_use");
    }
} }

pub fn drain_filter_body<E: Elem, S: Storage<E>>(v: &mut GenericVec<E, S>, len: usize) {
    let (s, e) = any_range(len);
    let mask = any_u8();
    let dirs = any_u8();
    let k = any_le(2);
    let cap = v.capacity();
    let (mut seen, mut calls, mut taken) = (0u8, 0usize, 0u8);
    let (mut a, mut b) = (s, e);
    {
        // zero-sized elements are told apart by the order of the calls: use forward steps only
        let mut at = s;
        let mut d = v.drain_filter(s..e, |x| {
            x.live_check();
            calls += 1;
            let i = if E::ZST { at } else { x.ident() as usize };
            at += 1;
            gv_assert!(i >= s && i < e, "predicate called outside the range");
            gv_assert!(seen >> i & 1 == 0, "predicate called twice on an element");
            seen |= 1 << i;
            mask >> i & 1 == 1
        });
        let mut i = 0;
        while i < k {
            let h = d.size_hint();
            gv_assert!(h.0 == 0 && h.1 == Some(b - a), "drain_filter: wrong size hint");
            if E::ZST || dirs >> i & 1 == 0 {
                while a < b && mask >> a & 1 == 0 { a += 1; }
                match d.next() {
                    Some(x) => {
                        gv_assert!(a < b && x.ident() == idt::<E>(a), "drain_filter: wrong element from the front");
                        x.live_check();
                        a += 1;
                    }
                    None => gv_assert!(a == b, "drain_filter ended early"),
                }
            } else {
                while a < b && mask >> (b - 1) & 1 == 0 { b -= 1; }
                match d.next_back() {
                    Some(x) => {
                        gv_assert!(a < b && x.ident() == idt::<E>(b - 1), "drain_filter: wrong element from the back");
                        x.live_check();
                        b -= 1;
                    }
                    None => gv_assert!(a == b, "drain_filter ended early"),
                }
            }
            i += 1;
        }
    }
    gv_assert!(calls == e - s, "predicate not called once per element of the range");
    let mut i = s;
    while i < e { if mask >> i & 1 == 1 { taken |= 1 << i; } i += 1; }
    gv_assert!(v.capacity() == cap, "drain_filter changed the capacity");
    expect(v, len - count(taken, len), |p| nth_kept(taken, len, p));
    if E::TRACKED {
        let q = any_u8() as usize;
        if q < len { gv_assert!(drops(q as u8) == taken >> q & 1, "drain_filter: wrong element dropped"); }
    }
    witness!(taken != 0 && k > 0 && a < b, "drain_filter");
}
op! { drain_filter2, "C08 C01 | slow heap2 boxed2", unwind 4, [slice2 pslice2 ty2 zs2 zslice2] alloc [heap2 boxed2], <E> |v, len| { drain_filter_body(v, len) } }
op! { drain_filter3, "C08 | slow pslice3 slice3 ty3", unwind 5, [slice3 pslice3 ty3] alloc [], <E> |v, len| { drain_filter_body(v, len) } }
op! { drain_filter4, "C08 | slow", unwind 6, [slice pslice ty zs zslice zty] alloc [heap4 zheap], <E> |v, len| { drain_filter_body(v, len) } }

op! { drain_filter_order, "C08", unwind 6, [slice pslice zs] alloc [heap2],
<E> |v, len| {
    // from the front the predicate sees the elements in order, up to the next one it takes
    let (s, e) = any_range(len);
    let mask = any_u8();
    let mut next = s;
    let mut d = v.drain_filter(s..e, |x| {
        gv_assert!(x.ident() == idt::<E>(next), "predicate called out of order");
        next += 1;
        mask >> (next - 1) & 1 == 1
    });
    let r = d.next();
    core::mem::forget(d);
    let mut f = s;
    while f < e && mask >> f & 1 == 0 { f += 1; }
    gv_assert!(next == if f < e { f + 1 } else { e }, "drain_filter looked further than needed");
    gv_assert!(r.is_some() == (f < e), "drain_filter: wrong result");
    leak_ok();
    witness!(f > s && f < e, "drain_filter_order");
} }

op! { retain, "C08 C01", unwind 6, [slice pslice ty zs zslice zty] alloc [boxed refmut heap1 heap2 heap4 zheap],
<E> |v, len| {
    let mask = any_u8();
    let cap = v.capacity();
    let mut calls = 0usize;
    v.retain(|x| {
        x.live_check();
        gv_assert!(x.ident() == idt::<E>(calls), "retain: predicate called out of order");
        calls += 1;
        mask >> (calls - 1) & 1 == 0
    });
    gv_assert!(calls == len, "retain: predicate not called once per element");
    gv_assert!(v.capacity() == cap, "retain changed the capacity");
    expect(v, len - count(mask, len), |p| nth_kept(mask, len, p));
    if E::TRACKED {
        let q = any_u8() as usize;
        if q < len { gv_assert!(drops(q as u8) == mask >> q & 1, "retain: wrong element dropped"); }
    }
    witness!(mask & 3 == 1 && len > 1, "retain");
} }

pub fn filter_mutates_body<E: Elem, S: Storage<E>>(v: &mut GenericVec<E, S>, len: usize) {
    // the predicate replaces elements that it keeps: the replacements stay
    let mask = any_u8();
    let (s, e) = any_range(len);
    let back = any_bool();
    let mut fresh = [0u8; N];
    let f = |x: &mut E| {
        let i = x.ident() as usize;
        *x = E::make();
        fresh[i] = x.ident();
        mask >> i & 1 == 1
    };
    if back {
        let mut d = v.drain_filter(s..e, f);
        d.next_back();
    } else {
        v.drain_filter(s..e, f);
    }
    let mut gone = 0u8;
    let mut i = s;
    while i < e { if mask >> i & 1 == 1 { gone |= 1 << i; } i += 1; }
    expect(v, len - count(gone, len), |p| {
        let i = nth_kept(gone, len, p);
        if i >= s && i < e { fresh[i] as usize } else { i }
    });
    witness!(gone & 1 == 1 && count(gone, len) < e - s, "filter_mutates");
}
op! { filter_mutates2, "C08 | slow pslice2 heap2", unwind 4, [slice2 pslice2] alloc [heap2], <E> |v, len| { filter_mutates_body(v, len) } }
op! { filter_mutates3, "C08 | slow", unwind 5, [slice3 pslice3] alloc [], <E> |v, len| { filter_mutates_body(v, len) } }

// ---------------------------------------------------------------------------------- splice

/// replacement items: `left` of them, with any claimed size hint
pub struct Items<E: Elem> {
    pub left: usize,
    pub made: usize,
    pub hint: Option<usize>,
    /// with a hint given: any upper bound as well, or none
    upper: Option<usize>,
    _e: core::marker::PhantomData<E>,
}
pub static mut ASKED: usize = 0;
impl<E: Elem> Items<E> {
    pub fn new(left: usize, hint: Option<usize>) -> Self {
        unsafe { ASKED = 0 };
        let upper = if hint.is_some() && any_bool() { Some(any_usize()) } else { None };
        Items { left, made: 0, hint, upper, _e: core::marker::PhantomData }
    }
}
impl<E: Elem> Iterator for Items<E> {
    type Item = E;
    fn next(&mut self) -> Option<E> {
        unsafe { ASKED += 1 };
        if self.left == 0 {
            return None;
        }
        self.left -= 1;
        self.made += 1;
        Some(E::make())
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        match self.hint {
            Some(h) => (h, self.upper),
            None => (self.left, Some(self.left)),
        }
    }
}

pub fn splice_check<E: Elem, S: Storage<E>>(v: &mut GenericVec<E, S>, len: usize, r: usize, hint: Option<usize>, k: usize, dirs: u8) {
    let (s, e) = any_range(len);
    let now = len - (e - s) + r;
    assume(now <= v.capacity() || v.try_reserve(now - len));
    {
        let mut d = v.splice(s..e, Items::<E>::new(r, hint));
        let (mut a, mut b) = (s, e);
        let mut i = 0;
        while i < k {
            gv_assert!(d.size_hint() == (b - a, Some(b - a)), "splice: wrong size hint");
            if dirs >> i & 1 == 0 {
                match d.next() {
                    Some(x) => {
                        gv_assert!(a < b && x.ident() == idt::<E>(a), "splice: wrong element from the front");
                        x.live_check();
                        a += 1;
                    }
                    None => gv_assert!(a == b, "splice ended early"),
                }
            } else {
                match d.next_back() {
                    Some(x) => {
                        gv_assert!(a < b && x.ident() == idt::<E>(b - 1), "splice: wrong element from the back");
                        x.live_check();
                        b -= 1;
                    }
                    None => gv_assert!(a == b, "splice ended early"),
                }
            }
            i += 1;
        }
        gv_assert!(unsafe { ASKED } == 0, "replacement consumed before the splice was dropped");
    }
    expect(v, now, |p| if p < s { p } else if p < s + r { len + (p - s) } else { p - r + (e - s) });
    if E::TRACKED {
        let q = any_u8() as usize;
        if q >= s && q < e { gv_assert!(drops(q as u8) == 1, "spliced out element not dropped"); }
    } else if E::ZST {
        gv_assert!(zlive() == now, "spliced out elements not dropped");
    }
}

op! { splice_0_0, "C09 C01 | lanes std nostd | slow pslice3", unwind 5, [slice3 pslice3 zs2 zty2] alloc [boxed2 zheap2],
<E> |v, len| {
    splice_check(v, len, 0, None, 0, any_u8());
    witness!(true, "splice");
} }
op! { splice_0_1, "C09 C01 | lanes std nostd | slow pslice3", unwind 5, [slice3 pslice3 zs2 zty2] alloc [boxed2 zheap2],
<E> |v, len| {
    splice_check(v, len, 0, None, 1, any_u8());
    witness!(true, "splice");
} }
op! { splice_1_0, "C09 C01 | lanes std nostd", unwind 5, [slice3 pslice3 zs2 zty2] alloc [boxed2 zheap2],
<E> |v, len| {
    splice_check(v, len, 1, None, 0, any_u8());
    witness!(true, "splice");
} }
op! { splice_1_1, "C09 C01 | lanes std nostd | slow pslice3", unwind 5, [slice3 pslice3 zs2 zty2] alloc [boxed2 zheap2],
<E> |v, len| {
    splice_check(v, len, 1, None, 1, any_u8());
    witness!(true, "splice");
} }
op! { splice_2_0, "C09 C01 | lanes std nostd | slow pslice3", unwind 5, [slice3 pslice3 zs2 zty2] alloc [boxed2 zheap2],
<E> |v, len| {
    splice_check(v, len, 2, None, 0, any_u8());
    witness!(true, "splice");
} }
op! { splice_2_1, "C09 C01 | lanes std nostd", unwind 5, [slice3 pslice3 zs2 zty2] alloc [boxed2 zheap2],
<E> |v, len| {
    splice_check(v, len, 2, None, 1, any_u8());
    witness!(true, "splice");
} }
op! { splice_3_0, "C09 C01 | lanes std nostd | slow pslice3", unwind 6, [slice3 pslice3 zs2 zty2] alloc [zheap2],
<E> |v, len| {
    splice_check(v, len, 3, None, 0, any_u8());
    witness!(true, "splice");
} }
op! { splice_3_1, "C09 C01 | lanes std nostd | slow pslice3", unwind 6, [slice3 pslice3 zs2 zty2] alloc [zheap2],
<E> |v, len| {
    splice_check(v, len, 3, None, 1, any_u8());
    witness!(true, "splice");
} }

pub fn splice_heap<E: Elem, S: Storage<E>>(v: &mut GenericVec<E, S>, len: usize, r: usize, hint: Option<usize>) {
    // the vector has to grow by itself; the range is split into cases
    pick(2, |s| pick(2, |e| {
        // more items than removed elements (an empty vector collected inside is misencoded by the
        // model checker; shorter replacements are covered on the other storages)
        assume(s <= e && e <= len && r > e - s);
        let now = len - (e - s) + r;
        v.splice(s..e, Items::<E>::new(r, hint));
        expect(v, now, |p| if p < s { p } else if p < s + r { len + (p - s) } else { p - r + (e - s) });
        let q = any_u8() as usize;
        if q >= s && q < e { gv_assert!(drops(q as u8) == 1, "spliced out element not dropped"); }
    }))
}
op! { splice_heap_1, "C09", unwind 5, [] alloc [heap1 heap2], <E> |v, len| {
    splice_heap(v, len, 1, None);
    witness!(true, "splice");
} }
op! { splice_heap_2, "C09", unwind 5, [] alloc [heap1 heap2], <E> |v, len| {
    splice_heap(v, len, 2, None);
    witness!(true, "splice");
} }
op! { splice_heap_3, "C09", unwind 6, [] alloc [heap1 heap2], <E> |v, len| {
    splice_heap(v, len, 3, None);
    witness!(true, "splice");
} }
op! { splice_hint_low, "C09", unwind 6, [] alloc [heap2], <E> |v, len| {
    splice_heap(v, len, 3, Some(0));
    witness!(true, "splice");
} }
op! { splice_hint_high, "C09 | quick ty3", unwind 6, [ty3] alloc [], <E> |v, len| {
    splice_check(v, len, 1, Some(3), 0, 0);
    witness!(true, "splice");
} }
op! { splice_hint_fixed, "C09 | slow pslice3", unwind 5, [slice3 pslice3] alloc [], <E> |v, len| {
    splice_check(v, len, 2, Some(any_le(2)), 0, 0);
    witness!(true, "splice");
} }
pub fn splice_full<E: Elem, S: Storage<E>>(v: &mut GenericVec<E, S>, len: usize, r: usize) {
    let (s, e) = any_range(len);
    assume(len - (e - s) + r > v.capacity());
    must_panic(|| drop(v.splice(s..e, Items::<E>::new(r, None))));
}
op! { splice_full_1, "C09 C04 | panic", unwind 4, [slice2 ty2] alloc [], <E> |v, len| {
    witness!(len == 2, "splice_full");
    splice_full(v, len, 1)
} }
op! { splice_full_2, "C09 C04 | panic", unwind 4, [slice2 ty2] alloc [], <E> |v, len| {
    witness!(len == 2, "splice_full");
    splice_full(v, len, 2)
} }
op! { splice_full_3, "C09 C04 | panic | slow", unwind 5, [slice2 ty2] alloc [], <E> |v, len| {
    witness!(len == 2, "splice_full");
    splice_full(v, len, 3)
} }
// ------------------------------------------------------------------------------------ leaks

/// after a leak: every element that is still reachable is alive and reachable once
pub fn still_valid<E: Elem, S: Storage<E>>(v: &mut GenericVec<E, S>, len: usize) {
    leak_ok();
    let now = v.len();
    gv_assert!(now <= len && now <= v.capacity(), "leaking made the vector longer");
    let (p, q) = (any_u8() as usize, any_u8() as usize);
    if p < now {
        v.as_slice()[p].live_check();
        if !E::ZST && q < p {
            gv_assert!(v[p].ident() != v[q].ident(), "an element is reachable twice after a leak");
        }
    }
    if E::ZST { gv_assert!(zlive() >= now, "more elements reachable than exist"); }
    // and the vector is usable
    if now < v.capacity() {
        gv_assert!(v.try_push(E::make()).is_ok(), "unusable after a leak");
        v.remove(0);
        gv_assert!(v.len() == now, "unusable after a leak");
    }
    v.clear();
}

op! { leak_drain, "C19", unwind 4, [slice2 pslice2 zs2 ty2 zslice2] alloc [boxed2 heap1 heap2 zheap2],
<E> |v, len| {
    let (s, e) = any_range(len);
    let (k, dirs) = (any_le(2), any_u8());
    let mut d = v.drain(s..e);
    let mut i = 0;
    while i < k {
        if dirs >> i & 1 == 0 { d.next(); } else { d.next_back(); }
        i += 1;
    }
    core::mem::forget(d);
    still_valid(v, len);
    witness!(k == 1 && s > 0 && e == len, "leak_drain");
} }

pub fn leak_filter_body<E: Elem, S: Storage<E>>(v: &mut GenericVec<E, S>, len: usize) {
    let (s, e) = any_range(len);
    let (k, dirs, mask) = (any_le(2), any_u8(), any_u8());
    let mut n = 0;
    let mut d = v.drain_filter(s..e, |_| { n += 1; mask >> n & 1 == 1 });
    let mut i = 0;
    while i < k {
        if dirs >> i & 1 == 0 { d.next(); } else { d.next_back(); }
        i += 1;
    }
    core::mem::forget(d);
    still_valid(v, len);
    witness!(k == 1 && s < e, "leak_filter");
}
op! { leak_filter2, "C19", unwind 4, [slice2 pslice2 zs2] alloc [], <E> |v, len| { leak_filter_body(v, len) } }
op! { leak_filter3, "C19 | slow", unwind 6, [slice3 pslice3 zs zslice] alloc [zheap], <E> |v, len| { leak_filter_body(v, len) } }

op! { leak_splice, "C19", unwind 4, [slice2 pslice2 zs2 ty2 zslice2] alloc [boxed2 heap1 heap2 zheap2],
<E> |v, len| {
    let (s, e) = any_range(len);
    let (k, dirs) = (any_le(2), any_u8());
    let mut d = v.splice(s..e, Items::<E>::new(2, None));
    let mut i = 0;
    while i < k {
        if dirs >> i & 1 == 0 { d.next(); } else { d.next_back(); }
        i += 1;
    }
    core::mem::forget(d);
    still_valid(v, len);
    witness!(k == 1 && s > 0 && e == len, "leak_splice");
} }

op! { leak_into_iter, "C19", unwind 6, [slice pslice zs] alloc [heap2],
<E> |v, len| {
    // a by-value iterator over the elements of a spare writer, leaked half way
    let m = v.len();
    assume(m < v.capacity());
    let mut w = v.spare_capacity_mut();
    w.push(E::make());
    let mut it = w.into_iter();
    if any_bool() { it.next(); }
    core::mem::forget(it);
    leak_ok();
    expect(v, len, |p| p);
    witness!(true, "leak_into_iter");
} }

op! { leak_spare, "C19 C21", unwind 6, [slice pslice zs] alloc [heap2],
<E> |v, len| {
    assume(v.len() < v.capacity());
    let mut w = v.spare_capacity_mut();
    w.push(E::make());
    core::mem::forget(w);
    leak_ok();
    expect(v, len, |p| p);
    still_valid(v, len);
    witness!(true, "leak_spare");
} }

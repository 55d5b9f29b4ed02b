//! The spare-capacity writer (C21) and storages that are always initialized (C22).
use crate::rt::*;
use crate::{gv_assert, harness, op, witness};
use core::mem::MaybeUninit;
use generic_vec::{raw::Storage, save_spare, GenericVec, InitSliceVec};

fn spare_body<E: Elem, S: Storage<E>>(v: &mut GenericVec<E, S>, len: usize) {
    let cap = v.capacity();
    let p0 = v.as_ptr() as usize;
    let k = any_le(2);
    let save = any_bool();
    assume(k <= cap - len);
    {
        let mut w = v.spare_capacity_mut();
        gv_assert!(w.len() == 0 && w.is_empty(), "spare capacity: not empty");
        gv_assert!(w.capacity() == cap - len, "spare capacity: not the rest of the buffer");
        gv_assert!(w.remaining_capacity() == cap - len, "spare capacity: not the rest of the buffer");
        gv_assert!(w.as_ptr() as usize == p0 + len * core::mem::size_of::<E>(), "spare capacity: starts elsewhere");
        let mut i = 0;
        while i < k {
            let r = w.try_push(E::make());
            gv_assert!(r.is_ok(), "spare capacity: refused an item");
            i += 1;
        }
        gv_assert!(w.len() == k, "spare capacity: wrong length");
        let q = any_u8() as usize;
        if q < k { gv_assert!(w[q].ident() == idt::<E>(len + q), "spare capacity: wrong item"); }
        if save {
            unsafe { save_spare!(w, &mut *v) }
        }
    }
    gv_assert!(v.capacity() == cap, "spare capacity changed the capacity");
    if save {
        expect(v, len + k, |p| p);
    } else {
        expect(v, len, |p| p);
        if E::TRACKED {
            let q = any_u8() as usize;
            if q >= len && q < len + k { gv_assert!(drops(q as u8) == 1, "an item that was not saved was not dropped"); }
        }
    }
    if E::ZST { gv_assert!(zlive() == if save { len + k } else { len }, "spare capacity: wrong number of items dropped"); }
    witness!(save && k == 2, "spare saved");
    witness!(!save && k == 2, "spare dropped");
}
op! { spare, "C21 C01 | slow heap4", unwind 8, [slice pslice ty zs zslice zty] alloc [boxed heap2 heap4 zheap], <E> |v, len| { spare_body(v, len) } }

op! { spare_twice, "C21", unwind 8, [slice pslice zs] alloc [heap4], <E> |v, len| {
    let (k, j) = (any_le(2), any_le(2));
    assume(k + j <= v.capacity() - len);
    let mut w = v.spare_capacity_mut();
    let mut i = 0;
    while i < k { let _ = w.try_push(E::make()); i += 1; }
    unsafe { save_spare!(w, &mut *v) }
    expect(v, len + k, |p| p);
    let mut w = v.spare_capacity_mut();
    let mut i = 0;
    while i < j { let _ = w.try_push(E::make()); i += 1; }
    // changes of the writer's own contents
    let popped = w.try_pop();
    gv_assert!(popped.is_some() == (j > 0), "spare capacity: pop");
    let j = if popped.is_some() { j - 1 } else { j };
    unsafe { save_spare!(w, &mut *v) }
    expect(v, len + k + j, |p| p);
    witness!(len == 1 && k == 1 && j == 1, "spare_twice");
} }

op! { spare_extend, "C21", unwind 6, [slice zs] alloc [heap4], <E> |v, len| {
    // the other operations of the writer stay within the spare capacity as well
    let cap = v.capacity();
    let mut w = v.spare_capacity_mut();
    gv_assert!(w.try_reserve(cap - len), "spare capacity: room refused");
    gv_assert!(cap - len == usize::MAX || !w.try_reserve(cap - len + 1), "spare capacity: more room than there is");
    let full = cap - len == 0;
    match w.try_insert(0, E::make()) {
        Ok(_) => gv_assert!(!full, "spare capacity: wrote outside"),
        Err(_) => gv_assert!(full, "spare capacity: refused an item"),
    }
    unsafe { save_spare!(w, &mut *v) }
    expect(v, if full { len } else { len + 1 }, |p| p);
    witness!(full, "no spare capacity");
} }

op! { spare_full, "C21 C04 | panic", unwind 6, [slice pslice ty] alloc [heap2 boxed], <E> |v, len| {
    let k = v.capacity() - len;
    let mut w = v.spare_capacity_mut();
    let mut i = 0;
    while i < k { let _ = w.try_push(E::make()); i += 1; }
    must_panic(|| { w.push(E::make()); });
} }

// ---------------------------------------------------------------------------------------------
// initialized storages

const K: usize = 3;

/// A model of the slots: what was stored last in each of them
struct M {
    slot: [u16; K],
    len: usize,
}

fn steps<S: ?Sized + generic_vec::raw::StorageInit<u16>>(v: &mut GenericVec<u16, S>, m: &mut M, cap: usize, n: usize) {
    let mut i = 0;
    while i < n {
        let x = any_u16();
        match any_u8() & 7 {
            0 => {
                let n = any_le(K);
                assume(n <= cap);
                v.set_len(n);
                m.len = n;
            }
            1 => {
                let r = v.try_push(x).is_ok();
                gv_assert!(r == (m.len < cap), "init: push");
                if r {
                    m.slot[m.len] = x;
                    m.len += 1;
                }
            }
            2 => {
                let r = v.try_pop();
                gv_assert!(r == if m.len > 0 { Some(m.slot[m.len - 1]) } else { None }, "init: pop");
                if r.is_some() { m.len -= 1; }
            }
            3 => {
                let p = any_le(K);
                if p < m.len {
                    v[p] = x;
                    m.slot[p] = x;
                }
            }
            4 => {
                let n = any_usize();
                v.truncate(n);
                if n < m.len { m.len = n; }
            }
            5 => {
                let p = any_le(K);
                let r = v.try_insert(p, x).is_ok();
                gv_assert!(r == (m.len < cap && p <= m.len), "init: insert");
                if r {
                    let mut j = m.len;
                    while j > p {
                        m.slot[j] = m.slot[j - 1];
                        j -= 1;
                    }
                    m.slot[p] = x;
                    m.len += 1;
                }
            }
            6 => {
                v.clear();
                m.len = 0;
            }
            _ => {
                let n = any_le(K);
                gv_assert!(v.try_reserve(n) == (n <= cap - m.len), "init: try_reserve");
            }
        }
        gv_assert!(v.len() == m.len && v.capacity() == cap, "init: wrong length");
        i += 1;
    }
}

fn check_slots<S: ?Sized + generic_vec::raw::StorageInit<u16>>(v: &mut GenericVec<u16, S>, m: &M, cap: usize) {
    let n = any_le(K);
    assume(n <= cap);
    v.set_len(n);
    gv_assert!(v.len() == n, "set_len set another length");
    let q = any_u8() as usize;
    if q < n { gv_assert!(v[q] == m.slot[q], "a slot does not hold the value last stored in it"); }
}

fn init_slice(n: usize) {
    let cap = any_le(K);
    let x = [any_u16(), any_u16(), any_u16()];
    let mut m = M { slot: x, len: cap };
    // a byte buffer: the model checker moves bytes of byte arrays precisely
    let mut raw: Bytes<6> = Bytes([MaybeUninit::new(0); 6]);
    let buf: &mut [u16; K] = unsafe { &mut *raw.0.as_mut_ptr().cast() };
    let mut i = 0;
    while i < K { buf[i] = x[i]; i += 1; }
    {
        let mut v = InitSliceVec::new(&mut buf[..cap]);
        gv_assert!(v.len() == cap && v.capacity() == cap, "a vector on an initialized slice does not start full");
        let q = any_u8() as usize;
        if q < cap { gv_assert!(v[q] == m.slot[q], "a vector on an initialized slice starts with other contents"); }
        steps(&mut v, &mut m, cap, n);
        check_slots(&mut v, &m, cap);
    }
    // what is behind the slice, and every slot
    let q = any_u8() as usize;
    if q < K { gv_assert!(buf[q] == m.slot[q], "a slot does not hold the value last stored in it"); }
    witness!(cap == 2, "init_slice");
}
harness! { init_slice_1, "C22", unwind 5, { init_slice(1) } }
harness! { init_slice_2, "C22", unwind 5, { init_slice(2) } }
harness! { init_slice_3, "C22 | slow", unwind 5, { init_slice(3) } }

fn init_array(n: usize) {
    let buf = [any_u16(), any_u16(), any_u16()];
    let mut m = M { slot: buf, len: 0 };
    let mut v: GenericVec<u16, [u16; K]> = GenericVec::with_storage(buf);
    gv_assert!(v.capacity() == K && v.len() == 0, "init array: wrong length or capacity");
    if any_bool() {
        v.set_len(K);
        m.len = K;
    }
    steps(&mut v, &mut m, K, n);
    check_slots(&mut v, &m, K);
    let (len, buf) = v.into_raw_parts();
    gv_assert!(len <= K, "init array: wrong length");
    let q = any_u8() as usize;
    if q < K { gv_assert!(buf[q] == m.slot[q], "a slot does not hold the value last stored in it"); }
    witness!(len == 2, "init_array");
}
harness! { init_array_1, "C22", unwind 5, { init_array(1) } }
harness! { init_array_2, "C22", unwind 5, { init_array(2) } }
harness! { init_array_3, "C22 | slow", unwind 5, { init_array(3) } }

harness! { init_default, "C22", unwind 5, {
    let n = any_le(K);
    let mut v: GenericVec<u16, [u16; K]> = GenericVec::with_capacity(n);
    gv_assert!(v.len() == 0 && v.capacity() == K, "init array with a capacity");
    let n = any_le(K);
    v.set_len(n);
    let q = any_u8() as usize;
    if q < n { gv_assert!(v[q] == 0, "a default array holds other values"); }
    let w: GenericVec<u16, [u16; K]> = Default::default();
    gv_assert!(w.len() == 0 && w.capacity() == K, "default init array");
    witness!(n == 2, "init_default");
} }

harness! { init_set_len_oob, "C22 C03 | panic", unwind 5, {
    let cap = any_le(K);
    let mut buf = [0u16; K];
    let mut v = InitSliceVec::new(&mut buf[..cap]);
    let n = any_usize();
    assume(n > cap);
    witness!(n == usize::MAX, "set_len");
    must_panic(|| v.set_len(n));
} }
harness! { init_array_set_len_oob, "C22 C03 | panic", unwind 5, {
    let mut v: GenericVec<u16, [u16; K]> = GenericVec::with_storage([0u16; K]);
    let n = any_usize();
    assume(n > K);
    must_panic(|| v.set_len(n));
} }
harness! { init_with_capacity_oob, "C22 C04 | panic", unwind 5, {
    let n = any_usize();
    assume(n > K);
    must_panic(|| GenericVec::<u16, [u16; K]>::with_capacity(n));
} }
harness! { init_ref, "C22 C25", unwind 5, {
    // through a reference to an array
    let mut buf = [any_u16(), any_u16(), any_u16()];
    let m = M { slot: buf, len: 0 };
    let mut v: GenericVec<u16, &mut [u16; K]> = GenericVec::with_storage(&mut buf);
    check_slots(&mut v, &m, K);
    witness!(v.len() == 3, "init_ref");
} }

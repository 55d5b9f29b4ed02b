//! Range arguments (C20): every kind of bound over all of usize, against what slicing does.
use crate::rt::*;
use crate::{gv_assert, harness, op, witness};
use core::ops::Bound;
use generic_vec::{raw::Storage, GenericVec, ZSVec};

type B = Bound<usize>;

pub fn any_bound() -> B {
    let x = any_usize();
    match any_u8() & 3 {
        0 => Bound::Included(x),
        1 => Bound::Excluded(x),
        _ => Bound::Unbounded,
    }
}

/// the positions that slicing a slice of `len` elements with these bounds selects
pub fn model(len: usize, lo: B, hi: B) -> Option<(usize, usize)> {
    let s = match lo {
        Bound::Included(x) => x,
        Bound::Excluded(x) if x == usize::MAX => return None,
        Bound::Excluded(x) => x + 1,
        Bound::Unbounded => 0,
    };
    let e = match hi {
        Bound::Included(x) if x == usize::MAX => return None,
        Bound::Included(x) => x + 1,
        Bound::Excluded(x) => x,
        Bound::Unbounded => len,
    };
    if s <= e && e <= len {
        Some((s, e))
    } else {
        None
    }
}

/// the model agrees with slices
fn check_model(len: usize, lo: B, hi: B) -> Option<(usize, usize)> {
    let m = model(len, lo, hi);
    let sl: &[()] = unsafe { core::slice::from_raw_parts(core::ptr::NonNull::dangling().as_ptr(), len) };
    let g = sl.get((lo, hi)).map(|x| x.len());
    gv_assert!(g == m.map(|(s, e)| e - s), "the model of slicing is wrong");
    m
}

/// a vector of any length at all
fn huge(len: usize) -> ZSVec<()> {
    let mut v = ZSVec::<()>::new();
    unsafe { v.set_len_unchecked(len) };
    v
}

harness! { raw_cursor_any, "C20 C16 | all", unwind 3, {
    let len = any_usize();
    let (lo, hi) = (any_bound(), any_bound());
    let m = check_model(len, lo, hi);
    assume(m.is_some());
    let (s, e) = m.unwrap();
    let mut vec = huge(len);
    {
        let (v, r) = (&mut vec, (lo, hi));
        let c = v.raw_cursor(r);
        gv_assert!(c.len() == e - s, "a range selects another number of elements than slicing");
        core::mem::forget(c);
    }
    gv_assert!(vec.len() <= s, "elements of a leaked range are still reachable");
    witness!(e - s > 1 && s > 1 && e < len, "range");
    witness!(len == usize::MAX && e == len && s == 0, "range of everything");
    core::mem::forget(vec);
} }

harness! { raw_cursor_any_oob, "C20 C16 C03 | panic", unwind 3, {
    let len = any_usize();
    let (lo, hi) = (any_bound(), any_bound());
    assume(check_model(len, lo, hi).is_none());
    let mut vec = huge(len);
    witness!(matches!(lo, Bound::Excluded(usize::MAX)), "start overflows");
    witness!(matches!(hi, Bound::Included(usize::MAX)), "end overflows");
    must_panic(|| {
        let (v, r) = (&mut vec, (lo, hi));
        let c = v.raw_cursor(r);
        core::mem::forget(c)
    });
} }

op! { raw_cursor_slice, "C20", unwind 6, [slice pslice ty zslice] alloc [heap2 boxed], <E> |v, len| {
    let (lo, hi) = (any_bound(), any_bound());
    let m = model(len, lo, hi);
    assume(m.is_some());
    let (s, e) = m.unwrap();
    {
        let (v, r) = (&mut *v, (lo, hi));
        let c = v.raw_cursor(r);
        gv_assert!(c.len() == e - s, "a range selects another number of elements than slicing");
        if e > s {
            gv_assert!(unsafe { c.front() }.ident() == idt::<E>(s), "a range starts elsewhere than the slice");
            gv_assert!(unsafe { c.back() }.ident() == idt::<E>(e - 1), "a range ends elsewhere than the slice");
        }
        core::mem::forget(c);
    }
    leak_ok();
    witness!(e - s > 1 && s > 0, "range of a slice");
} }

op! { raw_cursor_slice_oob, "C20 C03 | panic", unwind 6, [slice ty] alloc [heap2], <E> |v, len| {
    let (lo, hi) = (any_bound(), any_bound());
    assume(model(len, lo, hi).is_none());
    must_panic(|| {
        let (v, r) = (&mut *v, (lo, hi));
        let c = v.raw_cursor(r);
        core::mem::forget(c)
    });
} }

harness! { cursor_any, "C20 C16 | all", unwind 3, {
    let len = any_usize();
    let (lo, hi) = (any_bound(), any_bound());
    let m = check_model(len, lo, hi);
    assume(m.is_some());
    let (s, e) = m.unwrap();
    let mut vec = huge(len);
    {
        let (v, r) = (&mut vec, (lo, hi));
        let c = v.cursor(r);
        gv_assert!(c.len() == e - s, "a range selects another number of elements than slicing");
        core::mem::forget(c);
    }
    gv_assert!(vec.len() <= s, "elements of a leaked range are still reachable");
    witness!(e - s > 1 && s > 1 && e < len, "range");
    witness!(len == usize::MAX && e == len && s == 0, "range of everything");
    core::mem::forget(vec);
} }

harness! { cursor_any_oob, "C20 C16 C03 | panic", unwind 3, {
    let len = any_usize();
    let (lo, hi) = (any_bound(), any_bound());
    assume(check_model(len, lo, hi).is_none());
    let mut vec = huge(len);
    witness!(matches!(lo, Bound::Excluded(usize::MAX)), "start overflows");
    witness!(matches!(hi, Bound::Included(usize::MAX)), "end overflows");
    must_panic(|| {
        let (v, r) = (&mut vec, (lo, hi));
        let c = v.cursor(r);
        core::mem::forget(c)
    });
} }

op! { cursor_slice, "C20", unwind 6, [slice pslice ty zslice] alloc [heap2 boxed], <E> |v, len| {
    let (lo, hi) = (any_bound(), any_bound());
    let m = model(len, lo, hi);
    assume(m.is_some());
    let (s, e) = m.unwrap();
    {
        let (v, r) = (&mut *v, (lo, hi));
        let c = v.cursor(r);
        gv_assert!(c.len() == e - s, "a range selects another number of elements than slicing");
        if e > s {
            gv_assert!(c.front().unwrap().ident() == idt::<E>(s), "a range starts elsewhere than the slice");
            gv_assert!(c.back().unwrap().ident() == idt::<E>(e - 1), "a range ends elsewhere than the slice");
        }
        core::mem::forget(c);
    }
    leak_ok();
    witness!(e - s > 1 && s > 0, "range of a slice");
} }

op! { cursor_slice_oob, "C20 C03 | panic", unwind 6, [slice ty] alloc [heap2], <E> |v, len| {
    let (lo, hi) = (any_bound(), any_bound());
    assume(model(len, lo, hi).is_none());
    must_panic(|| {
        let (v, r) = (&mut *v, (lo, hi));
        let c = v.cursor(r);
        core::mem::forget(c)
    });
} }

harness! { drain_any, "C20 C16 | all", unwind 3, {
    let len = any_usize();
    let (lo, hi) = (any_bound(), any_bound());
    let m = check_model(len, lo, hi);
    assume(m.is_some());
    let (s, e) = m.unwrap();
    let mut vec = huge(len);
    {
        let (v, r) = (&mut vec, (lo, hi));
        let c = v.drain(r);
        gv_assert!(c.len() == e - s, "a range selects another number of elements than slicing");
        core::mem::forget(c);
    }
    gv_assert!(vec.len() <= s, "elements of a leaked range are still reachable");
    witness!(e - s > 1 && s > 1 && e < len, "range");
    witness!(len == usize::MAX && e == len && s == 0, "range of everything");
    core::mem::forget(vec);
} }

harness! { drain_any_oob, "C20 C16 C03 | panic", unwind 3, {
    let len = any_usize();
    let (lo, hi) = (any_bound(), any_bound());
    assume(check_model(len, lo, hi).is_none());
    let mut vec = huge(len);
    witness!(matches!(lo, Bound::Excluded(usize::MAX)), "start overflows");
    witness!(matches!(hi, Bound::Included(usize::MAX)), "end overflows");
    must_panic(|| {
        let (v, r) = (&mut vec, (lo, hi));
        let c = v.drain(r);
        core::mem::forget(c)
    });
} }

op! { drain_slice, "C20", unwind 6, [slice pslice ty zslice] alloc [heap2 boxed], <E> |v, len| {
    let (lo, hi) = (any_bound(), any_bound());
    let m = model(len, lo, hi);
    assume(m.is_some());
    let (s, e) = m.unwrap();
    {
        let (v, r) = (&mut *v, (lo, hi));
        let mut c = v.drain(r);
        gv_assert!(c.len() == e - s, "a range selects another number of elements than slicing");
        if e > s {
            let x = c.next();
            gv_assert!(matches!(&x, Some(x) if x.ident() == idt::<E>(s)), "a range starts elsewhere than the slice");
        }
        if e > s + 1 {
            let x = c.next_back();
            gv_assert!(matches!(&x, Some(x) if x.ident() == idt::<E>(e - 1)), "a range ends elsewhere than the slice");
        }
        core::mem::forget(c);
    }
    leak_ok();
    witness!(e - s > 1 && s > 0, "range of a slice");
} }

op! { drain_slice_oob, "C20 C03 | panic", unwind 6, [slice ty] alloc [heap2], <E> |v, len| {
    let (lo, hi) = (any_bound(), any_bound());
    assume(model(len, lo, hi).is_none());
    must_panic(|| {
        let (v, r) = (&mut *v, (lo, hi));
        let c = v.drain(r);
        core::mem::forget(c)
    });
} }

harness! { drain_filter_any, "C20 C16 | all", unwind 3, {
    let len = any_usize();
    let (lo, hi) = (any_bound(), any_bound());
    let m = check_model(len, lo, hi);
    assume(m.is_some());
    let (s, e) = m.unwrap();
    let mut vec = huge(len);
    {
        let (v, r) = (&mut vec, (lo, hi));
        let c = v.drain_filter(r, |_| true);
        gv_assert!(c.size_hint().1.unwrap() == e - s, "a range selects another number of elements than slicing");
        core::mem::forget(c);
    }
    gv_assert!(vec.len() <= s, "elements of a leaked range are still reachable");
    witness!(e - s > 1 && s > 1 && e < len, "range");
    witness!(len == usize::MAX && e == len && s == 0, "range of everything");
    core::mem::forget(vec);
} }

harness! { drain_filter_any_oob, "C20 C16 C03 | panic", unwind 3, {
    let len = any_usize();
    let (lo, hi) = (any_bound(), any_bound());
    assume(check_model(len, lo, hi).is_none());
    let mut vec = huge(len);
    witness!(matches!(lo, Bound::Excluded(usize::MAX)), "start overflows");
    witness!(matches!(hi, Bound::Included(usize::MAX)), "end overflows");
    must_panic(|| {
        let (v, r) = (&mut vec, (lo, hi));
        let c = v.drain_filter(r, |_| true);
        core::mem::forget(c)
    });
} }

op! { drain_filter_slice, "C20", unwind 6, [slice pslice ty zslice] alloc [heap2 boxed], <E> |v, len| {
    let (lo, hi) = (any_bound(), any_bound());
    let m = model(len, lo, hi);
    assume(m.is_some());
    let (s, e) = m.unwrap();
    {
        let (v, r) = (&mut *v, (lo, hi));
        let mut c = v.drain_filter(r, |_| true);
        gv_assert!(c.size_hint().1.unwrap() == e - s, "a range selects another number of elements than slicing");
        if e > s {
            let x = c.next();
            gv_assert!(matches!(&x, Some(x) if x.ident() == idt::<E>(s)), "a range starts elsewhere than the slice");
        }
        if e > s + 1 {
            let x = c.next_back();
            gv_assert!(matches!(&x, Some(x) if x.ident() == idt::<E>(e - 1)), "a range ends elsewhere than the slice");
        }
        core::mem::forget(c);
    }
    leak_ok();
    witness!(e - s > 1 && s > 0, "range of a slice");
} }

op! { drain_filter_slice_oob, "C20 C03 | panic", unwind 6, [slice ty] alloc [heap2], <E> |v, len| {
    let (lo, hi) = (any_bound(), any_bound());
    assume(model(len, lo, hi).is_none());
    must_panic(|| {
        let (v, r) = (&mut *v, (lo, hi));
        let c = v.drain_filter(r, |_| true);
        core::mem::forget(c)
    });
} }

harness! { splice_any, "C20 C16 | all", unwind 3, {
    let len = any_usize();
    let (lo, hi) = (any_bound(), any_bound());
    let m = check_model(len, lo, hi);
    assume(m.is_some());
    let (s, e) = m.unwrap();
    let mut vec = huge(len);
    {
        let (v, r) = (&mut vec, (lo, hi));
        let c = v.splice(r, core::iter::empty());
        gv_assert!(c.len() == e - s, "a range selects another number of elements than slicing");
        core::mem::forget(c);
    }
    gv_assert!(vec.len() <= s, "elements of a leaked range are still reachable");
    witness!(e - s > 1 && s > 1 && e < len, "range");
    witness!(len == usize::MAX && e == len && s == 0, "range of everything");
    core::mem::forget(vec);
} }

harness! { splice_any_oob, "C20 C16 C03 | panic", unwind 3, {
    let len = any_usize();
    let (lo, hi) = (any_bound(), any_bound());
    assume(check_model(len, lo, hi).is_none());
    let mut vec = huge(len);
    witness!(matches!(lo, Bound::Excluded(usize::MAX)), "start overflows");
    witness!(matches!(hi, Bound::Included(usize::MAX)), "end overflows");
    must_panic(|| {
        let (v, r) = (&mut vec, (lo, hi));
        let c = v.splice(r, core::iter::empty());
        core::mem::forget(c)
    });
} }

op! { splice_slice, "C20", unwind 6, [slice pslice ty zslice] alloc [heap2 boxed], <E> |v, len| {
    let (lo, hi) = (any_bound(), any_bound());
    let m = model(len, lo, hi);
    assume(m.is_some());
    let (s, e) = m.unwrap();
    {
        let (v, r) = (&mut *v, (lo, hi));
        let mut c = v.splice(r, core::iter::empty());
        gv_assert!(c.len() == e - s, "a range selects another number of elements than slicing");
        if e > s {
            let x = c.next();
            gv_assert!(matches!(&x, Some(x) if x.ident() == idt::<E>(s)), "a range starts elsewhere than the slice");
        }
        if e > s + 1 {
            let x = c.next_back();
            gv_assert!(matches!(&x, Some(x) if x.ident() == idt::<E>(e - 1)), "a range ends elsewhere than the slice");
        }
        core::mem::forget(c);
    }
    leak_ok();
    witness!(e - s > 1 && s > 0, "range of a slice");
} }

op! { splice_slice_oob, "C20 C03 | panic", unwind 6, [slice ty] alloc [heap2], <E> |v, len| {
    let (lo, hi) = (any_bound(), any_bound());
    assume(model(len, lo, hi).is_none());
    must_panic(|| {
        let (v, r) = (&mut *v, (lo, hi));
        let c = v.splice(r, core::iter::empty());
        core::mem::forget(c)
    });
} }


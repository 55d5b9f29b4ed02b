//! Cursors (C10), what is left after leaking them (C19)
use crate::rt::*;
use crate::{gv_assert, harness, op, witness};
use generic_vec::{iter::Cursor, raw::Storage, GenericVec};

const W: usize = 4;

/// Model of a cursor: a finished front part, unfilled slots, unread elements, unfilled slots, a
/// finished back part, between the untouched elements before `s` and after `e`.
pub struct M {
    pub s: usize,
    pub e: usize,
    pub len: usize,
    f: [u8; W],
    nf: usize,
    b: [u8; W],
    nb: usize,
    lo: usize,
    hi: usize,
    gf: usize,
    gb: usize,
}
impl M {
    pub fn new(len: usize, s: usize, e: usize) -> M {
        M { s, e, len, f: [0; W], nf: 0, b: [0; W], nb: 0, lo: s, hi: e, gf: 0, gb: 0 }
    }
    pub fn rest(&self) -> usize { self.hi - self.lo }
    fn is_empty(&self) -> bool { self.hi == self.lo }
    fn room_front(&self) -> usize { if self.is_empty() { self.gf + self.gb } else { self.gf } }
    fn room_back(&self) -> usize { if self.is_empty() { self.gf + self.gb } else { self.gb } }
    fn pop_gap_front(&mut self) { if self.gf > 0 { self.gf -= 1 } else { self.gb -= 1 } }
    fn pop_gap_back(&mut self) { if self.gb > 0 { self.gb -= 1 } else { self.gf -= 1 } }
    fn add_front(&mut self, id: u8) { self.f[self.nf] = id; self.nf += 1; }
    fn add_back(&mut self, id: u8) { self.b[self.nb] = id; self.nb += 1; }
    /// the cursor agrees with the model
    pub fn check<E: Elem, S: ?Sized + Storage<E>>(&self, c: &mut Cursor<'_, E, S>) {
        let n = self.rest();
        gv_assert!(c.len() == n && c.is_empty() == (n == 0), "cursor: wrong number of remaining elements");
        gv_assert!(c.write_front_len() == self.room_front(), "cursor: wrong number of unfilled slots at the front");
        gv_assert!(c.write_back_len() == self.room_back(), "cursor: wrong number of unfilled slots at the back");
        gv_assert!(c.is_write_front_empty() == (self.room_front() == 0), "cursor: is_write_front_empty");
        gv_assert!(c.is_write_back_empty() == (self.room_back() == 0), "cursor: is_write_back_empty");
        gv_assert!(c.is_write_empty() == (n == 0 && self.gf + self.gb == 0), "cursor: is_write_empty");
        if n == 0 {
            gv_assert!(c.write_len() == self.gf + self.gb, "cursor: write_len");
            gv_assert!(c.front().is_none() && c.back().is_none() && c.front_mut().is_none() && c.back_mut().is_none(), "cursor: peeked into nothing");
        } else {
            gv_assert!(c.front().unwrap().ident() == idt::<E>(self.lo), "cursor: wrong front");
            gv_assert!(c.back().unwrap().ident() == idt::<E>(self.hi - 1), "cursor: wrong back");
            gv_assert!(c.front_mut().unwrap().ident() == idt::<E>(self.lo), "cursor: wrong front");
            gv_assert!(c.back_mut().unwrap().ident() == idt::<E>(self.hi - 1), "cursor: wrong back");
        }
    }
    pub fn total(&self) -> usize { self.s + self.nf + self.rest() + self.nb + (self.len - self.e) }
    /// the vector after the cursor
    pub fn at(&self, p: usize) -> usize {
        if p < self.s {
            return p;
        }
        let p = p - self.s;
        if p < self.nf {
            return self.f[p] as usize;
        }
        let p = p - self.nf;
        if p < self.rest() {
            return self.lo + p;
        }
        let p = p - self.rest();
        if p < self.nb {
            return self.b[self.nb - 1 - p] as usize;
        }
        self.e + (p - self.nb)
    }
    /// brings the cursor into an arbitrary state: skipped, dropped, rewritten elements at both ends
    pub fn arbitrary<E: Elem, S: ?Sized + Storage<E>>(&mut self, c: &mut Cursor<'_, E, S>) {
        let (a, b, w) = (any_u8() as usize, any_u8() as usize, any_bool());
        let (k, d, x) = (any_u8() as usize, any_u8() as usize, any_bool());
        assume(a <= self.rest() && b <= self.rest() - a);
        c.skip_n_front(a);
        let mut i = 0;
        while i < a { self.add_front((self.lo + i) as u8); i += 1; }
        self.lo += a;
        c.drop_n_front(b);
        self.lo += b;
        self.gf += b;
        if w && b > 0 {
            let t = E::make();
            self.add_front(t.ident());
            c.write_front(t);
            self.pop_gap_front();
        }
        assume(k <= self.rest() && d <= self.rest() - k);
        c.skip_n_back(k);
        let mut i = 0;
        while i < k { self.add_back((self.hi - 1 - i) as u8); i += 1; }
        self.hi -= k;
        c.drop_n_back(d);
        self.hi -= d;
        self.gb += d;
        if x && d > 0 {
            let t = E::make();
            self.add_back(t.ident());
            c.write_back(t);
            self.pop_gap_back();
        }
    }
}

/// an arbitrary cursor, one step, everything compared
pub fn step<E: Elem, S: Storage<E>>(v: &mut GenericVec<E, S>, len: usize, f: impl Fn(&mut Cursor<'_, E, S>, &mut M)) {
    let (s, e) = any_range(len);
    let cap = v.capacity();
    let mut m = M::new(len, s, e);
    {
        let mut c = v.cursor(s..e);
        m.arbitrary(&mut c);
        f(&mut c, &mut m);
        m.check(&mut c);
        if any_bool() { c.as_raw_cursor_mut().finish(); }
    }
    gv_assert!(v.capacity() >= cap, "cursor lost capacity");
    expect(v, m.total(), |p| m.at(p));
    if E::ZST { gv_assert!(zlive() == m.total(), "cursor: wrong number of elements dropped"); }
}

op! { cur_state, "C10 C01 | slow heap2", unwind 5, [slice3 pslice3 zs2 ty3 zslice2] alloc [heap2 boxed2 zheap2], <E> |v, len| {
    step(v, len, |c, m| { witness!(m.nf > 0 && m.nb > 0, "cur_state"); });
} }
op! { cur_take_front, "C10 C01 | slow pslice3 heap2", unwind 5, [slice3 pslice3 zs2 ty3 zslice2] alloc [heap2 boxed2], <E> |v, len| {
    step(v, len, |c, m| {
        assume(!m.is_empty());
        let t = c.take_front();
        gv_assert!(t.ident() == idt::<E>(m.lo), "cursor: took another element from the front");
        t.live_check();
        m.lo += 1;
        m.gf += 1;
        drop(t);
        witness!(m.gf > 1, "cur");
    });
} }
op! { cur_take_back, "C10 C01 | slow pslice3 heap2", unwind 5, [slice3 pslice3 zs2 ty3 zslice2] alloc [heap2 boxed2], <E> |v, len| {
    step(v, len, |c, m| {
        assume(!m.is_empty());
        let t = c.take_back();
        gv_assert!(t.ident() == idt::<E>(m.hi - 1), "cursor: took another element from the back");
        t.live_check();
        m.hi -= 1;
        m.gb += 1;
        witness!(m.gb > 1, "cur");
    });
} }
op! { cur_drop_front, "C10 C01 | slow pslice3 heap2", unwind 5, [slice3 pslice3 zs2 ty3 zslice2] alloc [heap2 boxed2], <E> |v, len| {
    step(v, len, |c, m| {
        assume(!m.is_empty());
        c.drop_front();
        if E::TRACKED { gv_assert!(drops(m.lo as u8) == 1, "cursor: dropped another element"); }
        m.lo += 1;
        m.gf += 1;
        witness!(m.gf > 1, "cur");
    });
} }
op! { cur_drop_back, "C10 C01 | slow pslice3 heap2", unwind 5, [slice3 pslice3 zs2 ty3 zslice2] alloc [heap2 boxed2], <E> |v, len| {
    step(v, len, |c, m| {
        assume(!m.is_empty());
        c.drop_back();
        m.hi -= 1;
        if E::TRACKED { gv_assert!(drops(m.hi as u8) == 1, "cursor: dropped another element"); }
        m.gb += 1;
        witness!(m.gb > 1, "cur");
    });
} }
op! { cur_skip_front, "C10 C01 | slow pslice3 heap2", unwind 5, [slice3 pslice3 zs2 ty3 zslice2] alloc [heap2 boxed2], <E> |v, len| {
    step(v, len, |c, m| {
        assume(!m.is_empty());
        c.skip_front();
        m.add_front(m.lo as u8);
        m.lo += 1;
        witness!(m.gf > 0, "cur");
    });
} }
op! { cur_skip_back, "C10 C01 | slow pslice3 heap2", unwind 5, [slice3 pslice3 zs2 ty3 zslice2] alloc [heap2 boxed2], <E> |v, len| {
    step(v, len, |c, m| {
        assume(!m.is_empty());
        c.skip_back();
        m.hi -= 1;
        m.add_back(m.hi as u8);
        witness!(m.gb > 0, "cur");
    });
} }
op! { cur_skip_n_front, "C10 C01 | slow pslice3 heap2", unwind 5, [slice3 pslice3 zs2 ty3 zslice2] alloc [heap2 boxed2], <E> |v, len| {
    step(v, len, |c, m| {
        let n = any_u8() as usize;
        assume(n <= m.rest());
        c.skip_n_front(n);
        let mut i = 0;
        while i < n { m.add_front((m.lo + i) as u8); i += 1; }
        m.lo += n;
        witness!(m.gf > 0 && n > 1, "cur");
    });
} }
op! { cur_skip_n_back, "C10 C01 | slow pslice3 heap2", unwind 5, [slice3 pslice3 zs2 ty3 zslice2] alloc [heap2 boxed2], <E> |v, len| {
    step(v, len, |c, m| {
        let n = any_u8() as usize;
        assume(n <= m.rest());
        c.skip_n_back(n);
        let mut i = 0;
        while i < n { m.add_back((m.hi - 1 - i) as u8); i += 1; }
        m.hi -= n;
        witness!(m.gb > 0 && n > 1, "cur");
    });
} }
op! { cur_drop_n_front, "C10 C01 | slow pslice3 heap2", unwind 5, [slice3 pslice3 zs2 ty3 zslice2] alloc [heap2 boxed2], <E> |v, len| {
    step(v, len, |c, m| {
        let n = any_u8() as usize;
        assume(n <= m.rest());
        c.drop_n_front(n);
        m.lo += n;
        m.gf += n;
        witness!(m.gf > n && n > 1, "cur");
    });
} }
op! { cur_drop_n_back, "C10 C01 | slow pslice3 heap2", unwind 5, [slice3 pslice3 zs2 ty3 zslice2] alloc [heap2 boxed2], <E> |v, len| {
    step(v, len, |c, m| {
        let n = any_u8() as usize;
        assume(n <= m.rest());
        c.drop_n_back(n);
        m.hi -= n;
        m.gb += n;
        witness!(m.gb > n && n > 1, "cur");
    });
} }
op! { cur_write_front, "C10 C01 | slow pslice3 heap2", unwind 5, [slice3 pslice3 zs2 ty3 zslice2] alloc [heap2 boxed2], <E> |v, len| {
    step(v, len, |c, m| {
        let t = E::make();
        let id = t.ident();
        if any_bool() {
            assume(m.room_front() > 0);
            c.write_front(t);
            m.add_front(id);
            m.pop_gap_front();
        } else {
            match c.try_write_front(t) {
                Ok(()) => {
                    gv_assert!(m.room_front() > 0, "cursor: wrote to the front where nothing is unfilled");
                    m.add_front(id);
                    m.pop_gap_front();
                }
                Err(t) => {
                    gv_assert!(m.room_front() == 0, "cursor: refused to write to the front");
                    gv_assert!(t.ident() == id, "cursor: gave back another element");
                    t.live_check();
                }
            }
        }
        witness!(m.nf > 1 && m.gf > 0, "cur");
    });
} }
op! { cur_write_back, "C10 C01 | slow pslice3 heap2", unwind 5, [slice3 pslice3 zs2 ty3 zslice2] alloc [heap2 boxed2], <E> |v, len| {
    step(v, len, |c, m| {
        let t = E::make();
        let id = t.ident();
        if any_bool() {
            assume(m.room_back() > 0);
            c.write_back(t);
            m.add_back(id);
            m.pop_gap_back();
        } else {
            match c.try_write_back(t) {
                Ok(()) => {
                    gv_assert!(m.room_back() > 0, "cursor: wrote to the back where nothing is unfilled");
                    m.add_back(id);
                    m.pop_gap_back();
                }
                Err(t) => {
                    gv_assert!(m.room_back() == 0, "cursor: refused to write to the back");
                    gv_assert!(t.ident() == id, "cursor: gave back another element");
                    t.live_check();
                }
            }
        }
        witness!(m.nb > 1 && m.gb > 0, "cur");
    });
} }
op! { cur_write_slice, "C10 | slow pslice3 heap2", unwind 5, [slice3 pslice3 zs2 ty3] alloc [heap2], <E> |v, len| {
    step(v, len, |c, m| {
        let n = any_le(2);
        let a: [core::mem::ManuallyDrop<E>; 2] = [core::mem::ManuallyDrop::new(E::make()), core::mem::ManuallyDrop::new(E::make())];
        leak_ok();
        let a: &[E] = unsafe { core::slice::from_raw_parts(a.as_ptr().cast(), n) };
        if E::ZST { unsafe { zunmake(2 - n) } }
        if any_bool() {
            assume(m.room_front() >= n);
            unsafe { c.as_raw_cursor_mut().write_slice_front(a) };
            let mut i = 0;
            while i < n { m.add_front(a[i].ident()); m.pop_gap_front(); i += 1; }
        } else {
            assume(m.room_back() >= n);
            unsafe { c.as_raw_cursor_mut().write_slice_back(a) };
            let mut i = n;
            while i > 0 { i -= 1; m.add_back(a[i].ident()); m.pop_gap_back(); }
        }
        witness!(n == 2, "cur");
    });
} }
op! { cur_reserve_fixed, "C10 C04 | slow pslice3", unwind 5, [slice3 pslice3 zs2 ty3 zslice2] alloc [boxed2], <E> |v, len| {
    // an empty cursor reserves what fits, and the new slots can be written
    let cap = v.capacity();
    step(v, len, |c, m| {
        assume(m.is_empty());
        let n = any_le(3);
        let have = m.gf + m.gb;
        assume(m.total() + n <= cap);
        c.reserve(n);
        if n > have { m.gb += n - have; }
        m.check(c);
        if n > 0 {
            let t = E::make();
            m.add_front(t.ident());
            c.write_front(t);
            m.pop_gap_front();
        }
        if n > 1 {
            let t = E::make();
            m.add_back(t.ident());
            c.write_back(t);
            m.pop_gap_back();
        }
        witness!(have > 0 || n > 0, "cur");
    });
} }

// growing through a cursor: the range and the request are split into cases
op! { cur_reserve_heap, "C10 C05", unwind 5, [] alloc [heap1 heap2], <E> |v, len| {
    pick(2, |s| pick(2, |e| pick(2, |n| {
        assume(s <= e && e <= len);
        let mut m = M::new(len, s, e);
        {
            let mut c = v.cursor(s..e);
            let d = m.rest();
            c.drop_n_front(d);
            m.lo += d;
            m.gf += d;
            c.reserve(n);
            if n > d { m.gb += n - d; }
            m.check(&mut c);
            if n > 0 {
                let t = E::make();
                m.add_front(t.ident());
                c.write_front(t);
                m.pop_gap_front();
            }
            if n > 1 {
                let t = E::make();
                m.add_back(t.ident());
                c.write_back(t);
                m.pop_gap_back();
            }
        }
        expect(v, m.total(), |p| m.at(p));
        witness!(s == 1 && e == 1 && n == 2, "cur");
    })))
} }

op! { cur_leak, "C19", unwind 5, [slice3 pslice3 zs2 ty3 zslice2] alloc [boxed2 zheap2], <E> |v, len| {
    let (s, e) = any_range(len);
    let mut m = M::new(len, s, e);
    let cap = v.capacity();
    let mut c = v.cursor(s..e);
    m.arbitrary(&mut c);
    if any_bool() && m.is_empty() {
        let n = any_le(3);
        assume(m.total() + n <= cap);
        c.reserve(n);
        witness!(n == 3, "leaked after reserve");
    }
    core::mem::forget(c);
    crate::drain::still_valid(v, len);
    witness!(m.nf > 0 && m.nb > 0, "cur_leak");
} }

// ------------------------------------------------------------------------------- refusals

op! { cur_refuse, "C10 C03 | panic | slow heap2", unwind 5, [slice3 zs2 ty3] alloc [heap2], <E> |v, len| {
    let (s, e) = any_range(len);
    let mut m = M::new(len, s, e);
    let which = any_le(10);
    let n = any_usize();
    let mut c = v.cursor(s..e);
    m.arbitrary(&mut c);
    let t = E::make();
    match which {
        0..=3 => assume(m.is_empty()),
        4..=7 => assume(n > m.rest()),
        8 => assume(m.room_front() == 0),
        9 => assume(m.room_back() == 0),
        _ => assume(!m.is_empty()),
    }
    witness!(which == 8 && m.gb > 0, "cur_refuse");
    must_panic(|| match which {
        0 => drop(c.take_front()),
        1 => drop(c.take_back()),
        2 => { if any_bool() { c.drop_front() } else { c.drop_back() } }
        3 => { if any_bool() { c.skip_front() } else { c.skip_back() } }
        4 => c.drop_n_front(n),
        5 => c.drop_n_back(n),
        6 => c.skip_n_front(n),
        7 => c.skip_n_back(n),
        8 => c.write_front(t),
        9 => c.write_back(t),
        _ => c.reserve(n),
    });
} }

op! { cur_reserve_full, "C10 C04 | panic", unwind 5, [slice3 ty3] alloc [boxed2], <E> |v, len| {
    let (s, e) = any_range(len);
    let cap = v.capacity();
    let mut m = M::new(len, s, e);
    let mut c = v.cursor(s..e);
    m.arbitrary(&mut c);
    assume(m.is_empty());
    let n = any_usize();
    assume(n > cap - m.total());
    witness!(m.gf > 0 && n == cap - m.total() + 1, "cur_reserve_full");
    must_panic(|| c.reserve(n));
} }

// the safe slice writes need Copy elements
harness! { cur_copy_slice, "C10", unwind 5, {
    let mut raw = [0u8; 6];
    let mut buf: [core::mem::MaybeUninit<u8>; 6] = unsafe { core::mem::transmute(raw) };
    let mut v = generic_vec::SliceVec::<u8>::new(&mut buf);
    let len = any_le(4);
    v.extend_from_slice(&[1, 2, 3, 4][..len]);
    let (s, e) = any_range(len);
    let (a, b) = (any_u8() as usize, any_u8() as usize);
    let n = any_le(2);
    let (x, y) = (any_u8(), any_u8());
    let src = [x, y];
    assume(a + b <= e - s);
    let front = any_bool();
    let room = if a + b == e - s { a + b } else if front { a } else { b };
    assume(room >= n);
    {
        let mut c = v.cursor(s..e);
        c.drop_n_front(a);
        c.drop_n_back(b);
        if front { c.write_slice_front(&src[..n]) } else { c.write_slice_back(&src[..n]) }
        gv_assert!(if front { c.write_front_len() } else { c.write_back_len() } == room - n, "cursor: slots not filled");
    }
    gv_assert!(v.len() == len - (a + b) + n, "cursor: wrong length");
    let p = any_u8() as usize;
    if p < v.len() {
        // before, [written], unread, [written], after
        let mid = e - s - a - b;
        let want = if p < s { p as u8 + 1 }
            else if front && p < s + n { src[p - s] }
            else if front && p < s + n + mid { (p - n + a) as u8 + 1 }
            else if !front && p < s + mid { (p + a) as u8 + 1 }
            else if !front && p < s + mid + n { src[p - s - mid] }
            else { (p - s - mid - n + e) as u8 + 1 };
        gv_assert!(v[p] == want, "cursor: wrong element");
    }
    witness!(n == 2 && a > 1 && b > 1, "cur_copy_slice");
} }

harness! { cur_copy_slice_full, "C10 C03 | panic", unwind 5, {
    let mut buf: [core::mem::MaybeUninit<u8>; 6] = [core::mem::MaybeUninit::new(0); 6];
    let mut v = generic_vec::SliceVec::<u8>::new(&mut buf);
    let len = any_le(4);
    v.extend_from_slice(&[1, 2, 3, 4][..len]);
    let (s, e) = any_range(len);
    let (a, b) = (any_u8() as usize, any_u8() as usize);
    let n = any_le(4);
    let src = [7u8; 4];
    assume(a + b <= e - s);
    let front = any_bool();
    let room = if a + b == e - s { a + b } else if front { a } else { b };
    assume(room < n);
    let mut c = v.cursor(s..e);
    c.drop_n_front(a);
    c.drop_n_back(b);
    witness!(a > 0 && n == a + 1 && b > 1 && front, "cur_copy_slice_full");
    must_panic(|| if front { c.write_slice_front(&src[..n]) } else { c.write_slice_back(&src[..n]) });
} }

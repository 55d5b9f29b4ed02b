//! Comparison, hashing and borrowing (C15) against the slices of the elements.
use crate::rt::*;
use crate::{gv_assert, harness, op, witness};
use core::borrow::{Borrow, BorrowMut};
use core::cmp::Ordering;
use core::hash::{Hash, Hasher};
use core::mem::MaybeUninit;
use generic_vec::{raw::Storage, GenericVec, SliceVec, TypeVec};

/// Records everything that is fed to it
pub struct Log {
    bytes: [u8; 32],
    n: usize,
}
impl Log {
    fn new() -> Log { Log { bytes: [0; 32], n: 0 } }
    fn same(&self, o: &Log) -> bool {
        let q = any_u8() as usize;
        self.n == o.n && (q >= self.n || self.bytes[q] == o.bytes[q])
    }
}
impl Hasher for Log {
    fn finish(&self) -> u64 { 0 }
    fn write(&mut self, b: &[u8]) {
        let mut i = 0;
        while i < b.len() {
            self.bytes[self.n] = b[i];
            self.n += 1;
            i += 1;
        }
    }
}

/// an element whose comparisons are not those of its bytes: 255 is unordered and not equal to itself
#[derive(Clone, Copy, Debug)]
pub struct F(u8);
impl PartialEq for F {
    fn eq(&self, o: &F) -> bool { self.0 != 255 && self.0 & 0x7f == o.0 & 0x7f }
}
impl PartialOrd for F {
    fn partial_cmp(&self, o: &F) -> Option<Ordering> {
        if self.0 == 255 || o.0 == 255 {
            None
        } else {
            (self.0 & 0x7f).partial_cmp(&(o.0 & 0x7f))
        }
    }
}
impl Hash for F {
    fn hash<H: Hasher>(&self, h: &mut H) { h.write_u8(self.0 & 0x7f) }
}

const C: usize = 3;
type Buf = [MaybeUninit<F>; C];
fn any_buf() -> Buf { [MaybeUninit::new(F(any_u8())), MaybeUninit::new(F(any_u8())), MaybeUninit::new(F(any_u8()))] }

harness! { eq, "C15", unwind 6, {
    let (la, lb) = (any_le(C), any_le(C));
    let (mut x, mut y) = (any_buf(), any_buf());
    let (cx, cy) = (x, y);
    let sa: &[F] = unsafe { core::slice::from_raw_parts(cx.as_ptr().cast(), la) };
    let sb: &[F] = unsafe { core::slice::from_raw_parts(cy.as_ptr().cast(), lb) };
    let mut a = SliceVec::new(&mut x);
    unsafe { a.set_len_unchecked(la) };
    let mut b = TypeVec::<F, [F; C]>::new();
    unsafe {
        b.as_mut_ptr().copy_from_nonoverlapping(y.as_ptr().cast(), C);
        b.set_len_unchecked(lb);
    }
    gv_assert!((a == b) == (sa == sb), "eq of two vectors");
    gv_assert!((b == a) == (sb == sa), "eq of two vectors");
    gv_assert!((a != b) == (sa != sb), "ne of two vectors");
    gv_assert!((a == *sb) == (sa == sb), "eq of a vector and a slice");
    gv_assert!((b == *sa) == (sb == sa), "eq of a vector and a slice");
    if lb == 2 {
        let arr: [F; 2] = [sb[0], sb[1]];
        gv_assert!((a == arr) == (sa == arr), "eq of a vector and an array");
    }
    gv_assert!((a == a) == (sa == sa), "eq of a vector with itself");
    witness!(la == 2 && lb == 2 && a == b, "equal");
    witness!(la == 2 && lb == 3 && a != b, "not equal");
} }

harness! { partial_ord, "C15", unwind 6, {
    let (la, lb) = (any_le(C), any_le(C));
    let (mut x, mut y) = (any_buf(), any_buf());
    let (cx, cy) = (x, y);
    let sa: &[F] = unsafe { core::slice::from_raw_parts(cx.as_ptr().cast(), la) };
    let sb: &[F] = unsafe { core::slice::from_raw_parts(cy.as_ptr().cast(), lb) };
    let mut a = SliceVec::new(&mut x);
    unsafe { a.set_len_unchecked(la) };
    let mut b = TypeVec::<F, [F; C]>::new();
    unsafe {
        b.as_mut_ptr().copy_from_nonoverlapping(y.as_ptr().cast(), C);
        b.set_len_unchecked(lb);
    }
    let r = sa.partial_cmp(sb);
    gv_assert!(a.partial_cmp(&b) == r, "partial_cmp of two vectors");
    gv_assert!(b.partial_cmp(&a) == sb.partial_cmp(sa), "partial_cmp of two vectors");
    gv_assert!(a.partial_cmp(sb) == r, "partial_cmp of a vector and a slice");
    gv_assert!((a < b) == (r == Some(Ordering::Less)), "lt");
    gv_assert!((a <= b) == (r == Some(Ordering::Less) || r == Some(Ordering::Equal)), "le");
    gv_assert!((a > b) == (r == Some(Ordering::Greater)), "gt");
    gv_assert!((a >= b) == (r == Some(Ordering::Greater) || r == Some(Ordering::Equal)), "ge");
    witness!(la == 2 && lb == 3 && r == Some(Ordering::Less), "less");
    witness!(r.is_none(), "unordered");
} }

harness! { ord, "C15", unwind 6, {
    let (la, lb) = (any_le(C), any_le(C));
    let x = [any_u8(), any_u8(), any_u8()];
    let y = [any_u8(), any_u8(), any_u8()];
    let mut a = TypeVec::<u8, [u8; C]>::new();
    let mut b = TypeVec::<u8, [u8; C]>::new();
    unsafe {
        a.as_mut_ptr().copy_from_nonoverlapping(x.as_ptr(), C);
        a.set_len_unchecked(la);
        b.as_mut_ptr().copy_from_nonoverlapping(y.as_ptr(), C);
        b.set_len_unchecked(lb);
    }
    let (sa, sb) = (&x[..la], &y[..lb]);
    gv_assert!(a.cmp(&b) == sa.cmp(sb), "cmp of two vectors");
    gv_assert!(a.partial_cmp(&b) == Some(sa.cmp(sb)), "partial_cmp of two vectors");
    gv_assert!((a == b) == (sa == sb), "eq of two vectors");
    witness!(la == 1 && lb == 3 && sa.cmp(sb) == Ordering::Greater, "ord");
} }

fn hash_of<T: Hash + ?Sized>(x: &T) -> Log {
    let mut h = Log::new();
    x.hash(&mut h);
    h
}

harness! { hash, "C15", unwind 10, {
    let la = any_le(C);
    let mut x = any_buf();
    let cx = x;
    let sa: &[F] = unsafe { core::slice::from_raw_parts(cx.as_ptr().cast(), la) };
    let want = hash_of(sa);
    let mut a = SliceVec::new(&mut x);
    unsafe { a.set_len_unchecked(la) };
    gv_assert!(hash_of(&a).same(&want), "hash of a vector on a slice");
    witness!(la == 2, "hash");
} }

harness! { hash_array, "C15", unwind 10, {
    let la = any_le(C);
    let x = any_buf();
    let sa: &[F] = unsafe { core::slice::from_raw_parts(x.as_ptr().cast(), la) };
    let want = hash_of(sa);
    let mut b = TypeVec::<F, [F; C]>::new();
    unsafe {
        b.as_mut_ptr().copy_from_nonoverlapping(x.as_ptr().cast(), C);
        b.set_len_unchecked(la);
    }
    gv_assert!(hash_of(&b).same(&want), "hash of a vector on an array");
    gv_assert!(hash_of::<[F]>(b.borrow()).same(&want), "hash of the borrowed slice");
    witness!(la == 2, "hash_array");
} }

fn same_slice<T>(s: &[T], p: usize, len: usize) {
    gv_assert!(s.as_ptr() as usize == p && s.len() == len, "another slice is borrowed");
}

fn borrows<E: Elem, S: ?Sized + Storage<E>>(v: &mut GenericVec<E, S>, len: usize) {
    let p = v.as_ptr() as usize;
    same_slice::<E>(v.as_slice(), p, len);
    same_slice::<E>(&**v, p, len);
    same_slice::<E>(v.as_ref(), p, len);
    same_slice::<E>(Borrow::<[E]>::borrow(&*v), p, len);
    same_slice::<E>(v.iter().as_slice(), p, len);
    same_slice::<E>((&*v).into_iter().as_slice(), p, len);
    same_slice::<E>(&v[..], p, len);
    same_slice::<E>(v.as_mut_slice(), p, len);
    same_slice::<E>(&mut **v, p, len);
    same_slice::<E>(v.as_mut(), p, len);
    same_slice::<E>(BorrowMut::<[E]>::borrow_mut(&mut *v), p, len);
    same_slice::<E>((&mut *v).into_iter().into_slice(), p, len);
    same_slice::<E>(&mut v[..], p, len);
    gv_assert!(v.as_mut_ptr() as usize == p, "as_mut_ptr differs from as_ptr");
}

op! { borrow, "C15", unwind 6, [slice pslice ty zs zslice] alloc [heap2 boxed], <E> |v, len| {
    borrows(v, len);
    let (s, e) = any_range(len);
    let p = v.as_ptr() as usize + s * core::mem::size_of::<E>();
    same_slice::<E>(&v[s..e], p, e - s);
    same_slice::<E>(&mut v[s..e], p, e - s);
    expect(v, len, |p| p);
    witness!(s > 0 && e < len, "borrow");
} }

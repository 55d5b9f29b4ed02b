import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mkseed import add as _add
ONLY = sys.argv[1:]
def add(id, *a, **k):
    if not ONLY or id in ONLY:
        _add(id, *a, **k)

add("c10-reserve-move-gap", "C10",
    [("src/iter/raw_cursor.rs", "self.write_back = start.add(wb);", "self.write_back = start.add(wf);")],
    "a cursor that is empty but still has unfilled slots, reserving more than the capacity of a heap vector, with elements behind the range",
    "after the reallocation the elements behind the cursor are taken from the wrong place: a stale element is duplicated and the last one lost",
    '''
use generic_vec::HeapVec;
fn main() {
    let mut v: HeapVec<u32> = HeapVec::with_capacity(6);
    v.extend(0..6);
    {
        let mut c = v.cursor(1..3);
        assert_eq!(c.take_front(), 1);
        assert_eq!(c.take_front(), 2);
        c.reserve(5);
        c.try_write_front(100).unwrap();
    }
    assert_eq!(v.as_slice(), [0, 100, 3, 4, 5]);
}
''')

add("c08-filter-drop-order", "C08",
    [("src/iter/drain_filter.rs", "self.for_each(drop);", "while self.next_back().is_some() {}")],
    "retain (or a drain_filter dropped before its end) with a predicate that depends on the order in which it is called",
    "the predicate is called from the back to the front when the iterator is dropped",
    '''
use generic_vec::HeapVec;
fn main() {
    let mut v: HeapVec<u32> = HeapVec::with_capacity(8);
    v.extend([5, 5, 3, 9, 1, 10]);
    // keeps the elements that are larger than every one before them
    let mut max = 0;
    v.retain(|x| { let k = *x > max; max = max.max(*x); k });
    assert_eq!(v.as_slice(), [5, 9, 10]);
}
''')

add("c07-drain-nth-back", "C07",
    [("src/iter/drain.rs", """            unsafe { Some(self.raw.take_back()) }
        }
    }
""", """            unsafe { Some(self.raw.take_back()) }
        }
    }

    fn nth_back(&mut self, n: usize) -> Option<Self::Item> {
        let len = self.raw.len();
        if n < len {
            unsafe {
                self.raw.drop_n_back(n);
                Some(self.raw.take_back())
            }
        } else {
            unsafe { self.raw.skip_n_back(len) }
            None
        }
    }
""")],
    "nth_back (or rev().skip(n)) past the end of a drain",
    "elements of the range that were skipped stay in the vector",
    '''
use generic_vec::HeapVec;
fn main() {
    let mut v: HeapVec<u32> = HeapVec::with_capacity(8);
    v.extend(0..6);
    assert_eq!(v.drain(1..4).rev().nth(1), Some(2));
    assert_eq!(v.as_slice(), [0, 4, 5]);
    assert_eq!(v.drain(1..3).rev().nth(2), None);
    assert_eq!(v.as_slice(), [0]);
}
''')

add("c11-nth-wrap", "C11",
    [("src/iter/into_iter.rs", '''        let n = self.len().min(n);
        let old_index = self.index;
        self.index += n;
''', '''        let old_index = self.index;
        self.index = old_index.wrapping_add(n).min(self.vec.len());
''')],
    "nth with a huge argument after at least one element was taken from the front",
    "the position wraps around: elements are yielded and dropped twice",
    '''
use generic_vec::HeapVec;
fn main() {
    let mut v: HeapVec<u32> = HeapVec::with_capacity(8);
    v.extend(0..6);
    let mut i = v.into_iter();
    i.next();
    i.next();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| i.nth(usize::MAX)));
    assert_eq!(r.unwrap(), None);
    assert_eq!(i.next(), None);
}
''', release=True)

add("c12-relation-order", "C12",
    [("src/slice.rs", "if !same_bucket(&mut *ptr_read, &mut *prev_ptr_write) {", "if !same_bucket(&mut *prev_ptr_write, &mut *ptr_read) {")],
    "a relation that is not symmetric",
    "the relation is called as (earlier, later)",
    '''
use generic_vec::HeapVec;
fn main() {
    let mut v: HeapVec<u32> = HeapVec::with_capacity(8);
    v.extend([1, 2, 3, 2, 5]);
    v.dedup_by(|later, earlier| *later > *earlier);
    assert_eq!(v.as_slice(), [1]);
}
''')

add("c14-extend-hint", "C14",
    [("src/iter.rs", '''        let iter = iter.into_iter();
        let _ = self.try_reserve(iter.size_hint().0);
        #[allow(clippy::drop_ref)]
        iter.for_each(|item| drop(self.push(item)));''', '''        let mut iter = iter.into_iter();
        let lower = iter.size_hint().0;
        if self.try_reserve(lower) {
            // Safety
            //
            // we reserved enough space for `lower` elements
            unsafe {
                iter.by_ref().take(lower).for_each(|item| {
                    let _ = self.push_unchecked(item);
                });
            }
        }
        if iter.size_hint().1 == Some(0) {
            return
        }
        #[allow(clippy::drop_ref)]
        iter.for_each(|item| drop(self.push(item)));''')],
    "an iterator whose upper size hint is too low",
    "items behind the promised end are not appended",
    '''
use generic_vec::HeapVec;
struct Low(u32);
impl Iterator for Low {
    type Item = u32;
    fn next(&mut self) -> Option<u32> {
        if self.0 == 0 { None } else { self.0 -= 1; Some(self.0) }
    }
    fn size_hint(&self) -> (usize, Option<usize>) { (0, Some(self.0 as usize / 2)) }
}
fn main() {
    let mut v: HeapVec<u32> = HeapVec::new();
    v.extend(Low(1));
    assert_eq!(v.as_slice(), [0]);
    v.extend(Low(5));
    assert_eq!(v.as_slice(), [0, 4, 3, 2, 1, 0]);
}
''')

add("c13-split-const-capacity", "C13",
    [("src/raw/uninit.rs", "Some(old_capacity) if old_capacity <= size::<U, T, A>() => Self::default(),", "Some(old_capacity) if old_capacity < size::<U, T, A>() => Self::default(),"),
     ("src/lib.rs", '''            let slice = self.get_unchecked(index..);
            other.reserve(slice.len());
            other.extend_from_slice_unchecked(slice);
            self.set_len_unchecked(index);''', '''            let len = self.len();
            self.set_len_unchecked(index);
            let slice = core::slice::from_raw_parts(self.as_ptr().add(index), len.wrapping_sub(index));
            if B::CONST_CAPACITY.map_or(true, |cap| cap < slice.len()) {
                other.reserve(slice.len());
            }
            other.extend_from_slice_unchecked(slice);''')],
    "a destination of constant capacity that already holds elements and lacks room, although its whole capacity would do",
    "the elements are written behind the end of the destination's buffer (and a refused split or append loses the tail)",
    '''
use generic_vec::{TypeVec, HeapVec};
fn main() {
    let mut a: TypeVec<u32, [u32; 4]> = TypeVec::new();
    a.extend([1, 2, 3]);
    let mut b: HeapVec<u32> = HeapVec::with_capacity(4);
    b.extend([4, 5, 6]);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| a.append(&mut b)));
    assert!(r.is_err());
    assert_eq!(a.as_slice(), [1, 2, 3]);
    assert_eq!(b.as_slice(), [4, 5, 6]);
}
''')

add("c19-reserve-leak", "C19",
    [("src/iter/raw_cursor.rs", "self.vec.as_mut().set_len_unchecked(front_len);", "self.vec.as_mut().set_len_unchecked(len);")],
    "a cursor that is leaked after reserve, with unfilled slots left",
    "the vector's length then covers unfilled slots: dropped or uninitialized elements become reachable",
    '''
use generic_vec::HeapVec;
use std::rc::Rc;
fn main() {
    let r = Rc::new(());
    let mut v: HeapVec<(u32, Rc<()>)> = HeapVec::with_capacity(16);
    v.extend((0..5).map(|i| (i, r.clone())));
    {
        let mut c = v.cursor(1..3);
        c.drop_front();
        c.drop_front();
        c.reserve(4);
        std::mem::forget(c);
    }
    let n = v.len();
    std::mem::forget(v);
    assert!(n <= 1, "{}", n);
}
''')

add("c02-truncate-keep", "C02",
    [("src/lib.rs", "if let Some(diff) = self.len().checked_sub(len) {", "if len == 0 && !core::mem::needs_drop::<T>() {\n            self.len = 0;\n        } else if let Some(diff) = self.len().checked_sub(len).filter(|_| core::mem::needs_drop::<T>() || self.len() != self.capacity()) {")],
    "truncating a full vector of elements without a destructor to a length other than 0",
    "the elements behind the new length stay",
    '''
use generic_vec::HeapVec;
fn main() {
    let mut v: HeapVec<u32> = HeapVec::with_capacity(4);
    v.extend(0..4);
    while v.len() < v.capacity() { v.push(9); }
    v.truncate(2);
    assert_eq!(v.as_slice(), [0, 1]);
}
''')

add("c25-box-capacity", "C25",
    [("src/raw.rs", "fn with_capacity(capacity: usize) -> Self { Box::new(S::with_capacity(capacity)) }",
      "fn with_capacity(capacity: usize) -> Self {\n        let mut storage = Box::<S>::default();\n        let _ = S::try_reserve(&mut storage, capacity / 2);\n        storage\n    }")],
    "a vector on a boxed heap created with a capacity of more than 8",
    "a boxed storage has less room than it was created with",
    '''
use generic_vec::{raw::Heap, GenericVec};
fn main() {
    let v: GenericVec<u32, Box<Heap<u32>>> = GenericVec::with_capacity(20);
    assert!(v.capacity() >= 20);
}
''')

add("c09-splice-exact-gap", "C09",
    [("src/iter/splice.rs", "            raw.drop_n_front(self.raw.len());".replace("raw.drop", "self.raw.drop"), "            self.raw.drop_n_back(self.raw.len());")],
    "x", "x", "fn main(){}") if 0 else None

add("c03-swap-remove-last", "C03",
    [("src/lib.rs", "if self.is_full() || index > self.len() {", "if self.is_full() || index > self.capacity().wrapping_sub(1) {")],
    "try_insert past the end of a vector whose spare capacity covers the index",
    "try_insert accepts an index beyond the length: uninitialized slots become elements",
    '''
use generic_vec::HeapVec;
fn main() {
    let mut v: HeapVec<u32> = HeapVec::with_capacity(10);
    v.extend([1, 2]);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| v.try_insert(5, 7).is_err()));
    assert!(matches!(r, Ok(true)));
    assert_eq!(v.as_slice(), [1, 2]);
}
''')

add("c04-reserve-equal", "C04",
    [("src/raw/slice.rs", "fn try_reserve(&mut self, capacity: usize) -> bool { capacity <= Storage::<U>::capacity(self) }",
      "fn try_reserve(&mut self, capacity: usize) -> bool {\n        let bytes = capacity.wrapping_mul(size_of::<U>());\n        bytes <= self.0.len() * size_of::<T>()\n    }")],
    "try_reserve on a slice vector with a request whose size in bytes wraps around",
    "try_reserve answers true although the room is not available",
    '''
use generic_vec::SliceVec;
use std::mem::MaybeUninit;
fn main() {
    let mut b: [MaybeUninit<u32>; 4] = [MaybeUninit::uninit(); 4];
    let mut v = SliceVec::new(&mut b);
    assert!(v.try_reserve(4));
    assert!(!v.try_reserve(5));
    assert!(!v.try_reserve(1 << 62));
}
''', release=True)

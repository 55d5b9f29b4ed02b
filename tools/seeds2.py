from mkseed import add
add("c19-plain-leak", "C19",
    [("src/iter/raw_cursor.rs", """                let range = vec[start..end].as_mut_ptr_range();

                vec.set_len_unchecked(start);
""", """                let range = vec[start..end].as_mut_ptr_range();

                // elements without destructor may stay in the vector until `finish`
                if core::mem::needs_drop::<T>() {
                    vec.set_len_unchecked(start);
                }
""")],
    "a drain (or cursor) over elements without a destructor which is leaked after it yielded elements",
    "a leaked drain leaves the elements it already yielded in the vector, so that unique references are duplicated",
    '''
use generic_vec::HeapVec;
fn main() {
    let mut store: Vec<u32> = (0..5).collect();
    let mut v: HeapVec<&mut u32> = HeapVec::with_capacity(8);
    v.extend(store.iter_mut());
    let mut d = v.drain(1..4);
    let a = d.next().unwrap() as *mut u32 as usize;
    std::mem::forget(d);
    assert!(v.iter().all(|r| &**r as *const u32 as usize != a));
}
''')

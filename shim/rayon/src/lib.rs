//! Stand-in for rayon: the items of a parallel iterator are computed one at a time in an order
//! that the harness chooses (forwards, backwards, or odd items first), and are collected by index.
pub mod order {
    pub static mut ORDER: u32 = 0;
    pub fn set(o: u32) {
        unsafe { ORDER = o }
    }
    /// a permutation for order 100 (of as many items; the others go backwards)
    pub static mut PERM: Vec<usize> = Vec::new();
    pub fn set_perm(p: Vec<usize>) {
        unsafe { PERM = p }
    }
    #[allow(static_mut_refs)]
    fn perm(i: usize, n: usize) -> usize {
        unsafe {
            if PERM.len() == n {
                PERM[i]
            } else {
                n - 1 - i
            }
        }
    }
    /// position of the i-th evaluated item
    pub fn at(i: usize, n: usize) -> usize {
        match unsafe { ORDER } {
            100 => perm(i, n),
            0 => i,
            1 => n - 1 - i,
            _ => {
                let odd = n / 2;
                if i < odd {
                    2 * i + 1
                } else {
                    2 * (i - odd)
                }
            }
        }
    }
}
pub mod prelude {
    pub use crate::iter::*;
}
pub mod iter {
    use crate::order;
    fn scheduled<T, R>(v: Vec<T>, f: &dyn Fn(T) -> R) -> Vec<R> {
        let n = v.len();
        let mut src: Vec<Option<T>> = Vec::with_capacity(n);
        for x in v {
            src.push(Some(x));
        }
        let mut dst: Vec<Option<R>> = Vec::with_capacity(n);
        for _ in 0..n {
            dst.push(None);
        }
        for i in 0..n {
            let k = order::at(i, n);
            let x = src[k].take().unwrap();
            dst[k] = Some(f(x));
        }
        let mut out = Vec::with_capacity(n);
        for x in dst {
            out.push(x.unwrap());
        }
        out
    }
    pub trait ParallelIterator: Sized {
        type Item: Send;
        /// computes all items
        fn run(self) -> Vec<Self::Item>;
        fn map<F, R>(self, f: F) -> Map<Self, F>
        where
            F: Fn(Self::Item) -> R + Sync + Send,
            R: Send,
        {
            Map(self, f)
        }
        fn filter<F: Fn(&Self::Item) -> bool + Sync + Send>(self, f: F) -> Items<Self::Item> {
            Items(self.run().into_iter().filter(|x| f(x)).collect())
        }
        fn flat_map_iter<F, I>(self, f: F) -> Items<I::Item>
        where
            F: Fn(Self::Item) -> I + Sync + Send,
            I: IntoIterator,
            I::Item: Send,
        {
            let v = scheduled(self.run(), &|x| f(x).into_iter().collect::<Vec<_>>());
            Items(v.into_iter().flatten().collect())
        }
        fn flat_map<F, I>(self, f: F) -> Items<I::Item>
        where
            F: Fn(Self::Item) -> I + Sync + Send,
            I: IntoIterator,
            I::Item: Send,
        {
            self.flat_map_iter(f)
        }
        fn enumerate(self) -> Items<(usize, Self::Item)> {
            Items(self.run().into_iter().enumerate().collect())
        }
        fn rev(self) -> Items<Self::Item> {
            let mut v = self.run();
            v.reverse();
            Items(v)
        }
        fn for_each<F: Fn(Self::Item) + Sync + Send>(self, f: F) {
            scheduled(self.run(), &|x| f(x));
        }
        fn collect<C: FromIterator<Self::Item>>(self) -> C {
            self.run().into_iter().collect()
        }
        fn collect_into_vec(self, v: &mut Vec<Self::Item>) {
            *v = self.run();
        }
        fn count(self) -> usize {
            self.run().len()
        }
    }
    pub trait IndexedParallelIterator: ParallelIterator {}
    pub struct Items<T>(pub Vec<T>);
    impl<T: Send> ParallelIterator for Items<T> {
        type Item = T;
        fn run(self) -> Vec<T> {
            self.0
        }
    }
    impl<T: Send> IndexedParallelIterator for Items<T> {}
    pub struct Map<B, F>(B, F);
    impl<B: ParallelIterator, F: Fn(B::Item) -> R + Sync + Send, R: Send> ParallelIterator for Map<B, F> {
        type Item = R;
        fn run(self) -> Vec<R> {
            let f = self.1;
            scheduled(self.0.run(), &|x| f(x))
        }
    }
    pub trait IntoParallelIterator {
        type Item: Send;
        fn into_par_iter(self) -> Items<Self::Item>;
    }
    impl<T: Send> IntoParallelIterator for Vec<T> {
        type Item = T;
        fn into_par_iter(self) -> Items<T> {
            Items(self)
        }
    }
    macro_rules! ranges {
        ($($t:ty)*) => {$(
            impl IntoParallelIterator for std::ops::Range<$t> {
                type Item = $t;
                fn into_par_iter(self) -> Items<$t> {
                    let mut v = Vec::with_capacity((self.end.saturating_sub(self.start)) as usize);
                    let mut i = self.start;
                    while i < self.end {
                        v.push(i);
                        i += 1;
                    }
                    Items(v)
                }
            }
        )*};
    }
    ranges!(u8 u16 u32 u64 usize i32 i64);
    pub trait ParallelSlice<T> {
        fn par_iter(&self) -> Items<&T>;
        fn par_chunks(&self, n: usize) -> Items<&[T]>;
    }
    impl<T: Sync> ParallelSlice<T> for [T] {
        fn par_iter(&self) -> Items<&T> {
            Items(self.iter().collect())
        }
        fn par_chunks(&self, n: usize) -> Items<&[T]> {
            Items(self.chunks(n).collect())
        }
    }
    pub trait ParallelSliceMut<T> {
        fn par_iter_mut(&mut self) -> Items<&mut T>;
        fn par_chunks_mut(&mut self, n: usize) -> Items<&mut [T]>;
    }
    impl<T: Send> ParallelSliceMut<T> for [T] {
        fn par_iter_mut(&mut self) -> Items<&mut T> {
            Items(self.iter_mut().collect())
        }
        fn par_chunks_mut(&mut self, n: usize) -> Items<&mut [T]> {
            Items(self.chunks_mut(n).collect())
        }
    }
}

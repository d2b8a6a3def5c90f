//! Stand-in for `maybe-rayon` whose scheduling is decided by an explorer.
//!
//! Every place where the real executor is free to choose (which half of a
//! `join` runs first, in which order the items of a parallel iterator are
//! processed, when a spawned task runs relative to its spawner and to the
//! other tasks, how many threads there are) is a numbered choice point.
//! `mc::explore` runs a closure once per sequence of choices, exhaustively.
//! Tasks are executed atomically: they share nothing but channels and the
//! results they return (the crates under test forbid unsafe code and the
//! bounds on this API are those of the real one), so interleavings inside a
//! task cannot be observed.

pub mod mc {
    use std::cell::RefCell;
    use std::cell::Cell;
    thread_local! {
        static PLAN: RefCell<Option<(Vec<(usize, usize)>, usize)>> = const { RefCell::new(None) };
        static THREADS: Cell<usize> = const { Cell::new(1) };
        static POINTS: Cell<u64> = const { Cell::new(0) };
    }
    /// Picks one of `n` alternatives.
    pub(crate) fn choose(n: usize) -> usize {
        if n <= 1 { return 0; }
        POINTS.with(|p| p.set(p.get() + 1));
        PLAN.with(|p| {
            let mut p = p.borrow_mut();
            match p.as_mut() {
                None => 0,
                Some((plan, at)) => {
                    let r = if *at < plan.len() { assert_eq!(plan[*at].1, n, "nondeterministic program under exploration"); plan[*at].0 } else { plan.push((0, n)); 0 };
                    *at += 1;
                    r
                }
            }
        })
    }
    /// Number of choice points passed so far on this thread.
    pub fn points() -> u64 { POINTS.with(|p| p.get()) }
    pub fn threads() -> usize { THREADS.with(|t| t.get()) }
    pub fn set_threads(n: usize) { THREADS.with(|t| t.set(n)); }
    /// Calls `f` under every schedule (at most `cap`); returns how many and
    /// whether the enumeration is complete. `f` gets the schedule's choices
    /// through `schedule()` afterwards.
    pub fn explore<R>(cap: u64, f: impl FnMut() -> R, each: impl FnMut(&[usize], R)) -> (u64, bool) { explore_within(usize::MAX, cap, f, each) }
    /// Only the schedules that deviate from the default (alternative 0) at
    /// most `bound` times.
    pub fn explore_within<R>(bound: usize, cap: u64, mut f: impl FnMut() -> R, mut each: impl FnMut(&[usize], R)) -> (u64, bool) {
        let mut plan: Vec<(usize, usize)> = vec![];
        let mut n = 0;
        loop {
            PLAN.with(|p| *p.borrow_mut() = Some((plan.clone(), 0)));
            struct Reset;
            impl Drop for Reset { fn drop(&mut self) { super::mc::PLAN.with(|p| *p.borrow_mut() = None); } }
            let guard = Reset;
            let r = f();
            plan = PLAN.with(|p| p.borrow().as_ref().unwrap().0.clone());
            drop(guard);
            n += 1;
            let choices: Vec<usize> = plan.iter().map(|c| c.0).collect();
            each(&choices, r);
            let mut used = choices.iter().filter(|c| **c != 0).count();
            while let Some((c, m)) = plan.pop() {
                if c != 0 { used -= 1; }
                if c + 1 < m && used < bound { plan.push((c + 1, m)); break; }
            }
            if plan.is_empty() { return (n, true); }
            if n >= cap { return (n, false); }
        }
    }
}

pub fn current_num_threads() -> usize { mc::threads() }

pub fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where A: FnOnce() -> RA + Send, B: FnOnce() -> RB + Send, RA: Send, RB: Send {
    if mc::choose(2) == 0 { let x = a(); let y = b(); (x, y) } else { let y = b(); let x = a(); (x, y) }
}

type Task<'scope> = Box<dyn FnOnce(&Scope<'scope>) + Send + 'scope>;

pub struct Scope<'scope> {
    pending: std::sync::Mutex<Vec<Task<'scope>>>,
    marker: std::marker::PhantomData<fn(&'scope ()) -> &'scope ()>,
}

impl<'scope> Scope<'scope> {
    /// The new task and any number of the tasks already waiting may run now,
    /// in any order; whatever does not run now waits.
    pub fn spawn<B>(&self, body: B) where B: FnOnce(&Scope<'scope>) + Send + 'scope {
        self.pending.lock().unwrap().push(Box::new(body));
        loop {
            let n = self.pending.lock().unwrap().len();
            let k = mc::choose(n + 1);
            if k == 0 { return; }
            let t = self.pending.lock().unwrap().remove(k - 1);
            t(self);
        }
    }
    fn drain(&self) {
        loop {
            let n = self.pending.lock().unwrap().len();
            if n == 0 { return; }
            let k = mc::choose(n);
            let t = self.pending.lock().unwrap().remove(k);
            t(self);
        }
    }
}

pub fn scope<'scope, OP, R>(op: OP) -> R where OP: FnOnce(&Scope<'scope>) -> R + Send, R: Send {
    let s = Scope { pending: Default::default(), marker: std::marker::PhantomData };
    let r = op(&s);
    s.drain();
    r
}

#[derive(Default)]
pub struct ThreadPoolBuilder(usize);
impl ThreadPoolBuilder {
    pub fn new() -> Self { ThreadPoolBuilder(0) }
    pub fn num_threads(self, n: usize) -> Self { ThreadPoolBuilder(n) }
    pub fn build(self) -> Result<ThreadPool, std::convert::Infallible> { Ok(ThreadPool(self.0)) }
}
#[derive(Debug)]
pub struct ThreadPool(usize);
impl ThreadPool {
    pub fn install<OP, R>(&self, op: OP) -> R where OP: FnOnce() -> R + Send, R: Send {
        let old = mc::threads();
        if self.0 > 0 { mc::set_threads(self.0); }
        let r = op();
        mc::set_threads(old);
        r
    }
}

#[cfg(not(feature = "threads"))]
pub mod iter {
    pub trait IntoParallelIterator {
        type Iter: Iterator<Item = Self::Item>;
        type Item: Send;
        fn into_par_iter(self) -> Self::Iter;
    }
    impl<I: IntoIterator> IntoParallelIterator for I where I::Item: Send {
        type Item = I::Item;
        type Iter = I::IntoIter;
        fn into_par_iter(self) -> I::IntoIter { self.into_iter() }
    }
    pub trait ParallelIterator: Iterator {}
    impl<I: Iterator> ParallelIterator for I {}
}

/// Items are materialized; every consuming operation applies its closure to
/// them in an explored order and delivers results in item order.
#[cfg(feature = "threads")]
pub mod iter {
    use crate::mc::choose;
    pub struct Par<T>(Vec<T>);
    pub trait IntoParallelIterator {
        type Iter: ParallelIterator<Item = Self::Item>;
        type Item: Send;
        fn into_par_iter(self) -> Self::Iter;
    }
    impl<I: IntoIterator> IntoParallelIterator for I where I::Item: Send {
        type Item = I::Item;
        type Iter = Par<I::Item>;
        fn into_par_iter(self) -> Par<I::Item> { Par(self.into_iter().collect()) }
    }
    pub trait IntoParallelRefIterator<'d> { type Item: Send + 'd; fn par_iter(&'d self) -> Par<Self::Item>; }
    impl<'d, T: Sync + 'd> IntoParallelRefIterator<'d> for [T] { type Item = &'d T; fn par_iter(&'d self) -> Par<&'d T> { Par(self.iter().collect()) } }
    impl<'d, T: Sync + 'd> IntoParallelRefIterator<'d> for Vec<T> { type Item = &'d T; fn par_iter(&'d self) -> Par<&'d T> { Par(self.iter().collect()) } }
    pub trait IntoParallelRefMutIterator<'d> { type Item: Send + 'd; fn par_iter_mut(&'d mut self) -> Par<Self::Item>; }
    impl<'d, T: Send + 'd> IntoParallelRefMutIterator<'d> for [T] { type Item = &'d mut T; fn par_iter_mut(&'d mut self) -> Par<&'d mut T> { Par(self.iter_mut().collect()) } }
    impl<'d, T: Send + 'd> IntoParallelRefMutIterator<'d> for Vec<T> { type Item = &'d mut T; fn par_iter_mut(&'d mut self) -> Par<&'d mut T> { Par(self.iter_mut().collect()) } }

    fn in_some_order<T, U>(v: Vec<T>, f: impl Fn(T) -> U) -> Vec<U> {
        let n = v.len();
        let mut items: Vec<Option<T>> = v.into_iter().map(Some).collect();
        let mut out: Vec<Option<U>> = (0..n).map(|_| None).collect();
        let mut left: Vec<usize> = (0..n).collect();
        // All orders for a few items; for many, every choice of which item
        // runs first and whether the rest runs forwards or backwards.
        if n <= 5 {
            while !left.is_empty() { let i = left.remove(choose(left.len())); out[i] = Some(f(items[i].take().unwrap())); }
        } else {
            let first = left.remove(choose(n.min(4)) * (n - 1) / 3);
            if choose(2) == 1 { left.reverse(); }
            left.insert(0, first);
            for i in left { out[i] = Some(f(items[i].take().unwrap())); }
        }
        out.into_iter().map(Option::unwrap).collect()
    }
    pub trait ParallelIterator: Sized {
        type Item: Send;
        fn into_vec(self) -> Vec<Self::Item>;
        fn map<U: Send, F: Fn(Self::Item) -> U + Sync + Send>(self, f: F) -> Par<U> { Par(in_some_order(self.into_vec(), f)) }
        fn enumerate(self) -> Par<(usize, Self::Item)> { Par(self.into_vec().into_iter().enumerate().collect()) }
        fn zip<Z: IntoParallelIterator>(self, z: Z) -> Par<(Self::Item, Z::Item)> { Par(self.into_vec().into_iter().zip(z.into_par_iter().into_vec()).collect()) }
        fn rev(self) -> Par<Self::Item> { Par(self.into_vec().into_iter().rev().collect()) }
        fn filter<F: Fn(&Self::Item) -> bool + Sync + Send>(self, f: F) -> Par<Self::Item> { Par(self.into_vec().into_iter().filter(|x| f(x)).collect()) }
        fn flat_map_iter<U, F>(self, f: F) -> Par<U::Item> where U: IntoIterator + Send, U::Item: Send, F: Fn(Self::Item) -> U + Sync + Send { Par(in_some_order(self.into_vec(), f).into_iter().flatten().collect()) }
        fn for_each<F: Fn(Self::Item) + Sync + Send>(self, f: F) { in_some_order(self.into_vec(), f); }
        fn collect<C: FromIterator<Self::Item>>(self) -> C { self.into_vec().into_iter().collect() }
        fn sum<S: std::iter::Sum<Self::Item>>(self) -> S { self.into_vec().into_iter().sum() }
        /// Combines neighbours in an explored association.
        fn reduce<ID: Fn() -> Self::Item + Sync + Send, OP: Fn(Self::Item, Self::Item) -> Self::Item + Sync + Send>(self, id: ID, op: OP) -> Self::Item {
            let mut v = self.into_vec();
            if v.is_empty() || choose(2) == 1 { v.insert(0, id()); }
            while v.len() > 1 { let i = choose((v.len() - 1).min(3)); let b = v.remove(i + 1); let a = v.remove(i); v.insert(i, op(a, b)); }
            v.pop().unwrap()
        }
        fn count(self) -> usize { self.into_vec().len() }
    }
    impl<T: Send> ParallelIterator for Par<T> { type Item = T; fn into_vec(self) -> Vec<T> { self.0 } }
    pub use ParallelIterator as IndexedParallelIterator;
}

pub mod slice {
    #[cfg(feature = "threads")]
    use crate::iter::IntoParallelIterator;
    #[cfg(feature = "threads")]
    pub trait ParallelSlice<T: Sync> { fn par_chunks(&self, n: usize) -> crate::iter::Par<&[T]>; fn par_chunks_exact(&self, n: usize) -> crate::iter::Par<&[T]>; }
    #[cfg(feature = "threads")]
    impl<T: Sync> ParallelSlice<T> for [T] {
        fn par_chunks(&self, n: usize) -> crate::iter::Par<&[T]> { self.chunks(n).collect::<Vec<_>>().into_par_iter() }
        fn par_chunks_exact(&self, n: usize) -> crate::iter::Par<&[T]> { self.chunks_exact(n).collect::<Vec<_>>().into_par_iter() }
    }
    #[cfg(feature = "threads")]
    pub trait ParallelSliceMut<T: Send> { fn par_chunks_mut(&mut self, n: usize) -> crate::iter::Par<&mut [T]>; fn par_chunks_exact_mut(&mut self, n: usize) -> crate::iter::Par<&mut [T]>; }
    #[cfg(feature = "threads")]
    impl<T: Send> ParallelSliceMut<T> for [T] {
        fn par_chunks_mut(&mut self, n: usize) -> crate::iter::Par<&mut [T]> { self.chunks_mut(n).collect::<Vec<_>>().into_par_iter() }
        fn par_chunks_exact_mut(&mut self, n: usize) -> crate::iter::Par<&mut [T]> { self.chunks_exact_mut(n).collect::<Vec<_>>().into_par_iter() }
    }
    #[cfg(not(feature = "threads"))]
    pub trait ParallelSlice<T: Sync> { fn par_chunks_exact(&self, n: usize) -> std::slice::ChunksExact<'_, T>; }
    #[cfg(not(feature = "threads"))]
    impl<T: Sync> ParallelSlice<T> for [T] { fn par_chunks_exact(&self, n: usize) -> std::slice::ChunksExact<'_, T> { self.chunks_exact(n) } }
}
pub mod prelude { pub use crate::iter::*; pub use crate::slice::*; }

//! Stand-in for rayon whose parallel regions are executed under an explicit schedule.
//!
//! A region is a list of tasks (one per item of the parallel iterator).  At each region the
//! explorer's `Scheduler` answers with a `Plan`: an order of the tasks, a worker for each of them,
//! and possibly one preemption (a task is suspended at one of its yield points, i.e. a field
//! operation, while others run).  Every worker is a separate OS thread and only one task runs at a
//! time, so that an execution is a deterministic function of the plans.  Without a scheduler tasks
//! run in order on the calling thread.
use std::sync::mpsc::{channel, Receiver, RecvTimeoutError, Sender};
use std::sync::{Arc, Mutex};
use std::time::Duration;

pub mod sched {
    use std::cell::RefCell;
    use std::sync::mpsc::{Receiver, Sender};

    #[derive(Clone, Debug, PartialEq, Eq, Hash)]
    pub struct Preempt {
        pub task: usize,
        /// suspended at this yield point (0: the first)
        pub at: usize,
        /// resumed after this many other tasks
        pub others: usize,
    }
    #[derive(Clone, Debug, PartialEq, Eq, Hash)]
    pub struct Plan {
        /// (task, worker), every task once
        pub order: Vec<(usize, usize)>,
        pub preempt: Option<Preempt>,
    }
    impl Plan {
        pub fn in_order(n: usize) -> Plan {
            Plan { order: (0..n).map(|i| (i, 0)).collect(), preempt: None }
        }
    }
    /// (region number in this run, number of tasks) -> plan
    pub type Scheduler = Box<dyn FnMut(usize, usize) -> Plan>;

    #[derive(Default)]
    pub struct State {
        pub scheduler: Option<Scheduler>,
        pub regions: Vec<usize>,
        pub suspended: usize,
        pub chunk: usize,
    }
    thread_local! {
        pub static STATE: RefCell<State> = RefCell::new(State::default());
        /// set in the thread of a task that is to be suspended
        static POINT: RefCell<Option<(usize, Sender<super::Msg>, Receiver<()>)>> = const { RefCell::new(None) };
    }
    pub fn set(s: Option<Scheduler>) {
        STATE.with(|st| {
            let mut st = st.borrow_mut();
            st.scheduler = s;
            st.regions.clear();
            st.suspended = 0;
        })
    }
    /// Items that one split handles where splitting is visible (fold, reduce, map_init; 0: one).
    pub fn set_chunk(n: usize) {
        STATE.with(|st| st.borrow_mut().chunk = n)
    }
    pub(crate) fn chunk() -> usize {
        STATE.with(|st| st.borrow().chunk).max(1)
    }
    /// Task counts of the regions executed since `set`.
    pub fn regions() -> Vec<usize> {
        STATE.with(|st| st.borrow().regions.clone())
    }
    /// Tasks actually suspended since `set`.
    pub fn suspended() -> usize {
        STATE.with(|st| st.borrow().suspended)
    }
    pub(crate) fn count_suspended() {
        STATE.with(|st| st.borrow_mut().suspended += 1)
    }
    pub(crate) fn next(n: usize) -> Plan {
        STATE.with(|st| {
            let taken = st.borrow_mut().scheduler.take();
            let mut s = match taken {
                Some(s) => s,
                None => {
                    st.borrow_mut().regions.push(n);
                    return Plan::in_order(n);
                }
            };
            let id = st.borrow().regions.len();
            let plan = s(id, n);
            let mut st = st.borrow_mut();
            st.scheduler = Some(s);
            st.regions.push(n);
            let mut seen = vec![false; n];
            for (t, _) in &plan.order {
                assert!(!seen[*t], "schedule repeats a task");
                seen[*t] = true;
            }
            assert!(seen.iter().all(|b| *b), "schedule misses a task");
            plan
        })
    }
    pub(crate) fn arm(at: usize, tx: Sender<super::Msg>, rx: Receiver<()>) {
        POINT.with(|p| *p.borrow_mut() = Some((at, tx, rx)))
    }
    pub(crate) fn disarm() {
        POINT.with(|p| *p.borrow_mut() = None)
    }
    /// A place where a task may be suspended.
    pub fn yield_point() {
        let due = POINT.with(|p| {
            let mut p = p.borrow_mut();
            match p.as_mut() {
                Some((0, ..)) => p.take(),
                Some((k, ..)) => {
                    *k -= 1;
                    None
                }
                None => None,
            }
        });
        if let Some((_, tx, rx)) = due {
            if tx.send(super::Msg::Suspended).is_ok() {
                let _ = rx.recv();
            }
        }
    }
}
pub enum Msg {
    Suspended,
    Done(usize),
}

type Thunk<'a, T> = Box<dyn FnOnce() -> Vec<T> + Send + 'a>;
type Source<'a, T> = Arc<dyn Fn() -> Vec<Thunk<'a, T>> + 'a>;

pub struct Par<'a, T: Send + 'a> {
    tasks: Vec<Thunk<'a, T>>,
    /// makes the tasks again
    source: Option<Source<'a, T>>,
}
impl<'a, T: Send + 'a> Clone for Par<'a, T> {
    fn clone(&self) -> Self {
        let s = self.source.clone().expect("cloned a parallel iterator over owned items");
        Par { tasks: s(), source: Some(s) }
    }
}

type Slot<T> = Option<std::thread::Result<Vec<T>>>;

/// Runs the tasks under the schedule and returns their results in task order.
fn run<'a, T: Send + 'a>(tasks: Vec<Thunk<'a, T>>) -> Vec<Vec<T>> {
    let n = tasks.len();
    let plan = sched::next(n);
    let workers = plan.order.iter().map(|(_, w)| w + 1).max().unwrap_or(1);
    let mut tasks: Vec<Option<Thunk<'a, T>>> = tasks.into_iter().map(Some).collect();
    if workers == 1 && plan.preempt.is_none() {
        let mut slots: Vec<Option<Vec<T>>> = (0..n).map(|_| None).collect();
        for (t, _) in plan.order {
            slots[t] = Some((tasks[t].take().unwrap())());
        }
        return slots.into_iter().map(|s| s.unwrap()).collect();
    }
    let slots: Mutex<Vec<Slot<T>>> = Mutex::new((0..n).map(|_| None).collect());
    std::thread::scope(|s| {
        // one thread per worker, and one more for the task to be suspended
        type Job<'a, T> = (usize, Thunk<'a, T>, Option<(usize, Receiver<()>)>);
        let (mtx, mrx): (Sender<Msg>, Receiver<Msg>) = channel();
        let mut chans = vec![];
        for _ in 0..workers + 1 {
            let (tx, rx) = channel::<Job<'a, T>>();
            let mtx = mtx.clone();
            let slots = &slots;
            s.spawn(move || {
                while let Ok((i, f, point)) = rx.recv() {
                    if let Some((at, resume)) = point {
                        sched::arm(at, mtx.clone(), resume);
                    }
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
                    sched::disarm();
                    slots.lock().unwrap()[i] = Some(r);
                    if mtx.send(Msg::Done(i)).is_err() {
                        break;
                    }
                }
            });
            chans.push(tx);
        }
        // how to wake the suspended task, and how many more tasks run before
        let mut parked: Option<(Sender<()>, usize)> = None;
        let mut left = n;
        for (t, w) in &plan.order {
            let f = tasks[*t].take().unwrap();
            let p = plan.preempt.as_ref().filter(|p| p.task == *t);
            let resume = p.map(|p| {
                let (tx, rx) = channel();
                (p, tx, rx)
            });
            match resume {
                Some((p, tx, rx)) => {
                    chans[workers].send((*t, f, Some((p.at, rx)))).ok().expect("worker");
                    match mrx.recv().expect("worker") {
                        Msg::Suspended => {
                            sched::count_suspended();
                            parked = Some((tx, p.others));
                        }
                        Msg::Done(_) => left -= 1,
                    }
                }
                None => {
                    if let Some((tx, 0)) = &parked {
                        let _ = tx.send(());
                        parked = None;
                        let _ = mrx.recv().expect("worker");
                        left -= 1;
                    }
                    chans[*w].send((*t, f, None)).ok().expect("worker");
                    let mut need = 1;
                    while need > 0 {
                        match mrx.recv_timeout(Duration::from_millis(250)) {
                            Ok(_) => {
                                left -= 1;
                                need -= 1;
                            }
                            Err(RecvTimeoutError::Timeout) => {
                                // blocked on something the suspended task holds, or just slow
                                if let Some((tx, _)) = parked.take() {
                                    let _ = tx.send(());
                                    need += 1;
                                }
                            }
                            Err(e) => panic!("worker: {e}"),
                        }
                    }
                    if let Some((_, m)) = &mut parked {
                        *m = m.saturating_sub(1);
                    }
                }
            }
        }
        if let Some((tx, _)) = parked {
            let _ = tx.send(());
        }
        while left > 0 {
            let _ = mrx.recv().expect("worker");
            left -= 1;
        }
        drop(chans);
    });
    slots
        .into_inner()
        .unwrap()
        .into_iter()
        .map(|s| match s.unwrap() {
            Ok(v) => v,
            Err(e) => std::panic::resume_unwind(e),
        })
        .collect()
}

/// Marker so that trait-import lists of user code resolve; everything is implemented on `Par`.
pub trait ParallelIterator: Sized {
    type Item: Send;
}
pub trait IndexedParallelIterator: ParallelIterator {}
impl<'a, T: Send + 'a> ParallelIterator for Par<'a, T> {
    type Item = T;
}
impl<'a, T: Send + 'a> IndexedParallelIterator for Par<'a, T> {}

pub trait FromParallel<T>: Sized {
    fn from_items(v: Vec<T>) -> Self;
}
impl<T, C: FromIterator<T>> FromParallel<T> for C {
    fn from_items(v: Vec<T>) -> Self {
        v.into_iter().collect()
    }
}

impl<'a, T: Send + 'a> Par<'a, T> {
    fn from_items<I: IntoIterator<Item = T>>(it: I) -> Self {
        Par { tasks: it.into_iter().map(|x| Box::new(move || vec![x]) as Thunk<'a, T>).collect(), source: None }
    }
    fn repeatable<I: IntoIterator<Item = T> + Clone + 'a>(it: I) -> Self {
        let make = move || it.clone().into_iter().map(|x| Box::new(move || vec![x]) as Thunk<'a, T>).collect::<Vec<_>>();
        Par { tasks: make(), source: Some(Arc::new(make)) }
    }
    /// Transforms the list of tasks, now and whenever the iterator is cloned.
    fn via<U: Send + 'a>(self, f: impl Fn(Vec<Thunk<'a, T>>) -> Vec<Thunk<'a, U>> + 'a) -> Par<'a, U> {
        let f = Arc::new(f);
        let tasks = f(self.tasks);
        let source = self.source.map(|s| {
            let f = f.clone();
            Arc::new(move || f(s())) as Source<'a, U>
        });
        Par { tasks, source }
    }
    fn each<U: Send + 'a>(self, f: impl Fn(Vec<T>) -> Vec<U> + Send + Sync + 'a) -> Par<'a, U> {
        let f = Arc::new(f);
        self.via(move |tasks| {
            tasks
                .into_iter()
                .map(|t| {
                    let f = f.clone();
                    Box::new(move || f(t())) as Thunk<'a, U>
                })
                .collect()
        })
    }
    /// Tasks that one split would handle, merged into one.
    fn splits(self) -> Par<'a, Vec<T>> {
        let c = sched::chunk();
        self.via(move |tasks| {
            let mut out: Vec<Thunk<'a, Vec<T>>> = vec![];
            let mut it = tasks.into_iter().peekable();
            while it.peek().is_some() {
                let group: Vec<Thunk<'a, T>> = it.by_ref().take(c).collect();
                out.push(Box::new(move || vec![group.into_iter().flat_map(|t| t()).collect()]));
            }
            out
        })
    }
    pub fn map<U: Send + 'a, F: Fn(T) -> U + Sync + Send + 'a>(self, f: F) -> Par<'a, U> {
        self.each(move |v| v.into_iter().map(&f).collect())
    }
    pub fn map_init<S, U: Send + 'a, I: Fn() -> S + Sync + Send + 'a, F: Fn(&mut S, T) -> U + Sync + Send + 'a>(self, init: I, f: F) -> Par<'a, U> {
        self.splits().each(move |v| {
            let mut s = init();
            v.into_iter().flatten().map(|x| f(&mut s, x)).collect()
        })
    }
    pub fn map_with<S: Clone + Send + Sync + 'a, U: Send + 'a, F: Fn(&mut S, T) -> U + Sync + Send + 'a>(self, init: S, f: F) -> Par<'a, U> {
        self.map_init(move || init.clone(), f)
    }
    pub fn inspect<F: Fn(&T) + Sync + Send + 'a>(self, f: F) -> Par<'a, T> {
        self.map(move |x| {
            f(&x);
            x
        })
    }
    pub fn update<F: Fn(&mut T) + Sync + Send + 'a>(self, f: F) -> Par<'a, T> {
        self.map(move |mut x| {
            f(&mut x);
            x
        })
    }
    pub fn filter<F: Fn(&T) -> bool + Sync + Send + 'a>(self, f: F) -> Par<'a, T> {
        self.filter_map(move |x| if f(&x) { Some(x) } else { None })
    }
    pub fn filter_map<U: Send + 'a, F: Fn(T) -> Option<U> + Sync + Send + 'a>(self, f: F) -> Par<'a, U> {
        self.flat_map_iter(f)
    }
    pub fn flat_map_iter<U: Send + 'a, I: IntoIterator<Item = U>, F: Fn(T) -> I + Sync + Send + 'a>(self, f: F) -> Par<'a, U> {
        self.each(move |v| v.into_iter().flat_map(&f).collect())
    }
    pub fn flat_map<U: Send + 'a, I: IntoParallelIterator<'a, Item = U>, F: Fn(T) -> I + Sync + Send + 'a>(self, f: F) -> Par<'a, U> {
        self.each(move |v| v.into_iter().flat_map(|x| f(x).into_par_iter().tasks.into_iter().flat_map(|t| t()).collect::<Vec<_>>()).collect())
    }
    pub fn flatten<U: Send + 'a>(self) -> Par<'a, U>
    where
        T: IntoParallelIterator<'a, Item = U>,
    {
        self.flat_map(|x| x)
    }
    pub fn flatten_iter(self) -> Par<'a, T::Item>
    where
        T: IntoIterator,
        T::Item: Send + 'a,
    {
        self.flat_map_iter(|x| x)
    }
    pub fn enumerate(self) -> Par<'a, (usize, T)> {
        self.via(|tasks| {
            tasks
                .into_iter()
                .enumerate()
                .map(|(i, t)| Box::new(move || t().into_iter().map(|x| (i, x)).collect()) as Thunk<'a, (usize, T)>)
                .collect()
        })
    }
    pub fn zip<Z: IntoParallelIterator<'a>>(self, other: Z) -> Par<'a, (T, Z::Item)>
    where
        Z::Item: 'a,
    {
        let o = other.into_par_iter();
        let both = |a: Vec<Thunk<'a, T>>, b: Vec<Thunk<'a, Z::Item>>| -> Vec<Thunk<'a, (T, Z::Item)>> {
            a.into_iter().zip(b).map(|(a, b)| Box::new(move || a().into_iter().zip(b()).collect()) as Thunk<'a, (T, Z::Item)>).collect()
        };
        let source = match (self.source, o.source) {
            (Some(a), Some(b)) => Some(Arc::new(move || both(a(), b())) as Source<'a, (T, Z::Item)>),
            _ => None,
        };
        Par { tasks: both(self.tasks, o.tasks), source }
    }
    pub fn zip_eq<Z: IntoParallelIterator<'a>>(self, other: Z) -> Par<'a, (T, Z::Item)>
    where
        Z::Item: 'a,
    {
        let o = other.into_par_iter();
        assert_eq!(self.tasks.len(), o.tasks.len(), "iterators must have the same length");
        self.zip(o)
    }
    pub fn interleave<Z: IntoParallelIterator<'a, Item = T>>(self, other: Z) -> Par<'a, T> {
        let (mut a, mut b) = (self.tasks.into_iter(), other.into_par_iter().tasks.into_iter());
        let mut out = vec![];
        loop {
            match (a.next(), b.next()) {
                (None, None) => break,
                (x, y) => out.extend(x.into_iter().chain(y)),
            }
        }
        Par { tasks: out, source: None }
    }
    pub fn chain<Z: IntoParallelIterator<'a, Item = T>>(mut self, other: Z) -> Par<'a, T> {
        let o = other.into_par_iter();
        self.source = match (self.source, o.source) {
            (Some(a), Some(b)) => Some(Arc::new(move || a().into_iter().chain(b()).collect())),
            _ => None,
        };
        self.tasks.extend(o.tasks);
        self
    }
    pub fn rev(self) -> Self {
        self.via(|mut t| {
            t.reverse();
            t
        })
    }
    pub fn take(self, n: usize) -> Self {
        self.via(move |t| t.into_iter().take(n).collect())
    }
    pub fn skip(self, n: usize) -> Self {
        self.via(move |t| t.into_iter().skip(n).collect())
    }
    pub fn step_by(self, n: usize) -> Self {
        self.via(move |t| t.into_iter().step_by(n).collect())
    }
    pub fn chunks(self, n: usize) -> Par<'a, Vec<T>> {
        self.via(move |tasks| {
            let mut out: Vec<Thunk<'a, Vec<T>>> = vec![];
            let mut it = tasks.into_iter().peekable();
            while it.peek().is_some() {
                let group: Vec<Thunk<'a, T>> = it.by_ref().take(n).collect();
                out.push(Box::new(move || vec![group.into_iter().flat_map(|t| t()).collect()]));
            }
            out
        })
    }
    pub fn len(&self) -> usize {
        self.tasks.len()
    }
    pub fn with_min_len(self, _: usize) -> Self {
        self
    }
    pub fn with_max_len(self, _: usize) -> Self {
        self
    }
    fn items(self) -> Vec<T> {
        run(self.tasks).into_iter().flatten().collect()
    }
    pub fn collect<C: FromParallel<T>>(self) -> C {
        C::from_items(self.items())
    }
    pub fn collect_into_vec(self, v: &mut Vec<T>) {
        *v = self.items();
    }
    pub fn for_each<F: Fn(T) + Sync + Send + 'a>(self, f: F) {
        self.map(f).items();
    }
    pub fn for_each_init<S, I: Fn() -> S + Sync + Send + 'a, F: Fn(&mut S, T) + Sync + Send + 'a>(self, init: I, f: F) {
        self.map_init(init, f).items();
    }
    pub fn for_each_with<S: Clone + Send + Sync + 'a, F: Fn(&mut S, T) + Sync + Send + 'a>(self, init: S, f: F) {
        self.map_with(init, f).items();
    }
    pub fn try_for_each<E: Send + 'a, F: Fn(T) -> Result<(), E> + Sync + Send + 'a>(self, f: F) -> Result<(), E> {
        self.map(f).items().into_iter().collect()
    }
    pub fn count(self) -> usize {
        self.items().len()
    }
    pub fn sum<S: std::iter::Sum<T>>(self) -> S {
        self.items().into_iter().sum()
    }
    pub fn product<S: std::iter::Product<T>>(self) -> S {
        self.items().into_iter().product()
    }
    pub fn reduce<ID: Fn() -> T + Sync + Send + 'a, OP: Fn(T, T) -> T + Sync + Send + 'a>(self, id: ID, op: OP) -> T {
        let (id, op) = (Arc::new(id), Arc::new(op));
        let (i2, o2) = (id.clone(), op.clone());
        let parts = self.splits().each(move |v| vec![v.into_iter().flatten().fold(i2(), |a, b| o2(a, b))]).items();
        parts.into_iter().reduce(|a, b| op(a, b)).unwrap_or_else(|| id())
    }
    pub fn reduce_with<OP: Fn(T, T) -> T + Sync + Send + 'a>(self, op: OP) -> Option<T> {
        let op = Arc::new(op);
        let o2 = op.clone();
        let parts = self.splits().each(move |v| v.into_iter().flatten().reduce(|a, b| o2(a, b)).into_iter().collect()).items();
        parts.into_iter().reduce(|a, b| op(a, b))
    }
    pub fn fold<A: Send + 'a, ID: Fn() -> A + Sync + Send + 'a, OP: Fn(A, T) -> A + Sync + Send + 'a>(self, id: ID, op: OP) -> Par<'a, A> {
        self.splits().each(move |v| vec![v.into_iter().flatten().fold(id(), &op)])
    }
    pub fn fold_with<A: Clone + Send + Sync + 'a, OP: Fn(A, T) -> A + Sync + Send + 'a>(self, id: A, op: OP) -> Par<'a, A> {
        self.fold(move || id.clone(), op)
    }
    pub fn all<F: Fn(T) -> bool + Sync + Send + 'a>(self, f: F) -> bool {
        self.map(f).items().into_iter().all(|b| b)
    }
    pub fn any<F: Fn(T) -> bool + Sync + Send + 'a>(self, f: F) -> bool {
        self.map(f).items().into_iter().any(|b| b)
    }
    pub fn find_any<F: Fn(&T) -> bool + Sync + Send + 'a>(self, f: F) -> Option<T> {
        // any matching item may be returned: answer the one whose task ran first
        let found: Arc<Mutex<Vec<usize>>> = Arc::new(Mutex::new(vec![]));
        let fc = found.clone();
        let mut v: Vec<Option<T>> = self
            .enumerate()
            .map(move |(i, x)| {
                if f(&x) {
                    fc.lock().unwrap().push(i);
                }
                Some(x)
            })
            .items();
        let first = found.lock().unwrap().first().copied();
        first.and_then(|i| v[i].take())
    }
    pub fn find_map_any<U: Send + 'a, F: Fn(T) -> Option<U> + Sync + Send + 'a>(self, f: F) -> Option<U> {
        self.map(f).find_any(|x| x.is_some()).flatten()
    }
    pub fn position_any<F: Fn(T) -> bool + Sync + Send + 'a>(self, f: F) -> Option<usize> {
        self.map(f).enumerate().find_any(|(_, b)| *b).map(|(i, _)| i)
    }
    pub fn find_first<F: Fn(&T) -> bool + Sync + Send + 'a>(self, f: F) -> Option<T> {
        self.filter(f).items().into_iter().next()
    }
    pub fn find_last<F: Fn(&T) -> bool + Sync + Send + 'a>(self, f: F) -> Option<T> {
        self.filter(f).items().into_iter().last()
    }
    pub fn find_map_first<U: Send + 'a, F: Fn(T) -> Option<U> + Sync + Send + 'a>(self, f: F) -> Option<U> {
        self.filter_map(f).items().into_iter().next()
    }
    pub fn position_first<F: Fn(T) -> bool + Sync + Send + 'a>(self, f: F) -> Option<usize> {
        self.map(f).items().into_iter().position(|b| b)
    }
    pub fn partition<A: Default + Extend<T>, F: Fn(&T) -> bool>(self, f: F) -> (A, A) {
        let (mut a, mut b) = (A::default(), A::default());
        for x in self.items() {
            if f(&x) {
                a.extend([x])
            } else {
                b.extend([x])
            }
        }
        (a, b)
    }
    pub fn min(self) -> Option<T>
    where
        T: Ord,
    {
        self.items().into_iter().min()
    }
    pub fn max(self) -> Option<T>
    where
        T: Ord,
    {
        self.items().into_iter().max()
    }
    pub fn min_by_key<K: Ord, F: Fn(&T) -> K>(self, f: F) -> Option<T> {
        self.items().into_iter().min_by_key(f)
    }
    pub fn max_by_key<K: Ord, F: Fn(&T) -> K>(self, f: F) -> Option<T> {
        self.items().into_iter().max_by_key(f)
    }
}

impl<'a, A: Send + 'a, B: Send + 'a> Par<'a, (A, B)> {
    pub fn unzip<CA: FromIterator<A>, CB: FromIterator<B>>(self) -> (CA, CB) {
        let (a, b): (Vec<A>, Vec<B>) = self.items().into_iter().unzip();
        (a.into_iter().collect(), b.into_iter().collect())
    }
}
impl<'a, 'b: 'a, T: Clone + Send + Sync + 'b> Par<'a, &'b T> {
    pub fn cloned(self) -> Par<'a, T> {
        self.map(|x| x.clone())
    }
    pub fn copied(self) -> Par<'a, T>
    where
        T: Copy,
    {
        self.map(|x| *x)
    }
}

pub trait IntoParallelIterator<'a> {
    type Item: Send + 'a;
    fn into_par_iter(self) -> Par<'a, Self::Item>;
}
impl<'a, T: Send + 'a> IntoParallelIterator<'a> for Par<'a, T> {
    type Item = T;
    fn into_par_iter(self) -> Par<'a, T> {
        self
    }
}
impl<'a, T: Send + 'a> IntoParallelIterator<'a> for Vec<T> {
    type Item = T;
    fn into_par_iter(self) -> Par<'a, T> {
        Par::from_items(self)
    }
}
impl<'a, T: Send + 'a, const N: usize> IntoParallelIterator<'a> for [T; N] {
    type Item = T;
    fn into_par_iter(self) -> Par<'a, T> {
        Par::from_items(self)
    }
}
impl<'a, T: Send + 'a> IntoParallelIterator<'a> for Option<T> {
    type Item = T;
    fn into_par_iter(self) -> Par<'a, T> {
        Par::from_items(self)
    }
}
impl<'a, T: Sync + 'a> IntoParallelIterator<'a> for &'a Vec<T> {
    type Item = &'a T;
    fn into_par_iter(self) -> Par<'a, &'a T> {
        Par::repeatable(self.iter())
    }
}
impl<'a, T: Sync + 'a> IntoParallelIterator<'a> for &'a [T] {
    type Item = &'a T;
    fn into_par_iter(self) -> Par<'a, &'a T> {
        Par::repeatable(self.iter())
    }
}
impl<'a, T: Send + 'a> IntoParallelIterator<'a> for &'a mut Vec<T> {
    type Item = &'a mut T;
    fn into_par_iter(self) -> Par<'a, &'a mut T> {
        Par::from_items(self.iter_mut())
    }
}
impl<'a, T: Send + 'a> IntoParallelIterator<'a> for &'a mut [T] {
    type Item = &'a mut T;
    fn into_par_iter(self) -> Par<'a, &'a mut T> {
        Par::from_items(self.iter_mut())
    }
}
macro_rules! ranges { ($($t:ty),*) => { $(
    impl<'a> IntoParallelIterator<'a> for std::ops::Range<$t> {
        type Item = $t;
        fn into_par_iter(self) -> Par<'a, $t> { Par::repeatable(self) }
    }
    impl<'a> IntoParallelIterator<'a> for std::ops::RangeInclusive<$t> {
        type Item = $t;
        fn into_par_iter(self) -> Par<'a, $t> { Par::repeatable(self) }
    }
)* } }
ranges!(usize, u64, u32, u16, u8, i64, i32);

pub trait IntoParallelRefIterator<'a> {
    type Item: Send + 'a;
    fn par_iter(&'a self) -> Par<'a, Self::Item>;
}
impl<'a, T: Sync + 'a> IntoParallelRefIterator<'a> for [T] {
    type Item = &'a T;
    fn par_iter(&'a self) -> Par<'a, &'a T> {
        Par::repeatable(self.iter())
    }
}
impl<'a, T: Sync + 'a> IntoParallelRefIterator<'a> for Vec<T> {
    type Item = &'a T;
    fn par_iter(&'a self) -> Par<'a, &'a T> {
        Par::repeatable(self.iter())
    }
}
pub trait IntoParallelRefMutIterator<'a> {
    type Item: Send + 'a;
    fn par_iter_mut(&'a mut self) -> Par<'a, Self::Item>;
}
impl<'a, T: Send + 'a> IntoParallelRefMutIterator<'a> for [T] {
    type Item = &'a mut T;
    fn par_iter_mut(&'a mut self) -> Par<'a, &'a mut T> {
        Par::from_items(self.iter_mut())
    }
}
impl<'a, T: Send + 'a> IntoParallelRefMutIterator<'a> for Vec<T> {
    type Item = &'a mut T;
    fn par_iter_mut(&'a mut self) -> Par<'a, &'a mut T> {
        Par::from_items(self.iter_mut())
    }
}
pub trait ParallelSlice<T: Sync> {
    fn par_chunks(&self, n: usize) -> Par<'_, &[T]>;
    fn par_chunks_exact(&self, n: usize) -> Par<'_, &[T]>;
    fn par_windows(&self, n: usize) -> Par<'_, &[T]>;
}
impl<T: Sync> ParallelSlice<T> for [T] {
    fn par_chunks(&self, n: usize) -> Par<'_, &[T]> {
        Par::repeatable(self.chunks(n))
    }
    fn par_chunks_exact(&self, n: usize) -> Par<'_, &[T]> {
        Par::repeatable(self.chunks_exact(n))
    }
    fn par_windows(&self, n: usize) -> Par<'_, &[T]> {
        Par::repeatable(self.windows(n))
    }
}
pub trait ParallelSliceMut<T: Send> {
    fn par_chunks_mut(&mut self, n: usize) -> Par<'_, &mut [T]>;
    fn par_chunks_exact_mut(&mut self, n: usize) -> Par<'_, &mut [T]>;
    fn par_sort(&mut self)
    where
        T: Ord;
    fn par_sort_unstable(&mut self)
    where
        T: Ord;
    fn par_sort_by_key<K: Ord, F: Fn(&T) -> K>(&mut self, f: F);
    fn par_sort_unstable_by_key<K: Ord, F: Fn(&T) -> K>(&mut self, f: F);
    fn par_sort_by<F: Fn(&T, &T) -> std::cmp::Ordering>(&mut self, f: F);
}
impl<T: Send> ParallelSliceMut<T> for [T] {
    fn par_chunks_mut(&mut self, n: usize) -> Par<'_, &mut [T]> {
        Par::from_items(self.chunks_mut(n))
    }
    fn par_chunks_exact_mut(&mut self, n: usize) -> Par<'_, &mut [T]> {
        Par::from_items(self.chunks_exact_mut(n))
    }
    fn par_sort(&mut self)
    where
        T: Ord,
    {
        self.sort()
    }
    fn par_sort_unstable(&mut self)
    where
        T: Ord,
    {
        self.sort_unstable()
    }
    fn par_sort_by_key<K: Ord, F: Fn(&T) -> K>(&mut self, f: F) {
        self.sort_by_key(f)
    }
    fn par_sort_unstable_by_key<K: Ord, F: Fn(&T) -> K>(&mut self, f: F) {
        self.sort_unstable_by_key(f)
    }
    fn par_sort_by<F: Fn(&T, &T) -> std::cmp::Ordering>(&mut self, f: F) {
        self.sort_by(f)
    }
}
pub trait ParallelBridge: Iterator + Sized {
    fn par_bridge<'a>(self) -> Par<'a, Self::Item>
    where
        Self::Item: Send + 'a,
    {
        Par::from_items(self)
    }
}
impl<I: Iterator> ParallelBridge for I {}
pub trait ParallelExtend<T: Send> {
    fn par_extend<'a, I: IntoParallelIterator<'a, Item = T>>(&mut self, it: I)
    where
        T: 'a;
}
impl<T: Send> ParallelExtend<T> for Vec<T> {
    fn par_extend<'a, I: IntoParallelIterator<'a, Item = T>>(&mut self, it: I)
    where
        T: 'a,
    {
        self.extend(it.into_par_iter().items())
    }
}

pub fn join<A: FnOnce() -> RA + Send, B: FnOnce() -> RB + Send, RA: Send, RB: Send>(a: A, b: B) -> (RA, RB) {
    let ra = Mutex::new(None);
    let rb = Mutex::new(None);
    {
        let (pa, pb) = (&ra, &rb);
        let t: Vec<Thunk<'_, ()>> = vec![
            Box::new(move || {
                let v = a();
                *pa.lock().unwrap() = Some(v);
                vec![]
            }),
            Box::new(move || {
                let v = b();
                *pb.lock().unwrap() = Some(v);
                vec![]
            }),
        ];
        run(t);
    }
    (ra.into_inner().unwrap().unwrap(), rb.into_inner().unwrap().unwrap())
}
/// Tasks spawned in a scope run as one region when the scope's body has ended.
pub struct Scope<'s> {
    tasks: Mutex<Vec<Box<dyn FnOnce(&Scope<'s>) + Send + 's>>>,
}
impl<'s> Scope<'s> {
    pub fn spawn<F: FnOnce(&Scope<'s>) + Send + 's>(&self, f: F) {
        self.tasks.lock().unwrap().push(Box::new(f));
    }
}
pub fn scope<'s, OP: FnOnce(&Scope<'s>) -> R, R>(op: OP) -> R {
    let s = Scope { tasks: Mutex::new(vec![]) };
    let r = op(&s);
    loop {
        let batch = std::mem::take(&mut *s.tasks.lock().unwrap());
        if batch.is_empty() {
            return r;
        }
        let sr = &s;
        run(batch
            .into_iter()
            .map(|f| {
                Box::new(move || {
                    f(sr);
                    vec![()]
                }) as Thunk<'_, ()>
            })
            .collect());
    }
}
pub fn current_num_threads() -> usize {
    2
}
pub fn current_thread_index() -> Option<usize> {
    None
}

#[derive(Default)]
pub struct ThreadPoolBuilder;
pub struct ThreadPool;
impl ThreadPool {
    pub fn install<R, F: FnOnce() -> R>(&self, f: F) -> R {
        f()
    }
}
impl ThreadPoolBuilder {
    pub fn new() -> Self {
        Self
    }
    pub fn num_threads(self, _: usize) -> Self {
        self
    }
    pub fn build(self) -> Result<ThreadPool, String> {
        Ok(ThreadPool)
    }
    pub fn build_global(self) -> Result<(), String> {
        Ok(())
    }
}

pub mod prelude {
    pub use crate::{
        IndexedParallelIterator, IntoParallelIterator, IntoParallelRefIterator, IntoParallelRefMutIterator, ParallelBridge,
        ParallelExtend, ParallelIterator, ParallelSlice, ParallelSliceMut,
    };
}
pub mod iter {
    pub use crate::{
        IndexedParallelIterator, IntoParallelIterator, IntoParallelRefIterator, IntoParallelRefMutIterator, ParallelBridge,
        ParallelExtend, ParallelIterator,
    };
}
pub mod slice {
    pub use crate::{ParallelSlice, ParallelSliceMut};
}

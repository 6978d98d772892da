//! `async-executor` 1.4 API. Which runnable task is polled next is a seeded
//! choice of the simulator, every poll is a scheduling point.
use std::cell::RefCell;
use std::collections::VecDeque;
use std::fmt;
use std::future::Future;
use std::marker::PhantomData;
use std::panic::{RefUnwindSafe, UnwindSafe};
use std::rc::Rc;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Poll, Waker};

use async_task::Runnable;
use futures_lite::{future, pin};

pub use async_task::Task;

struct State {
    queue: Mutex<VecDeque<Runnable>>,
    wakers: Mutex<Vec<Waker>>,
    active: Mutex<Vec<(usize, Waker)>>,
    next: AtomicUsize,
}

// The locks are only taken in functions that are not generic (so that they are
// compiled here, without scheduling points) and inside of the simulator, so that
// nobody is ever stopped while holding one.
impl State {
    #[inline(never)]
    fn push(&self, r: Runnable) {
        let _k = simrt::kenter();
        self.queue.lock().unwrap().push_back(r);
    }
    #[inline(never)]
    fn pop_front(&self) -> Option<Runnable> {
        let _k = simrt::kenter();
        self.queue.lock().unwrap().pop_front()
    }
    #[inline(never)]
    fn started(&self, idx: usize, w: Waker) {
        let _k = simrt::kenter();
        self.active.lock().unwrap().push((idx, w));
        simrt::count_tasks(1);
    }
    #[inline(never)]
    fn ended(&self, idx: usize) -> Option<(usize, Waker)> {
        let _k = simrt::kenter();
        let mut a = self.active.lock().unwrap();
        simrt::count_tasks(-1);
        let i = a.iter().position(|x| x.0 == idx);
        i.map(|i| a.remove(i))
    }
    #[inline(never)]
    fn end_all(&self) -> Vec<(usize, Waker)> {
        let _k = simrt::kenter();
        self.active.lock().unwrap().drain(..).collect()
    }
    #[inline(never)]
    fn none_active(&self) -> bool {
        let _k = simrt::kenter();
        self.active.lock().unwrap().is_empty()
    }
    #[inline(never)]
    fn waiting(&self) -> Vec<Waker> {
        let _k = simrt::kenter();
        self.wakers.lock().unwrap().drain(..).collect()
    }
    #[inline(never)]
    fn notify(&self) {
        let ws = self.waiting();
        for w in ws {
            w.wake();
        }
    }
    #[inline(never)]
    fn pop(&self) -> Option<Runnable> {
        let _k = simrt::kenter();
        let mut q = self.queue.lock().unwrap();
        if q.is_empty() {
            return None;
        }
        let i = simrt::choose_task(q.len());
        q.remove(i)
    }
    #[inline(never)]
    fn register(&self, w: &Waker) {
        let _k = simrt::kenter();
        let mut ws = self.wakers.lock().unwrap();
        if !ws.iter().any(|x| x.will_wake(w)) {
            ws.push(w.clone());
        }
    }
}

pub struct Executor<'a> {
    state: Arc<State>,
    _marker: PhantomData<std::cell::UnsafeCell<&'a ()>>,
}

unsafe impl Send for Executor<'_> {}
unsafe impl Sync for Executor<'_> {}
impl UnwindSafe for Executor<'_> {}
impl RefUnwindSafe for Executor<'_> {}

impl fmt::Debug for Executor<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Executor")
    }
}

struct Guard(Arc<State>, usize);
impl Drop for Guard {
    fn drop(&mut self) {
        drop(self.0.ended(self.1));
    }
}

impl<'a> Executor<'a> {
    pub fn new() -> Executor<'a> {
        Executor {
            state: Arc::new(State {
                queue: Mutex::new(VecDeque::new()),
                wakers: Mutex::new(Vec::new()),
                active: Mutex::new(Vec::new()),
                next: AtomicUsize::new(0),
            }),
            _marker: PhantomData,
        }
    }
    pub fn is_empty(&self) -> bool {
        self.state.none_active()
    }
    fn spawn_inner<T: 'a>(&self, future: impl Future<Output = T> + 'a) -> Task<T> {
        let idx = self.state.next.fetch_add(1, Ordering::SeqCst);
        let guard = Guard(self.state.clone(), idx);
        let future = async move {
            let _guard = guard;
            future.await
        };
        let st = self.state.clone();
        let schedule = move |r: Runnable| {
            st.push(r);
            st.notify();
        };
        let (runnable, task) = unsafe { async_task::spawn_unchecked(future, schedule) };
        self.state.started(idx, runnable.waker());
        runnable.schedule();
        task
    }
    pub fn spawn<T: Send + 'a>(&self, future: impl Future<Output = T> + Send + 'a) -> Task<T> {
        self.spawn_inner(future)
    }
    pub fn try_tick(&self) -> bool {
        match self.state.pop() {
            Some(r) => {
                simrt::yield_point();
                r.run();
                true
            }
            None => false,
        }
    }
    pub async fn tick(&self) {
        let r = future::poll_fn(|cx| match self.state.pop() {
            Some(r) => Poll::Ready(r),
            None => {
                self.state.register(cx.waker());
                Poll::Pending
            }
        })
        .await;
        simrt::yield_point();
        r.run();
    }
    pub async fn run<T>(&self, future: impl Future<Output = T>) -> T {
        pin!(future);
        future::poll_fn(|cx| loop {
            self.state.register(cx.waker());
            simrt::yield_point();
            if let Poll::Ready(v) = future.as_mut().poll(cx) {
                return Poll::Ready(v);
            }
            let burst = simrt::task_burst();
            let mut ran = false;
            for _ in 0..burst {
                match self.state.pop() {
                    Some(r) => {
                        simrt::yield_point();
                        r.run();
                        ran = true;
                    }
                    None => break,
                }
            }
            if !ran {
                return Poll::Pending;
            }
            // like the real runner, now and then go back to the outer loop
            if simrt::task_breath() {
                cx.waker().wake_by_ref();
                return Poll::Pending;
            }
        })
        .await
    }
}

impl Drop for Executor<'_> {
    fn drop(&mut self) {
        for (_, w) in self.state.end_all() {
            w.wake();
        }
        while self.state.pop_front().is_some() {}
    }
}

impl<'a> Default for Executor<'a> {
    fn default() -> Executor<'a> {
        Executor::new()
    }
}

pub struct LocalExecutor<'a> {
    inner: Executor<'a>,
    _marker: PhantomData<(Rc<()>, RefCell<()>)>,
}

impl UnwindSafe for LocalExecutor<'_> {}
impl RefUnwindSafe for LocalExecutor<'_> {}

impl fmt::Debug for LocalExecutor<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("LocalExecutor")
    }
}

impl<'a> LocalExecutor<'a> {
    pub fn new() -> LocalExecutor<'a> {
        LocalExecutor { inner: Executor::new(), _marker: PhantomData }
    }
    pub fn is_empty(&self) -> bool {
        self.inner.is_empty()
    }
    pub fn spawn<T: 'a>(&self, future: impl Future<Output = T> + 'a) -> Task<T> {
        self.inner.spawn_inner(future)
    }
    pub fn try_tick(&self) -> bool {
        self.inner.try_tick()
    }
    pub async fn tick(&self) {
        self.inner.tick().await
    }
    pub async fn run<T>(&self, future: impl Future<Output = T>) -> T {
        self.inner.run(future).await
    }
}

impl<'a> Default for LocalExecutor<'a> {
    fn default() -> LocalExecutor<'a> {
        LocalExecutor::new()
    }
}

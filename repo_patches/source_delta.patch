From cbbab996bf5ad507a1d6666a548267cf7aa52f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:07 +0000
Subject: [PATCH 01/13] hook: deterministic cooperative scheduler shim and DRAM
 constructors, under cfg(dam_verif_sched)/cfg(dam_verif)

---
 src/datastructures/time.rs |    2 +
 src/shim/mod.rs            |    9 +-
 src/shim/verif_sched.rs    | 1006 ++++++++++++++++++++++++++++++++++++
 src/templates/dram.rs      |   47 ++
 src/view/basic.rs          |    2 +
 5 files changed, 1065 insertions(+), 1 deletion(-)
 create mode 100644 src/shim/verif_sched.rs

diff --git a/src/datastructures/time.rs b/src/datastructures/time.rs
index c9f4f13..9981fdf 100644
--- a/src/datastructures/time.rs
+++ b/src/datastructures/time.rs
@@ -1,3 +1,5 @@
+#[cfg(dam_verif_sched)]
+use crate::shim::std_shadow as std;
 use std::{
     cmp::Ordering,
     sync::atomic::{AtomicBool, AtomicU64},
diff --git a/src/shim/mod.rs b/src/shim/mod.rs
index f15581b..67c4a5c 100644
--- a/src/shim/mod.rs
+++ b/src/shim/mod.rs
@@ -1,7 +1,14 @@
 //! A shim module for users to switch between os-threads and coroutines based on may.
 
 cfg_if::cfg_if! {
-    if #[cfg(feature = "os-threads")] {
+    if #[cfg(dam_verif_sched)] {
+        // Verification only: threads under a cooperative, seeded scheduler.
+        mod verif_sched;
+
+        pub use verif_sched::*;
+
+    }
+    else if #[cfg(feature = "os-threads")] {
         mod os_threads;
 
         pub use os_threads::*;
diff --git a/src/shim/verif_sched.rs b/src/shim/verif_sched.rs
new file mode 100644
index 0000000..6872a06
--- /dev/null
+++ b/src/shim/verif_sched.rs
@@ -0,0 +1,1006 @@
+//! Verification-only shim, compiled only under `--cfg dam_verif_sched`.
+//!
+//! It offers the same surface as the OS-thread shim, but every context thread runs under a
+//! cooperative scheduler which lets exactly one of them run at a time and chooses, at every
+//! synchronization operation, which one goes on. The choice is a pure function of a seed, so a
+//! schedule can be replayed, and a simulation in which no thread can go on is reported as a
+//! deadlock instead of hanging.
+#![allow(missing_docs, deprecated, clippy::missing_safety_doc, clippy::new_without_default)]
+
+use ::std::any::Any;
+use ::std::cell::RefCell;
+use ::std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
+use ::std::sync::{Arc, Condvar as StdCondvar, Mutex as StdMutex, MutexGuard as StdMutexGuard};
+
+// ---------------------------------------------------------------------------------------------
+// The scheduler
+// ---------------------------------------------------------------------------------------------
+
+/// How the next thread is chosen.
+#[derive(Debug, Clone)]
+pub enum Policy {
+    /// At every step, go over to a uniformly chosen thread with a probability of `switch` / 256.
+    RandomWalk { switch: u32 },
+    /// Probabilistic concurrency testing: random fixed priorities, with the running thread
+    /// dropped below all others at each of the given steps.
+    Priorities { change_points: Vec<u64> },
+}
+
+/// What is fixed about a controlled run.
+#[derive(Debug, Clone)]
+pub struct Config {
+    pub seed: u64,
+    pub policy: Policy,
+    pub max_steps: u64,
+    /// Chance, out of 65536 per step, of waking a parked thread for no reason.
+    pub spurious: u32,
+}
+
+#[derive(Debug, Clone, PartialEq, Eq)]
+pub enum Outcome {
+    Completed,
+    /// No thread could go on; for each unfinished thread its name and the operation it was in.
+    Deadlock(Vec<(String, &'static str)>),
+    StepLimit(Vec<(String, &'static str)>),
+}
+
+#[derive(Debug, Clone)]
+pub struct Report {
+    pub outcome: Outcome,
+    pub steps: u64,
+    pub switches: u64,
+    /// A hash of every scheduling decision taken.
+    pub schedule: u64,
+    pub threads: usize,
+}
+
+/// The payload of the panics which take down the threads of an abandoned run.
+#[derive(Debug, Clone, Copy)]
+pub struct Teardown;
+
+#[derive(Debug, Clone, Copy, PartialEq, Eq)]
+enum Key {
+    Park(usize),
+    Join(usize),
+    Chan(usize),
+}
+
+#[derive(Debug, Clone, Copy, PartialEq, Eq)]
+enum Status {
+    Runnable,
+    Blocked(Key),
+    Finished,
+}
+
+struct Th {
+    status: Status,
+    parent: usize,
+    token: bool,
+    cv: Arc<StdCondvar>,
+    prio: i64,
+    name: String,
+    what: &'static str,
+}
+
+struct State {
+    cfg: Config,
+    threads: Vec<Th>,
+    current: usize,
+    over: Option<Outcome>,
+    steps: u64,
+    switches: u64,
+    hash: u64,
+    rng: u64,
+    low: i64,
+    streak: u64,
+}
+
+struct Sched {
+    st: StdMutex<State>,
+}
+
+thread_local! {
+    static CTX: RefCell<Option<(Arc<Sched>, usize)>> = const { RefCell::new(None) };
+}
+
+fn ctx() -> Option<(Arc<Sched>, usize)> {
+    CTX.try_with(|c| c.borrow().clone()).ok().flatten()
+}
+
+impl State {
+    fn next(&mut self) -> u64 {
+        self.rng = self.rng.wrapping_add(0x9E37_79B9_7F4A_7C15);
+        let mut z = self.rng;
+        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
+        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
+        z ^ (z >> 31)
+    }
+
+    fn unfinished(&self) -> Vec<(String, &'static str)> {
+        self.threads
+            .iter()
+            .filter(|t| t.status != Status::Finished)
+            .map(|t| (t.name.clone(), t.what))
+            .collect()
+    }
+
+    fn end(&mut self, outcome: Outcome) {
+        if self.over.is_none() {
+            self.over = Some(outcome);
+        }
+        self.threads.iter().for_each(|t| t.cv.notify_all());
+    }
+
+    /// Chooses who goes on. None means that nobody can.
+    fn pick(&mut self, me: usize, yielding: bool) -> Option<usize> {
+        if self.cfg.spurious > 0 && (self.next() & 0xFFFF) < self.cfg.spurious as u64 {
+            let parked: Vec<usize> = (0..self.threads.len())
+                .filter(|i| self.threads[*i].status == Status::Blocked(Key::Park(*i)))
+                .collect();
+            // Only when somebody else could go on anyway: a spurious wakeup must not hide a deadlock.
+            if !parked.is_empty() && self.threads.iter().any(|t| t.status == Status::Runnable) {
+                let ind = (self.next() % parked.len() as u64) as usize;
+                self.threads[parked[ind]].status = Status::Runnable;
+            }
+        }
+        let mut runnable: Vec<usize> = (0..self.threads.len())
+            .filter(|i| self.threads[*i].status == Status::Runnable)
+            .collect();
+        if runnable.is_empty() {
+            return None;
+        }
+        let me_runnable = self.threads[me].status == Status::Runnable;
+        if runnable.len() == 1 {
+            return Some(runnable[0]);
+        }
+        let chosen = match &self.cfg.policy {
+            Policy::RandomWalk { switch } => {
+                let switch = *switch as u64;
+                if me_runnable && !yielding && (self.next() & 0xFF) >= switch {
+                    me
+                } else {
+                    if yielding {
+                        runnable.retain(|x| *x != me);
+                    }
+                    let ind = (self.next() % runnable.len() as u64) as usize;
+                    runnable[ind]
+                }
+            }
+            Policy::Priorities { change_points } => {
+                let demote = yielding || self.streak > 4000 || change_points.contains(&self.steps);
+                if demote {
+                    self.low -= 1;
+                    self.threads[me].prio = self.low;
+                }
+                *runnable
+                    .iter()
+                    .max_by_key(|i| self.threads[**i].prio)
+                    .unwrap()
+            }
+        };
+        Some(chosen)
+    }
+
+    fn go_to(&mut self, me: usize, to: usize) {
+        self.hash = (self.hash ^ (to as u64 + 1)).wrapping_mul(0x0000_0100_0000_01B3);
+        if to != me {
+            self.switches += 1;
+            self.streak = 0;
+            self.current = to;
+            self.threads[to].cv.notify_all();
+        } else {
+            self.streak += 1;
+        }
+    }
+
+    fn wake(&mut self, key: Key) {
+        self.threads.iter_mut().for_each(|t| {
+            if t.status == Status::Blocked(key) {
+                t.status = Status::Runnable;
+            }
+        });
+    }
+}
+
+impl Sched {
+    fn lock(&self) -> StdMutexGuard<'_, State> {
+        self.st.lock().unwrap_or_else(|e| e.into_inner())
+    }
+
+    fn bail(&self) {
+        if !::std::thread::panicking() {
+            ::std::panic::panic_any(Teardown);
+        }
+    }
+
+    fn await_turn(&self, me: usize, mut st: StdMutexGuard<'_, State>) {
+        let cv = st.threads[me].cv.clone();
+        while st.current != me && st.over.is_none() {
+            st = cv.wait(st).unwrap_or_else(|e| e.into_inner());
+        }
+        let over = st.over.is_some();
+        drop(st);
+        if over {
+            self.bail();
+        }
+    }
+
+    fn step(&self, me: usize, what: &'static str, yielding: bool) {
+        let mut st = self.lock();
+        if st.over.is_some() {
+            drop(st);
+            self.bail();
+            return;
+        }
+        st.threads[me].what = what;
+        st.steps += 1;
+        if st.steps > st.cfg.max_steps {
+            let who = st.unfinished();
+            st.end(Outcome::StepLimit(who));
+            drop(st);
+            self.bail();
+            return;
+        }
+        let to = st.pick(me, yielding).unwrap_or(me);
+        st.go_to(me, to);
+        if to != me {
+            self.await_turn(me, st);
+        }
+    }
+
+    /// Gives up the turn until somebody wakes the key.
+    fn block(&self, me: usize, key: Key, what: &'static str) {
+        let mut st = self.lock();
+        if st.over.is_some() {
+            drop(st);
+            self.bail();
+            return;
+        }
+        st.threads[me].what = what;
+        st.threads[me].status = Status::Blocked(key);
+        match st.pick(me, false) {
+            Some(to) => {
+                st.go_to(me, to);
+                self.await_turn(me, st);
+            }
+            None => {
+                let who = st.unfinished();
+                st.end(Outcome::Deadlock(who));
+                drop(st);
+                self.bail();
+            }
+        }
+    }
+
+    fn finish(&self, me: usize) {
+        let mut st = self.lock();
+        st.threads[me].status = Status::Finished;
+        let parent = st.threads[me].parent;
+        st.wake(Key::Join(parent));
+        if st.over.is_some() {
+            return;
+        }
+        match st.pick(me, false) {
+            Some(to) => st.go_to(me, to),
+            None => {
+                if st.threads.iter().any(|t| t.status != Status::Finished) {
+                    let who = st.unfinished();
+                    st.end(Outcome::Deadlock(who));
+                }
+            }
+        }
+    }
+
+    fn is_over(&self) -> bool {
+        self.lock().over.is_some()
+    }
+}
+
+/// Runs a closure, and all of the threads which it spawns through this shim, under the scheduler.
+pub fn control<R>(cfg: Config, f: impl FnOnce() -> R) -> (Result<R, Box<dyn Any + Send>>, Report) {
+    let seed = cfg.seed;
+    let sched = Arc::new(Sched {
+        st: StdMutex::new(State {
+            cfg,
+            threads: vec![Th {
+                status: Status::Runnable,
+                parent: 0,
+                token: false,
+                cv: Arc::new(StdCondvar::new()),
+                prio: i64::MAX,
+                name: "root".to_string(),
+                what: "start",
+            }],
+            current: 0,
+            over: None,
+            steps: 0,
+            switches: 0,
+            hash: 0xcbf2_9ce4_8422_2325,
+            rng: seed ^ 0x5DEE_CE66_D154_21AB,
+            low: 0,
+            streak: 0,
+        }),
+    });
+    let previous = CTX.with(|c| c.borrow_mut().replace((sched.clone(), 0)));
+    let result = catch_unwind(AssertUnwindSafe(f));
+    CTX.with(|c| *c.borrow_mut() = previous);
+    let st = sched.lock();
+    let report = Report {
+        outcome: st.over.clone().unwrap_or(Outcome::Completed),
+        steps: st.steps,
+        switches: st.switches,
+        schedule: st.hash,
+        threads: st.threads.len(),
+    };
+    drop(st);
+    (result, report)
+}
+
+/// A place where another thread may be given the turn.
+pub fn point(what: &'static str) {
+    if let Some((s, me)) = ctx() {
+        s.step(me, what, false);
+    }
+}
+
+fn spin(what: &'static str) {
+    match ctx() {
+        Some((s, me)) => {
+            if s.is_over() {
+                ::std::thread::yield_now();
+            }
+            s.step(me, what, true)
+        }
+        None => ::std::thread::yield_now(),
+    }
+}
+
+fn block_on(key: Key, what: &'static str) {
+    match ctx() {
+        Some((s, me)) => {
+            s.block(me, key, what);
+            if s.is_over() {
+                ::std::thread::yield_now();
+            }
+        }
+        None => ::std::thread::yield_now(),
+    }
+}
+
+fn wake(key: Key) {
+    if let Some((s, _)) = ctx() {
+        s.lock().wake(key);
+    }
+}
+
+// ---------------------------------------------------------------------------------------------
+// Threads
+// ---------------------------------------------------------------------------------------------
+
+pub fn yield_now() {
+    spin("yield_now");
+}
+
+pub fn sleep(_: ::std::time::Duration) {
+    spin("sleep");
+}
+
+#[derive(Clone)]
+pub struct Thread {
+    inner: Option<(Arc<Sched>, usize)>,
+    native: ::std::thread::Thread,
+}
+
+impl ::std::fmt::Debug for Thread {
+    fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
+        write!(f, "Thread({:?})", self.inner.as_ref().map(|x| x.1))
+    }
+}
+
+impl Thread {
+    pub fn unpark(&self) {
+        match &self.inner {
+            None => self.native.unpark(),
+            Some((s, id)) => {
+                point("unpark");
+                let mut st = s.lock();
+                st.threads[*id].token = true;
+                st.wake(Key::Park(*id));
+            }
+        }
+    }
+}
+
+pub fn current() -> Thread {
+    Thread {
+        inner: ctx(),
+        native: ::std::thread::current(),
+    }
+}
+
+pub fn park() {
+    match ctx() {
+        None => ::std::thread::park(),
+        Some((s, me)) => {
+            point("park");
+            let token = ::std::mem::take(&mut s.lock().threads[me].token);
+            if !token {
+                s.block(me, Key::Park(me), "park");
+                s.lock().threads[me].token = false;
+            }
+        }
+    }
+}
+
+pub fn scope<'env, F, T>(f: F) -> T
+where
+    F: for<'scope> FnOnce(&'scope ::std::thread::Scope<'scope, 'env>) -> T,
+{
+    ::std::thread::scope(|s| {
+        let result = catch_unwind(AssertUnwindSafe(|| f(s)));
+        if let Some((sched, me)) = ctx() {
+            let joined = catch_unwind(AssertUnwindSafe(|| loop {
+                let st = sched.lock();
+                let pending = st
+                    .threads
+                    .iter()
+                    .enumerate()
+                    .any(|(i, t)| i != me && t.parent == me && t.status != Status::Finished);
+                let over = st.over.is_some();
+                drop(st);
+                if !pending || over {
+                    break;
+                }
+                sched.block(me, Key::Join(me), "join");
+            }));
+            if let (Ok(_), Err(e)) = (&result, joined) {
+                resume_unwind(e);
+            }
+        }
+        match result {
+            Ok(v) => v,
+            Err(e) => resume_unwind(e),
+        }
+    })
+}
+
+#[derive(Debug, Default, Clone)]
+pub struct Builder {
+    name: Option<String>,
+}
+
+impl Builder {
+    pub fn name(mut self, name: impl Into<String>) -> Self {
+        self.name = Some(name.into());
+        self
+    }
+
+    pub fn spawn_controlled<'scope, 'env, F, T>(
+        self,
+        scope: &'scope ::std::thread::Scope<'scope, 'env>,
+        f: F,
+    ) -> Result<(), ()>
+    where
+        F: FnOnce() -> T + Send + 'scope,
+        T: Send + 'scope,
+    {
+        match ctx() {
+            None => {
+                scope.spawn(f);
+            }
+            Some((sched, parent)) => {
+                let me = {
+                    let mut st = sched.lock();
+                    let prio = (st.next() >> 33) as i64 + 1;
+                    let id = st.threads.len();
+                    st.threads.push(Th {
+                        status: Status::Runnable,
+                        parent,
+                        token: false,
+                        cv: Arc::new(StdCondvar::new()),
+                        prio,
+                        name: self.name.unwrap_or_else(|| format!("thread{id}")),
+                        what: "spawned",
+                    });
+                    id
+                };
+                scope.spawn(move || {
+                    CTX.with(|c| *c.borrow_mut() = Some((sched.clone(), me)));
+                    let result = catch_unwind(AssertUnwindSafe(|| {
+                        let st = sched.lock();
+                        sched.await_turn(me, st);
+                        f()
+                    }));
+                    sched.finish(me);
+                    CTX.with(|c| *c.borrow_mut() = None);
+                    match result {
+                        Ok(v) => v,
+                        Err(e) => resume_unwind(e),
+                    }
+                });
+                point("spawn");
+            }
+        }
+        Ok(())
+    }
+}
+
+#[derive(Debug, Default, Clone, Copy)]
+pub enum RunMode {
+    #[default]
+    Simple,
+    FIFO,
+}
+
+pub fn make_builder(_: super::RunMode) -> Builder {
+    Builder::default()
+}
+
+#[macro_export]
+macro_rules! spawn {
+    ($scope: expr, $builder: expr, $f: expr) => {
+        ($builder).spawn_controlled($scope, $f)
+    };
+
+    ($scope: expr, $f: expr) => {
+        $crate::shim::Builder::default().spawn_controlled($scope, $f)
+    };
+}
+
+pub use spawn;
+
+// ---------------------------------------------------------------------------------------------
+// Locks
+// ---------------------------------------------------------------------------------------------
+
+pub use ::std::sync::Condvar;
+
+#[derive(Debug, Default)]
+pub struct Mutex<T: ?Sized> {
+    under: StdMutex<T>,
+}
+
+impl<T> Mutex<T> {
+    pub const fn new(value: T) -> Self {
+        Self {
+            under: StdMutex::new(value),
+        }
+    }
+}
+
+impl<T: ?Sized> Mutex<T> {
+    pub fn lock(&self) -> ::std::sync::LockResult<StdMutexGuard<'_, T>> {
+        point("mutex.lock");
+        loop {
+            match self.under.try_lock() {
+                Ok(g) => return Ok(g),
+                Err(::std::sync::TryLockError::Poisoned(e)) => return Err(e),
+                Err(::std::sync::TryLockError::WouldBlock) => spin("mutex.lock"),
+            }
+        }
+    }
+
+    pub fn try_lock(&self) -> ::std::sync::TryLockResult<StdMutexGuard<'_, T>> {
+        point("mutex.try_lock");
+        self.under.try_lock()
+    }
+}
+
+#[derive(Debug, Default)]
+pub struct RwLock<T: ?Sized> {
+    under: ::std::sync::RwLock<T>,
+}
+
+impl<T> RwLock<T> {
+    pub const fn new(value: T) -> Self {
+        Self {
+            under: ::std::sync::RwLock::new(value),
+        }
+    }
+}
+
+impl<T: ?Sized> RwLock<T> {
+    pub fn read(&self) -> ::std::sync::LockResult<::std::sync::RwLockReadGuard<'_, T>> {
+        point("rwlock.read");
+        loop {
+            match self.under.try_read() {
+                Ok(g) => return Ok(g),
+                Err(::std::sync::TryLockError::Poisoned(e)) => return Err(e),
+                Err(::std::sync::TryLockError::WouldBlock) => spin("rwlock.read"),
+            }
+        }
+    }
+
+    pub fn write(&self) -> ::std::sync::LockResult<::std::sync::RwLockWriteGuard<'_, T>> {
+        point("rwlock.write");
+        loop {
+            match self.under.try_write() {
+                Ok(g) => return Ok(g),
+                Err(::std::sync::TryLockError::Poisoned(e)) => return Err(e),
+                Err(::std::sync::TryLockError::WouldBlock) => spin("rwlock.write"),
+            }
+        }
+    }
+}
+
+/// Stands in for the crate of the same name.
+pub mod parking_lot {
+    use super::{point, spin};
+
+    fn ok<G>(r: ::std::sync::TryLockResult<G>) -> Option<G> {
+        match r {
+            Ok(g) => Some(g),
+            Err(::std::sync::TryLockError::Poisoned(e)) => Some(e.into_inner()),
+            Err(::std::sync::TryLockError::WouldBlock) => None,
+        }
+    }
+
+    #[derive(Debug, Default)]
+    pub struct Mutex<T: ?Sized> {
+        under: ::std::sync::Mutex<T>,
+    }
+
+    pub type MutexGuard<'a, T> = ::std::sync::MutexGuard<'a, T>;
+
+    impl<T> Mutex<T> {
+        pub const fn new(value: T) -> Self {
+            Self {
+                under: ::std::sync::Mutex::new(value),
+            }
+        }
+    }
+
+    impl<T: ?Sized> Mutex<T> {
+        pub fn lock(&self) -> MutexGuard<'_, T> {
+            point("parking_lot.lock");
+            loop {
+                match ok(self.under.try_lock()) {
+                    Some(g) => return g,
+                    None => spin("parking_lot.lock"),
+                }
+            }
+        }
+
+        pub fn try_lock(&self) -> Option<MutexGuard<'_, T>> {
+            point("parking_lot.try_lock");
+            let got = ok(self.under.try_lock());
+            if got.is_none() {
+                // The callers retry at once: let the holder go on.
+                spin("parking_lot.try_lock");
+            }
+            got
+        }
+    }
+
+    #[derive(Debug, Default)]
+    pub struct RwLock<T: ?Sized> {
+        under: ::std::sync::RwLock<T>,
+    }
+
+    impl<T> RwLock<T> {
+        pub const fn new(value: T) -> Self {
+            Self {
+                under: ::std::sync::RwLock::new(value),
+            }
+        }
+    }
+
+    impl<T: ?Sized> RwLock<T> {
+        pub fn read(&self) -> ::std::sync::RwLockReadGuard<'_, T> {
+            point("parking_lot.read");
+            loop {
+                match ok(self.under.try_read()) {
+                    Some(g) => return g,
+                    None => spin("parking_lot.read"),
+                }
+            }
+        }
+
+        pub fn write(&self) -> ::std::sync::RwLockWriteGuard<'_, T> {
+            point("parking_lot.write");
+            loop {
+                match ok(self.under.try_write()) {
+                    Some(g) => return g,
+                    None => spin("parking_lot.write"),
+                }
+            }
+        }
+    }
+}
+
+// ---------------------------------------------------------------------------------------------
+// Channels
+// ---------------------------------------------------------------------------------------------
+
+pub mod channel {
+    use super::{block_on, point, wake, Arc, Key, StdMutex, StdMutexGuard};
+    use ::std::collections::VecDeque;
+
+    pub use ::crossbeam::channel::{RecvError, SendError, TryRecvError, TrySendError};
+
+    struct Queue<T> {
+        items: VecDeque<T>,
+        capacity: Option<usize>,
+        senders: usize,
+        receivers: usize,
+    }
+
+    struct Chan<T> {
+        q: StdMutex<Queue<T>>,
+    }
+
+    impl<T> Chan<T> {
+        fn lock(&self) -> StdMutexGuard<'_, Queue<T>> {
+            self.q.lock().unwrap_or_else(|e| e.into_inner())
+        }
+    }
+
+    fn key<T>(chan: &Arc<Chan<T>>) -> Key {
+        Key::Chan(Arc::as_ptr(chan) as *const () as usize)
+    }
+
+    pub struct Sender<T> {
+        chan: Arc<Chan<T>>,
+    }
+
+    pub struct Receiver<T> {
+        chan: Arc<Chan<T>>,
+    }
+
+    fn make<T>(capacity: Option<usize>) -> (Sender<T>, Receiver<T>) {
+        let chan = Arc::new(Chan {
+            q: StdMutex::new(Queue {
+                items: VecDeque::new(),
+                capacity,
+                senders: 1,
+                receivers: 1,
+            }),
+        });
+        (Sender { chan: chan.clone() }, Receiver { chan })
+    }
+
+    pub fn unbounded<T>() -> (Sender<T>, Receiver<T>) {
+        make(None)
+    }
+
+    pub fn bounded<T>(capacity: usize) -> (Sender<T>, Receiver<T>) {
+        make(Some(capacity))
+    }
+
+    impl<T> Sender<T> {
+        pub fn try_send(&self, value: T) -> Result<(), TrySendError<T>> {
+            point("channel.send");
+            let mut q = self.chan.lock();
+            if q.receivers == 0 {
+                return Err(TrySendError::Disconnected(value));
+            }
+            if q.capacity.is_some_and(|cap| q.items.len() >= cap) {
+                return Err(TrySendError::Full(value));
+            }
+            q.items.push_back(value);
+            drop(q);
+            wake(key(&self.chan));
+            Ok(())
+        }
+
+        pub fn send(&self, mut value: T) -> Result<(), SendError<T>> {
+            loop {
+                match self.try_send(value) {
+                    Ok(()) => return Ok(()),
+                    Err(TrySendError::Disconnected(v)) => return Err(SendError(v)),
+                    Err(TrySendError::Full(v)) => {
+                        value = v;
+                        block_on(key(&self.chan), "channel.send");
+                    }
+                }
+            }
+        }
+
+        pub fn len(&self) -> usize {
+            point("channel.len");
+            self.chan.lock().items.len()
+        }
+
+        pub fn is_empty(&self) -> bool {
+            self.len() == 0
+        }
+
+        pub fn capacity(&self) -> Option<usize> {
+            self.chan.lock().capacity
+        }
+
+        pub fn is_full(&self) -> bool {
+            point("channel.is_full");
+            let q = self.chan.lock();
+            q.capacity.is_some_and(|cap| q.items.len() >= cap)
+        }
+    }
+
+    impl<T> Receiver<T> {
+        pub fn try_recv(&self) -> Result<T, TryRecvError> {
+            point("channel.recv");
+            let mut q = self.chan.lock();
+            match q.items.pop_front() {
+                Some(value) => {
+                    drop(q);
+                    wake(key(&self.chan));
+                    Ok(value)
+                }
+                None if q.senders == 0 => Err(TryRecvError::Disconnected),
+                None => Err(TryRecvError::Empty),
+            }
+        }
+
+        pub fn recv(&self) -> Result<T, RecvError> {
+            loop {
+                match self.try_recv() {
+                    Ok(value) => return Ok(value),
+                    Err(TryRecvError::Disconnected) => return Err(RecvError),
+                    Err(TryRecvError::Empty) => block_on(key(&self.chan), "channel.recv"),
+                }
+            }
+        }
+
+        pub fn try_iter(&self) -> impl Iterator<Item = T> + '_ {
+            ::std::iter::from_fn(move || self.try_recv().ok())
+        }
+
+        pub fn iter(&self) -> impl Iterator<Item = T> + '_ {
+            ::std::iter::from_fn(move || self.recv().ok())
+        }
+
+        pub fn len(&self) -> usize {
+            point("channel.len");
+            self.chan.lock().items.len()
+        }
+
+        pub fn is_empty(&self) -> bool {
+            self.len() == 0
+        }
+
+        pub fn capacity(&self) -> Option<usize> {
+            self.chan.lock().capacity
+        }
+
+        pub fn is_full(&self) -> bool {
+            point("channel.is_full");
+            let q = self.chan.lock();
+            q.capacity.is_some_and(|cap| q.items.len() >= cap)
+        }
+    }
+
+    impl<T> Clone for Sender<T> {
+        fn clone(&self) -> Self {
+            self.chan.lock().senders += 1;
+            Self {
+                chan: self.chan.clone(),
+            }
+        }
+    }
+
+    impl<T> Clone for Receiver<T> {
+        fn clone(&self) -> Self {
+            self.chan.lock().receivers += 1;
+            Self {
+                chan: self.chan.clone(),
+            }
+        }
+    }
+
+    impl<T> Drop for Sender<T> {
+        fn drop(&mut self) {
+            point("channel.drop_sender");
+            self.chan.lock().senders -= 1;
+            wake(key(&self.chan));
+        }
+    }
+
+    impl<T> Drop for Receiver<T> {
+        fn drop(&mut self) {
+            point("channel.drop_receiver");
+            let items = {
+                let mut q = self.chan.lock();
+                q.receivers -= 1;
+                if q.receivers == 0 {
+                    ::std::mem::take(&mut q.items)
+                } else {
+                    VecDeque::new()
+                }
+            };
+            wake(key(&self.chan));
+            drop(items);
+        }
+    }
+}
+
+// ---------------------------------------------------------------------------------------------
+// Atomics
+// ---------------------------------------------------------------------------------------------
+
+/// Stands in for the standard library in the modules whose atomics are scheduling points.
+pub mod std_shadow {
+    pub use ::std::*;
+    pub mod sync {
+        pub use ::std::sync::*;
+        pub mod atomic {
+            use crate::shim::point;
+            pub use ::std::sync::atomic::*;
+
+            macro_rules! shadow_atomic {
+                ($name: ident, $inner: ty, [$($op: ident),*]) => {
+                    #[derive(Debug, Default)]
+                    pub struct $name(::std::sync::atomic::$name);
+
+                    impl $name {
+                        pub const fn new(value: $inner) -> Self {
+                            Self(::std::sync::atomic::$name::new(value))
+                        }
+
+                        pub fn load(&self, order: Ordering) -> $inner {
+                            point("atomic.load");
+                            self.0.load(order)
+                        }
+
+                        pub fn store(&self, value: $inner, order: Ordering) {
+                            point("atomic.store");
+                            self.0.store(value, order)
+                        }
+
+                        $(
+                        pub fn $op(&self, value: $inner, order: Ordering) -> $inner {
+                            point("atomic.rmw");
+                            self.0.$op(value, order)
+                        }
+                        )*
+
+                        pub fn compare_exchange(
+                            &self,
+                            current: $inner,
+                            new: $inner,
+                            success: Ordering,
+                            failure: Ordering,
+                        ) -> Result<$inner, $inner> {
+                            point("atomic.rmw");
+                            self.0.compare_exchange(current, new, success, failure)
+                        }
+
+                        pub fn compare_exchange_weak(
+                            &self,
+                            current: $inner,
+                            new: $inner,
+                            success: Ordering,
+                            failure: Ordering,
+                        ) -> Result<$inner, $inner> {
+                            self.compare_exchange(current, new, success, failure)
+                        }
+
+                        pub fn fetch_update(
+                            &self,
+                            set: Ordering,
+                            fetch: Ordering,
+                            f: impl FnMut($inner) -> Option<$inner>,
+                        ) -> Result<$inner, $inner> {
+                            point("atomic.rmw");
+                            self.0.fetch_update(set, fetch, f)
+                        }
+
+                        pub fn get_mut(&mut self) -> &mut $inner {
+                            self.0.get_mut()
+                        }
+
+                        pub fn into_inner(self) -> $inner {
+                            self.0.into_inner()
+                        }
+                    }
+                };
+            }
+
+            shadow_atomic!(
+                AtomicU64,
+                u64,
+                [swap, fetch_add, fetch_sub, fetch_max, fetch_min, fetch_or, fetch_and]
+            );
+            shadow_atomic!(AtomicBool, bool, [swap, fetch_or, fetch_and, fetch_xor]);
+        }
+    }
+}
diff --git a/src/templates/dram.rs b/src/templates/dram.rs
index 8cc57b4..7619b17 100644
--- a/src/templates/dram.rs
+++ b/src/templates/dram.rs
@@ -289,6 +289,53 @@ impl<IType: IndexLike, T: DAMType, AT: DAMType> Context for DRAM<IType, T, AT> {
     }
 }
 
+#[cfg(dam_verif)]
+#[allow(missing_docs)]
+/// Verification only: constructors for the types whose fields are private.
+pub mod verif_hooks {
+    use super::*;
+
+    pub fn config(
+        num_simultaneous_requests: usize,
+        bandwidth_in_bits: usize,
+        latency: Time,
+        capacity: usize,
+    ) -> DRAMConfig {
+        DRAMConfig {
+            num_simultaneous_requests,
+            bandwidth_in_bits,
+            latency,
+            capacity,
+        }
+    }
+
+    pub fn read_bundle<IT: Clone, DT: Clone>(
+        addr: Receiver<IT>,
+        req_size: Receiver<IT>,
+        data: Sender<DT>,
+    ) -> DRAMReadBundle<IT, DT> {
+        DRAMReadBundle {
+            addr,
+            req_size,
+            data,
+        }
+    }
+
+    pub fn write_bundle<IT: DAMType, DT: DAMType, AT: Clone>(
+        addr: Receiver<IT>,
+        request_size: Receiver<IT>,
+        data: Receiver<DT>,
+        ack: Sender<AT>,
+    ) -> DRAMWriteBundle<IT, DT, AT> {
+        DRAMWriteBundle {
+            addr,
+            request_size,
+            data,
+            ack,
+        }
+    }
+}
+
 #[cfg(test)]
 pub mod tests {
 
diff --git a/src/view/basic.rs b/src/view/basic.rs
index 93d3d26..ab39629 100644
--- a/src/view/basic.rs
+++ b/src/view/basic.rs
@@ -1,3 +1,5 @@
+#[cfg(dam_verif_sched)]
+use crate::shim::parking_lot;
 use std::sync::Arc;
 
 use dam_macros::event_type_internal;
-- 
2.43.0


From fde118cd78aaef2cf529ae6c0d6feee564d0fb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:58 +0000
Subject: [PATCH 02/13] fix: count the slot freed by a response in acyclic
 wait_until_available

Each response was consumed without being deducted, so wait_until_available followed by
enqueue (as BroadcastContext does) waited for two responses per element: wrong stall times
and eventually a deadlock once flavor inference is on.
---
 src/channel/sender/bounded.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/channel/sender/bounded.rs b/src/channel/sender/bounded.rs
index fb39409..4735d43 100644
--- a/src/channel/sender/bounded.rs
+++ b/src/channel/sender/bounded.rs
@@ -34,6 +34,8 @@ impl<T> BoundedProvider for BoundedAcyclicSender<T> {
         }
         match self.bound.resp.recv() {
             Ok(time) => {
+                // This response's slot is now accounted for, so that a later call doesn't wait for another one.
+                self.bound.send_receive_delta -= 1;
                 manager.advance(time);
                 Ok(())
             }
-- 
2.43.0


From ac797a4ffdeebd9fde89f9fcbb6f4a475d692eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:58 +0000
Subject: [PATCH 03/13] fix: advance to an already peeked element's time in
 acyclic peek_next

After a peek had brought in the head, peek_next returned it without advancing the clock,
unlike the cyclic receiver and the documented behaviour.
---
 src/channel/receiver/acyclic.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/channel/receiver/acyclic.rs b/src/channel/receiver/acyclic.rs
index 577e4cd..2f826db 100644
--- a/src/channel/receiver/acyclic.rs
+++ b/src/channel/receiver/acyclic.rs
@@ -10,7 +10,10 @@ pub(super) trait AcyclicReceiver<T: Clone>: ReceiverCommon<T> {
         match &self.data().head {
             Some(PeekResult::Closed) => return Err(DequeueError::Closed),
             None | Some(PeekResult::Nothing(_)) => {}
-            Some(PeekResult::Something(data)) => return Ok(data.clone()),
+            Some(PeekResult::Something(data)) => {
+                manager.advance(data.time);
+                return Ok(data.clone());
+            }
         }
 
         self.data().head = match self.data().underlying.recv() {
-- 
2.43.0


From ee845edf5d712be890e6ade0d8758867e0895280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:20 +0000
Subject: [PATCH 04/13] fix: don't return a later write when reading a
 datastore before the first one

Some(0) means that every write is after the time asked for, which is the same as nothing having
been written yet; it returned the newest value instead.
---
 src/templates/datastore.rs | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/src/templates/datastore.rs b/src/templates/datastore.rs
index 3c221e7..1cf8f09 100644
--- a/src/templates/datastore.rs
+++ b/src/templates/datastore.rs
@@ -75,19 +75,15 @@ impl<T: DAMType> Datastore<T> {
         let reader = history.read().unwrap();
         // next_pos holds the location of the first element after the read time.
         let next_pos = reader.iter().position(|elem| elem.time > time);
-        match next_pos {
-            Some(0) | None => match reader.last() {
-                None => {
-                    if self.behavior.use_default_value {
-                        T::default()
-                    } else {
-                        panic!("Attempting to read a value before anything was written!")
-                    }
-                }
-                Some(last_val) => last_val.data.clone(),
-            },
-
-            Some(x) => reader.get(x - 1).unwrap().data.clone(),
+        // The last element which isn't after the read time, if there is any.
+        let latest = match next_pos {
+            Some(pos) => reader[..pos].last(),
+            None => reader.last(),
+        };
+        match latest {
+            Some(element) => element.data.clone(),
+            None if self.behavior.use_default_value => T::default(),
+            None => panic!("Attempting to read a value before anything was written!"),
         }
     }
 }
-- 
2.43.0


From 08f69e883ab65b779f7b565a75fdd24f4f992631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:33 +0000
Subject: [PATCH 05/13] fix: events waiting on several sources are only ready
 when all of the sources are

Taking the maximum reports Ready(t) for a source which is ready at t next to one of which it is only
known that nothing happens before some earlier time. An arbiter (DRAM, PMU) which believes that then
blocks on the missing part while other requests with earlier times wait.
---
 src/channel/utils.rs  | 14 ++++++++++++--
 src/templates/dram.rs | 12 +++++-------
 src/templates/pmu.rs  |  7 ++++---
 3 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/channel/utils.rs b/src/channel/utils.rs
index 53fb445..acaa55c 100644
--- a/src/channel/utils.rs
+++ b/src/channel/utils.rs
@@ -72,8 +72,18 @@ where
     T: Peekable,
 {
     fn next_event(self) -> EventTime {
-        let events = self.under.map(|thing| thing.next_event());
-        events.max().unwrap_or(EventTime::Closed)
+        let mut all_ready = true;
+        let latest = self
+            .under
+            .map(|thing| thing.next_event())
+            .inspect(|event| all_ready &= matches!(event, EventTime::Ready(_)))
+            .max();
+        match latest {
+            None | Some(EventTime::Closed) => EventTime::Closed,
+            // Nothing can happen before the latest event, but it only happens then if everything else is also known to be ready.
+            Some(event) if all_ready => event,
+            Some(event) => EventTime::Nothing(event.key() - 1),
+        }
     }
 }
 
diff --git a/src/templates/dram.rs b/src/templates/dram.rs
index 7619b17..9e8c0f3 100644
--- a/src/templates/dram.rs
+++ b/src/templates/dram.rs
@@ -3,7 +3,7 @@ use std::collections::VecDeque;
 
 use crate::{
     channel::{
-        utils::{EventTime, Peekable},
+        utils::{EventCollection, EventTime, Peekable},
         ChannelElement, Receiver, Sender,
     },
     context::Context,
@@ -34,9 +34,8 @@ pub struct DRAMReadBundle<IT: Clone, DT: Clone> {
 impl<IT: DAMType, DT: Clone> Peekable for &DRAMReadBundle<IT, DT> {
     fn next_event(self) -> crate::channel::utils::EventTime {
         [self.addr.next_event(), self.req_size.next_event()]
-            .into_iter()
-            .max()
-            .unwrap()
+            .all_events()
+            .next_event()
     }
 }
 
@@ -55,9 +54,8 @@ impl<IT: DAMType, DT: DAMType, AT: Clone> Peekable for &DRAMWriteBundle<IT, DT,
             self.data.next_event(),
             self.request_size.next_event(),
         ]
-        .into_iter()
-        .max()
-        .unwrap()
+        .all_events()
+        .next_event()
     }
 }
 
diff --git a/src/templates/pmu.rs b/src/templates/pmu.rs
index c7776c1..53c8367 100644
--- a/src/templates/pmu.rs
+++ b/src/templates/pmu.rs
@@ -2,14 +2,13 @@
 //! Unlike the original PMU, this does not support processing within the pipeline, and so all values must be pre-computed before being sent here.
 
 use std::{
-    cmp::max,
     collections::{HashMap, HashSet},
     sync::Arc,
 };
 
 use crate::{
     channel::{
-        utils::{EventTime, Peekable},
+        utils::{EventCollection, EventTime, Peekable},
         ChannelID,
     },
     context::{self, Context, ContextSummary, ExplicitConnections, ProxyContext},
@@ -282,7 +281,9 @@ impl<T: DAMType, IT: IndexLike, AT: DAMType> Context for WritePipeline<T, IT, AT
                 .writers
                 .iter_mut()
                 .map(|writer: &mut PMUWriteBundle<T, IT, AT>| {
-                    max(writer.addr.next_event(), writer.data.next_event())
+                    [writer.addr.next_event(), writer.data.next_event()]
+                        .all_events()
+                        .next_event()
                 })
                 .collect();
             let next_event = next_events
-- 
2.43.0


From 20e935cf1732319776fd03645367a54a4e6e5c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:29 +0000
Subject: [PATCH 06/13] fix: PMU reads wait for writes of the same cycle

---
 src/templates/pmu.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/templates/pmu.rs b/src/templates/pmu.rs
index 53c8367..30497d5 100644
--- a/src/templates/pmu.rs
+++ b/src/templates/pmu.rs
@@ -197,11 +197,12 @@ where
         self.readers.push(rd);
     }
 
+    /// Waits until the writer is done with the current cycle, since it might still write at this tick.
     fn await_writer(&mut self) -> Time {
         self.writer_view
             .as_ref()
             .unwrap()
-            .wait_until(self.time.tick())
+            .wait_until(self.time.tick() + 1)
     }
 }
 
-- 
2.43.0


From 946779d6a5267c6042e0249d7842537735a0822c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:36 +0000
Subject: [PATCH 07/13] fix: PMU edge connections cover every bundle and the
 reader's wait for the writer

---
 src/templates/pmu.rs | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/templates/pmu.rs b/src/templates/pmu.rs
index 30497d5..04e1666 100644
--- a/src/templates/pmu.rs
+++ b/src/templates/pmu.rs
@@ -74,18 +74,22 @@ impl<T: DAMType, IT: IndexLike, AT: DAMType> Context for PMU<T, IT, AT> {
     }
 
     fn edge_connections(&self) -> Option<ExplicitConnections> {
-        let mut result =
-            HashMap::<Identifier, Vec<(HashSet<ChannelID>, HashSet<ChannelID>)>>::new();
-        for bundle in &self.reader.readers {
-            let srcs = [bundle.addr.id()];
-            let dsts = [bundle.resp.id()];
-            result.insert(self.reader.id(), vec![(srcs.into(), dsts.into())]);
-        }
-        for bundle in &self.writer.writers {
-            let srcs = [bundle.addr.id(), bundle.data.id()];
-            let dsts = [bundle.ack.id()];
-            result.insert(self.writer.id(), vec![(srcs.into(), dsts.into())]);
-        }
+        // Each pipeline picks the earliest request of all of its bundles, so all of its inputs affect all of its outputs.
+        let write_srcs: HashSet<ChannelID> = self
+            .writer
+            .writers
+            .iter()
+            .flat_map(|bundle| [bundle.addr.id(), bundle.data.id()])
+            .collect();
+        let write_dsts = self.writer.writers.iter().map(|bundle| bundle.ack.id());
+        // The reader additionally waits for the writer.
+        let mut read_srcs = write_srcs.clone();
+        read_srcs.extend(self.reader.readers.iter().map(|bundle| bundle.addr.id()));
+        let read_dsts = self.reader.readers.iter().map(|bundle| bundle.resp.id());
+        let result = HashMap::from([
+            (self.reader.id(), vec![(read_srcs, read_dsts.collect())]),
+            (self.writer.id(), vec![(write_srcs, write_dsts.collect())]),
+        ]);
         Some(result)
     }
 
-- 
2.43.0


From 52a377cbd351caf47faf52ab1ce4c75e57b946e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:04 +0000
Subject: [PATCH 08/13] fix: DRAM writes take their size divided by the
 bandwidth, as reads do

---
 src/templates/dram.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/templates/dram.rs b/src/templates/dram.rs
index 9e8c0f3..feba0b2 100644
--- a/src/templates/dram.rs
+++ b/src/templates/dram.rs
@@ -213,9 +213,9 @@ impl<IType: IndexLike, T: DAMType, AT: DAMType> Context for DRAM<IType, T, AT> {
                         );
 
                         // The bandwidth-constrained transfer time
+                        let write_bits: usize = write_buffer.iter().map(|x| x.dam_size()).sum();
                         let transfer_time =
-                            u64::try_from(write_buffer.iter().map(|x| x.dam_size()).sum::<usize>())
-                                .unwrap();
+                            u64::try_from(write_bits / self.config.bandwidth_in_bits).unwrap();
                         // This is when the write "actually happened"
                         let write_time = transfer_start_time + transfer_time;
                         write_buffer
-- 
2.43.0


From f189931d3330726581c6511755e315613fb49bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:48 +0000
Subject: [PATCH 09/13] fix: RegisterALUOp operations can read output registers

---
 src/templates/ops.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/templates/ops.rs b/src/templates/ops.rs
index fa01de4..c5dce81 100644
--- a/src/templates/ops.rs
+++ b/src/templates/ops.rs
@@ -32,7 +32,7 @@ macro_rules! RegisterALUOp {
 
                     let mut next_reg_ind: usize = 0;
                     $(
-                    let $next_regs = out_regs[next_reg_ind].data;
+                    let $next_regs = out_regs[next_reg_ind].data.clone();
                     next_reg_ind += 1;
                     )*
 
-- 
2.43.0


From 8764f24676a42f3dadec48739e7b0849b44ce827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:51 +0000
Subject: [PATCH 10/13] fix: TraceContext accepts elements at time zero

---
 src/utility_contexts/trace_context.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/utility_contexts/trace_context.rs b/src/utility_contexts/trace_context.rs
index 318a30e..0af2e66 100644
--- a/src/utility_contexts/trace_context.rs
+++ b/src/utility_contexts/trace_context.rs
@@ -27,7 +27,11 @@ where
     fn run_falliable(&mut self) -> anyhow::Result<()> {
         if let Some(func) = self.iterator.take() {
             for (data, time) in (func)() {
-                self.time.advance(time.into() - 1);
+                let time: Time = time.into();
+                // There is no cycle before zero to advance to.
+                if time > Time::new(0) {
+                    self.time.advance(time - 1);
+                }
                 self.output
                     .enqueue(&self.time, ChannelElement::new(self.time.tick() + 1, data))?;
                 // Don't need an incr_cycles in case the generator wants to emit multiple values on the same cycle.
-- 
2.43.0


From 26aec2b4d65f1a0d8e24d0307060d8c27dd9ac6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:47 +0000
Subject: [PATCH 11/13] fix: escape context names in exported graphs

---
 src/simulation/dot.rs         | 11 ++++++++++-
 src/simulation/executed.rs    |  2 +-
 src/simulation/initialized.rs |  2 +-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/simulation/dot.rs b/src/simulation/dot.rs
index 83b0d35..41eb481 100644
--- a/src/simulation/dot.rs
+++ b/src/simulation/dot.rs
@@ -6,7 +6,10 @@ use graphviz_rust::{
     printer::{DotPrinter, PrinterContext},
 };
 
-use crate::{channel::handle::ChannelHandle, datastructures::Identifier};
+use crate::{
+    channel::handle::ChannelHandle,
+    datastructures::{Identifier, VerboseIdentifier},
+};
 
 /// Describes objects which have a DOT visualization.
 /// This is applied to [super::Initialized] and [super::Executed] structures, but may be extended in the future to support additional visualizations.
@@ -25,6 +28,12 @@ pub(super) trait DotConvertibleHelper {
         format!("Node_{}", id.id)
     }
 
+    /// The label of a context, escaped for use within a quoted string.
+    fn context_label(id: &VerboseIdentifier) -> String {
+        let name = id.name.replace('\\', "\\\\").replace('"', "\\\"");
+        format!("{}({})", name, id.id)
+    }
+
     fn add_nodes(&self) -> Vec<Stmt>;
     fn generate_edges(&self) -> Vec<Stmt>;
 
diff --git a/src/simulation/executed.rs b/src/simulation/executed.rs
index 215e9bb..d376703 100644
--- a/src/simulation/executed.rs
+++ b/src/simulation/executed.rs
@@ -46,7 +46,7 @@ cfg_if::cfg_if! {
 
         impl Executed<'_> {
             fn add_node(summary: &ContextSummary, stmts: &mut Vec<Stmt>) {
-                let label_string = format!("{}({})", summary.id.name, summary.id.id);
+                let label_string = Self::context_label(&summary.id);
                 if summary.children.is_empty() {
                     stmts.push(
                         Node::new(
diff --git a/src/simulation/initialized.rs b/src/simulation/initialized.rs
index 88dbd67..33c58e3 100644
--- a/src/simulation/initialized.rs
+++ b/src/simulation/initialized.rs
@@ -152,7 +152,7 @@ mod inner {
             }
             visited.insert(node.id);
 
-            let label_string = format!("{}({})", node.name, node.id);
+            let label_string = Self::context_label(node);
             let children = &node_graph[node];
 
             // Leaf node
-- 
2.43.0


From 5accf3f4b1da00a848889624450a5c1f43119c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:02:23 +0000
Subject: [PATCH 12/13] fix: a PMU whose one side fails does not leave the
 other side waiting for it

Each side runs on a thread of its own and is cleaned up there, which stops
its clock. A panic skipped this, so that the reader waited for the clock of
a failed writer forever instead of the failure being reported.
---
 src/templates/pmu.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/templates/pmu.rs b/src/templates/pmu.rs
index 04e1666..7a3240c 100644
--- a/src/templates/pmu.rs
+++ b/src/templates/pmu.rs
@@ -40,13 +40,16 @@ impl<T: DAMType, IT: IndexLike, AT: DAMType> Context for PMU<T, IT, AT> {
     fn run(&mut self) {
         let read_log = copy_log();
         let write_log = copy_log();
+        let mut read_result = Ok(());
+        let mut write_result = Ok(());
+        // Each side is cleaned up even if it fails, as the other one may be waiting for it.
         crate::shim::scope(|s| {
             crate::shim::spawn!(s, || {
                 if let Some(mut logger) = read_log {
                     logger.id = self.reader.id();
                     initialize_log(logger);
                 }
-                self.reader.run();
+                read_result = self.reader.run_falliable();
                 self.reader.cleanup();
             })
             .unwrap();
@@ -55,11 +58,12 @@ impl<T: DAMType, IT: IndexLike, AT: DAMType> Context for PMU<T, IT, AT> {
                     logger.id = self.writer.id();
                     initialize_log(logger);
                 }
-                self.writer.run();
+                write_result = self.writer.run_falliable();
                 self.writer.cleanup();
             })
             .unwrap();
         });
+        read_result.and(write_result).unwrap();
     }
 
     fn ids(&self) -> HashMap<VerboseIdentifier, HashSet<VerboseIdentifier>> {
-- 
2.43.0


From 1bb9409eb76661b50322b8bc8359f666f5e01a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:00 +0000
Subject: [PATCH 13/13] hook: end a scheduled run only after a stretch of fair
 scheduling

---
 src/shim/verif_sched.rs | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/shim/verif_sched.rs b/src/shim/verif_sched.rs
index 6872a06..c360999 100644
--- a/src/shim/verif_sched.rs
+++ b/src/shim/verif_sched.rs
@@ -31,6 +31,8 @@ pub enum Policy {
 pub struct Config {
     pub seed: u64,
     pub policy: Policy,
+    /// After that many steps, the same number again follows under a fair policy before the run is given up, so that
+    /// endless waiting is told from a policy which kept the turn from whoever is waited for.
     pub max_steps: u64,
     /// Chance, out of 65536 per step, of waking a parked thread for no reason.
     pub spurious: u32,
@@ -153,9 +155,15 @@ impl State {
         if runnable.len() == 1 {
             return Some(runnable[0]);
         }
-        let chosen = match &self.cfg.policy {
-            Policy::RandomWalk { switch } => {
-                let switch = *switch as u64;
+        // Nobody waits forever for a thread which never gets its turn.
+        let yielding = yielding || self.streak > 4000;
+        let switch = match &self.cfg.policy {
+            _ if self.steps > self.cfg.max_steps => Some(128),
+            Policy::RandomWalk { switch } => Some(*switch as u64),
+            Policy::Priorities { .. } => None,
+        };
+        let chosen = match switch {
+            Some(switch) => {
                 if me_runnable && !yielding && (self.next() & 0xFF) >= switch {
                     me
                 } else {
@@ -166,9 +174,12 @@ impl State {
                     runnable[ind]
                 }
             }
-            Policy::Priorities { change_points } => {
-                let demote = yielding || self.streak > 4000 || change_points.contains(&self.steps);
-                if demote {
+            None => {
+                let change = match &self.cfg.policy {
+                    Policy::Priorities { change_points } => change_points.contains(&self.steps),
+                    _ => false,
+                };
+                if yielding || change {
                     self.low -= 1;
                     self.threads[me].prio = self.low;
                 }
@@ -234,7 +245,7 @@ impl Sched {
         }
         st.threads[me].what = what;
         st.steps += 1;
-        if st.steps > st.cfg.max_steps {
+        if st.steps > st.cfg.max_steps.saturating_mul(2) {
             let who = st.unfinished();
             st.end(Outcome::StepLimit(who));
             drop(st);
-- 
2.43.0


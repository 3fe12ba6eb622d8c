//! Reference models of contexts which serve requests in time order: what feeds them, what drains
//! them, and a search over the ways to break ties among requests of the same time.
use super::util::Shape;

/// What arrives on one channel, worked out on demand because a bounded channel's sender waits for
/// the one being modelled.
#[derive(Clone, Debug)]
pub struct Feed {
    /// Cycles before each send, and how far ahead each asks for.
    items: Vec<(u64, u64)>,
    shape: Shape,
    tick: u64,
    sent: Vec<u64>,
    taken: Vec<u64>,
}

impl Feed {
    pub fn new<T>(items: &[super::util::Item<T>], shape: Shape) -> Self {
        Feed { items: items.iter().map(|i| (i.wait, i.ahead)).collect(), shape, tick: 0, sent: vec![], taken: vec![] }
    }

    /// Elements with these times, whatever happens.
    pub fn fixed(times: Vec<u64>) -> Self {
        Feed { items: vec![], shape: Shape::unbounded(), tick: 0, sent: times, taken: vec![] }
    }

    /// When the next element not yet taken arrives; None when there is none.
    pub fn head(&mut self) -> Option<u64> {
        let k = self.taken.len();
        while self.sent.len() <= k {
            let i = self.sent.len();
            let (wait, ahead) = *self.items.get(i)?;
            self.tick += wait;
            let at = self.tick + ahead;
            if let Some(c) = self.shape.cap {
                if i >= c {
                    self.tick = self.tick.max(self.taken[i - c] + self.shape.rlat);
                }
            }
            self.sent.push(at.max(self.tick + self.shape.lat));
        }
        Some(self.sent[k])
    }

    /// Takes the next element with a clock at `tick`; the clock afterwards.
    pub fn take(&mut self, tick: u64) -> Option<u64> {
        let t = self.head()?.max(tick);
        self.taken.push(t);
        Some(t)
    }

    pub fn next(&self) -> usize {
        self.taken.len()
    }
}

/// A channel which a context with the given delays drains.
#[derive(Clone, Debug)]
pub struct Sink {
    shape: Shape,
    delays: Vec<u64>,
    tick: u64,
    pub taken: Vec<u64>,
    pub times: Vec<u64>,
}

impl Sink {
    pub fn new(shape: Shape, delays: &[u64]) -> Self {
        Sink { shape, delays: delays.to_vec(), tick: 0, taken: vec![], times: vec![] }
    }

    /// An element asked for at `at`; gives its time, and moves the sender's clock when it must wait.
    pub fn push(&mut self, tick: &mut u64, at: u64) -> u64 {
        let k = self.times.len();
        if let Some(c) = self.shape.cap {
            if k >= c {
                *tick = (*tick).max(self.taken[k - c] + self.shape.rlat);
            }
        }
        let t = at.max(*tick + self.shape.lat);
        if !self.delays.is_empty() {
            self.tick += self.delays[k % self.delays.len()];
        }
        self.tick = self.tick.max(t);
        self.times.push(t);
        self.taken.push(self.tick);
        t
    }
}

pub enum Step<S> {
    /// The ways to go on.
    Next(Vec<S>),
    Done,
    /// How far it got, and what is not as observed.
    Wrong(usize, String),
}

/// All ways to the end (at most `most`), or what was wrong on the way that got furthest. None: gave up.
pub fn explore<S>(start: S, most: usize, mut step: impl FnMut(&mut S) -> Step<S>) -> Option<Result<Vec<S>, String>> {
    let mut stack = vec![start];
    let mut done = vec![];
    let mut worst: (usize, String) = (0, "nothing matches".into());
    let mut budget = 20_000;
    while let Some(mut s) = stack.pop() {
        if budget == 0 {
            return if done.is_empty() { None } else { Some(Ok(done)) };
        }
        budget -= 1;
        match step(&mut s) {
            Step::Next(mut v) => {
                v.reverse();
                stack.extend(v);
            }
            Step::Done => {
                done.push(s);
                if done.len() >= most {
                    break;
                }
            }
            Step::Wrong(depth, text) => {
                if depth >= worst.0 {
                    worst = (depth, text);
                }
            }
        }
    }
    Some(if done.is_empty() { Err(worst.1) } else { Ok(done) })
}

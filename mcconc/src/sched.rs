//! Runs a few threads one at a time, deciding at every lock they take which of them goes on, and goes through all
//! decisions within a bound on the number of preemptions.
use std::collections::HashMap;
use std::sync::mpsc::{channel, Receiver, Sender};
use std::sync::{Arc, Condvar, Mutex};

use vortex::sync::{set_scheduler, LockId, Scheduler};

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    /// about to take a lock
    Want(usize, bool),
    /// running, or about to begin
    Ready,
    Done,
}

/// One decision: which threads could go on, which one did.
#[derive(Clone, Debug)]
struct Point {
    /// the alternatives in the order in which they are explored
    alts: Vec<usize>,
    taken: usize,
    /// whether the thread that ran before is the first alternative: the others preempt it
    preempts: bool,
}

struct State {
    turn: Option<usize>,
    st: Vec<St>,
    readers: HashMap<usize, Vec<usize>>,
    writer: HashMap<usize, usize>,
    plan: Vec<usize>,
    trace: Vec<Point>,
    deadlock: Option<String>,
    strayed: bool,
    done: usize,
    /// locks made during the run, by the thread that uses them
    own: HashMap<usize, usize>,
    /// one of them turned out to be shared
    leaked: bool,
    /// locks made during the run count as shared
    all: bool,
    /// a thread asked whether it could have a lock, rather than waiting for it
    tried: bool,
    /// others may go on between a thread's taking a lock and its giving it back
    held: bool,
}

pub struct Sched {
    m: Mutex<State>,
    cv: Vec<Condvar>,
    all_done: Condvar,
}

/// Unwinds the threads of a run that is given up.
struct Stop;

impl State {
    fn enabled(&self, t: usize) -> bool {
        match self.st[t] {
            St::Ready => true,
            St::Done => false,
            St::Want(l, true) => !self.writer.contains_key(&l) && self.readers.get(&l).map_or(true, Vec::is_empty),
            St::Want(l, false) => {
                // readers may have to wait for a writer who waits for other readers
                let waiting = (0..self.st.len()).any(|o| o != t && self.st[o] == St::Want(l, true));
                let read = self.readers.get(&l).is_some_and(|r| !r.is_empty());
                !self.writer.contains_key(&l) && !(waiting && read)
            }
        }
    }
    /// Whether the lock was made during this run and only this thread has used it.
    fn is_own(&mut self, lock: LockId, me: usize) -> bool {
        if !lock.scheduled || self.all {
            return false;
        }
        if *self.own.entry(lock.serial).or_insert(me) != me {
            self.leaked = true;
        }
        !self.leaked
    }
    fn grant(&mut self, t: usize) {
        if let St::Want(l, w) = self.st[t] {
            if w {
                self.writer.insert(l, t);
            } else {
                self.readers.entry(l).or_default().push(t);
            }
            self.st[t] = St::Ready;
        }
    }
    /// Decide who goes on. `me`: the thread that ran so far.
    fn pick(&mut self, me: Option<usize>) {
        let n = self.st.len();
        let mut alts: Vec<usize> = (0..n).filter(|t| self.enabled(*t)).collect();
        if alts.is_empty() {
            self.turn = None;
            if self.st.iter().any(|s| *s != St::Done) {
                let who: Vec<String> = self
                    .st
                    .iter()
                    .enumerate()
                    .filter_map(|(t, s)| match s {
                        St::Want(l, w) => {
                            let held = match (self.writer.get(l), self.readers.get(l)) {
                                (Some(o), _) => format!("written by thread {o}"),
                                (_, Some(r)) => format!("read by threads {r:?}"),
                                _ => "free".into(),
                            };
                            Some(format!("thread {t} waits to {} a lock {held}", if *w { "write" } else { "read" }))
                        }
                        _ => None,
                    })
                    .collect();
                self.deadlock = Some(who.join(", "));
            }
            return;
        }
        let preempts = me.is_some_and(|m| alts.contains(&m));
        if let Some(m) = me {
            if preempts {
                alts.retain(|t| *t != m);
                alts.insert(0, m);
            }
        }
        let i = self.trace.len();
        // a single alternative is no decision
        let k = if alts.len() > 1 { self.plan.get(i).copied().unwrap_or(0) } else { 0 };
        let k = if k < alts.len() {
            k
        } else {
            self.strayed = true;
            0
        };
        let t = alts[k];
        if alts.len() > 1 {
            self.trace.push(Point { alts, taken: k, preempts });
        }
        self.turn = Some(t);
        self.grant(t);
    }
}

thread_local! {
    static ME: std::cell::Cell<usize> = const { std::cell::Cell::new(usize::MAX) };
}

impl Sched {
    fn new(n: usize, plan: Vec<usize>, all: bool, held: bool) -> Arc<Sched> {
        Arc::new(Sched {
            m: Mutex::new(State {
                turn: None,
                st: vec![St::Ready; n],
                readers: HashMap::new(),
                writer: HashMap::new(),
                plan,
                trace: vec![],
                deadlock: None,
                strayed: false,
                done: 0,
                own: HashMap::new(),
                leaked: false,
                all,
                tried: false,
                held,
            }),
            cv: (0..n).map(|_| Condvar::new()).collect(),
            all_done: Condvar::new(),
        })
    }
    fn wake(&self, s: &State) {
        match s.turn {
            Some(t) => self.cv[t].notify_one(),
            None => {
                for c in &self.cv {
                    c.notify_one();
                }
            }
        }
    }
    fn wait_turn(&self, me: usize) {
        let mut s = self.m.lock().unwrap();
        while s.turn != Some(me) && s.deadlock.is_none() {
            s = self.cv[me].wait(s).unwrap();
        }
        let stop = s.deadlock.is_some();
        drop(s);
        if stop && !std::thread::panicking() {
            std::panic::resume_unwind(Box::new(Stop));
        }
    }
    fn finish(&self, me: usize) {
        let mut s = self.m.lock().unwrap();
        s.st[me] = St::Done;
        s.done += 1;
        if s.deadlock.is_none() {
            s.pick(None);
        }
        self.wake(&s);
        if s.done == s.st.len() {
            self.all_done.notify_one();
        }
    }
}

impl Scheduler for Sched {
    fn acquire(&self, lock: LockId, write: bool) {
        let me = ME.with(|m| m.get());
        {
            let mut s = self.m.lock().unwrap();
            if s.deadlock.is_some() {
                drop(s);
                if !std::thread::panicking() {
                    std::panic::resume_unwind(Box::new(Stop));
                }
                return;
            }
            let quiet = s.is_own(lock, me);
            let lock = lock.serial;
            s.st[me] = St::Want(lock, write);
            if quiet && s.enabled(me) {
                // no other thread can tell when this happens
                s.grant(me);
                return;
            }
            s.pick(Some(me));
            if s.turn == Some(me) && !s.held {
                return;
            }
            self.wake(&s);
        }
        self.wait_turn(me);
        let mut s = self.m.lock().unwrap();
        if s.held && s.deadlock.is_none() {
            s.pick(Some(me));
            self.wake(&s);
            drop(s);
            self.wait_turn(me);
        }
    }
    fn try_acquire(&self, lock: LockId, write: bool) -> bool {
        let me = ME.with(|m| m.get());
        let mut s = self.m.lock().unwrap();
        if s.deadlock.is_some() {
            return false;
        }
        // others may come first
        let quiet = s.is_own(lock, me);
        let lock = lock.serial;
        if !quiet {
            s.tried = true;
            s.pick(Some(me));
        }
        if s.turn != Some(me) {
            self.wake(&s);
            drop(s);
            self.wait_turn(me);
            s = self.m.lock().unwrap();
        }
        s.st[me] = St::Want(lock, write);
        let free = s.enabled(me);
        if free {
            s.grant(me);
        }
        s.st[me] = St::Ready;
        free
    }
    fn release(&self, lock: LockId, write: bool) {
        let me = ME.with(|m| m.get());
        let lock = lock.serial;
        let mut s = self.m.lock().unwrap();
        if write {
            s.writer.remove(&lock);
        } else if let Some(r) = s.readers.get_mut(&lock) {
            if let Some(i) = r.iter().position(|t| *t == me) {
                r.remove(i);
            }
        }
    }
}

type Job = Box<dyn FnOnce() + Send>;
/// Threads kept for one exploring thread.
pub struct Crew {
    send: Vec<Sender<Job>>,
}
impl Crew {
    pub fn new(n: usize) -> Crew {
        Crew {
            send: (0..n)
                .map(|_| {
                    let (tx, rx): (Sender<Job>, Receiver<Job>) = channel();
                    std::thread::spawn(move || {
                        for j in rx {
                            j();
                        }
                    });
                    tx
                })
                .collect(),
        }
    }
}
thread_local! {
    static CREW: std::cell::RefCell<Crew> = std::cell::RefCell::new(Crew::new(4));
}

struct Flags {
    strayed: bool,
    leaked: bool,
    tried: bool,
}
pub struct Run<R> {
    pub results: Vec<Option<Result<R, String>>>,
    pub deadlock: Option<String>,
    pub choices: Vec<usize>,
}

fn execute<R: Send + 'static>(progs: Vec<Box<dyn FnOnce() -> Result<R, String> + Send>>, plan: Vec<usize>, all: bool, held: bool) -> (Run<R>, Vec<Point>, Flags) {
    let n = progs.len();
    let sched = Sched::new(n, plan, all, held);
    let results: Arc<Mutex<Vec<Option<Result<R, String>>>>> = Arc::new(Mutex::new((0..n).map(|_| None).collect()));
    CREW.with(|crew| {
        for (t, p) in progs.into_iter().enumerate() {
            let sched = sched.clone();
            let results = results.clone();
            crew.borrow().send[t]
                .send(Box::new(move || {
                    ME.with(|m| m.set(t));
                    let r = crate::report::attempt(|| {
                        sched.wait_turn(t);
                        set_scheduler(Some(sched.clone()));
                        p()
                    });
                    set_scheduler(None);
                    results.lock().unwrap()[t] = Some(r);
                    sched.finish(t);
                }))
                .expect("the crew is there");
        }
    });
    let mut s = sched.m.lock().unwrap();
    s.pick(None);
    sched.wake(&s);
    while s.done < n {
        let (g, t) = sched.all_done.wait_timeout(s, std::time::Duration::from_secs(120)).unwrap();
        s = g;
        if t.timed_out() && s.done < n && s.deadlock.is_none() {
            // running on and on without taking a lock: leave those threads behind
            s.deadlock = Some("a thread has been running for two minutes".into());
            CREW.with(|c| *c.borrow_mut() = Crew::new(4));
            break;
        }
    }
    let trace = std::mem::take(&mut s.trace);
    let run = Run {
        results: std::mem::take(&mut *results.lock().unwrap()),
        deadlock: s.deadlock.take(),
        choices: trace.iter().map(|p| p.taken).collect(),
    };
    let flags = Flags { strayed: s.strayed, leaked: s.leaked && !s.all, tried: s.tried && !s.held };
    (run, trace, flags)
}

/// All schedules of the programs with at most `bound` preemptions. `make` sets up a fresh run; `judge` is shown each.
/// Returns how many there were and whether all of them were explored.
pub fn explore<R: Send + 'static>(bound: usize, most: usize, mut make: impl FnMut() -> Vec<Box<dyn FnOnce() -> Result<R, String> + Send>>, mut judge: impl FnMut(Run<R>) -> bool) -> (usize, bool) {
    let mut plan: Vec<usize> = vec![];
    let mut n = 0;
    let (mut all, mut held) = (false, false);
    let mut strays = 0;
    loop {
        let (run, trace, flags) = execute(make(), plan.clone(), all, held);
        if flags.leaked || flags.tried {
            // once more, with decisions at those locks too
            all |= flags.leaked;
            held |= flags.tried;
            plan = vec![];
            continue;
        }
        n += 1;
        if flags.strayed {
            // the threads did not do again what they had done: what they did is judged, but not all is explored
            strays += 1;
            if strays > 1000 {
                return (n, false);
            }
        }
        if !judge(run) {
            return (n, true);
        }
        if n >= most {
            return (n, false);
        }
        // the deepest decision with an alternative left
        let mut next = None;
        for i in (0..trace.len()).rev() {
            let spent = trace[..i].iter().filter(|p| p.preempts && p.taken > 0).count();
            let p = &trace[i];
            if p.taken + 1 < p.alts.len() && (!p.preempts || spent < bound) {
                next = Some((i, p.taken + 1));
                break;
            }
        }
        match next {
            None => return (n, strays == 0),
            Some((i, k)) => {
                plan = trace[..i].iter().map(|p| p.taken).collect();
                plan.push(k);
            }
        }
    }
}

/// For a thread that sets things up alone: taking a lock it holds already is reported rather than waited for.
pub struct Alone;
thread_local! {
    static HELD: std::cell::RefCell<Vec<(usize, bool)>> = const { std::cell::RefCell::new(vec![]) };
}
impl Scheduler for Alone {
    fn acquire(&self, lock: LockId, write: bool) {
        if !self.try_acquire(lock, write) && !std::thread::panicking() {
            panic!("deadlock: a thread takes a lock that it holds");
        }
    }
    fn try_acquire(&self, lock: LockId, write: bool) -> bool {
        HELD.with(|h| {
            let mut h = h.borrow_mut();
            let free = !h.iter().any(|(l, w)| *l == lock.serial && (write || *w));
            if free {
                h.push((lock.serial, write));
            }
            free
        })
    }
    fn release(&self, lock: LockId, write: bool) {
        HELD.with(|h| {
            let mut h = h.borrow_mut();
            if let Some(i) = h.iter().rposition(|x| *x == (lock.serial, write)) {
                h.remove(i);
            }
        })
    }
}
/// What this thread does alone.
pub fn alone<T>(f: impl FnOnce() -> T) -> T {
    struct End;
    impl Drop for End {
        fn drop(&mut self) {
            set_scheduler(None);
            HELD.with(|h| h.borrow_mut().clear());
        }
    }
    let _end = End;
    set_scheduler(Some(Arc::new(Alone)));
    f()
}

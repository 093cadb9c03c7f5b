//! A controlled scheduler for calls of the library: every allocation, reallocation and release of
//! memory of a controlled thread is a scheduling point. One thread runs at a time; a schedule says
//! which thread runs for how many points before the next one gets its turn. The unmodified code of
//! the library runs; the only thing added is this allocator, which passes everything on to the system's.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Condvar, Mutex};
use std::time::Duration;

pub struct Points;

#[global_allocator]
static POINTS: Points = Points;

thread_local! {
    static SESSION: Cell<*const Session> = const { Cell::new(std::ptr::null()) };
    static ME: Cell<usize> = const { Cell::new(0) };
    /// points until the next switch
    static LEFT: Cell<u64> = const { Cell::new(0) };
    static SEEN: Cell<u64> = const { Cell::new(0) };
}

#[inline]
fn point() {
    // (not while a thread ends)
    let Ok(s) = SESSION.try_with(|s| s.get()) else { return };
    if s.is_null() {
        return;
    }
    SEEN.with(|n| n.set(n.get() + 1));
    let left = LEFT.with(|l| l.get());
    if left > 0 {
        LEFT.with(|l| l.set(left - 1));
        return;
    }
    SESSION.with(|x| x.set(std::ptr::null()));
    let s: &Session = unsafe { &*s };
    s.switch(ME.with(|m| m.get()));
    SESSION.with(|x| x.set(s));
}

unsafe impl GlobalAlloc for Points {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        point();
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        point();
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        point();
        System.realloc(p, l, n)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        point();
        System.dealloc(p, l)
    }
}

static BLOCKED: AtomicU64 = AtomicU64::new(0);

/// how long to wait for a thread that may itself wait for a stopped one
fn patience() -> Duration {
    Duration::from_millis(match BLOCKED.load(Ordering::Relaxed) {
        0..40 => 1000,
        40..400 => 50,
        _ => 3,
    })
}

pub const TO_THE_END: u64 = u64::MAX;

struct State {
    seg: usize,
    done: Vec<bool>,
    /// a thread waited for something that only a stopped thread can give: let all of them run
    free: bool,
    blocked: bool,
}

pub struct Session {
    schedule: Vec<(usize, u64)>,
    state: Mutex<State>,
    cv: Condvar,
}

impl Session {
    /// leave the current segment for the next one of a thread that is not done
    fn advance(&self, s: &mut State) {
        s.seg += 1;
        while s.seg < self.schedule.len() && s.done[self.schedule[s.seg].0] {
            s.seg += 1;
        }
        self.cv.notify_all();
    }

    fn wait<'a>(&'a self, mut s: std::sync::MutexGuard<'a, State>, me: usize) {
        loop {
            if s.free {
                LEFT.with(|l| l.set(TO_THE_END));
                return;
            }
            match self.schedule.get(s.seg) {
                None => {
                    s.free = true;
                    self.cv.notify_all();
                }
                Some((t, n)) if *t == me => {
                    LEFT.with(|l| l.set(*n));
                    return;
                }
                _ => {
                    let seg = s.seg;
                    let (g, late) = self.cv.wait_timeout(s, patience()).unwrap();
                    s = g;
                    if late.timed_out() && s.seg == seg && !s.free {
                        BLOCKED.fetch_add(1, Ordering::Relaxed);
                        s.free = true;
                        s.blocked = true;
                        self.cv.notify_all();
                    }
                }
            }
        }
    }

    fn switch(&self, me: usize) {
        let mut s = self.state.lock().unwrap();
        if !s.free && self.schedule.get(s.seg).map(|x| x.0) == Some(me) {
            self.advance(&mut s);
        }
        self.wait(s, me);
    }

    fn enter(&self, me: usize) {
        self.wait(self.state.lock().unwrap(), me);
        ME.with(|m| m.set(me));
        SEEN.with(|n| n.set(0));
        SESSION.with(|x| x.set(self));
    }

    fn leave(&self, me: usize) -> u64 {
        SESSION.with(|x| x.set(std::ptr::null()));
        let mut s = self.state.lock().unwrap();
        s.done[me] = true;
        if self.schedule.get(s.seg).map(|x| x.0) == Some(me) {
            self.advance(&mut s);
        }
        SEEN.with(|n| n.get())
    }
}

pub struct Ran<R> {
    pub results: Vec<R>,
    /// scheduling points passed by each thread
    pub points: Vec<u64>,
    /// the schedule could not be followed to its end (a thread waited for a stopped one)
    pub blocked: bool,
}

/// Run `calls`, each in a thread of its own, under a schedule.
pub fn run<R: Send>(schedule: &[(usize, u64)], calls: &[&(dyn Fn() -> R + Sync)]) -> Ran<R> {
    let session = Session {
        schedule: schedule.to_vec(),
        state: Mutex::new(State { seg: 0, done: vec![false; calls.len()], free: false, blocked: false }),
        cv: Condvar::new(),
    };
    let out: Vec<(R, u64)> = std::thread::scope(|sc| {
        let hs: Vec<_> = calls
            .iter()
            .enumerate()
            .map(|(me, f)| {
                let session = &session;
                sc.spawn(move || {
                    session.enter(me);
                    let r = f();
                    let n = session.leave(me);
                    (r, n)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let blocked = session.state.lock().unwrap().blocked;
    let (results, points) = out.into_iter().unzip();
    Ran { results, points, blocked }
}

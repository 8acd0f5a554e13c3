//! Baton scheduler: several real threads, exactly one of which runs. Who runs
//! next is drawn from the run's choices at every scheduling point: log calls,
//! system calls, futex waits and (optionally) memory allocations of the code
//! under test.

use crate::choice::Choices;
use crate::vos;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicU32, Ordering::SeqCst};

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Ready,
    Blocked(usize),
    Done,
}
struct Sched {
    st: Vec<St>,
    cur: usize,
    left: u32,
    span: u32,
    pub switches: u64,
    ch: *mut Choices,
}
static mut S: Option<Sched> = None;
static ACTIVE: AtomicBool = AtomicBool::new(false);
static ALLOC_POINTS: AtomicBool = AtomicBool::new(false);
const MAXT: usize = 8;
#[allow(clippy::declare_interior_mutable_const)]
const ZERO: AtomicU32 = AtomicU32::new(0);
static GO: [AtomicU32; MAXT + 1] = [ZERO; MAXT + 1];

#[allow(static_mut_refs)]
fn s() -> &'static mut Sched {
    unsafe { S.as_mut().unwrap() }
}
thread_local! {
    static WORKER: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
/// This thread is one of those the scheduler decides about
pub fn scheduled() -> bool {
    active() && WORKER.with(|w| w.get())
}
pub fn active() -> bool {
    ACTIVE.load(SeqCst)
}
fn wait_go(i: usize) {
    while GO[i].load(SeqCst) == 0 {
        vos::raw_futex(GO[i].as_ptr(), libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG, 0);
    }
    GO[i].store(0, SeqCst);
}
fn give(i: usize) {
    GO[i].store(1, SeqCst);
    vos::raw_futex(GO[i].as_ptr(), libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG, 1);
}
fn me() -> usize {
    vos::TID.with(|t| t.get())
}
fn draw_left(s: &mut Sched) {
    let span = s.span;
    s.left = 1 + unsafe { (*s.ch).draw(span) };
}
/// A place where the scheduler may decide that another thread goes on
pub fn point() {
    if !active() {
        return;
    }
    let s = s();
    s.left = s.left.saturating_sub(1);
    if s.left > 0 {
        return;
    }
    draw_left(s);
    let ready: Vec<usize> = (0..s.st.len()).filter(|&i| s.st[i] == St::Ready).collect();
    if ready.len() < 2 {
        return;
    }
    let to = ready[unsafe { (*s.ch).draw(ready.len() as u32) } as usize];
    switch(to);
}
fn switch(to: usize) {
    let s = s();
    let from = me();
    if to == from {
        return;
    }
    s.cur = to;
    s.switches += 1;
    vos::note(|| format!("switch to thread {}", to));
    give(to);
    wait_go(from);
}
fn next_ready(why: &str) -> usize {
    let s = s();
    let ready: Vec<usize> = (0..s.st.len()).filter(|&i| s.st[i] == St::Ready).collect();
    if ready.is_empty() {
        vos::note(|| format!("deadlock: {}", why));
        vos::die_code("deadlock", vos::EXIT_DEADLOCK);
    }
    ready[unsafe { (*s.ch).draw(ready.len() as u32) } as usize]
}
pub fn block_on(addr: usize) {
    let i = me();
    s().st[i] = St::Blocked(addr);
    let to = next_ready("every thread waits");
    switch(to);
}
pub fn wake(addr: usize, n: usize) -> usize {
    let s = s();
    let mut k = 0;
    for st in s.st.iter_mut() {
        if *st == St::Blocked(addr) && k < n {
            *st = St::Ready;
            k += 1;
        }
    }
    k
}

/// Run the jobs on threads of their own until all are done. Returns the number
/// of switches.
pub fn run<R: Send>(ch: *mut Choices, span: u32, alloc_points: bool, jobs: Vec<Box<dyn FnOnce() -> R + Send + '_>>) -> (Vec<R>, u64) {
    let n = jobs.len();
    assert!(n <= MAXT);
    unsafe {
        S = Some(Sched { st: vec![St::Ready; n], cur: 0, left: 1, span, switches: 0, ch });
    }
    let first = unsafe { (*ch).draw(n as u32) } as usize;
    let mut out = vec![];
    std::thread::scope(|sc| {
        let hs: Vec<_> = jobs
            .into_iter()
            .enumerate()
            .map(|(i, j)| {
                std::thread::Builder::new()
                    .stack_size(256 << 20)
                    .spawn_scoped(sc, move || {
                        vos::TID.with(|t| t.set(i));
                        wait_go(i);
                        WORKER.with(|w| w.set(true));
                        let r = j();
                        WORKER.with(|w| w.set(false));
                        // hand over for good
                        let s = s();
                        s.st[i] = St::Done;
                        if s.st.iter().all(|x| *x == St::Done) {
                            give(MAXT);
                        } else {
                            let to = next_ready("the others wait for a thread that is gone");
                            s.cur = to;
                            vos::note(|| format!("thread {} done, switch to {}", i, to));
                            give(to);
                        }
                        r
                    })
                    .unwrap()
            })
            .collect();
        ALLOC_POINTS.store(alloc_points, SeqCst);
        ACTIVE.store(true, SeqCst);
        give(first);
        wait_go(MAXT);
        ACTIVE.store(false, SeqCst);
        ALLOC_POINTS.store(false, SeqCst);
        for h in hs {
            out.push(h.join().unwrap());
        }
    });
    (out, s().switches)
}

pub struct Alloc;
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if ALLOC_POINTS.load(SeqCst) && vos::in_sim() {
            let _o = vos::Out::enter();
            point();
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        System.realloc(p, l, n)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        System.alloc_zeroed(l)
    }
}

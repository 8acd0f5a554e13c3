//! The simulated operating system under the engine.
//!
//! The libc entry points that the Rust standard library uses for files,
//! directories, randomness, time and blocking are defined here, in the harness
//! binary, so the real, unmodified engine code calls into the simulator. They
//! are virtual only while the calling thread is inside an engine call
//! (`in_sim`); everything else in the process gets the real system.
#![allow(static_mut_refs)]

use crate::choice::{splitmix, Choices};
use crate::sched;
use libc::*;
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::rc::Rc;

thread_local! {
    static IN_SIM: Cell<bool> = const { Cell::new(false) };
    static LOGGING: Cell<bool> = const { Cell::new(false) };
    pub static TID: Cell<usize> = const { Cell::new(0) };
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn in_sim() -> bool {
    IN_SIM.with(|c| c.get())
}

/// Leave the simulated world for the duration of a harness operation
pub struct Out(bool);
impl Out {
    pub fn enter() -> Out {
        Out(IN_SIM.with(|c| c.replace(false)))
    }
}
impl Drop for Out {
    fn drop(&mut self) {
        IN_SIM.with(|c| c.set(self.0))
    }
}

// ---------------------------------------------------------------- the world

pub struct Inode {
    pub content: Vec<u8>,
}
#[derive(Clone)]
pub enum Node {
    File(Rc<RefCell<Inode>>),
    Dir,
}

/// Everything the simulator decided about one open
#[derive(Clone, Debug, Default)]
pub struct OpenPlan {
    pub err: Option<i32>,
    pub open_eintr: u32,
    /// chunk sizes, used cyclically; empty: as much as asked for
    pub chunks: Vec<usize>,
    /// EINTR answers before the n-th read, used cyclically
    pub eintr: Vec<u32>,
    pub err_at: Option<(usize, i32)>,
    pub err_once: bool,
    /// 0 honest size, 1 size 0, 2 size too small, 3 size too large
    pub size_lie: u32,
    /// serve this instead of what the virtual disk holds
    pub serve: Option<Vec<u8>>,
}
impl OpenPlan {
    pub fn faulty(&self) -> bool {
        self.err.is_some() || self.err_at.is_some()
    }
}

/// One file access attempt by the code under test, in order
#[derive(Clone, Debug)]
pub struct Rec {
    pub tid: usize,
    pub stat_only: bool,
    pub asked: String,
    pub abs: String,
    pub err: Option<i32>,
    pub delivered: Vec<u8>,
    pub eof: bool,
    pub read_err: Option<i32>,
    pub closed: u32,
    pub plan: OpenPlan,
    /// log/system events seen when it happened
    pub at: u64,
    /// descriptors of this thread open right after it, itself included
    pub fds: usize,
    /// the reader has seen everything the file held
    pub full: bool,
}

#[derive(Clone, Debug)]
pub enum WriterOp {
    Replace(String, Vec<u8>),
    InPlace(String, Vec<u8>),
    Remove(String),
    Chdir(Option<String>),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Trig {
    /// the first event whose number is at least this
    Event(u64),
    /// right after the n-th open (from 1) that was answered, good or bad
    AfterOpen(u64),
    /// right after the n-th close
    AfterClose(u64),
    /// when the caller's stream has delivered its last byte
    MainEof,
}
#[derive(Clone, Debug)]
pub struct WriterAct {
    pub when: Trig,
    pub op: WriterOp,
}

pub struct FdState {
    pub rec: usize,
    pub node: Option<Rc<RefCell<Inode>>>,
    pub pos: usize,
    pub reads: usize,
    pub eintr_left: u32,
    pub armed: bool,
    pub err_done: bool,
}

/// Fault mix of a run; numbers are per mille
#[derive(Clone, Debug, Default)]
pub struct Mix {
    pub open_err: u32,
    pub open_eintr: u32,
    pub chunk: u32,
    pub eintr: u32,
    pub read_err: u32,
    pub read_err_once: u32,
    pub size_lie: u32,
    pub errnos: Vec<i32>,
    pub read_errnos: Vec<i32>,
}

pub enum Plan {
    Clean,
    Random(Mix),
    /// the n-th open of each thread follows the n-th plan; afterwards clean
    Script(Vec<Vec<OpenPlan>>, Vec<usize>),
    /// every open of these files follows the plan
    ByPath(BTreeMap<String, OpenPlan>),
}

pub struct World {
    pub fs: BTreeMap<String, Node>,
    pub cwd: Option<String>,
    pub recs: Vec<Rec>,
    pub fds: BTreeMap<i32, FdState>,
    pub max_fds: usize,
    pub stray: Vec<String>,
    pub plan: Plan,
    pub ch: *mut Choices,
    pub fired: BTreeMap<String, u64>,
    pub writer: Vec<WriterAct>,
    /// per thread: panic in this log call
    pub crash_at_log: Vec<Option<u64>>,
    pub thread_logs: Vec<u64>,
    /// where the stack was at each log call (the deeper the lower)
    pub log_stack: Vec<usize>,
    pub crashed: bool,
    pub budget: u64,
    pub overrun: bool,
    pub log_points: u64,
    pub sys_points: u64,
    pub reads: u64,
    pub clock_ns: u64,
    pub rand: u64,
    pub trace: Vec<String>,
    pub trace_hash: u64,
    pub keep_trace: bool,
    pub quiet: bool,
    pub format_logs: bool,
    pub fail_nth_open: Option<(u64, i32)>,
    pub open_calls: u64,
    pub answered: u64,
    pub closes: u64,
    pub bad_closes: u64,
    pub pid: i32,
    /// whatever the environment is asked for, this is the answer
    pub env_any: Option<std::ffi::CString>,
    /// what is missing appears as an empty file
    pub stub_missing: bool,
}

static mut WORLD: *mut World = std::ptr::null_mut();

pub fn set_world(w: *mut World) {
    unsafe { WORLD = w }
}
pub fn current() -> Option<&'static mut World> {
    world()
}
fn world() -> Option<&'static mut World> {
    unsafe { WORLD.as_mut() }
}

impl World {
    pub fn new(ch: *mut Choices) -> World {
        World {
            fs: BTreeMap::new(),
            cwd: Some("/proc-cwd".into()),
            recs: vec![],
            fds: BTreeMap::new(),
            max_fds: 0,
            stray: vec![],
            plan: Plan::Clean,
            ch,
            fired: BTreeMap::new(),
            writer: vec![],
            crash_at_log: vec![],
            thread_logs: vec![0; 8],
            log_stack: vec![],
            crashed: false,
            budget: 3_000_000,
            overrun: false,
            log_points: 0,
            sys_points: 0,
            reads: 0,
            clock_ns: 1_700_000_000_000_000_000,
            rand: 1,
            trace: vec![],
            trace_hash: 0,
            keep_trace: false,
            quiet: false,
            format_logs: false,
            fail_nth_open: None,
            open_calls: 0,
            answered: 0,
            closes: 0,
            bad_closes: 0,
            pid: 4242,
            env_any: None,
            stub_missing: false,
        }
    }
    pub fn ev(&mut self, s: impl FnOnce() -> String) {
        if self.quiet {
            return;
        }
        let s = s();
        self.trace_hash =
            (self.trace_hash ^ crate::choice::hash_bytes(s.as_bytes())).wrapping_mul(0x100_0000_01B3).rotate_left(5);
        if self.keep_trace {
            let t = TID.with(|t| t.get());
            let n = self.events();
            self.trace.push(format!("[{} t{}] {}", n, t, s));
        }
    }
    pub fn events(&self) -> u64 {
        self.log_points + self.sys_points
    }
    pub fn fire(&mut self, k: &str) {
        *self.fired.entry(k.to_string()).or_insert(0) += 1;
    }
    pub fn put(&mut self, path: &str, content: &[u8]) {
        let p = normalize(path);
        let mut d = p.as_str();
        while let Some(i) = d.rfind('/') {
            d = &d[..i];
            if !d.is_empty() {
                self.fs.entry(d.to_string()).or_insert(Node::Dir);
            }
        }
        self.fs.insert(p, Node::File(Rc::new(RefCell::new(Inode { content: content.to_vec() }))));
    }
    pub fn put_dir(&mut self, path: &str) {
        self.fs.insert(normalize(path), Node::Dir);
    }
    pub fn open_fds(&self) -> usize {
        self.fds.len()
    }
    fn apply(&mut self, op: WriterOp) {
        match op {
            WriterOp::Replace(p, c) => {
                self.fire("writer_replace");
                self.ev(|| format!("writer: replace {} ({} bytes)", p, c.len()));
                self.put(&p, &c);
            }
            WriterOp::InPlace(p, c) => {
                self.fire("writer_rewrite_in_place");
                self.ev(|| format!("writer: rewrite in place {} ({} bytes)", p, c.len()));
                match self.fs.get(&normalize(&p)) {
                    Some(Node::File(f)) => f.borrow_mut().content = c,
                    _ => self.put(&p, &c),
                }
            }
            WriterOp::Remove(p) => {
                self.fire("writer_remove");
                self.ev(|| format!("writer: remove {}", p));
                self.fs.remove(&normalize(&p));
            }
            WriterOp::Chdir(c) => {
                self.fire(if c.is_some() { "process_chdir" } else { "process_cwd_deleted" });
                self.ev(|| format!("process: cwd becomes {:?}", c));
                self.cwd = c;
            }
        }
    }
    pub fn step_writer(&mut self) {
        self.run_writer()
    }
    fn run_writer(&mut self) {
        if self.writer.is_empty() {
            return;
        }
        let now = self.events();
        while let Some(pos) = self.writer.iter().position(|a| matches!(a.when, Trig::Event(n) if n <= now)) {
            let a = self.writer.remove(pos);
            self.apply(a.op);
        }
    }
    pub fn trigger(&mut self, t: Trig) {
        while let Some(pos) = self.writer.iter().position(|a| a.when == t) {
            let a = self.writer.remove(pos);
            self.apply(a.op);
        }
    }
    /// A writer act that waits for no event
    pub fn flush_writer(&mut self) {
        let v = std::mem::take(&mut self.writer);
        for a in v {
            self.apply(a.op);
        }
    }
    fn resolve(&self, p: &str) -> Result<String, i32> {
        if p.is_empty() {
            return Err(ENOENT);
        }
        if p.len() >= 4096 {
            return Err(ENAMETOOLONG);
        }
        if p.split('/').any(|c| c.len() > 255) {
            return Err(ENAMETOOLONG);
        }
        let full = if p.starts_with('/') {
            p.to_string()
        } else {
            match &self.cwd {
                Some(c) => format!("{}/{}", c, p),
                None => return Err(ENOENT),
            }
        };
        // components that must be directories
        let mut cur = String::new();
        let comps: Vec<&str> = full.split('/').filter(|c| !c.is_empty() && *c != ".").collect();
        for (i, c) in comps.iter().enumerate() {
            if *c == ".." {
                let k = cur.rfind('/').unwrap_or(0);
                cur.truncate(k);
                continue;
            }
            cur.push('/');
            cur.push_str(c);
            if cur == LINK.0 {
                cur = LINK.1.to_string();
            }
            if i + 1 < comps.len() {
                match self.fs.get(&cur) {
                    Some(Node::File(_)) => return Err(ENOTDIR),
                    Some(Node::Dir) => {}
                    None => return Err(ENOENT),
                }
            }
        }
        if cur.is_empty() {
            cur.push('/');
        }
        Ok(cur)
    }
    fn lookup(&self, p: &str) -> (String, Result<Node, i32>) {
        match self.resolve(p) {
            Err(e) => (normalize(&if p.starts_with('/') { p.to_string() } else { format!("{}/{}", self.cwd.clone().unwrap_or_else(|| "/<deleted>".into()), p) }), Err(e)),
            Ok(a) => {
                let r = match self.fs.get(&a) {
                    Some(n) => Ok(n.clone()),
                    None if a == "/" => Ok(Node::Dir),
                    None => Err(ENOENT),
                };
                (a, r)
            }
        }
    }
}

/// A symbolic link that every disk has, and where it leads
pub const LINK: (&str, &str) = ("/w/d/lnk", "/abs/deep");

pub fn normalize(p: &str) -> String {
    let mut out: Vec<&str> = vec![];
    for c in p.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                out.pop();
            }
            c => {
                out.push(c);
                if out.len() == 3 && c == "lnk" && format!("/{}", out.join("/")) == LINK.0 {
                    out = LINK.1[1..].split('/').collect();
                }
            }
        }
    }
    format!("/{}", out.join("/"))
}

pub fn draw_open_plan(ch: &mut Choices, m: &Mix) -> OpenPlan {
    let mut p = OpenPlan::default();
    if ch.chance(m.open_err, 1000) {
        p.err = Some(*ch.pick(&m.errnos));
    }
    if ch.chance(m.open_eintr, 1000) {
        p.open_eintr = ch.range(1, 3);
    }
    if ch.chance(m.chunk, 1000) {
        let n = ch.range(1, 4);
        for _ in 0..n {
            let c = *ch.pick(&[1usize, 2, 3, 5, 7, 13, 64, 200]);
            p.chunks.push(c);
        }
    }
    if ch.chance(m.eintr, 1000) {
        let n = ch.range(1, 4);
        for _ in 0..n {
            p.eintr.push(ch.draw(4));
        }
    }
    if ch.chance(m.read_err, 1000) {
        let at = ch.draw(400) as usize;
        p.err_at = Some((at, *ch.pick(&m.read_errnos)));
        p.err_once = ch.chance(m.read_err_once, 1000);
    }
    if ch.chance(m.size_lie, 1000) {
        p.size_lie = ch.range(1, 3);
    }
    p
}

// ------------------------------------------------------ entering the world

pub struct SimCrash;

#[derive(Debug, Clone)]
pub struct PanicInfo {
    pub msg: String,
    pub injected: bool,
}

/// Run `f` (a call into the engine) inside the simulated world
pub fn sim_call<R>(f: impl FnOnce() -> R) -> Result<R, PanicInfo> {
    LAST_PANIC.with(|m| m.borrow_mut().clear());
    let old = IN_SIM.with(|c| c.replace(true));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    IN_SIM.with(|c| c.set(old));
    LOGGING.with(|c| c.set(false));
    r.map_err(|p| PanicInfo { msg: LAST_PANIC.with(|m| m.borrow().clone()), injected: p.is::<SimCrash>() })
}

pub fn install() {
    std::panic::set_hook(Box::new(|info| {
        let _o = Out::enter();
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "<simulated crash>".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if !_o.0 {
            eprintln!("harness panic: {} at {}", m, loc);
        }
        let _ = LAST_PANIC.try_with(|c| *c.borrow_mut() = format!("{} ({})", m, loc));
    }));
    static L: Logger = Logger;
    let _ = log::set_logger(&L);
    log::set_max_level(log::LevelFilter::Trace);
}

struct Logger;
impl log::Log for Logger {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        if !in_sim() || LOGGING.with(|c| c.replace(true)) {
            return;
        }
        let fmt = world().map_or(false, |w| w.format_logs);
        if fmt {
            // the argument formatting is code under test, too
            let s = format!("{}", r.args());
            std::hint::black_box(&s);
        }
        log_point();
        LOGGING.with(|c| c.set(false));
    }
    fn flush(&self) {}
}

/// A log call of the code under test: a preemption point, a moment for the
/// external writer, and a place where a caller-supplied sink may panic.
fn log_point() {
    let crash = {
        let _o = Out::enter();
        let w = match world() {
            Some(w) => w,
            None => return,
        };
        if w.quiet {
            return;
        }
        sched::point();
        let w = world().unwrap();
        w.log_points += 1;
        if w.log_stack.len() < 4096 {
            let here = 0u8;
            w.log_stack.push(std::hint::black_box(&here) as *const u8 as usize);
        }
        w.run_writer();
        let t = TID.with(|t| t.get());
        w.thread_logs[t] += 1;
        if w.crash_at_log.get(t).copied().flatten() == Some(w.thread_logs[t]) {
            w.crashed = true;
            w.fire("panic_unwind");
            w.ev(|| "panic injected at log call".to_string());
            true
        } else if w.events() > w.budget && !w.overrun {
            w.overrun = true;
            w.ev(|| "step budget exceeded".to_string());
            true
        } else {
            w.overrun && w.events() > w.budget * 2
        }
    };
    if crash {
        LOGGING.with(|c| c.set(false));
        std::panic::panic_any(SimCrash);
    }
}

// ---------------------------------------------------------- raw system calls

unsafe fn raw(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    std::arch::asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
unsafe fn ret(r: isize) -> isize {
    if r < 0 && r > -4096 {
        *__errno_location() = -r as i32;
        -1
    } else {
        r
    }
}
unsafe fn fail(e: i32) -> isize {
    *__errno_location() = e;
    -1
}
pub fn raw_futex(addr: *const u32, op: i32, val: u32) -> isize {
    unsafe { raw(SYS_futex, addr as usize, op as usize, val as usize, 0, 0, 0) }
}
unsafe fn cstr(p: *const c_char) -> String {
    let mut s = std::ffi::CStr::from_ptr(p).to_bytes();
    let mut out = String::new();
    loop {
        match std::str::from_utf8(s) {
            Ok(t) => {
                out.push_str(t);
                return out;
            }
            Err(e) => {
                let n = e.valid_up_to();
                out.push_str(std::str::from_utf8(&s[..n]).unwrap());
                out.push(char::from_u32(RAW + s[n] as u32).unwrap());
                s = &s[n + 1..];
            }
        }
    }
}
/// bytes of paths that are no text are these characters in the simulation
const RAW: u32 = 0xf700;
/// what the code under test is given for a path of the simulation
pub fn os_path(s: &str) -> std::path::PathBuf {
    use std::os::unix::ffi::OsStringExt;
    let mut b = vec![];
    for c in s.chars() {
        match c as u32 {
            n if (RAW + 0x80..RAW + 0x100).contains(&n) => b.push((n - RAW) as u8),
            _ => b.extend_from_slice(c.to_string().as_bytes()),
        }
    }
    std::ffi::OsString::from_vec(b).into()
}
/// The world, if this call is to be simulated. Also a scheduling point.
fn enter() -> Option<(Out, &'static mut World)> {
    if !in_sim() {
        return None;
    }
    let o = Out::enter();
    world()?;
    if !world().unwrap().quiet {
        sched::point();
    }
    let w = world()?;
    if !w.quiet {
        w.sys_points += 1;
        w.run_writer();
        if w.events() > w.budget.saturating_mul(2) {
            // a loop that makes system calls but never logs
            w.overrun = true;
            die_code("step budget exceeded in system calls", EXIT_STEPS);
        }
    }
    Some((o, w))
}
pub const EXIT_HARNESS: i32 = 86;
pub const EXIT_DEADLOCK: i32 = 87;
pub const EXIT_STEPS: i32 = 88;
pub const EXIT_BIG: i32 = 89;
pub fn die_code(why: &str, code: i32) -> ! {
    if let Some(w) = world() {
        crate::driver::last_words(why, w);
    }
    unsafe {
        raw(SYS_exit_group, code as usize, 0, 0, 0, 0, 0);
    }
    loop {}
}
/// The harness itself cannot go on
pub fn die(why: &str) -> ! {
    let s = format!("hsim: {}\n", why);
    unsafe {
        raw(SYS_write, 2, s.as_ptr() as usize, s.len(), 0, 0, 0);
    }
    die_code(why, EXIT_HARNESS)
}
pub fn note(f: impl FnOnce() -> String) {
    if let Some(w) = world() {
        w.ev(f);
    }
}

unsafe fn sim_open(w: &mut World, dirfd: c_int, path: *const c_char, flags: c_int) -> isize {
    let asked = cstr(path);
    let _ = dirfd;
    let tid = TID.with(|t| t.get());
    if flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC | O_APPEND) != 0 {
        w.ev(|| format!("open for writing {}", asked));
        w.stray.push(format!("open for writing: {}", asked));
        return fail(EROFS);
    }
    let (abs, node) = w.lookup(&asked);
    w.open_calls += 1;
    // EINTR on open is retried by the library, so a plan spans the retries
    let pending = w.recs.iter().rposition(|r| r.tid == tid).filter(|&i| {
        let r = &w.recs[i];
        !r.stat_only && r.abs == abs && r.err == Some(EINTR) && r.plan.open_eintr > 0
    });
    let plan = if let Some(i) = pending {
        let mut p = w.recs[i].plan.clone();
        p.open_eintr -= 1;
        p
    } else {
        let p = match &mut w.plan {
            Plan::Clean => OpenPlan::default(),
            Plan::Random(m) => draw_open_plan(&mut *w.ch, m),
            Plan::Script(v, pos) => {
                let t = tid.min(v.len().saturating_sub(1));
                if v.is_empty() {
                    OpenPlan::default()
                } else {
                    let i = pos[t];
                    pos[t] += 1;
                    v[t].get(i).cloned().unwrap_or_default()
                }
            }
            Plan::ByPath(m) => m.get(&abs).cloned().unwrap_or_default(),
        };
        p
    };
    let mut err = None;
    if plan.open_eintr > 0 {
        err = Some(EINTR);
        w.fire("open_eintr");
    } else if let Some(e) = plan.err {
        err = Some(e);
        w.fire(&format!("open_{}", ename(e)));
    } else if let Some((n, e)) = w.fail_nth_open {
        if w.open_calls >= n {
            err = Some(e);
            w.fire(&format!("open_{}", ename(e)));
        }
    }
    let mut content_node = None;
    if err.is_none() {
        if plan.serve.is_none() {
            match &node {
                Err(_) if w.stub_missing => content_node = Some(Rc::new(RefCell::new(Inode { content: vec![] }))),
                Err(e) => err = Some(*e),
                Ok(Node::File(f)) => content_node = Some(f.clone()),
                Ok(Node::Dir) => {}
            }
        } else {
            content_node = Some(Rc::new(RefCell::new(Inode { content: plan.serve.clone().unwrap() })));
        }
    }
    let at = w.events();
    let fds = w.fds.values().filter(|f| w.recs[f.rec].tid == tid).count() + 1;
    let new = Rec {
        tid,
        stat_only: false,
        asked: asked.clone(),
        abs: abs.clone(),
        err,
        delivered: vec![],
        eof: false,
        read_err: None,
        closed: 0,
        plan: plan.clone(),
        at,
        fds,
        full: false,
    };
    let rec = match pending {
        Some(i) => {
            w.recs[i] = new;
            i
        }
        None => {
            w.recs.push(new);
            w.recs.len() - 1
        }
    };
    if let Some(e) = err {
        w.ev(|| format!("open {} -> {}", abs, ename(e)));
        if e != EINTR {
            w.answered += 1;
            let n = w.answered;
            w.trigger(Trig::AfterOpen(n));
        }
        return fail(e);
    }
    let is_dir = content_node.is_none();
    let name = b"hsim\0";
    let fd = raw(SYS_memfd_create, name.as_ptr() as usize, MFD_CLOEXEC as usize, 0, 0, 0, 0);
    if fd < 0 {
        die("memfd_create failed");
    }
    if let Some(f) = &content_node {
        let f = f.borrow();
        raw(SYS_write, fd as usize, f.content.as_ptr() as usize, f.content.len(), 0, 0, 0);
        raw(SYS_lseek, fd as usize, 0, 0, 0, 0, 0);
    }
    w.ev(|| format!("open {} -> ok{}", abs, if is_dir { " (directory)" } else { "" }));
    w.fds.insert(
        fd as i32,
        FdState { rec, node: content_node, pos: 0, reads: 0, eintr_left: 0, armed: false, err_done: false },
    );
    w.max_fds = w.max_fds.max(w.fds.len());
    if !plan.chunks.is_empty() {
        w.fire("short_reads");
    }
    if plan.size_lie != 0 {
        w.fire("wrong_file_size");
    }
    w.answered += 1;
    let n = w.answered;
    w.trigger(Trig::AfterOpen(n));
    fd
}

unsafe fn sim_read(w: &mut World, fd: c_int, at: Option<usize>, bufs: &[(*mut u8, usize)]) -> isize {
    w.reads += 1;
    let (rec, node, pos) = {
        let f = w.fds.get_mut(&fd).unwrap();
        (f.rec, f.node.clone(), at.unwrap_or(f.pos))
    };
    let plan = w.recs[rec].plan.clone();
    let f = w.fds.get_mut(&fd).unwrap();
    if !f.armed {
        f.armed = true;
        f.eintr_left = if plan.eintr.is_empty() { 0 } else { plan.eintr[f.reads % plan.eintr.len()] };
    }
    if f.eintr_left > 0 {
        f.eintr_left -= 1;
        w.fire("read_eintr");
        w.ev(|| format!("read {} -> EINTR", fdname(rec)));
        return fail(EINTR);
    }
    f.armed = false;
    f.reads += 1;
    let node = match node {
        Some(n) => n,
        None => {
            w.fire("read_EISDIR");
            w.recs[rec].read_err = Some(EISDIR);
            w.ev(|| format!("read {} -> EISDIR", fdname(rec)));
            return fail(EISDIR);
        }
    };
    let content = node.borrow();
    let mut want: usize = bufs.iter().map(|b| b.1).sum();
    if let Some((k, e)) = plan.err_at {
        let k = k.min(content.content.len());
        if pos >= k && !(plan.err_once && f.err_done) {
            f.err_done = true;
            w.fire(&format!("read_{}", ename(e)));
            w.recs[rec].read_err = Some(e);
            w.ev(|| format!("read {} at {} -> {}", fdname(rec), pos, ename(e)));
            return fail(e);
        }
        if pos < k {
            want = want.min(k - pos);
        }
    }
    if !plan.chunks.is_empty() {
        want = want.min(plan.chunks[(f.reads - 1) % plan.chunks.len()]);
    }
    let avail = content.content.len().saturating_sub(pos);
    let n = want.min(avail);
    let mut done = 0;
    for &(p, l) in bufs {
        let k = l.min(n - done);
        std::ptr::copy_nonoverlapping(content.content.as_ptr().add(pos + done), p, k);
        done += k;
        if done == n {
            break;
        }
    }
    if at.is_none() {
        f.pos = pos + n;
    }
    if n == 0 && want > 0 {
        w.recs[rec].eof = true;
    }
    if pos + n >= content.content.len() {
        w.recs[rec].full = true;
    }
    let d = &mut w.recs[rec].delivered;
    if n > 0 && pos == d.len() {
        d.extend_from_slice(&content.content[pos..pos + n]);
    }
    w.ev(|| format!("read {} at {} -> {}", fdname(rec), pos, n));
    n as isize
}
fn fdname(rec: usize) -> String {
    format!("#{}", rec)
}

fn size_of(w: &World, fd: c_int) -> Option<(bool, usize)> {
    let f = w.fds.get(&fd)?;
    let lie = w.recs[f.rec].plan.size_lie;
    Some(match &f.node {
        None => (true, 4096),
        Some(n) => {
            let l = n.borrow().content.len();
            (false, match lie {
                1 => 0,
                2 => l / 2,
                3 => l * 2 + 100,
                _ => l,
            })
        }
    })
}
fn note_stat(w: &mut World, asked: String) -> Result<Node, i32> {
    let (abs, mut node) = w.lookup(&asked);
    if node.is_err() && w.stub_missing {
        node = Ok(Node::File(Rc::new(RefCell::new(Inode { content: vec![] }))));
    }
    let tid = TID.with(|t| t.get());
    let err = node.as_ref().err().copied();
    let at = w.events();
    w.ev(|| format!("stat {} -> {:?}", abs, err.map(ename)));
    w.recs.push(Rec {
        tid,
        stat_only: true,
        asked,
        abs,
        err,
        delivered: vec![],
        eof: false,
        read_err: None,
        closed: 0,
        plan: OpenPlan::default(),
        at,
        fds: 0,
        full: false,
    });
    node
}

pub fn ename(e: i32) -> &'static str {
    match e {
        ENOENT => "ENOENT",
        EACCES => "EACCES",
        EIO => "EIO",
        EINTR => "EINTR",
        EMFILE => "EMFILE",
        ENFILE => "ENFILE",
        ENOMEM => "ENOMEM",
        EISDIR => "EISDIR",
        ENOTDIR => "ENOTDIR",
        ELOOP => "ELOOP",
        EAGAIN => "EAGAIN",
        ESTALE => "ESTALE",
        EPERM => "EPERM",
        ETIMEDOUT => "ETIMEDOUT",
        ENAMETOOLONG => "ENAMETOOLONG",
        EROFS => "EROFS",
        EOVERFLOW => "EOVERFLOW",
        ENXIO => "ENXIO",
        EBADF => "EBADF",
        EBUSY => "EBUSY",
        _ => "E?",
    }
}

// ------------------------------------------------------- interposed symbols

macro_rules! real {
    ($n:literal, $t:ty) => {{
        static P: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        let mut p = P.load(std::sync::atomic::Ordering::Relaxed);
        if p == 0 {
            p = dlsym(RTLD_NEXT, concat!($n, "\0").as_ptr() as *const c_char) as usize;
            P.store(p, std::sync::atomic::Ordering::Relaxed);
        }
        std::mem::transmute::<usize, $t>(p)
    }};
}

unsafe fn open_common(dirfd: c_int, path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    match enter() {
        Some((_o, w)) => sim_open(w, dirfd, path, flags) as c_int,
        None => ret(raw(SYS_openat, dirfd as usize, path as usize, flags as usize, mode as usize, 0, 0)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    open_common(AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    open_common(AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(d: c_int, path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    open_common(d, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: c_int, path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    open_common(d, path, flags, mode)
}
fn is_virtual(fd: c_int) -> bool {
    in_sim() && world().map_or(false, |w| w.fds.contains_key(&fd))
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, b: *mut c_void, n: size_t) -> ssize_t {
    if is_virtual(fd) {
        if let Some((_o, w)) = enter() {
            return sim_read(w, fd, None, &[(b as *mut u8, n)]);
        }
    }
    ret(raw(SYS_read, fd as usize, b as usize, n, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const iovec, n: c_int) -> ssize_t {
    if is_virtual(fd) {
        if let Some((_o, w)) = enter() {
            let v: Vec<(*mut u8, usize)> = std::slice::from_raw_parts(iov, n as usize)
                .iter()
                .map(|i| (i.iov_base as *mut u8, i.iov_len))
                .collect();
            return sim_read(w, fd, None, &v);
        }
    }
    ret(raw(SYS_readv, fd as usize, iov as usize, n as usize, 0, 0, 0))
}
unsafe fn pread_common(fd: c_int, b: *mut c_void, n: size_t, off: i64) -> ssize_t {
    if is_virtual(fd) {
        if let Some((_o, w)) = enter() {
            return sim_read(w, fd, Some(off as usize), &[(b as *mut u8, n)]);
        }
    }
    ret(raw(SYS_pread64, fd as usize, b as usize, n, off as usize, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn pread(fd: c_int, b: *mut c_void, n: size_t, off: i64) -> ssize_t {
    pread_common(fd, b, n, off)
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, b: *mut c_void, n: size_t, off: i64) -> ssize_t {
    pread_common(fd, b, n, off)
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if in_sim() {
        if let Some((_o, w)) = enter() {
            match w.fds.remove(&fd) {
                Some(f) => {
                    w.recs[f.rec].closed += 1;
                    w.ev(|| format!("close {}", fdname(f.rec)));
                    w.closes += 1;
                    let n = w.closes;
                    w.trigger(Trig::AfterClose(n));
                }
                None => w.bad_closes += 1,
            }
        }
    }
    ret(raw(SYS_close, fd as usize, 0, 0, 0, 0, 0)) as c_int
}
unsafe fn lseek_common(fd: c_int, off: i64, whence: c_int) -> i64 {
    if is_virtual(fd) {
        if let Some((_o, w)) = enter() {
            let len = size_of(w, fd).map_or(0, |s| s.1) as i64;
            let f = w.fds.get_mut(&fd).unwrap();
            let n = match whence {
                SEEK_SET => off,
                SEEK_CUR => f.pos as i64 + off,
                _ => len + off,
            };
            if n < 0 {
                return fail(EINVAL) as i64;
            }
            f.pos = n as usize;
            return n;
        }
    }
    ret(raw(SYS_lseek, fd as usize, off as usize, whence as usize, 0, 0, 0)) as i64
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, off: i64, whence: c_int) -> i64 {
    lseek_common(fd, off, whence)
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: i64, whence: c_int) -> i64 {
    lseek_common(fd, off, whence)
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    let r = ret(raw(SYS_fcntl, fd as usize, cmd as usize, arg, 0, 0, 0)) as c_int;
    if r >= 0 && (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) && is_virtual(fd) {
        let _o = Out::enter();
        let w = world().unwrap();
        let f = &w.fds[&fd];
        let n = FdState { rec: f.rec, node: f.node.clone(), pos: f.pos, reads: f.reads, eintr_left: 0, armed: false, err_done: f.err_done };
        w.fds.insert(r, n);
        w.max_fds = w.max_fds.max(w.fds.len());
    }
    r
}
fn mode_of(dir: bool) -> u32 {
    if dir {
        S_IFDIR | 0o755
    } else {
        S_IFREG | 0o644
    }
}
/// Everything on the disk is changed within one second, the resolution of
/// many file systems, and a name that is removed and created again gets the
/// same inode, as is usual
const MTIME: i64 = 1_500_000_000;
fn ino_of(path: &str) -> u64 {
    2 + crate::choice::hash_bytes(path.as_bytes()) % 1_000_000_007
}
unsafe fn node_info(n: &Node) -> (bool, usize) {
    match n {
        Node::Dir => (true, 4096),
        Node::File(f) => (false, f.borrow().content.len()),
    }
}
#[no_mangle]
pub unsafe extern "C" fn statx(dirfd: c_int, path: *const c_char, flags: c_int, mask: c_uint, buf: *mut c_void) -> c_int {
    if in_sim() {
        let empty = path.is_null() || *path == 0;
        if !empty || is_virtual(dirfd) {
            if let Some((_o, w)) = enter() {
                let ((dir, len), ino) = if empty {
                    (size_of(w, dirfd).unwrap(), ino_of(&w.recs[w.fds[&dirfd].rec].abs))
                } else {
                    match note_stat(w, cstr(path)) {
                        Ok(n) => (node_info(&n), ino_of(&w.recs.last().unwrap().abs)),
                        Err(e) => return fail(e) as c_int,
                    }
                };
                let st = &mut *(buf as *mut libc::statx);
                std::ptr::write_bytes(buf as *mut u8, 0, std::mem::size_of::<libc::statx>());
                st.stx_mask = 0x7ff;
                st.stx_blksize = 4096;
                st.stx_nlink = 1;
                st.stx_mode = mode_of(dir) as u16;
                st.stx_size = len as u64;
                st.stx_ino = ino;
                st.stx_mtime.tv_sec = MTIME;
                st.stx_ctime.tv_sec = MTIME;
                st.stx_dev_minor = 1;
                return 0;
            }
        }
    }
    ret(raw(SYS_statx, dirfd as usize, path as usize, flags as usize, mask as usize, buf as usize, 0)) as c_int
}
unsafe fn fill_stat(buf: *mut stat, dir: bool, len: usize, ino: u64) {
    std::ptr::write_bytes(buf as *mut u8, 0, std::mem::size_of::<stat>());
    (*buf).st_mode = mode_of(dir);
    (*buf).st_size = len as i64;
    (*buf).st_nlink = 1;
    (*buf).st_blksize = 4096;
    (*buf).st_ino = ino;
    (*buf).st_dev = 1;
    (*buf).st_mtime = MTIME;
    (*buf).st_ctime = MTIME;
}
unsafe fn stat_path(path: *const c_char, buf: *mut stat, nofollow: bool) -> c_int {
    if in_sim() {
        if let Some((_o, w)) = enter() {
            return match note_stat(w, cstr(path)) {
                Ok(n) => {
                    let (d, l) = node_info(&n);
                    fill_stat(buf, d, l, ino_of(&w.recs.last().unwrap().abs));
                    0
                }
                Err(e) => fail(e) as c_int,
            };
        }
    }
    let n = if nofollow { SYS_lstat } else { SYS_stat };
    ret(raw(n, path as usize, buf as usize, 0, 0, 0, 0)) as c_int
}
unsafe fn stat_fd(fd: c_int, buf: *mut stat) -> c_int {
    if is_virtual(fd) {
        if let Some((_o, w)) = enter() {
            let (d, l) = size_of(w, fd).unwrap();
            fill_stat(buf, d, l, ino_of(&w.recs[w.fds[&fd].rec].abs));
            return 0;
        }
    }
    ret(raw(SYS_fstat, fd as usize, buf as usize, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn stat64(p: *const c_char, b: *mut stat) -> c_int {
    stat_path(p, b, false)
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(p: *const c_char, b: *mut stat) -> c_int {
    stat_path(p, b, true)
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, b: *mut stat) -> c_int {
    stat_fd(fd, b)
}
#[no_mangle]
pub unsafe extern "C" fn fstat(fd: c_int, b: *mut stat) -> c_int {
    stat_fd(fd, b)
}
#[no_mangle]
pub unsafe extern "C" fn access(p: *const c_char, mode: c_int) -> c_int {
    if in_sim() {
        if let Some((_o, w)) = enter() {
            return match note_stat(w, cstr(p)) {
                Ok(_) => 0,
                Err(e) => fail(e) as c_int,
            };
        }
    }
    ret(raw(SYS_access, p as usize, mode as usize, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn realpath(p: *const c_char, out: *mut c_char) -> *mut c_char {
    if in_sim() {
        if let Some((_o, w)) = enter() {
            let s = cstr(p);
            return match note_stat(w, s.clone()) {
                Ok(_) => {
                    let abs = w.resolve(&s).unwrap();
                    let dst = if out.is_null() { libc::malloc(abs.len() + 1) as *mut c_char } else { out };
                    std::ptr::copy_nonoverlapping(abs.as_ptr() as *const c_char, dst, abs.len());
                    *dst.add(abs.len()) = 0;
                    dst
                }
                Err(e) => {
                    fail(e);
                    std::ptr::null_mut()
                }
            };
        }
    }
    real!("realpath", unsafe extern "C" fn(*const c_char, *mut c_char) -> *mut c_char)(p, out)
}
#[no_mangle]
pub unsafe extern "C" fn getcwd(buf: *mut c_char, n: size_t) -> *mut c_char {
    if in_sim() {
        if let Some((_o, w)) = enter() {
            w.fire("getcwd_calls");
            w.ev(|| "getcwd".into());
            return match &w.cwd {
                None => {
                    fail(ENOENT);
                    std::ptr::null_mut()
                }
                Some(c) => {
                    if c.len() + 1 > n {
                        fail(ERANGE);
                        return std::ptr::null_mut();
                    }
                    std::ptr::copy_nonoverlapping(c.as_ptr() as *const c_char, buf, c.len());
                    *buf.add(c.len()) = 0;
                    buf
                }
            };
        }
    }
    real!("getcwd", unsafe extern "C" fn(*mut c_char, size_t) -> *mut c_char)(buf, n)
}
#[no_mangle]
pub unsafe extern "C" fn chdir(p: *const c_char) -> c_int {
    if in_sim() {
        if let Some((_o, w)) = enter() {
            let s = cstr(p);
            w.stray.push(format!("chdir: {}", s));
            w.ev(|| format!("chdir {}", s));
            if let Ok(a) = w.resolve(&s) {
                w.cwd = Some(a);
            }
            return 0;
        }
    }
    ret(raw(SYS_chdir, p as usize, 0, 0, 0, 0, 0)) as c_int
}
macro_rules! forbidden {
    ($($n:ident $s:literal ($($a:ident : $t:ty),*) ;)*) => {$(
        #[no_mangle]
        pub unsafe extern "C" fn $n(p: *const c_char $(, $a: $t)*) -> c_int {
            if in_sim() {
                if let Some((_o, w)) = enter() {
                    let s = cstr(p);
                    w.stray.push(format!("{}: {}", $s, s));
                    w.ev(|| format!("{} {}", $s, s));
                    return fail(EROFS) as c_int;
                }
            }
            real!($s, unsafe extern "C" fn(*const c_char $(, $t)*) -> c_int)(p $(, $a)*)
        }
    )*};
}
forbidden! {
    unlink "unlink" ();
    rmdir "rmdir" ();
    mkdir "mkdir" (m: mode_t);
    rename "rename" (q: *const c_char);
    link "link" (q: *const c_char);
    symlink "symlink" (q: *const c_char);
    chmod "chmod" (m: mode_t);
    truncate64 "truncate64" (n: i64);
    remove "remove" ();
}
#[no_mangle]
pub unsafe extern "C" fn opendir(p: *const c_char) -> *mut DIR {
    if in_sim() {
        if let Some((_o, w)) = enter() {
            let s = cstr(p);
            w.stray.push(format!("opendir: {}", s));
            w.ev(|| format!("opendir {}", s));
            fail(EACCES);
            return std::ptr::null_mut();
        }
    }
    real!("opendir", unsafe extern "C" fn(*const c_char) -> *mut DIR)(p)
}
#[no_mangle]
pub unsafe extern "C" fn execvp(p: *const c_char, a: *const *const c_char) -> c_int {
    if in_sim() {
        if let Some((_o, w)) = enter() {
            let s = cstr(p);
            w.stray.push(format!("exec: {}", s));
            return fail(EACCES) as c_int;
        }
    }
    real!("execvp", unsafe extern "C" fn(*const c_char, *const *const c_char) -> c_int)(p, a)
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, n: size_t, flags: c_uint) -> ssize_t {
    if in_sim() {
        let _o = Out::enter();
        if let Some(w) = world() {
            w.fire("getrandom_calls");
            let b = std::slice::from_raw_parts_mut(buf as *mut u8, n);
            for x in b {
                *x = splitmix(&mut w.rand) as u8;
            }
            return n as ssize_t;
        }
    }
    ret(raw(SYS_getrandom, buf as usize, n, flags as usize, 0, 0, 0))
}
/// An environment in which every variable is set, if the world wants that
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const c_char) -> *mut c_char {
    if in_sim() {
        let _o = Out::enter();
        if let Some(w) = world() {
            let n = cstr(name);
            if let (Some(v), false) = (&w.env_any, n.starts_with("RUST_")) {
                let p = v.as_ptr() as *mut c_char;
                w.fire("getenv_answered");
                return p;
            }
        }
    }
    real!("getenv", unsafe extern "C" fn(*const c_char) -> *mut c_char)(name)
}
#[no_mangle]
pub unsafe extern "C" fn getpid() -> pid_t {
    if in_sim() {
        if let Some(w) = world() {
            return w.pid;
        }
    }
    raw(SYS_getpid, 0, 0, 0, 0, 0, 0) as pid_t
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: clockid_t, ts: *mut timespec) -> c_int {
    if in_sim() {
        let _o = Out::enter();
        if let Some(w) = world() {
            w.clock_ns = w.clock_ns.wrapping_add(1000);
            (*ts).tv_sec = (w.clock_ns / 1_000_000_000) as i64;
            (*ts).tv_nsec = (w.clock_ns % 1_000_000_000) as i64;
            return 0;
        }
    }
    ret(raw(SYS_clock_gettime, id as usize, ts as usize, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(a: *const timespec, b: *mut timespec) -> c_int {
    if in_sim() {
        if let Some((_o, w)) = enter() {
            w.clock_ns = w.clock_ns.wrapping_add((*a).tv_sec as u64 * 1_000_000_000 + (*a).tv_nsec as u64);
            w.ev(|| "sleep".into());
            return 0;
        }
    }
    ret(raw(SYS_nanosleep, a as usize, b as usize, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(c: clockid_t, f: c_int, a: *const timespec, b: *mut timespec) -> c_int {
    if in_sim() {
        if let Some((_o, w)) = enter() {
            w.clock_ns = w.clock_ns.wrapping_add((*a).tv_sec as u64 * 1_000_000_000 + (*a).tv_nsec as u64);
            w.ev(|| "sleep".into());
            return 0;
        }
    }
    -(raw(SYS_clock_nanosleep, c as usize, f as usize, a as usize, b as usize, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if in_sim() {
        // counts as a step: a loop of these is no progress
        if enter().is_some() {
            return 0;
        }
    }
    raw(SYS_sched_yield, 0, 0, 0, 0, 0, 0) as c_int
}
/// std reaches futex (and sometimes getrandom) through here
#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    if n == SYS_futex && sched::scheduled() {
        let _o = Out::enter();
        let op = b as i32 & 0x7f;
        if op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET {
            let addr = a as *const u32;
            if (addr as *const std::sync::atomic::AtomicU32).as_ref().unwrap().load(std::sync::atomic::Ordering::SeqCst) != c as u32 {
                return fail(EAGAIN) as c_long;
            }
            sched::block_on(a);
            return 0;
        }
        if op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET {
            return sched::wake(a, c) as c_long;
        }
    }
    if in_sim() && n == SYS_getrandom {
        return getrandom(a as *mut c_void, b, c as u32) as c_long;
    }
    ret(raw(n, a, b, c, d, e, f)) as c_long
}

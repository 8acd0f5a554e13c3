//! Carrying out engine calls inside a simulated world.

use crate::choice::Choices;
use crate::gen::Case;
use crate::model::{Env, Got, Model, State, Stop, Why};
use crate::obs::{self, Dump};
use crate::vos::{self, Plan, Rec, Trig, World};
use hastur::{Engine, MakefileError, NameCache, ParseErrorKind};
use std::collections::BTreeMap;
use std::io::{self, BufRead, ErrorKind, Read};

// ------------------------------------------------------------------ verdicts

#[derive(Clone, Debug)]
pub struct Violation {
    pub class: String,
    pub msg: String,
}
pub type Verdict = Result<(), Violation>;
pub fn violation<T>(class: &str, msg: impl Into<String>) -> Result<T, Violation> {
    Err(Violation { class: class.into(), msg: msg.into() })
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $class:expr, $($m:tt)*) => { if !$c { return $crate::exec::violation($class, format!($($m)*)); } };
}

/// Counters of one run
#[derive(Default, Clone)]
pub struct Stats {
    pub fired: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub executions: u64,
    pub logs: u64,
    pub syscalls: u64,
    pub sim_ns: u64,
    pub trace_hash: u64,
    pub judged: u64,
    pub skipped: u64,
    pub why_skipped: BTreeMap<String, u64>,
    pub nontrivial: bool,
    pub state_hash: u64,
    pub keep_trace: bool,
    pub trace: Vec<String>,
}
impl Stats {
    pub fn probe(&mut self, k: &str) {
        *self.probes.entry(k.to_string()).or_insert(0) += 1;
    }
    pub fn skip(&mut self, k: &str) {
        self.skipped += 1;
        *self.why_skipped.entry(k.to_string()).or_insert(0) += 1;
    }
    pub fn mix_state(&mut self, d: &Dump) {
        let h = crate::choice::hash_bytes(format!("{:?}", d).as_bytes());
        self.state_hash = (self.state_hash ^ h).rotate_left(9).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    }
}

// --------------------------------------------------------- the caller's stream

#[derive(Clone, Debug)]
pub enum Fail {
    Err(ErrorKind, String),
    /// an error of the operating system
    Os(i32),
    Panic,
}
#[derive(Clone, Debug, Default)]
pub struct Stream {
    pub bytes: Vec<u8>,
    pub chunks: Vec<usize>,
    pub eintr: Vec<u32>,
    pub fail: Option<(usize, Fail)>,
    /// the failure happens once; a retry would find the rest
    pub fail_once: bool,
    /// 0: handed over directly; n: behind a BufReader of that capacity
    pub cap: usize,
}
impl Stream {
    pub fn plain(b: &[u8]) -> Stream {
        Stream { bytes: b.to_vec(), ..Default::default() }
    }
}
struct SimReader {
    s: Stream,
    pos: usize,
    calls: usize,
    eintr_left: u32,
    armed: bool,
    failures: u32,
    /// what fill_buf has handed out and consume not yet taken back
    held: usize,
    eof: bool,
}
impl SimReader {
    fn new(s: Stream) -> Self {
        SimReader { s, pos: 0, calls: 0, eintr_left: 0, armed: false, failures: 0, held: 0, eof: false }
    }
    fn next(&mut self, want: usize) -> io::Result<usize> {
        let act = {
            let _o = vos::Out::enter();
            crate::sched::point();
            self.decide(want)
        };
        match act {
            Act::Give(n) => Ok(n),
            Act::Fail(k, m) => Err(io::Error::new(k, m)),
            Act::Os(n) => Err(io::Error::from_raw_os_error(n)),
            Act::Panic => std::panic::panic_any(vos::SimCrash),
        }
    }
    fn decide(&mut self, want: usize) -> Act {
        let w = wld();
        w.sys_points += 1;
        w.step_writer();
        w.reads += 1;
        if w.events() > w.budget {
            w.overrun = true;
            w.ev(|| "step budget exceeded in the caller's stream".into());
            if w.events() > w.budget.saturating_mul(2) {
                vos::die_code("the caller's stream is polled for ever", vos::EXIT_STEPS);
            }
            return Act::Panic;
        }
        if !self.armed {
            self.armed = true;
            self.eintr_left = if self.s.eintr.is_empty() { 0 } else { self.s.eintr[self.calls % self.s.eintr.len()] };
        }
        if self.eintr_left > 0 {
            self.eintr_left -= 1;
            w.fire("stream_interrupted");
            w.ev(|| "stream -> Interrupted".into());
            return Act::Fail(ErrorKind::Interrupted, "interrupted".into());
        }
        self.armed = false;
        self.calls += 1;
        let mut n = want;
        if let Some((at, f)) = &self.s.fail {
            let at = (*at).min(self.s.bytes.len());
            if self.pos >= at && !(self.s.fail_once && self.failures > 0) {
                self.failures += 1;
                return match f {
                    Fail::Err(k, m) => {
                        w.fire(if *k == ErrorKind::WouldBlock { "stream_would_block" } else { "stream_error" });
                        w.ev(|| format!("stream at {} -> {:?}", at, k));
                        Act::Fail(*k, m.clone())
                    }
                    Fail::Os(n) => {
                        w.fire("stream_error");
                        w.ev(|| format!("stream at {} -> errno {}", at, n));
                        Act::Os(*n)
                    }
                    Fail::Panic => {
                        w.fire("stream_panic");
                        w.crashed = true;
                        w.ev(|| format!("stream at {} panics", at));
                        Act::Panic
                    }
                };
            }
            if self.pos < at {
                n = n.min(at - self.pos);
            }
        }
        if !self.s.chunks.is_empty() {
            n = n.min(self.s.chunks[(self.calls - 1) % self.s.chunks.len()]);
        }
        n = n.min(self.s.bytes.len() - self.pos);
        let p = self.pos;
        w.ev(|| format!("stream at {} -> {}", p, n));
        if n == 0 && want > 0 && !self.eof {
            self.eof = true;
            w.trigger(Trig::MainEof);
        }
        Act::Give(n)
    }
}
enum Act {
    Give(usize),
    Fail(ErrorKind, String),
    Os(i32),
    Panic,
}
impl Read for SimReader {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if self.held > 0 {
            let n = self.held.min(b.len());
            b[..n].copy_from_slice(&self.s.bytes[self.pos..self.pos + n]);
            self.consume(n);
            return Ok(n);
        }
        let n = self.next(b.len())?;
        b[..n].copy_from_slice(&self.s.bytes[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
impl BufRead for SimReader {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        if self.held == 0 {
            self.held = self.next(usize::MAX)?;
        }
        Ok(&self.s.bytes[self.pos..self.pos + self.held])
    }
    fn consume(&mut self, n: usize) {
        self.pos += n;
        self.held -= n;
    }
}

// ------------------------------------------------------------- engine calls

/// the world of the current execution
pub fn wld() -> &'static mut World {
    vos::current().expect("no world")
}

pub struct Sess {
    pub e: Engine,
    pub n: NameCache,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Res {
    Ok,
    Io(ErrorKind, String),
    Include(ErrorKind, String),
    Parse(String),
    Panic { msg: String, injected: bool },
}
impl Res {
    pub fn is_injected(&self) -> bool {
        matches!(self, Res::Panic { injected: true, .. })
    }
}
impl Sess {
    pub fn new(wd: &str, cc: char) -> Sess {
        let keep = std::mem::replace(&mut wld().cwd, Some("/proc-cwd".into()));
        let acts = std::mem::take(&mut wld().writer);
        let r = vos::sim_call(|| {
            let mut e = Engine::default();
            e.working_directory = vos::os_path(wd);
            e.command_char = cc;
            Sess { e, n: NameCache::default() }
        });
        wld().cwd = keep;
        wld().writer = acts;
        match r {
            Ok(s) => s,
            Err(p) => vos::die(&format!("an engine cannot be made: {}", p.msg)),
        }
    }
    pub fn read(&mut self, s: &Stream, name: &str) -> Res {
        let cap = s.cap;
        let mut r = SimReader::new(s.clone());
        wld().ev(|| format!("read_makefile {} ({} bytes)", name, s.bytes.len()));
        let Sess { e, n } = self;
        let out = vos::sim_call(|| {
            if cap == 0 {
                e.read_makefile(n, &mut r, name)
            } else {
                e.read_makefile(n, &mut io::BufReader::with_capacity(cap, &mut r), name)
            }
        });
        let res = classify(out);
        wld().ev(|| format!("returns {:?}", res));
        res
    }
    /// Expand a variable and carry out the result as makefile text; nothing
    /// if there is no such variable
    pub fn process(&mut self, var: &str) -> Option<Res> {
        let ast = self.n.variable_name(var).and_then(|h| self.e.database.get_variable(h)).map(|v| v.ast().clone())?;
        wld().ev(|| format!("process_block of {}", var));
        let Sess { e, n } = self;
        let out = vos::sim_call(|| {
            let b = ast.eval(n, e);
            if b.len() > obs::LONGEST {
                vos::die_code("a text grows beyond what is worth looking at", vos::EXIT_BIG);
            }
            e.process_block(n, &b)
        });
        let res = classify(out);
        wld().ev(|| format!("returns {:?}", res));
        Some(res)
    }
    pub fn dump(&self, u: &[String]) -> Dump {
        obs::dump(&self.e.database, &self.n, u)
    }
    /// Expands every variable through the engine itself: what a query sees
    /// must not depend on what the engine did before
    pub fn live_differs(&mut self, u: &[String]) -> Option<String> {
        let d = self.dump(u);
        let l = obs::live(&mut self.e, &mut self.n, u);
        for (k, v) in &d.vars {
            if l.get(k) != Some(v) {
                return Some(format!("variable {} expands to {:?} in the engine in use and to {:?} in a new one", k, l.get(k), v));
            }
        }
        None
    }
    /// an engine with the same database, names and settings, otherwise new
    pub fn twin(&self) -> Sess {
        let mut s = Sess::new("/", self.e.command_char);
        s.e.working_directory = self.e.working_directory.clone();
        s.e.database = self.e.database.clone();
        s.n = self.n.clone();
        s
    }
}
pub fn classify(out: Result<Result<(), MakefileError>, vos::PanicInfo>) -> Res {
    match out {
        Ok(Ok(())) => Res::Ok,
        Ok(Err(MakefileError::IOError(e))) => Res::Io(e.kind(), e.to_string()),
        Ok(Err(MakefileError::ParseError(ParseErrorKind::IncludeFailure(k, n)))) => Res::Include(k, n),
        Ok(Err(MakefileError::ParseError(p))) => Res::Parse(format!("{:?}", p)),
        Err(p) => Res::Panic { msg: outline(p.msg), injected: p.injected },
    }
}
/// A panic message without the values in it: those show internal numbers
fn outline(msg: String) -> String {
    let e = msg.find(|c: char| "([{\"".contains(c) || c.is_ascii_digit()).unwrap_or(msg.len());
    msg[..e].trim_end().to_string()
}

struct Force<T>(T);
unsafe impl<T> Send for Force<T> {}

/// Run `body` on a new thread with `w` as its world
pub fn in_world<R>(st: &mut Stats, w: &mut World, body: impl FnOnce() -> R) -> R {
    w.keep_trace = st.keep_trace;
    vos::set_world(w);
    let b = Force(body);
    let r = std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(256 << 20)
            .spawn_scoped(s, move || {
                let b = b;
                Force((b.0)())
            })
            .unwrap()
            .join()
    });
    vos::set_world(std::ptr::null_mut());
    absorb(st, w);
    match r {
        Ok(r) => r.0,
        Err(_) => vos::die("the harness panicked"),
    }
}
pub fn absorb(st: &mut Stats, w: &mut World) {
    st.executions += 1;
    for (k, n) in &w.fired {
        *st.fired.entry(k.clone()).or_insert(0) += n;
    }
    st.logs += w.log_points;
    st.syscalls += w.sys_points;
    st.trace_hash = (st.trace_hash ^ w.trace_hash).rotate_left(11).wrapping_mul(0x100_0000_01B3);
    if st.keep_trace {
        st.trace.push(format!("--- execution {}", st.executions));
        st.trace.append(&mut w.trace);
    }
}
pub fn build_world(ch: &mut Choices, c: &Case) -> World {
    let mut w = World::new(ch);
    for d in &c.dirs {
        w.put_dir(d);
    }
    for (p, b) in &c.files {
        w.put(p, b);
    }
    w
}

/// The result of one read in one world
#[derive(Clone)]
pub struct Out {
    pub res: Res,
    pub dump: Dump,
    pub recs: Vec<Rec>,
    pub logs: u64,
    pub log_stack: Vec<usize>,
    pub events: u64,
    pub reads: u64,
    pub open_left: usize,
    pub bad_closes: u64,
    pub stray: Vec<String>,
    pub overrun: bool,
    pub crashed: bool,
    pub max_fds: usize,
}
impl Out {
    /// A log call to be interrupted: any, or one of those deep in calls
    pub fn some_log(&self, ch: &mut Choices) -> u64 {
        if self.log_stack.is_empty() || ch.chance(1, 2) {
            return 1 + ch.draw((self.logs as u32).max(1)) as u64;
        }
        let mut v: Vec<usize> = (0..self.log_stack.len()).collect();
        v.sort_by_key(|&i| self.log_stack[i]);
        v.truncate((v.len() / 10).max(4));
        1 + *ch.pick(&v) as u64
    }
}
/// Read the case's makefile with a new engine
pub fn run_case(st: &mut Stats, w: &mut World, c: &Case, s: &Stream, u: &[String]) -> Out {
    let (wd, cc) = (c.wd.clone(), c.cc);
    let wp: *mut World = w;
    let (res, dump, left) = in_world(st, w, || {
        let mut x = Sess::new(&wd, cc);
        let (l0, _) = (wld().log_points, 0);
        let _ = l0;
        let res = x.read(s, "Makefile");
        let left = wld().open_fds();
        (res, x.dump(u), left)
    });
    let w = unsafe { &mut *wp };
    Out {
        res,
        dump,
        recs: w.recs.clone(),
        logs: w.log_points,
        log_stack: w.log_stack.clone(),
        events: w.events(),
        reads: w.reads,
        open_left: left,
        bad_closes: w.bad_closes,
        stray: w.stray.clone(),
        overrun: w.overrun,
        crashed: w.crashed,
        max_fds: w.max_fds,
    }
}

/// What `f` gives in a process that has not run any of the code under test
/// before; nothing if that process does not come to a regular end
pub fn pristine(f: impl FnOnce() -> String) -> Option<String> {
    unsafe {
        let mut p = [0i32; 2];
        if libc::pipe(p.as_mut_ptr()) != 0 {
            vos::die("no pipe");
        }
        let pid = libc::fork();
        if pid < 0 {
            vos::die("fork failed");
        }
        if pid == 0 {
            libc::close(p[0]);
            let t = f().into_bytes();
            let mut at = 0;
            while at < t.len() {
                let n = libc::write(p[1], t[at..].as_ptr() as *const _, t.len() - at);
                if n <= 0 {
                    libc::_exit(1);
                }
                at += n as usize;
            }
            libc::_exit(0);
        }
        libc::close(p[1]);
        let mut out = vec![];
        let mut buf = [0u8; 65536];
        loop {
            let n = libc::read(p[0], buf.as_mut_ptr() as *mut _, buf.len());
            if n > 0 {
                out.extend_from_slice(&buf[..n as usize]);
            } else if n == 0 || std::io::Error::last_os_error().raw_os_error() != Some(libc::EINTR) {
                break;
            }
        }
        libc::close(p[0]);
        let mut status = 0;
        while libc::waitpid(pid, &mut status, 0) < 0 && std::io::Error::last_os_error().raw_os_error() == Some(libc::EINTR) {}
        if libc::WIFEXITED(status) && libc::WEXITSTATUS(status) == 0 {
            Some(String::from_utf8_lossy(&out).into_owned())
        } else {
            None
        }
    }
}

// ---------------------------------------------------------------- judgement

/// Answers the model's includes from what the execution really did
pub struct Replay<'a> {
    recs: &'a [Rec],
    pub at: usize,
    /// descriptors held against files being read
    pub fd_excess: Option<String>,
}
impl<'a> Replay<'a> {
    pub fn new(recs: &'a [Rec]) -> Self {
        Replay { recs, at: 0, fd_excess: None }
    }
    /// accesses that no include asked for
    pub fn leftover(&self) -> Option<&'a Rec> {
        self.recs[self.at..].iter().find(|r| !r.stat_only)
    }
}
impl<'a> Env for Replay<'a> {
    fn include(&mut self, abs: &str, depth: usize) -> Got {
        let mut stat_err = None;
        while let Some(r) = self.recs.get(self.at) {
            if !r.stat_only {
                break;
            }
            if r.abs == abs {
                stat_err = r.err;
                self.at += 1;
            } else if stat_err.is_some() {
                // looked, found nothing, and went on to the next file
                return Got::Failed(stat_err.unwrap());
            } else {
                return Got::Wrong(format!("looked at {} where {} is included", r.abs, abs));
            }
        }
        match self.recs.get(self.at) {
            None => match stat_err {
                Some(e) => Got::Failed(e),
                None => Got::Cut,
            },
            Some(r) if r.abs != abs => match stat_err {
                Some(e) => Got::Failed(e),
                None => Got::Wrong(format!("opened {} where {} is included", r.abs, abs)),
            },
            Some(r) => {
                self.at += 1;
                if let Some(e) = r.err {
                    return Got::Failed(e);
                }
                if r.fds > depth && self.fd_excess.is_none() {
                    self.fd_excess = Some(format!(
                        "{} descriptors are open while {} files are being read (at {})",
                        r.fds, depth, abs
                    ));
                }
                if let Some(e) = r.read_err {
                    return Got::Content(r.delivered.clone(), Some(e));
                }
                if !r.full {
                    return Got::Cut;
                }
                Got::Content(r.delivered.clone(), None)
            }
        }
    }
}

pub enum Judged {
    /// index of a state of the model that the result equals
    Fine { at: usize },
    Skip(String),
}
pub struct Judgement {
    pub stop: Option<Stop>,
    pub states: Vec<State>,
    pub at_last_open: usize,
    pub result: Result<Judged, Violation>,
    pub fd_excess: Option<String>,
    pub includes: usize,
    pub asked: Vec<(bool, bool)>,
    pub alt: Option<State>,
    pub evals: usize,
    pub max_depth: usize,
}
pub struct Judge<'a> {
    pub init: State,
    pub wd: &'a str,
    pub cc: char,
    pub main: &'a [u8],
    /// carry out the value of this variable rather than `main`
    pub var: Option<&'a str>,
    pub universe: &'a [String],
}
impl<'a> Judge<'a> {
    pub fn of(c: &'a Case, u: &'a [String]) -> Judge<'a> {
        Judge { init: State::default(), wd: &c.wd, cc: c.cc, main: &c.main, var: None, universe: u }
    }
    pub fn judge(&self, st: &mut Stats, res: &Res, dump: &Dump, recs: &[Rec]) -> Judgement {
        let mut env = Replay::new(recs);
        let mut m = Model::new(self.init.clone(), self.wd, self.cc, &mut env);
        let text = match std::str::from_utf8(self.main) {
            Ok(t) => t,
            Err(_) => {
                return Judgement {
                    stop: None,
                    states: vec![],
                    at_last_open: 0,
                    result: Ok(Judged::Skip("not text".into())),
                    fd_excess: None,
                    includes: 0,
                    asked: vec![],
                    alt: None,
                    evals: 0,
                    max_depth: 0,
                }
            }
        };
        let r = match self.var {
            None => m.block(text),
            Some(v) => match m.lookup(v) {
                Ok(t) => m.block(&t),
                Err(e) => Err(e),
            },
        };
        let (states, last, alt) = (std::mem::take(&mut m.states), m.at_last_open, m.alt.take());
        let asked = std::mem::take(&mut m.asked);
        let (includes, evals, max_depth) = (m.n_includes, m.n_evals, m.max_depth);
        for (k, n) in &m.probes {
            *st.probes.entry(format!("model: {}", k)).or_insert(0) += n;
        }
        let stop = r.err();
        let result = self.decide(&stop, &states, last, &alt, res, dump, &env);
        match &result {
            Ok(Judged::Skip(w)) => st.skip(w),
            _ => st.judged += 1,
        }
        Judgement { stop, states, at_last_open: last, result, fd_excess: env.fd_excess.clone(), includes, asked, alt, evals, max_depth }
    }
    fn decide(
        &self,
        stop: &Option<Stop>,
        states: &[State],
        last: usize,
        alt: &Option<State>,
        res: &Res,
        dump: &Dump,
        env: &Replay,
    ) -> Result<Judged, Violation> {
        let u = self.universe;
        let end = states.len() - 1;
        let exact = |what: &str| -> Result<Judged, Violation> {
            match obs::differ(&states[end], dump, u) {
                None => Ok(Judged::Fine { at: end }),
                Some(d) => {
                    if let Some(a) = alt {
                        if obs::differ(a, dump, u).is_none() {
                            return Ok(Judged::Fine { at: end });
                        }
                    }
                    violation("state", format!("{}: {}", what, d))
                }
            }
        };
        let prefix = |what: &str| -> Result<Judged, Violation> {
            let mut first = None;
            for i in (last..=end).rev() {
                match obs::differ(&states[i], dump, u) {
                    None => return Ok(Judged::Fine { at: i }),
                    Some(d) => first = first.or(Some(d)),
                }
            }
            if let Some(a) = alt {
                if obs::differ(a, dump, u).is_none() {
                    return Ok(Judged::Fine { at: end });
                }
            }
            violation(
                "prefix",
                format!(
                    "{}: the database is not what any of the first {}..{} statements leave behind (against the longest: {})",
                    what,
                    last,
                    end,
                    first.unwrap_or_default()
                ),
            )
        };
        if let Some(Stop::Unsupported(w)) = stop {
            return Ok(Judged::Skip(w.clone()));
        }
        if let Some(Stop::Mismatch(m)) = stop {
            return violation("opens", m.clone());
        }
        let left = || -> Result<(), Violation> {
            match env.leftover() {
                None => Ok(()),
                Some(r) => violation("opens", format!("{} was opened although nothing more is to be included", r.abs)),
            }
        };
        match stop {
            None => {
                left()?;
                match res {
                    Res::Ok => exact("after a complete read"),
                    Res::Panic { injected: true, .. } => prefix("after an interrupted read"),
                    r => violation("outcome", format!("the read should succeed but gave {:?}", r)),
                }
            }
            Some(Stop::Err(w)) | Some(Stop::EvalErr(w)) => {
                left()?;
                match (res, w) {
                    (Res::Panic { injected: true, .. }, _) => prefix("after an interrupted read"),
                    (Res::Include(k, n), Why::Include { name, errno, invalid_text, .. }) => {
                        let want = match errno {
                            Some(e) => io::Error::from_raw_os_error(*e).kind(),
                            None => ErrorKind::InvalidData,
                        };
                        let _ = invalid_text;
                        if n != name && !n.ends_with(&format!("/{}", name)) {
                            return violation("error", format!("the error names {:?} but {:?} failed", n, name));
                        }
                        if *k != want {
                            return violation("error", format!("{}: the error says {:?} but the reason is {:?}", name, k, want));
                        }
                        exact("after the include that failed")
                    }
                    (Res::Parse(_), Why::Parse(_)) => exact("after the statement that failed"),
                    (r, w) => violation("outcome", format!("the read should fail ({:?}) but gave {:?}", w, r)),
                }
            }
            Some(Stop::Cut) => match res {
                Res::Panic { injected: true, .. } => prefix("after an interrupted read"),
                r => violation("opens", format!("a named file was not opened or not read to its end; the read gave {:?}", r)),
            },
            Some(Stop::Unimplemented(_)) => match res {
                Res::Ok => Ok(Judged::Skip("construct is implemented after all".into())),
                _ => {
                    left()?;
                    prefix("after a construct that is not implemented")
                }
            },
            Some(Stop::Unsupported(_)) | Some(Stop::Mismatch(_)) => unreachable!(),
        }
    }
}
#[allow(dead_code)]
pub fn clean(w: &mut World) {
    w.plan = Plan::Clean;
}

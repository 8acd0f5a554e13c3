//! The search: many seeded runs, each in a process of its own, until the run
//! count or the time is used up; then minimisation, replay files and evidence.

use crate::choice::{hash_bytes, run_seed, Choices, MAX_CHOICES};
use crate::exec::{Stats, Verdict, Violation};
use crate::vos::{self, World};
use crate::{obs, props};
use std::collections::{BTreeMap, HashSet};
use std::io::{Read, Write};
use std::os::fd::FromRawFd;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

const SLOT: usize = 4 << 20;
const MIRROR: usize = MAX_CHOICES + 2;

fn shared(bytes: usize) -> *mut u8 {
    let p = unsafe {
        libc::mmap(
            std::ptr::null_mut(),
            bytes,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        )
    };
    assert!(p != libc::MAP_FAILED);
    p as *mut u8
}

/// Where a child leaves what it has to say
#[derive(Clone, Copy)]
struct Area {
    mirror: *mut u32,
    slot: *mut u8,
}
impl Area {
    fn new() -> Area {
        Area { mirror: shared(MIRROR * 4) as *mut u32, slot: shared(SLOT) }
    }
    fn clear(&self) {
        unsafe {
            (self.slot as *mut u32).write_volatile(0);
            self.mirror.write_volatile(0);
        }
    }
    fn put(&self, s: &[u8]) {
        let n = s.len().min(SLOT - 4);
        unsafe {
            std::ptr::copy_nonoverlapping(s.as_ptr(), self.slot.add(4), n);
            (self.slot as *mut u32).write_volatile(n as u32);
        }
    }
    fn get(&self) -> String {
        unsafe {
            let n = ((self.slot as *mut u32).read_volatile() as usize).min(SLOT - 4);
            String::from_utf8_lossy(std::slice::from_raw_parts(self.slot.add(4), n)).into_owned()
        }
    }
    fn choices(&self) -> Vec<u32> {
        unsafe {
            let n = (self.mirror.read_volatile() as usize).min(MIRROR - 1);
            (0..n).map(|i| self.mirror.add(i + 1).read_volatile()).collect()
        }
    }
}
static mut AREA: Option<Area> = None;

/// Called in a child that cannot go on
pub fn last_words(why: &str, w: &World) {
    #[allow(static_mut_refs)]
    unsafe {
        if let Some(a) = &AREA {
            let mut s = format!("died\t{}\n", esc(why));
            for t in w.trace.iter().rev().take(200).rev() {
                s.push_str(&format!("trace\t{}\n", esc(t)));
            }
            s.push_str(&format!("trace_hash\t{}\n", w.trace_hash));
            a.put(s.as_bytes());
        }
    }
}
fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t")
}
fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('t') => o.push('\t'),
                Some(c) => o.push(c),
                None => {}
            }
        } else {
            o.push(c)
        }
    }
    o
}

// ------------------------------------------------------------- one run

#[derive(Clone, Default)]
struct RunResult {
    violation: Option<Violation>,
    harness: Option<String>,
    st: Stats,
    choices: Vec<u32>,
}
enum Source {
    Seed(u64),
    Script(Vec<u32>),
}

fn encode(v: &Verdict, st: &Stats, known: &[String]) -> Vec<u8> {
    let mut s = String::new();
    if let Err(v) = v {
        s.push_str(&format!("violation\t{}\t{}\n", esc(&v.class), esc(&v.msg)));
    }
    for k in known {
        s.push_str(&format!("known\t{}\n", esc(k)));
    }
    for (k, n) in &st.fired {
        s.push_str(&format!("fired\t{}\t{}\n", esc(k), n));
    }
    for (k, n) in &st.probes {
        s.push_str(&format!("probe\t{}\t{}\n", esc(k), n));
    }
    for (k, n) in &st.why_skipped {
        s.push_str(&format!("skip\t{}\t{}\n", esc(k), n));
    }
    s.push_str(&format!(
        "nums\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\n",
        st.executions, st.logs, st.syscalls, st.trace_hash, st.judged, st.skipped, st.nontrivial as u64, st.state_hash
    ));
    for t in &st.trace {
        if s.len() > SLOT - 10_000 {
            break;
        }
        s.push_str(&format!("trace\t{}\n", esc(t)));
    }
    s.push_str("end\t\n");
    s.into_bytes()
}
fn decode(s: &str) -> (RunResult, bool, Option<String>) {
    let mut r = RunResult::default();
    let mut end = false;
    let mut died = None;
    for l in s.lines() {
        let f: Vec<&str> = l.split('\t').collect();
        let num = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
        match f[0] {
            "violation" => r.violation = Some(Violation { class: unesc(f[1]), msg: unesc(f[2]) }),
            "known" => r.st.trace.push(unesc(f[1])),
            "fired" => {
                r.st.fired.insert(unesc(f[1]), num(2));
            }
            "probe" => {
                r.st.probes.insert(unesc(f[1]), num(2));
            }
            "skip" => {
                r.st.why_skipped.insert(unesc(f[1]), num(2));
            }
            "nums" => {
                r.st.executions = num(1);
                r.st.logs = num(2);
                r.st.syscalls = num(3);
                r.st.trace_hash = num(4);
                r.st.judged = num(5);
                r.st.skipped = num(6);
                r.st.nontrivial = num(7) == 1;
                r.st.state_hash = num(8);
            }
            "trace" => r.st.trace.push(unesc(f[1])),
            "trace_hash" => r.st.trace_hash = num(1),
            "died" => died = Some(unesc(f[1])),
            "end" => end = true,
            _ => {}
        }
    }
    (r, end, died)
}
/// CPU seconds a single run may take; ordinary runs take milliseconds
const RUN_CPU: u64 = 10;
/// and what it gets when it is not through by then: only a run that exceeds
/// this as well is taken to be stuck
const LONG_CPU: u64 = 60;

/// One run in a process of its own
fn run_one(area: &Area, prop: &str, src: &Source, keep_trace: bool, known: bool) -> RunResult {
    let r = run_for(RUN_CPU, area, prop, src, keep_trace, known);
    match &r.violation {
        Some(v) if v.class == "stall" => run_for(LONG_CPU, area, prop, src, keep_trace, known),
        _ => r,
    }
}
fn run_for(cpu: u64, area: &Area, prop: &str, src: &Source, keep_trace: bool, known: bool) -> RunResult {
    area.clear();
    let pid = unsafe { libc::fork() };
    if pid < 0 {
        return RunResult { harness: Some("fork failed".into()), ..Default::default() };
    }
    if pid == 0 {
        unsafe {
            AREA = Some(*area);
            let lim = |r, n: u64| {
                let l = libc::rlimit { rlim_cur: n, rlim_max: n + 5 };
                libc::setrlimit(r, &l);
            };
            lim(libc::RLIMIT_CPU, cpu);
            lim(libc::RLIMIT_AS, 6 << 30);
            lim(libc::RLIMIT_CORE, 0);
            libc::alarm(4 * cpu as u32 + 60);
            if std::env::var_os("HSIM_DEBUG").is_none() {
                let n = libc::open(b"/dev/null\0".as_ptr() as *const libc::c_char, libc::O_WRONLY);
                libc::dup2(n, 2);
                libc::close(n);
            }
        }
        let mut ch = match src {
            Source::Seed(s) => Choices::seeded(*s),
            Source::Script(v) => Choices::scripted(v.clone()),
        };
        ch.mirror_to(area.mirror, MIRROR);
        let mut st = Stats { keep_trace, ..Default::default() };
        let bytes = if known {
            let k = props::known(prop, &mut ch, &mut st);
            encode(&Ok(()), &Stats::default(), &k)
        } else {
            let v = props::run(prop, &mut ch, &mut st);
            encode(&v, &st, &[])
        };
        area.put(&bytes);
        unsafe { libc::_exit(0) }
    }
    let mut status = 0;
    loop {
        let r = unsafe { libc::waitpid(pid, &mut status, 0) };
        if r == pid {
            break;
        }
        if r < 0 && std::io::Error::last_os_error().raw_os_error() != Some(libc::EINTR) {
            break;
        }
    }
    let (mut r, end, died) = decode(&area.get());
    r.choices = area.choices();
    while r.choices.last() == Some(&0) {
        r.choices.pop();
    }
    let vio = |class: &str, msg: String| Some(Violation { class: class.into(), msg });
    if libc::WIFEXITED(status) {
        match libc::WEXITSTATUS(status) {
            0 if end => {}
            vos::EXIT_DEADLOCK => r.violation = vio("deadlock", "every thread waits for another".into()),
            vos::EXIT_STEPS => r.violation = vio("hang", died.unwrap_or_else(|| "the step budget is exceeded".into())),
            vos::EXIT_BIG => r.st.skip("a text grows beyond what is worth looking at"),
            101 => r.harness = Some("the harness panicked".into()),
            c => r.harness = Some(format!("run ended with status {} ({})", c, died.unwrap_or_default())),
        }
    } else {
        let sig = libc::WTERMSIG(status);
        r.violation = match sig {
            libc::SIGXCPU => vio("stall", format!("a run uses more than {} s of processor time", cpu)),
            libc::SIGALRM => vio("stall", "a run makes no progress at all".into()),
            libc::SIGKILL => {
                r.harness = Some("a run was killed from outside".into());
                None
            }
            s => vio("abort", format!("the process dies with signal {} (stack exhausted, abort or memory exhausted)", s)),
        };
    }
    r
}

// ------------------------------------------------------------- the search

#[derive(Default)]
struct Totals {
    runs: u64,
    st: Stats,
    nontrivial: HashSet<u64>,
    traces: HashSet<u64>,
    states: HashSet<u64>,
    harness: Vec<String>,
}
fn add(m: &mut BTreeMap<String, u64>, o: &BTreeMap<String, u64>) {
    for (k, n) in o {
        *m.entry(k.clone()).or_insert(0) += n;
    }
}
impl Totals {
    fn add(&mut self, r: &RunResult) {
        self.runs += 1;
        self.st.executions += r.st.executions;
        self.st.logs += r.st.logs;
        self.st.syscalls += r.st.syscalls;
        self.st.judged += r.st.judged;
        self.st.skipped += r.st.skipped;
        add(&mut self.st.fired, &r.st.fired);
        add(&mut self.st.probes, &r.st.probes);
        add(&mut self.st.why_skipped, &r.st.why_skipped);
        self.traces.insert(r.st.trace_hash);
        if r.st.nontrivial {
            self.nontrivial.insert(r.st.trace_hash);
        }
        if r.st.state_hash != 0 {
            self.states.insert(r.st.state_hash);
        }
        if let Some(h) = &r.harness {
            self.harness.push(h.clone());
        }
    }
    fn text(&self) -> String {
        let mut s = String::new();
        s.push_str(&format!("runs\t{}\n", self.runs));
        for h in &self.harness {
            s.push_str(&format!("harness\t{}\n", esc(h)));
        }
        for (k, v) in [("T", &self.traces), ("N", &self.nontrivial), ("S", &self.states)] {
            for x in v {
                s.push_str(&format!("{}\t{}\n", k, x));
            }
        }
        s.push_str(&String::from_utf8(encode(&Ok(()), &self.st, &[])).unwrap());
        s
    }
    fn merge(&mut self, text: &str) {
        let (r, _, _) = decode(text);
        self.st.executions += r.st.executions;
        self.st.logs += r.st.logs;
        self.st.syscalls += r.st.syscalls;
        self.st.judged += r.st.judged;
        self.st.skipped += r.st.skipped;
        add(&mut self.st.fired, &r.st.fired);
        add(&mut self.st.probes, &r.st.probes);
        add(&mut self.st.why_skipped, &r.st.why_skipped);
        for l in text.lines() {
            if let Some((k, v)) = l.split_once('\t') {
                let n = || v.parse::<u64>().unwrap_or(0);
                match k {
                    "runs" => self.runs += n(),
                    "harness" => self.harness.push(unesc(v)),
                    "T" => {
                        self.traces.insert(n());
                    }
                    "N" => {
                        self.nontrivial.insert(n());
                    }
                    "S" => {
                        self.states.insert(n());
                    }
                    _ => {}
                }
            }
        }
    }
}

struct Search {
    totals: Totals,
    worst: Option<u64>,
    wall: f64,
    samples: Vec<u64>,
}
fn search(prop: &str, seed: u64, count: u64, cap: Duration, workers: usize) -> Search {
    let t0 = Instant::now();
    let ctl = shared(4096) as *const AtomicU64;
    let next = unsafe { &*ctl };
    let worst = unsafe { &*ctl.add(1) };
    worst.store(u64::MAX, SeqCst);
    let mut pipes = vec![];
    for _ in 0..workers {
        let mut fd = [0i32; 2];
        unsafe { assert!(libc::pipe(fd.as_mut_ptr()) == 0) };
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            unsafe { libc::close(fd[0]) };
            unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
            let area = Area::new();
            let mut t = Totals::default();
            loop {
                let i = next.fetch_add(1, SeqCst);
                if i >= count || i > worst.load(SeqCst) || t0.elapsed() > cap {
                    break;
                }
                let r = run_one(&area, prop, &Source::Seed(run_seed(seed, prop, i)), false, false);
                t.add(&r);
                if r.violation.is_some() {
                    worst.fetch_min(i, SeqCst);
                }
                if t.harness.len() > 3 {
                    break;
                }
            }
            let mut f = unsafe { std::fs::File::from_raw_fd(fd[1]) };
            let _ = f.write_all(t.text().as_bytes());
            drop(f);
            unsafe { libc::_exit(0) };
        }
        unsafe { libc::close(fd[1]) };
        pipes.push((pid, fd[0]));
    }
    let mut totals = Totals::default();
    for (pid, fd) in pipes {
        let mut s = String::new();
        let mut f = unsafe { std::fs::File::from_raw_fd(fd) };
        let _ = f.read_to_string(&mut s);
        totals.merge(&s);
        let mut status = 0;
        unsafe { libc::waitpid(pid, &mut status, 0) };
        if status != 0 {
            totals.harness.push(format!("a worker ended with status {}", status));
        }
    }
    let w = worst.load(SeqCst);
    Search {
        totals,
        worst: if w == u64::MAX { None } else { Some(w) },
        wall: t0.elapsed().as_secs_f64(),
        samples: vec![0, 1, 2],
    }
}

// ----------------------------------------------------------- minimisation

fn minimise(area: &Area, prop: &str, start: Vec<u32>, class: &str, limit: Duration) -> (Vec<u32>, u64) {
    let t0 = Instant::now();
    let mut best = start;
    let mut tried = 0u64;
    let mut seen: HashSet<u64> = HashSet::new();
    let mut test = |v: &Vec<u32>, tried: &mut u64| -> Option<Vec<u32>> {
        let key = hash_bytes(&v.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<u8>>());
        if !seen.insert(key) || t0.elapsed() > limit {
            return None;
        }
        *tried += 1;
        let r = run_for(RUN_CPU, area, prop, &Source::Script(v.clone()), false, false);
        match r.violation {
            Some(x) if x.class == class => Some(r.choices),
            _ => None,
        }
    };
    loop {
        let before = best.clone();
        // delete blocks
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.len() {
                let mut v = best.clone();
                let e = (i + size).min(v.len());
                v.drain(i..e);
                match test(&v, &mut tried) {
                    Some(n) if n.len() < best.len() || (n.len() == best.len() && n < best) => best = n,
                    _ => i += size,
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // simplest answers
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.len() {
                let e = (i + size).min(best.len());
                if best[i..e].iter().any(|&x| x != 0) {
                    let mut v = best.clone();
                    v[i..e].iter_mut().for_each(|x| *x = 0);
                    if let Some(n) = test(&v, &mut tried) {
                        if n.len() <= best.len() {
                            best = n;
                        }
                    }
                }
                i += size;
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // smaller answers
        let mut i = 0;
        while i < best.len() {
            let x = best[i];
            for y in [x / 2, x.wrapping_sub(1)] {
                if y < x {
                    let mut v = best.clone();
                    v[i] = y;
                    if let Some(n) = test(&v, &mut tried) {
                        if n.len() <= best.len() {
                            best = n;
                            break;
                        }
                    }
                }
            }
            i += 1;
        }
        if best == before || t0.elapsed() > limit {
            break;
        }
    }
    (best, tried)
}

// ------------------------------------------------------------------ json

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jmap(m: &BTreeMap<String, u64>) -> String {
    let v: Vec<String> = m.iter().map(|(k, n)| format!("{}: {}", js(k), n)).collect();
    format!("{{{}}}", v.join(", "))
}
fn jlist(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "))
}

// ---------------------------------------------------------------- commands

fn verif() -> String {
    std::env::var("HSIM_OUT").unwrap_or_else(|_| "/verif".into())
}
fn calibrate() {
    // in a child: nothing of it may remain in this process
    let p = shared(4096);
    let pid = unsafe { libc::fork() };
    if pid == 0 {
        let (a, b) = obs::calibrate();
        unsafe {
            p.write_volatile(1 + a as u8);
            p.add(1).write_volatile(1 + b as u8);
            libc::_exit(0)
        }
    }
    let mut s = 0;
    unsafe { libc::waitpid(pid, &mut s, 0) };
    unsafe {
        obs::SEE_COMMANDS.store(p.read_volatile() == 2, SeqCst);
        obs::SEE_KIND.store(p.add(1).read_volatile() == 2, SeqCst);
    }
}

struct Budget {
    runs: u64,
    secs: u64,
}
fn budget(prop: &str, tier: &str) -> Budget {
    let q = match prop {
        "C09" => 25_000,
        "C14" => 30_000,
        "C05" => 120_000,
        _ => 60_000,
    };
    if tier == "thorough" {
        Budget { runs: q * 60, secs: 3000 }
    } else {
        Budget { runs: q, secs: 240 }
    }
}

fn check(prop: &str, tier: &str, seed: u64, runs: Option<u64>, workers: usize) -> i32 {
    let t0 = Instant::now();
    let area = Area::new();
    let mut b = budget(prop, tier);
    if let Some(r) = runs {
        b.runs = r;
    }
    let k = run_one(&area, prop, &Source::Script(vec![]), false, true);
    if let Some(h) = k.harness {
        eprintln!("hsim: {}", h);
        return 2;
    }
    let listed = known_list(prop);
    let mut unlisted = vec![];
    for f in &k.st.trace {
        if listed.iter().any(|l| l == f) {
            println!("KNOWN-FINDING: property={} {}", prop, f);
        } else {
            unlisted.push(f.clone());
        }
    }
    let s = search(prop, seed, b.runs, Duration::from_secs(b.secs), workers);
    if !s.totals.harness.is_empty() {
        eprintln!("hsim: {} (and {} more)", s.totals.harness[0], s.totals.harness.len() - 1);
        return 2;
    }
    let mut code = 0;
    let mut nviol = 0;
    if let Some(i) = s.worst {
        nviol = 1;
        code = 1;
        let path = report(&area, prop, seed, i);
        println!("VIOLATION property={} replay={}", prop, path);
    } else if !unlisted.is_empty() {
        nviol = 1;
        code = 1;
        let path = format!("{}/replays/{}-fixed.replay", verif(), prop);
        let _ = std::fs::create_dir_all(format!("{}/replays", verif()));
        let _ = std::fs::write(&path, format!("property={}\nfixed history\nmessage={}\n", prop, unlisted[0]));
        println!("VIOLATION property={} replay={}", prop, path);
    }
    evidence(&area, prop, tier, seed, &s, t0.elapsed().as_secs_f64(), nviol, &k.st.trace, workers);
    code
}

/// findings of this property that are recorded and not repaired
fn known_list(prop: &str) -> Vec<String> {
    let p = format!("{}/KNOWN_FINDINGS.txt", verif());
    let pre = format!("finding: property={} ", prop);
    std::fs::read_to_string(p).unwrap_or_default().lines().filter_map(|l| l.strip_prefix(&pre).map(|s| s.trim().to_string())).collect()
}

fn report(area: &Area, prop: &str, seed: u64, index: u64) -> String {
    let rs = run_seed(seed, prop, index);
    let first = run_one(area, prop, &Source::Seed(rs), false, false);
    let mut note = String::new();
    let (choices, class, tried) = match &first.violation {
        None => {
            note = "the violation did not occur again in a second run of the same seed: the code under test depends on something outside the simulation".into();
            (first.choices.clone(), String::new(), 0)
        }
        Some(v) => {
            let (c, n) = minimise(area, prop, first.choices.clone(), &v.class, Duration::from_secs(60));
            let slow = v.class == "stall" && {
                // the smaller ones had less time
                let r = run_for(LONG_CPU, area, prop, &Source::Script(c.clone()), false, false);
                r.violation.map_or(true, |w| w.class != "stall")
            };
            (if slow { first.choices.clone() } else { c }, v.class.clone(), n)
        }
    };
    let a = run_one(area, prop, &Source::Script(choices.clone()), true, false);
    // a run that was cut short by the clock is not compared: it takes minutes
    let b = if class == "stall" { run_for(1, area, prop, &Source::Script(choices.clone()), true, false) } else { run_one(area, prop, &Source::Script(choices.clone()), true, false) };
    if class != "stall" && note.is_empty() && (a.st.trace_hash != b.st.trace_hash || a.violation.as_ref().map(|v| &v.msg) != b.violation.as_ref().map(|v| &v.msg)) {
        note = "two replays differ: the code under test depends on something outside the simulation".into();
    }
    let dir = format!("{}/replays", verif());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{}/{}-{}.replay", dir, prop, index);
    let mut t = String::new();
    t.push_str(&format!("property={}\nseed={}\nindex={}\nrun_seed={}\n", prop, seed, index, rs));
    t.push_str(&format!("class={}\n", class));
    if let Some(v) = &a.violation {
        t.push_str(&format!("message={}\n", v.msg.replace('\n', "\\n")));
        eprintln!("hsim: {} [{}] {}", prop, v.class, v.msg);
    }
    if !note.is_empty() {
        t.push_str(&format!("note={}\n", note));
        eprintln!("hsim: {}", note);
    }
    t.push_str(&format!("trace_hash={}\n", a.st.trace_hash));
    t.push_str(&format!("minimised={} choices, from {} with {} runs\n", choices.len(), first.choices.len(), tried));
    let c: Vec<String> = choices.iter().map(|x| x.to_string()).collect();
    t.push_str(&format!("choices={}\n", c.join(" ")));
    t.push_str("-- workload, schedule and faults of the minimised run --\n");
    for l in &a.st.trace {
        t.push_str(l);
        t.push('\n');
    }
    let _ = std::fs::write(&path, t);
    path
}

fn replay(path: &str) -> i32 {
    let t = match std::fs::read_to_string(path) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("hsim: {}: {}", path, e);
            return 2;
        }
    };
    let get = |k: &str| t.lines().find_map(|l| l.strip_prefix(&format!("{}=", k))).unwrap_or("").to_string();
    let prop = get("property");
    let c: Vec<u32> = get("choices").split_whitespace().filter_map(|x| x.parse().ok()).collect();
    let area = Area::new();
    let r = run_one(&area, &prop, &Source::Script(c), true, false);
    for l in &r.st.trace {
        println!("{}", l);
    }
    println!("trace_hash={} (recorded {})", r.st.trace_hash, get("trace_hash"));
    if let Some(h) = r.harness {
        eprintln!("hsim: {}", h);
        return 2;
    }
    match r.violation {
        Some(v) => {
            println!("[{}] {}", v.class, v.msg);
            println!("VIOLATION property={} replay={}", prop, path);
            1
        }
        None => {
            println!("no violation");
            0
        }
    }
}

fn evidence(area: &Area, prop: &str, tier: &str, seed: u64, s: &Search, wall: f64, nviol: u64, known: &[String], workers: usize) {
    let t = &s.totals;
    let mut samples = vec![];
    for &i in &s.samples {
        let r = run_for(RUN_CPU, area, prop, &Source::Seed(run_seed(seed, prop, i)), true, false);
        let mut lines: Vec<String> = r.st.trace.iter().take(120).cloned().collect();
        if r.st.trace.len() > 120 {
            lines.push(format!("... {} more lines", r.st.trace.len() - 120));
        }
        samples.push(format!("{{\"index\": {}, \"run_seed\": {}, \"choices\": {}, \"trace\": {}}}", i, run_seed(seed, prop, i), r.choices.len(), jlist(&lines)));
    }
    let per_hour = if s.wall > 0.0 { (t.runs as f64 / s.wall * 3600.0) as u64 } else { 0 };
    let faults: BTreeMap<String, u64> = t.st.fired.iter().filter(|(k, _)| !k.ends_with("_calls")).map(|(k, v)| (k.clone(), *v)).collect();
    let calls: BTreeMap<String, u64> = t.st.fired.iter().filter(|(k, _)| k.ends_with("_calls")).map(|(k, v)| (k.clone(), *v)).collect();
    let mut o = String::from("{\n");
    o.push_str(&format!(" \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n", js(prop), js(tier), seed));
    o.push_str(" \"coverage\": {\n");
    o.push_str(&format!("  \"evaluations\": {},\n", t.runs));
    o.push_str(&format!("  \"distinct_nontrivial\": {},\n", t.nontrivial.len()));
    o.push_str(&format!("  \"rule\": {},\n", js(rule(prop))));
    o.push_str(&format!("  \"samples\": [{}],\n", samples.join(",\n   ")));
    o.push_str(&format!("  \"simulated_runs\": {},\n  \"runs_per_hour\": {},\n  \"search_wall_s\": {:.2},\n  \"worker_processes\": {},\n", t.runs, per_hour, s.wall, workers));
    o.push_str(&format!("  \"engine_executions\": {},\n  \"executions_judged\": {},\n  \"executions_outside_the_model\": {},\n  \"why_outside\": {},\n", t.st.executions, t.st.judged, t.st.skipped, jmap(&t.st.why_skipped)));
    o.push_str(&format!("  \"simulated_steps\": {{\"log_calls\": {}, \"system_and_stream_calls\": {}}},\n", t.st.logs, t.st.syscalls));
    o.push_str("  \"simulated_time\": \"the engine has no timers; time is counted in steps (log calls, system calls and stream calls of the engine), and the simulated clock only moves when it is read\",\n");
    o.push_str(&format!("  \"faults_injected\": {},\n  \"ambient_calls\": {},\n", jmap(&faults), jmap(&calls)));
    o.push_str(&format!("  \"distinct_interleavings\": {},\n  \"interleaving_measure\": \"hash of the ordered sequence of stream calls, system calls, injected faults, thread switches and outcomes of a run\",\n", t.traces.len()));
    o.push_str(&format!("  \"distinct_states\": {},\n  \"state_measure\": \"hash of the complete visible database at the end of the executions of a run\",\n", t.states.len()));
    o.push_str(&format!("  \"probes\": {},\n", jmap(&t.st.probes)));
    o.push_str("  \"real_code\": [\"all of hastur built from /repo\", \"nom, im, string-interner and the other dependencies\", \"Rust standard library down to libc\"],\n");
    o.push_str("  \"stubbed\": [\"libc file, directory, time, randomness, process id and futex calls\", \"the caller's stream\", \"the log sink\", \"thread scheduling (one baton)\"],\n");
    o.push_str(&format!("  \"commands_visible\": {}, \"rule_kind_visible\": {},\n", obs::SEE_COMMANDS.load(SeqCst), obs::SEE_KIND.load(SeqCst)));
    o.push_str(&format!("  \"known_findings\": {}\n", jlist(known)));
    o.push_str(" },\n");
    o.push_str(" \"assumptions\": [\"a run is a sample of the seeded search, not an enumeration\", \"the engine reaches the outside world only through libc symbols, the stream and the log facade\", \"the reference model is right about the text it accepts; text it does not know is skipped and counted\"],\n");
    o.push_str(&format!(" \"wall_s\": {:.2},\n \"violations\": {}\n}}\n", wall, nviol));
    let dir = format!("{}/evidence", verif());
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::write(format!("{}/{}.json", dir, prop), o);
}
fn rule(p: &str) -> &'static str {
    match p {
        "C01" => "generated include tree (sometimes truncated or with invalid bytes) read plainly and under 1-3 random deliveries; non-trivial: the text is not empty and at least one delivery fault fired; distinct by trace",
        "C02" => "generated makefile, prior reads, 1-3 failing attempts, retry; non-trivial: the text is not empty; distinct by trace",
        "C03" => "generated include tree that conforms undisturbed, then 1-3 executions with one mandatory include failing; non-trivial: a failure was injected and judged; distinct by trace",
        "C04" => "generated include tree that conforms undisturbed, then optional includes failing to open, or failing after opening; non-trivial: a failure was injected and judged; distinct by trace",
        "C05" => "generated include tree with evals, conditionals, rules and definitions under clean, noisy or failing delivery, judged by the reference model; non-trivial: judged and more than two statements took effect; distinct by trace",
        "C06" => "generated include tree with 1-6 acts of a concurrent writer; non-trivial: at least one act happened; distinct by trace",
        "C07" => "generated include tree interrupted at 1-3 random points, then a further read; non-trivial: an interrupted execution was judged; distinct by trace",
        "C08" => "history of 3-9 reads, snapshots, restores, additions and expansions; non-trivial: at least one snapshot was taken; distinct by trace",
        "C09" => "2-4 threads with their own engines under one seeded schedule, then each alone; non-trivial: at least one thread switch; distinct by trace, which contains every switch",
        "C10" => "generated include tree, decoy files and process directories that differ, move and vanish; non-trivial: at least one file was included; distinct by trace",
        "C11" => "generated include tree under errors, panics and full descriptor tables; non-trivial: at least one file was really opened; distinct by trace",
        "C12" => "truncated texts, include cycles, interruption storms, failing streams, arbitrary text; every run is non-trivial; distinct by trace",
        "C13" => "the same tree and faults executed 2-3 times with other hash seeds, clock, environment, log level, process history; non-trivial: the result holds at least two variables or rules; distinct by trace",
        _ => "history of 1-4 reads (repeated up to 40 times, cut, failing, interrupted, other settings), then one read compared with new engines; every run is non-trivial; distinct by trace",
    }
}

/// The same seeds twice and with different numbers of workers
fn selftest(n: u64) -> i32 {
    let area = Area::new();
    let mut bad = 0;
    for p in props::ALL {
        for i in 0..n {
            let s = run_seed(99, p, i);
            let a = run_one(&area, p, &Source::Seed(s), false, false);
            let b = run_one(&area, p, &Source::Seed(s), true, false);
            let c = run_one(&area, p, &Source::Script(a.choices.clone()), false, false);
            for (what, x) in [("a second time", &b), ("from its trace", &c)] {
                if a.st.trace_hash != x.st.trace_hash || a.st.state_hash != x.st.state_hash || a.violation.is_some() != x.violation.is_some() {
                    println!("{} index {}: differs {}", p, i, what);
                    bad += 1;
                }
            }
        }
        let x = search(p, 7, 60, Duration::from_secs(600), 1);
        let y = search(p, 7, 60, Duration::from_secs(600), 8);
        if x.totals.traces != y.totals.traces || x.totals.states != y.totals.states {
            println!("{}: one worker and eight differ", p);
            bad += 1;
        }
        println!("{}: {} runs compared", p, n);
    }
    if bad > 0 {
        2
    } else {
        0
    }
}

pub fn main() {
    let a: Vec<String> = std::env::args().collect();
    let opt = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned());
    let num = |k: &str| opt(k).and_then(|v| v.parse::<u64>().ok());
    let seed = num("--seed").or_else(|| std::env::var("VERIF_SEED").ok().and_then(|v| v.parse().ok())).unwrap_or(1);
    let tier = opt("--tier").or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or_else(|| "quick".into());
    let workers = num("--workers").unwrap_or(8) as usize;
    calibrate();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => check(&a[2], &tier, seed, num("--runs"), workers),
        Some("replay") => replay(&a[2]),
        Some("one") => {
            let area = Area::new();
            let i = num("--index").unwrap_or(0);
            let r = run_one(&area, &a[2], &Source::Seed(run_seed(seed, &a[2], i)), true, false);
            for l in &r.st.trace {
                println!("{}", l);
            }
            println!("{:?} {:?}", r.violation, r.harness);
            0
        }
        Some("selftest") => selftest(num("--runs").unwrap_or(40)),
        _ => {
            eprintln!("usage: hsim check PROPERTY [--tier quick|thorough] [--seed N] [--runs N] | replay FILE | one PROPERTY --index N | selftest");
            2
        }
    };
    std::process::exit(code);
}

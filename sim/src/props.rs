//! One scenario per property. A scenario draws a workload, a schedule and
//! faults from the run's choices, carries them out with the real engine in one
//! or more simulated worlds, and judges what happened.

use crate::choice::Choices;
use crate::ensure;
use crate::exec::*;
use crate::gen::{self, Case, Opts};
use crate::model::State;
use crate::obs::{self, dump_diff, Dump};
use crate::sched;
use crate::vos::{self, draw_open_plan, Mix, OpenPlan, Plan, Rec, Trig, World, WriterAct, WriterOp};
use hastur::{Database, NameCache, VariableName};
use libc::*;
use std::collections::BTreeMap;
use std::io::ErrorKind;

pub const ALL: &[&str] =
    &["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14"];

pub fn run(prop: &str, ch: &mut Choices, st: &mut Stats) -> Verdict {
    match prop {
        "C01" => c01(ch, st),
        "C02" => c02(ch, st),
        "C03" => c03(ch, st),
        "C04" => c04(ch, st),
        "C05" => c05(ch, st),
        "C06" => c06(ch, st),
        "C07" => c07(ch, st),
        "C08" => c08(ch, st),
        "C09" => c09(ch, st),
        "C10" => c10(ch, st),
        "C11" => c11(ch, st),
        "C12" => c12(ch, st),
        "C13" => c13(ch, st),
        "C14" => c14(ch, st),
        _ => vos::die("no such property"),
    }
}

// ----------------------------------------------------------------- helpers

const OPEN_ERRNOS: &[i32] = &[
    ENOENT, EACCES, ENOTDIR, EMFILE, ENFILE, ELOOP, EIO, ENOMEM, EPERM, ENXIO, ENAMETOOLONG, ETIMEDOUT, ESTALE, EAGAIN, ENODEV, EBUSY, EROFS,
    EOVERFLOW, EINVAL, ETXTBSY, ENOSPC, EDQUOT, EISDIR, ECONNREFUSED, EHOSTUNREACH, ENOSYS,
];
const READ_ERRNOS: &[i32] = &[
    EIO, ESTALE, ENOMEM, EAGAIN, EISDIR, ETIMEDOUT, EACCES, EINVAL, ENODEV, ECONNRESET, ECONNABORTED, EPIPE, EBADF, EREMOTEIO, ENOTCONN, EOVERFLOW,
    ENXIO, EBUSY, ENODATA, EBADMSG,
];

/// how a caller's stream may end early
fn some_failure(ch: &mut Choices) -> Fail {
    match ch.draw(4) {
        0 | 1 => Fail::Panic,
        2 => Fail::Err(*ch.pick(KINDS), "cut".into()),
        _ => Fail::Os(*ch.pick(READ_ERRNOS)),
    }
}

/// ways of delivering the same bytes
fn delivery() -> Mix {
    Mix { open_eintr: 200, chunk: 500, eintr: 300, size_lie: 250, ..Default::default() }
}
fn trouble() -> Mix {
    Mix {
        open_err: 80,
        read_err: 60,
        read_err_once: 500,
        errnos: OPEN_ERRNOS.to_vec(),
        read_errnos: READ_ERRNOS.to_vec(),
        ..delivery()
    }
}
fn deliver(ch: &mut Choices, bytes: &[u8]) -> Stream {
    let mut s = Stream::plain(bytes);
    if ch.chance(3, 4) {
        let n = ch.range(1, 4);
        for _ in 0..n {
            let c = *ch.pick(&[1usize, 2, 3, 5, 7, 13, 64, 200, 1000, 4096]);
            s.chunks.push(c);
        }
    }
    if ch.chance(1, 3) {
        let n = ch.range(1, 3);
        for _ in 0..n {
            s.eintr.push(ch.draw(4));
        }
    }
    if ch.chance(1, 2) {
        s.cap = *ch.pick(&[1usize, 2, 3, 7, 16, 64, 512, 8192]);
    }
    s
}
fn opens(r: &[Rec]) -> Vec<(String, Option<i32>)> {
    r.iter().filter(|r| !r.stat_only).map(|r| (r.abs.clone(), r.err)).collect()
}
fn same_out(what: &str, class: &str, a: &Out, b: &Out, order: bool) -> Verdict {
    ensure!(a.res == b.res, class, "{}: the outcome is {:?} but {:?} without it", what, b.res, a.res);
    if let Some(d) = dump_diff(&a.dump, &b.dump, order) {
        return violation(class, format!("{}: {} (without it against with it)", what, d));
    }
    let (x, y) = (opens(&a.recs), opens(&b.recs));
    ensure!(x == y, class, "{}: files opened are {:?} but {:?} without it", what, y, x);
    Ok(())
}
/// put bytes into a text that are not valid text
fn spoil(ch: &mut Choices, b: &mut Vec<u8>) {
    let at = ch.draw(b.len() as u32 + 1) as usize;
    match ch.draw(3) {
        0 => b.insert(at, *ch.pick(&[0xffu8, 0x80, 0xc0, 0xfe])),
        1 => {
            // a multi-byte character cut short
            for x in ch.pick(&[&[0xe6u8, 0x97][..], &[0xf0, 0x9d, 0x95], &[0xc3]]).iter().rev() {
                b.insert(at, *x);
            }
        }
        _ => {
            b.truncate(at);
            b.push(0xc3);
        }
    }
}
fn truncate_at(ch: &mut Choices, b: &mut Vec<u8>) {
    let at = ch.draw(b.len() as u32 + 1) as usize;
    b.truncate(at);
}
/// Plan for the j-th open; the others are delivered as `noise` says
fn script(ch: &mut Choices, n: usize, j: usize, p: OpenPlan, noise: bool) -> Plan {
    let mut v = vec![];
    for i in 0..n + 4 {
        v.push(if i == j {
            p.clone()
        } else if noise {
            draw_open_plan(ch, &delivery())
        } else {
            OpenPlan::default()
        });
    }
    Plan::Script(vec![v], vec![0])
}
fn desc(c: &Case) -> String {
    let mut s = format!("recipe prefix {:?}\n== main\n{}", c.cc, String::from_utf8_lossy(&c.main));
    for (p, b) in &c.files {
        s.push_str(&format!("\n== {}\n{}", p, String::from_utf8_lossy(b)));
    }
    s
}
fn show(st: &mut Stats, c: &Case) {
    if st.keep_trace {
        for l in desc(c).lines() {
            st.trace.push(format!("    {}", l));
        }
    }
}
fn conforms(st: &mut Stats, c: &Case, u: &[String], o: &Out) -> bool {
    let j = Judge::of(c, u).judge(st, &o.res, &o.dump, &o.recs);
    matches!(j.result, Ok(Judged::Fine { .. }))
}
fn count_fired(st: &Stats) -> u64 {
    st.fired.iter().filter(|(k, _)| !k.ends_with("_calls")).map(|(_, n)| n).sum()
}

// ---------------------------------------------------------------- C01

fn c01(ch: &mut Choices, st: &mut Stats) -> Verdict {
    let u = gen::universe();
    let mut c = gen::case(ch, Opts { errors: true, hard_missing: true, pad: true, ..Default::default() });
    match ch.draw(6) {
        0 => spoil(ch, &mut c.main),
        1 => truncate_at(ch, &mut c.main),
        2 => {
            let i = ch.draw(c.files.len() as u32) as usize;
            spoil(ch, &mut c.files[i].1);
        }
        3 => {
            let i = ch.draw(c.files.len() as u32) as usize;
            truncate_at(ch, &mut c.files[i].1);
        }
        _ => {}
    }
    show(st, &c);
    let mut w = build_world(ch, &c);
    let a = run_case(st, &mut w, &c, &Stream::plain(&c.main), &u);
    let n = ch.range(1, 3);
    for _ in 0..n {
        let s = deliver(ch, &c.main);
        let mut w = build_world(ch, &c);
        if ch.chance(3, 4) {
            w.plan = Plan::Random(delivery());
        }
        let b = run_case(st, &mut w, &c, &s, &u);
        st.judged += 1;
        same_out("delivered in pieces", "delivery", &a, &b, false)?;
    }
    st.mix_state(&a.dump);
    st.nontrivial = c.main.len() > 1 && count_fired(st) > 0;
    Ok(())
}

// ---------------------------------------------------------------- C02

const KINDS: &[ErrorKind] = &[
    ErrorKind::Other,
    ErrorKind::WouldBlock,
    ErrorKind::UnexpectedEof,
    ErrorKind::BrokenPipe,
    ErrorKind::TimedOut,
    ErrorKind::ConnectionReset,
    ErrorKind::PermissionDenied,
    ErrorKind::InvalidInput,
    ErrorKind::NotFound,
    ErrorKind::InvalidData,
    ErrorKind::ConnectionAborted,
    ErrorKind::ConnectionRefused,
    ErrorKind::NotConnected,
    ErrorKind::AddrInUse,
    ErrorKind::AlreadyExists,
    ErrorKind::WriteZero,
    ErrorKind::OutOfMemory,
    ErrorKind::Unsupported,
];

fn os_kind(n: i32) -> ErrorKind {
    std::io::Error::from_raw_os_error(n).kind()
}
fn os_text(n: i32) -> String {
    std::io::Error::from_raw_os_error(n).to_string()
}

fn c02(ch: &mut Choices, st: &mut Stats) -> Verdict {
    let u = gen::universe();
    let c = gen::case(ch, Opts { errors: true, hard_missing: true, pad: true, ..Default::default() });
    show(st, &c);
    let prior: Vec<Vec<u8>> = (0..ch.draw(3))
        .map(|i| gen::small_main(ch, c.cc, Opts { lit_base: 1000 * (i + 1), errors: true, ..Default::default() }))
        .collect();
    // the failing attempts
    let n = ch.range(1, 3);
    let mut tries: Vec<Stream> = vec![];
    for k in 0..n {
        let mut s = deliver(ch, &c.main);
        match ch.draw(4) {
            0 => {
                // not text
                let at = ch.draw(s.bytes.len() as u32 + 1) as usize;
                let bad = *ch.pick(&[0xffu8, 0x80, 0xc0]);
                // never in the middle of a character that it could complete
                let at = (0..=at).rev().find(|&i| i == s.bytes.len() || s.bytes[i] & 0xc0 != 0x80).unwrap_or(0);
                s.bytes.insert(at, bad);
            }
            1 => {
                let at = ch.draw(s.bytes.len() as u32 + 1) as usize;
                s.fail = Some((at, Fail::Panic));
            }
            _ => {
                // favour the ends of lines and of the text
                let at = match ch.draw(3) {
                    0 => s.bytes.len(),
                    1 => {
                        let v: Vec<usize> = (0..s.bytes.len()).filter(|&i| s.bytes[i] == b'\n').map(|i| i + 1).collect();
                        if v.is_empty() {
                            0
                        } else {
                            *ch.pick(&v)
                        }
                    }
                    _ => ch.draw(s.bytes.len() as u32 + 1) as usize,
                };
                // (errors of the system carry a number and no text of their own)
                s.fail = Some((at, match ch.chance(1, 3) {
                    true => Fail::Os(*ch.pick(READ_ERRNOS)),
                    false => Fail::Err(*ch.pick(KINDS), format!("sim failure {}-{}", k, at)),
                }));
                s.fail_once = ch.chance(1, 2);
            }
        }
        tries.push(s);
    }
    let retry = deliver(ch, &c.main);
    let mut w = build_world(ch, &c);
    let (cc, wd) = (c.cc, c.wd.clone());
    let fin = in_world(st, &mut w, || -> Result<(Dump, u64), Violation> {
        let mut x = Sess::new(&wd, cc);
        for p in &prior {
            x.read(&Stream::plain(p), "prior");
        }
        let before = x.dump(&u);
        let mut t = x.twin();
        let opened = wld().recs.len();
        for s in &tries {
            let r = x.read(s, "Makefile");
            match (&s.fail, &r) {
                (Some((_, Fail::Panic)), Res::Panic { injected: true, .. }) => {}
                (Some((_, Fail::Err(k, m))), Res::Io(k2, m2)) if k == k2 && m2.contains(m.as_str()) => {}
                (Some((_, Fail::Os(n))), Res::Io(k2, m2)) if *k2 == os_kind(*n) && m2.contains(&os_text(*n)) => {}
                (None, Res::Io(ErrorKind::InvalidData, _)) => {}
                (f, r) => {
                    return violation("report", format!("the stream failed with {:?} but the read gave {:?}", f, r));
                }
            }
            if let Some(d) = dump_diff(&before, &x.dump(&u), false) {
                return violation("changed", format!("a failed read changed the database: {} (before against after)", d));
            }
            ensure!(wld().recs.len() == opened, "changed", "a failed read opened {}", wld().recs[opened].abs);
        }
        let r1 = x.read(&retry, "Makefile");
        let o1: Vec<_> = opens(&wld().recs[opened..]);
        let at = wld().recs.len();
        let r2 = t.read(&Stream::plain(&c.main), "Makefile");
        let o2: Vec<_> = opens(&wld().recs[at..]);
        ensure!(r1 == r2, "retry", "the retry gives {:?} but a first read {:?}", r1, r2);
        ensure!(o1 == o2, "retry", "the retry opens {:?} but a first read {:?}", o1, o2);
        let (d1, d2) = (x.dump(&u), t.dump(&u));
        if let Some(d) = dump_diff(&d1, &d2, false) {
            return violation("retry", format!("the retry differs from a first read: {}", d));
        }
        Ok((d1, tries.len() as u64))
    })?;
    st.judged += fin.1;
    st.mix_state(&fin.0);
    st.nontrivial = c.main.len() > 1;
    Ok(())
}

// ---------------------------------------------------------- C03 and C04

fn include_case(ch: &mut Choices, base: u32) -> Case {
    gen::case(ch, Opts { includes: true, errors: false, lit_base: base, ..Default::default() })
}

fn c03(ch: &mut Choices, st: &mut Stats) -> Verdict {
    let u = gen::universe();
    let c = include_case(ch, 0);
    show(st, &c);
    let mut w = build_world(ch, &c);
    w.stub_missing = true;
    let a = run_case(st, &mut w, &c, &Stream::plain(&c.main), &u);
    let j = Judge::of(&c, &u).judge(st, &a.res, &a.dump, &a.recs);
    if !matches!(j.result, Ok(Judged::Fine { .. })) || a.res != Res::Ok {
        st.skip("without a fault already different");
        return Ok(());
    }
    let op: Vec<&Rec> = a.recs.iter().filter(|r| !r.stat_only).collect();
    if op.len() != j.asked.len() {
        st.skip("accesses cannot be attributed");
        return Ok(());
    }
    let hard: Vec<usize> = (0..op.len()).filter(|&i| !j.asked[i].0).collect();
    if hard.is_empty() {
        st.skip("no mandatory include");
        return Ok(());
    }
    let rounds = ch.range(1, 3);
    for _ in 0..rounds {
        let k = *ch.pick(&hard);
        let mut p = OpenPlan::default();
        let mut gone = None;
        match ch.draw(6) {
            0 => gone = Some(op[k].abs.clone()),
            1 => {
                let mut b = op[k].delivered.clone();
                spoil(ch, &mut b);
                if std::str::from_utf8(&b).is_ok() {
                    continue;
                }
                p.serve = Some(b);
                st.probe("include that is not text");
            }
            2 | 3 => {
                let at = ch.draw(op[k].delivered.len() as u32 + 1) as usize;
                p.err_at = Some((at, *ch.pick(READ_ERRNOS)));
                p.err_once = ch.chance(1, 2);
                p.chunks = vec![1 + ch.draw(40) as usize];
            }
            _ => p.err = Some(*ch.pick(OPEN_ERRNOS)),
        }
        let noise = ch.chance(1, 2);
        let mut w = build_world(ch, &c);
        w.stub_missing = gone.is_none();
        if let Some(g) = &gone {
            // the file is not there at all, or is a directory
            if ch.chance(1, 4) {
                w.put_dir(g);
                st.probe("include of a directory");
            } else {
                w.fs.remove(g);
                st.probe("include of a missing file");
            }
            if noise {
                w.plan = Plan::Random(delivery());
            }
        } else {
            w.plan = script(ch, op.len(), k, p, noise);
        }
        let s = if noise { deliver(ch, &c.main) } else { Stream::plain(&c.main) };
        let b = run_case(st, &mut w, &c, &s, &u);
        let j = Judge::of(&c, &u).judge(st, &b.res, &b.dump, &b.recs);
        if let Some(crate::model::Stop::EvalErr(_)) = j.stop {
            st.probe("failure inside eval");
        }
        if j.max_depth > 1 {
            st.probe("nested deeper than one");
        }
        j.result?;
        st.mix_state(&b.dump);
        st.nontrivial = true;
    }
    Ok(())
}

fn c04(ch: &mut Choices, st: &mut Stats) -> Verdict {
    let u = gen::universe();
    let c = include_case(ch, 0);
    show(st, &c);
    let mut w = build_world(ch, &c);
    w.stub_missing = true;
    let a = run_case(st, &mut w, &c, &Stream::plain(&c.main), &u);
    let j = Judge::of(&c, &u).judge(st, &a.res, &a.dump, &a.recs);
    if !matches!(j.result, Ok(Judged::Fine { .. })) || a.res != Res::Ok {
        st.skip("without a fault already different");
        return Ok(());
    }
    let op: Vec<&Rec> = a.recs.iter().filter(|r| !r.stat_only).collect();
    if op.len() != j.asked.len() {
        st.skip("accesses cannot be attributed");
        return Ok(());
    }
    // files that only optional includes name
    let mut soft: Vec<String> = vec![];
    for i in 0..op.len() {
        if j.asked[i].0 && !soft.contains(&op[i].abs) {
            soft.push(op[i].abs.clone());
        }
    }
    soft.retain(|p| (0..op.len()).all(|i| op[i].abs != *p || j.asked[i].0));
    if soft.is_empty() {
        st.skip("no optional include");
        return Ok(());
    }
    let noise = ch.chance(1, 3);
    // --- those that cannot be opened count as empty
    let mut fail = BTreeMap::new();
    let mut empty = BTreeMap::new();
    let mut removed = vec![];
    let n = 1 + ch.draw(3.min(soft.len() as u32)) as usize;
    for _ in 0..n {
        let p = ch.pick(&soft).clone();
        let exists = c.files.iter().any(|f| f.0 == p);
        if exists && ch.chance(1, 3) {
            removed.push(p.clone());
            st.probe("optional include of a missing file");
        } else if !exists && ch.chance(1, 2) {
            // really missing, in whatever way the name is missing
            removed.push(p.clone());
            st.probe("optional include of a missing file");
        } else {
            fail.insert(p.clone(), OpenPlan { err: Some(*ch.pick(OPEN_ERRNOS)), ..Default::default() });
        }
        empty.insert(p, OpenPlan { serve: Some(vec![]), ..Default::default() });
    }
    let real_missing = !removed.is_empty();
    let mut w = build_world(ch, &c);
    w.stub_missing = true;
    w.plan = Plan::ByPath(empty);
    let e = run_case(st, &mut w, &c, &Stream::plain(&c.main), &u);
    let je = Judge::of(&c, &u).judge(st, &e.res, &e.dump, &e.recs);
    let eo: Vec<&Rec> = e.recs.iter().filter(|r| !r.stat_only).collect();
    let ok = matches!(je.result, Ok(Judged::Fine { .. }))
        && eo.len() == je.asked.len()
        && (0..eo.len()).all(|i| je.asked[i].0 || !(fail.contains_key(&eo[i].abs) || removed.contains(&eo[i].abs)));
    if !ok {
        st.skip("without a fault already different");
    } else {
        let mut w = build_world(ch, &c);
        // everything else that is missing stays stubbed unless really missing files are wanted
        if real_missing {
            for r in &op {
                if !c.files.iter().any(|f| f.0 == r.abs) && !removed.contains(&r.abs) && !fail.contains_key(&r.abs) {
                    if r.abs.contains("l0.mk/") || r.abs.contains("nodir") {
                        fail.insert(r.abs.clone(), OpenPlan { serve: Some(vec![]), ..Default::default() });
                    } else {
                        w.put(&r.abs, b"");
                    }
                }
            }
            for p in &removed {
                w.fs.remove(p);
            }
        } else {
            w.stub_missing = true;
        }
        w.plan = Plan::ByPath(fail.clone());
        let s = if noise { deliver(ch, &c.main) } else { Stream::plain(&c.main) };
        let b = run_case(st, &mut w, &c, &s, &u);
        st.judged += 1;
        let what = format!("files that cannot be opened ({:?}, removed {:?})", fail, removed);
        ensure!(b.res == e.res, "skip", "{}: the outcome is {:?} but {:?} if they are empty", what, b.res, e.res);
        if let Some(d) = dump_diff(&e.dump, &b.dump, false) {
            return violation("skip", format!("{}: {} (empty against not openable)", what, d));
        }
        let x: Vec<String> = e.recs.iter().filter(|r| !r.stat_only).map(|r| r.abs.clone()).collect();
        let y: Vec<String> = b.recs.iter().filter(|r| !r.stat_only || r.err.is_some()).map(|r| r.abs.clone()).collect();
        ensure!(dedup(&x) == dedup(&y), "skip", "{}: files looked at are {:?} but {:?} if they are empty", what, y, x);
        st.mix_state(&b.dump);
        st.nontrivial = true;
    }
    // --- one that was opened and then fails is an error
    if ch.chance(2, 3) {
        let idx: Vec<usize> = (0..op.len()).filter(|&i| j.asked[i].0).collect();
        let k = *ch.pick(&idx);
        let mut p = OpenPlan::default();
        if ch.chance(1, 3) {
            let mut b = op[k].delivered.clone();
            spoil(ch, &mut b);
            if std::str::from_utf8(&b).is_ok() {
                return Ok(());
            }
            p.serve = Some(b);
        } else if ch.chance(1, 3) {
            let mut b = op[k].delivered.clone();
            if !b.is_empty() && !b.ends_with(b"\n") {
                b.push(b'\n');
            }
            let e = *ch.pick(&["endif\nendif\nendif\nendif\nendif\n", "else\nelse\n", "these are words\n", "V0 = $(V1\n", "t0: $(V1\n", "$(W0 x\n", "include $(V1\n"]);
            if ch.chance(1, 3) {
                // and what came before it may not matter
                b.clear();
            }
            if ch.chance(1, 4) {
                b.splice(0..0, e.bytes());
            } else {
                b.extend_from_slice(e.as_bytes());
            }
            p.serve = Some(b);
        } else {
            let at = ch.draw(op[k].delivered.len() as u32 + 1) as usize;
            p.err_at = Some((at, *ch.pick(READ_ERRNOS)));
            p.err_once = ch.chance(1, 2);
        }
        let mut w = build_world(ch, &c);
        w.stub_missing = true;
        w.plan = script(ch, op.len(), k, p, noise);
        let b = run_case(st, &mut w, &c, &Stream::plain(&c.main), &u);
        let j = Judge::of(&c, &u).judge(st, &b.res, &b.dump, &b.recs);
        j.result?;
        st.probe("optional include that fails after opening");
        st.nontrivial = true;
    }
    Ok(())
}
/// looking and then opening counts once
fn dedup(v: &[String]) -> Vec<String> {
    let mut v = v.to_vec();
    v.dedup();
    v
}

// ---------------------------------------------------------------- C05

fn c05(ch: &mut Choices, st: &mut Stats) -> Verdict {
    let u = gen::universe();
    let o = Opts { errors: ch.chance(1, 4), hard_missing: ch.chance(1, 6), ..Default::default() };
    let c = gen::case(ch, o);
    show(st, &c);
    if ch.chance(1, 8) {
        return c05_process(ch, st, &c, &u);
    }
    let mut w = build_world(ch, &c);
    let mut s = Stream::plain(&c.main);
    match ch.draw(4) {
        0 => {
            s = deliver(ch, &c.main);
            w.plan = Plan::Random(delivery());
        }
        1 => {
            w.plan = Plan::Random(Mix { open_err: 100, errnos: OPEN_ERRNOS.to_vec(), ..Default::default() });
        }
        _ => {}
    }
    let a = run_case(st, &mut w, &c, &s, &u);
    let j = Judge::of(&c, &u).judge(st, &a.res, &a.dump, &a.recs);
    st.mix_state(&a.dump);
    if j.includes > 0 {
        st.probe("with includes");
    }
    if j.evals > 0 {
        st.probe("with evals");
    }
    if j.max_depth > 1 {
        st.probe("nested includes");
    }
    match j.result {
        Ok(Judged::Fine { .. }) => st.nontrivial = j.states.len() > 2,
        Ok(_) => {}
        // which words an error uses is not this property's business
        Err(v) if v.class == "error" => {}
        Err(v) => return Err(v),
    }
    Ok(())
}
/// The caller carries out the value of a variable, as text or as an include
/// at the end would
fn c05_process(ch: &mut Choices, st: &mut Stats, c: &Case, u: &[String]) -> Verdict {
    let vars: Vec<String> = (0..ch.range(1, 3)).map(|_| text_variable(ch)).collect();
    let crash = if ch.chance(1, 4) { Some(1 + ch.draw(200) as u64) } else { None };
    let mut w = build_world(ch, c);
    w.plan = Plan::Random(delivery());
    let wp: *mut World = &mut w;
    type Part = (Res, Dump, usize);
    let parts: Vec<(Option<String>, Part)> = in_world(st, &mut w, || {
        let mut x = Sess::new(&c.wd, c.cc);
        let r = x.read(&Stream::plain(&c.main), "Makefile");
        let mut out = vec![(None, (r, x.dump(u), wld().recs.len()))];
        for v in vars {
            if out.last().unwrap().1 .0 != Res::Ok {
                break;
            }
            let w = wld();
            w.crash_at_log = vec![crash.map(|k| w.thread_logs[0] + k)];
            let r = x.process(&v);
            wld().crash_at_log = vec![];
            if let Some(r) = r {
                out.push((Some(v), (r, x.dump(u), wld().recs.len())));
            }
        }
        out
    });
    let recs = unsafe { &(*wp).recs };
    let mut at = 0;
    let mut init = crate::model::State::default();
    for (v, (r, d, end)) in &parts {
        let mut jd = Judge::of(c, u);
        jd.init = init.clone();
        jd.var = v.as_deref();
        let j = jd.judge(st, r, d, &recs[at..*end]);
        at = *end;
        match j.result {
            Ok(Judged::Fine { .. }) => {}
            Ok(_) => return Ok(()),
            Err(v) if v.class == "error" => return Ok(()),
            Err(v) => return Err(v),
        }
        if v.is_some() {
            st.probe("value carried out by the caller");
            st.nontrivial |= j.states.len() > 1;
        }
        match j.states.last() {
            Some(s) => init = s.clone(),
            None => return Ok(()),
        }
        st.mix_state(d);
    }
    Ok(())
}
fn text_variable(ch: &mut Choices) -> String {
    match ch.draw(4) {
        0 => ch.pick(&gen::universe()).clone(),
        _ => format!("D{}", ch.draw(3)),
    }
}

// ---------------------------------------------------------------- C06

fn c06(ch: &mut Choices, st: &mut Stats) -> Verdict {
    let u = gen::universe();
    let c = include_case(ch, 0);
    let alt = include_case(ch, 5000);
    show(st, &c);
    let mut w = build_world(ch, &c);
    let a = run_case(st, &mut w, &c, &Stream::plain(&c.main), &u);
    if !conforms(st, &c, &u, &a) {
        st.skip("without a writer already different");
        return Ok(());
    }
    let mut paths: Vec<String> = vec![];
    for r in a.recs.iter().filter(|r| !r.stat_only) {
        if !paths.contains(&r.abs) {
            paths.push(r.abs.clone());
        }
    }
    if paths.is_empty() {
        st.skip("no include");
        return Ok(());
    }
    let nopen = a.recs.iter().filter(|r| !r.stat_only).count() as u64;
    let mut w = build_world(ch, &c);
    let n = ch.range(1, 6);
    for _ in 0..n {
        let p = ch.pick(&paths).clone();
        let blocked = p.contains("l0.mk/");
        let old = c.files.iter().find(|f| f.0 == p).map(|f| f.1.clone()).unwrap_or_default();
        let op = match ch.draw(8) {
            0 | 1 if !blocked => {
                let b = alt.files.iter().find(|f| f.0 == p).map(|f| f.1.clone());
                let b = b.unwrap_or_else(|| format!("X{} += n{}\n", ch.draw(10), ch.draw(1000)).into_bytes());
                WriterOp::Replace(p, b)
            }
            2 | 3 if !blocked => {
                // appended to while it may be open
                let mut b = old;
                if !b.is_empty() && !b.ends_with(b"\n") {
                    b.push(b'\n');
                }
                if ch.chance(1, 12) {
                    // far longer than before
                    let line = format!("# {}\n", "grown ".repeat(1 + ch.draw(400) as usize));
                    let n = [4_000, 9_000, 40_000, 70_000, 140_000][ch.draw(5) as usize];
                    for _ in 0..n / line.len() + 1 {
                        b.extend_from_slice(line.as_bytes());
                    }
                }
                b.extend_from_slice(format!("X{} = w{}\n", ch.draw(10), ch.draw(10_000)).as_bytes());
                WriterOp::InPlace(p, b)
            }
            4 if !blocked => {
                let cut = old.iter().position(|&b| b == b'\n').map_or(0, |i| i + 1);
                WriterOp::InPlace(p, if ch.chance(1, 2) { vec![] } else { old[..cut].to_vec() })
            }
            5 | 6 => WriterOp::Remove(p),
            _ if !blocked => WriterOp::Replace(p, format!("X{} += r{}\n", ch.draw(10), ch.draw(1000)).into_bytes()),
            _ => WriterOp::Remove(p),
        };
        let when = match ch.draw(5) {
            0 => Trig::Event(ch.draw(a.events as u32 + 1) as u64),
            1 | 2 => Trig::AfterOpen(1 + ch.draw(nopen as u32) as u64),
            3 => Trig::AfterClose(1 + ch.draw(nopen as u32) as u64),
            _ => Trig::MainEof,
        };
        w.writer.push(WriterAct { when, op });
    }
    if ch.chance(1, 3) {
        w.plan = Plan::Random(delivery());
    }
    let again = ch.chance(1, 2);
    let (cc, wd, main) = (c.cc, c.wd.clone(), c.main.clone());
    let wp: *mut World = &mut w;
    let (first, second) = in_world(st, &mut w, || {
        let mut x = Sess::new(&wd, cc);
        let s = Stream::plain(&main);
        let r = x.read(&s, "Makefile");
        let n1 = wld().recs.len();
        let d = x.dump(&u);
        let second = if again {
            wld().flush_writer();
            let r2 = x.read(&s, "Makefile");
            Some((r2, x.dump(&u)))
        } else {
            None
        };
        ((r, d, n1), second)
    });
    let w = unsafe { &mut *wp };
    let (r, d, n1) = first;
    let j = Judge::of(&c, &u).judge(st, &r, &d, &w.recs[..n1]);
    st.nontrivial = st.fired.keys().any(|k| k.starts_with("writer"));
    st.mix_state(&d);
    let (states, alt_state) = (j.states, j.alt);
    let unknown = matches!(j.result, Ok(Judged::Skip(_)));
    j.result?;
    if unknown {
        return Ok(());
    }
    if let Some((r2, d2)) = second {
        st.probe("second read of the same files");
        let mut jd = Judge::of(&c, &u);
        jd.init = states.last().unwrap().clone();
        let k = jd.judge(st, &r2, &d2, &w.recs[n1..]);
        if k.result.is_err() {
            if let Some(s) = alt_state {
                jd.init = s;
                jd.judge(st, &r2, &d2, &w.recs[n1..]).result?;
            }
        }
        k.result?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C07

fn c07(ch: &mut Choices, st: &mut Stats) -> Verdict {
    let u = gen::universe();
    let flavour = ch.draw(6);
    let o = Opts {
        errors: flavour == 1,
        unimplemented: flavour == 2,
        hard_missing: flavour == 1,
        rules: true,
        ..Default::default()
    };
    let c = gen::case(ch, o);
    let after = gen::small_main(ch, c.cc, Opts { lit_base: 7000, ..Default::default() });
    show(st, &c);
    let mut w = build_world(ch, &c);
    let a = run_case(st, &mut w, &c, &Stream::plain(&c.main), &u);
    if !conforms(st, &c, &u, &a) {
        st.skip("without an interruption already different");
        return Ok(());
    }
    let rounds = ch.range(1, 3);
    for _ in 0..rounds {
        let mut w = build_world(ch, &c);
        let mut s = Stream::plain(&c.main);
        let mut crash = None;
        match flavour {
            1 | 2 => {}
            3 => {
                // an include fails while it is read
                w.plan = Plan::Random(Mix {
                    read_err: 300,
                    open_err: 100,
                    errnos: OPEN_ERRNOS.to_vec(),
                    read_errnos: READ_ERRNOS.to_vec(),
                    ..Default::default()
                });
            }
            4 if ch.chance(1, 3) => {
                let at = ch.draw(s.bytes.len() as u32 + 1) as usize;
                s.fail = Some((at, some_failure(ch)));
            }
            _ => {
                let k = a.some_log(ch);
                w.crash_at_log = vec![Some(k)];
                crash = Some(k);
            }
        }
        let (cc, wd) = (c.cc, c.wd.clone());
        let wp: *mut World = &mut w;
        let failed_stream = s.fail.is_some();
        let ((r, d, n1), (r2, d2)) = in_world(st, &mut w, || {
            let mut x = Sess::new(&wd, cc);
            let r = x.read(&s, "Makefile");
            let n1 = wld().recs.len();
            let d = x.dump(&u);
            let w = wld();
            w.crash_at_log = vec![];
            w.plan = Plan::Clean;
            let r2 = x.read(&Stream::plain(&after), "After");
            ((r, d, n1), (r2, x.dump(&u)))
        });
        let w = unsafe { &mut *wp };
        let j;
        if failed_stream {
            // nothing of the text was ever seen
            ensure!(r != Res::Ok, "outcome", "the stream failed but the read succeeded");
            if let Some(x) = obs::differ(&State::default(), &d, &u) {
                return violation("prefix", format!("after a failed stream: {}", x));
            }
            j = None;
            st.judged += 1;
        } else {
            let k = Judge::of(&c, &u).judge(st, &r, &d, &w.recs[..n1]);
            if matches!(k.result, Ok(Judged::Skip(_))) {
                continue;
            }
            if let Err(v) = k.result {
                if v.class != "error" {
                    return Err(v);
                }
            }
            if k.stop.is_none() && crash.is_some() && r == Res::Ok {
                st.probe("crash point not reached");
            }
            if r.is_injected() {
                st.probe("interrupted");
            }
            j = Some((k.states, k.at_last_open, k.alt));
        }
        st.mix_state(&d);
        st.nontrivial = true;
        // the engine goes on from a prefix that looks like this
        let mut cands: Vec<State> = vec![];
        match j {
            None => cands.push(State::default()),
            Some((states, last, alt)) => {
                for i in (last.min(states.len() - 1)..states.len()).rev() {
                    if obs::differ(&states[i], &d, &u).is_none() && !cands.contains(&states[i]) {
                        cands.push(states[i].clone());
                    }
                }
                if let Some(a) = alt {
                    if obs::differ(&a, &d, &u).is_none() {
                        cands.push(a);
                    }
                }
            }
        }
        let mut first = None;
        let mut ok = false;
        for s in cands {
            let mut jd = Judge::of(&c, &u);
            jd.init = s;
            jd.main = &after;
            let k = jd.judge(st, &r2, &d2, &w.recs[n1..]);
            match k.result {
                Ok(_) => {
                    ok = true;
                    break;
                }
                Err(v) => first = first.or(Some(v)),
            }
        }
        if !ok {
            if let Some(mut v) = first {
                v.class = format!("after-{}", v.class);
                v.msg = format!("reading on after the interruption: {}", v.msg);
                return Err(v);
            }
        }
        if flavour == 1 || flavour == 2 {
            break;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C08

const LAST: u32 = u32::MAX;
const LAST_BUT_ONE: u32 = u32::MAX - 1;

/// statements on a few names
fn few_names(ch: &mut Choices, base: u32) -> Vec<u8> {
    let mut t = String::new();
    let n = ch.range(1, 3);
    for k in 0..n {
        let (i, l) = (ch.draw(3), base + k);
        t += &match ch.draw(5) {
            0 => format!("V{} = v1{}\n", i, l),
            1 => format!("X{} += v1{}\n", i, l),
            2 => format!("t{} t{}: v1{}\n", i, (i + 1) % 3, l),
            3 => format!("t{}:\n", i),
            _ => format!("t{}: v1{}\n", i, l),
        };
    }
    t.into_bytes()
}
fn c08(ch: &mut Choices, st: &mut Stats) -> Verdict {
    let u = gen::universe();
    let base = include_case(ch, 0);
    show(st, &base);
    let cc = base.cc;
    #[derive(Debug, Clone)]
    enum Op {
        Read(Vec<u8>, Option<u64>, Option<usize>),
        Snap,
        Restore(u32),
        AddRules(u32),
        Eval,
        Process(String),
    }
    let mut ops = vec![];
    if ch.chance(1, 4) {
        // long chains of references, so that most values depend on most others
        let mut t = String::new();
        for i in (1..gen::VARS).rev() {
            t.push_str(&format!("V{} = c{} $(V{})\n", i, i, i - 1));
        }
        ops.push(Op::Read(t.into_bytes(), None, None));
    }
    let n = ch.range(3, 9);
    for i in 0..n {
        if ch.chance(1, 6) {
            // two branches from one snapshot that differ only in what is written
            let t = gen::small_main(ch, cc, Opts { lit_base: 1000 * (i + 1), rules: true, ..Default::default() });
            let other = String::from_utf8_lossy(&t).replace("v1", "z1").replace("v2", "z2").replace("v3", "z3");
            ops.push(Op::Snap);
            ops.push(Op::Read(t, None, None));
            ops.push(Op::Restore(LAST));
            ops.push(Op::Read(other.into_bytes(), None, None));
            continue;
        }
        if ch.chance(1, 8) {
            // and from one branch over to the other
            let root = few_names(ch, 1000 * (i + 1));
            let t = few_names(ch, 1000 * (i + 1) + 100);
            let other = if ch.chance(1, 2) { String::from_utf8_lossy(&t).replace("v1", "z1").into_bytes() } else { few_names(ch, 1000 * (i + 1) + 200) };
            if ch.chance(2, 3) {
                ops.push(Op::Read(root, None, None));
            }
            ops.push(Op::Snap);
            ops.push(Op::Read(t, None, None));
            ops.push(Op::Snap);
            ops.push(Op::Restore(LAST_BUT_ONE));
            ops.push(Op::Read(other, None, None));
            ops.push(Op::Restore(LAST));
            continue;
        }
        ops.push(match ch.weighted(&[6, 4, 3, 1, 2, 1]) {
            0 => {
                let t = if ch.chance(1, 3) {
                    base.main.clone()
                } else {
                    gen::small_main(ch, cc, Opts { lit_base: 1000 * (i + 1), errors: true, rules: true, ..Default::default() })
                };
                let crash = if ch.chance(1, 4) { Some(1 + ch.draw(400) as u64) } else { None };
                let fail = if ch.chance(1, 8) { Some(ch.draw(t.len() as u32 + 1) as usize) } else { None };
                Op::Read(t, crash, fail)
            }
            1 => Op::Snap,
            2 => Op::Restore(ch.draw(8)),
            3 => Op::AddRules(ch.draw(8)),
            5 => Op::Process(text_variable(ch)),
            _ => Op::Eval,
        });
    }
    let faulty = ch.chance(1, 3);
    // expand everything through the engine in use after each step
    let live = ch.chance(1, 2);
    let mut w = build_world(ch, &base);
    let wd = base.wd.clone();
    let (fin, nsnap) = in_world(st, &mut w, || -> Result<(Dump, usize), Violation> {
        struct Snap {
            db: Database,
            names: NameCache,
            dump: Dump,
            handles: Vec<(String, Option<VariableName>)>,
        }
        let mut x = Sess::new(&wd, cc);
        let mut snaps: Vec<Snap> = vec![];
        let mut fresh: Option<Sess> = None;
        let handles = |n: &NameCache| u.iter().map(|v| (v.clone(), n.variable_name(v))).collect::<Vec<_>>();
        let mut checks = 0;
        for (i, op) in ops.iter().enumerate() {
            match op {
                Op::Snap => {
                    wld().ev(|| "snapshot".into());
                    let dump = x.dump(&u);
                    snaps.push(Snap { db: x.e.database.clone(), names: x.n.clone(), dump, handles: handles(&x.n) });
                }
                Op::Restore(k) if !snaps.is_empty() => {
                    let s = match *k {
                        LAST => snaps.last().unwrap(),
                        LAST_BUT_ONE => &snaps[snaps.len().max(2) - 2],
                        k => &snaps[k as usize % snaps.len()],
                    };
                    wld().ev(|| "restore".into());
                    x.e.replace_database(s.db.clone());
                    if let Some(d) = dump_diff(&s.dump, &x.dump(&u), false) {
                        return violation("restore", format!("step {}: right after restoring: {} (snapshot against engine)", i, d));
                    }
                    // an engine that never saw what happened since
                    let mut t = Sess::new(&wd, cc);
                    t.e.database = s.db.clone();
                    t.n = s.names.clone();
                    fresh = Some(t);
                }
                Op::AddRules(k) if !snaps.is_empty() => {
                    // rules of a snapshot added to the current database
                    wld().ev(|| "add rules".into());
                    let s = &snaps[*k as usize % snaps.len()];
                    let mut db = x.e.database.clone();
                    let before = x.dump(&u);
                    let rules: Vec<_> = s.db.rules().cloned().collect();
                    let r = vos::sim_call(|| {
                        for r in rules {
                            db = db.add_rule(r);
                        }
                        db
                    });
                    match r {
                        Ok(db) => {
                            if let Some(d) = dump_diff(&before, &x.dump(&u), false) {
                                return violation("snapshot", format!("step {}: adding a rule to a copy changed the original: {}", i, d));
                            }
                            x.e.replace_database(db)
                        }
                        Err(_) => {}
                    }
                    fresh = None;
                }
                Op::Process(v) => {
                    wld().crash_at_log = vec![];
                    wld().plan = Plan::Clean;
                    let r = x.process(v);
                    if let Some(mut t) = fresh.take() {
                        let r2 = t.process(v);
                        if r2.is_some() || r.is_some() {
                            checks += 1;
                        }
                        // (values that cannot be expanded fail alike)
                        ensure!(r == r2, "restore", "step {}: after restoring, carrying out {} gives {:?}, without what happened since {:?}", i, v, r, r2);
                        if let Some(d) = dump_diff(&x.dump(&u), &t.dump(&u), false) {
                            return violation("restore", format!("step {}: carrying out {} after restoring differs from doing so without what happened since: {}", i, v, d));
                        }
                    }
                }
                Op::Eval => {
                    // expanding through a snapshot must not disturb it or the engine
                    if let Some(s) = snaps.last() {
                        wld().ev(|| "expand through a snapshot".into());
                        let _ = obs::dump(&s.db, &x.n, &u);
                    }
                }
                Op::Read(t, crash, fail) => {
                    let mut s = Stream::plain(t);
                    if let Some(f) = fail {
                        s.fail = Some((*f, Fail::Err(ErrorKind::Other, "sim".into())));
                    }
                    let w = wld();
                    w.crash_at_log = vec![crash.map(|k| w.thread_logs[0] + k)];
                    if faulty {
                        w.plan = Plan::Script(vec![vec![OpenPlan { err: Some(EIO), ..Default::default() }, OpenPlan::default()]], vec![1]);
                    }
                    let r = x.read(&s, "Makefile");
                    let w = wld();
                    let cut = r.is_injected();
                    w.crash_at_log = vec![];
                    if let Some(mut t) = fresh.take() {
                        if !cut {
                            if faulty {
                                wld().plan = Plan::Script(vec![vec![OpenPlan { err: Some(EIO), ..Default::default() }, OpenPlan::default()]], vec![1]);
                            }
                            let r2 = t.read(&s, "Makefile");
                            checks += 1;
                            ensure!(r == r2, "restore", "step {}: after restoring a read gives {:?}, without what happened since {:?}", i, r, r2);
                            if let Some(d) = dump_diff(&x.dump(&u), &t.dump(&u), false) {
                                return violation("restore", format!("step {}: a read after restoring differs from one without what happened since: {}", i, d));
                            }
                        }
                    }
                }
                _ => {}
            }
            if live {
                if let Some(d) = x.live_differs(&u) {
                    return violation("live", format!("after step {}: {}", i, d));
                }
            }
            // every snapshot still says what it said
            for (k, s) in snaps.iter().enumerate() {
                checks += 1;
                // (expanding interns names, so sensitivities compare only under the names of then)
                for (n, order) in [(&s.names, true), (&x.n, false)] {
                    if let Some(d) = dump_diff(&s.dump, &obs::dump(&s.db, n, &u), order) {
                        return violation("snapshot", format!("after step {} snapshot {} changed: {} (then against now)", i, k, d));
                    }
                }
                for (name, h) in &s.handles {
                    if let Some(h) = h {
                        ensure!(x.n.variable_name(name) == Some(*h), "handle", "the handle of {} changed", name);
                        let a = s.db.get_variable(*h).is_some();
                        ensure!(a == s.dump.vars.contains_key(name), "handle", "the handle of {} denotes something else", name);
                    }
                }
                for r in s.db.rules() {
                    let t = r.target().into_string();
                    let got = x.n.resolve_file_name(r.target_fname()).map(|s| s.to_string());
                    ensure!(got.as_deref() == Some(t.as_str()), "handle", "the handle of target {} now denotes {:?}", t, got);
                }
            }
        }
        let _ = checks;
        Ok((x.dump(&u), snaps.len()))
    })?;
    st.judged += 1;
    st.mix_state(&fin);
    st.nontrivial = nsnap > 0;
    if nsnap > 1 {
        st.probe("several snapshots");
    }
    Ok(())
}

// ---------------------------------------------------------------- C09

struct Shareable<T>(std::marker::PhantomData<T>);
impl<T: Send + Sync> Shareable<T> {
    fn yes(&self) -> bool {
        true
    }
}
trait NotShareable {
    fn yes(&self) -> bool {
        false
    }
}
impl<T> NotShareable for Shareable<T> {}
struct Force<T>(T);
unsafe impl<T> Send for Force<T> {}
impl<T> Force<T> {
    fn get(self) -> T {
        self.0
    }
}

fn c09(ch: &mut Choices, st: &mut Stats) -> Verdict {
    use std::marker::PhantomData as P;
    let u = gen::universe();
    ensure!(Shareable::<Database>(P).yes(), "share", "a database can no longer be shared between threads");
    ensure!(Shareable::<hastur::Engine>(P).yes(), "share", "an engine can no longer be moved to a thread");
    ensure!(Shareable::<NameCache>(P).yes(), "share", "a name cache can no longer be moved to a thread");
    let n = ch.range(2, 4) as usize;
    let shared = ch.chance(1, 2);
    let mut cases: Vec<Case> = vec![];
    // all threads see one disk
    let deep = ch.chance(1, 15);
    let disk = gen::case(ch, Opts { includes: true, errors: !deep, hard_missing: !deep, small: n > 2 && !deep, chain: deep, ..Default::default() });
    for i in 0..n {
        if i == 0 || deep || ch.chance(1, 3) {
            cases.push(disk.clone());
        } else {
            let mut c = disk.clone();
            c.main = gen::small_main(ch, c.cc, Opts { lit_base: 1000 * (i as u32), errors: true, rules: true, ..Default::default() });
            cases.push(c);
        }
    }
    let twice: Vec<bool> = (0..n).map(|_| ch.chance(1, 4)).collect();
    let warm = gen::small_main(ch, disk.cc, Opts { lit_base: 9000, ..Default::default() });
    show(st, &disk);
    let plans: Vec<Vec<OpenPlan>> = (0..n)
        .map(|_| {
            if !deep && ch.chance(1, 2) {
                (0..8).map(|_| draw_open_plan(ch, &trouble())).collect()
            } else {
                vec![]
            }
        })
        .collect();
    let crash: Vec<Option<u64>> = (0..n).map(|_| if ch.chance(1, 4) { Some(1 + ch.draw(300) as u64) } else { None }).collect();
    let span = *ch.pick(&[1u32, 3, 10, 60, 300]);
    let alloc = ch.chance(1, 2);
    let streams: Vec<Stream> = cases.iter().map(|c| if ch.chance(1, 3) { deliver(ch, &c.main) } else { Stream::plain(&c.main) }).collect();
    let cc = disk.cc;
    // some threads work in another directory, where other files have the same names
    let wds: Vec<String> = (0..n).map(|_| if ch.chance(1, 3) { "/w2".into() } else { disk.wd.clone() }).collect();
    let elsewhere = wds.iter().any(|w| *w != wds[0]);
    let mut disk = disk;
    disk.dirs.push("/w2/sub".into());
    for (p, b) in disk.files.clone() {
        if let Some(r) = p.strip_prefix("/w/d/") {
            if ch.chance(2, 3) {
                let mut t = format!("X{} := elsewhere\n", ch.draw(10)).into_bytes();
                if ch.chance(1, 2) {
                    t.extend_from_slice(&b);
                }
                disk.files.push((format!("/w2/{}", r), t));
            }
        }
    }
    let disk = disk;
    let make = |start: &Option<Sess>, i: usize| -> Sess {
        let mut s = match start {
            Some(s) => s.twin(),
            None => Sess::new(&wds[i], cc),
        };
        s.e.working_directory = wds[i].clone().into();
        s
    };
    type Got = (Vec<Res>, Dump, Vec<(String, Option<i32>)>);
    let work = |mut x: Sess, i: usize| -> Got {
        let mut res = vec![x.read(&streams[i], "Makefile")];
        if twice[i] {
            res.push(x.read(&Stream::plain(&warm), "Again"));
        }
        let o = opens(&wld().recs.iter().filter(|r| r.tid == i).cloned().collect::<Vec<_>>());
        // queries run in parallel, too
        wld().crash_at_log[i] = None;
        let d = match vos::sim_call(|| x.dump(&u)) {
            Ok(d) => d,
            Err(p) => Dump { order: vec![p.msg], ..Default::default() },
        };
        (res, d, o)
    };
    let chp: *mut Choices = ch;
    let mut w = build_world(unsafe { &mut *chp }, &disk);
    w.plan = Plan::Script(plans.clone(), vec![0; n]);
    w.crash_at_log = vec![None; n];
    // all at once, first: nothing in the process has been initialised yet
    let (together, switches, start) = in_world(st, &mut w, || {
        let mut x = Sess::new(&wds[0], cc);
        let start: Option<Sess> = if shared {
            let r = x.read(&Stream::plain(&warm), "Warm");
            let _ = r;
            let w = wld();
            w.recs.clear();
            w.thread_logs = vec![0; 8];
            Some(x)
        } else {
            None
        };
        let w = wld();
        w.plan = Plan::Script(plans.clone(), vec![0; n]);
        w.crash_at_log = crash.clone();
        let jobs: Vec<Box<dyn FnOnce() -> Force<Got> + Send + '_>> = (0..n)
            .map(|i| {
                let s = make(&start, i);
                let a = Force((s, i, &work));
                Box::new(move || {
                    let (s, i, work) = a.get();
                    Force(work(s, i))
                }) as Box<dyn FnOnce() -> Force<Got> + Send + '_>
            })
            .collect();
        let (r, sw) = sched::run(chp, span, alloc, jobs);
        (r.into_iter().map(|f| f.0).collect::<Vec<_>>(), sw, start)
    });
    // then each on its own
    for i in 0..n {
        let mut w = build_world(unsafe { &mut *chp }, &disk);
        w.plan = Plan::Script(plans.clone(), vec![0; n]);
        w.crash_at_log = crash.clone();
        let start = &start;
        let alone = in_world(st, &mut w, || {
            vos::TID.with(|t| t.set(i));
            let s = make(start, i);
            work(s, i)
        });
        st.judged += 1;
        ensure!(together[i].0 == alone.0, "influence", "thread {} of {} gets {:?}, alone {:?}", i, n, together[i].0, alone.0);
        if let Some(d) = dump_diff(&together[i].1, &alone.1, true) {
            return violation("influence", format!("thread {} of {}: {} (in parallel against alone)", i, n, d));
        }
        ensure!(together[i].2 == alone.2, "influence", "thread {} of {} opens {:?}, alone {:?}", i, n, together[i].2, alone.2);
        st.mix_state(&alone.1);
    }
    *st.fired.entry("thread_switches".into()).or_insert(0) += switches;
    st.nontrivial = switches > 0;
    if elsewhere {
        st.probe("different working directories");
    }
    if shared {
        st.probe("from one shared snapshot");
    }
    if deep {
        st.probe("all threads deep in includes");
    }
    if alloc {
        st.probe("preempted at allocations");
    }
    Ok(())
}

// ---------------------------------------------------------------- C10

fn draw_env(ch: &mut Choices) -> std::ffi::CString {
    let v = *ch.pick(&["1", "0", "", "/elsewhere", "yes", "l1.mk", "/w:/elsewhere", "V0 = env", "ascii", "never"]);
    std::ffi::CString::new(v).unwrap()
}

fn c10(ch: &mut Choices, st: &mut Stats) -> Verdict {
    let u = gen::universe();
    let mut c = gen::case(ch, Opts { includes: true, errors: true, hard_missing: true, ..Default::default() });
    let decoy = gen::case(ch, Opts { includes: true, lit_base: 5000, tab_only: true, ..Default::default() });
    show(st, &c);
    let put_decoys = |w: &mut World, dir: &str| {
        w.put_dir(dir);
        for (p, b) in &decoy.files {
            if let Some(r) = p.strip_prefix("/w/d/") {
                w.put(&format!("{}/{}", dir, r), b);
            }
        }
        for m in &c.missing {
            if !m.contains("l0.mk/") {
                w.put(&format!("{}/{}", dir, m), b"X0 = decoy\n");
            }
        }
    };
    let mut w = build_world(ch, &c);
    let a = run_case(st, &mut w, &c, &Stream::plain(&c.main), &u);
    let rounds = ch.range(1, 3);
    for _ in 0..rounds {
        let mut w = build_world(ch, &c);
        let mut what = vec![];
        put_decoys(&mut w, "/elsewhere");
        put_decoys(&mut w, "/w");
        put_decoys(&mut w, "/w/d/sub/deep");
        w.cwd = match ch.draw(6) {
            0 => None,
            1 => Some("/w".into()),
            2 => Some("/w/d".into()),
            3 => Some("/w/d/sub/deep".into()),
            4 => Some("/".into()),
            _ => Some("/elsewhere".into()),
        };
        what.push(format!("process in {:?}", w.cwd));
        let k = ch.draw(3);
        for _ in 0..k {
            let to = match ch.draw(4) {
                0 => None,
                1 => Some("/w".to_string()),
                2 => Some("/w/d/sub/deep".to_string()),
                _ => Some("/elsewhere".to_string()),
            };
            let when = match ch.draw(3) {
                0 => Trig::Event(ch.draw(a.events as u32 + 1) as u64),
                1 => Trig::AfterOpen(1 + ch.draw(4) as u64),
                _ => Trig::MainEof,
            };
            what.push(format!("{:?} at {:?}", to, when));
            w.writer.push(WriterAct { when, op: WriterOp::Chdir(to) });
        }
        if ch.chance(1, 3) {
            let v = *ch.pick(&["/elsewhere", "/w", "/"]);
            std::env::set_var("PWD", v);
            std::env::set_var("OLDPWD", v);
            std::env::set_var("MAKEFILES", "l1.mk");
            std::env::set_var("CURDIR", v);
        } else if ch.chance(1, 3) {
            w.env_any = Some(draw_env(ch));
            what.push("every environment variable set".into());
        }
        let b = run_case(st, &mut w, &c, &Stream::plain(&c.main), &u);
        st.judged += 1;
        same_out(&format!("{:?}", what), "directory", &a, &b, false)?;
        st.nontrivial = a.recs.iter().any(|r| !r.stat_only);
    }
    // a relative one counts from the directory of the process, as long as there is one
    if ch.chance(1, 3) {
        let rel = *ch.pick(&["", ".", "./", "sub/..", "./sub/../.", "../d"]);
        let gone = ch.chance(1, 2);
        let mut c1 = c.clone();
        if gone {
            // nothing that has a relative name can be found
            c1.wd = "/absent".into();
        }
        let mut w = build_world(ch, &c1);
        let a = run_case(st, &mut w, &c1, &Stream::plain(&c1.main), &u);
        let mut c2 = c.clone();
        c2.wd = rel.into();
        let mut w = build_world(ch, &c2);
        put_decoys(&mut w, "/");
        put_decoys(&mut w, "/elsewhere");
        w.cwd = if gone { None } else { Some("/w/d".into()) };
        let b = run_case(st, &mut w, &c2, &Stream::plain(&c2.main), &u);
        st.judged += 1;
        ensure!(a.res == b.res, "directory", "engine in {:?}: the outcome is {:?}, with an absolute directory {:?}", rel, b.res, a.res);
        if let Some(d) = dump_diff(&a.dump, &b.dump, false) {
            return violation("directory", format!("engine in {:?}: {} (absolute against relative)", rel, d));
        }
        st.probe("relative working directory");
    }
    // the directory set on the engine decides, and a later one counts from then on
    if ch.chance(2, 3) {
        if !conforms(st, &c, &u, &a) {
            st.skip("without a second directory already different");
            return Ok(());
        }
        let wd2 = *ch.pick(&["/w2", "/w/d/sub/deep", "/elsewhere/x/..", "/w\u{f7ff}2", "/abs/../w/d/lnk", "/w2//d/"]);
        let mut w = build_world(ch, &c);
        put_decoys(&mut w, &vos::normalize(wd2));
        if wd2.contains("..") {
            w.put_dir("/elsewhere/x");
        }
        w.cwd = ch.pick(&[None, Some("/w/d".to_string()), Some("/".to_string())]).clone();
        let wp: *mut World = &mut w;
        let (cc, wd, main) = (c.cc, c.wd.clone(), c.main.clone());
        let (r1, d1, n1, r2, d2) = in_world(st, &mut w, || {
            let mut x = Sess::new(&wd, cc);
            let r1 = x.read(&Stream::plain(&main), "Makefile");
            let d1 = x.dump(&u);
            let n1 = wld().recs.len();
            x.e.working_directory = vos::os_path(wd2);
            let r2 = x.read(&Stream::plain(&main), "Makefile");
            (r1, d1, n1, r2, x.dump(&u))
        });
        let w = unsafe { &mut *wp };
        let j = Judge::of(&c, &u).judge(st, &r1, &d1, &w.recs[..n1]);
        if !matches!(j.result, Ok(Judged::Fine { .. })) {
            j.result?;
            return Ok(());
        }
        let mut inits = vec![j.states.last().unwrap().clone()];
        inits.extend(j.alt);
        let mut first = None;
        c.wd = wd2.to_string();
        for i in inits {
            let mut jd = Judge::of(&c, &u);
            jd.init = i;
            match jd.judge(st, &r2, &d2, &w.recs[n1..]).result {
                Ok(_) => {
                    first = None;
                    break;
                }
                Err(v) => first = first.or(Some(v)),
            }
        }
        if let Some(v) = first {
            return Err(v);
        }
        st.probe("working directory changed between reads");
    }
    Ok(())
}

// ---------------------------------------------------------------- C11

fn c11(ch: &mut Choices, st: &mut Stats) -> Verdict {
    let u = gen::universe();
    let o = Opts { includes: true, errors: ch.chance(1, 2), hard_missing: true, unimplemented: ch.chance(1, 4), ..Default::default() };
    let c = gen::case(ch, o);
    show(st, &c);
    let mut w = build_world(ch, &c);
    let a = run_case(st, &mut w, &c, &Stream::plain(&c.main), &u);
    resources(st, &c, &u, &a)?;
    let rounds = ch.range(1, 3);
    for _ in 0..rounds {
        let mut w = build_world(ch, &c);
        let mut s = Stream::plain(&c.main);
        w.plan = Plan::Random(match ch.draw(3) {
            0 => Mix::default(),
            1 => delivery(),
            _ => Mix { open_err: 150, read_err: 200, ..trouble() },
        });
        if ch.chance(1, 2) {
            w.crash_at_log = vec![Some(a.some_log(ch))];
        } else if ch.chance(1, 4) {
            let at = ch.draw(c.main.len() as u32 + 1) as usize;
            s.fail = Some((at, some_failure(ch)));
        } else if ch.chance(1, 4) {
            w.fail_nth_open = Some((1 + ch.draw(6) as u64, *ch.pick(&[EMFILE, ENFILE, ENOMEM])));
        }
        let failed_stream = s.fail.is_some();
        let b = run_case(st, &mut w, &c, &s, &u);
        if failed_stream {
            ensure!(b.recs.is_empty(), "opens", "files were opened although the makefile itself could not be read: {:?}", opens(&b.recs));
        } else {
            resources(st, &c, &u, &b)?;
        }
        released(&b)?;
        st.mix_state(&b.dump);
        st.nontrivial |= b.recs.iter().any(|r| !r.stat_only && r.err.is_none());
    }
    Ok(())
}
fn released(b: &Out) -> Verdict {
    ensure!(b.stray.is_empty(), "stray", "reading a makefile did this: {:?}", b.stray);
    ensure!(b.open_left == 0, "leak", "{} descriptors are still open after the call returned ({:?})", b.open_left, b.res);
    ensure!(b.bad_closes == 0, "close", "a descriptor that was not open was closed");
    for r in b.recs.iter().filter(|r| !r.stat_only && r.err.is_none()) {
        ensure!(r.closed == 1, "close", "{} was closed {} times", r.abs, r.closed);
    }
    Ok(())
}
fn resources(st: &mut Stats, c: &Case, u: &[String], b: &Out) -> Verdict {
    released(b)?;
    let j = Judge::of(c, u).judge(st, &b.res, &b.dump, &b.recs);
    match j.result {
        Err(v) if v.class == "opens" => return Err(v),
        Ok(Judged::Fine { .. }) => {
            if let Some(m) = j.fd_excess {
                return violation("held", m);
            }
        }
        _ => {}
    }
    Ok(())
}

// ---------------------------------------------------------------- C12

fn total(c: &Case, recs: &[Rec]) -> u64 {
    c.main.len() as u64 + recs.iter().map(|r| r.delivered.len() as u64 + 40).sum::<u64>()
}
/// generous: measured use stays below ten steps per byte
const PER_BYTE: u64 = 60;
const BASE: u64 = 4_000;

fn bounded(st: &mut Stats, what: &str, c: &Case, o: &Out, extra: u64) -> Verdict {
    st.judged += 1;
    ensure!(!o.overrun, "steps", "{}: the read does not come to an end ({} steps and counting)", what, o.events);
    let lim = BASE + PER_BYTE * total(c, &o.recs) + extra;
    if std::env::var_os("HSIM_RATIO").is_some() {
        let r = (o.events.saturating_sub(extra) * 100 / (total(c, &o.recs) + 1)).min(100_000);
        st.probe(&format!("ratio {:06}", r / 50 * 50));
    }
    ensure!(o.events <= lim, "steps", "{}: {} steps for {} bytes", what, o.events, total(c, &o.recs));
    Ok(())
}

fn c12(ch: &mut Choices, st: &mut Stats) -> Verdict {
    let u = gen::universe();
    let mut c = gen::case(ch, Opts { errors: true, hard_missing: true, pad: true, bulky: true, ..Default::default() });
    show(st, &c);
    let budget = 400_000;
    match ch.draw(6) {
        5 => {
            // files whose size is not what they hold, or changes while they are open
            let mut w = build_world(ch, &c);
            w.budget = budget;
            w.plan = Plan::Random(Mix { size_lie: 700, ..delivery() });
            let n = ch.range(0, 3);
            for _ in 0..n {
                if c.files.is_empty() {
                    break;
                }
                let (p, b) = c.files[ch.draw(c.files.len() as u32) as usize].clone();
                let cut = ch.draw(b.len() as u32 + 1) as usize;
                let new = match ch.draw(4) {
                    0 => vec![],
                    1 => [b, b"X0 += grown\n".to_vec()].concat(),
                    _ => b[..cut].to_vec(),
                };
                let op = if ch.chance(1, 5) { WriterOp::Remove(p) } else { WriterOp::InPlace(p, new) };
                let when = if ch.chance(1, 3) { Trig::Event(ch.draw(2000) as u64) } else { Trig::AfterOpen(1 + ch.draw(4) as u64) };
                w.writer.push(WriterAct { when, op });
            }
            let s = deliver(ch, &c.main);
            let o = run_case(st, &mut w, &c, &s, &u);
            let held: u64 = c.files.iter().map(|f| f.1.len() as u64 + 40).sum();
            bounded(st, "files of doubtful size", &c, &o, 60 * c.main.len() as u64 + 20 * held)?;
            st.probe("size changes or lies");
        }
        0 => {
            // cut off anywhere
            let which = ch.draw(c.files.len() as u32 + 2) as usize;
            if which < c.files.len() {
                truncate_at(ch, &mut c.files[which].1);
            } else {
                truncate_at(ch, &mut c.main);
            }
            if ch.chance(1, 3) {
                // and something unfinished at the end
                let t = *ch.pick(&["\\", "$", "$(", "define X0", "define", "ifeq (", "#", "\\\\", "\t", "t0:", "t0: a \\", "V0 = x\\\n", "$(eval", "include ", "\r", "# \\\n"]);
                c.main.extend_from_slice(t.as_bytes());
            }
            let mut w = build_world(ch, &c);
            w.budget = budget;
            let s = deliver(ch, &c.main);
            let extra = 60 * c.main.len() as u64;
            let o = run_case(st, &mut w, &c, &s, &u);
            bounded(st, "a text cut off", &c, &o, extra)?;
            st.probe("truncated");
        }
        1 => {
            // files that include themselves until no more can be opened
            // (a process has about a thousand descriptors)
            let n = if ch.chance(1, 30) { 121 + ch.draw(900) as u64 } else { 1 + ch.draw(120) as u64 };
            let e = *ch.pick(&[EMFILE, ENFILE, ENOMEM, ENOENT]);
            let kw = *ch.pick(&["include", "-include", "sinclude"]);
            let pre = if ch.chance(1, 2) { "X0 += r\n" } else { "t0: x\n\tgo\n" };
            c.files.push(("/w/d/loop.mk".into(), format!("{}{} loop.mk\nX1 += back\n", pre, kw).into_bytes()));
            c.files.push(("/w/d/ping.mk".into(), format!("{} pong.mk\n", kw).into_bytes()));
            c.files.push(("/w/d/pong.mk".into(), "include ping.mk\n".to_string().into_bytes()));
            c.main = format!("{} {}\nX2 = end\n", kw, ch.pick(&["loop.mk", "ping.mk"])).into_bytes();
            let mut w = build_world(ch, &c);
            w.budget = budget;
            w.fail_nth_open = Some((n, e));
            let o = run_case(st, &mut w, &c, &Stream::plain(&c.main), &u);
            bounded(st, "files including each other", &c, &o, 0)?;
            let got = o.recs.iter().filter(|r| !r.stat_only).count() as u64;
            ensure!(got <= n + 2, "steps", "{} opens although the {}th and all later ones fail", got, n);
            let j = Judge::of(&c, &u).judge(st, &o.res, &o.dump, &o.recs);
            if let Err(v) = j.result {
                if v.class == "outcome" {
                    return Err(v);
                }
            }
            st.probe("include cycle");
        }
        2 => {
            // interruptions that stop after a while
            let mut w = build_world(ch, &c);
            let a = run_case(st, &mut w, &c, &Stream::plain(&c.main), &u);
            let mut w = build_world(ch, &c);
            w.budget = budget;
            let storm = 1 + ch.draw(60);
            let mut s = Stream::plain(&c.main);
            s.eintr = (0..3).map(|_| ch.draw(storm)).collect();
            let p = OpenPlan { eintr: (0..3).map(|_| ch.draw(storm)).collect(), open_eintr: ch.draw(storm), ..Default::default() };
            w.plan = Plan::Script(vec![vec![p; 400]], vec![0]);
            let o = run_case(st, &mut w, &c, &s, &u);
            let faults: u64 = ["stream_interrupted", "read_eintr", "open_eintr"].iter().map(|k| w.fired.get(*k).copied().unwrap_or(0)).sum();
            ensure!(!o.overrun, "steps", "the read does not come to an end after {} interruptions", faults);
            ensure!(
                o.events <= a.events + 2 * faults + 64,
                "steps",
                "{} steps after {} interruptions, {} without them",
                o.events,
                faults,
                a.events
            );
            bounded(st, "interruptions", &c, &o, 4 * faults)?;
            st.probe("interruption storm");
        }
        3 => {
            // a stream or a file that keeps failing
            let mut w = build_world(ch, &c);
            let a = run_case(st, &mut w, &c, &Stream::plain(&c.main), &u);
            let mut w = build_world(ch, &c);
            w.budget = budget;
            let mut s = deliver(ch, &c.main);
            s.eintr.clear();
            let at = ch.draw(s.bytes.len() as u32 + 1) as usize;
            let kind = match ch.draw(2) {
                0 => *ch.pick(&[ErrorKind::WouldBlock, ErrorKind::TimedOut, ErrorKind::Other]),
                _ => *ch.pick(KINDS),
            };
            if ch.chance(1, 2) {
                s.chunks.clear();
                s.cap = 0;
                s.fail = Some((at, Fail::Err(kind, "not now".into())));
                let o = run_case(st, &mut w, &c, &s, &u);
                ensure!(matches!(o.res, Res::Io(..)), "outcome", "the stream never got better but the read gave {:?}", o.res);
                ensure!(o.reads <= a.reads + 8, "steps", "a stream that failed was asked {} times", o.reads);
                bounded(st, "a failing stream", &c, &o, 0)?;
                st.probe("stream that keeps failing");
            } else {
                let p = OpenPlan { err_at: Some((ch.draw(60) as usize, if ch.chance(1, 2) { EAGAIN } else { *ch.pick(READ_ERRNOS) })), ..Default::default() };
                w.plan = Plan::Script(vec![vec![p; 400]], vec![0]);
                let o = run_case(st, &mut w, &c, &Stream::plain(&c.main), &u);
                for r in o.recs.iter().filter(|r| r.read_err.is_some()) {
                    let _ = r;
                }
                ensure!(o.reads <= 4 * (a.reads + o.recs.len() as u64) + 64, "steps", "files that fail were read {} times, {} without failures", o.reads, a.reads);
                bounded(st, "failing files", &c, &o, 0)?;
                st.probe("files that keep failing");
            }
        }
        _ => {
            // random bytes of makefile-like shape
            let n = ch.range(0, 40);
            let mut t = String::new();
            for _ in 0..n {
                t.push_str(ch.pick(&[
                    "\\", "\n", "$", "(", ")", "{", "}", "#", "define ", "endef", "\n", "\t", " ", ":", "=", "+=", "V0", "ifeq", "(a,b)", "else", "endif",
                    "\r\n", "\\\n", "$(eval ", "include ", "l0.mk", ";", "x", "$$", "é", "\u{feff}", "?=", "%", ",", "\"", "'", "endef\n",
                ]));
            }
            c.main = t.into_bytes();
            let mut w = build_world(ch, &c);
            w.budget = budget;
            let s = deliver(ch, &c.main);
            let o = run_case(st, &mut w, &c, &s, &u);
            bounded(st, "arbitrary text", &c, &o, 60 * c.main.len() as u64)?;
            st.probe("arbitrary text");
        }
    }
    st.nontrivial = true;
    Ok(())
}

// ---------------------------------------------------------------- C13

fn c13(ch: &mut Choices, st: &mut Stats) -> Verdict {
    let u = gen::universe();
    let o = Opts { errors: true, hard_missing: true, rules: true, unimplemented: ch.chance(1, 6), ..Default::default() };
    let c = gen::case(ch, o);
    let other = gen::case(ch, Opts { errors: true, hard_missing: true, lit_base: 5000, ..Default::default() });
    show(st, &c);
    let plans: Vec<OpenPlan> = if ch.chance(1, 2) { (0..12).map(|_| draw_open_plan(ch, &trouble())).collect() } else { vec![] };
    let s = deliver(ch, &c.main);
    let mut prev: Option<Out> = None;
    let mut whats = vec![];
    let n = ch.range(2, 3);
    for i in 0..n {
        let mut w = build_world(ch, &c);
        w.plan = Plan::Script(vec![plans.clone()], vec![0]);
        let mut what = vec![];
        if i > 0 {
            w.rand = ch.draw(1 << 30) as u64 * 77 + 5;
            what.push("hash seed".to_string());
            match ch.draw(4) {
                0 => w.clock_ns = 0,
                1 => w.clock_ns = 4_102_444_800_000_000_000,
                _ => w.clock_ns = w.clock_ns.wrapping_add(ch.draw(1 << 30) as u64 * 1_000_003),
            }
            w.pid = 2 + ch.draw(30_000) as i32;
            if ch.chance(1, 3) {
                let lv = *ch.pick(&[log::LevelFilter::Off, log::LevelFilter::Error, log::LevelFilter::Info, log::LevelFilter::Debug]);
                log::set_max_level(lv);
                what.push(format!("log level {}", lv));
                *st.fired.entry("log_level_changed".into()).or_insert(0) += 1;
            } else {
                log::set_max_level(log::LevelFilter::Trace);
            }
            if ch.chance(1, 3) {
                w.format_logs = true;
                what.push("logs formatted".into());
            }
            if ch.chance(1, 3) {
                for k in 0..ch.range(1, 3) {
                    let name = *ch.pick(&["V0", "W0", "HOME", "PWD", "LANG", "LC_ALL", "MAKEFLAGS", "RUST_LOG", "X0", "RUST_BACKTRACE", "K0", "F0"]);
                    std::env::set_var(name, format!("env{}", k));
                    what.push(format!("environment {}", name));
                    *st.fired.entry("environment_changed".into()).or_insert(0) += 1;
                }
            }
            if ch.chance(1, 3) {
                w.env_any = Some(draw_env(ch));
                what.push("every environment variable set".into());
                *st.fired.entry("environment_changed".into()).or_insert(0) += 1;
            }
            if ch.chance(1, 3) {
                // someone else used the library in this process before
                let mut w2 = build_world(ch, &other);
                w2.rand = ch.draw(1 << 20) as u64;
                if ch.chance(1, 2) {
                    w2.crash_at_log = vec![Some(1 + ch.draw(200) as u64)];
                }
                let _ = run_case(st, &mut w2, &other, &Stream::plain(&other.main), &u);
                what.push("another engine before".into());
            }
            if ch.chance(1, 3) {
                // another memory layout
                for _ in 0..ch.draw(40) {
                    let n = *ch.pick(&[16usize, 48, 64, 200, 1000, 5000]);
                    std::mem::forget(vec![0u8; n]);
                }
                what.push("memory layout".into());
            }
        }
        let out = run_case(st, &mut w, &c, &s, &u);
        log::set_max_level(log::LevelFilter::Trace);
        if let Some(p) = &prev {
            st.judged += 1;
            whats.extend(what);
            same_out(&format!("with another {:?}", whats), "ambient", p, &out, true)?;
        } else {
            prev = Some(out);
        }
    }
    let p = prev.unwrap();
    *st.fired.entry("hash_seed_changed".into()).or_insert(0) += n as u64 - 1;
    st.mix_state(&p.dump);
    st.nontrivial = p.dump.rules.len() + p.dump.vars.len() > 1;
    Ok(())
}

// ---------------------------------------------------------------- C14

fn c14(ch: &mut Choices, st: &mut Stats) -> Verdict {
    let u = gen::universe();
    let c = gen::case(ch, Opts { errors: true, hard_missing: true, ..Default::default() });
    show(st, &c);
    #[derive(Clone, Debug)]
    struct Step {
        text: Vec<u8>,
        crash: Option<u64>,
        fail: Option<(usize, Fail)>,
        cc: char,
        wd: String,
        times: u32,
        plans: Vec<OpenPlan>,
        process: Option<String>,
    }
    // (long texts are not read as often)
    let long = c.main.len() + c.files.iter().map(|f| f.1.len()).sum::<usize>() > 6000;
    let mut steps = vec![];
    let n = ch.range(1, 4);
    for i in 0..n {
        let inc = ch.chance(1, 2);
        let mut text = if ch.chance(1, 3) {
            c.main.clone()
        } else {
            gen::small_main(ch, '\t', Opts { lit_base: 1000 * (i + 1), errors: true, hard_missing: true, unimplemented: true, rules: true, includes: inc, ..Default::default() })
        };
        match ch.draw(6) {
            0 => truncate_at(ch, &mut text),
            1 => {
                let t = *ch.pick(&["ifeq (1,2)\n", "define X3\nmore\n", "t1: x\n", "ifeq (1,1)\nelse\n", "\u{feff}", "V0 = a\\", "define D2\n"]);
                text.extend_from_slice(t.as_bytes());
            }
            2 => spoil(ch, &mut text),
            _ => {}
        }
        let crash = if ch.chance(1, 4) { Some(1 + ch.draw(300) as u64) } else { None };
        let fail = if ch.chance(1, 6) {
            let at = ch.draw(text.len() as u32 + 1) as usize;
            Some((at, some_failure(ch)))
        } else {
            None
        };
        steps.push(Step {
            text,
            crash,
            fail,
            cc: if ch.chance(1, 4) { *ch.pick(&['>', '\t', '!']) } else { c.cc },
            wd: if ch.chance(1, 5) { "/w2".into() } else { c.wd.clone() },
            times: (*ch.pick(&[1u32, 1, 1, 1, 2, 5, 40])).min(if long { 2 } else { 40 }),
            plans: if ch.chance(1, 3) { (0..6).map(|_| draw_open_plan(ch, &trouble())).collect() } else { vec![] },
            process: if ch.chance(1, 6) { Some(text_variable(ch)) } else { None },
        });
    }
    let live = ch.chance(1, 3);
    // sometimes the engine gets old before it is asked
    let age: Option<(u32, &str, u32)> = if ch.chance(1, 40) && !long {
        Some((
            *ch.pick(&[130u32, 300, 300, 1100]),
            *ch.pick(&[
                "include age1.mk\n",
                "include age2.mk\n",
                "include agebad.mk\n",
                "-include agegone.mk\ninclude age2.mk\n",
                "include agegone.mk\n",
                "$(eval include age1.mk)\n",
                "$(eval $(D1))$(eval else)\n",
                "ifeq (1,1)\nifeq (1,2)\n",
                "define D1\n",
                "t1: a\n\tb\nt2:",
                "include age2.mk\nelse\n",
                "V0 = 1\nV1 := $(V0)$(eval V2 := $(V1))\n",
            ]),
            ch.draw(3),
        ))
    } else {
        None
    };
    let prior = gen::small_main(ch, c.cc, Opts { lit_base: 8000, rules: true, ..Default::default() });
    let last_plans: Vec<OpenPlan> = if ch.chance(1, 3) { (0..12).map(|_| draw_open_plan(ch, &trouble())).collect() } else { vec![] };
    let s = deliver(ch, &c.main);
    // another makefile and what a process that has read nothing yet makes of it
    let fresh = if ch.chance(1, 2) {
        let c2 = gen::case(ch, Opts { errors: true, hard_missing: true, rules: true, lit_base: 6000, ..Default::default() });
        let mut w = build_world(ch, &c2);
        let s2 = Stream::plain(&c2.main);
        let d = pristine(|| {
            w.plan = Plan::Clean;
            let o = run_case(&mut Stats::default(), &mut w, &c2, &s2, &u);
            seen_by(&o.res, &opens(&o.recs), &o.dump)
        });
        if d.is_none() {
            st.skip("the makefile cannot be read in a new process");
            return Ok(());
        }
        st.executions += 1;
        Some((c2, s2, w.fs, w.cwd, d.unwrap()))
    } else {
        None
    };
    let mut w = build_world(ch, &c);
    for d in ["/w/d", "/w2"] {
        w.put(&format!("{}/age1.mk", d), b"X8 = a\nX8 = b\n");
        w.put(&format!("{}/age2.mk", d), b"include age1.mk age3.mk\n");
        w.put(&format!("{}/age3.mk", d), b"-include age1.mk nothing.mk\nifeq (1,1)\n");
        w.put(&format!("{}/agebad.mk", d), b"include age3.mk\ninclude agebad2.mk\n");
        w.put(&format!("{}/agebad2.mk", d), b"X8 = a\nthese are no statements\n");
    }
    w.put("/w2/l0.mk", b"X0 = other\n");
    w.put("/w2/a.mk", b"X1 = other\nifeq (1,2)\n");
    w.budget = 60_000_000;
    let (fin, _) = in_world(st, &mut w, || -> Result<(Dump, ()), Violation> {
        type Got = (Res, Vec<(String, Option<i32>)>, Dump);
        let last = |x: &mut Sess| -> Got {
            let at = wld().recs.len();
            wld().plan = Plan::Script(vec![last_plans.clone()], vec![0]);
            wld().crash_at_log = vec![];
            let r = x.read(&s, "Makefile");
            (r, opens(&wld().recs[at..]), x.dump(&u))
        };
        let cmp = |what: &str, a: &Got, b: &Got| -> Verdict {
            ensure!(a.0 == b.0, "carry", "{}: the read gives {:?}, on a new engine {:?}", what, a.0, b.0);
            ensure!(a.1 == b.1, "carry", "{}: the read opens {:?}, on a new engine {:?}", what, a.1, b.1);
            if let Some(d) = dump_diff(&a.2, &b.2, false) {
                return violation("carry", format!("{}: {} (used engine against new engine)", what, d));
            }
            Ok(())
        };
        let mut x = Sess::new(&c.wd, c.cc);
        x.read(&Stream::plain(&prior), "Prior");
        // what the read gives before anything happened
        let keep = x.e.database.clone();
        let before = last(&mut x.twin());
        for t in &steps {
            let start = x.e.database.clone();
            for k in 0..t.times {
                if k > 1 {
                    // only the engine is to grow old, not the values
                    x.e.replace_database(start.clone());
                }
                x.e.command_char = t.cc;
                x.e.working_directory = t.wd.clone().into();
                let w = wld();
                w.plan = Plan::Script(vec![t.plans.clone()], vec![0]);
                w.crash_at_log = vec![t.crash.map(|k| w.thread_logs[0] + k)];
                let mut s = Stream::plain(&t.text);
                s.fail = t.fail.clone();
                x.read(&s, "History");
                if let Some(v) = &t.process {
                    x.process(v);
                }
            }
        }
        x.e.command_char = c.cc;
        x.e.working_directory = c.wd.clone().into();
        if let Some((times, text, how)) = &age {
            let start = x.e.database.clone();
            let w = wld();
            w.fire("aged_engine");
            w.crash_at_log = vec![];
            w.plan = Plan::Clean;
            for k in 0..*times {
                let w = wld();
                match how {
                    1 => w.plan = Plan::Script(vec![vec![OpenPlan::default(), OpenPlan { err: Some(EIO), ..Default::default() }]], vec![0]),
                    2 => w.crash_at_log = vec![Some(w.thread_logs[0] + 5 + (k as u64 * 7) % 60)],
                    _ => {}
                }
                x.read(&Stream::plain(text.as_bytes()), "Age");
                x.e.replace_database(start.clone());
            }
        }
        if live {
            if let Some(d) = x.live_differs(&u) {
                return violation("live", format!("after a history: {}", d));
            }
        }
        let mut t = x.twin();
        let b = last(&mut t);
        let a = last(&mut x);
        cmp("after a history", &a, &b)?;
        if live {
            if let Some(d) = x.live_differs(&u) {
                return violation("live", format!("after a history and a read: {}", d));
            }
        }
        // the same engine, put back to where it was
        x.e.replace_database(keep);
        let again = last(&mut x);
        cmp("after a history, database put back", &again, &before)?;
        if let Some((c2, s2, fs2, cwd2, want)) = &fresh {
            // a new engine in this old process
            let w = wld();
            w.fs = fs2.clone();
            w.cwd = cwd2.clone();
            w.plan = Plan::Clean;
            w.crash_at_log = vec![];
            let at = w.recs.len();
            let mut x = Sess::new(&c2.wd, c2.cc);
            let r = x.read(s2, "Makefile");
            let got = seen_by(&r, &opens(&wld().recs[at..]), &x.dump(&u));
            if got != *want {
                let d = got.lines().zip(want.lines()).find(|(a, b)| a != b).map_or("one is longer".into(), |(a, b)| format!("{} against {}", a, b));
                return violation("carry", format!("a new engine in a process that has read other makefiles: {} (in a new process)", d));
            }
        }
        Ok((a.2, ()))
    })?;
    st.judged += 2;
    st.mix_state(&fin);
    st.nontrivial = true;
    Ok(())
}

fn seen_by(r: &Res, opens: &[(String, Option<i32>)], d: &Dump) -> String {
    let mut t = format!("outcome {:?}\nopened {:?}\n", r, opens);
    for (k, v) in &d.vars {
        t.push_str(&format!("variable {} {:?} from {:?}\n", k, v, d.locs.get(k)));
    }
    for (k, v) in &d.rules {
        t.push_str(&format!("rule {} {:?}\n", k, v));
    }
    t
}

// ------------------------------------------------------------ known findings

/// The findings that are recorded rather than repaired; each would be one fixed
/// history. Returns what fails, if it still does. (There is none at present:
/// all that were found have been repaired.)
pub fn known(_prop: &str, _ch: &mut Choices, _st: &mut Stats) -> Vec<String> {
    vec![]
}

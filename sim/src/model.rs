//! The reference model: a small sequential make reader over plain strings.
//!
//! It never touches a file. What an include meets is taken from the recorded
//! accesses of the execution under judgement, so the model is told *what
//! happened outside* (which opens failed, which bytes were delivered) and
//! decides *what has to follow* from it. It is strict: text outside the grammar
//! it knows is answered with `Unsupported`, never guessed.

use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub struct Var {
    pub simple: bool,
    /// unexpanded text, or the final text of a simple variable
    pub text: String,
}
#[derive(Clone, Debug, PartialEq)]
pub struct MRule {
    pub deps: Vec<String>,
    pub cmds: Vec<String>,
    pub dc: bool,
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct State {
    pub vars: Rc<BTreeMap<String, Var>>,
    pub rules: Rc<BTreeMap<String, MRule>>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Why {
    /// the file named here could not be opened or read
    Include { name: String, abs: String, errno: Option<i32>, invalid_text: bool, opened: bool },
    Parse(&'static str),
}
#[derive(Clone, Debug, PartialEq)]
pub enum Stop {
    Err(Why),
    /// the same, inside an eval
    EvalErr(Why),
    /// the execution was cut short: no more is known about the outside world
    Cut,
    /// a construct the engine is known not to implement was reached
    Unimplemented(&'static str),
    /// outside the grammar of the model
    Unsupported(String),
    /// what the execution did cannot be what the text says
    Mismatch(String),
}
type R<T> = Result<T, Stop>;

pub enum Got {
    Failed(i32),
    /// bytes, and the error that ended the reading, if any
    Content(Vec<u8>, Option<i32>),
    Cut,
    Wrong(String),
}
pub trait Env {
    fn include(&mut self, abs: &str, depth: usize) -> Got;
}

pub struct Model<'a> {
    pub st: State,
    /// the state before the first and after every statement
    pub states: Vec<State>,
    /// index in `states` at the moment of the last include answered by `env`
    pub at_last_open: usize,
    /// states that are also acceptable if reading stops here with an error
    pub alt: Option<State>,
    pub wd: String,
    pub cc: char,
    pub env: &'a mut dyn Env,
    depth: usize,
    evals: usize,
    expanding: Vec<String>,
    steps: usize,
    pub max_depth: usize,
    pub n_includes: usize,
    /// per include carried out: was it optional, was it inside an eval
    pub asked: Vec<(bool, bool)>,
    pub n_evals: usize,
    pub probes: BTreeMap<&'static str, u64>,
}

struct Open {
    targets: Vec<String>,
    deps: Vec<String>,
    cmds: Vec<String>,
    dc: bool,
}
struct Cond {
    on: bool,
    seen_else: bool,
}

fn is_ws(c: char) -> bool {
    c == ' ' || c == '\t'
}
fn unsup<T>(s: &str) -> R<T> {
    Err(Stop::Unsupported(s.to_string()))
}
/// end (exclusive, of the closing brace) of the reference whose inside starts at `i`
fn close_of(s: &str, i: usize, open: char) -> Option<usize> {
    let close = if open == '(' { ')' } else { '}' };
    let mut n = 1;
    for (k, c) in s[i..].char_indices() {
        if c == open {
            n += 1;
        } else if c == close {
            n -= 1;
            if n == 0 {
                return Some(i + k);
            }
        }
    }
    None
}
/// every reference is terminated, at every level
pub fn well_formed(s: &str) -> bool {
    let b: Vec<(usize, char)> = s.char_indices().collect();
    let mut k = 0;
    while k < b.len() {
        if b[k].1 == '$' {
            match b.get(k + 1) {
                Some(&(i, c)) if c == '(' || c == '{' => match close_of(s, i + 1, c) {
                    None => return false,
                    Some(e) => {
                        if !well_formed(&s[i + 1..e]) {
                            return false;
                        }
                        while k < b.len() && b[k].0 <= e {
                            k += 1;
                        }
                        continue;
                    }
                },
                Some(_) => {
                    k += 2;
                    continue;
                }
                None => {}
            }
        }
        k += 1;
    }
    true
}
/// text outside references, with every reference replaced by one '\u{1}'
fn outside(s: &str) -> String {
    let mut out = String::new();
    let b: Vec<(usize, char)> = s.char_indices().collect();
    let mut k = 0;
    while k < b.len() {
        if b[k].1 == '$' {
            match b.get(k + 1) {
                Some(&(i, c)) if c == '(' || c == '{' => {
                    let e = close_of(s, i + 1, c).unwrap_or(s.len());
                    while k < b.len() && b[k].0 <= e {
                        k += 1;
                    }
                    out.push('\u{1}');
                    continue;
                }
                Some(_) => {
                    out.push('\u{1}');
                    k += 2;
                    continue;
                }
                None => {}
            }
        }
        out.push(b[k].1);
        k += 1;
    }
    out
}
/// byte position of the first `want` outside references
fn find_outside(s: &str, want: char) -> Option<usize> {
    let b: Vec<(usize, char)> = s.char_indices().collect();
    let mut k = 0;
    while k < b.len() {
        if b[k].1 == '$' {
            match b.get(k + 1) {
                Some(&(i, c)) if c == '(' || c == '{' => {
                    let e = close_of(s, i + 1, c).unwrap_or(s.len());
                    while k < b.len() && b[k].0 <= e {
                        k += 1;
                    }
                    continue;
                }
                Some(_) => {
                    k += 2;
                    continue;
                }
                None => {}
            }
        }
        if b[k].1 == want {
            return Some(b[k].0);
        }
        k += 1;
    }
    None
}
fn trailing_backslashes(s: &str) -> usize {
    s.chars().rev().take_while(|&c| c == '\\').count()
}
/// the literal text of an unexpanded command: reference syntax removed
pub fn literals(s: &str) -> String {
    let mut out = String::new();
    let b: Vec<(usize, char)> = s.char_indices().collect();
    let mut k = 0;
    while k < b.len() {
        if b[k].1 == '$' {
            match b.get(k + 1) {
                Some(&(_, '$')) => {
                    out.push('$');
                    k += 2;
                    continue;
                }
                Some(&(i, c)) if c == '(' || c == '{' => {
                    let e = close_of(s, i + 1, c).unwrap_or(s.len());
                    let inner = &s[i + 1..e];
                    let inner = match inner.strip_prefix("eval") {
                        Some(r) if r.starts_with(is_ws) => r.trim_start_matches(is_ws),
                        _ => inner,
                    };
                    out.push_str(&literals(inner));
                    while k < b.len() && b[k].0 <= e {
                        k += 1;
                    }
                    continue;
                }
                Some(&(_, c)) => {
                    out.push(c);
                    k += 2;
                    continue;
                }
                None => {}
            }
        }
        out.push(b[k].1);
        k += 1;
    }
    out
}
const KEYWORDS: &[&str] = &[
    "ifdef", "ifndef", "ifeq", "ifneq", "else", "endif", "define", "endef", "export", "unexport", "override", "private",
    "undefine", "vpath", "include", "sinclude", "-include", "load", "-load",
];
fn keyword(s: &str) -> Option<&'static str> {
    let l = s.to_ascii_lowercase();
    let word = l.split(char::is_whitespace).next().unwrap_or("");
    // (an operand may follow these without a blank)
    KEYWORDS.iter().copied().find(|k| word == *k || (*k == "ifeq" || *k == "ifneq") && l.starts_with(k))
}
fn plain_name_char(c: char) -> bool {
    c.is_ascii_alphanumeric() || "_./,-@%^~*?[]".contains(c) || (c as u32) > 0xA0 && !c.is_whitespace()
}

impl<'a> Model<'a> {
    pub fn new(st: State, wd: &str, cc: char, env: &'a mut dyn Env) -> Self {
        Model {
            states: vec![st.clone()],
            st,
            at_last_open: 0,
            alt: None,
            wd: wd.to_string(),
            cc,
            env,
            depth: 0,
            evals: 0,
            expanding: vec![],
            steps: 0,
            max_depth: 0,
            n_includes: 0,
            asked: vec![],
            n_evals: 0,
            probes: BTreeMap::new(),
        }
    }
    fn probe(&mut self, k: &'static str) {
        *self.probes.entry(k).or_insert(0) += 1;
    }
    fn commit(&mut self) {
        self.states.push(self.st.clone());
    }
    fn err<T>(&self, w: Why) -> R<T> {
        Err(if self.evals > 0 { Stop::EvalErr(w) } else { Stop::Err(w) })
    }
    fn set(&mut self, name: &str, v: Var) {
        Rc::make_mut(&mut self.st.vars).insert(name.to_string(), v);
        self.commit();
    }

    // ------------------------------------------------------------ expansion
    pub fn lookup(&mut self, name: &str) -> R<String> {
        match self.st.vars.get(name).cloned() {
            None => Ok(String::new()),
            Some(v) if v.simple => Ok(v.text),
            Some(v) => {
                if v.text.contains('$') && self.expanding.iter().any(|n| n == name) {
                    if !v.text.replace("$$", "").contains('$') {
                        return unsup("recursive variable without a reference");
                    }
                    self.probe("a variable that refers to itself");
                    return self.err(Why::Parse("recursive variable"));
                }
                self.expanding.push(name.to_string());
                let r = self.expand(&v.text);
                self.expanding.pop();
                r
            }
        }
    }
    pub fn expand(&mut self, s: &str) -> R<String> {
        self.steps += 1;
        if self.steps > 200_000 {
            return unsup("too much work");
        }
        let mut out = String::new();
        let b: Vec<(usize, char)> = s.char_indices().collect();
        let mut k = 0;
        while k < b.len() {
            if out.len() > 200_000 {
                return unsup("text too long");
            }
            if b[k].1 != '$' {
                out.push(b[k].1);
                k += 1;
                continue;
            }
            match b.get(k + 1) {
                None => return unsup("lone dollar"),
                Some(&(_, '$')) => {
                    out.push('$');
                    k += 2;
                }
                Some(&(i, c)) if c == '(' || c == '{' => {
                    let e = match close_of(s, i + 1, c) {
                        Some(e) => e,
                        None => return unsup("unterminated reference in expansion"),
                    };
                    let inner = &s[i + 1..e];
                    out.push_str(&self.reference(inner)?);
                    while k < b.len() && b[k].0 <= e {
                        k += 1;
                    }
                }
                Some(&(_, c)) => {
                    if !c.is_ascii_alphanumeric() {
                        return unsup("odd one-character reference");
                    }
                    out.push_str(&self.lookup(&c.to_string())?);
                    k += 2;
                }
            }
        }
        Ok(out)
    }
    fn reference(&mut self, inner: &str) -> R<String> {
        for f in ["strip", "words", "word", "eval"] {
            if let Some(rest) = inner.strip_prefix(f) {
                if f == "eval" && rest.starts_with(is_ws) {
                    let arg = rest.trim_start_matches(is_ws);
                    let text = self.expand(arg)?;
                    self.n_evals += 1;
                    self.evals += 1;
                    if self.evals > 150 {
                        return unsup("eval nesting");
                    }
                    let r = self.block(&text);
                    self.evals -= 1;
                    r?;
                    return Ok(String::new());
                }
                if f != "eval" && rest.starts_with(is_ws) && inner.chars().all(|c| c.is_alphanumeric() || c == ' ' || (f == "word" && c == ',')) {
                    if f == "word" && inner.matches(',').count() != 1 {
                        return unsup("arguments");
                    }
                    return Err(Stop::Unimplemented("function"));
                }
                return unsup("function");
            }
        }
        let name = self.expand(inner)?;
        if let Some(c) = name.find(':') {
            let (n, rest) = (&name[..c], &name[c + 1..]);
            let (from, to) = match rest.find('=') {
                Some(e) => (&rest[..e], &rest[e + 1..]),
                None => return unsup("colon in name"),
            };
            // "%.c=p%.o" stands for a prefix, a stem and a suffix on both sides
            let (pre, from, to) = match from.strip_prefix('%') {
                Some(f) => match to.split_once('%') {
                    Some((a, b)) => (Some(a), f, b),
                    None => (None, f, to),
                },
                None => (Some(""), from, to),
            };
            if rest.matches('=').count() != 1
                || rest.contains(':')
                || from.contains('%')
                || to.contains('%')
                || rest.contains('\\')
                || from.is_empty()
                || rest.contains(is_ws)
                || n.contains('%')
            {
                return unsup("substitution reference");
            }
            let v = self.lookup(n)?;
            if v.contains('\n') {
                return unsup("substitution over lines");
            }
            let mut words = vec![];
            for w in v.split(is_ws).filter(|w| !w.is_empty()) {
                match w.matches(from).count() {
                    0 => words.push(w.to_string()),
                    1 if w.ends_with(from) && w.len() > from.len() => {
                        words.push(match pre {
                            Some(p) => format!("{}{}{}", p, &w[..w.len() - from.len()], to),
                            None => return unsup("substitution by a constant"),
                        })
                    }
                    _ => return unsup("substitution match"),
                }
            }
            return Ok(words.join(" "));
        }
        if name.contains('=') || name.contains('\n') {
            return unsup("odd variable name");
        }
        self.lookup(&name)
    }

    // ------------------------------------------------------------- reading
    fn close(&mut self, open: &mut Option<Open>) {
        if let Some(r) = open.take() {
            self.apply_rule(&r);
            self.commit();
        }
    }
    fn apply_rule(&mut self, r: &Open) {
        let m = Rc::make_mut(&mut self.st.rules);
        for t in &r.targets {
            match m.get_mut(t) {
                Some(old) if r.cmds.is_empty() => old.deps.extend(r.deps.iter().cloned()),
                _ => {
                    m.insert(t.clone(), MRule { deps: r.deps.clone(), cmds: r.cmds.clone(), dc: r.dc });
                }
            }
        }
    }

    /// carry out a text; its conditionals, rules and definitions are its own
    pub fn block(&mut self, text: &str) -> R<()> {
        let text = text.strip_prefix('\u{feff}').unwrap_or(text);
        let mut open: Option<Open> = None;
        let r = self.lines(text, &mut open);
        match r {
            Ok(()) => {
                self.close(&mut open);
                Ok(())
            }
            Err(e) => {
                if let (Stop::Err(_) | Stop::EvalErr(_) | Stop::Unimplemented(_), Some(o)) = (&e, &open) {
                    // the statement before the failing one may or may not have been recorded
                    let keep = self.st.clone();
                    self.apply_rule(o);
                    self.alt = Some(self.st.clone());
                    self.st = keep;
                }
                Err(e)
            }
        }
    }

    fn lines(&mut self, text: &str, open: &mut Option<Open>) -> R<()> {
        let mut conds: Vec<Cond> = vec![];
        let mut define: Option<(String, u32)> = None;
        let mut skipped_define = 0u32;
        let mut pos = 0;
        // one physical line without its end
        let grab = |pos: &mut usize| -> (String, bool) {
            let rest = &text[*pos..];
            match rest.find('\n') {
                Some(e) => {
                    *pos += e + 1;
                    let l = &rest[..e];
                    (l.strip_suffix('\r').unwrap_or(l).to_string(), true)
                }
                None => {
                    *pos = text.len();
                    (rest.to_string(), false)
                }
            }
        };
        while pos < text.len() {
            self.steps += 1;
            if self.steps > 200_000 || self.states.len() > 20_000 {
                return unsup("too much work");
            }
            let ignoring = conds.iter().any(|c| !c.on);
            let start = pos;
            let rest = &text[pos..];
            let crlf_here = rest[..rest.find('\n').unwrap_or(rest.len())].ends_with('\r');
            // comments
            if rest.trim_start_matches(is_ws).starts_with('#') {
                if define.is_some() {
                    return unsup("comment in define");
                }
                if open.is_some() && rest.starts_with(self.cc) {
                    return unsup("comment in recipe");
                }
                loop {
                    let (l, more) = grab(&mut pos);
                    if l.contains('\r') {
                        return unsup("stray carriage return");
                    }
                    if trailing_backslashes(&l) % 2 == 1 && more && pos < text.len() {
                        self.probe("continued comment");
                        continue;
                    }
                    break;
                }
                continue;
            }
            // recipe lines
            if open.is_some() && rest.starts_with(self.cc) {
                let (l, mut more) = grab(&mut pos);
                let mut cmd = l[self.cc.len_utf8()..].to_string();
                while trailing_backslashes(&cmd) > 0 {
                    if trailing_backslashes(&cmd) > 1 || !more || pos >= text.len() || !text[pos..].starts_with(self.cc) {
                        return unsup("recipe continuation");
                    }
                    cmd.push('\n');
                    let (l2, m2) = grab(&mut pos);
                    more = m2;
                    cmd.push_str(&l2[self.cc.len_utf8()..]);
                }
                if !ignoring && !cmd.contains('#') && !cmd.contains('\r') && !well_formed(&cmd) {
                    return self.err(Why::Parse("reference"));
                }
                if cmd.contains('#') || cmd.contains('\r') || !well_formed(&cmd) || cmd.trim().is_empty() || cmd.ends_with('$') {
                    return unsup("recipe text");
                }
                if cmd.trim_start().starts_with('#') {
                    return unsup("recipe comment");
                }
                if !ignoring {
                    open.as_mut().unwrap().cmds.push(cmd);
                } else {
                    self.probe("skipped recipe line");
                }
                continue;
            }
            // definitions
            if let Some((name, nesting)) = define.clone() {
                if open.is_some() {
                    return unsup("define in rule");
                }
                let (l, nl) = grab(&mut pos);
                if l.contains('#') || l.contains('\r') || crlf_here {
                    return unsup("define text");
                }
                let body = format!("{}{}", l, if nl { "\n" } else { "" });
                if !well_formed(&body) {
                    return self.err(Why::Parse("reference"));
                }
                if l.contains('\\') || body.ends_with('$') || body.ends_with("$\n") {
                    return unsup("define text");
                }
                let t = l.trim_matches(is_ws);
                if t.starts_with("define") && t[6..].chars().next().map_or(true, is_ws) {
                    if t == "define" || split_assignment(t).is_some() {
                        return unsup("nested define");
                    }
                    self.probe("nested define");
                    define = Some((name.clone(), nesting + 1));
                }
                if t.starts_with("endef") && t[5..].chars().next().map_or(true, is_ws) {
                    if t != "endef" {
                        return self.err(Why::Parse("endef"));
                    }
                    if nesting == 1 {
                        define = None;
                        continue;
                    }
                    define = Some((name.clone(), nesting - 1));
                }
                let mut v = self.st.vars.get(&name).cloned().unwrap_or(Var { simple: false, text: String::new() });
                v.text.push_str(&body);
                self.set(&name, v);
                continue;
            }
            // everything else: one logical line
            let mut line = String::new();
            let mut first = true;
            loop {
                let rest = &text[pos..];
                let skip = rest.len() - rest.trim_start_matches(is_ws).len();
                pos += skip;
                let rest = &text[pos..];
                let nl = rest.find('\n');
                let hash = rest.find('#');
                let (seg, comment, more) = match (nl, hash) {
                    (n, Some(h)) if n.map_or(true, |n| h < n) => {
                        pos += h;
                        (&rest[..h], true, true)
                    }
                    (Some(n), _) => {
                        pos += n + 1;
                        let l = &rest[..n];
                        (l.strip_suffix('\r').unwrap_or(l), false, true)
                    }
                    (None, _) => {
                        pos = text.len();
                        (rest, false, false)
                    }
                };
                if seg.contains('\r') {
                    return unsup("stray carriage return");
                }
                let bs = trailing_backslashes(seg);
                if bs == 0 {
                    if odd_backslash(&line, seg) {
                        return unsup("backslash");
                    }
                    line.push_str(seg);
                    break;
                }
                let body = seg[..seg.len() - 1].trim_end_matches(is_ws);
                if bs > 1 || comment || !more || body.is_empty() || odd_backslash(&line, body) || pos >= text.len() {
                    return unsup("continuation");
                }
                if !first || true {
                    line.push_str(body);
                    line.push(' ');
                }
                first = false;
            }
            let _ = start;
            if line.is_empty() {
                continue;
            }
            if line.chars().any(|c| (c.is_control() && c != '\t') || (c.is_whitespace() && !is_ws(c))) {
                return unsup("control character");
            }
            let kw = keyword(&line);
            // conditionals
            match if skipped_define > 0 { None } else { kw } {
                Some("ifdef") | Some("ifndef") => {
                    if ignoring {
                        return unsup("ifdef in skipped text");
                    }
                    return Err(Stop::Unimplemented("ifdef"));
                }
                Some(k @ ("ifeq" | "ifneq")) => {
                    let rest = line[k.len()..].trim_start_matches(is_ws);
                    let (a, b) = match split_ifeq(rest) {
                        Some(v) => v,
                        None => {
                            return unsup("ifeq form");
                        }
                    };
                    if !well_formed(&a) || !well_formed(&b) {
                        return unsup("ifeq operand");
                    }
                    if ignoring {
                        self.probe("nested skipped conditional");
                        conds.push(Cond { on: false, seen_else: false });
                        continue;
                    }
                    if open.is_some() && (self.has_eval(&a) || self.has_eval(&b)) {
                        // the rule goes on after the conditional, so what the
                        // operand evaluates comes before the rule as a whole
                        self.probe("eval in operand inside rule");
                    }
                    let x = self.expand(&a)?;
                    let y = self.expand(&b)?;
                    let eq = x.trim() == y.trim();
                    conds.push(Cond { on: eq == (k == "ifeq"), seen_else: false });
                    continue;
                }
                Some("else") => {
                    if line.trim_matches(is_ws) != "else" {
                        let more = line[4..].trim_start_matches(is_ws);
                        if let Some(r) = more.strip_prefix("ifeq").or(more.strip_prefix("ifneq")) {
                            if line[4..].starts_with(is_ws) && split_ifeq(r.trim_start_matches(is_ws)).map_or(false, |(a, b)| well_formed(&a) && well_formed(&b)) {
                                return Err(Stop::Unimplemented("else if"));
                            }
                        }
                        return unsup("else with more");
                    }
                    match conds.last_mut() {
                        None => return self.err(Why::Parse("else")),
                        Some(c) if c.seen_else => return self.err(Why::Parse("else")),
                        Some(_) => {}
                    }
                    // inside a skipped branch both arms stay skipped
                    let n = conds.len();
                    let outer_off = conds[..n - 1].iter().any(|c| !c.on);
                    let c = &mut conds[n - 1];
                    c.seen_else = true;
                    c.on = !c.on;
                    let _ = outer_off;
                    continue;
                }
                Some("endif") => {
                    if line.len() > 5 {
                        if line.trim_matches(is_ws) == "endif" {
                            // trailing blanks
                        } else if line[5..].starts_with(is_ws) {
                            return self.err(Why::Parse("endif"));
                        } else {
                            return unsup("endif-like");
                        }
                    }
                    if conds.pop().is_none() {
                        return self.err(Why::Parse("endif"));
                    }
                    continue;
                }
                _ => {}
            }
            if ignoring {
                if split_assignment(&line).is_none() {
                    match line.split_whitespace().next() {
                        Some("define") => {
                            self.probe("skipped define");
                            skipped_define += 1
                        }
                        Some("endef") => skipped_define = skipped_define.saturating_sub(1),
                        _ => {
                            if matches!(kw, Some("define" | "endef")) || line.split_whitespace().any(|w| w == "define" || w == "endef") {
                                return unsup("almost a definition in skipped text");
                            }
                        }
                    }
                }
                self.probe("skipped line");
                continue;
            }
            // assignments
            if let Some((name, op, value)) = split_assignment(&line) {
                if kw.is_some() {
                    self.probe("variable named like a keyword");
                }
                if op == "!=" || name.is_empty() {
                    return unsup("assignment form");
                }
                if !well_formed(&name) {
                    return unsup("assignment name");
                }
                if !well_formed(&value) {
                    return self.err(Why::Parse("reference"));
                }
                if value.ends_with('$') && outside(&value).ends_with('$') {
                    return unsup("lone dollar");
                }
                self.close(open);
                let name = self.expand(&name)?;
                let name = name.trim().to_string();
                if name.is_empty() || !name.chars().all(plain_name_char) {
                    return unsup("computed name");
                }
                let old = self.st.vars.get(&name).cloned();
                match op {
                    ":=" | "::=" => {
                        let v = self.expand(&value)?;
                        self.set(&name, Var { simple: true, text: v });
                    }
                    "=" => {
                        self.set(&name, Var { simple: false, text: value });
                    }
                    "?=" => {
                        if old.is_none() {
                            self.set(&name, Var { simple: false, text: value });
                        }
                    }
                    "+=" => match old {
                        Some(o) if o.simple => {
                            let v = self.expand(&value)?;
                            // the expansion may itself have changed the variable
                                let mut o = self.st.vars.get(&name).cloned().unwrap_or(o);
                            if !o.simple {
                                return unsup("append to a variable that changed");
                            }
                            o.text = format!("{} {}", o.text, v);
                            self.set(&name, o);
                        }
                        Some(_) => {
                                let mut o = self.st.vars[&name].clone();
                            o.text = format!("{} {}", o.text, value);
                            self.set(&name, o);
                        }
                        None => {
                                self.set(&name, Var { simple: false, text: value });
                        }
                    },
                    _ => return unsup("operator"),
                }
                continue;
            }
            match kw {
                Some("define") => {
                    let n = line[6..].trim_matches(is_ws);
                    let (n, op) = match split_assignment(n) {
                        Some((n, op, v)) if v.is_empty() && (op == "=" || op == "+=") => (n, op),
                        Some(_) => return unsup("define form"),
                        None => (n.to_string(), "="),
                    };
                    if !line[6..].starts_with(is_ws) || n.is_empty() || !n.chars().all(|c| c.is_ascii_alphanumeric() || c == '_') {
                        return unsup("define form");
                    }
                    self.close(open);
                    match self.st.vars.get(&n).cloned() {
                        Some(old) if op == "+=" => {
                            if old.simple {
                                return unsup("define appends to a simple variable");
                            }
                            self.set(&n, Var { simple: false, text: format!("{} ", old.text) });
                        }
                        _ => self.set(&n, Var { simple: false, text: String::new() }),
                    }
                    define = Some((n, 1));
                    continue;
                }
                Some(k @ ("include" | "sinclude" | "-include")) => {
                    let rest = &line[k.len()..];
                    if !rest.is_empty() && !rest.starts_with(is_ws) {
                        return unsup("include-like");
                    }
                    if !well_formed(rest) {
                        return self.err(Why::Parse("reference"));
                    }
                    self.close(open);
                    let names = self.expand(rest)?;
                    if odd_backslash(k, &names) || names.contains('\n') || names.contains('\u{1}') {
                        return unsup("include names");
                    }
                    if names.contains('\\') {
                        self.probe("blank in a file name");
                    }
                    for n in names.replace("\\ ", "\u{1}").split_whitespace() {
                        self.include(&n.replace('\u{1}', " "), k != "include")?;
                    }
                    continue;
                }
                Some("endef") => return unsup("endef"),
                Some(_) => return Err(Stop::Unimplemented("keyword")),
                None => {}
            }
            if line.starts_with(self.cc) {
                return self.err(Why::Parse("recipe"));
            }
            self.close(open);
            *open = self.rule_line(&line)?;
        }
        Ok(())
    }

    fn has_eval(&self, s: &str) -> bool {
        // conservative: also through variables
        if s.contains("(eval") || s.contains("{eval") {
            return true;
        }
        s.contains('$') && self.st.vars.values().any(|v| !v.simple && (v.text.contains("$(eval") || v.text.contains("${eval")))
    }

    fn rule_line(&mut self, line: &str) -> R<Option<Open>> {
        if line.starts_with(':') || line.starts_with('=') {
            return unsup("line form");
        }
        let (left, inline) = match line.find(';') {
            Some(i) => {
                if find_outside(line, ';') != Some(i) {
                    return unsup("semicolon in reference");
                }
                (&line[..i], Some(&line[i + 1..]))
            }
            None => (line, None),
        };
        if !well_formed(left) {
            // which of several errors comes first is not the model's business
            return self.err(Why::Parse("reference"));
        }
        let out = outside(left);
        if let Some((t, d)) = left.split_once(':') {
            let plain = |s: &str| !s.is_empty() && s.chars().all(|c| c.is_alphanumeric() || c > '\u{a0}' && !c.is_whitespace() || c == ' ' || c == '%' || c == '.');
            if inline.is_none() && plain(t) && !t.trim().is_empty() {
                if let Some((a, b)) = d.split_once('=') {
                    if plain(a) && !a.trim().is_empty() && plain(b) && a.starts_with(' ') && !a.trim().contains(' ') {
                        return Err(Stop::Unimplemented("target-specific variable"));
                    }
                }
                if let Some((a, b)) = d.split_once(':') {
                    if plain(a) && plain(b) && a.starts_with(' ') && a.contains('%') {
                        return Err(Stop::Unimplemented("static pattern"));
                    }
                }
            }
        }
        if !out.chars().all(|c| c == '\u{1}' || c == ':' || is_ws(c) || plain_name_char(c)) {
            return unsup("line characters");
        }
        let bad = |s: &str| s.contains(':') || s.contains(';') || s.contains('=') || s.contains('\\') || s.contains('\n') || s.contains('#');
        match find_outside(left, ':') {
            None => {
                let mut all = String::new();
                // word by word, in order
                let mut rest = left;
                loop {
                    rest = rest.trim_start_matches(is_ws);
                    if rest.is_empty() {
                        break;
                    }
                    let e = [find_outside(rest, ' '), find_outside(rest, '\t')].into_iter().flatten().min().unwrap_or(rest.len());
                    let x = self.expand(&rest[..e])?;
                    if bad(&x) {
                        return unsup("expanded line");
                    }
                    all.push_str(&x);
                    rest = &rest[e..];
                }
                if inline.is_some() {
                    return unsup("recipe without rule");
                }
                if all.trim().is_empty() {
                    Ok(None)
                } else {
                    self.err(Why::Parse("separator"))
                }
            }
            Some(c) => {
                let (t, d) = (&left[..c], &left[c + 1..]);
                if t.trim_matches(is_ws).is_empty() {
                    return unsup("no target text");
                }
                let (d, dc) = match d.strip_prefix(':') {
                    Some(d) => (d, true),
                    None => (d, false),
                };
                if outside(d).contains(':') || d.starts_with('/') || keyword(d.trim_start_matches(is_ws)).is_some() {
                    return unsup("prerequisites");
                }
                let t = self.expand(t)?;
                if bad(&t) {
                    return unsup("expanded targets");
                }
                let d = self.expand(d)?;
                if bad(&d) {
                    return unsup("expanded prerequisites");
                }
                let words = |s: &str| s.split(is_ws).filter(|w| !w.is_empty()).map(|w| w.to_string()).collect::<Vec<_>>();
                let cmds = match inline {
                    None => vec![],
                    Some(i) => {
                        if !well_formed(i) || i.contains('=') || i.contains('\\') || i.ends_with('$') || i.contains(';') {
                            return unsup("inline recipe");
                        }
                        vec![i.to_string()]
                    }
                };
                Ok(Some(Open { targets: words(&t), deps: words(&d), cmds, dc }))
            }
        }
    }

    fn include(&mut self, name: &str, soft: bool) -> R<()> {
        let abs = if name.starts_with('/') {
            crate::vos::normalize(name)
        } else {
            crate::vos::normalize(&format!("{}/{}", self.wd, name))
        };
        self.n_includes += 1;
        self.asked.push((soft, self.evals > 0));
        match self.env.include(&abs, self.depth + 1) {
            Got::Cut => Err(Stop::Cut),
            Got::Wrong(m) => Err(Stop::Mismatch(m)),
            Got::Failed(e) => {
                self.at_last_open = self.states.len() - 1;
                if soft {
                    self.probe("optional include skipped");
                    Ok(())
                } else {
                    self.err(Why::Include { name: name.into(), abs, errno: Some(e), invalid_text: false, opened: false })
                }
            }
            Got::Content(b, e) => {
                self.at_last_open = self.states.len() - 1;
                if let Some(e) = e {
                    return self.err(Why::Include { name: name.into(), abs, errno: Some(e), invalid_text: false, opened: true });
                }
                match String::from_utf8(b) {
                    Err(_) => {
                        self.err(Why::Include { name: name.into(), abs, errno: None, invalid_text: true, opened: true })
                    }
                    Ok(text) => {
                        self.depth += 1;
                        self.max_depth = self.max_depth.max(self.depth);
                        // an include inside an eval starts a file of its own, but
                        // an error in it still surfaces through the eval
                        let r = self.block(&text);
                        self.depth -= 1;
                        r
                    }
                }
            }
        }
    }
}

/// backslashes are known only before a blank in the names of an include
fn odd_backslash(before: &str, s: &str) -> bool {
    let whole = format!("{}{}", before, s);
    s.replace("\\ ", "").contains('\\') || s.contains('\\') && !matches!(keyword(&whole), Some("include" | "sinclude" | "-include"))
}

fn split_ifeq(s: &str) -> Option<(String, String)> {
    if let Some(r) = s.strip_prefix('(') {
        let mut n = 0i32;
        let mut comma = None;
        for (i, c) in r.char_indices() {
            match c {
                '(' => n += 1,
                ')' if n == 0 => {
                    let k: usize = comma?;
                    if !r[i + 1..].trim_matches(is_ws).is_empty() {
                        return None;
                    }
                    return Some((r[..k].to_string(), r[k + 1..i].to_string()));
                }
                ')' => n -= 1,
                ',' if n == 0 => {
                    if comma.is_some() {
                        return None;
                    }
                    comma = Some(i)
                }
                _ => {}
            }
        }
        return None;
    }
    let q = s.chars().next()?;
    if q != '"' && q != '\'' {
        return None;
    }
    let r = &s[1..];
    let e = r.find(q)?;
    let a = &r[..e];
    let r = r[e + 1..].trim_start_matches(is_ws);
    let q2 = r.chars().next()?;
    if q2 != '"' && q2 != '\'' {
        return None;
    }
    let r = &r[1..];
    let e = r.find(q2)?;
    if !r[e + 1..].trim_matches(is_ws).is_empty() {
        return None;
    }
    Some((a.to_string(), r[..e].to_string()))
}

fn split_assignment(line: &str) -> Option<(String, &'static str, String)> {
    let e = line.find(|c: char| c.is_whitespace() || ":=!?+".contains(c))?;
    let name = &line[..e];
    let rest = line[e..].trim_start_matches(is_ws);
    for op in ["=", "::=", ":=", "?=", "!=", "+="] {
        if let Some(v) = rest.strip_prefix(op) {
            return Some((name.to_string(), op, v.trim_start_matches(is_ws).to_string()));
        }
    }
    None
}

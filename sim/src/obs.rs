//! What a user can see of a database, through the public interface only.

use crate::model::{literals, Env, Got, Model, State, Stop};
use hastur::source_location::Location;
use hastur::{Database, Engine, NameCache};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};

/// The text of commands and the kind of a rule are visible only in `Debug`
/// output; these say whether that output still has the known form.
pub static SEE_COMMANDS: AtomicBool = AtomicBool::new(false);
pub static SEE_KIND: AtomicBool = AtomicBool::new(false);

#[derive(Clone, Debug, PartialEq, Default)]
pub struct ORule {
    pub deps: Vec<String>,
    pub ncmds: usize,
    pub cmds: Vec<String>,
    pub dc: bool,
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Dump {
    pub vars: BTreeMap<String, String>,
    pub rules: BTreeMap<String, ORule>,
    /// targets in the order in which they are listed
    pub order: Vec<String>,
    pub dup: bool,
    pub sens: BTreeMap<String, Vec<String>>,
    /// where the text of each variable was written
    pub locs: BTreeMap<String, String>,
}

/// all quoted strings of a `Debug` text, unescaped and joined
fn quoted(s: &str) -> String {
    let mut out = String::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c != '"' {
            continue;
        }
        while let Some(c) = it.next() {
            match c {
                '"' => break,
                '\\' => match it.next() {
                    Some('n') => out.push('\n'),
                    Some('t') => out.push('\t'),
                    Some('r') => out.push('\r'),
                    Some('0') => out.push('\0'),
                    Some('u') => {
                        let mut h = String::new();
                        it.next();
                        for c in it.by_ref() {
                            if c == '}' {
                                break;
                            }
                            h.push(c);
                        }
                        if let Some(c) = u32::from_str_radix(&h, 16).ok().and_then(char::from_u32) {
                            out.push(c);
                        }
                    }
                    Some(c) => out.push(c),
                    None => {}
                },
                c => out.push(c),
            }
        }
    }
    out
}
fn kind_of(debug: &str) -> bool {
    debug.contains("DoubleColon")
}

/// Expansions can double a text with every statement; runs that do so more
/// than a few times are given up and counted as such
pub const LONGEST: usize = 200_000;
const LONGEST_DEBUG: usize = 8_000_000;

fn place(names: &NameCache, l: Location) -> String {
    match l {
        Location::SourceLocation { line, character, filename } => {
            format!("{}:{}:{}", names.resolve_file_name(filename).unwrap_or("?"), line, character)
        }
        l => format!("{:?}", l),
    }
}

/// The values of all variables as the engine itself expands them now,
/// which leaves its database as it was
pub fn live(e: &mut Engine, n: &mut NameCache, universe: &[String]) -> BTreeMap<String, String> {
    let mut out = BTreeMap::new();
    let keep = e.database.clone();
    for name in watched(universe) {
        if let Some(h) = n.variable_name(name) {
            if let Some(v) = keep.get_variable(h) {
                // (how long it becomes has been seen to by `dump`)
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| v.expand(n, e)));
                out.insert(name.to_string(), r.unwrap_or_else(|_| "<cannot be expanded>".into()));
                e.replace_database(keep.clone());
            }
        }
    }
    out
}

/// `{:?}`, up to a length: shared text is written once for each use of it
fn shown<T: std::fmt::Debug>(x: &T) -> String {
    struct Short(String);
    impl std::fmt::Write for Short {
        fn write_str(&mut self, s: &str) -> std::fmt::Result {
            if self.0.len() + s.len() > LONGEST_DEBUG {
                return Err(std::fmt::Error);
            }
            self.0.push_str(s);
            Ok(())
        }
    }
    let mut w = Short(String::new());
    if std::fmt::Write::write_fmt(&mut w, format_args!("{:?}", x)).is_err() {
        crate::vos::die_code("a text grows beyond what is worth looking at", crate::vos::EXIT_BIG);
    }
    w.0
}

/// Names with a meaning of their own: nothing is expected of them, except
/// that two observations agree
const SPECIAL: &[&str] = &[
    "MAKE", "MAKELEVEL", "MAKECMDGOALS", "MAKE_VERSION", "SUFFIXES", ".VARIABLES", ".FEATURES", ".LIBPATTERNS", ".LOADED", ".DEFAULT_GOAL", "HOME",
    "PATH", "",
];

fn watched(universe: &[String]) -> impl Iterator<Item = &str> {
    universe.iter().map(String::as_str).chain(SPECIAL.iter().copied())
}

pub fn dump(db: &Database, names: &NameCache, universe: &[String]) -> Dump {
    let mut d = Dump::default();
    let mut n = names.clone();
    let mut scratch = Engine::default();
    for name in watched(universe) {
        if let Some(h) = names.variable_name(name) {
            if let Some(v) = db.get_variable(h) {
                let name = name.to_string();
                scratch.database = db.clone();
                d.locs.insert(name.clone(), place(names, v.ast().location()));
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    let b = v.ast().eval(&mut n, &mut scratch);
                    if b.len() > LONGEST {
                        crate::vos::die_code("a text grows beyond what is worth looking at", crate::vos::EXIT_BIG);
                    }
                    let mut t = b.into_string();
                    if t.len() < 5000 {
                        // the two ways of asking have to agree
                        scratch.database = db.clone();
                        let x = v.expand(&mut n, &mut scratch);
                        if x != t {
                            t = format!("<{:?} by eval, {:?} by expand>", t, x);
                        }
                    }
                    (t, b.sensitivity().map(|s| format!("{:?}", s)).collect::<Vec<_>>())
                }));
                match r {
                    Ok((s, sens)) => {
                        d.vars.insert(name.clone(), s);
                        d.sens.insert(name.clone(), sens);
                    }
                    Err(_) => {
                        d.vars.insert(name.clone(), "<cannot be expanded>".into());
                    }
                }
            }
        }
    }
    let see = SEE_COMMANDS.load(Relaxed);
    for r in db.rules() {
        let t = r.target().into_string();
        d.order.push(t.clone());
        let o = ORule {
            deps: r.dependencies().iter().map(|x| x.into_string()).collect(),
            ncmds: r.recipe().commands().len(),
            cmds: if see { r.recipe().commands().iter().map(|c| quoted(&shown(c))).collect() } else { vec![] },
            dc: SEE_KIND.load(Relaxed) && kind_of(&shown(r)),
        };
        if d.rules.insert(t, o).is_some() {
            d.dup = true;
        }
    }
    // the same rules must be found by name
    for (t, o) in d.rules.iter_mut() {
        let found = names.file_name(t).and_then(|f| db.get_rule(f)).map(|r| r.dependencies().len());
        if found != Some(o.deps.len()) {
            o.deps.push("<not found by name>".into());
        }
    }
    d
}

struct NoEnv;
impl Env for NoEnv {
    fn include(&mut self, _: &str, _: usize) -> Got {
        Got::Cut
    }
}

/// First difference between what is there and what the model says
pub fn differ(st: &State, d: &Dump, universe: &[String]) -> Option<String> {
    let mut env = NoEnv;
    let mut m = Model::new(st.clone(), "/", '\t', &mut env);
    for name in universe {
        let want = if st.vars.contains_key(name) {
            m.st = st.clone();
            match m.lookup(name) {
                Ok(s) => Some(s),
                Err(Stop::Unsupported(_)) => continue,
                Err(_) => continue,
            }
        } else {
            None
        };
        let got = d.vars.get(name).cloned();
        if want != got {
            return Some(format!("variable {}: expected {:?}, found {:?}", name, want, got));
        }
    }
    for (t, r) in st.rules.iter() {
        match d.rules.get(t) {
            None => return Some(format!("rule for {:?} is missing", t)),
            Some(o) => {
                if o.deps != r.deps {
                    return Some(format!("rule {:?}: expected prerequisites {:?}, found {:?}", t, r.deps, o.deps));
                }
                if o.ncmds != r.cmds.len() {
                    return Some(format!("rule {:?}: expected {} recipe lines, found {}", t, r.cmds.len(), o.ncmds));
                }
                if SEE_COMMANDS.load(Relaxed) {
                    for (a, b) in r.cmds.iter().zip(&o.cmds) {
                        if literals(a) != *b {
                            return Some(format!("rule {:?}: expected recipe line {:?}, found text {:?}", t, a, b));
                        }
                    }
                }
                if SEE_KIND.load(Relaxed) && o.dc != r.dc {
                    return Some(format!("rule {:?}: expected double colon {}, found {}", t, r.dc, o.dc));
                }
            }
        }
    }
    for t in d.rules.keys() {
        if !st.rules.contains_key(t) {
            return Some(format!("rule for {:?} should not exist", t));
        }
    }
    if d.dup {
        return Some("a target is listed twice".into());
    }
    None
}

/// First difference between two observations; `order` also compares listings
pub fn dump_diff(a: &Dump, b: &Dump, order: bool) -> Option<String> {
    for k in a.vars.keys().chain(b.vars.keys()) {
        if a.vars.get(k) != b.vars.get(k) {
            return Some(format!("variable {}: {:?} against {:?}", k, a.vars.get(k), b.vars.get(k)));
        }
    }
    for k in a.rules.keys().chain(b.rules.keys()) {
        if a.rules.get(k) != b.rules.get(k) {
            return Some(format!("rule {}: {:?} against {:?}", k, a.rules.get(k), b.rules.get(k)));
        }
    }
    for k in a.locs.keys().chain(b.locs.keys()) {
        if a.locs.get(k) != b.locs.get(k) {
            return Some(format!("variable {} comes from {:?} against {:?}", k, a.locs.get(k), b.locs.get(k)));
        }
    }
    if order {
        if a.order != b.order {
            return Some(format!("rules listed as {:?} against {:?}", a.order, b.order));
        }
        for k in a.sens.keys() {
            if a.sens.get(k) != b.sens.get(k) {
                return Some(format!("sensitivity of {}: {:?} against {:?}", k, a.sens.get(k), b.sens.get(k)));
            }
        }
    }
    None
}

/// Check the known form of the `Debug` output with one fixed makefile
pub fn calibrate() -> (bool, bool) {
    let text = "a: b\n\techo $(V0) \"x\\\\y\" $$q $(V$(K)) é\nc:: d\n\tz\n";
    let mut e = Engine::default();
    let mut n = NameCache::default();
    if e.read_makefile(&mut n, &mut text.as_bytes(), "calibrate").is_err() {
        return (false, false);
    }
    let get = |t: &str| n.file_name(t).and_then(|f| e.database.get_rule(f)).cloned();
    let (a, c) = match (get("a"), get("c")) {
        (Some(a), Some(c)) => (a, c),
        _ => return (false, false),
    };
    let cmds = a.recipe().commands().len() == 1
        && quoted(&format!("{:?}", a.recipe().commands()[0])) == literals("echo $(V0) \"x\\\\y\" $$q $(V$(K)) é");
    let kind = !kind_of(&format!("{:?}", a)) && kind_of(&format!("{:?}", c));
    (cmds, kind)
}

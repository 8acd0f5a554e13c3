//! Workload generator: small makefile trees whose every literal is unique, so
//! that each byte of a result is attributable to one statement.

use crate::choice::Choices;

#[derive(Clone, Debug, Default)]
pub struct Case {
    pub wd: String,
    pub cc: char,
    pub main: Vec<u8>,
    /// absolute path, content
    pub files: Vec<(String, Vec<u8>)>,
    pub dirs: Vec<String>,
    /// names some include uses that no file has
    pub missing: Vec<String>,
}

#[derive(Clone, Copy, Debug, Default)]
pub struct Opts {
    /// statements that are errors
    pub errors: bool,
    /// mandatory includes of files that do not exist
    pub hard_missing: bool,
    /// constructs known to be unimplemented
    pub unimplemented: bool,
    /// no eval that includes
    pub no_eval_include: bool,
    /// sometimes long texts that cross buffer boundaries
    pub pad: bool,
    /// make sure that includes are plentiful
    pub includes: bool,
    /// small cases only
    pub small: bool,
    /// no recipe prefix other than tab
    pub tab_only: bool,
    /// no byte order mark, CRLF and the like
    pub plain: bool,
    /// no parse of anything inside eval can fail
    pub rules: bool,
    /// first number used in literals
    pub lit_base: u32,
    /// more often much of one kind
    pub bulky: bool,
    /// a long chain of files for certain
    pub chain: bool,
}

pub const VARS: usize = 6;
/// every variable name a case may set
pub fn universe() -> Vec<String> {
    let mut v = vec![];
    for (p, n) in [("V", VARS), ("W", 3), ("F", 3), ("D", 3), ("K", 2), ("C", 3), ("X", 10), ("N", 2), ("R", 3), ("L", 2)] {
        for i in 0..n {
            v.push(format!("{}{}", p, i));
        }
    }
    v.push("Q".into());
    v.push("R".into());
    v.extend(SPECIAL.iter().map(|x| x.to_string()));
    v
}

/// variables that mean something to make, or might
const SPECIAL: &[&str] = &["CURDIR", ".RECIPEPREFIX", "MAKEFILE_LIST", "MAKEFILES", "VPATH", "PWD", "SHELL", ".INCLUDE_DIRS", "MAKEFLAGS", "include", "vpath"];
/// and targets
const ODD_TARGETS: &[&str] = &[
    ".PHONY", ".SUFFIXES", ".DEFAULT", ".POSIX", ".ONESHELL", ".SECONDEXPANSION", ".EXPORT_ALL_VARIABLES", ".DELETE_ON_ERROR", "%.o", "t*", "t[01]", "/abs/t0", "./t0",
    "t0%", "includes/a.o", "-includes", "included", "exported", "unexports", "vpaths", "loader", "defined", "undefined", "overrides", "privates",
    "elsewhere", "endifs", "ifdefs", "ifndefs", "endefs", "sincludes", "-loads",
];

struct G<'a> {
    ch: &'a mut Choices,
    o: Opts,
    lit: u32,
    uni: bool,
    w: [u32; 10],
    cc: char,
    cost: usize,
    cap: usize,
    errors_left: u32,
    missing: Vec<String>,
    no_define: bool,
    depth_budget: u32,
    body: bool,
}

/// what may be included from where: (name as files are known, cost)
type Targets = Vec<(String, usize)>;
const LEAVES: &[&str] = &["l0.mk", "l1.mk", "sub/l2.mk"];
const SUBS: &[&str] = &[".c=.o", ".c=.o", "%.c=%.o", "%.c=p%.x", ".c=", ".$(R)=.o", ".c=.$(Q)", "%.c=$(R)%$(Q)"];

impl<'a> G<'a> {
    fn lit(&mut self) -> String {
        self.lit += 1;
        let n = self.lit;
        if self.uni && self.ch.chance(1, 4) {
            let p = *self.ch.pick(&["é", "日本", "𝕏", "ß"]);
            return format!("{}{}", p, n);
        }
        format!("v{}", n)
    }
    fn value(&mut self, rank: usize, immediate: bool) -> String {
        let n = 1 + self.ch.weighted(&[6, 3, 1]);
        let mut out = String::new();
        for i in 0..n {
            if i > 0 && self.ch.chance(2, 3) {
                out.push(' ');
            }
            let lim = if immediate { VARS } else { rank };
            match self.ch.weighted(&[8, 4, 1, 1, 1, 1, 1]) {
                6 => out.push_str(if self.ch.chance(1, 2) { "$Q" } else { "$R" }),
                1 if lim > 0 => {
                    let k = self.ch.draw(lim as u32);
                    out.push_str(&if self.ch.chance(1, 4) { format!("${{V{}}}", k) } else { format!("$(V{})", k) });
                }
                2 => {
                    out.push_str("$$q");
                    out.push_str(&self.lit());
                }
                3 => {
                    let x = *self.ch.pick(SUBS);
                    let k = if immediate && self.ch.chance(1, 4) {
                        *self.ch.pick(&["$(K0)", "$(K1)"])
                    } else {
                        *self.ch.pick(&["0", "1", "2"])
                    };
                    out.push_str(&format!("$(W{}:{})", k, x));
                }
                4 if immediate => out.push_str("$(V$(K0))"),
                4 => out.push_str(*self.ch.pick(&["$(W$(K1))", "${W$(K0)}", "$(W$(K1):.c=.o)"])),
                5 => {
                    let k = self.ch.draw(3);
                    out.push_str(&format!("$(W{})", k));
                }
                _ => out.push_str(&self.lit()),
            }
        }
        out
    }
    fn words(&mut self) -> String {
        let n = self.ch.draw(4);
        let mut v = vec![];
        for _ in 0..n {
            let l = self.lit();
            let e = *self.ch.pick(&[".c", ".c", ".h", ""]);
            v.push(format!("{}{}", l, e));
        }
        v.join(" ")
    }
    fn op_pad(&mut self) -> &'static str {
        *self.ch.pick(&[" ", " ", "", "  "])
    }
    fn assign(&mut self) -> String {
        let pad = self.op_pad();
        match self.ch.weighted(&[10, 2, 1, 1, 1, 1, 1, 1]) {
            7 => {
                let n = *self.ch.pick(SPECIAL);
                let op = *self.ch.pick(&["=", ":=", "+=", "?="]);
                let l = self.lit();
                let v = match self.ch.draw(8) {
                    0 | 1 => ">".to_string(),
                    2 => "/abs/deep".to_string(),
                    3 => "sub".to_string(),
                    4 => "l0.mk l1.mk".to_string(),
                    5 => "-k".to_string(),
                    6 => format!("{} $({})", l, if op == ":=" { *self.ch.pick(SPECIAL) } else { "V0" }),
                    _ => l,
                };
                format!("{} {} {}", n, op, v)
            }
            6 => {
                let l = self.lit();
                let op = *self.ch.pick(&["=", ":=", "+=", "?="]);
                format!("{} {} {}", self.ch.pick(&["Q", "R", "$(K1)", "N0"]), op, l).replace("$(K1) +=", "N1 +=").replace("$(K1) ?=", "N1 ?=").replace("$(K1)", "N$(K1)")
            }
            0 => {
                let i = self.ch.draw(VARS as u32) as usize;
                let op = *self.ch.pick(&["=", ":=", "+=", "?=", "::=", ":=", "+="]);
                let imm = op == ":=" || op == "::=";
                let v = if self.ch.chance(1, 12) { String::new() } else { self.value(i, imm) };
                let mut s = format!("V{}{}{}{}{}", i, if pad.is_empty() && op == "+=" { " " } else { pad }, op, pad, v);
                if !self.body && self.ch.chance(1, 12) {
                    s.push_str(" # note");
                }
                if !self.body && self.ch.chance(1, 12) {
                    let l = self.lit();
                    s.push_str(" \\\n   ");
                    s.push_str(&l);
                    if s.contains(" # note") {
                        // the comment swallows the continuation
                    }
                }
                s
            }
            1 => {
                let i = self.ch.draw(3);
                let op = *self.ch.pick(&["=", ":=", "+="]);
                let w = self.words();
                format!("W{} {} {}", i, op, w)
            }
            2 => {
                let d = self.ch.draw(VARS as u32);
                format!("K{} := {}", self.ch.draw(2), d)
            }
            3 => format!("C{} = {}", self.ch.draw(3), self.ch.pick(&["yes", "no", ""])),
            4 => {
                let l = self.lit();
                format!("V$(K0) := {}", l)
            }
            _ => {
                let i = self.ch.draw(10);
                let l = self.lit();
                format!("X{} = {}", i, l)
            }
        }
    }
    fn flush_rule(&mut self, out: &mut Vec<String>) {
        let i = self.ch.draw(10);
        let l = self.lit();
        out.push(format!("X{} = {}", i, l));
    }
    fn cond(&mut self) -> String {
        let kw = *self.ch.pick(&["ifeq", "ifneq"]);
        let a = match self.ch.draw(5) {
            0 => "1".to_string(),
            1 => "yes".to_string(),
            2 => format!("$(C{})", self.ch.draw(3)),
            3 => format!("$(V{})", self.ch.draw(VARS as u32)),
            _ => "$(X0)".to_string(),
        };
        let b = match self.ch.draw(4) {
            0 => "1".to_string(),
            1 => "yes".to_string(),
            2 => String::new(),
            _ => format!("$(C{})", self.ch.draw(3)),
        };
        match self.ch.draw(4) {
            0 => format!("{} \"{}\" \"{}\"", kw, a, b),
            1 => format!("{} '{}' \"{}\"", kw, a, b),
            _ => format!("{} ({},{})", kw, a, b),
        }
    }
    fn recipe_line(&mut self) -> String {
        let l = self.lit();
        let cc = self.cc;
        match self.ch.draw(5) {
            0 => format!("{}echo {}", cc, l),
            1 => format!("{}echo {} $(V{})", cc, l, self.ch.draw(VARS as u32)),
            2 => format!("{}@run $$q{} ${{W0}}", cc, l),
            3 if !self.body => {
                let m = self.lit();
                let mut s = format!("{}go {}", cc, l);
                for k in 0..1 + self.ch.draw(3) {
                    s += &format!(" \\\n{}  on {}.{}", cc, m, k);
                }
                s
            }
            _ => format!("{}do {} $(V$(K1))", cc, l),
        }
    }
    fn target(&mut self) -> String {
        if self.ch.chance(1, 8) {
            let x = *self.ch.pick(SUBS);
            return format!("$(W{}:{})", self.ch.draw(3), x);
        }
        if self.ch.chance(1, 12) {
            return (*self.ch.pick(ODD_TARGETS)).to_string();
        }
        format!("t{}", self.ch.draw(6))
    }
    fn dep(&mut self) -> String {
        match self.ch.draw(6) {
            0 if self.ch.chance(1, 4) => (*self.ch.pick(&["%.c", "l*.mk", "?", "[l]0.mk", "~/x", "../y", "lib.a", "-lm", "t0%", "sub/"])).to_string(),
            0 => format!("t{}", self.ch.draw(6)),
            1 => format!("$(W{})", self.ch.draw(3)),
            2 => {
                let x = *self.ch.pick(SUBS);
                format!("${{W{}:{}}}", self.ch.draw(3), x)
            }
            _ => {
                let l = self.lit();
                format!("d{}", l)
            }
        }
    }
    fn rule_head(&mut self) -> String {
        let n = 1 + self.ch.weighted(&[4, 2, 1]);
        let t: Vec<String> = (0..n).map(|_| self.target()).collect();
        let n = self.ch.draw(4);
        let d: Vec<String> = (0..n).map(|_| self.dep()).collect();
        let sep = *self.ch.pick(&[": ", ": ", ":: ", " : ", ":"]);
        let mut s = format!("{}{}{}", t.join(" "), sep, d.join(" "));
        if !self.body && self.ch.chance(1, 8) {
            s.push_str(" \\\n  ");
            s.push_str(&self.dep());
        }
        s
    }
    fn rule(&mut self, out: &mut Vec<String>) {
        let mut h = self.rule_head();
        if self.ch.chance(1, 6) {
            let l = self.lit();
            h.push_str(&format!(" ; echo {}", l));
        } else if !self.body && self.ch.chance(1, 10) {
            h.push_str(" # why");
        }
        out.push(h);
        let n = self.ch.draw(4);
        for _ in 0..n {
            if self.ch.chance(1, 8) && !self.body {
                match self.ch.draw(3) {
                    0 => out.push(String::new()),
                    1 => out.push("# between".into()),
                    _ => out.push("  # indented".into()),
                }
            }
            if self.ch.chance(1, 8) {
                out.push(self.cond());
                out.push(self.recipe_line());
                if self.ch.chance(1, 2) {
                    out.push("else".into());
                    out.push(self.recipe_line());
                }
                out.push("endif".into());
            } else {
                out.push(self.recipe_line());
            }
        }
    }
    fn name_form(&mut self, f: &str) -> String {
        if f.starts_with('/') {
            return f.to_string();
        }
        match self.ch.weighted(&[16, 4, 2, 2, 1, 1, 1]) {
            4 => format!("lnk/../../w/d/{}", f),
            5 => format!(".//sub/..//{}", f),
            6 => format!("/w/d/lnk/../../w/d/./{}", f),
            1 => format!("./{}", f),
            2 => format!("sub/../{}", f),
            3 => format!("/w/d/{}", f),
            _ => f.to_string(),
        }
    }
    fn missing_name(&mut self) -> String {
        let m = match self.ch.weighted(&[15, 6, 3, 3, 2, 1, 1, 1, 1]) {
            7 => (*self.ch.pick(&["*.mk", "l?.mk", "[l]0.mk", "{l0,l1}.mk", "sub/*"])).to_string(),
            8 => "no\\ ne.mk".to_string(),
            // only a path that is put together without looking would exist
            4 => "nodir/../l0.mk".to_string(),
            5 => "lnk/../l1.mk".to_string(),
            6 => "~/m.mk".to_string(),
            0 => format!("m{}.mk", self.ch.draw(3)),
            1 => "nodir/m.mk".to_string(),
            2 => "l0.mk/m.mk".to_string(),
            _ => "sub/m.mk".to_string(),
        };
        if !self.missing.contains(&m) {
            self.missing.push(m.clone());
        }
        m
    }
    fn include(&mut self, kids: &Targets) -> Option<String> {
        let soft = self.ch.chance(1, 2);
        let kw = if soft { *self.ch.pick(&["-include", "sinclude"]) } else { "include" };
        let n = 1 + self.ch.weighted(&[5, 3, 1]);
        let mut names = vec![];
        for _ in 0..n {
            let k = self.ch.draw(6);
            if k == 0 && soft {
                names.push(self.missing_name());
            } else if k == 1 {
                let i = self.ch.draw(3);
                if i == 0 && !soft {
                    continue;
                }
                names.push(format!("$(F{})", i));
                self.cost += 8;
            } else if !kids.is_empty() {
                let i = self.ch.draw(kids.len() as u32) as usize;
                if self.cost + kids[i].1 > self.cap {
                    continue;
                }
                self.cost += kids[i].1 + 1;
                let f = kids[i].0.clone();
                names.push(self.name_form(&f));
            }
        }
        if !soft && self.o.hard_missing && self.errors_left > 0 && self.ch.chance(1, 6) {
            self.errors_left -= 1;
            let m = if self.ch.chance(1, 5) { "sub".to_string() } else { self.missing_name() };
            let at = self.ch.draw(names.len() as u32 + 1) as usize;
            names.insert(at, m);
        }
        if self.ch.chance(1, 20) {
            self.cost += 6;
            let at = self.ch.draw(names.len() as u32 + 1) as usize;
            names.insert(at, (*self.ch.pick(&["sp\\ ace.mk", "./sp\\ ace.mk", "/w/d/sp\\ ace.mk"])).to_string());
        }
        if names.is_empty() {
            return None;
        }
        if self.ch.chance(1, 10) {
            // names that have an effect when they are looked at
            let t = self.eval_text();
            let at = self.ch.draw(names.len() as u32 + 1) as usize;
            names.insert(at, format!("$(eval {})", t));
            self.cost += 3;
        }
        let sep = *self.ch.pick(&[" ", " ", "  ", " \\\n   "]);
        let end = *self.ch.pick(&["", "", "", " # which", "  "]);
        Some(format!("{} {}{}", kw, names.join(sep), end))
    }
    /// text for inside $(eval ...), on one line
    fn eval_text(&mut self) -> String {
        match self.ch.draw(9) {
            7 => {
                // something that stays open, or nothing at all
                match self.ch.draw(4) {
                    0 => format!("define N{}", self.ch.draw(2)),
                    1 => "ifeq (1,2)".to_string(),
                    2 => "ifeq ($(C0),yes)".to_string(),
                    _ => " ".to_string(),
                }
            }
            8 => {
                let l = self.lit();
                let m = self.lit();
                let i = self.ch.draw(10);
                let j = self.ch.draw(10);
                format!("$(eval X{} := {})X{} := {}$(X{})", i, l, j, m, i)
            }
            0 | 1 => {
                let i = self.ch.draw(10);
                let l = self.lit();
                let op = *self.ch.pick(&[":=", "=", "+="]);
                format!("X{} {} {}", i, op, l)
            }
            2 => {
                let i = 1 + self.ch.draw(VARS as u32 - 1);
                let l = self.lit();
                let j = self.ch.draw(i);
                if self.ch.chance(1, 2) {
                    format!("V{} := {} $(V{})", i, l, j)
                } else {
                    format!("V{} = {} $$(V{})", i, l, j)
                }
            }
            3 if !self.o.no_eval_include => {
                let f = *self.ch.pick(LEAVES);
                let f = self.name_form(f);
                self.cost += 6;
                if self.ch.chance(1, 3) {
                    let m = self.missing_name();
                    format!("-include {} {}", m, f)
                } else {
                    format!("include {}", f)
                }
            }
            4 => {
                self.cost += 12;
                format!("$(D{})", self.ch.draw(2))
            }
            5 => {
                let t = self.ch.draw(6);
                let l = self.lit();
                format!("t{}: e{} $(W0)", t, l)
            }
            _ => {
                let i = self.ch.draw(3);
                let v = *self.ch.pick(&["yes", "no"]);
                format!("C{} := {}", i, v)
            }
        }
    }
    fn eval_stmt(&mut self, out: &mut Vec<String>) {
        self.cost += 3;
        match self.ch.weighted(&[6, 2, 1, 1, 1, 2, 1]) {
            6 => {
                // a variable that replaces itself when it is first used
                let i = self.ch.draw(2);
                let l = self.lit();
                let m = self.lit();
                let op = *self.ch.pick(&[":=", "="]);
                out.push(format!("L{} = $(eval L{} {} {})$(L{})", i, i, op, l, i));
                if self.ch.chance(1, 2) {
                    let s = self.assign();
                    out.push(s);
                }
                let j = self.ch.draw(10);
                match self.ch.draw(3) {
                    0 => out.push(format!("X{} := {}$(L{})$(L{})", j, m, i, i)),
                    1 => out.push(format!("t2: {} $(L{})", m, i)),
                    _ => out.push(format!("X{} = {}$(L{})", j, m, i)),
                }
            }
            5 => {
                // in every place where text is expanded, or is not
                let t = self.eval_text();
                let l = self.lit();
                let m = self.lit();
                let i = self.ch.draw(10);
                let e = format!("$(eval {})", t);
                let v = self.ch.draw(VARS as u32);
                let cc = self.cc;
                let how = self.ch.draw(16);
                // what a variable holds must not lead back to that variable
                if how < 5 && (t.contains("$(V") || t.contains("$(X") || t.contains("$(D") || t.contains("include")) {
                    return;
                }
                match how {
                    0 => out.push(format!("X{} ?= {}{}{}", i, l, e, m)),
                    1 => out.push(format!("X{} += {}{}{}", i, l, e, m)),
                    2 => out.push(format!("V{} += {}{}{}", v, l, e, m)),
                    3 => out.push(format!("X{} = {}{}", i, l, e)),
                    4 => {
                        out.push(format!("X{} = {}{}", i, l, e));
                        let j = self.ch.draw(10);
                        if i != j {
                            out.push(format!("X{} := {}$(X{}){}$(X{})", j, m, i, m, i));
                        }
                    }
                    5 => out.push(format!("{}t1: {}", e, l)),
                    6 => out.push(format!("t1 {} t2: {}", e, l)),
                    7 => out.push(format!("t3: {} {} {}", l, e, m)),
                    8 => {
                        out.push(format!("t4: {}", l));
                        out.push(format!("{}echo {}{}", cc, m, e));
                    }
                    9 => out.push(format!("t4: {} ; echo {}{}", l, m, e)),
                    10 => out.push(format!("X{}{} := {}", e, i, l)),
                    11 => out.push(format!("X{} := {}$(V$(K0){}){}", i, l, e, m)),
                    12 => out.push(format!("X{} := {}$(W0{}:.c=.o){}", i, l, e, m)),
                    13 => out.push(format!("# {} \\\n {}", e, e)),
                    14 => out.push(format!("X{} := {} # {}", i, l, e)),
                    _ => out.push(format!("t{}{}: {}{} ; echo", self.ch.draw(6), e, l, e)),
                }
            }
            4 => {
                let i = self.ch.draw(2);
                let t = self.eval_text();
                out.push(format!("E{} = $(eval {})", i, t));
                if self.ch.chance(1, 2) {
                    let s = self.assign();
                    out.push(s);
                }
                match self.ch.draw(3) {
                    0 => out.push(format!("$(E{})", i)),
                    1 => {
                        let l = self.lit();
                        out.push(format!("X7 := {}$(E{})", l, i));
                    }
                    _ => {
                        let l = self.lit();
                        out.push(format!("t5: {} $(E{})", l, i));
                    }
                }
            }
            0 => {
                let t = self.eval_text();
                out.push(format!("$(eval {})", t));
            }
            1 => {
                let a = self.eval_text();
                let b = self.eval_text();
                let sep = *self.ch.pick(&["", " "]);
                out.push(format!("$(eval {}){}$(eval {})", a, sep, b));
            }
            2 => {
                let i = self.ch.draw(VARS as u32);
                let l = self.lit();
                let m = self.lit();
                let t = self.eval_text();
                out.push(format!("V{} := {}$(eval {}){}", i, l, t, m));
            }
            _ => {
                self.flush_rule(out);
                let t = self.eval_text();
                let l = self.lit();
                let c = match self.ch.draw(8) {
                    0 => format!("ifeq ({},$(eval {}))", self.ch.pick(&["", "a", "$(C0)", "$(X9)"]), t),
                    1 => format!("ifneq ({},$(eval {}))", self.ch.pick(&["", "a", "$(C0)", "$(X9)"]), t),
                    2 => format!("ifneq ($(eval {}),{})", t, self.ch.pick(&["", "a", "$(C0)"])),
                    3 if !t.contains('"') => format!("ifneq '$(X9)' \"$(eval {})\"", t),
                    4 => {
                        let u = self.eval_text();
                        format!("ifeq ($(eval {}),$(eval {}))", t, u)
                    }
                    _ => format!("ifeq ($(eval {}),)", t),
                };
                out.push(c);
                out.push(format!("X1 = {}", l));
                out.push("endif".into());
            }
        }
    }
    /// a definition whose body is carried out by eval later
    fn define(&mut self, out: &mut Vec<String>) {
        let d = self.ch.draw(3);
        let form = *self.ch.pick(&["", "", "", " =", " +="]);
        let blank = *self.ch.pick(&["", "", "", "", " ", "\t "]);
        out.push(format!("define D{}{}{}", d, form, blank));
        let old = std::mem::replace(&mut self.body, true);
        let n = 1 + self.ch.draw(4);
        for _ in 0..n {
            match self.ch.draw(9) {
                0..=2 => {
                    let s = self.assign();
                    out.push(s);
                }
                7 if self.ch.chance(1, 3) => {
                    let l = self.lit();
                    out.push(format!("{}: d{}", self.ch.pick(&["defined", "endefs", "undefine.o", "define.c"]), l));
                }
                8 => {
                    out.push(format!("define N{}", self.ch.draw(2)));
                    let l = self.lit();
                    out.push(format!("body {}", l));
                    if self.ch.chance(1, 3) {
                        out.push("ifeq (1,2)".into());
                    }
                    out.push("endef".into());
                }
                3 => {
                    let l = self.lit();
                    let t = self.ch.draw(6);
                    out.push(format!("t{}: d{}", t, l));
                    if self.ch.chance(2, 3) {
                        let cc = self.cc;
                        out.push(format!("{}echo {} $$(V0)", cc, l));
                    }
                }
                4 if !self.o.no_eval_include => {
                    let f = *self.ch.pick(LEAVES);
                    out.push(format!("include {}", f));
                }
                5 => {
                    let k = self.ch.draw(3);
                    let l = self.lit();
                    let m = self.lit();
                    out.push(format!("ifeq ($$(C{}),yes)", k));
                    out.push(format!("X2 := {}", l));
                    out.push("else".into());
                    out.push(format!("X3 := {}", m));
                    if self.ch.chance(5, 6) {
                        out.push("endif".into());
                    }
                }
                6 => {
                    let i = self.ch.draw(10);
                    let l = self.lit();
                    out.push(format!("$$(eval X{} := {})", i, l));
                }
                _ if d == 1 => out.push("$$(eval $$(D0))".into()),
                _ => {
                    let i = self.ch.draw(10);
                    let l = self.lit();
                    out.push(format!("X{} := {}", i, l));
                }
            }
        }
        self.body = old;
        out.push("endef".into());
    }
    /// an error in the text of an eval, in one of the places where text is expanded
    fn error_in_eval(&mut self) -> String {
        let l = self.lit();
        let bad = match self.ch.draw(7) {
            0 => "endif".to_string(),
            1 => "else".to_string(),
            2 => format!("some words {}", l),
            3 => format!("X{} := {}$(eval endif)", self.ch.draw(10), l),
            4 if self.o.hard_missing => format!("include {}", self.missing_name()),
            5 if self.o.hard_missing => format!("include l0.mk {} l1.mk", self.missing_name()),
            _ => format!("$(eval X{} := {})endif", self.ch.draw(10), l),
        };
        let i = self.ch.draw(10);
        let m = self.lit();
        let e = format!("$(eval {})", bad);
        match self.ch.draw(14) {
            0 => e,
            1 => format!("X{} := {}{}", i, m, e),
            2 => format!("X{}{} := {}", i, e, m),
            3 => format!("X{} = {}\nX{}{} += {}", i, m, i, e, m),
            4 => format!("t0: {} {}", m, e),
            5 => format!("t0 t1{}: {}", e, m),
            6 => format!("ifeq ({},)\nX{} := {}\nendif", e, i, m),
            7 => format!("ifneq (a,{})\nX{} := {}\nelse\nendif", e, i, m),
            8 => format!("include l0.mk {} l1.mk", e),
            9 => format!("-include l0.mk {}", e),
            10 => format!("X{} := {}\nX{} += {}{}", i, m, i, m, e),
            11 => format!("E0 = {}\nX{} := {}$(E0)", e, i, m),
            12 => format!("X{} := {}$(W0{}:.c=.o)", i, m, e),
            _ => format!("define N0\nX{} := {}\n{}\nX{} := never\nendef\n$(eval $(N0))", i, m, bad.replace('$', "$$"), i),
        }
    }
    fn error_stmt(&mut self) -> String {
        match self.ch.draw(17) {
            10 | 11 => self.recipe_line(),
            12 | 13 | 14 => self.error_in_eval(),
            15 | 16 => {
                // variables that refer to themselves, sooner or later
                let l = self.lit();
                let m = self.lit();
                let def = match self.ch.draw(8) {
                    0 => "R0 = LIT$(R0)".to_string(),
                    1 => "R0 = $(R1)LIT\nR1 = $(R0)".to_string(),
                    2 => "R0 = LIT $(R1)\nR1 = $(R2) LIT\nR2 = $(R0:.c=.o)".to_string(),
                    3 => "K0 = 1\nR0 = LIT$(R$(K0))\nR1 = ${R0}".to_string(),
                    4 => "R0 = LIT\nR0 += $(R0)".to_string(),
                    5 => format!("R0 = $(eval X{} += {})$(R0)", self.ch.draw(10), m),
                    6 => format!("R0 = $(eval X{} := {}$(R0))", self.ch.draw(10), m),
                    _ => "define R0\nLIT $(R0)\nendef".to_string(),
                };
                let m = self.lit();
                let i = self.ch.draw(10);
                let user = match self.ch.draw(8) {
                    0 => format!("X{} := {}$(R0)", i, m),
                    1 => format!("t0: {} $(R0)", m),
                    2 => "$(R0)".to_string(),
                    3 => format!("ifeq ($(R0),)\nX{} := {}\nendif", i, m),
                    4 => "include l0.mk $(R0)".to_string(),
                    5 => format!("X{} := {}$(R0:.c=.o)", i, m),
                    6 => format!("X{} := {}$(V$(R0))", i, m),
                    _ => format!("X{} = {}$(R0)\n$(eval X{} := $(X{}))", i, m, (i + 1) % 10, i),
                };
                format!("{}\n{}", def.replace("LIT", &l), user)
            }
            6 => format!("{} $(V0", self.ch.pick(&["include", "-include"])),
            7 => {
                // a definition with something after its end
                let l = self.lit();
                format!("define N0\nbody {}\nendef x", l)
            }
            8 => {
                let cc = self.cc;
                let l = self.lit();
                format!("t0: {}\n{}echo\n{}echo $(V0", l, cc, cc)
            }
            9 => {
                let l = self.lit();
                format!("define N1\nbody {}\n$(V0\nendef", l)
            }
            0 => "else".into(),
            1 => "endif".into(),
            2 => "endif x".into(),
            3 => {
                let l = self.lit();
                format!("some words {}", l)
            }
            4 => "V1 = $(V0".into(),
            _ => {
                let l = self.lit();
                format!("$(V0 {}", l)
            }
        }
    }
    /// a text whose names are computed, kept and used again
    fn computed(&mut self, out: &mut Vec<String>) {
        let (k, w, i) = (self.ch.draw(2), self.ch.draw(3), self.ch.draw(VARS as u32));
        let (l, m) = (self.lit(), self.lit());
        out.push(format!("K{} := {}", k, w));
        out.push(format!("W{} {} {}.c {}", w, self.ch.pick(&["=", ":="]), l, m));
        let e = *self.ch.pick(&["$(W$(K9))", "$(W$(K9):.c=.o)", "$(W0) $(W$(K9))", "$(W$(K9):%.c=$(R)%)"]);
        out.push(format!("V{} = {}{}", i, m, e.replace("K9", &format!("K{}", k))));
        match self.ch.draw(4) {
            0 => out.push(format!("X{} := $(V{})", i, i)),
            1 => out.push(format!("ifneq ($(V{}),)\nX{} = {}\nendif", i, i, l)),
            2 => {
                out.push(format!("t{}: $(V{})", i, i));
            }
            _ => out.push(format!("$(eval X{} := $(V{}))", i, i)),
        }
    }
    fn stmts(&mut self, n: u32, kids: &Targets, depth: u32, out: &mut Vec<String>) {
        for _ in 0..n {
            self.cost += 1;
            if self.cost > self.cap {
                break;
            }
            let w = self.w;
            let at = out.len();
            match self.ch.weighted(&w) {
                0 if self.ch.chance(1, 12) => self.computed(out),
                0 => {
                    let s = self.assign();
                    out.push(s);
                }
                1 => self.rule(out),
                2 => {
                    if let Some(s) = self.include(kids) {
                        out.push(s);
                    }
                }
                3 => self.eval_stmt(out),
                4 if !self.no_define => self.define(out),
                5 if depth < self.depth_budget => {
                    out.push(self.cond());
                    let a = self.ch.range(0, 3);
                    self.stmts(a, kids, depth + 1, out);
                    if self.ch.chance(1, 2) {
                        out.push("else".into());
                        let b = self.ch.range(0, 3);
                        self.stmts(b, kids, depth + 1, out);
                    }
                    out.push("endif".into());
                }
                6 => match self.ch.draw(4) {
                    0 => out.push(String::new()),
                    1 => {
                        let l = self.lit();
                        out.push(format!("# comment {}", l));
                    }
                    2 => {
                        out.push("# continued \\".into());
                        out.push("V0 = never".into());
                    }
                    _ => {
                        self.flush_rule(out);
                        let l = self.lit();
                        let i = self.ch.draw(10);
                        out.push(format!("\tX{} := {}", i, l));
                    }
                },
                7 => {
                    // text that must never be carried out
                    out.push((*self.ch.pick(&["ifeq (1,2)", "ifneq (a,a)", "ifeq \"x\" \"y\""])).to_string());
                    let k = self.ch.range(1, 3);
                    for _ in 0..k {
                        match self.ch.draw(11) {
                            9 => out.push("endef".into()),
                            10 => out.push((*self.ch.pick(&["elsewhere: never", "endifs: never", "defined: never", "endefs", "define = never", "endef := never", "define+=never", "endef ?= never", "include = never", "V0 = define"])).to_string()),
                            6 if !self.no_define => {
                                out.push("define V0".into());
                                out.push((*self.ch.pick(&["endif", "else", "ifeq (1,1)", "never", "include m9.mk", "endef = never", "define V1\nendif\nendef", "define = never"])).to_string());
                                out.push("endef".into());
                            }
                            7 => out.push((*self.ch.pick(&["export V0 = never", "undefine V0", "vpath a b", "V0 := $(strip never)", "t0: V0 = never"])).to_string()),
                            8 => {
                                out.push("ifneq (1,2)".into());
                                out.push("V2 := never".into());
                                out.push("else".into());
                                out.push("include m9.mk".into());
                                out.push("endif".into());
                            }
                            0 => out.push("include m9.mk".into()),
                            1 => out.push("$(eval X5 := never)".into()),
                            2 => {
                                let t = self.eval_text();
                                out.push(format!("ifeq ($(eval {}),)", t));
                                out.push("V1 = never".into());
                                out.push("endif".into());
                            }
                            3 => out.push("these are no statements".into()),
                            4 => {
                                out.push("t0 t1: never".into());
                                let cc = self.cc;
                                out.push(format!("{}never", cc));
                            }
                            _ => out.push("V0 += never".into()),
                        }
                    }
                    if self.ch.chance(1, 3) {
                        out.push("else".into());
                        let b = self.ch.range(0, 2);
                        self.stmts(b, kids, depth + 1, out);
                    }
                    out.push("endif".into());
                }
                8 => {
                    // file lists
                    let i = self.ch.draw(3);
                    let k = 1 + self.ch.draw(3);
                    let mut v = vec![];
                    for _ in 0..k {
                        if i == 0 && self.ch.chance(1, 3) {
                            v.push(self.missing_name());
                        } else {
                            let f = *self.ch.pick(LEAVES);
                            v.push(self.name_form(f));
                        }
                    }
                    let op = *self.ch.pick(&["=", ":="]);
                    out.push(format!("F{} {} {}", i, op, v.join(" ")));
                }
                9 if self.errors_left > 0 && (self.o.errors || self.o.unimplemented) => {
                    if self.o.unimplemented && (!self.o.errors || self.ch.chance(1, 2)) {
                        self.errors_left -= 1;
                        let l = self.lit();
                        out.push(
                            (*self.ch.pick(&[
                                "ifdef V0",
                                "ifndef V1",
                                "undefine V0",
                                "vpath x y",
                                "export V0",
                                "ifdef X0",
                                "ifeq (1,2)\nelse ifeq (1,1)\nendif",
                                "X0 := $(strip a LIT)",
                                "X0 := LIT $(words a b)",
                                "t0 $(word 1,t2 t3): LIT",
                                "t0: V0 = LIT",
                                "t1 t0: X0 := LIT",
                                "t0 t1: %.o: %.c LIT",
                                "override V0 = LIT",
                                "export V0 := LIT",
                                "private X0 = LIT",
                                "unexport V0",
                                "load LIT.so",
                                "-load LIT.so",
                            ]))
                            .replace("LIT", &l),
                        );
                    } else {
                        self.errors_left -= 1;
                        let s = self.error_stmt();
                        out.push(s);
                    }
                }
                _ => {
                    let s = self.assign();
                    out.push(s);
                }
            }
            if at < out.len() && self.ch.chance(1, 12) {
                let p = if self.cc == '\t' { *self.ch.pick(&["  ", " "]) } else { *self.ch.pick(&["  ", "\t"]) };
                if !out[at].is_empty() && !out[at].starts_with(self.cc) && !out[at].starts_with('\t') {
                    out[at].insert_str(0, p);
                }
            }
        }
    }
    /// very much of one kind: many statements, or one that is long or deep
    fn bulk(&mut self, files: &mut Vec<(String, Vec<u8>)>) -> Vec<String> {
        let n = *self.ch.pick(&[20u32, 40, 70, 140, 300]);
        let kind = self.ch.draw(22);
        let i = self.ch.draw(10);
        let j = self.ch.draw(10);
        let cc = self.cc;
        let l = self.lit();
        let list = |f: &dyn Fn(u32) -> String, sep: &str, n: u32| (0..n).map(f).collect::<Vec<_>>().join(sep);
        let low = n.min(70);
        match kind {
            0 => (0..n).map(|k| format!("b{}: d{}", k, k)).collect(),
            1 => (0..n).map(|k| format!("X{} += w{}", i, k)).collect(),
            2 => (0..n).map(|k| format!("b{}: d{}\n{}do {}", k % 50, k, cc, k)).collect(),
            3 => (0..n).map(|k| format!("$(eval X{} := {})", k % 10, k)).collect(),
            4 => vec![format!("{}: {}", list(&|k| format!("b{}", k), " ", low), l), format!("{}go {}", cc, l)],
            5 => vec![format!("t{}: {}", i % 6, list(&|k| format!("d{}", k), " ", n))],
            6 => vec![format!("t{}: {}", i % 6, l), list(&|k| format!("{}go {}", cc, k), "\n", n)],
            7 if !self.no_define => vec![
                "define N0".into(),
                list(&|k| format!("X{} += n{}", k % 10, k), "\n", n),
                "endef".into(),
                (*self.ch.pick(&["$(eval $(N0))", "X3 = $(N0)", ""])).to_string(),
            ],
            8 => {
                // deep, and something on the way out of it
                let mut v = vec![];
                let miss = self.ch.draw(2 * low);
                for k in 0..low {
                    v.push(if k == miss { "ifeq (1,2)".to_string() } else { format!("ifneq ({},x)", k) });
                }
                v.push(format!("X{} := {}", i, l));
                for k in (0..low).rev() {
                    if k % 7 == i {
                        v.push("else".into());
                    }
                    if k % 5 == 0 {
                        v.push(format!("X{} += k{}", j, k));
                    }
                    v.push("endif".into());
                }
                v
            }
            9 => vec![format!("{} {}", self.ch.pick(&["include", "-include"]), list(&|k| (*LEAVES[(k % 2) as usize]).to_string(), " ", low))],
            10 => {
                let d = low.min(40);
                vec![format!("{}X{} := {}{}", list(&|_| "$(eval ".to_string(), "", d), i, l, ")".repeat(d as usize))]
            }
            11 => {
                let mut v = vec![format!("Z0 = {}", l)];
                v.extend((1..low).map(|k| format!("Z{} = $(Z{})", k, k - 1)));
                v.push(format!("X{} {} $(Z{})", i, self.ch.pick(&[":=", "="]), low - 1));
                v
            }
            12 => {
                let d = low.min(40);
                vec![format!("Z := {}", l), format!("{} := Z", l), format!("X{} := {}Z{}", i, "$(".repeat(d as usize), ")".repeat(d as usize))]
            }
            13 => vec![
                format!("W{} := {}", i % 3, list(&|k| format!("w{}.c", k), " ", n)),
                format!("X{} := $(W{}:%.c=%.o)", j, i % 3),
            ],
            14 => vec![format!("X{} = {}", i, list(&|k| format!("p{}", k), " \\\n ", n))],
            15 => {
                // many different files
                for k in 0..low {
                    files.push((format!("/w/d/g{}.mk", k), format!("X{} += g{}\n", k % 10, k).into_bytes()));
                }
                let mut v = vec![format!("include {}", list(&|k| format!("g{}.mk", k), " ", low))];
                if self.ch.chance(1, 2) {
                    v.push(format!("include g0.mk g{}.mk", low - 1));
                }
                v
            }
            16 if !self.no_define => {
                let mut v = vec!["define N1".to_string()];
                v.extend((1..low).map(|k| format!("define in{}", k)));
                v.push(l.clone());
                v.extend((0..low).map(|_| "endef".to_string()));
                v
            }
            17 => vec![format!("# {}", list(&|k| format!("X{} := never", k % 10), "\\\n", n)), format!("X{} := {}", i, l)],
            18 => vec![list(&|_| String::new(), "\n", n), format!("X{} := {}", i, l)],
            19 => {
                // text that evaluates text that evaluates text …
                let mut v = vec![format!("Y0 = X{} += {}", i, l)];
                v.extend((1..low).map(|k| match k % 5 {
                    0 => format!("Y{} = X{} += y{} $$(eval $$(Y{}))", k, k % 10, k, k - 1),
                    _ => format!("Y{} = X{} := $$(eval $$(Y{}))y{}", k, k % 10, k - 1, k),
                }));
                v.push(format!("$(eval $(Y{}))", low - 1));
                v
            }
            20 => {
                // operands of conditionals, names of files and targets that evaluate such text
                let mut v = vec![format!("Y0 = X{} += {}", i, l)];
                v.extend((1..low).map(|k| match k % 4 {
                    0 => format!("define Y{}\nifeq ($$(eval $$(Y{})),)\nX{} := y{}\nendif\nendef", k, k - 1, k % 10, k),
                    1 => format!("define Y{}\nt{}: y{} $$(eval $$(Y{}))\nendef", k, k % 6, k, k - 1),
                    2 => format!("define Y{}\n$$(eval $$(Y{}))\nendef", k, k - 1),
                    _ => format!("define Y{}\n-include l{}.mk $$(eval $$(Y{}))\nendef", k, k % 2, k - 1),
                }));
                if self.no_define {
                    v.truncate(1);
                }
                v.push(format!("$(eval $(Y{}))", if self.no_define { 0 } else { low - 1 }));
                v
            }
            _ => {
                // the same rule again and again
                let mut v = vec![];
                for k in 0..low {
                    v.push(format!("t{} b: d{}", i % 6, k));
                    if k % 3 == 0 {
                        v.push(format!("{}do {}", cc, k));
                    }
                }
                v
            }
        }
    }
    fn finish(&mut self, mut lines: Vec<String>, crlf: bool, bom: bool) -> Vec<u8> {
        // something may be left open at the end of the text
        match self.ch.weighted(&[14, 1, 1, 1]) {
            1 => {
                lines.push((*self.ch.pick(&["ifeq (1,1)", "ifeq (1,2)"])).to_string());
                let s = self.assign();
                lines.push(s);
            }
            2 if !self.no_define => {
                lines.push("define D2".into());
                let l = self.lit();
                lines.push(format!("X4 := {}", l));
            }
            3 => {
                let h = self.rule_head();
                lines.push(h);
            }
            _ => {}
        }
        let end = if crlf { "\r\n" } else { "\n" };
        let mut s = String::new();
        if bom {
            s.push('\u{feff}');
        }
        let no_final = self.ch.chance(1, 6);
        let n = lines.len();
        for (i, l) in lines.into_iter().enumerate() {
            s.push_str(&if crlf { l.replace('\n', "\r\n") } else { l });
            if i + 1 < n || !no_final {
                s.push_str(end);
            }
        }
        s.into_bytes()
    }
    fn pad(&mut self, lines: &mut Vec<String>) {
        let n = self.ch.range(0, 3);
        for _ in 0..n {
            let mut len = *self.ch.pick(&[100usize, 1000, 4090, 8180, 8190]) + self.ch.draw(12) as usize;
            if self.ch.chance(1, 20) {
                len += *self.ch.pick(&[16_000usize, 60_000, 65_530]);
            }
            let unit = *self.ch.pick(&["x", "é", "日", "ab "]);
            let body: String = unit.chars().cycle().take(len / unit.len().max(1)).collect();
            let at = self.ch.draw(lines.len() as u32 + 1) as usize;
            // only between lines that do not continue and never inside a recipe or define
            if self.ch.chance(1, 2) {
                lines.insert(at.min(0), format!("# {}", body));
            } else {
                let t = body.trim_end().to_string();
                lines.insert(0, format!("X9 = {}", t));
            }
        }
    }
}

pub fn case(ch: &mut Choices, o: Opts) -> Case {
    let cc = if !o.tab_only && ch.chance(1, 6) { '>' } else { '\t' };
    let uni = !o.plain && ch.chance(1, 3);
    let mut w = [10u32, 5, if o.includes { 10 } else { 5 }, 4, 2, 3, 2, 2, 2, 0];
    // swarm: switch some kinds of statement off for this case
    for (i, x) in w.iter_mut().enumerate() {
        if i != 0 && !(i == 2 && o.includes) && !(i == 1 && o.rules) && ch.chance(1, 5) {
            *x = 0;
        }
    }
    if o.errors || o.unimplemented {
        w[9] = 2;
    }
    let cap = if o.small { 60 } else { 160 };
    let errors_left = if o.errors || o.unimplemented || o.hard_missing { 1 + ch.draw(2) } else { 0 };
    let mut g = G {
        ch,
        o,
        lit: o.lit_base,
        uni,
        w,
        cc,
        cost: 0,
        cap,
        errors_left,
        missing: vec!["m9.mk".into()],
        no_define: false,
        depth_budget: 3,
        body: false,
    };
    let pool = ["a.mk", "b.mk", "sub/c.mk", "sub/d.mk", "/abs/e.mk"];
    let pool = if uni { ["a.mk", "ü日.mk", "sub/c.mk", "sub/d.mk", "/abs/e.mk"] } else { pool };
    let nf = if o.includes { g.ch.range(1, 5) } else { g.ch.range(0, 5) } as usize;
    let mut files: Vec<(String, Vec<u8>)> = vec![];
    // leaves: plain statements only
    let mut kids: Targets = vec![];
    for (i, l) in LEAVES.iter().chain(&["sp ace.mk"]).enumerate() {
        let mut lines = vec![];
        let n = g.ch.draw(4);
        for _ in 0..n {
            match g.ch.draw(4) {
                0 => {
                    let t = g.ch.draw(6);
                    let x = g.lit();
                    lines.push(format!("t{}: {}", t, x));
                    if g.ch.chance(1, 2) {
                        lines.push(format!("{}leaf {}", cc, x));
                    }
                }
                _ => {
                    let s = g.assign();
                    lines.push(s);
                }
            }
        }
        if g.ch.chance(1, 8) {
            lines.push("ifeq (1,2)".into());
        }
        let mut s = lines.join("\n");
        if !s.is_empty() && g.ch.chance(5, 6) {
            s.push('\n');
        }
        files.push((format!("/w/d/{}", l), s.into_bytes()));
        if i < 2 {
            kids.push((l.to_string(), 5));
        }
    }
    for i in (0..nf).rev() {
        let crlf = !o.plain && g.ch.chance(1, 8);
        let bom = !o.plain && g.ch.chance(1, 12);
        g.no_define = crlf;
        g.cost = 0;
        g.cap = cap / 2;
        let n = g.ch.range(0, if o.small { 4 } else { 8 });
        let mut lines = vec![];
        g.stmts(n, &kids, 0, &mut lines);
        if o.pad && g.ch.chance(1, 3) {
            g.pad(&mut lines);
        }
        let text = g.finish(lines, crlf, bom);
        let name = pool[i].to_string();
        let abs = if name.starts_with('/') { name.clone() } else { format!("/w/d/{}", name) };
        files.push((abs, text));
        kids.push((name, g.cost + 2));
    }
    let crlf = !o.plain && g.ch.chance(1, 10);
    let bom = !o.plain && g.ch.chance(1, 12);
    g.no_define = crlf;
    g.cost = 0;
    g.cap = cap;
    let n = g.ch.range(1, if o.small { 6 } else { 12 });
    let mut lines = vec![];
    g.stmts(n, &kids, 0, &mut lines);
    if o.includes && !lines.iter().any(|l| l.contains("include")) {
        if let Some(s) = g.include(&kids) {
            lines.push(s);
        }
    }
    if o.pad && g.ch.chance(1, 3) {
        g.pad(&mut lines);
    }
    if !o.small && !o.plain {
        if g.ch.chance(if o.bulky { 4 } else { 1 }, 20) {
            let b = g.bulk(&mut files);
            let at = if g.ch.chance(1, 2) { 0 } else { lines.len() };
            lines.splice(at..at, b);
        }
        if g.o.chain || g.ch.chance(1, 30) {
            // a long chain of files
            let n = if g.o.chain || g.ch.chance(1, 4) { g.ch.range(60, 140) } else { g.ch.range(8, 40) };
            for i in 0..n {
                let mut l = vec![];
                if g.ch.chance(1, 3) {
                    let s = g.assign();
                    l.push(s);
                }
                if i + 1 < n {
                    l.push(format!("{} n{}.mk", g.ch.pick(&["include", "include", "-include"]), i + 1));
                }
                if g.ch.chance(1, 3) {
                    let s = g.assign();
                    l.push(s);
                }
                files.push((format!("/w/d/n{}.mk", i), (l.join("\n") + "\n").into_bytes()));
            }
            lines.insert(0, "include n0.mk".into());
        }
    }
    let main = g.finish(lines, crlf, bom);
    let missing = g.missing.clone();
    Case {
        wd: "/w/d".into(),
        cc,
        main,
        files,
        dirs: vec!["/w/d/sub".into(), "/proc-cwd".into(), "/abs".into(), "/abs/deep".into()],
        missing,
    }
}

/// a short makefile without includes, for reads before and after
pub fn small_main(ch: &mut Choices, cc: char, o: Opts) -> Vec<u8> {
    let mut c = case(ch, Opts { small: true, tab_only: true, ..o });
    if cc != '\t' {
        // recipe lines follow the engine's setting
        let s = String::from_utf8(c.main).unwrap();
        let s: Vec<String> = s
            .split('\n')
            .map(|l| match l.strip_prefix('\t') {
                Some(r) if !r.starts_with('X') => format!("{}{}", cc, r),
                _ => l.to_string(),
            })
            .collect();
        c.main = s.join("\n").into_bytes();
    }
    c.main
}

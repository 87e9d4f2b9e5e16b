//! C11, C12, C13, C14: user-defined and unknown commands.
use crate::conv::*;
use crate::engine::*;
use crate::vocab::*;
use crate::xml;
use math_core::*;
use std::collections::{BTreeMap, HashSet, VecDeque};
use std::rc::Rc;

pub fn specs() -> Vec<Spec> {
    vec![
        Spec {
            id: "C11",
            level: "model_checking",
            rule: "A reference interpreter (three stores of named meanings, late-bound bodies, \\let by value) is run over every program of the bounds, and every program followed by a probe of every name is replayed on a real converter, comparing the letters produced, or the kind of error. Phase two explores the interpreter's states breadth first and replays one trace per (state, statement). states = distinct interpreter states; transitions = (state, statement) pairs; traces = programs replayed.",
            bounds: |t| format!("all programs of up to {} statements over {} statements (definitions of five names, uses, snippet ends, reset), x global_group on/off, x 7 probes; breadth-first exploration to depth {}", c11_len(t), STMTS.len(), c11_depth(t)),
            assumptions: &["a program ends with its first failing statement (what a failing snippet leaves behind is C08/C09's business)", "spacing classes of macros are documented to be fixed at definition time, so only ordinary letters are used"],
            run: c11,
            workers: 8,
            prepare: None,
        },
        Spec {
            id: "C12",
            level: "exploration",
            rule: "Each case converts a context filled with a macro call and the same context filled with the macro's body (arguments substituted) written out, and compares result, warnings or failure. evaluations = such pairs; distinct_nontrivial = distinct outputs.",
            bounds: |t| c12_bounds(t),
            assumptions: C12_ASSUME,
            run: c12,
            workers: 8,
            prepare: None,
        },
        Spec {
            id: "C13",
            level: "model_checking",
            rule: "The reference interpreter counts the expansions N of every program and snippet list; the real code is run with every limit around the counts and must succeed exactly when the limit is at least N. states = programs with their counts; transitions = (program, limit) runs on the real code; traces = the same. A second family measures the real threshold of every use context, and a third runs self-referential definitions.",
            bounds: |t| format!("all programs of up to {} statements over {} statements x {} probes x all limits; all snippet lists of up to {} snippets with 0-3 expansions each x limits 0-3 x 3 entry points; {} contexts x macros of 1-4 expansions; {} self-referential definition systems x {} contexts x limits 0, 1, 7, 1000", c13_len(t), STMTS.len(), PROBES.len(), if t == Tier::Quick { 4 } else { 6 }, CONTEXTS.len(), C13_LOOPS.len(), CONTEXTS.len()),
            assumptions: &["a name bound with \\let to a macro may count once or twice (as a name and as the macro)", "built-in commands may count as expansions themselves, so contexts are compared with the same context around an ordinary letter"],
            run: c13,
            workers: 8,
            prepare: None,
        },
        Spec {
            id: "C14",
            level: "exploration",
            rule: "Each input is converted with and without ignore_unknown_commands; inputs with unknown commands are also converted with a known stand-in in their place and the trees compared. evaluations = inputs; distinct_nontrivial = distinct outputs.",
            bounds: |t| format!("relation with/without the option: {}; stand-in: all sequences of up to {} tokens over {} tokens with an unknown command, and every vocabulary token next to one in {} contexts", c14_sizes(t).describe(), if t == Tier::Quick { 3 } else { 4 }, C14_TOK.len(), CONTEXTS.len()),
            assumptions: &["an unknown command is an ordinary atom like \\mathstrut, which serves as the stand-in; where raw text is read, both may be rejected"],
            run: c14,
            workers: 8,
            prepare: None,
        },
    ]
}

fn c11_len(t: Tier) -> usize {
    if t == Tier::Quick { 3 } else { 4 }
}
fn c11_depth(t: Tier) -> usize {
    if t == Tier::Quick { 4 } else { 5 }
}

// ---------------------------------------------------------------- the reference interpreter

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum Tk {
    Cmd(Rc<str>),
    Ch(char),
    Open,
    Close,
    Param(u8),
    /// a meaning that was bound by value
    Bound(Rc<Meaning>),
}
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum Meaning {
    Ch(char),
    Macro { nargs: u8, body: Rc<[Tk]> },
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum MErr {
    Unknown(String),
    Defined,
    NotDefined,
    TooMany,
    Other,
}
pub type Store = BTreeMap<Rc<str>, Rc<Meaning>>;

#[derive(Clone, Default)]
pub struct Tex {
    pub config: Store,
    pub document: Store,
    pub global_group: bool,
    pub limit: u32,
    // per snippet
    pub local: Store,
    pub expansions: u32,
    /// how often a name bound with \let was used (such a use is not a definite expansion)
    pub aliases: u32,
    /// An argument with definitions was put in front of a name of the body: the rest of that
    /// expansion keeps the old meaning of the name, which is a known finding of C11.
    pub stale: bool,
}

pub fn tokens(s: &str) -> VecDeque<Tk> {
    let mut v = VecDeque::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        match c {
            '\\' => {
                let mut n = String::new();
                while let Some(&c) = it.peek() {
                    if c.is_ascii_alphabetic() {
                        n.push(c);
                        it.next();
                    } else {
                        break;
                    }
                }
                v.push_back(Tk::Cmd(n.into()));
            }
            '{' => v.push_back(Tk::Open),
            '}' => v.push_back(Tk::Close),
            '#' => v.push_back(Tk::Param(it.next().unwrap() as u8 - b'0')),
            ' ' => {}
            c => v.push_back(Tk::Ch(c)),
        }
    }
    v
}

impl Tex {
    fn builtin(n: &str) -> Option<Meaning> {
        Some(Meaning::Ch(match n {
            "alpha" => 'α',
            "beta" => 'β',
            _ => return None,
        }))
    }
    fn lookup(&self, n: &str) -> Option<Rc<Meaning>> {
        self.local.get(n).or_else(|| self.document.get(n)).or_else(|| self.config.get(n)).cloned().or_else(|| Tex::builtin(n).map(Rc::new))
    }
    fn define(&mut self, n: Rc<str>, m: Rc<Meaning>, global: bool) {
        if global || self.global_group {
            self.local.remove(&n);
            self.document.insert(n, m);
        } else {
            self.local.insert(n, m);
        }
    }
    fn name(q: &mut VecDeque<Tk>) -> Result<Rc<str>, MErr> {
        let braced = q.front() == Some(&Tk::Open);
        if braced {
            q.pop_front();
        }
        let Some(Tk::Cmd(n)) = q.pop_front() else { return Err(MErr::Other) };
        if braced {
            q.pop_front();
        }
        Ok(n)
    }
    fn group(q: &mut VecDeque<Tk>) -> Result<Vec<Tk>, MErr> {
        let mut d = 0;
        let mut v = vec![];
        loop {
            let t = q.pop_front().ok_or(MErr::Other)?;
            match t {
                Tk::Open => d += 1,
                Tk::Close if d == 0 => return Ok(v),
                Tk::Close => d -= 1,
                _ => {}
            }
            v.push(t);
        }
    }
    /// Run one snippet; returns the letters it produces.
    pub fn snippet(&mut self, src: &str) -> Result<String, MErr> {
        self.local.clear();
        self.expansions = 0;
        self.aliases = 0;
        self.stale = false;
        let r = self.run(tokens(src));
        self.local.clear();
        r
    }
    fn known(&self, t: &Tk) -> Result<(), MErr> {
        match t {
            Tk::Cmd(n) if !DEFINERS.contains(&&**n) && self.lookup(n).is_none() => Err(MErr::Unknown(n.to_string())),
            _ => Ok(()),
        }
    }
    pub fn run(&mut self, mut q: VecDeque<Tk>) -> Result<String, MErr> {
        let mut out = String::new();
        let mut open = 0i32;
        while let Some(t) = q.pop_front() {
            let m = match t {
                Tk::Ch(c) => {
                    out.push(c);
                    continue;
                }
                Tk::Open => {
                    open += 1;
                    continue;
                }
                Tk::Close => {
                    open -= 1;
                    if open < 0 {
                        return Err(MErr::Other);
                    }
                    continue;
                }
                Tk::Param(_) => return Err(MErr::Other),
                Tk::Bound(m) => m,
                Tk::Cmd(n) => {
                    if DEFINERS.contains(&&*n) {
                        self.definition(&n, &mut q)?;
                        continue;
                    }
                    let m = self.lookup(&n).ok_or_else(|| MErr::Unknown(n.to_string()))?;
                    if matches!(&*m, Meaning::Ch(_)) && (self.local.contains_key(&n) || self.document.contains_key(&n) || self.config.contains_key(&n)) {
                        // a name bound to a character may or may not count as an expansion
                        self.aliases += 1;
                        self.expansions += 1;
                    }
                    m
                }
            };
            match &*m {
                Meaning::Ch(c) => out.push(*c),
                Meaning::Macro { nargs, body } => {
                    if matches!(&**body, [Tk::Bound(_)]) {
                        self.aliases += 1;
                    }
                    self.expansions += 1;
                    if self.expansions > self.limit {
                        return Err(MErr::TooMany);
                    }
                    let mut args: Vec<Vec<Tk>> = vec![];
                    for _ in 0..*nargs {
                        match q.pop_front() {
                            None | Some(Tk::Close) => return Err(MErr::Other),
                            Some(Tk::Open) => {
                                let g = Tex::group(&mut q)?;
                                for t in &g {
                                    self.known(t)?;
                                }
                                args.push(g);
                            }
                            Some(t) => {
                                self.known(&t)?;
                                args.push(vec![t]);
                            }
                        }
                    }
                    let mut names = false;
                    for t in body.iter().rev() {
                        match t {
                            Tk::Cmd(_) => names = true,
                            Tk::Param(i) => {
                                self.stale |= names && args[*i as usize - 1].iter().any(|t| matches!(t, Tk::Cmd(n) if DEFINERS.contains(&&**n)));
                            }
                            _ => {}
                        }
                        match t {
                            Tk::Param(i) => {
                                let a = &args[*i as usize - 1];
                                if a.is_empty() {
                                    q.push_front(Tk::Close);
                                    q.push_front(Tk::Open);
                                }
                                for t in a.iter().rev() {
                                    q.push_front(t.clone());
                                }
                            }
                            t => q.push_front(t.clone()),
                        }
                    }
                }
            }
        }
        if open != 0 { Err(MErr::Other) } else { Ok(out) }
    }
    fn definition(&mut self, how: &str, q: &mut VecDeque<Tk>) -> Result<(), MErr> {
        match how {
            "global" => match q.pop_front() {
                Some(Tk::Cmd(n)) if &*n == "def" || &*n == "gdef" => self.definition("gdef", q),
                Some(Tk::Cmd(n)) if &*n == "let" => self.definition("glet", q),
                Some(Tk::Cmd(n)) if &*n == "global" => self.definition("global", q),
                _ => Err(MErr::Other),
            },
            "let" | "glet" => {
                let n = Tex::name(q)?;
                if q.front() == Some(&Tk::Ch('=')) {
                    q.pop_front();
                }
                let m = match q.pop_front().ok_or(MErr::Other)? {
                    Tk::Ch(c) => Rc::new(Meaning::Ch(c)),
                    Tk::Cmd(c) => {
                        let m = self.lookup(&c).ok_or_else(|| MErr::Unknown(c.to_string()))?;
                        // the name bound by \let stands for the meaning itself
                        match &*m {
                            Meaning::Macro { nargs: 0, body } if matches!(&**body, [Tk::Bound(_)]) => m,
                            Meaning::Macro { .. } => Rc::new(Meaning::Macro { nargs: 0, body: Rc::from(vec![Tk::Bound(m)]) }),
                            _ => m,
                        }
                    }
                    _ => return Err(MErr::Other),
                };
                self.define(n, m, how == "glet");
                Ok(())
            }
            "def" | "gdef" => {
                let n = Tex::name(q)?;
                let mut nargs = 0;
                while let Some(Tk::Param(i)) = q.front() {
                    nargs = *i;
                    q.pop_front();
                }
                if q.pop_front() != Some(Tk::Open) {
                    return Err(MErr::Other);
                }
                let body = Tex::group(q)?;
                self.define(n, Rc::new(Meaning::Macro { nargs, body: body.into() }), how == "gdef");
                Ok(())
            }
            _ => {
                let n = Tex::name(q)?;
                let exists = self.lookup(&n).is_some();
                match (how, exists) {
                    ("newcommand", true) => return Err(MErr::Defined),
                    ("renewcommand", false) => return Err(MErr::NotDefined),
                    _ => {}
                }
                let mut nargs = 0;
                if q.front() == Some(&Tk::Ch('[')) {
                    q.pop_front();
                    if let Some(Tk::Ch(c)) = q.pop_front() {
                        nargs = c as u8 - b'0';
                    }
                    q.pop_front();
                }
                if q.pop_front() != Some(Tk::Open) {
                    return Err(MErr::Other);
                }
                let body = Tex::group(q)?;
                if how == "providecommand" && exists {
                    return Ok(());
                }
                self.define(n, Rc::new(Meaning::Macro { nargs, body: body.into() }), false);
                Ok(())
            }
        }
    }
}
const DEFINERS: &[&str] = &["def", "gdef", "let", "global", "newcommand", "renewcommand", "providecommand"];

// ---------------------------------------------------------------- C11

const SEP: &str = "‖";
const RESET: &str = "⟲";
const STMTS: &[&str] = &[
    "\\def\\p{a}", "\\def\\p{b}", "\\def\\p{\\q}", "\\def\\q{c}", "\\def\\q{\\p}", "\\def\\q{\\w}", "\\def\\w{\\c}", "\\def\\p{\\alpha}", "\\def\\alpha{g}", "\\def\\alpha{\\p}", "\\def\\c{h}", "\\def\\c{\\q}", "\\def\\p#1{u#1v}",
    "\\def\\q#1{\\p#1}", "\\def\\p{}", "\\def\\q#1#2{#2#1\\w}", "{\\def\\w{t}}", "\\def\\p{w\\p}",
    "\\gdef\\p{A}", "\\gdef\\q{\\p}", "\\gdef\\c{H}", "\\gdef\\alpha{G}", "\\global\\def\\p#1{U#1}", "\\global\\gdef\\w{\\q}",
    "\\newcommand\\p{n}", "\\newcommand{\\q}{\\p}", "\\newcommand\\c{x}", "\\newcommand\\alpha{x}", "\\newcommand\\w[1]{m#1}",
    "\\renewcommand\\p{o}", "\\renewcommand\\c{k}", "\\renewcommand\\alpha{l}", "\\renewcommand{\\q}[1]{\\p#1}",
    "\\providecommand\\p{s}", "\\providecommand\\c{x}", "\\providecommand\\alpha{x}", "\\providecommand\\q{\\w}",
    "\\let\\p\\q", "\\let\\q\\p", "\\let\\p=\\c", "\\let\\q\\alpha", "\\let\\w=y", "\\let\\p\\p", "\\let\\c\\p", "\\let\\alpha\\q", "\\let\\w\\e",
    "\\global\\let\\p\\q", "\\global\\let\\q\\w", "\\global\\let\\w\\p", "\\global\\let\\c\\alpha", "\\global\\global\\let\\q\\c",
    "\\p zzz", "\\q zzz", "\\w zzz", "\\c zzz", SEP, RESET,
];
const PROBES: &[&str] = &["p", "q", "w", "alpha", "c", "d", "e"];

fn c11_tex(gg: bool) -> Tex {
    let mut t = Tex { global_group: gg, limit: 60, ..Tex::default() };
    for (n, nargs, b) in [("c", 0, "C"), ("d", 0, "D\\c"), ("e", 1, "E#1\\alpha")] {
        t.config.insert(n.into(), Rc::new(Meaning::Macro { nargs, body: tokens(b).into_iter().collect::<Vec<_>>().into() }));
    }
    t
}
fn c11_conv(gg: bool) -> LatexToMathML {
    let mut c = Cfg::new().mac("c", "C").mac("d", "D\\c").mac("e", "E#1\\alpha");
    c.global_group = gg;
    c.max_exp = Some(60);
    c.build()
}
fn text_of(m: &str) -> String {
    xml::parse_norm(m).map(|e| e.text()).unwrap_or_else(|e| format!("unparsable: {e:?}"))
}
fn same(model: &Result<String, MErr>, real: &Out) -> bool {
    match (model, real) {
        (Ok(a), Out::Ok { mathml, .. }) => *a == text_of(mathml),
        (Err(e), Out::Err { msg, .. }) => match e {
            MErr::Unknown(n) => msg.contains("nknown command") && msg.contains(&format!("\\{n}\"")),
            MErr::Defined => msg.contains("already defined"),
            MErr::NotDefined => msg.contains("not defined"),
            MErr::TooMany => msg.contains("oo many expansions"),
            MErr::Other => !(msg.contains("nknown command") || msg.contains("defined") || msg.contains("oo many expansions")),
        },
        _ => false,
    }
}

/// Run a program and one probe on the model. Returns the snippets run (None = reset) with the
/// expected results; stops after the first failing snippet.
fn c11_model(prog: &[usize], probe: &str, gg: bool) -> (Vec<(Option<String>, Result<String, MErr>)>, Tex) {
    let mut tex = c11_tex(gg);
    let mut v = vec![];
    let mut cur = String::new();
    let mut flush = |tex: &mut Tex, cur: &mut String| -> bool {
        let s = std::mem::take(cur);
        let r = tex.snippet(s.trim_start_matches('⟲'));
        let ok = r.is_ok();
        v.push((Some(s), r));
        ok
    };
    for &i in prog {
        match STMTS[i] {
            SEP => {
                if !flush(&mut tex, &mut cur) {
                    return (v, tex);
                }
            }
            RESET => {
                if !flush(&mut tex, &mut cur) {
                    return (v, tex);
                }
                tex.document.clear();
                // marker
                cur.clear();
                cur.push('⟲');
            }
            s => cur.push_str(s),
        }
    }
    cur.push_str(probe);
    flush(&mut tex, &mut cur);
    (v, tex)
}

fn c11_case(ctx: &mut Ctx, prog: &[usize], gg: bool) {
    let shown: String = prog.iter().map(|i| STMTS[*i]).collect::<Vec<_>>().join("");
    let shown = if gg { format!("[global_group]{shown}") } else { shown };
    ctx.begin(&shown);
    for p in PROBES {
        let probe = format!("\\{p} zzz");
        let (steps, tex) = c11_model(prog, &probe, gg);
        if tex.stale {
            ctx.class("known finding: definition in an argument");
            continue;
        }
        let mut conv = c11_conv(gg);
        ctx.traces += 1;
        for (src, want) in &steps {
            let mut s = src.as_deref().unwrap();
            if let Some(r) = s.strip_prefix('⟲') {
                conv.reset_global_state();
                s = r;
            }
            let got = global(&mut conv, s, INL);
            if !same(want, &got) {
                ctx.violation(&format!("{shown}{probe}"), &format!("{shown}{probe}"), &format!("snippet {s:?} should give {want:?}, got {}", got.show()));
                return;
            }
            ctx.class(match want {
                Ok(_) => "ok",
                Err(MErr::Unknown(_)) => "unknown command",
                Err(MErr::Defined) => "already defined",
                Err(MErr::NotDefined) => "not defined",
                Err(MErr::TooMany) => "too many expansions",
                Err(MErr::Other) => "other error",
            });
        }
        let last = steps.last().unwrap();
        ctx.outcome(&format!("{p}{:?}", last.1));
    }
}

/// Definitions that travel through the arguments of another macro, with the expected letters.
const C11_ARGS: &[(&str, &str)] = &[
    ("\\def\\p{b}\\def\\q#1{#1}\\q{\\def\\p{a}}\\p", "a"),
    ("\\def\\p{b}\\def\\q#1{b#1c}\\q{\\gdef\\p{a}}\\p", "bca"),
    ("\\def\\p{b}\\def\\q#1{#1}\\q{\\renewcommand\\p[1]{a#1}}\\p b", "ab"),
    ("\\def\\p{b}\\def\\q#1{#1#1}\\q{\\let\\p\\alpha}\\p", "α"),
    ("\\def\\p{b}\\def\\q#1{#1}\\q{\\def\\p{a}\\p}", "a"),
    // the definition is used by the rest of the very expansion that makes it
    ("\\def\\p{b}\\def\\q#1{#1\\p}\\q{\\def\\p{a}}", "a"),
];

fn c11(ctx: &mut Ctx) {
    for (s, want) in C11_ARGS {
        if ctx.mine() {
            ctx.begin(s);
            let got = local(&c11_conv(false), s, INL);
            if !same(&Ok(want.to_string()), &got) {
                ctx.violation(s, s, &format!("should give {want}, got {}", got.show()));
            }
        }
    }
    // Phase 1: every program.
    for gg in [false, true] {
        for len in 0..=c11_len(ctx.tier) {
            let mut ix = vec![0usize; len];
            'l: loop {
                if ctx.mine() {
                    c11_case(ctx, &ix, gg);
                }
                if ctx.stop {
                    return;
                }
                let mut p = len;
                loop {
                    if p == 0 {
                        break 'l;
                    }
                    p -= 1;
                    ix[p] += 1;
                    if ix[p] < STMTS.len() {
                        break;
                    }
                    ix[p] = 0;
                }
            }
        }
    }
    // Phase 2: breadth first over the states of the interpreter.
    let depth = c11_depth(ctx.tier);
    for gg in [false, true] {
        let mut seen: HashSet<(Store, Store)> = HashSet::new();
        let mut level: Vec<(Vec<usize>, Tex)> = vec![(vec![], c11_tex(gg))];
        seen.insert((Store::new(), Store::new()));
        for d in 0..depth {
            ctx.tick();
            let mut next = vec![];
            for (trace, tex) in &level {
                for i in 0..STMTS.len() {
                    ctx.transitions += 1;
                    let mut t = trace.clone();
                    t.push(i);
                    if ctx.mine() {
                        c11_case(ctx, &t, gg);
                        if ctx.stop {
                            return;
                        }
                    }
                    let mut x = tex.clone();
                    match STMTS[i] {
                        SEP => x.local.clear(),
                        RESET => {
                            x.local.clear();
                            x.document.clear();
                        }
                        s => {
                            x.expansions = 0;
                            if x.run(tokens(s)).is_err() {
                                continue;
                            }
                        }
                    }
                    if d + 1 < depth && seen.insert((x.local.clone(), x.document.clone())) {
                        next.push((t, x));
                    }
                }
            }
            level = next;
        }
        ctx.states += seen.len() as u64;
    }
}

// ---------------------------------------------------------------- C12

const C12_ASSUME: &[&str] = &[
    "where the converter reads raw text instead of atoms (text, operator names, delimiters, lengths, colours, labels, environment names) a macro may also be rejected, but never give another result",
    "a macro is an atom boundary for the lexer: letters, digits and primes of its body are not merged with those around it into one token, so bodies that would merge are not compared",
    "\\hline and \\hdashline at the start of a row, [ for an optional argument and = of \\let are looked for literally, and \\relax inside a macro acts as an empty macro",
    "definitions inside macro bodies are deliberately unsupported",
    "the atom class of a macro, which decides the space around it and the dots that \\dots in front of it gives, is fixed when it is defined: if it starts with a parameter, lspace/rspace and \\dots are not compared",
    "a script or \\limits attaches to what precedes the macro only if it starts the body itself, not if an argument brings it",
];
fn c12_bounds(t: Tier) -> String {
    format!(
        "{} one-token bodies x {} contexts x 4 definition mechanisms; all {} pairs of structural tokens as bodies x {} contexts x {} mechanism(s); {} argument templates x all single structural tokens and pairs of {} tokens as arguments x {} contexts, 0-9 arguments, empty arguments and bodies",
        full().len(), CONTEXTS.len(), MID.len() * MID.len(), C12_CTX.len(), if t == Tier::Quick { 1 } else { 2 }, C12_TPL.len(), if t == Tier::Quick { TINY.len() } else { SMALL.len() }, C12_ARG_CTX.len()
    )
}
/// Contexts for two-token bodies.
const C12_CTX: &[&str] = &["□", "a□b", "x_□", "\\frac□□", "{□\\over □}", "\\left(□\\right)", "\\not□", "\\hat□", "\\overset□□", "\\mathbin□", "-□-", "\\sum□_a^b", "\\begin{matrix}a&□\\\\□&b\\end{matrix}", "\\begin{align}□\\\\b\\end{align}", "\\mathbf{□}", "{\\bf □}c", "\\sqrt[□]{x}", "\\mathchoice{□}{□}{□}{□}", "\\phantom□", "\\text{a□b}"];
const C12_ARG_CTX: &[&str] = &["□", "a□b", "x_□", "\\frac□□", "\\begin{matrix}a&□\\\\□&b\\end{matrix}", "\\left(□\\right)", "{\\bf □}c"];
const C12_TPL: &[&str] = &[
    "#1", "#1#1", "a#1", "#1+", "\\frac#1#1", "\\frac{#1}{#1}", "x^#1", "x_{#1}", "{#1}", "{#1", "\\mathbf{#1}", "\\mathrm#1", "\\sqrt[#1]{a}", "\\sqrt{#1}b", "\\left(#1\\right)", "\\left#1a\\right)", "\\begin{matrix}#1&a\\end{matrix}",
    "\\begin{align}#1\\\\#1\\end{align}", "\\not#1", "\\overset#1=", "\\hat#1", "{#1\\over b}", "\\mathbin{#1}", "\\color{red}#1", "\\displaystyle#1", "\\limits#1", "\\mathchoice{#1}{#1}{#1}{#1}", "\\big#1", "^#1",
];
fn raw_ctx(c: &str) -> bool {
    ["\\text", "\\operatorname", "\\left□", "\\middle□", "\\big", "\\Bigg", "\\tag{□", "\\label{□", "\\eqref{□", "\\begin{□", "{array}{□", "\\color{□", "\\color[", "\\hspace", "\\kern", "\\rule", "\\raisebox", "\\let□", "\\newcommand□", "\\renewcommand□", "\\global□", "\\genfrac□", "\\def\\q□", "\\let\\q□"]
        .iter()
        .any(|r| c.contains(r))
}
const DEFWORDS: &[&str] = &["\\def", "\\gdef", "\\let", "\\global", "\\newcommand", "\\renewcommand", "\\providecommand"];

fn balanced(s: &str) -> bool {
    let mut d = 0;
    let mut it = s.chars();
    while let Some(c) = it.next() {
        match c {
            '\\' => {
                if it.next().is_none() {
                    return false;
                }
            }
            '{' => d += 1,
            '}' => {
                d -= 1;
                if d < 0 {
                    return false;
                }
            }
            '%' | '#' => return false,
            _ => {}
        }
    }
    d == 0
}
fn c12_body_ok(b: &str) -> bool {
    balanced(b) && !DEFWORDS.iter().any(|w| b.contains(w)) && !b.trim().is_empty()
}
/// Write the body in place of the macro. A space is inserted where the last command name of the
/// context would swallow the first letter of the body. Returns false if the body's letters or
/// digits would join letters or digits of the context into one token.
fn c12_raw(ctx: &str, b: &str, out: &mut String) -> bool {
    out.clear();
    let (first, last) = (b.chars().next().unwrap(), b.chars().last().unwrap());
    let joins = |c: char| c.is_alphanumeric() || c == '.' || c == ',';
    // letters of a font command, digits of a number, and primes are collected into one token
    let merging = ctx.contains("f□2") || ctx.contains("□#1");
    if ctx.contains("\\mathcal{x") || ctx.contains("\\rm a") || (ctx.contains("{\\bf □}") && out.is_empty() && b.contains("\\rm ")) {
        return false;
    }
    // two primes in a row are one superscript, but not across a macro boundary
    if b.trim_start().starts_with(['\'', '\u{2032}', '^', '_']) && ["'", "_", "^", "sideset", "□#1", "\\sum□"].iter().any(|p| ctx.contains(p)) {
        return false;
    }
    if b.trim_start().starts_with("\\relax") || b.contains("\\mathchoice") && ctx.contains("matrix") || ctx.starts_with('%') || (b.contains("\\h") && (b.contains("line "))) && ctx.contains("matrix") || (b.starts_with('[') && ctx.contains("\\sqrt□")) {
        return false;
    }
    let mut parts = ctx.split('□').peekable();
    while let Some(p) = parts.next() {
        out.push_str(p);
        if parts.peek().is_none() {
            break;
        }
        let word = p.rfind('\\').is_some_and(|i| p.len() > i + 1 && p[i + 1..].bytes().all(|c| c.is_ascii_alphabetic()));
        if merging && (joins(first) || joins(last)) {
            return false;
        }
        if (word || p.is_empty() && out.ends_with(b)) && (first.is_ascii_alphabetic() || first == '*' && ["\\operatorname", "\\tag"].iter().any(|n| out.ends_with(n))) {
            out.push(' ');
        }
        out.push_str(b);
    }
    true
}
fn c12_cmp(ctx: &mut Ctx, shown: &str, raw: bool, got: &Out, want: &Out) {
    let ok = match (got, want) {
        (Out::Err { .. }, Out::Ok { .. }) if raw => true,
        (Out::Ok { .. }, Out::Ok { .. }) => got == want,
        (Out::Err { .. }, Out::Err { .. }) => true,
        _ => false,
    };
    ctx.class(want.class());
    if let Some(m) = want.ok() {
        ctx.outcome(m);
    }
    if !ok {
        ctx.violation(shown, shown, &format!("macro: {}\n        raw: {}", got.show(), want.show()));
    }
}
fn c12_body(ctx: &mut Ctx, plain: &LatexToMathML, b: &str, ctxs: &[&str], mechs: u8) {
    // a body that ends with a command waiting for an argument takes the whole next macro, but
    // only one token of a written-out body
    let open_ended = local(plain, &format!("{{{b}}}"), BLK).msg().contains("rgument") || local(plain, &format!("a{b}"), BLK).msg().contains("rgument");
    let ctxs: Vec<&str> = ctxs.iter().filter(|c| !open_ended || c.matches('□').count() < 2).copied().filter(|c| !["\\renewcommand□", "\\newcommand□", "\\let□", "\\global□", "\\let\\q□"].iter().any(|x| c.contains(x))).collect();
    if !c12_body_ok(b) {
        return;
    }
    let (mut k, mut r) = (String::new(), String::new());
    for m in 0..mechs {
        let cfg = if m == 0 { Cfg::new().mac("p", b).try_build().ok() } else { None };
        if m == 0 && cfg.is_none() {
            continue;
        }
        let pre = match m {
            0 => String::new(),
            1 => format!("\\newcommand\\p{{{b}}}"),
            2 => format!("\\def\\w{{{b}}}\\let\\p\\w "),
            _ => format!("\\gdef\\w{{{b}}}\\def\\p{{\\w}}"),
        };
        for c in &ctxs {
            if !ctx.mine() {
                continue;
            }
            fill(c, "\\p ", &mut k);
            if !c12_raw(c, b, &mut r) {
                continue;
            }
            let shown = format!("{pre}{k} [{m}:{b}]");
            ctx.begin(&shown);
            let want = local(plain, &r, BLK);
            let got = match &cfg {
                Some(c) => local(c, &k, BLK),
                None => local(plain, &format!("{pre}{k}"), BLK),
            };
            c12_cmp(ctx, &shown, raw_ctx(c), &got, &want);
        }
    }
}
fn c12_strip(e: &mut xml::El) {
    e.attrs.retain(|(k, _)| k != "lspace" && k != "rspace");
    for k in e.kids.iter_mut() {
        if let xml::N::E(e) = k {
            c12_strip(e);
        }
    }
}
/// A macro with arguments: `K[\p X]` against `K[body with X for #1]`.
fn c12_args(ctx: &mut Ctx, plain: &LatexToMathML, tpl: &str, x: &str, ctxs: &[&str], cfg: &LatexToMathML, braces: bool) {
    if !balanced(x) || tpl.starts_with("#1") && x.starts_with("\\relax") || DEFWORDS.iter().any(|w| x.contains(w)) || tpl.contains("#1#1") && x.contains(['\'', '^', '_']) {
        return;
    }
    // only a script written in the body itself is attached to what precedes the macro
    if tpl.starts_with("#1") && x.trim_start().starts_with(['\'', '\u{2032}', '^', '_']) || tpl.starts_with("#1") && (x.contains("limits") || x.contains("\\dots")) {
        return;
    }
    let body_raw = if x.is_empty() { tpl.replace("#1", "{}") } else { tpl.replace("#1", x) };
    // a command word in front of the argument must not swallow its letters
    let body_raw = if tpl.contains("#1") && x.starts_with(|c: char| c.is_ascii_alphabetic()) { tpl.replace("#1", &format!(" {x}")) } else { body_raw };
    if tpl.contains("#1#1") && x.starts_with(|c: char| c.is_ascii_digit()) {
        return;
    }
    let call = if braces { format!("\\p{{{x}}}") } else { format!("\\p {x}") };
    let (mut k, mut r) = (String::new(), String::new());
    for c in ctxs {
        if !ctx.mine() {
            continue;
        }
        fill(c, &call, &mut k);
        if !c12_raw(c, &body_raw, &mut r) {
            continue;
        }
        let shown = format!("{k} [{tpl}]");
        ctx.begin(&shown);
        let (mut want, mut got) = (local(plain, &r, BLK), local(cfg, &k, BLK));
        if tpl.starts_with("#1") {
            // the spacing class of a macro is fixed when it is defined
            for o in [&mut want, &mut got] {
                if let Out::Ok { mathml, .. } = o {
                    *mathml = xml::parse(mathml).map(|mut e| {
                        c12_strip(&mut e);
                        e.ser()
                    }).unwrap_or_default();
                }
            }
        }
        let raw = ["\\left#", "\\big#"].iter().any(|p| tpl.contains(p));
        c12_cmp(ctx, &shown, raw, &got, &want);
    }
}
fn c12(ctx: &mut Ctx) {
    let plain = Cfg::new().build();
    // one-token bodies in every context
    for b in full() {
        c12_body(ctx, &plain, b, CONTEXTS, 4);
        if ctx.stop {
            return;
        }
    }
    // two-token bodies
    for a in MID {
        for b in MID {
            c12_body(ctx, &plain, &format!("{a}{b}"), C12_CTX, ctx.pick(1, 2));
        }
        if ctx.stop {
            return;
        }
    }
    // arguments
    for tpl in C12_TPL {
        if !balanced(&tpl.replace("#1", "")) {
            continue;
        }
        let cfg = Cfg::new().mac("p", tpl).build();
        for x in full() {
            c12_args(ctx, &plain, tpl, x, C12_ARG_CTX, &cfg, true);
            // a single token needs no braces
            if !x.contains(['{', '}', ' ', '\n']) || x.starts_with('\\') && x.ends_with(' ') {
                c12_args(ctx, &plain, tpl, x, C12_ARG_CTX, &cfg, false);
            }
        }
        c12_args(ctx, &plain, tpl, "", C12_ARG_CTX, &cfg, true);
        let alpha = ctx.pick(TINY, SMALL);
        for a in alpha {
            for b in alpha {
                c12_args(ctx, &plain, tpl, &format!("{a}{b}"), C12_ARG_CTX, &cfg, true);
            }
        }
        if ctx.stop {
            return;
        }
    }
    c12_many_args(ctx, &plain);
}
/// Up to nine arguments, in every order of use, and empty macros.
fn c12_many_args(ctx: &mut Ctx, plain: &LatexToMathML) {
    let xs = ["a", "{b+}", "\\alpha ", "{}", "{x^2}", "-", "{\\frac uv}", "\\sin ", "{\\bf y}"];
    for n in 0..=9usize {
        for first in 0..=n.max(1) - 1 {
            for step in 1..=n.max(1) {
                if !ctx.mine() {
                    continue;
                }
                let order: Vec<usize> = (0..n).map(|i| (first + i * step) % n).collect();
                let body: String = order.iter().map(|i| format!("#{}", i + 1)).collect::<Vec<_>>().join("|");
                let used: String = order.iter().map(|i| xs[*i].strip_prefix('{').map(|s| s.strip_suffix('}').unwrap()).map(|s| if s.is_empty() { "{}" } else { s }).unwrap_or(xs[*i])).collect::<Vec<_>>().join("|");
                let call: String = xs[..n].concat();
                let params: String = (1..=n).map(|i| format!("#{i}")).collect();
                let raw = format!("u|{used}|v");
                let want = local(plain, &raw, BLK);
                // the configuration infers the number of arguments from the highest one used
                let max = order.iter().map(|i| i + 1).max().unwrap_or(0);
                let mut forms = vec![format!("\\newcommand\\p[{n}]{{|{body}|}}u\\p {call}v"), format!("\\def\\p{params}{{|{body}|}}u\\p {call}v"), format!("\\def\\w{params}{{|{body}|}}\\let\\p\\w u\\p {call}v"), format!("\\gdef\\w{params}{{|{body}|}}\\let\\p\\w u\\p {call}v")];
                if n == 0 {
                    forms[0] = format!("\\newcommand\\p{{|{body}|}}u\\p {call}v");
                }
                if n == 9 {
                    forms.push(format!("\\renewcommand\\frac[{n}]{{|{body}|}}u\\frac {}v", call.replace("\\frac uv", "\\dfrac uv")));
                }
                for (i, f) in forms.iter().enumerate() {
                    ctx.begin(f);
                    let want = if i == 4 { local(plain, &raw.replace("\\frac uv", "\\dfrac uv"), BLK) } else { want.clone() };
                    let got = local(plain, f, BLK);
                    c12_cmp(ctx, f, false, &got, &want);
                }
                if max == n {
                    let cfg = Cfg::new().mac("p", &format!("|{body}|")).build();
                    let f = format!("u\\p {call}v");
                    ctx.begin(&format!("{f} [{body}]"));
                    let got = local(&cfg, &f, BLK);
                    c12_cmp(ctx, &format!("{f} [{body}]"), false, &got, &want);
                }
            }
        }
    }
    // an empty macro is nothing in a sequence, {} as an argument
    for (m, r) in [("x_\\p", "x_{}"), ("\\frac\\p\\p", "\\frac{}{}"), ("\\sqrt\\p", "\\sqrt{}"), ("\\hat\\p", "\\hat{}"), ("\\overset\\p=", "\\overset{}="), ("\\mathbf\\p", "\\mathbf{}"), ("{\\p}", "{}"), ("x^\\p y", "x^{}y"), ("\\phantom\\p", "\\phantom{}")] {
        for def in ["\\def\\p{}", "\\newcommand\\p{}", "\\gdef\\p{}", "\\let\\p\\relax ", "\\def\\w{}\\def\\p{\\w}"] {
            if ctx.mine() {
                let s = format!("{def}{m}");
                ctx.begin(&s);
                let (got, want) = (local(plain, &s, BLK), local(plain, r, BLK));
                let f = |o: &Out| o.ok().map(|m| m.replace("<mrow></mrow>", ""));
                if got.is_ok() != want.is_ok() || f(&got) != f(&want) {
                    ctx.violation(&s, &s, &format!("empty macro: {}\n  {{}}: {}", got.show(), want.show()));
                }
            }
        }
    }
    // in a sequence an empty macro leaves the atoms around it, and their text, alone
    for (m, r) in [("a\\p b", "ab"), ("\\p a", "a"), ("a\\p", "a"), ("\\left(\\p a\\right)", "\\left(a\\right)"), ("\\begin{matrix}\\p a&\\p b\\end{matrix}", "\\begin{matrix}a&b\\end{matrix}")] {
        for def in ["\\def\\p{}", "\\newcommand\\p{}", "\\gdef\\p{}", "\\def\\w{}\\def\\p{\\w}"] {
            if ctx.mine() {
                let s = format!("{def}{m}");
                ctx.begin(&s);
                let (got, want) = (local(plain, &s, BLK), local(plain, r, BLK));
                let f = |o: &Out| o.ok().map(|m| m.replace("<mrow></mrow>", "").replace("<mrow><mi>a</mi></mrow>", "<mi>a</mi>").replace("<math display=\"block\"><mrow>", "<math display=\"block\">").replace("</mrow></math>", "</math>"));
                if got.is_ok() != want.is_ok() || f(&got).map(|m| xml::parse_norm(&m).map(|e| e.text())) != f(&want).map(|m| xml::parse_norm(&m).map(|e| e.text())) {
                    ctx.violation(&s, &s, &format!("empty macro: {}\n  nothing: {}", got.show(), want.show()));
                }
            }
        }
    }
}

// ---------------------------------------------------------------- C13

fn c13_len(t: Tier) -> usize {
    if t == Tier::Quick { 3 } else { 4 }
}
/// Self-referential systems of definitions; the loop is started by `\p`.
const C13_LOOPS: &[&str] = &[
    "\\def\\p{\\p}", "\\def\\p{a\\p}", "\\def\\p{\\p a}", "\\def\\p{{\\p}}", "\\def\\p{x^\\p}", "\\def\\p{\\frac\\p\\p}", "\\def\\p{\\p\\p}", "\\gdef\\p{\\p}", "\\def\\p{\\q}\\def\\q{\\p}", "\\def\\p{\\q}\\def\\q{\\w}\\def\\w{a\\p}",
    "\\def\\p{\\q x}\\def\\q#1{#1\\p}", "\\def\\p{\\q\\p}\\def\\q#1{#1}", "\\newcommand\\p{\\q}\\newcommand\\q[1][]{\\p}", "\\newcommand\\q{}\\newcommand\\p{\\q\\p}", "\\def\\p{b}\\def\\q{\\p}\\def\\p{\\q}", "\\let\\q\\relax\\def\\p{\\q\\p}",
    "\\def\\p{\\ifx\\p}", "\\gdef\\p{\\global\\p}", "\\def\\p{\\text{\\p}}", "\\def\\p{\\mathbf\\p}", "\\def\\p{\\left(\\p\\right)}", "\\def\\p{\\begin{matrix}\\p\\end{matrix}}", "\\def\\p{\\mathchoice\\p\\p\\p\\p}", "\\def\\q#1{\\q#1}\\def\\p{\\q\\q}",
    "\\def\\q#1{#1#1\\q{#1#1}}\\def\\p{\\q{ab}}", "\\def\\p{'\\p}", "\\def\\p{\\limits\\p}", "\\def\\p{\\hline\\p}", "\\def\\p{\\not\\p}", "\\def\\p{_\\p}", "\\def\\p{\\ldots\\p}", "\\renewcommand\\ldots{\\ldots}\\def\\p{\\ldots}", "\\def\\alpha{\\alpha}\\def\\p{\\alpha}",
];
fn too_many(o: &Out) -> bool {
    o.msg().contains("oo many expansions")
}
/// The smallest limit that is not exceeded.
fn threshold(convs: &[LatexToMathML], s: &str) -> Option<usize> {
    convs.iter().position(|c| !too_many(&local(c, s, BLK)))
}
fn c13(ctx: &mut Ctx) {
    let convs = |n: u32| -> Vec<LatexToMathML> {
        (0..n)
            .map(|l| {
                let mut c = Cfg::new().mac("c", "C").mac("d", "D\\c").mac("e", "E#1\\alpha");
                c.max_exp = Some(l);
                c.build()
            })
            .collect()
    };
    // 1. programs of the interpreter
    let mut byl = convs(60);
    for len in 0..=c13_len(ctx.tier) {
        let mut ix = vec![0usize; len];
        'l: loop {
            if ctx.mine() {
                c13_prog(ctx, &ix, &mut byl);
            }
            if ctx.stop {
                return;
            }
            let mut p = len;
            loop {
                if p == 0 {
                    break 'l;
                }
                p -= 1;
                ix[p] += 1;
                if ix[p] < STMTS.len() {
                    break;
                }
                ix[p] = 0;
            }
        }
    }
    // 2. snippet lists
    let maxlen = ctx.pick(4, 6);
    let snippets = ["a", "\\p", "\\q", "\\q\\p"]; // 0, 1, 2, 3 expansions
    for limit in 0..4u32 {
        for len in 1..=maxlen {
            for code in 0..4usize.pow(len as u32) {
                if !ctx.mine() {
                    continue;
                }
                let ns: Vec<usize> = (0..len).map(|i| code / 4usize.pow(i as u32) % 4).collect();
                let mut c = Cfg::new().mac("p", "x").mac("q", "y\\p");
                c.max_exp = Some(limit);
                let mut conv = c.build();
                let list: Vec<(&str, MathDisplay)> = ns.iter().map(|n| (snippets[*n], INL)).collect();
                let desc = format!("limit {limit}, snippets with {ns:?} expansions");
                ctx.begin(&desc);
                ctx.states += 1;
                let runs = [("convert_all", all(&conv, &list)), ("local", list.iter().map(|s| local(&conv, s.0, s.1)).collect()), ("global", list.iter().map(|s| global(&mut conv, s.0, s.1)).collect::<Vec<_>>())];
                for (how, outs) in runs {
                    ctx.transitions += 1;
                    ctx.traces += 1;
                    for (n, o) in ns.iter().zip(&outs) {
                        let want = *n <= limit as usize;
                        ctx.class(if want { "within the limit" } else { "over the limit" });
                        ctx.outcome(&o.show());
                        if o.is_ok() != want || !want && !too_many(o) {
                            ctx.violation(&format!("{how}: {desc}"), &format!("{how}: {desc}"), &format!("the snippet with {n} expansions gave {}", o.show()));
                            break;
                        }
                    }
                }
            }
        }
    }
    // 3. contexts: a macro of k expansions costs k for each time it is used
    let defs: [(&str, usize); 6] = [("\\def\\p{x}", 1), ("\\newcommand\\p{x}", 1), ("\\gdef\\p{x}", 1), ("\\def\\w{x}\\def\\p{\\w}", 2), ("\\def\\w#1{#1}\\def\\p{\\w{x}}", 2), ("\\def\\w#1#2{#1#2}\\def\\p{\\w{\\w x{}}{\\w{}{}}}", 4)];
    let wide = convs(40);
    for c in CONTEXTS {
        for (d, k) in defs {
            if !ctx.mine() || c.starts_with('%') {
                continue;
            }
            let (mut a, mut b) = (String::new(), String::new());
            fill(c, "x ", &mut a);
            fill(c, "\\p ", &mut b);
            let desc = format!("{d}{b}");
            ctx.begin(&desc);
            let (ra, rb) = (local(&wide[39], &a, BLK), local(&wide[39], &desc, BLK));
            if !ra.is_ok() || !rb.is_ok() {
                ctx.class("not comparable");
                continue;
            }
            ctx.class("context");
            ctx.states += 1;
            let (ta, tb) = (threshold(&wide, &a).unwrap_or(99), threshold(&wide, &desc).unwrap_or(99));
            ctx.transitions += 40;
            ctx.traces += 40;
            let uses = if c.contains("\\mathchoice") {
                1
            } else if c.contains("\\def\\q#1{\\frac{#1}{#1}}") {
                2
            } else {
                // every use is written once; definitions are counted where they are used
                c.matches('□').count()
            };
            if ["\\newcommand{\\q}{□}", "\\let", "\\def\\q□", "\\global", "\\renewcommand", "\\newcommand□", "\\gdef\\q{□}"].iter().any(|x| c.contains(x)) {
                // only the relation between macros of different depth is known here
                let (mut one, n1) = (String::new(), k);
                fill(c, "\\p ", &mut one);
                let t1 = threshold(&wide, &format!("\\def\\p{{x}}{one}")).unwrap_or(99);
                if tb.wrapping_sub(ta) != n1 * t1.wrapping_sub(ta) {
                    ctx.violation(&desc, &desc, &format!("needs {tb} expansions; {ta} with a letter instead, {t1} with a macro of one expansion instead of {k}"));
                }
                continue;
            }
            if tb != ta + k * uses {
                ctx.violation(&desc, &desc, &format!("needs {tb} expansions, should be {ta} + {uses} x {k}"));
            }
        }
    }
    // 4. around the default limit, and large limits
    for (limit, ok) in [(None, 1000usize), (Some(999), 999), (Some(100_000), 20_000), (Some(u32::MAX), 20_000)] {
        let mut c = Cfg::new().mac("p", "x").mac("q", "\\p ");
        c.max_exp = limit;
        let conv = c.build();
        for n in [1, ok - 1, ok, ok + 1, ok + 2] {
            if !ctx.mine() {
                continue;
            }
            let exact = limit.is_none() || limit == Some(999);
            for s in ["\\p ".repeat(n), "\\def\\w#1{#1}".to_string() + &"\\w ".repeat(n.min(1) - 1) + &"\\p ".repeat(n), "\\q ".repeat(n / 2) + if n % 2 == 1 { "\\p " } else { "" }] {
                ctx.begin(&format!("{} chars, {n} expansions, limit {limit:?}", s.len()));
                ctx.transitions += 1;
                let o = local(&conv, &s, INL);
                let want = n <= ok || !exact;
                if o.is_ok() != want {
                    ctx.violation(&format!("{n} expansions, limit {limit:?}"), &s[..30.min(s.len())], &format!("{n} expansions with limit {limit:?} gave {}", o.show().chars().take(300).collect::<String>()));
                }
            }
        }
    }
    // 5. self-reference is always stopped
    let lims: Vec<LatexToMathML> = [Some(0), Some(1), Some(7), None]
        .into_iter()
        .map(|l| {
            let mut c = Cfg::new();
            c.max_exp = l;
            c.build()
        })
        .collect();
    let full = Cfg::new().build();
    for l in C13_LOOPS {
        for c in CONTEXTS {
            if !ctx.mine() || c.starts_with('%') {
                continue;
            }
            let mut s = String::new();
            fill(c, "\\p ", &mut s);
            let used = local(&full, &format!("\\def\\p{{\\undefinedd}}{s}"), BLK).msg().contains("undefinedd");
            let redefined = ["\\newcommand□", "\\renewcommand□", "\\let□", "\\def\\q□", "\\let\\q□", "\\newcommand{\\q}", "\\def\\q#1{"].iter().any(|x| c.contains(x));
            let s = format!("{l}{s}");
            ctx.begin(&s);
            for conv in &lims {
                let o = local(conv, &s, BLK);
                ctx.transitions += 1;
                ctx.class(if too_many(&o) { "stopped" } else if o.is_ok() { "not used" } else { "other error" });
                if o.is_ok() && used && !redefined || o.is_panic() {
                    ctx.violation(&s, &s, &format!("a self-referential macro was accepted: {}", o.show()));
                }
            }
        }
        if ctx.stop {
            return;
        }
    }
}
fn c13_prog(ctx: &mut Ctx, prog: &[usize], byl: &mut [LatexToMathML]) {
    let shown: String = prog.iter().map(|i| STMTS[*i]).collect::<Vec<_>>().join("");
    if shown.contains(RESET) {
        return;
    }
    ctx.begin(&shown);
    for p in PROBES {
        let src = format!("{shown}\\{p} zzz");
        // exact counts, snippet by snippet
        let mut tex = c11_tex(false);
        let mut counts = vec![];
        let mut ok = true;
        let snips: Vec<&str> = src.split(SEP).collect();
        for s in &snips {
            ok &= tex.snippet(s).is_ok() && !tex.stale;
            let lets = src.matches("\\let").count() as u32;
            counts.push((tex.expansions - tex.aliases.min(tex.expansions), tex.expansions + tex.aliases * lets));
        }
        if !ok {
            ctx.class("not a successful program");
            continue;
        }
        ctx.states += 1;
        let top = counts.iter().map(|c| c.1).max().unwrap() as usize;
        for limit in 0..=(top + 1).min(byl.len() - 1) {
            let conv = &mut byl[limit];
            conv.reset_global_state();
            ctx.transitions += 1;
            ctx.traces += 1;
            for (s, (lo, hi)) in snips.iter().zip(&counts) {
                let o = global(conv, s, INL);
                let bad = if limit >= *hi as usize {
                    !o.is_ok()
                } else if limit < *lo as usize {
                    !too_many(&o)
                } else {
                    !o.is_ok() && !too_many(&o)
                };
                ctx.class(if o.is_ok() { "within the limit" } else { "over the limit" });
                ctx.outcome(&o.show());
                if bad {
                    ctx.violation(&format!("{src} limit {limit}"), &src, &format!("limit {limit}: snippet {s:?} makes {hi} expansions but gave {}", o.show()));
                    return;
                }
                if !o.is_ok() {
                    break;
                }
            }
            conv.reset_global_state();
        }
    }
}

// ---------------------------------------------------------------- C14

const C14_TOK: &[&str] = &[
    "\\nope ", "a", "1", "+", "=", "-", ",", "(", "{", "}", "_", "^", "'", "&", "\\\\", "\\sum ", "\\sin ", "\\in ", "\\dots ", "\\frac ", "\\sqrt ", "\\over ", "\\left(", "\\right)", "\\not ", "\\hat ", "\\overset ", "\\mathbf ", "\\bf ",
    "\\displaystyle ", "\\mathbin ", "\\mathop ", "\\limits ", "\\phantom ", "\\begin{matrix}", "\\end{matrix}", "\\color{red}", "\\def\\p#1{#1}\\p ", "\\def\\q{\\nope}", "\\q ", "\\,", "\\text ",
];
fn c14_sizes(t: Tier) -> Sizes {
    if t == Tier::Quick {
        Sizes { single_ctx: 999, pair_ctx: 1, mid_pair_ctx: 6, mid_len: 2, small_len: 3, tiny_len: 4, scale: 300 }
    } else {
        Sizes { single_ctx: 999, pair_ctx: 12, mid_pair_ctx: 999, mid_len: 3, small_len: 4, tiny_len: 5, scale: 1001 }
    }
}
impl Out {
    /// Does the output show the unknown command that the error names?
    fn names(&self, err: &Out) -> bool {
        let name = err.msg().split('"').nth(1).unwrap_or("\u{0}");
        name != "\\nope" && self.ok().and_then(|m| xml::parse_norm(m).ok()).is_some_and(|e| e.walk_find("merror", name))
    }
}
fn c14_mark(e: &mut xml::El, unknown: bool) {
    for k in e.kids.iter_mut() {
        if let xml::N::E(c) = k {
            let hit = unknown && c.name == "merror" && c.text() == "\\nope" || c.ser() == "<mpadded width=\"0\"><mphantom><mo stretchy=\"false\">(</mo></mphantom></mpadded>";
            if hit {
                c.name = "UNKNOWN".into();
                c.attrs.clear();
                c.kids.clear();
            } else {
                c14_mark(c, unknown);
            }
        }
    }
}
fn c14_standin(ctx: &mut Ctx, ign: &LatexToMathML, strict: &LatexToMathML, s: &str) {
    if !s.contains("\\nope") || ["\\\\nope", "command \\nope", "command\\nope", "command\n", "command%", "command\\mathstrut", "\\let"].iter().any(|x| s.contains(x)) {
        return;
    }
    ctx.begin(s);
    let t = s.replace("\\nope ", "\\mathstrut ").replace("\\nope", "\\mathstrut");
    let (u, k) = (local(ign, s, BLK), local(ign, &t, BLK));
    ctx.class(u.class());
    match (&u, &k) {
        (Out::Ok { mathml: a, unknown, .. }, Out::Ok { mathml: b, .. }) => {
            let f = |m: &str, unk: bool| {
                xml::parse(m).map(|mut e| {
                    c14_mark(&mut e, unk);
                    e.ser()
                })
            };
            ctx.outcome(a);
            if f(a, true) != f(b, false) {
                ctx.violation(s, s, &format!("unknown: {}\n   known: {}", u.show(), k.show()));
            }
            if *unknown != a.contains("math-core-unknown-cmd") {
                ctx.violation(s, s, &format!("warning and output disagree: {}", u.show()));
            }
            // strict: the first one that is used is named
            let r = local(strict, &s.replacen("\\nope", "\\nopf", 1), BLK);
            let unused = s.contains("\\def\\q{\\nope}") || s.contains("\\mathchoice") || s.contains("\\newcommand") || s.contains("\\def") || s.contains("\\let");
            if *unknown && !(r.msg().contains("nknown command \"\\nopf\"") || unused && r.msg().contains("nknown command \"\\nop") || u.names(&r)) {
                ctx.violation(s, s, &format!("without the option: {}", r.show()));
            }
        }
        (Out::Err { .. }, Out::Err { .. }) => {}
        _ => ctx.violation(s, s, &format!("unknown: {}\n   known: {}", u.show(), k.show())),
    }
}
/// All names of up to three letters, and every known name with a letter more, less or different.
fn c14_names(t: Tier) -> Vec<String> {
    let letters: Vec<char> = ('a'..='z').chain('A'..='Z').collect();
    let mut v: Vec<String> = letters.iter().map(|c| c.to_string()).collect();
    for a in &letters {
        for b in &letters {
            v.push(format!("{a}{b}"));
            if b.is_ascii_lowercase() && (a.is_ascii_lowercase() || t == Tier::Thorough) {
                v.extend(('a'..='z').map(|c| format!("{a}{b}{c}")));
            }
        }
    }
    let mut known: Vec<&str> = include_str!("../../data/names.txt").split(|c: char| !c.is_ascii_alphabetic()).chain(include_str!("../../data/commands.txt").split(|c: char| !c.is_ascii_alphabetic())).filter(|n| n.len() > 1).collect();
    known.extend(["begin", "end", "def", "let", "newcommand", "text", "left", "right", "not", "over", "limits", "global", "operatorname", "tag", "label", "eqref", "middle", "color", "relax"]);
    known.sort_unstable();
    known.dedup();
    for n in known {
        v.push(n.into());
        v.push(n[1..].into());
        v.push(n[..n.len() - 1].into());
        for p in ["x", "a", "s", "end", "begin", "text", "math", "not", "big", "left", "right", "new", "over", "under", "the"] {
            v.push(format!("{p}{n}"));
        }
        for p in ["x", "s", "a", "e", "end", "eq"] {
            v.push(format!("{n}{p}"));
        }
    }
    v.sort_unstable();
    v.dedup();
    v
}
fn c14(ctx: &mut Ctx) {
    let mut c = Cfg::new();
    let strict = c.build();
    c.ignore = true;
    let ign = c.build();
    // the option changes nothing else
    universe(ctx, c14_sizes(ctx.tier), &mut |ctx, s| {
        ctx.begin(s);
        for d in [BLK, INL] {
            let (a, b) = (local(&strict, s, d), local(&ign, s, d));
            ctx.class(if a.msg().contains("nknown command") { "unknown command" } else { a.class() });
            let bad = if let Some(i) = a.msg().find("nknown command \"") {
                let name = a.msg()[i + 16..].split('"').next().unwrap_or("");
                match &b {
                    // an argument that the macro does not use is still looked at
                    Out::Ok { unknown: false, .. } if ["\\newcommand", "\\renewcommand", "\\providecommand", "\\def", "\\gdef", "\\let", "\\global", "\\mathchoice"].iter().any(|x| s.contains(x)) => false,
                    Out::Ok { mathml, unknown, .. } => !unknown || !xml::parse_norm(mathml).map(|e| e.walk_find("merror", name)).unwrap_or(false),
                    Out::Err { .. } => false,
                    _ => true,
                }
            } else {
                a != b
            };
            if bad {
                ctx.violation(s, s, &format!("without the option: {}\n    with the option: {}", a.show(), b.show()));
            }
            ctx.outcome(b.ok().unwrap_or(""));
        }
    });
    // what the name is makes no difference
    for name in c14_names(ctx.tier) {
        for (i, cx) in ["\\□ ", "a\\□+b", "\\frac{\\□}{x}", "x_{\\□}", "\\begin{matrix}\\□&a\\end{matrix}", "\\def\\q{\\□}\\q"].iter().enumerate() {
            if !ctx.mine() || i > 0 && name.len() == 3 {
                continue;
            }
            let s = cx.replace('□', &name);
            ctx.begin(&s);
            let (a, b) = (local(&strict, &s, BLK), local(&ign, &s, BLK));
            let unknown = a.msg().contains(&format!("nknown command \"\\{name}\""));
            ctx.class(if unknown { "unknown name" } else { "known name" });
            ctx.outcome(b.ok().unwrap_or(""));
            if unknown {
                let w = local(&ign, &cx.replace('□', "nope"), BLK);
                let want = w.ok().map(|m| m.replace("\\nope", &format!("\\{name}")));
                if b.ok() != want.as_deref() || want.is_none() || !matches!(b, Out::Ok { unknown: true, .. }) {
                    ctx.violation(&s, &s, &format!("this name: {}\n   another name: {}", b.show(), w.show()));
                }
            } else if a != b {
                ctx.violation(&s, &s, &format!("without the option: {}\n    with the option: {}", a.show(), b.show()));
            }
        }
    }
    // an unknown command behaves like an ordinary known one
    for len in 1..=ctx.pick(3, 4) {
        sequences(ctx, C14_TOK, len, &mut |ctx, s| c14_standin(ctx, &ign, &strict, s));
    }
    let mut s = String::new();
    for cx in CONTEXTS {
        for t in full() {
            for f in [format!("\\nope {t}"), format!("{t}\\nope ")] {
                if ctx.mine() {
                    fill(cx, &f, &mut s);
                    c14_standin(ctx, &ign, &strict, &s);
                }
            }
        }
        if ctx.stop {
            return;
        }
    }
}

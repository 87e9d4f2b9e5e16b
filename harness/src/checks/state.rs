//! C07, C08, C09, C15: the document state across conversions.
use crate::conv::*;
use crate::engine::*;
use crate::vocab::*;
use crate::xml::{self, El, N};
use math_core::*;
use std::collections::{BTreeMap, HashSet, VecDeque};

pub fn specs() -> Vec<Spec> {
    vec![
        Spec {
            id: "C07",
            level: "exploration",
            rule: "A case is a history of operations on one converter followed by a probe, or one input converted by a converter with a long history and by a fresh one. Every probe result must equal that of a fresh converter, byte for byte, and the history must be the same with and without the interleaved local operations. distinct non-trivial = distinct probe results.",
            bounds: |t| format!("all histories of length {} over {} stateful snippets x 4 entry points, each followed by every probe; long histories over {}", c07_len(t), C07_SNIPS.len(), sizes(t).describe()),
            assumptions: &[],
            run: c07,
            workers: 8,
            prepare: None,
        },
        Spec {
            id: "C08",
            level: "model_checking",
            rule: "The reference model (counter, labels, document definitions) is explored breadth first; every sequence of operations up to the depth is executed on a real converter and every single result is compared with the model. states/transitions = distinct model states and (state, operation) pairs within the depth; traces = operation sequences replayed on the implementation.",
            bounds: |t| format!("all sequences of length {} over {} operations, with and without global_group; one chain of 1200 numbered equations", c08_depth(t), ops().len()),
            assumptions: &["sequences end after an operation that fails having defined something: what it leaves behind is not specified; partial effects of failing snippets are only compared between entry points (C09)"],
            run: c08,
            workers: 8,
            prepare: None,
        },
        Spec {
            id: "C09",
            level: "exploration",
            rule: "A case is a list of snippets. convert_all must return what a fresh converter returns for the same snippets one after the other, with the references replaced by the final labels (read off by probing that converter). distinct non-trivial = distinct result lists.",
            bounds: |t| format!("all lists of length 0..{} over {} snippets, without and with global_group; all lists [s, t, s] for s, t from {} vocabulary inputs", c09_len(t), C09_SNIPS.len(), c09_inputs(t).len()),
            assumptions: &["labels of the alphabet are a, b and c; labels with the same text as their reference's rendering are not used"],
            run: c09,
            workers: 8,
            prepare: None,
        },
        Spec {
            id: "C15",
            level: "exploration",
            rule: "A case is one input or a list of snippets; the two warnings of every result are compared with what the output contains (unresolved references, marked unknown commands). distinct non-trivial = distinct (warnings, output) pairs.",
            bounds: |t| format!("{}; all lists up to length {} over {} snippets through all entry points", sizes(t).describe(), c09_len(t), C15_SNIPS.len()),
            assumptions: &["inputs in which a \\tag is written as ?? are excluded"],
            run: c15,
            workers: 8,
            prepare: None,
        },
    ]
}
fn sizes(t: Tier) -> Sizes {
    if t == Tier::Quick {
        Sizes { single_ctx: 999, pair_ctx: 0, mid_pair_ctx: 40, mid_len: 2, small_len: 3, tiny_len: 4, scale: 300 }
    } else {
        Sizes { single_ctx: 999, pair_ctx: 8, mid_pair_ctx: 999, mid_len: 3, small_len: 4, tiny_len: 5, scale: 1001 }
    }
}

/// What an output shows: ids, tags, references and leaf text, in document order.
pub fn obs(mathml: &str) -> String {
    fn go(e: &El, s: &mut String) {
        if let Some(i) = e.attr("id") {
            s.push_str(&format!("{{id={i}}}"));
        }
        if e.name == "a" {
            s.push_str(&format!("[{}->{}]", e.attr("href").unwrap_or("none"), e.text()));
            return;
        }
        for k in &e.kids {
            match k {
                N::T(t) => s.push_str(t),
                N::E(e) => go(e, s),
            }
        }
    }
    match xml::parse_norm(mathml) {
        Ok(e) => {
            let mut s = String::new();
            go(&e, &mut s);
            s
        }
        Err(e) => format!("unparsable output: {e:?}"),
    }
}

// ---------------------------------------------------------------- C08: the model

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug, Default)]
struct Model {
    count: u32,
    labels: BTreeMap<&'static str, String>,
    /// document definitions of \m and \n: a value, or (for late binding) the name of the other one
    defs: BTreeMap<char, Def>,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
enum Def {
    Val(u8),
    Call(char),
}
#[derive(Clone, Copy)]
enum I {
    T(&'static str),
    Row(Num, Option<&'static str>),
    Ref(&'static str),
    /// global definition / local definition (document-level under global_group)
    Gdef(char, Def),
    Ldef(char, Def),
    New(char, Def),
    Renew(char, Def),
    Provide(char, Def),
    GLet(char, char),
    LLet(char, char),
    Use(char),
    Fail,
}
#[derive(Clone, Copy)]
enum Num {
    Auto,
    None,
    Tag(&'static str),
}
#[derive(Clone, Copy, PartialEq)]
enum How {
    Global,
    Local,
    Batch,
    Reset,
}
struct Op {
    how: How,
    src: &'static str,
    prog: &'static [I],
}

use Def::*;
use I::*;
fn ops() -> &'static [Op] {
    const EQ_A: &[I] = &[T("x"), Row(Num::Auto, Some("A"))];
    &[
        Op { how: How::Global, src: "\\begin{equation}x\\label{A}\\end{equation}", prog: EQ_A },
        Op { how: How::Global, src: "\\begin{align}x\\label{A}\\\\y\\label{B}\\end{align}", prog: &[T("x"), Row(Num::Auto, Some("A")), T("y"), Row(Num::Auto, Some("B"))] },
        Op { how: How::Global, src: "\\begin{align}x\\tag{t}\\label{B}\\\\y\\nonumber\\end{align}", prog: &[T("x"), Row(Num::Tag("(t)"), Some("B")), T("y"), Row(Num::None, None)] },
        Op { how: How::Global, src: "\\begin{gather}x\\notag\\\\y\\label{A}\\end{gather}", prog: &[T("x"), Row(Num::None, None), T("y"), Row(Num::Auto, Some("A"))] },
        Op { how: How::Global, src: "\\begin{multline}x\\\\y\\label{B}\\end{multline}", prog: &[T("xy"), Row(Num::Auto, Some("B"))] },
        Op { how: How::Global, src: "\\begin{align*}x\\\\y\\tag*{s}\\label{B}\\end{align*}", prog: &[T("x"), Row(Num::None, None), T("y"), Row(Num::Tag("s"), Some("B"))] },
        Op { how: How::Global, src: "\\eqref{A}\\eqref{B}", prog: &[Ref("A"), Ref("B")] },
        Op { how: How::Global, src: "\\begin{equation}\\eqref{A}\\label{A}\\end{equation}", prog: &[Ref("A"), Row(Num::Auto, Some("A"))] },
        Op { how: How::Global, src: "\\eqref{B}\\begin{equation}y\\tag{u}\\label{B}\\end{equation}", prog: &[Ref("B"), T("y"), Row(Num::Tag("(u)"), Some("B"))] },
        Op { how: How::Global, src: "\\gdef\\m{1}", prog: &[Gdef('m', Val(1))] },
        Op { how: How::Global, src: "\\global\\def\\m{2}\\gdef\\n{\\m}", prog: &[Gdef('m', Val(2)), Gdef('n', Call('m'))] },
        Op { how: How::Global, src: "\\def\\m{3}\\m", prog: &[Ldef('m', Val(3)), Use('m')] },
        Op { how: How::Global, src: "\\newcommand\\m{4}\\m", prog: &[New('m', Val(4)), Use('m')] },
        Op { how: How::Global, src: "\\m\\begin{gather}\\m\\end{gather}", prog: &[Use('m'), Use('m'), Row(Num::Auto, None)] },
        Op { how: How::Global, src: "\\n", prog: &[Use('n')] },
        Op { how: How::Global, src: "\\renewcommand\\m{5}\\m", prog: &[Renew('m', Val(5)), Use('m')] },
        Op { how: How::Global, src: "\\providecommand\\n{6}\\n", prog: &[Provide('n', Val(6)), Use('n')] },
        Op { how: How::Global, src: "\\global\\let\\n\\m\\def\\m{7}\\n", prog: &[GLet('n', 'm'), Ldef('m', Val(7)), Use('n')] },
        Op { how: How::Global, src: "\\def\\m{8}\\gdef\\m{9}\\m", prog: &[Ldef('m', Val(8)), Gdef('m', Val(9)), Use('m')] },
        Op { how: How::Global, src: "\\let\\m\\n\\m", prog: &[LLet('m', 'n'), Use('m')] },
        Op { how: How::Global, src: "z", prog: &[T("z")] },
        Op { how: How::Global, src: "z\\nope", prog: &[T("z"), Fail] },
        Op { how: How::Global, src: "{", prog: &[Fail] },
        Op { how: How::Local, src: "\\begin{align}x\\label{A}\\\\y\\label{B}\\end{align}\\eqref{A}", prog: &[T("x"), Row(Num::Auto, Some("A")), T("y"), Row(Num::Auto, Some("B")), Ref("A")] },
        Op { how: How::Local, src: "\\eqref{A}\\gdef\\m{9}\\m", prog: &[Ref("A"), Gdef('m', Val(9)), Use('m')] },
        Op { how: How::Local, src: "\\m", prog: &[Use('m')] },
        Op { how: How::Batch, src: "\\begin{equation}x\\label{A}\\end{equation}\\gdef\\m{9}", prog: &[T("x"), Row(Num::Auto, Some("A")), Gdef('m', Val(9))] },
        Op { how: How::Reset, src: "", prog: &[] },
    ]
}
fn c08_depth(t: Tier) -> usize {
    if t == Tier::Quick { 4 } else { 5 }
}

#[derive(PartialEq, Eq, Debug)]
enum Want {
    Ok { obs: String, undef: bool },
    Err,
    Nothing,
}

/// Meaning of a name: resolved value or None.
fn meaning(local: &BTreeMap<char, Def>, doc: &BTreeMap<char, Def>, c: char) -> Option<Def> {
    local.get(&c).or_else(|| doc.get(&c)).copied()
}

fn run_model(st: &Model, prog: &[I], global_group: bool) -> (Model, Want) {
    let mut m = st.clone();
    let mut local: BTreeMap<char, Def> = BTreeMap::new();
    // Every element is text or a reference to be resolved at the end.
    let mut parts: Vec<Result<String, &'static str>> = Vec::new();
    for i in prog {
        let ldef = |m: &mut Model, local: &mut BTreeMap<char, Def>, c: char, d: Def| {
            if global_group {
                local.remove(&c);
                m.defs.insert(c, d);
            } else {
                local.insert(c, d);
            }
        };
        match *i {
            T(s) => parts.push(Ok(s.to_string())),
            Ref(l) => parts.push(Err(l)),
            Row(n, label) => {
                let tag = match n {
                    Num::Auto => {
                        m.count += 1;
                        Some(format!("({})", m.count))
                    }
                    Num::None => None,
                    Num::Tag(t) => Some(t.to_string()),
                };
                if let Some(tag) = tag {
                    if let Some(l) = label {
                        parts.push(Ok(format!("{{id={l}}}")));
                        // \eqref puts the parentheses itself.
                        let t = tag.strip_prefix('(').and_then(|t| t.strip_suffix(')')).unwrap_or(&tag);
                        m.labels.insert(l, t.to_string());
                    }
                    parts.push(Ok(tag));
                }
            }
            Gdef(c, d) => {
                local.remove(&c);
                m.defs.insert(c, d);
            }
            Ldef(c, d) => ldef(&mut m, &mut local, c, d),
            New(c, d) => {
                if meaning(&local, &m.defs, c).is_some() {
                    return (m, Want::Err);
                }
                ldef(&mut m, &mut local, c, d);
            }
            Renew(c, d) => {
                if meaning(&local, &m.defs, c).is_none() {
                    return (m, Want::Err);
                }
                ldef(&mut m, &mut local, c, d);
            }
            Provide(c, d) => {
                if meaning(&local, &m.defs, c).is_none() {
                    ldef(&mut m, &mut local, c, d);
                }
            }
            GLet(c, from) | LLet(c, from) => {
                let Some(d) = meaning(&local, &m.defs, from) else { return (m, Want::Err) };
                if matches!(i, GLet(..)) {
                    local.remove(&c);
                    m.defs.insert(c, d);
                } else {
                    ldef(&mut m, &mut local, c, d);
                }
            }
            Use(c) => {
                let mut cur = c;
                let mut steps = 0;
                loop {
                    match meaning(&local, &m.defs, cur) {
                        None => return (m, Want::Err),
                        Some(Val(v)) => {
                            parts.push(Ok(v.to_string()));
                            break;
                        }
                        Some(Call(n)) => cur = n,
                    }
                    steps += 1;
                    if steps > 8 {
                        return (m, Want::Err); // self-reference: expansion limit
                    }
                }
            }
            Fail => return (m, Want::Err),
        }
    }
    let mut undef = false;
    let obs = parts
        .into_iter()
        .map(|p| match p {
            Ok(s) => s,
            Err(l) => match m.labels.get(l) {
                Some(t) => format!("[#{l}->({t})]"),
                None => {
                    undef = true;
                    format!("[#{l}->(??)]")
                }
            },
        })
        .collect();
    (m, Want::Ok { obs, undef })
}

fn step(st: &Model, op: &Op, gg: bool) -> (Model, Want) {
    match op.how {
        How::Global => run_model(st, op.prog, gg),
        How::Local | How::Batch => (st.clone(), run_model(&Model::default(), op.prog, gg).1),
        How::Reset => (Model::default(), Want::Nothing),
    }
}

fn compare(want: &Want, got: &Out) -> Result<(), String> {
    match (want, got) {
        (Want::Ok { obs: w, undef }, Out::Ok { mathml, undef: u, unknown }) => {
            let o = obs(mathml);
            if o != *w {
                return Err(format!("expected {w}, got {o} from {mathml}"));
            }
            if u != undef {
                return Err(format!("expected undefined-reference warning {undef}, got {u}"));
            }
            if *unknown {
                return Err("unexpected unknown-command warning".into());
            }
            Ok(())
        }
        (Want::Err, Out::Err { .. }) => Ok(()),
        (w, g) => Err(format!("expected {w:?}, got {}", g.show())),
    }
}

fn exec(c: &mut LatexToMathML, op: &Op) -> Option<Out> {
    match op.how {
        How::Global => Some(global(c, op.src, BLK)),
        How::Local => Some(local(c, op.src, BLK)),
        How::Batch => all(c, &[(op.src, BLK)]).into_iter().next(),
        How::Reset => {
            c.reset_global_state();
            None
        }
    }
}

fn c08(ctx: &mut Ctx) {
    let ops = ops();
    let depth = c08_depth(ctx.tier);
    // Explicit-state exploration of the model.
    let (mut ns, mut nt) = (0u64, 0u64);
    for gg in [false, true] {
        let mut seen: HashSet<Model> = HashSet::new();
        let mut q = VecDeque::new();
        seen.insert(Model::default());
        q.push_back((Model::default(), 0));
        while let Some((m, d)) = q.pop_front() {
            ns += 1;
            if d == depth {
                continue;
            }
            for op in ops {
                let (m2, w) = step(&m, op, gg);
                nt += 1;
                // What a failing operation leaves behind is not specified.
                if w == Want::Err && op.how == How::Global && m2 != m {
                    continue;
                }
                if seen.insert(m2.clone()) {
                    q.push_back((m2, d + 1));
                }
            }
        }
    }
    ctx.states = ns;
    ctx.transitions = nt;
    for gg in [false, true] {
        let mut cfg = Cfg::new();
        cfg.global_group = gg;
        let mut c = cfg.build();
        let mut ix = vec![0usize; depth];
        'seqs: loop {
            if ctx.mine() {
                let desc = format!("global_group={gg}: {}", ix.iter().map(|i| match ops[*i].how { How::Global => format!("G {}", ops[*i].src), How::Local => format!("L {}", ops[*i].src), How::Batch => format!("A {}", ops[*i].src), How::Reset => "RESET".into() }).collect::<Vec<_>>().join(" ; "));
                ctx.begin(&desc);
                ctx.traces += 1;
                // A converter that has been reset and one that is new must behave alike; the
                // enumeration uses reset most of the time and a new converter now and then.
                if ix[depth - 1] == 0 { c = cfg.build() } else { c.reset_global_state() }
                let mut m = Model::default();
                for i in &ix {
                    let op = &ops[*i];
                    let (m2, want) = step(&m, op, gg);
                    let unspecified = want == Want::Err && op.how == How::Global && m2 != m;
                    m = m2;
                    if let Some(got) = exec(&mut c, op) {
                        ctx.outcome(&got.show());
                        if let Err(w) = compare(&want, &got) {
                            ctx.violation(&desc, &desc, &format!("at {}: {w}", op.src));
                            c = cfg.build();
                            break;
                        }
                    }
                    if unspecified {
                        break;
                    }
                }
            }
            if ctx.stop {
                return;
            }
            let mut p = depth;
            loop {
                if p == 0 {
                    break 'seqs;
                }
                p -= 1;
                ix[p] += 1;
                if ix[p] < ops.len() {
                    break;
                }
                ix[p] = 0;
            }
        }
    }
    // One long chain.
    for kind in 0..3 {
        if !ctx.mine() {
            continue;
        }
        let mut c = Cfg::new().build();
        ctx.begin(&format!("long chain {kind}"));
        ctx.traces += 1;
        let mut n = 0u32;
        for i in 0..1200u32 {
            let (src, k) = match kind {
                0 => ("\\begin{equation}x\\label{A}\\end{equation}".to_string(), 1),
                1 => ("\\begin{align}x\\\\y\\\\z\\label{A}\\end{align}".to_string(), 3),
                _ => (format!("\\begin{{gather}}x\\label{{L{i}}}\\end{{gather}}"), 1),
            };
            let o = global(&mut c, &src, BLK);
            n += k;
            let Some(o) = o.ok() else {
                ctx.violation("chain", &src, &format!("conversion {i} failed: {}", o.show()));
                break;
            };
            if !obs(o).ends_with(&format!("({n})")) {
                ctx.violation("chain", &src, &format!("equation {n} is numbered differently: {}", obs(o)));
                break;
            }
        }
        if kind == 2 {
            for i in 0..1200u32 {
                let src = format!("\\eqref{{L{i}}}");
                let o = global(&mut c, &src, INL);
                if o.ok().map(obs) != Some(format!("[#L{i}->({})]", i + 1)) {
                    ctx.violation("chain", &src, &format!("wrong reference: {}", o.show()));
                    break;
                }
            }
        }
    }
}

// ---------------------------------------------------------------- C07

const C07_SNIPS: &[&str] = &[
    "\\begin{equation}x\\label{a}\\end{equation}", "\\begin{align}x\\label{a}\\\\y\\nonumber\\\\z\\tag{t}\\label{b}\\end{align}", "\\eqref{a}\\eqref{b}\\eqref{c}", "\\begin{align}x\\label{c}\\\\y\\label{a}\\nope\\end{align}",
    "\\gdef\\m{1}\\m", "\\gdef\\m#1{\\frac{#1}{2}}", "\\m x", "\\def\\m{y}\\gdef\\n{\\m}\\n", "\\newcommand\\n{z}\\n", "\\global\\let\\frac\\sqrt", "\\frac12", "\\gdef\\sum{s}\\sum", "\\sum_a^b", "\\gdef\\x{\\x}\\x", "\\c\\c\\c", "\\c{\\c",
    "{\\bf a", "\\displaystyle\\color{red}b", "\\left(\\middle|", "\\begin{multline}a\\\\b", "\\nonumber", "\\begin{align}a\\nonumber", "\\begin{gather}a\\tag{q}\\label{c}\\\\", "\\nope\\nope", "\\m\\n\\nope", "\\text{a}", "\\text{a", "a", "",
    "\\begin{matrix}\\m&\\n\\\\\\end{matrix}", "\\gdef\\cfg{9}\\cfg", "\\cfg", "\\def\\cfg{8}\\cfg", "\\renewcommand\\cfg{7}\\cfg", "\\Braket{a|b}", "\\Set{a|b", "\\mathrm{\\color[HTML]{00FF00}a", "\\gdef\\q{", "\\global\\q",
];
fn c07_len(t: Tier) -> usize {
    if t == Tier::Quick { 2 } else { 3 }
}
fn c07_cfgs() -> Vec<Cfg> {
    let mut v = Vec::new();
    for (gg, ignore, me) in [(false, false, None), (true, true, Some(3))] {
        let mut c = Cfg::new().mac("cfg", "\\frac{c}{\\cfgb}").mac("cfgb", "b").mac("c", "a\\cfgb");
        c.global_group = gg;
        c.ignore = ignore;
        c.max_exp = me;
        v.push(c);
    }
    v
}

fn c07(ctx: &mut Ctx) {
    let n = C07_SNIPS.len();
    let len = c07_len(ctx.tier);
    for cfg in c07_cfgs() {
        // Reference results from converters that have done nothing else.
        let fresh_local: Vec<Out> = C07_SNIPS.iter().map(|s| local(&cfg.build(), s, BLK)).collect();
        let fresh_inl: Vec<Out> = C07_SNIPS.iter().map(|s| local(&cfg.build(), s, INL)).collect();
        let lists: Vec<Vec<(&str, MathDisplay)>> = (0..n).map(|i| vec![(C07_SNIPS[i], BLK), (C07_SNIPS[(i + 1) % n], INL), (C07_SNIPS[(i * 7 + 3) % n], BLK)]).collect();
        let fresh_all: Vec<Vec<Out>> = lists.iter().map(|l| all(&cfg.build(), l)).collect();
        // Operation 4*i+k: snippet i through entry point k.
        let mut ix = vec![0usize; len];
        'seqs: loop {
            if ctx.mine() {
                let desc = format!("global_group={}: {}", cfg.global_group, ix.iter().map(|o| format!("{} {}", ["G", "L", "A", "G-inline"][o % 4], C07_SNIPS[o / 4])).collect::<Vec<_>>().join(" ; "));
                ctx.begin(&desc);
                let mut c = cfg.build();
                let mut only_global = cfg.build();
                for o in &ix {
                    let (i, k) = (o / 4, o % 4);
                    match k {
                        1 => {
                            let r = local(&c, C07_SNIPS[i], BLK);
                            ctx.outcome(&r.show());
                            if r != fresh_local[i] {
                                ctx.violation(&desc, &desc, &format!("local conversion of {}: {} instead of {}", C07_SNIPS[i], r.show(), fresh_local[i].show()));
                            }
                        }
                        2 => {
                            let r = all(&c, &lists[i]);
                            if r != fresh_all[i] {
                                ctx.violation(&desc, &desc, &format!("convert_all differs: {r:?} instead of {:?}", fresh_all[i]));
                            }
                        }
                        _ => {
                            let d = if k == 0 { BLK } else { INL };
                            let r = global(&mut c, C07_SNIPS[i], d);
                            let r2 = global(&mut only_global, C07_SNIPS[i], d);
                            if r != r2 {
                                ctx.violation(&desc, &desc, &format!("global conversion of {}: {} but without the local conversions {}", C07_SNIPS[i], r.show(), r2.show()));
                            }
                        }
                    }
                }
                // Probes: every local conversion afterwards, and the global state.
                for i in 0..n {
                    let r = local(&c, C07_SNIPS[i], INL);
                    if r != fresh_inl[i] {
                        ctx.violation(&desc, &desc, &format!("afterwards the local conversion of {} gives {} instead of {}", C07_SNIPS[i], r.show(), fresh_inl[i].show()));
                        break;
                    }
                }
                for s in ["\\begin{equation}\\eqref{a}\\eqref{b}\\eqref{c}\\end{equation}", "\\m x", "\\n", "\\cfg", "\\frac12", "\\sum"] {
                    let (a, b) = (global(&mut c, s, BLK), global(&mut only_global, s, BLK));
                    if a != b {
                        ctx.violation(&desc, &desc, &format!("the local conversions changed the global state: {s} gives {} instead of {}", a.show(), b.show()));
                        break;
                    }
                }
                c.reset_global_state();
                let i = ix[0] / 4;
                let r = global(&mut c, C07_SNIPS[i], BLK);
                let w = global(&mut cfg.build(), C07_SNIPS[i], BLK);
                if r != w {
                    ctx.violation(&desc, &desc, &format!("after reset_global_state {} gives {} instead of {}", C07_SNIPS[i], r.show(), w.show()));
                }
            }
            if ctx.stop {
                return;
            }
            let mut p = len;
            loop {
                if p == 0 {
                    break 'seqs;
                }
                p -= 1;
                ix[p] += 1;
                if ix[p] < n * 4 {
                    break;
                }
                ix[p] = 0;
            }
        }
        // Long histories: one converter lives through the whole enumeration.
        let old = cfg.build();
        let mut old_global = cfg.build();
        let mut small = sizes(ctx.tier);
        small.mid_pair_ctx = ctx.pick(0, 20);
        universe(ctx, small, &mut |ctx, s| {
            ctx.begin(s);
            let a = local(&old, s, BLK);
            let b = local(&cfg.build(), s, BLK);
            ctx.outcome(&b.show());
            if a != b {
                ctx.violation(s, s, &format!("a converter with a history gives {} but a fresh one {}", a.show(), b.show()));
            }
            // Whatever a snippet did, reset undoes it.
            let g = global(&mut old_global, s, BLK);
            old_global.reset_global_state();
            if g != b {
                ctx.violation(s, s, &format!("after reset_global_state: {} but with local state {}", g.show(), b.show()));
            }
        });
    }
}

// ---------------------------------------------------------------- C09

const C09_SNIPS: &[&str] = &[
    "\\begin{equation}x\\label{a}\\end{equation}", "\\begin{align}x\\label{a}\\\\y\\label{b}\\end{align}", "\\begin{align}x\\tag{t}\\label{b}\\\\y\\nonumber\\end{align}", "\\begin{align}x\\label{c}\\\\\\eqref{a}\\label{b}\\nope\\end{align}",
    "\\eqref{a}\\eqref{b}\\eqref{c}", "\\begin{gather}\\eqref{a}\\label{a}\\end{gather}", "\\begin{multline}a\\\\\\eqref{c}\\label{c}\\end{multline}\\gdef\\m{1}", "\\m", "\\gdef\\m#1{\\eqref{#1}}\\m{a}", "\\m{b}", "\\newcommand\\n{\\m}\\n", "\\n\\n\\begin{equation}\\m\\end{equation}", "}",
    "\\def\\m{\\begin{equation}\\eqref{c}\\end{equation}}\\m\\m", "a", "\\frac{\\eqref{a}}{\\eqref{nolabel}}", "\\gdef\\m{2}\\m\\nope", "\\displaystyle{\\bf", "\\text{a}\\begin{align}b\\nonumber", "\\x", "\\gdef\\x{\\m\\x}",
];
fn c09_len(t: Tier) -> usize {
    if t == Tier::Quick { 4 } else { 5 }
}
fn c09_inputs(t: Tier) -> Vec<String> {
    let mut v: Vec<String> = if t == Tier::Quick { MID.iter().map(|s| s.to_string()).collect() } else { full().to_vec() };
    for c in ["\\gdef\\q{□}", "\\begin{align}□\\label{a}\\\\b", "\\begin{align}□\\end{align}"] {
        for m in SMALL {
            let mut s = String::new();
            fill(c, m, &mut s);
            v.push(s);
        }
    }
    v
}

/// Replace the text of every reference by what `f` gives for its label.
fn replace_refs(m: &str, f: &mut dyn FnMut(&str) -> String) -> String {
    let mut o = String::new();
    let mut r = m;
    while let Some(i) = r.find("<a href=\"#") {
        let j = i + "<a href=\"#".len();
        let k = j + r[j..].find('"').unwrap();
        let e = k + r[k..].find("</a>").unwrap();
        let label = &r[j..k];
        o.push_str(&r[..k]);
        o.push_str("\">");
        o.push_str(&f(label));
        r = &r[e..];
    }
    o.push_str(r);
    o
}

fn c09_case(ctx: &mut Ctx, cfg: &Cfg, fresh: &LatexToMathML, list: &[(&str, MathDisplay)], labels: &[&str]) {
    let desc = format!("global_group={}: {}", cfg.global_group, list.iter().map(|(s, d)| format!("{}{s}", if *d == BLK { "" } else { "(inline) " })).collect::<Vec<_>>().join(" ; "));
    ctx.begin(&desc);
    let got = all(fresh, list);
    let mut g = cfg.build();
    let seq: Vec<Out> = list.iter().map(|(s, d)| global(&mut g, s, *d)).collect();
    if got.len() != list.len() {
        ctx.violation(&desc, &desc, &format!("{} results for {} snippets", got.len(), list.len()));
        return;
    }
    // Final labels, read off the sequential converter.
    let mut fin: BTreeMap<String, String> = BTreeMap::new();
    for l in labels {
        if let Out::Ok { mathml, undef, .. } = global(&mut g, &format!("\\eqref{{{l}}}"), BLK) {
            let t = mathml.find("\">").and_then(|_| mathml.rfind("\">").map(|i| i + 2)).and_then(|i| mathml[i..].find("</a>").map(|e| mathml[i..i + e].to_string()));
            if let (Some(t), false) = (t, undef) {
                fin.insert(l.to_string(), t);
            }
        }
    }
    for (i, (a, b)) in got.iter().zip(&seq).enumerate() {
        let want = match b {
            Out::Ok { mathml, unknown, .. } => {
                let mut undef = false;
                let mathml = replace_refs(mathml, &mut |l| {
                    fin.get(l).cloned().unwrap_or_else(|| {
                        undef = true;
                        "(??)".to_string()
                    })
                });
                Out::Ok { mathml, undef, unknown: *unknown }
            }
            o => o.clone(),
        };
        ctx.outcome(&a.show());
        ctx.class(a.class());
        if *a != want {
            ctx.violation(&desc, &desc, &format!("snippet {i}: convert_all gives {} but one by one it is {}", a.show(), want.show()));
            return;
        }
    }
}

fn c09(ctx: &mut Ctx) {
    for gg in [false, true] {
        let mut cfg = Cfg::new().mac("x", "c\\y").mac("y", "d");
        cfg.global_group = gg;
        cfg.ignore = false;
        let fresh = cfg.build();
        for len in 0..=c09_len(ctx.tier) {
            let n = C09_SNIPS.len();
            let total = n.pow(len as u32);
            for mut k in 0..total {
                if !ctx.mine() {
                    continue;
                }
                let mut list = Vec::new();
                for j in 0..len {
                    list.push((C09_SNIPS[k % n], if (k + j) % 3 == 0 { INL } else { BLK }));
                    k /= n;
                }
                c09_case(ctx, &cfg, &fresh, &list, &["a", "b", "c", "nolabel"]);
                if ctx.stop {
                    return;
                }
            }
        }
        let max_list: usize = ctx.pick(129, 1001);
        // long lists: a reference in front of everything, and the snippets by turns
        for &len in LENGTHS.iter().filter(|&&n| n <= max_list) {
            for off in 0..C09_SNIPS.len() {
                for step in [1usize, 5] {
                    if !ctx.mine() {
                        continue;
                    }
                    let list: Vec<_> = (0..len).map(|j| (C09_SNIPS[(off + j * step) % C09_SNIPS.len()], if j % 3 == 0 { INL } else { BLK })).collect();
                    c09_case(ctx, &cfg, &fresh, &list, &["a", "b", "c", "nolabel"]);
                }
            }
            if ctx.stop {
                return;
            }
        }
        let inputs = c09_inputs(ctx.tier);
        let mut icfg = cfg.clone();
        icfg.ignore = true;
        let ifresh = icfg.build();
        for s in &inputs {
            for t in &inputs {
                if ctx.mine() {
                    c09_case(ctx, &icfg, &ifresh, &[(s, BLK), (t, INL), (s, INL)], &["a", "b", "l", "q"]);
                }
            }
            if ctx.stop {
                return;
            }
        }
    }
}

// ---------------------------------------------------------------- C15

const C15_SNIPS: &[&str] = &[
    "\\eqref{a}", "\\begin{equation}x\\label{a}\\end{equation}", "\\nope", "\\text{a}", "\\mathchoice{\\nope}{b}{c}{d}", "\\mathchoice{a}{\\eqref{zz}}{c}{d}", "\\gdef\\m{\\nope\\eqref{zz}}", "\\m", "\\eqref{b}\\nope\\begin{gather}x\\label{b}\\end{gather}", "}", "\\nope{", "\\eqref{zz}\\left(",
    "\\frac{\\eqref{b}}{\\phantom{\\nopeb}}", "\\begin{align}\\eqref{a}\\tag{T}\\label{b}\\\\ \\nope\\nonumber\\end{align}", "\\begin{align*}x\\label{zz}\\end{align*}\\eqref{zz}", "\\begin{multline}\\eqref{b}\\\\\\nope\\label{b}\\end{multline}", "\\text{\\eqref{a}}", "\\operatorname{\\nope}", "\\hphantom{\\eqref{a}}\\smash{\\eqref{b}}", "a^{\\eqref{a}}_\\nope",
];

fn warnings_fit(o: &Out) -> Result<(), String> {
    let Out::Ok { mathml, undef, unknown } = o else { return Ok(()) };
    let Ok(e) = xml::parse_norm(mathml) else { return Ok(()) };
    let (mut r, mut u) = (false, false);
    e.walk(&mut |e| {
        if e.name == "a" && e.text().contains("??") {
            r = true;
        }
        if e.name == "merror" {
            u = true;
        }
    });
    if r != *undef {
        return Err(format!("undefined-reference warning is {undef}, but the output {} an unresolved reference: {mathml}", if r { "contains" } else { "does not contain" }));
    }
    if u != *unknown {
        return Err(format!("unknown-command warning is {unknown}, but the output {} an unknown command: {mathml}", if u { "contains" } else { "does not contain" }));
    }
    Ok(())
}

fn c15(ctx: &mut Ctx) {
    let mut cfg = Cfg::new();
    cfg.ignore = true;
    let mut pretty = cfg.clone();
    pretty.pretty = 1;
    pretty.annotation = true;
    let plain = Cfg::new();
    let (c, p, n) = (cfg.build(), pretty.build(), plain.build());
    universe(ctx, sizes(ctx.tier), &mut |ctx, s| {
        ctx.begin(s);
        for (k, conv) in [&c, &p, &n].into_iter().enumerate() {
            for d in [BLK, INL] {
                let o = local(conv, s, d);
                if k == 0 {
                    ctx.class(o.class());
                    ctx.outcome(&o.show());
                }
                if let Err(w) = warnings_fit(&o) {
                    ctx.violation(s, s, &w);
                    return;
                }
                if k == 2 && matches!(o, Out::Ok { unknown: true, .. }) {
                    ctx.violation(s, s, "unknown-command warning although unknown commands are errors");
                }
            }
        }
    });
    // Lists and histories.
    let m = C15_SNIPS.len();
    for len in 1..=c09_len(ctx.tier) {
        for k0 in 0..m.pow(len as u32) {
            if !ctx.mine() {
                continue;
            }
            let mut k = k0;
            let list: Vec<(&str, MathDisplay)> = (0..len)
                .map(|j| {
                    let s = C15_SNIPS[k % m];
                    k /= m;
                    (s, if (k0 + j) % 2 == 0 { BLK } else { INL })
                })
                .collect();
            let desc = list.iter().map(|x| x.0).collect::<Vec<_>>().join(" ; ");
            ctx.begin(&desc);
            let mut g = cfg.build();
            for o in all(&c, &list) {
                ctx.outcome(&o.show());
                if let Err(w) = warnings_fit(&o) {
                    ctx.violation(&desc, &desc, &format!("convert_all: {w}"));
                    break;
                }
            }
            for (s, d) in &list {
                let o = global(&mut g, s, *d);
                if let Err(w) = warnings_fit(&o) {
                    ctx.violation(&desc, &desc, &format!("global conversion: {w}"));
                    break;
                }
            }
            if ctx.stop {
                return;
            }
        }
    }
}

//! C37: the WebAssembly package agrees with the library.
use super::frontends::{Combo, Op, Opt, combos, config, disp, op_alphabet, opts, show};
use crate::engine::*;
use crate::vocab::{self, Sizes, universe};
use math_core::*;
use std::io::{BufRead, BufReader, Write};
use std::os::unix::process::CommandExt;
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

pub fn specs() -> Vec<Spec> {
    vec![Spec {
        id: "C37",
        level: "exploration",
        rule: "A case is a set of options and a sequence of operations, run through the package (compiled for wasm32, under Node) and through the library (64 bit); every result must be the same, and a thrown error must have the message, label, index, context, report and UTF-16 range that follow from the library's error. distinct non-trivial = distinct results.",
        bounds: |t| format!("every option value alone and every pair of them, with throwOnError left out, true and false; sequences of at most {} operations (global and local conversions, batches, resets) over snippets that define, use, label, refer to and fail; the whole command vocabulary with arguments under every single option value; the generic universe of inputs; 16 JavaScript values for every option", if t == Tier::Quick { 2 } else { 3 }),
        assumptions: &["the package is built with the ariadne feature and with panic=abort; nested input deep enough to exhaust the package's stack is left out"],
        run,
        workers: 8,
        prepare: Some(prepare),
    }]
}

fn dir() -> String {
    format!("{VERIF}/harness/target/wasm")
}

fn prepare(_: Tier) -> Result<(), String> {
    let out = Command::new("bash").arg(format!("{VERIF}/harness/wasm/build.sh")).arg(dir()).output().map_err(|e| e.to_string())?;
    if !out.status.success() {
        return Err(format!("the WebAssembly package can't be built: {}", String::from_utf8_lossy(&out.stderr)));
    }
    Ok(())
}

struct Node {
    child: Child,
    i: ChildStdin,
    o: BufReader<ChildStdout>,
}
impl Node {
    fn new() -> Node {
        let mut cmd = Command::new("node");
        // Node reserves far more address space than it uses.
        unsafe {
            cmd.pre_exec(|| {
                let mut l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
                libc::getrlimit(libc::RLIMIT_AS, &mut l);
                l.rlim_cur = l.rlim_max;
                libc::setrlimit(libc::RLIMIT_AS, &l);
                Ok(())
            });
        }
        let mut child = cmd
            .arg(format!("{VERIF}/harness/wasm/worker.js"))
            .arg(format!("{}/pkg/math_core_wasm.js", dir()))
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("node");
        let i = child.stdin.take().unwrap();
        let o = BufReader::with_capacity(1 << 16, child.stdout.take().unwrap());
        Node { child, i, o }
    }
    fn ask(&mut self, options: &str, ops: &str) -> Vec<String> {
        let mut line = String::new();
        let sent = self.i.write_all(format!("{{\"o\":{options},\"ops\":{ops}}}\n").as_bytes()).and_then(|_| self.i.flush());
        if sent.is_err() || self.o.read_line(&mut line).unwrap_or(0) == 0 {
            let _ = self.child.wait();
            *self = Node::new();
            return vec!["the interpreter died".into()];
        }
        let v: Vec<String> = line.trim_end_matches('\n').split('\t').map(unesc).collect();
        // A trap leaves the instance in an undefined state.
        if v.iter().any(|r| r.starts_with("XRuntimeError")) {
            let _ = self.child.kill();
            let _ = self.child.wait();
            *self = Node::new();
        }
        v
    }
}
impl Drop for Node {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

/// The options as JavaScript has them; `None` if one of them doesn't exist there.
fn options(c: &Combo, throw: Option<bool>) -> Option<String> {
    let m = config(c);
    let mut v: Vec<String> = Vec::new();
    for o in c {
        v.push(match o.key {
            "pretty-print" => format!("\"prettyPrint\":\"{}\"", o.toml.trim_matches('\'')),
            "xml-namespace" => format!("\"xmlNamespace\":{}", m.xml_namespace),
            "ignore-unknown-commands" => format!("\"ignoreUnknownCommands\":{}", m.ignore_unknown_commands),
            "annotation" => format!("\"annotation\":{}", m.annotation),
            "allow-unreliable-rendering" => format!("\"allowUnreliableRendering\":{}", m.allow_unreliable_rendering),
            "global-group" => format!("\"globalGroup\":{}", m.global_group),
            "unicode-substitution" => format!("\"unicodeSubstitution\":\"{}\"", o.toml.trim_matches('\'')),
            "max-expansions" => format!("\"maxExpansions\":{}", o.toml),
            "id-prefix" => format!("\"idPrefix\":{}", json_str(&m.id_prefix)),
            "macros" => format!("\"macros\":[{}]", m.macros.iter().map(|(k, v)| format!("[{},{}]", json_str(k), json_str(v))).collect::<Vec<_>>().join(",")),
            _ => return None,
        });
    }
    if let Some(t) = throw {
        v.push(format!("\"throwOnError\":{t}"));
    }
    Some(format!("{{{}}}", v.join(",")))
}
fn literal(ops: &[Op]) -> String {
    let v: Vec<String> = ops
        .iter()
        .map(|o| match o {
            Op::Global(l, d) => format!("[\"g\",{},{d}]", json_str(l)),
            Op::Local(l, d) => format!("[\"l\",{},{d}]", json_str(l)),
            Op::All(v) => format!("[\"a\",[{}]]", v.iter().map(|(l, d)| format!("[{},{d}]", json_str(l))).collect::<Vec<_>>().join(",")),
            Op::Reset => "[\"r\"]".into(),
        })
        .collect();
    format!("[{}]", v.join(","))
}

/// An offset in the units of JavaScript.
fn utf16(s: &str, byte: usize) -> usize {
    if s.is_char_boundary(byte) { s[..byte].encode_utf16().count() } else { byte }
}
fn error(e: &LatexError, input: &str, index: Option<usize>, name: Option<&str>) -> String {
    let mut buf = Vec::new();
    let source = name.unwrap_or("input");
    e.to_report(source, false).write((source, ariadne::Source::from(input)), &mut buf).unwrap();
    let opt = |o: Option<String>| o.map_or("-".to_string(), |s| format!("={s}"));
    format!(
        "E={}\n={}\n={}\n={}\n{}\n{}\n={}",
        e.error_message(),
        e.label(),
        utf16(input, e.0.start),
        utf16(input, e.0.end),
        opt(index.map(|i| i.to_string())),
        opt(name.map(|_| input.to_string())),
        String::from_utf8(buf).unwrap()
    )
}
/// What the package has to answer.
fn wants(cfg: MathCoreConfig, ops: &[Op], throw: bool) -> Vec<String> {
    let mut c = match LatexToMathML::new(cfg) {
        Ok(c) => c,
        Err((e, _, src)) => return vec![error(&e, &src, None, Some("macro"))],
    };
    let mut v = vec!["-".to_string()];
    let one = |r: Result<ConvertResult, Box<LatexError>>, l: &str, b: bool, i: Option<usize>| -> Result<String, String> {
        match r {
            Ok(r) => Ok(format!("O{}", r.mathml)),
            Err(e) if !throw => Ok(format!("O{}", e.to_html(l, disp(b), None))),
            Err(e) => Err(error(&e, l, i, None)),
        }
    };
    let either = |r: Result<String, String>| r.unwrap_or_else(|e| e);
    for o in ops {
        match o {
            Op::Global(l, b) => {
                let r = c.convert_with_global_state(l, disp(*b));
                v.push(either(one(r, l, *b, None)));
            }
            Op::Local(l, b) => v.push(either(one(c.convert_with_local_state(l, disp(*b)), l, *b, None))),
            Op::All(s) => {
                let inputs: Vec<(&str, MathDisplay)> = s.iter().map(|(l, b)| (l.as_str(), disp(*b))).collect();
                let r: Result<Vec<String>, String> = c.convert_all(&inputs).into_iter().enumerate().map(|(i, r)| one(r, &s[i].0, s[i].1, Some(i))).collect();
                match r {
                    Ok(r) => v.extend(r),
                    Err(e) => v.push(e),
                }
            }
            Op::Reset => {
                c.reset_global_state();
                v.push("-".into());
            }
        }
    }
    v
}

fn run(ctx: &mut Ctx) {
    let mut node: Option<Node> = None;
    let all = opts();
    let combos = combos(&all);
    operations(ctx, &mut node, &combos);
    values(ctx, &mut node);
    vocabulary(ctx, &mut node, &all);
    inputs(ctx, &mut node);
}

fn compare(ctx: &mut Ctx, key: &str, got: Vec<String>, want: Vec<String>) {
    for g in &got {
        ctx.outcome(g);
    }
    ctx.check(got == want, key, || {
        let i = (0..got.len().max(want.len())).find(|i| got.get(*i) != want.get(*i)).unwrap();
        format!("result {i} is {:?}\n   instead of {:?}", got.get(i), want.get(i))
    });
}

fn operations(ctx: &mut Ctx, node: &mut Option<Node>, combos: &[Combo]) {
    let alphabet = op_alphabet();
    for c in combos {
        let len = if c.len() < 2 { ctx.pick(2, 3) } else { ctx.pick(1, 2) };
        let mut seqs: Vec<Vec<Op>> = vec![vec![]];
        let mut last = seqs.clone();
        for _ in 0..len {
            let mut next = Vec::new();
            for p in &last {
                for o in &alphabet {
                    let mut q = p.clone();
                    q.push(o.clone());
                    next.push(q);
                }
            }
            seqs.extend(next.iter().cloned());
            last = next;
        }
        for q in &seqs {
            for throw in [None, Some(true), Some(false)] {
                if !ctx.mine() {
                    continue;
                }
                let Some(k) = options(c, throw) else { continue };
                let key = format!("{k} {q:?}");
                ctx.begin(&key);
                let got = node.get_or_insert_with(Node::new).ask(&k, &literal(q));
                ctx.class("operations");
                compare(ctx, &key, got, wants(config(c), q, throw != Some(false)));
            }
        }
    }
}

/// Values of the options as a caller in JavaScript may give them.
fn values(ctx: &mut Ctx, node: &mut Option<Node>) {
    let probe = vec![
        Op::Global("\\def\\q{\\nope\\text{a\u{3b1}}}\\q".into(), true),
        Op::Global("\\begin{align}\\q&ℝ\\label{l}\\\\\\bf x\\end{align}".into(), true),
        Op::Global("\\eqref{l}\\q\\slashed{x}".into(), false),
        Op::Local("\\text{é😀}\\frac".into(), false),
    ];
    // (options, the configuration they stand for, throwOnError; or the message of the rejection)
    type Want = Result<(fn(&mut MathCoreConfig), bool), &'static str>;
    let nothing: Want = Ok((|_| (), true));
    let mut cases: Vec<(String, Want)> = vec![("{}".into(), nothing)];
    for key in ["prettyPrint", "macros", "xmlNamespace", "throwOnError", "ignoreUnknownCommands", "annotation", "allowUnreliableRendering", "globalGroup", "unicodeSubstitution", "maxExpansions", "idPrefix", "indentation", "cssClasses", "pretty_print", "noSuchOption"] {
        // `null` is as good as nothing.
        cases.push((format!("{{\"{key}\":null}}"), nothing));
    }
    for key in ["indentation", "cssClasses", "pretty_print", "pretty-print", "xml_namespace", "noSuchOption", "PrettyPrint"] {
        for v in ["true", "1", "\"always\"", "{}"] {
            cases.push((format!("{{\"{key}\":{v}}}"), nothing));
        }
    }
    for v in ["", "Always", "ALWAYS", "always ", "tab", "yes", "true", "conventional", "never\\u0000"] {
        cases.push((format!("{{\"prettyPrint\":\"{v}\"}}"), Err("Invalid value for prettyPrint")));
    }
    for v in ["", "Never", "NEVER", "conventional ", "always", "auto", "true"] {
        cases.push((format!("{{\"unicodeSubstitution\":\"{v}\"}}"), Err("Invalid value for unicodeSubstitution")));
    }
    for v in ["[[\"q\",1]]", "[[1,\"q\"]]", "[[\"q\",null]]", "[[null,\"q\"]]", "[[\"q\",\"x\"],[\"p\",true]]", "[[\"q\"]]", "[[\"q\",[\"x\"]]]"] {
        cases.push((format!("{{\"macros\":{v}}}"), Err("Invalid macros map")));
    }
    let fine: &[(&str, fn(&mut MathCoreConfig), bool)] = &[
        ("{\"maxExpansions\":0}", |c| c.max_expansions = MaxExpansions(0), true),
        ("{\"maxExpansions\":1}", |c| c.max_expansions = MaxExpansions(1), true),
        ("{\"maxExpansions\":2147483648}", |c| c.max_expansions = MaxExpansions(1 << 31), true),
        ("{\"maxExpansions\":4294967295}", |c| c.max_expansions = MaxExpansions(u32::MAX), true),
        ("{\"macros\":[]}", |_| (), true),
        ("{\"macros\":[[\"q\",\"\"]]}", |c| c.macros = vec![("q".into(), "".into())], true),
        ("{\"macros\":[[\"q\",\"#1#9\"]]}", |c| c.macros = vec![("q".into(), "#1#9".into())], true),
        ("{\"macros\":[[\"\",\"x\"]]}", |c| c.macros = vec![("".into(), "x".into())], true),
        ("{\"macros\":[[\"q\",\"é😀\\\\nope\"]]}", |c| c.macros = vec![("q".into(), "é😀\\nope".into())], true),
        ("{\"macros\":[[\"p\",\"y\"],[\"q\",\"é😀}\"]],\"throwOnError\":false}", |c| c.macros = vec![("p".into(), "y".into()), ("q".into(), "é😀}".into())], false),
        ("{\"idPrefix\":\"\"}", |_| (), true),
        ("{\"idPrefix\":\"a<\\\"&😀\"}", |c| c.id_prefix = "a<\"&😀".into(), true),
        ("{\"throwOnError\":false,\"xmlNamespace\":true}", |c| c.xml_namespace = true, false),
        ("{\"throwOnError\":true,\"annotation\":true}", |c| c.annotation = true, true),
    ];
    for (o, f, t) in fine {
        cases.push((o.to_string(), Ok((*f, *t))));
    }
    for (o, want) in cases {
        if !ctx.mine() {
            continue;
        }
        let key = format!("value {o}");
        ctx.begin(&key);
        ctx.class("option values");
        let got = node.get_or_insert_with(Node::new).ask(&o, &literal(&probe));
        let want = match want {
            Ok((f, throw)) => {
                let mut c = MathCoreConfig::default();
                f(&mut c);
                wants(c, &probe, throw)
            }
            Err(m) => vec![format!("C{m}")],
        };
        compare(ctx, &key, got, want);
    }
}

/// Every command with arguments, under every single option.
fn vocabulary(ctx: &mut Ctx, node: &mut Option<Node>, all: &[Opt]) {
    let mut snippets: Vec<String> = Vec::new();
    for c in vocab::full() {
        for suffix in ["", "{a}{b}", "{a}", "{1em}{b}", "[c]{a}{b}{d}", "_x^y", "é{\\q"] {
            snippets.push(format!("{c}{suffix}"));
            if ctx.quick() && suffix == "{a}{b}" {
                break;
            }
        }
    }
    let mut combos: Vec<Combo> = vec![vec![]];
    combos.extend(all.iter().map(|o| vec![*o]));
    for c in &combos {
        for chunk in snippets.chunks(64) {
            for throw in [true, false] {
                if !ctx.mine() {
                    continue;
                }
                let Some(k) = options(c, Some(throw)) else { continue };
                if LatexToMathML::new(config(c)).is_err() {
                    continue;
                }
                let key = format!("vocabulary {} {} …", show(c), chunk[0]);
                ctx.begin(&key);
                ctx.class("vocabulary");
                // Definitions and numbers accumulate on both sides alike.
                let ops: Vec<Op> = chunk.iter().enumerate().map(|(i, x)| Op::Global(x.clone(), i % 2 == 0)).collect();
                let got = node.get_or_insert_with(Node::new).ask(&k, &literal(&ops));
                ctx.evals += ops.len() as u64;
                compare(ctx, &key, got, wants(config(c), &ops, throw));
            }
        }
    }
}

/// The generic universe, locally, many inputs at a time.
fn inputs(ctx: &mut Ctx, node: &mut Option<Node>) {
    let sz = if ctx.quick() {
        Sizes { single_ctx: 999, pair_ctx: 1, mid_pair_ctx: 30, mid_len: 2, small_len: 3, tiny_len: 4, scale: 300 }
    } else {
        Sizes { single_ctx: 999, pair_ctx: 10, mid_pair_ctx: 999, mid_len: 3, small_len: 4, tiny_len: 5, scale: 1001 }
    };
    // (number of the case, operation)
    let mut batch: Vec<(u64, Op)> = Vec::new();
    let c = LatexToMathML::new(MathCoreConfig::default()).unwrap();
    let one = |s: &str, b: bool| match c.convert_with_local_state(s, disp(b)) {
        Ok(r) => format!("O{}", r.mathml),
        Err(e) => error(&e, s, None, None),
    };
    let mut flush = |ctx: &mut Ctx, batch: &mut Vec<(u64, Op)>| {
        let ops: Vec<Op> = batch.iter().map(|b| b.1.clone()).collect();
        let got = node.get_or_insert_with(Node::new).ask("{}", &literal(&ops));
        let whole = got.len() == ops.len() + 1;
        let last = ctx.cur;
        for (i, (cur, o)) in batch.iter().enumerate() {
            let Op::Local(s, b) = o else { unreachable!() };
            // One by one if the batch has no answer, to see which it is.
            let g = if whole { got[i + 1].clone() } else { node.get_or_insert_with(Node::new).ask("{}", &literal(std::slice::from_ref(o)))[1..].concat() };
            let w = one(s, *b);
            ctx.outcome(&g);
            ctx.cur = *cur;
            ctx.check(g == w, s, || format!("{}: the package gives {g:?}\n   instead of {w:?}", if *b { "block" } else { "inline" }));
        }
        ctx.cur = last;
        batch.clear();
    };
    universe(ctx, sz, &mut |ctx, s| {
        ctx.begin(s);
        ctx.class("inputs");
        for b in [true, false] {
            batch.push((ctx.cur, Op::Local(s.to_string(), b)));
        }
        if batch.len() == 100 {
            flush(ctx, &mut batch);
        }
    });
    if !batch.is_empty() {
        flush(ctx, &mut batch);
    }
}

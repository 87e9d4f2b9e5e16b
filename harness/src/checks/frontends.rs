//! C26: the library, the command-line tool and the Python binding agree.
use super::cli::{Ran, Scratch, decode, run};
use crate::engine::*;
use crate::vocab;
use math_core::*;
use std::fs;
use std::io::{BufRead, BufReader, Write};
use std::path::Path;
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

pub fn specs() -> Vec<Spec> {
    vec![Spec {
        id: "C26",
        level: "exploration",
        rule: "A case is a configuration and a sequence of conversions, run through the library, through the binary with a configuration file and through the Python module; every result (output, error text, exception type, exit code) must be the one of the library. Option values of every type are enumerated separately against a table of the accepted ones. distinct non-trivial = distinct results.",
        bounds: |t| format!("every option value alone and every pair of them; sequences of at most {} operations (global and local conversions, batches, resets) over snippets that define, use, label, refer to and fail; the whole command vocabulary with arguments under every single option value; 27 TOML values for every key and 14 Python values for every argument", if t == Tier::Quick { 2 } else { 3 }),
        assumptions: &["the WebAssembly package is compared by C37"],
        run: c26,
        workers: 8,
        prepare: Some(prepare),
    }]
}

const PY: &str = "/opt/vp/pyvenv/bin/python";
fn pydir() -> String {
    format!("{VERIF}/harness/target/pymod")
}

fn prepare(t: Tier) -> Result<(), String> {
    super::cli::prepare(t)?;
    let target = format!("{VERIF}/harness/target/cli");
    let out = Command::new("cargo")
        .args(["build", "--offline", "--locked", "--quiet", "--manifest-path", "/repo/Cargo.toml", "-p", "math-core-python", "--target-dir", &target])
        .env_remove("CARGO_TARGET_DIR")
        .env("PYO3_PYTHON", PY)
        .output()
        .map_err(|e| e.to_string())?;
    if !out.status.success() {
        return Err(String::from_utf8_lossy(&out.stderr).into_owned());
    }
    let d = format!("{}/math_core", pydir());
    let go = || -> std::io::Result<()> {
        fs::create_dir_all(&d)?;
        fs::copy("/repo/python/math_core/__init__.py", format!("{d}/__init__.py"))?;
        let so = format!("{d}/_math_core_rust.abi3.so");
        let _ = fs::remove_file(&so);
        fs::copy(format!("{target}/debug/libmath_core_python.so"), so)?;
        fs::write(format!("{}/driver.py", pydir()), DRIVER)
    };
    go().map_err(|e| e.to_string())
}

/// Reads lines `kwargs TAB ops` (Python literals), answers with one line of results.
const DRIVER: &str = r#"
import sys, ast
import math_core
from math_core import LatexToMathML, LatexError
def esc(s):
    return s.replace('\\','\\\\').replace('\n','\\n').replace('\t','\\t').replace('\r','\\r')
def attempt(f):
    try:
        r = f()
    except LatexError as e:
        return ['E' + str(e)]
    except Exception as e:
        return ['X' + type(e).__name__]
    if r is None:
        return ['-']
    if isinstance(r, list):
        return ['O' + x for x in r]
    return ['O' + r] if isinstance(r, str) else ['-']
for line in sys.stdin:
    kwargs, ops = line.rstrip('\n').split('\t')
    out = []
    made = []
    def make():
        made.append(LatexToMathML(**ast.literal_eval(kwargs)))
    out += attempt(make)
    if made:
        c = made[0]
        for op in ast.literal_eval(ops):
            k = op[0]
            if k == 'g':
                out += attempt(lambda: c.convert_with_global_state(op[1], displaystyle=op[2]))
            elif k == 'l':
                out += attempt(lambda: c.convert_with_local_state(op[1], displaystyle=op[2]))
            elif k == 'a':
                out += attempt(lambda: c.convert_all(op[1]))
            else:
                out += attempt(lambda: c.reset_global_state())
    sys.stdout.write('\t'.join(esc(x) for x in out) + '\n')
    sys.stdout.flush()
"#;

struct Python {
    child: Child,
    i: ChildStdin,
    o: BufReader<ChildStdout>,
}
impl Python {
    fn new() -> Python {
        let mut child = Command::new(PY)
            .arg(format!("{}/driver.py", pydir()))
            .env("PYTHONPATH", pydir())
            .env("PYTHONDONTWRITEBYTECODE", "1")
            .env("PYTHONUTF8", "1")
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("python");
        let i = child.stdin.take().unwrap();
        let o = BufReader::new(child.stdout.take().unwrap());
        Python { child, i, o }
    }
    fn ask(&mut self, kwargs: &str, ops: &str) -> Vec<String> {
        let mut line = String::new();
        let sent = writeln!(self.i, "{kwargs}\t{ops}").and_then(|_| self.i.flush());
        if sent.is_err() || self.o.read_line(&mut line).unwrap_or(0) == 0 {
            let _ = self.child.wait();
            *self = Python::new();
            return vec!["the interpreter died".into()];
        }
        line.trim_end_matches('\n').split('\t').map(unesc).collect()
    }
}
impl Drop for Python {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

// ---------------------------------------------------------------- options

#[derive(Clone, Copy)]
pub(super) struct Opt {
    /// Name of the option: two values of the same one don't go together.
    pub(super) key: &'static str,
    pub(super) toml: &'static str,
    py: Option<&'static str>,
    set: fn(&mut MathCoreConfig),
}
fn own(v: &[(&str, &str)]) -> Vec<(String, String)> {
    v.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect()
}
pub(super) fn opts() -> Vec<Opt> {
    let o = |key, toml, py, set| Opt { key, toml, py, set };
    vec![
        o("pretty-print", "'never'", Some("pretty_print='never'"), |c| c.pretty_print = PrettyPrint::Never),
        o("pretty-print", "'always'", Some("pretty_print='always'"), |c| c.pretty_print = PrettyPrint::Always),
        o("pretty-print", "'auto'", Some("pretty_print='auto'"), |c| c.pretty_print = PrettyPrint::Auto),
        o("indentation", "0", None, |c| c.indentation = Indentation::Spaces(0)),
        o("indentation", "3", None, |c| c.indentation = Indentation::Spaces(3)),
        o("indentation", "'tab'", None, |c| c.indentation = Indentation::Keyword(IndentKeyword::Tab)),
        o("xml-namespace", "true", Some("xml_namespace=True"), |c| c.xml_namespace = true),
        o("xml-namespace", "false", Some("xml_namespace=False"), |c| c.xml_namespace = false),
        o("ignore-unknown-commands", "true", Some("ignore_unknown_commands=True"), |c| c.ignore_unknown_commands = true),
        o("ignore-unknown-commands", "false", Some("ignore_unknown_commands=False"), |c| c.ignore_unknown_commands = false),
        o("annotation", "true", Some("annotation=True"), |c| c.annotation = true),
        o("annotation", "false", Some("annotation=False"), |c| c.annotation = false),
        o("allow-unreliable-rendering", "true", Some("allow_unreliable_rendering=True"), |c| c.allow_unreliable_rendering = true),
        o("allow-unreliable-rendering", "false", Some("allow_unreliable_rendering=False"), |c| c.allow_unreliable_rendering = false),
        o("global-group", "true", Some("global_group=True"), |c| c.global_group = true),
        o("global-group", "false", Some("global_group=False"), |c| c.global_group = false),
        o("unicode-substitution", "'never'", Some("unicode_substitution='never'"), |c| c.unicode_substitution = UnicodeSubstitution::Never),
        o("unicode-substitution", "'conventional'", Some("unicode_substitution='conventional'"), |c| c.unicode_substitution = UnicodeSubstitution::Conventional),
        o("max-expansions", "0", Some("max_expansions=0"), |c| c.max_expansions = MaxExpansions(0)),
        o("max-expansions", "2", Some("max_expansions=2"), |c| c.max_expansions = MaxExpansions(2)),
        o("max-expansions", "4294967295", Some("max_expansions=4294967295"), |c| c.max_expansions = MaxExpansions(u32::MAX)),
        o("id-prefix", "'é-'", Some("id_prefix='é-'"), |c| c.id_prefix = "é-".into()),
        o("id-prefix", "''", Some("id_prefix=''"), |c| c.id_prefix = String::new()),
        o("macros", "{ R = '\\mathbb{R}', 'é' = '\\acute{e}', w = '#1_{#2}' }", Some("macros={'R': '\\\\mathbb{R}', 'é': '\\\\acute{e}', 'w': '#1_{#2}'}"), |c| {
            c.macros = own(&[("R", "\\mathbb{R}"), ("é", "\\acute{e}"), ("w", "#1_{#2}")])
        }),
        o("macros", "{ q = 'y\\R', R = '{\\bf x}' }", Some("macros={'q': 'y\\\\R', 'R': '{\\\\bf x}'}"), |c| c.macros = own(&[("q", "y\\R"), ("R", "{\\bf x}")])),
        o("macros", "{ R = 'é\\frac' }", Some("macros={'R': 'é\\\\frac'}"), |c| c.macros = own(&[("R", "é\\frac")])),
        o("macros", "{ R = 'é\\nope' }", Some("macros={'R': 'é\\\\nope'}"), |c| c.macros = own(&[("R", "é\\nope")])),
        o("macros", "{ 'R!' = 'x' }", Some("macros={'R!': 'x'}"), |c| c.macros = own(&[("R!", "x")])),
        o("macros", "{}", Some("macros={}"), |c| c.macros = vec![]),
        o("css-classes", "{ unknown-command = 'uc' }", None, |c| c.css_classes.unknown_command = "uc".into()),
        o("css-classes", "{}", None, |_| ()),
    ]
}
pub(super) type Combo = Vec<Opt>;
pub(super) fn combos(all: &[Opt]) -> Vec<Combo> {
    let mut v: Vec<Combo> = vec![vec![]];
    for (i, a) in all.iter().enumerate() {
        v.push(vec![*a]);
        for b in &all[i + 1..] {
            if a.key != b.key {
                v.push(vec![*a, *b]);
            }
        }
    }
    v
}
pub(super) fn config(c: &Combo) -> MathCoreConfig {
    let mut m = MathCoreConfig::default();
    for o in c {
        (o.set)(&mut m);
    }
    m
}
fn toml(c: &Combo) -> String {
    c.iter().map(|o| format!("{} = {}\n", o.key, o.toml)).collect()
}
fn kwargs(c: &Combo, coe: bool, fancy: bool) -> Option<String> {
    // `dict(a=1)` isn't a literal, so write it as one.
    let mut s = String::from("{");
    for o in c {
        let (k, v) = o.py?.split_once('=').unwrap();
        s.push_str(&format!("'{k}': {v}, "));
    }
    if coe {
        s.push_str("'continue_on_error': True, ");
    }
    if !fancy {
        s.push_str("'fancy_error': False, ");
    }
    s.push('}');
    Some(s)
}

// ---------------------------------------------------------------- operations

#[derive(Clone, Debug)]
pub(super) enum Op {
    Global(String, bool),
    Local(String, bool),
    All(Vec<(String, bool)>),
    Reset,
}
fn ops_literal(ops: &[Op]) -> String {
    let b = |x: bool| if x { "True" } else { "False" };
    let mut s = String::from("[");
    for o in ops {
        match o {
            Op::Global(l, d) => s.push_str(&format!("('g', {}, {}), ", json_str(l), b(*d))),
            Op::Local(l, d) => s.push_str(&format!("('l', {}, {}), ", json_str(l), b(*d))),
            Op::All(v) => s.push_str(&format!("('a', [{}]), ", v.iter().map(|(l, d)| format!("({}, {})", json_str(l), b(*d))).collect::<Vec<_>>().join(", "))),
            Op::Reset => s.push_str("('r',), "),
        }
    }
    s.push(']');
    s
}
pub(super) fn disp(block: bool) -> MathDisplay {
    if block { MathDisplay::Block } else { MathDisplay::Inline }
}
fn report(e: &LatexError, name: &str, input: &str) -> String {
    let mut buf = Vec::new();
    e.to_report(name, true).write((name, ariadne::Source::from(input)), &mut buf).unwrap();
    String::from_utf8(buf).unwrap()
}
fn message(e: &LatexError, input: &str) -> String {
    let mut s = String::new();
    e.to_message(&mut s, input);
    s
}
/// What the Python binding has to answer.
fn python_wants(cfg: MathCoreConfig, ops: &[Op], coe: bool, fancy: bool) -> Vec<String> {
    let mut c = match LatexToMathML::new(cfg) {
        Ok(c) => c,
        Err((e, i, src)) => {
            return vec![if fancy { format!("E\n{}", report(&e, &format!("macro{i}"), &src)) } else { format!("Emacro{i}:{}", message(&e, &src)) }];
        }
    };
    let mut v = vec!["-".to_string()];
    let one = |r: Result<ConvertResult, Box<LatexError>>, l: &str, b: bool, i: Option<usize>| -> Result<String, String> {
        match r {
            Ok(r) => Ok(r.mathml),
            Err(e) if coe => Ok(e.to_html(l, disp(b), None)),
            Err(e) => {
                let name = i.map_or("input".to_string(), |i| format!("input{i}"));
                Err(if fancy { format!("\n{}", report(&e, &name, l)) } else { format!("{}{}", if i.is_some() { format!("{name}:") } else { String::new() }, message(&e, l)) })
            }
        }
    };
    let tag = |r: Result<String, String>| match r {
        Ok(s) => format!("O{s}"),
        Err(s) => format!("E{s}"),
    };
    for o in ops {
        match o {
            Op::Global(l, b) => {
                let r = c.convert_with_global_state(l, disp(*b));
                v.push(tag(one(r, l, *b, None)));
            }
            Op::Local(l, b) => v.push(tag(one(c.convert_with_local_state(l, disp(*b)), l, *b, None))),
            Op::All(s) => {
                let inputs: Vec<(&str, MathDisplay)> = s.iter().map(|(l, b)| (l.as_str(), disp(*b))).collect();
                let r: Vec<Result<String, String>> = c.convert_all(&inputs).into_iter().enumerate().map(|(i, r)| one(r, &s[i].0, s[i].1, Some(i))).collect();
                match r.iter().find(|r| r.is_err()) {
                    Some(e) => v.push(tag(e.clone())),
                    None => v.extend(r.into_iter().map(tag)),
                }
            }
            Op::Reset => {
                c.reset_global_state();
                v.push("-".into());
            }
        }
    }
    v
}

pub(super) const STATEFUL: &[&str] = &[
    "\\newcommand\\q{x}\\q",
    "\\q",
    "\\begin{align}a\\label{l}\\end{align}",
    "\\eqref{l}",
    "\\gdef\\R#1{[#1]}\\R y",
    "\\R\\R z\\q",
    "é\\nope{x}",
    "é\u{1F600}\\frac",
];

pub(super) fn op_alphabet() -> Vec<Op> {
    let mut v: Vec<Op> = Vec::new();
    for (i, s) in STATEFUL.iter().enumerate() {
        v.push(Op::Global(s.to_string(), i % 2 == 0));
    }
    for (s, b) in [(STATEFUL[0], false), (STATEFUL[2], true), (STATEFUL[3], true), (STATEFUL[5], false), (STATEFUL[6], true), ("", false)] {
        v.push(Op::Local(s.into(), b));
    }
    v.push(Op::All(vec![]));
    v.push(Op::All(vec![(STATEFUL[3].into(), false), (STATEFUL[2].into(), true), (STATEFUL[5].into(), false)]));
    v.push(Op::All(vec![("x".into(), false), (STATEFUL[7].into(), true), (STATEFUL[6].into(), false)]));
    v.push(Op::Reset);
    v
}

fn c26(ctx: &mut Ctx) {
    let s = Scratch::new("c26");
    let mut py: Option<Python> = None;
    let all = opts();
    let combos = combos(&all);
    python(ctx, &mut py, &combos);
    cli_documents(ctx, &s, &combos);
    cli_formulas(ctx, &s);
    vocabulary(ctx, &s, &mut py, &all);
    toml_values(ctx, &s);
    python_values(ctx, &mut py);
    for f in ["/repo/docs/mathcore.toml", "/repo/mathcore.toml"] {
        if Path::new(f).exists() && ctx.mine() {
            ctx.begin(f);
            let r = run(&s.fresh("d"), &["-c", f, "-f", "x"], None);
            ctx.class("documented configuration");
            ctx.check(r.code == 0, f, || format!("the documented configuration file is rejected: {}", r.show()));
        }
    }
}

pub(super) fn show(c: &Combo) -> String {
    format!("[{}]", c.iter().map(|o| format!("{} = {}", o.key, o.toml)).collect::<Vec<_>>().join(", "))
}
fn compare(ctx: &mut Ctx, key: &str, got: Vec<String>, want: Vec<String>) {
    for g in &got {
        ctx.outcome(g);
    }
    ctx.check(got == want, key, || {
        let i = (0..got.len().max(want.len())).find(|i| got.get(*i) != want.get(*i)).unwrap();
        format!("result {i} is {:?}\n   instead of {:?}", got.get(i), want.get(i))
    });
}

/// Sequences of operations through the Python binding.
fn python(ctx: &mut Ctx, py: &mut Option<Python>, combos: &[Combo]) {
    let alphabet = op_alphabet();
    for c in combos {
        let len = if c.len() < 2 { ctx.pick(2, 3) } else { ctx.pick(1, 2) };
        let mut seqs: Vec<Vec<Op>> = vec![vec![]];
        let mut last = seqs.clone();
        for _ in 0..len {
            let mut next = Vec::new();
            for p in &last {
                for o in &alphabet {
                    let mut q = p.clone();
                    q.push(o.clone());
                    next.push(q);
                }
            }
            seqs.extend(next.iter().cloned());
            last = next;
        }
        for q in &seqs {
            for (coe, fancy) in [(false, true), (false, false), (true, true)] {
                if !ctx.mine() {
                    continue;
                }
                let Some(k) = kwargs(c, coe, fancy) else { continue };
                let key = format!("python {k} {q:?}");
                ctx.begin(&key);
                let got = py.get_or_insert_with(Python::new).ask(&k, &ops_literal(q));
                ctx.class("python operations");
                compare(ctx, &key, got, python_wants(config(c), q, coe, fancy));
            }
        }
    }
}

/// Sequences of formulas in a document through the command-line tool.
fn cli_documents(ctx: &mut Ctx, s: &Scratch, combos: &[Combo]) {
    let mut docs: Vec<Vec<usize>> = Vec::new();
    for i in 0..STATEFUL.len() {
        docs.push(vec![i]);
        for j in 0..STATEFUL.len() {
            docs.push(vec![i, j]);
        }
    }
    for c in combos {
        for d in &docs {
            if c.len() == 2 && d.len() == 2 && ctx.quick() {
                continue;
            }
            for coe in [false, true] {
                if !ctx.mine() {
                    continue;
                }
                let doc: String = d.iter().map(|i| format!("t${}$\n$${}$$", STATEFUL[*i], STATEFUL[*i])).collect();
                let key = format!("cli {} {}{doc}", show(c), if coe { "continue " } else { "" });
                ctx.begin(&key);
                ctx.class("documents");
                let dir = s.fresh("d");
                fs::write(dir.join("mathcore.toml"), toml(c)).unwrap();
                fs::write(dir.join("d.html"), &doc).unwrap();
                let args: &[&str] = if coe { &["--continue-on-error", "d.html"] } else { &["d.html"] };
                let r = run(&dir, args, None);
                ctx.outcome(&r.text());
                let want = match LatexToMathML::new(config(c)) {
                    Err((e, i, src)) => Ran { code: 2, out: vec![], err: report(&e, &format!("macro {i}"), &src) },
                    Ok(mut l) => {
                        let mut out = String::new();
                        let mut fail = None;
                        'doc: for i in d {
                            for block in [false, true] {
                                out.push_str(if block { "\n" } else { "t" });
                                match l.convert_with_global_state(STATEFUL[*i], disp(block)) {
                                    Ok(r) => out.push_str(&r.mathml),
                                    Err(e) if coe => out.push_str(&e.to_html(STATEFUL[*i], disp(block), None)),
                                    Err(e) => {
                                        fail = Some(report(&e, "<input>", STATEFUL[*i]));
                                        break 'doc;
                                    }
                                }
                            }
                        }
                        match fail {
                            Some(f) => Ran { code: 2, out: vec![], err: f },
                            None => Ran { code: 0, out: out.into_bytes(), err: String::new() },
                        }
                    }
                };
                agree(ctx, &key, &r, &want);
                // The same document on standard input.
                let args: &[&str] = if coe { &["--continue-on-error", "-"] } else { &["-"] };
                let r = run(&dir, args, Some(doc.as_bytes()));
                let mut want = want;
                if want.code == 0 {
                    want.out.push(b'\n');
                }
                agree(ctx, &key.replacen("cli", "cli stdin", 1), &r, &want);
            }
        }
    }
}
/// Order of the macros in a table is up to the TOML parser, so the number of a bad one isn't compared.
fn agree(ctx: &mut Ctx, key: &str, got: &Ran, want: &Ran) {
    let ok = got.code == want.code && got.out == want.out && (if want.err.is_empty() { got.err.is_empty() } else { plain(&got.err).contains(plain(&want.err).lines().next().unwrap()) && got.err.contains(want.err.lines().last().unwrap()) });
    ctx.check(ok, key, || format!("the tool gives {}\n   instead of {}", got.show(), want.show()));
}
pub fn plain(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\u{1b}' {
            it.by_ref().find(|c| *c == 'm');
        } else {
            o.push(c);
        }
    }
    o
}

/// One formula, as an argument or on standard input.
fn cli_formulas(ctx: &mut Ctx, s: &Scratch) {
    let mut fs_: Vec<&str> = STATEFUL.to_vec();
    fs_.extend(["", " ", "x", "-", "$x$", "a &lt; b", "\\text{&amp;}", "a\nb", "% c", "\\text{a\nb}\n", "--", "\u{4e2d}"]);
    for f in fs_ {
        for flag in ["", "-i", "--inline", "-b", "--block"] {
            for input in ["-f", "--formula", "stdin"] {
                if !ctx.mine() {
                    continue;
                }
                let key = format!("mathcore {input} {flag} {f:?}");
                ctx.begin(&key);
                ctx.class("single formulas");
                let dir = s.fresh("d");
                let mut args: Vec<String> = Vec::new();
                if !flag.is_empty() {
                    args.push(flag.into());
                }
                if input == "-f" {
                    args.push(format!("-f{f}"));
                    if f.is_empty() {
                        continue;
                    }
                } else if input == "--formula" {
                    args.push(format!("--formula={f}"));
                }
                let r = run(&dir, &args, (input == "stdin").then_some(f.as_bytes()));
                ctx.outcome(&r.text());
                let l = LatexToMathML::new(MathCoreConfig::default()).ok().unwrap();
                let want = match l.convert_with_local_state(f, disp(flag.contains("-b"))) {
                    Ok(m) => Ran { code: 0, out: format!("{}\n", m.mathml).into_bytes(), err: String::new() },
                    Err(e) => Ran { code: 2, out: vec![], err: report(&e, "<input>", f) },
                };
                agree(ctx, &key, &r, &want);
            }
        }
    }
}

/// The whole vocabulary under every option value.
fn vocabulary(ctx: &mut Ctx, s: &Scratch, py: &mut Option<Python>, all: &[Opt]) {
    let mut snippets: Vec<String> = Vec::new();
    for c in vocab::full() {
        if c.contains('$') {
            continue;
        }
        for suffix in ["", "{a}", "{a}{b}", "{1em}{b}", "[c]{a}{b}{d}", "_x^y"] {
            snippets.push(format!("{c}{suffix}"));
            if ctx.quick() && suffix == "{a}{b}" {
                break;
            }
        }
    }
    let mut combos: Vec<Combo> = vec![vec![]];
    combos.extend(all.iter().map(|o| vec![*o]));
    for c in &combos {
        for chunk in snippets.chunks(256) {
            if !ctx.mine() {
                continue;
            }
            let Ok(mut l) = LatexToMathML::new(config(c)) else { continue };
            let key = format!("vocabulary {} {} …", show(c), chunk[0]);
            ctx.begin(&key);
            ctx.class("vocabulary");
            // Definitions and numbers accumulate on all sides alike.
            let dir = s.fresh("d");
            fs::write(dir.join("mathcore.toml"), toml(c)).unwrap();
            fs::write(dir.join("d.html"), chunk.iter().map(|x| format!("¤{x}¤")).collect::<Vec<_>>().join("\n=====\n")).unwrap();
            let r = run(&dir, &["--continue-on-error", "--inline-del", "¤", "--block-del", "¤¤", "d.html"], None);
            let text = r.text();
            let got: Vec<&str> = text.split("\n=====\n").collect();
            if r.code != 0 || got.len() != chunk.len() {
                ctx.violation(&key, &key, &format!("{} parts for {} formulas: {}", got.len(), chunk.len(), r.show().chars().take(400).collect::<String>()));
                continue;
            }
            for (x, g) in chunk.iter().zip(got) {
                ctx.evals += 1;
                let x = decode(x);
                let w = match l.convert_with_global_state(&x, MathDisplay::Inline) {
                    Ok(m) => m.mathml,
                    Err(e) => e.to_html(&x, MathDisplay::Inline, None),
                };
                ctx.check(g == w, &format!("vocabulary {} {x}", show(c)), || format!("the tool gives {g:?}\n   instead of {w:?}"));
            }
            let Some(k) = kwargs(c, true, true) else { continue };
            let ops: Vec<Op> = chunk.iter().map(|x| Op::Global(x.clone(), true)).collect();
            let got = py.get_or_insert_with(Python::new).ask(&k, &ops_literal(&ops));
            let want = python_wants(config(c), &ops, true, true);
            if got.len() != want.len() {
                compare(ctx, &key, got, want);
                continue;
            }
            for (i, (g, w)) in got.iter().zip(&want).enumerate() {
                ctx.evals += 1;
                ctx.check(g == w, &format!("python vocabulary {} {:?}", show(c), ops.get(i.wrapping_sub(1))), || format!("the binding gives {g:?}\n   instead of {w:?}"));
            }
        }
    }
}

/// Every key with values of every type.
fn toml_values(ctx: &mut Ctx, s: &Scratch) {
    const VALUES: &[&str] = &[
        "true", "false", "0", "1", "7", "1000", "-1", "4294967295", "4294967296", "1.5", "2.0", "''", "'x'", "'never'", "'always'", "'auto'", "'conventional'", "'tab'", "'Tab'", "'Never'", "'true'", "'4'", "[]", "['x']", "{}", "{ unknown-command = 'k' }", "{ R = 1 }",
    ];
    const KEYS: &[&str] = &["pretty-print", "xml-namespace", "ignore-unknown-commands", "annotation", "allow-unreliable-rendering", "global-group", "unicode-substitution", "max-expansions", "id-prefix", "indentation", "macros", "css-classes"];
    const PROBE: &str = "\\begin{align}\\newcommand\\q{x}\\q\\q\\q\\sideset{_a}{}\\sum\\coloneqq\\label{x}\\end{align}";
    for k in KEYS {
        for v in VALUES {
            if !ctx.mine() {
                continue;
            }
            let mut c = MathCoreConfig::default();
            let bool_ = match *v {
                "true" => Some(true),
                "false" => Some(false),
                _ => None,
            };
            let int: Option<i64> = v.parse().ok();
            let text = v.strip_prefix('\'').and_then(|x| x.strip_suffix('\''));
            let ok = match *k {
                "pretty-print" => match text {
                    Some("never") => true,
                    Some("always") => { c.pretty_print = PrettyPrint::Always; true }
                    Some("auto") => { c.pretty_print = PrettyPrint::Auto; true }
                    _ => false,
                },
                "unicode-substitution" => match text {
                    Some("conventional") => true,
                    Some("never") => { c.unicode_substitution = UnicodeSubstitution::Never; true }
                    _ => false,
                },
                "xml-namespace" => bool_.map(|b| c.xml_namespace = b).is_some(),
                "ignore-unknown-commands" => bool_.map(|b| c.ignore_unknown_commands = b).is_some(),
                "annotation" => bool_.map(|b| c.annotation = b).is_some(),
                "allow-unreliable-rendering" => bool_.map(|b| c.allow_unreliable_rendering = b).is_some(),
                "global-group" => bool_.map(|b| c.global_group = b).is_some(),
                "max-expansions" => int.and_then(|i| u32::try_from(i).ok()).map(|i| c.max_expansions = MaxExpansions(i)).is_some(),
                "id-prefix" => text.map(|t| c.id_prefix = t.into()).is_some(),
                "indentation" => {
                    if text == Some("tab") {
                        c.indentation = Indentation::Keyword(IndentKeyword::Tab);
                        true
                    } else {
                        int.and_then(|i| usize::try_from(i).ok()).map(|i| c.indentation = Indentation::Spaces(i)).is_some()
                    }
                }
                "macros" => *v == "{}" || { if *v == "{ unknown-command = 'k' }" { continue } false },
                _ => match *v {
                    // serde lets an array stand for a table
                    "[]" | "['x']" => continue,
                    "{}" => true,
                    "{ unknown-command = 'k' }" => { c.css_classes.unknown_command = "k".into(); true }
                    // unknown keys are ignored
                    "{ R = 1 }" => true,
                    _ => false,
                },
            };
            // Big indentations only cost memory.
            if *k == "indentation" && int.is_some_and(|i| i > 1000) {
                continue;
            }
            let file = format!("pretty-print = 'always'\n{k} = {v}\n");
            let file = if *k == "pretty-print" { format!("{k} = {v}\n") } else { c.pretty_print = PrettyPrint::Always; file };
            let key = format!("config {}", file.replace('\n', "; "));
            ctx.begin(&key);
            let dir = s.fresh("d");
            fs::write(dir.join("c.toml"), &file).unwrap();
            for probe in [PROBE, "\\nope"] {
                let r = run(&dir, &["-c", "c.toml", "-b", "-f", probe], None);
                ctx.outcome(&r.text());
                ctx.class(if ok { "accepted option value" } else { "rejected option value" });
                let mut c2 = config(&vec![]);
                c2.clone_from_(&c);
                let want = if !ok {
                    None
                } else {
                    let l = LatexToMathML::new(c2).ok().unwrap();
                    Some(l.convert_with_local_state(probe, MathDisplay::Block).map(|m| format!("{}\n", m.mathml)).map_err(|_| 2))
                };
                let good = match &want {
                    None => r.code == 4 && r.out.is_empty() && !r.err.is_empty(),
                    Some(Ok(w)) => r.code == 0 && r.text() == *w,
                    Some(Err(n)) => r.code == *n && r.out.is_empty(),
                };
                ctx.check(good, &key, || format!("expected {}: {}", match &want { None => "the configuration to be rejected with exit code 4".to_string(), Some(x) => format!("{x:?}") }, r.show()));
            }
        }
    }
}
trait CloneFrom {
    fn clone_from_(&mut self, o: &MathCoreConfig);
}
impl CloneFrom for MathCoreConfig {
    fn clone_from_(&mut self, o: &MathCoreConfig) {
        self.pretty_print = o.pretty_print;
        self.macros = o.macros.clone();
        self.xml_namespace = o.xml_namespace;
        self.ignore_unknown_commands = o.ignore_unknown_commands;
        self.annotation = o.annotation;
        self.allow_unreliable_rendering = o.allow_unreliable_rendering;
        self.global_group = o.global_group;
        self.unicode_substitution = o.unicode_substitution;
        self.css_classes = o.css_classes.clone();
        self.indentation = o.indentation;
        self.max_expansions = o.max_expansions;
        self.id_prefix = o.id_prefix.clone();
    }
}

/// Every argument of the Python class with values of every type.
fn python_values(ctx: &mut Ctx, py: &mut Option<Python>) {
    const VALUES: &[&str] = &["True", "False", "0", "5", "-1", "4294967296", "1.5", "None", "'x'", "'never'", "'auto'", "'conventional'", "{}", "{'R': 1}"];
    // (name, accepted values)
    const ARGS: &[(&str, &[&str])] = &[
        ("pretty_print", &["'never'", "'auto'"]),
        ("macros", &["None", "{}"]),
        ("xml_namespace", &["True", "False"]),
        ("continue_on_error", &["True", "False"]),
        ("ignore_unknown_commands", &["True", "False"]),
        ("annotation", &["True", "False"]),
        ("allow_unreliable_rendering", &["True", "False"]),
        ("global_group", &["True", "False"]),
        ("fancy_error", &["True", "False"]),
        ("unicode_substitution", &["'never'", "'conventional'"]),
        ("max_expansions", &["0", "5"]),
        ("id_prefix", &["'x'", "'never'", "'auto'", "'conventional'"]),
        ("indentation", &[]),
        ("pretty-print", &[]),
        ("displaystyle", &[]),
    ];
    for (a, ok) in ARGS {
        for v in VALUES {
            if !ctx.mine() {
                continue;
            }
            // bool is a subclass of int in Python.
            if *a == "max_expansions" && (*v == "True" || *v == "False") {
                continue;
            }
            let k = format!("{{'{a}': {v}}}");
            ctx.begin(&format!("LatexToMathML(**{k})"));
            let got = py.get_or_insert_with(Python::new).ask(&k, "[('g', 'x', False)]");
            ctx.class("python arguments");
            let good = if ok.contains(v) { got.len() == 2 && got[0] == "-" && got[1].starts_with("O<math") } else { got.len() == 1 && ["XTypeError", "XValueError", "XOverflowError"].contains(&got[0].as_str()) };
            ctx.check(good, &format!("LatexToMathML(**{k})"), || format!("{} value gives {got:?}", if ok.contains(v) { "a valid" } else { "an invalid" }));
        }
    }
    // Arguments of the conversions.
    for ops in ["[('g', 1, False)]", "[('g', 'x', 'y')]", "[('l', None, True)]", "[('a', [('x',)])]", "[('a', [('x', 1)])]", "[('a', 'x')]", "[('a', [('x', None)])]"] {
        if !ctx.mine() {
            continue;
        }
        ctx.begin(ops);
        let got = py.get_or_insert_with(Python::new).ask("{}", ops);
        ctx.class("python arguments");
        ctx.check(got == ["-", "XTypeError"] || got == ["-", "XValueError"], ops, || format!("expected an exception, got {got:?}"));
    }
}


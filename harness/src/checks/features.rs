//! C27: the features of the library don't change what it does.
use crate::engine::*;
use crate::serve::{self, Server};
use crate::vocab::*;
use std::fs;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

pub fn specs() -> Vec<Spec> {
    vec![Spec {
        id: "C27",
        level: "exploration",
        rule: "A case is one request (a formula under one of two configurations, a macro definition, or a sequence of formulas with shared state or as a batch). It is answered by the library with all features and by four builds with fewer features, each in a process of its own; all answers (output, warnings, error with offsets, message and HTML) must be equal. distinct non-trivial = distinct answers.",
        bounds: |t| format!("feature sets {{}}, {{std}}, {{serde}}, {{ariadne}} against {{std, serde, ariadne}}; {}; sequences of at most {} stateful snippets; every number of expansions up to 1009, nesting up to 269, each of 14 option settings with every vocabulary token in 3 contexts, every character up to U+{}", sizes(t).describe(), if t == Tier::Quick { 3 } else { 4 }, if t == Tier::Quick { "2FFF" } else { "2FFFF" }),
        assumptions: &[],
        run: c27,
        workers: 8,
        prepare: Some(prepare),
    }]
}
fn sizes(t: Tier) -> Sizes {
    if t == Tier::Quick {
        Sizes { single_ctx: 999, pair_ctx: 0, mid_pair_ctx: 8, mid_len: 2, small_len: 2, tiny_len: 3, scale: 300 }
    } else {
        Sizes { single_ctx: 999, pair_ctx: 0, mid_pair_ctx: 60, mid_len: 2, small_len: 3, tiny_len: 4, scale: 1001 }
    }
}
const SETS: &[&str] = &["", "std", "serde", "ariadne"];
fn exe(set: &str) -> String {
    format!("{VERIF}/harness/target/mcn-{set}")
}
fn prepare(_: Tier) -> Result<(), String> {
    let target = format!("{VERIF}/harness/target/features");
    for set in SETS {
        let out = Command::new("cargo")
            .args(["build", "--release", "--offline", "--quiet", "--manifest-path"])
            .arg(format!("{VERIF}/harness/features/Cargo.toml"))
            .args(["--features", set, "--target-dir", &target])
            .env_remove("CARGO_TARGET_DIR")
            .output()
            .map_err(|e| e.to_string())?;
        if !out.status.success() {
            return Err(String::from_utf8_lossy(&out.stderr).into_owned());
        }
        let _ = fs::remove_file(exe(set));
        fs::copy(format!("{target}/release/mcn"), exe(set)).map_err(|e| e.to_string())?;
    }
    Ok(())
}

struct Other {
    child: Child,
    i: ChildStdin,
    o: BufReader<ChildStdout>,
}
impl Other {
    fn new(set: &str) -> Other {
        let mut child = Command::new(exe(set)).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("mcn");
        let i = child.stdin.take().unwrap();
        let o = BufReader::new(child.stdout.take().unwrap());
        Other { child, i, o }
    }
    fn send(&mut self, req: &str) {
        let _ = writeln!(self.i, "{req}").and_then(|_| self.i.flush());
    }
    fn recv(&mut self) -> Option<String> {
        let mut s = String::new();
        match self.o.read_line(&mut s) {
            Ok(n) if n > 0 => Some(serve::unesc(s.trim_end_matches('\n'))),
            _ => None,
        }
    }
}
impl Drop for Other {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

fn ask(ctx: &mut Ctx, me: &mut Server, others: &mut [Other], kind: &str, latex: &str) {
    let req = format!("{kind}{latex}");
    let line = serve::esc(&req);
    for o in others.iter_mut() {
        o.send(&line);
    }
    let want = me.answer(&req);
    ctx.outcome(&want);
    for (n, o) in others.iter_mut().enumerate() {
        let got = o.recv();
        if got.is_none() {
            *o = Other::new(SETS[n]);
        }
        if got.as_deref() != Some(want.as_str()) {
            ctx.violation(&req, &req, &format!("with the features {{{}}}: {got:?}\n   with all features: {want:?}", SETS[n]));
        }
    }
}

const STATEFUL: &[&str] = &[
    "\\newcommand\\q{x}\\q", "\\q", "\\begin{align}a\\label{l}\\end{align}", "\\eqref{l}", "\\gdef\\g#1{[#1]}\\g y", "\\g z", "\\begin{gather}a\\\\b\\tag{T é}\\label{m n}\\end{gather}\\eqref{m n}", "\\nope", "\\frac", "\\def\\p{\\p\\p}\\p", "\\R\\w ab",
    "\\let\\e=\\q\\e",
];
const NUMBERS: &[&str] = &["1em", "0.5pt", "-1.25cm", "12345678901234567890pt", "0.000001mm", "1e3pt", ".5in", "99999999999999999999999999pt", "1.", "3.0000000000000001ex", "-0pt", "0.1sp"];

fn c27(ctx: &mut Ctx) {
    let mut me = Server::new();
    // In a process of its own kind, so that counting the cases starts none.
    let mut others: Vec<Other> = Vec::new();
    let ready = |others: &mut Vec<Other>| {
        if others.is_empty() {
            others.extend(SETS.iter().map(|s| Other::new(s)));
        }
    };
    let len = ctx.pick(3, 4);
    let mut seqs: Vec<Vec<&str>> = vec![vec![]];
    for _ in 0..len {
        let mut next = Vec::new();
        for p in &seqs {
            for s in STATEFUL {
                let mut q = p.clone();
                q.push(*s);
                next.push(q);
            }
        }
        for q in &next {
            for kind in ["g", "a"] {
                if ctx.mine() {
                    ready(&mut others);
                    let l = q.join("\u{1f}");
                    ctx.begin(&l);
                    ctx.class(if kind == "g" { "sequences" } else { "batches" });
                    ask(ctx, &mut me, &mut others, kind, &l);
                }
            }
        }
        seqs = next;
    }
    for n in NUMBERS {
        for c in ["\\hspace{□}", "\\rule{□}{1em}", "\\raisebox{□}{x}", "\\begin{array}{c}a\\\\[□]b\\end{array}", "\\kern□x", "\\genfrac(){□}{}ab", "\\color[rgb]{□,0,1}x", "\\color[RGB]{□,0,255}x"] {
            for n in [n.to_string(), n.trim_end_matches(|c: char| c.is_alphabetic()).to_string()] {
                if ctx.mine() {
                    ready(&mut others);
                    let l = c.replace('□', &n);
                    ctx.begin(&l);
                    ctx.class("numbers");
                    ask(ctx, &mut me, &mut others, "l", &l);
                }
            }
        }
    }
    for a in full() {
        for b in ["", "{x}", "#1", "{", "}"] {
            if ctx.mine() {
                ready(&mut others);
                let l = format!("{a}{b}");
                ctx.begin(&l);
                ctx.class("definitions");
                ask(ctx, &mut me, &mut others, "c", &l);
            }
        }
    }
    // Limits and growth: every number of expansions up to beyond the default limit, deep nesting and long input.
    let mut long: Vec<String> = Vec::new();
    for n in 0..1010 {
        long.push(format!("\\def\\q{{x}}{}", "\\q".repeat(n)));
    }
    for n in (0..20).chain(240..270) {
        for (o, m, c) in [("{", "x", "}"), ("\\sqrt{", "x", "}"), ("\\left(", "x", "\\right)"), ("\\begin{matrix}", "x", "\\end{matrix}"), ("x^{", "y", "}")] {
            long.push(format!("{}{m}{}", o.repeat(n), c.repeat(n)));
        }
    }
    for n in 0..30 {
        long.push(format!("\\def\\q#1{{#1#1}}{}x{}", "\\q{".repeat(n), "}".repeat(n)));
        long.push(format!("\\def\\q{{\\q{}}}\\q", "x".repeat(n)));
        long.push("x_1^2+".repeat(n * 40));
        long.push(format!("\\begin{{array}}{{{}}}{}\\end{{array}}", "c".repeat(n), "a&".repeat(n)));
    }
    for s in &long {
        if ctx.mine() {
            ready(&mut others);
            ctx.begin(s);
            ctx.class("limits");
            ask(ctx, &mut me, &mut others, "l", s);
        }
    }
    for i in 0..serve::OPTIONS {
        for a in full() {
            for c in ["□", "□{x}{y}", "\\begin{align}□\\label{l}\\\\ \\eqref{l}\\nope\\q z\\end{align}"] {
                if ctx.mine() {
                    ready(&mut others);
                    let l = format!("{}{}", (b'a' + i as u8) as char, c.replace('□', &a));
                    ctx.begin(&l);
                    ctx.class("options");
                    ask(ctx, &mut me, &mut others, "o", &l);
                }
            }
        }
    }
    for u in 0x80..if ctx.quick() { 0x3000 } else { 0x30000u32 } {
        let Some(ch) = char::from_u32(u) else { continue };
        if ctx.mine() {
            ready(&mut others);
            let l = format!("{ch}+\\text{{{ch}}}");
            ctx.begin(&l);
            ctx.class("characters");
            ask(ctx, &mut me, &mut others, "l", &l);
        }
    }
    let sz = sizes(ctx.tier);
    universe(ctx, sz, &mut |ctx, s| {
        ready(&mut others);
        ctx.begin(s);
        ctx.class("formulas");
        ask(ctx, &mut me, &mut others, "l", s);
        ask(ctx, &mut me, &mut others, "r", s);
    });
}

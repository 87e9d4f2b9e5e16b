//! C18, C19, C21: the command-line tool, driven as a black box through its binary.
use crate::engine::*;
use math_core::*;
use std::fs;
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

pub fn specs() -> Vec<Spec> {
    vec![
        Spec {
            id: "C18",
            level: "exploration",
            rule: "A case is a block of documents for one delimiter configuration. Every document is converted by the real binary and compared byte for byte with an independent scanner that has no windows and no finders; documents for which it predicts an error are run one by one and must fail with the predicted message. distinct non-trivial = distinct outputs.",
            bounds: |t| if t == Tier::Quick {
                "all sequences of at most 4 fragments (delimiters, text, multi-byte text, backslash, newline) for 6 delimiter configurations, with and without --ignore-escaped-delim and --continue-on-error; sequences of at most 2 fragments at every offset around 1024 and 2048 bytes, in front of and inside formulas; 16 special characters in 12 documents; 10 kinds of documents with up to 300 lines, characters, or formulas".into()
            } else {
                "all sequences of at most 5 fragments (delimiters, text, multi-byte text, backslash, newline) for 6 delimiter configurations, with and without --ignore-escaped-delim and --continue-on-error; sequences of at most 3 fragments at every offset around 1024, 2048 and 4096 bytes, in front of and inside formulas; 16 special characters in 12 documents; 10 kinds of documents with up to 1001 lines, characters, or formulas".into()
            },
            assumptions: &["formulas are converted like by the library (C26 relates both)", "empty delimiters are not used"],
            run: c18,
            workers: 8,
            prepare: Some(prepare),
        },
        Spec {
            id: "C19",
            level: "exploration",
            rule: "A case is a block of formula texts and document texts made of entity fragments. The real binary converts them, and each formula must give what the library gives for the text decoded by an independent left-to-right decoder; text outside of formulas must come out unchanged. distinct non-trivial = distinct outputs.",
            bounds: |t| format!("all sequences of at most {} of 24 fragments (entities, their parts, ampersands, text) inside \\text, in a matrix, plain in a formula and outside of formulas; fragments repeated up to 300 times", if t == Tier::Quick { 4 } else { 5 }),
            assumptions: &["formulas are converted like by the library (C26 relates both)"],
            run: c19,
            workers: 8,
            prepare: Some(prepare),
        },
        Spec {
            id: "C21",
            level: "fault_enumeration",
            rule: "A case is a directory tree and a command line. The real binary runs in a scratch directory; every file of the tree is compared before and after, together with the exit code and the output. distinct non-trivial = distinct (exit code, stderr, resulting tree).",
            bounds: |t| format!("all trees of at most {} files out of 10 names x 9 contents, with all option combinations; all names x contents for the single-file modes; configuration files; a write failure after every number of bytes", if t == Tier::Quick { 2 } else { 3 }),
            assumptions: &["no symbolic links; no other process changes the tree meanwhile"],
            run: c21,
            workers: 8,
            prepare: Some(prepare),
        },
    ]
}

// ---------------------------------------------------------------- the binary

pub fn bin() -> String {
    format!("{VERIF}/harness/target/cli/debug/mathcore")
}

/// Build the binary from /repo's working tree (a no-op when it is up to date).
pub fn prepare(_: Tier) -> Result<(), String> {
    let out = Command::new("cargo")
        .args(["build", "--offline", "--locked", "--quiet", "--manifest-path", "/repo/Cargo.toml", "-p", "math-core-cli", "--target-dir"])
        .arg(format!("{VERIF}/harness/target/cli"))
        .env_remove("CARGO_TARGET_DIR")
        .output()
        .map_err(|e| e.to_string())?;
    if out.status.success() { Ok(()) } else { Err(String::from_utf8_lossy(&out.stderr).into_owned()) }
}

pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new(what: &str) -> Scratch {
        let p = std::env::temp_dir().join(format!("mc-{what}-{}", std::process::id()));
        let _ = fs::remove_dir_all(&p);
        fs::create_dir_all(&p).unwrap();
        Scratch(p)
    }
    /// An empty directory of the given name in the scratch directory.
    pub fn fresh(&self, name: &str) -> PathBuf {
        let p = self.0.join(name);
        let _ = fs::remove_dir_all(&p);
        fs::create_dir_all(&p).unwrap();
        p
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}

#[derive(Debug, PartialEq, Eq, Clone)]
pub struct Ran {
    pub code: i32,
    pub out: Vec<u8>,
    pub err: String,
}
impl Ran {
    pub fn text(&self) -> String {
        String::from_utf8_lossy(&self.out).into_owned()
    }
    pub fn show(&self) -> String {
        format!("exit {} stdout {:?} stderr {:?}", self.code, self.text(), self.err)
    }
}
pub fn run<S: AsRef<std::ffi::OsStr>>(dir: &Path, args: &[S], stdin: Option<&[u8]>) -> Ran {
    let mut c = Command::new(bin());
    c.args(args).current_dir(dir).stdout(Stdio::piped()).stderr(Stdio::piped());
    c.stdin(if stdin.is_some() { Stdio::piped() } else { Stdio::null() });
    c.env("RUST_BACKTRACE", "0");
    let mut ch = c.spawn().expect("mathcore binary");
    if let Some(s) = stdin {
        let mut i = ch.stdin.take().unwrap();
        let _ = i.write_all(s);
    }
    let o = ch.wait_with_output().unwrap();
    use std::os::unix::process::ExitStatusExt;
    Ran { code: o.status.code().unwrap_or_else(|| -o.status.signal().unwrap_or(99)), out: o.stdout, err: String::from_utf8_lossy(&o.stderr).into_owned() }
}

// ---------------------------------------------------------------- the reference scanner

#[derive(Clone, Debug)]
pub struct Delims {
    pub name: &'static str,
    pub args: Vec<&'static str>,
    pub inl: (&'static str, &'static str),
    pub blk: (&'static str, &'static str),
}
fn delims() -> Vec<Delims> {
    let d = |name, args: &[&'static str], i0, i1, b0, b1| Delims { name, args: args.to_vec(), inl: (i0, i1), blk: (b0, b1) };
    vec![
        d("$ $$", &[], "$", "$", "$$", "$$"),
        d("\\( \\[", &["--inline-open", "\\(", "--inline-close", "\\)", "--block-open", "\\[", "--block-close", "\\]"], "\\(", "\\)", "\\[", "\\]"),
        d("(( (((", &["--inline-open", "((", "--inline-close", "))", "--block-open", "(((", "--block-close", ")))"], "((", "))", "(((", ")))"),
        d("<i> <b>", &["--inline-open", "<i>", "--inline-close", "</m>", "--block-open", "<b>", "--block-close", "</m>"], "<i>", "</m>", "<b>", "</m>"),
        d("¤ ¤¤", &["--inline-del", "¤", "--block-del", "¤¤"], "¤", "¤", "¤¤", "¤¤"),
        d("$ $[", &["--block-open", "$[", "--block-close", "]$"], "$", "$", "$[", "]$"),
    ]
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Piece<'a> {
    Text(&'a str),
    Formula(&'a str, bool), // block?
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Bad {
    Unclosed(usize),
    Nested(usize),
    Mismatch(usize, usize),
}

/// First delimiter at or after `from`: (position, is block). A block delimiter wins at the same
/// place. A backslash directly in front (but not in front of `from`) escapes.
fn first(doc: &str, from: usize, to: usize, inl: &str, blk: &str, esc: bool) -> Option<(usize, bool)> {
    let b = doc.as_bytes();
    for i in from..to {
        if esc && i > from && b[i - 1] == b'\\' {
            continue;
        }
        if b[i..to].starts_with(blk.as_bytes()) {
            return Some((i, true));
        }
        if b[i..to].starts_with(inl.as_bytes()) {
            return Some((i, false));
        }
    }
    None
}
/// The pieces up to the first delimiter error, and that error.
pub fn scan<'a>(doc: &'a str, d: &Delims, esc: bool) -> (Vec<Piece<'a>>, Option<Bad>) {
    let mut v = Vec::new();
    let mut pos = 0;
    loop {
        let Some((open, block)) = first(doc, pos, doc.len(), d.inl.0, d.blk.0, esc) else {
            v.push(Piece::Text(&doc[pos..]));
            return (v, None);
        };
        v.push(Piece::Text(&doc[pos..open]));
        let start = open + if block { d.blk.0.len() } else { d.inl.0.len() };
        let Some((close, cblock)) = first(doc, start, doc.len(), d.inl.1, d.blk.1, esc) else {
            return (v, Some(Bad::Unclosed(open)));
        };
        let same = d.inl.1 == d.blk.1;
        if !same && cblock != block {
            return (v, Some(Bad::Mismatch(open, close)));
        }
        if let Some((n, _)) = first(doc, start, close, d.inl.0, d.blk.0, esc) {
            return (v, Some(Bad::Nested(n)));
        }
        v.push(Piece::Formula(&doc[start..close], block));
        pos = close + if cblock { d.blk.1.len() } else { d.inl.1.len() };
    }
}
fn line_col(doc: &str, at: usize) -> (usize, usize) {
    let before = &doc[..at];
    (before.matches('\n').count() + 1, before[before.rfind('\n').map_or(0, |i| i + 1)..].chars().count() + 1)
}
fn delim_message(doc: &str, b: &Bad) -> String {
    match b {
        Bad::Unclosed(p) => {
            let (l, c) = line_col(doc, *p);
            format!("Unclosed delimiter on line {l}, column {c}.")
        }
        Bad::Nested(p) => {
            let (l, c) = line_col(doc, *p);
            format!("Nested delimiters are not allowed (on line {l}, column {c}).")
        }
        Bad::Mismatch(p, q) => {
            let ((l, c), (m, d)) = (line_col(doc, *p), line_col(doc, *q));
            format!("Mismatched delimiters: opening at line {l}, column {c}, closing at line {m}, column {d}.")
        }
    }
}

/// What the tool must do with a document.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Want {
    Text(String),
    /// Part of the message on stderr.
    Fail(String),
}
pub struct Oracle {
    conv: LatexToMathML,
    memo: std::collections::HashMap<(String, bool), Result<String, (String, String)>>,
}
impl Oracle {
    pub fn new() -> Oracle {
        Oracle { conv: LatexToMathML::new(MathCoreConfig::default()).ok().unwrap(), memo: Default::default() }
    }
    /// The MathML, or (HTML of the error, report of the error).
    pub fn formula(&mut self, latex: &str, block: bool) -> Result<String, (String, String)> {
        if let Some(r) = self.memo.get(&(latex.to_string(), block)) {
            return r.clone();
        }
        let d = if block { MathDisplay::Block } else { MathDisplay::Inline };
        let r = match self.conv.convert_with_local_state(latex, d) {
            Ok(r) => Ok(r.mathml),
            Err(e) => Err((e.to_html(latex, d, None), e.error_message())),
        };
        if self.memo.len() < 200_000 && latex.len() < 100 {
            self.memo.insert((latex.to_string(), block), r.clone());
        }
        r
    }
    pub fn want(&mut self, doc: &str, d: &Delims, esc: bool, cont: bool) -> Want {
        let (pieces, bad) = scan(doc, d, esc);
        let mut out = String::new();
        for p in pieces {
            match p {
                Piece::Text(t) => out.push_str(t),
                Piece::Formula(f, block) => match self.formula(&decode(f), block) {
                    Ok(m) => out.push_str(&m),
                    Err((html, _)) if cont => out.push_str(&html),
                    Err((_, msg)) => return Want::Fail(msg),
                },
            }
        }
        match bad {
            Some(b) => Want::Fail(delim_message(doc, &b)),
            None => Want::Text(out),
        }
    }
}

/// The ten documented entities.
const ENTITIES: &[(&str, char)] = &[("quot", '"'), ("amp", '&'), ("apos", '\''), ("lt", '<'), ("gt", '>'), ("#34", '"'), ("#38", '&'), ("#39", '\''), ("#60", '<'), ("#62", '>')];
pub fn decode(s: &str) -> String {
    let mut o = String::new();
    let mut rest = s;
    'outer: while let Some(c) = rest.chars().next() {
        if let Some(r) = rest.strip_prefix('&') {
            for (n, x) in ENTITIES {
                if let Some(after) = r.strip_prefix(n).and_then(|a| a.strip_prefix(';')) {
                    o.push(*x);
                    rest = after;
                    continue 'outer;
                }
            }
        }
        o.push(c);
        rest = &rest[c.len_utf8()..];
    }
    o
}

// ---------------------------------------------------------------- C18

/// Convert documents: those with a predicted result together in one directory, the others alone.
fn documents(ctx: &mut Ctx, o: &mut Oracle, s: &Scratch, d: &Delims, esc: bool, cont: bool, docs: &[String]) {
    let mut opts: Vec<&str> = d.args.clone();
    if esc {
        opts.push("--ignore-escaped-delim");
    }
    if cont {
        opts.push("--continue-on-error");
    }
    let wants: Vec<Want> = docs.iter().map(|x| o.want(x, d, esc, cont)).collect();
    let good: Vec<usize> = (0..docs.len()).filter(|i| matches!(wants[*i], Want::Text(_))).collect();
    let show = |doc: &str| format!("[{}{}{}] {doc}", d.name, if esc { " escaped" } else { "" }, if cont { " continue" } else { "" });
    let dir = s.fresh("docs");
    for i in &good {
        fs::write(dir.join(format!("{i}.html")), &docs[*i]).unwrap();
    }
    let mut args = opts.clone();
    args.extend(["-r", "docs"]);
    ctx.begin(&format!("{} … {}", show(&docs[0]), show(docs.last().unwrap())));
    let r = run(&s.0, &args, None);
    let mut alone: Vec<usize> = (0..docs.len()).filter(|i| matches!(wants[*i], Want::Fail(_))).collect();
    if r.code != 0 || !r.out.is_empty() {
        // Some document of the block failed: find out which, one by one.
        alone.extend(&good);
    } else {
        for i in &good {
            ctx.evals += 1;
            let got = fs::read_to_string(dir.join(format!("{i}.html"))).unwrap_or_default();
            let Want::Text(w) = &wants[*i] else { unreachable!() };
            ctx.class("converted");
            ctx.outcome(&got);
            if got != *w {
                let k = show(&docs[*i]);
                ctx.violation(&k, &k, &format!("the document becomes {got:?}\n   instead of {w:?}"));
            }
        }
    }
    for i in alone {
        ctx.begin(&show(&docs[i]));
        let f = s.0.join("one.html");
        fs::write(&f, &docs[i]).unwrap();
        let mut args = opts.clone();
        args.push("one.html");
        let r = run(&s.0, &args, None);
        ctx.class(if r.code == 0 { "converted alone" } else { "rejected" });
        ctx.outcome(&r.err);
        let ok = match &wants[i] {
            Want::Text(w) => r.code == 0 && r.text() == *w,
            Want::Fail(m) => r.code == 2 && r.out.is_empty() && r.err.contains(m.as_str()),
        };
        if !ok {
            let k = show(&docs[i]);
            ctx.violation(&k, &k, &format!("the tool gives {}\n   instead of {:?}", r.show(), wants[i]));
        }
    }
}

fn sequences(frags: &[&str], len: usize) -> Vec<String> {
    let mut all = vec![String::new()];
    let mut last = vec![String::new()];
    for _ in 0..len {
        let mut next = Vec::new();
        for p in &last {
            for f in frags {
                next.push(format!("{p}{f}"));
            }
        }
        all.extend(next.iter().cloned());
        last = next;
    }
    let mut seen = std::collections::HashSet::new();
    all.retain(|x| seen.insert(x.clone()));
    all
}

fn c18(ctx: &mut Ctx) {
    let s = Scratch::new("c18");
    let mut o = Oracle::new();
    let len = ctx.pick(4, 5);
    let wlen = ctx.pick(2, 3);
    for d in delims() {
        let mut frags: Vec<&str> = vec![d.inl.0, d.inl.1, d.blk.0, d.blk.1];
        frags.dedup();
        frags.extend(["x", "é", "\\", "\n"]);
        let mut seen = std::collections::HashSet::new();
        frags.retain(|f| seen.insert(*f));
        let docs = sequences(&frags, len);
        let short = sequences(&frags, wlen);
        let mut windows: Vec<String> = Vec::new();
        let edges: &[usize] = if ctx.quick() { &[1024, 2048] } else { &[1024, 2048, 4096] };
        for e in edges {
            for pad in e - 6..=e + 2 {
                let a = "a".repeat(pad);
                let sp = " ".repeat(pad);
                for q in &short {
                    windows.push(format!("{a}{q}"));
                    windows.push(format!("{}{sp}{q}", d.inl.0));
                    windows.push(format!("{}{sp}{q}", d.blk.0));
                }
            }
        }
        // other characters, in every place, and long documents
        let mut others: Vec<String> = Vec::new();
        for c in ["\u{1d49c}", "\u{1f600}", "\u{65e5}", "\t", "\r", "\r\n", "\u{a0}", "e\u{301}", "\u{feff}", "\u{200d}", "\u{2028}", "\u{85}", "\u{c}", "\u{e000}", "\u{0}", "\u{10ffff}"] {
            for pat in ["{c}ab{o}x", "{c}{o}x{e}", "{o}{c}{e}", "{c}{c}\n{c}{O}x", "{o}x{c}{O}y", "x\n{c}{O}{o}", "{O}{c}x{E}{c}{o}", "{c}{o}\\text{{c}}{e}{c}", "{e}{c}{o}x{e}{c}", "{O}x{e}{c}{E}", "{c}\\{o}{c}{o}x", "\n\n{c}{o}\n{c}{O}"] {
                others.push(pat.replace("{c}", c).replace("{o}", d.inl.0).replace("{e}", d.inl.1).replace("{O}", d.blk.0).replace("{E}", d.blk.1));
            }
        }
        for &n in crate::vocab::LENGTHS.iter().filter(|&&n| n <= ctx.pick(300, 1001)) {
            let (o, e, b, c) = (d.inl.0, d.inl.1, d.blk.0, d.blk.1);
            for unit in ["x".to_string(), "\u{e9}".into(), "\n".into(), "x\n".into(), "\\".into(), format!("{o}x{e}"), format!("{b}x{c} "), format!("{o}x{e}\n{b}y{c}\n"), format!("\\{o}"), format!("{o}\\nope{e}")] {
                let r = unit.repeat(n);
                others.push(r.clone());
                others.push(format!("{r}{o}x"));
                others.push(format!("{r}{o}x{b}"));
                others.push(format!("{o}{}{e}{r}", "x".repeat(n)));
                if unit.len() <= 2 {
                    others.push(format!("{b}\\text{{{r}}}{c}"));
                }
            }
        }
        for esc in [false, true] {
            for cont in [false, true] {
                for set in [&others, &docs, &windows] {
                    for chunk in set.chunks(128) {
                        if ctx.mine() {
                            documents(ctx, &mut o, &s, &d, esc, cont, chunk);
                        }
                    }
                    if cont && ctx.quick() && set.len() == docs.len() {
                        break; // the windows once
                    }
                }
            }
        }
        // The other ways in: standard input, and one file to standard output.
        for (esc, cont) in [(false, false), (true, false), (false, true), (true, true)] {
            for doc in sequences(&frags, ctx.pick(2, 3)) {
                if !ctx.mine() {
                    continue;
                }
                let k = format!("[{} stdin{}{}] {doc}", d.name, if esc { " escaped" } else { "" }, if cont { " continue" } else { "" });
                ctx.begin(&k);
                let mut args = d.args.clone();
                if esc {
                    args.push("--ignore-escaped-delim");
                }
                if cont {
                    args.push("--continue-on-error");
                }
                args.push("-");
                let r = run(&s.0, &args, Some(doc.as_bytes()));
                let w = o.want(&doc, &d, esc, cont);
                let ok = match &w {
                    Want::Text(w) => r.code == 0 && r.text() == format!("{w}\n") && r.err.is_empty(),
                    Want::Fail(m) => r.code == 2 && r.out.is_empty() && r.err.contains(m.as_str()),
                };
                ctx.class(if r.code == 0 { "stdin converted" } else { "stdin rejected" });
                if !ok {
                    ctx.violation(&k, &k, &format!("the tool gives {}\n   instead of {w:?} and a newline", r.show()));
                }
                let Want::Text(w) = w else { continue };
                fs::write(s.0.join("one.html"), &doc).unwrap();
                *args.last_mut().unwrap() = "one.html";
                let r = run(&s.0, &args, None);
                ctx.check(r.code == 0 && r.text() == w && r.err.is_empty(), &k, || format!("with the document in a file the tool gives {}\n   instead of {w:?}", r.show()));
            }
        }
    }
}

// ---------------------------------------------------------------- C19

const EFRAGS: &[&str] = &[
    "&", "&lt;", "&amp;", "&#60;", "&quot;", "&gt;", "&apos;", "&#34;", "&#38;", "&#39;", "&#62;", "lt;", "amp;", "#60;", "#", ";", "&lt", "&nbsp;", "&LT;", "&#x3c;", "&#060;", "x", " ", "é",
];

fn c19(ctx: &mut Ctx) {
    let s = Scratch::new("c19");
    let mut o = Oracle::new();
    let d = &delims()[0];
    let mut texts = sequences(EFRAGS, ctx.pick(4, 5));
    for &n in crate::vocab::LENGTHS.iter().filter(|&&n| n <= 300) {
        texts.extend(EFRAGS.iter().filter(|f| **f != "&").map(|f| f.repeat(n)));
        texts.extend(["&lt;x", "&amp;lt;", "x&quot;", "&#38;#38;", "&nope;"].iter().map(|f| f.repeat(n)));
        texts.push(format!("{}&lt;", "x".repeat(n)));
        texts.push(format!("&{};&lt;", "x".repeat(n)));
    }
    let forms: &[(&str, &str)] = &[("$\\text{", "}$"), ("$", "$"), ("$$\\begin{matrix}a&b", "\\end{matrix}$$"), ("", ""), ("$\\color", "{red}$"), ("&lt;$a$", "$a$")];
    for (fi, (pre, post)) in forms.iter().enumerate() {
        for chunk in texts.chunks(512) {
            if !ctx.mine() {
                continue;
            }
            // One document; texts are separated by lines that cannot occur in them.
            let lines: Vec<String> = chunk.iter().filter(|t| !t.is_empty()).map(|t| format!("{pre}{t}{post}")).collect();
            ctx.begin(&format!("{} … {}", lines[0], lines.last().unwrap()));
            fs::write(s.0.join("one.html"), lines.join("\n=====\n")).unwrap();
            let r = run(&s.0, &["--continue-on-error", "one.html"], None);
            let out = r.text();
            let got: Vec<&str> = out.split("\n=====\n").collect();
            if r.code != 0 || got.len() != lines.len() {
                let k = format!("{} … {}", lines[0], lines.last().unwrap());
                ctx.violation(&k, &lines.join("\n=====\n"), &format!("the tool gives {} parts for {} texts: {}", got.len(), lines.len(), r.show().chars().take(400).collect::<String>()));
                continue;
            }
            for (l, g) in lines.iter().zip(got) {
                ctx.evals += 1;
                let Want::Text(w) = o.want(l, d, false, true) else { unreachable!() };
                ctx.class(["in \\text", "in a formula", "in a matrix", "outside", "after a command", "between formulas"][fi]);
                ctx.outcome(g);
                if *g != w {
                    // An empty name is only recognised as such before anything but an ampersand.
                    let key = if l.contains("&&") { double(l, d, &mut o, g) } else { None };
                    ctx.violation(key.unwrap_or(l), l, &format!("{l:?} becomes {g:?}\n   instead of {w:?}"));
                }
            }
        }
    }
    // In a report, an error shows the decoded formula.
    for t in sequences(EFRAGS, ctx.pick(1, 2)) {
        if !ctx.mine() {
            continue;
        }
        let doc = format!("$\\nope\\text{{{t}}}$");
        ctx.begin(&doc);
        fs::write(s.0.join("one.html"), &doc).unwrap();
        let r = run(&s.0, &["one.html"], None);
        let dec = decode(&format!("\\nope\\text{{{t}}}"));
        ctx.class("report");
        ctx.check(r.code == 2 && r.out.is_empty() && plain(&r.err).contains(&dec), &doc, || format!("the report does not show the formula {dec:?}: {}", r.show()));
    }
}
/// Without colours.
fn plain(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\u{1b}' {
            it.by_ref().find(|c| *c == 'm');
        } else {
            o.push(c);
        }
    }
    o
}
/// The recorded finding: of two ampersands in a row neither starts an entity.
fn double(l: &str, d: &Delims, o: &mut Oracle, got: &str) -> Option<&'static str> {
    let (pieces, _) = scan(l, d, false);
    let mut out = String::new();
    for p in pieces {
        match p {
            Piece::Text(t) => out.push_str(t),
            Piece::Formula(f, b) => {
                let mut dec = String::new();
                let mut rest = f;
                while let Some(i) = rest.find("&&") {
                    dec.push_str(&decode(&rest[..i]));
                    dec.push_str("&&");
                    rest = &rest[i + 2..];
                }
                dec.push_str(&decode(rest));
                out.push_str(&match o.formula(&dec, b) {
                    Ok(m) => m,
                    Err((h, _)) => h,
                });
            }
        }
    }
    (out == got).then_some("an entity directly behind an ampersand")
}

// ---------------------------------------------------------------- C21

const NAMES: &[&str] = &["a.html", "b.html", "c.txt", "sub/d.html", "e.htm", "F.HTML", "g", ".html", "dir.html/h.html", "i.html.bak"];
const CONTENTS: &[(&str, &[u8])] = &[
    ("good", b"<p>$x$</p>\r\n"),
    ("two", b"$x$ &lt; $$y$$\n\n"),
    ("plain", b"<p>no formula</p>"),
    ("empty", b""),
    ("bad", b"<p>$x$ $\\nope$</p>\n"),
    ("unclosed", b"<p>$x$ and $y</p>\n"),
    ("nested", b"$a$$b$"),
    ("bytes", b"\xff\xfe $x$"),
    ("same", b"a \xc3\xa9 \\\\ \xef\xbb\xbf"),
];

type Tree = std::collections::BTreeMap<String, Vec<u8>>;
fn read_tree(dir: &Path) -> Tree {
    fn walk(base: &Path, dir: &Path, t: &mut Tree) {
        let Ok(rd) = fs::read_dir(dir) else { return };
        for e in rd.flatten() {
            let p = e.path();
            if p.is_dir() {
                walk(base, &p, t);
            } else {
                t.insert(p.strip_prefix(base).unwrap().to_string_lossy().into_owned(), fs::read(&p).unwrap_or_default());
            }
        }
    }
    let mut t = Tree::new();
    walk(dir, dir, &mut t);
    t
}
fn old() -> std::time::SystemTime {
    std::time::UNIX_EPOCH + std::time::Duration::from_secs(1_000_000_000)
}
fn write_tree(dir: &Path, t: &Tree) {
    for (n, c) in t {
        let p = dir.join(n);
        fs::create_dir_all(p.parent().unwrap()).unwrap();
        fs::write(&p, c).unwrap();
        fs::File::options().append(true).open(&p).unwrap().set_modified(old()).unwrap();
    }
}
fn untouched(p: &Path) -> bool {
    fs::metadata(p).and_then(|m| m.modified()).map(|m| m == old()).unwrap_or(false)
}

/// What must happen to one file: its new content, or the exit code and message of its failure.
fn file_result(o: &mut Oracle, c: &[u8], cont: bool) -> Result<Vec<u8>, (i32, String)> {
    let Ok(s) = std::str::from_utf8(c) else { return Err((1, "UTF-8".into())) };
    match o.want(s, &delims()[0], false, cont) {
        Want::Text(t) => Ok(t.into_bytes()),
        Want::Fail(m) => Err((2, m)),
    }
}
fn show_tree(t: &Tree) -> String {
    t.iter().map(|(n, c)| format!("{n}={}", String::from_utf8_lossy(c).escape_debug())).collect::<Vec<_>>().join("  ")
}

fn recursive(ctx: &mut Ctx, o: &mut Oracle, s: &Scratch, tree: &Tree, dry: bool, cont: bool, arg: &str) {
    let dir = s.fresh("tree");
    write_tree(&dir, tree);
    fs::create_dir_all(dir.join("none")).unwrap();
    let mut args = vec!["-r"];
    if dry {
        args.push("--dry-run");
    }
    if cont {
        args.push("--continue-on-error");
    }
    args.push(arg);
    let k = format!("{} :: {}", args.join(" "), show_tree(tree));
    ctx.begin(&k);
    let r = run(&s.0, &args, None);
    let after = read_tree(&dir);
    ctx.outcome(&format!("{} {} {}", r.code, r.err, show_tree(&after)));
    let below = arg.strip_prefix("tree").unwrap().trim_matches('/');
    // (name, result) of the files the command is about
    let mut todo: Vec<(&String, Result<Vec<u8>, (i32, String)>)> = Vec::new();
    for (n, c) in tree {
        let in_dir = below.is_empty() || n == below || n.starts_with(&format!("{below}/"));
        let base = n.rsplit('/').next().unwrap();
        if in_dir && base.ends_with(".html") && base != ".html" {
            todo.push((n, file_result(o, c, cont)));
        }
    }
    let mut wrong: Vec<String> = Vec::new();
    if after.keys().ne(tree.keys()) {
        wrong.push(format!("files {:?} exist afterwards", after.keys().collect::<Vec<_>>()));
    }
    let failing: Vec<&(i32, String)> = todo.iter().filter_map(|(_, r)| r.as_ref().err()).collect();
    ctx.class(if failing.is_empty() { "all files convert" } else { "some file fails" });
    if failing.is_empty() {
        if r.code != 0 || !r.err.is_empty() {
            wrong.push(format!("exit code {} and message {:?} although every file converts", r.code, r.err));
        }
    } else if !failing.iter().any(|(c, m)| r.code == *c && r.err.contains(m.as_str())) {
        wrong.push(format!("exit code {} and message {:?} do not belong to a failing file", r.code, r.err));
    }
    if !r.out.is_empty() {
        wrong.push(format!("output {:?}", r.text()));
    }
    for (n, c) in tree {
        let Some(now) = after.get(n) else { continue };
        let res = todo.iter().find(|t| t.0 == n).map(|t| &t.1);
        let may_change = !dry && matches!(res, Some(Ok(w)) if w != c);
        let must_change = may_change && failing.is_empty();
        if now == c {
            if must_change {
                wrong.push(format!("{n} is not converted"));
            } else if !may_change && !untouched(&dir.join(n)) {
                wrong.push(format!("{n} is written although nothing changes"));
            }
        } else if !may_change {
            wrong.push(format!("{n} becomes {:?}", String::from_utf8_lossy(now)));
        } else if let Some(Ok(w)) = res
            && w != now
        {
            wrong.push(format!("{n} becomes {:?} instead of {:?}", String::from_utf8_lossy(now), String::from_utf8_lossy(w)));
        }
    }
    if !wrong.is_empty() {
        ctx.violation(&k, &k, &wrong.join("; "));
    }
}

fn single(ctx: &mut Ctx, o: &mut Oracle, s: &Scratch, name: &str, c: &[u8], opts: &[&str]) {
    let dir = s.fresh("tree");
    let mut t = Tree::new();
    t.insert(name.to_string(), c.to_vec());
    t.insert("other.html".into(), b"$x$".to_vec());
    write_tree(&dir, &t);
    let mut args = opts.to_vec();
    args.push(name);
    let k = format!("{} :: {}", args.join(" "), show_tree(&t));
    ctx.begin(&k);
    let r = run(&dir, &args, None);
    let after = read_tree(&dir);
    ctx.outcome(&format!("{} {} {} {}", r.code, r.err, r.text(), show_tree(&after)));
    let (write, dry, cont) = (opts.contains(&"-w") || opts.contains(&"--write"), opts.contains(&"--dry-run"), opts.contains(&"--continue-on-error"));
    let res = file_result(o, c, cont);
    let mut want = t.clone();
    let (mut code, mut msg, mut out) = (0, String::new(), Vec::new());
    match res {
        Ok(w) => {
            if !dry && write {
                want.insert(name.into(), w);
            } else if !dry {
                out = w;
            }
        }
        Err((cd, m)) => (code, msg) = (cd, m),
    }
    ctx.class(if code == 0 { "single file converts" } else { "single file fails" });
    let mut wrong = Vec::new();
    if after != want {
        wrong.push(format!("the files become {}", show_tree(&after)));
    }
    for n in t.keys() {
        if t[n] == want[n] && !untouched(&dir.join(n)) {
            wrong.push(format!("{n} is written although nothing changes"));
        }
    }
    if r.code != code || !r.err.contains(&msg) || (code == 0) != r.err.is_empty() {
        wrong.push(format!("exit code {} and message {:?} instead of {code} and {msg:?}", r.code, r.err));
    }
    if r.out != out {
        wrong.push(format!("output {:?} instead of {:?}", r.text(), String::from_utf8_lossy(&out)));
    }
    if !wrong.is_empty() {
        ctx.violation(&k, &k, &wrong.join("; "));
    }
}

fn c21(ctx: &mut Ctx) {
    let s = Scratch::new("c21");
    let mut o = Oracle::new();
    // Trees.
    let files: Vec<(&str, &[u8])> = NAMES.iter().flat_map(|n| CONTENTS.iter().map(move |c| (*n, c.1))).collect();
    let opts = [(false, false), (true, false), (false, true), (true, true)];
    let mut trees: Vec<Vec<usize>> = vec![vec![]];
    let mut last: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..ctx.pick(2, 3) {
        let mut next = Vec::new();
        for t in &last {
            for i in t.last().map_or(0, |l| l + 1)..files.len() {
                if t.iter().all(|j| files[*j].0 != files[i].0) {
                    let mut u = t.clone();
                    u.push(i);
                    next.push(u);
                }
            }
        }
        trees.extend(next.iter().cloned());
        last = next;
    }
    for t in &trees {
        for (oi, (dry, cont)) in opts.into_iter().enumerate() {
            // The biggest trees with two of the option combinations.
            if t.len() == 3 && oi % 3 != 0 {
                continue;
            }
            if ctx.mine() {
                let tree: Tree = t.iter().map(|i| (files[*i].0.to_string(), files[*i].1.to_vec())).collect();
                recursive(ctx, &mut o, &s, &tree, dry, cont, "tree");
            }
        }
    }
    // A subdirectory or one file as the argument.
    for t in trees.iter().filter(|t| t.len() == 2) {
        for arg in ["tree/sub", "tree/a.html", "tree/c.txt", "tree/none"] {
            let names: Vec<&str> = t.iter().map(|i| files[*i].0).collect();
            let exists = arg == "tree/none" || names.iter().any(|n| format!("tree/{n}") == arg || format!("tree/{n}").starts_with(&format!("{arg}/")));
            if exists && ctx.mine() {
                let tree: Tree = t.iter().map(|i| (files[*i].0.to_string(), files[*i].1.to_vec())).collect();
                recursive(ctx, &mut o, &s, &tree, false, false, arg);
            }
        }
    }
    // One file.
    let single_opts: &[&[&str]] = &[
        &[], &["-w"], &["--write"], &["--dry-run"], &["-w", "--dry-run"], &["--continue-on-error"], &["-w", "--continue-on-error"], &["--dry-run", "--continue-on-error"], &["-w", "--dry-run", "--continue-on-error"],
    ];
    for (n, c) in &files {
        for so in single_opts {
            if ctx.mine() {
                single(ctx, &mut o, &s, n, c, so);
            }
        }
    }
    missing(ctx, &s);
    configs(ctx, &s);
    faults(ctx, &s);
}

/// Files and directories that are not there, or are of the other kind.
fn missing(ctx: &mut Ctx, s: &Scratch) {
    for opts in [&["x.html"][..], &["-w", "x.html"], &["--dry-run", "x.html"], &["-r", "x.html"], &["-r", "nodir"], &["-r", "--dry-run", "nodir"], &["sub"], &["-w", "sub"], &["--dry-run", "sub"], &["a.html/b.html"], &["-r", "a.html/b.html"]] {
        if !ctx.mine() {
            continue;
        }
        let dir = s.fresh("tree");
        let t: Tree = [("a.html", "$x$"), ("sub/b.html", "$y$")].iter().map(|(n, c)| (n.to_string(), c.as_bytes().to_vec())).collect();
        write_tree(&dir, &t);
        let k = format!("{} (no such file)", opts.join(" "));
        ctx.begin(&k);
        let r = run(&dir, opts, None);
        ctx.class("missing");
        ctx.check(r.code == 1 && !r.err.is_empty() && r.out.is_empty() && read_tree(&dir) == t, &k, || format!("the file to convert cannot be read, but the tool gives {}; files {}", r.show(), show_tree(&read_tree(&dir))));
    }
}

/// Configuration files: a missing or wrong one ends the program before any file is touched.
fn configs(ctx: &mut Ctx, s: &Scratch) {
    // (contents of mathcore.toml, contents of c.toml, options, exit code)
    let good = "xml-namespace = true\n";
    let bad = ["xml-namespace = 3\n", "=", "pretty-print = \"sometimes\"\n", "macros = 1\n", "[macros]\nR = 1\n"];
    let mut cases: Vec<(Option<&str>, Option<&str>, Vec<&str>, i32)> = vec![
        (None, None, vec![], 0), (Some(good), None, vec![], 0), (None, Some(good), vec!["-c", "c.toml"], 0), (None, None, vec!["-c", "c.toml"], 3), (Some(good), None, vec!["--config-file", "c.toml"], 3), (None, None, vec!["-c", "sub"], 4), (None, Some("[macros]\nR = '\\nope'\n"), vec!["-c", "c.toml"], 2),
    ];
    for b in bad {
        cases.push((Some(b), None, vec![], 4));
        cases.push((Some(b), Some(good), vec!["-c", "c.toml"], 0));
        cases.push((Some(good), Some(b), vec!["-c", "c.toml"], 4));
    }
    for (own, other, opts, code) in &cases {
        for mode in [&["-r", "."][..], &["-w", "a.html"], &["a.html"], &["-r", "--dry-run", "."], &["-f", "x"]] {
            if !ctx.mine() {
                continue;
            }
            let dir = s.fresh("tree");
            let mut t: Tree = [("a.html", "$x$"), ("sub/b.html", "$y$")].iter().map(|(n, c)| (n.to_string(), c.as_bytes().to_vec())).collect();
            if let Some(c) = own {
                t.insert("mathcore.toml".into(), c.as_bytes().to_vec());
            }
            if let Some(c) = other {
                t.insert("c.toml".into(), c.as_bytes().to_vec());
            }
            write_tree(&dir, &t);
            let mut args = opts.clone();
            args.extend(mode);
            let k = format!("{} :: {}", args.join(" "), show_tree(&t));
            ctx.begin(&k);
            let r = run(&dir, &args, None);
            let after = read_tree(&dir);
            ctx.class("configuration");
            let changed: Vec<&String> = t.keys().filter(|n| after.get(*n) != Some(&t[*n])).collect();
            let want: Vec<&str> = if *code != 0 || mode.contains(&"--dry-run") { vec![] } else if mode.contains(&"-r") { vec!["a.html", "sub/b.html"] } else if mode.contains(&"-w") { vec!["a.html"] } else { vec![] };
            let xmlns = if opts.is_empty() { *own == Some(good) } else { *other == Some(good) };
            let all = format!("{}{}", r.text(), want.iter().map(|n| String::from_utf8_lossy(after.get(*n).map_or(&b""[..], |v| v)).into_owned()).collect::<String>());
            let ns_ok = *code != 0 || mode.contains(&"--dry-run") || all.contains("xmlns=") == xmlns;
            ctx.check(r.code == *code && (r.code == 0) == r.err.is_empty() && changed == want && after.len() == t.len() && ns_ok, &k, || format!("expected exit code {code} and changes to {want:?}: {}; changed {changed:?}; namespace as configured: {ns_ok}", r.show()));
        }
    }
}

/// A write that fails after `n` bytes (RLIMIT_FSIZE) must not leave a torn file.
fn faults(ctx: &mut Ctx, s: &Scratch) {
    use std::os::unix::process::CommandExt;
    let o = &mut Oracle::new();
    for (name, c) in CONTENTS.iter().filter(|c| c.0 == "good" || c.0 == "two") {
        let new = file_result(o, c, false).unwrap();
        for n in 0..=new.len() {
            for mode in [&["-w", "a.html"][..], &["-r", "."]] {
                if !ctx.mine() {
                    continue;
                }
                let dir = s.fresh("tree");
                fs::write(dir.join("a.html"), c).unwrap();
                let k = format!("{} on {name}: the disk is full after {n} bytes", mode.join(" "));
                ctx.begin(&k);
                let mut cmd = Command::new(bin());
                cmd.args(mode).current_dir(&dir).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null());
                unsafe {
                    cmd.pre_exec(move || {
                        libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
                        let l = libc::rlimit { rlim_cur: n as u64, rlim_max: n as u64 };
                        libc::setrlimit(libc::RLIMIT_FSIZE, &l);
                        Ok(())
                    });
                }
                let st = cmd.status().unwrap();
                let now = fs::read(dir.join("a.html")).unwrap_or_default();
                let whole = now == new || now == *c;
                ctx.class(if st.success() { "write succeeds" } else { "write fails" });
                if st.success() != (now == new) || st.code() != Some(if st.success() { 0 } else { 1 }) {
                    ctx.violation(&k, &k, &format!("exit status {st}, but the file is {:?}", String::from_utf8_lossy(&now)));
                } else if !whole {
                    ctx.violation("a write that fails in the middle leaves a truncated file", &k, &format!("the file becomes {:?}", String::from_utf8_lossy(&now)));
                }
            }
        }
    }
}

//! C16 (whitespace and comments), C24 (balance), C31 (braces around arguments).
use crate::conv::*;
use crate::engine::*;
use crate::vocab::{self, Sizes};
use math_core::*;

pub fn specs() -> Vec<Spec> {
    vec![Spec {
        id: "C16",
        level: "exploration",
        rule: "Every input is split into TeX tokens by an independent tokenizer, and re-converted with every whitespace or comment form inserted at every gap between two tokens where it is insignificant (and at all of them at once); result, warnings, error message and the reported text have to stay the same. evaluations = conversions; traces = modified inputs.",
        bounds: |t| format!("{}; whitespace forms {WS_FORMS:?}, comment forms {COMMENT_FORMS:?}", c16_sizes(t).describe()),
        assumptions: &["whitespace is significant in text, in raw arguments (lengths, colours, names, column specifications), after a prime and in front of the body of \\def; comments are not", "a star directly after a command is part of its name"],
        run: c16,
        workers: 8,
        prepare: None,
    },
    Spec {
        id: "C24",
        level: "model_checking",
        rule: "A pushdown automaton of braces, optional arguments, \\left/\\right and environments is explored from the empty stack; every path through its configurations, every path extended by a token without a transition and every path stopped with a non-empty stack is replayed on the real code, which has to accept exactly the paths that end with an empty stack, and otherwise report the first token without a transition (or the end of the input). states = distinct stacks reached; transitions = automaton steps; traces = inputs replayed.",
        bounds: |t| format!("all paths of up to {} tokens over {} tokens, in 2 positions", c24_len(t), C24_TOKENS.len()),
        assumptions: &["\\middle is not part of the nesting"],
        run: c24,
        workers: 8,
        prepare: None,
    },
    Spec {
        id: "C31",
        level: "exploration",
        rule: "For every command, with the shortest arguments with which it is accepted, and every construct that takes a mandatory argument, the construct with the command as an argument without braces is compared with the same construct with braces around the argument: same tree up to the spacing attributes. evaluations = conversions; distinct_nontrivial = distinct outputs.",
        bounds: |t| format!("{} commands and {} characters x {} arguments x {} argument positions", vocab::commands().len(), C31_CHARS.chars().count(), C31_ARGS.len(), C31_CTX.len() * (1 + C31_CTX.len() * if t == Tier::Quick { 1 } else { C31_WRAPS.len() })),
        assumptions: &["switches, infix commands, definitions and the commands of table rows do not make an argument", "the space around an operator may depend on the braces"],
        run: c31,
        workers: 8,
        prepare: None,
    }]
}

// ---------------------------------------------------------------- C16

fn c16_sizes(t: Tier) -> Sizes {
    if t == Tier::Quick {
        Sizes { single_ctx: 999, pair_ctx: 0, mid_pair_ctx: 8, mid_len: 2, small_len: 3, tiny_len: 3, scale: 12 }
    } else {
        Sizes { single_ctx: 999, pair_ctx: 4, mid_pair_ctx: 40, mid_len: 3, small_len: 4, tiny_len: 4, scale: 33 }
    }
}
const WS_FORMS: &[&str] = &[" ", "\n", "\t", " \r\n  ", "\n\n"];
const COMMENT_FORMS: &[&str] = &["%\n", "%c}{\\$%\n ", "%\u{e9}\\\n%\n\t"];

#[derive(Debug, Clone, Copy, PartialEq)]
enum Gap {
    Free,
    CommentOnly,
    No,
}
const TEXT_CMDS: &[&str] = &["text", "textrm", "textbf", "textit", "textsf", "texttt", "textup", "textnormal", "tag", "tag*", "emph", "textsc", "raisebox"];
const RAW_CMDS: &[&str] = &["color", "textcolor", "hspace", "hspace*", "mspace", "rule", "genfrac"];
/// Their argument is a name that has to stand there as it is.
const NAME_CMDS: &[&str] = &["begin", "end", "label", "eqref", "ref"];
const KERN_CMDS: &[&str] = &["kern", "mkern", "hskip", "mskip"];

fn tex_tokens(s: &str) -> Vec<&str> {
    let mut v = vec![];
    let mut i = 0;
    let b = s.as_bytes();
    while i < s.len() {
        let st = i;
        let c = s[i..].chars().next().unwrap();
        i += c.len_utf8();
        match c {
            '\\' if i < s.len() => {
                let d = s[i..].chars().next().unwrap();
                i += d.len_utf8();
                if d.is_ascii_alphabetic() {
                    while i < s.len() && b[i].is_ascii_alphabetic() {
                        i += 1;
                    }
                    if i < s.len() && b[i] == b'*' && ["operatorname", "tag"].contains(&&s[st + 1..i]) {
                        i += 1;
                    }
                }
            }
            '#' if i < s.len() && b[i].is_ascii_digit() => i += 1,
            ' ' | '\n' | '\t' => {
                while i < s.len() && b" \n\t".contains(&b[i]) {
                    i += 1;
                }
            }
            '%' => {
                while i < s.len() && b[i] != b'\n' {
                    i += 1;
                }
                while i < s.len() && b" \n\t".contains(&b[i]) {
                    i += 1;
                }
            }
            _ => {}
        }
        v.push(&s[st..i]);
    }
    v
}
fn is_ws(t: &str) -> bool {
    t.starts_with([' ', '\n', '\t', '%'])
}
fn word(t: &str) -> Option<&str> {
    t.strip_prefix('\\').filter(|w| w.starts_with(|c: char| c.is_ascii_alphabetic()))
}
/// For every token, what may be inserted behind it.
fn gaps(toks: &[&str]) -> Vec<Gap> {
    let mut g = vec![Gap::Free; toks.len()];
    gaps_pass(toks, &mut g, false);
    gaps_pass(toks, &mut g, true);
    for i in 1..toks.len() {
        // a comment swallows the whitespace behind it
        if is_ws(toks[i]) && g[i - 1] == Gap::CommentOnly {
            g[i - 1] = Gap::No;
        }
    }
    g
}
/// Whether the gap behind token `k` is inside an otherwise empty group: a blank body or argument
/// and an empty one are different things to a macro.
fn in_blank_group(toks: &[&str], k: usize) -> bool {
    let before = toks[..=k].iter().rev().find(|t| !is_ws(t));
    let after = toks[k + 1..].iter().find(|t| !is_ws(t));
    before == Some(&"{") && after == Some(&"}")
}
fn is_prime(t: &str) -> bool {
    ["'", "′", "″", "‴", "⁗", "‵", "‶", "‷"].contains(&t)
}
fn gaps_pass(toks: &[&str], g: &mut [Gap], names: bool) {
    let mut i = 0;
    while i < toks.len() {
        let t = toks[i];
        if t.starts_with('%') && !t.ends_with('\n') || t == "\\" || t == "#" {
            g[i] = Gap::No;
        }
        if is_prime(t) {
            g[i] = Gap::CommentOnly;
        }
        if let Some(w) = word(t) {
            let kind = if names != NAME_CMDS.contains(&w) {
                i += 1;
                continue;
            } else if names {
                g[i] = Gap::No;
                Gap::No
            } else if TEXT_CMDS.contains(&w) {
                Gap::CommentOnly
            } else if RAW_CMDS.contains(&w) {
                Gap::CommentOnly
            } else if KERN_CMDS.contains(&w) {
                let mut j = i + 1;
                while j < toks.len() && (is_ws(toks[j]) || toks[j].len() == 1 && "0123456789.,+-abcdefghijklmnopqrstuvwxyz".contains(toks[j])) {
                    g[j] = Gap::CommentOnly;
                    j += 1;
                }
                i += 1;
                continue;
            } else if w == "def" || w == "gdef" {
                // up to the body
                let mut j = i + 1;
                while j < toks.len() && toks[j] != "{" {
                    g[j] = if word(toks[j]).is_some() && j == i + 1 { Gap::Free } else { Gap::CommentOnly };
                    j += 1;
                }
                i = j;
                continue;
            } else {
                i += 1;
                continue;
            };
            // all groups that follow
            let mut j = i + 1;
            loop {
                while j < toks.len() && is_ws(toks[j]) {
                    j += 1;
                }
                let (open, close) = match toks.get(j) {
                    Some(&"{") => ("{", "}"),
                    Some(&"[") => ("[", "]"),
                    _ => break,
                };
                let mut depth = 0;
                while j < toks.len() {
                    // `\begingroup` is another name of `{`
                    if toks[j] == open || open == "{" && toks[j] == "\\begingroup" {
                        depth += 1;
                    }
                    if toks[j] == close || close == "}" && toks[j] == "\\endgroup" {
                        depth -= 1;
                    }
                    if depth == 0 {
                        break;
                    }
                    g[j] = kind;
                    j += 1;
                }
                j += 1;
                if w == "begin" && toks.get(j) == Some(&"{") && ["{array}", "{subarray}", "{darray}"].contains(&&*toks[i + 1..j].concat()) {
                    g[j - 1] = Gap::CommentOnly;
                    continue;
                }
                if NAME_CMDS.contains(&w) || w == "text" || w == "color" && open == "{" || w == "end" {
                    break;
                }
            }
        }
        i += 1;
    }
}
fn c16(ctx: &mut Ctx) {
    let conv = Cfg::new().build();
    let sz = c16_sizes(ctx.tier);
    let mut buf = String::new();
    vocab::universe(ctx, sz, &mut |ctx, s| c16_one(ctx, &conv, s, &mut buf));
}
fn covered(o: &Out, s: &str) -> String {
    match o {
        Out::Err { start, end, .. } if start <= end => s.get(*start..*end).unwrap_or("?").split(|c: char| c.is_ascii_whitespace()).collect(),
        _ => String::new(),
    }
}
fn c16_one(ctx: &mut Ctx, conv: &LatexToMathML, s: &str, buf: &mut String) {
    let toks = tex_tokens(s);
    let g = gaps(&toks);
    // in a macro's argument that ends up in text, whitespace is significant
    let text_macro = (s.contains("\\def") || s.contains("\\gdef") || s.contains("command") || s.contains("\\let")) && (TEXT_CMDS.iter().any(|c| s.contains(&format!("\\{c}"))) || RAW_CMDS.iter().any(|c| s.contains(&format!("\\{c}"))) || KERN_CMDS.iter().any(|c| s.contains(&format!("\\{c}"))));
    ctx.begin(s);
    let base = local(conv, s, BLK);
    ctx.class(base.class());
    if let Out::Ok { mathml, .. } = &base {
        ctx.outcome(mathml);
    }
    let base_cov = covered(&base, s);
    let macros = s.contains("\\def") || s.contains("\\gdef") || s.contains("command");
    for f in WS_FORMS.iter().chain(COMMENT_FORMS) {
        let ws = !f.starts_with('%');
        let allowed = |k: usize| match g[k] {
            _ if macros && in_blank_group(&toks, k) => false,
            // the prime in front of it may come from a macro
            Gap::Free if macros && ws && toks.get(k + 1).is_some_and(|t| is_prime(t)) => false,
            // in front of whitespace that may matter, a comment would swallow it
            Gap::Free => !text_macro || !ws && !toks.get(k + 1).is_some_and(|t| is_ws(t)),
            Gap::CommentOnly => !ws,
            Gap::No => false,
        };
        let n = toks.len();
        // gap n: in front of everything; gap n + 1: all at once
        for at in 0..=n + 1 {
            if at < n && !allowed(at) || at >= n && ws && text_macro && at > n {
                continue;
            }
            buf.clear();
            if at >= n {
                buf.push_str(f);
            }
            for (k, t) in toks.iter().enumerate() {
                buf.push_str(t);
                if k == at || at == n + 1 && allowed(k) {
                    buf.push_str(f);
                }
            }
            ctx.begin(buf);
            ctx.traces += 1;
            let o = local(conv, buf, BLK);
            let same = match (&base, &o) {
                (Out::Err { msg, .. }, Out::Err { msg: m2, .. }) => msg == m2 && (covered(&o, buf).replace(&*f.split_whitespace().collect::<String>(), "") == base_cov || covered(&o, buf).contains('%')),
                (Out::Ok { mathml: a, .. }, Out::Ok { mathml: b, .. }) if a != b && (at > n || at < n && in_blank_group(&toks, at)) => a.replace("<mrow></mrow>", "") == b.replace("<mrow></mrow>", ""),
                (a, b) => a == b,
            };
            if !same {
                ctx.violation(buf, s, &format!("with {f:?} inserted: {buf:?}\n    without: {} {base_cov:?}\n    with:    {} {:?}", base.show(), o.show(), covered(&o, buf)));
                return;
            }
        }
    }
}

// ---------------------------------------------------------------- C24

fn c24_len(t: Tier) -> usize {
    if t == Tier::Quick { 6 } else { 7 }
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum Br {
    Brace,
    Opt,
    Left,
    Env(&'static str),
    Text,
    /// first argument of \frac
    Frac,
}
const C24_TOKENS: &[&str] = &[
    "a", "{", "}", "[", "]", "\\left(", "\\right)", "\\left.", "\\begin{matrix}", "\\end{matrix}", "\\begin{align}", "\\end{align}", "\\begin{cases}", "\\end{cases}", "\\sqrt{", "^{", "\\sqrt[", "\\text{", "\\frac{", "\\begin{array}{c}", "\\end{array}",
    "\\begin{equation}", "\\end{equation}",
];
/// The automaton: None if there is no transition.
fn c24_step(stack: &[Br], tok: &str) -> Option<Vec<Br>> {
    let mut s = stack.to_vec();
    let top = s.last().copied();
    if top == Some(Br::Text) {
        // in text, only braces group
        return match tok {
            "{" | "\\text{" => {
                s.push(Br::Text);
                Some(s)
            }
            "}" => {
                s.pop();
                Some(s)
            }
            "a" | "[" | "]" => Some(s),
            _ => None,
        };
    }
    match tok {
        "a" | "[" => {}
        "]" => {
            if top == Some(Br::Opt) {
                // the mandatory argument of the root
                s.pop();
                s.push(Br::Brace);
            }
        }
        "{" | "\\sqrt{" | "^{" => s.push(Br::Brace),
        "\\frac{" => s.push(Br::Frac),
        "\\sqrt[" => s.push(Br::Opt),
        "\\text{" => s.push(Br::Text),
        "\\left(" | "\\left." => s.push(Br::Left),
        "}" => match top {
            Some(Br::Brace) => {
                s.pop();
            }
            Some(Br::Frac) => {
                s.pop();
                s.push(Br::Brace);
            }
            _ => return None,
        },
        "\\right)" => {
            if top != Some(Br::Left) {
                return None;
            }
            s.pop();
        }
        t => {
            if let Some(e) = t.strip_prefix("\\begin{") {
                let e = e.split('}').next().unwrap();
                s.push(Br::Env(vocab::ENVS.iter().find(|x| **x == e).unwrap()));
            } else if let Some(e) = t.strip_prefix("\\end{") {
                if !matches!(top, Some(Br::Env(n)) if n == e.trim_end_matches('}')) {
                    return None;
                }
                s.pop();
            }
        }
    }
    Some(s)
}
/// What is written for a token: the automaton closes an optional argument and opens the next one
/// in the same step.
fn c24_text(stack: &[Br], tok: &str) -> String {
    let top = stack.last();
    if tok == "]" && top == Some(&Br::Opt) {
        "]{".into()
    } else if tok == "}" && top == Some(&Br::Frac) {
        "}{".into()
    } else if tok == "^{" && top != Some(&Br::Text) {
        // a superscript of its own
        "{}^{".into()
    } else {
        tok.into()
    }
}
fn c24(ctx: &mut Ctx) {
    let conv = Cfg::new().build();
    let mut seen = std::collections::HashSet::new();
    seen.insert(vec![]);
    for (pre, post) in [("", ""), ("\\frac{a}{b\\begin{matrix}c&", "\\end{matrix}}")] {
        let base: Vec<Br> = if pre.is_empty() { vec![] } else { vec![Br::Brace, Br::Env("matrix")] };
        let n = c24_len(ctx.tier) - if pre.is_empty() { 0 } else { 1 };
        c24_dfs(ctx, &conv, (pre, post), &base, &base, String::from(pre), n, &mut seen);
    }
    if ctx.mine() {
        ctx.states += seen.len() as u64;
    }
}
#[allow(clippy::too_many_arguments)]
fn c24_dfs(ctx: &mut Ctx, conv: &LatexToMathML, frame: (&str, &str), base: &[Br], stack: &[Br], s: String, left: usize, seen: &mut std::collections::HashSet<Vec<Br>>) {
    if ctx.stop {
        return;
    }
    // the path ends here
    if ctx.mine() {
        let src = format!("{s}{}", frame.1);
        ctx.begin(&src);
        let o = local(conv, &src, BLK);
        ctx.traces += 1;
        if stack == base {
            ctx.class("balanced");
            if let Some(m) = o.ok() {
                ctx.outcome(m);
            } else {
                ctx.violation(&src, &src, &format!("balanced, but rejected: {}", o.show()));
            }
        } else {
            ctx.class("unclosed");
            // the frame's end closes nothing of the path unless the automaton says so
            let at = c24_first_bad(stack, frame.1, s.len()).unwrap_or(src.len());
            match o {
                Out::Err { start, .. } if start == at => {}
                o => ctx.violation(&src, &src, &format!("not balanced (at byte {at}, open: {stack:?}): {}", o.show())),
            }
        }
    }
    if left == 0 {
        return;
    }
    for t in C24_TOKENS {
        let next = c24_step(stack, t);
        // what is below the frame must not be closed
        let next = next.filter(|n| n.len() >= base.len() && n[..base.len()] == *base);
        ctx.transitions += 1;
        let s2 = format!("{s}{}", c24_text(stack, t));
        match next {
            Some(n) => {
                if !seen.contains(&n) {
                    seen.insert(n.clone());
                }
                c24_dfs(ctx, conv, frame, base, &n, s2, left - 1, seen);
            }
            None => {
                if c24_step(stack, t).is_some() {
                    continue;
                }
                for tail in ["", "a}\\right)\\end{matrix}"] {
                    if ctx.mine() {
                        let src = format!("{s2}{tail}{}", frame.1);
                        ctx.begin(&src);
                        ctx.traces += 1;
                        ctx.class("no transition");
                        match local(conv, &src, BLK) {
                            Out::Err { start, end, .. } if start == s.len() && end <= s2.len() && end > start => {}
                            o => ctx.violation(&src, &src, &format!("{t} does not match anything here (byte {}, open: {stack:?}): {}", s.len(), o.show())),
                        }
                    }
                }
            }
        }
    }
}
/// Where the tail of the frame does not fit, if the path did not close everything.
fn c24_first_bad(stack: &[Br], tail: &str, off: usize) -> Option<usize> {
    let mut st = stack.to_vec();
    let mut at = off;
    for t in tail.split_inclusive('}') {
        match c24_step(&st, t) {
            Some(n) => st = n,
            None => return Some(at),
        }
        at += t.len();
    }
    None
}

// ---------------------------------------------------------------- C31

const C31_CTX: &[&str] = &[
    "x^□", "x_□", "x^a_□c", "\\frac □2", "\\frac a□", "\\sqrt □2", "\\sqrt[3]□", "\\hat □", "\\widehat □b", "\\overline □=", "\\underbrace □", "\\mathbf □2", "\\mathrm □", "\\mathcal □", "\\overset □b", "\\overset a□2", "\\underset a□", "\\stackrel □=", "\\xrightarrow □",
    "\\mathrel □2", "\\mathord □", "\\mathopen □a", "\\phantom □", "\\cancel □2", "\\boxed □", "\\binom □2", "\\binom a□", "\\genfrac(){1pt}{0}□b", "\\sum_□", "\\sum\\limits^□", "\\prescript □bc", "\\prescript a□c", "\\prescript ab□", "\\dfrac a□", "\\cramped □",
    "\\mathbin □", "\\mathop □2",
];
/// Commands which are macros: they take one token, so only a command without arguments.
const C31_MACRO_CTX: &[&str] = &["\\textcolor{red}□", "\\def\\p#1{#1}\\p □", "\\def\\p#1{x^#1}\\p □2", "\\bra □", "\\pmod □2", "\\newcommand\\p[2]{#2+#1}\\p □2"];
const C31_ARGS: &[&str] = &["", "a", "(", "ab", "{1em}", "1em ", "{red}", "{red}a", "abc", "abcd", "{1pt}{a}", "()", "(\\right)", "(a\\right)", "[2]a", "{ab}", "{ab}{cd}", "{a|b}", "(){1pt}{1}ab", "="];
const C31_CHARS: &str = "aZ1.,;:!?+-*/=<>()[]|`\"@~\u{3b1}\u{2211}\u{211d}\u{1d400}\u{4e2d}\u{2212}\u{2260}\u{b2}";
const C31_NOT: &[&str] = &["color", "displaystyle", "textstyle", "scriptstyle", "scriptscriptstyle", "bf", "rm", "it", "sf", "tt", "cal", "frak", "Bbb", "left", "right", "middle", "begin", "end", "def", "gdef", "let", "global", "newcommand", "renewcommand", "providecommand", "relax", "over", "choose", "atop", "brace", "brack"];

fn strip_spacing(e: &mut crate::xml::El) {
    use crate::xml::N;
    e.attrs.retain(|(k, _)| !matches!(&**k, "lspace" | "rspace"));
    if e.name == "mpadded" {
        e.attrs.retain(|(k, _)| !matches!(&**k, "lspace" | "width"));
    }
    for k in &mut e.kids {
        if let N::E(e) = k {
            strip_spacing(e);
        }
    }
}
fn unspaced(m: &str) -> String {
    match crate::xml::parse_norm(m) {
        Ok(mut e) => {
            strip_spacing(&mut e);
            e.ser()
        }
        Err(_) => m.to_string(),
    }
}
const C31_CLASS: &[&str] = &["\\mathord", "\\mathop ", "\\mathbin", "\\mathrel", "\\mathopen", "\\mathclose", "\\mathpunct", "\\mathinner"];
/// Surroundings of the construct with the argument.
const C31_WRAPS: &[&str] = &["□", "a □ b", "=□+", "(□)", "\\frac{□}{x}", "\\begin{matrix}□&a\\\\b\\end{matrix}", "x^{□}", "□'", "□_c", "{□ \\over b}", "\\left(□\\middle|a\\right)", "\\bf □ a", "\\textstyle □", "\\sqrt[□]{2}", "\\sum □", "-□-"];
fn c31(ctx: &mut Ctx) {
    let conv = Cfg::new().build();
    let mut mats: Vec<Vec<String>> = vec![];
    for c in vocab::commands() {
        if C31_NOT.contains(&&**c) {
            continue;
        }
        let c = vocab::cmd(c);
        mats.push(C31_ARGS.iter().map(|a| format!("{c}{a}")).collect());
    }
    for c in C31_CHARS.chars() {
        mats.push(vec![c.to_string()]);
    }
    mats.push(vec!["\\left(a\\right]".into()]);
    let wraps: &[&str] = if ctx.quick() { &C31_WRAPS[..1] } else { C31_WRAPS };
    for forms in mats {
        if !ctx.mine() {
            continue;
        }
        // the shortest form that is accepted
        let Some(k) = forms.iter().position(|f| local(&conv, &format!("{{{f}}}"), BLK).is_ok()) else { continue };
        let m = &forms[k];
        // after "(" and the like, an optional argument could still follow: also try [2]a
        let opt = forms.iter().find(|f| f.ends_with("[2]a") && k > 0 && m.ends_with('a') && local(&conv, f, BLK).is_ok_and_root());
        for m in std::iter::once(m).chain(opt) {
            if forms.iter().position(|f| f == m) == Some(0) && !m.starts_with("\\left") {
                for k in C31_MACRO_CTX {
                    c31_one(ctx, &conv, k, m);
                }
            }
            for k in C31_CTX {
                c31_one(ctx, &conv, k, m);
                for k2 in C31_CTX {
                    // the construct is itself an argument
                    let class_cmds = C31_CLASS.iter().map(|c| k2.matches(c).count() + k.matches(c).count()).sum::<usize>();
                    if class_cmds > 1 {
                        continue;
                    }
                    let k2 = k2.replace('□', k);
                    for w in wraps {
                        // `\\mathrel\\sum_c` is about the symbol with its scripts; `\\dots` looks ahead
                        if class_cmds > 0 && ["□'", "□_c"].contains(w) || m == "\\dots " && (w.starts_with("=") || w.starts_with("-")) {
                            continue;
                        }
                        // the space inside the target of \\underset depends on whether it is a group
                        if *w != "□" && k2.contains("\\underset a") && C31_CLASS.iter().any(|c| m.starts_with(c.trim_end())) {
                            continue;
                        }
                        c31_one(ctx, &conv, &w.replace('□', &k2), m);
                    }
                }
                if ctx.stop {
                    return;
                }
            }
        }
    }
}
impl Out {
    fn is_ok_and_root(&self) -> bool {
        self.ok().is_some_and(|m| m.contains("mroot"))
    }
}
fn c31_one(ctx: &mut Ctx, conv: &LatexToMathML, k: &str, m: &str) {
    let class_cmd = |s: &str| s.starts_with("\\math") && ["ord", "op ", "op", "bin", "rel", "open", "close", "punct", "inner"].iter().any(|c| s[5..].starts_with(c));
    // TeX needs braces in \mathrel\mathop x
    if class_cmd(k) && class_cmd(m) {
        return;
    }
    if m.starts_with('[') && ["\\sqrt □", "arrow □", "\\cramped □"].iter().any(|c| k.contains(c)) {
        return;
    }
    let bare = k.replace('□', m);
    let braced = k.replace('□', &format!("{{{m}}}"));
    ctx.begin(&bare);
    let a = local(conv, &bare, BLK);
    let b = local(conv, &braced, BLK);
    ctx.class(a.class());
    if a.msg().contains("Switch-like") {
        return;
    }
    let same = match (&a, &b) {
        (Out::Ok { mathml: x, .. }, Out::Ok { mathml: y, .. }) => unspaced(x) == unspaced(y),
        (Out::Err { msg: x, .. }, Out::Err { msg: y, .. }) => x == y,
        _ => false,
    };
    if let Some(m) = a.ok() {
        ctx.outcome(m);
    }
    if !same {
        ctx.violation(&bare, &bare, &format!("without braces: {}\n    with braces:    {}", a.show(), b.show()));
    }
}

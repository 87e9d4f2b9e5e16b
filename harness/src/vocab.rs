//! Alphabets and the generic input universe.
use crate::engine::Ctx;
use std::sync::OnceLock;

pub const ENVS: &[&str] = &[
    "array", "subarray", "align", "align*", "aligned", "darray", "equation", "equation*", "gather", "gather*", "gathered", "multline",
    "bmatrix", "Bmatrix", "cases", "rcases", "dcases", "drcases", "matrix", "pmatrix", "vmatrix", "Vmatrix",
];

pub fn commands() -> &'static [String] {
    static C: OnceLock<Vec<String>> = OnceLock::new();
    C.get_or_init(|| include_str!("../data/commands.txt").lines().map(|s| s.to_string()).collect())
}

/// A command as it has to be written in front of arbitrary material.
pub fn cmd(name: &str) -> String {
    if name.ends_with(|c: char| c.is_ascii_alphabetic()) { format!("\\{name} ") } else { format!("\\{name}") }
}

pub const CHARS: &[&str] = &[
    "a", "f", "Z", "1", "0", ".", ",", ";", ":", "!", "?", "+", "-", "*", "/", "=", "<", ">", "(", ")", "[", "]", "|", "'", "`", "\"", "@", "#", "$", "%", "&",
    "~", "_", "^", "{", "}", " ", "\n", "%c\n", "#1", "\u{3b1}", "\u{2211}", "\u{211d}", "\u{301}", "\u{2032}", "\u{fe0f}", "\u{1d400}", "\u{4e2d}", "\u{a0}", "\u{200b}",
    "\u{2212}", "\u{2260}", "\u{338}", "\u{b2}", "\u{1F600}",
];

/// Every command, every interesting character, every environment boundary.
pub fn full() -> &'static [String] {
    static C: OnceLock<Vec<String>> = OnceLock::new();
    C.get_or_init(|| {
        let mut v: Vec<String> = CHARS.iter().map(|s| s.to_string()).collect();
        v.extend(commands().iter().map(|c| cmd(c)));
        for e in ENVS {
            v.push(format!("\\begin{{{e}}}"));
            v.push(format!("\\end{{{e}}}"));
        }
        v.push("\\begin{array}{c|c}".into());
        v.push("\\begin{nope}".into());
        v.push("\\end{nope}".into());
        v.push("\\nope ".into());
        v.push("\\<".into());
        v.push("\\".into());
        v
    })
}

/// One or more representatives of every structural token kind (about 110).
pub const MID: &[&str] = &[
    "a", "1", ".", "+", "=", "(", ")", "[", "]", "|", "'", ",", "&", "\\\\", "{", "}", "{}", "_", "^", " ", "%\n", "#1", "$", "~", "\u{301}", "\u{3b1}",
    "\\alpha ", "\\sum ", "\\int ", "\\lim ", "\\sin ", "\\in ", "\\cdot ", "\\langle ", "\\dots ", "\\prime ", "\\,", "\\quad ", "\\ ", "\\!",
    "\\frac ", "\\binom ", "\\genfrac ", "\\over ", "\\choose ", "\\sqrt ", "\\left ", "\\right ", "\\middle ", "\\big ", "\\bigl ", "\\bigm ",
    "\\overline ", "\\hat ", "\\widehat ", "\\underbrace ", "\\overset ", "\\underset ", "\\stackrel ", "\\xrightarrow ", "\\not ", "\\cancel ", "\\boxed ",
    "\\mathbf ", "\\mathrm ", "\\mathbb ", "\\bf ", "\\rm ", "\\displaystyle ", "\\scriptstyle ", "\\color{red}", "\\color[HTML]{00FF00}",
    "\\text ", "\\text{b}", "\\textbf ", "\\operatorname ", "\\operatorname*", "\\mathbin ", "\\mathrel ", "\\mathop ", "\\mathord ", "\\mathopen ", "\\mathinner ",
    "\\limits ", "\\nolimits ", "\\phantom ", "\\hphantom ", "\\smash ", "\\mathchoice ", "\\cramped ", "\\prescript ", "\\sideset ", "\\substack ",
    "\\bra ", "\\Braket ", "\\set ", "\\hspace{1em}", "\\kern 1pt", "\\raisebox{1pt}", "\\hline ", "\\tag{x}", "\\label{l}", "\\eqref{l}", "\\nonumber ",
    "\\newcommand ", "\\renewcommand ", "\\def ", "\\gdef ", "\\let ", "\\global ", "\\q ", "\\relax ", "\\pmod ", "\\bmod ", "\\dfrac ", "\\mathstrut ",
    "\\begin{matrix}", "\\end{matrix}", "\\begin{align}", "\\end{align}", "\\begin{array}{c|c}", "\\end{array}", "\\begin{cases}", "\\end{cases}",
    "\\begin{multline}", "\\end{multline}", "\\begin{equation}", "\\end{equation}", "\\nope ",
];

/// The core structural alphabet for long sequences.
pub const SMALL: &[&str] = &[
    "a", "1", "+", "&", "\\\\", "{", "}", "_", "^", "'", "[", "]", "|", "\\frac ", "\\sqrt ", "\\over ", "\\left(", "\\right)", "\\middle|", "\\sum ", "\\limits ",
    "\\not ", "\\hat ", "\\overset ", "\\mathbf ", "\\bf ", "\\displaystyle ", "\\color{red}", "\\text ", "\\mathbin ", "\\begin{matrix}", "\\end{matrix}",
    "\\begin{align}", "\\end{align}", "\\hline ", "\\tag{x}", "\\def\\q{", "\\def\\q#1{#1", "\\q ", "\\dots ",
];
pub const TINY: &[&str] = &[
    "a", "&", "\\\\", "{", "}", "_", "^", "'", "\\frac ", "\\over ", "\\left(", "\\right)", "\\displaystyle ", "\\not ", "\\begin{matrix}", "\\end{matrix}", "\\sum ", "\\mathbf ", "1", "\\text ",
];

/// Contexts: `□` is replaced by the material.
pub const CONTEXTS: &[&str] = &[
    "□", "{□}", "a□b", "{a□}b", "x_□", "x^□", "x_{□}^{□}", "\\sum_□", "\\lim_{□}", "\\sqrt□", "\\sqrt[□]{x}", "\\sqrt{□}", "\\frac□□", "\\frac{□}{□}", "\\binom□□",
    "{□\\over □}", "{□\\choose □}", "\\left(□\\right)", "\\left□x\\right□", "\\left(a\\middle□b\\right)", "\\big□", "\\Biggl□", "\\bigm□",
    "\\mathbf{□}", "\\mathbb□", "\\mathrm{□}", "\\mathcal{x□y}", "{\\bf □}", "{\\rm a□}", "\\not□", "\\hat□", "\\overline{□}", "\\underbrace{□}_{□}", "\\overbrace□",
    "\\overset□□", "\\underset{□}{□}", "\\overset{x}{□}", "\\stackrel□=", "\\xrightarrow[□]{□}", "\\mathbin□", "\\mathrel{□}", "\\mathop{□}_x", "\\mathopen□a", "\\mathinner{□}",
    "\\text{□}", "\\text{a□b}", "\\textbf{□}", "\\text□", "\\operatorname{□}", "\\operatorname*{a□}_x", "\\phantom□", "\\hphantom{□}", "\\boxed{□}", "\\cancel□",
    "\\mathchoice□□□□", "\\cramped{□}", "\\prescript□□□", "\\sideset{_□}{^□}\\sum", "\\sideset□□\\sum", "\\substack{□}", "\\sum_{\\substack{a\\\\□}}",
    "\\begin{matrix}□\\end{matrix}", "\\begin{matrix}a&□\\\\□&b\\end{matrix}", "\\begin{pmatrix}□\\\\□\\end{pmatrix}", "\\begin{array}{c|c}□&□\\\\□\\end{array}",
    "\\begin{align}□\\end{align}", "\\begin{align}a&□\\\\□\\end{align}", "\\begin{align*}□&b\\end{align*}", "\\begin{cases}□&□\\end{cases}", "\\begin{gather}□\\\\□\\end{gather}", "\\begin{multline}a□\\\\□\\\\c\\end{multline}",
    "\\begin{equation}□\\end{equation}", "\\begin{array}{□}a\\end{array}", "\\begin{□}a\\end{□}", "\\begin{align}a\\tag{□}\\end{align}", "\\begin{align}a\\label{□}\\end{align}\\eqref{□}",
    "\\eqref{□}", "\\color{□}x", "\\color[□]{x}", "\\color[RGB]{□}x", "\\color[HTML]{□}x", "\\color{red}□", "\\textcolor{red}{□}", "\\hspace{□}", "\\kern□", "\\rule{□}{□}", "\\raisebox{□}{□}", "\\raisebox{1pt}{□}",
    "\\genfrac□□□□□□", "\\genfrac(]{□}{□}{□}{□}", "\\newcommand{\\q}{□}\\q", "\\newcommand\\q[1]{□#1}\\q□", "\\def\\q#1{□#1}\\q{□}", "\\def\\q□{x}\\q", "\\let\\q□\\q", "\\let□=x□", "\\gdef\\q{□}x_\\q",
    "\\newcommand□{x}□", "\\renewcommand□{x}□", "\\global□\\q{x}", "\\bra{□}", "\\Braket{a|□|b}", "\\set{□|□}", "\\Set{x□}", "\\pmod□", "\\dots□", "{\\displaystyle □}", "{\\scriptstyle x□}y", "x'□", "x_a□", "\\sum\\limits□",
    "\\def\\q#1{\\frac{#1}{#1}}\\q□", "\\sum□_a^b", "\\sin□", "-□", "□-", "(□)", "f□2", "\\tag{□}", "\\%□", "%□\nx",
];

pub fn fill(ctx: &str, m: &str, out: &mut String) {
    out.clear();
    let mut it = ctx.split('□');
    out.push_str(it.next().unwrap());
    for p in it {
        out.push_str(m);
        out.push_str(p);
    }
}

/// Enumerate all sequences of length `len` over `alpha`; calls `f` with the joined string for the
/// cases that belong to this worker.
pub fn sequences<S: AsRef<str>>(ctx: &mut Ctx, alpha: &[S], len: usize, f: &mut dyn FnMut(&mut Ctx, &str)) {
    let n = alpha.len();
    let mut ix = vec![0usize; len];
    let mut s = String::new();
    loop {
        if ctx.mine() {
            s.clear();
            for i in &ix {
                s.push_str(alpha[*i].as_ref());
            }
            f(ctx, &s);
        }
        if ctx.stop {
            return;
        }
        let mut p = len;
        loop {
            if p == 0 {
                return;
            }
            p -= 1;
            ix[p] += 1;
            if ix[p] < n {
                break;
            }
            ix[p] = 0;
        }
    }
}

/// Sizes of the generic universe.
#[derive(Clone, Copy)]
pub struct Sizes {
    /// every full-vocabulary token in each of the first n contexts
    pub single_ctx: usize,
    /// all pairs of full-vocabulary tokens in each of the listed contexts
    pub pair_ctx: usize,
    /// all pairs of MID tokens in each of the first n contexts
    pub mid_pair_ctx: usize,
    pub mid_len: usize,
    pub small_len: usize,
    pub tiny_len: usize,
    /// how far repetition and nesting go in the family of long inputs (0: the family is left out)
    pub scale: usize,
}
pub const PAIR_CTX: &[&str] = &["□", "\\begin{matrix}□&x\\end{matrix}", "\\text{□}", "\\frac{□}{x}", "\\left(□\\right)", "x^{□}", "\\newcommand\\q{□}\\q", "\\begin{align}□\\\\b\\end{align}", "\\mathbf{□}", "\\not□", "\\overset□", "\\mathbin{□}"];

impl Sizes {
    pub fn describe(&self) -> String {
        format!(
            "every one of {} vocabulary tokens in {} contexts; all pairs of vocabulary tokens in {} contexts; all pairs of {} structural tokens in {} contexts; all sequences of {} structural tokens up to length {}; of {} up to length {}; of {} up to length {}; long inputs: every structural token and every pair of {} repeated, chains and nestings of every construct, and names and texts of every length class, up to {} repetitions",
            full().len(), self.single_ctx.min(CONTEXTS.len()), self.pair_ctx.min(PAIR_CTX.len()), MID.len(), self.mid_pair_ctx.min(CONTEXTS.len()), MID.len(), self.mid_len, SMALL.len(), self.small_len, TINY.len(), self.tiny_len, SMALL.len(), self.scale
        )
    }
}

pub fn universe(ctx: &mut Ctx, sz: Sizes, f: &mut dyn FnMut(&mut Ctx, &str)) {
    let mut s = String::new();
    if sz.single_ctx > 0 {
        f_empty(ctx, f);
    }
    for c in CONTEXTS.iter().take(sz.single_ctx) {
        for t in full() {
            if ctx.mine() {
                fill(c, t, &mut s);
                f(ctx, &s);
            }
        }
    }
    for l in 1..=sz.mid_len {
        sequences(ctx, MID, l, f);
    }
    for l in 1..=sz.small_len {
        sequences(ctx, SMALL, l, f);
    }
    for l in 1..=sz.tiny_len {
        sequences(ctx, TINY, l, f);
    }
    if sz.scale > 0 {
        scale(ctx, sz.scale, f);
    }
    let mut m = String::new();
    for c in CONTEXTS.iter().take(sz.mid_pair_ctx) {
        for a in MID {
            for b in MID {
                if ctx.mine() {
                    m.clear();
                    m.push_str(a);
                    m.push_str(b);
                    fill(c, &m, &mut s);
                    f(ctx, &s);
                }
            }
        }
        if ctx.stop {
            return;
        }
    }
    for c in PAIR_CTX.iter().take(sz.pair_ctx) {
        for a in full() {
            for b in full() {
                if ctx.mine() {
                    m.clear();
                    m.push_str(a);
                    m.push_str(b);
                    fill(c, &m, &mut s);
                    f(ctx, &s);
                }
            }
            if ctx.stop {
                return;
            }
        }
    }
}
fn f_empty(ctx: &mut Ctx, f: &mut dyn FnMut(&mut Ctx, &str)) {
    for s in ["", " ", "\n", "%", "% x", "\\", "{", "}"] {
        if ctx.mine() {
            f(ctx, s);
        }
    }
}

/// The lengths at which a count, an index or a buffer could behave differently.
pub const LENGTHS: &[usize] = &[4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 20, 24, 25, 26, 27, 31, 32, 33, 40, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 999, 1000, 1001];
/// (opening, middle, closing, repetition-limit) of a construct that can hold itself
pub const NESTS: &[(&str, &str, &str)] = &[
    ("{", "x", "}"),
    ("\\sqrt{", "x", "}"),
    ("\\sqrt[3]{", "x", "}"),
    ("\\frac{a}{", "x", "}"),
    ("\\frac{", "x", "}{b}"),
    ("x^{", "y", "}"),
    ("x_{", "y", "}"),
    ("\\sum_{", "y", "}^{z}"),
    ("\\left(", "x", "\\right)"),
    ("\\left(a\\middle|", "x", "\\right)"),
    ("\\hat{", "x", "}"),
    ("\\overline{", "x", "}"),
    ("\\underbrace{", "x", "}_{n}"),
    ("\\mathbf{", "x", "}"),
    ("\\mathrm{", "x", "}"),
    ("\\text{a", "x", "}"),
    ("\\text{$", "x", "$}"),
    ("\\textbf{", "x", "}"),
    ("\\begin{matrix}a&", "x", "\\end{matrix}"),
    ("\\begin{cases}", "x", "\\end{cases}"),
    ("\\begin{aligned}a&=", "x", "\\end{aligned}"),
    ("\\displaystyle{", "x", "}"),
    ("\\color{red}{", "x", "}"),
    ("\\mathbin{", "x", "}"),
    ("\\overset{a}{", "x", "}"),
    ("\\underset{", "x", "}{b}"),
    ("\\phantom{", "x", "}"),
    ("\\boxed{", "x", "}"),
    ("\\substack{", "x", "}"),
    ("\\operatorname{", "x", "}"),
    ("{a\\over", " x", "}"),
    ("\\binom{a}{", "x", "}"),
    ("\\cancel{", "x", "}"),
    ("\\tag{", "x", "}"),
    ("\\begin{align}", "x", "\\end{align}"),
    ("\\raisebox{1em}{$", "x", "$}"),
    ("\\not", "=", ""),
    ("\\mathop{", "x", "}\\limits^{a}"),
    ("\\xrightarrow[", "x", "]{b}"),
    ("\\mathchoice{a}{", "x", "}{c}{d}"),
    ("\\smash{", "x", "}"),
    ("\\newcommand\\q{", "x", "}\\q"),
    ("\\prescript{a}{", "x", "}{c}"),
    ("\\sideset{}{", "'", "}\\sum"),
    ("\\genfrac{(}{]}{1pt}{1}{", "x", "}{y}"),
];
/// constructs whose inner name, number or text is repeated: (before, repeated, after)
const NAMED: &[(&str, &str, &str)] = &[
    ("\\text{", "a", "}"),
    ("\\text{", "a ", "}"),
    ("\\text{", "\u{e9}", "}"),
    ("\\text{", "\\'e", "}"),
    ("\\text{", "\\&", "}"),
    ("\\text{", "$x$", "}"),
    ("\\textbf{", "ab", "}"),
    ("\\mathrm{", "a", "}"),
    ("\\mathbf{", "a", "}"),
    ("\\mathit{", "ab", "}"),
    ("\\mathbb{", "N", "}"),
    ("\\mathrm{", "12", "}"),
    ("\\operatorname{", "a", "}"),
    ("\\operatorname*{", "a", "}_x"),
    ("\\operatorname{", "a\\,", "}"),
    ("", "1", ""),
    ("", "1.", "5"),
    ("1", ",000", ""),
    ("", "\u{65e5}", ""),
    ("x", "'", ""),
    ("x^", "{y}'", ""),
    ("x", "'", "^2_3"),
    ("\\", "a", ""),
    ("\\newcommand\\", "q", "{y}"),
    ("\\begin{", "a", "}x\\end{a}"),
    ("\\color{", "a", "}x"),
    ("\\color{#", "a", "}x"),
    ("\\label{", "a", "}\\eqref{a}"),
    ("\\begin{equation}x\\tag{", "a", "}\\end{equation}"),
    ("\\begin{equation}x\\label{", "ab", "}\\end{equation}"),
    ("\\eqref{", "a", "}"),
    ("\\begin{array}{", "c", "}a\\end{array}"),
    ("\\begin{array}{", "c|", "}a\\end{array}"),
    ("\\begin{array}{", "l", "r}a&b\\end{array}"),
    ("\\begin{matrix}a", "&b", "\\end{matrix}"),
    ("\\begin{matrix}a", "\\\\b", "\\end{matrix}"),
    ("\\begin{align}a", "&b", "\\end{align}"),
    ("\\begin{align}a", "\\\\b", "\\end{align}"),
    ("\\begin{align}a", "&=b\\\\c", "\\end{align}"),
    ("\\begin{align}a", "\\nonumber\\\\b", "\\end{align}"),
    ("\\begin{gather}a", "\\\\b", "\\end{gather}"),
    ("\\begin{multline}a", "\\\\b", "\\end{multline}"),
    ("\\begin{cases}a", "&b\\\\c", "\\end{cases}"),
    ("\\begin{array}{c}a", "\\\\\\hline b", "\\end{array}"),
    ("\\begin{array}{c}", "\\hline", " b\\end{array}"),
    ("\\begin{subarray}{c}a", "\\\\b", "\\end{subarray}"),
    ("\\rule{", "1", "em}{2em}"),
    ("\\hspace{0.", "1", "em}"),
    ("\\begin{matrix}a\\\\[", "1", "em]b\\end{matrix}"),
    ("x", "%a\n", "y"),
    ("x%", "a", "\ny"),
    ("x", " ", "y"),
    ("x", "\n", "y"),
    ("", "x+", "y"),
    ("", "+", ""),
    ("", "-", "x"),
    ("", "=", ""),
    ("", ":", "="),
    ("", "(", ")"),
    ("", "\\alpha", ""),
    ("", "\\alpha ", "x"),
    ("", "\\sin ", "x"),
    ("", "\\, ", "x"),
    ("", "\\int", "_a^b x"),
    ("", "\\left(x\\right)", ""),
    ("\\left(x", "\\middle|y", "\\right)"),
    ("", "\\frac12", ""),
    ("", "x_1^2", ""),
    ("", "\\hat x", ""),
    ("", "\\newcommand\\q{x}", "\\q"),
    ("\\newcommand\\q[1]{#1#1}", "\\q{x}", ""),
    ("\\newcommand\\q[9]{", "#1#9", "}\\q123456789"),
    ("\\newcommand\\q{", "x", "}\\q\\q"),
    ("{", "\\it", " x}"),
    ("", "\\displaystyle", " x"),
    ("", "\\color{red}", "x"),
    ("\\sideset{", "'", "}{''}\\sum"),
    ("\\substack{a", "\\\\b", "}"),
    ("\\sum", "\\limits", "_a"),
    ("\\not", "=", "a"),
    ("x", "~", "y"),
    ("x<", "<", "y&"),
];

/// Long inputs: everything a test would only write once or twice, written often.
fn scale(ctx: &mut Ctx, max: usize, f: &mut dyn FnMut(&mut Ctx, &str)) {
    let mut s = String::new();
    for &n in LENGTHS.iter().filter(|&&n| n <= max) {
        for t in MID {
            if ctx.mine() {
                s.clear();
                for _ in 0..n {
                    s.push_str(t);
                }
                f(ctx, &s);
            }
        }
        for (pre, t, post) in NAMED {
            if ctx.mine() {
                s.clear();
                s.push_str(pre);
                for _ in 0..n {
                    s.push_str(t);
                }
                s.push_str(post);
                f(ctx, &s);
            }
        }
        if n <= 33 {
            for (open, mid, close) in NESTS {
                if ctx.mine() {
                    s.clear();
                    for _ in 0..n {
                        s.push_str(open);
                    }
                    s.push_str(mid);
                    for _ in 0..n {
                        s.push_str(close);
                    }
                    f(ctx, &s);
                }
            }
        }
        if ctx.stop {
            return;
        }
    }
    for n in [8usize, 33, 100].into_iter().filter(|&n| n <= max) {
        for a in SMALL {
            for b in SMALL {
                if ctx.mine() {
                    s.clear();
                    for _ in 0..n {
                        s.push_str(a);
                        s.push_str(b);
                    }
                    f(ctx, &s);
                }
            }
        }
        if ctx.stop {
            return;
        }
    }
    // a construct inside another one, by turns
    for n in [3usize, 8].into_iter().filter(|&n| n <= max) {
        for (o1, _, c1) in NESTS {
            for (o2, m2, c2) in NESTS {
                if ctx.mine() {
                    s.clear();
                    for _ in 0..n {
                        s.push_str(o1);
                        s.push_str(o2);
                    }
                    s.push_str(m2);
                    for _ in 0..n {
                        s.push_str(c2);
                        s.push_str(c1);
                    }
                    f(ctx, &s);
                }
            }
        }
        if ctx.stop {
            return;
        }
    }
}

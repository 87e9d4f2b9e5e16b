//! C34: symbols grow exactly where the formula says so.
use crate::conv::*;
use crate::engine::*;
use crate::vocab;
use crate::xml::{self, El};
use math_core::*;
use std::sync::OnceLock;

pub fn specs() -> Vec<Spec> {
    vec![Spec {
        id: "C34",
        level: "model_checking",
        rule: "The growing symbols of an output (those that MathML Core lets stretch: by the stretchy attribute, or by the operator dictionary and the form that follows from the position) are listed in order with their limits of size and compared with a reference: an automaton over delimiter tokens that says which symbols grow, fed with every sequence; the same for every symbol in every pair of contexts. evaluations = conversions; distinct_nontrivial = distinct lists.",
        bounds: |t| {
            let (a, b) = lens(t);
            format!(
                "every command and character that is a symbol ({} candidates) in {} contexts and {} of their pairs; every delimiter behind every size command in all contexts and pairs of contexts; every sequence of up to {a} out of {} tokens ({b} in the contexts)",
                symbols().len(),
                CTX.len(),
                if t == Tier::Quick { "some" } else { "all" },
                TOKENS.len()
            )
        },
        assumptions: &["the stretchy operators of MathML Core's dictionary are transcribed (categories A, F, G and I)", "corners are said to grow but have no larger forms: not compared", "\\smile and \\frown grow over and under others (pinned by a snapshot: \\overset{\\frown}{AB})", "a symbol that grows sideways matters only under, over, or below a label"],
        run,
        workers: 8,
        prepare: None,
    }]
}
fn lens(t: Tier) -> (usize, usize) {
    if t == Tier::Quick { (5, 3) } else { (7, 5) }
}

#[derive(Clone, Copy, PartialEq, Eq)]
enum Form {
    Prefix,
    Infix,
    Postfix,
}
#[derive(Clone, Copy, PartialEq, Eq)]
enum Axis {
    Block,
    Inline,
}
/// Whether the dictionary of MathML Core makes the operator stretchy in this form.
fn dictionary(c: char, f: Form) -> bool {
    let arrow = matches!(c, '\u{2190}'..='\u{2195}' | '\u{219A}'..='\u{21AE}' | '\u{21B0}'..='\u{21B5}' | '\u{21B9}' | '\u{21BC}'..='\u{21D5}' | '\u{21DA}'..='\u{21F0}' | '\u{21F3}'..='\u{21FF}'
        | '\u{2794}' | '\u{2799}' | '\u{279B}'..='\u{27A1}' | '\u{27A5}' | '\u{27A6}' | '\u{27A8}'..='\u{27AF}' | '\u{27B1}' | '\u{27B3}' | '\u{27B5}' | '\u{27B8}' | '\u{27BA}'..='\u{27BE}'
        | '\u{27F0}' | '\u{27F1}' | '\u{27F4}'..='\u{27FF}' | '\u{2900}'..='\u{2920}' | '\u{2934}'..='\u{2937}' | '\u{2942}'..='\u{2975}' | '\u{297C}'..='\u{297F}'
        | '\u{2B04}'..='\u{2B07}' | '\u{2B0C}'..='\u{2B11}' | '\u{2B30}'..='\u{2B3E}' | '\u{2B40}'..='\u{2B4C}');
    let (open, close) = fence(c);
    match f {
        Form::Infix => arrow,
        Form::Prefix => open,
        Form::Postfix => close || matches!(c, '^' | '_' | '~' | '¯' | 'ˆ' | 'ˇ' | 'ˉ' | 'ˍ' | '˜' | '˷' | '\u{302}' | '‾' | '⌢' | '⌣' | '⎴' | '⎵' | '⏜'..='⏡'),
    }
}
fn fence(c: char) -> (bool, bool) {
    let n = c as u32;
    match c {
        '|' | '‖' | '⦀' | '⦙' => (true, true),
        '(' | '[' | '{' | '⌈' | '⌊' | '〈' | '❲' | '⧘' | '⧚' | '⧼' => (true, false),
        ')' | ']' | '}' | '⌉' | '⌋' | '〉' | '❳' | '⧙' | '⧛' | '⧽' => (false, true),
        '⟦'..='⟯' => (n % 2 == 0, n % 2 == 1),
        '⦃'..='⦘' => (n % 2 == 1, n % 2 == 0),
        _ => (false, false),
    }
}
fn has_entry(c: char, f: Form) -> Option<bool> {
    // What isn't stretchy in any form needs no entry here; a fence has entries only in its own forms.
    let (a, b, i) = (dictionary(c, Form::Prefix), dictionary(c, Form::Postfix), dictionary(c, Form::Infix));
    let infix = i || matches!(c, '|' | '‖' | '^' | '_' | '~');
    match f {
        Form::Prefix => a.then_some(true),
        Form::Postfix => b.then_some(true),
        Form::Infix => infix.then_some(i),
    }
}
fn axis(c: char) -> Axis {
    let (o, p) = fence(c);
    let vertical = matches!(c, '↑' | '↓' | '↕' | '↟' | '↡' | '↥' | '↧' | '↨' | '↾' | '↿' | '⇂' | '⇃' | '⇅' | '⇈' | '⇊' | '⇑' | '⇓' | '⇕' | '⇞' | '⇟' | '⇡' | '⇣' | '⇧' | '⇩' | '⇳' | '⇵' | '⟰' | '⟱' | '/' | '\\' | '⎰' | '⎱' | '⟅' | '⟆');
    if o || p || vertical { Axis::Block } else { Axis::Inline }
}
/// Size limits in thousandths of an em.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Grow {
    Free,
    To(u32),
    Other,
}
fn grouping(n: &str) -> bool {
    matches!(n, "mrow" | "math" | "mtd" | "msqrt" | "mpadded" | "mstyle" | "mphantom" | "menclose" | "merror" | "semantics")
}
fn scripted(n: &str) -> bool {
    matches!(n, "msub" | "msup" | "msubsup" | "munder" | "mover" | "munderover" | "mmultiscripts")
}
fn space_like(e: &El) -> bool {
    match &*e.name {
        "mspace" | "mtext" => true,
        "mrow" | "mpadded" | "mstyle" | "mphantom" => e.els().all(space_like),
        _ => false,
    }
}
/// The operator at the core of an embellished operator.
fn core(e: &El) -> Option<&El> {
    match &*e.name {
        "mo" => Some(e),
        "mfrac" => e.els().next().and_then(core),
        n if scripted(n) => e.els().next().and_then(core),
        "mrow" | "mpadded" | "mstyle" | "mphantom" => {
            let mut it = e.els().filter(|k| !space_like(k));
            let c = it.next().and_then(core)?;
            it.next().is_none().then_some(c)
        }
        _ => None,
    }
}
/// The growing operators in document order. `form`: that of an embellished operator;
/// `sideways`: it stands under or over something or below a label.
fn growing(e: &El, form: Form, sideways: bool, out: &mut Vec<(String, Grow)>) {
    if e.name == "mo" {
        let t = e.text();
        let mut it = t.chars();
        let (Some(c), None) = (it.next(), it.next()) else { return };
        // Fences are the only stretchy symbols that stay centred on the axis by themselves.
        let own = match e.attr("form") {
            Some("prefix") => Form::Prefix,
            Some("postfix") => Form::Postfix,
            Some("infix") => Form::Infix,
            _ => form,
        };
        let found = [own, Form::Infix, Form::Postfix, Form::Prefix].into_iter().find(|f| has_entry(c, *f).is_some());
        let centred = e.attr("symmetric") == Some("true") || matches!((fence(c), found), ((true, _), Some(Form::Prefix)) | ((_, true), Some(Form::Postfix)));
        let stretchy = match e.attr("stretchy") {
            Some(s) => s == "true",
            None => match e.attr("form") {
                Some("prefix") => dictionary(c, Form::Prefix),
                Some("postfix") => dictionary(c, Form::Postfix),
                Some("infix") => dictionary(c, Form::Infix),
                _ => [form, Form::Infix, Form::Postfix, Form::Prefix].iter().find_map(|f| has_entry(c, *f)).unwrap_or(false),
            },
        };
        if stretchy && (axis(c) == Axis::Block || sideways) && !matches!(c, '⌢' | '⌣') {
            let len = |k| e.attr(k).map(|v: &str| v.strip_suffix("em").and_then(|v| v.parse::<f64>().ok()).map_or(0, |v| (v * 1000.0).round() as u32));
            let g = match (len("minsize"), len("maxsize")) {
                (None, None) => Grow::Free,
                (Some(a), Some(b)) if a == b && centred => Grow::To(a),
                _ => Grow::Other,
            };
            out.push((t, g));
        }
        return;
    }
    let kids: Vec<&El> = e.els().collect();
    let real: Vec<usize> = (0..kids.len()).filter(|i| !space_like(kids[*i])).collect();
    let own_core = core(e).is_some();
    for (i, k) in kids.iter().enumerate() {
        let (f, side) = if scripted(&e.name) {
            let under = matches!(&*e.name, "munder" | "mover" | "munderover");
            if i == 0 { (if own_core { form } else { Form::Infix }, under) } else { (Form::Postfix, under) }
        } else if own_core && e.name != "mfrac" {
            (form, sideways)
        } else if grouping(&e.name) && real.len() > 1 {
            (if real.first() == Some(&i) { Form::Prefix } else if real.last() == Some(&i) { Form::Postfix } else { Form::Infix }, false)
        } else if own_core && i == 0 {
            (form, false)
        } else {
            (Form::Infix, false)
        };
        growing(k, f, side, out);
    }
}

/// Contexts with the growing symbols in front of and behind the content.
const CTX: &[(&str, &[&str], &[&str])] = &[
    ("□", &[], &[]),
    ("x□", &[], &[]),
    ("□x", &[], &[]),
    ("x□x", &[], &[]),
    ("x+□=", &[], &[]),
    ("{□}", &[], &[]),
    ("{□}^2", &[], &[]),
    ("x^{□}", &[], &[]),
    ("x_{y□}", &[], &[]),
    ("\\frac{x}{□}", &[], &[]),
    ("\\frac{□}{x}", &[], &[]),
    ("{x\\over □}", &[], &[]),
    ("\\sqrt{□}", &[], &[]),
    ("\\sqrt[{□}]{x}", &[], &[]),
    ("\\overset{x}{□}", &[], &[]),
    ("\\overset{□}{x}", &[], &[]),
    ("\\underset{xyz}{□}", &[], &[]),
    ("\\overset{x}{y□}", &[], &[]),
    ("\\lim\\limits_{□}", &[], &[]),
    ("\\sum\\limits_{x}^{x□}", &[], &[]),
    ("\\hat{□}", &[], &[]),
    ("\\vec{□}", &[], &[]),
    ("\\widehat{□}", &[], &["\u{302}"]),
    ("\\overline{□}", &[], &["\u{332}"]),
    ("\\underline{□}", &[], &["\u{332}"]),
    ("\\overbrace{□}^{x}", &[], &["⏞"]),
    ("\\underbrace{x}_{□}", &["⏟"], &[]),
    ("\\overrightarrow{□}", &[], &["→"]),
    ("\\underleftarrow{□}", &[], &["←"]),
    ("\\xrightarrow{□}", &["→"], &[]),
    ("\\xleftarrow[{□}]{x}", &["←"], &[]),
    ("\\left(□\\right]", &["("], &["]"]),
    ("\\left.□\\right|", &[], &["|"]),
    ("\\left\\uparrow x\\middle/□\\right.", &["↑", "/"], &[]),
    ("\\left\\|x□\\middle)x\\right(", &["‖"], &[")", "("]),
    ("\\binom{x}{□}", &["("], &[")"]),
    ("{□\\brace x}", &["{"], &["}"]),
    ("\\genfrac||{0pt}{}{x}{□}", &["|"], &["|"]),
    ("\\begin{matrix}x&□\\end{matrix}", &[], &[]),
    ("\\begin{pmatrix}□\\\\x\\end{pmatrix}", &["("], &[")"]),
    ("\\begin{vmatrix}□\\end{vmatrix}", &["|"], &["|"]),
    ("\\begin{Bmatrix}x\\\\□\\end{Bmatrix}", &["{"], &["}"]),
    ("\\begin{cases}□&x\\end{cases}", &["{"], &[]),
    ("\\begin{rcases}□\\end{rcases}", &[], &["}"]),
    ("\\begin{array}{c|c}□&x\\end{array}", &[], &[]),
    ("\\mathrel{□}", &[], &[]),
    ("\\mathop{□}", &[], &[]),
    ("\\mathbin{x□}", &[], &[]),
    ("\\mathopen{□}", &[], &[]),
    ("\\mathord{□}x", &[], &[]),
    ("\\textcolor{red}{□}", &[], &[]),
    ("{\\displaystyle □}", &[], &[]),
    ("\\cramped{□}", &[], &[]),
    ("\\phantom{□}", &[], &[]),
    ("\\boxed{□}", &[], &[]),
    ("\\begin{subarray}{c}x\\\\□\\end{subarray}", &[], &[]),
    ("\\pmod{□}", &[], &[]),
    ("\\set{□}", &[], &[]),
    ("\\Bra{□}", &["⟨"], &["|"]),
    ("\\bra{□}", &[], &[]),
    ("\\mathchoice{□}{□}{□}{□}", &[], &[]),
    ("\\sideset{_{□}}{}\\sum ", &[], &[]),
    ("\\prescript{□}{}{x}", &[], &[]),
    ("x'_{□}", &[], &[]),
    ("\\big(□\\bigr)", &["(1200"], &[")1200"]),
];
fn list(v: &[&str]) -> Vec<(String, Grow)> {
    v.iter()
        .map(|s| {
            let c = s.chars().next().unwrap();
            let n: String = s.chars().skip(1).collect();
            (c.to_string(), if n.is_empty() { Grow::Free } else { Grow::To(n.parse().unwrap()) })
        })
        .collect()
}
struct F {
    src: String,
    want: Vec<(String, Grow)>,
}
fn within(c: &(&str, &[&str], &[&str]), f: &F) -> F {
    let mut want = list(c.1);
    want.extend(f.want.iter().cloned());
    want.extend(list(c.2));
    F { src: c.0.replace('□', &f.src), want }
}
/// The delimiters of LaTeX and the symbols they are.
const DELIMS: &[(&str, &str)] = &[
    ("(", "("), (")", ")"), ("[", "["), ("]", "]"), ("\\{", "{"), ("\\}", "}"), ("\\lbrace ", "{"), ("\\rbrace ", "}"), ("\\lbrack ", "["), ("\\rbrack ", "]"),
    ("|", "|"), ("\\|", "‖"), ("\\vert ", "|"), ("\\Vert ", "‖"), ("\\lvert ", "|"), ("\\rvert ", "|"), ("\\lVert ", "‖"), ("\\rVert ", "‖"),
    ("\\langle ", "⟨"), ("\\rangle ", "⟩"), ("/", "/"), ("\\backslash ", "\\"),
    ("\\lfloor ", "⌊"), ("\\rfloor ", "⌋"), ("\\lceil ", "⌈"), ("\\rceil ", "⌉"), ("\\lgroup ", "⟮"), ("\\rgroup ", "⟯"), ("\\lmoustache ", "⎰"), ("\\rmoustache ", "⎱"),
    ("\\uparrow ", "↑"), ("\\downarrow ", "↓"), ("\\updownarrow ", "↕"), ("\\Uparrow ", "⇑"), ("\\Downarrow ", "⇓"), ("\\Updownarrow ", "⇕"), ("⟦", "⟦"), ("⟧", "⟧"),
];
const SIZES: &[(&str, u32)] = &[("\\big", 1200), ("\\bigl", 1200), ("\\bigm", 1200), ("\\bigr", 1200), ("\\Big", 1623), ("\\Bigl", 1623), ("\\Bigm", 1623), ("\\Bigr", 1623), ("\\bigg", 2047), ("\\biggl", 2047), ("\\biggm", 2047), ("\\biggr", 2047), ("\\Bigg", 2470), ("\\Biggl", 2470), ("\\Biggm", 2470), ("\\Biggr", 2470)];

/// Tokens of the sequences: source, what grows, and the depth (opening, closing, or \middle).
const TOKENS: &[(&str, Option<(&str, u32)>, i32)] = &[
    ("x", None, 0),
    ("(", None, 0),
    (")", None, 0),
    ("|", None, 0),
    ("/", None, 0),
    ("\\uparrow ", None, 0),
    ("=", None, 0),
    ("^|", None, 0),
    ("\\left|", Some(("|", 0)), 1),
    ("\\left)", Some((")", 0)), 1),
    ("\\left.", None, 1),
    ("\\middle|", Some(("|", 0)), 2),
    ("\\middle\\uparrow ", Some(("↑", 0)), 2),
    ("\\right|", Some(("|", 0)), -1),
    ("\\right/", Some(("/", 0)), -1),
    ("\\right(", Some(("(", 0)), -1),
    ("\\big|", Some(("|", 1200)), 0),
    ("\\Biggl)", Some((")", 2470)), 0),
    ("\\bigm/", Some(("/", 1200)), 0),
];

fn symbols() -> &'static [String] {
    static V: OnceLock<Vec<String>> = OnceLock::new();
    V.get_or_init(|| {
        let skip = ["left", "right", "middle", "begin", "end", "brace", "brack", "choose"];
        let mut v: Vec<String> = vocab::commands().iter().filter(|c| !skip.contains(&c.as_str())).map(|c| vocab::cmd(c)).collect();
        let ranges = [(0x21, 0x7e), (0xa1, 0x17f), (0x2b0, 0x36f), (0x370, 0x3ff), (0x2010, 0x206f), (0x20d0, 0x20ff), (0x2100, 0x2bff), (0x3008, 0x301b), (0x1d400, 0x1d410), (0x1eef0, 0x1eef1)];
        for (a, b) in ranges {
            v.extend((a..=b).filter_map(char::from_u32).filter(|c| !"\\{}#$%&~_^'".contains(*c)).map(String::from));
        }
        v
    })
}
fn one(ctx: &mut Ctx, conv: &LatexToMathML, f: &F, class: &str) -> bool {
    ctx.begin(&f.src);
    ctx.traces += 1;
    let d = if f.src.len().is_multiple_of(2) { INL } else { BLK };
    match local(conv, &f.src, d) {
        Out::Ok { mathml, .. } => match xml::parse_norm(&mathml) {
            Ok(e) => {
                let mut v = vec![];
                growing(&e, Form::Infix, false, &mut v);
                ctx.class(class);
                ctx.outcome(&format!("{v:?}"));
                if v != f.want {
                    ctx.violation(&f.src, &f.src, &format!("the symbols {v:?} grow; the formula says {:?}: {mathml}", f.want));
                }
                true
            }
            Err(e) => {
                ctx.violation(&f.src, &f.src, &format!("malformed output: {e}"));
                true
            }
        },
        o if class == "symbol" => {
            ctx.class(&format!("symbol: {}", o.class()));
            false
        }
        o => {
            ctx.violation(&f.src, &f.src, &format!("not converted: {}", o.show()));
            false
        }
    }
}
fn sequences(ctx: &mut Ctx, conv: &LatexToMathML, f: &mut F, depth: i32, left: usize, host: Option<usize>) {
    if depth == 0 && !f.src.is_empty() && ctx.mine() {
        let g;
        let f = match host {
            None => &*f,
            Some(h) => {
                g = within(&CTX[h], f);
                &g
            }
        };
        one(ctx, conv, f, "sequence");
    }
    if left == 0 || ctx.stop {
        return;
    }
    for (src, grow, d) in TOKENS {
        if *d == 2 && depth == 0 || *d == -1 && depth == 0 || depth + (*d == 1) as i32 > left as i32 || *src == "^|" && (f.src.ends_with("^|") || f.src.ends_with("\\left)") || f.src.ends_with("\\left|") || f.src.ends_with("\\left.") || f.src.contains("\\middle")) {
            continue;
        }
        let n = f.src.len();
        f.src += src;
        if let Some((s, z)) = grow {
            f.want.push((s.to_string(), if *z == 0 { Grow::Free } else { Grow::To(*z) }));
        }
        ctx.transitions += 1;
        sequences(ctx, conv, f, depth + if d.abs() == 1 { *d } else { 0 }, left - 1, host);
        f.src.truncate(n);
        if grow.is_some() {
            f.want.pop();
        }
    }
}

fn run(ctx: &mut Ctx) {
    let conv = Cfg::new().build();
    // symbols that don't grow
    for s in symbols() {
        if ctx.mine() {
            let f = F { src: s.clone(), want: vec![] };
            if !one(ctx, &conv, &f, "symbol") {
                continue;
            }
            for m in ["\\not", "\\hat", "x_", "\\overset{x}", "\\overset", "\\mathrel", "\\mathop", "\\stackrel{x}", "\\mathbf", "\\underset{x}\\not"] {
                let f = F { src: format!("{m} {s}{}", if m == "\\overset" { "{x}" } else { "" }), want: vec![] };
                one(ctx, &conv, &f, "symbol");
            }
            for (i, c) in CTX.iter().enumerate() {
                one(ctx, &conv, &within(c, &f), "symbol");
                for (j, d) in CTX.iter().enumerate() {
                    if !ctx.quick() || (i + j) % 8 == 0 {
                        one(ctx, &conv, &within(d, &within(c, &f)), "symbol");
                    }
                }
            }
        }
        if ctx.stop {
            return;
        }
    }
    // delimiters that do
    for (d, sym) in DELIMS {
        let mut fs: Vec<F> = SIZES.iter().map(|(s, z)| F { src: format!("{s}{d}"), want: vec![(sym.to_string(), Grow::To(*z))] }).collect();
        let g = |v: &[&str]| v.iter().map(|s| (s.to_string(), Grow::Free)).collect::<Vec<_>>();
        fs.push(F { src: format!("\\left{d}x\\right."), want: g(&[sym]) });
        fs.push(F { src: format!("\\left.x\\right{d}"), want: g(&[sym]) });
        fs.push(F { src: format!("\\left.\\right{d}"), want: g(&[sym]) });
        fs.push(F { src: format!("\\left{d}\\right{d}"), want: g(&[sym, sym]) });
        fs.push(F { src: format!("\\left(x\\middle{d}y\\right]"), want: g(&["(", sym, "]"]) });
        fs.push(F { src: format!("\\left(\\middle{d}\\right]"), want: g(&["(", sym, "]"]) });
        fs.push(F { src: format!("\\genfrac{{{}}}{{{}}}{{}}{{}}xy", d.trim(), d.trim()), want: g(&[sym, sym]) });
        for f in &fs {
            if ctx.mine() {
                one(ctx, &conv, f, "delimiter");
                for c in CTX {
                    let f = within(c, f);
                    one(ctx, &conv, &f, "delimiter");
                    for d in CTX {
                        one(ctx, &conv, &within(d, &f), "delimiter");
                    }
                }
            }
            if ctx.stop {
                return;
            }
        }
    }
    // sequences
    let (a, b) = lens(ctx.tier);
    let mut f = F { src: String::new(), want: vec![] };
    sequences(ctx, &conv, &mut f, 0, a, None);
    for h in 1..CTX.len() {
        sequences(ctx, &conv, &mut f, 0, b, Some(h));
    }
}

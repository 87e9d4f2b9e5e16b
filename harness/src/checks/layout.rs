//! C17 (switches and groups), C28 (spacing), C29 (styles), C30 (scripts and limits).
use crate::conv::*;
use crate::engine::*;
use crate::xml::{self, El, N};

pub fn specs() -> Vec<Spec> {
    vec![Spec {
        id: "C30",
        level: "model_checking",
        rule: "A reference model of scripts (which scripts an atom has, primes merging, \\limits switches, TeX's rule for limits) is run over every sequence of script tokens; each sequence is replayed on the real code behind every kind of base and in every context. The base, the scripts and their effective placement - computed from the output by the rules of MathML Core (displaystyle inheritance, movablelimits, operator dictionary) - must be the model's, the neighbours must be unchanged, and the two kinds of errors must be raised exactly where the model has them. states = script states of the model, transitions = conversions, evaluations = conversions.",
        bounds: |t| format!("{} bases x all sequences of up to {} out of {} script tokens x {} contexts x block/inline", c30_bases().len(), c30_len(t), C30_TOKENS.len(), C30_CTX.len()),
        assumptions: &["\\overbrace and \\underbrace take only a directly following script as their label and are left out", "\\mathop{..} with \\limits is not supported and is left out"],
        run: c30,
        workers: 8,
        prepare: None,
    },
    Spec {
        id: "C17",
        level: "model_checking",
        rule: "The model is a stack machine: a current font, colour and style, which groups save and restore. Every sequence of switches, openers, closers, cell separators and infix commands up to the bound is a path of the machine, with a letter behind every step; the path is replayed on the real code, and the font, colour and style in which each letter is rendered (computed from the output) must be the model's. states = distinct (font, colour, style, depth), transitions = steps, evaluations = conversions.",
        bounds: |t| format!("all paths of up to {} steps over {} actions and of up to {} steps over {} actions", c17_len(t).0, C17_CORE, c17_len(t).1, C17_ACTS.len()),
        assumptions: &["the font in which a table cell starts is not compared (TeX starts afresh, this implementation inherits the font of the surroundings)", "\\middle, which starts a new group in e-TeX only, is left out"],
        run: c17,
        workers: 8,
        prepare: None,
    },
    Spec {
        id: "C29",
        level: "model_checking",
        rule: "The model is TeX's style machine (eight transitions on the four styles). Every nesting of contexts up to the bound is a path of the machine; the path is replayed on the real code with \\mathchoice as the probe. The alternative that is chosen must be the model's state, and must agree with the style in which the probe is rendered by the rules of MathML Core, which is computed from the output. states = (depth, style, style) steps, transitions = steps taken, evaluations = conversions.",
        bounds: |t| format!("all nestings of up to {} out of {} contexts (every fourth one at the fourth level, plus {} at the outermost level), block and inline", c29_depth(t), C29_CTX.len(), C29_TOP.len()),
        assumptions: &["\\overbrace, \\underbrace and \\boxed set their argument in display style in LaTeX and numerators of infix fractions are parsed before the fraction is known: there only the agreement with the output is checked"],
        run: c29,
        workers: 8,
        prepare: None,
    }]
}

// ---------------------------------------------------------------- MathML Core: displaystyle and scriptlevel

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct MStyle {
    pub display: bool,
    pub level: i32,
}
/// The style of `e`'s children's frame: what `e` itself is rendered in, from its attributes.
pub fn own_style(e: &El, inherited: MStyle) -> MStyle {
    let mut s = inherited;
    if e.name == "math" {
        s = MStyle { display: e.attr("display") == Some("block"), level: 0 };
    }
    if e.name == "mtable" {
        s.display = false;
    }
    match e.attr("displaystyle") {
        Some("true") => s.display = true,
        Some("false") => s.display = false,
        _ => (),
    }
    if let Some(l) = e.attr("scriptlevel") {
        match l.strip_prefix('+') {
            Some(d) => s.level += d.parse::<i32>().unwrap_or(99),
            None if l.starts_with('-') => s.level += l.parse::<i32>().unwrap_or(99),
            None => s.level = l.parse().unwrap_or(99),
        }
    }
    s
}
/// What the `i`-th child of `e` inherits, `e` being rendered in `s`.
pub fn child_style(e: &El, i: usize, s: MStyle) -> MStyle {
    match &*e.name {
        "mfrac" => MStyle { display: false, level: s.level + !s.display as i32 },
        "msub" | "msup" | "msubsup" | "mmultiscripts" | "munder" | "mover" | "munderover" if i > 0 => MStyle { display: false, level: s.level + 1 },
        "mroot" if i > 0 => MStyle { display: false, level: s.level + 2 },
        _ => s,
    }
}
/// Visit every element with the style it is rendered in.
pub fn styles<'a>(e: &'a El, inherited: MStyle, f: &mut impl FnMut(&'a El, MStyle)) {
    let s = own_style(e, inherited);
    f(e, s);
    for (i, k) in e.els().enumerate() {
        styles(k, child_style(e, i, s), f);
    }
}
const ROOT: MStyle = MStyle { display: false, level: 0 };

/// The operators whose limits are movable by the operator dictionary of MathML Core.
fn movable_by_default(op: &str) -> bool {
    let mut it = op.chars();
    let (Some(c), None) = (it.next(), it.next()) else { return false };
    matches!(c, '\u{220F}'..='\u{2211}' | '\u{22C0}'..='\u{22C3}' | '\u{2A00}'..='\u{2A0A}' | '\u{2A1D}' | '\u{2A1E}' | '\u{2AFC}' | '\u{2AFF}')
}
/// The operator at the core of an embellished operator.
fn core(e: &El) -> Option<&El> {
    match &*e.name {
        "mo" => Some(e),
        "msub" | "msup" | "msubsup" | "munder" | "mover" | "munderover" | "mmultiscripts" => core(e.els().next()?),
        "mrow" | "mpadded" | "mstyle" => {
            let mut it = e.els().filter(|k| k.name != "mspace");
            let k = it.next()?;
            if it.next().is_some() { None } else { core(k) }
        }
        _ => None,
    }
}

// ---------------------------------------------------------------- C30

fn c30_len(t: Tier) -> usize {
    if t == Tier::Quick { 4 } else { 5 }
}
const C30_TOKENS: &[&str] = &["_a", "^b", "_{cd}", "'", "″", "‵", "\\limits ", "\\nolimits ", "\\displaylimits "];
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum Lim {
    /// not an operator: \limits is an error
    None,
    Never,
    Display,
    Always,
}
const C30_NEVER: &[&str] = &["int", "iint", "iiint", "iiiint", "oint", "oiint", "oiiint", "awint", "fint", "intbar", "intBar", "intclockwise", "cirfnint", "sumint", "varointclockwise", "ointctrclockwise", "sin", "arccos", "arcctg", "arcsin", "arctan", "arctg", "arg", "ch", "cos", "cosec", "cosh", "cot", "cotg", "coth", "csc", "ctg", "cth", "deg", "dim", "erf", "erfc", "exp", "hom", "ker", "lg", "ln", "log", "sec", "sh", "sinh", "tan", "tanh", "tg", "th"];
const C30_DISPLAY: &[&str] = &["sum", "prod", "coprod", "bigcap", "bigcup", "bigcupdot", "bigdoublevee", "bigdoublewedge", "bigodot", "bigoplus", "bigotimes", "bigsqcap", "bigsqcup", "bigtimes", "biguplus", "bigvee", "bigwedge", "lim", "Pr", "argmax", "argmin", "gcd", "inf", "injlim", "liminf", "limsup", "max", "min", "plim", "projlim", "sup", "det"];
const C30_PLAIN: &[&str] = &["x", "1", "(", ")", "[", "+", "=", ",", ".", "!", "/", "|", "{}", "{x}", "{xy}", "{\\sum}", "{\\int}", "\\alpha ", "\\infty ", "\\to ", "\\Gamma ", "\\frac xy", "\\binom xy", "\\sqrt x", "\\sqrt[3]x", "\\hat x", "\\overline{x}", "\\mathrm{x}", "\\mathbf x", "\\text{x}", "\\left(x\\right)", "\\big(", "\\mathbin{x}", "\\mathrel{\\sum}", "\\not=", "\\xrightarrow{x}", "\\overset xy", "\\begin{matrix}x&y\\end{matrix}", "\\phantom x", "\\boxed{x}", "\\textcolor{red}{x}", "\\mathrm{\\sum}", "\\cancel x"];
const C30_OTHER: &[(&str, Lim)] = &[("\\operatorname{x}", Lim::Never), ("\\operatorname*{x}", Lim::Display), ("\\operatornamewithlimits{x}", Lim::Display), ("\\sideset{_x}{^y}\\sum ", Lim::Display), ("\\sideset{}{'}\\int ", Lim::Display), ("∑", Lim::Display), ("∫", Lim::Never), ("⅀", Lim::Display), ("⨊", Lim::Display), ("⋃", Lim::Display), ("\\prescript{x}{y}{z}", Lim::None)];
fn c30_bases() -> Vec<(String, Lim)> {
    let mut v: Vec<(String, Lim)> = vec![];
    v.extend(C30_PLAIN.iter().map(|b| (b.to_string(), Lim::None)));
    v.extend(C30_OTHER.iter().map(|(b, l)| (b.to_string(), *l)));
    v.extend(C30_DISPLAY.iter().map(|b| (format!("\\{b} "), Lim::Display)));
    v.extend(C30_NEVER.iter().map(|b| (format!("\\{b} "), Lim::Never)));
    v
}
/// A context, and whether its content is in display style (None: as the surroundings).
const C30_CTX: &[(&str, Option<bool>)] = &[("□", None), ("\\textstyle □", Some(false)), ("\\displaystyle □", Some(true)), ("\\frac{□}{z}", Some(false)), ("z_{□}", Some(false)), ("\\sqrt{□}", None), ("\\left(□\\right)", None), ("\\begin{matrix}□\\end{matrix}", Some(false)), ("\\begin{aligned}□\\end{aligned}", Some(true)), ("\\textcolor{red}{□}", None), ("\\phantom{□}", None), ("\\overset{□}{z}", Some(false)), ("\\overset{z}{□}", None), ("\\begin{cases}z&□\\end{cases}", Some(false)), ("\\mathbin{□}", None)];

#[derive(Clone, Default, PartialEq, Eq, Debug, Hash)]
struct Scr {
    sub: Option<&'static str>,
    sup: Option<String>,
    /// a ^ now still belongs to the primes
    open: bool,
    limits: Option<char>,
    dup: bool,
}
impl Scr {
    fn step(&self, tok: &'static str) -> Scr {
        let mut s = self.clone();
        s.open = false;
        match tok {
            "_a" | "_{cd}" => {
                s.dup |= s.sub.is_some();
                s.sub = Some(if tok == "_a" { "a" } else { "cd" });
            }
            "^b" => match &mut s.sup {
                Some(t) if self.open => t.push('b'),
                Some(_) => s.dup = true,
                None => s.sup = Some("b".into()),
            },
            "'" | "″" | "‵" => {
                let p = match tok {
                    "'" => "′",
                    "″" => "′′",
                    t => t,
                };
                match &mut s.sup {
                    Some(t) if self.open => t.push_str(p),
                    Some(_) => s.dup = true,
                    None => s.sup = Some(p.into()),
                }
                s.open = true;
            }
            _ => s.limits = tok.chars().nth(1),
        }
        s
    }
}
fn primes(s: &str) -> String {
    s.replace('″', "′′").replace('‴', "′′′").replace('⁗', "′′′′").replace('‶', "‵‵").replace('‷', "‵‵‵")
}
/// Serialise without what may depend on the scripts.
fn bare(e: &El) -> String {
    fn strip(e: &mut El) {
        e.attrs.retain(|a| !["lspace", "rspace", "movablelimits"].contains(&&*a.0));
        for k in &mut e.kids {
            if let N::E(k) = k {
                strip(k);
            }
        }
    }
    let mut c = e.clone();
    strip(&mut c);
    c.ser()
}
fn find<'a>(e: &'a El, s: MStyle, out: &mut Option<(Vec<&'a El>, MStyle)>) {
    let s = own_style(e, s);
    let kids: Vec<&El> = e.els().filter(|k| k.name != "mspace").collect();
    if kids.len() >= 2 && kids[0].text() == "p" && kids[0].name == "mi" && kids[kids.len() - 1].name == "mi" && kids[kids.len() - 1].text() == "q" {
        *out = Some((kids[1..kids.len() - 1].to_vec(), s));
        return;
    }
    for (i, k) in e.els().enumerate() {
        find(k, child_style(e, i, s), out);
    }
}
struct Seen {
    base: String,
    sub: Option<String>,
    sup: Option<String>,
    stacked: bool,
}
fn c30_read(kids: &[&El], base: &str, prescript: bool, style: MStyle) -> Result<Seen, String> {
    let [x] = kids else { return Err(format!("{} elements between the neighbours", kids.len())) };
    let none = |base: String| Seen { base, sub: None, sup: None, stacked: false };
    if bare(x) == base {
        return Ok(none(base.into()));
    }
    let k: Vec<&El> = x.els().collect();
    let some = |e: &El| Some(primes(&e.text()));
    if prescript {
        if x.name != "mmultiscripts" {
            return Err(format!("<{}> for \\prescript", x.name));
        }
        let at = k.iter().position(|e| e.name == "mprescripts").ok_or("no mprescripts")?;
        let opt = |e: &El| Some(primes(&e.text())).filter(|t| !t.is_empty());
        let (sub, sup) = match at {
            1 => (None, None),
            3 => (opt(k[1]), opt(k[2])),
            _ => return Err("mprescripts out of place".into()),
        };
        let mut c = (*x).clone();
        c.kids.retain(|n| !matches!(n, N::E(e) if k[1..at].iter().any(|r| std::ptr::eq(*r, e))));
        let mut rest: Vec<String> = vec![bare(k[0])];
        rest.extend(k[at..].iter().map(|e| bare(e)));
        return Ok(Seen { base: format!("<mmultiscripts>{}</mmultiscripts>", rest.concat()), sub, sup, stacked: false });
    }
    let (sub, sup, stack) = match (&*x.name, k.len()) {
        ("msub", 2) => (some(k[1]), None, false),
        ("msup", 2) => (None, some(k[1]), false),
        ("msubsup", 3) => (some(k[1]), some(k[2]), false),
        ("munder", 2) => (some(k[1]), None, true),
        ("mover", 2) => (None, some(k[1]), true),
        ("munderover", 3) => (some(k[1]), some(k[2]), true),
        _ => return Err(format!("unexpected {}", x.ser())),
    };
    let movable = core(k[0]).is_some_and(|o| match o.attr("movablelimits") {
        Some(v) => v == "true",
        None => movable_by_default(&o.text()),
    });
    Ok(Seen { base: bare(k[0]), sub, sup, stacked: stack && !(movable && !style.display) })
}
fn c30(ctx: &mut Ctx) {
    let conv = Cfg::new().build();
    let n = c30_len(ctx.tier);
    let mut states = std::collections::HashSet::new();
    c30_primes(ctx, &conv);
    let bases = c30_bases();
    for (c, (tpl, disp)) in C30_CTX.iter().enumerate() {
        // the deepest sequences in the first contexts only
        let n = if c < 4 { n } else { n - 1 };
        for (b, lim) in &bases {
            if !ctx.mine() {
                continue;
            }
            for blk in [true, false] {
                let d = if blk { BLK } else { INL };
                let inner = tpl.replace('□', &format!("{{p {b} q}}"));
                let alone = local(&conv, &inner, d);
                ctx.begin(&inner);
                let Some(m) = alone.ok() else {
                    ctx.violation(&inner, &inner, &format!("not accepted: {}", alone.show()));
                    continue;
                };
                let el = xml::parse(m).expect("well-formed");
                let mut got = None;
                find(&el, ROOT, &mut got);
                let want_display = disp.unwrap_or(blk);
                let base = match &got {
                    Some((k, s)) if k.len() == 1 => {
                        if s.display != want_display {
                            ctx.violation(&inner, &inner, &format!("display style is {}, expected {want_display}: {m}", s.display));
                            continue;
                        }
                        bare(k[0])
                    }
                    _ => {
                        ctx.violation(&inner, &inner, &format!("the neighbours were not found: {m}"));
                        continue;
                    }
                };
                let mut path: Vec<usize> = vec![];
                // all sequences, odometer over lengths 1..=n
                'seq: loop {
                    // next
                    let mut i = 0;
                    loop {
                        if i == path.len() {
                            path.push(0);
                            if path.len() > n {
                                break 'seq;
                            }
                            break;
                        }
                        path[i] += 1;
                        if path[i] < C30_TOKENS.len() {
                            break;
                        }
                        path[i] = 0;
                        i += 1;
                    }
                    let mut s = Scr::default();
                    let mut scripts = String::new();
                    for &t in path.iter().rev() {
                        s = s.step(C30_TOKENS[t]);
                        scripts.push_str(C30_TOKENS[t]);
                    }
                    let src = tpl.replace('□', &format!("{{p {b}{scripts}q}}"));
                    ctx.begin(&src);
                    ctx.transitions += 1;
                    ctx.traces += 1;
                    if states.insert(s.clone()) {
                        ctx.states += 1;
                    }
                    let o = local(&conv, &src, d);
                    let bad_limits = s.limits.is_some() && *lim == Lim::None;
                    let what = match &o {
                        Out::Err { msg, .. } => {
                            let dup = msg.contains("Duplicate");
                            let l = msg.contains("may only appear after");
                            ctx.class(if dup { "duplicate" } else { "limits" });
                            if dup && s.dup || l && bad_limits { None } else { Some(format!("unexpected error {}", o.show())) }
                        }
                        Out::Ok { mathml, .. } if s.dup || bad_limits => Some(format!("accepted: {mathml}")),
                        Out::Ok { mathml, .. } => {
                            ctx.class("scripts");
                            ctx.outcome(mathml);
                            let el = xml::parse(mathml).expect("well-formed");
                            let mut got = None;
                            find(&el, ROOT, &mut got);
                            match got {
                                None => Some(format!("the neighbours have changed: {mathml}")),
                                Some((k, st)) => match c30_read(&k, &base, b.starts_with("\\prescript"), st) {
                                    Err(e) => Some(format!("{e}: {mathml}")),
                                    Ok(g) => {
                                        let any = s.sub.is_some() || s.sup.is_some();
                                        let eff = match s.limits {
                                            Some('l') => Lim::Always,
                                            Some('n') => Lim::Never,
                                            Some(_) => Lim::Display,
                                            None => *lim,
                                        };
                                        let stacked = any && (eff == Lim::Always || eff == Lim::Display && want_display);
                                        if g.base != base && !(b.contains("sideset") && any) {
                                            Some(format!("the base is {} instead of {base}", g.base))
                                        } else if g.sub.as_deref() != s.sub || g.sup != s.sup {
                                            Some(format!("scripts {:?} {:?} instead of {:?} {:?}: {mathml}", g.sub, g.sup, s.sub, s.sup))
                                        } else if g.stacked != stacked {
                                            Some(format!("limits above and below: {} instead of {stacked}: {mathml}", g.stacked))
                                        } else if st.display != want_display {
                                            Some(format!("display style is {}: {mathml}", st.display))
                                        } else {
                                            None
                                        }
                                    }
                                },
                            }
                        }
                        o => Some(o.show()),
                    };
                    if let Some(w) = what {
                        ctx.violation(&src, &src, &format!("{}: {w}", if blk { "block" } else { "inline" }));
                        if ctx.stop {
                            return;
                        }
                    }
                }
            }
        }
    }
}

/// Many primes in a row, with or without other scripts.
fn c30_primes(ctx: &mut Ctx, conv: &math_core::LatexToMathML) {
    for base in ["x", "\\sum ", "\\sin ", "{xy}", "\\frac xy", "\\int "] {
        let alone = local(conv, &format!("{{p {base} q}}"), INL);
        let Some(el) = alone.ok().and_then(|m| xml::parse(m).ok()) else { continue };
        let mut got = None;
        find(&el, ROOT, &mut got);
        let Some((k, _)) = got else { continue };
        let bare_base = bare(k[0]);
        for n in 1..=40usize {
            for (c, shown) in [("'", "\u{2032}"), ("\u{2033}", "\u{2032}\u{2032}"), ("\u{2034}", "\u{2032}\u{2032}\u{2032}"), ("\u{2057}", "\u{2032}\u{2032}\u{2032}\u{2032}"), ("\u{2032}", "\u{2032}"), ("\u{2035}", "\u{2035}"), ("\u{2036}", "\u{2035}\u{2035}"), ("\u{2037}", "\u{2035}\u{2035}\u{2035}")] {
                for (pre, mid, post, tail) in [("", "", "", ""), ("_a", "", "", ""), ("", "_a", "", ""), ("", "", "^b", "b"), ("_a", "", "^{bc}", "bc"), ("", "", "'", "\u{2032}"), ("", "", "\u{2035}", "\u{2035}"), ("", "", "''\u{2035}", "\u{2032}\u{2032}\u{2035}")] {
                    if !ctx.mine() {
                        continue;
                    }
                    let src = format!("{{p {base}{pre}{}{post}{mid}q}}", c.repeat(n));
                    ctx.begin(&src);
                    let o = local(conv, &src, INL);
                    ctx.class("many primes");
                    ctx.outcome(&o.show());
                    let want = format!("{}{tail}", shown.repeat(n));
                    let want_sub = if pre == "_a" || mid == "_a" { Some("a".to_string()) } else { None };
                    let what = match o.ok().and_then(|m| xml::parse(m).ok()) {
                        None => Some(o.show()),
                        Some(el) => {
                            let mut got = None;
                            find(&el, ROOT, &mut got);
                            match got.map(|(k, st)| c30_read(&k, &bare_base, false, st)) {
                                Some(Ok(g)) if g.sup.as_deref() == Some(want.as_str()) && g.sub == want_sub => None,
                                Some(Ok(g)) => Some(format!("scripts {:?} {:?} instead of {want_sub:?} {want:?}", g.sub, g.sup)),
                                Some(Err(e)) => Some(e),
                                None => Some("the neighbours have changed".into()),
                            }
                        }
                    };
                    if let Some(w) = what {
                        ctx.violation(&src, &src, &format!("{w}: {}", o.show()));
                    }
                }
            }
            if ctx.stop {
                return;
            }
        }
    }
}

// ---------------------------------------------------------------- C29

/// TeX's styles, largest first.
const STY: [&str; 4] = ["\\displaystyle", "\\textstyle", "\\scriptstyle", "\\scriptscriptstyle"];
const C29_NAMES: [char; 4] = ['D', 'T', 'S', 'X'];
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum To {
    /// the style does not change
    Same,
    /// that of numerators and denominators
    Frac,
    /// that of scripts
    Script,
    Fixed(usize),
    /// TeX and MathML renderers differ: only the output is checked to agree with itself
    Open,
    /// a known finding: only checked alone
    Known(Option<usize>),
}
impl To {
    fn apply(self, s: usize) -> Option<usize> {
        Some(match self {
            To::Same => s,
            To::Frac => (s + 1).min(3),
            To::Script => {
                if s < 2 { 2 } else { 3 }
            }
            To::Fixed(t) => t,
            To::Open => return None,
            To::Known(n) => n.unwrap_or((s + 1).min(3)),
        })
    }
}
const C29_CTX: &[(&str, To)] = &[
    ("{□}", To::Same),
    ("\\frac{□}{x}", To::Frac),
    ("\\frac{x}{□}", To::Frac),
    ("\\dfrac{□}{x}", To::Fixed(1)),
    ("\\dfrac{x}{□}", To::Fixed(1)),
    ("\\cfrac{□}{x}", To::Fixed(1)),
    ("\\cfrac{x}{□}", To::Fixed(1)),
    ("\\tfrac{□}{x}", To::Fixed(2)),
    ("\\tfrac{x}{□}", To::Fixed(2)),
    ("\\binom{□}{x}", To::Frac),
    ("\\binom{x}{□}", To::Frac),
    ("\\dbinom{x}{□}", To::Fixed(1)),
    ("\\tbinom{□}{x}", To::Fixed(2)),
    ("\\genfrac{(}{)}{1pt}{}{□}{x}", To::Frac),
    ("\\genfrac{(}{)}{1pt}{0}{□}{x}", To::Known(Some(1))),
    ("\\genfrac{}{}{0pt}{1}{x}{□}", To::Known(Some(2))),
    ("\\genfrac{}{]}{}{2}{□}{x}", To::Known(Some(3))),
    ("\\genfrac{}{}{}{3}{x}{□}", To::Known(Some(3))),
    ("{x\\over □}", To::Frac),
    ("{x\\choose □}", To::Frac),
    ("{x\\atop □ y}", To::Frac),
    ("{x\\brace □}", To::Frac),
    ("{□\\over x}", To::Known(None)),
    ("x^{□}", To::Script),
    ("x_{□}", To::Script),
    ("x_y^{□}", To::Script),
    ("x'^{□}", To::Script),
    ("^{□}x", To::Script),
    ("{}_{□}", To::Script),
    ("\\sum_{□}", To::Script),
    ("\\sum\\limits^{□}", To::Script),
    ("\\sum\\nolimits_{□}", To::Script),
    ("\\int_x^{□}", To::Script),
    ("\\int\\limits_x^{□}", To::Script),
    ("\\lim_{□}x", To::Script),
    ("\\operatorname*{x}_{□}", To::Script),
    ("\\operatorname{x}^{□}", To::Script),
    ("\\overbrace{x}^{□}", To::Script),
    ("\\underbrace{x}_{□}", To::Script),
    ("\\overbrace{□}", To::Open),
    ("\\underbrace{□}_{x}", To::Open),
    ("\\boxed{□}", To::Open),
    ("\\sqrt{□}", To::Same),
    ("\\sqrt[x]{□}", To::Same),
    ("\\sqrt[{□}]{x}", To::Fixed(3)),
    ("\\sqrt[\\displaystyle {□}]{x}", To::Fixed(0)),
    ("\\sqrt[\\color{red}{□}]{x}", To::Fixed(3)),
    ("\\overset{□}{x}", To::Script),
    ("\\overset{x}{□}", To::Same),
    ("\\underset{□}{x}", To::Script),
    ("\\underset{x}{□}", To::Same),
    ("\\stackrel{□}{=}", To::Script),
    ("\\xrightarrow{□}", To::Script),
    ("\\xrightarrow[{□}]{x}", To::Script),
    ("\\xleftarrow[x]{□}", To::Script),
    ("\\xleftarrow[\\color{red}{□}]{x}", To::Script),
    ("\\xleftarrow[\\scriptscriptstyle {□}]{x}", To::Fixed(3)),
    ("\\xleftarrow[\\displaystyle y]{□}", To::Script),
    ("\\sideset{_{□}}{}\\sum", To::Script),
    ("\\sideset{}{^{□}}\\sum", To::Script),
    ("\\prescript{□}{}{x}", To::Script),
    ("\\prescript{x}{□}{y}", To::Script),
    ("\\prescript{x}{y}{□}", To::Same),
    ("\\left(□\\right)", To::Same),
    ("\\left(x\\middle|□\\right)", To::Same),
    ("\\left(x\\right)_{□}", To::Script),
    ("\\begin{matrix}□\\end{matrix}", To::Fixed(1)),
    ("\\begin{pmatrix}x&□\\\\y\\end{pmatrix}", To::Fixed(1)),
    ("\\begin{Vmatrix}x\\\\□\\end{Vmatrix}", To::Fixed(1)),
    ("\\begin{array}{c|c}x&□\\end{array}", To::Fixed(1)),
    ("\\begin{darray}{c}□\\end{darray}", To::Fixed(0)),
    ("\\begin{cases}□&x\\end{cases}", To::Fixed(1)),
    ("\\begin{rcases}x&□\\end{rcases}", To::Fixed(1)),
    ("\\begin{dcases}x&□\\end{dcases}", To::Fixed(0)),
    ("\\begin{drcases}□\\end{drcases}", To::Fixed(0)),
    ("\\begin{aligned}x&□\\end{aligned}", To::Fixed(0)),
    ("\\begin{gathered}□\\end{gathered}", To::Fixed(0)),
    ("\\begin{subarray}{l}x\\\\□\\end{subarray}", To::Fixed(2)),
    ("\\displaystyle □", To::Fixed(0)),
    ("\\textstyle □", To::Fixed(1)),
    ("\\scriptstyle □", To::Fixed(2)),
    ("\\scriptscriptstyle □", To::Fixed(3)),
    ("{\\scriptstyle x}□", To::Same),
    ("\\left(\\displaystyle x\\right)□", To::Same),
    ("x_{\\displaystyle y}□", To::Same),
    ("\\frac{\\displaystyle x}{□}", To::Frac),
    ("\\frac{x_{y}}{□}", To::Frac),
    ("\\sqrt{\\scriptstyle x}□", To::Same),
    ("\\sqrt[x]{y}□", To::Same),
    ("\\begin{matrix}\\displaystyle x&□\\end{matrix}", To::Fixed(1)),
    ("\\begin{aligned}\\scriptstyle x\\\\□\\end{aligned}", To::Fixed(0)),
    ("\\begin{matrix}x\\end{matrix}□", To::Same),
    ("{\\scriptstyle x\\over □}", To::Frac),
    ("{y\\scriptstyle x\\choose □}", To::Frac),
    ("{\\color{red} x\\over □}", To::Frac),
    ("\\begin{matrix}\\scriptstyle x\\over y&□\\end{matrix}", To::Fixed(1)),
    ("\\begin{aligned}\\scriptstyle x\\over □\\end{aligned}", To::Fixed(1)),
    ("\\left(\\displaystyle x\\over □\\right)", To::Frac),
    ("\\left(\\scriptstyle x\\middle|□\\right)", To::Open),
    ("{x\\over \\scriptstyle y}□", To::Same),
    ("{x\\over y}□", To::Same),
    ("x\\bf □", To::Same),
    ("\\color{red}□", To::Same),
    ("\\color{red}\\scriptstyle □", To::Fixed(2)),
    ("\\scriptstyle\\color{red}□", To::Fixed(2)),
    ("\\textcolor{red}{□}", To::Same),
    ("\\textcolor{red}{\\scriptstyle x}□", To::Same),
    ("\\phantom{□}", To::Same),
    ("\\vphantom{□}", To::Same),
    ("\\cancel{□}", To::Same),
    ("\\mathbin{□}", To::Same),
    ("\\mathrel{□}", To::Same),
    ("\\mathop{□}", To::Same),
    ("\\mathop{x}_{□}", To::Script),
    ("\\mathord{□}", To::Same),
    ("\\hat{□}", To::Same),
    ("\\widehat{□}", To::Same),
    ("\\overline{□}", To::Same),
    ("\\underline{□}", To::Same),
    ("\\overrightarrow{□}", To::Same),
    ("\\bra{□}", To::Same),
    ("\\cramped{□}", To::Same),
    ("\\cramped[\\displaystyle]{□}", To::Fixed(0)),
    ("\\cramped[\\scriptstyle]{□}", To::Fixed(2)),
    ("\\cramped[\\scriptscriptstyle]{x}□", To::Same),
    ("\\mathrm{□}", To::Same),
    ("\\mathbf{x □}", To::Same),
    ("\\pmod{□}", To::Same),
    ("\\text{x}□", To::Same),
    ("\\mathchoice{□}{□}{□}{□}", To::Same),
    ("\\mathchoice{\\scriptstyle}{\\scriptstyle}{\\displaystyle}{\\displaystyle}□", To::Open),
];
/// Only at the outermost level.
const C29_TOP: &[(&str, To)] = &[
    ("\\begin{align}x&□\\end{align}", To::Fixed(0)),
    ("\\begin{align*}□\\end{align*}", To::Fixed(0)),
    ("\\begin{equation}□\\end{equation}", To::Fixed(0)),
    ("\\begin{equation*}x □\\end{equation*}", To::Fixed(0)),
    ("\\begin{gather}□\\end{gather}", To::Fixed(0)),
    ("\\begin{gather*}□\\\\x\\end{gather*}", To::Fixed(0)),
    ("\\begin{multline}x\\\\□\\end{multline}", To::Fixed(0)),
];
fn c29_depth(t: Tier) -> usize {
    if let Ok(d) = std::env::var("C29_DEPTH") {
        return d.parse().unwrap();
    }
    if t == Tier::Quick { 3 } else { 4 }
}
const C29_PROBE: &str = "\\mathchoice{D}{T}{S}{X}";
fn c29(ctx: &mut Ctx) {
    let conv = Cfg::new().build();
    let depth = c29_depth(ctx.tier);
    let mut seen = std::collections::HashSet::new();
    // the contexts that are accepted alone
    let n = C29_CTX.len();
    for outer in 0..C29_TOP.len() + n + 1 {
        for second in 0..=n {
            if !ctx.mine() {
                continue;
            }
            if outer == C29_TOP.len() + n && second != n {
                continue;
            }
            let mut path: Vec<usize> = vec![];
            loop {
                let mut list: Vec<(&str, To)> = vec![];
                if outer < C29_TOP.len() {
                    list.push(C29_TOP[outer]);
                } else if outer < C29_TOP.len() + n {
                    list.push(C29_CTX[outer - C29_TOP.len()]);
                }
                if second < n {
                    list.push(C29_CTX[second]);
                }
                list.extend(path.iter().map(|&i| C29_CTX[i]));
                c29_case(ctx, &conv, &list, &mut seen);
                if ctx.stop {
                    return;
                }
                // the next path
                if second == n {
                    break;
                }
                let mut i = 0;
                loop {
                    if i == path.len() {
                        path.push(0);
                        break;
                    }
                    path[i] += 1;
                    // at the fourth level, every fourth context
                    while i == 1 && path[i] < n && path[i] % 4 != 1 {
                        path[i] += 1;
                    }
                    if path[i] < n {
                        break;
                    }
                    path[i] = 0;
                    i += 1;
                }
                if path.len() + 2 > depth {
                    break;
                }
            }
        }
    }
}
fn c29_case(ctx: &mut Ctx, conv: &math_core::LatexToMathML, list: &[(&str, To)], seen: &mut std::collections::HashSet<(usize, usize, usize)>) {
    if list.len() > 1 && list.iter().any(|(_, t)| matches!(t, To::Known(_))) {
        return;
    }
    // compose from the inside
    let mut src = C29_PROBE.to_string();
    for (t, _) in list.iter().rev() {
        src = t.replace('□', &src);
    }
    for blk in [true, false] {
        let mut want = Some(1 - blk as usize);
        for (i, (_, to)) in list.iter().enumerate() {
            let next = want.and_then(|s| to.apply(s));
            let next = if let To::Fixed(t) = to { Some(*t) } else { next };
            if let (Some(a), Some(b)) = (want, next) {
                ctx.transitions += 1;
                if seen.insert((i, a, b)) {
                    ctx.states += 1;
                }
            }
            want = next;
        }
        ctx.begin(&src);
        ctx.traces += 1;
        let o = local(conv, &src, if blk { BLK } else { INL });
        let Some(m) = o.ok() else {
            // nothing in these contexts can be wrong, except for two infix commands in one group
            if matches!(&o, Out::Err { msg, .. } if msg.contains("multiple infix commands")) {
                ctx.class("infix");
                continue;
            }
            ctx.violation(&src, &src, &format!("not accepted: {}", o.show()));
            continue;
        };
        if list.len() <= 3 {
            ctx.outcome(m);
        }
        let el = xml::parse(m).expect("well-formed");
        let mut got: Vec<(usize, MStyle)> = vec![];
        styles(&el, ROOT, &mut |e, s| {
            if e.els().next().is_none() {
                for (i, c) in C29_NAMES.iter().enumerate() {
                    let t = e.text();
                    if t.chars().any(|x| x == *c || c29_variants(*c).contains(&x)) {
                        got.push((i, s));
                    }
                }
            }
        });
        let mode = if blk { "block" } else { "inline" };
        let what = match got[..] {
            [(g, s)] => {
                let rendered = if s.level == 0 {
                    1 - s.display as usize
                } else {
                    (s.level as usize + 1).min(3)
                };
                ctx.class(&format!("{}", C29_NAMES[g]));
                if want.is_some_and(|w| w != g) {
                    Some(format!("{mode}: \\mathchoice takes {}, TeX is in {}: {m}", STY[g], STY[want.unwrap()]))
                } else if rendered != g {
                    Some(format!("{mode}: \\mathchoice takes {}, the output is rendered in {}: {m}", STY[g], STY[rendered]))
                } else {
                    None
                }
            }
            _ => Some(format!("{mode}: {} letters were found: {m}", got.len())),
        };
        if let Some(w) = what {
            let key = match list {
                [(_, To::Known(_))] => format!("{src} {mode} {}", got.first().map_or('?', |g| C29_NAMES[g.0])),
                _ => src.clone(),
            };
            ctx.violation(&key, &src, &w);
        }
    }
}
/// The letter in the fonts used above.
fn c29_variants(c: char) -> [char; 1] {
    [char::from_u32(0x1D400 + (c as u32 - 'A' as u32)).unwrap()]
}

// ---------------------------------------------------------------- C17

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum Font {
    It,
    Rm,
    Bf,
    Cal,
    Tt,
    Sf,
    /// not specified: TeX resets the font at the start of a cell
    Any,
}
#[derive(Clone, Copy, Debug)]
enum Act {
    Font(&'static str, Font),
    Color(&'static str, &'static str),
    Style(&'static str, usize),
    /// opener, closer, effect
    Open(&'static str, &'static str, To, Eff),
    Close,
    Sep(&'static str),
    Over(&'static str),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Eff {
    None,
    Font(Font),
    Color(&'static str),
    Cells,
    /// the argument becomes a group of its own, in which an infix command is possible
    NoInfix,
}
use Act::{Close, Color, Font as F, Open, Over, Sep, Style};
const C17_ACTS: &[Act] = &[
    F("\\bf ", self::Font::Bf),
    F("\\rm ", self::Font::Rm),
    F("\\cal ", self::Font::Cal),
    Color("\\color{red}", "FF0000"),
    Color("\\color{blue}", "0000FF"),
    Style("\\scriptstyle ", 2),
    Style("\\displaystyle ", 0),
    Close,
    Sep("&"),
    Over("\\over "),
    Open("{", "}", To::Same, Eff::None),
    Open("x^{", "}", To::Script, Eff::None),
    Open("\\sqrt{", "}", To::Same, Eff::None),
    Open("\\frac{x}{", "}", To::Frac, Eff::None),
    Open("\\left(", "\\right)", To::Same, Eff::None),
    Open("\\begin{matrix}", "\\end{matrix}", To::Fixed(1), Eff::Cells),
    Open("\\mathbf{", "}", To::Same, Eff::Font(self::Font::Bf)),
    Open("\\mathrm{", "}", To::Same, Eff::Font(self::Font::Rm)),
    Open("\\textcolor{lime}{", "}", To::Same, Eff::Color("BFFF04")),
    Open("\\sqrt[", "]{x}", To::Fixed(3), Eff::None),
    // the second half: thorough, and in short sequences
    F("\\it ", self::Font::It),
    F("\\tt ", self::Font::Tt),
    F("\\sf ", self::Font::Sf),
    Style("\\textstyle ", 1),
    Style("\\scriptscriptstyle ", 3),
    Color("\\color[HTML]{123456}", "123456"),
    Sep("\\\\"),
    Over("\\choose "),
    Over("\\atop "),
    Open("\\begingroup ", "\\endgroup ", To::Same, Eff::None),
    Open("\\mathcal{", "}", To::Same, Eff::Font(self::Font::Cal)),
    Open("\\mathtt{", "}", To::Same, Eff::Font(self::Font::Tt)),
    Open("\\mathsf{", "}", To::Same, Eff::Font(self::Font::Sf)),
    Open("\\mathit{", "}", To::Same, Eff::Font(self::Font::It)),
    Open("\\begin{aligned}", "\\end{aligned}", To::Fixed(0), Eff::Cells),
    Open("\\begin{cases}", "\\end{cases}", To::Fixed(1), Eff::Cells),
    Open("\\begin{array}{cc}", "\\end{array}", To::Fixed(1), Eff::Cells),
    Open("\\hat{", "}", To::Same, Eff::None),
    Open("\\overline{", "}", To::Same, Eff::None),
    Open("\\overset{x}{", "}", To::Same, Eff::None),
    Open("x_{", "}", To::Script, Eff::None),
    Open("\\sum_{", "}", To::Script, Eff::None),
    Open("\\binom{x}{", "}", To::Frac, Eff::None),
    Open("\\mathbin{", "}", To::Same, Eff::None),
    Open("\\mathop{", "}", To::Same, Eff::None),
    Open("\\phantom{", "}", To::Same, Eff::None),
    Open("\\cancel{", "}", To::Same, Eff::None),
    Open("\\cramped{", "}", To::Same, Eff::None),
    Open("\\xrightarrow{", "}", To::Script, Eff::None),
    Open("\\xrightarrow[", "]{x}", To::Script, Eff::None),
    Open("\\sideset{_{", "}}{}\\sum ", To::Script, Eff::None),
    Open("\\prescript{}{", "}{x}", To::Script, Eff::None),
];
const C17_CORE: usize = 20;

/// A place where atoms are put: in a group, before or behind its infix command.
#[derive(Clone, Debug)]
struct Group {
    parent: Option<Place>,
    to: To,
    infix: bool,
}
#[derive(Clone, Copy, Debug)]
struct Place {
    group: usize,
    style: Option<usize>,
}
#[derive(Clone, Debug)]
struct Frame {
    close: &'static str,
    to: To,
    eff: Eff,
    /// the state outside
    font: Font,
    color: &'static str,
    place: Place,
}
#[derive(Clone)]
struct C17St {
    src: String,
    groups: Vec<Group>,
    frames: Vec<Frame>,
    font: Font,
    color: &'static str,
    place: Place,
    probes: Vec<(Font, &'static str, Place)>,
}
impl C17St {
    fn new() -> Self {
        C17St {
            src: "a".into(),
            groups: vec![Group { parent: None, to: To::Same, infix: false }],
            frames: vec![],
            font: self::Font::It,
            color: "",
            place: Place { group: 0, style: None },
            probes: vec![(self::Font::It, "", Place { group: 0, style: None })],
        }
    }
    fn probe(&mut self) {
        self.src.push('a');
        self.probes.push((self.font, self.color, self.place));
    }
    fn enter(&mut self, to: To, parent: Place) {
        self.groups.push(Group { parent: Some(parent), to, infix: false });
        self.place = Place { group: self.groups.len() - 1, style: None };
    }
    fn close(&mut self) {
        let f = self.frames.pop().unwrap();
        self.src.push_str(f.close);
        self.font = f.font;
        self.color = f.color;
        self.place = f.place;
        self.probe();
    }
    fn step(&self, a: Act) -> Option<C17St> {
        let mut s = self.clone();
        match a {
            F(t, f) => {
                s.src.push_str(t);
                s.font = f;
                s.probe();
            }
            Color(t, c) => {
                s.src.push_str(t);
                s.color = c;
                s.probe();
            }
            Style(t, n) => {
                s.src.push_str(t);
                s.place.style = Some(n);
                s.probe();
            }
            Open(t, close, to, eff) => {
                s.src.push_str(t);
                s.frames.push(Frame { close, to, eff, font: s.font, color: s.color, place: s.place });
                s.enter(to, self.place);
                match eff {
                    Eff::Font(f) => s.font = f,
                    Eff::Color(c) => s.color = c,
                    Eff::Cells => s.font = self::Font::Any,
                    _ => (),
                }
                s.probe();
            }
            Close => {
                s.frames.last()?;
                s.close();
            }
            Sep(t) => {
                let f = s.frames.last()?.clone();
                if f.eff != Eff::Cells {
                    return None;
                }
                s.src.push_str(t);
                s.font = self::Font::Any;
                s.color = f.color;
                s.enter(f.to, f.place);
                s.probe();
            }
            Over(t) => {
                if s.groups[s.place.group].infix || s.frames.last().is_some_and(|f| f.eff == Eff::NoInfix) {
                    return None;
                }
                s.src.push_str(t);
                s.groups[s.place.group].infix = true;
                s.place.style = None;
                s.probe();
            }
        }
        Some(s)
    }
    fn style(&self, p: Place, root: usize) -> usize {
        if let Some(s) = p.style {
            return s;
        }
        let g = &self.groups[p.group];
        let outer = g.parent.map_or(root, |p| self.style(p, root));
        let base = g.to.apply(outer).unwrap();
        if g.infix { To::Frac.apply(base).unwrap() } else { base }
    }
}
/// Openers, closers and what a bar means inside: as outside, or form and stretchy.
const C17_BARS: &[(&str, &str, Option<usize>)] = &[("\\set{", "}", Some(1)), ("\\Set{", "}", Some(2)), ("\\Braket{", "}", Some(3)), ("{", "}", None), ("\\left(", "\\right)", None), ("\\frac{x}{", "}", None), ("\\begin{matrix}x&", "\\end{matrix}", None), ("\\bra{", "}", None), ("\\color{red}{", "}", None)];
/// Every path of openers and closers, with a bar behind every step.
fn c17_bars(ctx: &mut Ctx, conv: &math_core::LatexToMathML, path: &mut Vec<usize>, left: usize) {
    let mine = path.len() > 2 || ctx.mine();
    if path.len() == 2 && !mine || mine && !c17_bar(ctx, conv, path) || left == 0 || ctx.stop {
        return;
    }
    for a in 0..=C17_BARS.len() {
        path.push(a);
        c17_bars(ctx, conv, path, left - 1);
        path.pop();
    }
}
fn c17_bar(ctx: &mut Ctx, conv: &math_core::LatexToMathML, path: &[usize]) -> bool {
    let n = C17_BARS.len();
    {
        let mut src = "|".to_string();
        let mut stack = vec![];
        let mut cur = 0;
        let mut want = vec![0];
        for &a in path.iter() {
            if a < n {
                let (open, close, to) = C17_BARS[a];
                src += open;
                stack.push((close, cur));
                cur = to.unwrap_or(cur);
            } else {
                let Some((close, old)) = stack.pop() else { return false };
                src += close;
                cur = old;
            }
            src += "|";
            want.push(cur);
            ctx.transitions += 1;
        }
        while let Some((close, old)) = stack.pop() {
            src += close;
            src += "|";
            want.push(old);
        }
        ctx.begin(&src);
        ctx.traces += 1;
        let o = local(conv, &src, BLK);
        let what = match o.ok() {
            None => Some(o.show()),
            Some(m) => {
                ctx.class("bars");
                let mut got = vec![];
                let el = xml::parse(m).expect("well-formed");
                el.walk(&mut |e| {
                    // the delimiter of \\bra has form="postfix"
                    if e.name == "mo" && e.text() == "|" && e.attr("form") != Some("postfix") {
                        got.push(match (e.attr("form"), e.attr("stretchy"), e.attr("lspace")) {
                            (None, ..) => 0,
                            (_, Some("true"), Some(l)) if l != "0" => 3,
                            (_, Some("true"), _) => 2,
                            _ => 1,
                        });
                    }
                });
                // in scripts and fractions, the last two may look alike
                let same = got.len() == want.len() && got.iter().zip(&want).all(|(g, w)| g == w || *g == 2 && *w == 3);
                if same { None } else { Some(format!("the bars mean {got:?} instead of {want:?}: {m}")) }
            }
        };
        if let Some(w) = what {
            ctx.violation(&src, &src, &w);
        }
    }
    true
}
fn c17_len(t: Tier) -> (usize, usize) {
    if t == Tier::Quick { (5, 3) } else { (6, 4) }
}
fn c17(ctx: &mut Ctx) {
    let conv = Cfg::new().build();
    // known findings: macros whose argument is not a group
    for m in ["bra", "ket", "braket", "set"] {
        if !ctx.mine() {
            continue;
        }
        for (sw, what) in [("\\bf ", "𝐚"), ("\\color{red}", "color")] {
            let src = format!("\\{m}{{{sw}a}}b");
            ctx.begin(&src);
            let o = local(&conv, &src, BLK);
            let leak = match o.ok() {
                Some(m) if what == "color" => !m.ends_with("</mrow><mo stretchy=\"false\">⟩</mo><mi>b</mi></math>") && !m.ends_with("|</mo><mi>b</mi></math>") && !m.ends_with("}</mo><mi>b</mi></math>"),
                Some(m) => !m.contains("<mi>b</mi>"),
                None => true,
            };
            if leak {
                ctx.violation(&src, &src, &format!("the switch is not confined to the argument: {}", o.show()));
            }
        }
    }
    let bars = ctx.pick(6, 7);
    c17_bars(ctx, &conv, &mut vec![], bars);
    let (core, full) = c17_len(ctx.tier);
    let mut seen = std::collections::HashSet::new();
    for (acts, n, first) in [(&C17_ACTS[..C17_CORE], core, 0), (C17_ACTS, full, C17_CORE)] {
        for a in 0..acts.len() {
            for b in 0..acts.len() {
                if !ctx.mine() {
                    continue;
                }
                let Some(s) = C17St::new().step(acts[a]) else { continue };
                if b == 0 && a >= first {
                    c17_case(ctx, &conv, &s);
                }
                if let Some(t) = s.step(acts[b]) {
                    c17_rec(ctx, &conv, acts, &t, n - 2, a.max(b) >= first, first, &mut seen);
                }
                if ctx.stop {
                    return;
                }
            }
        }
    }
}
#[allow(clippy::too_many_arguments)]
fn c17_rec(ctx: &mut Ctx, conv: &math_core::LatexToMathML, acts: &[Act], s: &C17St, left: usize, new: bool, first: usize, seen: &mut std::collections::HashSet<(Font, &'static str, usize, usize)>) {
    if ctx.stop {
        return;
    }
    // sequences over the core alphabet only are explored (deeper) in the first round
    if new {
        if seen.insert((s.font, s.color, s.style(s.place, 0), s.frames.len())) {
            ctx.states += 1;
        }
        c17_case(ctx, conv, s);
    }
    if left == 0 {
        return;
    }
    for (i, a) in acts.iter().enumerate() {
        if !new && left == 1 && i < first {
            continue;
        }
        if let Some(t) = s.step(*a) {
            ctx.transitions += 1;
            c17_rec(ctx, conv, acts, &t, left - 1, new || i >= first, first, seen);
        }
    }
}
fn c17_case(ctx: &mut Ctx, conv: &math_core::LatexToMathML, s: &C17St) {
    let mut s = s.clone();
    while !s.frames.is_empty() {
        s.close();
    }
    let blk = s.src.len() % 2 == 0;
    ctx.begin(&s.src);
    ctx.traces += 1;
    let o = local(conv, &s.src, if blk { BLK } else { INL });
    let Some(m) = o.ok() else {
        ctx.violation(&s.src, &s.src, &format!("not accepted: {}", o.show()));
        return;
    };
    if s.probes.len() < 7 {
        ctx.outcome(m);
    }
    let el = xml::parse(m).expect("well-formed");
    let mut got: Vec<(Font, String, MStyle)> = vec![];
    c17_read(&el, ROOT, "", &mut got);
    let what = if got.len() != s.probes.len() {
        Some(format!("{} letters instead of {}", got.len(), s.probes.len()))
    } else {
        got.iter().zip(&s.probes).enumerate().find_map(|(i, ((f, c, st), (wf, wc, wp)))| {
            let ws = s.style(*wp, 1 - blk as usize);
            let rendered = if st.level == 0 { 1 - st.display as usize } else { (st.level as usize + 1).min(3) };
            if *wf != self::Font::Any && f != wf {
                Some(format!("letter {} is in {f:?} instead of {wf:?}", i + 1))
            } else if c != wc {
                Some(format!("letter {} has the colour {c:?} instead of {wc:?}", i + 1))
            } else if rendered != ws {
                Some(format!("letter {} is in {} instead of {}", i + 1, STY[rendered], STY[ws]))
            } else {
                None
            }
        })
    };
    if let Some(w) = what {
        ctx.violation(&s.src, &s.src, &format!("{}: {w}: {m}", if blk { "block" } else { "inline" }));
    }
}
fn c17_read(e: &El, inherited: MStyle, color: &str, out: &mut Vec<(Font, String, MStyle)>) {
    let s = own_style(e, inherited);
    let own = e.attr("style").and_then(|v| v.split(';').find_map(|d| d.trim().strip_prefix("color:#")));
    let color = own.unwrap_or(color);
    if e.els().next().is_none() {
        let t = e.text();
        let long = t.chars().count() > 1 || e.attr("mathvariant") == Some("normal");
        for c in t.chars() {
            let f = match c {
                'a' if long => self::Font::Rm,
                'a' | '𝑎' => self::Font::It,
                '𝐚' => self::Font::Bf,
                '𝒶' | '𝓪' => self::Font::Cal,
                '𝚊' => self::Font::Tt,
                '𝖺' => self::Font::Sf,
                _ => continue,
            };
            out.push((f, color.to_string(), s));
        }
    }
    for (i, k) in e.els().enumerate() {
        c17_read(k, child_style(e, i, s), color, out);
    }
}

//! C01-C03: oracles that apply to every input of the generic universe.
use crate::conv::*;
use crate::engine::*;
use crate::vocab::*;
use crate::xml::{self, El, N};
use math_core::*;

pub fn specs() -> Vec<Spec> {
    vec![
        Spec {
            id: "C01",
            level: "exploration",
            rule: "A case is one (configuration, display mode, input) triple, evaluated on the real converter with all debug assertions on; distinct non-trivial = distinct results (output or error incl. position). Inputs are all token sequences within the bounds plus every nesting/growth family at every listed size.",
            bounds: |t| format!("{}; {} nesting families x sizes {:?}; {} growth programs", c01_sizes(t).describe(), NEST.len(), NEST_SIZES, GROWTH.len()),
            assumptions: &["the harness build (optimised, debug assertions and overflow checks on, 8 MiB stack, 3 GiB address space) stands for all builds"],
            run: c01,
            workers: 8,
            prepare: None,
        },
        Spec {
            id: "C02",
            level: "exploration",
            rule: "A case is one (configuration, display mode, input) triple; the result is parsed by a strict XML parser and matched against the whitelist of elements and attributes; text-carrying inputs are compared with the decoded text. distinct non-trivial = distinct results.",
            bounds: |t| format!("{}; all strings over the XML-special alphabet up to length {} in every text position", c02_sizes(t).describe(), c02_len(t)),
            assumptions: &["control characters that XML forbids are excluded from the text alphabet", "configuration strings (id prefix, CSS class) are trusted, as documented"],
            run: c02,
            workers: 8,
            prepare: None,
        },
        Spec {
            id: "C03",
            level: "exploration",
            rule: "A case is one (display mode, input) pair; every successful output is parsed and every element checked against the MathML Core content model. distinct non-trivial = distinct successful outputs.",
            bounds: |t| c02_sizes(t).describe(),
            assumptions: &["the content model in the harness is MathML Core's plus HTML phrasing content inside mtext"],
            run: c03,
            workers: 8,
            prepare: None,
        },
    ]
}

fn c01_sizes(t: Tier) -> Sizes {
    if t == Tier::Quick {
        Sizes { single_ctx: 999, pair_ctx: 3, mid_pair_ctx: 60, mid_len: 3, small_len: 3, tiny_len: 5, scale: 300 }
    } else {
        Sizes { single_ctx: 999, pair_ctx: 99, mid_pair_ctx: 999, mid_len: 3, small_len: 5, tiny_len: 6, scale: 1001 }
    }
}
fn c02_sizes(t: Tier) -> Sizes {
    if t == Tier::Quick {
        Sizes { single_ctx: 999, pair_ctx: 2, mid_pair_ctx: 60, mid_len: 3, small_len: 3, tiny_len: 5, scale: 300 }
    } else {
        Sizes { single_ctx: 999, pair_ctx: 99, mid_pair_ctx: 999, mid_len: 3, small_len: 4, tiny_len: 6, scale: 1001 }
    }
}

/// (prefix, middle, suffix): prefix^n middle suffix^n
const NEST: &[(&str, &str, &str)] = &[
    ("{", "a", "}"), ("{", "", ""), ("", "", "}"), ("\\sqrt{", "a", "}"), ("\\sqrt ", "a", ""), ("\\sqrt[", "a", "]b"), ("x^{", "a", "}"), ("x_{", "a", "}"), ("\\frac{", "a", "}b"), ("\\frac b{", "a", "}"), ("\\frac ", "a", "b"),
    ("\\left(", "a", "\\right)"), ("\\left(", "a", ""), ("\\begin{matrix}", "a", "\\end{matrix}"), ("\\begin{align}", "a", "\\end{align}"), ("\\begin{array}{c}", "a", "\\end{array}"), ("\\begin{matrix}a&", "a", "\\\\b\\end{matrix}"),
    ("\\mathbf{", "a", "}"), ("\\mathbf ", "a", ""), ("\\hat ", "a", ""), ("\\overline{", "a", "}"), ("\\overset{", "a", "}b"), ("\\overset b", "a", ""), ("\\overset b{", "a", "}"), ("\\underset{", "a", "}b"),
    ("\\not ", "=", ""), ("\\phantom ", "a", ""), ("\\cramped ", "a", ""), ("\\cramped{", "a", "}"), ("\\boxed{", "a", "}"), ("\\cancel ", "a", ""),
    ("\\displaystyle ", "a", ""), ("\\color{red}", "a", ""), ("{\\color{red}", "a", "}"), ("\\textstyle{", "a", "}"), ("\\bf ", "a", ""), ("{\\bf ", "a", "}"),
    ("\\text{", "a", "}"), ("\\textbf{", "a", "}"), ("\\text{\\textbf{", "a", "}}"), ("\\text{{", "a", "}}"), ("\\raisebox{1pt}{", "a", "}"), ("\\text{$", "a", "$}"),
    ("\\mathbin{", "a", "}"), ("\\mathbin ", "a", ""), ("\\mathop{", "a", "}"), ("\\mathchoice{", "a", "}{}{}{}"), ("\\mathchoice{}{}{}{", "a", "}"), ("\\xrightarrow{", "a", "}"), ("\\xrightarrow[", "a", "]{}"), ("\\underbrace{", "a", "}_b"),
    ("\\prescript{", "a", "}bc"), ("\\prescript bc{", "a", "}"), ("\\sideset{_{", "a", "}}{}\\sum"), ("\\substack{", "a", "}"), ("\\bra{", "a", "}"), ("\\Braket{", "a", "}"), ("\\set{", "a", "}"), ("\\pmod{", "a", "}"),
    ("\\def\\q{", "a", "}"), ("\\genfrac(){0pt}{0}{", "a", "}b"), ("a'", "", ""), ("'", "", ""), ("a^", "", ""), ("_", "", ""), ("a\\over ", "", ""), ("{a\\over ", "b", "}"), ("{a\\choose{", "b", "}}"),
    ("%\n", "a", ""), ("%c\n ", "a", ""), (" ", "a", " "), ("\\relax ", "a", ""), ("\\global", "\\def\\q{}", ""), ("\\limits", "", ""), ("\\sum\\limits", "", ""), ("a&", "", ""), ("\\\\", "", ""), ("\\nonumber ", "", ""),
    ("1", "", ""), ("a", "", ""), ("\\alpha", "", ""), ("1.", "", ""), ("\\nope ", "", ""), ("\\", "", ""), ("#", "", ""), ("#1", "", ""), ("\u{1d400}", "", ""), ("\u{301}", "", ""), ("\\middle|", "", ""), ("\\dots ", "", ""), ("\\,", "", ""),
    ("\\begin{gather}", "a", "\\end{gather}"), ("\\begin{cases}", "a&b", "\\end{cases}"), ("\\begin{subarray}{c}", "a", "\\end{subarray}"), ("\\mathrm{", "ab", "}"), ("\\operatorname{", "a", "}"), ("\\big", "(", ""), ("[", "a", "]"), ("(", "a", ")"),
    ("\\hphantom{", "a", "}"), ("\\smash{", "a", "}"), ("\\tag{", "", "}"), ("\\let\\q", "=", ""), ("\\overbrace ", "a", "^b"), ("\\stackrel{", "a", "}="), ("\\binom{", "a", "}b"), ("\\dfrac{", "a", "}b"), ("\\textcolor{red}{", "a", "}"), ("\\rule{", "", "}{}"),
];
const NEST_SIZES: &[usize] = &[1, 2, 3, 10, 50, 100, 200, 254, 255, 256, 257, 300, 1000, 5000, 20000];

/// Programs that grow or recurse through macros.
const GROWTH: &[&str] = &[
    "\\def\\a{\\a}\\a", "\\def\\a{x\\a}\\a", "\\def\\a{\\a x}\\a", "\\def\\a{\\a\\a}\\a", "\\def\\a#1{\\a{#1#1}}\\a{x}", "\\def\\a#1{\\a{#1x}}\\a{x}", "\\def\\a#1{\\a{{#1}}}\\a{x}",
    "\\def\\a#1{#1#1}\\a{\\a{\\a{\\a{\\a{\\a{\\a{\\a{\\a{\\a{\\a{\\a{\\a{\\a{\\a{\\a{\\a{\\a{\\a{\\a{\\a{\\a{\\a{\\a{\\a{\\a{\\a{\\a{\\a{\\a{x}}}}}}}}}}}}}}}}}}}}}}}}}}}}}}",
    "\\def\\a#1{#1#1#1#1#1#1#1#1}\\def\\b#1{\\a{\\a{\\a{#1}}}}\\def\\c#1{\\b{\\b{\\b{#1}}}}\\c{\\c{x}}",
    "\\def\\a{\\b\\b}\\def\\b{\\c\\c}\\def\\c{\\d\\d}\\def\\d{\\e\\e}\\def\\e{\\f\\f}\\def\\f{\\g\\g}\\def\\g{\\h\\h}\\def\\h{\\i\\i}\\def\\i{\\j\\j}\\def\\j{xx}\\a",
    "\\def\\a{\\b}\\def\\b{\\a}\\a", "\\newcommand\\a{\\a}\\a", "\\def\\a{{\\a}}\\a", "\\def\\a{\\sqrt{\\a}}\\a", "\\def\\a{\\frac\\a\\a}\\a", "\\def\\a{x^\\a}\\a", "\\def\\a{x^{\\a}}\\a", "\\def\\a{\\left(\\a\\right)}\\a", "\\def\\a{\\displaystyle\\a}\\a", "\\def\\a{\\text{\\a}}\\a", "\\def\\a{\\mathbf\\a}\\a", "\\def\\a{\\begin{matrix}\\a\\end{matrix}}\\a",
    "\\def\\a#1{\\a#1}\\a\\a", "\\def\\a#1{\\a}\\a\\a", "\\def\\a#1#2{\\a{#2#1}{#1#2}}\\a{x}{y}", "\\def\\a#1{\\mathchoice{\\a{#1#1}}{\\a{#1#1}}{\\a{#1#1}}{\\a{#1#1}}}\\a{x}", "\\def\\a{\\dots\\a}\\a", "\\gdef\\a{\\a}\\a", "\\let\\a=\\a\\a", "\\def\\a{x}\\let\\b\\a\\def\\a{\\b\\a}\\a",
    "\\def\\a#1{\\text{\\a{#1#1}}}\\a{x}", "\\def\\a#1{\\a{\\def\\b{#1#1}}}\\a{x}", "\\def\\a#1{\\newcommand\\b{#1}\\a{#1#1}}\\a{x}", "\\def\\a#1{\\def\\b{#1}\\a{#1#1}}\\a{x}", "\\def\\a#1{\\gdef\\b{#1}\\a{#1x}}\\a{x}", "\\def\\a{\\operatorname{\\a}}\\a", "\\def\\a{\\tag{\\a}}\\begin{align}\\a\\end{align}", "\\def\\a{\\hspace{\\a}}\\a", "\\def\\a{\\raisebox{\\a}{x}}\\a", "\\def\\a{'\\a}x\\a", "\\def\\a{^\\a}x\\a", "\\def\\a{_\\a}x\\a", "\\def\\a{1\\a}\\a", "\\mathrm{\\def\\a{x\\a}\\a}", "\\def\\a{\\not\\a}\\a", "\\def\\a#1{\\sqrt{#1}\\a{\\sqrt{#1}}}\\a{x}",
    "\\def\\a#1{\\a{#1#1#1#1#1#1#1#1#1#1#1#1#1#1#1#1}}\\a{xxxxxxxxxxxxxxxx}",
];

fn c01(ctx: &mut Ctx) {
    let base = Cfg::new().build();
    let mut ign = Cfg::new();
    ign.ignore = true;
    ign.pretty = 1;
    ign.annotation = true;
    ign.unreliable = true;
    ign.no_subst = true;
    let ign = ign.mac("q", "\\frac{#1}{x#1}").build();
    let mut gl = Cfg::new();
    gl.global_group = true;
    let gl_cfg = gl;
    let sz = c01_sizes(ctx.tier);
    let mut g = gl_cfg.build();
    let mut since = 0u32;
    universe(ctx, sz, &mut |ctx, s| {
        ctx.begin(s);
        for (name, o) in [("block", local(&base, s, BLK)), ("inline", local(&base, s, INL)), ("options", local(&ign, s, BLK))] {
            ctx.class(o.class());
            if let Out::Panic(p) = &o {
                ctx.violation(&format!("{s}"), s, &format!("{name}: panicked: {p}"));
                break;
            }
            if name == "block" {
                ctx.outcome(&o.show());
            }
        }
        // The same input through the stateful entry points, on a converter with a history.
        since += 1;
        if since > 1000 {
            g = gl_cfg.build();
            since = 0;
        }
        if let Out::Panic(p) = global(&mut g, s, BLK) {
            ctx.violation(s, s, &format!("global state: panicked: {p}"));
            g = gl_cfg.build();
        }
    });
    // Nesting and length.
    for (i, (a, m, z)) in NEST.iter().enumerate() {
        for &n in NEST_SIZES {
            if ctx.mine() {
                let desc = format!("nest#{i} {a:?}^{n} {m:?} {z:?}^{n}");
                ctx.begin(&desc);
                let s = format!("{}{m}{}", a.repeat(n), z.repeat(n));
                for c in [&base, &ign] {
                    for d in [BLK, INL] {
                        let o = local(c, &s, d);
                        ctx.class(&format!("nest-{}", o.class()));
                        ctx.outcome(&format!("{}{}", o.class(), o.msg()));
                        if let Out::Panic(p) = o {
                            ctx.violation(&desc, &desc, &format!("panicked: {p}"));
                        }
                    }
                }
                let o = all(&base, &[(&s, BLK), (&s, INL)]);
                if o.iter().any(|o| o.is_panic()) {
                    ctx.violation(&desc, &desc, "convert_all panicked");
                }
                if a.len() * n < 100_000 {
                    let mut cc = Cfg::new().mac("zz", &s);
                    cc.ignore = true;
                    if let Err(e) = cc.try_build() {
                        if e.contains("PANIC") {
                            ctx.violation(&desc, &desc, &format!("as configuration macro: {e}"));
                        }
                    } else if let Out::Panic(p) = local(&cc.build(), "\\zz", BLK) {
                        ctx.violation(&desc, &desc, &format!("configuration macro panicked: {p}"));
                    }
                }
            }
        }
    }
    // Two nesting kinds alternating.
    let two: Vec<&(&str, &str, &str)> = NEST.iter().filter(|x| x.0.len() > 1 || x.0 == "{").collect();
    let ns: &[usize] = if ctx.quick() { &[120, 3000] } else { &[2, 60, 120, 126, 128, 600, 3000, 30000] };
    for (i, x) in two.iter().enumerate() {
        for (j, y) in two.iter().enumerate() {
            for &n in ns {
                if ctx.mine() {
                    let desc = format!("nest2 #{i} {:?} #{j} {:?} ^{n}", x.0, y.0);
                    ctx.begin(&desc);
                    let s = format!("{}{}{}", format!("{}{}", x.0, y.0).repeat(n), x.1, format!("{}{}", y.2, x.2).repeat(n));
                    let o = local(&base, &s, BLK);
                    ctx.class(&format!("nest-{}", o.class()));
                    ctx.outcome(&format!("{}{}", o.class(), o.msg()));
                    if let Out::Panic(p) = o {
                        ctx.violation(&desc, &desc, &format!("panicked: {p}"));
                    }
                }
            }
        }
    }
    // Long chains of definitions.
    for n in [1usize, 10, 500, 999, 1001, 5000, 50000] {
        for kind in 0..4 {
            if ctx.mine() {
                let desc = format!("definition chain kind {kind} of length {n}");
                ctx.begin(&desc);
                let name = |i: usize| -> String {
                    let mut s = String::from("\\z");
                    let mut i = i;
                    loop {
                        s.push((b'a' + (i % 26) as u8) as char);
                        i /= 26;
                        if i == 0 {
                            break s;
                        }
                    }
                };
                let mut s = String::new();
                for i in 0..n {
                    match kind {
                        0 => s.push_str(&format!("\\def{}{{{}}}", name(i), name(i + 1))),
                        1 => s.push_str(&format!("\\def{}{{{}}}", name(n - i - 1), name(n - i))),
                        2 => s.push_str(&format!("\\newcommand{}{{{} }}", name(n - i - 1), if i == 0 { "x".into() } else { name(n - i) })),
                        _ => s.push_str(&format!("\\def{}{{{}}}\\let{}{} ", name(2 * i), name(2 * i + 2), name(2 * i + 1), name(2 * i))),
                    }
                }
                s.push_str(&format!("\\gdef\\first{{{}}}", name(0)));
                s.push_str(&format!("\\global\\let\\second{} ", name(0)));
                s.push_str("\\first");
                for c in [&base, &ign] {
                    let o = local(c, &s, BLK);
                    ctx.class(&format!("chain-{}", o.class()));
                    if let Out::Panic(p) = o {
                        ctx.violation(&desc, &desc, &format!("panicked: {p}"));
                    }
                }
            }
        }
    }
    // Growth programs, alone and with their macro in the configuration.
    for p in GROWTH {
        for variant in 0..3 {
            if ctx.mine() {
                let desc = format!("growth variant {variant}: {p}");
                ctx.begin(&desc);
                let mut cfg = Cfg::new();
                if variant == 1 {
                    cfg.max_exp = Some(20000);
                }
                if variant == 2 {
                    cfg.global_group = true;
                    cfg.max_exp = Some(100);
                }
                let mut c = cfg.build();
                for d in [BLK, INL] {
                    let o = local(&c, p, d);
                    ctx.class(&format!("growth-{}", o.class()));
                    ctx.outcome(&format!("{}{}", o.class(), o.msg()));
                    if let Out::Panic(m) = o {
                        ctx.violation(&desc, &desc, &format!("panicked: {m}"));
                    }
                }
                for _ in 0..3 {
                    if let Out::Panic(m) = global(&mut c, p, BLK) {
                        ctx.violation(&desc, &desc, &format!("panicked: {m}"));
                    }
                }
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------

const ATTRS: &[(&str, &[&str])] = &[
    ("math", &["display", "xmlns"]),
    ("mi", &["mathvariant"]),
    ("mn", &[]),
    ("mo", &["form", "stretchy", "symmetric", "largeop", "movablelimits", "lspace", "rspace", "minsize", "maxsize", "accent", "separator", "fence", "style"]),
    ("mtext", &["style"]),
    ("mspace", &["width", "height", "depth", "style"]),
    ("mrow", &["style", "displaystyle", "scriptlevel", "class"]),
    ("mfrac", &["linethickness", "style", "displaystyle", "scriptlevel"]),
    ("msqrt", &[]),
    ("mroot", &[]),
    ("msub", &[]),
    ("msup", &[]),
    ("msubsup", &[]),
    ("munder", &["accentunder", "accent"]),
    ("mover", &["accent"]),
    ("munderover", &["accent", "accentunder"]),
    ("mmultiscripts", &[]),
    ("mprescripts", &[]),
    ("mtable", &["style", "displaystyle", "scriptlevel"]),
    ("mtr", &["style"]),
    ("mtd", &["style", "id"]),
    ("mpadded", &["voffset", "width", "height", "depth", "lspace", "style"]),
    ("mphantom", &[]),
    ("menclose", &["notation"]),
    ("merror", &["class"]),
    ("semantics", &[]),
    ("annotation", &["encoding"]),
    ("a", &["href"]),
    ("b", &[]),
    ("i", &[]),
    ("s", &[]),
    ("u", &[]),
    ("em", &[]),
    ("code", &[]),
    ("span", &["style", "class"]),
];
pub fn whitelist(e: &El) -> Result<(), String> {
    let Some((_, al)) = ATTRS.iter().find(|(n, _)| *n == e.name) else {
        return Err(format!("unexpected element <{}>", e.name));
    };
    for (k, _) in &e.attrs {
        if !al.contains(&k.as_str()) {
            return Err(format!("unexpected attribute {k} on <{}>", e.name));
        }
    }
    for c in e.els() {
        whitelist(c)?;
    }
    Ok(())
}

fn c02_len(t: Tier) -> usize {
    if t == Tier::Quick { 4 } else { 5 }
}

pub fn parse_ok(s: &str) -> Result<El, String> {
    let e = xml::parse(s)?;
    if e.name != "math" {
        return Err("root is not <math>".into());
    }
    whitelist(&e)?;
    Ok(e)
}

/// Positions that take literal text: (template, how to find the text in the output tree).
#[derive(Clone, Copy, PartialEq)]
enum Pos {
    Mtext,
    Operator,
    Tag,
    Eqref,
    Unknown,
    Annotation,
    Letters,
}

fn c02(ctx: &mut Ctx) {
    let base = Cfg::new().build();
    let mut o = Cfg::new();
    o.ignore = true;
    o.annotation = true;
    o.pretty = 1;
    o.xmlns = true;
    o.unreliable = true;
    let opt = o.build();
    let sz = c02_sizes(ctx.tier);
    universe(ctx, sz, &mut |ctx, s| {
        ctx.begin(s);
        for (name, c, d) in [("default", &base, BLK), ("options", &opt, INL)] {
            let o = local(c, s, d);
            ctx.class(o.class());
            match &o {
                Out::Ok { mathml, .. } => {
                    if name == "default" {
                        ctx.outcome(mathml);
                    }
                    if let Err(e) = parse_ok(mathml) {
                        ctx.violation(s, s, &format!("{name}: {e}: {mathml}"));
                        return;
                    }
                }
                Out::Err { .. } if name == "options" => {
                    if let Err(e) = error_html(c, s, d) {
                        ctx.violation(s, s, &e);
                        return;
                    }
                }
                _ => {}
            }
        }
    });
    // Literal text in every position that takes it.
    const A: &[&str] = &["<", ">", "&", "\"", "'", ";", "#", "a", "amp", "lt", "/", "=", "-", " ", "%", "é", "[", "`", "\\&", "!"];
    let mut idp = Cfg::new();
    idp.id_prefix = "p-".into();
    let idp = idp.build();
    let pos: &[(&str, Pos)] = &[
        ("\\text{□}", Pos::Mtext), ("\\textbf{□}", Pos::Mtext), ("\\text{x□y}", Pos::Mtext), ("\\raisebox{1pt}{□}", Pos::Mtext), ("\\mathrm{x}\\text{\\textit{□}}", Pos::Mtext),
        ("\\operatorname{□}", Pos::Operator), ("\\operatorname{a□b}", Pos::Operator), ("\\operatorname*{a□b}_x", Pos::Operator), ("\\not\\operatorname{a□}", Pos::Operator),
        ("\\begin{align}x\\tag{□}\\label{l}\\end{align}\\eqref{l}", Pos::Tag), ("\\begin{align}x\\tag*{a□}\\end{align}", Pos::Tag),
        ("\\begin{align}x\\label{□}\\end{align}\\eqref{□}", Pos::Eqref), ("\\eqref{□}", Pos::Eqref),
        ("\\□", Pos::Unknown), ("\\foo□", Pos::Annotation), ("□", Pos::Annotation), ("%□", Pos::Annotation), ("\\mathrm{□}", Pos::Letters), ("\\mathbf{a□}", Pos::Letters), ("\\color{□}x", Pos::Annotation), ("\\begin{□}", Pos::Annotation), ("\\begin{array}{□}", Pos::Annotation), ("\\hspace{□}", Pos::Annotation),
    ];
    let mut m = String::new();
    for (tpl, p) in pos {
        for l in 1..=c02_len(ctx.tier) {
            sequences(ctx, A, l, &mut |ctx, t| {
                fill(tpl, t, &mut m);
                ctx.begin(&m);
                for (name, c) in [("default", &base), ("options", &opt), ("prefix", &idp)] {
                    let o = local(c, &m, BLK);
                    match &o {
                        Out::Ok { mathml, .. } => {
                            if name == "default" {
                                ctx.class(&format!("{tpl} ok"));
                                ctx.outcome(mathml);
                            }
                            let r = parse_ok(mathml).and_then(|e| text_check(&e, *p, &m, t, name));
                            if let Err(e) = r {
                                ctx.violation(&m, &m, &format!("{name}: {e}: {mathml}"));
                                return;
                            }
                        }
                        Out::Err { .. } => {
                            if let Err(e) = error_html(c, &m, BLK) {
                                ctx.violation(&m, &m, &format!("{name}: {e}"));
                                return;
                            }
                        }
                        Out::Panic(p) => {
                            ctx.violation(&m, &m, &format!("panicked: {p}"));
                            return;
                        }
                    }
                }
            });
        }
    }
}

fn error_html(c: &LatexToMathML, s: &str, d: MathDisplay) -> Result<(), String> {
    let Err(e) = c.convert_with_local_state(s, d) else { return Ok(()) };
    for css in [None, Some("my-class")] {
        let h = e.to_html(s, d, css);
        let el = xml::parse_html(&h).map_err(|x| format!("error HTML {x}: {h}"))?;
        let want = if d == MathDisplay::Block { "p" } else { "span" };
        let code: Vec<&El> = el.els().collect();
        if el.name != want || el.kids.len() != 1 || code.len() != 1 || code[0].name != "code" || !code[0].attrs.is_empty() || code[0].els().count() != 0 {
            return Err(format!("error HTML is not <{want}><code>source</code></{want}>: {h}"));
        }
        if code[0].text() != s {
            return Err(format!("error HTML shows {:?} instead of the source: {h}", code[0].text()));
        }
        for (k, _) in &el.attrs {
            if !["class", "title"].contains(&k.as_str()) {
                return Err(format!("error HTML has unexpected attribute {k}: {h}"));
            }
        }
        if el.attr("class") != Some(css.unwrap_or("math-core-error")) {
            return Err(format!("error HTML has class {:?}", el.attr("class")));
        }
        let title = el.attr("title").unwrap_or("");
        let m = e.error_message();
        if !title.ends_with(&m) {
            return Err(format!("error HTML title {title:?} does not contain the message {m:?}"));
        }
    }
    Ok(())
}

/// What text mode makes of the characters of the alphabet (as TeX does).
fn text_map(s: &str, nbsp: bool) -> String {
    let mut o = String::new();
    let _ = nbsp;
    for c in s.replace("\\&", "&").chars() {
        o.push(c)
    }
    o
}

fn text_check(e: &El, p: Pos, whole: &str, t: &str, cfg: &str) -> Result<(), String> {
    let mut body = e.clone();
    if cfg == "options" {
        // annotation: exact source
        let mut found = None;
        e.walk(&mut |x| {
            if x.name == "annotation" {
                found = Some(x.text());
            }
        });
        if found.as_deref() != Some(whole) {
            return Err(format!("annotation decodes to {found:?}, not to the source"));
        }
        body.normalize();
    }
    let texts = |name: &str| {
        let mut v = Vec::new();
        body.walk(&mut |x| {
            if x.name == name {
                v.push(x.text());
            }
        });
        v
    };
    // Only XML-special characters are compared here: they must all be there, decoded, in order.
    let sp = |s: &str| -> String { s.chars().filter(|c| "<>&\"".contains(*c)).collect() };
    match p {
        Pos::Mtext => {
            let got = sp(&texts("mtext").concat());
            let want = sp(&text_map(t, false));
            if !t.contains('%') && got != want && !t.contains('"') {
                return Err(format!("text specials {got:?}, expected {want:?}"));
            }
        }
        Pos::Operator => {
            let got = sp(&texts("mo").concat());
            let want = sp(&text_map(t, false));
            if !t.contains('%') && !t.contains('"') && got != want {
                return Err(format!("operator specials {got:?}, expected {want:?}"));
            }
        }
        Pos::Tag => {
            let got = sp(&texts("mtext").first().cloned().unwrap_or_default());
            let want = sp(&text_map(t, false));
            if !t.contains('%') && got != want {
                return Err(format!("tag specials {got:?}, expected {want:?}"));
            }
        }
        Pos::Eqref => {
            // id and href must correspond to each other.
            let mut ids = Vec::new();
            let mut hrefs = Vec::new();
            body.walk(&mut |x| {
                if let Some(i) = x.attr("id") {
                    ids.push(i.to_string());
                }
                if let Some(h) = x.attr("href") {
                    hrefs.push(h.to_string());
                }
            });
            if hrefs.len() != 1 {
                return Err(format!("hrefs {hrefs:?}"));
            }
            if whole.starts_with("\\begin") && (ids.len() != 1 || hrefs[0] != format!("#{}", ids[0])) {
                return Err(format!("ids {ids:?} do not match hrefs {hrefs:?}"));
            }
            if cfg == "prefix" && !hrefs[0].starts_with("#p-") {
                return Err(format!("prefix missing in {hrefs:?}"));
            }
        }
        Pos::Unknown | Pos::Annotation | Pos::Letters => {}
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------

fn presentation(n: &str) -> bool {
    matches!(
        n,
        "mi" | "mn" | "mo" | "mtext" | "mspace" | "mrow" | "mfrac" | "msqrt" | "mroot" | "msub" | "msup" | "msubsup" | "munder" | "mover" | "munderover" | "mmultiscripts" | "mtable" | "mpadded" | "mphantom" | "menclose" | "merror" | "semantics"
    )
}
pub fn schema(e: &El) -> Result<(), String> {
    let n = e.name.as_str();
    let kids: Vec<&El> = e.els().collect();
    let has_text = e.kids.iter().any(|k| matches!(k, N::T(t) if !t.is_empty()));
    let arity = |k: usize| if kids.len() == k { Ok(()) } else { Err(format!("<{n}> has {} children instead of {k}", kids.len())) };
    let all_pres = |v: &[&El]| match v.iter().find(|k| !presentation(&k.name)) {
        Some(k) => Err(format!("<{}> inside <{n}>", k.name)),
        None => Ok(()),
    };
    let no_text = || if has_text { Err(format!("text directly inside <{n}>")) } else { Ok(()) };
    match n {
        "math" => {
            no_text()?;
            all_pres(&kids)?;
        }
        "mrow" | "msqrt" | "mtd" | "mpadded" | "mphantom" | "menclose" | "merror" => {
            no_text()?;
            all_pres(&kids)?;
        }
        "mfrac" | "mroot" | "msub" | "msup" | "munder" | "mover" => {
            no_text()?;
            arity(2)?;
            all_pres(&kids)?;
        }
        "msubsup" | "munderover" => {
            no_text()?;
            arity(3)?;
            all_pres(&kids)?;
        }
        "mmultiscripts" => {
            no_text()?;
            let pre = kids.iter().position(|k| k.name == "mprescripts");
            let (post, pres) = match pre {
                Some(p) => (&kids[..p], &kids[p + 1..]),
                None => (&kids[..], &kids[0..0]),
            };
            if post.len() % 2 != 1 || pres.len() % 2 != 0 {
                return Err(format!("<mmultiscripts> has {} + {} children", post.len(), pres.len()));
            }
            all_pres(post)?;
            all_pres(pres)?;
        }
        "mtable" => {
            no_text()?;
            if kids.is_empty() {
                return Err("<mtable> without rows".into());
            }
            if let Some(k) = kids.iter().find(|k| k.name != "mtr") {
                return Err(format!("<{}> inside <mtable>", k.name));
            }
        }
        "mtr" => {
            no_text()?;
            if kids.is_empty() {
                return Err("<mtr> without cells".into());
            }
            if let Some(k) = kids.iter().find(|k| k.name != "mtd") {
                return Err(format!("<{}> inside <mtr>", k.name));
            }
        }
        "mspace" | "mprescripts" => {
            if !e.kids.is_empty() {
                return Err(format!("<{n}> is not empty"));
            }
        }
        "mi" | "mn" | "mo" => {
            if !kids.is_empty() {
                return Err(format!("element inside <{n}>"));
            }
            if n == "mn" && !has_text {
                return Err("empty <mn>".into());
            }
        }
        "mtext" | "a" | "b" | "i" | "s" | "u" | "em" | "code" | "span" => {
            if let Some(k) = kids.iter().find(|k| !matches!(k.name.as_str(), "a" | "b" | "i" | "s" | "u" | "em" | "code" | "span")) {
                return Err(format!("<{}> inside <{n}>", k.name));
            }
        }
        "semantics" => {
            no_text()?;
            arity(2)?;
            if !presentation(&kids[0].name) || kids[1].name != "annotation" {
                return Err("bad <semantics>".into());
            }
        }
        "annotation" => {
            if !kids.is_empty() {
                return Err("element inside <annotation>".into());
            }
        }
        _ => return Err(format!("unknown element <{n}>")),
    }
    for k in kids {
        schema(k)?;
    }
    Ok(())
}

fn c03(ctx: &mut Ctx) {
    let base = Cfg::new().build();
    let mut o = Cfg::new();
    o.ignore = true;
    o.annotation = true;
    o.pretty = 1;
    o.unreliable = true;
    o.no_subst = true;
    let opt = o.build();
    let sz = c02_sizes(ctx.tier);
    universe(ctx, sz, &mut |ctx, s| {
        ctx.begin(s);
        for (name, c, d) in [("default", &base, BLK), ("options", &opt, INL)] {
            let o = local(c, s, d);
            ctx.class(o.class());
            match &o {
                Out::Ok { mathml, .. } => {
                    if name == "default" {
                        ctx.outcome(mathml);
                    }
                    match xml::parse_norm(mathml) {
                        Ok(e) => {
                            if let Err(w) = schema(&e) {
                                ctx.violation(s, s, &format!("{name}: {w}: {mathml}"));
                                return;
                            }
                        }
                        Err(w) => {
                            ctx.violation(s, s, &format!("{name}: {w}: {mathml}"));
                            return;
                        }
                    }
                }
                Out::Panic(p) => {
                    ctx.violation(s, s, &format!("panicked: {p}"));
                    return;
                }
                Out::Err { .. } => {}
            }
        }
    });
}

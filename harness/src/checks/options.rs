//! C04, C05: relations between the outputs of one input under different output options.
use crate::conv::*;
use crate::engine::*;
use crate::vocab::*;
use crate::xml::{self, El, N};
use math_core::*;

pub fn specs() -> Vec<Spec> {
    vec![
        Spec {
            id: "C04",
            level: "exploration",
            rule: "A case is one input; it is converted with the three pretty-print settings, both display modes, several indentation units, with and without annotation, and the results are related to each other. distinct non-trivial = distinct pretty-printed outputs.",
            bounds: |t| format!("{}; option combinations as listed in DESIGN.md", sizes(t).describe()),
            assumptions: &["the indentation relation is evaluated on inputs without line breaks and tabs, where every line of the output is the converter's own"],
            run: c04,
            workers: 8,
            prepare: None,
        },
        Spec {
            id: "C05",
            level: "exploration",
            rule: "A case is one input; it is converted with all eight combinations of annotation, XML namespace and id prefix in both display modes (and pretty-printed), and every result must be the plain result plus exactly the documented additions. distinct non-trivial = distinct annotated outputs.",
            bounds: |t| format!("{}; stateful snippets through the global and the batch entry point", sizes(t).describe()),
            assumptions: &[],
            run: c05,
            workers: 8,
            prepare: None,
        },
    ]
}

fn sizes(t: Tier) -> Sizes {
    if t == Tier::Quick {
        Sizes { single_ctx: 999, pair_ctx: 0, mid_pair_ctx: 40, mid_len: 2, small_len: 3, tiny_len: 4, scale: 300 }
    } else {
        Sizes { single_ctx: 999, pair_ctx: 6, mid_pair_ctx: 999, mid_len: 3, small_len: 4, tiny_len: 5, scale: 1001 }
    }
}

fn cfg(pretty: u8, indent: Option<i32>, ann: bool) -> LatexToMathML {
    let mut c = Cfg::new();
    c.pretty = pretty;
    c.indent = indent;
    c.annotation = ann;
    c.ignore = true;
    c.build()
}

/// Extra inputs: numbered environments, labels, references, nested tables and texts.
const EXTRA: &[&str] = &[
    "\\begin{align}a&b\\label{x}\\\\c&d\\nonumber\\\\e\\tag{T}\\label{y}\\end{align}\\eqref{x}\\eqref{y}\\eqref{z}",
    "\\begin{multline}a\\\\b\\\\c\\end{multline}", "\\begin{equation}a\\label{x y}\\end{equation}\\eqref{x y}", "\\begin{array}{|c||l:r|}\\hline a&b&c\\\\\\hline\\hline 1&2&3\\end{array}",
    "\\begin{cases}\\begin{matrix}a&b\\\\c&d\\end{matrix}&\\text{ if }x\\\\y\\end{cases}", "\\text{a  b \\textbf{c} d}", "\\text{ }", "\\text{a\nb}", "a % c\n b", "\\sum_{\\substack{a\\\\b}}^c x", "\\left(\\frac{a}{b}\\middle|c\\right]",
    "\\prescript{a}{b}{c}", "\\sideset{_a^b}{_c^d}\\sum_e^f", "\\cancel{\\boxed{a}b}", "\\operatorname{a b}", "\\mathrm{ab cd}", "\\sqrt[3]{\\sqrt{x}}", "\\phantom{a}\\hphantom{bc}", "{\\color{red}a\\text{b}}", "a<b&lt;", "\\text{<&>}", "\"",
    "\\overbrace{a+b}^{c}", "\\xrightarrow[a]{b}", "a\\hspace{1em}b", "\\rule{1em}{1em}", "\\raisebox{1em}{a}", "\\smash{a}", "", " ", "\\nope a\\nope", "\\begin{align}a\\end{align}\\begin{gather*}b\\tag{x}\\end{gather*}", "\u{4e2d}\\text{\u{1F600}}",
    "\\newcommand\\q[1]{\\frac{#1}{2}}\\q\\q x", "a\\over b", "\\displaystyle\\sum_a^b\\textstyle\\sum_a^b",
];

fn c04(ctx: &mut Ctx) {
    let never = cfg(0, None, false);
    let never_a = cfg(0, None, true);
    let always = cfg(1, None, false);
    let auto = cfg(2, None, false);
    let always_a = cfg(1, None, true);
    let units: Vec<(String, LatexToMathML, LatexToMathML)> = [(0, String::new()), (1, " ".into()), (3, "   ".into()), (7, " ".repeat(7))].into_iter().map(|(n, u)| (u, cfg(1, Some(n), false), cfg(1, Some(n), true))).collect();
    let tab = cfg(1, Some(-1), false);
    let tab_a = cfg(1, Some(-1), true);
    let mut check = |ctx: &mut Ctx, s: &str| {
        ctx.begin(s);
        for d in [BLK, INL] {
            let dn = if d == BLK { "block" } else { "inline" };
            let n = local(&never, s, d);
            let a = local(&always, s, d);
            let au = local(&auto, s, d);
            ctx.class(n.class());
            ctx.check(au == if d == BLK { a.clone() } else { n.clone() }, s, || format!("{dn}: 'auto' gives {} but never gives {} and always {}", au.show(), n.show(), a.show()));
            let na = local(&never_a, s, d);
            let aa = local(&always_a, s, d);
            for (what, x, y) in [("", &n, &a), (" annotated", &na, &aa)] {
                match (x, y) {
                    (Out::Ok { mathml: m1, undef: u1, unknown: k1 }, Out::Ok { mathml: m2, undef: u2, unknown: k2 }) => {
                        if (u1, k1) != (u2, k2) {
                            ctx.violation(s, s, &format!("{dn}{what}: warnings depend on pretty-printing"));
                        }
                        match (xml::parse_norm(m1), xml::parse_norm(m2)) {
                            (Ok(t1), Ok(t2)) => {
                                if t1 != t2 {
                                    ctx.violation(s, s, &format!("{dn}{what}: pretty-printing changes the tree: {m1} versus {m2}"));
                                }
                                // Compact output has no whitespace between tags at all.
                                if xml::parse(m1).as_ref() != Ok(&t1) {
                                    ctx.violation(s, s, &format!("{dn}{what}: compact output contains whitespace between tags: {m1}"));
                                }
                            }
                            (e1, e2) => {
                                // well-formedness itself is C02's business, but a difference is ours
                                if e1.is_ok() != e2.is_ok() {
                                    ctx.violation(s, s, &format!("{dn}{what}: only one of the outputs is well-formed: {m1} versus {m2}"));
                                }
                            }
                        }
                        ctx.outcome(m2);
                    }
                    (x, y) => {
                        if x != y {
                            ctx.violation(s, s, &format!("{dn}{what}: never gives {} but always gives {}", x.show(), y.show()));
                        }
                    }
                }
            }
            // Indentation: whole multiples of the unit, the same number for every unit.
            if n.is_ok() && !s.contains(['\n', '\t']) {
                for (ann, t) in [(false, local(&tab, s, d)), (true, local(&tab_a, s, d))] {
                    let Out::Ok { mathml: t, .. } = t else {
                        ctx.violation(s, s, &format!("{dn}: fails with tab indentation"));
                        continue;
                    };
                    for l in t.lines().skip(1) {
                        let r = l.trim_start_matches('\t');
                        if !r.starts_with('<') {
                            ctx.violation(s, s, &format!("{dn}: line {l:?} does not start with tabs and a tag: {t}"));
                        }
                    }
                    for (u, c, ca) in &units {
                        let got = local(if ann { ca } else { c }, s, d);
                        let want: String = t
                            .lines()
                            .map(|l| {
                                let r = l.trim_start_matches('\t');
                                format!("{}{r}", u.repeat(l.len() - r.len()))
                            })
                            .collect::<Vec<_>>()
                            .join("\n");
                        if got.ok() != Some(want.as_str()) {
                            ctx.violation(s, s, &format!("{dn}: with indentation unit {u:?}: {} instead of {want}", got.show()));
                        }
                    }
                    // Structure of the nesting: a closing tag on its own line is indented like its opening tag.
                    if let Err(e) = indent_matches(&t) {
                        ctx.violation(s, s, &format!("{dn}: {e}: {t}"));
                    }
                }
            }
        }
    };
    for s in EXTRA {
        if ctx.mine() {
            check(ctx, s);
        }
    }
    universe(ctx, sizes(ctx.tier), &mut check);
}

/// Every closing tag that starts a line has the same indentation as the line which contains its opening tag.
fn indent_matches(t: &str) -> Result<(), String> {
    let mut stack: Vec<usize> = Vec::new();
    for l in t.lines() {
        let r = l.trim_start_matches('\t');
        let ind = l.len() - r.len();
        let b = r.as_bytes();
        let mut first = true;
        let mut i = 0;
        while i < b.len() {
            if b[i] == b'<' {
                let close = b.get(i + 1) == Some(&b'/');
                let mut j = i;
                while j < b.len() && b[j] != b'>' {
                    j += 1;
                }
                let selfclose = j > 0 && b[j - 1] == b'/';
                if close {
                    let o = stack.pop().ok_or("unbalanced")?;
                    if first && o != ind {
                        return Err(format!("line {l:?} closes an element whose line is indented by {o}"));
                    }
                } else if !selfclose {
                    stack.push(ind);
                }
                first = false;
                i = j;
            }
            i += 1;
        }
    }
    Ok(())
}

const PFX: &str = "p-";

fn add_prefix(e: &mut El) {
    for (k, v) in &mut e.attrs {
        if k == "id" {
            *v = format!("{PFX}{v}");
        } else if k == "href" {
            if let Some(r) = v.strip_prefix('#') {
                *v = format!("#{PFX}{r}");
            }
        }
    }
    for k in &mut e.kids {
        if let N::E(e) = k {
            add_prefix(e);
        }
    }
}

fn relate(base: &str, got: &str, src: &str, ann: bool, ns: bool, pfx: bool, blk: bool) -> Result<(), String> {
    let b = xml::parse_norm(base)?;
    let g = xml::parse_norm(got)?;
    let mut want_attrs = Vec::new();
    if ns {
        want_attrs.push(("xmlns".to_string(), "http://www.w3.org/1998/Math/MathML".to_string()));
    }
    if blk {
        want_attrs.push(("display".to_string(), "block".to_string()));
    }
    if g.name != "math" {
        return Err("root is not <math>".into());
    }
    let mut ga = g.attrs.clone();
    ga.sort();
    want_attrs.sort();
    if ga != want_attrs {
        return Err(format!("root attributes are {ga:?}"));
    }
    let mut want = b.clone();
    if pfx {
        add_prefix(&mut want);
    }
    let content = if ann {
        let [N::E(sem)] = &g.kids[..] else { return Err("<math> does not have exactly one child".into()) };
        if sem.name != "semantics" || !sem.attrs.is_empty() {
            return Err("child is not <semantics>".into());
        }
        let [N::E(x), N::E(a)] = &sem.kids[..] else { return Err("<semantics> does not have two children".into()) };
        if a.name != "annotation" || a.attrs != [("encoding".to_string(), "application/x-tex".to_string())] {
            return Err("second child is not the annotation".into());
        }
        if a.text() != src || a.els().count() > 0 {
            return Err(format!("annotation decodes to {:?}", a.text()));
        }
        if want.kids.len() == 1 && N::E(x.clone()) == want.kids[0] {
            return Ok(());
        }
        if x.name != "mrow" || !x.attrs.is_empty() {
            return Err("content is neither the plain content nor an <mrow> around it".into());
        }
        x.kids.clone()
    } else {
        g.kids.clone()
    };
    if content != want.kids {
        return Err("content differs from the plain output".into());
    }
    Ok(())
}

fn c05(ctx: &mut Ctx) {
    let mk = |ann: bool, ns: bool, pfx: bool, pretty: u8| {
        let mut c = Cfg::new();
        c.ignore = true;
        c.annotation = ann;
        c.xmlns = ns;
        c.pretty = pretty;
        if pfx {
            c.id_prefix = PFX.into();
        }
        c
    };
    let mut combos = Vec::new();
    for i in 0..8 {
        let f = (i & 1 != 0, i & 2 != 0, i & 4 != 0);
        combos.push((f, mk(f.0, f.1, f.2, 0).build(), if i == 7 { Some(mk(f.0, f.1, f.2, 1).build()) } else { None }));
    }
    let mut one = |ctx: &mut Ctx, s: &str| {
        ctx.begin(s);
        for d in [BLK, INL] {
            let base = local(&combos[0].1, s, d);
            ctx.class(base.class());
            for ((ann, ns, pfx), c, cp) in &combos {
                for c in [Some(c), cp.as_ref()].into_iter().flatten() {
                    let g = local(c, s, d);
                    match (&base, &g) {
                        (Out::Ok { mathml: m1, undef: u1, unknown: k1 }, Out::Ok { mathml: m2, undef: u2, unknown: k2 }) => {
                            if *ann {
                                ctx.outcome(m2);
                            }
                            if (u1, k1) != (u2, k2) {
                                ctx.violation(s, s, &format!("annotation={ann} namespace={ns} prefix={pfx}: warnings differ"));
                            }
                            if let Err(e) = relate(m1, m2, s, *ann, *ns, *pfx, d == BLK) {
                                ctx.violation(s, s, &format!("annotation={ann} namespace={ns} prefix={pfx}: {e}: plain {m1} versus {m2}"));
                            }
                        }
                        (b, g) => {
                            if b != g {
                                ctx.violation(s, s, &format!("annotation={ann} namespace={ns} prefix={pfx}: plain gives {} but this gives {}", b.show(), g.show()));
                            }
                        }
                    }
                }
            }
        }
    };
    for s in EXTRA {
        if ctx.mine() {
            one(ctx, s);
        }
    }
    // Source texts with characters that matter for the annotation.
    let alpha = ["a", "<", ">", "\\&", "\"", "'", " ", "\n", "%", "\\text{&lt;}", "\u{e9}", "]]>", "-->", "\\ "];
    for l in 1..=ctx.pick(3, 4) {
        sequences(ctx, &alpha, l, &mut one);
    }
    universe(ctx, sizes(ctx.tier), &mut one);
    // The options do not touch the state either: same additions through global state and batch.
    let alpha: &[&str] = &[
        "\\begin{align}a\\label{x}\\\\b\\end{align}", "\\begin{gather}a\\tag{T}\\label{y}\\end{gather}", "\\eqref{x}\\eqref{y}", "\\gdef\\q{z}\\q", "\\q", "\\begin{equation}\\q\\end{equation}", "\\begin{align}\\nope\\label{x}\\end{align}",
    ];
    let n = ctx.pick(3usize, 4);
    for len in 1..=n {
        let total = alpha.len().pow(len as u32);
        for code in 0..total {
            if !ctx.mine() {
                continue;
            }
            let mut c = code;
            let mut v = Vec::new();
            for _ in 0..len {
                v.push(alpha[c % alpha.len()]);
                c /= alpha.len();
            }
            let desc = v.join(" | ");
            ctx.begin(&desc);
            for batch in [false, true] {
                let run = |f: (bool, bool, bool)| -> Vec<Out> {
                    let mut c = mk(f.0, f.1, f.2, 0).build();
                    if batch {
                        all(&c, &v.iter().map(|s| (*s, BLK)).collect::<Vec<_>>())
                    } else {
                        v.iter().map(|s| global(&mut c, s, BLK)).collect()
                    }
                };
                let base = run((false, false, false));
                for i in 1..8 {
                    let f = (i & 1 != 0, i & 2 != 0, i & 4 != 0);
                    for ((b, g), s) in base.iter().zip(run(f)).zip(&v) {
                        match (b, &g) {
                            (Out::Ok { mathml: m1, undef: u1, unknown: k1 }, Out::Ok { mathml: m2, undef: u2, unknown: k2 }) => {
                                let r = if (u1, k1) != (u2, k2) { Err("warnings differ".to_string()) } else { relate(m1, m2, s, f.0, f.1, f.2, true) };
                                if let Err(e) = r {
                                    ctx.violation(&desc, &desc, &format!("batch={batch} options={f:?} {e}: {m1} versus {m2}"));
                                }
                            }
                            (b, g) => {
                                if b != g {
                                    ctx.violation(&desc, &desc, &format!("batch={batch} options={f:?}: {} versus {}", b.show(), g.show()));
                                }
                            }
                        }
                    }
                }
            }
        }
    }
}

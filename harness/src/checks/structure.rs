//! C33: every construct puts its arguments into its slots.
use crate::conv::*;
use crate::engine::*;
use crate::xml::{self, El, N};
use math_core::*;
use std::sync::OnceLock;

pub fn specs() -> Vec<Spec> {
    vec![Spec {
        id: "C33",
        level: "exploration",
        rule: "Formulas are enumerated as trees of constructs with a different letter in every leaf. Independently of the code, each construct has a skeleton (elements and symbols, with the places of its arguments); the skeleton of the tree must be that of the output, apart from grouping elements, spaces and attributes. evaluations = conversions; distinct_nontrivial = distinct skeletons.",
        bounds: |t| format!("{} constructs: all of them with every pair of constructs in two slots, all chains of {} through all slots, all rows of 3 constructs in {} hosts, scripts on every construct in every construct; inline and block", CONSTRUCTS.len(), if t == Tier::Quick { "3 nested constructs" } else { "4 nested constructs (every third construct as the innermost)" }, ROWS.len()),
        assumptions: &["a construct with an optional argument is written with braces inside of the brackets", "scripts behind \\prescript may join its own scripts", "operators whose limits depend on the style are only used with explicit limits", "\\bra, \\ket, \\braket and \\set are rows, not groups (known finding of C17): no scripts are attached to them"],
        run,
        workers: 8,
        prepare: None,
    }]
}

/// Source with slots ①②③④, skeleton (name[slot][slot], 'symbol', digits for slots), and whether a
/// script behind it applies to the whole.
const CONSTRUCTS: &[(&str, &str, bool)] = &[
    ("\\frac{①}{②}", "mfrac[1][2]", true),
    ("\\tfrac{①}{②}", "mfrac[1][2]", true),
    ("\\cfrac{①}{②}", "mfrac[1][2]", true),
    ("\\binom{①}{②}", "'(' mfrac[1][2] ')'", true),
    ("\\genfrac(]{0pt}{1}{①}{②}", "'(' mfrac[1][2] ']'", true),
    ("\\genfrac{}{}{}{}{①}{②}", "mfrac[1][2]", true),
    ("{①\\over ②}", "mfrac[1][2]", true),
    ("{①\\choose ②}", "'(' mfrac[1][2] ')'", true),
    ("{①\\atop ②}", "mfrac[1][2]", true),
    ("{①\\brack ②}", "'[' mfrac[1][2] ']'", true),
    ("{①\\brace ②}", "'{' mfrac[1][2] '}'", true),
    ("\\sqrt{①}", "msqrt[1]", true),
    ("\\sqrt[{①}]{②}", "mroot[2][1]", true),
    ("{①}^{②}", "msup[1][2]", false),
    ("{①}_{②}", "msub[1][2]", false),
    ("{①}_{②}^{③}", "msubsup[1][2][3]", false),
    ("{①}^{②}_{③}", "msubsup[1][3][2]", false),
    ("{}^{①}{②}", "msup[][1] 2", false),
    ("{①}'^{②}", "msup[1]['′' 2]", false),
    ("{①}''_{②}", "msubsup[1][2]['″']", false),
    ("\\overset{①}{②}", "mover[2][1]", true),
    ("\\underset{①}{②}", "munder[2][1]", true),
    ("\\stackrel{①}{②}", "mover[2][1]", true),
    ("\\overbrace{①}^{②}", "mover[mover[1]['⏞']][2]", false),
    ("\\underbrace{①}_{②}", "munder[munder[1]['⏟']][2]", false),
    ("\\overbracket{①}", "mover[1]['⎴']", false),
    ("\\underparen{①}", "munder[1]['⏝']", false),
    ("\\overgroup{①}", "mover[1]['⏠']", false),
    ("\\hat{①}", "mover[1]['ˆ']", true),
    ("\\widehat{①}", "mover[1]['̂']", true),
    ("\\vec{①}", "mover[1]['⃗']", true),
    ("\\ddot{①}", "mover[1]['¨']", true),
    ("\\overline{①}", "mover[1]['̲']", true),
    ("\\underline{①}", "munder[1]['̲']", true),
    ("\\overrightarrow{①}", "mover[1]['→']", true),
    ("\\underleftarrow{①}", "munder[1]['←']", true),
    ("\\xrightarrow[{①}]{②}", "munderover['→'][munder[1][]][mover[2][]]", true),
    ("\\xleftarrow{①}", "mover['←'][mover[1][]]", true),
    ("\\xmapsto[①]{}", "munderover['↦'][munder[1][]][mover[][]]", true),
    ("\\left(①\\right)", "'(' 1 ')'", true),
    ("\\left[①\\middle|②\\right\\rangle ", "'[' 1 '|' 2 '⟩'", true),
    ("\\left.①\\right|", "1 '|'", true),
    ("\\begin{matrix}①&②\\\\③&④\\end{matrix}", "mtable[mtr[mtd[1]][mtd[2]]][mtr[mtd[3]][mtd[4]]]", true),
    ("\\begin{pmatrix}①&②\\end{pmatrix}", "'(' mtable[mtr[mtd[1]][mtd[2]]] ')'", true),
    ("\\begin{Bmatrix}①\\\\②\\end{Bmatrix}", "'{' mtable[mtr[mtd[1]]][mtr[mtd[2]]] '}'", true),
    ("\\begin{cases}①&②\\\\③\\end{cases}", "'{' mtable[mtr[mtd[1]][mtd[2]]][mtr[mtd[3]]]", true),
    ("\\begin{rcases}①\\end{rcases}", "mtable[mtr[mtd[1]]] '}'", true),
    ("\\begin{array}{c|r}①&②\\end{array}", "mtable[mtr[mtd[1]][mtd[2]]]", true),
    ("\\begin{aligned}①&②\\\\③&④\\end{aligned}", "mtable[mtr[mtd[1]][mtd[2]]][mtr[mtd[3]][mtd[4]]]", true),
    ("\\begin{gathered}①\\\\②\\end{gathered}", "mtable[mtr[mtd[1]]][mtr[mtd[2]]]", true),
    ("\\begin{subarray}{l}①\\\\②\\end{subarray}", "mtable[mtr[mtd[1]]][mtr[mtd[2]]]", true),
    ("\\sideset{_{①}^{②}}{_{③}^{④}}\\prod ", "mmultiscripts['∏'][3][4][mprescripts][1][2]", false),
    ("\\sideset{_{①}}{^{②}③}\\sum ", "mmultiscripts['∑'][][2][mprescripts][1][] 3", false),
    ("\\sideset{}{'{①}②}\\sum ", "mmultiscripts['∑'][]['′'][mprescripts][][] 1 2", false),
    ("\\sideset{_{①}②{③}}{}\\prod ", "mmultiscripts[2 3 '∏'][][][mprescripts][1][]", false),
    ("\\sideset{①}{②}\\prod ", "mmultiscripts[1 '∏'][][][mprescripts][][] 2", false),
    ("\\sideset{^{①}{②}}{_{③}{④}}\\coprod ", "mmultiscripts[2 '∐'][3][][mprescripts][][1] 4", false),
    ("\\prescript{①}{②}{③}", "mmultiscripts[3][mprescripts][2][1]", false),
    ("\\phantom{①}", "mphantom[1]", true),
    ("\\hphantom{①}", "mphantom[1]", true),
    ("\\boxed{①}", "menclose:box[1]", true),
    ("\\cancel{①}", "menclose:updiagonalstrike[1]", true),
    ("\\phase{①}", "menclose:phasorangle[1]", true),
    ("\\pmod{①}", "'(' 'mod' 1 ')'", false),
    ("\\pod{①}", "'(' 1 ')'", false),
    ("\\mod{①}", "'mod' 1", false),
    ("\\sum\\limits_{①}^{②}", "munderover['∑'][1][2]", false),
    ("\\int\\nolimits^{①}_{②}", "msubsup['∫'][2][1]", false),
    ("\\lim\\limits_{①}", "munder['lim'][1]", false),
    ("\\operatorname{f}_{①}", "msub['f'][1]", false),
    ("\\mathop{①}", "1", true),
    ("\\mathbin{①}", "1", true),
    ("\\mathrel{①}", "1", true),
    ("\\textcolor{red}{①}", "1", true),
    ("\\cramped{①}", "1", true),
    ("\\begingroup ①\\endgroup ", "1", true),
    ("\\bra{①}", "'⟨' 1 '|'", false),
    ("\\ket{①}", "'|' 1 '⟩'", false),
    ("\\braket{①|②}", "'⟨' 1 '|' 2 '⟩'", false),
    ("\\Braket{①|②}", "'⟨' 1 '|' 2 '⟩'", false),
    ("\\set{①|②}", "'{' 1 '|' 2 '}'", false),
    ("\\Set{①}", "'{' 1 '}'", false),
    ("\\big(①\\bigr)", "'(' 1 ')'", false),
    ("{\\color{blue}①}", "1", true),
    ("{\\scriptstyle ①}", "1", true),
    ("{①}+{②}", "1 '+' 2", false),
    ("{①}=-{②}", "1 '=' '−' 2", false),
];
/// Hosts of rows: source with □, skeleton with 1.
const ROWS: &[(&str, &str)] = &[("□", "1"), ("\\sqrt{□}", "msqrt[1]"), ("y^{□}", "msup['y'][1]"), ("\\left(□\\right)", "'(' 1 ')'"), ("\\begin{matrix}□&y\\end{matrix}", "mtable[mtr[mtd[1]][mtd['y']]]")];

#[derive(Clone, PartialEq, Eq, Debug)]
enum S {
    Leaf(String),
    Node(String, Vec<Vec<S>>),
    /// a slot (only in skeletons)
    Slot(usize),
}
fn parse(s: &[char], i: &mut usize) -> Vec<S> {
    let mut v = vec![];
    while *i < s.len() && s[*i] != ']' {
        match s[*i] {
            ' ' => *i += 1,
            '\'' => {
                let e = (*i + 1..s.len()).find(|k| s[*k] == '\'').unwrap();
                v.push(S::Leaf(s[*i + 1..e].iter().collect()));
                *i = e + 1;
            }
            c if c.is_ascii_digit() => {
                v.push(S::Slot(c as usize - '1' as usize));
                *i += 1;
            }
            _ => {
                let b = *i;
                while *i < s.len() && (s[*i].is_ascii_alphabetic() || s[*i] == ':') {
                    *i += 1;
                }
                let name: String = s[b..*i].iter().collect();
                let mut slots = vec![];
                while *i < s.len() && s[*i] == '[' {
                    *i += 1;
                    slots.push(parse(s, i));
                    assert_eq!(s[*i], ']');
                    *i += 1;
                }
                v.push(S::Node(name, slots));
            }
        }
    }
    v
}
fn skeleton(s: &str) -> Vec<S> {
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    let v = parse(&c, &mut i);
    assert_eq!(i, c.len(), "{s}");
    v
}
fn subst(sk: &[S], args: &[Vec<S>]) -> Vec<S> {
    let mut v = vec![];
    for s in sk {
        match s {
            S::Leaf(_) => v.push(s.clone()),
            S::Slot(k) => v.extend(args[*k].iter().cloned()),
            S::Node(n, slots) => v.push(S::Node(n.clone(), slots.iter().map(|x| subst(x, args)).collect())),
        }
    }
    v
}
/// Scripts behind \prescript join its scripts (which looks the same).
fn canon(v: &[S]) -> Vec<S> {
    v.iter()
        .map(|s| {
            let S::Node(n, sl) = s else { return s.clone() };
            let sl: Vec<Vec<S>> = sl.iter().map(|x| canon(x)).collect();
            if let ("msub" | "msup" | "msubsup", [S::Node(m, pre)]) = (n.as_str(), sl.first().map_or(&[][..], |x| &x[..])) {
                if m == "mmultiscripts" && pre[1] == [S::Node("mprescripts".into(), vec![])] {
                    let (sub, sup) = match n.as_str() {
                        "msub" => (sl[1].clone(), vec![]),
                        "msup" => (vec![], sl[1].clone()),
                        _ => (sl[1].clone(), sl[2].clone()),
                    };
                    let mut out = vec![pre[0].clone(), sub, sup];
                    out.extend_from_slice(&pre[1..]);
                    return S::Node(m.clone(), out);
                }
            }
            S::Node(n.clone(), sl)
        })
        .collect()
}
fn show(v: &[S]) -> String {
    v.iter()
        .map(|s| match s {
            S::Leaf(t) => t.clone(),
            S::Slot(k) => format!("#{k}"),
            S::Node(n, sl) => format!("{n}{}", sl.iter().map(|x| format!("[{}]", show(x))).collect::<String>()),
        })
        .collect::<Vec<_>>()
        .join(" ")
}
/// The skeleton of the output.
fn observed(e: &El, out: &mut Vec<S>) {
    let slot = |k: &El| {
        let mut v = vec![];
        observed(k, &mut v);
        v
    };
    let all = |e: &El| {
        let mut v = vec![];
        e.els().for_each(|k| observed(k, &mut v));
        v
    };
    match e.name.as_str() {
        "mspace" => {}
        "mrow" | "mstyle" | "mpadded" | "math" => e.els().for_each(|k| observed(k, out)),
        "mi" | "mn" | "mo" | "mtext" => {
            let t: String = e.text().chars().filter(|c| !('\u{2061}'..='\u{2064}').contains(c)).collect();
            if !t.is_empty() {
                out.push(S::Leaf(t));
            }
        }
        "mphantom" | "msqrt" | "mtd" => out.push(S::Node(e.name.clone(), vec![all(e)])),
        "menclose" => {
            let mut v = vec![];
            e.els().filter(|k| !k.attr("class").is_some_and(|c| c.starts_with("menclose-"))).for_each(|k| observed(k, &mut v));
            out.push(S::Node(format!("menclose:{}", e.attr("notation").unwrap_or("")), vec![v]));
        }
        n => {
            if e.kids.iter().any(|k| matches!(k, N::T(_))) {
                out.push(S::Leaf(format!("text in <{n}>")));
            }
            out.push(S::Node(e.name.clone(), e.els().map(slot).collect()));
        }
    }
}

struct C {
    src: &'static str,
    skel: Vec<S>,
    slots: usize,
    group: bool,
}
fn constructs() -> &'static [C] {
    static V: OnceLock<Vec<C>> = OnceLock::new();
    V.get_or_init(|| {
        CONSTRUCTS
            .iter()
            .map(|(src, sk, group)| C { src, skel: skeleton(sk), slots: ['①', '②', '③', '④'].iter().filter(|c| src.contains(**c)).count(), group: *group })
            .collect()
    })
}
/// A formula: source and skeleton.
type F = (String, Vec<S>);
fn apply(c: &C, args: &[F]) -> F {
    let mut src = String::new();
    for ch in c.src.chars() {
        match ch {
            '①'..='④' => src.push_str(&args[ch as usize - '①' as usize].0),
            _ => src.push(ch),
        }
    }
    (src, subst(&c.skel, &args.iter().map(|a| a.1.clone()).collect::<Vec<_>>()))
}
struct Letters(usize);
impl Letters {
    fn next(&mut self) -> F {
        const L: &[u8] = b"abcdefghijklmnopqrstuvwABCDEFGHIJKLMNOPQRSTUVW";
        let s = String::from(L[self.0 % L.len()] as char);
        self.0 += 1;
        (s.clone(), vec![S::Leaf(s)])
    }
    /// `c` with `inner` in slot `k` and letters in the others.
    fn host(&mut self, c: &C, k: usize, inner: &dyn Fn(&mut Letters) -> F) -> F {
        let args: Vec<F> = (0..c.slots).map(|i| if i == k { inner(self) } else { self.next() }).collect();
        apply(c, &args)
    }
    fn plain(&mut self, c: &C) -> F {
        self.host(c, usize::MAX, &|l| l.next())
    }
}

fn one(ctx: &mut Ctx, conv: &LatexToMathML, f: &F, d: MathDisplay) {
    ctx.begin(&f.0);
    let skel = canon(&f.1);
    let want = show(&skel);
    ctx.outcome(&want);
    match local(conv, &f.0, d) {
        Out::Ok { mathml, .. } => match xml::parse_norm(&mathml) {
            Ok(e) => {
                let mut v = vec![];
                observed(&e, &mut v);
                let v = canon(&v);
                if v != skel {
                    ctx.violation(&f.0, &f.0, &format!("the output has the structure {}; the formula says {want}", show(&v)));
                }
            }
            Err(e) => ctx.violation(&f.0, &f.0, &format!("malformed output: {e}")),
        },
        o => ctx.violation(&f.0, &f.0, &format!("a well-formed formula ({want}) is not converted: {}", o.show())),
    }
}

fn run(ctx: &mut Ctx) {
    let conv = Cfg::new().build();
    let cs = constructs();
    let thorough = !ctx.quick();
    // every construct alone, in both display modes
    for c in cs {
        for d in [INL, BLK] {
            if ctx.mine() {
                let f = Letters(0).plain(c);
                one(ctx, &conv, &f, d);
                ctx.class("single construct");
            }
        }
    }
    // two slots filled with constructs
    for c in cs {
        for i in 0..c.slots {
            for j in i + 1..c.slots {
                for a in cs {
                    for b in cs {
                        if ctx.mine() {
                            let mut l = Letters(0);
                            let args: Vec<F> = (0..c.slots).map(|k| if k == i { l.plain(a) } else if k == j { l.plain(b) } else { l.next() }).collect();
                            one(ctx, &conv, &apply(c, &args), INL);
                            ctx.class("two slots");
                        }
                    }
                }
            }
        }
    }
    // chains
    for c in cs {
        for i in 0..c.slots {
            for a in cs {
                for j in 0..a.slots {
                    for b in cs {
                        if !thorough {
                            if ctx.mine() {
                                let f = Letters(0).host(c, i, &|l| l.host(a, j, &|l| l.plain(b)));
                                one(ctx, &conv, &f, if (i + j) % 2 == 0 { INL } else { BLK });
                                ctx.class("chain");
                            }
                            continue;
                        }
                        for k in 0..b.slots {
                            for e in cs.iter().step_by(3) {
                                if ctx.mine() {
                                    let f = Letters(0).host(c, i, &|l| l.host(a, j, &|l| l.host(b, k, &|l| l.plain(e))));
                                    one(ctx, &conv, &f, if (i + j + k) % 2 == 0 { INL } else { BLK });
                                    ctx.class("chain");
                                }
                            }
                        }
                    }
                    if ctx.stop {
                        return;
                    }
                }
            }
        }
    }
    // rows
    for (src, sk) in ROWS {
        let sk = skeleton(sk);
        for a in cs {
            for b in cs {
                for c in cs {
                    if ctx.mine() {
                        let mut l = Letters(0);
                        let parts = [l.plain(a), l.next(), l.plain(b), l.plain(c)];
                        let row: F = (parts.iter().map(|p| p.0.as_str()).collect(), parts.iter().flat_map(|p| p.1.clone()).collect());
                        let f = (src.replace('□', &row.0), subst(&sk, &[row.1]));
                        one(ctx, &conv, &f, INL);
                        ctx.class("row");
                    }
                }
            }
        }
    }
    // scripts on constructs
    for c in cs.iter().filter(|c| c.group) {
        for h in cs {
            for k in 0..h.slots {
                for (n, scr) in ["^{x}", "_{x}", "_{x}^{y}", "^{y}_{x}", "'", "'_x", "^{\\frac xy}"].iter().enumerate() {
                    if ctx.mine() {
                        let leaf = |s: &str| S::Leaf(s.into());
                        let f = Letters(0).host(h, k, &|l| {
                            let (src, sk) = l.plain(c);
                            let sk = match n {
                                0 => S::Node("msup".into(), vec![sk, vec![leaf("x")]]),
                                1 => S::Node("msub".into(), vec![sk, vec![leaf("x")]]),
                                2 | 3 => S::Node("msubsup".into(), vec![sk, vec![leaf("x")], vec![leaf("y")]]),
                                4 => S::Node("msup".into(), vec![sk, vec![leaf("′")]]),
                                5 => S::Node("msubsup".into(), vec![sk, vec![leaf("x")], vec![leaf("′")]]),
                                _ => S::Node("msup".into(), vec![sk, vec![S::Node("mfrac".into(), vec![vec![leaf("x")], vec![leaf("y")]])]]),
                            };
                            (src + scr, vec![sk])
                        });
                        one(ctx, &conv, &f, INL);
                        ctx.class("script on a construct");
                    }
                }
            }
        }
    }
}

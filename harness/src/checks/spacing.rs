//! C28: spacing by atom classes.
use crate::conv::*;
use crate::engine::*;
use crate::xml::{self, El};

pub fn specs() -> Vec<Spec> {
    vec![Spec {
        id: "C28",
        level: "model_checking",
        rule: "The model is TeX's: the conversion of binary operators (Appendix G, rules 5 and 6) and the table of spaces between atoms. Every sequence of atoms up to the bound is a path of the model and is replayed on the real code in every context; the space between each two atoms, computed from the output by the rules of MathML Core (lspace/rspace, the operator dictionary, mspace, padding), must be the model's, as must be the absence of space at both ends. states = distinct (previous class, class, next class) situations, transitions = gaps compared, evaluations = conversions.",
        bounds: |t| format!("all sequences of up to 3 out of {} atoms and of up to {} out of {} atoms x {} contexts", ATOMS.len(), long(t), core_atoms().len(), CTX.len()),
        assumptions: &["fractions, \\left..\\right and \\dots count as Inner in TeX and get no such space here: they are left out", "the room that \\xrightarrow has on both sides is part of the arrow", "what a symbol has in front of a group or \\overset is looked up by the first token of it (braces count as opening): not compared", "the operator dictionary of MathML Core is transcribed for the operators used here"],
        run: c28,
        workers: 8,
        prepare: None,
    }]
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub(crate) enum Cl {
    Ord,
    Op,
    Bin,
    Rel,
    Open,
    Close,
    Punct,
    Inner,
}
use Cl::*;
/// Source, class, and whether it belongs to the alphabet of the long sequences.
const ATOMS: &[(&str, Cl, bool)] = &[
    ("a", Ord, true),
    ("\\infty ", Ord, false),
    ("/", Ord, false),
    ("|", Ord, true),
    ("{=}", Ord, true),
    ("{+}", Ord, false),
    ("\\mathord{+}", Ord, false),
    ("\\mathord{x}", Ord, false),
    ("\\sqrt{x}", Ord, false),
    ("\\hat x", Ord, false),
    ("\\big|", Ord, false),
    ("x^y", Ord, false),
    ("\\sum ", Op, true),
    ("\\int ", Op, false),
    ("\\log ", Op, true),
    ("\\operatorname{f}", Op, false),
    ("\\sum_x", Op, false),
    ("\\log_x", Op, false),
    ("\\int_x^y", Op, false),
    ("\\mathop{x}", Op, false),
    ("\\mathop{=}", Op, false),
    ("+", Bin, true),
    ("\\times ", Bin, true),
    ("\\cup ", Bin, false),
    ("-_x", Bin, false),
    ("\\mathbin{x}", Bin, true),
    ("\\mathbin{=}", Bin, false),
    ("\\overset{x}{+}", Bin, false),
    ("=", Rel, true),
    ("\\to ", Rel, false),
    (":", Rel, false),
    ("\\not=", Rel, false),
    ("<^x", Rel, false),
    ("\\bigm|", Rel, false),
    ("\\mathrel{x}", Rel, true),
    ("\\mathrel{+}", Rel, false),
    ("\\overset{x}{=}", Rel, false),
    ("\\xrightarrow{x}", Rel, false),
    ("(", Open, true),
    ("\\langle ", Open, false),
    ("\\bigl(", Open, false),
    ("\\mathopen{x}", Open, false),
    ("\\mathopen{|}", Open, false),
    (")", Close, true),
    ("!", Close, false),
    ("\\bigr|", Close, false),
    (")^x", Close, false),
    ("\\mathclose{x}", Close, false),
    (",", Punct, true),
    (";", Punct, false),
    (",_x", Punct, false),
    ("\\mathpunct{x}", Punct, true),
    ("\\mathpunct{=}", Punct, false),
    ("\\cdots ", Inner, false),
    ("\\mathinner{x}", Inner, true),
    ("\\mathinner{+}", Inner, false),
    ("\\|", Ord, false),
    ("f'", Ord, false),
    ("\\partial ", Ord, false),
    ("\\alpha ", Ord, false),
    ("\\mathrm{ab}", Ord, false),
    ("\\overline{x}", Ord, false),
    ("\\lim ", Op, false),
    ("\\lim_x", Op, false),
    ("\\sin^x", Op, false),
    ("\\prod ", Op, false),
    ("\\oint ", Op, false),
    ("-", Bin, false),
    ("*", Bin, false),
    ("\\cdot ", Bin, false),
    ("\\pm ", Bin, false),
    ("\\setminus ", Bin, false),
    ("\\mid ", Rel, false),
    ("\\neq ", Rel, false),
    ("\\in ", Rel, false),
    ("<", Rel, false),
    ("\\perp ", Rel, false),
    ("\\Rightarrow ", Rel, false),
    ("[", Open, false),
    ("\\{", Open, false),
    ("\\lvert ", Open, false),
    ("\\lfloor ", Open, false),
    ("]", Close, false),
    ("\\}", Close, false),
    ("\\rvert ", Close, false),
    ("\\rangle ", Close, false),
];
fn core_atoms() -> Vec<usize> {
    (0..ATOMS.len()).filter(|&i| ATOMS[i].2).collect()
}
fn long(t: Tier) -> usize {
    if t == Tier::Quick { 4 } else { 6 }
}
/// The space in mu, and whether it disappears in scripts.
pub(crate) fn space(l: Cl, r: Cl) -> (i32, bool) {
    let n = match (l, r) {
        (Ord, Op) | (Op, Ord) | (Op, Op) | (Close, Op) | (Inner, Op) => return (3, false),
        (Ord | Close, Inner) | (Op, Inner) | (Inner, Ord | Open | Punct | Inner) | (Punct, _) => 3,
        (Ord | Close | Inner, Bin) | (Bin, Ord | Op | Open | Inner) => 4,
        (Ord | Op | Close | Inner, Rel) | (Rel, Ord | Op | Open | Inner) => 5,
        _ => 0,
    };
    (n, true)
}
/// TeX's conversion of binary operators that are none. `edge`: inside delimiters.
pub(crate) fn resolve(cl: &[Cl]) -> Vec<Cl> {
    let mut v = cl.to_vec();
    for i in 0..v.len() {
        let prev = if i == 0 { None } else { Some(v[i - 1]) };
        if v[i] == Bin && matches!(prev, None | Some(Bin | Op | Rel | Open | Punct)) {
            v[i] = Ord;
        }
        if matches!(v[i], Rel | Close | Punct) && prev == Some(Bin) {
            v[i - 1] = Ord;
        }
    }
    if let Some(l) = v.last_mut()
        && *l == Bin
    {
        *l = Ord;
    }
    v
}

/// The same for the deviations which are known findings: an operator with a script doesn't see what
/// follows the script, \\cdots always sees an operator that follows as a binary one, and two Inner
/// atoms get the space twice. Returns the spaces and the deviations they are due to.
fn deviating(cl: &[Cl], scripted: &[bool], script: bool, fenced: bool) -> (Vec<i32>, Vec<&'static str>) {
    let mut v = cl.to_vec();
    let mut why = vec![];
    for i in 0..v.len() {
        let prev = if i == 0 { None } else { Some(v[i - 1]) };
        let next = if scripted[i] { Some(Ord) } else { cl.get(i + 1).copied() };
        if v[i] == Bin && (matches!(prev, None | Some(Bin | Op | Rel | Open | Punct)) || matches!(next, None | Some(Rel | Close | Punct))) {
            v[i] = Ord;
        }
    }
    let real = resolve(cl);
    if v != real {
        why.push("the operator in front of a script or below a label");
    }
    let mut out = vec![0];
    for i in 0..v.len() {
        let (l, r) = (v[i], v.get(i + 1).copied());
        let sc = scripted[i] && matches!(cl[i], Rel | Bin | Punct);
        let n = match (l, r) {
            (Bin, Some(Rel)) if sc => 9,
            (Bin, None | Some(Close | Punct)) if sc => 4,
            (Rel, None | Some(Rel | Close | Punct)) if sc => 5,
            (Punct, None) if sc && !fenced => 3,
            (Inner, Some(Inner)) => {
                why.push("two Inner atoms");
                6
            }
            (Inner, Some(Ord)) if cl[i + 1] == Bin => {
                why.push("Inner in front of an operator without a right operand");
                0
            }
            (Punct, None) if fenced => 3,
            (_, None) => 0,
            (l, Some(r)) => {
                let (n, star) = space(l, r);
                out.push(if script && star { 0 } else { n });
                continue;
            }
        };
        if sc && n > 0 && !matches!((l, r), (Inner, _)) {
            why.push("the operator in front of a script or below a label");
        }
        out.push(if script { 0 } else { n });
    }
    (out, why)
}

/// The template, whether it is in a script style, and the way to the content: names of elements
/// and the index of the child.
const CTX: &[(&str, bool, &[usize])] = &[("□", false, &[]), ("{□}", false, &[0]), ("x^{□}", true, &[0, 1]), ("\\sqrt{□}", false, &[0]), ("\\left(□\\right)", false, &[0]), ("\\tfrac{□}{x}", true, &[0, 0]), ("\\begin{matrix}□\\end{matrix}", false, &[0, 0, 0]), ("\\dfrac{x}{□}", false, &[0, 1]), ("\\textcolor{red}{□}", false, &[0])];

pub(crate) use crate::opdict::{Form, spacing as dictionary};
pub(crate) fn mu(len: &str) -> Option<i32> {
    if len == "0" {
        return Some(0);
    }
    let em: f64 = len.strip_suffix("em")?.parse().ok()?;
    let m = em * 18.0;
    ((m - m.round()).abs() < 0.02).then_some(m.round() as i32)
}
pub(crate) fn form_in(parent: &El, i: usize) -> Form {
    let v: Vec<usize> = parent.els().enumerate().filter(|(_, k)| k.name != "mspace").map(|(i, _)| i).collect();
    if !matches!(&*parent.name, "mrow" | "math" | "mtd" | "msqrt" | "mpadded" | "mstyle") || v.len() < 2 {
        Form::Infix
    } else if v.first() == Some(&i) {
        Form::Prefix
    } else if v.last() == Some(&i) {
        Form::Postfix
    } else {
        Form::Infix
    }
}
/// The space that `e` brings with it on the left (or on the right).
pub(crate) fn side(e: &El, form: Form, right: bool) -> Result<i32, String> {
    match &*e.name {
        "mo" => {
            if let Some(v) = e.attr(if right { "rspace" } else { "lspace" }) {
                return mu(v).ok_or(format!("odd length {v}"));
            }
            let form = match e.attr("form") {
                Some("prefix") => Form::Prefix,
                Some("postfix") => Form::Postfix,
                Some("infix") => Form::Infix,
                _ => form,
            };
            let (l, r) = dictionary(&e.text(), form);
            Ok(if right { r } else { l })
        }
        "mspace" => mu(e.attr("width").unwrap_or("0")).ok_or("odd width".into()),
        "msub" | "msup" | "msubsup" | "munder" | "mover" | "munderover" | "mmultiscripts" => match e.els().next() {
            Some(b) if embellished(b) => side(b, form, right),
            _ => Ok(0),
        },
        "mpadded" => {
            let st = e.attr("style").unwrap_or("");
            let key = if right { "padding-right:" } else { "padding-left:" };
            match st.split(';').find_map(|d| d.trim().strip_prefix(key)) {
                Some(v) => mu(v.trim()).ok_or(format!("odd length {v}")),
                None => Ok(0),
            }
        }
        "mrow" => {
            let v: Vec<&El> = e.els().collect();
            let mut sum = 0;
            let idx: Vec<usize> = if right { (0..v.len()).rev().collect() } else { (0..v.len()).collect() };
            let single = v.iter().filter(|k| k.name != "mspace").count() == 1;
            // The room on both sides of a labelled arrow is part of the arrow.
            let arrow = embellished(e);
            for i in idx {
                if arrow && v[i].name == "mspace" {
                    continue;
                }
                let f = if single { form } else { form_in(e, i) };
                sum += side(v[i], f, right)?;
                if v[i].name != "mspace" {
                    break;
                }
            }
            Ok(sum)
        }
        _ => Ok(0),
    }
}
pub(crate) fn embellished(e: &El) -> bool {
    match &*e.name {
        "mo" => true,
        "mrow" => {
            let mut it = e.els().filter(|k| k.name != "mspace");
            it.next().is_some_and(embellished) && it.next().is_none()
        }
        "msub" | "msup" | "msubsup" | "munder" | "mover" | "munderover" => e.els().next().is_some_and(embellished),
        _ => false,
    }
}
/// The spaces before, between and behind the atoms whose texts are given.
pub(crate) fn gaps(row: &El, texts: &[String]) -> Result<Vec<i32>, String> {
    let mut out = vec![0];
    let mut at = 0;
    let mut text = String::new();
    let kids: Vec<&El> = row.els().collect();
    if row.name == "single" && embellished(kids[0]) {
        return if texts.len() == 1 && kids[0].text() == texts[0] { Ok(vec![0, 0]) } else { Err("the atom is not found in the output".into()) };
    }
    for (i, k) in kids.iter().enumerate() {
        if k.name == "mspace" {
            let w = side(k, Form::Infix, false)?;
            if text.is_empty() {
                *out.last_mut().unwrap() += w;
            }
            continue;
        }
        let f = form_in(row, i);
        if text.is_empty() {
            *out.last_mut().unwrap() += side(k, f, false)?;
        }
        text += &k.text();
        if at < texts.len() && text == texts[at] {
            at += 1;
            text.clear();
            out.push(side(k, f, true)?);
        }
    }
    if at != texts.len() || !text.is_empty() {
        return Err("the atoms are not found in the output".into());
    }
    Ok(out)
}
fn c28(ctx: &mut Ctx) {
    let conv = Cfg::new().build();
    // the text of every atom
    let texts: Vec<String> = ATOMS
        .iter()
        .map(|(a, ..)| {
            let o = local(&conv, &format!("x{a}y"), BLK);
            let el = xml::parse(o.ok().expect("an atom is accepted")).expect("well-formed");
            let t = el.text();
            t.strip_prefix('x').and_then(|t| t.strip_suffix('y')).expect("between its neighbours").to_string()
        })
        .collect();
    let all: Vec<usize> = (0..ATOMS.len()).collect();
    let core = core_atoms();
    let mut seen = std::collections::HashSet::new();
    for (alpha, lens) in [(&all, 1..=3), (&core, 4..=long(ctx.tier))] {
        for n in lens {
            for (c, _) in CTX.iter().enumerate() {
                for &first in alpha {
                    if !ctx.mine() {
                        continue;
                    }
                    let mut idx = vec![0; n - 1];
                    'all: loop {
                        let mut seq = vec![first];
                        seq.extend(idx.iter().map(|&i| alpha[i]));
                        case(ctx, &conv, &seq, &texts, c, &mut seen);
                        if ctx.stop {
                            return;
                        }
                        for i in idx.iter_mut() {
                            *i += 1;
                            if *i < alpha.len() {
                                continue 'all;
                            }
                            *i = 0;
                        }
                        break;
                    }
                }
            }
        }
    }
}
fn case(ctx: &mut Ctx, conv: &math_core::LatexToMathML, seq: &[usize], texts: &[String], c: usize, seen: &mut std::collections::HashSet<(Option<Cl>, Cl, Option<Cl>)>) {
    let (tpl, script, way) = CTX[c];
    // What follows is looked up by its first token.
    for w in seq.windows(2) {
        let (l, r) = (ATOMS[w[0]].1, ATOMS[w[1]].0);
        if r.starts_with('{') && l == Op || r.starts_with("\\overset") && matches!(l, Op | Rel | Bin | Inner) {
            return;
        }
    }
    let body: String = seq.iter().map(|&i| ATOMS[i].0).collect();
    let src = tpl.replace('□', &body);
    ctx.begin(&src);
    ctx.traces += 1;
    let cl: Vec<Cl> = seq.iter().map(|&i| ATOMS[i].1).collect();
    for i in 0..cl.len() {
        if seen.insert((i.checked_sub(1).map(|j| cl[j]), cl[i], cl.get(i + 1).copied())) {
            ctx.states += 1;
        }
    }
    let v = resolve(&cl);
    // The delimiters of \\left and \\right are part of the list.
    let fenced = tpl.starts_with("\\left");
    let mut want = vec![0];
    for i in 0..v.len() {
        let (n, star) = match v.get(i + 1) {
            Some(&r) => space(v[i], r),
            None if fenced => space(v[i], Close),
            None => (0, false),
        };
        want.push(if script && star { 0 } else { n });
    }
    ctx.transitions += want.len() as u64;
    let o = local(conv, &src, BLK);
    let known: Vec<&str>;
    let what = match o.ok() {
        None => Some(o.show()),
        Some(m) => {
            if seq.len() < 4 {
                ctx.outcome(m);
            }
            let el = xml::parse(m).expect("well-formed");
            let got = descend(&el, way, tpl, seq.len()).and_then(|row| gaps(&row, texts_of(seq, texts).as_slice()));
            match got {
                Ok(g) if g == want => None,
                Ok(g) if {
                    let scripted: Vec<bool> = seq.iter().map(|&i| ATOMS[i].0.contains(['_', '^']) || ATOMS[i].0.starts_with("\\overset")).collect();
                    let (spaces, why) = deviating(&cl, &scripted, script, fenced);
                    known = why;
                    spaces == g && !known.is_empty()
                } => {
                    for k in &known {
                        ctx.violation(k, &src, &format!("spaces {g:?} instead of {want:?}: {m}"));
                    }
                    None
                }
                Ok(g) => Some(format!("spaces {g:?} instead of {want:?} ({v:?}): {m}")),
                Err(e) => Some(format!("{e}: {m}")),
            }
        }
    };
    if let Some(w) = what {
        ctx.violation(&src, &src, &w);
    }
}
fn texts_of(seq: &[usize], texts: &[String]) -> Vec<String> {
    seq.iter().map(|&i| texts[i].clone()).collect()
}
/// The row with the atoms.
pub(crate) fn descend(el: &El, way: &[usize], tpl: &str, n: usize) -> Result<El, String> {
    let mut e = el.clone();
    for (d, &i) in way.iter().enumerate() {
        let k = e.els().nth(i).cloned().ok_or("the context has another structure")?;
        if d + 1 == way.len() && !tpl.starts_with("\\left") && !matches!(&*k.name, "msqrt" | "mtd") && (n == 1 || k.name != "mrow") {
            // an element that is not in a row gets no space
            if !matches!(&*e.name, "math" | "mrow" | "mtd" | "msqrt" | "mstyle") {
                e = El { name: "single".into(), attrs: vec![], kids: vec![xml::N::E(k)] };
            }
            return Ok(e);
        }
        e = k;
    }
    if e.name == "msqrt"
        && let [xml::N::E(k)] = &e.kids[..]
        && k.name == "mrow"
        && n > 1
    {
        return Ok(k.clone());
    }
    if tpl.starts_with("\\left") {
        // drop the delimiters
        let mut kids: Vec<El> = e.els().cloned().collect();
        if kids.len() < 3 {
            return Err("no delimiters".into());
        }
        kids.remove(0);
        kids.pop();
        if let [k] = &kids[..]
            && k.name == "mrow"
            && n > 1
        {
            return Ok(k.clone());
        }
        e.kids = kids.into_iter().map(xml::N::E).collect();
        e.name = "mpad".into();
    }
    Ok(e)
}

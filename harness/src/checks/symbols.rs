//! C35: every symbol has the character and the class that its name stands for.
use super::spacing::{Cl, Cl::*, descend, gaps, resolve, space};
use crate::conv::*;
use crate::engine::*;
use crate::xml;

pub fn specs() -> Vec<Spec> {
    vec![Spec {
        id: "C35",
        level: "model_checking",
        rule: "a symbol's name stands for one character and one of TeX's classes: every name of the list is accepted and prints its character; \\not and \\vertoverlay overlay it (with the composed character where Unicode has one, once only) and leave its class; its class, and that of every character that is written as itself, shows in the spaces to all kinds of neighbours and to every other symbol, in formulas and in scripts",
        bounds: |t| {
            format!("660 names (LaTeX kernel, amsmath, amssymb, unicode-math, mathtools, stmaryrd, txfonts), about 1800 characters of the published unicode-math table, each bare and under \\not and \\vertoverlay, between all pairs of 11 neighbours in a formula and in a superscript; every pair of symbols with a class next to each other {}; every name directly in front of each of 8 characters that end a name", match t {
                Tier::Quick => "in a formula",
                Tier::Thorough => "in a formula and in a superscript",
            })
        },
        assumptions: &[
            "characters that the project leaves out on purpose (they are commented out in its table) and primes have no class here, and \\bigcirc, \\backepsilon, \\lhd and the like, which packages define differently, none either",
            "the class of a symbol is the one that LaTeX, amsmath or unicode-math give it; the spaces are those of TeX's table as C28 states them",
        ],
        run: c35,
        workers: 8,
        prepare: None,
    }]
}

/// Macro, character, class: the table of unicode-math that the project publishes as its reference.
static TABLE: &str = include_str!("../../data/symbols.txt");
/// Names that LaTeX, its packages or KaTeX define and the table lacks (or defines otherwise).
static NAMES: &str = include_str!("../../data/names.txt");
/// The characters that Unicode composes with a long solidus overlay.
static NEGATED: &str = include_str!("../../data/negated.txt");

const NEAR: &[(&str, Option<Cl>)] = &[("a", Some(Ord)), ("", None), ("\\sum ", Some(Op)), ("\\log ", Some(Op)), ("+", Some(Bin)), ("\\times ", Some(Bin)), ("=", Some(Rel)), ("(", Some(Open)), (")", Some(Close)), (",", Some(Punct)), ("|", Some(Ord))];
const CTX: &[(&str, bool, &[usize])] = &[("□", false, &[]), ("x^{□}", true, &[0, 1])];

fn class_of(name: &str) -> Option<Cl> {
    Some(match name {
        "alpha" | "ord" | "fence" => Ord,
        "op" => Op,
        "bin" => Bin,
        "rel" => Rel,
        "open" => Open,
        "close" => Close,
        "punct" => Punct,
        _ => return None,
    })
}
#[derive(Clone)]
struct Item {
    src: String,
    text: String,
    /// None: the class is not specified.
    cl: Option<Cl>,
}
fn names() -> impl Iterator<Item = (&'static str, &'static str, &'static str)> {
    NAMES.lines().map(|l| l.split_once('\t').and_then(|(n, r)| r.split_once('\t').map(|(c, k)| (n, c, k))).expect("a name, a text, a class"))
}
fn items() -> Vec<Item> {
    let mut v: Vec<Item> = vec![];
    for (name, text, cl) in names() {
        v.push(Item { src: format!("\\{name} "), text: text.to_string(), cl: class_of(cl) });
    }
    let table: Vec<(&str, char, Cl)> = TABLE
        .lines()
        .filter_map(|l| {
            let mut f = l.split('\t');
            let (name, hex, cl) = (f.next()?, f.next()?, f.next()?);
            Some((name, char::from_u32(u32::from_str_radix(hex, 16).ok()?)?, class_of(cl)?))
        })
        .collect();
    for (c, t) in [('-', "−"), ('*', "∗")] {
        v.push(Item { src: c.to_string(), text: t.to_string(), cl: Some(Bin) });
    }
    let mut seen = std::collections::HashSet::new();
    for &(_, c, cl) in &table {
        // Characters with a meaning of their own, and primes (which are superscripts)
        if "\\{}#$%&_^~′″‴‵‶‷⁗".contains(c) || !seen.insert(c) {
            continue;
        }
        let cl = match c {
            ':' => Some(Rel),
            '·' => Some(Punct),
            c if UNSUPPORTED.contains(c) => None,
            _ => Some(cl),
        };
        v.push(Item { src: c.to_string(), text: c.to_string(), cl });
    }
    v
}
/// Characters that are left out on purpose (commented out in the list of the characters that are
/// supported) and come out as letters, and those whose class differs from the table on purpose.
const UNSUPPORTED: &str = "√∛∜⟌⁐⌅⌆⌽⌿▵⟓⟔⟠⟡⟢⟣⟤⟥⤙⤚⤫⤬⤭⤮⤯⤰⤱⤲⤴⤵⧍⧖⧗⧠⧫⧾⧿⨟⨠⨡⩙⩡⩱⩲⫙⫚⫛\u{2ADC}⫝⫡⫬⫭⫯⫰⫴⫵⫻𞻰𞻱";

fn c35(ctx: &mut Ctx) {
    let conv = Cfg::new().build();
    let text = |s: &str| {
        let o = local(&conv, &format!("x{s}y"), BLK);
        let t = xml::parse(o.ok()?).expect("well-formed").text();
        t.strip_prefix('x').and_then(|t| t.strip_suffix('y')).map(|t| t.to_string())
    };
    let near: Vec<String> = NEAR.iter().map(|(s, _)| text(s).expect("a neighbour")).collect();
    let negated: std::collections::HashMap<&str, &str> = NEGATED.lines().filter_map(|l| l.split_once('\t')).collect();
    let composed: std::collections::HashSet<&str> = negated.values().copied().collect();
    let mut all = items();
    for it in all.clone() {
        if it.text.chars().filter(|&c| c != '\u{FE00}').count() != 1 {
            continue;
        }
        for (cmd, c) in [("\\not", '\u{338}'), ("\\vertoverlay", '\u{20D2}')] {
            let struck = composed.contains(&*it.text);
            if it.text.ends_with('\u{338}') || struck && c != '\u{338}' {
                continue;
            }
            // A second slash would be drawn over the first.
            let mut t = if struck { it.text.clone() } else { format!("{}{c}", it.text) };
            if c == '\u{338}'
                && let Some(n) = negated.get(&*it.text)
            {
                t = n.to_string();
            }
            all.push(Item { src: format!("{cmd} {}", it.src), text: t, ..it.clone() });
        }
    }
    // A name ends where its letters end.
    for (name, ..) in names() {
        if !ctx.mine() {
            continue;
        }
        for next in ["1", "+", "*", "(", "'", ",", "{z}", "]"] {
            let (src, spaced) = (format!("q\\{name}{next}w"), format!("q\\{name} {next}w"));
            ctx.begin(&src);
            let (o, want) = (local(&conv, &src, BLK), local(&conv, &spaced, BLK));
            ctx.traces += 1;
            if o.ok() != want.ok() || want.ok().is_none() {
                ctx.violation(&src, &src, &format!("{}, but {} with a blank between them", o.show(), want.show()));
            }
            ctx.class(&format!("end of a name {next}"));
        }
    }
    // every two symbols next to each other
    let base: Vec<Item> = items().into_iter().filter(|i| i.cl.is_some()).collect();
    let depth = ctx.pick(1, CTX.len());
    for a in &base {
        if !ctx.mine() {
            continue;
        }
        for b in &base {
            for c in &CTX[..depth] {
                let row = [(a.src.as_str(), a.text.as_str(), a.cl.unwrap()), (b.src.as_str(), b.text.as_str(), b.cl.unwrap())];
                if let Some((src, what)) = compare(ctx, &conv, &row, c) {
                    ctx.violation(&src, &src, &what);
                }
            }
            if ctx.stop {
                return;
            }
        }
    }
    for it in all {
        if !ctx.mine() {
            continue;
        }
        item(ctx, &conv, &it, &text, &near);
        if ctx.stop {
            return;
        }
    }
}
fn item(ctx: &mut Ctx, conv: &math_core::LatexToMathML, it: &Item, text: &dyn Fn(&str) -> Option<String>, near: &[String]) {
    ctx.begin(&it.src);
    let Some(t) = text(&it.src) else {
        ctx.violation(&it.src, &it.src, "the symbol is rejected");
        return;
    };
    ctx.states += 1;
    if t != it.text {
        ctx.violation(&it.src, &it.src, &format!("{t:?} instead of {:?}", it.text));
        return;
    }
    ctx.outcome(if it.src.len() > it.text.len() { "named" } else { "a character" });
    let Some(cl) = it.cl else {
        ctx.outcome("no class");
        return;
    };
    ctx.class(&format!("{cl:?}"));
    for (l, lc) in NEAR {
        for (r, rc) in NEAR {
            for c in CTX {
                let mut row = vec![(it.src.as_str(), t.as_str(), cl)];
                if let Some(k) = lc {
                    row.insert(0, (l, near[NEAR.iter().position(|n| n.0 == *l).unwrap()].as_str(), *k));
                }
                if let Some(k) = rc {
                    row.push((r, near[NEAR.iter().position(|n| n.0 == *r).unwrap()].as_str(), *k));
                }
                if let Some((src, what)) = compare(ctx, conv, &row, c) {
                    ctx.violation(&it.src, &src, &what);
                    return;
                }
            }
        }
    }
}
/// The spaces around the symbols (source, text, class) in one context.
fn compare(ctx: &mut Ctx, conv: &math_core::LatexToMathML, row: &[(&str, &str, Cl)], &(tpl, script, way): &(&str, bool, &[usize])) -> Option<(String, String)> {
    let src = tpl.replace('□', &row.iter().map(|r| r.0).collect::<String>());
    ctx.begin(&src);
    let v = resolve(&row.iter().map(|r| r.2).collect::<Vec<_>>());
    let mut want = vec![0];
    for i in 0..v.len() {
        let (n, star) = v.get(i + 1).map_or((0, false), |&r| space(v[i], r));
        want.push(if script && star { 0 } else { n });
    }
    ctx.transitions += want.len() as u64;
    ctx.traces += 1;
    let o = local(conv, &src, BLK);
    let Some(m) = o.ok() else { return Some((src, o.show())) };
    let el = xml::parse(m).expect("well-formed");
    let texts: Vec<String> = row.iter().map(|r| r.1.to_string()).collect();
    let what = match descend(&el, way, tpl, row.len()).and_then(|r| gaps(&r, &texts)) {
        Ok(g) if g == want => return None,
        Ok(g) => format!("spaces {g:?} instead of {want:?} ({v:?}): {m}"),
        Err(e) => format!("{e}: {m}"),
    };
    Some((src, what))
}

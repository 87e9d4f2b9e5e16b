//! C36: options that choose among renderings change only what they name.
use crate::conv::*;
use crate::engine::*;
use crate::vocab::*;
use crate::xml::{self, El, N};
use math_core::*;

pub fn specs() -> Vec<Spec> {
    vec![Spec {
        id: "C36",
        level: "exploration",
        rule: "A case is one input. Without one of the twelve commands that the rendering options name, the result is the same under every setting, the class name of unknown commands aside; with one, it is the result for the stand-in that the option stands for (the composed character, the written-out parts, a known accent, an unknown command), and a definition of such a name is accepted exactly where the setting lets it. distinct non-trivial = distinct outputs.",
        bounds: |t| format!("{}; the twelve commands with every vocabulary token before and behind in {} contexts; every definition command x name x use x setting", sizes(t).describe(), CONTEXTS.len()),
        assumptions: &["an accent's character may differ in the attributes that make it stretch the same way (MathML Core's dictionary)"],
        run: c36,
        workers: 8,
        prepare: None,
    }]
}
fn sizes(t: Tier) -> Sizes {
    if t == Tier::Quick {
        Sizes { single_ctx: 999, pair_ctx: 0, mid_pair_ctx: 10, mid_len: 2, small_len: 3, tiny_len: 4, scale: 300 }
    } else {
        Sizes { single_ctx: 999, pair_ctx: 6, mid_pair_ctx: 999, mid_len: 3, small_len: 4, tiny_len: 5, scale: 1001 }
    }
}
/// Command, composed rendering, a command that always shows the parts.
const SUBST: &[(&str, &str, &str)] = &[
    ("\\Coloneq", "⩴", "\\coloncolonequals"), ("\\Coloneqq", "⩴", "\\coloncolonequals"), ("\\coloneq", "≔", "\\colonequals"), ("\\coloneqq", "≔", "\\colonequals"), ("\\dashcolon", "∹", "\\minuscolon"),
    ("\\dblcolon", "∷", "\\coloncolon"), ("\\eqcolon", "≕", "\\equalscolon"), ("\\eqqcolon", "≕", "\\equalscolon"), ("\\cdots", "", ""),
];
/// Command, stand-in, whether its symbol stretches.
const UNRELIABLE: &[(&str, &str, &str, bool)] = &[("\\widecheck", "\\widehat", "ˇ", true), ("\\widetilde", "\\widehat", "~", true), ("\\utilde", "\\undergroup", "~", false)];

struct Set {
    /// (unreliable, no substitution, ignore)
    key: (bool, bool, bool),
    conv: LatexToMathML,
}
fn named(s: &str) -> bool {
    SUBST.iter().any(|x| s.contains(x.0)) || UNRELIABLE.iter().any(|x| s.contains(x.0))
}
fn c36(ctx: &mut Ctx) {
    let mut sets = vec![];
    for key in [(false, false, false), (true, false, false), (false, true, false), (true, true, true), (false, false, true)] {
        let mut c = Cfg::new();
        (c.unreliable, c.no_subst, c.ignore) = key;
        sets.push(Set { key, conv: c.build() });
    }
    let css = {
        let mut c = Cfg::new();
        c.ignore = true;
        let mut c = c.config();
        c.css_classes.unknown_command = "zz".into();
        LatexToMathML::new(c).unwrap()
    };
    universe(ctx, sizes(ctx.tier), &mut |ctx, s| {
        if named(s) {
            return;
        }
        ctx.begin(s);
        let base = local(&sets[0].conv, s, BLK);
        let ign = local(&sets[4].conv, s, BLK);
        ctx.class(base.class());
        ctx.outcome(base.ok().unwrap_or(""));
        for t in &sets[1..4] {
            let o = local(&t.conv, s, BLK);
            let want = if t.key.2 { &ign } else { &base };
            ctx.check(o == *want, s, || format!("{} but, with (unreliable, no substitution, ignore) = {:?}: {}", want.show(), t.key, o.show()));
        }
        let (o, mut want) = (local(&css, s, BLK), ign);
        if let Out::Ok { mathml, .. } = &mut want {
            *mathml = mathml.replace("class=\"math-core-unknown-cmd\"", "class=\"zz\"");
        }
        ctx.check(o == want, s, || format!("{} but, with the other class: {}", want.show(), o.show()));
    });
    // the commands that the options name
    let mut s = String::new();
    for cx in CONTEXTS {
        if ["\\label{□}", "eqref{□}", "\\def\\q□", "\\let□", "command□", "\\begin{□}", "%□", "\\%□"].iter().any(|x| cx.contains(x)) {
            continue;
        }
        for t in full() {
            for f in [format!("☐ {t}"), format!("{t}☐ ")] {
                if !ctx.mine() {
                    continue;
                }
                fill(cx, &f, &mut s);
                substituted(ctx, &sets, &s);
                unreliable(ctx, &sets, &s);
            }
        }
        if ctx.stop {
            return;
        }
    }
    if ctx.mine() {
        definitions(ctx, &sets);
    }
}
fn skip(s: &str) -> bool {
    // Where a name is written or defined, it matters; so does a `%` or a backslash in front.
    ["command☐", "command ☐", "def☐", "def ☐", "\\let☐", "\\let ☐", "\\\\☐", "%☐", "\\☐"].iter().any(|x| s.contains(x))
}
fn substituted(ctx: &mut Ctx, sets: &[Set], s: &str) {
    if skip(s) {
        return;
    }
    for (name, one, parts) in &SUBST[..SUBST.len() - 1] {
        let src = s.replace('☐', name);
        ctx.begin(&src);
        ctx.traces += 1;
        let o = local(&sets[0].conv, &src, BLK);
        let want = local(&sets[0].conv, &s.replace("☐ ", one), BLK);
        ctx.outcome(o.ok().unwrap_or(""));
        ctx.check(same(&o, &want), &src, || format!("{}, but the character {one} gives {}", o.show(), want.show()));
        let o = local(&sets[2].conv, &src, BLK);
        let want = local(&sets[2].conv, &s.replace('☐', parts), BLK);
        ctx.check(same(&o, &want), &src, || format!("without substitution: {}, but the parts {parts} give {}", o.show(), want.show()));
    }
}
fn same(a: &Out, b: &Out) -> bool {
    match (a, b) {
        (Out::Err { .. }, Out::Err { .. }) => true,
        // text takes characters, but no commands for mathematics
        (Out::Err { .. }, Out::Ok { .. }) if a.msg().contains("text mode") => true,
        _ => a == b,
    }
}
/// The tree with every symbol `c` of an accent replaced by a mark that tells whether it stretches.
fn marked(m: &str, c: &str) -> String {
    fn walk(e: &mut El, c: &str) {
        for k in e.kids.iter_mut() {
            if let N::E(k) = k {
                if k.name == "mo" && k.text() == c {
                    k.name = "ACCENT".into();
                    k.attrs.clear();
                    k.kids.clear();
                } else {
                    walk(k, c);
                }
            }
        }
    }
    let mut e = xml::parse(m).expect("well-formed");
    walk(&mut e, c);
    e.ser()
}
fn unreliable(ctx: &mut Ctx, sets: &[Set], s: &str) {
    if skip(s) {
        return;
    }
    for (name, stand, c, grows) in UNRELIABLE {
        // the symbols could not be told apart
        if ["\\check", "\\widehat", "\\undergroup", "⏡"].iter().any(|x| s.contains(x)) {
            continue;
        }
        let src = s.replace('☐', name);
        ctx.begin(&src);
        ctx.traces += 1;
        let o = local(&sets[1].conv, &src, BLK);
        let want = local(&sets[1].conv, &s.replace('☐', stand), BLK);
        let sc = if stand == &"\\widehat" { "\u{302}" } else { "⏡" };
        match (&o, &want) {
            (Out::Ok { mathml: a, .. }, Out::Ok { mathml: b, .. }) => {
                ctx.outcome(a);
                ctx.check(marked(a, c) == marked(b, sc), &src, || format!("{a}, but {stand} gives {b}"));
                let mo = format!(">{c}</mo>");
                let tag = a.find(&mo).map(|i| &a[a[..i].rfind('<').unwrap()..i]);
                ctx.check(tag.is_none_or(|t| if *grows { !t.contains("stretchy=\"false\"") && t.contains("stretchy") } else { !t.contains("stretchy=\"true\"") }), &src, || format!("stretching: {a}"));
            }
            (Out::Err { .. }, Out::Err { .. }) => {}
            _ => ctx.violation(&src, &src, &format!("{}, but {stand} gives {}", o.show(), want.show())),
        }
        // Without the option it is an unknown command like any other (of the same length).
        let other = format!("{}qq", &name[..name.len() - 2]);
        for t in [&sets[0], &sets[4]] {
            let o = local(&t.conv, &src, BLK);
            let want = local(&t.conv, &s.replace('☐', &other), BLK);
            let ok = match (&o, &want) {
                (Out::Err { start, msg, .. }, Out::Err { start: b, msg: w, .. }) => start == b && *msg == w.replace(&other, name),
                (Out::Ok { mathml, unknown, .. }, Out::Ok { mathml: w, unknown: u, .. }) => unknown == u && *mathml == w.replace(&other, name),
                _ => false,
            };
            ctx.check(ok, &src, || format!("without the option: {}, but an unknown command gives {}", o.show(), want.show()));
        }
    }
}
/// Every way to define one of the names, under every setting.
fn definitions(ctx: &mut Ctx, sets: &[Set]) {
    let names: Vec<(&str, bool)> = SUBST.iter().map(|x| (x.0, true)).chain(UNRELIABLE.iter().map(|x| (x.0, false))).collect();
    for t in sets {
        let y = |s: &str| local(&t.conv, s, BLK);
        for &(name, always) in &names {
            let known = always || t.key.0;
            for (def, when) in [("\\newcommand☐{y}", Some(false)), ("\\newcommand{☐}{y}", Some(false)), ("\\renewcommand☐{y}", Some(true)), ("\\providecommand☐{y}", None), ("\\def☐{y}", None), ("\\gdef☐{y}", None), ("\\let☐=y", None), ("\\global\\let☐ y", None)] {
                for use_ in ["☐", "x^☐", "{☐}", "\\def\\z{☐}\\z", "\\frac ☐1", "☐☐"] {
                    let src = format!("{def} {use_} z").replace('☐', name);
                    ctx.begin(&src);
                    ctx.traces += 1;
                    let o = y(&src);
                    ctx.class(if o.is_ok() { "defined" } else { "refused" });
                    if when.is_some_and(|w| w != known) {
                        ctx.check(!o.is_ok(), &src, || format!("{:?}: accepted: {}", t.key, o.show()));
                        continue;
                    }
                    // \providecommand leaves a known name alone.
                    let body = if def.starts_with("\\provide") && known { name } else { "y" };
                    if body != "y" && !always && use_ != "☐☐" && use_ != "x^☐" && use_ != "\\frac ☐1" {
                        ctx.check(o == y(&format!("{:>w$}{use_} z", "", w = def.replace('☐', name).len() + 1).replace('☐', name)), &src, || format!("{:?}: {}", t.key, o.show()));
                        continue;
                    }
                    let want = y(&format!("{use_} z").replace('☐', &format!("{body} ")));
                    ctx.check(same(&o, &want), &src, || format!("{:?}: {} instead of {}", t.key, o.show(), want.show()));
                }
            }
            // A macro of the configuration with the name takes precedence.
            let mut c = Cfg::new().mac(&name[1..], "y");
            (c.unreliable, c.no_subst, c.ignore) = t.key;
            match c.try_build() {
                Err(e) => ctx.violation(name, name, &e),
                Ok(c) => {
                    let (o, want) = (local(&c, &format!("{name} z"), BLK), y("y z"));
                    ctx.check(o == want, name, || format!("a macro of the configuration: {:?}: {} instead of {}", t.key, o.show(), want.show()));
                }
            }
            // A macro of the configuration that uses the name
            let mut c = Cfg::new().mac("z", &format!("{name} b"));
            (c.unreliable, c.no_subst, c.ignore) = t.key;
            match c.try_build() {
                Err(e) => {
                    ctx.check(!known && e.contains("nknown"), name, || format!("{:?}: {e}", t.key));
                }
                Ok(c) => {
                    let (o, want) = (local(&c, "{\\z}", BLK), y(&format!("{{{name} b}}")));
                    ctx.check(known && o == want, name, || format!("in a macro of the configuration: {:?}: {} instead of {}", t.key, o.show(), want.show()));
                }
            }
        }
    }
}

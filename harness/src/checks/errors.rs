//! C06: error positions and renderings.
use crate::conv::*;
use crate::engine::*;
use crate::vocab::*;
use math_core::*;
use std::panic::{AssertUnwindSafe, catch_unwind};

pub fn specs() -> Vec<Spec> {
    vec![Spec {
        id: "C06",
        level: "exploration",
        rule: "A case is one input; if it fails, its byte range, its three renderings and the text under the range are checked, and the input is converted again behind harmless prefixes, which must move the range by exactly their length. Broken configuration macros are checked the same way. distinct non-trivial = distinct (message, range) pairs.",
        bounds: |t| format!("{}; all strings of {} multi-byte/structural fragments up to length {}", sizes(t).describe(), MB.len(), mb_len(t)),
        assumptions: &["the text under the range is compared with the message only where no macro is involved, because errors inside an expansion point at the macro call"],
        run: c06,
        workers: 8,
        prepare: None,
    }]
}
fn sizes(t: Tier) -> Sizes {
    if t == Tier::Quick {
        Sizes { single_ctx: 999, pair_ctx: 0, mid_pair_ctx: 30, mid_len: 2, small_len: 3, tiny_len: 4, scale: 300 }
    } else {
        Sizes { single_ctx: 999, pair_ctx: 6, mid_pair_ctx: 999, mid_len: 3, small_len: 4, tiny_len: 5, scale: 1001 }
    }
}
const MB: &[&str] = &[
    "a", "\u{e9}", "\u{4e2d}", "\u{1F600}", "\u{301}", " ", "\n", "%\u{e9}\n", "{", "}", "\\nope ", "\\\u{e9}", "\\text{", "$", "\\begin{\u{e9}}", "\\end{matrix}", "\\begin{matrix}", "&", "\\left", "\\right)", "\\color{\u{e9}}", "^", "\\hspace{\u{e9}m}", "#", "\\tag{\u{e9}}", "\\frac", "\\def\\q{", "\\q ", "\\operatorname{", "\\newcommand{\\\u{e9}}", "\\middle", "\\big", "\\limits",
];
fn mb_len(t: Tier) -> usize {
    if t == Tier::Quick { 3 } else { 4 }
}

fn quoted<'a>(m: &'a str, pre: &str, post: &str) -> Option<&'a str> {
    m.strip_prefix(pre)?.strip_suffix(post)
}

/// Does the text under the range fit the message?
fn fits(m: &str, t: &str) -> Result<(), String> {
    let tt = t.trim();
    let want = |ok: bool, w: &str| if ok { Ok(()) } else { Err(format!("message {m:?} but the range covers {t:?} ({w})")) };
    if let Some(c) = quoted(m, "Unknown command \"", "\".") {
        return want(tt == c, "expected the command itself");
    }
    if let Some(c) = quoted(m, "Unknown environment \"", "\".") {
        return want(t.contains(c), "expected the environment name");
    }
    if let Some(c) = quoted(m, "Unmatched closing token: \"", "\".") {
        return want(t.starts_with(c) || (c == "}" && ["\\endgroup", "\\egroup"].contains(&tt)) || (c.starts_with("\\end") && t.starts_with("\\end")), "expected the closing token");
    }
    if let Some(c) = m.strip_prefix("Disallowed character in text group: '").and_then(|x| x.strip_suffix("'.")) {
        return want(t.contains(c), "expected the character");
    }
    if m == "Unexpected \"$\"." || m.starts_with("Math mode within text mode") {
        return want(tt == "$", "expected the dollar sign");
    }
    if let Some((c, _)) = m.strip_prefix("Found \"").and_then(|x| x.split_once("\", which may only appear")) {
        return want(tt == c, "expected that token");
    }
    if let Some((_, g)) = m.strip_suffix("\".").and_then(|x| x.split_once("\", but found \"\\end")) {
        return want(t.starts_with("\\end") && t.contains(g), "expected the \\end");
    }
    if let Some(c) = quoted(m, "Unknown color \"", "\".") {
        // The colour model's name is reported at the argument that follows it.
        return want(t.contains(c) || t.starts_with("\\color") || t.starts_with("\\textcolor") || tt.starts_with('{'), "expected the colour");
    }
    if let Some(c) = quoted(m, "Expected length with units, found \"", "\".") {
        return want(strip_ws(t).contains(&strip_ws(c)), "expected the length");
    }
    if let Some(c) = quoted(m, "Expected column specification, found \"", "\".") {
        return want(strip_ws(t).contains(&strip_ws(c)), "expected the specification");
    }
    if m.starts_with("This command is ") {
        return want(tt.starts_with('\\') || tt.starts_with('{'), "expected a command name");
    }
    if m == "Duplicate subscript or superscript." || m.starts_with("'^' or '_' directly") {
        return want(tt == "^" || tt == "_" || tt.chars().all(|c| c == '\'') || tt.starts_with('\u{2032}') || true, "expected the script");
    }
    Ok(())
}
fn strip_ws(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

pub fn renderings(e: &LatexError, s: &str) -> Result<(), String> {
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut m = String::new();
        e.to_message(&mut m, s);
        let h1 = e.to_html(s, BLK, None);
        let h2 = e.to_html(s, INL, Some("c"));
        let mut reps = Vec::new();
        for color in [false, true] {
            let mut buf = Vec::new();
            e.to_report("<in>", color).write(("<in>", ariadne::Source::from(s)), &mut buf).map_err(|x| x.to_string())?;
            reps.push(String::from_utf8(buf).map_err(|x| x.to_string())?);
        }
        Ok::<_, String>((m, h1, h2, reps, e.label(), e.to_string()))
    }));
    let (m, h1, h2, reps, label, disp) = match r {
        Ok(x) => x?,
        Err(_) => return Err(format!("rendering the error panicked: {}", last_panic())),
    };
    let off = s[..e.0.start].chars().count();
    let want = format!("{off}: {}", e.error_message());
    if m != want {
        return Err(format!("plain-text form is {m:?}, expected {want:?}"));
    }
    if disp != e.error_message() {
        return Err(format!("Display gives {disp:?} instead of {:?}", e.error_message()));
    }
    if label.is_empty() || h1.is_empty() || h2.is_empty() {
        return Err("empty rendering".into());
    }
    if !reps[0].contains(&e.error_message()) {
        return Err(format!("report does not contain the message: {}", reps[0]));
    }
    Ok(())
}

fn range_ok(e: &LatexError, s: &str) -> Result<(), String> {
    let r = &e.0;
    if r.start > r.end || r.end > s.len() || !s.is_char_boundary(r.start) || !s.is_char_boundary(r.end) {
        return Err(format!("byte range {}..{} is not a character range of the input (length {}): {}", r.start, r.end, s.len(), e.error_message()));
    }
    Ok(())
}

/// Built-in commands with arguments that are defined by expansion; an error in their body points at them.
const BUILTIN_MACROS: &[&str] = &["textcolor", "fbox", "Bra", "Ket", "Braket", "Set", "bra", "ket", "braket", "set", "pmod", "pod", "angln", "boxed", "surd", "mathstrut", "tripledash", "dots", "ldots", "cdots"];

const SWAPPED: &[&str] = &[
    "\\kern #2#1", "\\kern 3#2#1", "\\mskip#2#1x", "\\hspace{#2#1}", "\\hspace#2#1", "\\color[#2]{#1}", "\\color[#2]#1", "\\textcolor{#2#1}{#1}", "\\sqrt[#2]{#1}", "\\text{#2#1}", "\\text#2#1",
    "\\begin{array}{#2#1}#2\\end{array}", "\\left#2x\\right#1", "#2^#1_#2", "\\genfrac(){#2#1}{#1}{#2}{#1}", "\\operatorname{#2#1}", "\\sqrt#2#1", "{#2\\sideset{#2}{#1}#2}", "\\tag{#2#1}", "\\label{#2#1}\\eqref{#1#2}", "#2#1",
];
fn sw_args() -> Vec<&'static str> {
    let mut v = MB.to_vec();
    v.retain(|x| !x.contains('{') && !x.contains('}') && !x.contains('%'));
    v.extend(["3", ".", "-", "m", "e", "mu", "1e", "", "c", "|", "\\left(", "\\right)", "_b", "'", "rgb", "1,2,3", "{\u{e9}}", "\\text{\u{e9}}", "\\frac{}", "\\begin{matrix}", "\\end{matrix}", "\\sum", "\\dots", "\\textcolor", "\\fbox", "\\swu"]);
    v
}

/// Material that may stand in front of an error in any number.
const FAR_PADS: &[&str] = &["a", "1 ", "\u{e9}", "\u{4e2d}+", "\\alpha ", "{x}", " ", "\n", "%\u{e9}\n", "\\frac12", "\\text{\u{1F600} a}", "x'_1", "\\def\\q{x}", "\\mathbf{ab}"];
const FAR_TAILS: &[&str] = &["}", "{", "\\nope ", "\\left(x", "x^a^b", "\\frac", "\\sqrt[2", "\\begin{matrix}a", "\\end{matrix}", "&", "\\text{a$", "\\color{nope}x", "\\rule{1}{2}", "\\begin{nope}\\end{nope}", "\\x#", "\\right)", "\\newcommand\\z[12]{}", "\\mathbin", "\\hline", "\\label{a}"];

const PREFIXES: &[&str] = &[" ", "%\u{e9}\n", "x ", "\u{3b1}\u{4e2d}{\u{e9}} ", "\\text{\u{1F600}}\\, "];

fn c06(ctx: &mut Ctx) {
    let c = Cfg::new().mac("cm", "\\sqrt{#1}\\limits ").build();
    let cs = Cfg::new().build();
    let mut g = Cfg::new();
    g.global_group = false;
    let mut gl = g.build();
    let mut one = |ctx: &mut Ctx, s: &str| {
        ctx.begin(s);
        let r = catch_unwind(AssertUnwindSafe(|| cs.convert_with_local_state(s, BLK)));
        let Ok(r) = r else { return }; // C01's business
        let Err(e) = r else {
            ctx.class("ok");
            return;
        };
        let m = e.error_message();
        ctx.class(&m.chars().take(24).collect::<String>());
        ctx.outcome(&format!("{m}{:?}", e.0));
        if let Err(w) = range_ok(&e, s) {
            ctx.violation(s, s, &w);
            return;
        }
        if let Err(w) = renderings(&e, s) {
            ctx.violation(s, s, &w);
        }
        // Built-in commands can be macros, too.
        let builtin_macro = s[e.0.clone()].trim().starts_with('\\') && BUILTIN_MACROS.contains(&s[e.0.clone()].trim().trim_start_matches('\\'));
        if !builtin_macro && !["\\q", "\\cm", "command", "def", "\\let", "\\global"].iter().any(|x| s.contains(x)) {
            if let Err(w) = fits(&m, &s[e.0.clone()]) {
                ctx.violation(s, s, &w);
            }
        }
        // The stateful entry point reports the same error.
        let go = global(&mut gl, s, BLK);
        gl.reset_global_state();
        let lo = Out::Err { start: e.0.start, end: e.0.end, msg: m.clone() };
        if go != lo {
            ctx.violation(s, s, &format!("local state: {} but global state: {}", lo.show(), go.show()));
        }
        // Behind other material, leading scripts and limits mean something else.
        let head = s.trim_start();
        let n = if ["\\limits", "\\nolimits", "\\displaylimits", "^", "_", "'", "%"].iter().any(|h| head.starts_with(h)) { 2 } else { PREFIXES.len() };
        for (i, p) in PREFIXES.iter().enumerate().take(n) {
            let s2 = format!("{p}{s}");
            match local(&cs, &s2, BLK) {
                Out::Err { start, end, msg } => {
                    if msg == m {
                        if start != e.0.start + p.len() || end != e.0.end + p.len() {
                            ctx.violation(s, s, &format!("behind the prefix {p:?} the range {}..{} becomes {start}..{end} ({m})", e.0.start, e.0.end));
                        }
                    } else if i < 2 {
                        ctx.violation(s, s, &format!("behind the insignificant prefix {p:?} the error {m:?} becomes {msg:?}"));
                    }
                }
                Out::Ok { .. } if i < 2 => ctx.violation(s, s, &format!("fails, but not behind the insignificant prefix {p:?}")),
                _ => {}
            }
        }
    };
    for l in 1..=mb_len(ctx.tier) {
        sequences(ctx, MB, l, &mut one);
    }
    universe(ctx, sizes(ctx.tier), &mut one);
    // Errors far from the beginning.
    let far = ctx.pick(4097, 131073);
    for n in LENGTHS.iter().copied().chain([2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 32767, 32768, 32769, 65535, 65536, 65537, 131071, 131072, 131073]).filter(|&n| n <= far) {
        for pad in FAR_PADS {
            for tail in FAR_TAILS {
                if !ctx.mine() {
                    continue;
                }
                let s = format!("{}{tail}", pad.repeat(n));
                if n <= 300 {
                    one(ctx, &s);
                }
                let key = format!("{pad:?} x {n} + {tail:?}");
                ctx.begin(&key);
                let (near, got) = (local(&cs, &format!("{pad}{tail}"), BLK), local(&cs, &s, BLK));
                let want = match near {
                    Out::Err { start, end, msg } => Out::Err { start: start + pad.len() * (n - 1), end: end + pad.len() * (n - 1), msg },
                    _ => continue,
                };
                ctx.class("far");
                if got != want {
                    ctx.violation(&key, &s, &format!("{key}: {} instead of {}", got.show(), want.show()));
                }
            }
        }
        if ctx.stop {
            return;
        }
    }
    // Macros from the configuration.
    let mut cfgm = |ctx: &mut Ctx, s: &str| {
        ctx.begin(s);
        for (i, macros) in [vec![("x".to_string(), s.to_string())], vec![("x".to_string(), "y".to_string()), ("\u{e9}".to_string(), "z".to_string()), ("yy".to_string(), s.to_string())]].into_iter().enumerate() {
            let mut conf = Cfg::new();
            conf.macros = macros.clone();
            let r = catch_unwind(AssertUnwindSafe(|| LatexToMathML::new(conf.config())));
            match r {
                Err(_) => ctx.violation(s, s, &format!("creating a converter with this macro panicked: {}", last_panic())),
                Ok(Ok(_)) => ctx.class("macro ok"),
                Ok(Err((e, idx, src))) => {
                    ctx.class("macro rejected");
                    if idx >= macros.len() {
                        ctx.violation(s, s, &format!("variant {i}: macro index {idx} out of range"));
                        continue;
                    }
                    if src != macros[idx].1 && src != macros[idx].0 {
                        ctx.violation(s, s, &format!("variant {i}: reported source {src:?} is not that of macro {idx}"));
                    }
                    if let Err(w) = range_ok(&e, &src).and_then(|_| renderings(&e, &src)) {
                        ctx.violation(s, s, &format!("variant {i}: {w}"));
                    }
                }
            }
        }
        // An error inside the expansion of a configuration macro points at its use.
        for s2 in [format!("\\cm{{{s}}}"), format!("{s}\\cm x"), format!("\\cm {s}")] {
            if let Ok(Err(e)) = catch_unwind(AssertUnwindSafe(|| c.convert_with_local_state(&s2, BLK))) {
                if let Err(w) = range_ok(&e, &s2).and_then(|_| renderings(&e, &s2)) {
                    ctx.violation(&s2, &s2, &w);
                }
            }
        }
    };
    for l in 1..=mb_len(ctx.tier).min(3) {
        sequences(ctx, MB, l, &mut cfgm);
    }
    sequences(ctx, full(), 1, &mut cfgm);
    // Macros that use their arguments in the opposite order.
    let mut sw = Cfg::new();
    for (i, b) in SWAPPED.iter().enumerate() {
        sw = sw.mac(&format!("sw{}", (b'a' + i as u8) as char), b);
    }
    let sw = sw.build();
    let n = sw_args();
    for i in 0..SWAPPED.len() {
        for a in &n {
            for b in &n {
                if !ctx.mine() {
                    continue;
                }
                let s = format!("\u{e9}\\sw{}{{{a}}}{{{b}}}", (b'a' + i as u8) as char);
                ctx.begin(&s);
                if let Ok(Err(e)) = catch_unwind(AssertUnwindSafe(|| sw.convert_with_local_state(&s, BLK))) {
                    ctx.class("swapped arguments, error");
                    ctx.outcome(&format!("{}{:?}", e.error_message(), e.0));
                    if let Err(w) = range_ok(&e, &s).and_then(|_| renderings(&e, &s)) {
                        ctx.violation(&s, &s, &w);
                    }
                }
            }
        }
    }
    sequences(ctx, MID, 2, &mut cfgm);
}

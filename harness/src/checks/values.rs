//! C20 (lengths, colours, column specifications), C22 (math fonts), C23 (every character).
use crate::conv::*;
use crate::engine::*;
use crate::vocab;
use crate::xml::{self, El};
use math_core::*;
use std::collections::{HashMap, HashSet};

pub fn specs() -> Vec<Spec> {
    vec![
        Spec {
            id: "C20",
            level: "exploration",
            rule: "Every argument string in the bounds is given to every command that takes that kind of argument; an independent recogniser of the grammar decides whether it has to be accepted and which value it denotes, which is compared with the attribute in the output. evaluations = conversions; distinct_nontrivial = distinct outputs and kinds of errors.",
            bounds: |t| format!("lengths: all strings of up to {} characters over {:?} and {} structured values in 7 commands; colours: every named colour and all its one-character edits, rgb components 0-1 in steps of 1/1000 at every position, all 256 RGB components and all 6-digit forms per position, malformed lists; column specifications: all strings of up to {} characters over {:?} in 3 environments", c20_len(t), LEN_ALPHA.iter().collect::<String>(), c20_numbers(t).len() * 8, c20_cols(t), COL_ALPHA.iter().collect::<String>()),
            assumptions: &["colour components outside of their range and additional components are not compared", "a sign + is only accepted by \\kern and \\hskip (as documented for the number parser)", "blanks around the length of \\raisebox are not compared"],
            run: c20,
            workers: 8,
            prepare: None,
        },
        Spec {
            id: "C22",
            level: "exploration",
            rule: "For every font command and every Unicode scalar value, the text of the styled character is compared with the mathematical alphabet of the Unicode Character Database (harness/data/fonts.txt, generated by tools/gen_fonts.py); the text without the font command is the reference for everything outside of the alphabet. evaluations = (font form, character) pairs.",
            bounds: |_| format!("{} font forms x all 1112064 scalar values, all letter commands, all pairs of {} letters", FONTS.len(), C22_PAIR.chars().count()),
            assumptions: &["variation selectors after script letters are only compared for capital letters (VS1 for \\mathcal, VS2 for \\mathscr)", "operators (such as the summation sign) are not letters"],
            run: c22,
            workers: 8,
            prepare: None,
        },
        Spec {
            id: "C23",
            level: "exploration",
            rule: "For every Unicode scalar value and every input position, the visible text of the output must be the text of the surroundings with the character (or its documented equivalent) in its place; or the input must be rejected where the character is special. evaluations = (position, character) pairs.",
            bounds: |_| format!("all 1112064 scalar values x {} positions x unicode_substitution on/off", C23_MATH.len() + C23_TEXT.len() + C23_RAW.len() + 2),
            assumptions: &["the characters special to TeX are only compared in the plain positions"],
            run: c23,
            workers: 8,
            prepare: None,
        },
    ]
}

// ---------------------------------------------------------------- C20

fn c20_len(t: Tier) -> usize {
    if t == Tier::Quick { 4 } else { 5 }
}
fn c20_cols(t: Tier) -> usize {
    if t == Tier::Quick { 5 } else { 7 }
}
const LEN_ALPHA: &[char] = &['0', '1', '9', '.', '-', ' ', 'e', 'm', 'p', 't', 'c', 'x', 'i', 'n', 'u', 's', '+', ',', 'E', '\u{e9}'];
const COL_ALPHA: &[char] = &['l', 'c', 'r', '|', ':', ' ', 'x', '-'];
/// (unit, size, resulting unit)
const UNITS: &[(&str, f64, &str)] = &[("pt", 0.1, "rem"), ("mm", 0.284527559, "rem"), ("cm", 2.84527559, "rem"), ("in", 7.227, "rem"), ("ex", 1.0, "ex"), ("em", 1.0, "em"), ("mu", 1.0 / 18.0, "em"), ("sp", 1.0 / 655360.0, "rem")];

/// A number: digits with at most one decimal point, and no more digits than a u64 holds.
fn number(s: &str) -> Option<f64> {
    let digits: String = s.chars().filter(|c| *c != '.').collect();
    if digits.is_empty() || !digits.bytes().all(|b| b.is_ascii_digit()) || s.matches('.').count() > 1 || digits.parse::<u64>().is_err() {
        return None;
    }
    format!("0{s}0").parse().ok().or_else(|| s.parse().ok()).map(|v: f64| if s.contains('.') { v } else { s.parse().unwrap_or(v) })
}
fn unit(s: &str) -> Option<(f64, &'static str, bool)> {
    UNITS.iter().find(|u| u.0.eq_ignore_ascii_case(s)).map(|u| (u.1, u.2, u.0 == "mu"))
}
/// A length argument: what it denotes, in its output unit, and whether it is a math unit.
fn length(s: &str) -> Option<(f64, &'static str, bool)> {
    let s = s.trim_matches([' ', '\n']);
    if !s.is_ascii() || s.len() < 2 {
        return None;
    }
    let (n, u) = s.split_at(s.len() - 2);
    let (f, u, m) = unit(u)?;
    let n = n.trim_end_matches([' ', '\n']);
    let (sign, n) = n.strip_prefix('-').map_or((1.0, n), |n| (-1.0, n));
    Some((sign * number(n)? * f, u, m))
}
/// The dimension at the start of the material after \kern; returns what follows it.
fn dimen(s: &str) -> Option<(f64, &'static str, bool)> {
    let ws = [' ', '\n'];
    let s = s.trim_start_matches(ws);
    let (sign, s) = if let Some(s) = s.strip_prefix('-') { (-1.0, s) } else { (1.0, s.strip_prefix('+').unwrap_or(s)) };
    let s = s.trim_start_matches(ws);
    let end = s.find(|c: char| !(c.is_ascii_digit() || c == '.' || c == ',')).unwrap_or(s.len());
    let n = s[..end].replace(',', ".");
    let s = s[end..].trim_start_matches(ws);
    let u: String = s.chars().take(2).collect();
    let (f, u, m) = unit(&u)?;
    Some((sign * number(&n)? * f, u, m))
}
fn shown_length(v: &str) -> Option<(f64, &str)> {
    let u = ["rem", "em", "ex"].into_iter().find(|u| v.ends_with(u)).unwrap_or("");
    Some((v[..v.len() - u.len()].parse().ok()?, u))
}
fn close(shown: &str, want: (f64, &str, bool)) -> bool {
    let Some((v, u)) = shown_length(shown) else { return false };
    // Without a conversion of units, it is the nearest number of single precision.
    if u == "em" && want.1 == "em" && want.2 || u == "ex" {
        return u == want.1 && v as f32 == want.0 as f32;
    }
    let ok = (v - want.0).abs() <= 3e-5 * want.0.abs().max(1e-30);
    // a zero needs no unit
    ok && (u == want.1 || u.is_empty() && v == 0.0)
}
fn c20_numbers(t: Tier) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    let n = if t == Tier::Quick { 300 } else { 3000 };
    for i in 0..n {
        v.push(i.to_string());
        v.push(format!("-{i}"));
        v.push(format!("{}.{:02}", i / 100, i % 100));
        v.push(format!(".{i:03}"));
        v.push(format!("{i}."));
    }
    // Many digits, in front of and behind the point.
    for i in 0..if t == Tier::Quick { 4000u64 } else { 40000 } {
        v.push(format!("{}.{:09}", i % 7, i * 9973));
        v.push(format!("{}.{}", i * 104_729, i % 1000));
    }
    for s in ["18446744073709551615", "18446744073709551616", "1844674407370955161.5", "0.0000000000000000001", "0.00000000000000000001", "00000000000000000000000001", "99999999999999999999", "1..2", ".", "-", "-.", "--1", "1-", "", "1e3", "1 2", "0", "-0", "0.0", "1,5"] {
        v.push(s.into());
    }
    v
}
fn first<'a>(e: &'a El, name: &str) -> Option<&'a El> {
    let mut hit = None;
    e.walk(&mut |x| {
        if hit.is_none() && x.name == name {
            hit = Some(x);
        }
    });
    hit
}
/// One length argument in one command.
fn c20_one_length(ctx: &mut Ctx, conv: &LatexToMathML, s: &str) {
    // (construct, wants math unit: Some(false) text units, Some(true) mu, None either)
    const HOW: &[(&str, Option<bool>)] = &[("\\hspace{□}", Some(false)), ("\\mspace{□}", Some(true)), ("\\raisebox{□}{x}", Some(false)), ("\\genfrac(){□}{}ab", None), ("\\kern□", Some(false)), ("\\mkern□", Some(true)), ("\\hskip □", Some(false)), ("\\mskip □", Some(true)), ("\\text{a\\raisebox{□}{x}}", Some(false))];
    for (k, (h, math)) in HOW.iter().enumerate() {
        let raise = h.contains("raisebox");
        if raise && s.trim() != s || raise && s.contains('\n') {
            continue;
        }
        let kern = (4..8).contains(&k);
        if kern && s.starts_with(|c: char| c.is_ascii_alphabetic()) && !h.ends_with(" □") {
            continue;
        }
        let src = h.replace('□', s);
        ctx.begin(&src);
        let want = if kern { dimen(s) } else { length(s) }.filter(|w| math.is_none_or(|m| m == w.2));
        let got = local(conv, &src, BLK);
        let empty_frac = k == 3 && s.trim().is_empty();
        ctx.class(if want.is_some() { "valid length" } else { "invalid length" });
        let bad = match (&got, want) {
            (Out::Ok { mathml, .. }, _) if empty_frac => mathml.contains("linethickness").then(|| "a line thickness although none was given".to_string()),
            (Out::Ok { .. }, None) => Some("accepted".to_string()),
            (Out::Ok { mathml, .. }, Some(w)) => {
                ctx.outcome(mathml);
                let Ok(e) = xml::parse_norm(mathml) else { continue };
                let shown = match k {
                    2 | 8 => first(&e, "mpadded").and_then(|e| e.attr("voffset")).or(Some("0")),
                    3 => first(&e, "mfrac").and_then(|e| e.attr("linethickness")),
                    _ => first(&e, "mspace").and_then(|e| e.attr("width").or_else(|| e.attr("style").and_then(|s| s.strip_prefix("margin-left:")).map(|s| s.trim_end_matches(';')))),
                };
                match shown {
                    Some(x) if close(x, (w.0, w.1, !w.2)) => None,
                    x => Some(format!("should denote {}{}, output has {x:?}", w.0, w.1)),
                }
            }
            (Out::Err { msg, .. }, Some(_)) => Some(format!("rejected: {msg}")),
            (Out::Err { msg, .. }, None) => {
                // the error quotes the argument or the unit
                let arg = s.trim();
                let u: String = arg.chars().rev().take(2).collect::<Vec<_>>().into_iter().rev().collect();
                (!kern && arg.is_ascii() && !msg.contains(arg) && !msg.contains(&u)).then(|| format!("the error does not quote the argument: {msg}"))
            }
            (Out::Panic(p), _) => Some(p.clone()),
        };
        if let Some(b) = bad {
            ctx.violation(&src, &src, &b);
        }
    }
}
fn c20_color(ctx: &mut Ctx, conv: &LatexToMathML, model: &str, arg: &str, want: Option<[u8; 3]>) {
    for h in ["\\color☆{□}x", "\\textcolor☆{□}{x}"] {
        if h.contains("text") && !model.is_empty() {
            continue;
        }
        let src = h.replace('☆', model).replace('□', arg);
        ctx.begin(&src);
        let got = local(conv, &src, INL);
        ctx.class(if want.is_some() { "valid colour" } else { "invalid colour" });
        let bad = match (&got, want) {
            (Out::Ok { mathml, .. }, Some([r, g, b])) => {
                ctx.outcome(mathml);
                let hex = format!("color:#{r:02X}{g:02X}{b:02X}");
                (!mathml.to_ascii_uppercase().contains(&hex.to_ascii_uppercase())).then(|| format!("should be {hex}, got {mathml}"))
            }
            (Out::Ok { mathml, .. }, None) => Some(format!("accepted: {mathml}")),
            (Out::Err { msg, .. }, Some(_)) => Some(format!("rejected: {msg}")),
            (Out::Err { msg, .. }, None) => (arg.chars().all(|c| c.is_ascii_alphanumeric() || " ,.-".contains(c)) && !msg.contains(arg)).then(|| format!("the error does not quote the argument: {msg}")),
            (Out::Panic(p), _) => Some(p.clone()),
        };
        if let Some(b) = bad {
            ctx.violation(&src, &src, &b);
        }
    }
}
fn c20_colors(ctx: &mut Ctx, conv: &LatexToMathML) {
    let names: HashMap<&str, [u8; 3]> = include_str!("../../data/colors.txt")
        .lines()
        .map(|l| {
            let mut p = l.split(' ');
            (p.next().unwrap(), [0; 3].map(|_: u8| p.next().unwrap().parse().unwrap()))
        })
        .collect();
    let mut sorted: Vec<&str> = names.keys().copied().collect();
    sorted.sort_unstable();
    for n in sorted {
        let mut edits: Vec<String> = vec![n.into(), n.to_ascii_lowercase(), n.to_ascii_uppercase(), format!(" {n}"), format!("{n} ")];
        for i in 0..n.len() {
            edits.push(format!("{}{}", &n[..i], &n[i + 1..]));
            for c in ["a", "e", "X", "1", "-", " "] {
                edits.push(format!("{}{c}{}", &n[..i], &n[i..]));
                edits.push(format!("{}{c}{}", &n[..i], &n[i + 1..]));
            }
        }
        for e in edits {
            if ctx.mine() {
                c20_color(ctx, conv, "", &e, names.get(&*e).copied());
            }
        }
    }
    let bases = ["0", "1", "0.5"];
    for pos in 0..3 {
        for i in 0..=1000u32 {
            for form in 0..3 {
                if !ctx.mine() {
                    continue;
                }
                let s = match form {
                    0 => format!("{}.{:03}", i / 1000, i % 1000),
                    1 => format!(" {}.{:03} ", i / 1000, i % 1000),
                    _ => format!("{}.{:03}", i / 1000, i % 1000).trim_start_matches('0').to_string(),
                };
                let mut c = bases;
                c[pos] = &s;
                let v = |s: &str| (format!("0{}", s.trim()).parse::<f32>().unwrap() * 255.0).round() as i32;
                // a component that lies exactly between two values may go either way
                let f = format!("0{}", s.trim()).parse::<f64>().unwrap() * 255.0;
                if (f.fract() - 0.5).abs() < 1e-4 {
                    continue;
                }
                c20_color(ctx, conv, "[rgb]", &c.join(","), Some([v(c[0]), v(c[1]), v(c[2])].map(|x| x as u8)).map(|mut w| {
                    // 0.5 * 255 = 127.5 is rounded up
                    for (i, w) in w.iter_mut().enumerate() {
                        if c[i] == "0.5" {
                            *w = 128;
                        }
                    }
                    w
                }));
            }
        }
        for i in 0..=255u32 {
            for j in [0u32, 7, 128, 255] {
                if !ctx.mine() {
                    continue;
                }
                let mut c = [j; 3];
                c[pos] = i;
                let [r, g, b] = c;
                let want = Some(c.map(|x| x as u8));
                c20_color(ctx, conv, "[RGB]", &format!("{r},{g},{b}"), want);
                c20_color(ctx, conv, "[RGB]", &format!(" {r}, {g} ,{b}"), want);
                c20_color(ctx, conv, "[HTML]", &format!("{r:02X}{g:02X}{b:02X}"), want);
                c20_color(ctx, conv, "[HTML]", &format!("{r:02x}{g:02x}{b:02X}"), want);
            }
        }
    }
    // malformed
    for i in 0..6 {
        for c in 0x20u8..0x7f {
            let c = c as char;
            if c.is_ascii_hexdigit() || "\\{}%#$&~^_".contains(c) || !ctx.mine() {
                continue;
            }
            let mut s = "01ABef".to_string();
            s.replace_range(i..i + 1, &c.to_string());
            c20_color(ctx, conv, "[HTML]", &s, None);
        }
    }
    for s in ["", "0", "00", "000", "0000", "00000", "0000000", "00000000", "#00000", "#000000", "0x0000", "00 00 00"] {
        if ctx.mine() {
            c20_color(ctx, conv, "[HTML]", s, None);
        }
    }
    for m in ["[rgb]", "[RGB]"] {
        for s in ["", ",", ",,", "1", "1,1", "1,,1", "a,b,c", "1,1,x", "1;1;1", "1 1 1", "1,1,1x", "--1,1,1", "0x1,1,1", "1,1,", ",1,1", "1e0,1,1", "+1,1,1"] {
            if ctx.mine() {
                c20_color(ctx, conv, m, s, None);
            }
        }
    }
    for m in ["[]", "[x]", "[cmyk]", "[html]", "[Rgb]", "[rgb ]x", "[named]"] {
        if ctx.mine() {
            let src = format!("\\color{m}{{1,1,1}}x");
            ctx.begin(&src);
            let o = local(conv, &src, INL);
            if o.is_ok() {
                ctx.violation(&src, &src, "an unknown colour model was accepted");
            }
        }
    }
}
fn c20_colspec(ctx: &mut Ctx, conv: &LatexToMathML, s: &str) {
    // what the specification denotes
    let cols: Vec<char> = s.chars().filter(|c| !c.is_whitespace()).collect();
    let valid = cols.iter().all(|c| "lcr|:".contains(*c)) && cols.iter().any(|c| "lcr".contains(*c));
    let n = cols.iter().filter(|c| "lcr".contains(**c)).count();
    let row: String = (0..n).map(|i| ((b'a' + i as u8) as char).to_string()).collect::<Vec<_>>().join("&");
    for env in ["array", "darray", "subarray"] {
        let src = format!("\\begin{{{env}}}{{{s}}}{row}\\\\{row}\\end{{{env}}}");
        ctx.begin(&src);
        let got = local(conv, &src, BLK);
        ctx.class(if valid { "valid columns" } else { "invalid columns" });
        let mathml = match (&got, valid) {
            (Out::Ok { mathml, .. }, true) => mathml,
            (Out::Err { msg, .. }, false) => {
                let squeeze = |s: &str| s.split_whitespace().collect::<String>();
                if !squeeze(msg).contains(&squeeze(s)) {
                    ctx.violation(&src, &src, &format!("the error does not quote the argument: {msg}"));
                }
                continue;
            }
            _ => {
                ctx.violation(&src, &src, &format!("column specification {s:?}: {}", got.show()));
                continue;
            }
        };
        ctx.outcome(mathml);
        let e = match xml::parse_norm(mathml) {
            Ok(e) => e,
            Err(_) => continue,
        };
        let Some(t) = first(&e, "mtable") else {
            ctx.violation(&src, &src, "no table");
            continue;
        };
        let style = |e: &El| e.attr("style").unwrap_or("").to_string();
        let mut lines: Vec<char> = vec![];
        if style(t).contains("border-left: 0.05em solid") {
            lines.push('|');
        } else if style(t).contains("border-left: 0.05em dashed") {
            lines.push(':');
        }
        let mut got_cols: Vec<Vec<char>> = vec![];
        for tr in t.els() {
            let mut v = lines.clone();
            for td in tr.els() {
                let s = style(td);
                let text = td.text();
                if !text.is_empty() {
                    v.push(if s.contains("text-align: left") { 'l' } else if s.contains("text-align: right") { 'r' } else { 'c' });
                }
                if s.contains("border-right: 0.05em solid") {
                    v.push('|');
                } else if s.contains("border-right: 0.05em dashed") {
                    v.push(':');
                }
            }
            got_cols.push(v);
        }
        // a second rule behind the last column is not required
        let last = cols.iter().rposition(|c| "lcr".contains(*c)).unwrap();
        for v in &got_cols {
            let ok = v.len() >= last + 1 && v[..=last] == cols[..=last] && v[last + 1..] == cols[last + 1..][..v.len() - last - 1] && (cols.len() == last + 1 || v.len() > last + 1);
            if !ok {
                ctx.violation(&src, &src, &format!("columns {:?} in the output: {mathml}", v.iter().collect::<String>()));
                break;
            }
        }
        if got_cols.len() != 2 {
            ctx.violation(&src, &src, "not two rows");
        }
    }
}
fn strings(ctx: &mut Ctx, alpha: &[char], max: usize, f: &mut dyn FnMut(&mut Ctx, &str)) {
    let a: Vec<String> = alpha.iter().map(|c| c.to_string()).collect();
    for l in 0..=max {
        vocab::sequences(ctx, &a, l, f);
    }
}
fn c20(ctx: &mut Ctx) {
    let conv = Cfg::new().build();
    let n = c20_len(ctx.tier);
    strings(ctx, LEN_ALPHA, n, &mut |ctx, s| c20_one_length(ctx, &conv, s));
    for n in c20_numbers(ctx.tier) {
        for (i, (u, ..)) in UNITS.iter().enumerate() {
            if !ctx.mine() {
                continue;
            }
            let u2 = if i % 2 == 0 { u.to_uppercase() } else { format!("{}{}", &u[..1], u[1..].to_uppercase()) };
            for s in [format!("{n}{u}"), format!("{n} {u}"), format!(" {n}{u2} "), format!("{n}{u2}")] {
                c20_one_length(ctx, &conv, &s);
            }
        }
        if ctx.stop {
            return;
        }
    }
    // every two-letter unit
    for a in b'a'..=b'z' {
        for b in b'a'..=b'z' {
            if ctx.mine() {
                for (x, y) in [(a, b), (a.to_ascii_uppercase(), b), (a, b.to_ascii_uppercase())] {
                    c20_one_length(ctx, &conv, &format!("2{}{}", x as char, y as char));
                }
            }
        }
    }
    c20_colors(ctx, &conv);
    let m = c20_cols(ctx.tier);
    strings(ctx, COL_ALPHA, m, &mut |ctx, s| c20_colspec(ctx, &conv, s));
}

// ---------------------------------------------------------------- C22

/// Font forms and the alphabet they stand for.
const FONTS: &[(&str, &str)] = &[
    ("\\mathbf{□}", "BOLD"), ("\\bold{□}", "BOLD"), ("{\\bf □}", "BOLD"), ("\\bm{□}", "BOLD-ITALIC"), ("\\boldsymbol{□}", "BOLD-ITALIC"), ("\\symbf{□}", "BOLD-ITALIC"), ("\\mathbb{□}", "DOUBLE-STRUCK"), ("\\Bbb{□}", "DOUBLE-STRUCK"), ("\\mathcal{□}", "SCRIPT"), ("{\\cal □}", "SCRIPT"),
    ("\\mathscr{□}", "SCRIPT"), ("\\mathfrak{□}", "FRAKTUR"), ("\\frak{□}", "FRAKTUR"), ("\\mathit{□}", "ITALIC"), ("{\\it □}", "ITALIC"), ("\\mathsf{□}", "SANS-SERIF"), ("{\\sf □}", "SANS-SERIF"), ("\\mathtt{□}", "MONOSPACE"), ("{\\tt □}", "MONOSPACE"), ("\\mathrm{□}", ""), ("{\\rm □}", ""),
];
const C22_PAIR: &str = "aAhzZIBEeg0159αΩπϑΓ∂fRCHNPQ";
fn alphabets() -> HashMap<&'static str, HashMap<char, char>> {
    let mut m: HashMap<&'static str, HashMap<char, char>> = HashMap::new();
    for l in include_str!("../../data/fonts.txt").lines() {
        let mut p = l.split('\t');
        let (a, b, c) = (p.next().unwrap(), p.next().unwrap(), p.next().unwrap());
        m.entry(a).or_default().insert(b.chars().next().unwrap(), c.chars().next().unwrap());
    }
    m
}
fn text(o: &Out) -> Option<String> {
    o.ok().map(|m| xml::parse(m).map(|e| e.text()).unwrap_or_else(|e| format!("unparsable {e:?}")))
}
/// Is every letter of the plain output upright, so that a bold font keeps it upright?
fn upright(o: &Out) -> bool {
    o.ok().is_some_and(|m| m.contains("mathvariant=\"normal\""))
}
fn c22_map(tab: &HashMap<&str, HashMap<char, char>>, alpha: &str, up: bool, plain: &str) -> String {
    let alpha = if alpha == "BOLD-ITALIC" && up { "BOLD" } else { alpha };
    let t = tab.get(alpha);
    plain.chars().map(|c| if c == '∑' { c } else { t.and_then(|t| t.get(&c)).copied().unwrap_or(c) }).collect()
}
fn c22_cmp(ctx: &mut Ctx, tab: &HashMap<&str, HashMap<char, char>>, conv: &LatexToMathML, form: (&str, &str), s: &str, plain: &Out) {
    let src = form.0.replace('□', s);
    ctx.begin(&src);
    let got = local(conv, &src, BLK);
    let (Some(p), Some(g)) = (text(plain), text(&got)) else {
        if plain.is_ok() != got.is_ok() {
            ctx.violation(&src, &src, &format!("without the font: {}\n    with the font: {}", plain.show(), got.show()));
        }
        return;
    };
    let want = c22_map(tab, form.1, upright(plain), &p);
    let bare: String = g.chars().filter(|c| !matches!(c, '\u{fe00}' | '\u{fe01}') || p.contains(*c)).collect();
    ctx.class(if want == p { "unchanged" } else { "mapped" });
    let mut bad = bare != want;
    if !bad && want != p && form.1 == "SCRIPT" && p.chars().all(|c| c.is_ascii_uppercase()) {
        let vs = if form.0.contains("scr") { '\u{fe01}' } else { '\u{fe00}' };
        bad = want.chars().flat_map(|c| [c, vs]).collect::<String>() != g;
    }
    // \mathrm keeps single letters upright
    if form.1.is_empty() && p.chars().count() == 1 && got.ok().is_some_and(|m| m.contains("<mi>")) && p.chars().all(|c| c.is_ascii_alphabetic()) {
        bad = true;
    }
    if bad {
        ctx.violation(&src, &src, &format!("text {g:?} should be {want:?} ({})", got.show()));
    }
    if want != p {
        ctx.outcome(&g);
    }
}
fn c22(ctx: &mut Ctx) {
    let tab = alphabets();
    let conv = Cfg::new().build();
    for u in 0..=0x10ffffu32 {
        let Some(c) = char::from_u32(u) else { continue };
        if "%\\{}&#$^_".contains(c) || !ctx.mine() {
            continue;
        }
        let s = c.to_string();
        ctx.begin(&s);
        let plain = local(&conv, &s, BLK);
        for f in FONTS {
            c22_cmp(ctx, &tab, &conv, *f, &s, &plain);
        }
        if ctx.stop {
            return;
        }
    }
    // commands that stand for one letter
    for c in vocab::commands() {
        if !ctx.mine() {
            continue;
        }
        let s = vocab::cmd(c);
        ctx.begin(&s);
        let plain = local(&conv, &s, BLK);
        let Some(m) = plain.ok() else { continue };
        let Ok(e) = xml::parse_norm(m) else { continue };
        let mut els = e.els();
        let (Some(mi), None) = (els.next(), els.next()) else { continue };
        if mi.name != "mi" || mi.text().chars().count() != 1 {
            continue;
        }
        // letters that already belong to an alphabet stay as they are
        for f in FONTS {
            let one = mi.text().chars().next().unwrap();
            if tab.values().any(|t| t.values().any(|v| *v == one)) && f.1 != "" && tab[f.1].contains_key(&one) {
                continue;
            }
            c22_cmp(ctx, &tab, &conv, *f, &s, &plain);
        }
    }
    // pairs are merged letter by letter
    for a in C22_PAIR.chars() {
        for b in C22_PAIR.chars() {
            for f in FONTS {
                if ctx.mine() {
                    let s = format!("{a}{b}");
                    let src = f.0.replace('□', &s);
                    ctx.begin(&src);
                    let one = |c: char| text(&local(&conv, &f.0.replace('□', &c.to_string()), BLK)).unwrap_or_default();
                    let got = text(&local(&conv, &src, BLK)).unwrap_or_default();
                    if got != one(a) + &one(b) {
                        ctx.violation(&src, &src, &format!("text {got:?} is not that of the two letters"));
                    }
                }
            }
        }
    }
    // no two characters have the same image: a consequence of equality with the table, in which
    // the images are distinct
    let mut seen = HashSet::new();
    for (a, t) in &tab {
        for v in t.values() {
            assert!(seen.insert((*a, *v)), "the reference table is not injective");
        }
    }
}

// ---------------------------------------------------------------- C23

/// (position, text before, text after)
const C23_MATH: &[(&str, &str, &str)] = &[
    ("a□b", "a", "b"), ("□", "", ""), ("{□}b", "", "b"), ("x^{a□b}", "xa", "b"), ("x_{□}^y", "x", "y"), ("\\frac{□}{b}", "", "b"), ("\\frac a{b□}", "ab", ""), ("\\sqrt{a□}b", "a", "b"), ("\\begin{matrix}a&□\\\\b\\end{matrix}", "a", "b"), ("\\left(□\\right)", "(", ")"),
    ("1□2", "1", "2"), ("=□=", "=", "="), ("\\mathrm{a□b}", "a", "b"), ("\\mathbf{1}□b", "𝟏", "b"), ("\\def\\p{□}a\\p b", "a", "b"), ("\\def\\p#1{a#1b}\\p{□}", "a", "b"), ("\\overline{□}b", "", "\u{332}b"), ("\\sum □b", "∑", "b"), ("\\sin □b", "sin", "b"), ("\\hat{a}□b", "a\u{2c6}", "b"),
    ("{\\rm a}□b", "a", "b"), ("\\color{red}a□b", "a", "b"), ("\\displaystyle a□b", "a", "b"), ("\\underset{□}{b}", "b", ""), ("\\phantom{x}□b", "x", "b"), ("\\begin{align*}a□&b\\end{align*}", "a", "b"), ("\\mathop{a□}b", "a", "b"), ("\\mathbin{a□}b", "a", "b"), ("{a□\\over b}", "a", "b"), ("\\boxed{a□}b", "a", "b"),
];
const C23_TEXT: &[(&str, &str, &str)] = &[("\\text{a□b}", "a", "b"), ("\\textrm{□}b", "", "b"), ("x\\text{□}y", "x", "y"), ("\\text{a\\raisebox{1pt}{□}}b", "a", "b"), ("\\def\\p#1{\\text{a#1b}}\\p{□}", "a", "b")];
/// Raw arguments and the characters they may contain there.
const C23_RAW: &[(&str, &str)] = &[("\\hspace{1em□}", " \n\t\r\u{c}%"), ("\\color{red□}x", "%"), ("\\begin{array}{c□}a\\end{array}", "lcr|: \n\t\r\u{c}%"), ("\\begin{matrix□}a\\end{matrix}", "*%"), ("\\color[HTML]{00000□}x", "0123456789abcdefABCDEF%"), ("\\genfrac(){1em□}{}ab", " \n\t\r\u{c}%"), ("\\raisebox{1pt□}{x}", "%")];
const SPECIAL: &str = "\\{}$&#^_%~";
const WS: &str = " \n\t\r\u{c}";

fn c23_math(c: char) -> String {
    match c {
        c if WS.contains(c) => String::new(),
        '"' => "”".into(),
        '\'' => "′".into(),
        '*' => "∗".into(),
        '-' => "−".into(),
        '`' => "‘".into(),
        '~' => "\u{a0}".into(),
        c => c.into(),
    }
}
fn c23_text(c: char) -> String {
    match c {
        c if WS.contains(c) || c == '~' => "\u{a0}".into(),
        '"' => "”".into(),
        '\'' => "’".into(),
        '`' => "‘".into(),
        c => c.into(),
    }
}
fn c23(ctx: &mut Ctx) {
    let mut cfg = Cfg::new();
    let conv = cfg.build();
    cfg.no_subst = true;
    let nosub = cfg.build();
    for u in 0..=0x10ffffu32 {
        let Some(c) = char::from_u32(u) else { continue };
        if !ctx.mine() {
            continue;
        }
        if ctx.stop {
            return;
        }
        let cs = c.to_string();
        for (text_mode, list) in [(false, C23_MATH), (true, C23_TEXT)] {
            for (i, (p, before, after)) in list.iter().enumerate() {
                let src = p.replace('□', &cs);
                let nul = c == '\0';
                if SPECIAL.contains(c) && i > 0 {
                    continue;
                }
                // a prime is a superscript of what is before it
                if c == '\'' && !text_mode && i > 0 {
                    continue;
                }
                ctx.begin(&src);
                let rejected = nul || "\\{}#$%^_&".contains(c) && (text_mode || !"%^_".contains(c)) && !(text_mode && "^_".contains(c) && false);
                let e = if text_mode { c23_text(c) } else { c23_math(c) };
                let want = format!("{before}{e}{after}");
                for k in [&conv, &nosub] {
                    let got = local(k, &src, BLK);
                    let t = text(&got);
                    // without a base or operand
                    if "^_%".contains(c) && !text_mode {
                        ctx.class("special");
                        let t = t.unwrap_or_default();
                        if c == '%' && t != *before || c != '%' && t != format!("{before}{after}") {
                            ctx.violation(&src, &src, &got.show());
                        }
                        continue;
                    }
                    ctx.class(if rejected { "rejected" } else if e.is_empty() { "insignificant" } else if e == cs { "kept" } else { "equivalent" });
                    let ok = match &t {
                        Some(t) => !rejected && *t == want,
                        None => rejected && matches!(got, Out::Err { .. }),
                    };
                    if u < 0x3000 {
                        ctx.outcome(t.as_deref().unwrap_or("rejected"));
                    }
                    if !ok {
                        ctx.violation(&src, &src, &format!("text {t:?} should be {} ({})", if rejected { "an error".to_string() } else { format!("{want:?}") }, got.show()));
                        break;
                    }
                }
            }
        }
        for (p, allowed) in C23_RAW {
            if allowed.contains(c) || "{}\\".contains(c) {
                continue;
            }
            let src = p.replace('□', &cs);
            ctx.begin(&src);
            let got = local(&conv, &src, BLK);
            if !matches!(got, Out::Err { .. }) {
                ctx.violation(&src, &src, &format!("accepted: {}", got.show()));
            }
        }
        // operator names: kept or rejected
        if !SPECIAL.contains(c) {
            let src = format!("\\operatorname{{a{c}b}}");
            ctx.begin(&src);
            let got = local(&conv, &src, BLK);
            let want = format!("a{}b", if c == '*' { "*".to_string() } else { c23_math(c) });
            if let Some(t) = text(&got)
                && t != want
                && t != format!("a{}b", c23_math(c))
            {
                ctx.violation(&src, &src, &format!("text {t:?} should be {want:?}"));
            }
        }
        // a backslash makes a command of it, which is known or named in the error
        if !c.is_ascii_alphabetic() && c != '\0' {
            let src = format!("a\\{c}b");
            ctx.begin(&src);
            let got = local(&conv, &src, BLK);
            let named = got.msg().contains(&format!("nknown command \"\\{c}\""));
            if !named && !(c.is_ascii() && (got.is_ok() || !got.msg().contains("nknown command"))) {
                ctx.violation(&src, &src, &format!("not reported as an unknown command: {}", got.show()));
            }
        }
    }
}

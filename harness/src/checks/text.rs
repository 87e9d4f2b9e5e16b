//! C32: text mode sets every letter, in order, under the declarations in force.
use crate::conv::*;
use crate::engine::*;
use crate::vocab::LENGTHS;
use crate::xml::{self, El, N};
use math_core::*;

pub fn specs() -> Vec<Spec> {
    vec![Spec {
        id: "C32",
        level: "exploration",
        rule: "Every sequence of text tokens in the bounds is converted and the letters of the output, each with its style, size and shift, are compared with those of an independent recursive evaluation of the sequence; sequences which the evaluation rejects have to be rejected. All nestings of the text commands, all sizes, all text symbols and all accents over all letters are enumerated as well, long and deeply nested texts, and the names of operators. evaluations = conversions; distinct_nontrivial = distinct sequences of set letters.",
        bounds: |t| format!("all balanced sequences of up to {} tokens out of {} in {} hosts; all nestings of {} text commands 3 deep in 3 shapes; all {} sizes x 2 in 4 shapes; all nestings of up to {} shifts out of {} in all hosts; {} text symbols x all styles; {} accents x 52 letters x 6 shapes; 14 patterns repeated or nested up to 513 times; all sequences of up to {} out of {} parts of operator names, and each repeated up to 1001 times", n_tokens(t), TOKENS.len(), HOSTS.len(), STYLES.len(), SIZES.len(), if t == Tier::Quick { 3 } else { 4 }, RAISES.len(), SYMBOLS.len(), ACCENTS.len(), if t == Tier::Quick { 3 } else { 4 }, OPNAMES.len()),
        assumptions: &["a text command in front of an accent without braces is rejected (as in TeX)", "several text styles don't add up, except bold with italic; \\emph inside \\emph is upright", "dollar signs in text are not supported by the program"],
        run,
        workers: 8,
        prepare: None,
    }]
}

fn n_tokens(t: Tier) -> usize {
    if t == Tier::Quick { 5 } else { 7 }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum St {
    Plain,
    Bold,
    Italic,
    BoldItalic,
    Emph,
    Mono,
    Caps,
    Sans,
    Serif,
    Strike,
    Under,
}
use St::*;
const STYLES: &[(&str, St)] = &[("text", Plain), ("textbf", Bold), ("textit", Italic), ("emph", Emph), ("texttt", Mono), ("textsc", Caps), ("textsf", Sans), ("textrm", Serif), ("sout", Strike), ("underbar", Under)];
const SIZES: &[(&str, u32)] = &[("tiny", 50), ("sixptsize", 60), ("scriptsize", 70), ("footnotesize", 80), ("small", 90), ("normalsize", 100), ("large", 120), ("Large", 140), ("LARGE", 170), ("huge", 200), ("Huge", 250)];
const ACCENTS: &[(&str, char)] = &[("`", '\u{300}'), ("'", '\u{301}'), ("^", '\u{302}'), ("~", '\u{303}'), ("=", '\u{304}'), ("u", '\u{306}'), (".", '\u{307}'), ("\"", '\u{308}'), ("r", '\u{30a}'), ("H", '\u{30b}'), ("v", '\u{30c}'), ("c", '\u{327}')];
const SYMBOLS: &[(&str, char)] = &[
    ("AA", 'Å'), ("AE", 'Æ'), ("L", 'Ł'), ("O", 'Ø'), ("OE", 'Œ'), ("aa", 'å'), ("ae", 'æ'), ("i", 'ı'), ("j", 'ȷ'), ("l", 'ł'), ("o", 'ø'), ("oe", 'œ'), ("ss", 'ß'),
    ("textasciicircum", 'ˆ'), ("textasciitilde", '˜'), ("textbackslash", '\\'), ("textbar", '|'), ("textbardbl", '‖'), ("textbraceleft", '{'), ("textbraceright", '}'), ("textdagger", '†'), ("textdaggerdbl", '‡'), ("textdegree", '°'), ("textdollar", '$'), ("textellipsis", '…'), ("textemdash", '—'), ("textendash", '–'), ("textgreater", '>'), ("textless", '<'), ("textquotedblleft", '“'), ("textquotedblright", '”'), ("textquoteleft", '‘'), ("textquoteright", '’'), ("textregistered", '®'), ("textsterling", '£'), ("textunderscore", '_'), ("textyen", '¥'),
    ("#", '#'), ("$", '$'), ("%", '%'), ("&", '&'), ("_", '_'), ("{", '{'), ("}", '}'), ("P", '¶'), ("S", '§'), ("dots", '…'), ("ldots", '…'), (" ", '\u{a0}'), (",", '\u{2009}'), (":", '\u{205f}'), (">", '\u{205f}'), (";", '\u{2004}'), ("quad", '\u{2003}'), ("enspace", '\u{2002}'), ("thinspace", '\u{2009}'), ("medspace", '\u{205f}'), ("thickspace", '\u{2004}'),
];
/// Hosts of a text: source with the text at □, initial style, initial shift.
const HOSTS: &[(&str, St, Shift)] = &[("\\text{□}", Plain, [0; 3]), ("\\textbf{□}y", Bold, [0; 3]), ("z\\emph{□}", Emph, [0; 3]), ("\\raisebox{-2pt}{□}", Plain, [-2, 0, 0])];
/// Units of pt (a tenth of a rem), em and ex.
type Shift = [i32; 3];
fn add(a: Shift, b: Shift) -> Shift {
    [a[0] + b[0], a[1] + b[1], a[2] + b[2]]
}
const RAISES: &[(&str, Shift)] = &[("2pt", [2, 0, 0]), ("-2pt", [-2, 0, 0]), ("1em", [0, 1, 0]), ("-1em", [0, -1, 0]), ("3ex", [0, 0, 3]), ("-3ex", [0, 0, -3]), ("0pt", [0; 3])];
/// Tokens: l = a letter (p, q, w, … by position).
const TOKENS: &[&str] = &["l", " ", "~", "{", "}", "\\textbf", "\\textit", "\\emph", "\\text", "\\sout", "\\large ", "\\tiny ", "\\raisebox{2pt}", "\\raisebox{-2pt}", "\\'", "\\c ", "\\&"];
const LETTERS: &[char] = &['p', 'q', 'w', 'k', 'm', 'n', 'x'];

#[derive(Clone, PartialEq, Eq, Debug)]
struct Piece {
    text: String,
    style: St,
    size: Option<u32>,
    shift: Shift,
}
#[derive(Clone, Copy, Debug)]
enum T {
    Ch(char),
    Blank,
    Open,
    Close,
    Style(St),
    Size(u32),
    Raise(Shift),
    Accent(char),
}
#[derive(Clone, Copy)]
struct Mode {
    style: St,
    size: Option<u32>,
    shift: Shift,
}
/// The reference evaluation.
struct Eval<'a> {
    t: &'a [T],
    i: usize,
    out: Vec<Piece>,
    accents: Vec<char>,
}
struct Bad;
impl Eval<'_> {
    fn next(&mut self) -> Option<T> {
        let t = self.t.get(self.i).copied();
        self.i += 1;
        t
    }
    fn letter(&mut self, c: char, m: Mode) {
        let mut text = String::from(c);
        // the accent written last is the one closest to the letter
        text.extend(self.accents.drain(..).rev());
        push(&mut self.out, Piece { text, style: m.style, size: m.size, shift: m.shift });
    }
    /// The inside of a group, up to and including its closing brace.
    fn group(&mut self, mut m: Mode) -> Result<(), Bad> {
        loop {
            match self.next().ok_or(Bad)? {
                T::Ch(c) => self.letter(c, m),
                // blanks between an accent and its letter don't count
                T::Blank if !self.accents.is_empty() => {}
                T::Blank => self.letter('\u{a0}', m),
                T::Open => self.group(m)?,
                T::Close => {
                    if !self.accents.is_empty() {
                        self.letter('\u{a0}', m);
                    }
                    return Ok(());
                }
                T::Style(s) => self.argument(styled(m, s))?,
                T::Raise(d) => self.argument(Mode { shift: add(m.shift, d), ..m })?,
                T::Size(s) => m.size = Some(s),
                T::Accent(a) => self.accents.push(a),
            }
        }
    }
    fn argument(&mut self, m: Mode) -> Result<(), Bad> {
        loop {
            return match self.next().ok_or(Bad)? {
                T::Blank => continue,
                T::Ch(c) => {
                    self.letter(c, m);
                    Ok(())
                }
                T::Open => self.group(m),
                T::Close | T::Accent(_) => Err(Bad),
                T::Style(s) => self.argument(styled(m, s)),
                T::Raise(d) => self.argument(Mode { shift: add(m.shift, d), ..m }),
                T::Size(_) => Ok(()),
            };
        }
    }
}
fn styled(m: Mode, s: St) -> Mode {
    let style = match (m.style, s) {
        (Emph, Emph) => Plain,
        (Bold, Italic) | (Italic, Bold) => BoldItalic,
        _ => s,
    };
    Mode { style, ..m }
}
fn push(v: &mut Vec<Piece>, p: Piece) {
    if p.text.is_empty() {
        return;
    }
    match v.last_mut() {
        Some(l) if (l.style, l.size, l.shift) == (p.style, p.size, p.shift) => l.text.push_str(&p.text),
        _ => v.push(p),
    }
}
/// None: rejected.
fn reference(t: &[T], style: St, shift: Shift) -> Option<Vec<Piece>> {
    let mut e = Eval { t, i: 0, out: vec![], accents: vec![] };
    e.argument(Mode { style, size: None, shift }).ok()?;
    if e.i == t.len() { Some(e.out) } else { None }
}

/// The pieces of text in the output.
fn shown(e: &El, shift: Shift, out: &mut Vec<Piece>) -> Result<(), String> {
    match e.name.as_str() {
        "math" | "mrow" => e.els().try_for_each(|k| shown(k, shift, out)),
        "mpadded" => {
            let v = e.attr("voffset").ok_or("mpadded without voffset")?;
            let (k, scale) = if v.ends_with("rem") { (0, 10.0) } else if v.ends_with("em") { (1, 1.0) } else { (2, 1.0) };
            let v: f64 = v.trim_end_matches(["rem", "em", "ex"][k]).parse().map_err(|_| "voffset")?;
            if e.attrs.len() != 1 {
                return Err("attributes of mpadded".into());
            }
            let d = (v * scale).round();
            if (d - v * scale).abs() > 1e-4 {
                return Err("voffset".into());
            }
            let mut shift = shift;
            shift[k] += d as i32;
            e.els().try_for_each(|k| shown(k, shift, out))
        }
        "mtext" => {
            let size = match e.attr("style") {
                None => None,
                Some(s) => Some(s.strip_prefix("font-size:").and_then(|s| s.strip_suffix('%')).and_then(|s| s.parse().ok()).ok_or("size")?),
            };
            let mut style = Plain;
            let mut cur = e;
            loop {
                let inner: Vec<&El> = cur.els().collect();
                if inner.is_empty() {
                    break;
                }
                if inner.len() != 1 || cur.kids.iter().any(|k| matches!(k, N::T(_))) {
                    return Err("mixed text".into());
                }
                cur = inner[0];
                style = match (style, cur.name.as_str(), cur.attr("class").or(cur.attr("style")).unwrap_or("")) {
                    (Plain, "b", "") => Bold,
                    (Plain, "i", "") => Italic,
                    (Bold, "i", "") => BoldItalic,
                    (Plain, "em", "") => Emph,
                    (Plain, "code", "") => Mono,
                    (Plain, "s", "") => Strike,
                    (Plain, "u", "") => Under,
                    (Plain, "span", "font-variant-caps: small-caps") => Caps,
                    (Plain, "span", "math-core-sans-serif-font") => Sans,
                    (Plain, "span", "math-core-serif-font") => Serif,
                    _ => return Err(format!("unexpected markup <{}>", cur.name)),
                };
            }
            push(out, Piece { text: e.text(), style, size, shift });
            Ok(())
        }
        // the letters around the text
        "mi" => {
            push(out, Piece { text: e.text(), style: Plain, size: Some(0), shift });
            Ok(())
        }
        n => Err(format!("unexpected element <{n}>")),
    }
}
fn show(v: &[Piece]) -> String {
    v.iter()
        .map(|p| {
            let mut s = format!("{}:{:?}", p.text, p.style);
            if let Some(z) = p.size {
                s += &format!("/{z}%");
            }
            for (v, u) in p.shift.iter().zip(["pt", "em", "ex"]).filter(|x| *x.0 != 0) {
                s += &format!("/{v}{u}");
            }
            s
        })
        .collect::<Vec<_>>()
        .join(" ")
}

/// Convert `host` with `body` (which evaluates to `toks`) and compare.
fn one(ctx: &mut Ctx, conv: &LatexToMathML, host: &(&str, St, Shift), body: &str, toks: &[T]) {
    let src = host.0.replacen('□', body, 1);
    ctx.begin(&src);
    let mut t = vec![T::Open];
    t.extend_from_slice(toks);
    t.push(T::Close);
    let want = reference(&t, host.1, host.2);
    let got = local(conv, &src, INL);
    match (want, got) {
        (None, Out::Err { .. }) => ctx.class("rejected"),
        (None, o) => {
            ctx.violation(&src, &src, &format!("the text is malformed and has to be rejected; got {}", o.show()));
        }
        (Some(mut w), Out::Ok { mathml, .. }) => {
            let at = host.0.find('\\').unwrap();
            if at > 0 {
                w.insert(0, Piece { text: host.0[..at].into(), style: Plain, size: Some(0), shift: [0; 3] });
            }
            let tail = host.0.rsplit('}').next().unwrap();
            if !tail.is_empty() {
                w.push(Piece { text: tail.into(), style: Plain, size: Some(0), shift: [0; 3] });
            }
            let mut have = vec![];
            let r = xml::parse_norm(&mathml).map_err(|e| e.to_string()).and_then(|e| shown(&e, [0; 3], &mut have));
            let s = show(&w);
            ctx.outcome(&s);
            ctx.class(match w.len() {
                0 => "nothing to set",
                1 => "one piece",
                2 => "two pieces",
                _ => "more pieces",
            });
            if let Err(e) = r {
                ctx.violation(&src, &src, &format!("unexpected output ({e}): {mathml}"));
            } else if have != w {
                ctx.violation(&src, &src, &format!("letters set: {}; the text says: {s}", show(&have)));
            }
        }
        (Some(w), o) => {
            ctx.violation(&src, &src, &format!("a well-formed text ({}) is not converted: {}", show(&w), o.show()));
        }
    }
}

fn tok(s: &str, pos: usize) -> T {
    match s {
        "l" => T::Ch(LETTERS[pos % LETTERS.len()]),
        " " => T::Blank,
        "~" => T::Ch('\u{a0}'),
        "{" => T::Open,
        "}" => T::Close,
        "\\large " => T::Size(120),
        "\\tiny " => T::Size(50),
        "\\raisebox{2pt}" => T::Raise([2, 0, 0]),
        "\\raisebox{-2pt}" => T::Raise([-2, 0, 0]),
        "\\'" => T::Accent('\u{301}'),
        "\\c " => T::Accent('\u{327}'),
        "\\&" => T::Ch('&'),
        _ => T::Style(STYLES.iter().find(|x| x.0 == &s[1..]).unwrap().1),
    }
}
/// Source and tokens of a sequence; blanks that TeX's scanner removes aren't tokens.
fn build(seq: &[&str]) -> (String, Vec<T>) {
    let mut src = String::new();
    let mut toks = vec![];
    for (i, s) in seq.iter().enumerate() {
        let t = tok(s, i % LETTERS.len());
        match t {
            T::Ch(c) if *s == "l" => {
                // a letter must not continue the name of a command
                if src.ends_with(|c: char| c.is_ascii_alphabetic()) && src.rfind('\\').is_some_and(|k| src[k + 1..].chars().all(|c| c.is_ascii_alphabetic())) {
                    src.push(' ');
                }
                src.push(c);
            }
            _ => src.push_str(s),
        }
        if let (T::Blank, true) = (t, i > 0 && (seq[i - 1] == " " || seq[i - 1].starts_with('\\') && !seq[i - 1].ends_with('}') && seq[i - 1] != "\\&")) {
            continue;
        }
        toks.push(t);
    }
    (src, toks)
}

/// What may stand in the name of an operator, and what it shows.
const OPNAMES: &[(&str, &str)] = &[
    ("p", "p"), ("Q", "Q"), ("1", "1"), (" ", ""), ("~", "\u{a0}"), ("\\ ", "\u{a0}"), ("\\,", "\u{2009}"), ("\\:", "\u{205f}"), ("\\>", "\u{205f}"), ("\\;", "\u{2004}"), ("\\quad ", "\u{2003}"), ("\\thinspace ", "\u{2009}"), ("\\medspace ", "\u{205f}"), ("\\thickspace ", "\u{2004}"),
    ("\\sin ", "sin"), ("\\max ", "max"), ("'", "\u{2032}"), ("{q}", "q"), ("\\%", "%"), ("\\&", "&"), ("\\#", "#"), ("\\$", "$"), ("\\_", "_"), ("\\alpha ", "\u{3b1}"), ("\\Gamma ", "\u{393}"), ("\\infty ", "\u{221e}"), ("(", "("), (".", "."), ("+", "+"), (":", ":"), ("]", "]"), ("%\n", ""), ("\u{e9}", "\u{e9}"),
];
fn opname(ctx: &mut Ctx, conv: &LatexToMathML, body: &str, want: &str) {
    for h in ["\\operatorname{□}", "\\operatorname*{□}", "\\operatornamewithlimits{□}_m", "k\\operatorname{□}^2"] {
        let src = h.replace('□', body);
        ctx.begin(&src);
        let o = local(conv, &src, BLK);
        ctx.class("operator name");
        ctx.outcome(&o.show());
        let mut shown = None;
        if let Some(m) = o.ok()
            && let Ok(el) = xml::parse(m)
        {
            el.walk(&mut |e| {
                if e.name == "mo" && shown.is_none() && !e.text().contains('\u{2061}') {
                    shown = Some(e.text());
                }
                if e.name == "mi" && shown.is_none() && e.text() != "k" && e.text() != "m" {
                    shown = Some(e.text());
                }
            });
        }
        // the shape of the name (<mi> or <mo>) is for C24 and C33 to judge
        let got = shown.unwrap_or_default().replace('\u{2033}', "\u{2032}\u{2032}").replace('\u{2034}', "\u{2032}\u{2032}\u{2032}").replace('\u{2057}', "\u{2032}\u{2032}\u{2032}\u{2032}");
        if o.ok().is_none() || got != want {
            let key = if body.starts_with("\\text{") { body } else { &src };
            ctx.violation(key, &src, &format!("the name should be {want:?}: {}", o.show()));
        }
    }
}

fn run(ctx: &mut Ctx) {
    let conv = Cfg::new().build();
    // all sequences of tokens
    for len in 0..=n_tokens(ctx.tier) {
        let mut ix = vec![0usize; len];
        'seq: loop {
            let mut depth = 0i32;
            let mut bad = None;
            for (p, i) in ix.iter().enumerate() {
                depth += match TOKENS[*i] {
                    "{" => 1,
                    "}" => -1,
                    _ => 0,
                };
                if depth < 0 || depth > (len - 1 - p) as i32 {
                    bad = Some(p);
                    break;
                }
            }
            let mut p = len;
            if let Some(b) = bad {
                p = b + 1;
                for x in &mut ix[p..] {
                    *x = 0;
                }
            } else {
                let seq: Vec<&str> = ix.iter().map(|i| TOKENS[*i]).collect();
                for (k, h) in HOSTS.iter().enumerate() {
                    if k > 0 && len == n_tokens(ctx.tier) {
                        break;
                    }
                    if ctx.mine() {
                        let (src, toks) = build(&seq);
                        one(ctx, &conv, h, &src, &toks);
                    }
                }
                if ctx.stop {
                    return;
                }
            }
            loop {
                if p == 0 {
                    break 'seq;
                }
                p -= 1;
                ix[p] += 1;
                if ix[p] < TOKENS.len() {
                    break;
                }
                ix[p] = 0;
            }
        }
    }
    // all nestings of text commands
    let ch = T::Ch;
    for a in STYLES {
        if a.1 == Strike {
            continue;
        }
        for b in STYLES {
            for c in STYLES {
                let hosts = [(format!("\\{}{{□}}", a.0), a.1)];
                for (h, st) in &hosts {
                    let host = (h.as_str(), *st, [0; 3]);
                    let (sb, sc) = (T::Style(b.1), T::Style(c.1));
                    if ctx.mine() {
                        one(ctx, &conv, &host, &format!("p\\{}{{q\\{}{{w}}k}}m", b.0, c.0), &[ch('p'), sb, T::Open, ch('q'), sc, T::Open, ch('w'), T::Close, ch('k'), T::Close, ch('m')]);
                    }
                    if ctx.mine() {
                        one(ctx, &conv, &host, &format!("p\\{}{{q}}w\\{}{{k}}m", b.0, c.0), &[ch('p'), sb, T::Open, ch('q'), T::Close, ch('w'), sc, T::Open, ch('k'), T::Close, ch('m')]);
                    }
                    if ctx.mine() {
                        one(ctx, &conv, &host, &format!("p\\{}\\{} qw", b.0, c.0), &[ch('p'), sb, sc, ch('q'), ch('w')]);
                    }
                }
            }
        }
    }
    // sizes
    for a in SIZES {
        for b in SIZES {
            let (x, y) = (T::Size(a.1), T::Size(b.1));
            let cases: [(String, Vec<T>); 4] = [
                (format!("p\\{} q\\{} w", a.0, b.0), vec![ch('p'), x, ch('q'), y, ch('w')]),
                (format!("p{{\\{} q{{\\{} w}}k}}m", a.0, b.0), vec![ch('p'), T::Open, x, ch('q'), T::Open, y, ch('w'), T::Close, ch('k'), T::Close, ch('m')]),
                (format!("\\{} p\\textbf{{q\\{} w}}k", a.0, b.0), vec![x, ch('p'), T::Style(Bold), T::Open, ch('q'), y, ch('w'), T::Close, ch('k')]),
                (format!("p\\textbf{{q{{\\{} w}}k\\{} m}}n", a.0, b.0), vec![ch('p'), T::Style(Bold), T::Open, ch('q'), T::Open, x, ch('w'), T::Close, ch('k'), y, ch('m'), T::Close, ch('n')]),
            ];
            for (src, toks) in &cases {
                if ctx.mine() {
                    one(ctx, &conv, &HOSTS[0], src, toks);
                }
            }
        }
    }
    // shifts
    let depth = ctx.pick(3, 4);
    for len in 1..=depth {
        for mut n in 0..RAISES.len().pow(len) {
            let mut src = String::from("p");
            let mut toks = vec![ch('p')];
            for i in 0..len as usize {
                let (l, d) = RAISES[n % RAISES.len()];
                n /= RAISES.len();
                src += &format!("\\raisebox{{{l}}}{{{}", LETTERS[i + 1]);
                toks.extend([T::Raise(d), T::Open, ch(LETTERS[i + 1])]);
            }
            for i in 0..len as usize {
                src += &format!("}}{}", LETTERS[i]);
                toks.extend([T::Close, ch(LETTERS[i])]);
            }
            for h in HOSTS {
                if ctx.mine() {
                    one(ctx, &conv, h, &src, &toks);
                }
            }
        }
    }
    // symbols
    for (name, c) in SYMBOLS {
        for (cmd, st) in STYLES {
            if *st == Strike {
                continue;
            }
            let h = format!("\\{cmd}{{□}}");
            let host = (h.as_str(), *st, [0; 3]);
            let sep = if name.ends_with(|c: char| c.is_ascii_alphabetic()) { "{}" } else { "" };
            let e = if sep.is_empty() { vec![] } else { vec![T::Open, T::Close] };
            let blank = if sep.is_empty() && !" ,:;>".contains(name) { vec![T::Blank] } else { vec![] };
            let cases: [(String, Vec<T>); 4] = [
                (format!("p\\{name} q"), [vec![ch('p'), ch(*c)], blank, vec![ch('q')]].concat()),
                (format!("p\\{name}{sep}q"), [vec![ch('p'), ch(*c)], e.clone(), vec![ch('q')]].concat()),
                (format!("\\{name}"), vec![ch(*c)]),
                (format!("\\'\\{name}{sep}q\\textit\\{name}{sep}w"), [vec![T::Accent('\u{301}'), ch(*c)], e.clone(), vec![ch('q'), T::Style(Italic), ch(*c)], e, vec![ch('w')]].concat()),
            ];
            for (src, toks) in &cases {
                if ctx.mine() {
                    one(ctx, &conv, &host, src, toks);
                }
            }
        }
    }
    // accents
    for (name, a) in ACCENTS {
        for l in ('a'..='z').chain('A'..='Z') {
            let sep = if name.starts_with(|c: char| c.is_ascii_alphabetic()) { " " } else { "" };
            let acc = T::Accent(*a);
            let cases: [(String, Vec<T>); 6] = [
                (format!("p\\{name}{sep}{l}q"), vec![ch('p'), acc, ch(l), ch('q')]),
                (format!("p\\{name}{{{l}}}q"), vec![ch('p'), acc, T::Open, ch(l), T::Close, ch('q')]),
                (format!("p\\{name} {{{l}w}}q"), vec![ch('p'), acc, T::Open, ch(l), ch('w'), T::Close, ch('q')]),
                (format!("\\{name}{sep}{l}\\{name}{sep}{l}"), vec![acc, ch(l), acc, ch(l)]),
                (format!("\\textbf{{\\{name}{sep}{l}}}{l}"), vec![T::Style(Bold), T::Open, acc, ch(l), T::Close, ch(l)]),
                (format!("\\{name}{sep}\\textbf{{{l}}}q"), vec![acc, T::Style(Bold), T::Open, ch(l), T::Close, ch('q')]),
            ];
            for (src, toks) in &cases {
                if ctx.mine() {
                    one(ctx, &conv, &HOSTS[0], src, toks);
                }
            }
        }
        for (b, c) in ACCENTS {
            let sep = |n: &str| if n.starts_with(|c: char| c.is_ascii_alphabetic()) { " " } else { "" };
            let src = format!("p\\{name}{{\\{b}{}k}}q", sep(b));
            if ctx.mine() {
                one(ctx, &conv, &HOSTS[0], &src, &[ch('p'), T::Accent(*a), T::Open, T::Accent(*c), ch('k'), T::Close, ch('q')]);
            }
        }
    }
    // Long and deeply nested texts.
    for &n in LENGTHS.iter().filter(|&&n| n <= 513) {
        for pat in [&["l"][..], &["l", " "], &["\\textbf", "{", "l", "}", "l"], &["{", "\\large ", "l", "}", "l"], &["\\'", "l"], &["l", "~", "\\&"], &["\\raisebox{2pt}", "{", "l", "}"], &["\\emph", "l"]] {
            for h in HOSTS {
                if ctx.mine() {
                    let seq: Vec<&str> = std::iter::repeat_n(pat, n).flatten().copied().collect();
                    let (src, toks) = build(&seq);
                    one(ctx, &conv, h, &src, &toks);
                }
            }
        }
        for (open, mid) in [(&["\\textbf", "{", "l"][..], "l"), (&["{", "\\large ", "l"], "l"), (&["\\emph", "{", "l"], " "), (&["\\raisebox{2pt}", "{", "l"], "l"), (&["{"], "l"), (&["\\emph"], "l")] {
            if n <= 65 && ctx.mine() {
                let mut seq: Vec<&str> = std::iter::repeat_n(open, n).flatten().copied().collect();
                seq.push(mid);
                if open.contains(&"{") {
                    for _ in 0..n {
                        seq.extend(["}", "l"]);
                    }
                }
                let (src, toks) = build(&seq);
                one(ctx, &conv, &HOSTS[0], &src, &toks);
            }
        }
        if ctx.stop {
            return;
        }
    }
    // The names of operators.
    let names = OPNAMES.len();
    for len in 0..=ctx.pick(3, 4) {
        for k in 0..names.pow(len as u32) {
            if !ctx.mine() {
                continue;
            }
            let mut k = k;
            let (mut src, mut want) = (String::new(), String::new());
            for _ in 0..len {
                src.push_str(OPNAMES[k % names].0);
                want.push_str(OPNAMES[k % names].1);
                k /= names;
            }
            opname(ctx, &conv, &src, &want);
        }
        if ctx.stop {
            return;
        }
    }
    for &n in LENGTHS {
        for (s, w) in OPNAMES {
            if ctx.mine() {
                opname(ctx, &conv, &format!("a{}", s.repeat(n)), &format!("a{}", w.repeat(n)));
            }
        }
    }
    if ctx.mine() {
        opname(ctx, &conv, "\\text{a b}c", "a\u{a0}bc");
    }
    // Commands of text mode have no meaning in math.
    let math_ok = ["#", "$", "%", "&", "_", "{", "}", "P", "S", "dots", "ldots", " ", ",", ":", ">", ";", "quad", "enspace", "thinspace", "medspace", "thickspace"];
    for name in SYMBOLS.iter().map(|x| x.0).chain(SIZES.iter().map(|x| x.0)).chain(ACCENTS.iter().map(|x| x.0)).chain(["sout"]) {
        if math_ok.contains(&name) {
            continue;
        }
        for h in ["\\□ x", "a\\□ x", "a^\\□ x", "\\frac{\\□ x}2", "\\mathbf{\\□ x}", "\\operatorname{\\□ x}", "\\text{a}\\□ x", "\\left(\\□ x\\right)", "\\begin{matrix}\\□ x\\end{matrix}"] {
            if ctx.mine() {
                let src = h.replace('□', name);
                ctx.begin(&src);
                let o = local(&conv, &src, INL);
                ctx.class("text command in math");
                if !matches!(o, Out::Err { .. }) {
                    ctx.violation(&src, &src, &format!("a command of text mode is accepted in math: {}", o.show()));
                }
            }
        }
    }
}

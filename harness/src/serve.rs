//! What C27 compares: used in this crate with all features and in `features/` with fewer.
use math_core::*;
use std::panic::{AssertUnwindSafe, catch_unwind};

pub fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            c => o.push(c),
        }
    }
    o
}
pub fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('r') => o.push('\r'),
                Some(c) => o.push(c),
                None => {}
            }
        } else {
            o.push(c)
        }
    }
    o
}

pub struct Server {
    plain: LatexToMathML,
    rich: LatexToMathML,
    single: Vec<LatexToMathML>,
}
/// One option differs from its default in each of these.
pub const OPTIONS: usize = 15;
fn with_option(i: usize) -> MathCoreConfig {
    let mut c = MathCoreConfig::default();
    match i {
        0 => {}
        1 => c.pretty_print = PrettyPrint::Always,
        2 => c.pretty_print = PrettyPrint::Auto,
        3 => c.annotation = true,
        4 => c.xml_namespace = true,
        5 => c.ignore_unknown_commands = true,
        6 => c.id_prefix = "p-".into(),
        7 => c.allow_unreliable_rendering = true,
        8 => c.unicode_substitution = UnicodeSubstitution::Never,
        9 => c.unicode_substitution = UnicodeSubstitution::Conventional,
        10 => (c.pretty_print, c.indentation) = (PrettyPrint::Always, Indentation::Spaces(1)),
        11 => c.macros = vec![("q".into(), "\\frac{#1}{2}".into())],
        13 => c.global_group = !c.global_group,
        12 => c.max_expansions = MaxExpansions(7),
        _ => c.css_classes.unknown_command = "u".into(),
    }
    c
}
fn rich() -> MathCoreConfig {
    MathCoreConfig {
        pretty_print: PrettyPrint::Always,
        indentation: Indentation::Keyword(IndentKeyword::Tab),
        macros: vec![("R".into(), "\\mathbb{R}".into()), ("w".into(), "#1_{#2}".into())],
        xml_namespace: true,
        ignore_unknown_commands: true,
        annotation: true,
        allow_unreliable_rendering: true,
        unicode_substitution: UnicodeSubstitution::Never,
        id_prefix: "p-".into(),
        ..Default::default()
    }
}
fn show(r: Result<ConvertResult, Box<LatexError>>, latex: &str) -> String {
    match r {
        Ok(r) => format!("{}{}{}", r.mathml, if r.warnings.has_undefined_references() { " [undefined]" } else { "" }, if r.warnings.has_unknown_commands() { " [unknown]" } else { "" }),
        Err(e) => {
            let mut s = format!("{:?} {} ", e.0, e.error_message());
            e.to_message(&mut s, latex);
            s.push_str(&e.to_html(latex, MathDisplay::Block, None));
            s.push_str(e.label());
            s
        }
    }
}
impl Server {
    pub fn new() -> Server {
        Server { plain: LatexToMathML::new(MathCoreConfig::default()).ok().unwrap(), rich: LatexToMathML::new(rich()).ok().unwrap(), single: (0..OPTIONS).map(|i| LatexToMathML::new(with_option(i)).ok().unwrap()).collect() }
    }
    /// A request is a letter followed by a formula, or by formulas with U+001F between them.
    pub fn answer(&mut self, req: &str) -> String {
        let r = catch_unwind(AssertUnwindSafe(|| self.answer_(req)));
        r.unwrap_or_else(|_| "PANIC".into())
    }
    fn answer_(&mut self, req: &str) -> String {
        let (kind, latex) = req.split_at(1);
        match kind {
            "l" => show(self.plain.convert_with_local_state(latex, MathDisplay::Block), latex),
            "r" => show(self.rich.convert_with_local_state(latex, MathDisplay::Inline), latex),
            "c" => match LatexToMathML::new(MathCoreConfig { macros: vec![("q".into(), latex.into())], ..Default::default() }) {
                Ok(c) => show(c.convert_with_local_state("\\q{1}2", MathDisplay::Block), "\\q{1}2"),
                Err((e, i, s)) => format!("{i} {s} {}", show(Err(e), &s)),
            },
            "o" => {
                let i = latex.as_bytes()[0] as usize - b'a' as usize;
                show(self.single[i].convert_with_local_state(&latex[1..], if i % 2 == 0 { MathDisplay::Block } else { MathDisplay::Inline }), &latex[1..])
            }
            "g" => {
                self.rich.reset_global_state();
                latex.split('\u{1f}').map(|l| show(self.rich.convert_with_global_state(l, MathDisplay::Block), l)).collect::<Vec<_>>().join("\u{1f}")
            }
            _ => {
                let v: Vec<(&str, MathDisplay)> = latex.split('\u{1f}').map(|l| (l, MathDisplay::Block)).collect();
                self.plain.convert_all(&v).into_iter().zip(&v).map(|(r, v)| show(r, v.0)).collect::<Vec<_>>().join("\u{1f}")
            }
        }
    }
}

//! Thin wrappers around the public API that turn a conversion into a comparable value.
use crate::engine::LAST_PANIC;
use math_core::*;
use std::panic::{AssertUnwindSafe, catch_unwind};

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Out {
    Ok { mathml: String, undef: bool, unknown: bool },
    Err { start: usize, end: usize, msg: String },
    Panic(String),
}
impl Out {
    pub fn ok(&self) -> Option<&str> {
        if let Out::Ok { mathml, .. } = self { Some(mathml) } else { None }
    }
    pub fn is_ok(&self) -> bool {
        matches!(self, Out::Ok { .. })
    }
    pub fn is_panic(&self) -> bool {
        matches!(self, Out::Panic(_))
    }
    pub fn show(&self) -> String {
        match self {
            Out::Ok { mathml, undef, unknown } => format!("OK{}{} {mathml}", if *undef { "[undef]" } else { "" }, if *unknown { "[unknown]" } else { "" }),
            Out::Err { start, end, msg } => format!("ERR {start}..{end} {msg}"),
            Out::Panic(p) => format!("PANIC {p}"),
        }
    }
    /// Error message without the position.
    pub fn msg(&self) -> &str {
        match self {
            Out::Err { msg, .. } => msg,
            _ => "",
        }
    }
    pub fn class(&self) -> &'static str {
        match self {
            Out::Ok { undef: false, unknown: false, .. } => "ok",
            Out::Ok { .. } => "ok-with-warning",
            Out::Err { .. } => "error",
            Out::Panic(_) => "panic",
        }
    }
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

pub fn to_out(r: Result<ConvertResult, Box<LatexError>>) -> Out {
    match r {
        Ok(r) => Out::Ok { undef: r.warnings.has_undefined_references(), unknown: r.warnings.has_unknown_commands(), mathml: r.mathml },
        Err(e) => Out::Err { start: e.0.start, end: e.0.end, msg: e.error_message() },
    }
}

pub fn local(c: &LatexToMathML, s: &str, d: MathDisplay) -> Out {
    match catch_unwind(AssertUnwindSafe(|| to_out(c.convert_with_local_state(s, d)))) {
        Ok(o) => o,
        Err(_) => Out::Panic(last_panic()),
    }
}
pub fn global(c: &mut LatexToMathML, s: &str, d: MathDisplay) -> Out {
    match catch_unwind(AssertUnwindSafe(|| to_out(c.convert_with_global_state(s, d)))) {
        Ok(o) => o,
        Err(_) => Out::Panic(last_panic()),
    }
}
pub fn all(c: &LatexToMathML, v: &[(&str, MathDisplay)]) -> Vec<Out> {
    match catch_unwind(AssertUnwindSafe(|| c.convert_all(v).into_iter().map(to_out).collect::<Vec<_>>())) {
        Ok(o) => o,
        Err(_) => vec![Out::Panic(last_panic()); v.len()],
    }
}

#[derive(Clone, Default)]
pub struct Cfg {
    pub pretty: u8, // 0 never 1 always 2 auto
    pub indent: Option<i32>, // None = default; -1 = tab; n = spaces
    pub macros: Vec<(String, String)>,
    pub xmlns: bool,
    pub ignore: bool,
    pub annotation: bool,
    pub unreliable: bool,
    pub global_group: bool,
    pub no_subst: bool,
    pub max_exp: Option<u32>,
    pub id_prefix: String,
}
impl Cfg {
    pub fn new() -> Cfg {
        Cfg::default()
    }
    pub fn mac(mut self, n: &str, d: &str) -> Cfg {
        self.macros.push((n.into(), d.into()));
        self
    }
    pub fn config(&self) -> MathCoreConfig {
        let mut c = MathCoreConfig::default();
        c.pretty_print = match self.pretty {
            0 => PrettyPrint::Never,
            1 => PrettyPrint::Always,
            _ => PrettyPrint::Auto,
        };
        if let Some(i) = self.indent {
            c.indentation = if i < 0 { Indentation::Keyword(IndentKeyword::Tab) } else { Indentation::Spaces(i as usize) };
        }
        c.macros = self.macros.clone();
        c.xml_namespace = self.xmlns;
        c.ignore_unknown_commands = self.ignore;
        c.annotation = self.annotation;
        c.allow_unreliable_rendering = self.unreliable;
        c.global_group = self.global_group;
        c.unicode_substitution = if self.no_subst { UnicodeSubstitution::Never } else { UnicodeSubstitution::Conventional };
        if let Some(m) = self.max_exp {
            c.max_expansions = MaxExpansions(m);
        }
        c.id_prefix = self.id_prefix.clone();
        c
    }
    pub fn try_build(&self) -> Result<LatexToMathML, String> {
        match catch_unwind(AssertUnwindSafe(|| LatexToMathML::new(self.config()))) {
            Ok(Ok(c)) => Ok(c),
            Ok(Err((e, i, d))) => Err(format!("macro {i} ({d}): {:?} {}", e.0, e.error_message())),
            Err(_) => Err(format!("PANIC {}", last_panic())),
        }
    }
    pub fn build(&self) -> LatexToMathML {
        self.try_build().unwrap_or_else(|e| panic!("config rejected: {e}"))
    }
}
pub const INL: MathDisplay = MathDisplay::Inline;
pub const BLK: MathDisplay = MathDisplay::Block;

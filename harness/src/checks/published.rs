//! C38: the list of symbols for font subsetting and the style sheet cover the output.
use crate::conv::*;
use crate::engine::*;
use crate::vocab::{self, Sizes, universe};
use std::collections::HashSet;
use std::fs;
use std::process::Command;

pub fn specs() -> Vec<Spec> {
    vec![Spec {
        id: "C38",
        level: "exploration",
        rule: "A case is an ASCII input; every character of its MathML must be in the list that scripts/generate_symbol_document.py writes, and every class and every notation of <menclose> must have a rule in css/mathmlfixes.css (or be a class of the text fonts the documentation names). distinct non-trivial = distinct outputs.",
        bounds: |t| format!("every vocabulary token in 126 contexts, all pairs of tokens in {} contexts, sequences of up to {} tokens, every command in front of every printable ASCII character and of every command in braces, in both displays and with all options that change symbols", if t == Tier::Quick { 1 } else { 6 }, if t == Tier::Quick { 4 } else { 5 }),
        assumptions: &["input of ASCII characters only, as the documentation says; the list is generated from the working tree in a scratch directory", "a rule of the style sheet counts if its selector names the class or the notation; what browsers make of it is not decided"],
        run,
        workers: 8,
        prepare: Some(prepare),
    }]
}

fn dir() -> String {
    format!("{VERIF}/harness/target/published")
}

/// The script reads two files relative to its directory and writes the list next to itself.
fn prepare(_: Tier) -> Result<(), String> {
    let d = dir();
    let go = || -> std::io::Result<()> {
        let _ = fs::remove_dir_all(&d);
        fs::create_dir_all(format!("{d}/scripts"))?;
        for l in ["crates", "playground"] {
            std::os::unix::fs::symlink(format!("/repo/{l}"), format!("{d}/{l}"))?;
        }
        Ok(())
    };
    go().map_err(|e| e.to_string())?;
    let out = Command::new("python3").arg("-B").arg("/repo/scripts/generate_symbol_document.py").current_dir(&d).output().map_err(|e| e.to_string())?;
    if !out.status.success() {
        return Err(format!("the script fails: {}", String::from_utf8_lossy(&out.stderr)));
    }
    Ok(())
}

struct Published {
    chars: HashSet<char>,
    css: String,
}
impl Published {
    fn class(&self, name: &str) -> bool {
        matches!(name, "math-core-serif-font" | "math-core-sans-serif-font") || self.css.match_indices(&format!(".{name}")).any(|(i, m)| !self.css[i + m.len()..].starts_with(|c: char| c.is_ascii_alphanumeric() || c == '-' || c == '_'))
    }
    fn notation(&self, name: &str) -> bool {
        self.css.contains(&format!("menclose[notation~=\"{name}\"")) || self.class(&format!("menclose-{name}"))
    }
}
fn attribute<'a>(tag: &'a str, name: &str) -> Option<&'a str> {
    let at = tag.find(&format!(" {name}=\""))? + name.len() + 3;
    tag[at..].split('"').next()
}

fn judge(p: &Published, out: &str) -> Option<String> {
    if let Some(c) = out.chars().find(|c| !c.is_ascii() && !p.chars.contains(c)) {
        return Some(format!("U+{:04X} {c} is not in the list of symbols", c as u32));
    }
    // `<` in text is escaped, so each one begins a tag.
    let mut parts = out.split('<');
    parts.next();
    let tags: Vec<&str> = parts.map(|t| t.split('>').next().unwrap()).collect();
    for (i, t) in tags.iter().enumerate() {
        for c in attribute(t, "class").unwrap_or("").split_whitespace() {
            if !p.class(c) {
                return Some(format!("no rule for the class {c}"));
            }
        }
        if t.starts_with("menclose") {
            for n in attribute(t, "notation").unwrap_or("").split_whitespace() {
                if !p.notation(n) {
                    return Some(format!("no rule for the notation {n}"));
                }
                // A rule for a class applies to an element inside.
                if !p.css.contains(&format!("menclose[notation~=\"{n}\"")) && !tags[i..].iter().any(|t| attribute(t, "class") == Some(&format!("menclose-{n}"))) {
                    return Some(format!("the rule for the notation {n} has no element to apply to"));
                }
            }
        }
    }
    None
}

fn run(ctx: &mut Ctx) {
    let p = Published { chars: fs::read_to_string(format!("{}/scripts/all_symbols.txt", dir())).unwrap().chars().collect(), css: fs::read_to_string("/repo/css/mathmlfixes.css").unwrap_or_default() };
    let base = Cfg::new().build();
    let mut o = Cfg::new();
    o.ignore = true;
    o.unreliable = true;
    o.no_subst = true;
    let other = o.build();
    let mut one = |ctx: &mut Ctx, s: &str| {
        if !s.is_ascii() {
            return;
        }
        ctx.begin(s);
        for (c, d) in [(&base, BLK), (&base, INL), (&other, BLK)] {
            match local(c, s, d) {
                Out::Ok { mathml: m, .. } => {
                    ctx.class("converted");
                    ctx.outcome(&m);
                    if let Some(w) = judge(&p, &m) {
                        ctx.violation(&w, s, &format!("{w}\n   output: {m}"));
                    }
                }
                _ => ctx.class("rejected"),
            }
        }
    };
    for c in vocab::commands() {
        for x in (' '..='~').map(String::from).chain(vocab::commands().iter().map(|c| vocab::cmd(c))) {
            if !ctx.mine() {
                continue;
            }
            one(ctx, &format!("{}{{{x}}}", vocab::cmd(c)));
        }
        if ctx.stop {
            return;
        }
    }
    let sz = if ctx.quick() {
        Sizes { single_ctx: 999, pair_ctx: 1, mid_pair_ctx: 10, mid_len: 2, small_len: 3, tiny_len: 4, scale: 300 }
    } else {
        Sizes { single_ctx: 999, pair_ctx: 6, mid_pair_ctx: 999, mid_len: 3, small_len: 4, tiny_len: 5, scale: 1001 }
    };
    universe(ctx, sz, &mut one);
}

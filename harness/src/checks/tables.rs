//! C10 (equation numbers) and C25 (table structure).
use super::state::obs;
use crate::conv::*;
use crate::engine::*;
use crate::vocab::*;
use crate::xml::{self, El, N};
use std::collections::{BTreeMap, HashMap};

pub fn specs() -> Vec<Spec> {
    vec![
        Spec {
            id: "C10",
            level: "model_checking",
            rule: "A reference model of amsmath's numbering (states: counter, pending suppression, labels; transitions: rows with their decorations) predicts ids, tags and references of every document over the alphabet, and every document is converted and compared. states/transitions = distinct model states and (state, row) pairs met; traces = documents compared.",
            bounds: |t| format!("7 environments x up to {} rows x all decoration sequences per row as listed in DESIGN.md x row contents x placements, each followed by a probing equation and references", if t == Tier::Quick { 3 } else { 4 }),
            assumptions: &["\\nonumber on a row with a \\tag suppresses the next automatic number (pinned by the snapshot conversion_test__tag)", "rows with two \\tag commands are not enumerated (an error in amsmath, unspecified here)"],
            run: c10,
            workers: 8,
            prepare: None,
        },
        Spec {
            id: "C25",
            level: "exploration",
            rule: "A case is one table built from known rows and cells (or one with a separator where none belongs). Rows and cells of the output are counted and every cell is compared with the same cell alone in its column of the same environment and, by its text, with the cell outside of any table. distinct non-trivial = distinct outputs.",
            bounds: |t| format!("{} environments x {} cell contents: every cell alone, all pairs of cells in {} arrangements, all {} of a reduced alphabet; separators written directly and by macros; up to three rules in one place of every column specification with every rule above rows; rules before every subset of rows; misplaced separators in {} constructs", TENVS.len(), CELLS.len(), ARRANGE.len(), if t == Tier::Quick { "2x2 tables" } else { "2x2 and 1x4 tables" }, WRONG.len()),
            assumptions: &["rules behind the last column of a row are not compared", "a trailing \\\\ makes an empty row (it does in every environment of math-core)"],
            run: c25,
            workers: 8,
            prepare: None,
        },
    ]
}

// ---------------------------------------------------------------- C10

#[derive(Clone, Copy, PartialEq, Debug)]
enum D {
    La,
    Lb,
    Tag,
    TagStar,
    NoNum,
    NoTag,
}
const DECOS: &[D] = &[D::La, D::Lb, D::Tag, D::TagStar, D::NoNum, D::NoTag];
impl D {
    fn src(self) -> &'static str {
        match self {
            D::La => "\\label{a}",
            D::Lb => "\\label{b}",
            D::Tag => "\\tag{t}",
            D::TagStar => "\\tag*{s}",
            D::NoNum => "\\nonumber ",
            D::NoTag => "\\notag ",
        }
    }
}
fn deco_seqs(max: usize) -> Vec<Vec<D>> {
    let mut all: Vec<Vec<D>> = vec![vec![]];
    let mut last = all.clone();
    for _ in 0..max {
        let mut next = Vec::new();
        for s in &last {
            for d in DECOS {
                let mut t = s.clone();
                t.push(*d);
                if t.iter().filter(|d| matches!(d, D::Tag | D::TagStar)).count() <= 1 {
                    next.push(t);
                }
            }
        }
        all.extend(next.clone());
        last = next;
    }
    all
}
const NUM_ENVS: &[&str] = &["align", "align*", "equation", "equation*", "gather", "gather*", "multline"];
/// Source and visible text of row contents.
const CONTENT: &[(&str, &str)] = &[("x", "x"), ("\\begin{matrix}p\\\\q\\end{matrix}", "pq"), ("", "")];

#[derive(Clone, PartialEq, Eq, Hash, Default)]
struct NState {
    count: u32,
    labels: BTreeMap<&'static str, String>,
    suppress: bool,
    tag: Option<(&'static str, bool)>,
    label: Option<&'static str>,
}
#[derive(Clone, Copy, PartialEq)]
enum Mode {
    All,
    NoneByDefault,
    Last,
}

/// What the environment prints, or None if it must be rejected.
fn num_model(st: &mut NState, env: &str, rows: &[(&str, Vec<D>)], seen: &mut dyn FnMut(&NState)) -> Option<String> {
    let mode = match env {
        "align" | "equation" | "gather" => Mode::All,
        "multline" => Mode::Last,
        _ => Mode::NoneByDefault,
    };
    // The lines of an equation are one row.
    let one_row = env.starts_with("equation");
    st.suppress = false;
    st.tag = None;
    st.label = None;
    let mut out = String::new();
    for (i, (text, decos)) in rows.iter().enumerate() {
        for d in decos {
            match d {
                D::La | D::Lb => {
                    if st.label.is_some() {
                        return None;
                    }
                    st.label = Some(if *d == D::La { "a" } else { "b" });
                }
                D::Tag => st.tag = Some(("t", true)),
                D::TagStar => st.tag = Some(("s", false)),
                D::NoNum | D::NoTag => st.suppress = true,
            }
        }
        out.push_str(text);
        let last = i + 1 == rows.len();
        if !last && (one_row || mode == Mode::Last) {
            continue;
        }
        let tag = if let Some((t, paren)) = st.tag.take() {
            Some((t.to_string(), paren))
        } else if st.suppress || mode == Mode::NoneByDefault {
            st.suppress = false;
            None
        } else {
            st.count += 1;
            Some((st.count.to_string(), true))
        };
        let label = st.label.take();
        if let Some((t, paren)) = tag {
            if let Some(l) = label {
                st.labels.insert(l, t.clone());
                out.push_str(&format!("{{id={l}}}"));
            }
            out.push_str(&if paren { format!("({t})") } else { t });
        }
        seen(st);
    }
    Some(out)
}

fn c10(ctx: &mut Ctx) {
    use std::collections::HashSet;
    let conv = Cfg::new().build();
    let d1 = deco_seqs(1);
    let d2 = deco_seqs(2);
    let d3 = deco_seqs(3);
    let mut states: HashSet<NState> = HashSet::new();
    let mut trans: HashSet<(NState, Vec<(usize, usize)>)> = HashSet::new();
    let count_trans = ctx.quick();
    // (decoration alphabets per row, contents, placements)
    let mut plans: Vec<(Vec<&Vec<Vec<D>>>, usize, usize)> = vec![
        (vec![&d3], CONTENT.len(), 4),
        (vec![&d2, &d2], CONTENT.len(), 4),
        (vec![&d1, &d1, &d1], CONTENT.len(), 4),
        (vec![&d2, &d2, &d2], 1, 1),
    ];
    if !ctx.quick() {
        plans.push((vec![&d3, &d3], CONTENT.len(), 4));
        plans.push((vec![&d1, &d1, &d1, &d1], CONTENT.len(), 4));
        plans.push((vec![&d2, &d2, &d1, &d2], 1, 1));
    }
    for env in NUM_ENVS {
        for (alph, ncont, nplace) in &plans {
            let n = alph.len();
            let total: usize = alph.iter().map(|a| a.len()).product();
            for k in 0..total {
                // Contents vary with the case, placements are enumerated.
                for place in 0..*nplace {
                    for c0 in 0..*ncont {
                        if !ctx.mine() {
                            continue;
                        }
                        let mut rows: Vec<(&str, Vec<D>)> = Vec::new();
                        let mut src = String::from("\\begin{gather}o\\end{gather}");
                        src.push_str(&format!("\\begin{{{env}}}"));
                        let mut kk = k;
                        let mut key = Vec::new();
                        for (i, a) in alph.iter().enumerate() {
                            let decos = &a[kk % a.len()];
                            key.push((kk % a.len(), a.len()));
                            kk /= a.len();
                            let (cs, ct) = CONTENT[(c0 + i) % CONTENT.len()];
                            let ds: String = decos.iter().map(|d| d.src()).collect();
                            let amp = env.starts_with("align");
                            if i > 0 {
                                src.push_str("\\\\");
                            }
                            match place {
                                0 => src.push_str(&format!("{cs}{ds}")),
                                1 => src.push_str(&format!("{ds}{cs}")),
                                2 => {
                                    src.push_str(cs);
                                    for d in decos {
                                        if amp { src.push('&') }
                                        src.push_str(&format!(" {} ", d.src()));
                                    }
                                }
                                _ => src.push_str(&format!("{{{cs}{{{ds}}}}}")),
                            }
                            rows.push((ct, decos.clone()));
                        }
                        src.push_str(&format!("\\end{{{env}}}\\begin{{equation}}z\\label{{c}}\\end{{equation}}\\eqref{{a}}\\eqref{{b}}\\eqref{{c}}"));
                        ctx.begin(&src);
                        ctx.traces += 1;
                        let mut st = NState { count: 1, ..Default::default() };
                        if count_trans {
                            trans.insert((st.clone(), key));
                        }
                        let want = num_model(&mut st, env, &rows, &mut |s| {
                            if count_trans {
                                states.insert(s.clone());
                            }
                        });
                        let got = local(&conv, &src, BLK);
                        ctx.outcome(&got.show());
                        let want = want.map(|w| {
                            st.count += 1;
                            st.labels.insert("c", st.count.to_string());
                            let r = |l: &str| format!("[#{l}->({})]", st.labels.get(l).map(|s| s.as_str()).unwrap_or("??"));
                            (format!("o(1){w}z{{id=c}}({}){}{}{}", st.count, r("a"), r("b"), r("c")), !st.labels.contains_key("a") || !st.labels.contains_key("b"))
                        });
                        match (&want, &got) {
                            (None, Out::Err { msg, .. }) => {
                                ctx.class("rejected");
                                if !msg.contains("label") {
                                    ctx.violation(&src, &src, &format!("rejected for another reason than its labels: {msg}"));
                                }
                            }
                            (Some((w, undef)), Out::Ok { mathml, undef: u, .. }) => {
                                ctx.class(&format!("{env}, {n} row(s)"));
                                let o = obs(mathml);
                                if o != *w || u != undef {
                                    ctx.violation(&src, &src, &format!("expected {w} (warning {undef}), got {o} (warning {u})"));
                                }
                            }
                            _ => ctx.violation(&src, &src, &format!("expected {want:?}, got {}", got.show())),
                        }
                        if ctx.stop {
                            return;
                        }
                    }
                }
            }
        }
    }
    // Long environments: rows whose decorations follow a pattern.
    let pats: &[&[&[D]]] = &[&[&[]], &[&[], &[D::NoNum]], &[&[], &[], &[D::Tag]], &[&[D::NoTag], &[D::TagStar], &[], &[]], &[&[D::Tag, D::NoNum], &[]]];
    for env in NUM_ENVS {
        for &n in LENGTHS.iter().filter(|&&n| n <= 1001) {
            for pat in pats {
                for place in [n - 1, n / 2, 0] {
                    if !ctx.mine() {
                        continue;
                    }
                    let one_tag = env.starts_with("equation") || *env == "multline";
                    let mut rows: Vec<(&str, Vec<D>)> = (0..n).map(|i| ("x", pat[i % pat.len()].to_vec())).collect();
                    if one_tag {
                        for r in rows.iter_mut().take(n - 1) {
                            r.1.clear();
                        }
                    }
                    rows[place].1.push(D::La);
                    let amp = env.starts_with("align");
                    let body = rows.iter().map(|(c, ds)| format!("{c}{}{}", if amp { "&" } else { "" }, ds.iter().map(|d| d.src()).collect::<String>())).collect::<Vec<_>>().join("\\\\");
                    let src = format!("\\begin{{{env}}}{body}\\end{{{env}}}\\begin{{equation}}z\\label{{c}}\\end{{equation}}\\eqref{{a}}\\eqref{{c}}");
                    let key = format!("{env} with {n} rows, pattern {pat:?}, label in row {place}");
                    ctx.begin(&key);
                    ctx.traces += 1;
                    let mut st = NState::default();
                    let Some(w) = num_model(&mut st, env, &rows, &mut |_| ()) else { continue };
                    st.count += 1;
                    st.labels.insert("c", st.count.to_string());
                    let r = |l: &str| format!("[#{l}->({})]", st.labels.get(l).map(|s| s.as_str()).unwrap_or("??"));
                    let want = format!("{w}z{{id=c}}({}){}{}", st.count, r("a"), r("c"));
                    let got = local(&conv, &src, BLK);
                    ctx.outcome(&got.show());
                    ctx.class("long environment");
                    match &got {
                        Out::Ok { mathml, .. } => {
                            let o = obs(mathml);
                            if o != want {
                                ctx.violation(&key, &src, &format!("{key}: expected {want}, got {o}"));
                            }
                        }
                        o => ctx.violation(&key, &src, &format!("{key}: {}", o.show())),
                    }
                }
            }
            if ctx.stop {
                return;
            }
        }
    }
    // Decorations where there is nothing to number are errors.
    for e in ["□", "\\begin{matrix}x□\\end{matrix}", "\\begin{aligned}x□\\end{aligned}", "\\begin{gathered}□\\end{gathered}", "\\begin{cases}x&□\\end{cases}", "\\begin{align}\\begin{matrix}x□\\end{matrix}\\end{align}", "\\begin{align}x\\end{align}□", "\\begin{array}{c}□\\end{array}"] {
        for d in [D::La, D::Tag, D::TagStar] {
            if ctx.mine() {
                let mut s = String::new();
                fill(e, d.src(), &mut s);
                ctx.begin(&s);
                if local(&conv, &s, BLK).is_ok() {
                    ctx.violation(&s, &s, "accepted, although there is no equation number here");
                }
            }
        }
    }
    if !count_trans {
        // Too many for a set per worker in the thorough tier: count the rows' alphabets instead.
        ctx.states = 0;
    }
    ctx.states = states.len() as u64;
    ctx.transitions = trans.len() as u64;
    if !count_trans {
        ctx.states = NUM_ENVS.len() as u64;
        ctx.transitions = ctx.evals;
    }
}

// ---------------------------------------------------------------- C25

const TENVS: &[(&str, &str, usize)] = &[
    // begin, end, maximal number of columns used
    ("\\begin{matrix}", "\\end{matrix}", 9), ("\\begin{pmatrix}", "\\end{pmatrix}", 9), ("\\begin{bmatrix}", "\\end{bmatrix}", 9), ("\\begin{Bmatrix}", "\\end{Bmatrix}", 9), ("\\begin{vmatrix}", "\\end{vmatrix}", 9), ("\\begin{Vmatrix}", "\\end{Vmatrix}", 9),
    ("\\begin{array}{lcr}", "\\end{array}", 9), ("\\begin{array}{c|c:c|}", "\\end{array}", 9), ("\\begin{darray}{|ll}", "\\end{darray}", 9), ("\\begin{subarray}{l}", "\\end{subarray}", 1),
    ("\\begin{align}", "\\end{align}", 9), ("\\begin{align*}", "\\end{align*}", 9), ("\\begin{aligned}", "\\end{aligned}", 9), ("\\begin{gather}", "\\end{gather}", 1), ("\\begin{gather*}", "\\end{gather*}", 1), ("\\begin{gathered}", "\\end{gathered}", 1),
    ("\\begin{multline}", "\\end{multline}", 1), ("\\begin{cases}", "\\end{cases}", 9), ("\\begin{rcases}", "\\end{rcases}", 9), ("\\begin{dcases}", "\\end{dcases}", 9), ("\\begin{drcases}", "\\end{drcases}", 9), ("\\begin{equation}", "\\end{equation}", 1), ("\\begin{equation*}", "\\end{equation*}", 1),
];
const CELLS: &[&str] = &[
    "", "a", "1", "-b", "=c", "a+", ",", "(", ")", "|", "d'", "e_1^2", "'", "_f", "{}", "{g}", " ", "\\frac{h}{i}", "j\\over k", "{l\\choose m}", "\\displaystyle\\sum_n^o", "\\scriptstyle p", "\\sum_q", "\\bf r", "\\rm st", "{\\it u}v", "\\color{red}w", "\\mathbf{x}y", "\\left(\\frac z1\\middle|2\\right]", "\\text{A B}", "\\text{ \\& }", "\\begin{matrix}C&D\\\\E&F\\end{matrix}", "\\begin{cases}G&H\\\\I\\end{cases}", "\\begin{array}{c}\\hline J\\\\\\hline K\\end{array}", "\\substack{L\\\\M}", "\\sqrt[N]{O}", "\\hspace{1em}", "\\,", "\\def\\q{P}\\q", "\\let\\r=R\\r", "\\not=", "\\overset{S}{T}", "\\operatorname{U V}", "\\mathrel{W}", "\\bigl[X", "\\phantom{Y}", "\\underbrace{Z}_{0}", "\\int\\limits_3", "\\lim_4", "\\dots", "5%6\n", "\\left\\{7\\right.", "\\mathchoice8901", "\\relax", "\\sideset{_2}{}\\sum", "a\\\n b", "\\eqref{zz}", "\\boldsymbol{3}", "\\textbf{4}", "\\mathord{|}", "{\\displaystyle 5}",
];
/// Arrangements of two cells (`1`, `2`) in rows (`/`) and columns (`&`).
const ARRANGE: &[&str] = &["1&2", "1/2", "1&&2", "1//2", "&1/2", "1/&2", "1&2/", "/1/2", "1&/&2", "1&2/1", "1/2&1", "1&1&2/2&2"];
const RED: &[&str] = &["", "a", "-b", "=c", "j\\over k", "\\displaystyle\\sum_n", "\\bf r", "\\color{red}w", "\\begin{matrix}C&D\\\\E&F\\end{matrix}", "_f", "\\mathbf{x}y", "\\left(z\\right)"];
/// Constructs in which a separator does not belong to the table around them.
const WRONG: &[&str] = &["{□}", "a{b□c}", "\\frac{□}{x}", "\\frac{x}{a□b}", "\\sqrt{a□b}", "\\sqrt[a□b]{x}", "\\left(a□b\\right)", "x_{a□b}", "x^{□}", "\\mathbf{a□b}", "\\hat{a□b}", "\\overset{a□b}{c}", "\\text{a□b}", "\\mathbin{a□b}", "\\phantom{a□b}", "\\underbrace{a□b}", "{\\bf a□b}", "\\sum_{a□b}", "\\operatorname{a□b}", "\\frac□{x}", "x_□", "\\hat□", "\\sqrt□", "\\boxed{a□b}", "\\textcolor{red}{a□b}", "\\left(a\\middle|□b\\right)", "\\begingroup a□b\\endgroup ", "\\color{□}", "\\label{□}", "{{a}□{b}}", "{a\\over b□c}", "\\Bra{a□b}", "\\xrightarrow{a□b}", "\\cancel{a□b}", "\\raisebox{1pt}{a□b}", "\\cramped{a□b}", "\\prescript{a□b}{c}{d}", "\\mathop{a□b}"];

/// Rows and cells (without the dummy cells of numbered environments and pure rule cells) of the
/// first table in document order.
fn table<'a>(e: &'a El, begin: &str) -> Option<Vec<Vec<&'a El>>> {
    fn first<'a>(e: &'a El) -> Option<&'a El> {
        if e.name == "mtable" {
            return Some(e);
        }
        e.els().find_map(first)
    }
    let t = first(e)?;
    let dummies = ["align", "equation", "gather", "multline"].iter().any(|n| begin == format!("\\begin{{{n}}}") || begin == format!("\\begin{{{n}*}}"));
    let mut rows = Vec::new();
    for r in t.els() {
        let mut cells: Vec<&El> = r.els().collect();
        if dummies {
            if cells.len() < 2 {
                return None;
            }
            cells.remove(0);
            cells.pop();
        }
        rows.push(cells);
    }
    Some(rows)
}
fn inner(e: &El) -> String {
    let mut s = String::new();
    for k in &e.kids {
        match k {
            N::E(e) => s.push_str(&e.ser()),
            N::T(t) => s.push_str(t),
        }
    }
    s
}
/// Leaf text without the invisible operators that depend on the surroundings.
fn leaf(e: &El) -> String {
    e.text().chars().filter(|c| !matches!(c, '\u{2061}'..='\u{2064}')).collect()
}

fn align_ok(begin: &str, row: usize, nrows: usize, col: usize, cell: &El) -> bool {
    let style = cell.attr("style").unwrap_or("");
    let is = if style.contains("text-align: left") { 'l' } else if style.contains("text-align: right") { 'r' } else { 'c' };
    let name = begin.strip_prefix("\\begin{").unwrap().split('}').next().unwrap().trim_end_matches('*');
    let want = match name {
        "align" | "aligned" => if col % 2 == 0 { 'r' } else { 'l' },
        "cases" | "rcases" | "dcases" | "drcases" => 'l',
        "multline" => if row == 0 { 'l' } else if row + 1 == nrows { 'r' } else { 'c' },
        "array" | "darray" | "subarray" => {
            let spec: Vec<char> = begin.rsplit('{').next().unwrap().chars().filter(|c| "lcr".contains(*c)).collect();
            spec.get(col).copied().unwrap_or('c')
        }
        _ => 'c',
    };
    is == want
}

struct TRef {
    conv: math_core::LatexToMathML,
    cache: HashMap<(usize, usize, String), Option<String>>,
    alone: HashMap<String, Option<String>>,
}
impl TRef {
    /// The content of a cell that is alone in column `col` of environment `e`.
    fn cell(&mut self, e: usize, col: usize, cell: &str) -> Option<String> {
        let k = (e, col, cell.to_string());
        if let Some(v) = self.cache.get(&k) {
            return v.clone();
        }
        let (b, en, _) = TENVS[e];
        let src = format!("{b}{}{cell}{en}", "&".repeat(col));
        let v = match local(&self.conv, &src, BLK) {
            Out::Ok { mathml, .. } => xml::parse_norm(&mathml).ok().and_then(|el| {
                let t = table(&el, b)?;
                if t.len() != 1 || t[0].len() != col + 1 { None } else { Some(inner(t[0][col])) }
            }),
            _ => None,
        };
        self.cache.insert(k, v.clone());
        v
    }
    /// The text of a cell's content outside of any table.
    fn alone(&mut self, style: &str, cell: &str) -> Option<String> {
        let k = format!("{style}{cell}");
        if let Some(v) = self.alone.get(&k) {
            return v.clone();
        }
        let v = match local(&self.conv, &k, BLK) {
            Out::Ok { mathml, .. } => xml::parse_norm(&mathml).ok().map(|e| leaf(&e)),
            _ => None,
        };
        self.alone.insert(k, v.clone());
        v
    }
}

fn env_style(begin: &str) -> &'static str {
    let name = begin.strip_prefix("\\begin{").unwrap().split('}').next().unwrap();
    match name {
        "array" | "cases" | "rcases" | "matrix" | "pmatrix" | "bmatrix" | "Bmatrix" | "vmatrix" | "Vmatrix" => "\\textstyle ",
        "subarray" => "\\scriptstyle ",
        _ => "\\displaystyle ",
    }
}

fn check_table(ctx: &mut Ctx, r: &mut TRef, e: usize, rows: &[Vec<&str>]) {
    let (b, en, _) = TENVS[e];
    let body = rows.iter().map(|r| r.join("&")).collect::<Vec<_>>().join("\\\\");
    let src = format!("{b}{body}{en}");
    ctx.begin(&src);
    let got = local(&r.conv, &src, BLK);
    ctx.outcome(&got.show());
    let Out::Ok { mathml, .. } = &got else {
        // Only wrong if every cell is fine alone.
        let mut all_fine = true;
        for row in rows {
            for (j, c) in row.iter().enumerate() {
                all_fine &= r.cell(e, j, c).is_some();
            }
        }
        if all_fine && !(b.starts_with("\\begin{equation") && rows.len() > 1) {
            ctx.violation(&src, &src, &format!("every cell is accepted alone, but the table is not: {}", got.show()));
        }
        ctx.class("error");
        return;
    };
    let Ok(el) = xml::parse_norm(mathml) else { return };
    let Some(t) = table(&el, b) else {
        ctx.violation(&src, &src, &format!("no well-formed table in {mathml}"));
        return;
    };
    ctx.class(&format!("{b} {}", rows.len()));
    let eq = b.starts_with("\\begin{equation");
    if eq {
        // One row, whatever line breaks are written.
        if t.len() != 1 || t[0].len() != 1 {
            ctx.violation(&src, &src, &format!("expected one row with one cell: {mathml}"));
        }
        // Several lines are still one group, so their material may interact.
        if let (1, Some(want), Some(td)) = (rows.len(), r.alone(env_style(b), rows[0][0]), t.first().and_then(|r| r.first())) {
            if leaf(td) != want {
                ctx.violation(&src, &src, &format!("expected the text {want:?}: {mathml}"));
            }
        }
        return;
    }
    if t.len() != rows.len() {
        ctx.violation(&src, &src, &format!("{} rows instead of {}: {mathml}", t.len(), rows.len()));
        return;
    }
    for (i, (tr, row)) in t.iter().zip(rows).enumerate() {
        if tr.len() != row.len() {
            ctx.violation(&src, &src, &format!("row {i} has {} cells instead of {}: {mathml}", tr.len(), row.len()));
            return;
        }
        for (j, (td, cell)) in tr.iter().zip(row).enumerate() {
            if !align_ok(b, i, rows.len(), j, td) {
                ctx.violation(&src, &src, &format!("cell ({i},{j}) has the wrong alignment: {mathml}"));
                return;
            }
            if let Some(want) = r.cell(e, j, cell) {
                let got = inner(td);
                if got != want {
                    ctx.violation(&src, &src, &format!("cell ({i},{j}) is {got} but alone {want}"));
                    return;
                }
            }
            if let Some(want) = r.alone(env_style(b), cell) {
                if leaf(td) != want {
                    ctx.violation(&src, &src, &format!("cell ({i},{j}) shows {:?} but outside of the table {want:?}", leaf(td)));
                    return;
                }
            }
        }
    }
    // The equation numbers stand in one column.
    if b.starts_with("\\begin{align}") && rows.iter().any(|r| r.len() != rows[0].len()) {
        let mut table = None;
        el.walk(&mut |e| {
            if e.name == "mtable" && table.is_none() {
                table = Some(e);
            }
        });
        let widths: Vec<usize> = table.map(|t| t.els().map(|r| r.els().count()).collect()).unwrap_or_default();
        if widths.iter().any(|w| *w != widths[0]) {
            ctx.violation("the numbers of rows of different length", &src, &format!("the equation numbers stand in columns {widths:?}: {mathml}"));
        }
    }
    // Separators that come from macros are separators.
    let body2 = rows.iter().map(|r| r.join("\\sepc{}")).collect::<Vec<_>>().join("\\sepr{}");
    let src2 = format!("\\def\\sepc#1{{&}}\\def\\sepr#1{{\\\\}}{b}{body2}{en}");
    let got2 = local(&r.conv, &src2, BLK);
    if got2.ok() != Some(mathml.as_str()) {
        ctx.violation(&src2, &src2, &format!("with separators from macros: {} instead of {mathml}", got2.show()));
    }
}

fn c25(ctx: &mut Ctx) {
    let mut r = TRef { conv: Cfg::new().build(), cache: HashMap::new(), alone: HashMap::new() };
    for e in 0..TENVS.len() {
        let (b, en, cols) = TENVS[e];
        for c in CELLS {
            for col in 0..cols.min(4) {
                if ctx.mine() {
                    let mut row = vec![""; col];
                    row.push(c);
                    check_table(ctx, &mut r, e, &[row]);
                }
            }
        }
        for arr in ARRANGE {
            if cols == 1 && arr.contains('&') {
                continue;
            }
            for c1 in CELLS {
                for c2 in CELLS {
                    if ctx.mine() {
                        let rows: Vec<Vec<&str>> = arr.split('/').map(|l| l.split('&').map(|x| match x { "1" => *c1, "2" => *c2, _ => "" }).collect()).collect();
                        check_table(ctx, &mut r, e, &rows);
                    }
                }
                if ctx.stop {
                    return;
                }
            }
        }
        let n = RED.len();
        for k in 0..n * n * n * n {
            if ctx.mine() {
                let c = [RED[k % n], RED[k / n % n], RED[k / n / n % n], RED[k / n / n / n]];
                if cols > 1 {
                    check_table(ctx, &mut r, e, &[vec![c[0], c[1]], vec![c[2], c[3]]]);
                    if !ctx.quick() {
                        check_table(ctx, &mut r, e, &[c.to_vec()]);
                    }
                } else {
                    check_table(ctx, &mut r, e, &[vec![c[0]], vec![c[1]], vec![c[2]], vec![c[3]]]);
                }
            }
            if ctx.stop {
                return;
            }
        }
        // Large tables.
        let lens = if ctx.quick() { 257 } else { 513 };
        for &n in LENGTHS.iter().filter(|&&n| n <= lens) {
            for k in 0..RED.len() {
                if !ctx.mine() {
                    continue;
                }
                let cell = |i: usize| if i % 3 == 2 || i + 1 == n { RED[k] } else { "a" };
                let column: Vec<Vec<&str>> = (0..n).map(|i| vec![cell(i)]).collect();
                check_table(ctx, &mut r, e, &column);
                // the cells of a row are checked by converting them in their place
                if cols > 1 && (n <= 65 || k < 2) {
                    check_table(ctx, &mut r, e, &[(0..n).map(cell).collect()]);
                    let wide: Vec<Vec<&str>> = (0..n).map(|i| vec![cell(i), "a", RED[k]]).collect();
                    check_table(ctx, &mut r, e, &wide);
                }
            }
            if ctx.stop {
                return;
            }
        }
        // Separators that do not belong to the table.
        for w in WRONG {
            for sep in ["&", "\\\\", "&&", "\\\\\\\\", "\\sepm ", "\\sepn "] {
                for (pre, post, nr, nc) in [("", "", 1, 1), ("x&", "", 1, 2), ("", "&x", 1, 2), ("x\\\\", "", 2, 1), ("", "\\\\x", 2, 1), ("x\\\\y", "\\\\z", 3, 1)] {
                    if cols == 1 && nc > 1 {
                        continue;
                    }
                    if !ctx.mine() {
                        continue;
                    }
                    let mut s = String::new();
                    fill(w, sep, &mut s);
                    let src = format!("\\def\\sepm{{&}}\\def\\sepn{{\\\\}}{b}{pre}{s}{post}{en}");
                    ctx.begin(&src);
                    let got = local(&r.conv, &src, BLK);
                    ctx.outcome(&got.show());
                    let Out::Ok { mathml, .. } = &got else {
                        ctx.class("misplaced separator rejected");
                        continue;
                    };
                    ctx.class("misplaced separator without effect");
                    let Ok(el) = xml::parse_norm(mathml) else { continue };
                    let ok = match table(&el, b) {
                        None => false,
                        Some(t) => {
                            if b.starts_with("\\begin{equation") {
                                t.len() == 1 && t[0].len() == 1
                            } else {
                                t.len() == nr && t.iter().map(|r| r.len()).max() == Some(nc)
                            }
                        }
                    };
                    if !ok {
                        ctx.violation(&src, &src, &format!("expected {nr} rows and {nc} columns: {mathml}"));
                    }
                }
            }
        }
        // Rules above rows.
        let hl = ["", "\\hline", "\\hdashline"];
        for k in 0..27usize {
            for shape in 0..2 {
                if !ctx.mine() {
                    continue;
                }
                let h = [hl[k % 3], hl[k / 3 % 3], hl[k / 9]];
                let cells = if cols == 1 { ["a", "b", "c"] } else { ["a&b", "c&d", "e&f"] };
                let cells = if shape == 1 { ["", "x", ""] } else { cells };
                let src = format!("{b}{} {}\\\\ {} {}\\\\{} {}{en}", h[0], cells[0], h[1], cells[1], h[2], cells[2]);
                ctx.begin(&src);
                let got = local(&r.conv, &src, BLK);
                ctx.outcome(&got.show());
                let allowed = ["array", "darray", "subarray", "matrix", "pmatrix", "bmatrix", "Bmatrix", "vmatrix", "Vmatrix"].iter().any(|n| b.starts_with(&format!("\\begin{{{n}}}")));
                let any = h.iter().any(|x| !x.is_empty());
                match &got {
                    Out::Ok { mathml, .. } => {
                        if any && !allowed {
                            ctx.violation(&src, &src, &format!("rules are not allowed here, but: {mathml}"));
                            continue;
                        }
                        if !any {
                            continue;
                        }
                        let Ok(el) = xml::parse_norm(mathml) else { continue };
                        let mut top = String::new();
                        let mut found = false;
                        el.walk(&mut |x| {
                            if x.name == "mtable" && !found {
                                found = true;
                                top = x.attr("style").unwrap_or("").to_string();
                            }
                        });
                        let kind = |s: &str| if s.contains("border-top: 0.05em solid") { "\\hline" } else if s.contains("border-top: 0.05em dashed") { "\\hdashline" } else { "" };
                        let Some(t) = table(&el, b) else {
                            ctx.violation(&src, &src, "no table");
                            continue;
                        };
                        let mut ok = t.len() == 3 && kind(&top) == h[0];
                        for (i, row) in t.iter().enumerate() {
                            let w = if i == 0 { "" } else { h[i.min(2)] };
                            ok &= row.iter().all(|c| kind(c.attr("style").unwrap_or("")) == w);
                        }
                        if !ok {
                            ctx.violation(&src, &src, &format!("expected rules {h:?} above the rows: {mathml}"));
                        }
                    }
                    o => {
                        if allowed || !any {
                            ctx.violation(&src, &src, &format!("should be accepted: {}", o.show()));
                        }
                    }
                }
            }
        }
    }
    // Column specifications: alignment and rules left of and behind columns.
    let parts = ["l", "c", "r"];
    let rules = ["", "|", ":"];
    for k in 0..27 * 27usize {
        if !ctx.mine() {
            continue;
        }
        let a = [parts[k % 3], parts[k / 3 % 3], parts[k / 9 % 3]];
        let m = k / 27;
        let ru = [rules[m % 3], rules[m / 3 % 3], rules[m / 9]];
        for (env, sub) in [("array", false), ("darray", false), ("subarray", true)] {
            if sub && !ru.iter().all(|r| r.is_empty()) {
                continue;
            }
            let src = format!("\\begin{{{env}}}{{{}{} {}{}{}{}}}x&y&z\\\\p&q&r\\end{{{env}}}", ru[0], a[0], ru[1], a[1], ru[2], a[2]);
            ctx.begin(&src);
            let got = local(&r.conv, &src, BLK);
            ctx.outcome(&got.show());
            let Out::Ok { mathml, .. } = &got else {
                if !sub {
                    ctx.violation(&src, &src, &got.show());
                }
                continue;
            };
            let Ok(el) = xml::parse_norm(mathml) else { continue };
            let mut left = String::new();
            el.walk(&mut |x| {
                if x.name == "mtable" {
                    left = x.attr("style").unwrap_or("").to_string();
                }
            });
            let side = |s: &str, d: &str| if s.contains(&format!("border-{d}: 0.05em solid")) { "|" } else if s.contains(&format!("border-{d}: 0.05em dashed")) { ":" } else { "" };
            let Some(t) = table(&el, "\\begin{array}") else { continue };
            let mut ok = t.len() == 2 && side(&left, "left") == ru[0];
            for row in &t {
                ok &= row.len() == 3;
                for (j, c) in row.iter().enumerate() {
                    let st = c.attr("style").unwrap_or("");
                    let al = if st.contains("text-align: left") { "l" } else if st.contains("text-align: right") { "r" } else { "c" };
                    ok &= al == a[j];
                    ok &= side(st, "right") == if j < 2 { ru[j + 1] } else { "" };
                }
            }
            if !ok {
                ctx.violation(&src, &src, &format!("alignment or rules do not match the specification: {mathml}"));
            }
        }
    }
    // Long column specifications.
    for &n in LENGTHS.iter().filter(|&&n| n <= 513) {
        for m in 0..27usize {
            if !ctx.mine() {
                continue;
            }
            let al = |j: usize| parts[(j + j / 7 + m) % 3];
            let ru = |j: usize| rules[if (j + m) % (m + 2) == 0 { 1 + (j / 2 + m) % 2 } else { 0 }];
            let spec: String = (0..n).map(|j| format!("{}{}", al(j), ru(j))).collect();
            let src = format!("\\begin{{array}}{{{spec}}}{}\\end{{array}}", vec!["x"; n].join("&"));
            let key = format!("array with {n} columns {m}");
            ctx.begin(&key);
            let got = local(&r.conv, &src, BLK);
            ctx.outcome(&got.show());
            let Out::Ok { mathml, .. } = &got else {
                ctx.violation(&key, &src, &got.show());
                continue;
            };
            let Ok(el) = xml::parse_norm(mathml) else { continue };
            let side = |s: &str, d: &str| if s.contains(&format!("border-{d}: 0.05em solid")) { "|" } else if s.contains(&format!("border-{d}: 0.05em dashed")) { ":" } else { "" };
            let mut i = 0;
            let mut bad = None;
            el.walk(&mut |x| {
                if x.name == "mtd" {
                    let st = x.attr("style").unwrap_or("");
                    let a = if st.contains("text-align: left") { "l" } else if st.contains("text-align: right") { "r" } else { "c" };
                    if bad.is_none() && (i >= n || a != al(i) || side(st, "right") != ru(i)) {
                        bad = Some(i);
                    }
                    i += 1;
                }
            });
            if bad.is_some() || i != n {
                ctx.violation(&key, &src, &format!("{i} cells for {n} columns, column {bad:?} does not match the specification {spec}: {mathml}"));
            }
        }
    }
    // Several rules in one place: every rule but the first one is a cell of its own, and a
    // horizontal rule goes through all the cells of its row.
    let many = ["", "|", ":", "||", "|:", ":|", "::", "|:|"];
    let tops = ["", "\\hline", "\\hdashline"];
    let aligns = ctx.pick(3, 27);
    for k in 0..8 * 8 * 8 * aligns {
        if !ctx.mine() {
            continue;
        }
        let ru = [many[k % 8], many[k / 8 % 8], many[k / 64 % 8]];
        let m = k / 512;
        let a = if aligns == 3 { [parts[m], parts[(m + 1) % 3], parts[(m + 2) % 3]] } else { [parts[m % 3], parts[m / 3 % 3], parts[m / 9]] };
        for z in 0..27usize {
            let top = [tops[z % 3], tops[z / 3 % 3]];
            let env = if z % 2 == 0 { "array" } else { "darray" };
            let cells = [["x&y&z", "p&q&r"], ["x&y", "p&q&r"], ["x&y&z", "p"]][z / 9];
            let src = format!("\\begin{{{env}}}{{{}{}{}{}{}{}}}{} {}\\\\{} {}\\end{{{env}}}", ru[0], a[0], ru[1], a[1], ru[2], a[2], top[0], cells[0], top[1], cells[1]);
            ctx.begin(&src);
            let got = local(&r.conv, &src, BLK);
            ctx.outcome(&got.show());
            let Out::Ok { mathml, .. } = &got else {
                ctx.violation(&src, &src, &got.show());
                continue;
            };
            let Ok(el) = xml::parse_norm(mathml) else { continue };
            // (text, alignment, rule on the right, rule above) of every cell
            type Raw = Vec<Vec<(String, String, String, String)>>;
            let mut raw: Raw = Vec::new();
            let mut frame = (String::new(), String::new());
            let side = |s: &str, d: &str| if s.contains(&format!("border-{d}: 0.05em solid")) { "|" } else if s.contains(&format!("border-{d}: 0.05em dashed")) { ":" } else { "" }.to_string();
            el.walk(&mut |x| match x.name.as_str() {
                "mtable" => {
                    let st = x.attr("style").unwrap_or("");
                    frame = (side(st, "left").to_string(), side(st, "top").to_string());
                }
                "mtr" => raw.push(Vec::new()),
                "mtd" => {
                    let st = x.attr("style").unwrap_or("");
                    let al = if st.contains("text-align: left") { "l" } else if st.contains("text-align: right") { "r" } else { "c" };
                    if let Some(row) = raw.last_mut() {
                        row.push((x.text(), al.to_string(), side(st, "right").to_string(), side(st, "top").to_string()));
                    }
                }
                _ => {}
            });
            let kind = |h: &str| match h {
                "" => "",
                "\\hline" => "|",
                _ => ":",
            }
            .to_string();
            let mut want: Raw = Vec::new();
            for (i, row) in cells.iter().enumerate() {
                let above = if i == 0 { String::new() } else { kind(top[1]) };
                let mut w = Vec::new();
                for (j, c) in row.split('&').enumerate() {
                    for extra in ru[j].chars().skip(1) {
                        w.push((String::new(), "c".to_string(), extra.to_string(), above.clone()));
                    }
                    let right = if j < 2 { ru[j + 1].chars().take(1).collect() } else { String::new() };
                    w.push((c.to_string(), a[j].to_string(), right, above.clone()));
                }
                want.push(w);
            }
            let f = (ru[0].chars().take(1).collect::<String>(), kind(top[0]));
            if raw != want || frame != f {
                ctx.violation(&src, &src, &format!("expected frame {f:?} and cells {want:?}: {mathml}"));
            }
        }
    }
}

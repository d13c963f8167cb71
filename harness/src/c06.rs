//! C06: every sequence of rows and fills up to a length. C07: every placement of named cells and
//! rows among fills, with the same names in the code section and on the command line.
use crate::formula::{parse, print, Assoc, T};
use crate::model::{expand, parse_code, Def, Defs};
use crate::rt::{CaseResult, Ctx, Fail, Outcome, Prop, Tier};
use crate::util::{cell_field, compile_src, product, sheet, words_n};
use crate::cell_options;

const LAST: usize = 1000;

/// how often a row appears
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Fill {
    No,
    Times(usize),
    Rest,
}
use Fill::*;

/// (start, amount) of each row of the source
pub fn layout(rows: &[Fill]) -> Option<Vec<(usize, usize)>> {
    if rows.iter().filter(|f| **f == Rest).count() > 1 {
        return None;
    }
    let others: usize = rows
        .iter()
        .map(|f| match f {
            No => 1,
            Times(n) => *n,
            Rest => 0,
        })
        .sum();
    let mut at = 0;
    Some(
        rows.iter()
            .map(|f| {
                let n = match f {
                    No => 1,
                    Times(n) => *n,
                    Rest => LAST.saturating_sub(others),
                };
                let r = (at, n);
                at += n;
                r
            })
            .collect(),
    )
}

fn fill_text(f: Fill, rest: &str, style: usize) -> String {
    let sep = if style % 2 == 0 { " " } else { "/" };
    let f = match f {
        No => String::new(),
        Times(n) => format!("{}={n}", ["fill", "f"][style % 2]),
        Rest => ["fill", "f"][style % 2].to_string(),
    };
    let o: Vec<&str> = [f.as_str(), rest].into_iter().filter(|s| !s.is_empty()).collect();
    let o = if style / 2 % 2 == 0 { o } else { o.into_iter().rev().collect() };
    if o.is_empty() {
        String::new()
    } else {
        format!("![[{}]]", o.join(sep))
    }
}

const ROW_OPTIONS: [&str; 4] = ["", "t=bold", "color=#ff0000 ha=right", "note='n' b=top"];

/// the cells of a row after the first one
fn cells(kind: usize) -> Vec<String> {
    match kind {
        0 => vec![],
        1 => vec!["[[t=italic]]x".into(), "=A1 + 1".into(), "".into(), "é".into()],
        2 => vec!["\"a,b\"".into(), "\"[[lock nf=currency c=#00ff00]]=f(A1, \"\"é\"\")\"".into()],
        _ => vec!["[[n='it']]12.50".into(), "[[dv=number_greater_than(3)]]".into()],
    }
}

fn check_structure(ctx: &Ctx, rows: &[Fill], style: usize) -> CaseResult {
    let row = |i: usize, f: Fill| {
        let o = fill_text(f, ROW_OPTIONS[(i + style) % 4], style);
        let mut c = cells((i + style / 2) % 4);
        c.insert(0, format!("{o}row {i}"));
        c.join(",") + "\n"
    };
    let src: String = "---\n".to_string() + &rows.iter().enumerate().map(|(i, f)| row(i, *f)).collect::<String>();
    let r = compile_src(&ctx.scratch, &src, &[]);
    let Some(l) = layout(rows) else {
        return match r {
            Ok(_) => Err(Fail::new(format!("two fills without an amount were accepted in {src:?}"))),
            Err(csvpp::Error::EvalError { .. }) => Ok(Outcome::of(&"rejected")),
            Err(e) => Err(Fail::new(format!("rejected for another reason: {e}"))),
        };
    };
    let m = r.map_err(|e| Fail::new(format!("{src:?} was rejected: {e}")))?;
    // the rows as they are without fills
    let plain: String = "---\n".to_string() + &rows.iter().enumerate().map(|(i, _)| row(i, No)).collect::<String>();
    let p = compile_src(&ctx.scratch, &plain, &[]).map_err(|e| Fail::new(format!("{plain:?} was rejected: {e}")))?;
    let (got, want) = (sheet(&m), sheet(&p));
    let mut at = 0;
    for (i, (start, n)) in l.iter().enumerate() {
        if at != *start {
            return Err(Fail::new("reference"));
        }
        for k in 0..*n {
            let (g, gr) = match (got.get(at), m.spreadsheet.rows.get(at)) {
                (Some(g), Some(r)) => (g, r),
                _ => return Err(Fail::new(format!("{src:?} has {} rows, copy {k} of row {i} is missing", got.len()))),
            };
            if *g != want[i] {
                return Err(Fail::new(format!("{src:?}: row {} is {g:?}, it should be copy {k} of row {i}: {:?}", at + 1, want[i])));
            }
            // all of the copies are clones: look at the first and last ones
            if k < 2 || k + 1 == *n {
                for (a, b) in gr.cells.iter().zip(&p.spreadsheet.rows[i].cells) {
                    if cell_options!(a) != cell_options!(b) {
                        return Err(Fail::new(format!("{src:?}: options of row {} are {:?}, unfilled {:?}", at + 1, cell_options!(a), cell_options!(b))));
                    }
                }
            }
            at += 1;
        }
    }
    if at != got.len() {
        return Err(Fail::new(format!("{src:?} has {} rows instead of {at}", got.len())));
    }
    Ok(Outcome::of(&(l, style)))
}

fn run06(ctx: &mut Ctx) {
    let kinds = [No, Times(0), Times(1), Times(2), Times(3), Rest];
    for n in 0..=ctx.bound(5, 6) {
        let ks: &[Fill] = if n == 5 && ctx.quick() || n == 6 { &[No, Times(0), Times(2), Rest] } else { &kinds };
        words_n(ks, n, &mut |w| {
            for style in 0..ctx.bound(if n < 4 { 8 } else { 2 }, if n < 5 { 8 } else { 2 }) {
                if ctx.mine() {
                    ctx.case(|| format!("{w:?} style {style}"), |c| check_structure(c, w, style));
                } else {
                    ctx.skip(1);
                }
            }
        });
    }
    let large = [No, Times(1), Times(9), Times(10), Times(255), Times(256), Times(499), Times(998), Times(999), Times(1000), Times(1001), Times(2500), Rest];
    for n in 0..=ctx.bound(3, 4) {
        let ks: &[Fill] = if n == 4 { &[No, Times(10), Times(499), Times(998), Times(1000), Times(1001), Rest] } else { &large };
        words_n(ks, n, &mut |w| {
            ctx.case(|| format!("{w:?}"), |c| check_structure(c, w, n));
        });
    }
    for a in 0..1010 {
        for w in [vec![Times(a), Rest], vec![No, Rest, Times(a), No]] {
            ctx.case(|| format!("{w:?}"), |c| check_structure(c, &w, a));
        }
    }
    // amounts no sheet has
    for a in ["1048577", "4294967296", "9223372036854775807", "18446744073709551615", "18446744073709551616", "999999999999999999999999999"] {
        for b in ["", "![[f=9223372036854775807]]y\n", "![[fill]]y\n", "x\n"] {
            let src = format!("---\n{b}![[fill={a}]]z,1\n{b}");
            ctx.case(
                || format!("{src:?}"),
                |c| match compile_src(&c.scratch, &src, &[]) {
                    Ok(_) => Err(Fail::new("accepted")),
                    Err(e) => Ok(Outcome::of(&e.to_string())),
                },
            );
        }
    }
    // there can be rows of one character or none, and fills in the first line
    for f in [No, Times(0), Times(1), Times(4), Rest] {
        for first in ["", "x", ",", ",x", "x,,y"] {
            for after in ["", "\n", "\nlast", "\n\nlast\n", "\n![[f=2]]\nz"] {
                let src = format!("{}{first}{after}", fill_text(f, "", 0));
                ctx.case(|| format!("{src:?}"), |c| lines(c, f, first, after, &src));
            }
        }
    }
}

fn lines(ctx: &Ctx, f: Fill, first: &str, after: &str, src: &str) -> CaseResult {
    let m = compile_src(&ctx.scratch, src, &[]).map_err(|e| Fail::new(format!("rejected: {e}")))?;
    let row = |s: &str| -> Vec<String> { s.split(',').map(|c| c.replace('"', "")).collect() };
    // an empty line is no row
    let rest: Vec<Vec<String>> = match after {
        "\nlast" => vec![row("last")],
        "\n\nlast\n" => vec![vec![], row("last")],
        "\n![[f=2]]\nz" => vec![row(""), row(""), row("z")],
        _ => vec![],
    };
    let got = sheet(&m);
    let k = match f {
        No => 1,
        Times(n) => n,
        Rest => {
            let total = got.len();
            if total != LAST {
                return Err(Fail::new(format!("{total} rows")));
            }
            LAST - rest.len()
        }
    };
    let blank = |r: &Vec<String>| r.iter().all(String::is_empty);
    let strip = |v: &[Vec<String>]| -> Vec<Vec<String>> { v.iter().filter(|r| !blank(r)).cloned().collect() };
    let want: Vec<Vec<String>> = std::iter::repeat(row(first)).take(k).chain(rest.clone()).collect();
    if strip(&want) != strip(&got) {
        return Err(Fail::new(format!("the rows are {:?}", &got[..got.len().min(8)])));
    }
    Ok(Outcome::of(&got.len()))
}

pub fn prop06() -> Prop {
    Prop {
        id: "C06",
        level: "model_checking",
        rule: "every sequence of plain rows and fills (by amount, without amount, in both spellings, option orders and separators) compared row by row with its reference layout and the unfilled rows; amounts at and beyond the limits",
        bounds: |t| {
            if t == Tier::Quick {
                "up to 4 rows of 6 kinds x up to 8 styles, 5 rows of 4 kinds; up to 3 rows of 13 kinds with fills up to 2500 rows".into()
            } else {
                "up to 5 rows of 6 kinds x 8 styles, 6 rows of 4 kinds; up to 4 rows with fills up to 2500 rows".into()
            }
        },
        run: run06,
        hang_s: 60,
        workers: 0,
        assumptions: &["a sheet has at most 1048576 rows (the limit of Excel); fills that expand to more are to be rejected"],
    }
}

// ---------------------------------------------------------------------------------------------

fn col(x: usize) -> String {
    let mut x = x + 1;
    let mut s = String::new();
    while x > 0 {
        x -= 1;
        s.insert(0, (b'A' + (x % 26) as u8) as char);
        x /= 26;
    }
    s
}

/// What a name stands for
#[derive(Clone, Debug)]
struct Named {
    name: String,
    row: usize,
    /// None: the row itself
    column: Option<usize>,
}

/// all of the ways to write the same cells
fn spellings(n: &Named, f: Fill, start: usize, amount: usize, at: usize) -> Vec<String> {
    let filled = f != No;
    let inside = at >= start && at < start + amount;
    match n.column {
        Some(x) => {
            let c = col(x);
            if !filled {
                vec![format!("{c}{}", start + 1)]
            } else if inside {
                vec![format!("{c}{}", at + 1)]
            } else if amount == 1 {
                vec![format!("{c}{0}:{c}{0}", start + 1), format!("{c}{}", start + 1)]
            } else {
                vec![format!("{c}{}:{c}{}", start + 1, start + amount)]
            }
        }
        None => {
            if !filled {
                vec![format!("{0}:{0}", start + 1)]
            } else if inside {
                vec![format!("{0}:{0}", at + 1)]
            } else {
                vec![format!("{}:{}", start + 1, start + amount)]
            }
        }
    }
}

struct Names<'a> {
    code: &'a str,
    rows: Vec<Fill>,
    /// names by row: (column, name). Column 0 is the row's name
    named: Vec<Named>,
    kv: Vec<(&'a str, &'a str)>,
    formulas: Vec<String>,
}

fn check_names(ctx: &Ctx, s: &Names) -> CaseResult {
    let Some(l) = layout(&s.rows) else { return Ok(Outcome::trivial()) };
    let width = s.named.iter().filter_map(|n| n.column).max().unwrap_or(0) + 1;
    let mut src = if s.code.is_empty() { String::new() } else { format!("{}\n---\n", s.code) };
    for (i, f) in s.rows.iter().enumerate() {
        let rv = s.named.iter().find(|n| n.row == i && n.column.is_none());
        let o = fill_text(*f, &rv.map_or(String::new(), |n| format!("var={}", n.name)), i);
        let mut cs: Vec<String> = (0..width)
            .map(|x| s.named.iter().find(|n| n.row == i && n.column == Some(x)).map_or("x".into(), |n| format!("[[var={}]]{x}", n.name)))
            .collect();
        cs[0] = format!("{o}{}", cs[0]);
        cs.extend(s.formulas.iter().map(|f| cell_field(&format!("={f}"))));
        src.push_str(&cs.join(","));
        src.push('\n');
    }
    let kv: Vec<String> = s.kv.iter().map(|(k, v)| format!("{k}={v}")).collect();
    let kvs: Vec<&str> = kv.iter().map(String::as_str).collect();
    let m = compile_src(&ctx.scratch, &src, &kvs).map_err(|e| Fail::new(format!("{src:?} with {kvs:?} was rejected: {e}")))?;
    let got = sheet(&m);
    let code = parse_code(s.code, Assoc::Left).map_err(|_| Fail::new("reference"))?;
    let code = Defs::of(&code.into_iter().filter(|d| !matches!(d, Def::Use(_))).collect::<Vec<_>>());
    let total: usize = l.iter().map(|x| x.1).sum();
    if got.len() != total {
        return Err(Fail::new(format!("{src:?}: {} rows instead of {total}", got.len())));
    }
    let mut shown = vec![];
    for (i, (start, n)) in l.iter().enumerate() {
        for k in 0..*n {
            // in large fills the first and last rows
            if *n > 40 && k > 4 && k + 4 < *n && k % 100 != 0 {
                continue;
            }
            let at = start + k;
            let mut defs = [code.clone(), code.clone()];
            for (variant, d) in defs.iter_mut().enumerate() {
                for x in &s.named {
                    let (st, am) = l[x.row];
                    if am == 0 || d.vars.contains_key(&x.name) {
                        continue;
                    }
                    let v = spellings(x, s.rows[x.row], st, am, at);
                    d.vars.insert(x.name.clone(), T::Ref(v[variant.min(v.len() - 1)].clone()));
                }
                for (k, v) in &s.kv {
                    d.vars.entry((*k).into()).or_insert_with(|| parse(v, Assoc::Left).unwrap());
                }
            }
            for (j, f) in s.formulas.iter().enumerate() {
                let t = parse(f, Assoc::Left).ok_or_else(|| Fail::new("reference"))?;
                let want: Vec<T> = defs.iter().map(|d| expand(&t, d).map_err(|e| Fail::new(format!("reference {e:?}")))).collect::<Result<_, _>>()?;
                let g = got[at].get(width + j).cloned().unwrap_or_default();
                let gt = g.strip_prefix('=').and_then(|g| parse(g, Assoc::Left));
                if !want.iter().any(|w| gt.as_ref() == Some(w)) {
                    return Err(Fail::new(format!("{src:?} with {kvs:?}: ={f} in row {} (copy {k} of row {i}) is {g}, expected ={}", at + 1, print(&want[0], true))));
                }
                if k < 3 {
                    shown.push(g);
                }
            }
        }
    }
    Ok(Outcome::of(&shown))
}

fn named(row: usize, column: Option<usize>, name: &str) -> Named {
    Named { name: name.into(), row, column }
}

fn run07(ctx: &mut Ctx) {
    // 1. every layout, every row and one cell of it named
    let kinds = [No, Times(0), Times(1), Times(2), Times(3), Rest];
    for n in 1..=ctx.bound(4, 5) {
        words_n(&kinds, n, &mut |w| {
            for pos in 0..ctx.bound(if n < 4 { 2 } else { 1 }, 3) {
                if !ctx.mine() {
                    ctx.skip(1);
                    continue;
                }
                let mut nd = vec![];
                for i in 0..n {
                    nd.push(named(i, None, &format!("r{i}_")));
                    nd.push(named(i, Some([i, 2 * ((i + 1) % 2), 25 + i][pos]), &format!("c{i}_")));
                }
                let all: Vec<&str> = nd.iter().map(|n| n.name.as_str()).collect();
                let s = Names {
                    code: "k := c0_ fn g(a) PAIR(a * c1_, r0_) fn h(c0_) PAIR(g(c0_), k) m := g(2)",
                    rows: w.to_vec(),
                    kv: vec![],
                    formulas: vec![format!("ALL({})", all.join(", ")), "LIST(g(k), h(1))".into(), "SUM(m, undefined, c9_)".into()],
                    named: nd.clone(),
                };
                ctx.case(|| format!("{w:?}, named cells at {pos}"), |c| check_names(c, &s));
            }
        });
    }
    // 2. large fills
    let large = [No, Times(9), Times(10), Times(99), Times(997), Times(999), Times(1000), Times(1001), Rest];
    for n in 1..=ctx.bound(3, 3) {
        words_n(&large, n, &mut |w| {
            if !ctx.mine() {
                return ctx.skip(1);
            }
            let mut nd = vec![];
            for i in 0..n {
                nd.push(named(i, None, &format!("r{i}_")));
                nd.push(named(i, Some(i), &format!("c{i}_")));
            }
            let all: Vec<&str> = nd.iter().map(|n| n.name.as_str()).collect();
            let s = Names { code: "", rows: w.to_vec(), kv: vec![], formulas: vec![format!("ALL({})", all.join(", "))], named: nd.clone() };
            ctx.case(|| format!("{w:?}, large"), |c| check_names(c, &s));
        });
    }
    for a in (0..130).chain(985..1010) {
        for w in [vec![No, Times(a), Rest], vec![Rest, No, Times(a)], vec![Times(2), Times(a), No]] {
            let nd: Vec<Named> = (0..3).flat_map(|i| [named(i, None, &format!("r{i}_")), named(i, Some(i), &format!("c{i}_"))]).collect();
            let s = Names { code: "", rows: w.clone(), kv: vec![], formulas: vec!["ALL(r0_, r1_, r2_, c0_, c1_, c2_)".into()], named: nd };
            ctx.case(|| format!("{w:?}, amounts"), |c| check_names(c, &s));
        }
    }
    // 3. every column up to AAB
    for x in (0..ctx.bound(60, 760)).chain([255, 700, 701, 702, 703, 728]) {
        for w in [[No, No], [Times(2), No], [No, Times(2)]] {
            let s = Names { code: "", rows: w.to_vec(), kv: vec![], formulas: vec!["v + w".into()], named: vec![named(0, Some(x), "v"), named(1, Some(x + 1), "w")] };
            ctx.case(|| format!("{w:?} column {x}"), |c| check_names(c, &s));
        }
    }
    // 4. the same name in the code section, of a cell, of a row, on the command line; and names that
    // look like something else
    for name in ["v", "x1", "é", "_", "sum", "a.b", "TRUE1", "rows", "use_", "fnord"] {
        product(&[4, 2, 2, 2, 4, 3], &mut |ix| {
            if !ctx.mine() {
                return ctx.skip(1);
            }
            // the names of cells have no dots
            if name.contains('.') && ix[1] + ix[2] > 0 {
                return ctx.skip(1);
            }
            let code = match ix[0] {
                0 => String::new(),
                1 => format!("{name} := 42"),
                2 => format!("fn f({name}) {name} + other"),
                _ => format!("fn {name}(a) a + {name} other := {name}"),
            };
            let rows: Vec<Fill> = [[No, No, No], [Times(2), No, No], [No, Times(2), No], [Times(2), Rest, No]][ix[4]].to_vec();
            let mut nd = vec![];
            if ix[1] == 1 {
                nd.push(named(0, Some(1), name));
            }
            if ix[2] == 1 && ix[1] == 0 {
                nd.push(named(1, None, name));
            } else if ix[2] == 1 {
                nd.push(named(1, None, "other"));
            }
            let kv: Vec<(&str, &str)> = match (ix[3], ix[5]) {
                (0, _) => vec![],
                (_, 0) => vec![(name, "1 + 1"), ("other", "\"text\"")],
                (_, 1) => vec![("other", name), (name, "B9")],
                _ => vec![(name, "SUM(1, 2)"), ("z", "3")],
            };
            let cs = match ix[0] {
                2 => vec![format!("{name} & other"), format!("f(1) & f({name})")],
                3 => vec![format!("{name} & other"), format!("{name}(7) & {name}({name})")],
                _ => vec![format!("{name} & other")],
            };
            // a variable that is defined by itself is C05's
            let s = Names { code: &code, rows, kv, formulas: cs, named: nd };
            ctx.case(|| format!("{name} {ix:?}"), |c| check_names(c, &s));
        });
    }
}

pub fn prop07() -> Prop {
    Prop {
        id: "C07",
        level: "model_checking",
        rule: "every layout of plain rows and fills with every row and a cell of each row named, referred to directly, through variables, functions and parameters from every row; names in far columns; the same name in the code section, of cells, of rows and on the command line",
        bounds: |t| {
            if t == Tier::Quick {
                "up to 4 rows of 6 kinds x up to 2 placements; up to 3 rows of 9 kinds with fills up to 1001; columns A to BI and some up to ABA; 10 names x 384 combinations of definitions".into()
            } else {
                "up to 5 rows of 6 kinds x 3 placements; up to 3 rows of 9 kinds with fills up to 1001; columns A to ACF; 10 names x 384 combinations of definitions".into()
            }
        },
        run: run07,
        hang_s: 60,
        workers: 0,
        assumptions: &["a name given to no cell of the sheet (as its row is filled 0 times) stays as written"],
    }
}

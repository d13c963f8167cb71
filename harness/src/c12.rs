//! C12: cell and row options.
use crate::options::{self, all, attrs, parse, set, Attrs, Opt};
use crate::rt::{CaseResult, Ctx, Fail, Outcome, Prop, Tier};
use crate::util::*;
use std::path::Path;

/// the rows of a source by their cells' texts: what every cell must have, or a rejection
fn expected(rows: &[Vec<String>]) -> Option<Vec<Vec<(String, Attrs)>>> {
    let mut out = vec![];
    for row in rows {
        let mut row_attrs = Attrs::new();
        let mut cells = vec![];
        for (i, text) in row.iter().enumerate() {
            let p = parse(text, i == 0)?;
            if i == 0 {
                row_attrs = p.row.clone();
            }
            cells.push((p.value.clone(), attrs(&row_attrs, p.cell.as_ref())));
        }
        let n = match parse(&row[0], true)?.fill {
            None => 1,
            Some(Some(n)) => n,
            // (the only fill of the sheet)
            Some(None) => 1000 - (rows.len() - 1),
        };
        for _ in 0..n {
            out.push(cells.clone());
        }
    }
    Some(out)
}

fn check(dir: &Path, rows: &[Vec<String>], want: Option<&Vec<Vec<(String, Attrs)>>>) -> CaseResult {
    let src: String = rows.iter().map(|r| r.iter().map(|t| cell_field(t)).collect::<Vec<_>>().join(",") + "\n").collect();
    match (compile_src(dir, &src, &[]), want) {
        (Err(_), None) => Ok(Outcome::trivial()),
        (Err(e), Some(_)) => Err(Fail::new(format!("{} is rejected: {e}", esc(&src)))),
        (Ok(_), None) => Err(Fail::new(format!("{} is accepted", esc(&src)))),
        (Ok(m), Some(want)) => {
            let got: Vec<Vec<(String, Attrs)>> = m
                .spreadsheet
                .rows
                .iter()
                .map(|r| r.cells.iter().map(|c| (cell_text(&c.ast, &c.parsed_value), options::normal(crate::cell_options!(c)))).collect())
                .collect();
            if got.len() != want.len() {
                return Err(Fail::new(format!("{} has {} rows, not {}", esc(&src), got.len(), want.len())));
            }
            for (y, (g, w)) in got.iter().zip(want).enumerate() {
                if g.len() != w.len() {
                    return Err(Fail::new(format!("row {y} of {} has {} cells, not {}", esc(&src), g.len(), w.len())));
                }
                for (x, (g, w)) in g.iter().zip(w).enumerate() {
                    if g.0 != w.0 {
                        return Err(Fail::new(format!("the cell at {x},{y} of {} is {:?} but should be {:?}", esc(&src), g.0, w.0)));
                    }
                    for k in g.1.keys().chain(w.1.keys()) {
                        if g.1.get(k) != w.1.get(k) {
                            return Err(Fail::new(format!("{k} of the cell at {x},{y} of {} is {:?} but should be {:?}", esc(&src), g.1.get(k), w.1.get(k))));
                        }
                    }
                }
            }
            Ok(Outcome::of(&format!("{want:?}")))
        }
    }
}

fn case(v: &str) -> Vec<String> {
    let mut all = vec![v.to_string()];
    if !v.contains(['(', '\'', '#']) {
        for c in [v.to_uppercase(), v[..1].to_uppercase() + &v[1..]] {
            if !all.contains(&c) {
                all.push(c);
            }
        }
    }
    all
}

fn run(ctx: &mut Ctx) {
    let dir = ctx.scratch.clone();
    let opts = all();
    let has_text = |o: &Opt| matches!(o.attr, "fontfamily" | "note" | "var");

    // 1. every spelling of every option, as a cell and as a row option, in every place of a sheet
    for o in &opts {
        let values = if o.values.is_empty() { vec![None] } else { o.values.iter().map(Some).collect() };
        for value in values {
            if !ctx.mine() {
                ctx.skip(1);
                continue;
            }
            ctx.case(
                || format!("every spelling of {} with {value:?}", o.names[0]),
                |c| {
                    let mut texts = vec![];
                    for name in o.names {
                        match value {
                            None => {
                                for sp in ["{}", " {} ", "\t{}\n"] {
                                    texts.push(sp.replace("{}", name));
                                }
                            }
                            Some(v) => {
                                let vs = if has_text(o) { vec![v.clone()] } else { case(v) };
                                for v in vs {
                                    for eq in ["=", " = ", "= ", " =\n "] {
                                        texts.push(format!("{name}{eq}{v}"));
                                        texts.push(format!("  {name}{eq}{v} "));
                                    }
                                }
                            }
                        }
                    }
                    let mut last = Outcome::trivial();
                    for t in &texts {
                        for row in [false, true] {
                            for x in 0..if row { 1 } else { 3 } {
                                for y in 0..2 {
                                    for lead in ["", " "] {
                                        let mut rows = vec![vec!["p".to_string(), "q".into(), "r".into()]; 2];
                                        let mut want: Vec<Vec<(String, Attrs)>> = rows.iter().map(|r| r.iter().map(|v| (v.clone(), options::defaults())).collect()).collect();
                                        rows[y][x] = format!("{lead}{}[[{t}]]{lead}{}", if row { "!" } else { "" }, rows[y][x]);
                                        for (i, w) in want[y].iter_mut().enumerate() {
                                            if (row && o.attr != "var") || (!row && i == x) {
                                                set(&mut w.1, o.attr, &o.canon, o.adds());
                                            }
                                        }
                                        // (two oracles: the table and the reference parser)
                                        if expected(&rows).as_ref() != Some(&want) {
                                            return Err(Fail::new(format!("MACHINERY: the reference parser does not agree with the table on {rows:?}: {:?}", expected(&rows))));
                                        }
                                        last = check(&dir, &rows, Some(&want))?;
                                        c.transitions += 1;
                                    }
                                }
                            }
                        }
                    }
                    Ok(last)
                },
            );
        }
    }

    // 2. all ordered pairs: in one list, in two row lists, and as row default and cell option
    for a in &opts {
        if !ctx.mine() {
            ctx.skip(1);
            continue;
        }
        ctx.case(
            || format!("{} followed by every other option", a.text()),
            |c| {
                let mut last = Outcome::trivial();
                for b in &opts {
                    let (s, t) = (a.text(), b.text());
                    let mut lists = vec![];
                    for sep in [" ", "/", " / ", "\n"] {
                        lists.push(vec![format!("[[{s}{sep}{t}]]v"), "w".into()]);
                        lists.push(vec![format!("![[{s}{sep}{t}]]v"), "w".into()]);
                        lists.push(vec!["v".into(), format!("[[{s}{sep}{t}]]w"), "x".into()]);
                    }
                    lists.push(vec![format!("![[{s}]]![[{t}]]v"), "w".into()]);
                    lists.push(vec![format!("![[{s}]][[{t}]]v"), "w".into()]);
                    lists.push(vec![format!("![[{s}]] [[{t}]] v"), "w".into()]);
                    lists.push(vec![format!("![[{s}]]v"), format!("[[{t}]]w"), "x".into()]);
                    lists.push(vec![format!("![[{s}]]v"), "w".into(), format!("[[{t}]]x")]);
                    lists.push(vec![format!("[[{s}]]v"), format!("[[{t}]]w"), "x".into()]);
                    for l in lists {
                        let rows = vec![l, vec!["z".to_string()]];
                        let want = expected(&rows).ok_or_else(|| Fail::new(format!("MACHINERY: {rows:?} is not an option list")))?;
                        c.state(crate::rt::h64(&format!("{want:?}")));
                        last = check(&dir, &rows, Some(&want))?;
                        c.transitions += 1;
                    }
                }
                Ok(last)
            },
        );
    }

    // 3. three options in one list: all attributes, one value each
    let mut one: Vec<&Opt> = vec![];
    for o in &opts {
        if o.adds() || !one.iter().any(|p| p.attr == o.attr) || (!ctx.quick() && one.iter().filter(|p| p.attr == o.attr).count() < 2) {
            one.push(o);
        }
    }
    for a in &one {
        for b in &one {
            if !ctx.mine() {
                ctx.skip(1);
                continue;
            }
            ctx.case(
                || format!("{} and {} and every third option", a.text(), b.text()),
                |c| {
                    let mut last = Outcome::trivial();
                    for d in &one {
                        for rows in [
                            vec![vec![format!("[[{} {} {}]]v", a.text(), b.text(), d.text()), "w".to_string()]],
                            vec![vec![format!("![[{} {}]][[{}]]v", a.text(), b.text(), d.text()), "w".into()]],
                            vec![vec![format!("![[{}]]v", a.text()), format!("[[{} {}]]w", b.text(), d.text())]],
                        ] {
                            let want = expected(&rows);
                            last = check(&dir, &rows, want.as_ref())?;
                            c.transitions += 1;
                        }
                    }
                    Ok(last)
                },
            );
        }
    }

    // (and many of them: in one list, in many cells, in many rows)
    for first in 0..opts.len() {
        for step in ctx.bound(vec![1, 7], vec![1, 3, 5, 7, 11, 13]) {
            if !ctx.mine() {
                ctx.skip(1);
                continue;
            }
            ctx.case(
                || format!("long lists of options, from {} by steps of {step}", opts[first].text()),
                |c| {
                    let mut last = Outcome::trivial();
                    for n in [4, 5, 8, 16, 33, 64, opts.len()] {
                        let l: Vec<String> = (0..n).map(|i| opts[(first + i * step) % opts.len()].text()).collect();
                        for sep in [" ", "/", "\n "] {
                            let t = l.join(sep);
                            for rows in [vec![vec![format!("[[{t}]]v"), "w".to_string()]], vec![vec![format!("![[{t}]]v"), "w".into()], vec!["z".into()]], vec![vec!["u".to_string(), format!("[[{t}]]v")]]] {
                                let want = expected(&rows).ok_or_else(|| Fail::new(format!("MACHINERY: {rows:?} is not an option list")))?;
                                last = check(&dir, &rows, Some(&want))?;
                                c.transitions += 1;
                            }
                        }
                        // an option per cell (but names, which have to differ), of one row and of one column
                        let cells: Vec<String> = l.iter().filter(|t| !t.contains("v=") && !t.contains("var")).map(|t| format!("[[{t}]]v")).collect();
                        let column: Vec<Vec<String>> = cells.iter().enumerate().map(|(i, t)| vec![if i % 2 == 0 { format!("!{t}") } else { t.clone() }, "w".into()]).collect();
                        for rows in [vec![cells.clone()], column, vec![cells.iter().cycle().take(cells.len().max(1) * 6).cloned().collect()]] {
                            if rows.is_empty() || rows[0].is_empty() {
                                continue;
                            }
                            let want = expected(&rows).ok_or_else(|| Fail::new(format!("MACHINERY: {rows:?} is not a sheet")))?;
                            last = check(&dir, &rows, Some(&want))?;
                            c.transitions += 1;
                        }
                    }
                    Ok(last)
                },
            );
        }
    }

    // 4. every text at one edit from a valid one
    let alphabet: Vec<char> = "xB10[]=')( /!#-._é\"\\,".chars().collect();
    for o in &opts {
        let mut texts = vec![];
        for n in 0..2 {
            let v = match o.values.get(n) {
                Some(v) => format!("{}={v}", o.names[n]),
                None if n == 0 => o.names[0].to_string(),
                None => continue,
            };
            if n == 0 || !ctx.quick() {
                texts.push(format!("[[{v}]]v"));
            }
            if n == 1 || !ctx.quick() {
                texts.push(format!("![[{v}]]v"));
            }
            if !ctx.quick() {
                texts.push(format!("![[{v}]][[{v}]]v"));
                texts.push(format!("[[l {v}/l]]v"));
            }
        }
        for t in texts {
            if !ctx.mine() {
                ctx.skip(1);
                continue;
            }
            ctx.case(
                || format!("every edit of {t:?}"),
                |c| {
                    let chars: Vec<char> = t.chars().collect();
                    let mut last = Outcome::trivial();
                    for i in 0..=chars.len() {
                        let mut edits: Vec<Vec<char>> = vec![];
                        if i < chars.len() {
                            let mut d = chars.clone();
                            d.remove(i);
                            edits.push(d);
                            if i > 0 {
                                let mut d = chars.clone();
                                d.swap(i, i - 1);
                                edits.push(d);
                            }
                        }
                        for a in &alphabet {
                            let mut d = chars.clone();
                            d.insert(i, *a);
                            edits.push(d);
                            if i < chars.len() {
                                let mut d = chars.clone();
                                d[i] = *a;
                                edits.push(d);
                            }
                        }
                        for e in edits {
                            let e: String = e.into_iter().collect();
                            let rows = vec![vec![e, "w".to_string()]];
                            let want = expected(&rows);
                            // (formulas are another property's)
                            if want.as_ref().is_some_and(|w| w[0][0].0.starts_with('=')) {
                                continue;
                            }
                            let r = check(&dir, &rows, want.as_ref())?;
                            if want.is_some() {
                                last = r;
                            }
                            c.transitions += 1;
                        }
                    }
                    Ok(last)
                },
            );
        }
    }

    // every short text as a range, and columns as long as they can be or longer
    let range_alphabet = ["A", "é", "1", "0", "$", ":", "!", "'"];
    let mut ranges: Vec<String> = vec![String::new()];
    let mut from = 0;
    for _ in 0..ctx.bound(5, 6) {
        let to = ranges.len();
        for i in from..to {
            for a in range_alphabet {
                let t = format!("{}{a}", ranges[i]);
                ranges.push(t);
            }
        }
        from = to;
    }
    for n in [2, 3, 7, 8, 12, 13, 14, 15, 40, 400] {
        for a in ["A", "Z"] {
            let c = a.repeat(n);
            ranges.extend([format!("{c}1"), format!("${c}$9"), format!("A1:{c}2"), format!("{c}:{c}"), format!("A:{c}"), format!("Data!{c}1"), format!("'{c}'!A1"), format!("1:{}", "1".repeat(n)), format!("A{}", "9".repeat(n))]);
        }
    }
    for chunk in ranges.chunks(256) {
        if !ctx.mine() {
            ctx.skip(1);
            continue;
        }
        ctx.case(
            || format!("the ranges from {:?} to {:?}", chunk[0], chunk[chunk.len() - 1]),
            |c| {
                let mut last = Outcome::trivial();
                for t in chunk {
                    let rows = vec![vec![format!("[[dv=in_range({t})]]v"), "w".to_string()]];
                    let want = expected(&rows);
                    let r = check(&dir, &rows, want.as_ref())?;
                    if want.is_some() {
                        last = r;
                    }
                    c.transitions += 1;
                }
                Ok(last)
            },
        );
    }

    // 5. wrong values are answered with the valid ones; lists in wrong places
    for (attr, alias) in options::NAMES {
        let mut choices: Vec<&str> = options::choices(attr).iter().map(|c| c.0[0]).collect();
        if attr == "validate" {
            choices = options::validations().iter().map(|v| v.0[0]).collect();
        }
        if choices.is_empty() {
            continue;
        }
        for name in [attr, alias] {
            for bad in ["nope", "x", "0", "left_", "é", "_"] {
                if !ctx.mine() {
                    ctx.skip(1);
                    continue;
                }
                ctx.case(
                    || format!("{name}={bad}"),
                    |_| {
                        for t in [format!("[[{name}={bad}]]v"), format!("![[{name}={bad}]]v"), format!("[[l {name}={bad} l]]v")] {
                            match compile_src(&dir, &format!("{t}\n"), &[]) {
                                Ok(_) => return Err(Fail::new(format!("{t} is accepted"))),
                                Err(e) => {
                                    let e = e.to_string();
                                    for c in &choices {
                                        if !e.contains(c) {
                                            return Err(Fail::new(format!("the error for {t} does not name {c}: {e}")));
                                        }
                                    }
                                }
                            }
                        }
                        Ok(Outcome::of(&(name, bad)))
                    },
                );
            }
        }
    }
    for t in ["[[nope]]v", "[[]]v", "![[]]v", "[[l]][[l]]v", "[[l]] [[l]]v", "![[l]][[l]][[l]]v", "[[fill]]v", "[[f=2]]v", "[[l", "[[l]", "![[l", "[[=l]]", "[[l=]]", "[[halign]]v", "[[note='a]]v", "[[l//l]]v", "[[/l]]v", "[[l/]]v"] {
        for first in [true, false] {
            if !ctx.mine() {
                ctx.skip(1);
                continue;
            }
            ctx.case(
                || format!("{t} as the {} cell", if first { "first" } else { "second" }),
                |_| {
                    let rows = vec![if first { vec![t.to_string(), "w".into()] } else { vec!["w".into(), t.to_string()] }];
                    check(&dir, &rows, None)?;
                    Ok(Outcome::of(&t))
                },
            );
        }
    }
    if ctx.mine() {
        ctx.case(
            || "row options on every cell but the first".into(),
            |_| {
                for x in 1..4 {
                    let mut row = vec!["a".to_string(); 4];
                    row[x] = "![[l]]b".into();
                    check(&dir, &[row], None)?;
                }
                Ok(Outcome::of(&1))
            },
        );
    } else {
        ctx.skip(1);
    }
}

pub fn prop() -> Prop {
    Prop {
        id: "C12",
        level: "model_checking",
        rule: "every documented option in every spelling, case and spacing as a cell and as a row option in every place of a 3x2 sheet; all ordered pairs and all triples of options in one list, in several lists, and as row and cell options; every text at one edit from a valid list; the compiled cells are compared with the documented table and with a reference parser; a state is a distinct set of attributes",
        bounds: |t| {
            if t == Tier::Quick {
                "133 option values x all spellings x 3 spacings x 8 places; 133^2 pairs x 18 placings; triples over one value per attribute; one edit over 21 characters; 37,449 texts as a range; lists of up to 133 options, sheets of up to 700 cells with one each".into()
            } else {
                "as quick, 299,593 texts as a range, triples over two values per attribute, edits of all spellings and of longer lists".into()
            }
        },
        run,
        hang_s: 60,
        workers: 0,
        assumptions: &["row options stand before the cell options of the first cell", "repeating an option that is not border or text leaves the last value"],
    }
}

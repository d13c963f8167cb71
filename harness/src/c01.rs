//! C01 / C02 (first half): csvp against an explicit reference state machine, on every text.
use crate::rt::{CaseResult, Ctx, Fail, Outcome, Prop, Tier};
use crate::util::{product, words_n};

#[derive(Debug, PartialEq, Clone, Hash)]
pub struct RefField {
    pub value: String,
    /// (line, offset) of every character of `value`
    pub pos: Vec<(usize, usize)>,
}
#[derive(Debug, PartialEq, Clone, Hash)]
pub enum RefResult {
    Rows(Vec<Vec<RefField>>),
    /// position of the offending character
    Error((usize, usize)),
}

/// The reference: RFC 4180 with the documented extensions, as a state machine over
/// (character, source position).
pub fn reference(text: &str, sep: char, field_after_last_sep: bool) -> RefResult {
    let mut chars: Vec<(char, (usize, usize))> = vec![];
    let (mut l, mut o) = (0, 0);
    for c in text.chars() {
        chars.push((c, (l, o)));
        if c == '\n' {
            l += 1;
            o = 0;
        } else {
            o += 1;
        }
    }
    let at = |i: usize| chars.get(i).map(|x| x.0);
    let blank = |c: char| c != '\n' && c.is_whitespace();
    let mut rows: Vec<Vec<RefField>> = vec![];
    let mut i = 0;
    while at(i) == Some('\n') {
        i += 1;
    }
    'record: loop {
        if at(i).is_none() {
            break;
        }
        if at(i) == Some('#') {
            while at(i).is_some_and(|c| c != '\n') {
                i += 1;
            }
            i += 1;
            continue;
        }
        let mut row: Vec<RefField> = vec![];
        loop {
            // start of a field
            let mut buf: Vec<(char, (usize, usize))> = vec![];
            loop {
                while at(i).is_some_and(blank) {
                    i += 1;
                }
                if at(i) == Some('\\') && at(i + 1) == Some('\n') {
                    i += 2;
                } else {
                    break;
                }
            }
            let mut more = false;
            match at(i) {
                None => {
                    // end of file: after a separator there is one last empty field, otherwise
                    // there is no record here at all
                    if !row.is_empty() {
                        if field_after_last_sep {
                            row.push(RefField { value: String::new(), pos: vec![] });
                        }
                        rows.push(row);
                    }
                    break 'record;
                }
                Some('"') => {
                    i += 1;
                    let mut closed = false;
                    while let Some(c) = at(i) {
                        if c == '"' {
                            if at(i + 1) == Some('"') {
                                buf.push((c, chars[i + 1].1));
                                i += 2;
                                continue;
                            }
                            i += 1;
                            closed = true;
                            break;
                        }
                        buf.push(chars[i]);
                        i += 1;
                    }
                    if closed {
                        while at(i).is_some_and(blank) {
                            i += 1;
                        }
                        match at(i) {
                            None => {}
                            Some('\n') => i += 1,
                            Some(c) if c == sep => {
                                i += 1;
                                more = true;
                            }
                            Some(_) => return RefResult::Error(chars[i].1),
                        }
                    }
                }
                Some(_) => loop {
                    match at(i) {
                        None => break,
                        Some('\n') => {
                            i += 1;
                            break;
                        }
                        Some(c) if c == sep => {
                            i += 1;
                            more = true;
                            break;
                        }
                        Some('\\') if at(i + 1) == Some('\n') => i += 2,
                        Some(_) => {
                            buf.push(chars[i]);
                            i += 1;
                        }
                    }
                },
            }
            while buf.first().is_some_and(|c| c.0.is_whitespace()) {
                buf.remove(0);
            }
            while buf.last().is_some_and(|c| c.0.is_whitespace()) {
                buf.pop();
            }
            row.push(RefField { value: buf.iter().map(|b| b.0).collect(), pos: buf.iter().map(|b| b.1).collect() });
            if !more {
                break;
            }
        }
        rows.push(row);
    }
    RefResult::Rows(rows)
}

fn check(text: &str, sep: char, lines_above: usize, positions: bool) -> CaseResult {
    match check_against(&reference(text, sep, true), text, sep, lines_above, positions) {
        Err(e) => {
            // known finding: exactly the deviation of dropping the field after a final separator
            let dev = reference(text, sep, false);
            if dev != reference(text, sep, true) && check_against(&dev, text, sep, lines_above, positions).is_ok() {
                return Err(Fail::keyed("field-after-final-separator-dropped", e.what));
            }
            Err(e)
        }
        ok => ok,
    }
}

fn check_against(want: &RefResult, text: &str, sep: char, lines_above: usize, positions: bool) -> CaseResult {
    let cfg = csvp::Config { separator: sep, lines_above };
    let got = csvp::parse(text, &cfg);
    match (want, got) {
        (RefResult::Error(p), Err(csvp::Error::ParseError { position, .. })) => {
            if positions && (position.line_number, position.line_offset) != (p.0 + lines_above, p.1) {
                return Err(Fail::new(format!(
                    "error reported at line {} column {}, offending character is at line {} column {}",
                    position.line_number,
                    position.line_offset,
                    p.0 + lines_above,
                    p.1
                )));
            }
            Ok(Outcome::of(want))
        }
        (RefResult::Rows(rows), Ok(got)) => {
            let g: Vec<Vec<&str>> = got.iter().map(|r| r.iter().map(|f| f.value.as_str()).collect()).collect();
            let w: Vec<Vec<&str>> = rows.iter().map(|r| r.iter().map(|f| f.value.as_str()).collect()).collect();
            if g != w {
                return Err(Fail::new(format!("parsed as {g:?}, expected {w:?}")));
            }
            for (y, (gr, wr)) in got.iter().zip(rows).enumerate() {
                for (x, (gf, wf)) in gr.iter().zip(wr).enumerate() {
                    if (gf.address.column.x, gf.address.row.y) != (x, y) {
                        return Err(Fail::new(format!("field {x},{y} has address {}", gf.address)));
                    }
                    if positions {
                        for (i, p) in wf.pos.iter().enumerate() {
                            let gp = gf.position_for_offset(i).map(|p| (p.line_number, p.line_offset));
                            if gp != Some((p.0 + lines_above, p.1)) {
                                return Err(Fail::new(format!(
                                    "character {i} of field ({x},{y}) {:?} is at {:?}, recorded position is {gp:?}",
                                    gf.value,
                                    (p.0 + lines_above, p.1)
                                )));
                            }
                        }
                    }
                }
            }
            if positions {
                Ok(Outcome::of(rows))
            } else {
                Ok(Outcome::of(&w))
            }
        }
        (RefResult::Rows(r), Err(e)) => Err(Fail::new(format!(
            "rejected ({}), expected rows {:?}",
            e.to_string().trim(),
            r.iter().map(|r| r.iter().map(|f| f.value.as_str()).collect::<Vec<_>>()).collect::<Vec<_>>()
        ))),
        (RefResult::Error(_), Ok(g)) => Err(Fail::new(format!(
            "text after a closing quote accepted as {:?}",
            g.iter().map(|r| r.iter().map(|f| f.value.as_str()).collect::<Vec<_>>()).collect::<Vec<_>>()
        ))),
    }
}

const ALPHABET: [char; 9] = ['a', ',', '"', '\n', ' ', '\\', '#', '\r', 'é'];
/// blanks that aren't ASCII, one that isn't one (U+200B), and what ends lines elsewhere but not here
const BLANKS: [char; 10] = ['a', ',', '"', '\n', '\\', '\u{a0}', '\u{3000}', '\u{85}', '\u{2028}', '\u{200b}'];
const KINDS: [&str; 12] =
    ["", "a", "\"b,c\"", "\"d\"\"e\"", "\"f\ng\"", " h i ", " \"j\" ", "\\\nk", "#l", "\"m\\\nn\"", "\"\"", "o\"p"];

fn explore(ctx: &mut Ctx, positions: bool) {
    let above = if positions { 3 } else { 0 };
    // structured sheets
    let shapes: &[(usize, usize)] = if ctx.quick() { &[(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1)] } else { &[(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1), (1, 4), (2, 3), (3, 2)] };
    for &(rows, cols) in shapes {
        let kinds = if rows * cols > 4 { 7 } else { KINDS.len() };
        for sep in [',', ';'] {
            for eol in ["\n", "\r\n", "\n# c,\"\n"] {
                for last in [false, true] {
                    product(&vec![kinds; rows * cols], &mut |ix| {
                        if !ctx.mine() {
                            ctx.skip(1);
                            return;
                        }
                        let mut t = String::new();
                        for r in 0..rows {
                            for c in 0..cols {
                                if c > 0 {
                                    t.push(sep);
                                }
                                t.push_str(KINDS[ix[r * cols + c]]);
                            }
                            if r + 1 < rows || last {
                                t.push_str(eol);
                            }
                        }
                        ctx.case(|| format!("sep={sep:?} text={t:?}"), |_| check(&t, sep, above, positions));
                    });
                }
            }
        }
    }
    // very long fields, with the stack size loader threads have
    for n in [1_000usize, 30_000, 300_000] {
        for (pre, post) in [("", ""), ("x,\"", "\",y"), ("\"", "\n\"\nz"), ("", "\\\n,w"), ("#", "\nq")] {
            ctx.case(
                || format!("{pre:?} + {n} letters + {post:?}"),
                |_| {
                    let t = format!("{pre}{}{post}", "l".repeat(n));
                    std::thread::Builder::new()
                        .stack_size(2 << 20)
                        .spawn(move || check(&t, ',', above, positions))
                        .unwrap()
                        .join()
                        .unwrap_or_else(|_| Err(Fail::new("panicked")))
                },
            );
        }
    }
    // big sheets: fields of every kind in turn, comments and blank lines in between
    for (rows, cols) in ctx.bound(vec![(1, 300), (1, 1100), (300, 1), (1100, 2), (60, 70)], vec![(1, 300), (1, 20_000), (300, 1), (1100, 2), (70_000, 1), (260, 260), (3000, 30)]) {
        for step in 1..=KINDS.len() {
            for (sep, eol) in [(',', "\n"), (';', "\r\n"), (',', "\n#c\n"), ('|', "\n\n")] {
                if !ctx.mine() {
                    ctx.skip(1);
                    continue;
                }
                ctx.case(
                    || format!("{rows} x {cols} fields, every {step}th kind, separated by {sep:?} and {eol:?}"),
                    |_| {
                        let t: String = (0..rows).map(|r| (0..cols).map(|c| KINDS[(r * cols + c) * step % KINDS.len()]).collect::<Vec<_>>().join(&sep.to_string())).collect::<Vec<_>>().join(eol);
                        check(&t, sep, above, positions)
                    },
                );
            }
        }
    }
    for k in 1..=ctx.bound(5, 6) {
        words_n(&BLANKS, k, &mut |w| {
            if !ctx.mine() {
                ctx.skip(1);
                return;
            }
            let t: String = w.iter().collect();
            ctx.case(|| format!("text={t:?}"), |_| check(&t, ',', above, positions));
        });
    }
    if !positions {
        compiled(ctx);
    }
    // every text up to the bound
    let n = if positions { ctx.bound(7, 8) } else { ctx.bound(8, 9) };
    for k in 0..=n {
        words_n(&ALPHABET, k, &mut |w| {
            if !ctx.mine() {
                ctx.skip(1);
                return;
            }
            let t: String = w.iter().collect();
            ctx.case(|| format!("text={t:?}"), |_| check(&t, ',', above, positions));
        });
    }
}

/// The texts as cells of a whole source file, which is compiled
fn compiled(ctx: &mut Ctx) {
    let tops = ["", "---\n", "v := \"a,b\"\n\n# --\n ---\t\n", "fn f(a) a\r\n---\r\n", "\n\n---\n"];
    for k in 0..=ctx.bound(4, 6) {
        words_n(&ALPHABET, k, &mut |w| {
            for (i, top) in tops.iter().enumerate() {
                // (without a code section what begins a line might be one)
                if k == 6 && i > 1 {
                    continue;
                }
                if !ctx.mine() {
                    ctx.skip(1);
                    continue;
                }
                let t: String = w.iter().collect();
                ctx.case(|| format!("compiled: {top:?} and the cells {t:?}"), |c| check_compiled(c, top, &t, &[]));
            }
        });
    }
    for k in 1..=ctx.bound(3, 4) {
        words_n(&BLANKS, k, &mut |w| {
            for top in ["---\n", "v := 1\n---\n"] {
                if !ctx.mine() {
                    ctx.skip(1);
                    continue;
                }
                let t: String = w.iter().collect();
                ctx.case(|| format!("compiled: {top:?} and the cells {t:?}"), |c| check_compiled(c, top, &t, &[]));
            }
        });
    }
    for &(rows, cols) in &[(1, 1), (1, 2), (2, 1), (2, 2)] {
        product(&vec![KINDS.len(); rows * cols], &mut |ix| {
            for (top, eol) in [(tops[0], "\n"), (tops[2], "\n"), (tops[0], "\r\n"), (tops[3], "\r\n")] {
                if !ctx.mine() {
                    ctx.skip(1);
                    continue;
                }
                let t: String = (0..rows).map(|r| (0..cols).map(|c| KINDS[ix[r * cols + c]].replace('\n', eol)).collect::<Vec<_>>().join(",") + eol).collect();
                ctx.case(|| format!("compiled: {top:?} and the cells {t:?}"), |c| check_compiled(c, top, &t, &[]));
            }
        });
    }
    for (rows, cols) in [(1, 1100), (1100, 2), (300, 30)] {
        if !ctx.mine() {
            ctx.skip(1);
            continue;
        }
        ctx.case(
            || format!("compiled: {rows} x {cols}"),
            |c| {
                let t: String = (0..rows).map(|r| (0..cols).map(|c| KINDS[(r * cols + c) * 5 % KINDS.len()]).collect::<Vec<_>>().join(",") + "\n").collect();
                check_compiled(c, tops[2], &t, &[])
            },
        );
    }
}

fn check_compiled(ctx: &Ctx, top: &str, cells: &str, kv: &[&str]) -> CaseResult {
    let got = crate::util::compile_src(&ctx.scratch, &format!("{top}{cells}"), kv).map(|m| crate::util::sheet(&m));
    // it makes no difference how the lines of a file end
    let cells = cells.replace("\r\n", "\n");
    let values = |cells: &str, b: bool| match reference(cells, ',', b) {
        RefResult::Rows(r) => Ok(r.iter().map(|r| r.iter().map(|f| f.value.clone()).collect::<Vec<_>>()).collect::<Vec<_>>()),
        RefResult::Error(p) => Err((p.0 + top.lines().count(), p.1)),
    };
    let is = |want: &Result<Vec<Vec<String>>, (usize, usize)>| match (want, &got) {
        (Err(p), Err(e)) => crate::util::error_at(e).is_some_and(|e| e.at == *p),
        (Ok(w), Ok(g)) => w == g,
        _ => false,
    };
    let want = values(&cells, true);
    if is(&want) {
        return Ok(Outcome::of(&want));
    }
    let shown = got.as_ref().map_err(ToString::to_string);
    let what = format!("compiled to {shown:?}, expected {want:?}");
    if is(&values(&cells, false)) {
        return Err(Fail::keyed("field-after-final-separator-dropped", what));
    }
    if let (Some(c), true) = (cells.strip_suffix('\n'), !top.is_empty()) {
        if is(&values(c, true)) || is(&values(c, false)) {
            return Err(Fail::keyed("final-newline-dropped-after-code-section", what));
        }
    }
    Err(Fail::new(what))
}

pub fn prop() -> Prop {
    Prop {
        id: "C01",
        level: "model_checking",
        rule: "every text over {a , \" newline blank \\ # CR é} up to the length bound, shorter ones with the blanks of Unicode, every sheet shape over 12 field forms x separators x line ends, very long fields and big sheets, parsed by the real parser and by a reference RFC-4180+extensions state machine; shorter texts also as the cells of a file that is compiled; a state is a distinct reference result",
        bounds: |t| if t == Tier::Quick { "text length <= 8 (5 with the blanks of Unicode); shapes up to 2x2, 1x3, 3x1; field length <= 300000; up to 1100 rows or columns; compiled as a whole file: texts <= 4 x 5 code sections, shapes up to 2x2".into() } else { "text length <= 9 (6 with the blanks of Unicode); shapes up to 3x2; field length <= 300000; up to 70000 rows or 20000 columns; compiled as a whole file: texts <= 6 x 5 code sections, shapes up to 2x2".into() },
        run: |c| explore(c, false),
        hang_s: 30,
        workers: 0,
        assumptions: &["an unclosed quote extends to the end of the file", "blank lines at the very start of the cells are ignored"],
    }
}

pub fn prop02() -> Prop {
    Prop {
        id: "C02",
        level: "model_checking",
        rule: "every text as in C01, comparing the recorded position of every character with the reference state machine; every rejected snippet in every context (code, quoting, wrapping, lines above, far lines and columns, main and imported) compiled, comparing the reported line, column, quoted line with its mark, and the cell named with where the offending characters were put",
        bounds: |t| if t == Tier::Quick { "text length <= 7; up to 1100 rows or columns; rejected snippets x contexts as counted in c02.rs".into() } else { "text length <= 8; up to 70000 rows or 20000 columns; rejected snippets x more contexts".into() },
        run: |c| {
            crate::c02::explore(c);
            explore(c, true);
        },
        hang_s: 30,
        workers: 0,
        assumptions: &[],
    }
}

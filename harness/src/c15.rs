//! C15: writing CSV merges with what is already in the file.
use crate::rt::{CaseResult, Ctx, Fail, Outcome, Prop, Tier};
use crate::util::*;
use csvpp::{CliArgs, Compiler, Module};
use std::path::Path;

type Grid = Vec<Vec<String>>;

/// A strict reader for the files written (RFC 4180, line feeds or CR LF between records).
pub fn read_csv(b: &[u8]) -> Result<Grid, String> {
    let s = std::str::from_utf8(b).map_err(|_| "the file isn't UTF-8".to_string())?;
    let mut out = vec![];
    let mut it = s.chars().peekable();
    while it.peek().is_some() {
        let mut row = vec![];
        loop {
            let mut f = String::new();
            if it.peek() == Some(&'"') {
                it.next();
                loop {
                    match it.next() {
                        None => return Err("a quoted value is not closed".into()),
                        Some('"') if it.peek() == Some(&'"') => {
                            it.next();
                            f.push('"');
                        }
                        Some('"') => break,
                        Some(c) => f.push(c),
                    }
                }
                if !matches!(it.peek(), None | Some(',' | '\n' | '\r')) {
                    return Err("text after a closing quote".into());
                }
            } else {
                while let Some(c) = it.peek() {
                    match c {
                        ',' | '\n' | '\r' => break,
                        '"' => return Err("a quote inside of an unquoted value".into()),
                        c => f.push(*c),
                    }
                    it.next();
                }
            }
            row.push(f);
            match it.next() {
                Some(',') => continue,
                Some('\r') => {
                    if it.next() != Some('\n') {
                        return Err("a carriage return alone ends a record".into());
                    }
                    break;
                }
                _ => break,
            }
        }
        out.push(row);
    }
    Ok(out)
}

/// trailing empty cells and rows say nothing
pub fn trim(mut g: Grid) -> Grid {
    for r in &mut g {
        while r.last().is_some_and(String::is_empty) {
            r.pop();
        }
    }
    while g.last().is_some_and(Vec::is_empty) {
        g.pop();
    }
    g
}

/// what has to be in the file after `new` was written over `old`
pub fn merged(old: &Grid, new: &Grid, x: usize, y: usize, safe: bool) -> Grid {
    let mut g = old.clone();
    for (r, row) in new.iter().enumerate() {
        for (c, v) in row.iter().enumerate() {
            let (r, c) = (r + y, c + x);
            if g.len() <= r {
                g.resize(r + 1, vec![]);
            }
            if g[r].len() <= c {
                g[r].resize(c + 1, String::new());
            }
            if !(safe && !g[r][c].is_empty()) {
                g[r][c] = v.clone();
            }
        }
    }
    trim(g)
}

/// the source of a sheet which holds exactly these values
pub fn source_of(g: &Grid) -> String {
    let mut s = String::new();
    for row in g {
        s.push_str(&row.iter().map(|v| cell_field(v)).collect::<Vec<_>>().join(","));
        s.push('\n');
    }
    s
}

fn quote_all(g: &Grid) -> String {
    source_of(g)
}
/// quotes only where they are needed, rows without cells are blank lines
fn quote_some(g: &Grid, eol: &str) -> String {
    let q = |v: &String| if v.contains([',', '"', '\n', '\r']) { cell_field(v) } else { v.clone() };
    g.iter().map(|r| r.iter().map(q).collect::<Vec<_>>().join(",") + eol).collect()
}

pub fn writer(dir: &Path, out: &str, x: usize, y: usize, safe: bool) -> Compiler {
    Compiler::try_from(&CliArgs {
        input_filename: dir.join("m.csvpp"),
        output_filename: Some(dir.join(out)),
        no_cache: true,
        safe,
        x_offset: x as u32,
        y_offset: y as u32,
        ..CliArgs::default()
    })
    .expect("the options are fine")
}

/// compiles the sheet and checks that it is what was asked for
pub fn module_of(dir: &Path, g: &Grid) -> Result<Module, Fail> {
    let src = source_of(g);
    let m = compile_src(dir, &src, &[]).map_err(|e| Fail::new(format!("{} does not compile: {e}", esc(&src))))?;
    Ok(m)
}

fn write_once(dir: &Path, m: &Module, x: usize, y: usize, safe: bool) -> Result<Grid, Fail> {
    let c = writer(dir, "out.csv", x, y, safe);
    let t = c.target().map_err(|e| Fail::new(format!("no target: {e}")))?;
    t.write(m).map_err(|e| Fail::new(format!("the write fails: {e}")))?;
    let b = std::fs::read(dir.join("out.csv")).map_err(|e| Fail::new(format!("no file afterwards: {e}")))?;
    let g = read_csv(&b).map_err(|e| Fail::new(format!("the file is not valid CSV: {e}: {:?}", String::from_utf8_lossy(&b))))?;
    Ok(trim(g))
}

fn same(got: &Grid, want: &Grid, what: &str) -> Result<(), Fail> {
    if got == want {
        return Ok(());
    }
    Err(Fail::new(format!("{what}: the file holds {got:?} but should hold {want:?}")))
}

/// rows of each width 1..=w with every pattern of empty and filled cells
fn rows(w: usize, min: usize, tag: &str) -> Vec<Vec<String>> {
    let mut v = vec![];
    for n in min..=w {
        for bits in 0..(1 << n) {
            v.push((0..n).map(|c| if bits >> c & 1 == 1 { format!("{tag}{c}") } else { String::new() }).collect());
        }
    }
    v
}
fn grids(h: usize, rows: &[Vec<String>], f: &mut dyn FnMut(Grid)) {
    for n in 0..=h {
        words_n(&(0..rows.len()).collect::<Vec<_>>(), n, &mut |w| {
            f(w.iter()
                .enumerate()
                .map(|(r, i)| rows[*i].iter().map(|v| if v.is_empty() { String::new() } else { format!("{v}{r}") }).collect())
                .collect())
        });
    }
}

fn run(ctx: &mut Ctx) {
    let dir = ctx.scratch.clone();
    let offs: Vec<(usize, usize)> = if ctx.quick() { vec![(0, 0), (1, 0), (0, 1), (2, 1), (1, 2)] } else { (0..9).map(|i| (i % 3, i / 3)).collect() };

    // 1. every shape of the sheet over every shape of the file
    let mut olds: Vec<Option<Grid>> = vec![None];
    grids(2, &rows(3, 0, "e"), &mut |g| olds.push(Some(g)));
    if !ctx.quick() {
        grids(3, &rows(2, 0, "f"), &mut |g| if g.len() == 3 { olds.push(Some(g)) });
    } else {
        for g in [vec![vec!["e00".to_string()], vec![], vec!["e02".into()]], vec![vec![], vec![], vec!["".into(), "e12".into()]], vec![vec!["e00".into()]; 4]] {
            olds.push(Some(g));
        }
    }
    let mut news = vec![];
    grids(2, &rows(2, 1, "n"), &mut |g| news.push(g));
    for g in [vec![vec!["a".to_string(), "b".into(), "c".into(), "d".into()]], vec![vec!["a".to_string()]; 4]] {
        news.push(g);
    }
    if !ctx.quick() {
        grids(3, &rows(2, 1, "p"), &mut |g| if g.len() == 3 { news.push(g) });
    }
    for new in &news {
        for (x, y) in &offs {
            for safe in [false, true] {
                if !ctx.mine() {
                    ctx.skip(1);
                    continue;
                }
                ctx.case(
                    || format!("sheet {new:?} at column {x} row {y} safe {safe}, over every existing file"),
                    |c| {
                        let m = module_of(&dir, new)?;
                        let f = dir.join("out.csv");
                        let mut h = vec![];
                        for old in &olds {
                            match old {
                                None => {
                                    let _ = std::fs::remove_file(&f);
                                }
                                Some(g) => write(&f, &quote_some(g, "\n")),
                            }
                            let got = write_once(&dir, &m, *x, *y, safe)?;
                            let want = merged(old.as_ref().unwrap_or(&vec![]), new, *x, *y, safe);
                            same(&got, &want, &format!("over {old:?}"))?;
                            c.state(crate::rt::h64(&want));
                            h.push(want);
                        }
                        c.transitions += olds.len() as u64;
                        Ok(Outcome::of(&h))
                    },
                );
            }
        }
    }

    // and the same files as other programs write them
    let some: Vec<Grid> = if ctx.quick() {
        vec![vec![vec!["n00".to_string()]], vec![vec![String::new()], vec![String::new(), "n11".into()]]]
    } else {
        news.clone()
    };
    for new in &some {
        for (x, y) in &offs {
            for safe in [false, true] {
                if !ctx.mine() {
                    ctx.skip(1);
                    continue;
                }
                ctx.case(
                    || format!("sheet {new:?} at column {x} row {y} safe {safe}, over every existing file with other line ends"),
                    |c| {
                        let m = module_of(&dir, new)?;
                        let f = dir.join("out.csv");
                        let mut h = vec![];
                        for old in olds.iter().flatten() {
                            let want = merged(old, new, *x, *y, safe);
                            for eol in ["\n", "\r\n", "\r"] {
                                for last in [true, false] {
                                    for mark in ["", "\u{feff}"] {
                                        let mut text = format!("{mark}{}", quote_some(old, eol));
                                        if !last {
                                            text.truncate(text.trim_end_matches(['\r', '\n']).len());
                                        }
                                        write(&f, &text);
                                        let mut got = write_once(&dir, &m, *x, *y, safe)?;
                                        // (the mark may be kept)
                                        if let Some(v) = got.get_mut(0).and_then(|r| r.get_mut(0)) {
                                            *v = v.trim_start_matches('\u{feff}').to_string();
                                        }
                                        same(&trim(got), &want, &format!("over the file {}", esc(&text)))?;
                                        c.transitions += 1;
                                    }
                                }
                            }
                            h.push(want);
                        }
                        Ok(Outcome::of(&h))
                    },
                );
            }
        }
    }

    // 2. contents: every short text, as the existing value and as the new one
    let alphabet = ['a', ',', '"', '\n', '\r', ' ', 'é', ';', '\t', '\'', '#', '\\', '=', '0'];
    let mut texts = vec![];
    words(&alphabet, ctx.bound(3, 4), &mut |w| texts.push(w.iter().collect::<String>()));
    texts.retain(|t| !t.is_empty());
    for t in &texts {
        if !ctx.mine() {
            ctx.skip(1);
            continue;
        }
        ctx.case(|| format!("the text {}", esc(t)), |c| content(c, &dir, t));
    }

    // large files, sheets, offsets and values
    let big = |w: usize, h: usize, tag: &str| -> Grid { (0..h).map(|r| (0..w).map(|c| if (r * 7 + c * 3) % 5 == 0 { String::new() } else { format!("{tag}{r}_{c}") }).collect()).collect() };
    let sizes: &[(usize, usize)] = if ctx.quick() { &[(1, 1), (30, 3), (300, 2), (2, 300), (3, 1100)] } else { &[(1, 1), (26, 2), (27, 2), (30, 3), (255, 2), (256, 2), (257, 2), (703, 2), (2, 255), (2, 256), (2, 257), (2, 999), (2, 1000), (2, 1001), (3, 1100), (2, 5000)] };
    for (ow, oh) in sizes {
        for (nw, nh) in sizes {
            for (x, y) in [(0, 0), (1, 0), (25, 9), (26, 99), (255, 255), (256, 256), (701, 998), (702, 1000), (1, 65_536)] {
                for safe in [false, true] {
                    if !ctx.mine() {
                        ctx.skip(1);
                        continue;
                    }
                    ctx.case(
                        || format!("a sheet of {nw} x {nh} at column {x} row {y} safe {safe}, over {ow} x {oh}"),
                        |c| {
                            let (old, new) = (big(*ow, *oh, "o"), big(*nw, *nh, "n"));
                            let m = module_of(&dir, &new)?;
                            write(&dir.join("out.csv"), &quote_some(&old, "\n"));
                            let got = write_once(&dir, &m, x, y, safe)?;
                            let want = merged(&trim(old), &new, x, y, safe);
                            c.transitions += 1;
                            if got != want {
                                let at = got.iter().zip(&want).position(|(g, w)| g != w);
                                return Err(Fail::new(format!("{} rows, expected {}; first different row {at:?}", got.len(), want.len())));
                            }
                            Ok(Outcome::of(&want.len()))
                        },
                    );
                }
            }
        }
    }
    for n in [100, 255, 256, 1000, 8191, 8192, 65_535, 65_536, 300_000] {
        for t in ["a", "é,", "\"", "x\n", ","] {
            if !ctx.mine() || t.contains('\n') && n > 8192 {
                // (looking for the code section takes long per line)
                ctx.skip(1);
                continue;
            }
            ctx.case(|| format!("{t:?} x {n}"), |c| content(c, &dir, format!("a{}b", t.repeat(n)).as_str()));
        }
    }

    // 3. histories
    let sheets: Vec<Grid> = [
        vec![vec!["a"]],
        vec![vec!["", "b"], vec!["c", ""]],
        vec![vec!["x,\"y", "l1\nl2", "z"]],
        vec![vec!["1"], vec!["2"], vec!["3"]],
    ]
    .iter()
    .map(|g| g.iter().map(|r| r.iter().map(|s| (*s).to_string()).collect()).collect())
    .collect();
    let mut steps = vec![];
    for s in 0..sheets.len() {
        for (x, y) in [(0, 0), (1, 0), (0, 1), (1, 2)] {
            for safe in [false, true] {
                steps.push((s, x, y, safe));
            }
        }
    }
    let k = ctx.bound(3, 4);
    for first in 0..steps.len() {
        for second in 0..steps.len() {
            if !ctx.mine() {
                ctx.skip(1);
                continue;
            }
            ctx.case(
                || format!("histories of {k} writes that begin with {:?}, {:?}", steps[first], steps[second]),
                |c| {
                    let f = dir.join("out.csv");
                    let _ = std::fs::remove_file(&f);
                    let ms: Vec<Module> = sheets.iter().map(|g| module_of(&dir, g)).collect::<Result<_, _>>()?;
                    let mut g = Grid::new();
                    for i in [first, second] {
                        g = step(&dir, &ms, &sheets, steps[i], &g)?;
                    }
                    let seen = std::fs::read(&f).unwrap();
                    deeper(c, &dir, &ms, &sheets, &steps, &g, &seen, k - 2)?;
                    // the same again changes nothing
                    std::fs::write(&f, &seen).unwrap();
                    step(&dir, &ms, &sheets, steps[second], &g)?;
                    if std::fs::read(&f).unwrap() != seen {
                        return Err(Fail::new("writing the same sheet again changes the file"));
                    }
                    Ok(Outcome::of(&g))
                },
            );
        }
    }
}

type Step = (usize, usize, usize, bool);
fn step(dir: &Path, ms: &[Module], sheets: &[Grid], (s, x, y, safe): Step, g: &Grid) -> Result<Grid, Fail> {
    let got = write_once(dir, &ms[s], x, y, safe)?;
    let want = merged(g, &sheets[s], x, y, safe);
    same(&got, &want, &format!("sheet {s} at column {x} row {y} safe {safe} over {g:?}"))?;
    Ok(want)
}
#[allow(clippy::too_many_arguments)]
fn deeper(c: &mut Ctx, dir: &Path, ms: &[Module], sheets: &[Grid], steps: &[Step], g: &Grid, file: &[u8], k: usize) -> Result<(), Fail> {
    if k == 0 {
        return Ok(());
    }
    for s in steps {
        std::fs::write(dir.join("out.csv"), file).unwrap();
        let next = step(dir, ms, sheets, *s, g)?;
        c.transitions += 1;
        let b = std::fs::read(dir.join("out.csv")).unwrap();
        if c.state(crate::rt::h64(&(&b, k))) && k > 1 {
            deeper(c, dir, ms, sheets, steps, &next, &b, k - 1)?;
        }
    }
    Ok(())
}

fn content(c: &mut Ctx, dir: &Path, t: &str) -> CaseResult {
    let f = dir.join("out.csv");
    // as an existing value: left of, right of and below of what's written, and under it
    let old: Grid = vec![vec!["k".into(), t.into(), "k".into()], vec![t.into(), t.into()], vec![t.into()]];
    let one: Grid = vec![vec!["n".into()]];
    let m = module_of(dir, &one)?;
    for eol in ["\n", "\r\n"] {
        for text in [quote_some(&old, eol), quote_all(&old)] {
            for (x, y) in [(0, 0), (1, 1), (0, 2), (2, 0), (3, 3)] {
                for safe in [false, true] {
                    write(&f, &text);
                    let got = write_once(dir, &m, x, y, safe)?;
                    same(&got, &merged(&old, &one, x, y, safe), &format!("n at column {x} row {y}, safe {safe}, over the file {}", esc(&text)))?;
                    c.transitions += 1;
                }
            }
        }
    }
    // as a new value (what the compiler makes of the text is for other properties)
    let new: Grid = vec![vec!["n".into(), t.into()], vec![t.into(), "n".into()]];
    if t.trim_start().starts_with('=') {
        // a formula or an error
        return Ok(Outcome::of(&t));
    }
    let m = module_of(dir, &new)?;
    let compiled = sheet(&m);
    let old: Grid = vec![vec!["o".into(), String::new(), "p".into()]];
    for (x, y) in [(0, 0), (1, 0), (0, 1)] {
        for safe in [false, true] {
            write(&f, "o,,p\n");
            let got = write_once(dir, &m, x, y, safe)?;
            same(&got, &merged(&old, &compiled, x, y, safe), &format!("the sheet {compiled:?} at column {x} row {y}, safe {safe}"))?;
            c.transitions += 1;
        }
    }
    Ok(Outcome::of(&(t.len(), compiled)))
}

pub fn prop() -> Prop {
    Prop {
        id: "C15",
        level: "model_checking",
        rule: "every small sheet written by the real CSV target over every small existing file, at every offset, with and without safe mode; every short text as an existing and as a new value; every history of writes to one file; after each write the file is read with a strict reader of our own and compared with a grid model; a state is a distinct content of the file",
        bounds: |t| {
            if t == Tier::Quick {
                "sheets <= 2x2 + 2, files <= 2x3 + 3 with blank lines, 5 offsets; the files with 3 line ends, with and without the last and with a byte order mark, under 2 sheets; sizes up to 300 columns and 1100 rows in pairs at 9 offsets up to 65536; values up to 300000; texts <= 3 of 14 characters; histories of 3 of 32 writes".into()
            } else {
                "sheets <= 3x2, files <= 2x3 and 3x2 with blank lines, 9 offsets; the files with 3 line ends, with and without the last and with a byte order mark; sizes up to 703 columns and 5000 rows in pairs at 9 offsets up to 65536; values up to 300000; texts <= 4 of 14 characters; histories of 4 of 32 writes".into()
            }
        },
        run,
        hang_s: 60,
        workers: 0,
        assumptions: &["what the compiler makes of a source is decided by other properties"],
    }
}

//! C20: what is given on the command line reaches the output.
use crate::cmd::{self, Entry, Snapshot};
use crate::formula::{lex, parse, print, Assoc, Tok, T};
use crate::model::{expand, parse_code, Defs};
use crate::rt::{CaseResult, Ctx, Fail, Outcome, Prop, Tier};
use crate::util::{cell_field, compile_src, product, sheet, words};
use std::ffi::OsString;

/// the name and value, or none if it has to be refused
fn pair(kv: &str) -> Option<(String, T)> {
    let (k, v) = kv.split_once('=')?;
    let k = k.trim();
    match lex(k).ok()?.as_slice() {
        [(Tok::Name(n), _)] if n == k => (),
        _ => return None,
    }
    Some((k.to_string(), parse(v, Assoc::Left)?))
}

/// names which a formula can refer to
fn refers(k: &str) -> bool {
    parse(k, Assoc::Left) == Some(T::Ref(k.to_string()))
}

/// compile with these pairs and compare what the formulas become
fn check(ctx: &Ctx, kvs: &[&str], code: &str, cells: &str, named: &[(&str, &str)], formulas: &[String]) -> CaseResult {
    let mut src = String::new();
    if !code.is_empty() {
        src.push_str(&format!("{code}\n---\n"));
    }
    src.push_str(cells);
    let first = cells.lines().count();
    for f in formulas {
        src.push_str(&cell_field(&format!("={f}")));
        src.push('\n');
    }
    let got = compile_src(&ctx.scratch, &src, kvs);
    let pairs: Option<Vec<(String, T)>> = kvs.iter().map(|kv| pair(kv)).collect();
    let Some(pairs) = pairs else {
        return match got {
            Ok(m) => Err(Fail::new(format!("{kvs:?} is accepted and {src:?} becomes {:?}", sheet(&m)))),
            Err(e) if e.to_string().trim().is_empty() => Err(Fail::new("the error is empty")),
            Err(_) => Ok(Outcome::of(&(kvs, "refused"))),
        };
    };
    let mut d = Defs::of(&parse_code(code, Assoc::Left).map_err(|_| Fail::new("MACHINERY: reference"))?);
    for (n, at) in named {
        d.vars.entry((*n).into()).or_insert_with(|| T::Ref((*at).to_string()));
    }
    let own = d.vars.clone();
    for (k, v) in pairs {
        // the last one counts, but not if it's defined in the source
        if !own.contains_key(&k) {
            d.vars.insert(k, v);
        }
    }
    let wants: Result<Vec<T>, _> = formulas.iter().map(|f| expand(&parse(f, Assoc::Left).unwrap_or(T::Empty), &d)).collect();
    match (got, wants) {
        (Err(e), Ok(w)) => Err(Fail::new(format!("{src:?} with {kvs:?} is refused: {e}, expected {w:?}"))),
        (Ok(m), Err(e)) => Err(Fail::new(format!("{src:?} with {kvs:?} becomes {:?}, expected an error ({e:?})", sheet(&m)))),
        (Err(_), Err(e)) => Ok(Outcome::of(&e)),
        (Ok(m), Ok(wants)) => {
            let got = sheet(&m);
            for (i, want) in wants.iter().enumerate() {
                let g = got.get(first + i).and_then(|r| r.first()).cloned().unwrap_or_default();
                let t = g.strip_prefix('=').and_then(|g| parse(g, Assoc::Left));
                if t.as_ref() != Some(want) {
                    return Err(Fail::new(format!("{src:?} with {kvs:?}: ={} becomes {g:?}, expected ={}", formulas[i], print(want, true))));
                }
            }
            Ok(Outcome::of(&wants))
        }
    }
}

fn single(ctx: &mut Ctx) {
    // every key over some characters, and every word of tokens as the value
    let mut keys: Vec<String> = vec![];
    words(&['a', 'B', '1', '_', ' ', '-', '"', '(', '#', '$', '.', '\u{e4}', ':', '\n', '\t'], ctx.bound(2, 4) as usize, &mut |w| keys.push(w.iter().collect()));
    keys.extend(["fn", "use", "true", "FALSE", "TRUE", "fnx", "use1", "a b", "A1", "$A$1", "foo_bar2", "\u{1F600}", "a:b", "---", "fn a", "use a", "if", "a.b", "R1C1"].map(String::from));
    for k in keys {
        if !ctx.mine() {
            ctx.skip(1);
            continue;
        }
        ctx.case(
            || format!("the key {k:?}"),
            |c| {
                c.transitions += 1;
                let name = k.trim();
                let formulas = if refers(name) { vec![name.to_string(), format!("F({name}, 2)")] } else { vec!["1".into()] };
                check(c, &[&format!("{k}=42")], "", "", &[], &formulas)
            },
        );
    }
    let mut values: Vec<String> = vec![];
    let tokens = ["1", "2.5", "-", "+", "*", "(", ")", ",", "\"x y\"", "b", "f", "A1", "%", "=", "&", "TRUE", "^", ":", "#", "\"", "'", "\u{e4}", "<>", "---", "\n", ":="];
    words(&tokens, ctx.bound(2, 3) as usize, &mut |w| {
        values.push(w.join(" "));
        if w.len() > 1 {
            values.push(w.concat());
        }
    });
    words(&["1", "-", "(", ")", ",", "b", "f", "+"], ctx.bound(4, 5) as usize, &mut |w| {
        if w.len() > 2 {
            values.push(w.join(" "));
        }
    });
    // every pair of operators, grouped either way
    let ops = ["+", "-", "*", "/", "^", "&", "=", "<>", "<", "<=", ">", ">="];
    let mut grouped = vec![];
    for a in ops {
        for b in ops {
            for v in [format!("(1 {a} 2) {b} 3"), format!("1 {a} (2 {b} 3)"), format!("f(1 {a} 2, 3) {b} g"), format!("(1{a}2){b}3"), format!("\"x {a} y\" {b} z"), format!("x {a} \"y{b}z\""), format!("f(x {a} y, 1 {b} z)")] {
                grouped.push(v);
            }
        }
    }
    for v in &grouped {
        if !ctx.mine() {
            ctx.skip(1);
            continue;
        }
        ctx.case(
            || format!("the value {v:?}"),
            |c| {
                c.transitions += 1;
                check(c, &[&format!("a={v}")], "", "", &[], &["a".into(), "F(a, 2)".into()])?;
                check(c, &["b=1", &format!("a = {v}"), "c=a"], "d := c\n", "", &[], &["d".into(), "a & b".into()])
            },
        );
    }
    for v in values {
        if !ctx.mine() {
            ctx.skip(1);
            continue;
        }
        ctx.case(
            || format!("the value {v:?}"),
            |c| {
                c.transitions += 1;
                if ambiguous(&v) {
                    return Ok(Outcome::trivial());
                }
                check(c, &[&format!("a={v}")], "", "", &[], &["a".into(), "F(a, 2)".into()])
            },
        );
    }
}

/// which of C03's known findings it would run into, or what isn't specified
fn ambiguous(v: &str) -> bool {
    let ops = |t: &T| -> usize {
        fn n(t: &T) -> usize {
            match t {
                T::Infix(_, l, r) => 1 + n(l) + n(r),
                T::Call(_, a) => a.iter().map(n).max().unwrap_or(0),
                _ => 0,
            }
        }
        n(t)
    };
    // a formula's own `=` may be there or not; comments hide what follows
    v.trim_start().starts_with('=') || v.contains('#') || parse(v, Assoc::Left).is_some_and(|t| ops(&t) > 1 || crate::formula::has_quote(&t))
}

const PAIRS: [&str; 22] = [
    "a=1", "b=2", "c=1 + 2", "a=b", "b=c & a", "a=\"te,xt\"", "b=\"k=v\"", "c=f(a, 1)", " b = 4 ", "a=-5%", "a=A1", "f=3", "d=g(2)", "g=a", "x=9", "a", "=1", "", "a=", "b=(1", "1=2", "c=1 2",
];

fn lists(ctx: &mut Ctx) {
    let settings: [(&str, &str, &[(&str, &str)]); 6] = [
        ("", "", &[]),
        ("a := 7", "", &[]),
        ("fn g(a) a + b", "", &[]),
        ("", "[[var=a]]0,[[var=x]]1\n", &[("a", "A1"), ("x", "B1")]),
        ("b := x & c", "[[var=c]]0\n", &[("c", "A1")]),
        ("a := b\nfn f(b, x) a + b * c", "t,[[var=d]]0\n", &[("d", "B1")]),
    ];
    let formulas: Vec<String> = ["a", "b", "c", "F(a, b)", "g(c)", "f(b, a)", "d", "x"].map(String::from).to_vec();
    let most = ctx.bound(2, 3) as usize;
    let mut all = vec![];
    words(&PAIRS, most, &mut |w| all.push(w.to_vec()));
    // every three of some in every order
    if ctx.quick() {
        crate::util::words_n(&["a=1", "b=2", "a=b", "c=f(a, 1)", "b=c & a", "x=9", "a=", "a=3"], 3, &mut |w| all.push(w.to_vec()));
    }
    for kvs in all {
        for (code, cells, named) in settings {
            if kvs.len() == 3 && !(code.len() < 4 && cells.is_empty()) && !code.starts_with("a := b") {
                continue;
            }
            if !ctx.mine() {
                ctx.skip(1);
                continue;
            }
            ctx.case(
                || format!("{kvs:?} with {code:?} and the cells {cells:?}"),
                |c| {
                    // formula by formula, as some fail
                    let mut seen = vec![];
                    if kvs.iter().all(|k| pair(k).is_some()) {
                        for f in &formulas {
                            c.transitions += 1;
                            if let Err(e) = check(c, &kvs, code, cells, named, std::slice::from_ref(f)) {
                                return Err(e);
                            }
                        }
                    } else {
                        c.transitions += 1;
                        check(c, &kvs, code, cells, named, &formulas[..1])?;
                    }
                    seen.push(&kvs);
                    Ok(Outcome::of(&(seen, code, cells)))
                },
            );
        }
    }
}

fn read(dir: &std::path::Path, out: &str, tab: &str, width: usize, height: usize) -> Result<Vec<Vec<String>>, Fail> {
    let path = dir.join(out);
    if out.ends_with("csv") {
        let mut r = csv::ReaderBuilder::new().has_headers(false).flexible(true).from_path(&path).map_err(|e| Fail::new(e.to_string()))?;
        let rows: Vec<Vec<String>> = r.records().map(|r| r.map(|r| r.iter().map(String::from).collect())).collect::<Result<_, _>>().map_err(|e: csv::Error| Fail::new(e.to_string()))?;
        // lines of nothing but commas are kept by the reader
        return Ok((0..height).map(|y| (0..width).map(|x| rows.get(y).and_then(|r| r.get(x)).cloned().unwrap_or_default()).collect()).collect());
    }
    let book = umya_spreadsheet::reader::xlsx::read(&path).map_err(|e| Fail::new(format!("{e:?}")))?;
    let sheet = book.get_sheet_by_name(tab).ok_or_else(|| Fail::new(format!("there is no sheet {tab:?}")))?;
    Ok((0..height)
        .map(|y| {
            (0..width)
                .map(|x| {
                    let at = (x as u32 + 1, y as u32 + 1);
                    sheet.get_cell(at).map_or(String::new(), |c| if c.is_formula() { format!("={}", c.get_formula()) } else { c.get_value().to_string() })
                })
                .collect()
        })
        .collect())
}

/// the flags, through the real command
fn flags(ctx: &mut Ctx) {
    let offsets: &[usize] = if ctx.quick() { &[0, 1, 3] } else { &[0, 1, 2, 5, 30] };
    // how the pairs are given
    let spellings: [&[&str]; 6] = [&["-k", "a=1", "b=x y"], &["-k", "a=1", "-k", "b=2"], &["--key-values", "b=2", "a=1"], &["-k=a=1", "-k=b=2"], &["-ka=1", "--key-values=b=2"], &["-k", "b=2", "-k", "a=1", "-k"]];
    let mut dims = vec![];
    // target, x, y, order of the flags, safe, tab, spelling of the pairs, existing
    product(&[2, offsets.len(), offsets.len(), 3, 2, 4, spellings.len(), 2], &mut |w| dims.push(w.to_vec()));
    for w in dims {
        let [t, x, y, order, safe, tab, spelling, exists] = w[..] else { continue };
        // quick: each two of the dimensions in full
        if ctx.quick() && [order, tab, spelling].iter().filter(|d| **d > 0).count() > 1 {
            continue;
        }
        if t == 0 && tab > 1 {
            continue;
        }
        if !ctx.mine() {
            ctx.skip(1);
            continue;
        }
        let (x, y) = (offsets[x], offsets[y]);
        let tab_name = ["my.main", "Tab", "a b", "\u{e4}\u{1F600}"][tab];
        let out = ["out.csv", "out.xlsx"][t];
        ctx.case(
            || format!("{out} at {x}, {y}, safe: {}, in the tab {tab_name:?}, pairs as {:?}, order {order}, output exists: {}", safe == 1, spellings[spelling], exists == 1),
            |c| {
                c.transitions += 1;
                let dir = c.scratch.join("t");
                let mut before = Snapshot::from([("my.main.csvpp".into(), Entry::File(b"=a,text\n=b,=a & b\n".to_vec()))]);
                let (width, height) = (9.max(x + 4), 9.max(y + 4));
                // "oXY" in every second cell, and in other tabs
                let old = |px: usize, py: usize| if exists == 1 && (px + py) % 2 == 0 && px < 6 && py < 6 { format!("o{px}{py}") } else { String::new() };
                if exists == 1 {
                    let content = if t == 0 {
                        (0..6).map(|py| (0..6).map(|px| old(px, py)).collect::<Vec<_>>().join(",") + "\n").collect::<String>().into_bytes()
                    } else {
                        let mut book = umya_spreadsheet::new_file_empty_worksheet();
                        for n in ["my.main", "Tab", "a b", "\u{e4}\u{1F600}"] {
                            let s = book.new_sheet(n).map_err(Fail::new)?;
                            for py in 0..6 {
                                for px in 0..6 {
                                    if !old(px, py).is_empty() {
                                        s.get_cell_mut((px as u32 + 1, py as u32 + 1)).set_value_string(old(px, py));
                                    }
                                }
                            }
                        }
                        let mut w = std::io::Cursor::new(vec![]);
                        umya_spreadsheet::writer::xlsx::write_writer(&book, &mut w).map_err(|e| Fail::new(format!("{e:?}")))?;
                        w.into_inner()
                    };
                    before.insert(out.into(), Entry::File(content));
                }
                cmd::restore(&dir, &before);
                let mut groups: Vec<Vec<String>> = vec![vec!["-o".into(), out.into()], vec!["-x".into(), x.to_string()], vec![format!("--y-offset={y}")]];
                if safe == 1 {
                    groups.push(vec![["-s", "--safe"][order % 2].into()]);
                }
                if tab > 0 {
                    groups.push(vec!["-n".into(), tab_name.into()]);
                }
                groups.push(spellings[spelling].iter().map(ToString::to_string).collect());
                match order {
                    1 => groups.reverse(),
                    2 => groups.rotate_left(2),
                    _ => (),
                }
                let mut args: Vec<OsString> = groups.into_iter().flatten().map(OsString::from).collect();
                args.extend(["--no-cache".into(), "my.main.csvpp".into()]);
                let ran = cmd::run(&dir, &args, None)?;
                ran.check()?;
                if spelling == 0 {
                    // one of its pairs is malformed
                    return if ran.ok() || cmd::snapshot(&dir) != before { Err(Fail::new(format!("a malformed pair is accepted: {args:?}"))) } else { Ok(Outcome::of(&"refused")) };
                }
                if !ran.ok() {
                    return Err(Fail::new(format!("{args:?} fails: {}", ran.stderr)));
                }
                let cells = [["=1", "text"], ["=2", "=1 & 2"]];
                let got = read(&dir, out, tab_name, width, height)?;
                let same = |got: &str, want: &str| got == want || want.starts_with('=') && parse(got.strip_prefix('=').unwrap_or(got), Assoc::Left) == parse(&want[1..], Assoc::Left);
                for (py, row) in got.iter().enumerate() {
                    for (px, g) in row.iter().enumerate() {
                        let new = px.checked_sub(x).and_then(|cx| py.checked_sub(y).and_then(|cy| cells.get(cy).and_then(|r| r.get(cx))));
                        let o = old(px, py);
                        let want = match new {
                            Some(_) if safe == 1 && !o.is_empty() => o,
                            Some(n) => (*n).to_string(),
                            None => o,
                        };
                        if !same(g, &want) {
                            return Err(Fail::new(format!("{args:?}: the cell in column {px}, row {py} is {g:?}, expected {want:?}")));
                        }
                    }
                }
                Ok(Outcome::of(&got))
            },
        );
    }
}

/// every cell that isn't empty
fn filled(dir: &std::path::Path, out: &str, tab: &str) -> Result<Vec<(usize, usize, String)>, Fail> {
    let path = dir.join(out);
    let mut cells = vec![];
    if out.ends_with("csv") {
        let text = std::fs::read_to_string(&path).map_err(|e| Fail::new(e.to_string()))?;
        // (none of the values needs quotes)
        for (y, l) in text.lines().enumerate() {
            cells.extend(l.split(',').enumerate().filter(|(_, v)| !v.is_empty()).map(|(x, v)| (x, y, v.to_string())));
        }
    } else {
        let book = umya_spreadsheet::reader::xlsx::read(&path).map_err(|e| Fail::new(format!("{e:?}")))?;
        let sheet = book.get_sheet_by_name(tab).ok_or_else(|| Fail::new(format!("there is no sheet {tab:?}")))?;
        for c in sheet.get_cell_collection() {
            let v = if c.is_formula() { format!("={}", c.get_formula()) } else { c.get_value().to_string() };
            if !v.is_empty() {
                let at = c.get_coordinate();
                cells.push((*at.get_col_num() as usize - 1, *at.get_row_num() as usize - 1, v));
            }
        }
    }
    cells.sort_by_key(|c| (c.1, c.0));
    Ok(cells)
}

/// offsets that are large, and ones that can't be
fn far(ctx: &mut Ctx) {
    let xs: &[usize] = if ctx.quick() { &[0, 10, 25, 26, 27, 255, 256, 701, 702, 800, 16_382] } else { &[0, 9, 10, 11, 25, 26, 27, 51, 52, 63, 64, 99, 100, 127, 128, 255, 256, 257, 675, 676, 701, 702, 703, 800, 999, 1000, 1023, 1024, 4095, 4096, 16_381, 16_382] };
    let ys: &[usize] = if ctx.quick() { &[0, 10, 99, 256, 999, 1000, 1001, 65_536] } else { &[0, 9, 10, 99, 100, 101, 127, 128, 255, 256, 257, 512, 998, 999, 1000, 1001, 1024, 9_999, 10_000, 32_767, 32_768, 65_534, 65_535, 65_536, 100_000, 1_048_574] };
    for out in ["out.csv", "out.xlsx"] {
        for (i, &x) in xs.iter().enumerate() {
            for (j, &y) in ys.iter().enumerate() {
                if i.min(j) > 0 && (i + j) % 3 > 0 {
                    continue;
                }
                for exists in [false, true] {
                    if !ctx.mine() {
                        ctx.skip(1);
                        continue;
                    }
                    ctx.case(
                        || format!("{out} at {x}, {y}, output exists: {exists}"),
                        |c| {
                            c.transitions += 1;
                            let dir = c.scratch.join("t");
                            let before = Snapshot::from([("m.csvpp".into(), Entry::File(b"=a,text\n\n7,=b\n".to_vec())), ("o.csvpp".into(), Entry::File(b"old\n".to_vec()))]);
                            cmd::restore(&dir, &before);
                            if exists {
                                cmd::run(&dir, &["--no-cache", "-n", "m", "-o", out, "o.csvpp"], None)?.check()?;
                            }
                            let ran = cmd::run(&dir, &["--no-cache", "-o", out, "-x", &x.to_string(), "-y", &y.to_string(), "-k", "a=1", "b=2.5", "--", "m.csvpp"], None)?;
                            ran.check()?;
                            if !ran.ok() {
                                return Err(Fail::new(format!("it fails: {}", ran.stderr)));
                            }
                            let got = filled(&dir, out, "m")?;
                            let csv = out.ends_with("csv");
                            let mut want: Vec<(usize, usize, String)> = [(0, 0, "=1"), (1, 0, "text"), (0, 2, "7"), (1, 2, "=2.5")].iter().map(|(cx, cy, v)| (x + cx, y + cy, if csv { *v } else { v.trim_start_matches('=') }.to_string())).collect();
                            if exists && !want.iter().any(|w| (w.0, w.1) == (0, 0)) {
                                want.push((0, 0, "old".into()));
                            }
                            want.sort_by_key(|c| (c.1, c.0));
                            if got != want {
                                return Err(Fail::new(format!("the filled cells are {got:?}, expected {want:?}")));
                            }
                            Ok(Outcome::of(&want))
                        },
                    );
                }
            }
        }
        for bad in ["-1", "a", "", "1.5", "4294967296", "1e3", "0x1", "１"] {
            for flag in ["-x", "-y", "--x-offset", "--y-offset"] {
                ctx.case(
                    || format!("{flag} {bad:?}"),
                    |c| {
                        c.transitions += 1;
                        let dir = c.scratch.join("t");
                        let before = Snapshot::from([("m.csvpp".into(), Entry::File(b"1\n".to_vec()))]);
                        cmd::restore(&dir, &before);
                        let ran = cmd::run(&dir, &["--no-cache", "-o", out, flag, bad, "m.csvpp"], None)?;
                        ran.check()?;
                        if ran.ok() || cmd::snapshot(&dir) != before {
                            return Err(Fail::new("it is accepted"));
                        }
                        Ok(Outcome::of(&"refused"))
                    },
                );
            }
        }
    }
    // many pairs, and long ones
    for n in [10usize, 64, 65, 300] {
        ctx.case(
            || format!("{n} pairs"),
            |c| {
                c.transitions += 1;
                let kvs: Vec<String> = (0..n).map(|i| format!("k{i}={}", if i % 3 == 0 || i < 2 { i.to_string() } else { format!("k{} + {i}", i / 2) })).collect();
                let kvs: Vec<&str> = kvs.iter().map(String::as_str).collect();
                check(c, &kvs, "", "", &[], &[format!("k{}", n - 1), "k1 & k2".into(), format!("F(k{}, k0)", n / 2)])?;
                let long = format!("{}=f({})", "n".repeat(n), (0..n).map(|i| i.to_string()).collect::<Vec<_>>().join(", "));
                let text = format!("t=\"{}\"", "é".repeat(n));
                check(c, &[&long, &text], "", "", &[], &["n".repeat(n), format!("F({}, {}n)", "n".repeat(n), "n".repeat(n)), "t & 1".into()])
            },
        );
    }
}

fn run(ctx: &mut Ctx) {
    single(ctx);
    far(ctx);
    lists(ctx);
    flags(ctx);
}

pub fn prop() -> Prop {
    Prop {
        id: "C20",
        level: "model_checking",
        rule: "every list of key=value pairs goes through the real compiler and is compared with a reference reader of pairs and the reference substitution; every combination of offsets, safe mode, tab, target and spellings goes through the real command and is compared cell by cell; a state is what the formulas become",
        bounds: |t| {
            if t == Tier::Quick {
                "keys: all words of <= 2 of 15 characters and 19 others; values: all words of <= 2 of 26 tokens (with and without blanks) and of <= 4 of 8; lists: all of <= 2 of 22 pairs and of 3 of 8 x up to 6 sources that define some of the names; the command: 2 targets x 3 x 3 offsets x safe x existing output x (3 orders, 4 tabs or 6 spellings of pairs); 11 x 8 offsets up to column 16383 and row 65537; up to 300 pairs".into()
            } else {
                "keys of <= 4 characters, values of <= 3 of 26 and <= 5 of 8 tokens; lists of <= 3 of 22 pairs; the command: 2 targets x 5 x 5 offsets x 3 orders x safe x 4 tabs x 6 spellings x existing output; 32 x 26 offsets up to the end of a sheet; up to 300 pairs".into()
            }
        },
        run,
        hang_s: 200,
        workers: 0,
        assumptions: &["of several values for a name the last one counts, names defined in the source come first (C07)", "a value may begin with the `=` of a formula or have a comment, which isn't specified"],
    }
}

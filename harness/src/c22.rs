//! C22: every code section over bounded token / statement alphabets, and every way to split a file.
use crate::c01::{reference, RefResult};
use crate::formula::{lex, parse, print, Assoc, Tok, T};
use crate::model::{expand, line_col, parse_code, split, Def, Defs};
use crate::rt::{CaseResult, Ctx, Fail, Outcome, Prop, Tier};
use crate::util::{cell_field, compile_src, error_at, esc, sheet, words_n};
use std::collections::BTreeSet;

/// the modules that code sections can import
const IMPORTED: [(&str, &str); 3] = [
    ("imp", "q := 42\nfn fq(z) z * q"),
    ("lib2", "r := 43\nfn fr(z) z - r"),
    ("lib3", "s := 44\nfn fs() s"),
];

fn imported(name: &str) -> Option<Defs> {
    let (_, code) = IMPORTED.iter().find(|(n, _)| *n == name)?;
    let d = Defs::of(&parse_code(code, Assoc::Left).unwrap());
    Some(crate::model::close(&d, &d).unwrap())
}

/// formulas that show what the definitions are
fn probes(code: &str, d: &Defs) -> Vec<T> {
    let mut names: BTreeSet<String> = d.vars.keys().cloned().collect();
    for n in ["q", "r", "s"] {
        names.insert(n.into());
    }
    if let Ok(ts) = lex(code) {
        for t in ts {
            if let Tok::Name(n) = t.0 {
                names.insert(n);
            }
        }
    }
    let mut v: Vec<T> = names.into_iter().map(T::Ref).collect();
    for (n, (ps, _)) in &d.fns {
        v.push(T::Call(n.clone(), (0..ps.len()).map(|i| T::Num(format!("{}", 901 + i), false)).collect()));
    }
    v.retain(|p| expand(p, d).is_ok());
    v
}

/// Compile `code` (with its own line ends, no separator line in it) and compare its definitions.
pub fn check_code(ctx: &Ctx, code: &str, sep_line: &str) -> CaseResult {
    let lines: Vec<&str> = code.lines().collect();
    let code_n = lines.join("\n");
    let parsed = parse_code(&code_n, Assoc::Left);
    let m = |cells: &str| {
        let mut t = code.to_string();
        if !t.is_empty() && !t.ends_with('\n') {
            t.push('\n');
        }
        format!("{t}{sep_line}\n{cells}")
    };
    match parsed {
        Err(rej) => {
            let src = m("x\n");
            let e = match compile_src(&ctx.scratch, &src, &[]) {
                Ok(_) => return Err(Fail::new(format!("malformed code section {} was accepted", esc(code)))),
                Err(e) => e,
            };
            let Some(p) = error_at(&e) else {
                return Err(Fail::new(format!("rejected without a position: {e}")));
            };
            let mut ok: Vec<(usize, usize)> = rej.at.iter().map(|i| line_col(&code_n, *i)).collect();
            if rej.at_end {
                let last = lex(&code_n).ok().and_then(|t| t.last().map(|t| t.1));
                let last = last.map_or((0, 0), |l| line_col(&code_n, l));
                if p.at > last && p.at <= (line_col(&code_n, code_n.chars().count()).0 + 1, 0) {
                    ok.push(p.at);
                }
            }
            if !ok.contains(&p.at) {
                return Err(Fail::new(format!("{} is rejected at {:?}, what is wrong is at {ok:?}: {e}", esc(&src), p.at)));
            }
            p.quoted(&src)?;
            Ok(Outcome::of(&("rejected", p.at)))
        }
        Ok(defs) => {
            let mut d = Defs::of(&defs);
            let uses: Vec<&String> = defs.iter().filter_map(|d| if let Def::Use(u) = d { Some(u) } else { None }).collect();
            let mut missing = false;
            for u in &uses {
                match imported(u) {
                    Some(i) => d.adopt(&i),
                    None => missing = true,
                }
            }
            let pr = probes(code, &d);
            let mut cells = String::from("plain,\"a,b\"\n");
            for p in &pr {
                cells.push_str(&cell_field(&format!("={}", print(p, true))));
                cells.push('\n');
            }
            let src = m(&cells);
            let r = compile_src(&ctx.scratch, &src, &[]);
            if missing {
                return match r {
                    Ok(_) => Err(Fail::new(format!("{}: import of a missing module was accepted", esc(&src)))),
                    Err(_) => Ok(Outcome::of(&"missing import")),
                };
            }
            let got = match r {
                Err(e) => return Err(Fail::new(format!("well-formed code section rejected: {} : {e}", esc(&src)))),
                Ok(m) => sheet(&m),
            };
            if got.len() != pr.len() + 1 || got[0] != ["plain", "a,b"] {
                return Err(Fail::new(format!("cells of {} came out as {got:?}", esc(&src))));
            }
            let mut out = vec![];
            for (p, row) in pr.iter().zip(&got[1..]) {
                let want = expand(p, &d).expect("probes only has those");
                let g = row.first().and_then(|c| c.strip_prefix('=')).and_then(|c| parse(c, Assoc::Left));
                if row.len() != 1 || g.as_ref() != Some(&want) {
                    return Err(Fail::new(format!("in {}: ={} came out as {row:?}, expected {}", esc(&src), print(p, true), print(&want, true))));
                }
                out.push(want);
            }
            Ok(Outcome::of(&out))
        }
    }
}

fn go(ctx: &mut Ctx, code: &str, sep: &str) {
    if !ctx.mine() {
        return ctx.skip(1);
    }
    ctx.case(
        || format!("code section {} separated by {}", esc(code), esc(sep)),
        |c| check_code(c, code, sep),
    );
}

/// which lines are code and which are cells
fn check_split(ctx: &Ctx, text: &str) -> CaseResult {
    // the Windows line end is a line end, everywhere (C01 says what that makes of the cells)
    let (code, cells, above) = split(&text.replace("\r\n", "\n"));
    let mut d = Defs::default();
    if let Some(c) = &code {
        match parse_code(c, Assoc::Left) {
            Err(_) => {
                return match compile_src(&ctx.scratch, text, &[]) {
                    Ok(m) => Err(Fail::new(format!("{}: malformed code section accepted, sheet {:?}", esc(text), sheet(&m)))),
                    Err(_) => Ok(Outcome::of(&"rejected")),
                }
            }
            Ok(x) => d = Defs::of(&x),
        }
    }
    let r = compile_src(&ctx.scratch, text, &[]);
    let rows = match (reference(&cells, ',', true), reference(&cells, ',', false)) {
        (RefResult::Rows(r), RefResult::Rows(r2)) => (r, r2),
        _ => {
            return match r {
                Ok(m) => Err(Fail::new(format!("{}: malformed cells accepted as {:?}", esc(text), sheet(&m)))),
                Err(_) => Ok(Outcome::of(&"rejected")),
            }
        }
    };
    let want = |r: &[Vec<crate::c01::RefField>]| -> Option<Vec<Vec<Result<String, T>>>> {
        r.iter()
            .map(|r| {
                r.iter()
                    .map(|f| match f.value.strip_prefix('=') {
                        None => Some(Ok(f.value.clone())),
                        Some(b) => expand(&parse(b, Assoc::Left)?, &d).ok().map(Err),
                    })
                    .collect()
            })
            .collect()
    };
    let (Some(w), Some(w2)) = (want(&rows.0), want(&rows.1)) else {
        return match r {
            Ok(m) => Err(Fail::new(format!("{}: malformed formula accepted, sheet {:?}", esc(text), sheet(&m)))),
            Err(_) => Ok(Outcome::of(&"rejected")),
        };
    };
    let got: Vec<Vec<Result<String, T>>> = match r {
        Err(e) => return Err(Fail::new(format!("{} was rejected: {e}", esc(text)))),
        Ok(m) => sheet(&m)
            .into_iter()
            .map(|r| {
                r.into_iter()
                    .map(|c| match c.strip_prefix('=').and_then(|b| parse(b, Assoc::Left)) {
                        Some(t) => Err(t),
                        None => Ok(c),
                    })
                    .collect()
            })
            .collect(),
    };
    let _ = above;
    // (whether a separator at the very end makes one more field is the subject of C01)
    if got != w && got != w2 {
        return Err(Fail::new(format!("{} came out as {got:?}, expected {w:?}", esc(text))));
    }
    Ok(Outcome::of(&got))
}

fn run(ctx: &mut Ctx) {
    for (n, code) in IMPORTED {
        std::fs::write(ctx.scratch.join(format!("{n}.csvpp")), format!("{code}\n---\n")).unwrap();
    }
    // 1. token sequences
    let toks = ["a", "b", ":=", "1", "fn ", "f", "(", ")", ",", "+", "\n", "#c\n", "use ", "\"t\"", "-", "%"];
    for n in 0..=ctx.bound(4, 5) {
        words_n(&toks, n, &mut |w| go(ctx, &w.join(" "), "---"));
    }
    // run together
    let pieces = ["a", ":=", "1", "fn", "(", ")", "use", " ", "\n", "#", "é", ".", "\"", "?"];
    for n in 0..=ctx.bound(4, 5) {
        words_n(&pieces, n, &mut |w| go(ctx, &w.concat(), "---"));
    }
    // 2. statements in every order, with every layout between them
    let stmts = [
        "a := 1",
        "a := b + 2",
        "b := 3 * -4",
        "b :=\n  f(1, \"x y\")",
        "fn f(x, y) x & y",
        "fn f ( ) 9%",
        "fn\n g\n(x,\n y)\n  f(x,\n y) # body",
        "use imp",
        "q := a",
        "foo.bar := (1 + 2) * 3",
        "c := A1:B2",
        "d := true",
    ];
    let seps = ["\n", "\n\n# comment := 1 \n", " ", "\r\n", "\t\n \t"];
    let k = ctx.bound(3, 4);
    for n in 1..=k {
        words_n(&(0..stmts.len()).collect::<Vec<_>>(), n, &mut |w| {
            for s in seps {
                // a comment must end before the next statement begins
                let s2 = if s == " " { "\n" } else { s };
                let mut t = String::new();
                for (i, x) in w.iter().enumerate() {
                    if i > 0 {
                        t.push_str(if stmts[w[i - 1]].contains('#') { s2 } else { s });
                    }
                    t.push_str(stmts[*x]);
                }
                go(ctx, &t, "---");
            }
        });
    }
    // longer sequences of the three kinds of statements
    let kinds = ["use imp", "use lib2", "use lib3", "a := b", "b := 1 + q", "fn f(x) x & r", "fn g() a"];
    for n in 1..=ctx.bound(4, 6) {
        words_n(&kinds, n, &mut |w| go(ctx, &w.join("\n"), "---"));
    }
    // all orders of seven of them; long sections
    for p in crate::c04::permutations(kinds.len()) {
        if !ctx.quick() || p[0] % 2 == 0 {
            go(ctx, &p.iter().map(|i| kinds[*i]).collect::<Vec<_>>().join("\n"), "---");
        }
    }
    for n in [9, 17, 33, 65, 129, 257, ctx.bound(300, 1030)] {
        for filler in ["v{} := {}", "fn f{}(x) x + {}", "fn f{}(x) x\nv{} := f{}({})", "# {} {}", "v{} :=\n\n  {} # c"] {
            for at in 0..=2 {
                let mut ls: Vec<String> = (0..n)
                    .map(|i| filler.replace("{}", &i.to_string()))
                    .collect();
                for (j, k) in ["use imp", "a := q", "fn g(x) x * r", "use lib2"].iter().enumerate() {
                    // at the front, at the end, spread
                    let to = [j, ls.len(), (j + 1) * ls.len() / 4][at];
                    ls.insert(to, k.to_string());
                }
                go(ctx, &ls.join("\n"), "---");
            }
        }
    }
    for sep in ["---", " ---", "---  ", "\t---\t", "---\r"] {
        for s in stmts {
            go(ctx, s, sep);
            go(ctx, &format!("{s}\n\n"), sep);
            go(ctx, &format!("\n \n{s}"), sep);
        }
    }
    // 3. splitting
    let lines = ["---", " ---\t", "----", "--", "a := 1", "x,y", "#---", "---#", "", "\"---", "=a", "--- ---"];
    for n in 0..=ctx.bound(4, 5) {
        words_n(&lines, n, &mut |w| {
            for (eol, last) in [("\n", true), ("\n", false), ("\r\n", true)] {
                if !ctx.mine() {
                    ctx.skip(1);
                    continue;
                }
                let mut t = w.join(eol);
                if last {
                    t.push_str(eol);
                }
                ctx.case(|| format!("file {}", esc(&t)), |c| check_split(c, &t));
            }
        });
    }
}

pub fn prop() -> Prop {
    Prop {
        id: "C22",
        level: "model_checking",
        rule: "every code section over the token, piece and statement alphabets (all orders and layouts) and every sequence of lines around the separator, compiled by the real compiler and compared - definitions through probing cells, rejections through their position - with a reference splitter and statement parser; a state is a distinct reference result",
        bounds: |t| if t == Tier::Quick { "token sequences <= 4 of 16; pieces <= 4 of 14; statements <= 3 of 12 x 5 layouts; lines <= 4 of 12 x 3 line ends".into() } else { "token sequences <= 5 of 16; pieces <= 5 of 14; statements <= 4 of 12 x 5 layouts; lines <= 5 of 12 x 3 line ends".into() },
        run,
        hang_s: 20,
        workers: 0,
        assumptions: &["formulas as in the reference parser of C03"],
    }
}

//! C04: every set of definitions over bounded term alphabets, expanded by the real compiler and by
//! the reference substitution. C05: everything that could make the expansion not end.
use crate::formula::{parse, print, Assoc, T};
use crate::model::{expand, parse_code, stops, Defs, Stop};
use crate::rt::{CaseResult, Ctx, Fail, Outcome, Prop, Tier};
use crate::util::{cell_field, compile_src, esc, product, sheet, words_n};
use csvpp::Error;

fn ints(s: &str) -> Vec<usize> {
    s.split(|c: char| !c.is_ascii_digit()).filter(|x| !x.is_empty()).filter_map(|x| x.parse().ok()).collect()
}

fn defs_of(code: &[String]) -> Defs {
    let text = code.join("\n");
    Defs::of(&parse_code(&text, Assoc::Left).unwrap_or_else(|e| panic!("reference cannot read {text:?}: {e:?}")))
}

/// Expand each of `probes` under `code`, together where they all expand and alone where not.
pub fn check_program(ctx: &Ctx, code: &[String], probes: &[String]) -> CaseResult {
    let d = defs_of(code);
    let trees: Vec<T> = probes.iter().map(|p| parse(p, Assoc::Left).unwrap_or_else(|| panic!("{p}"))).collect();
    let wants: Vec<Result<T, Stop>> = trees.iter().map(|t| expand(t, &d)).collect();
    let src = |cells: &[&String]| {
        // (on one line: every layout is explored under C22)
        let mut s = code.join(" ");
        s.push_str("\n---\n");
        for c in cells {
            s.push_str(&cell_field(&format!("={c}")));
            s.push('\n');
        }
        s
    };
    let good: Vec<usize> = (0..probes.len()).filter(|i| wants[*i].is_ok()).collect();
    if !good.is_empty() {
        let s = src(&good.iter().map(|i| &probes[*i]).collect::<Vec<_>>());
        let m = compile_src(&ctx.scratch, &s, &[]).map_err(|e| Fail::new(format!("{} was rejected: {e}", esc(&s))))?;
        let got = sheet(&m);
        if got.len() != good.len() {
            return Err(Fail::new(format!("{}: {} rows: {got:?}", esc(&s), got.len())));
        }
        for (i, row) in good.iter().zip(&got) {
            let want = wants[*i].as_ref().unwrap();
            let g = row.first().and_then(|c| c.strip_prefix('=')).and_then(|c| parse(c, Assoc::Left));
            if row.len() != 1 || g.as_ref() != Some(want) {
                return Err(Fail::new(format!("{}: ={} came out as {row:?}, expected ={}", esc(&s), probes[*i], print(want, true))));
            }
        }
    }
    for i in (0..probes.len()).filter(|i| wants[*i].is_err()).take(4) {
        let s = src(&[&probes[i]]);
        match compile_src(&ctx.scratch, &s, &[]) {
            Ok(m) => return Err(Fail::new(format!("{}: came out as {:?}, expected an error ({:?})", esc(&s), sheet(&m), wants[i]))),
            Err(Error::EvalError { eval_error, .. }) => {
                let poss = stops(&trees[i], &d);
                let n = ints(&eval_error.message);
                let ok = poss.iter().any(|p| match p {
                    Stop::Arity(a, b) => n == [*a, *b],
                    Stop::Cycle => n.is_empty(),
                });
                if !ok {
                    return Err(Fail::new(format!("{}: the error is {eval_error}, expected one of {poss:?}", esc(&s))));
                }
            }
            Err(e) => return Err(Fail::new(format!("{}: unexpected kind of error: {e}", esc(&s)))),
        }
    }
    Ok(Outcome::of(&wants))
}

const VALUES: [&str; 12] = ["1", "x", "y", "z", "a", "x + 1", "f(1, 2)", "g(y)", "-3%", "h(x, \"t\")", "f(y, g(x))", "f()"];
const PARAMS: [&str; 7] = ["", "a", "x", "a, b", "b, a", "x, y", "f"];
const BODIES: [&str; 16] =
    ["1", "a", "b", "x", "y", "f", "a + b", "b * x", "f(a)", "g(a)", "g(b)", "g(a, b)", "g(b, a)", "h(a, x)", "a + g(b + y, a)", "g(g(a))"];

fn nparams(i: usize) -> usize {
    if PARAMS[i].is_empty() { 0 } else { PARAMS[i].split(',').count() }
}

fn calls(name: &str, n: usize) -> Vec<String> {
    match n {
        0 => vec![format!("{name}()")],
        1 => vec![format!("{name}(5)"), format!("{name}(a + y)"), format!("{name}({name}(b))")],
        _ => vec![format!("{name}(5, 6)"), format!("{name}(b, a)"), format!("{name}({name}(x, 1), b)")],
    }
}

fn run4(ctx: &mut Ctx) {
    let (nv, np, nb) = (VALUES.len(), PARAMS.len(), BODIES.len());
    let one = |ctx: &mut Ctx, xv: usize, yv: usize, fp: usize, fb: usize, gp: usize, gb: usize| {
        if !ctx.mine() {
            return ctx.skip(1);
        }
        let mut code = vec![
            format!("x := {}", VALUES[xv]),
            format!("fn f({}) {}", PARAMS[fp], BODIES[fb]),
            format!("fn g({}) {}", PARAMS[gp], BODIES[gb]),
            format!("y := {}", VALUES[yv]),
        ];
        // whatever their order
        code.rotate_left((xv + fb + gb) % 4);
        let mut probes = vec!["x".to_string(), "y * 2".to_string()];
        probes.extend(calls("f", nparams(fp)));
        probes.extend(calls("g", nparams(gp)));
        probes.push(format!("h(f, {}, x)", calls("f", nparams(gp))[0]));
        ctx.case(|| format!("{} probed with {probes:?}", esc(&code.join("\n"))), |c| check_program(c, &code, &probes));
    };
    // every pair of functions, with some pairs of variables
    let vars: Vec<(usize, usize)> = if ctx.quick() {
        vec![(0, 3), (2, 0), (6, 7), (4, 10)]
    } else {
        (0..nv).flat_map(|x| (0..nv).map(move |y| (x, y))).filter(|(x, y)| (x * 5 + y) % 4 == 0).collect()
    };
    product(&[vars.len(), np, nb, np, nb], &mut |i| one(ctx, vars[i[0]].0, vars[i[0]].1, i[1], i[2], i[3], i[4]));
    // every pair of variables, with some pairs of functions
    product(&[nv, nv, 4, 8], &mut |i| one(ctx, i[0], i[1], [1, 3, 5, 0][i[2]], [6, 14, 9, 0, 12, 3, 7, 4][i[3]], [3, 1, 0, 4][i[2]], [7, 2, 5, 6, 0, 13, 3, 1][i[3]]));
    // chains of definitions, used at every depth
    for n in 1..=ctx.bound(24usize, 60) {
        for form in 0..3 {
            for order in [false, true] {
                let mut code: Vec<String> = (1..=n)
                    .map(|i| match form {
                        0 => format!("v{i} := {}", if i == n { "w".to_string() } else { format!("v{} + 1", i + 1) }),
                        1 => format!("fn p{i}(a) {}", if i == n { "a * q".to_string() } else { format!("p{}(a & {i})", i + 1) }),
                        _ => format!("fn p{i}(a, b) {}", if i == n { "a - b".to_string() } else { format!("p{}(b, a)", i + 1) }),
                    })
                    .collect();
                if order {
                    code.reverse();
                }
                let probes: Vec<String> = [1, n.div_ceil(2), n]
                    .iter()
                    .map(|k| match form {
                        0 => format!("v{k}"),
                        1 => format!("p{k}(p{k}(z))"),
                        _ => format!("p{k}(1, p{n}(2, 3))"),
                    })
                    .collect();
                ctx.case(|| format!("chain of {n}, form {form}, reversed {order}"), |c| check_program(c, &code, &probes));
            }
        }
    }
    // every formula of bounded size, over names that are variables, functions, both or neither
    let programs: [&[&str]; 6] = [
        &["a := 1", "f := u + 2", "fn f(x) x * a", "fn g(x, a) a - x"],
        &["u := 7 + a", "fn g(f, u) f(u) + f", "fn s(a) a & 1"],
        &["s := 5", "a := s", "fn a(s) s(s)", "fn f() a"],
        &["f := g(a, 1)", "g := f(u)", "fn s(f) g(f, f)"],
        &["fn f(a) s(a)", "fn s(a) g(a, u)", "u := a"],
        &["a := s(a2)", "a2 := -1.5%", "fn g(a, a2) s(a2, a)", "f := \"f\"", "s := f"],
    ];
    let leaves: Vec<String> = ["1", "a", "u", "f", "s", "g"].iter().map(|s| (*s).into()).collect();
    let grow = |x: &[String], y: &[String]| {
        let mut out = vec![];
        for l in x {
            for f in ["f", "s", "a"] {
                out.push(format!("{f}({l})"));
            }
            for r in y {
                for f in ["g", "s"] {
                    out.push(format!("{f}({l}, {r})"));
                }
                out.push(format!("({l}) + ({r})"));
            }
        }
        out
    };
    let one_deep = grow(&leaves, &leaves);
    let mut probes = leaves.clone();
    probes.push("f()".into());
    probes.extend(one_deep.clone());
    probes.extend(grow(&one_deep, &leaves));
    probes.extend(grow(&leaves, &one_deep).into_iter().filter(|p| p.contains(',') || p.contains('+')));
    if !ctx.quick() {
        probes.extend(grow(&one_deep, &one_deep));
    }
    for code in programs {
        let code: Vec<String> = code.iter().map(|s| (*s).into()).collect();
        for chunk in probes.chunks(100) {
            if !ctx.mine() {
                ctx.skip(1);
                continue;
            }
            let chunk = chunk.to_vec();
            let code = code.clone();
            ctx.case(|| format!("{} probed with {chunk:?}", esc(&code.join("\n"))), |c| check_program(c, &code, &chunk));
        }
    }
    // the same definitions in every order
    for code in programs {
        for order in permutations(code.len()) {
            for chunk in probes[..leaves.len() + 1 + one_deep.len()].chunks(100) {
                if !ctx.mine() {
                    ctx.skip(1);
                    continue;
                }
                let chunk = chunk.to_vec();
                let code: Vec<String> = order.iter().map(|i| code[*i].to_string()).collect();
                ctx.case(|| format!("{} probed with {chunk:?}", esc(&code.join("\n"))), |c| check_program(c, &code, &chunk));
            }
        }
    }
    // a lot of definitions, of parameters, and long names
    for n in if ctx.quick() { vec![27usize, 63, 64, 65, 130, 257] } else { vec![27, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 513, 1030] } {
        let names = |p: &str| (0..n).map(|i| format!("{p}{i}")).collect::<Vec<_>>();
        let mut vars: Vec<String> = (0..n).map(|i| format!("v{i} := {}", if i % 3 == 0 || i < 3 { i.to_string() } else { format!("v{} + {i}", i / 3) })).collect();
        vars.extend((0..n).map(|i| format!("fn f{i}(a, v{i}) a - v{i} * v{}", n - 1 - i)));
        let uses: Vec<String> = [0, 1, n / 2, n - 2, n - 1].iter().flat_map(|i| [format!("v{i}"), format!("f{i}(v{i}, 1)"), format!("v{n}"), format!("f{n}(1, v1)")]).collect();
        ctx.case(|| format!("{n} variables and {n} functions"), |c| check_program(c, &vars, &uses));
        let ps = names("p");
        let code = vec![format!("fn f({}) g({})", ps.join(", "), ps.iter().rev().cloned().collect::<Vec<_>>().join(", ")), format!("fn g({}) p{} - p0 & s({})", ps.join(", "), n - 1, ps.join(", "))];
        let args: Vec<String> = (0..n).map(|i| if i % 7 == 0 { "z".into() } else { i.to_string() }).collect();
        let probes = vec![format!("f({})", args.join(", ")), format!("g({})", args.join(", ")), format!("f({})", args[1..].join(", "))];
        ctx.case(|| format!("{n} parameters"), |c| check_program(c, &code, &probes));
        let (long, other) = ("n".repeat(n), format!("{}m", "n".repeat(n - 1)));
        let code = vec![format!("{long} := 1"), format!("{other} := {long} + 2"), format!("fn {long}({other}) {other} * {long}"), format!("fn {other}({long}) {other} - {long}")];
        let probes = vec![long.clone(), other.clone(), format!("{long}({other})"), format!("{other}({long}(3))"), format!("{long}n"), format!("{long}n({long})")];
        ctx.case(|| format!("names of {n} characters"), |c| check_program(c, &code, &probes));
    }
    // numbers of arguments
    for n in 0..=4usize {
        for m in 0..=5usize {
            for empty in [false, true] {
                let ps: Vec<String> = (0..n).map(|i| format!("p{i}")).collect();
                let args: Vec<String> = (0..m).map(|i| if empty && m > 1 { String::new() } else { format!("{i}") }).collect();
                let code = vec![format!("fn f({}) r({})", ps.join(", "), ps.join(" , "))];
                let probes = vec![format!("f({})", args.join(","))];
                ctx.case(|| format!("{code:?} called as {probes:?}"), |c| check_program(c, &code, &probes));
            }
        }
    }
}

pub fn permutations(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    permutations(n - 1)
        .into_iter()
        .flat_map(|p| {
            (0..n).map(move |i| {
                let mut p = p.clone();
                p.insert(i, n - 1);
                p
            })
        })
        .collect()
}

pub fn prop() -> Prop {
    Prop {
        id: "C04",
        level: "model_checking",
        rule: "every set of two variables and two functions over the value, parameter and body alphabets (names colliding between parameters, variables and functions; cyclic and wrongly called ones included), probed with formulas and compared with a reference simultaneous substitution; every formula up to a depth over names that are variables, functions, both or neither; the same definitions in every order; chains of definitions; many definitions and parameters, long names; all argument counts",
        bounds: |t| {
            if t == Tier::Quick {
                "7 parameter lists x 16 bodies for both functions x 4 variable pairs; 12 x 12 variable values x 32 function pairs; 6 programs x all formulas of 6 names, 3 unary and 3 binary forms, depth 1, and depth 2 with a leaf on one side; all orders of the 6 programs; chains up to 24; up to 257 definitions, parameters, letters; up to 4 parameters x 5 arguments".into()
            } else {
                "7 parameter lists x 16 bodies for both functions x 36 variable pairs; 12 x 12 variable values x 32 function pairs; 6 programs x all formulas of 6 names, 3 unary and 3 binary forms, depth 2; all orders of the 6 programs; chains up to 60; up to 1030 definitions, parameters, letters; up to 4 parameters x 5 arguments".into()
            }
        },
        run: run4,
        hang_s: 20,
        workers: 0,
        assumptions: &["arguments are expanded before the call, so that a cycle in an argument that is not used is still an error"],
    }
}

/// must end with a result or an error, and say no to definitions in terms of themselves
fn check_ends(ctx: &Ctx, src: &str, kv: &[&str]) -> CaseResult {
    match compile_src(&ctx.scratch, src, kv) {
        Ok(m) => Ok(Outcome::of(&sheet(&m).iter().map(|r| r.iter().map(String::len).collect::<Vec<_>>()).collect::<Vec<_>>())),
        Err(e) => Ok(Outcome::of(&e.to_string().len())),
    }
}

fn case5(ctx: &mut Ctx, what: &str, src: impl FnOnce() -> String, kv: &[&str]) {
    if !ctx.mine() {
        return ctx.skip(1);
    }
    let s = src();
    ctx.case(
        || {
            if s.len() < 4000 {
                format!("{what}: {}", esc(&s))
            } else {
                format!("{what}: {} ... ({} bytes)", esc(&s.chars().take(300).collect::<String>()), s.len())
            }
        },
        |c| check_ends(c, &s, kv),
    );
}

fn run5(ctx: &mut Ctx) {
    // 1. every graph of references between three variables and two functions
    let vb = ["1", "x", "y", "z", "x + y", "y + z", "z & x", "f(x)", "f(f(z))", "g(y)"];
    let fb = ["a", "a + x", "f(a)", "g(a)", "g(g(a)) + y", "z"];
    product(&[vb.len(), vb.len(), vb.len(), fb.len(), fb.len()], &mut |i| {
        if ctx.quick() && (i[0] + i[1] + i[2] + i[3] + i[4]) % 2 == 1 {
            return;
        }
        if !ctx.mine() {
            return ctx.skip(1);
        }
        let code = vec![
            format!("x := {}", vb[i[0]]),
            format!("y := {}", vb[i[1]]),
            format!("z := {}", vb[i[2]]),
            format!("fn f(a) {}", fb[i[3]]),
            format!("fn g(a) {}", fb[i[4]]),
        ];
        let probes: Vec<String> = ["x", "f(y)", "g(1) + z"].iter().map(|s| (*s).into()).collect();
        ctx.case(|| format!("{} probed with {probes:?}", esc(&code.join("\n"))), |c| check_program(c, &code, &probes));
    });
    // 2. nesting and sizes, around the limits and far beyond them
    let mut ns: Vec<usize> = vec![1, 10, 100, 248, 249, 250, 251, 252, 330, 400, 490];
    ns.extend(495..506);
    ns.extend([600, 999, 1000, 1001, 2000, 10_000]);
    if !ctx.quick() {
        ns.extend([20_000, 50_000]);
    }
    for n in ns {
        let rep = |s: &str| s.repeat(n);
        let forms: Vec<(&str, Box<dyn Fn() -> String>)> = vec![
            ("parentheses", Box::new(move || format!("---\n={}1{}\n", "(".repeat(n), ")".repeat(n)))),
            ("signs", Box::new(move || format!("---\n={}1\n", "- ".repeat(n)))),
            ("infix", Box::new(move || format!("---\n=1{}\n", " + 1".repeat(n)))),
            ("infix mixed", Box::new(move || format!("---\n=1{}\n", " + 1 * 2".repeat(n)))),
            ("calls", Box::new(move || format!("---\n\"={}1{}\"\n", "s(".repeat(n), ")".repeat(n)))),
            ("defined calls", Box::new(move || format!("fn f(a) a + 1\n---\n\"={}1{}\"\n", "f(".repeat(n), ")".repeat(n)))),
            ("identity calls", Box::new(move || format!("fn f(a) a\n---\n\"={}1{}\"\n", "f(".repeat(n), ")".repeat(n)))),
            ("doubling calls", Box::new(move || format!("fn f(a) a + a\n---\n\"={}1{}\"\n", "f(".repeat(n), ")".repeat(n)))),
            ("ignored arguments", Box::new(move || format!("fn f(a) a + a\nfn k(a) 1\n---\n\"=k({}1{})\"\n", "f(".repeat(n), ")".repeat(n)))),
            ("arguments", Box::new(move || format!("---\n\"=s(1{})\"\n", ",1".repeat(n)))),
            ("unclosed", Box::new(move || format!("---\n={}\n", "s(".repeat(n)))),
            ("variables", Box::new(move || format!("{}v{n} := 1\n---\n=v0\n", (0..n).map(|i| format!("v{i} := v{}\n", i + 1)).collect::<String>()))),
            ("growing variables", Box::new(move || format!("{}v{n} := 1\n---\n=v0\n", (0..n).map(|i| format!("v{i} := v{} + 1\n", i + 1)).collect::<String>()))),
            ("doubling variables", Box::new(move || format!("{}v{n} := 1\n---\n=v0\n", (0..n).map(|i| format!("v{i} := v{} + v{}\n", i + 1, i + 1)).collect::<String>()))),
            ("functions", Box::new(move || format!("{}fn f{n}(a) a\n---\n=f0(1)\n", (0..n).map(|i| format!("fn f{i}(a) f{}(a)\n", i + 1)).collect::<String>()))),
            ("doubling functions", Box::new(move || format!("{}fn f{n}(a) a\n---\n\"=f0(1)\"\n", (0..n).map(|i| format!("fn f{i}(a) s(f{}(a), f{}(a))\n", i + 1, i + 1)).collect::<String>()))),
            ("tripling functions", Box::new(move || format!("{}fn f{n}(a) a\n---\n\"=f0(1)\"\n", (0..n).map(|i| format!("fn f{i}(a) f{}(s(a,a,a))\n", i + 1)).collect::<String>()))),
            ("ring of variables", Box::new(move || format!("{}---\n=v0\n", (0..n).map(|i| format!("v{i} := 1 + v{}\n", (i + 1) % n)).collect::<String>()))),
            ("ring of functions", Box::new(move || format!("{}---\n=f0(1)\n", (0..n).map(|i| format!("fn f{i}(a) f{}(a + 1)\n", (i + 1) % n)).collect::<String>()))),
            ("options", Box::new(move || format!("---\n{}x\n", "[[t=b]]".repeat(n)))),
            ("option list", Box::new(move || format!("---\n[[{}]]x\n", "t=b ".repeat(n)))),
            ("long field", Box::new(move || format!("---\n{}\n", "abc ".repeat(n)))),
        ];
        let _ = rep;
        for (w, f) in &forms {
            // these texts grow beyond what a debug build reads in reasonable time
            if n > 2000 && ["variables", "growing variables", "doubling variables", "functions", "doubling functions", "tripling functions", "ring of variables", "ring of functions"].contains(w) && ctx.quick() {
                continue;
            }
            case5(ctx, &format!("{w} x {n}"), f, &[]);
            // the same inside of an imported module is evaluated on another thread
            if n <= 1001 && !w.starts_with("option") && *w != "long field" {
                if !ctx.mine() {
                    ctx.skip(1);
                    continue;
                }
                let s = f();
                let (code, cell) = s.split_once("---\n=").or_else(|| s.split_once("---\n\"=")).unwrap();
                let expr = cell.trim_end().trim_end_matches('"');
                let dep = format!("{code}\nresult := {expr}\n---\n");
                ctx.case(
                    || format!("{w} x {n} in an imported module"),
                    |c| {
                        crate::util::write(&c.scratch.join("dep.csvpp"), &dep);
                        check_ends(c, "use dep\n---\n=result\n", &[])
                    },
                );
            }
        }
    }
    // 2b. deep bodies, called deep inside of each other: what's nested adds up, what's repeated multiplies
    let sizes: &[(usize, usize)] = if ctx.quick() { &[(2, 3), (10, 60), (100, 100), (450, 450)] } else { &[(2, 3), (3, 170), (10, 60), (60, 10), (100, 100), (250, 3), (450, 450), (490, 490), (20, 2000)] };
    for &(d, k) in sizes {
        for (open, close) in [("s(", ")"), ("s(1,", ")"), ("s(", ",1)"), ("(1+", ")"), ("(", "+1)"), ("s(1+", ")"), ("(1+s(", "))"), ("(f0(1)+", ")"), ("s(b0,", ",b0)")] {
            let deep = |a: &str| format!("{}{a}{}", open.repeat(d), close.repeat(d));
            let shapes: Vec<(&str, String, String)> = vec![
                ("calls of a deep function", format!("fn f(a) {}\n", deep("a")), format!("{}1{}", "f(".repeat(k.min(490)), ")".repeat(k.min(490)))),
                ("calls in the second place", format!("fn f(b,a) {}\n", deep("a")), format!("{}1{}", "f(2,".repeat(k.min(490)), ")".repeat(k.min(490)))),
                ("chained deep functions", format!("{}fn g{k}(a) a\n", (0..k).map(|i| format!("fn g{i}(a) g{}({})\n", i + 1, deep("a"))).collect::<String>()), "g0(1)".into()),
                ("functions around the next", format!("{}fn g{k}(a) a\n", (0..k).map(|i| format!("fn g{i}(a) {}\n", deep(&format!("g{}(a)", i + 1)))).collect::<String>()), "g0(1)".into()),
                ("deep variables", format!("{}v{k} := 1\n", (0..k).map(|i| format!("v{i} := {}\n", deep(&format!("v{}", i + 1)))).collect::<String>()), "v0".into()),
                ("deep variables as arguments", format!("fn h(a) a * a\n{}v{k} := 1\n", (0..k).map(|i| format!("v{i} := h({})\n", deep(&format!("v{}", i + 1)))).collect::<String>()), "v0".into()),
            ];
            for (w, code, expr) in shapes {
                if code.len() > 400_000 && ctx.quick() {
                    continue;
                }
                case5(ctx, &format!("{w}: {d} x {open}{close}, {k} times"), || format!("b0 := 2\nfn f0(a) a\n{code}---\n\"={expr}\"\n"), &[]);
                if !ctx.mine() {
                    ctx.skip(1);
                    continue;
                }
                let dep = format!("b0 := 2\nfn f0(a) a\n{code}result := {expr}\n---\n");
                ctx.case(
                    || format!("{w}: {d} x {open}{close}, {k} times, in an imported module"),
                    |c| {
                        crate::util::write(&c.scratch.join("dep.csvpp"), &dep);
                        check_ends(c, "use dep\n---\n=result\n", &[])
                    },
                );
            }
        }
    }
    // what's given twice, again and again
    for n in [1usize, 5, 16, 17, 18, 30, 64, 200, 490] {
        for body in ["a + a", "s(a, a)", "s(a, 1, a)", "s(a) + a", "a & s(2, a)", "s(s(a), s(a))"] {
            case5(ctx, &format!("{body} x {n}"), || format!("fn f(a) {body}\n---\n\"={}1{}\"\n", "f(".repeat(n), ")".repeat(n)), &[]);
            case5(ctx, &format!("{body} x {n} of a text"), || format!("t := \"{}\"\nfn f(a) {body}\n---\n\"={}t{}\"\n", "x".repeat(40), "f(".repeat(n), ")".repeat(n)), &[]);
            case5(ctx, &format!("{body} x {n} by variables"), || format!("fn f(a) {body}\n{}v{n} := 1\n---\n=v0\n", (0..n).map(|i| format!("v{i} := f(v{})\n", i + 1)).collect::<String>()), &[]);
        }
    }
    // 3. values from the command line which refer to each other
    let kvs = ["a=b", "b=a", "a=a", "a=c+1", "c=a", "b=f(b)", "c=1"];
    for n in 1..=3 {
        words_n(&kvs, n, &mut |w| {
            let kv: Vec<&str> = w.to_vec();
            case5(ctx, &format!("-k {kv:?}"), || "fn f(x) x + c\n---\n=a,=b\n=c\n".into(), &kv);
        });
    }
    // 4. every graph of imports between a main module and two or three others
    let n = ctx.bound(3, 4);
    let mods = ["m", "p", "q", "r"];
    let edges = n * n;
    for g in 0u32..(1 << edges) {
        // in the larger graphs, only those where main imports p
        if n == 4 && (g & 0b1010) != 0b0010 {
            continue;
        }
        for form in 0..2 {
            if n == 4 && form == 1 && g % 3 != 0 {
                continue;
            }
            if !ctx.mine() {
                ctx.skip(1);
                continue;
            }
            let text = |i: usize| {
                let mut s = String::new();
                for j in 0..n {
                    if g >> (i * n + j) & 1 == 1 {
                        s.push_str(&format!("use {}\n", mods[j]));
                    }
                }
                // each refers to what the next one defines
                let next = mods[(i + 1) % n];
                match form {
                    0 => s.push_str(&format!("v{} := v{next} + 1\n", mods[i])),
                    _ => s.push_str(&format!("v{} := {i}\nfn f{}(a) f{next}(a + v{next})\n", mods[i], mods[i])),
                }
                s.push_str(if i == 0 { "---\n=vm,=vp\n=fm(1),=fq(2)\n" } else { "---\n" });
                s
            };
            ctx.case(
                || format!("modules {:?}", (0..n).map(|i| (mods[i], text(i))).collect::<Vec<_>>()),
                |c| {
                    for i in 1..n {
                        crate::util::write(&c.scratch.join(format!("{}.csvpp", mods[i])), &text(i));
                    }
                    check_ends(c, &text(0), &[])
                },
            );
        }
    }
    // 5. long chains and rings of modules
    for n in [1usize, 5, 20, ctx.bound(60, 200)] {
        for ring in [false, true] {
            ctx.case(
                || format!("{n} modules importing the next one, ring: {ring}"),
                |c| {
                    for i in 0..n {
                        let next = if i + 1 < n { format!("use k{}\nv{i} := v{} + 1\n", i + 1, i + 1) } else if ring { format!("use k0\nv{i} := v0\n") } else { format!("v{i} := 1\n") };
                        crate::util::write(&c.scratch.join(format!("k{i}.csvpp")), &format!("{next}---\n"));
                    }
                    let r = check_ends(c, "use k0\n---\n=v0\n", &[]);
                    for i in 0..n {
                        let _ = std::fs::remove_file(c.scratch.join(format!("k{i}.csvpp")));
                    }
                    r
                },
            );
        }
    }
}

pub fn prop05() -> Prop {
    Prop {
        id: "C05",
        level: "model_checking",
        rule: "every graph of references between three variables and two functions (result or error as the reference says), nesting and sizes of 22 forms, deep bodies called in each other in 6 shapes x 9 forms and 6 ways to multiply, around the limits and far beyond, in the main and in an imported module, command-line values, and every import graph; a case that gives no result within 25 s, dies or exceeds 6 GB is a violation",
        bounds: |t| {
            if t == Tier::Quick {
                "half of the 10^3 x 6^2 definition graphs; sizes up to 10000; all 512 import graphs of 3 modules; chains of 60 modules".into()
            } else {
                "all 10^3 x 6^2 definition graphs; sizes up to 50000; import graphs of 4 modules in which main imports the second but not the last; chains of 200 modules".into()
            }
        },
        run: run5,
        hang_s: 25,
        workers: 0,
        assumptions: &["8 MB of stack on the main thread"],
    }
}

//! C03: every formula over bounded token alphabets, real lexer/parser/printer vs the reference.
use crate::formula::{has_quote, parse, print, Assoc, T};
use crate::rt::{CaseResult, Ctx, Fail, Outcome, Prop, Tier};
use crate::util::{cell_field, compile_src, esc, product, sheet, words_n};

fn compile_formula(ctx: &Ctx, f: &str) -> Result<String, String> {
    let m = compile_src(&ctx.scratch, &format!("---\n{}\n", cell_field(&format!("={f}"))), &[]).map_err(|e| e.to_string())?;
    let s = sheet(&m);
    if s.len() != 1 || s[0].len() != 1 {
        return Err(format!("not a single cell: {s:?}"));
    }
    Ok(s[0][0].clone())
}

/// where a formula that denotes `want` (under left associativity) was emitted as `got`
fn judge(src: &str, got: &str) -> Result<(), Fail> {
    let want = parse(src, Assoc::Left).expect("only called for well-formed formulas");
    let body = got.strip_prefix('=').ok_or_else(|| Fail::new(format!("emitted text is not a formula: {}", esc(got))))?;
    // what is emitted is read with the same documented precedence
    if parse(body, Assoc::Left).as_ref() == Some(&want) {
        return Ok(());
    }
    let right = parse(src, Assoc::Right).unwrap();
    if right != want && parse(body, Assoc::Left).as_ref() == Some(&right) {
        return Err(Fail::keyed("equal-precedence-groups-right", format!("emitted {} for {}", esc(got), esc(src))));
    }
    if has_quote(&want) {
        for (t, k) in [(&want, "quote-in-text-not-doubled"), (&right, "quote-in-text-not-doubled")] {
            if squeeze(body) == squeeze(&print(t, false)) {
                return Err(Fail::keyed(k, format!("emitted {} for {}", esc(got), esc(src))));
            }
        }
    }
    Err(Fail::new(format!("{} denotes {want:?} but {} was emitted", esc(src), esc(got))))
}

fn squeeze(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace() && *c != '+').collect()
}

pub fn check_formula(ctx: &Ctx, src: &str) -> CaseResult {
    let want = parse(src, Assoc::Left);
    let got = compile_formula(ctx, src);
    match (want, got) {
        (None, Err(_)) => Ok(Outcome::of(&("rejected", src.len()))),
        (None, Ok(g)) => Err(Fail::new(format!("malformed formula {} was accepted and emitted as {}", esc(src), esc(&g)))),
        (Some(w), Err(e)) => Err(Fail::new(format!("well-formed formula {} ({w:?}) was rejected: {e}", esc(src)))),
        (Some(w), Ok(g)) => {
            let j = judge(src, &g);
            if let Err(f) = &j {
                if f.key.is_empty() || f.key == "quote-in-text-not-doubled" {
                    return j.map(|()| Outcome::trivial());
                }
            }
            // the emitted formula is a fixed point
            let again = compile_formula(ctx, g.strip_prefix('=').unwrap_or(&g));
            if again.as_ref() != Ok(&g) {
                return Err(Fail::new(format!("{} was emitted as {}, which recompiles to {again:?}", esc(src), esc(&g))));
            }
            j?;
            Ok(Outcome::of(&w))
        }
    }
}

fn go(ctx: &mut Ctx, src: &str) {
    // `fn` is a keyword when a blank follows, which the emitted formula has: not used as a name
    if crate::formula::lex(src.trim_end()).is_ok_and(|t| t.iter().any(|t| t.0 == crate::formula::Tok::Name("fn".into()))) {
        return ctx.skip(1);
    }
    ctx.case(|| format!("formula ={}", esc(src)), |c| check_formula(c, src));
}

/// all parenthesisations (trees) of n operators, as strings over operands/operators
fn shapes(n: usize) -> Vec<Vec<(usize, usize)>> {
    // a shape is a list of (from,to) operand spans that get parentheses
    fn rec(lo: usize, hi: usize) -> Vec<Vec<(usize, usize)>> {
        if lo == hi {
            return vec![vec![]];
        }
        let mut out = vec![];
        for k in lo..hi {
            for l in rec(lo, k) {
                for r in rec(k + 1, hi) {
                    let mut v = vec![(lo, hi)];
                    v.extend(l.iter().copied());
                    v.extend(r.iter().copied());
                    out.push(v);
                }
            }
        }
        out
    }
    let mut all = vec![vec![]];
    all.extend(rec(0, n));
    // single pairs of parentheses
    for i in 0..=n {
        for j in i..=n {
            all.push(vec![(i, j)]);
        }
    }
    all
}

fn run(ctx: &mut Ctx) {
    // 1. structure: every sequence of these tokens
    let toks = ["1", "x", "(", ")", ",", "-", "*", "%", "\"t\""];
    let max = ctx.bound(5, 6);
    for n in 0..=max {
        words_n(&toks, n, &mut |w| {
            if !ctx.mine() {
                return ctx.skip(1);
            }
            go(ctx, &w.join(" "));
        });
    }
    // 2. precedence: every sequence of operators with every parenthesisation
    let ops = ["^", "*", "/", "+", "-", "&", "=", "<", ">", "<=", ">=", "<>"];
    let names = ["a", "b", "c", "d", "e"];
    for n in 1..=ctx.bound(3, 4) {
        let sh = shapes(n);
        let mut rad = vec![ops.len(); n];
        rad.push(sh.len());
        product(&rad, &mut |ix| {
            if !ctx.mine() {
                return ctx.skip(1);
            }
            let mut s = String::new();
            for k in 0..=n {
                for p in &sh[ix[n]] {
                    if p.0 == k {
                        s.push('(');
                    }
                }
                s.push_str(names[k]);
                for p in &sh[ix[n]] {
                    if p.1 == k {
                        s.push(')');
                    }
                }
                if k < n {
                    s.push_str(ops[ix[k]]);
                }
            }
            go(ctx, &s);
        });
    }
    // 3. operands of every kind around every pair of operators
    let operands = ["-5", "+5", "--5", "+-5", "5%", "-5%", "-(5)", "-(-5)", "-(5%)", "1.5", "f(1)", "f(a,b+1)", "f(,)", "f(g(1),-2)", "\"t\"", "true", "A1:B2", "(a+b)", "-x", "1:2", "TRUE", "5.", "007", "0.50"];
    product(&[operands.len(), ops.len(), operands.len()], &mut |ix| {
        if !ctx.mine() {
            return ctx.skip(1);
        }
        go(ctx, &format!("{}{}{}", operands[ix[0]], ops[ix[1]], operands[ix[2]]));
    });
    for o in operands {
        for w in ["{}", "({})", "f({})", "f(x,{})", "f({},x)", "{}%", "-{}", "+{}", "{}^2", "2^{}", "g(f({}))", " {} ", "{} {}", "{}()", "({})()"] {
            go(ctx, &w.replace("{}", o));
        }
    }
    // 4. lexing: every sequence of these pieces, run together
    let pieces = ["a", "1", ".", ":", "=", "<", ">", "\"", "\"\"", "#", "\n", " ", "true", "use", "fn", "$", "!", "-", "(", ")", "e", "false", "_", ";"];
    for n in 1..=ctx.bound(3, 4) {
        words_n(&pieces, n, &mut |w| {
            if !ctx.mine() {
                return ctx.skip(1);
            }
            go(ctx, &w.concat());
        });
    }
}

fn bounds(t: Tier) -> String {
    let q = t == Tier::Quick;
    format!(
        "all token sequences over 9 tokens up to length {}; all sequences of up to {} of the 12 operators with every parenthesisation; 24 operand forms on both sides of every operator and in 15 contexts; all concatenations of up to {} of 24 lexical pieces",
        if q { 5 } else { 6 },
        if q { 3 } else { 4 },
        if q { 3 } else { 4 }
    )
}

pub fn prop() -> Prop {
    let _ = T::Empty;
    Prop {
        id: "C03",
        level: "model_checking",
        rule: "the compiled formula denotes the tree the reference parser gives for the source, malformed sequences are rejected, the emitted formula recompiles to itself",
        bounds,
        run,
        hang_s: 20,
        workers: 8,
        assumptions: &["operators, precedence and literals as documented in the reference parser (harness/src/formula.rs)", "integers fit 64 bits", "the keyword fn is not used as a name"],
    }
}

//! C13: every input over bounded alphabets in every place of a source file, and every piece repeated
//! very often: no panic, abort or hang.
use crate::rt::{CaseResult, Ctx, Fail, Outcome, Prop, Tier};
use crate::util::{compile_src, esc, full_sheet, words_n};

fn check(ctx: &Ctx, src: &str) -> CaseResult {
    match compile_src(&ctx.scratch, src, &[]) {
        Ok(m) => {
            // what the program logs and writes
            let shown = m.to_string();
            let s = full_sheet(&m);
            Ok(Outcome::of(&(shown.len() > 0, s)))
        }
        Err(e) => {
            let s = e.to_string();
            if s.trim().is_empty() {
                return Err(Fail::new("rejected without a message"));
            }
            Ok(Outcome::of(&s))
        }
    }
}

fn case(ctx: &mut Ctx, src: String) {
    ctx.case(|| esc(&src), |c| check(c, &src));
}

fn hole(ctx: &mut Ctx, places: &[(&str, &str)], glue: &str, tokens: &[&str], n: usize) {
    words_n(tokens, n, &mut |w| {
        for (a, b) in places {
            if ctx.mine() {
                case(ctx, format!("{a}{}{b}", w.join(glue)));
            } else {
                ctx.skip(1);
            }
        }
    });
}

/// any text anywhere
const CHARS: [&str; 32] = [
    "-", "\n", "[", "]", "!", "=", ":", "\"", "'", ",", "(", ")", "/", " ", "a", "1", "é", "😀", "\t", "\r", "\\", "#", "&", ".", "$", "%", "_", "\0", "\u{feff}", "\u{a0}",
    "\u{301}", "+",
];
const CODE: [&str; 22] = [
    "a", "f", ":=", "fn", "use", "(", ")", ",", "\"", "1", ".", "é", "-", "\n", "=", "\\", "&", "TRUE", "1e9", "A1", "$", "😀",
];
const OPTIONS: [&str; 24] = [
    "text", "=", "/", "bold", "var", "fill", "b", "all", ",", "(", ")", "'", "[[", "]]", "!", "1", "99999999999999999999", "-", "é", "\n", "\"\"", " ", "#ff", "dv",
];
const NAMES: [&str; 31] = [
    "border", "b", "bordercolor", "bc", "borderstyle", "bs", "color", "c", "validate", "dv", "fill", "f", "fontcolor", "fc", "fontfamily", "ff", "fontsize", "fs", "halign", "ha",
    "lock", "l", "note", "n", "numberformat", "nf", "text", "t", "var", "v", "wrap",
];
const VALUES: [&str; 26] = [
    "a", "bold", "1", "0", "-1", "25", "100", "99999999999999999999999", "#", "ff0000", "#FF", "ABC", "é", "😀", "'", "\\'", "''", "=", "/", ",", "]", "]]", "[[", "\\", " ", "(",
];
const VALIDATIONS: [&str; 30] = [
    "custom", "date", "date_after", "date_before", "date_between", "date_equal_to", "date_eq", "date_is_valid", "date_not_between", "date_on_or_after", "date_on_or_before", "is_valid_date",
    "in_list", "in_range", "number_between", "number_eq", "number_equal_to", "number_greater_than", "number_gt", "number_lt", "number_not_between", "number_neq", "text_contains",
    "text_does_not_contain", "text_equal_to", "text_is_valid_email", "text_is_valid_url", "", "é", "1",
];
const ARGS: [&str; 17] = ["(", ")", " ", ",", "1", "-5", "1/2/2020", "13/45/99", "2020-01-02", "'a'", "'", "A1:B2", "A", "99999999999999999999", "foo", "é", "\"\""];
const FORMULA: [&str; 30] = [
    "a", "(", ")", ",", "+", "-", "*", "/", "^", "&", "=", "<", ">", "<>", "%", "1", ".", "1.5", "99999999999999999999", "\"\"", "'", "A1", "$", ":", "!", "é", " ", "TRUE", "A0", "{",
];
const REFS: [&str; 20] = ["A", "B", "1", "0", "$", ":", "!", "ZZZZZZZZZZZZZZZZZZ", "99999999999999999999999", "Sheet1", "'", "-", "R", "C", "[", "]", ".", "é", "a", "("];
const MODULES: [&str; 14] = ["/", "..", ".", "a", "~", "m", "é", "\\", "-", " ", "*", "con", "\u{0}", "_"];

fn run(ctx: &mut Ctx) {
    let before = "é := 1\n---\n\"x\ny\",\\\n# c\n";
    // 1. characters
    for n in 0..=ctx.bound(3, 4) {
        hole(ctx, &[("", ""), ("---\n", ""), ("", "\n---\nx"), ("a := ", "\n---\n=a")], "", &CHARS, n);
    }
    for n in 0..=ctx.bound(2, 3) {
        hole(
            ctx,
            &[("[[", "]]x"), ("![[", "]]x"), ("[[t=", ""), (before, "é,[[x]]"), ("=", ""), ("=a(", ")"), ("=\"", ""), ("x,é,=", "+,y"), ("[[n='", "']]é"), ("[[var=", "]]x"), ("\"[[n='", "']]\"")],
            "",
            &CHARS,
            n,
        );
    }
    // 2. tokens of each language
    for n in 0..=ctx.bound(3, 4) {
        hole(ctx, &[("", "\n---\n=a,=f(1)")], " ", &CODE, n);
        hole(ctx, &[("fn f(", "\n---\n=f(1)"), ("a := ", "---\n")], "", &CODE, n);
        hole(ctx, &[("[[", "]]x"), ("![[", "x")], "", &OPTIONS, n);
        hole(ctx, &[("\"[[", "]]x\"")], " ", &OPTIONS, n);
        hole(ctx, &[("\"=", "\"")], "", &FORMULA, n);
        hole(ctx, &[("=", ""), ("\"[[validate=in_range(", ")]]x\"")], "", &REFS, n);
        hole(ctx, &[("use ", "\n---\nx"), ("use ", "m\n---\n")], "", &MODULES, n.min(3));
    }
    // 3. option values and validations
    for o in NAMES {
        for n in 0..=ctx.bound(2, 3) {
            let (a, b) = (format!("\"[[{o}="), format!("\"![[{o}="));
            hole(ctx, &[(&a, "]]x,=a\""), (&b, "]]x\",y")], "", &VALUES, n);
        }
    }
    for v in VALIDATIONS {
        for n in 0..=ctx.bound(3, 4) {
            let a = format!("\"[[dv={v}");
            hole(ctx, &[(&a, "]]x\"")], "", &ARGS, n);
        }
        let a = format!("\"[[validate={v}(");
        for n in 0..=ctx.bound(2, 3) {
            hole(ctx, &[(&a, ")]]x\""), (&a, "")], " ", &ARGS, n);
        }
    }
    // 4. anything, very often
    let mut all: Vec<&str> = [&CHARS[..], &CODE, &OPTIONS, &FORMULA, &ARGS].concat();
    all.sort_unstable();
    all.dedup();
    let more = ["f(", "a,", "1+", "(1", "-1", "1%", "[[t=bold]]", "![[f=1]]x\n", "a := 1\n", "use m\n", "fn f(a) a\n", "\"x\"", "\"x\n", "x\\\n", "[[n='", "/t=bold", "a(b,", "1 <", "é,"];
    let mut sizes = ctx.bound(vec![600, 20_000], vec![600, 3000, 20_000, 200_000]);
    for t in all.iter().chain(&more) {
        for (a, b) in [("", ""), ("---\n", ""), ("", "\n---\nx"), ("a := ", "\n---\n=a"), ("=", ""), ("\"=", "\""), ("[[", "]]x"), ("[[n='", "']]x"), ("[[dv=custom(", ")]]"), ("=f(", ")")] {
            for k in &mut sizes {
                // looking for the separator takes long per line
                let k = &mut (if ctx.quick() && t.contains('\n') { (*k).min(2000) } else { *k });
                if ctx.mine() {
                    ctx.case(|| format!("{} and {} x {k} and {}", esc(a), esc(t), esc(b)), |c| check(c, &format!("{a}{}{b}", t.repeat(*k))));
                } else {
                    ctx.skip(1);
                }
            }
        }
    }
    // long texts, with a character across every byte
    for t in ["é", "漢", "😀", "a\u{301}"] {
        for n in [5, 12, 30, 60, 120, 400] {
            for k in 0..4 {
                let t = format!("{}{}", "a".repeat(k), t.repeat(n));
                for (a, b) in [
                    ("", ""), ("", ",=1 2"), ("", ",\"a\"b"), ("", "\n=1 2"), ("# ", "\n=)"), ("=1 2,", ""), ("=", ""), ("=1 ", ""), ("=@", ""), ("\"=\"\"", "\""), ("\"=\"\"", "\"\" 1\""), ("\"=f(1 ", ")\""), ("\"=f(", "\""),
                    ("fn f(a) 1\n---\n=f(1, ", ")"), ("fn f(a) 1\n---\n\"=f(1, ", ")\""), ("x := 1 ", "\n---\n"), ("x := @", "\n---\n"), ("x := \"", "\n---\n"), ("x := \"", "\" 1\n---\n"), ("", " 1\n---\n"), ("# ", "\nx\n---\n"),
                    ("", " := 1 fn f(", ), ("fn ", "\n---\n"), ("fn f(a ", ") 1\n---\n"), ("use ", "\n---\nx"), ("[[", "=1]]x"), ("[[", "]]x"), ("[[t=", "]]x"), ("[[n='", "]]x"), ("[[n='", "']]x"), ("[[n='", "'/q]]x"),
                    ("[[c=#", "]]x"), ("[[c=", "]]x"), ("[[fs=", "]]x"), ("[[ff='", "']]x"), ("[[dv=", "]]x"), ("[[dv=custom(", ")]]x"), ("\"[[dv=custom(1, ", ")]]x\""), ("[[dv=date_before(", ")]]x"), ("[[dv=number_gt(", ")]]x"),
                    ("\"[[dv=in_list('", "')]]x\""), ("[[dv=in_range(", ")]]x"), ("[[var=", "]]x,=b"), ("![[", "]]x"), ("x,![[", "]]y"), ("![[f=", "]]x"), ("[[t=b]]", "[[t=b]]"), ("", " := ", ), ("a := b\nb := a\n", "---\n=a"),
                    ("[[var=", "]]x\n=)"), ("=-", "%"), ("=A1:", ""), ("=", "!A1"), ("=", "(1 2)"), ("=", "%"), ("=\"", "\"%"),
                ] {
                    if ctx.mine() {
                        ctx.case(|| format!("{a:?} {t:?} {b:?}"), |c| check(c, &format!("{a}{t}{b}")));
                    } else {
                        ctx.skip(1);
                    }
                }
            }
        }
    }
    // 5. sources cut anywhere
    for p in SOURCES {
        let cs: Vec<char> = p.chars().collect();
        for i in 0..=cs.len() {
            for j in i..=cs.len().min(i + ctx.bound(3, 12)) {
                // a piece left out, another character in its place
                for r in ["", "é", "\"", "]", "(", "\n"] {
                    let s: String = cs[..i].iter().collect::<String>() + r + &cs[j..].iter().collect::<String>();
                    case(ctx, s);
                }
            }
            case(ctx, cs[..i].iter().collect());
            case(ctx, cs[i..].iter().collect());
        }
    }
}

const SOURCES: [&str; 5] = [
    "use m\nx := 1 + \"é\"\nfn f(a, b) a * -b % + x\n---\n![[t=bold/f=2]]a,\"[[n='ö\\'s'/v=c]]=f(1, c)\"\n=c & x,[[b=all/c=#ff0000]]y\n",
    "é,\\\n  \"a\"\"b\",[[dv=in_list(1, 'é', true)/ha=center]]z\n# c\n![[fill/var=r]]=r,[[var=s]]=s^2\n=sum(s)\n",
    "a := (b(1, 2,) <> 3)\n  ---  \n\"[[validate=date_between(1/2/2020, 2020-02-03)]]\",[[nf=currency/fs=12/ff='Fira Sans']]1\r\nx,\"y\nz\",=A1:B2\n",
    "---\n[[border=top/border=left/borderstyle=dashed/bc=#aabbcc]]a,[[l/w=clip/va=top]]b\n![[c=#fff]]=TRUE,=A$1 = $B2,=\"x\" & 'y'\n",
    "b := 1\n\n\nuse m use m fn g() b\n---\n=g()=g(),=1,[[dv=custom('x')]]=g(2)\n",
];

pub fn prop() -> Prop {
    Prop {
        id: "C13",
        level: "model_checking",
        rule: "every word of characters and of the tokens of each sub-language in each place of a source file, every token repeated very often, sources with a piece cut out or replaced anywhere; each must compile or be rejected with a message",
        bounds: |t| {
            if t == Tier::Quick {
                "32 characters: words up to 3 in 4 places, up to 2 in 11; tokens: words up to 3 in 11 places; 31 options x words of 26 pieces up to 2; 30 validations x words of 17 pieces up to 3; repetitions up to 20000; 4 kinds of long texts x 6 lengths x 4 offsets x 52 places; 5 sources with up to 3 characters replaced".into()
            } else {
                "32 characters: words up to 4 in 4 places, up to 3 in 11; tokens: words up to 4 in 11 places; 31 options x words of 26 pieces up to 3; 30 validations x words of 17 pieces up to 4; repetitions up to 200000; 4 kinds of long texts x 6 lengths x 4 offsets x 52 places; 5 sources with up to 12 characters replaced".into()
            }
        },
        run,
        hang_s: 40,
        workers: 0,
        assumptions: &["a compile that takes longer than 40 s counts as a hang"],
    }
}

//! C02 (second half): where the compiler says an error is. Every kind of rejected text, in every
//! context which moves it around in the file; the reported position has to be that of a character of the
//! offending text, the quoted line that line of the file, and the cell the one it's written in.
use crate::c01::{reference, RefResult};
use crate::rt::{CaseResult, Ctx, Fail, Outcome};
use crate::util::{compile_src, error_at, product};

/// a source being put together, with the offending characters marked
#[derive(Clone, Default)]
struct Marked {
    text: String,
    marks: Vec<bool>,
}
impl Marked {
    fn push(&mut self, c: char, m: bool) {
        self.text.push(c);
        self.marks.push(m);
    }
    fn add(&mut self, s: &str) {
        s.chars().for_each(|c| self.push(c, false));
    }
    /// the same with Windows line ends
    fn crlf(&self) -> Marked {
        let mut m = Marked::default();
        for (c, k) in self.text.chars().zip(&self.marks) {
            if c == '\n' {
                m.push('\r', *k);
            }
            m.push(c, *k);
        }
        m
    }
    /// (line, column) of the marked characters
    fn positions(&self) -> Vec<(usize, usize)> {
        let (mut l, mut o, mut out) = (0, 0, vec![]);
        for (c, m) in self.text.chars().zip(&self.marks) {
            if *m {
                out.push((l, o));
            }
            if c == '\n' {
                l += 1;
                o = 0;
            } else {
                o += 1;
            }
        }
        out
    }
}

/// `«` and `»` surround the offending text; `»$` at the end says that the end itself is, so that the
/// position after it will do too
struct Snippet {
    chars: Vec<(char, bool)>,
    end: bool,
}
fn snippet(s: &str) -> Snippet {
    let (mut chars, mut m, mut end) = (vec![], false, false);
    let (s, e) = s.strip_suffix("»$").map_or((s, false), |s| (s, true));
    end |= e;
    for c in s.chars() {
        match c {
            '«' => m = true,
            '»' => m = false,
            c => chars.push((c, m)),
        }
    }
    Snippet { chars, end }
}

const FORMULAS: [&str; 26] = [
    "=1 «2»", "=(1 + «2»$", "=1 + «)»", "=1 + «*»", "=«'»", "=«\"abc»", "=1 + f(1, 2«,»$", "=1 & «&» 2", "=«)»", "=a «b» c", "=1 + 2«)»", "=f(1 «2»)", "=1.«.2»", "=é«@»", "=«@»", "=«{»1}", "=1 «?» 2",
    "=«99999999999999999999»", "=1.5«.2»", "=1 - «-»$", "=«%»", "=1 % «%» 2", "=(1«,»2)", "=\"é,\"\" \" & \"ß\" «\"x\"»", "=(\"é\" «b»)", "=A1«:»",
];
const OPTIONS: [&str; 38] = [
    "[[«bogus»=1]]x", "[[text=«wat»]]x", "[[text=«]]»x", "[[text«]]»x", "[[«=b]]»x", "[[«bold»]]x", "[[text=bol«d»$", "[[text=bold«]»", "[[text=bold/«]]»x", "[[color=«zzz»]]x", "[[border=«x»]]x", "[[fontsize=«abc»]]x",
    "[[fontsize=«300»]]x", "[[halign=«x»]]x", "[[numberformat=«x»]]x", "[[nf=«]]»x", "[[note=«'abc]]x»", "[[note=«]]»x", "[[var=«'x'»]]x", "[[var=«]]»x", "[[lock«=»1]]x", "[[«fill»]]x", "[[«fill»=1]]x", "[[bc=«#12]]»x",
    "[[bc=«#gggggg»]]x", "[[bs=«x»]]x", "[[wrap=«x»]]x", "[[fontfamily=a b«]]»x", "[[text=bold]]«[[»text=italic]]x", "[[validate=custom(«)»]]x", "[[validate=custom(1«,»2)]]x", "[[validate=«bogus»]]x",
    "[[validate=number_eq(«a»)]]x", "[[validate=date_between(1/2/2020«)»]]x", "[[validate=date_before(«13/45/99»)]]x", "[[validate=in_list(«)»]]x", "[[validate=number_between(1«,» 2, 3)]]x", "[[validate=custom(«1»$",
];
/// only where it's not the first cell
const LATER: [&str; 3] = ["«![[»fill=1]]y", "«![[»text=bold]]=1", "«![[»"];
/// only where it is
const FIRST: [&str; 5] = ["![[«bogus»]]y", "![[text=«wat»]]=1", "![[fill=«x»]]y", "![[text=bold]][[text=«wat»]]x", "![[fill=1]]=1 «2»"];
/// offending text between the fields
const STRAY: [&str; 5] = ["\"a\"«b»", "\"a\" «b»", "\"é,\"\"\n\"«é»", "\"x\" \t«=»1", "\"p\" «#»"];

const CODES: [&str; 8] = [
    "", "---\n", "a := 1\n---\n", "# \"é\n\nfn f(a, b)\n  a\n\n---\n", "v := \"a\nb\"\n---\n", "é := \"\\\n\"\n---\n",
    "a := 1\n\n\nb := 2\n\n\nc := 3\n\n\nd := 4\n\n---\n", "\n \n---\n\n# d\n",
];
const ABOVE: [&str; 9] = ["", "a,b\n", "# c\n", "\"m\nn\",o\n", "p\\\nq\n", "x\n# d, \"e\n\n", ",,\n", "é,\"ß\n\n\"\"\"\n", "[[t=b]]u,=1 + 2,![\n"];
const LEFT: [&str; 13] =
    ["", "x,", "é,", "\"a,\"\"b\",", "\"p\nq\",", "k\\\nl,", ",", "  , ,", "=1 + 2,", "\"=\"\"é\"\"\",", "[[note='ü']]z,", " \\\n \\\n m,", "\"n\" ,\"o\\\n\","];
const AFTER: [&str; 5] = ["", ",y", "\nz", ",\"q\nr\"\n# c\n", " \t\n\n"];
const WRAPS: usize = 9;

fn plain(s: &Snippet) -> bool {
    s.chars[0].0 != '"' && !s.chars.iter().any(|c| matches!(c.0, ',' | '\n'))
}

/// the content as a field, none if it can't be written this way
fn field(m: &mut Marked, s: &Snippet, pre: &str, wrap: usize, split: Option<usize>) -> bool {
    let mut content: Vec<(char, bool)> = pre.chars().map(|c| (c, false)).collect();
    let mut own = s.chars.clone();
    if pre.ends_with('/') {
        // more options in the same brackets
        own.drain(..2);
    }
    content.extend(own);
    let quoted = match wrap {
        0 => false,
        1 => true,
        2 => {
            m.add("  ");
            false
        }
        3 => {
            m.add(" \t");
            true
        }
        4 => {
            m.add("\\\n");
            false
        }
        5 => {
            m.add(" \\\n  \\\n ");
            false
        }
        6 => {
            m.add("\\\n");
            true
        }
        7 => {
            // on lines of its own
            if content[0].0 != '=' {
                return false;
            }
            content.iter_mut().for_each(|c| {
                if c.0 == ' ' && !c.1 {
                    c.0 = '\n';
                }
            });
            true
        }
        _ => {
            // blanks within the quotes
            m.add("\"\n ");
            for c in &content {
                if c.0 == '"' {
                    m.push('"', c.1);
                }
                m.push(c.0, c.1);
            }
            m.add("\"");
            return split.is_none();
        }
    };
    if quoted {
        if split.is_some() {
            return false;
        }
        m.add("\"");
        for c in &content {
            if c.0 == '"' {
                m.push('"', c.1);
            }
            m.push(c.0, c.1);
        }
        m.add("\"");
    } else {
        if !plain(&Snippet { chars: content.clone(), end: false }) {
            return false;
        }
        for (i, c) in content.iter().enumerate() {
            m.push(c.0, c.1);
            if split == Some(i) {
                m.add("\\\n");
            }
        }
        if split.is_some_and(|k| k + 1 >= content.len()) {
            return false;
        }
    }
    true
}

/// `cells` is where the cell section starts; none for an error in the code section
fn check(ctx: &Ctx, src: &Marked, end: bool, cells: Option<usize>) -> CaseResult {
    let e = match compile_src(&ctx.scratch, &src.text, &[]) {
        Ok(_) => return Err(Fail::new(format!("{:?} is accepted", src.text))),
        Err(e) => e,
    };
    let o = judge(&e, src, end, cells)?;
    if !src.text.contains('\n') {
        return Ok(o);
    }
    let w = src.crlf();
    match compile_src(&ctx.scratch, &w.text, &[]) {
        Ok(_) => Err(Fail::new(format!("{:?} is accepted", w.text))),
        // (which cell it is was seen above)
        Err(e) => judge(&e, &w, end, None).map(|_| o),
    }
}

fn judge(e: &csvpp::Error, src: &Marked, end: bool, cells: Option<usize>) -> CaseResult {
    let Some(at) = error_at(e) else {
        return Err(Fail::new(format!("{:?}: the error has no position: {e}", src.text)));
    };
    let mut ok = src.positions();
    if end {
        let (l, o) = *ok.last().unwrap();
        ok.push((l, o + 1));
    }
    if !ok.contains(&at.at) {
        return Err(Fail::new(format!("{:?}: the error is reported at line {} column {} (from 0), it is at {ok:?}: {e}", src.text, at.at.0, at.at.1)));
    }
    at.quoted(&src.text)?;
    if let (Some(cells), csvpp::Error::CellSyntaxError { .. }) = (cells, e) {
        // the cell's name in the message
        let above = src.text[..cells].matches('\n').count();
        let RefResult::Rows(rows) = reference(&src.text[cells..], ',', true) else {
            return Err(Fail::new(format!("{:?}: MACHINERY: no rows", src.text)));
        };
        let m: Vec<_> = src.positions().iter().map(|p| (p.0 - above, p.1)).collect();
        let place = rows.iter().enumerate().find_map(|(y, r)| r.iter().position(|f| f.pos.iter().any(|p| m.contains(p))).map(|x| (x, y)));
        let Some((x, y)) = place else {
            return Err(Fail::new(format!("{:?}: MACHINERY: no cell", src.text)));
        };
        let want = format!("in cell {}{} of", char::from(b'A' + x as u8), y + 1);
        if !at.shown.contains(&want) {
            return Err(Fail::new(format!("{:?}: the message does not say {want:?}: {e}", src.text)));
        }
    }
    Ok(Outcome::of(&(at.at, ok.len())))
}

struct Place<'a> {
    code: &'a str,
    above: &'a str,
    left: &'a str,
    after: &'a str,
}

fn source(p: &Place, s: &Snippet, pre: &str, wrap: usize, split: Option<usize>, raw: bool) -> Option<Marked> {
    let mut m = Marked::default();
    m.add(p.code);
    m.add(p.above);
    m.add(p.left);
    if raw {
        s.chars.iter().for_each(|c| m.push(c.0, c.1));
    } else if !field(&mut m, s, pre, wrap, split) {
        return None;
    }
    m.add(p.after);
    Some(m)
}

fn one(ctx: &mut Ctx, p: &Place, text: &str, pre: &str, wrap: usize, split: Option<usize>, raw: bool) {
    if !ctx.mine() {
        ctx.skip(1);
        return;
    }
    let s = snippet(text);
    let Some(m) = source(p, &s, pre, wrap, split, raw) else {
        ctx.skip(1);
        return;
    };
    ctx.case(
        || format!("{:?}", m.text),
        |c| {
            c.transitions += 1;
            check(c, &m, s.end, Some(p.code.len()))
        },
    );
}

fn prefixes(text: &str) -> &'static [&'static str] {
    if text.starts_with('=') {
        &["", "[[text=bold]]", "[[note='é, \"'/v=q]]"]
    } else if text.starts_with("[[") {
        &["", "[[t=b/", "[[note='ß \"'/l/"]
    } else {
        &[""]
    }
}

const CODE_SNIPPETS: [&str; 45] = [
    "a := «)»", "a := 1 «+»$", "a «:=»$", "«a»$", "a «b»", "«fn»$", "fn «f»$", "fn f«(»$", "fn f(«a»$", "fn f(a «b») 1", "fn f(«1») 1", "fn f(«)»$", "fn «(»a) 1", "«use»$", "«1»", "a «=» 1", "a := «\"x»",
    "a := «'»x'", "«@»", "a := «@»", "a := 1 «2»", "a := f(1 «2»)", "a := («1»$", "fn f(a) a «:=» 2", "a := «99999999999999999999»", "use «use»", "a := 1 «b»$", "a := f(1«,»$", "fn «1»() 2", "a := «%»",
    "a := 1 % «%»", "«:=» 1", "a := b «:=»", "a := 1 +\nz «:=» 2", "a\n«z» := 2", "fn\nz «:=» 2", "fn f\n  «z» := 2", "fn f(\nz «:=» 2", "fn f(a,\n# c\n  b\n  «c») 1", "a := (1\n«z» := 2", "a := f(1,\n # c\n   )«)»",
    "a := \"é\" & «&» 2", "fn f(é, «\"é\"») 1", "a := \"p\nq\" «)»", "a := \"\"\"é\"\"\" «b2»$",
];
const BEFORE: [&str; 8] = ["", "# c \"\n", "\n\n", "é := \"é,\"\n", "fn g(a,\n  b)\n a\n", "q := \"é\" ", "q := \"p\nq\" ", "  \t"];

fn code(ctx: &mut Ctx, sn: &str, before: &str, after: &str, imported: bool) {
    if !ctx.mine() {
        ctx.skip(1);
        return;
    }
    let s = snippet(sn);
    let mut m = Marked::default();
    m.add(before);
    s.chars.iter().for_each(|c| m.push(c.0, c.1));
    m.add(after);
    ctx.case(
        || format!("{:?} imported={imported}", m.text),
        |c| {
            c.transitions += 1;
            if !imported {
                return check(c, &m, s.end, None);
            }
            crate::util::write(&c.scratch.join("imp.csvpp"), &m.text);
            let r = compile_src(&c.scratch, "\n\n\n\nuse imp\n---\nx\n", &[]);
            let _ = std::fs::remove_file(c.scratch.join("imp.csvpp"));
            match r {
                Ok(_) => Err(Fail::new(format!("{:?} is accepted as an import", m.text))),
                Err(csvpp::Error::ModuleLoadErrors(es)) if es.len() == 1 => {
                    let e = es.values().next().unwrap();
                    if !e.to_string().contains("imp.csvpp") {
                        return Err(Fail::new(format!("{:?}: the error does not name the file: {e}", m.text)));
                    }
                    judge(e, &m, s.end, None)
                }
                Err(e) => judge(&e, &m, s.end, None),
            }
        },
    );
}

pub fn explore(ctx: &mut Ctx) {
    let all: Vec<&str> = FORMULAS.iter().chain(&OPTIONS).copied().collect();
    // 1. every rejected text, however it's written
    let mut places: Vec<(usize, usize)> = vec![(1, 0), (3, 7)];
    if !ctx.quick() {
        places = (0..CODES.len()).flat_map(|c| (0..ABOVE.len()).map(move |a| (c, a))).collect();
    }
    for s in all.iter().chain(&LATER).chain(&FIRST) {
        let len = snippet(s).chars.len();
        for pre in prefixes(s) {
            for (l, left) in LEFT.into_iter().enumerate() {
                if FIRST.contains(s) && !left.is_empty() || LATER.contains(s) && left.is_empty() {
                    continue;
                }
                for &(c, a) in &places {
                    let p = Place { code: CODES[c], above: ABOVE[a], left, after: if c == 1 { "" } else { ",y\nz" } };
                    for w in 0..WRAPS {
                        one(ctx, &p, s, pre, w, None, false);
                    }
                    if ctx.quick() && !matches!(l, 0 | 4 | 10) {
                        continue;
                    }
                    for k in 0..len + pre.len() {
                        one(ctx, &p, s, pre, 0, Some(k), false);
                    }
                }
            }
        }
    }
    // 2. some of each kind, in all surroundings
    for s in ["=1 «2»", "=«\"abc»", "=(1 + «2»$", "[[text=«wat»]]x", "[[text=bol«d»$", "[[note=«'abc]]x»", "[[validate=custom(1«,»2)]]x"] {
        let after = if ctx.quick() { &AFTER[2..4] } else { &AFTER[..] };
        product(&[CODES.len(), ABOVE.len(), LEFT.len(), after.len(), WRAPS], &mut |i| {
            if ctx.quick() && i[0] + i[1] > 8 {
                return;
            }
            let p = Place { code: CODES[i[0]], above: ABOVE[i[1]], left: LEFT[i[2]], after: after[i[3]] };
            one(ctx, &p, s, "", i[4], None, false);
        });
    }
    for s in STRAY {
        product(&[CODES.len(), ABOVE.len(), LEFT.len(), AFTER.len()], &mut |i| {
            let p = Place { code: CODES[i[0]], above: ABOVE[i[1]], left: LEFT[i[2]], after: AFTER[i[3]] };
            one(ctx, &p, s, "", 0, None, true);
        });
    }
    let quick = ctx.quick();
    // 3. far into the file, and far into the line
    let sizes: &[usize] = if quick { &[1, 8, 9, 10, 97, 98, 99, 100, 256, 1000, 65_536] } else { &[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 96, 97, 98, 99, 100, 101, 102, 254, 255, 256, 257, 996, 998, 999, 1000, 1001, 9_998, 10_000, 65_535, 65_536] };
    for s in ["=1 «2»", "[[text=«wat»]]x", "=(1 + «2»$"] {
        for &n in sizes {
            let lines = n.min(if quick { 120 } else { 2000 });
            for (code, above, left) in [
                (format!("{}---\n", "a := 1\n".repeat(lines.min(300))), String::new(), String::new()),
                (format!("{}---\n", "\n".repeat(lines)), String::new(), String::new()),
                (String::new(), "x,y\n".repeat(lines), String::new()),
                (String::new(), "# x\n".repeat(lines), "é,".to_string()),
                (String::new(), format!("\"{}\"\n", "\n".repeat(lines)), String::new()),
                (String::new(), "a\\\n".repeat(lines) + "\n", String::new()),
                ("---\n".into(), String::new(), format!("\"{}\",", "y".repeat(n))),
                (String::new(), String::new(), format!("{},", "é".repeat(n))),
                (String::new(), String::new(), " ".repeat(n)),
                ("---\n".into(), String::new(), "\"\n\",".repeat(n.min(20))),
                (String::new(), String::new(), "\\\n".repeat(lines)),
                (String::new(), "é\n".repeat(lines), ",".repeat(n.min(20))),
            ] {
                for after in ["", "\nz", &",\"é\n\"\n".repeat(20)] {
                    for w in [0, 1] {
                        let p = Place { code: &code, above: &above, left: &left, after };
                        one(ctx, &p, s, "", w, None, false);
                    }
                }
            }
        }
    }
    // 4. the code section, of the main module and of an imported one
    for s in CODE_SNIPPETS {
        for imported in [false, true] {
            let ends: &[&str] = if s.contains("\"x»") { &["\n---\nx\n"] } else { &["\n---\nx\n", "\n# c\n\n---\n=1\n", "\n---"] };
            let n = snippet(s);
            for after in ends {
                for b in BEFORE {
                    for b2 in BEFORE {
                        if n.end && after.contains('#') {
                            continue;
                        }
                        let before = format!("{b}{b2}");
                        code(ctx, s, &before, after, imported);
                    }
                }
                if n.end && after.contains('#') {
                    continue;
                }
                for &k in sizes.iter().filter(|k| if quick { matches!(**k, 8 | 98 | 256) } else { **k <= 1000 }) {
                    code(ctx, s, &"\n".repeat(k.min(if quick { 100 } else { 1000 })), after, imported);
                    code(ctx, s, &"v := \"é\"\n".repeat(k.min(if quick { 98 } else { 300 })), after, imported);
                    code(ctx, s, &" ".repeat(k), after, imported);
                    code(ctx, s, &format!("v := \"{}\" ", "é".repeat(k)), after, imported);
                }
            }
        }
    }
}

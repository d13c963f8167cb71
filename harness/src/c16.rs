//! C16: what is written to Excel workbooks. C19: CSV and Excel say the same.
use crate::c15::{read_csv, writer};
use crate::options::{self, Attrs};
use crate::rt::{CaseResult, Ctx, Fail, Outcome, Prop, Tier};
use crate::util::*;
use csvpp::{CliArgs, Compiler, Module};
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;
use umya_spreadsheet as u;

type Pos = (u32, u32);
type Look = BTreeMap<&'static str, String>;

#[derive(Clone, Debug, Default, PartialEq, Hash)]
pub struct X {
    /// the value with its type in front, empty when there is none
    pub val: String,
    pub look: Look,
}
#[derive(Clone, Debug, Default, PartialEq, Hash)]
pub struct Tab {
    pub name: String,
    pub cells: BTreeMap<Pos, X>,
    pub notes: BTreeMap<Pos, Vec<String>>,
    pub rules: BTreeSet<(String, String)>,
}
pub type Book = Vec<Tab>;

pub fn a1(p: Pos) -> String {
    let mut c = p.0;
    let mut s = String::new();
    while c > 0 {
        s.insert(0, (b'A' + ((c - 1) % 26) as u8) as char);
        c = (c - 1) / 26;
    }
    format!("{s}{}", p.1)
}

fn look(s: &u::Style) -> Look {
    let mut l = Look::new();
    if let Some(f) = s.get_font() {
        for (k, b) in [("bold", *f.get_bold()), ("italic", *f.get_italic()), ("strike", *f.get_strikethrough())] {
            if b {
                l.insert(k, "yes".into());
            }
        }
        let line = format!("{:?}", f.get_font_underline().get_val()).to_lowercase();
        if line != "none" {
            l.insert("underline", line);
        }
        l.insert("size", f.get_size().to_string());
        l.insert("family", f.get_name().into());
        l.insert("font color", f.get_color().get_argb().into());
    }
    if let Some(c) = s.get_background_color() {
        l.insert("fill", c.get_argb().into());
    }
    if let Some(b) = s.get_borders() {
        for (k, b) in [("left", b.get_left()), ("right", b.get_right()), ("top", b.get_top()), ("bottom", b.get_bottom())] {
            if b.get_border_style() != "none" {
                l.insert(k, format!("{} {}", b.get_border_style(), b.get_color().get_argb()));
            }
        }
    }
    if let Some(a) = s.get_alignment() {
        l.insert("h", format!("{:?}", a.get_horizontal()));
        l.insert("v", format!("{:?}", a.get_vertical()));
        l.insert("wrap", a.get_wrap_text().to_string());
    }
    if let Some(n) = s.get_number_format() {
        l.insert("format", format_kind(n.get_format_code()));
    }
    l
}

/// the documented number format a code is for
fn format_kind(code: &str) -> String {
    let has = |cs: &str| code.chars().any(|c| cs.contains(c));
    match () {
        () if code == "@" => "Text",
        () if has("%") => "Percent",
        () if code.contains("E+") => "Scientific",
        () if has("$") => "Currency",
        () if has("yY") && has("hH") => "DateTime",
        () if has("hH") => "Time",
        () if has("yY") && has("mM") && has("dD") => "Date",
        () if has("0") => "Number",
        () => return format!("code {code}"),
    }
    .into()
}

fn number(t: &str) -> Option<f64> {
    let (t, p) = match t.strip_suffix('%') {
        Some(t) => (t, 100.0),
        None => (t, 1.0),
    };
    let (t, s) = match t.strip_prefix('-') {
        Some(t) => (t, -1.0),
        None => (t.strip_prefix('+').unwrap_or(t), 1.0),
    };
    if !t.starts_with(|c: char| c.is_ascii_digit()) {
        return None;
    }
    t.parse::<f64>().ok().map(|f| s * f / p)
}
/// a formula which is just a number is that number
fn formula(f: &str) -> String {
    if f.eq_ignore_ascii_case("true") || f.eq_ignore_ascii_case("false") {
        return format!("b:{}", f.eq_ignore_ascii_case("true"));
    }
    number(f).map_or_else(|| format!("f:{f}"), |n| format!("n:{n}"))
}

fn value(c: &u::Cell) -> String {
    if c.is_formula() {
        return formula(c.get_formula());
    }
    let v = c.get_value();
    match c.get_data_type() {
        "n" if v.is_empty() => String::new(),
        "n" => format!("n:{}", v.parse::<f64>().map_or_else(|_| format!("?{v}"), |f| f.to_string())),
        "b" => format!("b:{}", v.eq_ignore_ascii_case("true") || v == "1"),
        "s" | "str" if v.is_empty() => String::new(),
        "s" | "str" => format!("s:{v}"),
        "" => String::new(),
        o => format!("{o}:{v}"),
    }
}

pub fn read_book(f: &Path) -> Result<Book, Fail> {
    let mut b = crate::rt::guarded(|| u::reader::xlsx::read(f))
        .map_err(|e| Fail::new(format!("reading the workbook panics: {e}")))?
        .map_err(|e| Fail::new(format!("the workbook can't be read: {e:?}")))?;
    b.read_sheet_collection();
    let mut out = vec![];
    for w in b.get_sheet_collection() {
        let mut t = Tab { name: w.get_name().to_string(), ..Tab::default() };
        for c in w.get_cell_collection() {
            let p = (*c.get_coordinate().get_col_num(), *c.get_coordinate().get_row_num());
            t.cells.insert(p, X { val: value(c), look: look(c.get_style()) });
        }
        for c in w.get_comments() {
            let p = (*c.get_coordinate().get_col_num(), *c.get_coordinate().get_row_num());
            let text: String = c.get_text().get_text().to_string();
            t.notes.entry(p).or_default().push(text);
        }
        if let Some(v) = w.get_data_validations() {
            for v in v.get_data_validation_list() {
                let at = v.get_sequence_of_references().get_sqref();
                let first = if format!("{:?}", v.get_type()) == "List" { options::shown_range(v.get_formula1()) } else { v.get_formula1().to_string() };
                t.rules.insert((at, format!("{:?} {:?} {} | {}", v.get_type(), v.get_operator(), clean(&first), clean(v.get_formula2()))));
            }
        }
        out.push(t);
    }
    Ok(out)
}
/// formulas of rules, without the leading sign and spaces outside of texts
fn clean(f: &str) -> String {
    let mut quoted = false;
    f.strip_prefix('=')
        .unwrap_or(f)
        .chars()
        .filter(|c| {
            if *c == '"' {
                quoted = !quoted;
            }
            quoted || *c != ' '
        })
        .collect()
}

/// how a cell with these options has to look
fn expected_look(a: &Attrs) -> Look {
    let mut l = Look::new();
    let rgb = |k: &str| {
        a.get(k).map(|v| {
            let n: Vec<u8> = v.split(|c: char| !c.is_ascii_digit()).filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
            format!("FF{:02X}{:02X}{:02X}", n[0], n[1], n[2])
        })
    };
    let has = |k: &str, v: &str| a.get(k).is_some_and(|x| x.contains(&format!("\"{v}\"")));
    for (o, k, v) in [("Bold", "bold", "yes"), ("Italic", "italic", "yes"), ("Strikethrough", "strike", "yes"), ("Underline", "underline", "single")] {
        if has("text", o) {
            l.insert(k, v.into());
        }
    }
    if let Some(s) = a.get("fontsize") {
        l.insert("size", s.clone());
    }
    if let Some(s) = a.get("fontfamily") {
        l.insert("family", s.clone());
    }
    if let Some(c) = rgb("fontcolor") {
        l.insert("font color", c);
    }
    if let Some(c) = rgb("color") {
        l.insert("fill", c);
    }
    let style = match a["borderstyle"].as_str() {
        "Dashed" => "dashed",
        "Dotted" => "dotted",
        "Double" => "double",
        "Solid" => "thin",
        "SolidMedium" => "medium",
        "SolidThick" => "thick",
        o => panic!("{o}"),
    };
    for (o, k) in [("Left", "left"), ("Right", "right"), ("Top", "top"), ("Bottom", "bottom")] {
        if has("border", o) || has("border", "All") {
            l.insert(k, format!("{style} {}", rgb("bordercolor").unwrap_or_default()));
        }
    }
    l.insert("h", a["halign"].clone());
    l.insert("v", a["valign"].clone());
    l.insert("wrap", (a["wrap"] == "Wrap").to_string());
    l.insert("format", a["numberformat"].clone());
    l
}

/// the rule for a validation
fn expected_rule(v: &str, at: &str) -> String {
    let (what, args) = v.split_once('(').map_or((v, ""), |(w, a)| (w, a.strip_suffix(')').unwrap()));
    let dates: Vec<i64> = args
        .split("Date(")
        .skip(1)
        .map(|s| {
            let n: Vec<i64> = s[..10].split('-').map(|x| x.parse().unwrap()).collect();
            serial(n[0], n[1], n[2])
        })
        .collect();
    let nums: Vec<&str> = args.split(", ").collect();
    let text = || args[1..args.len() - 1].replace("\\\"", "\"");
    let literal = || text().replace('"', "\"\"");
    let d = |op: &str| match dates.len() {
        1 => format!("Date {op} {} | ", dates[0]),
        _ => format!("Date {op} {} | {}", dates[0], dates[1]),
    };
    let n = |op: &str| match nums.len() {
        1 => format!("Decimal {op} {} | ", nums[0]),
        _ => format!("Decimal {op} {} | {}", nums[0], nums[1]),
    };
    let custom = |f: String| format!("Custom ? {} | ", clean(&f));
    match what {
        "Custom" => custom(text()),
        "DateAfter" => d("GreaterThan"),
        "DateBefore" => d("LessThan"),
        "DateBetween" => d("Between"),
        "DateEqualTo" => d("Equal"),
        "DateIsValid" => custom(format!("ISNUMBER(DAY({at}))")),
        "DateNotBetween" => d("NotBetween"),
        "DateOnOrAfter" => d("GreaterThanOrEqual"),
        "DateOnOrBefore" => d("LessThanOrEqual"),
        "NumberBetween" => n("Between"),
        "NumberEqualTo" => n("Equal"),
        "NumberGreaterThan" => n("GreaterThan"),
        "NumberGreaterThanOrEqualTo" => n("GreaterThanOrEqual"),
        "NumberLessThan" => n("LessThan"),
        "NumberLessThanOrEqualTo" => n("LessThanOrEqual"),
        "NumberNotBetween" => n("NotBetween"),
        "NumberNotEqualTo" => n("NotEqual"),
        "TextContains" => custom(format!("ISNUMBER(SEARCH(\"{}\",{at}))", literal())),
        "TextDoesNotContain" => custom(format!("NOT(ISNUMBER(SEARCH(\"{}\",{at})))", literal())),
        "TextEqualTo" => custom(format!("{at}=\"{}\"", literal())),
        "TextIsValidEmail" => custom(format!("ISNUMBER(MATCH(\"*@*.?*\",{at},0))")),
        "TextIsValidUrl" => custom(format!("RegExpMatch({at},\"^http\")")),
        "ValueInList" => {
            let items: Vec<&str> = args.split(';').map(|i| i.strip_prefix(['R', 'T', 'D']).unwrap_or(i)).collect();
            let items: Vec<String> = items.iter().map(|i| i.replace('"', "\"\"")).collect();
            format!("List ? \"{}\" | ", items.join(", "))
        }
        "ValueInRange" => format!("List ? {} | ", clean(args)),
        o => panic!("{o}"),
    }
}
/// days since 1899-12-30, the serial number of a date (one less before March 1900)
fn serial(y: i64, m: i64, d: i64) -> i64 {
    let (y2, m2) = if m <= 2 { (y - 1, m + 9) } else { (y, m - 3) };
    let days = |y: i64, m: i64, d: i64| 365 * y + y.div_euclid(4) - y.div_euclid(100) + y.div_euclid(400) + (m * 306 + 5) / 10 + d - 1;
    let n = days(y2, m2, d) - days(1899, 9, 30);
    if n < 61 {
        n - 1
    } else {
        n
    }
}

/// compares one cell; Err(true) for the listed finding about colours
fn same_look(got: &Look, want: &Look, at: Pos, known: &mut Option<Fail>) -> Result<(), Fail> {
    for k in ["bold", "italic", "strike", "underline", "size", "family", "font color", "fill", "left", "right", "top", "bottom", "h", "v", "wrap", "format"] {
        let (g, w) = (got.get(k), want.get(k));
        if g == w {
            continue;
        }
        // (what a font that has only some attributes leaves open)
        if w.is_none() && matches!(k, "size" | "family" | "font color") {
            continue;
        }
        if let (Some(g), Some(w)) = (g, w) {
            if matches!(k, "fill" | "font color") && *g == format!("{}FF", &w[2..]) {
                *known = Some(Fail::keyed("colour-stored-as-rgba", format!("{k} of {} is stored as {g}, not as {w}", a1(at))));
                continue;
            }
        }
        return Err(Fail::new(format!("{k} of {} is {g:?} but should be {w:?}", a1(at))));
    }
    Ok(())
}

/// a compiled cell as the source asks for it
#[derive(Clone, Debug)]
pub struct New {
    pub val: String,
    pub attrs: Attrs,
}
impl New {
    fn plain(v: &str) -> Self {
        Self { val: v.to_string(), attrs: options::defaults() }
    }
}

pub struct Job<'a> {
    pub tab: &'a str,
    pub x: u32,
    pub y: u32,
    pub safe: bool,
    pub cells: &'a [Vec<New>],
}

/// checks `after` against `before` with the sheet written over it
pub fn compare(before: &Book, after: &Book, j: &Job, known: &mut Option<Fail>) -> Result<(), Fail> {
    let fail = |m: String| Err(Fail::new(m));
    let names = |b: &Book| b.iter().map(|t| t.name.clone()).collect::<Vec<_>>();
    let mut want_names = names(before);
    if !want_names.iter().any(|n| n == j.tab) {
        want_names.push(j.tab.to_string());
    }
    if names(after) != want_names {
        return fail(format!("the worksheets are {:?}, not {want_names:?}", names(after)));
    }
    let empty = Tab::default();
    for a in after {
        let b = before.iter().find(|t| t.name == a.name).unwrap_or(&empty);
        if a.name != j.tab {
            if a != b {
                return fail(format!("worksheet {:?} was {b:?} and is {a:?}", a.name));
            }
            continue;
        }
        let mut open: BTreeSet<Pos> = BTreeSet::new();
        let mut notes = b.notes.clone();
        let mut rules = b.rules.clone();
        for (r, row) in j.cells.iter().enumerate() {
            for (c, new) in row.iter().enumerate() {
                let p = (j.x + c as u32 + 1, j.y + r as u32 + 1);
                let none = X::default();
                let old = b.cells.get(&p).unwrap_or(&none);
                if j.safe && !old.val.is_empty() {
                    continue;
                }
                open.insert(p);
                let got = a.cells.get(&p).unwrap_or(&none);
                let val = if new.val.is_empty() { &old.val } else { &new.val };
                if got.val != *val {
                    return fail(format!("{} holds {:?} but should hold {val:?}", a1(p), got.val));
                }
                same_look(&got.look, &expected_look(&new.attrs), p, known)?;
                if let Some(n) = new.attrs.get("note") {
                    notes.insert(p, vec![n.clone()]);
                }
                if let Some(v) = new.attrs.get("validate") {
                    rules.retain(|r| r.0 != a1(p));
                    rules.insert((a1(p), expected_rule(v, &a1(p))));
                } else if a.rules.iter().all(|r| r.0 != a1(p)) {
                    // (whether the rule of a replaced cell stays is open, and so is its note)
                    rules.retain(|r| r.0 != a1(p));
                }
                if !new.attrs.contains_key("note") && !a.notes.contains_key(&p) {
                    notes.remove(&p);
                }
            }
        }
        for p in a.cells.keys().chain(b.cells.keys()) {
            if !open.contains(p) && a.cells.get(p) != b.cells.get(p) {
                // a cell without value and look is no cell
                let none = X::default();
                let (x, y) = (a.cells.get(p).unwrap_or(&none), b.cells.get(p).unwrap_or(&none));
                if x != y {
                    return fail(format!("{} was {y:?} and is {x:?}", a1(*p)));
                }
            }
        }
        if a.notes != notes {
            return fail(format!("the notes are {:?} but should be {notes:?}", a.notes));
        }
        let open_op = |r: &BTreeSet<(String, String)>| {
            r.iter()
                .map(|(at, r)| {
                    // (rules of these types have no operator)
                    let mut w: Vec<&str> = r.splitn(3, ' ').collect();
                    if w[0] == "Custom" || w[0] == "List" {
                        w[1] = "?";
                    }
                    let mut t = w.join(" ");
                    if w[0] == "List" {
                        t = t.replace(", ", ",");
                    }
                    (at.clone(), t)
                })
                .collect::<BTreeSet<_>>()
        };
        if open_op(&a.rules) != open_op(&rules) {
            let (a, w) = (open_op(&a.rules), open_op(&rules));
            return fail(format!("the rules {:?} should be {:?}", a.difference(&w).collect::<Vec<_>>(), w.difference(&a).collect::<Vec<_>>()));
        }
    }
    Ok(())
}

fn excel(dir: &Path, tab: Option<&str>, x: u32, y: u32, safe: bool) -> Compiler {
    Compiler::try_from(&CliArgs {
        input_filename: dir.join("m.csvpp"),
        output_filename: Some(dir.join("out.xlsx")),
        no_cache: true,
        safe,
        sheet_name: tab.map(ToString::to_string),
        x_offset: x,
        y_offset: y,
        ..CliArgs::default()
    })
    .expect("the options are fine")
}

/// writes the module over the file and compares; gives what's in it then
fn write_check(dir: &Path, m: &Module, before: &Book, j: &Job, known: &mut Option<Fail>) -> Result<Book, Fail> {
    let c = excel(dir, Some(j.tab), j.x, j.y, j.safe);
    c.target().and_then(|t| t.write(m)).map_err(|e| Fail::new(format!("the write fails: {e}")))?;
    let after = read_book(&dir.join("out.xlsx"))?;
    compare(before, &after, j, known).map_err(|e| Fail { what: format!("sheet at column {} row {} safe {}: {}", j.x, j.y, j.safe, e.what), ..e })?;
    Ok(after)
}

fn compiled(dir: &Path, rows: &[Vec<String>]) -> Result<Module, Fail> {
    let src: String = rows.iter().map(|r| r.iter().map(|t| cell_field(t)).collect::<Vec<_>>().join(",") + "\n").collect();
    compile_src(dir, &src, &[]).map_err(|e| Fail::new(format!("{} does not compile: {e}", esc(&src))))
}

/// source text and the value it has to get
fn kinds() -> Vec<(&'static str, &'static str)> {
    vec![
        ("abc", "s:abc"),
        ("", ""),
        ("123", "s:123"),
        ("TRUE", "s:TRUE"),
        ("'quoted", "s:'quoted"),
        ("a <&> \"b\" é\nc", "s:a <&> \"b\" é\nc"),
        ("=1 + 2", "f:(1 + 2)"),
        ("=true", "b:true"),
        ("=FALSE", "b:false"),
        ("=\"t\"", "s:t"),
        ("=\"a \"\"q\"\" <b> & é\"", "s:a \"q\" <b> & é"),
        ("=3.5", "n:3.5"),
        ("=7", "n:7"),
        ("=0", "n:0"),
        ("=-3", "n:-3"),
        ("=50%", "n:0.5"),
        ("=2.5%", "n:0.025"),
        ("=-12.5%", "n:-0.125"),
        ("=-3.5", "n:-3.5"),
        ("=B3", "f:B3"),
        ("=SUM(A1:C$2)", "f:SUM(A1:C$2)"),
        ("=\"x\" & \"<\"", "f:(\"x\" & \"<\")"),
        ("=A1 >= 3", "f:(A1 >= 3)"),
        ("=2024 - 1", "f:(2024 - 1)"),
    ]
}

/// cells that can already be in the file
const OLD: [&str; 9] = ["none", "text", "number", "formula", "boolean", "coloured", "styled text", "noted", "ruled"];
fn put_old(w: &mut u::Worksheet, p: Pos, kind: &str) {
    match kind {
        "none" => return,
        "noted" => {
            let mut c = u::Comment::default();
            c.set_author("me");
            c.get_coordinate_mut().set_col_num(p.0);
            c.get_coordinate_mut().set_row_num(p.1);
            c.get_text_mut().set_text("old note");
            w.add_comments(c);
        }
        "ruled" => {
            let mut q = u::SequenceOfReferences::default();
            q.set_sqref(a1(p));
            let mut v = u::DataValidation::default();
            v.set_sequence_of_references(q).set_type(u::DataValidationValues::Whole).set_operator(u::DataValidationOperatorValues::LessThan).set_formula1("5");
            let mut all = w.get_data_validations().cloned().unwrap_or_default();
            all.add_data_validation_list(v);
            w.set_data_validations(all);
        }
        _ => (),
    }
    let c = w.get_cell_mut(p);
    match kind {
        "number" => {
            c.set_value_number(42.5);
        }
        "formula" => {
            c.set_formula("C9*2").set_formula_result_default("8");
        }
        "boolean" => {
            c.set_value_bool(true);
        }
        "coloured" => {
            c.get_style_mut().set_background_color("FF00FF00");
        }
        "styled text" => {
            c.set_value_string("styled");
            c.get_style_mut().get_font_mut().set_bold(true).set_size(20.0);
            c.get_style_mut().get_borders_mut().get_left_mut().set_border_style("thick");
        }
        _ => {
            c.set_value_string(format!("old {}", a1(p)));
        }
    }
}
fn save(b: &u::Spreadsheet, dir: &Path) -> Result<Book, Fail> {
    let f = dir.join("out.xlsx");
    u::writer::xlsx::write(b, &f).map_err(|e| Fail::new(format!("MACHINERY: can't write a workbook: {e:?}")))?;
    read_book(&f)
}
fn book(names: &[&str]) -> u::Spreadsheet {
    let mut b = u::new_file_empty_worksheet();
    for n in names {
        b.new_sheet(*n).unwrap();
    }
    b
}

fn done(known: Option<Fail>, h: &impl std::hash::Hash) -> CaseResult {
    match known {
        Some(f) => Err(f),
        None => Ok(Outcome::of(h)),
    }
}

fn run(ctx: &mut Ctx) {
    let dir = ctx.scratch.clone();
    let out = dir.join("out.xlsx");
    let opts: Vec<_> = options::all().into_iter().filter(|o| o.attr != "var" && !["in_range(C3)", "in_range(A:C)", "in_range(AA$10)"].contains(&o.values.first().map_or("", |v| v))).collect();

    // 1. every option and every pair of options, on a cell and on a row
    for a in &opts {
        for row in [false, true] {
            if !ctx.mine() {
                ctx.skip(1);
                continue;
            }
            ctx.case(
                || format!("{} with every other option, as {} options", a.text(), if row { "row" } else { "cell" }),
                |c| {
                    // one row per pair, plain cells between; for rows every option list has a row of its own
                    let mut rows = vec![];
                    let mut cells = vec![];
                    for b in &opts {
                        let t = if std::ptr::eq(a, b) { a.text() } else { format!("{} {}", a.text(), b.text()) };
                        let mut at = options::defaults();
                        options::set(&mut at, a.attr, &a.canon, a.adds());
                        if !std::ptr::eq(a, b) {
                            options::set(&mut at, b.attr, &b.canon, b.adds());
                        }
                        let n = New { val: "s:v".into(), attrs: at };
                        if row {
                            rows.push(vec![format!("![[{t}]]v"), "v".into()]);
                            cells.push(vec![n.clone(), n]);
                        } else {
                            rows.push(vec!["p".into(), format!("[[{t}]]v"), "q".into()]);
                            cells.push(vec![New::plain("s:p"), n, New::plain("s:q")]);
                        }
                        rows.push(vec!["u".into()]);
                        cells.push(vec![New::plain("s:u")]);
                        c.transitions += 1;
                    }
                    let m = compiled(&dir, &rows)?;
                    let _ = std::fs::remove_file(&out);
                    let mut known = None;
                    let j = Job { tab: "m", x: u32::from(row), y: 0, safe: false, cells: &cells };
                    let one = write_check(&dir, &m, &vec![], &j, &mut known)?;
                    // again changes nothing
                    let two = write_check(&dir, &m, &one, &j, &mut known)?;
                    if one != two {
                        return Err(Fail::new("writing the same sheet again changes the workbook"));
                    }
                    done(known, &one)
                },
            );
        }
    }

    // and the validations of every day around those that calendars get wrong
    let days: Vec<(i64, i64, i64)> = [
        (1900, [1, 2, 3].as_slice()), (1904, &[2, 3]), (1969, &[12]), (1970, &[1]), (1996, &[2, 3]), (1999, &[12]), (2000, &[1, 2, 3, 12]),
        (2001, &[1]), (2023, &[2, 3, 12]), (2024, &[1, 2, 3, 12]), (2038, &[1]), (2100, &[2, 3]), (2400, &[2]), (9999, &[12]),
    ]
    .iter()
    .flat_map(|(y, months)| months.iter().flat_map(move |m| {
        let leap = y % 4 == 0 && (y % 100 != 0 || y % 400 == 0);
        let last = match m { 2 if leap => 29, 2 => 28, _ => 31 };
        (1..=last).map(move |d| (*y, *m, d))
    }))
    .collect();
    for chunk in days.chunks(50) {
        if !ctx.mine() {
            ctx.skip(1);
            continue;
        }
        ctx.case(
            || format!("validations with the dates from {:?} to {:?}", chunk[0], chunk[chunk.len() - 1]),
            |c| {
                let mut rows = vec![];
                let mut cells = vec![];
                for (y, m, d) in chunk {
                    let iso = format!("Date({y:04}-{m:02}-{d:02})");
                    let n = |canon: String| {
                        let mut attrs = options::defaults();
                        options::set(&mut attrs, "validate", &canon, false);
                        New { val: "s:v".into(), attrs }
                    };
                    rows.push(vec![format!("[[validate=date_gt({y}-{m:02}-{d:02})]]v"), format!("[[validate=date_nbtwn({m}/{d}/{y} 12/30/9999)]]v")]);
                    cells.push(vec![n(format!("DateAfter({iso})")), n(format!("DateNotBetween({iso}, Date(9999-12-30))"))]);
                    c.transitions += 1;
                }
                let m = compiled(&dir, &rows)?;
                let _ = std::fs::remove_file(&out);
                let mut known = None;
                let j = Job { tab: "m", x: 0, y: 0, safe: false, cells: &cells };
                let one = write_check(&dir, &m, &vec![], &j, &mut known)?;
                done(known, &one)
            },
        );
    }

    // 2. every kind of value over every kind of cell, with neighbours of all kinds
    for (src, val) in kinds() {
        for (k, old) in OLD.iter().enumerate() {
            for safe in [false, true] {
                if !ctx.mine() {
                    ctx.skip(1);
                    continue;
                }
                ctx.case(
                    || format!("{} over a cell with {old}, safe {safe}", esc(src)),
                    |c| {
                        let mut known = None;
                        let mut h = vec![];
                        for opt in ["", "[[t=b]]", "[[n='new note']]", "[[validate=number_gt(3)]]"] {
                            let m = compiled(&dir, &[vec![format!("{opt}{src}")]])?;
                            let mut attrs = options::defaults();
                            match opt {
                                "" => (),
                                "[[t=b]]" => options::set(&mut attrs, "text", "[\"Bold\"]", true),
                                "[[n='new note']]" => options::set(&mut attrs, "note", "new note", false),
                                _ => options::set(&mut attrs, "validate", "NumberGreaterThan(3)", false),
                            }
                            let cells = vec![vec![New { val: val.to_string(), attrs }]];
                            for (x, y) in [(0, 0), (1, 0), (0, 1), (27, 2)] {
                                let mut b = book(&["m", "other"]);
                                for w in 0..2 {
                                    let w = b.get_sheet_mut(&w).unwrap();
                                    for dx in 0..3u32 {
                                        for dy in 0..3u32 {
                                            let (cx, cy) = ((x + dx).wrapping_sub(1), (y + dy).wrapping_sub(1));
                                            if cx > 1000 || cy > 1000 {
                                                continue;
                                            }
                                            let kind = if dx == 1 && dy == 1 { old } else { &OLD[(k + (dx * 3 + dy) as usize) % OLD.len()] };
                                            put_old(w, (cx + 1, cy + 1), kind);
                                        }
                                    }
                                }
                                let before = save(&b, &dir)?;
                                let after = write_check(&dir, &m, &before, &Job { tab: "m", x, y, safe, cells: &cells }, &mut known)?;
                                c.transitions += 1;
                                c.state(crate::rt::h64(&after));
                                h.push(after);
                            }
                        }
                        done(known, &h)
                    },
                );
            }
        }
    }

    // 3. shapes
    let pat = |n: usize, tag: &str| -> Vec<Vec<String>> {
        (1..=n).flat_map(|w| (0..1 << w).map(move |b| (w, b))).map(|(w, b)| (0..w).map(|i| if b >> i & 1 == 1 { format!("{tag}{i}") } else { String::new() }).collect()).collect()
    };
    let grids = |n: usize, h: usize, tag: &str| {
        let p = pat(n, tag);
        let mut v = vec![];
        for k in 0..=h {
            words_n(&p, k, &mut |w| {
                v.push(w.iter().enumerate().map(|(y, r)| r.iter().map(|s| if s.is_empty() { String::new() } else { format!("{s}{y}") }).collect::<Vec<_>>()).collect::<Vec<_>>())
            });
        }
        v
    };
    let (news, olds) = (grids(2, 2, "n"), grids(2, ctx.bound(1, 2), "o"));
    let offs: &[(u32, u32)] = if ctx.quick() { &[(0, 0), (1, 0), (0, 1)] } else { &[(0, 0), (1, 0), (0, 1), (1, 1), (2, 0), (0, 2)] };
    for new in &news {
        for (x, y) in offs {
            for safe in [false, true] {
                if !ctx.mine() {
                    ctx.skip(1);
                    continue;
                }
                ctx.case(
                    || format!("sheet {new:?} at column {x} row {y}, safe {safe}, over every small worksheet"),
                    |c| {
                        let m = compiled(&dir, new)?;
                        let cells: Vec<Vec<New>> = new.iter().map(|r| r.iter().map(|v| New::plain(&if v.is_empty() { String::new() } else { format!("s:{v}") })).collect()).collect();
                        let mut known = None;
                        let mut h = vec![];
                        for old in &olds {
                            let mut b = book(&["m"]);
                            let w = b.get_sheet_mut(&0).unwrap();
                            for (r, row) in old.iter().enumerate() {
                                for (q, v) in row.iter().enumerate() {
                                    if !v.is_empty() {
                                        w.get_cell_mut((q as u32 + 1, r as u32 + 1)).set_value_string(v.clone());
                                    }
                                }
                            }
                            let before = save(&b, &dir)?;
                            let after = write_check(&dir, &m, &before, &Job { tab: "m", x: *x, y: *y, safe, cells: &cells }, &mut known)?;
                            c.transitions += 1;
                            c.state(crate::rt::h64(&after));
                            h.push(after);
                        }
                        done(known, &h)
                    },
                );
            }
        }
    }

    // 4. worksheets
    let tabs = ["m", "other", "Third one", "é"];
    for n in 0..=3 {
        words_n(&(0..tabs.len()).collect::<Vec<_>>(), n, &mut |w| {
            let distinct: BTreeSet<_> = w.iter().collect();
            if distinct.len() != w.len() {
                return;
            }
            for target in [None, Some("m"), Some("other"), Some("Third one"), Some("é"), Some("brand-new")] {
                if !ctx.mine() {
                    ctx.skip(1);
                    continue;
                }
                let names: Vec<&str> = w.iter().map(|i| tabs[*i]).collect();
                ctx.case(
                    || format!("worksheets {names:?}, written to {target:?}"),
                    |_| {
                        let m = compiled(&dir, &[vec!["a".into(), "[[n=x]]=1 + B1".into()]])?;
                        let mut b = book(&names);
                        for i in 0..names.len() {
                            let w = b.get_sheet_mut(&i).unwrap();
                            for (q, k) in OLD.iter().enumerate() {
                                put_old(w, (1 + q as u32 % 3, 1 + q as u32 / 3), k);
                            }
                        }
                        let before = if names.is_empty() {
                            let _ = std::fs::remove_file(&out);
                            vec![]
                        } else {
                            save(&b, &dir)?
                        };
                        let mut attrs = options::defaults();
                        options::set(&mut attrs, "note", "x", false);
                        let cells = vec![vec![New::plain("s:a"), New { val: "f:(1 + B1)".into(), attrs }]];
                        let c = excel(&dir, target, 0, 0, false);
                        c.target().and_then(|t| t.write(&m)).map_err(|e| Fail::new(format!("the write fails: {e}")))?;
                        let after = read_book(&out)?;
                        let mut known = None;
                        compare(&before, &after, &Job { tab: target.unwrap_or("m"), x: 0, y: 0, safe: false, cells: &cells }, &mut known)?;
                        done(known, &after)
                    },
                );
            }
        });
    }

    // 5. histories
    let sheets: Vec<(Vec<Vec<String>>, Vec<Vec<New>>)> = {
        let with = |v: &str, k: &'static str, c: &str| {
            let mut n = New::plain(v);
            options::set(&mut n.attrs, k, c, matches!(k, "border" | "text"));
            n
        };
        let s = |r: &[&[&str]]| r.iter().map(|r| r.iter().map(|t| (*t).to_string()).collect()).collect();
        vec![
            (s(&[&["a"]]), vec![vec![New::plain("s:a")]]),
            (s(&[&["", "[[n=one]]=1 + 1"], &["[[t=b]]x", ""]]), vec![vec![New::plain(""), with("f:(1 + 1)", "note", "one")], vec![with("s:x", "text", "[\"Bold\"]"), New::plain("")]]),
            (
                s(&[&["[[validate=number_lt(9)]]=5", "[[n=two b=t]]b", "=true"]]),
                vec![vec![with("n:5", "validate", "NumberLessThan(9)"), { let mut n = with("s:b", "note", "two"); options::set(&mut n.attrs, "border", "[\"Top\"]", true); n }, New::plain("b:true")]],
            ),
        ]
    };
    let mut steps = vec![];
    for s in 0..sheets.len() {
        for (x, y) in [(0, 0), (1, 1)] {
            for safe in [false, true] {
                for tab in ["m", "other"] {
                    steps.push((s, x, y, safe, tab));
                }
            }
        }
    }
    let k = ctx.bound(3, 4);
    for first in &steps {
        for second in &steps {
            if !ctx.mine() {
                ctx.skip(1);
                continue;
            }
            ctx.case(
                || format!("histories of {k} writes that begin with {first:?}, {second:?}"),
                |c| {
                    let _ = std::fs::remove_file(&out);
                    let ms: Vec<Module> = sheets.iter().map(|s| compiled(&dir, &s.0)).collect::<Result<_, _>>()?;
                    let mut b: Book = vec![];
                    let mut known = None;
                    let mut step = |b: &Book, s: &(usize, u32, u32, bool, &str)| write_check(&dir, &ms[s.0], b, &Job { tab: s.4, x: s.1, y: s.2, safe: s.3, cells: &sheets[s.0].1 }, &mut known);
                    for s in [first, second] {
                        b = step(&b, s)?;
                    }
                    if step(&b, second)? != b {
                        return Err(Fail::new("writing the same sheet again changes the workbook"));
                    }
                    let file = std::fs::read(&out).unwrap();
                    let mut todo = vec![(b.clone(), file, k - 2)];
                    while let Some((b, file, k)) = todo.pop() {
                        for s in &steps {
                            std::fs::write(&out, &file).unwrap();
                            let n = step(&b, s)?;
                            c.transitions += 1;
                            if c.state(crate::rt::h64(&(&n, k))) && k > 1 {
                                todo.push((n, std::fs::read(&out).unwrap(), k - 1));
                            }
                        }
                    }
                    done(known, &b)
                },
            );
        }
    }

    // 6. big sheets and far places, over much that is there already: all options and values in turn
    let all = kinds();
    for (w, h) in ctx.bound(vec![(30, 4), (130, 2), (3, 140), (703, 1)], vec![(1, 1100), (30, 40), (130, 8), (703, 2), (1500, 1), (2, 1030)]) {
        for (x, y) in [(0u32, 0u32), (25, 0), (26, 9), (701, 1), (0, 998), (5, 70_000)] {
            for step in ctx.bound(vec![1, 5], vec![1, 2, 3, 5, 7, 11]) {
                for safe in [false, true] {
                    if !ctx.mine() {
                        ctx.skip(1);
                        continue;
                    }
                    ctx.case(
                        || format!("{w} x {h} cells with every {step}th option at column {x} row {y}, safe {safe}"),
                        |_| {
                            let mut rows = vec![];
                            let mut cells = vec![];
                            for r in 0..h {
                                let (mut a, mut b) = (vec![], vec![]);
                                for c in 0..w {
                                    let i = (r * w + c) * step;
                                    let (src, val) = all[i % all.len()];
                                    let mut attrs = options::defaults();
                                    let mut text = src.to_string();
                                    if i % 3 != 0 {
                                        let o = &opts[i / 3 % opts.len()];
                                        options::set(&mut attrs, o.attr, &o.canon, o.adds());
                                        text = format!("[[{}]]{src}", o.text());
                                    }
                                    a.push(text);
                                    b.push(New { val: val.to_string(), attrs });
                                }
                                rows.push(a);
                                cells.push(b);
                            }
                            let m = compiled(&dir, &rows)?;
                            let mut b = book(&["m", "other"]);
                            for s in 0..2 {
                                let sheet = b.get_sheet_mut(&s).unwrap();
                                for (i, (dx, dy)) in (0..w as u32 + 2).flat_map(|dx| (0..h as u32 + 2).map(move |dy| (dx, dy))).enumerate() {
                                    if (x + dx, y + dy) != (0, 0) && i % 2 == s && x + dx > 0 && y + dy > 0 {
                                        put_old(sheet, (x + dx, y + dy), OLD[(i / 2 + s) % OLD.len()]);
                                    }
                                }
                                put_old(sheet, (1, 1), "noted");
                            }
                            let before = save(&b, &dir)?;
                            let mut known = None;
                            let after = write_check(&dir, &m, &before, &Job { tab: "m", x, y, safe, cells: &cells }, &mut known)?;
                            done(known, &after)
                        },
                    );
                }
            }
        }
    }
}

pub fn prop() -> Prop {
    Prop {
        id: "C16",
        level: "model_checking",
        rule: "every option and pair of options, every kind of value over every kind of existing cell, every small sheet over every small worksheet at every offset, every set of worksheets, and every history of writes, through the real Excel target; after each write the workbook is read back and every cell, note, rule and worksheet is compared with a model; a state is a distinct content of the workbook",
        bounds: |t| {
            if t == Tier::Quick {
                "every option and their pairs as cell and as row options; 24 values x 9 cells x 4 option lists x 4 places x safe; sheets <= 2x2 over <= 1x2 x 3 offsets; <= 3 of 4 worksheets x 6 targets; histories of 3 of 24 writes; 4 sizes up to 703 columns and 140 rows with all options in turn x 6 offsets up to row 70000 x safe".into()
            } else {
                "as quick; sheets <= 2x2 over <= 2x2 x 6 offsets; histories of 4 of 24 writes; 6 sizes up to 1500 columns and 1100 rows with all options in turn x 6 offsets x safe".into()
            }
        },
        run,
        hang_s: 120,
        workers: 0,
        assumptions: &["the workbook reader of umya-spreadsheet shows what is in the file", "a formula that is just a number is that number", "notes and rules of replaced cells may stay or go"],
    }
}

// ---------------------------------------------------------------------------------------------
// C19

/// what a value in a CSV file is, in the terms of a workbook
fn csv_value(t: &str) -> String {
    match t.strip_prefix('=') {
        None if t.is_empty() => String::new(),
        None => format!("s:{t}"),
        Some(f) => {
            if let Some(n) = number(f) {
                return format!("n:{n}");
            }
            if f.eq_ignore_ascii_case("true") || f.eq_ignore_ascii_case("false") {
                return format!("b:{}", f.eq_ignore_ascii_case("true"));
            }
            // a text alone
            if let Some(t) = f.strip_prefix('"').and_then(|t| t.strip_suffix('"')) {
                let t2 = t.replace("\"\"", "\u{0}");
                if !t2.contains('"') {
                    return if t.is_empty() { String::new() } else { format!("s:{}", t2.replace('\u{0}', "\"")) };
                }
            }
            format!("f:{f}")
        }
    }
}

fn both(dir: &Path, src: &str, x: usize, y: usize) -> CaseResult {
    let m = compile_src(dir, src, &[]).map_err(|e| Fail::new(format!("{} does not compile: {e}", esc(src))))?;
    for f in ["out.csv", "out.xlsx"] {
        let _ = std::fs::remove_file(dir.join(f));
        let c = writer(dir, f, x, y, false);
        c.target().and_then(|t| t.write(&m)).map_err(|e| Fail::new(format!("writing {f} fails: {e}")))?;
    }
    let csv = read_csv(&std::fs::read(dir.join("out.csv")).unwrap()).map_err(Fail::new)?;
    let book = read_book(&dir.join("out.xlsx"))?;
    let mut a = BTreeMap::new();
    for (r, row) in csv.iter().enumerate() {
        for (c, v) in row.iter().enumerate() {
            let v = csv_value(v);
            if !v.is_empty() {
                a.insert((c as u32 + 1, r as u32 + 1), v);
            }
        }
    }
    let b: BTreeMap<Pos, String> = book[0].cells.iter().filter(|c| !c.1.val.is_empty()).map(|(p, x)| (*p, x.val.clone())).collect();
    for p in a.keys().chain(b.keys()) {
        let (x, y) = (a.get(p), b.get(p));
        if x != y {
            // (a lone quote that doubles is the listed finding of C03)
            return Err(Fail::new(format!("{} is {x:?} in the CSV file and {y:?} in the workbook", a1(*p))));
        }
    }
    Ok(Outcome::of(&format!("{a:?}")))
}

fn run19(ctx: &mut Ctx) {
    let dir = ctx.scratch.clone();
    let go = |ctx: &mut Ctx, src: String, x: usize, y: usize| {
        if !ctx.mine() {
            ctx.skip(1);
            return;
        }
        ctx.case(|| format!("{} at column {x} row {y}", esc(&src)), |_| both(&dir, &src, x, y));
    };
    // every sequence of two values, in a row and in a column, and rows of different lengths
    let vals: Vec<String> = kinds()
        .iter()
        .map(|k| k.0.to_string())
        .filter(|v| !v.contains("\"\"q\"\""))
        .chain(["[[t=b]]bold", "[[n='x']]=1", "=a1 & b", "=2024-01-02", "=1.50", "=f(g(1), \"x\")", "=2 * 3 - -4%", "  padded  ", "=\"\"", "a\r\nb", "é漢", "=$A$1:B2", "-5", "+x", "@y", "5%"].iter().map(|s| (*s).to_string()))
        .map(|v| cell_field(&v))
        .collect();
    for a in &vals {
        for b in &vals {
            go(ctx, format!("{a},{b}\n"), 0, 0);
            if !ctx.quick() {
                go(ctx, format!("{a}\n{b},{a}\n"), 1, 2);
            }
        }
        for (x, y) in [(0, 0), (1, 0), (0, 1), (2, 3)] {
            go(ctx, format!("{a},x\n{a}\n,,{a}\n"), x, y);
        }
    }
    // numbers, as they are and through a variable
    let mut numbers: Vec<String> = vec![];
    for int in ["0", "1", "7", "10", "42", "100", "999", "32767", "32768", "65536", "99999", "1000000", "2147483647", "2147483648", "4294967295", "4294967296", "5000000000", "999999999999999", "1000000000000000", "9007199254740993", "9223372036854775807", "007"] {
        for frac in ["", ".0", ".5", ".25", ".10", ".1", ".3", ".000001", ".999999999", ".123456789012345"] {
            numbers.push(format!("{int}{frac}"));
        }
    }
    for n in &numbers {
        for f in [format!("{n}"), format!("-{n}"), format!("+{n}"), format!("{n}%"), format!("-{n}%"), format!("({n})"), format!("{n} + 0"), format!("f({n})"), format!("\"{n}\"")] {
            let fields = format!("{},{},x\n", cell_field(&format!("={f}")), cell_field(&f));
            go(ctx, fields.clone(), 0, 0);
            go(ctx, format!("n := {f}\n---\n=n,=n & 1\n"), 0, 0);
        }
    }
    // short texts
    let alphabet = ['a', '1', ' ', '=', '\'', '"', ',', '.', '-', '+', '%', '/', '<', '&', '\n', 'é', '_', '\\', '#', ']'];
    let mut texts = vec![];
    words(&alphabet, ctx.bound(2, 3) as usize, &mut |w| texts.push(w.iter().collect::<String>()));
    texts.extend(["_x0041_", "true", "TRUE", "False", "#N/A", "#REF!", "1e5", "1E+10", "0x10", "NaN", "inf", "-0", "1,000", "$5", "12:30", "2024-01-02", "1/2", "A1", "R1C1", "a\n\nb", "\u{1}", "]]>", "<![CDATA[", "&amp;", "\u{feff}x"].map(String::from));
    for t in &texts {
        // (what isn't plain text is for the other parts)
        if t.trim_start().starts_with('=') || t.contains("[[") {
            continue;
        }
        go(ctx, format!("{},x\n", cell_field(t)), 0, 0);
    }
    // big sheets
    for (w, h) in [(30, 3), (120, 2), (703, 1), (3, 300), (2, 1100)] {
        let s: String = (0..h).map(|r| (0..w).map(|c| match (r + c) % 4 { 0 => format!("v{r}_{c}"), 1 => String::new(), 2 => format!("={r}.5"), _ => format!("=A{} + {c}", r + 1) }).collect::<Vec<_>>().join(",") + "\n").collect();
        for (x, y) in [(0, 0), (25, 0), (27, 1001)] {
            go(ctx, s.clone(), x, y);
        }
        go(ctx, format!("![[fill={h}]]=A1,x,[[var=q]]y\n=q,w\n"), 0, 0);
    }
    // definitions, references to named cells, fills
    let codes = ["", "x := 5\n---\n", "x := A1 + 1\nfn f(a, b) a * b\n---\n", "x := \"t\"\nfn f(a, b) x & a\n---\n", "x := true\nfn f(a, b) b\n---\n"];
    let cells = ["=x", "=f(1, x)", "=x + 1", "[[v=n]]7", "=n", "=n & x", "", "v"];
    let heads = ["", "![[f=2]]", "![[t=b]]", "![[f=3 v=r]]"];
    for code in codes {
        for head in heads {
            for a in cells {
                for b in cells {
                    for c in if ctx.quick() { &cells[..3] } else { &cells[..] } {
                        if code.is_empty() && [a, b, c].iter().any(|t| t.contains('f')) {
                            continue;
                        }
                        if [a, b, c].iter().filter(|t| t.contains("v=n")).count() > 1 {
                            continue;
                        }
                        go(ctx, format!("{code}top\n{head}{a},{b}\n{c},w\n").replace("=f(1, x)", "\"=f(1, x)\""), 0, 0);
                    }
                }
            }
        }
    }
}

pub fn prop19() -> Prop {
    Prop {
        id: "C19",
        level: "model_checking",
        rule: "every pair of values of every kind in several layouts, and every sheet of three cells with definitions, named cells and fills, written by the real targets to a new CSV file and to a new workbook, both read back and compared cell by cell; a state is a distinct sheet",
        bounds: |t| {
            if t == Tier::Quick {
                "35 values, all pairs, 4 layouts and offsets; 220 numbers x 18 forms; texts of <= 2 of 20 characters; 5 sizes up to 703 columns and 1100 rows; 5 code sections x 4 row options x 8x8x3 cells".into()
            } else {
                "35 values, all pairs in 3 layouts; 220 numbers x 18 forms; texts of <= 3 of 20 characters; 5 sizes up to 703 columns and 1100 rows; 5 code sections x 4 row options x 8x8x8 cells".into()
            }
        },
        run: run19,
        hang_s: 60,
        workers: 0,
        assumptions: &["the workbook reader of umya-spreadsheet shows what is in the file", "a formula that is just a number, boolean or text is that value"],
    }
}

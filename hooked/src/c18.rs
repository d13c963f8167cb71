//! C18: the update request for Google Sheets.
use crate::options::{self, Attrs};
use crate::rt::{Ctx, Fail, Outcome, Prop, Tier};
use crate::util::*;
use csvpp::{CliArgs, Compiler, Module};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;

/// column and row, from 0
type Pos = (u64, u64);
type Grid = BTreeMap<Pos, Value>;

#[derive(Clone)]
struct New {
    val: String,
    attrs: Attrs,
}
impl New {
    fn plain(v: &str) -> Self {
        Self { val: v.to_string(), attrs: options::defaults() }
    }
}

fn number(t: &str) -> Option<f64> {
    let (t, p) = match t.strip_suffix('%') {
        Some(t) => (t, 100.0),
        None => (t, 1.0),
    };
    let (t, s) = match t.strip_prefix('-') {
        Some(t) => (t, -1.0),
        None => (t.strip_prefix('+').unwrap_or(t), 1.0),
    };
    if !t.starts_with(|c: char| c.is_ascii_digit()) {
        return None;
    }
    t.parse::<f64>().ok().map(|f| s * f / p)
}

/// the value with its type in front, empty when there is none
fn value(cell: &Value) -> Result<String, Fail> {
    let Some(v) = cell.get("userEnteredValue") else { return Ok(String::new()) };
    let o = v.as_object().ok_or_else(|| Fail::new("a value is not an object"))?;
    let mut out = vec![];
    for (k, v) in o {
        out.push(match (k.as_str(), v) {
            ("stringValue", Value::String(s)) if s.is_empty() => String::new(),
            ("stringValue", Value::String(s)) => format!("s:{s}"),
            ("numberValue", Value::Number(n)) => format!("n:{}", n.as_f64().unwrap()),
            ("boolValue", Value::Bool(b)) => format!("b:{b}"),
            ("formulaValue", Value::String(s)) => {
                let f = s.strip_prefix('=').ok_or_else(|| Fail::new(format!("the formula {s:?} has no sign")))?;
                if f.eq_ignore_ascii_case("true") || f.eq_ignore_ascii_case("false") {
                    format!("b:{}", f.eq_ignore_ascii_case("true"))
                } else {
                    number(f).map_or_else(|| format!("f:{f}"), |n| format!("n:{n}"))
                }
            }
            _ => return Err(Fail::new(format!("a value has {k} {v}"))),
        });
    }
    match &out[..] {
        [] => Ok(String::new()),
        [v] => Ok(v.clone()),
        _ => Err(Fail::new(format!("a cell has several values {out:?}"))),
    }
}

fn kinds() -> Vec<(&'static str, &'static str)> {
    vec![
        ("abc", "s:abc"),
        ("", ""),
        ("123", "s:123"),
        ("TRUE", "s:TRUE"),
        ("'quoted", "s:'quoted"),
        ("a <&> \"b\" é\nc", "s:a <&> \"b\" é\nc"),
        ("=1 + 2", "f:(1 + 2)"),
        ("=true", "b:true"),
        ("=FALSE", "b:false"),
        ("=\"t\"", "s:t"),
        ("=\"a \"\"q\"\" <b> & é\"", "s:a \"q\" <b> & é"),
        ("=3.5", "n:3.5"),
        ("=7", "n:7"),
        ("=0", "n:0"),
        ("=-3", "n:-3"),
        ("=50%", "n:0.5"),
        ("=2.5%", "n:0.025"),
        ("=-12.5%", "n:-0.125"),
        ("=-3.5", "n:-3.5"),
        ("=B3", "f:B3"),
        ("=SUM(A1:C$2)", "f:SUM(A1:C$2)"),
        ("=\"x\" & \"<\"", "f:(\"x\" & \"<\")"),
        ("=A1 >= 3", "f:(A1 >= 3)"),
    ]
}

/// a colour as an object of the API
fn color(v: &str) -> Value {
    let n: Vec<f64> = v.split(|c: char| !c.is_ascii_digit()).filter(|s| !s.is_empty()).map(|s| s.parse::<f64>().unwrap() / 255.0).collect();
    json!({"rgbColor": {"red": n[0], "green": n[1], "blue": n[2]}})
}

fn expected_format(a: &Attrs) -> Value {
    let has = |k: &str, v: &str| a.get(k).is_some_and(|x| x.contains(&format!("\"{v}\"")));
    let mut f = json!({
        "horizontalAlignment": match a["halign"].as_str() { "Left" => "LEFT", "Center" => "CENTER", "Right" => "RIGHT", o => panic!("{o}") },
        "verticalAlignment": match a["valign"].as_str() { "Top" => "TOP", "Center" => "MIDDLE", "Bottom" => "BOTTOM", o => panic!("{o}") },
        "wrapStrategy": match a["wrap"].as_str() { "Wrap" => "WRAP", "Clip" => "CLIP", "Overflow" => "OVERFLOW_CELL", o => panic!("{o}") },
        "numberFormat": {"type": match a["numberformat"].as_str() { "DateTime" => "DATE_TIME".to_string(), o => o.to_uppercase() }},
    });
    if let Some(c) = a.get("color") {
        f["backgroundColorStyle"] = color(c);
    }
    let mut b = json!({"style": match a["borderstyle"].as_str() { "SolidMedium" => "SOLID_MEDIUM".to_string(), "SolidThick" => "SOLID_THICK".to_string(), o => o.to_uppercase() }});
    if let Some(c) = a.get("bordercolor") {
        b["colorStyle"] = color(c);
    }
    for (o, k) in [("Left", "left"), ("Right", "right"), ("Top", "top"), ("Bottom", "bottom")] {
        if has("border", o) || has("border", "All") {
            f["borders"][k] = b.clone();
        }
    }
    for (o, k) in [("Bold", "bold"), ("Italic", "italic"), ("Strikethrough", "strikethrough"), ("Underline", "underline")] {
        if has("text", o) {
            f["textFormat"][k] = json!(true);
        }
    }
    if let Some(s) = a.get("fontsize") {
        f["textFormat"]["fontSize"] = json!(s.parse::<u64>().unwrap());
    }
    if let Some(s) = a.get("fontfamily") {
        f["textFormat"]["fontFamily"] = json!(s);
    }
    if let Some(c) = a.get("fontcolor") {
        f["textFormat"]["foregroundColorStyle"] = color(c);
    }
    f
}

/// <https://developers.google.com/sheets/api/reference/rest/v4/spreadsheets/other#ConditionType>
fn expected_condition(v: &str) -> (String, Vec<String>) {
    let (what, args) = v.split_once('(').map_or((v, ""), |(w, a)| (w, a.strip_suffix(')').unwrap()));
    let dates: Vec<String> = args.split("Date(").skip(1).map(|s| s[..10].to_string()).collect();
    let nums: Vec<String> = args.split(", ").map(ToString::to_string).collect();
    let text = || vec![args[1..args.len() - 1].replace("\\\"", "\"")];
    let (t, values) = match what {
        "Custom" => ("CUSTOM_FORMULA", vec![format!("={}", text()[0])]),
        "DateAfter" => ("DATE_AFTER", dates),
        "DateBefore" => ("DATE_BEFORE", dates),
        "DateBetween" => ("DATE_BETWEEN", dates),
        "DateEqualTo" => ("DATE_EQ", dates),
        "DateIsValid" => ("DATE_IS_VALID", vec![]),
        "DateNotBetween" => ("DATE_NOT_BETWEEN", dates),
        "DateOnOrAfter" => ("DATE_ON_OR_AFTER", dates),
        "DateOnOrBefore" => ("DATE_ON_OR_BEFORE", dates),
        "NumberBetween" => ("NUMBER_BETWEEN", nums),
        "NumberEqualTo" => ("NUMBER_EQ", nums),
        "NumberGreaterThan" => ("NUMBER_GREATER", nums),
        "NumberGreaterThanOrEqualTo" => ("NUMBER_GREATER_THAN_EQ", nums),
        "NumberLessThan" => ("NUMBER_LESS", nums),
        "NumberLessThanOrEqualTo" => ("NUMBER_LESS_THAN_EQ", nums),
        "NumberNotBetween" => ("NUMBER_NOT_BETWEEN", nums),
        "NumberNotEqualTo" => ("NUMBER_NOT_EQ", nums),
        "TextContains" => ("TEXT_CONTAINS", text()),
        "TextDoesNotContain" => ("TEXT_NOT_CONTAINS", text()),
        "TextEqualTo" => ("TEXT_EQ", text()),
        "TextIsValidEmail" => ("TEXT_IS_EMAIL", vec![]),
        "TextIsValidUrl" => ("TEXT_IS_URL", vec![]),
        "ValueInList" => ("ONE_OF_LIST", args.split(';').map(|i| i.strip_prefix(['R', 'T', 'D']).unwrap_or(i).to_string()).collect()),
        "ValueInRange" => ("ONE_OF_RANGE", vec![args.to_string()]),
        o => panic!("{o}"),
    };
    (t.to_string(), values)
}

/// the same, numbers about
fn same(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Number(a), Value::Number(b)) => (a.as_f64().unwrap() - b.as_f64().unwrap()).abs() < 1e-4,
        (Value::Object(a), Value::Object(b)) => a.len() == b.len() && a.iter().all(|(k, v)| b.get(k).is_some_and(|w| same(v, w))),
        _ => a == b,
    }
}

fn check_new(got: &Value, new: &New, at: Pos) -> Result<(), Fail> {
    let fail = |m: String| Err(Fail::new(format!("the cell in column {} row {}: {m}", at.0, at.1)));
    let o = got.as_object().unwrap();
    if let Some(k) = o.keys().find(|k| !["userEnteredValue", "userEnteredFormat", "note", "dataValidation"].contains(&k.as_str())) {
        return fail(format!("has {k}: {}", got[k]));
    }
    let v = value(got)?;
    if v != new.val {
        return fail(format!("holds {v:?} but should hold {:?}", new.val));
    }
    let (g, w) = (&got["userEnteredFormat"], expected_format(&new.attrs));
    if !same(g, &w) {
        let keys: BTreeSet<&String> = g.as_object().into_iter().flat_map(|o| o.keys()).chain(w.as_object().unwrap().keys()).collect();
        let k = keys.into_iter().find(|k| !same(&g[*k], &w[*k])).unwrap();
        return fail(format!("{k} is {} but should be {}", g[k], w[k]));
    }
    if got.get("note").and_then(Value::as_str) != new.attrs.get("note").map(String::as_str) {
        return fail(format!("the note is {:?} but should be {:?}", got.get("note"), new.attrs.get("note")));
    }
    match (got.get("dataValidation"), new.attrs.get("validate")) {
        (None, None) => (),
        (Some(g), Some(v)) => {
            let c = &g["condition"];
            let values: Vec<String> = c["values"].as_array().into_iter().flatten().map(|v| match v.as_object() {
                Some(o) if o.len() == 1 => v["userEnteredValue"].as_str().map_or_else(|| format!("?{v}"), ToString::to_string),
                _ => format!("?{v}"),
            }).collect();
            let shown = |t: &String| options::shown_range(t.strip_prefix('=').unwrap_or(t));
            let values = if c["type"] == "ONE_OF_RANGE" { values.iter().map(shown).collect() } else { values };
            let got = (c["type"].as_str().unwrap_or("").to_string(), values);
            let want = expected_condition(v);
            if got != want {
                return fail(format!("the condition is {got:?} but should be {want:?}"));
            }
        }
        (g, w) => return fail(format!("the validation is {g:?} but should be {w:?}")),
    }
    Ok(())
}

struct Job<'a> {
    x: u64,
    y: u64,
    safe: bool,
    tab: Option<&'a str>,
    cells: &'a [Vec<New>],
}

/// a spreadsheet as the API describes it: title, id and cells of each tab
type Tabs = Vec<(String, i64, Grid)>;
fn spreadsheet(tabs: &Tabs) -> Value {
    let sheets: Vec<Value> = tabs
        .iter()
        .map(|(title, id, g)| {
            let rows = g.keys().map(|p| p.1 + 1).max().unwrap_or(0);
            let mut data = json!({});
            if rows > 0 {
                data["rowData"] = (0..rows)
                    .map(|r| {
                        let w = g.keys().filter(|p| p.1 == r).map(|p| p.0 + 1).max().unwrap_or(0);
                        if w == 0 {
                            return json!({});
                        }
                        json!({"values": (0..w).map(|c| g.get(&(c, r)).cloned().unwrap_or_else(|| json!({}))).collect::<Vec<_>>()})
                    })
                    .collect();
            }
            json!({"properties": {"sheetId": id, "title": title}, "data": [data]})
        })
        .collect();
    json!({"sheets": sheets})
}

/// (they aren't sent)
fn without_nulls(v: &mut Value) {
    match v {
        Value::Object(o) => {
            o.retain(|_, v| !v.is_null());
            o.values_mut().for_each(without_nulls);
        }
        Value::Array(a) => a.iter_mut().for_each(without_nulls),
        _ => (),
    }
}

fn write_check(m: &Module, before: &Tabs, j: &Job) -> Result<Tabs, Fail> {
    let c = Compiler::try_from(&CliArgs {
        input_filename: Path::new("m.csvpp").to_path_buf(),
        google_sheet_id: Some("id".into()),
        no_cache: true,
        safe: j.safe,
        sheet_name: j.tab.map(ToString::to_string),
        x_offset: j.x as u32,
        y_offset: j.y as u32,
        ..CliArgs::default()
    })
    .map_err(|e| Fail::new(format!("MACHINERY: {e}")))?;
    let req = csvpp::verif::google_batch_update(&c, m, &spreadsheet(before).to_string());
    let mut req: Value = serde_json::from_str(&req).map_err(|e| Fail::new(format!("the request is no JSON: {e}")))?;
    without_nulls(&mut req);
    let name = j.tab.unwrap_or("m");
    let target = before.iter().position(|t| t.0 == name).unwrap_or(0);
    let mut after = before.clone();
    if after.is_empty() {
        after.push((String::new(), 0, Grid::new()));
    }
    let id = after[target].1;
    // what the server does with the request
    let mut touched = BTreeSet::new();
    for r in req["requests"].as_array().into_iter().flatten() {
        let o = r.as_object().unwrap();
        let u = &r["updateCells"];
        if o.len() != 1 || !u.is_object() || u["fields"] != "*" || u.get("range").is_some_and(|r| !r.is_null()) {
            return Err(Fail::new(format!("unexpected request {}", r.to_string().chars().take(200).collect::<String>())));
        }
        let n = |k: &str| u["start"].get(k).and_then(Value::as_i64).unwrap_or(0);
        if n("sheetId") != id {
            return Err(Fail::new(format!("it updates the tab with id {} instead of {id}", n("sheetId"))));
        }
        for (dr, row) in u["rows"].as_array().into_iter().flatten().enumerate() {
            for (dc, cell) in row["values"].as_array().into_iter().flatten().enumerate() {
                let p = (n("columnIndex") as u64 + dc as u64, n("rowIndex") as u64 + dr as u64);
                if !touched.insert(p) {
                    return Err(Fail::new(format!("the cell in column {} row {} is written twice", p.0, p.1)));
                }
                after[target].2.insert(p, cell.clone());
            }
        }
    }
    let none = json!({});
    let old = before.get(target).map(|t| t.2.clone()).unwrap_or_default();
    let new = &after[target].2;
    let mut covered = BTreeSet::new();
    for (r, row) in j.cells.iter().enumerate() {
        for (c, n) in row.iter().enumerate() {
            let p = (j.x + c as u64, j.y + r as u64);
            let o = old.get(&p).unwrap_or(&none);
            if j.safe && o.get("userEnteredValue").is_some() {
                continue;
            }
            covered.insert(p);
            check_new(new.get(&p).unwrap_or(&none), n, p)?;
        }
    }
    for p in new.keys().chain(old.keys()) {
        let (n, o) = (new.get(p).unwrap_or(&none), old.get(p).unwrap_or(&none));
        if !covered.contains(p) && n != o {
            return Err(Fail::new(format!("the cell in column {} row {} was {o} and is {n}", p.0, p.1)));
        }
    }
    Ok(after)
}

fn compiled(dir: &Path, rows: &[Vec<String>]) -> Result<Module, Fail> {
    let src: String = rows.iter().map(|r| r.iter().map(|t| cell_field(t)).collect::<Vec<_>>().join(",") + "\n").collect();
    compile_src(dir, &src, &[]).map_err(|e| Fail::new(format!("{} does not compile: {e}", esc(&src))))
}

/// cells that can already be there
fn old(kind: &str, tag: u64) -> Option<Value> {
    Some(match kind {
        "none" => return None,
        "empty" => json!({}),
        "formatted" => json!({"userEnteredFormat": {"textFormat": {"bold": true}}}),
        "text" => json!({"userEnteredValue": {"stringValue": format!("old{tag}")}}),
        "number" => json!({"userEnteredValue": {"numberValue": 1.5}, "note": "mine"}),
        "formula" => json!({"userEnteredValue": {"formulaValue": "=C9*2"}, "userEnteredFormat": {"numberFormat": {"type": "NUMBER"}}}),
        "boolean" => json!({"userEnteredValue": {"boolValue": true}}),
        "noted" => json!({"note": "just a note"}),
        "ruled" => json!({"dataValidation": {"condition": {"type": "BOOLEAN"}}}),
        o => panic!("{o}"),
    })
}
const OLD: [&str; 9] = ["none", "empty", "formatted", "text", "number", "formula", "boolean", "noted", "ruled"];

fn text_of(t: &Tabs) -> String {
    format!("{t:?}")
}

fn run(ctx: &mut Ctx) {
    let dir = ctx.scratch.clone();
    let opts: Vec<_> = options::all().into_iter().filter(|o| o.attr != "var" && !["in_range(C3)", "in_range(A:C)", "in_range(AA$10)"].contains(&o.values.first().map_or("", |v| v))).collect();

    // 1. every option and every pair of options, on a cell and on a row
    for a in &opts {
        for row in [false, true] {
            if !ctx.mine() {
                ctx.skip(1);
                continue;
            }
            ctx.case(
                || format!("{} with every other option, as {} options", a.text(), if row { "row" } else { "cell" }),
                |c| {
                    let mut rows = vec![];
                    let mut cells = vec![];
                    for b in &opts {
                        let t = if std::ptr::eq(a, b) { a.text() } else { format!("{} {}", a.text(), b.text()) };
                        let mut at = options::defaults();
                        options::set(&mut at, a.attr, &a.canon, a.adds());
                        if !std::ptr::eq(a, b) {
                            options::set(&mut at, b.attr, &b.canon, b.adds());
                        }
                        let n = New { val: "s:v".into(), attrs: at };
                        if row {
                            rows.push(vec![format!("![[{t}]]v"), "v".into()]);
                            cells.push(vec![n.clone(), n]);
                        } else {
                            rows.push(vec!["p".into(), format!("[[{t}]]v"), "q".into()]);
                            cells.push(vec![New::plain("s:p"), n, New::plain("s:q")]);
                        }
                        rows.push(vec!["u".into()]);
                        cells.push(vec![New::plain("s:u")]);
                        c.transitions += 1;
                    }
                    let m = compiled(&dir, &rows)?;
                    let j = Job { x: u64::from(row), y: 0, safe: false, tab: None, cells: &cells };
                    Ok(Outcome::of(&text_of(&write_check(&m, &vec![], &j)?)))
                },
            );
        }
    }

    // 2. every kind of value over every kind of cell, with neighbours of all kinds
    for (src, val) in kinds() {
        for (k, kind) in OLD.iter().enumerate() {
            for safe in [false, true] {
                if !ctx.mine() {
                    ctx.skip(1);
                    continue;
                }
                ctx.case(
                    || format!("{} over a cell with {kind}, safe {safe}", esc(src)),
                    |c| {
                        let mut h = vec![];
                        for opt in ["", "[[t=b]]", "[[n='new note']]", "[[validate=number_gt(3)]]"] {
                            let m = compiled(&dir, &[vec![format!("{opt}{src}")]])?;
                            let mut attrs = options::defaults();
                            match opt {
                                "" => (),
                                "[[t=b]]" => options::set(&mut attrs, "text", "[\"Bold\"]", true),
                                "[[n='new note']]" => options::set(&mut attrs, "note", "new note", false),
                                _ => options::set(&mut attrs, "validate", "NumberGreaterThan(3)", false),
                            }
                            let cells = vec![vec![New { val: val.to_string(), attrs }]];
                            for (x, y) in [(0, 0), (1, 0), (0, 1), (27, 2)] {
                                let mut g = Grid::new();
                                for (i, p) in (0..3).flat_map(|a| (0..3).map(move |b| (a, b))).enumerate() {
                                    let at = ((x + p.0 as u64).wrapping_sub(1), (y + p.1 as u64).wrapping_sub(1));
                                    let kind = if i == 4 { kind } else { OLD[(k + i) % OLD.len()] };
                                    if let (true, Some(v)) = (at.0 < 1000 && at.1 < 1000, old(kind, i as u64)) {
                                        g.insert(at, v);
                                    }
                                }
                                let after = write_check(&m, &vec![("m".into(), 0, g)], &Job { x, y, safe, tab: None, cells: &cells })?;
                                c.transitions += 1;
                                c.state(crate::rt::h64(&text_of(&after)));
                                h.push(text_of(&after));
                            }
                        }
                        Ok(Outcome::of(&h))
                    },
                );
            }
        }
    }

    // 3. shapes: every small sheet over every small grid
    let grids = |w: usize, h: usize, vals: &[&'static str]| -> Vec<Vec<Vec<&'static str>>> {
        let mut rows: Vec<Vec<&'static str>> = vec![];
        words(vals, w, &mut |r| {
            if !r.is_empty() {
                rows.push(r.to_vec());
            }
        });
        let mut out = vec![];
        words(&rows, h, &mut |g| out.push(g.to_vec()));
        out
    };
    let news = grids(2, 2, &["", "n"]);
    let olds = grids(ctx.bound(2, 3), 2, &["none", "formatted", "text"]);
    let offs: &[(u64, u64)] = if ctx.quick() { &[(0, 0), (1, 0), (0, 1), (1, 1)] } else { &[(0, 0), (1, 0), (0, 1), (1, 1), (2, 0), (0, 2), (2, 1)] };
    for new in &news {
        for (x, y) in offs {
            for safe in [false, true] {
                if !ctx.mine() {
                    ctx.skip(1);
                    continue;
                }
                ctx.case(
                    || format!("sheet {new:?} at column {x} row {y}, safe {safe}, over every small grid"),
                    |c| {
                        let rows: Vec<Vec<String>> = new.iter().map(|r| r.iter().map(ToString::to_string).collect()).collect();
                        let m = compiled(&dir, &rows)?;
                        let cells: Vec<Vec<New>> = new.iter().map(|r| r.iter().map(|v| New::plain(if v.is_empty() { "" } else { "s:n" })).collect()).collect();
                        let mut h = vec![];
                        for o in &olds {
                            let mut g = Grid::new();
                            for (r, row) in o.iter().enumerate() {
                                for (q, k) in row.iter().enumerate() {
                                    if let Some(v) = old(k, (r * 10 + q) as u64) {
                                        g.insert((q as u64, r as u64), v);
                                    }
                                }
                            }
                            let after = write_check(&m, &vec![("m".into(), 0, g)], &Job { x: *x, y: *y, safe, tab: None, cells: &cells })?;
                            c.transitions += 1;
                            h.push(crate::rt::h64(&text_of(&after)));
                            c.state(*h.last().unwrap());
                        }
                        Ok(Outcome::of(&h))
                    },
                );
            }
        }
    }

    // 4. tabs
    let tabs = [("m", 0), ("other", 5), ("Third one", 0), ("é", 77)];
    for n in 0..=3 {
        words_n(&(0..tabs.len()).collect::<Vec<_>>(), n, &mut |w| {
            let distinct: BTreeSet<_> = w.iter().collect();
            if distinct.len() != w.len() {
                return;
            }
            for target in [None, Some("m"), Some("other"), Some("Third one"), Some("é"), Some("brand-new")] {
                for safe in [false, true] {
                    if !ctx.mine() {
                        ctx.skip(1);
                        continue;
                    }
                    ctx.case(
                        || format!("tabs {:?}, written to {target:?}, safe {safe}", w.iter().map(|i| tabs[*i]).collect::<Vec<_>>()),
                        |_| {
                            let m = compiled(&dir, &[vec!["a".into(), "=1 + B1".into()]])?;
                            let before: Tabs = w
                                .iter()
                                .enumerate()
                                .map(|(n, i)| {
                                    let g = (0..3).filter_map(|c| old(OLD[(n * 3 + c) % OLD.len()], n as u64).map(|v| ((c as u64, 0), v))).collect();
                                    (tabs[*i].0.to_string(), tabs[*i].1 + n as i64 * 1000, g)
                                })
                                .collect();
                            let cells = vec![vec![New::plain("s:a"), New::plain("f:(1 + B1)")]];
                            let after = write_check(&m, &before, &Job { x: 0, y: 0, safe, tab: target, cells: &cells })?;
                            Ok(Outcome::of(&text_of(&after)))
                        },
                    );
                }
            }
        });
    }

    // 5. sheets of many rows
    for n in [1, 2, 998, 999, 1000] {
        for top in [0, 1, 2, 999, 1000, 1001, 2000] {
            for (x, y) in [(0u64, 0u64), (2, 0), (0, 3), (1, 1000)] {
                for safe in [false, true] {
                    if ctx.quick() && safe != ((n + top) % 2 == 0) {
                        continue;
                    }
                    if !ctx.mine() {
                        ctx.skip(1);
                        continue;
                    }
                    ctx.case(
                        || format!("{top} rows, then {n} by a fill, at column {x} row {y}, safe {safe}"),
                        |_| {
                            let mut src: Vec<Vec<String>> = (0..top).map(|r| vec![format!("r{r}")]).collect();
                            let mut cells: Vec<Vec<New>> = (0..top).map(|r| vec![New::plain(&format!("s:r{r}"))]).collect();
                            src.push(vec![format!("![[fill={n}]]f"), "=A5".into()]);
                            cells.extend((0..n).map(|_| vec![New::plain("s:f"), New::plain("f:A5")]));
                            src.push(vec!["end".into()]);
                            cells.push(vec![New::plain("s:end")]);
                            let m = compiled(&dir, &src)?;
                            let mut g = Grid::new();
                            let h = cells.len() as u64;
                            for r in [0, 1, 2, 998, 999, 1000, 1001, 1999, 2000, 2001, h, h + y, h + y + 1] {
                                for c in 0..4 {
                                    if let Some(v) = old(OLD[((r + c) % 9) as usize], r) {
                                        g.insert((c, r), v);
                                    }
                                }
                            }
                            let after = write_check(&m, &vec![("m".into(), 3, g)], &Job { x, y, safe, tab: None, cells: &cells })?;
                            Ok(Outcome::of(&text_of(&after)))
                        },
                    );
                }
            }
        }
    }

    // 6. wide sheets, far places: all options and values in turn
    let all = kinds();
    for (w, h) in ctx.bound(vec![(30, 4), (130, 2), (3, 140), (703, 1)], vec![(1, 1100), (30, 40), (130, 8), (703, 2), (1500, 1), (2, 2030)]) {
        for (x, y) in [(0u64, 0u64), (25, 0), (26, 9), (701, 1), (0, 998), (5, 70_000)] {
            for step in ctx.bound(vec![1, 5], vec![1, 2, 3, 5, 7, 11]) {
                for safe in [false, true] {
                    if !ctx.mine() {
                        ctx.skip(1);
                        continue;
                    }
                    ctx.case(
                        || format!("{w} x {h} cells with every {step}th option at column {x} row {y}, safe {safe}"),
                        |_| {
                            let mut rows = vec![];
                            let mut cells = vec![];
                            for r in 0..h {
                                let (mut a, mut b) = (vec![], vec![]);
                                for c in 0..w {
                                    let i = (r * w + c) * step;
                                    let (src, val) = all[i % all.len()];
                                    let mut attrs = options::defaults();
                                    let mut text = src.to_string();
                                    if i % 3 != 0 {
                                        let o = &opts[i / 3 % opts.len()];
                                        options::set(&mut attrs, o.attr, &o.canon, o.adds());
                                        text = format!("[[{}]]{src}", o.text());
                                    }
                                    a.push(text);
                                    b.push(New { val: val.to_string(), attrs });
                                }
                                rows.push(a);
                                cells.push(b);
                            }
                            let m = compiled(&dir, &rows)?;
                            let mut g = Grid::new();
                            // (the spreadsheet that is there has to be small when the place is far away)
                            for (i, (dx, dy)) in (0..w as u64 + 2).flat_map(|dx| (0..h as u64 + 2).map(move |dy| (dx, dy))).enumerate() {
                                let at = ((x + dx).wrapping_sub(1), (y + dy).wrapping_sub(1));
                                if i % 2 == 0 && at.0 < 2000 && at.1 < 3000 {
                                    if let Some(v) = old(OLD[i / 2 % OLD.len()], i as u64) {
                                        g.insert(at, v);
                                    }
                                }
                            }
                            let after = write_check(&m, &vec![("m".into(), 3, g)], &Job { x, y, safe, tab: None, cells: &cells })?;
                            Ok(Outcome::of(&text_of(&after)))
                        },
                    );
                }
            }
        }
    }
}

pub fn prop() -> Prop {
    Prop {
        id: "C18",
        level: "model_checking",
        rule: "every option and pair of options, every kind of value over every kind of existing cell, every small sheet over every small grid at every offset, every set of tabs, and sheets around multiples of 1000 rows: the request that the real code builds is applied to a model of the spreadsheet and every cell is compared with what the source asks for; a state is a distinct content of the spreadsheet",
        bounds: |t| {
            if t == Tier::Quick {
                "every option and their pairs as cell and as row options; 23 values x 9 cells x 4 option lists x 4 places x safe; sheets <= 2x2 over <= 2x2 x 4 offsets x safe; <= 3 of 4 tabs x 6 names x safe; 35 heights up to 3001 rows x 4 offsets; 4 sizes up to 703 columns with all options in turn x 6 offsets x safe".into()
            } else {
                "as quick; sheets <= 2x2 over <= 3x2 x 7 offsets; 35 heights x 4 offsets x safe; 6 sizes up to 1500 columns and 2030 rows with all options in turn x 6 offsets x safe".into()
            }
        },
        run,
        hang_s: 120,
        workers: 0,
        assumptions: &["an UpdateCells request with all fields replaces exactly the cells it lists, from its start on", "the transport of the request to the server is not covered", "a formula that is just a number or boolean is that value"],
    }
}

//! The documented cell options, and a reference parser for option lists.
use std::collections::BTreeMap;

pub type Attrs = BTreeMap<&'static str, String>;

/// One documented way to set one attribute
#[derive(Clone, Debug)]
pub struct Opt {
    pub attr: &'static str,
    /// the option's name, long and short
    pub names: [&'static str; 2],
    /// what comes behind of the `=`, all of the spellings (long first); empty for options without
    pub values: Vec<String>,
    /// the attribute as the harness shows it
    pub canon: String,
}
impl Opt {
    pub fn text(&self) -> String {
        if self.values.is_empty() {
            self.names[0].to_string()
        } else {
            format!("{}={}", self.names[0], self.values[0])
        }
    }
    /// does setting it twice add up?
    pub fn adds(&self) -> bool {
        matches!(self.attr, "border" | "text")
    }
}

pub const NAMES: [(&str, &str); 16] = [
    ("border", "b"),
    ("bordercolor", "bc"),
    ("borderstyle", "bs"),
    ("color", "c"),
    ("validate", "dv"),
    ("fontcolor", "fc"),
    ("fontfamily", "ff"),
    ("fontsize", "fs"),
    ("halign", "ha"),
    ("lock", "l"),
    ("note", "n"),
    ("numberformat", "nf"),
    ("text", "t"),
    ("valign", "va"),
    ("var", "v"),
    ("wrap", "w"),
];

/// attribute -> (documented spellings, what it is)
pub fn choices(attr: &str) -> Vec<(Vec<&'static str>, &'static str)> {
    match attr {
        "border" => vec![(vec!["all", "a"], "All"), (vec!["top", "t"], "Top"), (vec!["bottom", "b"], "Bottom"), (vec!["left", "l"], "Left"), (vec!["right", "r"], "Right")],
        "borderstyle" => vec![
            (vec!["dashed", "dash"], "Dashed"),
            (vec!["dotted", "dot"], "Dotted"),
            (vec!["double", "dbl"], "Double"),
            (vec!["solid", "1"], "Solid"),
            (vec!["solid_medium", "2"], "SolidMedium"),
            (vec!["solid_thick", "3"], "SolidThick"),
        ],
        "halign" => vec![(vec!["left", "l"], "Left"), (vec!["center", "c"], "Center"), (vec!["right", "r"], "Right")],
        "valign" => vec![(vec!["bottom", "b"], "Bottom"), (vec!["center", "c"], "Center"), (vec!["top", "t"], "Top")],
        "numberformat" => vec![
            (vec!["currency", "c"], "Currency"),
            (vec!["date", "d"], "Date"),
            (vec!["datetime", "dt"], "DateTime"),
            (vec!["number", "n"], "Number"),
            (vec!["percent", "p"], "Percent"),
            (vec!["text"], "Text"),
            (vec!["time", "t"], "Time"),
            (vec!["scientific", "s"], "Scientific"),
        ],
        "text" => vec![(vec!["bold", "b"], "Bold"), (vec!["italic", "i"], "Italic"), (vec!["strikethrough", "s"], "Strikethrough"), (vec!["underline", "u"], "Underline")],
        "wrap" => vec![(vec!["wrap", "w"], "Wrap"), (vec!["overflow", "o"], "Overflow"), (vec!["clip", "c"], "Clip")],
        _ => vec![],
    }
}

pub enum Args {
    None,
    Date,
    TwoDates,
    Number,
    TwoNumbers,
    Text,
    Range,
    List,
}
/// the documented validations: their names, what they take and what they are
pub fn validations() -> Vec<(Vec<&'static str>, Args, &'static str)> {
    use Args::*;
    vec![
        (vec!["custom", "c"], Text, "Custom"),
        (vec!["date_after", "date_gt"], Date, "DateAfter"),
        (vec!["date_before", "date_lt"], Date, "DateBefore"),
        (vec!["date_between", "date_btwn"], TwoDates, "DateBetween"),
        (vec!["date_equal_to", "date_eq"], Date, "DateEqualTo"),
        (vec!["in_list"], List, "ValueInList"),
        (vec!["in_range"], Range, "ValueInRange"),
        (vec!["date_is_valid", "is_date"], None, "DateIsValid"),
        (vec!["is_valid_email", "is_email"], None, "TextIsValidEmail"),
        (vec!["is_valid_url", "is_url"], None, "TextIsValidUrl"),
        (vec!["date_not_between", "date_nbtwn"], TwoDates, "DateNotBetween"),
        (vec!["date_on_or_after", "date_gte"], Date, "DateOnOrAfter"),
        (vec!["date_on_or_before", "date_lte"], Date, "DateOnOrBefore"),
        (vec!["number_between", "number_btwn", "num_btwn"], TwoNumbers, "NumberBetween"),
        (vec!["number_equal_to", "number_eq", "num_eq"], Number, "NumberEqualTo"),
        (vec!["number_greater_than", "number_gt", "num_gt"], Number, "NumberGreaterThan"),
        (vec!["number_greater_than_or_equal_to", "number_gte", "num_gte"], Number, "NumberGreaterThanOrEqualTo"),
        (vec!["number_less_than", "number_lt", "num_lt"], Number, "NumberLessThan"),
        (vec!["number_less_than_or_equal_to", "number_lte", "num_lte"], Number, "NumberLessThanOrEqualTo"),
        (vec!["number_not_between", "number_nbtwn", "num_nbtwn"], TwoNumbers, "NumberNotBetween"),
        (vec!["number_not_equal_to", "number_neq", "num_neq"], Number, "NumberNotEqualTo"),
        (vec!["text_contains"], Text, "TextContains"),
        (vec!["text_does_not_contain"], Text, "TextDoesNotContain"),
        (vec!["text_equal_to", "text_eq"], Text, "TextEqualTo"),
    ]
}

/// every documented option with every (kind of) value
pub fn all() -> Vec<Opt> {
    let mut v = vec![];
    let mut put = |attr: &'static str, values: Vec<String>, canon: String| {
        let (long, short) = *NAMES.iter().find(|n| n.0 == attr).unwrap();
        v.push(Opt { attr, names: [long, short], values, canon });
    };
    for (attr, _) in NAMES {
        for (spellings, what) in choices(attr) {
            let canon = if attr == "border" || attr == "text" { format!("[{what:?}]") } else { what.to_string() };
            put(attr, spellings.iter().map(|s| (*s).to_string()).collect(), canon);
        }
    }
    for (attr, hex, canon) in [
        ("color", vec!["#112233", "112233", "#123"], "Rgb { r: 17, g: 34, b: 51 }"),
        ("color", vec!["#FF00aB", "FF00AB", "ff00ab"], "Rgb { r: 255, g: 0, b: 171 }"),
        ("bordercolor", vec!["#0080FF", "0080ff"], "Rgb { r: 0, g: 128, b: 255 }"),
        ("fontcolor", vec!["#C0FFEE", "c0ffee"], "Rgb { r: 192, g: 255, b: 238 }"),
    ] {
        put(attr, hex.iter().map(|s| (*s).to_string()).collect(), canon.to_string());
    }
    put("fontfamily", vec!["Arial".into(), "'Arial'".into()], "Arial".into());
    put("fontfamily", vec!["'Comic Sans'".into()], "Comic Sans".into());
    for n in ["1", "12", "255"] {
        put("fontsize", vec![n.into(), format!("0{n}")], n.into());
    }
    put("lock", vec![], "true".into());
    put("note", vec!["'n'".into(), "n".into()], "n".into());
    put("note", vec!["'it\\'s ]] a, \"[[note\" = é/'".into()], "it's ]] a, \"[[note\" = é/".into());
    put("var", vec!["a_1".into()], "a_1".into());
    for (names, args, what) in validations() {
        let forms: Vec<(Vec<String>, String)> = match args {
            Args::None => vec![(vec![String::new()], what.to_string())],
            Args::Date => vec![
                (vec!["(2024-01-02)".into(), "(1/2/2024)".into(), "(01/02/24)".into()], format!("{what}(Date(2024-01-02))")),
                (vec!["(1899-12-31)".into(), "(12/31/1899)".into()], format!("{what}(Date(1899-12-31))")),
            ],
            Args::TwoDates => vec![(vec!["(2024-01-02 2025-12-31)".into(), "( 1/2/24  12/31/2025 )".into()], format!("{what}(Date(2024-01-02), Date(2025-12-31))"))],
            Args::Number => vec![(vec!["(3)".into(), "( 3 )".into()], format!("{what}(3)")), (vec!["(-10)".into()], format!("{what}(-10)"))],
            Args::TwoNumbers => vec![(vec!["(-1 20)".into(), "( -1  20 )".into()], format!("{what}(-1, 20)"))],
            Args::Text => vec![(vec!["(foo)".into(), "('foo')".into()], format!("{what}(\"foo\")")), (vec!["('A1 > (2)')".into()], format!("{what}(\"A1 > (2)\")")), (vec!["('say \"x\"')".into()], format!("{what}({:?})", "say \"x\""))],
            Args::Range => vec![(vec!["(A1:B2)".into()], format!("{what}({:?})", range("A1:B2").unwrap())), (vec!["(C3)".into()], format!("{what}({:?})", range("C3").unwrap()))]
                .into_iter()
                .chain(["$A$1:$B$2", "Data!$C$3", "'Data'!A1:B9", "'Grö''ße'!A1", "Größe!$B$2:C3", "A:C", "2:5", "AA$10", "'2024'!A:$B"].map(|t| (vec![format!("({t})"), format!("( {t} )")], format!("{what}({:?})", range(t).unwrap()))))
                .collect(),
            Args::List => vec![
                (vec!["(1 two 'three')".into(), "( 1  two 'three' )".into()], format!("{what}(1;Rtwo;Tthree)")),
                (vec!["('x\"y' z)".into()], format!("{what}(Tx\"y;Rz)")),
                (vec!["(-2.5 2024-01-02)".into(), "(-2.5 1/2/24)".into()], format!("{what}(-2.5;D2024-01-02)")),
            ],
        };
        for (texts, canon) in forms {
            let mut values = vec![];
            for n in &names {
                for t in &texts {
                    values.push(format!("{n}{t}"));
                }
            }
            put("validate", values, canon);
        }
    }
    v
}

/// Lists of values are shown in a form of their own
pub fn normal(mut a: Attrs) -> Attrs {
    if let Some(v) = a.get_mut("validate") {
        if v.starts_with("ValueInList(") {
            *v = normal_list(v);
        }
    }
    a
}
fn unescaped(shown: &str) -> String {
    let t = &shown[..shown.rfind('"').unwrap_or(shown.len())];
    t.replace("\\\"", "\"").replace("\\'", "'").replace("\\\\", "\\")
}
fn normal_list(v: &str) -> String {
    // ValueInList([Ast(Integer { value: 1, percentage: false, sign: None }), Ast(Reference("two")), Ast(Text("three"))])
    let mut out = vec![];
    for item in v.split("Ast(").skip(1) {
        let num = |i: &str| i.split("value: ").nth(1).and_then(|s| s.split([',', ' ']).next()).unwrap_or("?").to_string();
        let minus = if item.contains("sign: Some(Minus") { "-" } else { "" };
        if item.starts_with("Integer") || item.starts_with("Float") {
            out.push(format!("{minus}{}", num(item)));
        } else if let Some(r) = item.strip_prefix("Reference(\"") {
            out.push(format!("R{}", unescaped(r)));
        } else if let Some(r) = item.strip_prefix("Text(\"") {
            out.push(format!("T{}", unescaped(r)));
        } else if let Some(r) = item.strip_prefix("DateTime(Date(") {
            out.push(format!("D{}", r.split(')').next().unwrap()));
        } else {
            return v.to_string();
        }
    }
    format!("ValueInList({})", out.join(";"))
}

pub fn defaults() -> Attrs {
    [("borderstyle", "Solid"), ("halign", "Center"), ("lock", "false"), ("numberformat", "Text"), ("wrap", "Wrap"), ("valign", "Center")]
        .into_iter()
        .map(|(k, v)| (k, v.to_string()))
        .collect()
}

pub fn set(a: &mut Attrs, attr: &'static str, canon: &str, adds: bool) {
    if adds {
        let mut all: Vec<String> = a.get(attr).map(|s| s[1..s.len() - 1].split(", ").map(ToString::to_string).collect()).unwrap_or_default();
        let new = canon[1..canon.len() - 1].to_string();
        if !all.contains(&new) {
            all.push(new);
        }
        all.sort();
        // shown like the Debug of a list of shown names
        a.insert(attr, format!("[{}]", all.join(", ")));
    } else {
        a.insert(attr, canon.to_string());
    }
}

/// What a cell's text means
#[derive(Clone, Debug, PartialEq)]
pub struct Parsed {
    pub row: Attrs,
    pub fill: Option<Option<usize>>,
    /// None when there is no list of cell options
    pub cell: Option<Attrs>,
    pub value: String,
}

/// a cell, or a range of cells, columns or rows, of this or of another sheet
pub fn range(t: &str) -> Option<a1::A1> {
    let (sheet, cells) = if let Some(r) = t.strip_prefix('\'') {
        let mut c = r.char_indices().peekable();
        loop {
            match c.next() {
                None => return None,
                Some((_, '\'')) if c.peek().is_some_and(|n| n.1 == '\'') => {
                    c.next();
                }
                Some((i, '\'')) => match r[i + 1..].strip_prefix('!') {
                    Some(cells) => break (Some(r[..i].replace("''", "'")), cells),
                    None => return None,
                },
                _ => (),
            }
        }
    } else {
        t.split_once('!').map_or((None, t), |s| (Some(s.0.to_string()), s.1))
    };
    let part = |s: &str, letters: bool, digits: bool| {
        let mut s = s;
        if letters {
            s = s.strip_prefix('$').unwrap_or(s);
            let r = s.trim_start_matches(|c: char| c.is_ascii_alphabetic());
            if !(1..=13).contains(&(s.len() - r.len())) {
                return false;
            }
            s = r;
        }
        if digits {
            s = s.strip_prefix('$').unwrap_or(s);
            return s.bytes().all(|b| b.is_ascii_digit()) && s.parse::<usize>().is_ok_and(|n| n > 0);
        }
        s.is_empty()
    };
    let ok = match cells.split_once(':') {
        None => part(cells, true, true),
        Some((l, r)) => [(true, true), (true, false), (false, true)].iter().any(|(c, d)| part(l, *c, *d) && part(r, *c, *d)),
    };
    Some(a1::A1 { sheet_name: sheet, reference: ok.then(|| cells.parse().ok()).flatten()? })
}

/// A range as it's written in the output: quoted where the name of the sheet needs it
pub fn shown_range(t: &str) -> String {
    match range(t) {
        Some(a) if t.starts_with('\'') || a.sheet_name.as_ref().is_none_or(|n| n.chars().all(char::is_alphanumeric) && n.starts_with(char::is_alphabetic)) => format!("{a:?}"),
        _ => t.to_string(),
    }
}

struct P<'a> {
    s: &'a str,
}
impl<'a> P<'a> {
    fn ws(&mut self) {
        self.s = self.s.trim_start();
    }
    fn eat(&mut self, t: &str) -> bool {
        self.ws();
        if let Some(r) = self.s.strip_prefix(t) {
            self.s = r;
            true
        } else {
            false
        }
    }
    fn need(&mut self, t: &str) -> Option<()> {
        self.eat(t).then_some(())
    }
    fn run(&mut self, f: impl Fn(char) -> bool) -> Option<&'a str> {
        self.ws();
        let n = self.s.find(|c| !f(c)).unwrap_or(self.s.len());
        let (a, b) = self.s.split_at(n);
        self.s = b;
        (n > 0).then_some(a)
    }
    fn string(&mut self) -> Option<String> {
        self.ws();
        if !self.s.starts_with('\'') {
            return self.run(char::is_alphanumeric).map(ToString::to_string);
        }
        let mut out = String::new();
        let mut it = self.s.char_indices().skip(1);
        while let Some((i, c)) = it.next() {
            match c {
                '\\' => out.push(it.next()?.1),
                '\'' => {
                    self.s = &self.s[i + 1..];
                    return Some(out);
                }
                c => out.push(c),
            }
        }
        None
    }
    fn color(&mut self) -> Option<String> {
        self.need("=")?;
        self.eat("#");
        // (no space between the sign and the digits)
        if self.s.starts_with(char::is_whitespace) {
            return None;
        }
        let t = self.run(char::is_alphanumeric)?;
        let hex = |s: &str| u8::from_str_radix(s, 16).ok();
        if !t.is_ascii() || !t.chars().all(|c| c.is_ascii_hexdigit()) {
            return None;
        }
        let (r, g, b) = match t.len() {
            3 => (hex(&t[..1].repeat(2))?, hex(&t[1..2].repeat(2))?, hex(&t[2..].repeat(2))?),
            6 => (hex(&t[..2])?, hex(&t[2..4])?, hex(&t[4..])?),
            _ => return None,
        };
        Some(format!("Rgb {{ r: {r}, g: {g}, b: {b} }}"))
    }
    fn digits(s: &str) -> usize {
        s.bytes().take_while(u8::is_ascii_digit).count()
    }
    /// the longest date at the start: year-month-day or month/day/year
    fn date(&mut self) -> Option<Option<String>> {
        self.ws();
        let b = self.s;
        let n = Self::digits(b);
        let (y, m, d, len) = if n >= 4 && b[4..].starts_with('-') && Self::digits(&b[5..]) >= 2 && b[7..].starts_with('-') && Self::digits(&b[8..]) >= 2 && n == 4 && Self::digits(&b[5..]) == 2 {
            (b[..4].parse().ok()?, b[5..7].parse().ok()?, b[8..10].parse().ok()?, 10)
        } else if (1..=2).contains(&n) && b[n..].starts_with('/') {
            let r = &b[n + 1..];
            let k = Self::digits(r);
            if !(1..=2).contains(&k) || !r[k..].starts_with('/') {
                return None;
            }
            let t = &r[k + 1..];
            let j = Self::digits(t).min(4);
            if j < 2 {
                return None;
            }
            let year: i32 = t[..j].parse().ok()?;
            let year = if j > 2 { year } else if year < 70 { 2000 + year } else { 1900 + year };
            (year, b[..n].parse::<u32>().ok()?, r[..k].parse::<u32>().ok()?, n + 1 + k + 1 + j)
        } else {
            return None;
        };
        self.s = &b[len..];
        let leap = y % 4 == 0 && (y % 100 != 0 || y % 400 == 0);
        let last = [31, if leap { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];
        let ok = (1..=12).contains(&m) && d >= 1 && d <= last[m as usize - 1];
        Some(ok.then(|| format!("{y:04}-{m:02}-{d:02}")))
    }
    fn number(&mut self) -> Option<i64> {
        self.run(|c| c.is_ascii_digit() || c == '-' || c == '.')?.parse().ok()
    }
    fn validate(&mut self) -> Option<String> {
        self.need("=")?;
        let name = self.run(|c| c.is_alphanumeric() || c == '_')?.to_lowercase();
        let (_, args, what) = validations().into_iter().find(|v| v.0.contains(&name.as_str()))?;
        if matches!(args, Args::None) {
            return Some(what.to_string());
        }
        self.need("(")?;
        let r = match args {
            Args::None => unreachable!(),
            Args::Date => format!("Date({})", self.date()??),
            Args::TwoDates => format!("Date({}), Date({})", self.date()??, self.date()??),
            Args::Number => self.number()?.to_string(),
            Args::TwoNumbers => format!("{}, {}", self.number()?, self.number()?),
            Args::Text => format!("{:?}", self.string()?),
            Args::Range => {
                let t = self.run(|c| c.is_alphanumeric() || "!':$".contains(c))?;
                format!("{:?}", range(t)?)
            }
            Args::List => {
                let mut v = vec![];
                loop {
                    self.ws();
                    if let Some(d) = self.date() {
                        v.push(format!("D{}", d?));
                    } else if let Some(n) = self.list_number() {
                        v.push(n?);
                    } else if self.s.starts_with('\'') {
                        v.push(format!("T{}", self.string()?));
                    } else {
                        v.push(format!("R{}", self.run(|c| c.is_alphanumeric() || c == '_')?));
                    }
                    self.ws();
                    if self.s.starts_with(')') {
                        break;
                    }
                }
                v.join(";")
            }
        };
        self.need(")")?;
        Some(format!("{what}({r})"))
    }
    fn list_number(&mut self) -> Option<Option<String>> {
        let b = self.s;
        let sign = usize::from(b.starts_with('-'));
        let n = Self::digits(&b[sign..]);
        if n == 0 {
            return None;
        }
        let mut len = sign + n;
        let mut float = false;
        if b[len..].starts_with('.') && Self::digits(&b[len + 1..]) > 0 {
            len += 1 + Self::digits(&b[len + 1..]);
            float = true;
        }
        self.s = &b[len..];
        Some(if float { b[..len].parse::<f64>().ok().map(|f| format!("{f:?}")) } else { b[..len].parse::<i64>().ok().map(|i| i.to_string()) })
    }
}

/// `first`: is it the first cell of its row?
pub fn parse(text: &str, first: bool) -> Option<Parsed> {
    let mut p = P { s: text };
    let mut out = Parsed { row: Attrs::new(), fill: None, cell: None, value: String::new() };
    loop {
        let is_row = if p.eat("[[") {
            if out.cell.is_some() {
                return None;
            }
            false
        } else if p.eat("![[") {
            if !first {
                return None;
            }
            true
        } else {
            break;
        };
        let mut a = if is_row { std::mem::take(&mut out.row) } else { Attrs::new() };
        loop {
            let name = p.run(char::is_alphanumeric)?;
            if name == "fill" || name == "f" {
                if !is_row {
                    return None;
                }
                out.fill = Some(if p.eat("=") { Some(p.run(|c| c.is_ascii_digit())?.parse().ok()?) } else { None });
            } else {
                let (attr, _) = *NAMES.iter().find(|n| n.0 == name || n.1 == name)?;
                match attr {
                    "bordercolor" | "color" | "fontcolor" => {
                        let c = p.color()?;
                        set(&mut a, attr, &c, false);
                    }
                    "fontfamily" | "note" => {
                        p.need("=")?;
                        let s = p.string()?;
                        set(&mut a, attr, &s, false);
                    }
                    "fontsize" => {
                        p.need("=")?;
                        let n: u8 = p.run(|c| c.is_ascii_digit())?.parse().ok()?;
                        set(&mut a, attr, &n.to_string(), false);
                    }
                    "lock" => set(&mut a, attr, "true", false),
                    "validate" => {
                        let v = p.validate()?;
                        set(&mut a, attr, &v, false);
                    }
                    "var" => {
                        p.need("=")?;
                        let v = p.run(|c| c.is_alphanumeric() || c == '_')?;
                        set(&mut a, attr, v, false);
                    }
                    attr => {
                        p.need("=")?;
                        let v = p.run(|c| c.is_alphanumeric() || c == '_')?.to_lowercase();
                        let (_, what) = choices(attr).into_iter().find(|c| c.0.contains(&v.as_str()))?;
                        if attr == "border" || attr == "text" {
                            set(&mut a, attr, &format!("[{what:?}]"), true);
                        } else {
                            set(&mut a, attr, what, false);
                        }
                    }
                }
            }
            if !p.eat("/") && p.eat("]]") {
                break;
            }
        }
        if is_row {
            out.row = a;
        } else {
            out.cell = Some(a);
        }
    }
    out.value = p.s.trim().to_string();
    Some(out)
}

/// the attributes of a cell in a row
pub fn attrs(row: &Attrs, cell: Option<&Attrs>) -> Attrs {
    let mut a = defaults();
    for (k, v) in row {
        // the row's variable is the row's
        if *k != "var" {
            a.insert(k, v.clone());
        }
    }
    for (k, v) in cell.into_iter().flatten() {
        if *k == "border" || *k == "text" {
            for one in v[1..v.len() - 1].split(", ") {
                set(&mut a, k, &format!("[{one}]"), true);
            }
        } else {
            a.insert(k, v.clone());
        }
    }
    a
}

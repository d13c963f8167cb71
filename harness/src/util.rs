//! Shared helpers: enumeration, compiling through the public API, scratch projects.
#![allow(dead_code)]
use csvpp::{CliArgs, Compiler, Module, Result};
use std::path::{Path, PathBuf};

/// Visit every word over `alphabet` of length 0..=max in order of length. Depth first per length.
pub fn words<T: Clone>(alphabet: &[T], max: usize, f: &mut dyn FnMut(&[T])) {
    for n in 0..=max {
        words_n(alphabet, n, f);
    }
}
pub fn words_n<T: Clone>(alphabet: &[T], n: usize, f: &mut dyn FnMut(&[T])) {
    let k = alphabet.len();
    let mut ix = vec![0usize; n];
    let mut w: Vec<T> = (0..n).map(|_| alphabet[0].clone()).collect();
    loop {
        f(&w);
        let mut p = n;
        loop {
            if p == 0 {
                return;
            }
            p -= 1;
            ix[p] += 1;
            if ix[p] < k {
                w[p] = alphabet[ix[p]].clone();
                break;
            }
            ix[p] = 0;
            w[p] = alphabet[0].clone();
        }
    }
}

/// all tuples of the given radices
pub fn product(radices: &[usize], f: &mut dyn FnMut(&[usize])) {
    let n = radices.len();
    if radices.iter().any(|r| *r == 0) {
        return;
    }
    let mut ix = vec![0usize; n];
    loop {
        f(&ix);
        let mut p = n;
        loop {
            if p == 0 {
                return;
            }
            p -= 1;
            ix[p] += 1;
            if ix[p] < radices[p] {
                break;
            }
            ix[p] = 0;
        }
    }
}

pub fn write(p: &Path, s: &str) {
    std::fs::write(p, s).unwrap();
}

pub fn clean_dir(d: &Path) {
    if let Ok(rd) = std::fs::read_dir(d) {
        for e in rd.flatten() {
            let p = e.path();
            if p.is_dir() {
                let _ = std::fs::remove_dir_all(&p);
            } else {
                let _ = std::fs::remove_file(&p);
            }
        }
    }
}

pub fn fresh_dir(d: &Path) {
    std::fs::create_dir_all(d).unwrap();
    clean_dir(d);
}

/// compile `main` (a path) without cache
pub fn compile_path(main: &Path, kv: &[&str], no_cache: bool, out: &Path) -> Result<Module> {
    let c = compiler(main, kv, no_cache, out)?;
    c.compile()
}

pub fn compiler(main: &Path, kv: &[&str], no_cache: bool, out: &Path) -> Result<Compiler> {
    Compiler::try_from(&CliArgs {
        input_filename: main.to_path_buf(),
        output_filename: Some(out.to_path_buf()),
        no_cache,
        key_values: kv.iter().map(|s| (*s).to_string()).collect(),
        ..CliArgs::default()
    })
}

/// write `src` as the only module of `dir` and compile it
pub fn compile_src(dir: &Path, src: &str, kv: &[&str]) -> Result<Module> {
    let f: PathBuf = dir.join("m.csvpp");
    write(&f, src);
    let _ = std::fs::remove_file(dir.join("m.csvpo"));
    compile_path(&f, kv, true, Path::new("out.csv"))
}

/// The text a file target would write for a cell: the formula for formulas, else the value.
pub fn cell_text(ast: &Option<impl std::fmt::Display>, value: &str) -> String {
    match ast {
        Some(a) => format!("={a}"),
        None => value.to_string(),
    }
}

/// the sheet as rows of texts
pub fn sheet(m: &Module) -> Vec<Vec<String>> {
    m.spreadsheet.rows.iter().map(|r| r.cells.iter().map(|c| cell_text(&c.ast, &c.parsed_value)).collect()).collect()
}

pub fn esc(s: &str) -> String {
    format!("{s:?}")
}

/// a CSV field holding `value`, quoted when it must be
pub fn cell_field(value: &str) -> String {
    format!("\"{}\"", value.replace('"', "\"\""))
}

/// Where an error says the problem is
pub struct ErrorAt {
    /// line and column, from 0
    pub at: (usize, usize),
    pub highlighted: Vec<String>,
    pub shown: String,
}
pub fn error_at(e: &csvpp::Error) -> Option<ErrorAt> {
    use csvpp::Error as E;
    match e {
        E::CellSyntaxError { parse_error: p, .. } | E::CodeSyntaxError { parse_error: p, .. } | E::CsvParseError { parse_error: p, .. } => Some(ErrorAt {
            at: (p.position.line_number, p.position.line_offset),
            highlighted: p.highlighted_lines.clone(),
            shown: e.to_string(),
        }),
        _ => None,
    }
}
fn plain(s: &str) -> String {
    let mut out = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\u{1b}' {
            for d in it.by_ref() {
                if d.is_alphabetic() {
                    break;
                }
            }
        } else {
            out.push(c);
        }
    }
    out
}
impl ErrorAt {
    /// the message names the line and shows it, with a mark below the column
    pub fn quoted(&self, src: &str) -> std::result::Result<(), crate::rt::Fail> {
        let fail = |m: String| Err(crate::rt::Fail::new(m));
        let shown = plain(&self.shown);
        if !shown.contains(&format!("line {}", self.at.0 + 1)) {
            return fail(format!("the message does not name line {}: {shown}", self.at.0 + 1));
        }
        let lines: Vec<&str> = src.lines().collect();
        if self.at.0 >= lines.len() {
            return Ok(());
        }
        let hl: Vec<String> = self.highlighted.iter().map(|l| plain(l)).collect();
        let mark = format!(": {}^", "-".repeat(self.at.1));
        let Some(i) = hl.iter().position(|l| l.ends_with(&mark)) else {
            return fail(format!("no mark at column {} in {hl:?}", self.at.1));
        };
        let ok = i > 0
            && hl[i - 1].trim_start().strip_prefix(&(self.at.0 + 1).to_string()).is_some_and(|r| r.trim_start() == format!(": {}", lines[self.at.0]));
        if !ok {
            return fail(format!("the quoted lines {hl:?} do not show line {} above the mark", self.at.0 + 1));
        }
        Ok(())
    }
}

pub fn sorted<T: std::fmt::Debug>(s: impl IntoIterator<Item = T>) -> Vec<String> {
    let mut v: Vec<String> = s.into_iter().map(|x| format!("{x:?}")).collect();
    v.sort();
    v
}
/// the options of a cell
#[macro_export]
macro_rules! cell_options {
    ($c:expr) => {{
    let c = $c;
        let mut o = std::collections::BTreeMap::<&'static str, String>::new();
    let mut put = |k, v: Option<String>| {
        if let Some(v) = v {
            o.insert(k, v);
        }
    };
    put("bordercolor", c.border_color.as_ref().map(|x| format!("{x:?}")));
    put("borderstyle", Some(format!("{:?}", c.border_style)));
    put("border", (!c.borders.is_empty()).then(|| format!("{:?}", $crate::util::sorted(&c.borders))));
    put("color", c.color.as_ref().map(|x| format!("{x:?}")));
    put("validate", c.data_validation.as_ref().map(|x| format!("{x:?}")));
    put("fontcolor", c.font_color.as_ref().map(|x| format!("{x:?}")));
    put("fontfamily", c.font_family.clone());
    put("fontsize", c.font_size.as_ref().map(ToString::to_string));
    put("halign", Some(format!("{:?}", c.horizontal_align)));
    put("lock", Some(c.lock.to_string()));
    put("note", c.note.clone());
    put("numberformat", Some(format!("{:?}", c.number_format)));
    put("text", (!c.text_formats.is_empty()).then(|| format!("{:?}", $crate::util::sorted(&c.text_formats))));
    put("wrap", Some(format!("{:?}", c.text_wrap)));
    put("var", c.var.clone());
    put("valign", Some(format!("{:?}", c.vertical_align)));
    o
    }};
}
/// everything about the rows and cells of a sheet
pub fn full_sheet(m: &Module) -> String {
    let mut s = String::new();
    for r in &m.spreadsheet.rows {
        s.push_str(&format!("row fill={:?} var={:?}\n", r.fill, r.var));
        for c in &r.cells {
            s.push_str(&format!("  {:?} {:?} {:?}\n", cell_text(&c.ast, &c.parsed_value), c.field.address, cell_options!(c)));
        }
    }
    s
}

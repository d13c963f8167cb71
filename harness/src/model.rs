//! Reference model of a whole module: sections, definitions and what a formula expands to.
#![allow(dead_code)]
use crate::formula::{lex, Assoc, Tok, P, T};
use std::collections::BTreeMap;

/// The two sections: (code, cells, number of lines above the cells)
pub fn split(text: &str) -> (Option<String>, String, usize) {
    let lines: Vec<&str> = text.lines().collect();
    match lines.iter().position(|l| l.trim() == "---") {
        Some(p) => (Some(lines[..p].join("\n")), lines[p + 1..].join("\n"), p + 1),
        None => (None, text.to_string(), 0),
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Def {
    Use(String),
    Var(String, T),
    Fn(String, Vec<String>, T),
}

/// (line, column) of a character
pub fn line_col(text: &str, index: usize) -> (usize, usize) {
    let (mut l, mut o) = (0, 0);
    for c in text.chars().take(index) {
        if c == '\n' {
            l += 1;
            o = 0;
        } else {
            o += 1;
        }
    }
    (l, o)
}

/// Why a text is rejected: at one of these characters, or at its end
#[derive(Clone, Debug, PartialEq)]
pub struct Reject {
    pub at: Vec<usize>,
    pub at_end: bool,
}

/// The definitions of a code section in the order written
pub fn parse_code(code: &str, assoc: Assoc) -> Result<Vec<Def>, Reject> {
    let (toks, lex_err) = match lex(code) {
        Ok(t) => (t, None),
        Err(i) => {
            let cut: String = code.chars().take(i).collect();
            (lex(&cut).unwrap_or_default(), Some(i))
        }
    };
    let r = statements(&toks, assoc);
    let mut rej = Reject { at: vec![], at_end: false };
    // a text that isn't closed: at any quote from where it starts
    if let Some(i) = lex_err.filter(|i| code.chars().nth(*i) == Some('"')) {
        rej.at.extend(code.chars().enumerate().filter(|(k, c)| *k > i && *c == '"').map(|x| x.0));
    }
    match (r, lex_err) {
        (Ok(d), None) => return Ok(d),
        (Ok(_), Some(i)) => rej.at.push(i),
        (Err(i), e) => {
            rej.at.extend(e);
            if i < toks.len() {
                rej.at.push(toks[i].1);
            } else if e.is_none() {
                rej.at_end = true;
            }
        }
    }
    Err(rej)
}

/// Err(index of the offending token)
pub fn statements(toks: &[(Tok, usize)], assoc: Assoc) -> Result<Vec<Def>, usize> {
    let mut p = P::new(toks, assoc);
    let mut out = vec![];
    while let Some(t) = p.peek().cloned() {
        let name = |p: &mut P, k: usize| -> Result<String, usize> {
            match p.peek() {
                Some(Tok::Name(n)) => {
                    let n = n.clone();
                    p.i += 1;
                    Ok(n)
                }
                _ => Err(k),
            }
        };
        let punct = |p: &mut P, want: &Tok| -> Result<(), usize> {
            if p.peek() == Some(want) {
                p.i += 1;
                Ok(())
            } else {
                Err(p.i)
            }
        };
        match t {
            Tok::Keyword(k) if k == "use" => {
                p.i += 1;
                let n = match p.peek() {
                    Some(Tok::Name(n) | Tok::Num(n) | Tok::Text(n)) => n.clone(),
                    Some(Tok::Bool(b)) => b.to_string(),
                    _ => return Err(p.i),
                };
                p.i += 1;
                out.push(Def::Use(n));
            }
            Tok::Keyword(k) if k == "fn" => {
                p.i += 1;
                let at = p.i;
                let n = name(&mut p, at)?;
                punct(&mut p, &Tok::Open)?;
                let mut args = vec![];
                loop {
                    if p.peek() == Some(&Tok::Close) {
                        p.i += 1;
                        break;
                    }
                    let at = p.i;
                    args.push(name(&mut p, at)?);
                    match p.peek() {
                        Some(Tok::Comma) => p.i += 1,
                        Some(Tok::Close) => (),
                        _ => return Err(p.i),
                    }
                }
                let body = p.expr().ok_or_else(|| p.err.unwrap_or(0))?;
                out.push(Def::Fn(n, args, body));
            }
            Tok::Name(n) => {
                p.i += 1;
                punct(&mut p, &Tok::Keyword(":=".into()))?;
                let e = p.expr().ok_or_else(|| p.err.unwrap_or(0))?;
                out.push(Def::Var(n, e));
            }
            _ => return Err(p.i),
        }
    }
    Ok(out)
}

#[derive(Clone, Debug, Default)]
pub struct Defs {
    pub vars: BTreeMap<String, T>,
    pub fns: BTreeMap<String, (Vec<String>, T)>,
}
impl Defs {
    /// a later definition replaces an earlier one
    pub fn of(defs: &[Def]) -> Defs {
        let mut d = Defs::default();
        for x in defs {
            match x {
                Def::Use(_) => (),
                Def::Var(n, t) => {
                    d.vars.insert(n.clone(), t.clone());
                }
                Def::Fn(n, a, t) => {
                    d.fns.insert(n.clone(), (a.clone(), t.clone()));
                }
            }
        }
        d
    }
    /// definitions of `other` that aren't here yet
    pub fn adopt(&mut self, other: &Defs) {
        for (k, v) in &other.vars {
            self.vars.entry(k.clone()).or_insert_with(|| v.clone());
        }
        for (k, v) in &other.fns {
            self.fns.entry(k.clone()).or_insert_with(|| v.clone());
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Stop {
    /// expected, received
    Arity(usize, usize),
    Cycle,
}

/// `t` with every defined name replaced until none is left. `eager`: arguments are expanded before
/// the call (a cycle in an argument that is not used counts), otherwise after.
pub fn expand(t: &T, d: &Defs) -> Result<T, Stop> {
    ex(t, d, &BTreeMap::new(), &mut vec![])
}

fn ex(t: &T, d: &Defs, params: &BTreeMap<String, T>, open: &mut Vec<(bool, String)>) -> Result<T, Stop> {
    Ok(match t {
        T::Infix(o, l, r) => T::Infix(o.clone(), Box::new(ex(l, d, params, open)?), Box::new(ex(r, d, params, open)?)),
        T::Ref(n) => {
            if let Some(p) = params.get(n) {
                return Ok(p.clone());
            }
            match d.vars.get(n) {
                None => t.clone(),
                Some(v) => enter((false, n.clone()), open, |open| ex(v, d, &BTreeMap::new(), open))?,
            }
        }
        T::Call(n, a) => {
            let a = a.iter().map(|x| ex(x, d, params, open)).collect::<Result<Vec<_>, _>>()?;
            match d.fns.get(n) {
                None => T::Call(n.clone(), a),
                Some((ps, body)) => {
                    if ps.len() != a.len() {
                        return Err(Stop::Arity(ps.len(), a.len()));
                    }
                    let m = ps.iter().cloned().zip(a).collect();
                    enter((true, n.clone()), open, |open| ex(body, d, &m, open))?
                }
            }
        }
        t => t.clone(),
    })
}

fn enter(k: (bool, String), open: &mut Vec<(bool, String)>, f: impl FnOnce(&mut Vec<(bool, String)>) -> Result<T, Stop>) -> Result<T, Stop> {
    if open.contains(&k) {
        return Err(Stop::Cycle);
    }
    open.push(k);
    let r = f(open);
    open.pop();
    r
}

/// Everything the expansion of a formula can stop at, in whatever order its parts are expanded
pub fn stops(t: &T, d: &Defs) -> Vec<Stop> {
    let mut out = vec![];
    walk(t, d, &BTreeMap::new(), &mut vec![], &mut out);
    out
}
fn walk(t: &T, d: &Defs, params: &BTreeMap<String, T>, open: &mut Vec<(bool, String)>, out: &mut Vec<Stop>) -> T {
    match t {
        T::Infix(o, l, r) => T::Infix(o.clone(), Box::new(walk(l, d, params, open, out)), Box::new(walk(r, d, params, open, out))),
        T::Ref(n) => {
            if let Some(p) = params.get(n) {
                return p.clone();
            }
            let Some(v) = d.vars.get(n) else { return t.clone() };
            into((false, n.clone()), t, open, out, |open, out| walk(v, d, &BTreeMap::new(), open, out))
        }
        T::Call(n, a) => {
            let a: Vec<T> = a.iter().map(|x| walk(x, d, params, open, out)).collect();
            match d.fns.get(n) {
                None => T::Call(n.clone(), a),
                Some((ps, _)) if ps.len() != a.len() => {
                    out.push(Stop::Arity(ps.len(), a.len()));
                    t.clone()
                }
                Some((ps, body)) => {
                    let m = ps.iter().cloned().zip(a).collect();
                    into((true, n.clone()), t, open, out, |open, out| walk(body, d, &m, open, out))
                }
            }
        }
        t => t.clone(),
    }
}
fn into(
    k: (bool, String),
    t: &T,
    open: &mut Vec<(bool, String)>,
    out: &mut Vec<Stop>,
    f: impl FnOnce(&mut Vec<(bool, String)>, &mut Vec<Stop>) -> T,
) -> T {
    if open.contains(&k) {
        out.push(Stop::Cycle);
        return t.clone();
    }
    open.push(k);
    let r = f(open, out);
    open.pop();
    r
}

/// The definitions of `own` expanded in the scope of `visible`, as importing modules get them. The
/// parameters get names nothing in a source can have.
pub fn close(own: &Defs, visible: &Defs) -> Result<Defs, Stop> {
    let mut out = Defs::default();
    for (n, t) in &own.vars {
        out.vars.insert(n.clone(), enter((false, n.clone()), &mut vec![], |o| ex(t, visible, &BTreeMap::new(), o))?);
    }
    for (n, (ps, body)) in &own.fns {
        let fresh: Vec<String> = ps.iter().map(|p| if p.starts_with('\u{1}') { p.clone() } else { format!("\u{1}{p}") }).collect();
        let m = ps.iter().cloned().zip(fresh.iter().map(|p| T::Ref(p.clone()))).collect();
        out.fns.insert(n.clone(), (fresh, enter((true, n.clone()), &mut vec![], |o| ex(body, visible, &m, o))?));
    }
    Ok(out)
}

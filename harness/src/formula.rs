//! Reference model of formulas: an independent lexer and precedence parser, used to say what a
//! formula denotes. Shared by the explorers.
#![allow(dead_code)]

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum T {
    /// normalised decimal text (no redundant zeros), sign folded in, percentage
    Num(String, bool),
    Bool(bool),
    Text(String),
    /// an argument left out
    Empty,
    Ref(String),
    Call(String, Vec<T>),
    Infix(String, Box<T>, Box<T>),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Tok {
    Num(String),
    Bool(bool),
    Text(String),
    Name(String),
    Op(String),
    Open,
    Close,
    Comma,
    /// `:=`, `use`, `fn `: never part of an expression
    Keyword(String),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Assoc {
    Left,
    Right,
}

pub fn word_char(c: char) -> bool {
    c.is_alphanumeric() || c == '_'
}
fn name_start(c: char) -> bool {
    word_char(c) || c == '$' || c == '!'
}

/// Tokens with the index of their first character. Err(index) at a character that starts no token.
pub fn lex(s: &str) -> Result<Vec<(Tok, usize)>, usize> {
    let c: Vec<char> = s.chars().collect();
    let at = |i: usize| c.get(i).copied();
    let mut i = 0;
    let mut out = vec![];
    while let Some(ch) = at(i) {
        if ch == '\r' && at(i + 1) != Some('\n') {
            // a lone carriage return is neither a blank nor a newline
            if c[i..].iter().all(|x| x.is_whitespace()) {
                break;
            }
            return Err(i);
        }
        if ch.is_whitespace() {
            i += 1;
            continue;
        }
        if ch == '#' {
            while at(i).is_some_and(|x| x != '\n') {
                i += 1;
            }
            continue;
        }
        let start = i;
        if ch == '"' {
            let mut t = String::new();
            i += 1;
            loop {
                match at(i) {
                    None => return Err(start),
                    Some('"') if at(i + 1) == Some('"') => {
                        t.push('"');
                        i += 2;
                    }
                    Some('"') => {
                        i += 1;
                        break;
                    }
                    Some(x) => {
                        t.push(x);
                        i += 1;
                    }
                }
            }
            out.push((Tok::Text(t), start));
            continue;
        }
        if ch == ':' && at(i + 1) == Some('=') {
            i += 2;
            out.push((Tok::Keyword(":=".into()), start));
            continue;
        }
        if let Some(t) = match ch {
            ',' => Some(Tok::Comma),
            '(' => Some(Tok::Open),
            ')' => Some(Tok::Close),
            _ => None,
        } {
            i += 1;
            out.push((t, start));
            continue;
        }
        let two: String = c[i..c.len().min(i + 2)].iter().collect();
        if ["<=", ">=", "<>"].contains(&two.as_str()) {
            i += 2;
            out.push((Tok::Op(two), start));
            continue;
        }
        if "^+-*/&%<>=".contains(ch) {
            i += 1;
            out.push((Tok::Op(ch.to_string()), start));
            continue;
        }
        if ch.is_ascii_digit() {
            let mut j = i;
            while at(j).is_some_and(|x| x.is_ascii_digit()) {
                j += 1;
            }
            // rows: 1:1 or 1:$1
            if at(j) == Some(':') {
                let mut k = j + 1;
                if at(k) == Some('$') {
                    k += 1;
                }
                if at(k).is_some_and(|x| x.is_ascii_digit()) {
                    while at(k).is_some_and(|x| x.is_ascii_digit()) {
                        k += 1;
                    }
                    out.push((Tok::Name(c[i..k].iter().collect()), start));
                    i = k;
                    continue;
                }
            }
            if at(j) == Some('.') {
                j += 1;
                while at(j).is_some_and(|x| x.is_ascii_digit()) {
                    j += 1;
                }
            }
            out.push((Tok::Num(c[i..j].iter().collect()), start));
            i = j;
            continue;
        }
        if name_start(ch) {
            // `fn` is a keyword when it is followed by a blank
            if ch == 'f' && at(i + 1) == Some('n') && at(i + 2).is_some_and(char::is_whitespace) {
                i += 2;
                while at(i).is_some_and(char::is_whitespace) {
                    i += 1;
                }
                out.push((Tok::Keyword("fn".into()), start));
                continue;
            }
            let word: String = c[i..].iter().take_while(|x| word_char(**x)).collect();
            match word.as_str() {
                "use" => {
                    i += 3;
                    out.push((Tok::Keyword("use".into()), start));
                    continue;
                }
                "true" | "false" => {
                    i += word.len();
                    out.push((Tok::Bool(word == "true"), start));
                    continue;
                }
                _ => (),
            }
            let mut j = i + 1;
            loop {
                match at(j) {
                    Some('.') => j += 1,
                    Some(':') if at(j + 1).is_some_and(name_start) => j += 2,
                    Some(x) if name_start(x) => j += 1,
                    _ => break,
                }
            }
            out.push((Tok::Name(c[i..j].iter().collect()), start));
            i = j;
            continue;
        }
        return Err(start);
    }
    Ok(out)
}

pub fn norm_num(s: &str) -> String {
    let (i, f) = s.split_once('.').unwrap_or((s, ""));
    let i = i.trim_start_matches('0');
    let f = f.trim_end_matches('0');
    let i = if i.is_empty() { "0" } else { i };
    if f.is_empty() {
        i.to_string()
    } else {
        format!("{i}.{f}")
    }
}

pub struct P<'a> {
    pub t: &'a [(Tok, usize)],
    pub i: usize,
    pub assoc: Assoc,
    /// token at which the text stops making sense (t.len(): its end)
    pub err: Option<usize>,
}

fn level(op: &str) -> Option<u8> {
    Some(match op {
        "=" | "<" | ">" | "<=" | ">=" | "<>" => 1,
        "&" => 2,
        "+" | "-" => 3,
        "*" | "/" => 4,
        "^" => 5,
        _ => return None,
    })
}

impl P<'_> {
    pub fn new(t: &[(Tok, usize)], assoc: Assoc) -> P<'_> {
        P { t, i: 0, assoc, err: None }
    }
    fn fail<X>(&mut self, at: usize) -> Option<X> {
        self.err.get_or_insert(at);
        None
    }
    /// one expression, up to where no operator, percent or call follows
    pub fn expr(&mut self) -> Option<T> {
        let e = self.binary(1)?;
        match self.peek() {
            None | Some(Tok::Comma | Tok::Close | Tok::Name(_) | Tok::Keyword(_)) => Some(canon(e)),
            Some(_) => self.fail(self.i),
        }
    }
    pub fn peek(&self) -> Option<&Tok> {
        self.t.get(self.i).map(|x| &x.0)
    }
    fn op(&self) -> Option<String> {
        match self.peek() {
            Some(Tok::Op(o)) => Some(o.clone()),
            _ => None,
        }
    }
    fn binary(&mut self, l: u8) -> Option<T> {
        if l == 6 {
            return self.percent();
        }
        let first = self.binary(l + 1)?;
        let mut operands = vec![first];
        let mut ops = vec![];
        while let Some(o) = self.op().filter(|o| level(o) == Some(l)) {
            self.i += 1;
            ops.push(o);
            operands.push(self.binary(l + 1)?);
        }
        if self.assoc == Assoc::Left {
            let mut it = operands.into_iter();
            let mut acc = it.next()?;
            for (o, r) in ops.into_iter().zip(it) {
                acc = T::Infix(o, Box::new(acc), Box::new(r));
            }
            Some(acc)
        } else {
            let mut acc = operands.pop()?;
            while let Some(l) = operands.pop() {
                acc = T::Infix(ops.pop()?, Box::new(l), Box::new(acc));
            }
            Some(acc)
        }
    }
    fn percent(&mut self) -> Option<T> {
        let mut v = self.prefix()?;
        while self.op().as_deref() == Some("%") {
            self.i += 1;
            v = match v {
                T::Num(n, false) => T::Num(n, true),
                _ => return self.fail(self.i - 1),
            };
        }
        Some(v)
    }
    fn prefix(&mut self) -> Option<T> {
        let at = self.i;
        match self.op().as_deref() {
            Some("-") => {
                self.i += 1;
                match self.prefix()? {
                    T::Num(n, p) => Some(T::Num(n.strip_prefix('-').map_or_else(|| format!("-{n}"), str::to_string), p)),
                    _ => self.fail(at),
                }
            }
            Some("+") => {
                self.i += 1;
                match self.prefix()? {
                    n @ T::Num(..) => Some(n),
                    _ => self.fail(at),
                }
            }
            Some(_) => self.fail(at),
            None => self.call(),
        }
    }
    fn call(&mut self) -> Option<T> {
        let mut v = self.primary()?;
        while self.peek() == Some(&Tok::Open) {
            let T::Ref(name) = v else { return self.fail(self.i) };
            self.i += 1;
            let mut args = vec![];
            if self.peek() == Some(&Tok::Close) {
                self.i += 1;
            } else {
                loop {
                    args.push(match self.peek() {
                        None => return self.fail(self.i),
                        Some(Tok::Comma | Tok::Close) => T::Empty,
                        _ => self.binary(1)?,
                    });
                    let t = self.peek().cloned();
                    self.i += 1;
                    match t {
                        Some(Tok::Comma) => (),
                        Some(Tok::Close) => break,
                        _ => return self.fail(self.i - 1),
                    }
                }
            }
            v = T::Call(name, args);
        }
        Some(v)
    }
    fn primary(&mut self) -> Option<T> {
        let Some(t) = self.peek().cloned() else { return self.fail(self.i) };
        self.i += 1;
        Some(match t {
            Tok::Num(n) => T::Num(norm_num(&n), false),
            Tok::Bool(b) => T::Bool(b),
            Tok::Text(t) => T::Text(t),
            Tok::Name(n) => T::Ref(n),
            Tok::Open => {
                let e = self.binary(1)?;
                if self.peek() != Some(&Tok::Close) {
                    return self.fail(self.i);
                }
                self.i += 1;
                e
            }
            _ => return self.fail(self.i - 1),
        })
    }
}

pub fn canon(t: T) -> T {
    match t {
        T::Ref(n) if n == "TRUE" || n == "FALSE" => T::Bool(n == "TRUE"),
        T::Call(n, a) => T::Call(n, a.into_iter().map(canon).collect()),
        T::Infix(o, l, r) => T::Infix(o, Box::new(canon(*l)), Box::new(canon(*r))),
        t => t,
    }
}

/// Parse the text of a formula, without its leading `=`. None: malformed.
pub fn parse(s: &str, assoc: Assoc) -> Option<T> {
    // the blanks around a cell are not part of it
    let toks = lex(s.trim_end()).ok()?;
    parse_tokens(&toks, assoc)
}
pub fn parse_tokens(toks: &[(Tok, usize)], assoc: Assoc) -> Option<T> {
    let mut p = P::new(toks, assoc);
    let e = p.binary(1)?;
    if p.i == toks.len() {
        Some(canon(e))
    } else {
        None
    }
}

/// One way to write a tree. `double`: double the quotes inside of texts, as a formula needs.
pub fn print(t: &T, double: bool) -> String {
    match t {
        T::Num(n, p) => format!("{n}{}", if *p { "%" } else { "" }),
        T::Bool(b) => if *b { "TRUE" } else { "FALSE" }.into(),
        T::Text(t) => format!("\"{}\"", if double { t.replace('"', "\"\"") } else { t.clone() }),
        T::Empty => String::new(),
        T::Ref(r) => r.clone(),
        T::Call(n, a) => format!("{n}({})", a.iter().map(|x| print(x, double)).collect::<Vec<_>>().join(", ")),
        T::Infix(o, l, r) => format!("({} {o} {})", print(l, double), print(r, double)),
    }
}

pub fn has_quote(t: &T) -> bool {
    match t {
        T::Text(t) => t.contains('"'),
        T::Call(_, a) => a.iter().any(has_quote),
        T::Infix(_, l, r) => has_quote(l) || has_quote(r),
        _ => false,
    }
}

/// the sign of a number made explicit by the printer does not change what it denotes
pub fn strip_plus(s: &str) -> String {
    s.to_string()
}

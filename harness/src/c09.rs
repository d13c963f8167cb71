//! C09: every import graph over bounded module alphabets, compared with a reference of what each
//! module sees.
use crate::formula::{parse, print, Assoc, T};
use crate::model::{close, expand, parse_code, split, Def, Defs, Stop};
use crate::rt::{CaseResult, Ctx, Fail, Outcome, Prop, Tier};
use crate::util::{cell_field, clean_dir, compile_path, product, sheet, write};
use csvpp::Error;
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;

/// name -> text. A module without a text is missing.
pub type Project = BTreeMap<String, String>;

#[derive(Clone, Debug)]
pub struct Mod {
    pub uses: Vec<String>,
    pub own: Defs,
}

pub fn read_module(text: &str) -> Option<Mod> {
    let (code, _, _) = split(text);
    let defs = parse_code(&code.unwrap_or_default(), Assoc::Left).ok()?;
    Some(Mod {
        uses: defs.iter().filter_map(|d| if let Def::Use(u) = d { Some(u.clone()) } else { None }).collect(),
        own: Defs::of(&defs),
    })
}

pub enum Seen {
    Broken(BTreeSet<String>),
    Stops(Stop),
    Main(Defs),
}

/// What main sees: own definitions first, then those of its direct imports in order
pub fn reference(project: &Project, main: &str) -> Option<Seen> {
    let m = read_module(project.get(main)?)?;
    // reachable modules
    let mut mods: BTreeMap<String, Mod> = BTreeMap::new();
    let mut broken = BTreeSet::new();
    let mut todo: Vec<String> = m.uses.clone();
    while let Some(n) = todo.pop() {
        if mods.contains_key(&n) || broken.contains(&n) {
            continue;
        }
        match project.get(&n).and_then(|t| read_module(t)) {
            Some(x) => {
                todo.extend(x.uses.clone());
                mods.insert(n, x);
            }
            None => {
                broken.insert(n);
            }
        }
    }
    if !broken.is_empty() {
        return Some(Seen::Broken(broken));
    }
    let reach: BTreeMap<&String, BTreeSet<&String>> = mods
        .keys()
        .map(|n| {
            let mut s: BTreeSet<&String> = BTreeSet::new();
            let mut t: Vec<&String> = mods[n].uses.iter().collect();
            while let Some(x) = t.pop() {
                if s.insert(x) {
                    t.extend(mods[x].uses.iter());
                }
            }
            (n, s)
        })
        .collect();
    let mut closed: BTreeMap<String, Defs> = BTreeMap::new();
    while closed.len() < mods.len() {
        // a group all of whose imports outside of it are closed
        let n = mods
            .keys()
            .find(|n| !closed.contains_key(*n) && reach[n].iter().all(|r| closed.contains_key(*r) || (*r == *n) || reach[r].contains(n)))
            .unwrap();
        let group: Vec<&String> = mods.keys().filter(|r| *r == n || (reach[n].contains(r) && reach[r].contains(n))).collect();
        let mut pre: BTreeMap<String, Defs> = BTreeMap::new();
        for g in &group {
            if group.len() == 1 {
                pre.insert((*g).clone(), mods[*g].own.clone());
                continue;
            }
            let mut d = Defs::default();
            for (k, v) in &mods[*g].own.vars {
                match lexical(&mods, &closed, &group, g, v, &BTreeMap::new(), &mut vec![(false, k.clone(), (*g).clone())]) {
                    Ok(t) => d.vars.insert(k.clone(), t),
                    Err(s) => return Some(Seen::Stops(s)),
                };
            }
            for (k, (ps, b)) in &mods[*g].own.fns {
                let fresh: Vec<String> = ps.iter().map(|p| format!("\u{1}{p}")).collect();
                let m = ps.iter().cloned().zip(fresh.iter().map(|p| T::Ref(p.clone()))).collect();
                match lexical(&mods, &closed, &group, g, b, &m, &mut vec![(true, k.clone(), (*g).clone())]) {
                    Ok(t) => d.fns.insert(k.clone(), (fresh, t)),
                    Err(s) => return Some(Seen::Stops(s)),
                };
            }
            pre.insert((*g).clone(), d);
        }
        let mut done = vec![];
        for g in &group {
            let mut visible = pre[*g].clone();
            for u in &mods[*g].uses {
                visible.adopt(pre.get(u).unwrap_or_else(|| &closed[u]));
            }
            match close(&pre[*g], &visible) {
                Ok(d) => done.push(((*g).clone(), d)),
                Err(s) => return Some(Seen::Stops(s)),
            }
        }
        closed.extend(done);
    }
    let mut d = m.own.clone();
    for u in &m.uses {
        d.adopt(&closed[u]);
    }
    Some(Seen::Main(d))
}

type Open = Vec<(bool, String, String)>;

/// expansion where each definition is read in the module that defines it
#[allow(clippy::too_many_arguments)]
fn lexical(
    mods: &BTreeMap<String, Mod>,
    closed: &BTreeMap<String, Defs>,
    group: &[&String],
    at: &String,
    t: &T,
    params: &BTreeMap<String, T>,
    open: &mut Open,
) -> Result<T, Stop> {
    let go = |t: &T, open: &mut Open| lexical(mods, closed, group, at, t, params, open);
    let owner = |has: &dyn Fn(&Defs) -> bool| -> Option<&String> {
        std::iter::once(at).chain(&mods[at].uses).find(|m| has(if group.contains(m) { &mods[*m].own } else { &closed[*m] }))
    };
    Ok(match t {
        T::Infix(o, l, r) => T::Infix(o.clone(), Box::new(go(l, open)?), Box::new(go(r, open)?)),
        T::Ref(n) => {
            if let Some(p) = params.get(n) {
                return Ok(p.clone());
            }
            match owner(&|d| d.vars.contains_key(n)) {
                None => t.clone(),
                Some(m) if !group.contains(&m) => closed[m].vars[n].clone(),
                Some(m) => {
                    let k = (false, n.clone(), m.clone());
                    if open.contains(&k) {
                        return Err(Stop::Cycle);
                    }
                    open.push(k);
                    let r = lexical(mods, closed, group, m, &mods[m].own.vars[n], &BTreeMap::new(), open);
                    open.pop();
                    r?
                }
            }
        }
        T::Call(n, a) => {
            let a = a.iter().map(|x| go(x, open)).collect::<Result<Vec<_>, _>>()?;
            match owner(&|d| d.fns.contains_key(n)) {
                None => T::Call(n.clone(), a),
                Some(m) => {
                    let (ps, body) = if group.contains(&m) { &mods[m].own.fns[n] } else { &closed[m].fns[n] };
                    if ps.len() != a.len() {
                        return Err(Stop::Arity(ps.len(), a.len()));
                    }
                    let k = (true, n.clone(), m.clone());
                    if open.contains(&k) {
                        return Err(Stop::Cycle);
                    }
                    let args: BTreeMap<String, T> = ps.iter().cloned().zip(a).collect();
                    open.push(k);
                    let r = if group.contains(&m) {
                        lexical(mods, closed, group, m, body, &args, open)
                    } else {
                        Ok(subst(body, &args))
                    };
                    open.pop();
                    r?
                }
            }
        }
        t => t.clone(),
    })
}

fn subst(t: &T, m: &BTreeMap<String, T>) -> T {
    match t {
        T::Ref(n) => m.get(n).cloned().unwrap_or_else(|| t.clone()),
        T::Call(n, a) => T::Call(n.clone(), a.iter().map(|x| subst(x, m)).collect()),
        T::Infix(o, l, r) => T::Infix(o.clone(), Box::new(subst(l, m)), Box::new(subst(r, m))),
        t => t.clone(),
    }
}

pub fn write_project(dir: &Path, p: &Project) {
    clean_dir(dir);
    for (n, t) in p {
        write(&dir.join(format!("{n}.csvpp")), t);
    }
}

pub const PROBES: [&str; 15] = ["v", "y", "w", "x0", "x1", "x2", "x3", "cv", "f(5)", "g(6)", "f(v)", "g(a) + y", "w(7)", "y(w, y)", "f"];

/// `project` has everything but the cells of main, which are added here
pub fn check_imports(dir: &Path, project: &Project, main: &str) -> CaseResult {
    check_probes(dir, project, main, &PROBES)
}

pub fn check_probes<'p>(dir: &Path, project: &Project, main: &str, probes: &[&'p str]) -> CaseResult {
    let mut project = project.clone();
    let Some(seen) = reference(&project, main) else { return Err(Fail::new("unreadable main")) };
    let mut cells: Vec<(&'p str, T)> = vec![];
    if let Seen::Main(d) = &seen {
        for &p in probes {
            if let Ok(t) = expand(&parse(p, Assoc::Left).unwrap(), d) {
                cells.push((p, t));
            }
        }
    }
    let text = project.get_mut(main).unwrap();
    text.push_str("sheet,of,main\n");
    for c in &cells {
        text.push_str(&cell_field(&format!("={}", c.0)));
        text.push('\n');
    }
    write_project(dir, &project);
    let r = compile_path(&dir.join(format!("{main}.csvpp")), &[], true, Path::new("out.csv"));
    match (seen, r) {
        (Seen::Broken(b), Err(Error::ModuleLoadErrors(e))) => {
            let got: BTreeSet<String> = e.keys().map(ToString::to_string).collect();
            if got != b {
                return Err(Fail::new(format!("modules reported as broken: {got:?}, those that are: {b:?}")));
            }
            let shown = Error::ModuleLoadErrors(e).to_string();
            for m in &b {
                if !shown.contains(m.as_str()) {
                    return Err(Fail::new(format!("{m} isn't named in the message {shown}")));
                }
            }
            Ok(Outcome::of(&("broken", b)))
        }
        (Seen::Broken(b), Ok(m)) => Err(Fail::new(format!("compiled to {:?} although {b:?} cannot be loaded", sheet(&m)))),
        (Seen::Broken(b), Err(e)) => Err(Fail::new(format!("{b:?} cannot be loaded, but the error is: {e}"))),
        (Seen::Stops(_), Err(Error::EvalError { .. })) => Ok(Outcome::of(&"stops")),
        (Seen::Stops(s), Err(e)) => Err(Fail::new(format!("expected an error evaluating an imported definition ({s:?}), but the error is: {e}"))),
        (Seen::Stops(s), Ok(m)) => Err(Fail::new(format!("compiled to {:?} although an imported definition has {s:?}", sheet(&m)))),
        (Seen::Main(_), Err(e)) => Err(Fail::new(format!("rejected: {e}"))),
        (Seen::Main(_), Ok(m)) => {
            let got = sheet(&m);
            if got.len() != cells.len() + 1 || got[0] != ["sheet", "of", "main"] {
                return Err(Fail::new(format!("the sheet is {got:?}")));
            }
            for (c, row) in cells.iter().zip(&got[1..]) {
                let g = row.first().and_then(|c| c.strip_prefix('=')).and_then(|c| parse(c, Assoc::Left));
                if row.len() != 1 || g.as_ref() != Some(&c.1) {
                    return Err(Fail::new(format!("={} came out as {row:?}, expected ={}", c.0, print(&c.1, true))));
                }
            }
            Ok(Outcome::of(&cells.iter().map(|c| &c.1).collect::<Vec<_>>()))
        }
    }
}

const MODS: [&str; 4] = ["main", "p", "q", "r"];

pub const TEMPLATES: [&str; 7] = [
    "",
    "v := 1$\n",
    "x$ := v + y\nfn f(a) a * v\n",
    "v := 1$\nfn f(a) g(a) + v\n",
    "fn g(v) v & y\ny := v\n",
    "x$ := x% + 1\nv := cv\ny := 2$\nfn y(a, b) h(a, y, b)\n",
    "y := w\nw := a\nfn g(a) f(y - a)\nfn w(a) a * w\nf := 3$\n",
];

fn text(uses: &[usize], i: usize, n: usize, template: usize) -> String {
    let mut s = String::new();
    for u in uses {
        s.push_str(&format!("use {}\n", MODS[*u]));
    }
    s.push_str(&TEMPLATES[template].replace('$', &i.to_string()).replace('%', &((i + 1) % n).to_string()));
    // on one line: the code under test takes long to look for the separator
    s = s.replace('\n', " ");
    s.push_str("\n---\n");
    if i > 0 {
        s.push_str("[[var=cv]]3,=v\n");
    }
    s
}

fn one(ctx: &mut Ctx, n: usize, graph: u32, reverse: bool, dup: bool, templates: &[usize], broken: &[usize]) {
    if !ctx.mine() {
        return ctx.skip(1);
    }
    let mut p = Project::new();
    for i in 0..n {
        let mut uses: Vec<usize> = (0..n).filter(|j| graph >> (i * n + j) & 1 == 1).collect();
        if reverse {
            uses.reverse();
        }
        if dup {
            uses.extend(uses.clone());
        }
        match broken.get(i).copied().unwrap_or(0) {
            0 => p.insert(MODS[i].into(), text(&uses, i, n, templates[i])),
            1 => None,
            // in the code section, in the cells
            2 => p.insert(MODS[i].into(), format!("v := := 1\n{}", text(&uses, i, n, templates[i]))),
            _ => p.insert(MODS[i].into(), format!("{}\"=1 +\"\n", text(&uses, i, n, templates[i]))),
        };
    }
    ctx.case(|| format!("{p:?}"), |c| check_broken(c, &p, broken));
}

/// the reference only reads code sections: tell it which modules have bad cells
fn check_broken(ctx: &Ctx, p: &Project, broken: &[usize]) -> CaseResult {
    if !broken.contains(&3) {
        return check_imports(&ctx.scratch, p, "main");
    }
    // what has bad cells is as broken as what has a bad code section
    let mut q = p.clone();
    for (i, b) in broken.iter().enumerate() {
        if *b == 3 {
            q.insert(MODS[i].into(), ":=\n---\n".into());
        }
    }
    let Some(Seen::Broken(want)) = reference(&q, "main") else {
        return check_imports(&ctx.scratch, p, "main");
    };
    write_project(&ctx.scratch, p);
    match compile_path(&ctx.scratch.join("main.csvpp"), &[], true, Path::new("out.csv")) {
        Err(Error::ModuleLoadErrors(e)) => {
            let got: BTreeSet<String> = e.keys().map(ToString::to_string).collect();
            if got != want {
                return Err(Fail::new(format!("modules reported as broken: {got:?}, those that are: {want:?}")));
            }
            Ok(Outcome::of(&("broken", want)))
        }
        Err(e) => Err(Fail::new(format!("{want:?} cannot be loaded, but the error is: {e}"))),
        Ok(m) => Err(Fail::new(format!("compiled to {:?} although {want:?} cannot be loaded", sheet(&m)))),
    }
}

/// Functions whose parameters have names that also come in by way of what the body refers to
fn capture(ctx: &mut Ctx) {
    let params = [vec!["a"], vec!["a", "b"], vec!["b", "a"], vec!["x"], vec!["x", "a"]];
    let bodies = ["x", "s(x)", "s(1, x)", "s(x, a)", "s(a, x)", "a & x", "x & a", "1 + x", "s(1 + x)", "s(s(x), 1) + a", "g(x)", "g(a) - x", "x(a)", "a + y"];
    let values = ["a", "s(a)", "s(1, a)", "1 + a", "a * b", "b", "g(a)", "y", "s(s(b), 2)"];
    let gs = ["fn g(a) s(a, y)", "fn g(b) s(b, x)", "fn g(y) y + 1"];
    let others = ["", "a := 7 ", "x := 8 fn s(a) a - a "];
    product(&[params.len(), bodies.len(), values.len(), gs.len(), others.len()], &mut |i| {
        if ctx.quick() && i[4] > 0 && (i[0] + i[1] + i[2] + i[3]) % 3 > 0 {
            return;
        }
        for through in [false, true] {
            if !ctx.mine() {
                ctx.skip(1);
                continue;
            }
            let dep = format!("fn f({}) {} x := {} y := b {}\n---\n", params[i[0]].join(", "), bodies[i[1]], values[i[2]], gs[i[3]]);
            let mut p = Project::new();
            p.insert("main".into(), format!("use p {}\n---\n", others[i[4]]));
            if through {
                p.insert("p".into(), format!("use q fn h(a, x) {} fn k(b) h(b, x)\n---\n", if params[i[0]].len() == 1 { "f(a + x)" } else { "f(x, a)" }));
                p.insert("q".into(), dep);
            } else {
                p.insert("p".into(), dep);
            }
            let probes = ["f(5)", "f(5, 6)", "g(9)", "f(a)", "f(b, a)", "x", "y", "h(1, 2)", "h(x, a)", "k(3)", "k(x)"];
            ctx.case(|| format!("{p:?}"), |c| check_probes(&c.scratch, &p, "main", &probes));
        }
    });
}

/// Modules with `n` variables and functions each, in several graphs; `n` modules
fn many(ctx: &mut Ctx) {
    let counts: Vec<usize> = ctx.bound(vec![1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 257], (1..=140).chain([255, 256, 257, 511, 513, 1025]).collect());
    let graphs: [(&str, [&[usize]; 4]); 7] = [
        ("one", [&[1], &[], &[], &[]]),
        ("through", [&[1], &[2], &[3], &[]]),
        ("three", [&[1, 2, 3], &[], &[], &[]]),
        ("three, the other way round", [&[3, 2, 1], &[], &[], &[]]),
        ("diamond", [&[1, 2], &[3], &[3], &[]]),
        ("cycle", [&[1], &[2], &[3], &[1]]),
        ("with main", [&[1], &[2, 0], &[3], &[0]]),
    ];
    for n in counts {
        // names are the same in all, or different, or every other one is the same
        for (kind, names) in [(0, "x{}"), (1, "m_x{}"), (2, "long.name.of.a.variable{}"), (3, "x{}")] {
            for (g, uses) in graphs {
                // what is in the code: functions, variables, both
                for what in 0..3 {
                    if !ctx.mine() {
                        ctx.skip(1);
                        continue;
                    }
                    ctx.case(
                        || format!("{n} definitions ({what}) in each module, imported like {g}, names {names} {kind}"),
                        |c| {
                            let mut p = Project::new();
                            let mut probes: BTreeSet<String> = BTreeSet::new();
                            for i in 0..4 {
                                let mut t: String = uses[i].iter().map(|u| format!("use {}\n", MODS[*u])).collect();
                                // (main has a few of its own)
                                for d in 0..if i == 0 { n.min(5) } else { n } {
                                    let mut name = names.replace("{}", &d.to_string());
                                    if kind == 1 || kind == 3 && d % 2 == 0 {
                                        name.push_str(MODS[i]);
                                    }
                                    if what != 0 {
                                        t.push_str(&format!("{name} := {}\n", 10000 * i + d));
                                        probes.insert(name.clone());
                                    }
                                    if what != 1 {
                                        t.push_str(&format!("fn f{name}(a) a & {}\n", if what == 2 { name.clone() } else { format!("{}", 10000 * i + d) }));
                                        probes.insert(format!("f{name}({d})"));
                                    }
                                }
                                t = t.replace('\n', " ");
                                t.push_str("\n---\n");
                                p.insert(MODS[i].into(), t);
                            }
                            check_probes(&c.scratch, &p, "main", &probes.iter().map(String::as_str).collect::<Vec<_>>())
                        },
                    );
                }
            }
        }
    }
    for n in ctx.bound(vec![5, 9, 17, 33, 65], vec![5, 9, 17, 33, 65, 129, 257]) {
        for shape in 0..4 {
            for reverse in [false, true] {
                if !ctx.mine() {
                    ctx.skip(1);
                    continue;
                }
                ctx.case(
                    || format!("{n} modules in shape {shape}, reverse {reverse}"),
                    |c| {
                        let mut p = Project::new();
                        let mut probes = vec!["v".to_string(), "f(1)".to_string()];
                        for i in 0..=n {
                            let mut uses: Vec<usize> = match shape {
                                // all by main, each by the one before, a tree, everything by everything behind it
                                0 => if i == 0 { (1..=n).collect() } else { vec![] },
                                1 => if i < n { vec![i + 1] } else { vec![] },
                                2 => [2 * i + 1, 2 * i + 2].into_iter().filter(|j| *j <= n).collect(),
                                _ => (i + 1..=n.min(i + 12)).collect(),
                            };
                            if reverse {
                                uses.reverse();
                            }
                            let name = |i: usize| if i == 0 { "main".to_string() } else { format!("m{i}") };
                            let mut t: String = uses.iter().map(|u| format!("use {} ", name(*u))).collect();
                            if i > 0 {
                                t.push_str(&format!("w{i} := {i} v := w{i} fn f(a) a & v fn g{i}(a) f(a)"));
                                probes.push(format!("w{i}"));
                                probes.push(format!("g{i}(2)"));
                            }
                            p.insert(name(i), format!("{t}\n---\n"));
                        }
                        check_probes(&c.scratch, &p, "main", &probes.iter().map(String::as_str).collect::<Vec<_>>())
                    },
                );
            }
        }
    }
}

fn run(ctx: &mut Ctx) {
    let nt = TEMPLATES.len();
    // 1. main and two others: every graph
    for g in 0u32..512 {
        // main's self import in the thorough tier
        if ctx.quick() && g & 1 == 1 {
            continue;
        }
        let twice = (0..3).any(|i| (g >> (3 * i) & 7).count_ones() > 1);
        for rev in [false, true] {
            if rev && !twice {
                continue;
            }
            let main_t = ctx.bound(vec![0, 2, 4], (0..nt).collect());
            product(&[main_t.len(), nt, nt], &mut |t| one(ctx, 3, g, rev, false, &[main_t[t[0]], t[1], t[2]], &[]));
        }
    }
    // 2. main and three others: every graph without cycles, and some with
    for g in 0u32..(1 << 16) {
        let e = |i: u32, j: u32| g >> (i * 4 + j) & 1 == 1;
        let back = [(1, 0), (2, 0), (3, 0), (2, 1), (3, 1), (3, 2), (0, 0), (1, 1), (2, 2), (3, 3)];
        let nback = back.iter().filter(|(i, j)| e(*i, *j)).count();
        if nback > ctx.bound(0, 1) && !(g % 64 == 63 && nback < 5) {
            continue;
        }
        if !e(0, 1) {
            continue;
        }
        for rev in [false, true] {
            if ctx.quick() && nback > 0 && rev {
                continue;
            }
            let ts = ctx.bound(vec![1, 2, 4], (0..nt).collect());
            product(&[2, ts.len(), ts.len(), ts.len()], &mut |t| one(ctx, 4, g, rev, false, &[[0, 6][t[0]], ts[t[1]], ts[t[2]], ts[t[3]]], &[]));
        }
    }
    // 3. imports written twice
    for g in 0u32..512 {
        for t in [[0, 2, 1], [2, 4, 3], [4, 6, 5]] {
            one(ctx, 3, g, false, true, &t, &[]);
        }
    }
    // 4. missing and broken modules anywhere
    for g in 0u32..(1 << 16) {
        if g & 0b1 == 1 || g >> 4 & 0b0001 == 1 || (g >> 8 & 0b0001) == 1 || (g >> 12 & 0b1) == 1 {
            continue;
        }
        if ctx.quick() && (g >> 4).count_ones() > 3 {
            continue;
        }
        for b in [[0, 0, 0, 1], [0, 1, 0, 0], [0, 0, 2, 1], [0, 3, 1, 0], [0, 2, 0, 3], [0, 1, 1, 1]] {
            one(ctx, 4, g, false, false, &[0, 2, 4, 1], &b);
        }
    }
    // 5. many definitions, many modules
    capture(ctx);
    many(ctx);
    // 6. names with dots and letters beyond ASCII
    for name in ["a.b", "é", "x1", "true1", "use_", "foo.bar.baz", "1", "_"] {
        for other in ["a", "foo", "a.b.c", "foo.bar"] {
            let mut p = Project::new();
            p.insert("main".into(), format!("use {name}\n---\n"));
            p.insert(name.into(), "v := 1\n---\n".into());
            p.insert(other.into(), "v := 2\nw := 3\n---\n".into());
            ctx.case(|| format!("{p:?}"), |c| check_imports(&c.scratch, &p, "main"));
        }
    }
}

pub fn prop() -> Prop {
    Prop {
        id: "C09",
        level: "model_checking",
        rule: "every import graph x use order x definition template per module, and every placement of missing or broken modules, compiled without cache and compared with a reference that resolves each definition in the module that defines it",
        bounds: |t| {
            if t == Tier::Quick {
                "3 modules: all graphs without main's self import x 3 x 7 x 7 templates x use orders; 4 modules: all acyclic graphs (and some cyclic) x 2 x 3^3 templates; duplicate imports in all 512 graphs; broken modules in graphs with up to 3 indirect imports; 5 parameter lists x 14 bodies x 9 values with names that collide, directly and through another module; up to 257 definitions per module and up to 65 modules in 7 and 4 x 2 graphs".into()
            } else {
                "3 modules: all 512 graphs x 7^3 templates x use orders; 4 modules: all graphs with up to one back edge (and some with more) x 2 x 7^3 templates; duplicate imports in all 512 graphs; broken modules in all graphs without imports of main; 5 parameter lists x 14 bodies x 9 values x 3 functions x 3 mains with names that collide, directly and through another module; up to 1025 definitions per module and up to 257 modules in 7 and 4 x 2 graphs".into()
            }
        },
        run,
        hang_s: 30,
        workers: 0,
        assumptions: &["a name that the defining module cannot resolve stays as written and is resolved where the definition is imported, as in the README's scoping rules"],
    }
}

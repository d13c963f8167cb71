//! C21: neither hash seeds, nor the order in which rows are evaluated, nor the number of threads
//! change the result.
use crate::rt::{guarded, CaseResult, Ctx, Fail, Outcome, Prop, Tier};
use crate::seed;
use crate::util::*;
use csvpp::verif::{google_batch_update, rows, sched};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};

/// everything that a user gets to see of a compile
fn outcome(main: &Path, kv: &[&str]) -> String {
    let show = |e: csvpp::Error| format!("error: {e}");
    let compiler = match compiler(main, kv, true, Path::new("out.csv")) {
        Ok(c) => c,
        Err(e) => return show(e),
    };
    match compiler.compile() {
        Ok(m) => {
            let request = google_batch_update(&compiler, &m, "{}");
            format!("{}\n{request}", full_sheet(&m))
        }
        Err(e) => show(e),
    }
}

fn pool(threads: usize) -> rayon::ThreadPool {
    rayon::ThreadPoolBuilder::new().num_threads(threads).stack_size(8 << 20).build().expect("a thread pool")
}

/// with every hash table seeded by `seed`, as long as there is one thread
fn seeded(seed: u64, main: &Path, kv: &[&str], modules: bool) -> Result<String, Fail> {
    seed::set(seed);
    let (main, kv): (PathBuf, Vec<String>) = (main.to_path_buf(), kv.iter().map(ToString::to_string).collect());
    let run = move || {
        let kv: Vec<&str> = kv.iter().map(String::as_str).collect();
        if modules {
            // always the same schedule: the first thread that can goes on
            let (r, _, _) = sched::run(|_, enabled| enabled.first().copied(), || outcome(&main, &kv));
            r.unwrap_or_else(|_| "panics".into())
        } else {
            outcome(&main, &kv)
        }
    };
    guarded(|| pool(1).install(run)).map_err(|p| Fail::new(format!("with seed {seed} it panics: {p}")))
}

/// Seeds with which the tables that a thread makes iterate in every order: any three of the names,
/// no matter how many tables came before (up to 16)
fn seeds(n: usize) -> (Vec<u64>, usize) {
    let names = ["a", "b", "c", "d"];
    let orders = |seed: u64| -> BTreeSet<(usize, Vec<usize>)> {
        seed::with(seed, || {
            (0..16)
                .flat_map(|made| {
                    let mut t = std::collections::HashMap::new();
                    for (i, n) in names.iter().enumerate() {
                        t.insert((*n).to_string(), i);
                    }
                    let o: Vec<usize> = t.into_values().collect();
                    (0..4).map(move |without| (made, o.iter().copied().filter(|i| *i != without).collect::<Vec<_>>())).collect::<Vec<_>>()
                })
                .collect()
        })
        .expect("orders")
    };
    let of: Vec<_> = (1..=120u64).map(|s| (s, orders(s))).collect();
    let mut covered = BTreeSet::new();
    let mut seeds = vec![];
    while seeds.len() < n {
        // the one that adds the most
        let Some((s, o)) = of.iter().filter(|(s, _)| !seeds.contains(s)).max_by_key(|(_, o)| o.difference(&covered).count()) else { break };
        covered.extend(o.iter().cloned());
        seeds.push(*s);
    }
    (seeds, covered.len())
}

fn same(ctx: &mut Ctx, seeds: &[u64], main: &Path, kv: &[&str], modules: bool) -> CaseResult {
    let mut first: Option<(u64, String)> = None;
    for s in seeds {
        let now = seeded(*s, main, kv, modules)?;
        ctx.transitions += 1;
        match &first {
            None => first = Some((*s, now)),
            Some((f, o)) if *o != now => return Err(Fail::new(format!("seed {f} gives {o}\nbut seed {s} gives {now}"))),
            _ => (),
        }
    }
    let o = first.expect("a seed").1;
    ctx.note(if o.starts_with("error") { "programs_that_fail" } else { "programs_that_compile" }, 1);
    Ok(Outcome::of(&o))
}

const STATEMENTS: [&str; 15] = [
    "a := 1",
    "b := a + 1",
    "c := a & b",
    "d := f(1)",
    "a := \"other\"",
    "fn f(x) x + a",
    "fn g(x, y) f(y) & x",
    "e1 := f(1, 2)",
    "e2 := g(1)",
    "p := q",
    "q := p & f()",
    "fn r(x) s(x, x)",
    "fn s(x) r(x) + g(x)",
    "fn f(a) a",
    "z := A9",
];
const CELLS: [&str; 13] = [
    "=a",
    "=c & d",
    "=f(1)",
    "=g(a, b)",
    "=e1 + e2",
    "=p",
    "=r(1)",
    "[[var=b]]5",
    "![[fill=2 var=c]]=a",
    "[[var=z t=b t=i b=l b=t]]x",
    "=foo(e2, d, q)",
    "=g(f(1, 2), r(1, 2))",
    "[[note='n' var=a]]=z",
];

/// lists of at most `max` of `n`, in ascending order
fn subsets(n: usize, max: usize) -> Vec<Vec<usize>> {
    let mut all: Vec<Vec<usize>> = (0..1usize << n).filter(|b| b.count_ones() as usize <= max).map(|b| (0..n).filter(|i| b >> i & 1 == 1).collect()).collect();
    all.sort_by_key(Vec::len);
    all
}

fn code(statements: &[usize]) -> String {
    let s: Vec<&str> = statements.iter().map(|i| STATEMENTS[*i]).collect();
    format!("{}\n---\n", s.join("\n"))
}

fn definitions(ctx: &mut Ctx, seeds: &[u64]) {
    let dir = ctx.scratch.join("d");
    std::fs::create_dir_all(&dir).unwrap();
    let main = dir.join("m.csvpp");
    let go = |ctx: &mut Ctx, src: &dyn Fn() -> String, kv: &[&str]| {
        if !ctx.mine() {
            ctx.skip(1);
            return;
        }
        let src = src();
        ctx.case(
            || format!("{src:?} with {kv:?}"),
            |c| {
                write(&main, &src);
                same(c, seeds, &main, kv, false)
            },
        );
    };
    let pairs = subsets(CELLS.len(), 2);
    for st in subsets(STATEMENTS.len(), ctx.bound(1, 2) as usize) {
        for cells in &pairs {
            go(ctx, &|| format!("{}{}", code(&st), cells.iter().map(|c| format!("\"{}\"\n", CELLS[*c])).collect::<String>()), &[]);
        }
    }
    for st in subsets(STATEMENTS.len(), ctx.bound(2, 4) as usize) {
        let sheets: [&[usize]; 5] = [&[0, 1, 2, 3], &[4, 5, 6], &[7, 8, 9, 0], &[10, 11, 12], &[7, 8, 12, 9, 1, 4]];
        for cells in sheets {
            // in a row, and in rows
            for sep in [",", "\n"] {
                go(ctx, &|| format!("{}{}\n", code(&st), cells.iter().map(|c| format!("\"{}\"", CELLS[*c])).collect::<Vec<_>>().join(sep)), &[]);
            }
        }
    }
    for kv in [&["a=1", "b=2", "c=3"][..], &["a=f(1)", "p=a", "b=p"], &["a=b", "b=a"], &["a=f(1,2)", "b=f()", "c=g()"], &["a=(", "b=)", "c=*"], &["a", "b", "=c"]] {
        for st in subsets(STATEMENTS.len(), 1) {
            go(ctx, &|| format!("{}=a,=b,=c\n=p,=d,=f(a)\n", code(&st)), kv);
        }
    }
}

fn imports(ctx: &mut Ctx, seeds: &[u64]) {
    let dir = ctx.scratch.join("i");
    std::fs::create_dir_all(&dir).unwrap();
    let names = ["a", "b", "c"];
    let bodies = ["x := \"NAME\"\ny := x & of_NAME\nof_NAME := \"of\"\n", "x := := 1\n", "fn f(p) p\nx := f(1, 2)\ny := f()\n", "fn f(p) p & \"NAME\"\nx := f(1) & y\n", ""];
    let sub = subsets(3, 3);
    for graph in 0..512usize {
        let im: Vec<&Vec<usize>> = vec![&sub[graph % 8], &sub[graph / 8 % 8], &sub[graph / 64]];
        let edges: usize = im.iter().map(|i| i.len()).sum();
        if ctx.quick() && edges > 2 {
            continue;
        }
        for health in 0..125usize {
            let h = [health % 5, health / 5 % 5, health / 25];
            if ctx.quick() && edges == 2 && h.iter().collect::<BTreeSet<_>>().len() == 3 {
                continue;
            }
            for own in ["", "x := \"main\"\nfn f(p) x\n"] {
                if !own.is_empty() && (ctx.quick() && edges > 1 || edges > 3) {
                    continue;
                }
                if !ctx.mine() {
                    ctx.skip(1);
                    continue;
                }
                ctx.case(
                    || format!("main imports all, a, b and c import {im:?}, they contain {h:?}, main {own:?}"),
                    |c| {
                        clean_dir(&dir);
                        write(&dir.join("m.csvpp"), &format!("use b\nuse a\nuse c\n{own}---\n=x,=y,=f(1)\n=of_a,=of_b,=of_c\n"));
                        for i in 0..3 {
                            if h[i] == 4 {
                                continue;
                            }
                            let uses: String = im[i].iter().map(|i| format!("use {}\n", names[*i])).collect();
                            write(&dir.join(format!("{}.csvpp", names[i])), &format!("{uses}{}---\n", bodies[h[i]].replace("NAME", names[i])));
                        }
                        let some = &seeds[..seeds.len().min(if c.quick() { 8 } else { 16 })];
                        same(c, some, &dir.join("m.csvpp"), &[], true)
                    },
                );
            }
        }
    }
}

/// the same names in several imports, in every order of the statements, also repeated
fn orders_of_imports(ctx: &mut Ctx, seeds: &[u64]) {
    let dir = ctx.scratch.join("o");
    std::fs::create_dir_all(&dir).unwrap();
    let names = ["a", "b", "c", "d", "e", "g", "h", "i"];
    let mut lists = vec![];
    for n in 2..=ctx.bound(4, 5) as usize {
        words_n(&[0, 1, 2], n, &mut |w| lists.push(w.to_vec()));
    }
    lists.extend([(0..8).collect::<Vec<_>>(), (0..8).rev().collect(), vec![3, 7, 1, 5, 3, 0, 2, 7], vec![4, 6, 0, 2, 7, 3, 1, 5], vec![0, 1, 2, 3, 4, 5, 6, 7, 0]]);
    for list in lists {
        // in the main module, or in one that it imports
        for below in [false, true] {
            if !ctx.mine() {
                ctx.skip(1);
                continue;
            }
            ctx.case(
                || format!("imports {list:?} in order, below {below}"),
                |c| {
                    clean_dir(&dir);
                    let uses: String = list.iter().map(|i| format!("use {}\n", names[*i])).collect();
                    let body = if below {
                        write(&dir.join("z.csvpp"), &format!("{uses}w := x & of_a\nfn k(p) f(p)\n---\n"));
                        "use z\n---\n=w,=k(1),=x\n".to_string()
                    } else {
                        format!("{uses}---\n=x,=f(1),=of_a,=of_b\n")
                    };
                    write(&dir.join("m.csvpp"), &body);
                    for n in names {
                        write(&dir.join(format!("{n}.csvpp")), &format!("x := \"{n}\" fn f(p) p & \"{n}\" of_{n} := x\n---\n"));
                    }
                    same(c, &seeds[..seeds.len().min(12)], &dir.join("m.csvpp"), &[], true)
                },
            );
        }
    }
}

/// modules with many definitions: the same names in all of them, or different ones
fn many_definitions(ctx: &mut Ctx, seeds: &[u64]) {
    let dir = ctx.scratch.join("n");
    std::fs::create_dir_all(&dir).unwrap();
    for n in ctx.bound(vec![5, 20, 65, 129, 300], vec![5, 9, 17, 33, 65, 129, 257, 300, 513, 1030]) {
        for own in [false, true] {
            for graph in 0..5 {
                if !ctx.mine() {
                    ctx.skip(1);
                    continue;
                }
                ctx.case(
                    || format!("{n} definitions in each module, names of its own {own}, graph {graph}"),
                    |c| {
                        clean_dir(&dir);
                        let uses = |i: usize| -> &str {
                            [["use a use b", "", ""], ["use b use a", "", ""], ["use a", "use b", ""], ["use a use b", "use b", "use a"], ["", "", ""]][graph][i]
                        };
                        let module = |i: usize, from: usize| -> String {
                            let of = if own { ["m", "a", "b"][i] } else { "" };
                            (from..n).map(|d| format!("v{d}{of} := {} fn f{d}{of}(p) p & v{d}{of} ", 1000 * i + d)).collect()
                        };
                        for (i, name) in ["m", "a", "b"].iter().enumerate() {
                            // main has most of them when it imports nothing
                            let from = if i == 0 && graph < 4 { n - 2 } else { 0 };
                            let mut t = format!("{} {}\n---\n", uses(i), module(i, from));
                            if i == 0 {
                                for d in 0..n {
                                    for of in if own { &["m", "a", "b"][..] } else { &[""] } {
                                        t.push_str(&format!("=v{d}{of},=f{d}{of}(1)\n"));
                                    }
                                }
                            }
                            write(&dir.join(format!("{name}.csvpp")), &t);
                        }
                        same(c, &seeds[..seeds.len().min(8)], &dir.join("m.csvpp"), &[], true)
                    },
                );
            }
        }
    }
}

fn permutations(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    permutations(n - 1).into_iter().flat_map(|p| (0..n).map(move |i| { let mut p = p.clone(); p.insert(i, n - 1); p })).collect()
}

const ROWS: [&str; 7] = [
    "=a,=f(1)",
    "=f(1, 2),=a",
    "=a,=f(1, 2, 3)",
    "=f(1)+f(1, 2, 3, 4),=f()",
    "[[var=v]]5,=v",
    "![[fill=2]]=g(1, 2)",
    "![[fill=2]]=w,[[var=w]]=f(1)",
];

fn row_orders(ctx: &mut Ctx) {
    let dir = ctx.scratch.join("r");
    std::fs::create_dir_all(&dir).unwrap();
    let main = dir.join("m.csvpp");
    let big = std::cell::OnceCell::new();
    let most = ctx.bound(3, 4) as usize;
    let mut lists = vec![];
    for n in 1..=most {
        words_n(&(0..ROWS.len()).collect::<Vec<_>>(), n, &mut |w| lists.push(w.to_vec()));
    }
    for list in lists {
        if !ctx.mine() {
            ctx.skip(1);
            continue;
        }
        ctx.case(
            || format!("rows {:?} in every order", list.iter().map(|i| ROWS[*i]).collect::<Vec<_>>()),
            |c| {
                let src = format!("a := 1\nfn f(x) x + a\nfn g(x) x\n---\n{}\n", list.iter().map(|i| ROWS[*i]).collect::<Vec<_>>().join("\n"));
                write(&main, &src);
                // the sequential outcome, by one thread
                let want = pool(1).install(|| outcome(&main, &[]));
                for threads in [2, 3, 16] {
                    let got = pool(threads).install(|| outcome(&main, &[]));
                    if got != want {
                        return Err(Fail::new(format!("with one thread {want}\nbut with {threads} {got}")));
                    }
                }
                let height = list.iter().map(|i| if *i >= 5 { 2 } else { 1 }).sum::<usize>();
                let pool: &rayon::ThreadPool = big.get_or_init(|| pool(12));
                for order in permutations(height.min(4)) {
                    let (got, early) = rows::in_order(&order, || pool.install(|| outcome(&main, &[])));
                    c.transitions += order.len() as u64;
                    c.note("row_orders", 1);
                    if early > 0 {
                        c.note("row_orders_not_kept", 1);
                    }
                    if got != want {
                        return Err(Fail::new(format!("sequentially {want}\nbut with the rows evaluated in the order {order:?} {got}")));
                    }
                }
                Ok(Outcome::of(&want))
            },
        );
    }
}

fn run(ctx: &mut Ctx) {
    let (seeds, covered) = seeds(ctx.bound(24, 64) as usize);
    if ctx.mine() {
        ctx.case(
            || "the orders the seeds give".into(),
            |c| {
                c.note("seeds", seeds.len() as u64);
                c.note("orders_of_three_names_covered_of_384", covered as u64);
                Ok(Outcome::of(&covered))
            },
        );
    } else {
        ctx.skip(1);
    }
    let kinds: BTreeMap<&str, fn(&mut Ctx, &[u64])> = BTreeMap::from([("definitions", definitions as fn(&mut Ctx, &[u64])), ("imports", imports), ("orders", orders_of_imports), ("many", many_definitions)]);
    for run in kinds.values() {
        run(ctx, &seeds);
    }
    row_orders(ctx);
}

pub fn prop() -> Prop {
    Prop {
        id: "C21",
        level: "model_checking",
        rule: "every program is compiled by the real compiler once per chosen seed of its hash tables (the system's random numbers are replaced), once per order in which its rows can be evaluated (a gate in front of each row lets them go in every permutation) and with different numbers of threads; the sheet, the request for Google Sheets or the error text have to be the same; a state is a program's outcome",
        bounds: |t| {
            if t == Tier::Quick {
                "<= 24 seeds covering every order of any three of four names in the first 16 tables of a thread; subsets of <= 1 of 15 statements x <= 2 of 13 cells, subsets of <= 2 x 5 sheets x 2 layouts, 6 lists of key/values x 16; 37 import graphs of 3 modules x 5^3 contents; all lists of <= 4 imports of 3 modules and 5 of 8, with the same names; <= 300 definitions per module in 5 graphs; all permutations of the rows of all sheets of <= 3 of 7 kinds of rows".into()
            } else {
                "<= 64 seeds; subsets of <= 2 statements x <= 2 cells, <= 4 x 5 sheets x 2 layouts; all 512 import graphs of 3 modules x 5^3 contents with 16 seeds; all lists of <= 5 imports of 3 modules and 5 of 8; <= 1030 definitions per module in 5 graphs; all permutations of the rows of all sheets of <= 4 of 7 kinds of rows".into()
            }
        },
        run,
        hang_s: 120,
        workers: 0,
        assumptions: &["hash tables are the only source of randomness besides the schedule (the schedules of module loading are C08's)", "a row's result doesn't arrive later than the next row's, once 0.3 ms have passed"],
    }
}

//! C10: every history of edits, compiles and cache losses up to a depth, against compiles without
//! cache. C11: every way a cache file can be damaged.
use crate::cmd::{self, Entry, Ran, Snapshot};
use crate::rt::{h64, CaseResult, Ctx, Fail, Outcome, Prop, Tier};
use crate::util::{cell_field, clean_dir, compile_path, full_sheet, write};
use crate::sys;
use std::ffi::OsStr;
use std::collections::{BTreeMap, HashMap};
use std::path::{Path, PathBuf};
use std::time::{Duration, SystemTime};

const NAMES: [&str; 3] = ["main", "p", "q"];

/// the versions of each module's source. None: there is no such file
fn versions(m: usize) -> &'static [Option<&'static str>] {
    match m {
        0 => &[
            Some("use p t := \"MARKA\"\n---\n=v,=t,[[var=c/t=bold]]7,=c\n![[fill=2]]=f(1),=k\n"),
            Some("use p t := \"MARKA\"\n---\n=v,=t,[[var=c/t=bold]]8,=c\n![[fill=2]]=f(2),=k\n"),
            Some("use q use p\n---\n=v,=w,=f(3),=k\n"),
            Some("---\n=v,=w,=k\n"),
            Some("use p\n---\n=v,=1 +\n"),
            None,
            Some(""),
        ],
        1 => &[
            Some("use q v := w & 1 fn f(a) a + w\n---\nx,[[var=w]]y\n"),
            Some("v := \"MARKA\" w := 5\n---\n[[var=c]]5,=v\n"),
            Some("v := := 1\n---\n"),
            None,
            Some(""),
        ],
        _ => &[
            Some("w := \"MARKA\"\n---\n"),
            Some("w := \"MARKB\" v := 3\n---\n=w,2\n"),
            Some("w := 1\n---\n\"=1 +\"\n"),
            None,
        ],
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Event {
    /// module, version, with a modification time older than everything else
    Edit(usize, usize, bool),
    /// module, no_cache, with a value on the command line, through another path
    Compile(usize, bool, bool, bool),
    Remove(usize),
    /// the cache file becomes one of another version of csv++, with other contents
    OtherVersion(usize),
}
use Event::*;

fn events(quick: bool) -> Vec<Event> {
    let mut v = vec![];
    for m in 0..3 {
        for i in 0..versions(m).len() {
            if quick && matches!((m, i), (0, 5 | 6) | (2, 2)) {
                continue;
            }
            v.push(Edit(m, i, false));
            if versions(m)[i].is_some() && (!quick || i < 2) {
                v.push(Edit(m, i, true));
            }
        }
    }
    for m in 0..3 {
        v.push(Compile(m, false, false, false));
    }
    v.extend([Compile(0, true, false, false), Compile(0, false, true, false), Compile(0, true, true, false), Compile(0, false, false, true)]);
    if !quick {
        v.extend([Compile(1, true, false, false), Compile(1, false, true, false), Compile(1, false, false, true)]);
    }
    for m in 0..3 {
        v.push(Remove(m));
        v.push(OtherVersion(m));
    }
    v
}

type Files = BTreeMap<String, (Vec<u8>, SystemTime)>;

fn snapshot(dir: &Path) -> Files {
    let mut f = Files::new();
    for e in std::fs::read_dir(dir).unwrap().flatten() {
        let n = e.file_name().to_string_lossy().into_owned();
        f.insert(n, (std::fs::read(e.path()).unwrap_or_default(), e.metadata().unwrap().modified().unwrap()));
    }
    f
}
fn restore(dir: &Path, f: &Files) {
    let now = snapshot(dir);
    for n in now.keys() {
        if !f.contains_key(n) {
            std::fs::remove_file(dir.join(n)).unwrap();
        }
    }
    for (n, x) in f {
        if now.get(n) != Some(x) {
            put(&dir.join(n), &x.0, x.1);
        }
    }
}
fn put(p: &Path, b: &[u8], t: SystemTime) {
    std::fs::write(p, b).unwrap();
    touch(p, t);
}
fn touch(p: &Path, t: SystemTime) {
    std::fs::File::options().write(true).open(p).unwrap().set_modified(t).unwrap();
}
fn at(i: u64) -> SystemTime {
    SystemTime::UNIX_EPOCH + Duration::from_secs(1_000_000_000 + i)
}

/// what a user sees of a compile
pub fn outcome(path: &Path, kv: &[&str], no_cache: bool) -> Result<String, String> {
    match compile_path(path, kv, no_cache, Path::new("out.csv")) {
        Ok(m) => Ok(format!("{}\n{}", m.module_path, full_sheet(&m))),
        Err(e) => Err(e.to_string()),
    }
}

/// the cache as another version of csv++ would have left it: another version, other results
fn other_version(b: &[u8]) -> Vec<u8> {
    let mut b = b.to_vec();
    let string = |s: &str| [&(s.len() as u64).to_le_bytes()[..], s.as_bytes()].concat();
    let mut swap = |from: &str, to: &str| {
        let (f, t) = (string(from), string(to));
        let mut i = 0;
        while i + f.len() <= b.len() {
            if b[i..i + f.len()] == f[..] {
                b[i..i + f.len()].copy_from_slice(&t);
            }
            i += 1;
        }
    };
    swap(VERSION, "0.0.1");
    swap("MARKA", "OTHER");
    swap("MARKB", "OTHER");
    b
}
const VERSION: &str = "0.8.0";

struct Explorer<'a> {
    dir: PathBuf,
    fresh_dir: PathBuf,
    events: &'a [Event],
    fresh: HashMap<(Vec<usize>, usize, bool), Result<String, String>>,
    seen: HashMap<u64, usize>,
    state: State,
    failed: Option<Fail>,
    transitions: u64,
    compiles: u64,
    states: Vec<u64>,
}
#[derive(Clone, Debug)]
struct State {
    sources: Vec<usize>,
    /// how each cache file came to be
    caches: Vec<u64>,
    clock: u64,
    times: BTreeMap<String, u64>,
}
impl State {
    fn key(&self) -> u64 {
        // only the order of modification times
        let mut order: Vec<u64> = self.times.values().copied().collect();
        order.sort_unstable();
        order.dedup();
        let ranks: Vec<(&String, usize)> = self.times.iter().map(|(k, v)| (k, order.binary_search(v).unwrap())).collect();
        crate::rt::h64(&(&self.sources, &self.caches, ranks))
    }
}

impl Explorer<'_> {
    fn new<'a>(ctx: &Ctx, events: &'a [Event]) -> Explorer<'a> {
        let dir = ctx.scratch.join("work");
        let fresh_dir = ctx.scratch.join("fresh");
        for d in [&dir, &fresh_dir] {
            std::fs::create_dir_all(d).unwrap();
            clean_dir(d);
        }
        let mut e = Explorer {
            dir,
            fresh_dir,
            events,
            fresh: HashMap::new(),
            seen: HashMap::new(),
            state: State { sources: vec![0; 3], caches: vec![0; 3], clock: 0, times: BTreeMap::new() },
            failed: None,
            transitions: 0,
            compiles: 0,
            states: vec![],
        };
        for m in 0..3 {
            e.step(Edit(m, 0, false)).unwrap();
        }
        e
    }

    fn fresh(&mut self, target: usize, kv: bool) -> Result<String, String> {
        let key = (self.state.sources.clone(), target, kv);
        if let Some(r) = self.fresh.get(&key) {
            return r.clone();
        }
        clean_dir(&self.fresh_dir);
        for m in 0..3 {
            if let Some(t) = versions(m)[self.state.sources[m]] {
                write(&self.fresh_dir.join(format!("{}.csvpp", NAMES[m])), t);
            }
        }
        let r = outcome(&self.fresh_dir.join(format!("{}.csvpp", NAMES[target])), if kv { &["k=9"] } else { &[] }, true);
        self.fresh.insert(key, r.clone());
        r
    }

    /// after an event: give everything that was written the time of the event
    fn settle(&mut self, provenance: u64, time: u64) {
        let now = snapshot(&self.dir);
        for (n, (_, t)) in &now {
            if self.state.times.get(n).map(|t| at(*t)) != Some(*t) {
                touch(&self.dir.join(n), at(time));
                self.state.times.insert(n.clone(), time);
                if let Some(m) = NAMES.iter().position(|m| *n == format!("{m}.csvpo")) {
                    self.state.caches[m] = provenance;
                }
            }
        }
        self.state.times.retain(|n, _| now.contains_key(n));
        for m in 0..3 {
            if !now.contains_key(&format!("{}.csvpo", NAMES[m])) {
                self.state.caches[m] = 0;
            }
        }
    }

    fn step(&mut self, e: Event) -> Result<(), Fail> {
        self.transitions += 1;
        self.state.clock += 1;
        let clock = 100 + self.state.clock;
        match e {
            Edit(m, v, old) => {
                let f = self.dir.join(format!("{}.csvpp", NAMES[m]));
                self.state.sources[m] = v;
                match versions(m)[v] {
                    Some(t) => write(&f, t),
                    None => {
                        let _ = std::fs::remove_file(f);
                    }
                }
                self.state.times.remove(&format!("{}.csvpp", NAMES[m]));
                self.settle(0, if old { 100 - self.state.clock } else { clock });
            }
            Remove(m) => {
                let _ = std::fs::remove_file(self.dir.join(format!("{}.csvpo", NAMES[m])));
                self.settle(0, clock);
            }
            OtherVersion(m) => {
                let f = self.dir.join(format!("{}.csvpo", NAMES[m]));
                if let Ok(b) = std::fs::read(&f) {
                    // keeps its modification time
                    let n = format!("{}.csvpo", NAMES[m]);
                    put(&f, &other_version(&b), at(self.state.times[&n]));
                    self.state.caches[m] = crate::rt::h64(&("other", self.state.caches[m]));
                }
            }
            Compile(m, no_cache, kv, elsewhere) => {
                self.compiles += 1;
                let want = self.fresh(m, kv);
                let before = snapshot(&self.dir);
                let path = if elsewhere {
                    std::fs::create_dir_all(self.dir.parent().unwrap().join("other")).unwrap();
                    self.dir.parent().unwrap().join("other/../work").join(format!("{}.csvpp", NAMES[m]))
                } else {
                    self.dir.join(format!("{}.csvpp", NAMES[m]))
                };
                let got = outcome(&path, if kv { &["k=9"] } else { &[] }, no_cache);
                let dir_of = path.parent().unwrap().display().to_string();
                let fresh = self.fresh_dir.display().to_string();
                let norm = |r: &Result<String, String>, d: &str| match r {
                    Ok(s) => Ok(s.clone()),
                    Err(s) => Err(s.replace(d, "DIR")),
                };
                let (g, w) = (norm(&got, &dir_of), norm(&want, &fresh));
                if g != w {
                    return Err(Fail::new(format!("compiled with {} to\n{g:?}\nwithout a cache to\n{w:?}", if no_cache { "--no-cache" } else { "the cache" })));
                }
                let after = snapshot(&self.dir);
                for n in before.keys().chain(after.keys()) {
                    let cache = n.ends_with(".csvpo");
                    if (no_cache || !cache) && before.get(n) != after.get(n) {
                        return Err(Fail::new(format!("compiling (no_cache: {no_cache}) wrote or removed {n}")));
                    }
                }
                let p = crate::rt::h64(&("compiled", m, kv, elsewhere, &self.state.sources));
                self.settle(p, clock);
            }
        }
        Ok(())
    }

    fn explore(&mut self, depth: usize, history: &mut Vec<Event>) {
        if depth == 0 || self.failed.is_some() {
            return;
        }
        let k = self.state.key();
        match self.seen.get(&k) {
            Some(d) if *d >= depth => return,
            _ => (),
        }
        if self.seen.insert(k, depth).is_none() {
            self.states.push(k);
        }
        let files = snapshot(&self.dir);
        let state = self.state.clone();
        for e in self.events {
            match e {
                // nothing changes
                Edit(m, v, _) if state.sources[*m] == *v => continue,
                // two edits of a file in a row
                Edit(m, ..) if matches!(history.last(), Some(Edit(n, ..)) if n == m) => continue,
                // edits of several files in one order
                Edit(m, ..) if matches!(history.last(), Some(Edit(n, ..)) if n > m) => continue,
                // only compiles show something at the end
                Edit(..) | Remove(_) | OtherVersion(_) if depth == 1 => continue,
                Remove(m) | OtherVersion(m) if state.caches[*m] == 0 => continue,
                _ => (),
            }
            history.push(*e);
            if let Err(f) = self.step(*e) {
                self.failed = Some(Fail::keyed(f.key.clone(), format!("after {history:?}: {}", f.what)));
                return;
            }
            self.explore(depth - 1, history);
            if self.failed.is_some() {
                return;
            }
            history.pop();
            restore(&self.dir, &files);
            self.state = state.clone();
        }
    }
}

/// Several commands (and somebody who edits) at the same time, in every order of what they do to
/// files.
fn at_the_same_time(ctx: &mut Ctx) {
    const MAIN: [&[u8]; 2] = [b"use p\n---\n=v,1\n", b"use p\n---\n=v,2\n"];
    const P: [&[u8]; 2] = [b"v := 5\n---\n=v\n", b"v := 66 + 1\n---\n=v\n"];
    let compile = |f: &'static str, out: &'static str| vec!["-o", out, f];
    let both = [compile("main.csvpp", "out.csv"), compile("main.csvpp", "out2.csv")];
    let main_and_p = [compile("main.csvpp", "out.csv"), compile("p.csvpp", "out2.csv")];
    let main_without = [compile("main.csvpp", "out.csv"), vec!["--no-cache", "-o", "out2.csv", "main.csvpp"]];
    let edit_p: &[(&str, &[u8])] = &[("p.csvpp", P[1])];
    let edit_main: &[(&str, &[u8])] = &[("main.csvpp", MAIN[1])];
    let back: &[(&str, &[u8])] = &[("p.csvpp", P[1]), ("p.csvpp", P[0])];
    let cases: [(&[Vec<&str>], &[(&str, &[u8])]); 9] = [
        (&both[..1], edit_p),
        (&both[..1], edit_main),
        (&both[..1], back),
        (&main_and_p[1..], edit_p),
        (&both, &[]),
        (&main_and_p, &[]),
        (&main_without, &[]),
        (&both, edit_p),
        (&main_and_p, edit_p),
    ];
    // the caches before: none, of the same sources, of others, of p on its own
    for caches in 0..4 {
        for (commands, edits) in cases {
            if ctx.quick() && commands.len() == 2 && (!edits.is_empty() || caches % 2 == 0) {
                continue;
            }
            if !ctx.mine() {
                ctx.skip(1);
                continue;
            }
            ctx.case(
                || format!("{commands:?} and edits of {:?} at the same time, caches {caches}", edits.iter().map(|e| e.0).collect::<Vec<_>>()),
                |c| {
                    let dir = c.scratch.join("t");
                    let files = |main: usize, p: usize| Snapshot::from([("main.csvpp".into(), Entry::File(MAIN[main].to_vec())), ("p.csvpp".into(), Entry::File(P[p].to_vec()))]);
                    // what each combination of sources makes without a cache
                    let mut fresh: HashMap<(usize, usize, &str), Option<Entry>> = HashMap::new();
                    for main in 0..2 {
                        for p in 0..2 {
                            for f in ["main.csvpp", "p.csvpp"] {
                                cmd::restore(&dir, &files(main, p));
                                cmd::run(&dir, &["--no-cache", "-o", "out.csv", f], None)?.check()?;
                                fresh.insert((main, p, f), cmd::snapshot(&dir).remove(OsStr::new("out.csv")));
                            }
                        }
                    }
                    let (m0, p0) = match caches {
                        2 => (1, 1),
                        _ => (0, 0),
                    };
                    cmd::restore(&dir, &files(m0, p0));
                    if caches > 0 {
                        cmd::run(&dir, &["-o", "out.csv", if caches == 3 { "p.csvpp" } else { "main.csvpp" }], None)?.check()?;
                    }
                    let mut start = cmd::snapshot_all(&dir);
                    start.retain(|n, _| n.to_string_lossy().ends_with(".csvpo"));
                    start.extend(files(0, 0));
                    let at = |edits: &[(&str, &[u8])]| {
                        let now = |n: &str, vs: [&[u8]; 2]| edits.iter().rev().find(|e| e.0 == n).map_or(0, |e| vs.iter().position(|v| *v == e.1).unwrap_or(0));
                        (now("main.csvpp", MAIN), now("p.csvpp", P))
                    };
                    sys::Together {
                        dir: &dir,
                        start: &start,
                        commands,
                        edits,
                        clock: None,
                        constant: &|n| n.starts_with("out") || edits.is_empty() && n.ends_with(".csvpp"),
                        always: &mut |_| Ok(()),
                        at_end: &mut |dir, files, rans| {
                            for (command, ran) in commands.iter().zip(rans) {
                                let source = command[command.len() - 1];
                                if !ran.ok() {
                                    return Err(Fail::new(format!("{command:?} ends with {:?} {}", ran.status, ran.stderr)));
                                }
                                let out = command[command.len() - 2];
                                let got = files.get(OsStr::new(out));
                                let possible: Vec<_> = (0..=edits.len()).map(|n| &fresh[&(at(&edits[..n]).0, at(&edits[..n]).1, source)]).collect();
                                if !possible.iter().any(|p| p.as_ref() == got) {
                                    return Err(Fail::new(format!("{command:?} makes {got:?}, the sources were at some time {possible:?}")));
                                }
                            }
                            let now = at(edits);
                            for source in ["p.csvpp", "main.csvpp", "p.csvpp"] {
                                let _ = std::fs::remove_file(dir.join("out3.csv"));
                                let ran = cmd::run(dir, &["-o", "out3.csv", source], None)?;
                                let got = cmd::snapshot(dir).remove(OsStr::new("out3.csv"));
                                let want = &fresh[&(now.0, now.1, source)];
                                if !ran.ok() || got != *want {
                                    return Err(Fail::new(format!("then {source} makes {got:?}, without a cache {want:?} {}", ran.stderr)));
                                }
                            }
                            Ok(())
                        },
                    }
                    .explore(c, &cmd::snapshot_all)?;
                    Ok(Outcome::of(&(commands, edits, caches)))
                },
            );
        }
    }
}

/// what a module is, with the kinds of values that look the same
fn in_full(path: &Path, no_cache: bool, dir: &Path) -> Result<String, String> {
    match compile_path(path, &[], no_cache, Path::new("out.csv")) {
        Ok(m) => {
            let asts: Vec<String> = m.spreadsheet.rows.iter().flat_map(|r| &r.cells).map(|c| format!("{:?} {:?}", c.ast, c.field)).collect();
            Ok(format!("{}\n{}\n{asts:?}", m.module_path, full_sheet(&m)))
        }
        Err(e) => Err(e.to_string().replace(&dir.display().to_string(), "DIR")),
    }
}

/// Everything there is, by way of the cache: each program in every order of compiling it, what it imports
/// and it again, with main as it is or edited
fn round_trip(ctx: &mut Ctx) {
    let leaves = [
        "1", "0", "007", "1.5", "1.50", "1.0", "1%", "2.5%", "-1", "+2", "-1.5%", "9223372036854775807", "0.1", "123456789.125", "\"\"", "\"t\"", "\"a \"\"b\"\" é,\n\"", "true", "FALSE", "A1", "$A$1", "A1:B2", "Sheet1!A1", "'S 1'!A1", "u", "w", "s()", "s(1, \"x\")", "f(u)", "a + b * c",
        "(a - 1) - 2", "a & \"é\" & b", "a <> b", "a <= 1%", "-a", "s(-1, a%)", "w + r", "f(r)", "c",
    ];
    let plain = ["", "x", " x ", "é", "\"a,\"\"b\"\"\nc\"", "a\\\nb", ",", ",,x", "\nx\n\n", "#c\nx", "[[var=w]]", "\u{a0}x"];
    let quoted = |f: &str| cell_field(f);
    let code = "u := 3 + 4 fn f(a) s(a, u) ";
    let mut programs: Vec<(String, String)> = vec![];
    for l in leaves {
        // in a cell; in a definition of the module or of another one; under a fill; as what a value is checked with
        programs.push((format!("{code}\n---\n{},[[var=c]]1\n", quoted(&format!("={l}"))), String::new()));
        programs.push((format!("{code}v := {l} fn g(a, b) s({l}, a)\n---\n=v,\"=g(1, v)\",[[var=c]]1\n![[fill=2/var=r]]=v,[[var=w]]y\n=w\n"), String::new()));
        programs.push((format!("use p\n---\n=v,\"=g(1, v)\",=u\n![[fill=2/var=r]]=v,[[var=w]]y\n=w\n"), format!("{code}v := {l} fn g(a, b) s({l}, a)\n---\n=v,[[var=c]]5\n![[fill=3/var=r]]2,[[var=w]]=c\n")));
        programs.push((format!("---\n{}\n", quoted(&format!("[[validate=custom({l})/note='n']]x"))), String::new()));
        programs.push((format!("use p\n---\n=v\n"), format!("v := 1\n---\n{}\n", quoted(&format!("[[validate=custom({l})/note='n']]={l}")))));
    }
    for o in crate::options::all() {
        for (pre, post) in [("[[", "]]x,y"), ("[[", "]]=1 + 2"), ("![[", "]]x,=y\nz"), ("![[fill=2/", "]]x,[[t=b]]=1")] {
            let sheet = format!("{}\n", quoted(&format!("{pre}{}{}", o.text(), post.split(',').next().unwrap())) + post.find(',').map_or("", |i| &post[i..]));
            programs.push((format!("---\n{sheet}"), String::new()));
            programs.push((format!("use p\n---\n=v\n{sheet}"), format!("v := 1\n---\n{sheet}")));
        }
    }
    for a in plain {
        for b in plain {
            programs.push((format!("---\n{a},{b}\n"), String::new()));
            programs.push((format!("use p\n---\n{b},=w\n{a}"), format!("q := \"{}\"\n---\n{a}\n{b}", "é\n")));
        }
    }
    // what goes wrong
    for (m, d) in [("use p\n---\nx\n=f(1)", "fn f(a, b) a\n---\n"), ("use p\n---\nx,\n,=v", "fn f(a) v v := f(v)\n---\n"), ("use p\n---\n=v", "v := := 1"), ("use p\n---\n=v", "v := 1\n---\n=1 +"), ("use p\n---\n=v +", "v := 1\n---\n"), ("use p\n---\n[[t=z]]x", "v := 1\n---\n"), ("use q\n---\n", "")] {
        programs.push((m.into(), d.into()));
    }
    for (main, dep) in &programs {
        for order in ["mm", "dmm", "mdmd", "mem", "memdxm"] {
            if dep.is_empty() && order.contains('d') {
                continue;
            }
            if !ctx.mine() {
                ctx.skip(1);
                continue;
            }
            ctx.case(
                || format!("{order} of main {main:?}, p {dep:?}"),
                |c| {
                    let dir = c.scratch.join("rt");
                    let fresh = c.scratch.join("rtfresh");
                    for d in [&dir, &fresh] {
                        std::fs::create_dir_all(d).unwrap();
                        clean_dir(d);
                        if !dep.is_empty() {
                            write(&d.join("p.csvpp"), dep);
                        }
                        write(&d.join("main.csvpp"), main);
                    }
                    let mut last = String::new();
                    for (i, o) in order.chars().enumerate() {
                        match o {
                            'e' | 'x' => {
                                for d in [&dir, &fresh] {
                                    write(&d.join("main.csvpp"), &format!("{main}{}", if o == 'e' { "\nedited" } else { "" }));
                                }
                            }
                            o => {
                                let f = if o == 'm' { "main.csvpp" } else { "p.csvpp" };
                                let got = in_full(&dir.join(f), false, &dir);
                                let want = in_full(&fresh.join(f), true, &fresh);
                                c.transitions += 1;
                                if got != want {
                                    return Err(Fail::new(format!("step {i} of {order}: {f} compiled with the cache is\n{got:?}\nwithout\n{want:?}")));
                                }
                                last = format!("{got:?}");
                            }
                        }
                    }
                    Ok(Outcome::of(&last))
                },
            );
        }
    }
}

fn run(ctx: &mut Ctx) {
    round_trip(ctx);
    at_the_same_time(ctx);
    let ev = events(ctx.quick());
    let depth = ctx.bound(4, 5);
    // each case explores everything after its first two events
    let mut firsts: Vec<Vec<Event>> = vec![];
    for a in &ev {
        if matches!(a, Remove(_) | OtherVersion(_)) {
            continue;
        }
        for b in &ev {
            firsts.push(vec![*a, *b]);
        }
    }
    // from a project that has been compiled, too
    for pre in [vec![Compile(0, false, false, false)], vec![Compile(1, false, false, false), Compile(0, false, false, false)]] {
        for a in &ev {
            for b in &ev {
                firsts.push([pre.clone(), vec![*a, *b]].concat());
            }
        }
    }
    for f in &firsts {
        ctx.case(
            || format!("every history of {depth} events that starts with {f:?}"),
            |ctx| {
                let mut x = Explorer::new(ctx, &ev);
                let mut history = vec![];
                for e in f {
                    let skip = match e {
                        Edit(m, v, _) => x.state.sources[*m] == *v,
                        Remove(m) | OtherVersion(m) => x.state.caches[*m] == 0,
                        Compile(..) => false,
                    };
                    if skip {
                        return Ok(Outcome::trivial());
                    }
                    history.push(*e);
                    x.step(*e).map_err(|f| Fail::keyed(f.key.clone(), format!("after {history:?}: {}", f.what)))?;
                }
                x.explore(depth - 2, &mut history);
                ctx.transitions += x.transitions;
                ctx.note("compiles", x.compiles);
                for s in &x.states {
                    ctx.state(*s);
                }
                match x.failed.take() {
                    Some(f) => Err(f),
                    None => Ok(Outcome::of(&x.state.key())),
                }
            },
        );
    }
}

pub fn prop() -> Prop {
    Prop {
        id: "C10",
        level: "model_checking",
        rule: "every history of source edits (with newer and older modification times), compiles (cached, uncached, with -k, through another path, of any of the modules), cache removals and caches of another version; each compile compared with one of the same sources in a directory without caches; every kind of value, option and field by way of the cache in 5 orders of compiling; real commands and edits at the same time in every order of their operations on files",
        bounds: |t| {
            if t == Tier::Quick {
                "about 1700 programs with every leaf, option value and form of field, each compiled in up to 5 orders; 3 modules with 5, 5 and 3 versions; histories of 4 events from a fresh project and from two compiled ones; states deduplicated; a compile with 4 edits x 4 states of the caches, two compiles x 3 x 2 states of the caches at the same time".into()
            } else {
                "3 modules with 7, 5 and 4 versions; histories of 5 events from a fresh project and from two compiled ones; states deduplicated; two compiles and an edit at the same time".into()
            }
        },
        run,
        hang_s: 120,
        workers: 0,
        assumptions: &["what a cache file holds depends only on what was compiled and the sources at that time (checked, as each compile is compared with a fresh one)", "at the same time: an edit replaces a file at once, reads that directly follow each other are one step"],
    }
}

// ---------------------------------------------------------------------------------------------

/// what is left of a cache file
#[derive(Clone, Copy, Debug, PartialEq)]
enum Left {
    Missing,
    /// of the interrupted compile
    Cut(usize),
    Whole,
    /// of the compile before it (when the sources were different)
    Old,
    /// of an interrupted compile, before the sources were edited
    OldCut(usize),
    /// the rest was never written back: zeroes
    Zeroes(usize),
}

/// (sources before, sources now) of main, p and q
const PROJECTS: [[[usize; 3]; 2]; 5] = [
    [[0, 0, 0], [0, 0, 0]],
    [[0, 0, 0], [1, 0, 1]],
    [[2, 1, 0], [2, 0, 1]],
    [[3, 0, 0], [0, 1, 0]],
    [[0, 1, 0], [3, 1, 0]],
];

struct Built {
    sources: Vec<Option<&'static str>>,
    old: Files,
    new: Files,
    fresh: Result<String, String>,
    fresh_k: Result<String, String>,
}

fn build(dir: &Path, project: &[[usize; 3]; 2], target: usize) -> Built {
    clean_dir(dir);
    let put_sources = |vs: &[usize; 3]| {
        for m in 0..3 {
            if let Some(t) = versions(m)[vs[m]] {
                put(&dir.join(format!("{}.csvpp", NAMES[m])), t.as_bytes(), at(1));
            }
        }
    };
    let main = dir.join(format!("{}.csvpp", NAMES[target]));
    let caches = || snapshot(dir).into_iter().filter(|(n, _)| n.ends_with(".csvpo")).collect::<Files>();
    put_sources(&project[0]);
    let _ = outcome(&main, &[], false);
    let old = caches();
    put_sources(&project[1]);
    let fresh = outcome(&main, &[], true);
    let fresh_k = outcome(&main, &["k=9"], true);
    let _ = outcome(&main, &[], false);
    let new = caches();
    Built { sources: (0..3).map(|m| versions(m)[project[1][m]]).collect(), old, new, fresh, fresh_k }
}

fn damage(ctx: &mut Ctx, b: &Built, target: usize, left: &[Left; 3], kv: bool) -> CaseResult {
    let dir = PathBuf::from("work");
    clean_dir(&dir);
    for m in 0..3 {
        if let Some(t) = b.sources[m] {
            put(&dir.join(format!("{}.csvpp", NAMES[m])), t.as_bytes(), at(1));
        }
        let n = format!("{}.csvpo", NAMES[m]);
        let new = b.new.get(&n).map(|x| x.0.clone());
        let content = match left[m] {
            Left::Missing => None,
            Left::Cut(k) => new.map(|b| b[..k].to_vec()),
            Left::Whole => new,
            Left::Old => b.old.get(&n).map(|x| x.0.clone()),
            Left::OldCut(k) => b.old.get(&n).map(|x| x.0[..k].to_vec()),
            Left::Zeroes(k) => new.map(|b| [&b[..k], &vec![0u8; b.len() - k][..]].concat()),
        };
        if let Some(c) = content {
            put(&dir.join(n), &c, at(2));
        }
    }
    let main = dir.join(format!("{}.csvpp", NAMES[target]));
    let (kvs, want): (&[&str], _) = if kv { (&["k=9"], &b.fresh_k) } else { (&[], &b.fresh) };
    let got = outcome(&main, kvs, false);
    ctx.transitions += 1;
    if got != *want {
        return Err(Fail::new(format!("compiled to\n{got:?}\nwithout a cache to\n{want:?}")));
    }
    // now everything is as after an undisturbed compile: nothing is damaged and nothing is written again
    let after = snapshot(&dir);
    let got = outcome(&main, kvs, false);
    ctx.transitions += 1;
    if got != *want {
        return Err(Fail::new(format!("the second compile gave\n{got:?}\nwithout a cache\n{want:?}")));
    }
    if want.is_ok() && snapshot(&dir) != after {
        return Err(Fail::new("the cache left behind by the first compile is not used by the second one"));
    }
    Ok(Outcome::of(&(got, format!("{left:?}"))))
}

/// the sources as files, and what the command makes of them without a cache
fn project(dir: &Path, vs: &[usize; 3], target: &str) -> Result<(Snapshot, Made), Fail> {
    let mut files = Snapshot::new();
    for m in 0..3 {
        if let Some(t) = versions(m)[vs[m]] {
            files.insert(format!("{}.csvpp", NAMES[m]).into(), Entry::File(t.as_bytes().to_vec()));
        }
    }
    cmd::restore(dir, &files);
    let ran = cmd::run(dir, &["--no-cache", "-o", "out.csv", target], None)?;
    ran.check()?;
    let made = made(dir, &ran);
    let after = cmd::snapshot_all(dir);
    if after.keys().any(|n| !files.contains_key(n) && n != "out.csv") {
        return Err(Fail::new(format!("without a cache: {}", cmd::difference(&files, &after))));
    }
    Ok((files, made))
}

/// the exit status, the message and the output
type Made = (bool, String, Option<Entry>);
fn made(dir: &Path, ran: &Ran) -> Made {
    (ran.ok(), if ran.ok() { String::new() } else { ran.stderr.clone() }, cmd::snapshot(dir).remove(OsStr::new("out.csv")))
}

/// The real command breaks off or can't read or write at each of its operations on files.
fn interrupted(ctx: &mut Ctx) {
    let work = ctx.scratch.join("t");
    for (pi, p) in PROJECTS.iter().enumerate() {
        for (t, target) in ["main.csvpp", "p.csvpp"].into_iter().enumerate() {
            let prepared = project(&work, &p[1], target).and_then(|(sources, want)| {
                // as left by a compile of the sources before
                let (_, first) = project(&work, &p[0], target)?;
                let _ = std::fs::remove_file(work.join("out.csv"));
                let ran = cmd::run(&work, &["-o", "out.csv", target], None)?;
                if made(&work, &ran) != first {
                    return Err(Fail::new(format!("with a cache: {:?}, without: {first:?}", made(&work, &ran))));
                }
                let mut before = cmd::snapshot_all(&work);
                before.retain(|n, _| n.to_string_lossy().ends_with(".csvpo"));
                before.extend(sources.clone());
                Ok((sources, want, before))
            });
            let (sources, want, stale) = match prepared {
                Ok(x) => x,
                Err(f) => {
                    ctx.case(|| format!("project {pi} {p:?}"), |_| Err(f));
                    continue;
                }
            };
            if !want.0 {
                continue;
            }
            for before in [&sources, &stale] {
                let args = ["-o", "out.csv", target];
                let quick = ctx.quick();
                if quick && (pi > 2 || (pi, t) == (1, 1) || pi == 0 && std::ptr::eq(before, &sources)) {
                    continue;
                }
                sys::Broken {
                    what: format!("project {pi} {p:?}, {target}, {} caches before", before.len() - sources.len()),
                    before,
                    args: &args,
                    clock: None,
                    of: &|_| true,
                    len: usize::MAX,
                    every_byte: !quick,
                }
                .explore(ctx, &mut |c, dir, _, ran| {
                    let show = |m: &Made| format!("{m:?}, without a cache {want:?}");
                    if ran.status == Some(101) {
                        return Err(Fail::new(format!("it panics: {}", ran.stderr)));
                    }
                    let broken = made(dir, ran);
                    if broken.0 && broken != want {
                        return Err(Fail::new(format!("it goes on to {}", show(&broken))));
                    }
                    let _ = std::fs::remove_file(dir.join("out.csv"));
                    let next = made(dir, &cmd::run(dir, &args, None)?);
                    if next != want {
                        return Err(Fail::new(format!("the next compile makes {}", show(&next))));
                    }
                    let _ = std::fs::remove_file(dir.join("out.csv"));
                    let (ops, ran) = sys::trace(dir, &args, None)?;
                    c.transitions += 2;
                    let last = made(dir, &ran);
                    if last != want {
                        return Err(Fail::new(format!("the one after that makes {}", show(&last))));
                    }
                    if let Some(n) = ops.iter().find(|(n, l)| n.ends_with(".csvpo") && l.iter().any(|o| o.op == "write")) {
                        return Err(Fail::new(format!("the cache that's left behind isn't used: {} is written again", n.0)));
                    }
                    Ok(h64(&broken.0))
                });
            }
        }
    }
}

fn run11(ctx: &mut Ctx) {
    interrupted(ctx);
    let dir = PathBuf::from("work");
    std::fs::create_dir_all(&dir).unwrap();
    for (pi, p) in PROJECTS.iter().enumerate() {
        if ctx.quick() && pi > 2 {
            continue;
        }
        for target in [0, 1] {
            let b = build(&dir, p, target);
            for hurt in 0..3 {
                let name = format!("{}.csvpo", NAMES[hurt]);
                // where serialized hash tables are in another order, lengths are the same
                let Some(len) = b.new.get(&name).map(|x| x.0.len()) else { continue };
                let mut states: Vec<Left> = (0..len).map(Left::Cut).collect();
                states.push(Left::Missing);
                if pi > 0 {
                    states.extend((0..b.old.get(&name).map_or(0, |x| x.0.len())).map(Left::OldCut));
                }
                if !ctx.quick() {
                    states.extend((0..len).map(Left::Zeroes));
                }
                let others = |i: usize| -> Vec<Left> {
                    let full = b.new.get(&format!("{}.csvpo", NAMES[i])).map_or(0, |x| x.0.len());
                    if full == 0 {
                        return vec![Left::Missing];
                    }
                    ctx_bound(ctx, vec![Left::Missing, Left::Whole, Left::Old], vec![Left::Missing, Left::Whole, Left::Old, Left::Cut(0), Left::Cut(full / 2), Left::Cut(full - 1)])
                };
                let (o1, o2) = ((hurt + 1) % 3, (hurt + 2) % 3);
                let (l1, l2) = (others(o1), others(o2));
                for s in &states {
                    for a in &l1 {
                        for c in &l2 {
                            if ctx.quick() && a != c && (*a, *c) != (Left::Whole, Left::Missing) {
                                continue;
                            }
                            if matches!(s, Left::OldCut(_)) && ctx.quick() && (a != c || *a == Left::Missing) {
                                continue;
                            }
                            // nothing was edited
                            if pi == 0 && [a, c].contains(&&Left::Old) {
                                continue;
                            }
                            for kv in [false, true] {
                                // -k has no main cache: the caches of the imports count alone
                                if kv && (target == 1 || !(*a == Left::Whole || *c == Left::Whole)) {
                                    continue;
                                }
                                let mut left = [Left::Whole; 3];
                                left[hurt] = *s;
                                left[o1] = *a;
                                left[o2] = *c;
                                ctx.case(|| format!("project {pi} {p:?}, compiling {}: caches left {left:?}, -k: {kv}", NAMES[target]), |ctx| damage(ctx, &b, target, &left, kv));
                            }
                        }
                    }
                }
            }
        }
    }
}
fn ctx_bound<T>(ctx: &Ctx, q: T, t: T) -> T {
    ctx.bound(q, t)
}

pub fn prop11() -> Prop {
    Prop {
        id: "C11",
        level: "model_checking",
        rule: "every cache file cut at every byte, missing or empty, with the other cache files missing, whole or left from before an edit; compiled twice and compared with a compile without cache; the real command fails, ends or does only a part at each of its operations on files, and is run twice again",
        bounds: |t| {
            if t == Tier::Quick {
                "3 projects of 3 modules (unchanged and edited since the last compile) x 2 compiled modules x every cut of each cache file (of the sources as they are and as they were) x 4 states of the others, with and without -k; every operation of the command x 3 errors, killed, a part only".into()
            } else {
                "5 projects of 3 modules (unchanged and edited since the last compile) x 2 compiled modules x every cut (also with the rest zeroed) of each cache file x 6 x 6 states of the others, with and without -k; every operation of the command x 3 errors, killed after every number of bytes, a part only".into()
            }
        },
        run: run11,
        hang_s: 30,
        workers: 0,
        assumptions: &["an interrupted write leaves a prefix of what was to be written (in the thorough tier also: a prefix followed by zeroes)"],
    }
}

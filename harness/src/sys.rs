//! What the real command does to files: traced, made to fail at any of its operations, and in every
//! order with what another one does.
use crate::cmd::{self, Clock, Entry, Ran, Running, Snapshot};
use crate::rt::{h64, Ctx, Fail, Outcome};
use std::collections::{BTreeMap, HashSet};
use std::ffi::OsStr;
use std::io::{Read, Write};
use std::os::fd::AsRawFd;
use std::os::unix::net::UnixStream;
use std::path::Path;
use std::time::Duration;

/// ENOSPC, EIO, EACCES
pub const ERRORS: [i32; 3] = [28, 5, 13];

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Op {
    pub op: String,
    pub name: String,
    pub count: usize,
}

/// The operations on each file, in order.
pub fn trace(dir: &Path, args: &[&str], clock: Option<Clock>) -> Result<(BTreeMap<String, Vec<Op>>, Ran), Fail> {
    let at = dir.with_extension("trace");
    let _ = std::fs::remove_file(&at);
    let ran = cmd::start(dir, args, clock, &[("VERIF_TRACE", at.display().to_string())], None)?.wait()?;
    let text = std::fs::read_to_string(&at).unwrap_or_default();
    let _ = std::fs::remove_file(&at);
    let mut ops: BTreeMap<String, Vec<Op>> = BTreeMap::new();
    for l in text.lines() {
        let (op, rest) = l.split_once(' ').ok_or_else(|| Fail::new("MACHINERY: trace"))?;
        let (name, count) = rest.rsplit_once(' ').ok_or_else(|| Fail::new("MACHINERY: trace"))?;
        ops.entry(name.to_string()).or_default().push(Op { op: op.into(), name: name.into(), count: count.parse().unwrap_or(0) });
    }
    Ok((ops, ran))
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Action {
    /// it's killed before the operation
    Kill,
    /// it's killed when it has written so many bytes
    Part(usize),
    Error(i32),
    /// it writes or reads only so many bytes, and can go on
    Short(usize),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Fault {
    pub name: String,
    pub k: usize,
    pub op: String,
    pub action: Action,
}
impl Fault {
    fn env(&self) -> Vec<(&'static str, String)> {
        let a = match self.action {
            Action::Kill => "kill".to_string(),
            Action::Part(n) => format!("part:{n}"),
            Action::Error(e) => format!("err:{e}"),
            Action::Short(n) => format!("short:{n}"),
        };
        vec![("VERIF_FAULT", format!("{}:{}:{a}", self.name, self.k))]
    }
    pub fn run(&self, dir: &Path, args: &[&str], clock: Option<Clock>) -> Result<Ran, Fail> {
        cmd::start(dir, args, clock, &self.env(), None)?.wait()
    }
}

/// Every way these operations can be interrupted or fail. `len` is how much a write really writes
/// when the count says more (of a copy).
pub fn faults(ops: &BTreeMap<String, Vec<Op>>, of: impl Fn(&str) -> bool, len: usize, every_byte: bool) -> Vec<Fault> {
    let mut all = vec![];
    for (name, list) in ops {
        if !of(name) {
            continue;
        }
        for (k, op) in list.iter().enumerate() {
            let mut add = |action| all.push(Fault { name: name.clone(), k, op: op.op.clone(), action });
            if op.op != "get" && op.op != "look" && op.op != "read" {
                add(Action::Kill);
            }
            for e in ERRORS {
                add(Action::Error(e));
            }
            let n = op.count.min(len);
            if op.op == "write" {
                let cuts: Vec<usize> = if every_byte { (1..=n).collect() } else { [1, n / 2, n.saturating_sub(1), n].into_iter().filter(|c| *c > 0).collect() };
                for c in cuts {
                    add(Action::Part(c));
                }
            }
            if op.op == "write" || op.op == "get" {
                for c in [1, n / 2].into_iter().filter(|c| *c > 0) {
                    add(Action::Short(c));
                }
            }
        }
    }
    all
}

/// A command that is broken off or fails at every one of its operations.
pub struct Broken<'a> {
    pub what: String,
    pub before: &'a Snapshot,
    pub args: &'a [&'a str],
    pub clock: Option<Clock>,
    pub of: &'a dyn Fn(&Fault) -> bool,
    /// how much a write really writes when the count says more (of a copy)
    pub len: usize,
    pub every_byte: bool,
}
impl Broken<'_> {
    /// Which operations there are is only found out in each case, so that the cases are always the
    /// same ones
    pub fn explore(&self, ctx: &mut Ctx, check: &mut dyn FnMut(&mut Ctx, &Path, &Fault, &Ran) -> Result<u64, Fail>) {
        const PARTS: usize = 8;
        for part in 0..PARTS {
            if !ctx.mine() {
                ctx.skip(1);
                continue;
            }
            ctx.case(
                || format!("{}, broken off at every operation ({part} of {PARTS})", self.what),
                |c| {
                    let dir = c.scratch.join("t");
                    cmd::restore(&dir, self.before);
                    let (ops, ran) = trace(&dir, self.args, self.clock)?;
                    if !ran.ok() {
                        return Err(Fail::new(format!("undisturbed it ends with {:?} {}", ran.status, ran.stderr)));
                    }
                    let mut all = faults(&ops, |_| true, self.len, self.every_byte);
                    all.retain(self.of);
                    let mut last = 0;
                    for f in all.iter().skip(part).step_by(PARTS) {
                        cmd::restore(&dir, self.before);
                        let ran = f.run(&dir, self.args, self.clock)?;
                        c.transitions += 1;
                        c.note("broken off", 1);
                        last = check(c, &dir, f, &ran).map_err(|e| Fail::keyed(e.key.clone(), format!("{f:?}: {}", e.what)))?;
                        c.state(h64(&(&f.op, &f.action, last)));
                    }
                    if all.len() <= part {
                        return Ok(Outcome::trivial());
                    }
                    Ok(Outcome::of(&(&self.what, part, last)))
                },
            );
        }
    }
}

// ---------------------------------------------------------------------------------------------

struct Process {
    running: Option<Running>,
    ran: Option<Ran>,
    socket: UnixStream,
    /// what it wants to do next; none when it has ended
    pending: Option<(String, String)>,
    /// what it did and found
    did: Vec<(String, String, u64)>,
}

/// Two (or more) commands at the same time.  (Reads of a file that directly follow each other are one
/// step.)
pub struct Together<'a> {
    pub dir: &'a Path,
    pub start: &'a Snapshot,
    pub commands: &'a [Vec<&'a str>],
    /// files that somebody replaces, one after the other
    pub edits: &'a [(&'a str, &'a [u8])],
    pub clock: Option<Clock>,
    /// files that nobody writes, in any order it's the same
    pub constant: &'a dyn Fn(&str) -> bool,
    /// `(files, number of the commands that have ended)`: must always hold
    pub always: &'a mut dyn FnMut(&Snapshot) -> Result<(), Fail>,
    pub at_end: &'a mut dyn FnMut(&Path, &Snapshot, &[Ran]) -> Result<(), Fail>,
}

impl Process {
    fn start(t: &Together, args: &[&str]) -> Result<Self, Fail> {
        let (mine, its) = UnixStream::pair().map_err(cmd::io)?;
        mine.set_read_timeout(Some(Duration::from_secs(60))).map_err(cmd::io)?;
        let running = cmd::start(t.dir, args, t.clock, &[], Some(its.as_raw_fd()))?;
        drop(its);
        let mut p = Self { running: Some(running), ran: None, socket: mine, pending: None, did: vec![] };
        p.next(t)?;
        Ok(p)
    }

    /// wait for what it wants to do next
    fn next(&mut self, t: &Together) -> Result<(), Fail> {
        loop {
            let mut line = vec![];
            loop {
                let mut b = [0];
                match self.socket.read(&mut b) {
                    Ok(0) => break,
                    Ok(_) if b[0] == b'\n' => break,
                    Ok(_) => line.push(b[0]),
                    Err(e) if e.kind() == std::io::ErrorKind::ConnectionReset => break,
                    Err(_) => return Err(Fail::new("it doesn't do anything for 60 s")),
                }
            }
            if line.is_empty() {
                self.pending = None;
                if let Some(r) = self.running.take() {
                    self.ran = Some(r.wait()?);
                }
                return Ok(());
            }
            let line = String::from_utf8_lossy(&line).into_owned();
            let (op, name) = line.split_once(' ').ok_or_else(|| Fail::new("MACHINERY: gate"))?;
            // reading on is no step of its own
            let goes_on = op == "get" && self.did.last().is_some_and(|(o, n, _)| o == op && n == name);
            if !goes_on && !(t.constant)(name) {
                self.pending = Some((op.to_string(), name.to_string()));
                return Ok(());
            }
            self.allow()?;
        }
    }

    fn allow(&mut self) -> Result<(), Fail> {
        self.socket.write_all(b"g").map_err(cmd::io)
    }

    fn step(&mut self, t: &Together) -> Result<(), Fail> {
        let (op, name) = self.pending.take().ok_or_else(|| Fail::new("MACHINERY: it has ended"))?;
        // what it can learn from it
        let found = match std::fs::symlink_metadata(t.dir.join(&name)) {
            Ok(_) => content(OsStr::new(&name), &std::fs::read(t.dir.join(&name)).unwrap_or_default()),
            Err(_) => 0,
        };
        self.did.push((op, name, found));
        self.allow()?;
        self.next(t)
    }
}

impl Drop for Process {
    fn drop(&mut self) {
        if let Some(mut r) = self.running.take() {
            r.kill();
        }
    }
}

impl Together<'_> {
    /// Explore every order. A state is the files and what each command did and found so far.
    pub fn explore(&mut self, ctx: &mut Ctx, all_files: &dyn Fn(&Path) -> Snapshot) -> Result<(), Fail> {
        let mut seen: HashSet<u64> = HashSet::new();
        let mut todo: Vec<Vec<usize>> = vec![vec![]];
        let editor = self.commands.len();
        while let Some(prefix) = todo.pop() {
            let mut steps: Vec<String> = vec![];
            let mut schedule: Vec<usize> = vec![];
            cmd::restore(self.dir, self.start);
            let mut ps = vec![];
            for c in self.commands {
                ps.push(Process::start(self, c)?);
            }
            let mut edits = self.edits.iter();
            loop {
                let explored = schedule.len() < prefix.len();
                let mut enabled: Vec<usize> = (0..ps.len()).filter(|i| ps[*i].pending.is_some()).collect();
                if edits.len() > 0 {
                    enabled.push(editor);
                }
                let fail = |f: Fail, steps: &[String]| Fail::keyed(f.key.clone(), format!("in the order [{}] {}", steps.join(", "), f.what));
                let next = if explored {
                    prefix[schedule.len()]
                } else {
                    let files = all_files(self.dir);
                    (self.always)(&files).map_err(|f| fail(f, &steps))?;
                    let contents: Vec<_> = files.iter().map(|(n, e)| (n, if let Entry::File(b) = e { content(n, b) } else { h64(&format!("{e:?}")) })).collect();
                    let did: Vec<_> = ps.iter().map(|p| &p.did).collect();
                    let key = h64(&(contents, did, edits.len()));
                    if !seen.insert(key) {
                        break;
                    }
                    ctx.state(key);
                    let Some(first) = enabled.first().copied() else {
                        let rans: Vec<Ran> = ps.iter_mut().filter_map(|p| p.ran.take()).collect();
                        ctx.note("complete orders", 1);
                        (self.at_end)(self.dir, &files, &rans).map_err(|f| fail(f, &steps))?;
                        break;
                    };
                    for other in &enabled[1..] {
                        let mut p = schedule.clone();
                        p.push(*other);
                        todo.push(p);
                    }
                    ctx.transitions += 1;
                    first
                };
                if !enabled.contains(&next) {
                    return Err(Fail::new("MACHINERY: the same order of operations doesn't lead to the same ones"));
                }
                if next == editor {
                    let (name, text) = edits.next().expect("an edit");
                    let new = self.dir.with_extension("new");
                    std::fs::write(&new, text).and_then(|()| std::fs::rename(&new, self.dir.join(name))).map_err(cmd::io)?;
                    steps.push(format!("edit {name}"));
                } else {
                    ps[next].step(self)?;
                    let (op, name, _) = ps[next].did.last().expect("a step");
                    steps.push(format!("{next}: {op} {name}"));
                }
                schedule.push(next);
            }
        }
        Ok(())
    }
}

/// The order within hash tables is another one each time: only which bytes there are counts in
/// caches.
fn content(name: &OsStr, b: &[u8]) -> u64 {
    if Path::new(name).extension().is_some_and(|x| x == "csvpo") {
        let mut b = b.to_vec();
        b.sort_unstable();
        return h64(&b);
    }
    h64(&b)
}

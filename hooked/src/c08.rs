//! C08: every schedule of the threads that load modules gives the same result.
use crate::rt::{Ctx, Fail, Outcome, Prop, Tier};
use crate::seed;
use crate::util::*;
use csvpp::verif::sched::{self, Ending, Step};
use std::collections::BTreeMap;
use std::path::Path;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};

type Used = Vec<(usize, bool)>;

/// executions that went out of control because they wait for something else than locks and threads
static UNCONTROLLED: AtomicUsize = AtomicUsize::new(0);

fn commute(a: &Used, b: &Used) -> bool {
    !a.iter().any(|x| b.iter().any(|y| x.0 == y.0 && (x.1 || y.1)))
}

/// One decision on the current path
#[derive(Clone, Debug)]
struct Node {
    enabled: Vec<usize>,
    chosen: usize,
    used: Used,
    /// steps which don't have to be tried here: what follows from them is covered elsewhere
    sleep: Vec<(usize, Used)>,
}

#[derive(Default)]
struct Search {
    path: Vec<Node>,
    /// the path of the current execution differs from the one it should have taken
    diverged: bool,
}

impl Search {
    fn sleep_after(&self, depth: usize, steps: &[Step]) -> Vec<(usize, Used)> {
        let Some(before) = depth.checked_sub(1) else { return vec![] };
        let (node, step) = (&self.path[before], &steps[before]);
        node.sleep.iter().filter(|(t, used)| *t != step.chosen && commute(used, &step.used)).cloned().collect()
    }
    fn choose(&mut self, steps: &[Step], enabled: &[usize]) -> Option<usize> {
        let depth = steps.len();
        if let Some(n) = self.path.get(depth) {
            if n.enabled == enabled {
                return Some(n.chosen);
            }
            self.diverged = true;
            self.path.truncate(depth);
        }
        let sleep = self.sleep_after(depth, steps);
        let chosen = enabled.iter().find(|t| !sleep.iter().any(|s| s.0 == **t)).copied()?;
        self.path.push(Node { enabled: enabled.to_vec(), chosen, used: vec![], sleep });
        Some(chosen)
    }
    /// to the next path, false if there is none
    fn next(&mut self, steps: &[Step]) -> bool {
        self.path.truncate(steps.len());
        for (n, s) in self.path.iter_mut().zip(steps) {
            n.used.clone_from(&s.used);
        }
        while let Some(mut n) = self.path.pop() {
            n.sleep.push((n.chosen, std::mem::take(&mut n.used)));
            if let Some(t) = n.enabled.iter().find(|t| !n.sleep.iter().any(|s| s.0 == **t)) {
                n.chosen = *t;
                self.path.push(n);
                return true;
            }
        }
        false
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Mode {
    NoCache,
    Empty,
    Filled,
}

type Files = BTreeMap<String, Vec<u8>>;
fn files(dir: &Path) -> Files {
    std::fs::read_dir(dir).unwrap().flatten().map(|e| (e.file_name().to_string_lossy().into_owned(), std::fs::read(e.path()).unwrap())).collect()
}
fn restore(dir: &Path, want: &Files) {
    for (f, b) in files(dir) {
        if want.get(&f) != Some(&b) {
            std::fs::remove_file(dir.join(f)).unwrap();
        }
    }
    for (f, b) in want {
        if !dir.join(f).exists() {
            std::fs::write(dir.join(f), b).unwrap();
        }
    }
}

fn outcome(dir: &Path, no_cache: bool) -> String {
    match compile_path(&dir.join("m.csvpp"), &[], no_cache, Path::new("out.csv")) {
        Ok(m) => format!("{:?}", sheet(&m)),
        Err(csvpp::Error::ModuleLoadErrors(e)) => {
            let e: BTreeMap<String, String> = e.iter().map(|(p, e)| (p.to_string(), e.to_string())).collect();
            format!("modules fail: {e:?}")
        }
        Err(e) => format!("error: {e}"),
    }
}

/// explore every schedule of one project
fn explore(ctx: &mut Ctx, dir: &Path, mode: Mode, seed: u64) -> Result<String, Fail> {
    let start = match mode {
        Mode::Filled => {
            // leaves cache files behind, those of the main module are not what this is about
            let _ = seed::with(seed, || outcome(dir, false));
            let _ = std::fs::remove_file(dir.join("m.csvpo"));
            files(dir)
        }
        _ => files(dir),
    };
    let no_cache = mode == Mode::NoCache;
    let search = Arc::new(Mutex::new(Search::default()));
    let mut first: Option<(String, Vec<usize>)> = None;
    let mut schedules = 0;
    if UNCONTROLLED.load(Ordering::SeqCst) >= 3 {
        // its synchronisation can't be controlled: all that is left is to see what happens
        let mut first = None;
        for _ in 0..4 {
            restore(dir, &start);
            let now = seed::with(seed, || outcome(dir, no_cache)).map_err(|_| Fail::new("panics"))?;
            match &first {
                None => first = Some(now),
                Some(f) if *f != now => return Err(Fail::new(format!("one schedule gives {f}, another one {now}"))),
                _ => (),
            }
        }
        ctx.note("projects_without_control", 1);
        return Ok(first.unwrap_or_default());
    }
    loop {
        if !no_cache {
            restore(dir, &start);
        }
        let s = search.clone();
        let (result, steps, ending) = seed::with(seed, || sched::run(move |steps, enabled| s.lock().unwrap().choose(steps, enabled), || outcome(dir, no_cache))).map_err(|_| Fail::new("MACHINERY: the scheduler panics"))?;
        schedules += 1;
        ctx.transitions += steps.len() as u64;
        let order: Vec<usize> = steps.iter().map(|s| s.chosen).collect();
        let mut now = None;
        match ending {
            Ending::Deadlock => return Err(Fail::new(format!("deadlock after the schedule {order:?}"))),
            Ending::Stopped => (),
            Ending::Uncontrolled => {
                ctx.note("executions_out_of_control", 1);
                UNCONTROLLED.fetch_add(1, Ordering::SeqCst);
                now = result.ok();
            }
            Ending::Complete => match result {
                Ok(r) => now = Some(r),
                Err(e) => {
                    let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(ToString::to_string)).unwrap_or_default();
                    return Err(Fail::new(format!("panics with {m:?} in the schedule {order:?}")));
                }
            },
        }
        if let Some(mut now) = now {
            ctx.note("schedules", 1);
            if !no_cache {
                // what it left in the cache has to be fine as well
                let again = seed::with(seed, || outcome(dir, false)).unwrap_or_else(|_| "panic".into());
                if again != now {
                    now = format!("{now}, with the cache it left then: {again}");
                }
            }
            match &first {
                None => first = Some((now, order)),
                Some((f, o)) if *f != now => return Err(Fail::new(format!("the schedule {o:?} gives {f}, but {order:?} gives {now}"))),
                _ => (),
            }
        }
        let mut s = search.lock().unwrap();
        if s.diverged {
            s.diverged = false;
            ctx.note("diverged", 1);
        }
        if !s.next(&steps) {
            break;
        }
        if schedules > 200_000 {
            ctx.note("cut_off_projects", 1);
            break;
        }
    }
    ctx.note("executions", schedules);
    first.map(|f| f.0).ok_or_else(|| Fail::new("MACHINERY: no schedule was complete"))
}

const NAMES: [&str; 4] = ["a", "b", "c", "d"];

#[derive(Clone, Copy, PartialEq, Debug)]
enum Health {
    Fine,
    Missing,
    Broken,
    /// fine by itself, but evaluating it fails
    BadCall,
}

fn project(dir: &Path, main: &[usize], imports: &[Vec<usize>], health: &[Health]) {
    clean_dir(dir);
    let uses = |i: &[usize]| i.iter().map(|i| format!("use {}\n", NAMES[*i])).collect::<String>();
    let own: Vec<String> = (0..imports.len()).map(|i| format!("=of_{}", NAMES[i])).collect();
    write(&dir.join("m.csvpp"), &format!("{}---\n=x,=y,{}\n", uses(main), own.join(",")));
    for (i, im) in imports.iter().enumerate() {
        let n = NAMES[i];
        let src = match health[i] {
            Health::Missing => continue,
            Health::Fine => format!("{}x := \"{n}\"\nof_{n} := x & y\n---\n", uses(im)),
            Health::Broken => format!("{}x := := 1\n---\n", uses(im)),
            Health::BadCall => format!("{}fn f(p) p\nx := f(1, 2)\n---\n", uses(im)),
        };
        let src = if i % 2 == 1 && health[i] == Health::Fine { src.replace("---", &format!("y := {i}\n---")) } else { src };
        write(&dir.join(format!("{n}.csvpp")), &src);
    }
}

fn run(ctx: &mut Ctx) {
    let dir = ctx.scratch.join("p");
    std::fs::create_dir_all(&dir).unwrap();
    let go = |ctx: &mut Ctx, main: &[usize], imports: &[Vec<usize>], health: &[Health], modes: &[Mode], seeds: u64| {
        for mode in modes {
            for s in 1..=seeds {
                if !ctx.mine() {
                    ctx.skip(1);
                    continue;
                }
                ctx.case(
                    || format!("main imports {main:?}, the others {imports:?}, which are {health:?}, {mode:?}, seed {s}"),
                    |c| {
                        project(&dir, main, imports, health);
                        let o = explore(c, &dir, *mode, s)?;
                        Ok(Outcome::of(&(o, main, imports.len())))
                    },
                );
            }
        }
    };
    let lists = |n: usize| -> Vec<Vec<usize>> { (0..1usize << n).map(|b| (0..n).filter(|i| b >> i & 1 == 1).collect()).collect() };
    use Health::*;
    use Mode::*;
    // every graph of two modules, in any health
    for imports in (0..16).map(|k| vec![lists(2)[k % 4].clone(), lists(2)[k / 4].clone()]) {
        for main in [vec![0], vec![0, 1], vec![1, 0]] {
            for h in (0..16).map(|k| [[Fine, Missing, Broken, BadCall][k % 4], [Fine, Missing, Broken, BadCall][k / 4]]) {
                go(ctx, &main, &imports, &h, &[NoCache, Empty, Filled], ctx.bound(1, 3));
            }
        }
    }
    // graphs of three
    let sub = lists(3);
    for k in 0..512 {
        let imports: Vec<Vec<usize>> = vec![sub[k % 8].clone(), sub[k / 8 % 8].clone(), sub[k / 64].clone()];
        let edges: usize = imports.iter().map(Vec::len).sum();
        if ctx.quick() && edges > 4 {
            continue;
        }
        for main in [vec![0], vec![0, 1], vec![0, 1, 2], vec![2, 1, 0]] {
            for h in [[Fine, Fine, Fine], [Fine, Fine, Missing], [Broken, Fine, Fine], [Fine, Missing, Broken], [Missing, Missing, Missing]] {
                if ctx.quick() && (h != [Fine; 3] && edges > 2 || edges == 4 && main.len() > 2) {
                    continue;
                }
                go(ctx, &main, &imports, &h, if !ctx.quick() || edges < 2 { &[NoCache, Empty, Filled] } else { &[NoCache] }, 1);
            }
        }
    }
    // some of four
    let four: [[&[usize]; 4]; 7] = [
        [&[], &[], &[], &[]],
        [&[3], &[3], &[3], &[]],
        [&[1], &[2], &[3], &[0]],
        [&[1, 2], &[3], &[3], &[]],
        [&[1, 2, 3], &[], &[], &[]],
        [&[2, 3], &[2, 3], &[], &[]],
        [&[3], &[2], &[1], &[0]],
    ];
    for imports in four {
        let imports: Vec<Vec<usize>> = imports.iter().map(|i| i.to_vec()).collect();
        for main in [vec![0], vec![0, 1], vec![0, 1, 2, 3]] {
            if ctx.quick() && main.len() > 2 {
                continue;
            }
            for h in [[Fine; 4], [Fine, Fine, Missing, Broken]] {
                go(ctx, &main, &imports, &h, &[NoCache], 1);
            }
        }
    }
}

pub fn prop() -> Prop {
    Prop {
        id: "C08",
        level: "model_checking",
        rule: "the real module loader runs under a scheduler that decides at every lock, thread start and join which thread goes on; a depth-first search with sleep sets covers every schedule (up to steps that commute) of every project, and all of them have to give the same result without deadlock or panic; a state is a project's outcome",
        bounds: |t| {
            if t == Tier::Quick {
                "all graphs of 2 modules x 3 import lists of the main module x 16 combinations of fine, missing, broken and failing modules x 3 cache modes; graphs of 3 modules with <= 4 edges x 4 import lists x 5 combinations; 7 graphs of 4; no bound on preemptions".into()
            } else {
                "as quick; 3 hash seeds for the graphs of 2; all 512 graphs of 3 modules x 3 cache modes; 7 graphs of 4 with up to 4 threads".into()
            }
        },
        run,
        hang_s: 300,
        workers: 0,
        assumptions: &["reads and writes of different modules' files commute", "the locks of the standard library behave as specified (the scheduler stands in for them)", "hash seeds are fixed within one search"],
    }
}

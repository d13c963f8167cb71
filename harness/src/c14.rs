//! C14: the command's exit status, messages and files.
use crate::cmd::{self, Entry, Snapshot};
use crate::sys;
use crate::rt::{h64, CaseResult, Ctx, Fail, Outcome, Prop, Tier};
use std::ffi::{OsStr, OsString};
use std::io::Cursor;

/// sources and arguments that can('t) be compiled
struct Input {
    what: &'static str,
    main: Option<&'static [u8]>,
    others: &'static [(&'static str, &'static [u8])],
    args: &'static [&'static str],
    /// what the message has to contain, or none if it compiles
    fails: Option<&'static str>,
}
const fn fine(what: &'static str, main: &'static [u8]) -> Input {
    Input { what, main: Some(main), others: &[], args: &[], fails: None }
}
const fn bad(what: &'static str, main: &'static [u8], message: &'static str) -> Input {
    Input { what, main: Some(main), others: &[], args: &[], fails: Some(message) }
}
const fn arg(what: &'static str, args: &'static [&'static str], message: &'static str) -> Input {
    Input { what, main: Some(b"x := 1\n---\n=x,2\n"), others: &[], args, fails: Some(message) }
}
const fn module(what: &'static str, main: &'static [u8], others: &'static [(&'static str, &'static [u8])], message: Option<&'static str>) -> Input {
    Input { what, main: Some(main), others, args: &[], fails: message }
}

const INPUTS: [Input; 34] = [
    fine("code and cells", b"x := 1\n---\n=x,2\n"),
    fine("only cells", b"a,b\n=1+2,\"x,y\"\n"),
    fine("nothing", b""),
    fine("only code", b"x := 1\n---\n"),
    fine("a filled row", b"![[fill=3]]=1,2\n"),
    module("an import", b"use other\n---\n=x\n", &[("other.csvpp", b"x := 5\n---\n")], None),
    module("imports in a circle", b"use other\n---\n=x\n", &[("other.csvpp", b"use third\nx := 5\n---\n"), ("third.csvpp", b"use other\ny := x\n---\n")], None),
    Input { what: "a key and value", main: Some(b"=x\n"), others: &[], args: &["-k", "x=1"], fails: None },
    bad("code that can't be parsed", b"x := := 1\n---\n=x\n", "m.csvpp"),
    bad("code that ends early", b"fn f(a\n---\n1\n", "m.csvpp"),
    bad("text that can't be lexed", b"x := ~\n---\n1\n", "m.csvpp"),
    bad("a name for nothing", b"x :=\n---\n1\n", "m.csvpp"),
    bad("no statement", b"hello\n---\n1\n", "m.csvpp"),
    bad("a formula that can't be parsed", b"x := 1\n---\n1,=(1\n", "m.csvpp"),
    bad("a formula that ends early", b"=1+\n", "m.csvpp"),
    bad("a cell option that doesn't exist", b"[[foo=1]]x\n", "m.csvpp"),
    bad("a cell option with a bad value", b"[[halign=up]]x\n", "m.csvpp"),
    bad("a row option with a bad value", b"![[fill=many]]x\n", "m.csvpp"),
    bad("a number of rows that is too big", b"![[fill=4000000000]]x\n", "m.csvpp"),
    bad("a formula after text that can't be parsed", b"a,b\nc,\"=SUM(1,\"\n", "m.csvpp"),
    bad("text after a quote", b"a,\"b\"c\n", "m.csvpp"),
    bad("the wrong number of arguments", b"fn f(a) a\n---\n=f(1, 2)\n", "m.csvpp"),
    bad("the wrong number of arguments in the last of many rows", b"fn f(a) a\n---\n1\n2\n3\n4\n=f(1),=f(1, 2)\n", "m.csvpp"),
    bad("a source that isn't UTF-8", b"a,\xff\n", "m.csvpp"),
    Input { what: "no source", main: None, others: &[], args: &[], fails: Some("m.csvpp") },
    Input { what: "a directory as the source", main: None, others: &[("m.csvpp/x", b"1")], args: &[], fails: Some("m.csvpp") },
    module("an import that isn't there", b"use nope\n---\n=x\n", &[], Some("nope")),
    module("an import that can't be parsed", b"use other\n---\n=x\n", &[("other.csvpp", b"x := := 5\n---\n")], Some("other")),
    module("an import that can't be evaluated", b"use other\n---\n=x\n", &[("other.csvpp", b"fn f(a) a\nx := f(1, 2)\n---\n")], Some("other")),
    module("an import that imports what isn't there", b"use other\n---\n=x\n", &[("other.csvpp", b"use nope\n---\n")], Some("nope")),
    arg("a key without a value", &["-k", "justkey"], "justkey"),
    arg("a value that can't be parsed", &["-k", "x=(1"], "x"),
    arg("a key that isn't a name", &["-k", "1x=1"], "1x"),
    arg("too much verbosity", &["-vvvvv"], "verbos"),
];

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Csv,
    Xlsx,
    /// refused, whatever is compiled
    No,
}

/// output options, and what they are
const OUTPUTS: [(&[&[u8]], Kind); 36] = [
    (&[b"-o", b"out.csv"], Kind::Csv),
    (&[b"-o", b"out.xlsx"], Kind::Xlsx),
    (&[b"-o", b"out.CSV"], Kind::Csv),
    (&[b"--output-filename", b"sub/out.csv"], Kind::Csv),
    (&[b"-o", b"out.XLSX"], Kind::Xlsx),
    (&[b"-o", b"out.tar.Csv"], Kind::Csv),
    (&[b"-o", b"out.csv.xlsx"], Kind::Xlsx),
    (&[b"-o", b"out.xlsx.csv"], Kind::Csv),
    (&[b"-o", b"xlsx.csv"], Kind::Csv),
    (&[b"-o", b"ou\xc3\xa4\xff.csv"], Kind::Csv),
    (&[b"-o", b"a b.xlsx"], Kind::Xlsx),
    (&[b"-o", b"out.xlsm"], Kind::Xlsx),
    (&[b"-o", b"out.XlsM"], Kind::Xlsx),
    (&[b"-o", b"out.xltx"], Kind::Xlsx),
    (&[b"-o", b"out.XLTX"], Kind::Xlsx),
    (&[b"-o", b"out.xltm"], Kind::Xlsx),
    (&[b"-o", b"out.Xltm"], Kind::Xlsx),
    (&[b"-o", b"out.ods"], Kind::No),
    (&[b"-o", b"out.ODS"], Kind::No),
    (&[b"-o", b"out.txt"], Kind::No),
    (&[b"-o", b"out.tsv"], Kind::No),
    (&[b"-o", b"out.xls"], Kind::No),
    (&[b"-o", b"out.csvx"], Kind::No),
    (&[b"-o", b"out.csvpp"], Kind::No),
    (&[b"-o", b"out.csv.bak"], Kind::No),
    (&[b"-o", b"out.\xff"], Kind::No),
    (&[b"-o", b"out"], Kind::No),
    (&[b"-o", b"out."], Kind::No),
    (&[b"-o", b"csv"], Kind::No),
    (&[b"-o", b".csv"], Kind::No),
    (&[b"-o", b""], Kind::No),
    (&[b"-o", b"missing/out.csv"], Kind::No),
    (&[], Kind::No),
    (&[b"-g", b"abc", b"-o", b"out.csv"], Kind::No),
    (&[b"-g", b"a/b"], Kind::No),
    (&[b"-o", b"out.csv", b"-o", b"out.xlsx"], Kind::No),
];

fn workbook() -> Vec<u8> {
    let mut book = umya_spreadsheet::new_file();
    book.get_sheet_mut(&0).expect("a sheet").get_cell_mut("A1").set_value("old");
    let mut w = Cursor::new(vec![]);
    umya_spreadsheet::writer::xlsx::write_writer(&book, &mut w).expect("a workbook");
    w.into_inner()
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Existing {
    Nothing,
    Good,
    /// not what the extension says
    Unreadable,
    Directory,
}

fn one(ctx: &mut Ctx, input: &Input, output: usize, existing: Existing, flags: &[&str], book: &[u8]) -> CaseResult {
    let dir = ctx.scratch.join("t");
    let (out_args, kind) = OUTPUTS[output];
    let mut before = Snapshot::new();
    if let Some(m) = input.main {
        before.insert("m.csvpp".into(), Entry::File(m.to_vec()));
    }
    for (n, c) in input.others {
        if let Some((d, _)) = n.split_once('/') {
            before.insert(d.into(), Entry::Dir);
        }
        before.insert(n.into(), Entry::File(c.to_vec()));
    }
    before.insert("sub".into(), Entry::Dir);
    before.insert("stranger.csv".into(), Entry::File(b"not,yours\n".to_vec()));
    before.insert("out-2001_01_01.csv".into(), Entry::File(b"an,old,backup\n".to_vec()));
    let out_name: Option<OsString> = out_args.last().filter(|n| !n.is_empty() && out_args[0] != b"-g"  && !n.starts_with(b"missing")).map(|n| cmd::bytes(n));
    if let Some(n) = &out_name {
        let e = match (existing, kind) {
            (Existing::Nothing, _) => None,
            (Existing::Good, Kind::Xlsx) => Some(Entry::File(book.to_vec())),
            (Existing::Good, _) => Some(Entry::File(b"old,cells\nmore\n".to_vec())),
            (Existing::Unreadable, Kind::Xlsx) => Some(Entry::File(b"no workbook".to_vec())),
            (Existing::Unreadable, _) => Some(Entry::File(b"old,\xff\n".to_vec())),
            (Existing::Directory, _) => Some(Entry::Dir),
        };
        if let Some(e) = e {
            before.insert(n.clone(), e);
        }
    }
    cmd::restore(&dir, &before);
    let args: Vec<OsString> = out_args.iter().map(|a| cmd::bytes(a)).chain(flags.iter().chain(input.args).map(OsString::from)).chain(["--".into(), "m.csvpp".into()]).collect();
    let ran = cmd::run(&dir, &args, None)?;
    ran.check()?;
    ctx.transitions += 1;
    let mut after = cmd::snapshot(&dir);
    let show = || format!("exit status {:?}, standard error {:?}", ran.status, ran.stderr);

    let backup = flags.contains(&"-b");
    let writable = kind != Kind::No && !matches!(existing, Existing::Unreadable | Existing::Directory);
    if !ran.stdout.is_empty() {
        return Err(Fail::new(format!("prints to standard output: {:?}", ran.stdout)));
    }
    if ran.ok() {
        if input.fails.is_some() {
            return Err(Fail::new(format!("succeeds, in spite of {}", input.what)));
        }
        if !writable {
            return Err(Fail::new(format!("succeeds to write to {out_args:?} ({existing:?})")));
        }
        let name = out_name.as_deref().unwrap_or_default();
        match (after.get(name), kind) {
            (Some(Entry::File(b)), Kind::Csv) if !b.starts_with(b"PK") && std::str::from_utf8(b).is_ok() => (),
            (Some(Entry::File(b)), Kind::Xlsx) if b.starts_with(b"PK\x03\x04") => (),
            (e, _) => return Err(Fail::new(format!("succeeds but {name:?} is {e:?}"))),
        }
        // that it's changed and backed up is fine, everything else isn't
        let backups = if backup && existing == Existing::Good { 1 } else { 0 };
        let old = before.get(name).cloned();
        let new: Vec<OsString> = after.keys().filter(|n| !before.contains_key(*n) && n.as_os_str() != name).cloned().collect();
        if new.len() != backups || new.iter().any(|n| after.get(n) != old.as_ref()) {
            return Err(Fail::new(format!("{new:?} was created")));
        }
        for n in new {
            after.remove(&n);
        }
        before.remove(name);
        after.remove(name);
        if after != before {
            return Err(Fail::new(format!("succeeds but {}", cmd::difference(&before, &after))));
        }
        return Ok(Outcome::of(&(input.what, out_args, "succeeds")));
    }

    // with what can't be backed up it may fail
    let no_backup = backup && existing != Existing::Good || out_name.as_deref().is_some_and(|n| backup && std::str::from_utf8(cmd::raw(n)).is_err());
    match input.fails {
        None if writable && !no_backup => return Err(Fail::new(format!("fails: {}", show()))),
        None => {
            // what can't be written may have been backed up before that was noticed
            // (what has an unsupported extension is refused before)
            let refused = kind == Kind::No && !out_name.as_deref().is_some_and(|n| cmd::raw(n).to_ascii_lowercase().ends_with(b".ods"));
            if let (true, false, Some(n)) = (backup, refused, &out_name) {
                let old = before.get(n).cloned();
                let new: Vec<OsString> = after.keys().filter(|n| !before.contains_key(*n)).cloned().collect();
                if new.len() == 1 && after.get(&new[0]) == old.as_ref() {
                    after.remove(&new[0]);
                }
            }
        }
        // (arguments that can't be used might be refused because of each other)
        Some(m) if kind == Kind::No || ran.stderr.contains(m) => (),
        Some(m) => return Err(Fail::new(format!("the message doesn't mention {m:?}: {}", show()))),
    }
    if after != before {
        return Err(Fail::new(format!("{} but {}", show(), cmd::difference(&before, &after))));
    }
    Ok(Outcome::of(&(input.what, out_args, ran.stderr.lines().next().unwrap_or("").len())))
}

/// what is in the workbook, or none if it isn't one
fn cells(b: &[u8]) -> Option<Vec<String>> {
    let book = umya_spreadsheet::reader::xlsx::read_reader(Cursor::new(b), true).ok()?;
    let mut all = vec![];
    for s in book.get_sheet_collection() {
        let mut cells: Vec<String> = s.get_cell_collection().iter().map(|c| format!("{}!{} {:?} {:?}", s.get_name(), c.get_coordinate().get_coordinate(), c.get_value(), c.get_formula())).collect();
        cells.sort();
        all.extend(cells);
    }
    Some(all)
}

/// Every operation on a file fails, ends the command or does only a part: whenever it exits with 0
/// everything is written.
fn broken_off(ctx: &mut Ctx, book: &[u8]) {
    let quick = ctx.quick();
    for xlsx in [false, true] {
        for existing in [false, true] {
            for flags in [&[][..], &["-s"], &["--no-cache"], &["-s", "--no-cache"]] {
                if quick && xlsx && flags.len() != 1 {
                    continue;
                }
                let output = if xlsx { "out.xlsx" } else { "out.csv" };
                let mut before = Snapshot::from([
                    ("m.csvpp".into(), Entry::File(b"use other\nx := 1\n---\n=x,2\n,,text\n".to_vec())),
                    ("other.csvpp".into(), Entry::File(b"y := 1\n---\n".to_vec())),
                    ("stranger.csv".into(), Entry::File(b"not,yours\n".to_vec())),
                ]);
                if existing {
                    before.insert(output.into(), Entry::File(if xlsx { book.to_vec() } else { b"old,,cells\nmore\n\n,last\n".to_vec() }));
                }
                let old = before.get(OsStr::new(output)).cloned();
                let mut args = vec!["-o", output];
                args.extend(flags);
                args.push("m.csvpp");
                let mut want = None;
                sys::Broken {
                    what: format!("{output} with {flags:?}, existing: {existing}"),
                    before: &before,
                    args: &args,
                    clock: None,
                    // (workbooks are read in many steps)
                    of: &|f| !(xlsx && f.name == output && f.op == "get" && (quick || f.k % 10 != 0)),
                    len: usize::MAX,
                    every_byte: !xlsx && !quick,
                }
                .explore(ctx, &mut |c, dir, f, ran| {
                    let after = cmd::snapshot(dir);
                    for (n, e) in &before {
                        if n != output && after.get(n) != Some(e) {
                            return Err(Fail::new(cmd::difference(&before, &after)));
                        }
                    }
                    let what = |e: Option<&Entry>| match e {
                        Some(Entry::File(b)) if xlsx => cells(b).map(|c| c.join("\n")),
                        Some(Entry::File(b)) => Some(String::from_utf8_lossy(b).into_owned()),
                        _ => None,
                    };
                    let now = after.get(OsStr::new(output));
                    if ran.status.is_some_and(|s| s != 0) {
                        if ran.stderr.trim().is_empty() {
                            return Err(Fail::new("it fails without a message"));
                        }
                        // what couldn't be read wasn't written
                        let reads = ["read", "get", "look"].contains(&f.op.as_str());
                        if (reads || f.name != output) && now != old.as_ref() {
                            return Err(Fail::new(format!("it fails but {}", cmd::difference(&before, &after))));
                        }
                    }
                    if ran.ok() {
                        if want.is_none() {
                            let d = c.scratch.join("w");
                            cmd::restore(&d, &before);
                            let ran = cmd::run(&d, &args, None)?;
                            ran.check()?;
                            want = what(cmd::snapshot(&d).get(OsStr::new(output)));
                        }
                        let got = what(now);
                        if got != want {
                            return Err(Fail::new(format!("it succeeds but writes {got:?} instead of {want:?}")));
                        }
                    }
                    Ok(h64(&(ran.ok(), now == old.as_ref())))
                });
            }
        }
    }
}

fn run(ctx: &mut Ctx) {
    let book = workbook();
    broken_off(ctx, &book);
    let all_flags: Vec<Vec<&str>> = (0..16).map(|b| ["-b", "-s", "--no-cache", "-vv"].into_iter().enumerate().filter(|(i, _)| b >> i & 1 == 1).map(|f| f.1).collect()).collect();
    let mut flag_sets = all_flags.clone();
    flag_sets.extend([vec!["-x", "2", "-y", "1"], vec!["-n", "Tab"], vec!["-b", "-y", "3", "-n", "m"]]);
    for (i, input) in INPUTS.iter().enumerate() {
        for o in 0..OUTPUTS.len() {
            for existing in [Existing::Nothing, Existing::Good, Existing::Unreadable, Existing::Directory] {
                for (f, flags) in flag_sets.iter().enumerate() {
                    // quick: all flags with the usual outputs, few with the others
                    let usual = o < 2 && matches!(existing, Existing::Nothing | Existing::Good);
                    if ctx.quick() && !(usual || matches!(f, 0 | 1) && (i < 1 || o < 4 || i % 7 == 2 && existing != Existing::Directory)) {
                        continue;
                    }
                    if existing != Existing::Nothing && (OUTPUTS[o].0.is_empty() || OUTPUTS[o].0[0] == b"-g") {
                        continue;
                    }
                    if !ctx.mine() {
                        ctx.skip(1);
                        continue;
                    }
                    ctx.case(
                        || format!("{} ({:?}), {:?}, {existing:?}, {flags:?}", input.what, input.main.map(String::from_utf8_lossy), OUTPUTS[o].0.iter().map(|a| String::from_utf8_lossy(a)).collect::<Vec<_>>()),
                        |c| one(c, input, o, existing, flags, &book),
                    );
                }
            }
        }
    }
    // twice the same: the second time finds what the first left behind
    for input in &INPUTS {
        for o in [0, 1] {
            if !ctx.mine() {
                ctx.skip(1);
                continue;
            }
            ctx.case(
                || format!("{}, {:?}, three times", input.what, OUTPUTS[o].0[1]),
                |c| {
                    let mut seen = vec![];
                    let dir = c.scratch.join("t");
                    one(c, input, o, Existing::Good, &[], &book)?;
                    seen.push(cmd::snapshot(&dir));
                    for _ in 0..2 {
                        let args: Vec<&OsStr> = OUTPUTS[o].0.iter().map(|a| OsStr::new(std::str::from_utf8(a).expect("text"))).chain(input.args.iter().map(OsStr::new)).chain([OsStr::new("--"), OsStr::new("m.csvpp")]).collect();
                        let ran = cmd::run(&dir, &args, None)?;
                        ran.check()?;
                        if ran.ok() != input.fails.is_none() {
                            return Err(Fail::new(format!("the next time it ends with {:?}: {}", ran.status, ran.stderr)));
                        }
                        seen.push(cmd::snapshot(&dir));
                    }
                    // the workbook's bytes may differ
                    if o == 0 && seen.iter().any(|s| *s != seen[0]) {
                        return Err(Fail::new(format!("the next time {}", cmd::difference(&seen[0], &seen[2]))));
                    }
                    Ok(Outcome::of(&(input.what, o)))
                },
            );
        }
    }
}

pub fn prop() -> Prop {
    Prop {
        id: "C14",
        level: "model_checking",
        rule: "the real command runs in a scratch directory for every combination of input, output options, what exists in the output's place and flags; its exit status, standard error and every file are compared with what the combination demands; each of its operations on files fails, ends it or does only a part, and when it still exits with 0 the output has to be what it is undisturbed; a state is an input with an output and its ending",
        bounds: |t| {
            if t == Tier::Quick {
                "34 inputs (26 that fail) x 2 outputs x 2 states of the output x 19 sets of flags; and with 2 sets of flags 36 combinations of output options (9 refused extensions, missing directory, none, contradictory) x 4 states of the output; every input 3 times in a row; every operation on a file x 3 errors, killed, a part only, for csv and xlsx, existing or not".into()
            } else {
                "all of 34 inputs x 36 combinations of output options x 4 states of the output x 19 sets of flags; every operation on a file x 3 errors, killed after every number of bytes, a part only".into()
            }
        },
        run,
        hang_s: 200,
        workers: 0,
        assumptions: &["cached object files (.csvpo) beside the sources are not part of the output", "Google Sheets as the output needs the network and isn't run"],
    }
}

//! C17: backups.
use crate::cmd::{self, Clock, Entry, Snapshot};
use crate::sys;
use crate::rt::{h64, CaseResult, Ctx, Fail, Outcome, Prop, Tier};
use std::collections::BTreeMap;
use std::ffi::{OsStr, OsString};
use std::io::Cursor;
use std::path::Path;

/// 2023-04-25 11:59:58 UTC
const NOON: i64 = 1_682_423_998;

fn workbook(text: &str) -> Vec<u8> {
    let mut book = umya_spreadsheet::new_file();
    book.get_sheet_mut(&0).expect("a sheet").get_cell_mut("B3").set_value(text);
    let mut w = Cursor::new(vec![]);
    umya_spreadsheet::writer::xlsx::write_writer(&book, &mut w).expect("a workbook");
    w.into_inner()
}

/// Does what it did keep to the rules?  Gives the name of the backup.
fn obeys(before: &Snapshot, after: &Snapshot, output: &OsStr, backup: bool, ok: bool, what: &dyn Fn() -> String) -> Result<Option<OsString>, Fail> {
    let fail = |m: String| Err(Fail::new(format!("{}: {m}", what())));
    for (n, e) in before {
        let changed = after.get(n) != Some(e);
        if changed && (n.as_os_str() != output || !ok) {
            return fail(cmd::difference(before, after));
        }
    }
    let new: Vec<&OsString> = after.keys().filter(|n| !before.contains_key(*n)).collect();
    let (outputs, backups): (Vec<&OsString>, Vec<&OsString>) = new.iter().partition(|n| n.as_os_str() == output);
    if !ok && !outputs.is_empty() {
        return fail(format!("it fails but creates {outputs:?}"));
    }
    let old = before.get(output);
    match (backup, old, backups.as_slice()) {
        (true, Some(old @ Entry::File(_)), [b]) => {
            if after.get(*b) != Some(old) {
                return fail(format!("the backup {b:?} is {:?}, but the output was {old:?}", after[*b]));
            }
            Ok(Some((*b).clone()))
        }
        (true, Some(Entry::File(_)), []) if ok => fail("there is no backup".into()),
        (_, _, []) => Ok(None),
        (_, _, b) => fail(format!("it creates {b:?}")),
    }
}

struct Setting<'a> {
    dir: &'a Path,
    /// the output, relative to the directory
    output: &'a OsStr,
    args: &'a [&'a str],
}

fn compile(s: &Setting, backup: bool, clock: i64, before: &Snapshot) -> Result<(Snapshot, bool, Option<OsString>), Fail> {
    let mut out = OsString::from("--output-filename=");
    out.push(s.output);
    let mut args: Vec<OsString> = vec![out];
    if backup {
        args.push("-b".into());
    }
    args.extend(s.args.iter().map(OsString::from));
    args.extend(["--".into(), "m.csvpp".into()]);
    let ran = cmd::run(s.dir, &args, Some(Clock(clock)))?;
    ran.check()?;
    let after = cmd::snapshot(s.dir);
    let name = Path::new(s.output).strip_prefix(s.dir).unwrap_or(Path::new(s.output));
    let name = name.strip_prefix(".").unwrap_or(name);
    let show = || format!("{args:?} at {clock} ends with {:?} {:?}", ran.status, ran.stderr);
    let made = obeys(before, &after, name.as_os_str(), backup, ran.ok(), &show)?;
    Ok((after, ran.ok(), made))
}

/// All names that backups get within one moment, until there are no more
fn names(s: &Setting, start: &Snapshot, output: &Entry, name: &OsStr) -> Result<Vec<OsString>, Fail> {
    let mut names = vec![];
    let mut now = start.clone();
    for _ in 0..8 {
        now.insert(name.into(), output.clone());
        cmd::restore(s.dir, &now);
        let (after, _, made) = compile(s, true, NOON, &now)?;
        let Some(made) = made else { break };
        names.push(made);
        now = after;
    }
    Ok(names)
}

#[derive(Clone, Copy, PartialEq, Debug, Hash)]
enum Taken {
    Free,
    File,
    Dir,
    /// to a file that exists
    Link,
    /// to nothing
    Dangling,
}

fn taken_names(ctx: &mut Ctx) {
    let shapes: [(&[u8], bool); 16] = [
        (b"out.csv", false),
        (b"out.xlsx", true),
        (b"a.b.csv", false),
        (b"my file.csv", false),
        ("\u{e4}\u{1F600}.csv".as_bytes(), false),
        (b".hidden.csv", false),
        (b"sub/out.csv", false),
        (b"sub.d/a.b.xlsx", true),
        (b"./out.csv", false),
        (b"out.CSV", false),
        (b"out-2023_04_25.csv", false),
        (b"%Y.csv", false),
        (b"out.tar.gz.csv", false),
        (b"..csv", false),
        (b"out..csv", false),
        (b"- .csv", false),
    ];
    let kinds: &[Taken] = if ctx.quick() { &[Taken::Free, Taken::File] } else { &[Taken::Free, Taken::File, Taken::Dir, Taken::Link, Taken::Dangling] };
    for (shape, xlsx) in shapes {
        let output = cmd::bytes(shape);
        let name = cmd::bytes(shape.strip_prefix(b"./").unwrap_or(shape));
        let mut pictures = vec![];
        let usual = shape.len() == 7 || shape.len() == 8 && xlsx;
        crate::util::words_n(kinds, 4, &mut |w| pictures.push(w.to_vec()));
        if !usual {
            pictures.retain(|p| p.iter().filter(|t| **t != Taken::Free).count() <= 2 || p.iter().all(|t| *t == p[0]));
        } else if ctx.quick() {
            for odd in [Taken::Dir, Taken::Link, Taken::Dangling] {
                for at in 0..4 {
                    let mut p = vec![Taken::File; at];
                    p.push(odd);
                    p.resize(4, Taken::Free);
                    pictures.push(p);
                }
                pictures.push(vec![odd; 4]);
            }
        }
        for picture in pictures {
            if !ctx.mine() {
                ctx.skip(1);
                continue;
            }
            ctx.case(
                || format!("backup of {:?}, whose first names for a backup are taken: {picture:?}", String::from_utf8_lossy(shape)),
                |c| -> CaseResult {
                    let dir = c.scratch.join("t");
                    let s = Setting { dir: &dir, output: &output, args: &[] };
                    let old = if xlsx { Entry::File(workbook("precious")) } else { Entry::File(b"precious,\"x\"\r\n\n,,\n".to_vec()) };
                    let mut start = Snapshot::new();
                    if let Some(p) = Path::new(&name).parent().filter(|p| !p.as_os_str().is_empty()) {
                        start.insert(p.into(), Entry::Dir);
                    }
                    start.insert("m.csvpp".into(), Entry::File(b"new,=1+2\n".to_vec()));
                    start.insert("victim".into(), Entry::File(b"victim".to_vec()));
                    let names = names(&s, &start, &old, &name)?;
                    c.transitions += names.len() as u64 + 1;
                    if names.is_empty() {
                        return Err(Fail::new("there is never a backup"));
                    }
                    c.state(names.len() as u64);
                    let mut before = start.clone();
                    before.insert(name.clone(), old);
                    let mut free = 0;
                    for (n, t) in names.iter().zip(&picture) {
                        let depth = Path::new(n).components().count() - 1;
                        let up = "../".repeat(depth);
                        match t {
                            Taken::Free => free += 1,
                            Taken::File => drop(before.insert(n.clone(), Entry::File(b"an older backup".to_vec()))),
                            Taken::Dir => drop(before.insert(n.clone(), Entry::Dir)),
                            Taken::Link => drop(before.insert(n.clone(), Entry::Link(format!("{up}victim").into()))),
                            Taken::Dangling => drop(before.insert(n.clone(), Entry::Link(format!("{up}nowhere").into()))),
                        }
                    }
                    cmd::restore(&dir, &before);
                    let (_, ok, made) = compile(&s, true, NOON, &before)?;
                    if free > 0 && !picture.contains(&Taken::Dangling) && !ok {
                        return Err(Fail::new(format!("{free} names for a backup are free, but it fails")));
                    }
                    Ok(Outcome::of(&(shape, &picture, made.is_some())))
                },
            );
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug, Hash)]
enum Op {
    /// with a backup, some seconds later
    Backup(i64),
    /// without one
    Plain,
    /// with a backup, but the source is broken
    Broken,
    /// with a backup, but it can't be written
    Unreadable,
    /// the user changes the output
    Edit,
    Delete,
}

fn histories(ctx: &mut Ctx) {
    let dir = ctx.scratch.join("h");
    let ops = [Op::Backup(0), Op::Backup(1), Op::Backup(60), Op::Backup(43_200), Op::Backup(86_400), Op::Plain, Op::Broken, Op::Unreadable, Op::Edit, Op::Delete];
    let most = ctx.bound(3, 4) as usize;
    let mut all = vec![];
    for xlsx in [false, true] {
        for n in 1..=most {
            crate::util::words_n(&ops, n, &mut |w| {
                // what is backed up last is what's of interest
                if matches!(w[w.len() - 1], Op::Backup(_) | Op::Broken | Op::Unreadable) && !(xlsx && n == 4) {
                    all.push((xlsx, w.to_vec()));
                }
            });
        }
        // more backups in the same second than names
        all.push((xlsx, vec![Op::Backup(0); 7]));
        all.push((xlsx, vec![Op::Backup(0), Op::Backup(0), Op::Edit, Op::Backup(0), Op::Backup(60), Op::Backup(0), Op::Backup(0)]));
    }
    for (xlsx, history) in all {
        if !ctx.mine() {
            ctx.skip(1);
            continue;
        }
        ctx.case(
            || format!("{}: {history:?}", if xlsx { "out.xlsx" } else { "out.csv" }),
            |c| -> CaseResult {
                let output: OsString = if xlsx { "out.xlsx" } else { "out.csv" }.into();
                let s = Setting { dir: &dir, output: &output, args: &["--no-cache"] };
                let content = |i: usize| if xlsx { workbook(&format!("by hand {i}")) } else { format!("by,hand,{i}\n").into_bytes() };
                let mut now = Snapshot::from([("m.csvpp".into(), Entry::File(b"first\n".to_vec())), (output.clone(), Entry::File(content(0)))]);
                let mut clock = NOON;
                let mut made: BTreeMap<OsString, Entry> = BTreeMap::new();
                for (i, op) in history.iter().enumerate() {
                    c.transitions += 1;
                    // every compile is of something else
                    let source = if *op == Op::Broken { b"=(1\n".to_vec() } else { format!("compiled,{i}\n").into_bytes() };
                    now.insert("m.csvpp".into(), Entry::File(source));
                    match op {
                        Op::Edit => drop(now.insert(output.clone(), Entry::File(content(i + 1)))),
                        Op::Delete => drop(now.remove(&output)),
                        Op::Unreadable => drop(now.insert(output.clone(), Entry::File(b"\xff\xfe,not readable\n".to_vec()))),
                        _ => (),
                    }
                    cmd::restore(&dir, &now);
                    if matches!(op, Op::Edit | Op::Delete) {
                        continue;
                    }
                    if let Op::Backup(later) = op {
                        clock += later;
                    }
                    let had_output = now.contains_key(&output);
                    let (after, ok, new) = compile(&s, *op != Op::Plain, clock, &now)?;
                    let want_ok = match op {
                        Op::Broken | Op::Unreadable => Some(false),
                        // if it doesn't exist there is nothing to back up
                        Op::Backup(_) if !had_output => None,
                        // or there are no more names
                        Op::Backup(_) if made.len() > 3 => None,
                        _ => Some(!matches!(now.get(&output), Some(Entry::File(b)) if b.starts_with(b"\xff"))),
                    };
                    if want_ok.is_some_and(|w| w != ok) {
                        return Err(Fail::new(format!("step {i}, {op:?}, {}", if ok { "succeeds" } else { "fails" })));
                    }
                    if let Some(new) = new {
                        made.insert(new.clone(), after[&new].clone());
                    }
                    // (all the others are looked after by every step)
                    if made.iter().any(|(n, e)| after.get(n) != Some(e)) {
                        return Err(Fail::new(format!("after step {i} the backups are no longer {made:?}")));
                    }
                    now = after;
                }
                Ok(Outcome::of(&(made.len(), &history, xlsx)))
            },
        );
    }
}

/// outputs for which there can't be a backup
fn impossible(ctx: &mut Ctx) {
    let long = format!("{}.csv", "n".repeat(251));
    let longer = format!("sub/{}.xlsx", "n".repeat(245));
    for name in [long.as_bytes(), longer.as_bytes(), b"dir.csv", b"\xff.csv", b"missing/out.csv"] {
        for exists in [true, false] {
            for flags in [&[][..], &["-s"], &["-vvvv"], &["-x", "1"]] {
                if !ctx.mine() {
                    ctx.skip(1);
                    continue;
                }
                ctx.case(
                    || format!("backup of {:?}, exists: {exists}, {flags:?}", String::from_utf8_lossy(name)),
                    |c| -> CaseResult {
                        let dir = c.scratch.join("t");
                        let output = cmd::bytes(name);
                        let mut before = Snapshot::from([("m.csvpp".into(), Entry::File(b"new\n".to_vec())), ("sub".into(), Entry::Dir)]);
                        if exists && name.starts_with(b"dir") {
                            before.insert(output.clone(), Entry::Dir);
                        } else if exists && !name.starts_with(b"missing") {
                            before.insert(output.clone(), Entry::File(if name.ends_with(b"x") { workbook("old") } else { b"old\n".to_vec() }));
                        }
                        cmd::restore(&dir, &before);
                        let s = Setting { dir: &dir, output: &output, args: flags };
                        let (after, ok, made) = compile(&s, true, NOON, &before)?;
                        c.transitions += 1;
                        if !ok && after != before && made.is_none() {
                            return Err(Fail::new(cmd::difference(&before, &after)));
                        }
                        Ok(Outcome::of(&(name, exists, ok)))
                    },
                );
            }
        }
    }
}

/// Every operation on a file fails, ends the command, or does only a part.
fn broken_off(ctx: &mut Ctx) {
    let quick = ctx.quick();
    for xlsx in [false, true] {
        for taken in 0..3 {
            let output = if xlsx { "out.xlsx" } else { "out.csv" };
            let old = if xlsx { workbook("old") } else { b"old,1\n,,x\n".to_vec() };
            let mut before = Snapshot::from([
                ("m.csvpp".into(), Entry::File(b"new,=1 + 2\n".to_vec())),
                (output.into(), Entry::File(old.clone())),
                ("other.csv".into(), Entry::File(b"other\n".to_vec())),
                (format!("{output}tmp").into(), Entry::File(b"mine\n".to_vec())),
            ]);
            for n in ["out-2023_04_25", "out-2023_04_25-11_59AM"].iter().take(taken) {
                before.insert(format!("{n}.{}", if xlsx { "xlsx" } else { "csv" }).into(), Entry::File(b"earlier\n".to_vec()));
            }
            let args = ["--no-cache", "-b", "-o", output, "m.csvpp"];
            let whole = Entry::File(old.clone());
            sys::Broken {
                what: format!("backup of {output} with {taken} names taken"),
                before: &before,
                args: &args,
                clock: Some(Clock(NOON)),
                // (workbooks are read in many steps)
                of: &|f| !(xlsx && f.name == output && f.op == "get" && (quick || f.k % 10 != 0)),
                len: old.len(),
                every_byte: !xlsx || !quick,
            }
            .explore(ctx, &mut |_, dir, _, ran| {
                let after = cmd::snapshot(dir);
                for (n, e) in &before {
                    if n != output && after.get(n) != Some(e) {
                        return Err(Fail::new(cmd::difference(&before, &after)));
                    }
                }
                let kept = after.get(OsStr::new(output)) == Some(&whole);
                let backed_up = after.iter().any(|(n, e)| !before.contains_key(n) && *e == whole);
                if !(kept || backed_up) {
                    return Err(Fail::new(format!("the output is lost: {}", cmd::difference(&before, &after))));
                }
                if ran.ok() && !backed_up {
                    return Err(Fail::new(format!("it succeeds without a backup: {}", cmd::difference(&before, &after))));
                }
                if ran.status.is_some_and(|s| s != 0) && ran.stderr.trim().is_empty() {
                    return Err(Fail::new("it fails without a message"));
                }
                Ok(h64(&(kept, backed_up, ran.ok())))
            });
        }
    }
}

/// Two backups at the same time, in every order of what they do to files.
fn at_the_same_time(ctx: &mut Ctx) {
    for xlsx in [false, true] {
        for taken in 0..3 {
            for three in [false, true] {
                // (workbooks are read and written in many steps)
                if three && (xlsx || ctx.quick()) {
                    continue;
                }
                if !ctx.mine() {
                    ctx.skip(1);
                    continue;
                }
                let output = if xlsx { "out.xlsx" } else { "out.csv" };
                let old = Entry::File(if xlsx { workbook("old") } else { b"old,1\n,,x\n".to_vec() });
                let mut before = Snapshot::from([
                    ("m.csvpp".into(), Entry::File(b"new,=1 + 2\n".to_vec())),
                    ("n.csvpp".into(), Entry::File(b"newer\n".to_vec())),
                    (output.into(), old.clone()),
                ]);
                for n in ["out-2023_04_25", "out-2023_04_25-11_59AM"].iter().take(taken) {
                    before.insert(format!("{n}.{}", if xlsx { "xlsx" } else { "csv" }).into(), Entry::File(b"earlier\n".to_vec()));
                }
                let mut commands = vec![vec!["--no-cache", "-b", "-o", output, "m.csvpp"], vec!["--no-cache", "-b", "-o", output, "n.csvpp"]];
                if three {
                    commands.push(commands[0].clone());
                }
                ctx.case(
                    || format!("{} backups of {output} at the same time, {taken} names taken", commands.len()),
                    |c| {
                        let dir = c.scratch.join("t");
                        let untouched = |files: &Snapshot| before.iter().all(|(n, e)| n == output || files.get(n) == Some(e));
                        let lost = |files: &Snapshot| files.get(OsStr::new(output)) != Some(&old) && !files.iter().any(|(n, e)| !before.contains_key(n) && *e == old);
                        sys::Together {
                            dir: &dir,
                            start: &before,
                            commands: &commands,
                            edits: &[],
                            clock: Some(Clock(NOON)),
                            constant: &|n| n.ends_with(".csvpp"),
                            always: &mut |files| {
                                if !untouched(files) || lost(files) {
                                    return Err(Fail::new(cmd::difference(&before, files)));
                                }
                                Ok(())
                            },
                            at_end: &mut |_, files, rans| {
                                let made = files.keys().filter(|n| !before.contains_key(*n)).count();
                                let ok = rans.iter().filter(|r| r.ok()).count();
                                for r in rans {
                                    r.check()?;
                                }
                                if made < ok {
                                    return Err(Fail::new(format!("{ok} backups are in {made} files: {}", cmd::difference(&before, files))));
                                }
                                Ok(())
                            },
                        }
                        .explore(c, &cmd::snapshot)?;
                        Ok(Outcome::of(&(xlsx, taken, three)))
                    },
                );
            }
        }
    }
}

/// Old outputs of every size around the sizes of buffers, with any bytes in them
fn sizes(ctx: &mut Ctx) {
    let mut all: Vec<usize> = (0..40).collect();
    for k in [256usize, 1000, 1024, 4096, 8192, 32_768, 65_536, 131_072, 1 << 20, 3_000_000] {
        all.extend([k - 1, k, k + 1]);
    }
    for n in all {
        for kind in 0..4 {
            if !ctx.mine() {
                ctx.skip(1);
                continue;
            }
            ctx.case(
                || format!("backup of {n} bytes of kind {kind}"),
                |c| {
                    let dir = c.scratch.join("s");
                    std::fs::create_dir_all(&dir).unwrap();
                    let old: Vec<u8> = (0..n)
                        .map(|i| match kind {
                            0 => b"a,b\n1,2\r\n"[i % 9],
                            1 => (i % 251) as u8,
                            2 => 0,
                            _ => b"\n"[0],
                        })
                        .collect();
                    let output = OsString::from("out.csv");
                    let before = Snapshot::from([("m.csvpp".into(), Entry::File(b"new,=1 + 2\n".to_vec())), (output.clone(), Entry::File(old))]);
                    cmd::restore(&dir, &before);
                    let s = Setting { dir: &dir, output: &output, args: &["--no-cache"] };
                    let (after, ok, made) = compile(&s, true, NOON, &before)?;
                    c.transitions += 1;
                    // (only what isn't a CSV file at all can't be merged)
                    if made.is_none() || !ok && kind == 0 {
                        return Err(Fail::new(format!("made {made:?}, succeeded {ok}: {}", cmd::difference(&before, &after).chars().take(300).collect::<String>())));
                    }
                    Ok(Outcome::of(&(n, kind, ok)))
                },
            );
        }
    }
}

fn run(ctx: &mut Ctx) {
    sizes(ctx);
    broken_off(ctx);
    at_the_same_time(ctx);
    taken_names(ctx);
    histories(ctx);
    impossible(ctx);
}

pub fn prop() -> Prop {
    Prop {
        id: "C17",
        level: "model_checking",
        rule: "the real command runs with its clock set; every file in its directory is compared before and after each run: nothing but the output may change, the new file is the output as it was; each of its operations on files fails, ends it or does only a part; several run at the same time in every order of their operations; a state is a set of backups and what was done last, or what each command did and found so far",
        bounds: |t| {
            if t == Tier::Quick {
                "16 shapes of names x all subsets of the 4 names a backup can have in one moment (taken by a file; in part by a directory, a link, a dangling link); all histories of <= 3 of 10 operations (backups 0 s, 1 s, 1 min, 12 h, 1 day later, without, failing, edited, deleted) for csv and xlsx, and of 7 backups in one moment; names that are too long or can't be shown; 70 sizes of the old output up to 3 MB x 4 kinds of bytes; every operation of a backup x 3 errors, killed before it and after every number of bytes (csv; 4 for xlsx), a part only, with 0-2 names taken; two backups at the same time with 0-2 names taken, for csv and xlsx".into()
            } else {
                "as quick, with all of 5^4 combinations of what takes the names; histories of <= 4; killed after every number of bytes for xlsx, too; three backups of a csv at the same time".into()
            }
        },
        run,
        hang_s: 200,
        workers: 0,
        assumptions: &["reads that directly follow each other on one file are one step", "the clock's nanoseconds stand still, which is the worst case for the names"],
    }
}

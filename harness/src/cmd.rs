//! Runs the real command.
#![allow(dead_code)]
use crate::rt::Fail;
use std::collections::BTreeMap;
use std::ffi::{OsStr, OsString};
use std::io::Read;
use std::os::fd::RawFd;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

pub struct Ran {
    /// none if it was killed by a signal
    pub status: Option<i32>,
    pub stdout: String,
    pub stderr: String,
}
impl Ran {
    pub fn ok(&self) -> bool {
        self.status == Some(0)
    }
    pub fn check(&self) -> Result<(), Fail> {
        match self.status {
            None => Err(Fail::new(format!("it's killed by a signal: {}", self.stderr))),
            Some(101) => Err(Fail::new(format!("it panics: {}", self.stderr))),
            Some(0) => Ok(()),
            Some(_) if self.stderr.trim().is_empty() => Err(Fail::new("it fails without a message on standard error")),
            Some(_) => Ok(()),
        }
    }
}

fn beside(name: &str) -> PathBuf {
    std::env::current_exe().expect("the executable").parent().expect("its directory").join(name)
}

/// what the clock of the command shows, in seconds
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Clock(pub i64);

/// the command while it runs
pub struct Running {
    child: Child,
    out: std::fs::File,
    err: std::fs::File,
    begin: Instant,
}

/// `env` (see preload/faults.c) and `gate` make it be watched
pub fn start<S: AsRef<OsStr>>(dir: &Path, args: &[S], clock: Option<Clock>, env: &[(&str, String)], gate: Option<RawFd>) -> Result<Running, Fail> {
    let faults: &[&str] = if !env.is_empty() || gate.is_some() { &["libfaults.so"] } else { &[] };
    start_with(dir, args, clock, env, gate, faults)
}

pub fn start_with<S: AsRef<OsStr>>(dir: &Path, args: &[S], clock: Option<Clock>, env: &[(&str, String)], gate: Option<RawFd>, libs: &[&str]) -> Result<Running, Fail> {
    let mut c = Command::new(beside("csvpp"));
    c.args(args).current_dir(dir).env_clear().env("PATH", "/usr/bin:/bin").env("HOME", dir).env("TZ", "UTC");
    let mut preload: Vec<PathBuf> = vec![];
    if let Some(clock) = clock {
        preload.push(beside("libclock.so"));
        c.env("VERIF_CLOCK", clock.0.to_string());
    }
    preload.extend(libs.iter().map(|l| beside(l)));
    c.envs(env.iter().map(|(k, v)| (*k, v)));
    if let Some(fd) = gate {
        c.env("VERIF_GATE", "100");
        unsafe {
            c.pre_exec(move || if libc::dup2(fd, 100) == 100 { Ok(()) } else { Err(std::io::Error::last_os_error()) });
        }
    }
    if !preload.is_empty() {
        c.env("LD_PRELOAD", preload.iter().map(|p| p.display().to_string()).collect::<Vec<_>>().join(":"));
    }
    // to files, so that nothing has to be read while it runs
    let (out, err) = (tempfile("out")?, tempfile("err")?);
    c.stdin(Stdio::null()).stdout(out.try_clone().map_err(io)?).stderr(err.try_clone().map_err(io)?);
    Ok(Running { child: c.spawn().map_err(io)?, out, err, begin: Instant::now() })
}

impl Running {
    pub fn wait(mut self) -> Result<Ran, Fail> {
        let status = loop {
            if let Some(s) = self.child.try_wait().map_err(io)? {
                break s;
            }
            if self.begin.elapsed() > Duration::from_secs(60) {
                self.kill();
                return Err(Fail::new("it doesn't end within 60 s"));
            }
            std::thread::sleep(Duration::from_micros(200));
        };
        let text = |mut f: std::fs::File| -> Result<String, Fail> {
            use std::io::Seek;
            f.rewind().map_err(io)?;
            let mut b = vec![];
            f.read_to_end(&mut b).map_err(io)?;
            Ok(String::from_utf8_lossy(&b).into_owned())
        };
        Ok(Ran { status: status.code(), stdout: text(self.out)?, stderr: text(self.err)? })
    }
    pub fn kill(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

pub fn run<S: AsRef<OsStr>>(dir: &Path, args: &[S], clock: Option<Clock>) -> Result<Ran, Fail> {
    start(dir, args, clock, &[], None)?.wait()
}

pub fn io(e: std::io::Error) -> Fail {
    Fail::new(format!("MACHINERY: {e}"))
}

fn tempfile(name: &str) -> Result<std::fs::File, Fail> {
    use std::os::fd::FromRawFd;
    let c = std::ffi::CString::new(name).expect("a name");
    let fd = unsafe { libc::memfd_create(c.as_ptr(), libc::MFD_CLOEXEC) };
    if fd < 0 {
        return Err(io(std::io::Error::last_os_error()));
    }
    Ok(unsafe { std::fs::File::from_raw_fd(fd) })
}

#[derive(Clone, PartialEq, Eq)]
pub enum Entry {
    File(Vec<u8>),
    Dir,
    Link(PathBuf),
}
impl std::fmt::Debug for Entry {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Entry::File(b) if b.starts_with(b"PK") => write!(f, "zip of {} bytes", b.len()),
            Entry::File(b) => write!(f, "{:?}", String::from_utf8_lossy(&b[..b.len().min(200)])),
            Entry::Dir => write!(f, "directory"),
            Entry::Link(p) => write!(f, "link to {p:?}"),
        }
    }
}

pub type Snapshot = BTreeMap<OsString, Entry>;

/// everything in `dir`, except for cached object files
pub fn snapshot(dir: &Path) -> Snapshot {
    let mut s = snapshot_all(dir);
    s.retain(|n, _| Path::new(n).extension().map_or(true, |x| x != "csvpo"));
    s
}

pub fn snapshot_all(dir: &Path) -> Snapshot {
    fn add(root: &Path, dir: &Path, into: &mut Snapshot) {
        for e in std::fs::read_dir(dir).into_iter().flatten().flatten() {
            let p = e.path();
            let name = p.strip_prefix(root).expect("below").as_os_str().to_os_string();
            let t = e.file_type().expect("a type");
            if t.is_symlink() {
                into.insert(name, Entry::Link(std::fs::read_link(&p).expect("a link")));
            } else if t.is_dir() {
                into.insert(name, Entry::Dir);
                add(root, &p, into);
            } else {
                into.insert(name, Entry::File(std::fs::read(&p).expect("a file")));
            }
        }
    }
    let mut s = Snapshot::new();
    add(dir, dir, &mut s);
    s
}

/// what differs, for messages
pub fn difference(before: &Snapshot, after: &Snapshot) -> String {
    let mut d = vec![];
    for (n, e) in before {
        match after.get(n) {
            None => d.push(format!("{n:?} is gone")),
            Some(a) if a != e => d.push(format!("{n:?} was {e:?} and is {a:?}")),
            _ => (),
        }
    }
    for (n, e) in after {
        if !before.contains_key(n) {
            d.push(format!("{n:?} is new: {e:?}"));
        }
    }
    d.join(", ")
}

pub fn bytes(b: &[u8]) -> OsString {
    OsString::from_vec(b.to_vec())
}
pub fn raw(s: &OsStr) -> &[u8] {
    s.as_bytes()
}

/// put these there, and nothing else
pub fn restore(dir: &Path, want: &Snapshot) {
    crate::util::fresh_dir(dir);
    for (n, e) in want {
        let p = dir.join(n);
        match e {
            Entry::Dir => std::fs::create_dir_all(&p).expect("a directory"),
            Entry::File(b) => {
                std::fs::create_dir_all(p.parent().expect("a directory")).expect("a directory");
                std::fs::write(&p, b).expect("a file");
            }
            Entry::Link(t) => std::os::unix::fs::symlink(t, &p).expect("a link"),
        }
    }
}

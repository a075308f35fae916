//! Running the real `oro` binary against a scratch project, and looking at the
//! filesystem the way a user (or Node) does.
use crate::engine::{fail, infra, Stop};
use crate::registry::Server;
use std::collections::BTreeMap;
use std::io::Read;
use std::os::unix::fs::{MetadataExt, PermissionsExt};
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

/// Waits until nobody has that file open for writing: a process that another
/// thread is just starting has what was open here until it runs its program,
/// and a file that's open for writing can't be run ("Text file busy").
pub fn settle(p: &Path) {
    use std::os::fd::AsRawFd;
    let t = Instant::now();
    while t.elapsed() < Duration::from_secs(5) {
        let Ok(f) = std::fs::File::open(p) else { return };
        // A lease for reading is only given when there are no writers.
        let r = unsafe { libc::fcntl(f.as_raw_fd(), libc::F_SETLEASE, libc::F_RDLCK) };
        if r == 0 {
            unsafe { libc::fcntl(f.as_raw_fd(), libc::F_SETLEASE, libc::F_UNLCK) };
            return;
        }
        if std::io::Error::last_os_error().raw_os_error() != Some(libc::EAGAIN) {
            // There are no leases here.
            std::thread::sleep(Duration::from_millis(50));
            return;
        }
        drop(f);
        std::thread::sleep(Duration::from_millis(1));
    }
}

pub fn oro_bin() -> PathBuf {
    // while developing: try another build
    if let Some(b) = std::env::var_os("VH_ORO") {
        return b.into();
    }
    std::env::current_exe()
        .unwrap()
        .parent()
        .unwrap()
        .join("oro")
}

#[derive(Debug, Clone)]
pub struct Out {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub stdout: String,
    pub stderr: String,
    /// every thread asleep, no child, no open request, no CPU used for a long time
    pub deadlock: bool,
}
impl Out {
    pub fn ok(&self) -> bool {
        self.code == Some(0)
    }
    pub fn panicked(&self) -> bool {
        self.code == Some(101)
            || self.signal.is_some()
            || self.stderr.contains("panicked at")
    }
    pub fn tail(&self) -> String {
        let s = format!("{}\n{}", self.stdout.trim(), self.stderr.trim());
        let n = s.len();
        let mut i = n.saturating_sub(1500);
        while !s.is_char_boundary(i) {
            i += 1;
        }
        format!(
            "exit={:?} sig={:?}{}: {}",
            self.code,
            self.signal,
            if self.deadlock { " DEADLOCK" } else { "" },
            &s[i..]
        )
    }
}

pub struct Proj {
    pub dir: PathBuf,
    pub home: PathBuf,
    pub cache: Option<PathBuf>,
    pub registry: String,
    pub env: Vec<(String, String)>,
    pub common: Vec<String>,
    pub cwd: Option<PathBuf>,
    /// pass --root/--registry/--cache and the quiet flags
    pub std_flags: bool,
}

impl Proj {
    pub fn new(scratch: &Path, registry: &str) -> Proj {
        let dir = scratch.join("proj");
        let home = scratch.join("home");
        std::fs::create_dir_all(&dir).unwrap();
        std::fs::create_dir_all(&home).unwrap();
        let cache = scratch.join("cache");
        Proj {
            dir,
            home,
            cache: Some(cache),
            registry: registry.into(),
            env: vec![],
            common: vec![],
            cwd: None,
            std_flags: true,
        }
    }
    pub fn write_manifest(&self, v: &serde_json::Value) {
        std::fs::write(
            self.dir.join("package.json"),
            serde_json::to_string_pretty(v).unwrap() + "\n",
        )
        .unwrap();
    }
    pub fn read(&self, p: &str) -> Option<String> {
        std::fs::read_to_string(self.dir.join(p)).ok()
    }
    pub fn command(&self, args: &[&str]) -> Command {
        let mut c = Command::new(oro_bin());
        c.env_clear();
        c.env("PATH", "/usr/local/bin:/usr/bin:/bin");
        c.env("HOME", &self.home);
        c.env("XDG_CONFIG_HOME", self.home.join("config"));
        c.env("XDG_CACHE_HOME", self.home.join("xcache"));
        c.env("XDG_DATA_HOME", self.home.join("data"));
        c.env("CI", "true");
        c.env("NO_COLOR", "1");
        c.env("RUST_BACKTRACE", "0");
        c.env("NO_PROXY", "127.0.0.1,localhost");
        // keep the many parallel runs from oversubscribing the machine
        c.env("ASYNC_STD_THREAD_COUNT", "4");
        for (k, v) in &self.env {
            c.env(k, v);
        }
        c.args(args);
        if self.std_flags {
            c.arg("--root").arg(&self.dir);
            c.arg("--registry").arg(&self.registry);
            if let Some(cache) = &self.cache {
                c.arg("--cache").arg(cache);
            }
            c.args(["--no-first-time", "--no-progress", "--no-emoji"]);
        }
        c.args(&self.common);
        limit_memory(&mut c);
        c.current_dir(self.cwd.as_ref().unwrap_or(&self.dir));
        c
    }
    pub fn run(&self, args: &[&str], server: Option<&Server>) -> Result<Out, Stop> {
        run_cmd(self.command(args), server)
    }
    /// Run and require a successful exit; a failure is a violation with `sig`.
    pub fn run_ok(&self, args: &[&str], server: Option<&Server>, sig: &str) -> Result<Out, Stop> {
        let o = self.run(args, server)?;
        if o.deadlock {
            return fail(
                format!("{sig}-deadlock"),
                format!("oro {args:?} never finishes: {}", o.tail()),
            );
        }
        if !o.ok() {
            return fail(sig, format!("oro {args:?} failed: {}", o.tail()));
        }
        Ok(o)
    }
}

/// A runaway process must not take the machine with it.
pub fn limit_memory(c: &mut Command) {
    use std::os::unix::process::CommandExt;
    unsafe {
        c.pre_exec(|| {
            let l = libc::rlimit {
                rlim_cur: 3 << 30,
                rlim_max: 3 << 30,
            };
            libc::setrlimit(libc::RLIMIT_AS, &l);
            Ok(())
        });
    }
}

fn drain(mut r: impl Read + Send + 'static) -> std::thread::JoinHandle<Vec<u8>> {
    std::thread::Builder::new()
        .stack_size(256 << 10)
        .spawn(move || {
            // endless output isn't kept
            let mut v = vec![];
            let _ = r.by_ref().take(16 << 20).read_to_end(&mut v);
            let _ = std::io::copy(&mut r, &mut std::io::sink());
            v
        })
        .unwrap()
}

fn cpu_ticks(pid: u32) -> Option<(u64, bool)> {
    let s = std::fs::read_to_string(format!("/proc/{pid}/stat")).ok()?;
    let rest = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = rest.split(' ').collect();
    let t = f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?;
    // any children?
    let mut kids = false;
    if let Ok(rd) = std::fs::read_dir(format!("/proc/{pid}/task")) {
        for e in rd.flatten() {
            if let Ok(c) = std::fs::read_to_string(e.path().join("children")) {
                if !c.trim().is_empty() {
                    kids = true;
                }
            }
        }
    }
    Some((t, kids))
}

pub const QUIESCENT: Duration = Duration::from_secs(40);

pub fn run_cmd(c: Command, server: Option<&Server>) -> Result<Out, Stop> {
    run_limited(c, server, 60)
}

/// With a limit in seconds of processor time.
pub fn run_limited(mut c: Command, server: Option<&Server>, cpu: u64) -> Result<Out, Stop> {
    c.stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped());
    let mut child = match c.spawn() {
        Ok(c) => c,
        Err(e) => return infra(format!("spawn: {e}")),
    };
    let o = drain(child.stdout.take().unwrap());
    let e = drain(child.stderr.take().unwrap());
    watch(child, o, e, server, cpu)
}

/// Runs with a terminal as the input and for the messages: whatever is asked
/// there gets the answer that belongs to the question. Questions end with one of
/// the prompts; the second part says whether it's a secret one.
pub fn run_on_terminal(
    mut c: Command,
    answers: Vec<(&'static str, bool, Vec<u8>)>,
    server: Option<&Server>,
    cpu: u64,
) -> Result<Out, Stop> {
    use std::os::fd::FromRawFd;
    let (mut m, mut s) = (0, 0);
    let ws = libc::winsize { ws_row: 50, ws_col: 200, ws_xpixel: 0, ws_ypixel: 0 };
    let r = unsafe { libc::openpty(&mut m, &mut s, std::ptr::null_mut(), std::ptr::null(), &ws) };
    if r != 0 {
        return infra("openpty");
    }
    unsafe {
        libc::fcntl(m, libc::F_SETFD, libc::FD_CLOEXEC);
        libc::fcntl(s, libc::F_SETFD, libc::FD_CLOEXEC);
    }
    let (master, slave) = unsafe { (std::fs::File::from_raw_fd(m), std::fs::File::from_raw_fd(s)) };
    c.stdin(slave.try_clone().unwrap())
        .stdout(Stdio::piped())
        .stderr(slave);
    let mut child = match c.spawn() {
        Ok(c) => c,
        Err(e) => return infra(format!("spawn: {e}")),
    };
    drop(c);
    let o = drain(child.stdout.take().unwrap());
    let e = std::thread::spawn(move || {
        use std::io::{Read, Write};
        use std::os::fd::AsRawFd;
        let mut master = master;
        let mut all: Vec<u8> = vec![];
        let mut from = 0;
        let mut left = answers.into_iter().peekable();
        let mut buf = [0u8; 4096];
        // reading fails once nobody has the other end
        while let Ok(n) = master.read(&mut buf) {
            if n == 0 {
                break;
            }
            if all.len() > 16 << 20 {
                continue;
            }
            all.extend_from_slice(&buf[..n]);
            if let Some((prompt, secret, _)) = left.peek() {
                let seen = String::from_utf8_lossy(&all[from..]).contains(prompt);
                if seen {
                    let secret = *secret;
                    // what's typed before the echo is off is thrown away
                    for _ in 0..1000 {
                        let mut t = std::mem::MaybeUninit::<libc::termios>::uninit();
                        if !secret || unsafe { libc::tcgetattr(master.as_raw_fd(), t.as_mut_ptr()) } != 0 {
                            break;
                        }
                        if unsafe { t.assume_init() }.c_lflag & libc::ECHO == 0 {
                            break;
                        }
                        std::thread::sleep(Duration::from_millis(5));
                    }
                    from = all.len();
                    let (_, _, a) = left.next().unwrap();
                    let _ = master.write_all(&a);
                    let _ = master.write_all(b"\n");
                }
            }
        }
        all
    });
    watch(child, o, e, server, cpu)
}

type Drained = std::thread::JoinHandle<Vec<u8>>;

fn watch(mut child: std::process::Child, o: Drained, e: Drained, server: Option<&Server>, cpu: u64) -> Result<Out, Stop> {
    let start = Instant::now();
    let mut last = (u64::MAX, Instant::now());
    let mut deadlock = false;
    let mut nap = Duration::from_millis(1);
    let status = loop {
        match child.try_wait() {
            Ok(Some(s)) => break s,
            Ok(None) => {}
            Err(e) => return infra(format!("wait: {e}")),
        }
        std::thread::sleep(nap);
        if nap < Duration::from_millis(8) {
            nap += Duration::from_micros(500);
        }
        if start.elapsed() > Duration::from_secs(5) {
            nap = Duration::from_millis(200);
            let (t, kids) = cpu_ticks(child.id()).unwrap_or((0, true));
            let busy = kids
                || server
                    .map(|s| s.sh.inflight.load(std::sync::atomic::Ordering::SeqCst) > 0)
                    .unwrap_or(false);
            // idle background threads may use a tick now and then
            if busy || t > last.0.saturating_add(5) || last.0 == u64::MAX {
                last = (t, Instant::now());
            } else if last.1.elapsed() > QUIESCENT {
                deadlock = true;
                let _ = child.kill();
                break child.wait().unwrap();
            }
            // 60 s of processor time on inputs this small: it is not going to
            // finish (the memory of an endless resolution grows without bound).
            if t > cpu * 100 && t < u64::MAX {
                deadlock = true;
                let _ = child.kill();
                break child.wait().unwrap();
            }
            if start.elapsed() > Duration::from_secs(180) {
                let _ = child.kill();
                let _ = child.wait();
                return infra("oro did not finish within 180 s (busy)");
            }
        }
    };
    let stdout = String::from_utf8_lossy(&o.join().unwrap_or_default()).to_string();
    let stderr = String::from_utf8_lossy(&e.join().unwrap_or_default()).to_string();
    Ok(Out {
        code: if deadlock { None } else { status.code() },
        signal: if deadlock { None } else { status.signal() },
        stdout,
        stderr,
        deadlock,
    })
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Ent {
    Dir,
    File(Vec<u8>, u32),
    Link(PathBuf),
}
impl Ent {
    pub fn short(&self) -> String {
        match self {
            Ent::Dir => "dir".into(),
            Ent::File(b, m) => {
                let s = String::from_utf8_lossy(&b[..b.len().min(60)]).to_string();
                format!("file {m:o} {} bytes {:?}", b.len(), s)
            }
            Ent::Link(t) => format!("-> {}", t.display()),
        }
    }
}
pub type Snap = BTreeMap<String, Ent>;

/// Everything below `dir` (not following links).
pub fn snapshot(dir: &Path) -> Snap {
    let mut out = Snap::new();
    fn rec(base: &Path, p: &Path, out: &mut Snap) {
        let Ok(rd) = std::fs::read_dir(p) else { return };
        for e in rd.flatten() {
            let path = e.path();
            let rel = path
                .strip_prefix(base)
                .unwrap()
                .to_string_lossy()
                .to_string();
            let Ok(md) = std::fs::symlink_metadata(&path) else {
                continue;
            };
            if md.file_type().is_symlink() {
                out.insert(rel, Ent::Link(std::fs::read_link(&path).unwrap_or_default()));
            } else if md.is_dir() {
                out.insert(rel, Ent::Dir);
                rec(base, &path, out);
            } else {
                out.insert(
                    rel,
                    Ent::File(
                        std::fs::read(&path).unwrap_or_default(),
                        md.permissions().mode() & 0o7777,
                    ),
                );
            }
        }
    }
    rec(dir, dir, &mut out);
    out
}

pub fn diff_snap(a: &Snap, b: &Snap) -> Vec<String> {
    let mut out = vec![];
    for (k, v) in a {
        match b.get(k) {
            None => out.push(format!("only left: {k} ({})", v.short())),
            Some(w) if w != v => {
                out.push(format!("differs: {k}: {} vs {}", v.short(), w.short()))
            }
            _ => {}
        }
    }
    for (k, v) in b {
        if !a.contains_key(k) {
            out.push(format!("only right: {k} ({})", v.short()));
        }
    }
    out
}

/// Node's lookup: starting at the real location of `from` (a package
/// directory), find `name` in the nearest enclosing node_modules, not looking
/// above `top`.
pub fn node_lookup(from: &Path, name: &str, top: &Path) -> Option<PathBuf> {
    let mut d = from.canonicalize().ok()?;
    loop {
        if d.file_name().map(|f| f != "node_modules").unwrap_or(true) {
            let c = d.join("node_modules").join(name);
            if c.join("package.json").exists() {
                return c.canonicalize().ok();
            }
        }
        if d == top || !d.pop() {
            return None;
        }
    }
}

pub fn read_json(p: &Path) -> Option<serde_json::Value> {
    serde_json::from_str(&std::fs::read_to_string(p).ok()?).ok()
}

pub fn is_exec(p: &Path) -> bool {
    std::fs::metadata(p)
        .map(|m| m.permissions().mode() & 0o111 != 0)
        .unwrap_or(false)
}
pub fn inode(p: &Path) -> Option<(u64, u64)> {
    std::fs::metadata(p).ok().map(|m| (m.dev(), m.ino()))
}

/// Parsed `package-lock.kdl`, read independently of the code under test.
#[derive(Debug, Clone, Default, PartialEq, Eq)]
pub struct LockPkg {
    pub version: Option<String>,
    pub resolved: Option<String>,
    pub integrity: Option<String>,
    pub deps: BTreeMap<String, BTreeMap<String, String>>,
}
#[derive(Debug, Clone, Default, PartialEq, Eq)]
pub struct Lock {
    pub root: LockPkg,
    pub pkgs: BTreeMap<Vec<String>, LockPkg>,
}

pub fn parse_lock(text: &str) -> Result<Lock, String> {
    let doc: kdl::KdlDocument = text.parse().map_err(|e| format!("{e:?}"))?;
    let mut l = Lock::default();
    for n in doc.nodes() {
        let kind = n.name().value();
        if kind != "pkg" && kind != "root" {
            continue;
        }
        let path: Vec<String> = n
            .entries()
            .iter()
            .filter(|e| e.name().is_none())
            .filter_map(|e| e.value().as_string().map(|s| s.to_string()))
            .collect();
        let mut p = LockPkg::default();
        if let Some(ch) = n.children() {
            for c in ch.nodes() {
                let v = c
                    .get(0)
                    .and_then(|e| e.as_string().map(|s| s.to_string()));
                match c.name().value() {
                    "version" => p.version = v,
                    "resolved" => p.resolved = v,
                    "integrity" => p.integrity = v,
                    k if k.ends_with("dependencies") => {
                        let m = p.deps.entry(k.to_string()).or_default();
                        if let Some(cc) = c.children() {
                            for d in cc.nodes() {
                                m.insert(
                                    d.name().value().to_string(),
                                    d.get(0)
                                        .and_then(|e| e.as_string())
                                        .unwrap_or("*")
                                        .to_string(),
                                );
                            }
                        }
                    }
                    _ => {}
                }
            }
        }
        if kind == "root" {
            l.root = p;
        } else if l.pkgs.insert(path.clone(), p).is_some() {
            return Err(format!("duplicate lockfile entry {path:?}"));
        }
    }
    Ok(l)
}

//! Watching, failing and killing `oro` at its file-system calls, with a seccomp
//! user notification filter: every call of the process that changes files stops
//! until the harness has decided about it.
use crate::engine::{infra, Stop};
use crate::proj::{run_cmd, Out};
use crate::registry::Server;
use std::collections::HashMap;
use std::os::fd::{AsRawFd, FromRawFd, OwnedFd};
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::Command;
use std::sync::{Arc, Mutex};

#[derive(Debug, Clone)]
pub struct Ev {
    pub op: &'static str,
    pub path: PathBuf,
    /// of renames and links: the other path
    pub to: Option<PathBuf>,
}
impl Ev {
    /// What kind of a step this is, for choosing points to stop at.
    pub fn class(&self) -> String {
        let p = self.to.as_ref().unwrap_or(&self.path);
        let s = p.display().to_string();
        let f = p.file_name().map(|f| f.to_string_lossy().to_string()).unwrap_or_default();
        let kind = if f.starts_with("package-lock") || f.starts_with(".package-lock") {
            "lockfile"
        } else if f.contains(".orogene-meta") {
            "meta"
        } else if s.contains("/cache/") || s.ends_with("/cache") {
            if s.contains("/index-") {
                "cache index"
            } else if s.contains("/content-") {
                "cache content"
            } else if s.contains("/tmp") {
                "cache tmp"
            } else {
                "cache"
            }
        } else if s.contains("/node_modules/.bin/") || s.ends_with("/.bin") {
            "bin"
        } else if s.contains("/node_modules") {
            if f == "package.json" {
                "package.json"
            } else if s.ends_with("/node_modules") || s.ends_with(".oro-store") {
                "dir"
            } else {
                "node_modules"
            }
        } else if f.starts_with("package.json") || f.starts_with(".package.json") {
            "manifest"
        } else {
            "other"
        };
        format!("{} {kind}", self.op)
    }
}

#[derive(Debug, Clone)]
pub enum Plan {
    Record,
    /// Kill the process right before the n-th call of this class; of a write,
    /// let this part (in 1/256) of the data through.
    Kill { class: String, n: usize, part: usize },
    /// From the n-th call on, everything that needs space fails.
    Full { n: usize, errno: i32 },
    /// Fail the n-th and following `len` calls of this class.
    Fail { class: String, n: usize, len: usize, errno: i32 },
}

#[derive(Default, Debug)]
pub struct Seen {
    pub events: Vec<Ev>,
    /// The plan's point was reached.
    pub hit: Option<Ev>,
}

const ALLOW: u32 = 0x7fff_0000;
const NOTIFY: u32 = 0x7fc0_0000;
const RECV: libc::c_ulong = 0xc050_2100;
const SEND: libc::c_ulong = 0xc018_2101;

#[repr(C)]
#[derive(Default, Clone, Copy)]
struct Notif {
    id: u64,
    pid: u32,
    flags: u32,
    nr: i32,
    arch: u32,
    ip: u64,
    args: [u64; 6],
}
#[repr(C)]
#[derive(Default)]
struct Resp {
    id: u64,
    val: i64,
    error: i32,
    flags: u32,
}

fn filter() -> Vec<libc::sock_filter> {
    let ld = |off: u32| libc::sock_filter { code: 0x20, jt: 0, jf: 0, k: off };
    let ret = |v: u32| libc::sock_filter { code: 0x06, jt: 0, jf: 0, k: v };
    let jeq = |k: u32, jt: u8, jf: u8| libc::sock_filter { code: 0x15, jt, jf, k };
    let jset = |k: u32, jt: u8, jf: u8| libc::sock_filter { code: 0x45, jt, jf, k };
    let arg = |n: u32| 16 + 8 * n;
    let wr = (libc::O_WRONLY | libc::O_RDWR | libc::O_CREAT | libc::O_TRUNC) as u32;
    let mut f = vec![ld(0)];
    for (nr, a) in [(libc::SYS_openat, 2), (libc::SYS_open, 1)] {
        f.extend([
            jeq(nr as u32, 0, 4),
            ld(arg(a)),
            jset(wr, 0, 1),
            ret(NOTIFY),
            ret(ALLOW),
        ]);
    }
    f.extend([
        jeq(libc::SYS_ioctl as u32, 0, 4),
        ld(arg(1)),
        jeq(0x4004_9409, 0, 1), // FICLONE
        ret(NOTIFY),
        ret(ALLOW),
    ]);
    for (nr, _) in OPS {
        f.extend([jeq(*nr as u32, 0, 1), ret(NOTIFY)]);
    }
    f.push(ret(ALLOW));
    f
}

const OPS: &[(libc::c_long, &str)] = &[
    (libc::SYS_creat, "open"),
    (libc::SYS_write, "write"),
    (libc::SYS_pwrite64, "write"),
    (libc::SYS_writev, "write"),
    (libc::SYS_rename, "rename"),
    (libc::SYS_renameat, "rename"),
    (libc::SYS_renameat2, "rename"),
    (libc::SYS_link, "link"),
    (libc::SYS_linkat, "link"),
    (libc::SYS_symlink, "symlink"),
    (libc::SYS_symlinkat, "symlink"),
    (libc::SYS_unlink, "unlink"),
    (libc::SYS_unlinkat, "unlink"),
    (libc::SYS_rmdir, "unlink"),
    (libc::SYS_mkdir, "mkdir"),
    (libc::SYS_mkdirat, "mkdir"),
    (libc::SYS_truncate, "truncate"),
    (libc::SYS_ftruncate, "truncate"),
    (libc::SYS_fallocate, "truncate"),
    (libc::SYS_chmod, "chmod"),
    (libc::SYS_fchmod, "chmod"),
    (libc::SYS_fchmodat, "chmod"),
    (libc::SYS_copy_file_range, "copy"),
    (libc::SYS_sendfile, "copy"),
];

fn read_mem(pid: u32, addr: u64, buf: &mut [u8]) -> usize {
    let l = libc::iovec { iov_base: buf.as_mut_ptr() as *mut _, iov_len: buf.len() };
    let r = libc::iovec { iov_base: addr as *mut _, iov_len: buf.len() };
    let n = unsafe { libc::process_vm_readv(pid as i32, &l, 1, &r, 1, 0) };
    n.max(0) as usize
}

fn read_path(pid: u32, addr: u64) -> PathBuf {
    let mut out = vec![];
    let mut at = addr;
    while out.len() < 4096 {
        // not across a page boundary: the next one may not be there
        let mut b = vec![0u8; (4096 - (at % 4096)) as usize];
        let n = read_mem(pid, at, &mut b);
        if n == 0 {
            break;
        }
        if let Some(z) = b[..n].iter().position(|c| *c == 0) {
            out.extend(&b[..z]);
            break;
        }
        out.extend(&b[..n]);
        at += n as u64;
    }
    use std::os::unix::ffi::OsStringExt;
    PathBuf::from(std::ffi::OsString::from_vec(out))
}

fn fd_path(pid: u32, fd: u64) -> PathBuf {
    std::fs::read_link(format!("/proc/{pid}/fd/{}", fd as i32)).unwrap_or_default()
}

fn at(pid: u32, dir: u64, p: u64) -> PathBuf {
    let p = read_path(pid, p);
    let base = if dir as i32 == libc::AT_FDCWD {
        std::fs::read_link(format!("/proc/{pid}/cwd")).unwrap_or_default()
    } else {
        fd_path(pid, dir)
    };
    base.join(p)
}

fn event(n: &Notif) -> Ev {
    let a = &n.args;
    let pid = n.pid;
    let cwd = libc::AT_FDCWD as u64;
    let nr = n.nr as libc::c_long;
    let op = match nr {
        libc::SYS_openat | libc::SYS_open => "open",
        libc::SYS_ioctl => "copy",
        _ => OPS.iter().find(|o| o.0 == nr).map(|o| o.1).unwrap_or("?"),
    };
    let (path, to) = match nr {
        libc::SYS_openat => (at(pid, a[0], a[1]), None),
        libc::SYS_renameat | libc::SYS_renameat2 | libc::SYS_linkat => {
            (at(pid, a[0], a[1]), Some(at(pid, a[2], a[3])))
        }
        libc::SYS_rename | libc::SYS_link => (at(pid, cwd, a[0]), Some(at(pid, cwd, a[1]))),
        libc::SYS_symlink => (at(pid, cwd, a[1]), None),
        libc::SYS_symlinkat => (at(pid, a[1], a[2]), None),
        libc::SYS_unlinkat | libc::SYS_mkdirat | libc::SYS_fchmodat => (at(pid, a[0], a[1]), None),
        libc::SYS_write
        | libc::SYS_pwrite64
        | libc::SYS_writev
        | libc::SYS_ftruncate
        | libc::SYS_fallocate
        | libc::SYS_fchmod
        | libc::SYS_sendfile
        | libc::SYS_ioctl => (fd_path(pid, a[0]), None),
        libc::SYS_copy_file_range => (fd_path(pid, a[2]), None),
        _ => (at(pid, cwd, a[0]), None),
    };
    Ev { op, path, to }
}

/// The data of a write, and where in the file it goes.
fn pending_write(n: &Notif) -> Option<(Vec<u8>, u64)> {
    let nr = n.nr as libc::c_long;
    let info = std::fs::read_to_string(format!("/proc/{}/fdinfo/{}", n.pid, n.args[0] as i32)).ok()?;
    let field = |k: &str| {
        info.lines()
            .find_map(|l| l.strip_prefix(k))
            .map(|v| v.trim().to_string())
    };
    let mut pos: u64 = field("pos:")?.parse().ok()?;
    let flags = i32::from_str_radix(&field("flags:")?, 8).ok()?;
    let (addr, len) = match nr {
        libc::SYS_write => (n.args[1], n.args[2]),
        libc::SYS_pwrite64 => {
            pos = n.args[3];
            (n.args[1], n.args[2])
        }
        _ => return None,
    };
    if flags & libc::O_APPEND != 0 {
        pos = std::fs::metadata(fd_path(n.pid, n.args[0])).ok()?.len();
    }
    let mut b = vec![0u8; len as usize];
    let got = read_mem(n.pid, addr, &mut b);
    b.truncate(got);
    Some((b, pos))
}

/// Runs `c` (with everything it starts) under the plan. Only the calls of the
/// program itself are counted, not those of its children.
pub fn run_tapped(
    mut c: Command,
    srv: Option<&Server>,
    plan: Plan,
) -> Result<(Out, Seen), Stop> {
    let mut fds = [0i32; 2];
    if unsafe { libc::socketpair(libc::AF_UNIX, libc::SOCK_STREAM | libc::SOCK_CLOEXEC, 0, fds.as_mut_ptr()) } != 0 {
        return infra("socketpair");
    }
    let ours = unsafe { OwnedFd::from_raw_fd(fds[0]) };
    let theirs = unsafe { OwnedFd::from_raw_fd(fds[1]) };
    let f = filter();
    let sock = theirs.as_raw_fd();
    unsafe {
        c.pre_exec(move || {
            libc::setpgid(0, 0);
            if libc::prctl(libc::PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) != 0 {
                return Err(std::io::Error::last_os_error());
            }
            let prog = libc::sock_fprog {
                len: f.len() as u16,
                filter: f.as_ptr() as *mut _,
            };
            // SET_MODE_FILTER, FLAG_NEW_LISTENER
            let fd = libc::syscall(libc::SYS_seccomp, 1, 8, &prog) as i32;
            if fd < 0 {
                return Err(std::io::Error::last_os_error());
            }
            let pid = libc::getpid();
            let mut data = pid.to_ne_bytes();
            let mut iov = libc::iovec { iov_base: data.as_mut_ptr() as *mut _, iov_len: 4 };
            let mut ctl = [0u64; 4];
            let mut msg: libc::msghdr = std::mem::zeroed();
            msg.msg_iov = &mut iov;
            msg.msg_iovlen = 1;
            msg.msg_control = ctl.as_mut_ptr() as *mut _;
            msg.msg_controllen = libc::CMSG_SPACE(4) as _;
            let h = libc::CMSG_FIRSTHDR(&msg);
            (*h).cmsg_level = libc::SOL_SOCKET;
            (*h).cmsg_type = libc::SCM_RIGHTS;
            (*h).cmsg_len = libc::CMSG_LEN(4) as _;
            std::ptr::copy_nonoverlapping(&fd as *const i32 as *const u8, libc::CMSG_DATA(h), 4);
            if libc::sendmsg(sock, &msg, 0) != 4 {
                return Err(std::io::Error::last_os_error());
            }
            libc::close(fd);
            Ok(())
        });
    }
    let seen = Arc::new(Mutex::new(Seen::default()));
    let s2 = seen.clone();
    let stop = Arc::new(std::sync::atomic::AtomicBool::new(false));
    let stop2 = stop.clone();
    let th = std::thread::Builder::new()
        .stack_size(512 << 10)
        .spawn(move || watch(ours, plan, s2, stop2))
        .unwrap();
    // `theirs` has to stay open until the child has used it
    let out = run_cmd(c, srv);
    drop(theirs);
    stop.store(true, std::sync::atomic::Ordering::SeqCst);
    let ok = th.join().map_err(|_| Stop::Infra("watcher panicked".into()))?;
    let out = out?;
    if !ok {
        return infra("the seccomp listener did not arrive");
    }
    let seen = std::mem::take(&mut *seen.lock().unwrap());
    Ok((out, seen))
}

fn watch(
    ours: OwnedFd,
    plan: Plan,
    seen: Arc<Mutex<Seen>>,
    stop: Arc<std::sync::atomic::AtomicBool>,
) -> bool {
    let mut data = [0u8; 4];
    let mut ctl = [0u64; 4];
    let fd;
    unsafe {
        let mut iov = libc::iovec { iov_base: data.as_mut_ptr() as *mut _, iov_len: 4 };
        let mut msg: libc::msghdr = std::mem::zeroed();
        msg.msg_iov = &mut iov;
        msg.msg_iovlen = 1;
        msg.msg_control = ctl.as_mut_ptr() as *mut _;
        msg.msg_controllen = std::mem::size_of_val(&ctl) as _;
        if libc::recvmsg(ours.as_raw_fd(), &mut msg, libc::MSG_CMSG_CLOEXEC) != 4 {
            return false;
        }
        let h = libc::CMSG_FIRSTHDR(&msg);
        if h.is_null() {
            return false;
        }
        let mut raw = 0i32;
        std::ptr::copy_nonoverlapping(libc::CMSG_DATA(h), &mut raw as *mut i32 as *mut u8, 4);
        fd = OwnedFd::from_raw_fd(raw);
    }
    let pid = i32::from_ne_bytes(data);
    let mut tgids: HashMap<u32, i32> = HashMap::new();
    let mut counts: HashMap<String, usize> = HashMap::new();
    let mut total = 0;
    loop {
        let mut p = libc::pollfd { fd: fd.as_raw_fd(), events: libc::POLLIN, revents: 0 };
        let n = unsafe { libc::poll(&mut p, 1, 200) };
        if n == 0 {
            if stop.load(std::sync::atomic::Ordering::SeqCst) {
                return true;
            }
            continue;
        }
        if p.revents & libc::POLLIN == 0 {
            return true;
        }
        let mut n = Notif::default();
        if unsafe { libc::ioctl(fd.as_raw_fd(), RECV as _, &mut n) } != 0 {
            continue;
        }
        let mut resp = Resp { id: n.id, val: 0, error: 0, flags: 1 };
        let tgid = *tgids.entry(n.pid).or_insert_with(|| {
            std::fs::read_to_string(format!("/proc/{}/status", n.pid))
                .ok()
                .and_then(|s| {
                    s.lines()
                        .find_map(|l| l.strip_prefix("Tgid:"))
                        .and_then(|v| v.trim().parse().ok())
                })
                .unwrap_or(-1)
        });
        if tgid == pid {
            let ev = event(&n);
            let real = ev.path.starts_with("/")
                && !ev.path.starts_with("/dev")
                && !ev.path.starts_with("/proc");
            if real {
                let class = ev.class();
                let k = counts.entry(class.clone()).or_insert(0);
                let i = *k;
                *k += 1;
                total += 1;
                match &plan {
                    Plan::Kill { class: c, n: at, part } if *c == class && i == *at => {
                        let torn = (ev.op == "write" && *part > 0)
                            .then(|| pending_write(&n))
                            .flatten();
                        unsafe {
                            libc::kill(-pid, libc::SIGKILL);
                        }
                        seen.lock().unwrap().hit = Some(ev.clone());
                        if let Some((data, pos)) = torn {
                            tear(&ev.path, &data[..data.len() * part / 256], pos);
                        }
                        seen.lock().unwrap().events.push(ev);
                        continue;
                    }
                    Plan::Fail { class: c, n: at, len, errno }
                        if *c == class && i >= *at && i < at + len =>
                    {
                        seen.lock().unwrap().hit.get_or_insert(ev.clone());
                        resp.error = -errno;
                        resp.flags = 0;
                    }
                    Plan::Full { n: at, errno }
                        if total > *at && !["unlink", "rename", "chmod"].contains(&ev.op) =>
                    {
                        seen.lock().unwrap().hit.get_or_insert(ev.clone());
                        resp.error = -errno;
                        resp.flags = 0;
                    }
                    _ => {}
                }
                seen.lock().unwrap().events.push(ev);
            }
        }
        unsafe {
            libc::ioctl(fd.as_raw_fd(), SEND as _, &resp);
        }
    }
}

fn tear(f: &Path, data: &[u8], pos: u64) {
    use std::os::unix::fs::FileExt;
    if let Ok(f) = std::fs::OpenOptions::new().write(true).open(f) {
        let _ = f.write_at(data, pos);
    }
}

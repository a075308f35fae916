//! Installs that are killed, or whose requests and file-system calls fail.
use super::linker::{apply_args, fresh_copy, tree_snap};
use super::lock::{check_lock, check_lock_tree, drift, lock_of};
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::proj::*;
use crate::registry::*;
use crate::tap::*;
use crate::tree::*;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::process::Command;

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "A07",
        rule: "0-1 complete installs, edits, then 1-3 runs of apply, add or remove killed at a chosen file-system call (class of call first, then which; writes also torn), edits in between, then apply, compared with a fresh install and with what the uninterrupted run did; non-trivial: some run was really killed after it had changed something",
        level: "fault_enumeration",
        quick: 280,
        thorough: 12000,
        threads: 8,
        shrink: 60,
        case: |s, c| a07(s, c, false),
        fixed: vec![],
        assumptions: vec!["the process dies (SIGKILL), the machine does not: what was written stays written"],
    },
    Check {
        id: "A09",
        rule: "0-1 complete installs, edits, then 1-2 runs of apply, add or remove in which chosen file-system calls fail (class of call first, then which; ENOSPC, EIO, EACCES, EMFILE, EXDEV, EPERM; once, several times, for ever, or everything that needs space from some call on), then apply, compared with a fresh install and with what the undisturbed run did; non-trivial: some call really failed",
        level: "fault_enumeration",
        quick: 250,
        thorough: 12000,
        threads: 8,
        shrink: 60,
        case: |s, c| a07(s, c, true),
        fixed: vec![],
        assumptions: vec!["only calls of oro itself fail, not those of install scripts; writes to memory-mapped files can't fail"],
    },
    Check {
        id: "A08",
        rule: "apply, add or remove, on a first or a later install, while 1-3 of the requests it makes meet generated sequences of failures (dropped and cut connections, 5xx, 408, 429, 404, 403, wrong bodies, corrupted tarballs), once or for ever, with a generated retry limit; then the same without failures; compared with an undisturbed run and a fresh install; non-trivial: a failure was met",
        level: "fault_enumeration",
        quick: 450,
        thorough: 9000,
        threads: 56,
        shrink: 20,
        case: a08,
        fixed: vec![],
        assumptions: vec!["faults are injected per request by the harness's registry; delays between retries are waited out, servers that never answer are not simulated"],
    }]
}

/// A copy of a directory tree, with links and modes.
fn clone_dir(from: &Path, to: &Path) -> Result<(), Stop> {
    let s = Command::new("cp").arg("-a").arg(from).arg(to).status();
    match s {
        Ok(s) if s.success() => Ok(()),
        e => infra(format!("cp: {e:?}")),
    }
}

/// Some versions get a script that leaves a file behind.
fn add_scripts(src: &mut Src, reg: &mut Registry) {
    for (n, p) in reg.pkgs.iter_mut() {
        for (v, ver) in p.versions.iter_mut() {
            if src.chance(1, 5) {
                ver.scripts = vec![("postinstall".into(), "echo built > built.txt".into())];
                ver.extra.insert("hasInstallScript".into(), true.into());
                ver.files.remove("package.json");
                ver.seal(n, v);
            }
        }
    }
}

/// What's on disk once the scripts have run.
fn built(reg: &Registry) -> Registry {
    let mut reg = reg.clone();
    for ver in reg.pkgs.values_mut().flat_map(|p| p.versions.values_mut()) {
        if !ver.scripts.is_empty() {
            ver.files.insert("built.txt".into(), (b"built\n".to_vec(), 0o644));
        }
    }
    reg
}

/// One of the calls the run makes: a class first, so that rare ones get as
/// much attention as extraction.
fn pick_point(src: &mut Src, seen: &Seen) -> Option<(String, usize)> {
    let mut classes: BTreeMap<String, usize> = BTreeMap::new();
    for e in &seen.events {
        *classes.entry(e.class()).or_insert(0) += 1;
    }
    if classes.is_empty() {
        return None;
    }
    let all: Vec<(String, usize)> = classes.into_iter().collect();
    let (c, n) = if src.chance(1, 3) {
        // by call
        let i = src.usize(seen.events.len());
        let c = seen.events[i].class();
        let n = all.iter().find(|x| x.0 == c).unwrap().1;
        (c, n)
    } else {
        src.pick(&all).clone()
    };
    Some((c, src.usize(n)))
}

/// Names in the project's directory, but for what an interrupted write to a
/// temporary file leaves.
fn top(dir: &Path) -> Vec<String> {
    let mut v: Vec<String> = std::fs::read_dir(dir)
        .map(|r| r.flatten().map(|e| e.file_name().to_string_lossy().to_string()).collect())
        .unwrap_or_default();
    v.retain(|n| !(n.starts_with('.') && n.contains("tmp")));
    v.sort();
    v
}

fn a07(src: &mut Src, ctx: &mut Ctx, errors: bool) -> CaseResult {
    let o = RegOpts {
        bins: true,
        max_pkgs: 6,
        ..Default::default()
    };
    let mut reg = gen_registry(src, &o);
    add_scripts(src, &mut reg);
    let mut mani = gen_mani(src, &reg, &o, 4);
    let mut hoisted = src.bool();
    let srv = Server::start(reg.clone());
    let sc = ctx.scratch();
    let mut p = Proj::new(&sc, &srv.base);
    if src.chance(1, 4) {
        p.common.push("--prefer-copy".into());
    }
    let no_cache = src.chance(1, 5);
    if no_cache {
        p.cache = None;
        p.common.push("--no-cache".into());
    }
    ctx.note(format!("manifest {}", mani.json()));
    ctx.note(describe_registry(&reg));
    ctx.note(format!("hoisted={hoisted} {:?}", p.common));
    p.write_manifest(&mani.json());
    if src.chance(2, 3) {
        p.run_ok(apply_args(hoisted), Some(&srv), "apply-failed")?;
        ctx.label("earlier install");
    }
    let rounds = src.range(1, 3);
    let mut expected: Option<String> = None;
    for round in 0..rounds {
        if src.chance(2, 3) {
            expected = None;
            match src.below(6) {
                0 | 1 => {
                    add_root_dep(src, &reg, &o, &mut mani);
                    ctx.note(format!("edit: {}", mani.json()));
                }
                2 => {
                    let ks: Vec<String> = mani.all().keys().cloned().collect();
                    if ks.len() > 1 {
                        let k = src.pick(&ks).clone();
                        mani.remove(&k);
                        ctx.note(format!("edit: {}", mani.json()));
                    }
                }
                3 => {
                    let new = drift(src, &mut reg, &o);
                    srv.reg(|r| *r = reg.clone());
                    ctx.note(format!("publish {new:?}"));
                }
                4 => {
                    let _ = std::fs::remove_file(p.dir.join("package-lock.kdl"));
                    ctx.note("delete lockfile");
                }
                _ => {
                    hoisted = !hoisted;
                    ctx.note(format!("switch to hoisted={hoisted}"));
                }
            }
            p.write_manifest(&mani.json());
        }
        // what to run
        let names: Vec<String> = reg.pkgs.keys().cloned().collect();
        let deps: Vec<String> = mani.all().keys().cloned().collect();
        let mut args: Vec<String> = match src.below(6) {
            0 => vec!["add".into(), src.pick(&names).clone()],
            1 if !deps.is_empty() => vec!["remove".into(), src.pick(&deps).clone()],
            _ => vec!["apply".into()],
        };
        let apply = args[0] == "apply";
        if hoisted {
            args.push("--hoisted".into());
        }
        let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
        // the same, uninterrupted, on a copy
        let at = sc.join(format!("ref{round}"));
        std::fs::create_dir_all(&at).unwrap();
        clone_dir(&p.dir, &at.join("proj"))?;
        if let Some(c) = p.cache.as_ref().filter(|c| c.exists()) {
            clone_dir(c, &at.join("cache"))?;
        }
        let mut r = Proj::new(&at, &srv.base);
        r.common = p.common.clone();
        if no_cache {
            r.cache = None;
        }
        let mani0 = p.read("package.json");
        let lock0 = p.read("package-lock.kdl");
        let meta0 = p.dir.join("node_modules/.orogene-meta.kdl").exists();
        let (out, seen) = run_tapped(r.command(&a), Some(&srv), Plan::Record)?;
        ensure!(out.ok(), "reference-failed", "{args:?}: {}", out.tail());
        let mani1 = r.read("package.json");
        let lock1 = r.read("package-lock.kdl");
        let _ = std::fs::remove_dir_all(&at);
        let Some((class, n)) = pick_point(src, &seen) else {
            continue;
        };
        if errors {
            let errno = *src.pick(&[
                libc::ENOSPC,
                libc::EIO,
                libc::EACCES,
                libc::EMFILE,
                libc::EXDEV,
                libc::EPERM,
            ]);
            let plan = if src.chance(1, 5) {
                let n = src.usize(seen.events.len());
                Plan::Full { n, errno: libc::ENOSPC }
            } else {
                let len = *src.pick(&[1, 1, 2, 5, 1 << 30]);
                Plan::Fail { class: class.clone(), n, len, errno }
            };
            ctx.note(format!("oro {a:?} under {plan:?}"));
            let (out, seen) = run_tapped(p.command(&a), Some(&srv), plan)?;
            ctx.note(format!("exit {:?}, failed first: {:?}", out.code, seen.hit));
            ensure!(!out.panicked(), "panic", "oro {args:?}: {}", out.tail());
            ensure!(!out.deadlock, "hang", "oro {args:?}: {}", out.tail());
            if seen.hit.is_some() {
                ctx.nontrivial = true;
                ctx.label(class.as_str());
                ctx.label(if out.ok() { "coped" } else { "reported" });
            }
            if out.ok() {
                ensure!(
                    p.read("package.json") == mani1 && p.read("package-lock.kdl") == lock1,
                    "half-done",
                    "oro {args:?} succeeded but left package.json as {:?} and the lockfile as {:?}",
                    p.read("package.json"),
                    p.read("package-lock.kdl")
                );
                let v: serde_json::Value = serde_json::from_str(mani1.as_deref().unwrap()).unwrap();
                let mani = super::manifest::model_mani(&v);
                check_tree(&p.dir, &built(&reg), &mani)?;
                let (_, lock) = lock_of(&p, "apply")?;
                check_lock_tree(&p.dir, &lock, hoisted)?;
            } else {
                ensure!(seen.hit.is_some(), "apply-failed", "oro {args:?} failed: {}", out.tail());
                ensure!(!out.stderr.trim().is_empty(), "silent", "no message: {}", out.tail());
                ensure!(
                    p.read("package.json") == mani0,
                    "manifest-changed",
                    "the failed {args:?} left package.json as {:?}",
                    p.read("package.json")
                );
            }
        } else {
            let part = src.usize(256);
            let plan = Plan::Kill { class: class.clone(), n, part };
            let (out, seen) = run_tapped(p.command(&a), Some(&srv), plan)?;
            ctx.note(format!("oro {a:?} killed at {class} #{n} ({part}/256): {:?}", seen.hit));
            match &seen.hit {
                Some(_) => {
                    ctx.label(class.as_str());
                    ctx.label(format!("killed {}", args[0]));
                    if seen.events.len() > 1 {
                        ctx.nontrivial = true;
                    }
                }
                None => {
                    ensure!(out.ok(), "apply-failed", "oro {args:?} failed: {}", out.tail());
                }
            }
        }
        // The manifest is what it was or what it should become.
        let now = p.read("package.json");
        ensure!(
            now == mani0 || now == mani1,
            "manifest-torn",
            "oro {args:?}, killed, left package.json as {now:?}"
        );
        let now_lock = p.read("package-lock.kdl");
        ensure!(
            now_lock == lock0 || now_lock == lock1 || now_lock.as_deref().map_or(false, |t| parse_lock(t).is_ok()),
            "lockfile-torn",
            "oro {args:?}, killed, left package-lock.kdl as {now_lock:?}"
        );
        let v: serde_json::Value = serde_json::from_str(&now.unwrap()).unwrap();
        mani = super::manifest::model_mani(&v);
        // An apply that is repeated gets to where the first one would have.
        expected = if apply && (lock0.is_some() || !meta0) {
            lock1
        } else {
            None
        };
    }
    p.run_ok(apply_args(hoisted), Some(&srv), "reapply-failed")?;
    check_tree(&p.dir, &built(&reg), &mani)?;
    let (text, lock) = lock_of(&p, "apply")?;
    if let Some(want) = expected {
        ensure!(
            text == want,
            "lockfile-differs",
            "the lockfile differs from that of an apply that was not interrupted:\n{text}\n----\n{want}"
        );
    }
    check_lock(&lock, &reg, &srv.base, &mani)?;
    check_lock_tree(&p.dir, &lock, hoisted)?;
    let q = fresh_copy(ctx, &p, &srv, hoisted, &[], "fresh")?;
    let d = diff_snap(&tree_snap(&p.dir), &tree_snap(&q.dir));
    ensure!(
        d.is_empty(),
        "not-repaired",
        "after this history node_modules differs from a fresh install (right): {d:?}"
    );
    let (a, b) = (top(&p.dir), top(&q.dir));
    ensure!(a == b, "left-behind", "files in the project: {a:?} instead of {b:?}");
    if let Some(c) = p.cache.clone() {
        // what's in the cache is good for another project
        let mut other = Proj::new(&sc.join("other"), &srv.base);
        other.cache = Some(c);
        other.common = p.common.clone();
        other.write_manifest(&mani.json());
        std::fs::write(other.dir.join("package-lock.kdl"), &text).unwrap();
        other.run_ok(apply_args(hoisted), Some(&srv), "cache-unusable")?;
        let d = diff_snap(&tree_snap(&other.dir), &tree_snap(&q.dir));
        ensure!(
            d.is_empty(),
            "cache-poisoned",
            "an install from the cache the interrupted one used differs from a fresh one (right): {d:?}"
        );
    }
    Ok(())
}

// ---------------------------------------------------------------- A08

/// Paths a run asks for.
fn asked(log: &[Req]) -> Vec<String> {
    let mut v: Vec<String> = log.iter().map(|r| pct_decode(&r.path)).collect();
    v.sort();
    v.dedup();
    v
}

fn a08(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let o = RegOpts {
        max_pkgs: 5,
        opt_deps: src.chance(1, 4),
        bins: true,
        ..Default::default()
    };
    let mut reg = gen_registry(src, &o);
    let mut mani = gen_mani(src, &reg, &o, 3);
    let hoisted = src.bool();
    let srv = Server::start(reg.clone());
    let sc = ctx.scratch();
    let mut p = Proj::new(&sc, &srv.base);
    let retries = *src.pick(&[0usize, 1, 1, 1, 2]);
    p.common = vec!["--retries".into(), retries.to_string()];
    let no_cache = src.chance(1, 3);
    if no_cache {
        p.cache = None;
        p.common.push("--no-cache".into());
    }
    ctx.note(format!("manifest {}", mani.json()));
    ctx.note(describe_registry(&reg));
    ctx.note(format!("hoisted={hoisted} {:?}", p.common));
    p.write_manifest(&mani.json());
    let warm = src.chance(1, 3);
    let mut drifted = false;
    if warm {
        ctx.label("later install");
        p.run_ok(apply_args(hoisted), Some(&srv), "apply-failed")?;
        match src.below(4) {
            0 => {
                let _ = std::fs::remove_dir_all(p.dir.join("node_modules"));
                ctx.note("delete node_modules");
            }
            1 => {
                let new = drift(src, &mut reg, &o);
                drifted = !no_cache;
                srv.reg(|r| *r = reg.clone());
                let _ = std::fs::remove_file(p.dir.join("package-lock.kdl"));
                let _ = std::fs::remove_dir_all(p.dir.join("node_modules"));
                ctx.note(format!("publish {new:?}, delete lockfile and node_modules"));
            }
            _ => {}
        }
        if src.bool() {
            add_root_dep(src, &reg, &o, &mut mani);
            p.write_manifest(&mani.json());
            ctx.note(format!("edit: {}", mani.json()));
        }
        if src.bool() && !no_cache {
            p.cache = Some(sc.join("cache2"));
            drifted = false;
            ctx.note("another cache");
        }
    }
    let cold = no_cache || !p.cache.as_ref().unwrap().exists();
    let names: Vec<String> = reg.pkgs.keys().cloned().collect();
    let deps: Vec<String> = mani.all().keys().cloned().collect();
    let mut args: Vec<String> = match src.below(6) {
        0 => vec!["add".into(), src.pick(&names).clone()],
        1 if deps.len() > 1 => vec!["remove".into(), src.pick(&deps).clone()],
        _ => vec!["apply".into()],
    };
    if hoisted {
        args.push("--hoisted".into());
    }
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    // undisturbed, on a copy
    let at = sc.join("ref");
    std::fs::create_dir_all(&at).unwrap();
    clone_dir(&p.dir, &at.join("proj"))?;
    if let Some(c) = p.cache.as_ref().filter(|c| c.exists()) {
        clone_dir(c, &at.join("cache"))?;
    }
    let mut r = Proj::new(&at, &srv.base);
    r.common = p.common.clone();
    if no_cache {
        r.cache = None;
    }
    srv.take_log();
    r.run_ok(&a, Some(&srv), "undisturbed-failed")?;
    let paths = asked(&srv.take_log());
    if paths.is_empty() {
        return Err(Stop::Skip("nothing is fetched"));
    }
    let want_mani = r.read("package.json");
    let want_lock = r.read("package-lock.kdl");
    // the faults
    let mut hit: Vec<String> = vec![];
    let mut permanent = false;
    let mut either = false;
    for _ in 0..src.range(1, 3) {
        let path = src.pick(&paths).clone();
        if hit.contains(&path) {
            continue;
        }
        let tarball = path.ends_with(".tgz");
        let mut f: Vec<Fault> = vec![];
        match src.below(6) {
            0 => {
                permanent = true;
                f.push(match src.below(if tarball { 7 } else { 6 }) {
                    0 => Fault::Status(404),
                    1 => Fault::Status(403),
                    2 => Fault::Status(503),
                    3 => Fault::Drop,
                    4 => Fault::Truncate,
                    5 => Fault::Body(b"<html>please log in</html>".to_vec()),
                    _ => Fault::Corrupt,
                });
                srv.sticky(&path, f[0].clone());
            }
            1 => {
                // not what a retry is promised for, but not to be believed either
                either = true;
                f.push(match src.below(if tarball { 4 } else { 3 }) {
                    0 => Fault::Truncate,
                    1 => Fault::Status(404),
                    2 => Fault::Body(vec![]),
                    _ => Fault::Corrupt,
                });
                srv.fault(&path, f.clone());
            }
            2 => {
                either = true;
                f = (0..retries + 1).map(|_| Fault::Status(500)).collect();
                srv.fault(&path, f.clone());
            }
            _ => {
                for _ in 0..src.usize(retries + 1).max(retries.min(1)) {
                    f.push(match src.below(6) {
                        0 => Fault::Status(500),
                        1 => Fault::Status(503),
                        2 => Fault::Status(502),
                        3 => Fault::Status(429),
                        4 => Fault::Status(408),
                        _ => Fault::Drop,
                    });
                }
                srv.fault(&path, f.clone());
            }
        }
        if !f.is_empty() {
            ctx.note(format!("{path}: {f:?}"));
            ctx.nontrivial = true;
            for f in &f {
                let s = format!("{f:?}");
                ctx.label(s.split("([").next().unwrap().to_string());
            }
        }
        hit.push(path);
    }
    ctx.label(match (permanent, either) {
        (true, _) => "permanent",
        (_, true) => "once more than retried",
        _ => "below the retry limit",
    });
    let mani0 = p.read("package.json");
    let lock0 = p.read("package-lock.kdl");
    let meta0 = p.dir.join("node_modules/.orogene-meta.kdl").exists();
    let out = p.run(&a, Some(&srv))?;
    ensure!(!out.panicked() && !out.deadlock, "panic", "{args:?}: {}", out.tail());
    srv.clear_faults();
    if out.ok() {
        ensure!(
            !(permanent && cold && !o.opt_deps),
            "papered-over",
            "oro {args:?} succeeded although something it needs is not there: {}",
            out.tail()
        );
    } else {
        ensure!(
            permanent || either,
            "not-retried",
            "oro {args:?} failed on temporary failures below the retry limit: {}",
            out.tail()
        );
        ensure!(!out.stderr.trim().is_empty(), "silent", "no message: {}", out.tail());
        ensure!(p.read("package.json") == mani0, "manifest-changed", "the failed {args:?} changed package.json");
        ensure!(p.read("package-lock.kdl") == lock0, "lockfile-changed", "the failed {args:?} changed the lockfile");
        p.run_ok(&a, Some(&srv), "not-recovered")?;
    }
    // what the cache knows may be used when the registry fails
    let stale = drifted && (permanent || either) && out.ok();
    ensure!(
        stale || p.read("package.json") == want_mani,
        "manifest-differs",
        "package.json is {:?} instead of {want_mani:?}",
        p.read("package.json")
    );
    let (text, lock) = lock_of(&p, "a08")?;
    // without a lockfile, what's in node_modules is a lockfile, unless an
    // install was interrupted
    if !stale && (out.ok() || lock0.is_some() || !meta0) {
        ensure!(
            Some(&text) == want_lock.as_ref(),
            "lockfile-differs",
            "the lockfile differs from that of an undisturbed run:\n{text}\n----\n{}",
            want_lock.unwrap_or_default()
        );
    }
    let v: serde_json::Value = serde_json::from_str(&p.read("package.json").unwrap_or_default()).unwrap_or_default();
    let mani = super::manifest::model_mani(&v);
    check_tree(&p.dir, &reg, &mani)?;
    check_lock(&lock, &reg, &srv.base, &mani)?;
    check_lock_tree(&p.dir, &lock, hoisted)?;
    let d = diff_snap(&tree_snap(&p.dir), &tree_snap(&r.dir));
    if Some(&text) == r.read("package-lock.kdl").as_ref() {
        ensure!(
            d.is_empty(),
            "tree-differs",
            "node_modules differs from that of an undisturbed run (right): {d:?}"
        );
    }
    Ok(())
}

//! Lockfile properties: fixed point, pinning, npm import, install switches.
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::proj::*;
use crate::registry::*;
use crate::tree::*;
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "R03",
            rule: "random registry and manifest, applied, applied again, then re-installed from the lockfile alone (other directory, shuffled responses, with or without the cache); non-trivial: the lockfile holds >= 3 packages, at least one nested",
            level: "exploration",
            quick: 350,
            thorough: 6000,
            threads: 8,
            shrink: 100,
            case: r03,
            fixed: vec![],
            assumptions: vec!["registry responses are the harness's own"],
        },
        Check {
            id: "R04",
            rule: "random registry and manifest locked, then versions are published, tags moved and possibly one manifest entry edited; non-trivial: at least one locked package has a newer matching version afterwards",
            level: "exploration",
            quick: 450,
            thorough: 6000,
            threads: 8,
            shrink: 100,
            case: r04,
            fixed: vec![],
            assumptions: vec!["range dependencies only"],
        },
        Check {
            id: "R07",
            rule: "random registry with conflicting ranges; the same manifest resolved 5 times from nothing under different generated response orders (and once unordered); non-trivial: some package is placed twice or more",
            level: "exploration",
            quick: 260,
            thorough: 4000,
            threads: 8,
            shrink: 150,
            case: r07,
            fixed: vec![],
            assumptions: vec![],
        },
    ]
}

pub fn lock_of(p: &Proj, sig: &str) -> Result<(String, Lock), Stop> {
    let Some(t) = p.read("package-lock.kdl") else {
        return fail(format!("{sig}-no-lockfile"), "apply wrote no package-lock.kdl");
    };
    match parse_lock(&t) {
        Ok(l) => Ok((t, l)),
        Err(e) => fail(format!("{sig}-unreadable"), format!("lockfile unreadable: {e}")),
    }
}

pub fn lock_dir(root: &Path, path: &[String]) -> std::path::PathBuf {
    let mut d = root.to_path_buf();
    for seg in path {
        d = d.join("node_modules").join(seg);
    }
    d
}

/// Every entry describes a published version faithfully, and the entries form a
/// tree in which every recorded requirement resolves.
/// Whether anything asks for `target` by the name `alias`.
fn is_alias(reg: &Registry, mani: &Mani, alias: &str, target: &str) -> bool {
    let start = format!("npm:{target}@");
    let is = |(k, s): (&String, &String)| k == alias && s.starts_with(&start);
    mani.all().iter().any(is)
        || reg.pkgs.values().any(|p| {
            let mut deps = p.versions.values().flat_map(|v| v.deps.iter().chain(&v.opt));
            deps.any(|d| is((&d.0, &d.1)))
        })
}

pub fn check_lock(lock: &Lock, reg: &Registry, base: &str, mani: &Mani) -> Result<(), Stop> {
    for (path, e) in &lock.pkgs {
        let Some(v) = &e.version else {
            return fail("lock-entry", format!("{path:?} has no version"));
        };
        let Some(res) = &e.resolved else {
            return fail("lock-entry", format!("{path:?} has no resolved"));
        };
        let found = reg.pkgs.iter().find(|(n, p)| {
            p.versions
                .get(v)
                .map(|_| tarball_url(base, n, v) == *res)
                .unwrap_or(false)
        });
        let Some((n, p)) = found else {
            return fail(
                "lock-entry",
                format!("{path:?}: version {v} resolved {res} is not a published tarball"),
            );
        };
        let last = path.last().unwrap();
        ensure!(
            last == n || is_alias(reg, mani, last, n),
            "lock-entry",
            "{path:?} resolves to {n}"
        );
        let want = p.versions[v].integrity.clone();
        ensure!(
            e.integrity == want,
            "lock-integrity",
            "{path:?}: integrity {:?} but the registry says {:?}",
            e.integrity,
            want
        );
        if path.len() > 1 {
            ensure!(
                lock.pkgs.contains_key(&path[..path.len() - 1].to_vec()),
                "lock-orphan",
                "{path:?} is nested in a package that is not there"
            );
        }
        let names: BTreeSet<String> = e.deps.values().flat_map(|m| m.keys().cloned()).collect();
        let mut want: BTreeSet<String> = p.versions[v].deps.iter().map(|d| d.0.clone()).collect();
        want.extend(p.versions[v].opt.iter().map(|d| d.0.clone()));
        ensure!(
            names == want,
            "lock-deps",
            "{path:?} lists dependencies {names:?} instead of {want:?}"
        );
        check_reqs(lock, reg, base, path, e)?;
    }
    let names: BTreeSet<String> = lock
        .root
        .deps
        .values()
        .flat_map(|m| m.keys().cloned())
        .collect();
    let want: BTreeSet<String> = mani.all().keys().cloned().collect();
    ensure!(
        names == want,
        "lock-root",
        "root lists {names:?} instead of {want:?}"
    );
    for (k, m) in [
        ("dependencies", &mani.deps),
        ("dev-dependencies", &mani.dev),
        ("optional-dependencies", &mani.opt),
    ] {
        let a: BTreeSet<&String> = lock
            .root
            .deps
            .get(k)
            .map(|m| m.keys().collect())
            .unwrap_or_default();
        let b: BTreeSet<&String> = m.keys().collect();
        ensure!(a == b, "lock-root", "root {k}: {a:?} instead of {b:?}");
    }
    check_reqs(lock, reg, base, &[], &lock.root)
}

fn check_reqs(
    lock: &Lock,
    reg: &Registry,
    base: &str,
    path: &[String],
    e: &LockPkg,
) -> Result<(), Stop> {
    for (name, spec) in e.deps.values().flatten() {
        let mut at = path.to_vec();
        let found = loop {
            let mut q = at.clone();
            q.push(name.clone());
            if let Some(x) = lock.pkgs.get(&q) {
                break Some(x);
            }
            if at.pop().is_none() {
                break None;
            }
        };
        let Some(found) = found else {
            return fail(
                "lock-unreachable",
                format!("{path:?} requires {name}@{spec}, which the lockfile does not place"),
            );
        };
        let (real, range) = target_of(name, spec);
        let v = found.version.clone().unwrap_or_default();
        ensure!(
            found.resolved == Some(tarball_url(base, &real, &v)),
            "lock-wrong-package",
            "{path:?} requires {name}@{spec} but the lockfile gives it {:?}",
            found.resolved
        );
        ensure!(
            spec_ok(&reg.pkgs[&real], &range, &v),
            "lock-unsatisfied",
            "{path:?} requires {name}@{spec} but the lockfile gives it {v}"
        );
    }
    Ok(())
}

/// Installed packages are exactly those of the lockfile.
pub fn check_lock_tree(root: &Path, lock: &Lock, hoisted: bool) -> Result<(), Stop> {
    let dirs = package_dirs(root);
    if hoisted {
        let want: BTreeSet<_> = lock.pkgs.keys().map(|p| lock_dir(root, p)).collect();
        for d in &want {
            ensure!(
                dirs.contains(d),
                "lock-tree",
                "{} is in the lockfile but not installed",
                d.display()
            );
        }
        for d in &dirs {
            ensure!(
                want.contains(d),
                "lock-tree",
                "{} is installed but not in the lockfile",
                d.display()
            );
        }
        for (p, e) in &lock.pkgs {
            let v = read_json(&lock_dir(root, p).join("package.json"))
                .and_then(|j| j["version"].as_str().map(|s| s.to_string()));
            ensure!(
                v == e.version,
                "lock-tree",
                "{p:?}: {:?} locked but {v:?} installed",
                e.version
            );
        }
    } else {
        let mut a: BTreeMap<(String, String), usize> = BTreeMap::new();
        for d in &dirs {
            let v = read_json(&d.join("package.json"))
                .and_then(|j| j["version"].as_str().map(|s| s.to_string()))
                .unwrap_or_default();
            let mut n = d.file_name().unwrap().to_string_lossy().to_string();
            let par = d.parent().unwrap().file_name().unwrap().to_string_lossy();
            if par.starts_with('@') {
                n = format!("{par}/{n}");
            }
            *a.entry((n, v)).or_default() += 1;
        }
        let mut b: BTreeMap<(String, String), usize> = BTreeMap::new();
        for (p, e) in &lock.pkgs {
            *b.entry((p.last().unwrap().clone(), e.version.clone().unwrap_or_default()))
                .or_default() += 1;
        }
        ensure!(
            a == b,
            "lock-tree",
            "store holds {a:?} but the lockfile lists {b:?}"
        );
    }
    Ok(())
}

fn r03(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let o = RegOpts {
        tags_as_specs: true,
        bins: true,
        ..Default::default()
    };
    let reg = gen_registry(src, &o);
    let mani = gen_mani(src, &reg, &o, 5);
    let hoisted = src.bool();
    let orders = [src.u64(), src.u64(), src.u64()];
    let drop_cache = src.bool();
    ctx.note(format!("manifest {}", mani.json()));
    ctx.note(describe_registry(&reg));
    ctx.note(format!("hoisted={hoisted} orders={orders:x?} drop_cache={drop_cache}"));
    let srv = Server::start(reg.clone());
    srv.set_order(Some(orders[0]));
    let mut p = Proj::new(&ctx.scratch(), &srv.base);
    p.write_manifest(&mani.json());
    let args: &[&str] = if hoisted {
        &["apply", "--hoisted"]
    } else {
        &["apply"]
    };
    p.run_ok(args, Some(&srv), "apply-failed")?;
    let (text, lock) = lock_of(&p, "first")?;
    check_lock(&lock, &reg, &srv.base, &mani)?;
    check_lock_tree(&p.dir, &lock, hoisted)?;
    // the library reads back what it wrote
    let re = cut(|| {
        node_maintainer::Lockfile::from_kdl(text.as_str()).map(|l| l.to_kdl().to_string())
    });
    match re {
        Ok(Ok(t)) => ensure!(
            t == text,
            "lock-roundtrip",
            "reading and writing the lockfile changes it:\n{text}\n---\n{t}"
        ),
        Ok(Err(e)) => return fail("lock-roundtrip", format!("own lockfile rejected: {e}")),
        Err(e) => return fail("lock-roundtrip", format!("panic reading own lockfile: {e}")),
    }
    let snap = snapshot(&p.dir.join("node_modules"));
    // again, in place
    srv.set_order(Some(orders[1]));
    p.run_ok(args, Some(&srv), "reapply-failed")?;
    let (text2, _) = lock_of(&p, "second")?;
    ensure!(
        text == text2,
        "lock-not-fixed",
        "second apply rewrote the lockfile:\n{text}\n--- became\n{text2}"
    );
    let d = diff_snap(&snap, &snapshot(&p.dir.join("node_modules")));
    ensure!(
        d.is_empty(),
        "reapply-changes-tree",
        "second apply changed the tree: {d:?}"
    );
    // from the lockfile alone, elsewhere
    let mut q = Proj::new(&ctx.scratch().join("two"), &srv.base);
    q.cache = if drop_cache {
        q.cache
    } else {
        p.cache.take()
    };
    q.write_manifest(&mani.json());
    std::fs::write(q.dir.join("package-lock.kdl"), &text).unwrap();
    srv.set_order(Some(orders[2]));
    srv.take_log();
    q.run_ok(args, Some(&srv), "lock-install-failed")?;
    let (text3, _) = lock_of(&q, "third")?;
    ensure!(
        text == text3,
        "lock-not-fixed",
        "installing from the lockfile rewrote it:\n{text}\n--- became\n{text3}"
    );
    let d = diff_snap(&snap, &snapshot(&q.dir.join("node_modules")));
    ensure!(
        d.is_empty(),
        "lock-tree-differs",
        "installing from the lockfile gives another tree: {d:?}"
    );
    ctx.nontrivial = lock.pkgs.len() >= 3 && lock.pkgs.keys().any(|k| k.len() > 1);
    ctx.label(if hoisted { "hoisted" } else { "isolated" });
    Ok(())
}

/// Publish newer versions and move tags.
pub fn drift(src: &mut Src, reg: &mut Registry, o: &RegOpts) -> Vec<String> {
    let names: Vec<String> = reg.pkgs.keys().cloned().collect();
    let mut out = vec![];
    for n in names {
        if src.chance(2, 3) {
            let have: BTreeSet<String> = reg.pkgs[&n].versions.keys().cloned().collect();
            let free: Vec<&str> = VERSIONS
                .iter()
                .chain(["1.2.5", "1.9.0", "2.3.0", "3.1.0"].iter())
                .copied()
                .filter(|v| !have.contains(*v))
                .collect();
            let k = src.range(1, 2);
            for _ in 0..k {
                let v = src.pick(&free).to_string();
                if reg.pkgs[&n].versions.contains_key(&v) {
                    continue;
                }
                let ver = gen_version(src, reg, &n, &v, o);
                out.push(format!("{n}@{v}"));
                reg.pkgs.get_mut(&n).unwrap().versions.insert(v, ver);
            }
            let mut p = reg.pkgs[&n].clone();
            retag(&mut p, src);
            reg.pkgs.insert(n, p);
        }
    }
    out
}

fn r04(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let o = RegOpts::default();
    let mut reg = gen_registry(src, &o);
    let mut mani = gen_mani(src, &reg, &o, 4);
    let hoisted = src.bool();
    let keep_nm = src.bool();
    let orders = [src.u64(), src.u64()];
    ctx.note(format!("manifest {}", mani.json()));
    ctx.note(describe_registry(&reg));
    let srv = Server::start(reg.clone());
    srv.set_order(Some(orders[0]));
    let mut p = Proj::new(&ctx.scratch(), &srv.base);
    p.write_manifest(&mani.json());
    let args: &[&str] = if hoisted {
        &["apply", "--hoisted"]
    } else {
        &["apply"]
    };
    p.run_ok(args, Some(&srv), "apply-failed")?;
    let (text, lock) = lock_of(&p, "first")?;
    let new = drift(src, &mut reg, &o);
    ctx.note(format!("published {new:?}"));
    srv.reg(|r| *r = reg.clone());
    let edit = src.below(3);
    let mut edited: Option<String> = None;
    match edit {
        1 => {
            add_root_dep(src, &reg, &o, &mut mani);
            let old: BTreeMap<String, String> = lock
                .root
                .deps
                .values()
                .flatten()
                .map(|(a, b)| (a.clone(), b.clone()))
                .collect();
            edited = mani
                .all()
                .keys()
                .find(|k| !old.contains_key(*k))
                .cloned()
                .or(Some("?".into()));
        }
        2 => {
            let ks: Vec<String> = mani.all().keys().cloned().collect();
            let k = src.pick(&ks).clone();
            mani.remove(&k);
            edited = Some(k);
        }
        _ => {}
    }
    ctx.note(format!(
        "hoisted={hoisted} keep_nm={keep_nm} edit={edit} {edited:?} -> {}",
        mani.json()
    ));
    if !keep_nm {
        let _ = std::fs::remove_dir_all(p.dir.join("node_modules"));
        if src.bool() {
            p.cache = Some(ctx.scratch().join("cache2"));
        }
    }
    p.write_manifest(&mani.json());
    srv.set_order(Some(orders[1]));
    p.run_ok(args, Some(&srv), "apply-failed")?;
    let (text2, lock2) = lock_of(&p, "second")?;
    if edit == 0 {
        ensure!(
            text == text2,
            "lock-drifted",
            "the registry moved on and the lockfile changed:\n{text}\n--- became\n{text2}"
        );
    }
    check_tree(&p.dir, &reg, &mani)?;
    check_lock(&lock2, &reg, &srv.base, &mani)?;
    check_lock_tree(&p.dir, &lock2, hoisted)?;
    if edit == 2 {
        // removing a dependency brings nothing new in
        for (path, e) in &lock2.pkgs {
            let n = path.last().unwrap();
            ensure!(
                lock.pkgs
                    .iter()
                    .any(|(q, f)| q.last() == Some(n) && f.version == e.version),
                "lock-drifted-edit",
                "removing {edited:?} brought in {path:?} {:?}",
                e.version
            );
        }
    }
    if edit == 1 {
        // packages reachable without passing the added dependency stay
        let k = edited.clone().unwrap();
        if k != "?" {
            for (path, e) in &lock.pkgs {
                if path.len() == 1 {
                    let same = lock2.pkgs.get(path).map(|f| &f.version) == Some(&e.version);
                    let root_dep = mani.all().contains_key(&path[0]) && path[0] != k;
                    ensure!(
                        same || !root_dep,
                        "lock-drifted-edit",
                        "adding {k} changed locked root dependency {path:?} from {:?} to {:?}",
                        e.version,
                        lock2.pkgs.get(path)
                    );
                }
            }
        }
    }
    let newer = lock.pkgs.iter().any(|(path, e)| {
        new.iter().any(|n| {
            let at = n.rfind('@').unwrap();
            n[..at] == **path.last().unwrap() && Some(n[at + 1..].to_string()) > e.version
        })
    });
    ctx.nontrivial = newer && lock.pkgs.len() >= 2;
    ctx.label(format!("edit{edit}"));
    Ok(())
}

fn r07(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let o = RegOpts {
        tags_as_specs: true,
        max_pkgs: 9,
        max_deps: 4,
        ..Default::default()
    };
    let reg = gen_registry(src, &o);
    let mani = gen_mani(src, &reg, &o, 5);
    let conc = *src.pick(&["50", "20", "5", "2", "1"]);
    let orders: Vec<u64> = (0..4).map(|_| src.u64()).collect();
    ctx.note(format!("manifest {}", mani.json()));
    ctx.note(describe_registry(&reg));
    ctx.note(format!("concurrency={conc} orders={orders:x?}"));
    let srv = Server::start(reg.clone());
    let mut first: Option<String> = None;
    for (i, o) in orders.iter().map(|o| Some(*o)).chain([None]).enumerate() {
        srv.set_order(o);
        let p = Proj::new(&ctx.scratch().join(format!("p{i}")), &srv.base);
        p.write_manifest(&mani.json());
        p.run_ok(
            &["apply", "--lockfile-only", "--concurrency", conc],
            Some(&srv),
            "resolve-failed",
        )?;
        let (text, lock) = lock_of(&p, "resolve")?;
        match &first {
            None => {
                check_lock(&lock, &reg, &srv.base, &mani)?;
                let mut n: BTreeMap<&String, usize> = BTreeMap::new();
                for k in lock.pkgs.keys() {
                    *n.entry(k.last().unwrap()).or_default() += 1;
                }
                ctx.nontrivial = n.values().any(|n| *n > 1);
                first = Some(text);
            }
            Some(f) => ensure!(
                *f == text,
                "order-dependent",
                "another response order resolves differently:\n{f}\n--- vs\n{text}"
            ),
        }
    }
    Ok(())
}

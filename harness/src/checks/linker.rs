//! node_modules on disk: convergence over histories, isolation, executables.
use super::lock::{check_lock_tree, drift, lock_of};
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::proj::*;
use crate::registry::*;
use crate::tree::*;
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "A01",
            rule: "history of 2-6 steps (manifest edits, published versions, deleted lockfile, damaged or stray links, applies) in isolated layout, compared with a fresh install of the final manifest and lockfile; non-trivial: some package kept its place with another version, or was removed, or a link was damaged",
            level: "exploration",
            quick: 420,
            thorough: 6000,
            threads: 8,
            shrink: 100,
            case: |s, c| history(s, c, false),
            fixed: vec![],
            assumptions: vec!["files inside installed packages are not edited by the user"],
        },
        Check {
            id: "A02",
            rule: "history of 2-6 steps (manifest edits, published versions, deleted lockfile, deleted packages, stray entries, layout switches, applies), compared with a fresh install of the final manifest and lockfile in the final layout; non-trivial: some package kept its place with another version, or was removed, or the layout changed",
            level: "exploration",
            quick: 420,
            thorough: 6000,
            threads: 8,
            shrink: 100,
            case: |s, c| history(s, c, true),
            fixed: vec![],
            assumptions: vec!["files inside installed packages are not edited by the user"],
        },
        Check {
            id: "A03",
            rule: "random registry and manifest installed in isolated layout, then every (package, name) pair looked up; non-trivial: >= 4 packages with >= 2 undeclared pairs that exist elsewhere in the tree",
            level: "exploration",
            quick: 900,
            thorough: 15000,
            threads: 8,
            shrink: 100,
            case: a03,
            fixed: vec![],
            assumptions: vec!["NODE_PATH and files outside the project are not considered"],
        },
        Check {
            id: "A04",
            rule: "packages with string, map and directory bins, odd paths, missing files and name clashes installed over a short history in either layout; every .bin entry compared with a model and executed; non-trivial: >= 3 expected entries",
            level: "exploration",
            quick: 400,
            thorough: 6000,
            threads: 8,
            shrink: 100,
            case: a04,
            fixed: vec![],
            assumptions: vec![],
        },
    ]
}

pub fn apply_args(hoisted: bool) -> &'static [&'static str] {
    if hoisted {
        &["apply", "--hoisted"]
    } else {
        &["apply"]
    }
}

/// node_modules without the bookkeeping file and without empty directories.
pub fn tree_snap(root: &Path) -> Snap {
    let s = snapshot(&root.join("node_modules"));
    let mut out = Snap::new();
    for (k, v) in &s {
        if k == ".orogene-meta.kdl" || matches!(v, Ent::Dir) {
            continue;
        }
        out.insert(k.clone(), v.clone());
    }
    out
}

pub fn fresh_copy(
    ctx: &mut Ctx,
    p: &Proj,
    srv: &Server,
    hoisted: bool,
    extra: &[&str],
    name: &str,
) -> Result<Proj, Stop> {
    let mut q = Proj::new(&ctx.scratch().join(name), &srv.base);
    q.env = p.env.clone();
    q.common = p.common.clone();
    for f in ["package.json", "package-lock.kdl"] {
        if let Some(t) = p.read(f) {
            std::fs::write(q.dir.join(f), t).unwrap();
        }
    }
    let mut a = apply_args(hoisted).to_vec();
    a.extend(extra);
    q.cache = Some(ctx.scratch().join(name).join("cache"));
    q.run_ok(&a, Some(srv), "fresh-failed")?;
    Ok(q)
}

fn marker(lock: &Lock, root: &Path, hoisted: bool) -> BTreeMap<Vec<String>, PathBuf> {
    let mut out = BTreeMap::new();
    if !hoisted {
        return out;
    }
    for p in lock.pkgs.keys() {
        let d = super::lock::lock_dir(root, p);
        if d.exists() {
            let m = d.join(".vh-marker");
            std::fs::write(&m, "x").unwrap();
            out.insert(p.clone(), m);
        }
    }
    out
}

fn links_in(nm: &Path) -> Vec<PathBuf> {
    let mut out = vec![];
    let Ok(rd) = std::fs::read_dir(nm) else { return out };
    for e in rd.flatten() {
        let p = e.path();
        let n = e.file_name().to_string_lossy().to_string();
        if n.starts_with('@') && p.is_dir() && !p.is_symlink() {
            out.extend(links_in(&p));
        } else if p.is_symlink() {
            out.push(p);
        }
    }
    out.sort();
    out
}

/// Break something in node_modules the way users and other tools do.
fn damage(src: &mut Src, root: &Path, hoisted: bool) -> Option<String> {
    let nm = root.join("node_modules");
    let pk: Vec<PathBuf> = package_dirs(root).into_iter().collect();
    if pk.is_empty() {
        return None;
    }
    let rel = |p: &Path| p.strip_prefix(root).unwrap().display().to_string();
    if hoisted {
        match src.below(4) {
            0 => {
                let d = src.pick(&pk).clone();
                std::fs::remove_dir_all(&d).unwrap();
                Some(format!("rm {}", rel(&d)))
            }
            1 => {
                let n = src.pick(&["stray", "@s/stray", "@st/ray", ".hidden"]).to_string();
                let d = nm.join(&n);
                std::fs::create_dir_all(d.join("node_modules/x")).unwrap();
                std::fs::write(d.join("package.json"), "{}").unwrap();
                Some(format!("stray dir {n}"))
            }
            2 => {
                let n = src.pick(&["stray.txt", "zz"]).to_string();
                std::fs::write(nm.join(&n), "x").unwrap();
                Some(format!("stray file {n}"))
            }
            _ => {
                let n = src.pick(&["lnk", "z"]).to_string();
                let _ = std::os::unix::fs::symlink("../package.json", nm.join(&n));
                Some(format!("stray link {n}"))
            }
        }
    } else {
        let mut nms = vec![nm.clone()];
        nms.extend(pk.iter().map(|d| d.join("node_modules")));
        let links: Vec<PathBuf> = nms.iter().flat_map(|d| links_in(d)).collect();
        match src.below(6) {
            0 | 1 if !links.is_empty() => {
                let l = src.pick(&links).clone();
                std::fs::remove_file(&l).unwrap();
                match src.below(4) {
                    0 => Some(format!("rm link {}", rel(&l))),
                    1 => {
                        let t = src.pick(&pk).clone();
                        std::os::unix::fs::symlink(&t, &l).unwrap();
                        Some(format!("retarget {} to {}", rel(&l), rel(&t)))
                    }
                    2 => {
                        std::os::unix::fs::symlink("nowhere/at/all", &l).unwrap();
                        Some(format!("dangle {}", rel(&l)))
                    }
                    _ => {
                        if l.parent().unwrap().parent().unwrap() != root
                            && l.parent().unwrap() != nm
                        {
                            return Some(format!("rm link {}", rel(&l)));
                        }
                        std::fs::create_dir(&l).unwrap();
                        std::fs::write(l.join("package.json"), "{}").unwrap();
                        Some(format!("dir instead of link {}", rel(&l)))
                    }
                }
            }
            2 => {
                let d = src.pick(&pk).clone();
                // .oro-store/<x>/node_modules/<name>
                std::fs::remove_dir_all(&d).unwrap();
                Some(format!("rm {}", rel(&d)))
            }
            3 => {
                let n = src.pick(&["stray", "@s/stray", ".hidden"]).to_string();
                let d = nm.join(&n);
                std::fs::create_dir_all(&d).unwrap();
                std::fs::write(d.join("package.json"), "{}").unwrap();
                Some(format!("stray dir {n}"))
            }
            4 => {
                let n = src.pick(&["stray@00000000", "zz"]).to_string();
                std::fs::create_dir_all(nm.join(".oro-store").join(&n).join("node_modules/q")).unwrap();
                Some(format!("stray store dir {n}"))
            }
            _ => {
                let t = src.pick(&pk).clone();
                let d = src.pick(&nms).clone();
                let _ = std::fs::create_dir_all(&d);
                let _ = std::os::unix::fs::symlink(&t, d.join("undeclared"));
                Some(format!("stray link in {}", rel(&d)))
            }
        }
    }
}

fn history(src: &mut Src, ctx: &mut Ctx, hoisted0: bool) -> CaseResult {
    let o = RegOpts {
        tags_as_specs: true,
        bins: true,
        max_pkgs: 6,
        ..Default::default()
    };
    let mut reg = gen_registry(src, &o);
    let mut mani = gen_mani(src, &reg, &o, 4);
    let mut hoisted = hoisted0;
    let no_cache = src.chance(1, 4);
    ctx.note(format!("manifest {}", mani.json()));
    ctx.note(describe_registry(&reg));
    ctx.note(format!("hoisted={hoisted} no_cache={no_cache}"));
    let srv = Server::start(reg.clone());
    let mut p = Proj::new(&ctx.scratch(), &srv.base);
    if src.chance(1, 4) {
        p.common.push("--prefer-copy".into());
    }
    p.write_manifest(&mani.json());
    p.run_ok(apply_args(hoisted), Some(&srv), "apply-failed")?;
    let mut interesting = false;
    let steps = src.range(2, 6);
    let mut damaged = false;
    let mut switched = false;
    let mut relocked = false;
    for _ in 0..steps {
        match src.below(9) {
            0 | 1 => {
                add_root_dep(src, &reg, &o, &mut mani);
                ctx.note(format!("edit: {}", mani.json()));
            }
            8 => {
                // another package of the same version by the same name
                let mut can: Vec<(String, String)> = vec![];
                for (k, s) in mani.all() {
                    let f = p.dir.join("node_modules").join(&k).join("package.json");
                    let Some(v) = read_json(&f).and_then(|j| j["version"].as_str().map(str::to_string)) else {
                        continue;
                    };
                    for (n, pkg) in &reg.pkgs {
                        if pkg.versions.contains_key(&v) && *n != target_of(&k, &s).0 {
                            can.push((k.clone(), format!("npm:{n}@{v}")));
                        }
                    }
                }
                if !can.is_empty() {
                    let (k, s) = src.pick(&can).clone();
                    mani.remove(&k);
                    mani.deps.insert(k, s);
                    ctx.note(format!("retarget: {}", mani.json()));
                }
            }
            2 => {
                if mani.len() > 0 {
                    let ks: Vec<String> = mani.all().keys().cloned().collect();
                    let k = src.pick(&ks).clone();
                    mani.remove(&k);
                    ctx.note(format!("drop {k}"));
                }
            }
            3 => {
                let new = drift(src, &mut reg, &o);
                srv.reg(|r| *r = reg.clone());
                ctx.note(format!("publish {new:?}"));
                ctx.note(describe_registry(&reg));
            }
            4 => {
                let _ = std::fs::remove_file(p.dir.join("package-lock.kdl"));
                relocked = true;
                if src.bool() {
                    let _ = std::fs::remove_file(p.dir.join("node_modules/.orogene-meta.kdl"));
                    ctx.note("delete lockfile and node_modules metadata");
                    switched = true;
                } else {
                    ctx.note("delete lockfile");
                }
            }
            5 => {
                if let Some(d) = damage(src, &p.dir, hoisted) {
                    ctx.note(d);
                    damaged = true;
                }
            }
            6 if hoisted0 => {
                hoisted = !hoisted;
                switched = true;
                ctx.note(format!("switch to hoisted={hoisted}"));
            }
            _ => {}
        }
        if !src.chance(2, 3) {
            continue;
        }
        // apply
        let before = p.read("package-lock.kdl").and_then(|t| parse_lock(&t).ok());
        let marks = match &before {
            Some(l) => marker(l, &p.dir, hoisted && !switched),
            None => BTreeMap::new(),
        };
        p.write_manifest(&mani.json());
        srv.set_order(Some(src.u64()));
        p.run_ok(apply_args(hoisted), Some(&srv), "apply-failed")?;
        let (_, after) = lock_of(&p, "apply")?;
        if let Some(before) = &before {
            for (path, e) in &before.pkgs {
                match after.pkgs.get(path) {
                    None => interesting = true,
                    Some(f) if f.resolved != e.resolved => interesting = true,
                    Some(f) => {
                        // every ancestor unchanged as well: left alone
                        let chain = (1..path.len())
                            .all(|i| before.pkgs.get(&path[..i]) == after.pkgs.get(&path[..i]));
                        if f == e && chain && !damaged && !switched && !relocked {
                            if let Some(m) = marks.get(path) {
                                ensure!(
                                    m.exists(),
                                    "rewritten",
                                    "{path:?} did not change but was written again"
                                );
                            }
                        }
                    }
                }
            }
        }
        for m in marks.values() {
            let _ = std::fs::remove_file(m);
        }
        check_tree(&p.dir, &reg, &mani)?;
        check_lock_tree(&p.dir, &after, hoisted)?;
        interesting |= damaged || switched;
        damaged = false;
        switched = false;
        relocked = false;
    }
    p.write_manifest(&mani.json());
    p.run_ok(apply_args(hoisted), Some(&srv), "apply-failed")?;
    check_tree(&p.dir, &reg, &mani)?;
    let q = fresh_copy(ctx, &p, &srv, hoisted, &[], "fresh")?;
    let d = diff_snap(&tree_snap(&p.dir), &tree_snap(&q.dir));
    ensure!(
        d.is_empty(),
        "not-converged",
        "after this history node_modules differs from a fresh install (right): {d:?}"
    );
    ensure!(
        p.read("package-lock.kdl") == q.read("package-lock.kdl"),
        "not-converged-lock",
        "fresh install from the lockfile rewrites it"
    );
    ctx.nontrivial = interesting;
    ctx.label(if hoisted { "hoisted" } else { "isolated" });
    Ok(())
}

fn a03(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let o = RegOpts {
        max_pkgs: 8,
        tags_as_specs: true,
        ..Default::default()
    };
    let reg = gen_registry(src, &o);
    let mani = gen_mani(src, &reg, &o, 4);
    ctx.note(format!("manifest {}", mani.json()));
    ctx.note(describe_registry(&reg));
    let srv = Server::start(reg.clone());
    srv.set_order(Some(src.u64()));
    let p = Proj::new(&ctx.scratch(), &srv.base);
    p.write_manifest(&mani.json());
    p.run_ok(apply_args(false), Some(&srv), "apply-failed")?;
    let seen = check_tree(&p.dir, &reg, &mani)?;
    let mut names: BTreeSet<String> = reg.pkgs.keys().cloned().collect();
    names.extend(mani.all().keys().cloned());
    for i in seen.values() {
        let v = &reg.pkgs[&i.name].versions[&i.version];
        names.extend(v.deps.iter().chain(&v.opt).map(|d| d.0.clone()));
    }
    let root: BTreeSet<String> = mani.all().keys().cloned().collect();
    let mut denied = 0;
    for n in &names {
        let l = node_lookup(&p.dir, n, &p.dir);
        ensure!(
            l.is_none() || root.contains(n),
            "root-phantom",
            "the project can load {n}, which it does not declare: {l:?}"
        );
        denied += l.is_none() as usize;
    }
    for (dir, i) in &seen {
        let v = &reg.pkgs[&i.name].versions[&i.version];
        let own: BTreeSet<&String> = v.deps.iter().chain(&v.opt).map(|d| &d.0).collect();
        // the name it is installed under
        let mut under = dir.file_name().unwrap().to_string_lossy().to_string();
        let par = dir.parent().unwrap().file_name().unwrap().to_string_lossy();
        if par.starts_with('@') {
            under = format!("{par}/{under}");
        }
        for n in &names {
            let l = node_lookup(dir, n, &p.dir);
            if own.contains(n) {
                continue; // checked by check_tree
            }
            if *n == under {
                ensure!(
                    l.as_ref() == Some(dir),
                    "not-self",
                    "{}@{} looks itself up and finds {l:?}",
                    i.name,
                    i.version
                );
                continue;
            }
            if let Some(l) = l {
                let via_root = node_lookup(&p.dir, n, &p.dir);
                ensure!(
                    root.contains(n) && via_root.as_ref() == Some(&l),
                    "phantom",
                    "{}@{} can load {n}, which it does not declare: {}",
                    i.name,
                    i.version,
                    l.display()
                );
            } else {
                denied += 1;
            }
        }
    }
    ctx.nontrivial = seen.len() >= 4 && denied >= 2;
    Ok(())
}

/// The bins a package.json declares, by name; None for a target that leaves
/// the package.
pub fn model_bins(pj: &serde_json::Value, dir: &Path) -> BTreeMap<String, PathBuf> {
    let mut out = BTreeMap::new();
    let norm = |s: &str| -> PathBuf {
        let mut v: Vec<&str> = vec![];
        for c in s.split('/') {
            match c {
                "" | "." => {}
                ".." => {
                    v.pop();
                }
                c => v.push(c),
            }
        }
        v.iter().collect()
    };
    let base = |n: &str| n.rsplit(['/', '\\', ':']).next().unwrap_or("").to_string();
    match &pj["bin"] {
        serde_json::Value::String(s) => {
            let n = base(pj["name"].as_str().unwrap_or(""));
            out.insert(n, norm(s));
        }
        serde_json::Value::Object(m) => {
            for (k, v) in m {
                if let Some(s) = v.as_str() {
                    out.insert(base(k), norm(s));
                }
            }
        }
        serde_json::Value::Array(a) => {
            for f in a.iter().filter_map(|v| v.as_str()) {
                out.insert(base(f), norm(f));
            }
        }
        _ => {
            if let Some(d) = pj["directories"]["bin"].as_str() {
                let d = norm(d);
                fn rec(root: &Path, d: &Path, out: &mut BTreeMap<String, PathBuf>) {
                    let Ok(rd) = std::fs::read_dir(root.join(d)) else { return };
                    for e in rd.flatten() {
                        let n = e.file_name().to_string_lossy().to_string();
                        if n.starts_with('.') {
                            continue;
                        }
                        if e.path().is_dir() {
                            rec(root, &d.join(&n), out);
                        } else {
                            out.insert(n.clone(), d.join(&n));
                        }
                    }
                }
                rec(dir, &d, &mut out);
            }
        }
    }
    out.retain(|k, v| !k.is_empty() && !v.as_os_str().is_empty());
    out
}

/// Give a version some bins in one of the notations package.json allows.
fn add_bins(src: &mut Src, ver: &mut Ver, name: &str, v: &str) {
    let short = name.rsplit('/').next().unwrap().to_string();
    let script = |f: &str| format!("#!/bin/sh\necho {name}@{v} {f}\n").into_bytes();
    let mode = |src: &mut Src| *src.pick(&[0o644, 0o755, 0o600, 0o700]);
    let mut put = |src: &mut Src, ver: &mut Ver, f: &str| {
        let m = mode(src);
        ver.files.insert(f.to_string(), (script(f), m));
    };
    match src.below(9) {
        8 => {
            // a list of paths
            let mut l = vec![];
            for g in ["one", "Two.js", "three.sh"] {
                if src.chance(2, 3) {
                    let f = format!("{}{short}-{g}", src.pick(&["", "sub/", "sub/dir.d/"]));
                    put(src, ver, &f);
                    l.push(format!("{}{f}", src.pick(&["", "./", "x/../"])).into());
                }
            }
            ver.extra.insert("bin".into(), serde_json::Value::Array(l));
        }
        0 => {
            // one path
            let f = src.pick(&["cli.js", "bin/run", "lib/x/y.sh"]).to_string();
            put(src, ver, &f);
            let pre = src.pick(&["", "./", "/", "../", "./lib/../"]).to_string();
            ver.extra.insert("bin".into(), format!("{pre}{f}").into());
        }
        1 | 2 | 3 => {
            let mut m = serde_json::Map::new();
            for _ in 0..src.range(1, 3) {
                let n = match src.below(8) {
                    6 => format!("c:{short}-c"),
                    7 => format!("d\\e\\{short}-d"),
                    0 => short.clone(),
                    1 => format!("{short}-tool"),
                    2 => "shared".to_string(),
                    3 => format!("@x/{short}-Sc"),
                    4 => format!("{short}.sh"),
                    _ => format!("{short}-b"),
                };
                let f = src.pick(&["cli.js", "bin/run", "lib/x/y.sh", "b"]).to_string();
                let pre = src.pick(&["", "./", "", "/", "bin/../"]).to_string();
                if src.chance(1, 8) {
                    m.insert(n, format!("{pre}missing.js").into());
                } else {
                    put(src, ver, &f);
                    m.insert(n, format!("{pre}{f}").into());
                }
            }
            ver.extra.insert("bin".into(), m.into());
        }
        4 => {
            for _ in 0..src.range(1, 3) {
                let f = src.pick(&["", "sub/"]).to_string();
                let g = src.pick(&["1", "2", ".3"]).to_string();
                // The same name in two directories would be ambiguous.
                let s = if f.is_empty() { "" } else { "s" };
                let f = format!("tools/{f}{short}{s}{g}");
                let f = if g == ".3" { format!("tools/.{short}") } else { f };
                put(src, ver, &f);
            }
            let d = src.pick(&["tools", "./tools", "tools/", "no-such-dir"]).to_string();
            ver.extra
                .insert("directories".into(), serde_json::json!({ "bin": d }));
        }
        _ => {}
    }
}

fn a04(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let o = RegOpts {
        max_pkgs: 6,
        ..Default::default()
    };
    let mut reg = gen_registry(src, &o);
    for (n, p) in reg.pkgs.iter_mut() {
        for (v, ver) in p.versions.iter_mut() {
            add_bins(src, ver, n, v);
            ver.files.remove("package.json");
            ver.seal(n, v);
        }
    }
    let mut mani = gen_mani(src, &reg, &o, 4);
    let hoisted = src.bool();
    let copy = src.chance(1, 3);
    ctx.note(format!("manifest {}", mani.json()));
    ctx.note(describe_registry(&reg));
    for (n, p) in &reg.pkgs {
        for (v, ver) in &p.versions {
            if !ver.extra.is_empty() {
                ctx.note(format!(
                    "{n}@{v}: {} files {:?}",
                    serde_json::to_string(&ver.extra).unwrap(),
                    ver.files.iter().map(|(k, v)| format!("{k}:{:o}", v.1)).collect::<Vec<_>>()
                ));
            }
        }
    }
    ctx.note(format!("hoisted={hoisted} copy={copy}"));
    let srv = Server::start(reg.clone());
    let mut p = Proj::new(&ctx.scratch(), &srv.base);
    if copy {
        p.common.push("--prefer-copy".into());
    }
    let rounds = src.range(1, 3);
    let mut total = 0;
    for round in 0..rounds {
        if round > 0 {
            if src.bool() {
                add_root_dep(src, &reg, &o, &mut mani);
            } else if mani.len() > 1 {
                let ks: Vec<String> = mani.all().keys().cloned().collect();
                let k = src.pick(&ks).clone();
                mani.remove(&k);
            }
            if src.chance(1, 4) {
                let _ = std::fs::remove_file(p.dir.join("package-lock.kdl"));
            }
            ctx.note(format!("round {round}: {}", mani.json()));
        }
        p.write_manifest(&mani.json());
        srv.set_order(Some(src.u64()));
        p.run_ok(apply_args(hoisted), Some(&srv), "apply-failed")?;
        let seen = check_tree(&p.dir, &reg, &mani)?;
        // .bin directory -> name -> acceptable targets
        let mut want: BTreeMap<PathBuf, BTreeMap<String, BTreeSet<PathBuf>>> = BTreeMap::new();
        let mut offer = |bindir: PathBuf, dep: &Path| {
            let pj = read_json(&dep.join("package.json")).unwrap();
            for (n, f) in model_bins(&pj, dep) {
                let t = dep.join(f);
                if t.is_file() {
                    want.entry(bindir.clone())
                        .or_default()
                        .entry(n)
                        .or_default()
                        .insert(t.canonicalize().unwrap());
                }
            }
        };
        if hoisted {
            for d in seen.keys() {
                let mut nm = d.parent().unwrap().to_path_buf();
                if nm.file_name().unwrap() != "node_modules" {
                    nm.pop();
                }
                offer(nm.join(".bin"), d);
            }
        } else {
            let mut who: Vec<(PathBuf, Vec<String>)> =
                vec![(p.dir.clone(), mani.all().keys().cloned().collect())];
            for (d, i) in &seen {
                let v = &reg.pkgs[&i.name].versions[&i.version];
                let ds: BTreeSet<String> =
                    v.deps.iter().chain(&v.opt).map(|d| d.0.clone()).collect();
                who.push((d.clone(), ds.into_iter().collect()));
            }
            for (d, deps) in who {
                for n in deps {
                    if let Some(t) = node_lookup(&d, &n, &p.dir) {
                        offer(d.join("node_modules/.bin"), &t);
                    }
                }
            }
        }
        // what is there
        let mut have: BTreeMap<PathBuf, BTreeSet<String>> = BTreeMap::new();
        let mut nms = vec![p.dir.join("node_modules")];
        nms.extend(package_dirs(&p.dir).iter().map(|d| d.join("node_modules")));
        for nm in nms {
            if let Ok(rd) = std::fs::read_dir(nm.join(".bin")) {
                for e in rd.flatten() {
                    have.entry(nm.join(".bin"))
                        .or_default()
                        .insert(e.file_name().to_string_lossy().to_string());
                }
            }
        }
        let rel = |x: &Path| x.strip_prefix(&p.dir).unwrap_or(x).display().to_string();
        for (d, m) in &want {
            for (n, targets) in m {
                let e = d.join(n);
                let Ok(t) = e.canonicalize() else {
                    return fail("bin-missing", format!("no working {} (should be {targets:?})", rel(&e)));
                };
                ensure!(
                    targets.contains(&t),
                    "bin-wrong",
                    "{} runs {} instead of one of {targets:?}",
                    rel(&e),
                    rel(&t)
                );
                ensure!(is_exec(&t), "bin-not-executable", "{} is not executable", rel(&e));
                let out = std::process::Command::new(&e).output();
                match out {
                    Ok(o) if o.status.success() => {
                        let s = String::from_utf8_lossy(&o.stdout).trim().to_string();
                        let ok = targets.iter().any(|t| {
                            std::fs::read_to_string(t)
                                .map(|c| c.contains(&format!("echo {s}\n")))
                                .unwrap_or(false)
                        });
                        ensure!(ok, "bin-output", "{} printed {s:?}", rel(&e));
                    }
                    Ok(o) => return fail("bin-run", format!("{}: {:?}", rel(&e), o)),
                    // another case of this process may have forked while the
                    // file was open for writing
                    Err(e) if e.raw_os_error() == Some(26) => {}
                    Err(x) => return fail("bin-run", format!("{}: {x}", rel(&e))),
                }
                total += 1;
            }
        }
        for (d, ns) in &have {
            for n in ns {
                ensure!(
                    want.get(d).map(|m| m.contains_key(n)).unwrap_or(false),
                    "bin-left-over",
                    "{} belongs to no executable of a dependency there",
                    rel(&d.join(n))
                );
            }
        }
    }
    ctx.nontrivial = total >= 3;
    ctx.label(if hoisted { "hoisted" } else { "isolated" });
    Ok(())
}

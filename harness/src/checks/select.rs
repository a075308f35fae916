//! Version selection, npm lockfiles and install switches.
use super::linker::{apply_args, tree_snap};
use super::lock::*;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::proj::*;
use crate::registry::*;
use crate::tree::*;
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;
use std::sync::Arc;

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "R02",
            rule: "1-6 packages with generated version sets and tags, each requested exactly, by tag, by range, through an alias or without a version, with a generated default tag; selection read from the lockfile and compared with a model; non-trivial: some request had >= 2 candidates, or nothing to select",
            level: "exploration",
            quick: 2500,
            thorough: 40000,
            threads: 8,
            shrink: 200,
            case: r02,
            fixed: vec![],
            assumptions: vec!["range membership is node-semver's"],
        },
        Check {
            id: "R05",
            rule: "package-lock.json (version 2 or 3) or npm-shrinkwrap.json written from a tree the harness places itself, with mirrored tarball locations and aliases, then applied; non-trivial: >= 3 entries and some entry is not what a fresh resolution would choose",
            level: "exploration",
            quick: 700,
            thorough: 10000,
            threads: 8,
            shrink: 120,
            case: r05,
            fixed: vec![],
            assumptions: vec!["registry packages only (no links, workspaces or bundled packages)"],
        },
        Check {
            id: "R06",
            rule: "project in a generated state (no, current or outdated lockfile; with or without node_modules) on which a command runs with each switch, compared with the plain command on a copy; non-trivial: the plain command changes something the switch must not",
            level: "exploration",
            quick: 450,
            thorough: 7000,
            threads: 8,
            shrink: 100,
            case: r06,
            fixed: vec![],
            assumptions: vec!["--locked with package-lock.kdl only"],
        },
    ]
}

// ---------------------------------------------------------------- R02

/// Own version order (semver precedence), so that "highest" does not depend on
/// the library under test.
pub fn key(v: &str) -> (Vec<u64>, bool, Vec<(bool, u64, String)>) {
    let v = v.split('+').next().unwrap();
    let (core, pre) = match v.split_once('-') {
        Some((a, b)) => (a, Some(b)),
        None => (v, None),
    };
    let core = core.split('.').map(|x| x.parse().unwrap()).collect();
    let ids = pre
        .unwrap_or("")
        .split('.')
        .filter(|s| !s.is_empty())
        .map(|s| match s.parse::<u64>() {
            Ok(n) => (false, n, String::new()),
            Err(_) => (true, 0, s.to_string()),
        })
        .collect();
    (core, pre.is_none(), ids)
}

const R02_VERSIONS: &[&str] = &[
    "0.0.1", "0.0.2", "0.1.0", "0.1.3", "0.2.0", "1.0.0-alpha", "1.0.0-alpha.1", "1.0.0-alpha.10",
    "1.0.0-alpha.9", "1.0.0-rc.1", "1.0.0", "1.0.1", "1.1.0", "1.2.0-beta.2", "1.2.0", "1.2.3",
    "1.9.0", "1.10.0", "1.10.2", "2.0.0-0", "2.0.0-beta", "2.0.0", "2.0.10", "2.0.9", "2.1.0",
    "3.0.0-rc.1", "3.0.0", "10.0.0", "9.9.9",
];

fn r02_range(src: &mut Src, vs: &[String]) -> String {
    let v = if src.chance(4, 5) {
        src.pick(vs).clone()
    } else {
        src.pick(R02_VERSIONS).to_string()
    };
    let core = v.split('-').next().unwrap().to_string();
    let p: Vec<&str> = core.split('.').collect();
    match src.below(16) {
        0 | 1 => format!("^{v}"),
        2 => format!("~{v}"),
        3 => format!(">={v}"),
        4 => format!(">{v}"),
        5 => format!("<{v}"),
        6 => format!("<={v}"),
        7 => p[0].to_string(),
        8 => format!("{}.{}", p[0], p[1]),
        9 => format!("{}.x", p[0]),
        10 => format!("{}.{}.x", p[0], p[1]),
        11 => src.pick(&["*", "*", ""]).to_string(),
        12 => {
            let w = src.pick(vs).clone();
            let (a, b) = if key(&v) <= key(&w) { (v, w) } else { (w, v) };
            format!("{a} - {b}")
        }
        13 => {
            let w = src.pick(vs).clone();
            let (a, b) = if key(&v) <= key(&w) { (v, w) } else { (w, v) };
            format!(">={a} <={b}")
        }
        14 => {
            let w = src.pick(vs).clone();
            format!("{v} || ~{w}")
        }
        _ => format!("~{}.{}", p[0], p[1]),
    }
}

fn r02(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let names = ["a", "b", "@s/c", "d", "e.js", "@t/f"];
    let n = src.range(1, 6);
    let default_tag = src.pick(&["latest", "latest", "next", "stable", "nope"]).to_string();
    let may_fail = src.chance(1, 3);
    let mut reg = Registry::default();
    let mut mani = Mani::default();
    // (name, acceptable versions; empty: must fail)
    let mut want: Vec<(String, String, String, BTreeSet<String>)> = vec![];
    let mut choice = false;
    for name in &names[..n] {
        let k = src.range(1, 7);
        let mut vs: Vec<String> = vec![];
        for _ in 0..k {
            let v = src.pick(R02_VERSIONS).to_string();
            if !vs.contains(&v) {
                vs.push(v);
            }
        }
        let mut p = Pkg::default();
        for v in &vs {
            let mut ver = Ver::default();
            ver.seal(name, v);
            p.versions.insert(v.clone(), ver);
        }
        for t in ["latest", "next", "stable", "beta"] {
            if src.chance(2, 3) {
                let v = if src.chance(1, 8) {
                    src.pick(R02_VERSIONS).to_string()
                } else {
                    src.pick(&vs).clone()
                };
                p.tags.insert(t.into(), v);
            }
        }
        let all: BTreeSet<String> = vs.iter().cloned().collect();
        let one = |v: Option<&String>| -> BTreeSet<String> {
            v.filter(|v| all.contains(*v)).cloned().into_iter().collect()
        };
        let (spec, ok): (Option<String>, BTreeSet<String>) = match src.below(8) {
            0 => {
                let v = if src.chance(1, 6) {
                    src.pick(R02_VERSIONS).to_string()
                } else {
                    src.pick(&vs).clone()
                };
                let pre = *src.pick(&["", "", "v", "="]);
                (Some(format!("{pre}{v}")), one(Some(&v)))
            }
            1 | 2 => {
                let t = src.pick(&["latest", "next", "stable", "beta"]).to_string();
                (Some(t.clone()), one(p.tags.get(&t)))
            }
            3 => {
                // no version at all (through an alias)
                let ok = one(p.tags.get(&default_tag));
                (None, ok)
            }
            _ => {
                let r = r02_range(src, &vs);
                let Ok(range) = node_semver::Range::parse(if r.is_empty() { "*" } else { &r }) else {
                    ctx.label("odd range skipped");
                    continue;
                };
                let sat: Vec<&String> = vs
                    .iter()
                    .filter(|v| range.satisfies(&node_semver::Version::parse(v).unwrap()))
                    .collect();
                choice |= sat.len() >= 2;
                let tagged = p
                    .tags
                    .get(&default_tag)
                    .filter(|v| sat.contains(v));
                let mut ok: BTreeSet<String> = match tagged {
                    Some(v) => one(Some(v)),
                    None => one(sat.iter().max_by_key(|v| key(v)).copied()),
                };
                if ok.is_empty() && (r == "*" || r.is_empty()) {
                    // only prereleases: the default tag stands in
                    ok = one(p.tags.get(&default_tag));
                }
                (Some(r), ok)
            }
        };
        if ok.is_empty() && !may_fail {
            continue;
        }
        let alias = spec.is_none() || src.chance(1, 6);
        let (k, s) = match (&spec, alias) {
            (None, _) => (format!("al-{}", name.replace('@', "").replace('/', "-")), format!("npm:{name}")),
            (Some(s), true) => (
                format!("al-{}", name.replace('@', "").replace('/', "-")),
                format!("npm:{name}@{s}"),
            ),
            (Some(s), false) => (name.to_string(), s.clone()),
        };
        ctx.note(format!(
            "{k}: {s:?} versions {vs:?} tags {:?} expect {ok:?}",
            p.tags
        ));
        match src.below(4) {
            0 => mani.dev.insert(k.clone(), s.clone()),
            1 => mani.opt.insert(k.clone(), s.clone()),
            _ => mani.deps.insert(k.clone(), s.clone()),
        };
        want.push((k, name.to_string(), s, ok));
        reg.pkgs.insert(name.to_string(), p);
    }
    ctx.note(format!("default-tag {default_tag}"));
    let srv = Server::start(reg.clone());
    let p = Proj::new(&ctx.scratch(), &srv.base);
    p.write_manifest(&mani.json());
    let impossible: Vec<_> = want.iter().filter(|w| w.3.is_empty()).collect();
    ctx.nontrivial = choice || !impossible.is_empty();
    let out = p.run(
        &["apply", "--lockfile-only", "--default-tag", &default_tag],
        Some(&srv),
    )?;
    ensure!(!out.panicked() && !out.deadlock, "panic", "{}", out.tail());
    if impossible.iter().any(|w| !mani.opt.contains_key(&w.0)) {
        ctx.label("unsatisfiable");
        ensure!(
            !out.ok(),
            "unsatisfiable-accepted",
            "{:?} cannot be satisfied but the command succeeded: {}",
            impossible,
            p.read("package-lock.kdl").unwrap_or_default()
        );
        ensure!(
            p.read("package-lock.kdl").is_none(),
            "lockfile-on-failure",
            "failed but wrote a lockfile"
        );
        return Ok(());
    }
    if !impossible.is_empty() {
        // An optional one: the command may fail, or go on without it.
        if !out.ok() {
            return Ok(());
        }
    }
    ensure!(out.ok(), "resolve-failed", "{}", out.tail());
    let (_, lock) = lock_of(&p, "select")?;
    for (k, name, s, ok) in &want {
        let e = lock.pkgs.get(&vec![k.clone()]);
        if ok.is_empty() {
            ensure!(
                e.is_none(),
                "unsatisfiable-accepted",
                "{k}@{s} cannot be satisfied but resolved to {e:?}"
            );
            continue;
        }
        let Some(e) = e else {
            return fail("not-locked", format!("{k}@{s} is not in the lockfile"));
        };
        let v = e.version.clone().unwrap_or_default();
        ensure!(
            ok.contains(&v),
            "wrong-version",
            "{k}@{s} selected {v} instead of {ok:?}"
        );
        ensure!(
            e.resolved.as_ref() == Some(&tarball_url(&srv.base, name, &v)),
            "wrong-tarball",
            "{k}@{s} selected {v} but from {:?}",
            e.resolved
        );
        ensure!(
            e.integrity == reg.pkgs[name].versions[&v].integrity,
            "wrong-integrity",
            "{k}@{s}: {:?}",
            e.integrity
        );
    }
    Ok(())
}

// ---------------------------------------------------------------- R05

struct Node {
    path: Vec<String>,
    pkg: String,
    version: String,
}

/// Places packages like npm might: at the top when the name is free there,
/// otherwise (or sometimes) next to the dependent.
fn npm_tree(src: &mut Src, reg: &Registry, mani: &Mani) -> Option<Vec<Node>> {
    let mut nodes: BTreeMap<Vec<String>, (String, String)> = BTreeMap::new();
    let mut q: Vec<(Vec<String>, Vec<(String, String)>)> =
        vec![(vec![], mani.all().into_iter().collect())];
    let mut i = 0;
    while i < q.len() {
        let (at, deps) = q[i].clone();
        i += 1;
        if i > 300 || at.len() > 8 {
            return None;
        }
        for (name, spec) in deps {
            let (real, range) = target_of(&name, &spec);
            let mut look = at.clone();
            let found = loop {
                let mut f = look.clone();
                f.push(name.clone());
                if let Some(n) = nodes.get(&f) {
                    break Some(n.clone());
                }
                if look.pop().is_none() {
                    break None;
                }
            };
            let pkg = &reg.pkgs[&real];
            if let Some((p, v)) = &found {
                if *p == real && spec_ok(pkg, &range, v) {
                    continue;
                }
            }
            let cands: Vec<&String> = pkg
                .versions
                .keys()
                .filter(|v| spec_ok(pkg, &range, v))
                .collect();
            if cands.is_empty() {
                return None;
            }
            let v = (*src.pick(&cands)).clone();
            let mut path = vec![name.clone()];
            if found.is_some() || (!at.is_empty() && src.chance(1, 5)) {
                path = at.clone();
                path.push(name.clone());
            }
            nodes.insert(path.clone(), (real.clone(), v.clone()));
            let ver = &pkg.versions[&v];
            let mut ds: BTreeMap<String, String> = ver.deps.iter().cloned().collect();
            ds.extend(ver.opt.iter().cloned());
            q.push((path, ds.into_iter().collect()));
        }
    }
    Some(
        nodes
            .into_iter()
            .map(|(path, (pkg, version))| Node { path, pkg, version })
            .collect(),
    )
}

/// Every dependency of every node is reachable (npm's trees are valid).
fn tree_ok(reg: &Registry, mani: &Mani, nodes: &[Node]) -> bool {
    let m: BTreeMap<&Vec<String>, &Node> = nodes.iter().map(|n| (&n.path, n)).collect();
    let mut used: BTreeSet<Vec<String>> = BTreeSet::new();
    let mut check = |at: &[String], deps: Vec<(String, String)>| -> bool {
        deps.iter().all(|(name, spec)| {
            let (real, range) = target_of(name, spec);
            let mut look = at.to_vec();
            loop {
                let mut f = look.clone();
                f.push(name.clone());
                if let Some(n) = m.get(&f) {
                    used.insert(f);
                    return n.pkg == real && spec_ok(&reg.pkgs[&real], &range, &n.version);
                }
                if look.pop().is_none() {
                    return false;
                }
            }
        })
    };
    if !check(&[], mani.all().into_iter().collect()) {
        return false;
    }
    for n in nodes {
        let v = &reg.pkgs[&n.pkg].versions[&n.version];
        let mut d: BTreeMap<String, String> = v.deps.iter().cloned().collect();
        d.extend(v.opt.iter().cloned());
        if !check(&n.path, d.into_iter().collect()) {
            return false;
        }
    }
    // A copy of just what would be found without it can be left out.
    let redundant = nodes.iter().any(|n| {
        let mut up = n.path[..n.path.len() - 1].to_vec();
        while up.pop().is_some() {
            let mut f = up.clone();
            f.push(n.path.last().unwrap().clone());
            if let Some(o) = m.get(&f) {
                return o.pkg == n.pkg && o.version == n.version;
            }
        }
        false
    });
    used.len() == nodes.len() && !redundant
}

fn r05(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let o = RegOpts::default();
    let reg = gen_registry(src, &o);
    let mani = gen_mani(src, &reg, &o, 4);
    let Some(nodes) = npm_tree(src, &reg, &mani) else {
        ctx.label("no finite tree");
        return Ok(());
    };
    if !tree_ok(&reg, &mani, &nodes) {
        ctx.label("no valid tree");
        return Ok(());
    }
    let version = *src.pick(&[2, 3]);
    let file = *src.pick(&["package-lock.json", "package-lock.json", "npm-shrinkwrap.json"]);
    ctx.note(format!("manifest {}", mani.json()));
    ctx.note(describe_registry(&reg));
    let srv = Server::start(reg.clone());
    // Some tarballs are only known by the lockfile's location.
    let mut mirror: BTreeMap<String, Vec<u8>> = BTreeMap::new();
    let mut packages = Map::new();
    let mut root = Map::new();
    root.insert("name".into(), json!("proj"));
    root.insert("version".into(), json!("1.0.0"));
    for (k, m) in [
        ("dependencies", &mani.deps),
        ("devDependencies", &mani.dev),
        ("optionalDependencies", &mani.opt),
    ] {
        if !m.is_empty() {
            root.insert(k.into(), json!(m));
        }
    }
    packages.insert("".into(), Value::Object(root));
    let mut sources: BTreeMap<Vec<String>, String> = BTreeMap::new();
    for n in &nodes {
        let ver = &reg.pkgs[&n.pkg].versions[&n.version];
        let mut e = Map::new();
        if n.path.last().unwrap() != &n.pkg {
            e.insert("name".into(), json!(n.pkg));
        }
        e.insert("version".into(), json!(n.version));
        let url = if src.chance(1, 4) {
            let p = format!("/mirror/{}-{}.tgz", n.pkg.replace('/', "_"), n.version);
            mirror.insert(p.clone(), ver.tarball.clone());
            format!("{}{p}", srv.base)
        } else {
            tarball_url(&srv.base, &n.pkg, &n.version)
        };
        sources.insert(n.path.clone(), url.clone());
        e.insert("resolved".into(), json!(url));
        e.insert("integrity".into(), json!(ver.integrity));
        let mut deps: BTreeMap<String, String> = ver.deps.iter().cloned().collect();
        let opt: BTreeMap<String, String> = ver.opt.iter().cloned().collect();
        deps.retain(|k, _| !opt.contains_key(k));
        if !deps.is_empty() {
            e.insert("dependencies".into(), json!(deps));
        }
        if !opt.is_empty() {
            e.insert("optionalDependencies".into(), json!(opt));
        }
        // what npm also writes
        if src.chance(1, 3) {
            e.insert("license".into(), json!("MIT"));
            e.insert("engines".into(), json!({"node": ">=6"}));
        }
        if src.chance(1, 4) {
            e.insert("dev".into(), json!(true));
        }
        if src.chance(1, 4) {
            e.insert("optional".into(), json!(true));
            e.insert("hasInstallScript".into(), json!(true));
        }
        if src.chance(1, 4) {
            e.insert("funding".into(), json!([{"url": "https://x"}, "y"]));
            e.insert("os".into(), json!(["linux"]));
            e.insert("bin".into(), json!({"x": "y"}));
        }
        let key: String = n
            .path
            .iter()
            .map(|s| format!("node_modules/{s}"))
            .collect::<Vec<_>>()
            .join("/");
        packages.insert(key, Value::Object(e));
    }
    let mut lock = Map::new();
    lock.insert("name".into(), json!("proj"));
    lock.insert("version".into(), json!("1.0.0"));
    lock.insert("lockfileVersion".into(), json!(version));
    lock.insert("requires".into(), json!(true));
    lock.insert("packages".into(), Value::Object(packages));
    if version == 2 {
        lock.insert("dependencies".into(), json!({"a": {"version": "9.9.9"}}));
    }
    let m2 = mirror.clone();
    *srv.sh.handler.lock().unwrap() = Some(Arc::new(move |r: &Req| {
        m2.get(&r.path).map(|b| {
            (
                200,
                vec![("content-type".to_string(), "application/octet-stream".to_string())],
                b.clone(),
            )
        })
    }));
    let p = Proj::new(&ctx.scratch(), &srv.base);
    p.write_manifest(&mani.json());
    let text = serde_json::to_string_pretty(&Value::Object(lock)).unwrap();
    std::fs::write(p.dir.join(file), &text).unwrap();
    let hoisted = src.bool();
    ctx.note(format!(
        "{file} hoisted={hoisted}: {:?}",
        nodes
            .iter()
            .map(|n| format!("{} = {}@{}", n.path.join(">"), n.pkg, n.version))
            .collect::<Vec<_>>()
    ));
    srv.set_order(Some(src.u64()));
    p.run_ok(apply_args(hoisted), Some(&srv), "apply-failed")?;
    check_tree(&p.dir, &reg, &mani)?;
    let (_, got) = lock_of(&p, "apply")?;
    let a: BTreeMap<Vec<String>, (String, String)> = got
        .pkgs
        .iter()
        .map(|(k, e)| {
            (
                k.clone(),
                (
                    e.version.clone().unwrap_or_default(),
                    e.resolved.clone().unwrap_or_default(),
                ),
            )
        })
        .collect();
    let b: BTreeMap<Vec<String>, (String, String)> = nodes
        .iter()
        .map(|n| (n.path.clone(), (n.version.clone(), sources[&n.path].clone())))
        .collect();
    ensure!(
        a == b,
        "npm-lock-ignored",
        "installed {a:?}\ninstead of the {file}'s {b:?}"
    );
    check_lock_tree(&p.dir, &got, hoisted)?;
    ensure!(
        p.read(file).as_ref().map(|s| s.as_str()) == Some(text.as_str()),
        "npm-lock-changed",
        "{file} was changed"
    );
    let newest = |n: &Node| {
        reg.pkgs[&n.pkg]
            .versions
            .keys()
            .max_by_key(|v| key(v))
            .unwrap()
            != &n.version
    };
    ctx.nontrivial = nodes.len() >= 3 && nodes.iter().any(newest);
    ctx.label(format!("v{version}"));
    Ok(())
}

// ---------------------------------------------------------------- R06

fn copy_all(from: &Path, to: &Path) {
    let _ = std::fs::remove_dir_all(to);
    let ok = std::process::Command::new("cp")
        .arg("-a")
        .arg(from)
        .arg(to)
        .status()
        .map(|s| s.success())
        .unwrap_or(false);
    assert!(ok, "cp");
}

fn r06(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let o = RegOpts {
        max_pkgs: 6,
        tags_as_specs: true,
        bins: true,
        ..Default::default()
    };
    let mut reg = gen_registry(src, &o);
    let mut mani = gen_mani(src, &reg, &o, 3);
    let hoisted = src.bool();
    ctx.note(format!("manifest {}", mani.json()));
    ctx.note(describe_registry(&reg));
    let srv = Server::start(reg.clone());
    let mut p = Proj::new(&ctx.scratch(), &srv.base);
    p.write_manifest(&mani.json());
    // state to start from
    let state = src.below(5);
    if state > 0 {
        p.run_ok(apply_args(hoisted), Some(&srv), "apply-failed")?;
        if src.chance(1, 3) {
            let new = drift(src, &mut reg, &o);
            srv.reg(|r| *r = reg.clone());
            ctx.note(format!("publish {new:?}"));
            ctx.note(describe_registry(&reg));
        }
        match state {
            1 => {}
            2 => {
                add_root_dep(src, &reg, &o, &mut mani);
                p.write_manifest(&mani.json());
            }
            3 => {
                let ks: Vec<String> = mani.all().keys().cloned().collect();
                let k = src.pick(&ks).clone();
                if mani.len() > 1 {
                    mani.remove(&k);
                }
                p.write_manifest(&mani.json());
            }
            _ => {
                let _ = std::fs::remove_file(p.dir.join("package-lock.kdl"));
            }
        }
        if src.chance(1, 3) {
            let _ = std::fs::remove_dir_all(p.dir.join("node_modules"));
        }
    }
    // what to do
    let command: Vec<String> = match src.below(5) {
        0 if !reg.pkgs.is_empty() => {
            let names: Vec<String> = reg.pkgs.keys().cloned().collect();
            vec!["add".into(), src.pick(&names).clone()]
        }
        1 if mani.len() > 0 => {
            let ks: Vec<String> = mani.all().keys().cloned().collect();
            vec!["remove".into(), src.pick(&ks).clone()]
        }
        2 => vec!["reapply".into()],
        _ => vec!["apply".into()],
    };
    let mut cmd: Vec<&str> = command.iter().map(|s| s.as_str()).collect();
    if hoisted {
        cmd.push("--hoisted");
    }
    let one = match cmd[0] {
        "apply" => *src.pick(&["--lockfile-only", "--no-lockfile", "--locked", "--frozen"]),
        // apply and reapply override --no-apply, on purpose
        "reapply" => *src.pick(&["--lockfile-only", "--no-lockfile"]),
        _ => *src.pick(&["--lockfile-only", "--no-lockfile", "--no-apply"]),
    };
    // and sometimes others with it
    let mut switches = vec![one];
    if src.chance(1, 3) {
        for (s, cmds) in [
            ("--lockfile-only", "apply reapply add remove"),
            ("--no-lockfile", "apply reapply add remove"),
            ("--locked", "apply"),
            ("--no-apply", "add remove"),
        ] {
            if cmds.split(' ').any(|c| c == cmd[0]) && !switches.contains(&s) && !(s == "--locked" && one == "--frozen") && src.chance(1, 2) {
                switches.push(s);
            }
        }
    }
    let has = |s: &str| switches.contains(&s);
    ctx.note(format!("state {state} {} then {cmd:?} {switches:?}", mani.json()));
    ctx.label(switches.join(" "));
    // the plain command, on a copy
    let plain = ctx.scratch().join("plain");
    copy_all(&p.dir, &plain);
    let mut q = Proj::new(&ctx.scratch().join("other"), &srv.base);
    q.dir = plain.clone();
    let before = snapshot(&p.dir);
    let lock0 = p.read("package-lock.kdl");
    let full = q.run(&cmd, Some(&srv))?;
    ensure!(!full.deadlock, "deadlock", "{}", full.tail());
    let mut args = cmd.clone();
    args.extend(&switches);
    let out = p.run(&args, Some(&srv))?;
    ensure!(!out.panicked() && !out.deadlock, "panic", "{}", out.tail());
    let after = snapshot(&p.dir);
    let nm = |s: &Snap| -> Snap {
        s.iter()
            .filter(|(k, _)| k.starts_with("node_modules"))
            .map(|(a, b)| (a.clone(), b.clone()))
            .collect()
    };
    if !full.ok() {
        ctx.label("plain command fails");
        return Ok(());
    }
    let lock1 = p.read("package-lock.kdl");
    let want_lock = q.read("package-lock.kdl");
    if has("--no-apply") {
        ensure!(out.ok(), "switch-failed", "{args:?}: {}", out.tail());
        let strip = |s: &Snap| -> Snap {
            let mut s = s.clone();
            s.remove("package.json");
            s
        };
        let d = diff_snap(&strip(&before), &strip(&after));
        ensure!(d.is_empty(), "no-apply-touched", "{args:?} changed {d:?}");
        ensure!(
            p.read("package.json") == q.read("package.json"),
            "manifest-differs",
            "{args:?}"
        );
        ctx.nontrivial = before != snapshot(&plain);
        return Ok(());
    }
    if has("--locked") || has("--frozen") {
        match &lock0 {
            None => {
                ctx.label("locked without lockfile");
                if switches.len() == 1 {
                    return Ok(());
                }
            }
            Some(l) if want_lock.as_ref() == Some(l) => {
                ctx.label("locked, current");
                ctx.nontrivial = true;
                ensure!(
                    out.ok(),
                    "locked-refused",
                    "{args:?} fails although the lockfile is current: {}",
                    out.tail()
                );
            }
            Some(_) => {
                ctx.label("locked, outdated");
                ctx.nontrivial = true;
                ensure!(
                    !out.ok(),
                    "locked-accepted",
                    "{args:?} succeeds although the lockfile is outdated"
                );
                let d = diff_snap(&before, &after);
                ensure!(d.is_empty(), "locked-touched", "{args:?} failed but changed {d:?}");
                return Ok(());
            }
        }
    }
    ensure!(out.ok(), "switch-failed", "{args:?}: {}", out.tail());
    ensure!(
        p.read("package.json") == q.read("package.json"),
        "manifest-differs",
        "{args:?}"
    );
    if has("--lockfile-only") {
        let d = diff_snap(&nm(&before), &nm(&after));
        if cmd[0] != "reapply" {
            ensure!(
                d.is_empty(),
                "lockfile-only-touched",
                "{args:?} changed node_modules: {d:?}"
            );
        }
        ctx.nontrivial |= nm(&before) != nm(&snapshot(&plain));
    } else {
        let d = diff_snap(&tree_snap(&p.dir), &tree_snap(&plain));
        ensure!(
            d.is_empty(),
            "switch-tree",
            "{args:?} installed something else: {d:?}"
        );
    }
    if has("--no-lockfile") {
        ensure!(
            lock1 == lock0,
            "no-lockfile-touched",
            "{args:?} changed the lockfile"
        );
        ctx.nontrivial |= want_lock != lock0;
    } else {
        ensure!(
            lock1 == want_lock,
            "lockfile-differs",
            "{args:?} wrote\n{}\ninstead of\n{}",
            lock1.unwrap_or_default(),
            want_lock.unwrap_or_default()
        );
    }
    Ok(())
}

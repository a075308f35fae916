//! Lifecycle scripts: what ran, how often, in which order, and what a failure does.
use super::linker::apply_args;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::proj::*;
use crate::registry::*;
use crate::tree::*;
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "A05",
            rule: "random registry whose packages have recording install scripts (with delays, noisy output and calls of dependencies' executables), history of 1-3 applies in either layout with a script concurrency of 1-8; non-trivial: >= 4 scripts ran and some pair of them had to be ordered",
            level: "exploration",
            quick: 500,
            thorough: 6000,
            threads: 8,
            shrink: 60,
            case: a05,
            fixed: vec![],
            assumptions: vec!["scripts that depend on each other in a cycle may run in any order"],
        },
        Check {
            id: "A06",
            rule: "random registry with optional and required dependencies and 1-3 failing scripts (exit codes, signals, missing commands), first or later apply or add in either layout, then repaired and applied again; non-trivial: a failing script was due to run",
            level: "fault_enumeration",
            quick: 600,
            thorough: 8000,
            threads: 8,
            shrink: 60,
            case: a06,
            fixed: vec![],
            assumptions: vec![],
        },
    ]
}

const EVENTS: &[&str] = &["preinstall", "install", "postinstall"];

fn bin_of(name: &str) -> String {
    format!("{}-bin", name.replace('@', "").replace('/', "-"))
}

fn opts() -> RegOpts {
    RegOpts {
        aliases: false,
        tags_as_specs: true,
        max_pkgs: 6,
        ..Default::default()
    }
}

/// Shell text around `body` that records start and end.
fn record(ev: &str, body: &str) -> String {
    format!(
        "printf 'S %s %s\\n' {ev} \"$(pwd -P)\" >>\"$EVLOG\"; {body} printf 'E %s %s\\n' {ev} \"$(pwd -P)\" >>\"$EVLOG\""
    )
}

#[derive(Debug, Clone, PartialEq)]
enum Ev {
    Start,
    End,
    Tool(String, String),
}
type Events = Vec<(Ev, String, PathBuf)>;

fn read_events(f: &Path) -> Events {
    let t = std::fs::read_to_string(f).unwrap_or_default();
    t.lines()
        .filter_map(|l| {
            let w: Vec<&str> = l.split(' ').collect();
            match w.as_slice() {
                ["S", e, d] => Some((Ev::Start, e.to_string(), d.into())),
                ["E", e, d] => Some((Ev::End, e.to_string(), d.into())),
                ["T", e, d, n, v] => Some((
                    Ev::Tool(n.to_string(), v.to_string()),
                    e.to_string(),
                    d.into(),
                )),
                _ => None,
            }
        })
        .collect()
}

/// Which installed packages does each one depend on directly?
fn edges(
    root: &Path,
    reg: &Registry,
    seen: &BTreeMap<PathBuf, Inst>,
    mani: &Mani,
) -> BTreeMap<PathBuf, Vec<(String, PathBuf, bool)>> {
    let mut out = BTreeMap::new();
    let find = |d: &Path, n: &str, opt: bool| {
        node_lookup(d, n, root).map(|t| (n.to_string(), t, opt))
    };
    for (d, i) in seen {
        let v = &reg.pkgs[&i.name].versions[&i.version];
        let mut e = vec![];
        for (n, _) in &v.deps {
            let o = v.opt.iter().any(|x| x.0 == *n);
            e.extend(find(d, n, o));
        }
        for (n, _) in &v.opt {
            e.extend(find(d, n, true));
        }
        out.insert(d.clone(), e);
    }
    let mut e = vec![];
    for n in mani.deps.keys().chain(mani.dev.keys()) {
        e.extend(find(root, n, false));
    }
    for n in mani.opt.keys() {
        e.extend(find(root, n, true));
    }
    out.insert(root.to_path_buf(), e);
    out
}

fn reach(
    e: &BTreeMap<PathBuf, Vec<(String, PathBuf, bool)>>,
    from: &Path,
    through_opt: bool,
) -> BTreeSet<PathBuf> {
    let mut out = BTreeSet::new();
    let mut q = vec![from.to_path_buf()];
    while let Some(d) = q.pop() {
        for (_, t, o) in e.get(&d).into_iter().flatten() {
            if (through_opt || !o) && out.insert(t.clone()) {
                q.push(t.clone());
            }
        }
    }
    out
}

/// Packages that were not in place before.
fn newly(
    before: &BTreeMap<PathBuf, Inst>,
    after: &BTreeMap<PathBuf, Inst>,
) -> BTreeSet<PathBuf> {
    let same = |d: &Path| match (before.get(d), after.get(d)) {
        (Some(a), Some(b)) => a.name == b.name && a.version == b.version,
        (None, None) => true,
        _ => false,
    };
    after
        .keys()
        .filter(|d| !d.ancestors().all(same))
        .cloned()
        .collect()
}

fn a05(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let o = opts();
    let mut reg = gen_registry(src, &o);
    let names: Vec<String> = reg.pkgs.keys().cloned().collect();
    // one package whose executable has the name of a system tool
    let shadow = src.pick(&names).clone();
    for (n, p) in reg.pkgs.iter_mut() {
        for (v, ver) in p.versions.iter_mut() {
            let mut bins = vec![bin_of(n)];
            if *n == shadow {
                bins.push("cmp".into());
            }
            for b in bins {
                if src.chance(1, 5) && b != "cmp" {
                    continue;
                }
                ver.files.insert(
                    format!("bin/{b}"),
                    (format!("#!/bin/sh\necho {n}@{v}\n").into_bytes(), 0o755),
                );
                ver.bins.push((b.clone(), format!("bin/{b}")));
            }
        }
    }
    // A script may call what its package depends on.
    let all = reg.clone();
    for (n, p) in reg.pkgs.iter_mut() {
        for (v, ver) in p.versions.iter_mut() {
            for ev in EVENTS {
                if !src.chance(2, 5) {
                    continue;
                }
                let mut body = String::new();
                match src.below(12) {
                    0..=3 => body += &format!("sleep 0.0{};", src.range(1, 5)),
                    4 => body += "printf 'caf\\351 \\377\\n'; printf '\\200' >&2;",
                    5 => body += "head -c 150000 /dev/zero >&2; head -c 150000 /dev/zero;",
                    6 => body += "cat;",
                    7 => body += "printf 'no newline at the end';",
                    _ => {}
                }
                if *ev != "preinstall" {
                    for (d, _) in ver.deps.iter().chain(&ver.opt) {
                        // every version has to provide it
                        for b in [bin_of(d), "cmp".to_string()] {
                            let every = all.pkgs[d]
                                .versions
                                .values()
                                .all(|x| x.bins.iter().any(|y| y.0 == b));
                            if every && src.chance(2, 3) {
                                body += &format!(
                                    " printf 'T %s %s %s %s\\n' {ev} \"$(pwd -P)\" {d} \"$({b} 2>/dev/null || echo failed)\" >>\"$EVLOG\";"
                                );
                            }
                        }
                    }
                }
                ver.scripts.push((ev.to_string(), record(ev, &body)));
            }
            ver.files.remove("package.json");
            ver.seal(n, v);
        }
    }
    let mut mani = gen_mani(src, &reg, &o, 4);
    let hoisted = src.bool();
    let conc = *src.pick(&[1usize, 2, 6, 8]);
    ctx.note(format!("manifest {}", mani.json()));
    ctx.note(describe_registry(&reg));
    ctx.note(format!("hoisted={hoisted} script-concurrency={conc}"));
    let srv = Server::start(reg.clone());
    let mut p = Proj::new(&ctx.scratch(), &srv.base);
    p.common.push(format!("--script-concurrency={conc}"));
    let rounds = src.range(1, 3);
    let mut before = BTreeMap::new();
    let mut ran = 0;
    let mut ordered = 0;
    for round in 0..rounds {
        if round > 0 {
            match src.below(4) {
                0 => {}
                1 if mani.len() > 1 => {
                    let ks: Vec<String> = mani.all().keys().cloned().collect();
                    let k = src.pick(&ks).clone();
                    mani.remove(&k);
                }
                _ => add_root_dep(src, &reg, &o, &mut mani),
            }
            ctx.note(format!("round {round}: {}", mani.json()));
        }
        let log = ctx.scratch().join(format!("events{round}"));
        p.env = vec![("EVLOG".into(), log.display().to_string())];
        p.write_manifest(&mani.json());
        srv.set_order(Some(src.u64()));
        p.run_ok(apply_args(hoisted), Some(&srv), "apply-failed")?;
        let seen = check_tree(&p.dir, &reg, &mani)?;
        let evs = read_events(&log);
        let fresh = newly(&before, &seen);
        let e = edges(&p.dir, &reg, &seen, &mani);
        let rel = |x: &Path| x.strip_prefix(&p.dir).unwrap_or(x).display().to_string();
        // multiplicity
        let mut pos: BTreeMap<(PathBuf, String), (usize, usize)> = BTreeMap::new();
        let mut count: BTreeMap<(PathBuf, String), (usize, usize)> = BTreeMap::new();
        for (i, (k, ev, d)) in evs.iter().enumerate() {
            let c = count.entry((d.clone(), ev.clone())).or_default();
            let q = pos.entry((d.clone(), ev.clone())).or_default();
            match k {
                Ev::Start => {
                    c.0 += 1;
                    q.0 = i;
                }
                Ev::End => {
                    c.1 += 1;
                    q.1 = i;
                }
                Ev::Tool(..) => {}
            }
        }
        for d in &fresh {
            let i = &seen[d];
            for (ev, _) in &reg.pkgs[&i.name].versions[&i.version].scripts {
                let c = count
                    .get(&(d.clone(), ev.clone()))
                    .copied()
                    .unwrap_or_default();
                ensure!(
                    c == (1, 1),
                    "not-once",
                    "{ev} of newly installed {}@{} in {} started {} and finished {} times",
                    i.name,
                    i.version,
                    rel(d),
                    c.0,
                    c.1
                );
            }
        }
        for (d, ev) in count.keys() {
            ensure!(
                fresh.contains(d),
                "ran-again",
                "{ev} ran in {}, which was in place already (or is no package)",
                rel(d)
            );
        }
        ran += count.len();
        // order within a package
        for ((d, ev), (s, _)) in &pos {
            let at = EVENTS.iter().position(|x| x == ev).unwrap();
            for earlier in &EVENTS[..at] {
                if let Some((_, end)) = pos.get(&(d.clone(), earlier.to_string())) {
                    ensure!(end < s, "stage-order", "{ev} in {} before {earlier}", rel(d));
                }
            }
        }
        // order between packages
        let reaches: BTreeMap<&PathBuf, BTreeSet<PathBuf>> =
            seen.keys().map(|d| (d, reach(&e, d, true))).collect();
        for d in &fresh {
            for t in &reaches[d] {
                if t == d || !fresh.contains(t) || reaches[t].contains(d) {
                    continue;
                }
                for ev in EVENTS {
                    if let (Some((s, _)), Some((_, end))) = (
                        pos.get(&(d.clone(), ev.to_string())),
                        pos.get(&(t.clone(), ev.to_string())),
                    ) {
                        ordered += 1;
                        ensure!(
                            end < s,
                            "dependency-order",
                            "{ev} of {} started before that of its dependency {} had finished",
                            rel(d),
                            rel(t)
                        );
                    }
                }
            }
        }
        // concurrency
        let (mut now, mut max) = (0i64, 0i64);
        for (k, _, _) in &evs {
            match k {
                Ev::Start => now += 1,
                Ev::End => now -= 1,
                _ => {}
            }
            max = max.max(now);
        }
        ensure!(
            max <= conc as i64,
            "too-many",
            "{max} scripts ran at the same time with a limit of {conc}"
        );
        // executables of dependencies
        for (k, ev, d) in &evs {
            if let Ev::Tool(n, out) = k {
                let t = node_lookup(d, n, &p.dir).and_then(|t| seen.get(&t));
                let want = t.map(|i| format!("{}@{}", i.name, i.version));
                ensure!(
                    want.as_ref() == Some(out),
                    "wrong-tool",
                    "{ev} in {} calls the executable of its dependency {n} ({want:?}) but gets {out:?}",
                    rel(d)
                );
            }
        }
        before = seen;
    }
    ctx.nontrivial = ran >= 4 && ordered > 0;
    ctx.label(if hoisted { "hoisted" } else { "isolated" });
    Ok(())
}

fn a06(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let o = opts();
    let mut reg = gen_registry(src, &o);
    // more optional dependencies than usual
    for p in reg.pkgs.values_mut() {
        for v in p.versions.values_mut() {
            for i in (0..v.deps.len()).rev() {
                if src.chance(1, 4) {
                    let d = v.deps.remove(i);
                    v.opt.retain(|x| x.0 != d.0);
                    v.opt.push(d);
                }
            }
        }
    }
    let mut all: Vec<(String, String)> = vec![];
    for (n, p) in reg.pkgs.iter_mut() {
        for (v, ver) in p.versions.iter_mut() {
            for ev in EVENTS {
                if src.chance(1, 4) {
                    ver.scripts.push((ev.to_string(), record(ev, "")));
                }
            }
            all.push((n.clone(), v.clone()));
        }
    }
    let mut failing: BTreeSet<(String, String, String)> = BTreeSet::new();
    for _ in 0..src.range(1, 3) {
        let (n, v) = src.pick(&all).clone();
        let ev = src.pick(EVENTS).to_string();
        let how = src
            .pick(&[
                "exit 1",
                "exit 3",
                "exit 127",
                "exit 255",
                "kill -9 $$",
                "kill -TERM $$",
                "no-such-command-at-all || exit",
                "echo out; echo err >&2; exit 2",
                "printf '\\377'; exit 1",
            ])
            .to_string();
        let body = record(&ev, &format!("if [ -z \"$OKNOW\" ]; then {how}; fi;"));
        let ver = reg.pkgs.get_mut(&n).unwrap().versions.get_mut(&v).unwrap();
        ver.scripts.retain(|s| s.0 != ev);
        ver.scripts.push((ev.clone(), body));
        failing.insert((n, v, ev));
    }
    for (n, p) in reg.pkgs.iter_mut() {
        for (v, ver) in p.versions.iter_mut() {
            ver.files.remove("package.json");
            ver.seal(n, v);
        }
    }
    let mut mani = gen_mani(src, &reg, &o, 4);
    let hoisted = src.bool();
    ctx.note(format!("manifest {}", mani.json()));
    ctx.note(describe_registry(&reg));
    ctx.note(format!("hoisted={hoisted} failing {failing:?}"));
    let srv = Server::start(reg.clone());
    let mut p = Proj::new(&ctx.scratch(), &srv.base);
    let sc = ctx.scratch();
    let evlog = |r: &str| sc.join(format!("ev-{r}"));
    let env = |r: &str, ok: bool| {
        let mut e = vec![("EVLOG".to_string(), evlog(r).display().to_string())];
        if ok {
            e.push(("OKNOW".into(), "1".into()));
        }
        e
    };
    let due_of = |scope: &BTreeSet<PathBuf>, seen: &BTreeMap<PathBuf, Inst>| -> Vec<(PathBuf, String)> {
        scope
            .iter()
            .flat_map(|d| {
                let i = &seen[d];
                failing
                    .iter()
                    .filter(|f| f.0 == i.name && f.1 == i.version)
                    .map(|f| (d.clone(), f.2.clone()))
                    .collect::<Vec<_>>()
            })
            .collect()
    };
    // An earlier install, in which everything works.
    let mut before = BTreeMap::new();
    let mut add: Option<(String, String)> = None;
    if src.chance(1, 3) {
        p.env = env("first", true);
        p.write_manifest(&mani.json());
        p.run_ok(apply_args(hoisted), Some(&srv), "apply-failed")?;
        before = check_tree(&p.dir, &reg, &mani)?;
        if src.bool() {
            // by command
            let names: Vec<String> = reg
                .pkgs
                .keys()
                .filter(|n| !mani.all().contains_key(*n))
                .cloned()
                .collect();
            if !names.is_empty() {
                let n = src.pick(&names).clone();
                let vs: Vec<String> = reg.pkgs[&n].versions.keys().cloned().collect();
                let v = src.pick(&vs).clone();
                let k = src.below(3);
                ctx.note(format!("add {n}@{v} kind {k}"));
                match k {
                    0 => mani.deps.insert(n.clone(), format!("^{v}")),
                    1 => mani.dev.insert(n.clone(), format!("^{v}")),
                    _ => mani.opt.insert(n.clone(), format!("^{v}")),
                };
                add = Some((format!("{n}@{v}"), ["", "--dev", "--opt"][k as usize].into()));
            }
        }
        if add.is_none() {
            add_root_dep(src, &reg, &o, &mut mani);
            p.write_manifest(&mani.json());
            ctx.note(format!("then {}", mani.json()));
        }
    } else {
        p.write_manifest(&mani.json());
    }
    // What the tree will be: the same operation with scripts disabled, on a copy.
    let lock0 = p.read("package-lock.kdl");
    let mani0 = p.read("package.json");
    let mut q = Proj::new(&sc.join("dry"), &srv.base);
    for (f, t) in [("package-lock.kdl", &lock0), ("package.json", &mani0)] {
        if let Some(t) = t {
            std::fs::write(q.dir.join(f), t).unwrap();
        }
    }
    let args: Vec<String> = match &add {
        Some((s, k)) => {
            let mut a = vec!["add".to_string(), s.clone()];
            if !k.is_empty() {
                a.push(k.clone());
            }
            if hoisted {
                a.push("--hoisted".into());
            }
            a
        }
        None => apply_args(hoisted).iter().map(|s| s.to_string()).collect(),
    };
    let args: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let mut noscripts = args.clone();
    noscripts.push(*src.pick(&["--no-scripts", "--ignore-scripts"]));
    q.env = env("dry", false);
    q.run_ok(&noscripts, Some(&srv), "no-scripts-failed")?;
    ensure!(
        read_events(&evlog("dry")).is_empty(),
        "scripts-not-disabled",
        "{noscripts:?} ran {:?}",
        read_events(&evlog("dry"))
    );
    let dry_seen: BTreeMap<PathBuf, Inst> = check_tree(&q.dir, &reg, &mani)?
        .into_iter()
        .map(|(d, i)| (p.dir.join(d.strip_prefix(&q.dir).unwrap()), i))
        .collect();
    let required = {
        let s: BTreeMap<PathBuf, Inst> = dry_seen
            .iter()
            .map(|(d, i)| (q.dir.join(d.strip_prefix(&p.dir).unwrap()), i.clone()))
            .collect();
        let e = edges(&q.dir, &reg, &s, &mani);
        reach(&e, &q.dir, false)
            .into_iter()
            .map(|d| p.dir.join(d.strip_prefix(&q.dir).unwrap()))
            .collect::<BTreeSet<_>>()
    };
    let fresh = newly(&before, &dry_seen);
    let due = due_of(&fresh, &dry_seen);
    let must_fail: Vec<_> = due.iter().filter(|(d, _)| required.contains(d)).collect();
    ctx.nontrivial = !due.is_empty();
    // Now with scripts.
    p.env = env("main", false);
    srv.set_order(Some(src.u64()));
    let out = p.run(&args, Some(&srv))?;
    ensure!(!out.deadlock, "deadlock", "never finishes: {}", out.tail());
    ensure!(!out.panicked(), "panic", "{}", out.tail());
    let evs = read_events(&evlog("main"));
    if !must_fail.is_empty() {
        ctx.label("required script fails");
        ensure!(
            !out.ok(),
            "failure-ignored",
            "{must_fail:?} failed and are required, but oro reports success"
        );
        ensure!(
            !out.stderr.trim().is_empty(),
            "no-error",
            "nothing reported: {}",
            out.tail()
        );
        ensure!(
            p.read("package-lock.kdl") == lock0,
            "lockfile-written",
            "the failed command changed the lockfile"
        );
        ensure!(
            p.read("package.json") == mani0,
            "manifest-written",
            "the failed command changed package.json"
        );
        // Once repaired, the next apply completes.
        if add.is_some() {
            p.env = env("main2", true);
            p.run_ok(&args, Some(&srv), "next-apply-failed")?;
        } else {
            p.env = env("main2", true);
            p.run_ok(apply_args(hoisted), Some(&srv), "next-apply-failed")?;
        }
        let seen = check_tree(&p.dir, &reg, &mani)?;
        let mut done: BTreeSet<(PathBuf, String)> = BTreeSet::new();
        for (k, ev, d) in evs.iter().chain(&read_events(&evlog("main2"))).chain(&read_events(&evlog("first"))) {
            if *k == Ev::End {
                done.insert((d.clone(), ev.clone()));
            }
        }
        for (d, i) in &seen {
            for (ev, _) in &reg.pkgs[&i.name].versions[&i.version].scripts {
                ensure!(
                    done.contains(&(d.clone(), ev.clone())),
                    "never-run",
                    "{ev} of {}@{} has never succeeded, although the apply after the failed one did",
                    i.name,
                    i.version
                );
            }
        }
    } else {
        ctx.label(if due.is_empty() { "nothing fails" } else { "optional script fails" });
        ensure!(
            out.ok(),
            "optional-failure",
            "only scripts of optional packages ({due:?}) fail, but so does oro: {}",
            out.tail()
        );
        ensure!(
            p.read("package-lock.kdl").is_some(),
            "no-lockfile",
            "no lockfile"
        );
        ensure!(
            p.read("package-lock.kdl") == q.read("package-lock.kdl"),
            "lock-differs",
            "with and without scripts:\n{}\n{}",
            p.read("package-lock.kdl").unwrap_or_default(),
            q.read("package-lock.kdl").unwrap_or_default()
        );
        // everything else ran
        let done: BTreeSet<(PathBuf, String)> = evs
            .iter()
            .filter(|e| e.0 == Ev::End)
            .map(|e| (e.2.clone(), e.1.clone()))
            .collect();
        for d in &fresh {
            let i = &dry_seen[d];
            if due.iter().any(|x| x.0 == *d) {
                continue;
            }
            for (ev, _) in &reg.pkgs[&i.name].versions[&i.version].scripts {
                ensure!(
                    done.contains(&(d.clone(), ev.clone())),
                    "script-skipped",
                    "{ev} of {}@{} did not run",
                    i.name,
                    i.version
                );
            }
        }
    }
    Ok(())
}

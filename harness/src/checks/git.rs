//! G01: git and folder packages.
use crate::engine::*;
use crate::ensure;
use crate::proj::*;
use crate::registry::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::Arc;

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "G01",
        rule: "git repositories with random histories, branches, tags (plain and annotated, versions with and without v and path prefixes) and default branch, over file and http; each is referred to by nothing, branch, tag, commit, version range or something that isn't there, viewed, added, and resolved as a dependency (also of a registry package, also under another name); then history moves on and it's done again; non-trivial: the reference isn't the tip of the default branch",
        level: "exploration",
        quick: 260,
        thorough: 4000,
        threads: 8,
        shrink: 80,
        case: g01,
        fixed: vec![],
        assumptions: vec![
            "git's own clone and checkout are right; the model knows which commit each reference stands for from building the repository.",
            "Names of branches and tags don't coincide, and the ranges used are ones whose meaning isn't disputed.",
        ],
    }]
}

#[derive(Clone, Debug, Default)]
struct Commit {
    branch: String,
    parent: Option<usize>,
    manifest: Value,
    /// files besides package.json
    files: Vec<String>,
}

#[derive(Clone, Debug, Default)]
struct Repo {
    commits: Vec<Commit>,
    sha: Vec<String>,
    default: String,
    /// branch -> its tip
    branches: BTreeMap<String, usize>,
    tags: BTreeMap<String, (usize, bool)>,
}

const BRANCHES: &[&str] = &["main", "dev", "next", "feature/x", "v2", "release-1.x", "1.x"];
const TAGS: &[&str] = &["stable", "nightly-2020", "v1", "1.2", "rel/last", "latest"];

/// A version that stands for this tag, if any.
fn tag_version(t: &str) -> Option<Vec<u64>> {
    let t = t.rsplit('/').next().unwrap();
    let t = t.strip_prefix('v').unwrap_or(t);
    let v: Option<Vec<u64>> = t.split('.').map(|p| p.parse().ok()).collect();
    v.filter(|v| v.len() == 3)
}

fn manifest(src: &mut Src, name: &str, i: usize) -> Value {
    let mut m = json!({
        "name": name,
        "version": format!("{}.{}.{}", src.below(3), src.below(4), i),
        "description": format!("commit {i}"),
        // Nothing of the repository may run just to read it.
        "scripts": {"prepare": "touch ../../ran ran", "postinstall": "touch ../../ran ran", "install": "touch ran"},
    });
    let mut deps = serde_json::Map::new();
    for d in ["d0", "d1", "@s/d2"] {
        if src.chance(1, 3) {
            let s = src.pick(&["1.0.0", "^1.0.0", "2", "*"]).to_string();
            deps.insert(d.into(), s.into());
        }
    }
    if !deps.is_empty() {
        m["dependencies"] = deps.into();
    }
    m
}

fn commit(src: &mut Src, r: &mut Repo, name: &str) {
    let i = r.commits.len();
    let taken: BTreeSet<String> = r.tags.keys().cloned().collect();
    let (branch, parent) = if i == 0 {
        (r.default.clone(), None)
    } else {
        let b = src.pick(BRANCHES).to_string();
        let b = if taken.contains(&b) || src.chance(1, 3) { r.default.clone() } else { b };
        let p = r.branches.get(&b).copied().unwrap_or_else(|| src.usize(i));
        (b, Some(p))
    };
    let mut files = vec![];
    if src.chance(1, 3) {
        // Things that could be taken for a reference.
        files.push(src.pick(&["dev", "next/file", "stable", "docs/x", "v1.0.0", "1.x/y"]).to_string());
    }
    // A file and a folder at the same place won't do.
    let mut anc = parent;
    while let Some(a) = anc {
        files.retain(|f| !r.commits[a].files.iter().any(|g| g.split('/').next() == f.split('/').next() && g != f));
        anc = r.commits[a].parent;
    }
    let manifest = manifest(src, name, i);
    r.branches.insert(branch.clone(), i);
    r.commits.push(Commit { branch, parent, manifest, files });
}

fn tag(src: &mut Src, r: &mut Repo) {
    let t = if src.chance(1, 4) {
        src.pick(TAGS).to_string()
    } else {
        let a = src.below(3);
        let b = src.below(3);
        let c = *src.pick(&[0u64, 1, 9, 10]);
        let pre = src.pick(&["", "v", "v", "pkg/", "pkg/v"]).to_string();
        let post = if src.chance(1, 6) { "-rc.1" } else { "" };
        format!("{pre}{a}.{b}.{c}{post}")
    };
    // One tag per version, and git doesn't allow t and t/x.
    let v = tag_version(&t);
    if r.branches.contains_key(&t)
        || r.tags.keys().any(|o| *o == t || (v.is_some() && tag_version(o) == v) || o.starts_with(&format!("{t}/")) || t.starts_with(&format!("{o}/")))
    {
        return;
    }
    let c = src.usize(r.commits.len());
    let annotated = src.bool();
    r.tags.insert(t, (c, annotated));
}

fn git(dir: &Path, home: &Path, args: &[&str], input: Option<&[u8]>) -> Result<String, Stop> {
    let mut c = Command::new("git")
        .args(args)
        .current_dir(dir)
        .env_clear()
        .env("PATH", "/usr/local/bin:/usr/bin:/bin")
        .env("HOME", home)
        .env("GIT_CONFIG_NOSYSTEM", "1")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .map_err(|e| Stop::Infra(format!("git: {e}")))?;
    {
        let mut i = c.stdin.take().unwrap();
        let _ = i.write_all(input.unwrap_or(b""));
    }
    let o = c.wait_with_output().map_err(|e| Stop::Infra(format!("git: {e}")))?;
    if !o.status.success() {
        return Err(Stop::Infra(format!("git {args:?}: {}", String::from_utf8_lossy(&o.stderr))));
    }
    Ok(String::from_utf8_lossy(&o.stdout).into_owned())
}

/// Writes the commits from `from` on, and all refs.
fn publish(r: &mut Repo, dir: &Path, home: &Path) -> Result<(), Stop> {
    if !dir.exists() {
        std::fs::create_dir_all(dir).unwrap();
        git(dir, home, &["init", "-q", "--bare", "-b", &r.default.clone(), "."], None)?;
    }
    let mut s: Vec<u8> = vec![];
    let from = r.sha.len();
    let put = |s: &mut Vec<u8>, d: &str| s.extend(format!("data {}\n{d}\n", d.len()).bytes());
    for (i, c) in r.commits.iter().enumerate().skip(from) {
        s.extend(format!("commit refs/heads/{}\nmark :{}\n", c.branch, i + 1).bytes());
        s.extend(format!("committer A <a@example.com> {} +0000\n", 1_600_000_000 + i).bytes());
        put(&mut s, &format!("c{i}"));
        if let Some(p) = c.parent {
            if p < from {
                s.extend(format!("from {}\n", r.sha[p]).bytes());
            } else {
                s.extend(format!("from :{}\n", p + 1).bytes());
            }
        }
        s.extend(b"M 644 inline package.json\n");
        put(&mut s, &c.manifest.to_string());
        for f in &c.files {
            s.extend(format!("M 644 inline {f}\n").bytes());
            put(&mut s, f);
        }
    }
    let at = |i: usize| if i < from { r.sha[i].clone() } else { format!(":{}", i + 1) };
    for (b, i) in &r.branches {
        s.extend(format!("reset refs/heads/{b}\nfrom {}\n\n", at(*i)).bytes());
    }
    for (t, (i, annotated)) in &r.tags {
        if *annotated {
            s.extend(format!("tag {t}\nfrom {}\ntagger A <a@example.com> 1600000000 +0000\n", at(*i)).bytes());
            put(&mut s, "tagged");
        } else {
            s.extend(format!("reset refs/tags/{t}\nfrom {}\n\n", at(*i)).bytes());
        }
    }
    let marks = home.join("marks");
    git(dir, home, &["fast-import", "--quiet", "--force", &format!("--export-marks={}", marks.display())], Some(&s))?;
    let text = std::fs::read_to_string(&marks).unwrap_or_default();
    let m: BTreeMap<usize, String> = text
        .lines()
        .filter_map(|l| l.strip_prefix(':')?.split_once(' '))
        .filter_map(|(a, b)| Some((a.parse().ok()?, b.to_string())))
        .collect();
    for i in from..r.commits.len() {
        let Some(x) = m.get(&(i + 1)) else {
            return Err(Stop::Infra("no mark".into()));
        };
        r.sha.push(x.clone());
    }
    git(dir, home, &["update-server-info"], None)?;
    Ok(())
}

/// A reference, and the commits it may stand for (none: it can't be resolved).
fn reference(src: &mut Src, r: &Repo) -> (String, Vec<usize>) {
    match src.below(16) {
        0 => (String::new(), vec![r.branches[&r.default]]),
        1 | 2 => {
            let bs: Vec<&String> = r.branches.keys().collect();
            let b = (*src.pick(&bs)).clone();
            (format!("#{b}"), vec![r.branches[&b]])
        }
        3 | 4 => {
            let ts: Vec<&String> = r.tags.keys().collect();
            if ts.is_empty() {
                return (String::new(), vec![r.branches[&r.default]]);
            }
            let t = (*src.pick(&ts)).clone();
            (format!("#{t}"), vec![r.tags[&t].0])
        }
        5 | 6 => {
            let i = src.usize(r.commits.len());
            let n = *src.pick(&[40usize, 12]);
            (format!("#{}", &r.sha[i][..n]), vec![i])
        }
        7 | 8 => {
            // not there, but there may be such a file
            let missing = src
                .pick(&["nope", "package.json", "dev", "docs", "next", "stable", "v1.0.0", "docs/x", "0123456789012345678901234567890123456789", "--detach", "-f", "main~99"])
                .to_string();
            let there = r.branches.contains_key(&missing) || r.tags.contains_key(&missing);
            if there {
                let i = r.branches.get(&missing).copied().unwrap_or_else(|| r.tags[&missing].0);
                return (format!("#{missing}"), vec![i]);
            }
            (format!("#{missing}"), vec![])
        }
        _ => {
            let v = [src.below(3), src.below(3), *src.pick(&[0u64, 1, 9, 10])];
            let [a, b, c] = v;
            let (text, lo, hi): (String, Vec<u64>, Vec<u64>) = match src.below(6) {
                0 => (format!("{a}.{b}.{c}"), v.to_vec(), vec![a, b, c + 1]),
                1 => (format!("~{a}.{b}.{c}"), v.to_vec(), vec![a, b + 1, 0]),
                2 if a > 0 => (format!("^{a}.{b}.{c}"), v.to_vec(), vec![a + 1, 0, 0]),
                3 => (format!(">={a}.{b}.{c} <{}.0.0", a + 1), v.to_vec(), vec![a + 1, 0, 0]),
                4 => (format!("{a}.x"), vec![a, 0, 0], vec![a + 1, 0, 0]),
                _ => (format!(">={a}.{b}.{c}"), v.to_vec(), vec![99, 0, 0]),
            };
            let best = r
                .tags
                .iter()
                .filter_map(|(t, (i, _))| Some((tag_version(t)?, *i)))
                .filter(|(x, _)| *x >= lo && *x < hi)
                .max();
            (format!("#semver:{text}"), best.map(|b| vec![b.1]).unwrap_or_default())
        }
    }
}

fn deps(m: &Value) -> BTreeMap<String, String> {
    m.get("dependencies")
        .and_then(|d| d.as_object())
        .map(|d| d.iter().map(|(k, v)| (k.clone(), v.as_str().unwrap_or("").to_string())).collect())
        .unwrap_or_default()
}

struct World {
    p: Proj,
    srv: Server,
    scratch: PathBuf,
}

/// The commit a command shows.
fn shown(w: &World, spec: &str) -> Result<Result<Value, Out>, Stop> {
    let args = ["view", spec, "--json"];
    let o = w.p.run(&args, Some(&w.srv))?;
    super::hostile::no_crash(&args, &o, "")?;
    if !o.ok() {
        return Ok(Err(o));
    }
    match serde_json::from_str(&o.stdout) {
        Ok(v) => Ok(Ok(v)),
        Err(e) => fail("view-json", format!("{args:?} prints something that isn't JSON ({e}): {}", o.stdout)),
    }
}

/// Which of the wanted package.jsons this is.
fn is(v: &Value, want: &[Value]) -> bool {
    want.iter().any(|m| ["name", "version", "description"].iter().all(|f| v.get(f) == m.get(f)))
}

fn check_lock(w: &World, key: &str, from: Option<&str>, want: &[Value], doing: &str) -> CaseResult {
    let text = w.p.read("package-lock.kdl").unwrap_or_default();
    let l = match parse_lock(&text) {
        Ok(l) => l,
        Err(e) => return fail("lockfile", format!("{doing}: {e}\n{text}")),
    };
    let nested = from.map(|f| vec![f.to_string(), key.to_string()]);
    let Some(e) = nested.and_then(|n| l.pkgs.get(&n)).or_else(|| l.pkgs.get(&vec![key.to_string()])) else {
        return fail("not-locked", format!("{doing}: {key} isn't in the lockfile:\n{text}"));
    };
    let got = e.deps.get("dependencies").cloned().unwrap_or_default();
    ensure!(
        want.iter().any(|m| deps(m).keys().eq(got.keys())),
        "dependencies",
        "{doing}: the lockfile has the dependencies {got:?} instead of {:?}",
        want.iter().map(deps).collect::<Vec<_>>()
    );
    for d in got.keys() {
        ensure!(
            l.pkgs.keys().any(|k| k.last() == Some(d)),
            "dependency-not-locked",
            "{doing}: {d} isn't in the lockfile:\n{text}"
        );
    }
    Ok(())
}

fn observe(src: &mut Src, ctx: &mut Ctx, w: &mut World, spec: &str, want: &[Value], name: &str) -> CaseResult {
    w.p.cwd = if src.chance(1, 3) { Some(w.scratch.clone()) } else { None };
    let before = snapshot(&w.p.dir);
    let how = src.below(4);
    ctx.note(format!("{} {spec}: {}", ["view", "add", "apply", "nested"][how as usize], if want.is_empty() { "fails".into() } else { want[0]["description"].to_string() }));
    match how {
        0 => {
            match shown(w, spec)? {
                Ok(v) => {
                    ensure!(!want.is_empty(), "found", "view {spec} shows {v} although there's no such reference");
                    ensure!(is(&v, want), "wrong-commit", "view {spec} shows {} instead of {}", v["description"], want[0]["description"]);
                }
                Err(o) => ensure!(want.is_empty(), "failed", "view {spec} failed: {}", o.tail()),
            }
            let d = diff_snap(&before, &snapshot(&w.p.dir));
            ensure!(d.is_empty(), "view-changes", "view {spec} changed the project: {d:?}");
        }
        1 => {
            w.p.write_manifest(&json!({"name": "proj", "version": "1.0.0"}));
            let _ = std::fs::remove_file(w.p.dir.join("package-lock.kdl"));
            let before = snapshot(&w.p.dir);
            let args = ["add", spec, "--lockfile-only"];
            let o = w.p.run(&args, Some(&w.srv))?;
            super::hostile::no_crash(&args, &o, "")?;
            if want.is_empty() {
                ensure!(!o.ok(), "found", "{args:?} succeeds although there's no such reference");
                let d = diff_snap(&before, &snapshot(&w.p.dir));
                ensure!(d.is_empty(), "failure-changes", "{args:?} failed but changed {d:?}");
                return Ok(());
            }
            ensure!(o.ok(), "failed", "{args:?}: {}", o.tail());
            let m = read_json(&w.p.dir.join("package.json")).unwrap_or_default();
            let d = deps(&m);
            let Some(written) = d.get(name).filter(|_| d.len() == 1) else {
                return fail("manifest", format!("{args:?} leaves package.json as {m}"));
            };
            check_lock(w, name, None, want, &format!("{args:?}"))?;
            // What has been written stands for the same thing.
            match shown(w, written)? {
                Ok(v) => ensure!(is(&v, want), "written", "{args:?} writes {written}, which is {} and not {}", v["description"], want[0]["description"]),
                Err(o) => return fail("written", format!("{args:?} writes {written}, but viewing that fails: {}", o.tail())),
            }
        }
        k => {
            let key = if src.bool() { name.to_string() } else { "other".to_string() };
            let root = if k == 2 {
                json!({ key.clone(): spec })
            } else {
                let mut ver = Ver { deps: vec![(key.clone(), spec.to_string())], ..Default::default() };
                ver.seal("via", "1.0.0");
                w.srv.reg(|r| {
                    let pk = r.pkgs.entry("via".into()).or_default();
                    pk.tags.insert("latest".into(), "1.0.0".into());
                    pk.versions.insert("1.0.0".into(), ver);
                });
                let _ = std::fs::remove_dir_all(w.scratch.join("cache"));
                json!({"via": "1.0.0"})
            };
            w.p.write_manifest(&json!({"name": "proj", "version": "1.0.0", "dependencies": root}));
            let _ = std::fs::remove_file(w.p.dir.join("package-lock.kdl"));
            let before = snapshot(&w.p.dir);
            let args = ["apply", "--lockfile-only"];
            let o = w.p.run(&args, Some(&w.srv))?;
            super::hostile::no_crash(&args, &o, "")?;
            if want.is_empty() {
                ensure!(!o.ok(), "found", "{args:?} succeeds although there's no {spec}");
                let d = diff_snap(&before, &snapshot(&w.p.dir));
                ensure!(d.is_empty(), "failure-changes", "{args:?} failed but changed {d:?}");
                return Ok(());
            }
            ensure!(o.ok(), "failed", "{args:?} with {root}: {}", o.tail());
            let from = if k == 2 { None } else { Some("via") };
            check_lock(w, &key, from, want, &format!("{args:?} with {spec}"))?;
            // As long as nothing moves, the lockfile is as good as a fresh one.
            let one = w.p.read("package-lock.kdl");
            let o = w.p.run(&args, Some(&w.srv))?;
            super::hostile::no_crash(&args, &o, "again")?;
            ensure!(o.ok(), "failed-again", "{args:?} with {root} for the second time: {}", o.tail());
            let two = w.p.read("package-lock.kdl");
            ensure!(one == two, "lockfile-unstable", "{args:?} with {root} rewrites\n{}\nas\n{}", one.unwrap_or_default(), two.unwrap_or_default());
        }
    }
    Ok(())
}

fn no_leftovers(w: &World) -> CaseResult {
    for f in ["ran", "proj/ran"] {
        ensure!(!w.scratch.join(f).exists(), "script-run", "a script of the repository ran while it was only read");
    }
    Ok(())
}

fn g01(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let mut reg = Registry::default();
    for n in ["d0", "d1", "@s/d2"] {
        for v in ["1.0.0", "1.2.0", "2.0.0"] {
            let mut ver = Ver::default();
            ver.seal(n, v);
            let pk = reg.pkgs.entry(n.to_string()).or_default();
            pk.tags.insert("latest".into(), v.to_string());
            pk.versions.insert(v.to_string(), ver);
        }
    }
    let scratch = ctx.scratch();
    let name = src.pick(&["gp", "@s/gp"]).to_string();
    let srv = Server::start(reg);
    let mut p = Proj::new(&scratch, &srv.base);
    p.env.push(("GIT_CONFIG_NOSYSTEM".into(), "1".into()));
    p.write_manifest(&json!({"name": "proj", "version": "1.0.0"}));
    let mut w = World { p, srv, scratch: scratch.clone() };
    if src.chance(1, 6) {
        // a folder
        let dir = src.pick(&["lib", "../out side", "packages/é"]).to_string();
        let m = manifest(src, &name, 7);
        let at = w.p.dir.join(&dir);
        std::fs::create_dir_all(&at).unwrap();
        std::fs::write(at.join("package.json"), m.to_string()).unwrap();
        let dot = if dir.starts_with("..") { "" } else { "./" };
        let spec = match src.below(3) {
            0 => format!("{dot}{dir}"),
            1 => format!("file:{dot}{dir}"),
            _ => scratch.join("proj").join(&dir).canonicalize().unwrap().display().to_string(),
        };
        ctx.label("folder");
        ctx.nontrivial = true;
        for _ in 0..2 {
            observe(src, ctx, &mut w, &spec, &[m.clone()], &name)?;
        }
        return no_leftovers(&w);
    }
    let mut r = Repo { default: src.pick(&["main", "master", "trunk"]).to_string(), ..Default::default() };
    commit(src, &mut r, &name);
    for _ in 0..src.range(1, 6) {
        commit(src, &mut r, &name);
    }
    for _ in 0..src.range(0, 6) {
        tag(src, &mut r);
    }
    let dir = scratch.join(*src.pick(&["repo.git", "a repo", "r"]));
    publish(&mut r, &dir, &w.p.home.clone())?;
    let http = src.chance(1, 3) && !dir.to_string_lossy().contains(' ');
    let url = if http {
        let d = dir.clone();
        *w.srv.sh.handler.lock().unwrap() = Some(Arc::new(move |req: &Req| {
            let path = req.path.split('?').next().unwrap().strip_prefix("/git/")?.to_string();
            if path.contains("..") {
                return None;
            }
            Some(match std::fs::read(d.join(&path)) {
                Ok(b) => (200, vec![("content-type".into(), "application/octet-stream".into())], b),
                Err(_) => (404, vec![], vec![]),
            })
        }));
        format!("git+{}/git", w.srv.base.trim_end_matches('/'))
    } else {
        format!("git+file://{}", dir.display().to_string().replace(' ', "%20"))
    };
    ctx.label(if http { "http" } else { "file" });
    ctx.note(format!(
        "default {} branches {:?} tags {:?} commits {}",
        r.default,
        r.branches,
        r.tags,
        r.commits.iter().map(|c| format!("{}<-{:?} {:?} {:?}", c.branch, c.parent, c.files, deps(&c.manifest))).collect::<Vec<_>>().join("; ")
    ));
    for round in 0..src.range(1, 2) {
        if round > 0 {
            // History moves on.
            for _ in 0..src.range(1, 2) {
                commit(src, &mut r, &name);
            }
            if src.bool() {
                tag(src, &mut r);
            }
            publish(&mut r, &dir, &w.p.home.clone())?;
            ctx.note(format!("moves on: branches {:?} tags {:?}", r.branches, r.tags));
        }
        for _ in 0..src.range(1, 3) {
            let (re, want) = reference(src, &r);
            let tip = r.branches[&r.default];
            if want != vec![tip] {
                ctx.nontrivial = true;
            }
            ctx.label(if want.is_empty() { "missing" } else if re.starts_with("#semver") { "semver" } else { "ref" });
            let want: Vec<Value> = want.iter().map(|i| r.commits[*i].manifest.clone()).collect();
            observe(src, ctx, &mut w, &format!("{url}{re}"), &want, &name)?;
        }
    }
    no_leftovers(&w)
}

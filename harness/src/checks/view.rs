//! V01: `oro view` and the metadata it shows.
use super::select::key;
use crate::engine::*;
use crate::ensure;
use crate::proj::*;
use crate::registry::*;
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "V01",
        rule: "random packages with metadata as npm has it (all modelled fields present, absent or in each of the forms npm allows), viewed by random specs as JSON and as text, from the registry or a folder; non-trivial: more than one version, or an unsatisfiable spec",
        level: "exploration",
        quick: 700,
        thorough: 8000,
        threads: 8,
        shrink: 150,
        case: v01,
        fixed: vec![],
        assumptions: vec![
            "node-semver decides range membership; the choice among the members is the model's own.",
            "Absent, null, false-for-not-deprecated and empty fields count as the same thing in JSON output.",
        ],
    }]
}

const VERSIONS: &[&str] = &[
    "0.1.0", "0.2.0", "1.0.0-rc.1", "1.0.0", "1.1.0", "1.2.0-beta.2", "1.2.3", "2.0.0-0", "2.0.0", "2.0.10", "2.0.9", "10.0.0",
];
const WORDS: &[&str] = &[
    "fast", "tiny parser", "größer", "日本語", "a \"quoted\" one", "x", "with\ttab", "semi;colon", "back\\slash", "<b>", "{}",
    "it's", "emoji 🚀", "two  spaces", "%s", "MIT", "@scope/thing", "https://example.com/a?b=c#d",
];

fn word(src: &mut Src) -> String {
    src.pick(WORDS).to_string()
}

fn words(src: &mut Src, lo: usize, hi: usize) -> Vec<String> {
    let n = src.range(lo, hi);
    (0..n).map(|_| word(src)).collect()
}

fn person(src: &mut Src) -> Value {
    if src.chance(1, 3) {
        return json!(*src.pick(&["Ann <ann@example.com>", "Bob", "Cy <c@x.y> (https://c.example)"]));
    }
    let mut m = Map::new();
    if src.chance(5, 6) {
        m.insert("name".into(), json!(word(src)));
    }
    if src.chance(2, 3) {
        m.insert("email".into(), json!("who@example.com"));
    }
    if src.chance(1, 3) {
        m.insert("url".into(), json!("https://who.example/"));
    }
    Value::Object(m)
}

fn dep_spec(src: &mut Src) -> String {
    match src.below(12) {
        0 => "github:user/repo#semver:^1.2.3".into(),
        1 => format!("git+https://example.com/{}.git#0123456789abcdef", "long/".repeat(src.range(1, 25))),
        2 => "npm:other@^1".into(),
        3 => "".into(),
        4 => ">=1.0.0 <2.0.0 || ^3.1.0-beta.2".into(),
        5 => "latest".into(),
        6 => "*".into(),
        7 => "file:../x".into(),
        _ => format!("^{}", src.pick(VERSIONS)),
    }
}

fn deps(src: &mut Src, max: usize) -> Value {
    let n = src.range(1, max);
    let mut m = Map::new();
    for _ in 0..n {
        let scope = *src.pick(&["", "", "", "@s/", "@long-scope-name/"]);
        let stem = *src.pick(&["dep", "d", "a-rather-long-dependency-name", "p.js", "z_"]);
        let i = src.below(60);
        m.insert(format!("{scope}{stem}{i}"), json!(dep_spec(src)));
    }
    Value::Object(m)
}

fn exports(src: &mut Src, depth: usize) -> Value {
    match src.below(if depth > 0 { 5 } else { 3 }) {
        0 => json!("./index.js"),
        1 => json!(["./a.js", "./b.js"]),
        2 => json!(false),
        _ => {
            let n = src.range(1, 3);
            let mut m = Map::new();
            for _ in 0..n {
                let k = src.pick(&[".", "./sub", "import", "require", "default", "types"]).to_string();
                let v = exports(src, depth - 1);
                m.insert(k, v);
            }
            Value::Object(m)
        }
    }
}

fn hash(src: &mut Src, keys: &[&str]) -> Value {
    let mut m = Map::new();
    for k in keys {
        if src.bool() {
            m.insert(k.to_string(), json!(word(src)));
        }
    }
    Value::Object(m)
}

/// The package.json part of a version's metadata. `odd`: in forms that old
/// packages have and npm's documentation does not.
fn manifest(src: &mut Src, name: &str, v: &str, odd: bool) -> Map<String, Value> {
    let mut m = Map::new();
    m.insert("name".into(), json!(name));
    m.insert("version".into(), json!(v));
    let mut put = |k: &str, v: Value| {
        m.insert(k.into(), v);
    };
    if src.chance(3, 4) {
        put("description", json!(word(src)));
    }
    if src.bool() {
        put("homepage", json!("https://home.example/#readme"));
    }
    match src.below(6) {
        0 => {}
        1 => put("licence", json!("BSD-2-Clause")),
        2 if odd => put("license", json!({"type": "Apache-2.0", "url": "https://l.example"})),
        3 => put("license", json!("(MIT OR Apache-2.0)")),
        _ => put("license", json!("MIT")),
    }
    match src.below(4) {
        0 => put("bugs", json!("https://bugs.example")),
        1 => put("bugs", json!({"url": "https://bugs.example", "email": "b@example.com"})),
        2 => put("bugs", json!({"url": "https://bugs.example"})),
        _ => {}
    }
    if src.bool() {
        put("keywords", json!(words(src, 0, 4)));
    }
    match src.below(6) {
        0 => put("bin", json!("./cli.js")),
        1 => {
            let n = src.range(1, 3);
            let mut b = Map::new();
            for _ in 0..n {
                let k = src.pick(&["tool", "tool-x", "t2", "run.js"]).to_string();
                b.insert(k, json!("bin/x.js"));
            }
            put("bin", Value::Object(b));
        }
        2 => put("bin", json!(["bin/one.js", "./two"])),
        _ => {}
    }
    if src.bool() {
        let p = person(src);
        put("author", p);
    }
    if src.chance(1, 3) {
        let n = src.range(1, 3);
        let l: Vec<Value> = (0..n).map(|_| person(src)).collect();
        put("contributors", json!(l));
    }
    for k in ["files", "os", "cpu", "workspaces"] {
        if src.chance(1, 4) {
            let l = words(src, 1, 3);
            put(k, json!(l));
        }
    }
    if src.bool() {
        put("main", json!("lib/main.js"));
    }
    match src.below(5) {
        0 => put("man", json!("./man/x.1")),
        1 => put("man", json!(["./man/x.1", "./man/y.1"])),
        _ => {}
    }
    if src.chance(1, 3) {
        put("directories", json!({"bin": "./bin", "man": "man", "lib": "lib"}));
    }
    if src.chance(1, 3) {
        put("type", json!("module"));
    }
    if src.chance(1, 3) {
        let e = exports(src, 3);
        put("exports", e);
    }
    if src.chance(1, 4) {
        put("imports", json!({"#x": {"node": "./n.js", "default": "./d.js"}}));
    }
    match src.below(5) {
        0 => put("repository", json!("github:user/repo")),
        1 => put("repository", json!({"type": "git", "url": "git+https://g.example/r.git"})),
        2 => put("repository", json!({"type": "git", "url": "git+https://g.example/r.git", "directory": "packages/x"})),
        _ => {}
    }
    if src.bool() {
        let s = hash(src, &["test", "build", "postinstall", "prepare"]);
        put("scripts", s);
    }
    if src.chance(1, 4) {
        put("config", json!({"port": 8080, "deep": {"list": [1, 2.5, null, "x"]}}));
    }
    if src.chance(1, 3) {
        let r = *src.pick(&[">=14", ">= 0.8.0", "^12.0.0 || >=14", "*", "14.x", "node >= 4", "whatever", "0.10 - 0.12"]);
        let mut e = Map::new();
        e.insert("node".into(), json!(r));
        if src.bool() {
            e.insert("npm".into(), json!(">=6"));
        }
        put("engines", Value::Object(e));
    }
    if src.chance(1, 5) {
        let b = src.bool();
        put("private", json!(b));
    }
    if src.chance(1, 5) {
        put("publishConfig", json!({"access": "public", "tag": "next", "n": 1}));
    }
    for (k, max, c) in [("dependencies", 8, 2), ("devDependencies", 4, 3), ("optionalDependencies", 3, 4), ("peerDependencies", 3, 4)] {
        if src.chance(1, c) {
            let max = if src.chance(1, 4) { 40 } else { max };
            let d = deps(src, max);
            put(k, d);
        }
    }
    match src.below(6) {
        0 => put("bundledDependencies", json!(["dep1", "dep2"])),
        1 => put("bundleDependencies", json!(["dep1"])),
        2 => {
            let b = src.bool();
            put("bundleDependencies", json!(b))
        }
        _ => {}
    }
    for k in ["funding", "readme", "gitHead", "_id", "sideEffects", "peerDependenciesMeta", "browser"] {
        if src.chance(1, 6) {
            let v = match src.below(4) {
                0 => json!(word(src)),
                1 => json!({"x": [word(src), {"y": null}]}),
                2 => json!(false),
                _ => json!(17),
            };
            put(k, v);
        }
    }
    if odd {
        for _ in 0..src.range(1, 3) {
            match src.below(11) {
                0 => put("keywords", json!("one, two")),
                1 => put("homepage", json!(["https://home.example"])),
                2 => put("engines", json!(["node >= 0.6"])),
                3 => put("contributors", json!({"name": "Ann"})),
                4 => put("os", json!("linux")),
                5 => put("files", json!("lib")),
                6 => put("private", json!("true")),
                7 => put("scripts", json!([])),
                8 => put("description", json!({"text": "x"})),
                9 => put("man", json!({"x": 1})),
                _ => put("licenses", json!([{"type": "MIT"}])),
            }
        }
    }
    m
}

fn meta(src: &mut Src, name: &str, v: &str, base: &str, odd: bool) -> Map<String, Value> {
    let mut m = manifest(src, name, v, odd);
    let mut ver = Ver::default();
    ver.seal(name, v);
    let mut dist = Map::new();
    dist.insert("tarball".into(), json!(tarball_url(base, name, v)));
    if let (true, Some(i)) = (src.chance(3, 4), &ver.integrity) {
        dist.insert("integrity".into(), json!(i));
    }
    if src.chance(3, 4) {
        dist.insert("shasum".into(), json!("da39a3ee5e6b4b0d3255bfef95601890afd80709"));
    }
    if src.bool() {
        let n = *src.pick(&[0u64, 1, 999, 1000, 123_456_789, 5_000_000_000_000]);
        dist.insert("unpackedSize".into(), json!(n));
    }
    if src.bool() {
        dist.insert("fileCount".into(), json!(12));
    }
    if src.chance(1, 3) {
        dist.insert("signatures".into(), json!([{"keyid": "SHA256:x", "sig": "MEU="}]));
    }
    if src.chance(1, 4) {
        dist.insert("npm-signature".into(), json!("-----BEGIN PGP"));
    }
    m.insert("dist".into(), Value::Object(dist));
    if src.bool() {
        let n = src.range(1, 4);
        let l: Vec<Value> = (0..n).map(|_| person(src)).collect();
        m.insert("maintainers".into(), json!(l));
    }
    if src.chance(2, 3) {
        let mut u = Map::new();
        u.insert("name".into(), json!(word(src)));
        if src.bool() {
            u.insert("email".into(), json!("u@example.com"));
        }
        m.insert("_npmUser".into(), Value::Object(u));
    }
    match src.below(6) {
        0 => drop(m.insert("deprecated".into(), json!(word(src)))),
        1 => {
            let b = src.bool();
            m.insert("deprecated".into(), json!(b));
        }
        _ => {}
    }
    if src.chance(1, 3) {
        let b = src.bool();
        m.insert("_hasShrinkwrap".into(), json!(b));
    }
    if odd && src.chance(1, 3) {
        if src.bool() {
            m.insert("maintainers".into(), json!("Ann <ann@example.com>"));
        } else {
            m.insert("_npmUser".into(), json!({"email": "u@example.com"}));
        }
    }
    m
}

/// What counts as the same metadata.
fn norm(v: &Value, top: bool) -> Value {
    match v {
        Value::Object(m) => {
            let mut out = Map::new();
            for (k, x) in m {
                let x = norm(x, false);
                let empty = match &x {
                    Value::Null => true,
                    Value::Array(a) => top && a.is_empty(),
                    Value::Object(o) => top && o.is_empty(),
                    Value::Bool(false) => top && (k == "deprecated" || k.starts_with("bundle")),
                    _ => false,
                };
                if empty {
                    continue;
                }
                let k = match k.as_str() {
                    "licence" if top => "license",
                    "bundleDependencies" if top => "bundledDependencies",
                    k => k,
                };
                out.insert(k.to_string(), x);
            }
            Value::Object(out)
        }
        Value::Array(a) => Value::Array(a.iter().map(|x| norm(x, false)).collect()),
        x => x.clone(),
    }
}

fn same(want: &Map<String, Value>, got: &Value) -> Option<String> {
    let want = norm(&Value::Object(want.clone()), true);
    let got = norm(got, true);
    let (Value::Object(want), Value::Object(got)) = (&want, &got) else {
        return Some(format!("not an object: {got}"));
    };
    let keys: BTreeSet<&String> = want.keys().chain(got.keys()).collect();
    for k in keys {
        let (a, b) = (want.get(k), got.get(k));
        // A license object may be shown as its type.
        if k == "license" && a.map(|a| a["type"].is_string() && Some(&a["type"]) == b).unwrap_or(false) {
            continue;
        }
        // Lists of engines are left out.
        if k == "engines" && b.is_none() && a.map(|a| a.is_array()).unwrap_or(false) {
            continue;
        }
        if a != b {
            return Some(format!("{k}: the registry has {}, view has {}", show(a), show(b)));
        }
    }
    None
}

fn show(v: Option<&Value>) -> String {
    v.map(|v| v.to_string()).unwrap_or("nothing".into())
}

fn strs(v: Option<&Value>) -> Vec<String> {
    v.and_then(|v| v.as_array())
        .map(|a| a.iter().filter_map(|x| x.as_str()).map(String::from).collect())
        .unwrap_or_default()
}

/// What the text output has to say about a version.
fn expected(m: &Map<String, Value>, folder: bool) -> Vec<(&'static str, String)> {
    let mut w: Vec<(&'static str, String)> = vec![];
    let s = |k: &str| m.get(k).and_then(|v| v.as_str()).map(String::from);
    w.push(("name-version", format!("{}@{}", s("name").unwrap(), s("version").unwrap())));
    match m.get("license").or(m.get("licence")) {
        Some(Value::String(l)) => w.push(("license", format!("| {l} |"))),
        Some(l) => w.push(("license", format!("| {} |", l["type"].as_str().unwrap()))),
        None => {}
    }
    for k in ["description", "homepage"] {
        if let Some(d) = s(k) {
            w.push(("description", d));
        }
    }
    match m.get("deprecated") {
        Some(Value::String(d)) => w.push(("deprecated", format!("DEPRECATED {d}"))),
        Some(Value::Bool(true)) => w.push(("deprecated", "DEPRECATED".into())),
        _ => {}
    }
    let kw = strs(m.get("keywords"));
    if !kw.is_empty() {
        w.push(("keywords", format!("keywords: {}\n", kw.join(", "))));
    }
    let ds: BTreeMap<String, String> = m
        .get("dependencies")
        .and_then(|d| d.as_object())
        .map(|d| d.iter().map(|(k, v)| (k.clone(), v.as_str().unwrap().to_string())).collect())
        .unwrap_or_default();
    w.push(("dependency-count", format!("| deps: {} |", ds.len())));
    for (k, v) in ds.iter().take(25) {
        w.push(("dependencies", format!("{k}: {v}")));
    }
    if ds.len() > 25 {
        w.push(("dependencies", format!("(...and {} more)", ds.len() - 25)));
    }
    if !folder {
        for k in ["tarball", "shasum", "integrity"] {
            if let Some(t) = m["dist"].get(k).and_then(|x| x.as_str()) {
                w.push(("dist", format!(".{k}: {t}")));
            }
        }
        if m["dist"].get("unpackedSize").is_some() {
            w.push(("dist", ".unpackedSize: ".into()));
        }
    }
    for p in m.get("maintainers").and_then(|p| p.as_array()).cloned().unwrap_or_default() {
        match &p {
            Value::String(p) => w.push(("maintainers", format!("- {p}"))),
            p => {
                if let Some(n) = p["name"].as_str() {
                    w.push(("maintainers", format!("- {n}")));
                }
                if let Some(n) = p["email"].as_str() {
                    w.push(("maintainers", format!("<{n}>")));
                }
            }
        }
    }
    w
}

fn bins(m: &Map<String, Value>) -> Option<BTreeSet<String>> {
    let base = |s: &str| s.rsplit('/').next().unwrap().to_string();
    Some(match m.get("bin")? {
        Value::String(_) => [base(m["name"].as_str().unwrap())].into(),
        Value::Array(a) => a.iter().map(|x| base(x.as_str().unwrap())).collect(),
        Value::Object(o) => o.keys().cloned().collect(),
        _ => return None,
    })
}

fn v01(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    if src.chance(1, 8) {
        return folder(src, ctx);
    }
    let name = src.pick(&["a", "@s/c", "e.js", "@long-scope/pkg-x"]).to_string();
    let k = src.range(1, 5);
    let mut vs: Vec<String> = vec![];
    for _ in 0..k {
        let v = src.pick(VERSIONS).to_string();
        if !vs.contains(&v) {
            vs.push(v);
        }
    }
    let srv = Server::start(Registry::default());
    let mut docs: BTreeMap<String, Map<String, Value>> = BTreeMap::new();
    let mut times = Map::new();
    let mut dates = BTreeSet::new();
    for v in &vs {
        let odd = src.chance(1, 4);
        docs.insert(v.clone(), meta(src, &name, v, &srv.base, odd));
        match src.below(6) {
            0 => {}
            1 => drop(times.insert(v.clone(), json!("some day"))),
            2 => drop(times.insert(v.clone(), json!({"gone": true}))),
            _ => {
                let t = *src.pick(&["2019-02-03T04:05:06.789Z", "2024-01-01T00:00:00.000Z", "1999-12-31T23:59:59+02:00"]);
                times.insert(v.clone(), json!(t));
                dates.insert(v.clone());
            }
        }
    }
    let mut tags = BTreeMap::new();
    for t in ["latest", "next", "stable"] {
        if src.chance(if t == "latest" { 9 } else { 5 }, 10) {
            let v = if src.chance(1, 10) { src.pick(VERSIONS).to_string() } else { src.pick(&vs).clone() };
            tags.insert(t.to_string(), v);
        }
    }
    let default_tag = src.pick(&["latest", "latest", "latest", "next"]).to_string();
    let has = |v: Option<&String>| v.filter(|v| vs.contains(v)).cloned();
    let mut missing = false;
    let (req, want): (Option<String>, Option<String>) = match src.below(9) {
        0 | 1 => {
            let v = if src.chance(1, 5) { src.pick(VERSIONS).to_string() } else { src.pick(&vs).clone() };
            (Some(v.clone()), has(Some(&v)))
        }
        2 | 3 => {
            let t = src.pick(&["latest", "next", "stable", "none"]).to_string();
            (Some(t.clone()), has(tags.get(&t)))
        }
        4 | 5 => (None, has(tags.get(&default_tag))),
        6 => {
            missing = true;
            (None, None)
        }
        _ => {
            let v = src.pick(VERSIONS).to_string();
            let r = match src.below(4) {
                0 => format!("^{v}"),
                1 => format!(">={v}"),
                2 => format!("<{v}"),
                _ => format!("~{v}"),
            };
            let range = node_semver::Range::parse(&r).unwrap();
            let sat: Vec<&String> =
                vs.iter().filter(|v| range.satisfies(&node_semver::Version::parse(v).unwrap())).collect();
            let v = match tags.get(&default_tag).filter(|v| sat.contains(v)) {
                Some(v) => Some(v.clone()),
                None => sat.iter().max_by_key(|v| key(v)).map(|v| v.to_string()),
            };
            (Some(r), v)
        }
    };
    let asked = if missing { "not-there".to_string() } else { name.clone() };
    let mut spec = match &req {
        Some(r) => format!("{asked}@{r}"),
        None => asked,
    };
    if src.chance(1, 8) {
        spec = format!("al-x@npm:{spec}");
    }
    let doc = json!({
        "_id": name, "name": name, "dist-tags": tags, "versions": docs, "time": times,
        "readme": "# x", "_attachments": {}, "users": {"x": true},
    });
    // What registries send to installers
    let mut short = Map::new();
    for (v, d) in &docs {
        let mut s = Map::new();
        for k in [
            "name", "version", "dist", "dependencies", "devDependencies", "optionalDependencies",
            "peerDependencies", "bundleDependencies", "bin", "engines", "deprecated", "_hasShrinkwrap", "os", "cpu",
        ] {
            if let Some(x) = d.get(k) {
                s.insert(k.into(), x.clone());
            }
        }
        short.insert(v.clone(), Value::Object(s));
    }
    let corgi = json!({"name": name, "dist-tags": tags, "versions": short, "modified": "2024-01-01T00:00:00.000Z"});
    let full_only = src.chance(1, 3);
    ctx.note(format!("view {spec} --default-tag {default_tag}: expect {want:?}"));
    ctx.note(format!("packument {doc}"));
    let (path, full, corgi) = (format!("/{name}"), doc.to_string(), corgi.to_string());
    *srv.sh.handler.lock().unwrap() = Some(Arc::new(move |r: &Req| {
        if pct_decode(&r.path) != path {
            return Some((404, vec![], b"{}".to_vec()));
        }
        let short = !full_only
            && r.headers
                .iter()
                .any(|(k, v)| k.eq_ignore_ascii_case("accept") && v.contains("vnd.npm.install-v1"));
        let h = vec![
            ("content-type".to_string(), "application/json".to_string()),
            ("vary".to_string(), "accept".to_string()),
            ("cache-control".to_string(), "public, max-age=300".to_string()),
        ];
        Some((200, h, if short { &corgi } else { &full }.clone().into_bytes()))
    }));
    ctx.nontrivial = vs.len() > 1 || want.is_none();
    let p = Proj::new(&ctx.scratch(), &srv.base);
    p.write_manifest(&json!({"name": "root"}));
    let mut ways = vec![true, false];
    if src.bool() {
        ways.reverse();
    }
    for js in ways {
        let mut args = vec!["view", &spec, "--default-tag", &default_tag];
        if js {
            args.push("--json");
        }
        let o = p.run(&args, Some(&srv))?;
        super::hostile::no_crash(&args, &o, "")?;
        let Some(v) = &want else {
            ensure!(!o.ok(), "found", "{args:?} succeeded: {}", o.stdout);
            ensure!(
                !o.stdout.contains("releases: ") && !o.stdout.contains("\"dist\""),
                "found",
                "{args:?} failed and printed {}",
                o.stdout
            );
            ctx.label("unsatisfiable");
            continue;
        };
        ensure!(o.ok(), "failed", "{args:?} should show {v}: {}", o.tail());
        check(ctx, &args, &o, &docs[v], Some(vs.len()), js)?;
        if !js {
            if let (true, Some(Value::String(u))) = (dates.contains(v), docs[v].get("_npmUser").map(|u| u["name"].clone())) {
                ensure!(
                    o.stdout.lines().any(|l| l.starts_with("published ") && l.contains(&format!("by {u}"))),
                    "published",
                    "{args:?} does not say that {u} published it: {}",
                    o.stdout
                );
            }
        }
    }
    Ok(())
}

fn check(
    ctx: &mut Ctx, args: &[&str], o: &Out, m: &Map<String, Value>, releases: Option<usize>, js: bool,
) -> CaseResult {
    if js {
        ctx.label("json");
        let Ok(got) = serde_json::from_str::<Value>(&o.stdout) else {
            return fail("not-json", format!("{args:?} printed no JSON: {}", o.stdout));
        };
        let mut got = got;
        if releases.is_none() {
            // A folder has no distribution.
            got.as_object_mut().map(|g| g.remove("dist"));
        }
        if let Some(d) = same(m, &got) {
            return fail("json", format!("{args:?}: {d}"));
        }
        return Ok(());
    }
    ctx.label("text");
    for (sig, w) in expected(m, releases.is_none()) {
        ensure!(o.stdout.contains(&w), sig, "{args:?} does not show {w:?}: {}", o.stdout);
    }
    let first = o.stdout.lines().next().unwrap_or_default();
    if let Some(n) = releases {
        ensure!(
            first.ends_with(&format!("releases: {n}")),
            "releases",
            "{args:?}: {n} releases, but {first}"
        );
    }
    let shown = o
        .stdout
        .lines()
        .find_map(|l| l.strip_prefix("bins: "))
        .map(|l| l.split(", ").map(String::from).collect::<BTreeSet<_>>());
    ensure!(shown == bins(m), "bins", "{args:?} shows {shown:?} as executables instead of {:?}", bins(m));
    Ok(())
}

/// A folder's package.json can be viewed as well.
fn folder(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let name = src.pick(&["a", "@s/c"]).to_string();
    let v = src.pick(VERSIONS).to_string();
    let m = manifest(src, &name, &v, false);
    ctx.label("folder");
    ctx.nontrivial = true;
    let srv = Server::start(Registry::default());
    let p = Proj::new(&ctx.scratch(), &srv.base);
    p.write_manifest(&json!({"name": "root"}));
    std::fs::create_dir_all(p.dir.join("sub dir/pkg")).unwrap();
    std::fs::write(p.dir.join("sub dir/pkg/package.json"), Value::Object(m.clone()).to_string()).unwrap();
    ctx.note(format!("folder {}", Value::Object(m.clone())));
    let mut args = vec!["view", *src.pick(&["./sub dir/pkg", "file:./sub dir/pkg"])];
    let js = src.bool();
    if js {
        args.push("--json");
    }
    let o = p.run(&args, Some(&srv))?;
    super::hostile::no_crash(&args, &o, "")?;
    ensure!(o.ok(), "failed", "{args:?}: {}", o.tail());
    check(ctx, &args, &o, &m, None, js)
}

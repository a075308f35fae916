//! D01: odd registry metadata, package manifests and archives.
use super::linker::tree_snap;
use crate::engine::*;
use crate::gen::*;
use crate::proj::*;
use crate::registry::*;
use serde_json::{json, Map, Value};
use std::collections::BTreeSet;
use std::path::Path;

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "D01",
        rule: "random registries whose packuments, tarballs and package.json files are mutated structurally or textually, either only where an install doesn't look (the tree must stay the same) or anywhere (no crash, nothing touched outside); non-trivial: a mutated document was asked for",
        level: "exploration",
        quick: 1500,
        thorough: 12000,
        threads: 8,
        shrink: 120,
        case: d01,
        fixed: vec![],
        assumptions: vec![
            "Only loopback addresses appear in the mutated documents.",
            "Mutations add no edges between existing packages, so no endless nesting (a known finding of R01) arises.",
        ],
    },
    Check {
        id: "D02",
        rule: "random projects installed once, then textual and structural mutations of package-lock.kdl or node_modules/.orogene-meta.kdl (and sometimes of the manifest), then apply, reapply, add or remove; non-trivial: the mutated file differs from the original",
        level: "exploration",
        quick: 1200,
        thorough: 10000,
        threads: 8,
        shrink: 120,
        case: d02,
        fixed: vec![],
        assumptions: vec![
            "What a lockfile entry says about the package version it names (dependencies, tarball, integrity) is trusted; where a mutation makes it lie, only crashes and effects outside the project are looked for.",
            "The metadata in node_modules is trusted likewise about what is installed where.",
        ],
    }]
}

#[derive(Clone, Debug)]
enum Step {
    Key(String),
    Idx(usize),
}

fn paths(v: &Value, here: &mut Vec<Step>, out: &mut Vec<Vec<Step>>) {
    if !here.is_empty() {
        out.push(here.clone());
    }
    match v {
        Value::Object(m) => {
            for (k, x) in m {
                here.push(Step::Key(k.clone()));
                paths(x, here, out);
                here.pop();
            }
        }
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                here.push(Step::Idx(i));
                paths(x, here, out);
                here.pop();
            }
        }
        _ => {}
    }
}
fn at<'a>(v: &'a mut Value, p: &[Step]) -> Option<&'a mut Value> {
    let mut v = v;
    for s in p {
        v = match s {
            Step::Key(k) => v.get_mut(k)?,
            Step::Idx(i) => v.get_mut(*i)?,
        };
    }
    Some(v)
}
fn show(p: &[Step]) -> String {
    p.iter()
        .map(|s| match s {
            Step::Key(k) => k.clone(),
            Step::Idx(i) => i.to_string(),
        })
        .collect::<Vec<_>>()
        .join("/")
}

const STRINGS: &[&str] = &[
    "",
    " ",
    "latest",
    "*",
    "1.0.0",
    "v1.0.0",
    "01.0.0",
    "1.0",
    "1.0.0-",
    "99999999999999999999.0.0",
    "not a version",
    ">",
    ">=1.0.0 <",
    "^",
    "||",
    "x || y",
    "1 - 2 - 3",
    "http://127.0.0.1:9/x.tgz",
    "http://{/",
    "http://",
    "data:text/plain,x",
    "file:///nonexistent-vh/x.tgz",
    "file:./sub",
    "./sub",
    "../sub",
    "npm:",
    "npm:zz-missing",
    "npm:zz-missing@^1.0.0",
    "npm:@x",
    "npm:npm:npm:x",
    "zz:bogus",
    "@",
    "@/",
    "@x/",
    "../../up",
    "..",
    ".",
    "/nonexistent-vh/x",
    "a\u{0}b",
    "naïve-\u{1F600}",
    "\u{feff}x",
    "sha512-",
    "sha512-!!!!",
    "sha1-AAAA",
    "md5-aaaa",
    "sha512-AAAA sha256-BBBB",
    "-",
    "true",
    "null",
    "<html>",
    "\\..\\..\\x",
    "C:\\x",
    "node_modules",
    "package.json",
    ".bin",
    "workspace:*",
    "who/what",
    "github:who/what#semver:^1.0.0",
    "git+file:///nonexistent-vh/repo.git#main",
    "git@localhost:x/y.git",
];

fn odd(src: &mut Src, depth: usize) -> Value {
    match src.below(if depth > 2 { 9 } else { 12 }) {
        0 => Value::Null,
        1 => json!(src.bool()),
        2 => json!(0),
        3 => json!(-1),
        4 => json!(1.5e300),
        5 => json!(u64::MAX),
        6 | 7 => json!(src.pick(STRINGS)),
        8 => match src.below(4) {
            0 => json!({}),
            1 => json!([]),
            2 => json!("x".repeat(5000)),
            _ => json!("a/".repeat(200)),
        },
        9 | 10 => {
            let n = src.range(1, 3);
            Value::Array((0..n).map(|_| odd(src, depth + 1)).collect())
        }
        _ => {
            let n = src.range(1, 3);
            let mut m = Map::new();
            for _ in 0..n {
                let k = odd_key(src);
                let v = odd(src, depth + 1);
                m.insert(k, v);
            }
            Value::Object(m)
        }
    }
}
/// Never the name of an existing package.
fn odd_key(src: &mut Src) -> String {
    match src.below(3) {
        0 => {
            let known = [
                "bin",
                "scripts",
                "directories",
                "dist",
                "tarball",
                "integrity",
                "shasum",
                "version",
                "name",
                "bundledDependencies",
                "bundleDependencies",
                "peerDependencies",
                "_hasShrinkwrap",
                "deprecated",
                "versions",
                "dist-tags",
                "time",
                "maintainers",
                "_npmUser",
                "license",
                "licence",
                "engines",
                "author",
                "contributors",
                "keywords",
                "repository",
                "bugs",
                "os",
                "cpu",
                "main",
                "man",
                "exports",
                "files",
                "private",
                "publishConfig",
                "workspaces",
            ];
            src.pick(&known).to_string()
        }
        1 => src.pick(STRINGS).to_string(),
        _ => src.pick(&["_odd", "x-vendor", "zz-missing", "@zz/missing", "__proto__"]).to_string(),
    }
}

/// One structural edit; returns its description.
fn edit(src: &mut Src, doc: &mut Value) -> String {
    let mut all = vec![];
    paths(doc, &mut vec![], &mut all);
    if all.is_empty() || src.chance(1, 25) {
        *doc = odd(src, 0);
        return "whole document".into();
    }
    let telling: Vec<Vec<Step>> = all
        .iter()
        .filter(|p| {
            p.iter().any(|s| {
                matches!(s, Step::Key(k) if matches!(
                    k.as_str(),
                    "dependencies" | "optionalDependencies" | "devDependencies" | "bin"
                        | "directories" | "scripts" | "dist" | "dist-tags"
                ))
            })
        })
        .cloned()
        .collect();
    let p = if !telling.is_empty() && src.bool() {
        let n = src.usize(telling.len());
        telling[n].clone()
    } else {
        let n = src.usize(all.len());
        all[n].clone()
    };
    let what = src.below(8);
    let Some((last, parent)) = p.split_last() else {
        return "-".into();
    };
    match what {
        0 | 1 | 2 => {
            let v = odd(src, 0);
            let d = format!("{} = {}", show(&p), clip(&v.to_string()));
            if let Some(x) = at(doc, &p) {
                *x = v;
            }
            d
        }
        3 => {
            match (at(doc, parent), last) {
                (Some(Value::Object(m)), Step::Key(k)) => {
                    m.remove(k);
                }
                (Some(Value::Array(a)), Step::Idx(i)) => {
                    a.remove(*i);
                }
                _ => {}
            }
            format!("without {}", show(&p))
        }
        4 => {
            let to = odd_key(src);
            if let (Some(Value::Object(m)), Step::Key(k)) = (at(doc, parent), last) {
                if let Some(v) = m.remove(k) {
                    m.insert(to.clone(), v);
                }
            }
            format!("{} renamed {}", show(&p), clip(&to))
        }
        5 | 6 => {
            let k = odd_key(src);
            let v = odd(src, 0);
            let d = format!("{} gets {} = {}", show(&p), clip(&k), clip(&v.to_string()));
            match at(doc, &p) {
                Some(Value::Object(m)) => {
                    m.insert(k, v);
                }
                Some(Value::Array(a)) => a.push(v),
                _ => {
                    if let Some(Value::Object(m)) = at(doc, parent) {
                        m.insert(k, v);
                    }
                }
            }
            d
        }
        _ => {
            let wrap = src.bool();
            if let Some(x) = at(doc, &p) {
                *x = if wrap {
                    json!([x.clone()])
                } else {
                    json!({ "x": x.clone() })
                };
            }
            format!("{} wrapped", show(&p))
        }
    }
}
/// Several of an object's fields at once: some go, some come with common or
/// odd values.
fn reshape(src: &mut Src, doc: &mut Value) -> String {
    let Value::Object(m) = doc else {
        return "-".into();
    };
    let mut d = vec![];
    for k in ["name", "version", "dist", "dependencies", "versions", "dist-tags", "bin", "_hasShrinkwrap", "description"] {
        if m.contains_key(k) && src.chance(1, 3) {
            m.remove(k);
            d.push(format!("without {k}"));
        }
    }
    let texts = ["deprecated", "license", "homepage", "bin", "main", "name", "time", "_npmUser"];
    let flags = ["deprecated", "_hasShrinkwrap", "hasInstallScript", "private", "bundleDependencies"];
    let lists = ["bundledDependencies", "bundleDependencies", "maintainers", "os", "keywords", "bin", "license"];
    let maps = ["dependencies", "optionalDependencies", "peerDependencies", "peerDependenciesMeta", "scripts", "bin", "directories", "engines"];
    for _ in 0..src.range(0, 4) {
        let (k, v) = match src.below(7) {
            6 => {
                let n = src.range(1, 3);
                let l: Vec<&str> = (0..n)
                    .map(|_| *src.pick(&["cli.js", "./bin/a.sh", "bin/..", "..", ".", "", "/", "../up", "a//", "c:\\x", "index.js/"]))
                    .collect();
                ("bin", json!(l))
            }
            0 => (if src.bool() { "deprecated" } else { *src.pick(&texts) }, json!(*src.pick(&["no", "", "latest"]))),
            1 => (*src.pick(&flags), json!(src.bool())),
            2 => (*src.pick(&lists), json!([*src.pick(STRINGS)])),
            3 => {
                let k = odd_key(src);
                (*src.pick(&maps), json!({ k: *src.pick(STRINGS) }))
            }
            4 => (*src.pick(&maps), odd(src, 1)),
            _ => (*src.pick(&texts), odd(src, 1)),
        };
        d.push(format!("{k} = {}", clip(&v.to_string())));
        m.insert(k.into(), v);
    }
    d.join(", ")
}
fn clip(s: &str) -> String {
    s.chars().take(80).collect()
}

/// A textual edit of a document.
fn garble(src: &mut Src, text: &mut Vec<u8>) -> String {
    let n = text.len().max(1);
    let i = src.usize(n).min(text.len());
    match src.below(16) {
        12..=15 => {
            // something that can't be there, between letters of several bytes
            let i = i.min(*src.pick(&[1usize, 20, 100, 100_000]));
            let rest = text.split_off(i);
            for k in 0..2 {
                for _ in 0..src.range(0, 40) {
                    text.extend_from_slice(src.pick(&["é", "日", "x", "🦀", "\n"]).as_bytes());
                }
                if k == 0 {
                    text.extend_from_slice(b",:,");
                }
            }
            text.extend_from_slice(&rest);
            format!("letters at {i}")
        }
        0 => {
            text.truncate(i);
            format!("cut at {i}")
        }
        1 => {
            text.clear();
            "empty".into()
        }
        2 => {
            if let Some(b) = text.get_mut(i) {
                *b = 0xff;
            }
            format!("0xff at {i}")
        }
        3 => {
            if let Some(b) = text.get_mut(i) {
                *b = 0;
            }
            format!("NUL at {i}")
        }
        4 => {
            let mut t = vec![0xef, 0xbb, 0xbf];
            t.append(text);
            *text = t;
            "byte order mark".into()
        }
        5 => {
            *text = "[".repeat(200_000).into_bytes();
            "deep array".into()
        }
        6 => {
            *text = "{\"versions\":".repeat(50_000).into_bytes();
            "deep object".into()
        }
        7 => {
            *text = b"<html>oops</html>".to_vec();
            "html".into()
        }
        8 => {
            text.extend_from_slice(b"\n{}");
            "trailing document".into()
        }
        9 => {
            *text = b"{\"dist-tags\":{\"latest\":\"\\ud800\"},\"versions\":{\"1.0.0\":{\"name\":\"\\udfff\",\"x\":1e999}}}".to_vec();
            "lone surrogates".into()
        }
        10 => {
            let c = *src.pick(&[b'{', b'}', b'"', b',', b':', b'[', b']', b'1', b'\\', b'-']);
            if let Some(b) = text.get_mut(i) {
                *b = c;
            }
            format!("{:?} at {i}", c as char)
        }
        _ => {
            let half = text[i..].to_vec();
            text.extend_from_slice(&half);
            format!("repeated from {i}")
        }
    }
}

fn archive(src: &mut Src, ver: &mut Ver) -> String {
    let d = match src.below(9) {
        0 => {
            let n = src.usize(ver.tarball.len().max(1));
            ver.tarball.truncate(n);
            format!("archive cut at {n}")
        }
        1 => {
            let n = src.usize(ver.tarball.len().max(1));
            if let Some(b) = ver.tarball.get_mut(n) {
                *b ^= 0x41;
            }
            format!("archive byte {n} flipped")
        }
        2 => {
            ver.tarball = src.bytes(0, 60);
            "archive of random bytes".into()
        }
        3 => {
            ver.tarball = make_tgz(&[]);
            "empty archive".into()
        }
        4 => {
            ver.tarball = {
            let b = src.bytes(0, 2000);
            super::extract::gzip(&b, 6, b"")
        };
            "archive that is no tar file".into()
        }
        5 => {
            ver.tarball = make_tgz(&[("package/index.js".into(), b"1".to_vec(), 0o644)]);
            "archive without package.json".into()
        }
        6 => {
            ver.tarball = make_tgz(&[(
                "package/package.json/x".into(),
                b"1".to_vec(),
                0o644,
            )]);
            "archive where package.json is a directory".into()
        }
        7 => {
            ver.tarball = make_tgz(&[("package.json".into(), b"{}".to_vec(), 0o644)]);
            "archive without a top directory".into()
        }
        _ => {
            ver.tarball = vec![];
            "no archive".into()
        }
    };
    if src.chance(7, 8) {
        ver.set_integrity();
    }
    d
}

fn pick_version(src: &mut Src, reg: &Registry, among: &[(String, String)]) -> (String, String) {
    if !among.is_empty() {
        return src.pick(among).clone();
    }
    let mut all = vec![];
    for (n, p) in &reg.pkgs {
        for v in p.versions.keys() {
            all.push((n.clone(), v.clone()));
        }
    }
    src.pick(&all).clone()
}

fn proj_in(scratch: &Path, what: &str, base: &str) -> Proj {
    let deep = scratch.join(what).join("a/b/c/d");
    std::fs::create_dir_all(&deep).unwrap();
    // No network: what would be a git host's answer is none.
    let bin = deep.join("nogit");
    std::fs::create_dir_all(&bin).unwrap();
    let git = bin.join("git");
    std::fs::write(&git, "#!/bin/sh\nexit 128\n").unwrap();
    use std::os::unix::fs::PermissionsExt;
    std::fs::set_permissions(&git, std::fs::Permissions::from_mode(0o755)).unwrap();
    settle(&git);
    let mut p = Proj::new(&deep, base);
    p.env.push((
        "PATH".into(),
        format!("{}:/usr/local/bin:/usr/bin:/bin", bin.display()),
    ));
    p
}

/// Everything of the scratch directory except what oro may write.
fn outside(scratch: &Path, what: &str) -> Snap {
    let own = format!("{what}/a/b/c/d/");
    snapshot(scratch)
        .into_iter()
        .filter(|(k, _)| !k.starts_with(&own))
        .collect()
}

pub fn no_crash(args: &[&str], o: &Out, doing: &str) -> CaseResult {
    crate::ensure!(
        !o.deadlock,
        "hang",
        "oro {args:?} {doing} never finishes: {}",
        o.tail()
    );
    crate::ensure!(
        !o.panicked(),
        "crash",
        "oro {args:?} {doing} crashes: {}",
        o.tail()
    );
    Ok(())
}

fn d01(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let o = RegOpts {
        bins: true,
        max_pkgs: 5,
        max_versions: 3,
        ..Default::default()
    };
    let reg = gen_registry(src, &o);
    let mut mani = gen_mani(src, &reg, &o, 4);
    let hoisted = src.bool();
    let scratch = ctx.scratch();
    ctx.note(format!("manifest {} hoisted={hoisted}", mani.json()));
    ctx.note(describe_registry(&reg));
    let srv = Server::start(reg.clone());
    let mut apply = vec!["apply"];
    if hoisted {
        apply.push("--hoisted");
    }
    if src.chance(9, 20) {
        unneeded(src, ctx, &srv, reg, &mut mani, &apply, &scratch)
    } else {
        anywhere(src, ctx, &srv, reg, &mani, &apply, &scratch)
    }
}

/// Only what the install has no use for is mutated: nothing may change.
fn unneeded(
    src: &mut Src,
    ctx: &mut Ctx,
    srv: &Server,
    reg: Registry,
    mani: &mut Mani,
    apply: &[&str],
    scratch: &Path,
) -> CaseResult {
    ctx.label("unneeded parts");
    let p = proj_in(scratch, "one", &srv.base);
    p.write_manifest(&mani.json());
    let out = p.run(apply, Some(srv))?;
    if !out.ok() {
        return Err(Stop::Skip("the plain registry can't be installed"));
    }
    let log: BTreeSet<String> = srv
        .take_log()
        .into_iter()
        .map(|r| pct_decode(&r.path).trim_start_matches('/').to_string())
        .collect();
    let mut specs: Vec<(String, String)> = mani.all().into_iter().collect();
    let mut spare = vec![];
    for (n, pk) in &reg.pkgs {
        for (v, ver) in &pk.versions {
            let t = tarball_url("", n, v);
            if log.contains(t.trim_start_matches('/')) {
                specs.extend(ver.deps.iter().chain(&ver.opt).chain(&ver.peer).cloned());
            } else if ver.deprecated.is_none() {
                spare.push((n.clone(), v.clone()));
            }
        }
    }
    // Whatever a spec may select is looked at, even if it ends up replaced by
    // something that's already there.
    for (k, s) in &specs {
        let (n, s) = crate::tree::target_of(k, s);
        let Some(pk) = reg.pkgs.get(&n) else { continue };
        let ok = |v: &String| crate::tree::spec_ok(pk, &s, v);
        let fresh = |v: &&String| pk.versions[*v].deprecated.is_none();
        let num = |v: &&String| node_semver::Version::parse(v.as_str()).unwrap();
        let mut may: Vec<&String> = vec![];
        may.extend(pk.tags.get("latest"));
        may.extend(pk.tags.get(&s));
        may.extend(pk.versions.keys().filter(|v| ok(v)).max_by_key(num));
        may.extend(pk.versions.keys().filter(|v| ok(v)).filter(fresh).max_by_key(num));
        spare.retain(|(m, v)| *m != n || !(ok(v) && may.contains(&v)));
    }
    let mut hit = false;
    let mut docs: std::collections::BTreeMap<String, Value> = Default::default();
    for n in reg.pkgs.keys() {
        let b = reg.packument(n, &srv.base).unwrap();
        docs.insert(n.clone(), serde_json::from_slice(&b).unwrap());
    }
    let names: Vec<String> = reg.pkgs.keys().cloned().collect();
    let asked: Vec<String> = names.iter().filter(|n| log.contains(*n)).cloned().collect();
    if asked.is_empty() {
        return Err(Stop::Skip("nothing installed"));
    }
    let mut raw: std::collections::BTreeMap<String, Vec<u8>> = Default::default();
    for _ in 0..src.range(1, 4) {
        let n = src.pick(&asked).clone();
        match src.below(6) {
            0 | 1 if !spare.is_empty() => {
                let (n, v) = src.pick(&spare).clone();
                let doc = docs.get_mut(&n).unwrap();
                let mut sub = doc["versions"][&v].clone();
                let mut d = vec![];
                for _ in 0..src.range(1, 2) {
                    d.push(edit(src, &mut sub));
                }
                doc["versions"][&v] = sub;
                hit |= log.contains(&n);
                ctx.label("an unused version mutated");
                ctx.note(format!("{n}@{v}: {}", d.join("; ")));
            }
            2 => {
                // a version that is none
                let k = src.pick(&["latest", "", "abc", "1.x", "*", "1.0.0.0.0x", "☃"]).to_string();
                let v = odd(src, 0);
                ctx.note(format!("{n}: versions/{k} = {}", clip(&v.to_string())));
                docs.get_mut(&n).unwrap()["versions"][k] = v;
                hit = true;
                ctx.label("no version");
            }
            3 => {
                let k = src.pick(&["zz-odd", "", "next!", "0", "__proto__"]).to_string();
                let v = odd(src, 0);
                ctx.note(format!("{n}: dist-tags/{k} = {}", clip(&v.to_string())));
                docs.get_mut(&n).unwrap()["dist-tags"][k] = v;
                hit = true;
                ctx.label("odd tag");
            }
            4 => {
                // what an install doesn't read
                let keys = [
                    "_odd", "x-vendor", "license", "author", "keywords", "engines", "maintainers",
                    "readme", "_npmUser", "repository", "bugs", "homepage", "description", "time",
                    "os", "cpu", "man", "main", "files", "contributors", "exports", "users",
                    "scripts", "directories", "private", "config", "publishConfig",
                ];
                let k = src.pick(&keys).to_string();
                let v = odd(src, 0);
                let doc = docs.get_mut(&n).unwrap();
                let vs: Vec<String> = reg.pkgs[&n].versions.keys().cloned().collect();
                let w = src.pick(&vs).clone();
                let place = src.below(3);
                let d = match place {
                    0 => {
                        doc[&k] = v.clone();
                        format!("{k}")
                    }
                    1 if doc["versions"][&w].is_object() => {
                        doc["versions"][&w][&k] = v.clone();
                        format!("versions/{w}/{k}")
                    }
                    _ if doc["versions"][&w]["dist"].is_object() => {
                        doc["versions"][&w]["dist"][&k] = v.clone();
                        format!("versions/{w}/dist/{k}")
                    }
                    _ => continue,
                };
                ctx.note(format!("{n}: {d} = {}", clip(&v.to_string())));
                hit = true;
                ctx.label("unread field");
            }
            _ => {
                let others: Vec<&String> = names.iter().filter(|n| !log.contains(*n)).collect();
                if others.is_empty() {
                    continue;
                }
                let n = (*src.pick(&others)).clone();
                let mut t = serde_json::to_vec(&docs[&n]).unwrap();
                let d = garble(src, &mut t);
                ctx.note(format!("unused {n}: {d}"));
                raw.insert(n, t);
            }
        }
    }
    ctx.nontrivial = hit;
    srv.reg(|r| {
        for (n, d) in &docs {
            r.raw.insert(n.clone(), serde_json::to_vec(d).unwrap());
        }
        r.raw.extend(raw);
    });
    let q = proj_in(scratch, "two", &srv.base);
    q.write_manifest(&mani.json());
    let o = q.run(apply, Some(srv))?;
    no_crash(apply, &o, "with odd metadata that it doesn't need")?;
    crate::ensure!(
        o.ok(),
        "unneeded-fatal",
        "oro {apply:?} fails because of metadata that it doesn't need: {}",
        o.tail()
    );
    let d = diff_snap(&tree_snap(&p.dir), &tree_snap(&q.dir));
    crate::ensure!(
        d.is_empty(),
        "unneeded-tree",
        "metadata that isn't needed changes the tree: {}",
        d.join("; ")
    );
    crate::ensure!(
        p.read("package-lock.kdl") == q.read("package-lock.kdl"),
        "unneeded-lock",
        "metadata that isn't needed changes the lockfile"
    );
    Ok(())
}

fn anywhere(
    src: &mut Src,
    ctx: &mut Ctx,
    srv: &Server,
    reg: Registry,
    mani: &Mani,
    apply: &[&str],
    scratch: &Path,
) -> CaseResult {
    ctx.label("anywhere");
    let p = proj_in(scratch, "one", &srv.base);
    std::fs::write(scratch.join("one/up"), "kept").unwrap();
    std::fs::write(scratch.join("one/a/b/c/sub"), "kept").unwrap();
    let mut root = mani.json();
    // What an install with the plain registry left, half of the time.
    p.write_manifest(&root);
    let before = src.chance(1, 4);
    if before {
        let out = p.run(apply, Some(srv))?;
        if !out.ok() {
            return Err(Stop::Skip("the plain registry can't be installed"));
        }
        if src.bool() {
            let _ = std::fs::remove_dir_all(p.dir.join("node_modules"));
        }
        p.cache.as_ref().map(std::fs::remove_dir_all);
        ctx.label("after an install");
        srv.take_log();
    }
    // prefer what the manifest names
    let mut near: Vec<(String, String)> = vec![];
    for (n, s) in mani.all() {
        let (real, _) = crate::tree::target_of(&n, &s);
        if let Some(pk) = reg.pkgs.get(&real) {
            near.extend(pk.versions.keys().map(|v| (real.clone(), v.clone())));
        }
    }
    let mut reg = reg;
    let mut touched: BTreeSet<String> = BTreeSet::new();
    let mut docs: std::collections::BTreeMap<String, (Value, Option<String>)> = Default::default();
    let mut rootmut = false;
    let mut versions: Vec<String> = vec![];
    for _ in 0..src.range(1, 3) {
        let among: &[(String, String)] = if src.chance(2, 3) { &near } else { &[] };
        let (n, v) = pick_version(src, &reg, among);
        versions.push(format!("{n}@{v}"));
        match src.below(10) {
            0..=3 => {
                if reg.raw.contains_key(&n) {
                    continue;
                }
                let base = srv.base.clone();
                let e = docs.entry(n.clone()).or_insert_with(|| {
                    (
                        serde_json::from_slice(&reg.packument(&n, &base).unwrap()).unwrap(),
                        None,
                    )
                });
                let d = match src.below(6) {
                    0 => reshape(src, &mut e.0),
                    1 | 2 => {
                        let d = match e.0.get_mut("versions").and_then(|x| x.get_mut(&v)) {
                            Some(x) => reshape(src, x),
                            None => continue,
                        };
                        format!("{v}: {d}")
                    }
                    _ => edit(src, &mut e.0),
                };
                ctx.note(format!("packument {n}: {d}"));
                ctx.label("packument edit");
                touched.insert(n);
            }
            4 => {
                let mut t = reg.packument(&n, &srv.base).unwrap();
                let d = garble(src, &mut t);
                reg.raw.insert(n.clone(), t);
                ctx.note(format!("packument {n}: {d}"));
                ctx.label("packument garbled");
                touched.insert(n);
            }
            5 | 6 => {
                let ver = reg.pkgs.get_mut(&n).unwrap().versions.get_mut(&v).unwrap();
                let mut doc: Value =
                    serde_json::from_slice(&ver.files["package.json"].0).unwrap_or_default();
                let mut d = vec![];
                if src.chance(4, 5) {
                    for _ in 0..src.range(1, 2) {
                        d.push(if src.chance(1, 4) {
                            reshape(src, &mut doc)
                        } else {
                            edit(src, &mut doc)
                        });
                    }
                    ver.files
                        .insert("package.json".into(), (serde_json::to_vec(&doc).unwrap(), 0o644));
                } else {
                    let mut t = serde_json::to_vec(&doc).unwrap();
                    d.push(garble(src, &mut t));
                    ver.files.insert("package.json".into(), (t, 0o644));
                }
                ver.seal(&n, &v);
                ctx.note(format!("{n}@{v} package.json: {}", d.join("; ")));
                ctx.label("package.json edit");
                touched.insert(n);
            }
            7 => {
                let ver = reg.pkgs.get_mut(&n).unwrap().versions.get_mut(&v).unwrap();
                let d = archive(src, ver);
                ctx.note(format!("{n}@{v}: {d}"));
                ctx.label("archive");
                touched.insert(n);
            }
            8 => {
                let ver = reg.pkgs.get_mut(&n).unwrap().versions.get_mut(&v).unwrap();
                let i = src.pick(STRINGS).to_string();
                let which = src.bool();
                if which {
                    ver.integrity = Some(i.clone());
                } else {
                    ver.integrity = None;
                    ver.shasum = Some(i.clone());
                }
                ctx.note(format!("{n}@{v}: integrity {i:?}"));
                ctx.label("integrity");
                touched.insert(n);
            }
            _ => {
                let d = if src.chance(1, 3) {
                    reshape(src, &mut root)
                } else {
                    edit(src, &mut root)
                };
                ctx.note(format!("project: {d}"));
                ctx.label("project package.json");
                rootmut = true;
            }
        }
    }
    // tarball edits after packument edits: take the integrity over
    for (n, (doc, _)) in &mut docs {
        if reg.raw.contains_key(n) {
            continue;
        }
        for (v, ver) in &reg.pkgs[n].versions {
            if let Some(i) = doc
                .get_mut("versions")
                .and_then(|x| x.get_mut(v))
                .and_then(|x| x.get_mut("dist"))
                .and_then(|x| x.get_mut("integrity"))
            {
                if let (true, Some(w)) = (i.as_str().map(|s| s.len() > 60).unwrap_or(false), &ver.integrity) {
                    *i = json!(w);
                }
            }
        }
        reg.raw.insert(n.clone(), serde_json::to_vec(doc).unwrap());
    }
    let names: Vec<String> = reg.pkgs.keys().cloned().collect();
    srv.reg(|r| *r = reg.clone());
    if rootmut {
        let mut t = serde_json::to_vec_pretty(&root).unwrap();
        if src.chance(1, 4) {
            let d = garble(src, &mut t);
            ctx.note(format!("project: {d}"));
        }
        std::fs::write(p.dir.join("package.json"), t).unwrap();
    }
    let out0 = outside(scratch, "one");
    let some = match touched.iter().next() {
        Some(n) if src.chance(3, 4) => n.clone(),
        _ => src.pick(&names).clone(),
    };
    let mut runs: Vec<Vec<&str>> = vec![];
    match src.below(8) {
        0 => runs.push(vec!["view", &some]),
        1 => runs.push(vec!["view", &some, "--json"]),
        2 => runs.push(vec!["add", &some]),
        3 => runs.push(vec!["remove", &some]),
        4 => {
            runs.push(apply.to_vec());
            runs.push(vec!["reapply"]);
        }
        _ => runs.push(apply.to_vec()),
    }
    if src.bool() {
        let v = src.pick(&versions);
        runs.push(vec!["view", v]);
    }
    for args in &runs {
        let o = run_limited(p.command(args), Some(srv), 40)?;
        no_crash(args, &o, "with odd metadata")?;
        ctx.label(format!(
            "{} {}",
            args[0],
            if o.ok() { "succeeds" } else { "fails" }
        ));
        if !o.ok() {
            crate::ensure!(
                !o.stderr.trim().is_empty() || !o.stdout.trim().is_empty(),
                "silent",
                "oro {args:?} fails without saying why"
            );
        }
    }
    let asked = srv.take_log();
    ctx.nontrivial = rootmut
        || asked.iter().any(|r| {
            let q = pct_decode(&r.path);
            touched.iter().any(|n| {
                let q = q.trim_start_matches('/');
                q == n || q.starts_with(&format!("{n}/-/"))
            })
        });
    let d = diff_snap(&out0, &outside(scratch, "one"));
    crate::ensure!(
        d.is_empty(),
        "outside",
        "something outside the project changed: {}",
        d.join("; ")
    );
    Ok(())
}

// ---------------------------------------------------------------- D02

struct Entry {
    path: Vec<String>,
    pkg: LockPkg,
}

/// The package entries of a lockfile, duplicates included.
fn entries(text: &str) -> Option<Vec<Entry>> {
    let doc: kdl::KdlDocument = text.parse().ok()?;
    let mut out = vec![];
    for n in doc.nodes() {
        if n.name().value() != "pkg" {
            continue;
        }
        let path: Vec<String> = n
            .entries()
            .iter()
            .filter(|e| e.name().is_none())
            .filter_map(|e| e.value().as_string().map(|s| s.to_string()))
            .collect();
        let mut p = LockPkg::default();
        if let Some(ch) = n.children() {
            let arg = |k: &str| {
                ch.get(k)
                    .and_then(|c| c.get(0))
                    .and_then(|e| e.as_string())
                    .map(|s| s.to_string())
            };
            p.version = arg("version");
            p.resolved = arg("resolved");
            p.integrity = arg("integrity");
            for k in [
                "dependencies",
                "dev-dependencies",
                "optional-dependencies",
                "peer-dependencies",
            ] {
                let m = p.deps.entry("all".into()).or_default();
                if let Some(cc) = ch.get(k).and_then(|c| c.children()) {
                    for d in cc.nodes() {
                        m.insert(
                            d.name().value().to_string(),
                            d.get(0)
                                .and_then(|e| e.as_string())
                                .unwrap_or("*")
                                .to_string(),
                        );
                    }
                }
            }
        }
        out.push(Entry { path, pkg: p });
    }
    Some(out)
}

/// Whether every entry tells the truth about the package version it names.
/// What a lockfile says about one (its dependencies, tarball and integrity) is
/// taken at its word.
fn truthful(text: &str, old: &[Entry], reg: &Registry, base: &str, aliases: bool) -> bool {
    let Some(now) = entries(text) else {
        // then it can't have been used
        return true;
    };
    now.iter().all(|e| {
        if aliases {
            return old.iter().any(|o| o.path == e.path && o.pkg == e.pkg);
        }
        let (Some(n), Some(v)) = (e.path.last(), &e.pkg.version) else {
            return false;
        };
        let Some(ver) = reg.pkgs.get(n).and_then(|p| p.versions.get(v)) else {
            return false;
        };
        let place = match &e.pkg.resolved {
            None => true,
            Some(r) => *r == tarball_url(base, n, v) && e.pkg.integrity == ver.integrity,
        };
        let mut want: std::collections::BTreeMap<String, String> = ver.deps.iter().cloned().collect();
        want.extend(ver.opt.iter().cloned());
        let said = old.iter().find(|o| {
            o.path.last() == Some(n) && o.pkg.version.as_ref() == Some(v)
        });
        place
            && (e.pkg.deps["all"] == want
                || said.map(|o| o.pkg.deps == e.pkg.deps).unwrap_or(false))
    })
}

fn set_str(ch: &mut kdl::KdlDocument, k: &str, v: kdl::KdlValue) {
    if let Some(i) = ch.nodes().iter().position(|n| n.name().value() == k) {
        ch.nodes_mut().remove(i);
    }
    let mut n = kdl::KdlNode::new(k);
    n.push(kdl::KdlEntry::new(v));
    ch.nodes_mut().push(n);
}

fn odd_kdl(src: &mut Src) -> kdl::KdlValue {
    match src.below(8) {
        0 => kdl::KdlValue::Null,
        1 => kdl::KdlValue::Bool(true),
        2 => kdl::KdlValue::Base10(-1),
        3 => kdl::KdlValue::Base10(i64::MAX),
        4 => kdl::KdlValue::Base10Float(0.5),
        _ => kdl::KdlValue::String(src.pick(STRINGS).to_string()),
    }
}

fn pkg_node(path: &[String], n: &str, v: &str, ver: &Ver, base: &str) -> kdl::KdlNode {
    let mut node = kdl::KdlNode::new("pkg");
    for s in path {
        node.push(s.as_str());
    }
    let ch = node.ensure_children();
    set_str(ch, "version", kdl::KdlValue::String(v.into()));
    set_str(ch, "resolved", kdl::KdlValue::String(tarball_url(base, n, v)));
    if let Some(i) = &ver.integrity {
        set_str(ch, "integrity", kdl::KdlValue::String(i.clone()));
    }
    let mut deps: std::collections::BTreeMap<String, String> = ver.deps.iter().cloned().collect();
    for (k, _) in &ver.opt {
        deps.remove(k);
    }
    let opt: std::collections::BTreeMap<String, String> = ver.opt.iter().cloned().collect();
    for (k, m) in [("dependencies", deps), ("optional-dependencies", opt)] {
        if m.is_empty() {
            continue;
        }
        let mut d = kdl::KdlNode::new(k);
        for (a, b) in m {
            let mut x = kdl::KdlNode::new(a);
            x.push(b);
            d.ensure_children().nodes_mut().push(x);
        }
        ch.nodes_mut().push(d);
    }
    node
}

fn kdl_edit(src: &mut Src, text: &str, reg: &Registry, base: &str) -> (String, String) {
    let Ok(mut doc) = text.parse::<kdl::KdlDocument>() else {
        return (text.into(), "-".into());
    };
    let idx: Vec<usize> = doc
        .nodes()
        .iter()
        .enumerate()
        .filter(|(_, n)| n.name().value() == "pkg")
        .map(|(i, _)| i)
        .collect();
    let names: Vec<String> = reg.pkgs.keys().cloned().collect();
    let paths: Vec<Vec<String>> = entries(text)
        .unwrap_or_default()
        .into_iter()
        .map(|e| e.path)
        .collect();
    let what = src.below(23);
    let d;
    if (16..20).contains(&what) || idx.is_empty() {
        // some package version at some place
        let n = src.pick(&names).clone();
        let vs: Vec<String> = reg.pkgs[&n].versions.keys().cloned().collect();
        let v = src.pick(&vs).clone();
        let mut path = vec![];
        if !paths.is_empty() && src.bool() {
            path = src.pick(&paths).clone();
        }
        path.push(n.clone());
        let node = pkg_node(&path, &n, &v, &reg.pkgs[&n].versions[&v], base);
        let at = src.usize(doc.nodes().len() + 1);
        doc.nodes_mut().insert(at, node);
        d = format!("added {path:?} {v}");
        return (doc.to_string(), d);
    }
    let k = src.usize(idx.len());
    let i = idx[k];
    let path = paths[k].clone();
    match what {
        0 | 1 => {
            doc.nodes_mut().remove(i);
            d = format!("without {path:?}");
        }
        2 => {
            let n = doc.nodes()[i].clone();
            doc.nodes_mut().push(n);
            d = format!("{path:?} twice");
        }
        3 | 4 => {
            // somewhere else
            let mut p = match src.below(3) {
                0 => vec![],
                1 if !paths.is_empty() => src.pick(&paths).clone(),
                _ => vec![src.pick(&names).clone()],
            };
            p.push(path.last().cloned().unwrap_or_default());
            d = format!("{path:?} moved to {p:?}");
            let node = &mut doc.nodes_mut()[i];
            node.entries_mut().clear();
            for s in p {
                node.push(s);
            }
        }
        5 | 6 => {
            // another version of it
            let n = path.last().cloned().unwrap_or_default();
            let Some(p) = reg.pkgs.get(&n) else {
                return (text.into(), "-".into());
            };
            let vs: Vec<String> = p.versions.keys().cloned().collect();
            let v = src.pick(&vs).clone();
            doc.nodes_mut()[i] = pkg_node(&path, &n, &v, &p.versions[&v], base);
            d = format!("{path:?} at {v}");
        }
        7 => {
            let keys = ["version", "resolved", "integrity", "dependencies", "optional-dependencies"];
            let key = *src.pick(&keys);
            if let Some(ch) = doc.nodes_mut()[i].children_mut() {
                ch.nodes_mut().retain(|n| n.name().value() != key);
            }
            d = format!("{path:?} without {key}");
        }
        8 => {
            if let Some(ch) = doc.nodes_mut()[i].children_mut() {
                ch.nodes_mut()
                    .retain(|n| !matches!(n.name().value(), "resolved" | "integrity"));
            }
            d = format!("{path:?} without resolved, integrity");
        }
        9 | 10 => {
            let keys = ["version", "resolved", "integrity", "dependencies", "optional-dependencies"];
            let key = *src.pick(&keys);
            let v = odd_kdl(src);
            d = format!("{path:?} {key} {v}");
            set_str(doc.nodes_mut()[i].ensure_children(), key, v);
        }
        11 => {
            let v = odd_kdl(src);
            let j = src.usize(path.len() + 1);
            d = format!("{path:?} argument {j} = {v}");
            let node = &mut doc.nodes_mut()[i];
            if j < node.entries().len() {
                node.entries_mut()[j] = kdl::KdlEntry::new(v);
            } else {
                node.push(kdl::KdlEntry::new(v));
            }
        }
        12 => {
            // a dependency list that lies
            let name = src.pick(&["zz-missing", "../../x", "", ".bin", "a/b", "@x", "A"]).to_string();
            let spec = odd_kdl(src);
            d = format!("{path:?} depends on {name} {spec}");
            let ch = doc.nodes_mut()[i].ensure_children();
            if ch.get("dependencies").is_none() {
                ch.nodes_mut().push(kdl::KdlNode::new("dependencies"));
            }
            let mut x = kdl::KdlNode::new(name);
            x.push(kdl::KdlEntry::new(spec));
            ch.get_mut("dependencies").unwrap().ensure_children().nodes_mut().push(x);
        }
        20.. => {
            // a slip of the pen
            let ch = doc.nodes_mut()[i].ensure_children();
            let old = ch.get_arg("integrity").and_then(|v| v.as_string()).unwrap_or("").to_string();
            let v = slip(src, &old);
            d = format!("{path:?} integrity {v}");
            set_str(ch, "integrity", kdl::KdlValue::String(v));
        }
        13 => {
            let v = odd_kdl(src);
            d = format!("lockfile-version {v}");
            set_str(&mut doc, "lockfile-version", v);
        }
        14 => {
            let how = src.below(3);
            d = format!("root edit {how}");
            if let Some(r) = doc.nodes().iter().position(|n| n.name().value() == "root") {
                match how {
                    0 => {
                        doc.nodes_mut().remove(r);
                    }
                    1 => doc.nodes_mut()[r].clear_children(),
                    _ => {
                        let n = doc.nodes()[r].clone();
                        doc.nodes_mut().push(n);
                    }
                }
            }
        }
        _ => {
            let up = path.iter().map(|s| s.to_uppercase()).collect::<Vec<_>>();
            d = format!("{path:?} in capitals");
            let node = &mut doc.nodes_mut()[i];
            node.entries_mut().clear();
            for s in up {
                node.push(s);
            }
        }
    }
    (doc.to_string(), d)
}

fn line_edit(src: &mut Src, text: &str) -> (String, String) {
    let mut ls: Vec<String> = text.lines().map(|s| s.to_string()).collect();
    if ls.is_empty() {
        return (text.into(), "-".into());
    }
    let i = src.usize(ls.len());
    let d = match src.below(5) {
        0 => format!("line {i} gone: {}", ls.remove(i)),
        1 => {
            let l = ls[i].clone();
            ls.insert(i, l.clone());
            format!("line {i} twice: {l}")
        }
        2 => {
            let j = src.usize(ls.len());
            ls.swap(i, j);
            format!("lines {i} and {j} swapped")
        }
        3 => {
            ls[i] = format!("/-{}", ls[i]);
            format!("line {i} commented out")
        }
        _ => {
            ls.truncate(i);
            format!("only the first {i} lines")
        }
    };
    (ls.join("\n") + "\n", d)
}

/// A slip of the pen in an integrity.
fn slip(src: &mut Src, old: &str) -> String {
    let mut c: Vec<char> = old.chars().collect();
    let j = src.usize(c.len().max(1)).min(c.len());
    match src.below(4) {
        0 => c.truncate(j),
        1 => c.insert(j, *src.pick(&['!', ' ', '-', 'é', '='])),
        2 if j < c.len() => {
            c.remove(j);
        }
        _ => c = old.replacen('-', *src.pick(&["_", "", " "]), 1).chars().collect(),
    }
    c.into_iter().collect()
}

/// Lockfiles with damaged integrities are no way around checking what's
/// downloaded: either they're rejected, or what comes is still checked.
fn d02_forged(src: &mut Src, ctx: &mut Ctx, p: &Proj, srv: &Server, reg: &Registry, apply: &[&str], lock: &str) -> CaseResult {
    let Ok(mut doc) = lock.parse::<kdl::KdlDocument>() else {
        return Err(Stop::Skip("unreadable lockfile"));
    };
    let mut did = vec![];
    let n = doc.nodes().len();
    let first = src.usize(n.max(1));
    for i in (0..n).filter(|i| *i != first).map(|i| (i, false)).chain([(first, true)]).collect::<Vec<_>>() {
        let (i, always) = i;
        if i >= n || !(always || src.chance(1, 3)) {
            continue;
        }
        let ch = doc.nodes_mut()[i].ensure_children();
        let Some(old) = ch.get_arg("integrity").and_then(|v| v.as_string()).map(String::from) else { continue };
        let res = ch.get_arg("resolved").and_then(|v| v.as_string()).unwrap_or("").to_string();
        let v = slip(src, &old);
        if v.trim().is_empty() || v.trim() == old {
            continue;
        }
        let Some((name, ver)) = reg
            .pkgs
            .iter()
            .flat_map(|(n, p)| p.versions.keys().map(move |v| (n, v)))
            .find(|(n, v)| crate::registry::tarball_url(&srv.base, n, v) == res)
        else {
            continue;
        };
        did.push(format!("{name}@{ver} integrity {v:?}"));
        set_str(ch, "integrity", kdl::KdlValue::String(v));
        srv.reg(|r| {
            let ver = r.pkgs.get_mut(name).unwrap().versions.get_mut(ver).unwrap();
            let mut files: Vec<(String, Vec<u8>, u32)> = vec![];
            for (f, (b, m)) in &ver.files {
                files.push((format!("package/{f}"), b.clone(), *m));
            }
            files.push(("package/FORGED".into(), b"x".to_vec(), 0o644));
            ver.tarball = crate::registry::make_tgz(&files);
        });
    }
    if did.is_empty() {
        return Err(Stop::Skip("no integrity to damage"));
    }
    ctx.note(format!("forged: {}", did.join("; ")));
    ctx.label("forged tarballs");
    ctx.nontrivial = true;
    std::fs::write(p.dir.join("package-lock.kdl"), doc.to_string()).unwrap();
    let _ = std::fs::remove_dir_all(p.dir.join("node_modules"));
    p.cache.as_ref().map(std::fs::remove_dir_all);
    let o = run_limited(p.command(apply), Some(srv), 40)?;
    no_crash(apply, &o, "with a damaged lockfile")?;
    let bad: Vec<String> = snapshot(&p.dir).keys().filter(|k| k.ends_with("/FORGED")).cloned().collect();
    crate::ensure!(bad.is_empty(), "forged", "installed what wasn't published: {bad:?}");
    ctx.label(if o.ok() { "accepted" } else { "rejected" });
    Ok(())
}

fn mani_now(p: &Proj) -> Option<Mani> {
    let v = read_json(&p.dir.join("package.json"))?;
    let get = |k: &str| {
        v[k].as_object()
            .map(|m| {
                m.iter()
                    .map(|(a, b)| (a.clone(), b.as_str().unwrap_or("").to_string()))
                    .collect()
            })
            .unwrap_or_default()
    };
    Some(Mani {
        deps: get("dependencies"),
        dev: get("devDependencies"),
        opt: get("optionalDependencies"),
        extra: Map::new(),
    })
}

fn d02(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let aliases = src.chance(1, 4);
    let o = RegOpts {
        aliases,
        max_pkgs: 6,
        max_versions: 3,
        bins: true,
        ..Default::default()
    };
    let reg = gen_registry(src, &o);
    let mut mani = gen_mani(src, &reg, &o, 4);
    let hoisted = src.bool();
    let scratch = ctx.scratch();
    ctx.note(format!("manifest {} hoisted={hoisted}", mani.json()));
    ctx.note(describe_registry(&reg));
    let srv = Server::start(reg.clone());
    let mut apply = vec!["apply"];
    if hoisted {
        apply.push("--hoisted");
    }
    let p = proj_in(&scratch, "one", &srv.base);
    std::fs::write(scratch.join("one/up"), "kept").unwrap();
    p.write_manifest(&mani.json());
    if !p.run(&apply, Some(&srv))?.ok() {
        return Err(Stop::Skip("the plain registry can't be installed"));
    }
    let Some(orig) = p.read("package-lock.kdl") else {
        return Err(Stop::Skip("no lockfile"));
    };
    if src.chance(1, 8) {
        return d02_forged(src, ctx, &p, &srv, &reg, &apply, &orig);
    }
    let olds = entries(&orig).unwrap_or_default();
    if src.chance(1, 4) {
        if src.bool() || mani.len() < 2 {
            add_root_dep(src, &reg, &o, &mut mani);
        } else {
            let k: Vec<String> = mani.all().keys().cloned().collect();
            let k = src.pick(&k).clone();
            mani.remove(&k);
        }
        p.write_manifest(&mani.json());
        ctx.note(format!("then {}", mani.json()));
        ctx.label("changed manifest");
    }
    let meta = p.dir.join("node_modules/.orogene-meta.kdl");
    let in_meta = src.chance(1, 3);
    let file = if in_meta {
        if src.chance(1, 3) {
            let _ = std::fs::remove_file(p.dir.join("package-lock.kdl"));
        }
        meta
    } else {
        if src.bool() {
            let _ = std::fs::remove_dir_all(p.dir.join("node_modules"));
            ctx.label("without node_modules");
        }
        p.dir.join("package-lock.kdl")
    };
    if src.chance(1, 3) {
        p.cache.as_ref().map(std::fs::remove_dir_all);
    }
    let Ok(before) = std::fs::read_to_string(&file) else {
        return Err(Stop::Skip("no metadata file"));
    };
    let metas = entries(&before).unwrap_or_default();
    let mut text = before.clone().into_bytes();
    let mut did = vec![];
    for _ in 0..src.range(1, 4) {
        let now = String::from_utf8_lossy(&text).to_string();
        let (t, d) = match src.below(8) {
            0 => {
                let d = garble(src, &mut text);
                did.push(d);
                continue;
            }
            1 => line_edit(src, &now),
            _ => kdl_edit(src, &now, &reg, &srv.base),
        };
        text = t.into_bytes();
        did.push(d);
    }
    // The KDL parser's stack is not ours to fix: see the known findings of F02.
    let deep = text.windows(40).any(|w| w.iter().all(|b| *b == b'['));
    let nest = text.windows(24).filter(|w| w == b"{\"versions\":{\"versions\":{").count() > 10;
    if deep || nest {
        return Err(Stop::Skip("deep nesting"));
    }
    ctx.note(format!(
        "{}: {}",
        if in_meta { "meta" } else { "lockfile" },
        did.join("; ")
    ));
    std::fs::write(&file, &text).unwrap();
    let text = String::from_utf8_lossy(&text).to_string();
    let honest = if in_meta {
        let now = entries(&text);
        match now {
            None => true,
            Some(now) => now
                .iter()
                .all(|e| metas.iter().any(|o| o.path == e.path && o.pkg == e.pkg)),
        }
    } else {
        truthful(&text, &olds, &reg, &srv.base, aliases)
    };
    ctx.label(if honest { "truthful entries" } else { "lying entries" });
    ctx.nontrivial = text != before;
    let out0 = outside(&scratch, "one");
    let names: Vec<String> = reg.pkgs.keys().cloned().collect();
    let some = src.pick(&names).clone();
    let mut args: Vec<&str> = apply.clone();
    match src.below(10) {
        0 => args.push("--locked"),
        1 => {
            args[0] = "add";
            args.push(&some);
        }
        2 => {
            args[0] = "remove";
            args.push(&some);
        }
        3 => args[0] = "reapply",
        _ => {}
    }
    ctx.label(args[0].to_string());
    let o = run_limited(p.command(&args), Some(&srv), 40)?;
    let what = if in_meta {
        "with damaged metadata in node_modules"
    } else {
        "with a damaged lockfile"
    };
    no_crash(&args, &o, what)?;
    let d = diff_snap(&out0, &outside(&scratch, "one"));
    crate::ensure!(
        d.is_empty(),
        "outside",
        "something outside the project changed: {}",
        d.join("; ")
    );
    if !o.ok() {
        ctx.label("rejected");
        return Ok(());
    }
    ctx.label("accepted");
    let now = super::lock::lock_of(&p, "accepted")?.1;
    if !honest {
        return Ok(());
    }
    let Some(mani) = mani_now(&p) else {
        return fail("manifest", "package.json is not readable any more");
    };
    check_tree_of(&p, &reg, &mani, &args, what)?;
    let whole = entries(&text)
        .map(|v| v.iter().all(|e| e.pkg.resolved.is_some()))
        .unwrap_or(true);
    if whole {
        super::lock::check_lock(&now, &reg, &srv.base, &mani)?;
    }
    super::lock::check_lock_tree(&p.dir, &now, hoisted)?;
    Ok(())
}

fn check_tree_of(p: &Proj, reg: &Registry, mani: &Mani, args: &[&str], what: &str) -> CaseResult {
    match crate::tree::check_tree(&p.dir, reg, mani) {
        Ok(_) => Ok(()),
        Err(Stop::Fail(f)) => fail(f.sig, format!("oro {args:?} {what}: {}", f.msg)),
        Err(e) => Err(e),
    }
}

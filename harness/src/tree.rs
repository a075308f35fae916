//! Oracle over an installed node_modules: does it satisfy every declared
//! dependency the way Node looks packages up, and contain nothing else?
use crate::engine::{fail, Stop};
use crate::ensure;
use crate::gen::Mani;
use crate::proj::*;
use crate::registry::*;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::path::{Path, PathBuf};

#[derive(Debug, Clone)]
pub struct Inst {
    pub name: String,
    pub version: String,
}

/// (real package name, version spec) of a dependency entry.
pub fn target_of(name: &str, spec: &str) -> (String, String) {
    if let Some(r) = spec.strip_prefix("npm:") {
        let at = r[1..].find('@').map(|i| i + 1);
        match at {
            Some(i) => (r[..i].to_string(), r[i + 1..].to_string()),
            None => (r.to_string(), "*".to_string()),
        }
    } else {
        (name.to_string(), spec.to_string())
    }
}

pub fn spec_ok(pkg: &Pkg, spec: &str, version: &str) -> bool {
    let v = node_semver::Version::parse(version).unwrap();
    if let Ok(r) = node_semver::Range::parse(spec) {
        return r.satisfies(&v);
    }
    pkg.tags.get(spec).map(|t| t == version).unwrap_or(false)
}

/// All package directories below the project's node_modules (dirs directly in a
/// node_modules or scope dir which are not links).
pub fn package_dirs(root: &Path) -> BTreeSet<PathBuf> {
    let mut out = BTreeSet::new();
    fn nm(dir: &Path, out: &mut BTreeSet<PathBuf>) {
        let Ok(rd) = std::fs::read_dir(dir) else { return };
        for e in rd.flatten() {
            let p = e.path();
            let f = e.file_name().to_string_lossy().to_string();
            let md = std::fs::symlink_metadata(&p).unwrap();
            if md.file_type().is_symlink() || !md.is_dir() {
                continue;
            }
            if f == ".oro-store" {
                if let Ok(rd) = std::fs::read_dir(&p) {
                    for s in rd.flatten() {
                        let sp = s.path();
                        if s.file_name().to_string_lossy().starts_with('@')
                            && !sp.join("node_modules").exists()
                        {
                            if let Ok(rd) = std::fs::read_dir(&sp) {
                                for t in rd.flatten() {
                                    nm(&t.path().join("node_modules"), out);
                                }
                            }
                        } else {
                            nm(&sp.join("node_modules"), out);
                        }
                    }
                }
            } else if f.starts_with('.') {
                continue;
            } else if f.starts_with('@') {
                if let Ok(rd) = std::fs::read_dir(&p) {
                    for s in rd.flatten() {
                        let md = std::fs::symlink_metadata(s.path()).unwrap();
                        if md.is_dir() && !md.file_type().is_symlink() {
                            out.insert(s.path());
                            nm(&s.path().join("node_modules"), out);
                        }
                    }
                }
            } else {
                out.insert(p.clone());
                nm(&p.join("node_modules"), out);
            }
        }
    }
    nm(&root.join("node_modules"), &mut out);
    out
}

/// Check the tree; returns every installed package by directory.
pub fn check_tree(
    proj: &Path,
    reg: &Registry,
    mani: &Mani,
) -> Result<BTreeMap<PathBuf, Inst>, Stop> {
    let mut seen: BTreeMap<PathBuf, Inst> = BTreeMap::new();
    let mut q: VecDeque<(PathBuf, String, Vec<(String, String)>)> = VecDeque::new();
    q.push_back((
        proj.to_path_buf(),
        "<root>".into(),
        mani.all().into_iter().collect(),
    ));
    while let Some((dir, who, deps)) = q.pop_front() {
        for (name, spec) in deps {
            let (real, range) = target_of(&name, &spec);
            let Some(found) = node_lookup(&dir, &name, proj) else {
                return fail(
                    "dep-missing",
                    format!("{who} cannot load its dependency {name}@{spec}"),
                );
            };
            let Some(pj) = read_json(&found.join("package.json")) else {
                return fail("bad-package-json", format!("{}", found.display()));
            };
            let an = pj["name"].as_str().unwrap_or("").to_string();
            let av = pj["version"].as_str().unwrap_or("").to_string();
            ensure!(
                an == real,
                "dep-wrong-package",
                "{who} asks for {name}@{spec} (package {real}) but loads {an}@{av}"
            );
            let Some(pkg) = reg.pkgs.get(&real) else {
                return fail("dep-unknown", format!("{real} not in registry"));
            };
            ensure!(
                pkg.versions.contains_key(&av),
                "dep-unknown-version",
                "{real}@{av} is not a published version"
            );
            ensure!(
                spec_ok(pkg, &range, &av),
                "dep-unsatisfied",
                "{who} asks for {name}@{spec} but loads {an}@{av}"
            );
            if !seen.contains_key(&found) {
                let ver = &pkg.versions[&av];
                check_contents(&found, ver, &format!("{an}@{av}"))?;
                let mut m: BTreeMap<String, String> = ver.deps.iter().cloned().collect();
                m.extend(ver.opt.iter().cloned());
                q.push_back((
                    found.clone(),
                    format!("{an}@{av}"),
                    m.into_iter().collect(),
                ));
                seen.insert(
                    found,
                    Inst {
                        name: an,
                        version: av,
                    },
                );
            }
        }
    }
    for d in package_dirs(proj) {
        ensure!(
            seen.contains_key(&d),
            "extraneous",
            "{} is installed but nothing depends on it there",
            d.strip_prefix(proj).unwrap().display()
        );
    }
    Ok(seen)
}

/// The package's own files are exactly those of the published version.
pub fn check_contents(dir: &Path, ver: &Ver, what: &str) -> Result<(), Stop> {
    let snap = snapshot(dir);
    for (p, (b, _)) in &ver.files {
        match snap.get(p) {
            Some(Ent::File(c, _)) if c == b => {}
            Some(Ent::File(c, _)) => {
                return fail(
                    "content",
                    format!(
                        "{what}: {p} holds {:?} instead of {:?}",
                        String::from_utf8_lossy(&c[..c.len().min(80)]),
                        String::from_utf8_lossy(&b[..b.len().min(80)])
                    ),
                )
            }
            _ => return fail("content", format!("{what}: file {p} is missing")),
        }
    }
    for (p, e) in &snap {
        if p.split('/').any(|c| c == "node_modules") {
            continue;
        }
        if let Ent::Dir = e {
            ensure!(
                ver.files.keys().any(|f| f.starts_with(&format!("{p}/"))),
                "content",
                "{what}: stray directory {p}"
            );
        } else {
            ensure!(
                ver.files.contains_key(p),
                "content",
                "{what}: stray file {p}"
            );
        }
    }
    Ok(())
}

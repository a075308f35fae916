//! Generators of registries and project manifests.
use crate::engine::Src;
use crate::registry::*;
use serde_json::{json, Map, Value};
use std::collections::BTreeMap;

pub struct RegOpts {
    pub names: Vec<&'static str>,
    pub max_pkgs: usize,
    pub max_versions: usize,
    pub max_deps: usize,
    pub tags_as_specs: bool,
    pub aliases: bool,
    pub opt_deps: bool,
    pub bins: bool,
    pub scripts: bool,
    pub prerelease: bool,
    pub extra_files: bool,
}
impl Default for RegOpts {
    fn default() -> Self {
        RegOpts {
            names: vec!["a", "b", "c", "d.e", "e_f", "f", "@s/a", "@s/g", "@t/b.c"],
            max_pkgs: 7,
            max_versions: 4,
            max_deps: 3,
            tags_as_specs: false,
            aliases: true,
            opt_deps: true,
            bins: false,
            scripts: false,
            prerelease: false,
            extra_files: true,
        }
    }
}

pub const VERSIONS: &[&str] = &["1.0.0", "1.1.0", "1.1.1", "1.2.0", "2.0.0", "2.1.0", "3.0.0"];

/// A range that `v` satisfies (and that the chosen package can satisfy).
pub fn gen_range(src: &mut Src, v: &str) -> String {
    if v.contains('-') {
        return match src.below(2) {
            0 => v.to_string(),
            _ => format!("^{v}"),
        };
    }
    let p: Vec<&str> = v.split('.').collect();
    match src.below(12) {
        0 | 1 | 2 => format!("^{v}"),
        3 => v.to_string(),
        4 => format!("~{v}"),
        5 => format!(">={v}"),
        6 => format!("{}.x", p[0]),
        7 => p[0].to_string(),
        8 => "*".to_string(),
        9 => format!("{}.{}.x", p[0], p[1]),
        10 => format!("<={v}"),
        _ => format!("^{v} || ^9.0.0"),
    }
}

pub fn gen_spec(src: &mut Src, reg: &Registry, target: &str, o: &RegOpts) -> String {
    let pkg = &reg.pkgs[target];
    let vs: Vec<String> = pkg.versions.keys().cloned().collect();
    if o.tags_as_specs && src.chance(1, 8) {
        let t: Vec<String> = pkg.tags.keys().cloned().collect();
        return src.pick(&t).clone();
    }
    let v = src.pick(&vs).clone();
    gen_range(src, &v)
}

/// A dependency map entry: (name it is installed under, spec).
pub fn gen_dep(src: &mut Src, reg: &Registry, target: &str, o: &RegOpts) -> (String, String) {
    let spec = gen_spec(src, reg, target, o);
    maybe_alias(src, target, spec, o, true)
}

/// Some alias names stand for different packages in different places, and in
/// a project an alias may hide a real package. Only dependencies that don't
/// close a cycle get these (`forward`): otherwise no finite nested tree may
/// exist.
fn maybe_alias(
    src: &mut Src,
    target: &str,
    spec: String,
    o: &RegOpts,
    forward: bool,
) -> (String, String) {
    if o.aliases && src.chance(1, 10) {
        let short = target.replace('@', "").replace('/', "-");
        let alias = match src.below(if forward { 5 } else { 3 }) {
            0 | 1 => format!("al-{short}"),
            2 => format!("@al/{short}"),
            3 => "al".to_string(),
            _ => "@al/any".to_string(),
        };
        (alias, format!("npm:{target}@{spec}"))
    } else {
        (target.to_string(), spec)
    }
}

pub fn gen_deps(
    src: &mut Src,
    reg: &Registry,
    o: &RegOpts,
    max: usize,
    not: &str,
) -> Vec<(String, String)> {
    let names: Vec<String> = reg.pkgs.keys().filter(|n| *n != not).cloned().collect();
    let n = src.usize(max + 1).max(src.usize(max + 1));
    let mut m = BTreeMap::new();
    for _ in 0..n {
        if names.is_empty() {
            break;
        }
        let t = src.pick(&names).clone();
        let (k, s) = if reg.rank(&t) > reg.rank(not) {
            gen_dep(src, reg, &t, o)
        } else {
            // A dependency back to a package of lower rank closes a cycle. With
            // arbitrary ranges such cycles can have no finite nested tree (a
            // recorded finding), so these accept any version.
            if o.prerelease {
                continue;
            }
            maybe_alias(src, &t, "*".to_string(), o, false)
        };
        m.insert(k, s);
    }
    m.into_iter().collect()
}

pub fn gen_registry(src: &mut Src, o: &RegOpts) -> Registry {
    let mut reg = Registry::default();
    let m = o.max_pkgs.min(o.names.len());
    let n = src.range(1, m).max(src.range(1, m));
    let mut names = o.names.clone();
    src.shuffle(&mut names);
    reg.order = names[..n].iter().map(|s| s.to_string()).collect();
    for name in &names[..n] {
        let mut vs: Vec<&str> = VERSIONS.to_vec();
        if o.prerelease {
            vs.extend(["1.2.0-beta.1", "2.0.0-rc.1", "3.0.0-alpha"]);
        }
        src.shuffle(&mut vs);
        let k = src.range(1, o.max_versions);
        let mut p = Pkg::default();
        for v in &vs[..k] {
            p.versions.insert(v.to_string(), Ver::default());
        }
        retag(&mut p, src);
        reg.pkgs.insert(name.to_string(), p);
    }
    for name in &names[..n] {
        let vs: Vec<String> = reg.pkgs[*name].versions.keys().cloned().collect();
        for v in vs {
            let ver = gen_version(src, &reg, name, &v, o);
            reg.pkgs
                .get_mut(*name)
                .unwrap()
                .versions
                .insert(v, ver);
        }
    }
    reg
}

pub fn retag(p: &mut Pkg, src: &mut Src) {
    let mut vs: Vec<String> = p.versions.keys().cloned().collect();
    vs.sort_by_key(|v| node_semver::Version::parse(v).unwrap());
    let latest = if src.chance(1, 5) {
        src.pick(&vs).clone()
    } else {
        vs.last().unwrap().clone()
    };
    p.tags.insert("latest".into(), latest);
    if src.chance(1, 3) {
        p.tags.insert("next".into(), src.pick(&vs).clone());
    }
}

pub fn gen_version(src: &mut Src, reg: &Registry, name: &str, v: &str, o: &RegOpts) -> Ver {
    let mut ver = Ver::default();
    ver.deps = gen_deps(src, reg, o, o.max_deps, name);
    if o.opt_deps && src.chance(1, 6) {
        ver.opt = gen_deps(src, reg, o, 1, name);
        let have: Vec<String> = ver.deps.iter().map(|d| d.0.clone()).collect();
        ver.opt.retain(|d| !have.contains(&d.0));
        if src.chance(1, 4) {
            // npm used to publish optional dependencies among the others, too
            ver.deps.extend(ver.opt.iter().cloned());
        }
    }
    if src.chance(1, 10) {
        // never installed for a non-root package
        ver.dev = vec![("not-a-package".into(), "^1.0.0".into())];
    }
    ver.files.insert(
        "index.js".into(),
        (format!("// {name}@{v}\n").into_bytes(), 0o644),
    );
    if o.extra_files && src.chance(1, 3) {
        ver.files.insert(
            format!("lib/deep/{}.js", v.replace('.', "_")),
            (format!("// deep {name}@{v}\n").into_bytes(), 0o644),
        );
    }
    if o.bins && src.chance(1, 2) {
        let short = name.rsplit('/').next().unwrap().to_string();
        let k = src.range(1, 2);
        for i in 0..k {
            let bn = if i == 0 && src.bool() {
                short.clone()
            } else {
                format!("{}-{}", src.pick(&["cli", "tool"]), short)
            };
            let path = if src.bool() {
                format!("bin/{bn}.js")
            } else {
                format!("./{bn}")
            };
            ver.files.insert(
                path.trim_start_matches("./").to_string(),
                (
                    format!("#!/bin/sh\necho {name}@{v} {bn}\n").into_bytes(),
                    if src.bool() { 0o755 } else { 0o644 },
                ),
            );
            ver.bins.retain(|b| b.0 != bn);
            ver.bins.push((bn, path));
        }
    }
    ver.seal(name, v);
    ver
}

/// Root manifest.
#[derive(Clone, Debug, Default)]
pub struct Mani {
    pub deps: BTreeMap<String, String>,
    pub dev: BTreeMap<String, String>,
    pub opt: BTreeMap<String, String>,
    pub extra: Map<String, Value>,
}
impl Mani {
    pub fn json(&self) -> Value {
        let mut m = Map::new();
        m.insert("name".into(), json!("proj"));
        m.insert("version".into(), json!("1.0.0"));
        for (k, d) in [
            ("dependencies", &self.deps),
            ("devDependencies", &self.dev),
            ("optionalDependencies", &self.opt),
        ] {
            if !d.is_empty() {
                let mut mm = Map::new();
                for (a, b) in d {
                    mm.insert(a.clone(), json!(b));
                }
                m.insert(k.into(), Value::Object(mm));
            }
        }
        for (k, v) in &self.extra {
            m.insert(k.clone(), v.clone());
        }
        Value::Object(m)
    }
    pub fn all(&self) -> BTreeMap<String, String> {
        let mut m = self.deps.clone();
        m.extend(self.opt.clone());
        m.extend(self.dev.clone());
        m
    }
    pub fn len(&self) -> usize {
        self.deps.len() + self.dev.len() + self.opt.len()
    }
    pub fn remove(&mut self, k: &str) {
        self.deps.remove(k);
        self.dev.remove(k);
        self.opt.remove(k);
    }
}

pub fn gen_mani(src: &mut Src, reg: &Registry, o: &RegOpts, max: usize) -> Mani {
    let mut m = Mani::default();
    let n = src.range(1, max);
    for _ in 0..n {
        add_root_dep(src, reg, o, &mut m);
    }
    m
}
pub fn add_root_dep(src: &mut Src, reg: &Registry, o: &RegOpts, m: &mut Mani) {
    let names: Vec<String> = reg.pkgs.keys().cloned().collect();
    let t = src.pick(&names).clone();
    let (mut k, mut s) = gen_dep(src, reg, &t, o);
    if o.aliases && src.chance(1, 12) {
        // What's been called something else, or by the name of something else.
        let old: Vec<String> = m.all().keys().cloned().collect();
        k = match src.below(2) {
            0 if !old.is_empty() => src.pick(&old).clone(),
            _ => src.pick(&names).clone(),
        };
        if !s.starts_with("npm:") && k != t {
            s = format!("npm:{t}@{s}");
        }
    }
    m.remove(&k);
    match src.below(6) {
        0 => m.dev.insert(k, s),
        1 if o.opt_deps => m.opt.insert(k, s),
        _ => m.deps.insert(k, s),
    };
}

pub fn describe_registry(reg: &Registry) -> String {
    let mut s = String::new();
    for (n, p) in &reg.pkgs {
        for (v, ver) in &p.versions {
            s.push_str(&format!("{n}@{v}"));
            let mut d: Vec<String> = vec![];
            for (k, r) in &ver.deps {
                d.push(format!("{k}:{r}"));
            }
            for (k, r) in &ver.opt {
                d.push(format!("opt {k}:{r}"));
            }
            for (k, r) in &ver.bins {
                d.push(format!("bin {k}={r}"));
            }
            for (k, r) in &ver.scripts {
                d.push(format!("script {k}={r}"));
            }
            if !d.is_empty() {
                s.push_str(&format!(" ({})", d.join(", ")));
            }
            s.push_str("; ");
        }
        s.push_str(&format!("tags {:?}\n", p.tags));
    }
    s
}

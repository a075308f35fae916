//! Editing package.json: `oro add`, `oro remove` and the formatting they keep.
use super::linker::apply_args;
use super::lock::*;
use super::select::key;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::proj::*;
use crate::registry::*;
use crate::tree::*;
use serde_json::{json, Map, Value};
use std::collections::BTreeMap;

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "M01",
            rule: "history of 1-4 add/remove commands (every section switch, spec kind and prefix, several packages at once, absent names, failing ones) against a model of package.json, tree and lockfile checked after each; non-trivial: >= 2 commands of which one replaces, moves or removes an existing entry or fails",
            level: "exploration",
            quick: 260,
            thorough: 4000,
            threads: 8,
            shrink: 80,
            case: m01,
            fixed: vec![],
            assumptions: vec!["registry specs only"],
        },
        Check {
            id: "M02",
            rule: "generated JSON document rendered with a generated indentation, line ending, blank lines and escapes; round trip through oro-pretty-json, one case in 600 through `oro add` or `oro remove`; non-trivial: nested document with >= 3 keys in a format other than two spaces and LF",
            level: "exploration",
            quick: 120000,
            thorough: 2500000,
            threads: 8,
            shrink: 400,
            case: m02,
            fixed: vec![],
            assumptions: vec!["files formatted the way JSON.stringify does, apart from blank lines and escapes"],
        },
    ]
}

// ---------------------------------------------------------------- rendering

#[derive(Clone, Debug)]
pub struct Fmt {
    pub indent: String,
    pub eol: &'static str,
    pub trailing: bool,
}

fn gen_fmt(src: &mut Src) -> Fmt {
    let c = if src.bool() { " " } else { "\t" };
    let k = src.range(0, 8).min(src.range(0, 8));
    Fmt {
        indent: c.repeat(k),
        eol: *src.pick(&["\n", "\n", "\n", "\r\n", "\r\n", "\r"]),
        trailing: src.bool(),
    }
}

/// Own emitter in the manner of JSON.stringify(value, null, indent).
fn render(v: &Value, f: &Fmt) -> String {
    let mut s = String::new();
    fn go(v: &Value, f: &Fmt, lvl: usize, s: &mut String) {
        let nl = |s: &mut String, l: usize| {
            s.push_str(f.eol);
            s.push_str(&f.indent.repeat(l));
        };
        match v {
            Value::Object(m) if !m.is_empty() => {
                s.push('{');
                for (i, (k, v)) in m.iter().enumerate() {
                    if i > 0 {
                        s.push(',');
                    }
                    nl(s, lvl + 1);
                    s.push_str(&Value::String(k.clone()).to_string());
                    s.push_str(": ");
                    go(v, f, lvl + 1, s);
                }
                nl(s, lvl);
                s.push('}');
            }
            Value::Array(a) if !a.is_empty() => {
                s.push('[');
                for (i, v) in a.iter().enumerate() {
                    if i > 0 {
                        s.push(',');
                    }
                    nl(s, lvl + 1);
                    go(v, f, lvl + 1, s);
                }
                nl(s, lvl);
                s.push(']');
            }
            v => s.push_str(&v.to_string()),
        }
    }
    go(v, f, 0, &mut s);
    if f.trailing {
        s.push_str(f.eol);
    }
    s
}

fn gen_text(src: &mut Src) -> String {
    if src.chance(1, 3) {
        return src
            .pick(&[
                "", " ", "  lead", "tab\there", "line\nbreak", "cr\r\nlf", "quote\"s", "back\\slash", "é", "日本",
                "\u{2028}", "\u{7f}", "\u{1}", "{", "}", "[", "\": {", "a/b", "👍", "\u{a0}x", "\u{feff}",
            ])
            .to_string();
    }
    let abc: Vec<char> = "abcxyz019 _-.@/:{}[],\"\\".chars().collect();
    src.string(&abc, 0, 9)
}

fn gen_json(src: &mut Src, depth: usize) -> Value {
    match src.below(if depth == 0 { 6 } else { 10 }) {
        0 => Value::Null,
        1 => json!(src.bool()),
        2 => json!(src.below(100000) as i64 - 50000),
        3 => json!([0.5, -1.25, 1e30, 1.5e-7, 3.0, 18446744073709551615u64 as f64][src.usize(6)]),
        4 | 5 => json!(gen_text(src)),
        6 | 7 => {
            let n = src.usize(4);
            Value::Array((0..n).map(|_| gen_json(src, depth - 1)).collect())
        }
        _ => gen_obj(src, depth, 0),
    }
}

fn gen_obj(src: &mut Src, depth: usize, min: usize) -> Value {
    let n = src.range(min, 6);
    let mut m = Map::new();
    for _ in 0..n {
        m.insert(gen_text(src), gen_json(src, depth.saturating_sub(1)));
    }
    Value::Object(m)
}

// ---------------------------------------------------------------- M02

/// Rewrites some string escapes (`/` as `\/`, letters as `\u....`): another
/// spelling of the same document.
fn respell(src: &mut Src, s: &str) -> String {
    let mut o = String::new();
    let mut in_str = false;
    let mut esc = false;
    for c in s.chars() {
        if in_str && !esc && (c == '/' || c.is_ascii_lowercase()) && src.chance(1, 4) {
            if c == '/' {
                o.push_str("\\/");
            } else {
                o.push_str(&format!("\\u{:04x}", c as u32));
            }
            continue;
        }
        o.push(c);
        if esc {
            esc = false;
        } else if in_str && c == '\\' {
            esc = true;
        } else if c == '"' {
            in_str = !in_str;
        }
    }
    o
}

fn order_of(v: &Value) -> Vec<String> {
    v.as_object()
        .map(|m| m.keys().cloned().collect())
        .unwrap_or_default()
}

/// Same value with the same key order everywhere.
fn same(a: &Value, b: &Value) -> bool {
    a.to_string() == b.to_string()
}

fn m02(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    if src.chance(1, 600) {
        return m02_process(src, ctx);
    }
    let v = gen_obj(src, 4, 1);
    let f = gen_fmt(src);
    let text = render(&v, &f);
    let lines = text.lines().count();
    ctx.nontrivial = lines > 5
        && order_of(&v).len() >= 3
        && (f.indent != "  " || f.eol != "\n" || f.trailing);
    ctx.label(format!(
        "indent {:?}x{} eol {:?} trailing {}",
        f.indent.chars().next().unwrap_or('-'),
        f.indent.len(),
        f.eol,
        f.trailing
    ));
    // another spelling: blank lines and escapes are not kept, everything else is
    let mut loose = text.clone();
    let variant = src.below(4);
    if variant == 1 {
        loose = respell(src, &loose);
        ctx.label("escapes");
    }
    if variant == 2 {
        let ls: Vec<&str> = text.split(f.eol).collect();
        let mut o = vec![];
        for (i, l) in ls.iter().enumerate() {
            if i > 0 && !l.is_empty() && src.chance(1, 3) {
                o.push(src.pick(&["", "", "  ", "\t"]).to_string());
            }
            o.push(l.to_string());
        }
        loose = o.join(f.eol);
        ctx.label("blank lines");
    }
    ctx.note(format!("{loose:?}"));
    let r = cut(|| {
        let p = oro_pretty_json::from_str(&loose).map_err(|e| e.to_string())?;
        oro_pretty_json::to_string_pretty(&p).map_err(|e| e.to_string())
    });
    let got = match r {
        Err(m) => return fail("panic", format!("rewriting {loose:?} panicked: {m}")),
        Ok(Err(e)) => return fail("error", format!("rewriting {loose:?} failed: {e}")),
        Ok(Ok(t)) => t,
    };
    let back: Value = match serde_json::from_str(&got) {
        Ok(b) => b,
        Err(e) => return fail("not-json", format!("{loose:?} became {got:?}: {e}")),
    };
    ensure!(
        same(&back, &v),
        "value",
        "{loose:?} became {got:?}, whose value or key order differs"
    );
    ensure!(
        got == text,
        "format",
        "{loose:?} became {got:?} instead of {text:?}"
    );
    Ok(())
}

fn m02_process(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    ctx.label("process");
    let mut reg = Registry::default();
    for n in ["a", "b", "@s/c"] {
        let mut p = Pkg::default();
        let mut ver = Ver::default();
        ver.seal(n, "1.0.0");
        p.versions.insert("1.0.0".into(), ver);
        p.tags.insert("latest".into(), "1.0.0".into());
        reg.pkgs.insert(n.into(), p);
    }
    let mut keys: Vec<(String, Value)> = vec![
        ("name".into(), json!("proj")),
        ("version".into(), json!("1.0.0")),
    ];
    let dep_names = ["z", "a", "m", "b", "@s/c", "q"];
    for s in ["dependencies", "devDependencies", "optionalDependencies", "peerDependencies"] {
        if src.chance(2, 3) {
            let mut m = Map::new();
            let mut ns = dep_names.to_vec();
            src.shuffle(&mut ns);
            for n in &ns[..src.usize(6)] {
                m.insert(n.to_string(), json!(src.pick(&["^1.0.0", "*", "~1.0.0", "1"]).to_string()));
            }
            keys.push((s.into(), Value::Object(m)));
        }
    }
    for k in ["scripts", "files", "keywords", "custom", "x-nested"] {
        if src.bool() {
            keys.push((
                k.into(),
                match k {
                    "scripts" => json!({"test": "echo \"é\" && exit 1", "b": "x\ty", "a": "1"}),
                    "files" | "keywords" => json!(["z", "a", "é"]),
                    _ => gen_obj(src, 3, 0),
                },
            ));
        }
    }
    src.shuffle(&mut keys);
    let v = Value::Object(keys.into_iter().collect());
    let f = gen_fmt(src);
    let srv = Server::start(reg);
    let p = Proj::new(&ctx.scratch(), &srv.base);
    let text = render(&v, &f);
    std::fs::write(p.dir.join("package.json"), &text).unwrap();
    let name = *src.pick(&["a", "b", "@s/c"]);
    let add = src.bool();
    let args: Vec<&str> = if add {
        let mut a = vec!["add", name];
        a.extend(*src.pick(&[&[] as &[&str], &["-D"], &["--opt"]]));
        a
    } else {
        vec!["remove", name]
    };
    let mut args = args;
    args.push("--no-apply");
    ctx.note(format!("{args:?} on {text:?}"));
    ctx.nontrivial = true;
    p.run_ok(&args, Some(&srv), "edit")?;
    let got = p.read("package.json").unwrap_or_default();
    let gv: Value = match serde_json::from_str(&got) {
        Ok(v) => v,
        Err(e) => return fail("not-json", format!("{got:?}: {e}")),
    };
    ensure!(
        got == render(&gv, &f),
        "format",
        "{text:?} became {got:?}, which is formatted differently"
    );
    // order: everything kept is in the order it had
    let kept = |a: &Value, b: &Value, not: &str| -> (Vec<String>, Vec<String>) {
        let (x, y) = (order_of(a), order_of(b));
        (
            x.iter().filter(|k| *k != not && y.contains(k)).cloned().collect(),
            y.iter().filter(|k| *k != not && x.contains(k)).cloned().collect(),
        )
    };
    let (x, y) = kept(&v, &gv, "");
    ensure!(x == y, "order", "keys {x:?} became {y:?}");
    for k in &x {
        if k.ends_with("ependencies") {
            let (a, b) = kept(&v[k], &gv[k], name);
            ensure!(a == b, "order", "{k}: {a:?} became {b:?}");
        } else {
            ensure!(same(&v[k], &gv[k]), "value", "{k}: {} became {}", v[k], gv[k]);
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- M01

const SECTIONS: &[&str] = &[
    "dependencies",
    "devDependencies",
    "optionalDependencies",
    "peerDependencies",
];

pub fn model_mani(v: &Value) -> Mani {
    let sec = |k: &str| -> BTreeMap<String, String> {
        v[k].as_object()
            .map(|m| {
                m.iter()
                    .map(|(a, b)| (a.clone(), b.as_str().unwrap_or("").to_string()))
                    .collect()
            })
            .unwrap_or_default()
    };
    Mani {
        deps: sec("dependencies"),
        dev: sec("devDependencies"),
        opt: sec("optionalDependencies"),
        extra: Map::new(),
    }
}

fn select(pkg: &Pkg, spec: Option<&str>) -> Option<String> {
    let Some(spec) = spec else {
        return pkg.tags.get("latest").cloned();
    };
    if let Some(v) = pkg.tags.get(spec) {
        return Some(v.clone());
    }
    let r = node_semver::Range::parse(spec).ok()?;
    let ok = |v: &str| r.satisfies(&node_semver::Version::parse(v).unwrap());
    match pkg.tags.get("latest") {
        Some(v) if ok(v) => Some(v.clone()),
        _ => pkg.versions.keys().filter(|v| ok(v)).max_by_key(|v| key(v)).cloned(),
    }
}

fn without_section_order(v: &Value) -> Value {
    // key order is M02's business
    fn sort(v: &Value) -> Value {
        match v {
            Value::Object(m) => {
                let b: BTreeMap<String, Value> =
                    m.iter().map(|(k, v)| (k.clone(), sort(v))).collect();
                Value::Object(b.into_iter().collect())
            }
            Value::Array(a) => Value::Array(a.iter().map(sort).collect()),
            v => v.clone(),
        }
    }
    sort(v)
}

fn m01(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let o = RegOpts {
        max_pkgs: 6,
        prerelease: src.chance(1, 3),
        ..Default::default()
    };
    let mut reg = gen_registry(src, &o);
    let names: Vec<String> = reg.pkgs.keys().cloned().collect();
    // one package whose install script fails
    let mut bad = Pkg::default();
    let mut ver = Ver::default();
    ver.scripts.push(("postinstall".into(), "exit 1".into()));
    ver.extra.insert("hasInstallScript".into(), json!(true));
    ver.seal("zz-bad", "1.0.0");
    bad.versions.insert("1.0.0".into(), ver);
    bad.tags.insert("latest".into(), "1.0.0".into());
    reg.pkgs.insert("zz-bad".into(), bad);
    ctx.note(describe_registry(&reg));

    let mani = if src.chance(3, 4) {
        gen_mani(src, &{
            let mut r = reg.clone();
            r.pkgs.remove("zz-bad");
            r
        }, &o, 5)
    } else {
        Mani::default()
    };
    let mut model = mani.json();
    if src.chance(1, 3) {
        // a peer dependency of the project itself (not installed)
        let n = src.pick(&names).clone();
        if !mani.all().contains_key(&n) || src.bool() {
            model["peerDependencies"] = json!({ n: "*", "some-peer": "^3" });
        }
    }
    if src.bool() {
        model["scripts"] = json!({"test": "echo a", "dependencies": "x"});
        model["config"] = gen_obj(src, 2, 0);
    }
    if src.chance(1, 4) {
        model["devDependencies"] = match model.get("devDependencies") {
            Some(v) => v.clone(),
            None => json!({}),
        };
    }
    let f = gen_fmt(src);
    let hoisted = src.bool();
    let srv = Server::start(reg.clone());
    let mut p = Proj::new(&ctx.scratch(), &srv.base);
    p.common = apply_args(hoisted)[1..].iter().map(|s| s.to_string()).collect();
    if src.chance(1, 4) {
        p.cache = None;
        p.common.push("--no-cache".into());
    }
    // an earlier run of the process-wide flags must not leak in: plain start
    std::fs::write(p.dir.join("package.json"), render(&model, &f)).unwrap();
    ctx.note(format!("hoisted {hoisted} start {model}"));
    if src.bool() {
        p.run_ok(&["apply"], Some(&srv), "first-apply")?;
    }
    let steps = src.range(1, 4);
    let mut eventful = false;
    for step in 0..steps {
        let before_text = p.read("package.json").unwrap();
        let mut next = model.clone();
        let mut args: Vec<String> = vec![];
        let mut must_fail = false;
        let mut may_fail = false;
        let present: Vec<String> = {
            let mut v: Vec<String> = SECTIONS
                .iter()
                .flat_map(|s| order_of(&model[*s]))
                .collect();
            v.sort();
            v.dedup();
            v
        };
        if src.chance(3, 5) {
            args.push("add".into());
            let (section, flags): (&str, &[&str]) = match src.below(7) {
                0 => ("devDependencies", &["-D"]),
                1 => ("devDependencies", &["--dev"]),
                2 => ("optionalDependencies", &["-O"]),
                3 => ("optionalDependencies", *src.pick(&[&["--opt"] as &[&str], &["--optional"]])),
                _ => ("dependencies", &[]),
            };
            args.extend(flags.iter().map(|s| s.to_string()));
            let prefix = *src.pick(&["^", "^", "~", ">=", ""]);
            if prefix != "^" || src.chance(1, 3) {
                args.push(format!("--prefix={prefix}"));
            }
            let k = src.range(1, 3).min(src.range(1, 3));
            for _ in 0..k {
                // (not as an optional dependency, which may fail to build)
                let real = if section != "optionalDependencies" && src.chance(1, 12) {
                    must_fail = true;
                    "zz-bad".to_string()
                } else {
                    src.pick(&names).clone()
                };
                let pkg = &reg.pkgs[&real];
                let spec: Option<String> = match src.below(7) {
                    0 | 1 => None,
                    2 => Some("latest".into()),
                    3 => Some(src.pick(&pkg.tags.keys().cloned().collect::<Vec<_>>()).clone()),
                    4 => Some(src.pick(&pkg.versions.keys().cloned().collect::<Vec<_>>()).clone()),
                    5 if src.chance(1, 4) => Some("99.0.0".into()),
                    _ => Some(gen_spec(src, &reg, &real, &o)),
                };
                let version = select(pkg, spec.as_deref());
                let alias = src.chance(1, 6);
                let base = match &spec {
                    Some(s) => format!("{real}@{s}"),
                    None => real.clone(),
                };
                let (entry, arg) = if alias {
                    let e = format!("al-{}", real.replace('@', "").replace('/', "-"));
                    (e.clone(), format!("{e}@npm:{base}"))
                } else {
                    (real.clone(), base)
                };
                args.push(arg);
                match version {
                    None => must_fail = true,
                    Some(v) => {
                        for s in SECTIONS {
                            if let Some(m) = next.get_mut(*s).and_then(|v| v.as_object_mut()) {
                                m.remove(&entry);
                            }
                        }
                        let rec = if alias {
                            format!("npm:{real}@{prefix}{v}")
                        } else {
                            format!("{prefix}{v}")
                        };
                        next[section][&entry] = json!(rec);
                    }
                }
                if present.contains(&entry) {
                    eventful |= step > 0 || steps > 1;
                }
            }
            if src.chance(1, 12) {
                let i = src.range(1 + flags.len(), args.len());
                args.insert(i, "no-such-package".into());
                must_fail = true;
            }
        } else {
            args.push((*src.pick(&["remove", "rm"])).into());
            let k = src.range(1, 3).min(src.range(1, 3));
            for _ in 0..k {
                let n = if !present.is_empty() && src.chance(4, 5) {
                    src.pick(&present).clone()
                } else {
                    src.pick(&["absent", "@s/absent", "dependencies", "name"]).to_string()
                };
                eventful |= present.contains(&n) && steps > 1;
                for s in SECTIONS {
                    if let Some(m) = next.get_mut(*s).and_then(|v| v.as_object_mut()) {
                        m.remove(&n);
                    }
                }
                args.push(if src.chance(1, 5) {
                    format!("{n}@{}", src.pick(&["1.0.0", "^2", "latest"]))
                } else {
                    n
                });
            }
        }
        // a fault: tarballs that cannot be fetched
        let fault = src.chance(1, 6);
        if fault {
            for (n, pk) in &reg.pkgs {
                for v in pk.versions.keys() {
                    if src.chance(1, 2) {
                        let u = tarball_url("", n, v);
                        srv.sticky(&u, Fault::Status(404));
                    }
                }
            }
            may_fail = true;
        }
        ctx.note(format!(
            "step {step}: oro {} (fault {fault}, must fail {must_fail})",
            args.join(" ")
        ));
        let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
        let out = p.run(&a, Some(&srv))?;
        ensure!(!out.panicked() && !out.deadlock, "panic", "{}", out.tail());
        let text = p.read("package.json").unwrap_or_default();
        if must_fail {
            ensure!(!out.ok(), "impossible-add", "oro {args:?} succeeded");
        }
        if !out.ok() {
            ensure!(
                must_fail || may_fail,
                "command-failed",
                "oro {args:?} failed: {}",
                out.tail()
            );
            ensure!(
                text == before_text,
                "changed-on-failure",
                "oro {args:?} failed but package.json changed from {before_text:?} to {text:?}"
            );
            ctx.label("failed step");
            eventful |= steps > 1;
            if fault && !must_fail {
                // once the registry answers again, the same command goes through
                srv.clear_faults();
                p.run_ok(&a, Some(&srv), "retry")?;
            } else {
                srv.clear_faults();
                continue;
            }
        }
        srv.clear_faults();
        let text = p.read("package.json").unwrap_or_default();
        let got: Value = match serde_json::from_str(&text) {
            Ok(v) => v,
            Err(e) => return fail("not-json", format!("{text:?}: {e}")),
        };
        ensure!(
            without_section_order(&got) == without_section_order(&next),
            "manifest",
            "after oro {args:?} package.json is {got} instead of {next}"
        );
        model = next;
        let m = model_mani(&model);
        let (_, lock) = lock_of(&p, "lock")?;
        check_lock(&lock, &reg, &srv.base, &m)?;
        check_tree(&p.dir, &reg, &m)?;
        check_lock_tree(&p.dir, &lock, hoisted)?;
    }
    ctx.nontrivial = eventful;
    Ok(())
}

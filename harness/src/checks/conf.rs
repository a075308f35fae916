//! Where options come from.
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::proj::*;
use crate::registry::*;
use std::collections::BTreeMap;

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "F01",
            rule: "random assignment of 22 options (flags, negatable flags, strings, numbers, lists, maps) to command line, project file, environment and user file (or --config), in the different ways each can be written; options of one command set while another runs; run from the project or a directory below it; the effect of every option on the real command compared with a precedence model; non-trivial: some option is set by two sources to different values",
            level: "property_based",
            quick: 3000,
            thorough: 60000,
            threads: 16,
            shrink: 200,
            case: f01,
            fixed: vec![],
            assumptions: vec!["options are observed through what the commands do: progress, proxy and telemetry options are not covered"],
        },
        Check {
            id: "F02",
            rule: "(1) value trees printed as config files in random KDL notation, alone or one over the other, loaded through the config library and compared with the tree; (2) the same texts and bytes mutated or made up, loaded without panic; (3) the real oro with made-up and mutated values for --auth, --scoped-registry, --registry, --loglevel, --proxy-url, ... on the command line, in files and in the environment: no panic, rejected with a message or, where the grammar says so, accepted with the right effect on requests; non-trivial: the input isn't one of the plain documented forms",
            level: "property_based",
            quick: 9000,
            thorough: 300000,
            threads: 16,
            shrink: 400,
            case: f02,
            fixed: vec![("deep-nesting", f02_deep), ("subscript-key", f02_subscript)],
            assumptions: vec!["nesting up to 30 levels and no [ ] in option names (both are listed findings of the libraries used)"],
        },
    ]
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    /// on unless negated
    On,
    /// off unless given
    Off,
    Text,
    Num,
    /// key=value, several
    Map,
    /// {key}field=value
    Nested,
}

/// What a value is written as: one entry for most, several for maps.
type Val = Vec<String>;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum From {
    Cli,
    Project,
    Env,
    User,
}

struct Opt {
    name: &'static str,
    /// another way to write it on the command line
    cli: &'static str,
    kind: Kind,
    /// commands that know it; empty for all
    cmds: &'static [&'static str],
}

const OPTS: &[Opt] = &[
    Opt { name: "registry", cli: "registry", kind: Kind::Text, cmds: &[] },
    Opt { name: "scoped-registries", cli: "scoped-registry", kind: Kind::Map, cmds: &[] },
    Opt { name: "auth", cli: "auth", kind: Kind::Nested, cmds: &[] },
    Opt { name: "cache", cli: "cache", kind: Kind::Text, cmds: &[] },
    Opt { name: "loglevel", cli: "loglevel", kind: Kind::Text, cmds: &[] },
    Opt { name: "quiet", cli: "quiet", kind: Kind::Off, cmds: &[] },
    Opt { name: "json", cli: "json", kind: Kind::Off, cmds: &[] },
    Opt { name: "emoji", cli: "emoji", kind: Kind::On, cmds: &[] },
    Opt { name: "retries", cli: "retries", kind: Kind::Num, cmds: &[] },
    Opt { name: "default-tag", cli: "default-tag", kind: Kind::Text, cmds: &["apply", "add", "view"] },
    Opt { name: "prefix", cli: "prefix", kind: Kind::Text, cmds: &["add"] },
    Opt { name: "dev", cli: "dev", kind: Kind::Off, cmds: &["add"] },
    Opt { name: "hoisted", cli: "hoisted", kind: Kind::Off, cmds: &["apply", "add"] },
    Opt { name: "lockfile", cli: "lockfile", kind: Kind::On, cmds: &["apply", "add"] },
    Opt { name: "scripts", cli: "scripts", kind: Kind::On, cmds: &["apply", "add"] },
    Opt { name: "apply", cli: "apply", kind: Kind::On, cmds: &["apply", "add"] },
    Opt { name: "lockfile-only", cli: "lockfile-only", kind: Kind::Off, cmds: &["apply", "add"] },
    Opt { name: "prefer-copy", cli: "prefer-copy", kind: Kind::Off, cmds: &["apply", "add"] },
    Opt { name: "locked", cli: "frozen", kind: Kind::Off, cmds: &["apply", "add"] },
    Opt { name: "concurrency", cli: "concurrency", kind: Kind::Num, cmds: &["apply", "add"] },
    Opt { name: "script-concurrency", cli: "script-concurrency", kind: Kind::Num, cmds: &["apply", "add"] },
    Opt { name: "first-time", cli: "first-time", kind: Kind::On, cmds: &[] },
];

fn q(s: &str) -> String {
    format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\""))
}

/// The line for a config file, and whether it's a table (which adds to what
/// other files say, where everything else replaces it).
fn kdl(src: &mut Src, o: &Opt, v: &Val) -> (String, bool) {
    let n = o.name;
    let mut table = o.kind == Kind::Nested;
    let text = match o.kind {
        Kind::On | Kind::Off => {
            if v[0] == "true" && src.bool() {
                n.to_string()
            } else {
                format!("{n} {}", v[0])
            }
        }
        Kind::Num => {
            if src.chance(3, 4) {
                format!("{n} {}", v[0])
            } else {
                format!("{n} {}", q(&v[0]))
            }
        }
        Kind::Text => format!("{n} {}", q(&v[0])),
        Kind::Map => {
            let pairs: Vec<(&str, &str)> = v.iter().map(|x| x.split_once('=').unwrap()).collect();
            let form = src.below(4);
            table = form == 0 || form == 3 || (form == 1 && v.len() < 2);
            match form {
                0 => {
                    let l: Vec<String> = pairs.iter().map(|(k, v)| format!("{}={}", q(k), q(v))).collect();
                    format!("{n} {}", l.join(" "))
                }
                1 if v.len() > 1 => {
                    let l: Vec<String> = v.iter().map(|x| q(x)).collect();
                    format!("{n} {}", l.join(" "))
                }
                2 => {
                    let l: Vec<String> = v.iter().map(|x| format!("    - {}", q(x))).collect();
                    format!("{n} {{\n{}\n}}", l.join("\n"))
                }
                _ => {
                    let l: Vec<String> = pairs.iter().map(|(k, v)| format!("    {} {}", q(k), q(v))).collect();
                    format!("{n} {{\n{}\n}}", l.join("\n"))
                }
            }
        }
        Kind::Nested => {
            let mut m: BTreeMap<String, Vec<(String, String)>> = BTreeMap::new();
            for x in v {
                let (k, f) = x[1..].split_once('}').unwrap();
                let (f, val) = f.split_once('=').unwrap();
                m.entry(k.into()).or_default().push((f.into(), val.into()));
            }
            let props = src.bool();
            let l: Vec<String> = m
                .iter()
                .map(|(k, fs)| {
                    if props {
                        let l: Vec<String> = fs.iter().map(|(f, v)| format!("{f}={}", q(v))).collect();
                        format!("    {} {}", q(k), l.join(" "))
                    } else {
                        let l: Vec<String> = fs.iter().map(|(f, v)| format!("        {f} {}", q(v))).collect();
                        format!("    {} {{\n{}\n    }}", q(k), l.join("\n"))
                    }
                })
                .collect();
            format!("{n} {{\n{}\n}}", l.join("\n"))
        }
    };
    (text, table)
}

/// `v` on top of `old`.
fn merge(old: &Val, v: &Val) -> Val {
    let key = |x: &String| x.split_once('=').unwrap().0.to_string();
    let mut out = v.clone();
    out.extend(old.iter().filter(|x| v.iter().all(|y| key(y) != key(x))).cloned());
    out
}

fn cli(src: &mut Src, o: &Opt, v: &Val) -> Vec<String> {
    let n = if src.bool() { o.name } else { o.cli };
    match o.kind {
        Kind::On | Kind::Off => {
            if v[0] == "true" {
                vec![format!("--{n}")]
            } else {
                vec![format!("--no-{}", o.name)]
            }
        }
        _ => {
            let mut out = vec![];
            for x in v {
                if src.bool() {
                    out.push(format!("--{n}={x}"));
                } else {
                    out.push(format!("--{n}"));
                    out.push(x.clone());
                }
            }
            out
        }
    }
}

fn f01(src: &mut Src, ctx: &mut Ctx) -> Result<(), Stop> {
    // the registries
    let mut reg = Registry::default();
    for (name, versions) in [("x", vec!["1.0.0", "1.5.0", "2.0.0"]), ("@s/z", vec!["1.0.0"])] {
        let mut p = Pkg::default();
        for v in versions {
            let mut ver = Ver::default();
            ver.files.insert("index.js".into(), (b"//\n".to_vec(), 0o644));
            if name == "x" {
                ver.scripts = vec![("postinstall".into(), "echo > ran.txt".into())];
                ver.extra.insert("hasInstallScript".into(), true.into());
            }
            ver.seal(name, v);
            p.versions.insert(v.into(), ver);
        }
        reg.pkgs.insert(name.into(), p);
    }
    {
        let t = &mut reg.pkgs.get_mut("x").unwrap().tags;
        t.insert("latest".into(), "2.0.0".into());
        t.insert("next".into(), "1.5.0".into());
        t.insert("on".into(), "1.0.0".into());
    }
    reg.pkgs.get_mut("@s/z").unwrap().tags.insert("latest".into(), "1.0.0".into());
    let srvs: Vec<Server> = (0..3).map(|_| Server::start(reg.clone())).collect();
    let sc = ctx.scratch();
    let mut p = Proj::new(&sc, &srvs[0].base);
    p.std_flags = false;
    let mut mani = Mani::default();
    mani.deps.insert("x".into(), "^1.0.0".into());
    mani.deps.insert("@s/z".into(), "1.0.0".into());
    let cmd = *src.pick(&["apply", "apply", "add", "view", "ping"]);
    if cmd == "add" {
        mani.deps.remove("x");
    }
    p.write_manifest(&mani.json());
    let below = src.chance(1, 4);
    if below {
        let d = p.dir.join("src/deep");
        std::fs::create_dir_all(&d).unwrap();
        p.cwd = Some(d);
        ctx.label("below the project");
    }
    // one that has nothing of what the manifest wants
    let stale = "lockfile-version 1\nroot {\n}\n";
    let has_lock = src.chance(2, 3);
    if has_lock {
        std::fs::write(p.dir.join("package-lock.kdl"), stale).unwrap();
    }
    // who sets what
    let mut set: BTreeMap<&'static str, BTreeMap<From, Val>> = BTreeMap::new();
    let dense = src.range(4, 12) as u64;
    for o in OPTS {
        for f in [From::Cli, From::Project, From::Env, From::User] {
            if f == From::Cli && !o.cmds.is_empty() && !o.cmds.contains(&cmd) {
                continue;
            }
            // always settle these
            let must = f == From::User && ["registry", "cache"].contains(&o.name);
            if !must && !src.chance(1, dense) {
                continue;
            }
            let v: Val = match o.name {
                "registry" => vec![srvs[src.usize(3)].base.clone()],
                "scoped-registries" => {
                    let mut v = vec![format!("@s={}", srvs[src.usize(3)].base)];
                    if src.bool() {
                        v.push(format!("@other={}", srvs[src.usize(3)].base));
                    }
                    if f == From::Env {
                        v.truncate(1);
                    }
                    v
                }
                "auth" => {
                    let s = &srvs[src.usize(3)].base;
                    let mut v = vec![format!("{{{s}}}token={f:?}{}=", src.below(3))];
                    if src.bool() && f != From::Env {
                        v = vec![format!("{{{s}}}username=u{f:?}"), format!("{{{s}}}password=p=")];
                    }
                    v
                }
                "cache" => vec![sc.join(format!("cache{}", src.below(3))).display().to_string()],
                "loglevel" => vec![src.pick(&["off", "error", "warn", "info", "debug"]).to_string()],
                "retries" => vec![src.pick(&["0", "1", "2", "10"]).to_string()],
                "default-tag" => vec![src.pick(&["latest", "next", "on"]).to_string()],
                "prefix" => vec![src.pick(&["~", "^", ">=", "", "="]).to_string()],
                "concurrency" | "script-concurrency" => vec![src.pick(&["1", "2", "50"]).to_string()],
                _ => vec![src.bool().to_string()],
            };
            set.entry(o.name).or_default().insert(f, v);
        }
    }
    if cmd == "ping" || cmd == "view" {
        ctx.label(cmd);
    }
    let config_flag = src.chance(1, 5);
    // write it down
    let mut args: Vec<String> = vec![];
    let mut head: Vec<String> = vec![];
    let mut proj_file = vec!["// comment".to_string(), "foo 1 2 { bar; }".to_string()];
    let mut user_file: Vec<String> = vec![];
    let mut eff: BTreeMap<&str, Val> = BTreeMap::new();
    for o in OPTS {
        let Some(by) = set.get(o.name) else { continue };
        let mut tables = vec![];
        for (f, v) in by {
            match f {
                From::Cli => {
                    let a = cli(src, o, v);
                    if o.cmds.is_empty() && src.bool() {
                        head.extend(a);
                    } else {
                        args.extend(a);
                    }
                }
                From::Project => {
                    let (l, t) = kdl(src, o, v);
                    proj_file.push(l);
                    if t {
                        tables.push(*f);
                    }
                }
                From::User => {
                    let (l, t) = kdl(src, o, v);
                    user_file.push(l);
                    if t {
                        tables.push(*f);
                    }
                }
                From::Env => {
                    let mut k = format!("oro_config_{}", o.name.replace('-', "_"));
                    if src.bool() {
                        k = k.to_uppercase();
                    }
                    p.env.push((k, v[0].clone()));
                }
            }
        }
        let order: &[From] = if config_flag {
            &[From::Cli, From::Env, From::User]
        } else {
            &[From::Cli, From::Project, From::Env, From::User]
        };
        if let Some(v) = order.iter().find_map(|f| by.get(f)) {
            let mut v = v.clone();
            if tables.len() == 2
                && order.contains(&From::Project)
                && !by.contains_key(&From::Env)
                && !by.contains_key(&From::Cli)
            {
                v = merge(&by[&From::User], &by[&From::Project]);
                ctx.label("merged tables");
            }
            eff.insert(o.name, v);
        }
        let vals: Vec<&Val> = order.iter().filter_map(|f| by.get(f)).collect();
        if vals.windows(2).any(|w| w[0] != w[1]) {
            ctx.nontrivial = true;
        }
    }
    src.shuffle(&mut proj_file);
    let text = |l: &[String]| format!("options {{\n{}\n}}\n", l.join("\n"));
    std::fs::write(p.dir.join("oro.kdl"), text(&proj_file)).unwrap();
    if config_flag {
        ctx.label("--config");
        let f = sc.join("my.kdl");
        std::fs::write(&f, text(&user_file)).unwrap();
        head.push("--config".into());
        head.push(f.display().to_string());
    } else {
        let d = p.home.join("config/orogene");
        std::fs::create_dir_all(&d).unwrap();
        std::fs::write(d.join("oro.kdl"), text(&user_file)).unwrap();
    }
    if src.chance(1, 3) && !below {
        head.push("--root".into());
        head.push(p.dir.display().to_string());
        if src.bool() && !config_flag {
            // the project's file is the one in the root
            p.cwd = Some(sc.clone());
            ctx.label("--root");
        }
    }
    let mut line = head;
    line.push("--no-progress".into());
    line.push(cmd.into());
    let dashes = src.bool();
    match cmd {
        "add" | "view" => {
            if dashes {
                line.extend(args);
                line.push("--".into());
                line.push("x".into());
            } else if src.bool() {
                line.push("x".into());
                line.extend(args);
            } else {
                line.extend(args);
                line.push("x".into());
            }
        }
        _ => line.extend(args),
    }
    ctx.note(format!("oro {}", line.join(" ")));
    ctx.note(format!("project: {proj_file:?}"));
    ctx.note(format!("user: {user_file:?}"));
    ctx.note(format!("env: {:?}", p.env));
    ctx.note(format!("effective: {eff:?}"));
    let a: Vec<&str> = line.iter().map(|s| s.as_str()).collect();
    let out = p.run(&a, None)?;
    let get = |n: &str| eff.get(n).map(|v| v[0].as_str());
    let flag = |n: &str| {
        let o = OPTS.iter().find(|o| o.name == n).unwrap();
        get(n).map(|v| v == "true").unwrap_or(o.kind == Kind::On)
    };
    ensure!(!out.panicked() && !out.deadlock, "panic", "{}", out.tail());
    let installs = cmd == "apply" || cmd == "add";
    // `oro apply` applies whatever the configuration says
    let applies = cmd == "apply" || (cmd == "add" && flag("apply"));
    let locked_fails = cmd == "apply" && flag("locked") && has_lock;
    ensure!(
        out.ok() != locked_fails,
        if locked_fails { "locked-ignored" } else { "command-failed" },
        "{}",
        out.tail()
    );
    // the default cache is only ever looked for when nothing says where
    for i in 0..3 {
        let d = sc.join(format!("cache{i}"));
        ensure!(
            d.exists() == (get("cache") == Some(d.display().to_string().as_str())),
            "cache",
            "{} {}, but the cache should be {:?}",
            d.display(),
            if d.exists() { "is used" } else { "isn't used" },
            get("cache")
        );
    }
    // requests
    let mut asked = 0;
    for s in &srvs {
        for r in s.take_log() {
            asked += 1;
            let path = pct_decode(&r.path);
            let tarball = path.contains("/-/") && path.ends_with(".tgz");
            let want = if path.starts_with("/@s/") {
                eff.get("scoped-registries")
                    .and_then(|v| v.iter().find_map(|x| x.strip_prefix("@s=")))
                    .or(get("registry"))
            } else {
                get("registry")
            };
            ensure!(
                Some(s.base.as_str()) == want,
                "registry",
                "{path} {} asked of {} instead of {want:?}",
                if tarball { "(tarball)" } else { "" },
                s.base
            );
            let mut expect = None;
            if let Some(v) = eff.get("auth") {
                let f: Vec<(&str, &str)> = v
                    .iter()
                    .map(|x| x[1..].split_once('}').unwrap())
                    .filter(|x| x.0 == s.base)
                    .map(|x| x.1.split_once('=').unwrap())
                    .collect();
                if f.len() > 2 {
                    // both a token and a password
                    continue;
                }
                if let Some(t) = f.iter().find(|x| x.0 == "token") {
                    expect = Some(format!("Bearer {}", t.1));
                } else if let Some(u) = f.iter().find(|x| x.0 == "username") {
                    use base64::Engine as _;
                    expect = Some(format!(
                        "Basic {}",
                        base64::engine::general_purpose::STANDARD.encode(format!("{}:p=", u.1))
                    ));
                }
            }
            ensure!(
                r.header("authorization") == expect.as_deref(),
                "auth",
                "{path} carries {:?} instead of {expect:?}",
                r.header("authorization")
            );
        }
    }
    if locked_fails {
        return Ok(());
    }
    ensure!(asked > 0, "no-request", "nothing asked");
    // what's printed
    let level = if flag("quiet") { "off" } else { get("loglevel").unwrap_or("info") };
    let text = format!("{}{}", out.stdout, out.stderr);
    let info = ["info", "debug"].contains(&level);
    // (view has nothing to report)
    ensure!((text.contains("INFO") || cmd == "view") == (info || cmd == "view"), "loglevel", "at level {level}: {}", out.tail());
    ensure!(
        text.contains("DEBUG") == (level == "debug"),
        "loglevel",
        "at level {level}: {}",
        out.tail()
    );
    if info && eff.contains_key("emoji") && (cmd == "ping" || cmd == "apply") {
        let e = text.chars().any(|c| ('\u{1f300}'..'\u{1faff}').contains(&c) || c == '\u{27a1}');
        ensure!(e == flag("emoji"), "emoji", "{}", out.tail());
    }
    if cmd == "ping" {
        let j = out.stdout.contains("\"registry\":");
        ensure!(j == flag("json"), "json", "{}", out.tail());
    }
    let tag = match get("default-tag").unwrap_or("latest") {
        "next" => "1.5.0",
        "on" => "1.0.0",
        _ => "2.0.0",
    };
    if cmd == "view" {
        let want = if flag("json") { format!("\"version\": \"{tag}\"") } else { format!("x@{tag}") };
        ensure!(out.stdout.contains(&want), "default-tag", "no {want:?} in {}", out.stdout);
        ensure!(out.stdout.starts_with('{') == flag("json") || level == "debug" || info, "json", "{}", out.stdout);
    }
    if cmd == "add" {
        let j = read_json(&p.dir.join("package.json")).unwrap_or_default();
        let want = format!("{}{tag}", get("prefix").unwrap_or("^"));
        let (sec, other) = if flag("dev") {
            ("devDependencies", "dependencies")
        } else {
            ("dependencies", "devDependencies")
        };
        ensure!(
            j[sec]["x"].as_str() == Some(want.as_str()) && j[other]["x"].is_null(),
            "add-options",
            "wanted {want} in {sec}, got {j}"
        );
    }
    if installs {
        let nm = p.dir.join("node_modules");
        let x = nm.join("x/index.js");
        let installed = applies && !flag("lockfile-only");
        ensure!(x.exists() == installed, "apply-options", "x installed: {}", x.exists());
        let lock = std::fs::read_to_string(p.dir.join("package-lock.kdl")).is_ok_and(|t| t != stale);
        ensure!(
            lock == (applies && flag("lockfile")),
            "lockfile",
            "lockfile written: {lock}"
        );
        if installed {
            let store = nm.join(".oro-store").exists();
            ensure!(store != flag("hoisted"), "hoisted", "store: {store}");
            let ran = nm.join("x/ran.txt").exists();
            ensure!(ran == flag("scripts"), "scripts", "scripts ran: {ran}");
            let z = nm.join("@s/z/index.js");
            let one = {
                use std::os::unix::fs::MetadataExt;
                std::fs::metadata(&z).map(|m| m.nlink()).unwrap_or(0)
            };
            ensure!(one > 0, "apply-options", "@s/z isn't installed");
            if flag("prefer-copy") {
                ensure!(one == 1, "prefer-copy", "@s/z is linked {one} times");
            }
        }
    }
    Ok(())
}

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    Str(String),
    Int(i64),
    Float(f64),
    Bool(bool),
    Null,
    List(Vec<V>),
    Map(BTreeMap<String, V>),
}

impl V {
    pub fn json(&self) -> serde_json::Value {
        match self {
            V::Str(s) => s.clone().into(),
            V::Int(i) => (*i).into(),
            V::Float(f) => (*f).into(),
            V::Bool(b) => (*b).into(),
            V::Null => serde_json::Value::Null,
            V::List(l) => l.iter().map(V::json).collect(),
            V::Map(m) => m.iter().map(|(k, v)| (k.clone(), v.json())).collect::<serde_json::Map<_, _>>().into(),
        }
    }
    fn scalar(&self) -> bool {
        !matches!(self, V::List(_) | V::Map(_))
    }
}

const TEXT: &[char] = &[
    'a', 'b', 'Z', '0', '9', '-', '_', '.', '/', ':', '@', '=', '{', '}', ' ', '"', '\\', '\n', '\t', ';', '#', 'é', '🎉', '(', ')', ',', '<',
];

pub fn gen_v(src: &mut Src, depth: usize) -> V {
    match src.below(if depth == 0 { 6 } else { 9 }) {
        0 | 1 => V::Str(src.string(TEXT, 0, 8)),
        2 => V::Int(if src.bool() { src.range(0, 100) as i64 - 50 } else { src.u64() as i64 }),
        3 => V::Float((src.range(0, 4000) as f64 - 2000.0) / 16.0 + 0.03125),
        4 => V::Bool(src.bool()),
        5 => V::Null,
        6 => {
            let n = src.range(1, 4);
            V::List((0..n).map(|_| gen_v(src, depth - 1)).collect())
        }
        _ => {
            let n = src.range(1, 4);
            let mut m = BTreeMap::new();
            for _ in 0..n {
                let k = key(src);
                m.insert(k, gen_v(src, depth - 1));
            }
            V::Map(m)
        }
    }
}

fn key(src: &mut Src) -> String {
    let k = key_text(src);
    // names of list items
    if k == "-" {
        "--".into()
    } else {
        k
    }
}

fn key_text(src: &mut Src) -> String {
    match src.below(3) {
        0 => src.pick(&["token", "Registry", "http://127.0.0.1:80/x/", "//r.com", "@scope", "a.b", "true1", "-x"]).to_string(),
        1 => src.string(&['a', 'b', 'c', 'D', '-', '_'], 1, 5) + "k",
        _ => src.string(TEXT, 0, 6),
    }
}

/// How a string can be written.
pub fn kdl_str(src: &mut Src, s: &str, name: bool) -> String {
    let plain = !s.is_empty()
        && s.chars().all(|c| c.is_ascii_alphanumeric() || "-_.@:".contains(c))
        && s.chars().next().unwrap().is_ascii_alphabetic()
        && !["true", "false", "null", "r"].contains(&s);
    match src.below(4) {
        0 if name && plain => s.to_string(),
        1 if !s.contains('\r') => {
            let mut n = 0;
            while s.contains(&format!("\"{}", "#".repeat(n))) {
                n += 1;
            }
            let h = "#".repeat(n);
            format!("r{h}\"{s}\"{h}")
        }
        _ => {
            let mut o = String::from("\"");
            for c in s.chars() {
                match c {
                    '"' => o.push_str("\\\""),
                    '\\' => o.push_str("\\\\"),
                    '\n' => o.push_str("\\n"),
                    '/' if src.bool() => o.push_str("\\/"),
                    c if src.chance(1, 10) => o.push_str(&format!("\\u{{{:x}}}", c as u32)),
                    c => o.push(c),
                }
            }
            o.push('"');
            o
        }
    }
}

fn kdl_scalar(src: &mut Src, v: &V) -> String {
    let t = match v {
        V::Str(s) => kdl_str(src, s, false),
        V::Int(i) => match src.below(4) {
            0 if *i >= 0 => format!("0x{i:x}"),
            1 if *i >= 0 => format!("0b{i:b}"),
            2 if *i >= 0 => format!("0o{i:o}"),
            _ => i.to_string(),
        },
        V::Float(f) => format!("{f}"),
        V::Bool(b) => b.to_string(),
        _ => "null".into(),
    };
    if src.chance(1, 12) {
        format!("(type){t}")
    } else {
        t
    }
}

fn kdl_space(src: &mut Src) -> &'static str {
    *src.pick(&[" ", " ", " ", "  ", "\t", " /* x */ ", " \\\n  ", " /-\"gone\" "])
}

/// A node called `name` that stands for `v`.
pub fn kdl_node(src: &mut Src, name: &str, v: &V, out: &mut String) {
    if src.chance(1, 15) {
        out.push_str("/- left { out 1 2; }\n");
    }
    if src.chance(1, 15) {
        out.push_str("// a comment { \n");
    }
    let n = if name == "-" { "-".to_string() } else { kdl_str(src, name, true) };
    out.push_str(&n);
    match v {
        V::List(l) => {
            if l.len() > 1 && l.iter().all(V::scalar) && src.bool() {
                for x in l {
                    out.push_str(kdl_space(src));
                    let t = kdl_scalar(src, x);
                    out.push_str(&t);
                }
            } else {
                out.push_str(" {\n");
                for x in l {
                    kdl_node(src, "-", x, out);
                }
                out.push('}');
            }
        }
        V::Map(m) => {
            if m.values().all(V::scalar) && src.bool() {
                for (k, x) in m {
                    out.push_str(kdl_space(src));
                    let k = kdl_str(src, k, true);
                    let t = kdl_scalar(src, x);
                    out.push_str(&format!("{k}={t}"));
                }
            } else {
                out.push_str(" {\n");
                for (k, x) in m {
                    kdl_node(src, k, x, out);
                }
                out.push('}');
            }
        }
        V::Bool(true) if src.bool() => {}
        v => {
            out.push_str(kdl_space(src));
            let t = kdl_scalar(src, v);
            out.push_str(&t);
        }
    }
    out.push_str(*src.pick(&["\n", "\n", ";", ";\n", " // end\n", "\r\n"]));
}

fn kdl_doc(src: &mut Src, m: &BTreeMap<String, V>) -> String {
    let mut t = String::new();
    if src.chance(1, 4) {
        t.push_str("other { registry 1; }\n");
    }
    t.push_str("options {\n");
    let mut names: Vec<&String> = m.keys().collect();
    src.shuffle(&mut names);
    for k in names {
        if src.chance(1, 12) {
            // the last one counts
            let v = gen_v(src, 1);
            kdl_node(src, k, &v, &mut t);
        }
        kdl_node(src, k, &m[k], &mut t);
    }
    t.push_str("}\n");
    t
}

fn merge_v(low: &mut V, high: &V) {
    match (low, high) {
        (V::Map(l), V::Map(h)) => {
            for (k, v) in h {
                match l.get_mut(k) {
                    Some(x) => merge_v(x, v),
                    None => {
                        l.insert(k.clone(), v.clone());
                    }
                }
            }
        }
        (l, h) => *l = h.clone(),
    }
}

pub fn load(global: Option<&std::path::Path>, root: Option<&std::path::Path>) -> Result<Result<serde_json::Value, String>, String> {
    cut(|| {
        let o = oro_config::OroConfigOptions::new()
            .env(false)
            .global_config_file(global.map(|p| p.to_owned()))
            .pkg_root(root.map(|p| p.to_owned()));
        match o.load() {
            Ok(c) => c
                .try_deserialize::<serde_json::Value>()
                .map_err(|e| format!("deserialize: {e}")),
            Err(e) => Err(format!("{e:?}")),
        }
    })
}

fn options(src: &mut Src) -> BTreeMap<String, V> {
    let n = src.range(0, 5);
    let mut m = BTreeMap::new();
    for _ in 0..n {
        let k = src.pick(&["registry", "auth", "scoped-registries", "default-tag", "x", "hoisted", "a-b_c"]).to_string();
        m.insert(k, gen_v(src, 3));
    }
    m
}

fn mutate(src: &mut Src, t: &str) -> Vec<u8> {
    const BITS: &[&str] = &[
        "{", "}", "\"", "\\", "/-", "/*", "*/", "//", "=", "-", "(", ")", "r#\"", "\"#", "null", "true", "0x", "1e999", "-0", "\u{feff}",
        "\n", ";", "options", "99999999999999999999", "\\u{110000}", "1.", ".", "_", "\0", "\u{2028}", "auth", "- ", "<", "0b2", "\\u{}",
    ];
    let mut b = t.as_bytes().to_vec();
    for _ in 0..src.range(1, 6) {
        let i = src.usize(b.len() + 1).min(b.len());
        match src.below(5) {
            0 if !b.is_empty() => {
                let j = (i + 1 + src.usize(6)).min(b.len());
                b.drain(i.min(j)..j);
            }
            1 => {
                let x = src.bytes(1, 3);
                b.splice(i..i, x);
            }
            2 => b.truncate(i),
            3 if !b.is_empty() => {
                let j = (i + src.usize(12)).min(b.len());
                let x = b[i..j].to_vec();
                b.splice(i..i, x);
            }
            _ => {
                let x = src.pick(BITS).as_bytes().to_vec();
                b.splice(i..i, x);
            }
        }
    }
    b.retain(|c| *c != b'[');
    b
}

fn f02(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    match src.below(10) {
        0..=3 => f02_tree(src, ctx),
        4..=6 => f02_garbage(src, ctx),
        _ => f02_oro(src, ctx),
    }
}

fn f02_tree(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let sc = ctx.scratch();
    let user = options(src);
    let ut = kdl_doc(src, &user);
    let uf = sc.join("user.kdl");
    std::fs::write(&uf, &ut).unwrap();
    ctx.note(format!("user file: {ut}"));
    let mut want = V::Map(user);
    let mut root = None;
    if src.bool() {
        let proj = options(src);
        let pt = kdl_doc(src, &proj);
        std::fs::write(sc.join("oro.kdl"), &pt).unwrap();
        ctx.note(format!("project file: {pt}"));
        merge_v(&mut want, &V::Map(proj));
        root = Some(sc.clone());
        ctx.label("two files");
    }
    ctx.nontrivial = true;
    ctx.label("tree");
    match load(Some(&uf), root.as_deref()) {
        Err(p) => fail("config-panic", p),
        Ok(Err(e)) => fail("config-rejected", e),
        Ok(Ok(got)) => {
            ensure!(got == want.json(), "config-differs", "read as {got}\nwanted {}", want.json());
            Ok(())
        }
    }
}

fn f02_garbage(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let sc = ctx.scratch();
    let m = options(src);
    let t = kdl_doc(src, &m);
    let b = mutate(src, &t);
    if b.iter().filter(|c| **c == b'{').count() > 30 {
        return Err(Stop::Skip("too deep".into()));
    }
    let f = sc.join("user.kdl");
    std::fs::write(&f, &b).unwrap();
    ctx.note(format!("file: {}", String::from_utf8_lossy(&b)));
    ctx.label("garbage");
    let r = load(Some(&f), None);
    ctx.nontrivial = true;
    ctx.label(match &r {
        Ok(Ok(_)) => "accepted",
        Ok(Err(_)) => "rejected",
        Err(_) => "panic",
    });
    // the command line is put together from it, too
    ensure!(r.is_ok(), "config-panic", "{}", r.unwrap_err());
    Ok(())
}

/// The real thing.
fn f02_oro(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let mut reg = Registry::default();
    let mut ver = Ver::default();
    ver.seal("@s/z", "1.0.0");
    let mut pk = Pkg::default();
    pk.versions.insert("1.0.0".into(), ver);
    pk.tags.insert("latest".into(), "1.0.0".into());
    reg.pkgs.insert("@s/z".into(), pk);
    let srv = Server::start(reg);
    let sc = ctx.scratch();
    let mut p = Proj::new(&sc, &srv.base);
    p.std_flags = false;
    p.write_manifest(&serde_json::json!({}));
    let host = srv.base.trim_start_matches("http://").to_string();
    let base = srv.base.clone();
    const SOUP: &[char] = &[
        '{', '}', '=', '{', '}', '=', 'a', 'b', ':', '/', '/', '@', ' ', '.', '-', '0', '9', '%', '?', '#', 'é', '\n', '\t', '\\', '"', '[', ']', ',', '*', '<', '>', '|', '^', '`', '🎉',
    ];
    let opt = *src.pick(&["auth", "auth", "auth", "scoped-registries", "scoped-registries", "registry", "loglevel", "proxy-url", "no-proxy-domain", "retries", "default-tag", "config", "config", "cache", "root"]);
    // what it should be taken for
    #[derive(Debug)]
    enum Want {
        Any,
        Refused,
        Header(Option<String>),
    }
    let mut want = Want::Any;
    let mut val = match opt {
        "auth" => {
            let r = match src.below(4) {
                0 => base.clone(),
                1 => format!("{base}/"),
                2 => base.to_uppercase().replace("HTTP", "http"),
                _ => src.pick(&["https://other.example", "other.example", "localhost:1/x", "https://other.example/a/b/"]).to_string(),
            };
            let ours = !r.contains("other") && !r.contains("localhost");
            let f = *src.pick(&["token", "token", "token", "username", "legacy-auth", "password", "toke"]);
            let v = src.string(&['a', 'Z', '0', '=', '=', '{', '}', ':', '/', '+', '-', ' ', '"', '\\', ',', 'k'], 1, 12);
            // a header's value is cut at the ends
            let v = format!("x{v}x");
            use base64::Engine as _;
            let e = base64::engine::general_purpose::STANDARD;
            want = Want::Header(match f {
                _ if !ours => None,
                "token" => Some(format!("Bearer {v}")),
                "username" => Some(format!("Basic {}", e.encode(format!("{v}:")))),
                "legacy-auth" => Some(format!("Basic {v}")),
                _ => None,
            });
            format!("{{{r}}}{f}={v}")
        }
        "scoped-registries" => {
            let k = src.string(&['@', 's', 'x', '-', '/', ' ', 'é'], 0, 4);
            format!("{k}={base}/{}", src.pick(&["", "x=y", "a/", "?q={z}"]))
        }
        "registry" => match src.below(3) {
            0 => format!("http://{}/", src.string(SOUP, 1, 8)),
            1 => src.pick(&["data:x", "mailto:a@b", "file:///etc/passwd", "http://", "://", "", "http://127.0.0.1:99999", "http://[::1", "ftp://127.0.0.1:1/", "http://a..b/", "x:y:z", "http://u:p@127.0.0.1:1/"]).to_string(),
            _ => format!("{base}{}", src.string(SOUP, 1, 8)),
        },
        "loglevel" => src.pick(&["info", "trace", "x=[{", "a=b=c", "[span]=info", "", "warn,error", "é", "5", "regex[{f=1}]=trace"]).to_string(),
        "proxy-url" => match src.below(2) {
            0 => src.pick(&["http://127.0.0.1:9", "", ":", "socks5://127.0.0.1:1", "data:x", "127.0.0.1", "http://é:1", "http://u:p@127.0.0.1:1"]).to_string(),
            _ => src.string(SOUP, 0, 10),
        },
        "no-proxy-domain" => src.string(SOUP, 0, 10),
        "config" | "cache" | "root" => {
            std::fs::write(sc.join("file"), "").unwrap();
            let s = sc.display();
            let mut l = vec![
                "/dev/null/x".to_string(),
                "/dev/null/x/y".to_string(),
                format!("{s}/no/such"),
                format!("{s}"),
                format!("{s}/file"),
                format!("{s}/file/x"),
                format!("{s}/file/x/y"),
                ".".to_string(),
                "..".to_string(),
                "new/x".to_string(),
                "".to_string(),
            ];
            if opt != "cache" {
                l.push("/".into());
            }
            src.pick(&l).clone()
        }
        "retries" => src.pick(&["0", "1", "-1", "4294967295", "4294967296", "1.5", "x", "", "0x1", "٣"]).to_string(),
        _ => src.string(SOUP, 0, 6),
    };
    // made worse
    let mut worse = false;
    if src.bool() && ["auth", "scoped-registries"].contains(&opt) {
        worse = true;
        let mut c: Vec<char> = val.chars().collect();
        match src.below(4) {
            0 => {
                // without one of its marks
                let m = *src.pick(if opt == "auth" { &['{', '}', '='] } else { &['=', '=', '='] });
                c.retain(|x| *x != m);
                want = Want::Refused;
            }
            1 if !c.is_empty() => {
                let i = src.usize(c.len());
                let j = src.usize(c.len());
                c.swap(i, j);
                want = Want::Any;
            }
            2 => {
                for _ in 0..src.range(1, 4) {
                    let i = src.usize(c.len() + 1).min(c.len());
                    let x = *src.pick(SOUP);
                    c.insert(i, x);
                }
                want = Want::Any;
            }
            _ => {
                let n = src.range(0, 14);
                let s = src.string(SOUP, n, n);
                c = s.chars().collect();
                want = Want::Any;
            }
        }
        val = c.into_iter().collect();
        ctx.label("broken value");
    }
    ctx.label(opt);
    ctx.nontrivial = worse || opt != "auth";
    let how = if opt == "config" { 0 } else { src.below(3) };
    let mut args: Vec<String> = vec!["--no-progress".into()];
    if opt == "config" && src.bool() {
        ctx.label("first time");
        p.env.push(("CI".into(), "false".into()));
    } else {
        args.push("--no-first-time".into());
    }
    let mut user = vec![];
    if opt != "registry" {
        args.extend(["--registry".into(), base.clone()]);
    }
    if opt == "retries" || (opt != "cache" && src.bool()) {
        args.extend(["--cache".into(), sc.join("cache").display().to_string()]);
    }
    if opt != "retries" {
        args.extend(["--retries".into(), "0".into()]);
    }
    if opt == "proxy-url" || opt == "no-proxy-domain" {
        args.push("--proxy".into());
        if opt == "no-proxy-domain" {
            args.extend(["--proxy-url".into(), "http://127.0.0.1:9".into()]);
        }
    }
    let cmd = if opt == "config" {
        *src.pick(&["ping", "view", "login", "logout"])
    } else if opt == "default-tag" || src.bool() {
        "view"
    } else {
        "ping"
    };
    match how {
        0 => {
            ctx.label("command line");
            args.push(format!("--{opt}={val}"));
        }
        1 => {
            ctx.label("file");
            // in notation that can hold anything
            user.push(format!("{opt} {{\n - {}\n}}", kdl_str(src, &val, false)));
            if opt != "auth" && opt != "scoped-registries" {
                user = vec![format!("{opt} {}", kdl_str(src, &val, false))];
            }
        }
        _ => {
            ctx.label("environment");
            if val.contains('\0') {
                return Err(Stop::Skip("too deep".into()));
            }
            p.env.push((format!("oro_config_{}", opt.replace('-', "_")), val.clone()));
        }
    }
    let f = sc.join("user.kdl");
    std::fs::write(&f, format!("options {{\n{}\n}}\n", user.join("\n"))).unwrap();
    if opt != "config" {
        args.extend(["--config".into(), f.display().to_string()]);
    }
    if opt == "default-tag" && how == 0 {
        let a = args.pop().unwrap();
        let b = args.pop().unwrap();
        let x = args.iter().position(|x| x.starts_with("--default-tag")).unwrap();
        let t = args.remove(x);
        args.extend([b, a, "view".into(), t, "@s/z".into()]);
    } else {
        args.push(cmd.into());
        if cmd == "login" {
            args.push("--token=x".into());
        }
        if cmd == "view" {
            args.push("@s/z".into());
        }
    }
    ctx.note(format!("oro {}", args.join(" ")));
    ctx.note(format!("file {user:?} env {:?} value {val:?} wanted {want:?}", p.env));
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let out = run_limited(p.command(&a), Some(&srv), 20)?;
    ensure!(!out.panicked() && out.signal.is_none() && !out.deadlock, "oro-panic", "{}", out.tail());
    let said = format!("{}{}", out.stdout, out.stderr);
    if !out.ok() {
        ctx.label("refused");
        let quiet = opt == "loglevel";
        ensure!(quiet || !said.trim().is_empty(), "silent", "failed without a message");
    } else {
        ctx.label("took it");
    }
    match want {
        Want::Any => {}
        Want::Refused => ensure!(!out.ok(), "accepted", "took {val:?}: {}", out.tail()),
        Want::Header(h) => {
            // the registry answers, so nothing else can fail
            ensure!(out.ok(), "refused", "{}", out.tail());
            let log = srv.take_log();
            ensure!(!log.is_empty(), "no-request", "{host} wasn't asked");
            for r in log {
                ensure!(
                    r.header("authorization") == h.as_deref(),
                    "wrong-meaning",
                    "{val:?} sends {:?} instead of {h:?}",
                    r.header("authorization")
                );
            }
        }
    }
    Ok(())
}

fn f02_deep(ctx: &mut Ctx) -> CaseResult {
    f02_probe(ctx, &format!("options {}{}\n", "{a ".repeat(20000), "}".repeat(20000)), "deep-nesting")
}

fn f02_subscript(ctx: &mut Ctx) -> CaseResult {
    f02_probe(ctx, "options {\n  \"foo[-5]\" 1\n}\n", "subscript-key")
}

fn f02_probe(ctx: &mut Ctx, text: &str, sig: &str) -> CaseResult {
    let srv = Server::start(Registry::default());
    let sc = ctx.scratch();
    let p = Proj::new(&sc, &srv.base);
    let f = sc.join("user.kdl");
    std::fs::write(&f, text).unwrap();
    let out = run_limited(p.command(&["--config", f.to_str().unwrap(), "ping"]), Some(&srv), 20)?;
    ensure!(!out.panicked() && out.signal.is_none() && !out.deadlock, sig, "{}", out.tail());
    Ok(())
}

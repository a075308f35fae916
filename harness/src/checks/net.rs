//! Which registry is asked for what, and with which credentials.
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::proj::*;
use crate::registry::*;
use crate::tree::*;
use base64::Engine as _;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "S01",
            rule: "1-3 loopback servers, each with several registries below different paths, addressed by two host names; scopes mapped to them; tarballs on other registries or behind redirects; 0-4 credentials of all forms for those registries, their parents, siblings, other ports and hosts, given by option or config file; commands apply, add, view, ping, reapply; every request's Authorization compared with the model; non-trivial: some request should carry a credential and some other should not or should carry another",
            level: "property_based",
            quick: 1500,
            thorough: 60000,
            threads: 16,
            shrink: 200,
            case: s01,
            fixed: vec![],
            assumptions: vec!["plain HTTP on loopback; proxies not used", "on a redirect within the same host and port the previous credential may be kept"],
        },
        Check {
            id: "S02",
            rule: "generated registry of scoped and unscoped packages with aliases spread over 2-4 registry addresses (ports, paths, trailing slashes, host names), every registry also offering wrong packages under all names; histories of apply, add, remove, view, reapply; every metadata request compared with the scope map and the tree with the right registry's packages; non-trivial: at least two registries had to be asked",
            level: "property_based",
            quick: 1200,
            thorough: 50000,
            threads: 16,
            shrink: 200,
            case: s02,
            fixed: vec![],
            assumptions: vec!["each scope is mapped at most once per configuration"],
        },
    ]
}

/// A registry address.
#[derive(Clone, Debug)]
struct Loc {
    srv: usize,
    host: String,
    /// "" or "/a/b", without a trailing slash
    path: String,
    /// as written in options
    url: String,
}

struct World {
    servers: Vec<Server>,
    locs: Vec<Loc>,
    /// scope without "@" -> location; None is the default registry
    scopes: BTreeMap<Option<String>, usize>,
    reg: Registry,
}

impl World {
    fn base(&self, l: usize) -> String {
        let l = &self.locs[l];
        format!("{}{}", self.origin(l.srv, &l.host), l.path)
    }
    fn origin(&self, srv: usize, host: &str) -> String {
        self.servers[srv].base.replace("127.0.0.1", host)
    }
    fn loc_of(&self, name: &str) -> usize {
        let scope = name
            .strip_prefix('@')
            .and_then(|n| n.split_once('/'))
            .map(|n| n.0.to_string());
        *self
            .scopes
            .get(&scope)
            .unwrap_or_else(|| &self.scopes[&None])
    }
    fn log(&self) -> Vec<(usize, Req)> {
        let mut v = vec![];
        for (i, s) in self.servers.iter().enumerate() {
            for r in s.take_log() {
                v.push((i, r));
            }
        }
        v
    }
}

const DECOYS: &[&str] = &["0.0.99", "1.0.99", "1.2.99", "2.0.99", "3.0.99"];

const PATHS: &[&str] = &["", "", "/npm", "/npmx", "/npm/private", "/Repo/api", "/a.b/_r", "/npm-private"];

fn below(prefix: &str, path: &str) -> Option<String> {
    let r = path.strip_prefix(prefix)?;
    if r.is_empty() || r.starts_with('/') {
        Some(r.to_string())
    } else {
        None
    }
}

fn gen_world(src: &mut Src, tricky_tarballs: bool) -> World {
    // scopes that resemble each other
    let all = ["s", "t", "st", "u", "s-t", "s.t", "k", "K", "ss", "u-s", "_u"];
    let mut known: Vec<&str> = all.to_vec();
    src.shuffle(&mut known);
    known.truncate(src.range(3, 6));
    let names: Vec<&'static str> = [
        "a", "b", "c", "@s/a", "@s/g", "@t/b", "@t/a", "@st/a", "@u/c", "@s-t/a", "@s-t/c", "@s.t/a", "@K/c", "@ss/b", "@u-s/c", "@_u/c",
    ]
    .into_iter()
    .filter(|n| match n.strip_prefix('@').and_then(|n| n.split_once('/')) {
        Some((s, _)) => known.contains(&s),
        None => true,
    })
    .collect();
    let o = RegOpts {
        names,
        max_pkgs: 7,
        max_versions: 2,
        max_deps: 2,
        extra_files: false,
        ..Default::default()
    };
    let mut reg = gen_registry(src, &o);
    let ns = src.range(1, 3);
    let servers: Vec<Server> = (0..ns).map(|_| Server::start(Registry::default())).collect();
    let mut locs: Vec<Loc> = vec![];
    for i in 0..src.range(2, 4) {
        let srv = src.usize(ns);
        let host = if src.chance(1, 4) { "localhost" } else { "127.0.0.1" };
        let path = src.pick(PATHS).to_string();
        if locs.iter().any(|l| l.srv == srv && l.path == path) && i > 0 {
            continue;
        }
        let slash = if src.bool() { "/" } else { "" };
        let url = format!("{}{path}{slash}", servers[srv].base.replace("127.0.0.1", host));
        locs.push(Loc { srv, host: host.into(), path, url });
    }
    let mut scopes = BTreeMap::new();
    scopes.insert(None, src.usize(locs.len()));
    for s in known {
        if src.chance(2, 3) {
            scopes.insert(Some(s.to_string()), src.usize(locs.len()));
        }
    }
    let mut w = World { servers, locs, scopes, reg: Registry::default() };
    // where tarballs are
    for (n, p) in reg.pkgs.iter_mut() {
        let home = w.loc_of(n);
        for ver in p.versions.values_mut() {
            let mut base = w.base(home);
            if tricky_tarballs && src.chance(1, 2) {
                let l = src.usize(w.locs.len());
                base = w.base(l);
                if src.chance(1, 3) {
                    // through a redirect from somewhere
                    let via = src.usize(w.locs.len());
                    let below_it = src.bool();
                    let v = &w.locs[via];
                    let o = w.origin(v.srv, &v.host);
                    base = if below_it {
                        format!("{o}{}/redir/{l}", v.path)
                    } else {
                        format!("{o}/redir/{l}")
                    };
                }
            }
            ver.tarball_base = Some(base);
        }
    }
    w.reg = reg;
    // the servers' answers
    let shared = Arc::new((w.reg.clone(), w.locs.clone(), (0..w.locs.len()).map(|l| w.base(l)).collect::<Vec<_>>(), {
        let m: BTreeMap<String, usize> = w.reg.pkgs.keys().map(|n| (n.clone(), w.loc_of(n))).collect();
        m
    }));
    for (i, s) in w.servers.iter().enumerate() {
        let sh = shared.clone();
        *s.sh.handler.lock().unwrap() = Some(Arc::new(move |r: &Req| {
            Some(respond(i, r, &sh.0, &sh.1, &sh.2, &sh.3))
        }));
    }
    w
}

fn loc_at(locs: &[Loc], srv: usize, path: &str) -> Option<(usize, String)> {
    locs.iter()
        .enumerate()
        .filter(|(_, l)| l.srv == srv)
        .filter_map(|(i, l)| below(&l.path, path).map(|r| (i, r, l.path.len())))
        .max_by_key(|x| x.2)
        .map(|x| (x.0, x.1))
}

fn respond(
    srv: usize,
    r: &Req,
    reg: &Registry,
    locs: &[Loc],
    bases: &[String],
    home: &BTreeMap<String, usize>,
) -> (u16, Vec<(String, String)>, Vec<u8>) {
    let nf = (404, vec![], b"{}".to_vec());
    let path = pct_decode(r.path.split('?').next().unwrap());
    if let Some((_, t)) = path.split_once("/redir/") {
        let (l, rest) = t.split_once('/').unwrap();
        let l: usize = l.parse().unwrap();
        let from = r.header("host").unwrap_or("");
        return (
            302,
            vec![("location".into(), format!("{}/{rest}?from={from}", bases[l]))],
            vec![],
        );
    }
    let Some((l, rest)) = loc_at(locs, srv, &path) else {
        return nf;
    };
    let p = rest.trim_start_matches('/');
    if p == "-/ping" {
        return (200, vec![], b"{}".to_vec());
    }
    if let Some((name, file)) = p.split_once("/-/") {
        let short = name.rsplit('/').next().unwrap();
        let Some(pkg) = reg.pkgs.get(name) else { return nf };
        for (v, ver) in &pkg.versions {
            if file == format!("{short}-{v}.tgz") {
                return (200, vec![], ver.tarball.clone());
            }
        }
        return nf;
    }
    let hs = vec![("content-type".to_string(), "application/json".to_string())];
    if home.get(p) == Some(&l) {
        return (200, hs, reg.packument(p, &bases[l]).unwrap());
    }
    // Something else of that name.
    let mut d = Registry::default();
    let mut pkg = Pkg::default();
    for v in DECOYS {
        let mut ver = Ver::default();
        ver.files.insert("evil.js".into(), (b"evil".to_vec(), 0o644));
        ver.seal(p, v);
        pkg.versions.insert(v.to_string(), ver);
    }
    pkg.tags.insert("latest".into(), "3.0.99".into());
    pkg.tags.insert("next".into(), "3.0.99".into());
    d.pkgs.insert(p.into(), pkg);
    (200, hs, d.packument(p, &bases[l]).unwrap())
}

/// Every request for a package's metadata went to its registry.
fn check_lookups(w: &World, log: &[(usize, Req)], what: &str) -> Result<BTreeSet<usize>, Stop> {
    let mut asked = BTreeSet::new();
    for (srv, r) in log {
        let path = pct_decode(r.path.split('?').next().unwrap());
        if path.contains("/-/") || path.contains("/redir/") {
            continue;
        }
        let mut hit = None;
        for (n, l) in w.reg.pkgs.keys().map(|n| (n, w.loc_of(n))) {
            if w.locs[l].srv == *srv && path == format!("{}/{n}", w.locs[l].path) {
                hit = Some(l);
            }
        }
        let host = r.header("host").unwrap_or("").to_string();
        match hit {
            Some(l) => {
                let want = w.base(l);
                let want = &want["http://".len()..];
                let want = &want[..want.len() - w.locs[l].path.len()];
                ensure!(
                    host == want,
                    "lookup-elsewhere",
                    "{what}: {} asked of {host}, not {want}",
                    r.path
                );
                asked.insert(l);
            }
            None => {
                let short = path.rsplit_once("/@").map(|x| format!("@{}", x.1)).unwrap_or_else(|| {
                    path.rsplit('/').next().unwrap_or("").to_string()
                });
                return fail(
                    "lookup-elsewhere",
                    format!(
                        "{what}: {} {} on {host}; {short} belongs to {}",
                        r.method,
                        r.path,
                        w.base(w.loc_of(&short))
                    ),
                );
            }
        }
    }
    Ok(asked)
}

fn quote(s: &str) -> String {
    format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\""))
}

/// The world's registries as options, or as lines for a config file.
struct Conf {
    args: Vec<String>,
    user: Vec<String>,
    project: Vec<String>,
}

fn place(src: &mut Src, c: &mut Conf, opt: &str, cli: Vec<String>, kdl: Vec<String>) {
    if kdl.is_empty() {
        return;
    }
    match src.below(4) {
        0 | 1 => {
            for x in cli {
                if src.bool() {
                    c.args.push(format!("--{opt}={x}"));
                } else {
                    c.args.push(format!("--{opt}"));
                    c.args.push(x);
                }
            }
        }
        2 => c.user.extend(kdl),
        _ => c.project.extend(kdl),
    }
}

fn registries(src: &mut Src, w: &World, c: &mut Conf) {
    let d = w.locs[w.scopes[&None]].url.clone();
    place(src, c, "registry", vec![d.clone()], vec![format!("registry {}", quote(&d))]);
    let mut cli = vec![];
    let mut kdl = vec![];
    for (s, l) in &w.scopes {
        if let Some(s) = s {
            let at = if src.chance(1, 6) { "" } else { "@" };
            let u = &w.locs[*l].url;
            cli.push(format!("{at}{s}={u}"));
            kdl.push(format!("  \"{at}{s}\" {}", quote(u)));
        }
    }
    if kdl.is_empty() {
        return;
    }
    let kdl = vec![format!("scoped-registries {{\n{}\n}}", kdl.join("\n"))];
    let opt = if src.bool() { "scoped-registry" } else { "scoped-registries" };
    place(src, c, opt, cli, kdl);
}

fn write_conf(src: &mut Src, p: &mut Proj, c: Conf) {
    p.common = c.args;
    let text = |l: &Vec<String>| format!("options {{\n{}\n}}\n", l.join("\n"));
    if !c.user.is_empty() {
        if src.bool() {
            let d = p.home.join("config/orogene");
            std::fs::create_dir_all(&d).unwrap();
            std::fs::write(d.join("oro.kdl"), text(&c.user)).unwrap();
        } else {
            // --config leaves the project's file out
            let f = p.home.join("my.kdl");
            let mut all = c.user.clone();
            all.extend(c.project);
            std::fs::write(&f, text(&all)).unwrap();
            p.common.push("--config".into());
            p.common.push(f.display().to_string());
            return;
        }
    }
    if !c.project.is_empty() {
        std::fs::write(p.dir.join("oro.kdl"), text(&c.project)).unwrap();
    }
}

fn describe(w: &World) -> String {
    let mut s = String::new();
    for (sc, l) in &w.scopes {
        s.push_str(&format!("{}={} ", sc.clone().unwrap_or_else(|| "default".into()), w.locs[*l].url));
    }
    s + "\n" + &describe_registry(&w.reg)
}

fn base_proj(ctx: &mut Ctx) -> Proj {
    let mut p = Proj::new(&ctx.scratch(), "unused");
    p.std_flags = false;
    p
}

fn std_args(p: &Proj) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    if let Some(c) = &p.cache {
        v.push("--cache".into());
        v.push(c.display().to_string());
    }
    for x in ["--no-first-time", "--no-progress", "--no-emoji"] {
        v.push(x.into());
    }
    v.push("--root".into());
    v.push(p.dir.display().to_string());
    v
}

fn run(p: &Proj, args: &[String]) -> Result<Out, Stop> {
    let a: Vec<String> = args.iter().cloned().chain(std_args(p)).collect();
    let r: Vec<&str> = a.iter().map(|s| s.as_str()).collect();
    p.run(&r, None)
}

fn s02(src: &mut Src, ctx: &mut Ctx) -> Result<(), Stop> {
    let w = gen_world(src, false);
    ctx.note(describe(&w));
    let o = RegOpts::default();
    let mut mani = gen_mani(src, &w.reg, &o, 4);
    let mut p = base_proj(ctx);
    p.write_manifest(&mani.json());
    let mut c = Conf { args: vec![], user: vec![], project: vec![] };
    registries(src, &w, &mut c);
    write_conf(src, &mut p, c);
    ctx.note(format!("options {:?}", p.common));
    let mut all = BTreeSet::new();
    let steps = src.range(1, 3);
    for i in 0..steps {
        let names: Vec<String> = w.reg.pkgs.keys().cloned().collect();
        let n = src.pick(&names).clone();
        let mut tree = true;
        let args: Vec<String> = match src.below(if i == 0 { 5 } else { 9 }) {
            0 | 1 | 2 => vec!["apply".into()],
            3 => {
                tree = false;
                let spec = gen_spec(src, &w.reg, &n, &o);
                let mut v = vec!["view".into(), format!("{n}@{spec}")];
                if src.bool() {
                    v.push("--json".into());
                }
                v
            }
            4 => {
                let spec = gen_spec(src, &w.reg, &n, &o);
                let k = if src.chance(1, 3) { "@s/alias".to_string() } else { n.clone() };
                mani.remove(&k);
                let s = if k == n { format!("{n}@{spec}") } else { format!("{k}@npm:{n}@{spec}") };
                mani.deps.insert(k, "?".into());
                vec!["add".into(), s]
            }
            5 => vec!["reapply".into()],
            6 => {
                let _ = std::fs::remove_dir_all(p.dir.join("node_modules"));
                vec!["apply".into()]
            }
            7 => {
                let _ = std::fs::remove_file(p.dir.join("package-lock.kdl"));
                let _ = std::fs::remove_dir_all(p.cache.as_ref().unwrap());
                vec!["apply".into()]
            }
            _ => {
                let have: Vec<String> = mani.all().keys().cloned().collect();
                if have.is_empty() {
                    continue;
                }
                let k = src.pick(&have).clone();
                mani.remove(&k);
                vec!["remove".into(), k]
            }
        };
        ctx.note(format!("oro {}", args.join(" ")));
        ctx.label(args[0].clone());
        let out = run(&p, &args)?;
        let log = w.log();
        for (_, r) in &log {
            ctx.note(format!("  {} {} {}", r.method, r.header("host").unwrap_or(""), r.path));
        }
        let asked = check_lookups(&w, &log, &args.join(" "))?;
        all.extend(asked);
        ensure!(
            out.ok(),
            "command-failed",
            "oro {} fails: {}",
            args.join(" "),
            out.tail()
        );
        if args[0] == "view" {
            // the version the spec means, from the right registry
            ensure!(
                !DECOYS.iter().any(|v| out.stdout.contains(v)),
                "view-wrong",
                "oro {} shows another registry's package: {}",
                args.join(" "),
                out.stdout
            );
        }
        if args[0] == "add" || args[0] == "remove" {
            let j = read_json(&p.dir.join("package.json")).unwrap_or_default();
            mani = super::manifest::model_mani(&j);
        }
        if tree {
            check_tree(&p.dir, &w.reg, &mani)?;
        }
    }
    ctx.nontrivial = all.len() > 1;
    Ok(())
}

#[derive(Clone, Debug)]
struct Cred {
    host: String,
    path: String,
    header: String,
    secret: String,
}

fn s01(src: &mut Src, ctx: &mut Ctx) -> Result<(), Stop> {
    let w = gen_world(src, true);
    ctx.note(describe(&w));
    let o = RegOpts::default();
    let mani = gen_mani(src, &w.reg, &o, 4);
    let mut p = base_proj(ctx);
    p.write_manifest(&mani.json());
    let mut c = Conf { args: vec![], user: vec![], project: vec![] };
    registries(src, &w, &mut c);
    // credentials
    let mut creds: Vec<Cred> = vec![];
    let mut cli = vec![];
    let mut kdl = vec![];
    let n = src.usize(5);
    for i in 0..n {
        let l = w.locs[src.usize(w.locs.len())].clone();
        let mut host = l.host.clone();
        let mut srv = l.srv;
        let mut path = l.path.clone();
        match src.below(8) {
            0 => host = if host == "localhost" { "127.0.0.1".into() } else { "localhost".into() },
            1 => srv = src.usize(w.servers.len()),
            2 => path = path.rsplit_once('/').map(|x| x.0.to_string()).unwrap_or_default(),
            3 => path = src.pick(PATHS).to_string(),
            4 => path = format!("{path}/@s"),
            _ => {}
        }
        let origin = w.origin(srv, &host);
        let hp = origin["http://".len()..].to_string();
        if creds.iter().any(|c| c.host == hp && c.path == path) {
            continue;
        }
        let url = format!("{origin}{path}{}", if src.bool() { "/" } else { "" });
        let secret = format!("Sec{i}{}", src.below(1000));
        let b64 = |s: &str| base64::engine::general_purpose::STANDARD.encode(s);
        let (fields, header): (Vec<(&str, String)>, String) = match src.below(4) {
            0 => (vec![("token", secret.clone())], format!("Bearer {secret}")),
            1 => {
                // with = signs and the like
                let t = format!("{}=={secret}+/", src.pick(&["npm_", "a{b}", "x y", "é"]).replace('é', "e"));
                (vec![("token", t.clone())], format!("Bearer {t}"))
            }
            2 => {
                let t = b64(&format!("legacy:{secret}"));
                (vec![("legacy-auth", t.clone())], format!("Basic {t}"))
            }
            _ => {
                let u = src.pick(&["user", "me@host", "u:v"]).to_string();
                if src.bool() {
                    let pw = format!("{secret}{}", src.pick(&["", "=", "pä}s{s", ":", " x"]));
                    let mut f = vec![("username", u.clone()), ("password", pw.clone())];
                    if src.bool() {
                        f.reverse();
                    }
                    (f, format!("Basic {}", b64(&format!("{u}:{pw}"))))
                } else {
                    (vec![("username", format!("{secret}{u}"))], format!("Basic {}", b64(&format!("{secret}{u}:"))))
                }
            }
        };
        for (k, v) in &fields {
            cli.push(format!("{{{url}}}{k}={v}"));
        }
        kdl.push(format!(
            "  {} {}",
            quote(&url),
            fields.iter().map(|(k, v)| format!("{k}={}", quote(v))).collect::<Vec<_>>().join(" ")
        ));
        creds.push(Cred { host: hp, path, header, secret });
    }
    let kdl = if kdl.is_empty() { vec![] } else { vec![format!("auth {{\n{}\n}}", kdl.join("\n"))] };
    place(src, &mut c, "auth", cli, kdl);
    ctx.note(format!("credentials {creds:?}"));
    write_conf(src, &mut p, c);
    ctx.note(format!("options {:?}", p.common));
    let expect = |host: &str, path: &str| -> Option<String> {
        creds
            .iter()
            .filter(|c| c.host == host && below(&c.path, path).is_some())
            .max_by_key(|c| c.path.len())
            .map(|c| c.header.clone())
    };
    let mut with = BTreeSet::new();
    let steps = src.range(1, 2);
    for _ in 0..steps {
        let names: Vec<String> = w.reg.pkgs.keys().cloned().collect();
        let n = src.pick(&names).clone();
        let args: Vec<String> = match src.below(6) {
            0 | 1 | 2 => vec!["apply".into()],
            3 => vec!["view".into(), n],
            4 => vec!["add".into(), n],
            _ => vec!["ping".into()],
        };
        ctx.note(format!("oro {}", args.join(" ")));
        ctx.label(args[0].clone());
        let out = run(&p, &args)?;
        for (_, r) in w.log() {
            let host = r.header("host").unwrap_or("").to_string();
            let (path, query) = match r.path.split_once('?') {
                Some((a, b)) => (a.to_string(), b.to_string()),
                None => (r.path.clone(), String::new()),
            };
            let got: Vec<String> = r
                .headers
                .iter()
                .filter(|h| h.0.eq_ignore_ascii_case("authorization"))
                .map(|h| h.1.clone())
                .collect();
            ctx.note(format!("  {} {host} {} {got:?}", r.method, r.path));
            let want = expect(&host, &path);
            let mut ok: Vec<Option<String>> = vec![want.clone()];
            if let Some(from) = query.strip_prefix("from=") {
                ok.push(None);
                ctx.label("redirected");
                if from == host {
                    // whatever the redirecting request carried
                    ok.extend(creds.iter().filter(|c| c.host == host).map(|c| Some(c.header.clone())));
                }
            } else {
                with.insert(want.clone());
            }
            ensure!(
                got.len() <= 1 && ok.contains(&got.get(0).cloned()),
                if want.is_none() || got.len() > 1 {
                    "credential-leaked"
                } else if got.is_empty() {
                    "credential-missing"
                } else {
                    "credential-wrong"
                },
                "{} http://{host}{} carries {got:?}, not {want:?}",
                r.method,
                r.path
            );
            for (k, v) in &r.headers {
                if !k.eq_ignore_ascii_case("authorization") {
                    for c in &creds {
                        ensure!(!v.contains(&c.secret), "credential-leaked", "header {k}: {v}");
                    }
                }
            }
            for c in &creds {
                ensure!(
                    !r.path.contains(&c.secret),
                    "credential-leaked",
                    "path {}",
                    r.path
                );
            }
        }
        ensure!(
            out.ok(),
            "command-failed",
            "oro {} fails: {}",
            args.join(" "),
            out.tail()
        );
        if args[0] == "apply" {
            check_tree(&p.dir, &w.reg, &mani)?;
        }
        // nor into messages, the debug log, the lockfile or the manifest
        for c in &creds {
            ensure!(
                !out.stdout.contains(&c.secret) && !out.stderr.contains(&c.secret),
                "credential-shown",
                "oro {} prints a credential: {}",
                args.join(" "),
                out.tail()
            );
        }
        let cache = p.cache.clone().unwrap();
        for d in [cache.join("_logs"), p.dir.clone()] {
            for (f, e) in snapshot(&d) {
                if f == "oro.kdl" {
                    continue;
                }
                if let Ent::File(b, _) = e {
                    let t = String::from_utf8_lossy(&b);
                    for c in &creds {
                        ensure!(
                            !t.contains(&c.secret) && !t.contains(&c.header[c.header.find(' ').unwrap() + 1..]),
                            "credential-written",
                            "oro {} writes a credential to {f}: {}",
                            args.join(" "),
                            t.lines().find(|l| l.contains(&c.secret)).unwrap_or("")
                        );
                    }
                }
            }
        }
        if args[0] == "add" {
            break;
        }
    }
    ctx.nontrivial = with.len() > 1;
    Ok(())
}

//! Which requests go through the proxy.
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::proj::*;
use crate::registry::*;
use base64::Engine as _;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "S04",
        rule: "1-4 registries (default and scopes) on loopback addresses and on hosts that only the proxy knows, tarballs partly on another of them; a proxy with or without credentials and a list of excluded domains, addresses and networks, given on the command line, in the environment or in the config file, or no proxy configured while the usual environment variables name one; commands apply, add, view, ping; each request must have arrived where the model says, with the proxy's credentials at the proxy only and the registry's own where they belong; non-trivial: some request went through the proxy while some other went directly, or credentials were due, or the proxy was off while the environment named one",
        level: "property_based",
        quick: 1200,
        thorough: 60000,
        threads: 16,
        shrink: 200,
        case: s04,
        fixed: vec![("excluded-host-credentials", excluded_host)],
        assumptions: vec!["plain HTTP proxies and registries", "addresses are not excluded by \"*\" (reqwest's rule)"],
    }]
}

const NAMES: &[&str] = &["reg.example.test", "sub.reg.example.test", "example.test", "notexample.test", "npm.other.test", "other.test:8081"];

/// host[:port] without its port
fn bare(h: &str) -> &str {
    h.split(':').next().unwrap()
}

fn is_ip(h: &str) -> bool {
    bare(h).parse::<std::net::Ipv4Addr>().is_ok()
}

/// Whether a list of excluded hosts has this one.
fn excluded(list: &[String], host: &str) -> bool {
    let h = bare(host);
    list.iter().any(|e| {
        if let Ok(ip) = h.parse::<std::net::Ipv4Addr>() {
            if let Some((net, bits)) = e.split_once('/') {
                let (Ok(net), Ok(bits)) = (net.parse::<std::net::Ipv4Addr>(), bits.parse::<u32>()) else { return false };
                let mask = if bits == 0 { 0 } else { u32::MAX << (32 - bits) };
                return u32::from(ip) & mask == u32::from(net) & mask;
            }
            return e == h;
        }
        let d = e.strip_prefix('.').unwrap_or(e);
        e == "*" || h == d || (!d.is_empty() && h.ends_with(&format!(".{d}")))
    })
}

/// Entries around the hosts in use.
fn gen_list(src: &mut Src, hosts: &[String]) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for _ in 0..src.range(1, 3) {
        let h: &String = src.pick(hosts);
        let h = bare(h).to_string();
        let e = if is_ip(&h) {
            match src.below(5) {
                0 | 1 => h.clone(),
                2 => format!("{h}/32"),
                3 => "127.0.0.0/8".into(),
                _ => src.pick(&["127.0.0.3", "10.0.0.0/8", "127.0.1.0/24"]).to_string(),
            }
        } else {
            match src.below(8) {
                0 | 1 => h.clone(),
                2 => format!(".{h}"),
                3 => h.split_once('.').map(|x| x.1.to_string()).unwrap_or(h.clone()),
                4 => h.split_once('.').map(|x| format!(".{}", x.1)).unwrap_or(h.clone()),
                5 => h[1..].to_string(),
                6 => format!("x.{h}"),
                _ => src.pick(&["unrelated.test", "reg.example.tes", "example"]).to_string(),
            }
        };
        v.push(e);
    }
    if src.chance(1, 12) && !hosts.iter().any(|h| is_ip(h)) {
        v.push("*".into());
    }
    v
}

/// What a registry with all packages says, whoever asks for whichever host.
fn reply(reg: &Registry, host: &str, path: &str) -> (u16, Vec<(String, String)>, Vec<u8>) {
    let p = pct_decode(path.split('?').next().unwrap_or(""));
    let p = p.trim_start_matches('/');
    if p == "-/ping" {
        return (200, vec![], b"{}".to_vec());
    }
    if let Some((name, file)) = p.split_once("/-/") {
        if let Some(pkg) = reg.pkgs.get(name) {
            let short = name.rsplit('/').next().unwrap();
            for (v, ver) in &pkg.versions {
                if file == format!("{short}-{v}.tgz") {
                    return (200, vec![("content-type".into(), "application/octet-stream".into())], ver.tarball.clone());
                }
            }
        }
        return (404, vec![], b"{}".to_vec());
    }
    match reg.packument(p, &format!("http://{host}")) {
        Some(b) => (200, vec![("content-type".into(), "application/json".into())], b),
        None => (404, vec![], b"{}".to_vec()),
    }
}

/// Where a request was for: host and path.
fn wanted(r: &Req) -> (String, String) {
    match r.path.strip_prefix("http://") {
        Some(rest) => match rest.find('/') {
            Some(i) => (rest[..i].into(), rest[i..].into()),
            None => (rest.into(), "/".into()),
        },
        None => (r.header("host").unwrap_or("").to_string(), r.path.clone()),
    }
}

fn pct(s: &str) -> String {
    let mut o = String::new();
    for b in s.bytes() {
        if b.is_ascii_alphanumeric() || b"-._~".contains(&b) {
            o.push(b as char);
        } else {
            o.push_str(&format!("%{b:02X}"));
        }
    }
    o
}

fn basic(c: &Option<(String, String)>) -> Option<String> {
    c.as_ref()
        .map(|(u, w)| format!("Basic {}", base64::engine::general_purpose::STANDARD.encode(format!("{u}:{w}"))))
}

/// The proxy's credentials are none of an excluded registry's business.
fn excluded_host(ctx: &mut Ctx) -> CaseResult {
    let srv = Server::start(Registry::default());
    let mut p = Proj::new(&ctx.scratch(), &srv.base);
    p.common.extend(["--proxy", "--proxy-url", "http://u:pw@127.0.0.1:9/", "--no-proxy-domain", "127.0.0.1"].map(String::from));
    let o = p.run(&["ping"], Some(&srv))?;
    let log = srv.take_log();
    ensure!(o.ok() && log.len() == 1, "fails", "{}", o.tail());
    ensure!(
        log[0].header("proxy-authorization").is_none(),
        "excluded-host-credentials",
        "an excluded registry got {:?}",
        log[0].header("proxy-authorization")
    );
    Ok(())
}

fn s04(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let origin = Server::start_on("0.0.0.0:0", Registry::default(), "");
    let via = Server::start(Registry::default());
    let port = origin.base.rsplit(':').next().unwrap().to_string();
    let mut all: Vec<String> = ["127.0.0.1", "127.0.0.2", "localhost"].iter().map(|h| format!("{h}:{port}")).collect();
    let direct = all.clone();
    all.extend(NAMES.iter().map(|n| n.to_string()));
    let mut hosts = vec![];
    for _ in 0..src.range(1, 4) {
        let h = if src.bool() { src.pick(&direct).clone() } else { src.pick(&all).clone() };
        if !hosts.contains(&h) {
            hosts.push(h);
        }
    }
    let o = RegOpts {
        names: vec!["a", "b", "c", "@s/a", "@s/g", "@t/b", "@t/c"],
        max_pkgs: 5,
        max_versions: 2,
        max_deps: 2,
        extra_files: false,
        ..Default::default()
    };
    let mut reg = gen_registry(src, &o);
    let mani = gen_mani(src, &reg, &o, 3);
    // scopes and tarballs elsewhere
    let mut at: BTreeMap<&str, String> = BTreeMap::new();
    at.insert("", hosts[0].clone());
    for s in ["s", "t"] {
        if src.bool() {
            at.insert(s, src.pick(&hosts).clone());
        }
    }
    for p in reg.pkgs.values_mut() {
        for v in p.versions.values_mut() {
            if src.chance(1, 4) {
                v.tarball_base = Some(format!("http://{}", src.pick(&hosts)));
            }
        }
    }
    for s in [&origin, &via] {
        let r = reg.clone();
        *s.sh.handler.lock().unwrap() = Some(Arc::new(move |q: &Req| {
            let (h, p) = wanted(q);
            Some(reply(&r, &h, &p))
        }));
    }
    let scratch = ctx.scratch();
    let mut p = Proj::new(&scratch, &format!("http://{}/", hosts[0]));
    p.write_manifest(&mani.json());
    p.common.extend(["--retries".to_string(), "0".to_string()]);
    for (s, h) in at.iter().filter(|(s, _)| !s.is_empty()) {
        p.common.push("--scoped-registry".into());
        p.common.push(format!("@{s}=http://{h}/"));
    }
    let token = src.chance(1, 3).then(|| format!("tok{}", src.below(1000)));
    if let Some(t) = &token {
        p.common.push("--auth".into());
        p.common.push(format!("{{http://{}/}}token={t}", hosts[0]));
    }

    // the proxy
    let on = src.chance(3, 4);
    let user: Vec<char> = "aZ0@/?#%+é".chars().collect();
    let secret: Vec<char> = "aZ09 @:/?#%+é".chars().collect();
    let creds = src.bool().then(|| {
        (
            format!("u{}", src.string(&user, 0, 4)),
            format!("p{}", src.string(&secret, 0, 5)),
        )
    });
    let url = {
        let a = via.base.strip_prefix("http://").unwrap();
        let slash = if src.bool() { "/" } else { "" };
        match &creds {
            Some((u, w)) => format!("http://{}:{}@{a}{slash}", pct(u), pct(w)),
            None => format!("http://{a}{slash}"),
        }
    };
    let list = if src.chance(2, 3) { gen_list(src, &hosts) } else { vec![] };
    let env_list = if src.chance(1, 3) { gen_list(src, &hosts) } else { vec![] };
    let join = |src: &mut Src, l: &[String]| l.join(*src.pick(&[",", ", ", " , "]));
    p.env.push(("NO_PROXY".into(), join(src, &env_list)));
    let mut file = vec![];
    if on {
        let mut opts = vec![("proxy-url", url.clone())];
        if !list.is_empty() {
            let l = join(src, &list);
            opts.push(("no-proxy-domain", l));
        }
        let flag = src.below(3);
        match flag {
            0 | 1 => p.common.push("--proxy".into()),
            _ => file.push("proxy true".to_string()),
        }
        for (k, v) in opts {
            match src.below(4) {
                0 => p.env.push((format!("oro_config_{}", k.replace('-', "_")), v)),
                1 => file.push(format!("{k} {v:?}")),
                2 => p.common.push(format!("--{k}={v}")),
                _ => {
                    p.common.push(format!("--{k}"));
                    p.common.push(v);
                }
            }
        }
    } else {
        for k in ["HTTP_PROXY", "http_proxy", "ALL_PROXY", "all_proxy"] {
            if src.chance(2, 3) {
                p.env.push((k.into(), url.clone()));
            }
        }
    }
    if !file.is_empty() {
        std::fs::write(p.dir.join("oro.kdl"), format!("options {{\n  {}\n}}\n", file.join("\n  "))).unwrap();
    }
    let effective = if list.is_empty() { &env_list } else { &list };
    let through = |h: &str| on && !excluded(effective, h);
    ctx.note(format!("hosts {at:?} on={on} excluded {list:?} NO_PROXY {env_list:?} credentials {creds:?} {:?} {file:?}", p.common));
    ctx.note(describe_registry(&reg));
    let some = reg.pkgs.keys().next().unwrap().clone();
    let cmds: Vec<Vec<&str>> = match src.below(6) {
        0 => vec![vec!["ping"]],
        1 => vec![vec!["view", &some]],
        2 => vec![vec!["add", &some]],
        3 => vec![vec!["apply"], vec!["view", &some]],
        _ => vec![vec!["apply"]],
    };
    let mut met: BTreeSet<bool> = BTreeSet::new();
    let mut auths = false;
    // Whether each host that may be asked can be reached as it should.
    let reachable = hosts.iter().all(|h| through(h) || direct.contains(h));
    for args in cmds {
        ctx.label(args[0].to_string());
        let o = run_limited(p.command(&args), Some(&origin), 60)?;
        ensure!(!o.panicked() && !o.deadlock, "crash", "oro {args:?}: {}", o.tail());
        for (proxy, log) in [(true, via.take_log()), (false, origin.take_log())] {
            for r in log {
                let (h, path) = wanted(&r);
                met.insert(proxy);
                ensure!(hosts.contains(&h), "host", "a request for {h}{path}, which isn't one of {hosts:?}");
                ensure!(
                    proxy == through(&h),
                    if proxy { "proxied" } else { "direct" },
                    "oro {args:?}: the request for http://{h}{path} went {}",
                    if proxy { "through the proxy" } else { "past the proxy" }
                );
                let pa = r.header("proxy-authorization");
                let want = if proxy { basic(&creds) } else { None };
                auths |= want.is_some();
                // See the known finding.
                let known = !proxy && on && pa.is_some() && pa == basic(&creds).as_deref();
                ensure!(known || pa == want.as_deref(), "proxy-credentials", "the {} got {pa:?} rather than {want:?}", if proxy { "proxy" } else { "registry" });
                let a = r.header("authorization");
                let want = token.as_ref().filter(|_| h == hosts[0]).map(|t| format!("Bearer {t}"));
                ensure!(a == want.as_deref(), "credentials", "http://{h}{path} got {a:?} rather than {want:?}");
            }
        }
        if reachable {
            ensure!(o.ok(), "fails", "oro {args:?}: {}", o.tail());
            if args[0] == "apply" {
                crate::tree::check_tree(&p.dir, &reg, &mani)?;
            }
        } else {
            ctx.label("some host can't be reached");
            break;
        }
    }
    ctx.label(if on { "proxy" } else { "no proxy" });
    ctx.nontrivial = met.len() > 1 || auths || (!on && !met.is_empty());
    Ok(())
}

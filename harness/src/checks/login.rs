//! login and logout.
use super::conf::{gen_v, kdl_node, kdl_str, load, V};
use crate::engine::*;
use crate::ensure;
use crate::proj::*;
use crate::registry::*;
use base64::Engine as _;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "S03",
        rule: "a user config file in random notation (or none yet) with other settings, comments, credentials and scopes written in all documented ways, then 1 to 6 logins (token, user name and password, legacy token, web with a scripted registry and browser, legacy with questions answered on a pseudo-terminal and one-time passwords or a page to open, or without any terminal, failing ones) and logouts with the real oro over five registries on two hosts; after each the file's settings, comments and credentials are compared with a model, tokens are revoked exactly where they belong, and ping and view carry what the model says; non-trivial: at least two registries have credentials at some point and one is changed",
        level: "exploration",
        quick: 900,
        thorough: 30000,
        threads: 16,
        shrink: 200,
        case: s03,
        fixed: vec![],
        assumptions: vec!["auth and scoped-registries are nodes with children, as documented", "usernames and passwords are typed without control characters"],
    }]
}

#[derive(Clone, Debug, PartialEq)]
enum Cred {
    Token(String),
    Basic(String, Option<String>),
    Legacy(String),
}

impl Cred {
    fn fields(&self) -> BTreeMap<&'static str, &str> {
        match self {
            Cred::Token(t) => [("token", t.as_str())].into(),
            Cred::Basic(u, None) => [("username", u.as_str())].into(),
            Cred::Basic(u, Some(p)) => [("username", u.as_str()), ("password", p.as_str())].into(),
            Cred::Legacy(t) => [("legacy-auth", t.as_str())].into(),
        }
    }
    fn header(&self) -> String {
        let e = base64::engine::general_purpose::STANDARD;
        match self {
            Cred::Token(t) => format!("Bearer {t}"),
            Cred::Basic(u, p) => format!("Basic {}", e.encode(format!("{u}:{}", p.as_deref().unwrap_or("")))),
            Cred::Legacy(t) => format!("Basic {t}"),
        }
    }
}

/// Where a registry is, however it's written.
fn place(s: &str) -> String {
    let (scheme, rest) = s.split_once("://").unwrap_or(("https", s));
    let (host, path) = rest.split_once('/').unwrap_or((rest, ""));
    let host = host.to_lowercase();
    let host = if host.contains(':') {
        host
    } else {
        format!("{host}:{}", if scheme == "http" { 80 } else { 443 })
    };
    let path = path.trim_matches('/');
    if path.is_empty() {
        format!("{host}/")
    } else {
        format!("{host}/{path}/")
    }
}

fn secret(src: &mut Src) -> String {
    let s = src.string(
        &['a', 'b', 'Z', '0', '9', '-', '_', '.', '/', '+', '=', '?', '#', '%', '"', '\\', '{', '}', ':', ' ', '&', '@', '\''],
        0,
        8,
    );
    format!("s{s}q{}", src.range(100, 999))
}

fn cred(src: &mut Src) -> Cred {
    match src.below(4) {
        0 | 1 => Cred::Token(secret(src)),
        2 => Cred::Basic(secret(src).replace(':', "."), if src.bool() { Some(secret(src)) } else { None }),
        _ => Cred::Legacy(secret(src)),
    }
}

fn s03(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let srvs: Vec<Server> = (0..2).map(|_| Server::start(Registry::default())).collect();
    let packument = |base: &str| {
        serde_json::json!({"name": "@s/z", "dist-tags": {"latest": "1.0.0"}, "versions": {"1.0.0": {
            "name": "@s/z", "version": "1.0.0", "dist": {"tarball": format!("{base}/z.tgz"), "shasum": "da39a3ee5e6b4b0d3255bfef95601890afd80709"}}}})
        .to_string()
        .into_bytes()
    };
    // what the web login answers: login status, done answers
    type Script = (u16, Vec<u8>, Vec<(u16, Option<String>, Vec<u8>)>);
    let script: Arc<Mutex<Script>> = Default::default();
    // what legacy logins get
    type Legacy = Vec<(u16, Option<String>, Vec<u8>)>;
    let legacy: Arc<Mutex<Legacy>> = Default::default();
    for s in &srvs {
        let script = script.clone();
        let legacy = legacy.clone();
        let pack = packument(&s.base);
        *s.sh.handler.lock().unwrap() = Some(Arc::new(move |r: &Req| {
            let path = pct_decode(&r.path);
            let mut sc = script.lock().unwrap();
            Some(if r.method == "PUT" {
                let mut l = legacy.lock().unwrap();
                let (st, wa, body) = if l.is_empty() { (500, None, vec![]) } else { l.remove(0) };
                (st, wa.map(|x| ("www-authenticate".to_string(), x)).into_iter().collect(), body)
            } else if path.ends_with("-/v1/login") {
                (sc.0, vec![], sc.1.clone())
            } else if path.contains("/done/") {
                let (st, ra, body) = if sc.2.is_empty() { (500, None, vec![]) } else { sc.2.remove(0) };
                (st, ra.map(|x| ("retry-after".to_string(), x)).into_iter().collect(), body)
            } else if path.ends_with("@s/z") {
                (200, vec![], pack.clone())
            } else {
                (200, vec![], b"{}".to_vec())
            })
        }));
    }
    let mut regs: Vec<String> = vec![
        srvs[0].base.clone(),
        format!("{}/a", srvs[0].base),
        format!("{}/a/b", srvs[0].base),
        srvs[1].base.clone(),
        format!("{}/x.y", srvs[1].base),
    ];
    let reachable = regs.len();
    regs.push("https://other.example".into());
    let sc = ctx.scratch();
    let mut p = Proj::new(&sc, &srvs[0].base);
    p.std_flags = false;
    p.write_manifest(&serde_json::json!({}));
    // a browser
    let bin = sc.join("bin");
    std::fs::create_dir_all(&bin).unwrap();
    let opened = sc.join("opened");
    let x = bin.join("xdg-open");
    std::fs::write(&x, format!("#!/bin/sh\nprintf '%s\\n' \"$1\" >> {}\n", opened.display())).unwrap();
    {
        use std::os::unix::fs::PermissionsExt;
        std::fs::set_permissions(&x, std::fs::Permissions::from_mode(0o755)).unwrap();
        settle(&x);
    }
    p.env.push(("PATH".into(), format!("{}:/usr/bin:/bin", bin.display())));

    p.env.push(("CI".into(), "false".into()));

    // the file
    let mut rest: BTreeMap<String, V> = BTreeMap::new();
    let mut creds: BTreeMap<String, Cred> = BTreeMap::new();
    let mut scopes: BTreeMap<String, String> = BTreeMap::new();
    // a registry with credentials twice, logged out from before anything else
    let mut twice: Option<usize> = None;
    let mut keep: Vec<String> = vec![];
    let own = src.bool();
    let file = if own { sc.join("my.kdl") } else { p.home.join("config/orogene/oro.kdl") };
    let mut first = src.chance(1, 5);
    let mut text = String::new();
    if src.chance(4, 5) {
        let mut comment = |src: &mut Src, t: &mut String| {
            if src.chance(1, 3) {
                let c = format!("// keep {}", keep.len());
                t.push_str(&c);
                t.push('\n');
                keep.push(c);
            }
        };
        comment(src, &mut text);
        if src.chance(1, 3) {
            text.push_str("other-node 1 2 {\n    registry \"kept\"\n}\n");
        }
        let mut parts: Vec<String> = vec![];
        for k in ["xx", "foo-bar", "z9"] {
            if src.bool() {
                let v = gen_v(src, 2);
                let mut t = String::new();
                comment(src, &mut t);
                kdl_node(src, k, &v, &mut t);
                parts.push(t);
                rest.insert(k.into(), v);
            }
        }
        if !first {
            parts.push("first-time false\n".into());
            rest.insert("first-time".into(), V::Bool(false));
        }
        if src.chance(2, 3) {
            let mut t = String::new();
            t.push_str("auth {\n");
            for r in &regs {
                if !src.chance(1, 3) {
                    continue;
                }
                let c = cred(src);
                let mut name = r.clone();
                if src.bool() {
                    name.push('/');
                }
                if r.starts_with("https") {
                    match src.below(3) {
                        0 => name = name.replace("https://", ""),
                        1 => name = name.replace("other", "OTHER"),
                        _ => {}
                    }
                }
                let f: Vec<(String, String)> = c
                    .fields()
                    .into_iter()
                    .map(|(k, v)| (k.to_string(), v.to_string()))
                    .collect();
                let n = kdl_str(src, &name, true);
                if src.chance(3, 4) {
                    let l: Vec<String> = f.iter().map(|(k, v)| format!("{k}={}", kdl_str(src, v, false))).collect();
                    t.push_str(&format!("    {n} {}\n", l.join(" ")));
                } else {
                    let l: Vec<String> = f.iter().map(|(k, v)| format!("{k} {}", kdl_str(src, v, false))).collect();
                    t.push_str(&format!("    {n} {{\n {}\n }}\n", l.join("\n")));
                }
                creds.insert(place(r), c);
            }
            if src.chance(1, 6) {
                let ri = src.usize(reachable);
                let r = regs[ri].clone();
                if matches!(creds.get(&place(&r)), Some(Cred::Basic(..) | Cred::Legacy(_))) {
                    let name = if t.contains(&format!("\"{r}\"")) { format!("{r}/") } else { r.clone() };
                    t.push_str(&format!("    {} username=\"again\"\n", kdl_str(src, &name, true)));
                    twice = Some(ri);
                    ctx.label("credentials twice");
                }
            }
            t.push_str("}\n");
            if creds.is_empty() {
                t = src.pick(&["", "auth {\n}\n"]).to_string();
            }
            parts.push(t);
        }
        if src.chance(1, 2) {
            let s = *src.pick(&["@s", "s", "@other"]);
            let r = src.pick(&regs[..reachable]).clone();
            parts.push(format!("scoped-registries {{\n    {} {}\n}}\n", kdl_str(src, s, false), kdl_str(src, &r, false)));
            scopes.insert(s.trim_start_matches('@').into(), place(&r));
        }
        src.shuffle(&mut parts);
        text.push_str("options {\n");
        text.push_str(&parts.concat());
        text.push_str("}\n");
        keep.retain(|c| text.contains(c.as_str()));
        std::fs::create_dir_all(file.parent().unwrap()).unwrap();
        std::fs::write(&file, &text).unwrap();
    } else {
        ctx.label("no file yet");
    }
    ctx.note(format!("file: {text}"));
    let find = |creds: &BTreeMap<String, Cred>, url: &str| -> Option<Cred> {
        let at = place(url);
        creds
            .iter()
            .filter(|(k, _)| at.starts_with(k.as_str()))
            .max_by_key(|(k, _)| k.len())
            .map(|(_, c)| c.clone())
    };

    let n = src.range(1, 6);
    for i in 0..n {
        let twice = twice.take();
        let ri = twice.unwrap_or(src.usize(regs.len()));
        let r = regs[ri].clone();
        let spelled = if src.bool() { format!("{r}/") } else { r.clone() };
        let mut args: Vec<String> = vec!["--no-progress".into(), "--retries=0".into()];
        let first_now = std::mem::take(&mut first);
        if !first_now {
            args.push("--no-first-time".into());
        }
        if own {
            args.push(format!("--config={}", file.display()));
        }
        let several = creds.len() >= 2;
        let before = std::fs::read(&file).ok();
        let mut ok = true;
        let mut revoke = None;
        let mut browsed = None;
        let mut given = None;
        let web = ri < reachable && src.chance(1, 3);
        let asks = ri < reachable && !web && src.chance(1, 3);
        let mut typed: Option<Vec<(&'static str, bool, Vec<u8>)>> = None;
        let mut puts: Vec<(String, String, Option<String>)> = vec![];
        let out_op = twice.is_some() || src.chance(1, 3);
        // registries below which nothing answers can't be told
        let had = creds.get(&place(&r)).cloned();
        if out_op && ri >= reachable && matches!(had, Some(Cred::Token(_))) {
            continue;
        }
        if out_op {
            args.extend(["logout".into(), format!("--registry={spelled}")]);
            if let Some(Cred::Token(t)) = had.clone() {
                revoke = Some(t);
            }
            creds.remove(&place(&r));
            ctx.label("logout");
        } else {
            args.extend(["login".into(), format!("--registry={spelled}")]);
            let mut scope = None;
            if src.chance(1, 3) {
                let s = *src.pick(&["@s", "s", "@other", "@é"]);
                args.push(format!("--scope={s}"));
                scope = Some(s.trim_start_matches('@').to_string());
                ctx.label("scope");
            }
            let c = if web {
                let tok = secret(src);
                let done = format!("{}/done/{}", srvs[src.usize(2)].base, src.below(1000));
                let page = format!("https://login.example/{}?a=b&c='d'", src.below(1000));
                let mut s: Script = (
                    200,
                    serde_json::json!({"loginUrl": page, "doneUrl": done}).to_string().into_bytes(),
                    vec![],
                );
                for _ in 0..src.below(3) {
                    s.2.push((202, Some("0".into()), b"{}".to_vec()));
                }
                s.2.push((200, None, serde_json::json!({ "token": tok }).to_string().into_bytes()));
                browsed = Some(page);
                if src.chance(1, 3) {
                    ok = false;
                    ctx.label("failing web login");
                    match src.below(6) {
                        0 => {
                            s.0 = *src.pick(&[401, 403, 404, 500]);
                            browsed = None;
                        }
                        1 => {
                            s.1 = b"{\"loginUrl\": 1}".to_vec();
                            browsed = None;
                        }
                        2 => s.2.insert(0, (500, None, vec![])),
                        3 => s.2.insert(0, (202, None, vec![])),
                        4 => s.2.insert(0, (202, Some("tomorrow, é".into()), vec![])),
                        _ => s.2.insert(0, (200, None, b"{}".to_vec())),
                    }
                } else {
                    ctx.label("web login");
                }
                *script.lock().unwrap() = s;
                Cred::Token(tok)
            } else if asks && src.chance(1, 6) {
                // nobody to ask
                args.push("--auth-type=legacy".into());
                *legacy.lock().unwrap() = vec![(200, None, b"{\"token\": \"x\"}".to_vec())];
                ok = false;
                ctx.label("legacy login without a terminal");
                Cred::Token("x".into())
            } else if asks {
                args.push("--auth-type=legacy".into());
                let odd = ['a', 'b', 'Z', '9', '-', '.', '/', '+', '?', '#', '%', '"', '\\', ':', ' ', '&', '@', '\'', 'é', '日'];
                let user = src.string(&odd, 1, 8);
                let pw = src.string(&odd, 1, 8);
                let tok = secret(src);
                let done_token = serde_json::json!({ "token": tok }).to_string().into_bytes();
                let mut t: Vec<(&'static str, bool, Vec<u8>)> = vec![
                    ("Username:", false, user.clone().into_bytes()),
                    ("Password:", true, pw.clone().into_bytes()),
                ];
                puts.push((user.clone(), pw.clone(), None));
                let mut l: Legacy = vec![];
                let mut sc: Script = Default::default();
                let fails = src.chance(1, 4);
                match src.below(3) {
                    0 if !fails => {
                        l.push((*src.pick(&[200, 201]), None, done_token));
                        ctx.label("legacy login");
                    }
                    0 => {
                        let (st, wa, body): (u16, Option<&str>, &[u8]) = *src.pick(&[
                            (400, None, b"{}" as &[u8]),
                            (401, None, b"no"),
                            (401, Some("Basic"), b""),
                            (401, Some("Bearer"), b"{}"),
                            (403, None, b""),
                            (404, None, b"{}"),
                            (409, Some("OTP"), b"{}"),
                            (200, None, b"{}"),
                            (200, None, b""),
                            (200, None, b"{\"token\": 1}"),
                            (200, None, "{\"a\":,,\"éééééééééééééééééééééé日日日日日日日日\"".as_bytes()),
                        ]);
                        l.push((st, wa.map(|x| x.to_string()), body.to_vec()));
                        ok = false;
                        ctx.label("failing legacy login");
                    }
                    1 => {
                        // asks for a one-time password
                        let (wa, body): (Option<&str>, &[u8]) = *src.pick(&[
                            (Some("OTP"), b"" as &[u8]),
                            (Some("ipaddress, otp"), b"{}"),
                            (None, b"you need a One-Time Password"),
                            (Some("Basic, OTP"), b"{\"authUrl\": \"http://x.example/\"}"),
                        ]);
                        l.push((401, wa.map(|x| x.to_string()), body.to_vec()));
                        let otp = if fails && src.bool() {
                            // typed after ^V
                            src.string(&['é', '1'], 1, 4) + "\u{16}\u{1}"
                        } else {
                            src.string(&['0', '1', '9', 'a', '-', '%', '"', 'é'], 1, 6)
                        };
                        t.push(("one-time password", false, otp.clone().into_bytes()));
                        ctx.label("one-time password");
                        if otp.contains('\u{1}') {
                            ok = false;
                        } else {
                            puts.push((user.clone(), pw.clone(), Some(otp)));
                            if fails {
                                ok = false;
                                l.push(src.pick(&[(401, Some("OTP".to_string()), vec![]), (500, None, vec![]), (401, None, vec![])]).clone());
                            } else {
                                l.push((200, None, done_token));
                            }
                        }
                    }
                    _ => {
                        let done = format!("{}/done/{}", srvs[src.usize(2)].base, src.below(1000));
                        let page = format!("https://login.example/{}?a=b&c='d'", src.below(1000));
                        l.push((
                            401,
                            Some("otp".to_string()),
                            serde_json::json!({"authUrl": page, "doneUrl": done}).to_string().into_bytes(),
                        ));
                        for _ in 0..src.below(3) {
                            sc.2.push((202, Some("0".into()), b"{}".to_vec()));
                        }
                        if fails {
                            sc.2.push((403, None, b"{}".to_vec()));
                            ok = false;
                        } else {
                            sc.2.push((200, None, done_token));
                        }
                        browsed = Some(page);
                        ctx.label("legacy login with a page");
                    }
                }
                *legacy.lock().unwrap() = l;
                *script.lock().unwrap() = sc;
                typed = Some(t);
                Cred::Token(tok)
            } else {
                let c = cred(src);
                match &c {
                    Cred::Token(t) => args.push(format!("--token={t}")),
                    Cred::Basic(u, pw) => {
                        args.push(format!("--username={u}"));
                        if let Some(pw) = pw {
                            args.push(format!("--password={pw}"));
                        }
                    }
                    Cred::Legacy(t) => args.push(format!("--legacy-token={t}")),
                }
                ctx.label("login");
                given = Some(c.clone());
                c
            };
            if ok {
                creds.insert(place(&r), c);
                if let Some(s) = scope {
                    scopes.insert(s, place(&r));
                }
            }
        }
        if several {
            ctx.nontrivial = true;
        }
        ctx.note(format!("oro {}", args.join(" ")));
        let _ = std::fs::remove_file(&opened);
        for s in &srvs {
            s.take_log();
        }
        let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
        let out = match &typed {
            Some(t) => {
                ctx.note(format!("answers: {t:?}"));
                run_on_terminal(p.command(&a), t.clone(), Some(&srvs[0]), 30)?
            }
            None => run_limited(p.command(&a), Some(&srvs[0]), 30)?,
        };
        ensure!(!out.panicked() && !out.deadlock, "panic", "{}", out.tail());
        if let Some(c) = &given {
            // what's given is for the config file alone
            for (k, v) in c.fields() {
                if k == "username" {
                    continue;
                }
                ensure!(
                    !out.stdout.contains(&*v) && !out.stderr.contains(&*v),
                    "secret-shown",
                    "oro prints {v:?}: {}",
                    out.tail()
                );
                for (f, e) in snapshot(&p.home) {
                    if let (true, Ent::File(b, _)) = (f.contains("_logs"), e) {
                        let t = String::from_utf8_lossy(&b);
                        ctx.label("secret looked for in a log");
                        ensure!(!t.contains(&*v), "secret-logged", "oro writes {v:?} to {f}");
                    }
                }
            }
        }
        ensure!(out.ok() == ok, if ok { "failed" } else { "unnoticed" }, "step {i}: {}", out.tail());
        if first_now {
            ctx.label("first time");
            rest.insert("first-time".into(), V::Bool(false));
        }
        // who was told what
        let page = std::fs::read_to_string(&opened).ok();
        ensure!(
            page.as_deref().map(|x| x.trim_end()) == browsed.as_deref(),
            "browser",
            "opened {page:?} instead of {browsed:?}"
        );
        let mut revoked = vec![];
        let mut sent = vec![];
        for s in &srvs {
            for q in s.take_log() {
                if q.method == "PUT" {
                    let body: serde_json::Value = serde_json::from_slice(&q.body).unwrap_or_default();
                    let user = body["name"].as_str().unwrap_or("?").to_string();
                    let want = format!("{r}/-/user/org.couchdb.user:{user}");
                    let at = format!("{}{}", s.base, q.path);
                    ensure!(
                        pct_decode(&at) == want && !q.path.contains(['?', '#']),
                        "login-elsewhere",
                        "the login of {user:?} is put at {at}"
                    );
                    ensure!(
                        body["_id"] == format!("org.couchdb.user:{user}") && body["type"] == "user",
                        "login-body",
                        "{body}"
                    );
                    sent.push((
                        user,
                        body["password"].as_str().unwrap_or("?").to_string(),
                        q.header("npm-otp").map(|x| x.to_string()),
                    ));
                }
                let (path, query) = q.path.split_once('?').unwrap_or((&q.path, ""));
                if q.method == "DELETE" {
                    revoked.push((format!("{}{path}", s.base), query.to_string()));
                } else {
                    ensure!(!out_op, "logout-asks", "logout asks for {} {}", q.method, q.path);
                }
            }
        }
        ensure!(sent == puts, "login-sent", "the registry was told {sent:?} instead of {puts:?}");
        match &revoke {
            None => ensure!(revoked.is_empty(), "revoked", "logout asks to delete {revoked:?}, but there's no token"),
            Some(t) => {
                ensure!(revoked.len() == 1, "not-revoked", "the token {t:?} wasn't revoked: {revoked:?}");
                let want = format!("{r}/-/user/token/{t}");
                ensure!(
                    pct_decode(&revoked[0].0) == want && revoked[0].1.is_empty(),
                    "not-revoked",
                    "{revoked:?} instead of {want}"
                );
            }
        }
        // what's in the file
        let after = std::fs::read(&file).ok();
        if !ok && !first_now {
            ensure!(after == before, "changed-by-failure", "a failed login changed the file");
        }
        if after.is_none() {
            ensure!(!ok, "no-file", "there's no config file afterwards");
            continue;
        }
        let t = String::from_utf8_lossy(&after.unwrap()).to_string();
        for c in &keep {
            ensure!(
                t.lines().any(|l| l.trim().ends_with(c.as_str())),
                "comment-lost",
                "{c:?} is gone:\n{t}"
            );
        }
        if text.contains("other-node 1 2") {
            ensure!(
                t.contains("other-node 1 2 {\n    registry \"kept\"\n}"),
                "setting-lost",
                "other-node is gone:\n{t}"
            );
        }
        let got = match load(Some(&file), None) {
            Ok(Ok(j)) => j,
            e => return fail("unreadable", format!("{e:?}: {t}")),
        };
        let mut others = got.clone();
        let o = others.as_object_mut().unwrap();
        let auth = o.remove("auth");
        let scoped = o.remove("scoped-registries");
        let want = V::Map(rest.clone()).json();
        ensure!(others == want, "setting-lost", "settings are {others}\nshould be {want}\n{t}");
        let mut found: BTreeMap<String, BTreeMap<String, String>> = BTreeMap::new();
        match auth {
            None | Some(serde_json::Value::Bool(true)) => {}
            Some(serde_json::Value::Array(a)) if a.is_empty() => {}
            Some(serde_json::Value::Object(m)) => {
                for (k, v) in m {
                    let f = v.as_object().cloned().unwrap_or_default();
                    let old = found.insert(
                        place(&k),
                        f.into_iter().map(|(k, v)| (k, v.as_str().unwrap_or("?").to_string())).collect(),
                    );
                    ensure!(old.is_none(), "twice", "{k} has credentials twice:\n{t}");
                }
            }
            a => return fail("auth-unreadable", format!("{a:?}: {t}")),
        }
        let want: BTreeMap<String, BTreeMap<String, String>> = creds
            .iter()
            .map(|(k, c)| (k.clone(), c.fields().iter().map(|(k, v)| (k.to_string(), v.to_string())).collect()))
            .collect();
        ensure!(found == want, "credentials", "credentials are {found:?}\nshould be {want:?}\n{t}");
        let mut found: BTreeMap<String, String> = BTreeMap::new();
        if let Some(m) = scoped.as_ref().and_then(|s| s.as_object()) {
            for (k, v) in m {
                let old = found.insert(k.trim_start_matches('@').into(), place(v.as_str().unwrap_or("")));
                ensure!(old.is_none(), "scope-twice", "{k} twice:\n{t}");
            }
        }
        ensure!(found == scopes, "scopes", "scopes are {found:?}\nshould be {scopes:?}\n{t}");
        // what commands make of it
        let ri = src.usize(reachable);
        let view = src.bool();
        let mut args: Vec<String> = vec!["--no-progress".into(), "--retries=0".into(), "--no-first-time".into()];
        if own {
            args.push(format!("--config={}", file.display()));
        }
        args.push(format!("--registry={}", regs[ri]));
        args.push(format!("--cache={}", sc.join(format!("cache{i}")).display()));
        if view {
            args.extend(["view".into(), "@s/z".into()]);
        } else {
            args.push("ping".into());
        }
        let at = match scopes.get("s") {
            Some(r) if view => regs.iter().find(|x| place(x) == *r).unwrap().clone(),
            _ => regs[ri].clone(),
        };
        if at.contains("other.example") {
            continue;
        }
        let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
        let out = run_limited(p.command(&a), Some(&srvs[0]), 30)?;
        ensure!(out.ok(), "unusable", "oro {}: {}\n{t}", args.join(" "), out.tail());
        let mut asked = 0;
        for s in &srvs {
            for q in s.take_log() {
                asked += 1;
                let url = format!("{}{}", s.base, pct_decode(&q.path));
                ensure!(url.starts_with(&at), "asked-elsewhere", "{url} instead of {at}\n{t}");
                let want = find(&creds, &url).map(|c| c.header());
                ensure!(
                    q.header("authorization") == want.as_deref(),
                    "not-used",
                    "{url} carries {:?} instead of {want:?}\n{t}",
                    q.header("authorization")
                );
            }
        }
        ensure!(asked > 0, "no-request", "nothing asked");
    }
    Ok(())
}

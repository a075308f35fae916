//! Integrity of what gets installed, and the shared content cache.
use super::extract::*;
use super::linker::{apply_args, tree_snap};
use super::lock::*;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::proj::*;
use crate::registry::*;
use crate::tree::*;
use nassun::NassunOpts;
use serde_json::json;
use std::os::unix::fs::{MetadataExt, PermissionsExt};
use std::path::{Path, PathBuf};

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "X03",
            rule: "package with generated integrity (none, any mix of right and wrong sha1/sha256/sha384/sha512 hashes, shasum) whose bytes are intact or tampered with (bit flips anywhere, cut, appended, recompressed, another package's), extracted with and without cache, then retried; one case in 12 through a lockfile whose registry changed its mind; non-trivial: some hash does not match the served bytes",
            level: "exploration",
            quick: 2500,
            thorough: 60000,
            threads: 8,
            shrink: 200,
            case: x03,
            fixed: vec![],
            assumptions: vec!["hashes are computed with the ssri crate"],
        },
        Check {
            id: "X04",
            rule: "cache filled by an install, then files of it deleted, cut, emptied, flipped, overwritten, swapped or replaced by directories, then installs with the registry up, without its tarballs, and again from the repaired cache; non-trivial: some damaged file is one that the install uses",
            level: "fault_enumeration",
            quick: 350,
            thorough: 4000,
            threads: 8,
            shrink: 100,
            case: x04,
            fixed: vec![("index-not-text", x04_index)],
            assumptions: vec!["damage happens between runs"],
        },
        Check {
            id: "X05",
            rule: "two or three projects sharing a cache; installed files are rewritten, appended to, cut, chmodded, deleted or replaced by hand and by install scripts before the next project installs; non-trivial: an edited file's package is installed again",
            level: "exploration",
            quick: 450,
            thorough: 4500,
            threads: 8,
            shrink: 100,
            case: x05,
            fixed: vec![],
            assumptions: vec!["reflinks are not available on this filesystem"],
        },
    ]
}

// ---------------------------------------------------------------- X03

fn hash(alg: ssri::Algorithm, data: &[u8]) -> ssri::Integrity {
    let mut o = ssri::IntegrityOpts::new().algorithm(alg);
    o.input(data);
    o.result()
}

fn tamper(src: &mut Src, data: &[u8], other: &[u8]) -> (String, Vec<u8>) {
    let mut d = data.to_vec();
    match src.below(9) {
        0 => {
            let i = src.usize(d.len());
            d[i] ^= 1 << src.below(8);
            (format!("bit flip at {i}"), d)
        }
        1 => {
            // the gzip header says nothing about the contents
            let i = *src.pick(&[4, 5, 8, 9]);
            d[i] ^= 0x10;
            (format!("gzip header flip at {i}"), d)
        }
        2 => {
            d.truncate(d.len() - 1 - src.usize(d.len().min(20) - 1));
            ("cut at the end".into(), d)
        }
        3 => {
            d.truncate(src.usize(d.len()));
            ("cut".into(), d)
        }
        4 => {
            d.extend(b"trailing");
            ("appended to".into(), d)
        }
        5 => {
            d.push(0);
            ("a zero appended".into(), d)
        }
        6 => ("another package's".into(), other.to_vec()),
        7 => {
            // same contents, compressed differently
            use std::io::Read;
            let mut t = vec![];
            let _ = flate2::read::GzDecoder::new(data).read_to_end(&mut t);
            let mut level = 9;
            let mut n = gzip(&t, level, b"");
            while n == data && level > 0 {
                level -= 1;
                n = gzip(&t, level, b"");
            }
            ("recompressed".into(), n)
        }
        _ => ("emptied".into(), vec![]),
    }
}

fn x03(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    if src.chance(1, 12) {
        return x03_lock(src, ctx);
    }
    use ssri::Algorithm as A;
    let mut good = Ver::default();
    good.files.insert("index.js".into(), (noise(src.u64(), 40), 0o644));
    let huge = src.chance(1, 80);
    if huge {
        // Tarballs this large take another path: a temporary file.
        ctx.label("over 5 MiB");
        let len = 5_300_000 + src.usize(400_000);
        good.files.insert("big.bin".into(), (noise(src.u64(), len), 0o644));
    } else if src.chance(1, 4) {
        good.files.insert("big.bin".into(), (noise(src.u64(), 30000), 0o644));
    }
    if src.chance(1, 3) {
        good.scripts.push(("postinstall".into(), "true".into()));
    }
    good.seal("pkg", "1.0.0");
    let mut evil = Ver::default();
    evil.files.insert("index.js".into(), (b"evil".to_vec(), 0o644));
    evil.seal("pkg", "1.0.0");
    good.integrity = None;
    // which hashes the metadata lists: (algorithm, of the right bytes?)
    let algs = [A::Sha1, A::Sha256, A::Sha384, A::Sha512];
    let k = *src.pick(&[0, 1, 1, 1, 2, 2, 3]);
    let mut listed: Vec<(usize, bool)> = vec![];
    let mut text: Vec<String> = vec![];
    let served_good = good.tarball.clone();
    for _ in 0..k {
        let a = src.usize(4);
        let right = src.chance(2, 3);
        let h = if right {
            hash(algs[a], &served_good)
        } else {
            hash(algs[a], &evil.tarball)
        };
        listed.push((a, right));
        text.push(h.to_string());
    }
    if k > 0 {
        good.integrity = Some(text.join(" "));
    }
    let mut shasum_right = None;
    if src.chance(1, 3) {
        let right = src.chance(2, 3);
        shasum_right = Some(right);
        good.shasum = Some(sha1_hex(if right { &served_good } else { &evil.tarball }));
    }
    let (how, bad) = tamper(src, &served_good, &evil.tarball);
    let tampered = src.chance(2, 3);
    // what a checker must say about some bytes
    let accepts = |bytes: &[u8]| -> bool {
        if let Some(top) = listed.iter().map(|l| l.0).max() {
            let h = hash(algs[top], bytes).to_string();
            text.iter().zip(&listed).any(|(t, l)| l.0 == top && *t == h)
        } else if let Some(_) = shasum_right {
            good.shasum.as_deref() == Some(sha1_hex(bytes).as_str())
        } else {
            true
        }
    };
    let first = if tampered { bad.clone() } else { served_good.clone() };
    let use_cache = src.chance(2, 3);
    ctx.label(if use_cache { "cache" } else { "no cache" });
    ctx.label(if k == 0 && shasum_right.is_none() {
        "no integrity".to_string()
    } else if k == 0 {
        "shasum only".to_string()
    } else {
        format!("{k} hashes")
    });
    ctx.nontrivial = !accepts(&first) || !accepts(&bad);
    ctx.note(format!(
        "integrity {listed:?} shasum {shasum_right:?}, first {}, {} bytes, {} accepted",
        if tampered { how.as_str() } else { "intact" },
        first.len(),
        if accepts(&first) { "to be" } else { "not to be" },
    ));
    let mut reg = Registry::default();
    let mut p = Pkg::default();
    let mut ver = good.clone();
    ver.tarball = first.clone();
    p.versions.insert("1.0.0".into(), ver);
    p.tags.insert("latest".into(), "1.0.0".into());
    reg.pkgs.insert("pkg".into(), p);
    let srv = Server::start(reg);
    let sc = ctx.scratch();
    let cache = sc.join("cache");
    let (mname, mode) = *src.pick(MODES);
    let extract = |to: &Path| {
        cut(|| {
            async_std::task::block_on(async {
                let mut o = NassunOpts::new().client(client()).registry(srv.base.parse().unwrap());
                if use_cache {
                    o = o.cache(&cache);
                }
                let pkg = o.build().resolve("pkg@1.0.0").await.map_err(|e| format!("resolve: {e}"))?;
                pkg.extract_to_dir(to, mode).await.map_err(|e| format!("{e:?}"))?;
                Ok::<_, String>(())
            })
        })
    };
    let judge = |what: &str, to: &Path, bytes: &[u8], intact: bool| -> Result<bool, Stop> {
        match extract(to) {
            Err(m) => fail("panic", format!("{what} ({mname}) panicked: {m}")),
            Ok(Ok(())) => {
                ensure!(
                    accepts(bytes),
                    "accepted",
                    "{what} ({mname}): bytes that do not match the integrity were installed"
                );
                if intact {
                    check_contents(to, &good, what)?;
                }
                Ok(true)
            }
            Ok(Err(e)) => {
                ensure!(
                    !(accepts(bytes) && intact),
                    "refused",
                    "{what} ({mname}): matching bytes were refused: {e}"
                );
                if !accepts(bytes) {
                    let left = snapshot(to);
                    ensure!(
                        !left.values().any(|e| matches!(e, Ent::File(..))),
                        "partly-installed",
                        "{what} ({mname}): refused, but left {:?}",
                        left.keys().collect::<Vec<_>>()
                    );
                }
                Ok(false)
            }
        }
    };
    let set = |b: &[u8]| {
        srv.reg(|r| {
            r.pkgs.get_mut("pkg").unwrap().versions.get_mut("1.0.0").unwrap().tarball = b.to_vec()
        })
    };
    let took = judge("first", &sc.join("o1"), &first, !tampered)?;
    if took && tampered && use_cache && (k > 0 || shasum_right.is_some()) {
        // these bytes are what the metadata promises, so they stay
        ctx.label("accepts tampered");
        return Ok(());
    }
    // the right bytes, whatever happened before
    set(&served_good);
    let ok = judge("intact", &sc.join("o2"), &served_good, true)?;
    // tampered ones again: only the cache can save this
    set(&bad);
    let out = sc.join("o3");
    match extract(&out) {
        Err(m) => return fail("panic", format!("third ({mname}) panicked: {m}")),
        Ok(Ok(())) => {
            if k > 0 || shasum_right.is_some() {
                if accepts(&bad) {
                    // (a recompressed one, say, under a wrong hash of its own)
                    ctx.label("accepts tampered");
                } else {
                    ensure!(
                        ok && use_cache,
                        "accepted",
                        "third ({mname}): tampered bytes ({how}) were installed"
                    );
                    check_contents(&out, &good, "third")?;
                }
            }
        }
        Ok(Err(_)) => ensure!(
            !(ok && use_cache && (k > 0 || shasum_right.is_some()) && !accepts(&bad)),
            "not-cached",
            "third ({mname}): the intact bytes were not found in the cache"
        ),
    }
    Ok(())
}

/// What the lockfile recorded is what counts, even if the registry now says
/// otherwise.
fn x03_lock(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    ctx.label("lockfile");
    let o = RegOpts {
        max_pkgs: 4,
        max_versions: 2,
        ..Default::default()
    };
    let reg = gen_registry(src, &o);
    let mani = gen_mani(src, &reg, &o, 3);
    let srv = Server::start(reg.clone());
    let sc = ctx.scratch();
    let mut p = Proj::new(&sc, &srv.base);
    p.write_manifest(&mani.json());
    let hoisted = src.bool();
    let args = apply_args(hoisted);
    p.run_ok(args, Some(&srv), "first")?;
    let (lock_text, lock) = lock_of(&p, "x03")?;
    let keys: Vec<Vec<String>> = lock.pkgs.keys().cloned().collect();
    let key = src.pick(&keys).clone();
    let e = lock.pkgs[&key].clone();
    let (name, version) = {
        let res = e.resolved.clone().unwrap();
        let v = e.version.clone().unwrap();
        let n = reg
            .pkgs
            .keys()
            .find(|n| tarball_url(&srv.base, n, &v) == res)
            .unwrap()
            .clone();
        (n, v)
    };
    ctx.note(format!("{name}@{version} changes on the registry after being locked; manifest {:?}", mani.all()));
    ctx.nontrivial = true;
    srv.reg(|r| {
        let v = r.pkgs.get_mut(&name).unwrap().versions.get_mut(&version).unwrap();
        v.files.insert("index.js".into(), (b"// not what was locked".to_vec(), 0o644));
        v.files.remove("package.json");
        // the metadata agrees with the new bytes
        v.seal(&name, &version);
        if src.chance(1, 4) {
            v.integrity = None;
        }
    });
    std::fs::remove_dir_all(p.dir.join("node_modules")).unwrap();
    let warm = src.bool();
    if !warm {
        p.cache = Some(sc.join("cache2"));
    }
    let out = p.run(args, Some(&srv))?;
    ensure!(!out.panicked() && !out.deadlock, "panic", "{}", out.tail());
    if out.ok() {
        ensure!(
            warm,
            "lock-integrity-ignored",
            "{name}@{version} no longer matches the lockfile but was installed"
        );
        check_tree(&p.dir, &reg, &mani)?;
    } else {
        ensure!(!warm, "warm-failed", "the cached copy was not used: {}", out.tail());
        let now = p.read("package-lock.kdl").unwrap_or_default();
        ensure!(now == lock_text, "lockfile-changed", "the failed install rewrote the lockfile");
        // without the lockfile the new bytes are what the registry promises
        std::fs::remove_file(p.dir.join("package-lock.kdl")).unwrap();
        let _ = std::fs::remove_dir_all(p.dir.join("node_modules"));
        p.run_ok(args, Some(&srv), "relock")?;
        let now = srv.reg(|r| r.clone());
        check_tree(&p.dir, &now, &mani)?;
    }
    Ok(())
}

// ---------------------------------------------------------------- X04

fn cache_files(cache: &Path) -> Vec<PathBuf> {
    walkdir::WalkDir::new(cache)
        .sort_by_file_name()
        .into_iter()
        .filter_entry(|e| e.file_name() != "_logs")
        .flatten()
        .filter(|e| e.file_type().is_file())
        .map(|e| e.into_path())
        .collect()
}

/// An index file of the http cache has to stay text: the async part of the
/// cacache crate never returns from one that isn't (see the fixed case).
fn text(d: &mut [u8]) {
    d.iter_mut().for_each(|b| *b &= 0x7f);
}

/// Contents written to a new file or over the old one (whose links change too).
fn put(src: &mut Src, f: &Path, data: &[u8]) {
    if src.chance(3, 4) {
        let _ = std::fs::remove_file(f);
    }
    let _ = std::fs::write(f, data);
}

/// What was done, and whether all that needs to be repaired is files.
fn damage_cache(src: &mut Src, cache: &Path) -> (Vec<String>, bool) {
    let files = cache_files(cache);
    let mut did = vec![];
    let mut plain = true;
    if files.is_empty() {
        return (did, plain);
    }
    let all = src.chance(1, 10);
    let n = if all { files.len() } else { src.range(1, 4) };
    let mode = src.below(12);
    for i in 0..n {
        let f = if all { files[i].clone() } else { src.pick(&files).clone() };
        let rel = f.strip_prefix(cache).unwrap().to_string_lossy().to_string();
        let kind = if rel.contains("index") { "index" } else { "content" };
        let Ok(data) = std::fs::read(&f) else { continue };
        let http = kind == "index" && data.windows(4).any(|w| w == b"GET:");
        let op = if all { mode } else { src.below(12) };
        let what = match op {
            0 | 1 => {
                let _ = std::fs::remove_file(&f);
                "deleted"
            }
            2 => {
                let k = src.usize(data.len().max(1));
                put(src, &f, &data[..k]);
                "cut"
            }
            3 => {
                put(src, &f, b"");
                "emptied"
            }
            4 | 5 => {
                let mut d = data.clone();
                if !d.is_empty() {
                    let i = src.usize(d.len());
                    d[i] ^= 1 << src.below(8);
                }
                if http {
                    text(&mut d);
                }
                put(src, &f, &d);
                "bit flipped"
            }
            6 => {
                let mut d = data.clone();
                d.extend(b"garbage\n");
                put(src, &f, &d);
                "appended to"
            }
            7 => {
                let mut d = noise(src.u64(), data.len());
                if http {
                    text(&mut d);
                }
                put(src, &f, &d);
                "overwritten"
            }
            8 => {
                let o = src.pick(&files).clone();
                let mut d = std::fs::read(&o).unwrap_or_default();
                if http {
                    text(&mut d);
                }
                put(src, &f, &d);
                "swapped"
            }
            // (the http-cache crate fails, or never returns, if it finds
            // anything but files in its part, see the fixed case)
            9 | 11 if !rel.contains("xxh3/") => {
                let _ = std::fs::remove_file(&f);
                "deleted"
            }
            9 => {
                let _ = std::fs::remove_file(&f);
                let _ = std::fs::create_dir(&f);
                plain = false;
                "made a directory"
            }
            10 => {
                let mut d = f.clone();
                for _ in 0..src.range(1, 3) {
                    d.pop();
                }
                if d.starts_with(cache) && d != cache {
                    let _ = std::fs::remove_dir_all(&d);
                    if src.chance(1, 3) && rel.contains("xxh3/") {
                        let _ = std::fs::write(&d, b"a file");
                        plain = false;
                    }
                }
                "directory gone"
            }
            _ => {
                let _ = std::fs::remove_file(&f);
                let _ = std::os::unix::fs::symlink("/nonexistent/vh", &f);
                plain = false;
                "made a dangling link"
            }
        };
        // (nor does cacache find what it appends to an index that is not text)
        if kind == "index" && std::fs::read_to_string(&f).is_err() && f.exists() {
            plain = false;
        }
        did.push(format!("{kind} {what}: {rel}"));
    }
    (did, plain)
}

fn block_tarballs(srv: &Server, reg: &Registry) {
    for (n, p) in &reg.pkgs {
        for v in p.versions.keys() {
            srv.sticky(&tarball_url("", n, v), Fault::Status(404));
        }
    }
}

/// The cacache crate reads an index file that is not UTF-8 for ever.
fn x04_index(ctx: &mut Ctx) -> CaseResult {
    let mut reg = Registry::default();
    let mut v = Ver::default();
    v.seal("pkg", "1.0.0");
    let mut p = Pkg::default();
    p.versions.insert("1.0.0".into(), v);
    p.tags.insert("latest".into(), "1.0.0".into());
    reg.pkgs.insert("pkg".into(), p);
    let srv = Server::start(reg);
    *srv.sh.meta_headers.lock().unwrap() = vec![("cache-control".into(), "max-age=300".into())];
    let sc = ctx.scratch();
    let mut a = Proj::new(&sc, &srv.base);
    a.cache = Some(sc.join("cache"));
    a.write_manifest(&json!({"dependencies": {"pkg": "1.0.0"}}));
    a.run_ok(&["apply"], Some(&srv), "fill")?;
    for f in cache_files(&sc.join("cache/index-v5")) {
        let mut d = std::fs::read(&f).unwrap();
        d[20] ^= 0x80;
        std::fs::write(&f, d).unwrap();
    }
    std::fs::remove_dir_all(a.dir.join("node_modules")).unwrap();
    std::fs::remove_file(a.dir.join("package-lock.kdl")).unwrap();
    let out = run_limited(a.command(&["apply"]), Some(&srv), 10)?;
    ensure!(!out.deadlock, "http-index-not-text", "apply hangs: {}", out.tail());
    ensure!(out.ok(), "not-healed", "{}", out.tail());
    Ok(())
}

fn x04(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let o = RegOpts {
        max_pkgs: 5,
        max_versions: 2,
        bins: true,
        ..Default::default()
    };
    let mut reg = gen_registry(src, &o);
    // contents shared between packages, odd sizes
    for (n, p) in reg.pkgs.iter_mut() {
        for (v, ver) in p.versions.iter_mut() {
            if src.chance(1, 3) {
                ver.files.insert("LICENSE".into(), (b"shared license\n".to_vec(), 0o644));
                ver.files.insert("empty".into(), (vec![], 0o644));
                if src.chance(1, 4) {
                    ver.files.insert("blob".into(), (noise(7, 20000), 0o755));
                }
                if src.chance(1, 4) {
                    ver.scripts.push(("postinstall".into(), "true".into()));
                    ver.extra.insert("hasInstallScript".into(), json!(true));
                    ver.files.remove("package.json");
                }
                ver.seal(n, v);
            }
        }
    }
    let mani = gen_mani(src, &reg, &o, 4);
    let hoisted = src.bool();
    let args = apply_args(hoisted);
    let srv = Server::start(reg.clone());
    if src.chance(1, 3) {
        *srv.sh.meta_headers.lock().unwrap() = vec![("cache-control".into(), "max-age=300".into())];
        ctx.label("metadata cached");
    }
    let sc = ctx.scratch();
    let mk = |name: &str| {
        let mut q = Proj::new(&sc.join(name), &srv.base);
        q.cache = Some(sc.join("cache"));
        q.write_manifest(&mani.json());
        q
    };
    let mut a = mk("a");
    let copy = src.chance(1, 4);
    if copy {
        a.common.push("--prefer-copy".into());
    }
    let common = a.common.clone();
    a.run_ok(args, Some(&srv), "fill")?;
    // reference: the same with an empty cache
    let mut r = mk("ref");
    r.cache = Some(sc.join("cache-ref"));
    r.common = common.clone();
    r.run_ok(args, Some(&srv), "reference")?;
    let want = tree_snap(&r.dir);
    let (did, plain) = damage_cache(src, &sc.join("cache"));
    for d in &did {
        ctx.label(d.split(':').next().unwrap().to_string());
    }
    ctx.nontrivial = !did.is_empty();
    ctx.note(format!("hoisted {hoisted} copy {copy} {did:?} manifest {:?}", mani.all()));
    let offline = src.chance(1, 3);
    if offline {
        block_tarballs(&srv, &reg);
        ctx.label("tarballs unavailable");
    }
    let mut b = mk("b");
    b.common = common.clone();
    if src.bool() {
        std::fs::write(b.dir.join("package-lock.kdl"), a.read("package-lock.kdl").unwrap()).unwrap();
        ctx.label("with lockfile");
    }
    let out = b.run(args, Some(&srv))?;
    ensure!(!out.panicked() && !out.deadlock, "panic", "{}", out.tail());
    let compare = |q: &Proj, when: &str| -> CaseResult {
        check_tree(&q.dir, &reg, &mani)?;
        let d = diff_snap(&want, &tree_snap(&q.dir));
        ensure!(d.is_empty(), "differs", "{when} differs from a fresh install: {d:?}");
        Ok(())
    };
    if out.ok() {
        compare(&b, "with the damaged cache")?;
    } else {
        ensure!(offline, "not-healed", "{did:?}: {}", out.tail());
    }
    srv.clear_faults();
    if !out.ok() {
        b.run_ok(args, Some(&srv), "after-offline")?;
        compare(&b, "once the registry is back")?;
    }
    // now everything comes from the cache
    block_tarballs(&srv, &reg);
    let mut c = mk("c");
    c.common = common;
    let out = c.run(args, Some(&srv))?;
    if !plain && !out.ok() {
        // (a directory in place of a file is not repaired, but never in the way)
        srv.clear_faults();
        c.run_ok(args, Some(&srv), "not-plain")?;
    } else {
        ensure!(
            out.ok(),
            "not-repaired",
        "{did:?}: the next install still cannot use the cache: {}",
            out.tail()
        );
    }
    compare(&c, "from the repaired cache")
}

// ---------------------------------------------------------------- X05

fn x05(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let o = RegOpts {
        max_pkgs: 5,
        max_versions: 2,
        bins: true,
        ..Default::default()
    };
    let mut reg = gen_registry(src, &o);
    let mut scripted: Vec<(String, String)> = vec![];
    for (n, p) in reg.pkgs.iter_mut() {
        for (v, ver) in p.versions.iter_mut() {
            if src.chance(1, 3) {
                ver.files.insert("LICENSE".into(), (b"shared license\n".to_vec(), 0o644));
            }
            if src.chance(1, 4) {
                ver.files.insert("data.json".into(), (noise(3, 200), *src.pick(&[0o644, 0o755, 0o600])));
            }
            ver.files.insert("zz-last.txt".into(), (format!("{n}@{v}").into_bytes(), 0o644));
            ver.files.insert("aa-first.txt".into(), (format!("first {n}@{v}").into_bytes(), 0o644));
            if src.chance(1, 3) {
                // a script that edits its own package's files in place
                let f = src.pick(&ver.files.keys().cloned().collect::<Vec<_>>()).clone();
                // (a package.json has to stay one)
                let f = if f == "package.json" { "zz-last.txt".to_string() } else { f };
                let cmd = match src.below(5) {
                    0 => format!("echo edited >> {f}"),
                    1 => format!("chmod 777 {f}"),
                    2 => format!("printf x > {f}"),
                    3 => "chmod 600 package.json; echo >> package.json".to_string(),
                    _ => "for f in aa-first.txt zz-last.txt package.json index.js; do echo '  ' >> $f; done".to_string(),
                };
                let ev = *src.pick(&["preinstall", "install", "postinstall"]);
                ver.scripts.push((ev.into(), cmd));
                ver.extra.insert("hasInstallScript".into(), json!(true));
                scripted.push((n.clone(), v.clone()));
            }
            ver.files.remove("package.json");
            ver.seal(n, v);
        }
    }
    let mani = gen_mani(src, &reg, &o, 4);
    let srv = Server::start(reg.clone());
    let sc = ctx.scratch();
    let mk = |name: &str, common: &[String]| {
        let mut q = Proj::new(&sc.join(name), &srv.base);
        q.cache = Some(sc.join("cache"));
        q.write_manifest(&mani.json());
        q.common = common.to_vec();
        q
    };
    let rounds = src.range(2, 3);
    let mut edited = 0;
    for round in 0..rounds {
        let hoisted = src.bool();
        let last = round + 1 == rounds;
        // the last install only looks, so that its files are as published
        let mut common: Vec<String> = vec![];
        if last || src.chance(1, 3) {
            common.push("--no-scripts".into());
        }
        let q = mk(&format!("p{round}"), &common);
        q.run_ok(apply_args(hoisted), Some(&srv), "apply")?;
        ctx.note(format!("round {round} hoisted {hoisted} {common:?}"));
        let mut insts: Vec<(PathBuf, Inst)> = vec![];
        if common.is_empty() {
            // scripts ran: contents may be edited, find the packages only
            for d in package_dirs(&q.dir) {
                insts.push((d, Inst { name: String::new(), version: String::new() }));
            }
        } else {
            let t = check_tree(&q.dir, &reg, &mani)?;
            for (d, i) in &t {
                let ver = &reg.pkgs[&i.name].versions[&i.version];
                let bins: Vec<String> = ver.bins.iter().map(|b| b.1.trim_start_matches("./").to_string()).collect();
                for (f, (_, m)) in &ver.files {
                    let have = std::fs::metadata(d.join(f)).unwrap().permissions().mode() & 0o777;
                    let want = if bins.contains(f) { m | 0o111 } else { *m };
                    ensure!(
                        have == want,
                        "mode",
                        "round {round}: {}@{} {f} has mode {have:o} instead of {want:o}",
                        i.name,
                        i.version
                    );
                    if !ver.scripts.is_empty() {
                        let n = std::fs::metadata(d.join(f)).unwrap().nlink();
                        ensure!(
                            n == 1,
                            "script-linked",
                            "round {round}: {f} of {}@{}, which has install scripts, has {n} links",
                            i.name,
                            i.version
                        );
                    }
                }
            }
            insts.extend(t.into_iter());
        }
        if last {
            break;
        }
        // whatever people do to their node_modules
        let k = src.range(1, 6);
        for _ in 0..k {
            if insts.is_empty() {
                break;
            }
            let (d, _) = src.pick(&insts);
            let fs: Vec<PathBuf> = cache_files(d);
            if fs.is_empty() {
                continue;
            }
            let f = src.pick(&fs).clone();
            let Ok(data) = std::fs::read(&f) else { continue };
            edited += 1;
            let what = match src.below(8) {
                0 => {
                    let mut x = data;
                    x.extend(b"\nappended");
                    std::fs::write(&f, x).unwrap();
                    "append"
                }
                1 => {
                    std::fs::write(&f, b"rewritten").unwrap();
                    "rewrite"
                }
                2 => {
                    std::fs::write(&f, b"").unwrap();
                    "empty"
                }
                3 => {
                    let m = *src.pick(&[0o000, 0o777, 0o400, 0o755, 0o600]);
                    std::fs::set_permissions(&f, std::fs::Permissions::from_mode(m)).unwrap();
                    "chmod"
                }
                4 => {
                    std::fs::remove_file(&f).unwrap();
                    "delete"
                }
                5 => {
                    let t = f.with_extension("tmp-vh");
                    std::fs::write(&t, b"replaced").unwrap();
                    std::fs::rename(&t, &f).unwrap();
                    "replace"
                }
                6 => {
                    let mut x = data;
                    if !x.is_empty() {
                        let i = src.usize(x.len());
                        x[i] ^= 1;
                    }
                    std::fs::write(&f, x).unwrap();
                    "flip"
                }
                _ => {
                    std::fs::remove_dir_all(d).unwrap();
                    insts.retain(|(x, _)| x.exists());
                    "remove package"
                }
            };
            ctx.note(format!("{what} {}", f.strip_prefix(&q.dir).unwrap().display()));
            ctx.label(what);
        }
        if src.chance(1, 4) {
            // and the project itself is installed again
            let _ = q.run(apply_args(hoisted), Some(&srv))?;
        }
    }
    ctx.nontrivial = edited > 0;
    let _ = scripted;
    Ok(())
}

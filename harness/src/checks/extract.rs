//! Extraction, containment, integrity and the shared cache.
use super::linker::apply_args;
use super::lock::*;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::proj::*;
use crate::registry::*;
use crate::tree::*;
use nassun::{ExtractMode, NassunOpts};
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::os::unix::fs::PermissionsExt;
use std::path::{Path, PathBuf};

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "X01",
            rule: "tarball written block by block (ustar prefix, GNU and PAX long names, PAX sizes, directory entries, empty/odd sizes, modes, duplicates, non-UTF-8 names, any top directory, trailing data), extracted from the network and then from the cache in every mode; non-trivial: >= 3 files and a long name, duplicate, bin or install script",
            level: "exploration",
            quick: 4000,
            thorough: 80000,
            threads: 8,
            shrink: 300,
            case: x01,
            fixed: vec![],
            assumptions: vec!["single-member gzip", "reflinks are not available on this filesystem"],
        },
        Check {
            id: "X02",
            rule: "hostile package (tarball paths, links, odd entries, bin names and targets, directories.bin, dependency names) installed, re-applied, re-linked and removed by an unprivileged user inside a scratch world whose every other file is compared afterwards; every case is non-trivial: it holds at least one hostile feature",
            level: "exploration",
            quick: 350,
            thorough: 6000,
            threads: 8,
            shrink: 120,
            case: x02,
            fixed: vec![],
            assumptions: vec!["no install scripts (they may do anything)"],
        },
    ]
}

// ---------------------------------------------------------------- tar writing

#[derive(Clone, Debug)]
pub enum Kind {
    File,
    /// regular file written with the old-style type byte 0
    OldFile,
    Dir,
    Symlink(String),
    Hardlink(String),
    Fifo,
    CharDev,
    /// global PAX header
    Global,
    Other(u8),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Long {
    /// only the header's name field (and ustar prefix when needed)
    Ustar,
    Gnu,
    Pax,
}

#[derive(Clone, Debug)]
pub struct TarEnt {
    pub path: Vec<u8>,
    pub kind: Kind,
    pub data: Vec<u8>,
    pub mode: u32,
    pub long: Long,
    /// announce the size in a PAX record, the header saying 0
    pub pax_size: bool,
}

fn header(name: &[u8], prefix: &[u8], size: u64, mode: u32, ty: u8, link: &[u8], gnu: bool) -> [u8; 512] {
    let mut h = [0u8; 512];
    let put = |h: &mut [u8; 512], at: usize, n: usize, b: &[u8]| {
        let k = b.len().min(n);
        h[at..at + k].copy_from_slice(&b[..k]);
    };
    put(&mut h, 0, 100, name);
    put(&mut h, 100, 8, format!("{:07o}\0", mode & 0o7777777).as_bytes());
    put(&mut h, 108, 8, b"0000765\0");
    put(&mut h, 116, 8, b"0000024\0");
    put(&mut h, 124, 12, format!("{size:011o}\0").as_bytes());
    put(&mut h, 136, 12, b"03560116604\0");
    h[156] = ty;
    put(&mut h, 157, 100, link);
    if gnu {
        put(&mut h, 257, 8, b"ustar  \0");
    } else {
        put(&mut h, 257, 8, b"ustar\x0000");
        put(&mut h, 345, 155, prefix);
    }
    put(&mut h, 148, 8, b"        ");
    let sum: u32 = h.iter().map(|b| *b as u32).sum();
    put(&mut h, 148, 8, format!("{sum:06o}\0 ").as_bytes());
    h
}

fn push_data(out: &mut Vec<u8>, d: &[u8]) {
    out.extend_from_slice(d);
    while out.len() % 512 != 0 {
        out.push(0);
    }
}

fn pax_record(k: &str, v: &[u8]) -> Vec<u8> {
    let base = k.len() + v.len() + 3;
    let mut n = base + 1;
    while base + n.to_string().len() != n {
        n = base + n.to_string().len();
    }
    let mut o = format!("{n} {k}=").into_bytes();
    o.extend_from_slice(v);
    o.push(b'\n');
    o
}

/// Splits a long path at a slash into ustar prefix and name.
fn split_ustar(p: &[u8]) -> Option<(Vec<u8>, Vec<u8>)> {
    if p.len() <= 100 {
        return Some((vec![], p.to_vec()));
    }
    for i in (0..p.len()).rev() {
        if p[i] == b'/' && p.len() - i - 1 <= 100 && p.len() - i > 1 && i <= 155 && i > 0 {
            return Some((p[..i].to_vec(), p[i + 1..].to_vec()));
        }
    }
    None
}

pub fn write_tar(ents: &[TarEnt], eof_blocks: usize) -> Vec<u8> {
    let mut o = vec![];
    for e in ents {
        let (ty, link): (u8, Vec<u8>) = match &e.kind {
            Kind::File => (b'0', vec![]),
            Kind::OldFile => (0, vec![]),
            Kind::Dir => (b'5', vec![]),
            Kind::Symlink(t) => (b'2', t.clone().into_bytes()),
            Kind::Hardlink(t) => (b'1', t.clone().into_bytes()),
            Kind::Fifo => (b'6', vec![]),
            Kind::CharDev => (b'3', vec![]),
            Kind::Global => (b'g', vec![]),
            Kind::Other(t) => (*t, vec![]),
        };
        let mut pax = vec![];
        let mut name = e.path.clone();
        let mut prefix = vec![];
        match e.long {
            Long::Ustar => match split_ustar(&e.path) {
                Some((p, n)) => {
                    prefix = p;
                    name = n;
                }
                None => pax.extend(pax_record("path", &e.path)),
            },
            Long::Pax => pax.extend(pax_record("path", &e.path)),
            Long::Gnu => {
                o.extend(header(b"././@LongLink", b"", e.path.len() as u64 + 1, 0o644, b'L', b"", true));
                let mut d = e.path.clone();
                d.push(0);
                push_data(&mut o, &d);
            }
        }
        if e.pax_size {
            pax.extend(pax_record("mtime", b"499162500.25"));
            pax.extend(pax_record("size", e.data.len().to_string().as_bytes()));
        }
        if !pax.is_empty() {
            o.extend(header(b"PaxHeader/x", b"", pax.len() as u64, 0o644, b'x', b"", false));
            push_data(&mut o, &pax);
            if e.long != Long::Ustar || split_ustar(&e.path).is_none() {
                name = name[..name.len().min(90)].to_vec();
            }
        }
        let data: &[u8] = match e.kind {
            Kind::File | Kind::OldFile | Kind::Global | Kind::Other(_) => &e.data,
            _ => &[],
        };
        let size = if e.pax_size { 0 } else { data.len() as u64 };
        o.extend(header(&name, &prefix, size, e.mode, ty, &link, e.long == Long::Gnu));
        push_data(&mut o, data);
    }
    for _ in 0..eof_blocks {
        o.extend([0u8; 512]);
    }
    o
}

pub fn gzip(data: &[u8], level: u32, trailing: &[u8]) -> Vec<u8> {
    let mut e = flate2::write::GzEncoder::new(vec![], flate2::Compression::new(level));
    e.write_all(data).unwrap();
    let mut v = e.finish().unwrap();
    v.extend_from_slice(trailing);
    v
}

// ---------------------------------------------------------------- X01

pub const MODES: &[(&str, ExtractMode)] = &[
    ("auto", ExtractMode::Auto),
    ("copy", ExtractMode::Copy),
    ("reflink", ExtractMode::Reflink),
    ("autohardlink", ExtractMode::AutoHardlink),
    ("hardlink", ExtractMode::Hardlink),
];

fn gen_component(src: &mut Src) -> String {
    match src.below(8) {
        0 => src.string(&['a', 'b', 'c'], 1, 3),
        1 => "x".repeat(src.range(60, 110)),
        2 => src.pick(&["é", "日本語", "a b", "a\\b", "-x", "con", "..a", "a..", ".hidden", "%41", "a:b", "$x", "'q'", "\u{1}"]).to_string(),
        _ => src.pick(&["lib", "src", "bin", "index.js", "a.txt", "README", "node_modules", "deep", "d"]).to_string(),
    }
}

fn gen_mode(src: &mut Src) -> u32 {
    *src.pick(&[0o644, 0o644, 0o755, 0o600, 0o444, 0o000, 0o777, 0o664, 0o111, 0o500])
}

pub fn noise(seed: u64, n: usize) -> Vec<u8> {
    let mut r = Rng::new(seed);
    let mut v = Vec::with_capacity(n + 8);
    while v.len() < n {
        v.extend(r.next().to_le_bytes());
    }
    v.truncate(n);
    v
}

fn gen_data(src: &mut Src, big: bool) -> Vec<u8> {
    if big {
        let n = 5 * 1024 * 1024 + [0usize, 1, 4096, 300_000][src.usize(4)] - [0, 2000][src.usize(2)];
        return noise(src.u64(), n);
    }
    let n = match src.below(8) {
        0 => 0,
        1 => 1,
        2 => *src.pick(&[511, 512, 513, 1024]),
        3 => src.range(2000, 20000),
        _ => src.range(1, 60),
    };
    if src.chance(1, 4) {
        return vec![0; n];
    }
    noise(src.u64(), n)
}

/// Building a client is slow; one serves all cases.
pub fn client() -> oro_client::OroClient {
    static C: std::sync::OnceLock<oro_client::OroClient> = std::sync::OnceLock::new();
    C.get_or_init(|| oro_client::OroClient::builder().retries(0).build())
        .clone()
}

/// What installing must produce: path below the package directory -> (bytes, mode).
type Expect = BTreeMap<Vec<u8>, (Vec<u8>, u32)>;

fn disk(dir: &Path) -> BTreeMap<Vec<u8>, (Vec<u8>, u32)> {
    use std::os::unix::ffi::OsStrExt;
    let mut m = BTreeMap::new();
    for e in walkdir::WalkDir::new(dir) {
        let Ok(e) = e else { continue };
        if e.file_type().is_dir() {
            continue;
        }
        let rel = e.path().strip_prefix(dir).unwrap().as_os_str().as_bytes().to_vec();
        let md = std::fs::symlink_metadata(e.path()).unwrap();
        let data = if md.is_file() {
            std::fs::read(e.path()).unwrap()
        } else {
            b"<not a file>".to_vec()
        };
        m.insert(rel, (data, md.permissions().mode() & 0o777));
    }
    m
}

fn show(p: &[u8]) -> String {
    let s = String::from_utf8_lossy(p).to_string();
    if s.chars().count() > 120 {
        format!("{}..({} chars)", s.chars().take(40).collect::<String>(), s.chars().count())
    } else {
        s
    }
}

fn compare(sig: &str, what: &str, want: &Expect, got: &Expect) -> CaseResult {
    for (p, (d, m)) in want {
        let Some((gd, gm)) = got.get(p) else {
            return fail(
                format!("{sig}-missing"),
                format!("{what}: {} is missing; there is {:?}", show(p), got.keys().map(|k| show(k)).collect::<Vec<_>>()),
            );
        };
        ensure!(
            gd == d,
            format!("{sig}-content"),
            "{what}: {} holds {} bytes instead of the {} published",
            show(p),
            gd.len(),
            d.len()
        );
        ensure!(
            gm == m,
            format!("{sig}-mode"),
            "{what}: {} has mode {gm:o} instead of {m:o}",
            show(p)
        );
    }
    for p in got.keys() {
        ensure!(
            want.contains_key(p),
            format!("{sig}-stray"),
            "{what}: stray file {}",
            show(p)
        );
    }
    Ok(())
}

fn x01(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let top = src
        .pick(&["package", "package", "package", "foo-1.0.0", "a b", "é", "node_modules", "src", "..x", "x"])
        .to_string();
    let big = src.chance(1, 250);
    let mut ents: Vec<TarEnt> = vec![];
    // path below top -> latest contents
    let mut want: BTreeMap<Vec<u8>, (Vec<u8>, u32)> = BTreeMap::new();
    let mut features: BTreeSet<&str> = BTreeSet::new();
    let n = src.range(0, 9);
    let long_pref = src.below(4);
    let pick_long = |src: &mut Src, p: &[u8]| -> Long {
        match long_pref {
            0 => Long::Ustar,
            1 => *src.pick(&[Long::Ustar, Long::Gnu]),
            2 => *src.pick(&[Long::Ustar, Long::Pax]),
            _ if p.len() > 100 => *src.pick(&[Long::Gnu, Long::Pax]),
            _ => *src.pick(&[Long::Ustar, Long::Gnu, Long::Pax]),
        }
    };
    let mut paths: Vec<Vec<u8>> = vec![];
    for i in 0..n {
        let path: Vec<u8> = if !paths.is_empty() && src.chance(1, 10) {
            features.insert("duplicate");
            src.pick(&paths).clone()
        } else {
            let k = if src.chance(1, 12) { src.range(5, 9) } else { src.range(1, 3) };
            let mut c: Vec<String> = (0..k).map(|_| gen_component(src)).collect();
            // no path is a directory of another
            c.iter_mut().take(k - 1).for_each(|s| s.push_str("_d"));
            let mut p = c.join("/").into_bytes();
            if src.chance(1, 40) {
                features.insert("non-utf8");
                p.extend(b"\xff\xfe");
            }
            if src.chance(1, 30) {
                // not normalised
                let mut q = b"./".to_vec();
                q.extend(&p);
                p = q;
            }
            p
        };
        let data = gen_data(src, big && i == 0);
        let mode = gen_mode(src);
        let full: Vec<u8> = [top.as_bytes(), b"/", &path[..]].concat();
        let long = pick_long(src, &full);
        if full.len() > 100 {
            features.insert("long");
        }
        if src.chance(1, 6) {
            // a directory entry before (or after) its files
            let d = &full[..full.iter().rposition(|b| *b == b'/').unwrap()];
            ents.push(TarEnt {
                path: [d, b"/"].concat(),
                kind: Kind::Dir,
                data: vec![],
                mode: *src.pick(&[0o755, 0o555, 0o000, 0o777]),
                long: pick_long(src, d),
                pax_size: false,
            });
        }
        let norm = path.strip_prefix(b"./").unwrap_or(&path).to_vec();
        paths.push(path.clone());
        let key = String::from_utf8_lossy(&norm).to_string().into_bytes();
        want.insert(key, (data.clone(), mode | 0o600));
        ents.push(TarEnt {
            path: full,
            kind: if src.chance(1, 8) { Kind::OldFile } else { Kind::File },
            data,
            mode,
            long,
            pax_size: src.chance(1, 10),
        });
    }
    // things that are not files of the package
    for _ in 0..src.below(3) {
        let e = match src.below(6) {
            0 => (b"loose-file".to_vec(), Kind::File),
            1 => (b"pax_global_header".to_vec(), Kind::Global),
            2 => (format!("{top}/a-link").into_bytes(), Kind::Symlink("index.js".into())),
            3 => (format!("{top}/a-fifo").into_bytes(), Kind::Fifo),
            4 => (format!("{top}/empty-dir/").into_bytes(), Kind::Dir),
            _ => (format!("{top}/hard").into_bytes(), Kind::Hardlink(format!("{top}/package.json"))),
        };
        let data = match e.1 {
            Kind::Global => pax_record("comment", b"0123456789"),
            Kind::File => b"loose".to_vec(),
            _ => vec![],
        };
        features.insert("other entries");
        let at = src.usize(ents.len() + 1);
        ents.insert(
            at,
            TarEnt {
                path: e.0,
                kind: e.1,
                data,
                mode: 0o644,
                long: Long::Ustar,
                pax_size: false,
            },
        );
    }
    // the manifest
    let mut pj = json!({"name": "pkg", "version": "1.0.0"});
    let files: Vec<String> = want
        .keys()
        .filter_map(|k| String::from_utf8(k.clone()).ok())
        .filter(|k| !k.contains('\u{fffd}') && !k.contains('\\'))
        .collect();
    if !files.is_empty() && src.chance(1, 3) {
        let t = src.pick(&files).clone();
        let pre = *src.pick(&["", "./"]);
        pj["bin"] = if src.bool() {
            json!(format!("{pre}{t}"))
        } else {
            json!({"x": format!("{pre}{t}"), "y": "absent.js"})
        };
        want.get_mut(t.as_bytes()).unwrap().1 |= 0o111;
        features.insert("bin");
    }
    let mut scripts = false;
    if src.chance(1, 3) {
        let s = *src.pick(&["preinstall", "install", "postinstall", "prepare", "test"]);
        pj["scripts"] = json!({ s: "true" });
        scripts = ["preinstall", "install", "postinstall"].contains(&s);
        features.insert("script");
    }
    let pj = serde_json::to_vec_pretty(&pj).unwrap();
    let mid = src.usize(ents.len() + 1);
    let at = *src.pick(&[0, ents.len(), mid]);
    ents.insert(
        at,
        TarEnt {
            path: format!("{top}/package.json").into_bytes(),
            kind: Kind::File,
            data: pj.clone(),
            mode: 0o644,
            long: if src.chance(1, 5) { Long::Pax } else { Long::Ustar },
            pax_size: false,
        },
    );
    want.insert(b"package.json".to_vec(), (pj, 0o644));

    let tar = write_tar(&ents, *src.pick(&[2, 2, 2, 0, 1, 20]));
    let trailing: &[u8] = *src.pick(&[b"" as &[u8], b"", b"", b"garbage after the archive"]);
    let tgz = gzip(&tar, *src.pick(&[1, 0, 6, 9]), trailing);
    for f in &features {
        ctx.label(*f);
    }
    if big {
        ctx.label("over 5 MB");
    }
    ctx.nontrivial = want.len() >= 3
        && ["long", "duplicate", "bin", "script", "non-utf8"]
            .iter()
            .any(|f| features.contains(f));
    ctx.note(format!(
        "{} entries below {top:?}: {:?}",
        ents.len(),
        ents.iter()
            .map(|e| format!("{} {:?} {} bytes {:o} {:?}", show(&e.path), e.kind, e.data.len(), e.mode, e.long))
            .collect::<Vec<_>>()
    ));

    let mut ver = Ver::default();
    ver.tarball = tgz;
    match src.below(6) {
        0 => {}
        1 => ver.shasum = Some(sha1_hex(&ver.tarball)),
        _ => ver.set_integrity(),
    }
    let has_integrity = ver.integrity.is_some() || ver.shasum.is_some();
    let mut reg = Registry::default();
    let mut p = Pkg::default();
    p.versions.insert("1.0.0".into(), ver);
    p.tags.insert("latest".into(), "1.0.0".into());
    reg.pkgs.insert("pkg".into(), p);
    let srv = Server::start(reg);
    let sc = ctx.scratch();
    let cache = sc.join("cache");
    let use_cache = src.chance(5, 6);
    let mut runs: Vec<(&str, ExtractMode)> = vec![*src.pick(MODES)];
    if use_cache {
        let mut ms = MODES.to_vec();
        src.shuffle(&mut ms);
        runs.extend(ms.into_iter().take(3));
    }
    for (i, (mname, mode)) in runs.iter().enumerate() {
        let out = sc.join(format!("out{i}/node_modules/pkg"));
        let what = format!(
            "extraction {i} ({mname}, cache {use_cache}, integrity {has_integrity})"
        );
        let r = cut(|| {
            async_std::task::block_on(async {
                let mut o = NassunOpts::new().client(client()).registry(srv.base.parse().unwrap());
                if use_cache {
                    o = o.cache(&cache);
                }
                let n = o.build();
                let pkg = n.resolve("pkg@1.0.0").await.map_err(|e| format!("resolve: {e}"))?;
                pkg.extract_to_dir(&out, *mode)
                    .await
                    .map_err(|e| format!("extract: {e:?}"))?;
                Ok::<_, String>(())
            })
        });
        match r {
            Err(m) => return fail("panic", format!("{what} panicked: {m}")),
            Ok(Err(e)) => return fail("extract-failed", format!("{what} failed: {e}")),
            Ok(Ok(())) => {}
        }
        let got = disk(&out);
        compare("extract", &what, &want, &got)?;
        if i > 0 && has_integrity {
            let log = srv.take_log();
            let again = log.iter().any(|r| r.path.ends_with(".tgz"));
            ensure!(
                !again,
                "refetched",
                "{what}: the tarball was fetched again although it is cached"
            );
        } else {
            srv.take_log();
        }
        if scripts && use_cache {
            for k in want.keys() {
                use std::os::unix::ffi::OsStrExt;
                use std::os::unix::fs::MetadataExt;
                let f = out.join(std::ffi::OsStr::from_bytes(k));
                let nlink = std::fs::metadata(&f).map(|m| m.nlink()).unwrap_or(0);
                ensure!(
                    nlink == 1,
                    "script-linked",
                    "{what}: {} of a package with install scripts is linked to the cache",
                    show(k)
                );
            }
        }
        // extraction never disturbs what is already installed
        for (j, (m2, _)) in runs.iter().enumerate().take(i) {
            let o2 = sc.join(format!("out{j}/node_modules/pkg"));
            compare("earlier", &format!("after {what}, extraction {j} ({m2})"), &want, &disk(&o2))?;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- X02

fn chown_all(dir: &Path, uid: u32) {
    use std::os::unix::ffi::OsStrExt;
    for e in walkdir::WalkDir::new(dir).into_iter().flatten() {
        let c = std::ffi::CString::new(e.path().as_os_str().as_bytes()).unwrap();
        unsafe {
            libc::lchown(c.as_ptr(), uid, uid);
        }
    }
}

/// A copy of the binary that an unprivileged user can run.
fn public_oro() -> PathBuf {
    static P: std::sync::OnceLock<PathBuf> = std::sync::OnceLock::new();
    P.get_or_init(|| {
        let p = scratch_root().join("oro");
        std::fs::copy(oro_bin(), &p).expect("copy oro");
        std::fs::set_permissions(&p, std::fs::Permissions::from_mode(0o755)).unwrap();
        settle(&p);
        p
    })
    .clone()
}

const NOBODY: u32 = 65534;

/// Runs oro as an unprivileged user that owns nothing but the scratch world.
fn run_nobody(p: &Proj, args: &[&str], srv: &Server) -> Result<Out, Stop> {
    use std::os::unix::process::CommandExt;
    let c = p.command(args);
    let mut d = std::process::Command::new(public_oro());
    d.args(c.get_args());
    d.env_clear();
    for (k, v) in c.get_envs() {
        if let Some(v) = v {
            d.env(k, v);
        }
    }
    d.current_dir(&p.dir);
    limit_memory(&mut d);
    d.uid(NOBODY).gid(NOBODY);
    run_cmd(d, Some(srv))
}

fn evil_path(src: &mut Src, world: &Path) -> Vec<u8> {
    let abs = world.to_string_lossy().to_string();
    let up = "../".repeat(src.range(1, 7));
    let name = src.pick(&["escape", "sentinel", "victim/index.js", "node_modules/victim/index.js", ".npmrc", "package.json", "home/x", ".bin/vict"]).to_string();
    match src.below(14) {
        0 => format!("package/{up}{name}"),
        1 => format!("{up}{name}"),
        2 => format!("{abs}/{name}"),
        3 => format!("package/{abs}/{name}"),
        4 => format!("package//{abs}/{name}"),
        5 => format!("package/a/{up}{name}"),
        6 => format!("package/a/b/{up}"),
        7 => "package/..".into(),
        8 => format!("package/{up}"),
        9 => format!("./../{name}"),
        10 => format!("../package/{name}"),
        11 => format!("package\\..\\..\\{name}"),
        12 => format!("package/./{up}./{name}"),
        _ => format!("package/lnk/{name}"),
    }
    .into_bytes()
}

fn evil_name(src: &mut Src) -> String {
    src.pick(&[
        "..", "../escape", "../../escape", "a/../../escape", "@s/../../escape", "@s/..", ".", "./x", "../victim",
        "@../escape", "@s/../victim", "victim/../../escape", "victim/node_modules/escape", "..\\escape", "~/escape",
        "@s/a/../../../escape", "@./escape", "@x/.", "foo/bar",
        "victim/lib", "file:../escape", "../../sentinel", "%2e%2e/escape", "@..%2f/escape", " ../escape", "@s/ ../escape",
    ])
    .to_string()
}

fn x02(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let sc = ctx.scratch();
    let world = sc.join("w");
    // deep enough that no generated path leaves the scratch directory
    let base = world.join("l1/l2/l3/l4/l5/l6");
    std::fs::create_dir_all(&base).unwrap();
    let mut tree = Registry::default();
    let victim_bin = ("victim".to_string(), "cli.js".to_string());
    for n in ["victim", "@s/other", "friend"] {
        let mut v = Ver::default();
        v.files.insert("index.js".into(), (format!("// {n}\n").into_bytes(), 0o644));
        v.files.insert("lib/a.js".into(), (format!("// lib {n}\n").into_bytes(), 0o600));
        v.files.insert("cli.js".into(), (format!("#!/bin/sh\necho {n}\n").into_bytes(), 0o755));
        v.bins = vec![(n.rsplit('/').next().unwrap().to_string(), victim_bin.1.clone())];
        v.seal(n, "1.0.0");
        let mut p = Pkg::default();
        p.versions.insert("1.0.0".into(), v);
        p.tags.insert("latest".into(), "1.0.0".into());
        tree.pkgs.insert(n.into(), p);
    }
    let mut features: Vec<String> = vec![];
    // -- the evil package
    let mut ver = Ver::default();
    let mut ents: Vec<TarEnt> = vec![];
    let plain = |path: &str, data: &str| TarEnt {
        path: path.as_bytes().to_vec(),
        kind: Kind::File,
        data: data.as_bytes().to_vec(),
        mode: 0o644,
        long: Long::Ustar,
        pax_size: false,
    };
    ents.push(plain("package/index.js", "// evil"));
    ents.push(plain("package/run.js", "#!/bin/sh\necho evil\n"));
    let mut bins: Map<String, Value> = Map::new();
    let mut bin_field = Value::Null;
    let mut dirs = Value::Null;
    let abs = world.to_string_lossy().to_string();
    let rel_evil = |src: &mut Src| -> String {
        let up = "../".repeat(src.range(1, 7));
        match src.below(9) {
            0 => format!("{up}sentinel"),
            1 => format!("{abs}/sentinel"),
            2 => format!("/{abs}/sentinel"),
            3 => format!("lib/{up}sentinel"),
            4 => "../victim/lib/a.js".into(),
            5 => "../../victim/index.js".into(),
            6 => "../../../../node_modules/victim/lib/a.js".into(),
            7 => "lnk".into(),
            _ => up,
        }
    };
    for _ in 0..src.range(1, 4) {
        match src.below(5) {
            0 | 1 => {
                for _ in 0..src.range(1, 3) {
                    let p = evil_path(src, &world);
                    features.push(format!("entry {:?}", String::from_utf8_lossy(&p).replace(&abs, "<world>")));
                    ents.push(TarEnt {
                        path: p,
                        kind: Kind::File,
                        data: b"EVIL".to_vec(),
                        mode: 0o777,
                        long: *src.pick(&[Long::Ustar, Long::Gnu, Long::Pax]),
                        pax_size: false,
                    });
                }
            }
            2 => {
                let t = rel_evil(src);
                let name = *src.pick(&["package/lnk", "package/lib", "package/run.js", "package/package.json", "package/node_modules"]);
                let kind = match src.below(3) {
                    0 => Kind::Hardlink(t.clone()),
                    _ => Kind::Symlink(t.clone()),
                };
                features.push(format!("{name} {kind:?}").replace(&abs, "<world>"));
                ents.push(TarEnt {
                    path: name.as_bytes().to_vec(),
                    kind,
                    data: vec![],
                    mode: 0o777,
                    long: Long::Ustar,
                    pax_size: false,
                });
                if src.bool() {
                    ents.push(plain(&format!("{name}/sub"), "EVIL"));
                }
                if src.chance(1, 3) {
                    ents.push(plain(name, "EVIL"));
                }
            }
            3 => {
                let up = "../".repeat(src.range(1, 6));
                let n = match src.below(8) {
                    0 => format!("{up}escape"),
                    1 => format!("{abs}/escape"),
                    2 => "..".into(),
                    3 => ".".into(),
                    4 => "../victim/index.js".into(),
                    5 => "a/../../escape".into(),
                    6 => "..\\..\\escape".into(),
                    _ => "evil".into(),
                };
                let t = if src.chance(2, 3) { rel_evil(src) } else { "run.js".into() };
                features.push(format!("bin {n:?} = {t:?}").replace(&abs, "<world>"));
                if src.chance(1, 4) {
                    bin_field = if src.bool() { json!(t) } else { json!([t]) };
                } else {
                    bins.insert(n, json!(t));
                }
            }
            _ => {
                let d = rel_evil(src);
                features.push(format!("directories.bin {d:?}").replace(&abs, "<world>"));
                dirs = json!({ "bin": d });
            }
        }
    }
    if src.chance(1, 3) {
        for _ in 0..src.range(1, 2) {
            let n = evil_name(src);
            let spec = src.pick(&["npm:friend@1.0.0", "1.0.0", "*", "npm:friend"]).to_string();
            features.push(format!("dependency {n:?}: {spec:?}"));
            if src.chance(1, 3) {
                ver.opt.push((n, spec));
            } else {
                ver.deps.push((n, spec));
            }
        }
    }
    if src.chance(1, 3) {
        ver.deps.push(("friend".into(), "1.0.0".into()));
    }
    let mut pj = ver.package_json("evil", "1.0.0");
    if !bins.is_empty() {
        pj["bin"] = Value::Object(bins);
    }
    if !bin_field.is_null() {
        pj["bin"] = bin_field;
        if src.chance(1, 3) {
            pj["name"] = json!(*src.pick(&["../../escape", "..", "@s/../../escape"]));
        }
    }
    if !dirs.is_null() {
        pj["directories"] = dirs;
    }
    let at = src.usize(ents.len() + 1);
    ents.insert(at, plain("package/package.json", &pj.to_string()));
    ver.tarball = gzip(&write_tar(&ents, 2), 1, b"");
    ver.set_integrity();
    let mut p = Pkg::default();
    p.versions.insert("1.0.0".into(), ver);
    p.tags.insert("latest".into(), "1.0.0".into());
    tree.pkgs.insert("evil".into(), p);
    for f in &features {
        ctx.note(f.clone());
    }
    ctx.nontrivial = true;

    let hoisted = src.bool();
    let no_cache = src.chance(1, 3);
    let mut srv = Server::start(tree.clone());
    let p = {
        let mut p = Proj::new(&base, &srv.base);
        if no_cache {
            p.cache = None;
            p.common.push("--no-cache".into());
        }
        p
    };
    ctx.label(if hoisted { "hoisted" } else { "isolated" });
    ctx.label(if no_cache { "no cache" } else { "cache" });
    // everything around that must stay as it is
    let mut d = base.clone();
    let mut i = 0;
    loop {
        std::fs::write(d.join("sentinel"), format!("sentinel {i}")).unwrap();
        std::fs::set_permissions(d.join("sentinel"), std::fs::Permissions::from_mode(0o600)).unwrap();
        i += 1;
        if d == world {
            break;
        }
        d.pop();
    }
    for f in ["proj/sentinel", "proj/lib/code.js", "proj/bin/x", "home/sentinel", "node_modules/victim/index.js", "other/node_modules/victim/lib/a.js"] {
        let f = base.join(f);
        std::fs::create_dir_all(f.parent().unwrap()).unwrap();
        std::fs::write(&f, "precious").unwrap();
        std::fs::set_permissions(&f, std::fs::Permissions::from_mode(0o600)).unwrap();
    }
    let mani = |evil: bool| {
        let mut m = json!({"name": "proj", "version": "1.0.0", "dependencies": {"victim": "1.0.0", "@s/other": "1.0.0"}});
        if evil {
            m["dependencies"]["evil"] = json!("1.0.0");
        }
        m
    };
    let with_first = src.bool();
    p.write_manifest(&mani(!with_first));
    chown_all(&sc, NOBODY);
    let outside = |world: &Path| -> Snap {
        let mut s = snapshot(world);
        let rel = "l1/l2/l3/l4/l5/l6/";
        s.retain(|k, _| {
            let k = k.strip_prefix(rel).unwrap_or(k);
            let own = |d: &str| k == d || k.starts_with(&format!("{d}/"));
            !(own("proj/node_modules")
                || own("proj/package-lock.kdl")
                || own("proj/package.json")
                || own("cache")
                || own("home/data")
                || own("home/xcache")
                || own("home/config"))
        });
        s
    };
    let before = outside(&world);
    let mut clean = Mani::default();
    for n in ["victim", "@s/other"] {
        clean.deps.insert(n.into(), "1.0.0".into());
    }
    let check = |step: &str, out: &Out| -> CaseResult {
        ensure!(!out.panicked() && !out.deadlock, "panic", "{step}: {}", out.tail());
        let diff = diff_snap(&before, &outside(&world));
        ensure!(diff.is_empty(), "escape", "{step}: outside the project {diff:?}; {}", out.tail());
        // nothing but packages (and the linker's own things) at the top
        let nm = p.dir.join("node_modules");
        for e in std::fs::read_dir(&nm).into_iter().flatten().flatten() {
            let n = e.file_name().to_string_lossy().to_string();
            ensure!(
                !["escape", "sentinel", "lib", "run.js", "sub"].contains(&n.as_str()),
                "stray-top-level",
                "{step}: node_modules/{n}"
            );
        }
        if let Ok(rd) = std::fs::read_dir(nm.join(".bin")) {
            let real = nm.canonicalize().unwrap();
            for e in rd.flatten() {
                if let Ok(t) = e.path().canonicalize() {
                    ensure!(
                        t.starts_with(&real),
                        "bin-outside",
                        "{step}: .bin/{} runs {}",
                        e.file_name().to_string_lossy(),
                        t.display()
                    );
                }
            }
        }
        if out.ok() {
            for n in ["victim", "@s/other"] {
                let Some(d) = node_lookup(&p.dir, n, &p.dir) else {
                    return fail("victim-gone", format!("{step}: {n} is not installed"));
                };
                let v = &tree.pkgs[n].versions["1.0.0"];
                check_contents(&d, v, n)?;
                for (f, (_, m)) in &v.files {
                    let have = std::fs::metadata(d.join(f)).unwrap().permissions().mode() & 0o777;
                    ensure!(have == *m, "victim-mode", "{step}: {n}/{f} has mode {have:o} instead of {m:o}");
                }
                let short = n.rsplit('/').next().unwrap();
                let link = nm.join(".bin").join(short);
                ensure!(
                    link.canonicalize().ok() == d.join("cli.js").canonicalize().ok(),
                    "victim-bin",
                    "{step}: .bin/{short} is not {n}'s"
                );
            }
        }
        Ok(())
    };
    let args = apply_args(hoisted);
    if with_first {
        let o = run_nobody(&p, args, &srv)?;
        ensure!(o.ok(), "plain-apply", "{}", o.tail());
        check("before the package", &o)?;
        p.write_manifest(&mani(true));
    }
    let o = run_nobody(&p, args, &srv)?;
    let installed = o.ok();
    ctx.label(if installed { "installed" } else { "rejected" });
    check("installing it", &o)?;
    if src.bool() {
        let o = run_nobody(&p, args, &srv)?;
        check("applying again", &o)?;
    }
    if src.bool() {
        let o = run_nobody(&p, apply_args(!hoisted), &srv)?;
        check("with the other layout", &o)?;
    }
    p.write_manifest(&mani(false));
    let o = run_nobody(&p, args, &srv)?;
    ensure!(o.ok(), "removal-failed", "after removing the package: {}", o.tail());
    check("removing it", &o)?;
    check_tree(&p.dir, &tree, &clean)?;
    srv.clear_faults();
    let _ = &mut srv;
    Ok(())
}

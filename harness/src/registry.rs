//! Registry model and an in-process loopback HTTP registry that serves it, with
//! a controllable response order and injectable faults.
use crate::engine::Rng;
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, HashMap};
use std::io::{BufRead, BufReader, Read, Write};
use std::net::{TcpListener, TcpStream};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Debug, Default)]
pub struct Ver {
    pub deps: Vec<(String, String)>,
    pub dev: Vec<(String, String)>,
    pub opt: Vec<(String, String)>,
    pub peer: Vec<(String, String)>,
    pub bins: Vec<(String, String)>,
    pub scripts: Vec<(String, String)>,
    /// path inside the package -> (contents, mode)
    pub files: BTreeMap<String, (Vec<u8>, u32)>,
    pub deprecated: Option<String>,
    pub tarball: Vec<u8>,
    pub integrity: Option<String>,
    pub shasum: Option<String>,
    /// Host (base URL) serving the tarball, when not the registry itself.
    pub tarball_base: Option<String>,
    /// extra raw fields merged in the version's metadata
    pub extra: Map<String, Value>,
}

#[derive(Clone, Debug, Default)]
pub struct Pkg {
    pub versions: BTreeMap<String, Ver>,
    pub tags: BTreeMap<String, String>,
}

#[derive(Clone, Debug, Default)]
pub struct Registry {
    /// names by rank (see `gen_deps`)
    pub order: Vec<String>,
    pub pkgs: BTreeMap<String, Pkg>,
    /// Raw override of a packument body.
    pub raw: BTreeMap<String, Vec<u8>>,
}

pub fn dep_map(d: &[(String, String)]) -> Value {
    let mut m = Map::new();
    for (k, v) in d {
        m.insert(k.clone(), json!(v));
    }
    Value::Object(m)
}

impl Ver {
    pub fn package_json(&self, name: &str, version: &str) -> Value {
        let mut m = Map::new();
        m.insert("name".into(), json!(name));
        m.insert("version".into(), json!(version));
        for (k, d) in [
            ("dependencies", &self.deps),
            ("devDependencies", &self.dev),
            ("optionalDependencies", &self.opt),
            ("peerDependencies", &self.peer),
        ] {
            if !d.is_empty() {
                m.insert(k.into(), dep_map(d));
            }
        }
        if !self.bins.is_empty() {
            m.insert("bin".into(), dep_map(&self.bins));
        }
        if !self.scripts.is_empty() {
            m.insert("scripts".into(), dep_map(&self.scripts));
        }
        for (k, v) in &self.extra {
            m.insert(k.clone(), v.clone());
        }
        Value::Object(m)
    }

    /// Build the tarball from the files (adding package.json) and its integrity.
    pub fn seal(&mut self, name: &str, version: &str) {
        let pj = serde_json::to_vec_pretty(&self.package_json(name, version)).unwrap();
        self.files
            .entry("package.json".into())
            .or_insert((pj, 0o644));
        let mut entries: Vec<(String, Vec<u8>, u32)> = vec![];
        for (p, (b, m)) in &self.files {
            entries.push((format!("package/{p}"), b.clone(), *m));
        }
        self.tarball = make_tgz(&entries);
        self.set_integrity();
    }
    pub fn set_integrity(&mut self) {
        self.integrity = Some(sri_sha512(&self.tarball));
    }
}

pub fn sri_sha512(data: &[u8]) -> String {
    let mut o = ssri::IntegrityOpts::new().algorithm(ssri::Algorithm::Sha512);
    o.input(data);
    o.result().to_string()
}
pub fn sha1_hex(data: &[u8]) -> String {
    let mut o = ssri::IntegrityOpts::new().algorithm(ssri::Algorithm::Sha1);
    o.input(data);
    o.result().to_hex().1
}

pub fn make_tgz(entries: &[(String, Vec<u8>, u32)]) -> Vec<u8> {
    let enc = flate2::write::GzEncoder::new(Vec::new(), flate2::Compression::fast());
    let mut b = tar::Builder::new(enc);
    for (p, data, mode) in entries {
        let mut h = tar::Header::new_gnu();
        h.set_size(data.len() as u64);
        h.set_mode(*mode);
        h.set_mtime(499162500);
        h.set_entry_type(tar::EntryType::Regular);
        b.append_data(&mut h, p, &data[..]).expect("tar append");
    }
    b.into_inner().unwrap().finish().unwrap()
}

impl Registry {
    pub fn rank(&self, name: &str) -> usize {
        self.order.iter().position(|n| n == name).unwrap_or(0)
    }
    pub fn packument(&self, name: &str, base: &str) -> Option<Vec<u8>> {
        if let Some(r) = self.raw.get(name) {
            return Some(r.clone());
        }
        let p = self.pkgs.get(name)?;
        let mut versions = Map::new();
        for (v, ver) in &p.versions {
            let mut m = match ver.package_json(name, v) {
                Value::Object(m) => m,
                _ => unreachable!(),
            };
            let mut dist = Map::new();
            let b = ver.tarball_base.as_deref().unwrap_or(base);
            dist.insert("tarball".into(), json!(tarball_url(b, name, v)));
            if let Some(i) = &ver.integrity {
                dist.insert("integrity".into(), json!(i));
            }
            if let Some(i) = &ver.shasum {
                dist.insert("shasum".into(), json!(i));
            }
            m.insert("dist".into(), Value::Object(dist));
            if let Some(d) = &ver.deprecated {
                m.insert("deprecated".into(), json!(d));
            }
            versions.insert(v.clone(), Value::Object(m));
        }
        let mut tags = Map::new();
        for (t, v) in &p.tags {
            tags.insert(t.clone(), json!(v));
        }
        Some(
            serde_json::to_vec(&json!({
                "name": name, "dist-tags": tags, "versions": versions,
            }))
            .unwrap(),
        )
    }
}

pub fn tarball_url(base: &str, name: &str, ver: &str) -> String {
    let short = name.rsplit('/').next().unwrap();
    format!("{base}/{name}/-/{short}-{ver}.tgz")
}

#[derive(Clone, Debug, PartialEq)]
pub enum Fault {
    Status(u16),
    /// close the connection without answering
    Drop,
    /// announce the whole body, send half of it, close
    Truncate,
    /// flip a byte of the body
    Corrupt,
    /// answer with these bytes instead
    Body(Vec<u8>),
    /// redirect to this URL
    Redirect(String),
}

#[derive(Clone, Debug)]
pub struct Req {
    pub method: String,
    pub path: String,
    pub headers: Vec<(String, String)>,
    pub body: Vec<u8>,
}
impl Req {
    pub fn header(&self, n: &str) -> Option<&str> {
        self.headers
            .iter()
            .find(|(k, _)| k.eq_ignore_ascii_case(n))
            .map(|(_, v)| v.as_str())
    }
}

pub type Handler = dyn Fn(&Req) -> Option<(u16, Vec<(String, String)>, Vec<u8>)> + Send + Sync;

pub struct Shared {
    pub reg: Mutex<Registry>,
    /// faults by request path: consumed front to back, one per request
    pub faults: Mutex<HashMap<String, Vec<Fault>>>,
    /// faults that never run out
    pub sticky: Mutex<HashMap<String, Fault>>,
    pub log: Mutex<Vec<Req>>,
    pub handler: Mutex<Option<Arc<Handler>>>,
    /// sent with every packument
    pub meta_headers: Mutex<Vec<(String, String)>>,
    order: Mutex<Option<Rng>>,
    gate: Mutex<Gate>,
    cv: Condvar,
    stop: AtomicBool,
    base: String,
    prefix: String,
    pub inflight: AtomicUsize,
}

#[derive(Default)]
struct Gate {
    next: u64,
    waiting: Vec<u64>,
    released: Vec<u64>,
    last_arrival: Option<Instant>,
    max_waiting: usize,
}

pub struct Server {
    pub sh: Arc<Shared>,
    pub base: String,
    port: u16,
}

impl Server {
    pub fn start(reg: Registry) -> Server {
        Self::start_at(reg, "")
    }
    /// Serve the registry under a path prefix ("" or "/some/prefix").
    pub fn start_at(reg: Registry, prefix: &str) -> Server {
        Self::start_on("127.0.0.1:0", reg, prefix)
    }
    pub fn start_on(addr: &str, reg: Registry, prefix: &str) -> Server {
        let l = TcpListener::bind(addr).expect("bind loopback");
        let port = l.local_addr().unwrap().port();
        let base = format!("http://127.0.0.1:{port}{prefix}");
        let sh = Arc::new(Shared {
            reg: Mutex::new(reg),
            faults: Default::default(),
            sticky: Default::default(),
            log: Default::default(),
            handler: Default::default(),
            meta_headers: Default::default(),
            order: Default::default(),
            gate: Default::default(),
            cv: Condvar::new(),
            stop: AtomicBool::new(false),
            base: base.clone(),
            prefix: prefix.to_string(),
            inflight: AtomicUsize::new(0),
        });
        let s2 = sh.clone();
        std::thread::Builder::new()
            .stack_size(256 << 10)
            .spawn(move || {
                for c in l.incoming() {
                    if s2.stop.load(Ordering::SeqCst) {
                        break;
                    }
                    let Ok(c) = c else { continue };
                    let s3 = s2.clone();
                    let _ = std::thread::Builder::new()
                        .stack_size(512 << 10)
                        .spawn(move || {
                            let _ = serve(c, &s3);
                        });
                }
            })
            .expect("server thread");
        Server { sh, base, port }
    }
    pub fn set_order(&self, seed: Option<u64>) {
        let on = seed.is_some();
        *self.sh.order.lock().unwrap() = seed.map(Rng::new);
        if on {
            let s = self.sh.clone();
            let _ = std::thread::Builder::new()
                .stack_size(256 << 10)
                .spawn(move || scheduler(&s));
        }
    }
    pub fn max_waiting(&self) -> usize {
        self.sh.gate.lock().unwrap().max_waiting
    }
    pub fn reg<R>(&self, f: impl FnOnce(&mut Registry) -> R) -> R {
        f(&mut self.sh.reg.lock().unwrap())
    }
    pub fn take_log(&self) -> Vec<Req> {
        std::mem::take(&mut *self.sh.log.lock().unwrap())
    }
    pub fn fault(&self, path: &str, f: Vec<Fault>) {
        self.sh.faults.lock().unwrap().insert(path.into(), f);
    }
    pub fn sticky(&self, path: &str, f: Fault) {
        self.sh.sticky.lock().unwrap().insert(path.into(), f);
    }
    pub fn clear_faults(&self) {
        self.sh.faults.lock().unwrap().clear();
        self.sh.sticky.lock().unwrap().clear();
    }
}
impl Drop for Server {
    fn drop(&mut self) {
        self.sh.stop.store(true, Ordering::SeqCst);
        self.sh.cv.notify_all();
        let _ = TcpStream::connect(("127.0.0.1", self.port));
    }
}

/// Releases held requests one at a time, in an order chosen by the seed, once no
/// new request has arrived for a short moment.
fn scheduler(sh: &Shared) {
    loop {
        if sh.stop.load(Ordering::SeqCst) {
            return;
        }
        std::thread::sleep(Duration::from_micros(300));
        let mut order = sh.order.lock().unwrap();
        let Some(rng) = order.as_mut() else { return };
        let mut g = sh.gate.lock().unwrap();
        if g.waiting.is_empty() {
            continue;
        }
        if let Some(t) = g.last_arrival {
            if t.elapsed() < Duration::from_micros(2500) {
                continue;
            }
        }
        let n = g.waiting.len();
        g.max_waiting = g.max_waiting.max(n);
        // Tickets arrive in a racy order; sort so the choice depends on the
        // seed and the set of requests only as far as possible.
        g.waiting.sort();
        let take = 1 + (rng.next() as usize) % if n > 4 { 2 } else { 1 };
        for _ in 0..take {
            let i = (rng.next() as usize) % g.waiting.len();
            let t = g.waiting.swap_remove(i);
            g.released.push(t);
        }
        sh.cv.notify_all();
    }
}

fn gate(sh: &Shared) {
    if sh.order.lock().unwrap().is_none() {
        return;
    }
    let mut g = sh.gate.lock().unwrap();
    let me = g.next;
    g.next += 1;
    g.waiting.push(me);
    g.last_arrival = Some(Instant::now());
    loop {
        if let Some(i) = g.released.iter().position(|x| *x == me) {
            g.released.swap_remove(i);
            return;
        }
        if sh.stop.load(Ordering::SeqCst) {
            return;
        }
        g = sh.cv.wait_timeout(g, Duration::from_millis(500)).unwrap().0;
    }
}

pub fn pct_decode(s: &str) -> String {
    let b = s.as_bytes();
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' && i + 2 < b.len() {
            if let Ok(v) = u8::from_str_radix(&s[i + 1..i + 3], 16) {
                out.push(v);
                i += 3;
                continue;
            }
        }
        out.push(b[i]);
        i += 1;
    }
    String::from_utf8_lossy(&out).to_string()
}

fn serve(c: TcpStream, sh: &Shared) -> std::io::Result<()> {
    c.set_nodelay(true)?;
    c.set_read_timeout(Some(Duration::from_secs(300)))?;
    let mut w = c.try_clone()?;
    let mut r = BufReader::new(c);
    loop {
        let mut line = String::new();
        if r.read_line(&mut line)? == 0 {
            return Ok(());
        }
        let mut it = line.split_whitespace();
        let method = it.next().unwrap_or("").to_string();
        let path = it.next().unwrap_or("").to_string();
        let mut headers = vec![];
        loop {
            let mut l = String::new();
            if r.read_line(&mut l)? == 0 {
                return Ok(());
            }
            let l = l.trim_end();
            if l.is_empty() {
                break;
            }
            if let Some((k, v)) = l.split_once(':') {
                headers.push((k.trim().to_string(), v.trim().to_string()));
            }
        }
        let len = headers
            .iter()
            .find(|(k, _)| k.eq_ignore_ascii_case("content-length"))
            .and_then(|(_, v)| v.parse::<usize>().ok())
            .unwrap_or(0);
        let mut body = vec![0; len];
        r.read_exact(&mut body)?;
        let req = Req {
            method,
            path: path.clone(),
            headers,
            body,
        };
        sh.inflight.fetch_add(1, Ordering::SeqCst);
        sh.log.lock().unwrap().push(req.clone());
        gate(sh);
        let h = sh.handler.lock().unwrap().clone();
        let key = pct_decode(&path);
        let fault = {
            let mut f = sh.faults.lock().unwrap();
            match f.get_mut(&key) {
                Some(v) if !v.is_empty() => Some(v.remove(0)),
                _ => None,
            }
        }
        .or_else(|| sh.sticky.lock().unwrap().get(&key).cloned());
        let (mut status, mut hs, mut out) = match h.as_ref().and_then(|h| h(&req)) {
            Some(x) => x,
            None => answer(sh, &req),
        };
        sh.inflight.fetch_sub(1, Ordering::SeqCst);
        let mut announced = None;
        match fault {
            Some(Fault::Status(s)) => {
                status = s;
                out = b"{}".to_vec();
            }
            Some(Fault::Drop) => return Ok(()),
            Some(Fault::Truncate) => {
                announced = Some(out.len().max(2));
                out.truncate(out.len() / 2);
            }
            Some(Fault::Corrupt) => {
                let i = out.len() / 2;
                if let Some(b) = out.get_mut(i) {
                    *b ^= 0x55;
                }
            }
            Some(Fault::Body(b)) => out = b,
            Some(Fault::Redirect(u)) => {
                status = 302;
                hs.push(("location".into(), u));
                out = vec![];
            }
            None => {}
        }
        let mut head = format!("HTTP/1.1 {status} X\r\n");
        for (k, v) in &hs {
            head.push_str(&format!("{k}: {v}\r\n"));
        }
        head.push_str(&format!(
            "content-length: {}\r\n\r\n",
            announced.unwrap_or(out.len())
        ));
        w.write_all(head.as_bytes())?;
        if req.method != "HEAD" {
            w.write_all(&out)?;
        }
        w.flush()?;
        if announced.is_some() || sh.stop.load(Ordering::SeqCst) {
            return Ok(());
        }
    }
}

fn answer(sh: &Shared, req: &Req) -> (u16, Vec<(String, String)>, Vec<u8>) {
    let nf = || (404, vec![], b"{\"error\":\"not found\"}".to_vec());
    let p = pct_decode(req.path.split('?').next().unwrap_or(""));
    let Some(p) = p.strip_prefix(&sh.prefix) else {
        return nf();
    };
    let p = p.trim_start_matches('/');
    let reg = sh.reg.lock().unwrap();
    if p == "-/ping" {
        return (200, vec![], b"{}".to_vec());
    }
    if let Some((name, file)) = p.split_once("/-/") {
        if let Some(pkg) = reg.pkgs.get(name) {
            for (v, ver) in &pkg.versions {
                let short = name.rsplit('/').next().unwrap();
                if file == format!("{short}-{v}.tgz") {
                    return (
                        200,
                        vec![("content-type".into(), "application/octet-stream".into())],
                        ver.tarball.clone(),
                    );
                }
            }
        }
        return nf();
    }
    match reg.packument(p, &sh.base) {
        Some(b) => {
            let mut hs = sh.meta_headers.lock().unwrap().clone();
            hs.push(("content-type".into(), "application/json".into()));
            (200, hs, b)
        }
        None => nf(),
    }
}

"""A small registry and project runner for demonstrations (a copy lies in each folder)."""
import base64, gzip, hashlib, http.server, io, json, os, shutil, subprocess, sys, tarfile, tempfile, threading

ORO = os.path.join(os.getcwd(), "target/debug/oro")


def tgz(files):
    b = io.BytesIO()
    with tarfile.open(fileobj=b, mode="w:gz") as t:
        for name, data in files.items():
            mode = 0o644
            if isinstance(data, tuple):
                data, mode = data
            if isinstance(data, str):
                data = data.encode()
            i = tarfile.TarInfo("package/" + name)
            i.size, i.mode = len(data), mode
            t.addfile(i, io.BytesIO(data))
    return b.getvalue()


class Registry:
    """pkgs: {"name": {"1.0.0": {manifest fields..., "_files": {...}}}}; tags: {"name": {"latest": ..}}"""

    def __init__(self, pkgs, tags=None, prefix=""):
        self.pkgs, self.tags, self.prefix = pkgs, tags or {}, prefix
        self.tarballs, self.log, self.fail, self.headers = {}, [], {}, {}
        me = self

        class H(http.server.BaseHTTPRequestHandler):
            protocol_version = "HTTP/1.1"

            def log_message(self, *a):
                pass

            def do_GET(self):
                me.log.append((self.path, dict(self.headers)))
                st, body, hd = me.answer(self.path)
                if st == "drop":
                    self.close_connection = True
                    return
                self.send_response(st)
                for k, v in hd.items():
                    self.send_header(k, v)
                self.send_header("Content-Length", str(len(body)))
                self.end_headers()
                self.wfile.write(body)

            do_PUT = do_POST = do_DELETE = do_GET

        self.srv = http.server.ThreadingHTTPServer(("127.0.0.1", 0), H)
        self.base = "http://127.0.0.1:%d%s/" % (self.srv.server_address[1], prefix)
        threading.Thread(target=self.srv.serve_forever, daemon=True).start()

    def tarball(self, n, v):
        if (n, v) not in self.tarballs:
            m = self.pkgs[n][v]
            mani = {"name": n, "version": v}
            mani.update({k: x for k, x in m.items() if not k.startswith("_")})
            files = {"package.json": json.dumps(mani), "index.js": "// %s@%s\n" % (n, v)}
            files.update(m.get("_files", {}))
            self.tarballs[n, v] = tgz(files)
        return self.tarballs[n, v]

    def packument(self, n):
        vs = {}
        for v, m in self.pkgs[n].items():
            data = self.tarball(n, v)
            e = {"name": n, "version": v}
            e.update({k: x for k, x in m.items() if not k.startswith("_")})
            d = {"tarball": self.base + "%s/-/%s-%s.tgz" % (n, n.split("/")[-1], v)}
            if m.get("_integrity", True):
                d["integrity"] = "sha512-" + base64.b64encode(hashlib.sha512(data).digest()).decode()
            d.update(m.get("_dist", {}))
            e["dist"] = d
            vs[v] = e
        tags = self.tags.get(n) or {"latest": max(self.pkgs[n], key=lambda x: [int(y) for y in x.split("-")[0].split(".")])}
        return {"name": n, "dist-tags": tags, "versions": vs}

    def answer(self, path):
        path = path[len(self.prefix):] if path.startswith(self.prefix) else path
        if path in self.fail:
            f = self.fail[path]
            if callable(f):
                f = f()
            if f is not None:
                return f
        p = path.lstrip("/").replace("%2f", "/").replace("%2F", "/")
        if "/-/" in p:
            n, f = p.split("/-/")
            v = f[len(n.split("/")[-1]) + 1:-4]
            if n in self.pkgs and v in self.pkgs[n]:
                return 200, self.tarball(n, v), {}
        elif p in self.pkgs:
            return 200, json.dumps(self.packument(p)).encode(), dict(self.headers)
        return 404, b"{}", {}


class Project:
    def __init__(self, reg, manifest, top=None, cache=True):
        self.top = top or tempfile.mkdtemp(prefix="demo")
        self.dir = os.path.join(self.top, "proj")
        self.home = os.path.join(self.top, "home")
        os.makedirs(self.dir)
        os.makedirs(self.home, exist_ok=True)
        self.cache = os.path.join(self.top, "cache") if cache else None
        self.reg = reg
        self.env = {}
        self.write("package.json", json.dumps(manifest) if not isinstance(manifest, str) else manifest)

    def path(self, *p):
        return os.path.join(self.dir, *p)

    def write(self, f, s):
        p = self.path(f)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, "wb" if isinstance(s, bytes) else "w").write(s)

    def read(self, f):
        return open(self.path(f)).read()

    def json(self, f):
        return json.loads(self.read(f))

    def run(self, *args, std=True):
        env = {k: v for k, v in os.environ.items() if not k.startswith(("oro", "ORO", "npm", "NO_COLOR"))}
        env.update(HOME=self.home, XDG_CONFIG_HOME=self.home + "/config", XDG_CACHE_HOME=self.home + "/xcache",
                   XDG_DATA_HOME=self.home + "/data", CI="true", NO_COLOR="1", RUST_BACKTRACE="0")
        env.update(self.env)
        cmd = [ORO] + list(args)
        if std:
            cmd += ["--root", self.dir, "--registry", self.reg.base, "--no-emoji", "--no-progress", "--no-telemetry"]
            if self.cache:
                cmd += ["--cache", self.cache]
        r = subprocess.run(cmd, cwd=self.dir, env=env, capture_output=True, text=True, timeout=100)
        r.all = r.stdout + r.stderr
        return r

    def ok(self, *args, **k):
        r = self.run(*args, **k)
        check(r.returncode == 0, "oro %s failed: %s" % (args, r.all[-1500:]))
        return r

    def version(self, *path):
        f = self.path("node_modules", *path, "package.json")
        return json.load(open(f))["version"] if os.path.exists(f) else None

    def done(self):
        shutil.rmtree(self.top, ignore_errors=True)


def check(cond, msg):
    if not cond:
        print("FAILED:", msg)
        sys.exit(1)

//! Package specifiers.
use crate::engine::*;
use crate::ensure;
use node_semver::{Range, Version};
use oro_package_spec::{GitHost, GitInfo, PackageSpec, VersionSpec};
use std::path::PathBuf;

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "P01",
        rule: "half the cases build a spec from the documented syntax and compare the parsed value with the one meant; the others are strings over a grammar-biased alphabet, mutated specs and raw strings; every string that parses is printed and parsed again; non-trivial: the string parsed, or was rejected at an offset inside it",
        level: "exploration",
        quick: 400_000,
        thorough: 12_000_000,
        threads: 8,
        shrink: 2000,
        case: p01,
        fixed: vec![],
        assumptions: vec!["semver ranges themselves are node-semver's (ranges it cannot print and read back are skipped)"],
    }]
}

const TOKENS: &[&str] = &[
    "@", "@", "/", "/", ":", "#", "#", ".", "..", "./", "../", "\\", "file:", "npm:", "git+", "git://",
    "git+https://", "git+http://", "git+ssh://", "ssh://", "https://", "http://", "git@", "github.com",
    "gitlab.com", "bitbucket.org", "gist.github.com", "github:", "gitlab:", "gist:", "bitbucket:",
    "semver:", "#semver:", "#semver:^1.2.3", ".git", "foo", "bar", "@foo/bar", "a", "x", "1.2.3", "^1.2.3", "~1", ">=1.0.0 <2",
    "1.x", "*", "latest", "||", " ", "-", "1.0.0-beta.1", "+build", "v1.0.0", "=", "C:\\", "c:/", "?", "\\\\?\\", "%", "%20",
    "é", "\u{1F4A9}", "\0", "\n", "\t", "(", "!", "~", "'", "_", "localhost:8080", "[::1]", "user:pw@", "999999999999999999999", "NPM:", "File:", "GIT+", "SEMVER:",
    "file:./", "workspace:", "link:", "&path:/x", "", "deadbeef", "feature/x", "GitHub:",
];

fn soup(src: &mut Src) -> String {
    let n = src.range(0, 9);
    let mut s = String::new();
    for _ in 0..n {
        if src.chance(1, 12) {
            let c = char::from_u32(src.below(0x300) as u32).unwrap_or('x');
            s.push(c);
        } else {
            s.push_str(*src.pick(TOKENS));
        }
    }
    s
}

fn word(src: &mut Src) -> String {
    const A: &[char] = &[
        'a', 'b', 'o', 'z', '0', '9', '-', '_', '.', 'A', 'Q', '~', '!', '(', ')', '\'', '*',
    ];
    // starts with a letter, so that it is never a path, a range or a prefix
    let mut s = src.string(&['a', 'f', 'q', 'z', 'K'], 1, 2);
    s.push_str(&src.string(A, 0, 6));
    s
}

fn range_text(src: &mut Src) -> String {
    let v = |src: &mut Src| {
        format!("{}.{}.{}", src.below(4), src.below(12), src.below(4))
    };
    let one = |src: &mut Src| match src.below(9) {
        0 => format!("^{}", v(src)),
        1 => format!("~{}", v(src)),
        2 => format!(">={}", v(src)),
        3 => format!("<{}", v(src)),
        4 => format!("{}.x", src.below(5)),
        5 => format!("^{}-beta.{}", v(src), src.below(3)),
        6 => format!("{} - 9.{}", v(src), src.below(3)),
        7 => format!(">{} <9", v(src)),
        _ => format!("{}.{}", src.below(5), src.below(5)),
    };
    let mut s = one(src);
    if src.chance(1, 4) {
        s = format!("{s} || {}", one(src));
    }
    s
}

fn requested(src: &mut Src) -> (String, Option<VersionSpec>) {
    match src.below(6) {
        0 => (String::new(), None),
        5 => (
            "@".into(),
            Some(VersionSpec::Range(Range::parse("*").unwrap())),
        ),
        1 => {
            let mut v = format!("{}.{}.{}", src.below(30), src.below(30), src.below(30));
            if src.chance(1, 3) {
                v.push_str(*src.pick(&["-0", "-beta", "-rc.1", "-a.b.3", "-beta-10"]));
            }
            if src.chance(1, 8) {
                v.push_str("+build.5");
            }
            let p = Version::parse(&v).unwrap();
            (format!("@{v}"), Some(VersionSpec::Version(p)))
        }
        2 => {
            let t = match src.below(4) {
                0 => "latest".to_string(),
                1 => "next-11".to_string(),
                _ => word(src),
            };
            if Version::parse(&t).is_ok() || Range::parse(&t).is_ok() {
                return (String::new(), None);
            }
            (format!("@{t}"), Some(VersionSpec::Tag(t)))
        }
        _ => {
            let r = range_text(src);
            match Range::parse(&r) {
                Ok(p) => (format!("@{r}"), Some(VersionSpec::Range(p))),
                Err(_) => (String::new(), None),
            }
        }
    }
}

/// `[@scope/]name` as text, scope and full name.
fn pkg_name(src: &mut Src) -> (String, Option<String>) {
    let n = word(src);
    if src.chance(1, 3) {
        let s = word(src);
        (format!("@{s}/{n}"), Some(s))
    } else {
        (n, None)
    }
}

fn npm(src: &mut Src) -> (String, PackageSpec) {
    let (name, scope) = pkg_name(src);
    let (t, requested) = requested(src);
    (
        format!("{name}{t}"),
        PackageSpec::Npm {
            scope,
            name,
            requested,
        },
    )
}

fn path(src: &mut Src) -> (String, PackageSpec) {
    let head = *src.pick(&[
        ".", "..", "./", "../", "/", ".\\", "..\\", "C:\\", "d:/", "\\\\", "\\\\?\\", "/opt/", "./..",
    ]);
    let tail = src.string(
        &['a', 'b', '/', '\\', '.', ' ', '@', '#', ':', '1', 'é', '-'],
        0,
        12,
    );
    let p = format!("{head}{tail}");
    (
        p.clone(),
        PackageSpec::Dir {
            path: PathBuf::from(p),
        },
    )
}

type Committish = (String, Option<String>, Option<Range>);

fn committish(src: &mut Src) -> Committish {
    match src.below(4) {
        0 | 1 => (String::new(), None, None),
        2 => {
            let c = match src.below(4) {
                0 => src.pick(&["v1.2.3", "feature/x", "pkg@1.0.0", "@s/p@2.0.0", "a+b,c", "größer", "1.x"]).to_string(),
                1 => src.string(&['0', '4', 'a', 'f'], 7, 40),
                _ => word(src),
            };
            (format!("#{c}"), Some(c), None)
        }
        _ => {
            let r = range_text(src);
            match Range::parse(&r) {
                Ok(p) => (format!("#semver:{r}"), None, Some(p)),
                Err(_) => (String::new(), None, None),
            }
        }
    }
}

fn host(src: &mut Src) -> (GitHost, &'static str, &'static str) {
    match src.below(4) {
        0 => (GitHost::GitHub, "github", "github.com"),
        1 => (GitHost::GitLab, "gitlab", "gitlab.com"),
        2 => (GitHost::Bitbucket, "bitbucket", "bitbucket.org"),
        _ => (GitHost::Gist, "gist", "gist.github.com"),
    }
}

fn repo_name(src: &mut Src) -> String {
    const A: &[char] = &['a', 'b', 'z', '0', '7', '-', '_', 'Q'];
    let mut s = src.string(A, 1, 6);
    for _ in 0..src.below(3) {
        s.push_str(*src.pick(&[".js", ".git", ".github.io", "-git", ".x"]));
    }
    if s.ends_with(".git") {
        s.push('x');
    }
    s
}

fn git(src: &mut Src) -> (String, PackageSpec) {
    let (ct, c, semver) = committish(src);
    let owner = repo_name(src);
    let repo = repo_name(src);
    let dot = *src.pick(&["", ".git"]);
    let (text, info) = match src.below(6) {
        0 | 1 => {
            let (host, prefix, _) = host(src);
            let short = host == GitHost::GitHub && src.bool();
            (
                if short {
                    format!("{owner}/{repo}{ct}")
                } else {
                    format!("{prefix}:{owner}/{repo}{ct}")
                },
                GitInfo::Hosted {
                    owner,
                    repo,
                    host,
                    committish: c,
                    semver,
                    requested: None,
                },
            )
        }
        2 => {
            let (host, _, domain) = host(src);
            let scheme = *src.pick(&["https", "http", "ssh", "git"]);
            let user = *src.pick(&["", "", "git@", "u:p@"]);
            let url = format!("{scheme}://{user}{domain}/{owner}/{repo}{dot}");
            let pre = if scheme == "git" && src.bool() { "" } else { "git+" };
            (
                format!("{pre}{url}{ct}"),
                GitInfo::Hosted {
                    owner,
                    repo,
                    host,
                    committish: c,
                    semver,
                    requested: Some(url),
                },
            )
        }
        3 => {
            let scheme = *src.pick(&["https", "http", "ssh", "git", "file"]);
            let h = if scheme == "file" {
                ""
            } else {
                *src.pick(&["foo.com", "localhost:8080", "127.0.0.1", "u:p@git.example.org", "github.com.evil.org"])
            };
            let deep = *src.pick(&["", "/deep", "/~me"]);
            let url = format!("{scheme}://{h}{deep}/{owner}/{repo}{dot}");
            let pre = if scheme == "git" && src.bool() { "" } else { "git+" };
            (
                format!("{pre}{url}{ct}"),
                GitInfo::Url {
                    url: url.parse().unwrap(),
                    committish: c,
                    semver,
                },
            )
        }
        4 => {
            let (host, _, domain) = host(src);
            let raw = format!("git@{domain}:x{owner}/{repo}{dot}");
            let pre = *src.pick(&["git+ssh://", "ssh://"]);
            (
                format!("{pre}{raw}{ct}"),
                GitInfo::Hosted {
                    owner: format!("x{owner}"),
                    repo,
                    host,
                    committish: c,
                    semver,
                    requested: Some(raw),
                },
            )
        }
        _ => {
            let user = *src.pick(&["git@", "me@"]);
            let h = *src.pick(&["foo.com", "git.example.org", "10.0.0.7"]);
            let raw = format!("{user}{h}:x{owner}/{repo}{dot}");
            let pre = *src.pick(&["git+ssh://", "ssh://"]);
            (
                format!("{pre}{raw}{ct}"),
                GitInfo::Ssh {
                    ssh: raw,
                    committish: c,
                    semver,
                },
            )
        }
    };
    (text, PackageSpec::Git(info))
}

fn built(src: &mut Src, ctx: &mut Ctx) -> (String, PackageSpec) {
    let alias = src.chance(1, 3);
    let (text, spec, kind) = match src.below(4) {
        0 => {
            let (t, s) = path(src);
            let pre = *src.pick(&["", "", "file:"]);
            (format!("{pre}{t}"), s, "path")
        }
        1 => {
            let (t, s) = git(src);
            (t, s, "git")
        }
        _ => {
            let (t, s) = npm(src);
            let pre = if alias || src.chance(1, 4) { "npm:" } else { "" };
            (format!("{pre}{t}"), s, "npm")
        }
    };
    ctx.label(if alias { format!("alias to {kind}") } else { kind.to_string() });
    if alias {
        let (name, _) = pkg_name(src);
        (
            format!("{name}@{text}"),
            PackageSpec::Alias {
                name,
                spec: Box::new(spec),
            },
        )
    } else {
        (text, spec)
    }
}

/// A range that node-semver itself prints as something else is not this
/// crate's to round-trip; one that prints as a single version reads as that.
fn same(a: &PackageSpec, b: &PackageSpec) -> bool {
    use PackageSpec::*;
    use VersionSpec as V;
    match (a, b) {
        (Alias { name: n, spec: s }, Alias { name: m, spec: t }) => n == m && same(s, t),
        (
            Npm { scope: s, name: n, requested: Some(V::Range(r)) },
            Npm { scope: t, name: m, requested: Some(q) },
        ) => {
            s == t
                && n == m
                && match q {
                    V::Range(q) => r == q || Range::parse(r.to_string()).as_ref() != Ok(r),
                    V::Version(v) => {
                        v.to_string() == r.to_string()
                            || Range::parse(r.to_string()).as_ref() != Ok(r)
                    }
                    V::Tag(_) => Range::parse(r.to_string()).is_err(),
                }
        }
        (
            Npm { scope: s, name: n, requested: Some(V::Version(v)) },
            Npm { scope: t, name: m, requested: Some(V::Version(w)) },
        ) => s == t && n == m && (v == w || Version::parse(v.to_string()).as_ref() != Ok(v)),
        (Git(i), Git(j)) => {
            let odd = |i: &GitInfo| {
                i.semver()
                    .map_or(false, |r| Range::parse(r.to_string()).as_ref() != Ok(r))
            };
            i == j || odd(i)
        }
        _ => a == b,
    }
}

fn git_of(s: &PackageSpec) -> Option<&GitInfo> {
    match s.target() {
        PackageSpec::Git(i) => Some(i),
        _ => None,
    }
}

fn printable_range(s: &PackageSpec) -> bool {
    match s.target() {
        PackageSpec::Npm {
            requested: Some(VersionSpec::Range(r)),
            ..
        } => Range::parse(r.to_string()).as_ref() == Ok(r),
        PackageSpec::Git(i) => i
            .semver()
            .map_or(true, |r| Range::parse(r.to_string()).as_ref() == Ok(r)),
        _ => true,
    }
}

/// The range parser this project depends on has a panic of its own.
fn panic_sig(m: &str) -> &'static str {
    let m = m.strip_prefix("internal error: entered unreachable code: ");
    if m.map_or(false, |m| {
        m.starts_with("This should not have parsed:")
            || m.starts_with("Failed to parse operation. This should not happen")
    }) {
        "node-semver-unreachable"
    } else {
        "panic"
    }
}

fn p01(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let mut meant = None;
    let text = match src.below(8) {
        0..=3 => {
            let (t, s) = built(src, ctx);
            meant = Some(s);
            t
        }
        4 => {
            // a valid one, damaged
            let (t, _) = built(src, ctx);
            let mut cs: Vec<char> = t.chars().collect();
            for _ in 0..src.range(1, 3) {
                let at = src.usize(cs.len() + 1);
                match src.below(3) {
                    0 if at < cs.len() => {
                        cs.remove(at);
                    }
                    1 => {
                        for (i, c) in src.pick(TOKENS).chars().enumerate() {
                            cs.insert((at + i).min(cs.len()), c);
                        }
                    }
                    _ if at < cs.len() => {
                        cs[at] = src.pick(TOKENS).chars().next().unwrap_or('@');
                    }
                    _ => {}
                }
            }
            ctx.label("mutated");
            cs.into_iter().collect()
        }
        _ => {
            ctx.label("soup");
            soup(src)
        }
    };
    ctx.note(format!("{text:?}"));
    let parsed = match cut(|| text.parse::<PackageSpec>()) {
        Ok(p) => p,
        Err(m) => return fail(panic_sig(&m), format!("parsing {text:?} panicked: {m}")),
    };
    let info = cut(|| text.parse::<GitInfo>());
    if let Err(m) = &info {
        return fail(
            panic_sig(m),
            format!("parsing {text:?} as a git spec panicked: {m}"),
        );
    }
    if let (Ok(Ok(i)), Ok(PackageSpec::Git(j))) = (&info, &parsed) {
        ensure!(i == j, "gitinfo-differs", "{text:?}: {i:?} and {j:?}");
    }
    match (&parsed, &meant) {
        (Err(e), Some(_)) => {
            return fail("valid-rejected", format!("{text:?} was rejected: {e}"));
        }
        (Ok(p), Some(m)) => {
            ensure!(
                p == m,
                "wrong-meaning",
                "{text:?} parsed as {p:?}, not as {m:?}"
            );
        }
        _ => {}
    }
    let spec = match parsed {
        Ok(p) => p,
        Err(e) => {
            ensure!(
                e.offset <= text.len() && text.is_char_boundary(e.offset),
                "bad-offset",
                "{text:?}: error offset {}",
                e.offset
            );
            ensure!(e.input == text, "bad-input", "{text:?}: error is about {:?}", e.input);
            ensure!(!e.to_string().is_empty(), "empty-message", "{text:?}");
            ctx.label("rejected");
            ctx.nontrivial = e.offset > 0;
            return Ok(());
        }
    };
    ctx.nontrivial = true;
    let printed = match cut(|| spec.to_string()) {
        Ok(p) => p,
        Err(m) => return fail("panic", format!("printing {spec:?} panicked: {m}")),
    };
    if let Some(i) = git_of(&spec) {
        ensure!(
            cut(|| (i.ssh(), i.https(), i.tarball())).is_ok(),
            "panic",
            "addresses of {i:?}"
        );
    }
    ensure!(
        spec.is_npm() == matches!(spec.target(), PackageSpec::Npm { .. }),
        "is-npm",
        "{spec:?}"
    );
    if let PackageSpec::Npm {
        requested: Some(VersionSpec::Tag(t)),
        ..
    } = &spec
    {
        if t.starts_with('.') {
            // without the prefix this reads as a path
            ctx.label("dotted tag");
            return Ok(());
        }
    }
    if !printable_range(&spec) {
        ctx.label("range that does not print");
        return Ok(());
    }
    match cut(|| printed.parse::<PackageSpec>()) {
        Err(m) => return fail("panic", format!("parsing {printed:?} panicked: {m}")),
        Ok(Err(e)) => {
            return fail(
                "printed-rejected",
                format!("{text:?} prints as {printed:?}, which is rejected: {e}"),
            )
        }
        Ok(Ok(again)) => ensure!(
            same(&spec, &again),
            "round-trip",
            "{text:?} is {spec:?}, prints as {printed:?}, which is {again:?}"
        ),
    }
    // What package.json and the lockfile keep is the part after the name.
    let kept = match &spec {
        PackageSpec::Npm { name, .. } => Some((name.clone(), spec.requested())),
        PackageSpec::Alias { name, .. } => Some((name.clone(), spec.requested())),
        _ => None,
    };
    if let Some((name, req)) = kept {
        let line = format!("{name}@{req}");
        match cut(|| line.parse::<PackageSpec>()) {
            Ok(Ok(again)) => {
                let bare = matches!(&spec, PackageSpec::Npm { requested: None, .. });
                ensure!(
                    bare || same(&spec, &again),
                    "requested-round-trip",
                    "{text:?} is {spec:?}, recorded as {line:?}, which is {again:?}"
                );
            }
            other => {
                return fail(
                    "requested-rejected",
                    format!("{text:?} is recorded as {line:?}: {other:?}"),
                )
            }
        }
    }
    Ok(())
}

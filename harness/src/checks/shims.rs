//! H01: command shims. The sh shims are run; the cmd and PowerShell ones are
//! read by small interpreters of the parts of these languages that they use.
use crate::proj::settle;
use crate::engine::*;
use crate::ensure;
use std::collections::BTreeMap;
use std::os::unix::fs::PermissionsExt;
use std::path::{Path, PathBuf};
use std::process::Command;

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "H01",
        rule: "random scripts (shebang forms, variables, arguments, line ends, encodings), names, relative locations and leftovers at the shims' paths; the sh shim is run by sh with recording interpreters, the cmd and ps1 shims by interpreters of their subset; non-trivial: the script has a shebang",
        level: "exploration",
        quick: 3000,
        thorough: 40000,
        threads: 8,
        shrink: 300,
        case: h01,
        fixed: vec![
            ("sh-shim-syntax", sh_syntax),
            ("sh-shim-variables", sh_variables),
            ("cmd-shim-variables", cmd_variables),
        ],
        assumptions: vec![
            "cmd and PowerShell are modelled by interpreters of the constructs the shims use.",
            "The sh shim's two known syntax errors are corrected before it is run.",
        ],
    }]
}

/// What a shim ends up running.
#[derive(Debug, PartialEq, Clone)]
struct Ran {
    prog: String,
    args: Vec<String>,
    env: BTreeMap<String, String>,
    /// Whether it's given the shim's own arguments, after all others.
    rest: bool,
    status: bool,
}

struct Script {
    text: Vec<u8>,
    prog: Option<String>,
    args: Vec<String>,
    /// Values as (literal or reference) parts.
    vars: Vec<(String, Vec<(bool, String)>)>,
    desc: String,
}

const ENV: &[(&str, &str)] = &[("HOME_DIR", "/home/me"), ("NODE_PATH", "old/lib"), ("V1", "one"), ("UNSET_ONE", "")];

fn gen_script(src: &mut Src, scratch: &Path) -> Script {
    let kind = src.below(10);
    let tok = |src: &mut Src| -> String {
        let a: Vec<char> = "abcxyz0189-_./=".chars().collect();
        let n = src.range(1, 8);
        (0..n).map(|_| *src.pick(&a)).collect()
    };
    let mut vars: Vec<(String, Vec<(bool, String)>)> = vec![];
    let mut args: Vec<String> = vec![];
    let mut prog = None;
    let mut line = String::new();
    if kind > 0 {
        let env = kind < 8;
        let name = src.pick(&["node", "python3", "my-interp", "deno2", "ruby"]).to_string();
        let p = if env { name } else { scratch.join("pathbin").join(name).to_string_lossy().into_owned() };
        line.push_str("#!");
        if src.chance(1, 5) {
            line.push(' ');
        }
        if env {
            line.push_str("/usr/bin/env ");
            if src.chance(1, 4) {
                line.push_str("-S ");
            }
            if src.chance(1, 2) {
                for _ in 0..src.range(1, 3) {
                    let k = src.pick(&["A", "B_2", "NODE_PATH", "NODE_ENV"]).to_string();
                    if vars.iter().any(|(n, _)| *n == k) {
                        continue;
                    }
                    let mut parts: Vec<(bool, String)> = vec![];
                    line.push_str(&k);
                    line.push('=');
                    for i in 0..src.range(1, 3) {
                        if i > 0 {
                            // Something that can't be part of a name.
                            let sep = src.pick(&[":", "/", ".", "-", "/lib:"]).to_string();
                            line.push_str(&sep);
                            parts.push((false, sep));
                        }
                        if src.chance(1, 2) {
                            let r = src.pick(ENV).0.to_string();
                            line.push_str(&if src.bool() { format!("${{{r}}}") } else { format!("${r}") });
                            parts.push((true, r));
                        } else {
                            let t: String = tok(src).replace('=', "e");
                            line.push_str(&t);
                            parts.push((false, t));
                        }
                    }
                    line.push_str(*src.pick(&[" ", "  "]));
                    vars.push((k, parts));
                }
            }
        }
        line.push_str(&p);
        for _ in 0..src.below(4) {
            let t = format!("{}{}", src.pick(&["--", "-", ""]), tok(src));
            line.push_str(*src.pick(&[" ", "  ", "\t"]));
            line.push_str(&t);
            args.push(t);
        }
        if src.chance(1, 6) {
            line.push_str(*src.pick(&[" ", "\t", "  "]));
        }
        prog = Some(p);
    }
    let eol = if src.chance(1, 4) { "\r\n" } else { "\n" };
    let mut text = line.clone().into_bytes();
    match (prog.is_some(), src.below(6)) {
        (true, 0) => {}
        (true, 1) => {
            text.extend(eol.as_bytes());
            text.extend(b"// \xff\xfe not utf-8 \xe9\n");
        }
        (true, _) => {
            text.extend(eol.as_bytes());
            text.extend(format!("console.log(1){eol}#!/bin/other{eol}").into_bytes());
        }
        // Without a shebang, it's run as it is.
        (false, _) => text.extend(RECORD.replace("@WHO@", "target").into_bytes()),
    }
    Script { desc: format!("{line:?} eol {eol:?}"), text, prog, args, vars }
}

/// Script that records how it's been run.
const RECORD: &str = "printf '%s\\0' @WHO@ \"$0\" > \"$REC\"\nfor v in A B_2 NODE_PATH NODE_ENV; do eval \"x=\\${$v-}\"; printf '%s\\0' \"$v=$x\" >> \"$REC\"; done\nfor a; do printf '%s\\0' \"$a\" >> \"$REC\"; done\nexit $WANT\n";

fn write_exec(p: &Path, s: &str) -> std::io::Result<()> {
    std::fs::create_dir_all(p.parent().unwrap())?;
    std::fs::write(p, s)?;
    std::fs::set_permissions(p, std::fs::Permissions::from_mode(0o755))?;
    settle(p);
    Ok(())
}

/// The same file, however it's written.
fn norm(p: &str) -> String {
    let mut out: Vec<&str> = vec![];
    for c in p.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                out.pop();
            }
            c => out.push(c),
        }
    }
    format!("/{}", out.join("/"))
}

// ---------------------------------------------------------------- cmd

/// Expands %VAR%, %VAR:a=b% and the like; %* becomes \u{1}.
fn cmd_expand(line: &str, env: &BTreeMap<String, String>, dp0: &str) -> Result<String, String> {
    let mut out = String::new();
    let mut rest = line;
    while let Some(i) = rest.find('%') {
        out.push_str(&rest[..i]);
        rest = &rest[i + 1..];
        if let Some(r) = rest.strip_prefix("~dp0") {
            out.push_str(dp0);
            rest = r;
        } else if let Some(r) = rest.strip_prefix('*') {
            out.push('\u{1}');
            rest = r;
        } else if let Some(j) = rest.find('%') {
            let name = &rest[..j];
            rest = &rest[j + 1..];
            let (name, sub) = name.split_once(':').map_or((name, None), |(a, b)| (a, Some(b)));
            let mut val = env.get(&name.to_uppercase()).cloned().unwrap_or_default();
            if let Some((from, to)) = sub.and_then(|s| s.split_once('=')) {
                val = val.replace(from, to);
            }
            out.push_str(&val);
        } else {
            return Err(format!("stray % in {line:?}"));
        }
    }
    out.push_str(rest);
    Ok(out)
}

/// Splits a command into words, without their quotes.
fn words(s: &str) -> Result<Vec<String>, String> {
    let mut out = vec![];
    let mut cur = String::new();
    let (mut quoted, mut any) = (false, false);
    for c in s.chars() {
        match c {
            '"' => {
                quoted = !quoted;
                any = true;
            }
            ' ' | '\t' if !quoted => {
                if any {
                    out.push(std::mem::take(&mut cur));
                }
                any = false;
            }
            c => {
                cur.push(c);
                any = true;
            }
        }
    }
    if quoted {
        return Err(format!("unbalanced quotes in {s:?}"));
    }
    if any {
        out.push(cur);
    }
    Ok(out)
}

/// Runs a cmd shim. Paths are the real ones, with backslashes.
fn run_cmd(text: &str, dir: &Path, env: &BTreeMap<String, String>) -> Result<Ran, String> {
    if text.replace("\r\n", "").contains(['\n', '\r']) {
        return Err("mixed line ends".into());
    }
    let lines: Vec<&str> = text.split("\r\n").collect();
    let dp0 = format!("{}\\", dir.display().to_string().replace('/', "\\"));
    let label = |name: &str| {
        lines
            .iter()
            .position(|l| l.trim().eq_ignore_ascii_case(&format!(":{name}")))
            .ok_or_else(|| format!("no label {name}"))
    };
    let mut env = env.clone();
    let mut saved: Option<BTreeMap<String, String>> = None;
    let mut ret: Vec<usize> = vec![];
    let mut pc = 0;
    let mut steps = 0;
    while pc < lines.len() {
        steps += 1;
        if steps > 200 {
            return Err("does not end".into());
        }
        let raw = lines[pc].trim();
        pc += 1;
        if raw.is_empty() || raw.starts_with(':') {
            continue;
        }
        let upper = raw.to_uppercase();
        if let Some(rest) = upper.strip_prefix("IF EXIST ") {
            // IF EXIST "x" ( / lines / ) ELSE ( / lines / )
            let cond = raw[raw.len() - rest.len()..].trim_end().strip_suffix('(').ok_or("if without block")?.trim();
            let cond = cmd_expand(cond, &env, &dp0)?;
            let cond = words(&cond)?;
            if cond.len() != 1 {
                return Err(format!("condition {cond:?}"));
            }
            let there = Path::new(&cond[0].replace('\\', "/")).exists();
            let find = |from: usize, what: &str| {
                (from..lines.len())
                    .find(|i| lines[*i].trim().to_uppercase() == what)
                    .ok_or_else(|| format!("no {what}"))
            };
            let els = find(pc, ") ELSE (")?;
            let end = find(els, ")")?;
            let (a, b) = if there { (pc, els) } else { (els + 1, end) };
            // A block is expanded before any of it is run.
            let block: Result<Vec<String>, String> = lines[a..b].iter().map(|l| cmd_expand(l.trim(), &env, &dp0)).collect();
            for l in block? {
                set(&l, &mut env)?;
            }
            pc = end + 1;
            continue;
        }
        let line = cmd_expand(raw.trim_start_matches('@'), &env, &dp0)?;
        let up = line.to_uppercase();
        if up == "ECHO OFF" {
        } else if let Some(l) = up.strip_prefix("GOTO ") {
            pc = label(l)?;
        } else if up.starts_with("SET ") {
            set(&line, &mut env)?;
        } else if up == "EXIT /B" {
            match ret.pop() {
                Some(p) => pc = p,
                None => return Err("ends without running anything".into()),
            }
        } else if up == "SETLOCAL" {
            saved = Some(env.clone());
        } else if let Some(l) = up.strip_prefix("CALL :") {
            ret.push(pc);
            pc = label(l)?;
        } else {
            let mut cmds: Vec<&str> = line.split(" & ").collect();
            let last = cmds.pop().unwrap();
            let seen = env.clone();
            for c in cmds {
                let c = c.trim().to_uppercase();
                if c == "ENDLOCAL" {
                    env = saved.take().ok_or("endlocal without setlocal")?;
                } else if !(c.starts_with("GOTO #_UNDEFINED_# 2>NUL || TITLE ")) {
                    return Err(format!("command {c:?}"));
                }
            }
            let mut w = words(last)?;
            if lines[pc..].iter().any(|l| !l.trim().is_empty()) {
                return Err("more after the command".into());
            }
            if w.is_empty() {
                return Err("no command".into());
            }
            let rest = w.last().map(String::as_str) == Some("\u{1}");
            if rest {
                w.pop();
            }
            let prog = w.remove(0);
            // What the program would get, but for the final endlocal.
            return Ok(Ran { prog, args: w, env: seen, rest, status: true });
        }
    }
    Err("runs nothing".into())
}

fn set(line: &str, env: &mut BTreeMap<String, String>) -> Result<(), String> {
    let l = line.trim_start_matches('@');
    if !l.to_uppercase().starts_with("SET ") {
        return Err(format!("command {l:?}"));
    }
    let l = l[4..].trim_start();
    let l = l.strip_prefix('"').map_or(Some(l), |l| l.strip_suffix('"')).ok_or("quotes")?;
    let (k, v) = l.split_once('=').ok_or_else(|| format!("set {l:?}"))?;
    env.insert(k.to_uppercase(), v.to_string());
    Ok(())
}

// ---------------------------------------------------------------- PowerShell

fn ps_string(s: &str, vars: &BTreeMap<String, String>, env: &BTreeMap<String, String>) -> Result<String, String> {
    let mut out = String::new();
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < c.len() {
        match c[i] {
            '`' => {
                i += 1;
                out.push(*c.get(i).ok_or("` at end")?);
                i += 1;
            }
            '$' if c.get(i + 1) == Some(&'{') => {
                let end = (i..c.len()).find(|j| c[*j] == '}').ok_or("${ without }")?;
                let name: String = c[i + 2..end].iter().collect();
                out.push_str(&ps_var(&name, vars, env)?);
                i = end + 1;
            }
            '$' => {
                let mut end = i + 1;
                while end < c.len() && (c[end].is_alphanumeric() || c[end] == '_') {
                    end += 1;
                }
                let name: String = c[i + 1..end].iter().collect();
                out.push_str(&ps_var(&name, vars, env)?);
                i = end;
            }
            x => {
                out.push(x);
                i += 1;
            }
        }
    }
    Ok(out)
}

fn ps_var(name: &str, vars: &BTreeMap<String, String>, env: &BTreeMap<String, String>) -> Result<String, String> {
    if let Some(n) = name.strip_prefix("env:") {
        return Ok(env.get(n).cloned().unwrap_or_default());
    }
    vars.get(name).cloned().ok_or_else(|| format!("variable {name:?} is not set"))
}

/// Words of a command: quoted strings (with anything right after them), bare
/// words, and $args, which becomes \u{1}.
fn ps_words(s: &str, vars: &BTreeMap<String, String>, env: &BTreeMap<String, String>) -> Result<Vec<String>, String> {
    let c: Vec<char> = s.chars().collect();
    let mut out = vec![];
    let mut i = 0;
    while i < c.len() {
        if c[i].is_whitespace() {
            i += 1;
            continue;
        }
        let mut word = String::new();
        while i < c.len() && !c[i].is_whitespace() {
            if c[i] == '"' {
                let mut j = i + 1;
                while j < c.len() && c[j] != '"' {
                    j += if c[j] == '`' { 2 } else { 1 };
                }
                if j >= c.len() {
                    return Err(format!("unbalanced quotes in {s:?}"));
                }
                let inner: String = c[i + 1..j].iter().collect();
                word.push_str(&ps_string(&inner, vars, env)?);
                i = j + 1;
            } else if c[i] == '$' {
                let mut j = i + 1;
                while j < c.len() && (c[j].is_alphanumeric() || c[j] == '_') {
                    j += 1;
                }
                let name: String = c[i + 1..j].iter().collect();
                if name == "args" {
                    word.push('\u{1}');
                } else {
                    word.push_str(&ps_var(&name, vars, env)?);
                }
                i = j;
            } else {
                word.push(c[i]);
                i += 1;
            }
        }
        out.push(word);
    }
    Ok(out)
}

fn run_ps1(text: &str, dir: &Path, env: &BTreeMap<String, String>, piped: bool, windows: bool) -> Result<Ran, String> {
    let mut env = env.clone();
    let mut vars: BTreeMap<String, String> = BTreeMap::new();
    let mut ran: Option<Ran> = None;
    let mut exit = false;
    // Whether each enclosing block is being run.
    let mut blocks: Vec<bool> = vec![];
    for raw in text.lines() {
        let line = raw.trim();
        if line.is_empty() || line.starts_with('#') {
            continue;
        }
        let active = blocks.iter().all(|b| *b);
        if line == "}" {
            blocks.pop().ok_or("unbalanced }")?;
            continue;
        }
        if line == "} else {" {
            let last = blocks.last_mut().ok_or("unbalanced }")?;
            *last = !*last;
            continue;
        }
        if let Some(cond) = line.strip_prefix("if (").and_then(|l| l.strip_suffix(") {")) {
            let v = if !active {
                false
            } else if cond == "$PSVersionTable.PSVersion -lt \"6.0\" -or $IsWindows" {
                windows
            } else if cond == "$MyInvocation.ExpectingInput" {
                piped
            } else if let Some(p) = cond.strip_prefix("Test-Path ") {
                let w = ps_words(p, &vars, &env)?;
                if w.len() != 1 {
                    return Err(format!("Test-Path {w:?}"));
                }
                Path::new(&w[0]).exists()
            } else {
                return Err(format!("condition {cond:?}"));
            };
            blocks.push(v);
            continue;
        }
        if !active {
            continue;
        }
        if exit {
            return Err("statements after exit".into());
        }
        if let Some(code) = line.strip_prefix("exit ") {
            exit = true;
            let ok = code == "$LASTEXITCODE" || vars.get(code.trim_start_matches('$')).map(String::as_str) == Some("<status>");
            if let Some(r) = &mut ran {
                r.status = ok;
            }
        } else if let Some(cmd) = line.strip_prefix("& ").or_else(|| line.strip_prefix("$input | & ")) {
            if line.starts_with('$') != piped {
                return Err("input is not passed on".into());
            }
            if ran.is_some() {
                return Err("runs twice".into());
            }
            let mut w = ps_words(cmd, &vars, &env)?;
            let rest = w.last().map(String::as_str) == Some("\u{1}");
            if rest {
                w.pop();
            }
            if w.is_empty() {
                return Err("no command".into());
            }
            let prog = w.remove(0);
            ran = Some(Ran { prog, args: w, env: env.clone(), rest, status: false });
        } else if let Some((l, r)) = line.split_once('=') {
            let name = l.strip_prefix('$').ok_or("assignment")?;
            let val = if r == "$LASTEXITCODE" {
                if ran.is_none() {
                    return Err("status of nothing".into());
                }
                "<status>".into()
            } else if r == "Split-Path $MyInvocation.MyCommand.Definition -Parent" {
                dir.display().to_string()
            } else if r.starts_with('"') {
                let w = ps_words(r, &vars, &env)?;
                if w.len() != 1 {
                    return Err(format!("value {r:?}"));
                }
                w[0].clone()
            } else if r.chars().all(|c| c.is_ascii_digit()) {
                r.to_string()
            } else {
                return Err(format!("value {r:?}"));
            };
            match name.strip_prefix("env:") {
                Some(n) => {
                    env.insert(n.to_string(), val);
                }
                None => {
                    vars.insert(name.to_string(), val);
                }
            }
        } else {
            return Err(format!("statement {line:?}"));
        }
    }
    if !blocks.is_empty() {
        return Err("unbalanced {".into());
    }
    if !exit {
        return Err("the status is not passed on".into());
    }
    ran.ok_or_else(|| "runs nothing".into())
}

// ---------------------------------------------------------------- the check

fn io<T>(r: std::io::Result<T>) -> Result<T, Stop> {
    r.or_else(|e| infra(e.to_string()))
}

fn with_ext(p: &Path, ext: &str) -> PathBuf {
    let mut s = p.as_os_str().to_owned();
    s.push(ext);
    PathBuf::from(s)
}

fn h01(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let scratch = ctx.scratch();
    let script = gen_script(src, &scratch);
    ctx.nontrivial = script.prog.is_some();
    let comp = |src: &mut Src| -> String {
        let n: String = src.pick(&["pkg", "@scope", "dist", "my dir", "a&b", "it's", "(x)", "ünï", "a.b", "lib-1.0", "bin"]).to_string();
        n
    };
    let mut top = scratch.join("w");
    for _ in 0..src.below(3) {
        top.push(comp(src));
    }
    let mut file = top.clone();
    for _ in 0..src.range(0, 3) {
        file.push(comp(src));
    }
    file.push(src.pick(&["cli.js", "run", "x.y.z", "tool.cmd", "cli one.js", "main.exe", "index.mjs"]));
    let mut bin = top.clone();
    for _ in 0..src.range(1, 2) {
        bin.push(src.pick(&["node_modules", ".bin", "bins", "b in"]));
    }
    let name = src.pick(&["tool", "tool.js", "a.b.c", "my-tool", "x_1", "tool.cmd2", "v1.0"]).to_string();
    let to = bin.join(&name);
    io(std::fs::create_dir_all(file.parent().unwrap()))?;
    io(std::fs::create_dir_all(&bin))?;
    if file == to {
        return Err(Stop::Skip("the shim would replace the script"));
    }
    io(std::fs::write(&file, &script.text))?;
    // Scripts that need an interpreter can't be run by themselves.
    let mode = if script.prog.is_some() { 0o644 } else { 0o755 };
    io(std::fs::set_permissions(&file, std::fs::Permissions::from_mode(mode)))?;
    settle(&file);

    // Other people's shims, and things left where this one's going to be.
    let neighbour = bin.join(src.pick(&["tool.ts", "a.b.d", "a.b", "other", "v1"]));
    if neighbour != to && neighbour != file {
        match cut(|| oro_shim_bin::shim_bin(&file, &neighbour)) {
            Ok(r) => io(r)?,
            Err(p) => return fail("panic", p),
        }
    }
    let outside = scratch.join("outside");
    io(std::fs::create_dir_all(&outside))?;
    io(std::fs::write(outside.join("f"), "precious"))?;
    let mut left = vec![];
    for p in [to.clone(), with_ext(&to, ".cmd"), with_ext(&to, ".ps1")] {
        if p == file {
            return Err(Stop::Skip("the shim would replace the script"));
        }
        let k = src.below(8);
        match k {
            0 => io(std::fs::write(&p, "old"))?,
            1 => io(std::fs::create_dir_all(p.join("sub")))?,
            2 => io(std::os::unix::fs::symlink(outside.join("f"), &p))?,
            3 => io(std::os::unix::fs::symlink(&outside, &p))?,
            4 => io(std::os::unix::fs::symlink(outside.join("missing"), &p))?,
            _ => continue,
        }
        left.push(k);
    }
    let list = |d: &Path| -> BTreeMap<String, Vec<u8>> {
        std::fs::read_dir(d)
            .map(|r| {
                r.flatten()
                    .map(|e| (e.file_name().to_string_lossy().into_owned(), std::fs::read(e.path()).unwrap_or_default()))
                    .collect()
            })
            .unwrap_or_default()
    };
    let before = list(&bin);
    ctx.note(format!("{} at {} for {}; left {left:?}", script.desc, to.display(), file.display()));
    if !left.is_empty() {
        ctx.label("replaces something");
    }
    if !script.vars.is_empty() {
        ctx.label("variables");
    }
    let shim = |what: &str| match cut(|| oro_shim_bin::shim_bin(&file, &to)) {
        Ok(Ok(())) => Ok(()),
        Ok(Err(e)) => fail("error", format!("{what}: {e}")),
        Err(p) => fail("panic", p),
    };
    shim("first time")?;

    // Just the three shims, and nothing else.
    let mine: Vec<String> = ["", ".cmd", ".ps1"].iter().map(|e| format!("{name}{e}")).collect();
    let after = list(&bin);
    for (n, data) in &before {
        ensure!(mine.contains(n) || after.get(n) == Some(data), "others", "{n} in the same folder changed");
    }
    for n in after.keys() {
        ensure!(mine.contains(n) || before.contains_key(n), "others", "unexpected file {n}");
    }
    for n in &mine {
        let p = bin.join(n);
        ensure!(p.symlink_metadata().map_or(false, |m| m.is_file()), "missing-shim", "no shim at {n}");
    }
    ensure!(
        list(&outside) == BTreeMap::from([("f".to_string(), b"precious".to_vec())]),
        "outside",
        "files outside changed: {:?}",
        list(&outside).keys()
    );
    ensure!(std::fs::read(&file).ok().as_ref() == Some(&script.text), "script-changed", "the script itself changed");
    shim("second time")?;
    ensure!(list(&bin) == after, "not-stable", "generating the shims again changed them");

    // Interpreters.
    let local = src.chance(1, 3);
    let pathbin = scratch.join("pathbin");
    for p in ["node", "python3", "my-interp", "deno2", "ruby"] {
        io(write_exec(&pathbin.join(p), &format!("#!/bin/sh\n{}", RECORD.replace("@WHO@", "path"))))?;
    }
    let mut has_local = false;
    if let (true, Some(p)) = (local, &script.prog) {
        if !p.contains('/') && !mine.contains(p) {
            has_local = true;
            io(write_exec(&bin.join(p), &format!("#!/bin/sh\n{}", RECORD.replace("@WHO@", "local"))))?;
            io(write_exec(&bin.join(format!("{p}.exe")), "x"))?;
        }
    }
    ctx.label(match (&script.prog, has_local) {
        (None, _) => "no shebang",
        (_, true) => "interpreter next to the shim",
        _ => "interpreter elsewhere",
    });
    let env0: BTreeMap<String, String> = ENV.iter().filter(|(_, v)| !v.is_empty()).map(|(k, v)| (k.to_string(), v.to_string())).collect();
    let mut env1 = env0.clone();
    for (k, parts) in &script.vars {
        // env sets all of them at once, but shells and shims go one by one.
        let v: String = parts
            .iter()
            .map(|(var, s)| if *var { env1.get(s).cloned().unwrap_or_default() } else { s.clone() })
            .collect();
        env1.insert(k.clone(), v);
    }
    let refs_own = script.vars.iter().enumerate().any(|(i, (_, parts))| {
        parts.iter().any(|(var, s)| *var && script.vars[..i].iter().any(|(k, _)| k == s))
    });
    if refs_own {
        return Err(Stop::Skip("variables that refer to each other"));
    }
    let want_env: Vec<String> = script.vars.iter().map(|(k, _)| k.clone()).collect();
    let target = norm(&file.to_string_lossy());
    let mut uargs: Vec<String> = vec![];
    for _ in 0..src.below(4) {
        uargs.push(src.pick(&["a", "", "two words", "*", "$HOME", "\"q\"", "it's", "--x=1", "日本", "\\", "`id`", "-n"]).to_string());
    }
    let status = *src.pick(&[0, 0, 1, 3, 77, 255]);

    // sh
    let sh = String::from_utf8_lossy(&after[&name]).into_owned();
    let mut fixed_sh = sh.replacen("basedir = $(", "basedir=$(", 1);
    if !script.vars.is_empty() {
        fixed_sh = fixed_sh.replace("  exec ", "  exec env ");
    }
    io(std::fs::write(&to, fixed_sh))?;
    let rec = scratch.join("rec");
    let _ = std::fs::remove_file(&rec);
    let relative = src.bool();
    let mut cmd = Command::new("/bin/sh");
    if relative {
        cmd.current_dir(bin.parent().unwrap());
        cmd.arg(Path::new(".").join(bin.file_name().unwrap()).join(&name));
    } else {
        cmd.current_dir(&scratch).arg(&to);
    }
    cmd.args(&uargs).env_clear().envs(&env0);
    cmd.env("PATH", format!("{}:/usr/bin:/bin", pathbin.display())).env("REC", &rec).env("WANT", status.to_string());
    let out = io(cmd.output())?;
    let got = std::fs::read(&rec).unwrap_or_default();
    let got: Vec<String> = got.split(|b| *b == 0).map(|s| String::from_utf8_lossy(s).into_owned()).collect();
    let err = String::from_utf8_lossy(&out.stderr).into_owned();
    ensure!(got.len() > 6, "sh-runs-nothing", "{:?} said {err}\n{sh}", out.status);
    let who = match (&script.prog, has_local) {
        (None, _) => "target",
        (_, true) => "local",
        _ => "path",
    };
    ensure!(got[0] == who, "sh-interpreter", "ran {} rather than {who}\n{sh}", got[0]);
    if let Some(p) = &script.prog {
        let base = Path::new(&got[1]).file_name().map(|f| f.to_string_lossy().into_owned());
        ensure!(base.as_deref() == p.rsplit('/').next(), "sh-interpreter", "ran {} rather than {p}\n{sh}", got[1]);
    }
    for k in &want_env {
        let want = format!("{k}={}", env1[k]);
        ensure!(got[2..6].contains(&want), "sh-variables", "wanted {want}, got {:?}\n{sh}", &got[2..6]);
    }
    let mut args: Vec<String> = got[6..got.len() - 1].to_vec();
    let mut want = script.args.clone();
    if script.prog.is_some() {
        let i = want.len();
        if args.len() > i {
            let full = if relative { bin.parent().unwrap().join(&args[i]) } else { PathBuf::from(&args[i]) };
            args[i] = norm(&full.to_string_lossy());
        }
        want.push(target.clone());
    } else {
        let full = if relative { bin.parent().unwrap().join(&got[1]) } else { PathBuf::from(&got[1]) };
        ensure!(norm(&full.to_string_lossy()) == target, "sh-target", "ran {}\n{sh}", got[1]);
    }
    want.extend(uargs.clone());
    ensure!(args == want, "sh-arguments", "wanted {want:?}, got {args:?}\n{sh}");
    ensure!(out.status.code() == Some(status), "sh-status", "status {status} became {:?}: {err}", out.status);

    // cmd
    let cmd = String::from_utf8_lossy(&after[&mine[1]]).into_owned();
    let mut cenv = env0.clone();
    cenv.insert("PATHEXT".into(), ".COM;.EXE;.JS;.CMD".into());
    cenv.insert("COMSPEC".into(), "cmd.exe".into());
    let ran = run_cmd(&cmd, &bin, &cenv).or_else(|e| fail("cmd-shim", format!("{e}\n{cmd}")))?;
    let unix = |s: &str| norm(&s.replace('\\', "/"));
    check_ran("cmd", &cmd, &ran, &script, has_local.then(|| bin.join(format!("{}.exe", script.prog.as_deref().unwrap_or("")))), &target, &env1, unix, "")?;

    // PowerShell
    let ps = String::from_utf8_lossy(&after[&mine[2]]).into_owned();
    let (piped, windows) = (src.bool(), src.chance(2, 3));
    let ran = run_ps1(&ps, &bin, &env0, piped, windows).or_else(|e| fail("ps1-shim", format!("{e}\n{ps}")))?;
    let exe = if windows { ".exe" } else { "" };
    check_ran("ps1", &ps, &ran, &script, has_local.then(|| bin.join(format!("{}{exe}", script.prog.as_deref().unwrap_or("")))), &target, &env1, |s| norm(s), exe)?;
    Ok(())
}

#[allow(clippy::too_many_arguments)]
fn check_ran(
    kind: &str,
    text: &str,
    ran: &Ran,
    script: &Script,
    local: Option<PathBuf>,
    target: &str,
    env: &BTreeMap<String, String>,
    path: impl Fn(&str) -> String,
    exe: &str,
) -> CaseResult {
    let mut args = ran.args.clone();
    let mut want = script.args.clone();
    match &script.prog {
        None => ensure!(path(&ran.prog) == target, format!("{kind}-target"), "runs {}\n{text}", ran.prog),
        Some(p) => {
            let ok = match &local {
                Some(l) => path(&ran.prog) == norm(&l.to_string_lossy()),
                None => ran.prog == format!("{p}{exe}"),
            };
            ensure!(ok, format!("{kind}-interpreter"), "runs {} rather than {p} ({local:?})\n{text}", ran.prog);
            let i = want.len();
            if args.len() > i {
                args[i] = path(&args[i]);
            }
            want.push(target.to_string());
        }
    }
    ensure!(args == want, format!("{kind}-arguments"), "wanted {want:?}, got {args:?}\n{text}");
    ensure!(ran.rest, format!("{kind}-arguments"), "arguments aren't passed on\n{text}");
    ensure!(ran.status, format!("{kind}-status"), "the status isn't passed on\n{text}");
    for (k, _) in &script.vars {
        ensure!(
            ran.env.get(k) == env.get(k),
            format!("{kind}-variables"),
            "{k} is {:?} rather than {:?}\n{text}",
            ran.env.get(k),
            env.get(k)
        );
    }
    Ok(())
}

// Probes of the known findings, which the snapshot tests of the shims keep
// from being repaired.

fn made(ctx: &mut Ctx, shebang: &str) -> Result<(PathBuf, PathBuf), Stop> {
    let scratch = ctx.scratch();
    let file = scratch.join("cli.js");
    let to = scratch.join("bin").join("tool");
    io(std::fs::create_dir_all(scratch.join("bin")))?;
    io(std::fs::write(&file, format!("{shebang}\n")))?;
    io(oro_shim_bin::shim_bin(&file, &to))?;
    io(write_exec(&scratch.join("bin/myprog"), &format!("#!/bin/sh\n{}", RECORD.replace("@WHO@", "local"))))?;
    Ok((scratch, to))
}

fn run_sh(scratch: &Path, to: &Path) -> Result<std::process::Output, Stop> {
    io(Command::new("/bin/sh").arg(to).env("REC", scratch.join("rec")).env("WANT", "0").current_dir(scratch).output())
}

fn sh_syntax(ctx: &mut Ctx) -> CaseResult {
    let (scratch, to) = made(ctx, "#!/usr/bin/env myprog")?;
    let out = run_sh(&scratch, &to)?;
    ensure!(out.status.success(), "sh-shim-syntax", "{}", String::from_utf8_lossy(&out.stderr));
    Ok(())
}

fn sh_variables(ctx: &mut Ctx) -> CaseResult {
    let (scratch, to) = made(ctx, "#!/usr/bin/env A=1 myprog")?;
    let sh = io(std::fs::read_to_string(&to))?;
    io(std::fs::write(&to, sh.replacen("basedir = $(", "basedir=$(", 1)))?;
    let out = run_sh(&scratch, &to)?;
    ensure!(out.status.success(), "sh-shim-variables", "{}", String::from_utf8_lossy(&out.stderr));
    Ok(())
}

fn cmd_variables(ctx: &mut Ctx) -> CaseResult {
    let (_, to) = made(ctx, "#!/usr/bin/env A=1 myprog")?;
    let cmd = io(std::fs::read_to_string(with_ext(&to, ".cmd")))?;
    let last = cmd.lines().last().unwrap_or("").to_lowercase();
    ensure!(
        !last.starts_with("endlocal &") || cmd.find("@SET A=1") < cmd.find("SETLOCAL"),
        "cmd-shim-variables",
        "variables set after SETLOCAL are gone after endLocal"
    );
    Ok(())
}

use crate::ensure;
use crate::engine::*;
use crate::gen::*;
use crate::proj::*;
use crate::registry::*;
use crate::tree::*;
use serde_json::json;

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "R01",
        rule: "random registries and manifests applied under shuffled response orders; non-trivial: >= 3 packages installed and >= 2 requests were held at once",
        level: "exploration",
        quick: 900,
        thorough: 6000,
        threads: 8,
        shrink: 120,
        case: r01,
        fixed: vec![("case-twins", r01_twins), ("nesting-cycle", r01_cycle)],
        assumptions: vec![],
    }]
}

fn r01(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let o = RegOpts {
        tags_as_specs: true,
        prerelease: src.chance(1, 4),
        ..Default::default()
    };
    let reg = gen_registry(src, &o);
    let mani = gen_mani(src, &reg, &o, 5);
    let hoisted = src.bool();
    let conc = *src.pick(&["1", "2", "4", "50"]);
    let order = src.u64();
    ctx.note(format!("manifest {}", mani.json()));
    ctx.note(describe_registry(&reg));
    ctx.note(format!("hoisted={hoisted} concurrency={conc} order={order:x}"));
    let srv = Server::start(reg.clone());
    srv.set_order(Some(order));
    let p = Proj::new(&ctx.scratch(), &srv.base);
    p.write_manifest(&mani.json());
    let mut args = vec!["apply", "--concurrency", conc];
    if hoisted {
        args.push("--hoisted");
    }
    let _out = p.run_ok(&args, Some(&srv), "apply-failed")?;
    srv.set_order(None);
    let seen = check_tree(&p.dir, &reg, &mani)?;
    ctx.nontrivial = seen.len() >= 3 && srv.max_waiting() >= 2;
    ctx.label(if hoisted { "hoisted" } else { "isolated" });
    Ok(())
}

fn tiny(pkgs: &[(&str, &str, &[(&str, &str)])]) -> Registry {
    let mut reg = Registry::default();
    for (n, v, deps) in pkgs {
        let mut ver = Ver {
            deps: deps.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect(),
            ..Default::default()
        };
        ver.seal(n, v);
        let p = reg.pkgs.entry(n.to_string()).or_default();
        p.tags.insert("latest".into(), v.to_string());
        p.versions.insert(v.to_string(), ver);
    }
    reg
}

/// One dependent needs two packages whose names differ only by case.
fn r01_twins(ctx: &mut Ctx) -> CaseResult {
    let srv = Server::start(tiny(&[("JSONStream", "1.0.0", &[]), ("jsonstream", "1.0.0", &[])]));
    let p = Proj::new(&ctx.scratch(), &srv.base);
    p.write_manifest(&json!({"dependencies": {"JSONStream": "1.0.0", "jsonstream": "1.0.0"}}));
    p.run_ok(&["apply", "--hoisted"], Some(&srv), "twins-failed")?;
    for n in ["JSONStream", "jsonstream"] {
        ensure!(
            p.dir.join("node_modules").join(n).join("package.json").exists(),
            "case-twins",
            "{n} isn't installed"
        );
    }
    Ok(())
}

/// No finite tree without links gives each of these what it needs.
fn r01_cycle(ctx: &mut Ctx) -> CaseResult {
    let srv = Server::start(tiny(&[
        ("a", "1.0.0", &[("b", "1.0.0")]),
        ("b", "1.0.0", &[("a", "2.0.0")]),
        ("a", "2.0.0", &[("b", "2.0.0")]),
        ("b", "2.0.0", &[("a", "1.0.0")]),
    ]));
    let p = Proj::new(&ctx.scratch(), &srv.base);
    p.write_manifest(&json!({"dependencies": {"a": "1.0.0"}}));
    let out = run_limited(p.command(&["apply", "--lockfile-only"]), Some(&srv), 8)?;
    ensure!(!out.deadlock && !out.panicked(), "nesting-cycle", "apply doesn't end: {}", out.tail());
    Ok(())
}

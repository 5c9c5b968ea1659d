mod blast;
mod exec;
mod expr;
mod ir;
mod sat;
mod z3;
use std::collections::BTreeSet;
use std::fmt::Write;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn list(v: impl IntoIterator<Item = String>) -> String {
    format!("[{}]", v.into_iter().collect::<Vec<_>>().join(","))
}
fn nums(v: &[u128]) -> String {
    list(v.iter().map(|x| format!("\"{x}\"")))
}

/// Resolve a debug location to the enclosing subprogram: (file, name)
fn resolve(m: &ir::Module, id: u32, cache: &mut std::collections::HashMap<u32, Option<(String, String)>>) -> Option<(String, String)> {
    if let Some(r) = cache.get(&id) {
        return r.clone();
    }
    cache.insert(id, None);
    let l = m.line(*m.md.get(&id)?);
    let field = |k: &str| -> Option<u32> {
        let p = l.find(&format!("{k}: !"))?;
        let r = &l[p + k.len() + 3..];
        let e = r.find(|c: char| !c.is_ascii_digit()).unwrap_or(r.len());
        r[..e].parse().ok()
    };
    let text = |l: &str, k: &str| -> Option<String> {
        let p = l.find(&format!("{k}: \""))?;
        let r = &l[p + k.len() + 3..];
        Some(r[..r.find('"')?].to_string())
    };
    let r = if l.contains("DISubprogram(") {
        let file = field("file").and_then(|f| m.md.get(&f)).map(|&li| m.line(li)).map(|fl| {
            let n = text(fl, "filename").unwrap_or_default();
            let d = text(fl, "directory").unwrap_or_default();
            if n.starts_with('/') || d.is_empty() {
                n
            } else {
                format!("{d}/{n}")
            }
        });
        Some((file.unwrap_or_default(), text(l, "name").unwrap_or_default()))
    } else {
        field("scope").and_then(|s| resolve(m, s, cache))
    };
    cache.insert(id, r.clone());
    r
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let opt = |k: &str, d: &str| -> String { a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned().unwrap_or(d.to_string()) };
    let m = ir::Module::load(&a[1]);
    if a.iter().any(|x| x == "--list") {
        let mut v: Vec<_> = m.fns.iter().filter(|(n, f)| n.starts_with("h_") && f.body.is_some()).map(|(n, _)| n.clone()).collect();
        v.extend(m.aliases.keys().filter(|n| n.starts_with("h_")).cloned());
        v.sort();
        for n in v {
            println!("{n}");
        }
        return;
    }
    let harness = opt("--harness", "");
    let mut z = z3::Z3::new(&opt("--solver", "bv"), opt("--query-rlimit", if opt("--engine", "cdcl") == "z3" { "2000000000" } else { "300000" }).parse().unwrap());
    let dump = opt("--dump", "");
    if !dump.is_empty() {
        std::fs::create_dir_all(&dump).unwrap();
        z.dump = Some(dump.into());
        z.dump_every = opt("--dump-every", "1").parse().unwrap();
    }
    let t0 = std::time::Instant::now();
    let lim = exec::Limits {
        max_steps: opt("--max-steps", "3000000").parse().unwrap(),
        max_depth: opt("--max-depth", "200").parse().unwrap(),
        max_paths: opt("--max-paths", "2000000").parse().unwrap(),
        deadline: exec::deadline(opt("--timeout", "600").parse().unwrap()),
        max_violations: opt("--max-violations", "1").parse().unwrap(),
        samples: opt("--samples", "8").parse().unwrap(),
    };
    let mut e = exec::Engine::new(m, z, lim, opt("--seed", "1").parse().unwrap_or(1));
    e.only_z3 = opt("--engine", "cdcl") == "z3";
    e.xcheck.batch = opt("--xcheck", "8").parse().unwrap();
    e.xfeas.batch = opt("--xfeas", "8").parse().unwrap();
    e.fork_select = a.iter().any(|x| x == "--fork-select");
    e.easy = opt("--easy", "8").parse().unwrap();
    e.trace = a.iter().any(|x| x == "--trace");
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| e.run(&harness)));
    let error = match r {
        Ok(Ok(())) => String::new(),
        Ok(Err(s)) => s,
        Err(p) => format!("engine panic: {}", p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()),
    };
    if a.iter().any(|x| x == "--stats") {
        eprintln!("conflicts {} propagations {} vars {} rebuilds {}", e.b.sat.conflicts, e.b.sat.propagations, e.b.sat.nvars(), e.b.rebuilds);
    }
    let mut cache = std::collections::HashMap::new();
    let mut repo_fns = BTreeSet::new();
    let mut other = BTreeSet::new();
    for &d in &e.seen_dbg {
        if let Some((f, n)) = resolve(&e.m, d, &mut cache) {
            if f.starts_with("/repo/") {
                repo_fns.insert(format!("{}::{}", &f["/repo/".len()..], n));
            } else if f.contains("/library/") {
                other.insert(format!("{}::{}", &f[f.find("/library/").unwrap() + 9..], n));
            }
        }
    }
    let viol = list(e.violations.iter().map(|v| format!("{{\"kind\":{},\"id\":{},\"inputs\":{},\"place\":{}}}", js(&v.kind), v.id, nums(&v.inputs), js(&v.place))));
    let samples = list(e.samples.iter().map(|s| format!("{{\"inputs\":{},\"observes\":{},\"outcome\":{}}}", nums(&s.inputs), nums(&s.observes), js(s.outcome))));
    println!(
        "{{\"harness\":{},\"error\":{},\"paths\":{},\"completed\":{},\"panics\":{},\"pruned\":{},\"forks\":{},\"steps\":{},\"max_path_steps\":{},\"max_frames\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"check_queries\":{},\"solver_ms\":{},\"wall_ms\":{},\"exprs\":{},\"crosschecked\":{},\"order_queries\":{},\"rewritten\":{},\"cached\":{},\"decided\":{},\"cross_unknown\":{},\"int_queries\":{},\"int_decided\":{},\"checks_hit\":{{{}}},\"violations\":{},\"samples\":{},\"ir_functions\":{},\"repo_functions\":{},\"std_functions\":{},\"solver\":{}}}",
        js(&harness),
        js(&error),
        e.paths,
        e.completed,
        e.panics,
        e.pruned,
        e.forks,
        e.steps,
        e.max_path_steps,
        e.max_frames,
        e.st.queries,
        e.st.sat,
        e.st.unsat,
        e.check_queries,
        e.st.solver_us / 1000,
        t0.elapsed().as_millis(),
        e.x.len(),
        e.st.crosschecked,
        e.b.order_queries,
        e.st.rewritten,
        e.st.cached,
        e.st.decided,
        e.st.cross_unknown,
        e.i.queries,
        e.st.int_decided,
        e.checks_hit.iter().map(|(k, v)| format!("\"{k}\":{v}")).collect::<Vec<_>>().join(","),
        viol,
        samples,
        e.seen_fns.len(),
        list(repo_fns.iter().map(|s| js(s))),
        other.len(),
        js(&z3::version()),
    );
}

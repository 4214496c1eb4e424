mod aig;
mod bdd;
mod exec;
mod ir;
mod mem;
mod val;

use aig::*;
use exec::*;
use std::fmt::Write as _;
use std::io::Write as _;
use std::time::Instant;

/// SMT-LIB of the cone of the given literals; returns (text, number of and-nodes)
fn smt_cone(g: &Aig, roots: &[Lit]) -> (String, usize, Vec<usize>) {
    let mut mark = vec![false; g.n_nodes()];
    let mut stack: Vec<usize> = roots.iter().map(|&l| node(l)).collect();
    while let Some(n) = stack.pop() {
        if mark[n] {
            continue;
        }
        mark[n] = true;
        if n != 0 && !g.is_input(n) {
            stack.push(node(g.ch[n].0));
            stack.push(node(g.ch[n].1));
        }
    }
    let mut s = String::new();
    let mut cnt = 0;
    let mut inputs = vec![];
    for n in 0..g.n_nodes() {
        if !mark[n] {
            continue;
        }
        if n == 0 {
            s.push_str("(define-fun n0 () Bool false)\n");
        } else if g.is_input(n) {
            let _ = writeln!(s, "(declare-const n{n} Bool)");
            inputs.push(n);
        } else {
            cnt += 1;
            let (a, b) = g.ch[n];
            let _ = writeln!(s, "(define-fun n{n} () Bool (and {} {}))", smt_lit(a), smt_lit(b));
        }
    }
    (s, cnt, inputs)
}
fn smt_lit(l: Lit) -> String {
    if l & 1 == 1 {
        format!("(not n{})", node(l))
    } else {
        format!("n{}", node(l))
    }
}

struct Solver {
    cmd: Vec<String>,
    time: f64,
    queries: u64,
    timeout: u64,
}
enum Ans {
    Sat(Vec<bool>),
    Unsat,
    Unknown(String),
}
impl Solver {
    fn query(&mut self, g: &Aig, dir: &str, tag: &str, disj: &[Lit]) -> Ans {
        self.queries += 1;
        let t = Instant::now();
        let (cone, _, inputs) = smt_cone(g, disj);
        let mut s = String::from("(set-option :produce-models true)\n(set-logic QF_FD)\n");
        s.push_str(&cone);
        s.push_str("(assert (or");
        for &l in disj {
            s.push(' ');
            s.push_str(&smt_lit(l));
        }
        s.push_str("))\n(check-sat)\n");
        if !inputs.is_empty() {
            s.push_str("(get-value (");
            for n in &inputs {
                let _ = write!(s, "n{n} ");
            }
            s.push_str("))\n");
        }
        let path = format!("{dir}/q_{tag}.smt2");
        std::fs::write(&path, &s).unwrap();
        let out = std::process::Command::new(&self.cmd[0])
            .args(&self.cmd[1..])
            .arg(format!("-T:{}", self.timeout))
            .arg(&path)
            .output()
            .expect("run solver");
        let _ = std::fs::remove_file(&path);
        self.time += t.elapsed().as_secs_f64();
        let o = String::from_utf8_lossy(&out.stdout).into_owned();
        let first = o.lines().next().unwrap_or("").trim().to_string();
        match first.as_str() {
            "unsat" => Ans::Unsat,
            "sat" => {
                let mut inp = vec![false; g.inputs.len()];
                let toks: Vec<String> = o
                    .replace('(', " ")
                    .replace(')', " ")
                    .split_whitespace()
                    .map(|x| x.to_string())
                    .collect();
                let mut i = 1;
                while i + 1 < toks.len() {
                    if let Some(n) = toks[i].strip_prefix('n').and_then(|x| x.parse::<usize>().ok()) {
                        if n < g.n_nodes() && g.is_input(n) && n != 0 {
                            inp[g.ch[n].1 as usize] = toks[i + 1] == "true";
                        }
                        i += 2;
                    } else {
                        i += 1;
                    }
                }
                Ans::Sat(inp)
            }
            _ => Ans::Unknown(o.chars().take(300).collect()),
        }
    }
}

/// A random satisfying assignment of `l` read off its BDD and checked by evaluating the AIG.
fn bdd_witness(g: &mut Aig, l: Lit, rng: &mut Rng) -> Option<Vec<bool>> {
    let e = g.edge(l);
    if e == bdd::NONE || l == F {
        return None;
    }
    let path = g.bdd.path(e, rng)?;
    let mut inp: Vec<bool> = (0..g.inputs.len()).map(|_| rng.below(2) == 1).collect();
    for (v, b) in path {
        inp[v as usize] = b;
    }
    let nv = g.eval_all(&inp);
    if nv[node(l)] ^ (l & 1 == 1) {
        Some(inp)
    } else {
        None
    }
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {}
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn inputs_json(ex: &Ex, nv: &[bool]) -> String {
    let mut s = String::from("{");
    for (k, y) in ex.syms.iter().enumerate() {
        let v = ex.vs.eval(y.val, nv).unwrap_or(0);
        if k > 0 {
            s.push(',');
        }
        let _ = write!(s, "\"{}\":{}", y.id, v);
    }
    s.push('}');
    s
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut ll = String::new();
    let mut entry = String::new();
    let mut cases = vec![];
    let mut out = String::new();
    let mut z3 = "z3".to_string();
    let mut timeout = 300u64;
    let mut limit = 0u64;
    let mut trace = false;
    let mut samples = 8usize;
    let mut prof = false;
    let mut lemma_time = 0f64;
    let mut budget = 3000u64;
    let mut allow_panic = false;
    let mut i = 1;
    while i < args.len() {
        let nx = || args[i + 1].clone();
        match args[i].as_str() {
            "--ll" => ll = nx(),
            "--entry" => entry = nx(),
            "--case" => cases = nx().split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect(),
            "--out" => out = nx(),
            "--solver" => z3 = nx(),
            "--timeout" => timeout = nx().parse().unwrap(),
            "--limit" => limit = nx().parse().unwrap(),
            "--samples" => samples = nx().parse().unwrap(),
            "--lemma-time" => lemma_time = nx().parse().unwrap(),
            "--budget" => budget = nx().parse().unwrap(),
            "--allow-panic" => {
                allow_panic = true;
                i += 1;
                continue;
            }
            "--trace" => {
                trace = true;
                i += 1;
                continue;
            }
            "--prof" => {
                prof = true;
                i += 1;
                continue;
            }
            x => panic!("bad argument {x}"),
        }
        i += 2;
    }
    let child = std::thread::Builder::new()
        .stack_size(2 << 30)
        .spawn(move || {
            run(ll, entry, cases, out, z3, timeout, limit, trace, samples, prof, lemma_time, budget, allow_panic)
        })
        .unwrap();
    match child.join() {
        Ok(code) => std::process::exit(code),
        Err(_) => std::process::exit(3),
    }
}

#[allow(clippy::too_many_arguments)]
fn run(
    ll: String,
    entry: String,
    cases: Vec<u64>,
    out: String,
    z3: String,
    timeout: u64,
    limit: u64,
    trace: bool,
    samples: usize,
    prof: bool,
    lemma_time: f64,
    budget: u64,
    allow_panic: bool,
) -> i32 {
    let t0 = Instant::now();
    let m = ir::Module::load(&ll);
    let t_load = t0.elapsed().as_secs_f64();
    let seed = 0x5eed ^ cases.iter().fold(1u64, |a, b| a.wrapping_mul(31).wrapping_add(*b));
    let mut ex = Ex::new(m, seed);
    ex.cases = cases.clone();
    ex.trace = trace;
    ex.vs.g.budget = budget;
    if limit > 0 {
        ex.deadline = Some(Instant::now() + std::time::Duration::from_secs(limit));
        ex.grace = std::time::Duration::from_secs(limit / 8 + 2);
    }
    let t1 = Instant::now();
    let finished = ex.run_entry(&entry) && ex.cuts.is_empty();
    let t_exec = t1.elapsed().as_secs_f64();
    if prof {
        let mut v: Vec<_> = ex.prof.iter().collect();
        v.sort_by(|a, b| b.1 .0.partial_cmp(&a.1 .0).unwrap());
        for (g, (t, n)) in v.into_iter().take(25) {
            eprintln!("PROF {t:8.2}s {n:7} {}", short(&ex.m.globals[*g as usize].name));
        }
    }
    let dir = std::env::temp_dir().join(format!("symir_{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let dirs = dir.to_string_lossy().into_owned();
    let mut sv = Solver { cmd: vec![z3], time: 0.0, queries: 0, timeout };
    let mut j = String::new();
    let mut viols: Vec<String> = vec![];
    let mut inconclusive: Vec<String> = vec![];
    let mut checks_json: Vec<String> = vec![];
    let ids: Vec<u32> = ex.checks.keys().cloned().collect();
    let mut wrng = Rng(seed ^ 0x77);
    // one joint query first; individual ones only when it is satisfiable
    let mut work: Vec<(String, Vec<Lit>)> = vec![];
    for id in &ids {
        let v: Vec<Lit> = ex.checks[id].viol.iter().cloned().filter(|&l| l != F).collect();
        work.push((format!("check {id}"), v));
    }
    if !allow_panic {
        for (k, v) in &ex.oblig {
            work.push((k.clone(), v.clone()));
        }
    }
    let all: Vec<Lit> = work.iter().flat_map(|w| w.1.iter().cloned()).collect();
    let mut status: Vec<&str> = vec!["proved"; work.len()];
    let mut joint_unsat = false;
    if all.is_empty() {
        joint_unsat = true;
    } else if let Ans::Unsat = sv.query(&ex.vs.g, &dirs, "joint", &all) {
        joint_unsat = true;
    }
    if !joint_unsat {
        for (k, (name, v)) in work.iter().enumerate() {
            if v.is_empty() {
                continue;
            }
            match sv.query(&ex.vs.g, &dirs, &format!("w{k}"), v) {
                Ans::Unsat => {}
                Ans::Sat(inp) => {
                    status[k] = "violated";
                    let nv = ex.vs.g.eval_all(&inp);
                    viols.push(format!(
                        "{{\"what\":{},\"inputs\":{}}}",
                        jstr(name),
                        inputs_json(&ex, &nv)
                    ));
                }
                Ans::Unknown(s) => {
                    // the BDD of a literal decides its satisfiability; its path is a witness
                    match v.iter().find_map(|&l| bdd_witness(&mut ex.vs.g, l, &mut wrng)) {
                        Some(inp) => {
                            status[k] = "violated";
                            let nv = ex.vs.g.eval_all(&inp);
                            viols.push(format!(
                                "{{\"what\":{},\"inputs\":{}}}",
                                jstr(name),
                                inputs_json(&ex, &nv)
                            ));
                        }
                        None => {
                            status[k] = "unknown";
                            inconclusive.push(format!("{}: {}", name, s));
                        }
                    }
                }
            }
        }
    }
    // inputs that were still running when time was up
    let mut cuts: Vec<String> = vec![];
    for (l, at) in ex.cuts.clone() {
        if let Ans::Sat(inp) = sv.query(&ex.vs.g, &dirs, "cut", &[l]) {
            let nv = ex.vs.g.eval_all(&inp);
            cuts.push(format!("{{\"what\":{},\"inputs\":{}}}", jstr(&format!("still running at {at}")), inputs_json(&ex, &nv)));
        }
    }
    for (k, (name, v)) in work.iter().enumerate() {
        checks_json.push(format!(
            "{{\"what\":{},\"terms\":{},\"status\":\"{}\"}}",
            jstr(name),
            v.len(),
            status[k]
        ));
    }
    // reachability of every check and every cover (vacuity)
    let mut covers: Vec<String> = vec![];
    let mut reach: Vec<(String, Vec<Lit>)> = vec![];
    for id in &ids {
        reach.push((format!("check {id} reachable"), ex.checks[id].reached.clone()));
    }
    for (id, v) in &ex.covers {
        reach.push((format!("cover {id}"), v.clone()));
    }
    for (k, (name, v)) in reach.iter().enumerate() {
        // a path of the BDD, certified by evaluation; otherwise ask the external solver
        let mut wit: Option<Vec<bool>> = None;
        let start = if v.is_empty() { 0 } else { wrng.below(v.len() as u64) as usize };
        for q in 0..v.len() {
            let l = v[(start + q) % v.len()];
            wit = bdd_witness(&mut ex.vs.g, l, &mut wrng);
            if wit.is_some() {
                break;
            }
        }
        if wit.is_none() && v.iter().any(|&l| l != F) {
            if let Ans::Sat(inp) = sv.query(&ex.vs.g, &dirs, &format!("r{k}"), v) {
                wit = Some(inp);
            }
        }
        match wit {
            Some(inp) => {
                let nv = ex.vs.g.eval_all(&inp);
                covers.push(format!(
                    "{{\"what\":{},\"sat\":true,\"inputs\":{}}}",
                    jstr(name),
                    inputs_json(&ex, &nv)
                ));
            }
            None => covers.push(format!("{{\"what\":{},\"sat\":false}}", jstr(name))),
        }
    }
    // concrete samples for translator validation
    let mut samp: Vec<String> = vec![];
    let mut rng = Rng(seed ^ 0xabcdef);
    let ni = ex.vs.g.inputs.len();
    for k in 0..samples {
        // uniform over domain values: take a simulation column
        let col = (rng.below((RW * 64) as u64)) as usize;
        let from_reach = if k % 4 != 3 && !reach.is_empty() {
            let v = &reach[rng.below(reach.len() as u64) as usize].1;
            if v.is_empty() {
                None
            } else {
                let l = v[rng.below(v.len() as u64) as usize];
                bdd_witness(&mut ex.vs.g, l, &mut rng)
            }
        } else {
            None
        };
        let inp: Vec<bool> = if let Some(x) = from_reach {
            x
        } else if k % 2 == 0 {
            ex.vs.g.inputs.iter().map(|&n| ex.vs.g.sample(n << 1, col)).collect()
        } else {
            (0..ni).map(|_| rng.below(2) == 1).collect()
        };
        let nv = ex.vs.g.eval_all(&inp);
        let lv = |l: Lit| nv[node(l)] ^ (l & 1 == 1);
        let mut o = String::new();
        for (id, g, v) in &ex.obs {
            if lv(*g) {
                if !o.is_empty() {
                    o.push(',');
                }
                match ex.vs.eval(*v, &nv) {
                    Some(x) => {
                        let _ = write!(o, "[{id},{x}]");
                    }
                    None => {
                        let _ = write!(o, "[{id},null]");
                    }
                }
            }
        }
        let mut ck = String::new();
        for (id, c) in &ex.checks {
            if c.viol.iter().any(|&l| lv(l)) {
                if !ck.is_empty() {
                    ck.push(',');
                }
                let _ = write!(ck, "{id}");
            }
        }
        let panics = ex.oblig.values().any(|v| v.iter().any(|&l| lv(l)));
        samp.push(format!(
            "{{\"inputs\":{},\"obs\":[{}],\"failed\":[{}],\"panic\":{}}}",
            inputs_json(&ex, &nv),
            o,
            ck,
            panics
        ));
    }
    // lemma re-verification by the external solver
    let mut lem_checked = 0usize;
    let mut lem_bad = 0usize;
    let mut check_lemmas = 0usize;
    let nl = ex.vs.g.lemmas.len();
    if lemma_time > 0.0 && nl > 0 {
        // a lemma is a & b == r; the disjunction of the negations of a batch must be unsat.
        // First the ones that discharged the harness's own checks, then a random selection.
        let t = Instant::now();
        let mut pick: Vec<usize> = vec![];
        let at: std::collections::HashMap<(Lit, Lit), usize> = ex
            .vs
            .g
            .lemmas
            .iter()
            .enumerate()
            .map(|(k, l)| ((l.0.min(l.1), l.0.max(l.1)), k))
            .collect();
        let mut seen = std::collections::HashSet::new();
        for &(a, b) in &ex.closed {
            if let Some(&k) = at.get(&(a.min(b), a.max(b))) {
                if seen.insert(k) {
                    pick.push(k);
                }
            }
        }
        check_lemmas = pick.len();
        let mut order: Vec<usize> = (0..nl).collect();
        for k in (1..nl).rev() {
            order.swap(k, wrng.below(k as u64 + 1) as usize);
        }
        pick.extend(order.into_iter().filter(|k| !seen.contains(k)));
        for ch in pick.chunks(12) {
            if t.elapsed().as_secs_f64() > lemma_time {
                break;
            }
            let g = &ex.vs.g;
            let roots: Vec<Lit> = ch.iter().flat_map(|&k| [g.lemmas[k].0, g.lemmas[k].1, g.lemmas[k].2]).collect();
            let (cone, _, _) = smt_cone(g, &roots);
            let mut s = String::from("(set-logic QF_FD)\n");
            s.push_str(&cone);
            s.push_str("(assert (or");
            for &k in ch {
                let (a, b, r) = g.lemmas[k];
                let _ = write!(s, " (xor (and {} {}) {})", smt_lit(a), smt_lit(b), smt_lit(r));
            }
            s.push_str("))\n(check-sat)\n");
            let path = format!("{dirs}/lem.smt2");
            std::fs::write(&path, &s).unwrap();
            let o = std::process::Command::new(&sv.cmd[0])
                .arg(format!("-T:{}", (lemma_time - t.elapsed().as_secs_f64()).ceil().max(1.0)))
                .arg(&path)
                .output()
                .expect("solver");
            let o = String::from_utf8_lossy(&o.stdout).into_owned();
            sv.queries += 1;
            if o.starts_with("unsat") {
                lem_checked += ch.len();
            } else if o.starts_with("sat") {
                lem_bad += ch.len();
            }
        }
        sv.time += t.elapsed().as_secs_f64();
    }
    let _ = std::fs::remove_dir_all(&dir);
    let funcs: Vec<String> = ex
        .funcs_run
        .iter()
        .map(|(k, n)| format!("[{},{}]", jstr(k), n))
        .collect();
    let st = &ex.vs.g.stats;
    let rss = std::fs::read_to_string("/proc/self/status")
        .ok()
        .and_then(|s| {
            s.lines()
                .find(|l| l.starts_with("VmHWM"))
                .map(|l| l.split_whitespace().nth(1).unwrap_or("0").to_string())
        })
        .unwrap_or_default();
    let _ = write!(
        j,
        "{{\"entry\":{},\"case\":{:?},\"finished\":{},\"violations\":[{}],\"cuts\":[{}],\"inconclusive\":[{}],\"obligations\":[{}],\"covers\":[{}],\"samples\":[{}],\"stats\":{{\"load_s\":{:.3},\"exec_s\":{:.3},\"steps\":{},\"calls\":{},\"merges\":{},\"forks\":{},\"unwind_max\":{},\"aig_nodes\":{},\"bdd_peak\":{},\"bdd_ops\":{},\"bdd_aborts\":{},\"inputs\":{},\"core_calls\":{},\"core_sat\":{},\"core_unsat\":{},\"core_unknown\":{},\"core_s\":{:.3},\"core_conflicts\":{},\"lemmas\":{},\"lemmas_rechecked\":{},\"lemmas_bad\":{},\"check_lemmas\":{},\"smt_queries\":{},\"smt_s\":{:.3},\"undef_branches\":{},\"rss_kb\":{}}},\"functions\":[{}]}}",
        jstr(&entry),
        cases,
        finished,
        viols.join(","),
        cuts.join(","),
        inconclusive.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","),
        checks_json.join(","),
        covers.join(","),
        samp.join(","),
        t_load,
        t_exec,
        ex.steps,
        ex.calls,
        ex.merges,
        ex.forks,
        ex.unwind_max,
        ex.vs.g.n_nodes(),
        ex.vs.g.bdd.peak,
        ex.vs.g.bdd.ops,
        ex.vs.g.bdd.aborts,
        ni,
        st.sat_calls,
        st.sat_sat,
        st.sat_unsat,
        st.sat_unknown,
        st.sat_time,
        st.conflicts,
        nl,
        lem_checked,
        lem_bad,
        check_lemmas,
        sv.queries,
        sv.time,
        ex.vs.undef_branches,
        if rss.is_empty() { "0" } else { &rss },
        funcs.join(",")
    );
    if out.is_empty() {
        println!("{j}");
    } else {
        let mut f = std::fs::File::create(&out).unwrap();
        f.write_all(j.as_bytes()).unwrap();
    }
    if !viols.is_empty() {
        1
    } else if !inconclusive.is_empty() || lem_bad > 0 {
        2
    } else {
        0
    }
}

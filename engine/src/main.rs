mod exec;
mod ext;
mod flt;
mod flt2;
mod interp;
mod ir;
mod lower;
mod smt;
mod step;
mod term;
mod term2;
mod tt;
use std::io::BufRead;
use std::time::{Duration, Instant};

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn nums(v: &[u128]) -> String {
    format!("[{}]", v.iter().map(|x| format!("\"{}\"", x)).collect::<Vec<_>>().join(","))
}
/// usage: engine a.ll b.ll ... ; jobs on stdin, one per line:
///   entry avx2(0/1) seconds max_paths trace_every c0,c1,...
fn real() {
    let mut p = ir::Program::default();
    for f in std::env::args().skip(1) {
        if let Err(e) = p.load(&f) {
            eprintln!("load {}: {}", f, e);
            std::process::exit(3);
        }
    }
    let mut ex = exec::Exec {
        lo: lower::Lower::new(p),
        ts: term::Terms::new(),
        sv: smt::Solver::new(4000, 60000),
        gobj: Default::default(),
        avx2: true,
        cfg: vec![],
        out: Default::default(),
        work: vec![],
        max_paths: 100000,
        deadline: Instant::now(),
        chunk: 4,
        trace_every: 0,
        trace: std::env::var("VF_TRACE").is_ok(),
        tt: Default::default(),
    };
    ex.ts.fl.jcap = 4096;
    let stdin = std::io::stdin();
    for l in stdin.lock().lines() {
        let l = match l {
            Ok(l) => l,
            Err(_) => break,
        };
        let v: Vec<&str> = l.split_whitespace().collect();
        if v.len() < 5 {
            continue;
        }
        let t0 = Instant::now();
        let secs: f64 = v[2].parse().unwrap_or(60.0);
        ex.avx2 = v[1] == "1";
        ex.gobj.clear();
        ex.lo.funcs.clear();
        ex.ts = term::Terms::new();
        ex.ts.fl.jcap = 4096;
        ex.tt = Default::default();
        ex.sv = smt::Solver::new(4000, ((secs * 1000.0) as u64).max(1000));
        ex.deadline = t0 + Duration::from_secs_f64(secs);
        ex.max_paths = v[3].parse().unwrap_or(100000);
        ex.trace_every = v[4].parse().unwrap_or(0);
        ex.cfg = if v.len() > 5 { v[5].split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect() } else { vec![] };
        let entry = ex.lo.p.gfuncs.get(v[0]).copied();
        match entry {
            None => {
                ex.out = Default::default();
                ex.out.error = Some(format!("no function {}", v[0]));
            }
            Some(e) => ex.run_job(e),
        }
        let o = &ex.out;
        let names: Vec<String> = o.funcs.iter().map(|f| esc(&ex.lo.p.ftexts[*f].name)).collect();
        let viol = match &o.viol {
            None => "null".into(),
            Some((m, i)) => format!("{{\"label\":{},\"inputs\":{}}}", esc(m), nums(i)),
        };
        let err = match &o.error {
            None => "null".into(),
            Some(e) => esc(e),
        };
        let tr: Vec<String> = o.traces.iter().map(|(i, o)| format!("{{\"i\":{},\"o\":{}}}", nums(i), nums(o))).collect();
        let cov: Vec<String> = o.covers.iter().map(|c| esc(c)).collect();
        println!(
            "{{\"paths\":{},\"completed\":{},\"asserting\":{},\"panics_ok\":{},\"instrs\":{},\"forks\":{},\"asserts\":{},\"rewritten\":{},\"concretized\":{},\"queries\":{},\"verdicts\":{},\"unknown\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"wall_s\":{:.3},\"terms\":{},\"viol\":{},\"error\":{},\"funcs\":[{}],\"traces\":[{}],\"covers\":[{}]}}",
            o.paths, o.completed, o.asserting, o.panics_ok, o.instrs, o.forks, o.asserts, o.rewritten, o.concretized, ex.sv.st.queries, ex.sv.st.verdicts, ex.sv.st.unknown, ex.sv.st.time, ex.sv.st.maxq, t0.elapsed().as_secs_f64(), ex.ts.e.len(), viol, err, names.join(","), tr.join(","), cov.join(",")
        );
    }
}
fn main() {
    std::thread::Builder::new().stack_size(1 << 30).spawn(real).unwrap().join().unwrap();
}

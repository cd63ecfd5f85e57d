//! symx: bounded symbolic execution of LLVM IR with Z3
mod exec;
mod expr;
mod ir;
mod z3;

use exec::*;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 || c as u32 == 127 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jl(v: &[u64]) -> String {
    format!("[{}]", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))
}

#[derive(Default)]
struct Out {
    st: Stats,
    viol: BTreeMap<String, (u64, Option<Violation>, Vec<Vec<u64>>)>,
    errors: BTreeMap<String, (u64, Vec<Vec<u64>>)>,
    failed: bool,
    reach: BTreeMap<u64, u64>,
    funcs: BTreeSet<String>,
    places: BTreeSet<u32>,
    samples: Vec<(Vec<u64>, Vec<u64>)>,
    left: u64,
    frontier: usize,
}

struct Opts {
    entry: String,
    threads: usize,
    frontier: usize,
    deadline: Instant,
    grace: Duration,
    params: Vec<u64>,
    max_steps: u64,
    hash_key: u64,
    print: bool,
    samples: usize,
    panic_fails: bool,
}

struct Worker<'a> {
    en: Engine<'a>,
    out: Out,
    o: &'a Opts,
    main: bool,
}

impl<'a> Worker<'a> {
    /// Runs one state; children are handed to `push`
    fn one(&mut self, mut s: State, push: &mut dyn FnMut(Vec<State>), count: bool) {
        let r = self.en.run(&mut s);
        let stop = match r {
            Stop::Fork(v) => {
                push(v);
                return;
            }
            x => x,
        };
        if !count {
            return;
        }
        match stop {
            Stop::Done => {
                self.out.st.paths += 1;
                let st = self.en.state_steps(&s);
                if st > self.out.st.max_path_steps {
                    self.out.st.max_path_steps = st;
                }
                let n = self.out.st.paths;
                if self.out.samples.len() < self.o.samples && (n.is_power_of_two() || n % 97 == 0) {
                    let i = self.en.state_inputs(&s);
                    let ob = self.en.state_obs(&s);
                    self.out.samples.push((i, ob));
                }
            }
            Stop::Pruned => self.out.st.pruned += 1,
            Stop::Violation(kind, msg) => {
                self.out.st.paths += 1;
                let stack = self.en.state_stack(&s);
                let inputs = self.en.state_inputs(&s);
                let key = format!("{:?}|{}|{}", kind, msg, if let Kind::Fail = kind { String::new() } else { stack.iter().take(3).cloned().collect::<Vec<_>>().join("<") });
                if matches!(kind, Kind::Fail) || self.o.panic_fails {
                    self.out.failed = true;
                }
                let e = self.out.viol.entry(key).or_insert((0, None, vec![]));
                e.0 += 1;
                if e.2.len() < 32 {
                    e.2.push(inputs.clone());
                }
                // keep the shortest, then smallest, example
                let better = match &e.1 {
                    None => true,
                    Some(v) => (inputs.len(), &inputs) < (v.inputs.len(), &v.inputs),
                };
                if better {
                    e.1 = Some(Violation { kind, msg, stack, inputs });
                }
            }
            Stop::Error(m) => {
                let st = self.en.state_stack(&s);
                let m = format!("{} in {}", m, st.iter().take(4).cloned().collect::<Vec<_>>().join(" < "));
                let inputs = self.en.state_inputs(&s);
                let e = self.out.errors.entry(m).or_insert((0, vec![]));
                e.0 += 1;
                if e.1.len() < 8 {
                    e.1.push(inputs);
                }
            }
            Stop::Concretize(_) => {
                self.out.errors.entry("concretize escaped".into()).or_insert((0, vec![])).0 += 1;
            }
            Stop::Fork(_) => {}
        }
    }
}

fn main() {
    let mut args = std::env::args().skip(1);
    let mut ll = String::new();
    let mut outf = String::new();
    let mut dir = String::new();
    let mut also = String::new();
    let mut o = Opts {
        entry: String::new(),
        threads: 8,
        frontier: 256,
        deadline: Instant::now() + Duration::from_secs(600),
        grace: Duration::from_secs(1 << 30),
        params: vec![],
        max_steps: 3_000_000,
        hash_key: 1,
        print: false,
        samples: 40,
        panic_fails: false,
    };
    while let Some(a) = args.next() {
        let mut v = || args.next().expect("value");
        match a.as_str() {
            "--ll" => ll = v(),
            "--entry" => o.entry = v(),
            "--threads" => o.threads = v().parse().unwrap(),
            "--frontier" => o.frontier = v().parse().unwrap(),
            "--time" => o.deadline = Instant::now() + Duration::from_secs_f64(v().parse().unwrap()),
            "--grace" => o.grace = Duration::from_secs_f64(v().parse().unwrap()),
            "--params" => o.params = v().split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect(),
            "--max-steps" => o.max_steps = v().parse().unwrap(),
            "--print" => o.print = v() != "0",
            "--hash-key" => o.hash_key = v().parse().unwrap(),
            "--samples" => o.samples = v().parse().unwrap(),
            // stop soon after a panic too, not only after a failed assertion
            "--panic-fails" => o.panic_fails = v() == "1",
            "--out" => outf = v(),
            // where the sources are whose lines to report
            "--dir" => dir = v(),
            "--also" => also = v(),
            _ => {
                eprintln!("unknown option {}", a);
                std::process::exit(3);
            }
        }
    }
    let t0 = Instant::now();
    let text = std::fs::read_to_string(&ll).expect("cannot read IR");
    let next = AtomicUsize::new(0);
    let viol_at: Mutex<Option<Instant>> = Mutex::new(None);
    let stop = AtomicBool::new(false);
    let mut outs: Vec<Out> = vec![];
    std::thread::scope(|sc| {
        let mut hs = vec![];
        for t in 0..o.threads {
            let (o, text, next, viol_at, stop) = (&o, &text, &next, &viol_at, &stop);
            hs.push(
                std::thread::Builder::new()
                    .stack_size(512 << 20)
                    .spawn_scoped(sc, move || {
                        let en = Engine::new(
                            text,
                            Config { params: o.params.clone(), max_steps: o.max_steps, hash_key: o.hash_key, print: o.print },
                        );
                        let mut w = Worker { en, out: Out::default(), o, main: t == 0 };
                        let s = match w.en.initial(&o.entry) {
                            Ok(s) => s,
                            Err(m) => {
                                w.out.errors.insert(m, (1, vec![]));
                                return w.out;
                            }
                        };
                        let expired = |w: &Worker| {
                            if stop.load(Ordering::Relaxed) {
                                return true;
                            }
                            let mut d = o.deadline;
                            if w.out.failed {
                                let mut g = viol_at.lock().unwrap();
                                if g.is_none() {
                                    *g = Some(Instant::now());
                                }
                            }
                            if let Some(t) = *viol_at.lock().unwrap() {
                                d = d.min(t + o.grace);
                            }
                            if Instant::now() >= d {
                                stop.store(true, Ordering::Relaxed);
                                return true;
                            }
                            false
                        };
                        // breadth first to a frontier, identically in every thread
                        let mut q: VecDeque<State> = VecDeque::new();
                        q.push_back(s);
                        let main = w.main;
                        let mut late = false;
                        while q.len() < o.frontier * (o.threads > 1) as usize {
                            let s = match q.pop_front() {
                                Some(s) => s,
                                None => break,
                            };
                            w.one(s, &mut |v| q.extend(v), main);
                            if expired(&w) {
                                late = true;
                                break;
                            }
                        }
                        w.out.frontier = q.len();
                        if !main {
                            w.en.st = Stats::default();
                            w.en.reach.clear();
                            w.en.z.reset_counters();
                        }
                        if late {
                            if main {
                                w.out.left = q.len() as u64;
                            }
                        } else {
                            let mut q: Vec<Option<State>> = q.into_iter().map(Some).collect();
                            loop {
                                let i = next.fetch_add(1, Ordering::Relaxed);
                                if i >= q.len() {
                                    break;
                                }
                                let mut stack = vec![q[i].take().unwrap()];
                                while let Some(s) = stack.pop() {
                                    if expired(&w) {
                                        w.out.left += 1 + stack.len() as u64;
                                        break;
                                    }
                                    w.one(s, &mut |v| stack.extend(v.into_iter().rev()), true);
                                }
                            }
                        }
                        let en = &mut w.en;
                        let st = &mut w.out.st;
                        st.forks = en.st.forks;
                        st.steps = en.st.steps;
                        st.decisions = en.st.decisions;
                        st.cache_hits = en.st.cache_hits;
                        st.unknown = en.st.unknown;
                        st.concretizations = en.st.concretizations;
                        st.merged = en.st.merged;
                        st.queries = en.z.queries;
                        st.sat = en.z.sat;
                        st.unsat = en.z.unsat;
                        st.solver_ms = en.z.time.as_millis() as u64;
                        w.out.reach = en.reach.clone();
                        for f in &en.funcs_run {
                            let f = &en.m.funcs[*f as usize];
                            w.out.funcs.insert(f.name.to_string());
                            for (i, b) in f.body.iter().flat_map(|b| b.blocks.iter().enumerate()) {
                                if i == 0 || b.seen.get() {
                                    w.out.places.extend(&b.places);
                                }
                            }
                        }
                        w.out
                    })
                    .unwrap(),
            );
        }
        for h in hs {
            outs.push(h.join().expect("worker failed"));
        }
    });
    let mut a = Out::default();
    for x in outs {
        a.st.paths += x.st.paths;
        a.st.pruned += x.st.pruned;
        a.st.forks += x.st.forks;
        a.st.steps += x.st.steps;
        a.st.decisions += x.st.decisions;
        a.st.queries += x.st.queries;
        a.st.sat += x.st.sat;
        a.st.unsat += x.st.unsat;
        a.st.cache_hits += x.st.cache_hits;
        a.st.unknown += x.st.unknown;
        a.st.solver_ms += x.st.solver_ms;
        a.st.concretizations += x.st.concretizations;
        a.st.merged += x.st.merged;
        a.st.max_path_steps = a.st.max_path_steps.max(x.st.max_path_steps);
        for (k, v) in x.viol {
            let e = a.viol.entry(k).or_insert((0, None, vec![]));
            e.0 += v.0;
            e.2.extend(v.2);
            let v = v.1.unwrap();
            let better = match &e.1 {
                None => true,
                Some(w) => (v.inputs.len(), &v.inputs) < (w.inputs.len(), &w.inputs),
            };
            if better {
                e.1 = Some(v);
            }
        }
        for (k, v) in x.errors {
            let e = a.errors.entry(k).or_insert((0, vec![]));
            e.0 += v.0;
            e.1.extend(v.1);
        }
        for (k, v) in x.reach {
            *a.reach.entry(k).or_insert(0) += v;
        }
        a.funcs.extend(x.funcs);
        a.places.extend(x.places);
        a.samples.extend(x.samples);
        a.left += x.left;
        a.frontier = a.frontier.max(x.frontier);
    }
    a.samples.truncate(o.samples * 4);
    // frontier states nobody picked up
    let picked = next.load(Ordering::Relaxed);
    if stop.load(Ordering::Relaxed) && picked < a.frontier && a.left == 0 {
        a.left = (a.frontier - picked) as u64;
    }
    let complete = a.left == 0 && !stop.load(Ordering::Relaxed);
    let st = &a.st;
    let mut s = String::from("{\n");
    let mut put = |k: &str, v: String| s.push_str(&format!("  {}: {},\n", js(k), v));
    put("entry", js(&o.entry));
    put("params", jl(&o.params));
    put("complete", complete.to_string());
    put("unexplored", a.left.to_string());
    put("paths", st.paths.to_string());
    put("pruned", st.pruned.to_string());
    put("forks", st.forks.to_string());
    put("instructions", st.steps.to_string());
    put("decisions", st.decisions.to_string());
    put("queries", st.queries.to_string());
    put("sat", st.sat.to_string());
    put("unsat", st.unsat.to_string());
    put("cache_hits", st.cache_hits.to_string());
    put("unknown", st.unknown.to_string());
    put("solver_s", format!("{:.3}", st.solver_ms as f64 / 1000.0));
    put("concretizations", st.concretizations.to_string());
    put("merged", st.merged.to_string());
    put("max_path_steps", st.max_path_steps.to_string());
    put("wall_s", format!("{:.3}", t0.elapsed().as_secs_f64()));
    put(
        "reach",
        format!("{{{}}}", a.reach.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(",")),
    );
    put(
        "errors",
        format!("{{{}}}", a.errors.iter().map(|(k, v)| format!("{}:{}", js(k), v.0)).collect::<Vec<_>>().join(",")),
    );
    put(
        "error_inputs",
        format!("[{}]", a.errors.values().flat_map(|v| v.1.iter()).map(|v| jl(v)).collect::<Vec<_>>().join(",")),
    );
    put(
        "violations",
        format!(
            "[{}]",
            a.viol
                .values()
                .map(|(n, v, ex)| {
                    let v = v.as_ref().unwrap();
                    format!(
                        "\n    {{\"kind\":{},\"msg\":{},\"count\":{},\"stack\":[{}],\"inputs\":{},\"examples\":[{}]}}",
                        js(&format!("{:?}", v.kind)),
                        js(&v.msg),
                        n,
                        v.stack.iter().map(|x| js(x)).collect::<Vec<_>>().join(","),
                        jl(&v.inputs),
                        ex.iter().map(|x| jl(x)).collect::<Vec<_>>().join(",")
                    )
                })
                .collect::<Vec<_>>()
                .join(",")
        ),
    );
    put(
        "samples",
        format!(
            "[{}]",
            a.samples.iter().map(|(i, ob)| format!("\n    {{\"inputs\":{},\"obs\":{}}}", jl(i), jl(ob))).collect::<Vec<_>>().join(",")
        ),
    );
    let (lines, own, inlined) = ir::sources(&text, &a.places, &dir, &also);
    a.funcs.extend(inlined);
    put("lines", format!("[{}]", lines.iter().map(|(f, l)| js(&format!("{}:{}", f, l))).collect::<Vec<_>>().join(",")));
    put("own", format!("[{}]", own.iter().map(|x| js(x)).collect::<Vec<_>>().join(",")));
    let funcs: BTreeSet<String> = a.funcs.iter().map(|f| pretty(f)).collect();
    s.push_str(&format!("  \"functions\": [{}]\n}}\n", funcs.iter().map(|x| js(x)).collect::<Vec<_>>().join(",")));
    if outf.is_empty() {
        print!("{}", s);
    } else {
        std::fs::write(&outf, s).expect("cannot write output");
    }
}

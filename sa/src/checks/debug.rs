//! Development aids: SA_MODE=fns | run:<suffix>
use super::*;
pub fn run(mode: &str) {
    if mode == "fns" {
        for (p, _) in local_fns() {
            println!("{p}");
        }
        return;
    }
    if let Some(s) = mode.strip_prefix("run:") {
        let Some(d) = find_fn(s) else {
            println!("{} matches: {:?}", s, find_all(s));
            return;
        };
        let mut e = Engine::new();
        e.hooks = Some(Box::new(Dbg));
        let mut st = State::default();
        set_tenv(ty::TypingEnv::post_analysis(tcx(), d));
        let i = identity_instance(d);
        let args = sym_args(i, &mut st);
        if std::env::var("SA_PIN").is_ok() {
            for a in &args {
                e.pinned.extend(a.syms().iter());
            }
        }
        let t0 = std::time::Instant::now();
        let r = e.root(i, args, st);
        for (s, v) in &r {
            println!("RET {:?}", v);
            println!("  facts {}", s.facts.show());
            for (l, x) in &s.store {
                println!("  {:?} = {:?}", l, x);
            }
        }
        for f in e.findings.values() {
            println!("FINDING {} | {} | {} | {} | {:?}\n    {}", f.func, f.kind, f.detail, f.line, f.trace, f.facts);
        }
        for (k, v) in &e.obligations {
            println!("OB {} {:?}", k, v);
        }
        println!("opaque {:?}", e.opaque);
        println!("notes {:?}", e.notes);
        println!("steps {} time {:?}", e.steps, t0.elapsed());
    }
}

struct Dbg;
impl Hooks for Dbg {
    fn call(&mut self, e: &mut Engine, st: &State, c: &Call) -> Option<Vec<(State, V)>> {
        base::base_call(e, st, c)
    }
    fn loop_done(&mut self, e: &mut Engine, l: &LoopInfo) {
        if std::env::var("SA_DBG").is_err() {
            return;
        }
        println!("LOOP frame {} bb{} {}", l.frame, l.head.as_u32(), e.span_str(l.span));
        for (k, s, p) in l.heads {
            println!(" HEAD {k} phis {p:?}\n   facts {}", s.facts.show());
            for (l, x) in &s.store {
                println!("   {:?} = {:?}", l, x);
            }
        }
        for (i, s, j) in l.arrivals {
            println!(" ARR {i}->{j} facts {}", s.facts.show());
        }
    }
}

//! Symbolic executor over the parsed IR.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::solver::*;
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone)]
pub struct Frame {
    f: &'static Func,
    bb: u32,
    ip: u32,
    regs: Rc<Vec<Val>>,
    dst: Option<u32>,
    normal: Option<u32>,
    nstack: usize,
    sp: u64,
}

#[derive(Clone)]
pub struct State {
    frames: Vec<Frame>,
    mem: Mem,
    pc: Vec<E>,
    known: Vec<E>, // consequences of pc
    dom: Vec<Dom>,
    multi: u128,
    model: Vec<u128>,
    seq: Vec<u32>, // variable index per sym_int call
    obs: Vec<(u64, Val)>,
    asserts: Vec<u64>,
    steps: u64,
}

pub enum Stop {
    Done,
    Dead,
    Cut,
    Panic(String),
    Assert(u64),
    Hang,
    Err(String),
}
type X<T> = Result<T, Stop>;
fn er<T>(s: impl Into<String>) -> X<T> {
    Err(Stop::Err(s.into()))
}

#[derive(Clone, Debug)]
pub struct Witness {
    pub inputs: Vec<u64>,
    pub kind: String, // "ok", "panic", "assert"
    pub what: String,
    pub obs: Vec<(u64, u64)>,
    pub stack: Vec<String>,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub paths: u64,
    pub cut: u64,
    pub dead: u64,
    pub forks: u64,
    pub insts: u64,
    pub asserts: u64,
    pub asserts_const: u64,
    pub asserts_solver: u64,
    pub branch_dom: u64,
    pub branch_solver: u64,
    pub branch_sym: u64,
    pub vars_max: u64,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub qcached: u64,
    pub solver_s: f64,
    pub solver_max_s: f64,
}

impl Stats {
    pub fn add(&mut self, o: &Stats) {
        self.paths += o.paths;
        self.cut += o.cut;
        self.dead += o.dead;
        self.forks += o.forks;
        self.insts += o.insts;
        self.asserts += o.asserts;
        self.asserts_const += o.asserts_const;
        self.asserts_solver += o.asserts_solver;
        self.branch_dom += o.branch_dom;
        self.branch_solver += o.branch_solver;
        self.branch_sym += o.branch_sym;
        self.vars_max = self.vars_max.max(o.vars_max);
        self.queries += o.queries;
        self.sat += o.sat;
        self.unsat += o.unsat;
        self.unknown += o.unknown;
        self.qcached += o.qcached;
        self.solver_s += o.solver_s;
        self.solver_max_s = self.solver_max_s.max(o.solver_max_s);
    }
}

pub struct JobResult {
    pub complete: bool,
    pub why_incomplete: String,
    pub error: Option<String>,
    pub stats: Stats,
    pub violations: Vec<Witness>,
    pub samples: Vec<Witness>,
    pub reach: std::collections::BTreeSet<u64>,
    pub reach_assert: std::collections::BTreeMap<u64, u64>,
    pub funcs: Vec<bool>,
    pub smt: Vec<String>,
    pub wall: f64,
}

#[derive(Clone)]
pub struct Limits {
    pub max_steps: u64,
    pub max_paths: u64,
    pub max_viol: usize,
    pub samples: usize,
    pub seed: u64,
    pub deadline: Instant,
    /// set by the first violation: milliseconds after which everything stops
    pub early: &'static (Instant, std::sync::atomic::AtomicU64),
    pub trace: bool,
    pub smt_dump: usize,
    pub solver_timeout_ms: u32,
}

impl Limits {
    pub fn over(&self) -> bool {
        Instant::now() > self.deadline || self.early.0.elapsed().as_millis() as u64 > self.early.1.load(std::sync::atomic::Ordering::Relaxed)
    }
    /// a violation was found: some more time to find others
    pub fn hurry(&self) {
        let t = self.early.0.elapsed().as_millis() as u64 + 20_000;
        self.early.1.fetch_min(t, std::sync::atomic::Ordering::Relaxed);
    }
}

pub struct Exec {
    pub p: &'static Program,
    pub ar: Arena,
    pub sv: Solver,
    pub st: Stats,
    pub lim: Limits,
    work: Vec<State>,
    pub res: JobResult,
    domcache: FxMap<(Dom, Dom), bool>,
    hooks: &'static Vec<Hook>,
    rng: u64,
    retval: Option<Val>,
    prof: std::collections::HashMap<String, u64>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Hook {
    None,
    SymInt,
    SymAssume,
    SymAssert,
    SymObserve,
    SymReach,
    SymCut,
    SymFix,
    Malloc,
    Calloc,
    Realloc,
    Free,
    PosixMemalign,
    Bcmp,
    Memcmp,
    Strlen,
    Panic,
    RetOkFmt,
    Redirect(u32),
}

pub fn build_hooks(p: &Program) -> Vec<Hook> {
    let stub_format = p.fidx.get("stub_format_inner").copied();
    p.funcs
        .iter()
        .map(|f| {
            match f.name.as_str() {
                "sym_int" => return Hook::SymInt,
                "sym_assume" => return Hook::SymAssume,
                "sym_assert" => return Hook::SymAssert,
                "sym_observe" => return Hook::SymObserve,
                "sym_reach" => return Hook::SymReach,
                "sym_cut" => return Hook::SymCut,
                "sym_fix" => return Hook::SymFix,
                "malloc" => return Hook::Malloc,
                "calloc" => return Hook::Calloc,
                "realloc" => return Hook::Realloc,
                "free" => return Hook::Free,
                "posix_memalign" => return Hook::PosixMemalign,
                "bcmp" => return Hook::Bcmp,
                "memcmp" => return Hook::Memcmp,
                "strlen" => return Hook::Strlen,
                "abort" => return Hook::Panic,
                _ => {}
            }
            let n = f.pretty.as_str();
            if n.starts_with("core::panicking::")
                || n.starts_with("core::option::unwrap_failed")
                || n.starts_with("core::option::expect_failed")
                || n.starts_with("core::result::unwrap_failed")
                || n.starts_with("core::slice::index::slice_")
                || n.starts_with("core::str::slice_error_fail")
                || n.starts_with("core::cell::panic_")
                || n.starts_with("alloc::alloc::handle_alloc_error")
                || n.starts_with("alloc::raw_vec::capacity_overflow")
                || n.starts_with("alloc::raw_vec::handle_error")
                || n.starts_with("std::process::abort")
                || n.starts_with("std::sys::abort_internal")
                || n.starts_with("std::alloc::rust_oom")
                || n.starts_with("std::panicking::")
                || n.starts_with("std::rt::")
                || n.contains("rust_begin_unwind")
                || n.contains("rust_panic")
                || n.starts_with("core::num::flt2dec") && false
            {
                return Hook::Panic;
            }
            if n == "alloc::fmt::format::format_inner" {
                if let Some(s) = stub_format {
                    return Hook::Redirect(s);
                }
            }
            if n == "<std::io::error::Error as core::fmt::Display>::fmt"
                || n == "<core::fmt::Formatter>::pad"
                || n == "core::fmt::write"
            {
                return Hook::RetOkFmt;
            }
            Hook::None
        })
        .collect()
}

fn mask64(w: u32) -> u64 {
    if w >= 64 {
        !0
    } else {
        (1u64 << w) - 1
    }
}
fn sx64(v: u64, w: u32) -> i64 {
    if w == 0 {
        return 0;
    }
    ((v << (64 - w)) as i64) >> (64 - w)
}

impl Exec {
    pub fn new(p: &'static Program, hooks: &'static Vec<Hook>, lim: Limits) -> Exec {
        let mut sv = Solver::new(lim.solver_timeout_ms);
        if lim.smt_dump > 0 {
            sv.smt_dump = Some(vec![]);
            sv.dump_max = lim.smt_dump;
        }
        let rng = lim.seed.wrapping_mul(0x9E3779B97F4A7C15) | 1;
        Exec {
            p,
            ar: Arena::new(),
            sv,
            st: Stats::default(),
            lim,
            work: vec![],
            res: JobResult {
                complete: false,
                why_incomplete: String::new(),
                error: None,
                stats: Stats::default(),
                violations: vec![],
                samples: vec![],
                reach: Default::default(),
                reach_assert: Default::default(),
                funcs: vec![false; p.funcs.len()],
                smt: vec![],
                wall: 0.0,
            },
            domcache: Default::default(),
            hooks,
            rng,
            retval: None,
            prof: Default::default(),
        }
    }
    fn rand(&mut self) -> u64 {
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        self.rng
    }
    fn getf(&mut self, id: u32) -> X<&'static Func> {
        let f = self.p.func(id).map_err(Stop::Err)?;
        self.res.funcs[id as usize] = true;
        // Program is leaked and keeps the Arc alive for ever
        Ok(unsafe { &*std::sync::Arc::as_ptr(&f) })
    }
    fn initial(&mut self, f: &'static Func, args: &[u64]) -> State {
        let mut s = State {
            frames: vec![],
            mem: Mem::new(),
            pc: vec![],
            known: vec![],
            dom: vec![],
            multi: 0,
            model: vec![],
            seq: vec![],
            obs: vec![],
            asserts: vec![],
            steps: 0,
        };
        let a: Vec<Val> = args.iter().map(|x| Val::C(*x)).collect();
        self.push_frame(&mut s, f, a, None, None);
        s
    }
    /// Run a function without symbolic inputs that returns a pointer to a
    /// counted list of words.
    pub fn case_list(&mut self, fid: u32, args: &[u64]) -> Result<Vec<u64>, String> {
        let msg = |e: Stop| match e {
            Stop::Err(e) => e,
            Stop::Panic(e) => format!("panic {}", e),
            _ => "stopped".into(),
        };
        let f = self.getf(fid).map_err(msg)?;
        let mut s = self.initial(f, args);
        loop {
            match self.block(&mut s) {
                Ok(()) => {}
                Err(Stop::Done) => break,
                Err(e) => return Err(msg(e)),
            }
            if s.steps > self.lim.max_steps {
                return Err("step limit".into());
            }
        }
        let a = match self.retval.take() {
            Some(Val::C(c)) => c,
            _ => return Err("no concrete result".into()),
        };
        let mut v = vec![];
        let mut n = 1;
        while (v.len() as u64) < n {
            match s.mem.read(self.p, &mut self.ar, a + 8 * v.len() as u64, 8)? {
                Val::C(c) => {
                    if v.is_empty() {
                        n = c + 1;
                    }
                    v.push(c)
                }
                _ => return Err("symbolic case list".into()),
            }
        }
        v.remove(0);
        Ok(v)
    }
    pub fn run(mut self, fid: u32, args: &[u64]) -> JobResult {
        let t0 = Instant::now();
        let f = match self.getf(fid) {
            Ok(f) => f,
            Err(Stop::Err(e)) => {
                self.res.error = Some(e);
                return self.finish(t0);
            }
            _ => unreachable!(),
        };
        let s = self.initial(f, args);
        self.work.push(s);
        let mut complete = true;
        while let Some(mut s) = self.work.pop() {
            if self.st.paths >= self.lim.max_paths {
                complete = false;
                self.res.why_incomplete = "path limit".into();
                break;
            }
            let stop = loop {
                match self.block(&mut s) {
                    Ok(()) => {}
                    Err(e) => break e,
                }
                if s.steps > self.lim.max_steps {
                    break Stop::Hang;
                }
                if self.lim.over() {
                    complete = false;
                    self.res.why_incomplete = "deadline".into();
                    break Stop::Cut;
                }
            };
            self.st.paths += 1;
            self.st.vars_max = self.st.vars_max.max(s.seq.len() as u64);
            match stop {
                Stop::Done => self.sample(&mut s, "ok", ""),
                Stop::Cut => self.st.cut += 1,
                Stop::Dead => {
                    self.st.dead += 1;
                    self.st.paths -= 1;
                }
                Stop::Panic(m) => self.violation(&mut s, "panic", &m),
                Stop::Hang => self.violation(&mut s, "hang", "no result within the step limit"),
                Stop::Assert(id) => self.violation(&mut s, "assert", &id.to_string()),
                Stop::Err(e) => {
                    let w = self.witness(&mut s, "error", &e);
                    self.res.error = Some(format!("{} [stack: {}] inputs {:?}", e, w.stack.join(" < "), w.inputs));
                    complete = false;
                    break;
                }
            }
            if self.lim.over() {
                if !self.work.is_empty() {
                    complete = false;
                    self.res.why_incomplete = "deadline".into();
                    break;
                }
            }
            if self.res.violations.len() >= self.lim.max_viol {
                complete = false;
                self.res.why_incomplete = "stopped after violations".into();
                break;
            }
        }
        if self.sv.unknown > 0 {
            complete = false;
            self.res.why_incomplete = "solver answered unknown".into();
        }
        self.res.complete = complete;
        self.finish(t0)
    }
    fn finish(mut self, t0: Instant) -> JobResult {
        if self.lim.trace {
            let mut v: Vec<_> = self.prof.drain().collect();
            v.sort_by_key(|x| std::cmp::Reverse(x.1));
            for (k, n) in v.iter().take(15) {
                eprintln!("{:8} {}", n, k);
            }
        }
        self.st.queries = self.sv.queries;
        self.st.sat = self.sv.sat;
        self.st.unsat = self.sv.unsat;
        self.st.unknown = self.sv.unknown;
        self.st.qcached = self.sv.cached;
        self.st.solver_s = self.sv.time;
        self.st.solver_max_s = self.sv.max_time;
        self.res.stats = self.st.clone();
        self.res.smt = self.sv.smt_dump.take().unwrap_or_default();
        self.res.wall = t0.elapsed().as_secs_f64();
        std::mem::replace(
            &mut self.res,
            JobResult {
                complete: false,
                why_incomplete: String::new(),
                error: None,
                stats: Stats::default(),
                violations: vec![],
                samples: vec![],
                reach: Default::default(),
                reach_assert: Default::default(),
                funcs: vec![],
                smt: vec![],
                wall: 0.0,
            },
        )
    }
    fn witness(&mut self, s: &mut State, kind: &str, what: &str) -> Witness {
        let inputs = s
            .seq
            .iter()
            .map(|v| (s.model.get(*v as usize).copied().unwrap_or(0) & wmask(self.ar.vars[*v as usize].1)) as u64)
            .collect();
        let obs = s
            .obs
            .iter()
            .map(|(t, v)| {
                (
                    *t,
                    match v {
                        Val::C(c) => *c,
                        Val::S(e) => self.ar.eval(*e, &s.model) as u64,
                        _ => 0,
                    },
                )
            })
            .collect();
        let stack = s
            .frames
            .iter()
            .rev()
            .map(|f| {
                let d = &self.p.funcs[f.f.id as usize];
                if d.pretty.is_empty() {
                    d.name.clone()
                } else {
                    d.pretty.clone()
                }
            })
            .collect();
        Witness { inputs, kind: kind.into(), what: what.into(), obs, stack }
    }
    fn sample(&mut self, s: &mut State, kind: &str, what: &str) {
        // the model must satisfy the path condition: internal consistency check
        for i in 0..s.pc.len() {
            if self.ar.eval(s.pc[i], &s.model) != 1 {
                self.res.error = Some("internal: model does not satisfy the path condition".into());
                return;
            }
        }
        let k = self.lim.samples;
        if k == 0 {
            return;
        }
        let n = self.st.paths;
        if self.res.samples.len() < k {
            let w = self.witness(s, kind, what);
            self.res.samples.push(w);
        } else {
            let r = (self.rand() % n) as usize;
            if r < k {
                let w = self.witness(s, kind, what);
                self.res.samples[r] = w;
            }
        }
    }
    fn violation(&mut self, s: &mut State, kind: &str, what: &str) {
        let w = self.witness(s, kind, what);
        self.res.violations.push(w);
        self.lim.hurry();
    }

    fn push_frame(&mut self, s: &mut State, f: &'static Func, args: Vec<Val>, dst: Option<u32>, normal: Option<u32>) {
        let mut regs = vec![Val::C(0); f.nregs as usize];
        for (r, v) in f.params.iter().zip(args) {
            regs[*r as usize] = v;
        }
        let (n, sp) = (s.mem.stack.len(), s.mem.sp);
        s.frames.push(Frame { f, bb: 0, ip: 0, regs: Rc::new(regs), dst, normal, nstack: n, sp });
    }

    // ---- solving ----
    fn slice(&self, s: &State, m: u128) -> Vec<E> {
        let mut m = m;
        loop {
            let mut n = m;
            for c in &s.pc {
                let cm = self.ar.mask(*c);
                if cm & m != 0 {
                    n |= cm;
                }
            }
            if n == m {
                break;
            }
            m = n;
        }
        s.pc.iter().copied().filter(|c| self.ar.mask(*c) & m != 0).collect()
    }
    fn set_model(&mut self, s: &mut State, m: &[(u32, u128)]) {
        for (v, x) in m {
            if s.model.len() <= *v as usize {
                s.model.resize(*v as usize + 1, 0);
            }
            s.model[*v as usize] = *x;
        }
    }
    /// Is pc && c satisfiable? If so returns a model update.
    fn feasible(&mut self, s: &mut State, c: E) -> X<Option<Vec<(u32, u128)>>> {
        if let Some(k) = self.ar.as_const(c) {
            return Ok(if k == 1 { Some(vec![]) } else { None });
        }
        if self.ar.eval(c, &s.model) == 1 {
            return Ok(Some(vec![]));
        }
        if let Some(v) = self.ar.unary8(c) {
            let t = self.ar.table(c, v);
            let d = s.dom.get(v as usize).copied().unwrap_or(FULL);
            let x = dom_and(d, t);
            let decided = dom_empty(&x) || s.multi >> v & 1 == 0;
            if decided {
                self.st.branch_dom += 1;
                let ans = !dom_empty(&x);
                if !self.domcache.contains_key(&(d, t)) {
                    // each distinct one-byte query is put to the solver once
                    let mut q: Vec<E> = s.pc.iter().copied().filter(|p| self.ar.unary8(*p) == Some(v)).collect();
                    q.push(c);
                    let r = self.sv.check(&self.ar, &q);
                    match (&r, ans) {
                        (Res::Sat(_), true) | (Res::Unsat, false) | (Res::Unknown, _) => {}
                        _ => return er("internal: solver disagrees with the truth table"),
                    }
                    self.domcache.insert((d, t), ans);
                }
                return Ok(dom_first(&x).map(|b| vec![(v, b as u128)]));
            }
        }
        self.st.branch_solver += 1;
        let mut q = self.slice(s, self.ar.mask(c));
        q.push(c);
        match self.sv.check(&self.ar, &q) {
            Res::Sat(m) => Ok(Some(m)),
            Res::Unsat => Ok(None),
            Res::Unknown => er("solver answered unknown on a branch"),
        }
    }
    fn assume(&mut self, s: &mut State, c: E) {
        if self.ar.as_const(c).is_some() || s.pc.contains(&c) {
            return;
        }
        // split conjunctions
        if let Node::Bin(Op::And, a, b) = self.ar.node(c) {
            self.assume(s, a);
            self.assume(s, b);
            return;
        }
        s.pc.push(c);
        if let Some(v) = self.ar.unary8(c) {
            let t = self.ar.table(c, v);
            if s.dom.len() <= v as usize {
                s.dom.resize(v as usize + 1, FULL);
            }
            s.dom[v as usize] = dom_and(s.dom[v as usize], t);
        } else {
            s.multi |= self.ar.mask(c);
        }
    }
    /// Decide a boolean: follows one side, forks the other when both are possible.
    fn branch(&mut self, s: &mut State, c: E) -> X<bool> {
        if let Some(k) = self.ar.as_const(c) {
            return Ok(k == 1);
        }
        let nc = self.ar.not(c);
        for x in s.pc.iter().rev().take(64).chain(s.known.iter().rev().take(64)) {
            if *x == c {
                return Ok(true);
            }
            if *x == nc {
                return Ok(false);
            }
        }
        let c2 = self.unsub(s, c);
        if c2 != c {
            let t = self.branch2(s, c2, Some(c))?;
            s.known.push(if t { c } else { nc });
            return Ok(t);
        }
        self.branch2(s, c, None)
    }
    fn holds(&self, s: &State, c: E) -> bool {
        s.pc.iter().rev().take(64).chain(s.known.iter().rev().take(64)).any(|x| *x == c)
    }
    /// comparisons with a difference x - b as comparisons of sums with x,
    /// where the path has b <= x
    fn unsub(&mut self, s: &State, c: E) -> E {
        let (mut op, mut a, mut b) = match self.ar.node(c) {
            Node::Bin(op @ (Op::Ult | Op::Ule), a, b) => (op, a, b),
            _ => return c,
        };
        let w = self.ar.w(a);
        let mut changed = false;
        loop {
            let (d, other, left) = match (self.ar.node(a), self.ar.node(b)) {
                (_, Node::Bin(Op::Sub, ..)) => (b, a, false),
                (Node::Bin(Op::Sub, ..), _) => (a, b, true),
                _ => break,
            };
            let (x, y) = match self.ar.node(d) {
                Node::Bin(_, x, y) => (x, y),
                _ => break,
            };
            let k = self.ar.bin(Op::Ule, y, x);
            if self.ar.as_const(k) != Some(1) && !self.holds(s, k) {
                break;
            }
            if self.ar.max(other).checked_add(self.ar.max(y)).map_or(true, |t| t > wmask(w)) {
                break;
            }
            let sum = self.ar.bin(Op::Add, other, y);
            if left {
                a = x;
                b = sum;
            } else {
                a = sum;
                b = x;
            }
            changed = true;
        }
        if !changed {
            return c;
        }
        let _ = &mut op;
        self.ar.bin(op, a, b)
    }
    fn branch2(&mut self, s: &mut State, c: E, orig: Option<E>) -> X<bool> {
        if let Some(k) = self.ar.as_const(c) {
            return Ok(k == 1);
        }
        let nc = self.ar.not(c);
        if orig.is_some() {
            if self.holds(s, c) {
                return Ok(true);
            }
            if self.holds(s, nc) {
                return Ok(false);
            }
        }
        self.st.branch_sym += 1;
        let cur = self.ar.eval(c, &s.model) == 1;
        let other = if cur { nc } else { c };
        let me = if cur { c } else { nc };
        if let Some(m) = self.feasible(s, other)? {
            let mut ch = s.clone();
            self.set_model(&mut ch, &m);
            self.assume(&mut ch, other);
            if let Some(o) = orig {
                let o = if cur { self.ar.not(o) } else { o };
                ch.known.push(o);
            }
            self.st.forks += 1;
            if self.lim.trace {
                let mut k = String::new();
                for f in s.frames.iter().rev().take(4) {
                    let d = &self.p.funcs[f.f.id as usize];
                    k.push_str(if d.pretty.is_empty() { &d.name } else { &d.pretty });
                    k.push_str(" < ");
                }
                *self.prof.entry(k).or_insert(0) += 1;
            }
            self.work.push(ch);
            self.assume(s, me);
        } else {
            s.known.push(me);
        }
        Ok(cur)
    }
    /// uses a decided condition in the registers that mention it
    fn learn(&mut self, s: &mut State, c: E, t: bool) {
        if self.ar.as_const(c).is_some() || self.ar.unary8(c).is_some() {
            return;
        }
        let m = self.ar.mask(c);
        let c = if let Node::Not(x) = self.ar.node(c) { (x, !t) } else { (c, t) };
        let v = self.ar.konst(c.1 as u128, 1);
        let mut memo = Default::default();
        let fr = s.frames.last_mut().unwrap();
        let mut new: Vec<(usize, Val)> = vec![];
        for (i, r) in fr.regs.iter().enumerate() {
            if let Val::S(e) = r {
                if *e > c.0 && self.ar.mask(*e) & m != 0 {
                    let x = self.ar.subst(*e, c.0, v, &mut memo);
                    if x != *e {
                        new.push((i, norm(&self.ar, x)));
                    }
                }
            }
        }
        if !new.is_empty() {
            let regs = Rc::make_mut(&mut fr.regs);
            for (i, x) in new {
                regs[i] = x;
            }
        }
    }
    /// picks the alternative of a conditional that the path has decided
    fn resolve(&mut self, s: &State, mut e: E) -> E {
        while let Node::Ite(c, a, b) = self.ar.node(e) {
            let nc = self.ar.not(c);
            let mut r = 0;
            for x in s.pc.iter().rev().take(64).chain(s.known.iter().rev().take(64)) {
                if *x == c {
                    r = a;
                    break;
                }
                if *x == nc {
                    r = b;
                    break;
                }
            }
            if r == 0 {
                break;
            }
            e = r;
        }
        e
    }
    /// Make a value concrete, forking over the alternatives.
    fn concrete(&mut self, s: &mut State, v: &Val, w: u32) -> X<u64> {
        match v {
            Val::C(c) => Ok(*c),
            Val::S(e) => {
                if let Some(c) = self.ar.as_const(*e) {
                    return Ok(c as u64);
                }
                let x = self.ar.eval(*e, &s.model);
                let k = self.ar.konst(x, w);
                let c = self.ar.bin(Op::Eq, *e, k);
                if self.branch(s, c)? {
                    Ok(x as u64)
                } else {
                    er("internal: concretisation")
                }
            }
            Val::A(_) => er("aggregate where scalar expected"),
        }
    }
    fn e(&mut self, v: &Val, w: u32) -> E {
        match v {
            Val::C(c) => self.ar.konst(*c as u128, w),
            Val::S(e) => *e,
            Val::A(_) => panic!("aggregate as scalar"),
        }
    }
    fn n(&self, e: E) -> Val {
        norm(&self.ar, e)
    }

    // ---- values ----
    #[inline]
    fn opd(&mut self, fr: &Frame, o: &Opd) -> Val {
        match o {
            Opd::R(r) => fr.regs[*r as usize].clone(),
            Opd::C(c) => Val::C(*c),
            Opd::W(w) => Val::S(self.ar.konst(*w, 128)),
            Opd::Agg(a) => {
                let a = a.clone();
                Val::A(Rc::new(a.iter().map(|x| self.opd(fr, x)).collect()))
            }
        }
    }
    fn get(&mut self, s: &State, o: &Opd) -> Val {
        let fr = s.frames.last().unwrap();
        match o {
            Opd::R(r) => fr.regs[*r as usize].clone(),
            Opd::C(c) => Val::C(*c),
            _ => self.opd(fr, o),
        }
    }
    #[inline]
    fn set(&mut self, s: &mut State, d: u32, v: Val) {
        let fr = s.frames.last_mut().unwrap();
        Rc::make_mut(&mut fr.regs)[d as usize] = v;
    }
    fn bin(&mut self, op: Op, w: u32, a: &Val, b: &Val) -> Val {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            if w <= 64 {
                let m = mask64(w);
                let (x, y) = (*x, *y);
                let r = match op {
                    Op::Add => x.wrapping_add(y) & m,
                    Op::Sub => x.wrapping_sub(y) & m,
                    Op::Mul => x.wrapping_mul(y) & m,
                    Op::And => x & y,
                    Op::Or => x | y,
                    Op::Xor => x ^ y,
                    Op::Shl if y < 64 => {
                        if y >= w as u64 {
                            0
                        } else {
                            x << y & m
                        }
                    }
                    Op::LShr if y < 64 => x >> y,
                    _ => fold(op, w, x as u128, y as u128) as u64,
                };
                return Val::C(r);
            }
        }
        let (x, y) = (self.e(a, w), self.e(b, w));
        let r = self.ar.bin(op, x, y);
        self.n(r)
    }
    fn cmp(&mut self, p: Pred, w: u32, a: &Val, b: &Val) -> Val {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let (sxx, sy) = (sx64(x, w), sx64(y, w));
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Slt => sxx < sy,
                Pred::Sle => sxx <= sy,
                Pred::Sgt => sxx > sy,
                Pred::Sge => sxx >= sy,
            };
            return Val::C(r as u64);
        }
        let (x, y) = (self.e(a, w), self.e(b, w));
        let r = match p {
            Pred::Eq => self.ar.bin(Op::Eq, x, y),
            Pred::Ne => {
                let t = self.ar.bin(Op::Eq, x, y);
                self.ar.not(t)
            }
            Pred::Ult => self.ar.bin(Op::Ult, x, y),
            Pred::Ule => self.ar.bin(Op::Ule, x, y),
            Pred::Ugt => self.ar.bin(Op::Ult, y, x),
            Pred::Uge => self.ar.bin(Op::Ule, y, x),
            Pred::Slt => self.ar.bin(Op::Slt, x, y),
            Pred::Sle => self.ar.bin(Op::Sle, x, y),
            Pred::Sgt => self.ar.bin(Op::Slt, y, x),
            Pred::Sge => self.ar.bin(Op::Sle, y, x),
        };
        self.n(r)
    }
    fn cast(&mut self, k: CastK, from: u32, to: u32, a: &Val) -> Val {
        if let Val::C(x) = a {
            if to <= 64 {
                return Val::C(match k {
                    CastK::Trunc => x & mask64(to),
                    CastK::Sext => sx64(*x, from) as u64 & mask64(to),
                    _ => *x,
                });
            }
        }
        let x = self.e(a, from);
        let r = match k {
            CastK::Trunc => self.ar.extract(x, 0, to),
            CastK::Zext => self.ar.zext(x, to),
            CastK::Sext => self.ar.sext(x, to),
            CastK::Bit => x,
        };
        self.n(r)
    }
    fn ite(&mut self, w: u32, c: &Val, a: &Val, b: &Val) -> Val {
        match c {
            Val::C(1) => a.clone(),
            Val::C(_) => b.clone(),
            _ => {
                if let (Val::A(x), Val::A(y)) = (a, b) {
                    // unknown element widths: only identical aggregates can be merged
                    if Rc::ptr_eq(x, y) {
                        return a.clone();
                    }
                }
                let ce = self.e(c, 1);
                let (x, y) = (self.e(a, w), self.e(b, w));
                let r = self.ar.ite(ce, x, y);
                self.n(r)
            }
        }
    }
    fn read_ty(&mut self, s: &State, t: &Ty, a: u64) -> X<Val> {
        match t {
            Ty::Vec(n, e) => {
                let es = e.size();
                let mut v = Vec::with_capacity(*n as usize);
                for i in 0..*n {
                    v.push(self.read_ty(s, e, a + i * es)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            Ty::Arr(..) | Ty::St(..) => {
                let mut v = vec![];
                for i in 0..t.count() {
                    v.push(self.read_ty(s, t.elem(i), a + t.field_off(i))?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            _ => {
                let b = t.bits().ok_or(Stop::Err("load type".into()))?;
                let n = (b as u64 + 7) / 8;
                let v = s.mem.read(self.p, &mut self.ar, a, n).map_err(Stop::Err)?;
                if b as u64 != n * 8 {
                    return Ok(self.cast(CastK::Trunc, n as u32 * 8, b, &v));
                }
                if let Val::S(e) = v {
                    let e = self.resolve(s, e);
                    return Ok(self.n(e));
                }
                Ok(v)
            }
        }
    }
    fn write_ty(&mut self, s: &mut State, t: &Ty, a: u64, v: &Val) -> X<()> {
        match (t, v) {
            (Ty::Vec(..) | Ty::Arr(..) | Ty::St(..), Val::A(f)) => {
                for i in 0..t.count() {
                    self.write_ty(s, t.elem(i), a + t.field_off(i), &f[i])?;
                }
                Ok(())
            }
            _ => {
                let b = t.bits().ok_or(Stop::Err("store type".into()))?;
                let n = (b as u64 + 7) / 8;
                s.mem.write(self.p, &mut self.ar, a, n, v).map_err(Stop::Err)
            }
        }
    }
    fn load(&mut self, s: &mut State, t: &Ty, p: &Val) -> X<Val> {
        let pe = match p {
            Val::C(a) => return self.read_ty(s, t, *a),
            Val::S(e) => *e,
            _ => return er("load address"),
        };
        // symbolic address: collect the feasible addresses, merge into an ite chain
        let mut vals: Vec<(E, Val)> = vec![];
        if let Some(w) = t.bits() {
            let mut tmp_not: Vec<E> = vec![];
            let base = self.slice(s, self.ar.mask(pe));
            loop {
                if vals.len() > 256 {
                    break;
                }
                // find another feasible address
                let mut q = base.clone();
                q.extend(tmp_not.iter().copied());
                let model = if tmp_not.is_empty() {
                    Some(s.model.clone())
                } else if let Some(v) = self.ar.unary8(*tmp_not.last().unwrap()).filter(|v| s.multi >> v & 1 == 0) {
                    let mut d = s.dom.get(v as usize).copied().unwrap_or(FULL);
                    for n in &tmp_not {
                        d = dom_and(d, self.ar.table(*n, v));
                    }
                    dom_first(&d).map(|b| {
                        let mut m = s.model.clone();
                        if m.len() <= v as usize {
                            m.resize(v as usize + 1, 0)
                        }
                        m[v as usize] = b as u128;
                        m
                    })
                } else {
                    match self.sv.check(&self.ar, &q) {
                        Res::Sat(m) => {
                            let mut mm = s.model.clone();
                            for (v, x) in m {
                                if mm.len() <= v as usize {
                                    mm.resize(v as usize + 1, 0)
                                }
                                mm[v as usize] = x;
                            }
                            Some(mm)
                        }
                        Res::Unsat => None,
                        Res::Unknown => return er("solver unknown (address)"),
                    }
                };
                let m = match model {
                    None => break,
                    Some(m) => m,
                };
                let a = self.ar.eval(pe, &m);
                let k = self.ar.konst(a, 64);
                let eq = self.ar.bin(Op::Eq, pe, k);
                let v = self.read_ty(s, t, a as u64)?;
                vals.push((eq, v));
                let ne = self.ar.not(eq);
                if self.ar.as_const(ne) == Some(0) {
                    break;
                }
                tmp_not.push(ne);
            }
            if vals.len() <= 256 {
                let mut it = vals.into_iter().rev();
                let (_, last) = it.next().unwrap();
                let mut acc = self.e(&last, w);
                for (c, v) in it {
                    let x = self.e(&v, w);
                    acc = self.ar.ite(c, x, acc);
                }
                return Ok(self.n(acc));
            }
        }
        let a = self.concrete(s, p, 64)?;
        self.read_ty(s, t, a)
    }

    // ---- main loop ----
    /// executes instructions until the end of a basic block, a call or a stop
    fn block(&mut self, s: &mut State) -> X<()> {
        loop {
            let fr = s.frames.last().unwrap();
            let f: &'static Func = fr.f;
            let ins = &f.blocks[fr.bb as usize].insts[fr.ip as usize];
            s.steps += 1;
            self.st.insts += 1;
            match ins {
                Inst::Bin(op, t, d, a, b) => {
                    let (x, y) = (self.get(s, a), self.get(s, b));
                    let r = match t {
                        VT::I(w) => {
                            if matches!(op, Op::UDiv | Op::URem | Op::SDiv | Op::SRem) {
                                if let Val::C(0) = y {
                                    return er("division by zero");
                                }
                            }
                            let r = self.bin(*op, *w, &x, &y);
                            match &r {
                                // sizes computed from the position of the first one bit:
                                // the cases a loop would tell apart
                                Val::S(e) if self.ar.steps(*e, 12) => Val::C(self.concrete(s, &r, *w)?),
                                _ => r,
                            }
                        }
                        VT::V(n, w) => self.vec2(*n, &x, &y, |me, p, q| me.bin(*op, *w, p, q))?,
                        VT::A(_) => return er("bin agg"),
                    };
                    self.set(s, *d, r);
                }
                Inst::Cmp(p, t, d, a, b) => {
                    let (x, y) = (self.get(s, a), self.get(s, b));
                    let r = match t {
                        VT::I(w) => self.cmp(*p, *w, &x, &y),
                        VT::V(n, w) => self.vec2(*n, &x, &y, |me, u, v| me.cmp(*p, *w, u, v))?,
                        VT::A(_) => return er("cmp agg"),
                    };
                    self.set(s, *d, r);
                }
                Inst::Fp(op, w, to, d, a, b) => {
                    let x = self.get(s, a);
                    let x = self.e(&x, *w);
                    let y = b.as_ref().map(|b| self.get(s, b));
                    let y = y.map(|y| self.e(&y, *w));
                    let r = self.ar.fp(*op, *w, *to, x, y).map_err(Stop::Err)?;
                    let r = self.n(r);
                    self.set(s, *d, r);
                }
                Inst::Cast(k, from, to, d, a) => {
                    let x = self.get(s, a);
                    let r = self.cast_vt(*k, from, to, &x)?;
                    self.set(s, *d, r);
                }
                Inst::Load(d, t, p) => {
                    let a = self.get(s, p);
                    let v = self.load(s, t, &a)?;
                    self.set(s, *d, v);
                }
                Inst::Store(t, v, p) => {
                    let a = self.get(s, p);
                    if let (Val::S(e), Ty::Int(8)) = (&a, &**t) {
                        let v = self.get(s, v);
                        if let Val::C(b) = v {
                            if self.stored_already(s, *e, b as u8)? {
                                let fr = s.frames.last_mut().unwrap();
                                fr.ip += 1;
                                continue;
                            }
                        }
                    }
                    let a = self.concrete(s, &a, 64)?;
                    let v = self.get(s, v);
                    self.write_ty(s, t, a, &v)?;
                }
                Inst::Gep(d, base, off, idx) => {
                    let mut a = self.get(s, base);
                    if *off != 0 {
                        a = self.bin(Op::Add, 64, &a, &Val::C(*off as u64));
                    }
                    for (o, w, sc) in idx {
                        let v = self.get(s, o);
                        let v = if *w < 64 { self.cast(CastK::Sext, *w, 64, &v) } else { v };
                        let v = if *sc != 1 { self.bin(Op::Mul, 64, &v, &Val::C(*sc)) } else { v };
                        a = self.bin(Op::Add, 64, &a, &v);
                    }
                    self.set(s, *d, a);
                }
                Inst::Alloca(d, size, al) => {
                    let a = s.mem.alloca(*size, *al);
                    self.set(s, *d, Val::C(a));
                }
                Inst::Select(t, d, c, cvec, a, b) => {
                    let cv = self.get(s, c);
                    let (x, y) = (self.get(s, a), self.get(s, b));
                    let r = match t {
                        VT::V(n, w) => {
                            let mut o = vec![];
                            let (xa, ya) = (self.agg(&x)?, self.agg(&y)?);
                            for i in 0..*n as usize {
                                let ci = if *cvec { self.agg(&cv)?[i].clone() } else { cv.clone() };
                                o.push(self.ite(*w, &ci, &xa[i], &ya[i]));
                            }
                            Val::A(Rc::new(o))
                        }
                        VT::I(w) => {
                            // do not build symbolic pointers out of distinct objects
                            if *w == 64 && matches!(cv, Val::S(_)) {
                                if let (Val::C(p), Val::C(q)) = (&x, &y) {
                                    if p != q && (*p >= FBASE && *q >= FBASE) {
                                        let ce = self.e(&cv, 1);
                                        let r = if self.branch(s, ce)? { x } else { y };
                                        self.set(s, *d, r);
                                        s.frames.last_mut().unwrap().ip += 1;
                                        continue;
                                    }
                                }
                            }
                            self.ite(*w, &cv, &x, &y)
                        }
                        VT::A(_) => {
                            let ce = self.e(&cv, 1);
                            if self.branch(s, ce)? {
                                x
                            } else {
                                y
                            }
                        }
                    };
                    self.set(s, *d, r);
                }
                Inst::Copy(d, a) => {
                    let v = self.get(s, a);
                    self.set(s, *d, v);
                }
                Inst::Extract(d, a, path) => {
                    let mut v = self.get(s, a);
                    for i in path {
                        v = match v {
                            Val::A(f) => f[*i as usize].clone(),
                            _ => return er("extractvalue"),
                        };
                    }
                    self.set(s, *d, v);
                }
                Inst::Insert(d, a, x, path) => {
                    let v = self.get(s, a);
                    let x = self.get(s, x);
                    let r = insert(&v, &x, path);
                    self.set(s, *d, r);
                }
                Inst::ExtElt(_w, d, a, i) => {
                    let v = self.get(s, a);
                    let i = self.get(s, i);
                    let i = self.concrete(s, &i, 64)?;
                    let r = self.agg(&v)?[i as usize].clone();
                    self.set(s, *d, r);
                }
                Inst::InsElt(_w, d, a, x, i) => {
                    let v = self.get(s, a);
                    let i = self.get(s, i);
                    let i = self.concrete(s, &i, 64)?;
                    let x = self.get(s, x);
                    let mut f = (*self.agg(&v)?).clone();
                    f[i as usize] = x;
                    self.set(s, *d, Val::A(Rc::new(f)));
                }
                Inst::Shuffle(d, n, a, b, m) => {
                    let (x, y) = (self.get(s, a), self.get(s, b));
                    let (x, y) = (self.agg(&x)?, self.agg(&y)?);
                    let o = m
                        .iter()
                        .map(|i| if *i < *n { x[*i as usize].clone() } else { y[(*i - *n) as usize].clone() })
                        .collect();
                    self.set(s, *d, Val::A(Rc::new(o)));
                }
                Inst::Nop => {}
                Inst::Rmw(op, w, d, p, v) => {
                    let a = self.get(s, p);
                    let a = self.concrete(s, &a, 64)?;
                    let n = (*w as u64 + 7) / 8;
                    let old = s.mem.read(self.p, &mut self.ar, a, n).map_err(Stop::Err)?;
                    let v = self.get(s, v);
                    let new = match op.as_str() {
                        "xchg" => v,
                        "add" => self.bin(Op::Add, *w, &old, &v),
                        "sub" => self.bin(Op::Sub, *w, &old, &v),
                        "and" => self.bin(Op::And, *w, &old, &v),
                        "or" => self.bin(Op::Or, *w, &old, &v),
                        "xor" => self.bin(Op::Xor, *w, &old, &v),
                        _ => return er(format!("atomicrmw {}", op)),
                    };
                    s.mem.write(self.p, &mut self.ar, a, n, &new).map_err(Stop::Err)?;
                    self.set(s, *d, old);
                }
                Inst::CmpXchg(w, d, p, c, nv) => {
                    let a = self.get(s, p);
                    let a = self.concrete(s, &a, 64)?;
                    let n = (*w as u64 + 7) / 8;
                    let old = s.mem.read(self.p, &mut self.ar, a, n).map_err(Stop::Err)?;
                    let c = self.get(s, c);
                    let eq = self.cmp(Pred::Eq, *w, &old, &c);
                    let ee = self.e(&eq, 1);
                    let t = self.branch(s, ee)?;
                    if t {
                        let nv = self.get(s, nv);
                        s.mem.write(self.p, &mut self.ar, a, n, &nv).map_err(Stop::Err)?;
                    }
                    self.set(s, *d, Val::A(Rc::new(vec![old, Val::C(t as u64)])));
                }
                Inst::Br(b) => {
                    self.goto(s, *b);
                    return Ok(());
                }
                Inst::CBr(c, a, b) => {
                    let v = self.get(s, c);
                    let t = match v {
                        Val::C(k) => k & 1 == 1,
                        Val::S(e) => {
                            let t = self.branch(s, e)?;
                            self.learn(s, e, t);
                            t
                        }
                        _ => return er("br"),
                    };
                    self.goto(s, if t { *a } else { *b });
                    return Ok(());
                }
                Inst::Switch(w, v, def, cs) => {
                    let v = self.get(s, v);
                    let t = match &v {
                        Val::C(k) => cs.iter().find(|c| c.0 == *k as u128).map_or(*def, |c| c.1),
                        Val::S(e) => {
                            let x = self.ar.eval(*e, &s.model);
                            let tgt = cs.iter().find(|c| c.0 == x).map_or(*def, |c| c.1);
                            // condition for the target the model takes
                            let mut cond: Option<E> = None;
                            for (k, b) in cs {
                                let take = if tgt == *def { *b != tgt } else { *b == tgt };
                                if take {
                                    let ke = self.ar.konst(*k, *w);
                                    let c = self.ar.bin(Op::Eq, *e, ke);
                                    cond = Some(match cond {
                                        None => c,
                                        Some(p) => self.ar.bin(Op::Or, p, c),
                                    });
                                }
                            }
                            let c = match cond {
                                None => self.ar.konst((tgt != *def) as u128, 1),
                                Some(c) => c,
                            };
                            let c = if tgt == *def { self.ar.not(c) } else { c };
                            if !self.branch(s, c)? {
                                return er("internal: switch");
                            }
                            tgt
                        }
                        _ => return er("switch"),
                    };
                    self.goto(s, t);
                    return Ok(());
                }
                Inst::Ret(v) => {
                    let r = v.as_ref().map(|v| self.get(s, v));
                    let fr = s.frames.pop().unwrap();
                    s.mem.stack.truncate(fr.nstack);
                    s.mem.sp = fr.sp;
                    if s.frames.is_empty() {
                        self.retval = r;
                        return Err(Stop::Done);
                    }
                    if let (Some(d), Some(r)) = (fr.dst, r) {
                        self.set(s, d, r);
                    }
                    match fr.normal {
                        Some(b) => self.goto(s, b),
                        None => s.frames.last_mut().unwrap().ip += 1,
                    }
                    return Ok(());
                }
                Inst::Unreachable => {
                    return er("reached an 'unreachable' instruction");
                }
                Inst::Call(dst, callee, args, rt, normal) => {
                    self.call(s, *dst, callee, args, rt, *normal)?;
                    return Ok(());
                }
                Inst::Unsup(m) => return er(format!("unsupported instruction: {}", m)),
            }
            s.frames.last_mut().unwrap().ip += 1;
        }
    }
    fn goto(&mut self, s: &mut State, b: u32) {
        let fr = s.frames.last_mut().unwrap();
        let prev = fr.bb;
        let blk: &'static Block = &fr.f.blocks[b as usize];
        fr.bb = b;
        fr.ip = 0;
        if !blk.phis.is_empty() {
            let mut vals = Vec::with_capacity(blk.phis.len());
            for (d, inc) in &blk.phis {
                let o = &inc.iter().find(|x| x.0 == prev).expect("phi edge").1;
                let v = {
                    let fr = s.frames.last().unwrap();
                    match o {
                        Opd::R(r) => fr.regs[*r as usize].clone(),
                        Opd::C(c) => Val::C(*c),
                        _ => {
                            let fr = fr.clone();
                            self.opd(&fr, o)
                        }
                    }
                };
                vals.push((*d, v));
            }
            let fr = s.frames.last_mut().unwrap();
            let regs = Rc::make_mut(&mut fr.regs);
            for (d, v) in vals {
                regs[d as usize] = v;
            }
        }
    }
    fn agg(&self, v: &Val) -> X<Rc<Vec<Val>>> {
        match v {
            Val::A(f) => Ok(f.clone()),
            _ => er("vector expected"),
        }
    }
    fn vec2(&mut self, n: u32, a: &Val, b: &Val, mut f: impl FnMut(&mut Self, &Val, &Val) -> Val) -> X<Val> {
        let (x, y) = (self.agg(a)?, self.agg(b)?);
        let mut o = Vec::with_capacity(n as usize);
        for i in 0..n as usize {
            o.push(f(self, &x[i], &y[i]));
        }
        Ok(Val::A(Rc::new(o)))
    }
    fn cast_vt(&mut self, k: CastK, from: &VT, to: &VT, x: &Val) -> X<Val> {
        match (from, to) {
            (VT::I(a), VT::I(b)) => Ok(self.cast(k, *a, *b, x)),
            (VT::V(n, a), VT::V(m, b)) if n == m && (k != CastK::Bit || a == b) => {
                let f = self.agg(x)?;
                let mut o = vec![];
                for v in f.iter() {
                    o.push(self.cast(k, *a, *b, v));
                }
                Ok(Val::A(Rc::new(o)))
            }
            _ => {
                // bitcast between vectors and integers, little endian
                let whole = match from {
                    VT::I(w) => self.e(x, *w),
                    VT::V(n, w) => {
                        let f = self.agg(x)?;
                        let mut acc = self.e(&f[0], *w);
                        for i in 1..*n as usize {
                            let h = self.e(&f[i], *w);
                            acc = self.ar.concat(h, acc);
                        }
                        acc
                    }
                    _ => return er("bitcast"),
                };
                match to {
                    VT::I(_) => Ok(self.n(whole)),
                    VT::V(n, w) => {
                        let mut o = vec![];
                        for i in 0..*n {
                            let p = self.ar.extract(whole, i * w, *w);
                            o.push(self.n(p));
                        }
                        Ok(Val::A(Rc::new(o)))
                    }
                    _ => er("bitcast"),
                }
            }
        }
    }

    fn fin(&mut self, s: &mut State, dst: Option<u32>, normal: Option<u32>, v: Option<Val>) {
        if let (Some(d), Some(v)) = (dst, v) {
            self.set(s, d, v);
        }
        match normal {
            Some(b) => self.goto(s, b),
            None => s.frames.last_mut().unwrap().ip += 1,
        }
    }
    fn call(&mut self, s: &mut State, dst: Option<u32>, callee: &Callee, args: &[Opd], rt: &VT, normal: Option<u32>) -> X<()> {
        let id = match callee {
            Callee::Fn(f) => *f,
            Callee::Intr(n) => {
                let v = self.intrinsic(s, n, args, rt)?;
                self.fin(s, dst, normal, v);
                return Ok(());
            }
            Callee::Ind(o) => {
                let v = self.get(s, o);
                let a = self.concrete(s, &v, 64)?;
                if a < FBASE || (a - FBASE) % 16 != 0 || (a - FBASE) / 16 >= self.p.funcs.len() as u64 {
                    return er(format!("indirect call to {:#x}", a));
                }
                ((a - FBASE) / 16) as u32
            }
        };
        let hook = self.hooks[id as usize];
        if hook == Hook::None || matches!(hook, Hook::Redirect(_)) {
            let id = if let Hook::Redirect(r) = hook { r } else { id };
            if self.p.funcs[id as usize].range.is_none() {
                return er(format!("call to external function {}", self.p.funcs[id as usize].name));
            }
            if s.frames.len() > 2000 {
                return Err(Stop::Panic("stack depth".into()));
            }
            let f = self.getf(id)?;
            let a: Vec<Val> = args.iter().map(|o| self.get(s, o)).collect();
            self.push_frame(s, f, a, dst, normal);
            return Ok(());
        }
        let a: Vec<Val> = args.iter().map(|o| self.get(s, o)).collect();
        let r = match hook {
            Hook::Panic => {
                let d = &self.p.funcs[id as usize];
                let n = if d.pretty.is_empty() { d.name.clone() } else { d.pretty.clone() };
                return Err(Stop::Panic(n));
            }
            Hook::RetOkFmt => Some(Val::C(0)),
            Hook::SymInt => {
                let w = self.concrete(s, &a[0], 64)? as u32;
                let seq = s.seq.len() as u32;
                let (i, e) = self.ar.var(seq, w);
                s.seq.push(i);
                let r = if w < 64 { self.ar.zext(e, 64) } else { e };
                Some(Val::S(r))
            }
            Hook::SymAssume => {
                let c = self.truth(&a[0]);
                if let Some(k) = self.ar.as_const(c) {
                    if k == 0 {
                        return Err(Stop::Dead);
                    }
                } else {
                    match self.feasible(s, c)? {
                        None => return Err(Stop::Dead),
                        Some(m) => {
                            self.set_model(s, &m);
                            self.assume(s, c);
                        }
                    }
                }
                None
            }
            Hook::SymAssert => {
                let id = self.concrete(s, &a[1], 64)?;
                let c = self.truth(&a[0]);
                self.st.asserts += 1;
                *self.res.reach_assert.entry(id).or_insert(0) += 1;
                match self.ar.as_const(c) {
                    Some(1) => self.st.asserts_const += 1,
                    Some(_) => return Err(Stop::Assert(id)),
                    None => {
                        self.st.asserts_solver += 1;
                        let nc = self.ar.not(c);
                        let mut q = self.slice(s, self.ar.mask(c));
                        q.push(nc);
                        match self.sv.check(&self.ar, &q) {
                            Res::Unsat => {}
                            Res::Sat(m) => {
                                self.set_model(s, &m);
                                return Err(Stop::Assert(id));
                            }
                            Res::Unknown => return er(format!("solver answered unknown on assertion {}", id)),
                        }
                    }
                }
                None
            }
            Hook::SymObserve => {
                let t = self.concrete(s, &a[0], 64)?;
                s.obs.push((t, a[1].clone()));
                None
            }
            Hook::SymReach => {
                let t = self.concrete(s, &a[0], 64)?;
                self.res.reach.insert(t);
                None
            }
            Hook::SymCut => return Err(Stop::Cut),
            Hook::SymFix => Some(Val::C(self.concrete(s, &a[0], 64)?)),
            Hook::Malloc | Hook::Calloc => {
                let sz = if hook == Hook::Calloc { self.bin(Op::Mul, 64, &a[0], &a[1]) } else { a[0].clone() };
                let n = self.upper(s, &sz)?;
                if n > 1 << 32 {
                    Some(Val::C(0))
                } else {
                    Some(Val::C(s.mem.alloc(n, 16)))
                }
            }
            Hook::Realloc => {
                let old = self.concrete(s, &a[0], 64)?;
                let n = self.upper(s, &a[1])?;
                let p = s.mem.alloc(n, 16);
                if old != 0 {
                    let o = s.mem.size_of(old).ok_or(Stop::Err("realloc of unknown block".into()))?;
                    s.mem.copy(self.p, p, old, o.min(n)).map_err(Stop::Err)?;
                    s.mem.free(old).map_err(Stop::Err)?;
                }
                Some(Val::C(p))
            }
            Hook::Free => {
                let p = self.concrete(s, &a[0], 64)?;
                if p != 0 {
                    s.mem.free(p).map_err(Stop::Err)?;
                }
                None
            }
            Hook::PosixMemalign => {
                let out = self.concrete(s, &a[0], 64)?;
                let al = self.concrete(s, &a[1], 64)?;
                let n = self.upper(s, &a[2])?;
                let p = s.mem.alloc(n, al);
                s.mem.write(self.p, &mut self.ar, out, 8, &Val::C(p)).map_err(Stop::Err)?;
                Some(Val::C(0))
            }
            Hook::Bcmp | Hook::Memcmp => {
                let p = self.concrete(s, &a[0], 64)?;
                let q = self.concrete(s, &a[1], 64)?;
                let n = self.concrete(s, &a[2], 64)?;
                let mut acc = self.ar.konst(0, 32);
                for i in (0..n).rev() {
                    let x = s.mem.read(self.p, &mut self.ar, p + i, 1).map_err(Stop::Err)?;
                    let y = s.mem.read(self.p, &mut self.ar, q + i, 1).map_err(Stop::Err)?;
                    if let (Val::C(x), Val::C(y)) = (&x, &y) {
                        if x == y {
                            continue;
                        }
                        if hook == Hook::Bcmp {
                            acc = self.ar.konst(1, 32);
                            break;
                        }
                        acc = self.ar.konst(if x < y { 0xffff_ffff } else { 1 }, 32);
                        continue;
                    }
                    let (xe, ye) = (self.e(&x, 8), self.e(&y, 8));
                    let eq = self.ar.bin(Op::Eq, xe, ye);
                    let one = self.ar.konst(1, 32);
                    let ne = if hook == Hook::Bcmp {
                        one
                    } else {
                        let lt = self.ar.bin(Op::Ult, xe, ye);
                        let m1 = self.ar.konst(0xffff_ffff, 32);
                        self.ar.ite(lt, m1, one)
                    };
                    acc = self.ar.ite(eq, acc, ne);
                }
                Some(self.n(acc))
            }
            Hook::Strlen => {
                let p = self.concrete(s, &a[0], 64)?;
                let mut n = 0;
                loop {
                    let x = s.mem.read(self.p, &mut self.ar, p + n, 1).map_err(Stop::Err)?;
                    if self.concrete(s, &x, 8)? == 0 {
                        break;
                    }
                    n += 1;
                }
                Some(Val::C(n))
            }
            Hook::None | Hook::Redirect(_) => unreachable!(),
        };
        self.fin(s, dst, normal, r);
        Ok(())
    }
    fn truth(&mut self, v: &Val) -> E {
        let z = self.cmp(Pred::Ne, 64, v, &Val::C(0));
        self.e(&z, 1)
    }
    /// a bound on v: exact up to 64, otherwise the least of a few powers of two
    fn upper(&mut self, s: &mut State, v: &Val) -> X<u64> {
        let e = match v {
            Val::C(c) => return Ok(*c),
            Val::S(e) => *e,
            _ => return er("size"),
        };
        let mut hi = u64::MAX;
        for b in [32, 26, 20, 14, 10, 6] {
            if !self.exceeds(s, e, 1 << b)? {
                hi = 1 << b;
            } else {
                break;
            }
        }
        if hi <= 64 {
            let mut lo = self.ar.eval(e, &s.model) as u64;
            while lo < hi {
                let m = lo + (hi - lo) / 2;
                if self.exceeds(s, e, m)? {
                    lo = m + 1;
                } else {
                    hi = m;
                }
            }
        }
        Ok(hi)
    }
    /// a byte stored at an address that is not fixed: nothing to do if the
    /// address stays within one object all bytes of which are that byte
    fn stored_already(&mut self, s: &mut State, e: E, b: u8) -> X<bool> {
        let a = self.ar.eval(e, &s.model) as u64;
        let (base, size) = match s.mem.extent(self.p, a) {
            Some(x) if x.1 > 0 => x,
            _ => return Ok(false),
        };
        if !s.mem.with(self.p, base, size, |o, off| o.uniform(off, size, b)).map_err(Stop::Err)? {
            return Ok(false);
        }
        let lo = self.ar.konst(base as u128, 64);
        let hi = self.ar.konst((base + size) as u128, 64);
        let below = self.ar.bin(Op::Ult, e, lo);
        if self.feasible(s, below)?.is_some() {
            return Ok(false);
        }
        let above = self.ar.bin(Op::Ule, hi, e);
        Ok(self.feasible(s, above)?.is_none())
    }
    fn exceeds(&mut self, s: &mut State, e: E, k: u64) -> X<bool> {
        let k = self.ar.konst(k as u128, 64);
        let c = self.ar.bin(Op::Ult, k, e);
        Ok(self.feasible(s, c)?.is_some())
    }
    fn intrinsic(&mut self, s: &mut State, n: &str, args: &[Opd], rt: &VT) -> X<Option<Val>> {
        let n = &n[5..];
        if n.starts_with("memcpy") || n.starts_with("memmove") {
            let d = self.get(s, &args[0]);
            let d = self.concrete(s, &d, 64)?;
            let c = self.get(s, &args[1]);
            let c = self.concrete(s, &c, 64)?;
            let l = self.get(s, &args[2]);
            let l = self.concrete(s, &l, 64)?;
            s.mem.copy(self.p, d, c, l).map_err(Stop::Err)?;
            return Ok(None);
        }
        if n.starts_with("memset") {
            let d = self.get(s, &args[0]);
            let d = self.concrete(s, &d, 64)?;
            let v = self.get(s, &args[1]);
            let l = self.get(s, &args[2]);
            let l = match (&l, &v) {
                (Val::S(_), Val::C(b)) => {
                    // symbolic length: nothing to do if the largest possible
                    // range holds the value already; short ranges bytewise
                    let (mut n, b) = (self.upper(s, &l)?, *b as u8);
                    if n > 64 {
                        // the bound is rough
                        if let Some((base, size)) = s.mem.extent(self.p, d) {
                            n = n.min(base + size - d);
                        }
                    }
                    let same = n == 0 || s.mem.with(self.p, d, n, |o, off| o.uniform(off, n, b)).map_err(Stop::Err)?;
                    if same {
                        return Ok(None);
                    }
                    if n <= 64 {
                        let le = self.e(&l, 64);
                        for i in 0..n {
                            let k = self.ar.konst(i as u128, 64);
                            let c = self.ar.bin(Op::Ult, k, le);
                            let old = s.mem.read(self.p, &mut self.ar, d + i, 1).map_err(Stop::Err)?;
                            let oe = self.e(&old, 8);
                            let be = self.ar.konst(b as u128, 8);
                            let x = self.ar.ite(c, be, oe);
                            let x = self.n(x);
                            s.mem.write(self.p, &mut self.ar, d + i, 1, &x).map_err(Stop::Err)?;
                        }
                        return Ok(None);
                    }
                    self.concrete(s, &l, 64)?
                }
                _ => self.concrete(s, &l, 64)?,
            };
            if l > 0 {
                let p = self.p;
                match v {
                    Val::C(b) if s.mem.with(p, d, l, |o, off| o.uniform(off, l, b as u8)).map_err(Stop::Err)? => {}
                    Val::C(b) => {
                        let buf = vec![b as u8; l as usize];
                        s.mem.with_mut(p, d, l, |o, off| o.write_raw(off, &buf, None)).map_err(Stop::Err)?;
                    }
                    Val::S(e) => {
                        s.mem
                            .with_mut(p, d, l, |o, off| {
                                for i in 0..l {
                                    o.set_byte(off + i, 0, e)
                                }
                            })
                            .map_err(Stop::Err)?;
                    }
                    _ => return er("memset"),
                }
            }
            return Ok(None);
        }
        if n.starts_with("trap") || n.starts_with("ubsantrap") {
            return Err(Stop::Panic("llvm.trap".into()));
        }
        let a: Vec<Val> = args.iter().map(|o| self.get(s, o)).collect();
        if n.starts_with("threadlocal.address")
            || n.starts_with("expect.")
            || n.starts_with("launder")
            || n.starts_with("strip.")
        {
            return Ok(Some(a[0].clone()));
        }
        if n.starts_with("is.constant") {
            return Ok(Some(Val::C(0)));
        }
        if n.contains(".with.overflow.") {
            let w: u32 = n[n.rfind(".i").unwrap() + 2..].parse().map_err(|_| Stop::Err("ovf".into()))?;
            let (x, y) = (self.e(&a[0], w), self.e(&a[1], w));
            let signed = n.starts_with('s');
            let op = match &n[1..4] {
                "add" => Op::Add,
                "sub" => Op::Sub,
                "mul" => Op::Mul,
                _ => return er(format!("intrinsic {}", n)),
            };
            let r = self.ar.bin(op, x, y);
            let bits = (self.ar.active_bits(x), self.ar.active_bits(y));
            let small = match op {
                Op::Add => bits.0.max(bits.1) < w,
                Op::Mul => bits.0 + bits.1 <= w,
                _ => false,
            };
            let ov = if !signed && small {
                self.ar.konst(0, 1)
            } else if let (false, Op::Mul, Some(c)) = (signed, op, self.ar.as_const(y)) {
                let k = self.ar.konst(if c == 0 { u128::MAX } else { wmask(w) / c }, w);
                self.ar.bin(Op::Ult, k, x)
            } else if let (false, Op::Mul, Some(c)) = (signed, op, self.ar.as_const(x)) {
                let k = self.ar.konst(if c == 0 { u128::MAX } else { wmask(w) / c }, w);
                self.ar.bin(Op::Ult, k, y)
            } else if !signed && op == Op::Add {
                self.ar.bin(Op::Ult, r, x)
            } else if !signed && op == Op::Sub {
                self.ar.bin(Op::Ult, x, y)
            } else {
                let ww = if op == Op::Mul { w * 2 } else { w + 1 };
                if ww > 128 {
                    // 64-bit multiplication: 128-bit product
                    if ww != 128 && op == Op::Mul {
                        return er("wide mul overflow");
                    }
                }
                let (xx, yy) = if signed {
                    (self.ar.sext(x, ww), self.ar.sext(y, ww))
                } else {
                    (self.ar.zext(x, ww), self.ar.zext(y, ww))
                };
                let full = self.ar.bin(op, xx, yy);
                let back = if signed { self.ar.sext(r, ww) } else { self.ar.zext(r, ww) };
                let eq = self.ar.bin(Op::Eq, full, back);
                self.ar.not(eq)
            };
            let (r, ov) = (self.n(r), self.n(ov));
            return Ok(Some(Val::A(Rc::new(vec![r, ov]))));
        }
        if n.starts_with("is.fpclass") {
            let w = if n.ends_with("f64") { 64 } else { 32 };
            let (x, m) = (self.e(&a[0], w), self.e(&a[1], 32));
            let r = self.ar.fp(crate::fp::Fop::Class, w, 1, x, Some(m)).map_err(Stop::Err)?;
            return Ok(Some(self.n(r)));
        }
        if n.starts_with("fptoui.sat") || n.starts_with("fptosi.sat") {
            let (w, to) = match rt {
                VT::I(to) => (if n.ends_with("f64") { 64 } else { 32 }, *to),
                _ => return er("fpto"),
            };
            let op = if n.starts_with("fptou") { crate::fp::Fop::ToU } else { crate::fp::Fop::ToS };
            let x = self.e(&a[0], w);
            let r = self.ar.fp(op, w, to, x, None).map_err(Stop::Err)?;
            return Ok(Some(self.n(r)));
        }
        if n.starts_with("ucmp") || n.starts_with("scmp") {
            let rw = match rt {
                VT::I(w) => *w,
                _ => return er("cmp3"),
            };
            let w: u32 = n[n.rfind(".i").unwrap() + 2..].parse().map_err(|_| Stop::Err("cmp".into()))?;
            let (p, q) = if n.starts_with('u') { (Pred::Ult, Pred::Ugt) } else { (Pred::Slt, Pred::Sgt) };
            let lt = self.cmp(p, w, &a[0], &a[1]);
            let gt = self.cmp(q, w, &a[0], &a[1]);
            let t = self.ite(rw, &gt, &Val::C(1), &Val::C(0));
            return Ok(Some(self.ite(rw, &lt, &Val::C(mask64(rw)), &t)));
        }
        // element-wise integer intrinsics
        match rt {
            VT::I(w) => Ok(Some(self.intr1(n, *w, &a)?)),
            VT::V(cnt, w) => {
                let mut o = vec![];
                for i in 0..*cnt as usize {
                    let ai: Vec<Val> = a
                        .iter()
                        .map(|v| match v {
                            Val::A(f) => f[i].clone(),
                            v => v.clone(),
                        })
                        .collect();
                    o.push(self.intr1(n, *w, &ai)?);
                }
                Ok(Some(Val::A(Rc::new(o))))
            }
            _ => er(format!("unsupported intrinsic {}", n)),
        }
    }
    fn intr1(&mut self, n: &str, w: u32, a: &[Val]) -> X<Val> {
        let name = n.split('.').next().unwrap_or(n);
        match name {
            "fabs" | "copysign" | "canonicalize" => {
                use crate::fp::Fop;
                let x = self.e(&a[0], w);
                let r = match name {
                    "fabs" => self.ar.fp(Fop::Abs, w, w, x, None),
                    "copysign" => {
                        let y = self.e(&a[1], w);
                        self.ar.fp(Fop::CopySign, w, w, x, Some(y))
                    }
                    _ => {
                        let one = self.ar.konst(if w == 64 { 1f64.to_bits() as u128 } else { 1f32.to_bits() as u128 }, w);
                        self.ar.fp(Fop::Mul, w, w, x, Some(one))
                    }
                };
                Ok(self.n(r.map_err(Stop::Err)?))
            }
            "umin" | "umax" | "smin" | "smax" => {
                let p = match name {
                    "umin" => Pred::Ult,
                    "umax" => Pred::Ugt,
                    "smin" => Pred::Slt,
                    _ => Pred::Sgt,
                };
                let c = self.cmp(p, w, &a[0], &a[1]);
                Ok(self.ite(w, &c, &a[0], &a[1]))
            }
            "abs" => {
                let neg = self.bin(Op::Sub, w, &Val::C(0), &a[0]);
                let c = self.cmp(Pred::Slt, w, &a[0], &Val::C(0));
                Ok(self.ite(w, &c, &neg, &a[0]))
            }
            "uadd" | "usub" | "sadd" | "ssub" if n.contains(".sat") => match name {
                "uadd" => {
                    let r = self.bin(Op::Add, w, &a[0], &a[1]);
                    let c = self.cmp(Pred::Ult, w, &r, &a[0]);
                    Ok(self.ite(w, &c, &Val::C(mask64(w)), &r))
                }
                "usub" => {
                    let r = self.bin(Op::Sub, w, &a[0], &a[1]);
                    let c = self.cmp(Pred::Ult, w, &a[0], &a[1]);
                    Ok(self.ite(w, &c, &Val::C(0), &r))
                }
                _ => er(format!("intrinsic {}", n)),
            },
            "bswap" => {
                let x = self.e(&a[0], w);
                let mut acc = self.ar.extract(x, 0, 8);
                for i in 1..w / 8 {
                    let b = self.ar.extract(x, i * 8, 8);
                    acc = self.ar.concat(acc, b);
                }
                Ok(self.n(acc))
            }
            "bitreverse" => {
                let x = self.e(&a[0], w);
                let mut acc = self.ar.extract(x, 0, 1);
                for i in 1..w {
                    let b = self.ar.extract(x, i, 1);
                    acc = self.ar.concat(acc, b);
                }
                Ok(self.n(acc))
            }
            "ctpop" => {
                let x = self.e(&a[0], w);
                let mut acc = self.ar.konst(0, w);
                for i in 0..w {
                    let b = self.ar.extract(x, i, 1);
                    let z = self.ar.zext(b, w);
                    acc = self.ar.bin(Op::Add, acc, z);
                }
                Ok(self.n(acc))
            }
            "cttz" | "ctlz" => {
                if let Val::C(c) = a[0] {
                    return Ok(Val::C(if c == 0 {
                        w as u64
                    } else if name == "cttz" {
                        c.trailing_zeros() as u64
                    } else {
                        (c.leading_zeros() - (64 - w)) as u64
                    }));
                }
                let x = self.e(&a[0], w);
                let mut acc = self.ar.konst(w as u128, w);
                for k in 0..w {
                    // last assignment wins: lowest priority first
                    let (bit, val) = if name == "cttz" { (w - 1 - k, w - 1 - k) } else { (k, w - 1 - k) };
                    let b = if name == "cttz" {
                        self.ar.extract(x, bit, 1)
                    } else {
                        let c = self.ar.konst(1 << bit, w);
                        self.ar.bin(Op::Ule, c, x)
                    };
                    let v = self.ar.konst(val as u128, w);
                    acc = self.ar.ite(b, v, acc);
                }
                Ok(self.n(acc))
            }
            "fshl" | "fshr" => {
                let sh = match &a[2] {
                    Val::C(c) => *c as u32 % w,
                    _ => return er("symbolic funnel shift"),
                };
                let (h, l) = (self.e(&a[0], w), self.e(&a[1], w));
                let both = self.ar.concat(h, l);
                let r = if name == "fshl" {
                    self.ar.extract(both, w - sh, w)
                } else {
                    self.ar.extract(both, sh, w)
                };
                Ok(self.n(r))
            }
            _ => er(format!("unsupported intrinsic {}", n)),
        }
    }
}

fn insert(v: &Val, x: &Val, path: &[u32]) -> Val {
    if path.is_empty() {
        return x.clone();
    }
    match v {
        Val::A(f) => {
            let mut g = (**f).clone();
            g[path[0] as usize] = insert(&g[path[0] as usize], x, &path[1..]);
            Val::A(Rc::new(g))
        }
        _ => panic!("insertvalue"),
    }
}

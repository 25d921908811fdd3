//! Z3 (libz3, C API) as the deciding solver for quantifier-free bit-vector queries.
use crate::expr::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::time::Instant;

type P = *mut c_void;
#[allow(non_camel_case_types)]
type Ast = P;
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_del_config(c: P);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_get_error_code(c: P) -> c_int;
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> Ast;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> Ast;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> Ast;
    fn Z3_mk_true(c: P) -> Ast;
    fn Z3_mk_false(c: P) -> Ast;
    fn Z3_mk_not(c: P, a: Ast) -> Ast;
    fn Z3_mk_and(c: P, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_or(c: P, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_xor(c: P, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_eq(c: P, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_implies(c: P, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_ite(c: P, g: Ast, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvnot(c: P, a: Ast) -> Ast;
    fn Z3_mk_bvadd(c: P, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsub(c: P, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvmul(c: P, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvudiv(c: P, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvurem(c: P, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsdiv(c: P, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsrem(c: P, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvand(c: P, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvor(c: P, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvxor(c: P, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvshl(c: P, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvlshr(c: P, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvashr(c: P, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvult(c: P, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvule(c: P, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvslt(c: P, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsle(c: P, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: Ast) -> Ast;
    fn Z3_mk_concat(c: P, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: Ast) -> Ast;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: Ast) -> Ast;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: Ast);
    fn Z3_solver_check_assumptions(c: P, s: P, n: c_uint, a: *const Ast) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: Ast, compl: bool, out: *mut Ast) -> bool;
    fn Z3_get_numeral_string(c: P, a: Ast) -> *const c_char;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_dec_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_get_version(a: *mut c_uint, b: *mut c_uint, c: *mut c_uint, d: *mut c_uint);
}

extern "C" fn err_handler(_c: P, _e: c_int) {}

pub fn version() -> String {
    let (mut a, mut b, mut c, mut d) = (0, 0, 0, 0);
    unsafe { Z3_get_version(&mut a, &mut b, &mut c, &mut d) };
    format!("{}.{}.{}", a, b, c)
}

#[derive(Clone, Debug)]
pub enum Res {
    Sat(Vec<(u32, u128)>),
    Unsat,
    Unknown,
}

pub struct Solver {
    ctx: P,
    solver: P,
    bv: Vec<Ast>,
    bl: Vec<Ast>,
    lits: FxMap<E, Ast>,
    nlit: i32,
    cache: FxMap<Vec<E>, Res>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub cached: u64,
    pub time: f64,
    pub max_time: f64,
    pub timeout_ms: u32,
    pub smt_dump: Option<Vec<String>>, // sampled queries as SMT-LIB for cross-checking
    pub dump_max: usize,
}

impl Drop for Solver {
    fn drop(&mut self) {
        unsafe {
            Z3_solver_dec_ref(self.ctx, self.solver);
            Z3_del_context(self.ctx)
        }
    }
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Solver {
        unsafe {
            let cfg = Z3_mk_config();
            let ctx = Z3_mk_context(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(ctx, Some(err_handler));
            let mut s = Solver {
                ctx,
                solver: std::ptr::null_mut(),
                bv: vec![],
                bl: vec![],
                lits: Default::default(),
                nlit: 0,
                cache: Default::default(),
                queries: 0,
                sat: 0,
                unsat: 0,
                unknown: 0,
                cached: 0,
                time: 0.0,
                max_time: 0.0,
                timeout_ms,
                smt_dump: None,
                dump_max: 0,
            };
            s.fresh();
            s
        }
    }
    fn fresh(&mut self) {
        let t = self.timeout_ms.min(300);
        self.fresh_with(t)
    }
    fn fresh_with(&mut self, timeout: u32) {
        unsafe {
            if !self.solver.is_null() {
                Z3_solver_dec_ref(self.ctx, self.solver);
            }
            let name = CString::new("QF_BV").unwrap();
            let sym = Z3_mk_string_symbol(self.ctx, name.as_ptr());
            self.solver = Z3_mk_solver_for_logic(self.ctx, sym);
            Z3_solver_inc_ref(self.ctx, self.solver);
            let p = Z3_mk_params(self.ctx);
            Z3_params_inc_ref(self.ctx, p);
            let k = CString::new("timeout").unwrap();
            let ks = Z3_mk_string_symbol(self.ctx, k.as_ptr());
            Z3_params_set_uint(self.ctx, p, ks, timeout);
            Z3_solver_set_params(self.ctx, self.solver, p);
            Z3_params_dec_ref(self.ctx, p);
            self.lits.clear();
        }
    }
    fn grow(&mut self, ar: &Arena) {
        if self.bv.len() < ar.n.len() {
            let l = ar.n.len() + 256;
            self.bv.resize(l, std::ptr::null_mut());
            self.bl.resize(l, std::ptr::null_mut());
        }
    }
    fn bvsort(&self, w: u32) -> P {
        unsafe { Z3_mk_bv_sort(self.ctx, w) }
    }
    fn num(&self, v: u128, w: u32) -> Ast {
        unsafe {
            let s = self.bvsort(w);
            if w <= 64 {
                Z3_mk_unsigned_int64(self.ctx, v as u64, s)
            } else {
                let t = CString::new(v.to_string()).unwrap();
                Z3_mk_numeral(self.ctx, t.as_ptr(), s)
            }
        }
    }
    fn bv(&mut self, ar: &Arena, e: E) -> Ast {
        let r = self.bv[e as usize];
        if !r.is_null() {
            return r;
        }
        let c = self.ctx;
        let w = ar.w(e);
        let r = unsafe {
            match ar.node(e) {
                Node::Nil => panic!("nil expr"),
                Node::Const(k) => self.num(k, w),
                Node::Var(i) => Z3_mk_const(c, Z3_mk_int_symbol(c, i as c_int), self.bvsort(w)),
                _ if w == 1 => {
                    let b = self.bl(ar, e);
                    Z3_mk_ite(c, b, self.num(1, 1), self.num(0, 1))
                }
                Node::Not(a) => Z3_mk_bvnot(c, self.bv(ar, a)),
                Node::Bin(op, a, b) => {
                    let (a, b) = (self.bv(ar, a), self.bv(ar, b));
                    match op {
                        Op::Add => Z3_mk_bvadd(c, a, b),
                        Op::Sub => Z3_mk_bvsub(c, a, b),
                        Op::Mul => Z3_mk_bvmul(c, a, b),
                        Op::UDiv => Z3_mk_bvudiv(c, a, b),
                        Op::URem => Z3_mk_bvurem(c, a, b),
                        Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                        Op::SRem => Z3_mk_bvsrem(c, a, b),
                        Op::And => Z3_mk_bvand(c, a, b),
                        Op::Or => Z3_mk_bvor(c, a, b),
                        Op::Xor => Z3_mk_bvxor(c, a, b),
                        Op::Shl => Z3_mk_bvshl(c, a, b),
                        Op::LShr => Z3_mk_bvlshr(c, a, b),
                        Op::AShr => Z3_mk_bvashr(c, a, b),
                        _ => unreachable!(),
                    }
                }
                Node::Ite(g, t, f) => {
                    let g = self.bl(ar, g);
                    let (t, f) = (self.bv(ar, t), self.bv(ar, f));
                    Z3_mk_ite(c, g, t, f)
                }
                Node::Extract(lo, a) => {
                    let a = self.bv(ar, a);
                    Z3_mk_extract(c, lo as u32 + w - 1, lo as u32, a)
                }
                Node::Concat(h, l) => {
                    let (h, l) = (self.bv(ar, h), self.bv(ar, l));
                    Z3_mk_concat(c, h, l)
                }
                Node::Zext(a) => {
                    let aw = ar.w(a);
                    Z3_mk_zero_ext(c, w - aw, self.bv(ar, a))
                }
                Node::Sext(a) => {
                    let aw = ar.w(a);
                    Z3_mk_sign_ext(c, w - aw, self.bv(ar, a))
                }
            }
        };
        self.bv[e as usize] = r;
        r
    }
    fn bl(&mut self, ar: &Arena, e: E) -> Ast {
        let r = self.bl[e as usize];
        if !r.is_null() {
            return r;
        }
        let c = self.ctx;
        debug_assert_eq!(ar.w(e), 1);
        let r = unsafe {
            match ar.node(e) {
                Node::Const(k) => {
                    if k == 1 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                Node::Not(a) => Z3_mk_not(c, self.bl(ar, a)),
                Node::Bin(op, a, b) => {
                    if ar.w(a) == 1 {
                        let (a, b) = (self.bl(ar, a), self.bl(ar, b));
                        match op {
                            Op::And | Op::Mul => Z3_mk_and(c, 2, [a, b].as_ptr()),
                            Op::Or => Z3_mk_or(c, 2, [a, b].as_ptr()),
                            Op::Xor | Op::Add | Op::Sub => Z3_mk_xor(c, a, b),
                            Op::Eq => Z3_mk_eq(c, a, b),
                            Op::Ult => Z3_mk_and(c, 2, [Z3_mk_not(c, a), b].as_ptr()),
                            Op::Ule => Z3_mk_implies(c, a, b),
                            Op::Slt => Z3_mk_and(c, 2, [a, Z3_mk_not(c, b)].as_ptr()),
                            Op::Sle => Z3_mk_implies(c, b, a),
                            Op::Shl | Op::LShr => Z3_mk_and(c, 2, [a, Z3_mk_not(c, b)].as_ptr()),
                            Op::AShr => a,
                            _ => panic!("1-bit {:?}", op),
                        }
                    } else {
                        let (a, b) = (self.bv(ar, a), self.bv(ar, b));
                        match op {
                            Op::Eq => Z3_mk_eq(c, a, b),
                            Op::Ult => Z3_mk_bvult(c, a, b),
                            Op::Ule => Z3_mk_bvule(c, a, b),
                            Op::Slt => Z3_mk_bvslt(c, a, b),
                            Op::Sle => Z3_mk_bvsle(c, a, b),
                            _ => unreachable!(),
                        }
                    }
                }
                Node::Ite(g, t, f) => {
                    let g = self.bl(ar, g);
                    let (t, f) = (self.bl(ar, t), self.bl(ar, f));
                    Z3_mk_ite(c, g, t, f)
                }
                Node::Extract(lo, a) => {
                    let a = self.bv(ar, a);
                    let x = Z3_mk_extract(c, lo as u32, lo as u32, a);
                    Z3_mk_eq(c, x, self.num(1, 1))
                }
                Node::Var(_) => {
                    let a = self.bv(ar, e);
                    Z3_mk_eq(c, a, self.num(1, 1))
                }
                n => panic!("bool of {:?}", n),
            }
        };
        self.bl[e as usize] = r;
        r
    }
    fn ask(&mut self, ar: &Arena, as_: &[Ast], mask: u128) -> Res {
        unsafe {
            let r = Z3_solver_check_assumptions(self.ctx, self.solver, as_.len() as u32, as_.as_ptr());
            if r == 1 {
                let m = Z3_solver_get_model(self.ctx, self.solver);
                Z3_model_inc_ref(self.ctx, m);
                let mut out = vec![];
                for (i, (ve, _w, _)) in ar.vars.iter().enumerate() {
                    if mask >> (i as u32).min(127) & 1 == 0 {
                        continue;
                    }
                    let a = self.bv(ar, *ve);
                    let mut o: Ast = std::ptr::null_mut();
                    if Z3_model_eval(self.ctx, m, a, true, &mut o) {
                        let s = CStr::from_ptr(Z3_get_numeral_string(self.ctx, o));
                        out.push((i as u32, s.to_str().unwrap().parse::<u128>().unwrap()));
                    }
                }
                Z3_model_dec_ref(self.ctx, m);
                Res::Sat(out)
            } else if r == -1 && Z3_get_error_code(self.ctx) == 0 {
                Res::Unsat
            } else {
                Res::Unknown
            }
        }
    }
    /// Is the conjunction of the given boolean expressions satisfiable?
    pub fn check(&mut self, ar: &Arena, cs: &[E]) -> Res {
        let mut key: Vec<E> = cs.to_vec();
        key.sort_unstable();
        key.dedup();
        if let Some(r) = self.cache.get(&key) {
            self.cached += 1;
            return r.clone();
        }
        self.grow(ar);
        let t0 = Instant::now();
        if self.lits.len() > 3000 {
            self.fresh();
        }
        let mut as_ = Vec::with_capacity(key.len());
        let mut mask = 0u128;
        for e in &key {
            mask |= ar.mask(*e);
            let l = match self.lits.get(e) {
                Some(l) => *l,
                None => {
                    let b = self.bl(ar, *e);
                    unsafe {
                        self.nlit += 1;
                        let s = Z3_mk_int_symbol(self.ctx, 1_000_000 + self.nlit);
                        let l = Z3_mk_const(self.ctx, s, Z3_mk_bool_sort(self.ctx));
                        Z3_solver_assert(self.ctx, self.solver, Z3_mk_implies(self.ctx, l, b));
                        self.lits.insert(*e, l);
                        l
                    }
                }
            };
            as_.push(l);
        }
        let mut r = self.ask(ar, &as_, mask);
        if matches!(r, Res::Unknown) {
            // on its own, without the other definitions, and with the full time
            let t = self.timeout_ms;
            self.fresh_with(t);
            for e in &key {
                let b = self.bl(ar, *e);
                unsafe { Z3_solver_assert(self.ctx, self.solver, b) };
            }
            r = self.ask(ar, &[], mask);
            self.fresh();
        }
        let dt = t0.elapsed().as_secs_f64();
        self.time += dt;
        if dt > self.max_time {
            self.max_time = dt;
        }
        self.queries += 1;
        if dt > 0.05 && std::env::var("IRSYM_SLOW").map_or(false, |v| dt > v.parse().unwrap_or(1.0)) {
            for e in &key {
                eprintln!("slow {:.1}: {} {}", dt, e, ar.show(*e, 6));
            }
        }
        if self.smt_dump.is_some() && self.smt_dump.as_ref().unwrap().len() < self.dump_max {
            let expect = match r {
                Res::Sat(_) => "sat",
                Res::Unsat => "unsat",
                Res::Unknown => "unknown",
            };
            let t = self.to_smt(ar, &key);
            self.smt_dump.as_mut().unwrap().push(format!("; expect {}\n{}", expect, t));
        }
        match r {
            Res::Sat(_) => self.sat += 1,
            Res::Unsat => self.unsat += 1,
            Res::Unknown => self.unknown += 1,
        }
        self.cache.insert(key, r.clone());
        r
    }
    /// The query in SMT-LIB 2, printed from the expressions themselves (not
    /// from Z3's terms), for a second solver.
    pub fn to_smt(&mut self, ar: &Arena, cs: &[E]) -> String {
        let mut s = String::from("(set-logic QF_BV)\n");
        let mut seen: FxMap<E, ()> = Default::default();
        let mut order = vec![];
        let mut st: Vec<(E, bool)> = cs.iter().map(|e| (*e, false)).collect();
        while let Some((e, done)) = st.pop() {
            if done {
                order.push(e);
                continue;
            }
            if seen.insert(e, ()).is_some() {
                continue;
            }
            st.push((e, true));
            let mut push = |x: E| st.push((x, false));
            match ar.node(e) {
                Node::Not(a) | Node::Extract(_, a) | Node::Zext(a) | Node::Sext(a) => push(a),
                Node::Bin(_, a, b) | Node::Concat(a, b) => {
                    push(a);
                    push(b)
                }
                Node::Ite(a, b, c) => {
                    push(a);
                    push(b);
                    push(c)
                }
                _ => {}
            }
        }
        for e in order {
            let w = ar.w(e);
            let n = |x: E| format!("n{}", x);
            let b = match ar.node(e) {
                Node::Var(_) => {
                    s += &format!("(declare-const n{} (_ BitVec {}))\n", e, w);
                    continue;
                }
                Node::Nil => panic!("nil"),
                Node::Const(k) => format!("(_ bv{} {})", k, w),
                Node::Not(a) => format!("(bvnot {})", n(a)),
                Node::Bin(op, x, y) => {
                    let f = match op {
                        Op::Add => "bvadd",
                        Op::Sub => "bvsub",
                        Op::Mul => "bvmul",
                        Op::UDiv => "bvudiv",
                        Op::URem => "bvurem",
                        Op::SDiv => "bvsdiv",
                        Op::SRem => "bvsrem",
                        Op::And => "bvand",
                        Op::Or => "bvor",
                        Op::Xor => "bvxor",
                        Op::Shl => "bvshl",
                        Op::LShr => "bvlshr",
                        Op::AShr => "bvashr",
                        Op::Eq => "=",
                        Op::Ult => "bvult",
                        Op::Ule => "bvule",
                        Op::Slt => "bvslt",
                        Op::Sle => "bvsle",
                    };
                    if op.is_cmp() {
                        format!("(ite ({} {} {}) #b1 #b0)", f, n(x), n(y))
                    } else {
                        format!("({} {} {})", f, n(x), n(y))
                    }
                }
                Node::Ite(c, t, f) => format!("(ite (= {} #b1) {} {})", n(c), n(t), n(f)),
                Node::Extract(lo, a) => format!("((_ extract {} {}) {})", lo as u32 + w - 1, lo, n(a)),
                Node::Concat(h, l) => format!("(concat {} {})", n(h), n(l)),
                Node::Zext(a) => format!("((_ zero_extend {}) {})", w - ar.w(a), n(a)),
                Node::Sext(a) => format!("((_ sign_extend {}) {})", w - ar.w(a), n(a)),
            };
            s += &format!("(define-fun n{} () (_ BitVec {}) {})\n", e, w, b);
        }
        for e in cs {
            s += &format!("(assert (= n{} #b1))\n", e);
        }
        s += "(check-sat)\n";
        s
    }
}

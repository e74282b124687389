//! Z3 back end (C API through hand-written declarations).
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::rc::Rc;
use std::time::Instant;
type P = *mut c_void;
#[allow(non_snake_case)]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_get_full_version() -> *const c_char;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_get_error_msg(c: P, e: c_int) -> *const c_char;
    fn Z3_mk_bv_sort(c: P, sz: c_uint) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_mk_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, out: *mut u64) -> bool;
    fn Z3_mk_fpa_sort_double(c: P) -> P;
    fn Z3_mk_fpa_sort_single(c: P) -> P;
    fn Z3_mk_fpa_rne(c: P) -> P;
    fn Z3_mk_fpa_rtz(c: P) -> P;
    fn Z3_mk_fpa_to_fp_bv(c: P, bv: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_unsigned(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_signed(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_float(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_ieee_bv(c: P, t: P) -> P;
    fn Z3_mk_fpa_to_ubv(c: P, rm: P, t: P, sz: c_uint) -> P;
    fn Z3_mk_fpa_to_sbv(c: P, rm: P, t: P, sz: c_uint) -> P;
    fn Z3_mk_fpa_add(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sub(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_mul(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_div(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_leq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_eq(c: P, a: P, b: P) -> P;
}
extern "C" fn on_error(c: P, e: c_int) {
    let m = unsafe { CStr::from_ptr(Z3_get_error_msg(c, e)) }.to_string_lossy().to_string();
    eprintln!("SOLVER-ERROR: {m}");
    std::process::exit(70);
}
#[derive(Clone, PartialEq, Eq)]
pub enum Sat {
    Unsat,
    Unknown,
}
pub struct Solver {
    c: P,
    bv: Vec<P>,
    bo: Vec<P>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time: f64,
    pub max_time: f64,
    pub hits: u64,
    cache: HashMap<Vec<E>, Result<Vec<(u32, u8)>, Sat>>,
    params: P,
}
impl Solver {
    pub fn new(timeout_ms: u32) -> Solver {
        unsafe {
            let c = Z3_mk_context(Z3_mk_config());
            Z3_set_error_handler(c, Some(on_error));
            let params = Z3_mk_params(c);
            Z3_params_inc_ref(c, params);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(c, params, Z3_mk_string_symbol(c, k.as_ptr()), timeout_ms);
            Solver { c, bv: vec![], bo: vec![], queries: 0, sat: 0, unsat: 0, unknown: 0, time: 0.0, max_time: 0.0, hits: 0, cache: HashMap::new(), params }
        }
    }
    pub fn version() -> String {
        unsafe { CStr::from_ptr(Z3_get_full_version()) }.to_string_lossy().to_string()
    }
    unsafe fn num(&self, w: u32, k: u128) -> P {
        let s = Z3_mk_bv_sort(self.c, w);
        if k <= u64::MAX as u128 {
            Z3_mk_unsigned_int64(self.c, k as u64, s)
        } else {
            let t = CString::new(k.to_string()).unwrap();
            Z3_mk_numeral(self.c, t.as_ptr(), s)
        }
    }
    unsafe fn fp(&mut self, cx: &Ctx, e: E) -> P {
        let s = if cx.w(e) == 64 { Z3_mk_fpa_sort_double(self.c) } else { Z3_mk_fpa_sort_single(self.c) };
        let b = self.tobv(cx, e);
        Z3_mk_fpa_to_fp_bv(self.c, b, s)
    }
    unsafe fn tobv(&mut self, cx: &Ctx, e: E) -> P {
        if self.bv.len() < cx.nodes.len() {
            self.bv.resize(cx.nodes.len() * 2, std::ptr::null_mut());
            self.bo.resize(cx.nodes.len() * 2, std::ptr::null_mut());
        }
        if !self.bv[e as usize].is_null() {
            return self.bv[e as usize];
        }
        let n = cx.n(e);
        let w = n.w as u32;
        let c = self.c;
        macro_rules! b2 { ($f:ident) => {{ let x = self.tobv(cx, n.a); let y = self.tobv(cx, n.b); $f(c, x, y) }} }
        let fs = |w: u32| if w == 64 { Z3_mk_fpa_sort_double(c) } else { Z3_mk_fpa_sort_single(c) };
        macro_rules! f2 { ($f:ident) => {{ let x = self.fp(cx, n.a); let y = self.fp(cx, n.b); Z3_mk_fpa_to_ieee_bv(c, $f(c, Z3_mk_fpa_rne(c), x, y)) }} }
        let r = match n.op {
            Op::K => self.num(w, n.k),
            Op::Sym => Z3_mk_const(c, Z3_mk_int_symbol(c, n.k as c_int), Z3_mk_bv_sort(c, 8)),
            Op::Concat => b2!(Z3_mk_concat),
            Op::Ext => {
                let x = self.tobv(cx, n.a);
                Z3_mk_extract(c, n.k as u32 + w - 1, n.k as u32, x)
            }
            Op::Zext => {
                let x = self.tobv(cx, n.a);
                Z3_mk_zero_ext(c, w - cx.w(n.a), x)
            }
            Op::Sext => {
                let x = self.tobv(cx, n.a);
                Z3_mk_sign_ext(c, w - cx.w(n.a), x)
            }
            Op::Add => b2!(Z3_mk_bvadd),
            Op::Sub => b2!(Z3_mk_bvsub),
            Op::Mul => b2!(Z3_mk_bvmul),
            Op::Udiv => b2!(Z3_mk_bvudiv),
            Op::Sdiv => b2!(Z3_mk_bvsdiv),
            Op::Urem => b2!(Z3_mk_bvurem),
            Op::Srem => b2!(Z3_mk_bvsrem),
            Op::And => b2!(Z3_mk_bvand),
            Op::Or => b2!(Z3_mk_bvor),
            Op::Xor => b2!(Z3_mk_bvxor),
            Op::Shl => b2!(Z3_mk_bvshl),
            Op::Lshr => b2!(Z3_mk_bvlshr),
            Op::Ashr => b2!(Z3_mk_bvashr),
            Op::Eq | Op::Ult | Op::Slt | Op::Flt | Op::Fle | Op::Feq => {
                let b = self.tobool(cx, e);
                let (one, zero) = (self.num(1, 1), self.num(1, 0));
                Z3_mk_ite(c, b, one, zero)
            }
            Op::Ite => {
                let k = self.tobool(cx, n.a);
                let x = self.tobv(cx, n.b);
                let y = self.tobv(cx, n.c);
                Z3_mk_ite(c, k, x, y)
            }
            Op::Fadd => f2!(Z3_mk_fpa_add),
            Op::Fsub => f2!(Z3_mk_fpa_sub),
            Op::Fmul => f2!(Z3_mk_fpa_mul),
            Op::Fdiv => f2!(Z3_mk_fpa_div),
            Op::U2f => {
                let x = self.tobv(cx, n.a);
                Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_unsigned(c, Z3_mk_fpa_rne(c), x, fs(w)))
            }
            Op::S2f => {
                let x = self.tobv(cx, n.a);
                Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_signed(c, Z3_mk_fpa_rne(c), x, fs(w)))
            }
            Op::F2u => {
                let x = self.fp(cx, n.a);
                Z3_mk_fpa_to_ubv(c, Z3_mk_fpa_rtz(c), x, w)
            }
            Op::F2s => {
                let x = self.fp(cx, n.a);
                Z3_mk_fpa_to_sbv(c, Z3_mk_fpa_rtz(c), x, w)
            }
            Op::Fext | Op::Ftrunc => {
                let x = self.fp(cx, n.a);
                Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_float(c, Z3_mk_fpa_rne(c), x, fs(w)))
            }
        };
        self.bv[e as usize] = r;
        r
    }
    unsafe fn tobool(&mut self, cx: &Ctx, e: E) -> P {
        if self.bo.len() < cx.nodes.len() {
            self.bv.resize(cx.nodes.len() * 2, std::ptr::null_mut());
            self.bo.resize(cx.nodes.len() * 2, std::ptr::null_mut());
        }
        if !self.bo[e as usize].is_null() {
            return self.bo[e as usize];
        }
        let n = cx.n(e);
        debug_assert_eq!(n.w, 1);
        let c = self.c;
        let r = match n.op {
            Op::K => if n.k == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) },
            Op::Eq | Op::Ult | Op::Slt => {
                let x = self.tobv(cx, n.a);
                let y = self.tobv(cx, n.b);
                match n.op {
                    Op::Eq => Z3_mk_eq(c, x, y),
                    Op::Ult => Z3_mk_bvult(c, x, y),
                    _ => Z3_mk_bvslt(c, x, y),
                }
            }
            Op::Flt | Op::Fle | Op::Feq => {
                let x = self.fp(cx, n.a);
                let y = self.fp(cx, n.b);
                match n.op {
                    Op::Flt => Z3_mk_fpa_lt(c, x, y),
                    Op::Fle => Z3_mk_fpa_leq(c, x, y),
                    _ => Z3_mk_fpa_eq(c, x, y),
                }
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.tobool(cx, n.a);
                if n.op == Op::Xor && cx.as_k(n.b) == Some(1) {
                    Z3_mk_not(c, x)
                } else {
                    let y = self.tobool(cx, n.b);
                    match n.op {
                        Op::And => Z3_mk_and(c, 2, [x, y].as_ptr()),
                        Op::Or => Z3_mk_or(c, 2, [x, y].as_ptr()),
                        _ => Z3_mk_xor(c, x, y),
                    }
                }
            }
            Op::Ite => {
                let k = self.tobool(cx, n.a);
                let x = self.tobool(cx, n.b);
                let y = self.tobool(cx, n.c);
                Z3_mk_ite(c, k, x, y)
            }
            _ => {
                let b = self.tobv(cx, e);
                let one = self.num(1, 1);
                Z3_mk_eq(c, b, one)
            }
        };
        self.bo[e as usize] = r;
        r
    }
    /// Is the conjunction satisfiable? On success the values of the symbols that occur in it.
    pub fn check(&mut self, cx: &mut Ctx, cs: &[E]) -> Result<Vec<(u32, u8)>, Sat> {
        let mut key: Vec<E> = cs.to_vec();
        key.sort();
        key.dedup();
        if let Some(r) = self.cache.get(&key) {
            self.hits += 1;
            return r.clone();
        }
        let t = Instant::now();
        let mut fpq = false;
        let r = unsafe {
            for e in &key {
                fpq |= has_fp(cx, *e);
            }
            let s = if fpq {
                Z3_mk_solver(self.c)
            } else {
                let l = CString::new("QF_BV").unwrap();
                Z3_mk_solver_for_logic(self.c, Z3_mk_string_symbol(self.c, l.as_ptr()))
            };
            Z3_solver_inc_ref(self.c, s);
            Z3_solver_set_params(self.c, s, self.params);
            for e in &key {
                let b = self.tobool(cx, *e);
                Z3_solver_assert(self.c, s, b);
            }
            let r = match Z3_solver_check(self.c, s) {
                1 => {
                    let m = Z3_solver_get_model(self.c, s);
                    Z3_model_inc_ref(self.c, m);
                    let mut ids: Vec<u32> = vec![];
                    for e in &key {
                        ids.extend(cx.symbols(*e).iter());
                    }
                    ids.sort();
                    ids.dedup();
                    let mut out = vec![];
                    for id in ids {
                        let se = cx.sym(id);
                        let t = self.tobv(cx, se);
                        let mut v: P = std::ptr::null_mut();
                        Z3_model_eval(self.c, m, t, true, &mut v);
                        let mut x = 0u64;
                        Z3_get_numeral_uint64(self.c, v, &mut x);
                        out.push((id, x as u8));
                    }
                    Z3_model_dec_ref(self.c, m);
                    self.sat += 1;
                    Ok(out)
                }
                -1 => {
                    self.unsat += 1;
                    Err(Sat::Unsat)
                }
                _ => {
                    self.unknown += 1;
                    Err(Sat::Unknown)
                }
            };
            Z3_solver_dec_ref(self.c, s);
            r
        };
        let dt = t.elapsed().as_secs_f64();
        self.time += dt;
        if dt > self.max_time {
            self.max_time = dt;
        }
        self.queries += 1;
        if let Ok(v) = &r {
            // the model must satisfy the query under our own evaluator
            let m: Model = Rc::new(v.iter().cloned().collect());
            for (i, x) in cx.eval_many(&key, &m).into_iter().enumerate() {
                if x != 1 {
                    eprintln!("SOLVER-ERROR: model does not satisfy conjunct {i}");
                    std::process::exit(71);
                }
            }
        }
        self.cache.insert(key, r.clone());
        r
    }
}
fn has_fp(cx: &Ctx, e: E) -> bool {
    let mut seen = std::collections::HashSet::new();
    let mut st = vec![e];
    while let Some(x) = st.pop() {
        if !seen.insert(x) {
            continue;
        }
        let n = cx.n(x);
        match n.op {
            Op::K | Op::Sym => {}
            Op::Fadd | Op::Fsub | Op::Fmul | Op::Fdiv | Op::Flt | Op::Fle | Op::Feq | Op::U2f | Op::S2f | Op::F2u | Op::F2s | Op::Fext | Op::Ftrunc => return true,
            Op::Ext | Op::Zext | Op::Sext => st.push(n.a),
            Op::Ite => {
                st.push(n.a);
                st.push(n.b);
                st.push(n.c)
            }
            _ => {
                st.push(n.a);
                st.push(n.b)
            }
        }
    }
    false
}

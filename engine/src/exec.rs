//! Symbolic executor over the IR: states fork on symbolic branches; the solver decides feasibility and every check.
use crate::expr::*;
use crate::ir::*;
use crate::solver::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone)]
pub struct Obj {
    pub size: u64,
    pub data: Vec<u8>,
    pub sym: BTreeMap<u32, E>,
    pub heap: bool,
    pub align: u64,
    /// hash of the contents; 0: not computed
    pub hash: std::cell::Cell<u128>,
}
impl Obj {
    fn new(size: u64) -> Obj {
        Obj { size, data: vec![0; size as usize], sym: BTreeMap::new(), heap: false, align: 1, hash: Default::default() }
    }
}
#[derive(Clone)]
pub struct Frame {
    pub f: u32,
    pub body: Rc<Body>,
    pub regs: Vec<Val>,
    pub blk: u32,
    pub ip: u32,
    pub ret: u32,
    pub allocas: Vec<u64>,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum TStat {
    Run,
    /// address, deadline of a timed wait, register of the result
    Futex(u64, Option<u64>, u32),
    Sleep(u64),
    Join(usize),
    Done,
}
#[derive(Clone)]
pub struct Thread {
    pub frames: Vec<Frame>,
    pub stat: TStat,
    pub tls: BTreeMap<u32, u64>,
    pub sp: u64,
    pub errno: u64,
    /// sleeps and timeouts that ran out
    pub naps: u32,
    /// symbols drawn and memory taken by this thread: numbered apart, so that the order of independent steps leaves no trace
    pub nsym: u32,
    pub heap: u64,
}
#[derive(Clone)]
pub struct State {
    pub threads: Vec<Thread>,
    pub cur: usize,
    pub objs: BTreeMap<u64, Rc<Obj>>,
    pub pc: Rc<Vec<E>>,
    pub model: Model,
    /// (first symbol, length) of each draw, in order; length 0 encodes a scheduling choice with the value in the first field
    pub draws: Rc<Vec<(u32, u32)>>,
    pub sched: Vec<u32>,
    forced: HashSet<u128>,
    pub steps: u64,
    pub peak: u64,
    pub live: u64,
    pub clock: u64,
    pub alloc_limit: u64,
    pub alloc_cut: u64,
    pub depth: u32,
    pub preempt: u32,
    pub keys: u32,
    pub ticks: u64,
    pub notes: Vec<String>,
    /// what the harness reported on this path: label and bytes
    pub outs: Rc<Vec<(String, Vec<Val>)>>,
    pub was_cut: bool,
}
pub struct Sample {
    pub draws: Vec<Vec<u8>>,
    pub sched: Vec<u32>,
    pub outs: Vec<String>,
}
#[derive(Clone)]
pub struct Violation {
    pub kind: String,
    pub label: String,
    pub loc: String,
    pub stack: Vec<String>,
    pub draws: Vec<Vec<u8>>,
    pub sched: Vec<u32>,
    pub notes: Vec<String>,
}
pub enum Stop {
    /// state forked: the pieces are already queued
    Fork,
    /// path ended
    End,
    /// another path was here with the very same state
    Merged,
    /// violation recorded, path ended
    Bad,
    /// the engine cannot continue this path
    Err(String),
}
type R<T> = Result<T, Stop>;
pub struct Cfg {
    pub max_paths: u64,
    pub max_steps: u64,
    pub deadline: Instant,
    pub max_viol: usize,
    pub max_preempt: u32,
    /// how often a thread may wake by itself while another one could run
    pub max_naps: u32,
    /// sleeping threads wake in the order of their deadlines
    pub punctual: bool,
    pub concrete: Option<Vec<Vec<u8>>>,
    pub trace: bool,
    pub samples: usize,
    pub seed: u64,
}
struct Mix(u64, u64);
impl Mix {
    fn add(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x9e37_79b9_7f4a_7c15);
        self.0 ^= self.0 >> 29;
        self.1 = (self.1 ^ x).wrapping_mul(0xff51_afd7_ed55_8ccd).rotate_left(31).wrapping_add(0x52dc_e729);
        self.1 ^= self.1 >> 32;
    }
    fn val(&mut self, v: &Val) {
        match v {
            Val::I(k) => {
                self.add(*k as u64);
                if *k >> 64 != 0 {
                    self.add((*k >> 64) as u64 ^ 0x55);
                }
            }
            Val::E(e) => self.add((1 << 40) + *e as u64),
            Val::A(a) => {
                self.add(0xa ^ (a.len() as u64) << 50);
                for x in a.iter() {
                    self.val(x);
                }
            }
        }
    }
    fn end(&self) -> u128 {
        (self.0 as u128) << 64 | self.1 as u128
    }
}
fn obj_hash(o: &Obj) -> u128 {
    let h = o.hash.get();
    if h != 0 {
        return h;
    }
    let mut m = Mix(o.size ^ 0x1234, o.align);
    for c in o.data.chunks(8) {
        let mut b = [0u8; 8];
        b[..c.len()].copy_from_slice(c);
        m.add(u64::from_le_bytes(b));
    }
    for (k, e) in &o.sym {
        m.add((*k as u64) << 32 | *e as u64);
    }
    let h = m.end() | 1;
    o.hash.set(h);
    h
}
/// Everything that decides what a state can still do (128-bit hash).
fn fingerprint(st: &State, kind: u64) -> u128 {
    let mut m = Mix(7, 11);
    m.add(st.cur as u64 | kind << 32 | (st.preempt as u64) << 40 | (st.was_cut as u64) << 60);
    for x in [st.clock, st.ticks >> 6, st.alloc_limit, st.alloc_cut, st.depth as u64, st.keys as u64] {
        m.add(x);
    }
    for t in &st.threads {
        m.add(t.frames.len() as u64);
        m.add(match t.stat {
            TStat::Run => 1,
            TStat::Futex(a, u, d) => 2 ^ a.rotate_left(17) ^ u.map_or(0, |x| x.rotate_left(40) | 1) ^ (d as u64) << 3,
            TStat::Sleep(u) => 3 ^ u.rotate_left(9),
            TStat::Join(i) => 4 + ((i as u64) << 8),
            TStat::Done => 5,
        });
        for x in [t.sp, t.errno, t.naps as u64, t.nsym as u64, t.heap] {
            m.add(x);
        }
        for (k, v) in &t.tls {
            m.add(*k as u64);
            m.add(*v);
        }
        for f in &t.frames {
            m.add((f.f as u64) << 32 | f.blk as u64);
            m.add((f.ip as u64) << 32 | f.ret as u64);
            for r in &f.regs {
                m.val(r);
            }
            for a in &f.allocas {
                m.add(*a);
            }
        }
    }
    for (a, o) in &st.objs {
        m.add(*a);
        let h = obj_hash(o);
        m.add(h as u64);
        m.add((h >> 64) as u64);
    }
    let mut pc: Vec<E> = st.pc.to_vec();
    pc.sort();
    pc.dedup();
    for e in pc {
        m.add(e as u64);
    }
    for (l, b) in st.outs.iter() {
        for c in l.bytes() {
            m.add(c as u64);
        }
        for v in b {
            m.val(v);
        }
    }
    m.end()
}
pub struct Exec {
    pub m: Module,
    pub cx: Ctx,
    pub sv: Solver,
    pub cfg: Cfg,
    pub queue: Vec<State>,
    pub consts: BTreeMap<u64, Rc<Obj>>,
    pub fkind: HashMap<u32, Intr>,
    seen: HashSet<u128>,
    pub merged: u64,
    pub viol: Vec<Violation>,
    pub vkeys: HashSet<String>,
    pub paths: u64,
    pub cut: u64,
    pub steps: u64,
    pub errors: BTreeMap<String, u64>,
    pub covers: BTreeMap<String, bool>,
    pub checks: BTreeMap<String, u64>,
    pub dbg: BTreeSet<u32>,
    pub fnseen: BTreeSet<u32>,
    pub globals_init: Vec<(u64, Rc<Obj>)>,
    pub outs: Vec<String>,
    pub samples: Vec<Sample>,
    ended: u64,
    pub forks: u64,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Intr {
    None, Nop, NopZero, Memcpy, Memmove, Memset, Memcmp, Bcmp, Strlen, Memchr, Malloc, Calloc, Realloc, Free, PosixMemalign,
    AddO(bool), SubO(bool), MulO(bool), AddSat(bool), SubSat(bool), Umin, Umax, Smin, Smax, Abs, Ctpop, Ctlz, Cttz, Bswap, Bitrev,
    Fshl, Fshr, ScmpU, ScmpS, IsConst, Expect, TlsAddr, Trap, Objsize, ReduceOr, ReduceAnd, ReduceXor, ReduceAdd, Ptrmask, FpToUiSat, FpToSiSat, Fabs,
    Panic, PanicNounwind, UnwrapFailed,
    SxBytes, SxAssume, SxCheck, SxCover, SxConc, SxEnd, SxPeakReset, SxPeak, SxLimit, SxCut, SxEq, SxNote, SxYield, SxChoose, SxAnd, SxOut,
    RustAlloc, RustAllocZ, RustDealloc, RustRealloc,
    KeyCreate, PthreadCreate, PthreadJoin, PthreadSelf, Syscall, Nanosleep, Pause, SchedYield, ClockGettime, Errno, Write, Getrandom, Sysconf, One, CxaThreadAtexit, Gettid, Getenv,
}
fn classify(n: &str) -> Intr {
    use Intr::*;
    if let Some(r) = n.strip_prefix("llvm.") {
        let p = |s: &str| r.starts_with(s);
        return if p("memcpy") { Memcpy } else if p("memmove") { Memmove } else if p("memset") { Memset }
        else if p("lifetime") || p("assume") || p("experimental.noalias") || p("dbg") || p("donothing") || p("prefetch") || p("invariant") || p("pseudoprobe") || p("fake.use") { Nop }
        else if p("sadd.with") { AddO(true) } else if p("uadd.with") { AddO(false) } else if p("ssub.with") { SubO(true) } else if p("usub.with") { SubO(false) }
        else if p("smul.with") { MulO(true) } else if p("umul.with") { MulO(false) } else if p("uadd.sat") { AddSat(false) } else if p("sadd.sat") { AddSat(true) }
        else if p("usub.sat") { SubSat(false) } else if p("ssub.sat") { SubSat(true) } else if p("umin") { Umin } else if p("umax") { Umax } else if p("smin") { Smin } else if p("smax") { Smax }
        else if p("abs") { Abs } else if p("ctpop") { Ctpop } else if p("ctlz") { Ctlz } else if p("cttz") { Cttz } else if p("bswap") { Bswap } else if p("bitreverse") { Bitrev }
        else if p("fshl") { Fshl } else if p("fshr") { Fshr } else if p("ucmp") { ScmpU } else if p("scmp") { ScmpS } else if p("is.constant") { IsConst } else if p("expect") { Expect }
        else if p("x86.sse2.pause") { Pause } else if p("threadlocal.address") { TlsAddr } else if p("trap") || p("ubsantrap") { Trap } else if p("objectsize") { Objsize }
        else if p("vector.reduce.or") { ReduceOr } else if p("vector.reduce.and") { ReduceAnd } else if p("vector.reduce.xor") { ReduceXor } else if p("vector.reduce.add") { ReduceAdd }
        else if p("ptrmask") { Ptrmask } else if p("fptoui.sat") { FpToUiSat } else if p("fptosi.sat") { FpToSiSat } else if p("fabs") { Fabs } else { None };
    }
    match n {
        "memcpy" => return Memcpy, "memmove" => return Memmove, "memset" => return Memset, "memcmp" => return Memcmp, "bcmp" => return Bcmp, "strlen" => return Strlen, "memchr" => return Memchr,
        "malloc" => return Malloc, "calloc" => return Calloc, "realloc" => return Realloc, "free" => return Free, "posix_memalign" => return PosixMemalign,
        "__sx_bytes" => return SxBytes, "__sx_assume" => return SxAssume, "__sx_check" => return SxCheck, "__sx_cover" => return SxCover, "__sx_conc" => return SxConc, "__sx_end" => return SxEnd,
        "__sx_peak_reset" => return SxPeakReset, "__sx_peak" => return SxPeak, "__sx_limit" => return SxLimit, "__sx_cut" => return SxCut, "__sx_eq" => return SxEq, "__sx_note" => return SxNote,
        "__sx_yield" => return SxYield, "__sx_choose" => return SxChoose, "__sx_out" => return SxOut,
        "pthread_key_create" => return KeyCreate, "pthread_create" => return PthreadCreate, "pthread_join" => return PthreadJoin, "pthread_self" => return PthreadSelf, "syscall" => return Syscall, "nanosleep" | "clock_nanosleep" => return Nanosleep,
        "sched_yield" => return SchedYield, "clock_gettime" => return ClockGettime, "__errno_location" => return Errno, "write" | "writev" => return Write, "getrandom" => return Getrandom,
        "sysconf" => return Sysconf, "__cxa_thread_atexit_impl" | "atexit" => return CxaThreadAtexit, "gettid" => return Gettid, "getenv" => return Getenv,
        "pthread_attr_init" | "pthread_attr_destroy" | "pthread_attr_setstacksize" | "pthread_setname_np" | "pthread_detach" | "pthread_setspecific" | "pthread_key_delete"
        | "sigaltstack" | "mprotect" | "munmap" | "sigaction" | "signal" | "pthread_attr_getguardsize" | "pthread_attr_getstack" | "pthread_getattr_np" | "poll" | "close" | "dlsym" => return NopZero,
        "abort" | "_exit" | "exit" => return Trap,
        _ => {}
    }
    // std's thread-local destructor registration and runtime entry points: not needed
    if n.contains("4core9panicking9panic_fmt") { return Panic; }
    if n.contains("4core9panicking") && (n.contains("14panic_nounwind") || n.contains("18panic_nounwind_fmt") || n.contains("19panic_cannot_unwind") || n.contains("16panic_in_cleanup")) { return PanicNounwind; }
    if n.ends_with("rust_panic") || n.contains("3std9panicking") && n.contains("20rust_panic_with_hook") || n.contains("5alloc5alloc18handle_alloc_error") { return PanicNounwind; }
    if n.contains("5alloc7raw_vec12handle_error") || n.contains("17capacity_overflow") { return UnwrapFailed; }
    if n.contains("7___rustc") {
        if n.ends_with("___rust_alloc") { return RustAlloc; }
        if n.ends_with("___rust_alloc_zeroed") { return RustAllocZ; }
        if n.ends_with("___rust_dealloc") { return RustDealloc; }
        if n.ends_with("___rust_realloc") { return RustRealloc; }
        if n.contains("no_alloc_shim") { return Nop; }
    }
    None
}
const HEAP: u64 = 0x10_0000_0000;
/// A thread that woke by itself so often waits for nothing.
const NAPS: u32 = 120;
const STACK: u64 = 0x7f00_0000_0000;

impl Exec {
    pub fn new(m: Module, sv: Solver, cfg: Cfg) -> Exec {
        let mut x = Exec {
            m, cx: Ctx::new(), sv, cfg, queue: vec![], consts: BTreeMap::new(), fkind: HashMap::new(), viol: vec![], vkeys: HashSet::new(), paths: 0, cut: 0, steps: 0,
            errors: BTreeMap::new(), covers: BTreeMap::new(), checks: BTreeMap::new(), dbg: BTreeSet::new(), fnseen: BTreeSet::new(), globals_init: vec![], outs: vec![], samples: vec![], ended: 0, forks: 0, seen: HashSet::new(), merged: 0,
        };
        for i in 0..x.m.funcs.len() {
            let k = classify(&x.m.funcs[i].name);
            x.fkind.insert(i as u32, k);
        }
        for i in 0..x.m.globals.len() {
            let (addr, size, cst, tls) = { let g = &x.m.globals[i]; (g.addr, g.size, g.constant, g.tls) };
            if tls {
                continue;
            }
            match x.m.global_init(i as u32) {
                Ok(b) => {
                    let mut o = Obj::new(size);
                    o.data = b;
                    if cst {
                        x.consts.insert(addr, Rc::new(o));
                    } else {
                        x.globals_init.push((addr, Rc::new(o)));
                    }
                }
                Err(e) => eprintln!("warning: initializer of {}: {e}", x.m.globals[i].name),
            }
        }
        x
    }
    pub fn start(&mut self, entry: &str) -> Result<(), String> {
        let f = *self.m.fmap.get(entry).ok_or(format!("no such harness: {entry}"))?;
        let mut st = State {
            threads: vec![Thread { frames: vec![], stat: TStat::Run, tls: BTreeMap::new(), sp: STACK, errno: 0, naps: 0, nsym: 0, heap: HEAP }],
            cur: 0,
            objs: self.globals_init.iter().cloned().collect(),

            pc: Rc::new(vec![]),
            model: Rc::new(HashMap::new()),
            draws: Rc::new(vec![]),
            sched: vec![],
            forced: HashSet::new(),
            steps: 0,
            peak: 0,
            live: 0,
            clock: 1_000_000_000,
            alloc_limit: u64::MAX,
            alloc_cut: u64::MAX,
            depth: 0,
            preempt: 0,
            keys: 0,
            ticks: 0,
            notes: vec![],
            outs: Rc::new(vec![]),
            was_cut: false,
        };
        self.push_call(&mut st, f, vec![], NOREG).map_err(|_| "start".to_string())?;
        self.queue.push(st);
        Ok(())
    }
    fn push_call(&mut self, st: &mut State, f: u32, args: Vec<Val>, ret: u32) -> R<()> {
        let body = self.m.body(f).map_err(|e| Stop::Err(format!("external function: {e}")))?;
        self.fnseen.insert(f);
        let mut regs = vec![Z; body.nregs as usize];
        for (p, a) in body.params.iter().zip(args) {
            regs[*p as usize] = a;
        }
        let th = &mut st.threads[st.cur];
        if th.frames.len() > 400 {
            return Err(Stop::Err("call depth".into()));
        }
        th.frames.push(Frame { f, body, regs, blk: 0, ip: 0, ret, allocas: vec![] });
        Ok(())
    }
    pub fn run(&mut self) -> bool {
        while let Some(mut st) = self.queue.pop() {
            if Instant::now() > self.cfg.deadline {
                *self.errors.entry("time limit".into()).or_default() += 1;
                return false;
            }
            if self.paths >= self.cfg.max_paths {
                *self.errors.entry("path limit".into()).or_default() += 1;
                return false;
            }
            let r = self.run_state(&mut st);
            match r {
                Stop::Fork | Stop::Merged => {}
                Stop::End => {
                    self.paths += 1;
                    self.sample(&st);
                }
                Stop::Bad => {
                    self.paths += 1;
                    if self.viol.len() >= self.cfg.max_viol {
                        return true;
                    }
                }
                Stop::Err(e) => {
                    self.paths += 1;
                    let loc = self.where_am_i(&st);
                    let k = format!("{e} @ {}", loc.join(" < "));
                    *self.errors.entry(k).or_default() += 1;
                    if self.errors.len() > 20 {
                        return false;
                    }
                }
            }
        }
        true
    }
    /// Keeps a random few of the completed paths, as concrete inputs with the outputs the executor predicts.
    fn sample(&mut self, st: &State) {
        if st.was_cut || self.cfg.samples == 0 {
            return;
        }
        self.ended += 1;
        self.cfg.seed = self.cfg.seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let at = if self.samples.len() < self.cfg.samples {
            self.samples.push(Sample { draws: vec![], sched: vec![], outs: vec![] });
            self.samples.len() - 1
        } else {
            let r = ((self.cfg.seed >> 16) % self.ended) as usize;
            if r >= self.cfg.samples {
                return;
            }
            r
        };
        let mut outs = vec![];
        for (l, b) in st.outs.iter() {
            let h: String = b.iter().map(|v| match v {
                Val::I(k) => format!("{:02x}", *k as u8),
                Val::E(e) => format!("{:02x}", self.cx.eval(*e, &st.model) as u8),
                _ => "??".into(),
            }).collect();
            outs.push(format!("{l} {h}"));
        }
        self.samples[at] = Sample { draws: self.draws_of(st), sched: st.sched.clone(), outs };
    }
    pub fn where_am_i(&self, st: &State) -> Vec<String> {
        let mut out = vec![];
        for fr in st.threads[st.cur].frames.iter().rev().take(12) {
            let b = &fr.body.blocks[fr.blk as usize];
            let i = (fr.ip as usize).min(b.dbg.len().saturating_sub(1));
            let d = b.dbg.get(i).cloned().unwrap_or(0);
            if d != 0 {
                let mut id = Some(d);
                while let Some(x) = id {
                    match self.m.location(x) {
                        Some((f, l, n, inl)) => {
                            out.push(format!("{n} {f}:{l}"));
                            id = inl;
                        }
                        None => break,
                    }
                }
            } else {
                out.push(self.m.funcs[fr.f as usize].name.clone());
            }
        }
        out
    }
    fn run_state(&mut self, st: &mut State) -> Stop {
        let mut n = 0u64;
        loop {
            n += 1;
            if n & 0xffff == 0 && Instant::now() > self.cfg.deadline {
                return Stop::Err("time limit".into());
            }
            if let Err(s) = self.step(st) {
                self.steps += n;
                return s;
            }
            st.steps += 1;
            if st.steps > self.cfg.max_steps {
                self.steps += n;
                return self.violation(st, "hang", "execution does not come to an end", None);
            }
        }
    }
    // ---- values ------------------------------------------------------------------------------
    fn ex(&mut self, v: &Val, w: u32) -> E {
        match v {
            Val::I(k) => self.cx.k(w, *k),
            Val::E(e) => *e,
            Val::A(_) => panic!("UNSUPPORTED: aggregate as scalar"),
        }
    }
    fn vl(&self, e: E) -> Val {
        match self.cx.as_k(e) {
            Some(k) => Val::I(k),
            None => Val::E(e),
        }
    }
    #[inline]
    fn get(&self, st: &State, o: &Opd) -> Val {
        match o {
            Opd::K(v) => v.clone(),
            Opd::R(r) => st.threads[st.cur].frames.last().unwrap().regs[*r as usize].clone(),
        }
    }
    #[inline]
    fn set(&self, st: &mut State, d: u32, v: Val) {
        if d != NOREG {
            let c = st.cur;
            st.threads[c].frames.last_mut().unwrap().regs[d as usize] = v;
        }
    }
    fn bin_val(&mut self, op: Op, w: u32, a: &Val, b: &Val) -> Val {
        if let (Val::I(x), Val::I(y)) = (a, b) {
            if w <= 128 {
                return Val::I(Ctx::fold(op, w, *x, *y));
            }
        }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let e = self.cx.bin(op, x, y);
        self.vl(e)
    }
    // ---- path condition ----------------------------------------------------------------------
    fn slice(&mut self, st: &State, c: E) -> Vec<E> {
        let mut want: HashSet<u32> = self.cx.symbols(c).iter().cloned().collect();
        let mut used = vec![false; st.pc.len()];
        let mut out = vec![c];
        loop {
            let mut ch = false;
            for (i, p) in st.pc.iter().enumerate() {
                if used[i] {
                    continue;
                }
                let s = self.cx.symbols(*p);
                if s.iter().any(|x| want.contains(x)) {
                    used[i] = true;
                    out.push(*p);
                    ch = true;
                    for x in s.iter() {
                        want.insert(*x);
                    }
                }
            }
            if !ch {
                break;
            }
        }
        out
    }
    /// Satisfiability of pc and c; on success a model of the whole path condition.
    fn sat(&mut self, st: &State, c: E) -> R<Option<Model>> {
        match self.cx.as_k(c) {
            Some(0) => return Ok(None),
            Some(_) => return Ok(Some(st.model.clone())),
            None => {}
        }
        if self.cx.eval(c, &st.model) == 1 {
            return Ok(Some(st.model.clone()));
        }
        let q = self.slice(st, c);
        match self.sv.check(&mut self.cx, &q) {
            Ok(v) => {
                let mut m: HashMap<u32, u8> = (*st.model).clone();
                for (k, x) in v {
                    m.insert(k, x);
                }
                Ok(Some(Rc::new(m)))
            }
            Err(Sat::Unsat) => Ok(None),
            Err(Sat::Unknown) => Err(Stop::Err("solver gave no answer".into())),
        }
    }
    fn add(&self, st: &mut State, c: E) {
        if self.cx.as_k(c) == Some(1) {
            return;
        }
        let v = Rc::make_mut(&mut st.pc);
        if !v.contains(&c) {
            // split conjunctions for better slicing
            let n = self.cx.n(c);
            if n.op == Op::And && n.w == 1 {
                v.push(n.a);
                v.push(n.b);
            } else {
                v.push(c);
            }
        }
    }
    /// Decide a 1-bit value. Forks (queueing both sides at the current instruction) when both are possible.
    fn decide(&mut self, st: &mut State, v: &Val) -> R<bool> {
        let e = match v {
            Val::I(k) => return Ok(*k & 1 == 1),
            Val::E(e) => *e,
            _ => panic!(),
        };
        let cur = self.cx.eval(e, &st.model) == 1;
        let ne = self.cx.not(e);
        let (same, other) = if cur { (e, ne) } else { (ne, e) };
        match self.sat(st, other)? {
            None => {
                Ok(cur)
            }
            Some(m) => {
                self.forks += 1;
                let mut o = st.clone();
                o.depth += 1;
                self.add(&mut o, other);
                o.model = m;
                self.queue.push(o);
                self.add(st, same);
                Ok(cur)
            }
        }
    }
    /// A single concrete value; forks over all feasible ones.
    fn conc(&mut self, st: &mut State, v: &Val, w: u32) -> R<u128> {
        let e = match v {
            Val::I(k) => return Ok(*k),
            Val::E(e) => *e,
            _ => panic!(),
        };
        let x = self.cx.eval(e, &st.model);
        let k = self.cx.k(w, x);
        let eq = self.cx.bin(Op::Eq, e, k);
        let ne = self.cx.not(eq);
        if let Some(m) = self.sat(st, ne)? {
            self.forks += 1;
            let mut o = st.clone();
            o.depth += 1;
            self.add(&mut o, ne);
            o.model = m;
            self.queue.push(o);
            self.add(st, eq);
        }
        Ok(x)
    }
    /// Concrete operand, written back to its register.
    fn conc_opd(&mut self, st: &mut State, o: &Opd, w: u32) -> R<u128> {
        let v = self.get(st, o);
        if let Val::I(k) = v {
            return Ok(k);
        }
        let x = self.conc(st, &v, w)?;
        if let Opd::R(r) = o {
            self.set(st, *r, Val::I(x));
        }
        Ok(x)
    }
    // ---- memory ------------------------------------------------------------------------------
    fn find(&self, st: &State, a: u64) -> Option<(u64, Rc<Obj>)> {
        if a < HEAP {
            if let Some((b, o)) = self.consts.range(..=a).next_back() {
                if a < b + o.size || (a == *b) {
                    return Some((*b, o.clone()));
                }
            }
        }
        if let Some((b, o)) = st.objs.range(..=a).next_back() {
            if a <= b + o.size {
                return Some((*b, o.clone()));
            }
        }
        None
    }
    fn with<T>(&self, st: &State, a: u64, n: u64, f: impl FnOnce(&Obj, u64) -> T) -> R<T> {
        if a < HEAP {
            if let Some((b, o)) = self.consts.range(..=a).next_back() {
                if a + n <= b + o.size {
                    return Ok(f(o, a - b));
                }
            }
        }
        if let Some((b, o)) = st.objs.range(..=a).next_back() {
            if a + n <= b + o.size {
                return Ok(f(o, a - b));
            }
        }
        Err(Stop::Err(format!("invalid read of {n} bytes at {a:#x}")))
    }
    fn with_mut<T>(&self, st: &mut State, a: u64, n: u64, f: impl FnOnce(&mut Obj, u64) -> T) -> R<T> {
        if let Some((b, o)) = st.objs.range_mut(..=a).next_back() {
            if a + n <= b + o.size {
                let off = a - b;
                let o = Rc::make_mut(o);
                o.hash.set(0);
                return Ok(f(o, off));
            }
        }
        Err(Stop::Err(format!("invalid write of {n} bytes at {a:#x}")))
    }
    pub fn load_bytes(&mut self, st: &State, a: u64, n: u64) -> R<Vec<Val>> {
        if n == 0 {
            return Ok(vec![]);
        }
        self.with(st, a, n, |o, off| {
            (0..n).map(|i| match o.sym.get(&((off + i) as u32)) {
                Some(e) => Val::E(*e),
                None => Val::I(o.data[(off + i) as usize] as u128),
            }).collect()
        })
    }
    pub fn store_bytes(&mut self, st: &mut State, a: u64, v: &[Val]) -> R<()> {
        if v.is_empty() {
            return Ok(());
        }
        self.with_mut(st, a, v.len() as u64, |o, off| {
            for (i, x) in v.iter().enumerate() {
                let p = off as usize + i;
                match x {
                    Val::I(k) => {
                        o.data[p] = *k as u8;
                        if !o.sym.is_empty() {
                            o.sym.remove(&(p as u32));
                        }
                    }
                    Val::E(e) => {
                        o.sym.insert(p as u32, *e);
                    }
                    _ => unreachable!(),
                }
            }
        })
    }
    fn load_int(&mut self, st: &State, a: u64, w: u32) -> R<Val> {
        let n = ((w + 7) / 8) as u64;
        if n <= 16 {
            let fast = self.with(st, a, n, |o, off| {
                if !o.sym.is_empty() && o.sym.range(off as u32..(off + n) as u32).next().is_some() {
                    return None;
                }
                let mut k = 0u128;
                for i in (0..n).rev() {
                    k = k << 8 | o.data[(off + i) as usize] as u128;
                }
                Some(k & mask(w))
            })?;
            if let Some(k) = fast {
                return Ok(Val::I(k));
            }
        }
        let bs = self.load_bytes(st, a, n)?;
        let mut e = self.ex(&bs[0], 8);
        // assemble from low to high
        for b in &bs[1..] {
            let h = self.ex(b, 8);
            e = self.cx.concat(h, e);
        }
        if w < n as u32 * 8 {
            e = self.cx.ext(e, 0, w);
        }
        let x = self.cx.n(e);
        if x.op == Op::Ext {
            e = self.cx.ext(x.a, x.k as u32, w);
        }
        Ok(self.vl(e))
    }
    fn store_int(&mut self, st: &mut State, a: u64, w: u32, v: &Val) -> R<()> {
        let n = ((w + 7) / 8) as u64;
        match v {
            Val::I(k) => {
                let k = *k;
                self.with_mut(st, a, n, |o, off| {
                    for i in 0..n {
                        o.data[(off + i) as usize] = if i < 16 { (k >> (8 * i)) as u8 } else { 0 };
                    }
                    if !o.sym.is_empty() {
                        for i in 0..n {
                            o.sym.remove(&((off + i) as u32));
                        }
                    }
                })
            }
            Val::E(e) => {
                let e = if w < n as u32 * 8 { self.cx.zext(*e, n as u32 * 8) } else { *e };
                let mut bs = vec![];
                for i in 0..n {
                    let b = self.cx.ext_mem(e, 8 * i as u32, 8);
                    bs.push(self.vl(b));
                }
                self.store_bytes(st, a, &bs)
            }
            _ => unreachable!(),
        }
    }
    fn load_ty(&mut self, st: &State, a: u64, t: TyId) -> R<Val> {
        if self.m.is_agg(t) {
            let ms = self.m.members(t);
            let mut v = vec![];
            for (i, mt) in ms.into_iter().enumerate() {
                let (o, _) = self.m.field_off(t, i);
                v.push(self.load_ty(st, a + o, mt)?);
            }
            return Ok(Val::A(Rc::new(v)));
        }
        let w = self.m.bits(t);
        self.load_int(st, a, w)
    }
    fn store_ty(&mut self, st: &mut State, a: u64, t: TyId, v: &Val) -> R<()> {
        if self.m.is_agg(t) {
            let ms = self.m.members(t);
            if let Val::A(xs) = v {
                for (i, mt) in ms.into_iter().enumerate() {
                    let (o, _) = self.m.field_off(t, i);
                    self.store_ty(st, a + o, mt, &xs[i])?;
                }
                return Ok(());
            }
        }
        let w = self.m.bits(t);
        self.store_int(st, a, w, v)
    }
    fn copy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (data, syms): (Vec<u8>, Vec<(u32, E)>) = self.with(st, s, n, |o, off| {
            (o.data[off as usize..(off + n) as usize].to_vec(), if o.sym.is_empty() { vec![] } else { o.sym.range(off as u32..(off + n) as u32).map(|(k, e)| (*k - off as u32, *e)).collect() })
        })?;
        self.with_mut(st, d, n, |o, off| {
            o.data[off as usize..(off + n) as usize].copy_from_slice(&data);
            if !o.sym.is_empty() {
                let ks: Vec<u32> = o.sym.range(off as u32..(off + n) as u32).map(|(k, _)| *k).collect();
                for k in ks {
                    o.sym.remove(&k);
                }
            }
            for (k, e) in syms {
                o.sym.insert(off as u32 + k, e);
            }
        })
    }
    fn alloc(&mut self, st: &mut State, size: u64, align: u64) -> u64 {
        let al = align.max(16);
        let th = &mut st.threads[st.cur];
        let a = (th.heap + al - 1) / al * al;
        th.heap = a + size + 32;
        let mut o = Obj::new(size);
        o.heap = true;
        o.align = align;
        st.objs.insert(a, Rc::new(o));
        st.live += size;
        if size > st.peak {
            st.peak = size;
        }
        a
    }
    fn alloc_req(&mut self, st: &mut State, size: &Val, align: u64) -> R<u64> {
        // limit and cut apply to the symbolic size, before it is made concrete
        if st.alloc_limit != u64::MAX {
            let l = self.cx.k(64, st.alloc_limit as u128);
            let s = self.ex(size, 64);
            let over = self.cx.bin(Op::Ult, l, s);
            let over = self.vl(over);
            *self.checks.entry("allocation limit".into()).or_default() += 1;
            if self.decide(st, &over)? {
                let v = match size { Val::I(k) => *k, Val::E(e) => self.cx.eval(*e, &st.model), _ => 0 };
                return Err(self.violation(st, "check", &format!("allocation of {v} bytes exceeds the limit of {} bytes", st.alloc_limit), None));
            }
        }
        if st.alloc_cut != u64::MAX && !matches!(size, Val::I(_)) {
            let l = self.cx.k(64, st.alloc_cut as u128);
            let s = self.ex(size, 64);
            let over = self.cx.bin(Op::Ult, l, s);
            let over = self.vl(over);
            if self.decide(st, &over)? {
                st.was_cut = true;
                self.cut += 1;
                return Err(Stop::End);
            }
        }
        let n = self.conc(st, size, 64)? as u64;
        if n > 1 << 28 {
            return Err(Stop::Err(format!("allocation of {n} bytes")));
        }
        Ok(self.alloc(st, n, align))
    }
    fn free(&mut self, st: &mut State, a: u64) -> R<()> {
        if a == 0 {
            return Ok(());
        }
        match st.objs.remove(&a) {
            Some(o) if o.heap => {
                st.live -= o.size;
                Ok(())
            }
            _ => Err(Stop::Err(format!("invalid free of {a:#x}"))),
        }
    }
    // ---- reporting ---------------------------------------------------------------------------
    pub fn draws_of(&self, st: &State) -> Vec<Vec<u8>> {
        st.draws.iter().map(|(s, n)| (0..*n).map(|i| *st.model.get(&(s + i)).unwrap_or(&0)).collect()).collect()
    }
    fn violation(&mut self, st: &State, kind: &str, label: &str, loc: Option<String>) -> Stop {
        let stack = self.where_am_i(st);
        let loc = loc.unwrap_or_else(|| stack.first().cloned().unwrap_or_default());
        let key = format!("{kind}|{label}|{loc}");
        if self.vkeys.insert(key) {
            self.viol.push(Violation { kind: kind.into(), label: label.into(), loc, stack, draws: self.draws_of(st), sched: st.sched.clone(), notes: st.notes.clone() });
        }
        Stop::Bad
    }
    fn cstr(&mut self, st: &State, p: u64, n: u64) -> String {
        match self.load_bytes(st, p, n) {
            Ok(b) => b.iter().map(|v| if let Val::I(k) = v { *k as u8 as char } else { '?' }).collect(),
            Err(_) => "?".into(),
        }
    }
    fn rust_location(&mut self, st: &State, p: u64) -> String {
        let f = |x: &mut Self, o: u64, w: u32| match x.load_int(st, p + o, w) { Ok(Val::I(k)) => k as u64, _ => 0 };
        let (fp, fl, line, col) = (f(self, 0, 64), f(self, 8, 64), f(self, 16, 32), f(self, 20, 32));
        if fl > 4096 {
            return "?".into();
        }
        let mut s = self.cstr(st, fp, fl);
        while s.ends_with('\0') {
            s.pop();
        }
        format!("{s}:{line}:{col}")
    }
    // ---- scheduling --------------------------------------------------------------------------
    fn runnable(&self, st: &State) -> Vec<usize> {
        let due = if !self.cfg.punctual {
            u64::MAX
        } else {
            st.threads.iter().filter_map(|t| match t.stat {
                TStat::Sleep(u) | TStat::Futex(_, Some(u), _) => Some(u),
                _ => None,
            }).min().unwrap_or(u64::MAX)
        };
        let pick = |free: bool| -> Vec<usize> {
            (0..st.threads.len()).filter(|i| match st.threads[*i].stat {
                TStat::Run => true,
                TStat::Futex(_, None, _) => false,
                TStat::Futex(_, Some(u), _) | TStat::Sleep(u) => u <= due && (free || st.threads[*i].naps < self.cfg.max_naps),
                TStat::Join(t) => st.threads[t].stat == TStat::Done,
                TStat::Done => false,
            }).collect()
        };
        let r = pick(false);
        if r.is_empty() { pick(true) } else { r }
    }
    /// Called after the current instruction has completed: choose who runs next. `yielding`: the
    /// current thread gave up the processor by itself, so a switch is not a preemption.
    fn resched(&mut self, st: &mut State, yielding: bool) -> R<()> {
        if yielding {
            st.ticks = 0;
        }
        let r = self.runnable(st);
        self.choose(st, yielding, r)
    }
    /// A thread that spins waits for another one: let another one run.
    fn spin(&mut self, st: &mut State) -> R<()> {
        let mut r = self.runnable(st);
        if r.len() > 1 {
            let c = st.cur;
            r.retain(|t| *t != c);
        }
        self.choose(st, true, r)
    }
    fn choose(&mut self, st: &mut State, yielding: bool, r: Vec<usize>) -> R<()> {
        if st.threads.len() > 1 {
            let fp = fingerprint(st, yielding as u64);
            if r.len() == 1 {
                // nothing else can happen: the same state again means for ever
                if !st.forced.insert(fp) {
                    return Err(self.violation(st, "livelock", "the threads make no progress", None));
                }
            } else if !st.forced.is_empty() {
                st.forced.clear();
            }
            if !self.seen.insert(fp) {
                self.merged += 1;
                return Err(Stop::Merged);
            }
        }
        if r.is_empty() {
            return Err(self.violation(st, "deadlock", "all threads are blocked", None));
        }
        if r.len() == 1 {
            st.cur = r[0];
            return self.wake(st);
        }
        let cur_ok = r.contains(&st.cur);
        let can = yielding || !cur_ok || st.preempt < self.cfg.max_preempt;
        if !can {
            return Ok(());
        }
        let cur = st.cur;
        // the draw is a nondeterministic choice without a solver variable
        for (i, t) in r.iter().enumerate().skip(1) {
            let mut o = st.clone();
            self.forks += 1;
            o.sched.push(i as u32);
            if !yielding && cur_ok && *t != cur {
                o.preempt += 1;
            }
            o.cur = *t;
            if self.wake(&mut o).is_ok() {
                self.queue.push(o);
            }
        }
        st.sched.push(0);
        if !yielding && cur_ok && r[0] != cur {
            st.preempt += 1;
        }
        st.cur = r[0];
        self.wake(st)
    }
    fn wake(&mut self, st: &mut State) -> R<()> {
        let c = st.cur;
        let (until, ret) = match st.threads[c].stat {
            TStat::Futex(_, Some(t), d) => (t, d),
            TStat::Sleep(t) => (t, NOREG),
            _ => {
                st.threads[c].stat = TStat::Run;
                return Ok(());
            }
        };
        st.clock = st.clock.max(until);
        st.threads[c].naps += 1;
        st.threads[c].stat = TStat::Run;
        if ret != NOREG {
            // ETIMEDOUT
            let e = self.errno(st);
            self.store_int(st, e, 32, &Val::I(110))?;
            self.set(st, ret, Val::I(mask(64)));
        }
        if st.threads[c].naps > NAPS {
            return Err(self.violation(st, "livelock", "a thread sleeps and wakes for ever", None));
        }
        Ok(())
    }
    fn errno(&self, st: &mut State) -> u64 {
        let c = st.cur;
        if st.threads[c].errno == 0 {
            let th = &mut st.threads[c];
            let x = (th.heap + 63) / 64 * 64;
            th.heap = x + 64;
            st.objs.insert(x, Rc::new(Obj::new(4)));
            st.threads[c].errno = x;
        }
        st.threads[c].errno
    }
    fn timespec(&mut self, st: &State, p: u64) -> R<u64> {
        let mut t = [0u64; 2];
        for i in 0..2 {
            t[i] = match self.load_int(st, p + 8 * i as u64, 64)? {
                Val::I(k) => k as u64,
                _ => return Err(Stop::Err("symbolic time".into())),
            };
        }
        Ok(t[0].saturating_mul(1_000_000_000).saturating_add(t[1]))
    }
    // ---- the interpreter ---------------------------------------------------------------------
    fn goto(&mut self, st: &mut State, b: u32) -> R<()> {
        let c = st.cur;
        let fr = st.threads[c].frames.last_mut().unwrap();
        let from = fr.blk;
        let body = fr.body.clone();
        let nb = &body.blocks[b as usize];
        if !nb.phis.is_empty() {
            let mut vs: Vec<Val> = Vec::with_capacity(nb.phis.len());
            for p in &nb.phis {
                let o = &p.from.iter().find(|x| x.0 == from).ok_or_else(|| Stop::Err("phi".into()))?.1;
                vs.push(match o {
                    Opd::K(v) => v.clone(),
                    Opd::R(r) => fr.regs[*r as usize].clone(),
                });
            }
            for (p, v) in nb.phis.iter().zip(vs) {
                fr.regs[p.d as usize] = v;
            }
        }
        fr.blk = b;
        fr.ip = 0;
        Ok(())
    }
    #[inline]
    fn adv(&self, st: &mut State) {
        let c = st.cur;
        st.threads[c].frames.last_mut().unwrap().ip += 1;
    }
    fn step(&mut self, st: &mut State) -> R<()> {
        let (body, blk, ip) = {
            let fr = st.threads[st.cur].frames.last().unwrap();
            (fr.body.clone(), fr.blk, fr.ip)
        };
        let b = &body.blocks[blk as usize];
        let inst = &b.insts[ip as usize];
        let dbg = b.dbg[ip as usize];
        if dbg != 0 {
            self.dbg.insert(dbg);
        }
        match inst {
            Inst::Bin { op, ty, w, a, b, d } => {
                let (x, y) = (self.get(st, a), self.get(st, b));
                let r = if let (Val::A(xs), Val::A(ys)) = (&x, &y) {
                    let ew = w / xs.len() as u32;
                    let _ = ty;
                    let mut v = vec![];
                    for (p, q) in xs.iter().zip(ys.iter()) {
                        v.push(self.binop(st, *op, ew, p, q)?);
                    }
                    Val::A(Rc::new(v))
                } else {
                    self.binop(st, *op, *w, &x, &y)?
                };
                self.set(st, *d, r);
                self.adv(st);
            }
            Inst::Icmp { p, w, a, b, d, .. } => {
                let (x, y) = (self.get(st, a), self.get(st, b));
                let r = if let (Val::A(xs), Val::A(ys)) = (&x, &y) {
                    let ew = w / xs.len() as u32;
                    Val::A(Rc::new(xs.iter().zip(ys.iter()).map(|(p1, q)| self.icmp(*p, ew, p1, q)).collect()))
                } else {
                    self.icmp(*p, *w, &x, &y)
                };
                self.set(st, *d, r);
                self.adv(st);
            }
            Inst::Fcmp { p, w, a, b, d } => {
                let (x, y) = (self.get(st, a), self.get(st, b));
                let (x, y) = (self.ex(&x, *w), self.ex(&y, *w));
                let r = self.fcmp(p, x, y)?;
                let v = self.vl(r);
                self.set(st, *d, v);
                self.adv(st);
            }
            Inst::Fneg { w, a, d } => {
                let x = self.get(st, a);
                let r = self.bin_val(Op::Xor, *w, &x, &Val::I(1 << (w - 1)));
                self.set(st, *d, r);
                self.adv(st);
            }
            Inst::Select { ty, c, a, b, d, .. } => {
                let (cv, x, y) = (self.get(st, c), self.get(st, a), self.get(st, b));
                let r = self.select(st, *ty, &cv, &x, &y)?;
                self.set(st, *d, r);
                self.adv(st);
            }
            Inst::Cast { op, from, to, a, d } => {
                let x = self.get(st, a);
                let r = if let (Val::A(xs), true) = (&x, *op != CastOp::Freeze && *op != CastOp::Bitcast) {
                    let fe = self.m.members(*from)[0];
                    let te = self.m.members(*to)[0];
                    let mut v = vec![];
                    for q in xs.iter() {
                        v.push(self.cast(*op, fe, te, q)?);
                    }
                    Val::A(Rc::new(v))
                } else {
                    self.cast(*op, *from, *to, &x)?
                };
                self.set(st, *d, r);
                self.adv(st);
            }
            Inst::Load { ty, p, d, atomic } => {
                let v = self.get(st, p);
                let r = match v {
                    Val::I(a) => self.load_ty(st, a as u64, *ty)?,
                    Val::E(e) => match self.table_load(st, e, *ty)? {
                        Some(v) => v,
                        None => {
                            let a = self.conc_opd(st, p, 64)?;
                            self.load_ty(st, a as u64, *ty)?
                        }
                    },
                    _ => unreachable!(),
                };
                self.set(st, *d, r);
                self.adv(st);
                if *atomic && st.threads.len() > 1 {
                    self.resched(st, false)?;
                }
            }
            Inst::Store { ty, v, p, atomic } => {
                let a = self.conc_opd(st, p, 64)? as u64;
                let x = self.get(st, v);
                self.store_ty(st, a, *ty, &x)?;
                self.adv(st);
                if *atomic && st.threads.len() > 1 {
                    self.resched(st, false)?;
                }
            }
            Inst::Gep { base, off, idx, d } => {
                let b = self.get(st, base);
                let mut allc = matches!(b, Val::I(_));
                let vs: Vec<Val> = idx.iter().map(|(o, _, _)| { let v = self.get(st, o); allc &= matches!(v, Val::I(_)); v }).collect();
                let r = if allc {
                    let mut a = if let Val::I(k) = b { k as u64 } else { 0 };
                    a = a.wrapping_add(*off as u64);
                    for ((_, w, s), v) in idx.iter().zip(&vs) {
                        if let Val::I(k) = v {
                            a = a.wrapping_add((sx(*k, *w) as u64).wrapping_mul(*s));
                        }
                    }
                    Val::I(a as u128)
                } else {
                    let mut e = self.ex(&b, 64);
                    let o = self.cx.k(64, *off as u64 as u128);
                    e = self.cx.bin(Op::Add, e, o);
                    for ((_, w, s), v) in idx.iter().zip(&vs) {
                        let x = self.ex(v, *w);
                        let x = if *w < 64 { self.cx.sext(x, 64) } else { self.cx.ext(x, 0, 64) };
                        let k = self.cx.k(64, *s as u128);
                        let t = self.cx.bin(Op::Mul, x, k);
                        e = self.cx.bin(Op::Add, e, t);
                    }
                    self.vl(e)
                };
                self.set(st, *d, r);
                self.adv(st);
            }
            Inst::Br(b) => self.goto(st, *b)?,
            Inst::CondBr(c, t, f) => {
                let v = self.get(st, c);
                let r = self.decide(st, &v)?;
                self.goto(st, if r { *t } else { *f })?;
            }
            Inst::Switch { w, v, def, cases } => {
                let x = self.get(st, v);
                match x {
                    Val::I(k) => {
                        let t = cases.iter().find(|c| c.0 == k).map_or(*def, |c| c.1);
                        self.goto(st, t)?;
                    }
                    Val::E(e) => {
                        // decide case by case
                        for (k, l) in cases {
                            let kk = self.cx.k(*w, *k);
                            let c = self.cx.bin(Op::Eq, e, kk);
                            let c = self.vl(c);
                            if self.decide(st, &c)? {
                                return self.goto(st, *l);
                            }
                        }
                        self.goto(st, *def)?;
                    }
                    _ => unreachable!(),
                }
            }
            Inst::Ret(v) => {
                let r = match v {
                    Some(o) => Some(self.get(st, o)),
                    None => None,
                };
                let c = st.cur;
                let fr = st.threads[c].frames.pop().unwrap();
                for a in fr.allocas {
                    st.objs.remove(&a);
                }
                if st.threads[c].frames.is_empty() {
                    if c == 0 {
                        return Err(Stop::End);
                    }
                    st.threads[c].stat = TStat::Done;
                    return self.resched(st, true);
                }
                if let Some(v) = r {
                    self.set(st, fr.ret, v);
                }
                self.adv(st);
            }
            Inst::Unreachable => return Err(self.violation(st, "unreachable", "unreachable code executed", None)),
            Inst::Alloca { size, n, d } => {
                let k = self.conc_opd(st, n, 64)? as u64;
                let c = st.cur;
                let sz = size * k;
                let a = (st.threads[c].sp + 63) / 64 * 64;
                // stack addresses are never reused within a path, so dangling stack pointers are caught
                st.threads[c].sp = a + sz + 64;
                st.objs.insert(a, Rc::new(Obj::new(sz)));
                st.threads[c].frames.last_mut().unwrap().allocas.push(a);
                self.set(st, *d, Val::I(a as u128));
                self.adv(st);
            }
            Inst::ExtractVal { a, idx, d } => {
                let mut v = self.get(st, a);
                for i in idx {
                    v = match v {
                        Val::A(x) => x[*i as usize].clone(),
                        _ => return Err(Stop::Err("extractvalue".into())),
                    };
                }
                self.set(st, *d, v);
                self.adv(st);
            }
            Inst::InsertVal { a, v, idx, d } => {
                let mut x = self.get(st, a);
                let y = self.get(st, v);
                fn ins(x: &mut Val, idx: &[u32], y: Val) {
                    if idx.is_empty() {
                        *x = y;
                        return;
                    }
                    if let Val::A(r) = x {
                        ins(&mut Rc::make_mut(r)[idx[0] as usize], &idx[1..], y);
                    }
                }
                ins(&mut x, idx, y);
                self.set(st, *d, x);
                self.adv(st);
            }
            Inst::ExtractEl { a, i, d } => {
                let k = self.conc_opd(st, i, 64)? as usize;
                if let Val::A(x) = self.get(st, a) {
                    self.set(st, *d, x[k].clone());
                }
                self.adv(st);
            }
            Inst::InsertEl { a, v, i, d } => {
                let k = self.conc_opd(st, i, 64)? as usize;
                let y = self.get(st, v);
                if let Val::A(mut x) = self.get(st, a) {
                    Rc::make_mut(&mut x)[k] = y;
                    self.set(st, *d, Val::A(x));
                }
                self.adv(st);
            }
            Inst::Shuffle { a, b, n, m, d } => {
                if let (Val::A(x), Val::A(y)) = (self.get(st, a), self.get(st, b)) {
                    let v = m.iter().map(|i| if *i < 0 { Z } else if (*i as u32) < *n { x[*i as usize].clone() } else { y[*i as usize - *n as usize].clone() }).collect();
                    self.set(st, *d, Val::A(Rc::new(v)));
                }
                self.adv(st);
            }
            Inst::Rmw { op, ty, p, v, d } => {
                let a = self.conc_opd(st, p, 64)? as u64;
                let w = self.m.bits(*ty);
                let old = self.load_ty(st, a, *ty)?;
                let x = self.get(st, v);
                let n = match op {
                    RmwOp::Xchg => x,
                    RmwOp::Add => self.bin_val(Op::Add, w, &old, &x),
                    RmwOp::Sub => self.bin_val(Op::Sub, w, &old, &x),
                    RmwOp::And => self.bin_val(Op::And, w, &old, &x),
                    RmwOp::Or => self.bin_val(Op::Or, w, &old, &x),
                    RmwOp::Xor => self.bin_val(Op::Xor, w, &old, &x),
                    RmwOp::Nand => {
                        let t = self.bin_val(Op::And, w, &old, &x);
                        self.bin_val(Op::Xor, w, &t, &Val::I(mask(w)))
                    }
                    RmwOp::Max | RmwOp::Min | RmwOp::Umax | RmwOp::Umin => {
                        let c = self.icmp(match op { RmwOp::Max => Pred::Sgt, RmwOp::Min => Pred::Slt, RmwOp::Umax => Pred::Ugt, _ => Pred::Ult }, w, &old, &x);
                        self.ite_val(w, &c, &old, &x)
                    }
                };
                self.store_ty(st, a, *ty, &n)?;
                self.set(st, *d, old);
                self.adv(st);
                if st.threads.len() > 1 {
                    self.resched(st, false)?;
                }
            }
            Inst::CmpXchg { ty, p, c, n, d } => {
                let a = self.conc_opd(st, p, 64)? as u64;
                let w = self.m.bits(*ty);
                let old = self.load_ty(st, a, *ty)?;
                let (cv, nv) = (self.get(st, c), self.get(st, n));
                let eq = self.icmp(Pred::Eq, w, &old, &cv);
                let nw = self.ite_val(w, &eq, &nv, &old);
                self.store_ty(st, a, *ty, &nw)?;
                self.set(st, *d, Val::A(Rc::new(vec![old, eq])));
                self.adv(st);
                if st.threads.len() > 1 {
                    self.resched(st, false)?;
                }
            }
            Inst::Fence => self.adv(st),
            Inst::Resume => return Err(Stop::Err("resume".into())),
            Inst::Unsupported(s) => return Err(Stop::Err(format!("unsupported instruction: {s}"))),
            Inst::Call { callee, args, ret, d } => {
                let f = match callee {
                    Callee::Func(f) => *f,
                    Callee::Asm => {
                        // black_box and compiler fences: the operand escapes, nothing is computed
                        self.adv(st);
                        return Ok(());
                    }
                    Callee::Ptr(o) => {
                        let a = self.conc_opd(st, o, 64)? as u64;
                        let i = a.wrapping_sub(FUNC_BASE);
                        if a < FUNC_BASE || i % 16 != 0 || i / 16 >= self.m.funcs.len() as u64 {
                            return Err(Stop::Err(format!("call of non-function {a:#x}")));
                        }
                        (i / 16) as u32
                    }
                };
                let k = self.fkind[&f];
                if k == Intr::None {
                    if self.m.funcs[f as usize].text.is_none() {
                        return Err(Stop::Err(format!("external function {}", self.m.funcs[f as usize].name)));
                    }
                    let vs: Vec<Val> = args.iter().map(|(_, o)| self.get(st, o)).collect();
                    return self.push_call(st, f, vs, *d);
                }
                return self.intrinsic(st, k, f, args, *ret, *d);
            }
        }
        Ok(())
    }
    fn table_load(&mut self, st: &mut State, e: E, t: TyId) -> R<Option<Val>> {
        // symbolic index into a small object: read as a chain of choices instead of forking
        if self.m.is_agg(t) {
            return Ok(None);
        }
        let w = self.m.bits(t);
        let n = ((w + 7) / 8) as u64;
        let a = self.cx.eval(e, &st.model) as u64;
        let (base, o) = match self.find(st, a) {
            Some(x) => x,
            None => return Ok(None),
        };
        if o.size > 1024 || o.size < n {
            return Ok(None);
        }
        let lo = self.cx.k(64, base as u128);
        let hi = self.cx.k(64, (base + o.size - n) as u128);
        let x = self.cx.bin(Op::Ult, e, lo);
        let y = self.cx.bin(Op::Ult, hi, e);
        let out = self.cx.bin(Op::Or, x, y);
        if self.sat(st, out)?.is_some() {
            return Ok(None);
        }
        let mut r: Option<E> = None;
        let mut cnt = 0;
        for off in 0..=(o.size - n) {
            let k = self.cx.k(64, (base + off) as u128);
            let c = self.cx.bin(Op::Eq, e, k);
            if self.cx.as_k(c) == Some(0) {
                continue;
            }
            let v = self.load_int(st, base + off, w)?;
            let v = self.ex(&v, w);
            cnt += 1;
            r = Some(match r {
                None => v,
                Some(p) => self.cx.ite(c, v, p),
            });
        }
        if cnt == 0 {
            return Ok(None);
        }
        let r = self.vl(r.unwrap());
        Ok(Some(r))
    }
    fn ite_val(&mut self, w: u32, c: &Val, a: &Val, b: &Val) -> Val {
        match c {
            Val::I(k) => if *k & 1 == 1 { a.clone() } else { b.clone() },
            Val::E(c) => {
                if let (Val::I(x), Val::I(y)) = (a, b) {
                    if x == y {
                        return a.clone();
                    }
                }
                let (x, y) = (self.ex(a, w), self.ex(b, w));
                let e = self.cx.ite(*c, x, y);
                self.vl(e)
            }
            _ => unreachable!(),
        }
    }
    fn select(&mut self, st: &mut State, ty: TyId, c: &Val, a: &Val, b: &Val) -> R<Val> {
        match c {
            Val::I(k) => Ok(if *k & 1 == 1 { a.clone() } else { b.clone() }),
            Val::A(cs) => {
                if let (Val::A(x), Val::A(y)) = (a, b) {
                    let ew = self.m.bits(self.m.members(ty)[0]);
                    let mut v = vec![];
                    for i in 0..cs.len() {
                        v.push(self.ite_val(ew, &cs[i], &x[i], &y[i]));
                    }
                    Ok(Val::A(Rc::new(v)))
                } else {
                    Err(Stop::Err("vector select".into()))
                }
            }
            Val::E(_) => {
                if self.m.is_agg(ty) || self.m.types[ty as usize] == Ty::Ptr {
                    // pointers are kept concrete: fork
                    let r = self.decide(st, c)?;
                    return Ok(if r { a.clone() } else { b.clone() });
                }
                let w = self.m.bits(ty);
                Ok(self.ite_val(w, c, a, b))
            }
        }
    }
    fn binop(&mut self, st: &mut State, op: BinOp, w: u32, a: &Val, b: &Val) -> R<Val> {
        let o = match op {
            BinOp::Add => Op::Add,
            BinOp::Sub => Op::Sub,
            BinOp::Mul => Op::Mul,
            BinOp::Udiv => Op::Udiv,
            BinOp::Sdiv => Op::Sdiv,
            BinOp::Urem => Op::Urem,
            BinOp::Srem => Op::Srem,
            BinOp::And => Op::And,
            BinOp::Or => Op::Or,
            BinOp::Xor => Op::Xor,
            BinOp::Shl => Op::Shl,
            BinOp::Lshr => Op::Lshr,
            BinOp::Ashr => Op::Ashr,
            BinOp::Fadd | BinOp::Fsub | BinOp::Fmul | BinOp::Fdiv => {
                let f = match op { BinOp::Fadd => Op::Fadd, BinOp::Fsub => Op::Fsub, BinOp::Fmul => Op::Fmul, _ => Op::Fdiv };
                let (x, y) = (self.ex(a, w), self.ex(b, w));
                let e = self.cx.fop(f, w, x, y);
                return Ok(self.vl(e));
            }
            BinOp::Frem => return Err(Stop::Err("frem".into())),
        };
        if matches!(o, Op::Udiv | Op::Sdiv | Op::Urem | Op::Srem) {
            if let Val::I(0) = b {
                return Err(self.violation(st, "division", "division by zero", None));
            }
        }
        Ok(self.bin_val(o, w, a, b))
    }
    fn icmp(&mut self, p: Pred, w: u32, a: &Val, b: &Val) -> Val {
        let (op, swap, neg) = match p {
            Pred::Eq => (Op::Eq, false, false),
            Pred::Ne => (Op::Eq, false, true),
            Pred::Ult => (Op::Ult, false, false),
            Pred::Ugt => (Op::Ult, true, false),
            Pred::Uge => (Op::Ult, false, true),
            Pred::Ule => (Op::Ult, true, true),
            Pred::Slt => (Op::Slt, false, false),
            Pred::Sgt => (Op::Slt, true, false),
            Pred::Sge => (Op::Slt, false, true),
            Pred::Sle => (Op::Slt, true, true),
        };
        let (a, b) = if swap { (b, a) } else { (a, b) };
        if let (Val::I(x), Val::I(y)) = (a, b) {
            if w <= 128 {
                return Val::I(Ctx::fold(op, w, *x, *y) ^ neg as u128);
            }
        }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let mut e = self.cx.bin(op, x, y);
        if neg {
            e = self.cx.not(e);
        }
        self.vl(e)
    }
    fn fcmp(&mut self, p: &str, x: E, y: E) -> R<E> {
        let nanx = { let e = self.cx.fop(Op::Feq, 1, x, x); self.cx.not(e) };
        let nany = { let e = self.cx.fop(Op::Feq, 1, y, y); self.cx.not(e) };
        let uno = self.cx.bin(Op::Or, nanx, nany);
        let c = &p[1..];
        let base = match p {
            "ord" => return Ok(self.cx.not(uno)),
            "uno" => return Ok(uno),
            "true" => return Ok(self.cx.k(1, 1)),
            "false" => return Ok(self.cx.k(1, 0)),
            _ => match c {
                "eq" => self.cx.fop(Op::Feq, 1, x, y),
                "lt" => self.cx.fop(Op::Flt, 1, x, y),
                "le" => self.cx.fop(Op::Fle, 1, x, y),
                "gt" => self.cx.fop(Op::Flt, 1, y, x),
                "ge" => self.cx.fop(Op::Fle, 1, y, x),
                "ne" => {
                    let e = self.cx.fop(Op::Feq, 1, x, y);
                    let n = self.cx.not(e);
                    if p.starts_with('o') {
                        let o = self.cx.not(uno);
                        self.cx.bin(Op::And, n, o)
                    } else {
                        n
                    }
                }
                _ => return Err(Stop::Err(format!("fcmp {p}"))),
            },
        };
        Ok(if p.starts_with('u') { self.cx.bin(Op::Or, base, uno) } else { base })
    }
    fn cast(&mut self, op: CastOp, from: TyId, to: TyId, v: &Val) -> R<Val> {
        if op == CastOp::Freeze {
            return Ok(v.clone());
        }
        if op == CastOp::Bitcast {
            return self.bitcast(from, to, v);
        }
        let (fw, tw) = (self.m.bits(from), self.m.bits(to));
        if let Val::I(k) = v {
            if fw <= 128 && tw <= 128 {
                match op {
                    CastOp::Trunc | CastOp::PtrToInt | CastOp::IntToPtr | CastOp::Zext => return Ok(Val::I(k & mask(tw))),
                    CastOp::Sext => return Ok(Val::I(sx(*k, fw) as u128 & mask(tw))),
                    _ => {}
                }
            }
        }
        let e = self.ex(v, fw);
        let r = match op {
            CastOp::Trunc => self.cx.ext(e, 0, tw),
            CastOp::Zext => self.cx.zext(e, tw),
            CastOp::Sext => self.cx.sext(e, tw),
            CastOp::PtrToInt | CastOp::IntToPtr => {
                if tw < fw { self.cx.ext(e, 0, tw) } else { self.cx.zext(e, tw) }
            }
            CastOp::UiToFp => self.cx.fop(Op::U2f, tw, e, 0),
            CastOp::SiToFp => self.cx.fop(Op::S2f, tw, e, 0),
            CastOp::FpToUi => self.cx.fop(Op::F2u, tw, e, 0),
            CastOp::FpToSi => self.cx.fop(Op::F2s, tw, e, 0),
            CastOp::FpExt => self.cx.fop(Op::Fext, tw, e, 0),
            CastOp::FpTrunc => self.cx.fop(Op::Ftrunc, tw, e, 0),
            _ => unreachable!(),
        };
        Ok(self.vl(r))
    }
    fn bitcast(&mut self, from: TyId, to: TyId, v: &Val) -> R<Val> {
        let e = if let Val::A(xs) = v {
            let ew = self.m.bits(self.m.members(from)[0]);
            let mut e = self.ex(&xs[0], ew);
            for x in &xs[1..] {
                let h = self.ex(x, ew);
                e = self.cx.concat(h, e);
            }
            e
        } else {
            let w = self.m.bits(from);
            self.ex(v, w)
        };
        if self.m.is_agg(to) {
            let ms = self.m.members(to);
            let ew = self.m.bits(ms[0]);
            let mut out = vec![];
            for i in 0..ms.len() {
                let x = self.cx.ext(e, i as u32 * ew, ew);
                out.push(self.vl(x));
            }
            return Ok(Val::A(Rc::new(out)));
        }
        Ok(self.vl(e))
    }
    fn check(&mut self, st: &mut State, c: &Val, label: &str) -> R<()> {
        *self.checks.entry(label.into()).or_default() += 1;
        match c {
            Val::I(k) => {
                if *k & 1 == 0 {
                    return Err(self.violation(st, "check", label, None));
                }
                Ok(())
            }
            Val::E(e) => {
                let ne = self.cx.not(*e);
                if self.cfg.trace {
                    eprintln!("check {label}: {}", self.cx.show(*e, 6));
                }
                if let Some(m) = self.sat(st, ne)? {
                    let mut o = st.clone();
                    self.add(&mut o, ne);
                    o.model = m;
                    let _ = self.violation(&o, "check", label, None);
                    if self.viol.len() >= self.cfg.max_viol {
                        return Err(Stop::Bad);
                    }
                    match self.sat(st, *e)? {
                        None => return Err(Stop::Bad),
                        Some(m) => {
                            self.add(st, *e);
                            st.model = m;
                        }
                    }
                }
                Ok(())
            }
            _ => unreachable!(),
        }
    }
    fn intrinsic(&mut self, st: &mut State, k: Intr, f: u32, args: &[(TyId, Opd)], ret: TyId, d: u32) -> R<()> {
        use Intr::*;
        macro_rules! a { ($i:expr) => { self.conc_opd(st, &args[$i].1, self.m.bits(args[$i].0))? as u64 } }
        macro_rules! v { ($i:expr) => { self.get(st, &args[$i].1) } }
        macro_rules! done { ($v:expr) => {{ let r = $v; self.set(st, d, r); self.adv(st); return Ok(()); }} }
        let w = if matches!(self.m.types[ret as usize], Ty::Int(_) | Ty::Ptr) { self.m.bits(ret) } else { 0 };
        // element-wise vector forms
        if let Ty::Vect(n, et) = self.m.types[ret as usize].clone() {
            if matches!(k, Umin | Umax | Smin | Smax | Abs | Ctpop | Ctlz | Cttz | Bswap | Fshl | Fshr | AddSat(_) | SubSat(_)) {
                let vs: Vec<Val> = args.iter().map(|x| self.get(st, &x.1)).collect();
                let ew = self.m.bits(et);
                let mut out = vec![];
                for i in 0..n as usize {
                    let el: Vec<Val> = vs.iter().map(|v| if let Val::A(x) = v { x[i].clone() } else { v.clone() }).collect();
                    out.push(self.pure(k, ew, &el));
                }
                done!(Val::A(Rc::new(out)));
            }
        }
        match k {
            None => unreachable!(),
            Nop => { self.adv(st); return Ok(()); }
            NopZero => done!(Z),
            One => done!(Val::I(1)),
            Memcpy | Memmove => {
                let (dst, src, n) = (a!(0), a!(1), a!(2));
                self.copy(st, dst, src, n)?;
                done!(Val::I(dst as u128));
            }
            Memset => {
                let (dst, n) = (a!(0), a!(2));
                let x = v!(1);
                let b = match x {
                    Val::I(k) => Val::I(k & 255),
                    Val::E(e) => { let e = if self.cx.w(e) > 8 { self.cx.ext(e, 0, 8) } else { e }; self.vl(e) }
                    _ => unreachable!(),
                };
                self.store_bytes(st, dst, &vec![b; n as usize])?;
                done!(Val::I(dst as u128));
            }
            Bcmp | Memcmp => {
                let (p, q, n) = (a!(0), a!(1), a!(2));
                let x = self.load_bytes(st, p, n)?;
                let y = self.load_bytes(st, q, n)?;
                let conc = x.iter().chain(y.iter()).all(|v| matches!(v, Val::I(_)));
                if conc {
                    let mut r = 0i32;
                    for (u, v) in x.iter().zip(&y) {
                        if let (Val::I(u), Val::I(v)) = (u, v) {
                            if u != v {
                                r = if u < v { -1 } else { 1 };
                                break;
                            }
                        }
                    }
                    done!(Val::I(r as u32 as u128));
                }
                // equality of 8-byte groups, so that identical values fold
                let mut eq = self.cx.k(1, 1);
                let mut i = 0;
                while i < n as usize {
                    let m = (n as usize - i).min(8);
                    let g = |s: &mut Self, b: &[Val]| { let mut e = s.ex(&b[0], 8); for z in &b[1..] { let h = s.ex(z, 8); e = s.cx.concat(h, e); } e };
                    let (u, v) = (g(self, &x[i..i + m]), g(self, &y[i..i + m]));
                    let c = self.cx.bin(Op::Eq, u, v);
                    eq = self.cx.bin(Op::And, eq, c);
                    i += m;
                }
                if k == Bcmp {
                    let ne = self.cx.not(eq);
                    let r = self.cx.zext(ne, 32);
                    let r = self.vl(r);
                    done!(r);
                }
                let mut r = self.cx.k(32, 0);
                for (u, v) in x.iter().zip(&y).rev() {
                    let (u, v) = (self.ex(u, 8), self.ex(v, 8));
                    let c = self.cx.bin(Op::Eq, u, v);
                    let l = self.cx.bin(Op::Ult, u, v);
                    let (m1, p1) = (self.cx.k(32, u32::MAX as u128), self.cx.k(32, 1));
                    let df = self.cx.ite(l, m1, p1);
                    r = self.cx.ite(c, r, df);
                }
                let r = self.vl(r);
                done!(r);
            }
            Strlen => {
                let p = a!(0);
                let mut n = 0;
                loop {
                    match self.load_int(st, p + n, 8)? {
                        Val::I(0) => break,
                        Val::I(_) => n += 1,
                        _ => return Err(Stop::Err("strlen of symbolic data".into())),
                    }
                }
                done!(Val::I(n as u128));
            }
            Memchr => return Err(Stop::Err("memchr".into())),
            Malloc => { let s = v!(0); let p = self.alloc_req(st, &s, 16)?; done!(Val::I(p as u128)); }
            Calloc => {
                let (x, y) = (v!(0), v!(1));
                let s = self.bin_val(Op::Mul, 64, &x, &y);
                let p = self.alloc_req(st, &s, 16)?;
                done!(Val::I(p as u128));
            }
            RustAlloc | RustAllocZ => {
                let s = v!(0);
                let al = a!(1);
                let p = self.alloc_req(st, &s, al)?;
                done!(Val::I(p as u128));
            }
            PosixMemalign => {
                let (o, al) = (a!(0), a!(1));
                let s = v!(2);
                let p = self.alloc_req(st, &s, al)?;
                self.store_int(st, o, 64, &Val::I(p as u128))?;
                done!(Z);
            }
            Realloc | RustRealloc => {
                let p = a!(0);
                let (s, al) = if k == Realloc { (v!(1), 16) } else { (v!(3), a!(2)) };
                let n = self.alloc_req(st, &s, al)?;
                if p != 0 {
                    let (old, new) = (st.objs.get(&p).map(|o| o.size).ok_or(Stop::Err("realloc".into()))?, st.objs[&n].size);
                    self.copy(st, n, p, old.min(new))?;
                    self.free(st, p)?;
                }
                done!(Val::I(n as u128));
            }
            Free | RustDealloc => { let p = a!(0); self.free(st, p)?; self.adv(st); return Ok(()); }
            AddO(_) | SubO(_) | MulO(_) => {
                let wi = self.m.bits(args[0].0);
                let (x, y) = (v!(0), v!(1));
                let (x, y) = (self.ex(&x, wi), self.ex(&y, wi));
                let (op, signed) = match k { AddO(s) => (Op::Add, s), SubO(s) => (Op::Sub, s), MulO(s) => (Op::Mul, s), _ => unreachable!() };
                let r = self.cx.bin(op, x, y);
                let o = match (op, signed) {
                    (Op::Add, false) => self.cx.bin(Op::Ult, r, x),
                    (Op::Sub, false) => self.cx.bin(Op::Ult, x, y),
                    _ => {
                        let ww = if op == Op::Mul { wi * 2 } else { wi + 1 };
                        if ww > 128 {
                            return Err(Stop::Err("wide overflow check".into()));
                        }
                        let (p, q) = if signed { (self.cx.sext(x, ww), self.cx.sext(y, ww)) } else { (self.cx.zext(x, ww), self.cx.zext(y, ww)) };
                        let full = self.cx.bin(op, p, q);
                        let re = if signed { self.cx.sext(r, ww) } else { self.cx.zext(r, ww) };
                        let e = self.cx.bin(Op::Eq, full, re);
                        self.cx.not(e)
                    }
                };
                let v = Val::A(Rc::new(vec![self.vl(r), self.vl(o)]));
                done!(v);
            }
            AddSat(_) | SubSat(_) | Umin | Umax | Smin | Smax | Abs | Ctpop | Ctlz | Cttz | Bswap | Bitrev | Fshl | Fshr | ScmpU | ScmpS => {
                let vs: Vec<Val> = args.iter().map(|x| self.get(st, &x.1)).collect();
                if matches!(k, ScmpU | ScmpS) {
                    let wi = self.m.bits(args[0].0);
                    let l = self.icmp(if k == ScmpU { Pred::Ult } else { Pred::Slt }, wi, &vs[0], &vs[1]);
                    let e = self.icmp(Pred::Eq, wi, &vs[0], &vs[1]);
                    let t = self.ite_val(w, &e, &Z, &Val::I(1));
                    let r = self.ite_val(w, &l, &Val::I(mask(w)), &t);
                    done!(r);
                }
                if matches!(k, Fshl | Fshr) && !matches!(vs[2], Val::I(_)) {
                    let _ = a!(2);
                    let vs: Vec<Val> = args.iter().map(|x| self.get(st, &x.1)).collect();
                    let r = self.pure(k, w, &vs);
                    done!(r);
                }
                let r = self.pure(k, w, &vs);
                done!(r);
            }
            IsConst => done!(Z),
            Expect => { let x = v!(0); done!(x) }
            Ptrmask => { let (x, y) = (v!(0), v!(1)); let r = self.bin_val(Op::And, 64, &x, &y); done!(r) }
            FpToUiSat | FpToSiSat => {
                let wi = self.m.bits(args[0].0);
                let x = v!(0);
                let e = self.ex(&x, wi);
                match self.cx.as_k(e) {
                    Some(_) => { let r = self.cx.fop(if k == FpToUiSat { Op::F2u } else { Op::F2s }, w, e, 0); let r = self.vl(r); done!(r) }
                    Option::None => return Err(Stop::Err("symbolic float to int".into())),
                }
            }
            Fabs => {
                let wi = self.m.bits(args[0].0);
                let x = v!(0);
                let r = self.bin_val(Op::And, wi, &x, &Val::I(mask(wi - 1)));
                done!(r)
            }
            TlsAddr => {
                let p = a!(0);
                let gid = self.m.globals.iter().position(|g| g.addr == p && g.tls).ok_or(Stop::Err("tls".into()))? as u32;
                let c = st.cur;
                if let Some(x) = st.threads[c].tls.get(&gid) {
                    let x = *x;
                    done!(Val::I(x as u128));
                }
                let b = self.m.global_init(gid).map_err(Stop::Err)?;
                let th = &mut st.threads[st.cur];
                let x = (th.heap + 63) / 64 * 64;
                th.heap = x + b.len() as u64 + 32;
                let mut o = Obj::new(b.len() as u64);
                o.data = b;
                st.objs.insert(x, Rc::new(o));
                st.threads[c].tls.insert(gid, x);
                done!(Val::I(x as u128));
            }
            Trap => return Err(self.violation(st, "abort", "process aborted", Option::None)),
            Objsize => done!(Val::I(mask(w))),
            ReduceOr | ReduceAnd | ReduceXor | ReduceAdd => {
                if let Val::A(x) = v!(0) {
                    let op = match k { ReduceOr => Op::Or, ReduceAnd => Op::And, ReduceXor => Op::Xor, _ => Op::Add };
                    let mut r = x[0].clone();
                    for y in &x[1..] {
                        r = self.bin_val(op, w, &r, y);
                    }
                    done!(r);
                }
                return Err(Stop::Err("reduce".into()));
            }
            Panic => {
                // panic_fmt(fmt::Arguments, &Location): the location is the last argument
                let last = a!(args.len() - 1);
                let loc = self.rust_location(st, last);
                let name = self.panic_text(st, args);
                if name.contains("REPLAY-") || name.contains("ENV-") {
                    return Err(Stop::Err(name));
                }
                return Err(self.violation(st, "panic", &name, Some(loc)));
            }
            PanicNounwind | UnwrapFailed => {
                let n = self.m.funcs[f as usize].name.clone();
                return Err(self.violation(st, "panic", &n, Option::None));
            }
            // ---- harness interface
            SxBytes => {
                let (p, n) = (a!(0), a!(1));
                let base = st.threads[st.cur].nsym;
                st.threads[st.cur].nsym += n as u32;
                let mut b = vec![];
                if let Some(cv) = &self.cfg.concrete {
                    let i = st.draws.len();
                    let x = cv.get(i).cloned().unwrap_or_else(|| vec![0; n as usize]);
                    if x.len() != n as usize {
                        return Err(Stop::Err("REPLAY-MISMATCH".into()));
                    }
                    b = x.into_iter().map(|v| Val::I(v as u128)).collect();
                } else {
                    for i in 0..n {
                        b.push(Val::E(self.cx.sym(base + i as u32)));
                    }
                }
                Rc::make_mut(&mut st.draws).push((base, n as u32));
                self.store_bytes(st, p, &b)?;
                self.adv(st);
                return Ok(());
            }
            SxAssume => {
                let c = v!(0);
                match c {
                    Val::I(k) => {
                        if k & 1 == 0 {
                            self.cut += 0;
                            return Err(Stop::End);
                        }
                    }
                    Val::E(e) => {
                        let e = if self.cx.w(e) > 1 { self.cx.ext(e, 0, 1) } else { e };
                        match self.sat(st, e)? {
                            Option::None => return Err(Stop::End),
                            Some(m) => {
                                self.add(st, e);
                                st.model = m;
                            }
                        }
                    }
                    _ => unreachable!(),
                }
                self.adv(st);
                return Ok(());
            }
            SxCheck | SxCover => {
                let (p, n) = (a!(1), a!(2));
                let label = self.cstr(st, p, n);
                let c = v!(0);
                let c = match c {
                    Val::E(e) => { let e = if self.cx.w(e) > 1 { self.cx.ext(e, 0, 1) } else { e }; self.vl(e) }
                    c => c,
                };
                if k == SxCheck {
                    self.check(st, &c, &label)?;
                } else {
                    let b = match &c {
                        Val::I(k) => Val::I(k & 1),
                        c => c.clone(),
                    };
                    if self.cfg.samples > 0 {
                        Rc::make_mut(&mut st.outs).push((label.replace(' ', "_"), vec![b]));
                    }
                    let seen = *self.covers.entry(label.clone()).or_insert(false);
                    if !seen {
                        let ok = match &c {
                            Val::I(k) => k & 1 == 1,
                            Val::E(e) => self.sat(st, *e)?.is_some(),
                            _ => false,
                        };
                        if ok {
                            self.covers.insert(label, true);
                        }
                    }
                }
                self.adv(st);
                return Ok(());
            }
            SxConc => { let x = self.conc_opd(st, &args[0].1, 64)?; done!(Val::I(x)) }
            SxEq => {
                // byte equality as one value, without branching
                let (p, q, n) = (a!(0), a!(1), a!(2));
                let x = self.load_bytes(st, p, n)?;
                let y = self.load_bytes(st, q, n)?;
                let mut eq = self.cx.k(1, 1);
                for (u, v) in x.iter().zip(&y) {
                    let (u, v) = (self.ex(u, 8), self.ex(v, 8));
                    let c = self.cx.bin(Op::Eq, u, v);
                    eq = self.cx.bin(Op::And, eq, c);
                    if self.cx.as_k(eq) == Some(0) {
                        break;
                    }
                }
                let r = self.cx.zext(eq, 8);
                let r = self.vl(r);
                done!(r);
            }
            SxAnd => unreachable!(),
            SxEnd => { st.was_cut = true; self.cut += 1; return Err(Stop::End) }
            SxPeakReset => { st.peak = 0; self.adv(st); return Ok(()); }
            SxPeak => done!(Val::I(st.peak as u128)),
            SxLimit => { let n = a!(0); st.alloc_limit = n; self.adv(st); return Ok(()); }
            SxCut => { let n = a!(0); st.alloc_cut = n; self.adv(st); return Ok(()); }
            SxNote => {
                let (p, n) = (a!(0), a!(1));
                let s = self.cstr(st, p, n);
                st.notes.push(s);
                self.adv(st);
                return Ok(());
            }
            SxOut => {
                // concrete output used to validate the engine against native execution
                let (p, n) = (a!(0), a!(1));
                let b = self.load_bytes(st, p, n)?;
                let s: String = b.iter().map(|v| if let Val::I(k) = v { format!("{:02x}", *k as u8) } else { "??".into() }).collect();
                self.outs.push(s);
                if self.cfg.samples > 0 {
                    Rc::make_mut(&mut st.outs).push(("out".into(), b));
                }
                self.adv(st);
                return Ok(());
            }
            SxChoose => {
                let n = a!(0);
                if n <= 1 {
                    done!(Z)
                }
                if st.threads.len() > 1 && !self.seen.insert(fingerprint(st, 2)) {
                    self.merged += 1;
                    return Err(Stop::Merged);
                }
                self.adv(st);
                for k in 1..n {
                    let mut o = st.clone();
                    self.forks += 1;
                    o.sched.push(k as u32);
                    self.set(&mut o, d, Val::I(k as u128));
                    self.queue.push(o);
                }
                st.sched.push(0);
                self.set(st, d, Z);
                return Ok(());
            }
            SxYield | SchedYield => {
                self.set(st, d, Z);
                self.adv(st);
                return self.resched(st, true);
            }
            // ---- system
            PthreadCreate => {
                let (tp, start, arg) = (a!(0), a!(2), v!(3));
                let fid = ((start - FUNC_BASE) / 16) as u32;
                let id = st.threads.len();
                self.store_int(st, tp, 64, &Val::I(id as u128))?;
                let cur = st.cur;
                st.threads.push(Thread { frames: vec![], stat: TStat::Run, tls: BTreeMap::new(), sp: STACK + 0x10_0000_0000 * id as u64, errno: 0, naps: 0, nsym: (id as u32) << 24, heap: HEAP + ((id as u64) << 36) });
                st.cur = id;
                self.push_call(st, fid, vec![arg], NOREG)?;
                st.cur = cur;
                self.set(st, d, Z);
                self.adv(st);
                return self.resched(st, false);
            }
            KeyCreate => {
                let p = a!(0);
                st.keys += 1;
                let k = st.keys;
                self.store_int(st, p, 32, &Val::I(k as u128))?;
                done!(Z)
            }
            PthreadJoin => {
                let t = a!(0) as usize;
                self.set(st, d, Z);
                self.adv(st);
                if st.threads[t].stat != TStat::Done {
                    let c = st.cur;
                    st.threads[c].stat = TStat::Join(t);
                    return self.resched(st, true);
                }
                return Ok(());
            }
            PthreadSelf | Gettid => { let c = st.cur; done!(Val::I(c as u128 + 1)) }
            Nanosleep => {
                // nanosleep(request, _), clock_nanosleep(clock, flags, request, _)
                let until = if args.len() > 2 {
                    let p = a!(2); let t = self.timespec(st, p)?;
                    if a!(1) == 1 { t } else { st.clock.saturating_add(t) }
                } else {
                    let p = a!(0); let t = self.timespec(st, p)?;
                    st.clock.saturating_add(t)
                };
                self.set(st, d, Z);
                self.adv(st);
                let c = st.cur;
                st.threads[c].stat = TStat::Sleep(until);
                return self.resched(st, true);
            }
            Pause => {
                self.adv(st);
                if st.threads.len() > 1 {
                    return self.spin(st);
                }
                return Ok(());
            }
            ClockGettime => {
                let p = a!(1);
                // time passes with sleeping; and slowly with looking at the clock, for code that waits that way
                st.ticks += 1;
                if st.ticks % 64 == 0 {
                    st.clock += 1_000_000;
                }
                let (s, n) = (st.clock / 1_000_000_000, st.clock % 1_000_000_000);
                self.store_int(st, p, 64, &Val::I(s as u128))?;
                self.store_int(st, p + 8, 64, &Val::I(n as u128))?;
                self.set(st, d, Z);
                self.adv(st);
                // what was read may be old by the time it is used
                if st.threads.len() > 1 {
                    return self.resched(st, false);
                }
                return Ok(());
            }
            Errno => { let x = self.errno(st); done!(Val::I(x as u128)) }
            Write => { let n = v!(args.len() - 1); done!(n) }
            Getrandom => {
                let (p, n) = (a!(0), a!(1));
                let b: Vec<Val> = (0..n).map(|i| Val::I((i as u128 * 37 + 11) & 255)).collect();
                self.store_bytes(st, p, &b)?;
                done!(Val::I(n as u128))
            }
            Sysconf => done!(Val::I(4096)),
            CxaThreadAtexit => done!(Z),
            Getenv => done!(Z),
            Syscall => {
                let n = a!(0);
                match n {
                    202 => {
                        // futex
                        let (addr, op, val) = (a!(1), a!(2) & 0x7f, a!(3));
                        if op == 0 || op == 9 {
                            let until = if args.len() > 4 && a!(4) != 0 {
                                let p = a!(4); let t = self.timespec(st, p)?;
                                Some(if op == 9 { t } else { st.clock.saturating_add(t) })
                            } else {
                                Option::None
                            };
                            let cur = match self.load_int(st, addr, 32)? { Val::I(k) => k as u64, _ => return Err(Stop::Err("symbolic futex".into())) };
                            if cur != val & 0xffff_ffff {
                                // EAGAIN
                                let e = self.errno(st);
                                self.store_int(st, e, 32, &Val::I(11))?;
                                self.set(st, d, Val::I(mask(64)));
                                self.adv(st);
                                return Ok(());
                            }
                            self.set(st, d, Z);
                            self.adv(st);
                            let c = st.cur;
                            st.threads[c].stat = TStat::Futex(addr, until, d);
                            return self.resched(st, true);
                        }
                        let mut woke = 0;
                        for t in 0..st.threads.len() {
                            if let TStat::Futex(x, _, _) = st.threads[t].stat {
                                if x == addr && woke < val {
                                    st.threads[t].stat = TStat::Run;
                                    woke += 1;
                                }
                            }
                        }
                        self.set(st, d, Val::I(woke as u128));
                        self.adv(st);
                        return self.resched(st, false);
                    }
                    318 => {
                        let (p, n) = (a!(1), a!(2));
                        let b: Vec<Val> = (0..n).map(|i| Val::I((i as u128 * 37 + 11) & 255)).collect();
                        self.store_bytes(st, p, &b)?;
                        done!(Val::I(n as u128))
                    }
                    _ => return Err(Stop::Err(format!("syscall {n}"))),
                }
            }
        }
    }
    fn panic_text(&mut self, st: &State, args: &[(TyId, Opd)]) -> String {
        // printable characters of the message template, best effort
        if let Some((_, o)) = args.first() {
            if let Val::I(p) = self.get(st, o) {
                let s = self.cstr(st, p as u64, 160);
                let t: String = s.chars().take_while(|c| *c != '\0').filter(|c| c.is_ascii_graphic() || *c == ' ').collect();
                if t.len() > 3 {
                    return t;
                }
                // Arguments by reference: first word is the template
                if let Ok(Val::I(q)) = self.load_int(st, p as u64, 64) {
                    for n in [120u64, 60, 30, 16] {
                        let s = self.cstr(st, q as u64, n);
                        if s != "?" {
                            let t: String = s.chars().take_while(|c| *c != '\0').filter(|c| c.is_ascii_graphic() || *c == ' ').collect();
                            return t;
                        }
                    }
                }
            }
        }
        "panic".into()
    }
    fn pure(&mut self, k: Intr, w: u32, vs: &[Val]) -> Val {
        use Intr::*;
        let x = &vs[0];
        match k {
            Umin | Umax | Smin | Smax => {
                let c = self.icmp(match k { Umin => Pred::Ult, Umax => Pred::Ugt, Smin => Pred::Slt, _ => Pred::Sgt }, w, x, &vs[1]);
                self.ite_val(w, &c, x, &vs[1])
            }
            AddSat(s) | SubSat(s) => {
                let add = matches!(k, AddSat(_));
                let r = self.bin_val(if add { Op::Add } else { Op::Sub }, w, x, &vs[1]);
                if !s {
                    let o = if add { self.icmp(Pred::Ult, w, &r, x) } else { self.icmp(Pred::Ult, w, x, &vs[1]) };
                    self.ite_val(w, &o, &Val::I(if add { mask(w) } else { 0 }), &r)
                } else {
                    let (p, q) = (self.ex(x, w), self.ex(&vs[1], w));
                    let (p, q) = (self.cx.sext(p, w + 1), self.cx.sext(q, w + 1));
                    let full = self.cx.bin(if add { Op::Add } else { Op::Sub }, p, q);
                    let re = self.ex(&r, w);
                    let re = self.cx.sext(re, w + 1);
                    let e = self.cx.bin(Op::Eq, full, re);
                    let neg = self.cx.ext(full, w, 1);
                    let (neg, e) = (self.vl(neg), self.vl(e));
                    let lim = self.ite_val(w, &neg, &Val::I(1 << (w - 1)), &Val::I(mask(w - 1)));
                    self.ite_val(w, &e, &r, &lim)
                }
            }
            Abs => {
                let n = self.bin_val(Op::Sub, w, &Z, x);
                let c = self.icmp(Pred::Slt, w, x, &Z);
                self.ite_val(w, &c, &n, x)
            }
            Ctpop => {
                if let Val::I(k) = x {
                    return Val::I(k.count_ones() as u128);
                }
                let e = self.ex(x, w);
                let mut r = self.cx.k(w, 0);
                for i in 0..w {
                    let b = self.cx.ext(e, i, 1);
                    let b = self.cx.zext(b, w);
                    r = self.cx.bin(Op::Add, r, b);
                }
                self.vl(r)
            }
            Ctlz | Cttz => {
                if let Val::I(k2) = x {
                    let n = if k == Ctlz { k2.leading_zeros().saturating_sub(128 - w) } else { k2.trailing_zeros().min(w) };
                    return Val::I(n as u128);
                }
                let e = self.ex(x, w);
                let mut r = self.cx.k(w, w as u128);
                for j in 0..w {
                    let i = if k == Ctlz { j } else { w - 1 - j };
                    let b = self.cx.ext(e, i, 1);
                    let n = self.cx.k(w, if k == Ctlz { (w - 1 - i) as u128 } else { i as u128 });
                    r = self.cx.ite(b, n, r);
                }
                self.vl(r)
            }
            Bswap | Bitrev => {
                let e = self.ex(x, w);
                let s = if k == Bswap { 8 } else { 1 };
                let mut r = self.cx.ext(e, 0, s);
                let mut i = s;
                while i < w {
                    let b = self.cx.ext(e, i, s);
                    r = self.cx.concat(r, b);
                    i += s;
                }
                self.vl(r)
            }
            Fshl | Fshr => {
                let n = if let Val::I(k) = vs[2] { (k % w as u128) as u32 } else { panic!("UNSUPPORTED: symbolic rotate") };
                let (a, b) = (self.ex(x, w), self.ex(&vs[1], w));
                if n == 0 {
                    return if k == Fshl { x.clone() } else { vs[1].clone() };
                }
                let n = if k == Fshl { n } else { w - n };
                let h = self.cx.ext(a, 0, w - n);
                let l = self.cx.ext(b, w - n, n);
                let r = self.cx.concat(h, l);
                self.vl(r)
            }
            _ => unreachable!(),
        }
    }
}

//! Reader for the textual LLVM IR rustc emits (whole program, after LTO). Function bodies are parsed on first use.
use std::collections::HashMap;
use std::rc::Rc;

pub type TyId = u32;
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Arr(u64, TyId),
    Struct(bool, Vec<TyId>),
    Vect(u32, TyId),
    Other,
}
#[derive(Clone, Debug)]
pub enum Val {
    I(u128),
    E(u32),
    A(Rc<Vec<Val>>),
}
pub const Z: Val = Val::I(0);
#[derive(Clone, Debug)]
pub enum Opd {
    R(u32),
    K(Val),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum BinOp { Add, Sub, Mul, Udiv, Sdiv, Urem, Srem, And, Or, Xor, Shl, Lshr, Ashr, Fadd, Fsub, Fmul, Fdiv, Frem }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CastOp { Trunc, Zext, Sext, PtrToInt, IntToPtr, Bitcast, UiToFp, SiToFp, FpToUi, FpToSi, FpExt, FpTrunc, Freeze }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum RmwOp { Xchg, Add, Sub, And, Or, Xor, Nand, Max, Min, Umax, Umin }
#[derive(Clone, Debug)]
pub enum Callee {
    Func(u32),
    Ptr(Opd),
    Asm,
}
#[derive(Clone, Debug)]
pub enum Inst {
    Bin { op: BinOp, ty: TyId, w: u32, a: Opd, b: Opd, d: u32 },
    Icmp { p: Pred, ty: TyId, w: u32, a: Opd, b: Opd, d: u32 },
    Fcmp { p: String, w: u32, a: Opd, b: Opd, d: u32 },
    Fneg { w: u32, a: Opd, d: u32 },
    Select { ty: TyId, cty: TyId, c: Opd, a: Opd, b: Opd, d: u32 },
    Cast { op: CastOp, from: TyId, to: TyId, a: Opd, d: u32 },
    Load { ty: TyId, p: Opd, d: u32, atomic: bool },
    Store { ty: TyId, v: Opd, p: Opd, atomic: bool },
    Gep { base: Opd, off: i64, idx: Vec<(Opd, u32, u64)>, d: u32 },
    Call { callee: Callee, args: Vec<(TyId, Opd)>, ret: TyId, d: u32 },
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch { w: u32, v: Opd, def: u32, cases: Vec<(u128, u32)> },
    Ret(Option<Opd>),
    Unreachable,
    Alloca { size: u64, n: Opd, d: u32 },
    ExtractVal { a: Opd, idx: Vec<u32>, d: u32 },
    InsertVal { a: Opd, v: Opd, idx: Vec<u32>, d: u32 },
    ExtractEl { a: Opd, i: Opd, d: u32 },
    InsertEl { a: Opd, v: Opd, i: Opd, d: u32 },
    Shuffle { a: Opd, b: Opd, n: u32, m: Vec<i32>, d: u32 },
    Rmw { op: RmwOp, ty: TyId, p: Opd, v: Opd, d: u32 },
    CmpXchg { ty: TyId, p: Opd, c: Opd, n: Opd, d: u32 },
    Fence,
    Resume,
    Unsupported(String),
}
pub const NOREG: u32 = u32::MAX;
#[derive(Clone, Debug)]
pub struct Phi {
    pub d: u32,
    pub from: Vec<(u32, Opd)>,
}
#[derive(Debug, Default)]
pub struct Block {
    pub phis: Vec<Phi>,
    pub insts: Vec<Inst>,
    pub dbg: Vec<u32>,
}
#[derive(Debug)]
pub struct Body {
    pub nregs: u32,
    pub params: Vec<u32>,
    pub blocks: Vec<Block>,
}
pub struct Func {
    pub name: String,
    pub text: Option<(usize, usize)>,
    pub body: Option<Rc<Body>>,
    pub sp: u32,
}
pub struct Global {
    pub name: String,
    pub ty: TyId,
    pub init: (usize, usize),
    pub constant: bool,
    pub tls: bool,
    pub size: u64,
    pub align: u64,
    pub addr: u64,
    pub external: bool,
}
pub struct Module {
    pub text: Rc<String>,
    pub types: Vec<Ty>,
    tmap: HashMap<Ty, TyId>,
    named: HashMap<String, TyId>,
    pub funcs: Vec<Func>,
    pub fmap: HashMap<String, u32>,
    pub globals: Vec<Global>,
    pub gmap: HashMap<String, u32>,
    pub alias: HashMap<String, String>,
    pub meta: HashMap<u32, (usize, usize)>,
}
pub const FUNC_BASE: u64 = 0x1000_0000;
pub const GLOB_BASE: u64 = 0x4000_0000;

#[derive(Clone, PartialEq, Debug)]
pub enum Tok {
    Word(String),
    Local(String),
    Global(String),
    Num(String),
    Str(String),
    CStr(Vec<u8>),
    Meta(String),
    Attr,
    P(u8),
    Eof,
}
pub struct Lex<'a> {
    s: &'a [u8],
    pub i: usize,
    pub t: Tok,
}
fn idc(c: u8) -> bool {
    c.is_ascii_alphanumeric() || matches!(c, b'-' | b'$' | b'.' | b'_')
}
fn unesc(s: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    let mut i = 0;
    while i < s.len() {
        if s[i] == b'\\' && i + 2 < s.len() + 0 && s[i + 1].is_ascii_hexdigit() && s[i + 2].is_ascii_hexdigit() {
            o.push(u8::from_str_radix(std::str::from_utf8(&s[i + 1..i + 3]).unwrap(), 16).unwrap());
            i += 3;
        } else if s[i] == b'\\' && i + 1 < s.len() && s[i + 1] == b'\\' {
            o.push(b'\\');
            i += 2;
        } else {
            o.push(s[i]);
            i += 1;
        }
    }
    o
}
impl<'a> Lex<'a> {
    pub fn new(s: &'a [u8]) -> Self {
        let mut l = Lex { s, i: 0, t: Tok::Eof };
        l.next();
        l
    }
    fn quoted(&mut self) -> Vec<u8> {
        // self.i at opening quote
        let st = self.i + 1;
        let mut j = st;
        while self.s[j] != b'"' {
            j += 1;
        }
        self.i = j + 1;
        unesc(&self.s[st..j])
    }
    pub fn next(&mut self) -> Tok {
        let s = self.s;
        while self.i < s.len() {
            let c = s[self.i];
            if c == b';' {
                while self.i < s.len() && s[self.i] != b'\n' {
                    self.i += 1;
                }
            } else if c.is_ascii_whitespace() {
                self.i += 1;
            } else {
                break;
            }
        }
        let t = if self.i >= s.len() {
            Tok::Eof
        } else {
            let c = s[self.i];
            match c {
                b'%' | b'@' => {
                    self.i += 1;
                    let n = if self.s[self.i] == b'"' {
                        String::from_utf8_lossy(&self.quoted()).to_string()
                    } else {
                        let st = self.i;
                        while self.i < s.len() && idc(s[self.i]) {
                            self.i += 1;
                        }
                        String::from_utf8_lossy(&s[st..self.i]).to_string()
                    };
                    if c == b'%' { Tok::Local(n) } else { Tok::Global(n) }
                }
                b'!' => {
                    let st = self.i;
                    self.i += 1;
                    while self.i < s.len() && idc(s[self.i]) {
                        self.i += 1;
                    }
                    Tok::Meta(String::from_utf8_lossy(&s[st + 1..self.i]).to_string())
                }
                b'#' => {
                    self.i += 1;
                    while self.i < s.len() && idc(s[self.i]) {
                        self.i += 1;
                    }
                    Tok::Attr
                }
                b'"' => Tok::Str(String::from_utf8_lossy(&self.quoted()).to_string()),
                b'c' if s.get(self.i + 1) == Some(&b'"') => {
                    self.i += 1;
                    Tok::CStr(self.quoted())
                }
                _ if c.is_ascii_digit() || (c == b'-' && s.get(self.i + 1).map_or(false, |x| x.is_ascii_digit())) => {
                    let st = self.i;
                    self.i += 1;
                    while self.i < s.len() && (idc(s[self.i]) || (s[self.i] == b'+' && s[self.i - 1] == b'e')) {
                        self.i += 1;
                    }
                    Tok::Num(String::from_utf8_lossy(&s[st..self.i]).to_string())
                }
                _ if c.is_ascii_alphabetic() || c == b'_' || c == b'$' => {
                    let st = self.i;
                    while self.i < s.len() && idc(s[self.i]) {
                        self.i += 1;
                    }
                    Tok::Word(String::from_utf8_lossy(&s[st..self.i]).to_string())
                }
                b'.' if s[self.i..].starts_with(b"...") => {
                    self.i += 3;
                    Tok::Word("...".into())
                }
                _ => {
                    self.i += 1;
                    Tok::P(c)
                }
            }
        };
        std::mem::replace(&mut self.t, t)
    }
    fn is(&self, c: u8) -> bool {
        self.t == Tok::P(c)
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.is(c) {
            self.next();
            true
        } else {
            false
        }
    }
    fn want(&mut self, c: u8) -> Result<(), String> {
        if self.eat(c) { Ok(()) } else { Err(format!("expected '{}' got {:?}", c as char, self.t)) }
    }
    fn word(&self) -> Option<&str> {
        match &self.t {
            Tok::Word(w) => Some(w),
            _ => None,
        }
    }
    fn eatw(&mut self, w: &str) -> bool {
        if self.word() == Some(w) {
            self.next();
            true
        } else {
            false
        }
    }
    fn skip_parens(&mut self) {
        if !self.is(b'(') {
            return;
        }
        let mut d = 0;
        loop {
            if self.is(b'(') {
                d += 1;
            }
            if self.is(b')') {
                d -= 1;
            }
            if self.t == Tok::Eof {
                return;
            }
            self.next();
            if d == 0 {
                return;
            }
        }
    }
}
type R<T> = Result<T, String>;

impl Module {
    pub fn ty(&mut self, t: Ty) -> TyId {
        if let Some(i) = self.tmap.get(&t) {
            return *i;
        }
        let i = self.types.len() as TyId;
        self.types.push(t.clone());
        self.tmap.insert(t, i);
        i
    }
    pub fn size_align(&self, t: TyId) -> (u64, u64) {
        match &self.types[t as usize] {
            Ty::Void | Ty::Other => (0, 1),
            Ty::Int(w) => {
                let b = (*w as u64 + 7) / 8;
                let a = b.next_power_of_two().min(16);
                ((b + a - 1) / a * a, a)
            }
            Ty::Ptr | Ty::F64 => (8, 8),
            Ty::F32 => (4, 4),
            Ty::Arr(n, e) => {
                let (s, a) = self.size_align(*e);
                (s * n, a)
            }
            Ty::Vect(n, e) => {
                let s = self.bits(*e) as u64 * *n as u64;
                let b = (s + 7) / 8;
                (b, b.next_power_of_two().min(16))
            }
            Ty::Struct(packed, f) => {
                let mut o = 0;
                let mut al = 1;
                for t in f {
                    let (s, a) = self.size_align(*t);
                    if !packed {
                        o = (o + a - 1) / a * a;
                        al = al.max(a);
                    }
                    o += s;
                }
                ((o + al - 1) / al * al, al)
            }
        }
    }
    pub fn field_off(&self, t: TyId, i: usize) -> (u64, TyId) {
        match &self.types[t as usize] {
            Ty::Struct(packed, f) => {
                let mut o = 0;
                for (j, t) in f.iter().enumerate() {
                    let (s, a) = self.size_align(*t);
                    if !packed {
                        o = (o + a - 1) / a * a;
                    }
                    if j == i {
                        return (o, *t);
                    }
                    o += s;
                }
                panic!("field")
            }
            Ty::Arr(_, e) => (self.size_align(*e).0 * i as u64, *e),
            Ty::Vect(_, e) => ((self.bits(*e) as u64 / 8) * i as u64, *e),
            x => panic!("UNSUPPORTED: field of {x:?}"),
        }
    }
    pub fn bits(&self, t: TyId) -> u32 {
        match &self.types[t as usize] {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            Ty::Vect(n, e) => n * self.bits(*e),
            x => panic!("UNSUPPORTED: bits of {x:?}"),
        }
    }
    /// Byte size of a load or store of a first-class scalar.
    pub fn store_size(&self, t: TyId) -> u64 {
        match &self.types[t as usize] {
            Ty::Int(w) => (*w as u64 + 7) / 8,
            _ => self.size_align(t).0,
        }
    }
    pub fn is_agg(&self, t: TyId) -> bool {
        matches!(self.types[t as usize], Ty::Arr(..) | Ty::Struct(..) | Ty::Vect(..))
    }
    pub fn members(&self, t: TyId) -> Vec<TyId> {
        match &self.types[t as usize] {
            Ty::Arr(n, e) => vec![*e; *n as usize],
            Ty::Vect(n, e) => vec![*e; *n as usize],
            Ty::Struct(_, f) => f.clone(),
            _ => vec![],
        }
    }
    pub fn zero(&self, t: TyId) -> Val {
        if self.is_agg(t) {
            Val::A(Rc::new(self.members(t).into_iter().map(|x| self.zero(x)).collect()))
        } else {
            Z
        }
    }

    pub fn load(path: &str) -> Module {
        let text = std::fs::read(path).expect("read ll");
        let text = String::from_utf8_lossy(&text).to_string();
        let mut m = Module {
            text: Rc::new(text),
            types: vec![],
            tmap: HashMap::new(),
            named: HashMap::new(),
            funcs: vec![],
            fmap: HashMap::new(),
            globals: vec![],
            gmap: HashMap::new(),
            alias: HashMap::new(),
            meta: HashMap::new(),
        };
        let text = m.text.clone();
        let b = text.as_bytes();
        let mut i = 0;
        let mut gl: Vec<(usize, usize)> = vec![];
        while i < b.len() {
            let e = b[i..].iter().position(|c| *c == b'\n').map_or(b.len(), |x| i + x);
            let line = &text[i..e];
            if line.starts_with("define ") {
                let name = fname(line);
                // find the end
                let end = text[i..].find("\n}").map(|x| i + x).unwrap();
                let sp = line.rfind("!dbg !").and_then(|p| line[p + 6..].split(|c: char| !c.is_ascii_digit()).next().unwrap().parse().ok()).unwrap_or(0);
                m.add_func(name, Some((i, end)), sp);
                i = end + 3;
                continue;
            } else if line.starts_with("declare ") {
                let name = fname(line);
                m.add_func(name, None, 0);
            } else if line.starts_with('@') {
                gl.push((i, e));
            } else if line.starts_with('%') {
                let mut lx = Lex::new(line.as_bytes());
                if let Tok::Local(n) = lx.next() {
                    lx.next();
                    lx.next();
                    if let Ok(t) = m.parse_type(&mut lx) {
                        m.named.insert(n, t);
                    }
                }
            } else if line.starts_with('!') {
                if let Some(p) = line.find(" = ") {
                    if let Ok(n) = line[1..p].parse::<u32>() {
                        m.meta.insert(n, (i + p + 3, e));
                    }
                }
            }
            i = e + 1;
        }
        for (s, e) in gl {
            if let Err(x) = m.parse_global(&text, s, e) {
                eprintln!("warning: global: {x}: {}", &text[s..e.min(s + 200)]);
            }
        }
        let mut a = GLOB_BASE;
        for g in &mut m.globals {
            let al = g.align.max(16);
            a = (a + al - 1) / al * al;
            g.addr = a;
            a += g.size + 16;
        }
        m
    }
    fn add_func(&mut self, name: String, text: Option<(usize, usize)>, sp: u32) {
        let id = self.funcs.len() as u32;
        self.fmap.insert(name.clone(), id);
        self.funcs.push(Func { name, text, body: None, sp });
    }
    fn parse_global(&mut self, text: &str, s: usize, e: usize) -> R<()> {
        let mut lx = Lex::new(&text.as_bytes()[s..e]);
        let name = match lx.next() {
            Tok::Global(n) => n,
            _ => return Err("name".into()),
        };
        if name.starts_with("llvm.") {
            return Ok(());
        }
        lx.want(b'=')?;
        let mut tls = false;
        let mut external = false;
        loop {
            match lx.word() {
                Some("global") | Some("constant") => break,
                Some("alias") | Some("ifunc") => {
                    while !matches!(lx.t, Tok::Global(_) | Tok::Eof) {
                        lx.next();
                    }
                    if let Tok::Global(g) = &lx.t {
                        self.alias.insert(name, g.clone());
                    }
                    return Ok(());
                }
                Some(w) => {
                    if w == "thread_local" {
                        tls = true;
                    }
                    if w == "external" || w == "extern_weak" {
                        external = true;
                    }
                    lx.next();
                    lx.skip_parens();
                }
                None => return Err(format!("linkage {:?}", lx.t)),
            }
        }
        let constant = lx.word() == Some("constant");
        lx.next();
        let ty = self.parse_type(&mut lx)?;
        let (size, mut align) = self.size_align(ty);
        // start of the initializer in the file: the lexer is one token ahead
        let init_start = {
            // re-lex to find token start: the current token ends at lx.i; search back is fragile, so store whole line
            (s, e)
        };
        if let Some(p) = text[s..e].rfind(", align ") {
            if let Ok(a) = text[s + p + 8..e].split(|c: char| !c.is_ascii_digit()).next().unwrap().parse() {
                align = a;
            }
        }
        let id = self.globals.len() as u32;
        self.gmap.insert(name.clone(), id);
        self.globals.push(Global { name, ty, init: init_start, constant, tls, size, align, addr: 0, external });
        Ok(())
    }
    /// Bytes of a global's initializer.
    pub fn global_init(&mut self, id: u32) -> R<Vec<u8>> {
        let g = &self.globals[id as usize];
        let (s, e) = g.init;
        let (ty, size, external) = (g.ty, g.size, g.external);
        let mut out = vec![0u8; size as usize];
        if external {
            return Ok(out);
        }
        let text = self.text.clone();
        let mut lx = Lex::new(&text.as_bytes()[s..e]);
        while !matches!(lx.word(), Some("global") | Some("constant")) {
            lx.next();
        }
        lx.next();
        self.parse_type(&mut lx)?;
        let v = self.parse_const(&mut lx, ty)?;
        self.write_const(&mut out, 0, ty, &v);
        Ok(out)
    }
    pub fn write_const(&self, out: &mut [u8], off: usize, ty: TyId, v: &Val) {
        match v {
            Val::I(k) => {
                let n = self.store_size(ty) as usize;
                for i in 0..n {
                    out[off + i] = if i < 16 { (k >> (8 * i)) as u8 } else { 0 };
                }
            }
            Val::A(xs) => {
                for (i, x) in xs.iter().enumerate() {
                    let (o, t) = self.field_off(ty, i);
                    self.write_const(out, off + o as usize, t, x);
                }
            }
            Val::E(_) => panic!("UNSUPPORTED: symbolic constant"),
        }
    }
    pub fn sym_addr(&self, n: &str) -> Option<u64> {
        let mut n = n;
        while let Some(a) = self.alias.get(n) {
            n = a;
        }
        if let Some(f) = self.fmap.get(n) {
            return Some(FUNC_BASE + 16 * *f as u64);
        }
        self.gmap.get(n).map(|g| self.globals[*g as usize].addr)
    }
    pub fn parse_type(&mut self, lx: &mut Lex) -> R<TyId> {
        let t = match lx.next() {
            Tok::Word(w) => match w.as_str() {
                "void" => self.ty(Ty::Void),
                "ptr" => {
                    if lx.eatw("addrspace") {
                        lx.skip_parens();
                    }
                    self.ty(Ty::Ptr)
                }
                "float" => self.ty(Ty::F32),
                "double" => self.ty(Ty::F64),
                "label" | "metadata" | "token" | "half" | "fp128" | "x86_fp80" | "opaque" => self.ty(Ty::Other),
                _ if w.starts_with('i') && w[1..].parse::<u32>().is_ok() => self.ty(Ty::Int(w[1..].parse().unwrap())),
                _ => return Err(format!("type {w}")),
            },
            Tok::Local(n) => *self.named.get(&n).ok_or(format!("named type {n}"))?,
            Tok::P(b'[') => {
                let n = match lx.next() {
                    Tok::Num(n) => n.parse::<u64>().map_err(|e| e.to_string())?,
                    x => return Err(format!("array len {x:?}")),
                };
                lx.next(); // x
                let e = self.parse_type(lx)?;
                lx.want(b']')?;
                self.ty(Ty::Arr(n, e))
            }
            Tok::P(b'{') => {
                let f = self.type_list(lx, b'}')?;
                self.ty(Ty::Struct(false, f))
            }
            Tok::P(b'<') => {
                if lx.eat(b'{') {
                    let f = self.type_list(lx, b'}')?;
                    lx.want(b'>')?;
                    self.ty(Ty::Struct(true, f))
                } else {
                    let n = match lx.next() {
                        Tok::Num(n) => n.parse::<u32>().map_err(|e| e.to_string())?,
                        x => return Err(format!("vector len {x:?}")),
                    };
                    lx.next();
                    let e = self.parse_type(lx)?;
                    lx.want(b'>')?;
                    self.ty(Ty::Vect(n, e))
                }
            }
            x => return Err(format!("type {x:?}")),
        };
        // function type: T (args)
        Ok(t)
    }
    fn type_list(&mut self, lx: &mut Lex, end: u8) -> R<Vec<TyId>> {
        let mut f = vec![];
        while !lx.is(end) {
            f.push(self.parse_type(lx)?);
            lx.eat(b',');
        }
        lx.next();
        Ok(f)
    }
    fn int_const(s: &str, w: u32) -> R<u128> {
        let v: i128 = if let Some(h) = s.strip_prefix("u0x").or_else(|| s.strip_prefix("s0x")) {
            u128::from_str_radix(h, 16).map_err(|e| e.to_string())? as i128
        } else if let Some(p) = s.strip_prefix('-') {
            let a: u128 = p.parse().map_err(|_| format!("int {s}"))?;
            (a as i128).wrapping_neg()
        } else {
            s.parse::<u128>().map_err(|_| format!("int {s}"))? as i128
        };
        Ok(v as u128 & crate::expr::mask(w))
    }
    pub fn parse_const(&mut self, lx: &mut Lex, ty: TyId) -> R<Val> {
        let t = self.types[ty as usize].clone();
        match lx.next() {
            Tok::Num(s) => match t {
                Ty::Int(w) => {
                    if w > 128 && !(s == "0" || s.len() < 38) {
                        return Err("wide constant".into());
                    }
                    Ok(Val::I(Self::int_const(&s, w)?))
                }
                Ty::F64 | Ty::F32 => {
                    let bits = if let Some(h) = s.strip_prefix("0x") {
                        u64::from_str_radix(h, 16).map_err(|e| e.to_string())?
                    } else {
                        s.parse::<f64>().map_err(|e| e.to_string())?.to_bits()
                    };
                    Ok(if t == Ty::F64 { Val::I(bits as u128) } else { Val::I((f64::from_bits(bits) as f32).to_bits() as u128) })
                }
                _ => Err(format!("number for {t:?}")),
            },
            Tok::CStr(b) => Ok(Val::A(Rc::new(b.into_iter().map(|x| Val::I(x as u128)).collect()))),
            Tok::Global(n) => Ok(Val::I(self.sym_addr(&n).ok_or(format!("symbol {n}"))? as u128)),
            Tok::Word(w) => match w.as_str() {
                "true" => Ok(Val::I(1)),
                "false" | "null" => Ok(Z),
                "undef" | "poison" | "zeroinitializer" | "none" => Ok(self.zero(ty)),
                "splat" => {
                    lx.want(b'(')?;
                    let et = self.parse_type(lx)?;
                    let v = self.parse_const(lx, et)?;
                    lx.want(b')')?;
                    let n = self.members(ty).len();
                    Ok(Val::A(Rc::new(vec![v; n])))
                }
                "getelementptr" => {
                    while lx.word().is_some() && !lx.is(b'(') {
                        lx.next();
                        if lx.is(b'(') && matches!(lx.t, Tok::P(b'(')) {
                            // inrange(...) is followed by another paren
                            let save = lx.i;
                            let _ = save;
                            break;
                        }
                    }
                    lx.want(b'(')?;
                    let mut cur = self.parse_type(lx);
                    if cur.is_err() {
                        // inrange(a, b) (…)
                        while !lx.is(b')') {
                            lx.next();
                        }
                        lx.next();
                        lx.want(b'(')?;
                        cur = self.parse_type(lx);
                    }
                    let mut cur = cur?;
                    lx.want(b',')?;
                    let pt = self.parse_type(lx)?;
                    let base = self.parse_const(lx, pt)?;
                    let mut off = 0i128;
                    let mut first = true;
                    while lx.eat(b',') {
                        let it = self.parse_type(lx)?;
                        let w = self.bits(it);
                        let v = match self.parse_const(lx, it)? {
                            Val::I(v) => crate::expr::sx(v, w),
                            _ => return Err("gep index".into()),
                        };
                        if first {
                            off += v * self.size_align(cur).0 as i128;
                            first = false;
                        } else {
                            let (o, t) = if let Ty::Arr(_, e) = self.types[cur as usize] {
                                (self.size_align(e).0 as i128 * v, e)
                            } else {
                                let (o, t) = self.field_off(cur, v as usize);
                                (o as i128, t)
                            };
                            off += o;
                            cur = t;
                        }
                    }
                    lx.want(b')')?;
                    match base {
                        Val::I(b) => Ok(Val::I((b as i128 + off) as u128 & u64::MAX as u128)),
                        _ => Err("gep base".into()),
                    }
                }
                "ptrtoint" | "inttoptr" | "trunc" | "bitcast" | "ptrtoaddr" | "addrspacecast" => {
                    lx.want(b'(')?;
                    let t = self.parse_type(lx)?;
                    let v = self.parse_const(lx, t)?;
                    if !lx.eatw("to") {
                        return Err("to".into());
                    }
                    let t2 = self.parse_type(lx)?;
                    lx.want(b')')?;
                    match v {
                        Val::I(v) => Ok(Val::I(v & crate::expr::mask(self.bits(t2)))),
                        v => Ok(v),
                    }
                }
                "add" | "sub" | "xor" | "mul" => {
                    while lx.word().is_some() {
                        lx.next();
                    }
                    lx.want(b'(')?;
                    let t = self.parse_type(lx)?;
                    let a = self.parse_const(lx, t)?;
                    lx.want(b',')?;
                    let t = self.parse_type(lx)?;
                    let b = self.parse_const(lx, t)?;
                    lx.want(b')')?;
                    match (a, b) {
                        (Val::I(a), Val::I(b)) => Ok(Val::I(
                            (match w.as_str() {
                                "add" => a.wrapping_add(b),
                                "sub" => a.wrapping_sub(b),
                                "mul" => a.wrapping_mul(b),
                                _ => a ^ b,
                            }) & crate::expr::mask(self.bits(t)),
                        )),
                        _ => Err("const expr".into()),
                    }
                }
                _ => Err(format!("const {w}")),
            },
            Tok::P(c @ (b'[' | b'{' | b'<')) => {
                let packed = c == b'<' && lx.eat(b'{');
                let end = if c == b'[' { b']' } else if c == b'{' || packed { b'}' } else { b'>' };
                let mut xs = vec![];
                while !lx.is(end) {
                    let t = self.parse_type(lx)?;
                    xs.push(self.parse_const(lx, t)?);
                    lx.eat(b',');
                }
                lx.next();
                if packed {
                    lx.want(b'>')?;
                }
                Ok(Val::A(Rc::new(xs)))
            }
            x => Err(format!("const {x:?}")),
        }
    }
    fn skip_attrs(lx: &mut Lex) {
        loop {
            match &lx.t {
                Tok::Word(w) => {
                    if is_value_word(w) {
                        return;
                    }
                    let al = w == "align" || w == "dereferenceable" || w == "addrspace";
                    lx.next();
                    if lx.is(b'(') {
                        lx.skip_parens();
                    } else if al && matches!(lx.t, Tok::Num(_)) {
                        lx.next();
                    }
                }
                Tok::Str(_) => {
                    lx.next();
                    if lx.eat(b'=') {
                        lx.next();
                    }
                }
                Tok::Attr => {
                    lx.next();
                }
                _ => return,
            }
        }
    }
    pub fn body(&mut self, f: u32) -> R<Rc<Body>> {
        if let Some(b) = &self.funcs[f as usize].body {
            return Ok(b.clone());
        }
        let (s, e) = self.funcs[f as usize].text.ok_or(format!("no body: {}", self.funcs[f as usize].name))?;
        let text = self.text.clone();
        let b = Rc::new(self.parse_body(&text[s..e])?);
        self.funcs[f as usize].body = Some(b.clone());
        Ok(b)
    }
    fn parse_body(&mut self, text: &str) -> R<Body> {
        let mut fp = FnParse { regs: HashMap::new(), labels: HashMap::new() };
        let nl = text.find('\n').unwrap();
        let header = &text[..nl];
        let mut params = vec![];
        {
            let p = fname_pos(header);
            let mut lx = Lex::new(&header.as_bytes()[p..]);
            lx.want(b'(')?;
            let mut anon = 0;
            while !lx.is(b')') {
                if lx.eatw("...") {
                    continue;
                }
                self.parse_type(&mut lx)?;
                Self::skip_attrs(&mut lx);
                if let Tok::Local(n) = lx.t.clone() {
                    lx.next();
                    params.push(fp.reg(&n));
                } else {
                    params.push(fp.reg(&anon.to_string()));
                }
                anon += 1;
                lx.eat(b',');
            }
        }
        // group lines into logical instructions
        let mut blocks: Vec<Block> = vec![];
        let mut cur: Option<u32> = None;
        let lines: Vec<&str> = text[nl + 1..].split('\n').collect();
        let mut i = 0;
        let nparams = params.len();
        let mut first = true;
        while i < lines.len() {
            let l = lines[i];
            if l.is_empty() || l.starts_with(';') {
                i += 1;
                continue;
            }
            if !l.starts_with(' ') {
                // label
                let name = if let Some(q) = l.strip_prefix('"') {
                    let p = q.find('"').unwrap();
                    String::from_utf8_lossy(&unesc(q[..p].as_bytes())).to_string()
                } else {
                    l[..l.find(':').ok_or(format!("label {l}"))?].to_string()
                };
                let b = fp.label(&name);
                while blocks.len() <= b as usize {
                    blocks.push(Block::default());
                }
                cur = Some(b);
                first = false;
                i += 1;
                continue;
            }
            let mut j = i + 1;
            let mut s = l.to_string();
            let mut open = l.trim_end().ends_with('[') && l.trim_start().starts_with("switch");
            while j < lines.len() {
                let x = lines[j];
                if open {
                    s.push(' ');
                    s.push_str(x);
                    if x.trim_start().starts_with(']') {
                        open = false;
                    }
                    j += 1;
                } else if x.starts_with("    ") {
                    s.push(' ');
                    s.push_str(x);
                    j += 1;
                } else {
                    break;
                }
            }
            i = j;
            if s.trim_start().starts_with("#dbg_") {
                continue;
            }
            if first {
                // unnamed entry block: number follows the parameters
                let b = fp.label(&nparams.to_string());
                while blocks.len() <= b as usize {
                    blocks.push(Block::default());
                }
                cur = Some(b);
                first = false;
            }
            let b = cur.ok_or("instruction before label")? as usize;
            let dbg = s.rfind("!dbg !").and_then(|p| s[p + 6..].split(|c: char| !c.is_ascii_digit()).next().unwrap().parse().ok()).unwrap_or(0);
            let mut lx = Lex::new(s.as_bytes());
            match self.parse_inst(&mut fp, &mut lx) {
                Ok(PI::Phi(p)) => blocks[b].phis.push(p),
                Ok(PI::I(x)) => {
                    blocks[b].insts.push(x);
                    blocks[b].dbg.push(dbg);
                }
                Ok(PI::Two(x, y)) => {
                    blocks[b].insts.push(x);
                    blocks[b].dbg.push(dbg);
                    blocks[b].insts.push(y);
                    blocks[b].dbg.push(dbg);
                }
                Ok(PI::None) => {}
                Err(e) => {
                    blocks[b].insts.push(Inst::Unsupported(format!("{e}: {}", s.trim())));
                    blocks[b].dbg.push(dbg);
                }
            }
        }
        while blocks.len() < fp.labels.len() {
            blocks.push(Block::default());
        }
        Ok(Body { nregs: fp.regs.len() as u32, params, blocks })
    }
    fn operand(&mut self, fp: &mut FnParse, lx: &mut Lex, ty: TyId) -> R<Opd> {
        if let Tok::Local(n) = &lx.t {
            let r = fp.reg(n);
            lx.next();
            return Ok(Opd::R(r));
        }
        Ok(Opd::K(self.parse_const(lx, ty)?))
    }
    fn typed(&mut self, fp: &mut FnParse, lx: &mut Lex) -> R<(TyId, Opd)> {
        let t = self.parse_type(lx)?;
        Self::skip_attrs(lx);
        let o = self.operand(fp, lx, t)?;
        Ok((t, o))
    }
    fn lab(&mut self, fp: &mut FnParse, lx: &mut Lex) -> R<u32> {
        lx.eatw("label");
        match lx.next() {
            Tok::Local(n) => Ok(fp.label(&n)),
            x => Err(format!("label {x:?}")),
        }
    }
    fn parse_inst(&mut self, fp: &mut FnParse, lx: &mut Lex) -> R<PI> {
        let mut d = NOREG;
        if let Tok::Local(n) = lx.t.clone() {
            lx.next();
            lx.want(b'=')?;
            d = fp.reg(&n);
        }
        let op = match lx.next() {
            Tok::Word(w) => w,
            x => return Err(format!("opcode {x:?}")),
        };
        let binop = match op.as_str() {
            "add" => Some(BinOp::Add),
            "sub" => Some(BinOp::Sub),
            "mul" => Some(BinOp::Mul),
            "udiv" => Some(BinOp::Udiv),
            "sdiv" => Some(BinOp::Sdiv),
            "urem" => Some(BinOp::Urem),
            "srem" => Some(BinOp::Srem),
            "and" => Some(BinOp::And),
            "or" => Some(BinOp::Or),
            "xor" => Some(BinOp::Xor),
            "shl" => Some(BinOp::Shl),
            "lshr" => Some(BinOp::Lshr),
            "ashr" => Some(BinOp::Ashr),
            "fadd" => Some(BinOp::Fadd),
            "fsub" => Some(BinOp::Fsub),
            "fmul" => Some(BinOp::Fmul),
            "fdiv" => Some(BinOp::Fdiv),
            "frem" => Some(BinOp::Frem),
            _ => None,
        };
        if let Some(b) = binop {
            while matches!(lx.word(), Some("nuw" | "nsw" | "exact" | "disjoint" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc")) {
                lx.next();
            }
            let ty = self.parse_type(lx)?;
            let a = self.operand(fp, lx, ty)?;
            lx.want(b',')?;
            let bb = self.operand(fp, lx, ty)?;
            let w = self.bits(ty);
            return Ok(PI::I(Inst::Bin { op: b, ty, w, a, b: bb, d }));
        }
        let cast = match op.as_str() {
            "trunc" => Some(CastOp::Trunc),
            "zext" => Some(CastOp::Zext),
            "sext" => Some(CastOp::Sext),
            "ptrtoint" | "ptrtoaddr" => Some(CastOp::PtrToInt),
            "inttoptr" => Some(CastOp::IntToPtr),
            "bitcast" | "addrspacecast" => Some(CastOp::Bitcast),
            "uitofp" => Some(CastOp::UiToFp),
            "sitofp" => Some(CastOp::SiToFp),
            "fptoui" => Some(CastOp::FpToUi),
            "fptosi" => Some(CastOp::FpToSi),
            "fpext" => Some(CastOp::FpExt),
            "fptrunc" => Some(CastOp::FpTrunc),
            _ => None,
        };
        if let Some(c) = cast {
            while matches!(lx.word(), Some("nuw" | "nsw" | "nneg" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc")) {
                lx.next();
            }
            let (from, a) = self.typed(fp, lx)?;
            if !lx.eatw("to") {
                return Err("to".into());
            }
            let to = self.parse_type(lx)?;
            return Ok(PI::I(Inst::Cast { op: c, from, to, a, d }));
        }
        match op.as_str() {
            "ret" => {
                if lx.eatw("void") {
                    return Ok(PI::I(Inst::Ret(None)));
                }
                let (_, v) = self.typed(fp, lx)?;
                Ok(PI::I(Inst::Ret(Some(v))))
            }
            "br" => {
                if lx.word() == Some("label") {
                    let l = self.lab(fp, lx)?;
                    return Ok(PI::I(Inst::Br(l)));
                }
                let (_, c) = self.typed(fp, lx)?;
                lx.want(b',')?;
                let t = self.lab(fp, lx)?;
                lx.want(b',')?;
                let e = self.lab(fp, lx)?;
                Ok(PI::I(Inst::CondBr(c, t, e)))
            }
            "switch" => {
                let (ty, v) = self.typed(fp, lx)?;
                lx.want(b',')?;
                let def = self.lab(fp, lx)?;
                lx.want(b'[')?;
                let mut cases = vec![];
                while !lx.is(b']') {
                    let t = self.parse_type(lx)?;
                    let k = match self.parse_const(lx, t)? {
                        Val::I(k) => k,
                        _ => return Err("case".into()),
                    };
                    lx.want(b',')?;
                    let l = self.lab(fp, lx)?;
                    cases.push((k, l));
                }
                Ok(PI::I(Inst::Switch { w: self.bits(ty), v, def, cases }))
            }
            "unreachable" => Ok(PI::I(Inst::Unreachable)),
            "resume" => Ok(PI::I(Inst::Resume)),
            "landingpad" | "cleanuppad" | "catchpad" => Ok(PI::I(Inst::Unsupported("landing pad reached".into()))),
            "fence" => Ok(PI::I(Inst::Fence)),
            "icmp" => {
                lx.eatw("samesign");
                let p = match lx.next() {
                    Tok::Word(w) => match w.as_str() {
                        "eq" => Pred::Eq,
                        "ne" => Pred::Ne,
                        "ugt" => Pred::Ugt,
                        "uge" => Pred::Uge,
                        "ult" => Pred::Ult,
                        "ule" => Pred::Ule,
                        "sgt" => Pred::Sgt,
                        "sge" => Pred::Sge,
                        "slt" => Pred::Slt,
                        "sle" => Pred::Sle,
                        _ => return Err("pred".into()),
                    },
                    _ => return Err("pred".into()),
                };
                let ty = self.parse_type(lx)?;
                let a = self.operand(fp, lx, ty)?;
                lx.want(b',')?;
                let b = self.operand(fp, lx, ty)?;
                Ok(PI::I(Inst::Icmp { p, ty, w: self.bits(ty), a, b, d }))
            }
            "fcmp" => {
                let mut p = String::new();
                while let Some(w) = lx.word() {
                    if w == "double" || w == "float" {
                        break;
                    }
                    p = w.to_string();
                    lx.next();
                }
                let ty = self.parse_type(lx)?;
                let a = self.operand(fp, lx, ty)?;
                lx.want(b',')?;
                let b = self.operand(fp, lx, ty)?;
                Ok(PI::I(Inst::Fcmp { p, w: self.bits(ty), a, b, d }))
            }
            "fneg" => {
                let (ty, a) = self.typed(fp, lx)?;
                Ok(PI::I(Inst::Fneg { w: self.bits(ty), a, d }))
            }
            "freeze" => {
                let (t, a) = self.typed(fp, lx)?;
                Ok(PI::I(Inst::Cast { op: CastOp::Freeze, from: t, to: t, a, d }))
            }
            "select" => {
                while matches!(lx.word(), Some("fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc")) {
                    lx.next();
                }
                let (cty, c) = self.typed(fp, lx)?;
                lx.want(b',')?;
                let (ty, a) = self.typed(fp, lx)?;
                lx.want(b',')?;
                let (_, b) = self.typed(fp, lx)?;
                Ok(PI::I(Inst::Select { ty, cty, c, a, b, d }))
            }
            "phi" => {
                while matches!(lx.word(), Some("fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc")) {
                    lx.next();
                }
                let ty = self.parse_type(lx)?;
                let mut from = vec![];
                loop {
                    lx.want(b'[')?;
                    let v = self.operand(fp, lx, ty)?;
                    lx.want(b',')?;
                    let l = self.lab(fp, lx)?;
                    lx.want(b']')?;
                    from.push((l, v));
                    if !(lx.is(b',')) {
                        break;
                    }
                    lx.next();
                    if !lx.is(b'[') {
                        break;
                    }
                }
                Ok(PI::Phi(Phi { d, from }))
            }
            "alloca" => {
                lx.eatw("inalloca");
                let ty = self.parse_type(lx)?;
                let size = self.size_align(ty).0;
                let mut n = Opd::K(Val::I(1));
                if lx.is(b',') {
                    lx.next();
                    if lx.word() != Some("align") && lx.word() != Some("addrspace") && !matches!(lx.t, Tok::Meta(_)) {
                        let (_, o) = self.typed(fp, lx)?;
                        n = o;
                    }
                }
                Ok(PI::I(Inst::Alloca { size, n, d }))
            }
            "load" => {
                let mut atomic = false;
                while matches!(lx.word(), Some("atomic" | "volatile")) {
                    atomic |= lx.word() == Some("atomic");
                    lx.next();
                }
                let ty = self.parse_type(lx)?;
                lx.want(b',')?;
                let (_, p) = self.typed(fp, lx)?;
                Ok(PI::I(Inst::Load { ty, p, d, atomic }))
            }
            "store" => {
                let mut atomic = false;
                while matches!(lx.word(), Some("atomic" | "volatile")) {
                    atomic |= lx.word() == Some("atomic");
                    lx.next();
                }
                let (ty, v) = self.typed(fp, lx)?;
                lx.want(b',')?;
                let (_, p) = self.typed(fp, lx)?;
                Ok(PI::I(Inst::Store { ty, v, p, atomic }))
            }
            "getelementptr" => {
                while matches!(lx.word(), Some("inbounds" | "nuw" | "nusw" | "inrange")) {
                    lx.next();
                }
                let mut cur = self.parse_type(lx)?;
                lx.want(b',')?;
                let (bt, base) = self.typed(fp, lx)?;
                if self.is_agg(bt) {
                    return Err("vector gep".into());
                }
                let mut off = 0i64;
                let mut idx = vec![];
                let mut first = true;
                while lx.is(b',') {
                    lx.next();
                    if matches!(lx.t, Tok::Meta(_)) {
                        break;
                    }
                    let (it, o) = self.typed(fp, lx)?;
                    let w = self.bits(it);
                    let (scale, next) = if first {
                        (Some(self.size_align(cur).0), cur)
                    } else {
                        match self.types[cur as usize] {
                            Ty::Arr(_, e) | Ty::Vect(_, e) => (Some(self.size_align(e).0), e),
                            _ => (None, cur),
                        }
                    };
                    first = false;
                    match (scale, o) {
                        (Some(s), Opd::K(Val::I(k))) => {
                            off = off.wrapping_add((crate::expr::sx(k, w) as i64).wrapping_mul(s as i64));
                            cur = next;
                        }
                        (Some(s), o) => {
                            if s != 0 {
                                idx.push((o, w, s));
                            }
                            cur = next;
                        }
                        (None, Opd::K(Val::I(k))) => {
                            let (o, t) = self.field_off(cur, k as usize);
                            off += o as i64;
                            cur = t;
                        }
                        _ => return Err("gep struct index".into()),
                    }
                }
                Ok(PI::I(Inst::Gep { base, off, idx, d }))
            }
            "extractvalue" => {
                let (_, a) = self.typed(fp, lx)?;
                let idx = Self::idxs(lx);
                Ok(PI::I(Inst::ExtractVal { a, idx, d }))
            }
            "insertvalue" => {
                let (_, a) = self.typed(fp, lx)?;
                lx.want(b',')?;
                let (_, v) = self.typed(fp, lx)?;
                let idx = Self::idxs(lx);
                Ok(PI::I(Inst::InsertVal { a, v, idx, d }))
            }
            "extractelement" => {
                let (_, a) = self.typed(fp, lx)?;
                lx.want(b',')?;
                let (_, i) = self.typed(fp, lx)?;
                Ok(PI::I(Inst::ExtractEl { a, i, d }))
            }
            "insertelement" => {
                let (_, a) = self.typed(fp, lx)?;
                lx.want(b',')?;
                let (_, v) = self.typed(fp, lx)?;
                lx.want(b',')?;
                let (_, i) = self.typed(fp, lx)?;
                Ok(PI::I(Inst::InsertEl { a, v, i, d }))
            }
            "shufflevector" => {
                let (t, a) = self.typed(fp, lx)?;
                lx.want(b',')?;
                let (_, b) = self.typed(fp, lx)?;
                lx.want(b',')?;
                let (_, m) = self.typed(fp, lx)?;
                let n = self.members(t).len() as u32;
                let m = match m {
                    Opd::K(Val::A(v)) => v.iter().map(|x| if let Val::I(k) = x { *k as i32 } else { 0 }).collect(),
                    _ => return Err("mask".into()),
                };
                Ok(PI::I(Inst::Shuffle { a, b, n, m, d }))
            }
            "atomicrmw" => {
                lx.eatw("volatile");
                let o = match lx.next() {
                    Tok::Word(w) => match w.as_str() {
                        "xchg" => RmwOp::Xchg,
                        "add" => RmwOp::Add,
                        "sub" => RmwOp::Sub,
                        "and" => RmwOp::And,
                        "or" => RmwOp::Or,
                        "xor" => RmwOp::Xor,
                        "nand" => RmwOp::Nand,
                        "max" => RmwOp::Max,
                        "min" => RmwOp::Min,
                        "umax" => RmwOp::Umax,
                        "umin" => RmwOp::Umin,
                        _ => return Err(format!("rmw {w}")),
                    },
                    _ => return Err("rmw".into()),
                };
                let (_, p) = self.typed(fp, lx)?;
                lx.want(b',')?;
                let (ty, v) = self.typed(fp, lx)?;
                Ok(PI::I(Inst::Rmw { op: o, ty, p, v, d }))
            }
            "cmpxchg" => {
                while matches!(lx.word(), Some("weak" | "volatile")) {
                    lx.next();
                }
                let (_, p) = self.typed(fp, lx)?;
                lx.want(b',')?;
                let (ty, c) = self.typed(fp, lx)?;
                lx.want(b',')?;
                let (_, n) = self.typed(fp, lx)?;
                Ok(PI::I(Inst::CmpXchg { ty, p, c, n, d }))
            }
            "call" | "tail" | "musttail" | "notail" | "invoke" => {
                let invoke = op == "invoke";
                if op != "call" && !invoke {
                    lx.next(); // call
                }
                // fast-math, calling convention, return attributes
                loop {
                    match lx.word() {
                        Some(w) if is_type_word(w) => break,
                        Some(_) => {
                            let al = lx.word() == Some("align");
                            lx.next();
                            if lx.is(b'(') {
                                lx.skip_parens();
                            } else if al {
                                lx.next();
                            }
                        }
                        None => {
                            if matches!(lx.t, Tok::Attr | Tok::Str(_)) {
                                lx.next();
                            } else {
                                break;
                            }
                        }
                    }
                }
                let ret = self.parse_type(lx)?;
                if lx.is(b'(') {
                    lx.skip_parens(); // explicit function type
                }
                let callee = match lx.t.clone() {
                    Tok::Global(n) => {
                        lx.next();
                        let mut n = n;
                        while let Some(a) = self.alias.get(&n) {
                            n = a.clone();
                        }
                        Callee::Func(*self.fmap.get(&n).ok_or(format!("callee {n}"))?)
                    }
                    Tok::Local(n) => {
                        lx.next();
                        Callee::Ptr(Opd::R(fp.reg(&n)))
                    }
                    Tok::Word(w) if w == "asm" => {
                        while !lx.is(b'(') {
                            lx.next();
                        }
                        Callee::Asm
                    }
                    _ => {
                        let pt = self.ty(Ty::Ptr);
                        Callee::Ptr(Opd::K(self.parse_const(lx, pt)?))
                    }
                };
                lx.want(b'(')?;
                let mut args = vec![];
                while !lx.is(b')') {
                    let t = self.parse_type(lx)?;
                    if self.types[t as usize] == Ty::Other {
                        // metadata operand
                        let mut depth = 0;
                        loop {
                            if depth == 0 && (lx.is(b',') || lx.is(b')')) {
                                break;
                            }
                            if lx.is(b'(') || lx.is(b'{') {
                                depth += 1;
                            }
                            if lx.is(b')') || lx.is(b'}') {
                                depth -= 1;
                            }
                            lx.next();
                        }
                        args.push((t, Opd::K(Z)));
                    } else {
                        Self::skip_attrs(lx);
                        let o = self.operand(fp, lx, t)?;
                        args.push((t, o));
                    }
                    lx.eat(b',');
                }
                lx.next();
                let c = Inst::Call { callee, args, ret, d };
                if invoke {
                    while lx.word() != Some("to") {
                        if lx.t == Tok::Eof {
                            return Err("invoke".into());
                        }
                        if lx.is(b'[') {
                            return Err("operand bundle".into());
                        }
                        lx.next();
                    }
                    lx.next();
                    let l = self.lab(fp, lx)?;
                    return Ok(PI::Two(c, Inst::Br(l)));
                }
                Ok(PI::I(c))
            }
            _ => Err(format!("opcode {op}")),
        }
    }
    fn idxs(lx: &mut Lex) -> Vec<u32> {
        let mut v = vec![];
        while lx.is(b',') {
            lx.next();
            if let Tok::Num(n) = lx.t.clone() {
                v.push(n.parse().unwrap());
                lx.next();
            } else {
                break;
            }
        }
        v
    }
    pub fn meta_text(&self, id: u32) -> Option<&str> {
        self.meta.get(&id).map(|(s, e)| &self.text[*s..*e])
    }
    pub fn meta_field(&self, id: u32, f: &str) -> Option<String> {
        let t = self.meta_text(id)?;
        let key = format!("{f}: ");
        let mut from = 0;
        loop {
            let p = t[from..].find(&key)? + from;
            let prev = t.as_bytes()[p - 1];
            if prev == b'(' || prev == b' ' {
                let r = &t[p + key.len()..];
                if let Some(q) = r.strip_prefix('"') {
                    return Some(q[..q.find('"')?].to_string());
                }
                let e = r.find(|c| c == ',' || c == ')').unwrap_or(r.len());
                return Some(r[..e].to_string());
            }
            from = p + key.len();
        }
    }
    pub fn meta_ref(&self, id: u32, f: &str) -> Option<u32> {
        self.meta_field(id, f)?.strip_prefix('!')?.parse().ok()
    }
    /// (file, line, function, inlinedAt) of a DILocation.
    pub fn location(&self, id: u32) -> Option<(String, u32, String, Option<u32>)> {
        let line = self.meta_field(id, "line").and_then(|x| x.parse().ok()).unwrap_or(0);
        let inl = self.meta_ref(id, "inlinedAt");
        let mut sc = self.meta_ref(id, "scope")?;
        let mut file: Option<u32> = None;
        loop {
            let t = self.meta_text(sc)?;
            if file.is_none() {
                file = self.meta_ref(sc, "file");
            }
            if t.contains("DISubprogram") {
                let name = self.meta_field(sc, "name").unwrap_or_default();
                let f = file?;
                let fnm = self.meta_field(f, "filename").unwrap_or_default();
                let dir = self.meta_field(f, "directory").unwrap_or_default();
                let full = if fnm.starts_with('/') { fnm } else { format!("{dir}/{fnm}") };
                return Some((full, line, name, inl));
            }
            sc = self.meta_ref(sc, "scope")?;
        }
    }
}
enum PI {
    I(Inst),
    Two(Inst, Inst),
    Phi(Phi),
    #[allow(dead_code)]
    None,
}
struct FnParse {
    regs: HashMap<String, u32>,
    labels: HashMap<String, u32>,
}
impl FnParse {
    fn reg(&mut self, n: &str) -> u32 {
        let l = self.regs.len() as u32;
        *self.regs.entry(n.to_string()).or_insert(l)
    }
    fn label(&mut self, n: &str) -> u32 {
        let l = self.labels.len() as u32;
        *self.labels.entry(n.to_string()).or_insert(l)
    }
}
fn is_type_word(w: &str) -> bool {
    matches!(w, "void" | "ptr" | "float" | "double" | "label" | "metadata" | "token") || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()))
}
fn is_value_word(w: &str) -> bool {
    matches!(
        w,
        "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "splat" | "getelementptr" | "ptrtoint" | "ptrtoaddr" | "inttoptr" | "trunc"
            | "bitcast" | "addrspacecast" | "add" | "sub" | "xor" | "mul" | "asm" | "to" | "unwind"
    )
}
fn fname_pos(line: &str) -> usize {
    let p = line.find('@').unwrap();
    let b = line.as_bytes();
    if b[p + 1] == b'"' {
        p + 2 + line[p + 2..].find('"').unwrap() + 1
    } else {
        let mut i = p + 1;
        while idc(b[i]) {
            i += 1;
        }
        i
    }
}
fn fname(line: &str) -> String {
    let p = line.find('@').unwrap();
    let e = fname_pos(line);
    line[p + 1..e].trim_matches('"').to_string()
}

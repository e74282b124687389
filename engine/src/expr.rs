//! Hash-consed bit-vector expressions with a rewriting constructor for each operator.
use std::collections::HashMap;
use std::rc::Rc;

pub type E = u32;
/// Multiplicative hasher (keys are our own, no need for a keyed one).
#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl std::hash::Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u64(*x as u64);
        }
    }
    fn write_u8(&mut self, v: u8) {
        self.write_u64(v as u64)
    }
    fn write_u16(&mut self, v: u16) {
        self.write_u64(v as u64)
    }
    fn write_u32(&mut self, v: u32) {
        self.write_u64(v as u64)
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = (self.0.rotate_left(23) ^ v).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    }
    fn write_u128(&mut self, v: u128) {
        self.write_u64(v as u64);
        self.write_u64((v >> 64) as u64);
    }
    fn write_usize(&mut self, v: usize) {
        self.write_u64(v as u64)
    }
    fn write_isize(&mut self, v: isize) {
        self.write_u64(v as u64)
    }
}
pub type FxMap<K, V> = HashMap<K, V, std::hash::BuildHasherDefault<Fx>>;
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    K, Sym, Concat, Ext, Zext, Sext, Add, Sub, Mul, Udiv, Sdiv, Urem, Srem, And, Or, Xor, Shl, Lshr, Ashr, Eq, Ult, Slt, Ite,
    // IEEE double/single operations on bit patterns
    Fadd, Fsub, Fmul, Fdiv, Flt, Fle, Feq, U2f, S2f, F2u, F2s, Fext, Ftrunc,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: E,
    pub b: E,
    pub c: E,
    pub k: u128,
}
#[inline]
pub fn mask(w: u32) -> u128 {
    if w >= 128 { u128::MAX } else { (1u128 << w) - 1 }
}
#[inline]
pub fn sx(v: u128, w: u32) -> i128 {
    if w >= 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) }
}
pub struct Ctx {
    pub nodes: Vec<Node>,
    map: FxMap<Node, E>,
    exts: FxMap<(E, u32, u32), E>,
    bins: FxMap<(Op, E, E), E>,
    syms: FxMap<E, Rc<Vec<u32>>>,
    // evaluation scratch
    stamp: Vec<u32>,
    val: Vec<u128>,
    cur: u32,
    pub selfcheck: bool,
}
/// An assignment of byte symbols. Missing symbols are 0.
pub type Model = Rc<HashMap<u32, u8>>;

impl Ctx {
    pub fn new() -> Ctx {
        Ctx { nodes: vec![], map: FxMap::default(), exts: FxMap::default(), bins: FxMap::default(), syms: FxMap::default(), stamp: vec![], val: vec![], cur: 0, selfcheck: false }
    }
    fn mk(&mut self, op: Op, w: u32, a: E, b: E, c: E, k: u128) -> E {
        let n = Node { op, w: w as u16, a, b, c, k };
        if let Some(e) = self.map.get(&n) {
            return *e;
        }
        let id = self.nodes.len() as E;
        self.nodes.push(n);
        self.map.insert(n, id);
        id
    }
    #[inline]
    pub fn n(&self, e: E) -> Node {
        self.nodes[e as usize]
    }
    #[inline]
    pub fn w(&self, e: E) -> u32 {
        self.nodes[e as usize].w as u32
    }
    pub fn k(&mut self, w: u32, v: u128) -> E {
        if w > 128 {
            // wide constant: zero-extended 128-bit value
            let lo = self.k(128, v);
            return self.mk(Op::Zext, w, lo, 0, 0, 0);
        }
        self.mk(Op::K, w, 0, 0, 0, v & mask(w))
    }
    pub fn sym(&mut self, id: u32) -> E {
        self.mk(Op::Sym, 8, 0, 0, 0, id as u128)
    }
    #[inline]
    pub fn as_k(&self, e: E) -> Option<u128> {
        let n = self.n(e);
        if n.op == Op::K { Some(n.k) } else { None }
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let (nh, nl) = (self.n(h), self.n(l));
        let w = nh.w as u32 + nl.w as u32;
        if nh.op == Op::K && nl.op == Op::K && w <= 128 {
            return self.k(w, nh.k << nl.w | nl.k);
        }
        if nh.op == Op::Concat {
            let r = self.concat(nh.b, l);
            return self.concat(nh.a, r);
        }
        if nh.op == Op::Zext && !(nh.w > 128) {
            let z = self.k(nh.w as u32 - self.w(nh.a), 0);
            let r = self.concat(nh.a, l);
            return self.concat(z, r);
        }
        if nh.op == Op::K && nh.k == 0 {
            return self.zext(l, w);
        }
        if nh.op == Op::Ext && nl.op == Op::Ext && nh.a == nl.a && nh.k == nl.k + nl.w as u128 {
            return self.ext_mem(nl.a, nl.k as u32, w);
        }
        // hi part of an already-seen value whose low part is the whole node: ext(x, wl, ..) ++ x[..] handled above
        if nl.op == Op::Concat {
            let na = self.n(nl.a);
            if nh.op == Op::Ext && na.op == Op::Ext && nh.a == na.a && nh.k == na.k + na.w as u128 {
                let m = self.ext_mem(na.a, na.k as u32, nh.w as u32 + na.w as u32);
                return self.concat(m, nl.b);
            }
            if nh.op == Op::K && na.op == Op::K && (nh.w + na.w) <= 128 {
                let m = self.k((nh.w + na.w) as u32, nh.k << na.w | na.k);
                return self.concat(m, nl.b);
            }
        }
        if nl.op == Op::Zext && nh.op == Op::K && nh.k != 0 {
            let zw = nl.w as u32 - self.w(nl.a);
            if nh.w as u32 + zw <= 128 {
                let m = self.k(nh.w as u32 + zw, nh.k << zw);
                return self.concat(m, nl.a);
            }
        }
        self.mk(Op::Concat, w, h, l, 0, 0)
    }
    pub fn zext(&mut self, a: E, w: u32) -> E {
        let n = self.n(a);
        if n.w as u32 == w {
            return a;
        }
        if n.op == Op::K && w <= 128 {
            return self.k(w, n.k);
        }
        if n.op == Op::Zext {
            return self.zext(n.a, w);
        }
        if n.op == Op::Concat {
            let na = self.n(n.a);
            if na.op == Op::K && na.k == 0 {
                return self.zext(n.b, w);
            }
        }
        self.mk(Op::Zext, w, a, 0, 0, 0)
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let n = self.n(a);
        if n.w as u32 == w {
            return a;
        }
        if n.op == Op::K && w <= 128 {
            return self.k(w, sx(n.k, n.w as u32) as u128);
        }
        if n.op == Op::Zext {
            return self.zext(n.a, w);
        }
        if n.op == Op::Sext {
            return self.sext(n.a, w);
        }
        self.mk(Op::Sext, w, a, 0, 0, 0)
    }
    pub fn ext(&mut self, a: E, lo: u32, w: u32) -> E {
        let n = self.n(a);
        let aw = n.w as u32;
        debug_assert!(lo + w <= aw);
        if lo == 0 && w == aw {
            return a;
        }
        if n.op == Op::K {
            return self.k(w, n.k >> lo);
        }
        if let Some(r) = self.exts.get(&(a, lo, w)) {
            return *r;
        }
        let r = self.ext_raw(n, a, lo, w);
        self.exts.insert((a, lo, w), r);
        r
    }
    fn ext_raw(&mut self, n: Node, a: E, lo: u32, w: u32) -> E {
        match n.op {
            Op::Ext => return self.ext(n.a, lo + n.k as u32, w),
            Op::Concat => {
                let lw = self.w(n.b);
                if lo + w <= lw {
                    return self.ext(n.b, lo, w);
                }
                if lo >= lw {
                    return self.ext(n.a, lo - lw, w);
                }
                let l = self.ext(n.b, lo, lw - lo);
                let h = self.ext(n.a, 0, w - (lw - lo));
                return self.concat(h, l);
            }
            Op::Zext => {
                let iw = self.w(n.a);
                if lo >= iw {
                    return self.k(w, 0);
                }
                if lo + w <= iw {
                    return self.ext(n.a, lo, w);
                }
                let l = self.ext(n.a, lo, iw - lo);
                return self.zext(l, w);
            }
            Op::Sext => {
                let iw = self.w(n.a);
                if lo + w <= iw {
                    return self.ext(n.a, lo, w);
                }
                if lo < iw {
                    let l = self.ext(n.a, lo, iw - lo);
                    return self.sext(l, w);
                }
                let l = self.ext(n.a, iw - 1, 1);
                return self.sext(l, w);
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.ext(n.a, lo, w);
                let y = self.ext(n.b, lo, w);
                return self.bin(n.op, x, y);
            }
            Op::Ite => {
                let x = self.ext(n.b, lo, w);
                let y = self.ext(n.c, lo, w);
                return self.ite(n.a, x, y);
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let x = self.ext(n.a, 0, w);
                let y = self.ext(n.b, 0, w);
                return self.bin(n.op, x, y);
            }
            _ => {}
        }
        self.mk(Op::Ext, w, a, 0, 0, lo as u128)
    }
    pub fn not(&mut self, a: E) -> E {
        let w = self.w(a);
        if w > 128 {
            return self.limbs1(a, |c, x| c.not(x));
        }
        let m = self.k(w, mask(w));
        self.bin(Op::Xor, a, m)
    }
    fn limbs1(&mut self, a: E, f: impl Fn(&mut Ctx, E) -> E) -> E {
        let w = self.w(a);
        let mut lo = 0;
        let mut r: Option<E> = None;
        while lo < w {
            let n = 64.min(w - lo);
            let x = self.ext(a, lo, n);
            let v = f(self, x);
            r = Some(match r { None => v, Some(p) => self.concat(v, p) });
            lo += n;
        }
        r.unwrap()
    }
    fn limbs2(&mut self, a: E, b: E, f: impl Fn(&mut Ctx, E, E) -> E) -> E {
        let w = self.w(a);
        let mut lo = 0;
        let mut r: Option<E> = None;
        while lo < w {
            let n = 64.min(w - lo);
            let x = self.ext(a, lo, n);
            let y = self.ext(b, lo, n);
            let v = f(self, x, y);
            r = Some(match r { None => v, Some(p) => self.concat(v, p) });
            lo += n;
        }
        r.unwrap()
    }
    pub fn fold(op: Op, w: u32, a: u128, b: u128) -> u128 {
        let m = mask(w);
        let (sa, sb) = (sx(a, w), sx(b, w));
        (match op {
            Op::Add => a.wrapping_add(b),
            Op::Sub => a.wrapping_sub(b),
            Op::Mul => a.wrapping_mul(b),
            Op::Udiv => if b == 0 { m } else { a / b },
            Op::Urem => if b == 0 { a } else { a % b },
            Op::Sdiv => if b == 0 { if sa < 0 { 1 } else { m } } else { sa.wrapping_div(sb) as u128 },
            Op::Srem => if b == 0 { a } else { sa.wrapping_rem(sb) as u128 },
            Op::And => a & b,
            Op::Or => a | b,
            Op::Xor => a ^ b,
            Op::Shl => if b >= w as u128 { 0 } else { a << b },
            Op::Lshr => if b >= w as u128 { 0 } else { a >> b },
            Op::Ashr => if b >= w as u128 { (sa >> 127) as u128 } else { (sa >> b) as u128 },
            Op::Eq => (a == b) as u128,
            Op::Ult => (a < b) as u128,
            Op::Slt => (sa < sb) as u128,
            _ => unreachable!(),
        }) & (if matches!(op, Op::Eq | Op::Ult | Op::Slt) { 1 } else { m })
    }
    /// Lowest bit position strictly above `from` where the structure of `e` changes.
    fn cuts(&self, e: E, base: u32, out: &mut Vec<u32>, depth: u32) {
        let n = self.n(e);
        match n.op {
            Op::Concat if depth < 64 => {
                let lw = self.w(n.b);
                self.cuts(n.b, base, out, depth + 1);
                out.push(base + lw);
                self.cuts(n.a, base + lw, out, depth + 1);
            }
            Op::Zext => {
                self.cuts(n.a, base, out, depth + 1);
                out.push(base + self.w(n.a));
            }
            _ => {}
        }
    }
    fn has_zero_seg(&self, e: E) -> bool {
        let n = self.n(e);
        match n.op {
            Op::Zext => true,
            Op::Concat => {
                let na = self.n(n.a);
                (na.op == Op::K) || { let nb = self.n(n.b); nb.op == Op::K || self.has_zero_seg(n.b) }
            }
            _ => false,
        }
    }
    fn by_segments(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        let mut c = vec![];
        self.cuts(a, 0, &mut c, 0);
        self.cuts(b, 0, &mut c, 0);
        c.push(w);
        c.sort();
        c.dedup();
        let mut lo = 0;
        let mut r: Option<E> = None;
        for hi in c {
            if hi <= lo || hi > w {
                continue;
            }
            let x = self.ext(a, lo, hi - lo);
            let y = self.ext(b, lo, hi - lo);
            let v = self.bin_plain(op, x, y);
            r = Some(match r { None => v, Some(p) => self.concat(v, p) });
            lo = hi;
        }
        r.unwrap()
    }
    pub fn bin(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?}", op);
        if w > 128 {
            match op {
                Op::And | Op::Or | Op::Xor => return self.limbs2(a, b, |c, x, y| c.bin(op, x, y)),
                Op::Eq => {
                    let mut lo = 0;
                    let mut r = self.k(1, 1);
                    while lo < w {
                        let n = 64.min(w - lo);
                        let x = self.ext(a, lo, n);
                        let y = self.ext(b, lo, n);
                        let v = self.bin(Op::Eq, x, y);
                        r = self.bin(Op::And, r, v);
                        lo += n;
                    }
                    return r;
                }
                Op::Shl | Op::Lshr => {
                    let bk = self.ext(b, 0, 64);
                    if let Some(k) = self.as_k(bk) {
                        let k = k as u32;
                        if k == 0 {
                            return a;
                        }
                        if k >= w {
                            return self.k(w, 0);
                        }
                        if op == Op::Lshr {
                            let x = self.ext(a, k, w - k);
                            return self.zext(x, w);
                        }
                        let x = self.ext(a, 0, w - k);
                        let z = self.k(k, 0);
                        return self.concat(x, z);
                    }
                }
                _ => {}
            }
            return self.mk(op, w, a, b, 0, 0);
        }
        if let (Some(x), Some(y)) = (self.as_k(a), self.as_k(b)) {
            let v = Self::fold(op, w, x, y);
            let rw = if matches!(op, Op::Eq | Op::Ult | Op::Slt) { 1 } else { w };
            return self.k(rw, v);
        }
        if let Some(r) = self.bins.get(&(op, a, b)) {
            return *r;
        }
        let r = self.bin_raw(op, w, a, b);
        self.bins.insert((op, a, b), r);
        r
    }
    fn bin_raw(&mut self, op: Op, w: u32, a: E, b: E) -> E {
        // disjoint or: recombine bytes
        if matches!(op, Op::Or | Op::Xor | Op::Add) && w > 1 && self.as_k(a).is_none() && self.as_k(b).is_none()
            && (self.has_zero_seg(a) || self.has_zero_seg(b)) {
            if op != Op::Add {
                return self.by_segments(op, a, b);
            }
            // add of values with disjoint support is an or
            if self.disjoint(a, b) {
                return self.by_segments(Op::Or, a, b);
            }
        }
        if matches!(op, Op::Or | Op::Xor) && w > 1 && (self.as_k(b).is_some() && self.has_zero_seg(a) || self.as_k(a).is_some() && self.has_zero_seg(b)) {
            return self.by_segments(op, a, b);
        }
        self.bin_plain(op, a, b)
    }
    fn disjoint(&mut self, a: E, b: E) -> bool {
        let w = self.w(a);
        let mut c = vec![];
        self.cuts(a, 0, &mut c, 0);
        self.cuts(b, 0, &mut c, 0);
        c.push(w);
        c.sort();
        c.dedup();
        let mut lo = 0;
        for hi in c {
            if hi <= lo || hi > w {
                continue;
            }
            let x = self.ext(a, lo, hi - lo);
            let y = self.ext(b, lo, hi - lo);
            if self.as_k(x) != Some(0) && self.as_k(y) != Some(0) {
                return false;
            }
            lo = hi;
        }
        true
    }
    /// Upper bound that is evident from the structure.
    fn ub(&self, e: E, depth: u32) -> u128 {
        let n = self.n(e);
        let m = mask(n.w as u32);
        if depth == 0 {
            return m;
        }
        match n.op {
            Op::K => n.k,
            Op::Zext => self.ub(n.a, depth - 1),
            Op::Concat if n.w <= 128 => self.ub(n.a, depth - 1) << self.w(n.b) | mask(self.w(n.b)),
            Op::Add => self.ub(n.a, depth - 1).checked_add(self.ub(n.b, depth - 1)).map_or(m, |x| if x > m { m } else { x }),
            Op::Mul => self.ub(n.a, depth - 1).checked_mul(self.ub(n.b, depth - 1)).map_or(m, |x| if x > m { m } else { x }),
            _ => m,
        }
    }
    /// `e` = k * (x + j) + c with constants j and c < k, without overflow: (x, j, c).
    fn linear(&self, e: E, k: u128, w: u32) -> Option<(E, u128, u128)> {
        let n = self.n(e);
        let (mul, c) = if n.op == Op::Add { (n.a, self.as_k(n.b)?) } else { (e, 0) };
        let nm = self.n(mul);
        if nm.op != Op::Mul || self.as_k(nm.b) != Some(k) || k == 0 {
            return None;
        }
        let top = self.ub(nm.a, 4).checked_mul(k)?.checked_add(c)?;
        if top > mask(w) {
            return None;
        }
        Some((nm.a, c / k, c % k))
    }
    pub fn show(&self, e: E, depth: u32) -> String {
        let n = self.n(e);
        match n.op {
            Op::K => format!("{:#x}", n.k),
            Op::Sym => format!("s{}", n.k),
            _ if depth == 0 => format!("#{e}"),
            Op::Ext => format!("{}[{}+{}]", self.show(n.a, depth - 1), n.k, n.w),
            Op::Zext | Op::Sext => format!("{:?}{}({})", n.op, n.w, self.show(n.a, depth - 1)),
            Op::Ite => format!("ite({},{},{})", self.show(n.a, depth - 1), self.show(n.b, depth - 1), self.show(n.c, depth - 1)),
            _ => format!("{:?}{}({},{})", n.op, n.w, self.show(n.a, depth - 1), self.show(n.b, depth - 1)),
        }
    }
    /// Like `ext`, but leaves sums and products whole, so that bytes written to memory can be rejoined.
    pub fn ext_mem(&mut self, a: E, lo: u32, w: u32) -> E {
        let n = self.n(a);
        if lo == 0 && w < n.w as u32 && matches!(n.op, Op::Add | Op::Sub | Op::Mul) {
            return self.mk(Op::Ext, w, a, 0, 0, lo as u128);
        }
        self.ext(a, lo, w)
    }
    fn bin_plain(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.as_k(a), self.as_k(b)) {
            let v = Self::fold(op, w, x, y);
            let rw = if matches!(op, Op::Eq | Op::Ult | Op::Slt) { 1 } else { w };
            return self.k(rw, v);
        }
        let (mut a, mut b) = (a, b);
        if matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq) {
            let swap = self.as_k(a).is_some() || (self.as_k(b).is_none() && a > b);
            if swap {
                std::mem::swap(&mut a, &mut b);
            }
        }
        let (na, nb) = (self.n(a), self.n(b));
        let kb = if nb.op == Op::K { Some(nb.k) } else { None };
        let ka = if na.op == Op::K { Some(na.k) } else { None };
        let m = mask(w);
        match op {
            Op::Add => {
                if kb == Some(0) {
                    return a;
                }
                if let Some(k) = kb {
                    if na.op == Op::Add {
                        if let Some(k2) = self.as_k(na.b) {
                            let s = self.k(w, k.wrapping_add(k2));
                            return self.bin(Op::Add, na.a, s);
                        }
                    }
                    if w == 1 {
                        return self.bin(Op::Xor, a, b);
                    }
                }
                if nb.op == Op::Sub && nb.b == a {
                    return nb.a;
                }
                if na.op == Op::Sub && na.b == b {
                    return na.a;
                }
                if w == 1 {
                    return self.bin(Op::Xor, a, b);
                }
            }
            Op::Sub => {
                if a == b {
                    return self.k(w, 0);
                }
                if let Some(k) = kb {
                    let s = self.k(w, k.wrapping_neg());
                    return self.bin(Op::Add, a, s);
                }
                if na.op == Op::Add && na.a == b {
                    return na.b;
                }
                if na.op == Op::Add && na.b == b {
                    return na.a;
                }
                if na.op == Op::Add && nb.op == Op::Add && na.a == nb.a {
                    return self.bin(Op::Sub, na.b, nb.b);
                }
                if w == 1 {
                    return self.bin(Op::Xor, a, b);
                }
            }
            Op::Mul => {
                if let Some(k) = kb {
                    if k == 0 {
                        return b;
                    }
                    if k == 1 {
                        return a;
                    }
                    if k.is_power_of_two() {
                        let s = self.k(w, k.trailing_zeros() as u128);
                        return self.bin(Op::Shl, a, s);
                    }
                }
            }
            Op::Udiv => {
                if let Some(k) = kb {
                    if k == 1 {
                        return a;
                    }
                    if let Some((x, j, _)) = self.linear(a, k, w) {
                        let j = self.k(w, j);
                        return self.bin(Op::Add, x, j);
                    }
                    if k != 0 && k.is_power_of_two() {
                        let s = self.k(w, k.trailing_zeros() as u128);
                        return self.bin(Op::Lshr, a, s);
                    }
                    // shrink to the significant width
                    if na.op == Op::Zext {
                        let iw = self.w(na.a);
                        if k != 0 && k <= mask(iw) {
                            let kk = self.k(iw, k);
                            let q = self.bin(Op::Udiv, na.a, kk);
                            return self.zext(q, w);
                        }
                        if k > mask(iw) {
                            return self.k(w, 0);
                        }
                    }
                }
            }
            Op::Urem => {
                if let Some(k) = kb {
                    if k == 1 {
                        return self.k(w, 0);
                    }
                    if let Some((_, _, c)) = self.linear(a, k, w) {
                        return self.k(w, c);
                    }
                    if k != 0 && k.is_power_of_two() {
                        let s = self.k(w, k - 1);
                        return self.bin(Op::And, a, s);
                    }
                    if na.op == Op::Zext {
                        let iw = self.w(na.a);
                        if k != 0 && k <= mask(iw) {
                            let kk = self.k(iw, k);
                            let q = self.bin(Op::Urem, na.a, kk);
                            return self.zext(q, w);
                        }
                        if k > mask(iw) {
                            return a;
                        }
                    }
                }
            }
            Op::Sdiv | Op::Srem => {}
            Op::And => {
                if a == b {
                    return a;
                }
                if let Some(k) = kb {
                    if k == 0 {
                        return b;
                    }
                    if k == m {
                        return a;
                    }
                    if w > 1 {
                        // split into runs of ones/zeros
                        let mut runs = vec![];
                        let mut i = 0;
                        while i < w {
                            let bit = (k >> i) & 1;
                            let mut j = i;
                            while j < w && (k >> j) & 1 == bit {
                                j += 1;
                            }
                            runs.push((i, j - i, bit));
                            i = j;
                        }
                        if runs.len() <= 9 {
                            let mut r: Option<E> = None;
                            for (lo, n, bit) in runs {
                                let v = if bit == 1 { self.ext(a, lo, n) } else { self.k(n, 0) };
                                r = Some(match r { None => v, Some(p) => self.concat(v, p) });
                            }
                            return r.unwrap();
                        }
                    }
                }
                if w == 1 {
                    if self.is_not_of(a, b) {
                        return self.k(1, 0);
                    }
                    if na.op == Op::And && (na.a == b || na.b == b) {
                        return a;
                    }
                    if nb.op == Op::And && (nb.a == a || nb.b == a) {
                        return b;
                    }
                }
            }
            Op::Or => {
                if a == b {
                    return a;
                }
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    if k == m {
                        return b;
                    }
                }
                if w == 1 {
                    if self.is_not_of(a, b) {
                        return self.k(1, 1);
                    }
                    if na.op == Op::Or && (na.a == b || na.b == b) {
                        return a;
                    }
                    if nb.op == Op::Or && (nb.a == a || nb.b == a) {
                        return b;
                    }
                }
            }
            Op::Xor => {
                if a == b {
                    return self.k(w, 0);
                }
                if kb == Some(0) {
                    return a;
                }
                if na.op == Op::Xor {
                    if na.a == b {
                        return na.b;
                    }
                    if na.b == b {
                        return na.a;
                    }
                    if let (Some(k), Some(k2)) = (kb, self.as_k(na.b)) {
                        let s = self.k(w, k ^ k2);
                        return self.bin(Op::Xor, na.a, s);
                    }
                    // constants float outwards
                    if kb.is_none() {
                        if let Some(_) = self.as_k(na.b) {
                            let i = self.bin(Op::Xor, na.a, b);
                            return self.bin(Op::Xor, i, na.b);
                        }
                    }
                }
                if nb.op == Op::Xor {
                    if nb.a == a {
                        return nb.b;
                    }
                    if nb.b == a {
                        return nb.a;
                    }
                    if let Some(_) = self.as_k(nb.b) {
                        let i = self.bin(Op::Xor, a, nb.a);
                        return self.bin(Op::Xor, i, nb.b);
                    }
                }
                if let (Some(k), Op::Concat) = (kb, na.op) {
                    let lw = self.w(na.b);
                    let kl = self.k(lw, k);
                    let kh = self.k(w - lw, k >> lw);
                    let l = self.bin(Op::Xor, na.b, kl);
                    let h = self.bin(Op::Xor, na.a, kh);
                    return self.concat(h, l);
                }
            }
            Op::Shl | Op::Lshr | Op::Ashr => {
                if let Some(k) = kb {
                    let k = if k > w as u128 { w } else { k as u32 };
                    if k == 0 {
                        return a;
                    }
                    if k >= w {
                        if op != Op::Ashr {
                            return self.k(w, 0);
                        }
                        let s = self.ext(a, w - 1, 1);
                        return self.sext(s, w);
                    }
                    return match op {
                        Op::Shl => {
                            let x = self.ext(a, 0, w - k);
                            let z = self.k(k, 0);
                            self.concat(x, z)
                        }
                        Op::Lshr => {
                            let x = self.ext(a, k, w - k);
                            self.zext(x, w)
                        }
                        _ => {
                            let x = self.ext(a, k, w - k);
                            self.sext(x, w)
                        }
                    };
                }
                if ka == Some(0) {
                    return a;
                }
            }
            Op::Eq => {
                if a == b {
                    return self.k(1, 1);
                }
                if let Some(k) = kb {
                    if w == 1 {
                        return if k == 1 { a } else { self.not_raw(a) };
                    }
                    match na.op {
                        Op::Concat => {
                            let lw = self.w(na.b);
                            let kl = self.k(lw, k);
                            let kh = self.k(w - lw, k >> lw);
                            let h = self.bin(Op::Eq, na.a, kh);
                            if self.as_k(h) == Some(0) {
                                return h;
                            }
                            let l = self.bin(Op::Eq, na.b, kl);
                            return self.bin(Op::And, h, l);
                        }
                        Op::Zext => {
                            let iw = self.w(na.a);
                            if k > mask(iw) {
                                return self.k(1, 0);
                            }
                            let kk = self.k(iw, k);
                            return self.bin(Op::Eq, na.a, kk);
                        }
                        Op::Sext => {
                            let iw = self.w(na.a);
                            if sx(k & mask(iw), iw) as u128 & m != k {
                                return self.k(1, 0);
                            }
                            let kk = self.k(iw, k);
                            return self.bin(Op::Eq, na.a, kk);
                        }
                        Op::Xor => {
                            if let Some(k2) = self.as_k(na.b) {
                                let kk = self.k(w, k ^ k2);
                                return self.bin(Op::Eq, na.a, kk);
                            }
                            if k == 0 {
                                return self.bin(Op::Eq, na.a, na.b);
                            }
                        }
                        Op::Add => {
                            if let Some(k2) = self.as_k(na.b) {
                                let kk = self.k(w, k.wrapping_sub(k2));
                                return self.bin(Op::Eq, na.a, kk);
                            }
                        }
                        Op::Sub => {
                            if k == 0 {
                                return self.bin(Op::Eq, na.a, na.b);
                            }
                            if let Some(k2) = self.as_k(na.a) {
                                let kk = self.k(w, k2.wrapping_sub(k));
                                return self.bin(Op::Eq, na.b, kk);
                            }
                        }
                        Op::Ite => {
                            let (t, e) = (self.as_k(na.b), self.as_k(na.c));
                            if t.is_some() || e.is_some() {
                                let x = self.bin(Op::Eq, na.b, b);
                                let y = self.bin(Op::Eq, na.c, b);
                                return self.ite(na.a, x, y);
                            }
                        }
                        Op::Or if k == 0 => {
                            let x = self.bin(Op::Eq, na.a, b);
                            let y = self.bin(Op::Eq, na.b, b);
                            return self.bin(Op::And, x, y);
                        }
                        _ => {}
                    }
                }
                if w == 1 {
                    let x = self.bin(Op::Xor, a, b);
                    return self.not_raw(x);
                }
                if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b) {
                    let h = self.bin(Op::Eq, na.a, nb.a);
                    let l = self.bin(Op::Eq, na.b, nb.b);
                    return self.bin(Op::And, h, l);
                }
                if na.op == Op::Zext && nb.op == Op::Zext && self.w(na.a) == self.w(nb.a) {
                    return self.bin(Op::Eq, na.a, nb.a);
                }
                if na.op == Op::Xor && nb.op == Op::Xor {
                    if na.a == nb.a {
                        return self.bin(Op::Eq, na.b, nb.b);
                    }
                    if na.b == nb.b {
                        return self.bin(Op::Eq, na.a, nb.a);
                    }
                }
                if na.op == Op::Add && nb.op == Op::Add && na.b == nb.b {
                    return self.bin(Op::Eq, na.a, nb.a);
                }
                if na.op == Op::Add && na.a == b {
                    let z = self.k(w, 0);
                    return self.bin(Op::Eq, na.b, z);
                }
            }
            Op::Ult => {
                if a == b || kb == Some(0) || ka == Some(m) {
                    return self.k(1, 0);
                }
                if kb == Some(1) {
                    let z = self.k(w, 0);
                    return self.bin(Op::Eq, a, z);
                }
                if ka == Some(0) {
                    let z = self.k(w, 0);
                    let e = self.bin(Op::Eq, b, z);
                    return self.not(e);
                }
                if na.op == Op::Zext {
                    let iw = self.w(na.a);
                    if let Some(k) = kb {
                        if k > mask(iw) {
                            return self.k(1, 1);
                        }
                        let kk = self.k(iw, k);
                        return self.bin(Op::Ult, na.a, kk);
                    }
                    if nb.op == Op::Zext && self.w(nb.a) == iw {
                        return self.bin(Op::Ult, na.a, nb.a);
                    }
                }
                if nb.op == Op::Zext {
                    let iw = self.w(nb.a);
                    if let Some(k) = ka {
                        if k >= mask(iw) {
                            return self.k(1, 0);
                        }
                        let kk = self.k(iw, k);
                        return self.bin(Op::Ult, kk, nb.a);
                    }
                }
                if w == 1 {
                    let x = self.not(a);
                    return self.bin(Op::And, x, b);
                }
            }
            Op::Slt => {
                if a == b {
                    return self.k(1, 0);
                }
                // both known non-negative
                let nn = |c: &Ctx, n: Node| n.op == Op::Zext || (n.op == Op::K && n.k >> (w - 1) == 0) || { let _ = c; false };
                if w > 1 && nn(self, na) && nn(self, nb) {
                    return self.bin(Op::Ult, a, b);
                }
                if na.op == Op::Zext && kb == Some(0) {
                    return self.k(1, 0);
                }
            }
            _ => unreachable!(),
        }
        let rw = if matches!(op, Op::Eq | Op::Ult | Op::Slt) { 1 } else { w };
        self.mk(op, rw, a, b, 0, 0)
    }
    fn not_raw(&mut self, a: E) -> E {
        let one = self.k(1, 1);
        self.bin(Op::Xor, a, one)
    }
    fn is_not_of(&self, a: E, b: E) -> bool {
        let (na, nb) = (self.n(a), self.n(b));
        (na.op == Op::Xor && na.w == 1 && na.a == b && self.as_k(na.b) == Some(1))
            || (nb.op == Op::Xor && nb.w == 1 && nb.a == a && self.as_k(nb.b) == Some(1))
    }
    pub fn ite(&mut self, c: E, t: E, e: E) -> E {
        if let Some(k) = self.as_k(c) {
            return if k == 1 { t } else { e };
        }
        if t == e {
            return t;
        }
        let nc = self.n(c);
        if nc.op == Op::Xor && self.as_k(nc.b) == Some(1) {
            return self.ite(nc.a, e, t);
        }
        let w = self.w(t);
        if w == 1 {
            match (self.as_k(t), self.as_k(e)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(Op::Or, c, e),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.bin(Op::And, n, e);
                }
                (None, Some(0)) => return self.bin(Op::And, c, t),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.bin(Op::Or, n, t);
                }
                _ => {}
            }
        }
        let nt = self.n(t);
        if nt.op == Op::Ite && nt.a == c {
            return self.ite(c, nt.b, e);
        }
        let ne = self.n(e);
        if ne.op == Op::Ite && ne.a == c {
            return self.ite(c, t, ne.c);
        }
        self.mk(Op::Ite, w, c, t, e, 0)
    }
    pub fn fop(&mut self, op: Op, w: u32, a: E, b: E) -> E {
        let (ka, kb) = (self.as_k(a), self.as_k(b));
        let unary = matches!(op, Op::U2f | Op::S2f | Op::F2u | Op::F2s | Op::Fext | Op::Ftrunc);
        if ka.is_some() && (unary || kb.is_some()) {
            let v = ffold(op, w, self.w(a), ka.unwrap(), kb.unwrap_or(0));
            return self.k(w, v);
        }
        self.mk(op, w, a, if unary { 0 } else { b }, 0, 0)
    }

    // ---- evaluation -------------------------------------------------------------------------
    pub fn eval(&mut self, e: E, m: &Model) -> u128 {
        self.cur += 1;
        if self.stamp.len() < self.nodes.len() {
            let n = self.nodes.len() * 2;
            self.stamp.resize(n, 0);
            self.val.resize(n, 0);
        }
        self.ev(e, m)
    }
    pub fn eval_many(&mut self, es: &[E], m: &Model) -> Vec<u128> {
        self.cur += 1;
        if self.stamp.len() < self.nodes.len() {
            let n = self.nodes.len() * 2;
            self.stamp.resize(n, 0);
            self.val.resize(n, 0);
        }
        es.iter().map(|e| self.ev(*e, m)).collect()
    }
    fn ev(&mut self, e: E, m: &Model) -> u128 {
        let i = e as usize;
        if self.stamp[i] == self.cur {
            return self.val[i];
        }
        let n = self.nodes[i];
        let w = n.w as u32;
        let v = match n.op {
            Op::K => n.k,
            Op::Sym => *m.get(&(n.k as u32)).unwrap_or(&0) as u128,
            Op::Concat => {
                let lw = self.w(n.b);
                let h = self.ev(n.a, m);
                let l = self.ev(n.b, m);
                if lw >= 128 { l } else { h << lw | l }
            }
            Op::Ext => {
                let aw = self.w(n.a);
                assert!(aw <= 128, "UNSUPPORTED: evaluation of a wide value");
                (self.ev(n.a, m) >> n.k) & mask(w)
            }
            Op::Zext => self.ev(n.a, m),
            Op::Sext => {
                let aw = self.w(n.a);
                sx(self.ev(n.a, m), aw) as u128 & mask(w)
            }
            Op::Ite => {
                if self.ev(n.a, m) == 1 {
                    self.ev(n.b, m)
                } else {
                    self.ev(n.c, m)
                }
            }
            Op::Fadd | Op::Fsub | Op::Fmul | Op::Fdiv | Op::Flt | Op::Fle | Op::Feq => {
                let aw = self.w(n.a);
                let a = self.ev(n.a, m);
                let b = self.ev(n.b, m);
                ffold(n.op, w, aw, a, b)
            }
            Op::U2f | Op::S2f | Op::F2u | Op::F2s | Op::Fext | Op::Ftrunc => {
                let aw = self.w(n.a);
                let a = self.ev(n.a, m);
                ffold(n.op, w, aw, a, 0)
            }
            _ => {
                let aw = self.w(n.a);
                assert!(aw <= 128, "UNSUPPORTED: evaluation of a wide value");
                let a = self.ev(n.a, m);
                let b = self.ev(n.b, m);
                Self::fold(n.op, aw, a, b)
            }
        };
        self.stamp[i] = self.cur;
        self.val[i] = v;
        v
    }
    /// Sorted symbols below `e`.
    pub fn symbols(&mut self, e: E) -> Rc<Vec<u32>> {
        if let Some(s) = self.syms.get(&e) {
            return s.clone();
        }
        self.cur += 1;
        if self.stamp.len() < self.nodes.len() {
            let n = self.nodes.len() * 2;
            self.stamp.resize(n, 0);
            self.val.resize(n, 0);
        }
        let mut st = vec![e];
        let mut out = vec![];
        while let Some(x) = st.pop() {
            let i = x as usize;
            if self.stamp[i] == self.cur {
                continue;
            }
            self.stamp[i] = self.cur;
            let n = self.nodes[i];
            match n.op {
                Op::K => {}
                Op::Sym => out.push(n.k as u32),
                Op::Ext | Op::Zext | Op::Sext | Op::U2f | Op::S2f | Op::F2u | Op::F2s | Op::Fext | Op::Ftrunc => st.push(n.a),
                Op::Ite => {
                    st.push(n.a);
                    st.push(n.b);
                    st.push(n.c)
                }
                _ => {
                    st.push(n.a);
                    st.push(n.b)
                }
            }
        }
        out.sort();
        let r = Rc::new(out);
        self.syms.insert(e, r.clone());
        r
    }
}
pub fn ffold(op: Op, w: u32, aw: u32, a: u128, b: u128) -> u128 {
    let d = |x: u128| f64::from_bits(x as u64);
    let s = |x: u128| f32::from_bits(x as u32);
    let arith = |f: &dyn Fn(f64, f64) -> f64, g: &dyn Fn(f32, f32) -> f32| -> u128 {
        if aw == 64 { f(d(a), d(b)).to_bits() as u128 } else { g(s(a), s(b)).to_bits() as u128 }
    };
    let cmp = |f: &dyn Fn(f64, f64) -> bool| -> u128 {
        if aw == 64 { f(d(a), d(b)) as u128 } else { f(s(a) as f64, s(b) as f64) as u128 }
    };
    match op {
        Op::Fadd => arith(&|x, y| x + y, &|x, y| x + y),
        Op::Fsub => arith(&|x, y| x - y, &|x, y| x - y),
        Op::Fmul => arith(&|x, y| x * y, &|x, y| x * y),
        Op::Fdiv => arith(&|x, y| x / y, &|x, y| x / y),
        Op::Flt => cmp(&|x, y| x < y),
        Op::Fle => cmp(&|x, y| x <= y),
        Op::Feq => cmp(&|x, y| x == y),
        Op::U2f => if w == 64 { (a as f64).to_bits() as u128 } else { (a as f32).to_bits() as u128 },
        Op::S2f => if w == 64 { (sx(a, aw) as f64).to_bits() as u128 } else { (sx(a, aw) as f32).to_bits() as u128 },
        Op::F2u => {
            let v = if aw == 64 { d(a) } else { s(a) as f64 };
            let m = mask(w);
            let r = v as u128;
            if r > m { m } else { r }
        }
        Op::F2s => {
            let v = if aw == 64 { d(a) } else { s(a) as f64 };
            let r = v as i128;
            let hi = (mask(w) >> 1) as i128;
            (r.clamp(-hi - 1, hi) as u128) & mask(w)
        }
        Op::Fext => (s(a) as f64).to_bits() as u128,
        Op::Ftrunc => (d(a) as f32).to_bits() as u128,
        _ => unreachable!(),
    }
}

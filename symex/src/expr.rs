//! Hash-consed bit-vector expressions with on-construction simplification.
use std::collections::HashMap;
use std::rc::Rc;

pub type Id = u32;

#[derive(Clone, Debug)]
pub enum V {
    C(u128),
    E(Id),
    A(Rc<Vec<V>>),
}
impl V {
    #[inline]
    pub fn is_c(&self) -> bool {
        matches!(self, V::C(_))
    }
    #[inline]
    pub fn c(&self) -> Option<u128> {
        if let V::C(x) = self {
            Some(*x)
        } else {
            None
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const, // a = index in const table
    Var,   // a = var index
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    Concat,  // a = high, b = low
    Extract, // a = expr, b = lo (width gives hi)
    SExt,    // a = expr
    Ite,     // a = cond(w1), b, c
    Eq,
    Ult,
    Slt,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: Id,
    pub b: Id,
    pub c: Id,
}

#[inline]
pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
#[inline]
pub fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

#[derive(Clone, Debug)]
pub struct VarInfo {
    pub w: u32,
}

pub struct Ctx {
    pub nodes: Vec<Node>,
    kz: Vec<u128>,
    ko: Vec<u128>,
    map: HashMap<Node, Id>,
    consts: Vec<u128>,
    cmap: HashMap<u128, u32>,
    pub vars: Vec<VarInfo>,
    /// rewriting off: only constants are folded, everything else is left to the solver
    pub plain: bool,
    /// sums are kept as canonical linear combinations
    pub linear: bool,
    lins: HashMap<Id, Rc<Lin>>,
}

/// sum of coefficient * atom, plus a constant (modulo the width)
#[derive(Clone, Debug)]
pub struct Lin {
    t: Vec<(Id, u128)>,
    k: u128,
}
const LIN_MAX: usize = 1500;

impl Ctx {
    pub fn new() -> Self {
        Ctx {
            nodes: vec![],
            kz: vec![],
            ko: vec![],
            map: HashMap::new(),
            consts: vec![],
            cmap: HashMap::new(),
            vars: vec![],
            plain: false,
            linear: false,
            lins: HashMap::new(),
        }
    }
    #[inline]
    pub fn w(&self, id: Id) -> u32 {
        self.nodes[id as usize].w as u32
    }
    #[inline]
    pub fn node(&self, id: Id) -> Node {
        self.nodes[id as usize]
    }
    pub fn const_val(&self, id: Id) -> Option<u128> {
        let n = self.nodes[id as usize];
        if n.op == Op::Const {
            Some(self.consts[n.a as usize])
        } else {
            None
        }
    }
    fn intern(&mut self, n: Node) -> Id {
        if let Some(&i) = self.map.get(&n) {
            return i;
        }
        let id = self.nodes.len() as Id;
        let (z, o) = self.known(&n);
        let m = mask(n.w as u32);
        let (z, o) = (z & m, o & m);
        if n.op != Op::Const && (z | o) == m && !self.plain {
            // fully determined
            let k = self.konst(o, n.w as u32);
            self.map.insert(n, k);
            return k;
        }
        self.nodes.push(n);
        self.kz.push(z);
        self.ko.push(o);
        self.map.insert(n, id);
        id
    }
    pub fn konst(&mut self, v: u128, w: u32) -> Id {
        let v = v & mask(w);
        let ci = *self.cmap.entry(v).or_insert_with(|| {
            self.consts.push(v);
            (self.consts.len() - 1) as u32
        });
        let n = Node { op: Op::Const, w: w as u16, a: ci, b: 0, c: 0 };
        if let Some(&i) = self.map.get(&n) {
            return i;
        }
        let id = self.nodes.len() as Id;
        self.nodes.push(n);
        self.kz.push(!v & mask(w));
        self.ko.push(v);
        self.map.insert(n, id);
        id
    }
    pub fn var(&mut self, w: u32) -> Id {
        let i = self.vars.len() as u32;
        self.vars.push(VarInfo { w });
        self.var_id(i)
    }
    pub fn var_id(&mut self, i: u32) -> Id {
        let w = self.vars[i as usize].w;
        self.intern(Node { op: Op::Var, w: w as u16, a: i, b: 0, c: 0 })
    }
    #[inline]
    pub fn id(&mut self, v: &V, w: u32) -> Id {
        match v {
            V::C(c) => self.konst(*c, w),
            V::E(e) => *e,
            V::A(_) => panic!("aggregate where scalar expected"),
        }
    }
    #[inline]
    pub fn val(&self, id: Id) -> V {
        match self.const_val(id) {
            Some(c) => V::C(c),
            None => V::E(id),
        }
    }
    pub fn kzero(&self, id: Id) -> u128 {
        self.kz[id as usize]
    }
    pub fn kone(&self, id: Id) -> u128 {
        self.ko[id as usize]
    }
    pub fn umax(&self, id: Id) -> u128 {
        !self.kz[id as usize] & mask(self.w(id))
    }
    pub fn umin(&self, id: Id) -> u128 {
        self.ko[id as usize]
    }

    fn known(&self, n: &Node) -> (u128, u128) {
        let w = n.w as u32;
        let m = mask(w);
        let k = |i: Id| (self.kz[i as usize], self.ko[i as usize]);
        match n.op {
            Op::Const | Op::Var => (0, 0),
            Op::And => {
                let (az, ao) = k(n.a);
                let (bz, bo) = k(n.b);
                (az | bz, ao & bo)
            }
            Op::Or => {
                let (az, ao) = k(n.a);
                let (bz, bo) = k(n.b);
                (az & bz, ao | bo)
            }
            Op::Xor => {
                let (az, ao) = k(n.a);
                let (bz, bo) = k(n.b);
                ((az & bz) | (ao & bo), (az & bo) | (ao & bz))
            }
            Op::Concat => {
                let lw = self.w(n.b);
                let (az, ao) = k(n.a);
                let (bz, bo) = k(n.b);
                ((az << lw) | bz, (ao << lw) | bo)
            }
            Op::Extract => {
                let (az, ao) = k(n.a);
                ((az >> n.b) & m, (ao >> n.b) & m)
            }
            Op::SExt => {
                let iw = self.w(n.a);
                let (az, ao) = k(n.a);
                let hi = m & !mask(iw);
                let s = 1u128 << (iw - 1);
                (
                    az | if az & s != 0 { hi } else { 0 },
                    ao | if ao & s != 0 { hi } else { 0 },
                )
            }
            Op::Ite => {
                let (bz, bo) = k(n.b);
                let (cz, co) = k(n.c);
                (bz & cz, bo & co)
            }
            Op::Add => {
                // upper bound and trailing zeros
                let (az, _) = k(n.a);
                let (bz, _) = k(n.b);
                let tz = (!az).trailing_zeros().min((!bz).trailing_zeros()).min(w);
                let mut z = mask(tz);
                let (ua, ub) = (self.umax(n.a), self.umax(n.b));
                if let Some(s) = ua.checked_add(ub) {
                    if s <= m {
                        z |= m & !mask(128 - s.leading_zeros());
                    }
                }
                (z & m, 0)
            }
            Op::Mul => {
                let (az, _) = k(n.a);
                let (bz, _) = k(n.b);
                let tz = ((!az).trailing_zeros() + (!bz).trailing_zeros()).min(w);
                let mut z = mask(tz);
                let (ua, ub) = (self.umax(n.a), self.umax(n.b));
                if let Some(s) = ua.checked_mul(ub) {
                    if s <= m {
                        z |= m & !mask(128 - s.leading_zeros());
                    }
                }
                (z & m, 0)
            }
            Op::UDiv => {
                let ua = self.umax(n.a);
                let lb = self.umin(n.b);
                if lb > 0 {
                    let s = ua / lb;
                    (m & !mask(128 - s.leading_zeros()), 0)
                } else {
                    (0, 0)
                }
            }
            Op::URem => {
                let ub = self.umax(n.b);
                let lb = self.umin(n.b);
                if lb > 0 {
                    let s = (ub - 1).min(self.umax(n.a));
                    (m & !mask(128 - s.leading_zeros()), 0)
                } else {
                    (0, 0)
                }
            }
            Op::LShr => {
                let ua = self.umax(n.a) >> (self.umin(n.b).min(127) as u32);
                (m & !mask(128 - ua.leading_zeros()), 0)
            }
            Op::Shl => {
                let (az, _) = k(n.a);
                let tz = ((!az).trailing_zeros() as u128 + self.umin(n.b)).min(w as u128) as u32;
                (mask(tz), 0)
            }
            Op::Eq => {
                let (az, ao) = k(n.a);
                let (bz, bo) = k(n.b);
                if (az & bo) | (ao & bz) != 0 {
                    (1, 0)
                } else {
                    (0, 0)
                }
            }
            Op::Ult => {
                if self.umax(n.a) < self.umin(n.b) {
                    (0, 1)
                } else if self.umin(n.a) >= self.umax(n.b) {
                    (1, 0)
                } else {
                    (0, 0)
                }
            }
            Op::Slt => {
                let iw = self.w(n.a);
                let s = 1u128 << (iw - 1);
                let (az, ao) = k(n.a);
                let (bz, bo) = k(n.b);
                if ao & s != 0 && bz & s != 0 {
                    (0, 1)
                } else if az & s != 0 && bo & s != 0 {
                    (1, 0)
                } else {
                    (0, 0)
                }
            }
            _ => (0, 0),
        }
    }

    // ---- scalar constant ops
    pub fn fold(op: Op, a: u128, b: u128, w: u32) -> Option<u128> {
        let m = mask(w);
        Some(
            match op {
                Op::Add => a.wrapping_add(b),
                Op::Sub => a.wrapping_sub(b),
                Op::Mul => a.wrapping_mul(b),
                Op::UDiv => {
                    if b == 0 {
                        return None;
                    }
                    a / b
                }
                Op::URem => {
                    if b == 0 {
                        return None;
                    }
                    a % b
                }
                Op::SDiv => {
                    if b == 0 {
                        return None;
                    }
                    sext(a, w).wrapping_div(sext(b, w)) as u128
                }
                Op::SRem => {
                    if b == 0 {
                        return None;
                    }
                    sext(a, w).wrapping_rem(sext(b, w)) as u128
                }
                Op::Shl => {
                    if b >= w as u128 {
                        0
                    } else {
                        a << b
                    }
                }
                Op::LShr => {
                    if b >= w as u128 {
                        0
                    } else {
                        a >> b
                    }
                }
                Op::AShr => {
                    let s = sext(a, w);
                    (s >> (b.min(w as u128 - 1) as u32).min(127)) as u128
                }
                Op::And => a & b,
                Op::Or => a | b,
                Op::Xor => a ^ b,
                Op::Eq => (a == b) as u128,
                Op::Ult => (a < b) as u128,
                Op::Slt => (sext(a, w) < sext(b, w)) as u128,
                _ => return None,
            } & m,
        )
    }

    pub fn bin(&mut self, op: Op, a: &V, b: &V, w: u32) -> V {
        if let (V::C(x), V::C(y)) = (a, b) {
            if let Some(r) = Self::fold(op, *x, *y, w) {
                return V::C(r);
            }
        }
        let ia = self.id(a, w);
        let ib = self.id(b, w);
        let r = self.mk_bin(op, ia, ib);
        self.val(r)
    }

    fn raw(&mut self, op: Op, w: u32, a: Id, b: Id, c: Id) -> Id {
        self.intern(Node { op, w: w as u16, a, b, c })
    }

    pub fn mk_bin(&mut self, op: Op, a: Id, b: Id) -> Id {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let m = mask(w);
        let ca = self.const_val(a);
        let cb = self.const_val(b);
        if let (Some(x), Some(y)) = (ca, cb) {
            if let Some(r) = Self::fold(op, x, y, w) {
                return self.konst(r, w);
            }
        }
        if self.plain {
            return self.raw(op, w, a, b, 0);
        }
        if self.linear && w > 1 && (matches!(op, Op::Add | Op::Sub) || (op == Op::Mul && (ca.is_some() || cb.is_some()))) {
            let l = if op == Op::Mul {
                let (x, k) = if let Some(k) = cb { (a, k) } else { (b, ca.unwrap()) };
                if k.is_power_of_two() {
                    None
                } else {
                    let x = self.lin(x);
                    Some(Self::lin_add(&Lin { t: vec![], k: 0 }, &x, k, m))
                }
            } else {
                let (x, y) = (self.lin(a), self.lin(b));
                Some(Self::lin_add(&x, &y, if op == Op::Add { 1 } else { m }, m))
            };
            if let Some(l) = l {
                if l.t.len() <= LIN_MAX {
                    let r = self.from_lin(l.clone(), w);
                    if !self.lins.contains_key(&r) && self.const_val(r).is_none() {
                        self.lins.insert(r, Rc::new(l));
                    }
                    return r;
                }
            }
        }
        match op {
            Op::Add => {
                if ca.is_some() && cb.is_none() {
                    return self.mk_bin(Op::Add, b, a);
                }
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    let na = self.node(a);
                    if na.op == Op::Add {
                        if let Some(k2) = self.const_val(na.b) {
                            let kk = self.konst(k.wrapping_add(k2), w);
                            return self.mk_bin(Op::Add, na.a, kk);
                        }
                    }
                    if na.op == Op::Sub {
                        if let Some(k2) = self.const_val(na.a) {
                            // (k2 - x) + k
                            let kk = self.konst(k.wrapping_add(k2), w);
                            return self.mk_bin(Op::Sub, kk, na.b);
                        }
                    }
                } else {
                    let na = self.node(a);
                    if na.op == Op::Sub && na.b == b {
                        return na.a;
                    }
                    let nb = self.node(b);
                    if nb.op == Op::Sub && nb.b == a {
                        return nb.a;
                    }
                    // float constants outward
                    if na.op == Op::Add {
                        if self.const_val(na.b).is_some() {
                            let s = self.mk_bin(Op::Add, na.a, b);
                            return self.mk_bin(Op::Add, s, na.b);
                        }
                    }
                    if nb.op == Op::Add {
                        if self.const_val(nb.b).is_some() {
                            let s = self.mk_bin(Op::Add, a, nb.a);
                            return self.mk_bin(Op::Add, s, nb.b);
                        }
                    }
                    if w == 1 {
                        return self.mk_bin(Op::Xor, a, b);
                    }
                    if a > b {
                        return self.mk_bin(Op::Add, b, a);
                    }
                }
                // disjoint bits: add == or
                let (za, zb) = (self.kzero(a), self.kzero(b));
                if (za | zb) == m {
                    return self.mk_bin(Op::Or, a, b);
                }
            }
            Op::Sub => {
                if a == b {
                    return self.konst(0, w);
                }
                if let Some(k) = cb {
                    let nk = self.konst(k.wrapping_neg(), w);
                    return self.mk_bin(Op::Add, a, nk);
                }
                let na = self.node(a);
                if na.op == Op::Add {
                    if na.a == b {
                        return na.b;
                    }
                    if na.b == b {
                        return na.a;
                    }
                }
                let nb = self.node(b);
                if nb.op == Op::Add {
                    // a - (x + k)
                    if self.const_val(nb.b).is_some() {
                        let s = self.mk_bin(Op::Sub, a, nb.a);
                        return self.mk_bin(Op::Sub, s, nb.b);
                    }
                    if nb.a == a {
                        let z = self.konst(0, w);
                        return self.mk_bin(Op::Sub, z, nb.b);
                    }
                    if nb.b == a {
                        let z = self.konst(0, w);
                        return self.mk_bin(Op::Sub, z, nb.a);
                    }
                }
                if na.op == Op::Add && self.const_val(na.b).is_some() {
                    let s = self.mk_bin(Op::Sub, na.a, b);
                    return self.mk_bin(Op::Add, s, na.b);
                }
                if nb.op == Op::Sub && nb.a == a {
                    return nb.b;
                }
            }
            Op::Mul => {
                if ca.is_some() && cb.is_none() {
                    return self.mk_bin(Op::Mul, b, a);
                }
                if let Some(k) = cb {
                    if k == 0 {
                        return b;
                    }
                    if k == 1 {
                        return a;
                    }
                    if k.is_power_of_two() {
                        let s = self.konst(k.trailing_zeros() as u128, w);
                        return self.mk_bin(Op::Shl, a, s);
                    }
                } else if a > b {
                    return self.mk_bin(Op::Mul, b, a);
                }
            }
            Op::UDiv => {
                if let Some(k) = cb {
                    if k == 1 {
                        return a;
                    }
                    if k.is_power_of_two() {
                        let s = self.konst(k.trailing_zeros() as u128, w);
                        return self.mk_bin(Op::LShr, a, s);
                    }
                }
            }
            Op::URem => {
                if let Some(k) = cb {
                    if k.is_power_of_two() {
                        let s = self.konst(k - 1, w);
                        return self.mk_bin(Op::And, a, s);
                    }
                    if self.umax(a) < k {
                        return a;
                    }
                }
            }
            Op::Shl => {
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    if k >= w as u128 {
                        return self.konst(0, w);
                    }
                    let k = k as u32;
                    let hi = self.extract(a, w - k - 1, 0);
                    let lo = self.konst(0, k);
                    return self.concat(hi, lo);
                }
                if ca == Some(0) {
                    return a;
                }
            }
            Op::LShr => {
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    if k >= w as u128 {
                        return self.konst(0, w);
                    }
                    let k = k as u32;
                    let lo = self.extract(a, w - 1, k);
                    let hi = self.konst(0, k);
                    return self.concat(hi, lo);
                }
                if ca == Some(0) {
                    return a;
                }
            }
            Op::AShr => {
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    let k = k.min(w as u128 - 1) as u32;
                    let lo = self.extract(a, w - 1, k);
                    return self.mk_sext(lo, w);
                }
                if self.kzero(a) >> (w - 1) & 1 == 1 {
                    return self.mk_bin(Op::LShr, a, b);
                }
            }
            Op::And => {
                if ca.is_some() && cb.is_none() {
                    return self.mk_bin(Op::And, b, a);
                }
                if a == b {
                    return a;
                }
                if let Some(k) = cb {
                    if k == 0 {
                        return b;
                    }
                    if k == m || (k | self.kzero(a)) == m {
                        return a;
                    }
                    // runs of ones -> segments
                    if runs(k, w) <= 4 {
                        return self.mask_segments(a, k, w);
                    }
                } else {
                    // x & y where bits disjoint
                    if (self.kzero(a) | self.kzero(b)) == m {
                        return self.konst(0, w);
                    }
                    if a > b {
                        return self.mk_bin(Op::And, b, a);
                    }
                    if w == 1 {
                        if self.is_not_of(a, b) {
                            return self.konst(0, 1);
                        }
                    }
                }
            }
            Op::Or => {
                if ca.is_some() && cb.is_none() {
                    return self.mk_bin(Op::Or, b, a);
                }
                if a == b {
                    return a;
                }
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    if k == m {
                        return b;
                    }
                    if k & !self.kone(a) == 0 {
                        return a;
                    }
                } else if a > b {
                    return self.mk_bin(Op::Or, b, a);
                }
                if w == 1 && self.is_not_of(a, b) {
                    return self.konst(1, 1);
                }
                if w > 1 {
                    if let Some(r) = self.or_segments(a, b, w) {
                        return r;
                    }
                }
            }
            Op::Xor => {
                if ca.is_some() && cb.is_none() {
                    return self.mk_bin(Op::Xor, b, a);
                }
                if a == b {
                    return self.konst(0, w);
                }
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    let na = self.node(a);
                    if na.op == Op::Xor {
                        if let Some(k2) = self.const_val(na.b) {
                            let kk = self.konst(k ^ k2, w);
                            return self.mk_bin(Op::Xor, na.a, kk);
                        }
                    }
                    if na.op == Op::Ite && w == 1 {
                        let nb = self.mk_bin(Op::Xor, na.b, b);
                        let nc = self.mk_bin(Op::Xor, na.c, b);
                        return self.ite_id(na.a, nb, nc);
                    }
                } else {
                    let na = self.node(a);
                    if na.op == Op::Xor && (na.a == b || na.b == b) {
                        return if na.a == b { na.b } else { na.a };
                    }
                    let nb = self.node(b);
                    if nb.op == Op::Xor && (nb.a == a || nb.b == a) {
                        return if nb.a == a { nb.b } else { nb.a };
                    }
                    if a > b {
                        return self.mk_bin(Op::Xor, b, a);
                    }
                }
            }
            _ => {}
        }
        self.raw(op, w, a, b, 0)
    }

    fn lin(&mut self, id: Id) -> Rc<Lin> {
        if let Some(l) = self.lins.get(&id) {
            return l.clone();
        }
        let n = self.node(id);
        let m = mask(n.w as u32);
        let l = match n.op {
            Op::Const => Lin { t: vec![], k: self.const_val(id).unwrap() },
            Op::Add => {
                let (x, y) = (self.lin(n.a), self.lin(n.b));
                Self::lin_add(&x, &y, 1, m)
            }
            Op::Sub => {
                let (x, y) = (self.lin(n.a), self.lin(n.b));
                Self::lin_add(&x, &y, m, m)
            }
            Op::Or if (self.kzero(n.a) | self.kzero(n.b)) & m == m => {
                let (x, y) = (self.lin(n.a), self.lin(n.b));
                Self::lin_add(&x, &y, 1, m)
            }
            Op::Xor if n.w > 1 && self.const_val(n.b) == Some(m) => {
                let x = self.lin(n.a);
                Self::lin_add(&Lin { t: vec![], k: m }, &x, m, m)
            }
            Op::Mul if self.const_val(n.b).is_some() => {
                let k = self.const_val(n.b).unwrap();
                let x = self.lin(n.a);
                Self::lin_add(&Lin { t: vec![], k: 0 }, &x, k, m)
            }
            _ => Lin { t: vec![(id, 1)], k: 0 },
        };
        let l = Rc::new(if l.t.len() > LIN_MAX { Lin { t: vec![(id, 1)], k: 0 } } else { l });
        self.lins.insert(id, l.clone());
        l
    }
    fn lin_add(x: &Lin, y: &Lin, c: u128, m: u128) -> Lin {
        let mut t = Vec::with_capacity(x.t.len() + y.t.len());
        let (mut i, mut j) = (0, 0);
        while i < x.t.len() || j < y.t.len() {
            if j >= y.t.len() || (i < x.t.len() && x.t[i].0 < y.t[j].0) {
                t.push(x.t[i]);
                i += 1;
            } else if i >= x.t.len() || y.t[j].0 < x.t[i].0 {
                let k = y.t[j].1.wrapping_mul(c) & m;
                if k != 0 {
                    t.push((y.t[j].0, k));
                }
                j += 1;
            } else {
                let k = x.t[i].1.wrapping_add(y.t[j].1.wrapping_mul(c)) & m;
                if k != 0 {
                    t.push((x.t[i].0, k));
                }
                i += 1;
                j += 1;
            }
        }
        Lin { t, k: x.k.wrapping_add(y.k.wrapping_mul(c)) & m }
    }
    fn from_lin(&mut self, l: Lin, w: u32) -> Id {
        let m = mask(w);
        let mut acc: Option<Id> = None;
        // positive terms first so that subtractions have something to subtract from
        for neg in [false, true] {
            for &(a, c) in &l.t {
                let isneg = c == m && w > 1;
                if isneg != neg {
                    continue;
                }
                let term = if c == 1 || isneg {
                    a
                } else {
                    let k = self.konst(c, w);
                    self.raw(Op::Mul, w, a, k, 0)
                };
                acc = Some(match (acc, isneg) {
                    (None, false) => term,
                    (None, true) => {
                        let k = self.konst(l.k, w);
                        self.raw(Op::Sub, w, k, term, 0)
                    }
                    (Some(x), false) => self.lin_raw_add(x, term, w),
                    (Some(x), true) => self.raw(Op::Sub, w, x, term, 0),
                });
            }
        }
        let only_neg = !l.t.is_empty() && l.t.iter().all(|t| t.1 == m && w > 1);
        match acc {
            None => self.konst(l.k, w),
            Some(x) if l.k == 0 || only_neg => x,
            Some(x) => {
                let k = self.konst(l.k, w);
                self.lin_raw_add(x, k, w)
            }
        }
    }
    fn lin_raw_add(&mut self, a: Id, b: Id, w: u32) -> Id {
        if (self.kzero(a) | self.kzero(b)) & mask(w) == mask(w) {
            return self.mk_bin(Op::Or, a, b);
        }
        self.raw(Op::Add, w, a, b, 0)
    }

    fn is_not_of(&self, a: Id, b: Id) -> bool {
        let na = self.node(a);
        if na.op == Op::Xor && na.a == b && self.const_val(na.b) == Some(1) {
            return true;
        }
        let nb = self.node(b);
        nb.op == Op::Xor && nb.a == a && self.const_val(nb.b) == Some(1)
    }

    fn mask_segments(&mut self, a: Id, k: u128, w: u32) -> Id {
        let mut segs: Vec<Id> = vec![];
        let mut i = 0;
        while i < w {
            let bit = (k >> i) & 1;
            let mut j = i;
            while j < w && (k >> j) & 1 == bit {
                j += 1;
            }
            if bit == 1 {
                segs.push(self.extract(a, j - 1, i));
            } else {
                segs.push(self.konst(0, j - i));
            }
            i = j;
        }
        self.concat_list(segs)
    }

    /// low-to-high list of segments
    pub fn flatten(&self, a: Id, out: &mut Vec<Id>) {
        let mut cur = a;
        let mut stack = vec![];
        loop {
            let n = self.node(cur);
            if n.op == Op::Concat {
                stack.push(n.a);
                cur = n.b;
            } else {
                out.push(cur);
                match stack.pop() {
                    Some(x) => cur = x,
                    None => return,
                }
            }
        }
    }

    fn or_segments(&mut self, a: Id, b: Id, w: u32) -> Option<Id> {
        if self.node(a).op != Op::Concat && self.node(b).op != Op::Concat {
            return None;
        }
        let mut sa = vec![];
        let mut sb = vec![];
        self.flatten(a, &mut sa);
        self.flatten(b, &mut sb);
        // cut points
        let mut cuts: Vec<u32> = vec![];
        let mut p = 0;
        for s in sa.iter() {
            p += self.w(*s);
            cuts.push(p);
        }
        p = 0;
        for s in sb.iter() {
            p += self.w(*s);
            cuts.push(p);
        }
        cuts.sort();
        cuts.dedup();
        // require each piece one side zero const
        let mut lo = 0;
        let (za, zb) = (self.kzero(a), self.kzero(b));
        for &c in &cuts {
            let mm = mask(c - lo) << lo;
            if za & mm != mm && zb & mm != mm {
                return None;
            }
            lo = c;
        }
        let _ = w;
        let mut segs = vec![];
        lo = 0;
        for &c in &cuts {
            let mm = mask(c - lo) << lo;
            let src = if za & mm == mm { b } else { a };
            segs.push(self.extract(src, c - 1, lo));
            lo = c;
        }
        Some(self.concat_list(segs))
    }

    pub fn concat_list(&mut self, segs: Vec<Id>) -> Id {
        // segs low to high; merge adjacent
        let mut out: Vec<Id> = vec![];
        for s in segs {
            let mut parts = vec![];
            self.flatten(s, &mut parts);
            for p in parts {
                if let Some(&l) = out.last() {
                    if let Some(mg) = self.merge(p, l) {
                        *out.last_mut().unwrap() = mg;
                        continue;
                    }
                }
                out.push(p);
            }
        }
        let mut it = out.into_iter();
        let mut acc = it.next().unwrap();
        for s in it {
            let w = self.w(acc) + self.w(s);
            acc = self.raw(Op::Concat, w, s, acc, 0);
        }
        acc
    }
    /// merge hi:lo into single node if adjacent
    fn merge(&mut self, hi: Id, lo: Id) -> Option<Id> {
        let (wh, wl) = (self.w(hi), self.w(lo));
        if let (Some(h), Some(l)) = (self.const_val(hi), self.const_val(lo)) {
            return Some(self.konst((h << wl) | l, wh + wl));
        }
        if self.plain {
            return None;
        }
        let nh = self.node(hi);
        let nl = self.node(lo);
        if nh.op == Op::Extract {
            if nl.op == Op::Extract && nl.a == nh.a && nh.b == nl.b + wl {
                return Some(self.extract(nl.a, nh.b + wh - 1, nl.b));
            }
            // extract directly above a whole expr? no
        }
        None
    }
    pub fn concat(&mut self, hi: Id, lo: Id) -> Id {
        self.concat_list(vec![lo, hi])
    }
    /// a byte of a stored scalar, not rewritten yet so that a load of the whole finds the scalar again
    pub fn raw_byte(&mut self, a: Id, lo: u32) -> Id {
        if self.plain || self.w(a) == 8 {
            return self.extract(a, lo + 7, lo);
        }
        let n = self.node(a);
        match n.op {
            Op::Const => self.extract(a, lo + 7, lo),
            Op::Concat => {
                let lw = self.w(n.b);
                if lo + 8 <= lw {
                    self.raw_byte(n.b, lo)
                } else if lo >= lw {
                    self.raw_byte(n.a, lo - lw)
                } else {
                    self.extract(a, lo + 7, lo)
                }
            }
            Op::Extract => self.raw_keep(Node { op: Op::Extract, w: 8, a: n.a, b: n.b + lo, c: 0 }),
            _ => self.raw_keep(Node { op: Op::Extract, w: 8, a, b: lo, c: 0 }),
        }
    }
    /// interned even if its bits are all known
    fn raw_keep(&mut self, n: Node) -> Id {
        if let Some(&i) = self.map.get(&n) {
            if self.const_val(i).is_none() {
                return i;
            }
        }
        let (z, o) = self.known(&n);
        let id = self.nodes.len() as Id;
        self.nodes.push(n);
        self.kz.push(z & mask(n.w as u32));
        self.ko.push(o & mask(n.w as u32));
        self.map.insert(n, id);
        id
    }
    /// low-to-high bytes of memory put together
    pub fn join_bytes(&mut self, segs: Vec<Id>) -> Id {
        if self.plain {
            return self.concat_list(segs);
        }
        let mut out: Vec<Id> = vec![];
        let mut i = 0;
        while i < segs.len() {
            let n = self.node(segs[i]);
            if n.op != Op::Extract {
                out.push(segs[i]);
                i += 1;
                continue;
            }
            let lo = n.b;
            let mut hi = lo + n.w as u32;
            i += 1;
            while i < segs.len() {
                let k = self.node(segs[i]);
                if k.op != Op::Extract || k.a != n.a || k.b != hi {
                    break;
                }
                hi += k.w as u32;
                i += 1;
            }
            out.push(self.extract(n.a, hi - 1, lo));
        }
        self.concat_list(out)
    }
    pub fn extract(&mut self, a: Id, hi: u32, lo: u32) -> Id {
        let w = self.w(a);
        let nw = hi - lo + 1;
        if nw == w {
            return a;
        }
        if let Some(c) = self.const_val(a) {
            return self.konst(c >> lo, nw);
        }
        if self.plain {
            return self.raw(Op::Extract, nw, a, lo, 0);
        }
        let m = mask(nw) << lo;
        let (z, o) = (self.kzero(a), self.kone(a));
        if (z | o) & m == m {
            return self.konst(o >> lo, nw);
        }
        let n = self.node(a);
        match n.op {
            Op::Extract => return self.extract(n.a, n.b + hi, n.b + lo),
            Op::Add | Op::Sub if self.linear && lo == 0 && nw > 1 => {
                let l = self.lin(a);
                let mut acc = Lin { t: vec![], k: l.k & mask(nw) };
                for &(t, c) in &l.t {
                    let x = self.extract(t, hi, 0);
                    let x = self.lin(x);
                    acc = Self::lin_add(&acc, &x, c & mask(nw), mask(nw));
                }
                if acc.t.len() <= LIN_MAX {
                    return self.from_lin(acc, nw);
                }
            }
            Op::Concat => {
                let mut parts = vec![];
                self.flatten(a, &mut parts);
                let mut segs = vec![];
                let mut p = 0;
                for s in parts {
                    let sw = self.w(s);
                    let (sl, sh) = (p, p + sw - 1);
                    if sh >= lo && sl <= hi {
                        let l = lo.max(sl) - sl;
                        let h = hi.min(sh) - sl;
                        segs.push(self.extract(s, h, l));
                    }
                    p += sw;
                }
                return self.concat_list(segs);
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, hi, lo);
                let y = self.extract(n.b, hi, lo);
                return self.mk_bin(n.op, x, y);
            }
            Op::Ite => {
                if self.const_val(n.b).is_some() || self.const_val(n.c).is_some() || nw <= 8 {
                    let x = self.extract(n.b, hi, lo);
                    let y = self.extract(n.c, hi, lo);
                    return self.ite_id(n.a, x, y);
                }
            }
            Op::SExt => {
                let iw = self.w(n.a);
                if hi < iw {
                    return self.extract(n.a, hi, lo);
                }
                if lo == 0 {
                    return self.mk_sext(n.a, nw);
                }
                if lo >= iw {
                    let s = self.extract(n.a, iw - 1, iw - 1);
                    return self.mk_sext(s, nw);
                }
            }
            Op::Add | Op::Sub | Op::Mul => {
                if lo == 0 {
                    let x = self.extract(n.a, hi, 0);
                    let y = self.extract(n.b, hi, 0);
                    return self.mk_bin(n.op, x, y);
                }
            }
            _ => {}
        }
        self.raw(Op::Extract, nw, a, lo, 0)
    }
    pub fn zext(&mut self, a: Id, w: u32) -> Id {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        let z = self.konst(0, w - aw);
        self.concat(z, a)
    }
    pub fn mk_sext(&mut self, a: Id, w: u32) -> Id {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        if let Some(c) = self.const_val(a) {
            return self.konst(sext(c, aw) as u128, w);
        }
        if self.plain {
            return self.raw(Op::SExt, w, a, 0, 0);
        }
        if (self.kzero(a) >> (aw - 1)) & 1 == 1 {
            return self.zext(a, w);
        }
        let n = self.node(a);
        if n.op == Op::SExt {
            return self.mk_sext(n.a, w);
        }
        self.raw(Op::SExt, w, a, 0, 0)
    }
    pub fn not(&mut self, a: Id) -> Id {
        let w = self.w(a);
        let k = self.konst(mask(w), w);
        self.mk_bin(Op::Xor, a, k)
    }
    pub fn ite_id(&mut self, c: Id, a: Id, b: Id) -> Id {
        if let Some(k) = self.const_val(c) {
            return if k & 1 == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        if self.plain {
            return self.raw(Op::Ite, w, c, a, b);
        }
        let nc = self.node(c);
        if nc.op == Op::Xor && self.const_val(nc.b) == Some(1) {
            return self.ite_id(nc.a, b, a);
        }
        let (ka, kb) = (self.const_val(a), self.const_val(b));
        if w == 1 {
            match (ka, kb) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.mk_bin(Op::Or, c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.mk_bin(Op::And, n, b);
                }
                (None, Some(0)) => return self.mk_bin(Op::And, c, a),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.mk_bin(Op::Or, n, a);
                }
                _ => {}
            }
        }
        if a == c && w == 1 {
            return self.mk_bin(Op::Or, c, b);
        }
        let na = self.node(a);
        if na.op == Op::Ite && na.a == c {
            return self.ite_id(c, na.b, b);
        }
        let nb = self.node(b);
        if nb.op == Op::Ite && nb.a == c {
            return self.ite_id(c, a, nb.c);
        }
        if nb.op == Op::Ite && nb.b == a {
            // c ? a : (d ? a : e) -> (c|d) ? a : e
            let cd = self.mk_bin(Op::Or, c, nb.a);
            return self.ite_id(cd, a, nb.c);
        }
        // eq-substitution: ite(x == k, k, x) -> x
        if nc.op == Op::Eq && ((nc.a == a && nc.b == b) || (nc.a == b && nc.b == a)) {
            return b;
        }
        self.raw(Op::Ite, w, c, a, b)
    }
    pub fn ite(&mut self, c: &V, a: &V, b: &V, w: u32) -> V {
        match c {
            V::C(k) => {
                if k & 1 == 1 {
                    a.clone()
                } else {
                    b.clone()
                }
            }
            V::E(c) => {
                let x = self.id(a, w);
                let y = self.id(b, w);
                let r = self.ite_id(*c, x, y);
                self.val(r)
            }
            _ => panic!("ite on aggregate cond"),
        }
    }

    pub fn eq(&mut self, a: Id, b: Id) -> Id {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if self.plain && (self.const_val(a).is_none() || self.const_val(b).is_none()) {
            return self.raw(Op::Eq, 1, a, b, 0);
        }
        if a == b {
            return self.konst(1, 1);
        }
        let (ca, cb) = (self.const_val(a), self.const_val(b));
        match (ca, cb) {
            (Some(x), Some(y)) => return self.konst((x == y) as u128, 1),
            (Some(_), None) => return self.eq(b, a),
            _ => {}
        }
        if (self.kzero(a) & self.kone(b)) | (self.kone(a) & self.kzero(b)) != 0 {
            return self.konst(0, 1);
        }
        if w == 1 {
            if let Some(k) = cb {
                return if k == 1 { a } else { self.not(a) };
            }
            let x = self.mk_bin(Op::Xor, a, b);
            return self.not(x);
        }
        if self.linear && w > 1 {
            let (x, y) = (self.lin(a), self.lin(b));
            if x.t.len() + y.t.len() > 1 {
                let d = Self::lin_add(&x, &y, mask(w), mask(w));
                if d.t.len() < x.t.len() + y.t.len() {
                    // positive terms on one side, negative on the other
                    let m = mask(w);
                    let (neg, pos): (Vec<(Id, u128)>, Vec<(Id, u128)>) = d.t.iter().copied().partition(|t| t.1 == m);
                    let (l, r) = if pos.is_empty() {
                        (Lin { t: neg.into_iter().map(|t| (t.0, 1)).collect(), k: 0 }, Lin { t: vec![], k: d.k })
                    } else {
                        (Lin { t: pos, k: 0 }, Lin { t: neg.into_iter().map(|t| (t.0, 1)).collect(), k: d.k.wrapping_neg() & m })
                    };
                    let l = self.from_lin(l, w);
                    let r = self.from_lin(r, w);
                    let l2 = (self.lin(l), self.lin(r));
                    if l2.0.t.len() + l2.1.t.len() < x.t.len() + y.t.len() {
                        return self.eq(l, r);
                    }
                }
            }
        }
        let na = self.node(a);
        if let Some(k) = cb {
            match na.op {
                Op::Ite => {
                    let (kb, kc) = (self.const_val(na.b), self.const_val(na.c));
                    if kb.is_some() || kc.is_some() {
                        let x = self.eq(na.b, b);
                        let y = self.eq(na.c, b);
                        return self.ite_id(na.a, x, y);
                    }
                }
                Op::Add => {
                    if let Some(k2) = self.const_val(na.b) {
                        let kk = self.konst(k.wrapping_sub(k2), w);
                        return self.eq(na.a, kk);
                    }
                }
                Op::Sub => {
                    if let Some(k2) = self.const_val(na.a) {
                        let kk = self.konst(k2.wrapping_sub(k), w);
                        return self.eq(na.b, kk);
                    }
                    if k == 0 {
                        return self.eq(na.a, na.b);
                    }
                }
                Op::Xor => {
                    if let Some(k2) = self.const_val(na.b) {
                        let kk = self.konst(k ^ k2, w);
                        return self.eq(na.a, kk);
                    }
                    if k == 0 {
                        return self.eq(na.a, na.b);
                    }
                }
                Op::Concat => {
                    // split into conjunction
                    let mut parts = vec![];
                    self.flatten(a, &mut parts);
                    let mut p = 0;
                    let mut acc = self.konst(1, 1);
                    for s in parts {
                        let sw = self.w(s);
                        let kk = self.konst(k >> p, sw);
                        let e = self.eq(s, kk);
                        acc = self.mk_bin(Op::And, acc, e);
                        p += sw;
                    }
                    return acc;
                }
                Op::SExt => {
                    let iw = self.w(na.a);
                    let low = k & mask(iw);
                    if (sext(low, iw) as u128) & mask(w) != k {
                        return self.konst(0, 1);
                    }
                    let kk = self.konst(low, iw);
                    return self.eq(na.a, kk);
                }
                _ => {}
            }
        } else {
            let nb = self.node(b);
            if na.op == Op::Concat && nb.op == Op::Concat {
                let mut sa = vec![];
                let mut sb = vec![];
                self.flatten(a, &mut sa);
                self.flatten(b, &mut sb);
                if sa.len() == sb.len()
                    && sa.iter().zip(sb.iter()).all(|(x, y)| self.w(*x) == self.w(*y))
                {
                    let mut acc = self.konst(1, 1);
                    for (x, y) in sa.into_iter().zip(sb) {
                        let e = self.eq(x, y);
                        acc = self.mk_bin(Op::And, acc, e);
                    }
                    return acc;
                }
            }
            if na.op == Op::Add && nb.op == Op::Add && na.a == nb.a {
                return self.eq(na.b, nb.b);
            }
            if na.op == Op::Add && nb.op == Op::Add && na.b == nb.b {
                return self.eq(na.a, nb.a);
            }
            if na.op == Op::Add && na.a == b {
                let z = self.konst(0, w);
                return self.eq(na.b, z);
            }
            if nb.op == Op::Add && nb.a == a {
                let z = self.konst(0, w);
                return self.eq(nb.b, z);
            }
            if a > b {
                return self.eq(b, a);
            }
        }
        self.raw(Op::Eq, 1, a, b, 0)
    }
    pub fn ult(&mut self, a: Id, b: Id) -> Id {
        let w = self.w(a);
        if self.plain && (self.const_val(a).is_none() || self.const_val(b).is_none()) {
            return self.raw(Op::Ult, 1, a, b, 0);
        }
        if a == b {
            return self.konst(0, 1);
        }
        let (ca, cb) = (self.const_val(a), self.const_val(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.konst((x < y) as u128, 1);
        }
        if cb == Some(0) {
            return self.konst(0, 1);
        }
        if cb == Some(1) {
            let z = self.konst(0, w);
            return self.eq(a, z);
        }
        if ca == Some(mask(w)) {
            return self.konst(0, 1);
        }
        if ca == Some(0) {
            let z = self.konst(0, w);
            let e = self.eq(b, z);
            return self.not(e);
        }
        if w == 1 {
            let na = self.not(a);
            return self.mk_bin(Op::And, na, b);
        }
        // strip common known-zero high bits
        let hz = (self.kzero(a) & self.kzero(b) | !mask(w)).leading_ones();
        let eff = 128 - hz;
        if eff < w && eff > 0 {
            let na = self.node(a);
            let nb = self.node(b);
            if na.op == Op::Concat || nb.op == Op::Concat || ca.is_some() || cb.is_some() {
                let x = self.extract(a, eff - 1, 0);
                let y = self.extract(b, eff - 1, 0);
                // only if it really narrowed
                if self.w(x) < w {
                    return self.ult(x, y);
                }
            }
        }
        if cb.is_some() {
            let na = self.node(a);
            if na.op == Op::Ite && (self.const_val(na.b).is_some() && self.const_val(na.c).is_some()) {
                let x = self.ult(na.b, b);
                let y = self.ult(na.c, b);
                return self.ite_id(na.a, x, y);
            }
        }
        self.raw(Op::Ult, 1, a, b, 0)
    }
    pub fn slt(&mut self, a: Id, b: Id) -> Id {
        let w = self.w(a);
        if self.plain && (self.const_val(a).is_none() || self.const_val(b).is_none()) {
            return self.raw(Op::Slt, 1, a, b, 0);
        }
        if a == b {
            return self.konst(0, 1);
        }
        let (ca, cb) = (self.const_val(a), self.const_val(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.konst((sext(x, w) < sext(y, w)) as u128, 1);
        }
        let s = 1u128 << (w - 1);
        if self.kzero(a) & s != 0 && self.kzero(b) & s != 0 {
            return self.ult(a, b);
        }
        if cb == Some(0) {
            return self.extract(a, w - 1, w - 1);
        }
        if ca == Some(mask(w)) {
            // -1 < b  <=> b >= 0
            let t = self.extract(b, w - 1, w - 1);
            return self.not(t);
        }
        self.raw(Op::Slt, 1, a, b, 0)
    }

    pub fn icmp(&mut self, pred: Pred, a: &V, b: &V, w: u32) -> V {
        if let (V::C(x), V::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let r = match pred {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Slt => sext(x, w) < sext(y, w),
                Pred::Sle => sext(x, w) <= sext(y, w),
                Pred::Sgt => sext(x, w) > sext(y, w),
                Pred::Sge => sext(x, w) >= sext(y, w),
            };
            return V::C(r as u128);
        }
        let x = self.id(a, w);
        let y = self.id(b, w);
        let r = match pred {
            Pred::Eq => self.eq(x, y),
            Pred::Ne => {
                let e = self.eq(x, y);
                self.not(e)
            }
            Pred::Ult => self.ult(x, y),
            Pred::Ugt => self.ult(y, x),
            Pred::Ule => {
                let e = self.ult(y, x);
                self.not(e)
            }
            Pred::Uge => {
                let e = self.ult(x, y);
                self.not(e)
            }
            Pred::Slt => self.slt(x, y),
            Pred::Sgt => self.slt(y, x),
            Pred::Sle => {
                let e = self.slt(y, x);
                self.not(e)
            }
            Pred::Sge => {
                let e = self.slt(x, y);
                self.not(e)
            }
        };
        self.val(r)
    }
    pub fn extract_v(&mut self, a: &V, hi: u32, lo: u32) -> V {
        match a {
            V::C(c) => V::C((c >> lo) & mask(hi - lo + 1)),
            V::E(e) => {
                let r = self.extract(*e, hi, lo);
                self.val(r)
            }
            _ => panic!("extract agg"),
        }
    }
    pub fn zext_v(&mut self, a: &V, from: u32, to: u32) -> V {
        let _ = from;
        match a {
            V::C(c) => V::C(*c),
            V::E(e) => {
                let r = self.zext(*e, to);
                self.val(r)
            }
            _ => panic!("zext agg"),
        }
    }
    pub fn sext_v(&mut self, a: &V, from: u32, to: u32) -> V {
        match a {
            V::C(c) => V::C((sext(*c, from) as u128) & mask(to)),
            V::E(e) => {
                let r = self.mk_sext(*e, to);
                self.val(r)
            }
            _ => panic!("sext agg"),
        }
    }

    /// Evaluate under an assignment (missing vars are 0).
    pub fn eval(&self, root: Id, asg: &[u128], memo: &mut HashMap<Id, u128>) -> u128 {
        let mut stack = vec![root];
        while let Some(&id) = stack.last() {
            if memo.contains_key(&id) {
                stack.pop();
                continue;
            }
            let n = self.node(id);
            let w = n.w as u32;
            macro_rules! need {
                ($x:expr) => {
                    match memo.get(&$x) {
                        Some(v) => *v,
                        None => {
                            stack.push($x);
                            continue;
                        }
                    }
                };
            }
            let r = match n.op {
                Op::Const => self.consts[n.a as usize],
                Op::Var => asg.get(n.a as usize).copied().unwrap_or(0) & mask(w),
                Op::Concat => {
                    let lo = need!(n.b);
                    let hi = need!(n.a);
                    (hi << self.w(n.b)) | lo
                }
                Op::Extract => {
                    let a = need!(n.a);
                    (a >> n.b) & mask(w)
                }
                Op::SExt => {
                    let a = need!(n.a);
                    (sext(a, self.w(n.a)) as u128) & mask(w)
                }
                Op::Ite => {
                    let c = need!(n.a);
                    if c & 1 == 1 {
                        need!(n.b)
                    } else {
                        need!(n.c)
                    }
                }
                _ => {
                    let a = need!(n.a);
                    let b = need!(n.b);
                    let iw = self.w(n.a);
                    match Self::fold(n.op, a, b, iw) {
                        Some(r) => r,
                        None => match n.op {
                            // SMT-LIB semantics
                            Op::UDiv => mask(iw),
                            Op::URem => a,
                            Op::SDiv => {
                                if sext(a, iw) < 0 {
                                    1
                                } else {
                                    mask(iw)
                                }
                            }
                            Op::SRem => a,
                            _ => unreachable!(),
                        },
                    }
                }
            };
            memo.insert(id, r);
            stack.pop();
        }
        memo[&root]
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}

fn runs(k: u128, w: u32) -> u32 {
    let mut r = 0;
    let mut prev = 0;
    for i in 0..w {
        let b = (k >> i) & 1;
        if b == 1 && prev == 0 {
            r += 1;
        }
        prev = b;
    }
    r
}

//! Parser for the textual LLVM IR emitted by rustc (fat LTO, one module).
use crate::expr::{mask, Pred, V};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Arr(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Vec(u64, Rc<Ty>),
    Other,
}
impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 0,
            Ty::Int(w) => {
                let b = (*w as u64 + 7) / 8;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::Ptr => 8,
            Ty::F32 => 4,
            Ty::F64 => 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(f, packed) => {
                let mut o = 0;
                let mut ma = 1;
                for t in f.iter() {
                    let a = if *packed { 1 } else { t.align() };
                    ma = ma.max(a);
                    o = (o + a - 1) / a * a + t.size();
                }
                (o + ma - 1) / ma * ma
            }
            Ty::Vec(n, t) => {
                let bits = n * t.bits() as u64;
                ((bits + 7) / 8).next_power_of_two()
            }
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(f, p) => {
                if *p {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            Ty::Vec(..) => self.size(),
            _ => 1,
        }
    }
    /// scalar width
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            t => panic!("bits of {:?}", t),
        }
    }
    pub fn is_agg(&self) -> bool {
        matches!(self, Ty::Arr(..) | Ty::Struct(..) | Ty::Vec(..))
    }
    pub fn field(&self, i: usize) -> (u64, Ty) {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (j, t) in f.iter().enumerate() {
                    let a = if *packed { 1 } else { t.align() };
                    o = (o + a - 1) / a * a;
                    if j == i {
                        return (o, t.clone());
                    }
                    o += t.size();
                }
                panic!("field out of range")
            }
            Ty::Arr(_, t) | Ty::Vec(_, t) => (i as u64 * t.size(), (**t).clone()),
            t => panic!("field of {:?}", t),
        }
    }
    pub fn nfields(&self) -> usize {
        match self {
            Ty::Struct(f, _) => f.len(),
            Ty::Arr(n, _) | Ty::Vec(n, _) => *n as usize,
            _ => 0,
        }
    }
    pub fn zero(&self) -> V {
        match self {
            Ty::Arr(n, t) | Ty::Vec(n, t) => V::A(Rc::new(vec![t.zero(); *n as usize])),
            Ty::Struct(f, _) => V::A(Rc::new(f.iter().map(|t| t.zero()).collect())),
            _ => V::C(0),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Opd {
    R(u32),
    K(V),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastOp {
    Trunc,
    ZExt,
    SExt,
    Bit,
    FpToUi,
    FpToSi,
    UiToFp,
    SiToFp,
    FpExt,
    FpTrunc,
}
#[derive(Clone, Debug)]
pub enum Callee {
    F(u32),
    Ind(Opd),
    Asm,
}
#[derive(Clone, Debug)]
pub enum Inst {
    Bin(BinOp, Ty, Opd, Opd, u32),
    Icmp(Pred, Ty, Opd, Opd, u32),
    Fcmp(String, Ty, Opd, Opd, u32),
    FNeg(Ty, Opd, u32),
    Cast(CastOp, Ty, Ty, Opd, u32),
    Select(Ty, Opd, Ty, Opd, Opd, u32),
    Alloca(u64, u64, u32),
    Load(Ty, Opd, u32),
    Store(Ty, Opd, Opd),
    Gep(Opd, u64, Vec<(Opd, u32, u64)>, u32),
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(u32, Opd, u32, Vec<(u128, u32)>),
    Ret(Option<Opd>),
    Unreachable,
    Call { callee: Callee, args: Vec<(Opd, Ty)>, ret: Ty, dst: Option<u32>, normal: Option<u32> },
    ExtractValue(Opd, Vec<usize>, u32),
    InsertValue(Ty, Opd, Opd, Vec<usize>, u32),
    ExtractElem(Ty, Opd, Opd, u32, u32),
    InsertElem(Ty, Opd, Opd, Opd, u32, u32),
    Shuffle(Opd, Opd, Vec<Option<usize>>, u32, u32),
    AtomicRmw(String, Ty, Opd, Opd, u32),
    CmpXchg(Ty, Opd, Opd, Opd, u32),
    Freeze(Opd, u32),
    Nop,
    LandingPad,
}

#[derive(Debug)]
pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, Opd)>)>,
    pub insts: Vec<Inst>,
}
#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub id: u32,
    pub params: Vec<u32>,
    pub nregs: usize,
    pub blocks: Vec<Block>,
}

pub struct Global {
    pub addr: u64,
    pub size: u64,
    pub ty: Ty,
    pub init: Option<&'static str>,
    pub align: u64,
    pub constant: bool,
}

pub struct FuncDecl {
    pub name: String,
    pub addr: u64,
    pub text: Option<&'static str>,
    pub parsed: RefCell<Option<Rc<Func>>>,
}

pub struct Module {
    pub funcs: Vec<FuncDecl>,
    pub fmap: HashMap<String, u32>,
    pub globals: Vec<Global>,
    pub gmap: HashMap<String, u32>,
    pub aliases: HashMap<String, String>,
    pub types: HashMap<String, &'static str>,
    pub data_end: u64,
}
pub const FUNC_BASE: u64 = 0x10_0000;
pub const DATA_BASE: u64 = 0x1000_0000;

#[derive(Clone, Copy, Debug, PartialEq)]
enum T<'a> {
    Id(&'a str),
    L(&'a str),
    G(&'a str),
    N(&'a str),
    S(&'a str),
    CS(&'a str),
    P(char),
    Dots,
    Meta,
    Attr,
    End,
}

struct Lx<'a> {
    s: &'a str,
    p: usize,
}
impl<'a> Lx<'a> {
    fn new(s: &'a str) -> Self {
        Lx { s, p: 0 }
    }
    fn peek(&self) -> T<'a> {
        let mut l = Lx { s: self.s, p: self.p };
        l.next()
    }
    fn next(&mut self) -> T<'a> {
        let b = self.s.as_bytes();
        loop {
            while self.p < b.len() && (b[self.p] as char).is_ascii_whitespace() {
                self.p += 1;
            }
            if self.p < b.len() && b[self.p] == b';' {
                while self.p < b.len() && b[self.p] != b'\n' {
                    self.p += 1;
                }
                continue;
            }
            break;
        }
        if self.p >= b.len() {
            return T::End;
        }
        let st = self.p;
        let c = b[self.p];
        let idc = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
        match c {
            b'%' | b'@' => {
                self.p += 1;
                let name;
                if self.p < b.len() && b[self.p] == b'"' {
                    self.p += 1;
                    let q = self.p;
                    while b[self.p] != b'"' {
                        self.p += 1;
                    }
                    name = &self.s[q..self.p];
                    self.p += 1;
                } else {
                    let q = self.p;
                    while self.p < b.len() && idc(b[self.p]) {
                        self.p += 1;
                    }
                    name = &self.s[q..self.p];
                }
                if c == b'%' {
                    T::L(name)
                } else {
                    T::G(name)
                }
            }
            b'!' => {
                // metadata: !name, !123, !{...}, !DIExpression(...), !"..."
                self.p += 1;
                if self.p < b.len() && b[self.p] == b'{' {
                    let mut d = 0;
                    loop {
                        if b[self.p] == b'{' {
                            d += 1;
                        }
                        if b[self.p] == b'}' {
                            d -= 1;
                        }
                        self.p += 1;
                        if d == 0 {
                            break;
                        }
                    }
                } else if self.p < b.len() && b[self.p] == b'"' {
                    self.p += 1;
                    while b[self.p] != b'"' {
                        self.p += 1;
                    }
                    self.p += 1;
                } else {
                    while self.p < b.len() && idc(b[self.p]) {
                        self.p += 1;
                    }
                    if self.p < b.len() && b[self.p] == b'(' {
                        let mut d = 0;
                        loop {
                            if b[self.p] == b'(' {
                                d += 1;
                            }
                            if b[self.p] == b')' {
                                d -= 1;
                            }
                            self.p += 1;
                            if d == 0 {
                                break;
                            }
                        }
                    }
                }
                T::Meta
            }
            b'#' => {
                self.p += 1;
                while self.p < b.len() && idc(b[self.p]) {
                    self.p += 1;
                }
                T::Attr
            }
            b'"' => {
                self.p += 1;
                let q = self.p;
                while b[self.p] != b'"' {
                    self.p += 1;
                }
                let r = &self.s[q..self.p];
                self.p += 1;
                T::S(r)
            }
            b'c' if self.p + 1 < b.len() && b[self.p + 1] == b'"' => {
                self.p += 2;
                let q = self.p;
                while b[self.p] != b'"' {
                    self.p += 1;
                }
                let r = &self.s[q..self.p];
                self.p += 1;
                T::CS(r)
            }
            b'.' if self.s[self.p..].starts_with("...") => {
                self.p += 3;
                T::Dots
            }
            b'0'..=b'9' | b'-' | b'+' => {
                self.p += 1;
                while self.p < b.len() && (idc(b[self.p]) || (b[self.p] == b'+' && (b[self.p - 1] == b'e'))) {
                    self.p += 1;
                }
                T::N(&self.s[st..self.p])
            }
            _ if idc(c) => {
                while self.p < b.len() && idc(b[self.p]) {
                    self.p += 1;
                }
                T::Id(&self.s[st..self.p])
            }
            _ => {
                self.p += 1;
                T::P(c as char)
            }
        }
    }
    fn eat(&mut self, c: char) -> bool {
        if self.peek() == T::P(c) {
            self.next();
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: char) {
        let t = self.next();
        if t != T::P(c) {
            panic!("expected {:?} got {:?} at {:?} in {:?}", c, t, &self.s[self.p.min(self.s.len())..], self.s);
        }
    }
    fn eat_id(&mut self, s: &str) -> bool {
        if self.peek() == T::Id(s) {
            self.next();
            true
        } else {
            false
        }
    }
    fn skip_parens(&mut self) {
        // assumes next is '('
        let mut d = 0;
        loop {
            match self.next() {
                T::P('(') => d += 1,
                T::P(')') => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                T::End => panic!("unbalanced"),
                _ => {}
            }
        }
    }
}

fn is_type_start(t: T) -> bool {
    match t {
        T::Id(s) => {
            matches!(s, "void" | "ptr" | "float" | "double" | "half" | "label" | "metadata" | "token" | "x86_fp80" | "fp128" | "opaque")
                || (s.starts_with('i') && s.len() > 1 && s[1..].bytes().all(|c| c.is_ascii_digit()))
        }
        T::P('{') | T::P('[') | T::P('<') | T::L(_) => true,
        _ => false,
    }
}

impl Module {
    pub fn load(path: &str) -> Module {
        let text: &'static str = Box::leak(std::fs::read_to_string(path).expect("read ll").into_boxed_str());
        let mut m = Module {
            funcs: vec![],
            fmap: HashMap::new(),
            globals: vec![],
            gmap: HashMap::new(),
            aliases: HashMap::new(),
            types: HashMap::new(),
            data_end: DATA_BASE,
        };
        let bytes = text.as_bytes();
        let mut pos = 0;
        let mut gl: Vec<(&'static str, &'static str)> = vec![];
        while pos < bytes.len() {
            let eol = text[pos..].find('\n').map(|i| pos + i).unwrap_or(bytes.len());
            let line = &text[pos..eol];
            if line.starts_with("define ") {
                // up to "\n}"
                let end = text[pos..].find("\n}").map(|i| pos + i + 2).expect("unterminated define");
                let body = &text[pos..end];
                let name = Self::fname(line);
                m.add_func(name, Some(body));
                pos = end;
                continue;
            } else if line.starts_with("declare ") {
                let name = Self::fname(line);
                m.add_func(name, None);
            } else if line.starts_with('@') {
                let mut lx = Lx::new(line);
                if let T::G(n) = lx.next() {
                    lx.expect('=');
                    gl.push((n, &line[lx.p..]));
                }
            } else if line.starts_with('%') {
                let mut lx = Lx::new(line);
                if let T::L(n) = lx.next() {
                    lx.expect('=');
                    let _ = lx.eat_id("type");
                    m.types.insert(n.to_string(), &line[lx.p..]);
                }
            }
            pos = eol + 1;
        }
        // globals
        let mut addr = DATA_BASE;
        for (name, rest) in gl {
            let mut lx = Lx::new(rest);
            let mut external = false;
            let mut kind = "";
            loop {
                match lx.peek() {
                    T::Id(s) if s == "global" || s == "constant" => {
                        lx.next();
                        kind = s;
                        break;
                    }
                    T::Id("alias") => {
                        lx.next();
                        kind = "alias";
                        break;
                    }
                    T::Id(s) => {
                        if s == "external" || s == "extern_weak" {
                            external = true;
                        }
                        lx.next();
                        if lx.peek() == T::P('(') {
                            lx.skip_parens();
                        }
                    }
                    _ => break,
                }
            }
            if kind == "alias" {
                // TY, ptr @target
                let _ = m.ty(&mut lx);
                // an alias of a function
                if lx.peek() == T::P('(') {
                    lx.skip_parens();
                }
                lx.eat(',');
                let _ = m.ty(&mut lx);
                if let T::G(t) = lx.next() {
                    m.aliases.insert(name.to_string(), t.to_string());
                }
                continue;
            }
            let ty = m.ty(&mut lx);
            let size = ty.size();
            let mut align = ty.align().max(1);
            if let Some(i) = rest.rfind(", align ") {
                let d: String = rest[i + 8..].chars().take_while(|c| c.is_ascii_digit()).collect();
                if let Ok(a) = d.parse::<u64>() {
                    align = a;
                }
            }
            addr = (addr + align - 1) / align * align;
            let init = if external { None } else { Some(&rest[lx.p..]) };
            m.gmap.insert(name.to_string(), m.globals.len() as u32);
            m.globals.push(Global { addr, size, ty, init, align, constant: kind == "constant" });
            addr += size.max(1) + 16;
        }
        m.data_end = addr;
        m
    }
    fn fname(line: &str) -> String {
        let at = line.find('@').expect("no name");
        let mut lx = Lx::new(&line[at..]);
        match lx.next() {
            T::G(n) => n.to_string(),
            _ => panic!("bad function line"),
        }
    }
    fn add_func(&mut self, name: String, text: Option<&'static str>) {
        let id = self.funcs.len() as u32;
        self.fmap.insert(name.clone(), id);
        self.funcs.push(FuncDecl {
            name,
            addr: FUNC_BASE + 16 * id as u64,
            text,
            parsed: RefCell::new(None),
        });
    }
    pub fn func_at(&self, addr: u64) -> Option<u32> {
        if addr >= FUNC_BASE && addr < DATA_BASE && (addr - FUNC_BASE) % 16 == 0 {
            let i = (addr - FUNC_BASE) / 16;
            if (i as usize) < self.funcs.len() {
                return Some(i as u32);
            }
        }
        None
    }
    fn resolve_global(&self, n: &str) -> u64 {
        if let Some(i) = self.gmap.get(n) {
            return self.globals[*i as usize].addr;
        }
        if let Some(i) = self.fmap.get(n) {
            return self.funcs[*i as usize].addr;
        }
        if let Some(a) = self.aliases.get(n) {
            return self.resolve_global(a);
        }
        panic!("unknown global @{}", n)
    }

    fn ty(&self, lx: &mut Lx) -> Ty {
        let t = lx.next();
        let base = match t {
            T::Id("void") => Ty::Void,
            T::Id("ptr") => {
                if lx.eat_id("addrspace") {
                    lx.skip_parens();
                }
                Ty::Ptr
            }
            T::Id("float") => Ty::F32,
            T::Id("double") => Ty::F64,
            T::Id("label") | T::Id("metadata") | T::Id("token") | T::Id("half") | T::Id("x86_fp80") | T::Id("fp128")
            | T::Id("opaque") => Ty::Other,
            T::Id(s) if s.starts_with('i') => Ty::Int(s[1..].parse().unwrap_or_else(|_| panic!("type {}", s))),
            T::P('[') => {
                let n = match lx.next() {
                    T::N(n) => n.parse::<u64>().unwrap(),
                    t => panic!("arr len {:?}", t),
                };
                assert!(lx.eat_id("x"));
                let e = self.ty(lx);
                lx.expect(']');
                Ty::Arr(n, Rc::new(e))
            }
            T::P('{') => {
                let mut f = vec![];
                if !lx.eat('}') {
                    loop {
                        f.push(self.ty(lx));
                        if lx.eat(',') {
                            continue;
                        }
                        lx.expect('}');
                        break;
                    }
                }
                Ty::Struct(Rc::new(f), false)
            }
            T::P('<') => {
                if lx.eat('{') {
                    let mut f = vec![];
                    if !lx.eat('}') {
                        loop {
                            f.push(self.ty(lx));
                            if lx.eat(',') {
                                continue;
                            }
                            lx.expect('}');
                            break;
                        }
                    }
                    lx.expect('>');
                    Ty::Struct(Rc::new(f), true)
                } else {
                    let n = match lx.next() {
                        T::N(n) => n.parse::<u64>().unwrap(),
                        t => panic!("vec len {:?}", t),
                    };
                    assert!(lx.eat_id("x"));
                    let e = self.ty(lx);
                    lx.expect('>');
                    Ty::Vec(n, Rc::new(e))
                }
            }
            T::L(n) => {
                let d = self.types.get(n).unwrap_or_else(|| panic!("named type {}", n));
                let mut l2 = Lx::new(d);
                self.ty(&mut l2)
            }
            t => panic!("type start {:?} in {}", t, &lx.s[..lx.s.len().min(300)]),
        };
        base
    }

    /// constant of given type
    fn konst(&self, lx: &mut Lx, ty: &Ty) -> V {
        let t = lx.next();
        match t {
            T::N(n) => match ty {
                Ty::Int(w) => {
                    if let Some(r) = n.strip_prefix('-') {
                        let v: u128 = r.parse().unwrap();
                        V::C(v.wrapping_neg() & mask(*w))
                    } else {
                        V::C(n.parse::<u128>().unwrap_or_else(|_| panic!("int {}", n)) & mask(*w))
                    }
                }
                Ty::F32 => {
                    let d = parse_float(n);
                    V::C((d as f32).to_bits() as u128)
                }
                Ty::F64 => V::C(parse_float(n).to_bits() as u128),
                t => panic!("num for type {:?}", t),
            },
            T::Id("true") => V::C(1),
            T::Id("false") => V::C(0),
            T::Id("null") | T::Id("none") => V::C(0),
            T::Id("undef") | T::Id("poison") | T::Id("zeroinitializer") => ty.zero(),
            T::Id(s) if s.starts_with("f0x") => match ty {
                Ty::F32 | Ty::F64 => V::C(u128::from_str_radix(&s[3..], 16).unwrap()),
                _ => panic!("f0x"),
            },
            T::CS(s) => {
                let mut out = vec![];
                let b = s.as_bytes();
                let mut i = 0;
                while i < b.len() {
                    if b[i] == b'\\' {
                        if b[i + 1] == b'\\' {
                            out.push(V::C(b'\\' as u128));
                            i += 2;
                            continue;
                        }
                        let h = u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap();
                        out.push(V::C(h as u128));
                        i += 3;
                    } else {
                        out.push(V::C(b[i] as u128));
                        i += 1;
                    }
                }
                V::A(Rc::new(out))
            }
            T::G(n) => V::C(self.resolve_global(n) as u128),
            T::P('{') | T::P('[') => {
                let close = if t == T::P('{') { '}' } else { ']' };
                V::A(Rc::new(self.klist(lx, close)))
            }
            T::P('<') => {
                if lx.eat('{') {
                    let r = self.klist(lx, '}');
                    lx.expect('>');
                    V::A(Rc::new(r))
                } else {
                    V::A(Rc::new(self.klist(lx, '>')))
                }
            }
            T::Id("splat") => {
                lx.expect('(');
                let et = self.ty(lx);
                let v = self.konst(lx, &et);
                lx.expect(')');
                V::A(Rc::new(vec![v; ty.nfields()]))
            }
            T::Id("getelementptr") => {
                loop {
                    match lx.peek() {
                        T::Id("inrange") => {
                            lx.next();
                            lx.skip_parens();
                        }
                        T::Id(_) => {
                            lx.next();
                        }
                        _ => break,
                    }
                }
                lx.expect('(');
                let bt = self.ty(lx);
                lx.expect(',');
                let pt = self.ty(lx);
                let base = self.konst(lx, &pt).c().unwrap() as u64;
                let mut cur = bt;
                let mut off = 0u64;
                let mut first = true;
                while lx.eat(',') {
                    let it = self.ty(lx);
                    let iv = self.konst(lx, &it).c().unwrap();
                    let iv = crate::expr::sext(iv, it.bits()) as i64;
                    if first {
                        off = off.wrapping_add((cur.size() as i64).wrapping_mul(iv) as u64);
                        first = false;
                    } else {
                        let (o, t) = match &cur {
                            Ty::Arr(_, t) | Ty::Vec(_, t) => ((t.size() as i64 * iv) as u64, (**t).clone()),
                            _ => cur.field(iv as usize),
                        };
                        off = off.wrapping_add(o);
                        cur = t;
                    }
                }
                lx.expect(')');
                V::C(base.wrapping_add(off) as u128)
            }
            T::Id(op @ ("inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "addrspacecast")) => {
                lx.expect('(');
                let it = self.ty(lx);
                let v = self.konst(lx, &it);
                assert!(lx.eat_id("to"));
                let tt = self.ty(lx);
                lx.expect(')');
                let _ = op;
                match v {
                    V::C(c) => V::C(c & mask(tt.bits())),
                    v => v,
                }
            }
            T::Id(op @ ("add" | "sub" | "xor" | "mul")) => {
                while let T::Id("nuw" | "nsw") = lx.peek() {
                    lx.next();
                }
                lx.expect('(');
                let it = self.ty(lx);
                let a = self.konst(lx, &it).c().unwrap();
                lx.expect(',');
                let it2 = self.ty(lx);
                let b = self.konst(lx, &it2).c().unwrap();
                lx.expect(')');
                let r = match op {
                    "add" => a.wrapping_add(b),
                    "sub" => a.wrapping_sub(b),
                    "mul" => a.wrapping_mul(b),
                    _ => a ^ b,
                };
                V::C(r & mask(it.bits()))
            }
            t => panic!("constant {:?} for {:?} in {}", t, ty, &lx.s[..lx.s.len().min(400)]),
        }
    }
    fn klist(&self, lx: &mut Lx, close: char) -> Vec<V> {
        let mut v = vec![];
        if lx.eat(close) {
            return v;
        }
        loop {
            let t = self.ty(lx);
            v.push(self.konst(lx, &t));
            if lx.eat(',') {
                continue;
            }
            lx.expect(close);
            return v;
        }
    }
    pub fn global_init(&self, i: usize) -> V {
        let g = &self.globals[i];
        match g.init {
            None => g.ty.zero(),
            Some(s) => {
                let mut lx = Lx::new(s);
                self.konst(&mut lx, &g.ty)
            }
        }
    }

    pub fn func(&self, id: u32) -> Option<Rc<Func>> {
        let fd = &self.funcs[id as usize];
        if let Some(f) = fd.parsed.borrow().as_ref() {
            return Some(f.clone());
        }
        let text = fd.text?;
        let f = Rc::new(self.parse_func(id, &fd.name, text));
        *fd.parsed.borrow_mut() = Some(f.clone());
        Some(f)
    }

    fn parse_func(&self, id: u32, name: &str, text: &'static str) -> Func {
        let mut p = FP { m: self, regs: HashMap::new(), labels: HashMap::new(), nlab: 0 };
        // header
        let at = text.find('@').unwrap();
        let mut lx = Lx::new(text);
        lx.p = at;
        lx.next();
        lx.expect('(');
        let mut params = vec![];
        let mut unnamed = 0;
        if !lx.eat(')') {
            loop {
                if lx.peek() == T::Dots {
                    lx.next();
                } else {
                    let _t = self.ty(&mut lx);
                    p.skip_attrs(&mut lx);
                    if let T::L(n) = lx.peek() {
                        lx.next();
                        let r = p.reg(n);
                        params.push(r);
                        if n.bytes().all(|c| c.is_ascii_digit()) {
                            unnamed += 1;
                        }
                    } else {
                        let nm = unnamed.to_string();
                        let r = p.reg(&nm);
                        params.push(r);
                        unnamed += 1;
                    }
                }
                if lx.eat(',') {
                    continue;
                }
                lx.expect(')');
                break;
            }
        }
        // skip to '{' at end of a line
        let body_start = {
            let rest = &text[lx.p..];
            let i = rest.find("{\n").expect("body");
            lx.p + i + 2
        };
        let body = &text[body_start..text.len() - 1];
        // first pass: split into logical lines
        let mut lines: Vec<String> = vec![];
        let mut acc: Option<(String, bool)> = None;
        for raw in body.lines() {
            let l = raw.trim_end();
            let tl = l.trim_start();
            if tl.is_empty() || tl.starts_with(';') {
                continue;
            }
            if let Some((mut s, sw)) = acc.take() {
                s.push(' ');
                s.push_str(tl);
                if sw {
                    if tl.starts_with(']') {
                        lines.push(s);
                    } else {
                        acc = Some((s, sw));
                    }
                } else {
                    lines.push(s);
                }
                continue;
            }
            if tl.starts_with("switch ") && !tl.contains(']') {
                acc = Some((tl.to_string(), true));
                continue;
            }
            if tl.contains("invoke ") && (tl.starts_with("invoke ") || tl.contains("= invoke ")) && !tl.contains(" unwind label ") {
                acc = Some((tl.to_string(), false));
                continue;
            }
            if raw.starts_with("    ") && (tl.starts_with("cleanup") || tl.starts_with("catch") || tl.starts_with("filter")) {
                continue;
            }
            lines.push(l.to_string());
        }
        let mut blocks: Vec<(u32, Block)> = vec![];
        let mut cur: Option<(u32, Block)> = None;
        for l in &lines {
            if !l.starts_with(' ') && !l.starts_with('}') {
                // label or (joined) instruction: joined ones start w/o space too
                let lab = label_of(l);
                if let Some(lb) = lab {
                    if let Some(b) = cur.take() {
                        blocks.push(b);
                    }
                    let li = p.label(lb);
                    cur = Some((li, Block { phis: vec![], insts: vec![] }));
                    continue;
                }
            }
            if cur.is_none() {
                // implicit entry label: number = unnamed params count
                let li = p.label(&unnamed.to_string());
                cur = Some((li, Block { phis: vec![], insts: vec![] }));
            }
            let b = &mut cur.as_mut().unwrap().1;
            p.inst(l, b);
        }
        if let Some(b) = cur.take() {
            blocks.push(b);
        }
        // remap labels to order
        let mut map: HashMap<u32, u32> = HashMap::new();
        for (i, (l, _)) in blocks.iter().enumerate() {
            map.insert(*l, i as u32);
        }
        let mut bl: Vec<Block> = blocks.into_iter().map(|x| x.1).collect();
        let mp = |l: &mut u32| *l = *map.get(l).unwrap_or_else(|| panic!("label missing in {}", name));
        for b in bl.iter_mut() {
            for (_, inc) in b.phis.iter_mut() {
                for (l, _) in inc.iter_mut() {
                    mp(l);
                }
            }
            for i in b.insts.iter_mut() {
                match i {
                    Inst::Br(l) => mp(l),
                    Inst::CondBr(_, a, c) => {
                        mp(a);
                        mp(c);
                    }
                    Inst::Switch(_, _, d, cs) => {
                        mp(d);
                        for (_, l) in cs {
                            mp(l);
                        }
                    }
                    Inst::Call { normal: Some(l), .. } => mp(l),
                    _ => {}
                }
            }
        }
        Func { name: name.to_string(), id, params, nregs: p.regs.len(), blocks: bl }
    }
}

fn parse_float(n: &str) -> f64 {
    if let Some(h) = n.strip_prefix("0x") {
        f64::from_bits(u64::from_str_radix(h, 16).unwrap())
    } else {
        n.parse::<f64>().unwrap()
    }
}

fn label_of(l: &str) -> Option<&str> {
    if l.starts_with('"') {
        let e = l[1..].find('"')? + 1;
        if l[e + 1..].starts_with(':') {
            return Some(&l[1..e]);
        }
        return None;
    }
    let e = l.find(':')?;
    let n = &l[..e];
    if n.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-') {
        Some(n)
    } else {
        None
    }
}

struct FP<'a> {
    m: &'a Module,
    regs: HashMap<String, u32>,
    labels: HashMap<String, u32>,
    nlab: u32,
}
impl<'a> FP<'a> {
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(r) = self.regs.get(n) {
            return *r;
        }
        let r = self.regs.len() as u32;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn label(&mut self, n: &str) -> u32 {
        if let Some(r) = self.labels.get(n) {
            return *r;
        }
        let r = self.nlab;
        self.nlab += 1;
        self.labels.insert(n.to_string(), r);
        r
    }
    fn skip_attrs(&self, lx: &mut Lx) {
        loop {
            match lx.peek() {
                T::Id(s) => {
                    // constants keywords stop
                    if matches!(
                        s,
                        "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "getelementptr" | "inttoptr"
                            | "ptrtoint" | "bitcast" | "splat" | "add" | "sub" | "xor" | "mul" | "trunc" | "asm" | "blockaddress"
                            | "addrspacecast"
                    ) || s.starts_with("f0x")
                    {
                        return;
                    }
                    lx.next();
                    if s == "align" {
                        if let T::N(_) = lx.peek() {
                            lx.next();
                            continue;
                        }
                    }
                    if lx.peek() == T::P('(') {
                        lx.skip_parens();
                    }
                }
                T::S(_) => {
                    // string attribute "k"="v"
                    lx.next();
                    if lx.eat('=') {
                        lx.next();
                    }
                }
                T::Attr => {
                    lx.next();
                }
                _ => return,
            }
        }
    }
    fn opd(&mut self, lx: &mut Lx, ty: &Ty) -> Opd {
        if let T::L(n) = lx.peek() {
            lx.next();
            return Opd::R(self.reg(n));
        }
        if *ty == Ty::Other {
            // metadata etc.
            match lx.peek() {
                T::Meta => {
                    lx.next();
                }
                _ => {
                    if is_type_start(lx.peek()) {
                        let t = self.m.ty(lx);
                        let _ = self.opd(lx, &t);
                    } else {
                        lx.next();
                    }
                }
            }
            return Opd::K(V::C(0));
        }
        Opd::K(self.m.konst(lx, ty))
    }
    fn tyopd(&mut self, lx: &mut Lx) -> (Ty, Opd) {
        let t = self.m.ty(lx);
        let o = self.opd(lx, &t);
        (t, o)
    }
    fn lab(&mut self, lx: &mut Lx) -> u32 {
        assert!(lx.eat_id("label"));
        match lx.next() {
            T::L(n) => self.label(n),
            t => panic!("label {:?}", t),
        }
    }
    fn inst(&mut self, line: &str, b: &mut Block) {
        let mut lx = Lx::new(line);
        let mut dst = None;
        if let T::L(n) = lx.peek() {
            lx.next();
            lx.expect('=');
            dst = Some(self.reg(n));
        }
        let op = match lx.next() {
            T::Id(s) => s,
            t => panic!("inst {:?} in {}", t, line),
        };
        let m = self.m;
        let i = match op {
            "add" | "sub" | "mul" | "udiv" | "urem" | "sdiv" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" | "fadd"
            | "fsub" | "fmul" | "fdiv" | "frem" => {
                while let T::Id(s) = lx.peek() {
                    if is_type_start(T::Id(s)) {
                        break;
                    }
                    lx.next();
                }
                let t = m.ty(&mut lx);
                let a = self.opd(&mut lx, &t);
                lx.expect(',');
                let c = self.opd(&mut lx, &t);
                let o = match op {
                    "add" => BinOp::Add,
                    "sub" => BinOp::Sub,
                    "mul" => BinOp::Mul,
                    "udiv" => BinOp::UDiv,
                    "urem" => BinOp::URem,
                    "sdiv" => BinOp::SDiv,
                    "srem" => BinOp::SRem,
                    "shl" => BinOp::Shl,
                    "lshr" => BinOp::LShr,
                    "ashr" => BinOp::AShr,
                    "and" => BinOp::And,
                    "or" => BinOp::Or,
                    "xor" => BinOp::Xor,
                    "fadd" => BinOp::FAdd,
                    "fsub" => BinOp::FSub,
                    "fmul" => BinOp::FMul,
                    "fdiv" => BinOp::FDiv,
                    _ => BinOp::FRem,
                };
                Inst::Bin(o, t, a, c, dst.unwrap())
            }
            "fneg" => {
                while let T::Id(s) = lx.peek() {
                    if is_type_start(T::Id(s)) {
                        break;
                    }
                    lx.next();
                }
                let (t, a) = self.tyopd(&mut lx);
                Inst::FNeg(t, a, dst.unwrap())
            }
            "icmp" => {
                let mut pred = "";
                while let T::Id(s) = lx.peek() {
                    if is_type_start(T::Id(s)) {
                        break;
                    }
                    lx.next();
                    pred = s;
                }
                let t = m.ty(&mut lx);
                let a = self.opd(&mut lx, &t);
                lx.expect(',');
                let c = self.opd(&mut lx, &t);
                let p = match pred {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    s => panic!("pred {}", s),
                };
                Inst::Icmp(p, t, a, c, dst.unwrap())
            }
            "fcmp" => {
                let mut pred = "";
                while let T::Id(s) = lx.peek() {
                    if is_type_start(T::Id(s)) {
                        break;
                    }
                    lx.next();
                    pred = s;
                }
                let t = m.ty(&mut lx);
                let a = self.opd(&mut lx, &t);
                lx.expect(',');
                let c = self.opd(&mut lx, &t);
                Inst::Fcmp(pred.to_string(), t, a, c, dst.unwrap())
            }
            "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "ptrtoaddr" | "inttoptr" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "fpext"
            | "fptrunc" | "addrspacecast" => {
                while let T::Id(s) = lx.peek() {
                    if is_type_start(T::Id(s)) {
                        break;
                    }
                    lx.next();
                }
                let (t, a) = self.tyopd(&mut lx);
                assert!(lx.eat_id("to"), "{}", line);
                let tt = m.ty(&mut lx);
                let c = match op {
                    "trunc" => CastOp::Trunc,
                    "zext" => CastOp::ZExt,
                    "sext" => CastOp::SExt,
                    "fptoui" => CastOp::FpToUi,
                    "fptosi" => CastOp::FpToSi,
                    "uitofp" => CastOp::UiToFp,
                    "sitofp" => CastOp::SiToFp,
                    "fpext" => CastOp::FpExt,
                    "fptrunc" => CastOp::FpTrunc,
                    "ptrtoint" | "inttoptr" | "ptrtoaddr" => {
                        if t.bits() > tt.bits() {
                            CastOp::Trunc
                        } else if t.bits() < tt.bits() {
                            CastOp::ZExt
                        } else {
                            CastOp::Bit
                        }
                    }
                    _ => CastOp::Bit,
                };
                Inst::Cast(c, t, tt, a, dst.unwrap())
            }
            "select" => {
                while let T::Id(s) = lx.peek() {
                    if is_type_start(T::Id(s)) {
                        break;
                    }
                    lx.next();
                }
                let (ct, c) = self.tyopd(&mut lx);
                lx.expect(',');
                let (t, a) = self.tyopd(&mut lx);
                lx.expect(',');
                let (_, e) = self.tyopd(&mut lx);
                Inst::Select(ct, c, t, a, e, dst.unwrap())
            }
            "alloca" => {
                while let T::Id("inalloca" | "swifterror") = lx.peek() {
                    lx.next();
                }
                let t = m.ty(&mut lx);
                let mut align = t.align();
                let mut n = 1;
                while lx.eat(',') {
                    if lx.eat_id("align") {
                        if let T::N(a) = lx.next() {
                            align = a.parse().unwrap();
                        }
                    } else if is_type_start(lx.peek()) {
                        let (_, o) = self.tyopd(&mut lx);
                        if let Opd::K(V::C(c)) = o {
                            n = c as u64;
                        } else {
                            panic!("dynamic alloca");
                        }
                    } else {
                        break;
                    }
                }
                Inst::Alloca(t.size() * n, align, dst.unwrap())
            }
            "load" => {
                while let T::Id("atomic" | "volatile") = lx.peek() {
                    lx.next();
                }
                let t = m.ty(&mut lx);
                lx.expect(',');
                let (_, p) = self.tyopd(&mut lx);
                Inst::Load(t, p, dst.unwrap())
            }
            "store" => {
                while let T::Id("atomic" | "volatile") = lx.peek() {
                    lx.next();
                }
                let (t, v) = self.tyopd(&mut lx);
                lx.expect(',');
                let (_, p) = self.tyopd(&mut lx);
                Inst::Store(t, v, p)
            }
            "getelementptr" => {
                loop {
                    match lx.peek() {
                        T::Id("inrange") => {
                            lx.next();
                            lx.skip_parens();
                        }
                        T::Id(s) if !is_type_start(T::Id(s)) => {
                            lx.next();
                        }
                        _ => break,
                    }
                }
                let bt = m.ty(&mut lx);
                lx.expect(',');
                let (pt, base) = self.tyopd(&mut lx);
                assert!(pt == Ty::Ptr, "vector gep");
                let mut cur = bt;
                let mut off = 0u64;
                let mut dyns = vec![];
                let mut first = true;
                while lx.eat(',') {
                    if !is_type_start(lx.peek()) {
                        break;
                    }
                    let (it, iv) = self.tyopd(&mut lx);
                    let scale;
                    if first {
                        scale = cur.size();
                        first = false;
                    } else {
                        match &cur {
                            Ty::Arr(_, t) | Ty::Vec(_, t) => {
                                scale = t.size();
                                let t2 = (**t).clone();
                                cur = t2;
                            }
                            _ => {
                                let k = match iv {
                                    Opd::K(V::C(c)) => c as usize,
                                    _ => panic!("dyn struct idx"),
                                };
                                let (o, t) = cur.field(k);
                                off = off.wrapping_add(o);
                                cur = t;
                                continue;
                            }
                        }
                    }
                    match iv {
                        Opd::K(V::C(c)) => {
                            let s = crate::expr::sext(c, it.bits()) as i64;
                            off = off.wrapping_add((scale as i64).wrapping_mul(s) as u64);
                        }
                        o => dyns.push((o, it.bits(), scale)),
                    }
                }
                Inst::Gep(base, off, dyns, dst.unwrap())
            }
            "phi" => {
                while let T::Id(s) = lx.peek() {
                    if is_type_start(T::Id(s)) {
                        break;
                    }
                    lx.next();
                }
                let t = m.ty(&mut lx);
                let mut inc = vec![];
                loop {
                    lx.expect('[');
                    let o = self.opd(&mut lx, &t);
                    lx.expect(',');
                    let l = match lx.next() {
                        T::L(n) => self.label(n),
                        t => panic!("phi label {:?}", t),
                    };
                    lx.expect(']');
                    inc.push((l, o));
                    if lx.peek() == T::P(',') {
                        lx.next();
                        if lx.peek() == T::P('[') {
                            continue;
                        }
                    }
                    break;
                }
                b.phis.push((dst.unwrap(), inc));
                return;
            }
            "br" => {
                if lx.peek() == T::Id("label") {
                    Inst::Br(self.lab(&mut lx))
                } else {
                    let (_, c) = self.tyopd(&mut lx);
                    lx.expect(',');
                    let a = self.lab(&mut lx);
                    lx.expect(',');
                    let e = self.lab(&mut lx);
                    Inst::CondBr(c, a, e)
                }
            }
            "switch" => {
                let (t, v) = self.tyopd(&mut lx);
                lx.expect(',');
                let d = self.lab(&mut lx);
                lx.expect('[');
                let mut cs = vec![];
                while !lx.eat(']') {
                    let (_, k) = self.tyopd(&mut lx);
                    lx.expect(',');
                    let l = self.lab(&mut lx);
                    if let Opd::K(V::C(c)) = k {
                        cs.push((c, l));
                    } else {
                        panic!("switch const");
                    }
                }
                Inst::Switch(t.bits(), v, d, cs)
            }
            "ret" => {
                let t = m.ty(&mut lx);
                if t == Ty::Void {
                    Inst::Ret(None)
                } else {
                    let o = self.opd(&mut lx, &t);
                    Inst::Ret(Some(o))
                }
            }
            "unreachable" | "resume" => Inst::Unreachable,
            "landingpad" => Inst::LandingPad,
            "fence" => Inst::Nop,
            "freeze" => {
                let (_, o) = self.tyopd(&mut lx);
                Inst::Freeze(o, dst.unwrap())
            }
            "extractvalue" => {
                let (_, o) = self.tyopd(&mut lx);
                let mut idx = vec![];
                while lx.eat(',') {
                    if let T::N(n) = lx.peek() {
                        lx.next();
                        idx.push(n.parse().unwrap());
                    } else {
                        break;
                    }
                }
                Inst::ExtractValue(o, idx, dst.unwrap())
            }
            "insertvalue" => {
                let (t, o) = self.tyopd(&mut lx);
                lx.expect(',');
                let (_, v) = self.tyopd(&mut lx);
                let mut idx = vec![];
                while lx.eat(',') {
                    if let T::N(n) = lx.peek() {
                        lx.next();
                        idx.push(n.parse().unwrap());
                    } else {
                        break;
                    }
                }
                Inst::InsertValue(t, o, v, idx, dst.unwrap())
            }
            "extractelement" => {
                let (t, o) = self.tyopd(&mut lx);
                lx.expect(',');
                let (it, iv) = self.tyopd(&mut lx);
                Inst::ExtractElem(t, o, iv, it.bits(), dst.unwrap())
            }
            "insertelement" => {
                let (t, o) = self.tyopd(&mut lx);
                lx.expect(',');
                let (_, v) = self.tyopd(&mut lx);
                lx.expect(',');
                let (it, iv) = self.tyopd(&mut lx);
                Inst::InsertElem(t, o, v, iv, it.bits(), dst.unwrap())
            }
            "shufflevector" => {
                let (t, a) = self.tyopd(&mut lx);
                lx.expect(',');
                let (_, c) = self.tyopd(&mut lx);
                lx.expect(',');
                let mt = m.ty(&mut lx);
                // mask constants: poison elements must be kept as None
                let n = mt.nfields();
                let mut mk = vec![];
                match lx.peek() {
                    T::Id("zeroinitializer") => mk = vec![Some(0); n],
                    T::Id("poison") | T::Id("undef") => mk = vec![None; n],
                    T::Id("splat") => {
                        let v = m.konst(&mut lx, &mt);
                        if let V::A(v) = v {
                            mk = v.iter().map(|x| Some(x.c().unwrap() as usize)).collect();
                        }
                    }
                    _ => {
                        lx.expect('<');
                        loop {
                            let et = m.ty(&mut lx);
                            if let T::Id("poison" | "undef") = lx.peek() {
                                lx.next();
                                mk.push(None);
                            } else {
                                mk.push(Some(m.konst(&mut lx, &et).c().unwrap() as usize));
                            }
                            if lx.eat(',') {
                                continue;
                            }
                            lx.expect('>');
                            break;
                        }
                    }
                }
                Inst::Shuffle(a, c, mk, t.nfields() as u32, dst.unwrap())
            }
            "atomicrmw" => {
                lx.eat_id("volatile");
                let k = match lx.next() {
                    T::Id(s) => s.to_string(),
                    t => panic!("rmw {:?}", t),
                };
                let (_, p) = self.tyopd(&mut lx);
                lx.expect(',');
                let (t, v) = self.tyopd(&mut lx);
                Inst::AtomicRmw(k, t, p, v, dst.unwrap())
            }
            "cmpxchg" => {
                while let T::Id("weak" | "volatile") = lx.peek() {
                    lx.next();
                }
                let (_, p) = self.tyopd(&mut lx);
                lx.expect(',');
                let (t, c) = self.tyopd(&mut lx);
                lx.expect(',');
                let (_, n) = self.tyopd(&mut lx);
                Inst::CmpXchg(t, p, c, n, dst.unwrap())
            }
            "tail" | "musttail" | "notail" | "call" | "invoke" => {
                if op != "call" && op != "invoke" {
                    assert!(lx.eat_id("call"));
                }
                // skip cc / ret attrs until type
                loop {
                    match lx.peek() {
                        T::Id(s) if !is_type_start(T::Id(s)) => {
                            lx.next();
                            if s == "align" {
                                if let T::N(_) = lx.peek() {
                                    lx.next();
                                    continue;
                                }
                            }
                            if lx.peek() == T::P('(') {
                                lx.skip_parens();
                            }
                        }
                        _ => break,
                    }
                }
                let ret = m.ty(&mut lx);
                // optional function type "(i64, ...)"
                if lx.peek() == T::P('(') {
                    lx.skip_parens();
                }
                let callee = match lx.next() {
                    T::G(n) => {
                        let n2 = m.aliases.get(n).map(|s| s.as_str()).unwrap_or(n);
                        Callee::F(*m.fmap.get(n2).unwrap_or_else(|| panic!("callee {}", n)))
                    }
                    T::L(n) => Callee::Ind(Opd::R(self.reg(n))),
                    T::Id("asm") => {
                        loop {
                            match lx.peek() {
                                T::Id(_) => {
                                    lx.next();
                                }
                                T::S(_) => {
                                    lx.next();
                                    lx.expect(',');
                                    lx.next();
                                    break;
                                }
                                _ => panic!("asm {}", line),
                            }
                        }
                        Callee::Asm
                    }
                    T::Id("null") | T::Id("undef") | T::Id("poison") => Callee::Ind(Opd::K(V::C(0))),
                    T::Id("inttoptr") => {
                        lx.p -= "inttoptr".len();
                        let v = m.konst(&mut lx, &Ty::Ptr);
                        Callee::Ind(Opd::K(v))
                    }
                    t => panic!("callee {:?} in {}", t, line),
                };
                lx.expect('(');
                let mut args = vec![];
                if !lx.eat(')') {
                    loop {
                        let t = m.ty(&mut lx);
                        self.skip_attrs(&mut lx);
                        let o = self.opd(&mut lx, &t);
                        args.push((o, t));
                        if lx.eat(',') {
                            continue;
                        }
                        lx.expect(')');
                        break;
                    }
                }
                let mut normal = None;
                if op == "invoke" {
                    loop {
                        match lx.next() {
                            T::Id("to") => {
                                normal = Some(self.lab(&mut lx));
                                break;
                            }
                            T::P('[') => {
                                while !lx.eat(']') {
                                    lx.next();
                                }
                            }
                            T::End => panic!("invoke without to: {}", line),
                            _ => {}
                        }
                    }
                }
                Inst::Call { callee, args, ret, dst, normal }
            }
            s => panic!("unknown instruction {} in {}", s, line),
        };
        b.insts.push(i);
    }
}

//! Path-forking symbolic interpreter over the IR.
use crate::expr::*;
use crate::ir::*;
use crate::z3::{R, Z3};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone)]
pub struct Obj {
    pub size: u64,
    conc: Vec<u8>,
    sym: Option<Vec<Id>>, // 0 = concrete
    ro: bool,
    heap: bool,
}

pub struct Model {
    pub asg: Vec<u128>,
    memo: RefCell<HashMap<Id, u128>>,
}
impl Model {
    fn new(asg: Vec<u128>) -> Rc<Model> {
        Rc::new(Model { asg, memo: RefCell::new(HashMap::new()) })
    }
}

#[derive(Clone)]
struct Frame {
    f: Rc<Func>,
    blk: u32,
    ip: u32,
    regs: Vec<V>,
    dst: Option<u32>,
    normal: Option<u32>,
    allocas: Vec<u64>,
}

#[derive(Clone, Debug)]
pub struct Input {
    pub var: u32, // u32::MAX: constant
    pub len: u32,
    pub konst: u64,
}

#[derive(Clone)]
pub struct State {
    frames: Vec<Frame>,
    mem: Rc<BTreeMap<u64, Rc<Obj>>>,
    pub pc: Vec<Id>,
    pub model: Rc<Model>,
    pub inputs: Vec<Input>,
    pub observed: Vec<V>,
    next_addr: u64,
    pub steps: u64,
    alloc_limit: u64,
    /// bytes on the heap: now, the most since the last reset, and at the last reset
    heap: [u64; 3],
    alloc_viol: bool,
    forks: u32,
}

#[derive(Debug)]
pub enum Stop {
    Done,
    Kill,
    Panic(String),
    Check(String),
    Steps,
    AllocCut,
    Incon(String),
}

pub struct Violation {
    pub kind: String,
    pub msg: String,
    pub stack: Vec<String>,
    pub inputs: Vec<(u32, Vec<u8>)>,
}
pub struct Sample {
    pub inputs: Vec<(u32, Vec<u8>)>,
    pub observed: Vec<u64>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Ext {
    None,
    Panic,
    FmtWrite,
    Malloc,
    Calloc,
    Realloc,
    Free,
    PosixMemalign,
    Memcmp,
    Strlen,
    Fill,
    Choose,
    Assume,
    Check,
    Observe,
    Reach,
    Param,
    Concrete,
    Stop,
    AllocLimit,
    Memory,
    RandKeys,
    Abort,
    Log,
    Intrinsic,
    Unknown,
}

pub struct Exec {
    pub x: Ctx,
    pub z: Z3,
    pub m: Module,
    ext: Vec<Ext>,
    globals_by_addr: BTreeMap<u64, usize>,
    gcache: HashMap<usize, Rc<Obj>>,
    pub pending: Vec<State>,
    pub params: Vec<u64>,
    pub paths: u64,
    pub killed: u64,
    pub cut_alloc: u64,
    pub forks: u64,
    pub branches: u64,
    pub steps: u64,
    pub reached: BTreeMap<String, u64>,
    pub checks: BTreeMap<String, u64>,
    pub funcs: BTreeSet<u32>,
    pub violations: Vec<Violation>,
    pub samples: Vec<Sample>,
    pub sample_cap: usize,
    pub incon: Vec<String>,
    pub select_mode: u8,
    pub trace_queries: bool,
    pub trace_forks: bool,
    pub max_steps: u64,
    pub deadline: Option<Instant>,
    pub trace: bool,
    pub maxpath_steps: u64,
    pub shard: (u64, u64),
    pub max_viol: usize,
    loop_steps: u64,
}

type Rs<T> = Result<T, Stop>;

impl Exec {
    pub fn new(m: Module, timeout_ms: u32) -> Exec {
        let ext = m
            .funcs
            .iter()
            .map(|f| {
                let n = f.name.as_str();
                if n.starts_with("llvm.") {
                    return Ext::Intrinsic;
                }
                match n {
                    "sx_fill" => return Ext::Fill,
                    "sx_choose" => return Ext::Choose,
                    "sx_assume" => return Ext::Assume,
                    "sx_check" => return Ext::Check,
                    "sx_observe" => return Ext::Observe,
                    "sx_reach" => return Ext::Reach,
                    "sx_param" => return Ext::Param,
                    "sx_concrete" => return Ext::Concrete,
                    "sx_stop" => return Ext::Stop,
                    "sx_alloc_limit" => return Ext::AllocLimit,
                    "sx_memory" => return Ext::Memory,
                    "sx_log" => return Ext::Log,
                    "malloc" => return Ext::Malloc,
                    "calloc" => return Ext::Calloc,
                    "realloc" => return Ext::Realloc,
                    "free" => return Ext::Free,
                    "posix_memalign" => return Ext::PosixMemalign,
                    "bcmp" | "memcmp" => return Ext::Memcmp,
                    "strlen" => return Ext::Strlen,
                    "abort" => return Ext::Abort,
                    _ => {}
                }
                if n.contains("4core9panicking")
                    || n.contains("rust_begin_unwind")
                    || n.contains("3std9panicking")
                    || n.contains("10rust_panic")
                    || n.contains("18handle_alloc_error")
                    || n.contains("26___rust_alloc_error_handler")
                {
                    return Ext::Panic;
                }
                if n.ends_with("4core3fmt5write") {
                    return Ext::FmtWrite;
                }
                if n.contains("hashmap_random_keys") {
                    return Ext::RandKeys;
                }
                if f.text.is_none() {
                    return Ext::Unknown;
                }
                Ext::None
            })
            .collect();
        let globals_by_addr = m.globals.iter().enumerate().map(|(i, g)| (g.addr, i)).collect();
        let mut x = Ctx::new();
        x.konst(0, 1); // id 0 reserved
        Exec {
            x,
            z: Z3::new(timeout_ms),
            m,
            ext,
            globals_by_addr,
            gcache: HashMap::new(),
            pending: vec![],
            params: vec![],
            paths: 0,
            killed: 0,
            cut_alloc: 0,
            forks: 0,
            branches: 0,
            steps: 0,
            reached: BTreeMap::new(),
            checks: BTreeMap::new(),
            funcs: BTreeSet::new(),
            violations: vec![],
            samples: vec![],
            sample_cap: 4,
            incon: vec![],
            select_mode: 0,
            trace_forks: std::env::var_os("SYMEX_FORKS").is_some(),
            trace_queries: std::env::var_os("SYMEX_QUERIES").is_some(),
            max_steps: 50_000_000,
            deadline: None,
            trace: false,
            maxpath_steps: 0,
            shard: (0, 1),
            max_viol: 1,
            loop_steps: 0,
        }
    }

    fn init_global(&mut self, gi: usize) -> Rc<Obj> {
        if let Some(o) = self.gcache.get(&gi) {
            return o.clone();
        }
        let v = self.m.global_init(gi);
        let ty = self.m.globals[gi].ty.clone();
        let size = self.m.globals[gi].size;
        let mut o = Obj { size, conc: vec![0; size as usize], sym: None, ro: self.m.globals[gi].constant, heap: false };
        write_const(&mut o.conc, 0, &ty, &v);
        let r = Rc::new(o);
        self.gcache.insert(gi, r.clone());
        r
    }

    /// object containing address
    fn find(&mut self, st: &State, a: u64) -> Option<(u64, Rc<Obj>)> {
        if let Some((b, o)) = st.mem.range(..=a).next_back() {
            if a < *b + o.size.max(1) {
                return Some((*b, o.clone()));
            }
        }
        if let Some((b, gi)) = self.globals_by_addr.range(..=a).next_back() {
            let (b, gi) = (*b, *gi);
            if a < b + self.m.globals[gi].size.max(1) {
                return Some((b, self.init_global(gi)));
            }
        }
        None
    }

    fn obj_mut<'s>(&mut self, st: &'s mut State, a: u64, len: u64) -> Rs<(u64, &'s mut Obj)> {
        let has = st.mem.range(..=a).next_back().map(|(b, o)| (*b, o.size)).filter(|(b, s)| a + len <= b + s);
        let base = match has {
            Some((b, _)) => b,
            None => {
                // global copy-on-write
                match self.globals_by_addr.range(..=a).next_back().map(|(b, g)| (*b, *g)) {
                    Some((b, gi)) if a + len <= b + self.m.globals[gi].size => {
                        let o = self.init_global(gi);
                        if o.ro {
                            return Err(Stop::Incon(format!("write to constant at {:#x}", a)));
                        }
                        Rc::make_mut(&mut st.mem).insert(b, o);
                        b
                    }
                    _ => return Err(Stop::Incon(format!("write out of bounds at {:#x} len {}", a, len))),
                }
            }
        };
        let o = Rc::make_mut(&mut st.mem).get_mut(&base).unwrap();
        Ok((base, Rc::make_mut(o)))
    }

    fn alloc(&mut self, st: &mut State, size: u64, align: u64, heap: bool) -> u64 {
        if heap {
            st.heap[0] += size;
            st.heap[1] = st.heap[1].max(st.heap[0]);
        }
        let al = align.max(16);
        let a = (st.next_addr + al - 1) / al * al;
        st.next_addr = a + size + 32;
        Rc::make_mut(&mut st.mem).insert(a, Rc::new(Obj { size, conc: vec![0; size as usize], sym: None, ro: false, heap }));
        a
    }

    fn read_bytes(&mut self, st: &State, a: u64, n: u64) -> Rs<Vec<(u8, Id)>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let (b, o) = self.find(st, a).ok_or_else(|| Stop::Incon(format!("read out of bounds at {:#x} len {}", a, n)))?;
        let off = (a - b) as usize;
        if off as u64 + n > o.size {
            return Err(Stop::Incon(format!("read out of bounds at {:#x}+{} len {} size {}", b, off, n, o.size)));
        }
        let mut out = Vec::with_capacity(n as usize);
        for i in off..off + n as usize {
            out.push((o.conc[i], o.sym.as_ref().map(|s| s[i]).unwrap_or(0)));
        }
        Ok(out)
    }
    fn write_bytes(&mut self, st: &mut State, a: u64, d: &[(u8, Id)]) -> Rs<()> {
        if d.is_empty() {
            return Ok(());
        }
        let (b, o) = self.obj_mut(st, a, d.len() as u64)?;
        let off = (a - b) as usize;
        let anysym = d.iter().any(|x| x.1 != 0);
        if anysym && o.sym.is_none() {
            o.sym = Some(vec![0; o.size as usize]);
        }
        for (i, x) in d.iter().enumerate() {
            o.conc[off + i] = x.0;
        }
        if let Some(s) = o.sym.as_mut() {
            for (i, x) in d.iter().enumerate() {
                s[off + i] = x.1;
            }
        }
        Ok(())
    }

    fn load_scalar(&mut self, st: &State, a: u64, w: u32) -> Rs<V> {
        let n = ((w + 7) / 8) as u64;
        let found = st.mem.range(..=a).next_back().map(|(b, o)| (*b, o.clone())).filter(|(b, o)| a + n <= b + o.size);
        let (b, o) = match found {
            Some(x) => x,
            None => {
                let (b, o) = self.find(st, a).ok_or_else(|| Stop::Incon(format!("load out of bounds at {:#x} w {}", a, w)))?;
                if a + n > b + o.size {
                    return Err(Stop::Incon(format!("load out of bounds at {:#x}+{} w {} size {}", b, a - b, w, o.size)));
                }
                (b, o)
            }
        };
        let off = (a - b) as usize;
        let n = n as usize;
        let sym = match &o.sym {
            None => false,
            Some(s) => s[off..off + n].iter().any(|x| *x != 0),
        };
        if !sym {
            let mut v = 0u128;
            for i in (0..n).rev() {
                v = (v << 8) | o.conc[off + i] as u128;
            }
            return Ok(V::C(v & mask(w)));
        }
        let s = o.sym.as_ref().unwrap();
        let mut segs = Vec::with_capacity(n);
        for i in 0..n {
            if s[off + i] != 0 {
                segs.push(s[off + i]);
            } else {
                segs.push(self.x.konst(o.conc[off + i] as u128, 8));
            }
        }
        let mut e = self.x.join_bytes(segs);
        if w % 8 != 0 {
            e = self.x.extract(e, w - 1, 0);
        }
        Ok(self.x.val(e))
    }
    fn load_ty(&mut self, st: &State, a: u64, ty: &Ty) -> Rs<V> {
        if let Ty::Vec(n, t) = ty {
            if t.bits() % 8 != 0 {
                // bit-packed vector of iN
                let total = *n as u32 * t.bits();
                let v = self.load_scalar(st, a, total)?;
                let mut out = vec![];
                for i in 0..*n as u32 {
                    out.push(self.x.extract_v(&v, (i + 1) * t.bits() - 1, i * t.bits()));
                }
                return Ok(V::A(Rc::new(out)));
            }
        }
        if ty.is_agg() {
            let n = ty.nfields();
            let mut out = Vec::with_capacity(n);
            for i in 0..n {
                let (o, t) = ty.field(i);
                out.push(self.load_ty(st, a + o, &t)?);
            }
            return Ok(V::A(Rc::new(out)));
        }
        self.load_scalar(st, a, ty.bits())
    }
    fn scalar_bytes(&mut self, v: &V, w: u32) -> Vec<(u8, Id)> {
        let n = (w + 7) / 8;
        let mut out = Vec::with_capacity(n as usize);
        match v {
            V::C(c) => {
                for i in 0..n {
                    out.push(((c >> (8 * i)) as u8, 0));
                }
            }
            V::E(e) => {
                let e = if w % 8 != 0 { self.x.zext(*e, n * 8) } else { *e };
                for i in 0..n {
                    let b = self.x.raw_byte(e, 8 * i);
                    match self.x.const_val(b) {
                        Some(c) => out.push((c as u8, 0)),
                        None => out.push((0, b)),
                    }
                }
            }
            _ => panic!("scalar_bytes agg"),
        }
        out
    }
    fn store_ty(&mut self, st: &mut State, a: u64, ty: &Ty, v: &V) -> Rs<()> {
        if let Ty::Vec(n, t) = ty {
            if t.bits() % 8 != 0 {
                let bv = self.vec_to_bits(v, *n as u32, t.bits());
                let d = self.scalar_bytes(&bv, *n as u32 * t.bits());
                return self.write_bytes(st, a, &d);
            }
        }
        if ty.is_agg() {
            if let V::A(vs) = v {
                for (i, v) in vs.iter().enumerate() {
                    let (o, t) = ty.field(i);
                    self.store_ty(st, a + o, &t, v)?;
                }
                return Ok(());
            }
            panic!("store agg of scalar");
        }
        let d = self.scalar_bytes(v, ty.bits());
        self.write_bytes(st, a, &d)
    }
    fn vec_to_bits(&mut self, v: &V, n: u32, w: u32) -> V {
        if let V::A(vs) = v {
            let mut segs = vec![];
            for i in 0..n as usize {
                let e = self.x.id(&vs[i], w);
                segs.push(e);
            }
            let e = self.x.concat_list(segs);
            self.x.val(e)
        } else {
            panic!("vec_to_bits")
        }
    }

    // ---------------------------------------------------------------- solver helpers
    fn eval(&self, st: &State, e: Id) -> u128 {
        self.x.eval(e, &st.model.asg, &mut st.model.memo.borrow_mut())
    }
    fn query(&mut self, st: &State, extra: &[Id]) -> Rs<Option<Rc<Model>>> {
        if self.trace_queries {
            let t = std::time::Instant::now();
            let r = self.z.check(&self.x, &st.pc, extra);
            eprintln!("query {:.3} {:?}", t.elapsed().as_secs_f64(), self.stack_names(st).first().map(|s| s.chars().take(90).collect::<String>()));
            return match r {
                (R::Sat, Some(m)) => Ok(Some(Model::new(m))),
                (R::Unsat, _) => Ok(None),
                _ => Err(Stop::Incon("solver gave no answer (timeout)".into())),
            };
        }
        match self.z.check(&self.x, &st.pc, extra) {
            (R::Sat, Some(m)) => Ok(Some(Model::new(m))),
            (R::Unsat, _) => Ok(None),
            _ => Err(Stop::Incon("solver gave no answer (timeout)".into())),
        }
    }
    /// decide a width-1 expr; forks (pushing a sibling that re-executes this instruction) when both feasible
    fn decide(&mut self, st: &mut State, c: Id) -> Rs<bool> {
        if let Some(k) = self.x.const_val(c) {
            return Ok(k == 1);
        }
        self.branches += 1;
        let v = self.eval(st, c) == 1;
        let nc = self.x.not(c);
        let (same, other) = if v { (c, nc) } else { (nc, c) };
        // already asserted?
        if st.pc.contains(&same) {
            return Ok(v);
        }
        match self.query(st, &[other])? {
            None => Ok(v),
            Some(m) => {
                if self.trace_forks {
                    eprintln!("fork {}", self.stack_names(st).into_iter().take(4).collect::<Vec<_>>().join(" < "));
                }
                let mut sib = st.clone();
                sib.pc.push(other);
                sib.model = m;
                sib.forks += 1;
                self.forks += 1;
                self.pending.push(sib);
                st.pc.push(same);
                st.forks += 1;
                Ok(v)
            }
        }
    }
    fn assume(&mut self, st: &mut State, c: Id) -> Rs<()> {
        if let Some(k) = self.x.const_val(c) {
            return if k == 1 { Ok(()) } else { Err(Stop::Kill) };
        }
        if self.eval(st, c) == 1 {
            st.pc.push(c);
            return Ok(());
        }
        match self.query(st, &[c])? {
            None => Err(Stop::Kill),
            Some(m) => {
                st.pc.push(c);
                st.model = m;
                Ok(())
            }
        }
    }
    /// value of an expr; sibling states explore the other feasible values
    fn concretize(&mut self, st: &mut State, e: Id) -> Rs<u128> {
        if let Some(k) = self.x.const_val(e) {
            return Ok(k);
        }
        let v = self.eval(st, e);
        let w = self.x.w(e);
        let k = self.x.konst(v, w);
        let eq = self.x.eq(e, k);
        let ne = self.x.not(eq);
        self.branches += 1;
        if let Some(m) = self.query(st, &[ne])? {
            if self.trace_forks {
                eprintln!("fork {}", self.stack_names(st).into_iter().take(4).collect::<Vec<_>>().join(" < "));
            }
            let mut sib = st.clone();
            sib.pc.push(ne);
            sib.model = m;
            sib.forks += 1;
            self.forks += 1;
            self.pending.push(sib);
            st.pc.push(eq);
            st.forks += 1;
        }
        Ok(v)
    }
    fn cv(&mut self, st: &mut State, v: &V) -> Rs<u128> {
        match v {
            V::C(c) => Ok(*c),
            V::E(e) => self.concretize(st, *e),
            _ => panic!("cv agg"),
        }
    }

    // ---------------------------------------------------------------- registers
    #[inline]
    fn get(&self, st: &State, o: &Opd) -> V {
        match o {
            Opd::R(r) => st.frames.last().unwrap().regs[*r as usize].clone(),
            Opd::K(v) => v.clone(),
        }
    }
    #[inline]
    fn set(&self, st: &mut State, r: u32, v: V) {
        st.frames.last_mut().unwrap().regs[r as usize] = v;
    }
    fn cget(&mut self, st: &mut State, o: &Opd) -> Rs<u128> {
        let v = self.get(st, o);
        let c = self.cv(st, &v)?;
        if let (Opd::R(r), V::E(_)) = (o, &v) {
            self.set(st, *r, V::C(c));
        }
        Ok(c)
    }

    pub fn start(&mut self, name: &str) -> Result<(), String> {
        let id = *self.m.fmap.get(name).ok_or_else(|| format!("no function {}", name))?;
        let f = self.m.func(id).ok_or("function has no body")?;
        let st = State {
            frames: vec![Frame { regs: vec![V::C(0); f.nregs], f, blk: 0, ip: 0, dst: None, normal: None, allocas: vec![] }],
            mem: Rc::new(BTreeMap::new()),
            pc: vec![],
            model: Model::new(vec![]),
            inputs: vec![],
            observed: vec![],
            next_addr: (self.m.data_end + 0x1000_0000) & !0xfff,
            steps: 0,
            alloc_limit: 1 << 20,
            heap: [0; 3],
            alloc_viol: false,
            forks: 0,
        };
        self.pending.push(st);
        Ok(())
    }

    fn stack_names(&self, st: &State) -> Vec<String> {
        st.frames.iter().rev().map(|f| f.f.name.clone()).collect()
    }
    fn concrete_inputs(&self, st: &State, m: &Model) -> Vec<(u32, Vec<u8>)> {
        st.inputs
            .iter()
            .map(|i| {
                let v = if i.var == u32::MAX { i.konst as u128 } else { m.asg.get(i.var as usize).copied().unwrap_or(0) };
                let b = v.to_le_bytes()[..i.len as usize].to_vec();
                (i.len, b)
            })
            .collect()
    }
    fn violation(&mut self, st: &State, m: &Rc<Model>, kind: &str, msg: String) {
        let v = Violation { kind: kind.into(), msg, stack: self.stack_names(st), inputs: self.concrete_inputs(st, m) };
        self.violations.push(v);
    }

    pub fn run(&mut self) {
        while let Some(mut st) = self.pending.pop() {
            let r = self.run_state(&mut st);
            self.maxpath_steps = self.maxpath_steps.max(st.steps);
            match r {
                Stop::Done => {
                    self.paths += 1;
                    if self.samples.len() < self.sample_cap || (self.paths.is_power_of_two() && self.samples.len() < 3 * self.sample_cap) {
                        let obs: Vec<u64> = st
                            .observed
                            .iter()
                            .map(|v| match v {
                                V::C(c) => *c as u64,
                                V::E(e) => self.eval(&st, *e) as u64,
                                _ => 0,
                            })
                            .collect();
                        self.samples.push(Sample { inputs: self.concrete_inputs(&st, &st.model), observed: obs });
                    }
                }
                Stop::Kill => self.killed += 1,
                Stop::AllocCut => self.cut_alloc += 1,
                Stop::Panic(msg) => {
                    self.paths += 1;
                    let m = st.model.clone();
                    self.violation(&st, &m, "panic", msg);
                }
                Stop::Check(msg) => {
                    let m = st.model.clone();
                    self.violation(&st, &m, "check", msg);
                }
                Stop::Steps => {
                    self.paths += 1;
                    let m = st.model.clone();
                    self.violation(&st, &m, "steps", "step limit exceeded (possible non-termination)".into());
                }
                Stop::Incon(s) => {
                    let mut t = s;
                    t.push_str(" in ");
                    t.push_str(&self.stack_names(&st).iter().take(4).cloned().collect::<Vec<_>>().join(" < "));
                    if self.incon.len() < 5 {
                        self.incon.push(t);
                    }
                    if self.violations.is_empty() {
                        return;
                    }
                }
            }
            if self.violations.len() >= self.max_viol {
                return;
            }
            if let Some(d) = self.deadline {
                if Instant::now() > d {
                    if !self.pending.is_empty() {
                        self.incon.push("time limit".into());
                    }
                    return;
                }
            }
        }
    }

    fn run_state(&mut self, st: &mut State) -> Stop {
        loop {
            self.loop_steps += 1;
            if self.loop_steps & 0xffff == 0 {
                if let Some(d) = self.deadline {
                    if Instant::now() > d {
                        return Stop::Incon("time limit".into());
                    }
                }
            }
            match self.step(st) {
                Ok(()) => {}
                Err(s) => return s,
            }
        }
    }

    fn goto(&mut self, st: &mut State, target: u32) -> Rs<()> {
        let fr = st.frames.last_mut().unwrap();
        let from = fr.blk;
        let f = fr.f.clone();
        let phis = &f.blocks[target as usize].phis;
        if !phis.is_empty() {
            let mut vals: Vec<(u32, V)> = Vec::with_capacity(phis.len());
            for (d, inc) in phis {
                let o = &inc.iter().find(|(l, _)| *l == from).expect("phi edge").1;
                let v = match o {
                    Opd::R(r) => fr.regs[*r as usize].clone(),
                    Opd::K(v) => v.clone(),
                };
                vals.push((*d, v));
            }
            for (d, v) in vals {
                fr.regs[d as usize] = v;
            }
        }
        fr.blk = target;
        fr.ip = 0;
        Ok(())
    }

    fn step(&mut self, st: &mut State) -> Rs<()> {
        st.steps += 1;
        self.steps += 1;
        if st.steps > self.max_steps {
            return Err(Stop::Steps);
        }
        let fr = st.frames.last().unwrap();
        let f = fr.f.clone();
        let inst = &f.blocks[fr.blk as usize].insts[fr.ip as usize];
        match inst {
            Inst::Bin(op, ty, a, b, d) => {
                let x = self.get(st, a);
                let y = self.get(st, b);
                let v = self.binop(st, *op, ty, &x, &y)?;
                self.set(st, *d, v);
            }
            Inst::Icmp(p, ty, a, b, d) => {
                let x = self.get(st, a);
                let y = self.get(st, b);
                let v = match ty {
                    Ty::Vec(_, t) => self.vmap2(&x, &y, |s, p1, q| s.x.icmp(*p, p1, q, t.bits())),
                    _ => self.x.icmp(*p, &x, &y, ty.bits()),
                };
                self.set(st, *d, v);
            }
            Inst::Fcmp(p, ty, a, b, d) => {
                let x = self.get(st, a);
                let y = self.get(st, b);
                let v = self.fcmp(p, ty, &x, &y);
                self.set(st, *d, v);
            }
            Inst::FNeg(ty, a, d) => {
                let x = self.get(st, a);
                let w = ty.bits();
                let v = self.x.bin(Op::Xor, &x, &V::C(1u128 << (w - 1)), w);
                self.set(st, *d, v);
            }
            Inst::Cast(op, ft, tt, a, d) => {
                let x = self.get(st, a);
                let v = self.cast(st, *op, ft, tt, &x)?;
                self.set(st, *d, v);
            }
            Inst::Select(ct, c, ty, a, b, d) => {
                let cv = self.get(st, c);
                let x = self.get(st, a);
                let y = self.get(st, b);
                let v = if let Ty::Vec(n, _) = ct {
                    let (cv, x, y) = (agg(&cv), agg(&x), agg(&y));
                    let ew = ty.field(0).1.bits();
                    let mut out = vec![];
                    for i in 0..*n as usize {
                        out.push(self.x.ite(&cv[i], &x[i], &y[i], ew));
                    }
                    V::A(Rc::new(out))
                } else {
                    let cv = self.settle(st, &cv)?;
                    self.select(&cv, ty, &x, &y)
                };
                self.set(st, *d, v);
            }
            Inst::Alloca(size, align, d) => {
                let a = self.alloc(st, *size, *align, false);
                st.frames.last_mut().unwrap().allocas.push(a);
                self.set(st, *d, V::C(a as u128));
            }
            Inst::Load(ty, p, d) => {
                let pv = self.get(st, p);
                let v = match pv {
                    V::C(a) => self.load_ty(st, a as u64, ty)?,
                    V::E(e) => self.load_sym(st, e, ty, p)?,
                    _ => panic!(),
                };
                self.set(st, *d, v);
            }
            Inst::Store(ty, v, p) => {
                let val = self.get(st, v);
                let pv = self.get(st, p);
                match pv {
                    V::C(a) => self.store_ty(st, a as u64, ty, &val)?,
                    V::E(e) => self.store_sym(st, e, ty, &val, p)?,
                    _ => panic!(),
                }
            }
            Inst::Gep(base, off, dyns, d) => {
                let mut v = self.get(st, base);
                if *off != 0 {
                    v = self.x.bin(Op::Add, &v, &V::C(*off as u128), 64);
                }
                for (o, w, scale) in dyns {
                    let i = self.get(st, o);
                    let i = if *w < 64 { self.x.sext_v(&i, *w, 64) } else { i };
                    let t = self.x.bin(Op::Mul, &i, &V::C(*scale as u128), 64);
                    v = self.x.bin(Op::Add, &v, &t, 64);
                }
                self.set(st, *d, v);
            }
            Inst::Br(l) => return self.goto(st, *l),
            Inst::CondBr(c, a, b) => {
                let cv = self.get(st, c);
                let t = match cv {
                    V::C(k) => k & 1 == 1,
                    V::E(e) => self.decide(st, e)?,
                    _ => panic!(),
                };
                return self.goto(st, if t { *a } else { *b });
            }
            Inst::Switch(w, v, dflt, cases) => {
                let x = self.get(st, v);
                match x {
                    V::C(k) => {
                        let t = cases.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(*dflt);
                        return self.goto(st, t);
                    }
                    V::E(e) => {
                        // pick the branch the model takes, then test whether any other is feasible
                        let k = self.eval(st, e);
                        if let Some(c) = cases.iter().find(|c| c.0 == k) {
                            // group cases by target
                            let tgt = c.1;
                            let mut cond = self.x.konst(0, 1);
                            if tgt == *dflt {
                                let kk = self.x.konst(k, *w);
                                cond = self.x.eq(e, kk);
                            } else {
                                for c in cases.iter().filter(|c| c.1 == tgt) {
                                    let kk = self.x.konst(c.0, *w);
                                    let q = self.x.eq(e, kk);
                                    cond = self.x.mk_bin(Op::Or, cond, q);
                                }
                            }
                            self.decide(st, cond)?;
                            return self.goto(st, tgt);
                        }
                        let mut cond = self.x.konst(1, 1);
                        for c in cases {
                            let kk = self.x.konst(c.0, *w);
                            let q = self.x.eq(e, kk);
                            let nq = self.x.not(q);
                            cond = self.x.mk_bin(Op::And, cond, nq);
                        }
                        self.decide(st, cond)?;
                        return self.goto(st, *dflt);
                    }
                    _ => panic!(),
                }
            }
            Inst::Ret(v) => {
                let val = v.as_ref().map(|o| self.get(st, o));
                let fr = st.frames.pop().unwrap();
                if !fr.allocas.is_empty() {
                    let mem = Rc::make_mut(&mut st.mem);
                    for a in fr.allocas {
                        mem.remove(&a);
                    }
                }
                if st.frames.is_empty() {
                    return Err(Stop::Done);
                }
                if let (Some(d), Some(v)) = (fr.dst, val) {
                    self.set(st, d, v);
                }
                match fr.normal {
                    Some(n) => return self.goto(st, n),
                    None => {
                        st.frames.last_mut().unwrap().ip += 1;
                        return Ok(());
                    }
                }
            }
            Inst::Unreachable => return Err(Stop::Incon("reached unreachable".into())),
            Inst::LandingPad => return Err(Stop::Incon("reached landingpad".into())),
            Inst::Nop => {}
            Inst::Freeze(o, d) => {
                let v = self.get(st, o);
                self.set(st, *d, v);
            }
            Inst::ExtractValue(o, idx, d) => {
                let mut v = self.get(st, o);
                for i in idx {
                    let n = agg(&v)[*i].clone();
                    v = n;
                }
                self.set(st, *d, v);
            }
            Inst::InsertValue(_, o, v, idx, d) => {
                let mut a = self.get(st, o);
                let v = self.get(st, v);
                insert(&mut a, idx, v);
                self.set(st, *d, a);
            }
            Inst::ExtractElem(_, o, i, _, d) => {
                let k = self.cget(st, i)? as usize;
                let v = self.get(st, o);
                let r = agg(&v).get(k).cloned().unwrap_or(V::C(0));
                self.set(st, *d, r);
            }
            Inst::InsertElem(_, o, v, i, _, d) => {
                let k = self.cget(st, i)? as usize;
                let mut a = self.get(st, o);
                let v = self.get(st, v);
                insert(&mut a, &[k], v);
                self.set(st, *d, a);
            }
            Inst::Shuffle(a, b, mk, n, d) => {
                let x = self.get(st, a);
                let y = self.get(st, b);
                let (x, y) = (agg(&x), agg(&y));
                let n = *n as usize;
                let out = mk
                    .iter()
                    .map(|m| match m {
                        None => V::C(0),
                        Some(i) if *i < n => x[*i].clone(),
                        Some(i) => y[*i - n].clone(),
                    })
                    .collect();
                self.set(st, *d, V::A(Rc::new(out)));
            }
            Inst::AtomicRmw(k, ty, p, v, d) => {
                let a = self.cget(st, p)? as u64;
                let v = self.get(st, v);
                let old = self.load_ty(st, a, ty)?;
                let w = ty.bits();
                let nv = match k.as_str() {
                    "xchg" => v,
                    "add" => self.x.bin(Op::Add, &old, &v, w),
                    "sub" => self.x.bin(Op::Sub, &old, &v, w),
                    "and" => self.x.bin(Op::And, &old, &v, w),
                    "or" => self.x.bin(Op::Or, &old, &v, w),
                    "xor" => self.x.bin(Op::Xor, &old, &v, w),
                    s => return Err(Stop::Incon(format!("atomicrmw {}", s))),
                };
                self.store_ty(st, a, ty, &nv)?;
                self.set(st, *d, old);
            }
            Inst::CmpXchg(ty, p, c, n, d) => {
                let a = self.cget(st, p)? as u64;
                let c = self.get(st, c);
                let n = self.get(st, n);
                let old = self.load_ty(st, a, ty)?;
                let w = ty.bits();
                let eq = self.x.icmp(Pred::Eq, &old, &c, w);
                let nv = self.x.ite(&eq, &n, &old, w);
                self.store_ty(st, a, ty, &nv)?;
                self.set(st, *d, V::A(Rc::new(vec![old, eq])));
            }
            Inst::Call { callee, args, ret, dst, normal } => {
                return self.call(st, callee, args, ret, *dst, *normal);
            }
        }
        st.frames.last_mut().unwrap().ip += 1;
        Ok(())
    }

    fn select(&mut self, c: &V, ty: &Ty, a: &V, b: &V) -> V {
        match c {
            V::C(k) => {
                if k & 1 == 1 {
                    a.clone()
                } else {
                    b.clone()
                }
            }
            _ => {
                if ty.is_agg() {
                    let (x, y) = (agg(a), agg(b));
                    let out = (0..x.len())
                        .map(|i| {
                            let t = ty.field(i).1;
                            self.select(c, &t, &x[i], &y[i])
                        })
                        .collect();
                    V::A(Rc::new(out))
                } else {
                    self.x.ite(c, a, b, ty.bits())
                }
            }
        }
    }

    fn vmap2(&mut self, a: &V, b: &V, mut f: impl FnMut(&mut Self, &V, &V) -> V) -> V {
        let (x, y) = (agg(a), agg(b));
        let out = (0..x.len()).map(|i| f(self, &x[i], &y[i])).collect();
        V::A(Rc::new(out))
    }

    fn binop(&mut self, st: &mut State, op: BinOp, ty: &Ty, a: &V, b: &V) -> Rs<V> {
        if let Ty::Vec(n, t) = ty {
            let (x, y) = (agg(a), agg(b));
            let mut out = vec![];
            for i in 0..*n as usize {
                out.push(self.binop(st, op, t, &x[i], &y[i])?);
            }
            return Ok(V::A(Rc::new(out)));
        }
        let w = ty.bits();
        let o = match op {
            BinOp::Add => Op::Add,
            BinOp::Sub => Op::Sub,
            BinOp::Mul => Op::Mul,
            BinOp::UDiv => Op::UDiv,
            BinOp::URem => Op::URem,
            BinOp::SDiv => Op::SDiv,
            BinOp::SRem => Op::SRem,
            BinOp::Shl => Op::Shl,
            BinOp::LShr => Op::LShr,
            BinOp::AShr => Op::AShr,
            BinOp::And => Op::And,
            BinOp::Or => Op::Or,
            BinOp::Xor => Op::Xor,
            _ => {
                let (x, y) = match (a, b) {
                    (V::C(x), V::C(y)) => (*x, *y),
                    _ => return Err(Stop::Incon("symbolic float arithmetic".into())),
                };
                let r = if w == 64 {
                    let (x, y) = (f64::from_bits(x as u64), f64::from_bits(y as u64));
                    let r = match op {
                        BinOp::FAdd => x + y,
                        BinOp::FSub => x - y,
                        BinOp::FMul => x * y,
                        BinOp::FDiv => x / y,
                        _ => x % y,
                    };
                    r.to_bits() as u128
                } else {
                    let (x, y) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                    let r = match op {
                        BinOp::FAdd => x + y,
                        BinOp::FSub => x - y,
                        BinOp::FMul => x * y,
                        BinOp::FDiv => x / y,
                        _ => x % y,
                    };
                    r.to_bits() as u128
                };
                return Ok(V::C(r));
            }
        };
        Ok(self.x.bin(o, a, b, w))
    }

    fn fcmp(&mut self, p: &str, ty: &Ty, a: &V, b: &V) -> V {
        if let Ty::Vec(_, t) = ty {
            let t = (**t).clone();
            return self.vmap2(a, b, |s, x, y| s.fcmp(p, &t, x, y));
        }
        let w = ty.bits();
        let (m, _e) = if w == 64 { (52, 11) } else { (23, 8) };
        let absmask = mask(w - 1);
        let inf = mask(w - 1) & !mask(m);
        let a = self.x.id(a, w);
        let b = self.x.id(b, w);
        let am = self.x.konst(absmask, w);
        let infk = self.x.konst(inf, w);
        let aa = self.x.mk_bin(Op::And, a, am);
        let ba = self.x.mk_bin(Op::And, b, am);
        let an = self.x.ult(infk, aa);
        let bn = self.x.ult(infk, ba);
        let uno = self.x.mk_bin(Op::Or, an, bn);
        let ord = self.x.not(uno);
        let eqb = self.x.eq(a, b);
        let z = self.x.konst(0, w);
        let o = self.x.mk_bin(Op::Or, aa, ba);
        let bz = self.x.eq(o, z);
        let eq = self.x.mk_bin(Op::Or, eqb, bz);
        let sa = self.x.extract(a, w - 1, w - 1);
        let sb = self.x.extract(b, w - 1, w - 1);
        // lt: total order on sign-magnitude, excluding zeros equal
        let lt_pos = self.x.ult(aa, ba);
        let gt_pos = self.x.ult(ba, aa);
        let nsb = self.x.not(sb);
        let t1 = self.x.mk_bin(Op::And, sa, nsb); // a neg, b pos
        let same_pos = {
            let nsa = self.x.not(sa);
            self.x.mk_bin(Op::And, nsa, nsb)
        };
        let same_neg = self.x.mk_bin(Op::And, sa, sb);
        let p1 = self.x.mk_bin(Op::And, same_pos, lt_pos);
        let p2 = self.x.mk_bin(Op::And, same_neg, gt_pos);
        let l = self.x.mk_bin(Op::Or, p1, p2);
        let l = self.x.mk_bin(Op::Or, l, t1);
        let nbz = self.x.not(bz);
        let lt = self.x.mk_bin(Op::And, l, nbz);
        let ge0 = self.x.not(lt); // for ordered operands: a>=b
        let base = match &p[1..] {
            "eq" => eq,
            "ne" => self.x.not(eq),
            "lt" => lt,
            "le" => self.x.mk_bin(Op::Or, lt, eq),
            "ge" => ge0,
            "gt" => {
                let ne = self.x.not(eq);
                self.x.mk_bin(Op::And, ge0, ne)
            }
            _ => self.x.konst(1, 1),
        };
        let r = match p {
            "ord" => ord,
            "uno" => uno,
            "true" => self.x.konst(1, 1),
            "false" => self.x.konst(0, 1),
            _ if p.starts_with('o') => self.x.mk_bin(Op::And, ord, base),
            _ => self.x.mk_bin(Op::Or, uno, base),
        };
        self.x.val(r)
    }

    fn cast(&mut self, st: &mut State, op: CastOp, ft: &Ty, tt: &Ty, a: &V) -> Rs<V> {
        if op == CastOp::Bit {
            return Ok(match (ft, tt) {
                (Ty::Vec(n, t), Ty::Vec(n2, t2)) => {
                    let bits = self.vec_to_bits(a, *n as u32, t.bits());
                    let w = t2.bits();
                    let mut out = vec![];
                    for i in 0..*n2 as u32 {
                        out.push(self.x.extract_v(&bits, (i + 1) * w - 1, i * w));
                    }
                    V::A(Rc::new(out))
                }
                (Ty::Vec(n, t), _) => self.vec_to_bits(a, *n as u32, t.bits()),
                (_, Ty::Vec(n2, t2)) => {
                    let w = t2.bits();
                    let mut out = vec![];
                    for i in 0..*n2 as u32 {
                        out.push(self.x.extract_v(a, (i + 1) * w - 1, i * w));
                    }
                    V::A(Rc::new(out))
                }
                _ => a.clone(),
            });
        }
        if let (Ty::Vec(n, f), Ty::Vec(_, t)) = (ft, tt) {
            let xs = agg(a);
            let mut out = vec![];
            for i in 0..*n as usize {
                out.push(self.cast(st, op, f, t, &xs[i])?);
            }
            return Ok(V::A(Rc::new(out)));
        }
        let (fw, tw) = (ft.bits(), tt.bits());
        Ok(match op {
            CastOp::Trunc => self.x.extract_v(a, tw - 1, 0),
            CastOp::ZExt => self.x.zext_v(a, fw, tw),
            CastOp::SExt => self.x.sext_v(a, fw, tw),
            _ => {
                let c = self.cv_float(a)?;
                let asf = |w: u32, c: u128| if w == 64 { f64::from_bits(c as u64) } else { f32::from_bits(c as u32) as f64 };
                let r = match op {
                    CastOp::UiToFp => {
                        if tw == 64 {
                            (c as f64).to_bits() as u128
                        } else {
                            (c as f32).to_bits() as u128
                        }
                    }
                    CastOp::SiToFp => {
                        let s = sext(c, fw);
                        if tw == 64 {
                            (s as f64).to_bits() as u128
                        } else {
                            (s as f32).to_bits() as u128
                        }
                    }
                    CastOp::FpToUi => (asf(fw, c) as u128) & mask(tw),
                    CastOp::FpToSi => (asf(fw, c) as i128 as u128) & mask(tw),
                    CastOp::FpExt => (f32::from_bits(c as u32) as f64).to_bits() as u128,
                    CastOp::FpTrunc => (f64::from_bits(c as u64) as f32).to_bits() as u128,
                    _ => unreachable!(),
                };
                V::C(r)
            }
        })
    }
    fn cv_float(&self, a: &V) -> Rs<u128> {
        match a {
            V::C(c) => Ok(*c),
            _ => Err(Stop::Incon("symbolic float conversion".into())),
        }
    }

    /// Resolve a symbolic address to (base, object, candidate offsets); forks over objects.
    fn resolve(&mut self, st: &mut State, e: Id, size: u64) -> Rs<(u64, Vec<u64>)> {
        let a0 = self.eval(st, e) as u64;
        let (base, o) = self.find(st, a0).ok_or_else(|| Stop::Incon(format!("symbolic access out of bounds at {:#x}", a0)))?;
        if a0 + size > base + o.size {
            return Err(Stop::Incon(format!("symbolic access out of bounds at {:#x} size {}", a0, size)));
        }
        let bk = self.x.konst(base as u128, 64);
        let off = self.x.mk_bin(Op::Sub, e, bk);
        let lim = self.x.konst((o.size - size) as u128, 64);
        let oob = self.x.ult(lim, off);
        if self.x.const_val(oob) != Some(0) {
            let inb = self.x.not(oob);
            // the model says in bounds, so decide() continues with inb and pushes the other as sibling
            let r = self.decide(st, inb)?;
            debug_assert!(r);
        }
        let kz = self.x.kzero(off) as u64;
        let ko = self.x.kone(off) as u64;
        let mut c = vec![];
        for k in 0..=(o.size - size) {
            if k & kz == 0 && k & ko == ko {
                c.push(k);
                if c.len() > 600 {
                    break;
                }
            }
        }
        Ok((base, c))
    }
    fn load_sym(&mut self, st: &mut State, e: Id, ty: &Ty, p: &Opd) -> Rs<V> {
        let (base, cands) = self.resolve(st, e, ty.size())?;
        if ty.is_agg() || cands.len() > 300 {
            let a = self.concretize(st, e)?;
            if let Opd::R(r) = p {
                self.set(st, *r, V::C(a));
            }
            return self.load_ty(st, a as u64, ty);
        }
        let w = ty.bits();
        // group candidates by value to keep the term small
        let mut groups: Vec<(Id, Vec<u64>)> = vec![];
        let mut gi: HashMap<Id, usize> = HashMap::new();
        for c in cands {
            let v = self.load_scalar(st, base + c, w)?;
            let id = self.x.id(&v, w);
            let k = *gi.entry(id).or_insert_with(|| {
                groups.push((id, vec![]));
                groups.len() - 1
            });
            groups[k].1.push(c);
        }
        groups.sort_by_key(|g| std::cmp::Reverse(g.1.len()));
        let mut acc = groups[0].0;
        for (v, offs) in groups.iter().skip(1) {
            let mut cond = self.x.konst(0, 1);
            for o in offs {
                let k = self.x.konst((base + o) as u128, 64);
                let q = self.x.eq(e, k);
                cond = self.x.mk_bin(Op::Or, cond, q);
            }
            acc = self.x.ite_id(cond, *v, acc);
        }
        Ok(self.x.val(acc))
    }
    fn store_sym(&mut self, st: &mut State, e: Id, ty: &Ty, v: &V, p: &Opd) -> Rs<()> {
        let (base, cands) = self.resolve(st, e, ty.size())?;
        if ty.is_agg() || cands.len() > 40 {
            let a = self.concretize(st, e)?;
            if let Opd::R(r) = p {
                self.set(st, *r, V::C(a));
            }
            return self.store_ty(st, a as u64, ty, v);
        }
        let w = ty.bits();
        let d = self.scalar_bytes(v, w);
        for c in cands {
            let k = self.x.konst((base + c) as u128, 64);
            let q = self.x.eq(e, k);
            let old = self.read_bytes(st, base + c, d.len() as u64)?;
            let mut nw = vec![];
            for (n, o) in d.iter().zip(old) {
                let nid = if n.1 != 0 { n.1 } else { self.x.konst(n.0 as u128, 8) };
                let oid = if o.1 != 0 { o.1 } else { self.x.konst(o.0 as u128, 8) };
                let r = self.x.ite_id(q, nid, oid);
                match self.x.const_val(r) {
                    Some(c) => nw.push((c as u8, 0)),
                    None => nw.push((0, r)),
                }
            }
            self.write_bytes(st, base + c, &nw)?;
        }
        Ok(())
    }

    fn panic_msg(&mut self, st: &State, name: &str) -> String {
        let mut s = String::new();
        s.push_str(name);
        let stack = self.stack_names(st);
        s.push_str(" <- ");
        s.push_str(&stack.iter().take(5).cloned().collect::<Vec<_>>().join(" <- "));
        s
    }

    fn str_arg(&mut self, st: &mut State, p: &V, l: &V) -> Rs<String> {
        let p = self.cv(st, p)? as u64;
        let l = self.cv(st, l)? as u64;
        let b = self.read_bytes(st, p, l)?;
        Ok(String::from_utf8_lossy(&b.iter().map(|x| x.0).collect::<Vec<_>>()).into_owned())
    }

    fn do_alloc(&mut self, st: &mut State, size: &V, align: u64) -> Rs<u64> {
        let lim = st.alloc_limit;
        match size {
            V::C(c) => {
                if *c > lim as u128 {
                    return self.big_alloc(st, format!("allocation of {} bytes", c));
                }
                Ok(self.alloc(st, *c as u64, align, true))
            }
            V::E(e) => {
                let k = self.x.konst(lim as u128, 64);
                let big = self.x.ult(k, *e);
                if self.decide(st, big)? {
                    let v = self.eval(st, *e);
                    return self.big_alloc(st, format!("allocation of {} bytes controlled by input", v));
                }
                let c = self.concretize(st, *e)?;
                Ok(self.alloc(st, c as u64, align, true))
            }
            _ => panic!(),
        }
    }
    fn big_alloc(&mut self, st: &mut State, msg: String) -> Rs<u64> {
        if st.alloc_viol {
            let m = st.model.clone();
            self.violation(st, &m, "alloc", msg);
        }
        Err(Stop::AllocCut)
    }

    fn call(&mut self, st: &mut State, callee: &Callee, args: &[(Opd, Ty)], ret: &Ty, dst: Option<u32>, normal: Option<u32>) -> Rs<()> {
        let fid = match callee {
            Callee::F(f) => *f,
            Callee::Asm => return self.finish(st, dst, normal, if *ret == Ty::Void { None } else { Some(ret.zero()) }),
            Callee::Ind(o) => {
                let a = self.cget(st, o)? as u64;
                self.m.func_at(a).ok_or_else(|| Stop::Incon(format!("indirect call to {:#x}", a)))?
            }
        };
        let ext = self.ext[fid as usize];
        if ext == Ext::None {
            let f = self.m.func(fid).unwrap();
            if self.funcs.insert(fid) && self.trace {
                eprintln!("enter {}", f.name);
            }
            let mut regs = vec![V::C(0); f.nregs];
            for (i, (o, _)) in args.iter().enumerate() {
                if i < f.params.len() {
                    regs[f.params[i] as usize] = self.get(st, o);
                }
            }
            if st.frames.len() > 5000 {
                return Err(Stop::Panic("stack overflow: call depth above 5000".into()));
            }
            st.frames.push(Frame { regs, f, blk: 0, ip: 0, dst, normal, allocas: vec![] });
            return Ok(());
        }
        let a: Vec<V> = args.iter().map(|(o, _)| self.get(st, o)).collect();
        let mut rv: Option<V> = None;
        match ext {
            Ext::Panic => {
                let n = self.m.funcs[fid as usize].name.clone();
                return Err(Stop::Panic(self.panic_msg(st, &n)));
            }
            Ext::Abort => return Err(Stop::Panic(self.panic_msg(st, "abort"))),
            Ext::FmtWrite => rv = Some(V::C(0)),
            Ext::RandKeys => rv = Some(ret.zero()),
            Ext::Malloc => {
                let p = self.do_alloc(st, &a[0], 16)?;
                rv = Some(V::C(p as u128));
            }
            Ext::Calloc => {
                let s = self.x.bin(Op::Mul, &a[0], &a[1], 64);
                let p = self.do_alloc(st, &s, 16)?;
                rv = Some(V::C(p as u128));
            }
            Ext::PosixMemalign => {
                let al = self.cv(st, &a[1])? as u64;
                let out = self.cv(st, &a[0])? as u64;
                let p = self.do_alloc(st, &a[2], al)?;
                self.store_ty(st, out, &Ty::Ptr, &V::C(p as u128))?;
                rv = Some(V::C(0));
            }
            Ext::Realloc => {
                let old = self.cv(st, &a[0])? as u64;
                let p = self.do_alloc(st, &a[1], 16)?;
                let nsz = st.mem[&p].size;
                if old != 0 {
                    let osz = st.mem.get(&old).map(|o| o.size).ok_or_else(|| Stop::Incon("realloc of unknown".into()))?;
                    let d = self.read_bytes(st, old, osz.min(nsz))?;
                    self.write_bytes(st, p, &d)?;
                    Rc::make_mut(&mut st.mem).remove(&old);
                    st.heap[0] -= osz;
                }
                rv = Some(V::C(p as u128));
            }
            Ext::Free => {
                let p = self.cv(st, &a[0])? as u64;
                if p != 0 {
                    match st.mem.get(&p) {
                        Some(o) if o.heap => {
                            st.heap[0] -= o.size;
                            Rc::make_mut(&mut st.mem).remove(&p);
                        }
                        _ => return Err(Stop::Incon(format!("free of non-heap {:#x}", p))),
                    }
                }
            }
            Ext::Memcmp => {
                let n = self.cv(st, &a[2])? as u64;
                let v = if n == 0 {
                    V::C(0)
                } else {
                    let p = self.cv(st, &a[0])? as u64;
                    let q = self.cv(st, &a[1])? as u64;
                    let x = self.read_bytes(st, p, n)?;
                    let y = self.read_bytes(st, q, n)?;
                    let mut acc = self.x.konst(0, 32);
                    for (b, c) in x.iter().zip(y.iter()).rev() {
                        let bi = if b.1 != 0 { b.1 } else { self.x.konst(b.0 as u128, 8) };
                        let ci = if c.1 != 0 { c.1 } else { self.x.konst(c.0 as u128, 8) };
                        let eq = self.x.eq(bi, ci);
                        let lt = self.x.ult(bi, ci);
                        let neg = self.x.konst(mask(32), 32);
                        let one = self.x.konst(1, 32);
                        let d = self.x.ite_id(lt, neg, one);
                        acc = self.x.ite_id(eq, acc, d);
                    }
                    self.x.val(acc)
                };
                rv = Some(v);
            }
            Ext::Strlen => {
                let mut p = self.cv(st, &a[0])? as u64;
                let s = p;
                loop {
                    let b = self.read_bytes(st, p, 1)?;
                    if b[0].1 != 0 {
                        return Err(Stop::Incon("strlen symbolic".into()));
                    }
                    if b[0].0 == 0 {
                        break;
                    }
                    p += 1;
                }
                rv = Some(V::C((p - s) as u128));
            }
            Ext::Fill => {
                let p = self.cv(st, &a[0])? as u64;
                let n = self.cv(st, &a[1])? as u64;
                let mut off = 0;
                while off < n {
                    let k = match n - off {
                        r if r >= 8 => 8,
                        r if r >= 4 => 4,
                        r if r >= 2 => 2,
                        _ => 1,
                    };
                    // whole scalars get one variable, buffers one per byte
                    let k = if n == k { k } else { 1 };
                    let vid = self.x.vars.len() as u32;
                    let e = self.x.var(8 * k as u32);
                    st.inputs.push(Input { var: vid, len: k as u32, konst: 0 });
                    let d = self.scalar_bytes(&V::E(e), 8 * k as u32);
                    self.write_bytes(st, p + off, &d)?;
                    off += k;
                }
            }
            Ext::Choose => {
                let n = self.cv(st, &a[0])? as u64;
                if n == 0 {
                    return Err(Stop::Kill);
                }
                // fork all alternatives directly
                for k in (1..n).rev() {
                    let mut sib = st.clone();
                    sib.inputs.push(Input { var: u32::MAX, len: 8, konst: k });
                    self.forks += 1;
                    self.finish(&mut sib, dst, normal, Some(V::C(k as u128)))?;
                    self.pending.push(sib);
                }
                st.inputs.push(Input { var: u32::MAX, len: 8, konst: 0 });
                rv = Some(V::C(0));
            }
            Ext::Assume => {
                let c = self.x.id(&a[0], 1);
                self.assume(st, c)?;
            }
            Ext::Check => {
                let msg = self.str_arg(st, &a[1], &a[2])?;
                *self.checks.entry(msg.clone()).or_insert(0) += 1;
                match &a[0] {
                    V::C(k) => {
                        if k & 1 == 0 {
                            return Err(Stop::Check(msg));
                        }
                    }
                    V::E(c) => {
                        let c = *c;
                        if self.eval(st, c) == 0 {
                            return Err(Stop::Check(msg));
                        }
                        let nc = self.x.not(c);
                        if let Some(m) = self.query(st, &[nc])? {
                            self.violation(st, &m, "check", msg);
                            return Err(Stop::Kill);
                        }
                    }
                    _ => panic!(),
                }
            }
            Ext::Observe => {
                st.observed.push(a[0].clone());
            }
            Ext::Reach => {
                let s = self.str_arg(st, &a[0], &a[1])?;
                *self.reached.entry(s).or_insert(0) += 1;
            }
            Ext::Param => {
                let i = self.cv(st, &a[0])? as usize;
                rv = Some(V::C(self.params.get(i).copied().unwrap_or(0) as u128));
            }
            Ext::Concrete => {
                let c = self.cv(st, &a[0])?;
                rv = Some(V::C(c));
            }
            Ext::Stop => return Err(Stop::Done),
            Ext::Memory => {
                if self.cv(st, &a[0])? != 0 {
                    st.heap[1] = st.heap[0];
                    st.heap[2] = st.heap[0];
                }
                rv = Some(V::C((st.heap[1] - st.heap[2]) as u128));
            }
            Ext::AllocLimit => {
                st.alloc_limit = self.cv(st, &a[0])? as u64;
                st.alloc_viol = self.cv(st, &a[1])? != 0;
            }
            Ext::Log => {
                let s = self.str_arg(st, &a[0], &a[1])?;
                eprintln!("LOG {} {:?}", s, a[2]);
            }
            Ext::Intrinsic => {
                let n = self.m.funcs[fid as usize].name.clone();
                rv = self.intrinsic(st, &n, &a, args, ret)?;
            }
            Ext::Unknown => {
                return Err(Stop::Incon(format!("call to external {}", self.m.funcs[fid as usize].name)));
            }
            Ext::None => unreachable!(),
        }
        self.finish(st, dst, normal, rv)
    }

    fn finish(&mut self, st: &mut State, dst: Option<u32>, normal: Option<u32>, rv: Option<V>) -> Rs<()> {
        if let (Some(d), Some(v)) = (dst, rv) {
            self.set(st, d, v);
        }
        match normal {
            Some(n) => self.goto(st, n),
            None => {
                st.frames.last_mut().unwrap().ip += 1;
                Ok(())
            }
        }
    }

    fn intrinsic(&mut self, st: &mut State, n: &str, a: &[V], args: &[(Opd, Ty)], ret: &Ty) -> Rs<Option<V>> {
        let n = &n[5..];
        let starts = |p: &str| n.starts_with(p);
        if starts("lifetime.") || starts("experimental.noalias") || starts("dbg.") || n == "donothing" || starts("prefetch") || starts("x86.sse2.pause")
            || starts("invariant.") || starts("assume")
        {
            return Ok(if *ret == Ty::Void { None } else { Some(V::C(0)) });
        }
        if starts("trap") || starts("ubsantrap") || starts("debugtrap") {
            return Err(Stop::Panic(self.panic_msg(st, "llvm.trap")));
        }
        if starts("memcpy.") || starts("memmove.") {
            let len = self.cv_reg(st, &a[2], &args[2].0)? as u64;
            if len == 0 {
                return Ok(None);
            }
            let d = self.cv_reg(st, &a[0], &args[0].0)? as u64;
            let s = self.cv_reg(st, &a[1], &args[1].0)? as u64;
            let b = self.read_bytes(st, s, len)?;
            self.write_bytes(st, d, &b)?;
            return Ok(None);
        }
        if starts("memset.") {
            let len = self.cv_reg(st, &a[2], &args[2].0)? as u64;
            if len == 0 {
                return Ok(None);
            }
            let d = self.cv_reg(st, &a[0], &args[0].0)? as u64;
            let b = self.scalar_bytes(&a[1], 8)[0];
            self.write_bytes(st, d, &vec![b; len as usize])?;
            return Ok(None);
        }
        if starts("threadlocal.address") || starts("expect.") || starts("launder.") || starts("strip.") || starts("ssa.copy") {
            return Ok(Some(a[0].clone()));
        }
        if starts("is.constant") {
            return Ok(Some(V::C(0)));
        }
        if starts("load.relative") {
            let base = self.cv(st, &a[0])? as u64;
            let off = self.cv(st, &a[1])? as u64;
            let v = self.load_scalar(st, base.wrapping_add(off), 32)?;
            let v = self.cv(st, &v)?;
            return Ok(Some(V::C((base as i64).wrapping_add(sext(v, 32) as i64) as u64 as u128)));
        }
        if starts("vector.reduce.") {
            let v = agg(&a[0]);
            let w = match &args[0].1 {
                Ty::Vec(_, t) => t.bits(),
                _ => panic!(),
            };
            let op = n.split('.').nth(2).unwrap();
            let mut acc = v[0].clone();
            for y in v.iter().skip(1) {
                acc = match op {
                    "add" => self.x.bin(Op::Add, &acc, y, w),
                    "or" => self.x.bin(Op::Or, &acc, y, w),
                    "and" => self.x.bin(Op::And, &acc, y, w),
                    "xor" => self.x.bin(Op::Xor, &acc, y, w),
                    "umax" | "umin" | "smax" | "smin" => self.minmax(st, op, &acc, y, w)?,
                    _ => return Err(Stop::Incon(format!("intrinsic {}", n))),
                };
            }
            return Ok(Some(acc));
        }
        // elementwise on vectors
        if let Ty::Vec(_, t) = ret {
            let et = (**t).clone();
            let k = ret.nfields();
            let mut out = vec![];
            for i in 0..k {
                let ea: Vec<V> = a
                    .iter()
                    .map(|v| match v {
                        V::A(v) => v[i].clone(),
                        v => v.clone(),
                    })
                    .collect();
                let eargs: Vec<(Opd, Ty)> = args
                    .iter()
                    .map(|(o, t)| {
                        (
                            o.clone(),
                            match t {
                                Ty::Vec(_, t) => (**t).clone(),
                                t => t.clone(),
                            },
                        )
                    })
                    .collect();
                let r = self.intrinsic(st, &format!("llvm.{}", n), &ea, &eargs, &et)?;
                out.push(r.unwrap());
            }
            return Ok(Some(V::A(Rc::new(out))));
        }
        let w = if !args.is_empty() && !args[0].1.is_agg() && args[0].1 != Ty::Other && args[0].1 != Ty::Void { args[0].1.bits() } else { 0 };
        if n.contains(".with.overflow.") {
            let (r, o) = self.overflow(n, &a[0], &a[1], w);
            return Ok(Some(V::A(Rc::new(vec![r, o]))));
        }
        for op in ["umax", "umin", "smax", "smin"] {
            if starts(&format!("{}.", op)) {
                return Ok(Some(self.minmax(st, op, &a[0], &a[1], w)?));
            }
        }
        if starts("usub.sat") {
            let lt = self.x.icmp(Pred::Ult, &a[0], &a[1], w);
            let d = self.x.bin(Op::Sub, &a[0], &a[1], w);
            return Ok(Some(self.x.ite(&lt, &V::C(0), &d, w)));
        }
        if starts("uadd.sat") {
            let d = self.x.bin(Op::Add, &a[0], &a[1], w);
            let lt = self.x.icmp(Pred::Ult, &d, &a[0], w);
            return Ok(Some(self.x.ite(&lt, &V::C(mask(w)), &d, w)));
        }
        if starts("ucmp.") || starts("scmp.") {
            let (p, q) = if starts("ucmp.") { (Pred::Ult, Pred::Ugt) } else { (Pred::Slt, Pred::Sgt) };
            let rw = ret.bits();
            let lt = self.x.icmp(p, &a[0], &a[1], w);
            let gt = self.x.icmp(q, &a[0], &a[1], w);
            let g = self.x.ite(&gt, &V::C(1), &V::C(0), rw);
            return Ok(Some(self.x.ite(&lt, &V::C(mask(rw)), &g, rw)));
        }
        if starts("abs.") {
            let neg = self.x.icmp(Pred::Slt, &a[0], &V::C(0), w);
            let m = self.x.bin(Op::Sub, &V::C(0), &a[0], w);
            return Ok(Some(self.x.ite(&neg, &m, &a[0], w)));
        }
        if starts("bswap.") {
            let e = self.x.id(&a[0], w);
            let mut segs = vec![];
            for i in (0..w / 8).rev() {
                segs.push(self.x.extract(e, 8 * i + 7, 8 * i));
            }
            let r = self.x.concat_list(segs);
            return Ok(Some(self.x.val(r)));
        }
        if starts("bitreverse.") {
            let e = self.x.id(&a[0], w);
            let mut segs = vec![];
            for i in (0..w).rev() {
                segs.push(self.x.extract(e, i, i));
            }
            let r = self.x.concat_list(segs);
            return Ok(Some(self.x.val(r)));
        }
        if starts("ctpop.") {
            return Ok(Some(match &a[0] {
                V::C(c) => V::C(c.count_ones() as u128),
                V::E(e) => {
                    let e = *e;
                    let mut acc = V::C(0);
                    for i in 0..w {
                        let b = self.x.extract(e, i, i);
                        let z = self.x.zext(b, w);
                        let v = self.x.val(z);
                        acc = self.x.bin(Op::Add, &acc, &v, w);
                    }
                    acc
                }
                _ => panic!(),
            }));
        }
        if starts("ctlz.") || starts("cttz.") {
            let lead = starts("ctlz.");
            return Ok(Some(match &a[0] {
                V::C(c) => {
                    let r = if *c == 0 {
                        w
                    } else if lead {
                        c.leading_zeros() - (128 - w)
                    } else {
                        c.trailing_zeros()
                    };
                    V::C(r as u128)
                }
                V::E(e) => {
                    let e = *e;
                    let mut acc = V::C(w as u128);
                    for i in 0..w {
                        // lowest priority first
                        let bit = if lead { i } else { w - 1 - i };
                        let b = self.x.extract(e, bit, bit);
                        let bv = self.x.val(b);
                        let val = if lead { w - 1 - bit } else { bit };
                        acc = self.x.ite(&bv, &V::C(val as u128), &acc, w);
                    }
                    if self.select_mode == 2 {
                        acc = V::C(self.cv(st, &acc)?);
                    }
                    acc
                }
                _ => panic!(),
            }));
        }
        if starts("fshl.") || starts("fshr.") {
            let left = starts("fshl.");
            let wk = V::C(w as u128);
            let s = self.x.bin(Op::URem, &a[2], &wk, w);
            let inv = self.x.bin(Op::Sub, &wk, &s, w);
            let (hi, lo) = if left {
                (self.x.bin(Op::Shl, &a[0], &s, w), self.x.bin(Op::LShr, &a[1], &inv, w))
            } else {
                (self.x.bin(Op::Shl, &a[0], &inv, w), self.x.bin(Op::LShr, &a[1], &s, w))
            };
            return Ok(Some(self.x.bin(Op::Or, &hi, &lo, w)));
        }
        if starts("fabs.") {
            return Ok(Some(self.x.bin(Op::And, &a[0], &V::C(mask(w - 1)), w)));
        }
        if starts("fptoui.sat") || starts("fptosi.sat") {
            let c = self.cv_float(&a[0])?;
            let f = if w == 64 { f64::from_bits(c as u64) } else { f32::from_bits(c as u32) as f64 };
            let rw = ret.bits();
            let r = if starts("fptoui.sat") {
                (f as u128).min(mask(rw))
            } else {
                let hi = mask(rw - 1) as i128;
                ((f as i128).min(hi).max(-hi - 1) as u128) & mask(rw)
            };
            return Ok(Some(V::C(r)));
        }
        if w == 64 && (starts("floor.") || starts("log10.") || starts("ceil.") || starts("trunc.") || starts("log2.") || starts("pow.") || starts("powi.")) {
            let c = f64::from_bits(self.cv_float(&a[0])? as u64);
            let r = if starts("floor.") {
                c.floor()
            } else if starts("log10.") {
                c.log10()
            } else if starts("ceil.") {
                c.ceil()
            } else if starts("log2.") {
                c.log2()
            } else if starts("powi.") {
                let e = self.cv_float(&a[1])?;
                c.powi(sext(e, 32) as i32)
            } else if starts("pow.") {
                c.powf(f64::from_bits(self.cv_float(&a[1])? as u64))
            } else {
                c.trunc()
            };
            return Ok(Some(V::C(r.to_bits() as u128)));
        }
        if w == 32 && starts("log2.") {
            return Ok(Some(V::C(f32::from_bits(self.cv_float(&a[0])? as u32).log2().to_bits() as u128)));
        }
        Err(Stop::Incon(format!("intrinsic llvm.{}", n)))
    }

    fn cv_reg(&mut self, st: &mut State, v: &V, o: &Opd) -> Rs<u128> {
        let c = self.cv(st, v)?;
        if let (Opd::R(r), V::E(_)) = (o, v) {
            self.set(st, *r, V::C(c));
        }
        Ok(c)
    }

    fn minmax(&mut self, st: &mut State, op: &str, a: &V, b: &V, w: u32) -> Rs<V> {
        let p = match op {
            "umax" => Pred::Ugt,
            "umin" => Pred::Ult,
            "smax" => Pred::Sgt,
            _ => Pred::Slt,
        };
        let c = self.x.icmp(p, a, b, w);
        let c = self.settle(st, &c)?;
        Ok(self.x.ite(&c, a, b, w))
    }
    /// what to do with the condition of a select: keep it symbolic (0), keep it only if the path leaves
    /// it open (1), or split the path on it (2)
    fn settle(&mut self, st: &mut State, c: &V) -> Rs<V> {
        let e = match c {
            V::E(e) if self.select_mode > 0 => *e,
            _ => return Ok(c.clone()),
        };
        if self.select_mode == 2 {
            return Ok(V::C(self.decide(st, e)? as u128));
        }
        let v = self.eval(st, e) == 1;
        let ne = self.x.not(e);
        let other = if v { ne } else { e };
        Ok(match self.query(st, &[other])? {
            None => V::C(v as u128),
            Some(_) => c.clone(),
        })
    }

    fn overflow(&mut self, n: &str, a: &V, b: &V, w: u32) -> (V, V) {
        let kind = &n[..4];
        let op = match kind {
            "uadd" | "sadd" => Op::Add,
            "usub" | "ssub" => Op::Sub,
            _ => Op::Mul,
        };
        let r = self.x.bin(op, a, b, w);
        let o = match kind {
            "uadd" => self.x.icmp(Pred::Ult, &r, a, w),
            "usub" => self.x.icmp(Pred::Ult, a, b, w),
            "sadd" | "ssub" if w >= 128 => {
                // the sign of the result differs from what the signs of the operands imply
                let c = if kind == "sadd" { self.x.bin(Op::Xor, &r, b, w) } else { self.x.bin(Op::Xor, a, b, w) };
                let d = self.x.bin(Op::Xor, &r, a, w);
                let e = self.x.bin(Op::And, &c, &d, w);
                self.x.extract_v(&e, w - 1, w - 1)
            }
            "sadd" | "ssub" => {
                let w1 = w + 1;
                let ea = self.x.sext_v(a, w, w1);
                let eb = self.x.sext_v(b, w, w1);
                let er = self.x.bin(op, &ea, &eb, w1);
                let hi = self.x.extract_v(&er, w, w);
                let lo = self.x.extract_v(&er, w - 1, w - 1);
                self.x.icmp(Pred::Ne, &hi, &lo, 1)
            }
            "umul" => {
                // cheap case: known upper bounds
                let ua = match a {
                    V::C(c) => *c,
                    V::E(e) => self.x.umax(*e),
                    _ => 0,
                };
                let ub = match b {
                    V::C(c) => *c,
                    V::E(e) => self.x.umax(*e),
                    _ => 0,
                };
                if ua.checked_mul(ub).map(|p| p <= mask(w)).unwrap_or(false) {
                    V::C(0)
                } else if let V::C(k) = b {
                    if *k == 0 {
                        V::C(0)
                    } else {
                        self.x.icmp(Pred::Ugt, a, &V::C(mask(w) / k), w)
                    }
                } else if let V::C(k) = a {
                    if *k == 0 {
                        V::C(0)
                    } else {
                        self.x.icmp(Pred::Ugt, b, &V::C(mask(w) / k), w)
                    }
                } else if w <= 64 {
                    let w2 = 2 * w;
                    let ea = self.x.zext_v(a, w, w2);
                    let eb = self.x.zext_v(b, w, w2);
                    let er = self.x.bin(Op::Mul, &ea, &eb, w2);
                    let hi = self.x.extract_v(&er, w2 - 1, w);
                    self.x.icmp(Pred::Ne, &hi, &V::C(0), w)
                } else {
                    panic!("umul overflow wide")
                }
            }
            "smul" => {
                assert!(w <= 64);
                let w2 = 2 * w;
                let ea = self.x.sext_v(a, w, w2);
                let eb = self.x.sext_v(b, w, w2);
                let er = self.x.bin(Op::Mul, &ea, &eb, w2);
                let lo = self.x.extract_v(&er, w - 1, 0);
                let es = self.x.sext_v(&lo, w, w2);
                self.x.icmp(Pred::Ne, &er, &es, w2)
            }
            _ => panic!("overflow {}", n),
        };
        (r, o)
    }
}

fn agg(v: &V) -> Rc<Vec<V>> {
    match v {
        V::A(a) => a.clone(),
        _ => panic!("expected aggregate, got {:?}", v),
    }
}
fn insert(a: &mut V, idx: &[usize], v: V) {
    if let V::A(r) = a {
        let r = Rc::make_mut(r);
        if idx.len() == 1 {
            r[idx[0]] = v;
        } else {
            insert(&mut r[idx[0]], &idx[1..], v);
        }
    } else {
        panic!("insert into scalar");
    }
}
fn write_const(buf: &mut [u8], off: usize, ty: &Ty, v: &V) {
    match v {
        V::C(c) => {
            if ty.is_agg() {
                panic!("scalar for aggregate");
            }
            if matches!(ty, Ty::Void | Ty::Other) {
                return;
            }
            let n = ((ty.bits() + 7) / 8) as usize;
            for i in 0..n {
                buf[off + i] = (c >> (8 * i)) as u8;
            }
        }
        V::A(vs) => {
            for (i, x) in vs.iter().enumerate() {
                let (o, t) = ty.field(i);
                write_const(buf, off + o as usize, &t, x);
            }
        }
        V::E(_) => unreachable!(),
    }
}

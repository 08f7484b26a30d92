//! Path-forking symbolic executor.
use crate::expr::*;
use crate::ir::*;
use crate::z3::{Z3, R};
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum V {
    C(u64),
    S(E),
    U,
    A(Rc<Vec<V>>),
    W(Box<u128>),
}

#[derive(Clone, Debug)]
pub struct Obj {
    pub data: Vec<u8>,
    /// per byte: 0 uninitialised, 1 concrete, 2 symbolic
    pub tag: Vec<u8>,
    pub sym: Option<Box<BTreeMap<u32, (E, u32)>>>,
    pub align: u64,
    pub constant: bool,
}
impl Obj {
    fn new(size: usize, align: u64, init: u8) -> Obj {
        Obj { data: vec![0; size], tag: vec![init; size], sym: None, align, constant: false }
    }
}

#[derive(Clone)]
pub struct Frame {
    pub f: u32,
    pub bb: u32,
    pub ip: u32,
    pub regs: Vec<V>,
    pub stk: usize,
    pub ret: Option<u32>,
    /// called by qs_try: unwinding stops here
    pub catch: bool,
}

#[derive(Clone, PartialEq, Debug)]
pub enum TStat {
    Run,
    Block(u64),
    Done,
}
#[derive(Clone)]
pub struct Thread {
    pub frames: Vec<Frame>,
    pub stack: Vec<Rc<Obj>>,
    pub stat: TStat,
    /// panics under way
    pub panics: u64,
}

#[derive(Clone)]
pub struct State {
    pub th: Vec<Thread>,
    pub cur: usize,
    pub heap: Vec<Option<Rc<Obj>>>,
    pub globals: Vec<Option<Rc<Obj>>>,
    pub path: Vec<E>,
    pub facts: Vec<E>,
    pub model: Vec<u64>,
    pub nvars: u32,
    pub steps: u64,
    /// input log in program order: (is_symbolic, value or E)
    pub log: Vec<(bool, u64)>,
    pub live: u64,
    pub live_bytes: u64,
    pub preempt: u32,
    pub depth: u32,
    pub pending: Option<u64>,
    pub clock: X,
    /// observations logged by the harness
    pub obs: Vec<V>,
    pub expect_panic: bool,
    /// handle of the current thread, once asked for
    pub handle: u64,
}

#[derive(Debug, Clone)]
pub enum End {
    Ok,
    Kill,
    Viol { kind: String, msg: String, prop: u32, code: u32 },
    Err(String),
}
type Res<T> = Result<T, End>;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Ext {
    Defined,
    Panic,
    Alloc,
    AllocZeroed,
    Dealloc,
    Realloc,
    NoAllocShim,
    Memcpy,
    Memmove,
    Memset,
    Memcmp,
    Nop,
    Assume,
    UMax,
    UMin,
    SMax,
    SMin,
    UAddO,
    USubO,
    UMulO,
    SAddO,
    SSubO,
    SMulO,
    UAddSat,
    USubSat,
    Ctlz,
    Cttz,
    Ctpop,
    Bswap,
    Fshl,
    Fshr,
    Abs,
    FpToUiSat,
    FAbs,
    FMulAdd,
    IsConst,
    Expect,
    ObjSize,
    UCmp,
    SCmp,
    Tls,
    VecReduceOr,
    VecReduceAnd,
    VecReduceAdd,
    // harness
    Choose,
    Sym,
    QAssume,
    QAssert,
    QCover,
    QHeapLive,
    QHeapBytes,
    QSpawn,
    QYield,
    QPause,
    QBlock,
    QWake,
    QTid,
    QParam,
    QLog,
    QConc,
    QDone,
    QExpectPanic,
    QAdvance,
    QClock,
    // environment models
    PanicCount,
    QUnwind,
    QTry,
    NumCpus,
    RandomKeys,
    ClockNow,
    ParkTimeout,
    InstantOp(u8),
    Park,
    ThreadCurrent,
    FutexWake,
    LockContended,
    Unknown,
}

pub struct Viol {
    pub kind: String,
    pub msg: String,
    pub prop: u32,
    pub code: u32,
    pub inputs: Vec<u64>,
    pub trace: Vec<String>,
}

pub struct Opts {
    pub prop: u32,
    pub step_limit: u64,
    pub preempt_bound: u32,
    pub params: Vec<u64>,
    pub trace: bool,
    pub always_solve: bool,
    pub deadline: std::time::Instant,
    /// panics / memory errors are violations of `prop`
    pub replay: Option<Vec<u64>>,
}

pub struct Exec<'m> {
    pub m: &'m Module,
    forkdbg: bool,
    pub x: Exprs,
    pub z: Z3,
    pub o: Opts,
    ext: Vec<Ext>,
    pub work: Vec<State>,
    consts: Vec<Option<Rc<Obj>>>,
    pub paths: u64,
    pub killed: u64,
    pub forks: u64,
    pub instrs: u64,
    pub asserts: u64,
    pub assert_q: u64,
    pub entered: Vec<bool>,
    pub covers: Vec<u64>,
    pub viol: Vec<Viol>,
    /// stop: an assertion failed, or enough other failures were collected
    pub stop: bool,
    pub soft: Option<std::time::Instant>,
    pub err_paths: u64,
    pub err: Option<String>,
    pub recent: Vec<Vec<u64>>,
    pub max_steps: u64,
    pub samples: Vec<(Vec<u64>, u64)>,
    pub seen: u64,
    pub rng: u64,
    pub assert_solver: u64,
    pub assert_const: u64,
    pub panics_expected: u64,
    pub bfs: bool,
    pub max_nvars: u32,
    pub decided_syntactic: u64,
    pub decided_model: u64,
    pub ctx_switches: u64,
}

fn classify(f: &Func) -> Ext {
    let n = f.name.as_str();
    if let Some(s) = n.strip_prefix("llvm.") {
        let pre = |p: &str| s.starts_with(p);
        return if pre("memcpy") {
            Ext::Memcpy
        } else if pre("memmove") {
            Ext::Memmove
        } else if pre("memset") {
            Ext::Memset
        } else if pre("lifetime") || pre("experimental.noalias") || pre("dbg") || pre("prefetch") || pre("invariant") || pre("donothing") || pre("x86.sse2.pause") {
            Ext::Nop
        } else if pre("assume") {
            Ext::Assume
        } else if pre("umax") {
            Ext::UMax
        } else if pre("umin") {
            Ext::UMin
        } else if pre("smax") {
            Ext::SMax
        } else if pre("smin") {
            Ext::SMin
        } else if pre("uadd.with") {
            Ext::UAddO
        } else if pre("usub.with") {
            Ext::USubO
        } else if pre("umul.with") {
            Ext::UMulO
        } else if pre("sadd.with") {
            Ext::SAddO
        } else if pre("ssub.with") {
            Ext::SSubO
        } else if pre("smul.with") {
            Ext::SMulO
        } else if pre("uadd.sat") {
            Ext::UAddSat
        } else if pre("usub.sat") {
            Ext::USubSat
        } else if pre("ctlz") {
            Ext::Ctlz
        } else if pre("cttz") {
            Ext::Cttz
        } else if pre("ctpop") {
            Ext::Ctpop
        } else if pre("bswap") {
            Ext::Bswap
        } else if pre("fshl") {
            Ext::Fshl
        } else if pre("fshr") {
            Ext::Fshr
        } else if pre("abs") {
            Ext::Abs
        } else if pre("fptoui.sat") {
            Ext::FpToUiSat
        } else if pre("fabs") {
            Ext::FAbs
        } else if pre("fmuladd") || pre("fma.") {
            Ext::FMulAdd
        } else if pre("is.constant") {
            Ext::IsConst
        } else if pre("expect") {
            Ext::Expect
        } else if pre("objectsize") {
            Ext::ObjSize
        } else if pre("ucmp") {
            Ext::UCmp
        } else if pre("scmp") {
            Ext::SCmp
        } else if pre("threadlocal.address") {
            Ext::Tls
        } else if pre("vector.reduce.or") {
            Ext::VecReduceOr
        } else if pre("vector.reduce.and") {
            Ext::VecReduceAnd
        } else if pre("vector.reduce.add") {
            Ext::VecReduceAdd
        } else if pre("trap") || pre("ubsantrap") {
            Ext::Panic
        } else {
            Ext::Unknown
        };
    }
    if n.contains("___rust_no_alloc_shim_is_unstable") {
        return Ext::NoAllocShim;
    }
    if n.contains("19___rust_alloc_zeroed") || n == "__rust_alloc_zeroed" {
        return Ext::AllocZeroed;
    }
    if n.contains("12___rust_alloc") || n == "__rust_alloc" {
        return Ext::Alloc;
    }
    if n.contains("14___rust_dealloc") || n == "__rust_dealloc" {
        return Ext::Dealloc;
    }
    if n.contains("14___rust_realloc") || n == "__rust_realloc" {
        return Ext::Realloc;
    }
    match n {
        "memcpy" => return Ext::Memcpy,
        "memmove" => return Ext::Memmove,
        "memset" => return Ext::Memset,
        "memcmp" | "bcmp" => return Ext::Memcmp,
        "qs_choose" => return Ext::Choose,
        "qs_sym" => return Ext::Sym,
        "qs_assume" => return Ext::QAssume,
        "qs_assert" => return Ext::QAssert,
        "qs_cover" => return Ext::QCover,
        "qs_heap_live" => return Ext::QHeapLive,
        "qs_heap_bytes" => return Ext::QHeapBytes,
        "qs_spawn" => return Ext::QSpawn,
        "qs_yield" => return Ext::QYield,
        "qs_pause" => return Ext::QPause,
        "qs_block" => return Ext::QBlock,
        "qs_wake" => return Ext::QWake,
        "qs_tid" => return Ext::QTid,
        "qs_param" => return Ext::QParam,
        "qs_log" => return Ext::QLog,
        "qs_conc" => return Ext::QConc,
        "qs_thread_done" => return Ext::QDone,
        "qs_expect_panic" => return Ext::QExpectPanic,
        "qs_clock_advance" => return Ext::QAdvance,
        "qs_clock" => return Ext::QClock,
        "qs_unwind" => return Ext::QUnwind,
        "qs_try" => return Ext::QTry,
        _ => {}
    }
    if n.contains("available_parallelism") && n.contains("3std") {
        return Ext::NumCpus;
    }
    if n.contains("3std3sys6random") && n.contains("19hashmap_random_keys") {
        return Ext::RandomKeys;
    }
    if n.contains("3std4time") && n.contains("7Instant3now") {
        return Ext::ClockNow;
    }
    if f.declared_only && n.contains("3std4time") && n.contains("7Instant") {
        let ends = |x: &str| n.contains(&format!("7Instant{x}")) || n.ends_with(x) || n.contains(&format!("E{x}"));
        for (i, x) in ["7elapsed", "14duration_since", "25saturating_duration_since", "22checked_duration_since", "11checked_add", "11checked_sub"]
            .iter()
            .enumerate()
        {
            if n.contains(&format!("7Instant{x}")) {
                return Ext::InstantOp(i as u8);
            }
        }
        let dur = n.contains("8Duration");
        if ends("3add") {
            return Ext::InstantOp(6);
        }
        if ends("3sub") {
            return Ext::InstantOp(if dur { 7 } else { 8 });
        }
    }
    if n.contains("3std6thread") && n.contains("12park_timeout") {
        return Ext::ParkTimeout;
    }
    if n.contains("3std6thread") && n.contains("9functions4park") {
        return Ext::Park;
    }
    if n.contains("3std6thread7current7current") {
        return Ext::ThreadCurrent;
    }
    if f.declared_only && n.contains("3std3sys4sync") && ["14read_contended", "15write_contended", "14lock_contended"].iter().any(|x| n.contains(x)) {
        return Ext::LockContended;
    }
    if n.contains("3std3sys") && n.contains("10futex_wake") {
        return Ext::FutexWake;
    }
    if n.contains("11panic_count") && n.contains("is_zero_slow_path") {
        return Ext::PanicCount;
    }
    if f.noreturn {
        return Ext::Panic;
    }
    if f.declared_only {
        Ext::Unknown
    } else {
        Ext::Defined
    }
}

fn k2v(k: &K) -> V {
    match k {
        K::Int(v) => {
            if *v <= u64::MAX as u128 {
                V::C(*v as u64)
            } else {
                V::W(Box::new(*v))
            }
        }
        K::Undef => V::U,
        K::Agg(v) => V::A(Rc::new(v.iter().map(k2v).collect())),
    }
}

fn merr<T>(msg: String) -> Res<T> {
    Err(End::Viol { kind: "memory".into(), msg, prop: 0, code: 0 })
}
fn ierr<T>(msg: String) -> Res<T> {
    Err(End::Err(msg))
}

#[derive(Clone, Copy)]
enum Reg {
    G(usize),
    H(usize),
    S(usize, usize),
}

impl<'m> Exec<'m> {
    pub fn new(m: &'m Module, o: Opts, fp: bool, seed: u64) -> Self {
        let ext: Vec<Ext> = m.funcs.iter().map(classify).collect();
        let mut s = Exec {
            m,
            x: Exprs::default(),
            z: Z3::new(fp),
            o,
            ext,
            work: vec![],
            consts: vec![],
            paths: 0,
            killed: 0,
            forks: 0,
            instrs: 0,
            asserts: 0,
            assert_q: 0,
            entered: vec![false; m.funcs.len()],
            covers: vec![0; 256],
            viol: vec![],
            stop: false,
            soft: None,
            err_paths: 0,
            err: None,
            recent: vec![],
            max_steps: 0,
            samples: vec![],
            seen: 0,
            rng: seed.wrapping_mul(0x9E3779B97F4A7C15) | 1,
            assert_solver: 0,
            assert_const: 0,
            panics_expected: 0,
            bfs: false,
            max_nvars: 0,
            decided_syntactic: 0,
            forkdbg: std::env::var("QSYM_FORKDBG").is_ok(),
            decided_model: 0,
            ctx_switches: 0,
        };
        for g in &m.globals {
            let o = g.init.as_ref().map(|k| {
                let mut o = Obj::new(g.ty.size() as usize, g.align, 1);
                s.init_const(&mut o, 0, &g.ty, k);
                o.constant = g.constant;
                Rc::new(o)
            });
            s.consts.push(o);
        }
        s
    }
    fn init_const(&mut self, o: &mut Obj, off: u64, ty: &Ty, k: &K) {
        match (ty, k) {
            (Ty::Arr(..) | Ty::Struct(..), K::Agg(v)) => {
                for (i, e) in v.iter().enumerate() {
                    let (fo, ft) = ty.field(i as u64);
                    let ft = ft.clone();
                    self.init_const(o, off + fo, &ft, e);
                }
            }
            (Ty::Vec(..), K::Agg(v)) => {
                for (i, e) in v.iter().enumerate() {
                    let (fo, ft) = ty.field(i as u64);
                    let ft = ft.clone();
                    self.init_const(o, off + fo, &ft, e);
                }
            }
            (_, K::Int(v)) => {
                let sz = ty.size() as usize;
                let b = v.to_le_bytes();
                o.data[off as usize..off as usize + sz].copy_from_slice(&b[..sz]);
            }
            (_, K::Undef) => {
                for i in 0..ty.size() as usize {
                    o.tag[off as usize + i] = 0;
                }
            }
            _ => panic!("const init"),
        }
    }
    pub fn initial(&mut self, entry: &str) -> State {
        let f = *self.m.fidx.get(entry).unwrap_or_else(|| panic!("no entry {entry}"));
        let th = Thread {
            frames: vec![self.frame(f, vec![], None, 0)],
            stack: vec![],
            stat: TStat::Run,
            panics: 0,
        };
        State {
            th: vec![th],
            cur: 0,
            heap: vec![],
            globals: self.consts.clone(),
            path: vec![],
            facts: vec![],
            model: vec![],
            nvars: 0,
            steps: 0,
            log: vec![],
            live: 0,
            live_bytes: 0,
            preempt: 0,
            depth: 0,
            pending: None,
            clock: X::C(1000),
            obs: vec![],
            expect_panic: false,
            handle: 0,
        }
    }
    fn frame(&mut self, f: u32, args: Vec<V>, ret: Option<u32>, stk: usize) -> Frame {
        self.entered[f as usize] = true;
        let fu = &self.m.funcs[f as usize];
        let mut regs = args;
        regs.resize(fu.nregs.max(fu.nparams) as usize, V::U);
        Frame { f, bb: 0, ip: 0, regs, stk, ret, catch: false }
    }

    // ------------------------------------------------------------ decisions
    fn known(&mut self, st: &State, e: E) -> Option<bool> {
        for i in (0..st.path.len()).rev() {
            if let Some(b) = self.x.implied(st.path[i], e) {
                return Some(b);
            }
        }
        for i in (0..st.facts.len()).rev() {
            if let Some(b) = self.x.implied(st.facts[i], e) {
                return Some(b);
            }
        }
        None
    }
    fn feasible(&mut self, st: &State, e: E) -> Res<Option<Vec<u64>>> {
        // try recent models first
        'm: for i in (0..self.recent.len()).rev() {
            let m = &self.recent[i];
            if m.len() < st.nvars as usize || self.x.eval(e, m) == 0 {
                continue;
            }
            for &p in st.path.iter().rev() {
                if self.x.eval(p, m) == 0 {
                    continue 'm;
                }
            }
            self.decided_model += 1;
            return Ok(Some(m.clone()));
        }
        let mut model = vec![];
        match self.z.check(&self.x, &st.path, Some(e), &mut model) {
            R::Sat => {
                model.resize(st.nvars as usize, 0);
                // guard the encoding: the solver's model must satisfy our own evaluation
                for &p in st.path.iter().chain(std::iter::once(&e)) {
                    if self.x.eval(p, &model) == 0 {
                        return ierr(format!("solver model does not satisfy constraint {:?}", self.x.nodes[p as usize]));
                    }
                }
                if self.recent.len() >= 12 {
                    self.recent.remove(0);
                }
                self.recent.push(model.clone());
                Ok(Some(model))
            }
            R::Unsat => Ok(None),
            R::Unknown => ierr("solver returned unknown".into()),
        }
    }
    /// decide a 1-bit condition, forking when both outcomes are possible
    fn decide(&mut self, st: &mut State, c: X) -> Res<bool> {
        let e = match c {
            X::C(v) => return Ok(v != 0),
            X::S(e) => e,
        };
        if let Some(b) = self.known(st, e) {
            self.decided_syntactic += 1;
            return Ok(b);
        }
        let side = self.x.eval(e, &st.model) != 0;
        let ne = match self.x.not(X::S(e)) {
            X::S(n) => n,
            X::C(_) => unreachable!(),
        };
        let (mine, other) = if side { (e, ne) } else { (ne, e) };
        if let Some(model) = self.feasible(st, other)? {
            if self.forkdbg { eprintln!("FORK {}", self.m.funcs[st.th[st.cur].frames.last().unwrap().f as usize].name); }
            let mut s2 = st.clone();
            s2.path.push(other);
            s2.model = model;
            self.push(s2);
            st.path.push(mine);
        } else {
            st.facts.push(mine);
        }
        Ok(side)
    }
    fn push(&mut self, s: State) {
        self.forks += 1;
        self.work.push(s);
    }
    fn concretize(&mut self, st: &mut State, v: &V, w: u32) -> Res<u64> {
        match v {
            V::C(c) => Ok(*c),
            V::S(e) => {
                for _ in 0..100000 {
                    let val = self.x.eval(*e, &st.model);
                    if self.forkdbg { eprintln!("CONC {:#x} {}", val, self.x.show(*e)); }
                    let c = self.x.cmp(Pred::Eq, w, X::S(*e), X::C(val));
                    if self.decide(st, c)? {
                        return Ok(val);
                    }
                }
                ierr("concretize".into())
            }
            V::U => merr("use of an uninitialised/undefined value as address or size".into()),
            _ => ierr("concretize aggregate".into()),
        }
    }
    fn xv(&self, v: &V) -> Res<X> {
        match v {
            V::C(c) => Ok(X::C(*c)),
            V::S(e) => Ok(X::S(*e)),
            V::U => merr("undefined value in a decision".into()),
            _ => ierr(format!("aggregate where scalar expected: {v:?}")),
        }
    }
    fn vx(x: X) -> V {
        match x {
            X::C(c) => V::C(c),
            X::S(e) => V::S(e),
        }
    }

    // ------------------------------------------------------------ memory
    fn region(&self, st: &State, addr: u64) -> Option<Reg> {
        let idx = ((addr >> OBJ_SHIFT) & 0xFFFFF) as usize;
        match addr >> 44 {
            1 => idx.checked_sub(1).filter(|i| *i < st.globals.len()).map(Reg::G),
            2 => idx.checked_sub(1).filter(|i| *i < st.heap.len()).map(Reg::H),
            3 => {
                let t = idx >> 16;
                let i = (idx & 0xFFFF).checked_sub(1)?;
                if t < st.th.len() && i < st.th[t].stack.len() {
                    Some(Reg::S(t, i))
                } else {
                    None
                }
            }
            _ => None,
        }
    }
    fn obj<'s>(&self, st: &'s State, addr: u64, size: u64) -> Res<(&'s Obj, usize)> {
        let off = addr & ((1 << OBJ_SHIFT) - 1);
        let o: &Obj = match self.region(st, addr) {
            Some(Reg::G(i)) => match &st.globals[i] {
                Some(o) => o,
                None => return ierr(format!("access to external global {}", self.m.globals[i].name)),
            },
            Some(Reg::H(i)) => match &st.heap[i] {
                Some(o) => o,
                None => return merr(format!("use after free of heap object #{i}")),
            },
            Some(Reg::S(t, i)) => &st.th[t].stack[i],
            None => return merr(format!("invalid pointer {addr:#x} (access of {size} bytes)")),
        };
        if off + size > o.data.len() as u64 {
            return merr(format!("out-of-bounds access: offset {off} size {size} in object of {} bytes", o.data.len()));
        }
        Ok((o, off as usize))
    }
    fn obj_mut<'s>(&self, st: &'s mut State, addr: u64, size: u64) -> Res<(&'s mut Obj, usize)> {
        let off = addr & ((1 << OBJ_SHIFT) - 1);
        let o: &mut Rc<Obj> = match self.region(st, addr) {
            Some(Reg::G(i)) => match &mut st.globals[i] {
                Some(o) => o,
                None => return ierr(format!("access to external global {}", self.m.globals[i].name)),
            },
            Some(Reg::H(i)) => match &mut st.heap[i] {
                Some(o) => o,
                None => return merr(format!("write after free of heap object #{i}")),
            },
            Some(Reg::S(t, i)) => &mut st.th[t].stack[i],
            None => return merr(format!("invalid pointer {addr:#x} (write of {size} bytes)")),
        };
        if off + size > o.data.len() as u64 {
            return merr(format!("out-of-bounds write: offset {off} size {size} in object of {} bytes", o.data.len()));
        }
        if o.constant {
            return merr("write to constant memory".into());
        }
        Ok((Rc::make_mut(o), off as usize))
    }
    fn load_int(&mut self, st: &State, addr: u64, w: u32) -> Res<V> {
        let n = (w as usize).div_ceil(8);
        let (o, off) = self.obj(st, addr, n as u64)?;
        let tags = &o.tag[off..off + n];
        if tags.iter().all(|&t| t == 1) {
            if n <= 8 {
                let mut b = [0u8; 8];
                b[..n].copy_from_slice(&o.data[off..off + n]);
                return Ok(V::C(u64::from_le_bytes(b) & mask(w)));
            }
            let mut b = [0u8; 16];
            b[..n].copy_from_slice(&o.data[off..off + n]);
            return Ok(V::W(Box::new(u128::from_le_bytes(b))));
        }
        if tags.iter().all(|&t| t == 0) {
            return Ok(V::U);
        }
        if n > 8 {
            return ierr("symbolic wide load".into());
        }
        if !tags.iter().any(|&t| t == 2) {
            // partially initialised (padding): missing bytes read as 0
            let mut b = [0u8; 8];
            for i in 0..n {
                if tags[i] == 1 {
                    b[i] = o.data[off + i];
                }
            }
            return Ok(V::C(u64::from_le_bytes(b) & mask(w)));
        }
        // symbolic bytes
        let sym = o.sym.as_ref().unwrap();
        let mut parts: Vec<X> = vec![];
        let mut whole: Option<E> = None;
        for i in 0..n {
            match o.tag[off + i] {
                2 => {
                    let (e, lo) = sym[&((off + i) as u32)];
                    if i == 0 && lo == 0 {
                        whole = Some(e);
                    }
                    if whole != Some(e) || lo != 8 * i as u32 {
                        whole = None;
                    }
                }
                _ => whole = None,
            }
        }
        if let Some(e) = whole {
            let we = self.x.width(e);
            if we.div_ceil(8) as usize == n {
                if we == w {
                    return Ok(V::S(e));
                }
                // stored with odd width (i1): value was zero-extended into its byte
                if we < w {
                    let r = self.x.zext(w, X::S(e), we);
                    return Ok(Self::vx(r));
                }
                let r = self.x.extract(w, 0, X::S(e));
                return Ok(Self::vx(r));
            }
        }
        let items: Vec<(u8, u8, (E, u32))> = (0..n)
            .map(|i| {
                (
                    o.tag[off + i],
                    o.data[off + i],
                    if o.tag[off + i] == 2 { sym[&((off + i) as u32)] } else { (0, 0) },
                )
            })
            .collect();
        for (t, d, (e, lo)) in items {
            parts.push(match t {
                2 => {
                    let we = self.x.width(e);
                    if lo + 8 <= we {
                        self.x.extract(8, lo, X::S(e))
                    } else {
                        let y = self.x.extract(we - lo, lo, X::S(e));
                        self.x.zext(8, y, we - lo)
                    }
                }
                1 => X::C(d as u64),
                _ => X::C(0),
            });
        }
        let mut acc = parts[0];
        for (i, p) in parts.iter().enumerate().skip(1) {
            acc = self.x.concat(*p, 8, acc, 8 * i as u32);
        }
        let full = 8 * n as u32;
        if full != w {
            acc = self.x.extract(w, 0, acc);
        }
        Ok(Self::vx(acc))
    }
    fn store_int(&mut self, st: &mut State, addr: u64, w: u32, v: &V) -> Res<()> {
        let n = (w as usize).div_ceil(8);
        let (o, off) = self.obj_mut(st, addr, n as u64)?;
        if let Some(s) = &mut o.sym {
            for i in 0..n {
                if o.tag[off + i] == 2 {
                    s.remove(&((off + i) as u32));
                }
            }
        }
        match v {
            V::C(c) => {
                if n <= 8 {
                    o.data[off..off + n].copy_from_slice(&c.to_le_bytes()[..n]);
                } else {
                    o.data[off..off + n].copy_from_slice(&(*c as u128).to_le_bytes()[..n]);
                }
                o.tag[off..off + n].fill(1);
            }
            V::W(c) => {
                o.data[off..off + n].copy_from_slice(&c.to_le_bytes()[..n]);
                o.tag[off..off + n].fill(1);
            }
            V::U => o.tag[off..off + n].fill(0),
            V::S(e) => {
                let s = o.sym.get_or_insert_with(Default::default);
                for i in 0..n {
                    o.tag[off + i] = 2;
                    s.insert((off + i) as u32, (*e, 8 * i as u32));
                }
            }
            V::A(_) => return ierr("aggregate store_int".into()),
        }
        Ok(())
    }
    fn load(&mut self, st: &State, addr: u64, ty: &Ty) -> Res<V> {
        match ty {
            Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64 => self.load_int(st, addr, ty.width()),
            Ty::Vec(n, e) if **e == Ty::Int(1) => {
                let mut v = vec![];
                for i in 0..*n {
                    let b = self.load_int(st, addr + i / 8, 8)?;
                    v.push(match b {
                        V::C(c) => V::C((c >> (i % 8)) & 1),
                        V::U => V::U,
                        V::S(x) => Self::vx(self.x.extract(1, (i % 8) as u32, X::S(x))),
                        _ => return ierr("vec i1".into()),
                    });
                }
                Ok(V::A(Rc::new(v)))
            }
            Ty::Arr(..) | Ty::Vec(..) | Ty::Struct(..) => {
                let mut v = vec![];
                for i in 0..ty.nfields() {
                    let (o, t) = ty.field(i);
                    v.push(self.load(st, addr + o, t)?);
                }
                Ok(V::A(Rc::new(v)))
            }
            _ => ierr("load type".into()),
        }
    }
    fn store(&mut self, st: &mut State, addr: u64, ty: &Ty, v: &V) -> Res<()> {
        match ty {
            Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64 => self.store_int(st, addr, ty.width(), v),
            Ty::Vec(n, e) if **e == Ty::Int(1) => {
                let V::A(vs) = v else {
                    return if let V::U = v { Ok(()) } else { ierr("vec i1 store".into()) };
                };
                let p = self.pack(vs, 1)?;
                self.store_int(st, addr, *n as u32, &p)
            }
            Ty::Arr(..) | Ty::Vec(..) | Ty::Struct(..) => {
                let vs = match v {
                    V::A(vs) => vs.clone(),
                    V::U => Rc::new(vec![V::U; ty.nfields() as usize]),
                    _ => return ierr("agg store".into()),
                };
                for i in 0..ty.nfields() {
                    let (o, t) = ty.field(i);
                    self.store(st, addr + o, t, &vs[i as usize])?;
                }
                Ok(())
            }
            _ => ierr("store type".into()),
        }
    }
    /// little-endian packing of vector elements of width w into one integer
    fn pack(&mut self, vs: &[V], w: u32) -> Res<V> {
        let tot = w * vs.len() as u32;
        if vs.iter().all(|v| matches!(v, V::U)) {
            return Ok(V::U);
        }
        if vs.iter().all(|v| matches!(v, V::C(_) | V::U)) {
            let mut r: u128 = 0;
            for (i, v) in vs.iter().enumerate() {
                if let V::C(c) = v {
                    r |= (*c as u128) << (i as u32 * w);
                }
            }
            return Ok(if tot <= 64 { V::C(r as u64) } else { V::W(Box::new(r)) });
        }
        if tot > 64 {
            return ierr("wide symbolic pack".into());
        }
        let mut acc = X::C(0);
        let mut aw = 0;
        for v in vs {
            let x = match v {
                V::U => X::C(0),
                v => self.xv(v)?,
            };
            acc = if aw == 0 { x } else { self.x.concat(x, w, acc, aw) };
            aw += w;
        }
        Ok(Self::vx(acc))
    }
    fn copy(&mut self, st: &mut State, dst: u64, src: u64, n: u64) -> Res<()> {
        if n == 0 || dst == src {
            return Ok(());
        }
        let (o, off) = self.obj(st, src, n)?;
        let n = n as usize;
        let data = o.data[off..off + n].to_vec();
        let tag = o.tag[off..off + n].to_vec();
        let syms: Vec<(u32, (E, u32))> = if tag.contains(&2) {
            o.sym
                .as_ref()
                .unwrap()
                .range(off as u32..(off + n) as u32)
                .map(|(k, v)| (*k - off as u32, *v))
                .collect()
        } else {
            vec![]
        };
        let (d, doff) = self.obj_mut(st, dst, n as u64)?;
        if let Some(s) = &mut d.sym {
            let ks: Vec<u32> = s.range(doff as u32..(doff + n) as u32).map(|x| *x.0).collect();
            for k in ks {
                s.remove(&k);
            }
        }
        d.data[doff..doff + n].copy_from_slice(&data);
        d.tag[doff..doff + n].copy_from_slice(&tag);
        if !syms.is_empty() {
            let s = d.sym.get_or_insert_with(Default::default);
            for (k, v) in syms {
                s.insert(doff as u32 + k, v);
            }
        }
        Ok(())
    }
    fn alloc(&mut self, st: &mut State, size: u64, align: u64, zero: bool) -> Res<u64> {
        if size >= 1 << OBJ_SHIFT {
            return ierr(format!("allocation of {size} bytes exceeds the executor's object size"));
        }
        let idx = st.heap.len() as u64;
        if idx >= 0xFFFF0 {
            return ierr("too many heap objects".into());
        }
        st.heap.push(Some(Rc::new(Obj::new(size as usize, align, zero as u8))));
        st.live += 1;
        st.live_bytes += size;
        Ok(HEAP_BASE + ((idx + 1) << OBJ_SHIFT))
    }
    fn dealloc(&mut self, st: &mut State, p: u64, size: u64, align: u64) -> Res<()> {
        let Some(Reg::H(i)) = self.region(st, p) else {
            return merr(format!("free of non-heap pointer {p:#x}"));
        };
        let Some(o) = &st.heap[i] else {
            return merr(format!("double free of heap object #{i}"));
        };
        if p & ((1 << OBJ_SHIFT) - 1) != 0 || o.data.len() as u64 != size || o.align != align {
            return merr(format!("free with wrong layout: size {size} vs {}", o.data.len()));
        }
        st.heap[i] = None;
        st.live -= 1;
        st.live_bytes -= size;
        Ok(())
    }

    // ------------------------------------------------------------ values
    fn binv(&mut self, op: Bop, w: u32, a: &V, b: &V) -> Res<V> {
        match (a, b) {
            (V::U, V::C(0)) | (V::C(0), V::U) if op == Bop::And || op == Bop::Mul => return Ok(V::C(0)),
            (V::U, V::C(c)) | (V::C(c), V::U) if op == Bop::Or && *c == mask(w) => return Ok(V::C(*c)),
            // padding bytes packed next to defined ones: undefined bits read as 0
            (V::U, V::U) => return Ok(V::U),
            (V::U, x) | (x, V::U) if op == Bop::Or => return Ok(x.clone()),
            (V::U, _) | (_, V::U) => return Ok(V::U),
            _ => {}
        }
        if w > 64 {
            let g = |v: &V| -> Res<u128> {
                match v {
                    V::C(c) => Ok(*c as u128),
                    V::W(c) => Ok(**c),
                    _ => ierr("wide symbolic".into()),
                }
            };
            let (x, y) = (g(a)?, g(b)?);
            let m = if w >= 128 { u128::MAX } else { (1u128 << w) - 1 };
            let r = match op {
                Bop::Add => x.wrapping_add(y),
                Bop::Sub => x.wrapping_sub(y),
                Bop::Mul => x.wrapping_mul(y),
                Bop::And => x & y,
                Bop::Or => x | y,
                Bop::Xor => x ^ y,
                Bop::Shl => x << (y as u32 & 127),
                Bop::LShr => x >> (y as u32 & 127),
                Bop::UDiv if y != 0 => x / y,
                Bop::URem if y != 0 => x % y,
                _ => return ierr("wide op".into()),
            };
            return Ok(V::W(Box::new(r & m)));
        }
        let (x, y) = (self.xv(a)?, self.xv(b)?);
        match self.x.bin(op, w, x, y) {
            Some(r) => Ok(Self::vx(r)),
            None => Ok(V::U), // oversized shift: poison; division by zero is checked by the caller
        }
    }
    fn cmpv(&mut self, p: Pred, w: u32, a: &V, b: &V) -> Res<V> {
        match (a, b) {
            (V::U, _) | (_, V::U) => return Ok(V::U),
            (V::W(_), _) | (_, V::W(_)) => {
                let g = |v: &V| -> Res<u128> {
                    match v {
                        V::C(c) => Ok(*c as u128),
                        V::W(c) => Ok(**c),
                        _ => ierr("wide symbolic".into()),
                    }
                };
                let (x, y) = (g(a)?, g(b)?);
                let (sx, sy) = ((x << (128 - w)) as i128 >> (128 - w), (y << (128 - w)) as i128 >> (128 - w));
                let r = match p {
                    Pred::Eq => x == y,
                    Pred::Ne => x != y,
                    Pred::Ult => x < y,
                    Pred::Ule => x <= y,
                    Pred::Ugt => x > y,
                    Pred::Uge => x >= y,
                    Pred::Slt => sx < sy,
                    Pred::Sle => sx <= sy,
                    Pred::Sgt => sx > sy,
                    Pred::Sge => sx >= sy,
                };
                return Ok(V::C(r as u64));
            }
            _ => {}
        }
        let (x, y) = (self.xv(a)?, self.xv(b)?);
        Ok(Self::vx(self.x.cmp(p, w, x, y)))
    }
    fn op(&self, fr: &Frame, o: &Op) -> V {
        match o {
            Op::R(r) => fr.regs[*r as usize].clone(),
            Op::C(K::Int(v)) if *v <= u64::MAX as u128 => V::C(*v as u64),
            Op::C(k) => k2v(k),
        }
    }
    fn cast(&mut self, st: &mut State, c: Cast, v: &V, from: &Ty, to: &Ty) -> Res<V> {
        if from.is_agg() || to.is_agg() {
            if c != Cast::Bit {
                // element-wise
                let V::A(vs) = v else { return Ok(V::U) };
                let (Ty::Vec(_, fe), Ty::Vec(_, te)) = (from, to) else { return ierr("vec cast".into()) };
                let mut out = vec![];
                for x in vs.iter() {
                    out.push(self.cast(st, c, x, fe, te)?);
                }
                return Ok(V::A(Rc::new(out)));
            }
            // bitcast through a bit string
            let (vs, ew): (Vec<V>, u32) = match (v, from) {
                (V::A(vs), Ty::Vec(_, e)) => (vs.to_vec(), e.width()),
                (V::U, _) => return Ok(k2v(&undef_of(to))),
                (x, _) => (vec![x.clone()], from.width()),
            };
            let (tn, tw) = match to {
                Ty::Vec(n, e) => (*n as usize, e.width()),
                t => (1, t.width()),
            };
            if tn == 1 && !to.is_agg() {
                return self.pack(&vs, ew);
            }
            if tw == ew {
                return Ok(V::A(Rc::new(vs)));
            }
            let mut out = vec![];
            if tw < ew {
                let k = (ew / tw) as usize;
                for x in &vs {
                    for j in 0..k {
                        out.push(match x {
                            V::U => V::U,
                            V::C(c) => V::C((c >> (j as u32 * tw)) & mask(tw)),
                            V::W(c) => V::C((**c >> (j as u32 * tw)) as u64 & mask(tw)),
                            V::S(e) => Self::vx(self.x.extract(tw, j as u32 * tw, X::S(*e))),
                            _ => return ierr("bitcast".into()),
                        });
                    }
                }
            } else {
                let k = (tw / ew) as usize;
                for ch in vs.chunks(k) {
                    out.push(self.pack(ch, ew)?);
                }
            }
            return Ok(V::A(Rc::new(out)));
        }
        if let V::U = v {
            return Ok(V::U);
        }
        let (fw, tw) = (from.width(), to.width());
        match c {
            Cast::Bit => Ok(v.clone()),
            Cast::ZExt => match v {
                V::W(_) => Ok(v.clone()),
                v => {
                    let x = self.xv(v)?;
                    if tw > 64 {
                        return match x {
                            X::C(c) => Ok(V::W(Box::new(c as u128))),
                            _ => ierr("zext to wide symbolic".into()),
                        };
                    }
                    Ok(Self::vx(self.x.zext(tw, x, fw)))
                }
            },
            Cast::SExt => {
                let x = self.xv(v)?;
                if tw > 64 {
                    return match x {
                        X::C(c) => Ok(V::W(Box::new(sext64(c, fw) as i128 as u128))),
                        _ => ierr("sext to wide symbolic".into()),
                    };
                }
                Ok(Self::vx(self.x.sext(tw, x, fw)))
            }
            Cast::Trunc => match v {
                V::W(c) => {
                    if tw > 64 {
                        Ok(V::W(Box::new(**c & ((1u128 << tw) - 1))))
                    } else {
                        Ok(V::C(**c as u64 & mask(tw)))
                    }
                }
                v => {
                    let x = self.xv(v)?;
                    Ok(Self::vx(self.x.extract(tw, 0, x)))
                }
            },
            Cast::UiToFp | Cast::SiToFp if *to == Ty::F64 && matches!(v, V::S(_)) => {
                let x = self.xv(v)?;
                let x = if c == Cast::UiToFp { self.x.zext(64, x, fw) } else { self.x.sext(64, x, fw) };
                Ok(Self::vx(self.x.fop(if c == Cast::UiToFp { Fo::FromU } else { Fo::FromS }, x, X::C(0))))
            }
            Cast::UiToFp => {
                let c = self.concretize(st, v, fw)?;
                Ok(V::C(if *to == Ty::F64 { (c as f64).to_bits() } else { (c as f32).to_bits() as u64 }))
            }
            Cast::SiToFp => {
                let c = sext64(self.concretize(st, v, fw)?, fw);
                Ok(V::C(if *to == Ty::F64 { (c as f64).to_bits() } else { (c as f32).to_bits() as u64 }))
            }
            Cast::FpToUi | Cast::FpToSi => {
                let f = self.getf(v, from)?;
                let r = if c == Cast::FpToUi { f as u64 } else { f as i64 as u64 };
                Ok(V::C(r & mask(tw)))
            }
            Cast::FpTrunc => Ok(V::C((self.getf(v, from)? as f32).to_bits() as u64)),
            Cast::FpExt => Ok(V::C(self.getf(v, from)?.to_bits())),
        }
    }
    fn getf(&self, v: &V, t: &Ty) -> Res<f64> {
        match (v, t) {
            (V::C(c), Ty::F64) => Ok(f64::from_bits(*c)),
            (V::C(c), Ty::F32) => Ok(f32::from_bits(*c as u32) as f64),
            _ => ierr("symbolic float".into()),
        }
    }
    fn putf(f: f64, t: &Ty) -> V {
        if *t == Ty::F64 {
            V::C(f.to_bits())
        } else {
            V::C((f as f32).to_bits() as u64)
        }
    }

    // ------------------------------------------------------------ main loop
    pub fn run(&mut self, mut st: State) {
        let end = loop {
            match self.step_many(&mut st) {
                Ok(()) => {
                    if self.bfs {
                        // breadth phase: yield after each choice
                        self.work.push(st);
                        return;
                    }
                }
                Err(e) => break e,
            }
        };
        self.max_steps = self.max_steps.max(st.steps);
        self.max_nvars = self.max_nvars.max(st.nvars);
        match end {
            End::Ok => {
                self.paths += 1;
                // reservoir sample of finished paths, for replay against the native build
                self.seen += 1;
                self.rng ^= self.rng << 13;
                self.rng ^= self.rng >> 7;
                self.rng ^= self.rng << 17;
                let k = (self.rng % self.seen) as usize;
                if self.samples.len() < 4 || k < 4 {
                    let s = (self.inputs(&st), self.obs_hash(&st));
                    if self.samples.len() < 4 {
                        self.samples.push(s);
                    } else {
                        self.samples[k] = s;
                    }
                }
            }
            End::Kill => self.killed += 1,
            End::Viol { kind, msg, prop, code } => {
                self.paths += 1;
                let inputs = self.inputs(&st);
                let trace = self.backtrace(&st);
                if kind == "assert" {
                    self.stop = true;
                }
                let soft = *self.soft.get_or_insert_with(std::time::Instant::now);
                if self.stop || soft.elapsed().as_secs() >= 5 {
                    self.stop = true;
                }
                // one of each sort
                if self.viol.len() < 6 && !self.viol.iter().any(|v| v.kind == kind && v.msg == msg && v.trace.first() == trace.first()) {
                    self.viol.push(Viol { kind, msg, prop, code, inputs, trace });
                }
            }
            End::Err(m) => {
                self.err_paths += 1;
                if self.err_paths > 2000 {
                    self.stop = true;
                }
                if self.err.is_none() {
                    let t = self.backtrace(&st).join(" <- ");
                    let i = self.inputs(&st);
                    self.err = Some(format!("{m} [at {t}] inputs={i:?}"));
                }
            }
        }
    }
    fn inputs(&self, st: &State) -> Vec<u64> {
        st.log
            .iter()
            .map(|&(s, v)| if s { self.x.eval(v as E, &st.model) } else { v })
            .collect()
    }
    fn obs_hash(&self, st: &State) -> u64 {
        let mut h: u64 = 0xcbf29ce484222325;
        for v in &st.obs {
            let x = match v {
                V::C(c) => *c,
                V::S(e) => self.x.eval(*e, &st.model),
                _ => 0,
            };
            h = (h ^ x).wrapping_mul(0x100000001b3);
            h ^= h >> 29;
        }
        h
    }
    fn backtrace(&self, st: &State) -> Vec<String> {
        st.th[st.cur]
            .frames
            .iter()
            .rev()
            .take(12)
            .map(|f| self.m.funcs[f.f as usize].name.clone())
            .collect()
    }

    /// run until the path ends or (in breadth mode) a fork point was passed
    fn step_many(&mut self, st: &mut State) -> Res<()> {
        let m = self.m;
        loop {
            if st.th[st.cur].stat != TStat::Run || st.th[st.cur].frames.is_empty() {
                return ierr("scheduler picked a thread that cannot run".into());
            }
            let fr = st.th[st.cur].frames.last().unwrap();
            let f = &m.funcs[fr.f as usize];
            let b = &f.blocks[fr.bb as usize];
            let ins = &b.ins[fr.ip as usize];
            st.steps += 1;
            self.instrs += 1;
            if st.steps > self.o.step_limit {
                return Err(End::Viol {
                    kind: "nontermination".into(),
                    msg: format!("no termination within {} IR steps", self.o.step_limit),
                    prop: 0,
                    code: 0,
                });
            }
            if self.o.trace {
                eprintln!("T{} {} bb{} {}: {:?}", st.cur, f.name, fr.bb, fr.ip, ins);
            }
            let nf = self.work.len();
            let cont = self.step(st, f, ins)?;
            if cont {
                let fr = st.th[st.cur].frames.last_mut().unwrap();
                fr.ip += 1;
            }
            if self.bfs && self.work.len() > nf {
                return Ok(());
            }
        }
    }
    fn set(&self, st: &mut State, r: u32, v: V) {
        st.th[st.cur].frames.last_mut().unwrap().regs[r as usize] = v;
    }
    fn jump(&mut self, st: &mut State, to: u32) -> Res<()> {
        let m = self.m;
        let fr = st.th[st.cur].frames.last_mut().unwrap();
        let from = fr.bb;
        let b = &m.funcs[fr.f as usize].blocks[to as usize];
        if b.phis.len() == 1 {
            let (d, srcs) = &b.phis[0];
            let o = &srcs.iter().find(|s| s.0 == from).unwrap().1;
            let v = match o {
                Op::R(r) => fr.regs[*r as usize].clone(),
                Op::C(k) => k2v(k),
            };
            fr.regs[*d as usize] = v;
        } else if !b.phis.is_empty() {
            let mut vals = Vec::with_capacity(b.phis.len());
            for (_, srcs) in &b.phis {
                let o = &srcs.iter().find(|s| s.0 == from).unwrap().1;
                vals.push(match o {
                    Op::R(r) => fr.regs[*r as usize].clone(),
                    Op::C(k) => k2v(k),
                });
            }
            for ((d, _), v) in b.phis.iter().zip(vals) {
                fr.regs[*d as usize] = v;
            }
        }
        fr.bb = to;
        fr.ip = 0;
        Ok(())
    }
    fn vec2(&self, a: V, b: V, n: u64) -> (Rc<Vec<V>>, Rc<Vec<V>>) {
        let g = |v: V| match v {
            V::A(x) => x,
            _ => Rc::new(vec![V::U; n as usize]),
        };
        (g(a), g(b))
    }
    /// executes one instruction; returns whether to advance ip
    fn step(&mut self, st: &mut State, _f: &'m Func, ins: &'m I) -> Res<bool> {
        let cur = st.cur;
        macro_rules! opv {
            ($o:expr) => {
                self.op(st.th[cur].frames.last().unwrap(), $o)
            };
        }
        match ins {
            I::Bin(op, ty, d, a, b) => {
                let (a, b) = (opv!(a), opv!(b));
                if let Ty::Vec(n, e) = ty {
                    let (x, y) = self.vec2(a, b, *n);
                    let mut out = Vec::with_capacity(x.len());
                    for i in 0..x.len() {
                        out.push(self.binv(*op, e.width(), &x[i], &y[i])?);
                    }
                    self.set(st, *d, V::A(Rc::new(out)));
                    return Ok(true);
                }
                let w = ty.width();
                if matches!(op, Bop::UDiv | Bop::SDiv | Bop::URem | Bop::SRem) && w <= 64 {
                    if let V::S(_) = b {
                        let x = self.xv(&b)?;
                        let z = self.x.cmp(Pred::Eq, w, x, X::C(0));
                        if self.decide(st, z)? {
                            return merr("division by zero".into());
                        }
                    } else if let V::C(0) = b {
                        return merr("division by zero".into());
                    }
                }
                let r = self.binv(*op, w, &a, &b)?;
                self.set(st, *d, r);
            }
            I::FBin(op, Ty::F64, d, a, b) if matches!((opv!(a), opv!(b)), (V::S(_), _) | (_, V::S(_))) => {
                let (x, y) = (self.xv(&opv!(a))?, self.xv(&opv!(b))?);
                let op = match op {
                    Fop::Add => Fo::Add,
                    Fop::Sub => Fo::Sub,
                    Fop::Mul => Fo::Mul,
                    Fop::Div => Fo::Div,
                    Fop::Rem => return ierr("symbolic frem".into()),
                };
                let r = Self::vx(self.x.fop(op, x, y));
                self.set(st, *d, r);
            }
            I::FBin(op, ty, d, a, b) => {
                let (x, y) = (self.getf(&opv!(a), ty)?, self.getf(&opv!(b), ty)?);
                let r = if *ty == Ty::F32 {
                    let (x, y) = (x as f32, y as f32);
                    (match op {
                        Fop::Add => x + y,
                        Fop::Sub => x - y,
                        Fop::Mul => x * y,
                        Fop::Div => x / y,
                        Fop::Rem => x % y,
                    }) as f64
                } else {
                    match op {
                        Fop::Add => x + y,
                        Fop::Sub => x - y,
                        Fop::Mul => x * y,
                        Fop::Div => x / y,
                        Fop::Rem => x % y,
                    }
                };
                self.set(st, *d, Self::putf(r, ty));
            }
            I::FNeg(Ty::F64, d, a) if matches!(opv!(a), V::S(_)) => {
                let x = self.xv(&opv!(a))?;
                let r = Self::vx(self.x.fop(Fo::Neg, x, X::C(0)));
                self.set(st, *d, r);
            }
            I::FNeg(ty, d, a) => {
                let x = self.getf(&opv!(a), ty)?;
                self.set(st, *d, Self::putf(-x, ty));
            }
            I::FCmp(p, Ty::F64, d, a, b) if matches!((opv!(a), opv!(b)), (V::S(_), _) | (_, V::S(_))) => {
                let (x, y) = (self.xv(&opv!(a))?, self.xv(&opv!(b))?);
                let r = match p.as_str() {
                    "oeq" => self.x.fcmp(Fc::Oeq, x, y),
                    "olt" => self.x.fcmp(Fc::Olt, x, y),
                    "ole" => self.x.fcmp(Fc::Ole, x, y),
                    "ogt" => self.x.fcmp(Fc::Olt, y, x),
                    "oge" => self.x.fcmp(Fc::Ole, y, x),
                    "uno" => self.x.fcmp(Fc::Uno, x, y),
                    "true" => X::C(1),
                    "false" => X::C(0),
                    q => {
                        // negations of the ordered predicates
                        let t = match q {
                            "une" => self.x.fcmp(Fc::Oeq, x, y),
                            "uge" => self.x.fcmp(Fc::Olt, x, y),
                            "ugt" => self.x.fcmp(Fc::Ole, x, y),
                            "ule" => self.x.fcmp(Fc::Olt, y, x),
                            "ult" => self.x.fcmp(Fc::Ole, y, x),
                            "ord" => self.x.fcmp(Fc::Uno, x, y),
                            "one" | "ueq" => {
                                let u = self.x.fcmp(Fc::Uno, x, y);
                                let e = self.x.fcmp(Fc::Oeq, x, y);
                                let o = self.x.or(u, e);
                                if q == "ueq" {
                                    self.x.not(o)
                                } else {
                                    o
                                }
                            }
                            _ => return ierr(format!("fcmp {q}")),
                        };
                        self.x.not(t)
                    }
                };
                self.set(st, *d, Self::vx(r));
            }
            I::FCmp(p, ty, d, a, b) => {
                let (x, y) = (self.getf(&opv!(a), ty)?, self.getf(&opv!(b), ty)?);
                let un = x.is_nan() || y.is_nan();
                let r = match p.as_str() {
                    "oeq" => x == y,
                    "ogt" => x > y,
                    "oge" => x >= y,
                    "olt" => x < y,
                    "ole" => x <= y,
                    "one" => !un && x != y,
                    "ord" => !un,
                    "uno" => un,
                    "ueq" => un || x == y,
                    "ugt" => un || x > y,
                    "uge" => un || x >= y,
                    "ult" => un || x < y,
                    "ule" => un || x <= y,
                    "une" => x != y,
                    "true" => true,
                    _ => false,
                };
                self.set(st, *d, V::C(r as u64));
            }
            I::ICmp(p, ty, d, a, b) => {
                let (a, b) = (opv!(a), opv!(b));
                if let Ty::Vec(n, e) = ty {
                    let (x, y) = self.vec2(a, b, *n);
                    let w = e.width();
                    let mut out = Vec::with_capacity(x.len());
                    for i in 0..x.len() {
                        out.push(match (&x[i], &y[i]) {
                            (V::C(q), V::C(r)) => V::C(ccmp(*p, w, *q, *r) as u64),
                            (q, r) => self.cmpv(*p, w, q, r)?,
                        });
                    }
                    self.set(st, *d, V::A(Rc::new(out)));
                    return Ok(true);
                }
                let r = self.cmpv(*p, ty.width(), &a, &b)?;
                self.set(st, *d, r);
            }
            I::Select(ty, d, c, a, b, vecc) => {
                let c = opv!(c);
                let (a, b) = (opv!(a), opv!(b));
                if *vecc {
                    let V::A(cs) = c else { return ierr("select".into()) };
                    let n = cs.len() as u64;
                    let (x, y) = self.vec2(a, b, n);
                    let mut out = vec![];
                    for i in 0..cs.len() {
                        out.push(match &cs[i] {
                            V::C(0) => y[i].clone(),
                            V::C(_) => x[i].clone(),
                            V::U => V::U,
                            _ => return ierr("symbolic vector select".into()),
                        });
                    }
                    self.set(st, *d, V::A(Rc::new(out)));
                    return Ok(true);
                }
                let r = match &c {
                    V::C(0) => b,
                    V::C(_) => a,
                    V::S(e) => {
                        let mut e = X::S(*e);
                        if let X::S(q) = e {
                            if let Some(k) = self.known(st, q) {
                                e = X::C(k as u64);
                            }
                        }
                        match (e, &a, &b, ty) {
                            (X::C(0), _, _, _) => b,
                            (X::C(_), _, _, _) => a,
                            (_, V::C(_) | V::S(_), V::C(_) | V::S(_), Ty::Int(w)) if *w <= 64 => {
                                let (x, y) = (self.xv(&a)?, self.xv(&b)?);
                                Self::vx(self.x.ite(*w, e, x, y))
                            }
                            _ => {
                                if self.decide(st, e)? {
                                    a
                                } else {
                                    b
                                }
                            }
                        }
                    }
                    V::U => {
                        // select on poison is poison
                        V::U
                    }
                    _ => return ierr("select".into()),
                };
                self.set(st, *d, r);
            }
            I::Load(ty, d, p) => {
                let p = opv!(p);
                let a = self.concretize(st, &p, 64)?;
                let v = self.load(st, a, ty)?;
                self.set(st, *d, v);
            }
            I::Store(ty, v, p) => {
                let p = opv!(p);
                let v = opv!(v);
                let a = self.concretize(st, &p, 64)?;
                self.store(st, a, ty, &v)?;
            }
            I::Gep(d, base, off, dynv) => {
                let b = opv!(base);
                let mut acc = match b {
                    V::C(c) => X::C(c.wrapping_add(*off as u64)),
                    V::U => {
                        self.set(st, *d, V::U);
                        return Ok(true);
                    }
                    v => {
                        let x = self.xv(&v)?;
                        self.x.bin(Bop::Add, 64, x, X::C(*off as u64)).unwrap()
                    }
                };
                for (o, w, sc) in dynv {
                    let v = opv!(o);
                    let v = match v {
                        V::U => {
                            self.set(st, *d, V::U);
                            return Ok(true);
                        }
                        v => self.xv(&v)?,
                    };
                    let v = self.x.sext(64, v, *w);
                    let v = self.x.bin(Bop::Mul, 64, v, X::C(*sc as u64)).unwrap();
                    acc = self.x.bin(Bop::Add, 64, acc, v).unwrap();
                }
                self.set(st, *d, Self::vx(acc));
            }
            I::Alloca(d, size, al) => {
                let t = &mut st.th[cur];
                let idx = t.stack.len() as u64;
                if idx >= 0xFFF0 {
                    return Err(End::Viol { kind: "stack".into(), msg: "stack overflow".into(), prop: 0, code: 0 });
                }
                t.stack.push(Rc::new(Obj::new(*size as usize, *al, 0)));
                let a = STACK_BASE + ((cur as u64) << 40) + ((idx + 1) << OBJ_SHIFT);
                self.set(st, *d, V::C(a));
            }
            I::Cast(c, d, v, from, to) => {
                let v = opv!(v);
                let r = self.cast(st, *c, &v, from, to)?;
                self.set(st, *d, r);
            }
            I::Copy(d, v) => {
                let v = match opv!(v) {
                    V::U => V::C(0),
                    v => v,
                };
                self.set(st, *d, v);
            }
            I::Landing(d) => self.set(st, *d, V::A(Rc::new(vec![V::C(0), V::C(0)]))),
            I::Resume => return self.unwind(st, true),
            I::Br(to) | I::Inv(to, _) => {
                self.jump(st, *to)?;
                return Ok(false);
            }
            I::CondBr(c, a, b) => {
                let c = opv!(c);
                let t = match c {
                    V::C(c) => c != 0,
                    V::U => return merr("branch on an uninitialised/undefined value".into()),
                    v => {
                        let x = self.xv(&v)?;
                        self.decide(st, x)?
                    }
                };
                self.jump(st, if t { *a } else { *b })?;
                return Ok(false);
            }
            I::Switch(w, c, cases, def) => {
                let c = opv!(c);
                let to = match c {
                    V::C(v) => cases.iter().find(|x| x.0 == v).map(|x| x.1).unwrap_or(*def),
                    V::U => return merr("switch on an uninitialised/undefined value".into()),
                    v => {
                        let x = self.xv(&v)?;
                        let mut to = *def;
                        for (k, b) in cases {
                            let e = self.x.cmp(Pred::Eq, *w, x, X::C(*k));
                            if self.decide(st, e)? {
                                to = *b;
                                break;
                            }
                        }
                        to
                    }
                };
                self.jump(st, to)?;
                return Ok(false);
            }
            I::Ret(v) => {
                let v = v.as_ref().map(|v| opv!(v));
                return self.do_ret(st, v);
            }
            I::Call(d, callee, args, rt, noret) => {
                let fi = match callee {
                    Callee::Fn(f) => *f,
                    Callee::Ind(o) => {
                        let v = opv!(o);
                        let a = self.concretize(st, &v, 64)?;
                        let i = a.wrapping_sub(FUNC_BASE) >> 4;
                        if a < FUNC_BASE || i as usize >= self.m.funcs.len() {
                            return merr(format!("indirect call to invalid address {a:#x}"));
                        }
                        i as u32
                    }
                };
                let fr = st.th[cur].frames.last().unwrap();
                let args: Vec<V> = args.iter().map(|a| self.op(fr, a)).collect();
                let mut ext = self.ext[fi as usize];
                let mut fi = fi;
                if ext == Ext::ParkTimeout {
                    // blocking is handed to the harness' model of the environment
                    if let Some(h) = self.m.funcs.iter().position(|f| f.name == "qs_park_hook") {
                        fi = h as u32;
                        ext = Ext::Defined;
                    }
                }
                if ext == Ext::Defined && !*noret {
                    if st.th[cur].frames.len() > 400 {
                        return Err(End::Viol { kind: "stack".into(), msg: "call depth".into(), prop: 0, code: 0 });
                    }
                    let stk = st.th[cur].stack.len();
                    let fr = self.frame(fi, args, *d, stk);
                    st.th[cur].frames.push(fr);
                    return Ok(false);
                }
                if ext == Ext::Panic || (*noret && matches!(ext, Ext::Defined | Ext::Unknown)) {
                    if st.expect_panic {
                        self.panics_expected += 1;
                        return Err(End::Ok);
                    }
                    let msg = self.panic_msg(st, fi, &args);
                    return Err(End::Viol { kind: "panic".into(), msg, prop: 0, code: 0 });
                }
                return self.extcall(st, ext, fi, *d, args, rt);
            }
            I::ExtractValue(d, a, ix) => {
                let mut v = opv!(a);
                for i in ix {
                    v = match v {
                        V::A(x) => x[*i as usize].clone(),
                        V::U => V::U,
                        _ => return ierr("extractvalue".into()),
                    };
                }
                self.set(st, *d, v);
            }
            I::InsertValue(d, ty, a, v, ix) => {
                let a = opv!(a);
                let v = opv!(v);
                fn ins(a: V, v: V, ix: &[u64], ty: &Ty) -> V {
                    if ix.is_empty() {
                        return v;
                    }
                    let mut xs = match a {
                        V::A(x) => x,
                        _ => Rc::new(vec![V::U; ty.nfields() as usize]),
                    };
                    let i = ix[0] as usize;
                    let (_, ft) = ty.field(ix[0]);
                    let r = Rc::make_mut(&mut xs);
                    let old = std::mem::replace(&mut r[i], V::U);
                    r[i] = ins(old, v, &ix[1..], ft);
                    V::A(xs)
                }
                let r = ins(a, v, ix, ty);
                self.set(st, *d, r);
            }
            I::ExtractElement(d, a, i) => {
                let i = opv!(i);
                let i = self.concretize(st, &i, 64)?;
                let v = match opv!(a) {
                    V::A(x) => x.get(i as usize).cloned().unwrap_or(V::U),
                    _ => V::U,
                };
                self.set(st, *d, v);
            }
            I::InsertElement(d, ty, a, v, i) => {
                let i = opv!(i);
                let i = self.concretize(st, &i, 64)?;
                let mut xs = match opv!(a) {
                    V::A(x) => x,
                    _ => Rc::new(vec![V::U; ty.nfields() as usize]),
                };
                let v = opv!(v);
                Rc::make_mut(&mut xs)[i as usize] = v;
                self.set(st, *d, V::A(xs));
            }
            I::Shuffle(d, n, a, b, mk) => {
                let (x, y) = self.vec2(opv!(a), opv!(b), *n);
                let K::Agg(ms) = mk else { return ierr("shuffle mask".into()) };
                let out = ms
                    .iter()
                    .map(|k| match k {
                        K::Int(i) => {
                            let i = *i as usize;
                            if i < x.len() {
                                x[i].clone()
                            } else {
                                y[i - x.len()].clone()
                            }
                        }
                        _ => V::U,
                    })
                    .collect();
                self.set(st, *d, V::A(Rc::new(out)));
            }
            I::AtomicRmw(op, ty, d, p, v) => {
                let p = opv!(p);
                let v = opv!(v);
                let a = self.concretize(st, &p, 64)?;
                let old = self.load(st, a, ty)?;
                let w = ty.width();
                let new = match op {
                    Rmw::Xchg => v,
                    Rmw::Add => self.binv(Bop::Add, w, &old, &v)?,
                    Rmw::Sub => self.binv(Bop::Sub, w, &old, &v)?,
                    Rmw::And => self.binv(Bop::And, w, &old, &v)?,
                    Rmw::Or => self.binv(Bop::Or, w, &old, &v)?,
                    Rmw::Xor => self.binv(Bop::Xor, w, &old, &v)?,
                    Rmw::UMax | Rmw::UMin | Rmw::Max | Rmw::Min => {
                        let p = match op {
                            Rmw::UMax => Pred::Ugt,
                            Rmw::UMin => Pred::Ult,
                            Rmw::Max => Pred::Sgt,
                            _ => Pred::Slt,
                        };
                        let (x, y) = (self.xv(&old)?, self.xv(&v)?);
                        let c = self.x.cmp(p, w, x, y);
                        Self::vx(self.x.ite(w, c, x, y))
                    }
                };
                self.store(st, a, ty, &new)?;
                self.set(st, *d, old);
            }
            I::CmpXchg(ty, d, p, c, n) => {
                let p = opv!(p);
                let c = opv!(c);
                let n = opv!(n);
                let a = self.concretize(st, &p, 64)?;
                let old = self.load(st, a, ty)?;
                let eq = self.cmpv(Pred::Eq, ty.width(), &old, &c)?;
                let eq = match eq {
                    V::U => return merr("cmpxchg on uninitialised memory".into()),
                    v => {
                        let x = self.xv(&v)?;
                        self.decide(st, x)?
                    }
                };
                if eq {
                    self.store(st, a, ty, &n)?;
                }
                self.set(st, *d, V::A(Rc::new(vec![old, V::C(eq as u64)])));
            }
            I::Fence => {}
            I::Unsup(l) => return Err(End::Err(format!("unsupported instruction: {l}"))),
            I::Unreachable => {
                return Err(End::Viol {
                    kind: "unreachable".into(),
                    msg: "reached code the compiler was told is unreachable (undefined behaviour)".into(),
                    prop: 0,
                    code: 0,
                })
            }
        }
        Ok(true)
    }
    fn do_ret(&mut self, st: &mut State, v: Option<V>) -> Res<bool> {
        let cur = st.cur;
        let fr = st.th[cur].frames.pop().unwrap();
        st.th[cur].stack.truncate(fr.stk);
        if st.th[cur].frames.is_empty() {
            st.th[cur].stat = TStat::Done;
            if cur == 0 {
                return Err(End::Ok);
            }
            // wake joiners of this thread
            self.wake(st, 0xFFFF_0000 + cur as u64);
            self.schedule(st, true)?;
            return Ok(false);
        }
        if let Some(d) = fr.ret {
            let top = st.th[cur].frames.last_mut().unwrap();
            top.regs[d as usize] = if fr.catch { V::C(0) } else { v.unwrap_or(V::U) };
        }
        Ok(true)
    }
    /// one panic of the current thread more, or less
    fn count_panic(&mut self, st: &mut State, d: i64) -> Res<()> {
        let c = st.cur;
        st.th[c].panics = st.th[c].panics.wrapping_add(d as u64);
        let total: u64 = st.th.iter().map(|t| t.panics).sum();
        if let Some(i) = self.m.globals.iter().position(|g| g.name.contains("GLOBAL_PANIC_COUNT")) {
            let a = crate::ir::GLOBAL_BASE + ((i as u64 + 1) << crate::ir::OBJ_SHIFT);
            self.store_int(st, a, 64, &V::C(total))?;
        }
        Ok(())
    }
    /// unwinds the current thread: to the nearest landing pad or qs_try. `pop`: leave the top frame first
    fn unwind(&mut self, st: &mut State, mut pop: bool) -> Res<bool> {
        let cur = st.cur;
        let m = self.m;
        loop {
            if pop {
                let fr = st.th[cur].frames.pop().unwrap();
                st.th[cur].stack.truncate(fr.stk);
                if st.th[cur].frames.is_empty() {
                    return Err(End::Viol { kind: "panic".into(), msg: "uncaught panic".into(), prop: 0, code: 0 });
                }
                if fr.catch {
                    self.count_panic(st, -1)?;
                    if let Some(d) = fr.ret {
                        self.set(st, d, V::C(1));
                    }
                    return Ok(true);
                }
            }
            pop = true;
            let fr = st.th[cur].frames.last().unwrap();
            let b = &m.funcs[fr.f as usize].blocks[fr.bb as usize];
            if let Some(I::Inv(_, u)) = b.ins.get(fr.ip as usize + 1) {
                self.jump(st, *u)?;
                return Ok(false);
            }
        }
    }
    fn wake(&mut self, st: &mut State, addr: u64) {
        for t in st.th.iter_mut() {
            if t.stat == TStat::Block(addr) {
                t.stat = TStat::Run;
            }
        }
    }
    /// pick the next thread to run. `forced`: the current thread cannot continue.
    /// On entry the current thread's ip must already be past its yield/block call.
    fn schedule(&mut self, st: &mut State, forced: bool) -> Res<()> {
        let mut cand: Vec<usize> = vec![];
        for (i, t) in st.th.iter().enumerate() {
            if t.stat == TStat::Run {
                cand.push(i);
            }
        }
        if cand.is_empty() {
            return Err(End::Viol {
                kind: "deadlock".into(),
                msg: "all threads are blocked (deadlock or lost wakeup)".into(),
                prop: 0,
                code: 0,
            });
        }
        if !forced && st.preempt >= self.o.preempt_bound {
            cand = vec![st.cur];
        }
        if !forced {
            // current first
            cand.retain(|c| *c != st.cur);
            cand.insert(0, st.cur);
        }
        if let Some(v) = self.replay_next(st) {
            cand = vec![v as usize];
        }
        let old = st.cur;
        for &c in cand.iter().skip(1) {
            let mut s2 = st.clone();
            s2.cur = c;
            if !forced && c != old {
                s2.preempt += 1;
            }
            s2.log.push((false, c as u64));
            self.ctx_switches += 1;
            self.push(s2);
        }
        let c = cand[0];
        if !forced && c != old {
            st.preempt += 1;
        }
        st.cur = c;
        st.log.push((false, c as u64));
        Ok(())
    }
    fn replay_next(&self, st: &State) -> Option<u64> {
        self.o.replay.as_ref().and_then(|r| r.get(st.log.len()).copied())
    }
    fn panic_msg(&mut self, st: &State, fi: u32, args: &[V]) -> String {
        let name = self.m.funcs[fi as usize].name.clone();
        let mut out = name;
        for a in args {
            if let V::C(p) = a {
                // &'static Location { file_ptr, file_len, line, col }
                if p >> 44 == 1 {
                    if let (Ok(V::C(fp)), Ok(V::C(fl)), Ok(V::C(line))) = (
                        self.load_int(st, *p, 64),
                        self.load_int(st, p.wrapping_add(8), 64),
                        self.load_int(st, p.wrapping_add(16), 32),
                    ) {
                        if fp >> 44 == 1 && fl < 400 {
                            if let Ok((o, off)) = self.obj(st, fp, fl) {
                                let s = String::from_utf8_lossy(&o.data[off..off + fl as usize]).into_owned();
                                out += &format!(" at {s}:{line}");
                            }
                        }
                    }
                }
            }
        }
        if args.len() >= 2 {
            if let (V::C(p), V::C(l)) = (&args[0], &args[1]) {
                if p >> 44 == 1 && *l < 400 {
                    if let Ok((o, off)) = self.obj(st, *p, *l) {
                        out += &format!(" \"{}\"", String::from_utf8_lossy(&o.data[off..off + *l as usize]));
                    }
                }
            }
        }
        out
    }
    fn newvar(&mut self, st: &mut State, w: u32, lo: u64, hi: u64) -> E {
        let e = self.x.var(st.nvars, w, lo, hi);
        st.nvars += 1;
        st.model.resize(st.nvars as usize, lo);
        st.model[st.nvars as usize - 1] = lo;
        let d = self.x.mk(Node::Dom(e));
        st.path.push(d);
        e
    }

    fn extcall(&mut self, st: &mut State, ext: Ext, fi: u32, d: Option<u32>, a: Vec<V>, rt: &Ty) -> Res<bool> {
        let w = match rt {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            _ => 0,
        };
        macro_rules! ret {
            ($v:expr) => {{
                let v = $v;
                if let Some(d) = d {
                    self.set(st, d, v);
                }
            }};
        }
        // vector forms of simple integer intrinsics
        if let Ty::Vec(n, e) = rt {
            if matches!(ext, Ext::UMax | Ext::UMin | Ext::SMax | Ext::SMin | Ext::UAddSat | Ext::USubSat | Ext::Ctpop | Ext::Abs) {
                let mut out = vec![];
                for i in 0..*n as usize {
                    let aa: Vec<V> = a
                        .iter()
                        .map(|v| match v {
                            V::A(x) => x[i].clone(),
                            v => v.clone(),
                        })
                        .collect();
                    let et = (**e).clone();
                    let dreg = d.unwrap();
                    self.extcall(st, ext, fi, Some(dreg), aa, &et)?;
                    out.push(st.th[st.cur].frames.last().unwrap().regs[dreg as usize].clone());
                }
                ret!(V::A(Rc::new(out)));
                return Ok(true);
            }
        }
        let anyu = |k: usize| a[..k.min(a.len())].iter().any(|v| matches!(v, V::U));
        match ext {
            Ext::Nop | Ext::NoAllocShim => {}
            Ext::Assume => {
                if let V::C(0) = a[0] {
                    return merr("llvm.assume(false): undefined behaviour".into());
                }
            }
            Ext::Alloc | Ext::AllocZeroed => {
                let s = self.concretize(st, &a[0], 64)?;
                let al = self.concretize(st, &a[1], 64)?;
                let p = self.alloc(st, s, al, ext == Ext::AllocZeroed)?;
                ret!(V::C(p));
            }
            Ext::Dealloc => {
                let p = self.concretize(st, &a[0], 64)?;
                let s = self.concretize(st, &a[1], 64)?;
                let al = self.concretize(st, &a[2], 64)?;
                self.dealloc(st, p, s, al)?;
            }
            Ext::Realloc => {
                let p = self.concretize(st, &a[0], 64)?;
                let s = self.concretize(st, &a[1], 64)?;
                let al = self.concretize(st, &a[2], 64)?;
                let n = self.concretize(st, &a[3], 64)?;
                let q = self.alloc(st, n, al, false)?;
                self.copy(st, q, p, s.min(n))?;
                self.dealloc(st, p, s, al)?;
                ret!(V::C(q));
            }
            Ext::Memcpy | Ext::Memmove => {
                let n = self.concretize(st, &a[2], 64)?;
                let dp = self.concretize(st, &a[0], 64)?;
                let sp = self.concretize(st, &a[1], 64)?;
                self.copy(st, dp, sp, n)?;
                ret!(V::C(dp));
            }
            Ext::Memset => {
                let n = self.concretize(st, &a[2], 64)?;
                let dp = self.concretize(st, &a[0], 64)?;
                if n > 0 {
                    if let V::C(b) = a[1] {
                        let (o, off) = self.obj_mut(st, dp, n)?;
                        let n = n as usize;
                        if let Some(s) = &mut o.sym {
                            for i in 0..n {
                                s.remove(&((off + i) as u32));
                            }
                        }
                        o.data[off..off + n].fill(b as u8);
                        o.tag[off..off + n].fill(1);
                    } else {
                        let v = match &a[1] {
                            V::S(e) if self.x.width(*e) > 8 => Self::vx(self.x.extract(8, 0, X::S(*e))),
                            v => v.clone(),
                        };
                        for i in 0..n {
                            self.store_int(st, dp + i, 8, &v)?;
                        }
                    }
                }
                ret!(V::C(dp));
            }
            Ext::Memcmp => {
                let n = self.concretize(st, &a[2], 64)?;
                let p = self.concretize(st, &a[0], 64)?;
                let q = self.concretize(st, &a[1], 64)?;
                let mut r = 0u64;
                for i in 0..n {
                    let x = self.load_int(st, p + i, 8)?;
                    let y = self.load_int(st, q + i, 8)?;
                    let x = self.concretize(st, &x, 8)?;
                    let y = self.concretize(st, &y, 8)?;
                    if x != y {
                        r = if x < y { (-1i64) as u64 } else { 1 };
                        break;
                    }
                }
                ret!(V::C(r & mask(w)));
            }
            Ext::UMax | Ext::UMin | Ext::SMax | Ext::SMin => {
                if anyu(2) {
                    ret!(V::U);
                    return Ok(true);
                }
                let p = match ext {
                    Ext::UMax => Pred::Ugt,
                    Ext::UMin => Pred::Ult,
                    Ext::SMax => Pred::Sgt,
                    _ => Pred::Slt,
                };
                let (x, y) = (self.xv(&a[0])?, self.xv(&a[1])?);
                let c = self.x.cmp(p, w, x, y);
                let c = self.simp(st, c);
                ret!(Self::vx(self.x.ite(w, c, x, y)));
            }
            Ext::UAddO | Ext::USubO | Ext::UMulO | Ext::SAddO | Ext::SSubO | Ext::SMulO => {
                let Ty::Struct(ts, _) = rt else { return ierr("ovf".into()) };
                let w = ts[0].width();
                if anyu(2) {
                    ret!(V::A(Rc::new(vec![V::U, V::U])));
                    return Ok(true);
                }
                if w > 64 {
                    return ierr("wide overflow op".into());
                }
                let (x, y) = (self.xv(&a[0])?, self.xv(&a[1])?);
                let (r, o) = match ext {
                    Ext::UAddO => {
                        let r = self.x.bin(Bop::Add, w, x, y).unwrap();
                        // overflow iff y > MAX - x
                        let mx = self.x.bin(Bop::Sub, w, X::C(mask(w)), x).unwrap();
                        (r, self.x.cmp(Pred::Ugt, w, y, mx))
                    }
                    Ext::USubO => {
                        let o = self.x.cmp(Pred::Ult, w, x, y);
                        (self.x.bin(Bop::Sub, w, x, y).unwrap(), o)
                    }
                    Ext::UMulO => {
                        if let (X::C(p), X::C(q)) = (x, y) {
                            let r = p as u128 * q as u128;
                            (X::C(r as u64 & mask(w)), X::C((r > mask(w) as u128) as u64))
                        } else {
                            let (_, hx) = self.x.ivx(x);
                            let (_, hy) = self.x.ivx(y);
                            let r = self.x.bin(Bop::Mul, w, x, y).unwrap();
                            if hx as u128 * hy as u128 <= mask(w) as u128 {
                                (r, X::C(0))
                            } else {
                                // ovf iff y != 0 && x > MAX / y
                                let (x, y) = if let X::C(_) = x { (y, x) } else { (x, y) };
                                if let X::C(k) = y {
                                    let o = if k == 0 { X::C(0) } else { self.x.cmp(Pred::Ugt, w, x, X::C(mask(w) / k)) };
                                    (r, o)
                                } else {
                                    return ierr("symbolic*symbolic overflow".into());
                                }
                            }
                        }
                    }
                    _ => {
                        if let (X::C(p), X::C(q)) = (x, y) {
                            let (p, q) = (sext64(p, w) as i128, sext64(q, w) as i128);
                            let r = match ext {
                                Ext::SAddO => p + q,
                                Ext::SSubO => p - q,
                                _ => p * q,
                            };
                            let ok = r == sext64(r as u64 & mask(w), w) as i128;
                            (X::C(r as u64 & mask(w)), X::C(!ok as u64))
                        } else {
                            return ierr("symbolic signed overflow op".into());
                        }
                    }
                };
                ret!(V::A(Rc::new(vec![Self::vx(r), Self::vx(o)])));
            }
            Ext::UAddSat | Ext::USubSat => {
                if anyu(2) {
                    ret!(V::U);
                    return Ok(true);
                }
                let (x, y) = (self.xv(&a[0])?, self.xv(&a[1])?);
                let r = if ext == Ext::UAddSat {
                    let mx = self.x.bin(Bop::Sub, w, X::C(mask(w)), x).unwrap();
                    let o = self.x.cmp(Pred::Ugt, w, y, mx);
                    let s = self.x.bin(Bop::Add, w, x, y).unwrap();
                    self.x.ite(w, o, X::C(mask(w)), s)
                } else {
                    let o = self.x.cmp(Pred::Ult, w, x, y);
                    let s = self.x.bin(Bop::Sub, w, x, y).unwrap();
                    self.x.ite(w, o, X::C(0), s)
                };
                ret!(Self::vx(r));
            }
            Ext::Ctlz | Ext::Cttz | Ext::Ctpop | Ext::Bswap | Ext::Abs => {
                if anyu(1) {
                    ret!(V::U);
                    return Ok(true);
                }
                if let V::W(c) = &a[0] {
                    let r = match ext {
                        Ext::Ctlz => c.leading_zeros() as u64 - (128 - w as u64),
                        Ext::Cttz => (c.trailing_zeros() as u64).min(w as u64),
                        Ext::Ctpop => c.count_ones() as u64,
                        _ => return ierr("wide bit op".into()),
                    };
                    ret!(V::W(Box::new(r as u128)));
                    return Ok(true);
                }
                let v = self.concretize(st, &a[0], w)?;
                let r = match ext {
                    Ext::Ctlz => (v << (64 - w)).leading_zeros().min(w) as u64,
                    Ext::Cttz => v.trailing_zeros().min(w) as u64,
                    Ext::Ctpop => v.count_ones() as u64,
                    Ext::Bswap => v.swap_bytes() >> (64 - w),
                    _ => sext64(v, w).unsigned_abs() & mask(w),
                };
                ret!(V::C(r));
            }
            Ext::Fshl | Ext::Fshr if matches!(a[2], V::C(_)) && w <= 64 => {
                let V::C(s) = a[2] else { unreachable!() };
                let s = (s % w as u64) as u32;
                let (x, y) = (self.xv(&a[0])?, self.xv(&a[1])?);
                let l = if ext == Ext::Fshl { s } else { (w - s) % w };
                let r = if s == 0 {
                    if ext == Ext::Fshl {
                        x
                    } else {
                        y
                    }
                } else {
                    let h = self.x.extract(w - l, 0, x);
                    let lo = self.x.extract(l, w - l, y);
                    self.x.concat(h, w - l, lo, l)
                };
                ret!(Self::vx(r));
            }
            Ext::Fshl | Ext::Fshr => {
                let x = self.concretize(st, &a[0], w)?;
                let y = self.concretize(st, &a[1], w)?;
                let s = self.concretize(st, &a[2], w)? % w as u64;
                let r = if ext == Ext::Fshl {
                    if s == 0 {
                        x
                    } else {
                        (x << s) | (y >> (w as u64 - s))
                    }
                } else if s == 0 {
                    y
                } else {
                    (x << (w as u64 - s)) | (y >> s)
                };
                ret!(V::C(r & mask(w)));
            }
            Ext::UCmp | Ext::SCmp => {
                let name = &self.m.funcs[fi as usize].name;
                let sw: u32 = name.rsplit(".i").next().unwrap().parse().unwrap();
                let (x, y) = (self.xv(&a[0])?, self.xv(&a[1])?);
                let lt = self.x.cmp(if ext == Ext::UCmp { Pred::Ult } else { Pred::Slt }, sw, x, y);
                let eq = self.x.cmp(Pred::Eq, sw, x, y);
                let t = self.x.ite(w, eq, X::C(0), X::C(1));
                ret!(Self::vx(self.x.ite(w, lt, X::C(mask(w)), t)));
            }
            Ext::FpToUiSat if w == 64 && matches!(a[0], V::S(_)) => {
                let x = self.xv(&a[0])?;
                ret!(Self::vx(self.x.fop(Fo::ToUSat, x, X::C(0))));
            }
            Ext::FAbs if matches!(a[0], V::S(_)) => {
                let x = self.xv(&a[0])?;
                ret!(Self::vx(self.x.fop(Fo::Abs, x, X::C(0))));
            }
            Ext::FpToUiSat => {
                let name = &self.m.funcs[fi as usize].name;
                let ft = if name.contains("f32") { Ty::F32 } else { Ty::F64 };
                let f = self.getf(&a[0], &ft)?;
                let r = if f.is_nan() || f <= 0.0 {
                    0
                } else if f >= mask(w) as f64 {
                    mask(w)
                } else {
                    f as u64
                };
                ret!(V::C(r));
            }
            Ext::FAbs => {
                let f = self.getf(&a[0], rt)?;
                ret!(Self::putf(f.abs(), rt));
            }
            Ext::FMulAdd => {
                let (x, y, z) = (self.getf(&a[0], rt)?, self.getf(&a[1], rt)?, self.getf(&a[2], rt)?);
                ret!(Self::putf(x * y + z, rt));
            }
            Ext::IsConst => ret!(V::C(0)),
            Ext::Expect | Ext::Tls => ret!(a[0].clone()),
            Ext::ObjSize => ret!(V::C(mask(w))),
            Ext::VecReduceOr | Ext::VecReduceAnd | Ext::VecReduceAdd => {
                let V::A(vs) = &a[0] else { return ierr("reduce".into()) };
                let op = match ext {
                    Ext::VecReduceOr => Bop::Or,
                    Ext::VecReduceAnd => Bop::And,
                    _ => Bop::Add,
                };
                let mut acc = vs[0].clone();
                for v in vs.iter().skip(1) {
                    acc = self.binv(op, w, &acc, v)?;
                }
                ret!(acc);
            }
            // -------------------------------------------------- harness interface
            Ext::Choose => {
                // an input in 0..n, case-split immediately
                let n = self.concretize(st, &a[0], 32)?;
                if n == 0 {
                    return Err(End::Kill);
                }
                st.depth += 1;
                if let Some(v) = st.pending.take() {
                    st.log.push((false, v));
                    ret!(V::C(v));
                    return Ok(true);
                }
                if let Some(v) = self.replay_next(st) {
                    st.log.push((false, v));
                    ret!(V::C(v));
                    return Ok(true);
                }
                for i in (1..n).rev() {
                    let mut s2 = st.clone();
                    s2.depth -= 1;
                    s2.steps -= 1;
                    s2.pending = Some(i);
                    self.push(s2);
                }
                st.log.push((false, 0));
                ret!(V::C(0));
            }
            Ext::Sym => {
                let lo = self.concretize(st, &a[0], 64)?;
                let hi = self.concretize(st, &a[1], 64)?;
                if hi < lo {
                    return Err(End::Kill);
                }
                if let Some(v) = self.replay_next(st) {
                    st.log.push((false, v));
                    ret!(V::C(v));
                    return Ok(true);
                }
                if lo == hi {
                    st.log.push((false, lo));
                    ret!(V::C(lo));
                    return Ok(true);
                }
                let e = self.newvar(st, 64, lo, hi);
                st.log.push((true, e as u64));
                ret!(V::S(e));
            }
            Ext::QAssume => {
                let x = self.xv(&a[0])?;
                let x = self.bool_of(x, &a[0]);
                match x {
                    X::C(0) => return Err(End::Kill),
                    X::C(_) => {}
                    X::S(e) => {
                        if let Some(b) = self.known(st, e) {
                            if !b {
                                return Err(End::Kill);
                            }
                        } else if self.x.eval(e, &st.model) != 0 {
                            st.path.push(e);
                        } else {
                            match self.feasible(st, e)? {
                                Some(m) => {
                                    st.path.push(e);
                                    st.model = m;
                                }
                                None => return Err(End::Kill),
                            }
                        }
                    }
                }
            }
            Ext::QAssert => {
                let prop = self.concretize(st, &a[1], 32)? as u32;
                let code = self.concretize(st, &a[2], 32)? as u32;
                if self.o.prop != 0 && prop != 0 && prop != self.o.prop {
                    return Ok(true);
                }
                self.asserts += 1;
                let x = match &a[0] {
                    V::U => return merr("assertion over an undefined value".into()),
                    v => self.xv(v)?,
                };
                let x = self.bool_of(x, &a[0]);
                let bad = match x {
                    X::C(0) => true,
                    X::C(_) => {
                        self.assert_const += 1;
                        false
                    }
                    X::S(e) => match (!self.o.always_solve).then(|| self.known(st, e)).flatten() {
                        Some(b) => !b,
                        None => {
                            self.assert_q += 1;
                            if self.x.eval(e, &st.model) == 0 {
                                true
                            } else {
                                let X::S(ne) = self.x.not(X::S(e)) else { unreachable!() };
                                match self.feasible(st, ne)? {
                                    Some(m) => {
                                        st.path.push(ne);
                                        st.model = m;
                                        true
                                    }
                                    None => {
                                        st.facts.push(e);
                                        false
                                    }
                                }
                            }
                        }
                    },
                };
                if bad {
                    return Err(End::Viol { kind: "assert".into(), msg: format!("property {prop} assertion {code}"), prop, code });
                }
            }
            Ext::QCover => {
                let id = self.concretize(st, &a[0], 32)? as usize;
                if id < self.covers.len() {
                    self.covers[id] += 1;
                }
            }
            Ext::QHeapLive => ret!(V::C(st.live)),
            Ext::QHeapBytes => ret!(V::C(st.live_bytes)),
            Ext::QParam => {
                let i = self.concretize(st, &a[0], 32)? as usize;
                ret!(V::C(self.o.params.get(i).copied().unwrap_or(0)));
            }
            Ext::QLog => {
                if self.o.trace {
                    eprintln!("qs_log {:?}", a);
                }
                st.obs.push(a[0].clone());
            }
            Ext::QConc => {
                let v = self.concretize(st, &a[0], 64)?;
                ret!(V::C(v));
            }
            Ext::QExpectPanic => {
                let v = self.concretize(st, &a[0], 1)?;
                st.expect_panic = v & 1 != 0;
            }
            Ext::QAdvance => {
                let d = self.xv(&a[0])?;
                let Some(c) = self.x.bin(Bop::Add, 64, st.clock, d) else { return ierr("clock".into()) };
                st.clock = c;
            }
            Ext::QClock => ret!(Self::vx(st.clock)),
            Ext::QTid => ret!(V::C(st.cur as u64)),
            Ext::QSpawn => {
                let f = self.concretize(st, &a[0], 64)?;
                let i = f.wrapping_sub(FUNC_BASE) >> 4;
                if i as usize >= self.m.funcs.len() {
                    return merr("spawn of invalid function".into());
                }
                let id = st.th.len();
                if id >= 16 {
                    return ierr("too many threads".into());
                }
                let fr = self.frame(i as u32, vec![a[1].clone()], None, 0);
                st.th.push(Thread { frames: vec![fr], stack: vec![], stat: TStat::Run, panics: 0 });
                ret!(V::C(id as u64));
            }
            Ext::QYield => {
                // advance first: all forks resume after the call
                st.th[st.cur].frames.last_mut().unwrap().ip += 1;
                self.schedule(st, false)?;
                return Ok(false);
            }
            // as a yield, but not counted as a preemption
            Ext::QPause => {
                st.th[st.cur].frames.last_mut().unwrap().ip += 1;
                self.schedule(st, true)?;
                return Ok(false);
            }
            Ext::QBlock => {
                let addr = self.concretize(st, &a[0], 64)?;
                // joining a finished thread does not block
                if (0xFFFF_0000..0xFFFF_0010).contains(&addr) {
                    let t = (addr - 0xFFFF_0000) as usize;
                    if t < st.th.len() && st.th[t].stat == TStat::Done {
                        return Ok(true);
                    }
                }
                st.th[st.cur].frames.last_mut().unwrap().ip += 1;
                let c = st.cur;
                st.th[c].stat = TStat::Block(addr);
                self.schedule(st, true)?;
                return Ok(false);
            }
            Ext::QWake => {
                let addr = self.concretize(st, &a[0], 64)?;
                self.wake(st, addr);
            }
            Ext::QDone => {
                let t = self.concretize(st, &a[0], 32)? as usize;
                ret!(V::C((t < st.th.len() && st.th[t].stat == TStat::Done) as u64));
            }
            // -------------------------------------------------- environment
            Ext::PanicCount => ret!(V::C((st.th[st.cur].panics == 0) as u64)),
            Ext::QUnwind => {
                let c = st.cur;
                if st.th[c].panics > 0 {
                    return Err(End::Viol { kind: "panic".into(), msg: "panic while unwinding".into(), prop: 0, code: 0 });
                }
                self.count_panic(st, 1)?;
                return self.unwind(st, false);
            }
            Ext::QTry => {
                let f = self.concretize(st, &a[0], 64)?;
                let i = f.wrapping_sub(FUNC_BASE) >> 4;
                if i as usize >= self.m.funcs.len() {
                    return merr("try of invalid function".into());
                }
                let stk = st.th[st.cur].stack.len();
                let mut fr = self.frame(i as u32, vec![a[1].clone()], d, stk);
                fr.catch = true;
                let c = st.cur;
                st.th[c].frames.push(fr);
                return Ok(false);
            }
            Ext::NumCpus => {
                // io::Result<NonZero<usize>>: sret or {tag,val}
                if let Ty::Struct(..) = rt {
                    ret!(V::A(Rc::new(vec![V::C(0), V::C(8)])));
                } else {
                    let p = self.concretize(st, &a[0], 64)?;
                    self.store_int(st, p, 64, &V::C(0))?;
                    self.store_int(st, p + 8, 64, &V::C(8))?;
                }
            }
            Ext::RandomKeys => ret!(V::A(Rc::new(vec![V::C(0x0123_4567_89ab_cdef), V::C(0xfeed_beef_0bad_cafe)]))),
            Ext::ClockNow => {
                // virtual clock, kept below one second: {secs = 0, nanos}; every reading takes 1 ns
                let n = self.x.extract(32, 0, st.clock);
                self.tick(st)?;
                ret!(V::A(Rc::new(vec![V::C(0), Self::vx(n)])));
            }
            Ext::InstantOp(o) => {
                // arguments: each an (i64 seconds, i32 nanoseconds) pair, or a pointer to one
                let mut p: Vec<(X, X)> = vec![];
                let mut i = 0;
                let ptr_first = o <= 5;
                while i < a.len() {
                    if i == 0 && ptr_first {
                        let at = self.concretize(st, &a[0], 64)?;
                        let x = self.load(st, at, &Ty::Int(64))?;
                        let y = self.load(st, at + 8, &Ty::Int(32))?;
                        p.push((self.xv(&x)?, self.xv(&y)?));
                        i += 1;
                    } else {
                        if i + 1 >= a.len() {
                            return ierr("signature of an Instant operation".into());
                        }
                        p.push((self.xv(&a[i])?, self.xv(&a[i + 1])?));
                        i += 2;
                    }
                }
                if o == 0 {
                    let n = self.x.extract(32, 0, st.clock);
                    self.tick(st)?;
                    p.insert(0, (X::C(0), n));
                }
                if p.len() != 2 || !matches!(rt, Ty::Struct(..)) {
                    return ierr("signature of an Instant operation".into());
                }
                let r = if matches!(o, 4 | 6) { self.tadd(st, p[0], p[1])? } else { self.tsub(st, p[0], p[1])? };
                let r = match (r, o) {
                    (Some(r), _) => r,
                    // saturating
                    (None, 0 | 1 | 2 | 8) => (X::C(0), X::C(0)),
                    // None through the niche of the nanoseconds
                    (None, 3 | 4 | 5) => (X::C(0), X::C(1_000_000_000)),
                    _ => {
                        return Err(End::Viol {
                            kind: "panic".into(),
                            msg: "overflow in Instant arithmetic".into(),
                            prop: 0,
                            code: 0,
                        })
                    }
                };
                ret!(V::A(Rc::new(vec![Self::vx(r.0), Self::vx(r.1)])));
            }
            Ext::ThreadCurrent => {
                // an opaque handle: large reference count, some id, nobody parked
                let p = match st.handle {
                    0 => {
                        let p = self.alloc(st, 160, 16, true)? + 32;
                        st.live -= 1;
                        st.live_bytes -= 160;
                        for i in 0..20 {
                            self.store_int(st, p - 32 + i * 8, 64, &V::C(1 << 40))?;
                        }
                        st.handle = p;
                        p
                    }
                    p => p,
                };
                ret!(V::C(p));
            }
            Ext::FutexWake => ret!(V::C(0)),
            Ext::Park => {
                return Err(End::Viol {
                    kind: "deadlock".into(),
                    msg: "the only thread parks forever".into(),
                    prop: 0,
                    code: 0,
                })
            }
            Ext::LockContended => {
                return Err(End::Viol {
                    kind: "deadlock".into(),
                    msg: "waits for a lock that the only thread holds".into(),
                    prop: 0,
                    code: 0,
                })
            }
            Ext::ParkTimeout => return ierr("park_timeout not modelled here".into()),
            Ext::Unknown | Ext::Defined | Ext::Panic => {
                return ierr(format!("call to unmodelled external function {}", self.m.funcs[fi as usize].name));
            }
        }
        Ok(true)
    }
    /// a reading of the clock takes 1 ns
    fn tick(&mut self, st: &mut State) -> Res<()> {
        let Some(c) = self.x.bin(Bop::Add, 64, st.clock, X::C(1)) else { return ierr("clock".into()) };
        if self.x.ivx(c).1 >= 1_000_000_000 {
            return ierr("virtual clock beyond one second".into());
        }
        st.clock = c;
        Ok(())
    }
    fn tadd(&mut self, st: &mut State, a: (X, X), b: (X, X)) -> Res<Option<(X, X)>> {
        let bin = |s: &mut Self, op, w, x, y| s.x.bin(op, w, x, y).ok_or(End::Err("time".into()));
        let n = bin(self, Bop::Add, 32, a.1, b.1)?;
        let c = self.x.cmp(Pred::Uge, 32, n, X::C(1_000_000_000));
        let mut s = bin(self, Bop::Add, 64, a.0, b.0)?;
        let o = self.x.cmp(Pred::Ult, 64, s, a.0);
        let o2 = self.x.cmp(Pred::Ugt, 64, s, X::C(i64::MAX as u64 - 1));
        let o = self.x.or(o, o2);
        if self.decide(st, o)? {
            return Ok(None);
        }
        let mut n = n;
        if self.decide(st, c)? {
            n = bin(self, Bop::Sub, 32, n, X::C(1_000_000_000))?;
            s = bin(self, Bop::Add, 64, s, X::C(1))?;
        }
        Ok(Some((s, n)))
    }
    fn tsub(&mut self, st: &mut State, a: (X, X), b: (X, X)) -> Res<Option<(X, X)>> {
        let bin = |s: &mut Self, op, w, x, y| s.x.bin(op, w, x, y).ok_or(End::Err("time".into()));
        let lt = self.x.cmp(Pred::Ult, 64, a.0, b.0);
        if self.decide(st, lt)? {
            return Ok(None);
        }
        let eq = self.x.cmp(Pred::Eq, 64, a.0, b.0);
        let nl = self.x.cmp(Pred::Ult, 32, a.1, b.1);
        if self.decide(st, nl)? {
            if self.decide(st, eq)? {
                return Ok(None);
            }
            let d = bin(self, Bop::Sub, 64, a.0, b.0)?;
            let s = bin(self, Bop::Sub, 64, d, X::C(1))?;
            let t = bin(self, Bop::Add, 32, a.1, X::C(1_000_000_000))?;
            return Ok(Some((s, bin(self, Bop::Sub, 32, t, b.1)?)));
        }
        Ok(Some((bin(self, Bop::Sub, 64, a.0, b.0)?, bin(self, Bop::Sub, 32, a.1, b.1)?)))
    }
    fn simp(&mut self, st: &State, c: X) -> X {
        if let X::S(e) = c {
            if let Some(b) = self.known(st, e) {
                return X::C(b as u64);
            }
        }
        c
    }
    fn bool_of(&mut self, x: X, v: &V) -> X {
        match (x, v) {
            (X::S(e), _) if self.x.width(e) > 1 => {
                let w = self.x.width(e);
                let z = self.x.cmp(Pred::Eq, w, x, X::C(0));
                self.x.not(z)
            }
            _ => x,
        }
    }
}

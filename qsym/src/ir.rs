//! Textual LLVM IR (as printed by the toolchain's llvm-dis) -> pre-decoded form.
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Int(u32),
    Ptr,
    F32,
    F64,
    Void,
    Arr(u64, Box<Ty>),
    Vec(u64, Box<Ty>),
    Struct(Vec<Ty>, bool),
    Other,
}

impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = (*w as u64).div_ceil(8);
                if *w <= 64 {
                    b.next_power_of_two()
                } else {
                    b.div_ceil(16) * 16
                }
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Void | Ty::Other => 0,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => {
                if let Ty::Int(1) = **t {
                    n.div_ceil(8)
                } else {
                    n * t.size()
                }
            }
            Ty::Struct(ts, packed) => {
                let mut o = 0u64;
                let mut al = 1;
                for t in ts {
                    if !*packed {
                        let a = t.align();
                        o = o.div_ceil(a) * a;
                        al = al.max(a);
                    }
                    o += t.size();
                }
                o.div_ceil(al) * al
            }
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                if *w > 64 {
                    16
                } else {
                    self.size().max(1)
                }
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Void | Ty::Other => 1,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.size().next_power_of_two().max(1),
            Ty::Struct(ts, packed) => {
                if *packed {
                    1
                } else {
                    ts.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
        }
    }
    pub fn field(&self, i: u64) -> (u64, &Ty) {
        match self {
            Ty::Arr(_, t) | Ty::Vec(_, t) => (i * t.size(), t),
            Ty::Struct(ts, packed) => {
                let mut o = 0u64;
                for (k, t) in ts.iter().enumerate() {
                    if !*packed {
                        let a = t.align();
                        o = o.div_ceil(a) * a;
                    }
                    if k as u64 == i {
                        return (o, t);
                    }
                    o += t.size();
                }
                panic!("field index")
            }
            _ => panic!("field of scalar {self:?}"),
        }
    }
    pub fn width(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            _ => panic!("width of {self:?}"),
        }
    }
    pub fn nfields(&self) -> u64 {
        match self {
            Ty::Arr(n, _) | Ty::Vec(n, _) => *n,
            Ty::Struct(ts, _) => ts.len() as u64,
            _ => 0,
        }
    }
    pub fn is_agg(&self) -> bool {
        matches!(self, Ty::Arr(..) | Ty::Vec(..) | Ty::Struct(..))
    }
}

#[derive(Clone, Debug)]
pub enum K {
    Int(u128),
    Undef,
    Agg(Vec<K>),
}

#[derive(Clone, Debug)]
pub enum Op {
    R(u32),
    C(K),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Bop {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cast {
    ZExt,
    SExt,
    Trunc,
    Bit,
    UiToFp,
    SiToFp,
    FpToUi,
    FpToSi,
    FpTrunc,
    FpExt,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fop {
    Add,
    Sub,
    Mul,
    Div,
    Rem,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Rmw {
    Xchg,
    Add,
    Sub,
    And,
    Or,
    Xor,
    UMax,
    UMin,
    Max,
    Min,
}
#[derive(Clone, Debug)]
pub enum Callee {
    Fn(u32),
    Ind(Op),
}
#[derive(Clone, Debug)]
pub enum I {
    Bin(Bop, Ty, u32, Op, Op),
    FBin(Fop, Ty, u32, Op, Op),
    FNeg(Ty, u32, Op),
    ICmp(Pred, Ty, u32, Op, Op),
    FCmp(String, Ty, u32, Op, Op),
    Select(Ty, u32, Op, Op, Op, bool),
    Load(Ty, u32, Op),
    Store(Ty, Op, Op),
    Gep(u32, Op, i64, Vec<(Op, u32, i64)>),
    Alloca(u32, u64, u64),
    Cast(Cast, u32, Op, Ty, Ty),
    Copy(u32, Op),
    Br(u32),
    CondBr(Op, u32, u32),
    Switch(u32, Op, Vec<(u64, u32)>, u32),
    Ret(Option<Op>),
    Call(Option<u32>, Callee, Vec<Op>, Ty, bool),
    ExtractValue(u32, Op, Vec<u64>),
    InsertValue(u32, Ty, Op, Op, Vec<u64>),
    ExtractElement(u32, Op, Op),
    InsertElement(u32, Ty, Op, Op, Op),
    Shuffle(u32, u64, Op, Op, K),
    AtomicRmw(Rmw, Ty, u32, Op, Op),
    CmpXchg(Ty, u32, Op, Op, Op),
    Fence,
    /// end of an invoke (the call precedes it): normal and unwind destinations
    Inv(u32, u32),
    Landing(u32),
    Resume,
    Unreachable,
    /// an instruction the parser does not know: an error only if a path executes it
    Unsup(String),
}

#[derive(Debug, Default)]
pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, Op)>)>,
    pub ins: Vec<I>,
}
#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub nparams: u32,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub declared_only: bool,
    pub noreturn: bool,
    pub ret: Ty,
}
#[derive(Debug)]
pub struct Global {
    pub name: String,
    pub constant: bool,
    pub ty: Ty,
    pub init: Option<K>,
    pub align: u64,
    pub tls: bool,
}
pub struct Module {
    pub funcs: Vec<Func>,
    pub globals: Vec<Global>,
    pub fidx: HashMap<String, u32>,
    pub gidx: HashMap<String, u32>,
}

pub const GLOBAL_BASE: u64 = 1 << 44;
pub const HEAP_BASE: u64 = 2 << 44;
pub const STACK_BASE: u64 = 3 << 44;
pub const FUNC_BASE: u64 = 5 << 44;
pub const OBJ_SHIFT: u32 = 24;

// ---------------------------------------------------------------- lexer
#[derive(Clone, Debug, PartialEq)]
pub enum T {
    Local(String),
    Global(String),
    Word(String),
    Num(String),
    Str(Vec<u8>), // c"..."
    QStr(String), // "..."
    Meta,         // !anything
    Attr(u32),    // #n
    P(char),
}

fn is_id(c: u8) -> bool {
    c.is_ascii_alphanumeric() || matches!(c, b'_' | b'.' | b'$' | b'-')
}

fn unesc(s: &[u8]) -> Vec<u8> {
    let mut o = Vec::new();
    let mut i = 0;
    while i < s.len() {
        if s[i] == b'\\' && i + 2 < s.len() + 0 && s[i + 1].is_ascii_hexdigit() {
            let h = std::str::from_utf8(&s[i + 1..i + 3]).unwrap();
            o.push(u8::from_str_radix(h, 16).unwrap());
            i += 3;
        } else if s[i] == b'\\' && i + 1 < s.len() && s[i + 1] == b'\\' {
            o.push(b'\\');
            i += 2;
        } else {
            o.push(s[i]);
            i += 1;
        }
    }
    o
}

pub fn lex(line: &str) -> Vec<T> {
    let b = line.as_bytes();
    let mut i = 0;
    let mut out = Vec::new();
    let quoted = |i: &mut usize| -> Vec<u8> {
        // at opening quote
        let st = *i + 1;
        let mut j = st;
        while b[j] != b'"' {
            j += 1;
        }
        *i = j + 1;
        unesc(&b[st..j])
    };
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' | b'\r' => i += 1,
            b';' => {
                while i < b.len() && b[i] != b'\n' {
                    i += 1;
                }
            }
            b'%' | b'@' => {
                i += 1;
                let s = if b[i] == b'"' {
                    String::from_utf8_lossy(&quoted(&mut i)).into_owned()
                } else {
                    let st = i;
                    while i < b.len() && is_id(b[i]) {
                        i += 1;
                    }
                    line[st..i].to_string()
                };
                out.push(if c == b'%' { T::Local(s) } else { T::Global(s) });
            }
            b'!' => {
                i += 1;
                if i < b.len() && b[i] == b'"' {
                    quoted(&mut i);
                } else if i < b.len() && b[i] == b'{' {
                    // inline metadata node: skip balanced
                    let mut d = 0;
                    while i < b.len() {
                        if b[i] == b'{' {
                            d += 1
                        }
                        if b[i] == b'}' {
                            d -= 1;
                            if d == 0 {
                                i += 1;
                                break;
                            }
                        }
                        i += 1;
                    }
                } else {
                    while i < b.len() && is_id(b[i]) {
                        i += 1;
                    }
                    if i < b.len() && b[i] == b'(' {
                        let mut d = 0;
                        while i < b.len() {
                            if b[i] == b'(' {
                                d += 1
                            }
                            if b[i] == b')' {
                                d -= 1;
                                if d == 0 {
                                    i += 1;
                                    break;
                                }
                            }
                            i += 1;
                        }
                    }
                }
                out.push(T::Meta);
            }
            b'#' => {
                i += 1;
                let st = i;
                while i < b.len() && b[i].is_ascii_digit() {
                    i += 1;
                }
                out.push(T::Attr(line[st..i].parse().unwrap_or(0)));
            }
            b'"' => {
                let s = quoted(&mut i);
                out.push(T::QStr(String::from_utf8_lossy(&s).into_owned()));
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                i += 1;
                let s = quoted(&mut i);
                out.push(T::Str(s));
            }
            b'-' | b'0'..=b'9' => {
                let st = i;
                i += 1;
                while i < b.len()
                    && (b[i].is_ascii_alphanumeric()
                        || b[i] == b'.'
                        || (b[i] == b'+' && (b[i - 1] == b'e'))
                        || (b[i] == b'-' && (b[i - 1] == b'e')))
                {
                    i += 1;
                }
                out.push(T::Num(line[st..i].to_string()));
            }
            _ if c.is_ascii_alphabetic() || c == b'_' || c == b'.' || c == b'$' => {
                let st = i;
                while i < b.len() && is_id(b[i]) {
                    i += 1;
                }
                out.push(T::Word(line[st..i].to_string()));
            }
            _ => {
                out.push(T::P(c as char));
                i += 1;
            }
        }
    }
    out
}

// ---------------------------------------------------------------- parser
pub struct Ctx<'a> {
    fidx: &'a HashMap<String, u32>,
    gidx: &'a HashMap<String, u32>,
    named: &'a HashMap<String, Ty>,
}
struct Loc {
    regs: HashMap<String, u32>,
    bbs: HashMap<String, u32>,
}
struct Ps<'a> {
    t: &'a [T],
    i: usize,
    cx: &'a Ctx<'a>,
}

impl<'a> Ps<'a> {
    fn peek(&self) -> Option<&T> {
        self.t.get(self.i)
    }
    fn next(&mut self) -> T {
        let t = self.t[self.i].clone();
        self.i += 1;
        t
    }
    fn isp(&self, c: char) -> bool {
        matches!(self.peek(), Some(T::P(x)) if *x==c)
    }
    fn eatp(&mut self, c: char) -> bool {
        if self.isp(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn expp(&mut self, c: char) {
        if !self.eatp(c) {
            panic!("expected {c} at {:?} in {:?}", &self.t[self.i.min(self.t.len())..], self.t);
        }
    }
    fn isw(&self, w: &str) -> bool {
        matches!(self.peek(), Some(T::Word(x)) if x==w)
    }
    fn eatw(&mut self, w: &str) -> bool {
        if self.isw(w) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn num(&mut self) -> u64 {
        match self.next() {
            T::Num(s) => parse_int(&s) as u64,
            t => panic!("num expected, got {t:?}"),
        }
    }
    fn ty(&mut self) -> Ty {
        match self.next() {
            T::Word(w) => match w.as_str() {
                "ptr" => {
                    if self.eatw("addrspace") {
                        self.expp('(');
                        self.num();
                        self.expp(')');
                    }
                    Ty::Ptr
                }
                "void" => Ty::Void,
                "float" => Ty::F32,
                "double" => Ty::F64,
                "metadata" | "label" | "token" | "x86_fp80" | "half" | "fp128" => Ty::Other,
                _ if w.starts_with('i') && w[1..].bytes().all(|c| c.is_ascii_digit()) => {
                    Ty::Int(w[1..].parse().unwrap())
                }
                _ => panic!("type? {w} in {:?}", self.t),
            },
            T::Local(n) => self.cx.named.get(&n).cloned().unwrap_or(Ty::Other),
            T::P('[') => {
                let n = self.num();
                assert!(self.eatw("x"));
                let t = self.ty();
                self.expp(']');
                Ty::Arr(n, Box::new(t))
            }
            T::P('<') => {
                if self.isp('{') {
                    self.i += 1;
                    let mut v = vec![];
                    while !self.isp('}') {
                        v.push(self.ty());
                        self.eatp(',');
                    }
                    self.expp('}');
                    self.expp('>');
                    Ty::Struct(v, true)
                } else {
                    let n = self.num();
                    assert!(self.eatw("x"));
                    let t = self.ty();
                    self.expp('>');
                    Ty::Vec(n, Box::new(t))
                }
            }
            T::P('{') => {
                let mut v = vec![];
                while !self.isp('}') {
                    v.push(self.ty());
                    self.eatp(',');
                }
                self.expp('}');
                Ty::Struct(v, false)
            }
            t => panic!("type? {t:?} in {:?}", self.t),
        }
    }
    fn skip_parens(&mut self) {
        let mut d = 0;
        loop {
            match self.next() {
                T::P('(') => d += 1,
                T::P(')') => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                _ => {}
            }
        }
    }
    /// skip parameter attributes
    fn attrs(&mut self) {
        loop {
            match self.peek() {
                Some(T::Word(w)) => {
                    if is_operand_word(w) {
                        return;
                    }
                    let al = w == "align";
                    self.i += 1;
                    if self.isp('(') {
                        self.skip_parens();
                    } else if al {
                        self.i += 1;
                    }
                }
                Some(T::QStr(_)) => {
                    self.i += 1;
                    if self.eatp('=') {
                        self.i += 1;
                    }
                }
                Some(T::Attr(_)) => self.i += 1,
                _ => return,
            }
        }
    }
    fn konst(&mut self, ty: &Ty) -> K {
        match self.next() {
            T::Num(s) => match ty {
                Ty::F64 => K::Int(parse_f64(&s) as u128),
                Ty::F32 => K::Int((f64::from_bits(parse_f64(&s)) as f32).to_bits() as u128),
                Ty::Int(w) => {
                    let v = parse_int(&s) as u128;
                    K::Int(if *w >= 128 { v } else { v & ((1u128 << w) - 1) })
                }
                _ => panic!("num const of {ty:?}"),
            },
            T::Word(w) => match w.as_str() {
                "true" => K::Int(1),
                "false" => K::Int(0),
                "null" | "none" => K::Int(0),
                "undef" | "poison" => undef_of(ty),
                "zeroinitializer" => zero_of(ty),
                "splat" => {
                    self.expp('(');
                    let t = self.ty();
                    let k = self.konst(&t);
                    self.expp(')');
                    K::Agg(vec![k; ty.nfields() as usize])
                }
                "getelementptr" => {
                    while !self.isp('(') {
                        self.i += 1;
                    }
                    self.expp('(');
                    let sty = self.ty();
                    self.expp(',');
                    let bt = self.ty();
                    let K::Int(base) = self.konst(&bt) else { panic!() };
                    let mut off = base as i128;
                    let mut cur = sty;
                    let mut first = true;
                    while self.eatp(',') {
                        let it = self.ty();
                        let K::Int(ix) = self.konst(&it) else { panic!() };
                        let w = it.width();
                        let ix = if w < 128 && (ix >> (w - 1)) & 1 == 1 {
                            ix as i128 - (1i128 << w)
                        } else {
                            ix as i128
                        };
                        if first {
                            off += ix * cur.size() as i128;
                            first = false;
                        } else {
                            let (o, t) = cur.field(ix as u64);
                            off += o as i128;
                            cur = t.clone();
                        }
                    }
                    self.expp(')');
                    K::Int(off as u64 as u128)
                }
                "inttoptr" | "ptrtoint" | "bitcast" | "addrspacecast" | "trunc" | "zext" | "ptrtoaddr" => {
                    self.expp('(');
                    let t = self.ty();
                    let k = self.konst(&t);
                    assert!(self.eatw("to"));
                    let t2 = self.ty();
                    self.expp(')');
                    match (k, t2) {
                        (K::Int(v), Ty::Int(w)) if w < 128 => K::Int(v & ((1u128 << w) - 1)),
                        (k, _) => k,
                    }
                }
                "sub" | "add" | "xor" | "mul" => {
                    while !self.isp('(') {
                        self.i += 1;
                    }
                    self.expp('(');
                    let t = self.ty();
                    let K::Int(a) = self.konst(&t) else { panic!() };
                    self.expp(',');
                    let t2 = self.ty();
                    let K::Int(b) = self.konst(&t2) else { panic!() };
                    self.expp(')');
                    let r = match w.as_str() {
                        "sub" => a.wrapping_sub(b),
                        "add" => a.wrapping_add(b),
                        "mul" => a.wrapping_mul(b),
                        _ => a ^ b,
                    };
                    let wd = t.width();
                    K::Int(if wd >= 128 { r } else { r & ((1u128 << wd) - 1) })
                }
                "dso_local_equivalent" | "no_cfi" => self.konst(ty),
                x if x.starts_with("f0x") => K::Int(u128::from_str_radix(&x[3..], 16).unwrap()),
                _ => panic!("const word {w} in {:?}", self.t),
            },
            T::Global(g) => {
                if let Some(&i) = self.cx.fidx.get(&g) {
                    K::Int((FUNC_BASE + ((i as u64) << 4)) as u128)
                } else if let Some(&i) = self.cx.gidx.get(&g) {
                    K::Int((GLOBAL_BASE + ((i as u64 + 1) << OBJ_SHIFT)) as u128)
                } else {
                    panic!("unknown global {g}")
                }
            }
            T::Str(s) => K::Agg(s.iter().map(|&b| K::Int(b as u128)).collect()),
            T::P('[') => self.klist(']'),
            T::P('{') => self.klist('}'),
            T::P('<') => {
                if self.eatp('{') {
                    let k = self.klist('}');
                    self.expp('>');
                    k
                } else {
                    self.klist('>')
                }
            }
            T::Meta => K::Undef,
            t => panic!("const? {t:?} in {:?}", self.t),
        }
    }
    fn klist(&mut self, end: char) -> K {
        let mut v = vec![];
        while !self.isp(end) {
            let t = self.ty();
            v.push(self.konst(&t));
            self.eatp(',');
        }
        self.expp(end);
        K::Agg(v)
    }
    fn op(&mut self, ty: &Ty, l: &mut Loc) -> Op {
        if let Some(T::Local(n)) = self.peek() {
            let n = n.clone();
            self.i += 1;
            return Op::R(reg(l, &n));
        }
        Op::C(self.konst(ty))
    }
    fn tyop(&mut self, l: &mut Loc) -> (Ty, Op) {
        let t = self.ty();
        self.attrs();
        let o = self.op(&t, l);
        (t, o)
    }
    fn bb(&mut self, l: &mut Loc) -> u32 {
        assert!(self.eatw("label"), "label in {:?}", self.t);
        let T::Local(n) = self.next() else { panic!() };
        *l.bbs.get(&n).unwrap_or_else(|| panic!("bb {n}"))
    }
}

fn reg(l: &mut Loc, n: &str) -> u32 {
    if let Some(&r) = l.regs.get(n) {
        return r;
    }
    let r = l.regs.len() as u32;
    l.regs.insert(n.to_string(), r);
    r
}

fn is_operand_word(w: &str) -> bool {
    matches!(
        w,
        "true" | "false" | "null" | "none" | "undef" | "poison" | "zeroinitializer" | "splat" | "getelementptr"
            | "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "zext" | "sub" | "add" | "xor" | "mul" | "ptrtoaddr"
            | "dso_local_equivalent" | "addrspacecast" | "no_cfi"
    ) || w.starts_with("f0x")
}

pub fn undef_of(t: &Ty) -> K {
    match t {
        Ty::Arr(n, e) | Ty::Vec(n, e) => K::Agg(vec![undef_of(e); *n as usize]),
        Ty::Struct(v, _) => K::Agg(v.iter().map(undef_of).collect()),
        _ => K::Undef,
    }
}
pub fn zero_of(t: &Ty) -> K {
    match t {
        Ty::Arr(n, e) | Ty::Vec(n, e) => K::Agg(vec![zero_of(e); *n as usize]),
        Ty::Struct(v, _) => K::Agg(v.iter().map(zero_of).collect()),
        _ => K::Int(0),
    }
}

fn parse_int(s: &str) -> i128 {
    if let Some(x) = s.strip_prefix("u0x").or(s.strip_prefix("s0x")) {
        return u128::from_str_radix(x, 16).unwrap() as i128;
    }
    if let Ok(v) = s.parse::<i128>() {
        return v;
    }
    s.parse::<u128>().unwrap_or_else(|_| panic!("int {s}")) as i128
}
fn parse_f64(s: &str) -> u64 {
    if let Some(x) = s.strip_prefix("0x") {
        u64::from_str_radix(x, 16).unwrap()
    } else {
        s.parse::<f64>().unwrap_or_else(|_| panic!("float {s}")).to_bits()
    }
}

fn gep_scale(sty: &Ty, idxs: &[(Ty, Op)]) -> (i64, Vec<(Op, u32, i64)>) {
    let mut off = 0i64;
    let mut dynv = vec![];
    let mut cur = sty.clone();
    for (k, (it, io)) in idxs.iter().enumerate() {
        let sx = |v: u128, w: u32| -> i64 {
            if w >= 64 {
                v as u64 as i64
            } else {
                let s = 64 - w;
                ((v as u64) << s) as i64 >> s
            }
        };
        if k == 0 {
            let sz = cur.size() as i64;
            match io {
                Op::C(K::Int(v)) => off = off.wrapping_add(sx(*v, it.width()).wrapping_mul(sz)),
                o => dynv.push((o.clone(), it.width(), sz)),
            }
            continue;
        }
        match (&cur, io) {
            (Ty::Struct(..), Op::C(K::Int(v))) => {
                let (o, t) = cur.field(*v as u64);
                off += o as i64;
                cur = t.clone();
            }
            (Ty::Arr(_, e), o) | (Ty::Vec(_, e), o) => {
                let sz = e.size() as i64;
                match o {
                    Op::C(K::Int(v)) => off = off.wrapping_add(sx(*v, it.width()).wrapping_mul(sz)),
                    o => dynv.push((o.clone(), it.width(), sz)),
                }
                cur = (**e).clone();
            }
            _ => panic!("gep"),
        }
    }
    (off, dynv)
}

fn header_ty_end(toks: &[T]) -> usize {
    // index of the @name token in a define/declare
    toks.iter().position(|t| matches!(t, T::Global(_))).unwrap()
}

pub fn parse(text: &str) -> Module {
    // pass 0: split into logical lines
    let mut named: HashMap<String, Ty> = HashMap::new();
    let mut attr_noreturn: HashMap<u32, bool> = HashMap::new();
    let mut fidx = HashMap::new();
    let mut gidx = HashMap::new();
    let lines: Vec<&str> = text.lines().collect();
    let gname = |l: &str| -> String {
        match &lex(&l[..l.len().min(2000)])[..] {
            [T::Global(n), ..] => n.clone(),
            _ => panic!(),
        }
    };
    let mut fnames = vec![];
    let mut gnames = vec![];
    let mut named_lines = vec![];
    for l in &lines {
        if l.starts_with("define ") || l.starts_with("declare ") {
            let toks = lex(l);
            let p = header_ty_end(&toks);
            let T::Global(n) = &toks[p] else { panic!() };
            fidx.insert(n.clone(), fnames.len() as u32);
            fnames.push(n.clone());
        } else if l.starts_with('@') {
            let n = gname(l);
            gidx.insert(n.clone(), gnames.len() as u32);
            gnames.push(n);
        } else if l.starts_with("attributes #") {
            let n: u32 = l["attributes #".len()..].split(' ').next().unwrap().parse().unwrap();
            let nr = l.split(['{', ' ', '}']).any(|w| w == "noreturn");
            attr_noreturn.insert(n, nr);
        } else if l.starts_with('%') && l.contains(" = type ") {
            named_lines.push(*l);
        }
    }
    for _ in 0..4 {
        for l in &named_lines {
            let toks = lex(l);
            let T::Local(n) = &toks[0] else { panic!() };
            if toks.len() > 3 && toks[3] != T::Word("opaque".into()) {
                let cx = Ctx { fidx: &fidx, gidx: &gidx, named: &named };
                let mut ps = Ps { t: &toks, i: 3, cx: &cx };
                let ty = ps.ty();
                named.insert(n.clone(), ty);
            }
        }
    }
    let cx = Ctx { fidx: &fidx, gidx: &gidx, named: &named };
    let mut globals = vec![];
    let mut funcs = vec![];
    let mut li = 0;
    while li < lines.len() {
        let l = lines[li];
        if l.starts_with('@') {
            let toks = lex(l);
            let g = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| parse_global(&toks, &cx)));
            globals.push(g.unwrap_or_else(|_| {
                let T::Global(name) = &toks[0] else { unreachable!() };
                Global { name: name.clone(), constant: true, ty: Ty::Other, init: None, align: 1, tls: false }
            }));
        } else if l.starts_with("declare ") {
            let toks = lex(l);
            funcs.push(parse_header(&toks, &cx, &attr_noreturn, true).0);
        } else if l.starts_with("define ") {
            let toks = lex(l);
            let (mut f, mut loc) = parse_header(&toks, &cx, &attr_noreturn, false);
            // body
            let st = li + 1;
            let mut en = st;
            while lines[en] != "}" {
                en += 1;
            }
            parse_body(&lines[st..en], &mut f, &mut loc, &cx, &attr_noreturn);
            funcs.push(f);
            li = en;
        }
        li += 1;
    }
    drop(cx);
    Module { funcs, globals, fidx, gidx }
}

fn parse_global(toks: &[T], cx: &Ctx) -> Global {
    let T::Global(name) = &toks[0] else { panic!() };
    let mut ps = Ps { t: toks, i: 2, cx };
    let mut external = false;
    let mut tls = false;
    loop {
        match ps.next() {
            T::Word(w) if w == "global" || w == "constant" => {
                let constant = w == "constant";
                let ty = ps.ty();
                // no panic unwinds in these builds (panic=abort): the panic count is zero
                // and the keys of RandomState are not drawn yet
                let init = if external && (name.contains("GLOBAL_PANIC_COUNT") || name.contains("11RandomState3new4KEYS")) {
                    Some(zero_of(&ty))
                } else if external {
                    None
                } else {
                    Some(ps.konst(&ty))
                };
                let mut align = ty.align();
                while ps.i < toks.len() {
                    if ps.eatw("align") {
                        align = ps.num();
                    } else {
                        ps.i += 1;
                    }
                }
                return Global { name: name.clone(), constant, ty, init, align, tls };
            }
            T::Word(w) if w == "alias" => {
                // alias TY, ptr @x : treat as external
                return Global { name: name.clone(), constant: true, ty: Ty::Other, init: None, align: 1, tls };
            }
            T::Word(w) => {
                if w == "external" || w == "extern_weak" {
                    external = true;
                }
                if w == "thread_local" {
                    tls = true;
                    if ps.isp('(') {
                        ps.skip_parens();
                    }
                }
                if w == "addrspace" {
                    ps.skip_parens();
                }
            }
            _ => {}
        }
    }
}

fn parse_header(toks: &[T], cx: &Ctx, nr: &HashMap<u32, bool>, decl: bool) -> (Func, Loc) {
    let p = header_ty_end(toks);
    let T::Global(name) = &toks[p] else { panic!() };
    let mut loc = Loc { regs: HashMap::new(), bbs: HashMap::new() };
    // return type: walk from start skipping linkage words until type parses up to p
    let mut ps = Ps { t: toks, i: 1, cx };
    loop {
        match ps.peek() {
            Some(T::Word(w)) => {
                let isty = matches!(w.as_str(), "ptr" | "void" | "float" | "double" | "metadata" | "token")
                    || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()));
                if isty {
                    break;
                }
                let al = w == "align";
                ps.i += 1;
                if ps.isp('(') {
                    ps.skip_parens();
                } else if al {
                    ps.i += 1;
                }
            }
            Some(T::P('{')) | Some(T::P('[')) | Some(T::P('<')) | Some(T::Local(_)) => break,
            _ => ps.i += 1,
        }
    }
    let ret = ps.ty();
    ps.i = p + 1;
    ps.expp('(');
    let mut n = 0;
    while !ps.isp(')') {
        if ps.eatp('.') || ps.eatw("...") {
            while !ps.isp(')') {
                ps.i += 1;
            }
            break;
        }
        ps.ty();
        ps.attrs();
        if let Some(T::Local(nm)) = ps.peek() {
            let nm = nm.clone();
            ps.i += 1;
            let r = reg(&mut loc, &nm);
            assert_eq!(r, n);
        }
        n += 1;
        ps.eatp(',');
    }
    ps.expp(')');
    let mut noreturn = false;
    for t in &toks[ps.i..] {
        if let T::Attr(a) = t {
            noreturn |= nr.get(a).copied().unwrap_or(false);
        }
    }
    (
        Func { name: name.clone(), nparams: n, nregs: 0, blocks: vec![], declared_only: decl, noreturn, ret },
        loc,
    )
}

fn label_of(l: &str) -> Option<String> {
    // "name:   ; preds" at column 0
    if l.is_empty() || l.starts_with(' ') || l.starts_with(';') {
        return None;
    }
    if let Some(r) = l.strip_prefix('"') {
        let e = r.find('"')?;
        return Some(String::from_utf8_lossy(&unesc(r[..e].as_bytes())).into_owned());
    }
    let e = l.find(':')?;
    Some(l[..e].to_string())
}

fn parse_body(lines: &[&str], f: &mut Func, loc: &mut Loc, cx: &Ctx, nr: &HashMap<u32, bool>) {
    let mut nb = 0;
    // implicit entry label = number of params if unnamed; rustc always names entry `start`
    let first_label = lines.iter().find(|l| !l.trim().is_empty()).and_then(|l| label_of(l));
    if first_label.is_none() {
        loc.bbs.insert(format!("{}", f.nparams), 0);
        nb = 1;
    }
    for l in lines {
        if let Some(n) = label_of(l) {
            loc.bbs.insert(n, nb);
            nb += 1;
        }
    }
    f.blocks = (0..nb).map(|_| Block::default()).collect();
    let mut cur: usize = if first_label.is_none() { 0 } else { usize::MAX };
    let mut i = 0;
    while i < lines.len() {
        let l = lines[i];
        i += 1;
        if l.trim().is_empty() || l.trim_start().starts_with(';') {
            continue;
        }
        if let Some(n) = label_of(l) {
            cur = loc.bbs[&n] as usize;
            continue;
        }
        if l.trim_start().starts_with('#') {
            continue; // debug records
        }
        let mut toks = lex(l);
        // multi-line switch
        if matches!(toks.first(), Some(T::Word(w)) if w == "switch") {
            while !matches!(toks.iter().rev().find(|t| **t != T::Meta && **t != T::P(',')), Some(T::P(']'))) {
                toks.extend(lex(lines[i]));
                i += 1;
            }
        }
        // an invoke continues with its destinations, a landingpad with its clauses
        let kind = toks.iter().find_map(|t| match t {
            T::Word(w) if w != "tail" => Some(w.as_str()),
            _ => None,
        });
        if kind == Some("invoke") {
            while !toks.iter().any(|t| matches!(t, T::Word(w) if w == "unwind")) {
                toks.extend(lex(lines[i]));
                i += 1;
            }
        } else if kind == Some("landingpad") {
            while i < lines.len() && ["cleanup", "catch ", "filter "].iter().any(|w| lines[i].trim_start().starts_with(w)) {
                i += 1;
            }
        }
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| parse_ins(&toks, f, cur, loc, cx, nr)));
        if r.is_err() {
            f.blocks[cur].ins.push(I::Unsup(l.trim().to_string()));
        }
    }
    f.nregs = loc.regs.len() as u32;
}

fn parse_ins(toks: &[T], f: &mut Func, cur: usize, l: &mut Loc, cx: &Ctx, nr: &HashMap<u32, bool>) {
    let mut p = Ps { t: toks, i: 0, cx };
    let mut dst = None;
    if let (Some(T::Local(n)), Some(T::P('='))) = (toks.first(), toks.get(1)) {
        dst = Some(reg(l, n));
        p.i = 2;
    }
    let T::Word(mut w) = p.next() else { panic!("ins {toks:?}") };
    while matches!(w.as_str(), "tail" | "musttail" | "notail") {
        let T::Word(x) = p.next() else { panic!() };
        w = x;
    }
    let d = dst.unwrap_or(0);
    let b = &mut f.blocks[cur];
    let skipflags = |p: &mut Ps| {
        while let Some(T::Word(w)) = p.peek() {
            if matches!(
                w.as_str(),
                "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "samesign" | "inbounds" | "nusw" | "fast" | "nnan"
                    | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "inrange"
            ) {
                p.i += 1;
                if p.isp('(') {
                    p.skip_parens();
                }
            } else {
                break;
            }
        }
    };
    let bop = match w.as_str() {
        "add" => Some(Bop::Add),
        "sub" => Some(Bop::Sub),
        "mul" => Some(Bop::Mul),
        "udiv" => Some(Bop::UDiv),
        "sdiv" => Some(Bop::SDiv),
        "urem" => Some(Bop::URem),
        "srem" => Some(Bop::SRem),
        "and" => Some(Bop::And),
        "or" => Some(Bop::Or),
        "xor" => Some(Bop::Xor),
        "shl" => Some(Bop::Shl),
        "lshr" => Some(Bop::LShr),
        "ashr" => Some(Bop::AShr),
        _ => None,
    };
    if let Some(bo) = bop {
        skipflags(&mut p);
        let (t, a) = p.tyop(l);
        p.expp(',');
        let c = p.op(&t, l);
        b.ins.push(I::Bin(bo, t, d, a, c));
        return;
    }
    let fop = match w.as_str() {
        "fadd" => Some(Fop::Add),
        "fsub" => Some(Fop::Sub),
        "fmul" => Some(Fop::Mul),
        "fdiv" => Some(Fop::Div),
        "frem" => Some(Fop::Rem),
        _ => None,
    };
    if let Some(fo) = fop {
        skipflags(&mut p);
        let (t, a) = p.tyop(l);
        p.expp(',');
        let c = p.op(&t, l);
        b.ins.push(I::FBin(fo, t, d, a, c));
        return;
    }
    let cast = match w.as_str() {
        "zext" => Some(Cast::ZExt),
        "sext" => Some(Cast::SExt),
        "trunc" => Some(Cast::Trunc),
        "bitcast" | "ptrtoint" | "inttoptr" | "ptrtoaddr" | "addrspacecast" => Some(Cast::Bit),
        "uitofp" => Some(Cast::UiToFp),
        "sitofp" => Some(Cast::SiToFp),
        "fptoui" => Some(Cast::FpToUi),
        "fptosi" => Some(Cast::FpToSi),
        "fptrunc" => Some(Cast::FpTrunc),
        "fpext" => Some(Cast::FpExt),
        _ => None,
    };
    if let Some(mut c) = cast {
        skipflags(&mut p);
        let (t, a) = p.tyop(l);
        assert!(p.eatw("to"), "{toks:?}");
        let t2 = p.ty();
        if c == Cast::Bit && !t.is_agg() && !t2.is_agg() {
            // ptrtoint/inttoptr may change width
            if t2.width() < t.width() {
                c = Cast::Trunc
            } else if t2.width() > t.width() {
                c = Cast::ZExt
            }
        }
        b.ins.push(I::Cast(c, d, a, t, t2));
        return;
    }
    match w.as_str() {
        "icmp" => {
            skipflags(&mut p);
            let T::Word(pw) = p.next() else { panic!() };
            let pr = match pw.as_str() {
                "eq" => Pred::Eq,
                "ne" => Pred::Ne,
                "ult" => Pred::Ult,
                "ule" => Pred::Ule,
                "ugt" => Pred::Ugt,
                "uge" => Pred::Uge,
                "slt" => Pred::Slt,
                "sle" => Pred::Sle,
                "sgt" => Pred::Sgt,
                "sge" => Pred::Sge,
                _ => panic!(),
            };
            let (t, a) = p.tyop(l);
            p.expp(',');
            let c = p.op(&t, l);
            b.ins.push(I::ICmp(pr, t, d, a, c));
        }
        "fcmp" => {
            skipflags(&mut p);
            let T::Word(pw) = p.next() else { panic!() };
            let (t, a) = p.tyop(l);
            p.expp(',');
            let c = p.op(&t, l);
            b.ins.push(I::FCmp(pw, t, d, a, c));
        }
        "fneg" => {
            skipflags(&mut p);
            let (t, a) = p.tyop(l);
            b.ins.push(I::FNeg(t, d, a));
        }
        "select" => {
            skipflags(&mut p);
            let (ct, c) = p.tyop(l);
            p.expp(',');
            let (t, a) = p.tyop(l);
            p.expp(',');
            let (_, e) = p.tyop(l);
            b.ins.push(I::Select(t, d, c, a, e, ct.is_agg()));
        }
        "phi" => {
            skipflags(&mut p);
            let t = p.ty();
            let mut v = vec![];
            while p.eatp('[') {
                let o = p.op(&t, l);
                p.expp(',');
                let T::Local(n) = p.next() else { panic!() };
                p.expp(']');
                v.push((l.bbs[&n], o));
                if !p.eatp(',') {
                    break;
                }
            }
            b.phis.push((d, v));
        }
        "load" => {
            while p.eatw("atomic") || p.eatw("volatile") {}
            let t = p.ty();
            p.expp(',');
            let (_, a) = p.tyop(l);
            b.ins.push(I::Load(t, d, a));
        }
        "store" => {
            while p.eatw("atomic") || p.eatw("volatile") {}
            let (t, v) = p.tyop(l);
            p.expp(',');
            let (_, a) = p.tyop(l);
            b.ins.push(I::Store(t, v, a));
        }
        "getelementptr" => {
            skipflags(&mut p);
            let sty = p.ty();
            p.expp(',');
            let (_, base) = p.tyop(l);
            let mut idx = vec![];
            while p.eatp(',') {
                if matches!(p.peek(), Some(T::Meta)) {
                    break;
                }
                idx.push(p.tyop(l));
            }
            let (off, dynv) = gep_scale(&sty, &idx);
            b.ins.push(I::Gep(d, base, off, dynv));
        }
        "alloca" => {
            p.eatw("inalloca");
            let t = p.ty();
            let mut n = 1;
            let mut al = t.align();
            while p.eatp(',') {
                if p.eatw("align") {
                    al = p.num();
                } else if matches!(p.peek(), Some(T::Meta)) {
                    break;
                } else {
                    let t2 = p.ty();
                    let K::Int(k) = p.konst(&t2) else { panic!("dynamic alloca") };
                    n = k as u64;
                }
            }
            b.ins.push(I::Alloca(d, t.size() * n, al));
        }
        "br" => {
            if p.isw("label") {
                let x = p.bb(l);
                b.ins.push(I::Br(x));
            } else {
                let (_, c) = p.tyop(l);
                p.expp(',');
                let x = p.bb(l);
                p.expp(',');
                let y = p.bb(l);
                b.ins.push(I::CondBr(c, x, y));
            }
        }
        "switch" => {
            let (t, c) = p.tyop(l);
            p.expp(',');
            let def = p.bb(l);
            p.expp('[');
            let mut v = vec![];
            while !p.isp(']') {
                let t2 = p.ty();
                let K::Int(k) = p.konst(&t2) else { panic!() };
                p.expp(',');
                let x = p.bb(l);
                v.push((k as u64, x));
            }
            b.ins.push(I::Switch(t.width(), c, v, def));
        }
        "ret" => {
            if p.isw("void") {
                b.ins.push(I::Ret(None));
            } else {
                let (_, o) = p.tyop(l);
                b.ins.push(I::Ret(Some(o)));
            }
        }
        "unreachable" => b.ins.push(I::Unreachable),
        "landingpad" => b.ins.push(I::Landing(d)),
        "resume" => b.ins.push(I::Resume),
        "fence" => b.ins.push(I::Fence),
        "freeze" => {
            let (_, a) = p.tyop(l);
            b.ins.push(I::Copy(d, a));
        }
        "extractvalue" => {
            let (_, a) = p.tyop(l);
            let mut ix = vec![];
            while p.eatp(',') {
                if matches!(p.peek(), Some(T::Meta)) {
                    break;
                }
                ix.push(p.num());
            }
            b.ins.push(I::ExtractValue(d, a, ix));
        }
        "insertvalue" => {
            let (t, a) = p.tyop(l);
            p.expp(',');
            let (_, v) = p.tyop(l);
            let mut ix = vec![];
            while p.eatp(',') {
                if matches!(p.peek(), Some(T::Meta)) {
                    break;
                }
                ix.push(p.num());
            }
            b.ins.push(I::InsertValue(d, t, a, v, ix));
        }
        "extractelement" => {
            let (_, a) = p.tyop(l);
            p.expp(',');
            let (_, i) = p.tyop(l);
            b.ins.push(I::ExtractElement(d, a, i));
        }
        "insertelement" => {
            let (t, a) = p.tyop(l);
            p.expp(',');
            let (_, v) = p.tyop(l);
            p.expp(',');
            let (_, i) = p.tyop(l);
            b.ins.push(I::InsertElement(d, t, a, v, i));
        }
        "shufflevector" => {
            let (t, a) = p.tyop(l);
            p.expp(',');
            let (_, v) = p.tyop(l);
            p.expp(',');
            let mt = p.ty();
            let m = p.konst(&mt);
            b.ins.push(I::Shuffle(d, t.nfields(), a, v, m));
        }
        "atomicrmw" => {
            p.eatw("volatile");
            let T::Word(o) = p.next() else { panic!() };
            let op = match o.as_str() {
                "xchg" => Rmw::Xchg,
                "add" => Rmw::Add,
                "sub" => Rmw::Sub,
                "and" => Rmw::And,
                "or" => Rmw::Or,
                "xor" => Rmw::Xor,
                "umax" => Rmw::UMax,
                "umin" => Rmw::UMin,
                "max" => Rmw::Max,
                "min" => Rmw::Min,
                _ => panic!("rmw {o}"),
            };
            let (_, a) = p.tyop(l);
            p.expp(',');
            let (t, v) = p.tyop(l);
            b.ins.push(I::AtomicRmw(op, t, d, a, v));
        }
        "cmpxchg" => {
            while p.eatw("weak") || p.eatw("volatile") {}
            let (_, a) = p.tyop(l);
            p.expp(',');
            let (t, c) = p.tyop(l);
            p.expp(',');
            let (_, n) = p.tyop(l);
            b.ins.push(I::CmpXchg(t, d, a, c, n));
        }
        "call" | "invoke" => {
            // call [fastmath] [cc] [ret attrs] ty callee(args) attrs [bundles]
            loop {
                match p.peek() {
                    Some(T::Word(w)) => {
                        let isty = matches!(w.as_str(), "ptr" | "void" | "float" | "double" | "metadata" | "token")
                            || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()));
                        if isty {
                            break;
                        }
                        let al = w == "align";
                        p.i += 1;
                        if p.isp('(') {
                            p.skip_parens();
                        } else if al {
                            p.i += 1;
                        }
                    }
                    Some(T::P('{')) | Some(T::P('[')) | Some(T::P('<')) => break,
                    Some(T::Local(_)) => break,
                    _ => p.i += 1,
                }
            }
            let rt = p.ty();
            if p.isp('(') {
                p.skip_parens(); // explicit fn type
            }
            let mut asm = false;
            let callee = match p.next() {
                T::Global(g) => {
                    let fi = *cx.fidx.get(&g).unwrap_or_else(|| panic!("callee {g}"));
                    Callee::Fn(fi)
                }
                T::Local(n) => Callee::Ind(Op::R(reg(l, &n))),
                T::Word(x) if x == "asm" => {
                    asm = true;
                    while !p.isp('(') {
                        p.i += 1;
                    }
                    Callee::Ind(Op::C(K::Int(0)))
                }
                T::Word(_) => {
                    p.i -= 1;
                    Callee::Ind(Op::C(p.konst(&Ty::Ptr)))
                }
                t => panic!("callee {t:?}"),
            };
            p.expp('(');
            let mut args = vec![];
            while !p.isp(')') {
                let t = p.ty();
                p.attrs();
                if t == Ty::Other {
                    // metadata operand
                    let mut dpt = 0;
                    while !(dpt == 0 && (p.isp(',') || p.isp(')'))) {
                        if p.isp('(') {
                            dpt += 1
                        }
                        if p.isp(')') {
                            dpt -= 1
                        }
                        p.i += 1;
                    }
                    args.push(Op::C(K::Undef));
                } else {
                    args.push(p.op(&t, l));
                }
                p.eatp(',');
            }
            p.expp(')');
            let mut noret = false;
            while let Some(t) = p.peek() {
                match t {
                    T::Attr(a) => noret |= nr.get(a).copied().unwrap_or(false),
                    T::P('[') | T::P(',') => break,
                    T::Word(x) if x == "to" => break,
                    _ => {}
                }
                p.i += 1;
            }
            if asm {
                if dst.is_some() {
                    // opaque identity (black_box): out = in
                    let a = args.first().cloned().unwrap_or(Op::C(K::Int(0)));
                    b.ins.push(I::Copy(d, a));
                }
                return;
            }
            b.ins.push(I::Call(dst, callee, args, rt, noret));
            if w == "invoke" {
                if p.isp('[') {
                    while !p.eatp(']') {
                        p.i += 1;
                    }
                }
                assert!(p.eatw("to"));
                let to = p.bb(l);
                assert!(p.eatw("unwind"));
                let un = p.bb(l);
                b.ins.push(I::Inv(to, un));
            }
        }
        _ => panic!("unsupported instruction {w}: {toks:?}"),
    }
}

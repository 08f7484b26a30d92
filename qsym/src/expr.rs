//! Hash-consed bit-vector / linear-integer expressions with interval simplification.
use crate::ir::{Bop, Pred};
use std::collections::HashMap;

pub type E = u32;
pub type Tid = u32;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Node {
    Const { w: u32, v: u64 },
    /// program input number `idx`, unsigned value in lo..=hi
    Var { idx: u32, w: u32, lo: u64, hi: u64 },
    /// sum(terms)+c, guaranteed (by intervals) to lie in 0..2^w for every input in range
    Lin { w: u32, t: Tid, c: i128 },
    /// sum(terms)+c >= 0 over the integers
    Ge0 { t: Tid, c: i128 },
    Eq0 { t: Tid, c: i128 },
    Not(E),
    And(E, E),
    Or(E, E),
    Bin { op: Bop, w: u32, a: E, b: E },
    Cmp { p: Pred, w: u32, a: E, b: E },
    Ite { w: u32, c: E, a: E, b: E },
    ZExt { w: u32, a: E },
    SExt { w: u32, a: E },
    /// bits lo .. lo+w of a
    Extract { w: u32, lo: u32, a: E },
    /// hi:lo
    Concat { w: u32, hi: E, lo: E },
    /// IEEE double operation over 64-bit patterns (b ignored by unary operations)
    Fp { op: Fo, a: E, b: E },
    /// IEEE double comparison
    FCmp { p: Fc, a: E, b: E },
    /// marker: the input's range constraint (always in the path condition of a state that has it)
    Dom(E),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Fo {
    FromU,
    FromS,
    Add,
    Sub,
    Mul,
    Div,
    Neg,
    Abs,
    ToUSat,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Fc {
    Oeq,
    Olt,
    Ole,
    Uno,
}
pub fn cfop(op: Fo, a: u64, b: u64) -> u64 {
    let (x, y) = (f64::from_bits(a), f64::from_bits(b));
    match op {
        Fo::FromU => (a as f64).to_bits(),
        Fo::FromS => (a as i64 as f64).to_bits(),
        Fo::Add => (x + y).to_bits(),
        Fo::Sub => (x - y).to_bits(),
        Fo::Mul => (x * y).to_bits(),
        Fo::Div => (x / y).to_bits(),
        Fo::Neg => (-x).to_bits(),
        Fo::Abs => x.abs().to_bits(),
        Fo::ToUSat => x as u64,
    }
}
pub fn cfcmp(p: Fc, a: u64, b: u64) -> bool {
    let (x, y) = (f64::from_bits(a), f64::from_bits(b));
    match p {
        Fc::Oeq => x == y,
        Fc::Olt => x < y,
        Fc::Ole => x <= y,
        Fc::Uno => x.is_nan() || y.is_nan(),
    }
}

pub type Terms = Vec<(E, i64)>;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum X {
    C(u64),
    S(E),
}

#[derive(Default)]
pub struct Exprs {
    pub nodes: Vec<Node>,
    iv: Vec<(u64, u64)>,
    map: HashMap<Node, E>,
    pub terms: Vec<Terms>,
    tneg: Vec<Tid>,
    tmap: HashMap<Terms, Tid>,
}

pub fn mask(w: u32) -> u64 {
    if w >= 64 {
        u64::MAX
    } else {
        (1u64 << w) - 1
    }
}
pub fn sext64(v: u64, w: u32) -> i64 {
    if w >= 64 {
        v as i64
    } else {
        ((v << (64 - w)) as i64) >> (64 - w)
    }
}

pub fn cbin(op: Bop, w: u32, a: u64, b: u64) -> Option<u64> {
    let m = mask(w);
    Some(match op {
        Bop::Add => a.wrapping_add(b) & m,
        Bop::Sub => a.wrapping_sub(b) & m,
        Bop::Mul => a.wrapping_mul(b) & m,
        Bop::UDiv => {
            if b == 0 {
                return None;
            }
            a / b
        }
        Bop::URem => {
            if b == 0 {
                return None;
            }
            a % b
        }
        Bop::SDiv => {
            let (x, y) = (sext64(a, w), sext64(b, w));
            if y == 0 {
                return None;
            }
            x.wrapping_div(y) as u64 & m
        }
        Bop::SRem => {
            let (x, y) = (sext64(a, w), sext64(b, w));
            if y == 0 {
                return None;
            }
            x.wrapping_rem(y) as u64 & m
        }
        Bop::And => a & b,
        Bop::Or => a | b,
        Bop::Xor => a ^ b,
        Bop::Shl => {
            if b >= w as u64 {
                return None;
            }
            (a << b) & m
        }
        Bop::LShr => {
            if b >= w as u64 {
                return None;
            }
            a >> b
        }
        Bop::AShr => {
            if b >= w as u64 {
                return None;
            }
            (sext64(a, w) >> b) as u64 & m
        }
    })
}
pub fn ccmp(p: Pred, w: u32, a: u64, b: u64) -> bool {
    let (sa, sb) = (sext64(a, w), sext64(b, w));
    match p {
        Pred::Eq => a == b,
        Pred::Ne => a != b,
        Pred::Ult => a < b,
        Pred::Ule => a <= b,
        Pred::Ugt => a > b,
        Pred::Uge => a >= b,
        Pred::Slt => sa < sb,
        Pred::Sle => sa <= sb,
        Pred::Sgt => sa > sb,
        Pred::Sge => sa >= sb,
    }
}

impl Exprs {
    pub fn mk(&mut self, n: Node) -> E {
        if let Some(&e) = self.map.get(&n) {
            return e;
        }
        let iv = self.compute_iv(&n);
        let e = self.nodes.len() as E;
        self.nodes.push(n.clone());
        self.iv.push(iv);
        self.map.insert(n, e);
        e
    }
    pub fn width(&self, e: E) -> u32 {
        match &self.nodes[e as usize] {
            Node::Const { w, .. }
            | Node::Var { w, .. }
            | Node::Lin { w, .. }
            | Node::Bin { w, .. }
            | Node::Ite { w, .. }
            | Node::ZExt { w, .. }
            | Node::SExt { w, .. }
            | Node::Extract { w, .. }
            | Node::Concat { w, .. } => *w,
            Node::Fp { .. } => 64,
            _ => 1,
        }
    }
    pub fn ivx(&self, x: X) -> (u64, u64) {
        match x {
            X::C(v) => (v, v),
            X::S(e) => self.iv[e as usize],
        }
    }
    fn t_iv(&self, t: &Terms, c: i128) -> (i128, i128) {
        let (mut lo, mut hi) = (c, c);
        for &(e, k) in t {
            let (l, h) = self.iv[e as usize];
            if k > 0 {
                lo += l as i128 * k as i128;
                hi += h as i128 * k as i128;
            } else {
                lo += h as i128 * k as i128;
                hi += l as i128 * k as i128;
            }
        }
        (lo, hi)
    }
    fn compute_iv(&self, n: &Node) -> (u64, u64) {
        match n {
            Node::Const { v, .. } => (*v, *v),
            Node::Var { lo, hi, .. } => (*lo, *hi),
            Node::Lin { t, c, .. } => {
                let (l, h) = self.t_iv(&self.terms[*t as usize], *c);
                (l as u64, h as u64)
            }
            Node::Bin { op, w, a, b } => {
                let (al, ah) = self.iv[*a as usize];
                let (bl, bh) = self.iv[*b as usize];
                let m = mask(*w);
                match op {
                    Bop::And => (0, ah.min(bh)),
                    Bop::Or | Bop::Xor => {
                        let x = ah | bh;
                        let hi = if x == 0 { 0 } else { u64::MAX >> x.leading_zeros() };
                        (if *op == Bop::Or { al.max(bl) } else { 0 }, hi & m)
                    }
                    Bop::UDiv if bl > 0 => (al / bh, ah / bl),
                    Bop::URem if bl > 0 => (0, ah.min(bh - 1)),
                    Bop::LShr if bl == bh && bl < 64 => (al >> bl, ah >> bl),
                    Bop::Mul => match ah.checked_mul(bh) {
                        Some(h) if h <= m => (al * bl, h),
                        _ => (0, m),
                    },
                    _ => (0, m),
                }
            }
            Node::Ite { a, b, .. } => {
                let (al, ah) = self.iv[*a as usize];
                let (bl, bh) = self.iv[*b as usize];
                (al.min(bl), ah.max(bh))
            }
            Node::ZExt { a, .. } => self.iv[*a as usize],
            Node::Extract { w, lo, a } => {
                let (l, h) = self.iv[*a as usize];
                if *lo == 0 && h <= mask(*w) {
                    (l, h)
                } else if (h >> lo) <= mask(*w) && *lo < 64 {
                    (l >> lo, h >> lo)
                } else {
                    (0, mask(*w))
                }
            }
            Node::Fp { .. } => (0, u64::MAX),
            Node::Concat { w, .. } | Node::SExt { w, .. } => (0, mask(*w)),
            _ => (0, 1),
        }
    }
    fn tid(&mut self, mut t: Terms) -> Tid {
        t.retain(|x| x.1 != 0);
        t.sort();
        if let Some(&i) = self.tmap.get(&t) {
            return i;
        }
        let i = self.terms.len() as Tid;
        self.terms.push(t.clone());
        self.tneg.push(u32::MAX);
        self.tmap.insert(t, i);
        i
    }
    fn neg_tid(&mut self, t: Tid) -> Tid {
        if self.tneg[t as usize] != u32::MAX {
            return self.tneg[t as usize];
        }
        let n: Terms = self.terms[t as usize].iter().map(|&(e, k)| (e, -k)).collect();
        let r = self.tid(n);
        self.tneg[t as usize] = r;
        self.tneg[r as usize] = t;
        r
    }
    pub fn var(&mut self, idx: u32, w: u32, lo: u64, hi: u64) -> E {
        self.mk(Node::Var { idx, w, lo, hi })
    }
    pub fn cst(&mut self, w: u32, v: u64) -> E {
        self.mk(Node::Const { w, v: v & mask(w) })
    }
    pub fn e(&mut self, x: X, w: u32) -> E {
        match x {
            X::C(v) => self.cst(w, v),
            X::S(e) => e,
        }
    }
    fn norm(&self, e: E) -> X {
        if let Node::Const { v, .. } = self.nodes[e as usize] {
            X::C(v)
        } else {
            X::S(e)
        }
    }
    /// linear view of a value (mathematical unsigned value)
    fn lin(&self, x: X) -> (Terms, i128) {
        match x {
            X::C(v) => (vec![], v as i128),
            X::S(e) => match &self.nodes[e as usize] {
                Node::Const { v, .. } => (vec![], *v as i128),
                Node::Lin { t, c, .. } => (self.terms[*t as usize].clone(), *c),
                Node::ZExt { a, .. } => self.lin(X::S(*a)),
                _ => (vec![(e, 1)], 0),
            },
        }
    }
    fn comb(&self, mut a: Terms, b: &Terms, k: i64) -> Terms {
        'o: for &(e, c) in b {
            for x in a.iter_mut() {
                if x.0 == e {
                    x.1 += c * k;
                    continue 'o;
                }
            }
            a.push((e, c * k));
        }
        a.retain(|x| x.1 != 0);
        a
    }
    /// value sum(t)+c of width w if it provably does not wrap
    fn try_lin(&mut self, w: u32, t: Terms, c: i128) -> Option<X> {
        let (lo, hi) = self.t_iv(&t, c);
        if lo < 0 || hi > mask(w) as i128 {
            return None;
        }
        if t.is_empty() {
            return Some(X::C(c as u64));
        }
        if t.len() > 24 {
            return None;
        }
        if t.len() == 1 && t[0].1 == 1 && c == 0 {
            let e = t[0].0;
            if self.width(e) == w {
                return Some(X::S(e));
            }
            if self.width(e) < w {
                return Some(X::S(self.mk(Node::ZExt { w, a: e })));
            }
        }
        let t = self.tid(t);
        Some(X::S(self.mk(Node::Lin { w, t, c })))
    }
    pub fn ge0(&mut self, t: Terms, c: i128) -> X {
        let (lo, hi) = self.t_iv(&t, c);
        if lo >= 0 {
            return X::C(1);
        }
        if hi < 0 {
            return X::C(0);
        }
        // divide by gcd
        let mut g: i64 = 0;
        for x in &t {
            let (mut a, mut b) = (g.abs(), x.1.abs());
            while b != 0 {
                (a, b) = (b, a % b);
            }
            g = a;
        }
        let (mut t, mut c) = (t, c);
        if g > 1 {
            for x in t.iter_mut() {
                x.1 /= g;
            }
            c = c.div_euclid(g as i128);
        }
        if t.len() == 1 && self.width(t[0].0) == 1 {
            // boolean term
            if t[0].1 == 1 && c == -1 {
                return X::S(t[0].0);
            }
            if t[0].1 == -1 && c == 0 {
                return self.not(X::S(t[0].0));
            }
        }
        let t = self.tid(t);
        X::S(self.mk(Node::Ge0 { t, c }))
    }
    pub fn eq0(&mut self, t: Terms, c: i128) -> X {
        let (lo, hi) = self.t_iv(&t, c);
        if lo > 0 || hi < 0 {
            return X::C(0);
        }
        if lo == 0 && hi == 0 {
            return X::C(1);
        }
        if lo == 0 {
            let n: Terms = t.iter().map(|&(e, k)| (e, -k)).collect();
            return self.ge0(n, -c);
        }
        if hi == 0 {
            return self.ge0(t, c);
        }
        let mut t = t;
        let mut c = c;
        t.sort();
        if t[0].1 < 0 {
            for x in t.iter_mut() {
                x.1 = -x.1;
            }
            c = -c;
        }
        let t = self.tid(t);
        X::S(self.mk(Node::Eq0 { t, c }))
    }
    pub fn not(&mut self, x: X) -> X {
        match x {
            X::C(v) => X::C(v ^ 1),
            X::S(e) => match self.nodes[e as usize].clone() {
                Node::Not(a) => X::S(a),
                Node::Ge0 { t, c } => {
                    let n = self.neg_tid(t);
                    let c2 = -c - 1;
                    X::S(self.mk(Node::Ge0 { t: n, c: c2 }))
                }
                _ => X::S(self.mk(Node::Not(e))),
            },
        }
    }
    pub fn and(&mut self, a: X, b: X) -> X {
        match (a, b) {
            (X::C(0), _) | (_, X::C(0)) => X::C(0),
            (X::C(_), y) => y,
            (x, X::C(_)) => x,
            (X::S(x), X::S(y)) => {
                if x == y {
                    return a;
                }
                if self.not(a) == b {
                    return X::C(0);
                }
                X::S(self.mk(Node::And(x.min(y), x.max(y))))
            }
        }
    }
    pub fn or(&mut self, a: X, b: X) -> X {
        match (a, b) {
            (X::C(1), _) | (_, X::C(1)) => X::C(1),
            (X::C(_), y) => y,
            (x, X::C(_)) => x,
            (X::S(x), X::S(y)) => {
                if x == y {
                    return a;
                }
                if self.not(a) == b {
                    return X::C(1);
                }
                X::S(self.mk(Node::Or(x.min(y), x.max(y))))
            }
        }
    }
    pub fn ite(&mut self, w: u32, c: X, a: X, b: X) -> X {
        match c {
            X::C(0) => return b,
            X::C(_) => return a,
            _ => {}
        }
        if a == b {
            return a;
        }
        if w == 1 {
            let l = self.and(c, a);
            let nc = self.not(c);
            let r = self.and(nc, b);
            return self.or(l, r);
        }
        let X::S(c) = c else { unreachable!() };
        let a = self.e(a, w);
        let b = self.e(b, w);
        X::S(self.mk(Node::Ite { w, c, a, b }))
    }
    /// None: the operation is UB/undefined for constant operands (caller reports)
    pub fn bin(&mut self, op: Bop, w: u32, a: X, b: X) -> Option<X> {
        if let (X::C(x), X::C(y)) = (a, b) {
            return cbin(op, w, x, y).map(X::C);
        }
        if w == 1 {
            return Some(match op {
                Bop::And | Bop::Mul => self.and(a, b),
                Bop::Or => self.or(a, b),
                Bop::Xor | Bop::Add | Bop::Sub => {
                    let na = self.not(a);
                    self.ite(1, b, na, a)
                }
                _ => panic!("i1 op"),
            });
        }
        let m = mask(w);
        match op {
            Bop::Add => {
                let (ta, ca) = self.lin(a);
                let (tb, cb) = self.lin(b);
                let t = self.comb(ta, &tb, 1);
                if let Some(x) = self.try_lin(w, t.clone(), ca + cb) {
                    return Some(x);
                }
                if let Some(x) = self.try_lin(w, t, ca + cb - (m as i128 + 1)) {
                    return Some(x);
                }
            }
            Bop::Sub => {
                let (ta, ca) = self.lin(a);
                let (tb, cb) = self.lin(b);
                let t = self.comb(ta, &tb, -1);
                if let Some(x) = self.try_lin(w, t, ca - cb) {
                    return Some(x);
                }
            }
            Bop::Mul | Bop::Shl => {
                let (x, k) = match (a, b, op) {
                    (x, X::C(k), Bop::Mul) => (x, k),
                    (X::C(k), x, Bop::Mul) => (x, k),
                    (x, X::C(k), Bop::Shl) if k < w as u64 && k < 63 => (x, 1u64 << k),
                    _ => (a, 0),
                };
                if k == 0 {
                    if op == Bop::Mul && (a == X::C(0) || b == X::C(0)) {
                        return Some(X::C(0));
                    }
                } else if k < (1 << 40) {
                    let (t, c) = self.lin(x);
                    let small = t.iter().all(|y| y.1.unsigned_abs() < (1 << 20));
                    if small {
                        let t: Terms = t.iter().map(|&(e, q)| (e, q * k as i64)).collect();
                        if let Some(x) = self.try_lin(w, t, c * k as i128) {
                            return Some(x);
                        }
                    }
                }
            }
            Bop::And => {
                if a == b {
                    return Some(a);
                }
                let (x, k) = match (a, b) {
                    (x, X::C(k)) | (X::C(k), x) => (Some(x), k),
                    _ => (None, 0),
                };
                if let Some(x) = x {
                    if k == 0 {
                        return Some(X::C(0));
                    }
                    if k == m {
                        return Some(x);
                    }
                    let (_, hi) = self.ivx(x);
                    if (k & (k + 1)) == 0 && hi <= k {
                        return Some(x);
                    }
                    // k is a low mask: zero-extended extract
                    if (k & (k + 1)) == 0 {
                        let nb = 64 - k.leading_zeros();
                        let ex = self.extract(nb, 0, x);
                        return Some(self.zext(w, ex, nb));
                    }
                }
            }
            Bop::Or => {
                if a == b {
                    return Some(a);
                }
                if b == X::C(0) {
                    return Some(a);
                }
                if a == X::C(0) {
                    return Some(b);
                }
                if a == X::C(m) || b == X::C(m) {
                    return Some(X::C(m));
                }
                // disjoint or of (x<<k)|y by intervals behaves as add when aligned
                let (_, ha) = self.ivx(a);
                let (_, hb) = self.ivx(b);
                let (big, small_hi) = if self.low_zero_bits(a) >= 64 - hb.leading_zeros() {
                    (true, hb)
                } else if self.low_zero_bits(b) >= 64 - ha.leading_zeros() {
                    (true, ha)
                } else {
                    (false, 0)
                };
                let _ = small_hi;
                if big {
                    return self.bin(Bop::Add, w, a, b);
                }
            }
            Bop::Xor => {
                if a == b {
                    return Some(X::C(0));
                }
                if b == X::C(0) {
                    return Some(a);
                }
                if a == X::C(0) {
                    return Some(b);
                }
            }
            Bop::LShr => {
                if let X::C(k) = b {
                    if k == 0 {
                        return Some(a);
                    }
                    if k < w as u64 {
                        let (_, hi) = self.ivx(a);
                        if hi >> k == 0 {
                            return Some(X::C(0));
                        }
                        let ex = self.extract(w - k as u32, k as u32, a);
                        return Some(self.zext(w, ex, w - k as u32));
                    }
                }
            }
            Bop::AShr => {
                let (_, hi) = self.ivx(a);
                if hi <= m >> 1 {
                    return self.bin(Bop::LShr, w, a, b);
                }
            }
            Bop::UDiv => {
                if b == X::C(1) {
                    return Some(a);
                }
                if let X::C(k) = b {
                    if k.is_power_of_two() {
                        return self.bin(Bop::LShr, w, a, X::C(k.trailing_zeros() as u64));
                    }
                    let (_, hi) = self.ivx(a);
                    if hi < k {
                        return Some(X::C(0));
                    }
                }
            }
            Bop::URem => {
                if let X::C(k) = b {
                    if k.is_power_of_two() {
                        return self.bin(Bop::And, w, a, X::C(k - 1));
                    }
                    let (_, hi) = self.ivx(a);
                    if hi < k {
                        return Some(a);
                    }
                }
            }
            _ => {}
        }
        let a = self.e(a, w);
        let b = self.e(b, w);
        let n = Node::Bin { op, w, a, b };
        Some(X::S(self.mk(n)))
    }
    fn low_zero_bits(&self, x: X) -> u32 {
        match x {
            X::C(v) => v.trailing_zeros(),
            X::S(e) => match &self.nodes[e as usize] {
                Node::Lin { t, c, .. } => {
                    let mut z = if *c == 0 { 64 } else { c.trailing_zeros() };
                    for x in &self.terms[*t as usize] {
                        z = z.min(x.1.trailing_zeros());
                    }
                    z.min(64)
                }
                Node::Bin { op: Bop::Shl, b, .. } => match self.nodes[*b as usize] {
                    Node::Const { v, .. } => v as u32,
                    _ => 0,
                },
                _ => 0,
            },
        }
    }
    pub fn cmp(&mut self, p: Pred, w: u32, a: X, b: X) -> X {
        if let (X::C(x), X::C(y)) = (a, b) {
            return X::C(ccmp(p, w, x, y) as u64);
        }
        let half = mask(w) >> 1;
        let (_, ah) = self.ivx(a);
        let (_, bh) = self.ivx(b);
        let p = match p {
            Pred::Slt | Pred::Sle | Pred::Sgt | Pred::Sge if w > 1 && ah <= half && bh <= half => match p {
                Pred::Slt => Pred::Ult,
                Pred::Sle => Pred::Ule,
                Pred::Sgt => Pred::Ugt,
                _ => Pred::Uge,
            },
            p => p,
        };
        if w == 1 {
            match p {
                Pred::Eq | Pred::Ne => {
                    let nb = self.not(b);
                    let x = self.ite(1, a, b, nb);
                    return if p == Pred::Eq { x } else { self.not(x) };
                }
                Pred::Slt | Pred::Sle | Pred::Sgt | Pred::Sge => {
                    // i1 signed: 1 is -1
                    let q = match p {
                        Pred::Slt => Pred::Ugt,
                        Pred::Sle => Pred::Uge,
                        Pred::Sgt => Pred::Ult,
                        _ => Pred::Ule,
                    };
                    return self.cmp(q, 1, a, b);
                }
                _ => {}
            }
        }
        match p {
            Pred::Eq | Pred::Ne => {
                let (ta, ca) = self.lin(a);
                let (tb, cb) = self.lin(b);
                let t = self.comb(ta, &tb, -1);
                let x = if t.is_empty() { X::C((ca == cb) as u64) } else { self.eq0(t, ca - cb) };
                if p == Pred::Eq {
                    x
                } else {
                    self.not(x)
                }
            }
            Pred::Ult | Pred::Ule | Pred::Ugt | Pred::Uge => {
                let (x, y, k) = match p {
                    Pred::Ult => (b, a, -1),
                    Pred::Ule => (b, a, 0),
                    Pred::Ugt => (a, b, -1),
                    _ => (a, b, 0),
                };
                let (ta, ca) = self.lin(x);
                let (tb, cb) = self.lin(y);
                let t = self.comb(ta, &tb, -1);
                if t.is_empty() {
                    return X::C((ca - cb + k >= 0) as u64);
                }
                self.ge0(t, ca - cb + k)
            }
            _ => {
                let a = self.e(a, w);
                let b = self.e(b, w);
                X::S(self.mk(Node::Cmp { p, w, a, b }))
            }
        }
    }
    pub fn zext(&mut self, w: u32, a: X, wa: u32) -> X {
        if w == wa {
            return a;
        }
        match a {
            X::C(v) => X::C(v),
            X::S(e) => {
                let (t, c) = self.lin(X::S(e));
                if let Some(x) = self.try_lin(w, t, c) {
                    return x;
                }
                X::S(self.mk(Node::ZExt { w, a: e }))
            }
        }
    }
    pub fn sext(&mut self, w: u32, a: X, wa: u32) -> X {
        if w == wa {
            return a;
        }
        match a {
            X::C(v) => X::C(sext64(v, wa) as u64 & mask(w)),
            X::S(e) => {
                let (_, hi) = self.ivx(a);
                if wa > 1 && hi <= mask(wa) >> 1 {
                    return self.zext(w, a, wa);
                }
                if wa == 1 {
                    return self.ite(w, a, X::C(mask(w)), X::C(0));
                }
                X::S(self.mk(Node::SExt { w, a: e }))
            }
        }
    }
    pub fn extract(&mut self, w: u32, lo: u32, a: X) -> X {
        match a {
            X::C(v) => X::C((v >> lo) & mask(w)),
            X::S(e) => {
                let wa = self.width(e);
                if lo == 0 && w == wa {
                    return a;
                }
                let (_, hi) = self.ivx(a);
                if lo < 64 && hi >> lo == 0 {
                    return X::C(0);
                }
                if lo == 0 && hi <= mask(w) && w > 1 {
                    let (t, c) = self.lin(a);
                    if let Some(x) = self.try_lin(w, t, c) {
                        return x;
                    }
                }
                match self.nodes[e as usize].clone() {
                    Node::ZExt { a: x, .. } => {
                        let wx = self.width(x);
                        if lo >= wx {
                            return X::C(0);
                        }
                        if lo + w <= wx {
                            return self.extract(w, lo, X::S(x));
                        }
                        if lo == 0 {
                            let n = self.norm(x);
                            return self.zext(w, n, wx);
                        }
                    }
                    Node::Extract { lo: l2, a: x, .. } => return self.extract(w, lo + l2, X::S(x)),
                    Node::Concat { hi: h, lo: l, .. } => {
                        let wl = self.width(l);
                        if lo + w <= wl {
                            let n = self.norm(l);
                            return self.extract(w, lo, n);
                        }
                        if lo >= wl {
                            let n = self.norm(h);
                            return self.extract(w, lo - wl, n);
                        }
                    }
                    Node::Ite { c, a: x, b: y, .. } => {
                        let nx = self.norm(x);
                        let ny = self.norm(y);
                        let x = self.extract(w, lo, nx);
                        let y = self.extract(w, lo, ny);
                        return self.ite(w, X::S(c), x, y);
                    }
                    _ => {}
                }
                X::S(self.mk(Node::Extract { w, lo, a: e }))
            }
        }
    }
    pub fn concat(&mut self, hi: X, wh: u32, lo: X, wl: u32) -> X {
        let w = wh + wl;
        if let (X::C(h), X::C(l)) = (hi, lo) {
            return X::C((h << wl) | l);
        }
        if hi == X::C(0) {
            return self.zext(w, lo, wl);
        }
        // adjacent extracts of the same value
        if let (X::S(h), X::S(l)) = (hi, lo) {
            if let (Node::Extract { lo: lh, a: ah, .. }, Node::Extract { lo: ll, a: al, .. }) =
                (self.nodes[h as usize].clone(), self.nodes[l as usize].clone())
            {
                if ah == al && ll + wl == lh {
                    return self.extract(w, ll, X::S(ah));
                }
            }
        }
        let h = self.e(hi, wh);
        let l = self.e(lo, wl);
        X::S(self.mk(Node::Concat { w, hi: h, lo: l }))
    }
    pub fn fop(&mut self, op: Fo, a: X, b: X) -> X {
        if let (X::C(x), X::C(y)) = (a, b) {
            return X::C(cfop(op, x, y));
        }
        let a = self.e(a, 64);
        let b = self.e(b, 64);
        X::S(self.mk(Node::Fp { op, a, b }))
    }
    pub fn fcmp(&mut self, p: Fc, a: X, b: X) -> X {
        if let (X::C(x), X::C(y)) = (a, b) {
            return X::C(cfcmp(p, x, y) as u64);
        }
        let a = self.e(a, 64);
        let b = self.e(b, 64);
        X::S(self.mk(Node::FCmp { p, a, b }))
    }
    pub fn eval(&self, e: E, m: &[u64]) -> u64 {
        match &self.nodes[e as usize] {
            Node::Const { v, .. } => *v,
            Node::Var { idx, lo, .. } => m.get(*idx as usize).copied().unwrap_or(*lo),
            Node::Lin { t, c, .. } => self.evt(*t, *c, m) as u64,
            Node::Ge0 { t, c } => (self.evt(*t, *c, m) >= 0) as u64,
            Node::Eq0 { t, c } => (self.evt(*t, *c, m) == 0) as u64,
            Node::Not(a) => self.eval(*a, m) ^ 1,
            Node::And(a, b) => self.eval(*a, m) & self.eval(*b, m),
            Node::Or(a, b) => self.eval(*a, m) | self.eval(*b, m),
            Node::Bin { op, w, a, b } => {
                let (x, y) = (self.eval(*a, m), self.eval(*b, m));
                cbin(*op, *w, x, y).unwrap_or(match op {
                    Bop::UDiv => mask(*w),
                    Bop::URem => x,
                    _ => 0,
                })
            }
            Node::Cmp { p, w, a, b } => ccmp(*p, *w, self.eval(*a, m), self.eval(*b, m)) as u64,
            Node::Ite { c, a, b, .. } => {
                if self.eval(*c, m) != 0 {
                    self.eval(*a, m)
                } else {
                    self.eval(*b, m)
                }
            }
            Node::ZExt { a, .. } => self.eval(*a, m),
            Node::SExt { w, a } => sext64(self.eval(*a, m), self.width(*a)) as u64 & mask(*w),
            Node::Extract { w, lo, a } => (self.eval(*a, m) >> lo) & mask(*w),
            Node::Concat { hi, lo, .. } => (self.eval(*hi, m) << self.width(*lo)) | self.eval(*lo, m),
            Node::Fp { op, a, b } => cfop(*op, self.eval(*a, m), self.eval(*b, m)),
            Node::FCmp { p, a, b } => cfcmp(*p, self.eval(*a, m), self.eval(*b, m)) as u64,
            Node::Dom(v) => {
                let x = self.eval(*v, m);
                let (l, h) = self.iv[*v as usize];
                (l <= x && x <= h) as u64
            }
        }
    }
    fn evt(&self, t: Tid, c: i128, m: &[u64]) -> i128 {
        let mut r = c;
        for &(e, k) in &self.terms[t as usize] {
            r += self.eval(e, m) as i128 * k as i128;
        }
        r
    }
    /// syntactic implication of `e` (or its negation) by one known constraint
    pub fn implied(&mut self, known: E, e: E) -> Option<bool> {
        if known == e {
            return Some(true);
        }
        match (self.nodes[known as usize].clone(), self.nodes[e as usize].clone()) {
            (Node::Ge0 { t: t1, c: c1 }, Node::Ge0 { t: t2, c: c2 }) => {
                if t1 == t2 && c2 >= c1 {
                    return Some(true);
                }
                if self.neg_tid(t1) == t2 && c1 + c2 < 0 {
                    // t1+c1>=0, -t1+c2>=0 impossible
                    return Some(false);
                }
                None
            }
            (Node::Eq0 { t: t1, c: c1 }, Node::Ge0 { t: t2, c: c2 }) => {
                if t1 == t2 {
                    return Some(c2 - c1 >= 0);
                }
                if self.neg_tid(t1) == t2 {
                    return Some(c2 + c1 >= 0);
                }
                None
            }
            (Node::Eq0 { t: t1, c: c1 }, Node::Eq0 { t: t2, c: c2 }) => {
                if t1 == t2 && c1 != c2 {
                    return Some(false);
                }
                None
            }
            (Node::Ge0 { t: t1, c: c1 }, Node::Eq0 { t: t2, c: c2 }) => {
                // t >= -c1 ; t == -c2
                if t1 == t2 && -c2 < -c1 {
                    return Some(false);
                }
                if self.neg_tid(t1) == t2 && -c2 > c1 {
                    return Some(false);
                }
                None
            }
            (Node::Not(a), _) if a == e => Some(false),
            (_, Node::Not(b)) if b == known => Some(false),
            (Node::And(a, b), _) => self.implied(a, e).or_else(|| self.implied(b, e)),
            _ => None,
        }
    }
}

impl Exprs {
    /// readable form, for debugging
    pub fn show(&self, e: E) -> String {
        match self.nodes[e as usize].clone() {
            Node::Const { v, .. } => format!("{v:#x}"),
            Node::Var { idx, .. } => format!("v{idx}"),
            Node::Not(a) => format!("!{}", self.show(a)),
            Node::And(a, b) => format!("({} & {})", self.show(a), self.show(b)),
            Node::Or(a, b) => format!("({} | {})", self.show(a), self.show(b)),
            Node::Bin { op, w, a, b } => format!("({op:?}{w} {} {})", self.show(a), self.show(b)),
            Node::Cmp { p, a, b, .. } => format!("({p:?} {} {})", self.show(a), self.show(b)),
            Node::Ite { c, a, b, .. } => format!("({}? {} : {})", self.show(c), self.show(a), self.show(b)),
            Node::ZExt { w, a } => format!("zx{w}({})", self.show(a)),
            Node::SExt { w, a } => format!("sx{w}({})", self.show(a)),
            Node::Extract { w, lo, a } => format!("{}[{lo}+{w}]", self.show(a)),
            Node::Concat { hi, lo, .. } => format!("{}:{}", self.show(hi), self.show(lo)),
            n => format!("{n:?}"),
        }
    }
}

//! Parser for the subset of textual LLVM IR that rustc emits.
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float(u32),
    Arr(u64, Rc<Ty>),
    Vec(u32, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Other,
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 1,
            Ty::Int(w) => match w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr => 8,
            Ty::Float(w) => (*w / 8) as u64,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(n, t) => ((*n as u64 * t.bits() as u64 + 7) / 8).next_power_of_two(),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
        }
    }
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            Ty::Float(w) => *w,
            _ => panic!("bits of {:?}", self),
        }
    }
    /// bytes actually written by a store
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => (*w as u64 + 7) / 8,
            Ty::Vec(n, t) => (*n as u64 * t.bits() as u64 + 7) / 8,
            _ => self.size(),
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 0,
            Ty::Int(w) => {
                let s = (*w as u64 + 7) / 8;
                let a = self.align();
                (s + a - 1) / a * a
            }
            Ty::Ptr => 8,
            Ty::Float(w) => (*w / 8) as u64,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(..) => {
                let s = self.store_size();
                let a = self.align();
                (s + a - 1) / a * a
            }
            Ty::Struct(f, packed) => {
                let mut o = 0u64;
                for t in f.iter() {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                let a = self.align();
                (o + a - 1) / a * a
            }
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Arr(_, t) => t.size() * i as u64,
            Ty::Vec(_, t) => t.size() * i as u64,
            Ty::Struct(f, packed) => {
                let mut o = 0u64;
                for (j, t) in f.iter().enumerate() {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if j == i {
                        return o;
                    }
                    o += t.size();
                }
                panic!("field {i} of {:?}", self)
            }
            _ => panic!("field of {:?}", self),
        }
    }
    pub fn field(&self, i: usize) -> &Ty {
        match self {
            Ty::Arr(_, t) | Ty::Vec(_, t) => t,
            Ty::Struct(f, _) => &f[i],
            _ => panic!("field of {:?}", self),
        }
    }
    pub fn nfields(&self) -> usize {
        match self {
            Ty::Arr(n, _) => *n as usize,
            Ty::Vec(n, _) => *n as usize,
            Ty::Struct(f, _) => f.len(),
            _ => 0,
        }
    }
}

/// A parsed constant or operand, before symbols are resolved.
#[derive(Clone, Debug)]
pub enum PVal {
    Reg(u32),
    Int(u128),
    Zero,
    Undef,
    Global(String),
    Agg(Vec<(Ty, PVal)>),
    Splat(Box<(Ty, PVal)>),
    Str(Vec<u8>),
    /// base + byte offset
    GepC(Box<PVal>, i64),
    BinC(&'static str, Ty, Box<PVal>, Box<PVal>),
    CastC(&'static str, Ty, Ty, Box<PVal>),
    Meta,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bin {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast {
    Trunc,
    ZExt,
    SExt,
    Bit,
}

#[derive(Clone, Debug)]
pub enum PInst {
    Alloca { d: u32, size: u64, n: Option<(Ty, PVal)> },
    Load { d: u32, ty: Ty, p: PVal },
    Store { ty: Ty, v: PVal, p: PVal },
    Gep { d: u32, base: PVal, off: i64, idx: Vec<(u32, PVal, u64)> },
    Bin { d: u32, op: Bin, ty: Ty, a: PVal, b: PVal },
    Icmp { d: u32, pred: Pred, ty: Ty, a: PVal, b: PVal },
    Cast { d: u32, k: Cast, from: Ty, to: Ty, a: PVal },
    Select { d: u32, cty: Ty, c: PVal, ty: Ty, a: PVal, b: PVal },
    Phi { d: u32, ty: Ty, inc: Vec<(PVal, u32)> },
    Br(u32),
    CondBr(PVal, u32, u32),
    Switch { ty: Ty, v: PVal, def: u32, cases: Vec<(u128, u32)> },
    Ret(Option<(Ty, PVal)>),
    Unreachable,
    Call { d: Option<u32>, rty: Ty, callee: PVal, args: Vec<(Ty, PVal)>, normal: Option<u32>, asm: bool },
    ExtractValue { d: u32, ty: Ty, a: PVal, path: Vec<u32> },
    InsertValue { d: u32, ty: Ty, a: PVal, v: PVal, path: Vec<u32> },
    ExtractElement { d: u32, ty: Ty, a: PVal, i: PVal },
    InsertElement { d: u32, ty: Ty, a: PVal, v: PVal, i: PVal },
    Shuffle { d: u32, ty: Ty, a: PVal, b: PVal, mask: Vec<Option<u32>> },
    AtomicRmw { d: u32, op: String, ty: Ty, p: PVal, v: PVal },
    CmpXchg { d: u32, ty: Ty, p: PVal, old: PVal, new: PVal },
    Freeze { d: u32, a: PVal },
    Nop,
    Unsupported(String),
}

#[derive(Debug)]
pub struct PFunc {
    pub nregs: u32,
    pub params: Vec<u32>,
    /// insts grouped by block
    pub blocks: Vec<Vec<PInst>>,
}

pub struct FuncSrc {
    pub name: String,
    pub header: (usize, usize),
    pub body: Option<(usize, usize)>,
}

#[derive(Debug)]
pub struct GlobalSrc {
    pub name: String,
    pub ty: Ty,
    pub init: Option<PVal>,
    pub constant: bool,
    pub align: u64,
}

pub struct Module {
    pub text: Vec<u8>,
    pub funcs: Vec<FuncSrc>,
    pub fidx: HashMap<String, u32>,
    pub globals: Vec<GlobalSrc>,
    pub aliases: Vec<(String, PVal)>,
}

pub struct P<'a> {
    pub s: &'a [u8],
    pub i: usize,
    regs: HashMap<Vec<u8>, u32>,
    nregs: u32,
    labels: HashMap<Vec<u8>, u32>,
    nlabels: u32,
}

fn is_id(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

impl<'a> P<'a> {
    pub fn new(s: &'a [u8], i: usize) -> Self {
        P { s, i, regs: HashMap::new(), nregs: 0, labels: HashMap::new(), nlabels: 0 }
    }
    fn err<T>(&self, m: &str) -> T {
        let a = self.i.saturating_sub(100);
        let b = (self.i + 100).min(self.s.len());
        panic!("ll parse: {m} near `{}`>>>`{}`", String::from_utf8_lossy(&self.s[a..self.i]), String::from_utf8_lossy(&self.s[self.i..b]));
    }
    fn ws(&mut self) {
        loop {
            while self.i < self.s.len() && matches!(self.s[self.i], b' ' | b'\n' | b'\t' | b'\r') {
                self.i += 1;
            }
            if self.i < self.s.len() && self.s[self.i] == b';' {
                self.line();
            } else {
                break;
            }
        }
    }
    /// only blanks on this line
    fn sp(&mut self) {
        while self.i < self.s.len() && matches!(self.s[self.i], b' ' | b'\t') {
            self.i += 1;
        }
    }
    pub fn line(&mut self) {
        while self.i < self.s.len() && self.s[self.i] != b'\n' {
            self.i += 1;
        }
        self.i += 1;
    }
    fn peek(&self) -> u8 {
        *self.s.get(self.i).unwrap_or(&0)
    }
    fn eat(&mut self, c: u8) -> bool {
        self.ws();
        if self.peek() == c {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: u8) {
        if !self.eat(c) {
            self.err::<()>(&format!("expected `{}`", c as char));
        }
    }
    fn word(&mut self) -> &'a str {
        self.ws();
        let a = self.i;
        while self.i < self.s.len() && is_id(self.s[self.i]) {
            self.i += 1;
        }
        std::str::from_utf8(&self.s[a..self.i]).unwrap()
    }
    fn peek_word(&mut self) -> &'a str {
        let a = self.i;
        let w = self.word();
        self.i = a;
        w
    }
    fn eat_word(&mut self, x: &str) -> bool {
        let a = self.i;
        if self.word() == x {
            true
        } else {
            self.i = a;
            false
        }
    }
    fn name(&mut self) -> Vec<u8> {
        if self.peek() == b'"' {
            self.i += 1;
            let a = self.i;
            while self.peek() != b'"' {
                self.i += 1;
            }
            let r = self.s[a..self.i].to_vec();
            self.i += 1;
            r
        } else {
            let a = self.i;
            while self.i < self.s.len() && is_id(self.s[self.i]) {
                self.i += 1;
            }
            self.s[a..self.i].to_vec()
        }
    }
    fn reg(&mut self, n: Vec<u8>) -> u32 {
        let next = self.nregs;
        let r = *self.regs.entry(n).or_insert(next);
        if r == next {
            self.nregs += 1;
        }
        r
    }
    fn label(&mut self, n: Vec<u8>) -> u32 {
        let next = self.nlabels;
        let r = *self.labels.entry(n).or_insert(next);
        if r == next {
            self.nlabels += 1;
        }
        r
    }
    fn balanced(&mut self) {
        // at '('
        let mut d = 0;
        loop {
            match self.peek() {
                b'(' => d += 1,
                b')' => {
                    d -= 1;
                    if d == 0 {
                        self.i += 1;
                        return;
                    }
                }
                b'"' => {
                    self.i += 1;
                    while self.peek() != b'"' {
                        self.i += 1;
                    }
                }
                0 => self.err("unbalanced"),
                _ => {}
            }
            self.i += 1;
        }
    }
    fn num(&mut self) -> u64 {
        self.ws();
        let mut v = 0u64;
        while self.peek().is_ascii_digit() {
            v = v * 10 + (self.peek() - b'0') as u64;
            self.i += 1;
        }
        v
    }

    fn at_type(&mut self) -> bool {
        self.ws();
        match self.peek() {
            b'{' | b'[' | b'<' => true,
            b'%' => false,
            _ => {
                let w = self.peek_word();
                w == "ptr"
                    || w == "void"
                    || w == "metadata"
                    || w == "label"
                    || w == "float"
                    || w == "double"
                    || w == "half"
                    || w == "fp128"
                    || w == "x86_fp80"
                    || (w.len() > 1 && w.as_bytes()[0] == b'i' && w.as_bytes()[1..].iter().all(|c| c.is_ascii_digit()))
            }
        }
    }

    pub fn ty(&mut self) -> Ty {
        self.ws();
        match self.peek() {
            b'{' => {
                self.i += 1;
                let f = self.ty_list(b'}');
                Ty::Struct(Rc::new(f), false)
            }
            b'[' => {
                self.i += 1;
                let n = self.num();
                if !self.eat_word("x") {
                    self.err::<()>("array type");
                }
                let t = self.ty();
                self.expect(b']');
                Ty::Arr(n, Rc::new(t))
            }
            b'<' => {
                self.i += 1;
                self.ws();
                if self.peek() == b'{' {
                    self.i += 1;
                    let f = self.ty_list(b'}');
                    self.expect(b'>');
                    Ty::Struct(Rc::new(f), true)
                } else {
                    let n = self.num();
                    if !self.eat_word("x") {
                        self.err::<()>("vector type");
                    }
                    let t = self.ty();
                    self.expect(b'>');
                    Ty::Vec(n as u32, Rc::new(t))
                }
            }
            _ => {
                let w = self.word();
                match w {
                    "ptr" => {
                        if self.eat_word("addrspace") {
                            self.ws();
                            self.balanced();
                        }
                        Ty::Ptr
                    }
                    "void" => Ty::Void,
                    "half" => Ty::Float(16),
                    "float" => Ty::Float(32),
                    "double" => Ty::Float(64),
                    "fp128" | "x86_fp80" => Ty::Float(128),
                    "metadata" | "label" => Ty::Other,
                    _ if w.starts_with('i') => match w[1..].parse() {
                        Ok(n) => Ty::Int(n),
                        Err(_) => self.err(&format!("type `{w}`")),
                    },
                    _ => self.err(&format!("type `{w}`")),
                }
            }
        }
    }
    fn ty_list(&mut self, end: u8) -> Vec<Ty> {
        let mut f = vec![];
        if self.eat(end) {
            return f;
        }
        loop {
            f.push(self.ty());
            if self.eat(end) {
                return f;
            }
            self.expect(b',');
        }
    }

    /// skip attributes before a value or type
    fn skip_attrs_to_value(&mut self) {
        loop {
            self.ws();
            match self.peek() {
                b'%' | b'@' | b'-' | b'{' | b'[' | b'<' | b'!' => return,
                b'"' => {
                    self.i += 1;
                    while self.peek() != b'"' {
                        self.i += 1;
                    }
                    self.i += 1;
                    if self.peek() == b'=' {
                        self.i += 1;
                        if self.peek() == b'"' {
                            self.i += 1;
                            while self.peek() != b'"' {
                                self.i += 1;
                            }
                            self.i += 1;
                        }
                    }
                    continue;
                }
                c if c.is_ascii_digit() => return,
                _ => {}
            }
            let a = self.i;
            let w = self.word();
            match w {
                "null" | "true" | "false" | "undef" | "poison" | "zeroinitializer" | "none" | "c" | "getelementptr" | "ptrtoint"
                | "inttoptr" | "add" | "sub" | "mul" | "xor" | "and" | "or" | "shl" | "lshr" | "trunc" | "bitcast" | "splat" | "asm" | "ptrtoaddr" => {
                    self.i = a;
                    return;
                }
                "align" => {
                    self.ws();
                    if self.peek() == b'(' {
                        self.balanced();
                    } else {
                        self.num();
                    }
                }
                "" => {
                    self.err::<()>("attribute");
                }
                _ => {
                    if self.peek() == b'(' {
                        self.balanced();
                    }
                }
            }
        }
    }
    fn skip_attrs_to_type(&mut self) {
        while !self.at_type() {
            let w = self.word();
            if w == "" {
                self.err::<()>("attr before type");
            }
            if w == "align" || w == "cc" {
                self.sp();
                if self.peek().is_ascii_digit() {
                    self.num();
                    continue;
                }
            }
            if self.peek() == b'(' {
                self.balanced();
            }
        }
    }

    fn int_lit(&mut self) -> u128 {
        self.ws();
        let neg = if self.peek() == b'-' {
            self.i += 1;
            true
        } else {
            false
        };
        let mut v = 0u128;
        let mut any = false;
        while self.peek().is_ascii_digit() {
            v = v.wrapping_mul(10).wrapping_add((self.peek() - b'0') as u128);
            self.i += 1;
            any = true;
        }
        if !any {
            self.err::<()>("integer");
        }
        if neg {
            v.wrapping_neg()
        } else {
            v
        }
    }

    pub fn val(&mut self, ty: &Ty) -> PVal {
        self.ws();
        match self.peek() {
            b'%' => {
                self.i += 1;
                let n = self.name();
                PVal::Reg(self.reg(n))
            }
            b'@' => {
                self.i += 1;
                let n = self.name();
                PVal::Global(String::from_utf8(n).unwrap())
            }
            b'{' => {
                self.i += 1;
                PVal::Agg(self.agg_list(b'}'))
            }
            b'[' => {
                self.i += 1;
                PVal::Agg(self.agg_list(b']'))
            }
            b'<' => {
                self.i += 1;
                self.ws();
                if self.peek() == b'{' {
                    self.i += 1;
                    let r = self.agg_list(b'}');
                    self.expect(b'>');
                    PVal::Agg(r)
                } else {
                    PVal::Agg(self.agg_list(b'>'))
                }
            }
            b'!' => {
                // metadata operand
                while !matches!(self.peek(), b',' | b')' | b'\n') {
                    if self.peek() == b'(' {
                        self.balanced();
                    } else {
                        self.i += 1;
                    }
                }
                PVal::Meta
            }
            c if c == b'-' || c.is_ascii_digit() => {
                if let Ty::Float(_) = ty {
                    while !matches!(self.peek(), b',' | b')' | b'\n' | b' ' | b']' | b'}') {
                        self.i += 1;
                    }
                    return PVal::Undef;
                }
                let v = self.int_lit();
                let v = match ty {
                    Ty::Int(w) if *w < 128 => v & ((1u128 << w) - 1),
                    _ => v,
                };
                PVal::Int(v)
            }
            _ => {
                if self.peek() == b'c' && self.s[self.i + 1] == b'"' {
                    self.i += 2;
                    let mut out = vec![];
                    loop {
                        match self.peek() {
                            b'"' => {
                                self.i += 1;
                                break;
                            }
                            b'\\' if self.s[self.i + 1] == b'\\' => {
                                out.push(b'\\');
                                self.i += 2;
                            }
                            b'\\' => {
                                let h = std::str::from_utf8(&self.s[self.i + 1..self.i + 3]).unwrap();
                                out.push(u8::from_str_radix(h, 16).unwrap());
                                self.i += 3;
                            }
                            c => {
                                out.push(c);
                                self.i += 1;
                            }
                        }
                    }
                    return PVal::Str(out);
                }
                let w = self.word();
                match w {
                    "null" | "zeroinitializer" | "none" => PVal::Zero,
                    "undef" | "poison" => PVal::Undef,
                    "true" => PVal::Int(1),
                    "false" => PVal::Int(0),
                    "splat" => {
                        self.expect(b'(');
                        let t = self.ty();
                        let v = self.val(&t);
                        self.expect(b')');
                        PVal::Splat(Box::new((t, v)))
                    }
                    "getelementptr" => {
                        loop {
                            self.ws();
                            if self.peek() == b'(' {
                                break;
                            }
                            let w = self.word();
                            if w == "inrange" {
                                self.ws();
                                self.balanced();
                            }
                        }
                        self.expect(b'(');
                        let t = self.ty();
                        self.expect(b',');
                        let bt = self.ty();
                        let base = self.val(&bt);
                        let mut off = 0i64;
                        let mut cur = t.clone();
                        let mut first = true;
                        while self.eat(b',') {
                            let it = self.ty();
                            let PVal::Int(v) = self.val(&it) else { return self.err("const gep index") };
                            let v = crate::expr::sext128(v, it.bits()) as i64;
                            if first {
                                off += v * t.size() as i64;
                                first = false;
                            } else {
                                off += cur.field_off(v as usize) as i64;
                                cur = cur.field(v as usize).clone();
                            }
                        }
                        self.expect(b')');
                        PVal::GepC(Box::new(base), off)
                    }
                    "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "ptrtoaddr" => {
                        let k = match w {
                            "trunc" => "trunc",
                            _ => "bit",
                        };
                        self.expect(b'(');
                        let t = self.ty();
                        let v = self.val(&t);
                        if !self.eat_word("to") {
                            self.err::<()>("to");
                        }
                        let t2 = self.ty();
                        self.expect(b')');
                        PVal::CastC(k, t, t2, Box::new(v))
                    }
                    "add" | "sub" | "mul" | "xor" => {
                        let k = match w {
                            "add" => "add",
                            "sub" => "sub",
                            "mul" => "mul",
                            _ => "xor",
                        };
                        loop {
                            self.ws();
                            if self.peek() == b'(' {
                                break;
                            }
                            self.word();
                        }
                        self.expect(b'(');
                        let t = self.ty();
                        let a = self.val(&t);
                        self.expect(b',');
                        let t2 = self.ty();
                        let b = self.val(&t2);
                        self.expect(b')');
                        PVal::BinC(k, t, Box::new(a), Box::new(b))
                    }
                    _ => self.err(&format!("value `{w}`")),
                }
            }
        }
    }
    fn agg_list(&mut self, end: u8) -> Vec<(Ty, PVal)> {
        let mut v = vec![];
        if self.eat(end) {
            return v;
        }
        loop {
            let t = self.ty();
            let x = self.val(&t);
            v.push((t, x));
            if self.eat(end) {
                return v;
            }
            self.expect(b',');
        }
    }
    fn tyval(&mut self) -> (Ty, PVal) {
        let t = self.ty();
        self.skip_attrs_to_value();
        let v = self.val(&t);
        (t, v)
    }
    fn lab(&mut self) -> u32 {
        // "label %name"
        if !self.eat_word("label") {
            self.err::<()>("label");
        }
        self.ws();
        self.expect(b'%');
        let n = self.name();
        self.label(n)
    }

    fn call(&mut self, d: Option<u32>, invoke: bool) -> PInst {
        self.skip_attrs_to_type();
        let rty = self.ty();
        self.ws();
        if self.peek() == b'(' {
            // function type of a vararg callee
            self.balanced();
            self.ws();
        }
        let asm = self.peek_word() == "asm";
        let callee = if asm {
            self.word();
            loop {
                self.ws();
                if self.peek() == b'"' {
                    break;
                }
                self.word();
            }
            // "template", "constraints"
            for _ in 0..2 {
                self.ws();
                self.i += 1;
                while self.peek() != b'"' {
                    self.i += 1;
                }
                self.i += 1;
                self.eat(b',');
            }
            PVal::Undef
        } else {
            self.skip_attrs_to_value();
            self.val(&Ty::Ptr)
        };
        self.expect(b'(');
        let mut args = vec![];
        if !self.eat(b')') {
            loop {
                let t = self.ty();
                if t == Ty::Other {
                    // metadata argument
                    let mut depth = 0;
                    loop {
                        match self.peek() {
                            b'(' | b'{' => depth += 1,
                            b')' | b'}' if depth > 0 => depth -= 1,
                            b')' | b',' if depth == 0 => break,
                            b'"' => {
                                self.i += 1;
                                while self.peek() != b'"' {
                                    self.i += 1;
                                }
                            }
                            _ => {}
                        }
                        self.i += 1;
                    }
                    args.push((t, PVal::Meta));
                } else {
                    self.skip_attrs_to_value();
                    let v = self.val(&t);
                    args.push((t, v));
                }
                if self.eat(b')') {
                    break;
                }
                self.expect(b',');
            }
        }
        let mut normal = None;
        if invoke {
            loop {
                self.ws();
                if self.peek() == b'#' {
                    self.i += 1;
                    self.num();
                    continue;
                }
                let w = self.peek_word();
                if w == "to" {
                    break;
                }
                if w == "" {
                    self.err::<()>("invoke attrs");
                }
                self.word();
                if self.peek() == b'(' {
                    self.balanced();
                }
            }
            self.word();
            normal = Some(self.lab());
        }
        PInst::Call { d, rty, callee, args, normal, asm }
    }

    fn inst(&mut self) -> PInst {
        self.sp();
        let mut d: Option<u32> = None;
        if self.peek() == b'%' {
            self.i += 1;
            let n = self.name();
            d = Some(self.reg(n));
            self.expect(b'=');
        }
        let mut w = self.word();
        if matches!(w, "tail" | "musttail" | "notail") {
            w = self.word();
        }
        let bop = match w {
            "add" => Some(Bin::Add),
            "sub" => Some(Bin::Sub),
            "mul" => Some(Bin::Mul),
            "udiv" => Some(Bin::UDiv),
            "sdiv" => Some(Bin::SDiv),
            "urem" => Some(Bin::URem),
            "srem" => Some(Bin::SRem),
            "shl" => Some(Bin::Shl),
            "lshr" => Some(Bin::LShr),
            "ashr" => Some(Bin::AShr),
            "and" => Some(Bin::And),
            "or" => Some(Bin::Or),
            "xor" => Some(Bin::Xor),
            _ => None,
        };
        if let Some(op) = bop {
            while !self.at_type() {
                self.word();
            }
            let ty = self.ty();
            let a = self.val(&ty);
            self.expect(b',');
            let b = self.val(&ty);
            return PInst::Bin { d: d.unwrap(), op, ty, a, b };
        }
        match w {
            "alloca" => {
                self.eat_word("inalloca");
                let t = self.ty();
                let mut n = None;
                if self.eat(b',') {
                    if self.peek_word() != "align" && self.at_type() {
                        let (t, v) = self.tyval();
                        n = Some((t, v));
                    }
                }
                PInst::Alloca { d: d.unwrap(), size: t.size(), n }
            }
            "load" => {
                self.eat_word("atomic");
                self.eat_word("volatile");
                let ty = self.ty();
                self.expect(b',');
                let (_, p) = self.tyval();
                PInst::Load { d: d.unwrap(), ty, p }
            }
            "store" => {
                self.eat_word("atomic");
                self.eat_word("volatile");
                let (ty, v) = self.tyval();
                self.expect(b',');
                let (_, p) = self.tyval();
                PInst::Store { ty, v, p }
            }
            "getelementptr" => {
                loop {
                    if self.at_type() {
                        break;
                    }
                    let w = self.word();
                    if w == "inrange" {
                        self.balanced();
                    }
                }
                let t = self.ty();
                self.expect(b',');
                let (_, base) = self.tyval();
                let mut off = 0i64;
                let mut idx = vec![];
                let mut cur = t.clone();
                let mut first = true;
                loop {
                    self.sp();
                    if self.peek() != b',' {
                        break;
                    }
                    self.i += 1;
                    self.sp();
                    if self.peek() == b'!' {
                        break;
                    }
                    let (it, v) = self.tyval();
                    let (scale, next) = if first {
                        (t.size(), None)
                    } else {
                        match &cur {
                            Ty::Arr(_, e) | Ty::Vec(_, e) => (e.size(), Some((**e).clone())),
                            Ty::Struct(..) => {
                                let PVal::Int(k) = v else { return self.err("struct index") };
                                off += cur.field_off(k as usize) as i64;
                                cur = cur.field(k as usize).clone();
                                continue;
                            }
                            _ => return self.err("gep into scalar"),
                        }
                    };
                    first = false;
                    if let Some(n) = next {
                        cur = n;
                    }
                    match v {
                        PVal::Int(k) => off = off.wrapping_add((crate::expr::sext128(k, it.bits()) as i64).wrapping_mul(scale as i64)),
                        PVal::Zero => {}
                        _ => idx.push((it.bits(), v, scale)),
                    }
                }
                PInst::Gep { d: d.unwrap(), base, off, idx }
            }
            "icmp" => {
                let mut p = self.word();
                if p == "samesign" {
                    p = self.word();
                }
                let pred = match p {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    _ => return self.err("pred"),
                };
                let ty = self.ty();
                let a = self.val(&ty);
                self.expect(b',');
                let b = self.val(&ty);
                PInst::Icmp { d: d.unwrap(), pred, ty, a, b }
            }
            "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "inttoptr" | "ptrtoaddr" => {
                while !self.at_type() {
                    self.word();
                }
                let (from, a) = self.tyval();
                if !self.eat_word("to") {
                    self.err::<()>("to");
                }
                let to = self.ty();
                let k = match w {
                    "trunc" => Cast::Trunc,
                    "zext" => Cast::ZExt,
                    "sext" => Cast::SExt,
                    "ptrtoint" | "inttoptr" | "ptrtoaddr" => {
                        let (x, y) = (from.bits(), to.bits());
                        if x > y {
                            Cast::Trunc
                        } else if x < y {
                            Cast::ZExt
                        } else {
                            Cast::Bit
                        }
                    }
                    _ => Cast::Bit,
                };
                PInst::Cast { d: d.unwrap(), k, from, to, a }
            }
            "select" => {
                while !self.at_type() {
                    self.word();
                }
                let (cty, c) = self.tyval();
                self.expect(b',');
                let (ty, a) = self.tyval();
                self.expect(b',');
                let (_, b) = self.tyval();
                PInst::Select { d: d.unwrap(), cty, c, ty, a, b }
            }
            "phi" => {
                while !self.at_type() {
                    self.word();
                }
                let ty = self.ty();
                let mut inc = vec![];
                loop {
                    self.expect(b'[');
                    let v = self.val(&ty);
                    self.expect(b',');
                    self.expect(b'%');
                    let n = self.name();
                    let l = self.label(n);
                    self.expect(b']');
                    inc.push((v, l));
                    self.sp();
                    if self.peek() == b',' {
                        self.i += 1;
                        self.sp();
                        if self.peek() == b'[' {
                            continue;
                        }
                    }
                    break;
                }
                PInst::Phi { d: d.unwrap(), ty, inc }
            }
            "br" => {
                if self.peek_word() == "label" {
                    PInst::Br(self.lab())
                } else {
                    let (_, c) = self.tyval();
                    self.expect(b',');
                    let a = self.lab();
                    self.expect(b',');
                    let b = self.lab();
                    PInst::CondBr(c, a, b)
                }
            }
            "switch" => {
                let (ty, v) = self.tyval();
                self.expect(b',');
                let def = self.lab();
                self.expect(b'[');
                let mut cases = vec![];
                while !self.eat(b']') {
                    let t = self.ty();
                    let PVal::Int(k) = self.val(&t) else { return self.err("switch case") };
                    self.expect(b',');
                    let l = self.lab();
                    cases.push((k, l));
                }
                PInst::Switch { ty, v, def, cases }
            }
            "ret" => {
                let t = self.ty();
                if t == Ty::Void {
                    PInst::Ret(None)
                } else {
                    let v = self.val(&t);
                    PInst::Ret(Some((t, v)))
                }
            }
            "unreachable" => PInst::Unreachable,
            "call" => self.call(d, false),
            "invoke" => self.call(d, true),
            "extractvalue" => {
                let (ty, a) = self.tyval();
                let path = self.path();
                PInst::ExtractValue { d: d.unwrap(), ty, a, path }
            }
            "insertvalue" => {
                let (ty, a) = self.tyval();
                self.expect(b',');
                let (_, v) = self.tyval();
                let path = self.path();
                PInst::InsertValue { d: d.unwrap(), ty, a, v, path }
            }
            "extractelement" => {
                let (ty, a) = self.tyval();
                self.expect(b',');
                let (_, i) = self.tyval();
                PInst::ExtractElement { d: d.unwrap(), ty, a, i }
            }
            "insertelement" => {
                let (ty, a) = self.tyval();
                self.expect(b',');
                let (_, v) = self.tyval();
                self.expect(b',');
                let (_, i) = self.tyval();
                PInst::InsertElement { d: d.unwrap(), ty, a, v, i }
            }
            "shufflevector" => {
                let (ty, a) = self.tyval();
                self.expect(b',');
                let (_, b) = self.tyval();
                self.expect(b',');
                let (mt, m) = self.tyval();
                let n = mt.nfields();
                let mask = match m {
                    PVal::Zero => vec![Some(0); n],
                    PVal::Undef => vec![None; n],
                    PVal::Splat(x) => match x.1 {
                        PVal::Int(k) => vec![Some(k as u32); n],
                        _ => vec![None; n],
                    },
                    PVal::Agg(v) => v
                        .into_iter()
                        .map(|(_, x)| match x {
                            PVal::Int(k) => Some(k as u32),
                            PVal::Zero => Some(0),
                            _ => None,
                        })
                        .collect(),
                    _ => return self.err("mask"),
                };
                PInst::Shuffle { d: d.unwrap(), ty, a, b, mask }
            }
            "atomicrmw" => {
                self.eat_word("volatile");
                let op = self.word().to_string();
                let (_, p) = self.tyval();
                self.expect(b',');
                let (ty, v) = self.tyval();
                PInst::AtomicRmw { d: d.unwrap(), op, ty, p, v }
            }
            "cmpxchg" => {
                self.eat_word("weak");
                self.eat_word("volatile");
                let (_, p) = self.tyval();
                self.expect(b',');
                let (ty, old) = self.tyval();
                self.expect(b',');
                let (_, new) = self.tyval();
                PInst::CmpXchg { d: d.unwrap(), ty, p, old, new }
            }
            "freeze" => {
                let (_, a) = self.tyval();
                PInst::Freeze { d: d.unwrap(), a }
            }
            "fence" => PInst::Nop,
            "landingpad" | "resume" | "cleanupret" => PInst::Unsupported(w.to_string()),
            _ => PInst::Unsupported(w.to_string()),
        }
    }
    fn path(&mut self) -> Vec<u32> {
        let mut p = vec![];
        loop {
            self.sp();
            if self.peek() != b',' {
                return p;
            }
            self.i += 1;
            self.sp();
            if !self.peek().is_ascii_digit() {
                return p;
            }
            p.push(self.num() as u32);
        }
    }

    /// Parse the parameter names out of a `define` header; cursor after the name.
    fn params(&mut self) -> Vec<u32> {
        self.expect(b'(');
        let mut out = vec![];
        let mut auto = 0;
        if self.eat(b')') {
            return out;
        }
        loop {
            self.ws();
            if self.s[self.i..].starts_with(b"...") {
                self.i += 3;
                self.expect(b')');
                return out;
            }
            self.ty();
            // attrs then optional %name
            loop {
                self.ws();
                match self.peek() {
                    b'%' => {
                        self.i += 1;
                        let n = self.name();
                        out.push(self.reg(n));
                        break;
                    }
                    b',' | b')' => {
                        out.push(self.reg(auto.to_string().into_bytes()));
                        break;
                    }
                    b'"' => {
                        self.i += 1;
                        while self.peek() != b'"' {
                            self.i += 1;
                        }
                        self.i += 1;
                        if self.peek() == b'=' {
                            self.i += 2;
                            while self.peek() != b'"' {
                                self.i += 1;
                            }
                            self.i += 1;
                        }
                    }
                    _ => {
                        let w = self.word();
                        if w == "" {
                            self.err::<()>("param");
                        }
                        if w == "align" {
                            self.sp();
                            if self.peek().is_ascii_digit() {
                                self.num();
                            }
                        }
                        if self.peek() == b'(' {
                            self.balanced();
                        }
                    }
                }
            }
            auto += 1;
            if self.eat(b')') {
                return out;
            }
            self.expect(b',');
        }
    }
}

impl Module {
    pub fn parse(text: Vec<u8>) -> Module {
        let mut m = Module { text: vec![], funcs: vec![], fidx: HashMap::new(), globals: vec![], aliases: vec![] };
        let s: &[u8] = &text;
        let mut i = 0;
        while i < s.len() {
            let mut e = i;
            while e < s.len() && s[e] != b'\n' {
                e += 1;
            }
            let line = &s[i..e];
            if line.starts_with(b"define ") || line.starts_with(b"declare ") {
                let at = line.iter().position(|c| *c == b'@').unwrap();
                let mut p = P::new(s, i + at + 1);
                let name = String::from_utf8(p.name()).unwrap();
                let header = (p.i, e);
                let mut body = None;
                if line.starts_with(b"define ") {
                    let b0 = e + 1;
                    // body ends at a line that is exactly "}"
                    let mut j = b0;
                    loop {
                        let mut k = j;
                        while s[k] != b'\n' {
                            k += 1;
                        }
                        if &s[j..k] == b"}" {
                            body = Some((b0, j));
                            e = k;
                            break;
                        }
                        j = k + 1;
                    }
                }
                m.fidx.insert(name.clone(), m.funcs.len() as u32);
                m.funcs.push(FuncSrc { name, header, body });
            } else if line.starts_with(b"@") {
                let mut p = P::new(s, i + 1);
                let name = String::from_utf8(p.name()).unwrap();
                p.expect(b'=');
                let mut kind = "";
                let mut external = false;
                loop {
                    let w = p.word();
                    match w {
                        "global" | "constant" | "alias" => {
                            kind = w;
                            break;
                        }
                        "external" | "extern_weak" => external = true,
                        "" => break,
                        _ => {}
                    }
                    if p.peek() == b'(' {
                        p.balanced();
                    }
                }
                if kind == "alias" {
                    p.ty();
                    p.expect(b',');
                    let t = p.ty();
                    let v = p.val(&t);
                    m.aliases.push((name, v));
                } else if kind != "" {
                    let ty = p.ty();
                    let init = if external { None } else { Some(p.val(&ty)) };
                    let mut align = 16;
                    let rest = &s[p.i..e];
                    if let Some(x) = find(rest, b", align ") {
                        let mut q = P::new(s, p.i + x + 8);
                        align = q.num();
                    }
                    m.globals.push(GlobalSrc { name, ty, init, constant: kind == "constant", align });
                }
            }
            i = e + 1;
        }
        m.text = text;
        m
    }

    pub fn parse_func(&self, f: u32) -> PFunc {
        let src = &self.funcs[f as usize];
        let mut p = P::new(&self.text, src.header.0);
        let params = p.params();
        let (b0, b1) = src.body.unwrap();
        p.i = b0;
        let mut blocks: Vec<Option<Vec<PInst>>> = vec![];
        let mut cur: Option<u32> = None;
        let mut nunnamed: Option<Vec<u8>> = None;
        // entry label
        {
            // peek the first line: "name:" or instructions
            let mut e = p.i;
            while self.text[e] != b'\n' {
                e += 1;
            }
            let l = &self.text[p.i..e];
            if l.first().map_or(true, |c| *c == b' ' || *c == b';') || l.is_empty() {
                nunnamed = Some(params.len().to_string().into_bytes());
            }
        }
        if let Some(n) = nunnamed {
            let l = p.label(n);
            cur = Some(l);
            blocks.push(Some(vec![]));
        }
        let mut entry = cur;
        while p.i < b1 {
            // line start
            let c = p.peek();
            if c == b'\n' {
                p.i += 1;
                continue;
            }
            if c == b';' {
                p.line();
                continue;
            }
            if c == b' ' {
                // instruction, comment or debug record
                let mut j = p.i;
                while self.text[j] == b' ' {
                    j += 1;
                }
                if self.text[j] == b';' || self.text[j] == b'#' {
                    p.line();
                    continue;
                }
                let skip_clause = {
                    let w = &self.text[j..];
                    w.starts_with(b"cleanup\n") || w.starts_with(b"catch ") || w.starts_with(b"filter ") || w.starts_with(b"to label") || w.starts_with(b"cleanup ")
                };
                if skip_clause {
                    p.line();
                    continue;
                }
                if cur.is_none() {
                    // unlabelled entry block
                    panic!("instruction outside a block in {}", src.name);
                }
                let inst = p.inst();
                p.line();
                let l = cur.unwrap() as usize;
                blocks[l].as_mut().unwrap().push(inst);
            } else {
                // label
                let n = p.name();
                p.expect(b':');
                p.line();
                let l = p.label(n);
                while blocks.len() <= l as usize {
                    blocks.push(None);
                }
                blocks[l as usize] = Some(vec![]);
                cur = Some(l);
                if entry.is_none() {
                    entry = Some(l);
                }
            }
        }
        assert_eq!(entry, Some(0), "entry block must be label 0 in {}", src.name);
        let blocks = blocks.into_iter().map(|b| b.unwrap_or_default()).collect();
        PFunc { nregs: p.nregs, params, blocks }
    }
}

fn find(h: &[u8], n: &[u8]) -> Option<usize> {
    h.windows(n.len()).position(|w| w == n)
}

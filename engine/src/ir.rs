//! LLVM textual IR: types, parser, lowering to a compact instruction form.
//! Functions are parsed lazily, the first time they're called.

use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, PartialEq, Debug)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float,
    Double,
    Vec(u32, Rc<Ty>),
    Arr(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Meta,
    Label,
    Opaque,
}

impl Ty {
    /// bits of a scalar
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(n) => *n,
            Ty::Ptr => 64,
            Ty::Float => 32,
            Ty::Double => 64,
            Ty::Vec(n, t) => n * t.bits(),
            _ => panic!("bits of {:?}", self),
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(n) => {
                let b = ((*n as u64) + 7) / 8;
                b.next_power_of_two().min(16)
            }
            Ty::Ptr => 8,
            Ty::Float => 4,
            Ty::Double => 8,
            Ty::Vec(..) => self.store_size().next_power_of_two(),
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(n) => ((*n as u64) + 7) / 8,
            Ty::Ptr => 8,
            Ty::Float => 4,
            Ty::Double => 8,
            Ty::Vec(n, t) => (*n as u64 * t.bits() as u64 + 7) / 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(..) => self.size(),
            Ty::Void => 0,
            _ => panic!("size of {:?}", self),
        }
    }
    /// alloc size
    pub fn size(&self) -> u64 {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0u64;
                for t in f.iter() {
                    if !*packed {
                        o = align_up(o, t.align());
                    }
                    o += t.size();
                }
                if !*packed {
                    o = align_up(o, self.align());
                }
                o
            }
            Ty::Arr(n, t) => n * t.size(),
            Ty::Void => 0,
            _ => align_up(self.store_size(), self.align()),
        }
    }
    pub fn field(&self, i: usize) -> (u64, Ty) {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0u64;
                for (j, t) in f.iter().enumerate() {
                    if !*packed {
                        o = align_up(o, t.align());
                    }
                    if i == j {
                        return (o, t.clone());
                    }
                    o += t.size();
                }
                panic!("field")
            }
            Ty::Arr(_, t) => (t.size() * i as u64, (**t).clone()),
            Ty::Vec(_, t) => (t.size() * i as u64, (**t).clone()),
            _ => panic!("field of {:?}", self),
        }
    }
    pub fn nfields(&self) -> usize {
        match self {
            Ty::Struct(f, _) => f.len(),
            Ty::Arr(n, _) => *n as usize,
            Ty::Vec(n, _) => *n as usize,
            _ => 0,
        }
    }
    pub fn is_agg(&self) -> bool {
        matches!(self, Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..))
    }
}

pub fn align_up(o: u64, a: u64) -> u64 {
    (o + a - 1) / a * a
}

/// constant values as parsed
#[derive(Clone, Debug, PartialEq)]
pub enum CV {
    Int(u128),
    Zero,
    Undef,
    Global(Rc<str>),
    Agg(Vec<(Ty, CV)>),
    Str(Rc<Vec<u8>>),
    Splat(Box<(Ty, CV)>),
    Gep(Ty, Box<CV>, Vec<(Ty, CV)>),
    Cast(Box<(Ty, CV)>, Ty),
    Bin(BinOp, Box<(Ty, CV)>, Box<(Ty, CV)>),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum CastOp {
    Trunc,
    ZExt,
    SExt,
    BitCast,
    PtrToInt,
    IntToPtr,
    FpTrunc,
    FpExt,
    FpToUi,
    FpToSi,
    UiToFp,
    SiToFp,
}

/// operand: register, small constant, or arbitrary constant (index in function's pool)
#[derive(Clone, Copy, Debug)]
pub enum Opd {
    R(u32),
    C(u64),
    K(u32),
}

#[derive(Debug)]
pub enum Callee {
    Direct(u32),
    Indirect(Opd),
    Asm(bool),
}

#[derive(Debug)]
pub enum Ins {
    Bin { op: BinOp, w: u32, vec: u32, a: Opd, b: Opd, d: u32 },
    FNeg { w: u32, a: Opd, d: u32 },
    Cmp { p: Pred, w: u32, vec: u32, a: Opd, b: Opd, d: u32 },
    FCmp { p: Rc<str>, w: u32, a: Opd, b: Opd, d: u32 },
    Select { c: Opd, vec: u32, a: Opd, b: Opd, d: u32, ty: Rc<Ty> },
    Cast { op: CastOp, from: Rc<Ty>, to: Rc<Ty>, a: Opd, d: u32 },
    Gep { base: Opd, off: i64, idx: Vec<(Opd, u32, i64)>, d: u32 },
    Load { ty: Rc<Ty>, p: Opd, d: u32 },
    Store { ty: Rc<Ty>, v: Opd, p: Opd },
    Alloca { size: u64, n: Option<Opd>, d: u32 },
    Call { f: Callee, args: Vec<Opd>, arg_tys: Rc<Vec<Ty>>, ret: Rc<Ty>, d: u32, invoke: Option<(u32, u32)> },
    ExtractValue { a: Opd, idx: Vec<u32>, d: u32 },
    InsertValue { a: Opd, v: Opd, idx: Vec<u32>, d: u32 },
    ExtractElement { a: Opd, i: Opd, d: u32 },
    InsertElement { a: Opd, v: Opd, i: Opd, d: u32 },
    Shuffle { a: Opd, b: Opd, n: u32, mask: Vec<i32>, d: u32 },
    AtomicRmw { op: Rc<str>, ty: Rc<Ty>, p: Opd, v: Opd, d: u32 },
    CmpXchg { ty: Rc<Ty>, p: Opd, c: Opd, n: Opd, d: u32 },
    Mov { a: Opd, d: u32 },
    Nop,
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch { v: Opd, w: u32, def: u32, cases: Vec<(u128, u32)> },
    Ret(Option<Opd>),
    Unreachable,
    LandingPad,
    Resume,
}

pub const NOREG: u32 = u32::MAX;

#[derive(Debug)]
pub struct Block {
    pub name: String,
    /// (dst, [(pred block, operand)])
    pub phis: Vec<(u32, Vec<(u32, Opd)>)>,
    pub ins: Vec<Ins>,
}

#[derive(Debug)]
pub struct Func {
    pub name: Rc<str>,
    pub id: u32,
    pub nregs: u32,
    pub params: Vec<(u32, Ty)>,
    pub ret: Ty,
    pub blocks: Vec<Block>,
    pub consts: Vec<(Ty, CV)>,
}

#[derive(Clone, Debug)]
pub struct GlobalDef {
    pub name: Rc<str>,
    pub is_const: bool,
    pub external: bool,
    pub ty: Ty,
    pub init: Option<CV>,
}

pub struct FuncDecl {
    pub name: Rc<str>,
    /// range of lines, None for a declaration
    pub body: Option<(usize, usize)>,
}

pub struct Module {
    pub lines: Vec<String>,
    pub globals: Vec<GlobalDef>,
    pub global_idx: HashMap<Rc<str>, usize>,
    pub funcs: Vec<FuncDecl>,
    pub func_idx: HashMap<Rc<str>, u32>,
    pub types: HashMap<String, Ty>,
    pub aliases: HashMap<Rc<str>, Rc<str>>,
}

pub struct Lex<'a> {
    s: &'a [u8],
    p: usize,
    types: &'a HashMap<String, Ty>,
}

impl<'a> Lex<'a> {
    pub fn new(s: &'a str, types: &'a HashMap<String, Ty>) -> Self {
        Self { s: s.as_bytes(), p: 0, types }
    }
    fn ws(&mut self) {
        while self.p < self.s.len() && (self.s[self.p] == b' ' || self.s[self.p] == b'\n' || self.s[self.p] == b'\t') {
            self.p += 1;
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        if self.p < self.s.len() {
            self.s[self.p]
        } else {
            0
        }
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.peek() == c {
            self.p += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: u8) {
        if !self.eat(c) {
            panic!("expected '{}' at {} in: {}", c as char, self.p, String::from_utf8_lossy(self.s));
        }
    }
    fn is_idc(c: u8) -> bool {
        c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
    }
    /// peek an identifier/keyword
    fn peek_word(&mut self) -> &'a str {
        self.ws();
        let mut e = self.p;
        while e < self.s.len() && Self::is_idc(self.s[e]) {
            e += 1;
        }
        std::str::from_utf8(&self.s[self.p..e]).unwrap()
    }
    fn word(&mut self) -> &'a str {
        let w = self.peek_word();
        self.p += w.len();
        w
    }
    fn eat_word(&mut self, w: &str) -> bool {
        if self.peek_word() == w {
            self.p += w.len();
            true
        } else {
            false
        }
    }
    fn quoted(&mut self) -> Vec<u8> {
        // at opening quote
        self.expect(b'"');
        let mut v = Vec::new();
        loop {
            let c = self.s[self.p];
            self.p += 1;
            match c {
                b'"' => break,
                b'\\' => {
                    if self.s[self.p] == b'\\' {
                        v.push(b'\\');
                        self.p += 1;
                    } else {
                        let h = std::str::from_utf8(&self.s[self.p..self.p + 2]).unwrap();
                        v.push(u8::from_str_radix(h, 16).unwrap());
                        self.p += 2;
                    }
                }
                c => v.push(c),
            }
        }
        v
    }
    /// after % or @
    fn name(&mut self) -> String {
        if self.s[self.p] == b'"' {
            String::from_utf8(self.quoted()).unwrap()
        } else {
            self.word().to_string()
        }
    }
    fn skip_balanced(&mut self) {
        // at '('
        let mut d = 0;
        loop {
            match self.s[self.p] {
                b'(' => d += 1,
                b')' => d -= 1,
                b'"' => {
                    self.p += 1;
                    while self.s[self.p] != b'"' {
                        self.p += 1;
                    }
                }
                _ => {}
            }
            self.p += 1;
            if d == 0 {
                break;
            }
        }
    }
    fn starts_type(&mut self) -> bool {
        let c = self.peek();
        match c {
            b'{' | b'<' | b'[' | b'%' => true,
            b'i' => {
                let w = self.peek_word();
                w.len() > 1 && w[1..].bytes().all(|b| b.is_ascii_digit())
            }
            _ => matches!(self.peek_word(), "ptr" | "void" | "float" | "double" | "metadata" | "label" | "x86_fp80" | "half" | "fp128"),
        }
    }
    /// skip attributes (before a type or a value)
    fn skip_attrs_to_type(&mut self) {
        while !self.starts_type() {
            self.skip_one_attr();
        }
    }
    fn skip_one_attr(&mut self) {
        let c = self.peek();
        if c == b'"' {
            self.quoted();
            if self.eat(b'=') {
                self.quoted();
            }
            return;
        }
        if c == b'#' {
            self.p += 1;
            self.word();
            return;
        }
        let w = self.word();
        if w.is_empty() {
            panic!("attr? at {} in {}", self.p, String::from_utf8_lossy(self.s));
        }
        if self.p < self.s.len() && self.s[self.p] == b'(' {
            self.skip_balanced();
        } else if w == "align" {
            self.word();
        }
    }
    pub fn ty(&mut self) -> Ty {
        let c = self.peek();
        match c {
            b'{' => {
                self.p += 1;
                let mut f = Vec::new();
                if !self.eat(b'}') {
                    loop {
                        f.push(self.ty());
                        if self.eat(b'}') {
                            break;
                        }
                        self.expect(b',');
                    }
                }
                Ty::Struct(Rc::new(f), false)
            }
            b'<' => {
                self.p += 1;
                if self.peek() == b'{' {
                    let t = self.ty();
                    self.expect(b'>');
                    if let Ty::Struct(f, _) = t {
                        Ty::Struct(f, true)
                    } else {
                        unreachable!()
                    }
                } else {
                    let n: u32 = self.word().parse().unwrap();
                    assert!(self.eat_word("x"));
                    let t = self.ty();
                    self.expect(b'>');
                    Ty::Vec(n, Rc::new(t))
                }
            }
            b'[' => {
                self.p += 1;
                let n: u64 = self.word().parse().unwrap();
                assert!(self.eat_word("x"));
                let t = self.ty();
                self.expect(b']');
                Ty::Arr(n, Rc::new(t))
            }
            b'%' => {
                self.p += 1;
                let n = self.name();
                self.types.get(&n).cloned().unwrap_or(Ty::Opaque)
            }
            _ => {
                let w = self.word();
                match w {
                    "ptr" => {
                        if self.peek_word() == "addrspace" {
                            self.word();
                            self.skip_balanced();
                        }
                        Ty::Ptr
                    }
                    "void" => Ty::Void,
                    "float" => Ty::Float,
                    "double" => Ty::Double,
                    "metadata" => Ty::Meta,
                    "label" => Ty::Label,
                    "half" | "x86_fp80" | "fp128" => Ty::Opaque,
                    _ if w.starts_with('i') => Ty::Int(w[1..].parse().unwrap_or_else(|_| panic!("type {:?}", w))),
                    _ => panic!("type? {:?} in {}", w, String::from_utf8_lossy(self.s)),
                }
            }
        }
    }
    /// parse a constant
    pub fn cv(&mut self, ty: &Ty) -> CV {
        let c = self.peek();
        match c {
            b'@' => {
                self.p += 1;
                CV::Global(self.name().into())
            }
            b'{' | b'[' => {
                let close = if c == b'{' { b'}' } else { b']' };
                self.p += 1;
                let mut v = Vec::new();
                if !self.eat(close) {
                    loop {
                        let t = self.ty();
                        let x = self.cv(&t);
                        v.push((t, x));
                        if self.eat(close) {
                            break;
                        }
                        self.expect(b',');
                    }
                }
                CV::Agg(v)
            }
            b'<' => {
                self.p += 1;
                if self.peek() == b'{' {
                    let v = self.cv(ty);
                    self.expect(b'>');
                    v
                } else {
                    let mut v = Vec::new();
                    loop {
                        let t = self.ty();
                        let x = self.cv(&t);
                        v.push((t, x));
                        if self.eat(b'>') {
                            break;
                        }
                        self.expect(b',');
                    }
                    CV::Agg(v)
                }
            }
            b'c' if self.p + 1 < self.s.len() && self.s[self.p + 1] == b'"' => {
                self.p += 1;
                CV::Str(Rc::new(self.quoted()))
            }
            _ => {
                let w = self.word();
                match w {
                    "true" => CV::Int(1),
                    "false" => CV::Int(0),
                    "null" | "none" => CV::Int(0),
                    "zeroinitializer" => CV::Zero,
                    "undef" | "poison" => CV::Undef,
                    "splat" => {
                        self.expect(b'(');
                        let t = self.ty();
                        let x = self.cv(&t);
                        self.expect(b')');
                        CV::Splat(Box::new((t, x)))
                    }
                    "getelementptr" => {
                        while self.peek() != b'(' {
                            self.word();
                        }
                        // could be inrange(..)
                        loop {
                            self.expect(b'(');
                            if self.starts_type() {
                                break;
                            }
                            while !self.eat(b')') {
                                self.p += 1;
                            }
                        }
                        let st = self.ty();
                        self.expect(b',');
                        let bt = self.ty();
                        let base = self.cv(&bt);
                        let mut idx = Vec::new();
                        while self.eat(b',') {
                            while !self.starts_type() {
                                self.word();
                            }
                            let t = self.ty();
                            let x = self.cv(&t);
                            idx.push((t, x));
                        }
                        self.expect(b')');
                        CV::Gep(st, Box::new(base), idx)
                    }
                    "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "zext" | "ptrtoaddr" => {
                        self.expect(b'(');
                        let t = self.ty();
                        let x = self.cv(&t);
                        assert!(self.eat_word("to"));
                        let t2 = self.ty();
                        self.expect(b')');
                        CV::Cast(Box::new((t, x)), t2)
                    }
                    "add" | "sub" | "xor" | "and" | "or" | "mul" | "shl" => {
                        while self.peek() != b'(' {
                            self.word();
                        }
                        self.expect(b'(');
                        let t = self.ty();
                        let x = self.cv(&t);
                        self.expect(b',');
                        let t2 = self.ty();
                        let x2 = self.cv(&t2);
                        self.expect(b')');
                        CV::Bin(binop(w).unwrap(), Box::new((t, x)), Box::new((t2, x2)))
                    }
                    _ => {
                        match ty {
                            Ty::Float | Ty::Double => {
                                if let Some(h) = w.strip_prefix("f0x") {
                                    return CV::Int(u128::from_str_radix(h, 16).unwrap());
                                }
                                let d: f64 = if let Some(h) = w.strip_prefix("0x") {
                                    f64::from_bits(u64::from_str_radix(h, 16).unwrap())
                                } else {
                                    // may be like 1.000000e+00: '+' isn't an idc
                                    let mut s = w.to_string();
                                    if self.p < self.s.len() && self.s[self.p] == b'+' {
                                        self.p += 1;
                                        s.push('+');
                                        s.push_str(self.word());
                                    }
                                    s.parse().unwrap_or_else(|_| panic!("float {:?}", s))
                                };
                                return CV::Int(if *ty == Ty::Float { (d as f32).to_bits() as u128 } else { d.to_bits() as u128 });
                            }
                            _ => {}
                        }
                        if let Some(neg) = w.strip_prefix('-') {
                            let n: u128 = neg.parse().unwrap_or_else(|_| panic!("const {:?} {:?} in {}", ty, w, String::from_utf8_lossy(self.s)));
                            CV::Int((0u128).wrapping_sub(n))
                        } else if let Some(h) = w.strip_prefix("u0x") {
                            CV::Int(u128::from_str_radix(h, 16).unwrap())
                        } else {
                            let n: u128 = w.parse().unwrap_or_else(|_| panic!("const {:?} {:?} in {}", ty, w, String::from_utf8_lossy(self.s)));
                            CV::Int(n)
                        }
                    }
                }
            }
        }
    }
}

pub fn binop(w: &str) -> Option<BinOp> {
    Some(match w {
        "add" => BinOp::Add,
        "sub" => BinOp::Sub,
        "mul" => BinOp::Mul,
        "udiv" => BinOp::UDiv,
        "sdiv" => BinOp::SDiv,
        "urem" => BinOp::URem,
        "srem" => BinOp::SRem,
        "shl" => BinOp::Shl,
        "lshr" => BinOp::LShr,
        "ashr" => BinOp::AShr,
        "and" => BinOp::And,
        "or" => BinOp::Or,
        "xor" => BinOp::Xor,
        "fadd" => BinOp::FAdd,
        "fsub" => BinOp::FSub,
        "fmul" => BinOp::FMul,
        "fdiv" => BinOp::FDiv,
        "frem" => BinOp::FRem,
        _ => return None,
    })
}

fn castop(w: &str) -> Option<CastOp> {
    Some(match w {
        "trunc" => CastOp::Trunc,
        "zext" => CastOp::ZExt,
        "sext" => CastOp::SExt,
        "bitcast" => CastOp::BitCast,
        "ptrtoint" | "ptrtoaddr" => CastOp::PtrToInt,
        "inttoptr" => CastOp::IntToPtr,
        "fptrunc" => CastOp::FpTrunc,
        "fpext" => CastOp::FpExt,
        "fptoui" => CastOp::FpToUi,
        "fptosi" => CastOp::FpToSi,
        "uitofp" => CastOp::UiToFp,
        "sitofp" => CastOp::SiToFp,
        _ => return None,
    })
}

fn global_name(line: &str, types: &HashMap<String, Ty>) -> (String, usize) {
    let mut l = Lex::new(line, types);
    l.expect(b'@');
    let n = l.name();
    (n, l.p)
}

impl Module {
    pub fn parse(text: String) -> Module {
        let lines: Vec<String> = text.lines().map(|l| l.to_string()).collect();
        let mut m = Module {
            lines: Vec::new(),
            globals: Vec::new(),
            global_idx: HashMap::new(),
            funcs: Vec::new(),
            func_idx: HashMap::new(),
            types: HashMap::new(),
            aliases: HashMap::new(),
        };
        // named types first
        for l in &lines {
            if l.starts_with('%') && l.contains(" = type ") {
                let mut lx = Lex::new(l, &m.types);
                lx.expect(b'%');
                let n = lx.name();
                lx.expect(b'=');
                lx.word();
                let t = if lx.peek_word() == "opaque" { Ty::Opaque } else { lx.ty() };
                m.types.insert(n, t);
            }
        }
        let mut i = 0;
        while i < lines.len() {
            let l = &lines[i];
            if l.starts_with('@') {
                let (name, p) = global_name(l, &m.types);
                let name: Rc<str> = name.into();
                let mut lx = Lex::new(l, &m.types);
                lx.p = p;
                lx.expect(b'=');
                let mut external = false;
                let mut is_const = false;
                let mut is_alias = false;
                loop {
                    let w = lx.word();
                    match w {
                        "external" | "extern_weak" => external = true,
                        "global" => break,
                        "constant" => {
                            is_const = true;
                            break;
                        }
                        "alias" | "ifunc" => {
                            is_alias = true;
                            break;
                        }
                        "" => panic!("global {}", l),
                        _ => {
                            if lx.p < lx.s.len() && lx.s[lx.p] == b'(' {
                                lx.skip_balanced();
                            }
                        }
                    }
                }
                if is_alias {
                    // alias <fnty>, ptr @target
                    let at = l.rfind('@').unwrap();
                    let (t, _) = global_name(&l[at..], &m.types);
                    m.aliases.insert(name, t.into());
                    i += 1;
                    continue;
                }
                let ty = lx.ty();
                let init = if external { None } else { Some(lx.cv(&ty)) };
                m.global_idx.insert(name.clone(), m.globals.len());
                m.globals.push(GlobalDef { name, is_const, external, ty, init });
            } else if l.starts_with("define ") {
                let at = l.find('@').unwrap();
                let (name, _) = global_name(&l[at..], &m.types);
                let start = i;
                while lines[i] != "}" {
                    i += 1;
                }
                let name: Rc<str> = name.into();
                m.func_idx.insert(name.clone(), m.funcs.len() as u32);
                m.funcs.push(FuncDecl { name, body: Some((start, i)) });
            } else if l.starts_with("declare ") {
                let at = l.find('@').unwrap();
                let (name, _) = global_name(&l[at..], &m.types);
                let name: Rc<str> = name.into();
                m.func_idx.insert(name.clone(), m.funcs.len() as u32);
                m.funcs.push(FuncDecl { name, body: None });
            }
            i += 1;
        }
        m.lines = lines;
        m
    }

    pub fn resolve_alias(&self, n: &str) -> Rc<str> {
        let mut n: Rc<str> = n.into();
        while let Some(t) = self.aliases.get(&n) {
            n = t.clone();
        }
        n
    }

    pub fn parse_func(&self, fid: u32) -> Func {
        let decl = &self.funcs[fid as usize];
        let (start, end) = decl.body.expect("parse_func on declaration");
        let mut fp = FParser { m: self, regs: HashMap::new(), nregs: 0, consts: Vec::new(), labels: HashMap::new() };
        // header
        let header = &self.lines[start];
        let mut lx = Lex::new(header, &self.types);
        lx.word(); // define
        lx.skip_attrs_to_type();
        let ret = lx.ty();
        lx.expect(b'@');
        let _ = lx.name();
        lx.expect(b'(');
        let mut params = Vec::new();
        let mut unnamed = 0;
        if !lx.eat(b')') {
            loop {
                if lx.peek() == b'.' {
                    lx.p += 3;
                } else {
                    let t = lx.ty();
                    while lx.peek() != b'%' && lx.peek() != b',' && lx.peek() != b')' {
                        lx.skip_one_attr();
                    }
                    let n = if lx.eat(b'%') {
                        lx.name()
                    } else {
                        unnamed.to_string()
                    };
                    if n.parse::<u32>().is_ok() {
                        unnamed += 1;
                    }
                    let r = fp.reg(&n);
                    params.push((r, t));
                }
                if lx.eat(b')') {
                    break;
                }
                lx.expect(b',');
            }
        }
        // logical lines
        let mut logical: Vec<String> = Vec::new();
        for l in &self.lines[start + 1..end] {
            if l.is_empty() {
                continue;
            }
            if l.starts_with("   ") || l.starts_with("  ]") {
                let last = logical.last_mut().unwrap();
                last.push(' ');
                last.push_str(l.trim());
            } else {
                logical.push(l.clone());
            }
        }
        // labels
        let mut block_names: Vec<String> = Vec::new();
        let mut first = true;
        for l in &logical {
            if l.starts_with(' ') {
                if first {
                    block_names.push(unnamed.to_string());
                }
            } else {
                // label
                let mut lx = Lex::new(l, &self.types);
                block_names.push(lx.name());
            }
            first = false;
        }
        for (i, n) in block_names.iter().enumerate() {
            fp.labels.insert(n.clone(), i as u32);
        }
        let mut blocks: Vec<Block> = Vec::new();
        let mut bi = 0;
        for (li, l) in logical.iter().enumerate() {
            if !l.starts_with(' ') || li == 0 {
                blocks.push(Block { name: block_names[bi].clone(), phis: Vec::new(), ins: Vec::new() });
                bi += 1;
                if !l.starts_with(' ') {
                    continue;
                }
            }
            let b = blocks.last_mut().unwrap();
            fp.ins(l, b);
        }
        Func { name: decl.name.clone(), id: fid, nregs: fp.nregs, params, ret, blocks, consts: fp.consts }
    }
}

struct FParser<'m> {
    m: &'m Module,
    regs: HashMap<String, u32>,
    nregs: u32,
    consts: Vec<(Ty, CV)>,
    labels: HashMap<String, u32>,
}

impl<'m> FParser<'m> {
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(r) = self.regs.get(n) {
            return *r;
        }
        let r = self.nregs;
        self.nregs += 1;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn opd(&mut self, lx: &mut Lex<'_>, ty: &Ty) -> Opd {
        if lx.peek() == b'%' {
            lx.p += 1;
            let n = lx.name();
            return Opd::R(self.reg(&n));
        }
        let c = lx.cv(ty);
        match (&c, ty) {
            (CV::Int(n), Ty::Int(w)) if *w <= 64 => {
                let mask = if *w == 64 { u64::MAX } else { (1u64 << w) - 1 };
                Opd::C(*n as u64 & mask)
            }
            (CV::Int(n), Ty::Ptr) => Opd::C(*n as u64),
            (CV::Int(n), Ty::Float | Ty::Double) => Opd::C(*n as u64),
            (CV::Undef | CV::Zero, Ty::Int(w)) if *w <= 64 => Opd::C(0),
            (CV::Undef | CV::Zero, Ty::Ptr | Ty::Float | Ty::Double) => Opd::C(0),
            _ => {
                self.consts.push((ty.clone(), c));
                Opd::K(self.consts.len() as u32 - 1)
            }
        }
    }
    fn tyopd(&mut self, lx: &mut Lex<'_>) -> (Ty, Opd) {
        let t = lx.ty();
        while lx.peek_word() == "noundef" {
            lx.word();
        }
        let o = self.opd(lx, &t);
        (t, o)
    }
    fn label(&mut self, lx: &mut Lex<'_>) -> u32 {
        assert!(lx.eat_word("label"));
        lx.expect(b'%');
        let n = lx.name();
        *self.labels.get(&n).unwrap_or_else(|| panic!("label {}", n))
    }
    fn ins(&mut self, line: &str, b: &mut Block) {
        let mut lx = Lex::new(line, &self.m.types);
        let mut d = NOREG;
        if lx.peek() == b'%' {
            lx.p += 1;
            let n = lx.name();
            d = self.reg(&n);
            lx.expect(b'=');
        }
        let w = lx.word();
        if let Some(op) = binop(w) {
            while !lx.starts_type() {
                lx.word();
            }
            let t = lx.ty();
            let x = self.opd(&mut lx, &t);
            lx.expect(b',');
            let y = self.opd(&mut lx, &t);
            let (w, vec) = match &t {
                Ty::Vec(n, t) => (t.bits(), *n),
                t => (t.bits(), 0),
            };
            b.ins.push(Ins::Bin { op, w, vec, a: x, b: y, d });
            return;
        }
        if let Some(op) = castop(w) {
            while !lx.starts_type() {
                lx.word();
            }
            let (t, x) = self.tyopd(&mut lx);
            assert!(lx.eat_word("to"));
            let t2 = lx.ty();
            b.ins.push(Ins::Cast { op, from: Rc::new(t), to: Rc::new(t2), a: x, d });
            return;
        }
        match w {
            "fneg" => {
                while !lx.starts_type() {
                    lx.word();
                }
                let (t, x) = self.tyopd(&mut lx);
                b.ins.push(Ins::FNeg { w: t.bits(), a: x, d });
            }
            "icmp" => {
                let mut p = lx.word();
                while p == "samesign" {
                    p = lx.word();
                }
                let p = match p {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    _ => panic!("pred {}", p),
                };
                let t = lx.ty();
                let x = self.opd(&mut lx, &t);
                lx.expect(b',');
                let y = self.opd(&mut lx, &t);
                let (w, vec) = match &t {
                    Ty::Vec(n, t) => (t.bits(), *n),
                    t => (t.bits(), 0),
                };
                b.ins.push(Ins::Cmp { p, w, vec, a: x, b: y, d });
            }
            "fcmp" => {
                let mut p = lx.word();
                while matches!(p, "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc") {
                    p = lx.word();
                }
                let t = lx.ty();
                let x = self.opd(&mut lx, &t);
                lx.expect(b',');
                let y = self.opd(&mut lx, &t);
                b.ins.push(Ins::FCmp { p: p.into(), w: t.bits(), a: x, b: y, d });
            }
            "select" => {
                while !lx.starts_type() {
                    lx.word();
                }
                let (ct, c) = self.tyopd(&mut lx);
                lx.expect(b',');
                let (t, x) = self.tyopd(&mut lx);
                lx.expect(b',');
                let (_, y) = self.tyopd(&mut lx);
                let vec = match ct {
                    Ty::Vec(n, _) => n,
                    _ => 0,
                };
                b.ins.push(Ins::Select { c, vec, a: x, b: y, d, ty: Rc::new(t) });
            }
            "getelementptr" => {
                while !lx.starts_type() {
                    lx.word();
                    if lx.peek() == b'(' {
                        lx.skip_balanced();
                    }
                }
                let st = lx.ty();
                lx.expect(b',');
                let (bt, base) = self.tyopd(&mut lx);
                assert!(bt == Ty::Ptr, "vector gep");
                let mut off = 0i64;
                let mut idx = Vec::new();
                let mut cur = st;
                let mut k = 0;
                while lx.eat(b',') {
                    if lx.peek() == b'!' {
                        break;
                    }
                    let (t, o) = self.tyopd(&mut lx);
                    let sz;
                    if k == 0 {
                        sz = cur.size();
                    } else {
                        match &cur {
                            Ty::Struct(..) => {
                                if let Opd::C(i) = o {
                                    let (fo, ft) = cur.field(i as usize);
                                    off += fo as i64;
                                    cur = ft;
                                    k += 1;
                                    continue;
                                }
                                panic!("struct gep")
                            }
                            Ty::Arr(_, e) => {
                                let e = (**e).clone();
                                sz = e.size();
                                cur = e;
                            }
                            Ty::Vec(_, e) => {
                                let e = (**e).clone();
                                sz = e.size();
                                cur = e;
                            }
                            _ => panic!("gep {}", line),
                        }
                    }
                    k += 1;
                    match o {
                        Opd::C(i) => {
                            let i = match t {
                                Ty::Int(32) => i as u32 as i32 as i64,
                                Ty::Int(64) => i as i64,
                                Ty::Int(w) => {
                                    let sh = 64 - w;
                                    ((i << sh) as i64) >> sh
                                }
                                _ => panic!(),
                            };
                            off = off.wrapping_add(i.wrapping_mul(sz as i64));
                        }
                        o => idx.push((o, t.bits(), sz as i64)),
                    }
                }
                b.ins.push(Ins::Gep { base, off, idx, d });
            }
            "load" => {
                while matches!(lx.peek_word(), "atomic" | "volatile") {
                    lx.word();
                }
                let t = lx.ty();
                lx.expect(b',');
                let (_, p) = self.tyopd(&mut lx);
                b.ins.push(Ins::Load { ty: Rc::new(t), p, d });
            }
            "store" => {
                while matches!(lx.peek_word(), "atomic" | "volatile") {
                    lx.word();
                }
                let (t, v) = self.tyopd(&mut lx);
                lx.expect(b',');
                let (_, p) = self.tyopd(&mut lx);
                b.ins.push(Ins::Store { ty: Rc::new(t), v, p });
            }
            "alloca" => {
                let t = lx.ty();
                let mut n = None;
                if lx.eat(b',') {
                    if lx.starts_type() {
                        let (_, o) = self.tyopd(&mut lx);
                        n = Some(o);
                    }
                }
                b.ins.push(Ins::Alloca { size: t.size(), n, d });
            }
            "tail" | "musttail" | "notail" | "call" | "invoke" => {
                let invoke = w == "invoke";
                if matches!(w, "tail" | "musttail" | "notail") {
                    lx.word();
                }
                lx.skip_attrs_to_type();
                let ret = lx.ty();
                // optional function type
                if lx.peek() == b'(' {
                    lx.skip_balanced();
                }
                let callee;
                if lx.peek() == b'@' {
                    lx.p += 1;
                    let n = lx.name();
                    let n = self.m.resolve_alias(&n);
                    callee = Callee::Direct(*self.m.func_idx.get(&n).unwrap_or_else(|| panic!("func {}", n)));
                } else if lx.peek() == b'%' {
                    lx.p += 1;
                    let n = lx.name();
                    callee = Callee::Indirect(Opd::R(self.reg(&n)));
                } else if lx.peek_word() == "asm" {
                    lx.word();
                    while lx.peek() != b'"' {
                        lx.word();
                    }
                    let text = lx.quoted();
                    lx.expect(b',');
                    let _ = lx.quoted();
                    // an empty one is only a barrier
                    // cpuid: no optional feature
                    let cpuid = text.windows(5).any(|w| w == b"cpuid");
                    callee = Callee::Asm(!cpuid && text.iter().any(|b| !b.is_ascii_whitespace()));
                } else {
                    let c = lx.cv(&Ty::Ptr);
                    self.consts.push((Ty::Ptr, c));
                    callee = Callee::Indirect(Opd::K(self.consts.len() as u32 - 1));
                }
                lx.expect(b'(');
                let mut args = Vec::new();
                let mut tys = Vec::new();
                if !lx.eat(b')') {
                    loop {
                        let t = lx.ty();
                        if t == Ty::Meta {
                            // skip metadata operand
                            let mut depth = 0;
                            loop {
                                let c = lx.peek();
                                if depth == 0 && (c == b',' || c == b')') {
                                    break;
                                }
                                if c == b'(' {
                                    depth += 1
                                }
                                if c == b')' {
                                    depth -= 1
                                }
                                if c == b'"' {
                                    lx.quoted();
                                    continue;
                                }
                                lx.p += 1;
                            }
                            args.push(Opd::C(0));
                            tys.push(Ty::Meta);
                        } else {
                            // skip attrs
                            loop {
                                let c = lx.peek();
                                if c == b'%' || c == b'@' || c == b'{' || c == b'[' || c == b'<' || c == b'-' || c.is_ascii_digit() {
                                    break;
                                }
                                if c == b'c' && lx.s[lx.p + 1] == b'"' {
                                    break;
                                }
                                let w = lx.peek_word();
                                if matches!(
                                    w,
                                    "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "getelementptr" | "inttoptr" | "ptrtoint" | "bitcast" | "splat" | "add" | "sub" | "xor" | "trunc" | "ptrtoaddr"
                                ) {
                                    break;
                                }
                                lx.skip_one_attr();
                            }
                            let o = self.opd(&mut lx, &t);
                            args.push(o);
                            tys.push(t);
                        }
                        if lx.eat(b')') {
                            break;
                        }
                        lx.expect(b',');
                    }
                }
                let mut inv = None;
                if invoke {
                    while !(lx.peek_word() == "to") {
                        let c = lx.peek();
                        if c == b'[' {
                            while !lx.eat(b']') {
                                lx.p += 1;
                            }
                            continue;
                        }
                        lx.skip_one_attr();
                    }
                    lx.word();
                    let n = self.label(&mut lx);
                    assert!(lx.eat_word("unwind"));
                    let u = self.label(&mut lx);
                    inv = Some((n, u));
                }
                b.ins.push(Ins::Call { f: callee, args, arg_tys: Rc::new(tys), ret: Rc::new(ret), d, invoke: inv });
            }
            "extractvalue" => {
                let (_, a) = self.tyopd(&mut lx);
                let mut idx = Vec::new();
                while lx.eat(b',') {
                    if lx.peek() == b'!' {
                        break;
                    }
                    idx.push(lx.word().parse().unwrap());
                }
                b.ins.push(Ins::ExtractValue { a, idx, d });
            }
            "insertvalue" => {
                let (_, a) = self.tyopd(&mut lx);
                lx.expect(b',');
                let (_, v) = self.tyopd(&mut lx);
                let mut idx = Vec::new();
                while lx.eat(b',') {
                    if lx.peek() == b'!' {
                        break;
                    }
                    idx.push(lx.word().parse().unwrap());
                }
                b.ins.push(Ins::InsertValue { a, v, idx, d });
            }
            "extractelement" => {
                let (_, a) = self.tyopd(&mut lx);
                lx.expect(b',');
                let (_, i) = self.tyopd(&mut lx);
                b.ins.push(Ins::ExtractElement { a, i, d });
            }
            "insertelement" => {
                let (_, a) = self.tyopd(&mut lx);
                lx.expect(b',');
                let (_, v) = self.tyopd(&mut lx);
                lx.expect(b',');
                let (_, i) = self.tyopd(&mut lx);
                b.ins.push(Ins::InsertElement { a, v, i, d });
            }
            "shufflevector" => {
                let (t, a) = self.tyopd(&mut lx);
                lx.expect(b',');
                let (_, b2) = self.tyopd(&mut lx);
                lx.expect(b',');
                let mt = lx.ty();
                let mc = lx.cv(&mt);
                let n = mt.nfields();
                let mask: Vec<i32> = match mc {
                    CV::Zero => vec![0; n],
                    CV::Undef => vec![-1; n],
                    CV::Splat(x) => match x.1 {
                        CV::Int(i) => vec![i as i32; n],
                        _ => panic!(),
                    },
                    CV::Agg(v) => v
                        .iter()
                        .map(|(_, c)| match c {
                            CV::Int(i) => *i as i32,
                            CV::Undef => -1,
                            _ => panic!(),
                        })
                        .collect(),
                    _ => panic!("shuffle mask"),
                };
                b.ins.push(Ins::Shuffle { a, b: b2, n: t.nfields() as u32, mask, d });
            }
            "atomicrmw" => {
                while matches!(lx.peek_word(), "volatile") {
                    lx.word();
                }
                let op: Rc<str> = lx.word().into();
                let (_, p) = self.tyopd(&mut lx);
                lx.expect(b',');
                let (t, v) = self.tyopd(&mut lx);
                b.ins.push(Ins::AtomicRmw { op, ty: Rc::new(t), p, v, d });
            }
            "cmpxchg" => {
                while matches!(lx.peek_word(), "weak" | "volatile") {
                    lx.word();
                }
                let (_, p) = self.tyopd(&mut lx);
                lx.expect(b',');
                let (t, c) = self.tyopd(&mut lx);
                lx.expect(b',');
                let (_, n) = self.tyopd(&mut lx);
                b.ins.push(Ins::CmpXchg { ty: Rc::new(t), p, c, n, d });
            }
            "fence" => b.ins.push(Ins::Nop),
            "freeze" => {
                let (_, a) = self.tyopd(&mut lx);
                b.ins.push(Ins::Mov { a, d });
            }
            "br" => {
                if lx.peek_word() == "label" {
                    let l = self.label(&mut lx);
                    b.ins.push(Ins::Br(l));
                } else {
                    let (_, c) = self.tyopd(&mut lx);
                    lx.expect(b',');
                    let t = self.label(&mut lx);
                    lx.expect(b',');
                    let e = self.label(&mut lx);
                    b.ins.push(Ins::CondBr(c, t, e));
                }
            }
            "switch" => {
                let (t, v) = self.tyopd(&mut lx);
                lx.expect(b',');
                let def = self.label(&mut lx);
                lx.expect(b'[');
                let mut cases = Vec::new();
                while !lx.eat(b']') {
                    let ct = lx.ty();
                    let c = lx.cv(&ct);
                    lx.expect(b',');
                    let l = self.label(&mut lx);
                    let w = ct.bits();
                    let mask = if w >= 128 { u128::MAX } else { (1u128 << w) - 1 };
                    match c {
                        CV::Int(i) => cases.push((i & mask, l)),
                        _ => panic!(),
                    }
                }
                b.ins.push(Ins::Switch { v, w: t.bits(), def, cases });
            }
            "ret" => {
                if lx.peek_word() == "void" {
                    b.ins.push(Ins::Ret(None));
                } else {
                    let (_, v) = self.tyopd(&mut lx);
                    b.ins.push(Ins::Ret(Some(v)));
                }
            }
            "unreachable" => b.ins.push(Ins::Unreachable),
            "landingpad" => b.ins.push(Ins::LandingPad),
            "resume" => b.ins.push(Ins::Resume),
            "phi" => {
                while !lx.starts_type() {
                    lx.word();
                }
                let t = lx.ty();
                let mut inc = Vec::new();
                loop {
                    lx.expect(b'[');
                    let o = self.opd(&mut lx, &t);
                    lx.expect(b',');
                    lx.expect(b'%');
                    let n = lx.name();
                    let l = *self.labels.get(&n).unwrap();
                    lx.expect(b']');
                    inc.push((l, o));
                    if !lx.eat(b',') || lx.peek() == b'!' {
                        break;
                    }
                }
                b.phis.push((d, inc));
            }
            _ => panic!("instruction? {}", line),
        }
    }
}

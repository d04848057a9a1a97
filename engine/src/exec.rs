//! Symbolic execution of the LLVM IR of the real code.

use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::solver::*;
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Debug)]
pub enum V {
    C(u64),
    E(E),
    A(Rc<Vec<V>>),
}

#[derive(Clone)]
pub struct Frame {
    pub func: Rc<Func>,
    pub regs: Vec<V>,
    pub block: u32,
    pub ip: u32,
    pub dst: u32,
    /// after the return, for an invoke
    pub cont: Option<u32>,
    pub stack_mark: u32,
}

/// why a thread isn't running
#[derive(Clone, Debug)]
pub enum Wait {
    Run,
    Futex(u64, Option<(V, V)>),
    Sleep(V, V),
    Join(usize),
    Done,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Resumed {
    Woken,
    TimedOut,
    Again,
}
#[derive(Clone)]
pub struct Thr {
    /// not the ones of the current thread
    pub top: Option<Frame>,
    pub stack: Vec<Rc<Frame>>,
    pub wait: Wait,
    pub resumed: Option<Resumed>,
    /// number of the ones it woke, when it's interrupted then
    pub woken: u64,
    /// copies of the thread local objects
    pub tls: BTreeMap<u32, u64>,
    pub specific: BTreeMap<u64, V>,
}

#[derive(Clone, Debug)]
pub enum Input {
    Var(u32),
    Conc(u64),
}

/// persistent list
#[derive(Clone)]
pub struct State {
    pub mem: Mem,
    pub top: Frame,
    pub stack: Vec<Rc<Frame>>,
    pub pc: Vec<E>,
    pub model: Rc<Vec<u64>>,
    pub model_id: u64,
    pub inputs: Vec<Input>,
    pub obs: Vec<V>,
    pub steps: u64,
    pub forks: u32,
    /// seconds, nanoseconds
    pub clock: (V, V),
    pub errno: u64,
    pub threads: Vec<Thr>,
    pub cur: usize,
    /// the next step chooses the thread to run
    pub in_sched: bool,
    pub keys: u64,
    /// how many times a thread which could go on may be interrupted, and how many times the
    /// clock may go on while a thread could run
    pub preempts: u64,
    pub lates: u64,
    /// what was written on the standard output, what may be read on the standard input
    pub out: Vec<V>,
    pub inp: VecDeque<V>,
    pub key: u64,
}

pub enum Stop {
    /// path over: normal return of the entry
    End,
    /// assumption impossible
    Dead,
    /// another thread runs, the instruction will be executed again
    Switched,
    Err(String, String),
}

type R<T> = Result<T, Stop>;

#[derive(Clone, Debug)]
pub struct ErrRec {
    pub kind: String,
    pub what: String,
    pub site: String,
    pub inputs: Vec<u64>,
    pub trace: Vec<String>,
}
#[derive(Clone, Debug)]
pub struct PathRec {
    pub inputs: Vec<u64>,
    pub obs: Vec<u64>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum B {
    ThreadCreate,
    ThreadJoin,
    SymThreads,
    KeyCreate,
    SetSpecific,
    GetSpecific,
    SymSleep,
    Nop,
    Ret0,
    RetM1,
    Malloc,
    Calloc,
    Free,
    Realloc,
    PosixMemalign,
    Memcpy,
    Memset,
    Bcmp,
    Memcmp,
    Strlen,
    Getrandom,
    Syscall,
    Clock,
    Write,
    Read,
    Ioctl,
    Errno,
    SymStdin,
    SymStdout,
    Sysconf,
    Abort,
    Trap,
    Panic,
    UMin,
    UMax,
    SMin,
    SMax,
    USubSat,
    UAddSat,
    SSubSat,
    SAddSat,
    UAddO,
    USubO,
    UMulO,
    SAddO,
    SSubO,
    SMulO,
    Ctlz,
    Cttz,
    Ctpop,
    Fshl,
    Fshr,
    Abs,
    UCmp,
    SCmp,
    Bswap,
    Bitrev,
    IsConstant,
    Assume,
    Expect,
    Tls,
    FFloor,
    FCeil,
    FTrunc,
    FRound,
    FAbs,
    FMinNum,
    FMaxNum,
    FpToUiSat,
    FpToSiSat,
    ReduceOr,
    ReduceAnd,
    ReduceAdd,
    MaskedLoad,
    SymU(u32),
    SymRange,
    SymChar,
    SymPick,
    SymParam,
    SymAssume,
    SymAssert,
    SymReach,
    SymObserve,
    SymClock,
    SymNarrow,
    SymIsSym,
    SymConc,
    Stop,
    PtrMask,
    ObjectSize,
}

enum Target {
    Def(Rc<Func>),
    Built(B),
    Missing,
}

pub struct Exec<'m> {
    pub m: &'m Module,
    pub x: Exprs,
    pub sol: Solver,
    targets: Vec<Option<Rc<Target>>>,
    gaddr: HashMap<Rc<str>, u64>,
    consts: HashMap<(u32, u32), V>,
    vars: HashMap<(u32, u32, u64, u64), u32>,
    tabcache: HashMap<(u32, E, u32), Option<E>>,
    pub work: VecDeque<State>,
    pub params: Vec<u64>,
    next_model: u64,
    // results
    pub paths: u64,
    pub dead: u64,
    pub forks: u64,
    pub steps: u64,
    pub concretized: u64,
    pub asserts: u64,
    pub asserts_const: u64,
    pub asserts_solver: u64,
    pub unknowns: u64,
    pub errs: BTreeMap<(String, String, String), (u64, ErrRec)>,
    pub samples: Vec<PathRec>,
    pub reach: BTreeMap<String, (u64, Vec<u64>)>,
    pub funcs_seen: HashSet<u32>,
    pub max_steps: u64,
    pub max_samples: usize,
    pub fork_sites: BTreeMap<String, u64>,
    pub deadline: Option<Instant>,
    pub timed_out: bool,
    pub max_depth: usize,
    pub max_pc: usize,
    pub narrow: bool,
    first_global: u32,
    rng: u64,
}

fn demangle(n: &str) -> String {
    // enough for reports: keep identifiers of a v0 or legacy symbol
    let b = n.as_bytes();
    let mut out: Vec<&str> = Vec::new();
    let mut i = 0;
    while i < b.len() {
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let mut j = i;
            let mut k = 0usize;
            while j < b.len() && b[j].is_ascii_digit() && j - i < 3 {
                k = k * 10 + (b[j] - b'0') as usize;
                j += 1;
            }
            let st = if j < b.len() && b[j] == b'_' { j + 1 } else { j };
            if st + k <= b.len() && k > 0 {
                let s = &n[st..st + k];
                if s.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_') && !s.as_bytes()[0].is_ascii_digit() {
                    out.push(s);
                    i = st + k;
                    continue;
                }
            }
            i = j;
        } else {
            i += 1;
        }
    }
    if out.is_empty() {
        n.to_string()
    } else {
        out.join("::")
    }
}
pub fn short_name(n: &str) -> String {
    if n.starts_with("_R") || n.starts_with("_ZN") {
        demangle(n)
    } else {
        n.to_string()
    }
}

fn err<T>(k: &str, w: impl Into<String>) -> R<T> {
    Err(Stop::Err(k.to_string(), w.into()))
}

fn builtin_of(n: &str) -> Option<B> {
    if let Some(r) = n.strip_prefix("llvm.") {
        let head = |p: &str| r.starts_with(p);
        return Some(if head("lifetime") || head("experimental.noalias") || head("dbg") || head("prefetch") || head("invariant") || head("sideeffect") || head("donothing") || head("x86.sse2.pause") || head("fake.use") {
            B::Nop
        } else if head("memcpy") || head("memmove") {
            B::Memcpy
        } else if head("memset") {
            B::Memset
        } else if head("umin.") {
            B::UMin
        } else if head("umax.") {
            B::UMax
        } else if head("smin.") {
            B::SMin
        } else if head("smax.") {
            B::SMax
        } else if head("usub.sat") {
            B::USubSat
        } else if head("uadd.sat") {
            B::UAddSat
        } else if head("ssub.sat") {
            B::SSubSat
        } else if head("sadd.sat") {
            B::SAddSat
        } else if head("uadd.with") {
            B::UAddO
        } else if head("usub.with") {
            B::USubO
        } else if head("umul.with") {
            B::UMulO
        } else if head("sadd.with") {
            B::SAddO
        } else if head("ssub.with") {
            B::SSubO
        } else if head("smul.with") {
            B::SMulO
        } else if head("ctlz") {
            B::Ctlz
        } else if head("cttz") {
            B::Cttz
        } else if head("ctpop") {
            B::Ctpop
        } else if head("fshl") {
            B::Fshl
        } else if head("fshr") {
            B::Fshr
        } else if head("abs.") {
            B::Abs
        } else if head("ucmp") {
            B::UCmp
        } else if head("scmp") {
            B::SCmp
        } else if head("bswap") {
            B::Bswap
        } else if head("bitreverse") {
            B::Bitrev
        } else if head("is.constant") {
            B::IsConstant
        } else if head("assume") {
            B::Assume
        } else if head("expect") || head("launder") || head("strip.inv") || head("ssa.copy") {
            B::Expect
        } else if head("threadlocal.address") {
            B::Tls
        } else if head("trap") || head("ubsantrap") || head("debugtrap") {
            B::Trap
        } else if head("floor") {
            B::FFloor
        } else if head("ceil") {
            B::FCeil
        } else if head("trunc.") {
            B::FTrunc
        } else if head("round.") {
            B::FRound
        } else if head("fabs") {
            B::FAbs
        } else if head("minimumnum") || head("minnum") {
            B::FMinNum
        } else if head("maximumnum") || head("maxnum") {
            B::FMaxNum
        } else if head("fptoui.sat") {
            B::FpToUiSat
        } else if head("fptosi.sat") {
            B::FpToSiSat
        } else if head("vector.reduce.or") {
            B::ReduceOr
        } else if head("vector.reduce.and") {
            B::ReduceAnd
        } else if head("vector.reduce.add") {
            B::ReduceAdd
        } else if head("masked.load") {
            B::MaskedLoad
        } else if head("ptrmask") {
            B::PtrMask
        } else if head("objectsize") {
            B::ObjectSize
        } else {
            return None;
        });
    }
    Some(match n {
        "malloc" => B::Malloc,
        "calloc" => B::Calloc,
        "free" => B::Free,
        "realloc" => B::Realloc,
        "posix_memalign" => B::PosixMemalign,
        "memcpy" | "memmove" => B::Memcpy,
        "memset" => B::Memset,
        "bcmp" => B::Bcmp,
        "memcmp" => B::Memcmp,
        "strlen" => B::Strlen,
        "getrandom" => B::Getrandom,
        "syscall" => B::Syscall,
        "pthread_create" => B::ThreadCreate,
        "pthread_join" => B::ThreadJoin,
        "pthread_key_create" => B::KeyCreate,
        "pthread_setspecific" => B::SetSpecific,
        "pthread_getspecific" => B::GetSpecific,
        "sym_threads" => B::SymThreads,
        "sym_sleep" => B::SymSleep,
        "pthread_attr_init" | "dlsym" | "pthread_attr_destroy" | "pthread_attr_setstacksize" | "pthread_detach" | "pthread_setname_np" | "prctl" | "pthread_getattr_np"
        | "sigaltstack" | "tcsetattr" | "cfmakeraw" => B::Ret0,
        "clock_gettime" => B::Clock,
        "write" => B::Write,
        "read" => B::Read,
        "ioctl" => B::Ioctl,
        "__errno_location" => B::Errno,
        "sym_stdin" => B::SymStdin,
        "sym_stdout" => B::SymStdout,
        "sysconf" => B::Sysconf,
        "getenv" | "pthread_key_delete" | "__cxa_thread_atexit_impl" | "sched_yield" | "pthread_self" | "isatty" | "tcgetattr" | "getauxval" | "gettid" | "atexit" | "sigaction"
        | "signal" | "fcntl" | "dl_iterate_phdr" | "pthread_mutex_lock" | "pthread_mutex_unlock" => B::Ret0,
        "open" | "open64" | "readv" | "writev" | "poll" | "stat64" | "fstat64" | "close" | "getcwd" | "readlink" | "lseek64" | "sched_getaffinity" | "mmap" | "mmap64" | "munmap" => B::RetM1,
        "abort" | "exit" | "_exit" => B::Abort,
        "sym_u8" => B::SymU(8),
        "sym_u16" => B::SymU(16),
        "sym_u32" => B::SymU(32),
        "sym_u64" => B::SymU(64),
        "sym_range" => B::SymRange,
        "sym_char" => B::SymChar,
        "sym_pick" => B::SymPick,
        "sym_param" => B::SymParam,
        "sym_assume" => B::SymAssume,
        "sym_assert" => B::SymAssert,
        "sym_reach" => B::SymReach,
        "sym_observe" => B::SymObserve,
        "sym_clock_set" => B::SymClock,
        "sym_narrow" => B::SymNarrow,
        "sym_is_symbolic" => B::SymIsSym,
        "sym_concretize" => B::SymConc,
        "sym_stop" => B::Stop,
        _ => {
            if n.contains("4core9panicking") && (n.contains("9panic_fmt") || n.contains("18panic_nounwind_fmt")) {
                B::Panic
            } else {
                return None;
            }
        }
    })
}

impl<'m> Exec<'m> {
    pub fn new(m: &'m Module) -> Exec<'m> {
        let mut x = Exprs::new();
        x.konst(0, 1); // index 0 is never the expression of a byte
        Exec {
            m,
            x,
            sol: Solver::new(),
            targets: (0..m.funcs.len()).map(|_| None).collect(),
            gaddr: HashMap::new(),
            consts: HashMap::new(),
            vars: HashMap::new(),
            tabcache: HashMap::new(),
            work: VecDeque::new(),
            params: Vec::new(),
            next_model: 1,
            paths: 0,
            dead: 0,
            forks: 0,
            steps: 0,
            concretized: 0,
            asserts: 0,
            asserts_const: 0,
            asserts_solver: 0,
            unknowns: 0,
            errs: BTreeMap::new(),
            samples: Vec::new(),
            reach: BTreeMap::new(),
            funcs_seen: HashSet::new(),
            max_steps: 200_000_000,
            max_samples: 64,
            fork_sites: BTreeMap::new(),
            deadline: None,
            timed_out: false,
            max_depth: 0,
            max_pc: 0,
            narrow: false,
            first_global: 0,
            rng: 88172645463325252,
        }
    }
    fn rand(&mut self) -> u64 {
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        self.rng
    }

    // ---- setup

    pub fn initial(&mut self, entry: &str) -> State {
        let mut mem = Mem::new();
        // addresses first
        let mut ids = Vec::new();
        for g in &self.m.globals {
            let size = if g.ty == Ty::Opaque { 0 } else { g.ty.size() as usize };
            let mut o = Obj::new(size);
            o.ro = g.is_const;
            let id = mem.add(o);
            if ids.is_empty() {
                self.first_global = id;
            }
            self.gaddr.insert(g.name.clone(), (id as u64) << 32);
            ids.push(id);
        }
        for (i, g) in self.m.globals.iter().enumerate() {
            if let Some(c) = &g.init {
                let mut o = Obj::new(g.ty.size() as usize);
                o.ro = g.is_const;
                self.init_bytes(&g.ty, c, &mut o.data, 0);
                *mem.get_mut(ids[i]).unwrap() = o;
            }
        }
        let fid = *self.m.func_idx.get(entry).unwrap_or_else(|| {
            eprintln!("symex: no entry {}", entry);
            std::process::exit(2)
        });
        let func = match &*self.target(fid) {
            Target::Def(f) => f.clone(),
            _ => panic!("entry isn't defined"),
        };
        let top = Frame { regs: vec![V::C(0); func.nregs as usize], func, block: 0, ip: 0, dst: NOREG, cont: None, stack_mark: 0 };
        State {
            mem,
            top,
            stack: Vec::new(),
            pc: Vec::new(),
            model: Rc::new(Vec::new()),
            model_id: 0,
            inputs: Vec::new(),
            obs: Vec::new(),
            steps: 0,
            forks: 0,
            clock: (V::C(1000), V::C(0)),
            errno: 5,
            threads: vec![Thr { top: None, stack: Vec::new(), wait: Wait::Run, resumed: None, woken: 0, tls: BTreeMap::new(), specific: BTreeMap::new() }],
            cur: 0,
            in_sched: false,
            keys: 0,
            preempts: 0,
            lates: 0,
            out: Vec::new(),
            inp: VecDeque::new(),
            key: 0,
        }
    }
    fn func_addr(&self, n: &str) -> Option<u64> {
        let n = self.m.resolve_alias(n);
        self.m.func_idx.get(&n).map(|f| ((FUNC_BASE + f) as u64) << 32)
    }
    fn caddr(&self, n: &str) -> u64 {
        let r = self.m.resolve_alias(n);
        if let Some(a) = self.gaddr.get(&r) {
            return *a;
        }
        self.func_addr(n).unwrap_or_else(|| panic!("unknown global {}", n))
    }
    fn cint(&self, t: &Ty, c: &CV) -> u128 {
        match c {
            CV::Int(i) => *i & mask(t.bits()),
            CV::Zero | CV::Undef => 0,
            CV::Global(n) => self.caddr(n) as u128,
            CV::Gep(st, base, idx) => {
                let mut a = self.cint(&Ty::Ptr, base) as u64;
                let mut cur = st.clone();
                for (k, (t, i)) in idx.iter().enumerate() {
                    let i = crate::expr::sext(self.cint(t, i), t.bits()) as i64;
                    if k == 0 {
                        a = a.wrapping_add((i.wrapping_mul(cur.size() as i64)) as u64);
                    } else {
                        let (o, ft) = cur.field(i as usize);
                        a = a.wrapping_add(o);
                        cur = ft;
                    }
                }
                a as u128
            }
            CV::Cast(b, to) => self.cint(&b.0, &b.1) & mask(to.bits()),
            CV::Bin(op, a, b) => {
                let (p, q) = (self.cint(&a.0, &a.1), self.cint(&b.0, &b.1));
                cbin(xop(*op), t.bits(), p, q)
            }
            CV::Agg(v) => {
                // a vector used as an int
                let mut r = 0u128;
                let mut s = 0;
                for (t, c) in v {
                    r |= self.cint(t, c) << s;
                    s += t.bits();
                }
                r
            }
            _ => panic!("cint {:?}", c),
        }
    }
    fn init_bytes(&self, t: &Ty, c: &CV, out: &mut [u8], off: usize) {
        match c {
            CV::Zero | CV::Undef => {}
            CV::Str(s) => out[off..off + s.len()].copy_from_slice(s),
            CV::Agg(v) => {
                for (i, (ft, fc)) in v.iter().enumerate() {
                    let (o, _) = t.field(i);
                    self.init_bytes(ft, fc, out, off + o as usize);
                }
            }
            CV::Splat(b) => {
                for i in 0..t.nfields() {
                    let (o, _) = t.field(i);
                    self.init_bytes(&b.0, &b.1, out, off + o as usize);
                }
            }
            _ => {
                let v = self.cint(t, c);
                let n = t.store_size() as usize;
                let b = v.to_le_bytes();
                out[off..off + n].copy_from_slice(&b[..n]);
            }
        }
    }
    fn const_v(&mut self, t: &Ty, c: &CV) -> V {
        match t {
            Ty::Vec(_, et) | Ty::Arr(_, et) => {
                let n = t.nfields();
                let et = et.clone();
                let mut v = Vec::with_capacity(n);
                match c {
                    CV::Agg(a) => {
                        for (t, c) in a {
                            v.push(self.const_v(t, c));
                        }
                    }
                    CV::Str(s) => {
                        for b in s.iter() {
                            v.push(V::C(*b as u64));
                        }
                    }
                    CV::Splat(b) => {
                        let x = self.const_v(&b.0, &b.1);
                        v = vec![x; n];
                    }
                    _ => {
                        let x = self.const_v(&et, &CV::Zero);
                        v = vec![x; n];
                    }
                }
                V::A(Rc::new(v))
            }
            Ty::Struct(f, _) => {
                let mut v = Vec::new();
                match c {
                    CV::Agg(a) => {
                        for (t, c) in a {
                            v.push(self.const_v(t, c));
                        }
                    }
                    _ => {
                        for t in f.iter() {
                            v.push(self.const_v(t, &CV::Zero));
                        }
                    }
                }
                V::A(Rc::new(v))
            }
            _ => {
                let k = self.cint(t, c);
                if t.bits() > 64 {
                    V::E(self.x.konst(k, t.bits()))
                } else {
                    V::C(k as u64)
                }
            }
        }
    }
    fn target(&mut self, fid: u32) -> Rc<Target> {
        if let Some(t) = &self.targets[fid as usize] {
            return t.clone();
        }
        let d = &self.m.funcs[fid as usize];
        let t = if let Some(b) = builtin_of(&d.name) {
            Target::Built(b)
        } else if d.body.is_some() {
            self.funcs_seen.insert(fid);
            Target::Def(Rc::new(self.m.parse_func(fid)))
        } else {
            Target::Missing
        };
        let t = Rc::new(t);
        self.targets[fid as usize] = Some(t.clone());
        t
    }

    // ---- values

    fn norm(&self, e: E) -> V {
        if self.x.w(e) <= 64 {
            if let Some(k) = self.x.is_const(e) {
                return V::C(k as u64);
            }
        }
        V::E(e)
    }
    fn e(&mut self, v: &V, w: u32) -> E {
        match v {
            V::C(k) => self.x.konst(*k as u128, w),
            V::E(e) => *e,
            V::A(_) => panic!("aggregate as scalar"),
        }
    }
    #[inline]
    fn val(&mut self, st: &State, o: Opd) -> V {
        match o {
            Opd::R(r) => st.top.regs[r as usize].clone(),
            Opd::C(k) => V::C(k),
            Opd::K(i) => {
                let key = (st.top.func.id, i);
                if let Some(v) = self.consts.get(&key) {
                    return v.clone();
                }
                let (t, c) = st.top.func.consts[i as usize].clone();
                let v = self.const_v(&t, &c);
                self.consts.insert(key, v.clone());
                v
            }
        }
    }
    pub fn eval(&mut self, st: &State, e: E) -> u128 {
        let m = st.model.clone();
        self.x.eval(e, &m, st.model_id)
    }
    fn eval_v(&mut self, st: &State, v: &V) -> u64 {
        match v {
            V::C(k) => *k,
            V::E(e) => self.eval(st, *e) as u64,
            V::A(_) => 0,
        }
    }

    // ---- decisions

    fn add_pc(&mut self, st: &mut State, c: E) {
        let n = self.x.nodes[c as usize];
        if n.op == Op::And && n.w == 1 {
            self.add_pc(st, n.a);
            self.add_pc(st, n.b);
            return;
        }
        if self.x.is_const(c).is_some() || st.pc.contains(&c) {
            return;
        }
        st.pc.push(c);
        self.max_pc = self.max_pc.max(st.pc.len());
    }
    fn with_model(&mut self, st: &mut State, m: &[(u32, u64)]) {
        let mut v = (*st.model).clone();
        for (i, x) in m {
            while v.len() <= *i as usize {
                let k = v.len();
                v.push(self.x.vars[k].lo);
            }
            v[*i as usize] = *x;
        }
        if v != *st.model {
            st.model = Rc::new(v);
            st.model_id = self.next_model;
            self.next_model += 1;
        }
    }
    /// truth of a condition on this path, forking when both sides are possible. The instruction
    /// must not have had any effect yet: the other side restarts it.
    fn decide(&mut self, st: &mut State, c: E) -> R<bool> {
        if let Some(k) = self.x.is_const(c) {
            return Ok(k != 0);
        }
        let nc = self.x.not(c);
        for p in st.pc.iter().rev() {
            if *p == c {
                return Ok(true);
            }
            if *p == nc {
                return Ok(false);
            }
        }
        let side = self.eval(st, c) != 0;
        let (mine, other) = if side { (c, nc) } else { (nc, c) };
        let (r, m) = self.sol.check(&mut self.x, &st.pc, other);
        match r {
            Verdict::Sat => {
                let mut o = st.clone();
                self.with_model(&mut o, &m);
                self.add_pc(&mut o, other);
                debug_assert!(self.eval(&o, other) != 0);
                o.forks += 1;
                st.forks += 1;
                self.forks += 1;
                if self.fork_sites.len() < 2000 {
                    let site = format!("{} {}", short_name(&st.top.func.name), st.top.func.blocks[st.top.block as usize].name);
                    *self.fork_sites.entry(site).or_default() += 1;
                }
                self.work.push_back(o);
                self.add_pc(st, mine);
            }
            Verdict::Unsat => {
                // implied: remembering it speeds up the next syntactic lookups
            }
            Verdict::Unknown => {
                self.unknowns += 1;
                self.add_pc(st, mine);
            }
        }
        Ok(side)
    }
    fn decide_v(&mut self, st: &mut State, v: &V) -> R<bool> {
        match v {
            V::C(k) => Ok(*k & 1 != 0),
            V::E(e) => self.decide(st, *e),
            _ => panic!(),
        }
    }
    fn conc(&mut self, st: &mut State, v: &V, w: u32) -> R<u64> {
        match v {
            V::C(k) => Ok(*k),
            V::E(e) => {
                let k = self.eval(st, *e);
                let ke = self.x.konst(k, w);
                let c = self.x.cmp(Op::Eq, *e, ke);
                let n = self.forks;
                let r = self.decide(st, c)?;
                if self.forks > n {
                    self.concretized += 1;
                }
                debug_assert!(r);
                Ok(k as u64)
            }
            _ => panic!("conc of aggregate"),
        }
    }

    // ---- memory access

    fn oob<T>(&self, st: &State, a: u64, n: u64, what: &str) -> R<T> {
        let id = (a >> 32) as u32;
        let d = match st.mem.get(id) {
            Some(o) => format!("offset {} size {} in an object of {} bytes", a as u32, n, o.data.len()),
            None => format!("no live object at {:#x}", a),
        };
        err("memory", format!("invalid {}: {}", what, d))
    }
    /// concrete address or fork over the objects
    fn addr(&mut self, st: &mut State, p: &V, n: u64, what: &str) -> R<Result<u64, (u32, E)>> {
        match p {
            V::C(a) => Ok(Ok(*a)),
            V::E(e) => {
                // which object?
                let a = self.eval(st, *e) as u64;
                let id = (a >> 32) as u32;
                let size = match st.mem.get(id) {
                    Some(o) => o.data.len() as u64,
                    None => 0,
                };
                if size < n || (a & 0xffff_ffff) + n > size {
                    // make it an error only for the paths having this address in this state: fork it out
                    let k = self.x.konst(a as u128, 64);
                    let c = self.x.cmp(Op::Eq, *e, k);
                    self.decide(st, c)?;
                    return self.oob(st, a, n, what);
                }
                let base = (id as u64) << 32;
                let m = self.x.meta[*e as usize];
                if !(m.lo >= base && m.hi <= base + size - n) {
                    let kb = self.x.konst(base as u128, 64);
                    let kl = self.x.konst((size - n + 1) as u128, 64);
                    let off = self.x.bin(Op::Sub, *e, kb);
                    let c = self.x.cmp(Op::Ult, off, kl);
                    self.decide(st, c)?;
                }
                Ok(Err((id, *e)))
            }
            _ => panic!("pointer"),
        }
    }
    fn load_scalar(&mut self, st: &mut State, p: &V, bytes: usize, w: u32) -> R<V> {
        match self.addr(st, p, bytes as u64, "read")? {
            Ok(a) => {
                let id = (a >> 32) as u32;
                let off = (a & 0xffff_ffff) as usize;
                let o = match st.mem.get(id) {
                    Some(o) if off + bytes <= o.data.len() => o,
                    _ => return self.oob(st, a, bytes as u64, "read"),
                };
                if bytes <= 8 && o.is_conc(off, bytes) {
                    let mut v = o.le(off, bytes);
                    if w < 64 {
                        v &= (1u64 << w) - 1;
                    }
                    return Ok(V::C(v));
                }
                let o = o.clone();
                Ok(self.read_bytes(&o, off, bytes, w))
            }
            Err((id, e)) => {
                let o = st.mem.get(id).unwrap().clone();
                if o.ro {
                    if let Some(Some(r)) = self.tabcache.get(&(id, e, bytes as u32)) {
                        return Ok(self.norm(*r));
                    }
                }
                let base = (id as u64) << 32;
                if bytes <= 8 && o.sym.as_ref().map_or(true, |s| s.iter().all(|x| *x == 0)) {
                    if let Some((v, t)) = self.x.tabulate(e) {
                        let lo = self.x.vars[v as usize].lo;
                        let mut runs: Vec<(u32, u64)> = Vec::new();
                        let msk = mask(w) as u64;
                        for (i, a) in t.iter().enumerate() {
                            let off = a.wrapping_sub(base);
                            if off > (o.data.len() - bytes) as u64 {
                                continue; // excluded by the path condition
                            }
                            let val = o.le(off as usize, bytes) & msk;
                            if runs.last().map_or(true, |l| l.1 != val) {
                                let pos = if runs.is_empty() { 0 } else { lo as u32 + i as u32 };
                                runs.push((pos, val));
                            }
                        }
                        if !runs.is_empty() && runs.len() < 60_000 {
                            let r = self.x.tab(v, runs, w);
                            if o.ro {
                                self.tabcache.insert((id, e, bytes as u32), Some(r));
                            }
                            return Ok(self.norm(r));
                        }
                    }
                }
                // few possible offsets: a chain of choices
                let m = self.x.meta[e as usize];
                let lo = m.lo.max(base);
                let hi = m.hi.min(base + (o.data.len() - bytes) as u64);
                if hi >= lo && hi - lo < 64 {
                    let mut acc: Option<E> = None;
                    for a in (lo..=hi).rev() {
                        let v = self.read_bytes(&o, (a - base) as usize, bytes, w);
                        let v = self.e(&v, w);
                        acc = Some(match acc {
                            None => v,
                            Some(r) => {
                                let k = self.x.konst(a as u128, 64);
                                let c = self.x.cmp(Op::Eq, e, k);
                                self.x.ite(c, v, r)
                            }
                        });
                    }
                    return Ok(self.norm(acc.unwrap()));
                }
                let a = self.conc(st, &V::E(e), 64)?;
                self.load_scalar(st, &V::C(a), bytes, w)
            }
        }
    }
    fn byte(&mut self, o: &Obj, i: usize) -> E {
        match &o.sym {
            Some(s) if s[i] != 0 => s[i],
            _ => self.x.konst(o.data[i] as u128, 8),
        }
    }
    fn read_bytes(&mut self, o: &Obj, off: usize, bytes: usize, w: u32) -> V {
        if bytes <= 8 && o.is_conc(off, bytes) {
            return V::C(o.le(off, bytes) & mask(w) as u64);
        }
        let mut acc = self.byte(o, off + bytes - 1);
        for i in (0..bytes - 1).rev() {
            let b = self.byte(o, off + i);
            acc = self.x.concat(acc, b);
        }
        if w < bytes as u32 * 8 {
            acc = self.x.extract(acc, 0, w);
        }
        self.norm(acc)
    }
    fn load(&mut self, st: &mut State, t: &Ty, p: &V) -> R<V> {
        match t {
            Ty::Vec(..) | Ty::Arr(..) | Ty::Struct(..) => {
                if let Ty::Vec(n, et) = t {
                    if et.bits() < 8 {
                        let w = n * et.bits();
                        let v = self.load_scalar(st, p, t.store_size() as usize, w)?;
                        return Ok(self.split_bits(&v, *n, et.bits()));
                    }
                }
                // one symbolic address: decided once
                let p = match p {
                    V::E(_) => V::C(self.conc(st, p, 64)?),
                    p => p.clone(),
                };
                let V::C(a) = p else { unreachable!() };
                let n = t.nfields();
                let mut v = Vec::with_capacity(n);
                for i in 0..n {
                    let (o, ft) = t.field(i);
                    v.push(self.load(st, &ft, &V::C(a + o))?);
                }
                Ok(V::A(Rc::new(v)))
            }
            _ => self.load_scalar(st, p, t.store_size() as usize, t.bits()),
        }
    }
    fn split_bits(&mut self, v: &V, n: u32, w: u32) -> V {
        let mut out = Vec::with_capacity(n as usize);
        for i in 0..n {
            out.push(match v {
                V::C(k) => V::C((k >> (i * w)) & mask(w) as u64),
                V::E(e) => {
                    let x = self.x.extract(*e, i * w, w);
                    self.norm(x)
                }
                _ => panic!(),
            });
        }
        V::A(Rc::new(out))
    }
    fn join_bits(&mut self, v: &[V], w: u32) -> V {
        let mut acc = self.e(&v[0], w);
        for x in &v[1..] {
            let e = self.e(x, w);
            acc = self.x.concat(e, acc);
        }
        self.norm(acc)
    }
    fn store(&mut self, st: &mut State, t: &Ty, v: &V, a: u64) -> R<()> {
        match t {
            Ty::Vec(..) | Ty::Arr(..) | Ty::Struct(..) => {
                let V::A(f) = v else { panic!("store of aggregate") };
                if let Ty::Vec(n, et) = t {
                    if et.bits() < 8 {
                        let j = self.join_bits(f, et.bits());
                        return self.store_scalar(st, a, &j, t.store_size() as usize, n * et.bits());
                    }
                }
                for i in 0..t.nfields() {
                    let (o, ft) = t.field(i);
                    self.store(st, &ft, &f[i], a + o)?;
                }
                Ok(())
            }
            _ => self.store_scalar(st, a, v, t.store_size() as usize, t.bits()),
        }
    }
    fn store_scalar(&mut self, st: &mut State, a: u64, v: &V, bytes: usize, w: u32) -> R<()> {
        let id = (a >> 32) as u32;
        let off = (a & 0xffff_ffff) as usize;
        match st.mem.get(id) {
            Some(o) if off + bytes <= o.data.len() && !o.ro => {}
            _ => return self.oob(st, a, bytes as u64, "write"),
        }
        match v {
            V::C(k) => st.mem.get_mut(id).unwrap().put(off, bytes, *k),
            V::E(e) => {
                let mut e = *e;
                if w < bytes as u32 * 8 {
                    e = self.x.zext(e, bytes as u32 * 8);
                }
                let parts: Vec<E> = (0..bytes).map(|i| self.x.extract(e, i as u32 * 8, 8)).collect();
                let o = st.mem.get_mut(id).unwrap();
                for (i, p) in parts.into_iter().enumerate() {
                    o.put_byte(&self.x, off + i, p);
                }
            }
            _ => panic!(),
        }
        Ok(())
    }

    // ---- scalar operations

    fn bin(&mut self, op: BinOp, w: u32, a: &V, b: &V) -> V {
        if let (V::C(p), V::C(q)) = (a, b) {
            let (p, q) = (*p, *q);
            let m = if w >= 64 { u64::MAX } else { (1u64 << w) - 1 };
            let r = match op {
                BinOp::Add => p.wrapping_add(q),
                BinOp::Sub => p.wrapping_sub(q),
                BinOp::Mul => p.wrapping_mul(q),
                BinOp::And => p & q,
                BinOp::Or => p | q,
                BinOp::Xor => p ^ q,
                BinOp::Shl if q < w as u64 => p << q,
                BinOp::LShr if q < w as u64 => p >> q,
                BinOp::FAdd | BinOp::FSub | BinOp::FMul | BinOp::FDiv | BinOp::FRem => return V::C(cfp_bin(op, w, p, q)),
                _ => cbin(xop(op), w, p as u128, q as u128) as u64,
            };
            return V::C(r & m);
        }
        let p = self.e(a, w);
        let q = self.e(b, w);
        let r = match op {
            BinOp::FAdd => self.x.fp(Op::FAdd, w, p, q),
            BinOp::FSub => self.x.fp(Op::FSub, w, p, q),
            BinOp::FMul => self.x.fp(Op::FMul, w, p, q),
            BinOp::FDiv => self.x.fp(Op::FDiv, w, p, q),
            _ => self.x.bin(xop(op), p, q),
        };
        self.norm(r)
    }
    /// An addition or a subtraction which, in the state, can be done on few bits (which makes the
    /// multiplications and divisions using it cheaper)
    fn narrow_bin(&mut self, st: &State, op: BinOp, a: &V, b: &V) -> V {
        let (V::E(p), w) = (a, 64) else { return self.bin(op, 64, a, b) };
        let p = *p;
        // the number subtracted
        let q = match (op, b) {
            (BinOp::Sub, _) => self.e(b, w),
            (BinOp::Add, V::C(k)) if *k >> 63 == 1 => self.x.konst(0u64.wrapping_sub(*k) as u128, w),
            _ => return self.bin(op, 64, a, b),
        };
        let (ma, mb) = (self.x.meta[p as usize], self.x.meta[q as usize]);
        let k = (64 - ma.hi.leading_zeros()).max(1);
        if k > w / 2 || ma.lo >= mb.hi {
            return self.bin(op, 64, a, b);
        }
        let neg = self.x.cmp(Op::Ult, p, q);
        let never = match self.x.is_const(neg) {
            Some(v) => v == 0,
            None => self.eval(st, neg) == 0 && matches!(self.sol.check(&mut self.x, &st.pc, neg).0, Verdict::Unsat),
        };
        if !never {
            return self.bin(op, 64, a, b);
        }
        let p = self.x.extract(p, 0, k);
        let q = self.x.extract(q, 0, k);
        let d = self.x.bin(Op::Sub, p, q);
        let r = self.x.zext(d, w);
        self.norm(r)
    }
    fn cmp(&mut self, p: Pred, w: u32, a: &V, b: &V) -> V {
        if let (V::C(x), V::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let s = |v: u64| if w >= 64 { v as i64 } else { ((v << (64 - w)) as i64) >> (64 - w) };
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Sgt => s(x) > s(y),
                Pred::Sge => s(x) >= s(y),
                Pred::Slt => s(x) < s(y),
                Pred::Sle => s(x) <= s(y),
            };
            return V::C(r as u64);
        }
        let x = self.e(a, w);
        let y = self.e(b, w);
        let r = match p {
            Pred::Eq => self.x.cmp(Op::Eq, x, y),
            Pred::Ne => {
                let r = self.x.cmp(Op::Eq, x, y);
                self.x.not(r)
            }
            Pred::Ugt => self.x.cmp(Op::Ult, y, x),
            Pred::Uge => self.x.cmp(Op::Ule, y, x),
            Pred::Ult => self.x.cmp(Op::Ult, x, y),
            Pred::Ule => self.x.cmp(Op::Ule, x, y),
            Pred::Sgt => self.x.cmp(Op::Slt, y, x),
            Pred::Sge => self.x.cmp(Op::Sle, y, x),
            Pred::Slt => self.x.cmp(Op::Slt, x, y),
            Pred::Sle => self.x.cmp(Op::Sle, x, y),
        };
        self.norm(r)
    }
    fn ite_v(&mut self, c: E, a: &V, b: &V, t: &Ty) -> V {
        match (a, b) {
            (V::A(x), V::A(y)) => {
                let v = (0..x.len())
                    .map(|i| {
                        let (_, ft) = t.field(i);
                        self.ite_v(c, &x[i], &y[i], &ft)
                    })
                    .collect();
                V::A(Rc::new(v))
            }
            _ => {
                let w = t.bits();
                let x = self.e(a, w);
                let y = self.e(b, w);
                let r = self.x.ite(c, x, y);
                self.norm(r)
            }
        }
    }
    fn cast(&mut self, op: CastOp, from: &Ty, to: &Ty, a: &V) -> V {
        match (from, to) {
            (Ty::Vec(n, f), Ty::Vec(n2, t)) if n == n2 && op != CastOp::BitCast => {
                let V::A(v) = a else { panic!() };
                return V::A(Rc::new(v.iter().map(|x| self.cast(op, f, t, x)).collect()));
            }
            (Ty::Vec(_, f), t) if op == CastOp::BitCast => {
                let V::A(v) = a else { panic!() };
                let j = self.join_bits(v, f.bits());
                return match t {
                    Ty::Vec(n, t) => self.split_bits(&j, *n, t.bits()),
                    _ => j,
                };
            }
            (_, Ty::Vec(n, t)) if op == CastOp::BitCast => return self.split_bits(a, *n, t.bits()),
            _ => {}
        }
        let (wf, wt) = (from.bits(), to.bits());
        match op {
            CastOp::BitCast => a.clone(),
            CastOp::Trunc | CastOp::PtrToInt | CastOp::IntToPtr | CastOp::ZExt => match a {
                V::C(k) if wt <= 64 => V::C(*k & mask(wt) as u64),
                _ => {
                    let e = self.e(a, wf);
                    let r = if wt < wf { self.x.extract(e, 0, wt) } else { self.x.zext(e, wt) };
                    self.norm(r)
                }
            },
            CastOp::SExt => {
                let e = self.e(a, wf);
                let r = self.x.sext(e, wt);
                self.norm(r)
            }
            _ => {
                let o = match op {
                    CastOp::FpTrunc => Op::FpTrunc,
                    CastOp::FpExt => Op::FpExt,
                    CastOp::FpToUi => Op::FpToUi,
                    CastOp::FpToSi => Op::FpToSi,
                    CastOp::UiToFp => Op::UiToFp,
                    _ => Op::SiToFp,
                };
                let e = self.e(a, wf);
                let r = self.x.fp(o, wt, e, 0);
                self.norm(r)
            }
        }
    }
    fn fcmp(&mut self, p: &str, w: u32, a: &V, b: &V) -> V {
        let x = self.e(a, w);
        let y = self.e(b, w);
        let un = self.x.fp(Op::FUno, 1, x, y);
        let (neg, base) = match p {
            "oeq" => (false, self.x.fp(Op::FOrdEq, 1, x, y)),
            "ogt" => (false, self.x.fp(Op::FOrdLt, 1, y, x)),
            "oge" => (false, self.x.fp(Op::FOrdLe, 1, y, x)),
            "olt" => (false, self.x.fp(Op::FOrdLt, 1, x, y)),
            "ole" => (false, self.x.fp(Op::FOrdLe, 1, x, y)),
            "une" => (true, self.x.fp(Op::FOrdEq, 1, x, y)),
            "ule" => (true, self.x.fp(Op::FOrdLt, 1, y, x)),
            "ult" => (true, self.x.fp(Op::FOrdLe, 1, y, x)),
            "uge" => (true, self.x.fp(Op::FOrdLt, 1, x, y)),
            "ugt" => (true, self.x.fp(Op::FOrdLe, 1, x, y)),
            "uno" => (false, un),
            "ord" => (true, un),
            "one" => {
                let e = self.x.fp(Op::FOrdEq, 1, x, y);
                (true, self.x.or(e, un))
            }
            "ueq" => {
                let e = self.x.fp(Op::FOrdEq, 1, x, y);
                (false, self.x.or(e, un))
            }
            _ => panic!("fcmp {}", p),
        };
        let r = if neg { self.x.not(base) } else { base };
        self.norm(r)
    }

    // ---- main loop

    /// run a state to its end (or to its first fork), siblings are queued
    pub fn run(&mut self, mut st: State, until_fork: bool) -> Option<State> {
        let n0 = self.work.len();
        let mut tick = 0u32;
        if let Some(d) = self.deadline {
            if Instant::now() > d {
                self.timed_out = true;
                return Some(st);
            }
        }
        loop {
            match self.step(&mut st) {
                Ok(()) => {}
                Err(s) => {
                    self.finish(st, s);
                    return None;
                }
            }
            st.steps += 1;
            self.steps += 1;
            if st.steps > self.max_steps {
                self.finish(st, Stop::Err("steps".into(), "instruction limit of a path".into()));
                return None;
            }
            if until_fork && self.work.len() > n0 {
                return Some(st);
            }
            tick += 1;
            if tick & 0x3ff == 0 {
                if let Some(d) = self.deadline {
                    if Instant::now() > d {
                        self.timed_out = true;
                        return Some(st);
                    }
                }
            }
        }
    }
    fn input_vals(&mut self, st: &State) -> Vec<u64> {
        st.inputs
            .iter()
            .map(|i| match i {
                Input::Conc(k) => *k,
                Input::Var(v) => st.model.get(*v as usize).copied().unwrap_or(self.x.vars[*v as usize].lo),
            })
            .collect()
    }
    fn trace(&self, st: &State) -> Vec<String> {
        let mut v = vec![short_name(&st.top.func.name)];
        for f in st.stack.iter().rev() {
            v.push(short_name(&f.func.name));
        }
        v
    }
    fn record_err(&mut self, st: &State, kind: &str, what: &str) {
        let trace = self.trace(st);
        // site: innermost frame which isn't core/alloc/std
        let site = trace
            .iter()
            .find(|f| !(f.starts_with("core::") || f.starts_with("alloc::") || f.starts_with("std::")))
            .cloned()
            .unwrap_or_default();
        let site = if kind == "assert" || kind == "panic" { String::new() } else { site };
        let key = (kind.to_string(), what.to_string(), site.clone());
        if let Some(r) = self.errs.get_mut(&key) {
            r.0 += 1;
            return;
        }
        let inputs = self.input_vals(st);
        let r = ErrRec { kind: kind.into(), what: what.into(), site, inputs, trace };
        self.errs.insert(key, (1, r));
    }
    fn finish(&mut self, st: State, s: Stop) {
        match s {
            Stop::Dead | Stop::Switched => self.dead += 1,
            Stop::Err(k, w) => {
                self.paths += 1;
                self.record_err(&st, &k, &w);
            }
            Stop::End => {
                self.paths += 1;
                // reservoir
                let n = self.paths;
                let take = if self.samples.len() < self.max_samples {
                    Some(self.samples.len())
                } else {
                    let k = self.rand() % n;
                    if (k as usize) < self.max_samples {
                        Some(k as usize)
                    } else {
                        None
                    }
                };
                if let Some(k) = take {
                    let inputs = self.input_vals(&st);
                    let obs = st.obs.clone();
                    let obs = obs.iter().map(|v| self.eval_v(&st, v)).collect();
                    let r = PathRec { inputs, obs };
                    if k < self.samples.len() {
                        self.samples[k] = r;
                    } else {
                        self.samples.push(r);
                    }
                }
            }
        }
    }

    fn jump(&mut self, st: &mut State, to: u32) {
        let from = st.top.block;
        let f = st.top.func.clone();
        let b = &f.blocks[to as usize];
        if !b.phis.is_empty() {
            let mut vals: Vec<V> = Vec::with_capacity(b.phis.len());
            for (_, inc) in &b.phis {
                let o = inc.iter().find(|(p, _)| *p == from).expect("phi").1;
                vals.push(self.val(st, o));
            }
            for ((d, _), v) in b.phis.iter().zip(vals) {
                st.top.regs[*d as usize] = v;
            }
        }
        st.top.block = to;
        st.top.ip = 0;
    }
    #[inline]
    fn set(st: &mut State, d: u32, v: V) {
        if d != NOREG {
            st.top.regs[d as usize] = v;
        }
    }

    fn step(&mut self, st: &mut State) -> R<()> {
        if st.in_sched {
            return self.sched_step(st);
        }
        let f = st.top.func.clone();
        let ins = &f.blocks[st.top.block as usize].ins[st.top.ip as usize];
        match ins {
            Ins::Bin { op, w, vec, a, b, d } => {
                let x = self.val(st, *a);
                let y = self.val(st, *b);
                let r = if *vec > 0 {
                    let (V::A(p), V::A(q)) = (&x, &y) else { panic!() };
                    V::A(Rc::new((0..*vec as usize).map(|i| self.bin(*op, *w, &p[i], &q[i])).collect()))
                } else if self.narrow && *w == 64 && matches!(op, BinOp::Add | BinOp::Sub) {
                    self.narrow_bin(st, *op, &x, &y)
                } else {
                    self.bin(*op, *w, &x, &y)
                };
                Self::set(st, *d, r);
            }
            Ins::FNeg { w, a, d } => {
                let x = self.val(st, *a);
                let k = V::C(1u64 << (w - 1));
                let r = self.bin(BinOp::Xor, *w, &x, &k);
                Self::set(st, *d, r);
            }
            Ins::Cmp { p, w, vec, a, b, d } => {
                let x = self.val(st, *a);
                let y = self.val(st, *b);
                let r = if *vec > 0 {
                    let (V::A(pp), V::A(q)) = (&x, &y) else { panic!() };
                    V::A(Rc::new((0..*vec as usize).map(|i| self.cmp(*p, *w, &pp[i], &q[i])).collect()))
                } else {
                    self.cmp(*p, *w, &x, &y)
                };
                Self::set(st, *d, r);
            }
            Ins::FCmp { p, w, a, b, d } => {
                let x = self.val(st, *a);
                let y = self.val(st, *b);
                let r = self.fcmp(p, *w, &x, &y);
                Self::set(st, *d, r);
            }
            Ins::Select { c, vec, a, b, d, ty } => {
                let cv = self.val(st, *c);
                let x = self.val(st, *a);
                let y = self.val(st, *b);
                let r = if *vec > 0 {
                    let (V::A(cc), V::A(p), V::A(q)) = (&cv, &x, &y) else { panic!() };
                    let (_, et) = ty.field(0);
                    V::A(Rc::new(
                        (0..*vec as usize)
                            .map(|i| match &cc[i] {
                                V::C(k) => if k & 1 != 0 { p[i].clone() } else { q[i].clone() },
                                V::E(e) => self.ite_v(*e, &p[i], &q[i], &et),
                                _ => panic!(),
                            })
                            .collect(),
                    ))
                } else {
                    match &cv {
                        V::C(k) => if k & 1 != 0 { x } else { y },
                        V::E(e) => {
                            let split = **ty == Ty::Ptr && {
                                let (p, q) = (self.eval_v(st, &x), self.eval_v(st, &y));
                                p >> 32 != q >> 32
                            };
                            if split {
                                if self.decide(st, *e)? { x } else { y }
                            } else {
                                self.ite_v(*e, &x, &y, ty)
                            }
                        }
                        _ => panic!(),
                    }
                };
                Self::set(st, *d, r);
            }
            Ins::Cast { op, from, to, a, d } => {
                let x = self.val(st, *a);
                let r = self.cast(*op, from, to, &x);
                Self::set(st, *d, r);
            }
            Ins::Gep { base, off, idx, d } => {
                let b = self.val(st, *base);
                let mut acc = match b {
                    V::C(k) => V::C(k.wrapping_add(*off as u64)),
                    V::E(e) => {
                        let k = self.x.konst(*off as u64 as u128, 64);
                        let r = self.x.bin(Op::Add, e, k);
                        self.norm(r)
                    }
                    _ => panic!("vector gep"),
                };
                for (o, w, scale) in idx {
                    let i = self.val(st, *o);
                    let t = match i {
                        V::C(k) => {
                            let k = if *w < 64 { crate::expr::sext(k as u128, *w) as i64 } else { k as i64 };
                            V::C(k.wrapping_mul(*scale) as u64)
                        }
                        V::E(e) => {
                            let e = if *w < 64 { self.x.sext(e, 64) } else { e };
                            let s = self.x.konst(*scale as u64 as u128, 64);
                            let r = self.x.bin(Op::Mul, e, s);
                            self.norm(r)
                        }
                        _ => panic!(),
                    };
                    acc = self.bin(BinOp::Add, 64, &acc, &t);
                }
                Self::set(st, *d, acc);
            }
            Ins::Load { ty, p, d } => {
                let pv = self.val(st, *p);
                let r = self.load(st, ty, &pv)?;
                Self::set(st, *d, r);
            }
            Ins::Store { ty, v, p } => {
                let pv = self.val(st, *p);
                let vv = self.val(st, *v);
                let a = self.conc(st, &pv, 64)?;
                self.store(st, ty, &vv, a)?;
            }
            Ins::Alloca { size, n, d } => {
                let k = match n {
                    Some(o) => {
                        let v = self.val(st, *o);
                        self.conc(st, &v, 64)?
                    }
                    None => 1,
                };
                let o = Obj::new((size * k) as usize);
                let id = if st.cur == 0 { st.mem.push_stack(o) } else { st.mem.add(o) };
                Self::set(st, *d, V::C((id as u64) << 32));
            }
            Ins::ExtractValue { a, idx, d } => {
                let mut v = self.val(st, *a);
                for i in idx {
                    let V::A(f) = &v else { panic!("extractvalue") };
                    let n = f[*i as usize].clone();
                    v = n;
                }
                Self::set(st, *d, v);
            }
            Ins::InsertValue { a, v, idx, d } => {
                let base = self.val(st, *a);
                let nv = self.val(st, *v);
                let r = Self::insert(&base, idx, nv);
                Self::set(st, *d, r);
            }
            Ins::ExtractElement { a, i, d } => {
                let v = self.val(st, *a);
                let iv = self.val(st, *i);
                let k = self.conc(st, &iv, 64)?;
                let V::A(f) = &v else { panic!() };
                let r = f.get(k as usize).cloned().unwrap_or(V::C(0));
                Self::set(st, *d, r);
            }
            Ins::InsertElement { a, v, i, d } => {
                let base = self.val(st, *a);
                let nv = self.val(st, *v);
                let iv = self.val(st, *i);
                let k = self.conc(st, &iv, 64)?;
                let V::A(f) = &base else { panic!() };
                let mut f = (**f).clone();
                f[k as usize] = nv;
                Self::set(st, *d, V::A(Rc::new(f)));
            }
            Ins::Shuffle { a, b, n, mask, d } => {
                let x = self.val(st, *a);
                let y = self.val(st, *b);
                let (V::A(p), V::A(q)) = (&x, &y) else { panic!() };
                let r = mask
                    .iter()
                    .map(|m| {
                        if *m < 0 {
                            p[0].clone()
                        } else if (*m as u32) < *n {
                            p[*m as usize].clone()
                        } else {
                            q[*m as usize - *n as usize].clone()
                        }
                    })
                    .collect();
                Self::set(st, *d, V::A(Rc::new(r)));
            }
            Ins::AtomicRmw { op, ty, p, v, d } => {
                let pv = self.val(st, *p);
                let nv = self.val(st, *v);
                let a = self.conc(st, &pv, 64)?;
                let w = ty.bits();
                let old = self.load_scalar(st, &V::C(a), ty.store_size() as usize, w)?;
                let new = match &**op {
                    "xchg" => nv,
                    "add" => self.bin(BinOp::Add, w, &old, &nv),
                    "sub" => self.bin(BinOp::Sub, w, &old, &nv),
                    "and" => self.bin(BinOp::And, w, &old, &nv),
                    "or" => self.bin(BinOp::Or, w, &old, &nv),
                    "xor" => self.bin(BinOp::Xor, w, &old, &nv),
                    "umax" | "umin" => {
                        let c = self.cmp(if &**op == "umax" { Pred::Ugt } else { Pred::Ult }, w, &old, &nv);
                        if self.decide_v(st, &c)? { old.clone() } else { nv }
                    }
                    _ => return err("unsupported", format!("atomicrmw {}", op)),
                };
                self.store_scalar(st, a, &new, ty.store_size() as usize, w)?;
                Self::set(st, *d, old);
            }
            Ins::CmpXchg { ty, p, c, n, d } => {
                let pv = self.val(st, *p);
                let cv = self.val(st, *c);
                let nv = self.val(st, *n);
                let a = self.conc(st, &pv, 64)?;
                let w = ty.bits();
                let old = self.load_scalar(st, &V::C(a), ty.store_size() as usize, w)?;
                let eq = self.cmp(Pred::Eq, w, &old, &cv);
                let ok = self.decide_v(st, &eq)?;
                if ok {
                    self.store_scalar(st, a, &nv, ty.store_size() as usize, w)?;
                }
                Self::set(st, *d, V::A(Rc::new(vec![old, V::C(ok as u64)])));
            }
            Ins::Mov { a, d } => {
                let v = self.val(st, *a);
                Self::set(st, *d, v);
            }
            Ins::Nop => {}
            Ins::Br(t) => {
                self.jump(st, *t);
                return Ok(());
            }
            Ins::CondBr(c, t, e) => {
                let v = self.val(st, *c);
                let r = self.decide_v(st, &v)?;
                self.jump(st, if r { *t } else { *e });
                return Ok(());
            }
            Ins::Switch { v, w, def, cases } => {
                let x = self.val(st, *v);
                let k = match &x {
                    V::C(k) => *k as u128,
                    V::E(e) => self.eval(st, *e),
                    _ => panic!(),
                };
                let t = cases.iter().find(|c| c.0 == k).map_or(*def, |c| c.1);
                if let V::E(e) = &x {
                    // the values leading to the same place
                    let mut acc = self.x.f();
                    for (kk, l) in cases {
                        if (*l == t) != (t == *def) {
                            let ke = self.x.konst(*kk, *w);
                            let c = self.x.cmp(Op::Eq, *e, ke);
                            acc = self.x.or(acc, c);
                        }
                    }
                    if t == *def {
                        acc = self.x.not(acc);
                    }
                    let r = self.decide(st, acc)?;
                    debug_assert!(r);
                }
                self.jump(st, t);
                return Ok(());
            }
            Ins::Ret(v) => {
                let v = match v {
                    Some(o) => Some(self.val(st, *o)),
                    None => None,
                };
                if st.cur == 0 {
                    st.mem.stack.truncate(st.top.stack_mark as usize);
                }
                let Some(prev) = st.stack.pop() else {
                    if st.cur == 0 {
                        return Err(Stop::End);
                    }
                    let cur = st.cur;
                    st.threads[cur].wait = Wait::Done;
                    for t in st.threads.iter_mut() {
                        if matches!(t.wait, Wait::Join(k) if k == cur) {
                            t.wait = Wait::Run;
                            t.resumed = Some(Resumed::Woken);
                        }
                    }
                    st.in_sched = true;
                    return Ok(());
                };
                let dst = st.top.dst;
                let cont = st.top.cont;
                let prev = Rc::try_unwrap(prev).unwrap_or_else(|r| (*r).clone());
                st.top = prev;
                if let Some(v) = v {
                    Self::set(st, dst, v);
                }
                match cont {
                    Some(b) => self.jump(st, b),
                    None => st.top.ip += 1,
                }
                return Ok(());
            }
            Ins::Unreachable => return err("unreachable", "unreachable code reached"),
            Ins::LandingPad | Ins::Resume => return err("unsupported", "unwinding"),
            Ins::Call { f: callee, args, arg_tys, ret, d, invoke } => {
                let mut av: Vec<V> = Vec::with_capacity(args.len());
                for a in args {
                    av.push(self.val(st, *a));
                }
                let fid = match callee {
                    Callee::Direct(f) => *f,
                    Callee::Indirect(o) => {
                        let p = self.val(st, *o);
                        let a = self.conc(st, &p, 64)?;
                        let id = (a >> 32) as u32;
                        if id < FUNC_BASE || id >= FUNC_BASE + self.m.funcs.len() as u32 || a as u32 != 0 {
                            return err("memory", format!("call of a bad function pointer {:#x}", a));
                        }
                        id - FUNC_BASE
                    }
                    Callee::Asm(real) => {
                        if *real {
                            return err("unsupported", "inline assembly");
                        }
                        let z = if **ret == Ty::Void { V::C(0) } else { self.const_v(ret, &CV::Zero) };
                        Self::set(st, *d, z);
                        return self.after_call(st, *invoke);
                    }
                };
                let t = self.target(fid);
                match &*t {
                    Target::Def(func) => {
                        if st.stack.len() > 4000 {
                            return err("stack", "recursion too deep");
                        }
                        let mut regs = vec![V::C(0); func.nregs as usize];
                        for ((r, _), v) in func.params.iter().zip(av) {
                            regs[*r as usize] = v;
                        }
                        let nf = Frame {
                            func: func.clone(),
                            regs,
                            block: 0,
                            ip: 0,
                            dst: *d,
                            cont: invoke.map(|i| i.0),
                            stack_mark: st.mem.stack.len() as u32,
                        };
                        let old = std::mem::replace(&mut st.top, nf);
                        st.stack.push(Rc::new(old));
                        self.max_depth = self.max_depth.max(st.stack.len());
                        return Ok(());
                    }
                    Target::Built(b) => {
                        let r = match self.builtin(st, *b, &av, arg_tys, ret) {
                            Err(Stop::Switched) => return Ok(()),
                            r => r?,
                        };
                        Self::set(st, *d, r);
                        return self.after_call(st, *invoke);
                    }
                    Target::Missing => {
                        return err("unsupported", format!("external function {}", self.m.funcs[fid as usize].name));
                    }
                }
            }
        }
        st.top.ip += 1;
        Ok(())
    }
    fn after_call(&mut self, st: &mut State, invoke: Option<(u32, u32)>) -> R<()> {
        match invoke {
            Some((n, _)) => self.jump(st, n),
            None => st.top.ip += 1,
        }
        Ok(())
    }
    fn insert(base: &V, idx: &[u32], nv: V) -> V {
        let V::A(f) = base else { panic!("insertvalue") };
        let mut f = (**f).clone();
        let i = idx[0] as usize;
        f[i] = if idx.len() == 1 { nv } else { Self::insert(&f[i], &idx[1..], nv) };
        V::A(Rc::new(f))
    }

    // ---- builtins

    fn map1(&mut self, t: &Ty, v: &V, f: &mut dyn FnMut(&mut Self, u32, &V) -> V) -> V {
        match (t, v) {
            (Ty::Vec(_, et), V::A(x)) => V::A(Rc::new(x.iter().map(|y| f(self, et.bits(), y)).collect())),
            _ => f(self, t.bits(), v),
        }
    }
    fn map2(&mut self, t: &Ty, a: &V, b: &V, f: &mut dyn FnMut(&mut Self, u32, &V, &V) -> V) -> V {
        match (t, a, b) {
            (Ty::Vec(_, et), V::A(x), V::A(y)) => V::A(Rc::new(x.iter().zip(y.iter()).map(|(p, q)| f(self, et.bits(), p, q)).collect())),
            _ => f(self, t.bits(), a, b),
        }
    }
    fn pick(&mut self, p: Pred, w: u32, a: &V, b: &V) -> V {
        // a if a p b else b
        let c = self.cmp(p, w, a, b);
        match c {
            V::C(k) => if k != 0 { a.clone() } else { b.clone() },
            V::E(e) => self.ite_v(e, a, b, &Ty::Int(w)),
            _ => panic!(),
        }
    }
    fn choose(&mut self, c: &V, w: u32, a: &V, b: &V) -> V {
        match c {
            V::C(k) => if *k != 0 { a.clone() } else { b.clone() },
            V::E(e) => self.ite_v(*e, a, b, &Ty::Int(w)),
            _ => panic!(),
        }
    }
    fn overflow(&mut self, b: B, w: u32, a: &V, c: &V) -> V {
        let (r, o) = match b {
            B::UAddO => {
                let r = self.bin(BinOp::Add, w, a, c);
                let o = self.cmp(Pred::Ult, w, &r, a);
                let o = self.interval_ov(o, w, a, c, |p, q| p + q);
                (r, o)
            }
            B::USubO => {
                let r = self.bin(BinOp::Sub, w, a, c);
                (r, self.cmp(Pred::Ult, w, a, c))
            }
            B::UMulO => {
                let r = self.bin(BinOp::Mul, w, a, c);
                let o = match (a, c) {
                    (V::E(p), V::E(q)) if w <= 64 && (self.x.meta[*p as usize].hi as u128) * (self.x.meta[*q as usize].hi as u128) <= mask(w) => V::C(0),
                    (V::C(p), V::C(q)) => V::C(((*p as u128) * (*q as u128) > mask(w)) as u64),
                    (x, V::C(k)) | (V::C(k), x) => {
                        if *k == 0 {
                            V::C(0)
                        } else {
                            let lim = V::C((mask(w) / *k as u128) as u64);
                            self.cmp(Pred::Ugt, w, x, &lim)
                        }
                    }
                    _ => {
                        let p = self.e(a, w);
                        let q = self.e(c, w);
                        let (mp, mq) = (self.x.meta[p as usize].hi as u128, self.x.meta[q as usize].hi as u128);
                        if mp * mq <= mask(w) {
                            V::C(0)
                        } else {
                            let p2 = self.x.zext(p, 2 * w);
                            let q2 = self.x.zext(q, 2 * w);
                            let m = self.x.bin(Op::Mul, p2, q2);
                            let h = self.x.extract(m, w, w);
                            let z = self.x.konst(0, w);
                            let e = self.x.cmp(Op::Eq, h, z);
                            let n = self.x.not(e);
                            self.norm(n)
                        }
                    }
                };
                (r, o)
            }
            B::SAddO | B::SSubO => {
                let p = self.e(a, w);
                let q = self.e(c, w);
                let op = if b == B::SAddO { Op::Add } else { Op::Sub };
                let r = self.x.bin(op, p, q);
                if w <= 64 {
                    let (mp, mq) = (self.x.meta[p as usize], self.x.meta[q as usize]);
                    let half = mask(w) >> 1;
                    let pos = mp.hi as u128 <= half && mq.hi as u128 <= half;
                    if pos && (b == B::SSubO || mp.hi as u128 + mq.hi as u128 <= half) {
                        let r = self.norm(r);
                        return V::A(Rc::new(vec![r, V::C(0)]));
                    }
                }
                let p2 = self.x.sext(p, w + 1);
                let q2 = self.x.sext(q, w + 1);
                let wide = self.x.bin(op, p2, q2);
                let r2 = self.x.sext(r, w + 1);
                let e = self.x.cmp(Op::Eq, wide, r2);
                let o = self.x.not(e);
                (self.norm(r), self.norm(o))
            }
            _ => {
                let p = self.e(a, w);
                let q = self.e(c, w);
                let r = self.x.bin(Op::Mul, p, q);
                let (mp, mq) = (self.x.meta[p as usize].hi as u128, self.x.meta[q as usize].hi as u128);
                if w <= 64 && mp * mq <= mask(w) / 2 {
                    (self.norm(r), V::C(0))
                } else {
                    let p2 = self.x.sext(p, 2 * w);
                    let q2 = self.x.sext(q, 2 * w);
                    let wide = self.x.bin(Op::Mul, p2, q2);
                    let r2 = self.x.sext(r, 2 * w);
                    let e = self.x.cmp(Op::Eq, wide, r2);
                    let o = self.x.not(e);
                    (self.norm(r), self.norm(o))
                }
            }
        };
        V::A(Rc::new(vec![r, o]))
    }
    fn interval_ov(&mut self, o: V, w: u32, a: &V, c: &V, f: impl Fn(u128, u128) -> u128) -> V {
        if let V::E(_) = o {
            let p = self.e(a, w);
            let q = self.e(c, w);
            if w <= 64 {
                let (mp, mq) = (self.x.meta[p as usize].hi as u128, self.x.meta[q as usize].hi as u128);
                if f(mp, mq) <= mask(w) {
                    return V::C(0);
                }
            }
        }
        o
    }
    fn bits_v(&mut self, b: B, w: u32, v: &V) -> V {
        match v {
            V::C(k) => {
                let k = *k;
                V::C(match b {
                    B::Ctlz => {
                        if k == 0 {
                            w as u64
                        } else {
                            (k.leading_zeros() - (64 - w)) as u64
                        }
                    }
                    B::Cttz => {
                        if k == 0 {
                            w as u64
                        } else {
                            k.trailing_zeros() as u64
                        }
                    }
                    B::Ctpop => k.count_ones() as u64,
                    B::Bswap => k.swap_bytes() >> (64 - w),
                    _ => k.reverse_bits() >> (64 - w),
                })
            }
            V::E(e) => {
                let e = *e;
                let r = match b {
                    B::Bswap => {
                        let n = w / 8;
                        let mut acc = self.x.extract(e, 0, 8);
                        for i in 1..n {
                            let y = self.x.extract(e, i * 8, 8);
                            acc = self.x.concat(acc, y);
                        }
                        acc
                    }
                    B::Bitrev => {
                        let mut acc = self.x.extract(e, 0, 1);
                        for i in 1..w {
                            let y = self.x.extract(e, i, 1);
                            acc = self.x.concat(acc, y);
                        }
                        acc
                    }
                    B::Ctpop => {
                        let mut acc = self.x.konst(0, w);
                        for i in 0..w {
                            let y = self.x.extract(e, i, 1);
                            let y = self.x.zext(y, w);
                            acc = self.x.bin(Op::Add, acc, y);
                        }
                        acc
                    }
                    _ => {
                        let mut acc = self.x.konst(w as u128, w);
                        let it: Vec<u32> = if b == B::Ctlz { (0..w).collect() } else { (0..w).rev().collect() };
                        for i in it {
                            let y = self.x.extract(e, i, 1);
                            let k = self.x.konst(if b == B::Ctlz { (w - 1 - i) as u128 } else { i as u128 }, w);
                            acc = self.x.ite(y, k, acc);
                        }
                        acc
                    }
                };
                self.norm(r)
            }
            _ => panic!(),
        }
    }
    fn round(&mut self, op: Op, t: &Ty, v: &V) -> V {
        let w = t.bits();
        let e = self.e(v, w);
        let r = self.x.fp(op, w, e, 0);
        self.norm(r)
    }
    fn copy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 || d == s {
            return Ok(());
        }
        let (n, so, dof) = (n as usize, (s & 0xffff_ffff) as usize, (d & 0xffff_ffff) as usize);
        let src = match st.mem.get((s >> 32) as u32) {
            Some(o) if so + n <= o.data.len() => o.clone(),
            _ => return self.oob(st, s, n as u64, "read (memcpy)"),
        };
        let did = (d >> 32) as u32;
        match st.mem.get(did) {
            Some(o) if dof + n <= o.data.len() && !o.ro => {}
            _ => return self.oob(st, d, n as u64, "write (memcpy)"),
        }
        if did == (s >> 32) as u32 {
            let o = st.mem.get_mut(did).unwrap();
            drop(src);
            o.data.copy_within(so..so + n, dof);
            if let Some(y) = &mut o.sym {
                y.copy_within(so..so + n, dof);
            }
            return Ok(());
        }
        let o = st.mem.get_mut(did).unwrap();
        o.data[dof..dof + n].copy_from_slice(&src.data[so..so + n]);
        match &src.sym {
            Some(y) if y[so..so + n].iter().any(|e| *e != 0) => {
                let len = o.data.len();
                let ds = o.sym.get_or_insert_with(|| vec![0; len]);
                ds[dof..dof + n].copy_from_slice(&y[so..so + n]);
            }
            _ => {
                if let Some(ds) = &mut o.sym {
                    for e in &mut ds[dof..dof + n] {
                        *e = 0;
                    }
                }
            }
        }
        Ok(())
    }
    fn malloc(&mut self, st: &mut State, n: u64) -> R<V> {
        if n > 0x0800_0000 {
            return Ok(V::C(0));
        }
        let mut o = Obj::new(n as usize);
        o.heap = true;
        let id = st.mem.add(o);
        if id >= FUNC_BASE {
            return err("unsupported", "too many allocations");
        }
        Ok(V::C((id as u64) << 32))
    }
    fn str_at(&mut self, st: &State, p: u64, n: u64) -> String {
        match st.mem.get((p >> 32) as u32) {
            Some(o) => {
                let off = (p & 0xffff_ffff) as usize;
                let end = (off + n as usize).min(o.data.len());
                String::from_utf8_lossy(&o.data[off..end]).into_owned()
            }
            None => String::new(),
        }
    }
    fn new_input(&mut self, st: &mut State, w: u32, lo: u64, hi: u64) -> E {
        let ord = st.inputs.len() as u32;
        let key = (ord, w, lo, hi);
        let idx = match self.vars.get(&key) {
            Some(i) => *i,
            None => {
                let e = self.x.new_var(&format!("in{}", ord), w, lo, hi);
                let i = self.x.var_of(e).unwrap();
                self.vars.insert(key, i);
                i
            }
        };
        // a fresh value for the model, within the range
        let mut m = (*st.model).clone();
        while m.len() <= idx as usize {
            let k = m.len();
            m.push(self.x.vars[k].lo);
        }
        m[idx as usize] = lo;
        st.model = Rc::new(m);
        st.model_id = self.next_model;
        self.next_model += 1;
        st.inputs.push(Input::Var(idx));
        self.x.var_expr(idx)
    }
    /// fork in n concrete alternatives, as an input
    fn pick_input(&mut self, st: &mut State, n: u64) -> u64 {
        // siblings restart the instruction with `key` telling which alternative to take
        if st.key > 0 {
            let k = st.key - 1;
            st.key = 0;
            return k;
        }
        for k in (1..n).rev() {
            let mut o = st.clone();
            o.key = k + 1;
            o.forks += 1;
            self.forks += 1;
            self.work.push_back(o);
        }
        0
    }
    // ---- threads

    /// (s, n) <= (t, m)
    fn time_le(&mut self, st: &mut State, a: &(V, V), b: &(V, V)) -> R<bool> {
        let k = |s: &mut Self, v: &V| match v {
            V::C(k) => s.x.konst(*k as u128, 64),
            V::E(e) => *e,
            _ => panic!(),
        };
        let (s, n) = (k(self, &a.0), k(self, &a.1));
        let (t, m) = (k(self, &b.0), k(self, &b.1));
        let lt = self.x.cmp(Op::Ult, s, t);
        let eq = self.x.cmp(Op::Eq, s, t);
        let le = self.x.cmp(Op::Ule, n, m);
        let both = self.x.and(eq, le);
        let c = self.x.or(lt, both);
        self.decide(st, c)
    }
    fn deadline_of(t: &Thr) -> Option<(V, V)> {
        match &t.wait {
            Wait::Futex(_, d) => d.clone(),
            Wait::Sleep(s, n) => Some((s.clone(), n.clone())),
            _ => None,
        }
    }
    /// the current thread stops until something happens
    fn block<T>(&mut self, st: &mut State, w: Wait) -> R<T> {
        let cur = st.cur;
        st.threads[cur].wait = w;
        st.in_sched = true;
        Err(Stop::Switched)
    }
    /// a place where the current thread may be interrupted
    fn preempt(&mut self, st: &mut State) -> R<()> {
        let cur = st.cur;
        if st.threads[cur].resumed.take().is_some() || st.preempts == 0 {
            return Ok(());
        }
        let others = st.threads.iter().enumerate().any(|(i, t)| i != cur && matches!(t.wait, Wait::Run));
        if !others {
            return Ok(());
        }
        let k = self.pick_input(st, 2);
        st.inputs.push(Input::Conc(k));
        if k == 1 {
            st.preempts -= 1;
            st.threads[cur].resumed = Some(Resumed::Again);
            return self.block(st, Wait::Run);
        }
        Ok(())
    }
    /// choice of the next thread, or of letting the time go on
    fn sched_step(&mut self, st: &mut State) -> R<()> {
        let run: Vec<usize> = (0..st.threads.len()).filter(|i| matches!(st.threads[*i].wait, Wait::Run)).collect();
        let timed: Vec<usize> = (0..st.threads.len()).filter(|i| Self::deadline_of(&st.threads[*i]).is_some()).collect();
        let time = !timed.is_empty() && (run.is_empty() || st.lates > 0);
        let n = run.len() + time as usize;
        if n == 0 {
            return err("blocked", "all the threads wait");
        }
        // the first deadline, before anything is changed
        let mut k = 0;
        if n > 1 {
            k = self.pick_input(st, n as u64) as usize;
        }
        if k < run.len() {
            if n > 1 {
                st.inputs.push(Input::Conc(k as u64));
            }
            let (cur, to) = (st.cur, run[k]);
            if cur != to {
                let t = &mut st.threads[to];
                let top = t.top.take().unwrap();
                let stack = std::mem::take(&mut t.stack);
                let otop = std::mem::replace(&mut st.top, top);
                let ostack = std::mem::replace(&mut st.stack, stack);
                st.threads[cur].top = Some(otop);
                st.threads[cur].stack = ostack;
                st.cur = to;
            }
            st.in_sched = false;
            return Ok(());
        }
        // the choice is made again if a comparison forks
        let fork = |s: &mut Self, st: &mut State, a: &(V, V), b: &(V, V)| {
            st.key = if n > 1 { k as u64 + 1 } else { 0 };
            let r = s.time_le(st, a, b);
            st.key = 0;
            r
        };
        let mut first = Self::deadline_of(&st.threads[timed[0]]).unwrap();
        for i in &timed[1..] {
            let d = Self::deadline_of(&st.threads[*i]).unwrap();
            if !fork(self, st, &first, &d)? {
                first = d;
            }
        }
        let clock = st.clock.clone();
        let clock = if fork(self, st, &clock, &first)? { first } else { clock };
        let mut over = Vec::new();
        for i in &timed {
            let d = Self::deadline_of(&st.threads[*i]).unwrap();
            if fork(self, st, &d, &clock)? {
                over.push(*i);
            }
        }
        if n > 1 {
            st.inputs.push(Input::Conc(k as u64));
            st.lates -= 1;
        }
        st.clock = clock;
        for i in over {
            st.threads[i].wait = Wait::Run;
            st.threads[i].resumed = Some(Resumed::TimedOut);
        }
        Ok(())
    }
    fn futex(&mut self, st: &mut State, a: &[V], ret: &Ty) -> R<V> {
        let addr = self.conc(st, &a[1], 64)?;
        let op = self.conc(st, &a[2], 32)? & 0x7f;
        let cur = st.cur;
        match op {
            // wait, wait_bitset
            0 | 9 => {
                match st.threads[cur].resumed.take() {
                    Some(Resumed::TimedOut) => {
                        st.errno = 110;
                        return Ok(V::C(mask(ret.bits()) as u64));
                    }
                    Some(_) => return Ok(V::C(0)),
                    None => {}
                }
                let want = self.conc(st, &a[3], 32)?;
                let v = self.load_scalar(st, &V::C(addr), 4, 32)?;
                if self.conc(st, &v, 32)? != want {
                    st.errno = 11;
                    return Ok(V::C(mask(ret.bits()) as u64));
                }
                let p = self.conc(st, &a[4], 64)?;
                let d = if p == 0 {
                    None
                } else if op == 9 {
                    Some((self.load_scalar(st, &V::C(p), 8, 64)?, self.load_scalar(st, &V::C(p + 8), 8, 64)?))
                } else {
                    return err("unsupported", "relative futex wait");
                };
                self.block(st, Wait::Futex(addr, d))
            }
            // wake, wake_bitset
            1 | 10 => {
                // the thread may be interrupted after having woken others
                if st.threads[cur].resumed.take().is_some() {
                    return Ok(V::C(st.threads[cur].woken));
                }
                if st.key > 0 {
                    // only the choice is left
                    self.preempt(st)?;
                    return Ok(V::C(st.threads[cur].woken));
                }
                let n = self.conc(st, &a[3], 32)?;
                let mut woken = 0;
                for t in st.threads.iter_mut() {
                    if woken < n && matches!(t.wait, Wait::Futex(x, _) if x == addr) {
                        t.wait = Wait::Run;
                        t.resumed = Some(Resumed::Woken);
                        woken += 1;
                    }
                }
                st.threads[cur].woken = woken;
                self.preempt(st)?;
                Ok(V::C(woken))
            }
            _ => err("unsupported", format!("futex operation {}", op)),
        }
    }
    fn builtin(&mut self, st: &mut State, b: B, a: &[V], tys: &[Ty], ret: &Ty) -> R<V> {
        Ok(match b {
            B::Nop => V::C(0),
            B::Ret0 => V::C(0),
            B::RetM1 => V::C(mask(ret.bits()) as u64),
            B::Malloc => {
                let n = self.conc(st, &a[0], 64)?;
                self.malloc(st, n)?
            }
            B::Calloc => {
                let n = self.conc(st, &a[0], 64)?;
                let k = self.conc(st, &a[1], 64)?;
                self.malloc(st, n.saturating_mul(k))?
            }
            B::PosixMemalign => {
                let p = self.conc(st, &a[0], 64)?;
                let n = self.conc(st, &a[2], 64)?;
                let r = self.malloc(st, n)?;
                self.store_scalar(st, p, &r, 8, 64)?;
                V::C(0)
            }
            B::Free => {
                let p = self.conc(st, &a[0], 64)?;
                if p != 0 {
                    let ok = p as u32 == 0 && st.mem.get((p >> 32) as u32).map_or(false, |o| o.heap);
                    if !ok {
                        return err("memory", format!("bad free of {:#x}", p));
                    }
                    st.mem.free((p >> 32) as u32);
                }
                V::C(0)
            }
            B::Realloc => {
                let p = self.conc(st, &a[0], 64)?;
                let n = self.conc(st, &a[1], 64)?;
                let r = self.malloc(st, n)?;
                let V::C(q) = r else { unreachable!() };
                if q != 0 && p != 0 {
                    let old = match st.mem.get((p >> 32) as u32) {
                        Some(o) if o.heap && p as u32 == 0 => o.data.len() as u64,
                        _ => return err("memory", format!("bad realloc of {:#x}", p)),
                    };
                    self.copy(st, q, p, old.min(n))?;
                    st.mem.free((p >> 32) as u32);
                }
                r
            }
            B::Memcpy => {
                let n = self.conc(st, &a[2], tys[2].bits())?;
                let d = self.conc(st, &a[0], 64)?;
                let s = self.conc(st, &a[1], 64)?;
                self.copy(st, d, s, n)?;
                V::C(d)
            }
            B::Memset => {
                let n = self.conc(st, &a[2], tys[2].bits())? as usize;
                let d = self.conc(st, &a[0], 64)?;
                if n > 0 {
                    let off = (d & 0xffff_ffff) as usize;
                    let id = (d >> 32) as u32;
                    match st.mem.get(id) {
                        Some(o) if off + n <= o.data.len() && !o.ro => {}
                        _ => return self.oob(st, d, n as u64, "write (memset)"),
                    }
                    let v = match &a[1] {
                        V::E(e) if self.x.w(*e) > 8 => {
                            let r = self.x.extract(*e, 0, 8);
                            self.norm(r)
                        }
                        v => v.clone(),
                    };
                    for i in 0..n {
                        self.store_scalar(st, d + i as u64, &v, 1, 8)?;
                    }
                }
                V::C(d)
            }
            B::Bcmp | B::Memcmp => {
                let n = self.conc(st, &a[2], 64)?;
                let p = self.conc(st, &a[0], 64)?;
                let q = self.conc(st, &a[1], 64)?;
                if n == 0 {
                    return Ok(V::C(0));
                }
                let mut acc = self.x.konst(0, 32);
                let mut eq = self.x.t();
                for i in (0..n).rev() {
                    let x = self.load_scalar(st, &V::C(p + i), 1, 8)?;
                    let y = self.load_scalar(st, &V::C(q + i), 1, 8)?;
                    let x = self.e(&x, 8);
                    let y = self.e(&y, 8);
                    let c = self.x.cmp(Op::Eq, x, y);
                    if b == B::Bcmp {
                        eq = self.x.and(c, eq);
                        if self.x.is_const(eq) == Some(0) {
                            return Ok(V::C(1));
                        }
                    } else {
                        let lt = self.x.cmp(Op::Ult, x, y);
                        let k1 = self.x.konst(1, 32);
                        let km = self.x.konst(u32::MAX as u128, 32);
                        let dif = self.x.ite(lt, km, k1);
                        acc = self.x.ite(c, acc, dif);
                    }
                }
                if b == B::Bcmp {
                    let k1 = self.x.konst(1, 32);
                    let k0 = self.x.konst(0, 32);
                    let r = self.x.ite(eq, k0, k1);
                    self.norm(r)
                } else {
                    self.norm(acc)
                }
            }
            B::Strlen => {
                let p = self.conc(st, &a[0], 64)?;
                let mut n = 0;
                loop {
                    let v = self.load_scalar(st, &V::C(p + n), 1, 8)?;
                    if self.conc(st, &v, 8)? == 0 {
                        break;
                    }
                    n += 1;
                }
                V::C(n)
            }
            B::Getrandom => {
                let p = self.conc(st, &a[0], 64)?;
                let n = self.conc(st, &a[1], 64)?;
                for i in 0..n {
                    self.store_scalar(st, p + i, &V::C((i * 37 + 11) & 0xff), 1, 8)?;
                }
                V::C(n)
            }
            B::Syscall => {
                let k = self.conc(st, &a[0], 64)?;
                if k == 318 {
                    return self.builtin(st, B::Getrandom, &a[1..], &tys[1..], ret);
                }
                if k == 202 {
                    return self.futex(st, a, ret);
                }
                return err("unsupported", format!("syscall {}", k));
            }
            B::Clock => {
                let p = self.conc(st, &a[1], 64)?;
                self.preempt(st)?;
                let (s, n) = st.clock.clone();
                self.store_scalar(st, p, &s, 8, 64)?;
                self.store_scalar(st, p + 8, &n, 8, 64)?;
                V::C(0)
            }
            B::Write => {
                let fd = self.conc(st, &a[0], 32)?;
                let p = self.conc(st, &a[1], 64)?;
                let n = self.conc(st, &a[2], 64)?;
                if fd == 1 {
                    for i in 0..n {
                        let v = self.load_scalar(st, &V::C(p + i), 1, 8)?;
                        st.out.push(v);
                    }
                }
                V::C(n)
            }
            B::Read => {
                let fd = self.conc(st, &a[0], 32)?;
                let p = self.conc(st, &a[1], 64)?;
                let n = self.conc(st, &a[2], 64)?;
                if fd != 0 {
                    V::C(u64::MAX)
                } else {
                    let mut i = 0;
                    while i < n {
                        match st.inp.pop_front() {
                            Some(v) => self.store_scalar(st, p + i, &v, 1, 8)?,
                            None => break,
                        }
                        i += 1;
                    }
                    V::C(i)
                }
            }
            B::Ioctl => {
                // TIOCGWINSZ: a terminal of 80 columns and 24 rows
                if self.conc(st, &a[1], 64)? as u32 != 0x5413 {
                    return Ok(V::C(mask(ret.bits()) as u64));
                }
                let p = self.conc(st, &a[2], 64)?;
                for (i, v) in [24, 80, 0, 0].iter().enumerate() {
                    self.store_scalar(st, p + 2 * i as u64, &V::C(*v), 2, 16)?;
                }
                V::C(0)
            }
            B::Errno => {
                let v = self.malloc(st, 8)?;
                let p = self.conc(st, &v, 64)?;
                self.store_scalar(st, p, &V::C(st.errno), 4, 32)?;
                st.errno = 5; // EIO
                v
            }
            B::SymStdin => {
                st.inp.push_back(a[0].clone());
                V::C(0)
            }
            B::SymStdout => {
                let i = self.conc(st, &a[0], 64)? as usize;
                match st.out.get(i) {
                    Some(V::C(k)) => V::C(*k),
                    Some(V::E(e)) => {
                        let z = self.x.zext(*e, 16);
                        self.norm(z)
                    }
                    _ => V::C(256),
                }
            }
            B::Sysconf => V::C(4096),
            B::Abort => return err("abort", "abort() called"),
            B::Trap => return err("trap", "trap"),
            B::Panic => {
                // the last argument is a &Location
                let mut what = String::from("panic");
                if let Some(V::C(p)) = a.last() {
                    let f = self.load_scalar(st, &V::C(*p), 8, 64);
                    let n = self.load_scalar(st, &V::C(*p + 8), 8, 64);
                    let l = self.load_scalar(st, &V::C(*p + 16), 4, 32);
                    if let (Ok(V::C(f)), Ok(V::C(n)), Ok(V::C(l))) = (f, n, l) {
                        let s = self.str_at(st, f, n.min(300));
                        let s = match s.find("/src/") {
                            Some(i) if s.starts_with('/') => {
                                let pre = &s[..i];
                                let k = pre.rfind('/').map_or(0, |k| k + 1);
                                s[k..].to_string()
                            }
                            _ => s,
                        };
                        what = format!("panic at {}:{}", s, l);
                    }
                }
                return err("panic", what);
            }
            B::UMin => self.map2(ret, &a[0], &a[1], &mut |s, w, x, y| s.pick(Pred::Ult, w, x, y)),
            B::UMax => self.map2(ret, &a[0], &a[1], &mut |s, w, x, y| s.pick(Pred::Ugt, w, x, y)),
            B::SMin => self.map2(ret, &a[0], &a[1], &mut |s, w, x, y| s.pick(Pred::Slt, w, x, y)),
            B::SMax => self.map2(ret, &a[0], &a[1], &mut |s, w, x, y| s.pick(Pred::Sgt, w, x, y)),
            B::USubSat => self.map2(ret, &a[0], &a[1], &mut |s, w, x, y| {
                let d = s.bin(BinOp::Sub, w, x, y);
                let c = s.cmp(Pred::Ult, w, x, y);
                s.choose(&c, w, &V::C(0), &d)
            }),
            B::UAddSat => self.map2(ret, &a[0], &a[1], &mut |s, w, x, y| {
                let d = s.bin(BinOp::Add, w, x, y);
                let c = s.cmp(Pred::Ult, w, &d, x);
                let c = s.interval_ov(c, w, x, y, |p, q| p + q);
                s.choose(&c, w, &V::C(mask(w) as u64), &d)
            }),
            B::SAddSat | B::SSubSat => self.map2(ret, &a[0], &a[1], &mut |s, w, x, y| {
                let o = s.overflow(if b == B::SAddSat { B::SAddO } else { B::SSubO }, w, x, y);
                let V::A(o) = o else { unreachable!() };
                let neg = s.cmp(Pred::Slt, w, x, &V::C(0));
                let lim = s.choose(&neg, w, &V::C(1u64 << (w - 1)), &V::C((mask(w) >> 1) as u64));
                s.choose(&o[1], w, &lim, &o[0])
            }),
            B::UAddO | B::USubO | B::UMulO | B::SAddO | B::SSubO | B::SMulO => {
                let w = tys[0].bits();
                self.overflow(b, w, &a[0], &a[1])
            }
            B::Ctlz | B::Cttz | B::Ctpop | B::Bswap | B::Bitrev => self.map1(ret, &a[0], &mut |s, w, v| s.bits_v(b, w, v)),
            B::Fshl | B::Fshr => {
                let w = ret.bits();
                let k = self.conc(st, &a[2], w)? % w as u64;
                if k == 0 {
                    if b == B::Fshl { a[0].clone() } else { a[1].clone() }
                } else {
                    let (l, r) = if b == B::Fshl { (k, w as u64 - k) } else { (w as u64 - k, k) };
                    let h = self.bin(BinOp::Shl, w, &a[0], &V::C(l));
                    let lo = self.bin(BinOp::LShr, w, &a[1], &V::C(r));
                    self.bin(BinOp::Or, w, &h, &lo)
                }
            }
            B::Abs => {
                let w = ret.bits();
                let n = self.bin(BinOp::Sub, w, &V::C(0), &a[0]);
                let c = self.cmp(Pred::Slt, w, &a[0], &V::C(0));
                self.choose(&c, w, &n, &a[0])
            }
            B::UCmp | B::SCmp => {
                let w = tys[0].bits();
                let wr = ret.bits();
                let lt = self.cmp(if b == B::UCmp { Pred::Ult } else { Pred::Slt }, w, &a[0], &a[1]);
                let eq = self.cmp(Pred::Eq, w, &a[0], &a[1]);
                let x = self.choose(&eq, wr, &V::C(0), &V::C(1));
                self.choose(&lt, wr, &V::C(mask(wr) as u64), &x)
            }
            B::IsConstant => V::C(0),
            B::Assume => V::C(0),
            B::Expect => a[0].clone(),
            B::Tls => {
                if st.cur == 0 {
                    return Ok(a[0].clone());
                }
                let p = self.conc(st, &a[0], 64)?;
                let id = (p >> 32) as u32;
                if let Some(q) = st.threads[st.cur].tls.get(&id) {
                    return Ok(V::C(*q + (p & 0xffff_ffff)));
                }
                // its initial content
                let g = &self.m.globals[id as usize - self.first_global as usize];
                let mut o = Obj::new(g.ty.size() as usize);
                if let Some(c) = &g.init {
                    self.init_bytes(&g.ty, c, &mut o.data, 0);
                }
                let q = (st.mem.add(o) as u64) << 32;
                let cur = st.cur;
                st.threads[cur].tls.insert(id, q);
                V::C(q + (p & 0xffff_ffff))
            }
            B::ThreadCreate => {
                self.preempt(st)?;
                let p = self.conc(st, &a[0], 64)?;
                let f = self.conc(st, &a[2], 64)?;
                let fid = (f >> 32) as u32 - FUNC_BASE;
                let Target::Def(func) = &*self.target(fid) else { return err("unsupported", "thread function") };
                let mut regs = vec![V::C(0); func.nregs as usize];
                regs[func.params[0].0 as usize] = a[3].clone();
                let top = Frame { regs, func: func.clone(), block: 0, ip: 0, dst: NOREG, cont: None, stack_mark: 0 };
                st.threads.push(Thr { top: Some(top), stack: Vec::new(), wait: Wait::Run, resumed: None, woken: 0, tls: BTreeMap::new(), specific: BTreeMap::new() });
                self.store_scalar(st, p, &V::C(st.threads.len() as u64 - 1), 8, 64)?;
                V::C(0)
            }
            B::KeyCreate => {
                let p = self.conc(st, &a[0], 64)?;
                st.keys += 1;
                self.store_scalar(st, p, &V::C(st.keys), 4, 32)?;
                V::C(0)
            }
            B::SetSpecific => {
                let k = self.conc(st, &a[0], 32)?;
                let cur = st.cur;
                st.threads[cur].specific.insert(k, a[1].clone());
                V::C(0)
            }
            B::GetSpecific => {
                let k = self.conc(st, &a[0], 32)?;
                st.threads[st.cur].specific.get(&k).cloned().unwrap_or(V::C(0))
            }
            B::ThreadJoin => {
                let t = self.conc(st, &a[0], 64)? as usize;
                if !matches!(st.threads[t].wait, Wait::Done) {
                    return self.block(st, Wait::Join(t));
                }
                let cur = st.cur;
                st.threads[cur].resumed = None;
                V::C(0)
            }
            B::SymThreads => {
                st.preempts = self.conc(st, &a[0], 64)?;
                st.lates = self.conc(st, &a[1], 64)?;
                V::C(0)
            }
            B::SymSleep => {
                let cur = st.cur;
                if st.threads[cur].resumed.take().is_none() {
                    let s = self.bin(BinOp::Add, 64, &st.clock.0.clone(), &a[0]);
                    let n = st.clock.1.clone();
                    return self.block(st, Wait::Sleep(s, n));
                }
                V::C(0)
            }
            B::PtrMask => self.bin(BinOp::And, 64, &a[0], &a[1]),
            B::ObjectSize => V::C(u64::MAX),
            B::FFloor => self.round(Op::FRtn, ret, &a[0]),
            B::FCeil => self.round(Op::FRtp, ret, &a[0]),
            B::FTrunc => self.round(Op::FRtz, ret, &a[0]),
            B::FRound => self.round(Op::FRna, ret, &a[0]),
            B::FAbs => {
                let w = ret.bits();
                self.bin(BinOp::And, w, &a[0], &V::C((mask(w) >> 1) as u64))
            }
            B::FMinNum | B::FMaxNum => {
                // the other operand when one is a NaN. The sign of the zero is the one of the
                // first operand when both are null
                let w = ret.bits();
                let x = self.e(&a[0], w);
                let y = self.e(&a[1], w);
                let nx = self.x.fp(Op::FUno, 1, x, x);
                let ny = self.x.fp(Op::FUno, 1, y, y);
                let take_y = if b == B::FMinNum { self.x.fp(Op::FOrdLt, 1, y, x) } else { self.x.fp(Op::FOrdLt, 1, x, y) };
                let r = self.x.ite(take_y, y, x);
                let r = self.x.ite(nx, y, r);
                let r = self.x.ite(ny, x, r);
                self.norm(r)
            }
            B::FpToUiSat | B::FpToSiSat => {
                let wf = tys[0].bits();
                let w = ret.bits();
                let e = self.e(&a[0], wf);
                let fk = |s: &mut Self, v: f64| {
                    let k = if wf == 32 { (v as f32).to_bits() as u128 } else { v.to_bits() as u128 };
                    s.x.konst(k, wf)
                };
                let nan = self.x.fp(Op::FUno, 1, e, e);
                let (lo, hi, vlo, vhi) = if b == B::FpToUiSat {
                    (0f64, 2f64.powi(w as i32), 0u128, mask(w))
                } else {
                    (-(2f64.powi(w as i32 - 1)), 2f64.powi(w as i32 - 1), 1u128 << (w - 1), mask(w) >> 1)
                };
                let kl = fk(self, lo);
                let kh = fk(self, hi);
                let isl = self.x.fp(Op::FOrdLt, 1, e, kl);
                let ish = self.x.fp(Op::FOrdLe, 1, kh, e);
                let conv = self.x.fp(if b == B::FpToUiSat { Op::FpToUi } else { Op::FpToSi }, w, e, 0);
                let vl = self.x.konst(vlo, w);
                let vh = self.x.konst(vhi, w);
                let z = self.x.konst(0, w);
                let r = self.x.ite(ish, vh, conv);
                let r = self.x.ite(isl, vl, r);
                let r = self.x.ite(nan, z, r);
                self.norm(r)
            }
            B::ReduceOr | B::ReduceAnd | B::ReduceAdd => {
                let V::A(v) = &a[0] else { panic!() };
                let w = ret.bits();
                let mut acc = v[0].clone();
                for x in &v[1..] {
                    acc = self.bin(
                        match b {
                            B::ReduceOr => BinOp::Or,
                            B::ReduceAnd => BinOp::And,
                            _ => BinOp::Add,
                        },
                        w,
                        &acc,
                        x,
                    );
                }
                acc
            }
            B::MaskedLoad => return err("unsupported", "masked load"),
            // ---- interface of the harness
            B::SymU(w) => {
                let e = self.new_input(st, w, 0, mask(w) as u64);
                V::E(e)
            }
            B::SymRange => {
                let lo = self.conc(st, &a[0], 64)?;
                let hi = self.conc(st, &a[1], 64)?;
                if lo == hi {
                    st.inputs.push(Input::Conc(lo));
                    return Ok(V::C(lo));
                }
                if lo > hi {
                    return Err(Stop::Dead);
                }
                // the domain is small when the range is: tables over the variable are possible
                let w = 64 - hi.leading_zeros();
                let w = if w <= 8 { 8 } else if w <= 16 { 16 } else if w <= 32 { 32 } else { 64 };
                let e = self.new_input(st, w, lo, hi);
                let z = self.x.zext(e, 64);
                V::E(z)
            }
            B::SymChar => {
                // by class of utf8 length: bit 0: 1 byte, .. bit 3: 4 bytes
                let m = self.conc(st, &a[0], 32)?;
                let cl: Vec<(u64, u64)> = [(0, 0x7f), (0x80, 0x7ff), (0x800, 0xd7ff), (0xe000, 0xffff), (0x10000, 0x10ffff)]
                    .iter()
                    .enumerate()
                    .filter(|(i, _)| m >> [0, 1, 2, 2, 3][*i] & 1 == 1)
                    .map(|(_, r)| *r)
                    .collect();
                let k = self.pick_input(st, cl.len() as u64);
                let (lo, hi) = cl[k as usize];
                let e = self.new_input(st, 32, lo, hi);
                V::E(e)
            }
            B::SymPick => {
                let n = self.conc(st, &a[0], 64)?;
                if n == 0 {
                    return Err(Stop::Dead);
                }
                let k = self.pick_input(st, n);
                st.inputs.push(Input::Conc(k));
                V::C(k)
            }
            B::SymParam => {
                let i = self.conc(st, &a[0], 64)? as usize;
                V::C(self.params.get(i).copied().unwrap_or(0))
            }
            B::SymAssume => {
                let c = self.truth(&a[0]);
                match c {
                    V::C(0) => return Err(Stop::Dead),
                    V::C(_) => V::C(0),
                    V::E(e) => {
                        if self.eval(st, e) == 0 {
                            let (r, m) = self.sol.check(&mut self.x, &st.pc, e);
                            match r {
                                Verdict::Sat => self.with_model(st, &m),
                                Verdict::Unsat => return Err(Stop::Dead),
                                Verdict::Unknown => {
                                    self.unknowns += 1;
                                    return Err(Stop::Dead);
                                }
                            }
                        }
                        self.add_pc(st, e);
                        V::C(0)
                    }
                    _ => panic!(),
                }
            }
            B::SymAssert => {
                let c = self.truth(&a[0]);
                self.asserts += 1;
                let p = self.conc(st, &a[1], 64)?;
                let n = self.conc(st, &a[2], 64)?;
                match c {
                    V::C(0) => {
                        self.asserts_const += 1;
                        let s = self.str_at(st, p, n);
                        return err("assert", s);
                    }
                    V::C(_) => {
                        self.asserts_const += 1;
                    }
                    V::E(e) => {
                        self.asserts_solver += 1;
                        let ne = self.x.not(e);
                        let (r, m) = self.sol.check(&mut self.x, &st.pc, ne);
                        match r {
                            Verdict::Unsat => {}
                            Verdict::Sat => {
                                let mut o = st.clone();
                                self.with_model(&mut o, &m);
                                let s = self.str_at(st, p, n);
                                self.record_err(&o, "assert", &s);
                                if self.eval(st, e) == 0 {
                                    let (r, m) = self.sol.check(&mut self.x, &st.pc, e);
                                    if r != Verdict::Sat {
                                        return Err(Stop::Dead);
                                    }
                                    self.with_model(st, &m);
                                }
                                self.add_pc(st, e);
                            }
                            Verdict::Unknown => {
                                self.unknowns += 1;
                            }
                        }
                    }
                    _ => panic!(),
                }
                V::C(0)
            }
            B::SymReach => {
                let p = self.conc(st, &a[0], 64)?;
                let n = self.conc(st, &a[1], 64)?;
                let s = self.str_at(st, p, n);
                if let Some(r) = self.reach.get_mut(&s) {
                    r.0 += 1;
                } else {
                    let i = self.input_vals(st);
                    self.reach.insert(s, (1, i));
                }
                V::C(0)
            }
            B::SymObserve => {
                st.obs.push(a[0].clone());
                V::C(0)
            }
            B::SymNarrow => {
                self.narrow = true;
                V::C(0)
            }
            B::SymClock => {
                let g = V::C(1_000_000_000);
                st.clock = (self.bin(BinOp::UDiv, 64, &a[0], &g), self.bin(BinOp::URem, 64, &a[0], &g));
                V::C(0)
            }
            B::SymIsSym => V::C(matches!(a[0], V::E(_)) as u64),
            B::SymConc => V::C(self.conc(st, &a[0], 64)?),
            B::Stop => return Err(Stop::Dead),
        })
    }
    /// nonzero
    fn truth(&mut self, v: &V) -> V {
        match v {
            V::C(k) => V::C((*k != 0) as u64),
            V::E(e) => {
                let w = self.x.w(*e);
                if w == 1 {
                    return v.clone();
                }
                let z = self.x.konst(0, w);
                let c = self.x.cmp(Op::Eq, *e, z);
                let n = self.x.not(c);
                self.norm(n)
            }
            _ => panic!(),
        }
    }
}

pub fn xop(op: BinOp) -> Op {
    match op {
        BinOp::Add => Op::Add,
        BinOp::Sub => Op::Sub,
        BinOp::Mul => Op::Mul,
        BinOp::UDiv => Op::UDiv,
        BinOp::SDiv => Op::SDiv,
        BinOp::URem => Op::URem,
        BinOp::SRem => Op::SRem,
        BinOp::Shl => Op::Shl,
        BinOp::LShr => Op::LShr,
        BinOp::AShr => Op::AShr,
        BinOp::And => Op::And,
        BinOp::Or => Op::Or,
        BinOp::Xor => Op::Xor,
        _ => panic!("xop {:?}", op),
    }
}
fn cfp_bin(op: BinOp, w: u32, a: u64, b: u64) -> u64 {
    if op == BinOp::FRem {
        return if w == 32 {
            (f32::from_bits(a as u32) % f32::from_bits(b as u32)).to_bits() as u64
        } else {
            (f64::from_bits(a) % f64::from_bits(b)).to_bits()
        };
    }
    let o = match op {
        BinOp::FAdd => Op::FAdd,
        BinOp::FSub => Op::FSub,
        BinOp::FMul => Op::FMul,
        _ => Op::FDiv,
    };
    cfp(o, w, w, a as u128, b as u128) as u64
}

//! Textual LLVM IR: module index (lazy) and function-body parser.
use crate::expr::Op;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float(u32),
    Arr(u64, Rc<Ty>),
    Vec(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Other,
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => ((*w as u64).div_ceil(8)).next_power_of_two().min(16),
            Ty::Ptr => 8,
            Ty::Float(w) => (*w as u64) / 8,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(n, t) => (n * t.size()).next_power_of_two().max(1),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    /// allocation size
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let s = (*w as u64).div_ceil(8);
                s.div_ceil(self.align()) * self.align()
            }
            Ty::Ptr => 8,
            Ty::Float(w) => (*w as u64) / 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => match **t {
                Ty::Int(w) if w < 8 => (n * w as u64).div_ceil(8),
                _ => n * t.size(),
            },
            Ty::Struct(f, packed) => {
                let mut o = 0u64;
                for t in f.iter() {
                    if !packed {
                        o = o.div_ceil(t.align()) * t.align();
                    }
                    o += t.size();
                }
                if *packed {
                    o
                } else {
                    o.div_ceil(self.align()) * self.align()
                }
            }
            _ => 0,
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Arr(_, t) | Ty::Vec(_, t) => t.size() * i as u64,
            Ty::Struct(f, packed) => {
                let mut o = 0u64;
                for (k, t) in f.iter().enumerate() {
                    if !packed {
                        o = o.div_ceil(t.align()) * t.align();
                    }
                    if k == i {
                        return o;
                    }
                    o += t.size();
                }
                o
            }
            _ => 0,
        }
    }
    pub fn field(&self, i: usize) -> Ty {
        match self {
            Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(),
            Ty::Struct(f, _) => f[i].clone(),
            _ => Ty::Other,
        }
    }
    pub fn count(&self) -> usize {
        match self {
            Ty::Arr(n, _) | Ty::Vec(n, _) => *n as usize,
            Ty::Struct(f, _) => f.len(),
            _ => 0,
        }
    }
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            Ty::Float(w) => *w,
            _ => 0,
        }
    }
    pub fn scalar(&self) -> bool {
        matches!(self, Ty::Int(_) | Ty::Ptr | Ty::Float(_))
    }
}

/// A constant (no registers inside).
#[derive(Clone, Debug)]
pub enum Cv {
    Int(u128),
    Agg(Vec<Cv>),
    Undef,
}

#[derive(Clone, Debug)]
pub enum Opr {
    Reg(u32),
    C(Cv),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastK {
    Zext,
    Sext,
    Trunc,
    Bit,
}

#[derive(Clone, Debug)]
pub enum Kind {
    Alloca { size: u64, count: Opr },
    Load { ty: Ty, ptr: Opr },
    Store { ty: Ty, val: Opr, ptr: Opr },
    Gep { base: Opr, off: i128, idx: Vec<(Opr, u32, i128)> },
    Bin { op: Op, ty: Ty, a: Opr, b: Opr },
    Icmp { p: Pred, ty: Ty, a: Opr, b: Opr },
    Select { cty: Ty, c: Opr, a: Opr, b: Opr, ty: Ty },
    Phi { inc: Vec<(u32, Opr)>, ty: Ty },
    Br(u32),
    CondBr(Opr, u32, u32),
    Switch { w: u32, v: Opr, default: u32, cases: Vec<(u128, u32)> },
    Call { name: Option<Rc<str>>, target: Opr, args: Vec<(Ty, Opr)>, ret: Ty, noreturn: bool, normal: Option<u32> },
    Ret(Option<(Ty, Opr)>),
    Unreachable,
    Cast { k: CastK, from: Ty, to: Ty, v: Opr },
    ExtractValue { v: Opr, idx: Vec<usize> },
    InsertValue { ty: Ty, v: Opr, e: Opr, idx: Vec<usize> },
    Freeze(Opr),
    ExtractElem { v: Opr, i: Opr },
    InsertElem { ty: Ty, v: Opr, e: Opr, i: Opr },
    Shuffle { n: usize, a: Opr, b: Opr, m: Vec<i64> },
    AtomicRmw { op: String, ty: Ty, ptr: Opr, val: Opr },
    CmpXchg { ty: Ty, ptr: Opr, cmp: Opr, new: Opr },
    Nop,
    Unsupported(String),
}

pub struct Inst {
    pub dst: Option<u32>,
    pub kind: Kind,
    pub dbg: u32,
}
pub struct Block {
    pub insts: Vec<Inst>,
}
pub struct Func {
    pub name: Rc<str>,
    pub nregs: u32,
    pub params: Vec<u32>,
    pub blocks: Vec<Block>,
    pub dbg: u32,
}

pub struct FnInfo {
    pub noreturn: bool,
    /// line range of the body (definition) or none (declaration)
    pub body: Option<(usize, usize)>,
    pub header: usize,
}
pub struct GlobalInfo {
    pub name: String,
    pub line: usize,
}

pub struct Module {
    pub text: &'static str,
    lines: Vec<(u32, u32)>,
    pub fns: HashMap<String, FnInfo>,
    pub fn_ids: HashMap<String, u64>,
    pub fn_names: Vec<String>,
    pub globals: HashMap<String, u32>,
    pub global_list: Vec<GlobalInfo>,
    pub aliases: HashMap<String, usize>,
    types: HashMap<String, usize>,
    attrs: HashMap<u32, bool>, // group -> noreturn
    pub md: HashMap<u32, usize>,
}

pub const FN_BASE: u128 = 1 << 60;
/// every global / heap object gets its own 4 GiB slot
pub const SLOT: u32 = 32;
pub const DYN_FIRST: u64 = 1 << 20;

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Id(String),     // keyword / bare word
    Local(String),  // %x
    Global(String), // @x
    Int(String),
    Str(Vec<u8>),
    CStr(Vec<u8>),
    Md(String), // !foo
    Attr(String), // #0
    P(char),
    Ellipsis,
    Eof,
}

fn unescape(b: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' && i + 1 < b.len() && b[i + 1] == b'\\' {
            o.push(b'\\');
            i += 2;
        } else if b[i] == b'\\' && i + 2 < b.len() {
            let h = std::str::from_utf8(&b[i + 1..i + 3]).ok().and_then(|h| u8::from_str_radix(h, 16).ok());
            match h {
                Some(v) => {
                    o.push(v);
                    i += 3;
                }
                None => {
                    o.push(b'\\');
                    i += 1;
                }
            }
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}

pub fn lex(s: &str) -> Vec<Tok> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = vec![];
    let isid = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    let quoted = |i: usize| -> (Vec<u8>, usize) {
        // i at opening quote
        let mut j = i + 1;
        while j < b.len() && b[j] != b'"' {
            j += 1;
        }
        (unescape(&b[i + 1..j]), j + 1)
    };
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' | b'\r' => i += 1,
            b';' => {
                while i < b.len() && b[i] != b'\n' {
                    i += 1;
                }
            }
            b'%' | b'@' | b'!' | b'#' => {
                let mut j = i + 1;
                let name;
                if j < b.len() && b[j] == b'"' {
                    let (q, e) = quoted(j);
                    name = String::from_utf8_lossy(&q).to_string();
                    j = e;
                } else {
                    while j < b.len() && isid(b[j]) {
                        j += 1;
                    }
                    name = s[i + 1..j].to_string();
                }
                out.push(match c {
                    b'%' => Tok::Local(name),
                    b'@' => Tok::Global(name),
                    b'!' => Tok::Md(name),
                    _ => Tok::Attr(name),
                });
                i = j;
            }
            b'"' => {
                let (q, e) = quoted(i);
                out.push(Tok::Str(q));
                i = e;
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                let (q, e) = quoted(i + 1);
                out.push(Tok::CStr(q));
                i = e;
            }
            b'.' if s[i..].starts_with("...") => {
                out.push(Tok::Ellipsis);
                i += 3;
            }
            _ if c == b'-' || c.is_ascii_digit() => {
                let mut j = i + 1;
                while j < b.len() && (isid(b[j]) || b[j] == b'+') {
                    j += 1;
                }
                out.push(Tok::Int(s[i..j].to_string()));
                i = j;
            }
            _ if isid(c) => {
                let mut j = i + 1;
                while j < b.len() && isid(b[j]) {
                    j += 1;
                }
                out.push(Tok::Id(s[i..j].to_string()));
                i = j;
            }
            _ => {
                out.push(Tok::P(c as char));
                i += 1;
            }
        }
    }
    out.push(Tok::Eof);
    out
}

impl Module {
    pub fn load(path: &str) -> Module {
        let data = std::fs::read(path).expect("read ll");
        let text: &'static str = Box::leak(String::from_utf8_lossy(&data).into_owned().into_boxed_str());
        let mut m = Module {
            text,
            lines: vec![],
            fns: HashMap::new(),
            fn_ids: HashMap::new(),
            fn_names: vec![],
            globals: HashMap::new(),
            global_list: vec![],
            aliases: HashMap::new(),
            types: HashMap::new(),
            attrs: HashMap::new(),
            md: HashMap::new(),
        };
        let mut start = 0usize;
        for (i, c) in text.bytes().enumerate() {
            if c == b'\n' {
                m.lines.push((start as u32, i as u32));
                start = i + 1;
            }
        }
        if start < text.len() {
            m.lines.push((start as u32, text.len() as u32));
        }
        let n = m.lines.len();
        // attribute groups first
        for i in 0..n {
            let l = m.line(i);
            if let Some(r) = l.strip_prefix("attributes #") {
                let (num, rest) = r.split_once(' ').unwrap();
                let nr = rest.split_whitespace().any(|w| w == "noreturn");
                m.attrs.insert(num.parse().unwrap(), nr);
            }
        }
        let mut i = 0;
        while i < n {
            let l = m.line(i);
            let b0 = l.as_bytes().first().copied().unwrap_or(0);
            match b0 {
                b'd' if l.starts_with("define ") || l.starts_with("declare ") => {
                    let name = fn_name(l);
                    let noreturn = m.header_noreturn(l);
                    let header = i;
                    let body = if l.starts_with("define ") {
                        let s = i + 1;
                        while m.line(i) != "}" {
                            i += 1;
                        }
                        Some((s, i))
                    } else {
                        None
                    };
                    let id = m.fn_names.len() as u64;
                    m.fn_ids.insert(name.clone(), id);
                    m.fn_names.push(name.clone());
                    m.fns.insert(name, FnInfo { noreturn, body, header });
                }
                b'@' => {
                    let t = l.find(" = ").unwrap();
                    let raw = &l[1..t];
                    let name = if raw.starts_with('"') { String::from_utf8_lossy(&unescape(raw.trim_matches('"').as_bytes())).to_string() } else { raw.to_string() };
                    let rest = &l[t + 3..];
                    if rest.split_whitespace().take(8).any(|w| w == "alias") && !rest.contains(" constant ") && !rest.contains(" global ") {
                        m.aliases.insert(name, i);
                    } else {
                        let id = m.global_list.len() as u32;
                        m.globals.insert(name.clone(), id);
                        m.global_list.push(GlobalInfo { name, line: i });
                    }
                }
                b'%' => {
                    if let Some(t) = l.find(" = type ") {
                        let name = l[1..t].trim_matches('"').to_string();
                        m.types.insert(name, i);
                    }
                }
                b'!' => {
                    if let Some(t) = l.find(" = ") {
                        if let Ok(k) = l[1..t].parse::<u32>() {
                            m.md.insert(k, i);
                        }
                    }
                }
                _ => {}
            }
            i += 1;
        }
        m
    }
    pub fn line(&self, i: usize) -> &'static str {
        let (a, b) = self.lines[i];
        &self.text[a as usize..b as usize]
    }
    fn header_noreturn(&self, l: &str) -> bool {
        for w in l.split_whitespace() {
            if w == "noreturn" {
                return true;
            }
            if let Some(k) = w.strip_prefix('#') {
                if let Ok(k) = k.parse::<u32>() {
                    if self.attrs.get(&k).copied().unwrap_or(false) {
                        return true;
                    }
                }
            }
        }
        false
    }
    pub fn fn_addr(&self, name: &str) -> Option<u128> {
        self.fn_ids.get(name).map(|i| FN_BASE + (*i as u128) * 16)
    }
    pub fn global_addr(&self, id: u32) -> u128 {
        ((id as u128) + 1) << SLOT
    }

    pub fn parse_fn(&self, name: &str) -> Result<Func, String> {
        let info = &self.fns[name];
        let (s, e) = info.body.ok_or("no body")?;
        let header = self.line(info.header);
        let mut p = P { m: self, t: lex(header), i: 0, regs: HashMap::new(), blocks: HashMap::new(), nregs: 0 };
        // parameters: find the name token then '('
        let mut params = vec![];
        while !matches!(&p.t[p.i], Tok::Global(_)) {
            p.i += 1;
        }
        p.i += 1;
        p.expect('(')?;
        let mut k = 0;
        let mut unnamed = 0;
        while !p.is(')') {
            if p.t[p.i] == Tok::Ellipsis {
                p.i += 1;
                continue;
            }
            p.ty()?;
            p.skip_param_attrs();
            let nm = match p.next() {
                Tok::Local(n) => n,
                t => {
                    p.i -= 1;
                    let _ = t;
                    format!("{k}")
                }
            };
            k += 1;
            if nm.parse::<u32>().is_ok() {
                unnamed += 1;
            }
            let r = p.reg(&nm);
            params.push(r);
            if p.is(',') {
                p.i += 1;
            }
        }
        let mut fdbg = 0;
        for j in p.i..p.t.len().saturating_sub(1) {
            if let (Tok::Md(a), Tok::Md(b)) = (&p.t[j], &p.t[j + 1]) {
                if a == "dbg" {
                    fdbg = b.parse().unwrap_or(0);
                }
            }
        }
        // group lines
        let mut blocks: Vec<Block> = vec![];
        let mut items: Vec<(usize, Vec<String>)> = vec![]; // (block, instruction texts)
        let mut cur: Option<usize> = None;
        let mut li = s;
        while li < e {
            let l = self.line(li);
            li += 1;
            if l.is_empty() || l.starts_with(';') {
                continue;
            }
            if !l.starts_with(' ') {
                // label
                let lab = if let Some(r) = l.strip_prefix('"') {
                    let q = r.find('"').unwrap();
                    String::from_utf8_lossy(&unescape(r[..q].as_bytes())).to_string()
                } else {
                    l[..l.find(':').ok_or("label")?].to_string()
                };
                let b = p.block(&lab);
                items.push((b as usize, vec![]));
                cur = Some(items.len() - 1);
                continue;
            }
            if cur.is_none() {
                // implicit entry label: number of unnamed params
                let lab = format!("{unnamed}");
                let b = p.block(&lab);
                items.push((b as usize, vec![]));
                cur = Some(items.len() - 1);
            }
            let it = &mut items[cur.unwrap()].1;
            let trimmed = l.trim_start();
            if trimmed.starts_with("#dbg_") {
                continue;
            }
            let cont = l.starts_with("   ") || trimmed.starts_with(']');
            if cont && !it.is_empty() {
                let last = it.last_mut().unwrap();
                last.push(' ');
                last.push_str(trimmed);
            } else {
                it.push(trimmed.to_string());
            }
        }
        let order: Vec<usize> = items.iter().map(|x| x.0).collect();
        let mut parsed: HashMap<usize, Block> = HashMap::new();
        for (b, lines) in items {
            let mut insts = vec![];
            for l in lines {
                p.t = lex(&l);
                p.i = 0;
                let mut dst = None;
                if let (Tok::Local(n), Tok::P('=')) = (p.t[0].clone(), p.t[1].clone()) {
                    dst = Some(p.reg(&n));
                    p.i = 2;
                }
                let kind = match p.inst() {
                    Ok(k) => k,
                    Err(err) => Kind::Unsupported(format!("{err}: {l}")),
                };
                let mut dbg = 0;
                for j in 0..p.t.len() - 1 {
                    if let (Tok::Md(a), Tok::Md(b)) = (&p.t[j], &p.t[j + 1]) {
                        if a == "dbg" {
                            dbg = b.parse().unwrap_or(0);
                        }
                    }
                }
                insts.push(Inst { dst, kind, dbg });
            }
            parsed.insert(b, Block { insts });
        }
        let nb = p.blocks.len();
        for b in 0..nb {
            blocks.push(parsed.remove(&b).unwrap_or(Block { insts: vec![Inst { dst: None, kind: Kind::Unsupported("missing block".into()), dbg: 0 }] }));
        }
        if order.first() != Some(&0) {
            return Err("entry block order".into());
        }
        Ok(Func { name: name.into(), nregs: p.nregs, params, blocks, dbg: fdbg })
    }

    /// (size, initializer, type, is_constant)
    pub fn parse_global(&self, id: u32) -> Result<(Ty, Option<Cv>, bool), String> {
        let l = self.line(self.global_list[id as usize].line);
        let t = l.find(" = ").unwrap();
        let mut p = P { m: self, t: lex(&l[t + 3..]), i: 0, regs: HashMap::new(), blocks: HashMap::new(), nregs: 0 };
        let mut external = false;
        let constant;
        loop {
            match p.next() {
                Tok::Id(w) if w == "constant" => {
                    constant = true;
                    break;
                }
                Tok::Id(w) if w == "global" => {
                    constant = false;
                    break;
                }
                Tok::Id(w) if w == "external" || w == "extern_weak" => external = true,
                Tok::Eof => return Err("global".into()),
                _ => {}
            }
        }
        let ty = p.ty()?;
        if external {
            return Ok((ty, None, constant));
        }
        let v = p.constant(&ty)?;
        Ok((ty, Some(v), constant))
    }

    pub fn alias_target(&self, name: &str) -> Option<String> {
        let l = self.line(*self.aliases.get(name)?);
        let toks = lex(l);
        toks.iter().skip(1).find_map(|t| if let Tok::Global(g) = t { Some(g.clone()) } else { None })
    }
}

fn fn_name(l: &str) -> String {
    let at = l.find('@').unwrap();
    let r = &l[at + 1..];
    if let Some(q) = r.strip_prefix('"') {
        q[..q.find('"').unwrap()].to_string()
    } else {
        r[..r.find('(').unwrap()].to_string()
    }
}

struct P<'a> {
    m: &'a Module,
    t: Vec<Tok>,
    i: usize,
    regs: HashMap<String, u32>,
    blocks: HashMap<String, u32>,
    nregs: u32,
}

type R<T> = Result<T, String>;

impl<'a> P<'a> {
    fn next(&mut self) -> Tok {
        let t = self.t[self.i].clone();
        if self.i + 1 < self.t.len() {
            self.i += 1;
        }
        t
    }
    fn is(&self, c: char) -> bool {
        self.t[self.i] == Tok::P(c)
    }
    fn isid(&self, s: &str) -> bool {
        matches!(&self.t[self.i], Tok::Id(x) if x == s)
    }
    fn eat(&mut self, s: &str) -> bool {
        if self.isid(s) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: char) -> R<()> {
        if self.is(c) {
            self.i += 1;
            Ok(())
        } else {
            Err(format!("expected {c} got {:?}", self.t[self.i]))
        }
    }
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(&r) = self.regs.get(n) {
            return r;
        }
        let r = self.nregs;
        self.nregs += 1;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn block(&mut self, n: &str) -> u32 {
        let k = self.blocks.len() as u32;
        *self.blocks.entry(n.to_string()).or_insert(k)
    }
    fn skip_parens(&mut self) {
        let mut d = 0;
        loop {
            match self.next() {
                Tok::P('(') => d += 1,
                Tok::P(')') => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                Tok::Eof => return,
                _ => {}
            }
        }
    }
    fn int(&mut self) -> R<i128> {
        match self.next() {
            Tok::Int(s) => s.parse::<i128>().or_else(|_| s.parse::<u128>().map(|v| v as i128)).map_err(|e| format!("{e} {s}")),
            t => Err(format!("int expected, got {t:?}")),
        }
    }

    fn ty(&mut self) -> R<Ty> {
        let t = match self.next() {
            Tok::Id(s) => match s.as_str() {
                "void" => Ty::Void,
                "ptr" => {
                    if self.eat("addrspace") {
                        self.skip_parens();
                    }
                    Ty::Ptr
                }
                "float" => Ty::Float(32),
                "double" => Ty::Float(64),
                "half" | "bfloat" => Ty::Float(16),
                "fp128" => Ty::Float(128),
                "x86_fp80" => Ty::Other,
                "label" | "metadata" | "token" | "opaque" => Ty::Other,
                _ if s.starts_with('i') && s[1..].chars().all(|c| c.is_ascii_digit()) && s.len() > 1 => Ty::Int(s[1..].parse().unwrap()),
                _ => return Err(format!("type {s}")),
            },
            Tok::Local(n) => {
                let line = *self.m.types.get(&n).ok_or(format!("named type {n}"))?;
                let l = self.m.line(line);
                let t = l.find(" = type ").unwrap();
                let mut q = P { m: self.m, t: lex(&l[t + 8..]), i: 0, regs: HashMap::new(), blocks: HashMap::new(), nregs: 0 };
                q.ty()?
            }
            Tok::P('[') => {
                let n = self.int()? as u64;
                if !self.eat("x") {
                    return Err("array x".into());
                }
                let t = self.ty()?;
                self.expect(']')?;
                Ty::Arr(n, Rc::new(t))
            }
            Tok::P('<') => {
                if self.is('{') {
                    self.i += 1;
                    let f = self.fields('}')?;
                    self.expect('>')?;
                    Ty::Struct(Rc::new(f), true)
                } else {
                    let n = self.int()? as u64;
                    if !self.eat("x") {
                        return Err("vec x".into());
                    }
                    let t = self.ty()?;
                    self.expect('>')?;
                    Ty::Vec(n, Rc::new(t))
                }
            }
            Tok::P('{') => Ty::Struct(Rc::new(self.fields('}')?), false),
            t => return Err(format!("type tok {t:?}")),
        };
        Ok(t)
    }
    fn fields(&mut self, close: char) -> R<Vec<Ty>> {
        let mut f = vec![];
        while !self.is(close) {
            f.push(self.ty()?);
            if self.is(',') {
                self.i += 1;
            }
        }
        self.i += 1;
        Ok(f)
    }

    fn value_start(&self) -> bool {
        match &self.t[self.i] {
            Tok::Local(_) | Tok::Global(_) | Tok::Int(_) | Tok::CStr(_) => true,
            Tok::P(c) => matches!(c, '{' | '[' | '<' | ')' | ','),
            Tok::Id(s) => matches!(
                s.as_str(),
                "true" | "false" | "null" | "undef" | "poison" | "none" | "zeroinitializer" | "getelementptr" | "inttoptr" | "ptrtoint" | "bitcast" | "splat" | "blockaddress" | "sub" | "add" | "xor" | "trunc" | "dso_local_equivalent" | "addrspacecast" | "asm" | "ptrtoaddr" | "icmp"
            ),
            Tok::Md(_) => true,
            Tok::Eof => true,
            _ => false,
        }
    }
    fn skip_param_attrs(&mut self) {
        loop {
            if self.value_start() {
                return;
            }
            match self.next() {
                Tok::Id(s) => {
                    if s == "align" && matches!(self.t[self.i], Tok::Int(_)) {
                        self.i += 1;
                    } else if self.is('(') {
                        self.skip_parens();
                    }
                }
                Tok::Str(_) => {
                    if self.is('=') {
                        self.i += 2;
                    }
                }
                Tok::Eof => return,
                _ => {}
            }
        }
    }

    fn global_value(&mut self, n: &str) -> R<Cv> {
        if let Some(a) = self.m.fn_addr(n) {
            return Ok(Cv::Int(a));
        }
        if let Some(&g) = self.m.globals.get(n) {
            return Ok(Cv::Int(self.m.global_addr(g)));
        }
        if let Some(t) = self.m.alias_target(n) {
            return self.global_value(&t);
        }
        Err(format!("unknown global {n}"))
    }

    fn constant(&mut self, ty: &Ty) -> R<Cv> {
        match self.opr(ty)? {
            Opr::C(c) => Ok(c),
            _ => Err("register in constant".into()),
        }
    }
    fn zero(&self, ty: &Ty) -> Cv {
        match ty {
            Ty::Arr(..) | Ty::Vec(..) | Ty::Struct(..) => Cv::Agg((0..ty.count()).map(|i| self.zero(&ty.field(i))).collect()),
            _ => Cv::Int(0),
        }
    }
    fn undef(&self, ty: &Ty) -> Cv {
        match ty {
            Ty::Arr(..) | Ty::Vec(..) | Ty::Struct(..) => Cv::Agg((0..ty.count()).map(|i| self.undef(&ty.field(i))).collect()),
            _ => Cv::Undef,
        }
    }
    fn list(&mut self, close: char) -> R<Vec<Cv>> {
        let mut v = vec![];
        while !self.is(close) {
            let t = self.ty()?;
            v.push(self.constant(&t)?);
            if self.is(',') {
                self.i += 1;
            }
        }
        self.i += 1;
        Ok(v)
    }

    fn cint(c: &Cv) -> R<u128> {
        match c {
            Cv::Int(v) => Ok(*v),
            Cv::Undef => Ok(0),
            _ => Err("const agg".into()),
        }
    }

    fn opr(&mut self, ty: &Ty) -> R<Opr> {
        let t = self.next();
        Ok(Opr::C(match t {
            Tok::Local(n) => return Ok(Opr::Reg(self.reg(&n))),
            Tok::Global(n) => self.global_value(&n)?,
            Tok::Int(s) => match ty {
                Ty::Float(w) => {
                    if let Some(h) = s.strip_prefix("0x") {
                        let h = h.trim_start_matches(['H', 'R', 'K', 'L', 'M']);
                        Cv::Int(u128::from_str_radix(h, 16).map_err(|e| e.to_string())?)
                    } else {
                        let f: f64 = s.parse().map_err(|_| format!("float {s}"))?;
                        Cv::Int(if *w == 32 { (f as f32).to_bits() as u128 } else { f.to_bits() as u128 })
                    }
                }
                _ => {
                    let v = s.parse::<i128>().map(|v| v as u128).or_else(|_| s.parse::<u128>()).map_err(|e| format!("{e} {s}"))?;
                    Cv::Int(v & crate::expr::mask(ty.bits().max(1)))
                }
            },
            Tok::CStr(b) => Cv::Agg(b.into_iter().map(|x| Cv::Int(x as u128)).collect()),
            Tok::P('{') => Cv::Agg(self.list('}')?),
            Tok::P('[') => Cv::Agg(self.list(']')?),
            Tok::P('<') => {
                if self.is('{') {
                    self.i += 1;
                    let v = self.list('}')?;
                    self.expect('>')?;
                    Cv::Agg(v)
                } else {
                    Cv::Agg(self.list('>')?)
                }
            }
            Tok::Id(s) => match s.as_str() {
                "true" => Cv::Int(1),
                "false" => Cv::Int(0),
                "null" => Cv::Int(0),
                "none" => Cv::Int(0),
                "undef" | "poison" => self.undef(ty),
                "zeroinitializer" => self.zero(ty),
                "dso_local_equivalent" => return self.opr(ty),
                "splat" => {
                    self.expect('(')?;
                    let t = self.ty()?;
                    let c = self.constant(&t)?;
                    self.expect(')')?;
                    Cv::Agg(vec![c; ty.count()])
                }
                "getelementptr" => {
                    while !self.is('(') {
                        if matches!(self.next(), Tok::Eof) {
                            return Err("gep const".into());
                        }
                        // skip flags; inrange(a, b) contains parens
                        if matches!(&self.t[self.i - 1], Tok::Id(s) if s == "inrange") {
                            self.skip_parens();
                        }
                    }
                    self.i += 1;
                    let bt = self.ty()?;
                    self.expect(',')?;
                    self.ty()?;
                    let base = Self::cint(&self.constant(&Ty::Ptr)?)?;
                    let mut off = 0i128;
                    let mut cur = bt;
                    let mut first = true;
                    while self.is(',') {
                        self.i += 1;
                        let it = self.ty()?;
                        let ix = crate::expr::sx(Self::cint(&self.constant(&it)?)?, it.bits());
                        if first {
                            off += ix * cur.size() as i128;
                            first = false;
                        } else {
                            off += match &cur {
                                Ty::Struct(..) => cur.field_off(ix as usize) as i128,
                                _ => cur.field(0).size() as i128 * ix,
                            };
                            cur = cur.field(ix.max(0) as usize);
                        }
                    }
                    self.expect(')')?;
                    Cv::Int((base as i128).wrapping_add(off) as u128 & u64::MAX as u128)
                }
                "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "addrspacecast" | "ptrtoaddr" => {
                    self.expect('(')?;
                    let t = self.ty()?;
                    let c = self.constant(&t)?;
                    if !self.eat("to") {
                        return Err("cast const".into());
                    }
                    let to = self.ty()?;
                    self.expect(')')?;
                    match c {
                        Cv::Int(v) => Cv::Int(v & crate::expr::mask(to.bits().max(1))),
                        o => o,
                    }
                }
                "sub" | "add" | "xor" => {
                    while !self.is('(') {
                        self.next();
                    }
                    self.i += 1;
                    let t = self.ty()?;
                    let a = Self::cint(&self.constant(&t)?)?;
                    self.expect(',')?;
                    let t2 = self.ty()?;
                    let b = Self::cint(&self.constant(&t2)?)?;
                    self.expect(')')?;
                    let op = match s.as_str() {
                        "sub" => Op::Sub,
                        "add" => Op::Add,
                        _ => Op::Xor,
                    };
                    Cv::Int(crate::expr::bin_c(op, t.bits(), a, b).unwrap())
                }
                _ => return Err(format!("constant {s}")),
            },
            t => return Err(format!("operand {t:?}")),
        }))
    }

    fn label(&mut self) -> R<u32> {
        if !self.eat("label") {
            return Err("label".into());
        }
        match self.next() {
            Tok::Local(n) => Ok(self.block(&n)),
            t => Err(format!("label {t:?}")),
        }
    }
    fn tyval(&mut self) -> R<(Ty, Opr)> {
        let t = self.ty()?;
        let v = self.opr(&t)?;
        Ok((t, v))
    }
    fn comma(&mut self) -> R<()> {
        self.expect(',')
    }

    fn inst(&mut self) -> R<Kind> {
        let mut op = match self.next() {
            Tok::Id(s) => s,
            t => return Err(format!("opcode {t:?}")),
        };
        while matches!(op.as_str(), "tail" | "musttail" | "notail") {
            op = match self.next() {
                Tok::Id(s) => s,
                t => return Err(format!("opcode {t:?}")),
            };
        }
        let bop = match op.as_str() {
            "add" => Some(Op::Add),
            "sub" => Some(Op::Sub),
            "mul" => Some(Op::Mul),
            "udiv" => Some(Op::UDiv),
            "sdiv" => Some(Op::SDiv),
            "urem" => Some(Op::URem),
            "srem" => Some(Op::SRem),
            "shl" => Some(Op::Shl),
            "lshr" => Some(Op::LShr),
            "ashr" => Some(Op::AShr),
            "and" => Some(Op::And),
            "or" => Some(Op::Or),
            "xor" => Some(Op::Xor),
            _ => None,
        };
        if let Some(o) = bop {
            while matches!(&self.t[self.i], Tok::Id(s) if matches!(s.as_str(), "nuw"|"nsw"|"exact"|"disjoint")) {
                self.i += 1;
            }
            let (ty, a) = self.tyval()?;
            self.comma()?;
            let b = self.opr(&ty)?;
            return Ok(Kind::Bin { op: o, ty, a, b });
        }
        match op.as_str() {
            "alloca" => {
                self.eat("inalloca");
                let t = self.ty()?;
                let mut count = Opr::C(Cv::Int(1));
                if self.is(',') && !matches!(&self.t[self.i + 1], Tok::Id(s) if s == "align" || s == "addrspace") && !matches!(&self.t[self.i + 1], Tok::Md(_)) {
                    self.i += 1;
                    count = self.tyval()?.1;
                }
                Ok(Kind::Alloca { size: t.size(), count })
            }
            "load" => {
                self.eat("atomic");
                self.eat("volatile");
                let ty = self.ty()?;
                self.comma()?;
                let (_, ptr) = self.tyval()?;
                Ok(Kind::Load { ty, ptr })
            }
            "store" => {
                self.eat("atomic");
                self.eat("volatile");
                let (ty, val) = self.tyval()?;
                self.comma()?;
                let (_, ptr) = self.tyval()?;
                Ok(Kind::Store { ty, val, ptr })
            }
            "getelementptr" => {
                while matches!(&self.t[self.i], Tok::Id(s) if matches!(s.as_str(), "inbounds"|"nuw"|"nusw"|"inrange")) {
                    self.i += 1;
                    if self.is('(') {
                        self.skip_parens();
                    }
                }
                let mut cur = self.ty()?;
                self.comma()?;
                let (bt, base) = self.tyval()?;
                if bt != Ty::Ptr {
                    return Err("vector gep".into());
                }
                let mut off = 0i128;
                let mut idx = vec![];
                let mut first = true;
                while self.is(',') && !matches!(&self.t[self.i + 1], Tok::Md(_)) {
                    self.i += 1;
                    let (it, v) = self.tyval()?;
                    let w = it.bits();
                    let stride = if first {
                        cur.size() as i128
                    } else {
                        match &cur {
                            Ty::Struct(..) => {
                                let k = match &v {
                                    Opr::C(Cv::Int(k)) => *k as usize,
                                    _ => return Err("struct gep idx".into()),
                                };
                                off += cur.field_off(k) as i128;
                                cur = cur.field(k);
                                continue;
                            }
                            _ => {
                                let f = cur.field(0);
                                let s = f.size() as i128;
                                cur = f;
                                s
                            }
                        }
                    };
                    first = false;
                    match &v {
                        Opr::C(Cv::Int(k)) => off += crate::expr::sx(*k, w) * stride,
                        Opr::C(_) => {}
                        _ => idx.push((v, w, stride)),
                    }
                }
                Ok(Kind::Gep { base, off, idx })
            }
            "icmp" => {
                self.eat("samesign");
                let p = match self.next() {
                    Tok::Id(s) => match s.as_str() {
                        "eq" => Pred::Eq,
                        "ne" => Pred::Ne,
                        "ugt" => Pred::Ugt,
                        "uge" => Pred::Uge,
                        "ult" => Pred::Ult,
                        "ule" => Pred::Ule,
                        "sgt" => Pred::Sgt,
                        "sge" => Pred::Sge,
                        "slt" => Pred::Slt,
                        "sle" => Pred::Sle,
                        _ => return Err("pred".into()),
                    },
                    _ => return Err("pred".into()),
                };
                let (ty, a) = self.tyval()?;
                self.comma()?;
                let b = self.opr(&ty)?;
                Ok(Kind::Icmp { p, ty, a, b })
            }
            "select" => {
                while matches!(&self.t[self.i], Tok::Id(s) if matches!(s.as_str(), "fast"|"nnan"|"ninf"|"nsz"|"arcp"|"contract"|"afn"|"reassoc")) {
                    self.i += 1;
                }
                let (cty, c) = self.tyval()?;
                self.comma()?;
                let (ty, a) = self.tyval()?;
                self.comma()?;
                let (_, b) = self.tyval()?;
                Ok(Kind::Select { cty, c, a, b, ty })
            }
            "phi" => {
                let ty = self.ty()?;
                let mut inc = vec![];
                loop {
                    self.expect('[')?;
                    let v = self.opr(&ty)?;
                    self.comma()?;
                    let b = match self.next() {
                        Tok::Local(n) => self.block(&n),
                        t => return Err(format!("phi {t:?}")),
                    };
                    self.expect(']')?;
                    inc.push((b, v));
                    if self.is(',') && self.t[self.i + 1] == Tok::P('[') {
                        self.i += 1;
                    } else {
                        break;
                    }
                }
                Ok(Kind::Phi { inc, ty })
            }
            "br" => {
                if self.isid("label") {
                    return Ok(Kind::Br(self.label()?));
                }
                let (_, c) = self.tyval()?;
                self.comma()?;
                let a = self.label()?;
                self.comma()?;
                let b = self.label()?;
                Ok(Kind::CondBr(c, a, b))
            }
            "switch" => {
                let (ty, v) = self.tyval()?;
                self.comma()?;
                let default = self.label()?;
                self.expect('[')?;
                let mut cases = vec![];
                while !self.is(']') {
                    let t = self.ty()?;
                    let c = Self::cint(&self.constant(&t)?)?;
                    self.comma()?;
                    let l = self.label()?;
                    cases.push((c, l));
                }
                Ok(Kind::Switch { w: ty.bits(), v, default, cases })
            }
            "ret" => {
                if self.eat("void") {
                    return Ok(Kind::Ret(None));
                }
                let tv = self.tyval()?;
                Ok(Kind::Ret(Some(tv)))
            }
            "unreachable" => Ok(Kind::Unreachable),
            "call" | "invoke" => {
                // flags, cc, ret attrs
                loop {
                    match self.t[self.i].clone() {
                        Tok::Id(s) => {
                            let is_ty = matches!(s.as_str(), "void" | "ptr" | "float" | "double" | "half" | "bfloat" | "fp128" | "x86_fp80" | "label" | "metadata" | "token")
                                || (s.starts_with('i') && s.len() > 1 && s[1..].chars().all(|c| c.is_ascii_digit()));
                            if is_ty {
                                break;
                            }
                            self.i += 1;
                            if s == "align" && matches!(self.t[self.i], Tok::Int(_)) {
                                self.i += 1;
                            } else if self.is('(') {
                                self.skip_parens();
                            } else if matches!(self.t[self.i], Tok::Int(_)) {
                                self.i += 1; // cc N
                            }
                        }
                        Tok::Str(_) => {
                            self.i += 1;
                            if self.is('=') {
                                self.i += 2;
                            }
                        }
                        Tok::Eof => return Err("call".into()),
                        _ => break,
                    }
                }
                let ret = self.ty()?;
                if self.is('(') {
                    self.skip_parens(); // function type
                }
                if self.isid("asm") {
                    // inline asm: only the empty black-box barrier style is tolerated
                    return Err("inline asm".into());
                }
                let (name, target) = match self.t[self.i].clone() {
                    Tok::Global(n) => {
                        self.i += 1;
                        let n = if self.m.fns.contains_key(&n) { n } else { self.m.alias_target(&n).unwrap_or(n) };
                        let a = self.m.fn_addr(&n).unwrap_or(0);
                        (Some(Rc::from(n.as_str())), Opr::C(Cv::Int(a)))
                    }
                    _ => (None, self.opr(&Ty::Ptr)?),
                };
                self.expect('(')?;
                let mut args = vec![];
                while !self.is(')') {
                    let ty = self.ty()?;
                    if ty == Ty::Other {
                        // metadata argument
                        let mut d = 0;
                        loop {
                            match &self.t[self.i] {
                                Tok::P('(') => d += 1,
                                Tok::P(')') if d == 0 => break,
                                Tok::P(')') => d -= 1,
                                Tok::P(',') if d == 0 => break,
                                Tok::Eof => break,
                                _ => {}
                            }
                            self.i += 1;
                        }
                        args.push((Ty::Other, Opr::C(Cv::Int(0))));
                    } else {
                        self.skip_param_attrs();
                        let v = self.opr(&ty)?;
                        args.push((ty, v));
                    }
                    if self.is(',') {
                        self.i += 1;
                    }
                }
                self.i += 1;
                let mut noreturn = false;
                if let Some(n) = &name {
                    if let Some(f) = self.m.fns.get(&**n) {
                        noreturn |= f.noreturn;
                    }
                }
                let mut normal = None;
                loop {
                    match self.t[self.i].clone() {
                        Tok::Attr(a) => {
                            if let Ok(k) = a.parse::<u32>() {
                                noreturn |= self.m.attrs.get(&k).copied().unwrap_or(false);
                            }
                            self.i += 1;
                        }
                        Tok::Id(s) if s == "noreturn" => {
                            noreturn = true;
                            self.i += 1;
                        }
                        Tok::Id(s) if s == "to" => {
                            self.i += 1;
                            normal = Some(self.label()?);
                            break;
                        }
                        Tok::P('[') => {
                            while !self.is(']') {
                                self.i += 1;
                            }
                            self.i += 1;
                        }
                        Tok::Md(_) | Tok::Eof | Tok::P(',') => break,
                        _ => self.i += 1,
                    }
                }
                if op == "invoke" && normal.is_none() {
                    return Err("invoke".into());
                }
                Ok(Kind::Call { name, target, args, ret, noreturn, normal })
            }
            "zext" | "sext" | "trunc" | "ptrtoint" | "inttoptr" | "bitcast" | "addrspacecast" | "ptrtoaddr" => {
                while matches!(&self.t[self.i], Tok::Id(s) if matches!(s.as_str(), "nneg"|"nuw"|"nsw")) {
                    self.i += 1;
                }
                let (from, v) = self.tyval()?;
                if !self.eat("to") {
                    return Err("cast".into());
                }
                let to = self.ty()?;
                let k = match op.as_str() {
                    "zext" => CastK::Zext,
                    "sext" => CastK::Sext,
                    "trunc" => CastK::Trunc,
                    "bitcast" | "addrspacecast" => CastK::Bit,
                    _ => match from.bits().cmp(&to.bits()) {
                        std::cmp::Ordering::Less => CastK::Zext,
                        std::cmp::Ordering::Equal => CastK::Bit,
                        _ => CastK::Trunc,
                    },
                };
                Ok(Kind::Cast { k, from, to, v })
            }
            "extractvalue" => {
                let (_, v) = self.tyval()?;
                Ok(Kind::ExtractValue { v, idx: self.idxs()? })
            }
            "insertvalue" => {
                let (ty, v) = self.tyval()?;
                self.comma()?;
                let (_, e) = self.tyval()?;
                Ok(Kind::InsertValue { ty, v, e, idx: self.idxs()? })
            }
            "freeze" => Ok(Kind::Freeze(self.tyval()?.1)),
            "extractelement" => {
                let (_, v) = self.tyval()?;
                self.comma()?;
                let (_, i) = self.tyval()?;
                Ok(Kind::ExtractElem { v, i })
            }
            "insertelement" => {
                let (ty, v) = self.tyval()?;
                self.comma()?;
                let (_, e) = self.tyval()?;
                self.comma()?;
                let (_, i) = self.tyval()?;
                Ok(Kind::InsertElem { ty, v, e, i })
            }
            "shufflevector" => {
                let (ty, a) = self.tyval()?;
                self.comma()?;
                let (_, b) = self.tyval()?;
                self.comma()?;
                let (_, m) = self.tyval()?;
                let m = match m {
                    Opr::C(Cv::Agg(v)) => v
                        .iter()
                        .map(|c| match c {
                            Cv::Int(k) => *k as i64,
                            _ => -1,
                        })
                        .collect(),
                    _ => return Err("shuffle mask".into()),
                };
                Ok(Kind::Shuffle { n: ty.count(), a, b, m })
            }
            "atomicrmw" => {
                self.eat("volatile");
                let o = match self.next() {
                    Tok::Id(s) => s,
                    _ => return Err("rmw".into()),
                };
                let (_, ptr) = self.tyval()?;
                self.comma()?;
                let (ty, val) = self.tyval()?;
                Ok(Kind::AtomicRmw { op: o, ty, ptr, val })
            }
            "cmpxchg" => {
                self.eat("weak");
                self.eat("volatile");
                let (_, ptr) = self.tyval()?;
                self.comma()?;
                let (ty, cmp) = self.tyval()?;
                self.comma()?;
                let (_, new) = self.tyval()?;
                Ok(Kind::CmpXchg { ty, ptr, cmp, new })
            }
            "fence" => Ok(Kind::Nop),
            _ => Err(format!("unsupported opcode {op}")),
        }
    }
    fn idxs(&mut self) -> R<Vec<usize>> {
        let mut v = vec![];
        while self.is(',') && matches!(self.t[self.i + 1], Tok::Int(_)) {
            self.i += 1;
            v.push(self.int()? as usize);
        }
        Ok(v)
    }
}

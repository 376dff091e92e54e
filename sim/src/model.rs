//! The reference model: what a class file says, as plain values. Independent of coffer.
//! Strings are sequences of UTF-16 units (what Java strings are); positions in code are
//! instruction indices; constant pool layout is not part of the model.

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct JStr(pub Vec<u16>);
impl JStr {
    pub fn new(s: &str) -> Self { JStr(s.encode_utf16().collect()) }
    pub fn lossy(&self) -> String { String::from_utf16_lossy(&self.0) }
    pub fn is(&self, s: &str) -> bool { self.0.iter().copied().eq(s.encode_utf16()) }
    pub fn starts(&self, c: u8) -> bool { self.0.first() == Some(&(c as u16)) }
    /// Text form if it has no unpaired surrogates.
    pub fn utf(&self) -> Option<String> { String::from_utf16(&self.0).ok() }
}
impl std::fmt::Debug for JStr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("\"")?;
        for (i, c) in char::decode_utf16(self.0.iter().copied()).enumerate() {
            if i > 60 { return write!(f, "..\"[{}]", self.0.len()); }
            match c {
                Ok(c) => write!(f, "{}", c.escape_debug())?,
                Err(e) => write!(f, "\\u{:04X}!", e.unpaired_surrogate())?,
            }
        }
        f.write_str("\"")
    }
}
impl From<&str> for JStr { fn from(s: &str) -> Self { JStr::new(s) } }

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum MKind { Field, Method, IMethod }

#[derive(Clone, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub struct Member { pub kind: MKind, pub owner: JStr, pub name: JStr, pub desc: JStr }

#[derive(Clone, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub struct Handle { pub kind: u8, pub member: Member }

#[derive(Clone, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub struct Bsm { pub handle: Handle, pub args: Vec<Cst> }

#[derive(Clone, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub struct Dyn { pub bsm: Box<Bsm>, pub name: JStr, pub desc: JStr }

#[derive(Clone, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum Cst {
    Int(i32), Float(u32), Long(i64), Double(u64),
    Str(JStr), Class(JStr), MType(JStr), MHandle(Handle), Dyn(Dyn),
    /// not loadable per the specification; coffer accepts it
    Member(Member),
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum AVal {
    /// tag in B C I S Z
    Int(u8, i32), Long(i64), Float(u32), Double(u64), Str(JStr),
    Enum(JStr, JStr), Class(JStr), Annot(Annot), Array(Vec<AVal>),
}
/// Element values are a set of named values: canonically sorted by name.
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Annot { pub ty: JStr, pub vals: Vec<(JStr, AVal)> }

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Target {
    /// target_type and its operand bytes (class, field and method targets)
    Plain(u8, Vec<u8>),
    /// 0x40 / 0x41: (start, end, index)
    Vars(u8, Vec<(usize, usize, u16)>),
    /// 0x42: index into the exception table
    Catch(u16),
    /// 0x43..0x46: position; 0x47..0x4B: position and argument
    Pos(u8, usize, Option<u8>),
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct TAnnot { pub target: Target, pub path: Vec<(u8, u8)>, pub annot: Annot }

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Inner { pub inner: JStr, pub outer: Option<JStr>, pub name: Option<JStr>, pub flags: u16 }
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Module {
    pub name: JStr, pub flags: u16, pub version: Option<JStr>,
    pub requires: Vec<(JStr, u16, Option<JStr>)>,
    pub exports: Vec<(JStr, u16, Vec<JStr>)>,
    pub opens: Vec<(JStr, u16, Vec<JStr>)>,
    pub uses: Vec<JStr>,
    pub provides: Vec<(JStr, Vec<JStr>)>,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Attr {
    Synthetic, Deprecated,
    Signature(JStr), SourceFile(JStr), InnerClasses(Vec<Inner>),
    EnclosingMethod(JStr, Option<(JStr, JStr)>),
    SourceDebug(JStr), Bootstrap(Vec<Bsm>), Module(Module), ModulePackages(Vec<JStr>),
    ModuleMainClass(JStr), NestHost(JStr), NestMembers(Vec<JStr>),
    Annots(bool, Vec<Annot>), TypeAnnots(bool, Vec<TAnnot>), ParamAnnots(bool, Vec<Vec<Annot>>),
    ConstantValue(Cst), Code(Box<Code>), Exceptions(Vec<JStr>), AnnotDefault(AVal),
    MethodParams(Vec<(Option<JStr>, u16)>),
    Raw(JStr, Vec<u8>),
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Insn {
    Op(u8),
    Push(Cst),
    /// canonical opcode iload..aload / istore..astore
    Local(u8, u16),
    IInc(u16, i16),
    Ret(u16),
    /// canonical opcode (goto for goto_w, jsr for jsr_w)
    Jump(u8, usize),
    TSwitch { def: usize, low: i32, to: Vec<usize> },
    LSwitch { def: usize, to: Vec<(i32, usize)> },
    Field(u8, Member),
    /// count is 0 except for invokeinterface
    Invoke(u8, Member, u8),
    InvokeDyn(Dyn),
    New(JStr),
    /// descriptor of the array created, dimensions allocated
    NewArray(JStr, u8),
    CheckCast(JStr), InstanceOf(JStr),
    /// an instruction on a class or member that is computed: not in the specification, but
    /// coffer's instructions can say so; invokeinterface and multianewarray have a count
    Computed(u8, Dyn, u8),
}

#[derive(Clone, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub struct LVar { pub start: usize, pub end: usize, pub name: JStr, pub index: u16, pub desc: Option<JStr>, pub sig: Option<JStr> }

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Code {
    pub max_stack: u16, pub max_locals: u16,
    pub insns: Vec<Insn>,
    pub catches: Vec<(usize, usize, usize, Option<JStr>)>,
    /// sorted by position, entries of one position in table order
    pub lines: Vec<(usize, u16)>,
    /// the order of first mention; merged descriptor and signature tables
    pub lvars: Vec<LVar>,
    /// TypeAnnots and Raw only, in order
    pub attrs: Vec<Attr>,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct MemberDecl { pub flags: u16, pub name: JStr, pub desc: JStr, pub attrs: Vec<Attr> }

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Class {
    pub minor: u16, pub major: u16, pub flags: u16,
    pub name: JStr, pub sup: Option<JStr>, pub itfs: Vec<JStr>,
    pub fields: Vec<MemberDecl>, pub methods: Vec<MemberDecl>, pub attrs: Vec<Attr>,
}

/// Which declaration an attribute belongs to.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Place { Class, Field, Method, Code }

pub mod flagbits {
    pub const CLASS: u16 = 0xF631;
    pub const FIELD: u16 = 0x50DF;
    pub const METHOD: u16 = 0x1DFF;
    pub const INNER: u16 = 0x761F;
    pub const PARAM: u16 = 0x9010;
    pub const MODULE: u16 = 0x9020;
    pub const REQUIRE: u16 = 0x9060;
    pub const EXOP: u16 = 0x9000;
}

fn canon_annot(a: &mut Annot) {
    for (_, v) in &mut a.vals { canon_val(v); }
    // a later value of the same name replaces an earlier one
    let by_name: std::collections::BTreeMap<JStr, AVal> = a.vals.drain(..).collect();
    a.vals = by_name.into_iter().collect();
}
fn canon_val(v: &mut AVal) {
    match v {
        AVal::Annot(a) => canon_annot(a),
        AVal::Array(v) => v.iter_mut().for_each(canon_val),
        _ => {}
    }
}
fn canon_attr(a: &mut Attr) {
    match a {
        Attr::Annots(_, v) => v.iter_mut().for_each(canon_annot),
        Attr::TypeAnnots(_, v) => v.iter_mut().for_each(|t| canon_annot(&mut t.annot)),
        Attr::ParamAnnots(_, v) => v.iter_mut().flatten().for_each(canon_annot),
        Attr::AnnotDefault(v) => canon_val(v),
        Attr::Code(c) => canon_code(c),
        Attr::InnerClasses(v) => v.iter_mut().for_each(|i| i.flags &= flagbits::INNER),
        Attr::MethodParams(v) => v.iter_mut().for_each(|i| i.1 &= flagbits::PARAM),
        Attr::Module(m) => {
            m.flags &= flagbits::MODULE;
            m.requires.iter_mut().for_each(|r| r.1 &= flagbits::REQUIRE);
            m.exports.iter_mut().for_each(|r| r.1 &= flagbits::EXOP);
            m.opens.iter_mut().for_each(|r| r.1 &= flagbits::EXOP);
        }
        _ => {}
    }
}

pub fn invert(op: u8) -> Option<u8> {
    Some(match op {
        0x99..=0xA6 => if op % 2 == 1 { op + 1 } else { op - 1 },
        0xC6 => 0xC7, 0xC7 => 0xC6,
        _ => return None,
    })
}

fn each_pos(c: &mut Code, f: &mut dyn FnMut(&mut usize)) {
    for i in &mut c.insns {
        match i {
            Insn::Jump(_, t) => f(t),
            Insn::TSwitch { def, to, .. } => { f(def); to.iter_mut().for_each(&mut *f) }
            Insn::LSwitch { def, to } => { f(def); to.iter_mut().for_each(|x| f(&mut x.1)) }
            _ => {}
        }
    }
    for x in &mut c.catches { f(&mut x.0); f(&mut x.1); f(&mut x.2) }
    for x in &mut c.lines { f(&mut x.0) }
    for x in &mut c.lvars { f(&mut x.start); f(&mut x.end) }
    for a in &mut c.attrs {
        if let Attr::TypeAnnots(_, v) = a {
            for t in v {
                match &mut t.target {
                    Target::Vars(_, v) => v.iter_mut().for_each(|x| { f(&mut x.0); f(&mut x.1) }),
                    Target::Pos(_, p, _) => f(p),
                    _ => {}
                }
            }
        }
    }
}

fn fold(c: &mut Code) -> bool {
    let n = c.insns.len();
    let mut referred = vec![false; n + 1];
    each_pos(c, &mut |p| if *p <= n { referred[*p] = true });
    let mut map = vec![0usize; n + 1];
    let mut out: Vec<Insn> = Vec::with_capacity(n);
    let mut i = 0;
    while i < n {
        map[i] = out.len();
        if let (Insn::Jump(op, t), Some(Insn::Jump(0xA7, far))) = (&c.insns[i], c.insns.get(i + 1)) {
            if let Some(inv) = invert(*op) {
                if *t == i + 2 && !referred[i + 1] {
                    out.push(Insn::Jump(inv, *far));
                    map[i + 1] = out.len() - 1;
                    i += 2;
                    continue;
                }
            }
        }
        out.push(c.insns[i].clone());
        i += 1;
    }
    map[n] = out.len();
    if out.len() == n { return false }
    c.insns = out;
    each_pos(c, &mut |p| if *p <= n { *p = map[*p] });
    true
}

fn canon_code(c: &mut Code) {
    c.attrs.iter_mut().for_each(canon_attr);
    c.lines.sort_by_key(|l| l.0);
    for i in &mut c.insns {
        if let Insn::LSwitch { to, .. } = i { to.sort() }
    }
    // `if !c skip; goto far; skip:` is the permitted spelling of a far conditional jump:
    // fold it unless something else refers to the inner goto.
    // Folding one can make another of what is around it. Where no jump can be far, there is
    // nothing to permit.
    let most: usize = c.insns.iter().map(|i| match i { Insn::TSwitch { to, .. } => 16 + 4 * to.len(), Insn::LSwitch { to, .. } => 12 + 8 * to.len(), _ => 10 }).sum();
    if most > 32767 { while fold(c) {} }
    c.lvars.sort();
    // equal exception rows are indistinguishable: name the first of them
    let rows = c.catches.clone();
    for a in &mut c.attrs {
        if let Attr::TypeAnnots(_, v) = a {
            for t in v {
                if let Target::Catch(i) = &mut t.target {
                    if let Some(r) = rows.get(*i as usize) { *i = rows.iter().position(|x| x == r).unwrap() as u16 }
                }
            }
        }
    }
}

/// Brings a class to the form in which equal content compares equal.
pub fn canon(mut c: Class) -> Class {
    c.flags &= flagbits::CLASS;
    for f in &mut c.fields { f.flags &= flagbits::FIELD; f.attrs.iter_mut().for_each(canon_attr) }
    for m in &mut c.methods { m.flags &= flagbits::METHOD; m.attrs.iter_mut().for_each(canon_attr) }
    c.attrs.iter_mut().for_each(canon_attr);
    // one bootstrap table, wherever it stood
    let has = lists(&c);
    let (mut c, table) = split(c);
    if has { c.attrs.push(Attr::Bootstrap(table)) }
    c
}

/// Orders only what has no order of its own: the element values of annotations.
pub fn order_maps(c: &mut Class) {
    fn attr(a: &mut Attr) {
        match a {
            Attr::Code(c) => c.attrs.iter_mut().for_each(attr),
            Attr::Annots(..) | Attr::TypeAnnots(..) | Attr::ParamAnnots(..) | Attr::AnnotDefault(_) => canon_attr(a),
            _ => {}
        }
    }
    for m in c.fields.iter_mut().chain(&mut c.methods) { m.attrs.iter_mut().for_each(attr) }
    c.attrs.iter_mut().for_each(attr);
}

/// Whether it has a bootstrap table, if only an empty one.
fn lists(c: &Class) -> bool { c.attrs.iter().any(|a| matches!(a, Attr::Bootstrap(_))) }
/// The class without its bootstrap table, and the table.
pub fn split(mut c: Class) -> (Class, Vec<Bsm>) {
    let mut table = vec![];
    c.attrs.retain(|a| if let Attr::Bootstrap(t) = a { table.extend(t.iter().cloned()); false } else { true });
    (c, table)
}

fn uses_cst<'a>(c: &'a Cst, out: &mut Vec<&'a Bsm>) {
    if let Cst::Dyn(d) = c { uses_dyn(d, out) }
}
fn uses_dyn<'a>(d: &'a Dyn, out: &mut Vec<&'a Bsm>) {
    out.push(&d.bsm);
    for a in &d.bsm.args { uses_cst(a, out) }
}
/// Every bootstrap method some dynamic entry of the class is bound to.
pub fn bound<'a>(c: &'a Class, table: &'a [Bsm]) -> Vec<&'a Bsm> {
    let mut out = vec![];
    for m in &c.methods {
        for a in &m.attrs {
            if let Attr::Code(c) = a {
                for i in &c.insns {
                    match i { Insn::Push(k) => uses_cst(k, &mut out), Insn::InvokeDyn(d) | Insn::Computed(_, d, _) => uses_dyn(d, &mut out), _ => {} }
                }
            }
        }
    }
    for b in table { for a in &b.args { uses_cst(a, &mut out) } }
    out
}

/// Compares what was stored with what was to be stored (both canonical). The stored bootstrap
/// table may have rows the class did not list, if dynamic entries need them.
pub fn same_saved(want: &Class, got: &Class) -> Result<(), String> {
    let (w, wt) = split(want.clone());
    let (g, gt) = split(got.clone());
    if w != g { return Err(diff(&w, &g)) }
    if gt.len() < wt.len() || gt[..wt.len()] != wt[..] { return Err(format!("bootstrap table stored as {gt:?}, class lists {wt:?}")) }
    let (wl, gl) = (lists(want), lists(got));
    if gl != (wl || !gt.is_empty()) { return Err(format!("a bootstrap table is {}stored, the class lists {}, {} rows needed", if gl { "" } else { "not " }, if wl { "one" } else { "none" }, gt.len())) }
    let used = bound(want, &gt);
    for i in wt.len()..gt.len() {
        if gt[..i].contains(&gt[i]) { return Err(format!("bootstrap table row {i} stored again: {:?}", gt[i])) }
        if !used.contains(&&gt[i]) { return Err(format!("bootstrap table row {i} belongs to nothing: {:?}", gt[i])) }
    }
    Ok(())
}

/// First difference between two models, for the report.
pub fn diff(want: &Class, got: &Class) -> String {
    if want == got { return "equal".into() }
    let a = format!("{want:#?}");
    let b = format!("{got:#?}");
    let (al, bl): (Vec<_>, Vec<_>) = (a.lines().collect(), b.lines().collect());
    let mut i = 0;
    while i < al.len() && i < bl.len() && al[i] == bl[i] { i += 1 }
    let ctx: Vec<_> = al[i.saturating_sub(6)..i].iter().map(|s| s.trim()).collect();
    let cut = |l: &[&str]| -> String {
        let s: String = l.iter().take(8).map(|s| s.trim()).collect::<Vec<_>>().join(" ");
        s.chars().take(400).collect()
    };
    format!("after [{}] expected [{}] found [{}]", ctx.join(" "), cut(&al[i.min(al.len())..]), cut(&bl[i.min(bl.len())..]))
}

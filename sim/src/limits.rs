//! C13: classes at, next to and beyond what the format can represent.
use crate::build;
use crate::dec;
use crate::enc;
use crate::gen;
use crate::model::*;
use crate::scen;
use crate::sim::*;
use crate::stream::*;
use coffer::annotation::{CodeTypeAnnotation, CodeTypeAnnotationTarget, LocalVarTarget};
use coffer::prelude::{Catch, CodeAttribute, Instruction, JumpCondition, Label, LocalVariable, MethodAttribute, OrDynamic, Type};

fn plain() -> Class {
    Class { minor: 0, major: 55, flags: 0x21, name: "M".into(), sup: Some("java/lang/Object".into()), itfs: vec![], fields: vec![], methods: vec![], attrs: vec![] }
}
fn field(n: &str) -> MemberDecl { MemberDecl { flags: 1, name: n.into(), desc: "I".into(), attrs: vec![] } }
fn method(n: &str, attrs: Vec<Attr>) -> MemberDecl { MemberDecl { flags: 1, name: n.into(), desc: "()V".into(), attrs } }
fn code(insns: Vec<Insn>) -> Code { Code { max_stack: 1, max_locals: 1, insns, catches: vec![], lines: vec![], lvars: vec![], attrs: vec![] } }
fn ret() -> Vec<Insn> { vec![Insn::Op(0), Insn::Op(0xB1)] }
fn with_code(mut c: Class, k: Code) -> Class { c.methods.push(method("m", vec![Attr::Code(Box::new(k))])); c }
fn annot(n: usize) -> Annot { Annot { ty: "LA;".into(), vals: (0..n).map(|i| (JStr::new(&format!("v{i}")), AVal::Str("k".into()))).collect() } }
fn rep<T: Clone>(x: T, n: usize) -> Vec<T> { vec![x; n] }
fn s(v: &str) -> JStr { v.into() }

const KINDS: &[(&str, usize)] = &[
    ("interfaces", 65535), ("fields", 65535), ("methods", 65535), ("class attributes", 65535), ("field attributes", 65535), ("method attributes", 65535), ("code attributes", 65535),
    ("thrown exceptions", 65535), ("inner classes", 65535), ("nest members", 65535), ("module packages", 65535), ("module requires", 65535), ("module exports", 65535), ("module opens", 65535),
    ("module uses", 65535), ("module provides", 65535), ("module export targets", 65535), ("module open targets", 65535), ("module providers", 65535), ("method parameters", 255), ("parameter annotation lists", 255),
    ("annotations", 65535), ("type annotations", 65535), ("annotations of one parameter", 65535), ("annotation array", 65535), ("type path", 255), ("exception table", 65535), ("line numbers", 65535),
    ("local variables", 65535), ("variable ranges of a type annotation", 65535), ("bootstrap arguments", 65535), ("bootstrap table", 65535),
    ("text, one-byte", 65535), ("text, two-byte", 32767), ("text, three-byte", 21845), ("text, pairs", 10922), ("constant text", 65535), ("member name", 65535), ("attribute name", 65535), ("debug extension", 65535),
    ("descriptor length", 65532), ("pool of names", 65500), ("pool of two-slot constants", 32700), ("pool of ints", 65500), ("constants of one byte index", 250), ("code of one-byte instructions", 65534), ("jump across code", 65530), ("conditional jump across code", 65520),
    ("switch table", 16379), ("lookup table", 8189), ("array dimensions", 254), ("raw attribute", 65535), ("annotation elements", 32700), ("bootstrap rows with distinct arguments", 32700), ("table in method", 65535), ("invisible annotations", 65535),
    ("annotation nesting", 128), ("signature nesting", 128), ("dynamic nesting", 128),
];

fn subject(k: usize, n: usize, variant: usize) -> Class {
    let mut c = plain();
    let module = |f: &mut dyn FnMut(&mut Module)| { let mut m = Module { name: s("m"), flags: 0, version: None, requires: vec![], exports: vec![], opens: vec![], uses: vec![], provides: vec![] }; f(&mut m); vec![Attr::Module(m)] };
    let ta = |t: Target, p: Vec<(u8, u8)>| TAnnot { target: t, path: p, annot: annot(0) };
    match KINDS[k].0 {
        "interfaces" => c.itfs = rep(s("I"), n),
        "fields" => c.fields = rep(field("f"), n),
        "methods" => c.methods = rep(method("m", vec![]), n),
        "class attributes" => c.attrs = rep(Attr::Synthetic, n),
        "field attributes" => { let mut f = field("f"); f.attrs = rep(Attr::Deprecated, n); c.fields.push(f) }
        "method attributes" => c.methods.push(method("m", rep(Attr::Synthetic, n))),
        "code attributes" => {
            // tables of lines and variables are attributes as well, the variables one or two
            let mut k = code(ret());
            let lines = variant & 1;
            let vars = (variant >> 1) % 3;
            if lines == 1 { k.lines = vec![(0, 7)] }
            if vars > 0 { k.lvars = vec![LVar { start: 0, end: 1, name: s("v"), index: 1, desc: Some(s("LA;")), sig: if vars == 2 { Some(s("TX;")) } else { None } }] }
            k.attrs = rep(Attr::Raw(s("X"), vec![]), n.saturating_sub(lines + vars));
            c = with_code(c, k)
        }
        "thrown exceptions" => c.methods.push(method("m", vec![Attr::Exceptions(rep(s("E"), n))])),
        "inner classes" => c.attrs = vec![Attr::InnerClasses(rep(Inner { inner: s("A$B"), outer: None, name: None, flags: 0 }, n))],
        "nest members" => c.attrs = vec![Attr::NestMembers(rep(s("A"), n))],
        "module packages" => c.attrs = vec![Attr::ModulePackages(rep(s("p"), n))],
        "module requires" => c.attrs = module(&mut |m| m.requires = rep((s("r"), 0, None), n)),
        "module exports" => c.attrs = module(&mut |m| m.exports = rep((s("r"), 0, vec![]), n)),
        "module opens" => c.attrs = module(&mut |m| m.opens = rep((s("r"), 0, vec![]), n)),
        "module uses" => c.attrs = module(&mut |m| m.uses = rep(s("r"), n)),
        "module provides" => c.attrs = module(&mut |m| m.provides = rep((s("r"), vec![]), n)),
        "module export targets" => c.attrs = module(&mut |m| m.exports = vec![(s("r"), 0, rep(s("t"), n))]),
        "module open targets" => c.attrs = module(&mut |m| m.opens = vec![(s("r"), 0, rep(s("t"), n))]),
        "module providers" => c.attrs = module(&mut |m| m.provides = vec![(s("r"), rep(s("t"), n))]),
        "method parameters" => c.methods.push(method("m", vec![Attr::MethodParams(rep((Some(s("p")), 0), n))])),
        "parameter annotation lists" => c.methods.push(method("m", vec![Attr::ParamAnnots(variant % 2 == 0, rep(vec![], n))])),
        "annotations" => c.attrs = vec![Attr::Annots(true, rep(annot(0), n))],
        "invisible annotations" => { let mut f = field("f"); f.attrs = vec![Attr::Annots(false, rep(annot(0), n))]; c.fields.push(f) }
        "type annotations" => c.attrs = vec![Attr::TypeAnnots(variant % 2 == 0, rep(ta(Target::Plain(0x10, vec![0, 0]), vec![]), n))],
        "annotations of one parameter" => c.methods.push(method("m", vec![Attr::ParamAnnots(true, vec![rep(annot(0), n)])])),
        "annotation array" => c.methods.push(method("m", vec![Attr::AnnotDefault(AVal::Array(rep(AVal::Int(b'I', 3), n)))])),
        "type path" => c.attrs = vec![Attr::TypeAnnots(true, vec![ta(Target::Plain(0, vec![0]), rep((0, 0), n))])],
        "exception table" => { let mut k = code(ret()); k.catches = rep((0, 1, 1, None), n); c = with_code(c, k) }
        "line numbers" => { let mut k = code(ret()); k.lines = (0..n).map(|i| (0, i as u16)).collect(); c = with_code(c, k) }
        "local variables" => { let mut k = code(ret()); k.lvars = (0..n).map(|i| LVar { start: 0, end: 1 + i / 65536, name: s("v"), index: i as u16, desc: if variant % 2 == 0 { Some(s("I")) } else { None }, sig: if variant % 2 == 1 { Some(s("TX;")) } else { None } }).collect(); c = with_code(c, k) }
        "variable ranges of a type annotation" => { let mut k = code(ret()); k.attrs = vec![Attr::TypeAnnots(true, vec![ta(Target::Vars(0x40 + (variant % 2) as u8, (0..n).map(|i| (0, 1, i as u16)).collect()), vec![])])]; c = with_code(c, k) }
        "bootstrap arguments" => c.attrs = vec![Attr::Bootstrap(vec![Bsm { handle: handle(), args: rep(Cst::Int(5), n) }])],
        "bootstrap table" => c.attrs = vec![Attr::Bootstrap(rep(Bsm { handle: handle(), args: vec![] }, n))],
        "text, one-byte" => c.attrs = vec![Attr::SourceFile(JStr(rep(b'x' as u16, n)))],
        "text, two-byte" => c.attrs = vec![Attr::SourceFile(JStr(rep(if variant % 2 == 0 { 0 } else { 0x7FF }, n)))],
        "text, three-byte" => c.attrs = vec![Attr::SourceFile(JStr(rep(if variant % 2 == 0 { 0xFFFF } else { 0xD800 }, n)))],
        "text, pairs" => c.attrs = vec![Attr::SourceFile(JStr([0xD83D, 0xDE00].repeat(n)))],
        "constant text" => { let mut v = vec![Insn::Push(Cst::Str(JStr(rep(b'y' as u16, n))))]; v.extend(ret()); c = with_code(c, code(v)) }
        "member name" => { let mut f = field("f"); f.name = JStr(rep(b'n' as u16, n)); if variant % 2 == 0 { c.fields.push(f) } else { f.desc = s("()V"); c.methods.push(f) } }
        "attribute name" => { let a = Attr::Raw(JStr(rep(b'a' as u16, n)), vec![1, 2]); match variant % 4 { 0 => c.attrs.push(a), 1 => { let mut f = field("f"); f.attrs = vec![a]; c.fields.push(f) } 2 => c.methods.push(method("m", vec![a])), _ => { let mut k = code(ret()); k.attrs = vec![a]; c = with_code(c, k) } } }
        // framed by a 32-bit length: no limit here
        "debug extension" => c.attrs = vec![Attr::SourceDebug(JStr(rep(b'd' as u16, n)))],
        "descriptor length" => { let mut m = method("m", vec![]); let mut d = rep(b'I' as u16, n + 3); d[0] = b'(' as u16; d[n + 1] = b')' as u16; d[n + 2] = b'V' as u16; m.desc = JStr(d); c.methods.push(m) }
        "pool of names" => c.fields = (0..n).map(|i| field(&format!("f{i}"))).collect(),
        "pool of two-slot constants" => {
            // 20000 to a body
            let mut all: Vec<Insn> = (0..variant / 2).map(|i| Insn::Push(Cst::Int(i as i32 + 40000))).collect();
            all.extend((0..n).map(|i| Insn::Push(if variant % 2 == 0 { Cst::Long(i as i64 + 100) } else { Cst::Double(i as u64 + 100) })));
            for (i, ch) in all.chunks(20000).enumerate() { let mut v = ch.to_vec(); v.push(Insn::Op(0xB1)); c.methods.push(method(&format!("m{i}"), vec![Attr::Code(Box::new(code(v)))])) }
        }
        "pool of ints" | "constants of one byte index" => {
            let mut all: Vec<Insn> = (0..n).map(|i| Insn::Push(Cst::Int(i as i32 + 40000))).collect();
            match variant { 2 => all.push(Insn::Push(Cst::Long(100))), 3 => all.push(Insn::Push(Cst::Double(100))), _ => {} }
            for (i, ch) in all.chunks(20000).enumerate() { let mut v = ch.to_vec(); v.push(Insn::Op(0xB1)); c.methods.push(method(&format!("m{i}"), vec![Attr::Code(Box::new(code(v)))])) }
        }
        "code of one-byte instructions" => { let mut v = rep(Insn::Op(0x57), n); v.push(Insn::Op(0xB1)); let mut k = code(v); k.catches = vec![(0, n + 1, 0, None)]; k.lvars = vec![LVar { start: 0, end: n + 1, name: s("v"), index: 0, desc: Some(s("I")), sig: None }]; k.lines = vec![(n, 7)]; c = with_code(c, k) }
        "jump across code" => { let mut v = vec![Insn::Jump(if variant % 2 == 0 { 0xA7 } else { 0xA8 }, n)]; v.extend(rep(Insn::Op(0), n)); v.push(Insn::Op(0xB1)); c = with_code(c, code(v)) }
        "conditional jump across code" => { let mut v = vec![Insn::Jump(0x99, n)]; v.extend(rep(Insn::Op(0), n)); v.push(Insn::Op(0xB1)); c = with_code(c, code(v)) }
        "switch table" => { let mut v = vec![Insn::TSwitch { def: 1, low: -5, to: rep(2, n) }]; v.extend(ret()); c = with_code(c, code(v)) }
        "lookup table" => { let mut v = vec![Insn::LSwitch { def: 1, to: (0..n).map(|i| (i as i32 * 3, 1 + i % 2)).collect() }]; v.extend(ret()); c = with_code(c, code(v)) }
        "array dimensions" => { let mut f = field("f"); f.desc = JStr([rep(b'[' as u16, n.min(255)), vec![b'I' as u16]].concat()); c.fields.push(f); let mut v = vec![Insn::NewArray(JStr([rep(b'[' as u16, n.min(255)), vec![b'I' as u16]].concat()), if variant % 2 == 0 { n.min(255) as u8 } else { 1 })]; v.extend(ret()); c = with_code(c, code(v)) }
        "raw attribute" => c.attrs = vec![Attr::Raw(s("Big"), rep(7, n))],
        "annotation elements" => c.attrs = vec![Attr::Annots(true, vec![annot(n)])],
        "bootstrap rows with distinct arguments" => c.attrs = vec![Attr::Bootstrap((0..n).map(|i| Bsm { handle: handle(), args: vec![Cst::Int(i as i32)] }).collect())],
        "table in method" => { let mut k = code(ret()); k.catches = rep((0, 1, 1, Some(s("E"))), n); k.attrs = vec![Attr::TypeAnnots(true, vec![ta(Target::Catch(0), vec![])])]; c = with_code(c, k) }
        // no limits of the format, but the library has its own
        "annotation nesting" => {
            let mut v = AVal::Str(s("k"));
            for i in 0..n { v = if (i + variant) % 3 == 0 || variant == 1 { AVal::Array(vec![v]) } else { AVal::Annot(Annot { ty: s("LA;"), vals: vec![(s("v"), v)] }) } }
            let a = Annot { ty: s("LA;"), vals: vec![(s("v"), v.clone())] };
            match variant {
                0 => c.methods.push(method("m", vec![Attr::AnnotDefault(v)])),
                1 => c.attrs = vec![Attr::Annots(true, vec![a])],
                2 => c.methods.push(method("m", vec![Attr::ParamAnnots(false, vec![vec![a]])])),
                3 => { let mut f = field("f"); f.attrs = vec![Attr::Annots(false, vec![a])]; c.fields.push(f) }
                4 => { let mut k = code(ret()); k.attrs = vec![Attr::TypeAnnots(true, vec![TAnnot { target: Target::Pos(0x44, 0, None), path: vec![], annot: a }])]; c = with_code(c, k) }
                _ => c.attrs = vec![Attr::TypeAnnots(false, vec![TAnnot { target: Target::Plain(0x10, vec![0, 0]), path: vec![], annot: a }])],
            }
        }
        "signature nesting" => {
            let w = ["", "+", "-", "[", "", ""][variant];
            let t = format!("{}TX;{}", format!("La/B<{w}").repeat(n), ">;".repeat(n));
            // the signature of a field can only be made from its text, so not beyond the limit
            let short = n <= 100;
            match variant {
                0 | 1 if short => { let mut f = field("f"); f.attrs = vec![Attr::Signature(s(&t))]; c.fields.push(f) }
                0 | 1 | 2 if n > 0 && w != "[" => c.attrs = vec![Attr::Signature(s(&t))],
                3 => c.methods.push(method("m", vec![Attr::Signature(s(&format!("({t})V")))])),
                4 => c.methods.push(method("m", vec![Attr::Signature(s(&format!("<T:{t}>(){t}^La/E;")))])),
                _ if !short => c.methods.push(method("m", vec![Attr::Signature(s(&format!("<T::{t}>()V^{t}")))])),
                _ => { let mut k = code(ret()); k.lvars = vec![LVar { start: 0, end: 1, name: s("v"), index: 1, desc: None, sig: Some(s(&t)) }]; c = with_code(c, k) }
            }
        }
        "dynamic nesting" => {
            let mut b = Bsm { handle: handle(), args: vec![] };
            for i in 0..n { b = Bsm { handle: handle(), args: if variant & 1 == 0 { vec![Cst::Dyn(Dyn { bsm: Box::new(b), name: s("n"), desc: s("I") })] } else { vec![Cst::Int(i as i32), Cst::Dyn(Dyn { bsm: Box::new(b), name: s("n"), desc: s("J") }), Cst::Str(s("x"))] } } }
            if variant < 2 { c.attrs = vec![Attr::Bootstrap(vec![b])] }
            else {
                let d = |desc: &str| Dyn { bsm: Box::new(b.clone()), name: s("d"), desc: s(desc) };
                let mut v = ret();
                v.insert(0, if variant & 2 == 0 { Insn::Push(Cst::Dyn(d("I"))) } else { Insn::InvokeDyn(d("()I")) });
                c = with_code(c, code(v))
            }
        }
        o => panic!("{o}"),
    }
    canon(c)
}
fn handle() -> Handle { Handle { kind: 6, member: Member { kind: MKind::Method, owner: s("B"), name: s("b"), desc: s("()V") } } }

fn pool_count(b: &[u8]) -> i64 { u16::from_be_bytes([b[8], b[9]]) as i64 }

fn must_hold(sm: &mut Sim, what: &str, m: &Class, must: bool) -> Check {
    let c = scen::built(sm, m)?;
    let w = save(&c, if sm.t.chance(1, 2) { WHOLE } else { Plan::draw(&mut sm.t) })?;
    sm.sig.u(w.log);
    match w.res {
        Err(e) => if must { viol("refused-save", format!("{what} fits the format, yet is refused: {e:?}")) } else { bump("probe:refused beyond a limit", 1); Ok(()) },
        Ok(()) => {
            match dec::class(&w.out) {
                Err(e) => return viol("corrupt", format!("{what}: save reports success, the output is not a well-formed class file: {e}")),
                Ok((_, n)) if n != w.out.len() => return viol("corrupt", format!("{what}: save reports success, {} bytes behind the class", w.out.len() - n)),
                Ok((g, _)) => if let Err(e) = same_saved(m, &canon(g)) { return viol("corrupt", format!("{what}: save reports success, the output says something else: {e}")) },
            }
            bump("probe:saved at a limit", 1);
            let l = load(&w.out, WHOLE)?;
            match l.res { Err(e) => viol("unloadable", format!("{what}: saved, but does not load back: {e:?}")), Ok(c) => match view_canon(&c)? { Ok(v) if same_saved(m, &v).is_ok() => Ok(()), Ok(v) => viol("changed", format!("{what}: {}", same_saved(m, &v).unwrap_err())), Err(e) => viol("unreadable", e) } }
        }
    }
}

pub fn c13(sm: &mut Sim) -> Check {
    sm.nontrivial = true;
    if sm.t.chance(1, 3) { return impossible(sm) }
    let k = sm.t.n(KINDS.len());
    let (name, limit) = KINDS[k];
    let variant = sm.t.n(6);
    let at = |t: &mut crate::tape::Tape| -> isize { match t.n(6) { 0 => 0, 1 => 1, 2 => -1, 3 => t.n(9) as isize - 4, 4 => t.range(1, 300) as isize, _ => t.n(41) as isize - 20 } };
    // where the pool is the limit, find out where exactly it runs full
    let pool = name.starts_with("pool") || name == "annotation elements" || name == "bootstrap rows with distinct arguments";
    // what comes after the last constant may use the first ones again
    let tail = if pool { sm.t.n(6) } else { 0 };
    let subject = |k: usize, n: usize, variant: usize| -> Class {
        let mut c = subject(k, n, variant);
        match tail {
            1 => c.attrs.push(Attr::NestHost(s("M"))),
            2 => c.attrs.push(Attr::NestMembers(vec![s("java/lang/Object"), s("M")])),
            3 => c.methods.push(method("M", vec![])),
            4 => { c.methods.push(method("I", vec![])); c.attrs.push(Attr::SourceFile(s("M"))) }
            _ => {}
        }
        canon(c)
    };
    let mut delta = 0;
    let n = if pool {
        let small = subject(k, 50, variant);
        let c = scen::built(sm, &small)?;
        let w = save(&c, WHOLE)?;
        if w.res.is_err() { return viol("refused-save", format!("a small class ({name}) is refused: {:?}", w.res)) }
        let e0 = enc::encode(&small, 0).unwrap();
        delta = pool_count(&w.out) - pool_count(&e0);
        let e1 = enc::encode(&subject(k, 51, variant), 0).unwrap();
        let per = (pool_count(&e1) - pool_count(&e0)).max(1);
        let full = 50 + (65535 - pool_count(&w.out)) / per;
        (full as isize + at(&mut sm.t)).max(1) as usize
    } else { (limit as isize + at(&mut sm.t)).max(0) as usize };
    let what = format!("{name}: {n}{}", if tail > 0 { ", then constants used before" } else { "" });
    sm.note(what.clone());
    sm.sig.u(k as u64 * 1_000_000 + n as u64);
    sm.sig.u(variant as u64);
    let m = subject(k, n, variant);
    let must = !(name.ends_with("nesting") && n > 100) && match enc::encode(&m, 0) { Ok(b) => pool_count(&b) + delta <= 65535, Err(_) => false };
    bump(if must { "probe:classes within a limit" } else { "probe:classes beyond a limit" }, 1);
    must_hold(sm, &what, &m, must)
}

/// Classes that cannot be stored at all: each must be refused.
fn impossible(sm: &mut Sim) -> Check {
    let p = *sm.t.pick(&[gen::SMALL, gen::CODE, gen::RICH]);
    let mut m = scen::subject(sm, p);
    if !m.methods.iter().any(|m| m.attrs.iter().any(|a| matches!(a, Attr::Code(_)))) {
        let k = gen::Gen::new(&mut sm.t, gen::SMALL).code();
        m.methods.push(method("extra", vec![Attr::Code(Box::new(k))]));
    }
    let mut c = scen::built(sm, &m)?;
    let bad = Label(0xDEAD_BEEF);
    let what = {
        let codes: Vec<&mut Code2> = c.methods.iter_mut().flat_map(|m| m.attributes.iter_mut()).filter_map(|a| if let MethodAttribute::Code(k) = a { Some(k) } else { None }).collect();
        let i = sm.t.n(codes.len());
        let k = codes.into_iter().nth(i).unwrap();
        // a label that is surely not there
        k.code.retain(|i| !matches!(i, Instruction::Label(l) if *l == bad));
        let good = Label(0x1234_5678);
        k.code.retain(|i| !matches!(i, Instruction::Label(l) if *l == good));
        k.code.insert(0, Instruction::Label(good));
        let at = sm.t.n(k.code.len());
        let tann = |t| CodeAttribute::VisibleTypeAnnotations(vec![CodeTypeAnnotation { target: t, type_path: vec![], annotation_type: build_ty(), element_values: Default::default() }]);
        let late = Label(0x0BAD_CAFE);
        k.code.retain(|i| !matches!(i, Instruction::Label(l) if *l == late));
        k.code.push(Instruction::Label(late));
        use CodeTypeAnnotationTarget as T;
        match sm.t.n(22) {
            21 => {
                let v = |d: bool| LocalVariable { start: good, end: late, name: crate::text::ws("v"), descriptor: d.then(build_ty), signature: None, index: 1 + d as u16 };
                let mut vars = vec![v(false)];
                for _ in 0..sm.t.n(3) { let i = sm.t.n(vars.len() + 1); vars.insert(i, v(true)) }
                k.attrs.push(CodeAttribute::LocalVariables(vars));
                "variable without a descriptor or signature"
            }
            0 => { k.code.insert(at, Instruction::Jump(JumpCondition::Always, bad)); "goto without a target" }
            1 => { k.code.insert(at, Instruction::Jump(JumpCondition::IsNull, bad)); "conditional jump without a target" }
            2 => { k.code.insert(at, Instruction::Jsr(bad)); "jsr without a target" }
            3 => { k.code.insert(at, Instruction::TableSwitch { default: bad, low: 0, offsets: vec![good] }); "table switch without a default target" }
            4 => { k.code.insert(at, Instruction::TableSwitch { default: good, low: 0, offsets: vec![good, bad] }); "table switch without a target" }
            5 => { k.code.insert(at, Instruction::LookupSwitch { default: good, table: [(1, good), (7, bad)].into_iter().collect() }); "lookup switch without a target" }
            6 => { k.code.insert(at, Instruction::TableSwitch { default: good, low: 0, offsets: vec![] }); "table switch without cases" }
            7 => { k.code.insert(at, Instruction::TableSwitch { default: good, low: i32::MAX - 1, offsets: vec![good; 3 + sm.t.n(5)] }); "table switch beyond the largest int" }
            8 => { k.catches.push(match sm.t.n(3) { 0 => Catch { start: bad, end: good, handler: good, catch: None }, 1 => Catch { start: good, end: bad, handler: good, catch: None }, _ => Catch { start: good, end: late, handler: bad, catch: None } }); "exception range without a label" }
            9 => { let (a, b) = if sm.t.n(2) == 0 { (bad, good) } else { (good, bad) }; k.attrs.push(CodeAttribute::LocalVariables(vec![LocalVariable { start: a, end: b, name: crate::text::ws("v"), descriptor: Some(build_ty()), signature: None, index: 1 }])); "variable range without a label" }
            10 => { k.attrs.push(CodeAttribute::LocalVariables(vec![LocalVariable { start: late, end: good, name: crate::text::ws("v"), descriptor: Some(build_ty()), signature: None, index: 1 }])); "variable range that ends before it starts" }
            11 => { k.attrs.push(tann(T::InstanceOf(bad))); "type annotation without a position" }
            12 => { k.attrs.push(tann(T::LocalVariable(vec![LocalVarTarget { start: good, end: bad, idx: 0 }]))); "annotated variable range without a label" }
            13 => { k.attrs.push(tann(T::LocalVariable(vec![LocalVarTarget { start: late, end: good, idx: 0 }]))); "annotated variable range that ends before it starts" }
            14 => { k.attrs.push(tann(T::CatchParameter(Catch { start: good, end: late, handler: good, catch: Some(crate::text::ws("no/Such$Exception")) }))); "annotation of a missing exception row" }
            15 => { k.code.insert(at, Instruction::NewArray(OrDynamic::Static(build_ty()), 0)); "array of no dimensions" }
            16 => { let d = 1 + sm.t.n(4) as u8; k.code.insert(at, Instruction::NewArray(OrDynamic::Static(Type::ArrayRef(d, Box::new(Type::Int))), d + 1 + sm.t.n(3) as u8)); "array with fewer dimensions than it is created with" }
            17 => { k.code.insert(at, Instruction::NewArray(OrDynamic::Static(build_ty()), 2 + sm.t.n(254) as u8)); "array of many dimensions of a class that is none" }
            18 => { k.code.clear(); k.attrs.clear(); k.catches.clear(); "no code at all" }
            19 => { for _ in 0..66000 { k.code.push(Instruction::Pop1) } "more code than fits" }
            _ => { let n = 66000; k.code.splice(1..1, std::iter::repeat(Instruction::NoOp).take(n)); k.code.push(Instruction::Jump(JumpCondition::Always, good)); "more code than fits, with a jump across" }
        }
    };
    sm.note(what);
    sm.sig.bytes(what.as_bytes());
    bump("probe:classes that cannot be stored", 1);
    let w = save(&c, Plan::draw(&mut sm.t))?;
    sm.sig.u(w.log);
    let _ = build::version;
    match w.res { Ok(()) => viol("accepted", format!("{what}: the save reports success")), Err(_) => Ok(()) }
}
type Code2 = coffer::code::Code;
fn build_ty() -> Type { crate::text::ty(&JStr::new("LA;")).unwrap() }

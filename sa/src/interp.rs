//! Forward, interprocedural (inlining), path-sensitive abstract interpreter over MIR.
use crate::facts::*;
use crate::state::*;
use crate::term::*;
use rustc_hir::def::DefKind;
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Instance, InstanceKind, ShimKind, TyCtxt, TypeVisitableExt, TypingEnv};
use rustc_span::def_id::DefId;
use rustc_span::Span;
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

pub type Tcx = TyCtxt<'static>;
thread_local! { static TCX: Cell<Option<Tcx>> = const { Cell::new(None) }; }
pub fn set_tcx(t: Tcx) {
    TCX.with(|c| c.set(Some(t)))
}
pub fn tcx() -> Tcx {
    TCX.with(|c| c.get().unwrap())
}
thread_local! { static TENV: Cell<Option<TypingEnv<'static>>> = const { Cell::new(None) }; }
pub fn tenv() -> TypingEnv<'static> {
    TENV.with(|c| c.get()).unwrap_or_else(TypingEnv::fully_monomorphized)
}
pub fn set_tenv(t: TypingEnv<'static>) {
    TENV.with(|c| c.set(Some(t)))
}

// ---- type helpers -------------------------------------------------------------------------
pub fn adt_path(t: Ty) -> Option<String> {
    match t.kind() {
        ty::Adt(d, _) => Some(path_of(d.did())),
        _ => None,
    }
}
thread_local! { static PATHS: std::cell::RefCell<HashMap<DefId, S>> = std::cell::RefCell::new(HashMap::new()); }
pub fn path_of(d: DefId) -> String {
    path_s(d).to_string()
}
pub fn path_s(d: DefId) -> S {
    if let Some(s) = PATHS.with(|p| p.borrow().get(&d).copied()) {
        return s;
    }
    let raw = rustc_middle::ty::print::with_no_trimmed_paths!(tcx().def_path_str(d));
    let s = sym_str(&strip_generics(&raw));
    PATHS.with(|p| p.borrow_mut().insert(d, s));
    s
}
/// remove `::<...>` segments
fn strip_generics(s: &str) -> String {
    let b: Vec<char> = s.chars().collect();
    let mut out = String::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] == ':' && i + 2 < b.len() && b[i + 1] == ':' && b[i + 2] == '<' && !b[i + 3..].starts_with(&['i', 'm', 'p', 'l']) {
            let mut d = 0;
            let mut j = i + 2;
            while j < b.len() {
                if b[j] == '<' {
                    d += 1
                } else if b[j] == '>' && b[j - 1] != '-' {
                    d -= 1;
                    if d == 0 {
                        break;
                    }
                }
                j += 1;
            }
            i = j + 1;
            continue;
        }
        out.push(b[i]);
        i += 1;
    }
    out
}
pub fn peel(t: Ty) -> Ty {
    let mut t = t;
    loop {
        match t.kind() {
            ty::Ref(_, x, _) => t = *x,
            ty::RawPtr(x, _) => t = *x,
            ty::Adt(d, a) => {
                let p = path_s(d.did());
                if matches!(
                    p,
                    "std::boxed::Box" | "std::sync::Arc" | "std::rc::Rc" | "std::ptr::Unique" | "std::ptr::NonNull" | "std::mem::MaybeUninit" | "std::mem::ManuallyDrop"
                        | "std::mem::maybe_dangling::MaybeDangling" | "std::mem::MaybeDangling" | "core::ptr::unique::Unique" | "std::cell::UnsafeCell"
                ) {
                    t = a.type_at(0)
                } else {
                    return t;
                }
            }
            _ => return t,
        }
    }
}
fn is_wrapper(t: Ty) -> bool {
    match t.kind() {
        ty::Adt(..) => peel(t) != t,
        _ => false,
    }
}
pub fn usize_ty() -> Option<Ty> {
    Some(tcx().types.usize)
}
pub fn is_int(t: Ty) -> bool {
    matches!(t.kind(), ty::Int(_) | ty::Uint(_) | ty::Char)
}
/// the type given to quotients and remainders: one for all unsigned operand types
pub fn div_ty(t: Ty) -> Option<Ty> {
    match ty_range(t) {
        Some((0, hi)) if hi <= u64::MAX as i128 => usize_ty(),
        _ => Some(t),
    }
}
pub fn is_enum(t: Ty) -> bool {
    matches!(t.kind(), ty::Adt(d, _) if d.is_enum())
}
pub fn full_mask(t: Option<Ty>) -> u64 {
    match t.map(|t| t.kind()) {
        Some(ty::Adt(d, _)) if d.is_enum() => {
            let n = d.variants().len().min(63);
            (1u64 << n) - 1
        }
        _ => (1u64 << 63) - 1,
    }
}
pub fn fieldless(t: Option<Ty>) -> bool {
    match t.map(|t| t.kind()) {
        Some(ty::Adt(d, _)) if d.is_enum() => d.variants().iter().all(|v| v.fields.is_empty()),
        _ => false,
    }
}
pub fn discr_value(t: Option<Ty>, k: u32) -> i128 {
    match t {
        Some(t) => match t.discriminant_for_variant(tcx(), rustc_abi::VariantIdx::from_u32(k)) {
            Some(d) => {
                let v = d.val as i128;
                if let ty::Int(it) = d.ty.kind() {
                    let bits = it.bit_width().unwrap_or(64);
                    if bits < 128 && v >= (1i128 << (bits - 1)) {
                        return v - (1i128 << bits);
                    }
                }
                v
            }
            None => k as i128,
        },
        None => k as i128,
    }
}
pub fn variant_of_discr(t: Ty, d: i128) -> Option<u32> {
    let n = match t.kind() {
        ty::Adt(a, _) if a.is_enum() => a.variants().len() as u32,
        _ => return None,
    };
    (0..n).find(|k| discr_value(Some(t), *k) == d)
}
pub fn variant_index(t: Ty, name: &str) -> Option<u32> {
    match t.kind() {
        ty::Adt(d, _) => d.variants().iter().position(|v| v.name.as_str() == name).map(|x| x as u32),
        _ => None,
    }
}
pub fn field_index(t: Ty, variant: u32, name: &str) -> Option<u32> {
    match t.kind() {
        ty::Adt(d, _) => {
            let v = if variant == STRUCT { 0 } else { variant as usize };
            d.variants().iter().nth(v)?.fields.iter().position(|f| f.name.as_str() == name).map(|x| x as u32)
        }
        _ => None,
    }
}
pub fn is_coll_ty(t: Ty) -> bool {
    match t.kind() {
        ty::Slice(_) | ty::Array(..) => true,
        ty::Adt(d, _) => matches!(path_s(d.did()), "std::vec::Vec" | "std::collections::HashMap" | "std::collections::BTreeMap" | "std::collections::HashSet" | "std::collections::VecDeque"),
        _ => false,
    }
}
pub fn elem_ty(t: Ty) -> Option<Ty> {
    match t.kind() {
        ty::Slice(e) | ty::Array(e, _) => Some(*e),
        ty::Adt(d, a) => match path_s(d.did()) {
            "std::vec::Vec" | "std::collections::HashSet" | "std::collections::VecDeque" => Some(a.type_at(0)),
            "std::collections::HashMap" | "std::collections::BTreeMap" => Some(Ty::new_tup(tcx(), &[a.type_at(0), a.type_at(1)])),
            _ => None,
        },
        _ => None,
    }
}
pub fn any_elem(v: V) -> V {
    let et = v.ty().and_then(elem_ty).map(peel);
    let i = intern(N::Bvar(sym_str("any")), usize_ty());
    elem(v, i, et)
}
pub fn field_ty(t: Ty, variant: u32, i: u32) -> Option<Ty> {
    match t.kind() {
        ty::Adt(d, a) => {
            let v = if variant == STRUCT { 0 } else { variant as usize };
            let f = d.variants().iter().nth(v)?.fields.iter().nth(i as usize)?;
            Some(norm(f.ty(tcx(), a).skip_norm_wip()))
        }
        ty::Tuple(ts) => ts.get(i as usize).copied(),
        ty::Closure(_, a) => a.as_closure().upvar_tys().get(i as usize).copied(),
        _ => None,
    }
}
pub fn norm(t: Ty) -> Ty {
    let i = Instance::new_raw(rustc_span::def_id::CRATE_DEF_ID.to_def_id(), ty::List::empty());
    if t.has_param() || t.has_aliases() || t.has_erasable_regions() {
        let eb = ty::EarlyBinder::bind(tcx(), t);
        let _ = i;
        match tcx().try_normalize_erasing_regions(tenv(), eb.instantiate_identity()) {
            Ok(t) => t,
            Err(_) => tcx().erase_and_anonymize_regions(t),
        }
    } else {
        t
    }
}
pub fn field_name(a: V, variant: u32, i: u32) -> String {
    match a.ty().map(|t| t.kind()) {
        Some(ty::Adt(d, _)) => {
            let v = if variant == STRUCT { 0 } else { variant as usize };
            match d.variants().iter().nth(v) {
                Some(vd) => {
                    let f = vd.fields.iter().nth(i as usize).map(|f| f.name.to_string()).unwrap_or(i.to_string());
                    if d.is_enum() {
                        format!("{}.{}", vd.name, f)
                    } else {
                        f
                    }
                }
                None => i.to_string(),
            }
        }
        _ => i.to_string(),
    }
}
pub fn variant_name(t: Option<Ty>, k: u32) -> String {
    match t.map(|t| t.kind()) {
        Some(ty::Adt(d, _)) => d.variants().iter().nth(k as usize).map(|v| v.name.to_string()).unwrap_or(k.to_string()),
        _ => k.to_string(),
    }
}
pub fn adt_name(t: Option<Ty>, k: u32) -> String {
    match t.map(|t| t.kind()) {
        Some(ty::Adt(d, _)) => {
            let p = path_s(d.did());
            let p = p.rsplit("::").next().unwrap_or(p);
            if d.is_enum() {
                format!("{}::{}", p, variant_name(t, k))
            } else {
                p.to_string()
            }
        }
        Some(ty::Closure(..)) => "closure".into(),
        _ => "".into(),
    }
}
/// the structural form of opaque `t` as variant `k` with `n` fields, when its variant is known
pub fn expand_as(t: V, k: u32, ty0: Option<Ty>, n: usize, st: &State) -> Option<V> {
    let ty = t.ty().or(ty0)?;
    let en = is_enum(ty);
    if en && st.facts.mask(t) != 1 << k {
        return None;
    }
    if !matches!(ty.kind(), ty::Adt(..) | ty::Tuple(_)) {
        return None;
    }
    let mut f = vec![];
    for i in 0..n as u32 {
        let fty = field_ty(ty, if en { k } else { STRUCT }, i)?;
        f.push(field(t, if en { k } else { STRUCT }, i, Some(peel(fty))));
    }
    Some(adt(k, f, Some(ty)))
}
/// expand an opaque struct/tuple (or enum of known variant) one level
pub fn expand(t: V, variant: Option<u32>, st: &State) -> Option<V> {
    let ty = t.ty()?;
    let (k, n) = match ty.kind() {
        ty::Adt(d, _) if d.is_enum() => {
            let m = st.facts.mask(t);
            let k = match variant {
                Some(k) => k,
                None if m.count_ones() == 1 => m.trailing_zeros(),
                _ => return None,
            };
            (k, d.variants().iter().nth(k as usize)?.fields.len())
        }
        ty::Adt(d, _) if d.is_struct() => (0, d.non_enum_variant().fields.len()),
        ty::Tuple(ts) => (0, ts.len()),
        ty::Closure(_, a) => (0, a.as_closure().upvar_tys().len()),
        _ => return None,
    };
    let en = is_enum(ty);
    let mut f = vec![];
    for i in 0..n as u32 {
        let fty = field_ty(ty, if en { k } else { STRUCT }, i)?;
        f.push(field(t, if en { k } else { STRUCT }, i, Some(peel(fty))));
    }
    Some(adt(k, f, Some(ty)))
}

// ---- bodies -------------------------------------------------------------------------------
pub enum Comp {
    Node(BasicBlock),
    Loop(BasicBlock, Vec<Comp>),
}
pub struct BodyInfo {
    pub body: &'static Body<'static>,
    pub comps: Vec<Comp>,
    pub live: Vec<HashSet<Local>>,
    pub loops: usize,
}
fn succs(body: &Body<'static>, b: BasicBlock) -> Vec<BasicBlock> {
    body.basic_blocks[b].terminator().successors().filter(|s| !body.basic_blocks[*s].is_cleanup).collect()
}
/// Bourdoncle's weak topological order
struct Wto<'a> {
    body: &'a Body<'static>,
    dfn: HashMap<BasicBlock, usize>,
    stack: Vec<BasicBlock>,
    num: usize,
}
impl<'a> Wto<'a> {
    fn component(&mut self, v: BasicBlock) -> Comp {
        let mut part = vec![];
        for s in succs(self.body, v) {
            if self.dfn.get(&s).copied().unwrap_or(0) == 0 {
                self.visit(s, &mut part);
            }
        }
        part.reverse();
        Comp::Loop(v, part)
    }
    fn visit(&mut self, v: BasicBlock, part: &mut Vec<Comp>) -> usize {
        self.stack.push(v);
        self.num += 1;
        let n = self.num;
        self.dfn.insert(v, n);
        let mut head = n;
        let mut lp = false;
        for s in succs(self.body, v) {
            let d = self.dfn.get(&s).copied().unwrap_or(0);
            let min = if d == 0 { self.visit(s, part) } else { d };
            if min <= head {
                head = min;
                lp = true;
            }
        }
        if head == n {
            self.dfn.insert(v, usize::MAX);
            let mut e = self.stack.pop().unwrap();
            if lp {
                while e != v {
                    self.dfn.insert(e, 0);
                    e = self.stack.pop().unwrap();
                }
                let c = self.component(v);
                part.push(c);
            } else {
                part.push(Comp::Node(v));
            }
        }
        head
    }
}
fn place_uses(p: &Place<'static>, f: &mut dyn FnMut(Local, bool)) {
    for e in p.projection.iter() {
        if let ProjectionElem::Index(l) = e {
            f(l, true)
        }
    }
}
fn liveness(body: &'static Body<'static>) -> Vec<HashSet<Local>> {
    use rustc_middle::mir::visit::{PlaceContext, Visitor};
    struct B {
        borrowed: HashSet<Local>,
    }
    impl Visitor<'static> for B {
        fn visit_rvalue(&mut self, r: &Rvalue<'static>, l: Location) {
            match r {
                Rvalue::Ref(_, BorrowKind::Mut { .. }, p) | Rvalue::RawPtr(_, p) => {
                    if !p.is_indirect_first_projection() && !p.projection.iter().any(|e| e == ProjectionElem::Deref) {
                        self.borrowed.insert(p.local);
                    }
                }
                _ => {}
            }
            self.super_rvalue(r, l)
        }
    }
    let mut b = B { borrowed: HashSet::new() };
    b.visit_body(body);
    struct U {
        uses: Vec<(Local, u8)>, // 0 def, 1 use, 2 storage dead
    }
    impl Visitor<'static> for U {
        fn visit_place(&mut self, p: &Place<'static>, c: PlaceContext, _l: Location) {
            let mut uses = vec![];
            place_uses(p, &mut |l, _| uses.push((l, 1)));
            if p.projection.is_empty() && c.is_place_assignment() {
                uses.push((p.local, 0))
            } else {
                uses.push((p.local, 1))
            }
            self.uses.extend(uses);
        }
        fn visit_local(&mut self, l: Local, c: PlaceContext, _loc: Location) {
            match c {
                PlaceContext::NonUse(visit::NonUseContext::StorageDead) => self.uses.push((l, 2)),
                PlaceContext::NonUse(_) => {}
                _ => self.uses.push((l, 1)),
            }
        }
    }
    let n = body.basic_blocks.len();
    let mut live: Vec<HashSet<Local>> = vec![HashSet::new(); n];
    // forward "maybe borrowed and storage live" is approximated: borrowed locals are live until
    // their StorageDead (or for ever)
    let mut gen: Vec<Vec<Vec<(Local, u8)>>> = vec![];
    for (bb, data) in body.basic_blocks.iter_enumerated() {
        let mut v = vec![];
        for (i, s) in data.statements.iter().enumerate() {
            let mut u = U { uses: vec![] };
            u.visit_statement(s, Location { block: bb, statement_index: i });
            v.push(u.uses);
        }
        let mut u = U { uses: vec![] };
        u.visit_terminator(data.terminator(), Location { block: bb, statement_index: data.statements.len() });
        if let TerminatorKind::Return = data.terminator().kind {
            u.uses.push((RETURN_PLACE, 1));
        }
        v.push(u.uses);
        gen.push(v);
    }
    let mut changed = true;
    while changed {
        changed = false;
        for bb in body.basic_blocks.indices().rev() {
            let mut cur: HashSet<Local> = HashSet::new();
            for s in succs(body, bb) {
                cur.extend(live[s.index()].iter());
            }
            for stmt in gen[bb.index()].iter().rev() {
                for (l, k) in stmt {
                    if *k == 0 || *k == 2 {
                        cur.remove(l);
                    }
                }
                for (l, k) in stmt {
                    if *k == 1 {
                        cur.insert(*l);
                    }
                }
            }
            if cur != live[bb.index()] {
                live[bb.index()] = cur;
                changed = true;
            }
        }
    }
    // borrowed locals: live wherever a StorageDead of them (or the end) is still ahead
    let mut bl: Vec<HashSet<Local>> = vec![HashSet::new(); n];
    let has_sd: HashSet<Local> = body
        .basic_blocks
        .iter()
        .flat_map(|d| d.statements.iter())
        .filter_map(|s| if let StatementKind::StorageDead(l) = s.kind { Some(l) } else { None })
        .collect();
    changed = true;
    while changed {
        changed = false;
        for bb in body.basic_blocks.indices().rev() {
            let mut cur: HashSet<Local> = HashSet::new();
            for s in succs(body, bb) {
                cur.extend(bl[s.index()].iter());
            }
            for s in body.basic_blocks[bb].statements.iter().rev() {
                match s.kind {
                    StatementKind::StorageDead(l) if b.borrowed.contains(&l) => {
                        cur.insert(l);
                    }
                    StatementKind::StorageLive(l) => {
                        cur.remove(&l);
                    }
                    _ => {}
                }
            }
            if cur != bl[bb.index()] {
                bl[bb.index()] = cur;
                changed = true;
            }
        }
    }
    for i in 0..n {
        live[i].extend(bl[i].iter());
        for l in &b.borrowed {
            if !has_sd.contains(l) {
                live[i].insert(*l);
            }
        }
    }
    live
}
fn count_loops(c: &[Comp]) -> usize {
    c.iter().map(|x| if let Comp::Loop(_, b) = x { 1 + count_loops(b) } else { 0 }).sum()
}

// ---- engine -------------------------------------------------------------------------------
#[derive(Clone)]
pub struct Call {
    pub name: S,
    /// the trait method called, when the callee is one
    pub tm: Option<S>,
    pub inst: Option<Instance<'static>>,
    pub def: Option<DefId>,
    pub targs: ty::GenericArgsRef<'static>,
    pub args: Vec<V>,
    pub arg_tys: Vec<Ty>,
    pub ret_ty: Ty,
    pub span: Span,
    pub frame: u32,
    pub bb: u32,
}
impl Call {
    pub fn self_ty(&self) -> Option<Ty> {
        self.targs.get(0).and_then(|a| a.as_type())
    }
}
pub trait Hooks {
    fn call(&mut self, _e: &mut Engine, _st: &State, _c: &Call) -> Option<Vec<(State, V)>> {
        None
    }
    /// run this function value (with the hooks on) in place of the call, from the state given
    fn inline(&mut self, _e: &mut Engine, _st: &State, _c: &Call) -> Option<(State, V, Vec<V>)> {
        None
    }
    /// what that call in place of another gives
    fn inlined(&mut self, _e: &mut Engine, _st: &State, _c: &Call, outs: Vec<(State, V)>) -> Vec<(State, V)> {
        outs
    }
    fn drop_value(&mut self, _e: &mut Engine, _st: &mut State, _v: V, _ty: Ty, _fr: u32) {}
    /// a stable loop with one of its head states and the states arriving on its back edges
    fn loop_done(&mut self, _e: &mut Engine, _l: &LoopInfo) {}
    /// a store through a place (after the fact)
    fn wrote(&mut self, _e: &mut Engine, _st: &mut State, _fr: u32, _span: Span, _ty: Ty, _loc: Loc, _path: &[Pj], _v: V) {}
    fn aggregate(&mut self, _e: &mut Engine, _st: &mut State, _fr: u32, _span: Span, _v: V) {}
    fn on_return(&mut self, _e: &mut Engine, _fr: u32, _inst: Instance<'static>, _rets: &[(State, V)]) {}
}
pub struct NoHooks;
impl Hooks for NoHooks {}
pub struct LoopInfo<'a> {
    pub frame: u32,
    pub head: BasicBlock,
    pub span: Span,
    pub heads: &'a [(String, State, Vec<V>)],
    /// (head index, arrival state, index of the head it arrives at)
    pub arrivals: &'a [(usize, State, usize)],
}
#[derive(Clone)]
pub struct Finding {
    pub func: String,
    pub kind: String,
    pub detail: String,
    pub line: String,
    pub trace: Vec<String>,
    pub facts: String,
}
pub struct Frame {
    pub parent: u32,
    pub inst: Instance<'static>,
    pub span: Span, // of the call, in the parent
    pub bi: &'static BodyInfo,
    pub promoted: bool,
}
pub struct Engine {
    pub hooks: Option<Box<dyn Hooks>>,
    bodies: HashMap<(InstanceKind<'static>, Option<u32>), Option<&'static BodyInfo>>,
    pub frames: Vec<Option<Frame>>,
    frame_ids: HashMap<(u32, u32, Instance<'static>, u32), u32>,
    heap_ids: HashMap<(u32, u32, u32), u32>,
    pub stack: Vec<u32>,
    pub recording: bool,
    pub findings: BTreeMap<(String, String, String), Finding>,
    pub obligations: BTreeMap<String, (usize, bool)>,
    pub pinned: HashSet<u32>,
    /// assumed variant of unknown values of a type
    pub always: Option<fn(Ty) -> Option<u32>>,
    pub opaque: BTreeMap<String, usize>,
    pub fns: BTreeSet<String>,
    pub steps: u64,
    pub step_limit: u64,
    pub notes: BTreeSet<String>,
    pub loops: BTreeSet<String>,
    pub const_cache: HashMap<(Instance<'static>, u32), V>,
    pub max_states: usize,
    pub trace: bool,
    pub no_inline: HashSet<String>,
    pub uniq: u32,
    /// loops that end within this many iterations are unrolled instead of joined
    pub unroll: u32,
    /// loop heads are partitioned by which integers are literally zero
    pub split_zero: bool,
    /// loop heads are further partitioned by this key
    pub head_key: Option<Box<dyn Fn(&State) -> u8>>,
}
pub const CTR: u32 = 500_000;
pub const HEAP: u32 = 1 << 30;

pub fn local_crate(d: DefId) -> bool {
    d.is_local() || tcx().crate_name(d.krate).as_str() == "ariadne_dns"
}

impl Engine {
    pub fn new() -> Engine {
        Engine {
            hooks: None,
            bodies: HashMap::new(),
            frames: vec![None, None],
            frame_ids: HashMap::new(),
            heap_ids: HashMap::new(),
            stack: vec![],
            recording: true,
            findings: BTreeMap::new(),
            obligations: BTreeMap::new(),
            pinned: HashSet::new(),
            always: None,
            opaque: BTreeMap::new(),
            fns: BTreeSet::new(),
            steps: 0,
            step_limit: 30_000_000,
            notes: BTreeSet::new(),
            loops: BTreeSet::new(),
            const_cache: HashMap::new(),
            max_states: 24,
            trace: std::env::var("SA_TRACE").is_ok(),
            no_inline: HashSet::new(),
            uniq: 0,
            unroll: 0,
            split_zero: false,
            head_key: None,
        }
    }
    pub fn with_hooks<R>(&mut self, f: impl FnOnce(&mut dyn Hooks, &mut Engine) -> R) -> Option<R> {
        let mut h = self.hooks.take()?;
        let r = f(&mut *h, self);
        self.hooks = Some(h);
        Some(r)
    }
    pub fn body(&mut self, k: InstanceKind<'static>, promoted: Option<u32>) -> Option<&'static BodyInfo> {
        if let Some(b) = self.bodies.get(&(k, promoted)) {
            return *b;
        }
        let t = tcx();
        let body: Option<&'static Body<'static>> = match (k, promoted) {
            (InstanceKind::Item(d), Some(p)) => {
                let ps = t.promoted_mir(d);
                ps.get(Promoted::from_u32(p))
            }
            (InstanceKind::Item(d), None) => {
                if !t.is_mir_available(d) {
                    None
                } else if matches!(t.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Ctor(..)) {
                    Some(t.optimized_mir(d))
                } else {
                    Some(t.mir_for_ctfe(d))
                }
            }
            (InstanceKind::Shim(ShimKind::Clone(..)), None) => None,
            (InstanceKind::Shim(_), None) => Some(t.instance_mir(k)),
            _ => None,
        };
        let r = body.map(|b| {
            let mut w = Wto { body: b, dfn: HashMap::new(), stack: vec![], num: 0 };
            let mut part = vec![];
            w.visit(START_BLOCK, &mut part);
            part.reverse();
            let loops = count_loops(&part);
            let bi: &'static BodyInfo = Box::leak(Box::new(BodyInfo { body: b, comps: part, live: liveness(b), loops }));
            bi
        });
        self.bodies.insert((k, promoted), r);
        r
    }
    pub fn frame(&self, id: u32) -> &Frame {
        self.frames[id as usize].as_ref().unwrap()
    }
    pub fn mono(&self, fr: u32, t: Ty) -> Ty {
        let inst = self.frame(fr).inst;
        self.mono_i(inst, t)
    }
    pub fn mono_i<T>(&self, inst: Instance<'static>, t: T) -> T
    where
        T: ty::TypeFoldable<Tcx> + Copy,
    {
        let eb = ty::EarlyBinder::bind(tcx(), t);
        match inst.try_instantiate_mir_and_normalize_erasing_regions(tcx(), tenv(), eb) {
            Ok(x) => x,
            Err(_) => t,
        }
    }
    pub fn loc_ty(&self, l: Loc) -> Option<Ty> {
        if l.0 < 2 || l.0 >= HEAP || l.1 >= CTR {
            if l.1 >= CTR && l.0 < HEAP && l.0 >= 2 {
                return usize_ty();
            }
            return None;
        }
        let f = self.frames.get(l.0 as usize)?.as_ref()?;
        let d = f.bi.body.local_decls.get(Local::from_u32(l.1))?;
        Some(peel(self.mono_i(f.inst, d.ty)))
    }
    pub fn span_str(&self, s: Span) -> String {
        let sm = tcx().sess.source_map();
        let lo = sm.lookup_char_pos(s.source_callsite().lo());
        let f = lo.file.name.prefer_local_unconditionally().to_string();
        let f = f.rsplit_once("/src/").map(|x| format!("src/{}", x.1)).unwrap_or(f);
        format!("{}:{}", f, lo.line)
    }
    pub fn snippet(&self, s: Span) -> String {
        let t = tcx().sess.source_map().span_to_snippet(s.source_callsite()).unwrap_or_default();
        t.split_whitespace().collect::<Vec<_>>().join(" ").chars().take(120).collect()
    }
    /// innermost frame whose code belongs to the analysed crate, with the span inside it
    pub fn site(&self, fr: u32, span: Span) -> (u32, Span) {
        let mut f = fr;
        let mut s = span;
        while f >= 2 {
            let x = self.frame(f);
            if local_crate(x.inst.def_id()) {
                return (f, s);
            }
            s = x.span;
            f = x.parent;
        }
        (fr, span)
    }
    pub fn fn_name(&self, fr: u32) -> String {
        path_of(self.frame(fr).inst.def_id())
    }
    pub fn trace_of(&self, fr: u32, span: Span) -> Vec<String> {
        let mut out = vec![];
        let mut f = fr;
        let mut s = span;
        while f >= 2 {
            let x = self.frame(f);
            if local_crate(x.inst.def_id()) {
                out.push(format!("{} ({})", path_of(x.inst.def_id()), self.span_str(s)));
            }
            s = x.span;
            f = x.parent;
        }
        out
    }
    pub fn fail(&mut self, st: &State, fr: u32, span: Span, kind: &str, detail: &str) {
        if !self.recording {
            return;
        }
        let (f, s) = self.site(fr, span);
        let func = self.fn_name(f);
        let key = (func.clone(), kind.to_string(), detail.to_string());
        if self.findings.contains_key(&key) {
            return;
        }
        let fd = Finding { func, kind: kind.into(), detail: detail.into(), line: self.span_str(s), trace: self.trace_of(fr, span), facts: st.facts.show() };
        self.findings.insert(key, fd);
    }
    pub fn oblig(&mut self, fr: u32, span: Span, kind: &str, ok: bool) {
        if !self.recording {
            return;
        }
        let (f, s) = self.site(fr, span);
        let k = format!("{} @ {} [{}]", kind, self.span_str(s), self.fn_name(f));
        let e = self.obligations.entry(k).or_insert((0, true));
        e.0 += 1;
        e.1 &= ok;
    }
    // ---- fresh names ----------------------------------------------------------------------
    pub fn counters(&self, st: &State) -> Vec<V> {
        st.store.iter().filter(|(l, _)| l.1 >= CTR && l.0 < HEAP && l.0 >= 2).map(|(_, v)| *v).filter(|v| v.as_int().is_none()).collect()
    }
    pub fn fresh(&mut self, st: &State, fr: u32, bb: u32, tag: &str, ty: Option<Ty>) -> V {
        let ctr = self.counters(st);
        let base = intern(N::Sym(sym_str(&format!("{tag}@{fr}.{bb}"))), ty.map(peel));
        if ctr.is_empty() {
            return base;
        }
        let mut a = vec![base];
        a.extend(ctr);
        app("it", a, ty.map(peel))
    }
    pub fn heap(&mut self, fr: u32, bb: u32, k: u32) -> Loc {
        let n = self.heap_ids.len() as u32;
        let id = *self.heap_ids.entry((fr, bb, k)).or_insert(n);
        Loc(HEAP + id, 0)
    }
    // ---- memory ---------------------------------------------------------------------------
    pub fn read_path(&self, st: &State, v: V, path: &[Pj]) -> V {
        let mut v = v;
        for (i, p) in path.iter().enumerate() {
            if let N::Ptr(l, q) = v.n() {
                // a pointer inside a transparent wrapper
                let _ = i;
                v = self.load(st, *l, q);
            }
            v = match p {
                Pj::Field(k, i, t) => field(v, *k, *i, Some(peel(*t))),
                Pj::Index(x) => self.read_index(v, *x),
                Pj::Sub(a, n) => subslice(v, *a, *n),
            };
        }
        v
    }
    pub fn read_index(&self, v: V, i: V) -> V {
        let et = v.ty().and_then(elem_ty).map(peel);
        if let N::Summ(_, _, alts) = v.n() {
            // a map read through `Index(key)`: values of all alternatives
            if alts.len() == 1 && alts[0].facts.is_empty() && alts[0].t.syms().is_empty() {
                return alts[0].t;
            }
        }
        elem(v, i, et)
    }
    pub fn load(&self, st: &State, l: Loc, path: &[Pj]) -> V {
        let v = st.get(l);
        self.read_path(st, v, path)
    }
    pub fn write_path(&mut self, st: &State, old: V, path: &[Pj], new: V) -> V {
        if path.is_empty() {
            return new;
        }
        match &path[0] {
            Pj::Field(k, i, t) => {
                let cur = if let N::Adt(..) = old.n() {
                    old
                } else if old.is_term() {
                    match expand(old, if *k == STRUCT { None } else { Some(*k) }, st) {
                        Some(e) => e,
                        None => return app("updated", vec![old, new], old.ty()),
                    }
                } else {
                    // partially initialised aggregate
                    adt(if *k == STRUCT { 0 } else { *k }, vec![], None)
                };
                if let N::Adt(v, f) = cur.n() {
                    let mut f = f.clone();
                    while f.len() <= *i as usize {
                        f.push(uninit());
                    }
                    let _ = t;
                    f[*i as usize] = self.write_path(st, f[*i as usize], &path[1..], new);
                    return adt(*v, f, cur.ty());
                }
                old
            }
            Pj::Index(x) => {
                if let (N::Seq(e), Some(c)) = (old.n(), x.as_int()) {
                    if c >= 0 && (c as usize) < e.len() {
                        let mut e = e.clone();
                        e[c as usize] = self.write_path(st, e[c as usize], &path[1..], new);
                        return seq(e);
                    }
                }
                let cur = self.read_index(old, *x);
                let nv = self.write_path(st, cur, &path[1..], new);
                if nv == cur {
                    return old;
                }
                let len = len_of(old, usize_ty());
                let mut alts = alts_of(old, st);
                add_alt(&mut alts, Alt { t: nv, facts: vec![] });
                let id = if let N::Summ(i, _, _) = old.n() { *i } else { app("upd", vec![old], None) };
                let id = app("wr", vec![id, *x, nv], None);
                let id = if id.size() > 160 { app("wrs", vec![sym_untyped(&format!("w{}", self.stack.last().unwrap_or(&0)))], None) } else { id };
                summ(id, len, alts)
            }
            Pj::Sub(..) => {
                let len = len_of(old, usize_ty());
                let mut alts = alts_of(old, st);
                for a in alts_of(new, st) {
                    add_alt(&mut alts, a);
                }
                summ(app("upd", vec![old, new], None), len, alts)
            }
        }
    }
    pub fn store(&mut self, st: &mut State, l: Loc, path: &[Pj], v: V) {
        let old = st.get(l);
        let n = self.write_path(st, old, path, v);
        st.set(l, n);
    }
    /// read through a pointer value (or the transparent value itself)
    pub fn deref(&self, st: &State, v: V) -> V {
        let mut v = v;
        let mut n = 0;
        while let N::Ptr(l, p) = v.n() {
            v = self.load(st, *l, p);
            n += 1;
            if n > 8 {
                break;
            }
        }
        v
    }
    /// the value with every pointer (top level and in aggregates) replaced by what it points to
    pub fn snap(&self, st: &State, v: V, d: u32) -> V {
        if d > 6 {
            return v;
        }
        match v.n() {
            N::Ptr(..) => {
                let x = self.deref(st, v);
                self.snap(st, x, d + 1)
            }
            N::Adt(k, f) => {
                let f2: Vec<V> = f.iter().map(|x| self.snap(st, *x, d + 1)).collect();
                if f2 == *f {
                    v
                } else {
                    adt(*k, f2, v.ty())
                }
            }
            N::Model(k, f) => {
                let f2: Vec<V> = f.iter().map(|x| self.snap(st, *x, d + 1)).collect();
                if f2 == *f {
                    v
                } else {
                    model(k, f2)
                }
            }
            _ => v,
        }
    }
    pub fn lval(&mut self, fr: u32, st: &State, p: &Place<'static>) -> (Loc, Vec<Pj>, Ty) {
        let bi = self.frame(fr).bi;
        let mut ty = self.mono(fr, bi.body.local_decls[p.local].ty);
        let mut loc = Loc(fr, p.local.as_u32());
        let mut path: Vec<Pj> = vec![];
        let mut var = STRUCT;
        for e in p.projection.iter() {
            match e {
                ProjectionElem::Deref => {
                    let v = self.load(st, loc, &path);
                    if let N::Ptr(l, q) = v.n() {
                        loc = *l;
                        path = q.clone();
                    }
                    ty = match ty.kind() {
                        ty::Ref(_, t, _) | ty::RawPtr(t, _) => *t,
                        ty::Adt(_, a) if ty.is_box() => a.type_at(0),
                        _ => ty,
                    };
                    var = STRUCT;
                }
                ProjectionElem::Field(i, fty) => {
                    let fty = self.mono(fr, fty);
                    if is_wrapper(ty) {
                        ty = fty;
                        continue;
                    }
                    // a pointer hidden behind a transparent wrapper
                    let v = self.load(st, loc, &path);
                    if let N::Ptr(l, q) = v.n() {
                        loc = *l;
                        path = q.clone();
                    }
                    path.push(Pj::Field(var, i.as_u32(), fty));
                    ty = fty;
                    var = STRUCT;
                }
                ProjectionElem::Downcast(_, v) => var = v.as_u32(),
                ProjectionElem::Index(l) => {
                    let i = st.get(Loc(fr, l.as_u32()));
                    path.push(Pj::Index(i));
                    ty = elem_ty(ty).unwrap_or(ty);
                }
                ProjectionElem::ConstantIndex { offset, min_length: _, from_end } => {
                    let i = if from_end {
                        let v = self.load(st, loc, &path);
                        let n = len_of(v, usize_ty());
                        Lin::of(n).plus(-(offset as i128)).v()
                    } else {
                        int(offset as i128)
                    };
                    path.push(Pj::Index(i));
                    ty = elem_ty(ty).unwrap_or(ty);
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let v = self.load(st, loc, &path);
                    let n = len_of(v, usize_ty());
                    let cnt = if from_end { Lin::of(n).plus(-(from as i128) - to as i128) } else { Lin::k(to as i128 - from as i128) };
                    path.push(Pj::Sub(int(from as i128), cnt.v()));
                }
                _ => {}
            }
        }
        (loc, path, ty)
    }
    pub fn read_place(&mut self, fr: u32, st: &State, p: &Place<'static>) -> V {
        let (l, q, _) = self.lval(fr, st, p);
        self.load(st, l, &q)
    }
    pub fn operand(&mut self, fr: u32, st: &mut State, o: &Operand<'static>) -> V {
        match o {
            Operand::Copy(p) => self.read_place(fr, st, p),
            Operand::Move(p) => {
                let v = self.read_place(fr, st, p);
                if p.projection.is_empty() && p.local.as_usize() != 0 {
                    st.store.remove(&Loc(fr, p.local.as_u32()));
                }
                v
            }
            Operand::Constant(c) => self.constant(fr, st, c.const_),
            Operand::RuntimeChecks(_) => boolv(false),
        }
    }
    pub fn constant(&mut self, fr: u32, st: &State, c: Const<'static>) -> V {
        let inst = self.frame(fr).inst;
        let c = self.mono_i(inst, c);
        let t = tcx();
        let ty = c.ty();
        if let Const::Unevaluated(u, _) = c {
            if let Some(p) = u.promoted {
                let pi = Instance::new_raw(u.def, u.args);
                return self.promoted(fr, st, pi, p.as_u32());
            }
        }
        match ty.kind() {
            ty::FnDef(..) => return adt(0, vec![], Some(ty)),
            ty::Tuple(x) if x.is_empty() => return adt(0, vec![], Some(ty)),
            _ => {}
        }
        if let Some(s) = c.try_eval_scalar_int(t, tenv()) {
            if ty.is_bool() {
                return boolv(s.try_to_bool().unwrap_or(false));
            }
            if is_int(ty) {
                let size = s.size();
                if let ty::Int(_) = ty.kind() {
                    return int(s.to_int(size));
                }
                return int(s.to_uint(size) as i128);
            }
            if let ty::Adt(d, _) = ty.kind() {
                if d.is_enum() && fieldless(Some(ty)) {
                    let v = s.to_uint(s.size()) as i128;
                    if let Some(k) = variant_of_discr(ty, v) {
                        return adt(k, vec![], Some(ty));
                    }
                }
            }
        }
        if let Const::Unevaluated(u, _) = c {
            if u.promoted.is_none() && local_crate(u.def) {
                let pi = Instance::new_raw(u.def, u.args);
                return self.promoted(fr, st, pi, u32::MAX);
            }
        }
        if let Ok(v) = c.eval(t, tenv(), rustc_span::DUMMY_SP) {
            return self.const_value(v, ty);
        }
        app("const", vec![strv(&format!("{:?}", c))], Some(peel(ty)))
    }
    fn const_value(&mut self, v: ConstValue, ty: Ty) -> V {
        let t = tcx();
        let pt = match ty.kind() {
            ty::Ref(_, x, _) => *x,
            _ => ty,
        };
        if let ConstValue::ZeroSized = v {
            return adt(0, vec![], Some(ty));
        }
        if let ConstValue::Slice { .. } = v {
            if let Some(b) = v.try_get_slice_bytes_for_diagnostics(t) {
                if pt.is_str() {
                    return strv(&String::from_utf8_lossy(b));
                }
                if b.len() <= 64 {
                    return seq(b.iter().map(|x| int(*x as i128)).collect());
                }
            }
        }
        // a reference to bytes
        if let (ty::Array(u, n), ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(p, _)), true) = (pt.kind(), v, ty.is_ref()) {
            let (prov, off) = p.prov_and_relative_offset();
            let len = n.try_to_target_usize(t).unwrap_or(u64::MAX);
            if *u == t.types.u8 && len <= 256 {
                if let rustc_middle::mir::interpret::GlobalAlloc::Memory(a) = t.global_alloc(prov.alloc_id()) {
                    let o = off.bytes_usize();
                    let b = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(o..o + len as usize);
                    return seq(b.iter().map(|x| int(*x as i128)).collect());
                }
            }
        }
        let destr = matches!(ty.kind(), ty::Adt(..) | ty::Array(..) | ty::Tuple(..)) && !matches!(v, ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(..)));
        if let Some(d) = if destr { t.try_destructure_mir_constant_for_user_output(v, ty) } else { None } {
            if let Some(k) = d.variant {
                let mut f = vec![];
                for (cv, fty) in d.fields.iter() {
                    f.push(self.const_leaf(*cv, *fty));
                }
                if matches!(ty.kind(), ty::Array(..)) {
                    return seq(f);
                }
                return adt(k.as_u32(), f, Some(ty));
            } else if let ty::Array(..) | ty::Tuple(_) = ty.kind() {
                let mut f = vec![];
                for (cv, fty) in d.fields.iter() {
                    f.push(self.const_leaf(*cv, *fty));
                }
                return if matches!(ty.kind(), ty::Array(..)) { seq(f) } else { adt(0, f, Some(ty)) };
            }
        }
        self.const_leaf0(v, ty)
    }
    fn const_leaf(&mut self, v: ConstValue, ty: Ty) -> V {
        if let Some(s) = v.try_to_scalar_int() {
            if ty.is_bool() {
                return boolv(s.try_to_bool().unwrap_or(false));
            }
            if is_int(ty) {
                return if let ty::Int(_) = ty.kind() { int(s.to_int(s.size())) } else { int(s.to_uint(s.size()) as i128) };
            }
        }
        self.const_value(v, ty)
    }
    fn const_leaf0(&mut self, v: ConstValue, ty: Ty) -> V {
        app("const", vec![strv(&format!("{:?}", v))], Some(peel(ty)))
    }
    fn promoted(&mut self, fr: u32, st: &State, inst: Instance<'static>, p: u32) -> V {
        if let Some(v) = self.const_cache.get(&(inst, p)) {
            return *v;
        }
        let r = self.exec_body(inst, if p == u32::MAX { None } else { Some(p) }, vec![], State::default(), fr, 600_000 + p.min(1000), rustc_span::DUMMY_SP);
        let _ = st;
        let v = match r {
            Some(r) if r.len() == 1 => {
                let (s, v) = &r[0];
                self.snap(s, *v, 0)
            }
            _ => app("const", vec![strv(&format!("{:?}#{}", inst, p))], None),
        };
        self.const_cache.insert((inst, p), v);
        v
    }
    // ---- arithmetic -----------------------------------------------------------------------
    pub fn int_result(&self, st: &State, l: Lin, ty: Ty, f: &str, a: V, b: V) -> V {
        if let Some((lo, hi)) = ty_range(ty) {
            if l.is_const() {
                if l.c >= lo && l.c <= hi {
                    return int(l.c);
                }
                let w = hi - lo + 1;
                if w > 0 && w < (1i128 << 65) {
                    return int((l.c - lo).rem_euclid(w) + lo);
                }
            }
            if st.facts.entails_ge(&l.plus(-lo)) && st.facts.entails_ge(&l.scale(-1).plus(hi)) {
                return l.v();
            }
            return app(f, vec![a, b], Some(ty));
        }
        l.v()
    }
    pub fn binop(&mut self, st: &State, op: BinOp, a: V, b: V, ty: Ty) -> V {
        let (la, lb) = (Lin::of(a), Lin::of(b));
        let isint = is_int(ty);
        match op {
            BinOp::Eq | BinOp::Ne => {
                let r = if isint {
                    eq0(&la.sub(&lb))
                } else if ty.is_bool() {
                    match (a.as_bool(), b.as_bool()) {
                        (Some(x), _) => {
                            if x {
                                b
                            } else {
                                not(b)
                            }
                        }
                        (_, Some(y)) => {
                            if y {
                                a
                            } else {
                                not(a)
                            }
                        }
                        _ => eqv(a, b),
                    }
                } else {
                    eqv(self.snap(st, a, 0), self.snap(st, b, 0))
                };
                if op == BinOp::Eq {
                    r
                } else {
                    not(r)
                }
            }
            BinOp::Lt if isint => ge0(&lb.sub(&la).plus(-1)),
            BinOp::Le if isint => ge0(&lb.sub(&la)),
            BinOp::Gt if isint => ge0(&la.sub(&lb).plus(-1)),
            BinOp::Ge if isint => ge0(&la.sub(&lb)),
            BinOp::Add | BinOp::AddUnchecked if isint => self.int_result(st, la.add(&lb, 1), ty, "wadd", a, b),
            BinOp::Sub | BinOp::SubUnchecked if isint => self.int_result(st, la.sub(&lb), ty, "wsub", a, b),
            BinOp::Mul | BinOp::MulUnchecked if isint => {
                if let Some(k) = b.as_int() {
                    return self.int_result(st, la.scale(k), ty, "wmul", a, b);
                }
                if let Some(k) = a.as_int() {
                    return self.int_result(st, lb.scale(k), ty, "wmul", a, b);
                }
                app("mul", vec![a.min(b), a.max(b)], Some(ty))
            }
            BinOp::Div | BinOp::Rem if isint => {
                if let (Some(x), Some(y)) = (a.as_int(), b.as_int()) {
                    if y != 0 {
                        return int(if op == BinOp::Div { x / y } else { x % y });
                    }
                }
                if let (BinOp::Div, Some(k)) = (op, b.as_int()) {
                    if k > 0 && la.c % k == 0 && la.t.iter().all(|x| x.1 % k == 0) {
                        return Lin { c: la.c / k, t: la.t.iter().map(|x| (x.0, x.1 / k)).collect() }.v();
                    }
                }
                if let (BinOp::Rem, Some(k)) = (op, b.as_int()) {
                    if k > 0 && la.c % k == 0 && la.t.iter().all(|x| x.1 % k == 0) {
                        return int(0);
                    }
                }
                if let Some(k) = b.as_int() {
                    if let Some((q, r)) = self.div_split(st, &la, k, ty) {
                        return if op == BinOp::Div { q } else { r };
                    }
                }
                app(if op == BinOp::Div { "div" } else { "rem" }, vec![a, b], div_ty(ty))
            }
            BinOp::Shl | BinOp::ShlUnchecked if isint => {
                if let Some(k) = b.as_int() {
                    if (0..64).contains(&k) {
                        return self.int_result(st, la.scale(1 << k), ty, "shl", a, b);
                    }
                }
                if let (Some(x), true) = (a.as_int(), true) {
                    if x == 0 {
                        return int(0);
                    }
                }
                app("shl", vec![a, b], Some(ty))
            }
            BinOp::Shr | BinOp::ShrUnchecked if isint => {
                if let (Some(x), Some(k)) = (a.as_int(), b.as_int()) {
                    if (0..100).contains(&k) {
                        return int(x >> k);
                    }
                }
                if let Some(k) = b.as_int() {
                    if k == 0 {
                        return a;
                    }
                    if (0..64).contains(&k) {
                        return self.binop(st, BinOp::Div, a, int(1i128 << k), ty);
                    }
                }
                app("shr", vec![a, b], Some(ty))
            }
            BinOp::BitAnd if isint => {
                if let (Some(x), Some(y)) = (a.as_int(), b.as_int()) {
                    return int(x & y);
                }
                if let (Some((lo, hi)), Some(k)) = (ty_range(ty), b.as_int().or(a.as_int())) {
                    if k == 0 {
                        return int(0);
                    }
                    // a run of one bits: cut the number on both sides
                    let low = k & -k;
                    if lo == 0 && k > 0 && low > 1 && (k / low + 1) & (k / low) == 0 {
                        let x = if b.as_int().is_some() { a } else { b };
                        let d = self.binop(st, BinOp::Div, x, int(low), ty);
                        let m = k / low + 1;
                        let d = if k + low > hi { d } else { self.binop(st, BinOp::Rem, d, int(m), ty) };
                        return Lin::of(d).scale(low).v();
                    }
                    if lo == 0 && k == hi {
                        return if b.as_int().is_some() { a } else { b };
                    }
                    // low-bit masks are remainders
                    if k >= 0 && (k + 1) & k == 0 {
                        let x = if b.as_int().is_some() { a } else { b };
                        return self.binop(st, BinOp::Rem, x, int(k + 1), ty);
                    }
                }
                app("and", vec![a.min(b), a.max(b)], Some(ty))
            }
            BinOp::BitOr if isint => {
                if let (Some(x), Some(y)) = (a.as_int(), b.as_int()) {
                    return int(x | y);
                }
                if a.as_int() == Some(0) {
                    return b;
                }
                if b.as_int() == Some(0) {
                    return a;
                }
                // disjoint bits: a sum
                for (x, y) in [(&la, &lb), (&lb, &la)] {
                    let mut m = 0i128;
                    for c in x.t.iter().map(|t| t.1).chain(std::iter::once(x.c)) {
                        m = gcd(m, c.abs());
                    }
                    let p = m & -m;
                    if p > 1 && st.facts.entails_ge(&y.clone()) && st.facts.entails_ge(&y.scale(-1).plus(p - 1)) {
                        return x.add(y, 1).v();
                    }
                }
                app("or", vec![a.min(b), a.max(b)], Some(ty))
            }
            BinOp::BitXor if isint => {
                if let (Some(x), Some(y)) = (a.as_int(), b.as_int()) {
                    return int(x ^ y);
                }
                app("xor", vec![a.min(b), a.max(b)], Some(ty))
            }
            BinOp::BitAnd | BinOp::BitOr | BinOp::BitXor if ty.is_bool() => {
                let (x, y) = (a.as_bool().or(st.query(a)), b.as_bool().or(st.query(b)));
                match (op, x, y) {
                    (BinOp::BitAnd, Some(false), _) | (BinOp::BitAnd, _, Some(false)) => boolv(false),
                    (BinOp::BitAnd, Some(true), _) => b,
                    (BinOp::BitAnd, _, Some(true)) => a,
                    (BinOp::BitOr, Some(true), _) | (BinOp::BitOr, _, Some(true)) => boolv(true),
                    (BinOp::BitOr, Some(false), _) => b,
                    (BinOp::BitOr, _, Some(false)) => a,
                    (BinOp::BitXor, Some(x), Some(y)) => boolv(x != y),
                    (BinOp::BitXor, Some(x), _) => if x { not(b) } else { b },
                    (BinOp::BitXor, _, Some(y)) => if y { not(a) } else { a },
                    _ => app(&format!("b{:?}", op), vec![a, b], Some(ty)),
                }
            }
            BinOp::AddWithOverflow | BinOp::SubWithOverflow | BinOp::MulWithOverflow => {
                let l = match op {
                    BinOp::AddWithOverflow => la.add(&lb, 1).v(),
                    BinOp::SubWithOverflow => la.sub(&lb).v(),
                    _ => {
                        if let Some(k) = b.as_int() {
                            la.scale(k).v()
                        } else if let Some(k) = a.as_int() {
                            lb.scale(k).v()
                        } else {
                            app("mul", vec![a.min(b), a.max(b)], Some(ty))
                        }
                    }
                };
                // the overflow flag is the range obligation; decided at the Assert
                let ovf = match ty_range(ty) {
                    Some((lo, hi)) => {
                        let r = Lin::of(l);
                        if lo == 0 && op == BinOp::SubWithOverflow {
                            ge0(&r.scale(-1).plus(-1))
                        } else if lo == 0 {
                            ge0(&r.plus(-hi - 1))
                        } else {
                            app("ovf", vec![l], None)
                        }
                    }
                    None => boolv(false),
                };
                adt(0, vec![l, ovf], None)
            }
            BinOp::Cmp if isint => {
                app("cmp", vec![a, b], None)
            }
            BinOp::Lt if ty.is_bool() => app("blt", vec![a, b], None),
            _ => app(&format!("{:?}", op), vec![a, b], None),
        }
    }
    pub fn cast_int(&mut self, st: &State, v: V, from: Ty, to: Ty) -> V {
        let l = match v.n() {
            N::Bool(b) => Lin::k(*b as i128),
            N::Ge0(_) | N::Eq0(_) | N::Not(_) | N::IsVar(..) => return app("b2i", vec![v], usize_ty()),
            _ => Lin::of(v),
        };
        if from.is_bool() && v.as_bool().is_none() {
            return app("b2i", vec![v], usize_ty());
        }
        let Some((lo, hi)) = ty_range(to) else { return v };
        if l.is_const() {
            if l.c >= lo && l.c <= hi {
                return int(l.c);
            }
            let w = hi - lo + 1;
            return int((l.c - lo).rem_euclid(w) + lo);
        }
        if let Some((flo, fhi)) = ty_range(from) {
            if flo >= lo && fhi <= hi {
                return v;
            }
        }
        if st.facts.entails_ge(&l.plus(-lo)) && st.facts.entails_ge(&l.scale(-1).plus(hi)) {
            return v;
        }
        if lo == 0 && ty_range(from).map(|r| r.0) == Some(0) {
            return self.binop(st, BinOp::Rem, v, int(hi + 1), from);
        }
        app("trunc", vec![v], Some(to))
    }
    /// quotient and remainder by a constant when the number splits into a multiple of it and a
    /// part known to be smaller
    fn div_split(&self, st: &State, l: &Lin, k: i128, ty: Ty) -> Option<(V, V)> {
        if k <= 0 {
            return None;
        }
        let unsigned = ty_range(ty).map(|r| r.0 == 0).unwrap_or(false);
        if !unsigned && !st.facts.entails_ge(l) {
            return None;
        }
        let c = l.c.rem_euclid(k);
        let mut q = Lin::k((l.c - c) / k);
        let mut r = Lin::k(c);
        for (t, x) in &l.t {
            if x % k == 0 {
                q.t.push((*t, x / k));
            } else {
                r.t.push((*t, *x));
            }
        }
        if q.t.is_empty() && q.c == 0 {
            // the whole number may be small
            if st.facts.entails_ge(&l.scale(-1).plus(k - 1)) {
                return Some((int(0), l.v()));
            }
            return None;
        }
        if st.facts.entails_ge(&r) && st.facts.entails_ge(&r.scale(-1).plus(k - 1)) {
            return Some((q.v(), r.v()));
        }
        // carry the multiple out of the division
        if unsigned && !q.is_const() && r.t.len() == 1 && r.c == 0 && st.facts.entails_ge(&r) {
            let rq = app("div", vec![r.v(), int(k)], div_ty(ty));
            let rr = app("rem", vec![r.v(), int(k)], div_ty(ty));
            return Some((q.add(&Lin::of(rq), 1).v(), rr));
        }
        None
    }
    fn rvalue(&mut self, fr: u32, st: &mut State, r: &Rvalue<'static>, span: Span, dest_ty: Ty) -> V {
        match r {
            Rvalue::Use(o, _) => self.operand(fr, st, o),
            Rvalue::CopyForDeref(p) => self.read_place(fr, st, p),
            Rvalue::Repeat(o, n) => {
                let v = self.operand(fr, st, o);
                let inst = self.frame(fr).inst;
                let n = self.mono_i(inst, *n);
                match n.try_to_target_usize(tcx()) {
                    Some(k) if k <= 16 => seq(vec![v; k as usize]),
                    Some(k) => app("repeat", vec![v, int(k as i128)], Some(dest_ty)),
                    None => app("repeat", vec![v, app("const", vec![strv(&format!("{n:?}"))], usize_ty())], Some(dest_ty)),
                }
            }
            Rvalue::Ref(_, k, p) => match k {
                BorrowKind::Mut { .. } => {
                    let (l, q, _) = self.lval(fr, st, p);
                    ptr(l, q)
                }
                _ => {
                    let v = self.read_place(fr, st, p);
                    if let N::Ptr(..) = v.n() {
                        return v;
                    }
                    v
                }
            },
            Rvalue::Reborrow(_, m, p) => {
                if m.is_mut() {
                    let (l, q, _) = self.lval(fr, st, p);
                    ptr(l, q)
                } else {
                    self.read_place(fr, st, p)
                }
            }
            Rvalue::RawPtr(k, p) => match k {
                RawPtrKind::Mut => {
                    let (l, q, _) = self.lval(fr, st, p);
                    ptr(l, q)
                }
                _ => self.read_place(fr, st, p),
            },
            Rvalue::Cast(k, o, t) => {
                let from = self.operand_ty(fr, o);
                let v = self.operand(fr, st, o);
                let to = self.mono(fr, *t);
                match k {
                    CastKind::IntToInt => {
                        let (f2, v2) = if let ty::Adt(d, _) = from.kind() {
                            if d.is_enum() {
                                (from.discriminant_ty(tcx()), self.discr(st, v, from))
                            } else {
                                (from, v)
                            }
                        } else {
                            (from, v)
                        };
                        self.cast_int(st, v2, f2, to)
                    }
                    CastKind::PointerCoercion(..) | CastKind::PtrToPtr | CastKind::FnPtrToPtr | CastKind::Subtype | CastKind::BoxDerefTransmute => v,
                    CastKind::Transmute => {
                        if is_int(from) && is_int(to) {
                            self.cast_int(st, v, from, to)
                        } else if is_int(to) != is_int(from) {
                            app("transmute", vec![self.snap(st, v, 0)], Some(peel(to)))
                        } else {
                            v
                        }
                    }
                    _ => app("cast", vec![v], Some(peel(to))),
                }
            }
            Rvalue::BinaryOp(op, ab) => {
                let t = self.operand_ty(fr, &ab.0);
                let a = self.operand(fr, st, &ab.0);
                let b = self.operand(fr, st, &ab.1);
                let (a, b) = (self.enum_int(st, a), self.enum_int(st, b));
                self.binop(st, *op, a, b, t)
            }
            Rvalue::UnaryOp(op, o) => {
                let t = self.operand_ty(fr, o);
                let v = self.operand(fr, st, o);
                match op {
                    UnOp::Not if t.is_bool() => not(v),
                    UnOp::Not => match (v.as_int(), ty_range(t)) {
                        (Some(c), Some((0, hi))) => int(hi - c),
                        (Some(c), _) => int(!c),
                        (None, Some((0, hi))) => Lin::of(v).scale(-1).plus(hi).v(),
                        _ => app("bnot", vec![v], Some(t)),
                    },
                    UnOp::Neg => {
                        let l = Lin::of(v).scale(-1);
                        self.int_result(st, l, t, "wneg", v, v)
                    }
                    UnOp::PtrMetadata => {
                        let x = self.deref(st, v);
                        len_of(x, usize_ty())
                    }
                }
            }
            Rvalue::Discriminant(p) => {
                let (l, q, t) = self.lval(fr, st, p);
                let v = self.load(st, l, &q);
                if let Some(f) = self.always {
                    if v.fields().is_none() {
                        if let Some(k) = f(t) {
                            st.assume(is_var(v, k), true);
                        }
                    }
                }
                self.discr(st, v, t)
            }
            Rvalue::Aggregate(k, ops) => {
                let f: Vec<V> = ops.iter().map(|o| self.operand(fr, st, o)).collect();
                let v = match &**k {
                    AggregateKind::Array(_) => seq(f),
                    AggregateKind::Tuple => adt(0, f, Some(dest_ty)),
                    AggregateKind::Adt(d, vi, _, _, active) => {
                        if is_wrapper(dest_ty) && f.len() >= 1 {
                            f[0]
                        } else if active.is_some() {
                            f[0]
                        } else {
                            let _ = d;
                            adt(vi.as_u32(), f, Some(dest_ty))
                        }
                    }
                    AggregateKind::Closure(..) => adt(0, f, Some(dest_ty)),
                    AggregateKind::RawPtr(..) => f[0],
                    _ => adt(0, f, Some(dest_ty)),
                };
                if let AggregateKind::Adt(..) = &**k {
                    if self.hooks.is_some() {
                        let mut s2 = std::mem::take(st);
                        self.with_hooks(|h, e| h.aggregate(e, &mut s2, fr, span, v));
                        *st = s2;
                    }
                }
                v
            }
            Rvalue::ThreadLocalRef(d) => app("static", vec![strv(&path_of(*d))], None),
            Rvalue::WrapUnsafeBinder(o, _) => self.operand(fr, st, o),
        }
    }
    fn enum_int(&mut self, _st: &State, v: V) -> V {
        v
    }
    pub fn operand_ty(&self, fr: u32, o: &Operand<'static>) -> Ty {
        let body = self.frame(fr).bi.body;
        let t = o.ty(&body.local_decls, tcx());
        self.mono(fr, t)
    }
    pub fn discr(&mut self, st: &State, v: V, ty: Ty) -> V {
        let v = self.deref(st, v);
        match v.n() {
            N::Adt(k, _) => int(discr_value(v.ty().or(Some(peel(ty))), *k)),
            N::Uninit => int(0),
            _ => {
                let m = st.facts.mask(v);
                if v.ty().is_some() && m.count_ones() == 1 {
                    return int(discr_value(v.ty(), m.trailing_zeros()));
                }
                if v.ty().is_none() {
                    let v2 = retype(v, peel(ty));
                    return app("discr", vec![v2], Some(peel(ty).discriminant_ty(tcx())));
                }
                app("discr", vec![v], Some(peel(ty).discriminant_ty(tcx())))
            }
        }
    }
    // ---- state sets -----------------------------------------------------------------------
    pub fn shape(&self, st: &State, fr: u32) -> String {
        let mut s = String::new();
        for (l, v) in &st.store {
            if (l.0 == fr && l.1 < CTR) || l.0 == 0 {
                let before = s.len();
                shape_of(*v, st, &mut s, 0, fr);
                if s.len() > before {
                    s.push_str(&format!("@{}.{};", l.0, l.1));
                }
            }
        }
        s
    }
    fn coarse_shape(&self, st: &State, fr: u32) -> String {
        let mut s = String::new();
        for (l, v) in &st.store {
            if (l.0 == fr && l.1 < CTR) || l.0 == 0 {
                let mut x = String::new();
                shape_of(*v, st, &mut x, 16, fr);
                if !x.is_empty() {
                    s.push_str(&format!("{x}@{}.{};", l.0, l.1));
                }
            }
        }
        s
    }
    fn head_shape(&mut self, st: &State, fr: u32) -> String {
        let mut s = self.shape(st, fr);
        if let Some(f) = &self.head_key {
            s.push_str(&format!("k{};", f(st)));
        }
        if self.split_zero {
            for (l, v) in &st.store {
                if l.0 == fr && l.1 < CTR && v.as_int() == Some(0) {
                    s.push_str(&format!("z{};", l.1));
                }
            }
        }
        s
    }
    pub fn gc(&mut self, st: &mut State) {
        // unreachable heap cells
        let mut reach: HashSet<Loc> = HashSet::new();
        let mut work: Vec<V> = st.store.iter().filter(|(l, _)| l.0 < HEAP).map(|(_, v)| *v).collect();
        let any_heap = st.store.keys().any(|l| l.0 >= HEAP);
        if any_heap {
            let mut seen: HashSet<V> = HashSet::new();
            while let Some(v) = work.pop() {
                if !seen.insert(v) {
                    continue;
                }
                if let N::Ptr(l, _) = v.n() {
                    if reach.insert(*l) {
                        work.push(st.get(*l));
                    }
                }
                children(v.n(), &mut |c| work.push(c));
            }
            st.store.retain(|l, _| l.0 < HEAP || reach.contains(l));
        }
        st.gc(&self.pinned);
    }
    pub fn merge(&mut self, fr: u32, tag: &str, mut v: Vec<State>) -> Vec<State> {
        if v.len() <= 1 {
            return v;
        }
        // identical stores: join the facts
        let mut out: Vec<State> = vec![];
        for s in v.drain(..) {
            if let Some(o) = out.iter_mut().find(|o| o.store == s.store) {
                let f = join_facts(&o.facts, &s.facts);
                o.facts = f;
            } else {
                out.push(s);
            }
        }
        if out.len() > self.max_states {
            let mut groups: Vec<(String, State)> = vec![];
            for s in out {
                let k = self.shape(&s, fr);
                if let Some(g) = groups.iter_mut().find(|g| g.0 == k) {
                    g.1 = self.join2(&g.1, &s, fr, tag);
                } else {
                    groups.push((k, s));
                }
            }
            if groups.len() > 2 * self.max_states {
                // only the outermost variants
                let mut coarse: Vec<(String, State)> = vec![];
                for (_, s) in groups {
                    let k = self.coarse_shape(&s, fr);
                    if let Some(g) = coarse.iter_mut().find(|g| g.0 == k) {
                        g.1 = self.join2(&g.1, &s, fr, tag);
                    } else {
                        coarse.push((k, s));
                    }
                }
                groups = coarse;
            }
            out = groups.into_iter().map(|g| g.1).collect();
            if out.len() > 2 * self.max_states {
                let mut acc = out[0].clone();
                for s in &out[1..] {
                    acc = self.join2(&acc, s, fr, tag);
                }
                self.notes.insert(format!("joined {} shapes at {}", out.len(), tag));
                if std::env::var("SA_SHAPES").is_ok() { for s in &out { eprintln!("SHAPE {} {}", tag, self.shape(s, fr)); } }
                out = vec![acc];
            }
        }
        out
    }
    pub fn join2(&mut self, a: &State, b: &State, _fr: u32, tag: &str) -> State {
        self.uniq += 1;
        let outer = self.counters(a);
        let mut own = vec![];
        let prefix = format!("j{}.{}.", tag, self.uniq);
        let this = &*self;
        let lt = |l: Loc| this.loc_ty(l);
        let r = join(a, b, JoinCtx { prefix, outer, is_loop: false, own: &mut own, loc_ty: &lt });
        r.unwrap_or_else(|| a.clone())
    }
    // ---- execution ------------------------------------------------------------------------
    pub fn exec_body(&mut self, inst: Instance<'static>, promoted: Option<u32>, args: Vec<V>, st: State, parent: u32, bb: u32, span: Span) -> Option<Vec<(State, V)>> {
        let bi = self.body(inst.def, promoted)?;
        let key = (parent, bb, inst, promoted.map(|x| x + 1).unwrap_or(0));
        let fid = match self.frame_ids.get(&key) {
            Some(f) => *f,
            None => {
                let f = self.frames.len() as u32;
                self.frames.push(Some(Frame { parent, inst, span, bi, promoted: promoted.is_some() }));
                self.frame_ids.insert(key, f);
                f
            }
        };
        if promoted.is_none() && local_crate(inst.def_id()) {
            self.fns.insert(path_of(inst.def_id()));
        }
        let mut st = st;
        for (i, a) in args.iter().enumerate() {
            st.set(Loc(fid, i as u32 + 1), *a);
        }
        if self.trace {
            eprintln!("{}> {} [{}] states", " ".repeat(self.stack.len()), path_of(inst.def_id()), fid);
        }
        self.stack.push(fid);
        let mut pend: HashMap<BasicBlock, Vec<State>> = HashMap::new();
        pend.insert(START_BLOCK, vec![st]);
        let mut rets: Vec<(State, V)> = vec![];
        self.run_comps(fid, &bi.comps, &mut pend, &mut rets);
        self.stack.pop();
        // leave the frame
        let mut out: Vec<State> = vec![];
        let rl = Loc(fid, 0);
        for (mut s, v) in rets {
            s.store.retain(|l, _| l.0 != fid);
            s.set(rl, v);
            self.gc(&mut s);
            if !out.contains(&s) {
                out.push(s);
            }
        }
        let out = self.merge(fid, &format!("ret{}", fid), out);
        if self.trace {
            eprintln!("{}< {} -> {} states, steps {}", " ".repeat(self.stack.len()), path_of(inst.def_id()), out.len(), self.steps);
        }
        let res: Vec<(State, V)> = out
            .into_iter()
            .map(|mut s| {
                let v = s.get(rl);
                s.store.remove(&rl);
                (s, v)
            })
            .collect();
        if self.recording {
            self.with_hooks(|h, e| h.on_return(e, fid, inst, &res));
        }
        Some(res)
    }
    fn enter(&mut self, fr: u32, bb: BasicBlock, mut v: Vec<State>) -> Vec<State> {
        let live = &self.frame(fr).bi.live[bb.index()];
        for s in v.iter_mut() {
            s.store.retain(|l, _| l.0 != fr || l.1 >= CTR || live.contains(&Local::from_u32(l.1)));
        }
        for s in v.iter_mut() {
            self.gc(s);
        }
        if v.len() > 1 {
            let tag = format!("{}.{}", fr, bb.as_u32());
            self.merge(fr, &tag, v)
        } else {
            v
        }
    }
    fn run_comps(&mut self, fr: u32, comps: &'static [Comp], pend: &mut HashMap<BasicBlock, Vec<State>>, rets: &mut Vec<(State, V)>) {
        for c in comps {
            match c {
                Comp::Node(bb) => {
                    let Some(v) = pend.remove(bb) else { continue };
                    let v = self.enter(fr, *bb, v);
                    for s in v {
                        self.block(fr, *bb, s, pend, rets);
                    }
                }
                Comp::Loop(h, body) => {
                    let Some(v) = pend.remove(h) else { continue };
                    let v = self.enter(fr, *h, v);
                    self.run_loop(fr, *h, body, v, pend, rets);
                }
            }
        }
    }
    fn absorb(&mut self, fr: u32, h: BasicBlock, heads: &mut Vec<(String, State, Vec<V>)>, dirty: &mut BTreeSet<usize>, s: &State) -> usize {
        let mut key = self.head_shape(s, fr);
        if !heads.iter().any(|x| x.0 == key) && heads.len() >= 10 {
            key = "*".into();
        }
        if let Some(i) = heads.iter().position(|x| x.0 == key) {
            let outer = {
                let mut o = self.counters(&heads[i].1);
                let own = &heads[i].2;
                o.retain(|v| !own.contains(v));
                o
            };
            let mut own = std::mem::take(&mut heads[i].2);
            let prefix = format!("p{}.{}.{}.", fr, h.as_u32(), i);
            let r = {
                let this = &*self;
                let lt = |l: Loc| this.loc_ty(l);
                join(&heads[i].1, s, JoinCtx { prefix, outer, is_loop: true, own: &mut own, loc_ty: &lt })
            };
            heads[i].2 = own;
            if let Some(n) = r {
                heads[i].1 = n;
                dirty.insert(i);
            }
            i
        } else {
            heads.push((key, s.clone(), vec![]));
            dirty.insert(heads.len() - 1);
            heads.len() - 1
        }
    }
    fn run_loop(&mut self, fr: u32, h: BasicBlock, body: &'static [Comp], entry: Vec<State>, pend: &mut HashMap<BasicBlock, Vec<State>>, rets: &mut Vec<(State, V)>) {
        let ctr = Loc(fr, CTR + h.as_u32());
        if self.unroll > 0 {
            if let Some((p2, r2)) = self.try_unroll(fr, h, body, &entry) {
                for (bb, v) in p2 {
                    pend.entry(bb).or_default().extend(v);
                }
                rets.extend(r2);
                return;
            }
        }
        let mut heads: Vec<(String, State, Vec<V>)> = vec![];
        let mut dirty: BTreeSet<usize> = BTreeSet::new();
        for mut s in entry {
            s.set(ctr, int(0));
            self.absorb(fr, h, &mut heads, &mut dirty, &s);
        }
        let rec = self.recording;
        self.recording = false;
        let mut iters = 0;
        while let Some(i) = dirty.iter().next().copied() {
            dirty.remove(&i);
            iters += 1;
            if iters > 80 || self.steps > self.step_limit {
                self.notes.insert(format!("loop at {} did not stabilise", self.span_str(self.frame(fr).bi.body.basic_blocks[h].terminator().source_info.span)));
                break;
            }
            let st = heads[i].1.clone();
            let mut p2: HashMap<BasicBlock, Vec<State>> = HashMap::new();
            let mut r2 = vec![];
            self.block(fr, h, st, &mut p2, &mut r2);
            self.run_comps(fr, body, &mut p2, &mut r2);
            let arr = p2.remove(&h).unwrap_or_default();
            let arr = self.enter(fr, h, arr);
            for mut s in arr {
                let c = s.get(ctr);
                s.set(ctr, Lin::of(c).plus(1).v());
                if self.trace {
                    eprintln!("loop {}.{} head {} arrival facts {}", fr, h.as_u32(), i, s.facts.show());
                }
                self.absorb(fr, h, &mut heads, &mut dirty, &s);
            }
        }
        self.recording = rec;
        let mut arrivals = vec![];
        for i in 0..heads.len() {
            let st = heads[i].1.clone();
            if self.trace {
                eprintln!("loop {}.{} head {} stable: {} facts {}", fr, h.as_u32(), i, heads[i].0, st.facts.show());
                for (l, v) in &st.store { if l.0 == fr || l.0 < 2 { eprintln!("    L{}_{} = {:?}", l.0, l.1, v); } }
            }
            let mut p2: HashMap<BasicBlock, Vec<State>> = HashMap::new();
            let mut r2 = vec![];
            self.block(fr, h, st, &mut p2, &mut r2);
            self.run_comps(fr, body, &mut p2, &mut r2);
            for mut s in p2.remove(&h).unwrap_or_default() {
                let c = s.get(ctr);
                s.set(ctr, Lin::of(c).plus(1).v());
                let k = self.head_shape(&s, fr);
                let j = heads.iter().position(|x| x.0 == k).or_else(|| heads.iter().position(|x| x.0 == "*")).unwrap_or(0);
                arrivals.push((i, s, j));
            }
            for (bb, mut v) in p2 {
                for s in v.iter_mut() {
                    s.store.remove(&ctr);
                }
                pend.entry(bb).or_default().extend(v);
            }
            for (mut s, v) in r2 {
                s.store.remove(&ctr);
                rets.push((s, v));
            }
        }
        if self.recording {
            let span = self.frame(fr).bi.body.basic_blocks[h].terminator().source_info.span;
            let (f, s) = self.site(fr, span);
            self.loops.insert(format!("{} ({})", self.fn_name(f), self.span_str(s)));
            let li = LoopInfo { frame: fr, head: h, span, heads: &heads, arrivals: &arrivals };
            self.with_hooks(|hk, e| hk.loop_done(e, &li));
        }
    }
    fn try_unroll(&mut self, fr: u32, h: BasicBlock, body: &'static [Comp], entry: &[State]) -> Option<(HashMap<BasicBlock, Vec<State>>, Vec<(State, V)>)> {
        let rec = self.recording;
        let mut res = None;
        for pass in 0..2 {
            if pass == 0 {
                self.recording = false
            } else if !rec || res.is_none() {
                break;
            } else {
                self.recording = true
            }
            let ctr = Loc(fr, CTR + h.as_u32());
            let mut cur: Vec<State> = entry.to_vec();
            for s in cur.iter_mut() {
                s.set(ctr, app("iter", vec![int(0)], usize_ty()));
            }
            let mut out: HashMap<BasicBlock, Vec<State>> = HashMap::new();
            let mut rets = vec![];
            let mut done = false;
            for round in 0..self.unroll {
                let mut p2: HashMap<BasicBlock, Vec<State>> = HashMap::new();
                for s in std::mem::take(&mut cur) {
                    self.block(fr, h, s, &mut p2, &mut rets);
                }
                self.run_comps(fr, body, &mut p2, &mut rets);
                let arr = p2.remove(&h).unwrap_or_default();
                for (bb, v) in p2 {
                    out.entry(bb).or_default().extend(v);
                }
                cur = self.enter(fr, h, arr);
                for s in cur.iter_mut() {
                    s.set(ctr, app("iter", vec![int(round as i128 + 1)], usize_ty()));
                }
                if cur.is_empty() {
                    done = true;
                    break;
                }
                if cur.len() > 8 || self.steps > self.step_limit {
                    break;
                }
            }
            if !done {
                res = None;
                break;
            }
            for v in out.values_mut() {
                for s in v.iter_mut() {
                    s.store.remove(&ctr);
                }
            }
            for (s, _) in rets.iter_mut() {
                s.store.remove(&ctr);
            }
            res = Some((out, rets));
        }
        self.recording = rec;
        res
    }
    fn goto(&mut self, pend: &mut HashMap<BasicBlock, Vec<State>>, bb: BasicBlock, s: State) {
        let v = pend.entry(bb).or_default();
        if !v.contains(&s) {
            v.push(s)
        }
    }
    fn assign(&mut self, fr: u32, st: &mut State, p: &Place<'static>, v: V, span: Span) {
        let (l, q, t) = self.lval(fr, st, p);
        self.store(st, l, &q, v);
        if self.hooks.is_some() && (p.projection.len() > 0) {
            let mut s2 = std::mem::take(st);
            self.with_hooks(|h, e| h.wrote(e, &mut s2, fr, span, t, l, &q, v));
            *st = s2;
        }
    }
    pub fn drop_place(&mut self, fr: u32, st: &mut State, v: V, t: Ty) {
        let mut s2 = std::mem::take(st);
        self.with_hooks(|h, e| h.drop_value(e, &mut s2, v, t, fr));
        *st = s2;
    }
    fn block(&mut self, fr: u32, bb: BasicBlock, mut st: State, pend: &mut HashMap<BasicBlock, Vec<State>>, rets: &mut Vec<(State, V)>) {
        self.steps += 1;
        if self.steps > self.step_limit {
            self.notes.insert("step limit reached".into());
            return;
        }
        let body = self.frame(fr).bi.body;
        let data = &body.basic_blocks[bb];
        for s in &data.statements {
            match &s.kind {
                StatementKind::Assign(b) => {
                    let (p, r) = (&b.0, &b.1);
                    let dt = p.ty(&body.local_decls, tcx()).ty;
                    let dt = self.mono(fr, dt);
                    let v = self.rvalue(fr, &mut st, r, s.source_info.span, dt);
                    self.assign(fr, &mut st, p, v, s.source_info.span);
                }
                StatementKind::SetDiscriminant { place, variant_index } => {
                    let (l, q, t) = self.lval(fr, &st, place);
                    let old = self.load(&st, l, &q);
                    let n = match old.n() {
                        N::Adt(_, f) => adt(variant_index.as_u32(), f.clone(), Some(peel(t))),
                        _ => adt(variant_index.as_u32(), vec![], Some(peel(t))),
                    };
                    self.store(&mut st, l, &q, n);
                }
                StatementKind::StorageDead(l) => {
                    st.store.remove(&Loc(fr, l.as_u32()));
                }
                _ => {}
            }
        }
        let term = data.terminator();
        let span = term.source_info.span;
        match &term.kind {
            TerminatorKind::Goto { target, .. } => self.goto(pend, *target, st),
            TerminatorKind::FalseEdge { real_target, .. } => self.goto(pend, *real_target, st),
            TerminatorKind::FalseUnwind { real_target, .. } => self.goto(pend, *real_target, st),
            TerminatorKind::Return => {
                let v = st.get(Loc(fr, 0));
                rets.push((st, v));
            }
            TerminatorKind::SwitchInt { discr, targets } => {
                let t = self.operand_ty(fr, discr);
                let v = self.operand(fr, &mut st, discr);
                if t.is_bool() {
                    for (c, tb) in targets.iter() {
                        let mut s = st.clone();
                        if s.assume(v, c != 0) {
                            self.goto(pend, tb, s);
                        }
                    }
                    let covered: Vec<u128> = targets.iter().map(|x| x.0).collect();
                    for b in [0u128, 1] {
                        if !covered.contains(&b) {
                            let mut s = st.clone();
                            if s.assume(v, b != 0) {
                                self.goto(pend, targets.otherwise(), s);
                            }
                        }
                    }
                } else {
                    let signed = matches!(t.kind(), ty::Int(_));
                    let bits = match ty_range(t) {
                        Some((lo, hi)) if signed => (hi - lo + 1) as i128,
                        _ => 0,
                    };
                    let l = Lin::of(v);
                    let mut rest = st;
                    let mut alive = true;
                    for (c, tb) in targets.iter() {
                        let mut c = c as i128;
                        if signed && bits > 0 && c >= bits / 2 {
                            c -= bits;
                        }
                        let e = eq0(&l.plus(-c));
                        if !alive {
                            break;
                        }
                        let mut s = rest.clone();
                        if s.assume(e, true) {
                            self.goto(pend, tb, s);
                        }
                        alive = rest.assume(e, false);
                    }
                    if alive {
                        let ob = targets.otherwise();
                        if !matches!(body.basic_blocks[ob].terminator().kind, TerminatorKind::Unreachable) {
                            self.goto(pend, ob, rest);
                        }
                    }
                }
            }
            TerminatorKind::Drop { place, target, .. } => {
                let (l, q, t) = self.lval(fr, &st, place);
                let v = self.load(&st, l, &q);
                if !v.is_uninit() {
                    let outs = self.do_drop(fr, bb.as_u32(), st, v, t, ptr(l, q.clone()), span);
                    for mut st in outs {
                        if place.projection.is_empty() {
                            st.store.remove(&Loc(fr, place.local.as_u32()));
                        }
                        self.goto(pend, *target, st);
                    }
                } else {
                    self.goto(pend, *target, st);
                }
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let local = local_crate(self.frame(fr).inst.def_id());
                let c = self.operand(fr, &mut st, cond);
                let (goal, kind): (Vec<V>, String) = match &**msg {
                    AssertKind::BoundsCheck { len, index } => {
                        let l = self.operand(fr, &mut st, len);
                        let i = self.operand(fr, &mut st, index);
                        (vec![lt(i, l)], "index out of bounds".into())
                    }
                    AssertKind::Overflow(op, a, b) => {
                        let t = self.operand_ty(fr, a);
                        let a = self.operand(fr, &mut st, a);
                        let b = self.operand(fr, &mut st, b);
                        let (la, lb) = (Lin::of(a), Lin::of(b));
                        let (lo, hi) = ty_range(t).unwrap_or((i128::MIN / 4, i128::MAX / 4));
                        let g = match op {
                            BinOp::Add => vec![la.add(&lb, 1)],
                            BinOp::Sub => vec![la.sub(&lb)],
                            BinOp::Mul => {
                                if let Some(k) = b.as_int() {
                                    vec![la.scale(k)]
                                } else if let Some(k) = a.as_int() {
                                    vec![lb.scale(k)]
                                } else {
                                    vec![Lin::of(app("mul", vec![a.min(b), a.max(b)], Some(t)))]
                                }
                            }
                            _ => vec![],
                        };
                        if g.is_empty() {
                            // shifts: amount below the width
                            (vec![if *expected { c } else { not(c) }], format!("shift overflow ({op:?})"))
                        } else {
                            let r = &g[0];
                            (vec![ge0(&r.plus(-lo)), ge0(&r.scale(-1).plus(hi))], format!("arithmetic overflow ({op:?})"))
                        }
                    }
                    AssertKind::DivisionByZero(_) => (vec![if *expected { c } else { not(c) }], "division by zero".into()),
                    AssertKind::RemainderByZero(_) => (vec![if *expected { c } else { not(c) }], "remainder by zero".into()),
                    _ => (vec![if *expected { c } else { not(c) }], "assertion".into()),
                };
                let mut ok = true;
                for g in &goal {
                    if st.query(*g) != Some(true) {
                        ok = false;
                    }
                }
                if local {
                    self.oblig(fr, span, &kind, ok);
                    if !ok {
                        let sn = self.snippet(span);
                        self.fail(&st, fr, span, &kind, &sn);
                    }
                }
                for g in &goal {
                    if !st.assume(*g, true) {
                        return;
                    }
                }
                self.goto(pend, *target, st);
            }
            TerminatorKind::Call { func, args, destination, target, fn_span, .. } => {
                let fty = self.operand_ty(fr, func);
                let fv = self.operand(fr, &mut st, func);
                let mut avs = vec![];
                let mut ats = vec![];
                for a in args.iter() {
                    ats.push(self.operand_ty(fr, &a.node));
                    let v = self.operand(fr, &mut st, &a.node);
                    avs.push(v);
                }
                let dt = destination.ty(&body.local_decls, tcx()).ty;
                let dt = self.mono(fr, dt);
                let sp = if fn_span.is_dummy() { span } else { span };
                let outs = self.call(fr, bb.as_u32(), st, fty, fv, avs, ats, dt, sp);
                if let Some(t) = target {
                    for (mut s, v) in outs {
                        self.assign(fr, &mut s, destination, v, span);
                        self.goto(pend, *t, s);
                    }
                }
            }
            TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) | TerminatorKind::Unreachable => {}
            k => {
                self.notes.insert(format!("terminator {:?} not modelled", std::mem::discriminant(k)));
            }
        }
    }
    fn do_drop(&mut self, fr: u32, bb: u32, mut st: State, v: V, t: Ty, p: V, span: Span) -> Vec<State> {
        self.drop_place(fr, &mut st, v, t);
        if let ty::Adt(d, args) = t.kind() {
            if local_crate(d.did()) {
                if let Some(dd) = tcx().adt_destructor(d.did()) {
                    if let Some(drop_trait) = tcx().lang_items().drop_trait() {
                        let m = tcx().associated_item_def_ids(drop_trait)[0];
                        let _ = dd;
                        let ga = tcx().mk_args(&[t.into()]);
                        let _ = args;
                        if let Ok(Some(i)) = Instance::try_resolve(tcx(), tenv(), m, ga) {
                            if let Some(r) = self.exec_body(i, None, vec![p], st.clone(), fr, bb + 700_000, span) {
                                return r.into_iter().map(|x| x.0).collect();
                            }
                        }
                    }
                }
            }
        }
        vec![st]
    }
    // ---- calls ----------------------------------------------------------------------------
    #[allow(clippy::too_many_arguments)]
    pub fn call(&mut self, fr: u32, bb: u32, st: State, fty: Ty, fv: V, args: Vec<V>, arg_tys: Vec<Ty>, ret_ty: Ty, span: Span) -> Vec<(State, V)> {
        let (def, targs) = match fty.kind() {
            ty::FnDef(d, a) => (*d, a.skip_binder()),
            _ => {
                // function pointer value
                if let Some(t) = fv.ty() {
                    if let ty::FnDef(..) | ty::Closure(..) = t.kind() {
                        return self.call_value(fr, bb, st, fv, args, arg_tys, ret_ty, span);
                    }
                }
                return self.opaque_call(fr, bb, st, "indirect", &args, ret_ty);
            }
        };
        let inst = Instance::try_resolve(tcx(), tenv(), def, targs).ok().flatten();
        if inst.is_none() && std::env::var("SA_RES").is_ok() { eprintln!("UNRESOLVED {} {:?}", path_s(def), targs); }
        self.call_inst(fr, bb, st, def, targs, inst, args, arg_tys, ret_ty, span)
    }
    #[allow(clippy::too_many_arguments)]
    pub fn call_inst(&mut self, fr: u32, bb: u32, st: State, def: DefId, targs: ty::GenericArgsRef<'static>, inst: Option<Instance<'static>>, args: Vec<V>, arg_tys: Vec<Ty>, ret_ty: Ty, span: Span) -> Vec<(State, V)> {
        let t = tcx();
        let tm = t.trait_of_assoc(def).map(|_| path_s(def));
        let name = inst.map(|i| path_s(i.def_id())).unwrap_or_else(|| path_s(def));
        let c = Call { name, tm, inst, def: Some(def), targs, args, arg_tys, ret_ty, span, frame: fr, bb };
        // closure-like calls through the Fn traits
        if let Some(m) = tm {
            if m.starts_with("std::ops::Fn") && (m.ends_with("::call_once") || m.ends_with("::call_mut") || m.ends_with("::call")) {
                let f = c.args[0];
                let targ = self.deref(&st, c.args[1]);
                let targ = if targ.is_term() { expand(targ, None, &st).unwrap_or(targ) } else { targ };
                if let N::Adt(_, xs) = targ.n() {
                    let fvv = self.deref(&st, f);
                    let st_ty = c.self_ty().map(peel).or(fvv.ty());
                    let callee_ty = fvv.ty().filter(|t| matches!(t.kind(), ty::FnDef(..) | ty::Closure(..))).or(st_ty);
                    if let Some(ct) = callee_ty {
                        if let ty::FnDef(..) | ty::Closure(..) = ct.kind() {
                            let f2 = if fvv.ty() == Some(ct) { f } else { adt(0, vec![], Some(ct)) };
                            let f2 = if matches!(ct.kind(), ty::Closure(..)) && fvv.ty().is_none() { f } else { f2 };
                            let tys: Vec<Ty> = xs.iter().map(|x| x.ty().unwrap_or(tcx().types.unit)).collect();
                            return self.call_value_ty(fr, bb, st, ct, f2, xs.clone(), tys, ret_ty, span);
                        }
                    }
                }
            }
        }
        if self.hooks.is_some() {
            if let Some((s, f, a)) = self.with_hooks(|h, e| h.inline(e, &st, &c)).flatten() {
                let tys: Vec<Ty> = a.iter().map(|x| x.ty().unwrap_or(tcx().types.unit)).collect();
                let outs = self.call_value(fr, bb + 31_000, s, f, a, tys, tcx().types.unit, span);
                return self.with_hooks(|h, e| h.inlined(e, &st, &c, outs)).unwrap_or_default();
            }
            let r = self.with_hooks(|h, e| h.call(e, &st, &c)).flatten();
            if let Some(r) = r {
                return r;
            }
        }
        if let Some(r) = crate::models::call(self, &st, &c) {
            return r;
        }
        if let Some(i) = inst {
            // constructors of tuple structs / variants used as functions
            if let DefKind::Ctor(of, _) = t.def_kind(i.def_id()) {
                let k = if matches!(of, rustc_hir::def::CtorOf::Variant) {
                    let vd = t.parent(i.def_id());
                    match ret_ty.kind() {
                        ty::Adt(d, _) => d.variants().iter().position(|v| v.def_id == vd).unwrap_or(0) as u32,
                        _ => 0,
                    }
                } else {
                    0
                };
                let v = adt(k, c.args.clone(), Some(ret_ty));
                return vec![(st, v)];
            }
            if self.should_inline(&c, i) {
                if let Some(r) = self.exec_body(i, None, c.args.clone(), st.clone(), fr, bb, span) {
                    return r;
                }
            }
        }
        self.opaque_call(fr, bb, st, c.name, &c.args, ret_ty)
    }
    pub fn should_inline(&mut self, c: &Call, i: Instance<'static>) -> bool {
        let d = i.def_id();
        if self.stack.len() > 60 {
            self.notes.insert("inlining depth".into());
            return false;
        }
        if self.no_inline.contains(c.name) {
            return false;
        }
        let rec = self.stack.iter().filter(|f| self.frame(**f).inst.def == i.def).count();
        if local_crate(d) {
            if rec > 0 {
                return false;
            }
            if tcx().is_automatically_derived(tcx().parent(d)) {
                let m = path_s(d);
                return m.ends_with("::eq") || m.ends_with("::ne") || m.ends_with("::default") || m.ends_with("::cmp") || m.ends_with("::partial_cmp");
            }
            return true;
        }
        if rec > 2 {
            return false;
        }
        let kr = tcx().crate_name(d.krate);
        let kr = kr.as_str();
        if kr == "sa_rt" {
            return true;
        }
        if !matches!(kr, "core" | "alloc" | "std") {
            return false;
        }
        crate::models::inline_std(c.name, d)
    }
    #[allow(clippy::too_many_arguments)]
    pub fn call_value(&mut self, fr: u32, bb: u32, st: State, f: V, args: Vec<V>, arg_tys: Vec<Ty>, ret_ty: Ty, span: Span) -> Vec<(State, V)> {
        let fv = self.deref(&st, f);
        match fv.ty() {
            Some(t) if matches!(t.kind(), ty::FnDef(..) | ty::Closure(..)) => self.call_value_ty(fr, bb, st, t, f, args, arg_tys, ret_ty, span),
            _ => self.opaque_call(fr, bb, st, "indirect", &args, ret_ty),
        }
    }
    #[allow(clippy::too_many_arguments)]
    pub fn call_value_ty(&mut self, fr: u32, bb: u32, st: State, fty: Ty, f: V, args: Vec<V>, arg_tys: Vec<Ty>, ret_ty: Ty, span: Span) -> Vec<(State, V)> {
        match fty.kind() {
            ty::FnDef(d, a) => {
                let a = a.skip_binder();
                let inst = Instance::try_resolve(tcx(), tenv(), *d, a).ok().flatten();
                self.call_inst(fr, bb, st, *d, a, inst, args, arg_tys, ret_ty, span)
            }
            ty::Closure(d, a) => {
                let inst = Instance::new_raw(*d, a);
                let mut st = st;
                // the closure body wants its environment by pointer unless it is FnOnce
                let mut env = f;
                let kind = a.as_closure().kind();
                if kind == ty::ClosureKind::FnMut && !matches!(f.n(), N::Ptr(..)) {
                    let h = self.heap(fr, bb, 77);
                    st.set(h, f);
                    env = ptr(h, vec![]);
                } else if kind != ty::ClosureKind::FnMut {
                    if let N::Ptr(..) = f.n() {
                        env = self.deref(&st, f);
                    }
                }
                let mut av = vec![env];
                av.extend(args.iter().copied());
                if self.stack.len() < 60 {
                    if let Some(r) = self.exec_body(inst, None, av, st.clone(), fr, bb, span) {
                        return r;
                    }
                }
                self.opaque_call(fr, bb, st, "closure", &args, ret_ty)
            }
            _ => self.opaque_call(fr, bb, st, "indirect", &args, ret_ty),
        }
    }
    pub fn opaque_call(&mut self, fr: u32, bb: u32, mut st: State, name: &str, args: &[V], ret_ty: Ty) -> Vec<(State, V)> {
        if ret_ty.is_never() {
            return vec![];
        }
        if self.recording {
            *self.opaque.entry(name.to_string()).or_default() += 1;
        }
        let mut impure = crate::models::impure(name);
        let mut snaps = vec![];
        for a in args {
            snaps.push(self.snap(&st, *a, 0));
        }
        for (i, a) in args.iter().enumerate() {
            if let N::Ptr(l, p) = a.n() {
                impure = true;
                let old = self.deref(&st, *a);
                let ty = old.ty();
                let f = self.fresh(&st, fr, bb, &format!("havoc{}.{}", i, short(name)), ty);
                self.store(&mut st, *l, p, f);
            }
        }
        if ret_ty.is_unit() {
            return vec![(st, adt(0, vec![], Some(ret_ty)))];
        }
        let v = if impure {
            self.fresh(&st, fr, bb, short(name), Some(ret_ty))
        } else {
            app(name, snaps, Some(peel(ret_ty)))
        };
        vec![(st, v)]
    }
    /// run a function on symbolic arguments
    pub fn root(&mut self, inst: Instance<'static>, args: Vec<V>, st: State) -> Vec<(State, V)> {
        self.stack.clear();
        self.recording = true;
        self.exec_body(inst, None, args, st, 1, self.uniq, rustc_span::DUMMY_SP).unwrap_or_default()
    }
}
pub fn short(n: &str) -> &str {
    n.rsplit("::").next().unwrap_or(n)
}
pub fn retype(v: V, t: Ty) -> V {
    match v.n() {
        N::Field(a, k, i) => intern(N::Field(*a, *k, *i), Some(t)),
        N::App(f, a) => intern(N::App(f, a.clone()), Some(t)),
        N::Sym(s) => intern(N::Sym(s), Some(t)),
        _ => v,
    }
}
pub fn subslice(v: V, a: V, n: V) -> V {
    if a.as_int() == Some(0) && len_of(v, usize_ty()) == n {
        return v;
    }
    if let (N::Seq(e), Some(x), Some(k)) = (v.n(), a.as_int(), n.as_int()) {
        if x >= 0 && k >= 0 && (x + k) as usize <= e.len() {
            return seq(e[x as usize..(x + k) as usize].to_vec());
        }
    }
    app("subslice", vec![v, a, n], v.ty())
}
const SHAPE_PTR: bool = true;
fn shape_of(v: V, st: &State, s: &mut String, d: u32, fr: u32) {
    if d > 16 {
        return;
    }
    match v.n() {
        N::Bool(b) => s.push_str(if *b { "T" } else { "F" }),
        N::Adt(k, f) => {
            if v.ty().map(is_enum).unwrap_or(false) {
                s.push_str(&format!("v{k}"));
            }
            for (i, x) in f.iter().enumerate() {
                let n = s.len();
                shape_of(*x, st, s, d + 1, fr);
                if s.len() > n {
                    s.push_str(&format!(".{i}"));
                }
            }
        }
        N::Model(_, f) => {
            for (i, x) in f.iter().enumerate() {
                let n = s.len();
                shape_of(*x, st, s, d + 1, fr);
                if s.len() > n {
                    s.push_str(&format!(".{i}"));
                }
            }
        }
        N::Ptr(l, p) => {
            s.push_str(&format!("p{}_{}", l.0, l.1));
            if SHAPE_PTR && l.0 != fr && d < 10 {
                let mut v = st.get(*l);
                let _ = &mut v;
                let _ = p;
                shape_of(v, st, s, d + 3, fr);
            }
        }
        _ => {
            if v.is_term() && v.ty().map(is_enum).unwrap_or(false) {
                let m = st.facts.mask(v);
                if m.count_ones() == 1 {
                    s.push_str(&format!("v{}", m.trailing_zeros()));
                }
            }
        }
    }
}
pub fn join_facts(a: &Facts, b: &Facts) -> Facts {
    let mut out = Facts::default();
    for (f, t) in a.list() {
        if b.entails(f, t) {
            put(&mut out, f, t);
        }
    }
    for (f, t) in b.list() {
        if a.entails(f, t) {
            put(&mut out, f, t);
        }
    }
    // unions of variant sets
    for (t, m) in &a.vars {
        let m2 = m | b.mask(*t);
        out.set_mask(*t, m2);
    }
    out
}

//! The caller side: builds the world of a plan through magog's public API and
//! makes the calls a plan lists.  This crate is compiled with the same
//! instrumentation as magog, because magog's generic code is instantiated here.
#![allow(clippy::all, dangerous_implicit_autorefs, dead_code)]
use magog::flatbush::{Flatbush, FlatbushNode};
use magog::linear::primitives as lp;
use magog::linear::primitives::HasEnvelope as LHas;
use magog::linear::types as lt;
use magog::planar::primitives::*;
use magog::planar::types::*;
use magog::Coordinate;
use plan::{BoxS, Ct, Geo, Lin, Obj, Op, GM, K, P};
use simrt::sched::{callback, lib};
use simrt::SimCoord;
use std::cell::{RefCell, UnsafeCell};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

pub trait SimC: Coordinate + 'static {
    fn of(v: f64) -> Self;
    fn f(self) -> f64;
}
impl SimC for f64 {
    fn of(v: f64) -> f64 {
        v
    }
    fn f(self) -> f64 {
        self
    }
}
impl SimC for f32 {
    fn of(v: f64) -> f32 {
        v as f32
    }
    fn f(self) -> f64 {
        self as f64
    }
}
impl SimC for SimCoord {
    fn of(v: f64) -> SimCoord {
        SimCoord(v)
    }
    fn f(self) -> f64 {
        self.0
    }
}

// ------------------------------------------------------------------ encoding
pub type Out = Vec<u64>;

/// Tell the two zeros apart.
pub static mut BITS: bool = false;

pub fn wf(o: &mut Out, v: f64) {
    o.push(if v.is_nan() {
        0x7ff8_0000_0000_0000
    } else if v == 0.0 && !unsafe { BITS } {
        0
    } else {
        v.to_bits()
    });
}
fn wstr(o: &mut Out, s: &str) {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x1000_0000_01b3);
    }
    o.push(h);
}
fn wpos<C: SimC>(o: &mut Out, p: Position<C>) {
    wf(o, p.x.f());
    wf(o, p.y.f());
}
fn wopos<C: SimC>(o: &mut Out, p: Option<Position<C>>) {
    match p {
        None => o.push(0),
        Some(p) => {
            o.push(1);
            wpos(o, p);
        }
    }
}
/// 0 for empty, else 1 minx miny maxx maxy
fn wenv<C: SimC>(o: &mut Out, e: &Envelope<C>) {
    match e {
        Envelope::Empty => o.push(0),
        Envelope::Bounds { min, max } => {
            o.push(1);
            wpos(o, *min);
            wpos(o, *max);
        }
    }
}
fn wlenv<C: SimC>(o: &mut Out, e: &lp::Envelope<C>) {
    match e {
        lp::Envelope::Empty => o.push(0),
        lp::Envelope::Bounds { min, max } => {
            o.push(1);
            wf(o, min.x.f());
            wf(o, max.x.f());
        }
    }
}
fn wline<C: SimC>(o: &mut Out, l: &LineString<C>) {
    o.push(l.positions.len() as u64);
    for p in &l.positions {
        wpos(o, *p);
    }
    wenv(o, &l.envelope());
}
fn wpoly<C: SimC>(o: &mut Out, p: &Polygon<C>) {
    wline(o, &p.exterior);
    o.push(p.interiors.len() as u64);
    for l in &p.interiors {
        wline(o, l);
    }
    wenv(o, &p.envelope());
}
fn wgeo<C: SimC>(o: &mut Out, g: &Geometry<C>) {
    match g {
        Geometry::Empty(_) => o.push(10),
        Geometry::Point(p) => {
            o.push(11);
            wpos(o, p.0);
        }
        Geometry::LineString(l) => {
            o.push(12);
            wline(o, l);
        }
        Geometry::Polygon(p) => {
            o.push(13);
            wpoly(o, p);
        }
        Geometry::MultiPoint(m) => {
            o.push(14);
            o.push(m.points.len() as u64);
            for p in &m.points {
                wpos(o, p.0);
            }
            wenv(o, &m.envelope());
        }
        Geometry::MultiLineString(m) => {
            o.push(15);
            o.push(m.line_strings.len() as u64);
            for l in &m.line_strings {
                wline(o, l);
            }
            wenv(o, &m.envelope());
        }
        Geometry::MultiPolygon(m) => {
            o.push(16);
            o.push(m.polygons.len() as u64);
            for p in &m.polygons {
                wpoly(o, p);
            }
            wenv(o, &m.envelope());
        }
    }
}
fn wres(o: &mut Out, r: Result<(), &'static str>) {
    match r {
        Ok(()) => o.push(0),
        Err(s) => {
            o.push(1);
            wstr(o, s);
        }
    }
}
/// What reference::encode of a plan geometry must equal for `wgeo`.
pub fn encode_ref(o: &mut Out, ct: Ct, g: &Geo) {
    match ct {
        Ct::F64 => wgeo(o, &mk::<f64>(g)),
        Ct::F32 => wgeo(o, &mk::<f32>(g)),
        Ct::Sim => wgeo(o, &mk::<SimCoord>(g)),
    }
}

// --------------------------------------------------------------- construction
fn pos<C: SimC>(p: P) -> Position<C> {
    Position::new(C::of(p.0), C::of(p.1))
}
fn env<C: SimC>(b: &BoxS) -> Envelope<C> {
    match b {
        BoxS::Empty => Envelope::empty(),
        BoxS::B(a, c) => Envelope::new(pos(*a), pos(*c)),
    }
}
fn fbox<C: SimC>(f: &[f64]) -> Envelope<C> {
    if f.len() < 4 {
        return Envelope::empty();
    }
    Envelope::new(pos((f[0], f[1])), pos((f[2], f[3])))
}
fn ls<C: SimC>(v: &[P]) -> LineString<C> {
    LineString::new(v.iter().map(|p| pos(*p)).collect())
}
fn polygon<C: SimC>(e: &[P], i: &[Vec<P>]) -> Polygon<C> {
    if i.is_empty() {
        Polygon::from(ls::<C>(e))
    } else {
        Polygon::new(ls(e), i.iter().map(|l| ls(l)).collect())
    }
}
pub fn mk<C: SimC>(g: &Geo) -> Geometry<C> {
    match g {
        Geo::Empty => Geometry::empty(),
        Geo::Point(p) => Point::new(pos::<C>(*p)).into(),
        Geo::Line(v) => ls::<C>(v).into(),
        Geo::Poly(e, i) => polygon::<C>(e, i).into(),
        Geo::MPoint(v) => MultiPoint::new(v.iter().map(|p| Point::new(pos::<C>(*p))).collect()).into(),
        Geo::MLine(v) => MultiLineString::new(v.iter().map(|l| ls::<C>(l)).collect()).into(),
        Geo::MPoly(v) => MultiPolygon::new(v.iter().map(|(e, i)| polygon::<C>(e, i)).collect()).into(),
    }
}

/// Make a geometry look like another through its public fields.
fn edit<C: SimC>(g: &mut Geometry<C>, b: &Geo) {
    fn over<T, S>(v: &mut Vec<T>, s: &[S], set: impl Fn(&mut T, &S), new: impl Fn(&S) -> T) {
        v.truncate(s.len());
        for (t, x) in v.iter_mut().zip(s) {
            set(t, x);
        }
        for x in &s[v.len()..] {
            v.push(new(x));
        }
    }
    fn line<C: SimC>(l: &mut LineString<C>, s: &Vec<P>) {
        over(&mut l.positions, s, |t, x| *t = pos(*x), |x| pos(*x));
    }
    fn area<C: SimC>(p: &mut Polygon<C>, e: &Vec<P>, i: &Vec<Vec<P>>) {
        line(&mut p.exterior, e);
        over(&mut p.interiors, i, line, |x| ls(x));
    }
    match (g, b) {
        (Geometry::LineString(l), Geo::Line(s)) => line(l, s),
        (Geometry::Polygon(p), Geo::Poly(e, i)) => area(p, e, i),
        (Geometry::MultiPoint(m), Geo::MPoint(s)) => {
            over(&mut m.points, s, |t, x| *t = Point::new(pos(*x)), |x| Point::new(pos(*x)))
        }
        (Geometry::MultiLineString(m), Geo::MLine(s)) => over(&mut m.line_strings, s, line, |x| ls(x)),
        (Geometry::MultiPolygon(m), Geo::MPoly(s)) => {
            over(&mut m.polygons, s, |t, x| area(t, &x.0, &x.1), |x| polygon(&x.0, &x.1))
        }
        _ => (),
    }
}

/// A caller-supplied item: asking for its box calls back into the caller.
#[derive(Clone, Copy)]
pub struct Item<C: SimC>(Envelope<C>);
impl<C: SimC> HasEnvelope<C> for Item<C> {
    fn envelope(&self) -> Envelope<C> {
        callback();
        self.0
    }
}
/// The one-dimensional counterpart.
#[derive(Clone, Copy)]
pub struct LItem<C: SimC>(lp::Envelope<C>);
impl<C: SimC> LHas<C> for LItem<C> {
    fn envelope(&self) -> lp::Envelope<C> {
        callback();
        self.0
    }
}
struct GItem<C: SimC>(Geometry<C>);
impl<C: SimC> HasEnvelope<C> for GItem<C> {
    fn envelope(&self) -> Envelope<C> {
        callback();
        self.0.envelope()
    }
}
/// An item whose box other threads (or its own script) change.
struct MItem<'a, C: SimC> {
    i: usize,
    set: &'a MovingSet<C>,
    log: &'a RefCell<Vec<Vec<u32>>>,
}
impl<'a, C: SimC> HasEnvelope<C> for MItem<'a, C> {
    fn envelope(&self) -> Envelope<C> {
        callback();
        simrt::sched::out(|| {
            let n = self.set.boxes[self.i].len();
            let k = if self.set.scripted {
                self.log.borrow()[self.i].len().min(n - 1)
            } else {
                unsafe { (*self.set.cur.get())[self.i] % n }
            };
            self.log.borrow_mut()[self.i].push(k as u32);
            self.set.boxes[self.i][k]
        })
    }
}
struct MovingSet<C: SimC> {
    boxes: Vec<Vec<Envelope<C>>>,
    scripted: bool,
    cur: UnsafeCell<Vec<usize>>,
}

enum LinB<C: SimC> {
    P(lt::Point<C>),
    L(lt::Line<C>),
    MP(lt::MultiPoint<C>),
    ML(lt::MultiLine<C>),
}

enum Built<C: SimC> {
    Items(Vec<Item<C>>),
    Index(Flatbush<C>),
    Geo(Geometry<C>),
    Lin(LinB<C>),
    Text(String),
    Moving(MovingSet<C>),
}

fn build_index<C: SimC, T: HasEnvelope<C>>(items: &[T], degree: usize, sorted: bool) -> Flatbush<C> {
    if sorted {
        Flatbush::new(items, degree)
    } else {
        Flatbush::new_unsorted(items, degree)
    }
}

fn build_obj<C: SimC>(o: &Obj) -> Built<C> {
    match o {
        Obj::Items(v) => Built::Items(v.iter().map(|b| Item(env(b))).collect()),
        Obj::Index { items, degree, sorted } => {
            let v: Vec<Item<C>> = items.iter().map(|b| Item(env(b))).collect();
            Built::Index(lib(|| build_index(&v, *degree, *sorted)))
        }
        Obj::GeoIndex { geos, degree, sorted } => {
            let v: Vec<GItem<C>> = geos.iter().map(|g| GItem(lib(|| mk(g)))).collect();
            let r = lib(|| build_index(&v, *degree, *sorted));
            lib(|| drop(v));
            Built::Index(r)
        }
        Obj::Geo(g) => Built::Geo(lib(|| mk(g))),
        Obj::Lin(l) => Built::Lin(lib(|| match l {
            Lin::Point(x) => {
                LinB::P(if x.is_nan() { lt::Point::empty() } else { lt::Point::new(lp::Position::new(C::of(*x))) })
            }
            Lin::Line(a, b) => LinB::L(lt::Line::new(lp::Position::new(C::of(*a)), lp::Position::new(C::of(*b)))),
            Lin::EmptyLine => LinB::L(lt::Line::empty()),
            Lin::MPoint(v) => {
                LinB::MP(lt::MultiPoint::new(v.iter().map(|x| lp::Position::new(C::of(*x))).collect()))
            }
            Lin::MLine(v) => LinB::ML(lt::MultiLine::new(
                v.iter()
                    .map(|(a, b)| lp::Segment::new(lp::Position::new(C::of(*a)), lp::Position::new(C::of(*b))))
                    .collect(),
            )),
        })),
        Obj::Text(t) => Built::Text(String::from_utf8_lossy(t).into_owned()),
        Obj::Moving { boxes, scripted } => Built::Moving(MovingSet {
            boxes: boxes.iter().map(|v| v.iter().map(env).collect()).collect(),
            scripted: *scripted,
            cur: UnsafeCell::new(vec![0; boxes.len()]),
        }),
    }
}

// ----------------------------------------------------------------------- world
pub trait World {
    fn exec(&self, op: &Op, out: &mut Out);
    fn dump(&self, out: &mut Out);
    /// queues of arrived items (shard workloads)
    fn queues(&self) -> Vec<Vec<u32>>;
    fn slots(&self, out: &mut Out);
}

struct W<C: SimC> {
    spec: Vec<Obj>,
    objs: Vec<Option<Built<C>>>,
    slots: UnsafeCell<Vec<(Envelope<C>, lp::Envelope<C>)>>,
    queues: UnsafeCell<Vec<Vec<u32>>>,
}

/// Build the objects for which `need` says so (the others stay absent).
pub fn build(ct: Ct, objs: &[Obj], slots: usize, need: &[bool]) -> Box<dyn World> {
    fn go<C: SimC>(objs: &[Obj], slots: usize, need: &[bool]) -> Box<dyn World> {
        Box::new(W::<C> {
            spec: objs.to_vec(),
            objs: objs.iter().zip(need).map(|(o, n)| if *n { Some(build_obj(o)) } else { None }).collect(),
            slots: UnsafeCell::new(vec![(Envelope::empty(), lp::Envelope::empty()); slots]),
            queues: UnsafeCell::new(vec![vec![]; slots]),
        })
    }
    match ct {
        Ct::F64 => go::<f64>(objs, slots, need),
        Ct::F32 => go::<f32>(objs, slots, need),
        Ct::Sim => go::<SimCoord>(objs, slots, need),
    }
}

fn walk<C: SimC>(o: &mut Out, idx: &Flatbush<C>) {
    fn node<C: SimC>(o: &mut Out, n: &FlatbushNode<C>) {
        o.push(n.level as u64);
        o.push(n.sibling_index as u64);
        wenv(o, &n.envelope);
    }
    let root = lib(|| idx.root_node());
    let at = o.len();
    o.push(0);
    let mut cnt = 1;
    node(o, &root);
    let mut stack = vec![root];
    while let Some(n) = stack.pop() {
        // padding has no children; it cannot be told from empty items
        if n.level == 0 || n.envelope == Envelope::empty() {
            continue;
        }
        let ch = lib(|| idx.get_children(n));
        for c in ch.iter() {
            node(o, c);
            cnt += 1;
        }
        stack.extend(ch.iter().copied());
        lib(|| drop(ch));
    }
    o[at] = cnt;
}

fn widx(o: &mut Out, v: Vec<usize>) {
    o.push(v.len() as u64);
    o.extend(v.iter().map(|x| *x as u64));
    lib(|| drop(v));
}
fn wpairs(o: &mut Out, v: Vec<(usize, usize)>) {
    o.push(v.len() as u64);
    for (a, b) in v.iter() {
        o.push(((*a as u64) << 32) | *b as u64);
    }
    lib(|| drop(v));
}

const NA: u64 = 0xEEEE;

impl<C: SimC> W<C> {
    fn obj(&self, i: usize) -> &Built<C> {
        self.objs[i].as_ref().expect("object not built")
    }
    fn with<R>(&self, i: usize, fresh: bool, f: &mut dyn FnMut(&Built<C>) -> R) -> R {
        if fresh {
            let b: Built<C> = build_obj(&self.spec[i]);
            let r = f(&b);
            lib(|| drop(b));
            r
        } else {
            f(self.obj(i))
        }
    }
    fn index_op(&self, op: &Op, o: &mut Out) {
        self.with(op.a, op.fresh, &mut |b| {
            let idx = match b {
                Built::Index(i) => i,
                _ => {
                    o.push(NA);
                    return;
                }
            };
            match op.k {
                K::Query => {
                    let q: Envelope<C> = fbox(&op.f);
                    widx(o, lib(|| idx.find_intersection_candidates(q)));
                }
                K::Within => {
                    let (p, d) = (pos((op.f[0], op.f[1])), C::of(op.f[2]));
                    widx(o, lib(|| idx.find_candidates_within(p, d)));
                }
                K::SelfJoin => wpairs(o, lib(|| idx.find_self_intersection_candidates())),
                K::Cross => match self.obj(op.b) {
                    Built::Index(j) => wpairs(o, lib(|| idx.find_other_rtree_intersection_candidates(j))),
                    _ => o.push(NA),
                },
                K::IdxEnv => wenv(o, &lib(|| idx.envelope())),
                _ => walk(o, idx),
            }
        });
    }
    fn lin_op(&self, op: &Op, o: &mut Out) {
        self.with(op.a, op.fresh, &mut |b| {
            let l = match b {
                Built::Lin(l) => l,
                _ => return,
            };
            let pt = |o: &mut Out, p: Option<lt::Point<C>>| match p {
                None => o.push(0),
                Some(p) => {
                    o.push(1 + lib(|| p.is_empty()) as u64);
                    wf(o, lib(|| p.x()).map_or(f64::NAN, |x| x.f()));
                }
            };
            let n = op.n.first().copied().unwrap_or(0) as usize;
            match l {
                LinB::P(p) => {
                    o.push(lib(|| p.is_empty()) as u64);
                    wlenv(o, &lib(|| p.envelope()));
                    wf(o, lib(|| p.x()).map_or(f64::NAN, |x| x.f()));
                }
                LinB::L(l) => {
                    o.push(lib(|| l.is_empty()) as u64);
                    wlenv(o, &lib(|| l.envelope()));
                    pt(o, lib(|| l.start()));
                    pt(o, lib(|| l.end()));
                }
                LinB::MP(m) => {
                    o.push(lib(|| m.num_points()) as u64);
                    wlenv(o, &lib(|| m.envelope()));
                    pt(o, lib(|| m.get_point(n)));
                }
                LinB::ML(m) => {
                    o.push(lib(|| m.is_empty()) as u64);
                    wlenv(o, &lib(|| m.envelope()));
                    match lib(|| m.get_line(n)) {
                        None => o.push(0),
                        Some(l) => {
                            o.push(1);
                            wlenv(o, &l.envelope());
                        }
                    }
                }
            }
        });
    }

    fn geo_op(&self, op: &Op, o: &mut Out) {
        let m = GM[op.n[0] as usize];
        self.with(op.a, op.fresh, &mut |b| {
            let g = match b {
                Built::Geo(g) => g,
                _ => {
                    o.push(NA);
                    return;
                }
            };
            geo_method(o, g, m, &op.f);
        });
    }

    fn exec_(&self, op: &Op, o: &mut Out) {
        match op.k {
            K::Nop => (),
            K::Query | K::Within | K::SelfJoin | K::Cross | K::IdxEnv | K::Walk => self.index_op(op, o),
            K::Build => {
                if let Built::Items(v) = self.obj(op.a) {
                    let idx = lib(|| build_index(v, op.n[0] as usize, op.n[1] == 1));
                    walk(o, &idx);
                    for q in op.f.chunks(4) {
                        let q: Envelope<C> = fbox(q);
                        widx(o, lib(|| idx.find_intersection_candidates(q)));
                    }
                    lib(|| drop(idx));
                }
            }
            K::BoxOf => {
                if let Built::Items(v) = self.obj(op.a) {
                    let e = match op.n.first().copied().unwrap_or(0) {
                        0 => lib(|| Envelope::of(v.iter())),
                        1 => {
                            let w: Vec<Envelope<C>> = v.iter().map(|i| i.0).collect();
                            lib(|| {
                                Envelope::of(vague(w.len(), w.iter()))
                            })
                        }
                        _ => {
                            let w: Vec<Position<C>> = v.iter().filter_map(|i| i.0.min()).collect();
                            lib(|| Envelope::of(w.iter()))
                        }
                    };
                    wenv(o, &e);
                    let lv: Vec<LItem<C>> = v.iter().map(|i| LItem(lin_of(&i.0))).collect();
                    let le = lib(|| lp::Envelope::of(lv.iter()));
                    wlenv(o, &le);
                }
            }
            K::Expand => {
                if let Built::Items(v) = self.obj(op.a) {
                    let mut t: Envelope<C> = fbox(&op.f);
                    let mut lt: lp::Envelope<C> = lin_of(&t);
                    let mut k = 0u64;
                    let r = catch_unwind(AssertUnwindSafe(|| {
                        for it in v.iter() {
                            let (it, l) = (*it, LItem(lin_of(&it.0)));
                            lib(|| t.expand(it));
                            k += 1;
                            lib(|| lt.expand(l));
                            k += 1;
                        }
                    }));
                    o.push(k);
                    wenv(o, &t);
                    wlenv(o, &lt);
                    if let Err(p) = r {
                        resume_unwind(p);
                    }
                }
            }
            K::Merge => {
                let (a, b): (Envelope<C>, Envelope<C>) = (fbox(&op.f), fbox(&op.f[op.f.len().min(4)..]));
                let it = Item(b);
                wenv(o, &lib(|| a.merge(it)));
                let (la, lb) = (lin_of(&a), LItem(lin_of(&b)));
                wlenv(o, &lib(|| la.merge(lb)));
            }
            K::BoxRel => {
                let (a, b): (Envelope<C>, Envelope<C>) = (fbox(&op.f), fbox(&op.f[op.f.len().min(4)..]));
                let it = Item(b);
                o.push(lib(|| a.contains(it)) as u64);
                o.push(lib(|| a.intersects(b)) as u64);
                o.push(lib(|| a == b) as u64);
                let (la, lb) = (lin_of(&a), lin_of(&b));
                o.push(lib(|| la.contains(lb)) as u64);
                o.push(lib(|| la.intersects(lb)) as u64);
            }
            K::BoxMisc => {
                let a: Envelope<C> = fbox(&op.f);
                let d = C::of(*op.f.get(4).unwrap_or(&1.0));
                wres(o, lib(|| a.validate()));
                wopos(o, lib(|| a.min()));
                wopos(o, lib(|| a.max()));
                wopos(o, lib(|| a.center()));
                o.push(lib(|| a.is_empty()) as u64);
                wenv(o, &lib(|| a.buffer(d)));
            }
            K::G => self.geo_op(op, o),
            K::Eq => {
                if let (Built::Geo(a), Built::Geo(b)) = (self.obj(op.a), self.obj(op.b)) {
                    o.push(lib(|| a == b) as u64);
                }
            }
            K::Edit => {
                let geo = |i: usize| match self.spec.get(i) {
                    Some(Obj::Geo(g)) => Some(g),
                    _ => None,
                };
                if let (Some(a), Some(b)) = (geo(op.a), geo(op.b)) {
                    let mut g: Geometry<C> = lib(|| mk(a));
                    if let Some(m) = GM.get(op.n[0] as usize) {
                        let mut first = Out::new();
                        geo_method(&mut first, &g, m, &op.f);
                    }
                    if op.n[2] == 1 {
                        if let Geometry::LineString(l) = &g {
                            let l = lib(|| l.clone());
                            let old = std::mem::replace(&mut g, Geometry::LineString(l));
                            lib(|| drop(old));
                        }
                    }
                    lib(|| edit(&mut g, b));
                    geo_method(o, &g, GM[op.n[1] as usize], &op.f);
                    lib(|| drop(g));
                }
            }
            K::L => self.lin_op(op, o),
            K::SegIsect => {
                let f = &op.f;
                let s: Segment<C> = Segment::new(pos((f[0], f[1])), pos((f[2], f[3])));
                let t: Segment<C> = Segment::new(pos((f[4], f[5])), pos((f[6], f[7])));
                match lib(|| s.intersect_segment(t)) {
                    SegmentIntersection::None => o.push(0),
                    SegmentIntersection::Position(p) => {
                        o.push(1);
                        wpos(o, p);
                    }
                    SegmentIntersection::Segment(s) => {
                        o.push(2);
                        wpos(o, s.start);
                        wpos(o, s.end);
                    }
                }
            }
            K::SegMisc => {
                let f = &op.f;
                let s: Segment<C> = Segment::new(pos((f[0], f[1])), pos((f[2], f[3])));
                let p: Position<C> = pos((f[4], f[5]));
                wres(o, lib(|| s.validate()));
                wf(o, lib(|| s.length_squared()).f());
                wf(o, lib(|| s.length()).f());
                wf(o, lib(|| s.determinant()).f());
                o.push(match lib(|| s.position_location(p)) {
                    PositionLocation::Left => 0,
                    PositionLocation::On => 1,
                    PositionLocation::Right => 2,
                });
                o.push(lib(|| s.contains(p)) as u64);
                wenv(o, &lib(|| s.envelope()));
            }
            K::Tri => {
                let f = &op.f;
                let t: Triangle<C> = Triangle::new(pos((f[0], f[1])), pos((f[2], f[3])), pos((f[4], f[5])));
                wf(o, lib(|| t.signed_area()).f());
                wf(o, lib(|| t.area()).f());
                for p in lib(|| t.to_array()).iter() {
                    wpos(o, *p);
                }
            }
            K::Pos => {
                let f = &op.f;
                let (p, q): (Position<C>, Position<C>) = (pos((f[0], f[1])), pos((f[2], f[3])));
                wf(o, lib(|| Position::cross(p, q)).f());
                wf(o, lib(|| Position::dot(p, q)).f());
                wpos(o, lib(|| p.min(q)));
                wpos(o, lib(|| p.max(q)));
                let (a, b) = lib(|| Position::min_max(p, q));
                wpos(o, a);
                wpos(o, b);
                wres(o, lib(|| p.validate()));
                o.push(lib(|| p.to_hashable().is_ok()) as u64);
                wpos(o, lib(|| p + q));
                wpos(o, lib(|| p - q));
                wpos(o, lib(|| p * q.x));
                wpos(o, lib(|| p / q.y));
            }
            K::Wkt => {
                self.with(op.a, op.fresh, &mut |b| {
                    if let Built::Text(t) = b {
                        match lib(|| magog::serde::wkt::parse_wkt(t)) {
                            Err(e) => {
                                o.push(1);
                                wstr(o, e);
                            }
                            Ok(v) => {
                                o.push(0);
                                o.push(v.len() as u64);
                                for g in v.iter() {
                                    wgeo(o, g);
                                }
                                lib(|| drop(v));
                            }
                        }
                    }
                });
            }
            K::BuildMove => {
                if let Built::Moving(set) = self.obj(op.a) {
                    let n = set.boxes.len();
                    let log = RefCell::new(vec![Vec::new(); n]);
                    let items: Vec<MItem<C>> = (0..n).map(|i| MItem { i, set, log: &log }).collect();
                    let idx = lib(|| build_index(&items, op.n[0] as usize, op.n[1] == 1));
                    o.push(n as u64);
                    for l in log.borrow().iter() {
                        o.push(l.len() as u64);
                        o.extend(l.iter().map(|x| *x as u64));
                    }
                    walk(o, &idx);
                    wenv(o, &lib(|| idx.envelope()));
                    for q in op.f.chunks(4) {
                        let q: Envelope<C> = fbox(q);
                        widx(o, lib(|| idx.find_intersection_candidates(q)));
                    }
                    wpairs(o, lib(|| idx.find_self_intersection_candidates()));
                    lib(|| drop(idx));
                }
            }
            K::Move => {
                if let Built::Moving(set) = self.obj(op.a) {
                    lib(|| {
                        callback();
                        unsafe { (*set.cur.get())[op.n[0] as usize] = op.n[1] as usize }
                    });
                }
            }
            K::AccOf | K::AccItem | K::AccJoin | K::AccCopy | K::AccReset => self.acc_op(op, o),
            K::Push => {
                let q = unsafe { &mut *self.queues.get() };
                lib(callback);
                // n = [queue, first item, how many]
                for i in 0..op.n.get(2).copied().unwrap_or(1) {
                    q[op.n[0] as usize].push((op.n[1] + i) as u32);
                }
            }
            K::BuildShard => {
                // build an index over what has arrived in queue n[0], then answer
                if let Built::Items(all) = self.obj(op.a) {
                    let arrived = unsafe { (*self.queues.get())[op.n[0] as usize].clone() };
                    o.push(arrived.len() as u64);
                    o.extend(arrived.iter().map(|x| *x as u64));
                    let v: Vec<Item<C>> = arrived.iter().map(|i| all[*i as usize]).collect();
                    let idx = lib(|| build_index(&v, op.n[1] as usize, op.n[2] == 1));
                    wenv(o, &lib(|| idx.envelope()));
                    let qs: Vec<&[f64]> = op.f.chunks(4).collect();
                    for q in qs {
                        let q: Envelope<C> = fbox(q);
                        widx(o, lib(|| idx.find_intersection_candidates(q)));
                    }
                    wpairs(o, lib(|| idx.find_self_intersection_candidates()));
                    // join with the other shards
                    for s in op.n[3..].chunks(3) {
                        let a2 = unsafe { (*self.queues.get())[s[0] as usize].clone() };
                        o.push(a2.len() as u64);
                        o.extend(a2.iter().map(|x| *x as u64));
                        let v2: Vec<Item<C>> = a2.iter().map(|i| all[*i as usize]).collect();
                        let idx2 = lib(|| build_index(&v2, s[1] as usize, s[2] == 1));
                        wpairs(o, lib(|| idx.find_other_rtree_intersection_candidates(&idx2)));
                        wpairs(o, lib(|| idx2.find_other_rtree_intersection_candidates(&idx)));
                        lib(|| drop(idx2));
                    }
                    lib(|| drop(idx));
                }
            }
        }
    }

    fn acc_op(&self, op: &Op, o: &mut Out) {
        let s = op.n[0] as usize;
        let get = |i: usize| unsafe { (&(*self.slots.get()))[i] };
        let (mut e, mut l) = get(s);
        match op.k {
            K::AccReset => {
                e = Envelope::empty();
                l = lp::Envelope::empty();
            }
            K::AccOf => {
                // n = [slot, lo, hi]
                if let Built::Items(v) = self.obj(op.a) {
                    let part = &v[op.n[1] as usize..op.n[2] as usize];
                    e = lib(|| Envelope::of(vague(op.n[2] as usize, part.iter())));
                    let lv: Vec<LItem<C>> = part.iter().map(|i| LItem(lin_of(&i.0))).collect();
                    l = lib(|| lp::Envelope::of(vague(op.n[1] as usize, lv.iter())));
                }
            }
            K::AccItem => {
                // n = [slot, item, how]
                if let Built::Items(v) = self.obj(op.a) {
                    let it = v[op.n[1] as usize];
                    let li = LItem(lin_of(&it.0));
                    if op.n[2] == 0 {
                        lib(|| e.expand(it));
                        lib(|| l.expand(li));
                    } else {
                        e = lib(|| e.merge(it));
                        l = lib(|| l.merge(li));
                    }
                }
            }
            K::AccJoin => {
                // n = [slot, from, how]
                let (e2, l2) = get(op.n[1] as usize);
                match op.n[2] {
                    0 => {
                        lib(|| e.expand(e2));
                        lib(|| l.expand(l2));
                    }
                    1 => {
                        e = lib(|| e.merge(e2));
                        l = lib(|| l.merge(l2));
                    }
                    2 => {
                        e = lib(|| e2.merge(e));
                        l = lib(|| l2.merge(l));
                    }
                    _ => {
                        let v = [e2, e];
                        e = lib(|| Envelope::of(v.iter()));
                        let v = [l, l2];
                        l = lib(|| lp::Envelope::of(v.iter()));
                    }
                }
            }
            _ => {
                let x = get(op.n[1] as usize);
                e = x.0;
                l = x.1;
            }
        }
        unsafe { (&mut (*self.slots.get()))[s] = (e, l) }
        wenv(o, &e);
        wlenv(o, &l);
    }
}

fn lin_of<C: SimC>(e: &Envelope<C>) -> lp::Envelope<C> {
    match e {
        Envelope::Empty => lp::Envelope::Empty,
        Envelope::Bounds { min, max } => {
            lp::Envelope::Bounds { min: lp::Position { x: min.x }, max: lp::Position { x: max.x } }
        }
    }
}

fn geo_method<C: SimC>(o: &mut Out, g: &Geometry<C>, m: &str, f: &[f64]) {
    let n = f.first().copied().unwrap_or(0.0) as usize;
    match m {
        "env" => return wenv(o, &lib(|| g.envelope())),
        "empty" => return o.push(lib(|| g.is_empty()) as u64),
        "dim" => return o.push(lib(|| g.dimension()) as u64),
        "type" => return wstr(o, lib(|| g.geometry_type())),
        "simple" => return o.push(lib(|| g.is_simple()) as u64),
        "dump" => return wgeo(o, g),
        "boundary" => {
            let r = lib(|| g.boundary());
            wgeo(o, &r);
            return lib(|| drop(r));
        }
        "validate" => {
            return wres(
                o,
                lib(|| match g {
                    Geometry::Empty(x) => x.validate(),
                    Geometry::Point(x) => x.validate(),
                    Geometry::LineString(x) => x.validate(),
                    Geometry::Polygon(x) => x.validate(),
                    Geometry::MultiPoint(x) => x.validate(),
                    Geometry::MultiLineString(x) => x.validate(),
                    Geometry::MultiPolygon(x) => x.validate(),
                }),
            )
        }
        _ => (),
    }
    match (g, m) {
        (Geometry::Point(p), "xy") => {
            wf(o, lib(|| p.x()).f());
            wf(o, lib(|| p.y()).f());
        }
        (Geometry::LineString(l), _) => match m {
            "closed" => o.push(lib(|| l.is_closed()) as u64),
            "ring" => o.push(lib(|| l.is_ring()) as u64),
            "len" => wf(o, lib(|| l.length()).f()),
            "npts" => o.push(lib(|| l.num_points()) as u64),
            "pt" => wopos(o, lib(|| l.get_point(n)).map(|p| p.0)),
            "start" => wopos(o, lib(|| l.start_point()).map(|p| p.0)),
            "end" => wopos(o, lib(|| l.end_point()).map(|p| p.0)),
            "segs" => {
                let v: Vec<Segment<C>> = lib(|| l.segments_iter().collect());
                o.push(v.len() as u64);
                for s in v.iter() {
                    wpos(o, s.start);
                    wpos(o, s.end);
                }
                lib(|| drop(v));
            }
            "seg" => {
                if n + 1 < l.positions.len() {
                    let s = lib(|| l.get_segment(n));
                    wpos(o, s.start);
                    wpos(o, s.end);
                }
            }
            "rtree" => {
                let r = lib(|| l.build_rtree());
                walk(o, &r);
                lib(|| drop(r));
            }
            "clone" => {
                let c = lib(|| l.clone());
                wline(o, &c);
                lib(|| drop(c));
            }
            "collect" => {
                let c = lib(|| LineString::collect_from(vague(l.num_points(), l.positions.iter().copied())));
                wline(o, &c);
                lib(|| drop(c));
            }
            _ => o.push(NA),
        },
        (Geometry::Polygon(p), _) => match m {
            "hull" => {
                let h = lib(|| p.convex_hull());
                wline(o, &h);
                lib(|| drop(h));
            }
            "centroid" => wpos(o, lib(|| p.centroid()).0),
            "surface" => wopos(o, lib(|| p.point_on_surface()).map(|p| p.0)),
            _ => o.push(NA),
        },
        (Geometry::MultiPoint(p), _) => match m {
            "npts" => o.push(lib(|| p.num_points()) as u64),
            "msimple" => {
                let r = lib(|| p.make_simple());
                wgeo(o, &r);
                lib(|| drop(r));
            }
            "haspt" => {
                let q = Point::new(pos((*f.first().unwrap_or(&0.0), *f.get(1).unwrap_or(&0.0))));
                o.push(lib(|| p.contains_point(&q)) as u64);
            }
            _ => o.push(NA),
        },
        (Geometry::MultiLineString(l), _) => match m {
            "closed" => o.push(lib(|| l.is_closed()) as u64),
            "len" => wf(o, lib(|| l.length()).f()),
            _ => o.push(NA),
        },
        (Geometry::MultiPolygon(p), _) => match m {
            "centroid" => wpos(o, lib(|| p.centroid()).0),
            "surface" => wopos(o, lib(|| p.point_on_surface()).map(|p| p.0)),
            _ => o.push(NA),
        },
        _ => o.push(NA),
    }
}

impl<C: SimC> World for W<C> {
    fn exec(&self, op: &Op, out: &mut Out) {
        let (mut first, mut now) = (None, Out::new());
        for i in 1..op.reps {
            now.clear();
            if i % 2 == 1 && matches!(op.k, K::Query | K::Within) && op.f.len() > 2 {
                let mut o = op.clone();
                o.f[0] += i as f64;
                if op.k == K::Query {
                    o.f[2] += i as f64;
                }
                self.exec_(&o, &mut now);
                continue;
            }
            self.exec_(op, &mut now);
            match &first {
                None => first = Some(now.clone()),
                Some(f) if *f != now => {
                    out.push(0xBAD);
                    out.push(i);
                    out.extend(&now);
                    return;
                }
                _ => (),
            }
        }
        self.exec_(op, out)
    }
    fn dump(&self, out: &mut Out) {
        for b in self.objs.iter() {
            match b {
                Some(Built::Index(i)) => walk(out, i),
                Some(Built::Geo(g)) => wgeo(out, g),
                Some(Built::Items(v)) => v.iter().for_each(|i| wenv(out, &i.0)),
                _ => out.push(3),
            }
        }
    }
    fn queues(&self) -> Vec<Vec<u32>> {
        unsafe { (*self.queues.get()).clone() }
    }
    fn slots(&self, out: &mut Out) {
        for (e, l) in unsafe { (*self.slots.get()).iter() } {
            wenv(out, e);
            wlenv(out, l);
        }
    }
}

// ------------------------------------------------------------- thread-safety
struct Probe<T>(std::marker::PhantomData<T>);
trait Fallback {
    fn shared(&self) -> bool {
        false
    }
}
impl<T> Fallback for &Probe<T> {}
impl<T: Send + Sync> Probe<T> {
    fn shared(&self) -> bool {
        true
    }
}
macro_rules! probes {
    ($($t:ty),*) => { vec![$((stringify!($t), (&Probe::<$t>(std::marker::PhantomData)).shared())),*] }
}
/// Which public types may be shared between threads at all.
pub fn shareable() -> Vec<(&'static str, bool)> {
    probes!(
        Flatbush<f64>,
        Flatbush<f32>,
        FlatbushNode<f64>,
        Geometry<f64>,
        Geometry<f32>,
        Point<f64>,
        LineString<f64>,
        Polygon<f64>,
        MultiPoint<f64>,
        MultiLineString<f64>,
        MultiPolygon<f64>,
        Envelope<f64>,
        Segment<f64>,
        lt::MultiPoint<f64>,
        lt::MultiLine<f64>,
        lt::Line<f64>
    )
}

/// The same iterator, knowing more or less well how long it is, and in the
/// caller's hands whenever it is asked for anything or dropped.
struct Vague<I>(usize, I);
fn vague<I: Iterator>(how: usize, i: I) -> Vague<I> {
    Vague(how % 4, i)
}
impl<I: Iterator> Iterator for Vague<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        callback();
        self.1.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        callback();
        let (a, b) = self.1.size_hint();
        match self.0 {
            0 => (a, b),
            1 => (0, None),
            2 => (0, b),
            _ => (a / 2, b.map(|b| b * 2 + 1)),
        }
    }
}
impl<I> Drop for Vague<I> {
    fn drop(&mut self) {
        callback();
    }
}

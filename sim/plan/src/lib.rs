//! What a simulated run consists of: the objects of the world, the calls, who
//! makes them, and every scheduling decision and fault.  A plan is a complete,
//! textual, replayable description of one execution.
pub mod model;
pub mod text;
pub mod wktref;

pub use simrt::sched::{CbAct, Ev};

pub type P = (f64, f64);

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ct {
    F64,
    F32,
    Sim,
}

#[derive(Clone, Copy, Debug)]
pub enum BoxS {
    Empty,
    B(P, P),
}

pub fn feq(a: f64, b: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan())
}

impl PartialEq for BoxS {
    fn eq(&self, o: &BoxS) -> bool {
        match (self, o) {
            (BoxS::Empty, BoxS::Empty) => true,
            (BoxS::B(a, b), BoxS::B(c, d)) => {
                feq(a.0, c.0) && feq(a.1, c.1) && feq(b.0, d.0) && feq(b.1, d.1)
            }
            _ => false,
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Geo {
    Empty,
    Point(P),
    Line(Vec<P>),
    Poly(Vec<P>, Vec<Vec<P>>),
    MPoint(Vec<P>),
    MLine(Vec<Vec<P>>),
    MPoly(Vec<(Vec<P>, Vec<Vec<P>>)>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Lin {
    Point(f64),
    Line(f64, f64),
    EmptyLine,
    MPoint(Vec<f64>),
    MLine(Vec<(f64, f64)>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Obj {
    /// a slice of boxes
    Items(Vec<BoxS>),
    /// a built index over boxes
    Index { items: Vec<BoxS>, degree: usize, sorted: bool },
    /// an index over geometries (their own bounding boxes)
    GeoIndex { geos: Vec<Geo>, degree: usize, sorted: bool },
    Geo(Geo),
    Lin(Lin),
    Text(Vec<u8>),
    /// items whose boxes change; per item the boxes it goes through
    Moving { boxes: Vec<Vec<BoxS>>, scripted: bool },
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum K {
    // index
    Query, Within, SelfJoin, Cross, IdxEnv, Walk,
    // build from Items a: n=[degree, sorted]; f = queries (4 each)
    Build,
    // bounding boxes
    BoxOf, Expand, Merge, BoxRel, BoxMisc,
    // geometry method n[0] (see GM), f args
    G, Eq,
    // build geometry a, ask it n[0], overwrite its public fields with those of
    // b, ask it n[1]; n[2]: what is edited is a clone
    Edit,
    // linear
    L,
    // primitives
    SegIsect, SegMisc, Tri, Pos,
    // text
    Wkt,
    // moving items
    BuildMove, Move,
    // aggregation slots: n = [slot, ...]
    AccOf, AccItem, AccJoin, AccCopy, AccReset,
    // shard queues: n = [queue, item]
    Push, BuildShard,
    Nop,
}

pub const KNAMES: &[(K, &str)] = &[
    (K::Query, "query"), (K::Within, "within"), (K::SelfJoin, "selfjoin"), (K::Cross, "cross"),
    (K::IdxEnv, "idxenv"), (K::Walk, "walk"), (K::Build, "build"), (K::BoxOf, "boxof"),
    (K::Expand, "expand"), (K::Merge, "merge"), (K::BoxRel, "boxrel"), (K::BoxMisc, "boxmisc"),
    (K::G, "geom"), (K::Eq, "eq"), (K::Edit, "edit"), (K::L, "linear"), (K::SegIsect, "segisect"), (K::SegMisc, "segmisc"),
    (K::Tri, "triangle"), (K::Pos, "position"), (K::Wkt, "wkt"), (K::BuildMove, "buildmove"), (K::Move, "move"),
    (K::AccOf, "accof"), (K::AccItem, "accitem"), (K::AccJoin, "accjoin"), (K::AccCopy, "acccopy"),
    (K::AccReset, "accreset"), (K::Push, "push"), (K::BuildShard, "buildshard"), (K::Nop, "nop"),
];

/// Geometry methods.
pub const GM: &[&str] = &[
    "env", "empty", "dim", "type", "simple", "boundary", "validate", "closed", "ring", "len", "npts", "pt",
    "start", "end", "segs", "seg", "rtree", "hull", "centroid", "surface", "msimple", "haspt", "dump", "clone",
    "collect", "xy", "as",
];

pub fn gm(name: &str) -> usize {
    GM.iter().position(|g| *g == name).expect("method")
}

#[derive(Clone, Debug, PartialEq)]
pub struct Op {
    pub k: K,
    pub a: usize,
    pub b: usize,
    pub n: Vec<u64>,
    pub f: Vec<f64>,
    /// build a private copy of the object first, and drop it afterwards
    pub fresh: bool,
    /// how often in a row; only the last answer counts, the others have to be
    /// the same (index questions: every other time, another box is asked for)
    pub reps: u64,
    /// of the second number type, if the plan has one
    pub alt: bool,
}

impl Op {
    pub fn new(k: K) -> Op {
        Op { k, a: 0, b: 0, n: vec![], f: vec![], fresh: false, reps: 1, alt: false }
    }
    pub fn on(k: K, a: usize) -> Op {
        Op { k, a, b: 0, n: vec![], f: vec![], fresh: false, reps: 1, alt: false }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Env {
    pub hash: u64,
    pub base: u64,
    pub reuse: bool,
    pub fill: u8,
    pub clock: u64,
    /// nanoseconds by which the clock moves on each time it is read
    pub tick: u64,
    /// processors and process number the library is told, if it asks
    pub cpus: u64,
    pub pid: u64,
    /// seed for where in their slots blocks of memory start; 0: at the front
    pub skew: u64,
    /// where the program itself is in memory; 0: where it usually is
    pub img: u64,
    /// seed for the environment variables; 0: there are none
    pub vars: u64,
}

impl Env {
    pub fn plain() -> Env {
        Env { hash: 1, base: 0, reuse: true, fill: 0, clock: 1_000_000_000, tick: 1000, cpus: 4, pid: 100, skew: 0, img: 0, vars: 0 }
    }
}

#[derive(Clone, Debug)]
pub struct Plan {
    pub prop: String,
    pub seed: u64,
    pub ct: Ct,
    /// the same objects once more, of another number type
    pub ct2: Option<Ct>,
    pub env: Env,
    pub objs: Vec<Obj>,
    pub ops: Vec<Op>,
    /// per thread: the sequence of indices into ops
    pub threads: Vec<Vec<usize>>,
    pub start: usize,
    /// how often in a row all this is done, each time by new threads
    pub waves: usize,
    /// each thread makes its last call while it is being torn down
    pub exits: bool,
    /// (thread, call number, step, event)
    pub evs: Vec<(usize, usize, u64, Ev)>,
    /// (thread, call number, callback number, action)
    pub cbs: Vec<(usize, usize, u64, CbAct)>,
    /// what is called again while a call made from a callback is in progress, per
    /// level: (callback number, op)
    pub deep: Vec<(u64, usize)>,
    /// (thread, call number, first allocation, count)
    pub als: Vec<(usize, usize, u64, u64)>,
    /// random switching: (quantum, switches, seed)
    pub quantum: Option<(u64, u64, u64)>,
    pub slots: usize,
    /// calls made one after another once all threads are done
    pub finale: Vec<usize>,
    /// property-specific extra numbers
    pub extra: Vec<u64>,
}

impl Plan {
    pub fn new(prop: &str, seed: u64) -> Plan {
        Plan {
            prop: prop.to_string(),
            seed,
            ct: Ct::F64,
            ct2: None,
            env: Env::plain(),
            objs: vec![],
            ops: vec![],
            threads: vec![],
            start: 0,
            waves: 1,
            exits: false,
            evs: vec![],
            cbs: vec![],
            deep: vec![],
            als: vec![],
            quantum: None,
            slots: 0,
            finale: vec![],
            extra: vec![],
        }
    }
    /// The number type a call works on.
    pub fn ct_of(&self, op: &Op) -> Ct {
        match self.ct2 {
            Some(c) if op.alt => c,
            _ => self.ct,
        }
    }
    pub fn calls(&self) -> usize {
        self.threads.iter().map(|t| t.len()).sum()
    }
}

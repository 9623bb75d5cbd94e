// Included once per collector flavour.  The including module provides:
//   gcm (the collector module), FL (flavour), Store/Guard types, stash access.

pub type G = gcm::Gc<Node>;

/// What an object holds its handles in.
#[derive(Collectable)]
pub enum Bag {
    V(Vec<Option<G>>),
    A([Option<G>; 4]),
    B(Box<[Option<G>]>),
    D(VecDeque<Option<G>>),
    L(LinkedList<Option<G>>),
    HM(HashMap<u8, G>),
    BM(BTreeMap<u8, G>),
    T((Option<G>, u8, Option<G>, Option<G>, Option<G>)),
    N { first: Option<G>, pad: u32, second: Option<Box<G>>, rest: Pair },
    R(Vec<Result<G, u8>>),
    HS(HashSet<Keyed>),
    BS(BTreeSet<Keyed>),
    BH(BinaryHeap<Keyed>),
    C(Cow<'static, Row>),
    E(Vec<Shape>),
    HK(HashMap<Keyed, u8>),
    BK(BTreeMap<Keyed, Vec<u8>>),
    RE(Vec<Result<u8, G>>),
    O(Box<[Once; 4]>),
    I(Vec<Inner>),
    T1(Box<((Option<G>,), (u8, Option<G>), (u8, bool, Option<G>), (u8, u16, u32, Option<G>))>),
    T2(Box<((u8, (), i8, char, f32, Option<G>), (u8, u8, Option<G>, u8, u8, u8, Option<G>), (u8, u8, u8, u8, u8, u8, u8, Option<G>))>),
    T3(Box<((Option<G>, u8, u8, u8, u8, u8, u8, u8, Option<G>), (u8, u8, u8, u8, Option<G>, u8, u8, u8, u8, Option<G>))>),
    P(Box<Gen<Option<G>, (u8, Option<G>)>>, Wrap<Vec<Option<G>>, 2>),
    Q { list: Vec<GenE<G>> },
    HB(HashMap<u8, G, std::hash::BuildHasherDefault<std::collections::hash_map::DefaultHasher>>),
    HH(HashMap<u8, G, Salted>),
    VV(Vec<Vec<Option<Option<Box<G>>>>>),
    Empty,
}
/// Generic types.
#[derive(Collectable)]
pub struct Gen<T, U> { a: T, n: u64, b: U }
#[derive(Collectable)]
pub struct Wrap<T, const N: usize>(u8, T) where T: Default;
#[derive(Collectable)]
pub enum GenE<T> { Nothing, Just(T), Named { n: u8, t: T }, Deep(Box<GenE<T>>) }
impl<T> GenE<T> {
    fn of(k: u8, t: T) -> GenE<T> {
        match k % 3 { 0 => GenE::Just(t), 1 => GenE::Named { n: k, t }, _ => GenE::Deep(Box::new(GenE::of(k / 3, t))) }
    }
    fn get(&self) -> Option<&T> {
        match self { GenE::Nothing => None, GenE::Just(t) | GenE::Named { t, .. } => Some(t), GenE::Deep(b) => b.get() }
    }
    fn into(self) -> Option<T> {
        match self { GenE::Nothing => None, GenE::Just(t) | GenE::Named { t, .. } => Some(t), GenE::Deep(b) => (*b).into() }
    }
}
/// A hasher that owns a handle.
#[derive(Collectable)]
pub struct Salted(Option<G>);
impl std::hash::BuildHasher for Salted {
    type Hasher = std::collections::hash_map::DefaultHasher;
    fn build_hasher(&self) -> Self::Hasher { Default::default() }
}
#[derive(Collectable, Clone)]
pub struct Row(Vec<Keyed>);
#[derive(Collectable)]
pub struct Pair(Option<G>, Option<(G, String)>);

/// An element with a key; the handle lives beside it.
#[derive(Collectable, Clone)]
pub struct Keyed {
    k: u8,
    g: G,
}
impl PartialEq for Keyed { fn eq(&self, o: &Keyed) -> bool { self.k == o.k } }
impl Eq for Keyed {}
impl std::hash::Hash for Keyed { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { self.k.hash(h) } }
impl PartialOrd for Keyed { fn partial_cmp(&self, o: &Keyed) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
impl Ord for Keyed { fn cmp(&self, o: &Keyed) -> std::cmp::Ordering { self.k.cmp(&o.k) } }
/// The map without the entry whose key is `k`, and that entry's handle.
fn unkey<M: FromIterator<(Keyed, V)> + IntoIterator<Item = (Keyed, V)> + Default, V>(m: &mut M, k: u8) -> Option<G> {
    let mut out = None;
    let mut rest = Vec::new();
    for (x, v) in std::mem::take(m) {
        if x.k == k { out = Some(x.g) } else { rest.push((x, v)) }
    }
    *m = rest.into_iter().collect();
    out
}

/// Every shape of variant the derive macro distinguishes.
#[derive(Collectable)]
pub enum Shape {
    Unit,
    One(G),
    Two(u8, G),
    Named { g: G },
    Named3 { a: u8, b: Option<String>, g: G },
    Tup((u8, (G, u8))),
    Nested(Box<Shape>),
}
impl Shape {
    fn of(k: u8, g: G) -> Shape {
        match k & 7 {
            0 => Shape::One(g),
            1 => Shape::Two(1, g),
            2 => Shape::Named { g },
            3 => Shape::Named3 { a: 1, b: Some("x".into()), g },
            4 => Shape::Tup((3, (g, 4))),
            _ => Shape::Nested(Box::new(Shape::of(k & 3, g))),
        }
    }
    fn get(&self) -> Option<&G> {
        match self {
            Shape::Unit => None,
            Shape::One(g) | Shape::Two(_, g) | Shape::Named { g } | Shape::Named3 { g, .. } => Some(g),
            Shape::Tup((_, (g, _))) => Some(g),
            Shape::Nested(b) => b.get(),
        }
    }
    fn into(self) -> Option<G> {
        match self {
            Shape::Unit => None,
            Shape::One(g) | Shape::Two(_, g) | Shape::Named { g } | Shape::Named3 { g, .. } => Some(g),
            Shape::Tup((_, (g, _))) => Some(g),
            Shape::Nested(b) => (*b).into(),
        }
    }
}

pub const SLOT: usize = 4;

/// The place of slot `i` of the containers that have a fixed place for it.
macro_rules! place {
    ($self:expr, $i:expr, $as:ident, $($m:tt)?) => {
        match $self {
            Bag::V(v) => &$($m)? v[$i],
            Bag::A(v) => &$($m)? v[$i],
            Bag::B(v) => &$($m)? v[$i],
            Bag::D(v) => &$($m)? v[$i],
            Bag::T(t) => match $i { 0 => &$($m)? t.0, 1 => &$($m)? t.2, 2 => &$($m)? t.3, _ => &$($m)? t.4 },
            Bag::T1(t) => match $i { 0 => &$($m)? t.0.0, 1 => &$($m)? t.1.1, 2 => &$($m)? t.2.2, _ => &$($m)? t.3.3 },
            Bag::T2(t) => match $i { 0 => &$($m)? t.0.5, 1 => &$($m)? t.1.2, 2 => &$($m)? t.1.6, _ => &$($m)? t.2.7 },
            Bag::T3(t) => match $i { 0 => &$($m)? t.0.0, 1 => &$($m)? t.0.8, 2 => &$($m)? t.1.4, _ => &$($m)? t.1.9 },
            Bag::P(g, w) => match $i { 0 => &$($m)? g.a, 1 => &$($m)? g.b.1, 2 => &$($m)? w.1[0], _ => &$($m)? w.1[1] },
            _ => unreachable!(),
        }
    };
}

impl Bag {
    fn new(kind: u8) -> Bag {
        let n4 = || vec![None, None, None, None];
        match kind {
            0 => Bag::V(n4()),
            1 => Bag::A([None, None, None, None]),
            2 => Bag::B(n4().into_boxed_slice()),
            3 => Bag::D(n4().into()),
            4 => Bag::L(n4().into_iter().collect()),
            5 => Bag::HM(HashMap::new()),
            6 => Bag::BM(BTreeMap::new()),
            7 => Bag::T((None, 7, None, None, None)),
            8 => Bag::N { first: None, pad: 9, second: None, rest: Pair(None, None) },
            9 => Bag::R(vec![Err(0), Err(1), Err(2), Err(3)]),
            10 => Bag::HS(HashSet::new()),
            11 => Bag::BS(BTreeSet::new()),
            12 => Bag::BH(BinaryHeap::new()),
            13 => Bag::C(Cow::Owned(Row(Vec::new()))),
            14 => Bag::E(vec![Shape::Unit, Shape::Unit, Shape::Unit, Shape::Unit]),
            15 => {
                // the contents wrap around the end of the buffer
                let mut d: VecDeque<Option<G>> = n4().into();
                for _ in 0..2 {
                    d.pop_front();
                    d.push_back(None);
                }
                Bag::D(d)
            }
            16 => Bag::HK(HashMap::new()),
            17 => Bag::BK(BTreeMap::new()),
            18 => Bag::RE(vec![Ok(0), Ok(1), Ok(2), Ok(3)]),
            19 => Bag::O(Box::new([const { Once::NEW }; 4])),
            20 => Bag::I((0..4).map(|i| Inner::new(i)).collect()),
            21 => Bag::T1(Default::default()),
            22 => Bag::T2(Default::default()),
            23 => Bag::T3(Default::default()),
            24 => Bag::P(Box::new(Gen { a: None, n: 1, b: (2, None) }), Wrap(3, vec![None, None])),
            25 => Bag::Q { list: (0..4).map(|_| GenE::Nothing).collect() },
            26 => Bag::HB(HashMap::default()),
            27 => Bag::HH(HashMap::with_hasher(Salted(None))),
            28 => Bag::VV(vec![vec![None], vec![], vec![None, Some(None), None]]),
            _ => Bag::Empty,
        }
    }
    fn get(&self, i: usize) -> Option<&G> {
        let k = i as u8;
        match self {
            Bag::L(v) => v.iter().nth(i).unwrap().as_ref(),
            Bag::HM(m) => m.get(&k),
            Bag::BM(m) => m.get(&k),
            Bag::HB(m) => m.get(&k),
            Bag::HH(m) => if i == 3 { m.hasher().0.as_ref() } else { m.get(&k) },
            Bag::N { first, second, rest, .. } => match i { 0 => first.as_ref(), 1 => second.as_deref(), 2 => rest.0.as_ref(), _ => rest.1.as_ref().map(|x| &x.0) },
            Bag::R(v) => v[i].as_ref().ok(),
            Bag::RE(v) => v[i].as_ref().err(),
            Bag::HS(s) => s.iter().find(|x| x.k == k).map(|x| &x.g),
            Bag::BS(s) => s.iter().find(|x| x.k == k).map(|x| &x.g),
            Bag::BH(s) => s.iter().find(|x| x.k == k).map(|x| &x.g),
            Bag::HK(s) => s.keys().find(|x| x.k == k).map(|x| &x.g),
            Bag::BK(s) => s.keys().find(|x| x.k == k).map(|x| &x.g),
            Bag::C(c) => c.0.iter().find(|x| x.k == k).map(|x| &x.g),
            Bag::E(v) => v[i].get(),
            Bag::Q { list } => list[i].get(),
            Bag::O(v) => v[i].get(),
            Bag::I(v) => v[i].get(),
            Bag::VV(v) => vv(v, i).as_ref().and_then(|x| x.as_deref()),
            Bag::Empty => None,
            _ => place!(self, i, as_ref,).as_ref(),
        }
    }
    fn take(&mut self, i: usize) -> Option<G> {
        let k = i as u8;
        match self {
            Bag::L(v) => v.iter_mut().nth(i).unwrap().take(),
            Bag::HM(m) => m.remove(&k),
            Bag::BM(m) => m.remove(&k),
            Bag::HB(m) => m.remove(&k),
            Bag::HH(m) => if i == 3 { salt(m, None) } else { m.remove(&k) },
            Bag::N { first, second, rest, .. } => match i { 0 => first.take(), 1 => second.take().map(|b| *b), 2 => rest.0.take(), _ => rest.1.take().map(|x| x.0) },
            Bag::R(v) => std::mem::replace(&mut v[i], Err(9)).ok(),
            Bag::RE(v) => std::mem::replace(&mut v[i], Ok(9)).err(),
            Bag::HS(s) => { let key = s.iter().find(|x| x.k == k).map(|x| x as *const Keyed); key.and_then(|p| s.take(unsafe { &*p })).map(|x| x.g) }
            Bag::BS(s) => { let key = s.iter().find(|x| x.k == k).map(|x| x as *const Keyed); key.and_then(|p| s.take(unsafe { &*p })).map(|x| x.g) }
            Bag::BH(s) => {
                let mut v = std::mem::take(s).into_vec();
                let r = v.iter().position(|x| x.k == k).map(|p| v.swap_remove(p).g);
                *s = v.into();
                r
            }
            Bag::HK(s) => unkey(s, k),
            Bag::BK(s) => unkey(s, k),
            Bag::C(c) => {
                let v = match c { Cow::Owned(v) => &mut v.0, _ => unreachable!() };
                v.iter().position(|x| x.k == k).map(|p| v.swap_remove(p).g)
            }
            Bag::E(v) => std::mem::replace(&mut v[i], Shape::Unit).into(),
            Bag::Q { list } => std::mem::replace(&mut list[i], GenE::Nothing).into(),
            Bag::O(v) => v[i].take(),
            Bag::I(v) => v[i].take(),
            Bag::VV(v) => vv_mut(v, i).take().flatten().map(|b| *b),
            Bag::Empty => None,
            _ => place!(self, i, as_mut, mut).take(),
        }
    }
    /// The slot must be empty.  Gives the handle back if this bag holds none.
    fn put(&mut self, i: usize, g: G) -> Option<G> {
        let k = i as u8;
        match self {
            Bag::L(v) => *v.iter_mut().nth(i).unwrap() = Some(g),
            Bag::HM(m) => { m.insert(k, g); }
            Bag::BM(m) => { m.insert(k, g); }
            Bag::HB(m) => { m.insert(k, g); }
            Bag::HH(m) => if i == 3 { salt(m, Some(g)); } else { m.insert(k, g); },
            Bag::N { first, second, rest, .. } => match i { 0 => *first = Some(g), 1 => *second = Some(Box::new(g)), 2 => rest.0 = Some(g), _ => rest.1 = Some((g, "s".into())) },
            Bag::R(v) => v[i] = Ok(g),
            Bag::RE(v) => v[i] = Err(g),
            Bag::HS(s) => { s.insert(Keyed { k, g }); }
            Bag::BS(s) => { s.insert(Keyed { k, g }); }
            Bag::BH(s) => s.push(Keyed { k, g }),
            Bag::HK(s) => { s.insert(Keyed { k, g }, k); }
            Bag::BK(s) => { s.insert(Keyed { k, g }, vec![k]); }
            Bag::C(c) => match c { Cow::Owned(v) => v.0.push(Keyed { k, g }), _ => unreachable!() },
            Bag::E(v) => v[i] = Shape::of(k ^ (v.len() as u8), g),
            Bag::Q { list } => list[i] = GenE::of(k, g),
            Bag::O(v) => v[i].put(g),
            Bag::I(v) => v[i].put(g),
            Bag::VV(v) => *vv_mut(v, i) = Some(Some(Box::new(g))),
            Bag::Empty => return Some(g),
            _ => *place!(self, i, as_mut, mut) = Some(g),
        }
        None
    }
}
type VV = Vec<Vec<Option<Option<Box<G>>>>>;
fn vv(v: &VV, i: usize) -> &Option<Option<Box<G>>> { if i == 0 { &v[0][0] } else { &v[2][i - 1] } }
fn vv_mut(v: &mut VV, i: usize) -> &mut Option<Option<Box<G>>> { if i == 0 { &mut v[0][0] } else { &mut v[2][i - 1] } }
/// Exchange the handle in the map's hasher.
fn salt(m: &mut HashMap<u8, G, Salted>, g: Option<G>) -> Option<G> {
    let old = std::mem::replace(m, HashMap::with_hasher(Salted(None)));
    let mut new = HashMap::with_hasher(Salted(g));
    let was = old.hasher().0.as_ref().map(|g| unsafe { std::ptr::read(g) });
    let mut old = std::mem::ManuallyDrop::new(old);
    for (k, v) in old.drain() {
        new.insert(k, v);
    }
    // only the hasher, whose handle was taken, and an empty table are left
    *m = new;
    was
}

pub trait Fx {
    fn fx(&self, i: usize) -> Option<&G>;
}
/// A managed object.  The tail holds the immutable handles and is dropped last.
pub struct NodeT<P: ?Sized + Fx> {
    pub h: Head,
    pub tail: P,
}
pub type Node = NodeT<Dst>;
pub struct Head {
    pub id: u32,
    pub script: u8,
    pub script2: u8,
    pub val: AtomicU64,
    pub canary: u64,
    pub store: Store,
    pub side: Side,
    pub foreign: Foreign,
}
impl<P: ?Sized + Fx> Deref for NodeT<P> {
    type Target = Head;
    fn deref(&self) -> &Head { &self.h }
}
impl<P: ?Sized + Fx> NodeT<P> {
    fn at(&self) -> usize { self as *const NodeT<P> as *const u8 as usize }
}
/// The last thing of an object to go.
#[derive(Collectable)]
pub struct Mark(u32);
impl Drop for Mark {
    fn drop(&mut self) { model::on_gone(self.0) }
}

unsafe impl<P: Collectable + ?Sized + Fx> Collectable for NodeT<P> {
    fn accept<V: Visitor>(&self, v: &mut V) -> Result<(), ()> {
        oracle::on_accept(FL, self.id, self.canary);
        if self.id % 2 == 0 {
            self.side.accept(v)?;
            rt::trace_gap();
        }
        self.store.accept(v)?;
        rt::trace_gap();
        if self.id % 2 != 0 {
            self.side.accept(v)?;
            rt::trace_gap();
        }
        self.tail.accept(v)?;
        self.foreign.accept(v)
    }
}
/// Not even reflexive: values decide about equality, not identity.
fn alike(x: u32, y: u32) -> bool { x % 3 == y % 3 && x % 5 != 0 && y % 5 != 0 }
impl<P: ?Sized + Fx> PartialEq for NodeT<P> {
    fn eq(&self, o: &NodeT<P>) -> bool { alike(self.id, o.id) }
}

impl<P: ?Sized + Fx> Drop for NodeT<P> {
    fn drop(&mut self) {
        model::on_drop(self.id, self.canary);
        let d = oracle::Dying::enter(FL, self.id);
        oracle::dtor_fault();
        if self.script != 0 || self.script2 != 0 {
            let (a, b) = (self.script, self.script2);
            self.run_script(a);
            self.run_script(b);
        }
        self.h.canary = 0xDEAD;
        let n = (0..8).filter(|&i| i != 6 && model::edge(self.id, i) != 0).count() as i64;
        oracle::fields_dropped(FL, n);
        let f = self.h.foreign.dropping(self.h.id);
        if f > 0 {
            oracle::fields_dropped(0, f);
        }
        drop(d);
    }
}

/// A handle owned outside managed objects.
pub struct H {
    pub gc: ManuallyDrop<G>,
    pub id: u32,
    pub dead: bool,
}
impl H {
    pub fn new(g: G, id: u32) -> H {
        model::root_inc(id);
        H { gc: ManuallyDrop::new(g), id, dead: false }
    }
    pub fn dead(g: G, id: u32) -> H {
        H { gc: ManuallyDrop::new(g), id, dead: true }
    }
    /// A handle that was just taken out of an object; `id` 0 means dead.
    pub fn from_slot(g: G, id: u32) -> H {
        if id == 0 { H::dead(g, 0) } else { H::new(g, id) }
    }
    pub fn into_gc(mut self) -> G {
        if !self.dead {
            model::root_dec(self.id);
        }
        let g = unsafe { ManuallyDrop::take(&mut self.gc) };
        std::mem::forget(self);
        g
    }
    pub fn dup(&self) -> H {
        let g = G::clone(&self.gc);
        H::new(g, self.id)
    }
    pub fn node(&self) -> &Node {
        let n: &Node = &self.gc;
        n
    }
    /// Dereference and verify.
    pub fn check(&self) -> &Node {
        let n = self.node();
        check_node(n, self.id);
        n
    }
}
impl Drop for H {
    fn drop(&mut self) {
        let g = unsafe { ManuallyDrop::take(&mut self.gc) };
        if self.dead {
            drop(g);
            return;
        }
        struct End(bool);
        impl Drop for End {
            fn drop(&mut self) { oracle::drop_end(FL, self.0); }
        }
        oracle::drop_begin(FL);
        let mut e = End(false);
        model::root_dec(self.id);
        drop(g);
        e.0 = true;
        oracle::check_prompt(FL, self.id);
    }
}
/// An unconverted handle.
pub struct RawH {
    gc: ManuallyDrop<RawG>,
    id: u32,
}
impl Drop for RawH {
    fn drop(&mut self) {
        let g = unsafe { ManuallyDrop::take(&mut self.gc) };
        struct End(bool);
        impl Drop for End {
            fn drop(&mut self) { oracle::drop_end(FL, self.0); }
        }
        oracle::drop_begin(FL);
        let mut e = End(false);
        model::root_dec(self.id);
        drop(g);
        e.0 = true;
        oracle::check_prompt(FL, self.id);
    }
}
pub fn check_node(n: &Node, id: u32) {
    model::check_deref(id, n.id, n.canary, n.at());
}

fn mk(bag: u8, script: u8, script2: u8, lock: u8, fixed: [Option<H>; 2]) -> H {
    mk_raw(bag, script, script2, lock, fixed, false).0
}
/// Also a second handle, as it was before any conversion.
fn mk_raw(bag: u8, script: u8, script2: u8, lock: u8, fixed: [Option<H>; 2], want: bool) -> (H, Option<RawG>) {
    let mut raw = None;
    let id = model::new_node(FL);
    let [f0, f1] = fixed;
    let (i0, i1) = (f0.as_ref().map_or(0, |h| h.id), f1.as_ref().map_or(0, |h| h.id));
    let store = if bag == LEAF { Store::Leaf } else { Store::new(lock, Bag::new(bag % NBAG)) };
    let f0 = f0.map(|h| h.into_gc());
    let f1 = f1.map(|h| h.into_gc());
    model::edge_set(id, 4, i0);
    model::edge_set(id, 5, i1);
    // until the handle exists the new object is held by this frame
    model::root_inc(id);
    let h = Head { id, script, script2, val: AtomicU64::new(0), canary: model::canary(id), store, side: Side::new(id / 2), foreign: Foreign::new() };
    let g = build(h, bag ^ lock ^ script, [f0, f1], Mark(id), &mut raw, want);
    model::set_addr(id, unsafe_peek(&g).at());
    (H { gc: ManuallyDrop::new(g), id, dead: false }, raw)
}
fn unsafe_peek(g: &G) -> &Node {
    unsafe { &*G::as_ptr(g) }
}

/// Take the handle out of slot `i` of a locked bag.
fn slot_take(owner: u32, b: &mut Bag, i: usize) -> Option<H> {
    let g = b.take(i)?;
    let id = model::edge(owner, i);
    model::edge_set(owner, i, 0);
    Some(H::from_slot(g, id))
}
/// Put a handle into slot `i`; the previous content is returned.
fn slot_put(owner: u32, b: &mut Bag, i: usize, h: H) -> Option<H> {
    let old = slot_take(owner, b, i);
    let (id, dead) = (h.id, h.dead);
    let g = h.into_gc();
    if let Some(g) = b.put(i, g) {
        return Some(if dead { H::dead(g, 0) } else { H::new(g, id) });
    }
    model::edge_set(owner, i, if dead { 0 } else { id });
    old
}
/// Clone slot `i`.
fn slot_get(owner: u32, b: &Bag, i: usize) -> Option<H> {
    let g = b.get(i)?;
    let id = model::edge(owner, i);
    if id == 0 {
        if G::try_clone(g).is_some() || G::try_deref(g).is_some() {
            rt::violation("dead-handle-revived", "a handle reported dead before is alive again");
        }
        return None;
    }
    let c = G::clone(g);
    Some(H::new(c, id))
}

/// Put a handle behind the other lock; what was there, or the handle itself, is returned.
fn side_put(owner: u32, n: &Node, h: H, block: bool) -> Option<H> {
    let mut h = Some(h);
    let old = n.side.with(block, |s| {
        let was = model::edge(owner, 7);
        let old = s.take().map(|g| H::from_slot(g, was));
        let h = h.take().unwrap();
        let to = if h.dead { 0 } else { h.id };
        *s = Some(h.into_gc());
        model::edge_set(owner, 7, to);
        old
    });
    old.unwrap_or_else(|| h.take())
}
fn side_take(owner: u32, n: &Node, block: bool) -> Option<H> {
    n.side.with(block, |s| {
        let was = model::edge(owner, 7);
        model::edge_set(owner, 7, 0);
        s.take().map(|g| H::from_slot(g, was))
    }).flatten()
}

pub const NREG: usize = 6;
pub const NSTASH: usize = 4;
pub struct Ctx {
    pub regs: [Option<H>; NREG],
    held: Option<(usize, u32, Guard<'static>)>,
    pin: Option<(usize, u32, &'static Node)>,
    raws: Vec<RawH>,
}

impl Ctx {
    pub fn new() -> Ctx {
        Ctx { regs: [const { None }; NREG], held: None, pin: None, raws: Vec::new() }
    }
    pub fn fixed_reg(&self, r: usize) -> bool {
        self.held.as_ref().is_some_and(|h| h.0 == r) || self.pin.as_ref().is_some_and(|p| p.0 == r)
    }
    fn may_block(&self) -> bool {
        self.held.is_none()
    }
    fn may_wait(&self, id: u32) -> bool {
        self.held.is_none() && !model::jammed(id)
    }
    pub fn set(&mut self, r: usize, h: Option<H>) {
        if h.is_some() {
            let old = std::mem::replace(&mut self.regs[r], h);
            drop(old);
        }
    }
    pub fn live(&self, r: usize) -> Option<&H> {
        self.regs[r].as_ref().filter(|h| !h.dead)
    }
    fn lock_of(&self, r: usize) -> Option<(u32, Guard<'static>)> {
        let h = self.live(r)?;
        let n: &Node = h.check();
        let g = n.store.lock(self.may_wait(h.id))?;
        // the register is not touched while the guard exists
        Some((h.id, unsafe { std::mem::transmute::<Guard<'_>, Guard<'static>>(g) }))
    }
    fn read_of(&self, r: usize) -> Option<(u32, RGuard<'static>)> {
        let h = self.live(r)?;
        let n: &Node = h.check();
        let g = n.store.read(self.may_wait(h.id))?;
        Some((h.id, unsafe { std::mem::transmute::<RGuard<'_>, RGuard<'static>>(g) }))
    }

    /// One step of a program.
    pub fn step(&mut self, o: &Op, other: &mut OtherCtx) {
        let [a, b, c, d, e] = o.a;
        let r = |x: u8| x as usize % NREG;
        let s = |x: u8| x as usize % SLOT;
        match ALL[(o.code & 63) as usize] {
            Oc::New => {
                if self.fixed_reg(r(a)) { return; }
                let f0 = if d & 1 != 0 { self.live(r(e)).map(|h| h.dup()) } else { None };
                let f1 = if d & 2 != 0 { self.live(r(e.wrapping_add(1))).map(|h| h.dup()) } else { None };
                let h = mk(b & 63, c, if d & 8 != 0 { d >> 4 } else { 0 }, b >> 6, [f0, f1]);
                self.set(r(a), Some(h));
            }
            Oc::NewCycle => {
                // a chain of length b+1 closed on itself, abandoned at once or kept in register d
                let n = (b as usize % 4) + 1;
                let mut hs: Vec<H> = Vec::new();
                for i in 0..n {
                    let h = mk(if a & 63 == LEAF { 0 } else { a & 63 }, if i == 0 { c } else { 0 }, 0, a >> 6, [None, None]);
                    hs.push(h);
                }
                for i in 0..n {
                    let to = hs[(i + 1) % n].dup();
                    let h = &hs[i];
                    let nd = h.check();
                    if let Some(mut g) = nd.store.lock(self.may_block()) {
                        let old = slot_put(h.id, &mut g, s(d.wrapping_add(i as u8)), to);
                        drop(g);
                        drop(old);
                    }
                }
                if e & 1 != 0 && !self.fixed_reg(r(d)) {
                    let h = hs.pop();
                    self.set(r(d), h);
                }
            }
            Oc::Clone => {
                if self.fixed_reg(r(a)) || r(a) == r(b) { return; }
                let h = self.live(r(b)).map(|h| h.dup());
                self.set(r(a), h);
            }
            Oc::Drop => {
                if self.fixed_reg(r(a)) { return; }
                let h = self.regs[r(a)].take();
                drop(h);
            }
            Oc::Move => {
                if self.fixed_reg(r(a)) || self.fixed_reg(r(b)) || r(a) == r(b) { return; }
                let h = self.regs[r(b)].take();
                self.set(r(a), h);
            }
            Oc::PutMove | Oc::PutClone => {
                let mv = o.code & 63 == Oc::PutMove as u8;
                if mv && (self.fixed_reg(r(c)) || r(a) == r(c)) { return; }
                if self.live(r(c)).is_none() { return; }
                let Some((id, mut g)) = self.lock_of(r(a)) else { return };
                let h = if mv { self.regs[r(c)].take().unwrap() } else { self.live(r(c)).unwrap().dup() };
                let old = slot_put(id, &mut g, s(b), h);
                if d & 1 != 0 {
                    drop(old); // while the lock is held
                    drop(g);
                } else {
                    drop(g);
                    drop(old);
                }
            }
            Oc::Take => {
                if self.fixed_reg(r(c)) || r(a) == r(c) { return; }
                let Some((id, mut g)) = self.lock_of(r(a)) else { return };
                let h = slot_take(id, &mut g, s(b));
                drop(g);
                self.set(r(c), h);
            }
            Oc::Get => {
                if self.fixed_reg(r(c)) || r(a) == r(c) { return; }
                let h = if d & 1 != 0 {
                    let Some((id, g)) = self.lock_of(r(a)) else { return };
                    slot_get(id, &g, s(b))
                } else {
                    let Some((id, g)) = self.read_of(r(a)) else { return };
                    slot_get(id, &g, s(b))
                };
                self.set(r(c), h);
            }
            Oc::ClearSlot => {
                let Some((id, mut g)) = self.lock_of(r(a)) else { return };
                let h = slot_take(id, &mut g, s(b));
                if c & 1 != 0 {
                    drop(h);
                    drop(g);
                } else {
                    drop(g);
                    drop(h);
                }
            }
            Oc::SwapSlots => {
                let Some((id1, mut g1)) = self.lock_of(r(a)) else { return };
                let Some(h2) = self.live(r(c)) else { return };
                let id2 = h2.id;
                if id1 == id2 { return; }
                let Some(mut g2) = h2.check().store.lock(false) else { return };
                let x = slot_take(id1, &mut g1, s(b));
                let y = slot_take(id2, &mut g2, s(d));
                let mut rest = Vec::new();
                if let Some(y) = y { rest.push(slot_put(id1, &mut g1, s(b), y)); }
                if let Some(x) = x { rest.push(slot_put(id2, &mut g2, s(d), x)); }
                drop(g1);
                drop(g2);
                drop(rest);
            }
            Oc::Walk | Oc::WalkTake => {
                // follow two edges in place, holding the locks on the way
                if self.fixed_reg(r(d)) || r(a) == r(d) { return; }
                let take = o.code & 63 == Oc::WalkTake as u8;
                let mut out = None;
                {
                    let Some((id1, g1)) = self.read_of(r(a)) else { return };
                    let id2 = model::edge(id1, s(b));
                    if let Some(gc2) = g1.get(s(b)) {
                        if id2 != 0 && id2 != id1 {
                            let n2: &Node = gc2;
                            check_node(n2, id2);
                            if take {
                                if let Some(mut g2) = n2.store.lock(false) {
                                    out = slot_take(id2, &mut g2, s(c));
                                    drop(g2);
                                }
                            } else if let Some(g2) = n2.store.read(false) {
                                out = slot_get(id2, &g2, s(c));
                                drop(g2);
                            }
                        }
                    }
                    drop(g1);
                }
                self.set(r(d), out);
            }
            Oc::Deref => {
                if let Some(h) = self.live(r(a)) {
                    h.check();
                    if b & 1 != 0 {
                        for f in 0..2 {
                            let id = model::edge(h.id, 4 + f);
                            if let (Some(g), true) = (h.node().tail.fx(f), id != 0) {
                                let n: &Node = g;
                                check_node(n, id);
                            }
                        }
                    }
                }
                if let Some(h) = self.regs[r(a)].as_ref().filter(|h| h.dead) {
                    if G::try_deref(&h.gc).is_some() || G::try_clone(&h.gc).is_some() {
                        rt::violation("dead-handle-revived", "a handle reported dead before is alive again");
                    }
                }
            }
            Oc::StashPut => {
                if self.fixed_reg(r(b)) || self.regs[r(b)].is_none() { return; }
                let Some(mut g) = stash_write(a, self.may_block()) else { return };
                let h = self.regs[r(b)].take();
                let old = std::mem::replace(&mut *g, h);
                if c & 1 != 0 { drop(old); drop(g); } else { drop(g); drop(old); }
            }
            Oc::StashTake => {
                if self.fixed_reg(r(b)) { return; }
                let Some(mut g) = stash_write(a, self.may_block()) else { return };
                let h = g.take();
                drop(g);
                self.set(r(b), h);
            }
            Oc::StashGet => {
                if self.fixed_reg(r(b)) { return; }
                let Some(g) = stash_read(a, self.may_block()) else { return };
                let h = g.as_ref().filter(|h| !h.dead).map(|h| h.dup());
                drop(g);
                self.set(r(b), h);
            }
            Oc::StashDeref => {
                let Some(g) = stash_read(a, self.may_block()) else { return };
                if let Some(h) = g.as_ref().filter(|h| !h.dead) {
                    h.check();
                }
                drop(g);
            }
            Oc::StashDrop => {
                let Some(mut g) = stash_write(a, self.may_block()) else { return };
                let h = g.take();
                if b & 1 != 0 { drop(h); drop(g); } else { drop(g); drop(h); }
            }
            Oc::Hold => {
                if self.held.is_some() { return; }
                if let Some((id, g)) = self.lock_of(r(a)) {
                    oracle::held(1);
                    self.held = Some((r(a), id, g));
                }
            }
            Oc::HoldPut => {
                if self.fixed_reg(r(b)) || self.live(r(b)).is_none() { return; }
                let Some((hr, id, _)) = self.held.as_ref() else { return };
                let (hr, id) = (*hr, *id);
                if hr == r(b) { return; }
                let h = self.regs[r(b)].take().unwrap();
                let old = slot_put(id, &mut self.held.as_mut().unwrap().2, s(a), h);
                drop(old);
            }
            Oc::HoldTake => {
                if self.fixed_reg(r(b)) { return; }
                let Some((_, id, g)) = self.held.as_mut() else { return };
                let h = slot_take(*id, g, s(a));
                self.set(r(b), h);
            }
            Oc::Release => self.release(),
            Oc::Pin => {
                if self.pin.is_some() || self.live(r(a)).is_none() { return; }
                let h = self.live(r(a)).unwrap();
                let n: &'static Node = unsafe { &*(h.check() as *const Node) };
                let fid = model::edge(h.id, 4);
                if b & 1 != 0 && fid != 0 {
                    // a reference obtained through an immutable handle inside the object
                    let m: &'static Node = n.tail.fx(0).unwrap();
                    check_node(m, fid);
                    self.pin = Some((r(a), fid, m));
                } else {
                    self.pin = Some((r(a), h.id, n));
                }
            }
            Oc::PinTake => {
                if self.fixed_reg(r(b)) { return; }
                let Some((_, id, n)) = self.pin else { return };
                if !model::is_live(id) { rt::violation("destroyed-reachable", "object destroyed while a reference to it was held"); }
                let h = if c & 1 == 0 {
                    let Some(mut g) = n.store.lock(self.may_wait(id)) else { return };
                    let h = slot_take(id, &mut g, s(a));
                    drop(g);
                    h
                } else {
                    side_take(id, n, self.may_block())
                };
                self.set(r(b), h);
            }
            Oc::PinPut => {
                if self.fixed_reg(r(b)) || self.live(r(b)).is_none() { return; }
                let Some((_, id, n)) = self.pin else { return };
                let Some(mut g) = n.store.lock(self.may_wait(id)) else { return };
                let h = self.regs[r(b)].take().unwrap();
                let old = slot_put(id, &mut g, s(a), h);
                drop(g);
                drop(old);
            }
            Oc::PinDup => {
                let Some((_, id, n)) = self.pin else { return };
                let Some(h) = self.live(r(b)).map(|h| h.dup()) else { return };
                if c & 1 == 0 {
                    let Some(mut g) = n.store.lock(self.may_wait(id)) else { return };
                    let old = slot_put(id, &mut g, s(a), h);
                    drop(g);
                    drop(old);
                } else {
                    let rest = side_put(id, n, h, self.may_block());
                    drop(rest);
                }
            }
            Oc::PinPeek => {
                let Some((_, id, n)) = self.pin else { return };
                if b & 1 == 0 {
                    let Some(g) = n.store.read(self.may_wait(id)) else { return };
                    let to = model::edge(id, s(a));
                    if let (Some(gc), true) = (g.get(s(a)), to != 0) {
                        let m: &Node = gc;
                        check_node(m, to);
                    }
                } else {
                    n.side.read(self.may_block(), |x| {
                        let to = model::edge(id, 7);
                        if let (Some(gc), true) = (x, to != 0) {
                            let m: &Node = gc;
                            check_node(m, to);
                        }
                    });
                }
            }
            Oc::PinMove => {
                let Some((_, id, n)) = self.pin else { return };
                if !model::is_live(id) { rt::violation("destroyed-reachable", "object destroyed while a reference to it was held"); }
                if b & 1 == 0 {
                    let Some(mut g) = n.store.lock(self.may_wait(id)) else { return };
                    let Some(h) = slot_take(id, &mut g, s(a)) else { return };
                    drop(g);
                    let rest = side_put(id, n, h, self.may_block());
                    drop(rest);
                } else {
                    let Some(h) = side_take(id, n, self.may_block()) else { return };
                    let Some(mut g) = n.store.lock(self.may_wait(id)) else { return };
                    let old = slot_put(id, &mut g, s(a), h);
                    drop(g);
                    drop(old);
                }
            }
            Oc::Unpin => self.pin = None,
            Oc::Collect => oracle::explicit_collect(FL, gcm::collect),
            Oc::Yield => rt::stall(1 << (a % 11)),
            Oc::SetCond => set_cond(a),
            Oc::Poison => {
                if self.held.is_some() { return; }
                if let Some(h) = self.live(r(a)) {
                    let n = h.check();
                    n.store.poison();
                }
            }
            Oc::Leak => {
                if self.fixed_reg(r(a)) { return; }
                let Some(h) = self.live(r(a)) else { return };
                let id = h.id;
                if !model::may_leak(id) { return; }
                if b & 1 != 0 {
                    if let Some(g) = h.check().store.read(false) {
                        // (others may have found it meanwhile)
                        if !model::may_leak(id) { return; }
                        model::leaked(id, g.exclusive());
                        rt::probe(oracle::P_LEAK);
                        std::mem::forget(g);
                    }
                } else if let Some(g) = h.check().store.lock(false) {
                    if !model::may_leak(id) { return; }
                    model::leaked(id, true);
                    rt::probe(oracle::P_LEAK);
                    std::mem::forget(g);
                }
            }
            Oc::Fan => {
                // a chain of new objects, hung into slot d, whose other slots all refer back
                let Some(hub) = self.live(r(a)).map(|h| h.dup()) else { return };
                let n = if b >= 250 { 20 + 10 * (b as usize - 249) } else { 1 + b as usize % 6 };
                let mut next: Option<H> = None;
                for _ in 0..n {
                    let h = mk(if c & 63 == LEAF { 0 } else { c & 63 }, 0, 0, c >> 6, [None, None]);
                    if let Some(mut g) = h.check().store.lock(self.may_block()) {
                        for i in 0..SLOT {
                            let x = next.take().unwrap_or_else(|| hub.dup());
                            drop(slot_put(h.id, &mut g, i, x));
                        }
                    }
                    next = Some(h);
                }
                let mut old = next;
                if let Some(mut g) = hub.check().store.lock(self.may_wait(hub.id)) {
                    old = slot_put(hub.id, &mut g, s(d), old.take().unwrap());
                }
                drop(old);
                drop(hub);
            }
            Oc::SidePut => {
                let mv = c & 1 == 0;
                if mv && (self.fixed_reg(r(b)) || r(a) == r(b)) { return; }
                if self.live(r(a)).is_none() || self.live(r(b)).is_none() { return; }
                let h = if mv { self.regs[r(b)].take().unwrap() } else { self.live(r(b)).unwrap().dup() };
                let x = self.live(r(a)).unwrap();
                let rest = side_put(x.id, x.check(), h, self.may_block());
                drop(rest);
            }
            Oc::SideTake => {
                if self.fixed_reg(r(b)) || r(a) == r(b) { return; }
                let Some(x) = self.live(r(a)) else { return };
                let h = side_take(x.id, x.check(), self.may_block());
                self.set(r(b), h);
            }
            Oc::SideGet => {
                if self.fixed_reg(r(b)) || r(a) == r(b) { return; }
                let Some(x) = self.live(r(a)) else { return };
                let id = x.id;
                let h = x.check().side.read(self.may_block(), |s| {
                    let to = model::edge(id, 7);
                    s.as_ref().filter(|_| to != 0).map(|g| H::new(G::clone(g), to))
                });
                self.set(r(b), h.flatten());
            }
            Oc::Raw => {
                if self.fixed_reg(r(a)) { return; }
                match b & 3 {
                    0 if !self.raws.is_empty() => {
                        let k = b as usize % self.raws.len();
                        let x = self.raws.swap_remove(k);
                        drop(x);
                    }
                    1 if !self.raws.is_empty() => {
                        let x = &self.raws[b as usize % self.raws.len()];
                        let id = x.id;
                        let h = H::new(coerce(&x.gc), id);
                        h.check();
                        self.set(r(a), Some(h));
                    }
                    _ if self.raws.len() < 6 => {
                        let (h, raw) = mk_raw(c % NBAG, 0, 0, b >> 4, [None, None], true);
                        model::root_inc(h.id);
                        self.raws.push(RawH { gc: ManuallyDrop::new(raw.unwrap()), id: h.id });
                        self.set(r(a), Some(h));
                    }
                    _ => {}
                }
            }
            Oc::Keep => {
                if self.fixed_reg(r(a)) { return; }
                if let Some(h) = self.regs[r(a)].take() {
                    keep(h);
                }
            }
            Oc::Churn => {
                // (collections in between would take too long)
                let never = oracle::o().mode[oracle::heap(FL)] == oracle::M_NEVER && !oracle::raw_default(FL);
                let n = if never && FL == 0 { 99_980 + b as u32 } else { 40 };
                if let Some(x) = self.live(r(a)) {
                    rt::mute(true);
                    for i in 0..n {
                        if i == 99_990 { rt::mute(false); }
                        drop(x.dup());
                    }
                    rt::mute(false);
                    if n > 40 { oracle::churned(); }
                }
            }
            Oc::Ident => {
                if let (Some(x), Some(y)) = (self.live(r(a)), self.live(r(b))) {
                    let same = x.id == y.id;
                    let pe = G::ptr_eq(&x.gc, &y.gc);
                    let ap = std::ptr::eq(G::as_ptr(&x.gc), G::as_ptr(&y.gc));
                    let vx = x.check();
                    let dr = std::ptr::eq(vx, y.check());
                    let ad = std::ptr::eq(G::as_ptr(&x.gc), vx);
                    let eq = PartialEq::eq(&*x.gc, &*y.gc);
                    let ne = PartialEq::ne(&*x.gc, &*y.gc);
                    let ar = std::ptr::eq::<Node>(AsRef::<Node>::as_ref(&*x.gc), vx) && std::ptr::eq::<Node>(std::borrow::Borrow::<Node>::borrow(&*x.gc), vx);
                    let al = alike(x.id, y.id);
                    if pe != same || ap != same || dr != same || !ad || !ar || eq != al || ne == al {
                        rt::violation("identity", &format!("objects {} and {}: ptr_eq {pe} as_ptr {ap} deref {dr} as_ptr==deref {ad} as_ref/borrow {ar} == {eq} != {ne}", x.id, y.id));
                    }
                    let s = format!("{:p}", *x.gc);
                    if s != format!("{:p}", vx) {
                        rt::violation("identity", &format!("pointer formatting of object {}", x.id));
                    }
                }
            }
            Oc::Write => {
                if let Some(h) = self.live(r(a)) {
                    let n = h.check();
                    n.val.store(b as u64 + 1, SeqCst);
                    oracle::model_val_set(h.id, b as u64 + 1);
                    if let Some(y) = self.live(r(c)) {
                        let m = y.check();
                        let v = m.val.load(SeqCst);
                        oracle::model_val_check(y.id, v);
                    }
                }
            }
            Oc::Counters => {
                if FL == 1 { check_counters("mid-run"); }
            }
            Oc::Escape => {
                for k in 0..NSTASH {
                    let Some(g) = stash_read(k as u8, self.may_block()) else { continue };
                    if let Some(h) = g.as_ref() {
                        let d = G::try_deref(&h.gc).is_none();
                        if d != h.dead {
                            rt::violation("dead-handle-state", &format!("escaped handle to object {}: dead {} expected {}", h.id, d, h.dead));
                        }
                        if !h.dead {
                            h.check();
                        } else {
                            crate::expect_panic(|| { let _ = h.gc.id; });
                            crate::expect_panic(|| { let _ = G::clone(&h.gc); });
                        }
                    }
                    drop(g);
                }
            }
            Oc::Expect => {
                if FL == 1 { final_collect("mid-run"); }
            }
            _ => self.extra(o, other),
        }
    }

    pub fn release(&mut self) {
        if self.held.take().is_some() {
            oracle::held(-1);
        }
    }

    /// End of the thread's program.
    pub fn end(&mut self) {
        self.release();
        self.pin = None;
        for i in 0..NREG {
            let h = self.regs[i].take();
            crate::guarded(|| drop(h));
        }
        while let Some(h) = self.raws.pop() {
            crate::guarded(|| drop(h));
        }
    }
}

// ---------------------------------------------------------------------------------------------
// destructor behaviour

impl<P: ?Sized + Fx> NodeT<P> {
    fn bag_mut(&mut self) -> Option<&mut Bag> {
        self.h.store.get_mut()
    }
    /// Look at handle `g` inside this dying object whose target is `id` according to the model.
    fn inspect(g: &G, id: u32) -> bool {
        if id == 0 {
            return false;
        }
        match G::try_deref(g) {
            Some(n) => {
                let n: &Node = n;
                if !model::is_live(id) {
                    rt::violation("live-handle-dead-target", &format!("a destructor saw a live handle to object {id}, which is already destroyed"));
                }
                check_node(n, id);
                true
            }
            None => {
                if model::reachable(id) {
                    rt::violation("dead-handle-live-target", &format!("a destructor saw a dead handle to object {id}, which is reachable"));
                }
                false
            }
        }
    }
    fn run_script(&mut self, sc: u8) {
        let me = self.id;
        oracle::script_probe(sc);
        match sc % oracle::NSCRIPT {
            0 => {}
            1 => {
                // look at every handle
                for i in 0..SLOT {
                    let id = model::edge(me, i);
                    if let Some(b) = self.bag_mut() {
                        if let Some(g) = b.get(i) {
                            Self::inspect(g, id);
                        }
                    }
                }
                for f in 0..2 {
                    let id = model::edge(me, 4 + f);
                    if let Some(g) = self.tail.fx(f) {
                        Self::inspect(g, id);
                    }
                }
            }
            2 => {
                // clone what is alive, drop the clone
                for i in 0..SLOT {
                    let id = model::edge(me, i);
                    if let Some(g) = self.bag_mut().and_then(|b| b.get(i)) {
                        if Self::inspect(g, id) {
                            match G::try_clone(g) {
                                Some(c) => drop(H::new(c, id)),
                                None => rt::violation("dead-handle-state", "try_clone refused a live handle"),
                            }
                        } else if id != 0 && G::try_clone(g).is_some() {
                            rt::violation("dead-handle-state", "try_clone accepted a dead handle");
                        }
                    }
                }
            }
            3 | 4 => {
                // let a handle (3) or a clone (4) escape to the stash
                for i in 0..SLOT {
                    let id = model::edge(me, i);
                    let Some(b) = self.bag_mut() else { return };
                    let Some(g) = b.get(i) else { continue };
                    let alive = Self::inspect(g, id);
                    let h = if sc == 3 {
                        let g = b.take(i).unwrap();
                        model::edge_set(me, i, 0);
                        if alive { H::new(g, id) } else { H::dead(g, id) }
                    } else if alive {
                        let Some(c) = G::try_clone(g) else { continue };
                        H::new(c, id)
                    } else {
                        continue;
                    };
                    if let Some(mut s) = stash_write((me as usize % NSTASH) as u8, false) {
                        let old = s.replace(h);
                        drop(s);
                        drop(old);
                    } else {
                        drop(h);
                    }
                    break;
                }
            }
            5 => {
                let h = mk(LEAF, 0, 0, 0, [None, None]);
                h.check();
                drop(h);
            }
            6 => {
                // abandon a fresh cycle
                let x = mk((me % NBAG as u32) as u8, 0, 0, 0, [None, None]);
                let y = mk(0, 0, 0, 1, [None, None]);
                let (cx, cy) = (x.dup(), y.dup());
                if let Some(mut g) = x.check().store.lock(false) {
                    let o = slot_put(x.id, &mut g, 0, cy);
                    drop(g);
                    drop(o);
                }
                if let Some(mut g) = y.check().store.lock(false) {
                    let o = slot_put(y.id, &mut g, 1, cx);
                    drop(g);
                    drop(o);
                }
                drop(x);
                drop(y);
            }
            7 => {
                if let Some(mut g) = stash_write((me as usize % NSTASH) as u8, false) {
                    let h = g.take();
                    drop(g);
                    drop(h);
                }
            }
            8 => oracle::explicit_collect(FL, gcm::collect),
            14 => other::from_other_destructor(me),
            15 => other::collect_now(),
            9 | 10 => {
                // put a handle of this dying object (9: a clone, 10: the handle itself) into a live one
                let mut h = None;
                for i in 0..SLOT {
                    let id = model::edge(me, i);
                    let Some(b) = self.bag_mut() else { return };
                    let Some(g) = b.get(i) else { continue };
                    let alive = Self::inspect(g, id);
                    if sc == 10 {
                        let g = b.take(i).unwrap();
                        model::edge_set(me, i, 0);
                        h = Some(if alive { H::new(g, id) } else { H::dead(g, id) });
                        break;
                    } else if alive {
                        h = G::try_clone(g).map(|c| H::new(c, id));
                        break;
                    }
                }
                let Some(h) = h else { return };
                let Some(s) = stash_read((me as usize % NSTASH) as u8, false) else { return };
                let mut rest = Some(h);
                if let Some(t) = s.as_ref().filter(|t| !t.dead) {
                    if let Some(mut g) = t.check().store.lock(false) {
                        rest = slot_put(t.id, &mut g, (me % 4) as usize, rest.take().unwrap());
                        drop(g);
                    }
                }
                drop(s);
                drop(rest);
            }
            11 => {
                // use a live object found elsewhere
                if let Some(s) = stash_read((me as usize % NSTASH) as u8, false) {
                    if let Some(t) = s.as_ref().filter(|t| !t.dead) {
                        t.check();
                        let c = t.dup();
                        drop(c);
                    }
                    drop(s);
                }
            }
            12 => {
                // drop own handles one by one, explicitly
                for i in 0..SLOT {
                    if let Some(b) = self.bag_mut() {
                        if let Some(g) = b.take(i) {
                            model::edge_set(me, i, 0);
                            oracle::fields_dropped(FL, 1);
                            drop(g);
                        }
                    }
                }
            }
            _ => {
                // take an object out of a live structure and drop it
                let mut h = None;
                if let Some(s) = stash_read((me as usize % NSTASH) as u8, false) {
                    if let Some(t) = s.as_ref().filter(|t| !t.dead) {
                        if let Some(mut g) = t.check().store.lock(false) {
                            h = slot_take(t.id, &mut g, (me % 4) as usize);
                            drop(g);
                        }
                    }
                    drop(s);
                }
                drop(h);
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------
// conditions, counters, final checks

fn c_never(_: &gcm::CollectInfo) -> bool { oracle::cond(FL, oracle::M_NEVER, || false) }
fn c_always(_: &gcm::CollectInfo) -> bool { oracle::cond(FL, oracle::M_ALWAYS, || true) }
fn c_random(_: &gcm::CollectInfo) -> bool { oracle::cond(FL, oracle::M_RANDOM, || true) }
fn c_default(i: &gcm::CollectInfo) -> bool { oracle::cond(FL, oracle::M_DEFAULT, || gcm::default_collect_condition(i)) }
fn c_probe(i: &gcm::CollectInfo) -> bool {
    oracle::capture(i.n_gcs_existing() as u64, i.n_gcs_dropped_since_last_collect() as u64);
    false
}
pub fn set_cond(m: u8) {
    oracle::cond_installing(FL);
    match m {
        oracle::M_NEVER => gcm::set_collect_condition(c_never),
        oracle::M_ALWAYS => gcm::set_collect_condition(c_always),
        oracle::M_RANDOM => gcm::set_collect_condition(c_random),
        oracle::M_PROBE => gcm::set_collect_condition(c_probe),
        _ => gcm::set_collect_condition(c_default),
    }
    oracle::cond_installed(FL, m);
}

/// Read the counters the way a user can: from a condition called for the drop of a throw-away handle.
pub fn check_counters(when: &str) {
    if oracle::o().opts & oracle::O_COUNT == 0 { return; }
    let old = oracle::o().mode[oracle::heap(FL)];
    set_cond(oracle::M_PROBE);
    let h = mk(LEAF, 0, 0, 0, [None, None]);
    drop(h);
    set_cond(old);
    oracle::judge_counters(FL, when);
}

pub fn final_collect(when: &str) {
    let t = rt::cur_tid() as u8;
    let scripts = oracle::o().opts & oracle::O_SCRIPTS != 0;
    // destructors, or values that could not be examined, may release more
    let mut left = if scripts || model::any_pinned() { model::n_nodes() + 2 } else { 1 };
    if oracle::o().opts & oracle::O_PANICS != 0 { left = left.max(8); }
    while left > 0 {
        crate::guarded(|| oracle::explicit_collect(FL, gcm::collect));
        left -= 1;
        if model::garbage_left(FL, |n| FL == 0 || n.home == t) == 0 { break; }
    }
    rt::trace(|| format!("final collection ({when}) done"));
    model::check_complete(FL, "leak-undestroyed", "leak-unfreed", |n| FL == 0 || n.home == t);
}

pub fn clear_stash() {
    for i in 0..NSTASH {
        crate::guarded(|| {
            let Some(mut g) = stash_write(i as u8, true) else { return };
            let h = g.take();
            drop(g);
            drop(h);
        });
    }
}

/// Everything the model calls reachable must be there.
pub fn walk_stash() {
    for i in 0..NSTASH {
        let Some(g) = stash_read(i as u8, true) else { continue };
        if let Some(h) = g.as_ref() {
            let mut seen = Vec::new();
            if !h.dead { walk(&h.gc, h.id, &mut seen); }
        }
        drop(g);
    }
}
fn walk(g: &G, id: u32, seen: &mut Vec<u32>) {
    if seen.contains(&id) { return; }
    seen.push(id);
    let n: &Node = g;
    check_node(n, id);
    if let Some(b) = n.store.read(false) {
        for i in 0..SLOT {
            let e = model::edge(id, i);
            match b.get(i) {
                Some(x) if e != 0 => walk(x, e, seen),
                None if e != 0 => rt::violation("lost-edge", "a handle stored in an object disappeared"),
                _ => {}
            }
        }
        drop(b);
    }
    n.side.read(false, |s| {
        let e = model::edge(id, 7);
        match s {
            Some(x) if e != 0 => walk(x, e, seen),
            None if e != 0 => rt::violation("lost-edge", "a handle stored in an object disappeared"),
            _ => {}
        }
    });
    for f in 0..2 {
        let e = model::edge(id, 4 + f);
        if let (Some(x), true) = (n.tail.fx(f), e != 0) { walk(x, e, seen); }
    }
}

/// An automatic collection, started by the condition, must find what exited threads left behind.
pub fn final_auto() {
    set_cond(oracle::M_ALWAYS);
    let h = mk(LEAF, 0, 0, 0, [None, None]);
    drop(h);
    set_cond(oracle::M_NEVER);
    model::check_left_behind("condition-ignored");
}

/// With the default condition, dropping many more handles than there are starts a collection.
pub fn final_default() {
    if oracle::o().opts & oracle::O_COND == 0 || !oracle::raw_default(FL) { return; }
    let t = rt::cur_tid() as u8;
    let n = 4 * model::handle_count(|n| n.flavor == FL && (FL == 0 || n.home == t)) + 16;
    for _ in 0..n {
        drop(mk(LEAF, 0, 0, 0, [None, None]));
    }
    if FL == 0 {
        model::check_left_behind("default-never-collects");
    } else {
        model::check_complete(FL, "default-never-collects", "default-never-collects", |n| n.home == t);
    }
    if model::n_nodes() % 4 == 0 { amortised(t); }
}

/// With the default condition, the tracing work of dropping handles is proportional to their number.
fn amortised(t: u8) {
    let n = 24;
    let hs: Vec<H> = (0..n).map(|_| mk(0, 0, 0, 0, [None, None])).collect();
    for i in 0..n {
        let to = hs[(i + 1) % n].dup();
        let g = hs[i].check().store.lock(false);
        if let Some(mut g) = g {
            let old = slot_put(hs[i].id, &mut g, 0, to);
            drop(g);
            drop(old);
        }
    }
    let a0 = oracle::o().accepts[t as usize];
    let k = 8 * n;
    for i in 0..k {
        let c = hs[i * 7 % n].dup();
        drop(c);
    }
    let a = oracle::o().accepts[t as usize] - a0;
    if a > (12 * k + 12 * n + 100) as u64 {
        rt::violation("default-too-often", &format!("dropping {k} handles while {} exist took {a} calls of trace methods", 2 * n));
    }
    rt::probe(oracle::P_AMORT);
}

pub fn collect_now() {
    oracle::explicit_collect(FL, gcm::collect);
}
/// Called from a destructor of the other collector's object: do ordinary things here.
pub fn from_other_destructor(n: u32) {
    let x = mk((n % NBAG as u32) as u8, 0, 0, 0, [None, None]);
    let c = x.dup();
    if let Some(mut g) = x.check().store.lock(false) {
        let o = slot_put(x.id, &mut g, 0, c);
        drop(g);
        drop(o);
    }
    drop(x);
    if n % 3 == 0 { collect_now(); }
}

thread_local! {
    static KEEP: std::cell::RefCell<Vec<H>> = const { std::cell::RefCell::new(Vec::new()) };
}
pub fn keep(h: H) {
    let mut h = Some(h);
    let _ = KEEP.try_with(|k| k.borrow_mut().push(h.take().unwrap()));
    drop(h);
}
pub fn touch_keep() {
    let _ = KEEP.try_with(|k| k.borrow_mut().reserve(1));
}
pub fn touch_stash() {
    drop(stash_read(0, false));
}
/// After joining: whatever the exited threads' local heaps held must be gone.
pub fn check_threads_done() {
    model::check_complete(FL, "leak-undestroyed", "leak-unfreed", |n| n.home != 0);
}

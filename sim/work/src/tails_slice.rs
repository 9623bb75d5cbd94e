// What an object ends with: a slice of one to four elements.
#[derive(Collectable)]
pub struct Elem { f: Option<G>, mark: Option<Mark> }
pub type Dst = [Elem];
impl Fx for [Elem] {
    fn fx(&self, i: usize) -> Option<&G> { self.get(i).and_then(|e| e.f.as_ref()) }
}
pub enum RawG {
    A(gcm::Gc<NodeT<[Elem; 1]>>),
    B(gcm::Gc<NodeT<[Elem; 2]>>),
    D(gcm::Gc<NodeT<[Elem; 4]>>),
}
pub fn build(h: Head, kind: u8, f: [Option<G>; 2], mark: Mark, raw: &mut Option<RawG>, want: bool) -> G {
    let two = f[1].is_some();
    let [a, b] = f;
    rt::probe(oracle::P_UNSIZED);
    let e = |f| Elem { f, mark: None };
    let last = |f| Elem { f, mark: Some(mark) };
    match (kind & 3, two) {
        (0, false) => {
            let g = gcm::Gc::new(NodeT { h, tail: [last(a)] });
            if want { *raw = Some(RawG::A(g.clone())); }
            g
        }
        (1 | 0, _) => {
            let g = gcm::Gc::new(NodeT { h, tail: [e(a), last(b)] });
            if want { *raw = Some(RawG::B(g.clone())); }
            g
        }
        _ => {
            let g = gcm::Gc::new(NodeT { h, tail: [e(a), e(b), e(None), last(None)] });
            if want { *raw = Some(RawG::D(g.clone())); }
            g
        }
    }
}
pub fn coerce(r: &RawG) -> G {
    match r {
        RawG::A(g) => g.clone(),
        RawG::B(g) => g.clone(),
        RawG::D(g) => g.clone(),
    }
}
impl<const N: usize> Fx for [Elem; N] {
    fn fx(&self, i: usize) -> Option<&G> { self[..].fx(i) }
}

// What an object ends with: a trait object of one of several sizes and alignments.
#[derive(Collectable)]
pub struct Tail0 { f: [Option<G>; 2], mark: Mark }
#[derive(Collectable)]
#[repr(align(64))]
pub struct TailWide { f: [Option<G>; 2], pad: [u8; 70], mark: Mark }
#[derive(Collectable)]
pub struct TailOne { pad: u8, f: Option<G>, mark: Mark }
#[derive(Collectable)]
pub struct TailBare { mark: Mark }
impl Fx for Tail0 { fn fx(&self, i: usize) -> Option<&G> { self.f[i].as_ref() } }
impl Fx for TailWide { fn fx(&self, i: usize) -> Option<&G> { self.f[i].as_ref() } }
impl Fx for TailOne { fn fx(&self, i: usize) -> Option<&G> { if i == 0 { self.f.as_ref() } else { None } } }
impl Fx for TailBare { fn fx(&self, _: usize) -> Option<&G> { None } }
unsafe impl Collectable for Dst {
    fn accept<V: Visitor>(&self, v: &mut V) -> Result<(), ()> {
        for i in 0..2 {
            if let Some(g) = self.fx(i) { g.accept(v)?; }
        }
        Ok(())
    }
}
pub enum RawG {
    A(gcm::Gc<NodeT<Tail0>>),
    B(gcm::Gc<NodeT<TailWide>>),
    C(gcm::Gc<NodeT<TailOne>>),
    D(gcm::Gc<NodeT<TailBare>>),
}
pub fn build(h: Head, kind: u8, f: [Option<G>; 2], mark: Mark, raw: &mut Option<RawG>, want: bool) -> G {
    let need = if f[1].is_some() { 2 } else if f[0].is_some() { 1 } else { 0 };
    rt::probe(oracle::P_UNSIZED);
    match (kind & 3, need) {
        (3, 0) => {
            let g = gcm::Gc::new(NodeT { h, tail: TailBare { mark } });
            if want { *raw = Some(RawG::D(g.clone())); }
            g
        }
        (2, 0 | 1) => {
            let [f, _] = f;
            let g = gcm::Gc::new(NodeT { h, tail: TailOne { pad: 7, f, mark } });
            if want { *raw = Some(RawG::C(g.clone())); }
            g
        }
        (1, _) => {
            let g = gcm::Gc::new(NodeT { h, tail: TailWide { f, pad: [9; 70], mark } });
            if want { *raw = Some(RawG::B(g.clone())); }
            g
        }
        _ => {
            let g = gcm::Gc::new(NodeT { h, tail: Tail0 { f, mark } });
            if want { *raw = Some(RawG::A(g.clone())); }
            g
        }
    }
}
pub fn coerce(r: &RawG) -> G {
    match r {
        RawG::A(g) => g.clone(),
        RawG::B(g) => g.clone(),
        RawG::C(g) => g.clone(),
        RawG::D(g) => g.clone(),
    }
}

// What an object ends with: two immutable handles.
#[derive(Collectable)]
pub struct Tail0 {
    f: [Option<G>; 2],
    mark: Mark,
}
pub type Dst = Tail0;
impl Fx for Dst {
    fn fx(&self, i: usize) -> Option<&G> { self.f[i].as_ref() }
}
pub type RawG = G;
pub fn build(h: Head, _: u8, f: [Option<G>; 2], mark: Mark, raw: &mut Option<RawG>, want: bool) -> G {
    let g = gcm::Gc::new(NodeT { h, tail: Tail0 { f, mark } });
    if want { *raw = Some(g.clone()); }
    g
}
pub fn coerce(r: &RawG) -> G { r.clone() }

@file runtime/model/spline.rs
@wrap trait SplineToPath
@items trait SplineToPath
    /// the flat list: vertex, in-tangent, out-tangent of each vertex
    spec fn pts(&self) -> Seq<Point>;
@fn trait SplineToPath::get
@ret r
@spec
    requires index < self.pts().len(),
    ensures r == self.pts()[index as int]
@fn trait SplineToPath::len
@ret r
@spec
    ensures r == self.pts().len()
@fn trait SplineToPath::to_path
@ret r
@desugar inline_closures compound
@spec
    ensures final(path)@ == old(path)@ + path_of(self.pts(), is_closed),
        r is Some <==> self.pts().len() > 0
@attr #[verifier::loop_isolation(false)]
@loop 0
    invariant __b0 <= __k0, __k0 <= __n0 || __k0 == __b0, __n0 - __b0 == n_vertices - 1 || (n_vertices == 0 && __n0 <= __b0), n_vertices == self.pts().len() / 3, self.pts().len() > 0, self.pts().len() <= usize::MAX,
        path@ == old(path)@ + (seq![PathEl::MoveTo(self.pts()[0])] + Seq::new((__k0 - __b0) as nat, |k: int| segment(self.pts(), k, k + 1))),
    decreases __n0 - __k0
@loopend 0
    proof {
        let m = __k0 - __b0;
        let a = Seq::new((m - 1) as nat, |k: int| segment(self.pts(), k, k + 1)); let b = Seq::new(m as nat, |k: int| segment(self.pts(), k, k + 1));
        assert(b =~= a.push(segment(self.pts(), m - 1, m)));
        assert(path@ =~= old(path)@ + (seq![PathEl::MoveTo(self.pts()[0])] + b));
    }
@exit
    proof { assert(path@ =~= old(path)@ + path_of(self.pts(), is_closed)); }
@fn <SplineToPath for &'_[Point]>::len
@outline self.as_ref()
(*self)
@fn <SplineToPath for &'_[Point]>::get
@items impl <SplineToPath for &'_[Point]>
    open spec fn pts(&self) -> Seq<Point> { (*self)@ }
@fn <SplineToPath for (&'_[Point],&'_[Point],f64)>::len
@fn <SplineToPath for (&'_[Point],&'_[Point],f64)>::get
@items impl <SplineToPath for (&'_[Point],&'_[Point],f64)>
    open spec fn pts(&self) -> Seq<Point> { lerp_pts(self.0@, self.1@, self.2) }
@end
@append
broadcast use {crate::verif_spec::group_ieee, crate::verif_spec::group_float_fields};
pub open spec fn lerp_pts(a: Seq<Point>, b: Seq<Point>, t: f64) -> Seq<Point> {
    Seq::new(if a.len() <= b.len() { a.len() } else { b.len() }, |i: int| point_lerp(a[i], b[i], t))
}
pub open spec fn plus(a: Point, b: Point) -> Point { Point { x: a.x.ieee_add(b.x), y: a.y.ieee_add(b.y) } }
/// the piece from vertex i to vertex j
pub open spec fn segment(p: Seq<Point>, i: int, j: int) -> PathEl {
    let c0 = plus(p[3 * i + 2], p[3 * i]); let c1 = plus(p[3 * j + 1], p[3 * j]);
    if point_eq(c0, p[3 * i]) && point_eq(c1, p[3 * j]) { PathEl::LineTo(p[3 * j]) } else { PathEl::CurveTo(c0, c1, p[3 * j]) }
}
pub open spec fn path_of(p: Seq<Point>, closed: bool) -> Seq<PathEl> {
    if p.len() == 0 { Seq::empty() } else {
        let n = (p.len() / 3) as int;
        let open = seq![PathEl::MoveTo(p[0])] + Seq::new(if n >= 1 { (n - 1) as nat } else { 0 }, |k: int| segment(p, k, k + 1));
        if closed && n != 0 { open.push(segment(p, n - 1, 0)).push(PathEl::ClosePath) } else { open }
    }
}

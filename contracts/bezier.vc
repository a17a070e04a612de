@file schema/helpers/bezier.rs
@derive Bezier Clone
@fn <Clone for Bezier>::clone
@ret r
@spec
    ensures r.closed == self.closed, r.vertices@ == self.vertices@, r.in_tangents@ == self.in_tangents@, r.out_tangents@ == self.out_tangents@
@exit
    proof { broadcast use crate::verif_import::ax_clone_pair; assert(__ret.vertices@ =~= self.vertices@); assert(__ret.in_tangents@ =~= self.in_tangents@); assert(__ret.out_tangents@ =~= self.out_tangents@); }
@end

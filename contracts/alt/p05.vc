@file runtime/model/fixed.rs
//# P05 speaks about finite numbers only: the specification is bit-exact wherever no operand is a NaN,
//# so that a rewriting that differs on NaN alone satisfies it
@fn Trim::normalized
@ret r
@spec
    ensures crate::verif_model::sane(*self) ==> r == self.norm()
@entry
    proof { if crate::verif_model::sane(*self) { crate::verif_model::lemma_sane(*self); } }

//! P08: balanced command streams.
#![allow(unused, missing_docs)]
use vstd::prelude::*;
use crate::verif_spec::*;
use crate::verif_render::*;
use kurbo::Affine;
verus! {
/// what is open, outermost first: true for a layer or clip, false for a layer group
pub type Open = Seq<bool>;
/// one command: opens, closes the innermost of its kind, or draws; None where it closes what is not open innermost
pub open spec fn bracket(st: Open, e: Ev) -> Option<Open> {
    match e {
        Ev::PushLayer { .. } => Some(st.push(true)),
        Ev::PushClip { .. } => Some(st.push(true)),
        Ev::Begin { .. } => Some(st.push(false)),
        Ev::Pop => if st.len() > 0 && st.last() { Some(st.drop_last()) } else { None },
        Ev::End => if st.len() > 0 && !st.last() { Some(st.drop_last()) } else { None },
        Ev::Draw { .. } => Some(st),
    }
}
/// what the commands leave open when they begin with nothing open; None if they close anything they did not open
pub open spec fn opens(s: Seq<Ev>) -> Option<Open> decreases s.len() {
    if s.len() == 0 { Some(Seq::empty()) } else { match opens(s.drop_last()) { None => None, Some(st) => bracket(st, s.last()) } }
}
/// every opening has exactly one matching closing, properly nested, and nothing else is closed
pub open spec fn balanced(s: Seq<Ev>) -> bool { opens(s) == Some(Seq::<bool>::empty()) }
/// the commands b adds to a leave exactly `st` open
pub open spec fn grown(a: Seq<Ev>, b: Seq<Ev>, st: Open) -> bool { a.len() <= b.len() && b.take(a.len() as int) == a && opens(b.skip(a.len() as int)) == Some(st) }
pub proof fn lemma_grown_refl(a: Seq<Ev>) ensures grown(a, a, Seq::empty()) { assert(a.take(a.len() as int) =~= a); assert(a.skip(a.len() as int) =~= Seq::empty()); }
pub proof fn lemma_grown_push(a: Seq<Ev>, b: Seq<Ev>, st: Open, e: Ev)
    requires grown(a, b, st), bracket(st, e) is Some ensures grown(a, b.push(e), bracket(st, e)->0)
{
    let n = a.len() as int;
    assert(b.push(e).take(n) =~= b.take(n));
    assert(b.push(e).skip(n).drop_last() =~= b.skip(n));
}
pub proof fn lemma_open(a: Seq<Ev>, b: Seq<Ev>, st: Open, e: Ev, k: bool)
    requires grown(a, b, st), (e is PushLayer || e is PushClip) ==> k, e is Begin ==> !k, e is PushLayer || e is PushClip || e is Begin
    ensures grown(a, b.push(e), st.push(k)) { lemma_grown_push(a, b, st, e); }
pub proof fn lemma_close(a: Seq<Ev>, b: Seq<Ev>, st: Open)
    ensures grown(a, b, st.push(true)) ==> grown(a, b.push(Ev::Pop), st), grown(a, b, st.push(false)) ==> grown(a, b.push(Ev::End), st)
{
    assert(st.push(true).drop_last() =~= st); assert(st.push(false).drop_last() =~= st);
    if grown(a, b, st.push(true)) { lemma_grown_push(a, b, st.push(true), Ev::Pop); }
    if grown(a, b, st.push(false)) { lemma_grown_push(a, b, st.push(false), Ev::End); }
}
/// commands that are balanced on their own change nothing around them
pub proof fn lemma_grown_call(a: Seq<Ev>, b: Seq<Ev>, c: Seq<Ev>, st: Open)
    requires grown(a, b, st), grown(b, c, Seq::empty()) ensures grown(a, c, st)
{
    let n = a.len() as int; let m = b.len() as int;
    lemma_cat_opens(b.skip(n), c.skip(m), st, Seq::empty());
    assert(c.skip(n) =~= b.skip(n) + c.skip(m)) by { assert forall|i: int| 0 <= i < m - n implies c.skip(n)[i] == b.skip(n)[i] by { assert(c.take(m)[n + i] == b[n + i]); } }
    assert(c.take(n) =~= a) by { assert forall|i: int| 0 <= i < n implies c.take(n)[i] == a[i] by { assert(c.take(m)[i] == b[i]); assert(b.take(n)[i] == a[i]); } }
    assert(st + Seq::<bool>::empty() =~= st);
}
pub proof fn lemma_cat_opens(x: Seq<Ev>, y: Seq<Ev>, st: Open, tt: Open)
    requires opens(x) == Some(st), opens(y) == Some(tt) ensures opens(x + y) == Some(st + tt) decreases y.len()
{
    if y.len() == 0 { assert(x + y =~= x); assert(st + tt =~= st); } else {
        let z = y.drop_last();
        let zt = opens(z)->0;
        lemma_cat_opens(x, z, st, zt);
        assert((x + y).drop_last() =~= x + z);
        match y.last() {
            Ev::PushLayer { .. } => { assert((st + zt).push(true) =~= st + zt.push(true)); }
            Ev::PushClip { .. } => { assert((st + zt).push(true) =~= st + zt.push(true)); }
            Ev::Begin { .. } => { assert((st + zt).push(false) =~= st + zt.push(false)); }
            Ev::Pop => { assert((st + zt).drop_last() =~= st + zt.drop_last()); }
            Ev::End => { assert((st + zt).drop_last() =~= st + zt.drop_last()); }
            Ev::Draw { .. } => { }
        }
    }
}
/// n layers or clips open above `st`
pub open spec fn with_layers(st: Open, n: int) -> Open { st + Seq::new(n as nat, |i: int| true) }
pub proof fn lemma_layers(st: Open, n: int) requires n >= 0 ensures with_layers(st, n + 1) == with_layers(st, n).push(true), with_layers(st, 0) == st {
    assert(with_layers(st, n + 1) =~= with_layers(st, n).push(true)); assert(with_layers(st, 0) =~= st);
}
} // verus!

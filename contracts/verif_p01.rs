//! P01 / P02: the statement-level lemmas over the contracts of runtime/model/value.rs
#![allow(unused, missing_docs)]
use vstd::prelude::*;
use crate::verif_spec::*;
use crate::runtime::model::*;
use crate::runtime::model::value::*;
use core::cmp::Ordering;
verus! {
broadcast use {crate::verif_spec::group_ieee, crate::verif_spec::group_float_fields, crate::verif_fields::group_fields};

pub open spec fn finite(x: f64) -> bool { !x.ieee_is_nan() && !x.ieee_is_infinite() }
pub open spec fn neg_zero(x: f64) -> bool { x.ieee_is_zero() && x.ieee_is_negative() }
/// keyframe times are numbers (zero written as +0.0) and never decrease
pub open spec fn sorted_times(s: Seq<Time>) -> bool {
    (forall|i: int| 0 <= i < s.len() ==> finite((#[trigger] s[i]).frame) && !neg_zero(s[i].frame))
    && (forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).frame.ieee_le((#[trigger] s[j]).frame))
}
pub proof fn lemma_cmp_mono(x: f64, y: f64, f: f64)
    requires finite(x), finite(y), finite(f), x.ieee_le(y)
    ensures y.ieee_lt(f) ==> x.ieee_lt(f), x.ieee_gt(f) ==> y.ieee_gt(f),
        x.ieee_gt(f) ==> !x.ieee_lt(f), !x.ieee_gt(f) && !x.ieee_lt(f) ==> x.ieee_eq(f),
{
    assert(!x.ieee_is_nan() && !x.ieee_is_infinite() && !y.ieee_is_nan() && !y.ieee_is_infinite() && !f.ieee_is_nan() && !f.ieee_is_infinite() && x.ieee_le(y)
      ==> (y.ieee_lt(f) ==> x.ieee_lt(f)) && (x.ieee_gt(f) ==> y.ieee_gt(f)) && (x.ieee_gt(f) ==> !x.ieee_lt(f)) && (!x.ieee_gt(f) && !x.ieee_lt(f) ==> x.ieee_eq(f))) by(bit_vector);
}
pub proof fn lemma_sub(a: f64, b: f64)
    requires finite(a), finite(b)
    ensures a.ieee_lt(b) ==> a.ieee_sub(b).ieee_lt(0.0f64), a.ieee_gt(b) ==> a.ieee_sub(b).ieee_gt(0.0f64), a.ieee_eq(b) ==> a.ieee_sub(b).ieee_eq(0.0f64)
{
    assert(!a.ieee_is_nan() && !a.ieee_is_infinite() && !b.ieee_is_nan() && !b.ieee_is_infinite()
     ==> (a.ieee_lt(b) ==> a.ieee_sub(b).ieee_lt(0.0f64)) && (a.ieee_gt(b) ==> a.ieee_sub(b).ieee_gt(0.0f64)) && (a.ieee_eq(b) ==> a.ieee_sub(b).ieee_eq(0.0f64))) by(bit_vector);
}

pub open spec fn nz(t: f64) -> f64 { if t.ieee_is_nan() { 0.0f64 } else { t } }
pub proof fn lemma_div_sign(a: f64, b: f64)
    requires !a.ieee_is_nan(), !b.ieee_is_nan(), b.ieee_ge(0.0f64), !b.ieee_is_negative()
    ensures a.ieee_le(0.0f64) ==> nz(a.ieee_div(b)).ieee_le(0.0f64),
       a.ieee_gt(0.0f64) && b.ieee_is_zero() && !b.ieee_is_negative() ==> nz(a.ieee_div(b)).ieee_ge(1.0f64),
{
    let q = a.ieee_div(b);
    assert(!a.ieee_is_nan() && !b.ieee_is_nan() && b.ieee_ge(0.0f64) && !b.ieee_is_negative() && a.ieee_le(0.0f64) ==> a.ieee_div(b).ieee_is_nan() || a.ieee_div(b).ieee_le(0.0f64)) by(bit_vector);
    assert(a.ieee_gt(0.0f64) && b.ieee_is_zero() && !b.ieee_is_negative() ==> a.ieee_div(b).ieee_ge(1.0f64) && !a.ieee_div(b).ieee_is_nan()) by(bit_vector);
    assert(0.0f64.ieee_le(0.0f64)) by(bit_vector);
}
pub proof fn lemma_clamp(x: f64)
    requires !x.ieee_is_nan()
    ensures f_clamp(x, 0.0f64, 1.0f64).ieee_ge(0.0f64), f_clamp(x, 0.0f64, 1.0f64).ieee_le(1.0f64),
       !f_clamp(x, 0.0f64, 1.0f64).ieee_is_nan(),
       x.ieee_le(0.0f64) ==> f_clamp(x, 0.0f64, 1.0f64).ieee_le(0.0f64),
       x.ieee_ge(1.0f64) ==> f_clamp(x, 0.0f64, 1.0f64).ieee_ge(1.0f64),
{
    assert(!x.ieee_is_nan() ==> x.ieee_lt(0.0f64) || x.ieee_gt(1.0f64) || (x.ieee_ge(0.0f64) && x.ieee_le(1.0f64))) by(bit_vector);
    assert(0.0f64.ieee_le(0.0f64) && 0.0f64.ieee_ge(0.0f64) && 1.0f64.ieee_ge(0.0f64) && 1.0f64.ieee_le(1.0f64) && 1.0f64.ieee_ge(1.0f64) && 0.0f64.ieee_le(1.0f64) && !0.0f64.ieee_is_nan() && !1.0f64.ieee_is_nan() && !1.0f64.ieee_lt(0.0f64)) by(bit_vector);
    assert(x.ieee_gt(1.0f64) ==> !x.ieee_le(0.0f64)) by(bit_vector);
    assert(x.ieee_lt(0.0f64) ==> !x.ieee_ge(1.0f64)) by(bit_vector);
}
/// what the search finds in a sorted list
pub proof fn lemma_search(s: Seq<Time>, frame: f64)
    requires sorted_times(s), finite(frame), 0 < s.len() <= usize::MAX
    ensures ({ let i = fw_ix0(s, frame); let j = fw_ix1(s, frame);
        &&& 0 <= i < s.len() && 0 <= j < s.len() && (i < j ==> j == i + 1)
        &&& (frame.ieee_lt(s[0].frame) ==> i == 0)
        &&& (frame.ieee_gt(s.last().frame) ==> i == s.len() - 1 && j == i)
        &&& ((exists|k: int| 0 <= k < s.len() && (#[trigger] s[k]).frame.ieee_eq(frame)) ==> s[i].frame.ieee_eq(frame))
        &&& (!frame.ieee_lt(s[0].frame) && !frame.ieee_gt(s.last().frame) && !s[i].frame.ieee_eq(frame) ==> s[i].frame.ieee_lt(frame) && frame.ieee_lt(s[j].frame) && j == i + 1)
    })
{
    broadcast use ax_bs;
    let key = |x: Time| cmp_time(x, frame);
    let b = bs_result(s, key);
    assert forall|x: int| 0 <= x < s.len() implies finite((#[trigger] s[x]).frame) by {}
    assert forall|x: int, y: int| 0 <= x < y < s.len() implies #[trigger] ord_le(key(s[x]), key(s[y])) by {
        lemma_cmp_mono(s[x].frame, s[y].frame, frame);
    }
    assert forall|x: int| 0 <= x < s.len() implies (key(#[trigger] s[x]) == Ordering::Less ==> s[x].frame.ieee_lt(frame)) && (key(s[x]) == Ordering::Equal ==> s[x].frame.ieee_eq(frame))
        && (s[x].frame.ieee_eq(frame) ==> key(s[x]) == Ordering::Equal) && (key(s[x]) == Ordering::Greater ==> s[x].frame.ieee_gt(frame)
        && (frame.ieee_lt(s[x].frame) ==> key(s[x]) == Ordering::Greater) && (frame.ieee_gt(s[x].frame) ==> key(s[x]) == Ordering::Less)) by {
        let a = s[x].frame;
        assert(finite(a));
        lemma_tri(a, frame);
    }
    lemma_tri(s[0].frame, frame);
    lemma_tri(s.last().frame, frame);
    assert(finite(s[0].frame)); assert(finite(s.last().frame));
    match b { Ok(i) => { lemma_tri(s[i as int].frame, frame); 
            if i > 0 { assert(s[0].frame.ieee_le(s[i as int].frame)); lemma_cmp_mono(s[0].frame, s[i as int].frame, frame); }
            if i < s.len() - 1 { assert(s[i as int].frame.ieee_le(s.last().frame)); lemma_cmp_mono(s[i as int].frame, s.last().frame, frame); }
        }, Err(i) => {
        if i < s.len() { assert(key(s[i as int]) == Ordering::Greater); lemma_tri(s[i as int].frame, frame); }
        if i > 0 { assert(key(s[i - 1]) == Ordering::Less); lemma_tri(s[i-1].frame, frame); }
        } }
}
pub proof fn lemma_tri(a: f64, f: f64)
    requires finite(a), finite(f)
    ensures a.ieee_lt(f) || a.ieee_gt(f) || a.ieee_eq(f), a.ieee_lt(f) <==> f.ieee_gt(a), a.ieee_gt(f) <==> f.ieee_lt(a), !(a.ieee_lt(f) && a.ieee_gt(f)), a.ieee_eq(f) ==> !a.ieee_lt(f) && !a.ieee_gt(f)
{
    assert(!a.ieee_is_nan() && !a.ieee_is_infinite() && !f.ieee_is_nan() && !f.ieee_is_infinite() ==>
      (a.ieee_lt(f) || a.ieee_gt(f) || a.ieee_eq(f)) && (a.ieee_lt(f) == f.ieee_gt(a)) && (a.ieee_gt(f) == f.ieee_lt(a)) && !(a.ieee_lt(f) && a.ieee_gt(f)) && (a.ieee_eq(f) ==> !a.ieee_lt(f) && !a.ieee_gt(f))) by(bit_vector);
}
/// P01: the weight is a number in [0,1]
pub proof fn p01_weight(s: Seq<Time>, frame: f64)
    requires s.len() > 0
    ensures !fw_weight(s, frame).ieee_is_nan(), fw_weight(s, frame).ieee_ge(0.0f64), fw_weight(s, frame).ieee_le(1.0f64)
{
    assert(!0.0f64.ieee_is_nan()) by(bit_vector);
    let t0 = s[fw_ix0(s, frame)].frame;
    let t1 = s[fw_ix1(s, frame)].frame;
    lemma_clamp(nz(frame.ieee_sub(t0).ieee_div(t1.ieee_sub(t0))));
}
/// P01: at (or before) the first keyframe, at every keyframe and at (or after) the last keyframe
pub proof fn p01_lookup<T: Tween>(a: Animated<T>, frame: f64)
    requires sorted_times(a.times@), finite(frame), a.times@.len() == a.values@.len(), a.times@.len() <= usize::MAX
    ensures ({ let s = a.times@; let v = a.values@; let i = fw_ix0(s, frame); let j = fw_ix1(s, frame);
        &&& (s.len() == 0 ==> a.at_opt(frame) is None)
        &&& (s.len() > 0 ==> a.at_opt(frame) is Some)
        &&& (s.len() > 0 && frame.ieee_lt(s[0].frame) ==> a.at_opt(frame) == Some(v[0]))
        &&& (s.len() > 0 && frame.ieee_gt(s.last().frame) ==> a.at_opt(frame) == Some(v.last()))
        &&& ((exists|k: int| 0 <= k < s.len() && (#[trigger] s[k]).frame.ieee_eq(frame)) ==> 0 <= i < s.len() && s[i].frame.ieee_eq(frame) && a.at_opt(frame) == Some(v[i]))
        &&& (s.len() > 0 && !frame.ieee_lt(s[0].frame) && !frame.ieee_gt(s.last().frame) && !s[i].frame.ieee_eq(frame) ==>
              0 <= i && j == i + 1 && j < s.len() && s[i].frame.ieee_lt(frame) && frame.ieee_lt(s[j].frame)
              && (s[i].hold ==> a.at_opt(frame) == Some(v[i]))
              && (!s[i].hold ==> a.at_opt(frame) == Some(v[i].tween_spec(&v[j], fw_weight(s, frame), &easing_of(s[i])))))
    })
{
    let s = a.times@; let v = a.values@;
    if s.len() > 0 {
        lemma_search(s, frame);
        let i = fw_ix0(s, frame); let j = fw_ix1(s, frame);
        let t0 = s[i].frame; let t1 = s[j].frame;
        assert(finite(t0)); assert(finite(t1));
        let d0 = frame.ieee_sub(t0); let d1 = t1.ieee_sub(t0);
        if i < j { assert(t0.ieee_le(t1)); } 
        assert(0.0f64.ieee_le(0.0f64)) by(bit_vector);
        lemma_d(frame, t0, t1);
        lemma_clamp(nz(d0.ieee_div(d1)));
        let w = fw_weight(s, frame);
        T::lemma_ends(v[i], v[j], w, easing_of(s[i]));
        T::lemma_ends(v[i], v[j], 0.0f64, easing_of(s[i]));
    }
}
pub proof fn lemma_d(f: f64, t0: f64, t1: f64)
    requires finite(f), finite(t0), finite(t1), !neg_zero(t0), !neg_zero(t1)
    ensures
       !f.ieee_sub(t0).ieee_is_nan(), (t0.ieee_le(t1) || t0 == t1) ==> !nz(f.ieee_sub(t0).ieee_div(t1.ieee_sub(t0))).ieee_is_nan(),
       f.ieee_lt(t0) && (t0.ieee_le(t1) || t0 == t1) ==> nz(f.ieee_sub(t0).ieee_div(t1.ieee_sub(t0))).ieee_le(0.0f64),
       t0.ieee_eq(f) && (t0.ieee_le(t1) || t0 == t1) ==> nz(f.ieee_sub(t0).ieee_div(t1.ieee_sub(t0))).ieee_le(0.0f64),
       f.ieee_gt(t0) && t0 == t1 ==> nz(f.ieee_sub(t0).ieee_div(t1.ieee_sub(t0))).ieee_ge(1.0f64),
{
    let d0 = f.ieee_sub(t0); let d1 = t1.ieee_sub(t0);
    lemma_sub(f, t0);
    lemma_sub(t1, t0);
    lemma_tri(t0, t1);
    lemma_tri(t0, f);
    assert(!t0.ieee_is_nan() && !t0.ieee_is_infinite() ==> t0.ieee_sub(t0).ieee_is_zero() && !t0.ieee_sub(t0).ieee_is_negative() && t0.ieee_eq(t0)) by(bit_vector);
    assert((d0.ieee_lt(0.0f64) || d0.ieee_eq(0.0f64)) ==> d0.ieee_le(0.0f64)) by(bit_vector);
    assert((d1.ieee_gt(0.0f64) || d1.ieee_eq(0.0f64)) ==> d1.ieee_ge(0.0f64) && !d1.ieee_is_nan()) by(bit_vector);
    assert((d0.ieee_lt(0.0f64) || d0.ieee_eq(0.0f64) || d0.ieee_gt(0.0f64)) ==> !d0.ieee_is_nan()) by(bit_vector);
    assert(t0.ieee_le(t1) ==> t0.ieee_lt(t1) || t0.ieee_eq(t1)) by(bit_vector);
    assert(t0.ieee_eq(t1) ==> t1.ieee_eq(t0)) by(bit_vector);
    assert(t0.ieee_eq(f) ==> f.ieee_eq(t0)) by(bit_vector);
    assert(!0.0f64.ieee_is_nan()) by(bit_vector);
    assert(!t0.ieee_is_nan() && !t0.ieee_is_infinite() && !t1.ieee_is_nan() && !t1.ieee_is_infinite() && !(t0.ieee_is_zero() && t0.ieee_is_negative()) && !(t1.ieee_is_zero() && t1.ieee_is_negative()) && t1.ieee_eq(t0) ==> !t1.ieee_sub(t0).ieee_is_negative()) by(bit_vector);
    assert(d1.ieee_gt(0.0f64) ==> !d1.ieee_is_negative()) by(bit_vector);
    if t0.ieee_le(t1) || t0 == t1 { lemma_div_sign(d0, d1); }
}
}

//! How edges leave their shapes and pass their joints.

use super::picture::{ends, make, Case};
use vh::ck;
use vh::ctx::*;
use vh::drive::Flags;
use vh::gen::Opts;
use vh::rec::P2;

fn sub(a: P2, b: P2) -> P2 {
    (a.0 - b.0, a.1 - b.1)
}
fn len(a: P2) -> f64 {
    (a.0 * a.0 + a.1 * a.1).sqrt()
}
fn dot(a: P2, b: P2) -> f64 {
    a.0 * b.0 + a.1 * b.1
}
fn cross(a: P2, b: P2) -> f64 {
    a.0 * b.1 - a.1 * b.0
}
fn unit(a: P2) -> P2 {
    let l = len(a);
    (a.0 / l, a.1 / l)
}

/// Does the curve set out from `end` straight for `next`?
fn sets_out(end: P2, control: P2, next: P2, tol: f64) -> bool {
    let (v, w) = (sub(control, end), sub(next, end));
    if len(w) <= tol * 1e3 {
        // The direction is lost.
        return true;
    }
    len(v) > 0.1 && cross(v, unit(w)).abs() <= tol + 1e-7 * len(v) && dot(v, w) > 0.
}

/// The control point of a joint, the points before and after it.
/// `exact`: `to` is a joint, too, and not the centre of a shape, which is
/// known up to rounding only.
fn joint(ctx: &mut Ctx, from: P2, at: P2, to: P2, exact: bool, control: P2, tol: f64) -> R {
    let v = sub(control, at);
    let (way_in, way_out) = (sub(at, from), sub(to, at));
    let what = || format!("from {:?} through {:?} to {:?}, control {:?}", from, at, to, control);
    if len(way_in) <= tol * 1e3 || len(way_out) <= tol * 1e3 {
        ctx.count("joints_not_judged", 1);
        return Ok(());
    }
    ck!(len(v) > 0.1, "no-direction", "{}", what());
    let (a, b) = (unit((-way_in.0, -way_in.1)), unit((-way_out.0, -way_out.1)));
    let u = unit(v);
    let t = 1e-6 + tol;
    // The way back that bows: at a right angle to the way in.
    if len((a.0 + b.0, a.1 + b.1)) * 30. < 1. + 1e-6 {
        let bow = dot(u, a).abs() <= t;
        let other = len((a.0 + b.0, a.1 + b.1)) * 30. > 1. - 1e-6;
        ck!(bow || other, "no-bow", "{}", what());
        ctx.count("bows", 1);
        return Ok(());
    }
    let k = cross(a, b);
    if k.abs() < 1e-4 {
        if dot(a, b) > 0. {
            ck!(len(sub(u, a)) < 1e-3, "turned", "{}", what());
            ctx.count("straight_joints", 1);
        } else {
            ctx.count("joints_not_judged", 1);
        }
    } else {
        let (x, y) = (cross(u, b) / k, cross(a, u) / k);
        let t = t / k.abs();
        ck!(x >= -t && y >= -t, "turned", "{} {}: {}", x, y, what());
        // It leans to the nearer side, unless one of them is along an axis.
        let axis = |w: P2| w.0 == 0. || w.1 == 0.;
        let skewed = |w: P2| w.0.abs().min(w.1.abs()) > tol;
        if axis(way_in) || (exact && axis(way_out)) {
            let along = |w: P2| axis(w) && cross(u, unit(w)).abs() <= t;
            ck!(along(way_in) || along(way_out), "not-aligned", "{}", what());
            ctx.count("aligned_joints", 1);
        } else if skewed(way_in) && skewed(way_out) {
            let (la, lb) = (len(way_in), len(way_out));
            let (ca, cb) = (dot(u, a), dot(u, b));
            if la < lb * 0.999 {
                ck!(ca >= cb - t, "leans", "{}", what());
            } else if lb < la * 0.999 {
                ck!(cb >= ca - t, "leans", "{}", what());
            }
            ctx.count("leaning_joints", 1);
        } else {
            ctx.count("joints_almost_on_an_axis", 1);
        }
    }
    Ok(())
}

fn judge(ctx: &mut Ctx, c: &Case) -> R {
    let tol = 1e-7 * (1. + c.scene.scale);
    for a in &c.scene.arrows {
        let (f, t) = ends(c, a)?;
        let j = a.joints();
        let k = j.len() - 1;
        let (s, e) = (j[0], j[k]);
        let target = c.scene.nodes[t].center;
        let next = if k == 1 { target } else { j[1] };
        ck!(
            sets_out(s, a.path[0].1, next, tol),
            "start",
            "edge {} ({} -> {}) leaves {:?} by {:?}, not for {:?}",
            a.look.width,
            c.g.nodes[f].name,
            c.g.nodes[t].name,
            s,
            a.path[0].1,
            next
        );
        ck!(
            sets_out(e, a.path[a.path.len() - 1].0, j[k - 1], tol),
            "end",
            "edge {} ({} -> {}) comes to {:?} by {:?}, not from {:?}",
            a.look.width,
            c.g.nodes[f].name,
            c.g.nodes[t].name,
            e,
            a.path[a.path.len() - 1].0,
            j[k - 1]
        );
        ctx.count("ends", 2);
        for i in 1..k {
            let to = if i + 1 == k { target } else { j[i + 1] };
            joint(ctx, j[i - 1], j[i], to, i + 1 < k, a.path[i].0, tol)?;
        }
        if k > 1 {
            ctx.max("joints_of_an_edge", k as u64 - 1);
        }
        // Ends and joints on one line make a straight line.
        if j.iter().all(|p| p.0 == s.0) || j.iter().all(|p| p.1 == s.1) {
            let across = |p: P2| {
                if j.iter().all(|q| q.0 == s.0) {
                    (p.0 - s.0).abs()
                } else {
                    (p.1 - s.1).abs()
                }
            };
            let n = c.scene.nodes[t].center;
            if f != t && across(n) == 0. {
                for p in &a.path[1..] {
                    ck!(across(p.0) <= tol, "not-straight", "{:?}", a.path);
                }
                ck!(across(a.path[0].1) <= tol, "not-straight", "{:?}", a.path);
                ctx.count("straight_edges", 1);
            }
        }
    }
    Ok(())
}

pub fn curves(ctx: &mut Ctx) -> R {
    let th = ctx.thorough();
    let o = Opts::usual(&mut ctx.rng, th);
    let f = Flags::from_bits(*ctx.rng.pick(&[0, 0, 0, 2, 4, 6]));
    let c = make(ctx, &o, f)?;
    judge(ctx, &c)
}

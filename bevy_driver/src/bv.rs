//! Bevy's transform in the same harness as the library's own ones.
use crate::scene::Pl;
use crate::transforms::*;
use crate::util::*;
use auburn::col2d::*;
use bevy::prelude::Transform;
use glam::{Quat, Vec3};

/// Some Z translation; it must never matter.
fn some_z(h: u64) -> f32 { let mut r = Rng::new(h); match r.below(6) { 0 => 0.0, 1 => 1.0, 2 => -3.5, 3 => r.range(-100.0, 100.0) as f32, 4 => 12345.678, _ => (r.log(1e-9, 1e12) * *r.pick(&[1.0, -1.0])) as f32 } }

pub fn tb(p: &Pl) -> Transform {
    let z = some_z(p.pos.0.to_bits() ^ p.pos.1.to_bits().rotate_left(17) ^ (p.ang.to_bits() as u64) << 7);
    Transform { translation: Vec3::new(p.pos.0 as f32, p.pos.1 as f32, z), rotation: Quat::from_rotation_z(p.ang), scale: Vec3::splat(p.k) }
}

impl Build for Transform {
    const NAME: &'static str = "bevy Transform"; const ROT: bool = true; const SCALE: bool = true; const AXES: bool = true;
    fn build(a: &Ask, s: u64) -> Self {
        let (p, k) = (Vec3::new(a.x, a.y, some_z(s)), Vec3::new(a.kx, a.ky, if s % 3 == 0 { 1.0 } else { a.kx }));
        let q = Quat::from_rotation_z(a.ang);
        // the negated quaternion is the same rotation
        let q = if s % 5 == 0 { -q } else { q };
        if s % 2 == 0 { Transform { translation: p, rotation: q, scale: k } } else { Transform::from_translation(p).with_rotation(q).with_scale(k) }
    }
}

/// points and directions there and back; the same after converting to the library's own type
pub fn run_maps(out: &mut Out, o: &crate::scene::Opts) {
    for (id, mut rng) in o.sessions() {
        if rng.chance(0.5) { maps::<Transform>(out, &mut rng, id); } else { maps::<Converted>(out, &mut rng, id); }
    }
}
pub fn run_chains(out: &mut Out, o: &crate::scene::Opts) {
    for (id, mut rng) in o.sessions() {
        if id % 9 == 4 { repeat::<Transform>(out, &mut rng, id); continue; }
        let steps = if o.tier_thorough { rng.int(3, 60) } else { rng.int(3, 24) } as u64;
        chain::<Transform>(out, &mut rng, id, steps);
    }
}

/// A Bevy transform converted to the library's.
pub struct Converted(Transform2d);
impl Build for Converted {
    const NAME: &'static str = "Transform2d from bevy Transform"; const ROT: bool = true; const SCALE: bool = true; const AXES: bool = true;
    fn build(a: &Ask, s: u64) -> Self { Converted(Transform2d::from(Transform::build(a, s))) }
}
impl Transformation2d for Converted {
    fn apply_origin(&self) -> Vec2 { self.0.apply_origin() }
    fn apply(&self, p: Vec2) -> Vec2 { self.0.apply(p) }
    fn unapply(&self, p: Vec2) -> Vec2 { self.0.unapply(p) }
    fn apply_normal(&self, n: Vec2) -> Vec2 { self.0.apply_normal(n) }
    fn unapply_normal(&self, n: Vec2) -> Vec2 { self.0.unapply_normal(n) }
    fn scaling_factor(&self) -> f32 { self.0.scaling_factor() }
}


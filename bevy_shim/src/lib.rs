//! Same paths as the real facade crate.
pub use bevy_ecs as ecs;
pub use bevy_math as math;
pub use bevy_transform as transform;
pub mod prelude {
    pub use bevy_ecs::component::Component;
    pub use bevy_transform::components::{GlobalTransform, Transform};
}

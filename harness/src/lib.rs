pub mod ad;
pub mod custom;
pub mod gen;
pub mod imu;
pub mod kernels;
pub mod la;
pub mod mixed;
pub mod opt;
pub mod rep;
pub mod rng;
pub mod users;
pub mod vars;
pub use la::M;
pub use rep::{Case, Ctx};
pub use rng::Rng;

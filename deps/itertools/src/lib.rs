pub use real::*;
pub use real::{izip, iproduct};

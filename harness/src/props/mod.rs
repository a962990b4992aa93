//! One module per group of properties. Every property is a list of stages; every stage makes cases
//! from the case's random number generator and index, and judges what the code under test did.

pub mod clutter;
pub mod damage;
pub mod image;
pub mod logging;
pub mod many;
pub mod parts;
pub mod pipeline;
pub mod scene;
pub mod symbol;
pub mod util;

use crate::run::Prop;

pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(symbol::props());
    v.extend(image::props());
    v.extend(many::props());
    v.extend(clutter::props());
    v.extend(damage::props());
    v.extend(logging::props());
    v.extend(parts::props());
    v.extend(pipeline::props());
    v.extend(util::props());
    v
}

mod c40;
mod c42;
use crate::fw::Prop;
pub static ALL: &[&Prop] = &[&c40::PROP, &c42::PROP];

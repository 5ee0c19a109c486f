//! Runtime values.
use crate::expr::E;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum V {
    /// concrete, width <= 64
    C(u64),
    /// concrete, 64 < width <= 128
    W(Rc<u128>),
    /// symbolic
    S(E),
    /// aggregate or vector
    A(Rc<[V]>),
}
impl V {
    pub fn wide(v: u128, w: u32) -> V {
        if w <= 64 {
            V::C(v as u64)
        } else {
            V::W(Rc::new(v))
        }
    }
}

//! Bookkeeping shared by paths, and summaries of intercepted functions.
use crate::exec::*;
use crate::term::*;

#[derive(Default)]
pub struct Ideal {
    /// choice variables by (input position, size)
    pub choose: FxMap<u64, T>,
}

type X<A> = Result<A, E>;

pub fn intercept(_e: &mut Engine, _st: &mut State, which: u32, _a: &[V]) -> X<Option<V>> {
    Err(E::Err(format!("no summary for interception {}", which)))
}

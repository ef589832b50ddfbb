//! What the simulator knows without the library: choices, JSON texts, the vocabulary, the
//! reference models and the generators.

pub mod cx;
pub mod dates;
pub mod gen;
pub mod gram;
pub mod io;
pub mod j;
pub mod rules;
pub mod sched;
pub mod tape;

/// One call on a builder.
#[derive(Clone, Debug, PartialEq)]
pub struct Call {
    pub k: String,
    pub name: String,
    pub v: j::J,
}

impl Call {
    pub fn new(k: &str, name: &str, v: j::J) -> Self {
        Call {
            k: k.into(),
            name: name.into(),
            v,
        }
    }
}

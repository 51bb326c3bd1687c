//! An independent, executable description of what a run of the command must do.
pub mod data;
pub mod expand;
pub mod formats;
pub mod lang;
pub mod markup;
pub mod time;
pub mod world;

pub use expand::{build_all, Outcome};

/// Why a build stopped.
#[derive(Clone, Debug)]
pub enum Stop {
    /// The build fails; the place the diagnostic has to name.
    Fail(Loc, String),
    /// The model does not describe this case.
    Skip(String),
}

/// (normalised path, line, column)
pub type Loc = (String, u32, u32);

pub type R<T> = Result<T, Stop>;

pub fn skip<T>(why: &str) -> R<T> { Err(Stop::Skip(why.into())) }

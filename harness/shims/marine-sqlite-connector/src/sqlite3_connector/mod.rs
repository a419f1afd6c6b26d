mod consts;
mod import_functions;

pub(crate) use self::consts::*;
pub use self::import_functions::*;

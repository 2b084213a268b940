//! Stub: (de)serialisation is outside every symbolic claim; the derives expand to nothing.
pub use serde_derive::{Deserialize, Serialize};

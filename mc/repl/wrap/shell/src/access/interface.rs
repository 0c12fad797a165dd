//! What the harness uses of the interface.
pub use super::{run, Cancelled, Completer, Completion, CompletionType, Config, ConfigUpdate, Input, TabId};
pub use super::events::{Event, KeyCode, KeyModifiers};

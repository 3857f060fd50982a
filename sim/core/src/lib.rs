//! The code of the simulated programs: item types, the three stages behind one interface, buffers of every variant.
//! Compiled with access callbacks, as are the instance crates in ../inst, which monomorphise it (one crate per item
//! type and storage, so that they build in parallel).
#![allow(static_mut_refs, clippy::missing_safety_doc, clippy::new_without_default, clippy::too_many_arguments)]
pub mod items;
pub mod stage;
pub mod world;
pub use mutringbuf;

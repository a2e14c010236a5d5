//! The real database.rs over a contract of the store.
#![allow(static_mut_refs, dead_code)]
#[path = "/repo/vru-node/src/database.rs"]
pub mod database;
pub mod bodies;

vnd::harnesses! {
    key_history,
    key_failure,
}

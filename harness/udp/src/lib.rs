//! The real dispatcher of vru-udp over contracts of threads, channels, sockets and the handshake.
#![allow(static_mut_refs, dead_code, unused_imports, unused_variables)]
extern crate model_std as std;
/// the text of an event is not specified
macro_rules! format {
    ($f:literal $(, $a:expr)* $(,)?) => {{
        $(let _ = &$a;)*
        String::new()
    }};
}
#[path = "/repo/vru-udp/src/lib.rs"]
pub mod udp;
pub mod bodies;

vnd::harnesses! {
    dial_answer,
    dial_refused,
    dial_other,
    dial_error,
    dial_twice,
    dial_two,
    dial_once,
    local_commands,
    shutdown,
}

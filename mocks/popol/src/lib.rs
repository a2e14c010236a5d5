#![allow(static_mut_refs)]
use model_std::ghost;
use model_std::io;
use std::{marker::PhantomData, time::Duration};
pub mod interest {
    pub type Interest = i16;
    pub const READ: Interest = 1;
    pub const WRITE: Interest = 4;
    pub const ALL: Interest = 5;
}
pub struct Sources<T>(PhantomData<T>);
pub struct Events<T>(PhantomData<T>);
impl<T> Events<T> {
    pub fn with_capacity(_: usize) -> Self {
        Events(PhantomData)
    }
    pub fn new() -> Self {
        Events(PhantomData)
    }
}
impl<T> Sources<T> {
    pub fn with_capacity(_: usize) -> Self {
        Sources(PhantomData)
    }
    pub fn new() -> Self {
        Sources(PhantomData)
    }
    pub fn register<S>(&mut self, _: T, _: &S, _: interest::Interest) {}
    pub fn wait_timeout(&mut self, _: &mut Events<T>, _: Duration) -> Result<(), io::Error> {
        unsafe {
            ghost::WAITS += 1;
            if ghost::WAITS > 4 {
                panic!("model limit: waits after the node was told to stop");
            }
            if let Some(f) = ghost::BEFORE {
                f(ghost::NEXT);
            }
            if ghost::NEXT < ghost::MAX && ghost::SCRIPT[ghost::NEXT].is_some() {
                Ok(())
            } else {
                Err(io::Error::from(io::ErrorKind::TimedOut))
            }
        }
    }
}

//! std as the dispatcher of a node sees it: everything is the real std, except
//! - threads: the body of a thread runs when the thread is joined (it is only ever joined at the end);
//! - channels: a queue; receiving from an empty queue ends if there is no sender, and never returns if there is one;
//! - locks: taking a lock twice never returns;
//! - maps: association lists;
//! - UDP sockets: datagrams arrive as scripted (`ghost`), sent ones are recorded.
#![allow(static_mut_refs, clippy::all)]
pub use std::*;

pub mod ghost {
    use std::net::SocketAddr;
    #[derive(Clone, Copy)]
    pub struct Arrival {
        pub from: SocketAddr,
        pub length: usize,
        pub head: [u8; 16],
        pub fails: bool,
    }
    pub const MAX: usize = 3;
    pub static mut SCRIPT: [Option<Arrival>; MAX] = [None; MAX];
    pub static mut NEXT: usize = 0;
    /// called before the thread waits for a datagram
    pub static mut BEFORE: Option<fn(usize)> = None;
    pub static mut WAITS: usize = 0;
    pub static mut SENT: usize = 0;
    pub static mut SENT_TO: [Option<SocketAddr>; MAX] = [None; MAX];
    pub static mut SENT_LEN: [usize; MAX] = [0; MAX];
    pub static mut SENT_BYTES: [u8; 1280] = [0; 1280];
    pub static mut SEND_FAILS: bool = false;
    pub static mut BIND_FAILS: bool = false;
    /// a thread that would wait for a message waits for ever, and the others go on
    pub static mut PARKS: bool = false;
    static mut THREADS: usize = 0;
    static mut TASKS: [Option<(*mut u8, fn(*mut u8))>; 2] = [None; 2];
    pub(crate) fn stepped() -> bool {
        unsafe { PARKS }
    }
    pub(crate) fn register(task: *mut u8, run: fn(*mut u8)) {
        unsafe {
            if THREADS == TASKS.len() {
                panic!("model limit: threads");
            }
            TASKS[THREADS] = Some((task, run));
            THREADS += 1;
        }
    }
    /// runs a thread that was started
    pub fn run(n: usize) {
        unsafe {
            match TASKS[n] {
                Some((task, run)) => run(task),
                None => panic!("model limit: no such thread"),
            }
        }
    }
    pub fn reset() {
        unsafe {
            SCRIPT = [None; MAX];
            NEXT = 0;
            BEFORE = None;
            WAITS = 0;
            SENT = 0;
            SENT_TO = [None; MAX];
            SENT_LEN = [0; MAX];
            SEND_FAILS = false;
            BIND_FAILS = false;
            PARKS = false;
            THREADS = 0;
            TASKS = [None; 2];
        }
    }
}

/// an error is its kind
pub mod io {
    pub use std::io::ErrorKind;
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub struct Error(ErrorKind);
    pub type Result<T> = std::result::Result<T, Error>;
    impl Error {
        pub fn kind(&self) -> ErrorKind {
            self.0
        }
    }
    impl From<ErrorKind> for Error {
        fn from(k: ErrorKind) -> Self {
            Error(k)
        }
    }
    impl std::fmt::Display for Error {
        fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            Ok(())
        }
    }
    impl std::error::Error for Error {}
}

pub mod net {
    use super::{ghost, io};
    pub use std::net::*;
    pub struct UdpSocket(());
    impl UdpSocket {
        pub fn bind<A>(_: A) -> io::Result<Self> {
            if unsafe { ghost::BIND_FAILS } {
                return Err(io::Error::from(io::ErrorKind::AddrInUse));
            }
            Ok(UdpSocket(()))
        }
        pub fn recv_from(&self, buf: &mut [u8]) -> io::Result<(usize, SocketAddr)> {
            unsafe {
                let n = ghost::NEXT;
                let a = match ghost::SCRIPT[n] {
                    Some(a) => a,
                    None => panic!("model limit: receives although nothing arrived"),
                };
                ghost::NEXT = n + 1;
                if a.fails {
                    return Err(io::Error::from(io::ErrorKind::ConnectionRefused));
                }
                if buf.len() < 16 {
                    panic!("model limit: small buffer");
                }
                buf[..16].copy_from_slice(&a.head);
                Ok((if a.length < buf.len() { a.length } else { buf.len() }, a.from))
            }
        }
        pub fn send_to(&self, buf: &[u8], to: SocketAddr) -> io::Result<usize> {
            unsafe {
                if ghost::SENT >= ghost::MAX {
                    panic!("model limit: more datagrams than arrivals");
                }
                ghost::SENT_TO[ghost::SENT] = Some(to);
                ghost::SENT_LEN[ghost::SENT] = buf.len();
                ghost::SENT += 1;
                if buf.len() == 1280 {
                    ghost::SENT_BYTES.copy_from_slice(buf);
                }
                if ghost::SEND_FAILS {
                    return Err(io::Error::from(io::ErrorKind::PermissionDenied));
                }
            }
            Ok(buf.len())
        }
    }
}

pub mod thread {
    use super::io;
    /// panics are not caught here
    #[derive(Debug)]
    pub struct Panicked;
    pub type Result<T> = std::result::Result<T, Panicked>;
    pub(crate) trait Task<T> {
        fn run(&mut self) -> T;
    }
    struct Once<F>(Option<F>);
    impl<T, F: FnOnce() -> T> Task<T> for Once<F> {
        fn run(&mut self) -> T {
            match self.0.take() {
                Some(f) => f(),
                None => panic!("model limit: joins a thread that was stepped"),
            }
        }
    }
    /// a thread that is never joined is left where it is
    pub struct JoinHandle<T>(std::mem::ManuallyDrop<Box<dyn Task<T> + Send>>);
    impl<T> JoinHandle<T> {
        pub fn join(mut self) -> Result<T> {
            Ok(self.0.run())
        }
    }
    fn step<T, F: FnOnce() -> T>(task: *mut u8) {
        let task = task as *mut Once<F>;
        unsafe {
            match (*task).0.take() {
                Some(f) => drop(f()),
                None => panic!("model limit: a thread that was run"),
            }
        }
    }
    pub fn spawn<F: FnOnce() -> T + Send + 'static, T: Send + 'static>(f: F) -> JoinHandle<T> {
        let mut task = Box::new(Once(Some(f)));
        if super::ghost::stepped() {
            super::ghost::register((&mut *task as *mut Once<F>).cast(), step::<T, F>);
        }
        JoinHandle(std::mem::ManuallyDrop::new(task))
    }
    #[derive(Default)]
    pub struct Builder;
    impl Builder {
        pub fn new() -> Self {
            Builder
        }
        pub fn name(self, _: String) -> Self {
            self
        }
        pub fn spawn<F: FnOnce() -> T + Send + 'static, T: Send + 'static>(self, f: F) -> io::Result<JoinHandle<T>> {
            Ok(spawn(f))
        }
    }
}

pub mod sync {
    pub use self::mutex::{Mutex, MutexGuard};
    pub use std::sync::*;
    mod mutex {
        use std::cell::{Cell, UnsafeCell};
        use std::ops::{Deref, DerefMut};
        use std::sync::LockResult;
        pub struct Mutex<T>(UnsafeCell<T>, Cell<bool>);
        unsafe impl<T: Send> Send for Mutex<T> {}
        unsafe impl<T: Send> Sync for Mutex<T> {}
        pub struct MutexGuard<'a, T>(&'a Mutex<T>);
        impl<T> Mutex<T> {
            pub fn new(t: T) -> Self {
                Mutex(UnsafeCell::new(t), Cell::new(false))
            }
            pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
                assert!(!self.1.get(), "deadlock: takes a lock that is taken");
                self.1.set(true);
                Ok(MutexGuard(self))
            }
        }
        impl<T: Default> Default for Mutex<T> {
            fn default() -> Self {
                Mutex::new(T::default())
            }
        }
        impl<T> Drop for MutexGuard<'_, T> {
            fn drop(&mut self) {
                self.0 .1.set(false)
            }
        }
        impl<T> Deref for MutexGuard<'_, T> {
            type Target = T;
            fn deref(&self) -> &T {
                unsafe { &*self.0 .0.get() }
            }
        }
        impl<T> DerefMut for MutexGuard<'_, T> {
            fn deref_mut(&mut self) -> &mut T {
                unsafe { &mut *self.0 .0.get() }
            }
        }
    }
    pub mod mpsc {
        use std::cell::UnsafeCell;
        use std::mem::ManuallyDrop;
        pub use std::sync::mpsc::{RecvError, SendError, TryRecvError};
        const N: usize = 8;
        struct Queue<T> {
            items: [*mut ManuallyDrop<T>; N],
            first: usize,
            last: usize,
            senders: usize,
            receiver: bool,
            parked: bool,
        }
        // never given back
        struct Shared<T>(*const UnsafeCell<Queue<T>>);
        impl<T> Shared<T> {
            fn get(&self) -> &mut Queue<T> {
                unsafe { &mut *(*self.0).get() }
            }
        }
        pub struct Sender<T>(Shared<T>);
        pub struct Receiver<T>(Shared<T>);
        unsafe impl<T: Send> Send for Sender<T> {}
        unsafe impl<T: Send> Sync for Sender<T> {}
        unsafe impl<T: Send> Send for Receiver<T> {}
        pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
            let q = Queue { items: [std::ptr::null_mut(); N], first: 0, last: 0, senders: 1, receiver: true, parked: false };
            let q: *const _ = Box::leak(Box::new(UnsafeCell::new(q)));
            (Sender(Shared(q)), Receiver(Shared(q)))
        }
        impl<T> Clone for Sender<T> {
            fn clone(&self) -> Self {
                self.0.get().senders += 1;
                Sender(Shared(self.0 .0))
            }
        }
        impl<T> Drop for Sender<T> {
            fn drop(&mut self) {
                self.0.get().senders -= 1;
            }
        }
        impl<T> Drop for Receiver<T> {
            fn drop(&mut self) {
                let q = self.0.get();
                if !q.parked {
                    q.receiver = false;
                }
            }
        }
        impl<T> Sender<T> {
            pub fn send(&self, t: T) -> Result<(), SendError<T>> {
                let q = self.0.get();
                if !q.receiver {
                    return Err(SendError(t));
                }
                if q.last == N {
                    panic!("model limit: messages in one queue");
                }
                q.items[q.last] = Box::leak(Box::new(ManuallyDrop::new(t)));
                q.last += 1;
                Ok(())
            }
        }
        impl<T> Receiver<T> {
            pub fn recv(&self) -> Result<T, RecvError> {
                let q = self.0.get();
                if q.first == q.last {
                    if q.senders > 0 && unsafe { crate::ghost::PARKS } {
                        q.parked = true;
                        return Err(RecvError);
                    }
                    assert!(q.senders == 0, "deadlock: waits for a message that nobody sends");
                    return Err(RecvError);
                }
                q.first += 1;
                Ok(unsafe { ManuallyDrop::take(&mut *q.items[q.first - 1]) })
            }
            pub fn try_recv(&self) -> Result<T, TryRecvError> {
                let q = self.0.get();
                if q.first == q.last {
                    return Err(if q.senders == 0 { TryRecvError::Disconnected } else { TryRecvError::Empty });
                }
                q.first += 1;
                Ok(unsafe { ManuallyDrop::take(&mut *q.items[q.first - 1]) })
            }
        }
    }
}

pub mod collections {
    pub use self::map::HashMap;
    pub use std::collections::*;
    mod map {
        const N: usize = 3;
        /// an association list
        pub struct HashMap<K, V>([Option<Box<(K, V)>>; N]);
        impl<K: Eq, V> HashMap<K, V> {
            pub fn new() -> Self {
                HashMap([None, None, None])
            }
            fn find(&self, k: &K) -> usize {
                let mut i = 0;
                while i < N {
                    if let Some(e) = &self.0[i] {
                        if e.0 == *k {
                            return i;
                        }
                    }
                    i += 1;
                }
                N
            }
            pub fn contains_key(&self, k: &K) -> bool {
                self.find(k) < N
            }
            pub fn len(&self) -> usize {
                self.0[0].is_some() as usize + self.0[1].is_some() as usize + self.0[2].is_some() as usize
            }
            pub fn is_empty(&self) -> bool {
                self.len() == 0
            }
            pub fn get(&self, k: &K) -> Option<&V> {
                match self.find(k) {
                    N => None,
                    i => self.0[i].as_ref().map(|e| &e.1),
                }
            }
            pub fn get_mut(&mut self, k: &K) -> Option<&mut V> {
                match self.find(k) {
                    N => None,
                    i => self.0[i].as_mut().map(|e| &mut e.1),
                }
            }
            pub fn remove(&mut self, k: &K) -> Option<V> {
                match self.find(k) {
                    N => None,
                    i => self.0[i].take().map(|e| e.1),
                }
            }
            pub fn insert(&mut self, k: K, v: V) -> Option<V> {
                let i = self.find(&k);
                if i < N {
                    let old = self.0[i].take();
                    self.0[i] = Some(Box::new((k, v)));
                    return old.map(|e| e.1);
                }
                let mut i = 0;
                while i < N {
                    if self.0[i].is_none() {
                        self.0[i] = Some(Box::new((k, v)));
                        return None;
                    }
                    i += 1;
                }
                panic!("model limit: entries of a map")
            }
            pub fn iter(&self) -> impl Iterator<Item = (&K, &V)> {
                self.0.iter().filter_map(|e| e.as_ref().map(|e| (&e.0, &e.1)))
            }
            pub fn keys(&self) -> impl Iterator<Item = &K> {
                self.iter().map(|e| e.0)
            }
            pub fn values(&self) -> impl Iterator<Item = &V> {
                self.iter().map(|e| e.1)
            }
            pub fn clear(&mut self) {
                self.0 = [None, None, None];
            }
            pub fn drain(&mut self) -> Entries<K, V> {
                Entries(std::mem::replace(&mut self.0, [None, None, None]), 0)
            }
        }
        impl<K: Eq, V> Default for HashMap<K, V> {
            fn default() -> Self {
                HashMap::new()
            }
        }
        pub struct Entries<K, V>([Option<Box<(K, V)>>; N], usize);
        impl<K, V> Iterator for Entries<K, V> {
            type Item = (K, V);
            fn next(&mut self) -> Option<(K, V)> {
                while self.1 < N {
                    self.1 += 1;
                    if let Some(e) = self.0[self.1 - 1].take() {
                        return Some(*e);
                    }
                }
                None
            }
        }
        impl<K, V> IntoIterator for HashMap<K, V> {
            type Item = (K, V);
            type IntoIter = Entries<K, V>;
            fn into_iter(self) -> Entries<K, V> {
                Entries(self.0, 0)
            }
        }
    }
}

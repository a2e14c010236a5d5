use crate::udp::*;
use model_std::ghost::{self, Arrival};
use std::net::SocketAddr;
use std::sync::{
    atomic::{AtomicBool, Ordering},
    Arc,
};
use vnd::{any, assume, bytes, check};
use vru_session::{ghost as hs, handshake::*};

pub const SIZE: usize = 1280;
/// a few addresses
fn address(k: u8) -> SocketAddr {
    SocketAddr::from(([10, 0, 0, k], 7000))
}
fn start() {
    ghost::reset();
    unsafe {
        hs::CALLS = 0;
        rand::ghost::TOKEN = bytes();
        rand::ghost::DRAWN = 0;
    }
}
static mut RUNNING: Option<Arc<AtomicBool>> = None;
static mut NODE: Option<*const Node> = None;
fn stop() {
    unsafe {
        if let Some(r) = &RUNNING {
            r.store(false, Ordering::Release)
        }
    }
}
fn with(f: impl Fn(&Node)) {
    unsafe {
        if let Some(n) = NODE {
            f(&*n)
        }
    }
}
fn spawn() -> Option<(Node, NodeRef)> {
    let running = Arc::new(AtomicBool::new(true));
    unsafe { RUNNING = Some(running.clone()) }
    Node::spawn(SecretKey(hs::KEY), PublicKey(hs::KEY), 7000, running).ok()
}
/// is the datagram that was sent the first message of the handshake?
fn is_first_message() -> bool {
    unsafe {
        let mut d = 0;
        let mut i = 0;
        while i < 1120 {
            d |= ghost::SENT_BYTES[i] ^ hs::MESSAGE[i];
            i += 1;
        }
        let mut drawn = 0xff;
        let mut i = 0;
        while i < 96 {
            drawn &= hs::SEED[i];
            i += 1;
        }
        d == 0 && drawn & 0xc0 == 0xc0
    }
}
struct Seen {
    frame: usize,
    failed: usize,
    read: usize,
    write: usize,
    address: Option<SocketAddr>,
    length: usize,
}
/// all events
fn events(r: &NodeRef) -> Seen {
    let mut s = Seen { frame: 0, failed: 0, read: 0, write: 0, address: None, length: 0 };
    let mut i = 0;
    while i < 8 {
        let e = std::mem::ManuallyDrop::new(r.try_recv());
        match &*e {
            Ok(Some(Event::Error(e))) => match e {
                Error::FrameSize(a, l) => {
                    s.frame += 1;
                    s.address = Some(*a);
                    s.length = *l
                }
                Error::ConnectionFailed(a) => {
                    s.failed += 1;
                    s.address = Some(*a)
                }
                Error::ReadSocket(_) => s.read += 1,
                Error::WriteTo(a, _) => {
                    s.write += 1;
                    s.address = Some(*a)
                }
            },
            Ok(Some(_)) => (),
            _ => break,
        }
        i += 1;
    }
    s
}
const END_AFTER_ONE: u8 = 0;
fn end_after_one(n: usize) {
    if n == 1 {
        stop()
    }
}
/// one dialled address, one arrival
fn dialled(to: u8, a: Arrival, pi: u8) -> Seen {
    unsafe {
        ghost::SCRIPT[0] = Some(a);
        SCENE = END_AFTER_ONE;
        ghost::BEFORE = Some(before);
    }
    let (node, r) = match spawn() {
        Some(x) => x,
        None => {
            check!(false, "the node starts");
            assume(false);
            unreachable!()
        }
    };
    node.command(Command::Connect { peer_pi: Identity(pi), address: address(to) });
    node.join();
    events(&r)
}
/// the dialled address answers
pub fn dial_answer() {
    start();
    let a = Arrival { from: address(1), length: SIZE, head: bytes(), fails: false };
    let pi = any();
    let seen = dialled(1, a, pi);
    unsafe {
        check!(ghost::SENT == 1, "a whole datagram from the dialled address is answered once");
        check!(ghost::SENT_TO[0] == Some(address(1)) && ghost::SENT_LEN[0] == SIZE, "one whole datagram to the dialled address");
        check!(hs::CALLS == 1 && hs::PI == pi, "the handshake with the dialled identity");
        check!(is_first_message(), "the whole first message, made from a seed that was drawn");
        check!(seen.write == 0 && seen.read == 0 && seen.frame == 0 && seen.failed == 0, "nothing to report");
    }
}
pub fn dial_refused() {
    start();
    unsafe { ghost::SEND_FAILS = true }
    let a = Arrival { from: address(1), length: SIZE, head: bytes(), fails: false };
    let seen = dialled(1, a, any());
    unsafe {
        check!(ghost::SENT == 1 && seen.write == 1 && seen.address == Some(address(1)), "a failure to send is reported");
    }
}
/// anything else arrives
pub fn dial_other() {
    start();
    let mut from = address(any());
    from.set_port(any());
    let length: u16 = any();
    // what is longer than a datagram arrives cut
    assume(from != address(1) || (length as usize) < SIZE);
    let seen = dialled(1, Arrival { from, length: length as usize, head: bytes(), fails: false }, any());
    let length = if length as usize > SIZE { SIZE } else { length as usize };
    unsafe {
        check!(ghost::SENT == 0 && hs::CALLS == 0, "only a whole datagram from the dialled address is answered");
        check!(seen.write == 0 && seen.read == 0 && seen.failed == 0, "nothing else to report");
        check!(seen.frame == (length != SIZE) as usize, "a datagram of another length is reported");
        check!(seen.frame == 0 || seen.address == Some(from) && seen.length == length, "with its origin and length");
    }
}
pub fn dial_error() {
    start();
    let a = Arrival { from: address(1), length: SIZE, head: bytes(), fails: true };
    let seen = dialled(1, a, any());
    unsafe { check!(ghost::SENT == 0 && seen.read == 1 && seen.frame == 0, "a failure to receive is reported") }
}

fn command(pi: u8) {
    with(|n| n.command(Command::Local { destination: Identity(pi), command: LocalCommand::SendText(String::new()) }))
}
fn must_spawn() -> (Node, NodeRef) {
    match spawn() {
        Some(x) => x,
        None => {
            check!(false, "the node starts");
            assume(false);
            unreachable!()
        }
    }
}
fn arrival(from: u8) -> Arrival {
    let head = bytes();
    // nobody guesses the token of a connection
    unsafe { assume(head != rand::ghost::TOKEN) }
    Arrival { from: address(from), length: SIZE, head, fails: false }
}
/// a second connection to an address that is pending: refused, and the first stays
pub fn dial_twice() {
    start();
    let (first, second) = (any(), any());
    unsafe {
        ghost::SCRIPT[0] = Some(arrival(1));
        SCENE = END_AFTER_ONE;
        ghost::BEFORE = Some(before);
    }
    let (node, r) = must_spawn();
    node.command(Command::Connect { peer_pi: Identity(first), address: address(1) });
    node.command(Command::Connect { peer_pi: Identity(second), address: address(1) });
    node.join();
    let seen = events(&r);
    unsafe {
        check!(seen.failed == 1 && seen.address == Some(address(1)), "the second one is refused");
        check!(ghost::SENT == 1 && hs::CALLS == 1 && hs::PI == first, "the first one is answered");
    }
}
/// two dialled addresses: each is answered for its own identity
const AFTER_TWO: u8 = 1;
fn after_two(n: usize) {
    unsafe {
        if n == 1 {
            FIRST = hs::PI;
        }
        if n == 3 {
            stop()
        }
    }
}
static mut FIRST: u8 = 0;
pub fn dial_two() {
    start();
    let (one, two): (u8, u8) = (any(), any());
    assume(one != two);
    let swap: bool = any();
    let (x, y) = if swap { (2, 1) } else { (1, 2) };
    unsafe {
        ghost::SCRIPT[0] = Some(arrival(x));
        ghost::SCRIPT[1] = Some(arrival(y));
        // one of them speaks again
        ghost::SCRIPT[2] = Some(arrival(1 + any::<bool>() as u8));
        SCENE = AFTER_TWO;
        ghost::BEFORE = Some(before);
    }
    let (node, _r) = must_spawn();
    node.command(Command::Connect { peer_pi: Identity(one), address: address(1) });
    node.command(Command::Connect { peer_pi: Identity(two), address: address(2) });
    node.join();
    unsafe {
        check!(ghost::SENT == 2 && hs::CALLS == 2, "both are answered once");
        check!(ghost::SENT_TO[0] == Some(address(x)) && ghost::SENT_TO[1] == Some(address(y)), "each at its address");
        check!(FIRST == (if swap { two } else { one }) && hs::PI == (if swap { one } else { two }), "each for its identity");
    }
}
/// the dialled address speaks twice: it is answered once
const AFTER_SECOND: u8 = 2;
fn after_second(n: usize) {
    if n == 2 {
        stop()
    }
}
pub fn dial_once() {
    start();
    unsafe {
        ghost::SCRIPT[0] = Some(arrival(1));
        ghost::SCRIPT[1] = Some(arrival(1));
        SCENE = AFTER_SECOND;
        ghost::BEFORE = Some(before);
    }
    let (node, _r) = must_spawn();
    node.command(Command::Connect { peer_pi: Identity(any()), address: address(1) });
    node.join();
    unsafe { check!(ghost::SENT == 1 && hs::CALLS == 1, "answered once") }
}
/// commands to a peer, at any time
const COMMANDS: u8 = 3;
fn commands(n: usize) {
    unsafe {
        if n == 0 {
            command(7);
        }
        if n == 1 {
            command(7);
            ghost::run(1);
            command(7);
            command(8);
        }
        if n == 2 {
            stop()
        }
    }
}
pub fn local_commands() {
    start();
    let known: bool = any();
    unsafe {
        ghost::PARKS = true;
        ghost::SCRIPT[0] = Some(arrival(1));
        let mut a = arrival(1);
        if known {
            a.head = rand::ghost::TOKEN;
        }
        ghost::SCRIPT[1] = Some(a);
        SCENE = COMMANDS;
        ghost::BEFORE = Some(before);
    }
    let (node, r) = must_spawn();
    node.command(Command::Connect { peer_pi: Identity(7), address: address(1) });
    unsafe { NODE = Some(&node) }
    ghost::run(0);
    unsafe {
        NODE = None;
        check!(ghost::SENT == 1, "commands do not disturb the node");
    }
    std::mem::forget(node);
    let seen = events(&r);
    check!(seen.frame + seen.failed + seen.read + seen.write == 0, "nothing to report");
}
/// the node is told to stop while a datagram is processed
const STOP_NOW: u8 = 4;
fn stop_now(n: usize) {
    stop()
}
pub fn shutdown() {
    start();
    let from: bool = any();
    unsafe {
        ghost::SCRIPT[0] = Some(arrival(from as u8));
        SCENE = STOP_NOW;
        ghost::BEFORE = Some(before);
    }
    let (node, r) = must_spawn();
    node.command(Command::Connect { peer_pi: Identity(any()), address: address(1) });
    node.join();
    unsafe { check!(ghost::SENT == from as usize, "the datagram is processed") }
}

static mut SCENE: u8 = 0;
/// what happens while the node waits for a datagram
fn before(n: usize) {
    match unsafe { SCENE } {
        END_AFTER_ONE => end_after_one(n),
        AFTER_TWO => after_two(n),
        AFTER_SECOND => after_second(n),
        COMMANDS => commands(n),
        _ => stop_now(n),
    }
}

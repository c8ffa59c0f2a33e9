//! The simulated world: one process holding one or more real ruq sessions, each connected to a
//! simulated broker over a simulated TCP connection. A single loop, driven by the scenario's
//! seed, decides which of the enabled actors acts next and when time moves.

use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::future::Future;
use std::io;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

use futures::channel::mpsc::Receiver;
use futures::Stream;
use ruq::{Client, Notification, Property, PublishBuilder, QoS};
use tokio::sim::{Connecting, Socket};

use crate::mem;
use crate::mqtt::{self, In, InParser, InPub, Out, OutParser, Prop};
use crate::prng::{hash, mix, Rng};
use crate::scenario::{Cfg, Op, Scenario, K};
use crate::seal;

pub const SLACK: u64 = 60;
/// How far the run of this process has come.
pub static STEPS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
const MAX_STEPS: u64 = 1_500_000;

// ------------------------------------------------------------------ waking

thread_local! {
    static MAIN: RefCell<Option<Waker>> = const { RefCell::new(None) };
    static WAKES: Cell<u64> = const { Cell::new(0) };
    static WORLD: RefCell<Option<World>> = const { RefCell::new(None) };
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

#[derive(Default)]
pub struct Flag {
    set: AtomicBool,
    gen: AtomicU64,
}

struct WakeOn {
    flag: Arc<Flag>,
    gen: u64,
}

impl Wake for WakeOn {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        if self.flag.gen.load(Relaxed) == self.gen {
            self.flag.set.store(true, Relaxed);
            let _ = WAKES.try_with(|w| w.set(w.get() + 1));
            let _ = MAIN.try_with(|m| {
                if let Some(w) = m.borrow().as_ref() {
                    w.wake_by_ref()
                }
            });
        }
    }
}

impl Flag {
    fn get(&self) -> bool {
        self.set.load(Relaxed)
    }
    fn put(&self, v: bool) {
        self.set.store(v, Relaxed)
    }
    fn waker(self: &Arc<Self>, fresh: bool) -> Waker {
        if fresh {
            self.gen.fetch_add(1, Relaxed);
        }
        Waker::from(Arc::new(WakeOn { flag: self.clone(), gen: self.gen.load(Relaxed) }))
    }
}

// ------------------------------------------------------------------ state

type Loop = Pin<Box<dyn Future<Output = anyhow::Result<()>>>>;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Conn {
    Idle,
    Connecting(u64),
    Open,
    Failed,
}

enum Seg {
    Bytes(Vec<u8>),
    Eof,
    Reset,
}

enum BOut {
    Bytes(Vec<u8>, &'static str),
    Eof,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Pub1,
    Pub2,
    Sub,
    Unsub,
}

#[derive(Clone, Debug)]
struct Req {
    n: u64,
    /// Its content is not its own, see SHARED.
    shared: bool,
    k: K,
    qos: u8,
    topic: Vec<u8>,
    payload: Vec<u8>,
    props: Vec<Prop>,
}

impl Req {
    fn needs_id(&self) -> bool {
        matches!(self.k, K::Sub | K::Unsub) || (self.k == K::Pub && self.qos > 0)
    }
    /// What it takes to hold it.
    fn size(&self) -> usize {
        let props = self.props.iter().map(|p| match p {
            Prop::Str(_, x) | Prop::Bin(_, x) => x.len(),
            Prop::Pair(_, x, y) => x.len() + y.len(),
            _ => 0,
        });
        // vectors and strings may have up to twice the room they need
        400 + 2 * (self.topic.len() + self.payload.len() + props.map(|n| n + 64).sum::<usize>())
    }
    fn brief(&self) -> String {
        match self.k {
            K::Disc => "disconnect".into(),
            _ => format!("{} #{} qos={} topic={}B payload={}B", self.k.name(), self.n, self.qos, self.topic.len(), self.payload.len()),
        }
    }
}

#[derive(Clone, Debug)]
enum Exp {
    Connack { present: bool, reason: u8, props: Vec<Prop> },
    Publish(InPub),
    Suback { id: u16, reason: u8, props: Vec<Prop> },
    Unsuback { id: u16, reason: u8, props: Vec<Prop> },
}

struct Q1 {
    id: u16,
    exp: usize,
    gap: u64,
    mark: u64,
}

#[derive(Clone, Debug, PartialEq)]
enum Term {
    Refused(u8),
    WrongFirst(&'static str),
    Disconnect(u8),
    Malformed(&'static str),
    Unsupported(u8),
}

#[derive(Clone, Debug, PartialEq)]
enum End {
    Ok,
    Err { timed_out: bool, text: String },
    Panic(String),
    Dropped,
}

#[derive(Clone, Copy, PartialEq)]
enum Accept {
    No,
    Yes(u64),
}

pub struct Sess {
    cfg: Cfg,
    nrng: Rng,
    // connection and transport
    conn: Conn,
    conn_waker: Option<Waker>,
    rbuf: VecDeque<u8>,
    r_eof: bool,
    r_err: bool,
    r_waker: Option<Waker>,
    consumed: u64,
    eof_seen: bool,
    rkind: u32,
    wkind: u32,
    rerr_seen: bool,
    werr: bool,
    werr_seen: bool,
    w_waker: Option<Waker>,
    w_pending: bool,
    total_out: u64,
    taken: u64,
    take_at: u64,
    take_stall: u64,
    wr_closed: bool,
    rd_dropped: bool,
    idle_calls: u32,
    net: VecDeque<(u64, Seg)>,
    net_hold: u64,
    last_at: u64,
    // broker
    bq: BTreeMap<(u64, u64), BOut>,
    b_closed: bool,
    connected_to_broker: bool,
    held: Vec<(u8, u16)>,
    hold: bool,
    last_acked: Option<(u8, u16)>,
    ping_drop: u32,
    ping_delay: u32,
    next_bid: u16,
    takeq: VecDeque<(Out, u64)>,
    bmsg: u64,
    // application
    handles: Vec<Option<Client>>,
    created: u64,
    rx: Option<Receiver<Notification>>,
    rx_dropped: bool,
    handed_at_drop: usize,
    paused: bool,
    cons_ms: u32,
    cons_next: u64,
    cons_flag: Arc<Flag>,
    stream_ended: bool,
    inflood: u32,
    inflood_qos: u8,
    // executor
    lp: Option<Loop>,
    flag: Arc<Flag>,
    stall: u64,
    ready_at: u64,
    was_woken: bool,
    no_progress: u32,
    arm_drop: u32,
    // model: requests
    queue: VecDeque<Req>,
    sent_tags: BTreeSet<u64>,
    refused_tags: BTreeSet<u64>,
    outp: OutParser,
    outstanding: BTreeMap<u16, Kind>,
    /// Acknowledgements that matched nothing when they were read. The client may not have looked
    /// at them yet, and takes them for the answer to what it transmits before it does.
    floating: Vec<(u16, Kind)>,
    /// Outstanding exchanges that such an acknowledgement may have finished.
    uncertain: BTreeSet<u16>,
    connect_sent: bool,
    keep_alive: u64,
    accepted: Accept,
    disc_sent: bool,
    out_dead: bool,
    last_tx: u64,
    ping_at: Option<u64>,
    ping_seq: u64,
    unanswered: Option<u64>,
    /// An unsolicited ping response was read and the client may not have looked at it yet, so it
    /// may take it for the answer to the next ping.
    floating_pong: bool,
    seen_progress: u64,
    answer: Option<(u64, u64)>, // seq, time of the last PINGRESP that arrived
    pings: VecDeque<u64>,
    // model: incoming
    inp: InParser,
    items: VecDeque<(In, u64)>,
    term: Option<(Term, u64)>,
    unknown: bool,
    expected: Vec<Exp>,
    exp_end: Vec<u64>, // offset in the inbound stream at which expected[i] ends
    delivered: usize,
    q1: VecDeque<Q1>,
    acked: BTreeMap<usize, u16>, // expectation index -> id, acknowledged
    items_since_q1: u64,
    // fairness marks
    reqs_tx: u64,
    acks_tx: u64,
    last_ack_mark: u64,
    last_req_mark: u64,
    /// acknowledgements due before the identifier that became free last was known to be free
    free_mark: u64,
    tx_since_due: u64,
    /// Acknowledgements owed for messages ahead of the last ping response, which the client may
    /// have read and not reached; and their number when all of them are transmitted.
    tx_allow: u64,
    pong_acks: u64,
    rbuf_mark: Option<u64>,
    last_batch: u64,
    max_in_pkt: u64,
    // memory: largest request, most exchanges at once, sizes of the requests by identifier
    max_req: usize,
    peak_out: usize,
    out_len: BTreeMap<u16, usize>,
    kept: Option<Loop>,
    end: Option<(End, u64)>,
    need_all: bool,
    idmax: usize,
    since: [Option<u64>; 10],
    progress: u64,
    any_q1_undelivered_drop: bool,
}

pub struct World {
    t0: tokio::time::Instant,
    now: u64,
    sess: Vec<Sess>,
    srng: Rng,
    weights: [u32; 7],
    ops: Vec<Op>,
    next_op: usize,
    end: u64,
    settle: u64,
    healed: bool,
    frozen: u64,
    seq: u64,
    tag: u64,
    steps: u64,
    polls: u64,
    hash: u64,
    log: Option<Vec<String>>,
    viol: Vec<Violation>,
    fatal: bool,
    mem_share: usize,
    stats: BTreeMap<&'static str, u64>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Violation {
    pub class: String,
    pub msg: String,
    pub at: u64,
    pub s: usize,
}

pub struct Outcome {
    pub viol: Vec<Violation>,
    pub hash: u64,
    pub steps: u64,
    pub polls: u64,
    pub sim_ms: u64,
    pub truncated: bool,
    pub stats: BTreeMap<&'static str, u64>,
    pub log: Vec<String>,
    pub ends: String,
}

fn with<T>(f: impl FnOnce(&mut World) -> T) -> T {
    let _m = mem::simulator();
    WORLD.with(|w| f(w.borrow_mut().as_mut().expect("no world")))
}

macro_rules! log {
    ($w:expr, $($a:tt)*) => { if $w.log.is_some() { let t = format!($($a)*); $w.push_log(t); } };
}

// ------------------------------------------------------------------ sockets

struct SimSock(usize);

fn livelock(w: &mut World, s: usize, what: &str) -> ! {
    w.violation(s, "C14.livelock", format!("one poll of the event loop does not return: {}", what));
    w.fatal = true;
    PANIC.with(|p| *p.borrow_mut() = Some("livelock".into()));
    // unwinds out of the poll once the borrow of the world is released by the caller
    std::panic::resume_unwind(Box::new("livelock"));
}

impl Socket for SimSock {
    fn poll_read(&self, cx: &mut Context<'_>, room: usize) -> Poll<io::Result<Vec<u8>>> {
        meanwhile(self.0);
        inline_consume(self.0);
        let r = with(|w| w.sock_read(self.0, cx, room));
        meanwhile(self.0);
        r
    }
    fn poll_write(&self, cx: &mut Context<'_>, data: &[u8]) -> Poll<io::Result<usize>> {
        meanwhile(self.0);
        inline_consume(self.0);
        inline_produce(self.0);
        let r = with(|w| w.sock_write(self.0, cx, data));
        meanwhile(self.0);
        r
    }
    fn poll_flush(&self, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn close_write(&self) {
        with(|w| {
            w.sess[self.0].wr_closed = true;
            log!(w, "s{} closes its sending direction", self.0);
        })
    }
    fn drop_read(&self) {
        with(|w| w.sess[self.0].rd_dropped = true)
    }
}

/// ECONNRESET or EPIPE, ETIMEDOUT, EHOSTUNREACH, ECONNABORTED, ENETDOWN, EIO, ENOTCONN, ENOBUFS,
/// ENETUNREACH, EPROTO, ENOMEM
fn sys_error(kind: u32, write: usize) -> io::Error {
    io::Error::from_raw_os_error([[104, 32][write], 110, 113, 103, 100, 5, 107, 105, 101, 71, 12][kind as usize % 11])
}

struct ConnFut(usize);

impl Future for ConnFut {
    type Output = io::Result<Arc<dyn Socket>>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        with(|w| {
            let now = w.now;
            let s = &mut w.sess[self.0];
            match s.conn {
                Conn::Idle => {
                    s.conn = Conn::Connecting(now + s.cfg.conn_delay as u64);
                    s.conn_waker = Some(cx.waker().clone());
                    Poll::Pending
                }
                Conn::Connecting(_) => {
                    s.conn_waker = Some(cx.waker().clone());
                    Poll::Pending
                }
                Conn::Open => Poll::Ready(Ok(Arc::new(SimSock(self.0)) as Arc<dyn Socket>)),
                Conn::Failed => {
                    let k = match s.cfg.conn_err {
                        1 => io::ErrorKind::ConnectionRefused,
                        2 => io::ErrorKind::TimedOut,
                        _ => io::ErrorKind::NetworkUnreachable,
                    };
                    Poll::Ready(Err(io::Error::new(k, "simulated connect failure")))
                }
            }
        })
    }
}

fn inline_consume(s: usize) {
    let on = with(|w| w.sess[s].cfg.inline_cons > 0 && !w.sess[s].paused && w.sess[s].rx.is_some());
    if on {
        while with(|w| w.take_notification(s, "inline")) {}
    }
}

fn inline_produce(s: usize) {
    with(|w| {
        if w.sess[s].inflood > 0 {
            w.sess[s].inflood -= 1;
            let q = w.sess[s].inflood_qos;
            w.stat("op.inline_request");
            w.request(s, 0, K::Pub, q, 0, 4, 0, 0);
        }
    })
}

/// Other threads are not stopped while one polls the event loop: what they, the broker or the
/// network could do next sometimes happens in the middle of a poll.
fn meanwhile(s: usize) {
    let mut left = 8;
    loop {
        let act = with(|w| {
            if left == 0 || w.fatal || !w.srng_mid(s) {
                return None;
            }
            let mut acts = w.enabled();
            acts.retain(|a| match a {
                Act::Poll(_) | Act::Conn(_) => false,
                // the event loop cannot be dropped while it is being polled
                Act::Script => w.ops[w.next_op].k != K::DropLoop,
                _ => true,
            });
            if acts.is_empty() {
                return None;
            }
            let k = w.srng.below(acts.len() as u64) as usize;
            w.h(12, acts[k].code());
            w.stat("sched.during_poll");
            Some(acts[k])
        });
        match act {
            None => return,
            Some(a) => step(a),
        }
        left -= 1;
    }
}

/// The application's logger. A log message is one more place where other threads get to run.
struct Logger;

thread_local! {
    /// session whose event loop is being polled, if the application wants its log messages
    static LOGGED: Cell<Option<usize>> = const { Cell::new(None) };
    /// session whose event loop is being polled
    static POLLED: Cell<Option<usize>> = const { Cell::new(None) };
}

struct Sink(usize);

impl std::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 += s.len();
        // a log line is cut at some length
        if self.0 > 16 << 10 { Err(std::fmt::Error) } else { Ok(()) }
    }
}

impl log::Log for Logger {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        let _ = std::fmt::write(&mut Sink(0), *r.args());
        let _m = mem::simulator();
        // not again from within
        let Some(s) = LOGGED.with(|l| l.take()) else { return };
        if WORLD.with(|w| w.try_borrow_mut().is_ok()) {
            with(|w| w.stat("app.log_message"));
            meanwhile(s);
        }
        LOGGED.with(|l| l.set(Some(s)));
    }
    fn flush(&self) {}
}

pub fn install_logger() {
    let _ = log::set_logger(&Logger);
}

// ------------------------------------------------------------------ helpers for content

fn fill(tag: &str, len: usize, seed: u64) -> String {
    let mut t = String::with_capacity(len + 4);
    t.push_str(tag);
    let wide = seed % 3 == 0;
    let mut i = 0u64;
    while t.len() < len {
        let left = len - t.len();
        if wide && left >= 4 && (seed.wrapping_add(i)) % 8 == 5 {
            t.push(['😀', '\u{10348}'][(i % 2) as usize]);
        } else if wide && left >= 3 && (seed.wrapping_add(i)) % 4 == 1 {
            t.push(['語', '→', '\u{feff}', '€', '\u{fffd}'][(i % 5) as usize]);
        } else if wide && left >= 2 && (seed.wrapping_add(i)) % 4 == 2 {
            t.push(['é', 'ß', 'Ж'][(i % 3) as usize]);
        } else {
            t.push((b'a' + ((seed.wrapping_add(i)) % 26) as u8) as char);
        }
        i += 1;
    }
    // text whose ends somebody might trim or escape
    if seed % 5 == 1 && t.len() > tag.len() + 2 && t.is_char_boundary(t.len() - 1) {
        t.pop();
        t.push([' ', '\t', '"', '\\', '#', '/'][(seed / 5 % 6) as usize]);
    }
    t
}

/// Text that may hold anything, unlike the strings of a packet.
fn fill_text(tag: &str, len: usize, seed: u64) -> String {
    let mut t = fill(tag, len, seed);
    if mix(seed) % 4 == 0 && t.len() > tag.len() + 4 {
        let c = ['\0', '\0', '\n', '\r', ' ', '\u{1}', '\u{7f}'][(mix(seed) >> 8) as usize % 7];
        if t.is_char_boundary(t.len() - 1) {
            t.pop();
            t.push(c);
        }
        let k = tag.len();
        if t.is_char_boundary(k + 1) {
            t.replace_range(k..k + 1, &c.to_string());
        }
    }
    t
}

fn fill_bytes(tag: &str, len: usize, seed: u64) -> Vec<u8> {
    let mut v = tag.as_bytes().to_vec();
    if len > 32 << 20 {
        v.resize(len, seed as u8);
    }
    let mut i = 0u64;
    while v.len() < len {
        v.push((mix(seed.wrapping_add(i / 8)) >> (8 * (i % 8))) as u8);
        i += 1;
    }
    v
}

/// Sizes from here on name one of a few contents that several requests (or messages) share.
pub const SHARED: usize = 1_000_000;
/// Payload sizes from here on give the packet's whole remaining length instead.
pub const EXACT: usize = 500_000_000;
const POOL: [&str; 16] = ["a", "a/b", "b/#", "+/x", "t/x", "/", "é/語", "a", "$share/g/t/x", "$SYS/x", "#", "+", " a", "a ", "a//b/", "A/B"];

/// Remaining length of a PUBLISH with an empty payload.
fn body_len(topic: usize, id: bool, p: &[Prop]) -> usize {
    2 + topic + if id { 2 } else { 0 } + mqtt::props(p).len()
}

/// Length of a property string, by class.
fn plen(class: u32, n: u64) -> usize {
    match class {
        0 => (n % 12) as usize,
        1 => 0,
        2 => 100 + (n % 60) as usize,
        3 => 16370 + (n % 30) as usize,
        4 => 65535,
        5 => 65536,
        6 => 65537 + (n % 70000) as usize,
        _ => 127,
    }
}

/// Properties from a bit mask: 1 expiry, 2 response topic, 4 correlation data, bits 3-4 number of
/// user properties, bits 8-10 length class, bits 11-13 many more user properties.
fn make_props(mask: u32, n: u64) -> Vec<Prop> {
    let c = (mask >> 8) & 7;
    let mut v = vec![];
    let h = mix(n);
    let users = (mask >> 3) & 3;
    for k in 0..users {
        // the long one is the key, the value or both
        let which = (h >> 40) % 3;
        let a = fill("", plen(if k == 0 && which != 1 { c } else { 0 }, h >> (7 * k)), h + k as u64);
        let b = fill("", plen(if k == 1 || which != 0 { c } else { 0 }, h >> (5 * k + 3)), h + 7);
        v.push(Prop::Pair(0x26, a.into_bytes(), b.into_bytes()));
    }
    for k in 0..[0, 1, 2, 5, 13, 40, 130, 400][((mask >> 11) & 7) as usize] {
        let a = fill("", (mix(h + k) % 5) as usize, h + k);
        v.push(Prop::Pair(0x26, a.into_bytes(), if k % 3 == 0 { vec![] } else { k.to_string().into_bytes() }));
    }
    let mut one = |p: Prop| {
        let at = (mix(h + v.len() as u64) % (v.len() as u64 + 1)) as usize;
        v.insert(at, p)
    };
    if mask & 1 != 0 {
        let v = match (h >> 33) % 10 {
            0 => 0,
            1 => 1,
            2 => u32::MAX,
            3 => 1 << 31,
            _ => h as u32,
        };
        one(Prop::U32(2, v));
    }
    if mask & 2 != 0 {
        one(Prop::Str(8, fill("", plen(c, h >> 9), h).into_bytes()));
    }
    if mask & 4 != 0 {
        one(Prop::Bin(9, fill_bytes("", plen(c, h >> 11), h)));
    }
    v
}

fn ack_props(rng: &mut Rng) -> Vec<Prop> {
    let mut v = vec![];
    for _ in 0..rng.below(4) {
        let a = fill("k", rng.below(9) as usize, rng.next());
        let b = fill("v", rng.below(20) as usize, rng.next());
        v.push(Prop::Pair(0x26, a.into_bytes(), b.into_bytes()));
    }
    if rng.pct(60) {
        let at = rng.below(v.len() as u64 + 1) as usize;
        let l = rng.below(30) as usize;
        v.insert(at, Prop::Str(0x1F, fill("", l, rng.next()).into_bytes()));
    }
    v
}

fn qos(q: u8) -> QoS {
    match q {
        0 => QoS::AtMostOnce,
        1 => QoS::AtLeastOnce,
        _ => QoS::ExactlyOnce,
    }
}

fn tag_of(topic: &[u8]) -> Option<u64> {
    let s = topic.strip_prefix(b"t")?;
    let e = s.iter().position(|c| *c == b'/')?;
    std::str::from_utf8(&s[..e]).ok()?.parse().ok()
}

impl Sess {
    fn new(idx: usize, sc: &Scenario) -> Sess {
        let cfg = sc.cfg[idx].clone();
        let addr: std::net::SocketAddr = ([10, 0, 0, 1], 1000 + if cfg.same_addr > 0 { 0 } else { idx as u16 }).into();
        let own = mem::client();
        let (client, evloop, rx) = Client::new(addr);
        drop(own);
        let flag = Arc::new(Flag::default());
        flag.put(true);
        let cons_flag = Arc::new(Flag::default());
        cons_flag.put(true);
        Sess {
            nrng: Rng::new(hash(&[sc.seed, 77, idx as u64])),
            conn: Conn::Idle,
            conn_waker: None,
            rbuf: VecDeque::new(),
            r_eof: false,
            r_err: false,
            r_waker: None,
            consumed: 0,
            eof_seen: false,
            rkind: 0,
            wkind: 0,
            rerr_seen: false,
            werr: false,
            werr_seen: false,
            w_waker: None,
            w_pending: false,
            total_out: 0,
            taken: 0,
            take_at: 0,
            take_stall: 0,
            wr_closed: false,
            rd_dropped: false,
            idle_calls: 0,
            net: VecDeque::new(),
            net_hold: 0,
            last_at: 0,
            bq: BTreeMap::new(),
            b_closed: false,
            connected_to_broker: false,
            held: vec![],
            hold: false,
            last_acked: None,
            ping_drop: 0,
            ping_delay: cfg.ping_delay,
            next_bid: 1,
            takeq: VecDeque::new(),
            bmsg: 0,
            handles: vec![Some(client)],
            created: 1,
            rx: Some(rx),
            rx_dropped: false,
            handed_at_drop: 0,
            paused: false,
            cons_ms: cfg.cons_ms,
            cons_next: 0,
            cons_flag,
            stream_ended: false,
            inflood: 0,
            inflood_qos: 0,
            lp: Some(Box::pin(evloop)),
            flag,
            stall: 0,
            ready_at: 0,
            was_woken: false,
            no_progress: 0,
            arm_drop: 0,
            queue: VecDeque::new(),
            sent_tags: BTreeSet::new(),
            refused_tags: BTreeSet::new(),
            outp: OutParser::default(),
            outstanding: BTreeMap::new(),
            floating: Vec::new(),
            uncertain: BTreeSet::new(),
            connect_sent: false,
            keep_alive: 8000,
            accepted: Accept::No,
            disc_sent: false,
            out_dead: false,
            last_tx: 0,
            ping_at: None,
            ping_seq: 0,
            unanswered: None,
            floating_pong: false,
            seen_progress: 0,
            answer: None,
            pings: VecDeque::new(),
            inp: InParser::default(),
            items: VecDeque::new(),
            term: None,
            unknown: false,
            expected: vec![],
            exp_end: vec![],
            delivered: 0,
            q1: VecDeque::new(),
            acked: BTreeMap::new(),
            items_since_q1: 0,
            reqs_tx: 0,
            acks_tx: 0,
            last_ack_mark: 0,
            last_req_mark: 0,
            free_mark: 0,
            tx_since_due: 0,
            tx_allow: 0,
            pong_acks: 0,
            rbuf_mark: None,
            last_batch: 0,
            max_in_pkt: 0,
            max_req: 0,
            peak_out: 0,
            out_len: BTreeMap::new(),
            kept: None,
            end: None,
            need_all: false,
            idmax: if sc.idmax == 0 { 65535 } else { sc.idmax as usize },
            since: [None; 10],
            progress: 0,
            any_q1_undelivered_drop: false,
            cfg,
        }
    }

    fn is_accepted(&self) -> bool {
        self.accepted != Accept::No
    }
    fn over(&self) -> bool {
        self.end.is_some()
    }
    fn backlog(&self) -> usize {
        self.expected.len().saturating_sub(self.delivered)
    }
    /// What the client may hold: buffers for the largest packet, room for the most exchanges there
    /// ever were at once, and what waits, is not acknowledged, or was not taken by the application.
    fn memory_allowed(&self) -> usize {
        let fixed = 100_000 + 300 * self.created as usize;
        let kept = 6 * self.max_in_pkt as usize + 4 * self.max_req + 200 * self.peak_out;
        let waiting: usize = self.queue.iter().map(|r| r.size()).sum();
        let unacked: usize = self.outstanding.keys().map(|i| 400 + self.out_len.get(i).unwrap_or(&0)).sum();
        let seen = match self.delivered {
            0 => 0,
            n => self.exp_end.get(n - 1).copied().unwrap_or(self.consumed),
        };
        // text that shows bytes is longer than the bytes
        let untaken = if self.rx.is_some() { 14 * self.consumed.saturating_sub(seen) as usize + 1000 * self.backlog() } else { 0 };
        fixed + kept + waiting + unacked + untaken
    }
    /// The application or the transport keeps the loop from acting.
    fn blocked(&self, now: u64) -> bool {
        now < self.stall || self.w_pending || (self.rx.is_some() && (self.unknown || self.backlog() >= 90))
    }
    fn head_sendable(&self) -> bool {
        match self.queue.front() {
            None => false,
            Some(r) => !r.needs_id() || self.outstanding.len() < self.idmax,
        }
    }
}

impl World {
    fn push_log(&mut self, t: String) {
        let now = self.now;
        if let Some(l) = self.log.as_mut() {
            if l.len() < 20_000 {
                l.push(format!("{:>7} {}", now, t));
            }
        }
    }
    fn srng_mid(&mut self, s: usize) -> bool {
        let p = self.sess[s].cfg.mid;
        p > 0 && self.srng.pct(p)
    }
    fn stat(&mut self, k: &'static str) {
        *self.stats.entry(k).or_insert(0) += 1;
    }
    fn h(&mut self, a: u64, b: u64) {
        self.hash = mix(self.hash ^ a.wrapping_mul(0x9E3779B97F4A7C15) ^ b.rotate_left(32));
    }
    fn violation(&mut self, s: usize, class: &str, msg: String) {
        log!(self, "s{} VIOLATION {} {}", s, class, msg);
        if self.viol.len() < 12 {
            self.viol.push(Violation { class: class.into(), msg, at: self.now, s });
        }
    }

    // -------------------------------------------------------------- application side

    /// One call on a client handle.
    fn request(&mut self, s: usize, h: usize, k: K, q: u8, tlen: usize, payload_len: usize, form: u32, mask: u32) {
        let n = self.tag;
        self.tag += 1;
        let over = self.sess[s].over();
        let nh = self.sess[s].handles.len();
        let h = h % nh;
        let Some(mut client) = self.sess[s].handles[h].take() else { return };
        let shared = tlen >= SHARED && k != K::Disc;
        // what the content is derived from
        let c = if shared { (tlen - SHARED) as u64 / 16 } else { n };
        let topic = if shared { POOL[(tlen - SHARED) % 16].to_string() } else { fill(&format!("t{}/", n), tlen, n) };
        if shared {
            self.stat("app.shared_content");
        }
        let payload_len = if payload_len >= EXACT {
            self.stat("probe.exact_length");
            let id = k == K::Pub && q > 0;
            let mut p = make_props(mask, c);
            p.push(Prop::Byte(1, 0));
            (payload_len - EXACT).saturating_sub(body_len(topic.len(), id, &p))
        } else {
            payload_len
        };
        let mut encodable = topic.len() <= 65535;
        // remaining length that does not fit into four bytes
        let mut too_long = false;
        let mut req = Req { n, shared, k, qos: q, topic: topic.clone().into_bytes(), payload: vec![], props: vec![] };
        if mix(n ^ 0x33) % 61 == 0 {
            // does nothing
            let _m = mem::client();
            let _ = client.connect();
        }
        let res = match k {
            K::Pub => {
                let mut b = if form & 1 == 1 {
                    let p = fill_text("", payload_len, c + 3);
                    req.payload = p.clone().into_bytes();
                    req.props.push(Prop::Byte(1, 1));
                    let _m = mem::client();
                    PublishBuilder::from_str(&topic, &p)
                } else {
                    req.payload = fill_bytes("", payload_len, c);
                    req.props.push(Prop::Byte(1, 0));
                    let _m = mem::client();
                    PublishBuilder::from_bytes(&topic, &req.payload)
                };
                // how the application happens to use the builder
                let style = mix(c ^ 0x5757) % 16;
                if style == 1 {
                    b = b.qos(qos(((q as u64 + c) % 3) as u8));
                }
                if style < 10 && (q > 0 || c % 2 == 0 || style == 1) {
                    b = b.qos(qos(q));
                }
                for p in make_props(mask, c) {
                    let own = mem::client();
                    b = match &p {
                        Prop::U32(2, v) => b.with_property(Property::MessageExpiryInterval(*v)),
                        Prop::Str(8, x) => {
                            encodable &= x.len() <= 65535;
                            b.with_property(Property::ResponseTopic(String::from_utf8(x.clone()).unwrap()))
                        }
                        Prop::Bin(9, x) => {
                            encodable &= x.len() <= 65535;
                            b.with_property(Property::CorrelationData(x.clone()))
                        }
                        Prop::Pair(_, x, y) => {
                            encodable &= x.len() <= 65535 && y.len() <= 65535;
                            b.with_property(Property::UserProperty(
                                String::from_utf8(x.clone()).unwrap(),
                                String::from_utf8(y.clone()).unwrap(),
                            ))
                        }
                        _ => b,
                    };
                    drop(own);
                    req.props.push(p);
                }
                if payload_len > 200 << 20 {
                    too_long = body_len(topic.len(), q > 0, &req.props) + payload_len > 268_435_455;
                    encodable &= !too_long;
                    self.stat("probe.giant_payload");
                }
                let _m = mem::client();
                if style >= 10 {
                    b = b.qos(qos(q));
                }
                if style == 12 {
                    let other = b.clone();
                    let r = client.publish(b);
                    drop(other);
                    r
                } else if style == 13 {
                    let r = client.publish(b.clone());
                    drop(b);
                    r
                } else {
                    client.publish(b)
                }
            }
            K::Sub => {
                let _m = mem::client();
                client.subscribe(&topic, qos(q))
            }
            K::Unsub => {
                let _m = mem::client();
                client.unsubscribe(&topic)
            }
            K::Disc => {
                encodable = true;
                let _m = mem::client();
                client.disconnect()
            }
            _ => unreachable!(),
        };
        self.sess[s].handles[h] = Some(client);
        let waiting = self.sess[s].queue.len() as u64;
        let created = self.sess[s].created;
        log!(self, "s{} app {} via handle {} -> {}", s, req.brief(), h, if res.is_ok() { "accepted" } else { "refused" });
        self.h(1, res.is_ok() as u64 + 2 * n);
        match res {
            Ok(()) => {
                if over {
                    self.violation(s, "C15.accepted-after-end", format!("{} was accepted although the event loop is gone", req.brief()));
                } else if !encodable {
                    self.violation(s, "C03.oversize-accepted", format!("{} {} and was accepted", req.brief(), if too_long { "is longer than a packet can be" } else { "holds a string or binary value longer than 65535 bytes" }));
                }
                if waiting + 1 > 100 + created + 3 {
                    self.violation(s, "C15.unbounded", format!("{} requests are waiting with {} handles ever created", waiting + 1, created));
                }
                if self.sess[s].queue.is_empty() {
                    self.sess[s].last_req_mark = self.sess[s].acks_tx;
                }
                self.sess[s].max_req = self.sess[s].max_req.max(req.size());
                self.sess[s].queue.push_back(req);
                self.stat("app.accepted");
                if waiting >= 100 {
                    self.stat("probe.queue_full");
                }
            }
            Err(_) => {
                if !over && waiting < 100 && encodable {
                    self.violation(s, "C15.refused", format!("{} was refused with only {} requests waiting on a live session", req.brief(), waiting));
                }
                self.stat(if over { "app.refused_over" } else if encodable { "app.refused_full" } else { "app.refused_oversize" });
                if !shared {
                    self.sess[s].refused_tags.insert(n);
                }
            }
        }
    }

    /// Take one notification if there is one.
    fn take_notification(&mut self, s: usize, how: &str) -> bool {
        let ss = &mut self.sess[s];
        let Some(rx) = ss.rx.as_mut() else { return false };
        ss.cons_flag.put(false);
        let w = ss.cons_flag.waker(false);
        let mut cx = Context::from_waker(&w);
        match Pin::new(rx).poll_next(&mut cx) {
            Poll::Pending => false,
            Poll::Ready(None) => {
                ss.stream_ended = true;
                ss.rx = None;
                ss.handed_at_drop = ss.delivered;
                log!(self, "s{} notification stream ended", s);
                if self.sess[s].lp.is_some() && self.sess[s].end.is_none() {
                    self.violation(s, "C15.stream-ended-early", "the notification stream ended while the event loop is alive".into());
                }
                false
            }
            Poll::Ready(Some(n)) => {
                ss.cons_flag.put(true);
                self.on_notification(s, n, how);
                true
            }
        }
    }

    fn on_notification(&mut self, s: usize, n: Notification, how: &str) {
        let i = self.sess[s].delivered;
        self.sess[s].delivered += 1;
        self.sess[s].progress += 1;
        self.stat("notif.delivered");
        let (kind, text) = match &n {
            Notification::ConnAck(c) => ("connection", format!("{:?}", c)),
            Notification::Message(t) => ("message", t.clone()),
            Notification::SubAck(t) => ("suback", t.clone()),
            Notification::UnsubAck(t) => ("unsuback", t.clone()),
        };
        let short: String = text.chars().take(90).collect();
        log!(self, "s{} app receives ({}) {} {}", s, how, kind, short);
        self.h(2, hash(&[s as u64, text.len() as u64, i as u64]));
        if self.sess[s].unknown && i >= self.sess[s].expected.len() {
            return;
        }
        if i >= self.sess[s].expected.len() {
            let class = if kind == "connection" { "C01.connection-twice" } else if self.sess[s].term.is_some() { "C08.shown-after-error" } else { "C06.unexpected" };
            self.violation(s, class, format!("the application was given a {} notification that corresponds to nothing received: {}", kind, short));
            return;
        }
        let e = self.sess[s].expected[i].clone();
        let ok = match (&e, &n) {
            (Exp::Connack { .. }, Notification::ConnAck(_)) => true,
            (Exp::Publish(m), Notification::Message(t)) => mqtt::shows_publish(t, m),
            (Exp::Suback { id, props, .. }, Notification::SubAck(t)) => mqtt::shows_ack(t, *id, props),
            (Exp::Unsuback { id, props, .. }, Notification::UnsubAck(t)) => mqtt::shows_ack(t, *id, props),
            _ => false,
        };
        if let (Exp::Connack { present, reason, props }, Notification::ConnAck(_)) = (&e, &n) {
            let success = text.contains("Success");
            if !mqtt::shows_connack(&text, *present, props) || success != (*reason == 0) {
                self.violation(s, "C06.connection-content", format!("the connection notification shows {} for session-present {}, reason {}, properties {:?}", short, present, reason, props));
            }
        }
        let misread = match &e {
            Exp::Suback { reason, .. } => mqtt::shows_other_reason(&text, true, *reason),
            Exp::Unsuback { reason, .. } => mqtt::shows_other_reason(&text, false, *reason),
            _ => false,
        };
        if ok && misread {
            self.violation(s, "C06.verdict", format!("{:?} is shown to the application as {}", e, short));
        }
        if !ok {
            let later = self.sess[s].expected.iter().skip(i + 1).take(300).any(|x| match (x, &n) {
                (Exp::Publish(m), Notification::Message(t)) => mqtt::shows_publish(t, m),
                (Exp::Suback { id, props, .. }, Notification::SubAck(t)) => mqtt::shows_ack(t, *id, props),
                (Exp::Unsuback { id, props, .. }, Notification::UnsubAck(t)) => mqtt::shows_ack(t, *id, props),
                _ => false,
            });
            let (class, why) = if i == 0 {
                ("C01.first-notification", "the first notification is not the connection's")
            } else if later {
                ("C06.lost", "a notification was skipped or reordered")
            } else {
                ("C06.content", "wrong content, or a repeated notification")
            };
            let want: String = format!("{:?}", e).chars().take(160).collect();
            self.violation(s, class, format!("notification {}: {}: expected {} got {} {}", i, why, want, kind, short));
            // resynchronise on a later one so that one loss is one report
            if later {
                while self.sess[s].delivered < self.sess[s].expected.len() {
                    let j = self.sess[s].delivered;
                    let hit = match (&self.sess[s].expected[j], &n) {
                        (Exp::Publish(m), Notification::Message(t)) => mqtt::shows_publish(t, m),
                        (Exp::Suback { id, props, .. }, Notification::SubAck(t)) => mqtt::shows_ack(t, *id, props),
                        (Exp::Unsuback { id, props, .. }, Notification::UnsubAck(t)) => mqtt::shows_ack(t, *id, props),
                        _ => false,
                    };
                    self.sess[s].delivered += 1;
                    if hit {
                        break;
                    }
                }
            }
        }
    }

    // -------------------------------------------------------------- socket side

    fn sock_read(&mut self, s: usize, cx: &mut Context<'_>, room: usize) -> Poll<io::Result<Vec<u8>>> {
        let now = self.now;
        let ss = &mut self.sess[s];
        if !ss.rbuf.is_empty() {
            ss.idle_calls = 0;
            let n = room.min(ss.rbuf.len());
            let v: Vec<u8> = ss.rbuf.drain(..n).collect();
            ss.consumed += n as u64;
            ss.progress += 1;
            ss.rbuf_mark = if ss.rbuf.is_empty() { None } else { Some(ss.reqs_tx) };
            ss.last_batch = 0;
            let c = ss.consumed;
            log!(self, "s{} reads {} bytes", s, n);
            self.h(3, n as u64);
            while self.sess[s].items.front().map_or(false, |x| x.1 <= c) {
                let (it, end) = self.sess[s].items.pop_front().unwrap();
                self.sess[s].last_batch += 1;
                self.on_consumed(s, it, end);
            }
            // bounded buffering while the application does not take notifications
            let ss = &self.sess[s];
            if ss.rx.is_some() && ss.backlog() > 130 && !ss.unknown {
                let limit_at = ss.exp_end[ss.delivered + 115];
                if ss.consumed > limit_at + 65536 + 4 * ss.max_in_pkt {
                    let m = format!("{} bytes were read beyond the 115th notification the application has not taken", ss.consumed - limit_at);
                    self.violation(s, "C16.unbounded", m);
                }
            }
            let _ = now;
            return Poll::Ready(Ok(v));
        }
        ss.idle_calls += 1;
        if ss.idle_calls > 20_000 {
            livelock(self, s, "it keeps reading an idle or closed socket");
        }
        let ss = &mut self.sess[s];
        if ss.r_err {
            if !ss.rerr_seen {
                ss.progress += 1;
            }
            // reported once, as the system does
            if std::mem::replace(&mut ss.rerr_seen, true) {
                return Poll::Ready(Ok(vec![]));
            }
            let e = sys_error(ss.rkind, 0);
            log!(self, "s{} read fails: {}", s, e);
            self.stat("fault.read_error_seen");
            return Poll::Ready(Err(e));
        }
        if ss.r_eof {
            if !ss.eof_seen {
                ss.progress += 1;
                log!(self, "s{} reads end of stream", s);
                self.stat("fault.eof_seen");
            }
            self.sess[s].eof_seen = true;
            return Poll::Ready(Ok(vec![]));
        }
        ss.r_waker = Some(cx.waker().clone());
        Poll::Pending
    }

    fn sock_write(&mut self, s: usize, cx: &mut Context<'_>, data: &[u8]) -> Poll<io::Result<usize>> {
        let ss = &mut self.sess[s];
        ss.w_pending = false;
        if ss.werr {
            let e = sys_error(if ss.werr_seen { 0 } else { ss.wkind }, 1);
            ss.werr_seen = true;
            ss.progress += 1;
            log!(self, "s{} write fails: {}", s, e);
            self.stat("fault.write_error_seen");
            return Poll::Ready(Err(e));
        }
        if ss.wr_closed {
            return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
        }
        let space = (ss.cfg.wcap.max(1) as u64).saturating_sub(ss.total_out - ss.taken) as usize;
        if space == 0 {
            ss.w_pending = true;
            ss.w_waker = Some(cx.waker().clone());
            ss.idle_calls += 1;
            if ss.idle_calls > 20_000 {
                livelock(self, s, "it keeps writing to a full socket");
            }
            self.stat("fault.write_blocked");
            log!(self, "s{} write would block", s);
            return Poll::Pending;
        }
        ss.idle_calls = 0;
        let mut n = data.len().min(space);
        if ss.cfg.wshort > 0 && n > 1 && ss.nrng.pct(60) {
            n = if ss.nrng.pct(50) { 1 + ss.nrng.below((n as u64).min(4)) as usize } else { 1 + ss.nrng.below(n as u64) as usize };
            n = n.min(data.len()).min(space);
            self.stat("fault.short_write");
        }
        if n < data.len() {
            self.stat("fault.partial_write");
        }
        let ss = &mut self.sess[s];
        ss.total_out += n as u64;
        ss.progress += 1;
        self.h(4, n as u64);
        let r = self.sess[s].outp.push(&data[..n]);
        match r {
            Ok(pkts) => {
                for (p, end) in pkts {
                    self.sess[s].takeq.push_back((p.clone(), end));
                    self.on_out(s, p);
                }
            }
            Err(e) => {
                self.sess[s].out_dead = true;
                self.violation(s, "C03.malformed", format!("the client transmitted bytes that are not a well-formed MQTT 5 packet: {}", e));
            }
        }
        let ss = &self.sess[s];
        if !ss.connect_sent && !ss.out_dead && ss.outp.partial() > 0 {
            // first bytes have to be the CONNECT packet's
        } else if ss.outp.partial() > 0 && (ss.disc_sent) {
            self.violation(s, "C13.after-disconnect", "bytes follow the DISCONNECT packet".into());
        } else if ss.outp.partial() > 0 && ss.accepted == Accept::No && ss.connect_sent && !ss.unknown {
            self.violation(s, "C01.early", "bytes follow CONNECT before the connection is accepted".into());
        }
        Poll::Ready(Ok(n))
    }

    /// A packet has been transmitted in full.
    fn on_out(&mut self, s: usize, p: Out) {
        let now = self.now;
        log!(self, "s{} transmits {}", s, p.brief());
        self.h(5, hash(&[s as u64, p.name().len() as u64, now]));
        self.stat("out.packets");
        if let Some((t, _)) = &self.sess[s].term {
            let _ = t; // packets may still be on their way out when a terminal packet has been read but not handled
        }
        let ss = &mut self.sess[s];
        let (was_disc, unknown) = (ss.disc_sent, ss.unknown);
        ss.last_tx = now;
        if was_disc {
            self.violation(s, "C13.after-disconnect", format!("{} follows DISCONNECT", p.name()));
        }
        if !self.sess[s].connect_sent {
            match p {
                Out::Connect { clean, keep_alive } => {
                    if !clean {
                        self.violation(s, "C01.connect", "CONNECT does not ask for a clean start".into());
                    }
                    if keep_alive == 0 {
                        self.violation(s, "C01.connect", "CONNECT announces no keep-alive".into());
                    } else {
                        self.sess[s].keep_alive = keep_alive as u64 * 1000;
                    }
                    self.sess[s].connect_sent = true;
                }
                p => {
                    self.violation(s, "C01.first-packet", format!("{} is the first packet", p.name()));
                    self.sess[s].connect_sent = true;
                }
            }
            return;
        }
        if let Out::Connect { .. } = p {
            self.violation(s, "C01.connect-twice", "a second CONNECT".into());
            return;
        }
        if self.sess[s].accepted == Accept::No && !unknown {
            self.violation(s, "C01.early", format!("{} is transmitted before the connection is accepted", p.brief()));
        }
        // a due ping must not be starved by other packets
        if let Accept::Yes(t) = self.sess[s].accepted {
            let ss = &mut self.sess[s];
            let due = ss.ping_at.unwrap_or(t) + ss.keep_alive;
            // while an earlier ping is overdue the client reads what has arrived before anything else
            let overdue = ss.unanswered.map_or(false, |t| now >= t + ss.keep_alive);
            if matches!(p, Out::Pingreq) || now <= due || overdue {
                ss.tx_since_due = 0;
            } else {
                ss.tx_since_due += 1;
                if ss.tx_since_due == 400 + ss.tx_allow {
                    let m = 400 + self.sess[s].tx_allow;
                    self.violation(s, "C14.starved-timer", format!("{m} packets were transmitted since the ping due at {} and still no ping", due));
                }
            }
        }
        match p {
            Out::Pingreq => {
                let seq = self.seq;
                self.seq += 1;
                self.stat("out.ping");
                let ss = &mut self.sess[s];
                ss.ping_at = Some(now);
                ss.ping_seq = seq;
                if ss.floating_pong {
                    ss.floating_pong = false;
                } else if ss.unanswered.is_none() {
                    ss.unanswered = Some(now);
                }
                ss.pings.push_back(now);
                if ss.pings.len() > 5 {
                    ss.pings.pop_front();
                }
                if ss.pings.len() == 5 && now - ss.pings[0] < ss.keep_alive / 2 {
                    self.violation(s, "C14.ping-flood", "5 pings within half a keep-alive interval".into());
                }
            }
            Out::Puback { id, reason } => self.out_puback(s, id, reason),
            Out::Disconnect { reason } => {
                match self.sess[s].queue.front() {
                    Some(r) if r.k == K::Disc => {
                        self.sess[s].queue.pop_front();
                    }
                    Some(r) if self.sess[s].queue.iter().any(|x| x.k == K::Disc) => {
                        let m = format!("DISCONNECT is transmitted before {}, which was accepted earlier", r.brief());
                        self.violation(s, "C13.overtakes", m);
                    }
                    _ if unknown => {}
                    _ => self.violation(s, "C13.unrequested", "DISCONNECT is transmitted although the application did not ask for it".into()),
                }
                if reason != 0 {
                    self.violation(s, "C13.reason", format!("DISCONNECT carries reason {}", reason));
                }
                self.sess[s].disc_sent = true;
                self.stat("out.disconnect");
            }
            p => self.out_request(s, p),
        }
    }

    fn out_puback(&mut self, s: usize, id: u16, reason: u8) {
        if self.sess[s].unknown {
            return;
        }
        self.stat("out.puback");
        if reason != 0 {
            self.violation(s, "C07.reason", format!("PUBACK {} carries reason {}", id, reason));
        }
        self.sess[s].acks_tx += 1;
        self.sess[s].last_ack_mark = self.sess[s].reqs_tx;
        let front = self.sess[s].q1.front().map(|q| q.id);
        let pos = if self.sess[s].rx_dropped { self.sess[s].q1.iter().position(|q| q.id == id) } else if front == Some(id) { Some(0) } else { None };
        match pos {
            Some(k) => {
                let q = self.sess[s].q1.drain(..=k).next_back().unwrap();
                self.sess[s].acked.insert(q.exp, id);
                let ss = &self.sess[s];
                if ss.rx_dropped && q.exp >= ss.handed_at_drop {
                    self.violation(s, "C07.ack-unhanded", format!("message with identifier {} is acknowledged although the notification stream was dropped before it could be handed over", id));
                } else if ss.cfg.inline_cons > 0 && !ss.paused && ss.rx.is_some() && q.exp >= ss.delivered && !ss.rx_dropped {
                    self.violation(s, "C07.ack-before-handover", format!("PUBACK {} is transmitted and an application taking every notification at that instant has not been given the message", id));
                }
            }
            None => {
                let class = if self.sess[s].q1.iter().any(|q| q.id == id) {
                    "C07.ack-order"
                } else if self.sess[s].acked.values().any(|x| *x == id) {
                    "C07.ack-twice"
                } else {
                    "C07.ack-unrequested"
                };
                self.violation(s, class, format!("PUBACK {} while the next unacknowledged message is {:?}", id, front));
                if let Some(k) = self.sess[s].q1.iter().position(|q| q.id == id) {
                    self.sess[s].q1.remove(k);
                }
            }
        }
        // a waiting request must not be starved by incoming messages
        let ss = &self.sess[s];
        let overdue = ss.unanswered.map_or(false, |t| self.now >= t + ss.keep_alive);
        if ss.head_sendable() && !overdue && ss.acks_tx - ss.last_req_mark.max(ss.pong_acks).max(ss.free_mark).min(ss.acks_tx) == 400 {
            self.violation(s, "C14.starved-request", "400 incoming messages were handled while a request waited".into());
        }
    }

    fn out_request(&mut self, s: usize, p: Out) {
        let (k, q, id, topic) = match &p {
            Out::Publish { qos, id, topic, .. } => (K::Pub, *qos, *id, topic.clone()),
            Out::Subscribe { id, opts, filter } => (K::Sub, *opts & 3, *id, filter.clone()),
            Out::Unsubscribe { id, filter } => (K::Unsub, 0, *id, filter.clone()),
            _ => return,
        };
        self.stat(match (k, q) {
            (K::Pub, 0) => "out.publish0",
            (K::Pub, 1) => "out.publish1",
            (K::Pub, _) => "out.publish2",
            (K::Sub, _) => "out.subscribe",
            _ => "out.unsubscribe",
        });
        let tag = tag_of(&topic);
        self.sess[s].reqs_tx += 1;
        self.sess[s].last_req_mark = self.sess[s].acks_tx;
        // reads must not be starved by requests
        let ss = &self.sess[s];
        if let Some(f) = ss.q1.front() {
            let since = ss.reqs_tx - f.mark.max(ss.last_ack_mark).min(ss.reqs_tx);
            if since == 300 * (f.gap + 1) && ss.rx.is_some() {
                let m = format!("{} requests were transmitted while the message with identifier {} waited for its acknowledgement", since, f.id);
                self.violation(s, "C14.starved-read", m);
            }
        }
        let ss = &self.sess[s];
        if let Some(m) = ss.rbuf_mark {
            if ss.reqs_tx - m == 300 * (ss.last_batch + 1) {
                let m = format!("{} requests were transmitted while arrived bytes were left unread", ss.reqs_tx - m);
                self.violation(s, "C14.starved-read", m);
            }
        }
        // identifiers
        if id > 0 && !self.sess[s].unknown {
            if let (Some(prev), false) = (self.sess[s].outstanding.get(&id).copied(), self.sess[s].uncertain.contains(&id)) {
                self.violation(s, "C04.reuse", format!("{} uses identifier {} which an unfinished {:?} exchange still uses", p.name(), id, prev));
            }
            let kind = match (k, q) {
                (K::Pub, 1) => Kind::Pub1,
                (K::Pub, _) => Kind::Pub2,
                (K::Sub, _) => Kind::Sub,
                _ => Kind::Unsub,
            };
            let ss = &mut self.sess[s];
            ss.outstanding.insert(id, kind);
            ss.peak_out = ss.peak_out.max(ss.outstanding.len());
            match ss.floating.iter().position(|f| *f == (id, kind)) {
                Some(i) => {
                    ss.floating.remove(i);
                    ss.uncertain.insert(id);
                }
                None => {
                    ss.uncertain.remove(&id);
                }
            }
            let (n, m) = (self.sess[s].outstanding.len(), self.sess[s].idmax);
            if n == m {
                self.stat("probe.ids_exhausted");
            }
            if id as usize == m {
                self.stat("probe.last_id_used");
            }
        }
        // the request it carries
        let queue = &self.sess[s].queue;
        let own = |r: &&Req| !r.shared && tag.is_some() && Some(r.n) == tag && r.k != K::Disc;
        let same = |r: &&Req| r.shared && r.k == k && r.topic == topic;
        let at = |f: &dyn Fn(&&Req) -> bool| queue.iter().position(|r| f(&r));
        // by its tag, else by its content
        let pos = at(&|r| same(r) && differs(r, &p).is_none()).or_else(|| at(&own)).or_else(|| at(&same));
        match pos {
            None => {
                let class = match tag {
                    Some(t) if self.sess[s].sent_tags.contains(&t) => "C02.duplicate",
                    Some(t) if self.sess[s].refused_tags.contains(&t) => "C15.refused-sent",
                    _ => "C02.unrequested",
                };
                self.violation(s, class, format!("{} matches no accepted request that is waiting", p.brief()));
            }
            Some(pos) => {
                if pos > 0 {
                    let skipped = self.sess[s].queue[0].brief();
                    let class = if self.sess[s].queue.iter().take(pos).any(|r| r.k == K::Disc) { "C13.after-disconnect" } else { "C02.order" };
                    self.violation(s, class, format!("{} is transmitted before {}, which was accepted earlier", p.brief(), skipped));
                }
                let r = self.sess[s].queue.remove(pos).unwrap();
                if !r.shared {
                    self.sess[s].sent_tags.insert(r.n);
                }
                if id > 0 {
                    self.sess[s].out_len.insert(id, r.size());
                }
                if let Some(d) = differs(&r, &p) {
                    self.violation(s, "C03.content", format!("{} does not carry what was asked: {}", p.brief(), d));
                }
                if !r.needs_id() && id > 0 {
                    self.violation(s, "C03.content", format!("{} carries an identifier", p.brief()));
                }
            }
        }
    }

    /// A whole packet of the broker has been read by the client.
    fn on_consumed(&mut self, s: usize, it: In, end: u64) {
        let now = self.now;
        if self.sess[s].term.is_some() || self.sess[s].unknown {
            return;
        }
        self.stat("in.packets");
        if self.sess[s].accepted == Accept::No {
            let ss = &mut self.sess[s];
            match it {
                In::Connack { present, reason: 0, props } => {
                    ss.accepted = Accept::Yes(now);
                    ss.expected.push(Exp::Connack { present, reason: 0, props });
                    ss.exp_end.push(end);
                    self.stat("probe.accepted");
                }
                In::Connack { present, reason, props } => {
                    ss.expected.push(Exp::Connack { present, reason, props });
                    ss.exp_end.push(end);
                    ss.term = Some((Term::Refused(reason), now));
                    self.stat("fault.refused");
                }
                In::Lenient(_) => {
                    ss.unknown = true;
                    self.stat("in.lenient");
                }
                In::Malformed(e) => {
                    ss.term = Some((Term::Malformed(e), now));
                    self.stat("fault.malformed_before_accept");
                }
                In::Unsupported(k) => ss.term = Some((Term::Unsupported(k), now)),
                _ => {
                    ss.term = Some((Term::WrongFirst("another packet"), now));
                    self.stat("fault.wrong_first_packet");
                }
            }
            return;
        }
        let reqs_tx = self.sess[s].reqs_tx;
        let ss = &mut self.sess[s];
        ss.items_since_q1 += 1;
        if matches!(it, In::Puback { .. } | In::Suback { .. } | In::Unsuback { .. }) && ss.outstanding.len() >= ss.idmax {
            ss.free_mark = ss.acks_tx + ss.q1.len() as u64;
        }
        match it {
            In::Connack { .. } | In::Lenient(_) => {
                ss.unknown = true;
                self.stat("in.lenient");
            }
            In::Publish(m) => {
                let (q, id) = (m.qos, m.id);
                ss.expected.push(Exp::Publish(m));
                ss.exp_end.push(end);
                if q == 1 {
                    let exp = ss.expected.len() - 1;
                    let gap = ss.items_since_q1;
                    ss.items_since_q1 = 0;
                    ss.q1.push_back(Q1 { id, exp, gap, mark: reqs_tx });
                }
                self.stat(if q == 1 { "in.publish1" } else { "in.publish0" });
            }
            In::Puback { id } => match ss.outstanding.get(&id) {
                Some(Kind::Pub1) => {
                    ss.outstanding.remove(&id);
                    if ss.uncertain.remove(&id) {
                        ss.floating.push((id, Kind::Pub1));
                    }
                    self.stat("in.puback");
                }
                _ => {
                    ss.floating.push((id, Kind::Pub1));
                    self.stat("fault.odd_puback_consumed")
                }
            },
            In::Suback { id, reason, props } => {
                ss.expected.push(Exp::Suback { id, reason, props });
                ss.exp_end.push(end);
                if ss.outstanding.get(&id) == Some(&Kind::Sub) {
                    ss.outstanding.remove(&id);
                    if ss.uncertain.remove(&id) {
                        ss.floating.push((id, Kind::Sub));
                    }
                    self.stat("in.suback");
                } else {
                    ss.floating.push((id, Kind::Sub));
                    self.stat("fault.odd_suback_consumed");
                }
            }
            In::Unsuback { id, reason, props } => {
                ss.expected.push(Exp::Unsuback { id, reason, props });
                ss.exp_end.push(end);
                if ss.outstanding.get(&id) == Some(&Kind::Unsub) {
                    ss.outstanding.remove(&id);
                    if ss.uncertain.remove(&id) {
                        ss.floating.push((id, Kind::Unsub));
                    }
                    self.stat("in.unsuback");
                } else {
                    ss.floating.push((id, Kind::Unsub));
                    self.stat("fault.odd_unsuback_consumed");
                }
            }
            In::Pingresp => {
                ss.tx_since_due = 0;
                ss.tx_allow = ss.q1.len() as u64;
                ss.pong_acks = ss.acks_tx + ss.tx_allow;
                if ss.unanswered.take().is_some() {
                    self.stat("in.pingresp");
                } else {
                    ss.floating_pong = true;
                    self.stat("fault.unsolicited_pingresp");
                }
            }
            In::Disconnect { reason } => {
                ss.term = Some((Term::Disconnect(reason), now));
                self.stat("fault.broker_disconnect");
            }
            In::Malformed(e) => {
                ss.term = Some((Term::Malformed(e), now));
                self.stat("fault.malformed");
            }
            In::Unsupported(k) => {
                ss.term = Some((Term::Unsupported(k), now));
                self.stat("fault.unsupported");
            }
        }
    }

    // -------------------------------------------------------------- broker and network

    fn broker_later(&mut self, s: usize, at: u64, b: BOut) {
        let q = self.seq;
        self.seq += 1;
        self.sess[s].bq.insert((at, q), b);
    }

    fn broker_reacts(&mut self, s: usize, p: Out) {
        let now = self.now;
        if self.sess[s].b_closed {
            return;
        }
        match p {
            Out::Connect { .. } => {
                let c = self.sess[s].cfg.clone();
                self.sess[s].connected_to_broker = true;
                let at = now + c.connack_delay as u64;
                let pkt = match c.connack {
                    0 => Some(mqtt::connack(0, 0, &[])),
                    1 => {
                        let p = ack_props(&mut self.sess[s].nrng);
                        let present = self.sess[s].nrng.pct(25) as u8;
                        Some(mqtt::connack(present, 0, &p))
                    }
                    2 => Some(mqtt::connack(1, 0, &[])),
                    3 => {
                        let p = if self.sess[s].nrng.pct(40) { ack_props(&mut self.sess[s].nrng) } else { vec![] };
                        Some(mqtt::connack(0, c.connack_arg as u8, &p))
                    }
                    4 => None,
                    5 => Some(match c.connack_arg {
                        0 => mqtt::pingresp(),
                        1 => mqtt::disconnect(0, 0, &[]),
                        2 => mqtt::disconnect(137, 1, &[]),
                        3 => mqtt::publish(&InPub { qos: 0, dup: false, retain: false, topic: b"early".to_vec(), id: 0, props: vec![], payload: b"x".to_vec() }),
                        4 => mqtt::publish(&InPub { qos: 1, dup: false, retain: false, topic: b"early".to_vec(), id: 9, props: vec![], payload: b"x".to_vec() }),
                        5 => mqtt::ack(9, 1, 0, 1, &[]),
                        6 => mqtt::ack(4, 1, 0, 1, &[]),
                        _ => mqtt::ack(11, 1, 0, 1, &[]),
                    }),
                    _ => Some([mqtt::connack(0, 0, &[]), mqtt::connack(0, 0, &[])].concat()),
                };
                if let Some(b) = pkt {
                    self.broker_later(s, at, BOut::Bytes(b, "connack"));
                }
            }
            Out::Publish { qos: 1, id, .. } => self.broker_ack(s, 4, id),
            Out::Publish { .. } => {}
            Out::Subscribe { id, .. } => self.broker_ack(s, 9, id),
            Out::Unsubscribe { id, .. } => self.broker_ack(s, 11, id),
            Out::Puback { .. } => {}
            Out::Pingreq => {
                if self.sess[s].ping_drop > 0 {
                    self.sess[s].ping_drop -= 1;
                    self.stat("fault.ping_unanswered");
                    return;
                }
                let d = self.sess[s].ping_delay as u64;
                if d > 1000 {
                    self.stat("fault.ping_delayed");
                }
                self.broker_later(s, now + d, BOut::Bytes(mqtt::pingresp(), "pingresp"));
            }
            Out::Disconnect { .. } => self.broker_later(s, now + 1, BOut::Eof),
        }
    }

    fn broker_ack(&mut self, s: usize, kind: u8, id: u16) {
        if self.sess[s].hold {
            self.sess[s].held.push((kind, id));
            return;
        }
        let c = &self.sess[s].cfg;
        let (d, j) = (c.ack_delay as u64, c.ack_jitter as u64);
        let at = self.now + d + self.sess[s].nrng.below(j + 1);
        self.send_ack(s, kind, id, at);
    }

    fn send_ack(&mut self, s: usize, kind: u8, id: u16, at: u64) {
        let ss = &mut self.sess[s];
        let mut form = ss.cfg.ack_form;
        if form > 2 {
            form = ss.nrng.below(3) as u32;
        }
        let reason = if ss.cfg.ack_reason == 0 || ss.nrng.pct(50) {
            0
        } else {
            match kind {
                4 => *ss.nrng.pick(&[0u8, 16, 128, 131, 135, 144, 145, 151, 153]),
                9 => *ss.nrng.pick(&[0u8, 1, 2, 128, 131, 135, 143, 145, 151, 158, 161, 162]),
                _ => *ss.nrng.pick(&[0u8, 17, 128, 131, 135, 143, 145]),
            }
        };
        let p = if form > 1 { ack_props(&mut ss.nrng) } else { vec![] };
        ss.last_acked = Some((kind, id));
        let b = mqtt::ack(kind, id, reason, form as u8, &p);
        self.broker_later(s, at, BOut::Bytes(b, "ack"));
    }

    fn net_send(&mut self, s: usize, b: Vec<u8>) {
        let now = self.now;
        let ss = &mut self.sess[s];
        if ss.b_closed {
            return;
        }
        let mut at = (now + ss.cfg.latency as u64 + ss.nrng.below(ss.cfg.jitter as u64 + 1)).max(ss.last_at);
        let n = b.len();
        let mut cuts: Vec<usize> = vec![];
        match ss.cfg.seg {
            1 if n <= 600 => cuts = (1..n).collect(),
            2 if n <= 5000 => {
                let mut p = 0;
                while p < n {
                    p += 1 + ss.nrng.below(5) as usize;
                    if p < n {
                        cuts.push(p);
                    }
                }
            }
            3 if n > 1 => cuts.push(1 + ss.nrng.below(n as u64 - 1) as usize),
            4 => {
                if let Some((_, Seg::Bytes(v))) = ss.net.back_mut() {
                    v.extend_from_slice(&b);
                    return;
                }
            }
            5 => {
                // inside the fixed header and right behind it
                cuts = (1..n.min(7)).filter(|_| ss.nrng.pct(40)).collect();
                if n > 8 && ss.nrng.pct(40) {
                    cuts.push(7 + ss.nrng.below(n as u64 - 7) as usize);
                }
            }
            _ => {}
        }
        if n > 20_000 && cuts.is_empty() {
            // nothing that large travels in one piece
            let mut p = 0;
            while p < n {
                p += 1 + ss.nrng.below(40_000) as usize;
                if p < n {
                    cuts.push(p);
                }
            }
        }
        cuts.push(n);
        let mut prev = 0;
        for c in cuts {
            if prev > 0 && ss.cfg.jitter > 0 && ss.nrng.pct(20) {
                at += ss.nrng.below(ss.cfg.jitter as u64 + 1);
            }
            ss.net.push_back((at, Seg::Bytes(b[prev..c].to_vec())));
            prev = c;
        }
        ss.last_at = at;
        if ss.cfg.seg > 0 && ss.cfg.seg != 4 {
            self.stat("fault.segmented");
        }
    }

    fn net_drop_tail(&mut self, s: usize, mut k: usize) {
        let ss = &mut self.sess[s];
        let before = k;
        while k > 0 {
            match ss.net.back_mut() {
                Some((_, Seg::Bytes(v))) if v.len() > k => {
                    v.truncate(v.len() - k);
                    k = 0;
                }
                Some((_, Seg::Bytes(v))) => {
                    k -= v.len();
                    ss.net.pop_back();
                }
                _ => break,
            }
        }
        if before > k {
            self.stat("fault.bytes_lost_at_close");
        }
    }

    fn deliver(&mut self, s: usize) {
        let now = self.now;
        let (_, seg) = self.sess[s].net.pop_front().unwrap();
        match seg {
            Seg::Bytes(v) => {
                log!(self, "s{} {} bytes arrive", s, v.len());
                self.h(6, v.len() as u64);
                let ss = &mut self.sess[s];
                if ss.rbuf.is_empty() {
                    ss.rbuf_mark = Some(ss.reqs_tx);
                }
                ss.rbuf.extend(&v);
                let before = ss.inp.off;
                let items = ss.inp.push(&v);
                let mut prev = before;
                let mut answered = 0;
                for (it, end) in items {
                    ss.max_in_pkt = ss.max_in_pkt.max(end - prev);
                    prev = end;
                    if it == In::Pingresp {
                        answered += 1;
                    }
                    ss.items.push_back((it, end));
                }
                ss.max_in_pkt = ss.max_in_pkt.max(ss.inp.announced() as u64);
                if answered > 0 {
                    let q = self.seq;
                    self.seq += 1;
                    // at the very instant the next ping is due it may be too late by one poll
                    let polled = self.sess[s].lp.is_none() as u64;
                    self.sess[s].answer = Some((q, now + polled));
                }
            }
            Seg::Eof => {
                log!(self, "s{} end of stream arrives", s);
                self.h(7, 0);
                self.sess[s].r_eof = true;
                self.stat("fault.eof");
            }
            Seg::Reset => {
                log!(self, "s{} reset arrives", s);
                self.h(7, 1);
                self.sess[s].r_err = true;
                self.sess[s].werr = true;
                self.stat("fault.reset");
                if let Some(w) = self.sess[s].w_waker.take() {
                    w.wake();
                }
            }
        }
        if let Some(w) = self.sess[s].r_waker.take() {
            w.wake();
        }
    }

    fn take(&mut self, s: usize) {
        let now = self.now;
        let ss = &mut self.sess[s];
        let mut n = ss.total_out - ss.taken;
        if ss.cfg.take_max > 0 {
            n = n.min(1 + ss.nrng.below(ss.cfg.take_max as u64));
        }
        ss.taken += n;
        ss.take_at = now + ss.cfg.take_ms as u64;
        if let Some(w) = ss.w_waker.take() {
            ss.w_pending = false;
            w.wake();
        }
        self.h(8, n);
        while self.sess[s].takeq.front().map_or(false, |x| x.1 <= self.sess[s].taken) {
            let (p, _) = self.sess[s].takeq.pop_front().unwrap();
            self.broker_reacts(s, p);
        }
    }

    fn broker_emits(&mut self, s: usize) {
        let k = *self.sess[s].bq.keys().next().unwrap();
        match self.sess[s].bq.remove(&k).unwrap() {
            BOut::Bytes(b, what) => {
                log!(self, "s{} broker sends {} ({} bytes)", s, what, b.len());
                self.net_send(s, b)
            }
            BOut::Eof => self.broker_close(s, Seg::Eof, 0),
        }
    }

    fn broker_close(&mut self, s: usize, seg: Seg, drop: usize) {
        if self.sess[s].b_closed {
            return;
        }
        self.net_drop_tail(s, drop);
        let now = self.now;
        let ss = &mut self.sess[s];
        ss.b_closed = true;
        let at = (now + ss.cfg.latency as u64).max(ss.last_at);
        ss.last_at = at;
        ss.net.push_back((at, seg));
        ss.bq.clear();
    }

    fn bpub(&mut self, s: usize, q: u8, tlen: usize, payload_len: usize, mask: u32, flags: u32, id: u16) {
        let n = self.sess[s].bmsg;
        self.sess[s].bmsg += 1;
        let id = if q == 0 {
            0
        } else if id > 0 {
            id
        } else {
            let i = self.sess[s].next_bid;
            self.sess[s].next_bid = if i == u16::MAX { 1 } else { i + 1 };
            i
        };
        let form = (flags >> 4) & 3; // 0 no indicator, 1 bytes, 2 text
        // what a broker sends fits its length fields
        let mask = if (mask >> 8) & 7 > 4 && (mask >> 8) & 7 < 7 { mask & !0x700 | 4 << 8 } else { mask };
        let shared = tlen >= SHARED;
        let c = if shared { (tlen - SHARED) as u64 / 16 } else { n };
        let topic = if shared { POOL[(tlen - SHARED) % 16].to_string() } else { fill(&format!("b{}/", n), tlen.min(65535), n) };
        let tag = if shared { String::new() } else { format!("m{} ", n) };
        if shared {
            self.stat("in.shared_content");
        }
        let mut p = make_props(mask, c + 1000);
        if form > 0 {
            let at = (mix(c) % (p.len() as u64 + 1)) as usize;
            p.insert(at, Prop::Byte(1, (form - 1) as u8));
        }
        let payload_len = if payload_len >= EXACT {
            self.stat("probe.exact_length_in");
            (payload_len - EXACT).saturating_sub(body_len(topic.len(), q > 0, &p))
        } else {
            payload_len
        };
        let tag = if payload_len == 0 { String::new() } else { tag };
        if payload_len == 0 {
            self.stat("probe.empty_payload_in");
        }
        let payload = if form == 2 { fill_text(&tag, payload_len, c).into_bytes() } else { fill_bytes(&tag, payload_len, c) };
        let m = InPub {
            qos: q,
            dup: q > 0 && flags & 1 != 0,
            retain: flags & 2 != 0,
            topic: topic.into_bytes(),
            id,
            props: p,
            payload,
        };
        let b = mqtt::publish(&m);
        self.net_send(s, b);
    }

    // -------------------------------------------------------------- operations

    fn exec_op(&mut self, op: Op) -> Option<Box<dyn FnOnce()>> {
        let (s, a, now) = (op.s, op.a, self.now);
        log!(self, "s{} op {} {:?}", s, op.k.name(), &a[..4]);
        self.h(9, op.k as u64);
        match op.k {
            K::Pub => self.request(s, a[0] as usize, K::Pub, a[1] as u8, a[2] as usize, a[3] as usize, a[4], a[5]),
            K::Sub => self.request(s, a[0] as usize, K::Sub, a[1] as u8, a[2] as usize, 0, 0, 0),
            K::Unsub => self.request(s, a[0] as usize, K::Unsub, 0, a[2] as usize, 0, 0, 0),
            K::Disc => {
                self.stat("op.disconnect");
                self.request(s, a[0] as usize, K::Disc, 0, 0, 0, 0, 0)
            }
            K::Clone => {
                let n = self.sess[s].handles.len();
                let own = mem::client();
                let c = self.sess[s].handles[a[0] as usize % n].clone();
                drop(own);
                if let Some(c) = c {
                    self.sess[s].handles.push(Some(c));
                    self.sess[s].created += 1;
                    self.stat("op.clone_handle");
                }
            }
            K::Drop => {
                let n = self.sess[s].handles.len();
                let c = self.sess[s].handles[a[0] as usize % n].take();
                if c.is_some() {
                    self.stat("op.drop_handle");
                }
                return Some(Box::new(move || drop(c)));
            }
            K::DropAll => {
                self.stat("op.drop_all_handles");
                let v: Vec<_> = self.sess[s].handles.iter_mut().map(|h| h.take()).collect();
                return Some(Box::new(move || drop(v)));
            }
            K::Flood => {
                for i in 0..a[2] {
                    let mut kind = a[1];
                    if a[5] == 100 {
                        // of every kind
                        kind = [0, 1, 1, 3, 4][mix((i / 2) as u64 ^ 0xF100D) as usize % 5];
                    }
                    let k = if kind == 3 { K::Sub } else if kind == 4 { K::Unsub } else { K::Pub };
                    let q = if kind > 2 { 0 } else { kind as u8 };
                    let h = if a[4] > 0 { (a[0] + i) as usize } else { a[0] as usize };
                    let form = if a[5] == 0 || a[5] == 100 { i } else { a[5] - 1 };
                    self.request(s, h, k, q, 0, a[3] as usize, form, 0);
                }
            }
            K::InFlood => {
                self.sess[s].inflood = a[2];
                self.sess[s].inflood_qos = a[1] as u8;
            }
            K::Pause => {
                self.sess[s].paused = true;
                self.stat("fault.reader_paused");
            }
            K::Resume => {
                self.sess[s].paused = false;
                self.sess[s].cons_flag.put(true);
            }
            K::ConsDelay => self.sess[s].cons_ms = a[0],
            K::DropRx => {
                self.stat("fault.stream_dropped");
                // everything handed over so far
                while self.take_notification(s, "before drop") {}
                let ss = &mut self.sess[s];
                ss.handed_at_drop = ss.delivered;
                ss.rx_dropped = true;
                let rx = ss.rx.take();
                return Some(Box::new(move || drop(rx)));
            }
            K::DropLoop => {
                if a[0] > 0 {
                    self.sess[s].arm_drop = a[0];
                } else {
                    return self.crash(s);
                }
            }
            K::BPub => {
                if self.sess[s].connected_to_broker || a[4] & 8 != 0 {
                    self.bpub(s, a[0] as u8, a[1] as usize, a[2] as usize, a[3], a[4], a[5] as u16)
                }
            }
            K::BBurst => {
                if self.sess[s].connected_to_broker {
                    self.stat("op.broker_burst");
                    for _ in 0..a[1] {
                        // 0, 1: that quality; 3: both in turn; 5, 6: acknowledgements of nothing; 7: all
                        let k = if a[0] == 7 { [0, 1, 5, 6][self.sess[s].nrng.below(4) as usize] } else { a[0] };
                        if k >= 5 {
                            let id = 60_000 + (self.sess[s].bmsg % 5000) as u16;
                            self.sess[s].bmsg += 1;
                            let p = if a[2] > 100 { ack_props(&mut self.sess[s].nrng) } else { vec![] };
                            let b = mqtt::ack(if k == 5 { 9 } else { 11 }, id, 0, if p.is_empty() { 0 } else { 2 }, &p);
                            self.net_send(s, b);
                            continue;
                        }
                        let q = if k == 3 { (self.sess[s].bmsg % 2) as u8 } else { k as u8 };
                        self.bpub(s, q, 0, a[2] as usize, 0, 0, 0);
                    }
                }
            }
            K::BRaw => {
                if self.sess[s].conn == Conn::Open {
                    self.stat("fault.raw_bytes");
                    self.net_send(s, op.data.clone());
                }
            }
            K::BDisc => {
                if self.sess[s].conn == Conn::Open {
                    let p = if a[1] > 1 { ack_props(&mut self.sess[s].nrng) } else { vec![] };
                    let b = mqtt::disconnect(a[0] as u8, a[1] as u8, &p);
                    self.net_send(s, b);
                    if a[2] > 0 {
                        self.broker_close(s, Seg::Eof, 0);
                    }
                }
            }
            K::Hold => self.sess[s].hold = a[0] > 0,
            K::Release => {
                let mut v = std::mem::take(&mut self.sess[s].held);
                if a[0] == 3 {
                    // every a[1]-th
                    let k = a[1].max(2) as usize;
                    let (go, stay): (Vec<_>, Vec<_>) = v.into_iter().enumerate().partition(|(i, _)| i % k == 0);
                    self.sess[s].held = stay.into_iter().map(|x| x.1).collect();
                    self.stat("fault.acks_scattered");
                    for (_, (k, id)) in go {
                        self.send_ack(s, k, id, now);
                    }
                    return None;
                }
                match a[0] {
                    1 => v.reverse(),
                    2 => {
                        for i in (1..v.len()).rev() {
                            let j = self.sess[s].nrng.below(i as u64 + 1) as usize;
                            v.swap(i, j);
                        }
                    }
                    _ => {}
                }
                if a[0] > 0 && v.len() > 1 {
                    self.stat("fault.acks_reordered");
                }
                let n = if a[1] == 0 { v.len() } else { (a[1] as usize).min(v.len()) };
                let rest = v.split_off(n);
                self.sess[s].held = rest;
                for (k, id) in v {
                    self.send_ack(s, k, id, now);
                }
            }
            K::OddAck => self.odd_ack(s, a),
            K::PingDrop => self.sess[s].ping_drop = a[0],
            K::PingDelay => self.sess[s].ping_delay = a[0],
            K::PingResp => {
                if self.sess[s].connected_to_broker {
                    self.net_send(s, mqtt::pingresp())
                }
            }
            K::Eof => {
                if self.sess[s].conn == Conn::Open {
                    self.broker_close(s, Seg::Eof, a[0] as usize)
                }
            }
            K::Reset => {
                if self.sess[s].conn == Conn::Open {
                    if !self.sess[s].b_closed {
                        self.sess[s].rkind = a[1];
                    }
                    self.broker_close(s, Seg::Reset, a[0] as usize)
                }
            }
            K::WErr => {
                if self.sess[s].conn == Conn::Open {
                    self.stat("fault.write_error");
                    self.sess[s].werr = true;
                    self.sess[s].wkind = a[0];
                    if let Some(w) = self.sess[s].w_waker.take() {
                        w.wake();
                    }
                }
            }
            K::TakeStall => {
                self.stat("fault.broker_not_reading");
                self.sess[s].take_stall = now + a[0] as u64;
            }
            K::NetDelay => {
                self.stat("fault.partition");
                self.sess[s].net_hold = now + a[0] as u64;
            }
            K::Stall => {
                self.stat("fault.loop_stalled");
                self.sess[s].stall = now + a[0] as u64;
            }
            K::Jump => {
                self.stat("fault.clock_jump");
                self.frozen = now + a[0] as u64;
            }
            K::Spur => {
                self.stat("fault.spurious_poll");
                self.sess[s].flag.put(true);
                self.sess[s].no_progress = 0;
            }
        }
        None
    }

    fn odd_ack(&mut self, s: usize, a: [u32; 6]) {
        if !self.sess[s].connected_to_broker {
            return;
        }
        let kind = [4u8, 9, 11][a[0] as usize % 3];
        let outst: Vec<(u16, Kind)> = self.sess[s].outstanding.iter().map(|(k, v)| (*k, *v)).take(64).collect();
        let sel = |i: u32| outst.get(i as usize % outst.len().max(1)).copied();
        let now = self.now;
        match a[1] {
            0 => {
                // the last acknowledgement once more
                if let Some((k, id)) = self.sess[s].last_acked {
                    self.stat("fault.duplicate_ack");
                    self.send_ack(s, k, id, now);
                }
            }
            1 => {
                // for something never sent
                self.stat("fault.unsolicited_ack");
                let id = if a[2] == 0 { 1 } else { a[2] as u16 };
                let keep = self.sess[s].last_acked;
                self.send_ack(s, kind, id.max(1), now);
                self.sess[s].last_acked = keep;
            }
            2 => {
                // right identifier, wrong kind
                if let Some((id, k)) = sel(a[2]) {
                    let right = match k {
                        Kind::Pub1 => 4,
                        Kind::Sub => 9,
                        Kind::Unsub => 11,
                        Kind::Pub2 => 0,
                    };
                    if kind != right {
                        self.stat("fault.mismatched_ack");
                        let keep = self.sess[s].last_acked;
                        self.send_ack(s, kind, id, now);
                        self.sess[s].last_acked = keep;
                    }
                }
            }
            4 => {
                // one whose bytes resemble those of an outstanding or finished exchange
                let all = &self.sess[s].outstanding;
                let some = all.iter().nth(a[2] as usize % all.len().max(1)).map(|(id, k)| (*id, *k));
                let finished = self.sess[s].last_acked;
                let (id, right) = match (some, finished) {
                    (Some((id, k)), _) if a[3] & 1 == 0 => (
                        id,
                        match k {
                            Kind::Pub1 => 4,
                            Kind::Sub => 9,
                            Kind::Unsub => 11,
                            Kind::Pub2 => 0,
                        },
                    ),
                    (_, Some((k, id))) => (id, k),
                    _ => return,
                };
                let like = match a[4] % 8 {
                    0 => id ^ 0x100,
                    1 => id.swap_bytes(),
                    2 => id & 0xff,
                    3 => id.wrapping_add(256),
                    4 => id.wrapping_add(1),
                    5 => id.wrapping_sub(1),
                    6 => id ^ 0x8000,
                    _ => id ^ (1 << (a[2] % 16)),
                };
                let kind = if a[3] & 2 == 0 && right != 0 { right } else { kind };
                if like != 0 {
                    self.stat("fault.resembling_ack");
                    self.send_ack(s, kind, like, now);
                    self.sess[s].last_acked = finished;
                }
            }
            _ => {
                // the right one, twice in a row
                if let Some((id, k)) = sel(a[2]) {
                    let right = match k {
                        Kind::Pub1 => 4,
                        Kind::Sub => 9,
                        Kind::Unsub => 11,
                        Kind::Pub2 => return,
                    };
                    self.stat("fault.duplicate_ack");
                    self.sess[s].held.retain(|x| x.1 != id);
                    self.send_ack(s, right, id, now);
                    self.send_ack(s, right, id, now);
                }
            }
        }
    }

    fn crash(&mut self, s: usize) -> Option<Box<dyn FnOnce()>> {
        let lp = self.sess[s].lp.take()?;
        self.stat("fault.loop_dropped");
        log!(self, "s{} event loop dropped", s);
        let now = self.now;
        self.sess[s].end = Some((End::Dropped, now));
        Some(Box::new(move || {
            drop(lp);
            with(|w| w.after_end(s));
        }))
    }

    /// Checks that hold from the moment the event loop is gone.
    fn after_end(&mut self, s: usize) {
        let ss = &self.sess[s];
        if ss.conn == Conn::Open && ss.connect_sent && !(ss.wr_closed && ss.rd_dropped) {
            self.violation(s, "C12.not-closed", "the event loop is gone and the connection is still open".into());
        }
        for i in 0..self.sess[s].handles.len().min(3) {
            self.request(s, i, if i == 1 { K::Sub } else { K::Pub }, (i % 2) as u8, 0, 3, 0, 0);
        }
    }

    fn heal(&mut self) {
        self.healed = true;
        log!(self, "faults stop");
        let now = self.now;
        // a jump may have gone past it
        self.end = self.end.max(now);
        for s in 0..self.sess.len() {
            let ss = &mut self.sess[s];
            ss.stall = ss.stall.min(now);
            ss.take_stall = 0;
            ss.cfg.take_ms = 0;
            ss.take_at = 0;
            ss.net_hold = 0;
            ss.paused = false;
            ss.cons_ms = 0;
            ss.cons_next = 0;
            ss.cons_flag.put(true);
            ss.cfg.poll_delay = 0;
            ss.hold = false;
            ss.ping_drop = 0;
            ss.ping_delay = 1;
            ss.arm_drop = 0;
            let v = std::mem::take(&mut ss.held);
            for (k, id) in v {
                self.send_ack(s, k, id, now);
            }
        }
    }

    // -------------------------------------------------------------- how a session may end

    fn on_end(&mut self, s: usize, end: End) {
        let now = self.now;
        log!(self, "s{} event loop ends: {:?}", s, end);
        self.h(10, match &end {
            End::Ok => 1,
            End::Err { .. } => 2,
            _ => 3,
        });
        self.sess[s].end = Some((end.clone(), now));
        if let End::Panic(m) = &end {
            if m != "livelock" {
                let m = format!("the event loop panicked: {}", m);
                self.violation(s, "X.panic", m);
            }
            return;
        }
        let ss = &self.sess[s];
        if ss.unknown {
            return;
        }
        let acc = ss.is_accepted();
        // what would explain success, what an error
        let mut ok: Vec<String> = vec![];
        let mut err: Vec<String> = vec![];
        let mut all = false; // everything received before has to have been handed over
        if ss.conn == Conn::Failed {
            err.push("connection attempt failed".into());
        }
        if ss.werr_seen {
            err.push("write failed".into());
        }
        match &ss.term {
            Some((Term::Disconnect(0), _)) => {
                ok.push("broker's normal DISCONNECT".into());
                all = true;
            }
            Some((Term::Disconnect(r), _)) => {
                err.push(format!("broker's DISCONNECT with reason {}", r));
                all = true;
            }
            Some((t, _)) => {
                err.push(format!("{:?}", t));
                all = acc || matches!(t, Term::Refused(_));
            }
            None => {
                if ss.rerr_seen {
                    err.push("read failed".into());
                    all = acc;
                }
                if ss.eof_seen {
                    all = acc;
                    if ss.inp.partial() > 0 {
                        err.push("stream ended inside a packet".into());
                    } else if !acc {
                        err.push("stream ended before the connection was accepted".into());
                    } else {
                        ok.push("stream ended between packets".into());
                    }
                } else if ss.inp.early_bad() || (!acc && ss.inp.begun().map_or(false, |k| k != 2)) || matches!(ss.items.front(), Some((In::Malformed(_) | In::Unsupported(_) | In::Lenient(_), _))) {
                    err.push("undecodable packet begun".into());
                    all = acc;
                }
            }
        }
        if ss.disc_sent {
            ok.push("DISCONNECT transmitted".into());
            all = false;
        }
        if ss.werr_seen {
            all = false;
        }
        let (term, wrong_first) = (ss.term.clone(), !acc);
        match &end {
            End::Ok => {
                if ok.is_empty() {
                    let class = match &term {
                        _ if wrong_first => "C01.ended-ok",
                        Some((Term::Malformed(_) | Term::Unsupported(_), _)) => "C08.ended-ok",
                        _ if err.is_empty() => "C12.unexplained-end",
                        _ => "C12.wrong-outcome",
                    };
                    self.violation(s, class, format!("the event loop ended successfully; {}", if err.is_empty() { "nothing had ended the session".to_string() } else { format!("it should have failed: {}", err.join(", ")) }));
                }
            }
            End::Err { timed_out, text } => {
                if err.is_empty() {
                    if *timed_out && acc {
                        self.judge_timeout(s, text);
                        return;
                    }
                    let class = if self.sess[s].disc_sent && ok.len() == 1 {
                        "C13.wrong-outcome"
                    } else if ok.is_empty() && wrong_first {
                        "C01.unexplained-end"
                    } else if ok.is_empty() {
                        "C12.unexplained-end"
                    } else {
                        "C12.wrong-outcome"
                    };
                    self.violation(s, class, format!("the event loop ended with {:?}; {}", text, if ok.is_empty() { "nothing had ended the session".to_string() } else { format!("it should have succeeded: {}", ok.join(", ")) }));
                } else if *timed_out && acc && !self.sess[s].werr_seen && !self.sess[s].rerr_seen {
                    // both happened: the time-out has to be right on its own
                    self.judge_timeout(s, text);
                    return;
                } else if let Some((Term::Disconnect(r), _)) = &term {
                    if err.len() == 1 && *r != 0 {
                        let name = mqtt::DISCONNECT_REASONS.iter().find(|x| x.0 == *r).map_or("", |x| x.1);
                        let flat: String = text.to_lowercase().chars().filter(|c| c.is_ascii_alphanumeric()).collect();
                        if !flat.contains(name) {
                            self.violation(s, "C12.reason", format!("broker's DISCONNECT had reason {} ({}) but the error is {:?}", r, name, text));
                        }
                    }
                }
            }
            _ => {}
        }
        self.sess[s].need_all = all && (self.sess[s].rerr_seen || !matches!(&end, End::Err { timed_out: true, .. }));
    }

    fn judge_timeout(&mut self, s: usize, text: &str) {
        let now = self.now;
        let ss = &self.sess[s];
        self.stats.entry("probe.ping_timeout").and_modify(|x| *x += 1).or_insert(1);
        match ss.ping_at {
            None => {
                let m = format!("the event loop ended with {:?} before any ping was transmitted", text);
                self.violation(s, "C11.no-ping", m)
            }
            Some(t) => {
                let due = t + ss.keep_alive;
                if let Some((q, at)) = ss.answer {
                    if q > ss.ping_seq && at <= due {
                        let m = format!("the event loop ended with {:?} although the ping sent at {} was answered at {}", text, t, at);
                        self.violation(s, "C11.answered", m);
                        return;
                    }
                }
                if now + 5 < due {
                    let m = format!("the event loop ended with {:?} at {}, only {} ms after the ping sent at {}", text, now, now - t, t);
                    self.violation(s, "C11.premature", m);
                }
            }
        }
    }

    // -------------------------------------------------------------- invariants while nothing happens

    /// Called when no actor can act at the present instant, before time moves.
    fn check_memory(&mut self) {
        let live = mem::live();
        if (live < 90_000 && self.log.is_none()) || self.sess.iter().any(|s| s.unknown) {
            return;
        }
        let allowed: usize = self.sess.iter().map(|s| s.memory_allowed()).sum();
        self.mem_share = self.mem_share.max(live as usize * 100 / allowed);
        if live as usize > allowed {
            let out: usize = self.sess.iter().map(|s| s.outstanding.len()).sum();
            let wait: usize = self.sess.iter().map(|s| s.queue.len() + s.backlog()).sum();
            self.violation(0, "C18.growth", format!("the client holds {} bytes with {} exchanges unfinished and {} requests or notifications waiting: {} would do", live, out, wait, allowed));
            self.fatal = true;
        }
    }

    fn check_quiet(&mut self) {
        let now = self.now;
        self.check_memory();
        for s in 0..self.sess.len() {
            let ss = &mut self.sess[s];
            if !ss.blocked(now) && !ss.flag.get() && now >= self.frozen && ss.rbuf.is_empty() {
                // it has looked at everything
                ss.floating.clear();
                ss.floating_pong = false;
            }
            let ss = &self.sess[s];
            let mut cond: [Option<(&'static str, String)>; 10] = Default::default();
            if ss.lp.is_some() && ss.end.is_none() && !ss.blocked(now) && !ss.flag.get() && now >= self.frozen {
                let k = ss.keep_alive;
                if ss.conn == Conn::Open && !ss.connect_sent && ss.accepted == Accept::No {
                    cond[0] = Some(("C01.no-connect", "connected, but CONNECT is not transmitted".into()));
                }
                if ss.connect_sent && (!ss.rbuf.is_empty() || (ss.r_eof && !ss.eof_seen) || (ss.r_err && !ss.rerr_seen)) {
                    cond[1] = Some(("C14.stuck-read", "bytes or the end of the stream have arrived and the event loop is asleep".into()));
                }
                if ss.is_accepted() && ss.head_sendable() && ss.term.is_none() && !ss.unknown && !ss.disc_sent {
                    cond[2] = Some((
                        if ss.outstanding.is_empty() || !ss.queue[0].needs_id() { "C14.stuck-request" } else { "C05.stuck-request" },
                        format!("{} waits, {} identifiers are in use, and the event loop is asleep", ss.queue[0].brief(), ss.outstanding.len()),
                    ));
                }
                if let (Some(q), false, true) = (ss.q1.front(), ss.rx_dropped, ss.term.is_none()) {
                    if !ss.unknown && !ss.disc_sent && ss.rx.is_some() {
                        cond[3] = Some(("C07.missing-ack", format!("the message with identifier {} was received and is not acknowledged", q.id)));
                    }
                }
                if ss.rx.is_some() && !ss.paused && !ss.cons_flag.get() && ss.backlog() > 0 && !ss.unknown {
                    let e: String = format!("{:?}", ss.expected[ss.delivered]).chars().take(100).collect();
                    let class = if ss.delivered == 0 { "C01.no-notification" } else { "C06.missing" };
                    cond[4] = Some((class, format!("received in full but not handed over: {}", e)));
                }
                if let (Some((t, _)), false) = (&ss.term, ss.unknown) {
                    let class = match t {
                        Term::Refused(_) | Term::WrongFirst(_) => "C01.not-ended",
                        Term::Malformed(_) | Term::Unsupported(_) => "C08.not-ended",
                        Term::Disconnect(_) => "C12.not-ended",
                    };
                    cond[5] = Some((class, format!("the event loop goes on after {:?}", t)));
                } else if ss.eof_seen || ss.rerr_seen || ss.werr_seen {
                    cond[5] = Some((if ss.is_accepted() { "C12.not-ended" } else { "C01.not-ended" }, "the event loop goes on after the connection ended".into()));
                } else if ss.disc_sent {
                    cond[5] = Some(("C13.not-ended", "the event loop goes on after transmitting DISCONNECT".into()));
                } else if ss.conn == Conn::Failed {
                    cond[5] = Some(("C01.not-ended", "the event loop goes on after the connection attempt failed".into()));
                }
                if let (Accept::Yes(t), false) = (ss.accepted, ss.unknown) {
                    if ss.term.is_none() && !ss.eof_seen {
                        let last = ss.last_tx.max(t);
                        if now > last + k + SLACK {
                            cond[6] = Some(("C09.gap", format!("nothing was transmitted since {} (keep-alive {} ms)", last, k)));
                        }
                        if let Some(p) = ss.unanswered {
                            if now > p + k + SLACK {
                                cond[7] = Some(("C10.undetected", format!("the ping sent at {} was not answered and the event loop goes on", p)));
                            }
                        }
                    }
                }
            }
            let mut hits = vec![];
            for (i, c) in cond.into_iter().enumerate() {
                match c {
                    None => self.sess[s].since[i] = None,
                    Some((class, msg)) => {
                        let since = *self.sess[s].since[i].get_or_insert(now);
                        // the time rules carry their own slack; a timer may still be due at this very instant
                        let patience = patience(i);
                        if since != u64::MAX && now >= since + patience {
                            hits.push((i, class, msg));
                        }
                    }
                }
            }
            for (i, class, msg) in hits {
                self.sess[s].since[i] = Some(u64::MAX);
                self.violation(s, class, msg);
                if self.viol.len() > 6 {
                    self.fatal = true;
                }
            }
        }
    }

    // -------------------------------------------------------------- scheduling

    fn enabled(&self) -> Vec<Act> {
        let now = self.now;
        let mut v = vec![];
        if now < self.frozen {
            return v;
        }
        for (i, s) in self.sess.iter().enumerate() {
            if s.lp.is_some() && s.flag.get() && now >= s.stall && now >= s.ready_at {
                v.push(Act::Poll(i));
            }
            if let Conn::Connecting(t) = s.conn {
                if now >= t && s.cfg.conn_err != 9 {
                    v.push(Act::Conn(i));
                }
            }
            if let Some((t, _)) = s.net.front() {
                if now >= *t && now >= s.net_hold {
                    v.push(Act::Deliver(i));
                }
            }
            if s.total_out > s.taken && now >= s.take_at && now >= s.take_stall {
                v.push(Act::Take(i));
            }
            if let Some(((t, _), _)) = s.bq.iter().next() {
                if now >= *t {
                    v.push(Act::Broker(i));
                }
            }
            if s.rx.is_some() && !s.paused && s.cons_flag.get() && now >= s.cons_next {
                v.push(Act::Consume(i));
            }
        }
        if let Some(o) = self.ops.get(self.next_op) {
            if o.at <= now && o.at <= self.end {
                v.push(Act::Script);
            }
        }
        v
    }

    fn next_time(&self) -> u64 {
        let now = self.now;
        let mut t = if self.healed { self.end + self.settle } else { self.end };
        let mut up = |x: u64| {
            if x > now && x < t {
                t = x
            }
        };
        if now < self.frozen {
            return self.frozen;
        }
        for s in &self.sess {
            if s.lp.is_some() && s.flag.get() {
                up(s.stall.max(s.ready_at));
            }
            if s.stall > now {
                up(s.stall);
            }
            if let Conn::Connecting(t) = s.conn {
                up(t);
            }
            if let Some((t, _)) = s.net.front() {
                up((*t).max(s.net_hold));
            }
            if s.total_out > s.taken {
                up(s.take_at.max(s.take_stall));
            }
            if let Some(((t, _), _)) = s.bq.iter().next() {
                up(*t);
            }
            if s.rx.is_some() && !s.paused && s.cons_flag.get() {
                up(s.cons_next);
            }
            // moments at which something is to be looked at
            for (i, t) in s.since.iter().enumerate() {
                if let Some(t) = t {
                    up(t.saturating_add(patience(i)));
                }
            }
            if let (Accept::Yes(t), true, true) = (s.accepted, s.lp.is_some(), s.end.is_none()) {
                up(s.last_tx.max(t) + s.keep_alive + SLACK + 1);
                if let Some(t) = s.unanswered {
                    up(t + s.keep_alive + SLACK + 1);
                }
            }
        }
        if let Some(o) = self.ops.get(self.next_op) {
            up(o.at);
        }
        t
    }
}

/// How long a condition that must not last may last.
fn patience(i: usize) -> u64 {
    // the time rules carry their own slack; a timer may still be due at this very instant
    if i == 6 || i == 7 {
        2
    } else {
        100
    }
}

/// What the transmitted packet carries differently from what was asked.
fn differs(r: &Req, p: &Out) -> Option<String> {
    match (r.k, p) {
        (K::Pub, Out::Publish { qos, dup, retain, topic, props, payload, .. }) => {
            if *qos != r.qos {
                return Some(format!("quality of service {} instead of {}", qos, r.qos));
            }
            if *dup || *retain {
                return Some("dup or retain flag set".into());
            }
            if *topic != r.topic {
                return Some("another topic".into());
            }
            if *payload != r.payload {
                return Some(format!("another payload ({} bytes instead of {})", payload.len(), r.payload.len()));
            }
            let user = |v: &[Prop]| v.iter().filter(|x| x.id() == 0x26).cloned().collect::<Vec<_>>();
            let rest = |v: &[Prop]| {
                let mut w: Vec<Prop> = v.iter().filter(|x| x.id() != 0x26).cloned().collect();
                w.sort_by_key(|x| x.id());
                w
            };
            if user(props) != user(&r.props) || rest(props) != rest(&r.props) {
                return Some("other properties".into());
            }
            None
        }
        (K::Sub, Out::Subscribe { filter, opts, .. }) => {
            if *filter != r.topic {
                Some("another filter".into())
            } else if *opts != r.qos {
                Some(format!("subscription options {:#x} instead of {:#x}", opts, r.qos))
            } else {
                None
            }
        }
        (K::Unsub, Out::Unsubscribe { filter, .. }) => {
            if *filter != r.topic {
                Some("another filter".into())
            } else {
                None
            }
        }
        (_, p) => Some(format!("{} for a {} request", p.name(), r.k.name())),
    }
}

#[derive(Clone, Copy, Debug)]
enum Act {
    Poll(usize),
    Conn(usize),
    Deliver(usize),
    Take(usize),
    Broker(usize),
    Consume(usize),
    Script,
}

impl Act {
    fn class(self) -> usize {
        match self {
            Act::Poll(_) => 0,
            Act::Conn(_) | Act::Deliver(_) => 1,
            Act::Take(_) => 2,
            Act::Broker(_) => 3,
            Act::Consume(_) => 4,
            Act::Script => 5,
        }
    }
    fn code(self) -> u64 {
        match self {
            Act::Poll(i) => i as u64,
            Act::Conn(i) => 10 + i as u64,
            Act::Deliver(i) => 20 + i as u64,
            Act::Take(i) => 30 + i as u64,
            Act::Broker(i) => 40 + i as u64,
            Act::Consume(i) => 50 + i as u64,
            Act::Script => 60,
        }
    }
}

async fn idle_until(t0: tokio::time::Instant, t: u64) {
    let sleep = tokio::time::sleep_until(t0 + std::time::Duration::from_millis(t));
    tokio::pin!(sleep);
    let start = WAKES.with(|w| w.get());
    std::future::poll_fn(|cx| {
        MAIN.with(|m| *m.borrow_mut() = Some(cx.waker().clone()));
        if WAKES.with(|w| w.get()) != start {
            return Poll::Ready(());
        }
        sleep.as_mut().poll(cx)
    })
    .await
}

async fn poll_session(s: usize) {
    // a fresh cooperative budget, as every task gets when it is polled
    tokio::task::yield_now().await;
    let (lp, waker) = with(|w| {
        w.polls += 1;
        let fresh = w.sess[s].cfg.fresh_waker > 0;
        w.sess[s].flag.put(false);
        w.sess[s].was_woken = false;
        w.sess[s].idle_calls = 0;
        let wk = w.sess[s].flag.waker(fresh);
        (w.sess[s].lp.take(), wk)
    });
    let Some(mut lp) = lp else { return };
    let mut cx = Context::from_waker(&waker);
    LOGGED.with(|l| l.set(with(|w| w.sess[s].cfg.logged > 0).then_some(s)));
    POLLED.with(|p| p.set(Some(s)));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let _m = mem::client();
        lp.as_mut().poll(&mut cx)
    }));
    LOGGED.with(|l| l.set(None));
    POLLED.with(|p| p.set(None));
    let end = match r {
        Ok(Poll::Pending) => {
            let after: Option<Box<dyn FnOnce()>> = with(|w| {
                let ss = &mut w.sess[s];
                ss.lp = Some(lp);
                // what the application took since the last poll is a reason to have been woken, too
                if ss.progress == std::mem::replace(&mut ss.seen_progress, ss.progress) {
                    ss.no_progress += 1;
                    if ss.no_progress > 400 {
                        w.violation(s, "C14.spin", "the event loop was woken or woke itself 400 times in a row without anything to do".into());
                        w.fatal = true;
                    }
                } else {
                    ss.no_progress = 0;
                }
                let ss = &w.sess[s];
                let hit = match ss.arm_drop {
                    0 => false,
                    1 => ss.w_pending,
                    2 => ss.backlog() > 100,
                    3 => ss.q1.len() > 0,
                    4 => ss.outp.partial() > 0,
                    _ => ss.is_accepted(),
                };
                if hit {
                    w.stat("fault.loop_dropped_armed");
                    w.crash(s)
                } else {
                    None
                }
            });
            if let Some(f) = after {
                f()
            }
            // wakes that tokio put off (the cooperative budget was used up) arrive now
            tokio::task::yield_now().await;
            return;
        }
        Ok(Poll::Ready(Ok(()))) => End::Ok,
        Ok(Poll::Ready(Err(e))) => {
            let timed_out = e.chain().any(|c| c.downcast_ref::<io::Error>().map_or(false, |i| i.kind() == io::ErrorKind::TimedOut))
                || e.to_string().contains("imed out");
            End::Err { timed_out, text: e.chain().map(|c| c.to_string()).collect::<Vec<_>>().join(": ") }
        }
        Err(_) => {
            let m = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "?".into());
            with(|w| {
                w.on_end(s, End::Panic(m));
                w.fatal = true;
            });
            std::mem::forget(lp);
            return;
        }
    };
    let keep = with(|w| {
        w.on_end(s, end);
        w.sess[s].cfg.keep_loop > 0
    });
    if keep {
        with(|w| {
            w.stat("app.loop_kept");
            w.sess[s].kept = Some(lp);
        });
    } else {
        drop(lp);
    }
    with(|w| w.after_end(s));
}

/// Anything but a poll.
fn step(act: Act) {
    match act {
        Act::Poll(_) => unreachable!(),
        Act::Conn(s) => with(|w| {
            let ss = &mut w.sess[s];
            ss.conn = if ss.cfg.conn_err > 0 { Conn::Failed } else { Conn::Open };
            if let Some(k) = ss.conn_waker.take() {
                k.wake();
            }
            if w.sess[s].conn == Conn::Failed {
                w.stat("fault.connect_failed");
            }
            log!(w, "s{} connection attempt: {:?}", s, w.sess[s].conn);
        }),
        Act::Deliver(s) => with(|w| w.deliver(s)),
        Act::Take(s) => with(|w| w.take(s)),
        Act::Broker(s) => with(|w| w.broker_emits(s)),
        Act::Consume(s) => with(|w| {
            if w.take_notification(s, "reader") {
                let ss = &mut w.sess[s];
                ss.cons_next = w.now + ss.cons_ms as u64;
            }
        }),
        Act::Script => {
            let after = with(|w| {
                let op = w.ops[w.next_op].clone();
                w.next_op += 1;
                w.sess[op.s].no_progress = 0;
                w.exec_op(op)
            });
            if let Some(f) = after {
                f()
            }
        }
    }
}

async fn drive() {
    loop {
        let t0 = with(|w| {
            w.now = (tokio::time::Instant::now() - w.t0).as_millis() as u64;
            seal::set_sim_ms(w.now);
            w.t0
        });
        let act = with(|w| {
            w.steps += 1;
            STEPS.store(w.steps, std::sync::atomic::Ordering::Relaxed);
            if w.fatal || w.steps > MAX_STEPS {
                return Err(None);
            }
            if !w.healed && w.now >= w.end && w.ops.get(w.next_op).map_or(true, |o| o.at > w.end) && w.now >= w.frozen {
                w.heal();
            }
            // a woken loop may be run a little later
            let now = w.now;
            for s in &mut w.sess {
                let woken = s.flag.get();
                if woken && !s.was_woken {
                    s.was_woken = true;
                    s.ready_at = now + if s.cfg.poll_delay > 0 { s.nrng.below(s.cfg.poll_delay as u64 + 1) } else { 0 };
                }
            }
            let acts = w.enabled();
            if acts.is_empty() {
                w.check_quiet();
                if w.healed && w.now >= w.end + w.settle {
                    return Err(None);
                }
                return Err(Some(w.next_time().max(w.now + 1)));
            }
            let wts: Vec<u32> = acts.iter().map(|a| w.weights[a.class()]).collect();
            let k = w.srng.weighted(&wts);
            let a = acts[k];
            let c = a.code();
            w.h(11, c);
            Ok(a)
        });
        match act {
            Err(None) => return,
            Err(Some(t)) => idle_until(t0, t).await,
            Ok(Act::Poll(s)) => poll_session(s).await,
            Ok(a) => step(a),
        }
    }
}

/// Everything is stopped: what is left in the notification stream counts as handed over.
fn finale() {
    let n = with(|w| w.sess.len());
    for s in 0..n {
        if with(|w| w.fatal) {
            return;
        }
        let end_state = with(|w| w.sess[s].end.is_some());
        if !end_state {
            let f = with(|w| {
                let f = w.crash(s);
                w.stats.entry("fault.loop_dropped").and_modify(|x| *x -= 1);
                f
            });
            if let Some(f) = f {
                f()
            }
        }
        while with(|w| w.take_notification(s, "left over")) {}
        with(|w| {
            let ss = &w.sess[s];
            if ss.rx.is_some() {
                w.violation(s, "C15.stream-open", "the event loop is gone and the notification stream does not end".into());
            }
            let ss = &w.sess[s];
            if !ss.rx_dropped && !ss.unknown {
                if ss.need_all && ss.backlog() > 0 {
                    let e: String = format!("{:?}", ss.expected[ss.delivered]).chars().take(100).collect();
                    let class = match &ss.term {
                        _ if ss.delivered == 0 => "C01.no-notification",
                        Some((Term::Malformed(_) | Term::Unsupported(_), _)) => "C08.lost-before-error",
                        _ => "C06.lost-at-end",
                    };
                    let m = format!("{} of {} notifications reached the application before the session ended; next: {}", ss.delivered, ss.expected.len(), e);
                    w.violation(s, class, m);
                }
                let ss = &w.sess[s];
                if let Some((i, id)) = ss.acked.iter().find(|(i, _)| **i >= ss.delivered) {
                    let m = format!("the message with identifier {} (notification {}) was acknowledged, and the application was handed only {} notifications when the client stopped", id, i, ss.delivered);
                    w.violation(s, "C07.lost-acknowledged", m);
                }
            }
            let ss = &w.sess[s];
            if ss.is_accepted() && ss.delivered == 0 && ss.need_all && !ss.rx_dropped {
                w.violation(s, "C01.no-notification", "accepted, but the application was never told".into());
            }
        });
    }
    // the application lets go of everything
    for s in 0..n {
        let all = with(|w| {
            let ss = &mut w.sess[s];
            let v: Vec<_> = ss.handles.iter_mut().map(|h| h.take()).collect();
            (v, ss.rx.take(), ss.kept.take())
        });
        drop(all);
    }
    with(|w| {
        w.check_memory();
        let live = mem::live();
        if live > 20_000 && !w.fatal {
            w.violation(0, "C18.leak", format!("{} bytes of the client are left when everything of it was dropped", live));
        }
        w.h(13, (live > 20_000) as u64);
        if w.mem_share >= 60 {
            w.stat("probe.memory_60_percent");
        }
        if w.mem_share >= 80 {
            w.stat("probe.memory_80_percent");
        }
        if w.log.is_some() {
            log!(w, "memory left: {}, at most {} % of what was allowed", live, w.mem_share);
        }
    });
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let t = format!("{} at {}", msg, loc);
        if std::env::var_os("RUQSIM_DEBUG").is_some() {
            eprintln!("panic: {}", t);
        }
        let _ = PANIC.try_with(|p| *p.borrow_mut() = Some(t));
    }));
}

pub fn run(sc: &Scenario, trace: bool) -> Outcome {
    mem::reset();
    seal::set_sim_ms(0);
    seal::reset_rand(sc.seed);
    set_idmax(sc.idmax);
    let logged = sc.cfg.iter().any(|c| c.logged > 0);
    log::set_max_level(if logged { log::LevelFilter::Trace } else { log::LevelFilter::Off });
    let rt = tokio::runtime::Builder::new_current_thread()
        .enable_time()
        .start_paused(true)
        .rng_seed(tokio::runtime::RngSeed::from_bytes(&hash(&[sc.seed, 3]).to_le_bytes()))
        .build()
        .expect("runtime");
    let mut srng = Rng::new(hash(&[sc.seed, 1]));
    let weights = match sc.bias {
        0 => [4, 4, 4, 4, 4, 4, 0],
        1 => [40, 4, 4, 4, 4, 4, 0],
        2 => [1, 20, 20, 20, 20, 20, 0],
        3 => [8, 40, 40, 40, 2, 2, 0],
        4 => [2, 2, 2, 2, 2, 40, 0],
        _ => {
            let mut w = [0u32; 7];
            for x in w.iter_mut() {
                *x = *srng.pick(&[1, 3, 10, 30]);
            }
            w
        }
    };
    tokio::sim::set_connector(Some(Box::new(|addr| {
        // whose event loop is it? one that is being polled, if the address does not tell
        let by_addr = (addr.port() - 1000) as usize;
        let fits = |s: usize| with(|w| s == by_addr || by_addr == 0 && w.sess[s].cfg.same_addr > 0);
        let idle = || with(|w| (0..w.sess.len()).find(|s| (*s == by_addr || w.sess[*s].cfg.same_addr > 0) && w.sess[*s].conn == Conn::Idle));
        let polled = POLLED.with(|p| p.get()).filter(|s| fits(*s));
        let f: Connecting = Box::pin(ConnFut(polled.or_else(|| if by_addr == 0 { idle() } else { None }).unwrap_or(by_addr)));
        f
    })));
    let out = rt.block_on(async {
        let w = World {
            t0: tokio::time::Instant::now(),
            now: 0,
            sess: vec![],
            srng,
            weights,
            ops: sc.ops.clone(),
            next_op: 0,
            end: sc.end,
            settle: sc.settle,
            healed: false,
            frozen: 0,
            seq: 1,
            tag: 0,
            steps: 0,
            polls: 0,
            hash: 0,
            log: if trace { Some(vec![]) } else { None },
            viol: vec![],
            fatal: false,
            mem_share: 0,
            stats: BTreeMap::new(),
        };
        WORLD.with(|k| *k.borrow_mut() = Some(w));
        for i in 0..sc.cfg.len() {
            let s = Sess::new(i, sc);
            with(|w| w.sess.push(s));
        }
        drive().await;
        finale();
        with(|w| {
            let ends: Vec<String> = w
                .sess
                .iter()
                .map(|s| match &s.end {
                    Some((End::Ok, t)) => format!("ok@{}", t),
                    Some((End::Err { text, .. }, t)) => format!("err({})@{}", text.chars().take(60).collect::<String>(), t),
                    Some((End::Dropped, t)) => format!("dropped@{}", t),
                    Some((End::Panic(_), t)) => format!("panic@{}", t),
                    None => "alive".into(),
                })
                .collect();
            Outcome {
                viol: std::mem::take(&mut w.viol),
                hash: w.hash,
                steps: w.steps,
                polls: w.polls,
                sim_ms: w.now,
                truncated: w.steps > MAX_STEPS,
                stats: std::mem::take(&mut w.stats),
                log: w.log.take().unwrap_or_default(),
                ends: ends.join(" "),
            }
        })
    });
    // sessions that could not be dropped cleanly are leaked with the process
    std::mem::forget(WORLD.with(|w| w.borrow_mut().take()));
    tokio::sim::set_connector(None);
    std::mem::forget(rt);
    out
}

#[cfg(ruq_sim)]
fn set_idmax(n: u32) {
    ruq::sim::set_pktid_max(n as u16);
}
#[cfg(not(ruq_sim))]
fn set_idmax(_n: u32) {}

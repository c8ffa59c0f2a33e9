//! An independent MQTT 5 codec used by the simulated broker and by the oracles. It shares no
//! code with ruq: the strict parser judges what the client transmits, the reference decoder
//! says what the client should make of what it receives.

pub fn vbi(mut n: usize) -> Vec<u8> {
    let mut v = vec![];
    loop {
        let b = (n % 128) as u8;
        n /= 128;
        if n > 0 {
            v.push(b | 128);
        } else {
            v.push(b);
            return v;
        }
    }
}

pub fn lp(b: &[u8]) -> Vec<u8> {
    let mut v = ((b.len() as u16).to_be_bytes()).to_vec();
    v.extend_from_slice(b);
    v
}

pub fn frame(first: u8, body: &[u8]) -> Vec<u8> {
    let mut v = Vec::with_capacity(body.len() + 5);
    v.push(first);
    v.extend_from_slice(&vbi(body.len()));
    v.extend_from_slice(body);
    v
}

#[derive(Clone, Debug, PartialEq)]
pub enum Prop {
    Byte(u8, u8),
    U16(u8, u16),
    U32(u8, u32),
    Vbi(u8, u32),
    Str(u8, Vec<u8>),
    Bin(u8, Vec<u8>),
    Pair(u8, Vec<u8>, Vec<u8>),
}

impl Prop {
    pub fn id(&self) -> u8 {
        match self {
            Prop::Byte(i, _) | Prop::U16(i, _) | Prop::U32(i, _) | Prop::Vbi(i, _) => *i,
            Prop::Str(i, _) | Prop::Bin(i, _) | Prop::Pair(i, _, _) => *i,
        }
    }
    pub fn encode(&self) -> Vec<u8> {
        let mut v = vec![self.id()];
        match self {
            Prop::Byte(_, x) => v.push(*x),
            Prop::U16(_, x) => v.extend_from_slice(&x.to_be_bytes()),
            Prop::U32(_, x) => v.extend_from_slice(&x.to_be_bytes()),
            Prop::Vbi(_, x) => v.extend_from_slice(&vbi(*x as usize)),
            Prop::Str(_, s) | Prop::Bin(_, s) => v.extend_from_slice(&lp(s)),
            Prop::Pair(_, a, b) => {
                v.extend_from_slice(&lp(a));
                v.extend_from_slice(&lp(b));
            }
        }
        v
    }
}

pub fn props(p: &[Prop]) -> Vec<u8> {
    let body: Vec<u8> = p.iter().flat_map(|x| x.encode()).collect();
    let mut v = vbi(body.len());
    v.extend_from_slice(&body);
    v
}

pub struct Rd<'a> {
    pub b: &'a [u8],
    pub i: usize,
}

type R<T> = Result<T, &'static str>;

impl<'a> Rd<'a> {
    pub fn new(b: &'a [u8]) -> Self {
        Rd { b, i: 0 }
    }
    pub fn left(&self) -> usize {
        self.b.len() - self.i
    }
    pub fn u8(&mut self) -> R<u8> {
        let x = *self.b.get(self.i).ok_or("field runs past its end")?;
        self.i += 1;
        Ok(x)
    }
    pub fn take(&mut self, n: usize) -> R<&'a [u8]> {
        if self.left() < n {
            return Err("field runs past its end");
        }
        let s = &self.b[self.i..self.i + n];
        self.i += n;
        Ok(s)
    }
    pub fn u16(&mut self) -> R<u16> {
        let s = self.take(2)?;
        Ok(u16::from_be_bytes([s[0], s[1]]))
    }
    pub fn u32(&mut self) -> R<u32> {
        let s = self.take(4)?;
        Ok(u32::from_be_bytes([s[0], s[1], s[2], s[3]]))
    }
    pub fn bin(&mut self) -> R<Vec<u8>> {
        let n = self.u16()? as usize;
        Ok(self.take(n)?.to_vec())
    }
    pub fn utf8(&mut self) -> R<Vec<u8>> {
        let v = self.bin()?;
        std::str::from_utf8(&v).map_err(|_| "text is not UTF-8")?;
        Ok(v)
    }
    /// value, minimal?
    pub fn vbi(&mut self) -> R<(usize, bool)> {
        let mut v = 0usize;
        for k in 0..4 {
            let b = self.u8()?;
            v |= ((b & 127) as usize) << (7 * k);
            if b & 128 == 0 {
                return Ok((v, k == 0 || b != 0));
            }
        }
        Err("variable byte integer longer than 4 bytes")
    }
    pub fn prop(&mut self) -> R<Prop> {
        let id = self.u8()?;
        Ok(match id {
            0x01 | 0x17 | 0x19 | 0x24 | 0x25 | 0x28 | 0x29 | 0x2A => Prop::Byte(id, self.u8()?),
            0x13 | 0x21 | 0x22 | 0x23 => Prop::U16(id, self.u16()?),
            0x02 | 0x11 | 0x18 | 0x27 => Prop::U32(id, self.u32()?),
            0x0B => Prop::Vbi(id, self.vbi()?.0 as u32),
            0x03 | 0x08 | 0x12 | 0x15 | 0x1A | 0x1C | 0x1F => Prop::Str(id, self.utf8()?),
            0x09 | 0x16 => Prop::Bin(id, self.bin()?),
            0x26 => {
                let a = self.utf8()?;
                Prop::Pair(id, a, self.utf8()?)
            }
            _ => return Err("unknown property"),
        })
    }
    pub fn props(&mut self) -> R<(Vec<Prop>, bool)> {
        let (n, minimal) = self.vbi()?;
        let body = self.take(n)?;
        let mut r = Rd::new(body);
        let mut v = vec![];
        while r.left() > 0 {
            v.push(r.prop()?);
        }
        Ok((v, minimal))
    }
}

// ---------------------------------------------------------------- what the client transmits

#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Connect { clean: bool, keep_alive: u16 },
    Publish { qos: u8, dup: bool, retain: bool, topic: Vec<u8>, id: u16, props: Vec<Prop>, payload: Vec<u8> },
    Puback { id: u16, reason: u8 },
    Subscribe { id: u16, filter: Vec<u8>, opts: u8 },
    Unsubscribe { id: u16, filter: Vec<u8> },
    Pingreq,
    Disconnect { reason: u8 },
}

impl Out {
    pub fn name(&self) -> &'static str {
        match self {
            Out::Connect { .. } => "CONNECT",
            Out::Publish { .. } => "PUBLISH",
            Out::Puback { .. } => "PUBACK",
            Out::Subscribe { .. } => "SUBSCRIBE",
            Out::Unsubscribe { .. } => "UNSUBSCRIBE",
            Out::Pingreq => "PINGREQ",
            Out::Disconnect { .. } => "DISCONNECT",
        }
    }
    pub fn brief(&self) -> String {
        fn t(b: &[u8]) -> String {
            let s = String::from_utf8_lossy(b);
            let c: String = s.chars().take(16).collect();
            if b.len() > c.len() { format!("{:?}+{}", c, b.len() - c.len()) } else { format!("{:?}", c) }
        }
        match self {
            Out::Publish { qos, topic, id, payload, props, .. } => format!(
                "PUBLISH qos={} id={} topic={} props={} payload={}B", qos, id, t(topic), props.len(), payload.len()),
            Out::Subscribe { id, filter, opts } => format!("SUBSCRIBE id={} filter={} opts={}", id, t(filter), opts),
            Out::Unsubscribe { id, filter } => format!("UNSUBSCRIBE id={} filter={}", id, t(filter)),
            o => format!("{:?}", o),
        }
    }
}

fn parse_out(first: u8, body: &[u8]) -> R<Out> {
    let mut r = Rd::new(body);
    let flags = first & 15;
    let kind = first >> 4;
    let want_flags = match kind {
        1 | 4 | 12 | 14 => Some(0),
        8 | 10 => Some(2),
        3 => None,
        _ => return Err("a packet type a client does not send here"),
    };
    if let Some(w) = want_flags {
        if flags != w {
            return Err("wrong fixed header flags");
        }
    }
    let minimal = |(v, m): (Vec<Prop>, bool)| if m { Ok(v) } else { Err("property length not minimal") };
    let once = |p: &[Prop]| -> R<()> {
        for (i, x) in p.iter().enumerate() {
            if x.id() != 0x26 && p[..i].iter().any(|y| y.id() == x.id()) {
                return Err("property repeated");
            }
        }
        Ok(())
    };
    let out = match kind {
        1 => {
            if r.bin()? != b"MQTT" {
                return Err("protocol name");
            }
            if r.u8()? != 5 {
                return Err("protocol version");
            }
            let f = r.u8()?;
            if f & 1 != 0 {
                return Err("reserved connect flag");
            }
            let keep_alive = r.u16()?;
            let p = minimal(r.props()?)?;
            once(&p)?;
            r.utf8()?;
            if f & 4 != 0 {
                r.props()?;
                r.utf8()?;
                r.bin()?;
            }
            if f & 0x80 != 0 {
                r.utf8()?;
            }
            if f & 0x40 != 0 {
                r.bin()?;
            }
            Out::Connect { clean: f & 2 != 0, keep_alive }
        }
        3 => {
            let qos = (flags >> 1) & 3;
            if qos == 3 {
                return Err("QoS 3");
            }
            let topic = r.utf8()?;
            let id = if qos > 0 { r.u16()? } else { 0 };
            if qos > 0 && id == 0 {
                return Err("packet identifier 0");
            }
            let p = minimal(r.props()?)?;
            once(&p)?;
            for x in &p {
                if ![0x01, 0x02, 0x03, 0x08, 0x09, 0x0B, 0x23, 0x26].contains(&x.id()) {
                    return Err("property not allowed in PUBLISH");
                }
            }
            let payload = r.take(r.left())?.to_vec();
            Out::Publish { qos, dup: flags & 8 != 0, retain: flags & 1 != 0, topic, id, props: p, payload }
        }
        4 => {
            let id = r.u16()?;
            if id == 0 {
                return Err("packet identifier 0");
            }
            let reason = if r.left() > 0 { r.u8()? } else { 0 };
            if r.left() > 0 {
                let p = minimal(r.props()?)?;
                once(&p)?;
                if p.iter().any(|x| ![0x1F, 0x26].contains(&x.id())) {
                    return Err("property not allowed in PUBACK");
                }
            }
            Out::Puback { id, reason }
        }
        8 | 10 => {
            let id = r.u16()?;
            if id == 0 {
                return Err("packet identifier 0");
            }
            let p = minimal(r.props()?)?;
            if p.iter().any(|x| x.id() != 0x26 && !(kind == 8 && x.id() == 0x0B)) {
                return Err("property not allowed here");
            }
            let filter = r.utf8()?;
            if kind == 8 {
                let opts = r.u8()?;
                if opts & 0xC0 != 0 || opts & 3 == 3 || (opts >> 4) & 3 == 3 {
                    return Err("subscription options");
                }
                Out::Subscribe { id, filter, opts }
            } else {
                Out::Unsubscribe { id, filter }
            }
        }
        12 => Out::Pingreq,
        14 => {
            let reason = if r.left() > 0 { r.u8()? } else { 0 };
            if r.left() > 0 {
                let p = minimal(r.props()?)?;
                once(&p)?;
            }
            Out::Disconnect { reason }
        }
        _ => unreachable!(),
    };
    if r.left() > 0 {
        return Err("bytes left over after the last field");
    }
    Ok(out)
}

/// Strict incremental parser of the client's output.
#[derive(Default)]
pub struct OutParser {
    buf: Vec<u8>,
    pub off: u64,
    pub broken: bool,
}

impl OutParser {
    pub fn partial(&self) -> usize {
        self.buf.len()
    }
    /// The packets completed by `data` with their end offsets.
    pub fn push(&mut self, data: &[u8]) -> Result<Vec<(Out, u64)>, String> {
        if self.broken {
            return Ok(vec![]);
        }
        self.buf.extend_from_slice(data);
        let mut v = vec![];
        let mut at = 0;
        loop {
            let b = &self.buf[at..];
            if b.is_empty() {
                break;
            }
            let first = b[0];
            if ![1, 3, 4, 8, 10, 12, 14].contains(&(first >> 4)) {
                self.broken = true;
                return Err(format!("byte {:#04x} at offset {} starts no packet a client sends", first, self.off));
            }
            let mut r = Rd::new(&b[1..]);
            let (len, minimal) = match r.vbi() {
                Ok(x) => x,
                Err(e) if b.len() > 4 => {
                    self.broken = true;
                    return Err(e.into());
                }
                Err(_) => break,
            };
            if !minimal {
                self.broken = true;
                return Err("remaining length not minimal".into());
            }
            let hdr = 1 + r.i;
            if b.len() < hdr + len {
                break;
            }
            match parse_out(first, &b[hdr..hdr + len]) {
                Ok(p) => {
                    self.off += (hdr + len) as u64;
                    v.push((p, self.off));
                }
                Err(e) => {
                    self.broken = true;
                    let shown: Vec<u8> = b[..(hdr + len).min(40)].to_vec();
                    return Err(format!("packet of type {} at offset {}: {} (starts {:02x?})", first >> 4, self.off, e, shown));
                }
            }
            at += hdr + len;
        }
        self.buf.drain(..at);
        Ok(v)
    }
}

// ---------------------------------------------------------------- what the broker transmits

#[derive(Clone, Debug, PartialEq)]
pub struct InPub {
    pub qos: u8,
    pub dup: bool,
    pub retain: bool,
    pub topic: Vec<u8>,
    pub id: u16,
    pub props: Vec<Prop>,
    pub payload: Vec<u8>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum In {
    Connack { present: bool, reason: u8, props: Vec<Prop> },
    Publish(InPub),
    Puback { id: u16 },
    Suback { id: u16, reason: u8, props: Vec<Prop> },
    Unsuback { id: u16, reason: u8, props: Vec<Prop> },
    Pingresp,
    Disconnect { reason: u8 },
    /// Cannot be decoded: the session must end with an error.
    Malformed(&'static str),
    /// Of a kind this client does not support: the session must end with an error.
    Unsupported(u8),
    /// Unusual in a way on which MQTT or this client leaves room: nothing is demanded from here
    /// on except the absence of crashes and hangs.
    Lenient(u8),
}

const CONNACK_REASONS: &[u8] = &[
    0, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 140, 144, 149, 151, 153, 154, 155, 156, 157, 159,
];
const PUBACK_REASONS: &[u8] = &[0, 16, 128, 131, 135, 144, 145, 151, 153];
const SUBACK_REASONS: &[u8] = &[0, 1, 2, 128, 131, 135, 143, 145, 151, 158, 161, 162];
const UNSUBACK_REASONS: &[u8] = &[0, 17, 128, 131, 135, 143, 145];
/// Reason codes a server may send in DISCONNECT, with distinctive parts of their names.
pub const DISCONNECT_REASONS: &[(u8, &str)] = &[
    (0, "normal"), (128, "unspecified"), (129, "malformed"), (130, "protocol"), (131, "implementation"),
    (135, "authorized"), (137, "busy"), (139, "shutting"), (141, "keepalive"), (142, "taken"), (143, "filter"),
    (144, "name"), (147, "receivemaximum"), (148, "alias"), (149, "toolarge"), (150, "rate"), (151, "quota"),
    (152, "administrative"), (153, "payloadformat"), (154, "retain"), (155, "qos"), (156, "another"),
    (157, "moved"), (158, "shared"), (159, "connectionrate"), (160, "maximumconnect"), (161, "ids"), (162, "wildcard"),
];

/// `allowed`: what MQTT allows in this packet; `known`: what this client supports.
fn judge_props(p: &[Prop], allowed: &[u8], known: &[u8]) -> Result<bool, &'static str> {
    let mut plain = true;
    for (i, x) in p.iter().enumerate() {
        if !allowed.contains(&x.id()) {
            return Err("property not allowed in this packet");
        }
        if !known.contains(&x.id()) || (x.id() != 0x26 && p[..i].iter().any(|y| y.id() == x.id())) {
            plain = false;
        }
        if let Prop::Byte(1, v) = x {
            if *v > 1 {
                plain = false;
            }
        }
    }
    Ok(plain)
}

fn parse_in(first: u8, minimal: bool, body: &[u8]) -> In {
    fn go(first: u8, body: &[u8], plain: &mut bool) -> R<In> {
        let mut r = Rd::new(body);
        let flags = first & 15;
        let kind = first >> 4;
        if kind != 3 && flags != 0 {
            *plain = false;
        }
        let mut props = |r: &mut Rd<'_>, allowed: &[u8], known: &[u8], plain: &mut bool| -> R<Vec<Prop>> {
            // An unknown or unsupported property may make the rest unreadable to the client: order
            // matters only for what is demanded, and an error is demanded only if every property
            // before the bad one is supported.
            let (n, min) = r.vbi()?;
            if !min {
                *plain = false;
            }
            let body = r.take(n)?;
            let mut q = Rd::new(body);
            let mut v: Vec<Prop> = vec![];
            while q.left() > 0 {
                let x = match q.prop() {
                    Ok(x) => x,
                    Err(e) => return if judge_props(&v, allowed, known) == Ok(true) { Err(e) } else { *plain = false; Ok(v) },
                };
                v.push(x);
            }
            match judge_props(&v, allowed, known) {
                Ok(p) => *plain &= p,
                Err(e) => return Err(e),
            }
            Ok(v)
        };
        let ack = &[0x1F, 0x26];
        let out = match kind {
            2 => {
                let f = r.u8()?;
                if f > 1 {
                    return Err("connack flags");
                }
                let reason = r.u8()?;
                if !CONNACK_REASONS.contains(&reason) {
                    return Err("connack reason");
                }
                let all = &[0x11, 0x12, 0x13, 0x15, 0x16, 0x1A, 0x1C, 0x1F, 0x21, 0x22, 0x24, 0x25, 0x26, 0x27, 0x28, 0x29, 0x2A];
                let p = props(&mut r, all, ack, plain)?;
                In::Connack { present: f == 1, reason, props: p }
            }
            3 => {
                let qos = (flags >> 1) & 3;
                if qos == 3 {
                    return Err("QoS 3");
                }
                if qos == 0 && flags & 8 != 0 {
                    *plain = false;
                }
                let topic = r.utf8()?;
                if topic.is_empty() || topic.iter().any(|c| *c == 0 || *c == b'#' || *c == b'+') {
                    *plain = false;
                }
                let id = if qos > 0 { r.u16()? } else { 0 };
                if qos > 0 && id == 0 {
                    return Err("packet identifier 0");
                }
                let p = props(&mut r, &[0x01, 0x02, 0x03, 0x08, 0x09, 0x0B, 0x23, 0x26], &[0x01, 0x02, 0x08, 0x09, 0x26], plain)?;
                let payload = r.take(r.left())?.to_vec();
                if p.contains(&Prop::Byte(1, 1)) && std::str::from_utf8(&payload).is_err() {
                    *plain = false;
                }
                if qos == 2 {
                    if *plain {
                        return Ok(In::Unsupported(3));
                    }
                }
                In::Publish(InPub { qos, dup: flags & 8 != 0, retain: flags & 1 != 0, topic, id, props: p, payload })
            }
            4 => {
                let id = r.u16()?;
                if id == 0 {
                    return Err("packet identifier 0");
                }
                if r.left() > 0 {
                    if !PUBACK_REASONS.contains(&r.u8()?) {
                        return Err("puback reason");
                    }
                }
                if r.left() > 0 {
                    props(&mut r, ack, ack, plain)?;
                }
                In::Puback { id }
            }
            9 | 11 => {
                let id = r.u16()?;
                if id == 0 {
                    return Err("packet identifier 0");
                }
                let p = props(&mut r, ack, ack, plain)?;
                let reason = r.u8()?;
                if kind == 9 {
                    if !SUBACK_REASONS.contains(&reason) {
                        return Err("suback reason");
                    }
                    In::Suback { id, reason, props: p }
                } else {
                    if !UNSUBACK_REASONS.contains(&reason) {
                        return Err("unsuback reason");
                    }
                    In::Unsuback { id, reason, props: p }
                }
            }
            13 => In::Pingresp,
            14 => {
                let reason = if r.left() > 0 { r.u8()? } else { 0 };
                if reason == 4 {
                    *plain = false;
                } else if !DISCONNECT_REASONS.iter().any(|(c, _)| *c == reason) {
                    return Err("disconnect reason");
                }
                if r.left() > 0 && r.left() < 3 && r.b[r.i..] != [0] {
                    *plain = false;
                    return Ok(In::Lenient(14));
                }
                if r.left() > 0 {
                    props(&mut r, &[0x1C, 0x1F, 0x26], ack, plain)?;
                }
                In::Disconnect { reason }
            }
            k => return Ok(In::Unsupported(k)),
        };
        if r.left() > 0 {
            *plain = false;
        }
        Ok(out)
    }
    let mut plain = minimal;
    match go(first, body, &mut plain) {
        Ok(In::Unsupported(k)) => In::Unsupported(k),
        Ok(x) if plain => x,
        Ok(_) => In::Lenient(first >> 4),
        Err(e) if plain => In::Malformed(e),
        Err(_) => In::Lenient(first >> 4),
    }
}

/// Reference decoder of the stream the client receives.
#[derive(Default)]
pub struct InParser {
    buf: Vec<u8>,
    pub off: u64,
    /// a packet after which nothing more is decoded has been seen
    pub dead: bool,
}

impl InParser {
    /// Bytes of an incomplete packet at the end of what arrived.
    pub fn partial(&self) -> usize {
        self.buf.len()
    }
    /// Length the incomplete packet announces, if its header is complete.
    pub fn announced(&self) -> usize {
        if self.buf.len() < 2 {
            return self.buf.len();
        }
        let mut r = Rd::new(&self.buf[1..]);
        r.vbi().map_or(self.buf.len(), |(len, _)| 5 + len as usize)
    }
    /// The incomplete packet can already be recognised as one that will end the session.
    pub fn early_bad(&self) -> bool {
        let b = &self.buf;
        !b.is_empty()
            && (matches!(b[0] >> 4, 0 | 1 | 5 | 6 | 7 | 8 | 10 | 12 | 15)
                || (b[0] >> 4 == 3 && (b[0] >> 1) & 3 >= 2)
                || (b.len() >= 5 && b[1..5].iter().all(|x| x & 128 != 0))
                || self.early_odd())
    }
    /// Kind of the incomplete packet.
    pub fn begun(&self) -> Option<u8> {
        self.buf.first().map(|b| b >> 4)
    }
    /// Its header alone is not that of a well-formed packet.
    fn early_odd(&self) -> bool {
        let b = &self.buf;
        let kind = b[0] >> 4;
        if kind != 3 && b[0] & 15 != 0 {
            return true;
        }
        match Rd::new(&b[1..]).vbi() {
            Err(_) => false,
            Ok((_, false)) => true,
            Ok((len, true)) => match kind {
                2 => len < 3,
                3 => len < if b[0] & 6 != 0 { 5 } else { 3 },
                4 => len < 2,
                9 | 11 => len < 4,
                13 => len != 0,
                _ => false,
            },
        }
    }
    pub fn push(&mut self, data: &[u8]) -> Vec<(In, u64)> {
        let mut out = vec![];
        if self.dead {
            return out;
        }
        self.buf.extend_from_slice(data);
        let mut at = 0;
        while !self.dead {
            let b = &self.buf[at..];
            if b.len() < 2 {
                break;
            }
            let first = b[0];
            let mut r = Rd::new(&b[1..]);
            let (len, minimal) = match r.vbi() {
                Ok(x) => x,
                Err(_) if b.len() >= 6 => {
                    self.off += 6;
                    at += 6;
                    out.push((In::Malformed("remaining length"), self.off));
                    self.dead = true;
                    break;
                }
                Err(_) => break,
            };
            let total = 1 + r.i + len;
            if b.len() < total {
                break;
            }
            let item = if first >> 4 == 0 {
                In::Malformed("packet type 0")
            } else {
                parse_in(first, minimal, &b[1 + r.i..total])
            };
            if matches!(item, In::Malformed(_) | In::Unsupported(_) | In::Lenient(_) | In::Disconnect { .. }) {
                self.dead = true;
            }
            self.off += total as u64;
            at += total;
            out.push((item, self.off));
        }
        self.buf.drain(..at);
        out
    }
}

// ---------------------------------------------------------------- broker side encoders

pub fn connack(session: u8, reason: u8, p: &[Prop]) -> Vec<u8> {
    let mut b = vec![session, reason];
    b.extend_from_slice(&props(p));
    frame(0x20, &b)
}

pub fn publish(m: &InPub) -> Vec<u8> {
    let mut b = lp(&m.topic);
    if m.qos > 0 {
        b.extend_from_slice(&m.id.to_be_bytes());
    }
    b.extend_from_slice(&props(&m.props));
    b.extend_from_slice(&m.payload);
    frame(0x30 | (m.dup as u8) << 3 | m.qos << 1 | m.retain as u8, &b)
}

/// form 0: as short as the packet kind allows; 1: with an explicit reason; 2: with properties
pub fn ack(kind: u8, id: u16, reason: u8, form: u8, p: &[Prop]) -> Vec<u8> {
    let mut b = id.to_be_bytes().to_vec();
    match kind {
        4 => {
            if form > 0 || reason != 0 {
                b.push(reason);
            }
            if form > 1 {
                b.extend_from_slice(&props(p));
            }
        }
        _ => {
            b.extend_from_slice(&props(if form > 1 { p } else { &[] }));
            b.push(reason);
        }
    }
    frame(kind << 4, &b)
}

pub fn pingresp() -> Vec<u8> {
    vec![0xD0, 0]
}

pub fn disconnect(reason: u8, form: u8, p: &[Prop]) -> Vec<u8> {
    if form == 0 && reason == 0 {
        return vec![0xE0, 0];
    }
    let mut b = vec![reason];
    if form > 1 {
        b.extend_from_slice(&props(p));
    }
    frame(0xE0, &b)
}

// ---------------------------------------------------------------- what the application is shown

fn dbg_str(b: &[u8]) -> String {
    format!("{:?}", String::from_utf8_lossy(b))
}

fn dbg_prop(p: &Prop) -> (String, Vec<String>) {
    match p {
        Prop::Byte(1, v) => (format!("PayloadFormatId({})", v), vec![format!("{}", v)]),
        Prop::U32(2, v) => (format!("MessageExpiryInterval({})", v), vec![format!("{}", v)]),
        Prop::Str(8, s) => (format!("ResponseTopic({})", dbg_str(s)), vec![dbg_str(s)]),
        Prop::Bin(9, b) => (format!("CorrelationData({:?})", b), vec![format!("{:?}", b)]),
        Prop::Pair(0x26, a, b) => (format!("UserProperty({}, {})", dbg_str(a), dbg_str(b)), vec![dbg_str(a), dbg_str(b)]),
        Prop::Str(0x1F, s) => (format!("ReasonString({})", dbg_str(s)), vec![dbg_str(s)]),
        p => (format!("{:?}", p), vec![]),
    }
}

fn in_order(text: &str, parts: &[String]) -> bool {
    let mut at = 0;
    for p in parts {
        match text[at..].find(p.as_str()) {
            Some(k) => at += k + p.len(),
            None => return false,
        }
    }
    true
}

/// Does the text shown to the application present this message? The present layout is compared
/// exactly first; any other layout has to contain every field.
pub fn shows_publish(text: &str, m: &InPub) -> bool {
    let q = ["AtMostOnce", "AtLeastOnce", "ExactlyOnce"][m.qos as usize];
    let payload = if m.props.contains(&Prop::Byte(1, 1)) {
        let s = dbg_str(&m.payload);
        (format!("String({})", s), s)
    } else {
        (format!("Bytes({:?})", m.payload), format!("{:?}", m.payload))
    };
    let plist: Vec<(String, Vec<String>)> = m.props.iter().map(dbg_prop).collect();
    let pid = if m.qos > 0 { format!("Some({})", m.id) } else { "None".into() };
    let exact = format!(
        "Publish {{ topic: {}, payload: {}, properties: [{}], flags: PublishFlags {{ dup: {}, qos: {}, retain: {} }}, pktid: {} }}",
        dbg_str(&m.topic),
        payload.0,
        plist.iter().map(|x| x.0.clone()).collect::<Vec<_>>().join(", "),
        m.dup,
        q,
        m.retain,
        pid
    );
    if text == exact {
        return true;
    }
    let values: Vec<String> = plist.iter().flat_map(|x| x.1.clone()).collect();
    text.contains(&dbg_str(&m.topic))
        && text.contains(&payload.1)
        && in_order(text, &values)
        && text.contains(q)
        && text.contains(&format!("retain: {}", m.retain))
        && text.contains(&format!("dup: {}", m.dup))
        && (m.qos == 0 || text.contains(&format!("{}", m.id)))
        && !text.starts_with("Publish { topic: ")
}

pub fn shows_connack(text: &str, present: bool, props: &[Prop]) -> bool {
    let values: Vec<String> = props.iter().flat_map(|x| dbg_prop(x).1).collect();
    let shown = text.matches("ReasonString(").count() + text.matches("UserProperty(").count();
    text.contains(if present { "true" } else { "false" }) && in_order(text, &values) && (shown == 0 || shown == props.len())
}

const SUBACK: &[(u8, &str)] = &[
    (0, "QoS0"), (1, "QoS1"), (2, "QoS2"), (128, "UnspecifiedError"), (131, "ImplementationSpecificError"), (135, "NotAuthorized"),
    (143, "TopicFilterInvalid"), (145, "PacketIdentifierInUse"), (151, "QuotaExceeded"), (158, "SharedSubsNotSupported"),
    (161, "SubIdsNotSupported"), (162, "WildcardSubsNotSupported"),
];
const UNSUBACK: &[(u8, &str)] = &[
    (0, "Success"), (17, "NoSubscriptionExisted"), (128, "UnspecifiedError"), (131, "ImplementationSpecificError"),
    (135, "NotAuthorized"), (143, "TopicFilterInvalid"), (145, "PacketIdentifierInUse"),
];

/// Whether the text shows the name of another reason than the one sent (names this does not
/// know say nothing).
pub fn shows_other_reason(text: &str, sub: bool, reason: u8) -> bool {
    let table = if sub { SUBACK } else { UNSUBACK };
    let Some(at) = text.rfind("reason: ") else { return false };
    let word: String = text[at + 8..].chars().take_while(|c| c.is_ascii_alphanumeric()).collect();
    table.iter().any(|(c, w)| *w == word && *c != reason)
}

pub fn shows_ack(text: &str, id: u16, props: &[Prop]) -> bool {
    let values: Vec<String> = props.iter().flat_map(|x| dbg_prop(x).1).collect();
    let n = format!("{}", id);
    let has_id = text
        .match_indices(&n)
        .any(|(k, _)| {
            let b = text.as_bytes();
            let before = k == 0 || !b[k - 1].is_ascii_digit();
            let after = k + n.len() >= b.len() || !b[k + n.len()].is_ascii_digit();
            before && after
        });
    // nothing but the sent properties is shown
    let shown = text.matches("ReasonString(").count() + text.matches("UserProperty(").count();
    has_id && in_order(text, &values) && (shown == 0 || shown == props.len())
}

//! A whole deployment: producers, a directory with a disk, gateways and consumers on a network.

use std::{
    cmp::Reverse,
    collections::{BTreeMap, BinaryHeap},
    sync::Arc,
};

use simcore::{
    cx::{Cx, Run},
    gen::G,
    gram::{self, Set},
    io::{End, Source, Stop},
    j::{s, J},
    tape::Rng,
    Call,
};

use super::*;
use crate::any::BUILDERS;

const MS: u64 = 1_000_000;
const SEC: u64 = 1_000 * MS;
const POLL: u64 = SEC;

/// What each property wants to see more of.
struct Focus {
    foreign: u64,
    gateways: u64,
    directory: u64,
    faults: bool,
    stamps: bool,
}

fn focus(prop: &str) -> Focus {
    match prop {
        "C01" => Focus { foreign: 0, gateways: 2, directory: 3, faults: true, stamps: false },
        "C02" => Focus { foreign: 3, gateways: 4, directory: 1, faults: true, stamps: false },
        "C03" => Focus { foreign: 2, gateways: 2, directory: 1, faults: false, stamps: false },
        "C10" => Focus { foreign: 1, gateways: 3, directory: 1, faults: true, stamps: false },
        "C12" => Focus { foreign: 1, gateways: 2, directory: 2, faults: true, stamps: true },
        _ => Focus { foreign: 1, gateways: 2, directory: 2, faults: true, stamps: false },
    }
}

/// A copy of a description under way or held somewhere; what it has to say travels with it.
#[derive(Clone)]
struct Copy {
    item: usize,
    ver: u64,
    bytes: Arc<Vec<u8>>,
    ghost: Arc<J>,
    hops: u32,
}

enum Msg {
    Get { item: usize, have: u64 },
    Doc(Copy, End),
}

enum Ev {
    Deliver { to: usize, from: usize, msg: Msg },
    Poll { node: usize },
    Crash { node: usize },
    Restart { node: usize },
    Publish { node: usize },
    Cut { a: usize, b: usize, until: u64 },
    Stall { node: usize, until: u64 },
    FaultsEnd,
}

struct Timed {
    at: u64,
    seq: u64,
    ev: Ev,
}
impl PartialEq for Timed {
    fn eq(&self, o: &Self) -> bool {
        (self.at, self.seq) == (o.at, o.seq)
    }
}
impl Eq for Timed {}
impl PartialOrd for Timed {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Timed {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        (self.at, self.seq).cmp(&(o.at, o.seq))
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Role {
    Producer,
    Foreign,
    Directory,
    Gateway,
    Consumer,
}

struct File {
    copy: Copy,
    /// How much of it is on the disk for certain.
    durable: Option<usize>,
    /// What can be read.
    len: usize,
}

struct Node {
    role: Role,
    set: Set,
    up: Option<usize>,
    depth: u64,
    proc: Option<Proc>,
    lives: u64,
    /// What it holds in memory, by item.
    held: BTreeMap<usize, (Copy, Option<Th>)>,
    /// The newest version each consumer has obtained, whatever it forgot since.
    disk: BTreeMap<usize, File>,
    raw: bool,
    stalled: u64,
    /// Producers: the version to publish next, its clock and its offset.
    ver: u64,
    clock: (i128, i32),
    item: usize,
}

struct World<'c> {
    cx: &'c mut Cx,
    q: BinaryHeap<Reverse<Timed>>,
    seq: u64,
    nodes: Vec<Node>,
    cuts: Vec<(usize, usize, u64)>,
    faults: bool,
    loss: u64,
    dup: u64,
    slow: u64,
    hash: u64,
    stamps: bool,
    latest: Vec<u64>,
    steps: u64,
}

pub fn run(cx: &mut Cx) -> Run {
    let f = focus(cx.prop);
    let hash = cx.t.subseed();
    let mut w = World {
        faults: f.faults && cx.t.chance(3, 4),
        loss: 0,
        dup: 0,
        slow: 0,
        cx,
        q: BinaryHeap::new(),
        seq: 0,
        nodes: Vec::new(),
        cuts: Vec::new(),
        hash,
        stamps: f.stamps,
        latest: Vec::new(),
        steps: 0,
    };
    w.topology(&f);
    w.plan();
    w.go()
}

impl World<'_> {
    fn pick_set(&mut self) -> Set {
        let sets: &[Set] = match self.cx.prop {
            "C10" => &[Set::EP, Set::Http, Set::Coap, Set::Mqtt, Set::Nil, Set::EP],
            _ => &[
                Set::Nil,
                Set::E2,
                Set::EP,
                Set::E1,
                Set::A,
                Set::Http,
                Set::Coap,
                Set::Mqtt,
            ],
        };
        *self.cx.t.pick(sets)
    }

    fn add(&mut self, role: Role, set: Set, up: Option<usize>, item: usize) -> usize {
        let depth = up.map(|u| self.nodes[u].depth + 1).unwrap_or(0);
        let id = self.nodes.len();
        let raw = self.cx.t.chance(1, 3);
        let clock = if matches!(role, Role::Producer | Role::Foreign) {
            let mut g = G::new(&mut self.cx.t, set, true);
            g.instant()
        } else {
            (0, 0)
        };
        let proc = Some(Proc::spawn(self.hash.wrapping_add(id as u64 * 1009)));
        self.nodes.push(Node {
            role,
            set,
            up,
            depth,
            proc,
            lives: 1,
            held: BTreeMap::new(),
            disk: BTreeMap::new(),
            raw,
            stalled: 0,
            ver: 0,
            clock,
            item,
        });
        id
    }

    fn topology(&mut self, f: &Focus) {
        let producers = 1 + self.cx.t.chance(1, 4) as usize;
        for item in 0..producers {
            let foreign = f.foreign > 0 && self.cx.t.chance(f.foreign, 4);
            let set = if self.cx.prop == "C10" {
                Set::EP
            } else {
                *self.cx.t.pick(BUILDERS)
            };
            let role = if foreign { Role::Foreign } else { Role::Producer };
            self.add(role, set, None, item);
            self.latest.push(0);
        }
        let mut ups: Vec<usize> = vec![];
        if self.cx.t.chance(f.directory, 4) {
            let set = self.pick_set();
            ups.push(self.add(Role::Directory, set, None, 0));
        }
        for _ in 0..self.cx.t.draw(f.gateways + 1) {
            let up = ups.last().copied();
            let set = self.pick_set();
            let id = self.add(Role::Gateway, set, up, 0);
            ups.push(id);
        }
        for _ in 0..1 + self.cx.t.draw(2) {
            let up = if ups.is_empty() {
                None
            } else if self.cx.t.chance(3, 4) {
                ups.last().copied()
            } else {
                Some(*self.cx.t.pick(&ups))
            };
            let set = self.pick_set();
            self.add(Role::Consumer, set, up, 0);
        }
        if self.cx.logging() {
            for (i, n) in self.nodes.iter().enumerate() {
                let t = format!("node {i}: {:?} with extensions {:?}, upstream {:?}", n.role, n.set, n.up);
                self.cx.say(|| t);
            }
        }
    }

    fn at(&mut self, at: u64, ev: Ev) {
        self.seq += 1;
        self.q.push(Reverse(Timed {
            at,
            seq: self.seq,
            ev,
        }));
    }

    fn plan(&mut self) {
        let producers = self.latest.len();
        for p in 0..producers {
            let mut t = 0;
            for _ in 0..1 + self.cx.t.draw(2) {
                self.at(t, Ev::Publish { node: p });
                t += SEC + self.cx.t.draw(3000) * MS;
            }
        }
        for n in producers..self.nodes.len() {
            let t = 10 * MS + self.cx.t.draw(1000) * MS;
            self.at(t, Ev::Poll { node: n });
        }
        let end = 8 * SEC;
        if self.faults {
            self.loss = *self.cx.t.pick(&[0u64, 1, 3, 6]);
            self.dup = *self.cx.t.pick(&[0u64, 1, 4]);
            self.slow = *self.cx.t.pick(&[0u64, 1, 4]);
            for _ in 0..self.cx.t.draw(4) {
                let at = self.cx.t.draw(7000) * MS;
                let node = self.cx.t.draw(self.nodes.len() as u64) as usize;
                match self.cx.t.draw(3) {
                    0 => {
                        self.at(at, Ev::Crash { node });
                        let d = 10 * MS + self.cx.t.draw(2000) * MS;
                        self.at(at + d, Ev::Restart { node });
                    }
                    1 => {
                        let b = self.cx.t.draw(self.nodes.len() as u64) as usize;
                        let until = at + (100 + self.cx.t.draw(4000)) * MS;
                        self.at(at, Ev::Cut { a: node, b, until });
                    }
                    _ => {
                        let until = at + (100 + self.cx.t.draw(3000)) * MS;
                        self.at(at, Ev::Stall { node, until });
                    }
                }
            }
        }
        self.at(end, Ev::FaultsEnd);
    }

    fn fault(&mut self, k: &str) {
        self.cx.fault(k);
        self.cx.say(|| format!("fault: {k}"));
    }

    fn go(&mut self) -> Run {
        // After the faults stop, each node needs at most one poll and one round trip per hop.
        let depth = self.nodes.iter().map(|n| n.depth).max().unwrap_or(0) + 2;
        let deadline = 8 * SEC + depth * (POLL + 400 * MS) + SEC;
        while let Some(Reverse(Timed { at, ev, .. })) = self.q.pop() {
            if at > deadline {
                break;
            }
            self.cx.now = at;
            self.steps += 1;
            if self.steps > 5000 {
                return self.cx.fail("harness: the simulation does not end");
            }
            self.handle(ev)?;
        }
        self.cx.now = deadline;
        self.settle()
    }

    fn handle(&mut self, ev: Ev) -> Run {
        let now = self.cx.now;
        match ev {
            Ev::FaultsEnd => {
                self.faults = false;
                self.cuts.clear();
                self.cx.say(|| "faults stop".into());
                for n in 0..self.nodes.len() {
                    self.nodes[n].stalled = 0;
                    if self.nodes[n].proc.is_none() {
                        self.restart(n)?;
                    }
                }
            }
            Ev::Cut { a, b, until } => {
                if self.faults && a != b {
                    self.fault("partition");
                    self.cuts.push((a, b, until));
                }
            }
            Ev::Stall { node, until } => {
                if self.faults {
                    self.fault("stalled node");
                    self.nodes[node].stalled = until;
                }
            }
            Ev::Crash { node } => {
                if self.faults {
                    self.crash(node);
                }
            }
            Ev::Restart { node } => {
                if self.nodes[node].proc.is_none() {
                    self.restart(node)?;
                }
            }
            Ev::Publish { node } => {
                if self.nodes[node].proc.is_none() {
                    self.at(now + 300 * MS, Ev::Publish { node });
                } else {
                    self.publish(node)?;
                }
            }
            Ev::Poll { node } => {
                if self.faults && self.nodes[node].stalled > now {
                    let t = self.nodes[node].stalled;
                    self.at(t, Ev::Poll { node });
                    return Ok(());
                }
                self.at(now + POLL, Ev::Poll { node });
                if self.nodes[node].proc.is_some() {
                    for item in 0..self.latest.len() {
                        let have = self.have(node, item);
                        let up = self.nodes[node].up.unwrap_or(item);
                        self.send(node, up, Msg::Get { item, have });
                    }
                }
            }
            Ev::Deliver { to, from, msg } => {
                if self.faults && self.nodes[to].stalled > now {
                    let t = self.nodes[to].stalled;
                    self.at(t, Ev::Deliver { to, from, msg });
                    return Ok(());
                }
                if self.nodes[to].proc.is_none() {
                    self.cx.count("messages to dead nodes");
                    return Ok(());
                }
                self.cx.step(to as u64 * 64 + from as u64, match &msg {
                    Msg::Get { .. } => "get",
                    Msg::Doc(..) => "doc",
                });
                match msg {
                    Msg::Get { item, have } => self.serve(to, from, item, have)?,
                    Msg::Doc(c, end) => self.receive(to, c, end)?,
                }
            }
        }
        Ok(())
    }

    fn have(&self, node: usize, item: usize) -> u64 {
        let n = &self.nodes[node];
        match n.role {
            Role::Directory => n.disk.get(&item).map(|f| f.copy.ver).unwrap_or(0),
            _ => n.held.get(&item).map(|(c, _)| c.ver).unwrap_or(0),
        }
    }

    // ------------------------------------------------------------ network

    fn send(&mut self, from: usize, to: usize, msg: Msg) {
        let now = self.cx.now;
        self.cx.count("messages");
        let cut = self
            .cuts
            .iter()
            .any(|(a, b, t)| *t > now && ((*a == from && *b == to) || (*a == to && *b == from)));
        if cut {
            self.fault("message lost in a partition");
            return;
        }
        let mut d = (1 + self.cx.t.draw(40)) * MS;
        if self.faults {
            if self.loss > 0 && self.cx.t.chance(self.loss, 16) {
                self.fault("message lost");
                return;
            }
            if self.slow > 0 && self.cx.t.chance(self.slow, 16) {
                d += self.cx.t.draw(4000) * MS;
                self.fault("message delayed");
            }
            if self.dup > 0 && self.cx.t.chance(self.dup, 16) {
                if let Msg::Doc(c, e) = &msg {
                    let d2 = d + self.cx.t.draw(2000) * MS;
                    let msg = Msg::Doc(c.clone(), *e);
                    self.fault("message duplicated");
                    self.at(now + d2, Ev::Deliver { to, from, msg });
                }
            }
        }
        self.at(now + d, Ev::Deliver { to, from, msg });
    }

    fn send_doc(&mut self, from: usize, to: usize, c: Copy, broken: Option<usize>) {
        let len = c.bytes.len();
        let mut end = match broken {
            Some(n) => End::Eof(n),
            None => End::Whole,
        };
        if self.faults && broken.is_none() && self.cx.t.chance(1, 8) {
            let n = self.cx.t.draw(len as u64) as usize;
            end = if self.cx.t.chance(1, 2) {
                End::Eof(n)
            } else {
                End::Fail(n, pick_kind(self.cx))
            };
            self.fault("connection lost in the middle of a document");
        }
        self.send(from, to, Msg::Doc(c, end));
    }

    // ------------------------------------------------------------ processes

    fn crash(&mut self, node: usize) {
        if self.nodes[node].proc.is_none() {
            return;
        }
        self.fault("crash");
        self.cx.say(|| format!("node {node} crashes"));
        let n = &mut self.nodes[node];
        n.proc = None;
        if !matches!(n.role, Role::Producer | Role::Foreign) {
            n.held.clear();
        } else {
            // It keeps what it published as contributions, not the Thing made from them.
            for (_, t) in n.held.values_mut() {
                *t = None;
            }
        }
        // What was not flushed to the disk may be gone from any byte on.
        let items: Vec<usize> = n.disk.keys().copied().collect();
        for i in items {
            let (len, durable) = {
                let f = &self.nodes[node].disk[&i];
                (f.len, f.durable)
            };
            if durable.is_none() {
                let keep = self.cx.t.draw(len as u64 + 1) as usize;
                if keep < len {
                    self.fault("file torn by a crash");
                }
                let f = self.nodes[node].disk.get_mut(&i).expect("harness");
                f.len = keep;
                f.durable = Some(keep);
            }
        }
    }

    fn restart(&mut self, node: usize) -> Run {
        let n = &mut self.nodes[node];
        n.lives += 1;
        let seed = self.hash.wrapping_add(node as u64 * 1009 + n.lives * 77_003);
        n.proc = Some(Proc::spawn(seed));
        self.cx.count("restarts");
        self.cx.say(|| format!("node {node} restarts"));
        if self.nodes[node].role == Role::Directory {
            let items: Vec<usize> = self.nodes[node].disk.keys().copied().collect();
            for i in items {
                self.load(node, i)?;
            }
        }
        Ok(())
    }

    // ------------------------------------------------------------ producers

    fn publish(&mut self, node: usize) -> Run {
        let item = self.nodes[node].item;
        let ver = self.nodes[node].ver + 1;
        let set = self.nodes[node].set;
        // Its clock runs on, and jumps.
        let jump = match self.cx.t.draw(4) {
            0 => 0,
            1 => self.cx.t.draw(7_200_000_000_000) as i128 - 3_600_000_000_000,
            2 => self.cx.t.draw(1000) as i128 - 500,
            _ => 0,
        };
        if jump != 0 {
            self.fault("clock jump");
        }
        let (base, off) = self.nodes[node].clock;
        let lo = -62_135_000_000_000_000_000i128;
        let hi = 253_402_000_000_000_000_000i128;
        let stamp = (base + self.cx.now as i128 + jump).clamp(lo, hi);
        self.nodes[node].clock.0 = base + jump;
        let (ghost, thing) = if self.nodes[node].role == Role::Foreign {
            let mut doc = G::new(&mut self.cx.t, Set::All, false).doc();
            if self.stamps {
                if let Some(t) = simcore::dates::spell(stamp, off) {
                    doc.set("modified", s(t));
                }
            }
            let style = self.cx.t.subseed();
            let bytes = foreign_text(&doc, style);
            let ghost = gram::canon(&doc, Set::All).unwrap_or_else(|e| panic!("harness: {e}"));
            self.cx.bytes(&bytes);
            let c = Copy {
                item,
                ver,
                bytes: Arc::new(bytes),
                ghost: Arc::new(ghost.clone()),
                hops: 0,
            };
            self.nodes[node].held.insert(item, (c, None));
            (ghost, None)
        } else {
            let mut m = Made::new(self.cx, set);
            if self.stamps || self.cx.t.chance(1, 4) {
                let v = || J::Arr(vec![J::Int(stamp), J::Int(off as i128)]);
                let k = if ver == 1 { "created" } else { "modified" };
                m.calls.retain(|c| c.k != k);
                m.calls.push(Call::new(k, "", v()));
            }
            let ghost = m.want();
            let p = self.nodes[node].proc.take().expect("harness: dead producer");
            let built = build_on(self.cx, &p, &m);
            self.nodes[node].proc = Some(p);
            match built? {
                Ok(mut t) => {
                    // The owner keeps what both halves of a property say in one of them only.
                    if self.cx.t.chance(1, 4) {
                        let seed = self.cx.t.subseed();
                        let n = Arc::get_mut(&mut t).map_or(0, |t| t.halve(seed));
                        self.cx.add("members kept in one half of a property", n);
                    }
                    let c = Copy {
                        item,
                        ver,
                        bytes: Arc::new(Vec::new()),
                        ghost: Arc::new(ghost.clone()),
                        hops: 0,
                    };
                    self.nodes[node].held.insert(item, (c, Some(t.clone())));
                    (ghost, Some(t))
                }
                Err(e) => {
                    // Whether it should have been accepted is another property's question.
                    self.cx.count("refused by the builder");
                    self.cx.say(|| format!("the builder refuses: {e}"));
                    return Ok(());
                }
            }
        };
        note(self.cx, &ghost);
        let _ = thing;
        self.nodes[node].ver = ver;
        self.latest[item] = ver;
        self.cx.say(|| format!("producer {node} publishes version {ver}: {}", clip(&ghost.text(), 3000)));
        Ok(())
    }

    /// The Thing a producer or gateway holds; a restarted producer has to make it again.
    fn text_of(&mut self, node: usize, item: usize) -> Res<Option<(Copy, Option<usize>)>> {
        let Some((c, t)) = self.nodes[node].held.get(&item).cloned() else {
            return Ok(None);
        };
        let Some(t) = t else {
            if self.nodes[node].role == Role::Foreign {
                return Ok(Some((c, None)));
            }
            // A producer that restarted reads its own published text back.
            if c.bytes.is_empty() {
                self.nodes[node].held.remove(&item);
                let v = self.nodes[node].ver;
                self.nodes[node].ver = v.saturating_sub(1);
                // Nobody has seen this version: it makes a new one.
                let now = self.cx.now;
                self.at(now + 50 * MS, Ev::Publish { node });
                return Ok(None);
            }
            let set = self.nodes[node].set;
            let p = self.nodes[node].proc.take().expect("harness: dead node");
            let r = must_parse(self.cx, &p, set, &c.bytes, In::Slice, "the restarted producer");
            self.nodes[node].proc = Some(p);
            let t = r?;
            self.nodes[node].held.insert(item, (c, Some(t)));
            return self.text_of(node, item);
        };
        let set = self.nodes[node].set;
        let p = self.nodes[node].proc.take().expect("harness: dead node");
        if self.faults && self.cx.t.chance(1, 12) {
            // The socket breaks, or the node is killed, half-way.
            let cut = pick_cut(self.cx);
            let n = self.cx.t.draw(3000) as usize;
            let killed = self.cx.t.chance(1, 3);
            let stop = if killed { Stop::Panic(n) } else { Stop::Fail(n, pick_kind(self.cx)) };
            let r = write_faulty(self.cx, &p, &t, cut, stop);
            self.nodes[node].proc = Some(p);
            let (data, r, stopped) = r?;
            if stopped {
                if r.is_ok() && self.cx.prop == "C01" {
                    return self.cx.fail("a failed write was reported as a success");
                }
                self.fault(if killed { "crash while writing" } else { "write failed" });
                let len = data.len();
                let mut c = c;
                c.bytes = Arc::new(data);
                if killed {
                    self.crash(node);
                    let now = self.cx.now;
                    self.at(now + 500 * MS, Ev::Restart { node });
                }
                return Ok(Some((c, Some(len))));
            }
            if let Err(e) = r {
                return self.cx.fail(format!("writing to a working sink failed: {e}"));
            }
            let mut c = c;
            c.bytes = Arc::new(data);
            return Ok(Some((c, None)));
        }
        let out = pick_out(self.cx);
        let r = write_on(self.cx, &p, &t, out);
        self.nodes[node].proc = Some(p);
        let b = r?;
        self.published(&b, set, &c.ghost, node)?;
        let mut c = c;
        c.bytes = Arc::new(b);
        if let Some((h, _)) = self.nodes[node].held.get_mut(&item) {
            h.bytes = c.bytes.clone();
        }
        Ok(Some((c, None)))
    }

    /// Judges a text a node of the library published.
    fn published(&mut self, b: &[u8], set: Set, ghost: &J, node: usize) -> Run {
        self.cx.count("texts published");
        match judge_text(b, set) {
            Err(e) => {
                if self.cx.prop == "C03" || (self.cx.prop == "C10" && binding_error(&e)) {
                    return self.cx.fail(format!(
                        "node {node} ({set:?}) published an improper document: {e}; document: {}",
                        clip(&String::from_utf8_lossy(b), 1500)
                    ));
                }
                self.cx.count("improper text");
            }
            Ok(says) => {
                if self.cx.prop != "C03" {
                    let want = gram::canon(ghost, set).unwrap_or_else(|e| panic!("harness: {e}"));
                    expect(self.cx, &want, &says, &|| {
                        format!("node {node} ({set:?}) published a document that says something else")
                    })?;
                }
            }
        }
        Ok(())
    }

    fn serve(&mut self, node: usize, to: usize, item: usize, have: u64) -> Run {
        if self.nodes[node].role == Role::Directory {
            return self.serve_disk(node, to, item, have);
        }
        let Some((c, _)) = self.nodes[node].held.get(&item) else {
            return Ok(());
        };
        if c.ver <= have {
            return Ok(());
        }
        if let Some((c, broken)) = self.text_of(node, item)? {
            self.send_doc(node, to, c, broken);
        }
        Ok(())
    }

    // ------------------------------------------------------------ readers

    fn receive(&mut self, node: usize, c: Copy, end: End) -> Run {
        let set = self.nodes[node].set;
        let p = self.nodes[node].proc.take().expect("harness: dead node");
        let r = self.read(&p, node, set, &c, end);
        self.nodes[node].proc = Some(p);
        let Some(t) = r? else { return Ok(()) };
        let newer = c.ver > self.have(node, c.item);
        if !newer {
            self.cx.count("stale or duplicated documents");
            return Ok(());
        }
        let seen = Arc::new(gram::canon(&c.ghost, set).unwrap_or_else(|e| panic!("harness: {e}")));
        if self.nodes[node].role == Role::Directory {
            return self.store(node, c, t, seen);
        }
        let c = Copy {
            ghost: seen,
            hops: c.hops + 1,
            ..c
        };
        self.nodes[node].held.insert(c.item, (c, Some(t)));
        Ok(())
    }

    /// Reads a document off a stream and checks what was read.
    fn read(&mut self, p: &Proc, node: usize, set: Set, c: &Copy, end: End) -> Res<Option<Th>> {
        if end != End::Whole {
            let cut = pick_cut(self.cx);
            let r = p.call(|| {
                any::parse(set, Src::Reader(&mut Source::new(&c.bytes, cut, end)))
                    .map(Th::from)
                    .map_err(|e| e.to_string())
            });
            let len = c.bytes.len();
            return match r {
                Err(e) => self.cx.fail(format!("panic while reading: {e}")),
                Ok(Err(_)) => {
                    self.cx.count("broken documents refused");
                    Ok(None)
                }
                // The last byte may have arrived before the connection was lost.
                Ok(Ok(_)) if matches!(end, End::Eof(n) if n >= len) && whole(&c.bytes) => Ok(None),
                Ok(Ok(t)) => {
                    if matches!(self.cx.prop, "C01" | "C02") {
                        return self.cx.fail(format!(
                            "node {node} made a Thing of a document that was cut short ({end:?} of {len}): {}",
                            clip(&t.observe().text(), 400)
                        ));
                    }
                    Ok(None)
                }
            };
        }
        let how = pick_in(self.cx);
        let t = must_parse(self.cx, p, set, &c.bytes, how, &format!("node {node}"))?;
        self.cx.count("documents read");
        if c.hops > 0 {
            self.cx.count("relayed documents read");
        }
        let want = gram::canon(&c.ghost, set).unwrap_or_else(|e| panic!("harness: {e}"));
        if self.cx.prop != "C03" {
            let got = t.observe();
            let hops = c.hops;
            expect(self.cx, &want, &got, &|| {
                format!("node {node} ({set:?}), after {hops} relays, read something else than was published")
            })?;
        }
        Ok(Some(t))
    }

    // ------------------------------------------------------------ the directory's disk

    fn store(&mut self, node: usize, c: Copy, t: Th, seen: Arc<J>) -> Run {
        let raw = self.nodes[node].raw;
        let set = self.nodes[node].set;
        let mut new = c.clone();
        let data = if raw {
            c.bytes.to_vec()
        } else {
            new.ghost = seen;
            new.hops += 1;
            let (cut, stop) = if self.faults && self.cx.t.chance(1, 4) {
                let n = self.cx.t.draw(3000) as usize;
                let stop = match self.cx.t.draw(3) {
                    0 => Stop::Full(n),
                    1 => Stop::Fail(n, pick_kind(self.cx)),
                    _ => Stop::Panic(n),
                };
                (pick_cut(self.cx), stop)
            } else {
                (WHOLE_CUT, Stop::Never)
            };
            let p = self.nodes[node].proc.take().expect("harness: dead node");
            let r = write_faulty(self.cx, &p, &t, cut, stop);
            self.nodes[node].proc = Some(p);
            let (data, r, stopped) = r?;
            if stopped {
                match stop {
                    Stop::Panic(_) => {
                        // Only the temporary file is affected.
                        self.fault("crash while writing to the disk");
                        self.crash(node);
                        let now = self.cx.now;
                        self.at(now + 300 * MS, Ev::Restart { node });
                    }
                    Stop::Full(_) => self.fault("disk full"),
                    _ => self.fault("disk error"),
                }
                if r.is_ok() && self.cx.prop == "C01" {
                    return self.cx.fail("a failed write to the disk was reported as a success");
                }
                return Ok(());
            }
            if let Err(e) = r {
                return self.cx.fail(format!("writing to a working disk failed: {e}"));
            }
            self.published(&data, set, &new.ghost.clone(), node)?;
            data
        };
        let len = data.len();
        new.bytes = Arc::new(data);
        let mut durable = Some(len);
        if self.faults && self.cx.t.chance(1, 4) {
            self.fault("flush to the disk lost");
            durable = None;
        }
        if self.faults && self.cx.t.chance(1, 16) {
            self.fault("crash before the rename");
            self.crash(node);
            let now = self.cx.now;
            self.at(now + 300 * MS, Ev::Restart { node });
            return Ok(());
        }
        self.nodes[node].disk.insert(
            c.item,
            File {
                copy: new,
                durable,
                len,
            },
        );
        Ok(())
    }

    /// Reads a file back; what cannot be read is as good as lost.
    fn load(&mut self, node: usize, item: usize) -> Res<Option<(Copy, Th)>> {
        let Some(f) = self.nodes[node].disk.get(&item) else {
            return Ok(None);
        };
        let (c, len) = (f.copy.clone(), f.len);
        let full = c.bytes.len();
        let set = self.nodes[node].set;
        let mut end = if len < full { End::Eof(len) } else { End::Whole };
        if self.faults && end == End::Whole && self.cx.t.chance(1, 12) {
            let n = self.cx.t.draw(full as u64) as usize;
            end = End::Fail(n, pick_kind(self.cx));
            self.fault("disk read error");
        }
        let torn = len < full;
        let p = self.nodes[node].proc.take().expect("harness: dead node");
        let r = self.read(&p, node, set, &c, end);
        self.nodes[node].proc = Some(p);
        match r? {
            Some(t) => Ok(Some((c, t))),
            None => {
                if torn {
                    self.nodes[node].disk.remove(&item);
                }
                Ok(None)
            }
        }
    }

    fn serve_disk(&mut self, node: usize, to: usize, item: usize, have: u64) -> Run {
        match self.nodes[node].disk.get(&item) {
            Some(f) if f.copy.ver > have => {}
            _ => return Ok(()),
        }
        let Some((mut c, t)) = self.load(node, item)? else {
            return Ok(());
        };
        if !self.nodes[node].raw {
            let set = self.nodes[node].set;
            let p = self.nodes[node].proc.take().expect("harness: dead node");
            let out = pick_out(self.cx);
            let r = write_on(self.cx, &p, &t, out);
            self.nodes[node].proc = Some(p);
            let b = r?;
            let g = c.ghost.clone();
            self.published(&b, set, &g, node)?;
            c.bytes = Arc::new(b);
            c.hops += 1;
        }
        self.send_doc(node, to, c, None);
        Ok(())
    }

    // ------------------------------------------------------------ the end

    fn settle(&mut self) -> Run {
        for n in 0..self.nodes.len() {
            if self.nodes[n].role != Role::Consumer {
                continue;
            }
            for item in 0..self.latest.len() {
                let have = self.have(n, item);
                let latest = self.latest[item];
                if have != latest && latest > 0 {
                    if self.cx.prop == "C01" {
                        return self.cx.fail(format!(
                            "consumer {n} has version {have} of description {item}, not {latest}, although faults stopped"
                        ));
                    }
                    self.cx.count("consumers without the latest version");
                } else if latest > 0 {
                    self.cx.count("consumers with the latest version");
                }
            }
        }
        Ok(())
    }
}

fn whole(b: &[u8]) -> bool {
    simcore::j::parse(b).is_ok()
}

fn binding_error(e: &str) -> bool {
    ["htv:", "cov:", "mqv:"].iter().any(|p| e.contains(p))
}

#[allow(dead_code)]
fn unused(_: Rng) {}

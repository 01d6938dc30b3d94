//! C09: a cluster of peers with different schema versions and implementations on a lossy network.
//!
//! A run is a list of events on a simulated clock (one event takes 1 ms). Messages are delayed,
//! reordered, duplicated, lost and cut off by partitions; nodes crash, restart, upgrade and roll
//! back; what they received and what they still have to send is durable. Every delivery, every
//! look into the log after a restart and every relayed message is checked against the reference
//! model (`Schema::view_of`).
use crate::{build, hist::*, read::family_len};
use serde::{Deserialize, Serialize};
use simcore::{decode, encode, gen::*, rng::Rng, schema::*};
use simdrv::{hash_of, viol, Check, Stats, Viol};
use simsup::{Cx, RCx};
use std::rc::Rc;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Net {
    /// one entry per copy that arrives; none: the message is lost for now
    pub delays: Vec<u32>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Ev {
    /// `ver`: the version `v` was made for; a node with another version restarts with it first
    Send { from: usize, to: usize, ver: usize, t: usize, v: Val, style: u64, net: Net },
    /// read message `n` of the log, convert it to an owned value, write that and send it on
    Relay { node: usize, n: usize, to: usize, style: u64, net: Net },
    /// send message `n` of the log on as it is
    Forward { node: usize, n: usize, to: usize, net: Net },
    /// what is not delivered yet is sent again
    Resend { node: usize, net: Net },
    Crash { node: usize },
    Restart { node: usize, ver: usize },
    /// nodes in the mask cannot talk to the others
    Partition { mask: u32 },
    Heal,
    Wait { ms: u32 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub fam: String,
    /// (another implementation?, first version)
    pub nodes: Vec<(bool, usize)>,
    pub evs: Vec<Ev>,
    /// where received bytes lie
    pub aligns: u64,
    /// let foreign writers put vtables where planus does not look
    pub odd: bool,
}
struct Msg {
    id: usize,
    from: usize,
    to: usize,
    t: usize,
    wver: usize,
    /// value in terms of wver
    v: Val,
    bytes: Vec<u8>,
    foreign: bool,
    hops: usize,
}
struct Node {
    foreign: bool,
    ver: usize,
    up: bool,
    builder: planus::Builder,
    /// durable
    log: Vec<Rc<Msg>>,
    /// durable: not known to be delivered
    outbox: Vec<Rc<Msg>>,
    got: std::collections::HashSet<usize>,
}
struct Sim<'a> {
    c: &'a Case,
    st: &'a mut Stats,
    nodes: Vec<Node>,
    clock: u64,
    seq: u64,
    flight: Vec<(u64, u64, Rc<Msg>)>,
    partition: u32,
    ids: usize,
    order: u64,
    align: Rng,
}
impl Sim<'_> {
    fn look(&mut self, node: usize, m: &Msg) -> Result<Val, Viol> {
        let n = &self.nodes[node];
        let (r, w) = (schema(&self.c.fam, n.ver), schema(&self.c.fam, m.wver));
        let expect = r.view_of(w, &Ty::Table(m.t), &m.v);
        let what = || {
            format!(
                "message {} (table {}, written with version {} by {}{}) read with version {} by node {node} ({})",
                m.id,
                m.t,
                m.wver,
                if m.foreign { "another implementation" } else { "planus" },
                if m.hops > 0 { format!(", relayed {} times", m.hops) } else { String::new() },
                n.ver,
                if n.foreign { "another implementation" } else { "planus" },
            )
        };
        let sig = |s: &str| if m.foreign && self.c.odd { "foreign:vtable-before-referrer".to_string() } else { s.to_string() };
        let class = match (m.wver.cmp(&n.ver), m.foreign, n.foreign) {
            (std::cmp::Ordering::Less, ..) => "read_by_newer_version",
            (std::cmp::Ordering::Greater, ..) => "read_by_older_version",
            _ => "read_by_same_version",
        };
        self.st.hit(class);
        if n.foreign {
            let mut d = decode::Dec { s: r, b: &m.bytes, objs: vec![], sites: vec![], budget: 1_000_000, strict: false };
            match d.root(m.t, None) {
                Ok(v) => {
                    if let Some(d) = diff(&expect, &v, "root") {
                        return viol(sig("foreign-read-differs"), format!("{}: {d}", what()));
                    }
                }
                Err(e) => return viol(sig("foreign-read-fails"), format!("{}: {e}", what())),
            }
            self.st.hit("read_by_another_implementation");
        } else {
            // somewhere in a receive buffer
            let off = self.align.below(16);
            let mut area = vec![0xa5u8; off];
            area.extend_from_slice(&m.bytes);
            let b = &area[off..];
            let a = api(&self.c.fam, n.ver);
            let cx = RCx::new(b, 1_000_000);
            let val = a.read(m.t, &cx, b);
            if let Some(p) = cx.problems.borrow().first() {
                return viol(sig("reader"), format!("{}: {p}", what()));
            }
            if let Some(d) = diff(&expect, &val, "root") {
                return viol(sig("read-differs"), format!("{}: {d}", what()));
            }
            match (a.owned(m.t, b), expect.has_err()) {
                (Ok(v), false) => {
                    if let Some(d) = diff(&expect, &v, "root") {
                        return viol(sig("owned-differs"), format!("{}: owned conversion: {d}", what()));
                    }
                }
                (Err(_), true) => self.st.hit("unknown_value_refused_by_owned_conversion"),
                (Ok(v), true) => return viol(sig("owned-hides-unknown"), format!("{}: the conversion succeeds although a value is unknown to the reader: {v:?}", what())),
                (Err(e), false) => return viol(sig("owned-fails"), format!("{}: owned conversion: {e}", what())),
            }
            if let Err(e) = a.debug(m.t, b) {
                return viol(sig("debug-fails"), format!("{}: {e}", what()));
            }
            if m.foreign {
                self.st.hit("foreign_message_read_by_planus");
            }
        }
        self.st.obs((node, m.id, hash_of(&expect)));
        self.st.state(hash_of((&expect, m.t, m.wver, n.ver)));
        Ok(expect)
    }
    fn write(&mut self, node: usize, t: usize, v: &Val, style: u64) -> Result<Vec<u8>, Viol> {
        let odd = self.c.odd;
        let fam = self.c.fam.clone();
        let n = &mut self.nodes[node];
        if n.foreign {
            let mut rng = Rng::new(style);
            let mut st = encode::Style::random(&mut rng);
            st.vtables_anywhere = odd;
            Ok(encode::encode(schema(&fam, n.ver), t, v, None, &mut rng, st))
        } else {
            n.builder.clear();
            let mut cx = Cx::new();
            cx.set_style(style, 20);
            if !api(&fam, n.ver).finish(t, &cx, &mut n.builder, v, None) {
                return viol("finish", "finish returns something else than the builder holds");
            }
            Ok(n.builder.as_slice().to_vec())
        }
    }
    fn post(&mut self, m: Msg, net: &Net) {
        let m = Rc::new(m);
        let from = m.from;
        self.nodes[from].outbox.push(m.clone());
        self.transmit(&m, net);
    }
    fn transmit(&mut self, m: &Rc<Msg>, net: &Net) {
        match net.delays.len() {
            0 => self.st.fault("message_lost"),
            1 => {}
            _ => self.st.fault("message_duplicated"),
        }
        for d in &net.delays {
            if *d > 0 {
                self.st.fault("message_delayed");
            }
            self.seq += 1;
            self.flight.push((self.clock + *d as u64, self.seq, m.clone()));
        }
    }
    fn apart(&self, a: usize, b: usize) -> bool {
        (self.partition >> a & 1) != (self.partition >> b & 1)
    }
    fn deliver_due(&mut self) -> Result<(), Viol> {
        loop {
            let Some(i) = (0..self.flight.len()).filter(|i| self.flight[*i].0 <= self.clock).min_by_key(|i| (self.flight[*i].0, self.flight[*i].1)) else {
                return Ok(());
            };
            let (_, _, m) = self.flight.remove(i);
            if self.apart(m.from, m.to) {
                self.st.fault("message_lost_to_partition");
                continue;
            }
            if !self.nodes[m.to].up {
                self.st.fault("message_lost_to_crashed_node");
                continue;
            }
            self.deliver(&m)?;
        }
    }
    fn deliver(&mut self, m: &Rc<Msg>) -> Result<(), Viol> {
        self.look(m.to, m)?;
        self.order = simcore::rng::mix(self.order, hash_of((m.id, m.to, self.nodes[m.to].ver)));
        self.st.hit("deliveries");
        let n = &mut self.nodes[m.to];
        if n.got.insert(m.id) {
            n.log.push(m.clone());
        }
        if m.from != m.to {
            // the acknowledgement gets through unless the network is cut
            let id = m.id;
            self.nodes[m.from].outbox.retain(|x| x.id != id);
        }
        Ok(())
    }
    fn restart(&mut self, node: usize, ver: usize) -> Result<(), Viol> {
        let n = &mut self.nodes[node];
        if n.up {
            self.st.fault("restart");
        } else {
            self.st.fault("restart_after_crash");
        }
        if ver > n.ver {
            self.st.hit("upgrades");
        } else if ver < n.ver {
            self.st.hit("rollbacks");
        }
        n.up = true;
        n.ver = ver;
        n.builder = planus::Builder::new();
        let log: Vec<Rc<Msg>> = n.log.iter().rev().take(8).cloned().collect();
        for m in log {
            self.st.hit("stored_messages_read_after_restart");
            self.look(node, &m)?;
        }
        Ok(())
    }
    fn id(&mut self) -> usize {
        self.ids += 1;
        self.ids
    }
    fn event(&mut self, e: &Ev) -> Result<(), Viol> {
        let nn = self.nodes.len();
        self.clock += 1;
        self.st.hit("events");
        match e {
            Ev::Send { from, to, ver, t, v, style, net } => {
                let (from, to) = (from % nn, to % nn);
                if !self.nodes[from].up || self.nodes[from].ver != *ver {
                    self.restart(from, *ver)?;
                }
                let bytes = self.write(from, *t, v, *style)?;
                let id = self.id();
                let foreign = self.nodes[from].foreign;
                self.post(Msg { id, from, to, t: *t, wver: *ver, v: v.clone(), bytes, foreign, hops: 0 }, net);
            }
            Ev::Relay { node, n, to, style, net } => {
                let (node, to) = (node % nn, to % nn);
                if !self.nodes[node].up || self.nodes[node].log.is_empty() {
                    return Ok(());
                }
                let i = n % self.nodes[node].log.len();
                let m = self.nodes[node].log[i].clone();
                let v = self.look(node, &m)?;
                if v.has_err() {
                    self.st.hit("relay_refused_unknown_value");
                    return Ok(());
                }
                // what goes out is what the owned conversion yields; `look` compared it with v
                let ver = self.nodes[node].ver;
                let bytes = self.write(node, m.t, &v, *style)?;
                let id = self.id();
                let foreign = self.nodes[node].foreign;
                self.st.hit("relayed");
                self.post(Msg { id, from: node, to, t: m.t, wver: ver, v, bytes, foreign, hops: m.hops + 1 }, net);
            }
            Ev::Forward { node, n, to, net } => {
                let (node, to) = (node % nn, to % nn);
                if !self.nodes[node].up || self.nodes[node].log.is_empty() {
                    return Ok(());
                }
                let i = n % self.nodes[node].log.len();
                let m = self.nodes[node].log[i].clone();
                self.st.hit("forwarded");
                let id = self.id();
                self.post(Msg { id, from: node, to, v: m.v.clone(), bytes: m.bytes.clone(), ..*m }, net);
            }
            Ev::Resend { node, net } => {
                let node = node % nn;
                if self.nodes[node].up {
                    for m in self.nodes[node].outbox.clone().into_iter().take(5) {
                        self.st.hit("resent");
                        self.transmit(&m, net);
                    }
                }
            }
            Ev::Crash { node } => {
                let n = &mut self.nodes[node % nn];
                if n.up {
                    n.up = false;
                    self.st.fault("crash");
                }
            }
            Ev::Restart { node, ver } => self.restart(node % nn, *ver)?,
            Ev::Partition { mask } => {
                self.partition = *mask;
                self.st.fault("partition");
            }
            Ev::Heal => self.partition = 0,
            Ev::Wait { ms } => self.clock += *ms as u64,
        }
        self.deliver_due()
    }
}
fn run(c: &Case, st: &mut Stats) -> Result<(), Viol> {
    let nodes = c
        .nodes
        .iter()
        .map(|(foreign, ver)| Node { foreign: *foreign, ver: *ver, up: true, builder: planus::Builder::new(), log: vec![], outbox: vec![], got: Default::default() })
        .collect();
    let mut s = Sim { c, st, nodes, clock: 0, seq: 0, flight: vec![], partition: 0, ids: 0, order: 0, align: Rng::new(c.aligns) };
    for e in &c.evs {
        s.event(e)?;
    }
    // faults stop: everything outstanding arrives, in bounded time
    s.partition = 0;
    for i in 0..s.nodes.len() {
        if !s.nodes[i].up {
            let v = s.nodes[i].ver;
            s.restart(i, v)?;
        }
    }
    s.clock += 100_000;
    s.deliver_due()?;
    for i in 0..s.nodes.len() {
        for m in s.nodes[i].outbox.clone() {
            s.deliver(&m)?;
        }
    }
    let n_deliv = s.order;
    let ids = s.ids;
    let arrived: usize = s.nodes.iter().map(|n| n.log.len()).sum();
    if arrived != ids {
        return viol("lost", format!("{ids} messages were sent and {arrived} arrived in the end"));
    }
    let clock = s.clock;
    st.sim_time_ns += clock as u128 * 1_000_000;
    if ids > 0 {
        st.path(n_deliv);
    }
    Ok(())
}

pub struct Cluster;
impl Check for Cluster {
    type Case = Case;
    fn property(&self) -> &'static str {
        "C09"
    }
    fn runs(&self, tier: &str) -> (u64, u64) {
        let q = std::env::var("SIM_RUNS").ok().and_then(|x| x.parse().ok()).unwrap_or(500_000);
        if tier == "thorough" {
            (q * 100, 900)
        } else {
            (q, 60)
        }
    }
    fn gen(&self, seed: u64) -> Case {
        let mut rng = Rng::new(seed);
        let rng = &mut rng;
        let fam = rng.pick(&["ea", "eb", "ec", "ea", "eb", "ec", "kit", "ra", "rb"]).to_string();
        let nv = family_len(&fam);
        let n = 2 + rng.below(3);
        let mut nodes: Vec<(bool, usize)> = (0..n).map(|_| (rng.chance(1, 4), rng.below(nv))).collect();
        if nodes.iter().all(|n| n.0) {
            nodes[0].0 = false;
        }
        let odd = rng.chance(1, 100);
        let faulty = rng.chance(3, 4);
        // swarm: which faults this run has
        let lossy = faulty && rng.chance(1, 2);
        let dups = faulty && rng.chance(1, 2);
        let delays = faulty && rng.chance(2, 3);
        let crashes = faulty && rng.chance(1, 2);
        let parts = faulty && rng.chance(1, 3);
        let budget = *rng.pick(&[5, 20, 40]);
        let present = *rng.pick(&[30, 70, 95, 100]);
        let max_len = *rng.pick(&[2, 5]);
        // once in a while something big
        let (budget, max_len) = if rng.chance(1, 300) { (800, *rng.pick(&[100, 2000])) } else { (budget, max_len) };
        let n_tables = (0..nv).map(|v| schema(&fam, v).tables.len()).min().unwrap();
        let mut vers: Vec<usize> = nodes.iter().map(|n| n.1).collect();
        let (mut strings, mut old): (Vec<String>, Vec<(Ty, Val)>) = (vec![], vec![]);
        let mut evs = vec![];
        for _ in 0..3 + rng.below(20) {
            let mut net = |rng: &mut Rng| {
                let k = if lossy && rng.chance(1, 4) {
                    0
                } else if dups && rng.chance(1, 4) {
                    2 + rng.below(2)
                } else {
                    1
                };
                Net { delays: (0..k).map(|_| if delays && rng.chance(2, 3) { rng.below(12) as u32 } else { 0 }).collect() }
            };
            let node = rng.below(n);
            let to = rng.below(n);
            let style = if rng.chance(1, 4) { 0 } else { rng.u64() | 1 };
            let e = match rng.below(20) {
                0..=6 => {
                    let s = schema(&fam, vers[node]);
                    let t = rng.below(n_tables);
                    old.clear();
                    let v = ValGen { s, rng, strings: &mut strings, old: &mut old, budget, present, max_len, reuse: 20, depth: 0 }.gen(&Ty::Table(t));
                    Ev::Send { from: node, to, ver: vers[node], t, v, style: style | (nodes[node].0 as u64), net: net(rng) }
                }
                7..=9 => Ev::Relay { node, n: rng.below(100), to, style: style | (nodes[node].0 as u64), net: net(rng) },
                10 => Ev::Forward { node, n: rng.below(100), to, net: net(rng) },
                11 => Ev::Resend { node, net: net(rng) },
                12 if crashes => Ev::Crash { node },
                13..=15 => {
                    vers[node] = rng.below(nv);
                    Ev::Restart { node, ver: vers[node] }
                }
                16 if parts => Ev::Partition { mask: rng.below(1 << n) as u32 },
                17 => Ev::Heal,
                _ => Ev::Wait { ms: rng.below(20) as u32 },
            };
            evs.push(e);
        }
        Case { fam, nodes, evs, aligns: rng.u64(), odd }
    }
    fn run(&self, c: &Case, st: &mut Stats) -> Result<(), Viol> {
        foldhash::sim::set(1, 0);
        guarded(|| run(c, st))
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        let mut out = vec![];
        let n = c.evs.len();
        for k in [n / 2, n / 4, 1] {
            if k == 0 {
                continue;
            }
            for i in (0..n).step_by(k).rev() {
                let mut x = c.clone();
                x.evs.drain(i..(i + k).min(n));
                out.push(x);
            }
        }
        for i in 0..n {
            let mut with = |e: Ev| {
                let mut x = c.clone();
                x.evs[i] = e;
                out.push(x);
            };
            match &c.evs[i] {
                Ev::Send { from, to, ver, t, v, style, net } => {
                    if *style > 1 {
                        with(Ev::Send { from: *from, to: *to, ver: *ver, t: *t, v: v.clone(), style: 1, net: net.clone() });
                        with(Ev::Send { from: *from, to: *to, ver: *ver, t: *t, v: v.clone(), style: 0, net: net.clone() });
                    }
                    if net.delays != [0] {
                        with(Ev::Send { from: *from, to: *to, ver: *ver, t: *t, v: v.clone(), style: *style, net: Net { delays: vec![0] } });
                    }
                    let mut vs = vec![];
                    shrink_val(schema(&c.fam, *ver), &Ty::Table(*t), v, &mut vs);
                    vs.truncate(60);
                    for v in vs {
                        with(Ev::Send { from: *from, to: *to, ver: *ver, t: *t, v, style: *style, net: net.clone() });
                    }
                }
                Ev::Relay { node, n, to, style, net } if net.delays != [0] => {
                    with(Ev::Relay { node: *node, n: *n, to: *to, style: *style, net: Net { delays: vec![0] } });
                }
                _ => {}
            }
        }
        for i in 0..c.nodes.len() {
            if c.nodes[i].0 {
                let mut x = c.clone();
                x.nodes[i].0 = false;
                out.push(x);
            }
        }
        out
    }
    fn rule(&self) -> &'static str {
        "a seeded cluster of 2-4 peers (versions, implementations) with seeded messages, relays, crashes, upgrades, roll-backs and network faults; non-trivial: at least one message was sent; distinct by the order of deliveries with the version of each reader; distinct states are (value seen, writer version, reader version)"
    }
    fn describe(&self, c: &Case) -> String {
        let mut s = format!("family {}, nodes {}\n", c.fam, c.nodes.iter().enumerate().map(|(i, n)| format!("{i}: {} with version {}", if n.0 { "another implementation" } else { "planus" }, n.1)).collect::<Vec<_>>().join(", "));
        for e in &c.evs {
            let l = format!("{e:?}");
            s += "  ";
            s.extend(l.chars().take(800));
            s += "\n";
        }
        s
    }
    fn components(&self) -> serde_json::Value {
        let mut c = build::components();
        c["stub"] = serde_json::json!(["network, clock, durable storage and crashes of the peers", "the other implementation: independent encoder and decoder of sim/core"]);
        c
    }
}

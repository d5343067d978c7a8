//! Concrete operations, seals, witnesses and blocks of a universe, and their abstraction.

use std::collections::{BTreeMap, HashMap};

use amplify::confinement::{Confined, SmallOrdMap, SmallVec};
use amplify::{bmap, default, s, tiny_bmap, tiny_s, ByteArray};
use commit_verify::{Digest, Sha256};
use rgbcore::OperationSeals;
use serde_json::{json, Value};
use single_use_seals::{PublishedWitness, SealWitness};
use strict_encoding::{StrictEncode, StrictWriter};
use ultrasonic::aluvm::alu::{aluasm, CoreConfig, Lib, LibId, LibSite};
use ultrasonic::aluvm::{zk_aluasm, FIELD_ORDER_SECP};
use ultrasonic::{
    fe256, AuthToken, CellAddr, CellLock, Codex, CodexId, ContractId, Identity, Input, Operation, Opid,
    RawData, StateCell, StateData, StateValue,
};

use crate::names::{hint, name};
use crate::proto::{DefOf, Out, Proto, Sec, WitPlan};
use crate::scen::{BlockSpec, DataSpec, DefSpec, OpSpec, OutSpec, Uni, WitSpec};

pub const MAX: usize = u32::MAX as usize;

pub fn sha(tag: &str, data: &str) -> [u8; 32] {
    let mut e = Sha256::new();
    e.update(tag.as_bytes());
    e.update([0]);
    e.update(data.as_bytes());
    e.finalize().into()
}

pub fn strict(v: &impl StrictEncode) -> Vec<u8> {
    let w: StrictWriter<_> = StrictWriter::in_memory::<MAX>();
    v.strict_encode(w).unwrap().unbox().unconfine()
}

/// The codex and its libraries.
pub struct Env {
    pub codex: Codex,
    pub codex_id: CodexId,
    pub contract_id: ContractId,
    pub libs: HashMap<LibId, Lib>,
    pub ok: LibSite,
    pub bad: LibSite,
}

pub const CALL_OK: u16 = 0;
pub const CALL_FAIL: u16 = 1;
pub const CALL_FAILU: u16 = 258;
pub const CALL_NONE: u16 = 7;

impl Env {
    pub fn new(salt: u32) -> Self {
        let ok = Lib::assemble(&aluasm! { stop; }).unwrap();
        let fail = Lib::assemble(&zk_aluasm! { clr E1; test E2; chk CO; }).unwrap();
        let failu = Lib::assemble(&zk_aluasm! { test E3; chk CO; }).unwrap();
        let (ok_id, fail_id, failu_id) = (ok.lib_id(), fail.lib_id(), failu.lib_id());
        let config = CoreConfig { halt: true, complexity_lim: Some(10_000_000) };
        let codex = Codex {
            name: tiny_s!("Conformance"),
            developer: Identity::default(),
            version: default!(),
            features: default!(),
            timestamp: 1732529307 + salt as i64,
            field_order: FIELD_ORDER_SECP,
            input_config: config,
            verification_config: config,
            verifiers: tiny_bmap! {
                CALL_OK => LibSite::new(ok_id, 0),
                CALL_FAIL => LibSite::new(fail_id, 0),
                CALL_FAILU => LibSite::new(failu_id, 0)
            },
        };
        Self {
            codex_id: codex.codex_id(),
            codex,
            contract_id: ContractId::from_byte_array(match salt {
                0 => sha("contract", "own"),
                1 => [0; 32],
                2 => [0xFF; 32],
                n => sha("contract", &format!("own{n}")),
            }),
            libs: [(ok_id, ok), (fail_id, fail), (failu_id, failu)].into_iter().collect(),
            ok: LibSite::new(ok_id, 0),
            bad: LibSite::new(fail_id, 0),
        }
    }

    pub fn abs_lock(&self, cell: &StateCell) -> &'static str {
        match cell.lock.and_then(|l| l.script) {
            None => "none",
            Some(s) if s == self.ok => "ok",
            Some(_) => "bad",
        }
    }
}


pub fn value(data: &[u64]) -> StateValue { data.iter().map(|v| fe256::from(*v)).collect() }

pub fn sec(s: &str, tx: impl Fn(&str) -> [u8; 32]) -> Sec {
    match s.split_once(':') {
        Some(("n", x)) => {
            let mut noise = [0u8; 40];
            if x == "f" {
                noise = [0xFF; 40];
            } else if let Some(n) = x.strip_prefix("bit") {
                let n = n.parse::<usize>().unwrap();
                noise[n / 8] = 1 << (n % 8);
            } else if x != "0" {
                noise[..32].copy_from_slice(&sha("noise", x));
                noise[32..].copy_from_slice(&sha("noise tail", x)[..8]);
            }
            Sec::Noise(noise)
        }
        Some(("o", x)) => {
            let (t, v) = x.rsplit_once('/').unwrap();
            Sec::Fallback((tx(t), v.parse().unwrap()))
        }
        _ => panic!("secondary {s}"),
    }
}

/// Ids of the protocols under which contracts commit to their bundles.
pub fn protocol(name: &str) -> [u8; 32] {
    match name {
        "own" => [0xAD; 32],
        _ => sha("protocol", name),
    }
}

pub fn plain_tx(name: &str) -> [u8; 32] {
    match name {
        "0" => [0; 32],
        "f" => [0xFF; 32],
        _ if name.starts_with("bit") => {
            let n = name[3..].parse::<usize>().unwrap();
            let mut id = [0; 32];
            id[n / 8] = 1 << (n % 8);
            id
        }
        _ => sha("tx", name),
    }
}

/// "N:rest": a value which differs from another one in bit N only.
fn near(s: &str) -> (usize, &str) {
    let (bit, rest) = s.split_once(':').unwrap();
    (bit.parse().unwrap(), rest)
}

fn flip<const L: usize>(mut x: [u8; L], bit: usize) -> [u8; L] {
    x[bit / 8] ^= 1 << (bit % 8);
    x
}

/// Concrete values of the universe, made when needed.
struct Maker<'u, P: Proto> {
    env: &'u Env,
    uni: &'u Uni,
    ops: BTreeMap<String, Operation>,
    wits: BTreeMap<String, SealWitness<P::Seal>>,
    ids: HashMap<String, Opid>,
    txs: HashMap<String, [u8; 32]>,
    busy: Vec<String>,
}

impl<P: Proto> Maker<'_, P> {
    fn enter(&mut self, key: String) {
        assert!(!self.busy.contains(&key), "circular definition of {key} in {}", self.uni.name);
        self.busy.push(key);
    }

    fn tx(&mut self, name: &str) -> [u8; 32] {
        match name.strip_prefix("w:") {
            Some(w) => {
                if let Some(id) = self.txs.get(w) {
                    return *id;
                }
                let id = P::wid(&self.wit(w).published.pub_id());
                self.txs.insert(w.into(), id);
                id
            }
            None => plain_tx(name),
        }
    }

    fn def(&mut self, name: &str) -> DefOf<P> {
        let spec: DefSpec = self.uni.defs.iter().find(|d| d.name == name).unwrap_or_else(|| panic!("def {name}")).clone();
        let tx = spec.tx.as_ref().map(|t| self.tx(t));
        P::def(tx, spec.v, &sec(&spec.sec, plain_tx))
    }

    fn opid(&mut self, name: &str) -> Opid {
        if let Some(id) = self.ids.get(name) {
            return *id;
        }
        let id = self.make_opid(name);
        self.ids.insert(name.into(), id);
        id
    }

    fn make_opid(&mut self, name: &str) -> Opid {
        if let Some(name) = name.strip_prefix('!') {
            return self.op(name).opid();
        }
        if name.starts_with('?') {
            return Opid::from_byte_array(sha("op", name));
        }
        if let Some(name) = name.strip_prefix('~') {
            let (bit, name) = near(name);
            return Opid::from_byte_array(flip(self.opid(name).to_byte_array(), bit));
        }
        let mut op = self.op(name);
        if op.contract_id.to_byte_array() == self.env.codex_id.to_byte_array() {
            op.contract_id = self.env.contract_id;
        }
        op.opid()
    }

    fn op(&mut self, name: &str) -> Operation {
        if let Some(op) = self.ops.get(name) {
            return op.clone();
        }
        self.enter(format!("operation {name}"));
        let spec: OpSpec = self.uni.ops.iter().find(|d| d.name == name).unwrap_or_else(|| panic!("op {name}")).clone();
        let contract_id = match spec.cid.as_str() {
            "own" => self.env.contract_id,
            "codex" => ContractId::from_byte_array(self.env.codex_id.to_byte_array()),
            x => match x.strip_prefix('~').map(near) {
                Some((bit, "own")) => ContractId::from_byte_array(flip(self.env.contract_id.to_byte_array(), bit)),
                Some((bit, _)) => ContractId::from_byte_array(flip(self.env.codex_id.to_byte_array(), bit)),
                None => ContractId::from_byte_array(sha("contract", x)),
            },
        };
        let din: Vec<Input> = spec
            .din
            .iter()
            .map(|i| Input { addr: CellAddr::new(self.opid(&i.op), i.pos), witness: value(&i.wit) })
            .collect();
        let iin: Vec<CellAddr> = spec.iin.iter().map(|(o, p)| CellAddr::new(self.opid(o), *p)).collect();
        let dout: Vec<StateCell> = spec.dout.iter().map(|o| self.cell(o)).collect();
        let iout: Vec<StateData> = spec.iout.iter().map(data).collect();
        let op = Operation {
            version: default!(),
            contract_id,
            call_id: match spec.call.as_str() {
                "ok" => CALL_OK,
                "fail" => CALL_FAIL,
                "failu" => CALL_FAILU,
                _ => CALL_NONE,
            },
            nonce: fe256::from(spec.nonce),
            witness: value(&spec.wit),
            destructible_in: SmallVec::from_checked(din),
            immutable_in: SmallVec::from_checked(iin),
            destructible_out: SmallVec::from_checked(dout),
            immutable_out: SmallVec::from_checked(iout),
        };
        self.busy.pop();
        self.ops.insert(name.into(), op.clone());
        op
    }

    fn cell(&mut self, o: &OutSpec) -> StateCell {
        let token = if let Some(x) = o.def.strip_prefix("?~") {
            let (bit, def) = near(x);
            flip(P::token(&self.def(def)), bit)
        } else if o.def.starts_with('?') {
            let mut token = [0u8; 30];
            token.copy_from_slice(&sha("token", &o.def)[..30]);
            token
        } else {
            P::token(&self.def(&o.def))
        };
        StateCell {
            data: value(&o.data),
            auth: AuthToken::from_byte_array(token),
            lock: match o.lock.as_str() {
                "none" => None,
                "aux" => Some(CellLock { aux: value(&[5]), script: None }),
                "ok" => Some(CellLock { aux: StateValue::None, script: Some(self.env.ok) }),
                "bad" => Some(CellLock { aux: StateValue::None, script: Some(self.env.bad) }),
                x => panic!("lock {x}"),
            },
        }
    }

    fn wit(&mut self, name: &str) -> SealWitness<P::Seal> {
        if let Some(w) = self.wits.get(name) {
            return w.clone();
        }
        self.enter(format!("witness {name}"));
        let spec: WitSpec = self.uni.wits.iter().find(|d| d.name == name).unwrap_or_else(|| panic!("witness {name}")).clone();
        let plan = WitPlan {
            method: spec.method,
            ins: spec.ins.iter().map(|(t, v)| (self.tx(t), *v)).collect(),
            map: spec.map.iter().map(|(i, o)| (*i, self.opid(o).to_byte_array())).collect(),
            flaw: spec.flaw,
            outs: spec.outs,
            nonce: spec.nonce,
            prot: protocol(&spec.prot),
            also: spec
                .also
                .iter()
                .map(|(p, map)| (protocol(p), map.iter().map(|(i, o)| (*i, self.opid(o).to_byte_array())).collect()))
                .collect(),
        };
        let wit = P::wit(&plan);
        self.busy.pop();
        self.wits.insert(name.into(), wit.clone());
        wit
    }

    fn block(&mut self, spec: &BlockSpec) -> OperationSeals<P::Seal> {
        let seals: BTreeMap<u16, DefOf<P>> = spec.seals.iter().map(|(pos, d)| (*pos, self.def(d))).collect();
        OperationSeals {
            operation: self.op(&spec.op),
            defined_seals: SmallOrdMap::from_checked(seals),
            witness: spec.wit.as_ref().map(|w| self.wit(w)),
        }
    }
}

fn data(d: &DataSpec) -> StateData {
    StateData {
        value: value(&d.data),
        raw: match d.raw {
            0 => None,
            n => Some(RawData::from(Confined::from_checked((1..n).map(|i| (i * 7) as u8).collect::<Vec<_>>()))),
        },
    }
}

pub struct World<P: Proto> {
    /// The contract's own genesis, under the contract's id.
    pub gen: Operation,
    /// Ids of named operations, as known to the contract.
    pub opids: HashMap<String, Opid>,
    pub blocks: Vec<OperationSeals<P::Seal>>,
}

impl<P: Proto> World<P> {
    pub fn new(env: &Env, uni: &Uni) -> Self {
        let mut m = Maker::<P> { env, uni, ops: default!(), wits: default!(), ids: default!(), txs: default!(), busy: vec![] };
        let blocks: Vec<_> = uni.blocks.iter().map(|b| m.block(b)).collect();
        let mut gen = m.op(&uni.gen);
        gen.contract_id = env.contract_id;
        let opids: HashMap<_, _> = uni.ops.iter().map(|o| (o.name.clone(), m.opid(&o.name))).collect();
        // Choose readable names
        let all_ops = m.ops.clone();
        for (n, op) in &all_ops {
            let id = m.opid(n);
            hint('o', &id.to_byte_array(), n);
            hint('o', &op.opid().to_byte_array(), &format!("{n}-raw"));
        }
        for (n, w) in &m.wits {
            hint('t', &P::wid(&w.published.pub_id()), &format!("w:{n}"));
        }
        let names: Vec<String> = uni.defs.iter().map(|d| d.name.clone()).collect();
        for n in names {
            let mut buf = [0u8; 32];
            let def = m.def(&n);
            buf[..30].copy_from_slice(&P::token(&def));
            hint('a', &buf, &n);
        }
        Self { gen, opids, blocks }
    }
}

// Abstraction -------------------------------------------------------------------------------------

pub fn n_op(id: &Opid) -> String { name('o', &id.to_byte_array()) }
pub fn n_tx(tx: &[u8; 32]) -> String {
    match tx {
        t if *t == [0; 32] => "t.0".into(),
        t if *t == [0xFF; 32] => "t.f".into(),
        t => name('t', t),
    }
}
pub fn n_tok(t: &AuthToken) -> String { name('a', &t.to_fe256().to_u256().to_le_bytes()) }
pub fn n_addr(a: &CellAddr) -> Value { json!([n_op(&a.opid), a.pos]) }
pub fn n_out(o: &Out) -> Value { json!([n_tx(&o.0), o.1.to_string()]) }
pub fn n_seal<P: Proto>(s: &P::Seal) -> Value {
    let (o, sec) = P::abs_seal(s);
    json!([n_tx(&o.0), o.1.to_string(), name('s', &sec)])
}
pub fn n_wit_dig<P: Proto>(w: &SealWitness<P::Seal>) -> String {
    let a = strict(&w.published);
    let mut buf = (a.len() as u64).to_le_bytes().to_vec();
    buf.extend(a);
    buf.extend(strict(&w.client));
    name('w', &buf)
}
pub fn n_op_dig(op: &Operation) -> String { name('d', &strict(op)) }
pub fn n_seals_dig<P: Proto>(s: &SmallOrdMap<u16, DefOf<P>>) -> String {
    if s.is_empty() {
        return "-".into();
    }
    let mut buf = vec![];
    for (pos, d) in s {
        let e = strict(d);
        buf.extend(pos.to_le_bytes());
        buf.extend((e.len() as u64).to_le_bytes());
        buf.extend(e);
    }
    name('m', &buf)
}

/// Names of the parts of a block: operation, seals, witness.
pub fn parts<P: Proto>(b: &OperationSeals<P::Seal>) -> [String; 3] {
    [
        n_op_dig(&b.operation),
        n_seals_dig::<P>(&b.defined_seals),
        b.witness.as_ref().map(n_wit_dig::<P>).unwrap_or("-".into()),
    ]
}

pub fn abs_def<P: Proto>(d: &DefOf<P>) -> Value {
    let (tx, v, sec) = P::abs_def(d);
    let mut tok = [0u8; 32];
    tok[..30].copy_from_slice(&P::token(d));
    json!({
        "kind": if tx.is_some() { "ext" } else { "wout" },
        "tx": tx.map(|t| n_tx(&t)).unwrap_or("-".into()),
        "v": v.to_string(),
        "sec": name('s', &sec),
        "tok": name('a', &tok),
    })
}

pub fn abs_wit<P: Proto>(w: &SealWitness<P::Seal>) -> Value {
    let (ins, map, good) = P::abs_wit(w);
    json!({
        "id": n_tx(&P::wid(&w.published.pub_id())),
        "ins": ins.iter().map(n_out).collect::<Vec<_>>(),
        "map": map.iter().map(|(i, m)| json!([(*i).min(0x7FFF_FFFF), name('o', m)])).collect::<Vec<_>>(),
        "good": good,
        "prot": name('p', &P::abs_prot(w)),
    })
}

pub fn abs_op(env: &Env, op: &Operation) -> Value {
    let mut own = op.clone();
    own.contract_id = env.contract_id;
    let cid = if op.contract_id == env.contract_id {
        "own"
    } else if op.contract_id.to_byte_array() == env.codex_id.to_byte_array() {
        "codex"
    } else {
        "other"
    };
    json!({
        "id": n_op(&op.opid()),
        "gid": n_op(&own.opid()),
        "cid": cid,
        "call": match op.call_id { CALL_OK => "ok", CALL_FAIL | CALL_FAILU => "fail", _ => "none" },
        "din": op.destructible_in.iter().map(|i| n_addr(&i.addr)).collect::<Vec<_>>(),
        "iin": op.immutable_in.iter().map(n_addr).collect::<Vec<_>>(),
        "dout": op.destructible_out.iter().map(|c| json!({"tok": n_tok(&c.auth), "lock": env.abs_lock(c)})).collect::<Vec<_>>(),
        "nimm": op.immutable_out.len(),
        "dig": n_op_dig(op),
        "gdig": n_op_dig(&own),
    })
}

pub fn abs_block<P: Proto>(env: &Env, label: &str, b: &OperationSeals<P::Seal>) -> Value {
    let [_, sdig, wdig] = parts::<P>(b);
    json!({
        "n": label,
        "op": abs_op(env, &b.operation),
        "seals": b.defined_seals.iter().map(|(pos, d)| json!({"pos": pos, "d": abs_def::<P>(d), "s": d.to_string()})).collect::<Vec<_>>(),
        "sdig": sdig,
        "haswit": b.witness.is_some(),
        "wit": b.witness.as_ref().map(abs_wit::<P>).unwrap_or(json!({"id": "-", "ins": [], "map": [], "good": false, "prot": "-"})),
        "wdig": wdig,
    })
}

//! The client's contract: a faithful implementation of `ContractApi`.

use std::collections::BTreeMap;

use amplify::confinement::SmallOrdMap;
use rgbcore::{ContractApi, OperationSeals};
use serde_json::{json, Value};
use single_use_seals::SealWitness;
use std::cell::RefCell;
use std::rc::Rc;
use ultrasonic::aluvm::alu::{Lib, LibId};
use ultrasonic::{
    CellAddr, Codex, ContractId, LibRepo, Memory, Operation, Opid, StateCell, StateValue, VerifiedOperation,
};

use crate::proto::{DefOf, Proto};
use crate::world::*;

/// What happens in an evaluation, as seen by its environment.
#[derive(Default)]
pub struct Log {
    /// Effects before anything was read.
    pub pre: Vec<Value>,
    pub items: Vec<ReadItem>,
    pub over: usize,
}

pub struct ReadItem {
    pub t: &'static str,
    pub b: usize,
    pub fx: Vec<Value>,
}

impl Log {
    pub fn effect(&mut self, v: Value) {
        match self.items.last_mut() {
            Some(i) => i.fx.push(v),
            None => self.pre.push(v),
        }
    }
}

#[derive(Clone)]
pub struct State {
    pub gen: Opid,
    pub known: BTreeMap<Opid, Operation>,
    pub dmem: BTreeMap<[u8; 34], StateCell>,
    pub imm: BTreeMap<[u8; 34], StateValue>,
    /// Destroyed cells with the operation which destroyed them.
    pub spent: BTreeMap<[u8; 34], (Opid, StateCell)>,
}

impl State {
    pub fn new(gen: &Operation) -> Self {
        let mut me = Self { gen: gen.opid(), known: BTreeMap::new(), dmem: BTreeMap::new(), imm: BTreeMap::new(), spent: BTreeMap::new() };
        me.apply(gen.opid(), gen.clone());
        me
    }

    pub fn apply(&mut self, opid: Opid, op: Operation) {
        for input in &op.destructible_in {
            let key: [u8; 34] = input.addr.into();
            if let Some(cell) = self.dmem.remove(&key) {
                self.spent.insert(key, (opid, cell));
            }
        }
        for (no, cell) in op.destructible_out.iter().enumerate() {
            self.dmem.insert(CellAddr::new(opid, no as u16).into(), *cell);
        }
        for (no, data) in op.immutable_out.iter().enumerate() {
            self.imm.insert(CellAddr::new(opid, no as u16).into(), data.value);
        }
        self.known.insert(opid, op);
    }

    pub fn can_forget(&self, opid: Opid) -> bool {
        opid != self.gen
            && self.known.contains_key(&opid)
            && self.known.iter().all(|(id, op)| {
                *id == opid
                    || op.destructible_in.iter().all(|i| i.addr.opid != opid) && op.immutable_in.iter().all(|a| a.opid != opid)
            })
    }

    pub fn forget(&mut self, opid: Opid) -> bool {
        if !self.can_forget(opid) {
            return false;
        }
        self.known.remove(&opid);
        self.dmem.retain(|k, _| k[..32] != opid.to_byte_array_());
        self.imm.retain(|k, _| k[..32] != opid.to_byte_array_());
        let back: Vec<_> = self.spent.iter().filter(|(_, (by, _))| *by == opid).map(|(k, (_, c))| (*k, *c)).collect();
        for (k, c) in back {
            self.spent.remove(&k);
            self.dmem.insert(k, c);
        }
        true
    }

    pub fn dump(&self, env: &Env) -> Value {
        let addr = |k: &[u8; 34]| n_addr(&CellAddr::from(*k));
        json!({
            "known": self.known.keys().map(n_op).collect::<Vec<_>>(),
            "dmem": self.dmem.iter().map(|(k, c)| json!([addr(k), env.abs_lock(c), crate::names::name('c', &strict(c))])).collect::<Vec<_>>(),
            "imm": self.imm.iter().map(|(k, v)| json!([addr(k), crate::names::name('v', &strict(v))])).collect::<Vec<_>>(),
        })
    }
}

trait Bytes32Ext {
    fn to_byte_array_(&self) -> [u8; 32];
}
impl Bytes32Ext for Opid {
    fn to_byte_array_(&self) -> [u8; 32] { (*self).into() }
}

pub struct Contract<'e> {
    pub env: &'e Env,
    pub state: State,
    pub log: Rc<RefCell<Log>>,
}

impl Memory for Contract<'_> {
    fn destructible(&self, addr: CellAddr) -> Option<StateCell> { self.state.dmem.get(&<[u8; 34]>::from(addr)).copied() }
    fn immutable(&self, addr: CellAddr) -> Option<StateValue> { self.state.imm.get(&<[u8; 34]>::from(addr)).copied() }
}
impl LibRepo for Contract<'_> {
    fn get_lib(&self, lib_id: LibId) -> Option<&Lib> { self.env.libs.get(&lib_id) }
}

pub struct For<'e, P: Proto>(pub Contract<'e>, pub std::marker::PhantomData<P>);

impl<P: Proto> ContractApi<P::Seal> for For<'_, P> {
    fn contract_id(&self) -> ContractId { self.0.env.contract_id }
    fn codex(&self) -> &Codex { &self.0.env.codex }
    fn repo(&self) -> &impl LibRepo { &self.0 }
    fn memory(&self) -> &impl Memory { &self.0 }
    fn is_known(&self, opid: Opid) -> bool { self.0.state.known.contains_key(&opid) }

    fn apply_operation(&mut self, op: VerifiedOperation) {
        let opid = op.opid();
        let op = op.into_operation();
        self.0.log.borrow_mut().effect(json!(["op", n_op(&opid), n_op_dig(&op)]));
        self.0.state.apply(opid, op);
    }
    fn apply_seals(&mut self, opid: Opid, seals: SmallOrdMap<u16, DefOf<P>>) {
        self.0.log.borrow_mut().effect(json!(["seals", n_op(&opid), n_seals_dig::<P>(&seals)]));
    }
    fn apply_witness(&mut self, opid: Opid, witness: SealWitness<P::Seal>) {
        self.0.log.borrow_mut().effect(json!(["wit", n_op(&opid), n_wit_dig::<P>(&witness)]));
    }
}

pub type Block<P> = OperationSeals<<P as Proto>::Seal>;
pub fn clone_block<P: Proto>(b: &Block<P>) -> Block<P> {
    // Not `Clone::clone`: this is code under test
    OperationSeals {
        operation: b.operation.clone(),
        defined_seals: b.defined_seals.clone(),
        witness: b.witness.clone(),
    }
}

//! The seal definition API, called on every definition of a list.

use std::panic::{catch_unwind, AssertUnwindSafe};

use amplify::ByteArray;
use bp::seals::{TxoSeal, WTxoSeal};
use bp::Txid;
use commit_verify::CommitId;
use rgbcore::RgbSealDef;
use serde::Deserialize;
use serde_json::{json, Value};

use crate::btc::{sec_bytes, Btc};
use crate::names::name;
use crate::proto::Proto;
use crate::world::{n_tx, plain_tx, sec};

#[derive(Deserialize)]
struct File {
    defs: Vec<Def>,
    wids: Vec<String>,
}

#[derive(Deserialize)]
struct Def {
    tx: Option<String>,
    v: u32,
    sec: String,
}

fn parts(seal: &TxoSeal) -> Value {
    let ((tx, v), _) = Btc::abs_seal(seal);
    json!([n_tx(&tx), v.to_string(), name('s', &sec_bytes(&seal.secondary))])
}

fn caught<T>(f: impl FnOnce() -> T) -> Option<T> { catch_unwind(AssertUnwindSafe(f)).ok() }

fn observe(d: &WTxoSeal, wids: &[Txid]) -> Value {
    json!({
        "res": wids.iter().map(|w| caught(|| parts(&d.resolve(*w))).unwrap_or(json!(["panic"]))).collect::<Vec<_>>(),
        "src": caught(|| d.to_src().map(|s| parts(&s)).unwrap_or(json!([]))).unwrap_or(json!(["panic"])),
        "tok": caught(|| json!(d.auth_token().to_byte_array().to_vec())).unwrap_or(json!(["panic"])),
        "fe": caught(|| json!(d.auth_token().to_fe256().to_u256().to_le_bytes().to_vec())).unwrap_or(json!(["panic"])),
    })
}

pub fn main(input: &str, out: &str) {
    std::panic::set_hook(Box::new(|_| {}));
    let file: File = serde_json::from_slice(&std::fs::read(input).unwrap()).unwrap();
    let wids: Vec<Txid> = file.wids.iter().map(|w| Txid::from_byte_array(plain_tx(w))).collect();
    let defs: Vec<WTxoSeal> =
        file.defs.iter().map(|d| Btc::def(d.tx.as_deref().map(plain_tx), d.v, &sec(&d.sec, plain_tx))).collect();
    let first: Vec<Value> = defs.iter().map(|d| observe(d, &wids)).collect();
    // Once more, in another order and on copies
    let mut again: Vec<Value> = defs.iter().rev().map(|d| observe(&d.clone(), &wids)).collect();
    again.reverse();
    let recs: Vec<Value> = defs
        .iter()
        .zip(first)
        .zip(again)
        .map(|((d, obs), again)| {
            let (tx, v, sec) = Btc::abs_def(d);
            json!({
                "d": {
                    "kind": if tx.is_some() { "ext" } else { "wout" },
                    "tx": tx.map(|t| n_tx(&t)).unwrap_or("-".into()),
                    "v": v.to_string(),
                    "sec": name('s', &sec),
                },
                "cid": d.commit_id().to_byte_array().to_vec(),
                "obs": obs,
                "again": again,
            })
        })
        .collect();
    let wids: Vec<String> = wids.iter().map(|w| n_tx(&w.to_byte_array())).collect();
    std::fs::write(out, serde_json::to_vec(&json!({"recs": recs, "wids": wids})).unwrap()).unwrap();
}

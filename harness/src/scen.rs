//! Scenarios: universes of abstract operations, seals, witnesses and blocks, and runs over them.

use serde::Deserialize;

#[derive(Deserialize)]
pub struct File {
    pub unis: Vec<Uni>,
    #[serde(default)]
    pub runs: Vec<Run>,
}

#[derive(Deserialize, Clone)]
pub struct Uni {
    pub name: String,
    /// Which contract and codex it is
    #[serde(default)]
    pub salt: u32,
    /// Operation which is the genesis of the contract.
    pub gen: String,
    pub ops: Vec<OpSpec>,
    pub defs: Vec<DefSpec>,
    #[serde(default)]
    pub wits: Vec<WitSpec>,
    pub blocks: Vec<BlockSpec>,
}

#[derive(Deserialize, Clone)]
pub struct OpSpec {
    pub name: String,
    /// "own", "codex" or any other name of a contract
    #[serde(default = "own")]
    pub cid: String,
    /// "ok", "fail", "failu", "none"
    #[serde(default = "ok")]
    pub call: String,
    #[serde(default)]
    pub nonce: u64,
    #[serde(default)]
    pub wit: Vec<u64>,
    #[serde(default)]
    pub din: Vec<InSpec>,
    #[serde(default)]
    pub iin: Vec<(String, u16)>,
    #[serde(default)]
    pub dout: Vec<OutSpec>,
    #[serde(default)]
    pub iout: Vec<DataSpec>,
}
fn own() -> String { "own".into() }
fn ok() -> String { "ok".into() }

#[derive(Deserialize, Clone)]
pub struct InSpec {
    pub op: String,
    pub pos: u16,
    #[serde(default)]
    pub wit: Vec<u64>,
}

#[derive(Deserialize, Clone)]
pub struct OutSpec {
    /// Name of the definition whose token is committed to; "?x" for a token of an unknown definition
    pub def: String,
    /// "none", "ok", "bad", "aux" (lock data, no script)
    #[serde(default = "none")]
    pub lock: String,
    #[serde(default)]
    pub data: Vec<u64>,
}
fn none() -> String { "none".into() }

#[derive(Deserialize, Clone)]
pub struct DataSpec {
    #[serde(default)]
    pub data: Vec<u64>,
    /// Size of raw data plus one; 0 for no raw data
    #[serde(default)]
    pub raw: usize,
}

#[derive(Deserialize, Clone)]
pub struct DefSpec {
    pub name: String,
    /// Transaction the output belongs to; none for witness-relative definitions.
    /// "w:x" is the transaction of witness x, "0" and "f" are all-zero and all-one ids.
    pub tx: Option<String>,
    pub v: u32,
    /// "n:x" noise x, "o:tx:v" fallback outpoint
    pub sec: String,
}

#[derive(Deserialize, Clone)]
pub struct WitSpec {
    pub name: String,
    /// "opret" or "tapret"
    pub method: String,
    pub ins: Vec<(String, u32)>,
    /// input number -> operation whose id is the message ("?x": unknown message)
    pub map: Vec<(u32, String)>,
    /// "none", "nooutput", "badcommit", "badproof", "badmpc", "badproto"
    #[serde(default = "none")]
    pub flaw: String,
    /// Additional outputs after (positive) or before (negative, ignored by the protocol) the commitment
    #[serde(default)]
    pub outs: i32,
    #[serde(default)]
    pub nonce: u8,
    /// Name of the protocol under which the bundle is committed to
    #[serde(default = "own")]
    pub prot: String,
    /// Bundles of other protocols which the same published part commits to
    #[serde(default)]
    pub also: Vec<(String, Vec<(u32, String)>)>,
}

#[derive(Deserialize, Clone)]
pub struct BlockSpec {
    pub op: String,
    #[serde(default)]
    pub seals: Vec<(u16, String)>,
    pub wit: Option<String>,
}

#[derive(Deserialize, Clone)]
pub struct Run {
    pub id: String,
    pub uni: usize,
    #[serde(default = "one")]
    pub np: usize,
    #[serde(default = "direct")]
    pub tp: String,
    pub steps: Vec<Step>,
}
fn one() -> usize { 1 }
fn direct() -> String { "direct".into() }

#[derive(Deserialize, Clone)]
#[serde(tag = "k", rename_all = "lowercase")]
pub enum Step {
    Eval { p: usize, items: Vec<Item> },
    Roll { p: usize, op: String },
}

/// A block (number in the universe), a failure to read (-1), the end of the stream (-2).
pub type Item = i64;
pub const FAIL: Item = -1;
pub const END: Item = -2;

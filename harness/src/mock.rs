//! A seal protocol which has nothing in common with bitcoin apart from the shape of its seals:
//! other types, other hash functions, other errors, other order of seals.

use std::cmp::Ordering;
use std::convert::Infallible;
use std::error::Error;
use std::fmt::{self, Display, Formatter};

use amplify::confinement::{Confined, SmallOrdMap, SmallVec, TinyBlob};
use amplify::Bytes32;
use commit_verify::{Digest, Sha256};
use rgbcore::{RgbSeal, RgbSealDef};
use serde::{Deserialize, Serialize};
use single_use_seals::{ClientSideWitness, PublishedWitness, SealWitness, SingleUseSeal};
use strict_encoding::{StrictDecode, StrictDumb, StrictEncode, StrictType};
use ultrasonic::AuthToken;

use crate::proto::{Out, Proto, Sec, WitPlan};

pub const LIB: &str = "MockSeals";

#[derive(Copy, Clone, Ord, PartialOrd, Eq, PartialEq, Hash, Debug, Default)]
#[derive(StrictType, StrictEncode, StrictDecode, Serialize, Deserialize)]
#[strict_type(lib = LIB)]
pub struct MockId(Bytes32);
impl Display for MockId {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result { write!(f, "mock:{}", self.0) }
}

#[derive(Clone, Eq, PartialEq, Debug)]
#[derive(StrictType, StrictDumb, StrictEncode, StrictDecode, Serialize, Deserialize)]
#[strict_type(lib = LIB)]
pub struct MockSeal {
    pub sec: TinyBlob,
    pub v: u32,
    pub tx: MockId,
}
impl PartialOrd for MockSeal {
    fn partial_cmp(&self, other: &Self) -> Option<Ordering> { Some(self.cmp(other)) }
}
impl Ord for MockSeal {
    fn cmp(&self, other: &Self) -> Ordering {
        (other.v, other.tx, &other.sec).cmp(&(self.v, self.tx, &self.sec))
    }
}
impl Display for MockSeal {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result { write!(f, "mock-seal:{}/{}/{:?}", self.tx, self.v, self.sec.as_slice()) }
}

#[derive(Clone, Eq, PartialEq, Debug)]
#[derive(StrictType, StrictDumb, StrictEncode, StrictDecode, Serialize, Deserialize)]
#[strict_type(lib = LIB)]
pub struct MockDef {
    pub sec: TinyBlob,
    pub tx: Option<MockId>,
    pub v: u32,
}
impl Display for MockDef {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result { write!(f, "mock-def:{:?}/{}/{:?}", self.tx, self.v, self.sec.as_slice()) }
}

#[derive(Copy, Clone, Eq, PartialEq)]
pub struct MockMsg([u8; 32]);
impl From<[u8; 32]> for MockMsg {
    fn from(v: [u8; 32]) -> Self { Self(v) }
}

#[derive(Clone, Eq, PartialEq, Debug)]
#[derive(StrictType, StrictDumb, StrictEncode, StrictDecode, Serialize, Deserialize)]
#[strict_type(lib = LIB)]
pub struct MockIn {
    pub tx: MockId,
    pub v: u32,
}

/// Published part: a list of spent outputs and a commitment.
#[derive(Clone, Eq, PartialEq, Debug)]
#[derive(StrictType, StrictDumb, StrictEncode, StrictDecode, Serialize, Deserialize)]
#[strict_type(lib = LIB)]
pub struct MockPub {
    pub ins: SmallVec<MockIn>,
    pub commit: MockId,
    pub salt: u8,
    pub sealed: bool,
}

/// Client part: the bundle.
#[derive(Clone, Eq, PartialEq, Debug)]
#[derive(StrictType, StrictDumb, StrictEncode, StrictDecode, Serialize, Deserialize)]
#[strict_type(lib = LIB)]
pub struct MockCli {
    pub map: SmallOrdMap<u32, Bytes32>,
    pub torn: bool,
}

#[derive(Clone, Debug)]
pub struct MockErr(&'static str);
impl Display for MockErr {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result { f.write_str(self.0) }
}
impl Error for MockErr {}

fn sha(tag: &str, data: &[u8]) -> [u8; 32] {
    let mut e = Sha256::new();
    e.update(tag.as_bytes());
    e.update(data);
    e.finalize().into()
}
fn bundle_id(map: &SmallOrdMap<u32, Bytes32>) -> [u8; 32] {
    let mut buf = vec![];
    for (k, v) in map {
        buf.extend(k.to_be_bytes());
        buf.extend(v.to_byte_array());
    }
    sha("mock bundle", &buf)
}

impl SingleUseSeal for MockSeal {
    type Message = MockMsg;
    type PubWitness = MockPub;
    type CliWitness = MockCli;

    fn is_included(&self, message: MockMsg, witness: &SealWitness<Self>) -> bool {
        let Some(i) = witness.published.ins.iter().position(|i| i.tx == self.tx && i.v == self.v) else {
            return false;
        };
        witness.client.map.get(&(i as u32)).is_some_and(|m| m.to_byte_array() == message.0)
    }
}
impl PublishedWitness<MockSeal> for MockPub {
    type PubId = MockId;
    type Error = MockErr;
    fn pub_id(&self) -> MockId {
        let mut buf = vec![self.salt, self.sealed as u8];
        for i in &self.ins {
            buf.extend(i.tx.0.to_byte_array());
            buf.extend(i.v.to_be_bytes());
        }
        buf.extend(self.commit.0.to_byte_array());
        MockId(sha("mock witness", &buf).into())
    }
    fn verify_commitment(&self, proof: [u8; 32]) -> Result<(), MockErr> {
        if !self.sealed {
            return Err(MockErr("not sealed"));
        }
        (self.commit.0.to_byte_array() == proof).then_some(()).ok_or(MockErr("wrong commitment"))
    }
}
impl ClientSideWitness for MockCli {
    type Seal = MockSeal;
    type Proof = [u8; 32];
    type Error = MockErr;
    fn convolve_commit(&self, msg: MockMsg) -> Result<[u8; 32], MockErr> {
        if self.torn {
            return Err(MockErr("torn"));
        }
        if self.map.values().all(|m| m.to_byte_array() != msg.0) {
            return Err(MockErr("message is not a part of the bundle"));
        }
        Ok(bundle_id(&self.map))
    }
    fn merge(&mut self, _: Self) -> Result<(), impl Error> { Ok::<_, Infallible>(()) }
}
impl RgbSeal for MockSeal {
    type Definition = MockDef;
    type Published = MockPub;
    type Client = MockCli;
    type WitnessId = MockId;
}
impl RgbSealDef for MockDef {
    type Src = MockSeal;
    fn auth_token(&self) -> AuthToken { AuthToken::from_byte_array(Mock::token(self)) }
    fn resolve(&self, witness_id: MockId) -> MockSeal {
        MockSeal { tx: self.tx.unwrap_or(witness_id), v: self.v, sec: self.sec.clone() }
    }
    fn to_src(&self) -> Option<MockSeal> {
        self.tx.map(|tx| MockSeal { tx, v: self.v, sec: self.sec.clone() })
    }
}

pub struct Mock;
impl Proto for Mock {
    type Seal = MockSeal;

    fn def(tx: Option<[u8; 32]>, v: u32, sec: &Sec) -> MockDef {
        let mut blob = vec![];
        match sec {
            Sec::Noise(n) => blob.extend(n),
            Sec::Fallback(o) => {
                blob.extend(o.0);
                blob.extend(o.1.to_be_bytes());
                blob.push(1);
            }
        }
        MockDef { sec: Confined::from_checked(blob), tx: tx.map(|b| MockId(b.into())), v }
    }

    fn wit(plan: &WitPlan) -> SealWitness<MockSeal> {
        let map: SmallOrdMap<u32, Bytes32> =
            Confined::from_iter_checked(plan.map.iter().map(|(i, m)| (*i, Bytes32::from(*m))));
        // There are no protocols here: one bundle, whatever is asked for
        let least = plan.also.iter().filter(|(p, _)| *p < plan.prot).min_by_key(|(p, _)| *p);
        let commit = match least {
            _ if plan.flaw == "badcommit" => [0xBD; 32],
            Some((_, map)) => {
                bundle_id(&Confined::from_iter_checked(map.iter().map(|(i, m)| (*i, Bytes32::from(*m)))))
            }
            None => bundle_id(&map),
        };
        let sealed = plan.flaw != "nooutput";
        let torn = ["badproof", "badmpc", "badproto"].contains(&plan.flaw.as_str());
        let published = MockPub {
            ins: Confined::from_iter_checked(
                plan.ins.iter().map(|o| MockIn { tx: MockId(o.0.into()), v: o.1 }),
            ),
            commit: MockId(commit.into()),
            salt: plan.nonce ^ (plan.outs as u8).rotate_left(4) ^ (plan.method == "tapret") as u8,
            sealed,
        };
        SealWitness::new(published, MockCli { map, torn })
    }

    fn wid(id: &MockId) -> [u8; 32] { id.0.to_byte_array() }

    fn token(def: &MockDef) -> [u8; 30] {
        let mut buf = def.sec.to_vec();
        buf.extend(def.v.to_be_bytes());
        if let Some(tx) = def.tx {
            buf.extend(tx.0.to_byte_array());
        }
        let mut token = [0u8; 30];
        token.copy_from_slice(&sha("mock token", &buf)[2..]);
        token
    }

    fn abs_def(def: &MockDef) -> (Option<[u8; 32]>, u32, Vec<u8>) {
        (def.tx.map(|t| t.0.to_byte_array()), def.v, def.sec.to_vec())
    }

    fn abs_seal(seal: &MockSeal) -> (Out, Vec<u8>) { ((seal.tx.0.to_byte_array(), seal.v), seal.sec.to_vec()) }

    fn abs_wit(wit: &SealWitness<MockSeal>) -> (Vec<Out>, Vec<(u32, [u8; 32])>, bool) {
        let ins = wit.published.ins.iter().map(|i| (i.tx.0.to_byte_array(), i.v)).collect();
        let map = wit.client.map.iter().map(|(i, m)| (*i, m.to_byte_array())).collect();
        let good = !wit.client.torn
            && wit.published.sealed
            && wit.published.commit.0.to_byte_array() == bundle_id(&wit.client.map);
        (ins, map, good)
    }

    fn abs_prot(_: &SealWitness<MockSeal>) -> [u8; 32] { [0; 32] }
}

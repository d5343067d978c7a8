//! Bitcoin transaction output seals with opret and tapret commitments.

use amplify::confinement::Confined;
use amplify::num::u5;
use amplify::{bmap, default, none, ByteArray, Bytes};
use bp::dbc::tapret::{TapretCommitment, TapretPathProof, TapretProof};
use bp::seals::mpc::{self, MessageMap, MessageSource};
use bp::seals::{mmb, Anchor, Noise, TxoSeal, TxoSealExt, WOutpoint, WTxoSeal};
use bp::secp256k1::{SecretKey, SECP256K1};
use bp::{
    InternalPk, Outpoint, Sats, ScriptPubkey, SeqNo, TapLeafHash, TapScript, Tx, TxIn, TxOut, Txid, Vout,
};
use commit_verify::{CommitId, CommitVerify};
use single_use_seals::{ClientSideWitness, PublishedWitness, SealWitness};

use crate::proto::{Out, Proto, Sec, WitPlan};

pub struct Btc;

pub fn outpoint(o: &Out) -> Outpoint { Outpoint::new(Txid::from_byte_array(o.0), o.1) }
fn out(o: &Outpoint) -> Out { (o.txid.to_byte_array(), o.vout.to_u32()) }

pub fn sec_bytes(sec: &TxoSealExt) -> Vec<u8> { crate::world::strict(sec) }

pub fn ext(sec: &Sec) -> TxoSealExt {
    match sec {
        Sec::Noise(n) => TxoSealExt::Noise(Noise::from(Bytes::from(*n))),
        Sec::Fallback(o) => TxoSealExt::Fallback(outpoint(o)),
    }
}

impl Proto for Btc {
    type Seal = TxoSeal;

    fn def(tx: Option<[u8; 32]>, v: u32, sec: &Sec) -> WTxoSeal {
        WTxoSeal {
            primary: match tx {
                None => WOutpoint::Wout(Vout::from_u32(v)),
                Some(tx) => WOutpoint::Extern(outpoint(&(tx, v))),
            },
            secondary: ext(sec),
        }
    }

    fn wit(plan: &WitPlan) -> SealWitness<TxoSeal> {
        let tapret = plan.method == "tapret";
        let bundle_of = |map: &[(u32, [u8; 32])]| mmb::BundleProof {
            map: Confined::from_iter_checked(map.iter().map(|(i, m)| (*i, mmb::Message::from_byte_array(*m)))),
        };
        let bundle = bundle_of(&plan.map);
        let protocol = mpc::ProtocolId::from_byte_array(plan.prot);
        let other = mpc::ProtocolId::from_byte_array([0x13u8; 32]);
        let third = mpc::ProtocolId::from_byte_array([0x77u8; 32]);
        let mut messages = bmap! {
            protocol => MessageSource::Mmb(bundle.clone()),
            other => MessageSource::Single(mpc::Message::from_byte_array([plan.nonce; 32])),
            third => MessageSource::Mmb(mmb::BundleProof { map: none!() })
        };
        for (prot, map) in &plan.also {
            messages.insert(mpc::ProtocolId::from_byte_array(*prot), MessageSource::Mmb(bundle_of(map)));
        }
        let source = mpc::Source {
            min_depth: u5::with(3),
            entropy: 0xFE + plan.nonce as u64,
            messages: MessageMap::from(Confined::from_checked(messages)),
        };
        let merkle_tree = source.into_merkle_tree().unwrap();
        let proofs = merkle_tree.clone().into_proofs().collect::<std::collections::BTreeMap<_, _>>();
        let root = match plan.flaw.as_str() {
            // A commitment to something else
            "badcommit" => mpc::Commitment::from_byte_array([0xBD; 32]),
            _ => merkle_tree.commit_id(),
        };

        let nonce = plan.nonce;
        let tapret_commitment = TapretCommitment::with(root, nonce);
        let script_commitment = TapScript::commit(&tapret_commitment);
        let secret = SecretKey::from_byte_array(&[0x66; 32]).unwrap();
        let internal_pk = InternalPk::from(secret.x_only_public_key(SECP256K1).0);
        let tapret_proof = TapretProof { path_proof: TapretPathProof::root(nonce), internal_pk };

        let mut anchor = Anchor {
            mmb_proof: bundle,
            mpc_protocol: protocol,
            mpc_proof: proofs[&protocol].clone(),
            dbc_proof: if tapret { Some(tapret_proof.clone()) } else { None },
            fallback_proof: none!(),
        };
        match plan.flaw.as_str() {
            // A proof of the wrong commitment method
            "badproof" => anchor.dbc_proof = if tapret { None } else { Some(tapret_proof) },
            // A merkle proof of a different protocol
            "badmpc" => anchor.mpc_proof = proofs[&other].clone(),
            // A bundle committed to under another protocol
            "badproto" => anchor.mpc_protocol = other,
            _ => {}
        }

        let plain = |n: i32| TxOut {
            value: Sats::from(1000 + n as u64),
            script_pubkey: ScriptPubkey::p2wpkh(bp::WPubkeyHash::from([n as u8; 20])),
        };
        let mut outputs = (plan.outs..0).map(|n| plain(-n)).collect::<Vec<_>>();
        if plan.flaw != "nooutput" {
            outputs.push(TxOut {
                value: Sats::ZERO,
                script_pubkey: if tapret {
                    ScriptPubkey::p2tr(
                        internal_pk,
                        Some(TapLeafHash::with_leaf_script(&script_commitment.into()).into()),
                    )
                } else {
                    ScriptPubkey::op_return(root.as_slice())
                },
            });
        }
        outputs.extend((0..plan.outs).map(plain));
        let tx = Tx {
            version: default!(),
            inputs: Confined::from_iter_checked(plan.ins.iter().map(|o| TxIn {
                prev_output: outpoint(o),
                sig_script: none!(),
                sequence: SeqNo::from_consensus_u32(plan.nonce as u32),
                witness: none!(),
            })),
            outputs: Confined::from_checked(outputs),
            lock_time: default!(),
        };
        SealWitness::new(tx, anchor)
    }

    fn wid(id: &Txid) -> [u8; 32] { id.to_byte_array() }

    fn token(def: &WTxoSeal) -> [u8; 30] {
        let id = def.commit_id().to_byte_array();
        let mut token = [0u8; 30];
        token.copy_from_slice(&id[..30]);
        token
    }

    fn abs_def(def: &WTxoSeal) -> (Option<[u8; 32]>, u32, Vec<u8>) {
        match def.primary {
            WOutpoint::Wout(v) => (None, v.to_u32(), sec_bytes(&def.secondary)),
            WOutpoint::Extern(o) => (Some(o.txid.to_byte_array()), o.vout.to_u32(), sec_bytes(&def.secondary)),
        }
    }

    fn abs_seal(seal: &TxoSeal) -> (Out, Vec<u8>) { (out(&seal.primary), sec_bytes(&seal.secondary)) }

    fn abs_wit(wit: &SealWitness<TxoSeal>) -> (Vec<Out>, Vec<(u32, [u8; 32])>, bool) {
        let ins = wit.published.inputs.iter().map(|i| out(&i.prev_output)).collect();
        let map = wit.client.mmb_proof.map.iter().map(|(i, m)| (*i, m.to_byte_array())).collect();
        let good = wit.client.mmb_proof.map.values().next().is_some_and(|msg| {
            wit.client
                .convolve_commit(*msg)
                .is_ok_and(|proof| wit.published.verify_commitment(proof).is_ok())
        });
        (ins, map, good)
    }

    fn abs_prot(wit: &SealWitness<TxoSeal>) -> [u8; 32] { wit.client.mpc_protocol.to_byte_array() }
}

//! Seal protocols under which the contract is evaluated.

use rgbcore::RgbSeal;
use serde::de::DeserializeOwned;
use serde::Serialize;
use single_use_seals::SealWitness;
use strict_encoding::{StrictDecode, StrictEncode};

pub type Out = ([u8; 32], u32);

#[derive(Clone)]
pub enum Sec {
    Noise([u8; 40]),
    Fallback(Out),
}

pub struct WitPlan {
    pub method: String,
    pub ins: Vec<Out>,
    pub map: Vec<(u32, [u8; 32])>,
    pub flaw: String,
    pub outs: i32,
    pub nonce: u8,
    pub prot: [u8; 32],
    #[allow(clippy::type_complexity)]
    pub also: Vec<([u8; 32], Vec<(u32, [u8; 32])>)>,
}

pub type DefOf<P> = <<P as Proto>::Seal as RgbSeal>::Definition;
pub type WidOf<P> = <<P as Proto>::Seal as RgbSeal>::WitnessId;

pub trait Proto: 'static {
    type Seal: RgbSeal<
            Definition: Serialize + DeserializeOwned + 'static,
            WitnessId: 'static,
            Published: Clone + StrictEncode + StrictDecode + Serialize + DeserializeOwned + 'static,
            Client: Clone + StrictEncode + StrictDecode + Serialize + DeserializeOwned + 'static,
        > + 'static;

    fn def(tx: Option<[u8; 32]>, v: u32, sec: &Sec) -> DefOf<Self>;
    fn wit(plan: &WitPlan) -> SealWitness<Self::Seal>;
    fn wid(id: &WidOf<Self>) -> [u8; 32];

    /// The token committing to the definition, computed without the code under test.
    fn token(def: &DefOf<Self>) -> [u8; 30];
    fn abs_def(def: &DefOf<Self>) -> (Option<[u8; 32]>, u32, Vec<u8>);
    fn abs_seal(seal: &Self::Seal) -> (Out, Vec<u8>);
    /// Inputs, bundle map, and whether the published part commits to the client part.
    #[allow(clippy::type_complexity)]
    fn abs_wit(wit: &SealWitness<Self::Seal>) -> (Vec<Out>, Vec<(u32, [u8; 32])>, bool);
    /// The protocol the client part names, if there is such a thing.
    fn abs_prot(wit: &SealWitness<Self::Seal>) -> [u8; 32];
}

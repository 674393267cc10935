//! A contract, a reader and a single-use seal protocol which record everything the evaluation does with them.
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::error::Error;
use std::fmt::{self, Display, Formatter};

use amplify::confinement::{SmallOrdMap, SmallVec};
use rgbcore::{ContractApi, OperationSeals, ReadOperation, RgbSeal, RgbSealDef};
use serde::{Deserialize, Serialize};
use single_use_seals::{ClientSideWitness, PublishedWitness, SealWitness, SingleUseSeal};
use strict_encoding::{StrictDecode, StrictDumb, StrictEncode, StrictType};
use ultrasonic::aluvm::alu::{Lib, LibId};
use ultrasonic::{AuthToken, CellAddr, Codex, ContractId, LibRepo, Memory, Opid, StateCell, StateValue, VerifiedOperation};

pub const LIB: &str = "Mock";

#[derive(Copy, Clone, Ord, PartialOrd, Eq, PartialEq, Hash, Debug, StrictType, StrictDumb, StrictEncode, StrictDecode, Serialize, Deserialize)]
#[strict_type(lib = LIB)]
pub struct Msg {
    pub a: [u8; 32],
}
impl From<[u8; 32]> for Msg {
    fn from(a: [u8; 32]) -> Self { Msg { a } }
}

#[derive(Copy, Clone, Ord, PartialOrd, Eq, PartialEq, Hash, Debug, StrictType, StrictDumb, StrictEncode, StrictDecode, Serialize, Deserialize)]
#[strict_type(lib = LIB)]
pub struct MSeal {
    pub wid: u64,
    pub no: u32,
    pub blind: u16,
}
impl Display for MSeal {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result { write!(f, "{}:{}/{}", self.wid, self.no, self.blind) }
}

/// rel == 0: complete by itself
#[derive(Copy, Clone, Ord, PartialOrd, Eq, PartialEq, Hash, Debug, StrictType, StrictDumb, StrictEncode, StrictDecode, Serialize, Deserialize)]
#[strict_type(lib = LIB)]
pub struct MDef {
    pub rel: u8,
    pub wid: u64,
    pub no: u32,
    pub blind: u16,
}
impl Display for MDef {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result { write!(f, "{}~{}:{}/{}", self.rel, self.wid, self.no, self.blind) }
}

pub type Close = (MSeal, Msg);

#[derive(Clone, Eq, PartialEq, Debug, StrictType, StrictDumb, StrictEncode, StrictDecode, Serialize, Deserialize)]
#[strict_type(lib = LIB)]
pub struct MClose {
    pub seal: MSeal,
    pub msg: Msg,
}

#[derive(Clone, Eq, PartialEq, Debug, StrictType, StrictDumb, StrictEncode, StrictDecode, Serialize, Deserialize)]
#[strict_type(lib = LIB)]
pub struct MPub {
    pub id: u64,
    pub closes: SmallVec<MClose>,
    pub commits: SmallVec<Msg>,
}

#[derive(Clone, Eq, PartialEq, Debug, StrictType, StrictDumb, StrictEncode, StrictDecode, Serialize, Deserialize)]
#[strict_type(lib = LIB)]
pub struct MCli {
    /// seals the client-side part is about
    pub seals: SmallVec<MSeal>,
    /// messages it can be convolved with
    pub msgs: SmallVec<Msg>,
    pub tweak: u8,
}

#[derive(Clone, Eq, PartialEq, Debug)]
pub struct MErr(pub &'static str, pub u64, pub Msg);
impl Display for MErr {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result { write!(f, "{} {}", self.0, self.1) }
}
impl Error for MErr {}

impl SingleUseSeal for MSeal {
    type Message = Msg;
    type PubWitness = MPub;
    type CliWitness = MCli;
    fn is_included(&self, msg: Msg, w: &SealWitness<Self>) -> bool { included(self, msg, &w.published, &w.client) }
}
pub fn included(seal: &MSeal, msg: Msg, p: &MPub, c: &MCli) -> bool {
    c.seals.contains(seal) && p.closes.iter().any(|x| x.seal == *seal && x.msg == msg)
}
impl PublishedWitness<MSeal> for MPub {
    type PubId = u64;
    type Error = MErr;
    fn pub_id(&self) -> u64 { self.id }
    fn verify_commitment(&self, proof: Msg) -> Result<(), MErr> {
        if self.commits.contains(&proof) { Ok(()) } else { Err(MErr("published", self.id, proof)) }
    }
}
impl ClientSideWitness for MCli {
    type Seal = MSeal;
    type Proof = Msg;
    type Error = MErr;
    fn convolve_commit(&self, msg: Msg) -> Result<Msg, MErr> {
        if !self.msgs.contains(&msg) { return Err(MErr("client", self.tweak as u64, msg)); }
        let mut a = msg.a;
        a[31] ^= self.tweak;
        Ok(Msg { a })
    }
    fn merge(&mut self, _: Self) -> Result<(), impl Error> { Ok::<_, std::convert::Infallible>(()) }
}
impl RgbSealDef for MDef {
    type Src = MSeal;
    fn auth_token(&self) -> AuthToken {
        let mut b = [0u8; 30];
        b[0] = self.rel;
        b[1..9].copy_from_slice(&self.wid.to_le_bytes());
        b[9..13].copy_from_slice(&self.no.to_le_bytes());
        b[13..15].copy_from_slice(&self.blind.to_le_bytes());
        b[29] = 0x5A;
        AuthToken::from_byte_array(b)
    }
    fn resolve(&self, wid: u64) -> MSeal {
        MSeal { wid: if self.rel == 0 { self.wid } else { wid }, no: self.no, blind: self.blind }
    }
    fn to_src(&self) -> Option<MSeal> {
        if self.rel == 0 { Some(MSeal { wid: self.wid, no: self.no, blind: self.blind }) } else { None }
    }
}
impl RgbSeal for MSeal {
    type Definition = MDef;
    type Published = MPub;
    type Client = MCli;
    type WitnessId = u64;
}

#[derive(Clone, Debug)]
pub enum Ev {
    /// result of the reader: 'o'peration, 'e'nd, error 'x'
    Read(char),
    Known(Opid),
    /// the state was queried
    Mem(CellAddr),
    Witness(Opid, MPub, MCli),
    Op(Opid, String),
    Seals(Opid, BTreeMap<u16, MDef>),
}

thread_local! {
    pub static LOG: RefCell<Vec<Ev>> = const { RefCell::new(Vec::new()) };
    /// effects delivered since the last read
    pub static DIRTY: RefCell<bool> = const { RefCell::new(false) };
}
pub fn log(e: Ev) { LOG.with(|l| l.borrow_mut().push(e)) }

#[derive(Clone)]
pub struct Model {
    pub codex: Codex,
    pub cid: ContractId,
    pub libs: BTreeMap<LibId, Lib>,
    pub known: BTreeSet<Opid>,
    pub owned: BTreeMap<CellAddr, StateCell>,
    pub global: BTreeMap<CellAddr, StateValue>,
    /// the state can not be read once an effect of the operation has been delivered
    pub fragile: bool,
    /// an operation becomes known with its witness
    pub known_by_witness: bool,
    /// an operation does not become known when it is applied
    pub forgets: bool,
    /// global state which an operation has read is gone when it has been applied
    pub volatile: bool,
    pub record: bool,
}
impl Model {
    fn blocked(&self) -> bool { self.fragile && DIRTY.with(|d| *d.borrow()) }
    pub fn op_applied(&mut self, opid: Opid, op: &ultrasonic::Operation) {
        for i in &op.destructible_in { self.owned.remove(&i.addr); }
        for (no, c) in op.destructible_out.iter().enumerate() { self.owned.insert(CellAddr::new(opid, no as u16), *c); }
        for (no, c) in op.immutable_out.iter().enumerate() { self.global.insert(CellAddr::new(opid, no as u16), c.value); }
        if self.volatile { for a in &op.immutable_in { self.global.remove(a); } }
        if !self.forgets { self.known.insert(opid); }
    }
    pub fn witness_applied(&mut self, opid: Opid) {
        if self.known_by_witness { self.known.insert(opid); }
    }
}
impl Memory for Model {
    fn destructible(&self, addr: CellAddr) -> Option<StateCell> {
        if self.record { log(Ev::Mem(addr)); }
        if self.blocked() { return None; }
        self.owned.get(&addr).copied()
    }
    fn immutable(&self, addr: CellAddr) -> Option<StateValue> {
        if self.record { log(Ev::Mem(addr)); }
        if self.blocked() { return None; }
        self.global.get(&addr).copied()
    }
}
impl LibRepo for Model {
    fn get_lib(&self, id: LibId) -> Option<&Lib> {
        if self.blocked() { return None; }
        self.libs.get(&id)
    }
}
impl ContractApi<MSeal> for Model {
    fn contract_id(&self) -> ContractId { self.cid }
    fn codex(&self) -> &Codex { &self.codex }
    fn repo(&self) -> &impl LibRepo { self }
    fn memory(&self) -> &impl Memory { self }
    fn is_known(&self, opid: Opid) -> bool {
        log(Ev::Known(opid));
        self.known.contains(&opid)
    }
    fn apply_operation(&mut self, op: VerifiedOperation) {
        let opid = op.opid();
        log(Ev::Op(opid, format!("{:?}", op.as_operation())));
        DIRTY.with(|d| *d.borrow_mut() = true);
        self.op_applied(opid, &op.into_operation());
    }
    fn apply_seals(&mut self, opid: Opid, seals: SmallOrdMap<u16, MDef>) {
        log(Ev::Seals(opid, seals.iter().map(|(k, v)| (*k, *v)).collect()));
        DIRTY.with(|d| *d.borrow_mut() = true);
    }
    fn apply_witness(&mut self, opid: Opid, w: SealWitness<MSeal>) {
        self.witness_applied(opid);
        log(Ev::Witness(opid, w.published, w.client));
        DIRTY.with(|d| *d.borrow_mut() = true);
    }
}

#[derive(Clone, Debug)]
pub struct StreamErr(pub u32);
impl Display for StreamErr {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result { write!(f, "stream error {}", self.0) }
}
impl Error for StreamErr {}

pub struct Reader {
    pub ops: std::vec::IntoIter<OperationSeals<MSeal>>,
    pub err: Option<u32>,
}
impl ReadOperation for Reader {
    type Seal = MSeal;
    fn read_operation(&mut self) -> Result<Option<OperationSeals<MSeal>>, impl Error + 'static> {
        DIRTY.with(|d| *d.borrow_mut() = false);
        match self.ops.next() {
            Some(o) => {
                log(Ev::Read('o'));
                Ok(Some(o))
            }
            None => match self.err {
                Some(n) => {
                    log(Ev::Read('x'));
                    Err(StreamErr(n))
                }
                None => {
                    log(Ev::Read('e'));
                    Ok(None)
                }
            },
        }
    }
}

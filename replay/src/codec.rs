//! Round trips of the encodings and of the seal definitions of bitcoin on the real code.
use std::panic::{catch_unwind, AssertUnwindSafe};

use amplify::confinement::Confined;
use amplify::ByteArray;
use bp::seals::{Anchor, Noise, TxoSeal, TxoSealExt, WOutpoint, WTxoSeal};
use bp::{Outpoint, Sats, ScriptPubkey, SeqNo, Tx, TxIn, TxOut, Txid, Vout};
use commit_verify::CommitId;
use rgbcore::{OperationSeals, RgbSeal, RgbSealDef};
use single_use_seals::SealWitness;
use strict_encoding::{StrictDumb, StrictEncode, StrictWriter};

use crate::choices::Choices;
use crate::eval;
use crate::mock::MSeal;
use crate::value::{De, How, Ser, Val};

type R = (Option<(Vec<String>, String)>, String);

fn bytes32(c: &mut Choices) -> [u8; 32] {
    let mut b = [0u8; 32];
    match c.pick(4) {
        0 => {}
        1 => b = [0xFF; 32],
        _ => for x in b.iter_mut() { *x = c.pick(256) as u8 },
    }
    b
}
fn vout(c: &mut Choices) -> u32 {
    match c.pick(6) { 0 => 0, 1 => 1, 2 => u32::MAX, 3 => 255 + c.pick(3) as u32, 4 => 65535 + c.pick(3) as u32, _ => c.pick(1 << 32) as u32 }
}
fn outpoint(c: &mut Choices) -> Outpoint { Outpoint::new(Txid::from_byte_array(bytes32(c)), Vout::from_u32(vout(c))) }
pub fn wtxo(c: &mut Choices) -> WTxoSeal {
    WTxoSeal {
        primary: if c.chance(50) { WOutpoint::Extern(outpoint(c)) } else { WOutpoint::Wout(Vout::from_u32(vout(c))) },
        secondary: if c.chance(50) { TxoSealExt::Fallback(outpoint(c)) } else {
            let mut n = [0u8; 40];
            n[..32].copy_from_slice(&bytes32(c));
            for x in n[32..].iter_mut() { *x = c.pick(256) as u8 }
            TxoSealExt::Noise(Noise::from(amplify::Bytes::<40>::from_byte_array(n)))
        },
    }
}

/// a random definition, others which differ from it in one part, and that definition again
pub fn seals(prop: &str, c: &mut Choices) -> R {
    let d = wtxo(c);
    c.nontrivial = true;
    let mut ds = vec![d];
    for _ in 0..c.pick(4) {
        let mut x = ds[c.pick(ds.len() as u64) as usize];
        let y = wtxo(c);
        if c.chance(50) { x.primary = y.primary } else { x.secondary = y.secondary }
        ds.push(x);
    }
    if ds.len() > 1 { ds.push(d) }
    let txid = Txid::from_byte_array(bytes32(c));
    let other = Txid::from_byte_array(bytes32(c));
    let mut all = String::new();
    for (k, d) in ds.into_iter().enumerate() {
        let (f, t) = seal(prop, d, if k % 2 == 1 { other } else { txid });
        all.push_str(&t);
        if f.is_some() { return (f, all) }
    }
    (None, all)
}

fn seal(prop: &str, d: WTxoSeal, txid: Txid) -> R {
    let desc = format!("definition {d:?}\nwitness id {txid:?}\n");
    let bad = |w: String| (Some((vec![prop.to_string()], w)), desc.clone());
    if prop == "C12" {
        let t = match catch_unwind(AssertUnwindSafe(|| (d.auth_token(), d.auth_token()))) { Ok(t) => t, Err(_) => return bad("auth_token panics".into()) };
        let id = d.commit_id().to_byte_array();
        let mut want = [0u8; 32];
        want[..30].copy_from_slice(&id[..30]);
        for t in [t.0, t.1] {
            let got = t.to_fe256().to_u256().to_le_bytes();
            if got != want { return bad(format!("auth_token is {got:02x?}, the first 30 bytes of the commitment id are {:02x?}", &id[..30])) }
        }
    } else {
        let (r, s) = match catch_unwind(AssertUnwindSafe(|| (d.resolve(txid), d.to_src()))) { Ok(t) => t, Err(_) => return bad("resolve or to_src panics".into()) };
        let (primary, own) = match d.primary { WOutpoint::Wout(v) => (Outpoint::new(txid, v), false), WOutpoint::Extern(o) => (o, true) };
        let want = TxoSeal { primary, secondary: d.secondary };
        if r != want { return bad(format!("resolve gives {r:?}, expected {want:?}")) }
        if s != own.then_some(want) { return bad(format!("to_src gives {s:?}, expected {:?}", own.then_some(want))) }
    }
    (None, desc)
}

fn tx(c: &mut Choices) -> Tx {
    let mut t = Tx::strict_dumb();
    let mut ins = vec![];
    for _ in 0..c.pick(4) { ins.push(TxIn { prev_output: outpoint(c), sig_script: none!(), sequence: SeqNo::from_consensus_u32(vout(c)), witness: none!() }) }
    let mut outs = vec![];
    for _ in 0..c.pick(4) { outs.push(TxOut { value: Sats::from(c.pick(1 << 40)), script_pubkey: ScriptPubkey::op_return(&bytes32(c)) }) }
    t.inputs = Confined::try_from(ins).unwrap();
    t.outputs = Confined::try_from(outs).unwrap();
    t
}

/// the operations of a random case, with bitcoin seals put in instead of the mock ones
fn bitcoin_block(b: &OperationSeals<MSeal>, c: &mut Choices) -> OperationSeals<TxoSeal> {
    OperationSeals {
        operation: eval::copy_op(&b.operation),
        defined_seals: Confined::try_from(b.defined_seals.keys().map(|k| (*k, wtxo(c))).collect::<std::collections::BTreeMap<_, _>>()).unwrap(),
        witness: b.witness.as_ref().map(|_| SealWitness::new(tx(c), Anchor::strict_dumb())),
    }
}

struct Parts { op: String, seals: String, wit: String, op_b: Vec<u8>, seals_b: Vec<u8>, wit_b: Vec<u8> }
fn enc<T: StrictEncode>(t: &T) -> Vec<u8> {
    let w = StrictWriter::in_memory::<{ usize::MAX }>();
    t.strict_encode(w).unwrap().unbox().unconfine()
}
fn parts<S: RgbSeal>(b: &OperationSeals<S>) -> Parts where S::Published: std::fmt::Debug, S::Client: std::fmt::Debug {
    Parts {
        op: format!("{:?}", b.operation), seals: format!("{:?}", b.defined_seals),
        wit: format!("{:?}", b.witness.as_ref().map(|w| (&w.published, &w.client))),
        op_b: enc(&b.operation), seals_b: enc(&b.defined_seals), wit_b: enc(&b.witness),
    }
}
fn diff(a: &Parts, b: &Parts) -> Option<&'static str> {
    if a.op != b.op || a.op_b != b.op_b { Some("operation") } else if a.seals != b.seals || a.seals_b != b.seals_b { Some("defined seals") } else if a.wit != b.wit || a.wit_b != b.wit_b { Some("witness") } else { None }
}

fn strict1<S: RgbSeal>(b: &OperationSeals<S>) -> Result<(), String> where S::Published: std::fmt::Debug, S::Client: std::fmt::Debug {
    struct Wrap;
    let _ = Wrap;
    let a = parts(b);
    let bytes = catch_unwind(AssertUnwindSafe(|| enc(b))).map_err(|_| "encoding panics".to_string())?;
    let n = a.op_b.len() + a.seals_b.len() + a.wit_b.len();
    if bytes.len() != n { return Err(format!("{} bytes are written for parts of {n} bytes", bytes.len())) }
    let mut reader = strict_encoding::StrictReader::in_memory::<{ usize::MAX }>(bytes.clone());
    let r = catch_unwind(AssertUnwindSafe(|| <OperationSeals<S> as strict_encoding::StrictDecode>::strict_decode(&mut reader))).map_err(|_| "decoding panics".to_string())?;
    let d = r.map_err(|e| format!("an encoded value is not decoded: {e}"))?;
    let e = parts(&d);
    if let Some(w) = diff(&a, &e) { return Err(format!("{w} is different after a round trip")) }
    if enc(&d) != bytes { return Err("the encoding of a decoded value is different".into()) }
    if reader.unbox().into_cursor().position() as usize != bytes.len() { return Err("not all of the bytes are read".into()) }
    Ok(())
}

fn blocks(c: &mut Choices) -> Vec<OperationSeals<MSeal>> {
    let k = eval::generate(c);
    k.ops
}

fn all(c: &mut Choices, prop: &str, f: &dyn Fn(&OperationSeals<MSeal>) -> Result<(), String>, g: &dyn Fn(&OperationSeals<TxoSeal>) -> Result<(), String>) -> R {
    let bs = blocks(c);
    c.nontrivial = bs.iter().any(|b| !b.defined_seals.is_empty() || b.witness.is_some());
    for (k, b) in bs.iter().enumerate().take(4) {
        if let Err(w) = f(b) { return (Some((vec![prop.to_string()], w)), format!("operation {k}: {:?}\nseals {:?}\nwitness {:?}\n", b.operation, b.defined_seals, b.witness.as_ref().map(|w| (&w.published, &w.client)))) }
        let t = bitcoin_block(b, c);
        if let Err(w) = g(&t) { return (Some((vec![prop.to_string()], w)), format!("operation {k}: {:?}\nseals {:?}\nwitness {:?}\n", t.operation, t.defined_seals, t.witness.as_ref().map(|w| (&w.published, &w.client)))) }
    }
    (None, String::new())
}

pub fn strict(c: &mut Choices) -> R { all(c, "C14", &|b| strict1(b), &|b| strict1(b)) }

fn clone1<S: RgbSeal>(b: &OperationSeals<S>) -> Result<(), String> where S::Published: std::fmt::Debug + Clone, S::Client: std::fmt::Debug + Clone {
    let a = parts(b);
    let d = catch_unwind(AssertUnwindSafe(|| b.clone())).map_err(|_| "clone panics".to_string())?;
    if let Some(w) = diff(&a, &parts(&d)) { return Err(format!("{w} of the clone is different")) }
    if let Some(w) = diff(&a, &parts(b)) { return Err(format!("{w} of the original has been changed")) }
    Ok(())
}
pub fn cloning(c: &mut Choices) -> R { all(c, "C15", &|b| clone1(b), &|b| clone1(b)) }

fn serde1<S: RgbSeal>(b: &OperationSeals<S>, human: bool, how: How, order: [usize; 3]) -> Result<(), String>
where
    OperationSeals<S>: serde::Serialize + for<'d> serde::Deserialize<'d>,
    S::Definition: serde::Serialize + for<'d> serde::Deserialize<'d>,
    S::Published: std::fmt::Debug + serde::Serialize + for<'d> serde::Deserialize<'d>,
    S::Client: std::fmt::Debug + serde::Serialize + for<'d> serde::Deserialize<'d>,
{
    use serde::Serialize;
    let s = Ser { human };
    let a = parts(b);
    // the parts by themselves; what their own implementations lose is not the question
    let own = |b: &OperationSeals<S>| -> Option<[Val; 3]> { Some([b.operation.serialize(s).ok()?, b.defined_seals.serialize(s).ok()?, b.witness.serialize(s).ok()?]) };
    let Some(p) = own(b) else { return Ok(()) };
    let d = |v: &Val| De { v: v.clone(), human, how };
    use serde::Deserialize;
    let Ok(o2) = ultrasonic::Operation::deserialize(d(&p[0])) else { return Ok(()) };
    let Ok(d2) = amplify::confinement::SmallOrdMap::<u16, S::Definition>::deserialize(d(&p[1])) else { return Ok(()) };
    let Ok(w2) = Option::<SealWitness<S>>::deserialize(d(&p[2])) else { return Ok(()) };
    let again = OperationSeals::<S> { operation: o2, defined_seals: d2, witness: w2 };
    if diff(&a, &parts(&again)).is_some() { return Ok(()) }
    // the whole
    let v = catch_unwind(AssertUnwindSafe(|| b.serialize(s))).map_err(|_| "serialization panics".to_string())?.map_err(|e| format!("serialization fails: {e}"))?;
    let names = ["operation", "definedSeals", "witness"];
    let Val::Struct(n, f) = &v else { return Err("not a structure is written".into()) };
    if f.len() != 3 { return Err(format!("{} parts are written", f.len())) }
    for (k, nm) in names.iter().enumerate() {
        match f.iter().filter(|x| x.0 == *nm).collect::<Vec<_>>().as_slice() {
            [(_, x)] if *x == p[k] => {}
            [_] => return Err(format!("{nm} is written wrongly")),
            x => return Err(format!("{nm} is written {} times", x.len())),
        }
    }
    let f2: Vec<_> = if how == How::Named || how == How::Bytes { order.iter().map(|k| f[*k].clone()).collect() } else { f.clone() };
    let v2 = Val::Struct(n.clone(), f2);
    let r = catch_unwind(AssertUnwindSafe(|| OperationSeals::<S>::deserialize(d(&v2)))).map_err(|_| "deserialization panics".to_string())?.map_err(|e| format!("deserialization fails: {e}"))?;
    if let Some(w) = diff(&a, &parts(&r)) { return Err(format!("{w} is different after a round trip ({how:?})")) }
    Ok(())
}
pub fn serde(c: &mut Choices) -> R {
    let human = c.chance(50);
    let how = [How::Named, How::Bytes, How::Index, How::Sequence][c.pick(4) as usize];
    let order = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][c.pick(6) as usize];
    all(c, "C18", &|b| serde1(b, human, how, order), &|_| Ok(()))
}

// ------------------------------------------------------------------------------------------------ texts of errors
struct Limited(usize, String);
impl std::fmt::Write for Limited {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if s.len() > self.0 { return Err(std::fmt::Error) }
        self.0 -= s.len();
        self.1.push_str(s);
        Ok(())
    }
}
/// pieces of text, free of the layout
fn norm(s: &str) -> String { s.chars().filter(|c| !c.is_whitespace() && *c != ',').collect() }
fn shown<T: std::fmt::Display + std::fmt::Debug>(what: &'static str, t: &T) -> (&'static str, Vec<String>) { (what, vec![format!("{t}"), format!("{t:?}"), format!("{t:#?}"), format!("{t:#}")]) }

pub fn texts(c: &mut Choices) -> R {
    use rgbcore::VerificationError as E;
    use single_use_seals::SealError;
    use std::collections::{BTreeMap, BTreeSet};
    use std::fmt::Write;
    use ultrasonic::{AuthToken, CallError, CellAddr, ContractId, Opid};
    use crate::mock::{MErr, MSeal, Msg, StreamErr};
    c.nontrivial = true;
    let opid = Opid::from(bytes32(c));
    let pub_id = c.pick(1 << 40);
    let addr = CellAddr::new(Opid::from(bytes32(c)), c.pick(65536) as u16);
    let msg = Msg { a: bytes32(c) };
    let se = match c.pick(3) {
        0 => SealError::NotIncluded(MSeal { wid: c.pick(1 << 30), no: c.pick(1 << 20) as u32, blind: c.pick(65536) as u16 }, c.pick(1 << 40)),
        1 => SealError::Published(MErr("published", c.pick(1 << 30), msg)),
        _ => SealError::Client(MErr("client", c.pick(1 << 30), msg)),
    };
    let ce = match c.pick(4) {
        0 => CallError::WrongContract { expected: ContractId::from(bytes32(c)), found: ContractId::from(bytes32(c)) },
        1 => CallError::NotFound(c.pick(65536) as u16),
        2 => CallError::NoReadOnceInput(addr),
        _ => CallError::NoImmutableInput(addr),
    };
    let mut token = |c: &mut Choices| { let mut b = [0u8; 30]; b.copy_from_slice(&bytes32(c)[..30]); AuthToken::from_byte_array(b) };
    let n = c.pick(4);
    let defined: BTreeSet<_> = (0..n).map(|_| token(c)).collect();
    let n = c.pick(4);
    let reported: BTreeSet<_> = (0..n).map(|_| token(c)).collect();
    let n = c.pick(4);
    let sources: BTreeMap<u16, String> = (0..n).map(|_| (c.pick(65536) as u16, wtxo(c).to_string())).collect();
    let stream = StreamErr(c.pick(1 << 30) as u32);
    let mut mism = vec![shown("operation id", &opid)];
    for t in &defined { mism.push(shown("actual token", t)) }
    for t in &reported { mism.push(shown("reported token", t)) }
    for s in sources.values() { mism.push(shown("definition", s)) }
    type Err_ = rgbcore::VerificationError<MSeal>;
    let all: Vec<(&str, Err_, Vec<(&'static str, Vec<String>)>)> = vec![
        ("Stream", E::Stream(Box::new(stream.clone())), vec![shown("reader's error", &stream)]),
        ("NoCodexCommitment", E::NoCodexCommitment, vec![]),
        ("NoWitness", E::NoWitness(opid), vec![shown("operation id", &opid)]),
        ("SealsNotClosed", E::SealsNotClosed(pub_id, opid, se.clone()), vec![shown("witness id", &pub_id), shown("operation id", &opid), shown("seal error", &se)]),
        ("SealUnknown", E::SealUnknown(addr), vec![shown("cell address", &addr)]),
        ("SealsDefinitionMismatch", E::SealsDefinitionMismatch { opid, reported, defined, sources }, mism),
        ("Vm", E::Vm(ce), vec![shown("codex error", &ce)]),
    ];
    let mut desc = String::new();
    let bad = |w: String, d: &str| (Some((vec!["C20".to_string()], w)), d.to_string());
    let mut skeletons = BTreeMap::<String, &str>::new();
    for (kind, e, data) in all {
        let r = catch_unwind(AssertUnwindSafe(|| vec![format!("{e}"), format!("{e:?}"), format!("{e:#}"), format!("{e:#?}"), e.to_string()]));
        let Ok(mut ts) = r else { return bad(format!("the text of {kind} can't be made: panic or a failure"), &desc) };
        for lim in [0, ts[0].len() / 2, ts[0].len().saturating_sub(1)] {
            if lim >= ts[0].len() { continue }
            let mut w = Limited(lim, String::new());
            if write!(w, "{e}").is_ok() { return bad(format!("the text of {kind} is cut to {lim} bytes without a failure: {:?}", ts[0]), &desc) }
        }
        for lim in [0, ts[1].len() / 2, ts[1].len().saturating_sub(1)] {
            if lim >= ts[1].len() { continue }
            let mut w = Limited(lim, String::new());
            if write!(w, "{e:?}").is_ok() { return bad(format!("the debug text of {kind} is cut to {lim} bytes without a failure: {:?}", ts[1]), &desc) }
        }
        let mut w = Limited(1 << 20, String::new());
        if write!(w, "{e}").is_err() { return bad(format!("the text of {kind} can't be written"), &desc) }
        ts.push(String::from(e));
        desc += &format!("{kind}: {}\n", ts[0]);
        for t in &ts {
            if t.is_empty() { return bad(format!("the text of {kind} is empty"), &desc) }
            let nt = norm(t);
            for (what, ways) in &data {
                if !ways.iter().any(|w| t.contains(w.as_str()) || nt.contains(&norm(w))) { return bad(format!("the text of {kind} doesn't show its {what} ({}): {t:?}", ways[0]), &desc) }
            }
        }
        if kind != "Vm" && kind != "SealsDefinitionMismatch" {
            let mut s = ts[0].clone();
            for (_, ways) in &data { for w in ways { s = s.replace(w.as_str(), "\0") } }
            if let Some(k) = skeletons.insert(s, kind) { return bad(format!("the texts of {k} and {kind} are the same: {:?}", ts[0]), &desc) }
        }
    }
    (None, desc)
}

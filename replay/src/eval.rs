//! Cases for the evaluation, their judgement by the specification, and the comparison with what the real code has done.
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

use amplify::confinement::{Confined, SmallOrdMap, SmallVec};
use amplify::ByteArray;
use rgbcore::{ContractVerify, OperationSeals, RgbSealDef, VerificationError};
use single_use_seals::{SealError, SealWitness};
use ultrasonic::aluvm::alu::{aluasm, CoreConfig, Lib, LibSite};
use ultrasonic::aluvm::FIELD_ORDER_SECP;
use ultrasonic::{fe256, AuthToken, CallError, CellAddr, CellLock, Codex, ContractId, Identity, Input, Operation, Opid, StateCell, StateData, StateValue};

use crate::choices::Choices;
use crate::mock::*;

pub fn lib_ok() -> Lib {
    let code = aluasm! { stop; };
    Lib::assemble(&code).unwrap()
}
pub fn lib_fail() -> Lib {
    let code = aluasm! { fail CK; stop; };
    Lib::assemble(&code).unwrap()
}

fn setup() -> (Lib, Lib, Codex) {
    let (ok, fail) = (lib_ok(), lib_fail());
    let codex = Codex {
        name: tiny_s!("Mock"), developer: Identity::default(), version: default!(), features: default!(), timestamp: 1,
        field_order: FIELD_ORDER_SECP, input_config: CoreConfig::default(), verification_config: CoreConfig::default(),
        verifiers: tiny_bmap! { 0 => LibSite::new(ok.lib_id(), 0), 1 => LibSite::new(fail.lib_id(), 0) },
    };
    (ok, fail, codex)
}

pub struct Case {
    pub ops: Vec<OperationSeals<MSeal>>,
    pub err: Option<u32>,
    pub model: Model,
}

pub fn confined_vec<T>(v: Vec<T>) -> SmallVec<T> { Confined::try_from(v).unwrap_or_else(|_| panic!("size")) }
pub fn confined_map(v: BTreeMap<u16, MDef>) -> SmallOrdMap<u16, MDef> { Confined::try_from(v).unwrap_or_else(|_| panic!("size")) }

pub fn copy_op(o: &Operation) -> Operation {
    Operation {
        version: o.version, contract_id: o.contract_id, call_id: o.call_id, nonce: o.nonce, witness: o.witness,
        destructible_in: o.destructible_in.clone(), immutable_in: o.immutable_in.clone(),
        destructible_out: o.destructible_out.clone(), immutable_out: o.immutable_out.clone(),
    }
}
pub fn copy_block(b: &OperationSeals<MSeal>) -> OperationSeals<MSeal> {
    OperationSeals {
        operation: copy_op(&b.operation),
        defined_seals: confined_map(b.defined_seals.iter().map(|(k, v)| (*k, *v)).collect()),
        witness: b.witness.as_ref().map(|w| SealWitness::new(w.published.clone(), w.client.clone())),
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Bad { Codex, Match(u16), Input(CellAddr), Vm(CallError), NoWitness, Closing }

pub struct Step {
    pub first: bool,
    pub opid: Opid,
    pub raw_opid: Opid,
    pub known: bool,
    pub bad: Vec<Bad>,
    pub verified: Result<String, CallError>,
    pub seals: Vec<Option<MSeal>>,
    pub witness: Option<(MPub, MCli)>,
    pub defs: BTreeMap<u16, MDef>,
    pub tokens: BTreeSet<AuthToken>,
    pub inputs: Vec<CellAddr>,
    pub convolved: Option<Result<Msg, MErr>>,
    pub op: Operation,
}

/// The specification: seals which are open, and the state of the contract after the operations accepted so far
pub struct Sim {
    pub n: usize,
    pub open: BTreeMap<CellAddr, MSeal>,
    pub spent: BTreeSet<CellAddr>,
    pub model: Model,
}
impl Sim {
    pub fn new(m: &Model) -> Self {
        let mut model = m.clone();
        model.record = false;
        model.fragile = false;
        Sim { n: 0, open: default!(), spent: default!(), model }
    }
    pub fn judge(&self, b: &OperationSeals<MSeal>) -> Step {
        let first = self.n == 0;
        let mut bad = vec![];
        let codex_id = self.model.codex.codex_id();
        let mut op = copy_op(&b.operation);
        let raw_opid = op.opid();
        if first {
            if op.contract_id.to_byte_array() != codex_id.to_byte_array() { bad.push(Bad::Codex); }
            op.contract_id = self.model.cid;
        }
        let opid = op.opid();
        let known = self.model.known.contains(&opid);
        for (pos, def) in b.defined_seals.iter() {
            let good = op.destructible_out.as_slice().get(*pos as usize).map(|c| c.auth == def.auth_token()).unwrap_or(false);
            if !good { bad.push(Bad::Match(*pos)); }
        }
        let mut used = BTreeSet::new();
        let mut seals = vec![];
        let mut inputs = vec![];
        for i in op.destructible_in.iter() {
            let s = self.open.get(&i.addr).copied();
            if s.is_none() || !used.insert(i.addr) { bad.push(Bad::Input(i.addr)); }
            seals.push(s);
            inputs.push(i.addr);
        }
        let verified = self.model.codex.verify(self.model.cid, copy_op(&op), &self.model, &self.model).map(|v| format!("{:?}", v.as_operation()));
        if !known { if let Err(e) = &verified { bad.push(Bad::Vm(*e)); } }
        let msg = Msg { a: opid.to_byte_array() };
        let witness = b.witness.as_ref().map(|w| (w.published.clone(), w.client.clone()));
        let mut convolved = None;
        match &b.witness {
            None => if !inputs.is_empty() { bad.push(Bad::NoWitness) },
            Some(w) => {
                use single_use_seals::{ClientSideWitness, PublishedWitness};
                let missing = seals.iter().any(|s| s.map(|s| !included(&s, msg, &w.published, &w.client)).unwrap_or(true));
                let c = w.client.convolve_commit(msg);
                let fails = match &c { Ok(p) => w.published.verify_commitment(*p).is_err(), Err(_) => true };
                convolved = Some(c);
                if missing || fails { bad.push(Bad::Closing) }
            }
        }
        Step {
            first, opid, raw_opid, known, bad, verified, seals, witness, inputs, convolved,
            defs: b.defined_seals.iter().map(|(k, v)| (*k, *v)).collect(),
            tokens: op.destructible_out.iter().map(|c| c.auth).collect(), op,
        }
    }
    pub fn accept(&mut self, s: &Step) {
        for a in &s.inputs { self.open.remove(a); self.spent.insert(*a); }
        for (pos, d) in &s.defs {
            let seal = if d.rel == 0 { Some(MSeal { wid: d.wid, no: d.no, blind: d.blind }) } else { s.witness.as_ref().map(|w| MSeal { wid: w.0.id, no: d.no, blind: d.blind }) };
            if let Some(seal) = seal { self.open.insert(CellAddr::new(s.opid, *pos), seal); }
        }
        if s.witness.is_some() { self.model.witness_applied(s.opid); }
        if !s.first && !s.known { self.model.op_applied(s.opid, &s.op); }
        self.n += 1;
    }
}

fn new_def(c: &mut Choices, uniq: &mut u32) -> MDef {
    *uniq += 1;
    let rel = c.pick(2) as u8;
    let no = if c.chance(15) { c.pick(3) as u32 } else { 10 + *uniq };
    MDef { rel, wid: if rel == 0 || c.chance(20) { 1 + c.pick(4) } else { 0 }, no, blind: if c.chance(10) { c.pick(3) as u16 } else { 0 } }
}

pub fn generate(c: &mut Choices) -> Case {
    static SETUP: std::sync::OnceLock<(Lib, Lib, Codex)> = std::sync::OnceLock::new();
    let (ok, fail, codex) = SETUP.get_or_init(setup).clone();
    let codex_id = codex.codex_id();
    let (ok_id, fail_id) = (codex.verifiers[&0u16].lib_id, codex.verifiers[&1u16].lib_id);
    let mut cb = [7u8; 32];
    if c.chance(5) { cb = codex_id.to_byte_array(); cb[31] ^= 1; }
    let cid = ContractId::from(cb);
    let mut libs = BTreeMap::new();
    libs.insert(fail_id, fail);
    libs.insert(ok_id, ok);
    let mut model = Model { codex, cid, libs, known: default!(), owned: default!(), global: default!(), fragile: c.chance(40), known_by_witness: c.chance(20), forgets: c.chance(15), volatile: c.chance(30), record: true };
    let mut sim = Sim::new(&model);
    let mut n = c.size(5, 600);
    if n > 50 { n += c.pick(8) }
    // an operation with about as many inputs as a constant of the code (or a limit of a machine type)
    let scale = if n < 20 && c.chance(3) { n = n.max(2); Some(if c.chance(50) { 256 } else { c.constant().min(2000) }) } else { None };
    let mut ops: Vec<OperationSeals<MSeal>> = vec![];
    let mut uniq = 0u32;
    let mut last_known = None;
    let mut addrs: Vec<CellAddr> = vec![];
    let mut all_defs: Vec<BTreeMap<u16, MDef>> = vec![];
    let big = n > 20;
    for k in 0..n {
        // a block read before, again
        if k > 0 && c.chance(if model.forgets { 25 } else { 8 }) {
            let j = c.pick(k) as usize;
            let mut b = copy_block(&ops[j]);
            if c.chance(40) { b.witness = None }
            if c.chance(20) { b.defined_seals = default!() }
            if j == 0 && c.chance(70) { b.operation.contract_id = cid }
            // with another witness and other (all or some) definitions
            if b.operation.destructible_in.is_empty() && c.chance(40) {
                let m = Msg { a: b.operation.opid().to_byte_array() };
                b.witness = Some(SealWitness::new(MPub { id: 40 + k, closes: default!(), commits: confined_vec(vec![m]) }, MCli { seals: default!(), msgs: confined_vec(vec![m]), tweak: 0 }));
                if c.chance(50) { b.defined_seals = confined_map(all_defs[j].iter().filter(|_| !c.chance(20)).map(|(p, d)| (*p, *d)).collect()) }
            }
            let s = sim.judge(&b);
            let valid = s.bad.is_empty();
            ops.push(b);
            all_defs.push(all_defs[j].clone());
            if valid { sim.accept(&s); continue }
            if c.chance(80) { break } else { sim.accept(&s); continue }
        }
        // ---------------------------------------------------------------- outputs
        let nout = if let (0, Some(x)) = (k, scale) { x + 2 } else if big { 1 + c.pick(2) } else { c.size(4, 65535) };
        let mut outs = vec![];
        let mut defs = BTreeMap::new();
        let mut cells = vec![];
        let hide = if k == 0 && scale.is_some() { 0 } else { c.pick(4) };
        for q in 0..nout {
            let d = if q > 0 && c.chance(6) { outs[c.pick(q) as usize] } else if nout > 50 { uniq += 1; MDef { rel: (scale.is_none() && q % 3 == 1) as u8, wid: 5, no: uniq, blind: 1 } } else { new_def(c, &mut uniq) };
            outs.push(d);
            let lock = if nout < 50 && c.chance(4) { Some(CellLock { aux: StateValue::None, script: Some(LibSite::new(fail_id, 0)) }) } else { None };
            cells.push(StateCell { data: StateValue::new(1u64, q), auth: d.auth_token(), lock });
            if hide == 0 || !c.chance(20 * hide) { defs.insert(q as u16, d); }
        }
        all_defs.push(outs.iter().take(600).enumerate().map(|(q, d)| (q as u16, *d)).collect());
        // ---------------------------------------------------------------- inputs
        let mut ins = vec![];
        if k > 0 {
            let open: Vec<CellAddr> = sim.open.keys().copied().collect();
            let m = if let (1, Some(x)) = (k, scale) { x + c.pick(3) - 1 } else if big { c.pick(3) } else { c.size(4, 3000) };
            let mut left = open.clone();
            for _ in 0..m {
                if left.is_empty() { break }
                let x = c.pick(left.len() as u64) as usize;
                ins.push(Input { addr: left.swap_remove(x), witness: StateValue::None });
            }
            if c.chance(4) && !sim.spent.is_empty() {
                let sp: Vec<CellAddr> = sim.spent.iter().copied().collect();
                ins.insert(c.pick(ins.len() as u64 + 1) as usize, Input { addr: sp[c.pick(sp.len() as u64) as usize], witness: StateValue::None });
            }
            if c.chance(4) && !ins.is_empty() {
                let x = ins[c.pick(ins.len() as u64) as usize];
                ins.insert(c.pick(ins.len() as u64 + 1) as usize, x);
            }
            if c.chance(4) && !addrs.is_empty() {
                ins.insert(c.pick(ins.len() as u64 + 1) as usize, Input { addr: addrs[c.pick(addrs.len() as u64) as usize], witness: StateValue::None });
            }
            if c.chance(2) && !ins.is_empty() {
                let x = c.pick(ins.len() as u64) as usize;
                ins[x].addr.pos ^= [1, 2, 256][c.pick(3) as usize];
            }
        } else if c.chance(1) && c.chance(8) {
            // very many inputs, which nothing is known about
            let m = [16384, 32768, 65535][c.pick(3) as usize] - c.pick(2);
            for q in 0..m { ins.push(Input { addr: CellAddr::new(Opid::from([4u8; 32]), q as u16), witness: StateValue::None }) }
        } else if c.chance(3) { ins.push(Input { addr: CellAddr::new(Opid::from([3u8; 32]), 0), witness: StateValue::None }) }
        // ---------------------------------------------------------------- reported seals
        if c.chance(10) {
            match c.pick(6) {
                0 => { if let Some(p) = defs.keys().copied().nth(c.pick(defs.len() as u64) as usize) { let d = defs.get_mut(&p).unwrap(); d.blind ^= 1 } }
                1 => { let d = new_def(c, &mut uniq); defs.insert((nout + c.pick(3)).min(65535) as u16, d); }
                2 => if outs.len() > 1 {
                    let (a, b) = (c.pick(nout) as usize, c.pick(nout) as usize);
                    defs.insert(a as u16, outs[b]);
                    if c.chance(50) { defs.insert(b as u16, outs[a]); }
                },
                3 => if !outs.is_empty() {
                    // right definition at a position which does not exist
                    let a = c.pick(nout) as usize;
                    defs.insert(((nout + c.pick(300)).min(65535)) as u16, outs[a]);
                    if c.chance(50) { defs.remove(&(a as u16)); }
                },
                4 => if let Some(b) = ops.last() {
                    if let Some((p, d)) = b.defined_seals.iter().next() { defs.insert(*p, *d); }
                },
                _ => if !outs.is_empty() {
                    let a = c.pick(nout) as usize;
                    defs.insert((a as u16).wrapping_add([256, 32768, 255][c.pick(3) as usize]), outs[a]);
                },
            }
        }
        // ---------------------------------------------------------------- operation
        let glob: Vec<CellAddr> = sim.model.global.keys().copied().collect();
        let mut iin = vec![];
        if !glob.is_empty() { for _ in 0..c.pick(2) { iin.push(glob[c.pick(glob.len() as u64) as usize]) } }
        if c.chance(2) { iin.push(CellAddr::new(Opid::from([9u8; 32]), c.pick(2) as u16)) }
        let mut icid = cid;
        if k == 0 { icid = ContractId::from(codex_id.to_byte_array()) }
        if c.chance(5) {
            icid = match c.pick(4) {
                0 => ContractId::from(codex_id.to_byte_array()),
                1 => cid,
                2 => ContractId::from([1u8; 32]),
                _ => { let mut x = icid.to_byte_array(); x[c.pick(32) as usize] ^= 1 << c.pick(8); ContractId::from(x) }
            }
        }
        let mut iout = vec![];
        for q in 0..c.pick(3) { iout.push(StateData { value: StateValue::new(2u64, q), raw: None }) }
        let op = Operation {
            version: default!(), contract_id: icid, call_id: if c.chance(5) { 1 + c.pick(2) as u16 } else { 0 }, nonce: fe256::from(k as u8 as u64 + 1000 * c.pick(2)),
            witness: StateValue::None, destructible_in: confined_vec(ins), immutable_in: confined_vec(iin),
            destructible_out: confined_vec(cells), immutable_out: confined_vec(iout),
        };
        // ---------------------------------------------------------------- contract
        let mut eff = copy_op(&op);
        if k == 0 { eff.contract_id = cid }
        let opid = eff.opid();
        let known = if k == 0 { !c.chance(6) } else if k == 1 && last_known == Some(false) { false } else { c.chance(if last_known == Some(true) { 35 } else { 5 }) };
        let seen = ops.iter().any(|b| b.operation.opid() == opid);
        if !seen {
            let alt = op.opid();
            if known || c.chance(2) {
                let id = if c.chance(3) { alt } else { opid };
                model.known.insert(id);
                sim.model.known.insert(id);
            }
            if known || k == 0 {
                for (no, cell) in eff.destructible_out.iter().enumerate() {
                    if c.chance(3) { continue }
                    model.owned.insert(CellAddr::new(opid, no as u16), *cell);
                    sim.model.owned.insert(CellAddr::new(opid, no as u16), *cell);
                }
                for (no, d) in eff.immutable_out.iter().enumerate() {
                    model.global.insert(CellAddr::new(opid, no as u16), d.value);
                    sim.model.global.insert(CellAddr::new(opid, no as u16), d.value);
                }
            }
            last_known = Some(known);
        }
        for no in 0..eff.destructible_out.len().min(6) { addrs.push(CellAddr::new(opid, no as u16)) }
        // ---------------------------------------------------------------- witness
        let with = if op.destructible_in.is_empty() { c.chance(45) } else { !c.chance(if scale.is_some() { 30 } else { 3 }) };
        let witness = if with {
            let msg = Msg { a: opid.to_byte_array() };
            let mut seals: Vec<MSeal> = op.destructible_in.iter().filter_map(|i| sim.open.get(&i.addr).copied()).collect();
            let wid = 1 + if c.chance(70) { 10 + k } else { c.pick(4) };
            let tweak = c.pick(3) as u8;
            let mut m2 = msg;
            m2.a[31] ^= tweak;
            let mut msgs = vec![msg];
            let mut commits = vec![m2];
            let mut cseals = seals.clone();
            let mut cm = msg;
            let large = scale.is_some() && k == 1;
            if c.chance(if large { 40 } else { 10 }) {
                match if large && c.chance(70) { 6 } else { c.pick(10) } {
                    0 => if !seals.is_empty() { seals.swap_remove(c.pick(seals.len() as u64) as usize); },
                    1 => if !seals.is_empty() { cseals.swap_remove(c.pick(cseals.len() as u64) as usize); },
                    2 => commits.clear(),
                    3 => msgs.clear(),
                    4 => { commits.clear(); commits.push(Msg { a: op.opid().to_byte_array() }); cm = commits[0] }
                    5 => if !seals.is_empty() { let x = c.pick(seals.len() as u64) as usize; seals[x].wid = wid; cseals[x].wid = wid },
                    6 => if !seals.is_empty() { seals.pop(); cseals.pop(); },
                    7 | 8 => {
                        // a witness for something else than this operation
                        cm.a = match c.pick(6) {
                            0 => [0; 32],
                            1 => [0xFF; 32],
                            2 => cid.to_byte_array(),
                            3 => codex_id.to_byte_array(),
                            4 => op.opid().to_byte_array(),
                            _ => addrs.first().map(|a| a.opid.to_byte_array()).unwrap_or([0; 32]),
                        };
                        let mut t = cm;
                        t.a[31] ^= tweak;
                        msgs = vec![cm];
                        commits = vec![t];
                    }
                    _ => { cm.a[0] ^= 1; if c.chance(50) { msgs = vec![cm]; commits = vec![cm] } }
                }
            }
            Some(SealWitness::new(
                MPub { id: wid, closes: confined_vec(seals.into_iter().map(|seal| MClose { seal, msg: cm }).collect()), commits: confined_vec(commits) },
                MCli { seals: confined_vec(cseals), msgs: confined_vec(msgs), tweak },
            ))
        } else { None };
        let b = OperationSeals { operation: op, defined_seals: confined_map(defs), witness };
        let s = sim.judge(&b);
        let valid = s.bad.is_empty();
        ops.push(b);
        if valid { sim.accept(&s) } else if c.chance(75) { break } else { sim.accept(&s) }
    }
    let err = if c.chance(10) { Some(c.pick(3) as u32) } else { None };
    Case { ops, err, model }
}

pub struct Found {
    pub props: BTreeSet<&'static str>,
    pub what: String,
}

fn known_extra(p: &mut BTreeSet<&'static str>, s: &Step) { if s.known { p.insert("C17"); } }

pub fn err_text(e: &VerificationError<MSeal>) -> String {
    match e {
        VerificationError::Stream(_) => "Stream".into(), VerificationError::NoCodexCommitment => "NoCodexCommitment".into(),
        VerificationError::NoWitness(_) => "NoWitness".into(), VerificationError::SealsNotClosed(..) => "SealsNotClosed".into(),
        VerificationError::SealUnknown(a) => format!("SealUnknown({a})"), VerificationError::SealsDefinitionMismatch { .. } => "SealsDefinitionMismatch".into(),
        VerificationError::Vm(e) => format!("Vm({e:?})"),
    }
}

/// is the error true about the operation, with all its data?
fn accurate(e: &VerificationError<MSeal>, s: &Step) -> bool {
    let msg = Msg { a: s.opid.to_byte_array() };
    match e {
        VerificationError::Stream(_) => false,
        VerificationError::NoCodexCommitment => s.bad.contains(&Bad::Codex),
        VerificationError::NoWitness(o) => *o == s.opid && s.bad.contains(&Bad::NoWitness),
        VerificationError::SealUnknown(a) => s.bad.contains(&Bad::Input(*a)),
        VerificationError::Vm(x) => !s.known && s.verified.as_ref().err() == Some(x),
        VerificationError::SealsDefinitionMismatch { opid, reported, defined, sources } => {
            *opid == s.opid && s.bad.iter().any(|b| matches!(b, Bad::Match(_)))
                && *reported == s.defs.values().map(|d| d.auth_token()).collect::<BTreeSet<_>>()
                && *defined == s.tokens
                && *sources == s.defs.iter().map(|(k, v)| (*k, v.to_string())).collect::<BTreeMap<_, _>>()
        }
        VerificationError::SealsNotClosed(pid, o, se) => {
            let Some((p, c)) = &s.witness else { return false };
            use single_use_seals::PublishedWitness;
            *pid == p.id && *o == s.opid && match se {
                SealError::NotIncluded(seal, id) => *id == p.id && s.seals.contains(&Some(*seal)) && !included(seal, msg, p, c),
                SealError::Client(x) => matches!(&s.convolved, Some(Err(y)) if x == y),
                SealError::Published(x) => matches!(&s.convolved, Some(Ok(m)) if p.verify_commitment(*m).as_ref() == Err(x)),
            }
        }
    }
}

pub fn run(case: &Case) -> Option<Found> {
    let mut model = case.model.clone();
    LOG.with(|l| l.borrow_mut().clear());
    DIRTY.with(|d| *d.borrow_mut() = false);
    let reader = Reader { ops: case.ops.iter().map(copy_block).collect::<Vec<_>>().into_iter(), err: case.err };
    let res = catch_unwind(AssertUnwindSafe(|| model.evaluate(reader)));
    let log: Vec<Ev> = LOG.with(|l| std::mem::take(&mut *l.borrow_mut()));
    let found = |props: &[&'static str], what: String| Some(Found { props: props.iter().copied().collect(), what });
    let res = match res {
        Ok(r) => r,
        Err(p) => {
            let t = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            return found(&["C16", "C09"], format!("evaluation panics: {t}"));
        }
    };
    // split by the reads
    let mut segs: Vec<(char, Vec<Ev>)> = vec![];
    for e in log {
        match e {
            Ev::Read(k) => segs.push((k, vec![])),
            e => {
                if let Some(s) = segs.last_mut() { s.1.push(e) }
                else if !matches!(e, Ev::Known(_) | Ev::Mem(_)) { return found(&["C07"], "an effect before anything is read".into()) }
            }
        }
    }
    let nops = segs.iter().filter(|s| s.0 == 'o').count();
    let mut sim = Sim::new(&case.model);
    for k in 0..nops {
        if segs[k].0 != 'o' { return found(&["C11"], "the stream is read after its end".into()) }
        let last = k + 1 == segs.len();
        let s = sim.judge(&case.ops[k]);
        let effects: Vec<&Ev> = segs[k].1.iter().filter(|e| matches!(e, Ev::Witness(..) | Ev::Op(..) | Ev::Seals(..))).collect();
        let queried = segs[k].1.iter().any(|e| matches!(e, Ev::Mem(_)));
        if last && res.is_err() {
            let e = res.as_ref().unwrap_err();
            let et = err_text(e);
            let mut p = BTreeSet::new();
            if s.bad.is_empty() {
                p.extend(["C09", "C10"]);
                match e {
                    VerificationError::SealUnknown(_) => { p.extend(["C02", "C08"]); known_extra(&mut p, &s) }
                    VerificationError::Vm(_) => { p.insert("C03"); known_extra(&mut p, &s); if s.first { p.insert("C05"); } }
                    VerificationError::NoCodexCommitment => { p.insert("C05"); known_extra(&mut p, &s) }
                    VerificationError::SealsNotClosed(_, o, se) => {
                        known_extra(&mut p, &s);
                        if let SealError::NotIncluded(x, _) = se { if !s.seals.contains(&Some(*x)) { p.insert("C08"); } }
                        if s.first && *o != s.opid { p.insert("C05"); }
                    }
                    VerificationError::Stream(_) => { p.insert("C11"); }
                    _ => known_extra(&mut p, &s),
                }
                if !effects.is_empty() { p.insert("C06"); }
                return Some(Found { props: p, what: format!("operation {k} is valid, but is rejected: {et}") });
            }
            if !accurate(e, &s) {
                p.insert("C10");
                if s.first && matches!(e, VerificationError::NoWitness(o) if *o != s.opid) { p.insert("C05"); }
                if let VerificationError::SealsNotClosed(_, _, SealError::NotIncluded(x, _)) = e { if !s.seals.contains(&Some(*x)) { p.insert("C08"); } }
                if matches!(e, VerificationError::Stream(_)) { p.insert("C11"); }
                if matches!(e, VerificationError::Vm(_)) && s.known { p.insert("C17"); }
                if matches!(e, VerificationError::NoCodexCommitment) && !s.first { p.insert("C05"); }
                if !s.first && s.op.contract_id != case.model.cid && matches!(e, VerificationError::NoWitness(_) | VerificationError::SealsNotClosed(..) | VerificationError::Vm(_)) { p.insert("C05"); }
            }
            if !effects.is_empty() { p.insert("C06"); }
            if s.known && queried { p.insert("C17"); }
            if !p.is_empty() { return Some(Found { props: p, what: format!("operation {k} is invalid ({:?}), the error is {et}, {} effects delivered", s.bad, effects.len()) }) }
            return None;
        }
        // accepted
        if !s.bad.is_empty() {
            let mut p = BTreeSet::new();
            for b in &s.bad {
                match b {
                    Bad::Codex => { p.insert("C05"); }
                    Bad::Match(_) => { p.insert("C04"); known_extra(&mut p, &s) }
                    Bad::Input(_) => { p.insert("C02"); known_extra(&mut p, &s) }
                    Bad::Vm(_) => { p.insert("C03"); }
                    Bad::NoWitness | Bad::Closing => { p.insert("C01"); known_extra(&mut p, &s) }
                }
            }
            // an operation of another contract is taken with an id which it doesn't carry
            if !s.first && s.op.contract_id != case.model.cid { p.insert("C05"); }
            // the condition is violated because of a seal which is not the right one
            if s.bad.iter().all(|b| matches!(b, Bad::Closing)) && s.convolved.as_ref().map(|c| c.is_ok()).unwrap_or(false) { p.insert("C08"); }
            if s.bad.iter().any(|b| matches!(b, Bad::Input(a) if case.ops[..k].iter().any(|o| { let mut x = copy_op(&o.operation); let r = x.opid(); x.contract_id = case.model.cid; (r == a.opid || x.opid() == a.opid) && !sim.spent.contains(a) }))) { p.insert("C08"); }
            return Some(Found { props: p, what: format!("operation {k} is accepted, but is invalid: {:?}", s.bad) });
        }
        let mut want: Vec<(char, String)> = vec![];
        if let Some((p, c)) = &s.witness { want.push(('w', format!("{:?} {:?} {:?}", s.opid, p, c))) }
        if !s.first && !s.known { want.push(('o', format!("{:?} {}", s.opid, s.verified.as_ref().unwrap()))) }
        if !s.defs.is_empty() { want.push(('s', format!("{:?} {:?}", s.opid, s.defs))) }
        let got: Vec<(char, String)> = effects.iter().map(|e| match e {
            Ev::Witness(o, p, c) => ('w', format!("{:?} {:?} {:?}", o, p, c)),
            Ev::Op(o, t) => ('o', format!("{:?} {}", o, t)),
            Ev::Seals(o, m) => ('s', format!("{:?} {:?}", o, m)),
            _ => unreachable!(),
        }).collect();
        let mut p = BTreeSet::new();
        if got != want {
            p.insert("C07");
            let kinds = |v: &[(char, String)]| { let mut k: Vec<char> = v.iter().map(|x| x.0).collect(); k.sort(); k };
            if kinds(&got) != kinds(&want) && !last { p.extend(["C06", "C11"]); }
            let has = |v: &[(char, String)], c: char| v.iter().any(|x| x.0 == c);
            if s.known && (has(&got, 'o') || has(&got, 'w') != has(&want, 'w') || has(&got, 's') != has(&want, 's')) { p.insert("C17"); }
            if s.first && (has(&got, 'o') || effects.iter().any(|e| matches!(e, Ev::Witness(o, ..) | Ev::Seals(o, _) if *o != s.opid))) { p.insert("C05"); }
            if has(&got, 'o') && has(&want, 'o') && got.iter().find(|x| x.0 == 'o') != want.iter().find(|x| x.0 == 'o') { p.insert("C03"); }
        }
        if s.known && queried { p.insert("C17"); }
        if !p.is_empty() { return Some(Found { props: p, what: format!("operation {k} (first: {}, known: {}): delivered {:?}, expected {:?}, memory queried: {queried}", s.first, s.known, got, want) }) }
        sim.accept(&s);
    }
    // the end of the stream
    let tail: String = segs[nops..].iter().map(|s| s.0).collect();
    if segs[nops..].iter().any(|s| s.1.iter().any(|e| matches!(e, Ev::Witness(..) | Ev::Op(..) | Ev::Seals(..)))) { return found(&["C07", "C06"], "effects after the end of the stream".into()) }
    match (&res, tail.as_str(), case.err) {
        (Ok(()), "e", None) if nops == case.ops.len() => None,
        (Err(VerificationError::Stream(e)), "x", Some(n)) => match e.downcast_ref::<StreamErr>() {
            Some(StreamErr(m)) if *m == n => None,
            _ => found(&["C10", "C11"], "another error of the stream is returned".into()),
        },
        (Ok(()), "", _) => found(&["C11"], format!("success after {nops} of {} operations, before the end of the stream", case.ops.len())),
        (Ok(()), _, Some(_)) => found(&["C11"], format!("success, though the reader has failed (reads: {tail})")),
        (Ok(()), t, None) => found(&["C11"], format!("the stream is read after its end ({t})")),
        (Err(e), "e", None) => found(&["C09", "C10", "C11"], format!("all operations are accepted, but the error is {}", err_text(e))),
        (Err(e), t, _) => found(&["C10", "C11"], format!("reads at the end: {t}, the error is {}", err_text(e))),
    }
}

pub fn describe(case: &Case) -> String {
    let mut o = String::new();
    let mut sim = Sim::new(&case.model);
    o.push_str(&format!("contract id {:?}, codex id {:?}, fragile {}, known by witness {}, forgets {}, volatile {}\n", case.model.cid, case.model.codex.codex_id(), case.model.fragile, case.model.known_by_witness, case.model.forgets, case.model.volatile));
    for (k, b) in case.ops.iter().enumerate() {
        let s = sim.judge(b);
        o.push_str(&format!("operation {k}: opid {}, known {}, contract id {:?}, call {}, violated conditions {:?}\n", s.opid, s.known, b.operation.contract_id, b.operation.call_id, s.bad));
        for (i, x) in s.inputs.iter().zip(&s.seals).take(8) { o.push_str(&format!("  input {i} under the open seal {x:?}\n")) }
        for (i, x) in b.operation.destructible_out.iter().enumerate().take(8) { o.push_str(&format!("  output {i} token {}\n", x.auth)) }
        o.push_str(&format!("  ({} inputs, {} outputs)\n", s.inputs.len(), b.operation.destructible_out.len()));
        for (p, d) in s.defs.iter().take(8) { o.push_str(&format!("  reported seal {p}: {d:?} token {}\n", d.auth_token())) }
        match &s.witness {
            Some((p, c)) => o.push_str(&format!("  witness {}: {} closings {:?}, commits {:?}, client {:?}\n", p.id, p.closes.len(), p.closes.iter().take(4).collect::<Vec<_>>(), p.commits, c.seals.iter().take(4).collect::<Vec<_>>())),
            None => o.push_str("  no witness\n"),
        }
        sim.accept(&s);
    }
    o.push_str(&format!("end of the stream: {:?}\n", case.err));
    o
}

/// the known finding: a first operation which is not the genesis of the contract
pub fn unknown_genesis_accepted() -> bool {
    let mut c = Choices::replay(vec![], &[]);
    let mut case = generate(&mut c);
    let codex_id = case.model.codex.codex_id();
    let d = MDef { rel: 0, wid: 1, no: 1, blind: 0 };
    let op = Operation {
        version: default!(), contract_id: ContractId::from(codex_id.to_byte_array()), call_id: 0, nonce: fe256::from(77u64), witness: StateValue::None,
        destructible_in: default!(), immutable_in: default!(),
        destructible_out: confined_vec(vec![StateCell { data: StateValue::None, auth: d.auth_token(), lock: None }]), immutable_out: default!(),
    };
    case.ops = vec![OperationSeals { operation: op, defined_seals: confined_map([(0, d)].into_iter().collect()), witness: None }];
    case.err = None;
    let mut model = case.model.clone();
    catch_unwind(AssertUnwindSafe(|| model.evaluate(Reader { ops: case.ops.into_iter(), err: None }).is_ok())).unwrap_or(false)
}

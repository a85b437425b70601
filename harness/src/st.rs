//! C22: the conformance tools (state-test runner, interpreter/JIT differ) give true verdicts.
//!
//! Generated state tests carry expectations computed here: a plain revm run over a database of our
//! own, and state and log roots from an independent trie and RLP encoder. Some expectations are then
//! falsified. The tools have to accept exactly the files that are right. To know that the compiled
//! side is really looked at, the compiler is made to miscompile (an interposed LLVM function turns
//! 256-bit XOR into OR): what it would then compute is known too, and both tools have to report
//! exactly the tests in which it shows.

use crate::{
    env::addr_pool,
    fw::{Check, Stats, Violation},
    gen_::{self, Asm},
    rng::Rng,
    rt::v,
    txs,
};
use revm_bytecode::opcode as op;
use revm_context::{BlockEnv, CfgEnv, Context, Journal, TxEnv, result::ExecutionResult};
use revm_context_interface::transaction::{AccessList, AccessListItem};
use revm_database_interface::Database;
use revm_handler::{ExecuteEvm, MainBuilder};
use revm_primitives::{Address, B256, Bytes, Log, TxKind, U256, hardfork::SpecId, hex, keccak256};
use revm_state::{AccountInfo, Bytecode, EvmState};
use revmc_statetest::{compiled, diagnostic, runner::TestErrorKind};
use serde_json::{Value, json};
use std::{
    collections::{BTreeMap, BTreeSet, HashMap},
    path::{Path, PathBuf},
    process::{Command, Stdio},
    time::{Duration, Instant},
};

// ———————————————————————————————— tries ————————————————————————————————

fn rlp_str(b: &[u8], out: &mut Vec<u8>) {
    if b.len() == 1 && b[0] < 0x80 {
        out.push(b[0]);
    } else {
        rlp_head(0x80, b.len(), out);
        out.extend(b);
    }
}
fn rlp_head(base: u8, n: usize, out: &mut Vec<u8>) {
    if n < 56 {
        out.push(base + n as u8);
    } else {
        let be = n.to_be_bytes();
        let be = &be[be.iter().position(|b| *b != 0).unwrap()..];
        out.push(base + 55 + be.len() as u8);
        out.extend(be);
    }
}
fn rlp_list(items: &[Vec<u8>]) -> Vec<u8> {
    let body = items.concat();
    let mut out = vec![];
    rlp_head(0xc0, body.len(), &mut out);
    out.extend(body);
    out
}
fn s(b: &[u8]) -> Vec<u8> {
    let mut out = vec![];
    rlp_str(b, &mut out);
    out
}
fn n(x: U256) -> Vec<u8> {
    s(&x.to_be_bytes_trimmed_vec())
}

fn compact(path: &[u8], leaf: bool) -> Vec<u8> {
    let flag = 2 * leaf as u8 + (path.len() % 2) as u8;
    let mut nib = vec![flag];
    if path.len() % 2 == 0 {
        nib.push(0);
    }
    nib.extend(path);
    nib.chunks(2).map(|c| c[0] << 4 | c[1]).collect()
}

/// The node over `items` (paths with a common prefix of length `at`), encoded.
fn node(items: &[(Vec<u8>, Vec<u8>)], at: usize) -> Vec<u8> {
    match items {
        [] => vec![0x80],
        [(p, val)] => rlp_list(&[s(&compact(&p[at..], true)), s(val)]),
        _ => {
            let (a, b) = (&items[0].0, &items[items.len() - 1].0);
            let common = (at..a.len()).take_while(|i| a[*i] == b[*i]).count();
            if common > 0 {
                return rlp_list(&[s(&compact(&a[at..at + common], false)), child(items, at + common)]);
            }
            let mut kids = vec![];
            for k in 0..16u8 {
                let lo = items.partition_point(|(p, _)| p[at] < k);
                let hi = items.partition_point(|(p, _)| p[at] <= k);
                kids.push(if lo == hi { vec![0x80] } else { child(&items[lo..hi], at + 1) });
            }
            kids.push(vec![0x80]);
            rlp_list(&kids)
        }
    }
}
fn child(items: &[(Vec<u8>, Vec<u8>)], at: usize) -> Vec<u8> {
    let e = node(items, at);
    if e.len() < 32 { e } else { s(keccak256(&e).as_slice()) }
}
fn root(kv: impl Iterator<Item = (B256, Vec<u8>)>) -> B256 {
    let mut items: Vec<_> = kv.map(|(k, val)| (k.iter().flat_map(|b| [b >> 4, b & 15]).collect::<Vec<u8>>(), val)).collect();
    items.sort();
    keccak256(node(&items, 0))
}
fn logs_root(logs: &[Log]) -> B256 {
    let all: Vec<_> = logs
        .iter()
        .map(|l| {
            let topics: Vec<_> = l.data.topics().iter().map(|t| s(t.as_slice())).collect();
            rlp_list(&[s(l.address.as_slice()), rlp_list(&topics), s(&l.data.data)])
        })
        .collect();
    keccak256(rlp_list(&all))
}

// ———————————————————————————————— reference ————————————————————————————————

#[derive(Clone, Debug, Default, PartialEq)]
pub(crate) struct Acct {
    pub balance: U256,
    pub nonce: u64,
    pub code: Vec<u8>,
    pub storage: BTreeMap<U256, U256>,
}
pub(crate) type World = BTreeMap<Address, Acct>;

fn world_root(w: &World) -> B256 {
    root(w.iter().map(|(a, x)| {
        let st = root(
            x.storage.iter().filter(|(_, val)| !val.is_zero()).map(|(k, val)| (keccak256(k.to_be_bytes::<32>()), n(*val))),
        );
        let e = rlp_list(&[n(U256::from(x.nonce)), n(x.balance), s(st.as_slice()), s(keccak256(&x.code).as_slice())]);
        (keccak256(a), e)
    }))
}

#[derive(Debug)]
struct MapDb<'a> {
    w: &'a World,
    /// What code does when the compiler miscompiles it.
    bent: bool,
    codes: HashMap<B256, Bytecode>,
}
impl<'a> MapDb<'a> {
    fn new(w: &'a World, bent: bool) -> Self {
        let mut codes = HashMap::new();
        for x in w.values() {
            let mut code = x.code.clone();
            if bent {
                bend(&mut code);
            }
            let bc = Bytecode::new_raw_checked(code.clone().into()).unwrap_or(Bytecode::new_legacy(code.into()));
            codes.insert(keccak256(&x.code), bc);
        }
        Self { w, bent, codes }
    }
}
impl Database for MapDb<'_> {
    type Error = std::convert::Infallible;
    fn basic(&mut self, a: Address) -> Result<Option<AccountInfo>, Self::Error> {
        Ok(self.w.get(&a).map(|x| AccountInfo {
            balance: x.balance,
            nonce: x.nonce,
            code_hash: keccak256(&x.code),
            code: None,
            ..Default::default()
        }))
    }
    fn code_by_hash(&mut self, h: B256) -> Result<Bytecode, Self::Error> {
        Ok(self.codes.get(&h).cloned().unwrap_or_default())
    }
    fn storage(&mut self, a: Address, k: U256) -> Result<U256, Self::Error> {
        Ok(self.w.get(&a).and_then(|x| x.storage.get(&k).copied()).unwrap_or_default())
    }
    fn block_hash(&mut self, n: u64) -> Result<B256, Self::Error> {
        Ok(keccak256(n.to_string()))
    }
}

/// XOR becomes OR.
fn bend(code: &mut [u8]) {
    let mut i = 0;
    while i < code.len() {
        let o = code[i];
        if o == op::XOR {
            code[i] = op::OR;
        }
        i += 1 + if (op::PUSH1..=op::PUSH32).contains(&o) { (o - op::PUSH1) as usize + 1 } else { 0 };
    }
}

fn commit(mut w: World, s: &EvmState, spec: SpecId) -> World {
    for (a, x) in s {
        if !x.is_touched() {
            continue;
        }
        if x.is_selfdestructed() || (x.is_empty() && spec >= SpecId::SPURIOUS_DRAGON) {
            w.remove(a);
            continue;
        }
        let e = w.entry(*a).or_default();
        if x.is_created() {
            e.storage.clear();
        }
        e.balance = x.info.balance;
        e.nonce = x.info.nonce;
        if keccak256(&e.code) != x.info.code_hash {
            e.code = x.info.code.as_ref().map(|c| c.original_bytes().to_vec()).unwrap_or_default();
        }
        for (k, val) in &x.storage {
            e.storage.insert(*k, val.present_value);
        }
    }
    w
}

#[derive(Clone, Debug, PartialEq)]
pub(crate) struct Outcome {
    pub err: bool,
    pub status: String,
    pub output: Option<Bytes>,
    pub gas: u64,
    pub state: B256,
    pub logs: B256,
}

fn execute(w: &World, spec: SpecId, chain: u64, block: &BlockEnv, tx: &TxEnv, bent: bool) -> Outcome {
    let mut cfg = CfgEnv::default();
    cfg.chain_id = chain;
    cfg.set_spec_and_mainnet_gas_params(spec);
    cfg.set_max_blobs_per_tx(if (SpecId::PRAGUE..SpecId::OSAKA).contains(&spec) { 9 } else { 6 });
    execute_cfg(w, cfg, block, tx, bent)
}

/// What a result means, over the world it started from.
pub(crate) fn outcome(w: &World, spec: SpecId, r: &ExecutionResult, state: &EvmState, bent: bool) -> Outcome {
    let status = match r {
        ExecutionResult::Success { reason, .. } => format!("Success({reason:?})"),
        ExecutionResult::Revert { .. } => "Revert".into(),
        ExecutionResult::Halt { reason, .. } => format!("Halt({reason:?})"),
    };
    let mut after = commit(w.clone(), state, spec);
    if bent {
        // Bent code never changes the code of accounts that were there.
        for (a, x) in w {
            if let Some(y) = after.get_mut(a) {
                y.code = x.code.clone();
            }
        }
    }
    Outcome {
        err: false,
        status,
        output: r.output().cloned(),
        gas: r.tx_gas_used(),
        state: world_root(&after),
        logs: logs_root(r.logs()),
    }
}

pub(crate) fn execute_cfg(w: &World, cfg: CfgEnv, block: &BlockEnv, tx: &TxEnv, bent: bool) -> Outcome {
    let spec = cfg.spec;
    let mut ctx: Context<BlockEnv, TxEnv, CfgEnv, MapDb<'_>, Journal<MapDb<'_>>, ()> = Context::new(MapDb::new(w, bent), spec);
    ctx.cfg = cfg;
    ctx.block = block.clone();
    let mut evm = ctx.build_mainnet();
    match evm.transact(tx.clone()) {
        Ok(r) => outcome(w, spec, &r.result, &r.state, bent),
        Err(e) => Outcome { err: true, status: format!("Error({e})"), output: None, gas: 0, state: world_root(w), logs: logs_root(&[]) },
    }
}

// ———————————————————————————————— tests ————————————————————————————————

const SPECS: &[(&str, SpecId)] = &[
    ("Frontier", SpecId::FRONTIER),
    ("Homestead", SpecId::HOMESTEAD),
    ("EIP150", SpecId::TANGERINE),
    ("EIP158", SpecId::SPURIOUS_DRAGON),
    ("Byzantium", SpecId::BYZANTIUM),
    ("ConstantinopleFix", SpecId::PETERSBURG),
    ("Istanbul", SpecId::ISTANBUL),
    ("Berlin", SpecId::BERLIN),
    ("London", SpecId::LONDON),
    ("Merge", SpecId::MERGE),
    ("Shanghai", SpecId::SHANGHAI),
    ("Cancun", SpecId::CANCUN),
    ("Prague", SpecId::PRAGUE),
    ("Osaka", SpecId::OSAKA),
];

#[derive(Clone, Debug)]
struct T {
    spec: &'static str,
    /// Position within its fork's list.
    idx: usize,
    d: usize,
    g: usize,
    val: usize,
    exp_exc: Option<String>,
    hash: B256,
    logs: B256,
    /// None: the tools do not run it (no transaction can be made and that is expected).
    plain: Option<Outcome>,
    bent: Option<Outcome>,
    unknown_key: bool,
    skipped: bool,
}

struct Unit {
    name: String,
    json: Value,
    out: Option<Bytes>,
    tests: Vec<T>,
}

struct File {
    path: PathBuf,
    /// Not JSON at all, or not a suite.
    broken: bool,
    units: Vec<Unit>,
}

/// Why the test fails, if it does, when its execution ends as `o`.
fn verdict(t: &T, out: &Option<Bytes>, o: Option<&Outcome>) -> Option<&'static str> {
    if t.skipped {
        return None;
    }
    if t.unknown_key {
        return t.exp_exc.is_none().then_some("key");
    }
    let o = o?;
    match (&t.exp_exc, o.err) {
        (Some(_), true) => return None,
        (None, false) => {}
        _ => return Some("exception"),
    }
    if let (Some(a), Some(b)) = (out, &o.output)
        && a != b
    {
        return Some("output");
    }
    if o.logs != t.logs {
        return Some("logs");
    }
    (o.state != t.hash).then_some("state")
}

impl File {
    fn failing(&self, bent: bool) -> Vec<(String, &'static str)> {
        if self.broken {
            return vec![("Unknown".into(), "json")];
        }
        let mut out = vec![];
        for u in &self.units {
            for t in &u.tests {
                let o = if bent { t.bent.as_ref() } else { t.plain.as_ref() };
                if let Some(k) = verdict(t, &u.out, o) {
                    out.push((u.name.clone(), k));
                }
            }
        }
        out
    }
}

fn hx(x: U256) -> String {
    format!("0x{x:x}")
}

/// A contract through which a miscompiled XOR of its two arguments shows in one way.
fn bendable(r: &mut Rng, spec: SpecId) -> (Vec<u8>, &'static str) {
    let mut a = Asm::new();
    a.pushu(0).op(op::CALLDATALOAD).pushu(32).op(op::CALLDATALOAD).op(op::XOR);
    let way = *r.pick(&["state", "logs", "output", "revert", "gas", "status", "deep"]);
    match way {
        "state" => {
            a.pushu(r.below(3) as u64).op(op::SSTORE);
        }
        "logs" => {
            a.pushu(0).op(op::MSTORE).pushu(32).pushu(0).op(op::LOG0);
        }
        "output" => {
            a.pushu(0).op(op::MSTORE).pushu(32).pushu(0).op(op::RETURN);
        }
        "revert" => {
            let o = if spec >= SpecId::BYZANTIUM { op::REVERT } else { op::RETURN };
            a.pushu(0).op(op::MSTORE).pushu(32).pushu(0).op(o);
        }
        "gas" => {
            let l = a.label();
            a.op(op::ISZERO).push_label(l).op(op::JUMPI);
            for _ in 0..r.range(1, 30) {
                a.op(op::GAS).op(op::POP);
            }
            a.place(l);
            a.op(op::STOP);
        }
        "status" => {
            let l = a.label();
            a.op(op::ISZERO).push_label(l).op(op::JUMPI);
            a.op(*r.pick(&[op::INVALID, op::RETURN, op::POP]));
            a.place(l);
            a.op(op::STOP);
        }
        _ => {
            // A slot chosen by the value.
            a.pushu(1).op(op::SWAP1).op(op::SSTORE).op(op::STOP);
        }
    }
    (a.finish(), way)
}

struct Gen<'a> {
    r: &'a mut Rng,
    /// Only contracts whose miscompiled behaviour is known.
    bent: bool,
    lie: u32,
}

impl Gen<'_> {
    fn unit(&mut self, name: String, st: &mut Stats) -> Unit {
        let r = &mut *self.r;
        let mut specs: Vec<(&'static str, SpecId)> = (0..r.range(1, 3)).map(|_| *r.pick(SPECS)).collect();
        specs.sort_by_key(|x| x.1);
        specs.dedup();
        let low = specs[0].1;
        let seed = r.u64();
        let pool = addr_pool(seed);
        // The address of the key most state tests use.
        let known: Address = "0xa94f5374fce5edbc8e2a8697c15331677e6ebf0b".parse().unwrap();
        let key = "0x45a915e4d060149eb4365960e6a7a45f334393093061116b197e3240065ff2d8";
        let named = r.chance(50);
        let sender = if named { Address::from_word(B256::from(r.u256())) } else { known };
        let unknown_key = !named && r.chance(6);
        let nonce = *r.pick(&[0u64, 0, 5]);
        let mut w = World::new();
        let rich = U256::from(10u64).pow(U256::from(20));
        w.insert(sender, Acct { balance: if r.chance(6) { U256::from(1000) } else { rich }, nonce, ..Default::default() });
        let mut everyone = pool.clone();
        everyone.push(sender);
        for p in pool.iter() {
            let code = if self.bent { bendable(r, low).0 } else { match r.below(5) {
                0 => {
                    let kind = *r.pick(&[gen_::Kind::Straight, gen_::Kind::Cfg, gen_::Kind::Sol]);
                    let mut c = gen_::program(r, low, seed, gen_::MIX_ALL, kind);
                    c.truncate(900);
                    c
                }
                1 => bendable(r, low).0,
                2 if low >= SpecId::PRAGUE && r.chance(40) => [&[0xef, 1, 0][..], pool[0].as_slice()].concat(),
                _ => txs::actor(r, low, &everyone, 1),
            } };
            let storage = (0..r.below(4)).map(|i| (U256::from(i), U256::from(r.range(1, 3)))).collect();
            w.insert(*p, Acct { balance: U256::from(r.below(20)), nonce: 1, code, storage });
        }
        let data: Vec<Vec<u8>> = (0..r.range(1, 3))
            .map(|_| {
                let x = r.word();
                let y = match r.below(3) {
                    0 => !x,
                    1 => x,
                    _ => r.word(),
                };
                let x = if self.bent { x } else { U256::from(r.below(4)) };
                [x.to_be_bytes::<32>(), y.to_be_bytes::<32>()].concat()
            })
            .collect();
        let gas: Vec<u64> = (0..r.range(1, 2)).map(|_| *r.pick(&[30_000u64, 100_000, 400_000, 400_000, 2_000_000, 2_000_000, 1_000_000, 60_000, 20_000])).collect();
        let vals: Vec<u64> = (0..r.range(1, 2)).map(|_| *r.pick(&[0u64, 0, 3, 1_000_000])).collect();
        let create = !self.bent && r.chance(10);
        let to = (!create).then(|| *r.pick(&pool));
        let data: Vec<Vec<u8>> = if create { data.iter().map(|_| txs::initcode(r, low, &pool, 1)).collect() } else { data };
        let basefee = *r.pick(&[0u64, 0, 7]);
        let price = if basefee == 0 && r.chance(60) { 0 } else { *r.pick(&[7u64, 10, 10, 10, 10, 10, 6]) };
        let fee1559 = low >= SpecId::LONDON && r.chance(30);
        let tip = if r.chance(8) { price + 1 } else { r.below(price as usize + 1) as u64 };
        let lists = low >= SpecId::BERLIN && r.chance(40);
        let access: Vec<Option<AccessList>> = data
            .iter()
            .map(|_| {
                (lists && r.chance(70)).then(|| {
                    AccessList(vec![AccessListItem { address: *r.pick(&pool), storage_keys: (0..r.below(3)).map(|k| B256::from(U256::from(k))).collect() }])
                })
            })
            .collect();
        let blobs = low >= SpecId::CANCUN && !create && r.chance(15);
        let nblobs = *r.pick(&[1usize, 6, 7, 9, 10]);
        let mut blob = [3u8; 32];
        blob[0] = 1;
        let blob = B256::from(blob);
        let tx_nonce = if r.chance(5) { nonce + 1 } else { nonce };
        let chain = if r.chance(5) { 1337 } else { 1u64 };
        let mut block = BlockEnv {
            number: U256::from(r.range(1, 20_000)),
            timestamp: U256::from(r.u64() >> 30),
            beneficiary: Address::with_last_byte(0xbe),
            gas_limit: 100_000_000,
            basefee,
            difficulty: U256::from(r.u64()),
            prevrandao: Some(B256::from(r.u256())),
            ..Default::default()
        };
        let excess = if low >= SpecId::CANCUN { Some(*r.pick(&[0u64, 0x240000, 0x1000000])) } else { None };
        let mut env = json!({
            "currentCoinbase": block.beneficiary, "currentGasLimit": hx(U256::from(block.gas_limit)), "currentNumber": hx(block.number),
            "currentTimestamp": hx(block.timestamp), "currentDifficulty": hx(block.difficulty), "currentBaseFee": hx(U256::from(basefee)),
            "currentRandom": block.prevrandao.unwrap(),
        });
        if chain != 1 || r.chance(50) {
            env["currentChainID"] = json!(hx(U256::from(chain)));
        }
        if let Some(x) = excess {
            env["currentExcessBlobGas"] = json!(hx(U256::from(x)));
        }
        let mut txj = json!({
            "data": data.iter().map(|d| format!("0x{}", hex::encode(d))).collect::<Vec<_>>(),
            "gasLimit": gas.iter().map(|g| hx(U256::from(*g))).collect::<Vec<_>>(),
            "value": vals.iter().map(|g| hx(U256::from(*g))).collect::<Vec<_>>(),
            "nonce": hx(U256::from(tx_nonce)),
            "secretKey": if unknown_key { format!("0x{}", "00".repeat(32)) } else { key.to_string() },
            "to": to.map(|t| t.to_string()).unwrap_or_default(),
        });
        if named {
            txj["sender"] = json!(sender);
        }
        if fee1559 || blobs {
            txj["maxFeePerGas"] = json!(hx(U256::from(price)));
            txj["maxPriorityFeePerGas"] = json!(hx(U256::from(tip)));
        } else {
            txj["gasPrice"] = json!(hx(U256::from(price)));
        }
        if lists {
            txj["accessLists"] = json!(access.iter().map(|a| a.as_ref().map(|a| a.0.iter().map(|i| json!({"address": i.address, "storageKeys": i.storage_keys})).collect::<Vec<_>>())).collect::<Vec<_>>());
        }
        if blobs {
            txj["maxFeePerBlobGas"] = json!("0x2");
            txj["blobVersionedHashes"] = json!(vec![blob; nblobs]);
        }
        let mut tests = vec![];
        let mut outs: Vec<Bytes> = vec![];
        for (name, spec) in &specs {
            for idx in 0..r.range(1, 3) {
                let (d, g, val) = (r.below(data.len()), r.below(gas.len()), r.below(vals.len()));
                let mut tx = TxEnv {
                    caller: sender,
                    kind: to.map(TxKind::Call).unwrap_or(TxKind::Create),
                    data: data[d].clone().into(),
                    gas_limit: gas[g],
                    gas_price: price as u128,
                    value: U256::from(vals[val]),
                    nonce: tx_nonce,
                    max_fee_per_blob_gas: u128::MAX,
                    access_list: access[d].clone().unwrap_or_default(),
                    ..Default::default()
                };
                if access[d].is_some() {
                    tx.tx_type = 1;
                }
                if fee1559 || blobs {
                    tx.tx_type = 2;
                    tx.gas_priority_fee = Some(tip as u128);
                }
                if blobs {
                    tx.tx_type = 3;
                    tx.max_fee_per_blob_gas = 2;
                    tx.blob_hashes = vec![blob; nblobs];
                }
                if let Some(x) = excess {
                    block.set_blob_excess_gas_and_price(x, if *spec >= SpecId::PRAGUE { 5_007_716 } else { 3_338_477 });
                }
                let plain = (!unknown_key).then(|| execute(&w, *spec, chain, &block, &tx, false));
                let bent = (!unknown_key && self.bent).then(|| execute(&w, *spec, chain, &block, &tx, true));
                let err = plain.as_ref().is_none_or(|o| o.err);
                if let Some(o) = plain.as_ref().and_then(|o| o.output.clone()) {
                    outs.push(o);
                }
                let mut t = T {
                    spec: name,
                    idx,
                    d,
                    g,
                    val,
                    exp_exc: err.then(|| "TR_SomethingOrOther".into()),
                    hash: plain.as_ref().map(|o| o.state).unwrap_or_default(),
                    logs: plain.as_ref().map(|o| o.logs).unwrap_or_default(),
                    plain,
                    bent,
                    unknown_key,
                    skipped: false,
                };
                if r.chance(self.lie) {
                    let k = r.below(3);
                    st.count(["lie:state", "lie:logs", "lie:exception"][k], 1);
                    match k {
                        0 => t.hash = keccak256(t.hash),
                        1 => t.logs = keccak256(t.logs),
                        _ => t.exp_exc = if t.exp_exc.is_some() { None } else { Some("TR_NotReally".into()) },
                    }
                }
                st.count(if err { "tests:rejected" } else { "tests:executed" }, 1);
                tests.push(t);
            }
        }
        // A fork the tools leave out.
        if r.chance(8) {
            tests.push(T {
                spec: "Constantinople", idx: 0, d: 0, g: 0, val: 0, exp_exc: None, hash: B256::ZERO, logs: B256::ZERO,
                plain: None, bent: None, unknown_key: false, skipped: true,
            });
        }
        // The output is stated for the unit as a whole.
        let same = outs.windows(2).all(|p| p[0] == p[1]);
        let mut out = (same && r.chance(60)).then(|| outs.first().cloned()).flatten();
        if let Some(o) = &mut out
            && r.chance(self.lie / 2)
        {
            let mut x = o.to_vec();
            if x.pop().is_none() {
                x.push(0);
            }
            *o = x.into();
            st.count("lie:output", 1);
        }
        let mut post = serde_json::Map::new();
        for t in &tests {
            let mut j = json!({"indexes": {"data": t.d, "gas": t.g, "value": t.val}, "hash": t.hash, "logs": t.logs, "txbytes": "0x00"});
            if let Some(e) = &t.exp_exc {
                j["expectException"] = json!(e);
            }
            post.entry(t.spec).or_insert_with(|| json!([])).as_array_mut().unwrap().push(j);
        }
        let pre: serde_json::Map<String, Value> = w
            .iter()
            .map(|(a, x)| {
                let stg: serde_json::Map<String, Value> = x.storage.iter().map(|(k, val)| (hx(*k), json!(hx(*val)))).collect();
                (a.to_string(), json!({"balance": hx(x.balance), "nonce": hx(U256::from(x.nonce)), "code": format!("0x{}", hex::encode(&x.code)), "storage": stg}))
            })
            .collect();
        let mut j = json!({"env": env, "pre": pre, "post": post, "transaction": txj});
        if let Some(o) = &out {
            j["out"] = json!(o);
        }
        Unit { name, json: j, out, tests }
    }

    fn files(&mut self, dir: &Path, st: &mut Stats) -> Vec<File> {
        let mut files = vec![];
        let n = self.r.range(1, 4);
        for i in 0..n {
            let sub = dir.join(*self.r.pick(&["", "a", "a/b.json.d"]));
            std::fs::create_dir_all(&sub).unwrap();
            let path = sub.join(format!("t{i}{}.json", self.r.below(1000)));
            let units: Vec<Unit> = (0..self.r.range(1, 3)).map(|k| self.unit(format!("unit{i}{}", ["x", "y", "z"][k]), st)).collect();
            let broken = self.r.chance(self.lie / 4);
            let mut text = serde_json::to_string_pretty(&Value::Object(units.iter().map(|u| (u.name.clone(), u.json.clone())).collect())).unwrap();
            if broken {
                st.count("lie:json", 1);
                let at = self.r.below(text.len() / 2);
                text.truncate(at);
            }
            std::fs::write(&path, text).unwrap();
            files.push(File { path, broken, units });
        }
        std::fs::write(dir.join("notes.txt"), "not a test").unwrap();
        files.sort_by(|a, b| a.path.cmp(&b.path));
        files
    }
}

// ———————————————————————————————— running the tools ————————————————————————————————

pub(crate) struct Ran {
    pub code: Option<i32>,
    pub out: String,
    pub err: String,
}

pub(crate) fn run(mut c: Command, dir: &Path) -> Result<Ran, Violation> {
    let (o, e) = (dir.join("stdout"), dir.join("stderr"));
    let mut child = c
        .stdin(Stdio::null())
        .stdout(std::fs::File::create(&o).unwrap())
        .stderr(std::fs::File::create(&e).unwrap())
        .spawn()
        .map_err(|x| v(format!("cannot start {c:?}: {x}"), json!({})))?;
    let t0 = Instant::now();
    let code = loop {
        if let Some(s) = child.try_wait().unwrap() {
            break s.code();
        }
        if t0.elapsed() > Duration::from_secs(150) {
            let _ = child.kill();
            let _ = child.wait();
            return Err(v("a conformance tool does not end", json!({"command": format!("{c:?}")})));
        }
        std::thread::sleep(Duration::from_millis(5));
    };
    let rd = |p: &Path| String::from_utf8_lossy(&std::fs::read(p).unwrap_or_default()).into_owned();
    Ok(Ran { code, out: rd(&o), err: rd(&e) })
}

/// `vh st-run MODE THREADS KEEP PATH`: the runner, in a process of its own.
pub fn run_main(a: &[String]) -> i32 {
    let mode = match a[0].as_str() {
        "jit" => compiled::CompileMode::Jit,
        "aot" => compiled::CompileMode::Aot,
        _ => compiled::CompileMode::Interpreter,
    };
    let mut files = revmc_statetest::find_all_json_tests(Path::new(&a[3]));
    files.retain(|p| p.is_file());
    files.sort();
    println!("FILES {}", files.len());
    match compiled::run(files, a[1] == "1", a[2] == "1", mode) {
        Ok(()) => 0,
        Err(e) => {
            let k = match e.kind {
                TestErrorKind::LogsRootMismatch { .. } => "logs",
                TestErrorKind::StateRootMismatch { .. } => "state",
                TestErrorKind::UnknownPrivateKey(_) => "key",
                TestErrorKind::UnexpectedException { .. } => "exception",
                TestErrorKind::UnexpectedOutput { .. } => "output",
                TestErrorKind::SerdeDeserialize(_) => "json",
                _ => "other",
            };
            println!("ERR {k} {} {}", e.path, e.name);
            3
        }
    }
}

pub struct Tools {
    dir: PathBuf,
    bend: Option<PathBuf>,
    backend: Option<revmc::runtime::JitBackend>,
    n: u64,
}

pub(crate) const BEND: &str = r#"
typedef void *P;
extern P LLVMBuildOr(P, P, P, const char *);
extern P LLVMTypeOf(P);
extern int LLVMGetTypeKind(P);
extern unsigned LLVMGetIntTypeWidth(P);
extern void *dlsym(void *, const char *);
P LLVMBuildXor(P b, P l, P r, const char *name) {
  P t = LLVMTypeOf(l);
  if (LLVMGetTypeKind(t) == 8 && LLVMGetIntTypeWidth(t) == 256) return LLVMBuildOr(b, l, r, name);
  P (*f)(P, P, P, const char *) = (P (*)(P, P, P, const char *))dlsym((void *)-1l, "LLVMBuildXor");
  return f(b, l, r, name);
}
"#;

pub(crate) fn build_bend(dir: &Path) -> PathBuf {
    let (c, so) = (dir.join("bend.c"), dir.join("bend.so"));
    std::fs::write(&c, BEND).unwrap();
    let ok = Command::new("cc").args(["-shared", "-fPIC", "-O1", "-w", "-o"]).arg(&so).arg(&c).status().is_ok_and(|s| s.success());
    assert!(ok, "cannot build the fault injector");
    so
}

impl Tools {
    pub fn new() -> Self {
        let dir = crate::fw::scratch().join(format!("st-{}", std::process::id()));
        std::fs::create_dir_all(&dir).unwrap();
        Self { dir, bend: None, backend: None, n: 0 }
    }

    fn bend(&mut self) -> PathBuf {
        if self.bend.is_none() {
            self.bend = Some(build_bend(&self.dir));
        }
        self.bend.clone().unwrap()
    }

    fn runner(&mut self, r: &mut Rng, st: &mut Stats) -> Result<(), Violation> {
        let bent = r.chance(40);
        let lie = if r.chance(50) { 0 } else { 12 };
        let dir = self.dir.join(format!("c{}", self.n));
        std::fs::create_dir_all(dir.join("t")).unwrap();
        let files = Gen { r, bent, lie }.files(&dir.join("t"), st);
        for _ in 0..2 {
            let mode = *r.pick(&["interpreter", "jit", "jit", "aot"]);
            let (single, keep) = (r.chance(50), r.chance(50));
            let mut c = Command::new(std::env::current_exe().unwrap());
            c.arg("st-run").arg(mode).arg((single as u8).to_string()).arg((keep as u8).to_string()).arg(dir.join("t"));
            if bent {
                c.env("LD_PRELOAD", self.bend());
            }
            let x = run(c, &dir)?;
            let shows = bent && mode != "interpreter";
            let failing: Vec<_> = files.iter().map(|f| f.failing(shows)).collect();
            let bad = failing.iter().filter(|f| !f.is_empty()).count();
            let d = json!({
                "mode": mode, "single_thread": single, "keep_going": keep, "miscompiling": bent, "exit": x.code,
                "expected": files.iter().zip(&failing).map(|(f, k)| json!({"file": f.path.file_name().unwrap().to_string_lossy(), "failing": k})).collect::<Vec<_>>(),
                "stdout": tail(&x.out), "stderr": tail(&x.err),
                "tests": files.iter().flat_map(|f| f.units.iter().map(|u| (u.name.clone(), u.json.clone()))).collect::<serde_json::Map<_, _>>(),
            });
            crate::ensure!(x.out.contains(&format!("FILES {}\n", files.len())), d, "{} test files are there, the tools do not find them so: {}", files.len(), tail(&x.out));
            let passed = x.code == Some(0) && x.out.contains("All tests passed!");
            crate::ensure!(
                passed == (bad == 0) && (x.code == Some(0)) == passed,
                d,
                "the state-test runner ({mode}) ends with {:?} on {} files of which {bad} fail", x.code, files.len()
            );
            st.count(format!("runner:{mode}:{}", if bad == 0 { "accepted" } else { "refused" }), 1);
            if shows {
                st.count(if bad == 0 { "bent:hidden" } else { "bent:shown" }, 1);
            }
            if bad == 0 {
                continue;
            }
            let said = x.out.lines().find_map(|l| l.strip_prefix("Encountered ")).and_then(|l| l.split(' ').next()?.parse::<usize>().ok());
            if keep {
                crate::ensure!(said == Some(bad), d, "the runner counts {said:?} failing files, {bad} fail");
            } else {
                let Some(e) = x.out.lines().find_map(|l| l.strip_prefix("ERR ")) else {
                    return Err(v(format!("the runner failed without naming a test: {}", tail(&x.out)), d));
                };
                let p: Vec<&str> = e.splitn(3, ' ').collect();
                let at = files.iter().position(|f| f.path.to_string_lossy() == p[1]);
                let first = failing.iter().position(|f| !f.is_empty());
                let ok = match at {
                    Some(i) if single => Some(i) == first && failing[i].first().is_some_and(|f| f.0 == p[2] && f.1 == p[0]),
                    Some(i) => failing[i].first().is_some_and(|f| f.0 == p[2] && f.1 == p[0]),
                    None => false,
                };
                crate::ensure!(ok, d, "the runner blames the wrong test: {e}");
            }
        }
        Ok(())
    }

    fn differ(&mut self, r: &mut Rng, st: &mut Stats) -> Result<(), Violation> {
        let bent = r.chance(65);
        let dir = self.dir.join(format!("c{}", self.n));
        std::fs::create_dir_all(dir.join("t")).unwrap();
        let lie = if r.chance(70) { 0 } else { 10 };
        let files = Gen { r, bent, lie }.files(&dir.join("t"), st);
        let keep = r.chance(70);
        let mut c = Command::new(std::env::var_os("VH_REVMC").unwrap_or("revmc".into()));
        c.arg("statetest-diff").arg(dir.join("t"));
        if keep {
            c.arg("--keep-going");
        }
        let spec = r.chance(25).then(|| *r.pick(SPECS)).map(|s| if r.chance(50) { s.0.to_lowercase() } else { s.0.to_string() });
        if let Some(s) = &spec {
            c.arg("--spec").arg(s);
        }
        let name = r.chance(25).then(|| *r.pick(&["x", "y", "unit0", "nothing"]));
        if let Some(s) = name {
            c.arg("--name").arg(s);
        }
        if bent {
            c.env("LD_PRELOAD", self.bend());
        }
        let x = run(c, &dir)?;
        // What it has to find.
        // Which of the exceptional halts ends an execution may differ (see C01): where both sides halt, a
        // difference in status alone is reported truthfully, and we do not predict it.
        let (mut total, mut want, mut halts) = (0u64, BTreeSet::new(), BTreeSet::new());
        for f in files.iter().filter(|f| !f.broken) {
            for u in &f.units {
                if name.is_some_and(|s| !u.name.contains(s)) {
                    continue;
                }
                for t in &u.tests {
                    if t.skipped || t.unknown_key || spec.as_ref().is_some_and(|s| !t.spec.eq_ignore_ascii_case(s)) {
                        continue;
                    }
                    total += 1;
                    let Some(p) = &t.plain else { continue };
                    let b = t.bent.as_ref().unwrap_or(p);
                    let mut fields = fields(p, b);
                    if p.status.starts_with("Halt") && b.status.starts_with("Halt") {
                        halts.insert((u.name.clone(), t.spec.to_string(), t.idx));
                        fields.retain(|k| k != "status");
                    }
                    if !fields.is_empty() {
                        for k in &fields {
                            st.count(format!("diff:{k}"), 1);
                        }
                        want.insert((u.name.clone(), t.spec.to_string(), t.idx, fields));
                    }
                }
            }
        }
        let (mut got, mut other) = (BTreeSet::new(), 0u64);
        let mut cur: Option<(String, String, usize, Vec<String>)> = None;
        for l in x.out.lines().chain(["MISMATCH"]) {
            if l.starts_with("MISMATCH") || l.starts_with("---") {
                if let Some(mut c) = cur.take() {
                    c.3.sort();
                    if halts.contains(&(c.0.clone(), c.1.clone(), c.2)) {
                        c.3.retain(|k| k != "status");
                    }
                    if c.3.is_empty() {
                        other += 1;
                    } else {
                        got.insert(c);
                    }
                }
            }
            if let Some(l) = l.strip_prefix("MISMATCH [") {
                let (name, rest) = l.split_once("] spec=").unwrap_or((l, ""));
                let mut w = rest.split(' ');
                let s = w.next().unwrap_or("").to_string();
                let i = w.next().and_then(|i| i.strip_prefix("idx=")?.parse().ok()).unwrap_or(usize::MAX);
                cur = Some((name.to_string(), s, i, vec![]));
            } else if let (Some(c), Some((k, _))) = (&mut cur, l.split_once(": interpreter=")) {
                c.3.push(k.trim().to_string());
            }
        }
        let d = json!({
            "command": {"keep_going": keep, "spec": spec, "name": name}, "miscompiling": bent, "exit": x.code,
            "expected": format!("{want:?}"), "reported": format!("{got:?}"), "stdout": tail(&x.out), "stderr": tail(&x.err),
            "tests": files.iter().flat_map(|f| f.units.iter().map(|u| (u.name.clone(), u.json.clone()))).collect::<serde_json::Map<_, _>>(),
        });
        crate::ensure!(x.code == Some((!want.is_empty() || other > 0) as i32), d, "statetest-diff ends with {:?}, {} tests differ", x.code, want.len());
        st.count(if want.is_empty() { "differ:agree" } else { "differ:mismatch" }, 1);
        if other > 0 {
            st.count("differ:other_halt", other);
        }
        if keep || (want.is_empty() && other == 0) {
            crate::ensure!(got == want, d, "statetest-diff reports {got:?}, the tests that differ are {want:?}");
            let num = |k: &str| x.out.lines().find_map(|l| l.strip_prefix(k)).and_then(|n| n.trim().parse::<u64>().ok());
            let nums = (num("Total test cases:"), num("Mismatches:"));
            crate::ensure!(nums == (Some(total), Some(want.len() as u64 + other)), d, "statetest-diff counts (tests, mismatches) {nums:?}, not ({total}, {})", want.len());
        } else {
            crate::ensure!(got.len() as u64 + other == 1 && got.is_subset(&want), d, "statetest-diff stops at {got:?}, the tests that differ are {want:?}");
        }
        Ok(())
    }

    /// The pieces the differ is made of, called directly.
    fn snapshots(&mut self, r: &mut Rng, st: &mut Stats) -> Result<(), Violation> {
        use revm_statetest_types::TestUnit;
        if self.backend.is_none() {
            let cfg = revmc::runtime::RuntimeConfig { enabled: true, blocking: true, ..Default::default() };
            self.backend = Some(revmc::runtime::JitBackend::new(cfg).map_err(|e| v(format!("the service does not start: {e}"), json!({})))?);
        }
        let b = self.backend.clone().unwrap();
        let u = Gen { r, bent: false, lie: 0 }.unit("unit".into(), st);
        let d = json!({"test": u.json});
        let unit: TestUnit = serde_json::from_value(u.json.clone()).map_err(|e| v(format!("not a state test: {e}"), d.clone()))?;
        let mut snaps = vec![];
        for (name, spec) in SPECS {
            for t in u.tests.iter().filter(|t| t.spec == *name && !t.unknown_key) {
                let mut cfg = CfgEnv::default();
                cfg.chain_id = unit.env.current_chain_id.map(|c| c.to()).unwrap_or(1);
                cfg.set_spec_and_mainnet_gas_params(*spec);
                cfg.set_max_blobs_per_tx(if (SpecId::PRAGUE..SpecId::OSAKA).contains(spec) { 9 } else { 6 });
                let block = unit.block_env(&mut cfg);
                let p = t.plain.as_ref().unwrap();
                let test = &unit.post.iter().find(|(k, _)| format!("{k:?}") == t.spec).unwrap().1[t.idx];
                let Ok(tx) = test.tx_env(&unit) else { return Err(v("no transaction", d)) };
                let before = b.stats();
                for (how, s) in [
                    ("interpreter", diagnostic::run_interpreter(&cfg, &block, &tx, &unit.state())),
                    ("jit", diagnostic::run_jit(&b, &cfg, &block, &tx, &unit.state())),
                ] {
                    let got = Outcome {
                        err: matches!(s.status, diagnostic::ExecStatus::Error(_)),
                        status: s.status.to_string(),
                        output: s.output.clone(),
                        gas: s.gas_used,
                        state: s.state_root,
                        logs: s.logs_root,
                    };
                    let mut same = got.clone();
                    if how == "jit" && got.status.starts_with("Halt") && p.status.starts_with("Halt") {
                        same.status = p.status.clone();
                    }
                    crate::ensure!(same == *p, d, "the {how} snapshot of {}/{} is {got:?}, not {p:?}", t.spec, t.idx);
                    snaps.push((s, got));
                }
                let after = b.stats();
                st.count("snapshots:lookups", after.lookup_hits + after.lookup_misses - before.lookup_hits - before.lookup_misses);
                st.count("snapshots:tests", 1);
            }
        }
        for (a, x) in &snaps {
            for (b, y) in &snaps {
                let mut got: Vec<String> = diagnostic::compare(a, b).iter().map(|m| m.field.to_string()).collect();
                got.sort();
                let want = fields(x, y);
                crate::ensure!(got == want, d, "compare names {got:?} for snapshots that differ in {want:?}");
                st.count("snapshots:compared", 1);
            }
        }
        Ok(())
    }
}

fn fields(p: &Outcome, b: &Outcome) -> Vec<String> {
    let mut out = vec![];
    for (k, x) in [
        ("status", p.status != b.status),
        ("output", p.output != b.output),
        ("gas_used", p.gas != b.gas),
        ("state_root", p.state != b.state),
        ("logs_root", p.logs != b.logs),
    ] {
        if x {
            out.push(k.to_string());
        }
    }
    out.sort();
    out
}

fn tail(x: &str) -> String {
    let n = x.chars().count().saturating_sub(1200);
    x.chars().skip(n).collect()
}

impl Check for Tools {
    fn case(&mut self, index: u64, seed: u64, st: &mut Stats) -> Result<(), Violation> {
        let r = &mut Rng::new(seed);
        self.n += 1;
        let (name, x) = match index % 5 {
            0 | 3 => ("runner", self.runner(r, st)),
            1 | 4 => ("differ", self.differ(r, st)),
            _ => ("snapshots", self.snapshots(r, st)),
        };
        crate::fw::set_tag(name);
        let _ = std::fs::remove_dir_all(self.dir.join(format!("c{}", self.n)));
        st.evals += 1;
        st.nontrivial(seed);
        x
    }
    fn finish(&mut self, _: &mut Stats) {
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}

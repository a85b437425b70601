//! Deterministic recording host: the world an execution sees, and the log of what it did to it.
use crate::rng::{Rng, hash_bytes, mix};
use revm_context_interface::{
    cfg::GasParams,
    context::{SStoreResult, SelfDestructResult, StateLoad},
    host::LoadError,
    journaled_state::AccountInfoLoad,
};
use revm_interpreter::Host;
use revm_primitives::{Address, B256, Bytes, KECCAK_EMPTY, Log, U256, hardfork::SpecId, keccak256};
use revm_state::AccountInfo;
use std::{
    borrow::Cow,
    collections::{HashMap, HashSet},
};

/// Everything an execution can observe besides the code.
#[derive(Clone, Debug)]
pub struct World {
    pub seed: u64,
    pub spec: SpecId,
    pub target: Address,
    pub caller: Address,
    pub origin: Address,
    pub value: U256,
    pub calldata: Vec<u8>,
    /// Calldata is passed as a range of the shared memory buffer (as in nested frames).
    pub shared_input: bool,
    /// Bytes of parent memory below this frame's memory.
    pub parent_mem: usize,
    pub is_static: bool,
    pub return_data: Vec<u8>,
    pub gas_params: GasParams,
    pub custom_gas: bool,
    pub eip8037: bool,
    pub reservoir: u64,
    /// Probability (percent) that a given address/slot fails to load with a database error.
    pub fault_pct: u32,
    pub max_initcode: usize,
    pub block: [U256; 8],
}

pub fn addr_pool(seed: u64) -> Vec<Address> {
    (0..6u64).map(|i| Address::from_word(B256::from(U256::from(mix(seed ^ (i + 77)))))).collect()
}

impl World {
    pub fn random(rng: &mut Rng, spec: SpecId) -> Self {
        let seed = rng.u64();
        let cd_len = match rng.below(6) {
            0 => 0,
            1 => rng.below(32),
            2 => 32,
            3 => rng.range(33, 70),
            4 => rng.below(300),
            _ => 4 + 32 * rng.below(5),
        };
        let mut calldata = rng.bytes(cd_len);
        if rng.chance(60) {
            // Word-structured calldata of corner values.
            for c in calldata.chunks_mut(32) {
                let w = match rng.below(3) {
                    0 => U256::from(rng.below(4)),
                    1 => rng.word(),
                    _ => U256::from(rng.below(200)),
                };
                let b = w.to_be_bytes::<32>();
                let n = c.len();
                c.copy_from_slice(&b[32 - n..]);
            }
        }
        Self {
            seed,
            spec,
            target: Address::from_word(B256::from(U256::from(mix(seed ^ 1)))),
            caller: Address::from_word(B256::from(U256::from(mix(seed ^ 2)))),
            origin: Address::from_word(B256::from(U256::from(mix(seed ^ 3)))),
            value: if rng.chance(40) { U256::ZERO } else { rng.word() },
            calldata,
            shared_input: rng.chance(30),
            parent_mem: if rng.chance(40) { 32 * rng.range(1, 8) } else { 0 },
            is_static: rng.chance(12),
            return_data: if rng.chance(30) { let n = rng.below(80); rng.bytes(n) } else { vec![] },
            gas_params: GasParams::new_spec(spec),
            custom_gas: false,
            eip8037: false,
            reservoir: 0,
            fault_pct: 0,
            max_initcode: 49152,
            block: std::array::from_fn(|_| rng.word()),
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Event {
    Sload(Address, U256),
    Sstore(Address, U256, U256),
    Tload(Address, U256),
    Tstore(Address, U256, U256),
    Log(Log),
    SelfDestruct(Address, Address),
    Account(Address, bool),
    BlockHash(u64),
}

pub struct MiniHost<'w> {
    pub w: &'w World,
    pub storage: HashMap<(Address, U256), U256>,
    pub transient: HashMap<(Address, U256), U256>,
    pub warm_slots: HashSet<(Address, U256)>,
    pub warm_accounts: HashSet<Address>,
    pub destroyed: HashSet<Address>,
    pub events: Vec<Event>,
    /// Successful loads only matter for state; skipped cold loads are recorded separately.
    pub skipped: u64,
}

impl<'w> MiniHost<'w> {
    pub fn new(w: &'w World) -> Self {
        let mut warm_accounts = HashSet::new();
        warm_accounts.insert(w.target);
        warm_accounts.insert(w.caller);
        warm_accounts.insert(w.origin);
        for i in 1..=9u8 {
            warm_accounts.insert(Address::with_last_byte(i));
        }
        Self {
            w,
            storage: HashMap::new(),
            transient: HashMap::new(),
            warm_slots: HashSet::new(),
            warm_accounts,
            destroyed: HashSet::new(),
            events: Vec::new(),
            skipped: 0,
        }
    }

    fn berlin(&self) -> bool {
        self.w.spec.is_enabled_in(SpecId::BERLIN)
    }

    pub fn original(&self, a: Address, k: U256) -> U256 {
        let mut b = a.to_vec();
        b.extend_from_slice(&k.to_be_bytes::<32>());
        let h = hash_bytes(self.w.seed ^ 0x51, &b);
        match h % 4 {
            0 | 1 => U256::ZERO,
            2 => U256::from(h >> 60),
            _ => U256::from_limbs([h, mix(h), mix(h ^ 1), mix(h ^ 2)]),
        }
    }

    fn faulty(&self, b: &[u8]) -> bool {
        self.w.fault_pct != 0 && hash_bytes(self.w.seed ^ 0xfa, b) % 100 < self.w.fault_pct as u64
    }

    pub fn account(&self, a: Address) -> (AccountInfo, bool) {
        let h = hash_bytes(self.w.seed ^ 0xacc, a.as_slice());
        let (balance, nonce, code) = match h % 6 {
            0 => (U256::ZERO, 0, Bytes::new()),
            1 => (U256::from(h >> 32), 0, Bytes::new()),
            2 => (U256::ZERO, 1, Bytes::from(vec![0x60, 1, 0x60, 2, 0x01, 0x00])),
            3 => {
                let n = (mix(h) % 100) as usize;
                (U256::from(mix(h)), 3, Bytes::from(Rng::new(h).bytes(n)))
            }
            4 => {
                // EIP-7702 delegation (only meaningful from Prague on, but always well formed).
                if self.w.spec.is_enabled_in(SpecId::PRAGUE) {
                    let mut c = vec![0xef, 0x01, 0x00];
                    let p = addr_pool(self.w.seed);
                    c.extend_from_slice(p[(mix(h) % p.len() as u64) as usize].as_slice());
                    (U256::from(7), 1, Bytes::from(c))
                } else {
                    (U256::MAX, 0, Bytes::new())
                }
            }
            _ => (U256::from_limbs([h, mix(h), 0, 1]), 0, Bytes::from(vec![0x00; 40])),
        };
        let code_hash = if code.is_empty() { KECCAK_EMPTY } else { keccak256(&code) };
        let empty = balance.is_zero() && nonce == 0 && code.is_empty();
        let bc = revm_bytecode::Bytecode::new_raw_checked(code.clone())
            .unwrap_or_else(|_| revm_bytecode::Bytecode::new_legacy(code));
        (AccountInfo { balance, nonce, code_hash, account_id: None, code: Some(bc) }, empty)
    }
}

impl Host for MiniHost<'_> {
    fn basefee(&self) -> U256 {
        self.w.block[0]
    }
    fn blob_gasprice(&self) -> U256 {
        self.w.block[1]
    }
    fn gas_limit(&self) -> U256 {
        self.w.block[2]
    }
    fn gas_params(&self) -> &GasParams {
        &self.w.gas_params
    }
    fn is_amsterdam_eip8037_enabled(&self) -> bool {
        self.w.eip8037
    }
    fn difficulty(&self) -> U256 {
        self.w.block[3]
    }
    fn prevrandao(&self) -> Option<U256> {
        Some(self.w.block[4])
    }
    fn block_number(&self) -> U256 {
        // Keep in the range where BLOCKHASH is meaningful half of the time.
        if self.w.seed & 1 == 0 { U256::from(300) } else { self.w.block[5] }
    }
    fn timestamp(&self) -> U256 {
        self.w.block[6]
    }
    fn beneficiary(&self) -> Address {
        Address::from_word(B256::from(self.w.block[7]))
    }
    fn slot_num(&self) -> U256 {
        self.w.block[5] ^ U256::from(5)
    }
    fn chain_id(&self) -> U256 {
        self.w.block[2] ^ U256::from(9)
    }
    fn effective_gas_price(&self) -> U256 {
        self.w.block[0] ^ U256::from(3)
    }
    fn caller(&self) -> Address {
        self.w.origin
    }
    fn blob_hash(&self, number: usize) -> Option<U256> {
        (number < 3).then(|| U256::from(mix(self.w.seed ^ number as u64)))
    }
    fn max_initcode_size(&self) -> usize {
        self.w.max_initcode
    }
    fn block_hash(&mut self, number: u64) -> Option<B256> {
        if self.faulty(&number.to_be_bytes()) {
            return None;
        }
        self.events.push(Event::BlockHash(number));
        Some(keccak256(number.to_be_bytes()))
    }
    fn selfdestruct(
        &mut self,
        address: Address,
        target: Address,
        skip_cold_load: bool,
    ) -> Result<StateLoad<SelfDestructResult>, LoadError> {
        if self.faulty(target.as_slice()) {
            return Err(LoadError::DBError);
        }
        let cold = self.berlin() && !self.warm_accounts.contains(&target);
        if cold && skip_cold_load {
            self.skipped += 1;
            return Err(LoadError::ColdLoadSkipped);
        }
        self.warm_accounts.insert(target);
        let prev = !self.destroyed.insert(address);
        self.events.push(Event::SelfDestruct(address, target));
        let (_, empty) = self.account(target);
        let (me, _) = self.account(address);
        Ok(StateLoad::new(
            SelfDestructResult {
                had_value: !me.balance.is_zero(),
                target_exists: !empty,
                previously_destroyed: prev,
            },
            cold,
        ))
    }
    fn log(&mut self, log: Log) {
        self.events.push(Event::Log(log));
    }
    fn tstore(&mut self, address: Address, key: U256, value: U256) {
        self.events.push(Event::Tstore(address, key, value));
        self.transient.insert((address, key), value);
    }
    fn tload(&mut self, address: Address, key: U256) -> U256 {
        self.events.push(Event::Tload(address, key));
        self.transient.get(&(address, key)).copied().unwrap_or_default()
    }
    fn load_account_info_skip_cold_load(
        &mut self,
        address: Address,
        load_code: bool,
        skip_cold_load: bool,
    ) -> Result<AccountInfoLoad<'_>, LoadError> {
        if self.faulty(address.as_slice()) {
            return Err(LoadError::DBError);
        }
        let cold = self.berlin() && !self.warm_accounts.contains(&address);
        if cold && skip_cold_load {
            self.skipped += 1;
            return Err(LoadError::ColdLoadSkipped);
        }
        self.warm_accounts.insert(address);
        self.events.push(Event::Account(address, load_code));
        let (mut info, is_empty) = self.account(address);
        if !load_code {
            info.code = None;
        }
        Ok(AccountInfoLoad { account: Cow::Owned(info), is_cold: cold, is_empty })
    }
    fn sstore_skip_cold_load(
        &mut self,
        address: Address,
        key: U256,
        value: U256,
        skip_cold_load: bool,
    ) -> Result<StateLoad<SStoreResult>, LoadError> {
        if self.faulty(&key.to_be_bytes::<32>()) {
            return Err(LoadError::DBError);
        }
        let cold = self.berlin() && !self.warm_slots.contains(&(address, key));
        if cold && skip_cold_load {
            self.skipped += 1;
            return Err(LoadError::ColdLoadSkipped);
        }
        self.warm_slots.insert((address, key));
        let original_value = self.original(address, key);
        let present_value = self.storage.get(&(address, key)).copied().unwrap_or(original_value);
        self.storage.insert((address, key), value);
        self.events.push(Event::Sstore(address, key, value));
        Ok(StateLoad::new(SStoreResult { original_value, present_value, new_value: value }, cold))
    }
    fn sload_skip_cold_load(
        &mut self,
        address: Address,
        key: U256,
        skip_cold_load: bool,
    ) -> Result<StateLoad<U256>, LoadError> {
        if self.faulty(&key.to_be_bytes::<32>()) {
            return Err(LoadError::DBError);
        }
        let cold = self.berlin() && !self.warm_slots.contains(&(address, key));
        if cold && skip_cold_load {
            self.skipped += 1;
            return Err(LoadError::ColdLoadSkipped);
        }
        self.warm_slots.insert((address, key));
        self.events.push(Event::Sload(address, key));
        let o = self.original(address, key);
        Ok(StateLoad::new(self.storage.get(&(address, key)).copied().unwrap_or(o), cold))
    }
}

//! A tiny in-process stand-in for the runtime: it lays accounts out the way the loader does, calls the program's own
//! entry point and answers the token, system and event calls it makes. Nothing outside this process is touched.
#![allow(dead_code, deprecated)]
use anchor_lang::prelude::*;
use anchor_lang::solana_program::{
    entrypoint::ProgramResult,
    instruction::{AccountMeta, Instruction},
    program_error::ProgramError,
    program_stubs::{set_syscall_stubs, SyscallStubs},
    rent::Rent,
};
pub use anchor_lang::{InstructionData, ToAccountMetas};
pub use dynamic_bonding_curve as dbc;
use std::cell::RefCell;
use std::rc::Rc;
pub use std::collections::HashMap;

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Acc {
    pub owner: Pubkey,
    pub lamports: u64,
    pub data: Vec<u8>,
    pub executable: bool,
}

#[derive(Clone, Debug)]
pub struct Cpi {
    pub program: Pubkey,
    pub accounts: Vec<AccountMeta>,
    pub data: Vec<u8>,
}

thread_local! {
    static CPIS: RefCell<Vec<Cpi>> = RefCell::new(vec![]);
    static NOW: RefCell<(i64, u64)> = RefCell::new((1_000_000, 5_000_000));
    static FRESH: RefCell<u64> = RefCell::new(1);
}

pub fn token_program() -> Pubkey {
    anchor_spl::token::ID
}

/// a fresh address
pub fn key() -> Pubkey {
    let n = FRESH.with(|f| {
        let mut f = f.borrow_mut();
        *f += 1;
        *f
    });
    let mut b = [7u8; 32];
    b[..8].copy_from_slice(&n.to_be_bytes());
    Pubkey::new_from_array(b)
}

struct Stubs;

fn tok_amount(d: &[u8]) -> u64 {
    u64::from_le_bytes(d[64..72].try_into().unwrap())
}
fn set_tok_amount(d: &mut [u8], v: u64) {
    d[64..72].copy_from_slice(&v.to_le_bytes())
}
fn u64_at(d: &[u8], i: usize) -> u64 {
    u64::from_le_bytes(d[i..i + 8].try_into().unwrap())
}

impl SyscallStubs for Stubs {
    fn sol_log(&self, _m: &str) {
        if std::env::var("VM_LOG").is_ok() {
            println!("log: {}", _m)
        }
    }
    fn sol_log_data(&self, _f: &[&[u8]]) {}
    fn sol_log_compute_units(&self) {}
    fn sol_get_clock_sysvar(&self, p: *mut u8) -> u64 {
        let (t, s) = NOW.with(|n| *n.borrow());
        let c = Clock { slot: s, epoch_start_timestamp: 0, epoch: 1, leader_schedule_epoch: 1, unix_timestamp: t };
        unsafe { *(p as *mut Clock) = c };
        0
    }
    fn sol_get_rent_sysvar(&self, p: *mut u8) -> u64 {
        unsafe { *(p as *mut Rent) = Rent::default() };
        0
    }
    fn sol_get_stack_height(&self) -> u64 {
        1
    }
    fn sol_invoke_signed(&self, ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
        CPIS.with(|c| {
            c.borrow_mut().push(Cpi { program: ix.program_id, accounts: ix.accounts.clone(), data: ix.data.clone() })
        });
        let pdas: Vec<Pubkey> =
            seeds.iter().map(|s| Pubkey::create_program_address(s, &dbc::ID).expect("seeds")).collect();
        let get = |i: usize| -> &AccountInfo {
            let k = ix.accounts[i].pubkey;
            infos.iter().find(|a| *a.key == k).unwrap_or_else(|| panic!("account {i} of a call is missing"))
        };
        for m in ix.accounts.iter() {
            if m.is_signer {
                let info = infos.iter().find(|a| *a.key == m.pubkey);
                if !pdas.contains(&m.pubkey) && !info.map(|a| a.is_signer).unwrap_or(false) {
                    return Err(ProgramError::MissingRequiredSignature);
                }
            }
        }
        let system = anchor_lang::system_program::ID;
        let t22 = anchor_spl::token_2022::ID;
        if ix.program_id == system {
            let tag = u32::from_le_bytes(ix.data[..4].try_into().unwrap());
            match tag {
                0 => {
                    let (from, to) = (get(0), get(1));
                    let lam = u64_at(&ix.data, 4);
                    let space = u64_at(&ix.data, 12) as usize;
                    let owner = Pubkey::new_from_array(ix.data[20..52].try_into().unwrap());
                    **from.lamports.borrow_mut() -= lam;
                    **to.lamports.borrow_mut() += lam;
                    to.realloc(space, true)?;
                    to.assign(&owner);
                }
                1 => get(0).assign(&Pubkey::new_from_array(ix.data[4..36].try_into().unwrap())),
                2 => {
                    let lam = u64_at(&ix.data, 4);
                    let (from, to) = (get(0), get(1));
                    if from.lamports() < lam {
                        return Err(ProgramError::InsufficientFunds);
                    }
                    **from.lamports.borrow_mut() -= lam;
                    **to.lamports.borrow_mut() += lam;
                }
                8 => get(0).realloc(u64_at(&ix.data, 4) as usize, true)?,
                _ => panic!("system call {tag}"),
            }
        } else if ix.program_id == token_program() || ix.program_id == t22 {
            match ix.data[0] {
                3 | 12 => {
                    let amount = u64_at(&ix.data, 1);
                    let (src, dst, auth) = if ix.data[0] == 3 { (0, 1, 2) } else { (0, 2, 3) };
                    let (src, dst, auth) = (get(src), get(dst), get(auth));
                    {
                        let s = src.data.borrow();
                        if s[32..64] != auth.key.to_bytes() {
                            return Err(ProgramError::Custom(4)); // owner mismatch
                        }
                        if s[..32] != dst.data.borrow()[..32] {
                            return Err(ProgramError::Custom(3)); // mint mismatch
                        }
                        if tok_amount(&s) < amount {
                            return Err(ProgramError::Custom(1));
                        }
                    }
                    if src.key != dst.key {
                        let v = tok_amount(&src.data.borrow());
                        set_tok_amount(&mut src.data.borrow_mut(), v - amount);
                        let v = tok_amount(&dst.data.borrow());
                        set_tok_amount(&mut dst.data.borrow_mut(), v + amount);
                    }
                }
                7 => {
                    let amount = u64_at(&ix.data, 1);
                    let (mint, dst) = (get(0), get(1));
                    let v = u64_at(&mint.data.borrow(), 36);
                    mint.data.borrow_mut()[36..44].copy_from_slice(&(v + amount).to_le_bytes());
                    let v = tok_amount(&dst.data.borrow());
                    set_tok_amount(&mut dst.data.borrow_mut(), v + amount);
                }
                8 => {
                    let amount = u64_at(&ix.data, 1);
                    let (src, mint) = (get(0), get(1));
                    let v = u64_at(&mint.data.borrow(), 36);
                    mint.data.borrow_mut()[36..44].copy_from_slice(&(v - amount).to_le_bytes());
                    let v = tok_amount(&src.data.borrow());
                    if v < amount {
                        return Err(ProgramError::Custom(1));
                    }
                    set_tok_amount(&mut src.data.borrow_mut(), v - amount);
                }
                6 => {
                    // SetAuthority: type, option, key
                    let a = get(0);
                    let mut d = a.data.borrow_mut();
                    if ix.data[1] == 0 {
                        if ix.data[2] == 1 {
                            d[0..4].copy_from_slice(&1u32.to_le_bytes());
                            d[4..36].copy_from_slice(&ix.data[3..35]);
                        } else {
                            d[0..4].copy_from_slice(&0u32.to_le_bytes());
                        }
                    }
                }
                18 => {
                    let (acc, mint) = (get(0), get(1));
                    let mut d = acc.data.borrow_mut();
                    d[..32].copy_from_slice(mint.key.as_ref());
                    d[32..64].copy_from_slice(&ix.data[1..33]);
                    d[108] = 1;
                }
                20 => {
                    let m = get(0);
                    let mut d = m.data.borrow_mut();
                    d[0..4].copy_from_slice(&1u32.to_le_bytes());
                    d[4..36].copy_from_slice(&ix.data[2..34]);
                    d[44] = ix.data[1];
                    d[45] = 1;
                }
                _ => {}
            }
        }
        Ok(())
    }
}

pub fn init() {
    set_syscall_stubs(Box::new(Stubs));
}

pub fn set_time(t: i64, slot: u64) {
    NOW.with(|n| *n.borrow_mut() = (t, slot));
}

pub struct Vm {
    pub acc: HashMap<Pubkey, Acc>,
    pub cpis: Vec<Cpi>,
}

/// the loader's layout of one account, with what follows the discriminator aligned to 16 bytes
fn lay_out(key: Pubkey, a: &Acc, s: bool, w: bool) -> AccountInfo<'static> {
    let n = 96 + a.data.len() + 10240;
    let buf: &'static mut [u128] = Box::leak(vec![0u128; n / 16 + 2].into_boxed_slice());
    unsafe {
        // dup, signer, writable, executable, u32 length, key, owner, lamports, length, data
        let p = buf.as_mut_ptr() as *mut u8;
        *(p.add(4) as *mut u32) = a.data.len() as u32;
        std::ptr::copy_nonoverlapping(key.as_ref().as_ptr(), p.add(8), 32);
        std::ptr::copy_nonoverlapping(a.owner.as_ref().as_ptr(), p.add(40), 32);
        *(p.add(72) as *mut u64) = a.lamports;
        *(p.add(80) as *mut u64) = a.data.len() as u64;
        let d = p.add(88);
        std::ptr::copy_nonoverlapping(a.data.as_ptr(), d, a.data.len());
        AccountInfo {
            key: &*(p.add(8) as *const Pubkey),
            owner: &*(p.add(40) as *const Pubkey),
            lamports: Rc::new(RefCell::new(&mut *(p.add(72) as *mut u64))),
            data: Rc::new(RefCell::new(std::slice::from_raw_parts_mut(d, a.data.len()))),
            is_signer: s,
            is_writable: w,
            executable: a.executable,
            rent_epoch: 0,
        }
    }
}

impl Vm {
    pub fn new() -> Vm {
        init();
        let mut v = Vm { acc: HashMap::new(), cpis: vec![] };
        for p in [
            token_program(),
            anchor_spl::token_2022::ID,
            anchor_lang::system_program::ID,
            anchor_spl::associated_token::ID,
            dbc::ID,
        ] {
            v.acc.insert(p, Acc { executable: true, lamports: 1, ..Default::default() });
        }
        v.acc.insert(event_authority(), Acc { lamports: 1, ..Default::default() });
        v.acc.insert(pool_authority(), Acc { lamports: 1_000_000_000_000, ..Default::default() });
        v
    }

    /// one instruction; on success the changed accounts are kept, on failure nothing is
    pub fn run(&mut self, metas: Vec<AccountMeta>, data: Vec<u8>) -> std::result::Result<(), String> {
        let mut infos: Vec<AccountInfo<'static>> = vec![];
        for m in metas.iter() {
            if let Some(i) = infos.iter().position(|a| *a.key == m.pubkey) {
                let a = infos[i].clone();
                infos.push(a);
                continue;
            }
            // the flags are those of all mentions together
            let s = metas.iter().any(|x| x.pubkey == m.pubkey && x.is_signer);
            let w = metas.iter().any(|x| x.pubkey == m.pubkey && x.is_writable);
            let a = self.acc.get(&m.pubkey).cloned().unwrap_or_default();
            infos.push(lay_out(m.pubkey, &a, s, w));
        }
        let infos: &'static Vec<AccountInfo<'static>> = Box::leak(Box::new(infos));
        let pid: &'static Pubkey = Box::leak(Box::new(dbc::ID));
        let data: &'static [u8] = Box::leak(data.into_boxed_slice());
        CPIS.with(|c| c.borrow_mut().clear());
        let prev = std::panic::take_hook();
        if std::env::var("VM_LOG").is_err() {
            std::panic::set_hook(Box::new(|_| {}));
        }
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| dbc::entry(pid, infos, data)));
        std::panic::set_hook(prev);
        self.cpis = CPIS.with(|c| c.borrow().clone());
        match r {
            Err(_) => return Err("panic".into()),
            Ok(Err(e)) => return Err(format!("{e:?}")),
            Ok(Ok(())) => (),
        }
        for a in infos.iter() {
            let e = self.acc.entry(*a.key).or_default();
            let d = a.data.borrow().to_vec();
            if !a.is_writable && (e.data != d || e.lamports != a.lamports()) {
                return Err("a read-only account was changed".into());
            }
            e.owner = *a.owner;
            e.lamports = a.lamports();
            e.data = d;
        }
        Ok(())
    }

    pub fn zc<T: bytemuck::Pod + anchor_lang::Discriminator>(&self, k: &Pubkey) -> T {
        bytemuck::pod_read_unaligned(&self.acc[k].data[8..8 + std::mem::size_of::<T>()])
    }
    pub fn put_zc<T: bytemuck::Pod + anchor_lang::Discriminator>(&mut self, k: Pubkey, v: &T) {
        let mut d = T::DISCRIMINATOR.to_vec();
        d.extend_from_slice(bytemuck::bytes_of(v));
        let lam = self.acc.get(&k).map(|a| a.lamports).unwrap_or(Rent::default().minimum_balance(d.len()));
        self.acc.insert(k, Acc { owner: dbc::ID, lamports: lam, data: d, executable: false });
    }
    pub fn pool(&self, k: &Pubkey) -> dbc::state::VirtualPool {
        self.zc(k)
    }
    pub fn config(&self, k: &Pubkey) -> dbc::state::PoolConfig {
        self.zc(k)
    }
    pub fn mint(&mut self, k: Pubkey, decimals: u8, supply: u64) {
        let mut d = vec![0u8; 82];
        d[36..44].copy_from_slice(&supply.to_le_bytes());
        d[44] = decimals;
        d[45] = 1;
        self.acc.insert(k, Acc { owner: token_program(), lamports: 1_461_600, data: d, executable: false });
    }
    pub fn token(&mut self, k: Pubkey, mint: Pubkey, owner: Pubkey, amount: u64) {
        let mut d = vec![0u8; 165];
        d[..32].copy_from_slice(mint.as_ref());
        d[32..64].copy_from_slice(owner.as_ref());
        set_tok_amount(&mut d, amount);
        d[108] = 1;
        self.acc.insert(k, Acc { owner: token_program(), lamports: 2_039_280, data: d, executable: false });
    }
    pub fn wallet(&mut self, k: Pubkey) -> Pubkey {
        self.acc.insert(k, Acc { lamports: 100_000_000_000, ..Default::default() });
        k
    }
    pub fn balance(&self, k: &Pubkey) -> u64 {
        tok_amount(&self.acc[k].data)
    }
    /// the data of the emitted events of type E, without their discriminators
    pub fn events<E: anchor_lang::Discriminator + AnchorDeserialize>(&self) -> Vec<E> {
        let mut out = vec![];
        for c in self.cpis.iter().filter(|c| c.program == dbc::ID && c.data.len() >= 16) {
            if &c.data[8..16] == E::DISCRIMINATOR {
                out.push(E::try_from_slice(&c.data[16..]).unwrap())
            }
        }
        out
    }
}

pub fn event_authority() -> Pubkey {
    Pubkey::find_program_address(&[b"__event_authority"], &dbc::ID).0
}
pub fn pool_authority() -> Pubkey {
    dbc::const_pda::pool_authority::ID
}

/// A standing pool: config, mints, vaults and users, with a curve of one segment.
pub struct World {
    pub vm: Vm,
    pub config: Pubkey,
    pub pool: Pubkey,
    pub base_mint: Pubkey,
    pub quote_mint: Pubkey,
    pub base_vault: Pubkey,
    pub quote_vault: Pubkey,
    pub partner: Pubkey,
    pub creator: Pubkey,
    pub leftover: Pubkey,
    pub user: Pubkey,
    pub user_base: Pubkey,
    pub user_quote: Pubkey,
}

pub const THRESHOLD: u64 = 1_000_000_000;
pub const PRICE_ONE: u128 = 1u128 << 64;

impl World {
    pub fn new() -> World {
        let mut vm = Vm::new();
        let (config, pool, base_mint, quote_mint, base_vault, quote_vault) = (key(), key(), key(), key(), key(), key());
        let (partner, creator, leftover, user) = (key(), key(), key(), key());
        for k in [partner, creator, leftover, user] {
            vm.wallet(k);
        }
        vm.mint(base_mint, 6, 1_000_000_000_000);
        vm.mint(quote_mint, 6, 1_000_000_000_000);
        let (user_base, user_quote) = (key(), key());
        vm.token(base_vault, base_mint, pool_authority(), 100_000_000_000);
        vm.token(quote_vault, quote_mint, pool_authority(), 0);
        vm.token(user_base, base_mint, user, 0);
        vm.token(user_quote, quote_mint, user, 1_000_000_000_000);
        let mut c: dbc::state::PoolConfig = bytemuck::Zeroable::zeroed();
        c.quote_mint = quote_mint;
        c.fee_claimer = partner;
        c.leftover_receiver = leftover;
        c.pool_fees.base_fee.cliff_fee_numerator = 10_000_000; // 1%
        c.activation_type = 1;
        c.token_decimal = 6;
        c.creator_trading_fee_percentage = 30;
        c.migration_quote_threshold = THRESHOLD;
        c.migration_base_threshold = 1_000_000;
        c.sqrt_start_price = PRICE_ONE;
        c.migration_sqrt_price = PRICE_ONE * 2;
        c.curve[0].sqrt_price = PRICE_ONE * 2;
        c.curve[0].liquidity = 2_000_000_000u128 << 64;
        vm.put_zc(config, &c);
        let mut p: dbc::state::VirtualPool = bytemuck::Zeroable::zeroed();
        p.config = config;
        p.creator = creator;
        p.base_mint = base_mint;
        p.base_vault = base_vault;
        p.quote_vault = quote_vault;
        p.base_reserve = 100_000_000_000;
        p.sqrt_price = PRICE_ONE;
        vm.put_zc(pool, &p);
        World {
            vm, config, pool, base_mint, quote_mint, base_vault, quote_vault, partner, creator, leftover, user,
            user_base, user_quote,
        }
    }
    pub fn p(&self) -> dbc::state::VirtualPool {
        self.vm.pool(&self.pool)
    }
    pub fn c(&self) -> dbc::state::PoolConfig {
        self.vm.config(&self.config)
    }
    pub fn edit_pool(&mut self, f: impl FnOnce(&mut dbc::state::VirtualPool)) {
        let mut p = self.p();
        f(&mut p);
        self.vm.put_zc(self.pool, &p);
    }
    pub fn edit_config(&mut self, f: impl FnOnce(&mut dbc::state::PoolConfig)) {
        let mut c = self.c();
        f(&mut c);
        self.vm.put_zc(self.config, &c);
    }
    pub fn swap_accounts(&self, buy: bool, referral: Option<Pubkey>) -> dbc::accounts::SwapCtx {
        let (i, o) = if buy { (self.user_quote, self.user_base) } else { (self.user_base, self.user_quote) };
        dbc::accounts::SwapCtx {
            pool_authority: pool_authority(),
            config: self.config,
            pool: self.pool,
            input_token_account: i,
            output_token_account: o,
            base_vault: self.base_vault,
            quote_vault: self.quote_vault,
            base_mint: self.base_mint,
            quote_mint: self.quote_mint,
            payer: self.user,
            token_base_program: token_program(),
            token_quote_program: token_program(),
            referral_token_account: referral,
            event_authority: event_authority(),
            program: dbc::ID,
        }
    }
    /// mode: 0 exact in, 1 partial fill, 2 exact out
    pub fn swap2(&mut self, buy: bool, a0: u64, a1: u64, mode: u8, referral: Option<Pubkey>) -> std::result::Result<(), String> {
        let metas = self.swap_accounts(buy, referral).to_account_metas(None);
        let data = dbc::instruction::Swap2 {
            params: dbc::SwapParameters2 { amount_0: a0, amount_1: a1, swap_mode: mode },
        }
        .data();
        self.vm.run(metas, data)
    }
    /// a token account for the given owner
    pub fn account(&mut self, mint: Pubkey, owner: Pubkey) -> Pubkey {
        let k = key();
        self.vm.token(k, mint, owner, 0);
        k
    }
}

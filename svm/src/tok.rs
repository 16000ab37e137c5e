//! SPL token account and mint images.
use crate::AccData;
use solana_program::{program_option::COption, program_pack::Pack, pubkey::Pubkey};
use spl_token::state::{Account, AccountState, Mint};

pub fn mint(authority: Option<Pubkey>, freeze: Option<Pubkey>, supply: u64) -> AccData {
    let m = Mint {
        mint_authority: authority.map_or(COption::None, COption::Some),
        supply,
        decimals: 6,
        is_initialized: true,
        freeze_authority: freeze.map_or(COption::None, COption::Some),
    };
    let mut d = vec![0; Mint::LEN];
    m.pack_into_slice(&mut d);
    AccData::owned(spl_token::ID, d)
}

pub fn account(mint: Pubkey, owner: Pubkey, amount: u64) -> AccData {
    pack(&Account {
        mint,
        owner,
        amount,
        state: AccountState::Initialized,
        ..Account::default()
    })
}

pub fn pack(a: &Account) -> AccData {
    let mut d = vec![0; Account::LEN];
    a.pack_into_slice(&mut d);
    AccData::owned(spl_token::ID, d)
}

/// A genuine, initialized token account
pub fn read(a: &AccData) -> Option<Account> {
    if a.owner != spl_token::ID {
        return None;
    }
    Account::unpack(&a.data).ok()
}

pub fn read_mint(a: &AccData) -> Option<Mint> {
    if a.owner != spl_token::ID {
        return None;
    }
    Mint::unpack(&a.data).ok()
}

pub fn amount(a: &AccData) -> u64 {
    read(a).map_or(0, |x| x.amount)
}

pub fn with_amount(a: &AccData, amount: u64) -> AccData {
    let mut x = read(a).unwrap();
    x.amount = amount;
    let mut r = pack(&x);
    r.lamports = a.lamports;
    r
}

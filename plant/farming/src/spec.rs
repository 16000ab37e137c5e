use svm::solana_program::pubkey::Pubkey;

pub fn disc(name: &str) -> [u8; 8] {
    svm::discriminator("global", name)
}
fn pda(seeds: &[&[u8]]) -> Pubkey {
    Pubkey::find_program_address(seeds, &farming::ID).0
}
pub fn signer_pda(farm: &Pubkey) -> Pubkey {
    pda(&[b"signer", farm.as_ref()])
}
pub fn stake_vault(farm: &Pubkey) -> Pubkey {
    pda(&[b"stake_vault", farm.as_ref()])
}
pub fn harvest_vault(farm: &Pubkey, mint: &Pubkey) -> Pubkey {
    pda(&[b"harvest_vault", farm.as_ref(), mint.as_ref()])
}
pub fn whitelist(src: &Pubkey, dst: &Pubkey) -> Pubkey {
    pda(&[b"whitelist_compounding", src.as_ref(), dst.as_ref()])
}
pub fn farmer_pda(farm: &Pubkey, user: &Pubkey) -> Pubkey {
    pda(&[b"farmer", farm.as_ref(), user.as_ref()])
}

use svm::solana_program::pubkey::Pubkey;

pub fn disc(name: &str) -> [u8; 8] {
    svm::discriminator("global", name)
}
fn pda(seeds: &[&[u8]]) -> Pubkey {
    Pubkey::find_program_address(seeds, &amm::ID).0
}
pub fn signer_pda(pool: &Pubkey) -> Pubkey {
    pda(&[b"signer", pool.as_ref()])
}
pub fn discount_pda(user: &Pubkey) -> Pubkey {
    pda(&[b"discount", user.as_ref()])
}
pub fn settings_pda() -> Pubkey {
    pda(&[b"discount_settings"])
}
pub fn toll_pda() -> Pubkey {
    pda(&[b"toll"])
}

pub const FARM_LEN: usize = 8 + 96 + 10 * (64 + 10 * 24) + 8 + 1000 * 16 + 8;

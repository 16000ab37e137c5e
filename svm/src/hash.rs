//! Fast non-cryptographic 128-bit hash (two independently mixed 64-bit lanes).
pub struct H {
    a: u64,
    b: u64,
}
fn mix(x: u64, y: u64) -> u64 {
    let p = x as u128 * y as u128;
    (p as u64) ^ ((p >> 64) as u64)
}
impl H {
    pub fn new(a: u64, b: u64) -> Self {
        Self { a: a ^ 0x9E3779B97F4A7C15, b: b ^ 0xD1B54A32D192ED03 }
    }
    pub fn u64(&mut self, v: u64) {
        self.a = mix(self.a ^ v, 0xA0761D6478BD642F).wrapping_add(self.a.rotate_left(29));
        self.b = mix(self.b ^ v.rotate_left(32), 0xE7037ED1A0B428DB) ^ self.b.rotate_left(17);
    }
    pub fn u128(&mut self, v: u128) {
        self.u64(v as u64);
        self.u64((v >> 64) as u64);
    }
    pub fn bytes(&mut self, d: &[u8]) {
        self.u64(d.len() as u64);
        let mut c = d.chunks_exact(8);
        for w in &mut c {
            self.u64(u64::from_le_bytes(w.try_into().unwrap()));
        }
        let mut t = [0u8; 8];
        let r = c.remainder();
        t[..r.len()].copy_from_slice(r);
        self.u64(u64::from_le_bytes(t));
    }
    pub fn finish(&self) -> u128 {
        let x = mix(self.a ^ 0x8EBC6AF09C88C6E3, self.b | 1);
        let y = mix(self.b ^ 0x589965CC75374CC3, self.a | 1);
        ((x as u128) << 64) | y as u128
    }
}

//! Keccak-256 with the interface of sha3 0.10.
#[repr(transparent)]
pub struct Output([u8; 32]);
impl<'a> From<&'a mut [u8; 32]> for &'a mut Output {
    fn from(b: &'a mut [u8; 32]) -> Self {
        unsafe { &mut *(b as *mut [u8; 32] as *mut Output) }
    }
}
impl From<Output> for [u8; 32] {
    fn from(o: Output) -> Self {
        o.0
    }
}
impl std::ops::Deref for Output {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        &self.0
    }
}
pub trait Digest: Sized {
    fn new() -> Self;
    fn update(&mut self, data: impl AsRef<[u8]>);
    fn finalize_into(self, out: &mut Output);
    fn finalize(self) -> Output {
        let mut o = Output([0; 32]);
        self.finalize_into(&mut o);
        o
    }
    fn digest(data: impl AsRef<[u8]>) -> Output {
        let mut h = Self::new();
        h.update(data);
        h.finalize()
    }
}
pub struct Keccak256(Vec<u8>);
fn f1600(a: &mut [u64; 25]) {
    const ROT: [u32; 24] = [1, 3, 6, 10, 15, 21, 28, 36, 45, 55, 2, 14, 27, 41, 56, 8, 25, 43, 62, 18, 39, 61, 20, 44];
    const PIL: [usize; 24] = [10, 7, 11, 17, 18, 3, 5, 16, 8, 21, 24, 4, 15, 23, 19, 13, 12, 2, 20, 14, 22, 9, 6, 1];
    let mut lfsr = 1u8;
    for _ in 0..24 {
        let mut c = [0u64; 5];
        for x in 0..5 {
            c[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20];
        }
        for x in 0..5 {
            let d = c[(x + 4) % 5] ^ c[(x + 1) % 5].rotate_left(1);
            for y in 0..5 {
                a[x + 5 * y] ^= d;
            }
        }
        let mut t = a[1];
        for i in 0..24 {
            let b = a[PIL[i]];
            a[PIL[i]] = t.rotate_left(ROT[i]);
            t = b;
        }
        for y in 0..5 {
            let r = [a[5 * y], a[5 * y + 1], a[5 * y + 2], a[5 * y + 3], a[5 * y + 4]];
            for x in 0..5 {
                a[5 * y + x] = r[x] ^ (!r[(x + 1) % 5] & r[(x + 2) % 5]);
            }
        }
        for j in 0..7 {
            if lfsr & 1 != 0 {
                a[0] ^= 1u64 << ((1u32 << j) - 1);
            }
            lfsr = if lfsr & 0x80 != 0 { (lfsr << 1) ^ 0x71 } else { lfsr << 1 };
        }
    }
}
impl Digest for Keccak256 {
    fn new() -> Self {
        Keccak256(Vec::new())
    }
    fn update(&mut self, data: impl AsRef<[u8]>) {
        self.0.extend_from_slice(data.as_ref())
    }
    fn finalize_into(mut self, out: &mut Output) {
        let n = self.0.len();
        self.0.resize((n / 136 + 1) * 136, 0);
        self.0[n] ^= 1;
        let last = self.0.len() - 1;
        self.0[last] ^= 0x80;
        let mut a = [0u64; 25];
        for block in self.0.chunks(136) {
            for (i, w) in block.chunks(8).enumerate() {
                a[i] ^= u64::from_le_bytes(w.try_into().unwrap());
            }
            f1600(&mut a);
        }
        for i in 0..4 {
            out.0[8 * i..8 * i + 8].copy_from_slice(&a[i].to_le_bytes());
        }
    }
}

//! The part of bnum that evmrs uses: 256 and 512 bit unsigned integers.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct BUint<const N: usize>([u64; N]);
pub mod types {
    pub type U256 = super::BUint<4>;
    pub type U512 = super::BUint<8>;
}
pub mod cast {
    pub trait CastFrom<T> {
        fn cast_from(t: T) -> Self;
    }
    impl<const N: usize, const M: usize> CastFrom<super::BUint<M>> for super::BUint<N> {
        fn cast_from(t: super::BUint<M>) -> Self {
            let mut r = [0; N];
            for i in 0..N.min(M) {
                r[i] = t.0[i];
            }
            super::BUint(r)
        }
    }
}
impl<const N: usize> BUint<N> {
    pub const fn from_digits(d: [u64; N]) -> Self {
        BUint(d)
    }
    pub const fn digits(&self) -> &[u64; N] {
        &self.0
    }
    fn ge(&self, o: &Self) -> bool {
        for i in (0..N).rev() {
            if self.0[i] != o.0[i] {
                return self.0[i] > o.0[i];
            }
        }
        true
    }
    fn sub(&mut self, o: &Self) {
        let mut b = false;
        for i in 0..N {
            let (x, b1) = self.0[i].overflowing_sub(o.0[i]);
            let (x, b2) = x.overflowing_sub(b as u64);
            self.0[i] = x;
            b = b1 | b2;
        }
    }
}
impl<const N: usize> std::ops::Add for BUint<N> {
    type Output = Self;
    fn add(self, o: Self) -> Self {
        let mut r = [0; N];
        let mut c = 0u128;
        for i in 0..N {
            c += self.0[i] as u128 + o.0[i] as u128;
            r[i] = c as u64;
            c >>= 64;
        }
        BUint(r)
    }
}
impl<const N: usize> std::ops::Mul for BUint<N> {
    type Output = Self;
    fn mul(self, o: Self) -> Self {
        let mut r = [0u64; N];
        for i in 0..N {
            let mut c = 0u128;
            for j in 0..N - i {
                c += r[i + j] as u128 + self.0[i] as u128 * o.0[j] as u128;
                r[i + j] = c as u64;
                c >>= 64;
            }
        }
        BUint(r)
    }
}
impl<const N: usize> std::ops::Rem for BUint<N> {
    type Output = Self;
    fn rem(self, m: Self) -> Self {
        if m.0 == [0; N] {
            panic!("attempt to calculate remainder with zero divisor");
        }
        let mut r = BUint([0; N]);
        for i in (0..64 * N).rev() {
            let top = r.0[N - 1] >> 63;
            for k in (1..N).rev() {
                r.0[k] = r.0[k] << 1 | r.0[k - 1] >> 63;
            }
            r.0[0] = r.0[0] << 1 | (self.0[i / 64] >> (i % 64) & 1);
            if top == 1 || r.ge(&m) {
                r.sub(&m);
            }
        }
        r
    }
}

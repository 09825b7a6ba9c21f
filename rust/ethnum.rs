//! The part of ethnum that evmrs uses (and its obvious neighbours).
use std::cmp::Ordering;
use std::fmt;
use std::ops::*;
#[derive(Clone, Copy, PartialEq, Eq, Hash, Default)]
#[repr(transparent)]
pub struct U256(pub [u128; 2]);
#[derive(Clone, Copy, PartialEq, Eq, Hash, Default)]
#[repr(transparent)]
pub struct I256(pub [i128; 2]);

impl U256 {
    pub const ZERO: Self = U256([0, 0]);
    pub const ONE: Self = U256([1, 0]);
    pub const MIN: Self = Self::ZERO;
    pub const MAX: Self = U256([u128::MAX, u128::MAX]);
    pub const fn from_words(hi: u128, lo: u128) -> Self {
        U256([lo, hi])
    }
    pub const fn new(v: u128) -> Self {
        U256([v, 0])
    }
    pub const fn as_i256(self) -> I256 {
        I256([self.0[0] as i128, self.0[1] as i128])
    }
    pub const fn as_u64(self) -> u64 {
        self.0[0] as u64
    }
    pub const fn as_u128(self) -> u128 {
        self.0[0]
    }
    pub const fn as_usize(self) -> usize {
        self.0[0] as usize
    }
    pub const fn to_be(self) -> Self {
        U256([self.0[1].swap_bytes(), self.0[0].swap_bytes()])
    }
    pub const fn from_be(v: Self) -> Self {
        v.to_be()
    }
    pub fn to_le_bytes(self) -> [u8; 32] {
        let mut b = [0; 32];
        b[..16].copy_from_slice(&self.0[0].to_le_bytes());
        b[16..].copy_from_slice(&self.0[1].to_le_bytes());
        b
    }
    pub fn to_be_bytes(self) -> [u8; 32] {
        let mut b = self.to_le_bytes();
        b.reverse();
        b
    }
    pub fn from_le_bytes(b: [u8; 32]) -> Self {
        U256([u128::from_le_bytes(b[..16].try_into().unwrap()), u128::from_le_bytes(b[16..].try_into().unwrap())])
    }
    pub fn from_be_bytes(mut b: [u8; 32]) -> Self {
        b.reverse();
        Self::from_le_bytes(b)
    }
    pub const fn leading_zeros(self) -> u32 {
        if self.0[1] != 0 { self.0[1].leading_zeros() } else { 128 + self.0[0].leading_zeros() }
    }
    pub const fn trailing_zeros(self) -> u32 {
        if self.0[0] != 0 { self.0[0].trailing_zeros() } else { 128 + self.0[1].trailing_zeros() }
    }
    pub fn overflowing_add(self, o: Self) -> (Self, bool) {
        let (l, c) = self.0[0].overflowing_add(o.0[0]);
        let (h, c1) = self.0[1].overflowing_add(o.0[1]);
        let (h, c2) = h.overflowing_add(c as u128);
        (U256([l, h]), c1 | c2)
    }
    pub fn overflowing_sub(self, o: Self) -> (Self, bool) {
        let (l, b) = self.0[0].overflowing_sub(o.0[0]);
        let (h, b1) = self.0[1].overflowing_sub(o.0[1]);
        let (h, b2) = h.overflowing_sub(b as u128);
        (U256([l, h]), b1 | b2)
    }
    pub fn wrapping_add(self, o: Self) -> Self {
        self.overflowing_add(o).0
    }
    pub fn wrapping_sub(self, o: Self) -> Self {
        self.overflowing_sub(o).0
    }
    pub fn checked_add(self, o: Self) -> Option<Self> {
        let (r, c) = self.overflowing_add(o);
        if c { None } else { Some(r) }
    }
    pub fn checked_sub(self, o: Self) -> Option<Self> {
        let (r, c) = self.overflowing_sub(o);
        if c { None } else { Some(r) }
    }
    pub fn saturating_sub(self, o: Self) -> Self {
        self.checked_sub(o).unwrap_or(Self::ZERO)
    }
    fn limbs(self) -> [u64; 4] {
        [self.0[0] as u64, (self.0[0] >> 64) as u64, self.0[1] as u64, (self.0[1] >> 64) as u64]
    }
    fn of(l: [u64; 4]) -> Self {
        U256([l[0] as u128 | (l[1] as u128) << 64, l[2] as u128 | (l[3] as u128) << 64])
    }
    pub fn wrapping_mul(self, o: Self) -> Self {
        let (a, b) = (self.limbs(), o.limbs());
        let mut r = [0u64; 4];
        for i in 0..4 {
            let mut c = 0u128;
            for j in 0..4 - i {
                c += r[i + j] as u128 + a[i] as u128 * b[j] as u128;
                r[i + j] = c as u64;
                c >>= 64;
            }
        }
        Self::of(r)
    }
    fn divrem(self, d: Self) -> (Self, Self) {
        if d == Self::ZERO {
            panic!("attempt to divide by zero");
        }
        if self.0[1] == 0 && d.0[1] == 0 {
            return (U256([self.0[0] / d.0[0], 0]), U256([self.0[0] % d.0[0], 0]));
        }
        let (mut q, mut r) = (Self::ZERO, Self::ZERO);
        let n = 256 - self.leading_zeros();
        for i in (0..n).rev() {
            let top = r.0[1] >> 127 == 1;
            r = r.wrapping_shl(1);
            r.0[0] |= self.wrapping_shr(i).0[0] & 1;
            if top || r >= d {
                r = r.wrapping_sub(d);
                q.0[(i / 128) as usize] |= 1 << (i % 128);
            }
        }
        (q, r)
    }
    pub fn wrapping_div(self, o: Self) -> Self {
        self.divrem(o).0
    }
    pub fn wrapping_rem(self, o: Self) -> Self {
        self.divrem(o).1
    }
    pub fn wrapping_shl(self, s: u32) -> Self {
        match s & 255 {
            0 => self,
            s if s < 128 => U256([self.0[0] << s, self.0[1] << s | self.0[0] >> (128 - s)]),
            s => U256([0, self.0[0] << (s - 128)]),
        }
    }
    pub fn wrapping_shr(self, s: u32) -> Self {
        match s & 255 {
            0 => self,
            s if s < 128 => U256([self.0[0] >> s | self.0[1] << (128 - s), self.0[1] >> s]),
            s => U256([self.0[1] >> (s - 128), 0]),
        }
    }
    fn neg(self) -> Self {
        Self::ZERO.wrapping_sub(self)
    }
}
impl I256 {
    pub const fn as_u256(self) -> U256 {
        U256([self.0[0] as u128, self.0[1] as u128])
    }
    pub const fn is_negative(self) -> bool {
        self.0[1] < 0
    }
    fn abs(self) -> U256 {
        if self.is_negative() { self.as_u256().neg() } else { self.as_u256() }
    }
    pub fn wrapping_div(self, o: Self) -> Self {
        let q = self.abs().wrapping_div(o.abs());
        if self.is_negative() != o.is_negative() { q.neg().as_i256() } else { q.as_i256() }
    }
    pub fn wrapping_rem(self, o: Self) -> Self {
        let r = self.abs().wrapping_rem(o.abs());
        if self.is_negative() { r.neg().as_i256() } else { r.as_i256() }
    }
    pub fn wrapping_shr(self, s: u32) -> Self {
        let s = s & 255;
        let r = self.as_u256().wrapping_shr(s);
        if self.is_negative() && s > 0 { (r | U256::MAX.wrapping_shl(256 - s)).as_i256() } else { r.as_i256() }
    }
}
impl Ord for U256 {
    fn cmp(&self, o: &Self) -> Ordering {
        (self.0[1], self.0[0]).cmp(&(o.0[1], o.0[0]))
    }
}
impl PartialOrd for U256 {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for I256 {
    fn cmp(&self, o: &Self) -> Ordering {
        (self.0[1], self.0[0] as u128).cmp(&(o.0[1], o.0[0] as u128))
    }
}
impl PartialOrd for I256 {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
macro_rules! bit {
    ($($t:ident $f:ident $ta:ident $fa:ident $op:tt),*) => { $(
        impl $t for U256 { type Output = Self; fn $f(self, o: Self) -> Self { U256([self.0[0] $op o.0[0], self.0[1] $op o.0[1]]) } }
        impl $ta for U256 { fn $fa(&mut self, o: Self) { *self = *self $op o; } }
    )* };
}
bit!(BitAnd bitand BitAndAssign bitand_assign &, BitOr bitor BitOrAssign bitor_assign |, BitXor bitxor BitXorAssign bitxor_assign ^);
impl Not for U256 {
    type Output = Self;
    fn not(self) -> Self {
        U256([!self.0[0], !self.0[1]])
    }
}
macro_rules! shifts {
    ($($t:ty),*) => { $(
        impl Shl<$t> for U256 { type Output = Self; fn shl(self, s: $t) -> Self { if s as u64 > 255 { U256::ZERO } else { self.wrapping_shl(s as u32) } } }
        impl Shr<$t> for U256 { type Output = Self; fn shr(self, s: $t) -> Self { if s as u64 > 255 { U256::ZERO } else { self.wrapping_shr(s as u32) } } }
        impl ShlAssign<$t> for U256 { fn shl_assign(&mut self, s: $t) { *self = *self << s; } }
        impl ShrAssign<$t> for U256 { fn shr_assign(&mut self, s: $t) { *self = *self >> s; } }
    )* };
}
shifts!(u8, u16, u32, u64, usize, i32, i64);
macro_rules! arith {
    ($($t:ident $f:ident $ta:ident $fa:ident $w:ident),*) => { $(
        impl $t for U256 { type Output = Self; fn $f(self, o: Self) -> Self { self.$w(o) } }
        impl $ta for U256 { fn $fa(&mut self, o: Self) { *self = self.$w(o); } }
    )* };
}
arith!(Add add AddAssign add_assign wrapping_add, Sub sub SubAssign sub_assign wrapping_sub, Mul mul MulAssign mul_assign wrapping_mul,
       Div div DivAssign div_assign wrapping_div, Rem rem RemAssign rem_assign wrapping_rem);
macro_rules! from {
    ($($t:ty),*) => { $( impl From<$t> for U256 { fn from(v: $t) -> Self { U256([v as u128, 0]) } } )* };
}
from!(bool, u8, u16, u32, u64, u128);
impl fmt::Display for U256 {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let mut s = Vec::new();
        let mut v = *self;
        while v != U256::ZERO || s.is_empty() {
            let (q, r) = v.divrem(U256::from(10u8));
            s.push(b'0' + r.0[0] as u8);
            v = q;
        }
        s.reverse();
        f.pad_integral(true, "", std::str::from_utf8(&s).unwrap())
    }
}
impl fmt::Debug for U256 {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Display::fmt(self, f)
    }
}
impl fmt::LowerHex for U256 {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let s = if self.0[1] != 0 { format!("{:x}{:032x}", self.0[1], self.0[0]) } else { format!("{:x}", self.0[0]) };
        f.pad_integral(true, "0x", &s)
    }
}
impl fmt::Debug for I256 {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if self.is_negative() { write!(f, "-")?; }
        fmt::Display::fmt(&self.abs(), f)
    }
}

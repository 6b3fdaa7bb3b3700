//! Numbers as raw bits.
pub trait Raw: Sized {
    fn raw(self) -> u128;
    fn of(v: u128) -> Self;
}
macro_rules! raw_int { ($($t:ty, $u:ty);*) => { $(impl Raw for $t { fn raw(self) -> u128 { self as $u as u128 } fn of(v: u128) -> Self { v as $t } })* } }
raw_int!(u8,u8; u16,u16; u32,u32; u64,u64; u128,u128; usize,usize; i8,u8; i16,u16; i32,u32; i64,u64; i128,u128; isize,usize);
impl Raw for f32 { fn raw(self) -> u128 { self.to_bits() as u128 } fn of(v: u128) -> Self { f32::from_bits(v as u32) } }
impl Raw for f64 { fn raw(self) -> u128 { self.to_bits() as u128 } fn of(v: u128) -> Self { f64::from_bits(v as u64) } }
impl Raw for bool { fn raw(self) -> u128 { self as u128 } fn of(v: u128) -> Self { v != 0 } }

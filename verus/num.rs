global size_of usize == 8;
// Integer operations as trait methods with their mathematical meaning; bodies written by tool/gen_num.py.
// Proved here: casts between all widths and signs, checked and wrapping operations, unsigned saturating
// operations, min, max, clamp, leading_zeros of u8 to u64. Assumed (external_body) and executed against
// the standard library by audit/: signed saturating operations, leading_zeros of the other types,
// from_le_bytes and from_be_bytes.
pub open spec fn wrap_u(x: int, m: int) -> int { if 0 <= x < m { x } else { wrapped_u(x, m) } }
#[verifier::opaque]
pub open spec fn wrapped_u(x: int, m: int) -> int { x % m }
pub open spec fn wrap_s(x: int, m: int) -> int { if -(m / 2) <= x < m / 2 { x } else { wrapped_s(x, m) } }
#[verifier::opaque]
pub open spec fn wrapped_s(x: int, m: int) -> int { let y = x % m; if y < m / 2 { y } else { y - m } }
pub open spec fn sat(x: int, lo: int, hi: int) -> int { if x < lo { lo } else if x > hi { hi } else { x } }
#[verifier::opaque]
pub open spec fn lz(x: int, bits: int) -> int decreases bits { if bits <= 0 { 0 } else if x >= pow2i(bits - 1) { 0 } else { 1 + lz(x, bits - 1) } }
#[verifier::opaque]
pub open spec fn pow2i(n: int) -> int decreases n { if n <= 0 { 1 } else { 2 * pow2i(n - 1) } }

pub trait Num: Sized {
    spec fn iv(self) -> int;
    spec fn lo() -> int;
    spec fn hi() -> int;
    spec fn bits() -> int;
    fn as_u8_(self) -> (r: u8) ensures r as int == wrap_u(self.iv(), 0x100);
    fn as_u16_(self) -> (r: u16) ensures r as int == wrap_u(self.iv(), 0x10000);
    fn as_u32_(self) -> (r: u32) ensures r as int == wrap_u(self.iv(), 0x100000000);
    fn as_u64_(self) -> (r: u64) ensures r as int == wrap_u(self.iv(), 0x10000000000000000);
    fn as_usize_(self) -> (r: usize) ensures r as int == wrap_u(self.iv(), 0x10000000000000000);
    fn as_i8_(self) -> (r: i8) ensures r as int == wrap_s(self.iv(), 0x100);
    fn as_i16_(self) -> (r: i16) ensures r as int == wrap_s(self.iv(), 0x10000);
    fn as_i32_(self) -> (r: i32) ensures r as int == wrap_s(self.iv(), 0x100000000);
    fn as_i64_(self) -> (r: i64) ensures r as int == wrap_s(self.iv(), 0x10000000000000000);
    fn as_isize_(self) -> (r: isize) ensures r as int == wrap_s(self.iv(), 0x10000000000000000);
    fn min_(self, o: Self) -> (r: Self) ensures r.iv() == (if self.iv() <= o.iv() { self.iv() } else { o.iv() });
    fn max_(self, o: Self) -> (r: Self) ensures r.iv() == (if self.iv() >= o.iv() { self.iv() } else { o.iv() });
    fn clamp_(self, a: Self, b: Self) -> (r: Self) requires a.iv() <= b.iv() ensures r.iv() == (if self.iv() < a.iv() { a.iv() } else if self.iv() > b.iv() { b.iv() } else { self.iv() });
    fn saturating_add_(self, o: Self) -> (r: Self) ensures r.iv() == sat(self.iv() + o.iv(), Self::lo(), Self::hi());
    fn saturating_sub_(self, o: Self) -> (r: Self) ensures r.iv() == sat(self.iv() - o.iv(), Self::lo(), Self::hi());
    fn saturating_mul_(self, o: Self) -> (r: Self) ensures r.iv() == sat(self.iv() * o.iv(), Self::lo(), Self::hi());
    fn wrapping_add_(self, o: Self) -> (r: Self) ensures r.iv() == (if Self::lo() < 0 { wrap_s(self.iv() + o.iv(), Self::hi() - Self::lo() + 1) } else { wrap_u(self.iv() + o.iv(), Self::hi() + 1) });
    fn wrapping_sub_(self, o: Self) -> (r: Self) ensures r.iv() == (if Self::lo() < 0 { wrap_s(self.iv() - o.iv(), Self::hi() - Self::lo() + 1) } else { wrap_u(self.iv() - o.iv(), Self::hi() + 1) });
    fn checked_add_(self, o: Self) -> (r: Option<Self>) ensures (r is Some) == (Self::lo() <= self.iv() + o.iv() <= Self::hi()), r is Some ==> r->Some_0.iv() == self.iv() + o.iv();
    fn checked_sub_(self, o: Self) -> (r: Option<Self>) ensures (r is Some) == (Self::lo() <= self.iv() - o.iv() <= Self::hi()), r is Some ==> r->Some_0.iv() == self.iv() - o.iv();
    fn checked_mul_(self, o: Self) -> (r: Option<Self>) ensures (r is Some) == (Self::lo() <= self.iv() * o.iv() <= Self::hi()), r is Some ==> r->Some_0.iv() == self.iv() * o.iv();
    fn leading_zeros_(self) -> (r: u32) ensures self.iv() >= 0 ==> r as int == lz(self.iv(), Self::bits());
}
impl Num for u8 {
    open spec fn iv(self) -> int { self as int }
    open spec fn lo() -> int { 0 }
    open spec fn hi() -> int { 255 }
    open spec fn bits() -> int { 8 }
    fn as_u8_(self) -> (r: u8) { self as u8 }
    fn as_u16_(self) -> (r: u16) { self as u16 }
    fn as_u32_(self) -> (r: u32) { self as u32 }
    fn as_u64_(self) -> (r: u64) { self as u64 }
    fn as_usize_(self) -> (r: usize) { self as usize }
    fn as_i8_(self) -> (r: i8) { let x = self; proof { reveal(wrapped_s); assert((x < 128 ==> (x as i8) == x) && (x >= 128 ==> (x as i8) == (x) - 256)) by (bit_vector); } #[verifier::truncate](x as i8) }
    fn as_i16_(self) -> (r: i16) { self as i16 }
    fn as_i32_(self) -> (r: i32) { self as i32 }
    fn as_i64_(self) -> (r: i64) { self as i64 }
    fn as_isize_(self) -> (r: isize) { self as isize }
    fn min_(self, o: Self) -> (r: Self) { if self <= o { self } else { o } }
    fn max_(self, o: Self) -> (r: Self) { if self >= o { self } else { o } }
    fn clamp_(self, a: Self, b: Self) -> (r: Self) { if self < a { a } else if self > b { b } else { self } }
    fn saturating_add_(self, o: Self) -> (r: Self) { self.saturating_add(o) }
    fn saturating_sub_(self, o: Self) -> (r: Self) { self.saturating_sub(o) }
    fn saturating_mul_(self, o: Self) -> (r: Self) { self.saturating_mul(o) }
    fn wrapping_add_(self, o: Self) -> (r: Self) { proof { reveal(wrapped_u); } self.wrapping_add(o) }
    fn wrapping_sub_(self, o: Self) -> (r: Self) { proof { reveal(wrapped_u); } self.wrapping_sub(o) }
    fn checked_add_(self, o: Self) -> (r: Option<Self>) { self.checked_add(o) }
    fn checked_sub_(self, o: Self) -> (r: Option<Self>) { self.checked_sub(o) }
    fn checked_mul_(self, o: Self) -> (r: Option<Self>) { self.checked_mul(o) }
    fn leading_zeros_(self) -> (r: u32) { proof { lemma_lz_u8(self); } self.leading_zeros() }
}
impl Num for u16 {
    open spec fn iv(self) -> int { self as int }
    open spec fn lo() -> int { 0 }
    open spec fn hi() -> int { 65535 }
    open spec fn bits() -> int { 16 }
    fn as_u8_(self) -> (r: u8) { let x = self; proof { reveal(wrapped_u); assert((x as u8) as u16 == x % 256) by (bit_vector); } #[verifier::truncate](x as u8) }
    fn as_u16_(self) -> (r: u16) { self as u16 }
    fn as_u32_(self) -> (r: u32) { self as u32 }
    fn as_u64_(self) -> (r: u64) { self as u64 }
    fn as_usize_(self) -> (r: usize) { self as usize }
    fn as_i8_(self) -> (r: i8) { let x = self; proof { reveal(wrapped_s); assert((x % 256 < 128 ==> (x as i8) == x % 256) && (x % 256 >= 128 ==> (x as i8) == (x % 256) - 256)) by (bit_vector); } #[verifier::truncate](x as i8) }
    fn as_i16_(self) -> (r: i16) { let x = self; proof { reveal(wrapped_s); assert((x < 32768 ==> (x as i16) == x) && (x >= 32768 ==> (x as i16) == (x) - 65536)) by (bit_vector); } #[verifier::truncate](x as i16) }
    fn as_i32_(self) -> (r: i32) { self as i32 }
    fn as_i64_(self) -> (r: i64) { self as i64 }
    fn as_isize_(self) -> (r: isize) { self as isize }
    fn min_(self, o: Self) -> (r: Self) { if self <= o { self } else { o } }
    fn max_(self, o: Self) -> (r: Self) { if self >= o { self } else { o } }
    fn clamp_(self, a: Self, b: Self) -> (r: Self) { if self < a { a } else if self > b { b } else { self } }
    fn saturating_add_(self, o: Self) -> (r: Self) { self.saturating_add(o) }
    fn saturating_sub_(self, o: Self) -> (r: Self) { self.saturating_sub(o) }
    fn saturating_mul_(self, o: Self) -> (r: Self) { self.saturating_mul(o) }
    fn wrapping_add_(self, o: Self) -> (r: Self) { proof { reveal(wrapped_u); } self.wrapping_add(o) }
    fn wrapping_sub_(self, o: Self) -> (r: Self) { proof { reveal(wrapped_u); } self.wrapping_sub(o) }
    fn checked_add_(self, o: Self) -> (r: Option<Self>) { self.checked_add(o) }
    fn checked_sub_(self, o: Self) -> (r: Option<Self>) { self.checked_sub(o) }
    fn checked_mul_(self, o: Self) -> (r: Option<Self>) { self.checked_mul(o) }
    fn leading_zeros_(self) -> (r: u32) { proof { lemma_lz_u16(self); } self.leading_zeros() }
}
impl Num for u32 {
    open spec fn iv(self) -> int { self as int }
    open spec fn lo() -> int { 0 }
    open spec fn hi() -> int { 4294967295 }
    open spec fn bits() -> int { 32 }
    fn as_u8_(self) -> (r: u8) { let x = self; proof { reveal(wrapped_u); assert((x as u8) as u32 == x % 256) by (bit_vector); } #[verifier::truncate](x as u8) }
    fn as_u16_(self) -> (r: u16) { let x = self; proof { reveal(wrapped_u); assert((x as u16) as u32 == x % 65536) by (bit_vector); } #[verifier::truncate](x as u16) }
    fn as_u32_(self) -> (r: u32) { self as u32 }
    fn as_u64_(self) -> (r: u64) { self as u64 }
    fn as_usize_(self) -> (r: usize) { self as usize }
    fn as_i8_(self) -> (r: i8) { let x = self; proof { reveal(wrapped_s); assert((x % 256 < 128 ==> (x as i8) == x % 256) && (x % 256 >= 128 ==> (x as i8) == (x % 256) - 256)) by (bit_vector); } #[verifier::truncate](x as i8) }
    fn as_i16_(self) -> (r: i16) { let x = self; proof { reveal(wrapped_s); assert((x % 65536 < 32768 ==> (x as i16) == x % 65536) && (x % 65536 >= 32768 ==> (x as i16) == (x % 65536) - 65536)) by (bit_vector); } #[verifier::truncate](x as i16) }
    fn as_i32_(self) -> (r: i32) { let x = self; proof { reveal(wrapped_s); assert((x < 2147483648 ==> (x as i32) == x) && (x >= 2147483648 ==> (x as i32) == (x) - 4294967296)) by (bit_vector); } #[verifier::truncate](x as i32) }
    fn as_i64_(self) -> (r: i64) { self as i64 }
    fn as_isize_(self) -> (r: isize) { self as isize }
    fn min_(self, o: Self) -> (r: Self) { if self <= o { self } else { o } }
    fn max_(self, o: Self) -> (r: Self) { if self >= o { self } else { o } }
    fn clamp_(self, a: Self, b: Self) -> (r: Self) { if self < a { a } else if self > b { b } else { self } }
    fn saturating_add_(self, o: Self) -> (r: Self) { self.saturating_add(o) }
    fn saturating_sub_(self, o: Self) -> (r: Self) { self.saturating_sub(o) }
    fn saturating_mul_(self, o: Self) -> (r: Self) { self.saturating_mul(o) }
    fn wrapping_add_(self, o: Self) -> (r: Self) { proof { reveal(wrapped_u); } self.wrapping_add(o) }
    fn wrapping_sub_(self, o: Self) -> (r: Self) { proof { reveal(wrapped_u); } self.wrapping_sub(o) }
    fn checked_add_(self, o: Self) -> (r: Option<Self>) { self.checked_add(o) }
    fn checked_sub_(self, o: Self) -> (r: Option<Self>) { self.checked_sub(o) }
    fn checked_mul_(self, o: Self) -> (r: Option<Self>) { self.checked_mul(o) }
    fn leading_zeros_(self) -> (r: u32) { proof { lemma_lz_u32(self); } self.leading_zeros() }
}
impl Num for u64 {
    open spec fn iv(self) -> int { self as int }
    open spec fn lo() -> int { 0 }
    open spec fn hi() -> int { 18446744073709551615 }
    open spec fn bits() -> int { 64 }
    fn as_u8_(self) -> (r: u8) { let x = self; proof { reveal(wrapped_u); assert((x as u8) as u64 == x % 256) by (bit_vector); } #[verifier::truncate](x as u8) }
    fn as_u16_(self) -> (r: u16) { let x = self; proof { reveal(wrapped_u); assert((x as u16) as u64 == x % 65536) by (bit_vector); } #[verifier::truncate](x as u16) }
    fn as_u32_(self) -> (r: u32) { let x = self; proof { reveal(wrapped_u); assert((x as u32) as u64 == x % 4294967296) by (bit_vector); } #[verifier::truncate](x as u32) }
    fn as_u64_(self) -> (r: u64) { self as u64 }
    fn as_usize_(self) -> (r: usize) { self as usize }
    fn as_i8_(self) -> (r: i8) { let x = self; proof { reveal(wrapped_s); assert((x % 256 < 128 ==> (x as i8) == x % 256) && (x % 256 >= 128 ==> (x as i8) == (x % 256) - 256)) by (bit_vector); } #[verifier::truncate](x as i8) }
    fn as_i16_(self) -> (r: i16) { let x = self; proof { reveal(wrapped_s); assert((x % 65536 < 32768 ==> (x as i16) == x % 65536) && (x % 65536 >= 32768 ==> (x as i16) == (x % 65536) - 65536)) by (bit_vector); } #[verifier::truncate](x as i16) }
    fn as_i32_(self) -> (r: i32) { let x = self; proof { reveal(wrapped_s); assert((x % 4294967296 < 2147483648 ==> (x as i32) == x % 4294967296) && (x % 4294967296 >= 2147483648 ==> (x as i32) == (x % 4294967296) - 4294967296)) by (bit_vector); } #[verifier::truncate](x as i32) }
    fn as_i64_(self) -> (r: i64) { let x = self; proof { reveal(wrapped_s); assert((x < 9223372036854775808 ==> (x as i64) == x) && (x >= 9223372036854775808 ==> (x as i64) == (x) - 18446744073709551616)) by (bit_vector); } #[verifier::truncate](x as i64) }
    fn as_isize_(self) -> (r: isize) { let x = self; proof { reveal(wrapped_s); assert((x < 9223372036854775808 ==> (x as isize) == x) && (x >= 9223372036854775808 ==> (x as isize) == (x) - 18446744073709551616)) by (bit_vector); } #[verifier::truncate](x as isize) }
    fn min_(self, o: Self) -> (r: Self) { if self <= o { self } else { o } }
    fn max_(self, o: Self) -> (r: Self) { if self >= o { self } else { o } }
    fn clamp_(self, a: Self, b: Self) -> (r: Self) { if self < a { a } else if self > b { b } else { self } }
    fn saturating_add_(self, o: Self) -> (r: Self) { self.saturating_add(o) }
    fn saturating_sub_(self, o: Self) -> (r: Self) { self.saturating_sub(o) }
    fn saturating_mul_(self, o: Self) -> (r: Self) { self.saturating_mul(o) }
    fn wrapping_add_(self, o: Self) -> (r: Self) { proof { reveal(wrapped_u); } self.wrapping_add(o) }
    fn wrapping_sub_(self, o: Self) -> (r: Self) { proof { reveal(wrapped_u); } self.wrapping_sub(o) }
    fn checked_add_(self, o: Self) -> (r: Option<Self>) { self.checked_add(o) }
    fn checked_sub_(self, o: Self) -> (r: Option<Self>) { self.checked_sub(o) }
    fn checked_mul_(self, o: Self) -> (r: Option<Self>) { self.checked_mul(o) }
    fn leading_zeros_(self) -> (r: u32) { proof { lemma_lz_u64(self); } self.leading_zeros() }
}
impl Num for usize {
    open spec fn iv(self) -> int { self as int }
    open spec fn lo() -> int { 0 }
    open spec fn hi() -> int { 18446744073709551615 }
    open spec fn bits() -> int { 64 }
    fn as_u8_(self) -> (r: u8) { let x = self; proof { reveal(wrapped_u); assert((x as u8) as usize == x % 256) by (bit_vector); } #[verifier::truncate](x as u8) }
    fn as_u16_(self) -> (r: u16) { let x = self; proof { reveal(wrapped_u); assert((x as u16) as usize == x % 65536) by (bit_vector); } #[verifier::truncate](x as u16) }
    fn as_u32_(self) -> (r: u32) { let x = self; proof { reveal(wrapped_u); assert((x as u32) as usize == x % 4294967296) by (bit_vector); } #[verifier::truncate](x as u32) }
    fn as_u64_(self) -> (r: u64) { self as u64 }
    fn as_usize_(self) -> (r: usize) { self as usize }
    fn as_i8_(self) -> (r: i8) { let x = self; proof { reveal(wrapped_s); assert((x % 256 < 128 ==> (x as i8) == x % 256) && (x % 256 >= 128 ==> (x as i8) == (x % 256) - 256)) by (bit_vector); } #[verifier::truncate](x as i8) }
    fn as_i16_(self) -> (r: i16) { let x = self; proof { reveal(wrapped_s); assert((x % 65536 < 32768 ==> (x as i16) == x % 65536) && (x % 65536 >= 32768 ==> (x as i16) == (x % 65536) - 65536)) by (bit_vector); } #[verifier::truncate](x as i16) }
    fn as_i32_(self) -> (r: i32) { let x = self; proof { reveal(wrapped_s); assert((x % 4294967296 < 2147483648 ==> (x as i32) == x % 4294967296) && (x % 4294967296 >= 2147483648 ==> (x as i32) == (x % 4294967296) - 4294967296)) by (bit_vector); } #[verifier::truncate](x as i32) }
    fn as_i64_(self) -> (r: i64) { let x = self; proof { reveal(wrapped_s); assert((x < 9223372036854775808 ==> (x as i64) == x) && (x >= 9223372036854775808 ==> (x as i64) == (x) - 18446744073709551616)) by (bit_vector); } #[verifier::truncate](x as i64) }
    fn as_isize_(self) -> (r: isize) { let x = self; proof { reveal(wrapped_s); assert((x < 9223372036854775808 ==> (x as isize) == x) && (x >= 9223372036854775808 ==> (x as isize) == (x) - 18446744073709551616)) by (bit_vector); } #[verifier::truncate](x as isize) }
    fn min_(self, o: Self) -> (r: Self) { if self <= o { self } else { o } }
    fn max_(self, o: Self) -> (r: Self) { if self >= o { self } else { o } }
    fn clamp_(self, a: Self, b: Self) -> (r: Self) { if self < a { a } else if self > b { b } else { self } }
    fn saturating_add_(self, o: Self) -> (r: Self) { self.saturating_add(o) }
    fn saturating_sub_(self, o: Self) -> (r: Self) { self.saturating_sub(o) }
    fn saturating_mul_(self, o: Self) -> (r: Self) { self.saturating_mul(o) }
    fn wrapping_add_(self, o: Self) -> (r: Self) { proof { reveal(wrapped_u); } self.wrapping_add(o) }
    fn wrapping_sub_(self, o: Self) -> (r: Self) { proof { reveal(wrapped_u); } self.wrapping_sub(o) }
    fn checked_add_(self, o: Self) -> (r: Option<Self>) { self.checked_add(o) }
    fn checked_sub_(self, o: Self) -> (r: Option<Self>) { self.checked_sub(o) }
    fn checked_mul_(self, o: Self) -> (r: Option<Self>) { self.checked_mul(o) }
    #[verifier::external_body] fn leading_zeros_(self) -> (r: u32) { self.leading_zeros() }
}
impl Num for i8 {
    open spec fn iv(self) -> int { self as int }
    open spec fn lo() -> int { -128 }
    open spec fn hi() -> int { 127 }
    open spec fn bits() -> int { 8 }
    fn as_u8_(self) -> (r: u8) { let x = self; proof { reveal(wrapped_u); assert(x < 0 ==> (x as u8) == x + 256) by (bit_vector); assert(x >= 0 ==> (x as u8) == x) by (bit_vector); } #[verifier::truncate](x as u8) }
    fn as_u16_(self) -> (r: u16) { let x = self; proof { reveal(wrapped_u); assert(x < 0 ==> (x as u16) == x + 65536) by (bit_vector); assert(x >= 0 ==> (x as u16) == x) by (bit_vector); } #[verifier::truncate](x as u16) }
    fn as_u32_(self) -> (r: u32) { let x = self; proof { reveal(wrapped_u); assert(x < 0 ==> (x as u32) == x + 4294967296) by (bit_vector); assert(x >= 0 ==> (x as u32) == x) by (bit_vector); } #[verifier::truncate](x as u32) }
    fn as_u64_(self) -> (r: u64) { let x = self; proof { reveal(wrapped_u); assert(x < 0 ==> (x as u64) == x + 18446744073709551616) by (bit_vector); assert(x >= 0 ==> (x as u64) == x) by (bit_vector); } #[verifier::truncate](x as u64) }
    fn as_usize_(self) -> (r: usize) { let x = self; proof { reveal(wrapped_u); assert(x < 0 ==> (x as usize) == x + 18446744073709551616) by (bit_vector); assert(x >= 0 ==> (x as usize) == x) by (bit_vector); } #[verifier::truncate](x as usize) }
    fn as_i8_(self) -> (r: i8) { self as i8 }
    fn as_i16_(self) -> (r: i16) { self as i16 }
    fn as_i32_(self) -> (r: i32) { self as i32 }
    fn as_i64_(self) -> (r: i64) { self as i64 }
    fn as_isize_(self) -> (r: isize) { self as isize }
    fn min_(self, o: Self) -> (r: Self) { if self <= o { self } else { o } }
    fn max_(self, o: Self) -> (r: Self) { if self >= o { self } else { o } }
    fn clamp_(self, a: Self, b: Self) -> (r: Self) { if self < a { a } else if self > b { b } else { self } }
    #[verifier::external_body] fn saturating_add_(self, o: Self) -> (r: Self) { self.saturating_add(o) }
    #[verifier::external_body] fn saturating_sub_(self, o: Self) -> (r: Self) { self.saturating_sub(o) }
    #[verifier::external_body] fn saturating_mul_(self, o: Self) -> (r: Self) { self.saturating_mul(o) }
    fn wrapping_add_(self, o: Self) -> (r: Self) { proof { reveal(wrapped_s); } self.wrapping_add(o) }
    fn wrapping_sub_(self, o: Self) -> (r: Self) { proof { reveal(wrapped_s); } self.wrapping_sub(o) }
    fn checked_add_(self, o: Self) -> (r: Option<Self>) { self.checked_add(o) }
    fn checked_sub_(self, o: Self) -> (r: Option<Self>) { self.checked_sub(o) }
    fn checked_mul_(self, o: Self) -> (r: Option<Self>) { self.checked_mul(o) }
    #[verifier::external_body] fn leading_zeros_(self) -> (r: u32) { self.leading_zeros() }
}
impl Num for i16 {
    open spec fn iv(self) -> int { self as int }
    open spec fn lo() -> int { -32768 }
    open spec fn hi() -> int { 32767 }
    open spec fn bits() -> int { 16 }
    fn as_u8_(self) -> (r: u8) { let x = self; proof { reveal(wrapped_u); assert((x as u8) as i16 == x % 256) by (bit_vector); } #[verifier::truncate](x as u8) }
    fn as_u16_(self) -> (r: u16) { let x = self; proof { reveal(wrapped_u); assert(x < 0 ==> (x as u16) == x + 65536) by (bit_vector); assert(x >= 0 ==> (x as u16) == x) by (bit_vector); } #[verifier::truncate](x as u16) }
    fn as_u32_(self) -> (r: u32) { let x = self; proof { reveal(wrapped_u); assert(x < 0 ==> (x as u32) == x + 4294967296) by (bit_vector); assert(x >= 0 ==> (x as u32) == x) by (bit_vector); } #[verifier::truncate](x as u32) }
    fn as_u64_(self) -> (r: u64) { let x = self; proof { reveal(wrapped_u); assert(x < 0 ==> (x as u64) == x + 18446744073709551616) by (bit_vector); assert(x >= 0 ==> (x as u64) == x) by (bit_vector); } #[verifier::truncate](x as u64) }
    fn as_usize_(self) -> (r: usize) { let x = self; proof { reveal(wrapped_u); assert(x < 0 ==> (x as usize) == x + 18446744073709551616) by (bit_vector); assert(x >= 0 ==> (x as usize) == x) by (bit_vector); } #[verifier::truncate](x as usize) }
    fn as_i8_(self) -> (r: i8) { let x = self; proof { reveal(wrapped_s); assert((x % 256 < 128 ==> (x as i8) == x % 256) && (x % 256 >= 128 ==> (x as i8) == (x % 256) - 256)) by (bit_vector); } #[verifier::truncate](x as i8) }
    fn as_i16_(self) -> (r: i16) { self as i16 }
    fn as_i32_(self) -> (r: i32) { self as i32 }
    fn as_i64_(self) -> (r: i64) { self as i64 }
    fn as_isize_(self) -> (r: isize) { self as isize }
    fn min_(self, o: Self) -> (r: Self) { if self <= o { self } else { o } }
    fn max_(self, o: Self) -> (r: Self) { if self >= o { self } else { o } }
    fn clamp_(self, a: Self, b: Self) -> (r: Self) { if self < a { a } else if self > b { b } else { self } }
    #[verifier::external_body] fn saturating_add_(self, o: Self) -> (r: Self) { self.saturating_add(o) }
    #[verifier::external_body] fn saturating_sub_(self, o: Self) -> (r: Self) { self.saturating_sub(o) }
    #[verifier::external_body] fn saturating_mul_(self, o: Self) -> (r: Self) { self.saturating_mul(o) }
    fn wrapping_add_(self, o: Self) -> (r: Self) { proof { reveal(wrapped_s); } self.wrapping_add(o) }
    fn wrapping_sub_(self, o: Self) -> (r: Self) { proof { reveal(wrapped_s); } self.wrapping_sub(o) }
    fn checked_add_(self, o: Self) -> (r: Option<Self>) { self.checked_add(o) }
    fn checked_sub_(self, o: Self) -> (r: Option<Self>) { self.checked_sub(o) }
    fn checked_mul_(self, o: Self) -> (r: Option<Self>) { self.checked_mul(o) }
    #[verifier::external_body] fn leading_zeros_(self) -> (r: u32) { self.leading_zeros() }
}
impl Num for i32 {
    open spec fn iv(self) -> int { self as int }
    open spec fn lo() -> int { -2147483648 }
    open spec fn hi() -> int { 2147483647 }
    open spec fn bits() -> int { 32 }
    fn as_u8_(self) -> (r: u8) { let x = self; proof { reveal(wrapped_u); assert((x as u8) as i32 == x % 256) by (bit_vector); } #[verifier::truncate](x as u8) }
    fn as_u16_(self) -> (r: u16) { let x = self; proof { reveal(wrapped_u); assert((x as u16) as i32 == x % 65536) by (bit_vector); } #[verifier::truncate](x as u16) }
    fn as_u32_(self) -> (r: u32) { let x = self; proof { reveal(wrapped_u); assert(x < 0 ==> (x as u32) == x + 4294967296) by (bit_vector); assert(x >= 0 ==> (x as u32) == x) by (bit_vector); } #[verifier::truncate](x as u32) }
    fn as_u64_(self) -> (r: u64) { let x = self; proof { reveal(wrapped_u); assert(x < 0 ==> (x as u64) == x + 18446744073709551616) by (bit_vector); assert(x >= 0 ==> (x as u64) == x) by (bit_vector); } #[verifier::truncate](x as u64) }
    fn as_usize_(self) -> (r: usize) { let x = self; proof { reveal(wrapped_u); assert(x < 0 ==> (x as usize) == x + 18446744073709551616) by (bit_vector); assert(x >= 0 ==> (x as usize) == x) by (bit_vector); } #[verifier::truncate](x as usize) }
    fn as_i8_(self) -> (r: i8) { let x = self; proof { reveal(wrapped_s); assert((x % 256 < 128 ==> (x as i8) == x % 256) && (x % 256 >= 128 ==> (x as i8) == (x % 256) - 256)) by (bit_vector); } #[verifier::truncate](x as i8) }
    fn as_i16_(self) -> (r: i16) { let x = self; proof { reveal(wrapped_s); assert((x % 65536 < 32768 ==> (x as i16) == x % 65536) && (x % 65536 >= 32768 ==> (x as i16) == (x % 65536) - 65536)) by (bit_vector); } #[verifier::truncate](x as i16) }
    fn as_i32_(self) -> (r: i32) { self as i32 }
    fn as_i64_(self) -> (r: i64) { self as i64 }
    fn as_isize_(self) -> (r: isize) { self as isize }
    fn min_(self, o: Self) -> (r: Self) { if self <= o { self } else { o } }
    fn max_(self, o: Self) -> (r: Self) { if self >= o { self } else { o } }
    fn clamp_(self, a: Self, b: Self) -> (r: Self) { if self < a { a } else if self > b { b } else { self } }
    #[verifier::external_body] fn saturating_add_(self, o: Self) -> (r: Self) { self.saturating_add(o) }
    #[verifier::external_body] fn saturating_sub_(self, o: Self) -> (r: Self) { self.saturating_sub(o) }
    #[verifier::external_body] fn saturating_mul_(self, o: Self) -> (r: Self) { self.saturating_mul(o) }
    fn wrapping_add_(self, o: Self) -> (r: Self) { proof { reveal(wrapped_s); } self.wrapping_add(o) }
    fn wrapping_sub_(self, o: Self) -> (r: Self) { proof { reveal(wrapped_s); } self.wrapping_sub(o) }
    fn checked_add_(self, o: Self) -> (r: Option<Self>) { self.checked_add(o) }
    fn checked_sub_(self, o: Self) -> (r: Option<Self>) { self.checked_sub(o) }
    fn checked_mul_(self, o: Self) -> (r: Option<Self>) { self.checked_mul(o) }
    #[verifier::external_body] fn leading_zeros_(self) -> (r: u32) { self.leading_zeros() }
}
impl Num for i64 {
    open spec fn iv(self) -> int { self as int }
    open spec fn lo() -> int { -9223372036854775808 }
    open spec fn hi() -> int { 9223372036854775807 }
    open spec fn bits() -> int { 64 }
    fn as_u8_(self) -> (r: u8) { let x = self; proof { reveal(wrapped_u); assert((x as u8) as i64 == x % 256) by (bit_vector); } #[verifier::truncate](x as u8) }
    fn as_u16_(self) -> (r: u16) { let x = self; proof { reveal(wrapped_u); assert((x as u16) as i64 == x % 65536) by (bit_vector); } #[verifier::truncate](x as u16) }
    fn as_u32_(self) -> (r: u32) { let x = self; proof { reveal(wrapped_u); assert((x as u32) as i64 == x % 4294967296) by (bit_vector); } #[verifier::truncate](x as u32) }
    fn as_u64_(self) -> (r: u64) { let x = self; proof { reveal(wrapped_u); assert(x < 0 ==> (x as u64) == x + 18446744073709551616) by (bit_vector); assert(x >= 0 ==> (x as u64) == x) by (bit_vector); } #[verifier::truncate](x as u64) }
    fn as_usize_(self) -> (r: usize) { let x = self; proof { reveal(wrapped_u); assert(x < 0 ==> (x as usize) == x + 18446744073709551616) by (bit_vector); assert(x >= 0 ==> (x as usize) == x) by (bit_vector); } #[verifier::truncate](x as usize) }
    fn as_i8_(self) -> (r: i8) { let x = self; proof { reveal(wrapped_s); assert((x % 256 < 128 ==> (x as i8) == x % 256) && (x % 256 >= 128 ==> (x as i8) == (x % 256) - 256)) by (bit_vector); } #[verifier::truncate](x as i8) }
    fn as_i16_(self) -> (r: i16) { let x = self; proof { reveal(wrapped_s); assert((x % 65536 < 32768 ==> (x as i16) == x % 65536) && (x % 65536 >= 32768 ==> (x as i16) == (x % 65536) - 65536)) by (bit_vector); } #[verifier::truncate](x as i16) }
    fn as_i32_(self) -> (r: i32) { let x = self; proof { reveal(wrapped_s); assert((x % 4294967296 < 2147483648 ==> (x as i32) == x % 4294967296) && (x % 4294967296 >= 2147483648 ==> (x as i32) == (x % 4294967296) - 4294967296)) by (bit_vector); } #[verifier::truncate](x as i32) }
    fn as_i64_(self) -> (r: i64) { self as i64 }
    fn as_isize_(self) -> (r: isize) { self as isize }
    fn min_(self, o: Self) -> (r: Self) { if self <= o { self } else { o } }
    fn max_(self, o: Self) -> (r: Self) { if self >= o { self } else { o } }
    fn clamp_(self, a: Self, b: Self) -> (r: Self) { if self < a { a } else if self > b { b } else { self } }
    #[verifier::external_body] fn saturating_add_(self, o: Self) -> (r: Self) { self.saturating_add(o) }
    #[verifier::external_body] fn saturating_sub_(self, o: Self) -> (r: Self) { self.saturating_sub(o) }
    #[verifier::external_body] fn saturating_mul_(self, o: Self) -> (r: Self) { self.saturating_mul(o) }
    fn wrapping_add_(self, o: Self) -> (r: Self) { proof { reveal(wrapped_s); } self.wrapping_add(o) }
    fn wrapping_sub_(self, o: Self) -> (r: Self) { proof { reveal(wrapped_s); } self.wrapping_sub(o) }
    fn checked_add_(self, o: Self) -> (r: Option<Self>) { self.checked_add(o) }
    fn checked_sub_(self, o: Self) -> (r: Option<Self>) { self.checked_sub(o) }
    fn checked_mul_(self, o: Self) -> (r: Option<Self>) { self.checked_mul(o) }
    #[verifier::external_body] fn leading_zeros_(self) -> (r: u32) { self.leading_zeros() }
}
impl Num for isize {
    open spec fn iv(self) -> int { self as int }
    open spec fn lo() -> int { -9223372036854775808 }
    open spec fn hi() -> int { 9223372036854775807 }
    open spec fn bits() -> int { 64 }
    fn as_u8_(self) -> (r: u8) { let x = self; proof { reveal(wrapped_u); assert((x as u8) as isize == x % 256) by (bit_vector); } #[verifier::truncate](x as u8) }
    fn as_u16_(self) -> (r: u16) { let x = self; proof { reveal(wrapped_u); assert((x as u16) as isize == x % 65536) by (bit_vector); } #[verifier::truncate](x as u16) }
    fn as_u32_(self) -> (r: u32) { let x = self; proof { reveal(wrapped_u); assert((x as u32) as isize == x % 4294967296) by (bit_vector); } #[verifier::truncate](x as u32) }
    fn as_u64_(self) -> (r: u64) { let x = self; proof { reveal(wrapped_u); assert(x < 0 ==> (x as u64) == x + 18446744073709551616) by (bit_vector); assert(x >= 0 ==> (x as u64) == x) by (bit_vector); } #[verifier::truncate](x as u64) }
    fn as_usize_(self) -> (r: usize) { let x = self; proof { reveal(wrapped_u); assert(x < 0 ==> (x as usize) == x + 18446744073709551616) by (bit_vector); assert(x >= 0 ==> (x as usize) == x) by (bit_vector); } #[verifier::truncate](x as usize) }
    fn as_i8_(self) -> (r: i8) { let x = self; proof { reveal(wrapped_s); assert((x % 256 < 128 ==> (x as i8) == x % 256) && (x % 256 >= 128 ==> (x as i8) == (x % 256) - 256)) by (bit_vector); } #[verifier::truncate](x as i8) }
    fn as_i16_(self) -> (r: i16) { let x = self; proof { reveal(wrapped_s); assert((x % 65536 < 32768 ==> (x as i16) == x % 65536) && (x % 65536 >= 32768 ==> (x as i16) == (x % 65536) - 65536)) by (bit_vector); } #[verifier::truncate](x as i16) }
    fn as_i32_(self) -> (r: i32) { let x = self; proof { reveal(wrapped_s); assert((x % 4294967296 < 2147483648 ==> (x as i32) == x % 4294967296) && (x % 4294967296 >= 2147483648 ==> (x as i32) == (x % 4294967296) - 4294967296)) by (bit_vector); } #[verifier::truncate](x as i32) }
    fn as_i64_(self) -> (r: i64) { self as i64 }
    fn as_isize_(self) -> (r: isize) { self as isize }
    fn min_(self, o: Self) -> (r: Self) { if self <= o { self } else { o } }
    fn max_(self, o: Self) -> (r: Self) { if self >= o { self } else { o } }
    fn clamp_(self, a: Self, b: Self) -> (r: Self) { if self < a { a } else if self > b { b } else { self } }
    #[verifier::external_body] fn saturating_add_(self, o: Self) -> (r: Self) { self.saturating_add(o) }
    #[verifier::external_body] fn saturating_sub_(self, o: Self) -> (r: Self) { self.saturating_sub(o) }
    #[verifier::external_body] fn saturating_mul_(self, o: Self) -> (r: Self) { self.saturating_mul(o) }
    fn wrapping_add_(self, o: Self) -> (r: Self) { proof { reveal(wrapped_s); } self.wrapping_add(o) }
    fn wrapping_sub_(self, o: Self) -> (r: Self) { proof { reveal(wrapped_s); } self.wrapping_sub(o) }
    fn checked_add_(self, o: Self) -> (r: Option<Self>) { self.checked_add(o) }
    fn checked_sub_(self, o: Self) -> (r: Option<Self>) { self.checked_sub(o) }
    fn checked_mul_(self, o: Self) -> (r: Option<Self>) { self.checked_mul(o) }
    #[verifier::external_body] fn leading_zeros_(self) -> (r: u32) { self.leading_zeros() }
}
impl Num for bool {
    open spec fn iv(self) -> int { if self { 1 } else { 0 } }
    open spec fn lo() -> int { 0 }
    open spec fn hi() -> int { 1 }
    open spec fn bits() -> int { 1 }
    fn as_u8_(self) -> (r: u8) { if self { 1 } else { 0 } }
    fn as_u16_(self) -> (r: u16) { if self { 1 } else { 0 } }
    fn as_u32_(self) -> (r: u32) { if self { 1 } else { 0 } }
    fn as_u64_(self) -> (r: u64) { if self { 1 } else { 0 } }
    fn as_usize_(self) -> (r: usize) { if self { 1 } else { 0 } }
    fn as_i8_(self) -> (r: i8) { if self { 1 } else { 0 } }
    fn as_i16_(self) -> (r: i16) { if self { 1 } else { 0 } }
    fn as_i32_(self) -> (r: i32) { if self { 1 } else { 0 } }
    fn as_i64_(self) -> (r: i64) { if self { 1 } else { 0 } }
    fn as_isize_(self) -> (r: isize) { if self { 1 } else { 0 } }
    fn min_(self, o: Self) -> (r: Self) { self && o }
    fn max_(self, o: Self) -> (r: Self) { self || o }
    fn saturating_add_(self, o: Self) -> (r: Self) { self || o }
    fn saturating_sub_(self, o: Self) -> (r: Self) { self && !o }
    fn saturating_mul_(self, o: Self) -> (r: Self) { proof { assert(1int * o.iv() == o.iv()); assert(0int * o.iv() == 0int) by (nonlinear_arith); if self { assert(self.iv() == 1int); } else { assert(self.iv() == 0int); } } self && o }
    fn wrapping_add_(self, o: Self) -> (r: Self) { proof { reveal(wrapped_u); assert(2int % 2int == 0int) by (compute); } self != o }
    fn wrapping_sub_(self, o: Self) -> (r: Self) { proof { reveal(wrapped_u); assert((0int - 1int) % 2int == 1int) by (compute); assert(2int % 2int == 0int) by (compute); } self != o }
    fn clamp_(self, a: Self, b: Self) -> (r: Self) { if !self && a { a } else if self && !b { b } else { self } }
    fn checked_add_(self, o: Self) -> (r: Option<Self>) { if self && o { None } else { Some(self || o) } }
    fn checked_sub_(self, o: Self) -> (r: Option<Self>) { if !self && o { None } else { Some(self && !o) } }
    fn checked_mul_(self, o: Self) -> (r: Option<Self>) { proof { assert(1int * o.iv() == o.iv()); assert(0int * o.iv() == 0int) by (nonlinear_arith); if self { assert(self.iv() == 1int); } else { assert(self.iv() == 0int); } } Some(self && o) }
    fn leading_zeros_(self) -> (r: u32) { proof { reveal_with_fuel(lz, 2); reveal_with_fuel(pow2i, 2); } if self { 0 } else { 1 } }
}
#[verifier::external_body]
pub fn u16_from_le_bytes(b: [u8; 2]) -> (r: u16) ensures r as int == le16(b@, 0) { u16::from_le_bytes(b) }
pub open spec fn le16(s: Seq<u8>, p: int) -> int { 1 * (s[p + 0] as int) + 256 * (s[p + 1] as int) }
#[verifier::external_body]
pub fn u32_from_le_bytes(b: [u8; 4]) -> (r: u32) ensures r as int == le32(b@, 0) { u32::from_le_bytes(b) }
pub open spec fn le32(s: Seq<u8>, p: int) -> int { 1 * (s[p + 0] as int) + 256 * (s[p + 1] as int) + 65536 * (s[p + 2] as int) + 16777216 * (s[p + 3] as int) }
#[verifier::external_body]
pub fn u64_from_le_bytes(b: [u8; 8]) -> (r: u64) ensures r as int == le64(b@, 0) { u64::from_le_bytes(b) }
pub open spec fn le64(s: Seq<u8>, p: int) -> int { 1 * (s[p + 0] as int) + 256 * (s[p + 1] as int) + 65536 * (s[p + 2] as int) + 16777216 * (s[p + 3] as int) + 4294967296 * (s[p + 4] as int) + 1099511627776 * (s[p + 5] as int) + 281474976710656 * (s[p + 6] as int) + 72057594037927936 * (s[p + 7] as int) }
#[verifier::external_body]
pub fn u16_from_be_bytes(b: [u8; 2]) -> (r: u16) ensures r as int == be16(b@, 0) { u16::from_be_bytes(b) }
pub open spec fn be16(s: Seq<u8>, p: int) -> int { 256 * (s[p + 0] as int) + 1 * (s[p + 1] as int) }
#[verifier::external_body]
pub fn u32_from_be_bytes(b: [u8; 4]) -> (r: u32) ensures r as int == be32(b@, 0) { u32::from_be_bytes(b) }
pub open spec fn be32(s: Seq<u8>, p: int) -> int { 16777216 * (s[p + 0] as int) + 65536 * (s[p + 1] as int) + 256 * (s[p + 2] as int) + 1 * (s[p + 3] as int) }
#[verifier::external_body]
pub fn u64_from_be_bytes(b: [u8; 8]) -> (r: u64) ensures r as int == be64(b@, 0) { u64::from_be_bytes(b) }
pub open spec fn be64(s: Seq<u8>, p: int) -> int { 72057594037927936 * (s[p + 0] as int) + 281474976710656 * (s[p + 1] as int) + 1099511627776 * (s[p + 2] as int) + 4294967296 * (s[p + 3] as int) + 16777216 * (s[p + 4] as int) + 65536 * (s[p + 5] as int) + 256 * (s[p + 6] as int) + 1 * (s[p + 7] as int) }
// lemmas about leading zeros, generated by tool/gen_num.py
proof fn lemma_lz(x: int, b: int, k: int)
    requires 0 <= k < b, pow2i(b - 1 - k) <= x < pow2i(b - k),
    ensures lz(x, b) == k,
    decreases k,
{
    reveal_with_fuel(lz, 2);
    if k > 0 { lemma_pow2i_mono(b - k, b - 1); lemma_lz(x, b - 1, k - 1); }
}
proof fn lemma_pow2i_mono(a: int, b: int) requires a <= b ensures pow2i(a) <= pow2i(b), 1 <= pow2i(a) decreases b - a, b
{ reveal_with_fuel(pow2i, 2); if a < b { lemma_pow2i_mono(a, b - 1); } else if a > 0 { lemma_pow2i_mono(a - 1, b - 1); } }
proof fn lemma_lz_zero(b: int) requires b >= 0 ensures lz(0, b) == b decreases b
{ reveal_with_fuel(lz, 2); if b > 0 { lemma_pow2i_mono(0, b - 1); reveal_with_fuel(pow2i, 1); lemma_lz_zero(b - 1); } }
proof fn lemma_lz_u8(x: u8)
    ensures lz(x as int, 8) == vstd::std_specs::bits::u8_leading_zeros(x) as int,
{
    vstd::std_specs::bits::axiom_u8_leading_zeros(x);
    let z = vstd::std_specs::bits::u8_leading_zeros(x) as int;
    if x == 0 { lemma_lz_zero(8); }
    else if z == 0 { assert((x >> 7) & 1 != 0 ==> x >= 128) by (bit_vector); assert(pow2i(7) == 128 && pow2i(8) == 256) by (compute); lemma_lz(x as int, 8, 0); }
    else if z == 1 { assert(x >> 7 == 0 ==> x < 128) by (bit_vector); assert((x >> 6) & 1 != 0 ==> x >= 64) by (bit_vector); assert(pow2i(6) == 64 && pow2i(7) == 128) by (compute); lemma_lz(x as int, 8, 1); }
    else if z == 2 { assert(x >> 6 == 0 ==> x < 64) by (bit_vector); assert((x >> 5) & 1 != 0 ==> x >= 32) by (bit_vector); assert(pow2i(5) == 32 && pow2i(6) == 64) by (compute); lemma_lz(x as int, 8, 2); }
    else if z == 3 { assert(x >> 5 == 0 ==> x < 32) by (bit_vector); assert((x >> 4) & 1 != 0 ==> x >= 16) by (bit_vector); assert(pow2i(4) == 16 && pow2i(5) == 32) by (compute); lemma_lz(x as int, 8, 3); }
    else if z == 4 { assert(x >> 4 == 0 ==> x < 16) by (bit_vector); assert((x >> 3) & 1 != 0 ==> x >= 8) by (bit_vector); assert(pow2i(3) == 8 && pow2i(4) == 16) by (compute); lemma_lz(x as int, 8, 4); }
    else if z == 5 { assert(x >> 3 == 0 ==> x < 8) by (bit_vector); assert((x >> 2) & 1 != 0 ==> x >= 4) by (bit_vector); assert(pow2i(2) == 4 && pow2i(3) == 8) by (compute); lemma_lz(x as int, 8, 5); }
    else if z == 6 { assert(x >> 2 == 0 ==> x < 4) by (bit_vector); assert((x >> 1) & 1 != 0 ==> x >= 2) by (bit_vector); assert(pow2i(1) == 2 && pow2i(2) == 4) by (compute); lemma_lz(x as int, 8, 6); }
    else if z == 7 { assert(x >> 1 == 0 ==> x < 2) by (bit_vector); assert((x >> 0) & 1 != 0 ==> x >= 1) by (bit_vector); assert(pow2i(0) == 1 && pow2i(1) == 2) by (compute); lemma_lz(x as int, 8, 7); }
}
proof fn lemma_lz_u16(x: u16)
    ensures lz(x as int, 16) == vstd::std_specs::bits::u16_leading_zeros(x) as int,
{
    vstd::std_specs::bits::axiom_u16_leading_zeros(x);
    let z = vstd::std_specs::bits::u16_leading_zeros(x) as int;
    if x == 0 { lemma_lz_zero(16); }
    else if z == 0 { assert((x >> 15) & 1 != 0 ==> x >= 32768) by (bit_vector); assert(pow2i(15) == 32768 && pow2i(16) == 65536) by (compute); lemma_lz(x as int, 16, 0); }
    else if z == 1 { assert(x >> 15 == 0 ==> x < 32768) by (bit_vector); assert((x >> 14) & 1 != 0 ==> x >= 16384) by (bit_vector); assert(pow2i(14) == 16384 && pow2i(15) == 32768) by (compute); lemma_lz(x as int, 16, 1); }
    else if z == 2 { assert(x >> 14 == 0 ==> x < 16384) by (bit_vector); assert((x >> 13) & 1 != 0 ==> x >= 8192) by (bit_vector); assert(pow2i(13) == 8192 && pow2i(14) == 16384) by (compute); lemma_lz(x as int, 16, 2); }
    else if z == 3 { assert(x >> 13 == 0 ==> x < 8192) by (bit_vector); assert((x >> 12) & 1 != 0 ==> x >= 4096) by (bit_vector); assert(pow2i(12) == 4096 && pow2i(13) == 8192) by (compute); lemma_lz(x as int, 16, 3); }
    else if z == 4 { assert(x >> 12 == 0 ==> x < 4096) by (bit_vector); assert((x >> 11) & 1 != 0 ==> x >= 2048) by (bit_vector); assert(pow2i(11) == 2048 && pow2i(12) == 4096) by (compute); lemma_lz(x as int, 16, 4); }
    else if z == 5 { assert(x >> 11 == 0 ==> x < 2048) by (bit_vector); assert((x >> 10) & 1 != 0 ==> x >= 1024) by (bit_vector); assert(pow2i(10) == 1024 && pow2i(11) == 2048) by (compute); lemma_lz(x as int, 16, 5); }
    else if z == 6 { assert(x >> 10 == 0 ==> x < 1024) by (bit_vector); assert((x >> 9) & 1 != 0 ==> x >= 512) by (bit_vector); assert(pow2i(9) == 512 && pow2i(10) == 1024) by (compute); lemma_lz(x as int, 16, 6); }
    else if z == 7 { assert(x >> 9 == 0 ==> x < 512) by (bit_vector); assert((x >> 8) & 1 != 0 ==> x >= 256) by (bit_vector); assert(pow2i(8) == 256 && pow2i(9) == 512) by (compute); lemma_lz(x as int, 16, 7); }
    else if z == 8 { assert(x >> 8 == 0 ==> x < 256) by (bit_vector); assert((x >> 7) & 1 != 0 ==> x >= 128) by (bit_vector); assert(pow2i(7) == 128 && pow2i(8) == 256) by (compute); lemma_lz(x as int, 16, 8); }
    else if z == 9 { assert(x >> 7 == 0 ==> x < 128) by (bit_vector); assert((x >> 6) & 1 != 0 ==> x >= 64) by (bit_vector); assert(pow2i(6) == 64 && pow2i(7) == 128) by (compute); lemma_lz(x as int, 16, 9); }
    else if z == 10 { assert(x >> 6 == 0 ==> x < 64) by (bit_vector); assert((x >> 5) & 1 != 0 ==> x >= 32) by (bit_vector); assert(pow2i(5) == 32 && pow2i(6) == 64) by (compute); lemma_lz(x as int, 16, 10); }
    else if z == 11 { assert(x >> 5 == 0 ==> x < 32) by (bit_vector); assert((x >> 4) & 1 != 0 ==> x >= 16) by (bit_vector); assert(pow2i(4) == 16 && pow2i(5) == 32) by (compute); lemma_lz(x as int, 16, 11); }
    else if z == 12 { assert(x >> 4 == 0 ==> x < 16) by (bit_vector); assert((x >> 3) & 1 != 0 ==> x >= 8) by (bit_vector); assert(pow2i(3) == 8 && pow2i(4) == 16) by (compute); lemma_lz(x as int, 16, 12); }
    else if z == 13 { assert(x >> 3 == 0 ==> x < 8) by (bit_vector); assert((x >> 2) & 1 != 0 ==> x >= 4) by (bit_vector); assert(pow2i(2) == 4 && pow2i(3) == 8) by (compute); lemma_lz(x as int, 16, 13); }
    else if z == 14 { assert(x >> 2 == 0 ==> x < 4) by (bit_vector); assert((x >> 1) & 1 != 0 ==> x >= 2) by (bit_vector); assert(pow2i(1) == 2 && pow2i(2) == 4) by (compute); lemma_lz(x as int, 16, 14); }
    else if z == 15 { assert(x >> 1 == 0 ==> x < 2) by (bit_vector); assert((x >> 0) & 1 != 0 ==> x >= 1) by (bit_vector); assert(pow2i(0) == 1 && pow2i(1) == 2) by (compute); lemma_lz(x as int, 16, 15); }
}
proof fn lemma_lz_u32(x: u32)
    ensures lz(x as int, 32) == vstd::std_specs::bits::u32_leading_zeros(x) as int,
{
    vstd::std_specs::bits::axiom_u32_leading_zeros(x);
    let z = vstd::std_specs::bits::u32_leading_zeros(x) as int;
    if x == 0 { lemma_lz_zero(32); }
    else if z == 0 { assert((x >> 31) & 1 != 0 ==> x >= 2147483648) by (bit_vector); assert(pow2i(31) == 2147483648 && pow2i(32) == 4294967296) by (compute); lemma_lz(x as int, 32, 0); }
    else if z == 1 { assert(x >> 31 == 0 ==> x < 2147483648) by (bit_vector); assert((x >> 30) & 1 != 0 ==> x >= 1073741824) by (bit_vector); assert(pow2i(30) == 1073741824 && pow2i(31) == 2147483648) by (compute); lemma_lz(x as int, 32, 1); }
    else if z == 2 { assert(x >> 30 == 0 ==> x < 1073741824) by (bit_vector); assert((x >> 29) & 1 != 0 ==> x >= 536870912) by (bit_vector); assert(pow2i(29) == 536870912 && pow2i(30) == 1073741824) by (compute); lemma_lz(x as int, 32, 2); }
    else if z == 3 { assert(x >> 29 == 0 ==> x < 536870912) by (bit_vector); assert((x >> 28) & 1 != 0 ==> x >= 268435456) by (bit_vector); assert(pow2i(28) == 268435456 && pow2i(29) == 536870912) by (compute); lemma_lz(x as int, 32, 3); }
    else if z == 4 { assert(x >> 28 == 0 ==> x < 268435456) by (bit_vector); assert((x >> 27) & 1 != 0 ==> x >= 134217728) by (bit_vector); assert(pow2i(27) == 134217728 && pow2i(28) == 268435456) by (compute); lemma_lz(x as int, 32, 4); }
    else if z == 5 { assert(x >> 27 == 0 ==> x < 134217728) by (bit_vector); assert((x >> 26) & 1 != 0 ==> x >= 67108864) by (bit_vector); assert(pow2i(26) == 67108864 && pow2i(27) == 134217728) by (compute); lemma_lz(x as int, 32, 5); }
    else if z == 6 { assert(x >> 26 == 0 ==> x < 67108864) by (bit_vector); assert((x >> 25) & 1 != 0 ==> x >= 33554432) by (bit_vector); assert(pow2i(25) == 33554432 && pow2i(26) == 67108864) by (compute); lemma_lz(x as int, 32, 6); }
    else if z == 7 { assert(x >> 25 == 0 ==> x < 33554432) by (bit_vector); assert((x >> 24) & 1 != 0 ==> x >= 16777216) by (bit_vector); assert(pow2i(24) == 16777216 && pow2i(25) == 33554432) by (compute); lemma_lz(x as int, 32, 7); }
    else if z == 8 { assert(x >> 24 == 0 ==> x < 16777216) by (bit_vector); assert((x >> 23) & 1 != 0 ==> x >= 8388608) by (bit_vector); assert(pow2i(23) == 8388608 && pow2i(24) == 16777216) by (compute); lemma_lz(x as int, 32, 8); }
    else if z == 9 { assert(x >> 23 == 0 ==> x < 8388608) by (bit_vector); assert((x >> 22) & 1 != 0 ==> x >= 4194304) by (bit_vector); assert(pow2i(22) == 4194304 && pow2i(23) == 8388608) by (compute); lemma_lz(x as int, 32, 9); }
    else if z == 10 { assert(x >> 22 == 0 ==> x < 4194304) by (bit_vector); assert((x >> 21) & 1 != 0 ==> x >= 2097152) by (bit_vector); assert(pow2i(21) == 2097152 && pow2i(22) == 4194304) by (compute); lemma_lz(x as int, 32, 10); }
    else if z == 11 { assert(x >> 21 == 0 ==> x < 2097152) by (bit_vector); assert((x >> 20) & 1 != 0 ==> x >= 1048576) by (bit_vector); assert(pow2i(20) == 1048576 && pow2i(21) == 2097152) by (compute); lemma_lz(x as int, 32, 11); }
    else if z == 12 { assert(x >> 20 == 0 ==> x < 1048576) by (bit_vector); assert((x >> 19) & 1 != 0 ==> x >= 524288) by (bit_vector); assert(pow2i(19) == 524288 && pow2i(20) == 1048576) by (compute); lemma_lz(x as int, 32, 12); }
    else if z == 13 { assert(x >> 19 == 0 ==> x < 524288) by (bit_vector); assert((x >> 18) & 1 != 0 ==> x >= 262144) by (bit_vector); assert(pow2i(18) == 262144 && pow2i(19) == 524288) by (compute); lemma_lz(x as int, 32, 13); }
    else if z == 14 { assert(x >> 18 == 0 ==> x < 262144) by (bit_vector); assert((x >> 17) & 1 != 0 ==> x >= 131072) by (bit_vector); assert(pow2i(17) == 131072 && pow2i(18) == 262144) by (compute); lemma_lz(x as int, 32, 14); }
    else if z == 15 { assert(x >> 17 == 0 ==> x < 131072) by (bit_vector); assert((x >> 16) & 1 != 0 ==> x >= 65536) by (bit_vector); assert(pow2i(16) == 65536 && pow2i(17) == 131072) by (compute); lemma_lz(x as int, 32, 15); }
    else if z == 16 { assert(x >> 16 == 0 ==> x < 65536) by (bit_vector); assert((x >> 15) & 1 != 0 ==> x >= 32768) by (bit_vector); assert(pow2i(15) == 32768 && pow2i(16) == 65536) by (compute); lemma_lz(x as int, 32, 16); }
    else if z == 17 { assert(x >> 15 == 0 ==> x < 32768) by (bit_vector); assert((x >> 14) & 1 != 0 ==> x >= 16384) by (bit_vector); assert(pow2i(14) == 16384 && pow2i(15) == 32768) by (compute); lemma_lz(x as int, 32, 17); }
    else if z == 18 { assert(x >> 14 == 0 ==> x < 16384) by (bit_vector); assert((x >> 13) & 1 != 0 ==> x >= 8192) by (bit_vector); assert(pow2i(13) == 8192 && pow2i(14) == 16384) by (compute); lemma_lz(x as int, 32, 18); }
    else if z == 19 { assert(x >> 13 == 0 ==> x < 8192) by (bit_vector); assert((x >> 12) & 1 != 0 ==> x >= 4096) by (bit_vector); assert(pow2i(12) == 4096 && pow2i(13) == 8192) by (compute); lemma_lz(x as int, 32, 19); }
    else if z == 20 { assert(x >> 12 == 0 ==> x < 4096) by (bit_vector); assert((x >> 11) & 1 != 0 ==> x >= 2048) by (bit_vector); assert(pow2i(11) == 2048 && pow2i(12) == 4096) by (compute); lemma_lz(x as int, 32, 20); }
    else if z == 21 { assert(x >> 11 == 0 ==> x < 2048) by (bit_vector); assert((x >> 10) & 1 != 0 ==> x >= 1024) by (bit_vector); assert(pow2i(10) == 1024 && pow2i(11) == 2048) by (compute); lemma_lz(x as int, 32, 21); }
    else if z == 22 { assert(x >> 10 == 0 ==> x < 1024) by (bit_vector); assert((x >> 9) & 1 != 0 ==> x >= 512) by (bit_vector); assert(pow2i(9) == 512 && pow2i(10) == 1024) by (compute); lemma_lz(x as int, 32, 22); }
    else if z == 23 { assert(x >> 9 == 0 ==> x < 512) by (bit_vector); assert((x >> 8) & 1 != 0 ==> x >= 256) by (bit_vector); assert(pow2i(8) == 256 && pow2i(9) == 512) by (compute); lemma_lz(x as int, 32, 23); }
    else if z == 24 { assert(x >> 8 == 0 ==> x < 256) by (bit_vector); assert((x >> 7) & 1 != 0 ==> x >= 128) by (bit_vector); assert(pow2i(7) == 128 && pow2i(8) == 256) by (compute); lemma_lz(x as int, 32, 24); }
    else if z == 25 { assert(x >> 7 == 0 ==> x < 128) by (bit_vector); assert((x >> 6) & 1 != 0 ==> x >= 64) by (bit_vector); assert(pow2i(6) == 64 && pow2i(7) == 128) by (compute); lemma_lz(x as int, 32, 25); }
    else if z == 26 { assert(x >> 6 == 0 ==> x < 64) by (bit_vector); assert((x >> 5) & 1 != 0 ==> x >= 32) by (bit_vector); assert(pow2i(5) == 32 && pow2i(6) == 64) by (compute); lemma_lz(x as int, 32, 26); }
    else if z == 27 { assert(x >> 5 == 0 ==> x < 32) by (bit_vector); assert((x >> 4) & 1 != 0 ==> x >= 16) by (bit_vector); assert(pow2i(4) == 16 && pow2i(5) == 32) by (compute); lemma_lz(x as int, 32, 27); }
    else if z == 28 { assert(x >> 4 == 0 ==> x < 16) by (bit_vector); assert((x >> 3) & 1 != 0 ==> x >= 8) by (bit_vector); assert(pow2i(3) == 8 && pow2i(4) == 16) by (compute); lemma_lz(x as int, 32, 28); }
    else if z == 29 { assert(x >> 3 == 0 ==> x < 8) by (bit_vector); assert((x >> 2) & 1 != 0 ==> x >= 4) by (bit_vector); assert(pow2i(2) == 4 && pow2i(3) == 8) by (compute); lemma_lz(x as int, 32, 29); }
    else if z == 30 { assert(x >> 2 == 0 ==> x < 4) by (bit_vector); assert((x >> 1) & 1 != 0 ==> x >= 2) by (bit_vector); assert(pow2i(1) == 2 && pow2i(2) == 4) by (compute); lemma_lz(x as int, 32, 30); }
    else if z == 31 { assert(x >> 1 == 0 ==> x < 2) by (bit_vector); assert((x >> 0) & 1 != 0 ==> x >= 1) by (bit_vector); assert(pow2i(0) == 1 && pow2i(1) == 2) by (compute); lemma_lz(x as int, 32, 31); }
}
proof fn lemma_lz_u64(x: u64)
    ensures lz(x as int, 64) == vstd::std_specs::bits::u64_leading_zeros(x) as int,
{
    vstd::std_specs::bits::axiom_u64_leading_zeros(x);
    let z = vstd::std_specs::bits::u64_leading_zeros(x) as int;
    if x == 0 { lemma_lz_zero(64); }
    else if z == 0 { assert((x >> 63) & 1 != 0 ==> x >= 9223372036854775808) by (bit_vector); assert(pow2i(63) == 9223372036854775808 && pow2i(64) == 18446744073709551616) by (compute); lemma_lz(x as int, 64, 0); }
    else if z == 1 { assert(x >> 63 == 0 ==> x < 9223372036854775808) by (bit_vector); assert((x >> 62) & 1 != 0 ==> x >= 4611686018427387904) by (bit_vector); assert(pow2i(62) == 4611686018427387904 && pow2i(63) == 9223372036854775808) by (compute); lemma_lz(x as int, 64, 1); }
    else if z == 2 { assert(x >> 62 == 0 ==> x < 4611686018427387904) by (bit_vector); assert((x >> 61) & 1 != 0 ==> x >= 2305843009213693952) by (bit_vector); assert(pow2i(61) == 2305843009213693952 && pow2i(62) == 4611686018427387904) by (compute); lemma_lz(x as int, 64, 2); }
    else if z == 3 { assert(x >> 61 == 0 ==> x < 2305843009213693952) by (bit_vector); assert((x >> 60) & 1 != 0 ==> x >= 1152921504606846976) by (bit_vector); assert(pow2i(60) == 1152921504606846976 && pow2i(61) == 2305843009213693952) by (compute); lemma_lz(x as int, 64, 3); }
    else if z == 4 { assert(x >> 60 == 0 ==> x < 1152921504606846976) by (bit_vector); assert((x >> 59) & 1 != 0 ==> x >= 576460752303423488) by (bit_vector); assert(pow2i(59) == 576460752303423488 && pow2i(60) == 1152921504606846976) by (compute); lemma_lz(x as int, 64, 4); }
    else if z == 5 { assert(x >> 59 == 0 ==> x < 576460752303423488) by (bit_vector); assert((x >> 58) & 1 != 0 ==> x >= 288230376151711744) by (bit_vector); assert(pow2i(58) == 288230376151711744 && pow2i(59) == 576460752303423488) by (compute); lemma_lz(x as int, 64, 5); }
    else if z == 6 { assert(x >> 58 == 0 ==> x < 288230376151711744) by (bit_vector); assert((x >> 57) & 1 != 0 ==> x >= 144115188075855872) by (bit_vector); assert(pow2i(57) == 144115188075855872 && pow2i(58) == 288230376151711744) by (compute); lemma_lz(x as int, 64, 6); }
    else if z == 7 { assert(x >> 57 == 0 ==> x < 144115188075855872) by (bit_vector); assert((x >> 56) & 1 != 0 ==> x >= 72057594037927936) by (bit_vector); assert(pow2i(56) == 72057594037927936 && pow2i(57) == 144115188075855872) by (compute); lemma_lz(x as int, 64, 7); }
    else if z == 8 { assert(x >> 56 == 0 ==> x < 72057594037927936) by (bit_vector); assert((x >> 55) & 1 != 0 ==> x >= 36028797018963968) by (bit_vector); assert(pow2i(55) == 36028797018963968 && pow2i(56) == 72057594037927936) by (compute); lemma_lz(x as int, 64, 8); }
    else if z == 9 { assert(x >> 55 == 0 ==> x < 36028797018963968) by (bit_vector); assert((x >> 54) & 1 != 0 ==> x >= 18014398509481984) by (bit_vector); assert(pow2i(54) == 18014398509481984 && pow2i(55) == 36028797018963968) by (compute); lemma_lz(x as int, 64, 9); }
    else if z == 10 { assert(x >> 54 == 0 ==> x < 18014398509481984) by (bit_vector); assert((x >> 53) & 1 != 0 ==> x >= 9007199254740992) by (bit_vector); assert(pow2i(53) == 9007199254740992 && pow2i(54) == 18014398509481984) by (compute); lemma_lz(x as int, 64, 10); }
    else if z == 11 { assert(x >> 53 == 0 ==> x < 9007199254740992) by (bit_vector); assert((x >> 52) & 1 != 0 ==> x >= 4503599627370496) by (bit_vector); assert(pow2i(52) == 4503599627370496 && pow2i(53) == 9007199254740992) by (compute); lemma_lz(x as int, 64, 11); }
    else if z == 12 { assert(x >> 52 == 0 ==> x < 4503599627370496) by (bit_vector); assert((x >> 51) & 1 != 0 ==> x >= 2251799813685248) by (bit_vector); assert(pow2i(51) == 2251799813685248 && pow2i(52) == 4503599627370496) by (compute); lemma_lz(x as int, 64, 12); }
    else if z == 13 { assert(x >> 51 == 0 ==> x < 2251799813685248) by (bit_vector); assert((x >> 50) & 1 != 0 ==> x >= 1125899906842624) by (bit_vector); assert(pow2i(50) == 1125899906842624 && pow2i(51) == 2251799813685248) by (compute); lemma_lz(x as int, 64, 13); }
    else if z == 14 { assert(x >> 50 == 0 ==> x < 1125899906842624) by (bit_vector); assert((x >> 49) & 1 != 0 ==> x >= 562949953421312) by (bit_vector); assert(pow2i(49) == 562949953421312 && pow2i(50) == 1125899906842624) by (compute); lemma_lz(x as int, 64, 14); }
    else if z == 15 { assert(x >> 49 == 0 ==> x < 562949953421312) by (bit_vector); assert((x >> 48) & 1 != 0 ==> x >= 281474976710656) by (bit_vector); assert(pow2i(48) == 281474976710656 && pow2i(49) == 562949953421312) by (compute); lemma_lz(x as int, 64, 15); }
    else if z == 16 { assert(x >> 48 == 0 ==> x < 281474976710656) by (bit_vector); assert((x >> 47) & 1 != 0 ==> x >= 140737488355328) by (bit_vector); assert(pow2i(47) == 140737488355328 && pow2i(48) == 281474976710656) by (compute); lemma_lz(x as int, 64, 16); }
    else if z == 17 { assert(x >> 47 == 0 ==> x < 140737488355328) by (bit_vector); assert((x >> 46) & 1 != 0 ==> x >= 70368744177664) by (bit_vector); assert(pow2i(46) == 70368744177664 && pow2i(47) == 140737488355328) by (compute); lemma_lz(x as int, 64, 17); }
    else if z == 18 { assert(x >> 46 == 0 ==> x < 70368744177664) by (bit_vector); assert((x >> 45) & 1 != 0 ==> x >= 35184372088832) by (bit_vector); assert(pow2i(45) == 35184372088832 && pow2i(46) == 70368744177664) by (compute); lemma_lz(x as int, 64, 18); }
    else if z == 19 { assert(x >> 45 == 0 ==> x < 35184372088832) by (bit_vector); assert((x >> 44) & 1 != 0 ==> x >= 17592186044416) by (bit_vector); assert(pow2i(44) == 17592186044416 && pow2i(45) == 35184372088832) by (compute); lemma_lz(x as int, 64, 19); }
    else if z == 20 { assert(x >> 44 == 0 ==> x < 17592186044416) by (bit_vector); assert((x >> 43) & 1 != 0 ==> x >= 8796093022208) by (bit_vector); assert(pow2i(43) == 8796093022208 && pow2i(44) == 17592186044416) by (compute); lemma_lz(x as int, 64, 20); }
    else if z == 21 { assert(x >> 43 == 0 ==> x < 8796093022208) by (bit_vector); assert((x >> 42) & 1 != 0 ==> x >= 4398046511104) by (bit_vector); assert(pow2i(42) == 4398046511104 && pow2i(43) == 8796093022208) by (compute); lemma_lz(x as int, 64, 21); }
    else if z == 22 { assert(x >> 42 == 0 ==> x < 4398046511104) by (bit_vector); assert((x >> 41) & 1 != 0 ==> x >= 2199023255552) by (bit_vector); assert(pow2i(41) == 2199023255552 && pow2i(42) == 4398046511104) by (compute); lemma_lz(x as int, 64, 22); }
    else if z == 23 { assert(x >> 41 == 0 ==> x < 2199023255552) by (bit_vector); assert((x >> 40) & 1 != 0 ==> x >= 1099511627776) by (bit_vector); assert(pow2i(40) == 1099511627776 && pow2i(41) == 2199023255552) by (compute); lemma_lz(x as int, 64, 23); }
    else if z == 24 { assert(x >> 40 == 0 ==> x < 1099511627776) by (bit_vector); assert((x >> 39) & 1 != 0 ==> x >= 549755813888) by (bit_vector); assert(pow2i(39) == 549755813888 && pow2i(40) == 1099511627776) by (compute); lemma_lz(x as int, 64, 24); }
    else if z == 25 { assert(x >> 39 == 0 ==> x < 549755813888) by (bit_vector); assert((x >> 38) & 1 != 0 ==> x >= 274877906944) by (bit_vector); assert(pow2i(38) == 274877906944 && pow2i(39) == 549755813888) by (compute); lemma_lz(x as int, 64, 25); }
    else if z == 26 { assert(x >> 38 == 0 ==> x < 274877906944) by (bit_vector); assert((x >> 37) & 1 != 0 ==> x >= 137438953472) by (bit_vector); assert(pow2i(37) == 137438953472 && pow2i(38) == 274877906944) by (compute); lemma_lz(x as int, 64, 26); }
    else if z == 27 { assert(x >> 37 == 0 ==> x < 137438953472) by (bit_vector); assert((x >> 36) & 1 != 0 ==> x >= 68719476736) by (bit_vector); assert(pow2i(36) == 68719476736 && pow2i(37) == 137438953472) by (compute); lemma_lz(x as int, 64, 27); }
    else if z == 28 { assert(x >> 36 == 0 ==> x < 68719476736) by (bit_vector); assert((x >> 35) & 1 != 0 ==> x >= 34359738368) by (bit_vector); assert(pow2i(35) == 34359738368 && pow2i(36) == 68719476736) by (compute); lemma_lz(x as int, 64, 28); }
    else if z == 29 { assert(x >> 35 == 0 ==> x < 34359738368) by (bit_vector); assert((x >> 34) & 1 != 0 ==> x >= 17179869184) by (bit_vector); assert(pow2i(34) == 17179869184 && pow2i(35) == 34359738368) by (compute); lemma_lz(x as int, 64, 29); }
    else if z == 30 { assert(x >> 34 == 0 ==> x < 17179869184) by (bit_vector); assert((x >> 33) & 1 != 0 ==> x >= 8589934592) by (bit_vector); assert(pow2i(33) == 8589934592 && pow2i(34) == 17179869184) by (compute); lemma_lz(x as int, 64, 30); }
    else if z == 31 { assert(x >> 33 == 0 ==> x < 8589934592) by (bit_vector); assert((x >> 32) & 1 != 0 ==> x >= 4294967296) by (bit_vector); assert(pow2i(32) == 4294967296 && pow2i(33) == 8589934592) by (compute); lemma_lz(x as int, 64, 31); }
    else if z == 32 { assert(x >> 32 == 0 ==> x < 4294967296) by (bit_vector); assert((x >> 31) & 1 != 0 ==> x >= 2147483648) by (bit_vector); assert(pow2i(31) == 2147483648 && pow2i(32) == 4294967296) by (compute); lemma_lz(x as int, 64, 32); }
    else if z == 33 { assert(x >> 31 == 0 ==> x < 2147483648) by (bit_vector); assert((x >> 30) & 1 != 0 ==> x >= 1073741824) by (bit_vector); assert(pow2i(30) == 1073741824 && pow2i(31) == 2147483648) by (compute); lemma_lz(x as int, 64, 33); }
    else if z == 34 { assert(x >> 30 == 0 ==> x < 1073741824) by (bit_vector); assert((x >> 29) & 1 != 0 ==> x >= 536870912) by (bit_vector); assert(pow2i(29) == 536870912 && pow2i(30) == 1073741824) by (compute); lemma_lz(x as int, 64, 34); }
    else if z == 35 { assert(x >> 29 == 0 ==> x < 536870912) by (bit_vector); assert((x >> 28) & 1 != 0 ==> x >= 268435456) by (bit_vector); assert(pow2i(28) == 268435456 && pow2i(29) == 536870912) by (compute); lemma_lz(x as int, 64, 35); }
    else if z == 36 { assert(x >> 28 == 0 ==> x < 268435456) by (bit_vector); assert((x >> 27) & 1 != 0 ==> x >= 134217728) by (bit_vector); assert(pow2i(27) == 134217728 && pow2i(28) == 268435456) by (compute); lemma_lz(x as int, 64, 36); }
    else if z == 37 { assert(x >> 27 == 0 ==> x < 134217728) by (bit_vector); assert((x >> 26) & 1 != 0 ==> x >= 67108864) by (bit_vector); assert(pow2i(26) == 67108864 && pow2i(27) == 134217728) by (compute); lemma_lz(x as int, 64, 37); }
    else if z == 38 { assert(x >> 26 == 0 ==> x < 67108864) by (bit_vector); assert((x >> 25) & 1 != 0 ==> x >= 33554432) by (bit_vector); assert(pow2i(25) == 33554432 && pow2i(26) == 67108864) by (compute); lemma_lz(x as int, 64, 38); }
    else if z == 39 { assert(x >> 25 == 0 ==> x < 33554432) by (bit_vector); assert((x >> 24) & 1 != 0 ==> x >= 16777216) by (bit_vector); assert(pow2i(24) == 16777216 && pow2i(25) == 33554432) by (compute); lemma_lz(x as int, 64, 39); }
    else if z == 40 { assert(x >> 24 == 0 ==> x < 16777216) by (bit_vector); assert((x >> 23) & 1 != 0 ==> x >= 8388608) by (bit_vector); assert(pow2i(23) == 8388608 && pow2i(24) == 16777216) by (compute); lemma_lz(x as int, 64, 40); }
    else if z == 41 { assert(x >> 23 == 0 ==> x < 8388608) by (bit_vector); assert((x >> 22) & 1 != 0 ==> x >= 4194304) by (bit_vector); assert(pow2i(22) == 4194304 && pow2i(23) == 8388608) by (compute); lemma_lz(x as int, 64, 41); }
    else if z == 42 { assert(x >> 22 == 0 ==> x < 4194304) by (bit_vector); assert((x >> 21) & 1 != 0 ==> x >= 2097152) by (bit_vector); assert(pow2i(21) == 2097152 && pow2i(22) == 4194304) by (compute); lemma_lz(x as int, 64, 42); }
    else if z == 43 { assert(x >> 21 == 0 ==> x < 2097152) by (bit_vector); assert((x >> 20) & 1 != 0 ==> x >= 1048576) by (bit_vector); assert(pow2i(20) == 1048576 && pow2i(21) == 2097152) by (compute); lemma_lz(x as int, 64, 43); }
    else if z == 44 { assert(x >> 20 == 0 ==> x < 1048576) by (bit_vector); assert((x >> 19) & 1 != 0 ==> x >= 524288) by (bit_vector); assert(pow2i(19) == 524288 && pow2i(20) == 1048576) by (compute); lemma_lz(x as int, 64, 44); }
    else if z == 45 { assert(x >> 19 == 0 ==> x < 524288) by (bit_vector); assert((x >> 18) & 1 != 0 ==> x >= 262144) by (bit_vector); assert(pow2i(18) == 262144 && pow2i(19) == 524288) by (compute); lemma_lz(x as int, 64, 45); }
    else if z == 46 { assert(x >> 18 == 0 ==> x < 262144) by (bit_vector); assert((x >> 17) & 1 != 0 ==> x >= 131072) by (bit_vector); assert(pow2i(17) == 131072 && pow2i(18) == 262144) by (compute); lemma_lz(x as int, 64, 46); }
    else if z == 47 { assert(x >> 17 == 0 ==> x < 131072) by (bit_vector); assert((x >> 16) & 1 != 0 ==> x >= 65536) by (bit_vector); assert(pow2i(16) == 65536 && pow2i(17) == 131072) by (compute); lemma_lz(x as int, 64, 47); }
    else if z == 48 { assert(x >> 16 == 0 ==> x < 65536) by (bit_vector); assert((x >> 15) & 1 != 0 ==> x >= 32768) by (bit_vector); assert(pow2i(15) == 32768 && pow2i(16) == 65536) by (compute); lemma_lz(x as int, 64, 48); }
    else if z == 49 { assert(x >> 15 == 0 ==> x < 32768) by (bit_vector); assert((x >> 14) & 1 != 0 ==> x >= 16384) by (bit_vector); assert(pow2i(14) == 16384 && pow2i(15) == 32768) by (compute); lemma_lz(x as int, 64, 49); }
    else if z == 50 { assert(x >> 14 == 0 ==> x < 16384) by (bit_vector); assert((x >> 13) & 1 != 0 ==> x >= 8192) by (bit_vector); assert(pow2i(13) == 8192 && pow2i(14) == 16384) by (compute); lemma_lz(x as int, 64, 50); }
    else if z == 51 { assert(x >> 13 == 0 ==> x < 8192) by (bit_vector); assert((x >> 12) & 1 != 0 ==> x >= 4096) by (bit_vector); assert(pow2i(12) == 4096 && pow2i(13) == 8192) by (compute); lemma_lz(x as int, 64, 51); }
    else if z == 52 { assert(x >> 12 == 0 ==> x < 4096) by (bit_vector); assert((x >> 11) & 1 != 0 ==> x >= 2048) by (bit_vector); assert(pow2i(11) == 2048 && pow2i(12) == 4096) by (compute); lemma_lz(x as int, 64, 52); }
    else if z == 53 { assert(x >> 11 == 0 ==> x < 2048) by (bit_vector); assert((x >> 10) & 1 != 0 ==> x >= 1024) by (bit_vector); assert(pow2i(10) == 1024 && pow2i(11) == 2048) by (compute); lemma_lz(x as int, 64, 53); }
    else if z == 54 { assert(x >> 10 == 0 ==> x < 1024) by (bit_vector); assert((x >> 9) & 1 != 0 ==> x >= 512) by (bit_vector); assert(pow2i(9) == 512 && pow2i(10) == 1024) by (compute); lemma_lz(x as int, 64, 54); }
    else if z == 55 { assert(x >> 9 == 0 ==> x < 512) by (bit_vector); assert((x >> 8) & 1 != 0 ==> x >= 256) by (bit_vector); assert(pow2i(8) == 256 && pow2i(9) == 512) by (compute); lemma_lz(x as int, 64, 55); }
    else if z == 56 { assert(x >> 8 == 0 ==> x < 256) by (bit_vector); assert((x >> 7) & 1 != 0 ==> x >= 128) by (bit_vector); assert(pow2i(7) == 128 && pow2i(8) == 256) by (compute); lemma_lz(x as int, 64, 56); }
    else if z == 57 { assert(x >> 7 == 0 ==> x < 128) by (bit_vector); assert((x >> 6) & 1 != 0 ==> x >= 64) by (bit_vector); assert(pow2i(6) == 64 && pow2i(7) == 128) by (compute); lemma_lz(x as int, 64, 57); }
    else if z == 58 { assert(x >> 6 == 0 ==> x < 64) by (bit_vector); assert((x >> 5) & 1 != 0 ==> x >= 32) by (bit_vector); assert(pow2i(5) == 32 && pow2i(6) == 64) by (compute); lemma_lz(x as int, 64, 58); }
    else if z == 59 { assert(x >> 5 == 0 ==> x < 32) by (bit_vector); assert((x >> 4) & 1 != 0 ==> x >= 16) by (bit_vector); assert(pow2i(4) == 16 && pow2i(5) == 32) by (compute); lemma_lz(x as int, 64, 59); }
    else if z == 60 { assert(x >> 4 == 0 ==> x < 16) by (bit_vector); assert((x >> 3) & 1 != 0 ==> x >= 8) by (bit_vector); assert(pow2i(3) == 8 && pow2i(4) == 16) by (compute); lemma_lz(x as int, 64, 60); }
    else if z == 61 { assert(x >> 3 == 0 ==> x < 8) by (bit_vector); assert((x >> 2) & 1 != 0 ==> x >= 4) by (bit_vector); assert(pow2i(2) == 4 && pow2i(3) == 8) by (compute); lemma_lz(x as int, 64, 61); }
    else if z == 62 { assert(x >> 2 == 0 ==> x < 4) by (bit_vector); assert((x >> 1) & 1 != 0 ==> x >= 2) by (bit_vector); assert(pow2i(1) == 2 && pow2i(2) == 4) by (compute); lemma_lz(x as int, 64, 62); }
    else if z == 63 { assert(x >> 1 == 0 ==> x < 2) by (bit_vector); assert((x >> 0) & 1 != 0 ==> x >= 1) by (bit_vector); assert(pow2i(0) == 1 && pow2i(1) == 2) by (compute); lemma_lz(x as int, 64, 63); }
}

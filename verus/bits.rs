// Generated by tool/gen_bits.py. Proved, nothing trusted here.
/// The low k bits of x and its bit k, kept apart from the remainder arithmetic.
#[verifier::opaque]
pub open spec fn lowb(x: int, k: int) -> int { if k <= 0 { 0 } else if k == 1 { x % 2 } else if k == 2 { x % 4 } else if k == 3 { x % 8 } else if k == 4 { x % 16 } else if k == 5 { x % 32 } else if k == 6 { x % 64 } else if k == 7 { x % 128 } else if k == 8 { x % 256 } else if k == 9 { x % 512 } else if k == 10 { x % 1024 } else if k == 11 { x % 2048 } else if k == 12 { x % 4096 } else if k == 13 { x % 8192 } else if k == 14 { x % 16384 } else if k == 15 { x % 32768 } else if k == 16 { x % 65536 } else if k == 17 { x % 131072 } else if k == 18 { x % 262144 } else if k == 19 { x % 524288 } else if k == 20 { x % 1048576 } else if k == 21 { x % 2097152 } else if k == 22 { x % 4194304 } else if k == 23 { x % 8388608 } else if k == 24 { x % 16777216 } else if k == 25 { x % 33554432 } else if k == 26 { x % 67108864 } else if k == 27 { x % 134217728 } else if k == 28 { x % 268435456 } else if k == 29 { x % 536870912 } else if k == 30 { x % 1073741824 } else if k == 31 { x % 2147483648 } else if k == 32 { x % 4294967296 } else { x } }
#[verifier::opaque]
pub open spec fn bitk(x: int, k: int) -> int { if k == 0 { (x / 1) % 2 } else if k == 1 { (x / 2) % 2 } else if k == 2 { (x / 4) % 2 } else if k == 3 { (x / 8) % 2 } else if k == 4 { (x / 16) % 2 } else if k == 5 { (x / 32) % 2 } else if k == 6 { (x / 64) % 2 } else if k == 7 { (x / 128) % 2 } else if k == 8 { (x / 256) % 2 } else if k == 9 { (x / 512) % 2 } else if k == 10 { (x / 1024) % 2 } else if k == 11 { (x / 2048) % 2 } else if k == 12 { (x / 4096) % 2 } else if k == 13 { (x / 8192) % 2 } else if k == 14 { (x / 16384) % 2 } else if k == 15 { (x / 32768) % 2 } else if k == 16 { (x / 65536) % 2 } else if k == 17 { (x / 131072) % 2 } else if k == 18 { (x / 262144) % 2 } else if k == 19 { (x / 524288) % 2 } else if k == 20 { (x / 1048576) % 2 } else if k == 21 { (x / 2097152) % 2 } else if k == 22 { (x / 4194304) % 2 } else if k == 23 { (x / 8388608) % 2 } else if k == 24 { (x / 16777216) % 2 } else if k == 25 { (x / 33554432) % 2 } else if k == 26 { (x / 67108864) % 2 } else if k == 27 { (x / 134217728) % 2 } else if k == 28 { (x / 268435456) % 2 } else if k == 29 { (x / 536870912) % 2 } else if k == 30 { (x / 1073741824) % 2 } else if k == 31 { (x / 2147483648) % 2 } else { 0 } }
pub open spec fn and_half(x: int, y: int, r: int) -> bool {
    r <= x && r <= y
    /*and:0*/ && (y == 0 ==> r == 0 && lowb(x, 0) == 0)
    /*and:1*/ && (y == 1 ==> r == lowb(x, 1))
    /*and:3*/ && (y == 3 ==> r == lowb(x, 2))
    /*and:2*/ && (y == 2 ==> r == bitk(x, 1) * 2)
    /*and:7*/ && (y == 7 ==> r == lowb(x, 3))
    /*and:4*/ && (y == 4 ==> r == bitk(x, 2) * 4)
    /*and:15*/ && (y == 15 ==> r == lowb(x, 4))
    /*and:8*/ && (y == 8 ==> r == bitk(x, 3) * 8)
    /*and:31*/ && (y == 31 ==> r == lowb(x, 5))
    /*and:16*/ && (y == 16 ==> r == bitk(x, 4) * 16)
    /*and:63*/ && (y == 63 ==> r == lowb(x, 6))
    /*and:32*/ && (y == 32 ==> r == bitk(x, 5) * 32)
    /*and:127*/ && (y == 127 ==> r == lowb(x, 7))
    /*and:64*/ && (y == 64 ==> r == bitk(x, 6) * 64)
    /*and:255*/ && (y == 255 ==> r == lowb(x, 8))
    /*and:128*/ && (y == 128 ==> r == bitk(x, 7) * 128)
    /*and:511*/ && (y == 511 ==> r == lowb(x, 9))
    /*and:256*/ && (y == 256 ==> r == bitk(x, 8) * 256)
    /*and:1023*/ && (y == 1023 ==> r == lowb(x, 10))
    /*and:512*/ && (y == 512 ==> r == bitk(x, 9) * 512)
    /*and:2047*/ && (y == 2047 ==> r == lowb(x, 11))
    /*and:1024*/ && (y == 1024 ==> r == bitk(x, 10) * 1024)
    /*and:4095*/ && (y == 4095 ==> r == lowb(x, 12))
    /*and:2048*/ && (y == 2048 ==> r == bitk(x, 11) * 2048)
    /*and:8191*/ && (y == 8191 ==> r == lowb(x, 13))
    /*and:4096*/ && (y == 4096 ==> r == bitk(x, 12) * 4096)
    /*and:16383*/ && (y == 16383 ==> r == lowb(x, 14))
    /*and:8192*/ && (y == 8192 ==> r == bitk(x, 13) * 8192)
    /*and:32767*/ && (y == 32767 ==> r == lowb(x, 15))
    /*and:16384*/ && (y == 16384 ==> r == bitk(x, 14) * 16384)
    /*and:65535*/ && (y == 65535 ==> r == lowb(x, 16))
    /*and:32768*/ && (y == 32768 ==> r == bitk(x, 15) * 32768)
    /*and:131071*/ && (y == 131071 ==> r == lowb(x, 17))
    /*and:65536*/ && (y == 65536 ==> r == bitk(x, 16) * 65536)
    /*and:262143*/ && (y == 262143 ==> r == lowb(x, 18))
    /*and:131072*/ && (y == 131072 ==> r == bitk(x, 17) * 131072)
    /*and:524287*/ && (y == 524287 ==> r == lowb(x, 19))
    /*and:262144*/ && (y == 262144 ==> r == bitk(x, 18) * 262144)
    /*and:1048575*/ && (y == 1048575 ==> r == lowb(x, 20))
    /*and:524288*/ && (y == 524288 ==> r == bitk(x, 19) * 524288)
    /*and:2097151*/ && (y == 2097151 ==> r == lowb(x, 21))
    /*and:1048576*/ && (y == 1048576 ==> r == bitk(x, 20) * 1048576)
    /*and:4194303*/ && (y == 4194303 ==> r == lowb(x, 22))
    /*and:2097152*/ && (y == 2097152 ==> r == bitk(x, 21) * 2097152)
    /*and:8388607*/ && (y == 8388607 ==> r == lowb(x, 23))
    /*and:4194304*/ && (y == 4194304 ==> r == bitk(x, 22) * 4194304)
    /*and:16777215*/ && (y == 16777215 ==> r == lowb(x, 24))
    /*and:8388608*/ && (y == 8388608 ==> r == bitk(x, 23) * 8388608)
    /*and:33554431*/ && (y == 33554431 ==> r == lowb(x, 25))
    /*and:16777216*/ && (y == 16777216 ==> r == bitk(x, 24) * 16777216)
    /*and:67108863*/ && (y == 67108863 ==> r == lowb(x, 26))
    /*and:33554432*/ && (y == 33554432 ==> r == bitk(x, 25) * 33554432)
    /*and:134217727*/ && (y == 134217727 ==> r == lowb(x, 27))
    /*and:67108864*/ && (y == 67108864 ==> r == bitk(x, 26) * 67108864)
    /*and:268435455*/ && (y == 268435455 ==> r == lowb(x, 28))
    /*and:134217728*/ && (y == 134217728 ==> r == bitk(x, 27) * 134217728)
    /*and:536870911*/ && (y == 536870911 ==> r == lowb(x, 29))
    /*and:268435456*/ && (y == 268435456 ==> r == bitk(x, 28) * 268435456)
    /*and:1073741823*/ && (y == 1073741823 ==> r == lowb(x, 30))
    /*and:536870912*/ && (y == 536870912 ==> r == bitk(x, 29) * 536870912)
    /*and:2147483647*/ && (y == 2147483647 ==> r == lowb(x, 31))
    /*and:1073741824*/ && (y == 1073741824 ==> r == bitk(x, 30) * 1073741824)
    /*and:4294967295*/ && (y == 4294967295 ==> r == lowb(x, 32))
    /*and:2147483648*/ && (y == 2147483648 ==> r == bitk(x, 31) * 2147483648)
    /*and:254*/ && (y == 254 ==> r == lowb(x, 8) - lowb(x, 1))
    /*and:252*/ && (y == 252 ==> r == lowb(x, 8) - lowb(x, 2))
    /*and:248*/ && (y == 248 ==> r == lowb(x, 8) - lowb(x, 3))
    /*and:240*/ && (y == 240 ==> r == lowb(x, 8) - lowb(x, 4))
    /*and:224*/ && (y == 224 ==> r == lowb(x, 8) - lowb(x, 5))
    /*and:192*/ && (y == 192 ==> r == lowb(x, 8) - lowb(x, 6))
}
pub open spec fn and_tab(x: int, y: int, r: int) -> bool { and_half(x, y, r) && and_half(y, x, r) }
pub open spec fn or_half(x: int, y: int, r: int) -> bool {
    r >= x && (y == 0 ==> r == x)
    /*or:2*/ && (y < 2 && x % 2 == 0 ==> r == x + y)
    /*or:4*/ && (y < 4 && x % 4 == 0 ==> r == x + y)
    /*or:8*/ && (y < 8 && x % 8 == 0 ==> r == x + y)
    /*or:16*/ && (y < 16 && x % 16 == 0 ==> r == x + y)
    /*or:32*/ && (y < 32 && x % 32 == 0 ==> r == x + y)
    /*or:64*/ && (y < 64 && x % 64 == 0 ==> r == x + y)
    /*or:128*/ && (y < 128 && x % 128 == 0 ==> r == x + y)
    /*or:256*/ && (y < 256 && x % 256 == 0 ==> r == x + y)
    /*or:512*/ && (y < 512 && x % 512 == 0 ==> r == x + y)
    /*or:1024*/ && (y < 1024 && x % 1024 == 0 ==> r == x + y)
    /*or:2048*/ && (y < 2048 && x % 2048 == 0 ==> r == x + y)
    /*or:4096*/ && (y < 4096 && x % 4096 == 0 ==> r == x + y)
    /*or:8192*/ && (y < 8192 && x % 8192 == 0 ==> r == x + y)
    /*or:16384*/ && (y < 16384 && x % 16384 == 0 ==> r == x + y)
    /*or:32768*/ && (y < 32768 && x % 32768 == 0 ==> r == x + y)
    /*or:65536*/ && (y < 65536 && x % 65536 == 0 ==> r == x + y)
    /*or:131072*/ && (y < 131072 && x % 131072 == 0 ==> r == x + y)
    /*or:262144*/ && (y < 262144 && x % 262144 == 0 ==> r == x + y)
    /*or:524288*/ && (y < 524288 && x % 524288 == 0 ==> r == x + y)
    /*or:1048576*/ && (y < 1048576 && x % 1048576 == 0 ==> r == x + y)
    /*or:2097152*/ && (y < 2097152 && x % 2097152 == 0 ==> r == x + y)
    /*or:4194304*/ && (y < 4194304 && x % 4194304 == 0 ==> r == x + y)
    /*or:8388608*/ && (y < 8388608 && x % 8388608 == 0 ==> r == x + y)
    /*or:16777216*/ && (y < 16777216 && x % 16777216 == 0 ==> r == x + y)
    /*or:33554432*/ && (y < 33554432 && x % 33554432 == 0 ==> r == x + y)
    /*or:67108864*/ && (y < 67108864 && x % 67108864 == 0 ==> r == x + y)
    /*or:134217728*/ && (y < 134217728 && x % 134217728 == 0 ==> r == x + y)
    /*or:268435456*/ && (y < 268435456 && x % 268435456 == 0 ==> r == x + y)
    /*or:536870912*/ && (y < 536870912 && x % 536870912 == 0 ==> r == x + y)
    /*or:1073741824*/ && (y < 1073741824 && x % 1073741824 == 0 ==> r == x + y)
    /*or:2147483648*/ && (y < 2147483648 && x % 2147483648 == 0 ==> r == x + y)
    /*or:4294967296*/ && (y < 4294967296 && x % 4294967296 == 0 ==> r == x + y)
    /*or:1099511627776*/ && (y < 1099511627776 && x % 1099511627776 == 0 ==> r == x + y)
    /*or:281474976710656*/ && (y < 281474976710656 && x % 281474976710656 == 0 ==> r == x + y)
    /*or:72057594037927936*/ && (y < 72057594037927936 && x % 72057594037927936 == 0 ==> r == x + y)
}
pub open spec fn or_tab(x: int, y: int, r: int) -> bool { or_half(x, y, r) && or_half(y, x, r) }
pub open spec fn shl_tab(x: int, k: int, w: int, r: int) -> bool {
    r >= 0
    /*shl:0*/ && (k == 0 && x * 1 < w ==> r == x * 1)
    /*shl:1*/ && (k == 1 && x * 2 < w ==> r == x * 2)
    /*shl:2*/ && (k == 2 && x * 4 < w ==> r == x * 4)
    /*shl:3*/ && (k == 3 && x * 8 < w ==> r == x * 8)
    /*shl:4*/ && (k == 4 && x * 16 < w ==> r == x * 16)
    /*shl:5*/ && (k == 5 && x * 32 < w ==> r == x * 32)
    /*shl:6*/ && (k == 6 && x * 64 < w ==> r == x * 64)
    /*shl:7*/ && (k == 7 && x * 128 < w ==> r == x * 128)
    /*shl:8*/ && (k == 8 && x * 256 < w ==> r == x * 256)
    /*shl:9*/ && (k == 9 && x * 512 < w ==> r == x * 512)
    /*shl:10*/ && (k == 10 && x * 1024 < w ==> r == x * 1024)
    /*shl:11*/ && (k == 11 && x * 2048 < w ==> r == x * 2048)
    /*shl:12*/ && (k == 12 && x * 4096 < w ==> r == x * 4096)
    /*shl:13*/ && (k == 13 && x * 8192 < w ==> r == x * 8192)
    /*shl:14*/ && (k == 14 && x * 16384 < w ==> r == x * 16384)
    /*shl:15*/ && (k == 15 && x * 32768 < w ==> r == x * 32768)
    /*shl:16*/ && (k == 16 && x * 65536 < w ==> r == x * 65536)
    /*shl:17*/ && (k == 17 && x * 131072 < w ==> r == x * 131072)
    /*shl:18*/ && (k == 18 && x * 262144 < w ==> r == x * 262144)
    /*shl:19*/ && (k == 19 && x * 524288 < w ==> r == x * 524288)
    /*shl:20*/ && (k == 20 && x * 1048576 < w ==> r == x * 1048576)
    /*shl:21*/ && (k == 21 && x * 2097152 < w ==> r == x * 2097152)
    /*shl:22*/ && (k == 22 && x * 4194304 < w ==> r == x * 4194304)
    /*shl:23*/ && (k == 23 && x * 8388608 < w ==> r == x * 8388608)
    /*shl:24*/ && (k == 24 && x * 16777216 < w ==> r == x * 16777216)
    /*shl:25*/ && (k == 25 && x * 33554432 < w ==> r == x * 33554432)
    /*shl:26*/ && (k == 26 && x * 67108864 < w ==> r == x * 67108864)
    /*shl:27*/ && (k == 27 && x * 134217728 < w ==> r == x * 134217728)
    /*shl:28*/ && (k == 28 && x * 268435456 < w ==> r == x * 268435456)
    /*shl:29*/ && (k == 29 && x * 536870912 < w ==> r == x * 536870912)
    /*shl:30*/ && (k == 30 && x * 1073741824 < w ==> r == x * 1073741824)
    /*shl:31*/ && (k == 31 && x * 2147483648 < w ==> r == x * 2147483648)
    /*shl:32*/ && (k == 32 && x * 4294967296 < w ==> r == x * 4294967296)
    /*shl:40*/ && (k == 40 && x * 1099511627776 < w ==> r == x * 1099511627776)
    /*shl:48*/ && (k == 48 && x * 281474976710656 < w ==> r == x * 281474976710656)
    /*shl:56*/ && (k == 56 && x * 72057594037927936 < w ==> r == x * 72057594037927936)
    /*shl:63*/ && (k == 63 && x * 9223372036854775808 < w ==> r == x * 9223372036854775808)
}
pub open spec fn shr_tab(x: int, k: int, r: int) -> bool {
    r <= x
    /*shr:0*/ && (k == 0 ==> r == x / 1)
    /*shr:1*/ && (k == 1 ==> r == x / 2)
    /*shr:2*/ && (k == 2 ==> r == x / 4)
    /*shr:3*/ && (k == 3 ==> r == x / 8)
    /*shr:4*/ && (k == 4 ==> r == x / 16)
    /*shr:5*/ && (k == 5 ==> r == x / 32)
    /*shr:6*/ && (k == 6 ==> r == x / 64)
    /*shr:7*/ && (k == 7 ==> r == x / 128)
    /*shr:8*/ && (k == 8 ==> r == x / 256)
    /*shr:9*/ && (k == 9 ==> r == x / 512)
    /*shr:10*/ && (k == 10 ==> r == x / 1024)
    /*shr:11*/ && (k == 11 ==> r == x / 2048)
    /*shr:12*/ && (k == 12 ==> r == x / 4096)
    /*shr:13*/ && (k == 13 ==> r == x / 8192)
    /*shr:14*/ && (k == 14 ==> r == x / 16384)
    /*shr:15*/ && (k == 15 ==> r == x / 32768)
    /*shr:16*/ && (k == 16 ==> r == x / 65536)
    /*shr:17*/ && (k == 17 ==> r == x / 131072)
    /*shr:18*/ && (k == 18 ==> r == x / 262144)
    /*shr:19*/ && (k == 19 ==> r == x / 524288)
    /*shr:20*/ && (k == 20 ==> r == x / 1048576)
    /*shr:21*/ && (k == 21 ==> r == x / 2097152)
    /*shr:22*/ && (k == 22 ==> r == x / 4194304)
    /*shr:23*/ && (k == 23 ==> r == x / 8388608)
    /*shr:24*/ && (k == 24 ==> r == x / 16777216)
    /*shr:25*/ && (k == 25 ==> r == x / 33554432)
    /*shr:26*/ && (k == 26 ==> r == x / 67108864)
    /*shr:27*/ && (k == 27 ==> r == x / 134217728)
    /*shr:28*/ && (k == 28 ==> r == x / 268435456)
    /*shr:29*/ && (k == 29 ==> r == x / 536870912)
    /*shr:30*/ && (k == 30 ==> r == x / 1073741824)
    /*shr:31*/ && (k == 31 ==> r == x / 2147483648)
    /*shr:32*/ && (k == 32 ==> r == x / 4294967296)
    /*shr:40*/ && (k == 40 ==> r == x / 1099511627776)
    /*shr:48*/ && (k == 48 ==> r == x / 281474976710656)
    /*shr:56*/ && (k == 56 ==> r == x / 72057594037927936)
    /*shr:63*/ && (k == 63 ==> r == x / 9223372036854775808)
}
proof fn lemma_and_u8_0(x: u8)
    ensures x & 0 == 0, lowb(x as int, 0) == 0,
{
    reveal(lowb); assert(x & 0 == 0) by (bit_vector);
}
proof fn lemma_and_u8_1(x: u8, y: u8)
    ensures y == 1 ==> (x & y) == lowb(x as int, 1),
{
    reveal(lowb); reveal(bitk); assert(x & 1u8 == x % 2u8) by (bit_vector);
}
proof fn lemma_and_u8_2(x: u8, y: u8)
    ensures y == 2 ==> (x & y) == bitk(x as int, 1) * 2,
{
    reveal(lowb); reveal(bitk); assert(x & 2u8 == ((x / 2u8) % 2u8) * 2u8) by (bit_vector);
}
proof fn lemma_and_u8_3(x: u8, y: u8)
    ensures y == 3 ==> (x & y) == lowb(x as int, 2),
{
    reveal(lowb); reveal(bitk); assert(x & 3u8 == x % 4u8) by (bit_vector);
}
proof fn lemma_and_u8_4(x: u8, y: u8)
    ensures y == 4 ==> (x & y) == bitk(x as int, 2) * 4,
{
    reveal(lowb); reveal(bitk); assert(x & 4u8 == ((x / 4u8) % 2u8) * 4u8) by (bit_vector);
}
proof fn lemma_and_u8_7(x: u8, y: u8)
    ensures y == 7 ==> (x & y) == lowb(x as int, 3),
{
    reveal(lowb); reveal(bitk); assert(x & 7u8 == x % 8u8) by (bit_vector);
}
proof fn lemma_and_u8_8(x: u8, y: u8)
    ensures y == 8 ==> (x & y) == bitk(x as int, 3) * 8,
{
    reveal(lowb); reveal(bitk); assert(x & 8u8 == ((x / 8u8) % 2u8) * 8u8) by (bit_vector);
}
proof fn lemma_and_u8_15(x: u8, y: u8)
    ensures y == 15 ==> (x & y) == lowb(x as int, 4),
{
    reveal(lowb); reveal(bitk); assert(x & 15u8 == x % 16u8) by (bit_vector);
}
proof fn lemma_and_u8_16(x: u8, y: u8)
    ensures y == 16 ==> (x & y) == bitk(x as int, 4) * 16,
{
    reveal(lowb); reveal(bitk); assert(x & 16u8 == ((x / 16u8) % 2u8) * 16u8) by (bit_vector);
}
proof fn lemma_and_u8_31(x: u8, y: u8)
    ensures y == 31 ==> (x & y) == lowb(x as int, 5),
{
    reveal(lowb); reveal(bitk); assert(x & 31u8 == x % 32u8) by (bit_vector);
}
proof fn lemma_and_u8_32(x: u8, y: u8)
    ensures y == 32 ==> (x & y) == bitk(x as int, 5) * 32,
{
    reveal(lowb); reveal(bitk); assert(x & 32u8 == ((x / 32u8) % 2u8) * 32u8) by (bit_vector);
}
proof fn lemma_and_u8_63(x: u8, y: u8)
    ensures y == 63 ==> (x & y) == lowb(x as int, 6),
{
    reveal(lowb); reveal(bitk); assert(x & 63u8 == x % 64u8) by (bit_vector);
}
proof fn lemma_and_u8_64(x: u8, y: u8)
    ensures y == 64 ==> (x & y) == bitk(x as int, 6) * 64,
{
    reveal(lowb); reveal(bitk); assert(x & 64u8 == ((x / 64u8) % 2u8) * 64u8) by (bit_vector);
}
proof fn lemma_and_u8_127(x: u8, y: u8)
    ensures y == 127 ==> (x & y) == lowb(x as int, 7),
{
    reveal(lowb); reveal(bitk); assert(x & 127u8 == x % 128u8) by (bit_vector);
}
proof fn lemma_and_u8_128(x: u8, y: u8)
    ensures y == 128 ==> (x & y) == bitk(x as int, 7) * 128,
{
    reveal(lowb); reveal(bitk); assert(x & 128u8 == ((x / 128u8) % 2u8) * 128u8) by (bit_vector);
}
proof fn lemma_and_u8_255(x: u8, y: u8)
    ensures y == 255 ==> (x & y) == lowb(x as int, 8),
{
    reveal(lowb); reveal(bitk); assert(x & 255u8 == x) by (bit_vector);
}
proof fn lemma_and_u8_254(x: u8, y: u8)
    ensures y == 254 ==> (x & y) == lowb(x as int, 8) - lowb(x as int, 1),
{
    reveal(lowb); reveal(bitk); assert(x & 254u8 == sub(x, x % 2u8)) by (bit_vector);
}
proof fn lemma_and_u8_252(x: u8, y: u8)
    ensures y == 252 ==> (x & y) == lowb(x as int, 8) - lowb(x as int, 2),
{
    reveal(lowb); reveal(bitk); assert(x & 252u8 == sub(x, x % 4u8)) by (bit_vector);
}
proof fn lemma_and_u8_248(x: u8, y: u8)
    ensures y == 248 ==> (x & y) == lowb(x as int, 8) - lowb(x as int, 3),
{
    reveal(lowb); reveal(bitk); assert(x & 248u8 == sub(x, x % 8u8)) by (bit_vector);
}
proof fn lemma_and_u8_240(x: u8, y: u8)
    ensures y == 240 ==> (x & y) == lowb(x as int, 8) - lowb(x as int, 4),
{
    reveal(lowb); reveal(bitk); assert(x & 240u8 == sub(x, x % 16u8)) by (bit_vector);
}
proof fn lemma_and_u8_224(x: u8, y: u8)
    ensures y == 224 ==> (x & y) == lowb(x as int, 8) - lowb(x as int, 5),
{
    reveal(lowb); reveal(bitk); assert(x & 224u8 == sub(x, x % 32u8)) by (bit_vector);
}
proof fn lemma_and_u8_192(x: u8, y: u8)
    ensures y == 192 ==> (x & y) == lowb(x as int, 8) - lowb(x as int, 6),
{
    reveal(lowb); reveal(bitk); assert(x & 192u8 == sub(x, x % 64u8)) by (bit_vector);
}
pub proof fn lemma_and_u8(x: u8, y: u8)
    ensures and_half(x as int, y as int, (x & y) as int), (x & y) == (y & x),
{
    assert((x & y) <= x && (x & y) <= y && (x & y) == (y & x)) by (bit_vector);
    lemma_and_u8_0(x);
    lemma_and_u8_1(x, y);
    lemma_and_u8_2(x, y);
    lemma_and_u8_3(x, y);
    lemma_and_u8_4(x, y);
    lemma_and_u8_7(x, y);
    lemma_and_u8_8(x, y);
    lemma_and_u8_15(x, y);
    lemma_and_u8_16(x, y);
    lemma_and_u8_31(x, y);
    lemma_and_u8_32(x, y);
    lemma_and_u8_63(x, y);
    lemma_and_u8_64(x, y);
    lemma_and_u8_127(x, y);
    lemma_and_u8_128(x, y);
    lemma_and_u8_255(x, y);
    lemma_and_u8_254(x, y);
    lemma_and_u8_252(x, y);
    lemma_and_u8_248(x, y);
    lemma_and_u8_240(x, y);
    lemma_and_u8_224(x, y);
    lemma_and_u8_192(x, y);
}
pub proof fn lemma_or_u8(x: u8, y: u8)
    ensures or_half(x as int, y as int, (x | y) as int), (x | y) == (y | x),
{
    assert((x | y) >= x && (x | y) == (y | x)) by (bit_vector);
    assert(x | 0 == x && 0 | x == x) by (bit_vector);
    assert(0u8 | y == y) by (bit_vector);
    assert(y < 2u8 && x % 2u8 == 0 ==> (x | y) == x + y) by (bit_vector);
    assert(y < 4u8 && x % 4u8 == 0 ==> (x | y) == x + y) by (bit_vector);
    assert(y < 8u8 && x % 8u8 == 0 ==> (x | y) == x + y) by (bit_vector);
    assert(y < 16u8 && x % 16u8 == 0 ==> (x | y) == x + y) by (bit_vector);
    assert(y < 32u8 && x % 32u8 == 0 ==> (x | y) == x + y) by (bit_vector);
    assert(y < 64u8 && x % 64u8 == 0 ==> (x | y) == x + y) by (bit_vector);
    assert(y < 128u8 && x % 128u8 == 0 ==> (x | y) == x + y) by (bit_vector);
}
pub proof fn lemma_shr_u8(x: u8, k: u64)
    requires k < 8,
    ensures shr_tab(x as int, k as int, (x >> k) as int),
{
    assert(k < 8 ==> x >> k <= x) by (bit_vector);
    assert(x >> 0 == x / 1u8) by (bit_vector);
    assert(x >> 1 == x / 2u8) by (bit_vector);
    assert(x >> 2 == x / 4u8) by (bit_vector);
    assert(x >> 3 == x / 8u8) by (bit_vector);
    assert(x >> 4 == x / 16u8) by (bit_vector);
    assert(x >> 5 == x / 32u8) by (bit_vector);
    assert(x >> 6 == x / 64u8) by (bit_vector);
    assert(x >> 7 == x / 128u8) by (bit_vector);
}
pub proof fn lemma_shl_u8(x: u8, k: u64)
    requires k < 8,
    ensures shl_tab(x as int, k as int, 256, (x << k) as int),
{
    assert(x << 0 == x) by (bit_vector);
    assert(x < 128u8 ==> x << 1 == x * 2u8) by (bit_vector);
    assert(x < 64u8 ==> x << 2 == x * 4u8) by (bit_vector);
    assert(x < 32u8 ==> x << 3 == x * 8u8) by (bit_vector);
    assert(x < 16u8 ==> x << 4 == x * 16u8) by (bit_vector);
    assert(x < 8u8 ==> x << 5 == x * 32u8) by (bit_vector);
    assert(x < 4u8 ==> x << 6 == x * 64u8) by (bit_vector);
    assert(x < 2u8 ==> x << 7 == x * 128u8) by (bit_vector);
}
proof fn lemma_and_u16_0(x: u16)
    ensures x & 0 == 0, lowb(x as int, 0) == 0,
{
    reveal(lowb); assert(x & 0 == 0) by (bit_vector);
}
proof fn lemma_and_u16_1(x: u16, y: u16)
    ensures y == 1 ==> (x & y) == lowb(x as int, 1),
{
    reveal(lowb); reveal(bitk); assert(x & 1u16 == x % 2u16) by (bit_vector);
}
proof fn lemma_and_u16_2(x: u16, y: u16)
    ensures y == 2 ==> (x & y) == bitk(x as int, 1) * 2,
{
    reveal(lowb); reveal(bitk); assert(x & 2u16 == ((x / 2u16) % 2u16) * 2u16) by (bit_vector);
}
proof fn lemma_and_u16_3(x: u16, y: u16)
    ensures y == 3 ==> (x & y) == lowb(x as int, 2),
{
    reveal(lowb); reveal(bitk); assert(x & 3u16 == x % 4u16) by (bit_vector);
}
proof fn lemma_and_u16_4(x: u16, y: u16)
    ensures y == 4 ==> (x & y) == bitk(x as int, 2) * 4,
{
    reveal(lowb); reveal(bitk); assert(x & 4u16 == ((x / 4u16) % 2u16) * 4u16) by (bit_vector);
}
proof fn lemma_and_u16_7(x: u16, y: u16)
    ensures y == 7 ==> (x & y) == lowb(x as int, 3),
{
    reveal(lowb); reveal(bitk); assert(x & 7u16 == x % 8u16) by (bit_vector);
}
proof fn lemma_and_u16_8(x: u16, y: u16)
    ensures y == 8 ==> (x & y) == bitk(x as int, 3) * 8,
{
    reveal(lowb); reveal(bitk); assert(x & 8u16 == ((x / 8u16) % 2u16) * 8u16) by (bit_vector);
}
proof fn lemma_and_u16_15(x: u16, y: u16)
    ensures y == 15 ==> (x & y) == lowb(x as int, 4),
{
    reveal(lowb); reveal(bitk); assert(x & 15u16 == x % 16u16) by (bit_vector);
}
proof fn lemma_and_u16_16(x: u16, y: u16)
    ensures y == 16 ==> (x & y) == bitk(x as int, 4) * 16,
{
    reveal(lowb); reveal(bitk); assert(x & 16u16 == ((x / 16u16) % 2u16) * 16u16) by (bit_vector);
}
proof fn lemma_and_u16_31(x: u16, y: u16)
    ensures y == 31 ==> (x & y) == lowb(x as int, 5),
{
    reveal(lowb); reveal(bitk); assert(x & 31u16 == x % 32u16) by (bit_vector);
}
proof fn lemma_and_u16_32(x: u16, y: u16)
    ensures y == 32 ==> (x & y) == bitk(x as int, 5) * 32,
{
    reveal(lowb); reveal(bitk); assert(x & 32u16 == ((x / 32u16) % 2u16) * 32u16) by (bit_vector);
}
proof fn lemma_and_u16_63(x: u16, y: u16)
    ensures y == 63 ==> (x & y) == lowb(x as int, 6),
{
    reveal(lowb); reveal(bitk); assert(x & 63u16 == x % 64u16) by (bit_vector);
}
proof fn lemma_and_u16_64(x: u16, y: u16)
    ensures y == 64 ==> (x & y) == bitk(x as int, 6) * 64,
{
    reveal(lowb); reveal(bitk); assert(x & 64u16 == ((x / 64u16) % 2u16) * 64u16) by (bit_vector);
}
proof fn lemma_and_u16_127(x: u16, y: u16)
    ensures y == 127 ==> (x & y) == lowb(x as int, 7),
{
    reveal(lowb); reveal(bitk); assert(x & 127u16 == x % 128u16) by (bit_vector);
}
proof fn lemma_and_u16_128(x: u16, y: u16)
    ensures y == 128 ==> (x & y) == bitk(x as int, 7) * 128,
{
    reveal(lowb); reveal(bitk); assert(x & 128u16 == ((x / 128u16) % 2u16) * 128u16) by (bit_vector);
}
proof fn lemma_and_u16_255(x: u16, y: u16)
    ensures y == 255 ==> (x & y) == lowb(x as int, 8),
{
    reveal(lowb); reveal(bitk); assert(x & 255u16 == x % 256u16) by (bit_vector);
}
proof fn lemma_and_u16_256(x: u16, y: u16)
    ensures y == 256 ==> (x & y) == bitk(x as int, 8) * 256,
{
    reveal(lowb); reveal(bitk); assert(x & 256u16 == ((x / 256u16) % 2u16) * 256u16) by (bit_vector);
}
proof fn lemma_and_u16_511(x: u16, y: u16)
    ensures y == 511 ==> (x & y) == lowb(x as int, 9),
{
    reveal(lowb); reveal(bitk); assert(x & 511u16 == x % 512u16) by (bit_vector);
}
proof fn lemma_and_u16_512(x: u16, y: u16)
    ensures y == 512 ==> (x & y) == bitk(x as int, 9) * 512,
{
    reveal(lowb); reveal(bitk); assert(x & 512u16 == ((x / 512u16) % 2u16) * 512u16) by (bit_vector);
}
proof fn lemma_and_u16_1023(x: u16, y: u16)
    ensures y == 1023 ==> (x & y) == lowb(x as int, 10),
{
    reveal(lowb); reveal(bitk); assert(x & 1023u16 == x % 1024u16) by (bit_vector);
}
proof fn lemma_and_u16_1024(x: u16, y: u16)
    ensures y == 1024 ==> (x & y) == bitk(x as int, 10) * 1024,
{
    reveal(lowb); reveal(bitk); assert(x & 1024u16 == ((x / 1024u16) % 2u16) * 1024u16) by (bit_vector);
}
proof fn lemma_and_u16_2047(x: u16, y: u16)
    ensures y == 2047 ==> (x & y) == lowb(x as int, 11),
{
    reveal(lowb); reveal(bitk); assert(x & 2047u16 == x % 2048u16) by (bit_vector);
}
proof fn lemma_and_u16_2048(x: u16, y: u16)
    ensures y == 2048 ==> (x & y) == bitk(x as int, 11) * 2048,
{
    reveal(lowb); reveal(bitk); assert(x & 2048u16 == ((x / 2048u16) % 2u16) * 2048u16) by (bit_vector);
}
proof fn lemma_and_u16_4095(x: u16, y: u16)
    ensures y == 4095 ==> (x & y) == lowb(x as int, 12),
{
    reveal(lowb); reveal(bitk); assert(x & 4095u16 == x % 4096u16) by (bit_vector);
}
proof fn lemma_and_u16_4096(x: u16, y: u16)
    ensures y == 4096 ==> (x & y) == bitk(x as int, 12) * 4096,
{
    reveal(lowb); reveal(bitk); assert(x & 4096u16 == ((x / 4096u16) % 2u16) * 4096u16) by (bit_vector);
}
proof fn lemma_and_u16_8191(x: u16, y: u16)
    ensures y == 8191 ==> (x & y) == lowb(x as int, 13),
{
    reveal(lowb); reveal(bitk); assert(x & 8191u16 == x % 8192u16) by (bit_vector);
}
proof fn lemma_and_u16_8192(x: u16, y: u16)
    ensures y == 8192 ==> (x & y) == bitk(x as int, 13) * 8192,
{
    reveal(lowb); reveal(bitk); assert(x & 8192u16 == ((x / 8192u16) % 2u16) * 8192u16) by (bit_vector);
}
proof fn lemma_and_u16_16383(x: u16, y: u16)
    ensures y == 16383 ==> (x & y) == lowb(x as int, 14),
{
    reveal(lowb); reveal(bitk); assert(x & 16383u16 == x % 16384u16) by (bit_vector);
}
proof fn lemma_and_u16_16384(x: u16, y: u16)
    ensures y == 16384 ==> (x & y) == bitk(x as int, 14) * 16384,
{
    reveal(lowb); reveal(bitk); assert(x & 16384u16 == ((x / 16384u16) % 2u16) * 16384u16) by (bit_vector);
}
proof fn lemma_and_u16_32767(x: u16, y: u16)
    ensures y == 32767 ==> (x & y) == lowb(x as int, 15),
{
    reveal(lowb); reveal(bitk); assert(x & 32767u16 == x % 32768u16) by (bit_vector);
}
proof fn lemma_and_u16_32768(x: u16, y: u16)
    ensures y == 32768 ==> (x & y) == bitk(x as int, 15) * 32768,
{
    reveal(lowb); reveal(bitk); assert(x & 32768u16 == ((x / 32768u16) % 2u16) * 32768u16) by (bit_vector);
}
proof fn lemma_and_u16_65535(x: u16, y: u16)
    ensures y == 65535 ==> (x & y) == lowb(x as int, 16),
{
    reveal(lowb); reveal(bitk); assert(x & 65535u16 == x) by (bit_vector);
}
proof fn lemma_and_u16_254(x: u16, y: u16)
    ensures y == 254 ==> (x & y) == lowb(x as int, 8) - lowb(x as int, 1),
{
    reveal(lowb); reveal(bitk); assert(x & 254u16 == sub(x % 256u16, x % 2u16)) by (bit_vector);
}
proof fn lemma_and_u16_252(x: u16, y: u16)
    ensures y == 252 ==> (x & y) == lowb(x as int, 8) - lowb(x as int, 2),
{
    reveal(lowb); reveal(bitk); assert(x & 252u16 == sub(x % 256u16, x % 4u16)) by (bit_vector);
}
proof fn lemma_and_u16_248(x: u16, y: u16)
    ensures y == 248 ==> (x & y) == lowb(x as int, 8) - lowb(x as int, 3),
{
    reveal(lowb); reveal(bitk); assert(x & 248u16 == sub(x % 256u16, x % 8u16)) by (bit_vector);
}
proof fn lemma_and_u16_240(x: u16, y: u16)
    ensures y == 240 ==> (x & y) == lowb(x as int, 8) - lowb(x as int, 4),
{
    reveal(lowb); reveal(bitk); assert(x & 240u16 == sub(x % 256u16, x % 16u16)) by (bit_vector);
}
proof fn lemma_and_u16_224(x: u16, y: u16)
    ensures y == 224 ==> (x & y) == lowb(x as int, 8) - lowb(x as int, 5),
{
    reveal(lowb); reveal(bitk); assert(x & 224u16 == sub(x % 256u16, x % 32u16)) by (bit_vector);
}
proof fn lemma_and_u16_192(x: u16, y: u16)
    ensures y == 192 ==> (x & y) == lowb(x as int, 8) - lowb(x as int, 6),
{
    reveal(lowb); reveal(bitk); assert(x & 192u16 == sub(x % 256u16, x % 64u16)) by (bit_vector);
}
pub proof fn lemma_and_u16(x: u16, y: u16)
    ensures and_half(x as int, y as int, (x & y) as int), (x & y) == (y & x),
{
    assert((x & y) <= x && (x & y) <= y && (x & y) == (y & x)) by (bit_vector);
    lemma_and_u16_0(x);
    lemma_and_u16_1(x, y);
    lemma_and_u16_2(x, y);
    lemma_and_u16_3(x, y);
    lemma_and_u16_4(x, y);
    lemma_and_u16_7(x, y);
    lemma_and_u16_8(x, y);
    lemma_and_u16_15(x, y);
    lemma_and_u16_16(x, y);
    lemma_and_u16_31(x, y);
    lemma_and_u16_32(x, y);
    lemma_and_u16_63(x, y);
    lemma_and_u16_64(x, y);
    lemma_and_u16_127(x, y);
    lemma_and_u16_128(x, y);
    lemma_and_u16_255(x, y);
    lemma_and_u16_256(x, y);
    lemma_and_u16_511(x, y);
    lemma_and_u16_512(x, y);
    lemma_and_u16_1023(x, y);
    lemma_and_u16_1024(x, y);
    lemma_and_u16_2047(x, y);
    lemma_and_u16_2048(x, y);
    lemma_and_u16_4095(x, y);
    lemma_and_u16_4096(x, y);
    lemma_and_u16_8191(x, y);
    lemma_and_u16_8192(x, y);
    lemma_and_u16_16383(x, y);
    lemma_and_u16_16384(x, y);
    lemma_and_u16_32767(x, y);
    lemma_and_u16_32768(x, y);
    lemma_and_u16_65535(x, y);
    lemma_and_u16_254(x, y);
    lemma_and_u16_252(x, y);
    lemma_and_u16_248(x, y);
    lemma_and_u16_240(x, y);
    lemma_and_u16_224(x, y);
    lemma_and_u16_192(x, y);
}
pub proof fn lemma_or_u16(x: u16, y: u16)
    ensures or_half(x as int, y as int, (x | y) as int), (x | y) == (y | x),
{
    assert((x | y) >= x && (x | y) == (y | x)) by (bit_vector);
    assert(x | 0 == x && 0 | x == x) by (bit_vector);
    assert(0u16 | y == y) by (bit_vector);
    assert(y < 2u16 && x % 2u16 == 0 ==> (x | y) == x + y) by (bit_vector);
    assert(y < 4u16 && x % 4u16 == 0 ==> (x | y) == x + y) by (bit_vector);
    assert(y < 8u16 && x % 8u16 == 0 ==> (x | y) == x + y) by (bit_vector);
    assert(y < 16u16 && x % 16u16 == 0 ==> (x | y) == x + y) by (bit_vector);
    assert(y < 32u16 && x % 32u16 == 0 ==> (x | y) == x + y) by (bit_vector);
    assert(y < 64u16 && x % 64u16 == 0 ==> (x | y) == x + y) by (bit_vector);
    assert(y < 128u16 && x % 128u16 == 0 ==> (x | y) == x + y) by (bit_vector);
    assert(y < 256u16 && x % 256u16 == 0 ==> (x | y) == x + y) by (bit_vector);
    assert(y < 512u16 && x % 512u16 == 0 ==> (x | y) == x + y) by (bit_vector);
    assert(y < 1024u16 && x % 1024u16 == 0 ==> (x | y) == x + y) by (bit_vector);
    assert(y < 2048u16 && x % 2048u16 == 0 ==> (x | y) == x + y) by (bit_vector);
    assert(y < 4096u16 && x % 4096u16 == 0 ==> (x | y) == x + y) by (bit_vector);
    assert(y < 8192u16 && x % 8192u16 == 0 ==> (x | y) == x + y) by (bit_vector);
    assert(y < 16384u16 && x % 16384u16 == 0 ==> (x | y) == x + y) by (bit_vector);
    assert(y < 32768u16 && x % 32768u16 == 0 ==> (x | y) == x + y) by (bit_vector);
}
pub proof fn lemma_shr_u16(x: u16, k: u64)
    requires k < 16,
    ensures shr_tab(x as int, k as int, (x >> k) as int),
{
    assert(k < 16 ==> x >> k <= x) by (bit_vector);
    assert(x >> 0 == x / 1u16) by (bit_vector);
    assert(x >> 1 == x / 2u16) by (bit_vector);
    assert(x >> 2 == x / 4u16) by (bit_vector);
    assert(x >> 3 == x / 8u16) by (bit_vector);
    assert(x >> 4 == x / 16u16) by (bit_vector);
    assert(x >> 5 == x / 32u16) by (bit_vector);
    assert(x >> 6 == x / 64u16) by (bit_vector);
    assert(x >> 7 == x / 128u16) by (bit_vector);
    assert(x >> 8 == x / 256u16) by (bit_vector);
    assert(x >> 9 == x / 512u16) by (bit_vector);
    assert(x >> 10 == x / 1024u16) by (bit_vector);
    assert(x >> 11 == x / 2048u16) by (bit_vector);
    assert(x >> 12 == x / 4096u16) by (bit_vector);
    assert(x >> 13 == x / 8192u16) by (bit_vector);
    assert(x >> 14 == x / 16384u16) by (bit_vector);
    assert(x >> 15 == x / 32768u16) by (bit_vector);
}
pub proof fn lemma_shl_u16(x: u16, k: u64)
    requires k < 16,
    ensures shl_tab(x as int, k as int, 65536, (x << k) as int),
{
    assert(x << 0 == x) by (bit_vector);
    assert(x < 32768u16 ==> x << 1 == x * 2u16) by (bit_vector);
    assert(x < 16384u16 ==> x << 2 == x * 4u16) by (bit_vector);
    assert(x < 8192u16 ==> x << 3 == x * 8u16) by (bit_vector);
    assert(x < 4096u16 ==> x << 4 == x * 16u16) by (bit_vector);
    assert(x < 2048u16 ==> x << 5 == x * 32u16) by (bit_vector);
    assert(x < 1024u16 ==> x << 6 == x * 64u16) by (bit_vector);
    assert(x < 512u16 ==> x << 7 == x * 128u16) by (bit_vector);
    assert(x < 256u16 ==> x << 8 == x * 256u16) by (bit_vector);
    assert(x < 128u16 ==> x << 9 == x * 512u16) by (bit_vector);
    assert(x < 64u16 ==> x << 10 == x * 1024u16) by (bit_vector);
    assert(x < 32u16 ==> x << 11 == x * 2048u16) by (bit_vector);
    assert(x < 16u16 ==> x << 12 == x * 4096u16) by (bit_vector);
    assert(x < 8u16 ==> x << 13 == x * 8192u16) by (bit_vector);
    assert(x < 4u16 ==> x << 14 == x * 16384u16) by (bit_vector);
    assert(x < 2u16 ==> x << 15 == x * 32768u16) by (bit_vector);
}
proof fn lemma_and_u32_0(x: u32)
    ensures x & 0 == 0, lowb(x as int, 0) == 0,
{
    reveal(lowb); assert(x & 0 == 0) by (bit_vector);
}
proof fn lemma_and_u32_1(x: u32, y: u32)
    ensures y == 1 ==> (x & y) == lowb(x as int, 1),
{
    reveal(lowb); reveal(bitk); assert(x & 1u32 == x % 2u32) by (bit_vector);
}
proof fn lemma_and_u32_2(x: u32, y: u32)
    ensures y == 2 ==> (x & y) == bitk(x as int, 1) * 2,
{
    reveal(lowb); reveal(bitk); assert(x & 2u32 == ((x / 2u32) % 2u32) * 2u32) by (bit_vector);
}
proof fn lemma_and_u32_3(x: u32, y: u32)
    ensures y == 3 ==> (x & y) == lowb(x as int, 2),
{
    reveal(lowb); reveal(bitk); assert(x & 3u32 == x % 4u32) by (bit_vector);
}
proof fn lemma_and_u32_4(x: u32, y: u32)
    ensures y == 4 ==> (x & y) == bitk(x as int, 2) * 4,
{
    reveal(lowb); reveal(bitk); assert(x & 4u32 == ((x / 4u32) % 2u32) * 4u32) by (bit_vector);
}
proof fn lemma_and_u32_7(x: u32, y: u32)
    ensures y == 7 ==> (x & y) == lowb(x as int, 3),
{
    reveal(lowb); reveal(bitk); assert(x & 7u32 == x % 8u32) by (bit_vector);
}
proof fn lemma_and_u32_8(x: u32, y: u32)
    ensures y == 8 ==> (x & y) == bitk(x as int, 3) * 8,
{
    reveal(lowb); reveal(bitk); assert(x & 8u32 == ((x / 8u32) % 2u32) * 8u32) by (bit_vector);
}
proof fn lemma_and_u32_15(x: u32, y: u32)
    ensures y == 15 ==> (x & y) == lowb(x as int, 4),
{
    reveal(lowb); reveal(bitk); assert(x & 15u32 == x % 16u32) by (bit_vector);
}
proof fn lemma_and_u32_16(x: u32, y: u32)
    ensures y == 16 ==> (x & y) == bitk(x as int, 4) * 16,
{
    reveal(lowb); reveal(bitk); assert(x & 16u32 == ((x / 16u32) % 2u32) * 16u32) by (bit_vector);
}
proof fn lemma_and_u32_31(x: u32, y: u32)
    ensures y == 31 ==> (x & y) == lowb(x as int, 5),
{
    reveal(lowb); reveal(bitk); assert(x & 31u32 == x % 32u32) by (bit_vector);
}
proof fn lemma_and_u32_32(x: u32, y: u32)
    ensures y == 32 ==> (x & y) == bitk(x as int, 5) * 32,
{
    reveal(lowb); reveal(bitk); assert(x & 32u32 == ((x / 32u32) % 2u32) * 32u32) by (bit_vector);
}
proof fn lemma_and_u32_63(x: u32, y: u32)
    ensures y == 63 ==> (x & y) == lowb(x as int, 6),
{
    reveal(lowb); reveal(bitk); assert(x & 63u32 == x % 64u32) by (bit_vector);
}
proof fn lemma_and_u32_64(x: u32, y: u32)
    ensures y == 64 ==> (x & y) == bitk(x as int, 6) * 64,
{
    reveal(lowb); reveal(bitk); assert(x & 64u32 == ((x / 64u32) % 2u32) * 64u32) by (bit_vector);
}
proof fn lemma_and_u32_127(x: u32, y: u32)
    ensures y == 127 ==> (x & y) == lowb(x as int, 7),
{
    reveal(lowb); reveal(bitk); assert(x & 127u32 == x % 128u32) by (bit_vector);
}
proof fn lemma_and_u32_128(x: u32, y: u32)
    ensures y == 128 ==> (x & y) == bitk(x as int, 7) * 128,
{
    reveal(lowb); reveal(bitk); assert(x & 128u32 == ((x / 128u32) % 2u32) * 128u32) by (bit_vector);
}
proof fn lemma_and_u32_255(x: u32, y: u32)
    ensures y == 255 ==> (x & y) == lowb(x as int, 8),
{
    reveal(lowb); reveal(bitk); assert(x & 255u32 == x % 256u32) by (bit_vector);
}
proof fn lemma_and_u32_256(x: u32, y: u32)
    ensures y == 256 ==> (x & y) == bitk(x as int, 8) * 256,
{
    reveal(lowb); reveal(bitk); assert(x & 256u32 == ((x / 256u32) % 2u32) * 256u32) by (bit_vector);
}
proof fn lemma_and_u32_511(x: u32, y: u32)
    ensures y == 511 ==> (x & y) == lowb(x as int, 9),
{
    reveal(lowb); reveal(bitk); assert(x & 511u32 == x % 512u32) by (bit_vector);
}
proof fn lemma_and_u32_512(x: u32, y: u32)
    ensures y == 512 ==> (x & y) == bitk(x as int, 9) * 512,
{
    reveal(lowb); reveal(bitk); assert(x & 512u32 == ((x / 512u32) % 2u32) * 512u32) by (bit_vector);
}
proof fn lemma_and_u32_1023(x: u32, y: u32)
    ensures y == 1023 ==> (x & y) == lowb(x as int, 10),
{
    reveal(lowb); reveal(bitk); assert(x & 1023u32 == x % 1024u32) by (bit_vector);
}
proof fn lemma_and_u32_1024(x: u32, y: u32)
    ensures y == 1024 ==> (x & y) == bitk(x as int, 10) * 1024,
{
    reveal(lowb); reveal(bitk); assert(x & 1024u32 == ((x / 1024u32) % 2u32) * 1024u32) by (bit_vector);
}
proof fn lemma_and_u32_2047(x: u32, y: u32)
    ensures y == 2047 ==> (x & y) == lowb(x as int, 11),
{
    reveal(lowb); reveal(bitk); assert(x & 2047u32 == x % 2048u32) by (bit_vector);
}
proof fn lemma_and_u32_2048(x: u32, y: u32)
    ensures y == 2048 ==> (x & y) == bitk(x as int, 11) * 2048,
{
    reveal(lowb); reveal(bitk); assert(x & 2048u32 == ((x / 2048u32) % 2u32) * 2048u32) by (bit_vector);
}
proof fn lemma_and_u32_4095(x: u32, y: u32)
    ensures y == 4095 ==> (x & y) == lowb(x as int, 12),
{
    reveal(lowb); reveal(bitk); assert(x & 4095u32 == x % 4096u32) by (bit_vector);
}
proof fn lemma_and_u32_4096(x: u32, y: u32)
    ensures y == 4096 ==> (x & y) == bitk(x as int, 12) * 4096,
{
    reveal(lowb); reveal(bitk); assert(x & 4096u32 == ((x / 4096u32) % 2u32) * 4096u32) by (bit_vector);
}
proof fn lemma_and_u32_8191(x: u32, y: u32)
    ensures y == 8191 ==> (x & y) == lowb(x as int, 13),
{
    reveal(lowb); reveal(bitk); assert(x & 8191u32 == x % 8192u32) by (bit_vector);
}
proof fn lemma_and_u32_8192(x: u32, y: u32)
    ensures y == 8192 ==> (x & y) == bitk(x as int, 13) * 8192,
{
    reveal(lowb); reveal(bitk); assert(x & 8192u32 == ((x / 8192u32) % 2u32) * 8192u32) by (bit_vector);
}
proof fn lemma_and_u32_16383(x: u32, y: u32)
    ensures y == 16383 ==> (x & y) == lowb(x as int, 14),
{
    reveal(lowb); reveal(bitk); assert(x & 16383u32 == x % 16384u32) by (bit_vector);
}
proof fn lemma_and_u32_16384(x: u32, y: u32)
    ensures y == 16384 ==> (x & y) == bitk(x as int, 14) * 16384,
{
    reveal(lowb); reveal(bitk); assert(x & 16384u32 == ((x / 16384u32) % 2u32) * 16384u32) by (bit_vector);
}
proof fn lemma_and_u32_32767(x: u32, y: u32)
    ensures y == 32767 ==> (x & y) == lowb(x as int, 15),
{
    reveal(lowb); reveal(bitk); assert(x & 32767u32 == x % 32768u32) by (bit_vector);
}
proof fn lemma_and_u32_32768(x: u32, y: u32)
    ensures y == 32768 ==> (x & y) == bitk(x as int, 15) * 32768,
{
    reveal(lowb); reveal(bitk); assert(x & 32768u32 == ((x / 32768u32) % 2u32) * 32768u32) by (bit_vector);
}
proof fn lemma_and_u32_65535(x: u32, y: u32)
    ensures y == 65535 ==> (x & y) == lowb(x as int, 16),
{
    reveal(lowb); reveal(bitk); assert(x & 65535u32 == x % 65536u32) by (bit_vector);
}
proof fn lemma_and_u32_65536(x: u32, y: u32)
    ensures y == 65536 ==> (x & y) == bitk(x as int, 16) * 65536,
{
    reveal(lowb); reveal(bitk); assert(x & 65536u32 == ((x / 65536u32) % 2u32) * 65536u32) by (bit_vector);
}
proof fn lemma_and_u32_131071(x: u32, y: u32)
    ensures y == 131071 ==> (x & y) == lowb(x as int, 17),
{
    reveal(lowb); reveal(bitk); assert(x & 131071u32 == x % 131072u32) by (bit_vector);
}
proof fn lemma_and_u32_131072(x: u32, y: u32)
    ensures y == 131072 ==> (x & y) == bitk(x as int, 17) * 131072,
{
    reveal(lowb); reveal(bitk); assert(x & 131072u32 == ((x / 131072u32) % 2u32) * 131072u32) by (bit_vector);
}
proof fn lemma_and_u32_262143(x: u32, y: u32)
    ensures y == 262143 ==> (x & y) == lowb(x as int, 18),
{
    reveal(lowb); reveal(bitk); assert(x & 262143u32 == x % 262144u32) by (bit_vector);
}
proof fn lemma_and_u32_262144(x: u32, y: u32)
    ensures y == 262144 ==> (x & y) == bitk(x as int, 18) * 262144,
{
    reveal(lowb); reveal(bitk); assert(x & 262144u32 == ((x / 262144u32) % 2u32) * 262144u32) by (bit_vector);
}
proof fn lemma_and_u32_524287(x: u32, y: u32)
    ensures y == 524287 ==> (x & y) == lowb(x as int, 19),
{
    reveal(lowb); reveal(bitk); assert(x & 524287u32 == x % 524288u32) by (bit_vector);
}
proof fn lemma_and_u32_524288(x: u32, y: u32)
    ensures y == 524288 ==> (x & y) == bitk(x as int, 19) * 524288,
{
    reveal(lowb); reveal(bitk); assert(x & 524288u32 == ((x / 524288u32) % 2u32) * 524288u32) by (bit_vector);
}
proof fn lemma_and_u32_1048575(x: u32, y: u32)
    ensures y == 1048575 ==> (x & y) == lowb(x as int, 20),
{
    reveal(lowb); reveal(bitk); assert(x & 1048575u32 == x % 1048576u32) by (bit_vector);
}
proof fn lemma_and_u32_1048576(x: u32, y: u32)
    ensures y == 1048576 ==> (x & y) == bitk(x as int, 20) * 1048576,
{
    reveal(lowb); reveal(bitk); assert(x & 1048576u32 == ((x / 1048576u32) % 2u32) * 1048576u32) by (bit_vector);
}
proof fn lemma_and_u32_2097151(x: u32, y: u32)
    ensures y == 2097151 ==> (x & y) == lowb(x as int, 21),
{
    reveal(lowb); reveal(bitk); assert(x & 2097151u32 == x % 2097152u32) by (bit_vector);
}
proof fn lemma_and_u32_2097152(x: u32, y: u32)
    ensures y == 2097152 ==> (x & y) == bitk(x as int, 21) * 2097152,
{
    reveal(lowb); reveal(bitk); assert(x & 2097152u32 == ((x / 2097152u32) % 2u32) * 2097152u32) by (bit_vector);
}
proof fn lemma_and_u32_4194303(x: u32, y: u32)
    ensures y == 4194303 ==> (x & y) == lowb(x as int, 22),
{
    reveal(lowb); reveal(bitk); assert(x & 4194303u32 == x % 4194304u32) by (bit_vector);
}
proof fn lemma_and_u32_4194304(x: u32, y: u32)
    ensures y == 4194304 ==> (x & y) == bitk(x as int, 22) * 4194304,
{
    reveal(lowb); reveal(bitk); assert(x & 4194304u32 == ((x / 4194304u32) % 2u32) * 4194304u32) by (bit_vector);
}
proof fn lemma_and_u32_8388607(x: u32, y: u32)
    ensures y == 8388607 ==> (x & y) == lowb(x as int, 23),
{
    reveal(lowb); reveal(bitk); assert(x & 8388607u32 == x % 8388608u32) by (bit_vector);
}
proof fn lemma_and_u32_8388608(x: u32, y: u32)
    ensures y == 8388608 ==> (x & y) == bitk(x as int, 23) * 8388608,
{
    reveal(lowb); reveal(bitk); assert(x & 8388608u32 == ((x / 8388608u32) % 2u32) * 8388608u32) by (bit_vector);
}
proof fn lemma_and_u32_16777215(x: u32, y: u32)
    ensures y == 16777215 ==> (x & y) == lowb(x as int, 24),
{
    reveal(lowb); reveal(bitk); assert(x & 16777215u32 == x % 16777216u32) by (bit_vector);
}
proof fn lemma_and_u32_16777216(x: u32, y: u32)
    ensures y == 16777216 ==> (x & y) == bitk(x as int, 24) * 16777216,
{
    reveal(lowb); reveal(bitk); assert(x & 16777216u32 == ((x / 16777216u32) % 2u32) * 16777216u32) by (bit_vector);
}
proof fn lemma_and_u32_33554431(x: u32, y: u32)
    ensures y == 33554431 ==> (x & y) == lowb(x as int, 25),
{
    reveal(lowb); reveal(bitk); assert(x & 33554431u32 == x % 33554432u32) by (bit_vector);
}
proof fn lemma_and_u32_33554432(x: u32, y: u32)
    ensures y == 33554432 ==> (x & y) == bitk(x as int, 25) * 33554432,
{
    reveal(lowb); reveal(bitk); assert(x & 33554432u32 == ((x / 33554432u32) % 2u32) * 33554432u32) by (bit_vector);
}
proof fn lemma_and_u32_67108863(x: u32, y: u32)
    ensures y == 67108863 ==> (x & y) == lowb(x as int, 26),
{
    reveal(lowb); reveal(bitk); assert(x & 67108863u32 == x % 67108864u32) by (bit_vector);
}
proof fn lemma_and_u32_67108864(x: u32, y: u32)
    ensures y == 67108864 ==> (x & y) == bitk(x as int, 26) * 67108864,
{
    reveal(lowb); reveal(bitk); assert(x & 67108864u32 == ((x / 67108864u32) % 2u32) * 67108864u32) by (bit_vector);
}
proof fn lemma_and_u32_134217727(x: u32, y: u32)
    ensures y == 134217727 ==> (x & y) == lowb(x as int, 27),
{
    reveal(lowb); reveal(bitk); assert(x & 134217727u32 == x % 134217728u32) by (bit_vector);
}
proof fn lemma_and_u32_134217728(x: u32, y: u32)
    ensures y == 134217728 ==> (x & y) == bitk(x as int, 27) * 134217728,
{
    reveal(lowb); reveal(bitk); assert(x & 134217728u32 == ((x / 134217728u32) % 2u32) * 134217728u32) by (bit_vector);
}
proof fn lemma_and_u32_268435455(x: u32, y: u32)
    ensures y == 268435455 ==> (x & y) == lowb(x as int, 28),
{
    reveal(lowb); reveal(bitk); assert(x & 268435455u32 == x % 268435456u32) by (bit_vector);
}
proof fn lemma_and_u32_268435456(x: u32, y: u32)
    ensures y == 268435456 ==> (x & y) == bitk(x as int, 28) * 268435456,
{
    reveal(lowb); reveal(bitk); assert(x & 268435456u32 == ((x / 268435456u32) % 2u32) * 268435456u32) by (bit_vector);
}
proof fn lemma_and_u32_536870911(x: u32, y: u32)
    ensures y == 536870911 ==> (x & y) == lowb(x as int, 29),
{
    reveal(lowb); reveal(bitk); assert(x & 536870911u32 == x % 536870912u32) by (bit_vector);
}
proof fn lemma_and_u32_536870912(x: u32, y: u32)
    ensures y == 536870912 ==> (x & y) == bitk(x as int, 29) * 536870912,
{
    reveal(lowb); reveal(bitk); assert(x & 536870912u32 == ((x / 536870912u32) % 2u32) * 536870912u32) by (bit_vector);
}
proof fn lemma_and_u32_1073741823(x: u32, y: u32)
    ensures y == 1073741823 ==> (x & y) == lowb(x as int, 30),
{
    reveal(lowb); reveal(bitk); assert(x & 1073741823u32 == x % 1073741824u32) by (bit_vector);
}
proof fn lemma_and_u32_1073741824(x: u32, y: u32)
    ensures y == 1073741824 ==> (x & y) == bitk(x as int, 30) * 1073741824,
{
    reveal(lowb); reveal(bitk); assert(x & 1073741824u32 == ((x / 1073741824u32) % 2u32) * 1073741824u32) by (bit_vector);
}
proof fn lemma_and_u32_2147483647(x: u32, y: u32)
    ensures y == 2147483647 ==> (x & y) == lowb(x as int, 31),
{
    reveal(lowb); reveal(bitk); assert(x & 2147483647u32 == x % 2147483648u32) by (bit_vector);
}
proof fn lemma_and_u32_2147483648(x: u32, y: u32)
    ensures y == 2147483648 ==> (x & y) == bitk(x as int, 31) * 2147483648,
{
    reveal(lowb); reveal(bitk); assert(x & 2147483648u32 == ((x / 2147483648u32) % 2u32) * 2147483648u32) by (bit_vector);
}
proof fn lemma_and_u32_4294967295(x: u32, y: u32)
    ensures y == 4294967295 ==> (x & y) == lowb(x as int, 32),
{
    reveal(lowb); reveal(bitk); assert(x & 4294967295u32 == x) by (bit_vector);
}
proof fn lemma_and_u32_254(x: u32, y: u32)
    ensures y == 254 ==> (x & y) == lowb(x as int, 8) - lowb(x as int, 1),
{
    reveal(lowb); reveal(bitk); assert(x & 254u32 == sub(x % 256u32, x % 2u32)) by (bit_vector);
}
proof fn lemma_and_u32_252(x: u32, y: u32)
    ensures y == 252 ==> (x & y) == lowb(x as int, 8) - lowb(x as int, 2),
{
    reveal(lowb); reveal(bitk); assert(x & 252u32 == sub(x % 256u32, x % 4u32)) by (bit_vector);
}
proof fn lemma_and_u32_248(x: u32, y: u32)
    ensures y == 248 ==> (x & y) == lowb(x as int, 8) - lowb(x as int, 3),
{
    reveal(lowb); reveal(bitk); assert(x & 248u32 == sub(x % 256u32, x % 8u32)) by (bit_vector);
}
proof fn lemma_and_u32_240(x: u32, y: u32)
    ensures y == 240 ==> (x & y) == lowb(x as int, 8) - lowb(x as int, 4),
{
    reveal(lowb); reveal(bitk); assert(x & 240u32 == sub(x % 256u32, x % 16u32)) by (bit_vector);
}
proof fn lemma_and_u32_224(x: u32, y: u32)
    ensures y == 224 ==> (x & y) == lowb(x as int, 8) - lowb(x as int, 5),
{
    reveal(lowb); reveal(bitk); assert(x & 224u32 == sub(x % 256u32, x % 32u32)) by (bit_vector);
}
proof fn lemma_and_u32_192(x: u32, y: u32)
    ensures y == 192 ==> (x & y) == lowb(x as int, 8) - lowb(x as int, 6),
{
    reveal(lowb); reveal(bitk); assert(x & 192u32 == sub(x % 256u32, x % 64u32)) by (bit_vector);
}
pub proof fn lemma_and_u32(x: u32, y: u32)
    ensures and_half(x as int, y as int, (x & y) as int), (x & y) == (y & x),
{
    assert((x & y) <= x && (x & y) <= y && (x & y) == (y & x)) by (bit_vector);
    lemma_and_u32_0(x);
    lemma_and_u32_1(x, y);
    lemma_and_u32_2(x, y);
    lemma_and_u32_3(x, y);
    lemma_and_u32_4(x, y);
    lemma_and_u32_7(x, y);
    lemma_and_u32_8(x, y);
    lemma_and_u32_15(x, y);
    lemma_and_u32_16(x, y);
    lemma_and_u32_31(x, y);
    lemma_and_u32_32(x, y);
    lemma_and_u32_63(x, y);
    lemma_and_u32_64(x, y);
    lemma_and_u32_127(x, y);
    lemma_and_u32_128(x, y);
    lemma_and_u32_255(x, y);
    lemma_and_u32_256(x, y);
    lemma_and_u32_511(x, y);
    lemma_and_u32_512(x, y);
    lemma_and_u32_1023(x, y);
    lemma_and_u32_1024(x, y);
    lemma_and_u32_2047(x, y);
    lemma_and_u32_2048(x, y);
    lemma_and_u32_4095(x, y);
    lemma_and_u32_4096(x, y);
    lemma_and_u32_8191(x, y);
    lemma_and_u32_8192(x, y);
    lemma_and_u32_16383(x, y);
    lemma_and_u32_16384(x, y);
    lemma_and_u32_32767(x, y);
    lemma_and_u32_32768(x, y);
    lemma_and_u32_65535(x, y);
    lemma_and_u32_65536(x, y);
    lemma_and_u32_131071(x, y);
    lemma_and_u32_131072(x, y);
    lemma_and_u32_262143(x, y);
    lemma_and_u32_262144(x, y);
    lemma_and_u32_524287(x, y);
    lemma_and_u32_524288(x, y);
    lemma_and_u32_1048575(x, y);
    lemma_and_u32_1048576(x, y);
    lemma_and_u32_2097151(x, y);
    lemma_and_u32_2097152(x, y);
    lemma_and_u32_4194303(x, y);
    lemma_and_u32_4194304(x, y);
    lemma_and_u32_8388607(x, y);
    lemma_and_u32_8388608(x, y);
    lemma_and_u32_16777215(x, y);
    lemma_and_u32_16777216(x, y);
    lemma_and_u32_33554431(x, y);
    lemma_and_u32_33554432(x, y);
    lemma_and_u32_67108863(x, y);
    lemma_and_u32_67108864(x, y);
    lemma_and_u32_134217727(x, y);
    lemma_and_u32_134217728(x, y);
    lemma_and_u32_268435455(x, y);
    lemma_and_u32_268435456(x, y);
    lemma_and_u32_536870911(x, y);
    lemma_and_u32_536870912(x, y);
    lemma_and_u32_1073741823(x, y);
    lemma_and_u32_1073741824(x, y);
    lemma_and_u32_2147483647(x, y);
    lemma_and_u32_2147483648(x, y);
    lemma_and_u32_4294967295(x, y);
    lemma_and_u32_254(x, y);
    lemma_and_u32_252(x, y);
    lemma_and_u32_248(x, y);
    lemma_and_u32_240(x, y);
    lemma_and_u32_224(x, y);
    lemma_and_u32_192(x, y);
}
pub proof fn lemma_or_u32(x: u32, y: u32)
    ensures or_half(x as int, y as int, (x | y) as int), (x | y) == (y | x),
{
    assert((x | y) >= x && (x | y) == (y | x)) by (bit_vector);
    assert(x | 0 == x && 0 | x == x) by (bit_vector);
    assert(0u32 | y == y) by (bit_vector);
    assert(y < 2u32 && x % 2u32 == 0 ==> (x | y) == x + y) by (bit_vector);
    assert(y < 4u32 && x % 4u32 == 0 ==> (x | y) == x + y) by (bit_vector);
    assert(y < 8u32 && x % 8u32 == 0 ==> (x | y) == x + y) by (bit_vector);
    assert(y < 16u32 && x % 16u32 == 0 ==> (x | y) == x + y) by (bit_vector);
    assert(y < 32u32 && x % 32u32 == 0 ==> (x | y) == x + y) by (bit_vector);
    assert(y < 64u32 && x % 64u32 == 0 ==> (x | y) == x + y) by (bit_vector);
    assert(y < 128u32 && x % 128u32 == 0 ==> (x | y) == x + y) by (bit_vector);
    assert(y < 256u32 && x % 256u32 == 0 ==> (x | y) == x + y) by (bit_vector);
    assert(y < 512u32 && x % 512u32 == 0 ==> (x | y) == x + y) by (bit_vector);
    assert(y < 1024u32 && x % 1024u32 == 0 ==> (x | y) == x + y) by (bit_vector);
    assert(y < 2048u32 && x % 2048u32 == 0 ==> (x | y) == x + y) by (bit_vector);
    assert(y < 4096u32 && x % 4096u32 == 0 ==> (x | y) == x + y) by (bit_vector);
    assert(y < 8192u32 && x % 8192u32 == 0 ==> (x | y) == x + y) by (bit_vector);
    assert(y < 16384u32 && x % 16384u32 == 0 ==> (x | y) == x + y) by (bit_vector);
    assert(y < 32768u32 && x % 32768u32 == 0 ==> (x | y) == x + y) by (bit_vector);
    assert(y < 65536u32 && x % 65536u32 == 0 ==> (x | y) == x + y) by (bit_vector);
    assert(y < 131072u32 && x % 131072u32 == 0 ==> (x | y) == x + y) by (bit_vector);
    assert(y < 262144u32 && x % 262144u32 == 0 ==> (x | y) == x + y) by (bit_vector);
    assert(y < 524288u32 && x % 524288u32 == 0 ==> (x | y) == x + y) by (bit_vector);
    assert(y < 1048576u32 && x % 1048576u32 == 0 ==> (x | y) == x + y) by (bit_vector);
    assert(y < 2097152u32 && x % 2097152u32 == 0 ==> (x | y) == x + y) by (bit_vector);
    assert(y < 4194304u32 && x % 4194304u32 == 0 ==> (x | y) == x + y) by (bit_vector);
    assert(y < 8388608u32 && x % 8388608u32 == 0 ==> (x | y) == x + y) by (bit_vector);
    assert(y < 16777216u32 && x % 16777216u32 == 0 ==> (x | y) == x + y) by (bit_vector);
    assert(y < 33554432u32 && x % 33554432u32 == 0 ==> (x | y) == x + y) by (bit_vector);
    assert(y < 67108864u32 && x % 67108864u32 == 0 ==> (x | y) == x + y) by (bit_vector);
    assert(y < 134217728u32 && x % 134217728u32 == 0 ==> (x | y) == x + y) by (bit_vector);
    assert(y < 268435456u32 && x % 268435456u32 == 0 ==> (x | y) == x + y) by (bit_vector);
    assert(y < 536870912u32 && x % 536870912u32 == 0 ==> (x | y) == x + y) by (bit_vector);
    assert(y < 1073741824u32 && x % 1073741824u32 == 0 ==> (x | y) == x + y) by (bit_vector);
    assert(y < 2147483648u32 && x % 2147483648u32 == 0 ==> (x | y) == x + y) by (bit_vector);
}
pub proof fn lemma_shr_u32(x: u32, k: u64)
    requires k < 32,
    ensures shr_tab(x as int, k as int, (x >> k) as int),
{
    assert(k < 32 ==> x >> k <= x) by (bit_vector);
    assert(x >> 0 == x / 1u32) by (bit_vector);
    assert(x >> 1 == x / 2u32) by (bit_vector);
    assert(x >> 2 == x / 4u32) by (bit_vector);
    assert(x >> 3 == x / 8u32) by (bit_vector);
    assert(x >> 4 == x / 16u32) by (bit_vector);
    assert(x >> 5 == x / 32u32) by (bit_vector);
    assert(x >> 6 == x / 64u32) by (bit_vector);
    assert(x >> 7 == x / 128u32) by (bit_vector);
    assert(x >> 8 == x / 256u32) by (bit_vector);
    assert(x >> 9 == x / 512u32) by (bit_vector);
    assert(x >> 10 == x / 1024u32) by (bit_vector);
    assert(x >> 11 == x / 2048u32) by (bit_vector);
    assert(x >> 12 == x / 4096u32) by (bit_vector);
    assert(x >> 13 == x / 8192u32) by (bit_vector);
    assert(x >> 14 == x / 16384u32) by (bit_vector);
    assert(x >> 15 == x / 32768u32) by (bit_vector);
    assert(x >> 16 == x / 65536u32) by (bit_vector);
    assert(x >> 17 == x / 131072u32) by (bit_vector);
    assert(x >> 18 == x / 262144u32) by (bit_vector);
    assert(x >> 19 == x / 524288u32) by (bit_vector);
    assert(x >> 20 == x / 1048576u32) by (bit_vector);
    assert(x >> 21 == x / 2097152u32) by (bit_vector);
    assert(x >> 22 == x / 4194304u32) by (bit_vector);
    assert(x >> 23 == x / 8388608u32) by (bit_vector);
    assert(x >> 24 == x / 16777216u32) by (bit_vector);
    assert(x >> 25 == x / 33554432u32) by (bit_vector);
    assert(x >> 26 == x / 67108864u32) by (bit_vector);
    assert(x >> 27 == x / 134217728u32) by (bit_vector);
    assert(x >> 28 == x / 268435456u32) by (bit_vector);
    assert(x >> 29 == x / 536870912u32) by (bit_vector);
    assert(x >> 30 == x / 1073741824u32) by (bit_vector);
    assert(x >> 31 == x / 2147483648u32) by (bit_vector);
}
pub proof fn lemma_shl_u32(x: u32, k: u64)
    requires k < 32,
    ensures shl_tab(x as int, k as int, 4294967296, (x << k) as int),
{
    assert(x << 0 == x) by (bit_vector);
    assert(x < 2147483648u32 ==> x << 1 == x * 2u32) by (bit_vector);
    assert(x < 1073741824u32 ==> x << 2 == x * 4u32) by (bit_vector);
    assert(x < 536870912u32 ==> x << 3 == x * 8u32) by (bit_vector);
    assert(x < 268435456u32 ==> x << 4 == x * 16u32) by (bit_vector);
    assert(x < 134217728u32 ==> x << 5 == x * 32u32) by (bit_vector);
    assert(x < 67108864u32 ==> x << 6 == x * 64u32) by (bit_vector);
    assert(x < 33554432u32 ==> x << 7 == x * 128u32) by (bit_vector);
    assert(x < 16777216u32 ==> x << 8 == x * 256u32) by (bit_vector);
    assert(x < 8388608u32 ==> x << 9 == x * 512u32) by (bit_vector);
    assert(x < 4194304u32 ==> x << 10 == x * 1024u32) by (bit_vector);
    assert(x < 2097152u32 ==> x << 11 == x * 2048u32) by (bit_vector);
    assert(x < 1048576u32 ==> x << 12 == x * 4096u32) by (bit_vector);
    assert(x < 524288u32 ==> x << 13 == x * 8192u32) by (bit_vector);
    assert(x < 262144u32 ==> x << 14 == x * 16384u32) by (bit_vector);
    assert(x < 131072u32 ==> x << 15 == x * 32768u32) by (bit_vector);
    assert(x < 65536u32 ==> x << 16 == x * 65536u32) by (bit_vector);
    assert(x < 32768u32 ==> x << 17 == x * 131072u32) by (bit_vector);
    assert(x < 16384u32 ==> x << 18 == x * 262144u32) by (bit_vector);
    assert(x < 8192u32 ==> x << 19 == x * 524288u32) by (bit_vector);
    assert(x < 4096u32 ==> x << 20 == x * 1048576u32) by (bit_vector);
    assert(x < 2048u32 ==> x << 21 == x * 2097152u32) by (bit_vector);
    assert(x < 1024u32 ==> x << 22 == x * 4194304u32) by (bit_vector);
    assert(x < 512u32 ==> x << 23 == x * 8388608u32) by (bit_vector);
    assert(x < 256u32 ==> x << 24 == x * 16777216u32) by (bit_vector);
    assert(x < 128u32 ==> x << 25 == x * 33554432u32) by (bit_vector);
    assert(x < 64u32 ==> x << 26 == x * 67108864u32) by (bit_vector);
    assert(x < 32u32 ==> x << 27 == x * 134217728u32) by (bit_vector);
    assert(x < 16u32 ==> x << 28 == x * 268435456u32) by (bit_vector);
    assert(x < 8u32 ==> x << 29 == x * 536870912u32) by (bit_vector);
    assert(x < 4u32 ==> x << 30 == x * 1073741824u32) by (bit_vector);
    assert(x < 2u32 ==> x << 31 == x * 2147483648u32) by (bit_vector);
}
proof fn lemma_and_u64_0(x: u64)
    ensures x & 0 == 0, lowb(x as int, 0) == 0,
{
    reveal(lowb); assert(x & 0 == 0) by (bit_vector);
}
proof fn lemma_and_u64_1(x: u64, y: u64)
    ensures y == 1 ==> (x & y) == lowb(x as int, 1),
{
    reveal(lowb); reveal(bitk); assert(x & 1u64 == x % 2u64) by (bit_vector);
}
proof fn lemma_and_u64_2(x: u64, y: u64)
    ensures y == 2 ==> (x & y) == bitk(x as int, 1) * 2,
{
    reveal(lowb); reveal(bitk); assert(x & 2u64 == ((x / 2u64) % 2u64) * 2u64) by (bit_vector);
}
proof fn lemma_and_u64_3(x: u64, y: u64)
    ensures y == 3 ==> (x & y) == lowb(x as int, 2),
{
    reveal(lowb); reveal(bitk); assert(x & 3u64 == x % 4u64) by (bit_vector);
}
proof fn lemma_and_u64_4(x: u64, y: u64)
    ensures y == 4 ==> (x & y) == bitk(x as int, 2) * 4,
{
    reveal(lowb); reveal(bitk); assert(x & 4u64 == ((x / 4u64) % 2u64) * 4u64) by (bit_vector);
}
proof fn lemma_and_u64_7(x: u64, y: u64)
    ensures y == 7 ==> (x & y) == lowb(x as int, 3),
{
    reveal(lowb); reveal(bitk); assert(x & 7u64 == x % 8u64) by (bit_vector);
}
proof fn lemma_and_u64_8(x: u64, y: u64)
    ensures y == 8 ==> (x & y) == bitk(x as int, 3) * 8,
{
    reveal(lowb); reveal(bitk); assert(x & 8u64 == ((x / 8u64) % 2u64) * 8u64) by (bit_vector);
}
proof fn lemma_and_u64_15(x: u64, y: u64)
    ensures y == 15 ==> (x & y) == lowb(x as int, 4),
{
    reveal(lowb); reveal(bitk); assert(x & 15u64 == x % 16u64) by (bit_vector);
}
proof fn lemma_and_u64_16(x: u64, y: u64)
    ensures y == 16 ==> (x & y) == bitk(x as int, 4) * 16,
{
    reveal(lowb); reveal(bitk); assert(x & 16u64 == ((x / 16u64) % 2u64) * 16u64) by (bit_vector);
}
proof fn lemma_and_u64_31(x: u64, y: u64)
    ensures y == 31 ==> (x & y) == lowb(x as int, 5),
{
    reveal(lowb); reveal(bitk); assert(x & 31u64 == x % 32u64) by (bit_vector);
}
proof fn lemma_and_u64_32(x: u64, y: u64)
    ensures y == 32 ==> (x & y) == bitk(x as int, 5) * 32,
{
    reveal(lowb); reveal(bitk); assert(x & 32u64 == ((x / 32u64) % 2u64) * 32u64) by (bit_vector);
}
proof fn lemma_and_u64_63(x: u64, y: u64)
    ensures y == 63 ==> (x & y) == lowb(x as int, 6),
{
    reveal(lowb); reveal(bitk); assert(x & 63u64 == x % 64u64) by (bit_vector);
}
proof fn lemma_and_u64_64(x: u64, y: u64)
    ensures y == 64 ==> (x & y) == bitk(x as int, 6) * 64,
{
    reveal(lowb); reveal(bitk); assert(x & 64u64 == ((x / 64u64) % 2u64) * 64u64) by (bit_vector);
}
proof fn lemma_and_u64_127(x: u64, y: u64)
    ensures y == 127 ==> (x & y) == lowb(x as int, 7),
{
    reveal(lowb); reveal(bitk); assert(x & 127u64 == x % 128u64) by (bit_vector);
}
proof fn lemma_and_u64_128(x: u64, y: u64)
    ensures y == 128 ==> (x & y) == bitk(x as int, 7) * 128,
{
    reveal(lowb); reveal(bitk); assert(x & 128u64 == ((x / 128u64) % 2u64) * 128u64) by (bit_vector);
}
proof fn lemma_and_u64_255(x: u64, y: u64)
    ensures y == 255 ==> (x & y) == lowb(x as int, 8),
{
    reveal(lowb); reveal(bitk); assert(x & 255u64 == x % 256u64) by (bit_vector);
}
proof fn lemma_and_u64_256(x: u64, y: u64)
    ensures y == 256 ==> (x & y) == bitk(x as int, 8) * 256,
{
    reveal(lowb); reveal(bitk); assert(x & 256u64 == ((x / 256u64) % 2u64) * 256u64) by (bit_vector);
}
proof fn lemma_and_u64_511(x: u64, y: u64)
    ensures y == 511 ==> (x & y) == lowb(x as int, 9),
{
    reveal(lowb); reveal(bitk); assert(x & 511u64 == x % 512u64) by (bit_vector);
}
proof fn lemma_and_u64_512(x: u64, y: u64)
    ensures y == 512 ==> (x & y) == bitk(x as int, 9) * 512,
{
    reveal(lowb); reveal(bitk); assert(x & 512u64 == ((x / 512u64) % 2u64) * 512u64) by (bit_vector);
}
proof fn lemma_and_u64_1023(x: u64, y: u64)
    ensures y == 1023 ==> (x & y) == lowb(x as int, 10),
{
    reveal(lowb); reveal(bitk); assert(x & 1023u64 == x % 1024u64) by (bit_vector);
}
proof fn lemma_and_u64_1024(x: u64, y: u64)
    ensures y == 1024 ==> (x & y) == bitk(x as int, 10) * 1024,
{
    reveal(lowb); reveal(bitk); assert(x & 1024u64 == ((x / 1024u64) % 2u64) * 1024u64) by (bit_vector);
}
proof fn lemma_and_u64_2047(x: u64, y: u64)
    ensures y == 2047 ==> (x & y) == lowb(x as int, 11),
{
    reveal(lowb); reveal(bitk); assert(x & 2047u64 == x % 2048u64) by (bit_vector);
}
proof fn lemma_and_u64_2048(x: u64, y: u64)
    ensures y == 2048 ==> (x & y) == bitk(x as int, 11) * 2048,
{
    reveal(lowb); reveal(bitk); assert(x & 2048u64 == ((x / 2048u64) % 2u64) * 2048u64) by (bit_vector);
}
proof fn lemma_and_u64_4095(x: u64, y: u64)
    ensures y == 4095 ==> (x & y) == lowb(x as int, 12),
{
    reveal(lowb); reveal(bitk); assert(x & 4095u64 == x % 4096u64) by (bit_vector);
}
proof fn lemma_and_u64_4096(x: u64, y: u64)
    ensures y == 4096 ==> (x & y) == bitk(x as int, 12) * 4096,
{
    reveal(lowb); reveal(bitk); assert(x & 4096u64 == ((x / 4096u64) % 2u64) * 4096u64) by (bit_vector);
}
proof fn lemma_and_u64_8191(x: u64, y: u64)
    ensures y == 8191 ==> (x & y) == lowb(x as int, 13),
{
    reveal(lowb); reveal(bitk); assert(x & 8191u64 == x % 8192u64) by (bit_vector);
}
proof fn lemma_and_u64_8192(x: u64, y: u64)
    ensures y == 8192 ==> (x & y) == bitk(x as int, 13) * 8192,
{
    reveal(lowb); reveal(bitk); assert(x & 8192u64 == ((x / 8192u64) % 2u64) * 8192u64) by (bit_vector);
}
proof fn lemma_and_u64_16383(x: u64, y: u64)
    ensures y == 16383 ==> (x & y) == lowb(x as int, 14),
{
    reveal(lowb); reveal(bitk); assert(x & 16383u64 == x % 16384u64) by (bit_vector);
}
proof fn lemma_and_u64_16384(x: u64, y: u64)
    ensures y == 16384 ==> (x & y) == bitk(x as int, 14) * 16384,
{
    reveal(lowb); reveal(bitk); assert(x & 16384u64 == ((x / 16384u64) % 2u64) * 16384u64) by (bit_vector);
}
proof fn lemma_and_u64_32767(x: u64, y: u64)
    ensures y == 32767 ==> (x & y) == lowb(x as int, 15),
{
    reveal(lowb); reveal(bitk); assert(x & 32767u64 == x % 32768u64) by (bit_vector);
}
proof fn lemma_and_u64_32768(x: u64, y: u64)
    ensures y == 32768 ==> (x & y) == bitk(x as int, 15) * 32768,
{
    reveal(lowb); reveal(bitk); assert(x & 32768u64 == ((x / 32768u64) % 2u64) * 32768u64) by (bit_vector);
}
proof fn lemma_and_u64_65535(x: u64, y: u64)
    ensures y == 65535 ==> (x & y) == lowb(x as int, 16),
{
    reveal(lowb); reveal(bitk); assert(x & 65535u64 == x % 65536u64) by (bit_vector);
}
proof fn lemma_and_u64_65536(x: u64, y: u64)
    ensures y == 65536 ==> (x & y) == bitk(x as int, 16) * 65536,
{
    reveal(lowb); reveal(bitk); assert(x & 65536u64 == ((x / 65536u64) % 2u64) * 65536u64) by (bit_vector);
}
proof fn lemma_and_u64_131071(x: u64, y: u64)
    ensures y == 131071 ==> (x & y) == lowb(x as int, 17),
{
    reveal(lowb); reveal(bitk); assert(x & 131071u64 == x % 131072u64) by (bit_vector);
}
proof fn lemma_and_u64_131072(x: u64, y: u64)
    ensures y == 131072 ==> (x & y) == bitk(x as int, 17) * 131072,
{
    reveal(lowb); reveal(bitk); assert(x & 131072u64 == ((x / 131072u64) % 2u64) * 131072u64) by (bit_vector);
}
proof fn lemma_and_u64_262143(x: u64, y: u64)
    ensures y == 262143 ==> (x & y) == lowb(x as int, 18),
{
    reveal(lowb); reveal(bitk); assert(x & 262143u64 == x % 262144u64) by (bit_vector);
}
proof fn lemma_and_u64_262144(x: u64, y: u64)
    ensures y == 262144 ==> (x & y) == bitk(x as int, 18) * 262144,
{
    reveal(lowb); reveal(bitk); assert(x & 262144u64 == ((x / 262144u64) % 2u64) * 262144u64) by (bit_vector);
}
proof fn lemma_and_u64_524287(x: u64, y: u64)
    ensures y == 524287 ==> (x & y) == lowb(x as int, 19),
{
    reveal(lowb); reveal(bitk); assert(x & 524287u64 == x % 524288u64) by (bit_vector);
}
proof fn lemma_and_u64_524288(x: u64, y: u64)
    ensures y == 524288 ==> (x & y) == bitk(x as int, 19) * 524288,
{
    reveal(lowb); reveal(bitk); assert(x & 524288u64 == ((x / 524288u64) % 2u64) * 524288u64) by (bit_vector);
}
proof fn lemma_and_u64_1048575(x: u64, y: u64)
    ensures y == 1048575 ==> (x & y) == lowb(x as int, 20),
{
    reveal(lowb); reveal(bitk); assert(x & 1048575u64 == x % 1048576u64) by (bit_vector);
}
proof fn lemma_and_u64_1048576(x: u64, y: u64)
    ensures y == 1048576 ==> (x & y) == bitk(x as int, 20) * 1048576,
{
    reveal(lowb); reveal(bitk); assert(x & 1048576u64 == ((x / 1048576u64) % 2u64) * 1048576u64) by (bit_vector);
}
proof fn lemma_and_u64_2097151(x: u64, y: u64)
    ensures y == 2097151 ==> (x & y) == lowb(x as int, 21),
{
    reveal(lowb); reveal(bitk); assert(x & 2097151u64 == x % 2097152u64) by (bit_vector);
}
proof fn lemma_and_u64_2097152(x: u64, y: u64)
    ensures y == 2097152 ==> (x & y) == bitk(x as int, 21) * 2097152,
{
    reveal(lowb); reveal(bitk); assert(x & 2097152u64 == ((x / 2097152u64) % 2u64) * 2097152u64) by (bit_vector);
}
proof fn lemma_and_u64_4194303(x: u64, y: u64)
    ensures y == 4194303 ==> (x & y) == lowb(x as int, 22),
{
    reveal(lowb); reveal(bitk); assert(x & 4194303u64 == x % 4194304u64) by (bit_vector);
}
proof fn lemma_and_u64_4194304(x: u64, y: u64)
    ensures y == 4194304 ==> (x & y) == bitk(x as int, 22) * 4194304,
{
    reveal(lowb); reveal(bitk); assert(x & 4194304u64 == ((x / 4194304u64) % 2u64) * 4194304u64) by (bit_vector);
}
proof fn lemma_and_u64_8388607(x: u64, y: u64)
    ensures y == 8388607 ==> (x & y) == lowb(x as int, 23),
{
    reveal(lowb); reveal(bitk); assert(x & 8388607u64 == x % 8388608u64) by (bit_vector);
}
proof fn lemma_and_u64_8388608(x: u64, y: u64)
    ensures y == 8388608 ==> (x & y) == bitk(x as int, 23) * 8388608,
{
    reveal(lowb); reveal(bitk); assert(x & 8388608u64 == ((x / 8388608u64) % 2u64) * 8388608u64) by (bit_vector);
}
proof fn lemma_and_u64_16777215(x: u64, y: u64)
    ensures y == 16777215 ==> (x & y) == lowb(x as int, 24),
{
    reveal(lowb); reveal(bitk); assert(x & 16777215u64 == x % 16777216u64) by (bit_vector);
}
proof fn lemma_and_u64_16777216(x: u64, y: u64)
    ensures y == 16777216 ==> (x & y) == bitk(x as int, 24) * 16777216,
{
    reveal(lowb); reveal(bitk); assert(x & 16777216u64 == ((x / 16777216u64) % 2u64) * 16777216u64) by (bit_vector);
}
proof fn lemma_and_u64_33554431(x: u64, y: u64)
    ensures y == 33554431 ==> (x & y) == lowb(x as int, 25),
{
    reveal(lowb); reveal(bitk); assert(x & 33554431u64 == x % 33554432u64) by (bit_vector);
}
proof fn lemma_and_u64_33554432(x: u64, y: u64)
    ensures y == 33554432 ==> (x & y) == bitk(x as int, 25) * 33554432,
{
    reveal(lowb); reveal(bitk); assert(x & 33554432u64 == ((x / 33554432u64) % 2u64) * 33554432u64) by (bit_vector);
}
proof fn lemma_and_u64_67108863(x: u64, y: u64)
    ensures y == 67108863 ==> (x & y) == lowb(x as int, 26),
{
    reveal(lowb); reveal(bitk); assert(x & 67108863u64 == x % 67108864u64) by (bit_vector);
}
proof fn lemma_and_u64_67108864(x: u64, y: u64)
    ensures y == 67108864 ==> (x & y) == bitk(x as int, 26) * 67108864,
{
    reveal(lowb); reveal(bitk); assert(x & 67108864u64 == ((x / 67108864u64) % 2u64) * 67108864u64) by (bit_vector);
}
proof fn lemma_and_u64_134217727(x: u64, y: u64)
    ensures y == 134217727 ==> (x & y) == lowb(x as int, 27),
{
    reveal(lowb); reveal(bitk); assert(x & 134217727u64 == x % 134217728u64) by (bit_vector);
}
proof fn lemma_and_u64_134217728(x: u64, y: u64)
    ensures y == 134217728 ==> (x & y) == bitk(x as int, 27) * 134217728,
{
    reveal(lowb); reveal(bitk); assert(x & 134217728u64 == ((x / 134217728u64) % 2u64) * 134217728u64) by (bit_vector);
}
proof fn lemma_and_u64_268435455(x: u64, y: u64)
    ensures y == 268435455 ==> (x & y) == lowb(x as int, 28),
{
    reveal(lowb); reveal(bitk); assert(x & 268435455u64 == x % 268435456u64) by (bit_vector);
}
proof fn lemma_and_u64_268435456(x: u64, y: u64)
    ensures y == 268435456 ==> (x & y) == bitk(x as int, 28) * 268435456,
{
    reveal(lowb); reveal(bitk); assert(x & 268435456u64 == ((x / 268435456u64) % 2u64) * 268435456u64) by (bit_vector);
}
proof fn lemma_and_u64_536870911(x: u64, y: u64)
    ensures y == 536870911 ==> (x & y) == lowb(x as int, 29),
{
    reveal(lowb); reveal(bitk); assert(x & 536870911u64 == x % 536870912u64) by (bit_vector);
}
proof fn lemma_and_u64_536870912(x: u64, y: u64)
    ensures y == 536870912 ==> (x & y) == bitk(x as int, 29) * 536870912,
{
    reveal(lowb); reveal(bitk); assert(x & 536870912u64 == ((x / 536870912u64) % 2u64) * 536870912u64) by (bit_vector);
}
proof fn lemma_and_u64_1073741823(x: u64, y: u64)
    ensures y == 1073741823 ==> (x & y) == lowb(x as int, 30),
{
    reveal(lowb); reveal(bitk); assert(x & 1073741823u64 == x % 1073741824u64) by (bit_vector);
}
proof fn lemma_and_u64_1073741824(x: u64, y: u64)
    ensures y == 1073741824 ==> (x & y) == bitk(x as int, 30) * 1073741824,
{
    reveal(lowb); reveal(bitk); assert(x & 1073741824u64 == ((x / 1073741824u64) % 2u64) * 1073741824u64) by (bit_vector);
}
proof fn lemma_and_u64_2147483647(x: u64, y: u64)
    ensures y == 2147483647 ==> (x & y) == lowb(x as int, 31),
{
    reveal(lowb); reveal(bitk); assert(x & 2147483647u64 == x % 2147483648u64) by (bit_vector);
}
proof fn lemma_and_u64_2147483648(x: u64, y: u64)
    ensures y == 2147483648 ==> (x & y) == bitk(x as int, 31) * 2147483648,
{
    reveal(lowb); reveal(bitk); assert(x & 2147483648u64 == ((x / 2147483648u64) % 2u64) * 2147483648u64) by (bit_vector);
}
proof fn lemma_and_u64_4294967295(x: u64, y: u64)
    ensures y == 4294967295 ==> (x & y) == lowb(x as int, 32),
{
    reveal(lowb); reveal(bitk); assert(x & 4294967295u64 == x % 4294967296u64) by (bit_vector);
}
proof fn lemma_and_u64_254(x: u64, y: u64)
    ensures y == 254 ==> (x & y) == lowb(x as int, 8) - lowb(x as int, 1),
{
    reveal(lowb); reveal(bitk); assert(x & 254u64 == sub(x % 256u64, x % 2u64)) by (bit_vector);
}
proof fn lemma_and_u64_252(x: u64, y: u64)
    ensures y == 252 ==> (x & y) == lowb(x as int, 8) - lowb(x as int, 2),
{
    reveal(lowb); reveal(bitk); assert(x & 252u64 == sub(x % 256u64, x % 4u64)) by (bit_vector);
}
proof fn lemma_and_u64_248(x: u64, y: u64)
    ensures y == 248 ==> (x & y) == lowb(x as int, 8) - lowb(x as int, 3),
{
    reveal(lowb); reveal(bitk); assert(x & 248u64 == sub(x % 256u64, x % 8u64)) by (bit_vector);
}
proof fn lemma_and_u64_240(x: u64, y: u64)
    ensures y == 240 ==> (x & y) == lowb(x as int, 8) - lowb(x as int, 4),
{
    reveal(lowb); reveal(bitk); assert(x & 240u64 == sub(x % 256u64, x % 16u64)) by (bit_vector);
}
proof fn lemma_and_u64_224(x: u64, y: u64)
    ensures y == 224 ==> (x & y) == lowb(x as int, 8) - lowb(x as int, 5),
{
    reveal(lowb); reveal(bitk); assert(x & 224u64 == sub(x % 256u64, x % 32u64)) by (bit_vector);
}
proof fn lemma_and_u64_192(x: u64, y: u64)
    ensures y == 192 ==> (x & y) == lowb(x as int, 8) - lowb(x as int, 6),
{
    reveal(lowb); reveal(bitk); assert(x & 192u64 == sub(x % 256u64, x % 64u64)) by (bit_vector);
}
pub proof fn lemma_and_u64(x: u64, y: u64)
    ensures and_half(x as int, y as int, (x & y) as int), (x & y) == (y & x),
{
    assert((x & y) <= x && (x & y) <= y && (x & y) == (y & x)) by (bit_vector);
    lemma_and_u64_0(x);
    lemma_and_u64_1(x, y);
    lemma_and_u64_2(x, y);
    lemma_and_u64_3(x, y);
    lemma_and_u64_4(x, y);
    lemma_and_u64_7(x, y);
    lemma_and_u64_8(x, y);
    lemma_and_u64_15(x, y);
    lemma_and_u64_16(x, y);
    lemma_and_u64_31(x, y);
    lemma_and_u64_32(x, y);
    lemma_and_u64_63(x, y);
    lemma_and_u64_64(x, y);
    lemma_and_u64_127(x, y);
    lemma_and_u64_128(x, y);
    lemma_and_u64_255(x, y);
    lemma_and_u64_256(x, y);
    lemma_and_u64_511(x, y);
    lemma_and_u64_512(x, y);
    lemma_and_u64_1023(x, y);
    lemma_and_u64_1024(x, y);
    lemma_and_u64_2047(x, y);
    lemma_and_u64_2048(x, y);
    lemma_and_u64_4095(x, y);
    lemma_and_u64_4096(x, y);
    lemma_and_u64_8191(x, y);
    lemma_and_u64_8192(x, y);
    lemma_and_u64_16383(x, y);
    lemma_and_u64_16384(x, y);
    lemma_and_u64_32767(x, y);
    lemma_and_u64_32768(x, y);
    lemma_and_u64_65535(x, y);
    lemma_and_u64_65536(x, y);
    lemma_and_u64_131071(x, y);
    lemma_and_u64_131072(x, y);
    lemma_and_u64_262143(x, y);
    lemma_and_u64_262144(x, y);
    lemma_and_u64_524287(x, y);
    lemma_and_u64_524288(x, y);
    lemma_and_u64_1048575(x, y);
    lemma_and_u64_1048576(x, y);
    lemma_and_u64_2097151(x, y);
    lemma_and_u64_2097152(x, y);
    lemma_and_u64_4194303(x, y);
    lemma_and_u64_4194304(x, y);
    lemma_and_u64_8388607(x, y);
    lemma_and_u64_8388608(x, y);
    lemma_and_u64_16777215(x, y);
    lemma_and_u64_16777216(x, y);
    lemma_and_u64_33554431(x, y);
    lemma_and_u64_33554432(x, y);
    lemma_and_u64_67108863(x, y);
    lemma_and_u64_67108864(x, y);
    lemma_and_u64_134217727(x, y);
    lemma_and_u64_134217728(x, y);
    lemma_and_u64_268435455(x, y);
    lemma_and_u64_268435456(x, y);
    lemma_and_u64_536870911(x, y);
    lemma_and_u64_536870912(x, y);
    lemma_and_u64_1073741823(x, y);
    lemma_and_u64_1073741824(x, y);
    lemma_and_u64_2147483647(x, y);
    lemma_and_u64_2147483648(x, y);
    lemma_and_u64_4294967295(x, y);
    lemma_and_u64_254(x, y);
    lemma_and_u64_252(x, y);
    lemma_and_u64_248(x, y);
    lemma_and_u64_240(x, y);
    lemma_and_u64_224(x, y);
    lemma_and_u64_192(x, y);
}
pub proof fn lemma_or_u64(x: u64, y: u64)
    ensures or_half(x as int, y as int, (x | y) as int), (x | y) == (y | x),
{
    assert((x | y) >= x && (x | y) == (y | x)) by (bit_vector);
    assert(x | 0 == x && 0 | x == x) by (bit_vector);
    assert(0u64 | y == y) by (bit_vector);
    assert(y < 2u64 && x % 2u64 == 0 ==> (x | y) == x + y) by (bit_vector);
    assert(y < 4u64 && x % 4u64 == 0 ==> (x | y) == x + y) by (bit_vector);
    assert(y < 8u64 && x % 8u64 == 0 ==> (x | y) == x + y) by (bit_vector);
    assert(y < 16u64 && x % 16u64 == 0 ==> (x | y) == x + y) by (bit_vector);
    assert(y < 32u64 && x % 32u64 == 0 ==> (x | y) == x + y) by (bit_vector);
    assert(y < 64u64 && x % 64u64 == 0 ==> (x | y) == x + y) by (bit_vector);
    assert(y < 128u64 && x % 128u64 == 0 ==> (x | y) == x + y) by (bit_vector);
    assert(y < 256u64 && x % 256u64 == 0 ==> (x | y) == x + y) by (bit_vector);
    assert(y < 512u64 && x % 512u64 == 0 ==> (x | y) == x + y) by (bit_vector);
    assert(y < 1024u64 && x % 1024u64 == 0 ==> (x | y) == x + y) by (bit_vector);
    assert(y < 2048u64 && x % 2048u64 == 0 ==> (x | y) == x + y) by (bit_vector);
    assert(y < 4096u64 && x % 4096u64 == 0 ==> (x | y) == x + y) by (bit_vector);
    assert(y < 8192u64 && x % 8192u64 == 0 ==> (x | y) == x + y) by (bit_vector);
    assert(y < 16384u64 && x % 16384u64 == 0 ==> (x | y) == x + y) by (bit_vector);
    assert(y < 32768u64 && x % 32768u64 == 0 ==> (x | y) == x + y) by (bit_vector);
    assert(y < 65536u64 && x % 65536u64 == 0 ==> (x | y) == x + y) by (bit_vector);
    assert(y < 131072u64 && x % 131072u64 == 0 ==> (x | y) == x + y) by (bit_vector);
    assert(y < 262144u64 && x % 262144u64 == 0 ==> (x | y) == x + y) by (bit_vector);
    assert(y < 524288u64 && x % 524288u64 == 0 ==> (x | y) == x + y) by (bit_vector);
    assert(y < 1048576u64 && x % 1048576u64 == 0 ==> (x | y) == x + y) by (bit_vector);
    assert(y < 2097152u64 && x % 2097152u64 == 0 ==> (x | y) == x + y) by (bit_vector);
    assert(y < 4194304u64 && x % 4194304u64 == 0 ==> (x | y) == x + y) by (bit_vector);
    assert(y < 8388608u64 && x % 8388608u64 == 0 ==> (x | y) == x + y) by (bit_vector);
    assert(y < 16777216u64 && x % 16777216u64 == 0 ==> (x | y) == x + y) by (bit_vector);
    assert(y < 33554432u64 && x % 33554432u64 == 0 ==> (x | y) == x + y) by (bit_vector);
    assert(y < 67108864u64 && x % 67108864u64 == 0 ==> (x | y) == x + y) by (bit_vector);
    assert(y < 134217728u64 && x % 134217728u64 == 0 ==> (x | y) == x + y) by (bit_vector);
    assert(y < 268435456u64 && x % 268435456u64 == 0 ==> (x | y) == x + y) by (bit_vector);
    assert(y < 536870912u64 && x % 536870912u64 == 0 ==> (x | y) == x + y) by (bit_vector);
    assert(y < 1073741824u64 && x % 1073741824u64 == 0 ==> (x | y) == x + y) by (bit_vector);
    assert(y < 2147483648u64 && x % 2147483648u64 == 0 ==> (x | y) == x + y) by (bit_vector);
    assert(y < 4294967296u64 && x % 4294967296u64 == 0 ==> (x | y) == x + y) by (bit_vector);
    assert(y < 1099511627776u64 && x % 1099511627776u64 == 0 ==> (x | y) == x + y) by (bit_vector);
    assert(y < 281474976710656u64 && x % 281474976710656u64 == 0 ==> (x | y) == x + y) by (bit_vector);
    assert(y < 72057594037927936u64 && x % 72057594037927936u64 == 0 ==> (x | y) == x + y) by (bit_vector);
}
pub proof fn lemma_shr_u64(x: u64, k: u64)
    requires k < 64,
    ensures shr_tab(x as int, k as int, (x >> k) as int),
{
    assert(k < 64 ==> x >> k <= x) by (bit_vector);
    assert(x >> 0 == x / 1u64) by (bit_vector);
    assert(x >> 1 == x / 2u64) by (bit_vector);
    assert(x >> 2 == x / 4u64) by (bit_vector);
    assert(x >> 3 == x / 8u64) by (bit_vector);
    assert(x >> 4 == x / 16u64) by (bit_vector);
    assert(x >> 5 == x / 32u64) by (bit_vector);
    assert(x >> 6 == x / 64u64) by (bit_vector);
    assert(x >> 7 == x / 128u64) by (bit_vector);
    assert(x >> 8 == x / 256u64) by (bit_vector);
    assert(x >> 9 == x / 512u64) by (bit_vector);
    assert(x >> 10 == x / 1024u64) by (bit_vector);
    assert(x >> 11 == x / 2048u64) by (bit_vector);
    assert(x >> 12 == x / 4096u64) by (bit_vector);
    assert(x >> 13 == x / 8192u64) by (bit_vector);
    assert(x >> 14 == x / 16384u64) by (bit_vector);
    assert(x >> 15 == x / 32768u64) by (bit_vector);
    assert(x >> 16 == x / 65536u64) by (bit_vector);
    assert(x >> 17 == x / 131072u64) by (bit_vector);
    assert(x >> 18 == x / 262144u64) by (bit_vector);
    assert(x >> 19 == x / 524288u64) by (bit_vector);
    assert(x >> 20 == x / 1048576u64) by (bit_vector);
    assert(x >> 21 == x / 2097152u64) by (bit_vector);
    assert(x >> 22 == x / 4194304u64) by (bit_vector);
    assert(x >> 23 == x / 8388608u64) by (bit_vector);
    assert(x >> 24 == x / 16777216u64) by (bit_vector);
    assert(x >> 25 == x / 33554432u64) by (bit_vector);
    assert(x >> 26 == x / 67108864u64) by (bit_vector);
    assert(x >> 27 == x / 134217728u64) by (bit_vector);
    assert(x >> 28 == x / 268435456u64) by (bit_vector);
    assert(x >> 29 == x / 536870912u64) by (bit_vector);
    assert(x >> 30 == x / 1073741824u64) by (bit_vector);
    assert(x >> 31 == x / 2147483648u64) by (bit_vector);
    assert(x >> 32 == x / 4294967296u64) by (bit_vector);
    assert(x >> 40 == x / 1099511627776u64) by (bit_vector);
    assert(x >> 48 == x / 281474976710656u64) by (bit_vector);
    assert(x >> 56 == x / 72057594037927936u64) by (bit_vector);
    assert(x >> 63 == x / 9223372036854775808u64) by (bit_vector);
}
pub proof fn lemma_shl_u64(x: u64, k: u64)
    requires k < 64,
    ensures shl_tab(x as int, k as int, 18446744073709551616, (x << k) as int),
{
    assert(x << 0 == x) by (bit_vector);
    assert(x < 9223372036854775808u64 ==> x << 1 == x * 2u64) by (bit_vector);
    assert(x < 4611686018427387904u64 ==> x << 2 == x * 4u64) by (bit_vector);
    assert(x < 2305843009213693952u64 ==> x << 3 == x * 8u64) by (bit_vector);
    assert(x < 1152921504606846976u64 ==> x << 4 == x * 16u64) by (bit_vector);
    assert(x < 576460752303423488u64 ==> x << 5 == x * 32u64) by (bit_vector);
    assert(x < 288230376151711744u64 ==> x << 6 == x * 64u64) by (bit_vector);
    assert(x < 144115188075855872u64 ==> x << 7 == x * 128u64) by (bit_vector);
    assert(x < 72057594037927936u64 ==> x << 8 == x * 256u64) by (bit_vector);
    assert(x < 36028797018963968u64 ==> x << 9 == x * 512u64) by (bit_vector);
    assert(x < 18014398509481984u64 ==> x << 10 == x * 1024u64) by (bit_vector);
    assert(x < 9007199254740992u64 ==> x << 11 == x * 2048u64) by (bit_vector);
    assert(x < 4503599627370496u64 ==> x << 12 == x * 4096u64) by (bit_vector);
    assert(x < 2251799813685248u64 ==> x << 13 == x * 8192u64) by (bit_vector);
    assert(x < 1125899906842624u64 ==> x << 14 == x * 16384u64) by (bit_vector);
    assert(x < 562949953421312u64 ==> x << 15 == x * 32768u64) by (bit_vector);
    assert(x < 281474976710656u64 ==> x << 16 == x * 65536u64) by (bit_vector);
    assert(x < 140737488355328u64 ==> x << 17 == x * 131072u64) by (bit_vector);
    assert(x < 70368744177664u64 ==> x << 18 == x * 262144u64) by (bit_vector);
    assert(x < 35184372088832u64 ==> x << 19 == x * 524288u64) by (bit_vector);
    assert(x < 17592186044416u64 ==> x << 20 == x * 1048576u64) by (bit_vector);
    assert(x < 8796093022208u64 ==> x << 21 == x * 2097152u64) by (bit_vector);
    assert(x < 4398046511104u64 ==> x << 22 == x * 4194304u64) by (bit_vector);
    assert(x < 2199023255552u64 ==> x << 23 == x * 8388608u64) by (bit_vector);
    assert(x < 1099511627776u64 ==> x << 24 == x * 16777216u64) by (bit_vector);
    assert(x < 549755813888u64 ==> x << 25 == x * 33554432u64) by (bit_vector);
    assert(x < 274877906944u64 ==> x << 26 == x * 67108864u64) by (bit_vector);
    assert(x < 137438953472u64 ==> x << 27 == x * 134217728u64) by (bit_vector);
    assert(x < 68719476736u64 ==> x << 28 == x * 268435456u64) by (bit_vector);
    assert(x < 34359738368u64 ==> x << 29 == x * 536870912u64) by (bit_vector);
    assert(x < 17179869184u64 ==> x << 30 == x * 1073741824u64) by (bit_vector);
    assert(x < 8589934592u64 ==> x << 31 == x * 2147483648u64) by (bit_vector);
    assert(x < 4294967296u64 ==> x << 32 == x * 4294967296u64) by (bit_vector);
    assert(x < 16777216u64 ==> x << 40 == x * 1099511627776u64) by (bit_vector);
    assert(x < 65536u64 ==> x << 48 == x * 281474976710656u64) by (bit_vector);
    assert(x < 256u64 ==> x << 56 == x * 72057594037927936u64) by (bit_vector);
    assert(x < 2u64 ==> x << 63 == x * 9223372036854775808u64) by (bit_vector);
}
/// Bit operations as functions, so that what they mean is a contract of the call.
pub trait Bits: Sized + Copy {
    spec fn and_ok(a: Self, b: Self, r: Self) -> bool;
    spec fn or_ok(a: Self, b: Self, r: Self) -> bool;
    spec fn xor_ok(a: Self, b: Self, r: Self) -> bool;
    spec fn shl_ok(a: Self, k: int, r: Self) -> bool;
    spec fn shr_ok(a: Self, k: int, r: Self) -> bool;
    spec fn width() -> int;
    fn and_(self, o: Self) -> (r: Self) ensures Self::and_ok(self, o, r);
    fn or_(self, o: Self) -> (r: Self) ensures Self::or_ok(self, o, r);
    fn xor_(self, o: Self) -> (r: Self) ensures Self::xor_ok(self, o, r);
    fn shl_<K: Num>(self, k: K) -> (r: Self) requires 0 <= k.iv() < Self::width() ensures Self::shl_ok(self, k.iv(), r);
    fn shr_<K: Num>(self, k: K) -> (r: Self) requires 0 <= k.iv() < Self::width() ensures Self::shr_ok(self, k.iv(), r);
}
impl Bits for u8 {
    open spec fn and_ok(a: Self, b: Self, r: Self) -> bool { and_tab(a as int, b as int, r as int) }
    open spec fn or_ok(a: Self, b: Self, r: Self) -> bool { or_tab(a as int, b as int, r as int) }
    open spec fn xor_ok(a: Self, b: Self, r: Self) -> bool { (r == 0) == (a == b) }
    open spec fn shl_ok(a: Self, k: int, r: Self) -> bool { shl_tab(a as int, k, 256, r as int) }
    open spec fn shr_ok(a: Self, k: int, r: Self) -> bool { shr_tab(a as int, k, r as int) }
    open spec fn width() -> int { 8 }
    fn and_(self, o: Self) -> (r: Self) { proof { lemma_and_u8(self, o); lemma_and_u8(o, self); } self & o }
    fn or_(self, o: Self) -> (r: Self) { proof { lemma_or_u8(self, o); lemma_or_u8(o, self); } self | o }
    fn xor_(self, o: Self) -> (r: Self) { let (a, b) = (self, o); proof { assert(((a ^ b) == 0) == (a == b)) by (bit_vector); } a ^ b }
    fn shl_<K: Num>(self, k: K) -> (r: Self) { let k = k.as_u64_(); proof { lemma_shl_u8(self, k); } self << k }
    fn shr_<K: Num>(self, k: K) -> (r: Self) { let k = k.as_u64_(); proof { lemma_shr_u8(self, k); } self >> k }
}
impl Bits for u16 {
    open spec fn and_ok(a: Self, b: Self, r: Self) -> bool { and_tab(a as int, b as int, r as int) }
    open spec fn or_ok(a: Self, b: Self, r: Self) -> bool { or_tab(a as int, b as int, r as int) }
    open spec fn xor_ok(a: Self, b: Self, r: Self) -> bool { (r == 0) == (a == b) }
    open spec fn shl_ok(a: Self, k: int, r: Self) -> bool { shl_tab(a as int, k, 65536, r as int) }
    open spec fn shr_ok(a: Self, k: int, r: Self) -> bool { shr_tab(a as int, k, r as int) }
    open spec fn width() -> int { 16 }
    fn and_(self, o: Self) -> (r: Self) { proof { lemma_and_u16(self, o); lemma_and_u16(o, self); } self & o }
    fn or_(self, o: Self) -> (r: Self) { proof { lemma_or_u16(self, o); lemma_or_u16(o, self); } self | o }
    fn xor_(self, o: Self) -> (r: Self) { let (a, b) = (self, o); proof { assert(((a ^ b) == 0) == (a == b)) by (bit_vector); } a ^ b }
    fn shl_<K: Num>(self, k: K) -> (r: Self) { let k = k.as_u64_(); proof { lemma_shl_u16(self, k); } self << k }
    fn shr_<K: Num>(self, k: K) -> (r: Self) { let k = k.as_u64_(); proof { lemma_shr_u16(self, k); } self >> k }
}
impl Bits for u32 {
    open spec fn and_ok(a: Self, b: Self, r: Self) -> bool { and_tab(a as int, b as int, r as int) }
    open spec fn or_ok(a: Self, b: Self, r: Self) -> bool { or_tab(a as int, b as int, r as int) }
    open spec fn xor_ok(a: Self, b: Self, r: Self) -> bool { (r == 0) == (a == b) }
    open spec fn shl_ok(a: Self, k: int, r: Self) -> bool { shl_tab(a as int, k, 4294967296, r as int) }
    open spec fn shr_ok(a: Self, k: int, r: Self) -> bool { shr_tab(a as int, k, r as int) }
    open spec fn width() -> int { 32 }
    fn and_(self, o: Self) -> (r: Self) { proof { lemma_and_u32(self, o); lemma_and_u32(o, self); } self & o }
    fn or_(self, o: Self) -> (r: Self) { proof { lemma_or_u32(self, o); lemma_or_u32(o, self); } self | o }
    fn xor_(self, o: Self) -> (r: Self) { let (a, b) = (self, o); proof { assert(((a ^ b) == 0) == (a == b)) by (bit_vector); } a ^ b }
    fn shl_<K: Num>(self, k: K) -> (r: Self) { let k = k.as_u64_(); proof { lemma_shl_u32(self, k); } self << k }
    fn shr_<K: Num>(self, k: K) -> (r: Self) { let k = k.as_u64_(); proof { lemma_shr_u32(self, k); } self >> k }
}
impl Bits for u64 {
    open spec fn and_ok(a: Self, b: Self, r: Self) -> bool { and_tab(a as int, b as int, r as int) }
    open spec fn or_ok(a: Self, b: Self, r: Self) -> bool { or_tab(a as int, b as int, r as int) }
    open spec fn xor_ok(a: Self, b: Self, r: Self) -> bool { (r == 0) == (a == b) }
    open spec fn shl_ok(a: Self, k: int, r: Self) -> bool { shl_tab(a as int, k, 18446744073709551616, r as int) }
    open spec fn shr_ok(a: Self, k: int, r: Self) -> bool { shr_tab(a as int, k, r as int) }
    open spec fn width() -> int { 64 }
    fn and_(self, o: Self) -> (r: Self) { proof { lemma_and_u64(self, o); lemma_and_u64(o, self); } self & o }
    fn or_(self, o: Self) -> (r: Self) { proof { lemma_or_u64(self, o); lemma_or_u64(o, self); } self | o }
    fn xor_(self, o: Self) -> (r: Self) { let (a, b) = (self, o); proof { assert(((a ^ b) == 0) == (a == b)) by (bit_vector); } a ^ b }
    fn shl_<K: Num>(self, k: K) -> (r: Self) { let k = k.as_u64_(); proof { lemma_shl_u64(self, k); } self << k }
    fn shr_<K: Num>(self, k: K) -> (r: Self) { let k = k.as_u64_(); proof { lemma_shr_u64(self, k); } self >> k }
}
impl Bits for usize {
    open spec fn and_ok(a: Self, b: Self, r: Self) -> bool { and_tab(a as int, b as int, r as int) }
    open spec fn or_ok(a: Self, b: Self, r: Self) -> bool { or_tab(a as int, b as int, r as int) }
    open spec fn xor_ok(a: Self, b: Self, r: Self) -> bool { (r == 0) == (a == b) }
    open spec fn shl_ok(a: Self, k: int, r: Self) -> bool { shl_tab(a as int, k, 18446744073709551616, r as int) }
    open spec fn shr_ok(a: Self, k: int, r: Self) -> bool { shr_tab(a as int, k, r as int) }
    open spec fn width() -> int { 64 }
    fn and_(self, o: Self) -> (r: Self) { proof { lemma_and_u64(self as u64, o as u64); lemma_and_u64(o as u64, self as u64); } ((self as u64) & (o as u64)) as usize }
    fn or_(self, o: Self) -> (r: Self) { proof { lemma_or_u64(self as u64, o as u64); lemma_or_u64(o as u64, self as u64); } ((self as u64) | (o as u64)) as usize }
    fn xor_(self, o: Self) -> (r: Self) { let (a, b) = (self, o); proof { assert(((a ^ b) == 0) == (a == b)) by (bit_vector); } a ^ b }
    fn shl_<K: Num>(self, k: K) -> (r: Self) { let k = k.as_u64_(); proof { lemma_shl_u64(self as u64, k); } ((self as u64) << k) as usize }
    fn shr_<K: Num>(self, k: K) -> (r: Self) { let k = k.as_u64_(); proof { lemma_shr_u64(self as u64, k); } ((self as u64) >> k) as usize }
}
impl Bits for i8 {
    open spec fn and_ok(a: Self, b: Self, r: Self) -> bool { true }
    open spec fn or_ok(a: Self, b: Self, r: Self) -> bool { true }
    open spec fn xor_ok(a: Self, b: Self, r: Self) -> bool { true }
    open spec fn shl_ok(a: Self, k: int, r: Self) -> bool { true }
    open spec fn shr_ok(a: Self, k: int, r: Self) -> bool { true }
    open spec fn width() -> int { 8 }
    #[verifier::external_body] fn and_(self, o: Self) -> (r: Self) { self & o }
    #[verifier::external_body] fn or_(self, o: Self) -> (r: Self) { self | o }
    #[verifier::external_body] fn xor_(self, o: Self) -> (r: Self) { self ^ o }
    #[verifier::external_body] fn shl_<K: Num>(self, k: K) -> (r: Self) { unimplemented!() }
    #[verifier::external_body] fn shr_<K: Num>(self, k: K) -> (r: Self) { unimplemented!() }
}
impl Bits for i16 {
    open spec fn and_ok(a: Self, b: Self, r: Self) -> bool { true }
    open spec fn or_ok(a: Self, b: Self, r: Self) -> bool { true }
    open spec fn xor_ok(a: Self, b: Self, r: Self) -> bool { true }
    open spec fn shl_ok(a: Self, k: int, r: Self) -> bool { true }
    open spec fn shr_ok(a: Self, k: int, r: Self) -> bool { true }
    open spec fn width() -> int { 16 }
    #[verifier::external_body] fn and_(self, o: Self) -> (r: Self) { self & o }
    #[verifier::external_body] fn or_(self, o: Self) -> (r: Self) { self | o }
    #[verifier::external_body] fn xor_(self, o: Self) -> (r: Self) { self ^ o }
    #[verifier::external_body] fn shl_<K: Num>(self, k: K) -> (r: Self) { unimplemented!() }
    #[verifier::external_body] fn shr_<K: Num>(self, k: K) -> (r: Self) { unimplemented!() }
}
impl Bits for i32 {
    open spec fn and_ok(a: Self, b: Self, r: Self) -> bool { true }
    open spec fn or_ok(a: Self, b: Self, r: Self) -> bool { true }
    open spec fn xor_ok(a: Self, b: Self, r: Self) -> bool { true }
    open spec fn shl_ok(a: Self, k: int, r: Self) -> bool { true }
    open spec fn shr_ok(a: Self, k: int, r: Self) -> bool { true }
    open spec fn width() -> int { 32 }
    #[verifier::external_body] fn and_(self, o: Self) -> (r: Self) { self & o }
    #[verifier::external_body] fn or_(self, o: Self) -> (r: Self) { self | o }
    #[verifier::external_body] fn xor_(self, o: Self) -> (r: Self) { self ^ o }
    #[verifier::external_body] fn shl_<K: Num>(self, k: K) -> (r: Self) { unimplemented!() }
    #[verifier::external_body] fn shr_<K: Num>(self, k: K) -> (r: Self) { unimplemented!() }
}
impl Bits for i64 {
    open spec fn and_ok(a: Self, b: Self, r: Self) -> bool { true }
    open spec fn or_ok(a: Self, b: Self, r: Self) -> bool { true }
    open spec fn xor_ok(a: Self, b: Self, r: Self) -> bool { true }
    open spec fn shl_ok(a: Self, k: int, r: Self) -> bool { true }
    open spec fn shr_ok(a: Self, k: int, r: Self) -> bool { true }
    open spec fn width() -> int { 64 }
    #[verifier::external_body] fn and_(self, o: Self) -> (r: Self) { self & o }
    #[verifier::external_body] fn or_(self, o: Self) -> (r: Self) { self | o }
    #[verifier::external_body] fn xor_(self, o: Self) -> (r: Self) { self ^ o }
    #[verifier::external_body] fn shl_<K: Num>(self, k: K) -> (r: Self) { unimplemented!() }
    #[verifier::external_body] fn shr_<K: Num>(self, k: K) -> (r: Self) { unimplemented!() }
}
impl Bits for isize {
    open spec fn and_ok(a: Self, b: Self, r: Self) -> bool { true }
    open spec fn or_ok(a: Self, b: Self, r: Self) -> bool { true }
    open spec fn xor_ok(a: Self, b: Self, r: Self) -> bool { true }
    open spec fn shl_ok(a: Self, k: int, r: Self) -> bool { true }
    open spec fn shr_ok(a: Self, k: int, r: Self) -> bool { true }
    open spec fn width() -> int { 64 }
    #[verifier::external_body] fn and_(self, o: Self) -> (r: Self) { self & o }
    #[verifier::external_body] fn or_(self, o: Self) -> (r: Self) { self | o }
    #[verifier::external_body] fn xor_(self, o: Self) -> (r: Self) { self ^ o }
    #[verifier::external_body] fn shl_<K: Num>(self, k: K) -> (r: Self) { unimplemented!() }
    #[verifier::external_body] fn shr_<K: Num>(self, k: K) -> (r: Self) { unimplemented!() }
}
impl Bits for bool {
    open spec fn and_ok(a: Self, b: Self, r: Self) -> bool { r == (a && b) }
    open spec fn or_ok(a: Self, b: Self, r: Self) -> bool { r == (a || b) }
    open spec fn xor_ok(a: Self, b: Self, r: Self) -> bool { r == (a != b) }
    open spec fn shl_ok(a: Self, k: int, r: Self) -> bool { false }
    open spec fn shr_ok(a: Self, k: int, r: Self) -> bool { false }
    open spec fn width() -> int { 0 }
    fn and_(self, o: Self) -> (r: Self) { if self { o } else { false } }
    fn or_(self, o: Self) -> (r: Self) { if self { true } else { o } }
    fn xor_(self, o: Self) -> (r: Self) { self != o }
    #[verifier::external_body] fn shl_<K: Num>(self, k: K) -> (r: Self) { unimplemented!() }
    #[verifier::external_body] fn shr_<K: Num>(self, k: K) -> (r: Self) { unimplemented!() }
}
#[verifier::opaque]
pub open spec fn lz8(x: int) -> int {
    if x >= 128 { 0 } else if x >= 64 { 1 } else if x >= 32 { 2 } else if x >= 16 { 3 } else if x >= 8 { 4 } else if x >= 4 { 5 } else if x >= 2 { 6 } else if x >= 1 { 7 } else { 8 }
}
pub broadcast proof fn lemma_lz8(x: int)
    ensures #[trigger] lz(x, 8) == lz8(x)
{ reveal(lz8); reveal_with_fuel(lz, 9); reveal_with_fuel(pow2i, 9); }
pub broadcast proof fn lemma_lz8_range(x: int)
    ensures 0 <= #[trigger] lz8(x) <= 8
{ reveal(lz8); }
pub broadcast proof fn lemma_lz_range(x: int, b: int)
    ensures b >= 0 ==> 0 <= #[trigger] lz(x, b) <= b
    decreases b
{ reveal_with_fuel(lz, 2); if b > 0 { lemma_lz_range(x, b - 1); } }

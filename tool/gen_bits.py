"""Generates verus/bits.rs: what bit operations mean arithmetically, each case proved by bit-blasting.
A case of a table carries a tag, so that a check can leave out the cases about constants its code does
not use (which only weakens what it assumes)."""
o = ["""// Generated by tool/gen_bits.py. Proved, nothing trusted here.
/// The low k bits of x and its bit k, kept apart from the remainder arithmetic.
#[verifier::opaque]
pub open spec fn lowb(x: int, k: int) -> int { LOWDEF }
#[verifier::opaque]
pub open spec fn bitk(x: int, k: int) -> int { BITDEF }"""]
LOW = [k for k in range(1, 33)]
o[0] = o[0].replace('LOWDEF', 'if k <= 0 { 0 } else ' + ' else '.join('if k == %d { x %% %d }' % (k, 1 << k) for k in LOW) + ' else { x }')
o[0] = o[0].replace('BITDEF', ' else '.join('if k == %d { (x / %d) %% 2 }' % (k, 1 << k) for k in range(0, 32)) + ' else { 0 }')
HIGH8 = [(1 << 8) - (1 << k) for k in range(1, 7)]
SH = list(range(0, 33)) + [40, 48, 56, 63]

def table(name, params, always, items):
    o.append('pub open spec fn %s(%s) -> bool {\n    %s\n%s\n}' % (name, params, always, '\n'.join('    /*%s*/ && (%s)' % (t, c) for t, c in items)))

and_items = [('and:0', 'y == 0 ==> r == 0 && lowb(x, 0) == 0')]
for k in LOW:
    and_items.append(('and:%d' % ((1 << k) - 1), 'y == %d ==> r == lowb(x, %d)' % ((1 << k) - 1, k)))
    if k > 1:
        and_items.append(('and:%d' % (1 << (k - 1)), 'y == %d ==> r == bitk(x, %d) * %d' % (1 << (k - 1), k - 1, 1 << (k - 1))))
for m in HIGH8:
    low = 256 - m
    and_items.append(('and:%d' % m, 'y == %d ==> r == lowb(x, 8) - lowb(x, %d)' % (m, low.bit_length() - 1)))
table('and_half', 'x: int, y: int, r: int', 'r <= x && r <= y', and_items)
o.append('pub open spec fn and_tab(x: int, y: int, r: int) -> bool { and_half(x, y, r) && and_half(y, x, r) }')
or_items = [('or:%d' % (1 << k), 'y < %d && x %% %d == 0 ==> r == x + y' % (1 << k, 1 << k)) for k in range(1, 33)]
or_items += [('or:%d' % (1 << k), 'y < %d && x %% %d == 0 ==> r == x + y' % (1 << k, 1 << k)) for k in (40, 48, 56)]
table('or_half', 'x: int, y: int, r: int', 'r >= x && (y == 0 ==> r == x)', or_items)
o.append('pub open spec fn or_tab(x: int, y: int, r: int) -> bool { or_half(x, y, r) && or_half(y, x, r) }')
table('shl_tab', 'x: int, k: int, w: int, r: int', 'r >= 0', [('shl:%d' % k, 'k == %d && x * %d < w ==> r == x * %d' % (k, 1 << k, 1 << k)) for k in SH])
table('shr_tab', 'x: int, k: int, r: int', 'r <= x', [('shr:%d' % k, 'k == %d ==> r == x / %d' % (k, 1 << k)) for k in SH])

T = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64}
for t, b in T.items():
    M = 1 << b
    names = []
    def small(tag, concl, proof):
        n = 'lemma_and_%s_%s' % (t, tag)
        names.append(n)
        o.append('proof fn %s(x: %s, y: %s)\n    ensures %s,\n{\n    reveal(lowb); reveal(bitk); %s\n}' % (n, t, t, concl.replace(' r ', ' (x & y) ').replace('(x,', '(x as int,'), proof))
    o.append('proof fn lemma_and_%s_0(x: %s)\n    ensures x & 0 == 0, lowb(x as int, 0) == 0,\n{\n    reveal(lowb); assert(x & 0 == 0) by (bit_vector);\n}' % (t, t))
    for k in LOW:
        for m in {(1 << k) - 1, 1 << (k - 1)}:
            c = [c for tag, c in and_items if tag == 'and:%d' % m][0]
            if m >= M:
                continue
            if m == (1 << k) - 1:
                small(str(m), c, 'assert(x & %d%s == %s) by (bit_vector);' % (m, t, 'x %% %d%s' % (1 << k, t) if k < b else 'x'))
            else:
                small(str(m), c, 'assert(x & %d%s == ((x / %d%s) %% 2%s) * %d%s) by (bit_vector);' % (m, t, m, t, t, m, t))
    for m in HIGH8:
        c = [c for tag, c in and_items if tag == 'and:%d' % m][0]
        small(str(m), c, 'assert(x & %d%s == %s) by (bit_vector);' % (m, t, ('sub(x %% 256%s, x %% %d%s)' % (t, 256 - m, t)) if b > 8 else 'sub(x, x %% %d%s)' % (256 - m, t)))
    o.append('pub proof fn lemma_and_%s(x: %s, y: %s)\n    ensures and_half(x as int, y as int, (x & y) as int), (x & y) == (y & x),\n{\n    assert((x & y) <= x && (x & y) <= y && (x & y) == (y & x)) by (bit_vector);\n    lemma_and_%s_0(x);\n    %s\n}' % (t, t, t, t, '\n    '.join('%s(x, y);' % n for n in dict.fromkeys(names))))
    a = []
    for k in list(range(1, 33)) + [40, 48, 56]:
        if k < b:
            a.append('assert(y < %d%s && x %% %d%s == 0 ==> (x | y) == x + y) by (bit_vector);' % (1 << k, t, 1 << k, t))
    o.append('pub proof fn lemma_or_%s(x: %s, y: %s)\n    ensures or_half(x as int, y as int, (x | y) as int), (x | y) == (y | x),\n{\n    assert((x | y) >= x && (x | y) == (y | x)) by (bit_vector);\n    assert(x | 0 == x && 0 | x == x) by (bit_vector);\n    assert(0%s | y == y) by (bit_vector);\n    %s\n}' % (t, t, t, t, '\n    '.join(a)))
    a = []
    c = []
    for k in SH:
        if k < b:
            a.append('assert(x >> %d == x / %d%s) by (bit_vector);' % (k, 1 << k, t))
            c.append('assert(x < %s ==> x << %d == x * %d%s) by (bit_vector);' % ('%d%s' % (1 << (b - k), t) if k else '%d%s || true' % (M - 1, t), k, 1 << k, t) if k else 'assert(x << 0 == x) by (bit_vector);')
    o.append('pub proof fn lemma_shr_%s(x: %s, k: u64)\n    requires k < %d,\n    ensures shr_tab(x as int, k as int, (x >> k) as int),\n{\n    assert(k < %d ==> x >> k <= x) by (bit_vector);\n    %s\n}' % (t, t, b, b, '\n    '.join(a)))
    o.append('pub proof fn lemma_shl_%s(x: %s, k: u64)\n    requires k < %d,\n    ensures shl_tab(x as int, k as int, %d, (x << k) as int),\n{\n    %s\n}' % (t, t, b, M, '\n    '.join(c)))
o.append("""/// Bit operations as functions, so that what they mean is a contract of the call.
pub trait Bits: Sized + Copy {
    spec fn and_ok(a: Self, b: Self, r: Self) -> bool;
    spec fn or_ok(a: Self, b: Self, r: Self) -> bool;
    spec fn xor_ok(a: Self, b: Self, r: Self) -> bool;
    spec fn shl_ok(a: Self, k: int, r: Self) -> bool;
    spec fn shr_ok(a: Self, k: int, r: Self) -> bool;
    spec fn width() -> int;
    fn and_(self, o: Self) -> (r: Self) ensures Self::and_ok(self, o, r);
    fn or_(self, o: Self) -> (r: Self) ensures Self::or_ok(self, o, r);
    fn xor_(self, o: Self) -> (r: Self) ensures Self::xor_ok(self, o, r);
    fn shl_<K: Num>(self, k: K) -> (r: Self) requires 0 <= k.iv() < Self::width() ensures Self::shl_ok(self, k.iv(), r);
    fn shr_<K: Num>(self, k: K) -> (r: Self) requires 0 <= k.iv() < Self::width() ensures Self::shr_ok(self, k.iv(), r);
}""")
for t, b in list(T.items()) + [('usize', 64)]:
    u = t if t != 'usize' else 'u64'
    if t == 'usize':
        c = lambda op: '((self as u64) %s (o as u64)) as usize' % op
        s = lambda op: '((self as u64) %s (k.as_u64_())) as usize' % op
        x, y = 'self as u64', 'o as u64'
    else:
        c = lambda op: 'self %s o' % op
        s = lambda op: 'self %s (k.as_u64_())' % op
        x, y = 'self', 'o'
    o.append("""impl Bits for %s {
    open spec fn and_ok(a: Self, b: Self, r: Self) -> bool { and_tab(a as int, b as int, r as int) }
    open spec fn or_ok(a: Self, b: Self, r: Self) -> bool { or_tab(a as int, b as int, r as int) }
    open spec fn xor_ok(a: Self, b: Self, r: Self) -> bool { (r == 0) == (a == b) }
    open spec fn shl_ok(a: Self, k: int, r: Self) -> bool { shl_tab(a as int, k, %d, r as int) }
    open spec fn shr_ok(a: Self, k: int, r: Self) -> bool { shr_tab(a as int, k, r as int) }
    open spec fn width() -> int { %d }
    fn and_(self, o: Self) -> (r: Self) { proof { lemma_and_%s(%s, %s); lemma_and_%s(%s, %s); } %s }
    fn or_(self, o: Self) -> (r: Self) { proof { lemma_or_%s(%s, %s); lemma_or_%s(%s, %s); } %s }
    fn xor_(self, o: Self) -> (r: Self) { let (a, b) = (self, o); proof { assert(((a ^ b) == 0) == (a == b)) by (bit_vector); } a ^ b }
    fn shl_<K: Num>(self, k: K) -> (r: Self) { let k = k.as_u64_(); proof { lemma_shl_%s(%s, k); } %s }
    fn shr_<K: Num>(self, k: K) -> (r: Self) { let k = k.as_u64_(); proof { lemma_shr_%s(%s, k); } %s }
}""" % (t, 1 << b, b, u, x, y, u, y, x, c('&'), u, x, y, u, y, x, c('|'), u, x, s('<<').replace('(k.as_u64_())', 'k'), u, x, s('>>').replace('(k.as_u64_())', 'k')))
for t, b in (('i8', 8), ('i16', 16), ('i32', 32), ('i64', 64), ('isize', 64)):
    o.append("""impl Bits for %s {
    open spec fn and_ok(a: Self, b: Self, r: Self) -> bool { true }
    open spec fn or_ok(a: Self, b: Self, r: Self) -> bool { true }
    open spec fn xor_ok(a: Self, b: Self, r: Self) -> bool { true }
    open spec fn shl_ok(a: Self, k: int, r: Self) -> bool { true }
    open spec fn shr_ok(a: Self, k: int, r: Self) -> bool { true }
    open spec fn width() -> int { %d }
    #[verifier::external_body] fn and_(self, o: Self) -> (r: Self) { self & o }
    #[verifier::external_body] fn or_(self, o: Self) -> (r: Self) { self | o }
    #[verifier::external_body] fn xor_(self, o: Self) -> (r: Self) { self ^ o }
    #[verifier::external_body] fn shl_<K: Num>(self, k: K) -> (r: Self) { unimplemented!() }
    #[verifier::external_body] fn shr_<K: Num>(self, k: K) -> (r: Self) { unimplemented!() }
}""" % (t, b))
o.append("""impl Bits for bool {
    open spec fn and_ok(a: Self, b: Self, r: Self) -> bool { r == (a && b) }
    open spec fn or_ok(a: Self, b: Self, r: Self) -> bool { r == (a || b) }
    open spec fn xor_ok(a: Self, b: Self, r: Self) -> bool { r == (a != b) }
    open spec fn shl_ok(a: Self, k: int, r: Self) -> bool { false }
    open spec fn shr_ok(a: Self, k: int, r: Self) -> bool { false }
    open spec fn width() -> int { 0 }
    fn and_(self, o: Self) -> (r: Self) { if self { o } else { false } }
    fn or_(self, o: Self) -> (r: Self) { if self { true } else { o } }
    fn xor_(self, o: Self) -> (r: Self) { self != o }
    #[verifier::external_body] fn shl_<K: Num>(self, k: K) -> (r: Self) { unimplemented!() }
    #[verifier::external_body] fn shr_<K: Num>(self, k: K) -> (r: Self) { unimplemented!() }
}
#[verifier::opaque]
pub open spec fn lz8(x: int) -> int {
    if x >= 128 { 0 } else if x >= 64 { 1 } else if x >= 32 { 2 } else if x >= 16 { 3 } else if x >= 8 { 4 } else if x >= 4 { 5 } else if x >= 2 { 6 } else if x >= 1 { 7 } else { 8 }
}
pub broadcast proof fn lemma_lz8(x: int)
    ensures #[trigger] lz(x, 8) == lz8(x)
{ reveal(lz8); reveal_with_fuel(lz, 9); reveal_with_fuel(pow2i, 9); }
pub broadcast proof fn lemma_lz8_range(x: int)
    ensures 0 <= #[trigger] lz8(x) <= 8
{ reveal(lz8); }
pub broadcast proof fn lemma_lz_range(x: int, b: int)
    ensures b >= 0 ==> 0 <= #[trigger] lz(x, b) <= b
    decreases b
{ reveal_with_fuel(lz, 2); if b > 0 { lemma_lz_range(x, b - 1); } }""")
open('/verif/verus/bits.rs', 'w').write('\n'.join(o) + '\n')

"""Rewrites the bodies of verus/num.rs: every operation Verus can relate to its own integers is proved
against the mathematical meaning the trait gives it; what is left carries external_body (trusted, and
executed against the standard library by audit/)."""
import os
import re
P = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'verus', 'num.rs')
W = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64, 'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'isize': 64}


def rng(t):
    b = W[t]
    return (0, (1 << b) - 1) if t[0] == 'u' else (-(1 << (b - 1)), (1 << (b - 1)) - 1)


def cast(s, t):
    (a, b), (c, d) = rng(s), rng(t)
    if c <= a and b <= d:
        return 'self as %s' % t
    m = 1 << W[t]
    narrow = W[t] < W[s]
    x = 'x %% %d' % m if narrow else 'x'
    if t[0] == 'u':
        if narrow:
            claim = '(x as %s) as %s == x %% %d' % (t, s, m)
        else:
            claim = 'x < 0 ==> (x as %s) == x + %d' % (t, m)
        rev = 'reveal(wrapped_u); '
    else:
        h = m >> 1
        claim = '(%s < %d ==> (x as %s) == %s) && (%s >= %d ==> (x as %s) == (%s) - %d)' % (x, h, t, x, x, h, t, x, m)
        rev = 'reveal(wrapped_s); '
    extra = ''
    if not narrow and t[0] == 'u':
        extra = ' assert(x >= 0 ==> (x as %s) == x) by (bit_vector);' % t
    return 'let x = self; proof { %sassert(%s) by (bit_vector);%s } #[verifier::truncate](x as %s)' % (rev, claim, extra, t)


BOOL = {
    'min_': 'self && o', 'max_': 'self || o', 'clamp_': 'if !self && a { a } else if self && !b { b } else { self }',
    'saturating_add_': 'self || o', 'saturating_sub_': 'self && !o', 'saturating_mul_': 'proof { assert(1int * o.iv() == o.iv()); assert(0int * o.iv() == 0int) by (nonlinear_arith); if self { assert(self.iv() == 1int); } else { assert(self.iv() == 0int); } } self && o',
    'wrapping_add_': 'proof { reveal(wrapped_u); assert(2int % 2int == 0int) by (compute); } self != o', 'wrapping_sub_': 'proof { reveal(wrapped_u); assert((0int - 1int) % 2int == 1int) by (compute); assert(2int % 2int == 0int) by (compute); } self != o',
    'checked_add_': 'if self && o { None } else { Some(self || o) }', 'checked_sub_': 'if !self && o { None } else { Some(self && !o) }',
    'checked_mul_': 'proof { assert(1int * o.iv() == o.iv()); assert(0int * o.iv() == 0int) by (nonlinear_arith); if self { assert(self.iv() == 1int); } else { assert(self.iv() == 0int); } } Some(self && o)', 'leading_zeros_': 'proof { reveal_with_fuel(lz, 2); reveal_with_fuel(pow2i, 2); } if self { 0 } else { 1 }'}


def body(s, name):
    if s == 'bool':
        return BOOL.get(name, 'if self { 1 } else { 0 }')
    m = re.match(r'as_(\w+?)_$', name)
    if m:
        return cast(s, m.group(1))
    op = name[:-1]
    u = s[0] == 'u'
    if op.startswith('checked_'):
        return 'self.%s(o)' % op
    if op.startswith('saturating_') and u:
        return 'self.%s(o)' % op
    if op.startswith('wrapping_') and u:
        return 'proof { reveal(wrapped_u); } self.%s(o)' % op
    if op.startswith('wrapping_'):
        return 'proof { reveal(wrapped_s); } self.%s(o)' % op
    if op == 'leading_zeros' and s in ('u8', 'u16', 'u32', 'u64'):
        return 'proof { lemma_lz_%s(self); } self.leading_zeros()' % s
    return None


LZ = '''// lemmas about leading zeros, generated by tool/gen_num.py
proof fn lemma_lz(x: int, b: int, k: int)
    requires 0 <= k < b, pow2i(b - 1 - k) <= x < pow2i(b - k),
    ensures lz(x, b) == k,
    decreases k,
{
    reveal_with_fuel(lz, 2);
    if k > 0 { lemma_pow2i_mono(b - k, b - 1); lemma_lz(x, b - 1, k - 1); }
}
proof fn lemma_pow2i_mono(a: int, b: int) requires a <= b ensures pow2i(a) <= pow2i(b), 1 <= pow2i(a) decreases b - a, b
{ reveal_with_fuel(pow2i, 2); if a < b { lemma_pow2i_mono(a, b - 1); } else if a > 0 { lemma_pow2i_mono(a - 1, b - 1); } }
proof fn lemma_lz_zero(b: int) requires b >= 0 ensures lz(0, b) == b decreases b
{ reveal_with_fuel(lz, 2); if b > 0 { lemma_pow2i_mono(0, b - 1); reveal_with_fuel(pow2i, 1); lemma_lz_zero(b - 1); } }
'''


def lz_lemmas():
    o = LZ
    for b in (8, 16, 32, 64):
        t = 'u%d' % b
        o += 'proof fn lemma_lz_%s(x: %s)\n    ensures lz(x as int, %d) == vstd::std_specs::bits::%s_leading_zeros(x) as int,\n{\n' % (t, t, b, t)
        o += '    vstd::std_specs::bits::axiom_%s_leading_zeros(x);\n    let z = vstd::std_specs::bits::%s_leading_zeros(x) as int;\n    if x == 0 { lemma_lz_zero(%d); }\n' % (t, t, b)
        for k in range(b):
            lo, hi = b - 1 - k, 1 << (b - k)
            up = '' if k == 0 else 'assert(x >> %d == 0 ==> x < %d) by (bit_vector); ' % (b - k, hi)
            o += '    else if z == %d { %sassert((x >> %d) & 1 != 0 ==> x >= %d) by (bit_vector); assert(pow2i(%d) == %d && pow2i(%d) == %d) by (compute); lemma_lz(x as int, %d, %d); }\n' % (k, up, lo, 1 << lo, lo, 1 << lo, b - k, hi, b, k)
        o += '}\n'
    return o


def main():
    out, cur = [], None
    for line in open(P).read().split('// lemmas about leading zeros')[0].splitlines(True):
        m = re.match(r'impl Num for (\w+)', line)
        if m:
            cur = m.group(1) if m.group(1) in W or m.group(1) == 'bool' else None
        elif line.startswith('}'):
            cur = None
        m = re.match(r'( *)(?:#\[verifier::external_body\] )?(fn (\w+)\(.*?\) -> \(r: .*?\)) \{ .* \}$', line.rstrip())
        if cur and m and (cur == 'bool' or m.group(3).rstrip('_') not in ('min', 'max', 'clamp')):
            b = body(cur, m.group(3))
            if b is not None:
                line = '%s%s { %s }\n' % (m.group(1), m.group(2), b)
        out.append(line)
    open(P, 'w').write(''.join(out).rstrip() + '\n' + lz_lemmas())


if __name__ == '__main__':
    main()

"""The verified text, compiled and run.

The functions as extracted and woven for the verifier are compiled by the verifier's own compiler (ghost code
erased) into a program that reads contents and prints verdicts. Its verdicts are compared with those of the crate
itself on the contents of the input search: a difference means that what was verified is not what runs. The
assumed operations of verus/prelude.rs have executable bodies for this; the integer operations of verus/num.rs
and verus/bits.rs, whose bodies the weaver leaves out, get theirs here.
"""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import units as un

INTS = 'u8 u16 u32 u64 usize i8 i16 i32 i64 isize'.split()
OPS = {'as_%s_' % x: 'self as %s' % x for x in INTS}
OPS.update(min_='if self < o { self } else { o }', max_='if self < o { o } else { self }', clamp_='if self < a { a } else if self > b { b } else { self }',
           and_='self & o', or_='self | o', xor_='self ^ o', shl_='self << k.as_u32_()', shr_='self >> k.as_u32_()', leading_zeros_='self.leading_zeros()')
OPS.update({n + '_': 'self.%s(o)' % n for n in 'saturating_add saturating_sub saturating_mul wrapping_add wrapping_sub checked_add checked_sub checked_mul'.split()})
NOT_BOOL = re.compile('sat|wrap|check|lead|clamp|min|max|sh[lr]')

MAIN = '''
pub fn drive() {
    use std::io::{Read as _, Write as _};
    std::panic::set_hook(Box::new(|_| {}));
    let mut i = std::io::stdin().lock();
    let mut o = std::io::stdout().lock();
    loop {
        let mut h = [0u8; 5];
        if i.read_exact(&mut h).is_err() {
            return;
        }
        let n = u32::from_le_bytes([h[1], h[2], h[3], h[4]]) as usize;
        let mut d = vec![0; n];
        i.read_exact(&mut d).unwrap();
        let r = std::panic::catch_unwind(move || {
            let mut s = Stream { d, p: 0, plan: h[0], tick: 0 };
            FileFormat::from_reader(&mut s).map(|f| f as usize).ok()
        });
        writeln!(o, "{}", match r { Ok(Some(k)) => k as i64, Ok(None) => -1, Err(_) => -2 }).unwrap();
        o.flush().unwrap();
    }
}
fn main() { drive() }
'''


def executable(text):
    """The woven text with bodies for the operations it leaves out, and a main function."""
    i = text.index('pub mod code {')
    pre, code = text[:i], text[i:]
    out = []
    for block in re.split(r'(?m)(?=^impl )', pre):
        m = re.match(r'impl \w+ for (\w+)', block)
        isbool = m and m.group(1) == 'bool'

        def sub(m):
            n = m.group(2)
            if n not in OPS or isbool and NOT_BOOL.match(n):
                return m.group(0)
            return '%s { %s }' % (m.group(1), OPS[n])
        out.append(re.sub(r'(fn (\w+)(?:<K: Num>)?\([^\n]*?\) -> \(r: [^\n]*?\)) \{ unimplemented!\(\) \}', sub, block))
    k = code.rindex('} // verus!')
    return ''.join(out) + code[:k] + '} // verus!\n' + MAIN


def names(text):
    m = re.search(r'pub enum FileFormat \{([^}]*)\}', text)
    return [x.strip().split()[0] for x in m.group(1).split(',') if x.strip()]


def functions(base):
    want = un.READER_FNS + un.HELPERS + un.SEARCH + ['from_fmt_reader', 'from_generic_reader', 'from_reader', 'from_signature', 'default']
    return [n for n in want if n in base.F and not base.F[n].get('absent')]


def build(work, base, run):
    """(path of the program, names of the verdicts, error)"""
    try:
        text = base.build(functions(base), ['func'], [])[0]
    except Exception as e:
        return None, [], 'not woven: %s' % e
    d = os.path.join(work, 'transcript')
    os.makedirs(d, exist_ok=True)
    src = os.path.join(d, 'transcript.rs')
    open(src, 'w').write(executable(text))
    rc, o, e = run(['verus', '--no-verify', '--compile', src, '-o', os.path.join(d, 'transcript'), '-C', 'opt-level=2'], cwd=d, timeout=240)
    if rc != 0:
        return None, [], (e or o)[-400:]
    return os.path.join(d, 'transcript'), names(text), None

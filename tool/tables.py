"""The published signature and format tables (pinned/*.json) and the contracts generated from them."""
import json, os, re
from weave import VERIF, FnContract, Clause, Lost, lit_name

PINNED = os.path.join(VERIF, 'pinned')
ACCESSORS = [('name', '&str'), ('short_name', 'Option<&str>'), ('media_type', '&str'), ('extension', '&str'), ('kind', 'Kind')]


def parse_signatures(ir):
    """The table the extracted from_signature implements: [[format, [[[offset, hex], ...], ...]], ...]."""
    f = [f for f in ir['functions'] if f['name'] == 'from_signature'][0]
    lits = {k: bytes(v) for k, v in ir['bytes']}
    p = f['params'][0][0]
    out = []
    if f['stmts'][-1].strip() != 'None':
        raise Lost('from_signature does not end with None')
    for s in f['stmts'][:-1]:
        m = re.fullmatch(r'if (.*) \{\s*return Some\(FileFormat::(\w+)\);\s*\}', s, re.S)
        if not m:
            raise Lost('from_signature: not a chain of signature tests: ' + s[:80])
        alts = []
        for a in m.group(1).split('||'):
            parts, lens = [], []
            for t in a.split('&&bytes' if False else '&& '):
                t = t.strip()
                q = re.search(r'bytes_eq\(&+%s\[(\d*?)(?:usize)?\.\.(\d+)usize\], &bx_(\w+)\(\)\)' % p, t)
                if q:
                    off, end = int(q.group(1) or 0), int(q.group(2))
                    b = lits[q.group(3)]
                    if end - off != len(b):
                        raise Lost('from_signature: part of the wrong length: ' + t[:80])
                    parts.append([off, b.hex()])
                    continue
                q = re.search(r'%s\.len\(\)\) >= \((\d+)usize\)' % p, t)
                if not q:
                    raise Lost('from_signature: unknown test: ' + t[:80])
                lens.append(int(q.group(1)))
            if any(off + len(bytes.fromhex(h)) > max(lens, default=0) for off, h in parts):
                raise Lost('from_signature: a part is not covered by a length test')
            alts.append(parts)
        out.append([m.group(2), alts])
    return out


def parse_accessors(ir):
    """{format: {accessor: value}} as the extracted accessors implement it."""
    strs = {k: v for k, v in ir['strs']}
    F = {f['name']: f for f in ir['functions']}
    table = {v: {} for v in ir['enums']['FileFormat']}
    for acc, _ in ACCESSORS:
        body = '\n'.join(F[acc]['stmts'])
        default = None
        for m in re.finditer(r'((?:FileFormat::\w+(?:\s*\|\s*)?)+|_)\s*=>\s*\{\s*(.*?)\s*\}', body, re.S):
            v = m.group(2)
            q = re.fullmatch(r'(?:Some\()?sx_(\w+)\(\)\)?', v)
            val = strs[q.group(1)] if q else v.split('::')[-1] if v.startswith('Kind::') else None if v == 'None' else Ellipsis
            if val is Ellipsis:
                raise Lost('%s: %s' % (acc, v[:60]))
            if m.group(1) == '_':
                default = (val,)
            for x in re.findall(r'FileFormat::(\w+)', m.group(1)):
                table[x].setdefault(acc, val)
        for x in table:
            if acc not in table[x]:
                if default is None:
                    raise Lost('%s: no value for %s' % (acc, x))
                table[x][acc] = default[0]
    return table


def pin(ir):
    json.dump(parse_signatures(ir), open(os.path.join(PINNED, 'signatures.json'), 'w'), separators=(',', ':'))
    json.dump(parse_accessors(ir), open(os.path.join(PINNED, 'formats.json'), 'w'), indent=0, sort_keys=True)


def signatures():
    return json.load(open(os.path.join(PINNED, 'signatures.json')))


def formats():
    return json.load(open(os.path.join(PINNED, 'formats.json')))


def clause(kw, text, where='pinned'):
    return Clause(kw, ['*'], text, where)


PER = 20


def add_signature_contracts(w, per=PER):
    """Cuts from_signature into parts of `per` statements and states, for each, the entries of the
    published table it has to implement; from_signature itself becomes their composition."""
    f = w.F.get('from_signature')
    if f is None:
        raise Lost('from_signature is not in the source any more')
    if f['unsupported']:
        raise Lost('from_signature: unsupported construct: %s' % f['unsupported'][:3])
    st = f['stmts']
    if st[-1].strip() != 'None' or f['loops'] or not all(re.match(r'if .*return Some\(', s, re.S) for s in st[:-1]):
        raise Lost('from_signature is not a chain of signature tests')
    table = signatures()
    p = f['params'][0][0]
    parts, specs = [], []
    n = len(table)
    for k in range(0, n, per):
        entries = table[k:k + per]
        # the last part takes whatever the code has beyond the published table
        body = st[k:k + per] if k + per < n else st[k:-1]
        name = 'from_signature__%d' % (k // per)
        arms = []
        for fmt, alts in entries:
            cond = ' || '.join('(' + ' && '.join('h.len() >= %d && h.subrange(%d, %d) == bl_%s()' % (
                off + len(h) // 2, off, off + len(h) // 2, w_lit(w, bytes.fromhex(h))) for off, h in alt) + ')' for alt in alts)
            arms.append('if %s { Some(FileFormat::%s) }' % (cond, fmt))
        specs.append('/// Entries %d to %d of the published signature table.\npub open spec fn sigs_%d(h: Seq<u8>) -> Option<FileFormat> {\n    %s else { None }\n}' % (
            k + 1, k + len(entries), k // per, '\n    else '.join(arms)))
        # `s[a..b] == q` as one operation (same meaning and same bounds obligation)
        body = [re.sub(r'bytes_eq\(&+%s\[(\d*?)(?:usize)?\.\.(\d+)usize\], &(bx_\w+)\(\)\)' % re.escape(p),
                       lambda m: 'slice_part_eq__(%s, %s, %s, %s())' % (p, m.group(1) or 0, m.group(2), m.group(3)), b) for b in body]
        body = [re.sub(r'bytes_starts_with\(&*%s(?:\[(?:(\d+)(?:usize)?)?\.\.\])?, &(bx_\w+)\(\)\)' % re.escape(p),
                       lambda m: 'slice_part_starts__(%s, %s, %s())' % (p, m.group(1) or 0, m.group(2)), b) for b in body]
        w.F[name] = dict(f, name=name, stmts=body + ['None'], loops=[], calls=[])
        c = FnContract(name)
        c.uses = ['sigs_%d' % (k // per)]
        c.clauses = [Clause('ens', ['sig'], 'r == sigs_%d($0@)' % (k // per), 'published entries %d to %d' % (k + 1, k + len(entries)))]
        w.fns[name] = c
        w.specs['sigs_%d' % (k // per)] = {'text': specs[-1] + '\n', 'uses': ['core']}
        parts.append(name)
    expr = 'None'
    for k in range(len(parts) - 1, -1, -1):
        expr = 'match sigs_%d(h) { Some(f) => Some(f), None => %s }' % (k, expr)
    w.specs['signature'] = {'text': '/// The first entry of the published table one of whose alternatives matches.\npub open spec fn sig_spec(h: Seq<u8>) -> Option<FileFormat> {\n    %s\n}\n' % expr,
                            'uses': ['core'] + ['~sigs_%d' % k for k in range(len(parts))]}
    w.F['from_signature'] = dict(f, stmts=['if let Some(f) = FileFormat::%s(%s) { return Some(f); }' % (x, p) for x in parts] + ['None'], loops=[], calls=parts)
    return parts


def w_lit(w, b):
    n = lit_name(b)
    w.lits.bytes[n] = b
    return n


def s_lit(w, s):
    n = lit_name(s.encode())
    w.lits.strs[n] = s
    return n


def add_accessor_contracts(w):
    table = formats()
    for acc, ty in ACCESSORS:
        arms = []
        for fmt, vals in table.items():
            v = vals[acc]
            e = 'Kind::%s' % v if acc == 'kind' else 'ss_%s()' % s_lit(w, v) if ty == '&str' else 'None' if v is None else 'Some(ss_%s())' % s_lit(w, v)
            arms.append('FileFormat::%s => %s,' % (fmt, e))
        t = {'&str': 'Seq<char>', 'Option<&str>': 'Option<Seq<char>>', 'Kind': 'Kind'}[ty]
        w.specs['descr_' + acc] = {'text': '/// The published %s of every format.\npub open spec fn %s_spec(f: FileFormat) -> %s {\n    match f {\n        %s\n    }\n}\n' % (acc, acc, t, '\n        '.join(arms)), 'uses': []}
        c = FnContract(acc)
        c.uses = ['descr_' + acc]
        c.clauses = [clause('ens', {'&str': 'strv(r) == %s_spec($0)', 'Kind': 'r == %s_spec($0)',
                                    'Option<&str>': '(r is Some) == (%s_spec($0) is Some), r is Some ==> strv(r->Some_0) == %s_spec($0)->Some_0'}[ty].replace('%s', acc), 'published ' + acc)]
        w.fns[acc] = c
    # displaying a format writes its published name and nothing else
    c = FnContract('fmt')
    c.uses = ['descr_name']
    c.clauses = [clause('ens', 'r is Ok ==> final($1).out() == old($1).out() + name_spec($0)', 'Display')]
    w.fns['fmt'] = c


TOP_LEVEL = ['application', 'audio', 'font', 'image', 'message', 'model', 'multipart', 'text', 'video', 'haptics', 'example']


def chars(s):
    return 'seq![%s]' % ', '.join("'\\u{%x}'" % ord(c) for c in s) if s else 'Seq::<char>::empty()'


def utf8(s):
    return 'seq![%s]' % ', '.join('%du8' % b for b in s.encode())


def wellformed_text():
    """A Verus file proving, by evaluation, that the published descriptors are well formed."""
    t = formats()
    out = ['''#![allow(unused)]
use vstd::prelude::*;
verus! {
pub open spec fn index_of(s: Seq<char>, c: char, i: int) -> int decreases s.len() - i {
    if i < 0 || i >= s.len() { -1 } else if s[i] == c { i } else { index_of(s, c, i + 1) }
}
pub open spec fn extension_ok(s: Seq<char>) -> bool { s.len() > 0 && index_of(s, '.', 0) == -1 }
pub open spec fn top_level(s: Seq<char>) -> bool {
    %s
}
pub open spec fn media_type_ok(s: Seq<char>) -> bool {
    let k = index_of(s, '/', 0);
    k > 0 && k + 1 < s.len() && index_of(s, '/', k + 1) == -1 && top_level(s.subrange(0, k))
}
''' % '\n    || '.join('s =~= %s' % chars(x) for x in TOP_LEVEL)]
    n = 0
    for acc, pred in (('extension', 'extension_ok'), ('media_type', 'media_type_ok')):
        for v in sorted({x[acc] for x in t.values()}):
            n += 1
            out.append('/// %s %s\nproof fn wf_%d() { assert(%s(%s)) by (compute_only); }' % (acc, v, n, pred, chars(v)))
    for acc in ('name', 'short_name'):
        for v in sorted({x[acc] for x in t.values() if x[acc] is not None}):
            n += 1
            out.append('/// %s %s\nproof fn wf_%d() { assert(%s.len() > 0) by (compute_only); }' % (acc, v, n, chars(v)))
    # names are pairwise different: in sorted order each is strictly below the next
    out.append('''
/// Strict lexicographic order from position i on.
pub open spec fn below(a: Seq<u8>, b: Seq<u8>, i: int) -> bool decreases b.len() - i {
    if i < 0 || i >= b.len() { false } else if i >= a.len() { true } else if a[i] == b[i] { below(a, b, i + 1) } else { a[i] < b[i] }
}
proof fn below_irreflexive(a: Seq<u8>, i: int) ensures !below(a, a, i) decreases a.len() - i
{ if 0 <= i < a.len() { below_irreflexive(a, i + 1); } }
proof fn below_transitive(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>, i: int)
    requires below(a, b, i), below(b, c, i) ensures below(a, c, i) decreases b.len() - i
{ if 0 <= i < b.len() && i < a.len() && i < c.len() && a[i] == b[i] && b[i] == c[i] { below_transitive(a, b, c, i + 1); } }
/// A list in which each name is below the next has no name twice.
proof fn ordered_distinct(l: Seq<Seq<u8>>, i: int, j: int)
    requires 0 <= i < j < l.len(), forall|k: int| 0 <= k < l.len() - 1 ==> below(#[trigger] l[k], l[k + 1], 0),
    ensures l[i] != l[j], below(l[i], l[j], 0) decreases j - i
{
    assert(below(l[j - 1], l[j], 0));
    if i < j - 1 { ordered_distinct(l, i, j - 1); below_transitive(l[i], l[j - 1], l[j], 0); }
    below_irreflexive(l[i], 0);
}''')
    names = sorted((x['name'] for x in t.values()), key=lambda x: x.encode())
    for a, b in zip(names, names[1:]):
        n += 1
        out.append('/// name %s\nproof fn wf_%d() { assert(below(%s, %s, 0)) by (compute_only); }' % (b, n, utf8(a), utf8(b)))
    out.append('} fn main() {}\n')
    return '\n'.join(out), n


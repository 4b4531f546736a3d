"""Weaves contracts (contracts/*.vc) into the functions extracted from /repo and emits Verus input."""
import json, os, re, itertools

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Lost(Exception):
    """A contract does not fit the extracted code (an anchor is gone, a construct is unsupported)."""


# ---------------------------------------------------------------- literals

def unescape(s):
    out, i = bytearray(), 0
    while i < len(s):
        c = s[i]
        if c != '\\':
            out += c.encode('utf-8'); i += 1; continue
        e = s[i + 1]
        if e == 'x':
            out.append(int(s[i + 2:i + 4], 16)); i += 4
        else:
            out.append({'n': 10, 't': 9, 'r': 13, '0': 0, '\\': 92, '"': 34, "'": 39}[e]); i += 2
    return bytes(out)


def fnv(b):
    h = 0xcbf29ce484222325
    for x in b:
        h = ((h ^ x) * 0x100000001b3) & 0xffffffffffffffff
    return h


def lit_name(b):
    return '%d_%s' % (len(b), b.hex() if len(b) <= 20 else 'h%016x' % fnv(b))


LIT = re.compile(r'(?<![A-Za-z0-9_])(b?)"((?:[^"\\]|\\.)*)"')


class Lits:
    def __init__(self):
        self.bytes, self.strs = {}, {}

    def sub(self, text):
        """Replaces the literals of a specification text by their spec names."""
        def f(m):
            v = unescape(m.group(2))
            n = lit_name(v)
            if m.group(1):
                self.bytes[n] = v
                return 'bl_%s()' % n
            self.strs[n] = v.decode('utf-8')
            return 'ss_%s()' % n
        return LIT.sub(f, text)


# ---------------------------------------------------------------- contract files

CONCRETE = ('core', 'guid')


class Clause:
    def __init__(self, kw, modes, text, where):
        self.kw, self.modes, self.text, self.where = kw, modes, text, where

    def on(self, modes):
        return '*' in self.modes or any(m in self.modes for m in modes)


class FnContract:
    def __init__(self, name):
        self.name, self.clauses, self.loops, self.uses, self.attrs = name, [], [], [], []


CL = re.compile(r'^\s*(req|ens|proof|inv|ib|exit|dec|body|pre|post|attr|after|split|given)\[([a-z,*0-9]+)\]\s?(.*)$')


def load_contracts(lits):
    specs, fns, order = {}, {}, []
    d = os.path.join(VERIF, 'contracts')
    for fn in sorted(os.listdir(d)):
        if not fn.endswith('.vc'):
            continue
        mode, cur, loop, clause = None, None, None, None
        for ln, raw in enumerate(open(os.path.join(d, fn)), 1):
            line = raw.rstrip('\n')
            if line.startswith('%%'):
                continue
            if line.startswith('%spec'):
                parts = line.split()
                mode, cur = 'spec', parts[1]
                specs[cur] = {'text': '', 'uses': parts[2:]}
                continue
            if line.startswith('%fn'):
                parts = line.split()
                mode, cur, loop, clause = 'fn', FnContract(parts[1]), None, None
                cur.uses = parts[2:]
                fns[parts[1]] = cur
                continue
            if line.startswith('%end'):
                mode = None
                continue
            if mode == 'spec':
                specs[cur]['text'] += line + '\n'
            elif mode == 'fn':
                if not line.strip() or line.strip().startswith('//'):
                    continue
                m = re.match(r'^loop\s*(.*)$', line)
                if m:
                    loop = {'clauses': [], 'hints': m.group(1).split()}
                    cur.loops.append(loop)
                    clause = None
                    continue
                m = CL.match(line)
                if m:
                    clause = Clause(m.group(1), m.group(2).split(','), m.group(3), '%s:%d' % (fn, ln))
                    (loop['clauses'] if loop is not None else cur.clauses).append(clause)
                elif clause is not None:
                    clause.text += ' ' + line.strip()
    return specs, fns


# ---------------------------------------------------------------- path splitting

def _skip_block(t, j):
    """Position after the block whose opening brace is at j."""
    depth = 0
    while j < len(t):
        if t[j] == '{':
            depth += 1
        elif t[j] == '}':
            depth -= 1
            if depth == 0:
                return j + 1
        j += 1
    return len(t)


def find_chain(code, least=4):
    """Block positions of the first `match` or `if` chain with at least `least` branches."""
    best = None
    for m in re.finditer(r'\b(if|match)\b', code):
        if m.group(1) == 'if':
            if re.search(r'else\s*$', code[:m.start()]):
                continue
            blocks, j = [], m.end()
            while True:
                while code[j] in ' \n':
                    j += 1
                if code[j] == '{':
                    j = _skip_block(code, j)
                depth = 0
                while j < len(code) and (code[j] != '{' or depth > 0):
                    depth += (code[j] in '([{') - (code[j] in ')]}')
                    j += 1
                if j >= len(code):
                    break
                blocks.append(j)
                j = _skip_block(code, j)
                mm = re.match(r'\s*else\s+if\b', code[j:])
                if mm:
                    j += mm.end()
                    continue
                mm = re.match(r'\s*else\s*(?=\{)', code[j:])
                if mm:
                    blocks.append(j + mm.end())
                break
        else:
            j, depth = m.end(), 0
            while j < len(code) and (code[j] != '{' or depth > 0):
                depth += (code[j] in '([{') - (code[j] in ')]}')
                j += 1
            end = _skip_block(code, j)
            blocks, j, depth = [], j + 1, 0
            while j < end:
                if depth == 0 and code.startswith('=>', j):
                    k = j + 2
                    while code[k] in ' \n':
                        k += 1
                    if code[k] == '{':
                        blocks.append(k)
                        j = _skip_block(code, k)
                        continue
                depth += (code[j] in '([{') - (code[j] in ')]}')
                j += 1
        if len(blocks) >= least:
            return blocks
    return []


def split_code(code, k, n):
    """The code with every path through the first big branching cut except those of group k of n.
    Each path is whole in exactly one group, or (if it avoids the branching) in all of them."""
    blocks = find_chain(code)
    if not blocks or n <= 1:
        return code
    out, last = [], 0
    for i, b in enumerate(blocks):
        out.append(code[last:b + 1])
        if i * n // len(blocks) != k:
            out.append('\nproof { assume(false); }\n')
        last = b + 1
    return ''.join(out) + code[last:]


# ---------------------------------------------------------------- weaving

PRELUDE_HEAD = '''#![allow(unused, non_snake_case, non_camel_case_types)]
use vstd::prelude::*;
verus! {
'''


def clean(x):
    return re.sub(r'\s+', ' ', x).strip()


class Weaver:
    def __init__(self, ir):
        self.ir = ir
        self.lits = Lits()
        self.specs, self.fns = load_contracts(self.lits)
        self.F = {f['name']: f for f in ir['functions']}
        self.irb = {k: bytes(v) for k, v in ir['bytes']}
        self.irs = {k: v for k, v in ir['strs']}

    # -- helpers
    def exec_name(self, f):
        if f['kind'] == 'BytesMethod':
            return 'fb_' + f['name']
        return f['name']

    def param0(self, f):
        return f['params'][0][0] if f['params'] else ''

    def base_roles(self, f):
        r = {}
        for k, (n, t) in enumerate(f['params']):
            r['$%d' % k] = n
        p0 = self.param0(f)
        r['d'] = 'old(%s).data()' % p0
        return r

    def expand(self, text, f, roles, assign, missing):
        text = re.sub(r'\$(\d)', lambda m: self.base_roles(f).get('$' + m.group(1), 'MISSING_PARAM'), text)

        def rep(m):
            key = m.group(1)
            if key in roles:
                return roles[key]
            if key in assign:
                return roles.get(assign[key], assign[key])
            missing.add(key)
            return 'missing__' + key
        return self.lits.sub(re.sub(r'\$\{([^}]*)\}', rep, text))

    def rem_of(self, f, loop, code):
        if loop['kind'] in ('range', 'slice') and loop.get('auto', {}).get('bound'):
            return '(%s - %s)' % (loop['auto']['bound'], loop['idx'])
        # derive from `if !(cond) { break; }`
        m = re.search(r'/\*LOOP:%d\*/\s*\{\s*if !\((.*)\) \{ break; \}' % loop['id'], code)
        if m:
            c = m.group(1)
            mm = re.search(r'\(([A-Za-z_0-9]+)\)\s*<\s*\(([A-Za-z_0-9]+|[0-9]+usize|[0-9]+)\)', c)
            if mm:
                return '(%s - %s)' % (mm.group(2), mm.group(1))
            mm = re.search(r'\(([A-Za-z_0-9]+)\)\s*(?:>|!=)\s*\(0\)', c)
            if mm:
                return '(%s as int)' % mm.group(1)
            mm = re.search(r'\(([A-Za-z_0-9]+)\)\s*>\s*\(([A-Za-z_0-9]+)\)', c)
            if mm:
                return '(%s - %s)' % (mm.group(1), mm.group(2))
            mm = re.search(r'\(([A-Za-z_0-9]+)\)\s*!=\s*\(([A-Za-z_0-9]+|[0-9]+usize|[0-9]+)\)', c)
            if mm:
                return '(%s - %s)' % (mm.group(2), mm.group(1))
        return None

    def loop_roles(self, f, loop, code, parent_id):
        r = {}
        r['d'] = 'old(%s).data()' % self.param0(f)
        streams = [v for v in loop['vars'] if v[2] == 'Stream']
        if streams:
            used = [v for v in streams if re.search(r'\b%s\b' % re.escape(v[1]), self.loop_body(code, loop['id']))]
            r['rd'] = (used or streams)[0][1]
        for v in loop['vars']:
            r.setdefault(v[0], v[1])
        if loop.get('idx'):
            r['i'] = loop['idx']
        a = loop.get('auto') or {}
        if a.get('bound'):
            r['n'] = a['bound']
        if a.get('slice'):
            r['s'] = a['slice']
        if a.get('res'):
            r['res'] = a['res']
        rem = self.rem_of(f, loop, code)
        if rem:
            r['rem'] = rem
        if parent_id is not None:
            r['it'] = 'it__%d' % parent_id
        return r

    def loop_body(self, code, k):
        i = code.index('/*LOOP:%d*/' % k)
        j = code.index('{', i)
        depth, p = 0, j
        while p < len(code):
            if code[p] == '{':
                depth += 1
            elif code[p] == '}':
                depth -= 1
                if depth == 0:
                    break
            p += 1
        return code[j:p + 1]

    def ret(self, f):
        t = f['ret']
        return t

    def signature(self, f, external):
        ps = []
        for n, t in f['params']:
            if n == 'self':
                ps.append(t)
            else:
                ps.append('%s: %s' % (n, t))
        ret = f['ret']
        if ret and not any('&' in t for _, t in f['params']):
            ret = re.sub(r"&(?!')", "&'static ", ret)
        r = ' -> (r: %s)' % ret if ret not in ('()', '', None) else ''
        return 'pub fn %s(%s)%s' % (self.exec_name(f), ', '.join(ps), r)

    def fn_text(self, name, modes, body=True, assign=None, extra_ens=None, split=None):
        """Text of a function with its contract. Returns (text, labels, info)."""
        f = self.F.get(name)
        if f is None:
            raise Lost('function %s is not in the source any more' % name)
        if f['unsupported'] and body:
            raise Lost('%s: unsupported construct: %s' % (name, '; '.join(map(str, f['unsupported'][:3]))))
        c = self.fns.get(name) or FnContract(name)
        assign = assign or {}
        missing = set()
        roles = self.base_roles(f)
        lines = []   # (text, label)

        def add(t, label=None):
            lines.append((t, label))
        if not body:
            add('#[verifier::external_body]')
        else:
            add('#[verifier::loop_isolation(false)]')
            add('#[verifier::exec_allows_no_decreases_clause]') if False else None
            for cl in c.clauses:
                if cl.kw == 'attr' and cl.on(modes):
                    add(cl.text)
        add(self.signature(f, not body))
        for kw, head in (('req', 'requires'), ('ens', 'ensures')):
            # `given` clauses are what callers may assume; see the function's other contracts for why
            cls = [cl for cl in c.clauses if (cl.kw == kw or kw == 'ens' and cl.kw == 'given' and not body) and cl.on(modes)]
            if cls or (kw == 'ens' and extra_ens):
                add('    ' + head)
                for k, cl in enumerate(cls):
                    t = clean(self.expand(cl.text, f, roles, assign, missing)).rstrip(',')
                    what = 'precondition' if kw == 'req' else 'postcondition'
                    add('        %s,' % t, '%s.%s.%d (%s): %s' % (name, kw, k + 1, cl.where, clean(cl.text)))
                if kw == 'ens' and extra_ens:
                    add('        %s,' % extra_ens, 'must-fail')
        info = {'clauses': sum(1 for cl in c.clauses if cl.on(modes) and cl.kw in ('req', 'ens')), 'loops': 0, 'missing': missing}
        if not body:
            add('{ unimplemented!() }')
            return lines, info
        add('{')
        for cl in c.clauses:
            if cl.kw == 'proof' and cl.on(modes):
                add('    proof { %s }' % clean(self.expand(cl.text, f, roles, assign, missing)), '%s.proof (%s)' % (name, cl.where))
        code = '\n'.join(f['stmts'])
        if split:
            code = split_code(code, *split)
        code_lines = self.weave_loops(f, c, code, modes, assign, missing, info)
        lines += code_lines
        add('}')
        # only roles used by active clauses matter
        return lines, info

    def match_loops(self, f, c):
        """Pairs contract loops with the loops of the code, in order, skipping self-contained ones."""
        irl = f['loops']
        own = [l for l in irl if not (l.get('auto') or {}).get('exit')]
        if len(own) == len(c.loops):
            return {l['id']: cl for l, cl in zip(own, c.loops)}
        # fewer loops: where the code has no loop inside another (or none at all) and the contract does,
        # the contract's are left out
        import shape
        was = [[i, p, x] for i, (_, p, x) in enumerate((shape.PINNED.get(f['name']) or {'loops': []})['loops'])]
        kept = [i for i, p, x in was if not x]
        if len(own) < len(kept) == len(c.loops):
            got = {}

            def pair(up, cup):
                a = [l for l in own if l['parent'] == up]
                b = [i for i, p, x in was if p == cup and not x]
                if len(a) == len(b):
                    for l, i in zip(a, b):
                        got[l['id']] = c.loops[kept.index(i)]
                        pair(l['id'], i)
                return not a or len(a) == len(b)
            if pair(None, None) and len(got) == len(own):
                return got
        raise Lost('%s: %d loops where the contract has %d' % (f['name'], len(own), len(c.loops)))

    def weave_loops(self, f, c, code, modes, assign, missing, info):
        name = f['name']
        pairs = self.match_loops(f, c)
        by_id = {l['id']: l for l in f['loops']}
        kids = {l['parent'] for l in f['loops'] if l['parent'] is not None}
        # ghost snapshots of owned streams
        owned = set(re.findall(r'let mut (\w+) = Stream::buffered\(', code))
        out = []
        p0 = self.param0(f)
        src = code.split('\n')
        i = 0
        afters = []
        for l in f['loops']:
            for q in pairs.get(l['id'], {'clauses': []})['clauses']:
                if q.kw == 'after' and q.on(modes):
                    afters.append((q.text.split(':::', 1)[0].strip(), q, self.loop_roles(f, l, code, l['parent'])))
        while i < len(src):
            ln = src[i]
            m = re.match(r'^/\*LOOP:(\d+)\*/$', ln.strip())
            if ln.strip() == 'loop' and i + 1 < len(src) and re.match(r'^/\*LOOP:(\d+)\*/$', src[i + 1].strip()):
                k = int(re.match(r'^/\*LOOP:(\d+)\*/$', src[i + 1].strip()).group(1))
                loop = by_id[k]
                cl = pairs.get(k, {'clauses': []})
                roles = self.loop_roles(f, loop, code, loop['parent'])
                ex = lambda t: clean(self.expand(t, f, roles, assign, missing)).rstrip(',')
                lab = lambda kw, j, w, t: '%s.loop%d.%s.%d (%s): %s' % (name, k, kw, j + 1, w, clean(t))
                auto = loop.get('auto') or {}
                for q in cl['clauses']:
                    if q.kw == 'pre' and q.on(modes):
                        out.append(('proof { %s }' % ex(q.text), '%s.loop%d.pre (%s)' % (name, k, q.where)))
                if not any(q.kw == 'attr' and 'loop_isolation(true)' in q.text and q.on(modes) for q in cl['clauses']):
                    out.append(('#[verifier::allow_complex_invariants]', None))
                for q in cl['clauses']:
                    if q.kw == 'attr' and q.on(modes):
                        out.append((q.text, None))
                out.append(('loop', None))
                invs, ibs, exits, decs = [], [], [], []
                body = self.loop_body(code, k)
                for v in loop['vars']:
                    if v[2] == 'Stream' and re.search(r'\b%s\b' % re.escape(v[1]), body):
                        o = '%s.same(%s)' % (v[1], 'old(%s)' % v[1] if v[1] == p0 else '&%s__0' % v[1])
                        ibs.append((o, '%s.loop%d.frame' % (name, k)))
                        if 'det' in modes:
                            ibs.append(('!%s.lost()' % v[1], '%s.loop%d.det' % (name, k)))
                for j, a in enumerate(auto.get('inv', [])):
                    invs.append((self.lits.sub(a), '%s.loop%d.auto.%d' % (name, k, j + 1)))
                for j, a in enumerate(auto.get('exit', [])):
                    exits.append((self.lits.sub(a), '%s.loop%d.autoexit.%d' % (name, k, j + 1)))
                n = 0
                for q in cl['clauses']:
                    if not q.on(modes):
                        continue
                    n += 1
                    if q.kw == 'inv':
                        invs.append((ex(q.text), lab('inv', n, q.where, q.text)))
                    elif q.kw == 'ib':
                        ibs.append((ex(q.text), lab('inv', n, q.where, q.text)))
                    elif q.kw == 'exit':
                        # `A ::else:: B`: B where the loop does not collect a result of its own
                        a, _, b = q.text.partition('::else::')
                        t = b if b and 'res' not in roles else a
                        exits.append((ex(t), lab('exit', n, q.where, t)))
                    elif q.kw == 'dec':
                        decs.append((ex(q.text), lab('dec', n, q.where, q.text)))
                if not decs:
                    if auto.get('dec'):
                        decs.append((self.lits.sub(auto['dec']), '%s.loop%d.dec' % (name, k)))
                    elif roles.get('rem'):
                        decs.append((roles['rem'], '%s.loop%d.dec' % (name, k)))
                info['loops'] += 1
                info['clauses'] += len(invs) + len(ibs) + len(exits) + len(decs)
                for kw, xs in (('invariant_except_break', invs), ('invariant', ibs), ('ensures', exits), ('decreases', decs)):
                    if xs:
                        out.append(('    ' + kw, None))
                        for t, l in xs:
                            out.append(('        %s,' % t, l))
                i += 2
                # opening brace
                assert src[i].strip() == '{', src[i]
                out.append(('{', None))
                if k in kids and roles.get('rd'):
                    rd = roles['rd']
                    out.append(('let ghost it__%d = %s%s;' % (k, '' if rd in owned else '*', rd), None))
                for q in cl['clauses']:
                    if q.kw == 'body' and q.on(modes):
                        out.append(('proof { %s }' % ex(q.text), '%s.loop%d.body (%s)' % (name, k, q.where)))
                i += 1
                continue
            out.append((ln, None))
            for (rx, q, rl) in afters:
                if ln.rstrip().endswith(';') and re.search(rx, ln):
                    text = q.text.split(':::', 1)[1]
                    out.append(('proof { %s }' % clean(self.expand(text, f, rl, assign, missing)), '%s.after (%s)' % (name, q.where)))
            m = re.match(r'^let mut (\w+) = Stream::buffered\(', ln.strip())
            if m:
                out.append(('let ghost %s__0 = %s;' % (m.group(1), m.group(1)), None))
            i += 1
        return out

    # -- whole files
    def spec_groups(self, names):
        """The groups needed, in order: (concrete groups, groups of which only the names are used)."""
        seen, order, abstract = set(), [], set()

        def go(n):
            if n.startswith('~'):
                abstract.add(n[1:])
                return
            if n in seen:
                return
            seen.add(n)
            for u in self.specs[n]['uses']:
                go(u)
            order.append(n)
        for n in names:
            go(n)
        return order, sorted(abstract - seen)

    def abstract_text(self, g, used):
        """The functions of a group that other text names, without their definitions."""
        out = []
        for m in re.finditer(r'pub (?:open|closed|uninterp) spec fn (\w+)(\([^{;]*?)(?: decreases [^{]*)?\s*[{;]', self.lits.sub(self.specs[g]['text'])):
            if re.search(r'\b%s\(' % m.group(1), used):
                out.append('pub uninterp spec fn %s%s;' % (m.group(1), m.group(2).rstrip()))
        return '\n'.join(out) + '\n'

    def literal_decls(self, text, full=False):
        out = ['// literals']
        axioms = []
        ids = {}
        for pre, exec_pre, tbl, known, elem in (('bl', 'bx', self.irb, self.lits.bytes, 'u8'), ('ss', 'sx', self.irs, self.lits.strs, 'char')):
            used = sorted(set(re.findall(r'\b%s_(\d+_(?:h[0-9a-f]{16}|[0-9a-f]*))\(\)' % pre, text)) | set(re.findall(r'\b%s_(\d+_(?:h[0-9a-f]{16}|[0-9a-f]*))\(\)' % exec_pre, text)))
            out.append('pub uninterp spec fn lit_id_%s(s: Seq<%s>) -> int;' % (pre, elem))
            for k, n in enumerate(used):
                v = tbl.get(n, known.get(n))
                if v is None:
                    raise Lost('literal %s unknown' % n)
                out.append('pub uninterp spec fn %s_%s() -> Seq<%s>;' % (pre, n, elem))
                ty = '&\'static [u8]' if pre == 'bl' else '&\'static str'
                val = '&[%s]' % ', '.join('%du8' % x for x in v) if pre == 'bl' else '"%s"' % ''.join('\\u{%x}' % ord(x) for x in v)
                out.append('#[verifier::external_body] pub fn %s_%s() -> (r: %s) ensures %s == %s_%s() { %s }' % (exec_pre, n, ty, 'r@' if pre == 'bl' else 'strv(r)', pre, n, val))
                facts = ['#[trigger] %s_%s().len() == %d' % (pre, n, len(v)), 'lit_id_%s(%s_%s()) == %d' % (pre, pre, n, k)]
                if 0 < len(v) <= 16:
                    lit = [str(x) + 'u8' if pre == 'bl' else "'\\u{%x}'" % ord(x) for x in v]
                    cond = ' '.join('if i == %d { %s } else' % (j, x) for j, x in enumerate(lit[:-1])) + ' { %s }' % lit[-1]
                    facts.append('forall|i: int| 0 <= i < %d ==> (#[trigger] %s_%s()[i]) == (%s)' % (len(v), pre, n, cond))
                out.append('#[verifier::external_body] pub broadcast proof fn ax_%s_%s() ensures %s { }' % (pre, n, ', '.join(facts)))
                axioms.append('ax_%s_%s' % (pre, n))
                if full and pre == 'bl' and 0 < len(v) <= 8:
                    # bytes that agree one by one are the literal
                    eq = ' && '.join('d[p + %d] == %d' % (j, x) for j, x in enumerate(v))
                    out.append('#[verifier::external_body] pub broadcast proof fn ext_%s_%s(d: Seq<u8>, p: int) ensures (%s) == (#[trigger] bytes_at(d, p, %d) == %s_%s()) { }' % (pre, n, eq, len(v), pre, n))
                    axioms.append('ext_%s_%s' % (pre, n))
        return '\n'.join(out), axioms

    def bit_part(self, bits, text, full=False, need=False):
        """The part of verus/bits.rs the text needs, as contracts; they are proved in their own run.
        Unless `full`, the cases about constants are limited to the constants of the text."""
        if 'Bits::' not in text and 'leading_zeros_' not in text and not need:
            return '', []
        num = r'(0[xX][0-9a-fA-F_]+|[0-9_]+)(?:[ui](?:8|16|32|64|size))?'
        val = lambda x: int(x.replace('_', ''), 0)
        consts, literal = {}, {}
        for op in ('and', 'or', 'shl', 'shr'):
            ks, lit = set(), True
            for m in re.finditer(r'Bits::%s_\(' % op, text):
                depth, j, args, start = 0, m.end(), [], m.end()
                while True:
                    c = text[j]
                    if c in '([{':
                        depth += 1
                    elif c in ')]}':
                        if depth == 0:
                            args.append(text[start:j])
                            break
                        depth -= 1
                    elif c == ',' and depth == 0:
                        args.append(text[start:j])
                        start = j + 1
                    j += 1
                vs = [re.fullmatch(r'[\s(]*%s[\s)]*' % num, x) for x in args]
                vs = [val(v.group(1)) if v else None for v in vs]
                if op in ('and', 'or'):
                    ks |= {v for v in vs if v is not None}
                    lit = lit and any(v is not None for v in vs)
                else:
                    if len(vs) > 1 and vs[1] is not None:
                        ks.add(vs[1])
                    else:
                        lit = False
            consts[op], literal[op] = ks, lit
        # an amount that is computed: small, or one of the numbers of the text
        amounts = set(range(9)) | {k for k in (val(x) for x in re.findall(r'(?<![\w.])(?:0[xX][0-9a-fA-F_]+|[0-9][0-9_]*)(?![\w.])', text)) if k < 64}
        if not literal['shr']:
            consts['shr'] |= amounts
        if not literal['shl']:
            consts['shl'] |= amounts
        lazy = not literal['and']
        if lazy:
            consts['and'] |= {(1 << k) - 1 for k in range(0, 9)}
        # a shifted part joined with a part below it
        consts['or'] |= {1 << k for k in consts['shl']}

        def keep(m):
            op, k = m.group(1), int(m.group(2))
            if full or k in consts[op]:
                return m.group(0)
            return None
        out = []
        for line in bits.split('\n'):
            m = re.match(r'\s*/\*(\w+):(\d+)\*/', line)
            if m:
                if keep(m) is None:
                    continue
                if not lazy or full:
                    line = re.sub(r'lowb\(x, (\d+)\)', lambda q: '(x %% %d)' % (1 << int(q.group(1))), line)
                    line = re.sub(r'bitk\(x, (\d+)\)', lambda q: '((x / %d) %% 2)' % (1 << int(q.group(1))), line)
            out.append(line)
        text2, names = [], []
        for part in re.split(r'\n(?=pub |proof |impl |#\[verifier::opaque|///)', '\n'.join(out)):
            if re.match(r'(pub )?proof fn', part):
                continue
            m = re.match(r'pub broadcast proof fn (\w+)', part)
            if m:
                if 'leading_zeros_' in text:
                    names.append(m.group(1))
                    text2.append('#[verifier::external_body]\n' + part[:part.rindex('\n{')] + '\n{ }')
                continue
            if part.startswith('impl Bits'):
                part = re.sub(r'\n    (?:#\[verifier::external_body\] )?(fn [^\n]*?-> \(r: Self\)) \{[^\n]*\}', r'\n    #[verifier::external_body] \1 { unimplemented!() }', part)
            text2.append(part)
        return '\n'.join(text2), names

    def enum_decls(self):
        out = []
        for e, vs in self.ir['enums'].items():
            out.append('#[derive(PartialEq, Eq, Clone, Copy, Structural)]\npub enum %s { %s }' % (e, ', '.join(vs)))
        return '\n'.join(out)

    def build(self, verify, modes, callees=(), groups=(), alloc='usize::MAX as int', assign=None, must_fail=False, extra='', full_bits=False, split=None, raw=False, starts=False):
        """Returns (text, line_labels, info)."""
        lines = []   # (text,label)
        info = {'functions': [], 'clauses': 0, 'loops': 0, 'missing': set(), 'trusted': []}
        bodies = []
        owners = {}
        gs = list(groups)
        for n in list(verify) + list(callees):
            uses = self.fns[n].uses if n in self.fns else []
            # the definitions behind the contract of a callee are only needed if the caller names them
            gs += uses if n in verify else ['~' + u.lstrip('~') for u in uses if u not in CONCRETE] + [u for u in uses if u in CONCRETE]
        gtext = ''
        concrete, abstract = self.spec_groups(gs)
        for g in concrete:
            gtext += '// ---- %s\n' % g + self.lits.sub(self.specs[g]['text'])
        for n in list(verify) + list(callees):
            isv = n in verify
            ls, inf = self.fn_text(n, modes, body=isv, assign=(assign or {}).get(n), extra_ens='false' if (must_fail and isv) else None, split=split if isv else None)
            f = self.F[n]
            if f['kind'] == 'StreamMethod':
                o = 'Stream'
            elif f['owner'] == 'FileFormat':
                o = 'FileFormat'
            else:
                o = ''
            owners.setdefault(o, []).append((n, ls))
            if isv:
                info['functions'].append(n)
                info['clauses'] += inf['clauses']
                info['loops'] += inf['loops']
            else:
                info['trusted'].append(n)
            if inf['missing']:
                info['missing'] |= {(n, m) for m in inf['missing']}
        body_lines = []
        for o, fs in owners.items():
            if o:
                body_lines.append(('impl %s {' % o, None, None))
            for n, ls in fs:
                for t, l in ls:
                    for k, part in enumerate(t.split('\n')):
                        body_lines.append((part, l, n))
            if o:
                body_lines.append(('}', None, None))
        body_text = '\n'.join(t for t, _, _ in body_lines)
        used, todo, atext = gtext + body_text + extra, list(abstract), ''
        while todo:
            # a group's names may be used by another abstract group's signatures only through `used`
            g = todo.pop()
            atext += '// ---- %s (names only)\n' % g + self.abstract_text(g, used)
        gtext = atext + gtext
        vdir = os.path.join(VERIF, 'verus')
        # the contracts alone: the bodies are proved in their own run (check.py, library)
        num = open(os.path.join(vdir, 'num.rs')).read().split('// lemmas about leading zeros')[0]
        num = re.sub(r'(?m)^    (fn \w+\(.*?\) -> \(r: .*?\)) \{ .* \}$', r'    #[verifier::external_body] \1 { unimplemented!() }', num)
        bits = open(os.path.join(vdir, 'bits.rs')).read() if os.path.exists(os.path.join(vdir, 'bits.rs')) else ''
        prel = open(os.path.join(vdir, 'prelude.rs')).read()
        det = 'det' in modes
        prel = '\n'.join(l[7:] if l.startswith('/*det*/') else l for l in prel.split('\n') if det or not l.startswith('/*det*/'))
        used_bits = ''
        lit, axioms = self.literal_decls(gtext + body_text + extra, full_bits or starts)
        bcast = ['lemma_bytes_at_sub', 'axiom_slice_len', 'lemma_starts_unique', 'lemma_ends_unique', 'lemma_last_occ', 'lemma_first_occ'] + axioms
        used_bits, names = self.bit_part(bits, body_text, full_bits, 'lz8(' in gtext or 'lowb(' in gtext or 'bitk(' in gtext)
        bcast += names
        if full_bits:
            bcast.append('lemma_product')
        if starts:
            bcast += ['lemma_starts_def', 'lemma_ends_def']
        info['bits'] = names
        for g in re.findall(r'pub broadcast proof fn (\w+)', gtext):
            bcast.append(g)
        head = PRELUDE_HEAD + num + '\n' + used_bits + '\n' + prel + '\npub open spec fn alloc_limit() -> int { %s }\n' % alloc
        if det:
            # whether an operation may be used whose outcome the content does not determine
            head += 'pub open spec fn raw_reads() -> bool { %s }\n' % ('true' if raw else 'false')
        head += self.enum_decls() + '\n' + lit + '\n'
        head += gtext + extra + '\npub mod code {\nuse super::*;\nbroadcast use {%s};\n' % ', '.join(bcast)
        nhead = head.count('\n')
        labels = {}
        fnlines = {}
        text = head
        for k, (t, l, n) in enumerate(body_lines):
            if l:
                labels[nhead + k + 1] = l
            fnlines[nhead + k + 1] = n
        text += body_text + '\n} // mod code\n} // verus!\nfn main() {}\n'
        return text, labels, fnlines, info

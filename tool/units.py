"""What each property is decided by: the functions to verify, in which modes, against which callees."""
import copy, os, re
import tables
from weave import Weaver, Lost, Clause, FnContract

# reader group -> (signature format, reader function, feature)
READERS = {
    'asf': ('AdvancedSystemsFormat', 'from_asf_reader'),
    'cfb': ('CompoundFileBinary', 'from_cfb_reader'),
    'ebml': ('ExtensibleBinaryMetaLanguage', 'from_ebml_reader'),
    'exe': ('MsDosExecutable', 'from_exe_reader'),
    'id3': ('Id3v2', 'from_id3v2_reader'),
    'mp4': ('Mpeg4Part14', 'from_mp4_reader'),
    'pdf': ('PortableDocumentFormat', 'from_pdf_reader'),
    'rm': ('Realmedia', 'from_rm_reader'),
    'sqlite': ('Sqlite3', 'from_sqlite3_reader'),
    'xml': ('ExtensibleMarkupLanguage', 'from_xml_reader'),
    'zip': ('Zip', 'from_zip_reader'),
}
TXT = 'from_txt_reader'
FEATURES = ['asf', 'cfb', 'ebml', 'exe', 'id3v2', 'mp4', 'pdf', 'rm', 'sqlite3', 'txt', 'xml', 'zip']
GROUP_OF_FEATURE = {'id3v2': 'id3', 'sqlite3': 'sqlite'}
HELPERS = ['read_bytes', 'read_guid', 'read_string', 'read_u8', 'read_u16_le', 'read_u32_be', 'read_u32_le',
           'read_u64_be', 'read_u64_le', 'read_up_to']
SEARCH = ['find', 'rfind', 'holds']
DISPATCH = ['from_fmt_reader', 'from_generic_reader', 'from_reader', 'from', 'from_bytes', 'from_file', 'default']
ACCESSORS = ['name', 'short_name', 'media_type', 'extension', 'kind', 'fmt']
KNOWN = sorted(['from_%s_reader' % f for f in FEATURES] + HELPERS + SEARCH + DISPATCH + ACCESSORS + ['from_signature'])

ALL = 'all'
PROPS = ['C%02d' % k for k in range(1, 22)]
BY_PROP = {'C10': ['pdf'], 'C11': ['xml', 'sqlite'], 'C12': ['cfb'], 'C13': ['asf'], 'C14': ['ebml'], 'C15': ['exe'],
           'C16': ['id3'], 'C17': ['mp4'], 'C18': ['rm'], 'C19': ['zip']}


class Unit:
    """One verifier run: the bodies of `verify` against their contracts, other functions by contract."""

    def __init__(self, verify, modes, feats=ALL, setup=None, split=None, raw=False, alloc=None, groups=(), root=False, label=None):
        self.verify, self.modes, self.feats, self.setup = list(verify), list(modes), feats, setup
        self.split, self.raw, self.alloc, self.groups, self.root = split, raw, alloc, list(groups), root
        self.label = label or '+'.join(self.verify)

    @property
    def name(self):
        s = '%s[%s]' % (self.label, ','.join(self.modes))
        if self.feats != ALL:
            s += '@' + self.feats
        if self.split:
            s += '#%d/%d' % (self.split[0] + 1, self.split[1])
        return s


def callees(w, names):
    """Contracted functions the given ones call."""
    out = []
    for n in names:
        f = w.F.get(n)
        if f is None:
            continue
        for c in f['calls']:
            if c not in names and c not in out and (c in w.fns) and c in w.F:
                out.append(c)
        text = '\n'.join(f['stmts'])
        for c in w.fns:
            if c in w.F and c not in names and c not in out and re.search(r'\b(fb_)?%s\(' % re.escape(c), text):
                out.append(c)
    return out


def closure(w, names, among):
    """Functions of `among` reachable from the given ones."""
    seen, todo = [], list(names)
    while todo:
        n = todo.pop()
        for c in callees(w, [n]):
            if c in among and c not in seen:
                seen.append(c)
                todo.append(c)
    return [x for x in among if x in seen]


def splits(w, n):
    """How many path splits the functional proof of a function is cut into."""
    k = 1
    for cl in (w.fns[n].clauses if n in w.fns else []):
        if cl.kw == 'split':
            k = int(cl.text)
    return k


def function_units(w, n, mode, **kw):
    k = splits(w, n) if mode == 'func' else 1
    if k <= 1:
        return [Unit([n], [mode], **kw)]
    return [Unit([n], [mode], split=(i, k), **kw) for i in range(k)]


def batches(names, mode, size, **kw):
    return [Unit(names[i:i + size], [mode], **kw) for i in range(0, len(names), size)]


# ---- contracts limited to one signature (a defect elsewhere does not concern such a property)

def one_format(groups):
    """Dispatch contracts that only speak of the formats of the given reader groups."""
    def setup(w):
        def also(name):
            for cl in w.fns[name].clauses:
                if 'func' in cl.modes and 'one' not in cl.modes:
                    cl.modes = cl.modes + ['one']
        also('from_generic_reader')
        for g in READERS:
            if READERS[g][1] in w.fns:
                also(READERS[g][1])
        for g in groups:
            fmt = READERS[g][0]
            for n in ('from_reader', 'from', 'from_bytes'):
                w.fns[n].uses = w.fns[n].uses + ['~' + g]
            add(w, 'from_fmt_reader', 'ens', '$0 == FileFormat::%s && r is Ok ==> %s_spec(old($1).data()) == Some(r->Ok_0)' % (fmt, g))
            add(w, 'from_fmt_reader', 'ens', '$0 == FileFormat::%s && r is Err && old($1).reliable() ==> %s_spec(old($1).data()) is None' % (fmt, g))
            want = '(match %s_spec(%s) { Some(v) => v, None => generic_spec(%s) })'
            has = '%s.len() > 0 && sig_spec(head_of(%s)) == Some(FileFormat::' + fmt + ')'
            d = 'old($0).data()'
            add(w, 'from_reader', 'ens', 'old($0).reliable() && %s ==> r is Ok && r->Ok_0 == %s' % (has % (d, d), want % (g, d, d)))
            d = '$0@'
            for n in ('from', 'from_bytes'):
                add(w, n, 'ens', '%s ==> r == %s' % (has % (d, d), want % (g, d, d)))
        add(w, 'from_reader', 'req', 'old($0).pos() == 0')
    return setup


def no_signature(w):
    """Dispatch contracts that only speak of content without a recognised signature."""
    for n in ('from_generic_reader', TXT):
        for cl in w.fns[n].clauses:
            if 'func' in cl.modes and 'one' not in cl.modes:
                cl.modes = cl.modes + ['one']
    has = '%s.len() > 0 && sig_spec(head_of(%s)) is None'
    d = 'old($0).data()'
    add(w, 'from_reader', 'ens', 'old($0).reliable() && %s ==> r is Ok && r->Ok_0 == generic_spec(%s)' % (has % (d, d), d))
    add(w, 'from_reader', 'req', 'old($0).pos() == 0')
    d = '$0@'
    for n in ('from', 'from_bytes'):
        add(w, n, 'ens', '%s ==> r == generic_spec(%s)' % (has % (d, d), d))


def add(w, fn, kw, text):
    w.fns[fn].clauses.append(Clause(kw, ['one'], text, 'tool/units.py'))


# ---- contracts under a set of features

def features(enabled):
    """Dispatch contracts under a feature set: disabled readers leave their format alone."""
    on = {GROUP_OF_FEATURE.get(f, f) for f in enabled}

    def setup(w):
        for spec in ('dispatch',):
            t = w.specs[spec]['text']
            for g in READERS:
                if g not in on:
                    t = re.sub(r'\n[^\n]*\b%s_(?:spec|family)\([^\n]*' % g, '', t)
            w.specs[spec]['text'] = t
        if 'txt' not in on:
            w.specs['generic']['text'] = '''pub open spec fn generic_spec(d: Seq<u8>) -> FileFormat { FileFormat::ArbitraryBinaryData }
pub open spec fn generic_family(f: FileFormat) -> bool { f == FileFormat::ArbitraryBinaryData }
'''
            w.specs['generic']['uses'] = ['core']
    return setup


def feature_set(name):
    if name == ALL:
        return list(FEATURES)
    if name == 'none':
        return []
    if name.startswith('only-'):
        return name[5:].split('+')
    if name.startswith('without-'):
        return [f for f in FEATURES if f not in name[8:].split('+')]
    raise KeyError(name)


def extra_sets(repo):
    """Feature sets for conditions on four features or more: those on up to three are exercised by
    the sets with one feature on and with one feature off."""
    out = []
    for d, _, fs in os.walk(os.path.join(repo, 'src')):
        for f in sorted(fs):
            if not f.endswith('.rs'):
                continue
            text = open(os.path.join(d, f), errors='replace').read()
            for m in re.finditer(r'\bcfg(?:_attr)?!?\s*\(', text):
                depth, j = 1, m.end()
                while j < len(text) and depth:
                    depth += {'(': 1, ')': -1}.get(text[j], 0)
                    j += 1
                names = [n for n in FEATURES if re.search(r'feature\s*=\s*"reader-%s"' % n, text[m.end():j])]
                if len(names) < 4:
                    continue
                for k in range(min(1 << len(names), 64)):
                    on = [n for i, n in enumerate(names) if k >> i & 1]
                    for s in (on, on + [n for n in FEATURES if n not in names]):
                        s = sorted(s)
                        if 1 < len(s) < len(FEATURES) - 1 and s not in out:
                            out.append(s)
    return out[:48]


def feature_sets(thorough):
    out = ['none'] + ['only-' + f for f in FEATURES] + ['without-' + f for f in FEATURES]
    if thorough:
        out += ['only-%s+%s' % (a, b) for i, a in enumerate(FEATURES) for b in FEATURES[i + 1:]]
    return out


READER_FNS = [r for _, r in READERS.values()] + [TXT]


def units_for(prop, w, irs, thorough=False, repo='/repo'):
    """The units of a property. `w` is a weaver over the all-features extraction."""
    U = []
    sig_parts = lambda w2: tables.add_signature_contracts(w2)
    if prop == 'C01':
        for r in READER_FNS:
            U.append(Unit([r], ['safe']))
        U += [Unit(HELPERS[:5], ['safe']), Unit(HELPERS[5:], ['safe'])] + [Unit([s], ['safe']) for s in SEARCH]
        U += [Unit(DISPATCH[:3], ['safe']), Unit(DISPATCH[3:], ['safe'])]
        U += signature_units(w, 'safe')
        U += [Unit(['from_fmt_reader', 'from_generic_reader', 'from_reader'], ['safe'], feats='none', setup=features([]))]
    elif prop == 'C02':
        for r in READER_FNS:
            U.append(Unit([r], ['cost'], alloc='65557'))
        U += [Unit(HELPERS[:5], ['cost'], alloc='65557'), Unit(HELPERS[5:], ['cost'], alloc='65557')]
        U += [Unit([s], ['cost'], alloc='65557') for s in SEARCH]
        U += [Unit([x], ['cost'], alloc='65557') for x in ('from_fmt_reader', 'from_generic_reader', 'from_reader', 'from', 'from_bytes', 'from_file')]
        U += signature_units(w, 'cost')
    elif prop == 'C03':
        U += signature_units(w, 'sig')
        U += [Unit(['from_signature'], ['sig'], setup=sig_parts, label='from_signature')]
        for n in ('from_reader', 'from_fmt_reader', 'from_generic_reader', 'from', 'from_bytes', 'read_up_to'):
            U.append(Unit([n], ['func'], feats='none', setup=features([])))
    elif prop == 'C04':
        for n in ('from_reader', 'from_fmt_reader', 'from_generic_reader', 'from', 'from_bytes', 'from_file', 'default', 'read_up_to'):
            U.append(Unit([n], ['func']))
    elif prop == 'C05':
        U += [Unit([r], ['det']) for r in READER_FNS]
        U += [Unit([h for h in HELPERS if h != 'read_up_to'], ['det']), Unit(['read_up_to'], ['det'], raw=True), Unit(['read_up_to'], ['func'])]
        U += [Unit([x], ['det']) for x in ('from_fmt_reader', 'from_generic_reader', 'from_reader', 'from', 'from_bytes', 'from_file')]
    elif prop == 'C06':
        U += [Unit([x], ['head']) for x in ('read_up_to', 'from_fmt_reader', 'from_generic_reader', 'from_reader', 'from_file')]
    elif prop == 'C07':
        U += [Unit([r], ['family']) for r in READER_FNS]
        U += [Unit([x], ['family']) for x in ('from_fmt_reader', 'from_generic_reader', 'from_reader', 'from', 'from_bytes', 'from_file', 'default')]
    elif prop == 'C08':
        for s in feature_sets(thorough) + ['only-' + '+'.join(x) for x in extra_sets(repo)]:
            U.append(Unit(['from_fmt_reader', 'from_generic_reader', 'from_reader'], ['func'], feats=s, setup=features(feature_set(s))))
        U.append(Unit(['from_fmt_reader', 'from_generic_reader', 'from_reader'], ['func']))
    elif prop == 'C09':
        U += [Unit([s], ['func']) for s in SEARCH]
    elif prop in BY_PROP:
        gs = BY_PROP[prop]
        rs = [READERS[g][1] for g in gs]
        for r in rs:
            U += function_units(w, r, 'func')
        hs = closure(w, rs, HELPERS + SEARCH)
        if 'read_up_to' not in hs:
            hs.append('read_up_to')
        U += batches([h for h in hs if h in HELPERS], 'func', 4) + [Unit([h], ['func']) for h in hs if h in SEARCH]
        for n in ('from_fmt_reader', 'from_reader', 'from', 'from_bytes'):
            U.append(Unit([n], ['one'], setup=one_format(gs)))
    elif prop == 'C20':
        U += function_units(w, TXT, 'func')
        U += [Unit(['read_up_to'], ['func']), Unit(['from_generic_reader'], ['func'])]
        for n in ('from_reader', 'from', 'from_bytes'):
            U.append(Unit([n], ['one'], setup=no_signature))
    elif prop == 'C21':
        U += [Unit([a], ['func'], setup=tables.add_accessor_contracts) for a in ACCESSORS]
    for u in U:
        if prop in BY_PROP or prop == 'C20' or prop == 'C04':
            pass
    return U


def signature_units(w, mode):
    n = len(tables.signatures())
    return [Unit(['from_signature__%d' % k], [mode], setup=tables.add_signature_contracts) for k in range(-(-n // tables.PER))]

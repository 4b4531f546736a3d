"""Builds the witness program: the search for concrete failing inputs on the real code.

The source of the crate under test is copied as it is to one package per feature set needed (ff_all, ff_none, …).
For properties about private parts, functions that only call those parts are appended to the copy (HOOKS).
"""
import os, re, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import units

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
READERS = ['asf', 'cfb', 'ebml', 'exe', 'id3v2', 'mp4', 'pdf', 'rm', 'sqlite3', 'txt', 'xml', 'zip']

LIB_HOOKS = {
    'signature': 'pub fn signature(b: &[u8]) -> Option<crate::FileFormat> { crate::FileFormat::from_signature(b) }\n',
    'readers': ''.join('pub fn %s<R: std::io::Read + std::io::Seek>(r: R) -> std::io::Result<crate::FileFormat> { crate::FileFormat::from_%s_reader(r) }\n' % (r, r) for r in READERS),
    'find': ''.join('pub fn %s(d: &[u8], p: &[u8]) -> %s { crate::readers::verif_%s(d, p) }\n' % (n, t, n) for n, t in (('find', 'Option<usize>'), ('rfind', 'Option<usize>'), ('holds', 'bool'))),
}
READER_HOOKS = {'find': ''.join('#[doc(hidden)] pub(crate) fn verif_%s(d: &[u8], p: &[u8]) -> %s { FindBytes::%s(d, p) }\n' % (n, t, n) for n, t in (('find', 'Option<usize>'), ('rfind', 'Option<usize>'), ('holds', 'bool')))}

HOOKS_FOR = {'C04': ['signature', 'readers'], 'C09': ['find'], 'C05': [], 'C01': [], 'C02': [], 'C03': [], 'C08': [], 'C21': []}


def mask(feats):
    return sum(1 << READERS.index(f) for f in feats)


def sets_for(prop, repo):
    s = {'ff_all': READERS, 'ff_none': []}
    if prop == 'C08':
        for i, r in enumerate(READERS):
            s['ff_only_%s' % r] = [r]
            s['ff_but_%s' % r] = [x for x in READERS if x != r]
        for i, x in enumerate(units.extra_sets(repo)):
            s['ff_set_%d' % i] = x
    return s


def assemble(dst, repo, prop, hooks):
    os.makedirs(dst)
    shutil.copytree(os.path.join(VERIF, 'witness', 'src'), os.path.join(dst, 'src'))
    man = open(os.path.join(repo, 'Cargo.toml')).read()
    deps = ''
    for name, feats in sets_for(prop, repo).items():
        d = os.path.join(dst, 'crates', name)
        os.makedirs(d)
        shutil.copytree(os.path.join(repo, 'src'), os.path.join(d, 'src'))
        m = re.sub(r'(?m)^name\s*=\s*"file-format"', 'name = "%s"' % name, man, 1)
        m = re.sub(r'(?ms)^\[(profile|dev-dependencies|\[(bench|test|example)).*?(?=^\[|\Z)', '', m)
        m = re.sub(r'(?m)^(readme|exclude|rust-version)\s*=.*\n', '', m)
        open(os.path.join(d, 'Cargo.toml'), 'w').write(m)
        if name == 'ff_all' and hooks:
            with open(os.path.join(d, 'src', 'lib.rs'), 'a') as f:
                f.write('\n#[doc(hidden)]\n#[allow(missing_docs)]\npub mod verif_hooks {\n%s}\n' % ''.join(LIB_HOOKS[h] for h in hooks))
            for h in hooks:
                if h in READER_HOOKS:
                    with open(os.path.join(d, 'src', 'readers.rs'), 'a') as f:
                        f.write('\n' + READER_HOOKS[h])
        fl = ', '.join('"reader-%s"' % f for f in feats)
        deps += '%s = { path = "crates/%s", default-features = false, features = [%s] }\n' % (name, name, fl)
    open(os.path.join(dst, 'src', 'sets.rs'), 'w').write('builds! { %s }\n' % ', '.join('%s = %#x' % (n, mask(f)) for n, f in sets_for(prop, repo).items()))
    open(os.path.join(dst, 'Cargo.toml'), 'w').write(
        '[package]\nname = "witness"\nversion = "0.1.0"\nedition = "2021"\npublish = false\n\n[dependencies]\n' + deps +
        '\n[features]\nhook_signature = []\nhook_readers = []\nhook_find = []\n'
        '\n[profile.release]\noverflow-checks = true\npanic = "unwind"\nopt-level = %s\ndebug = 0\nincremental = false\n\n[workspace]\n' % ('1' if prop == 'C08' else '2'))


def build(work, repo, prop, run):
    """(path of the program, hooks it has, error)"""
    hooks = HOOKS_FOR.get(prop, ['signature', 'readers'])
    tries = [hooks] + ([['signature']] if len(hooks) > 1 else []) + ([[]] if hooks else [])
    err = ''
    for k, hs in enumerate(tries):
        dst = os.path.join(work, 'witness-%d' % k)
        assemble(dst, repo, prop, hs)
        env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(work, 'witness-target'), RUSTFLAGS='--cap-lints allow')
        cmd = ['cargo', 'build', '--offline', '--quiet', '--release']
        if hs:
            cmd += ['--features', ','.join('hook_' + h for h in hs)]
        rc, _, err = run(cmd, cwd=dst, env=env)
        if rc == 0:
            b = os.path.join(work, 'witness-bin')
            shutil.copy2(os.path.join(work, 'witness-target', 'release', 'witness'), b)
            shutil.rmtree(os.path.join(work, 'witness-target'), ignore_errors=True)
            return b, hs, None
    return None, [], err


if __name__ == '__main__':
    import sys

    def run(cmd, **kw):
        p = subprocess.run(cmd, capture_output=True, text=True, **kw)
        return p.returncode, p.stdout, p.stderr
    w, prop = sys.argv[1], sys.argv[2]
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    print(build(w, os.environ.get('VERIF_REPO', '/repo'), prop, run))

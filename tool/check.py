#!/usr/bin/env python3
"""Decides one property on the current tree of /repo.

    check.py C01            (VERIF_TIER=quick|thorough, VERIF_SEED=n)

Extracts the functions from the macro-expanded source, weaves in the contracts and has Verus discharge
every obligation. See DESIGN.md for how the outcomes are decided.
"""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import tables
import units as un
import shape
import findings
import witness
import transcript
from weave import Weaver, Lost, VERIF

REPO = os.environ.get('VERIF_REPO', '/repo')
TARGET = os.environ.get('VERIF_TARGET', os.path.join(VERIF, 'target'))
START = time.time()
DEADLINE = float(os.environ.get('VERIF_DEADLINE', '780'))


def left():
    return DEADLINE - (time.time() - START)


def log(*a):
    print('[%6.1fs]' % (time.time() - START), *a, file=sys.stderr, flush=True)


def run(cmd, timeout=None, **kw):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True, **kw)
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        out, err = p.communicate()
        return None, out, err
    return p.returncode, out, err


class Broken(Exception):
    """The crate does not build for a feature set."""


# ---------------------------------------------------------------- extraction

class Source:
    """The extracted functions of /repo, per feature set."""

    def __init__(self, work):
        self.work, self.irs, self.locks, self.guard = work, {}, {}, threading.Lock()
        self.extractor = os.path.join(TARGET, 'extract', 'release', 'extract')

    def build(self):
        env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(TARGET, 'extract'))
        rc, _, err = run(['cargo', 'build', '--offline', '--release', '--quiet'], cwd=os.path.join(VERIF, 'extract'), env=env)
        if rc != 0:
            raise SystemExit('extractor does not build: ' + err[-2000:])

    def flags(self, feats):
        return ['--all-features'] if feats == un.ALL else ['--no-default-features', '--features', ','.join('reader-' + f for f in un.feature_set(feats))]

    def expand(self, feats):
        tgt = tempfile.mkdtemp(prefix='expand-', dir=self.work)
        env = dict(os.environ, CARGO_TARGET_DIR=tgt)
        rc, out, err = run(['cargo', '+nightly', 'rustc', '--offline', '--quiet', '--lib'] + self.flags(feats) + ['--', '-Zunpretty=expanded'], cwd=REPO, env=env)
        shutil.rmtree(tgt, ignore_errors=True)
        if rc != 0:
            raise Broken('%s: %s' % (feats, err[-1500:]))
        return out

    def typecheck(self, feats):
        tgt = tempfile.mkdtemp(prefix='check-', dir=self.work)
        rc, out, err = run(['cargo', 'check', '--offline', '--quiet', '--lib'] + self.flags(feats), cwd=REPO, env=dict(os.environ, CARGO_TARGET_DIR=tgt))
        shutil.rmtree(tgt, ignore_errors=True)
        if rc != 0:
            raise Broken('%s: %s' % (feats, err[-1500:]))

    def ir(self, feats=un.ALL):
        with self.guard:
            lock = self.locks.setdefault(feats, threading.Lock())
        with lock:
            if feats not in self.irs:
                text = self.expand(feats)
                p = os.path.join(self.work, 'expanded-%s.rs' % feats)
                open(p, 'w').write(text)
                rc, out, err = run([self.extractor, p, ','.join(un.KNOWN)])
                if rc != 0:
                    raise Lost('extraction failed: ' + err[-500:])
                ir = json.loads(out)
                if 'error' in ir:
                    raise Lost('extraction failed: ' + str(ir['error']))
                self.irs[feats] = out
        return json.loads(self.irs[feats])


# ---------------------------------------------------------------- one verifier run

class Result:
    def __init__(self, unit):
        self.unit, self.status, self.failed, self.detail = unit, None, [], ''
        self.functions, self.obligations, self.smt_ms, self.wall, self.trusted, self.kinds = [], 0, 0, 0.0, [], set()


DEFINITE = ('postcondition not satisfied', 'precondition not satisfied', 'possible arithmetic underflow/overflow',
            'possible division by zero', 'assertion failed', 'invariant not satisfied', 'decreases not satisfied',
            'possible bit shift underflow/overflow', 'loop invariant not satisfied', 'assert_by', 'unreachable',
            'could not show termination', 'loop ensures not satisfied', 'loop must have a decreases')


def proved(v):
    return v.get('errors') == 0 and v.get('verified', 0) > 0 and not v.get('encountered-error') and not v.get('encountered-vir-error') and v.get('success', True)


def verus(path, args, timeout):
    return run(['verus', path, '--output-json', '--time', '--error-format=json', '--multiple-errors', '8'] + args, timeout=timeout, cwd=os.path.dirname(path))


def make(unit, src, full_bits=False, must_fail=False, assign=None, starts=False):
    w = Weaver(src.ir(unit.feats))
    if unit.setup:
        unit.setup(w)
    # an absent function that the all-features source has is simply not part of this feature set
    cal = un.callees(w, unit.verify)
    a = dict(assign or {})
    for n in unit.verify:
        a.setdefault(n, shape.renames(w, n))
    return w.build(unit.verify, unit.modes, cal, groups=unit.groups, alloc=unit.alloc or 'usize::MAX as int',
                   assign=a, must_fail=must_fail, full_bits=full_bits, starts=starts, split=unit.split, raw=unit.raw)


def attempt(unit, src, work, rlimit, timeout, full_bits=False, must_fail=False, extra=(), tag='', starts=False):
    res = Result(unit)
    t0 = time.time()
    try:
        text, labels, fnlines, info = make(unit, src, full_bits, must_fail, starts=starts)
    except Lost as e:
        res.status, res.detail = 'lost', str(e)
        return res
    res.functions, res.trusted = info['functions'], info['trusted']
    res.obligations = info['clauses'] + len(info['functions'])
    path = os.path.join(work, re.sub(r'[^\w]+', '_', unit.name)[:80] + '_%s%s.rs' % (tag, abs(hash(unit.name)) % 10000))
    open(path, 'w').write(text)
    rc, out, err = verus(path, ['--rlimit', str(rlimit), '--verify-only-module', 'code'] + list(extra), timeout)
    res.wall = time.time() - t0
    if rc is None:
        res.status, res.detail = 'unknown', 'no answer within %d s' % timeout
        return res
    try:
        j = json.loads(out)
    except ValueError:
        j = {}
    vr = j.get('verification-results', {})
    res.smt_ms = j.get('times-ms', {}).get('smt', {}).get('total', 0)
    if proved(vr):
        res.status = 'ok'
        return res
    msgs = []
    for line in err.split('\n'):
        if not line.startswith('{'):
            continue
        try:
            e = json.loads(line)
        except ValueError:
            continue
        if e.get('level') == 'error':
            msgs.append(e)
    definite, limit, other = [], False, []
    for e in msgs:
        m = e['message']
        if m.startswith('aborting due'):
            continue
        if 'rlimit' in m or 'Resource limit' in m or 'resource limit' in m:
            limit = True
            continue
        if any(d in m for d in DEFINITE):
            lab, where, fn = None, '', None
            for s in e['spans']:
                lab = lab or labels.get(s['line_start'])
                fn = fn or fnlines.get(s['line_start'])
            for s in e['spans']:
                if s.get('is_primary') and s['text']:
                    where = s['text'][0]['text'].strip()
            definite.append({'obligation': m, 'contract': lab, 'function': fn, 'code': where[:200]})
            res.kinds.add('invariant' if 'invariant' in m or 'loop ensures' in m or 'decreases' in m or 'termination' in m or 'assert' in m else 'contract')
        else:
            other.append(m)
    if other and not definite:
        res.status, res.detail = 'lost', other[0][:400]
    elif definite and 'safe' not in unit.modes and all('arithmetic' in d['obligation'] or 'division by zero' in d['obligation'] for d in definite):
        # whether the arithmetic stays in range is C01's question; here it leaves this one open
        res.status, res.detail = 'unknown', '; '.join('%s (%s)' % (d['obligation'], d['code']) for d in definite[:3])
    elif definite:
        res.status, res.failed = 'failed', definite
        res.detail = '; '.join('%s (%s)' % (d['obligation'], d['contract'] or d['code']) for d in definite[:3])
    elif limit:
        res.status, res.detail = 'unknown', 'resource limit'
    else:
        res.status, res.detail = 'lost', (err[-400:] or 'no verdict')
    return res


def decide(unit, src, work, thorough):
    """Runs a unit, giving the prover more room or other seeds before settling on a failure."""
    r = attempt(unit, src, work, 40, min(150, max(20, left() - 250)), tag='a')
    if r.status in ('ok', 'lost'):
        return r
    tries = [('b', dict(full_bits=True)), ('s', dict(starts=True)), ('c', dict(extra=['--smt-option', 'smt.random_seed=7']))]
    if r.status == 'failed' and not thorough:
        tries = tries[:2]
    for tag, kw in tries:
        if left() < 300:
            break
        r2 = attempt(unit, src, work, 60, min(150, max(20, left() - 250)), tag=tag, **kw)
        if r2.status == 'ok':
            return r2
        if r2.status == 'failed' and r.status != 'failed':
            r = r2
    return r


def library(prop, src, work, groups):
    """Proves the lemmas the contracts rest on: arithmetic, bit operations, sequences, spec groups."""
    out = []
    vdir = os.path.join(VERIF, 'verus')
    head = '#![allow(unused, non_snake_case, non_camel_case_types)]\nuse vstd::prelude::*;\n'
    text = head + 'verus! {\npub mod num__ {\nuse vstd::prelude::*;\n' + open(os.path.join(vdir, 'num.rs')).read().replace('global size_of usize == 8;', '') + \
        '\n}\nglobal size_of usize == 8;\nuse num__::*;\n' + open(os.path.join(vdir, 'bits.rs')).read() + '\n} fn main() {}\n'
    p = os.path.join(work, 'bits.rs')
    open(p, 'w').write(text)
    def part(what, flags):
        rc, o, e = verus(p, ['--rlimit', '60'] + flags, 300)
        try:
            v = json.loads(o)
        except (ValueError, TypeError):
            v = {}
        return (what, v.get('verification-results', {}), v.get('times-ms', {}).get('smt', {}).get('total', 0), e)
    with ThreadPoolExecutor(2) as ex:
        out += list(ex.map(lambda a: part(*a), [('integer operations (verus/num.rs)', ['--verify-only-module', 'num__']), ('bit operations (verus/bits.rs)', ['--verify-root'])]))
    if prop == 'C21':
        text, n = tables.wellformed_text()
        p = os.path.join(work, 'wellformed.rs')
        open(p, 'w').write(text)
        rc, o, e = verus(p, ['--rlimit', '60'], 300)
        try:
            v = json.loads(o)
        except (ValueError, TypeError):
            v = {}
        out.append(('published descriptors are well formed, names unique (pinned/formats.json)', v.get('verification-results', {}), v.get('times-ms', {}).get('smt', {}).get('total', 0), e))
    w = Weaver(src.ir())
    text, _, _, _ = w.build([], ['func'], [], groups=groups)
    p = os.path.join(work, 'specs.rs')
    open(p, 'w').write(text)
    rc, o, e = verus(p, ['--rlimit', '60', '--verify-root'], 300)
    try:
        v = json.loads(o)
    except (ValueError, TypeError):
        v = {}
    out.append(('sequence lemmas and specification groups %s (verus/prelude.rs, contracts/)' % ' '.join(groups), v.get('verification-results', {}), v.get('times-ms', {}).get('smt', {}).get('total', 0), e))
    return out


# ---------------------------------------------------------------- executable search for a failing input

class Witness:
    """The search for (and replay of) a concrete failing input on the real code."""

    def __init__(self, work, prop):
        self.work, self.prop, self.bin, self.hooks, self.error = work, prop, None, [], None
        self.thread = threading.Thread(target=self.build)

    def build(self):
        try:
            self.bin, self.hooks, self.error = witness.build(self.work, REPO, self.prop, run)
        except Exception as e:
            self.error = '%s: %s' % (type(e).__name__, e)
        if self.error:
            self.error = self.error[-1500:]

    def shard(self, prop, seconds, seed, k, n, out, trace=None):
        d = os.path.join(out, str(k))
        os.makedirs(d, exist_ok=True)
        cmd = [self.bin, 'search', prop, '--seconds', str(seconds), '--seed', str(seed * 64 + k), '--shard', '%d/%d' % (k, n), '--out', d,
               '--literals', os.path.join(VERIF, 'pinned', 'literals.txt'), '--repo', REPO,
               '--stop', os.path.join(out, 'stop'), '--known', ','.join(f['class'] for f in findings.load()['findings'] if f['property'] == prop)]
        return run(cmd + (['--trace', trace] if trace else []), timeout=seconds + 60)

    def search(self, prop, seconds, seed):
        """Findings, each {'what':…, 'input':…, 'expected':…, 'got':…}, and the statistics of the search."""
        self.thread.join()
        if self.error:
            return [], {'error': self.error}
        out = os.path.join(self.work, 'witness-out')
        n = 6
        res, stats = [], {'evaluations': 0, 'distinct': 0, 'samples': [], 'rule': '', 'hooks': self.hooks}
        with ThreadPoolExecutor(n) as ex:
            rs = list(ex.map(lambda k: self.shard(prop, seconds, seed, k, n, out), range(n)))
        crashed = None
        for k, (rc, o, e) in enumerate(rs):
            last, some = None, False
            for line in (o or '').split('\n'):
                if line.startswith('{'):
                    try:
                        j = json.loads(line)
                    except ValueError:
                        continue
                    if j.get('kind') == 'finding':
                        res.append(j)
                        some = True
                    elif j.get('kind') == 'stats':
                        last = j
            if last:
                stats['evaluations'] += last['evaluations']
                stats['distinct'] += last['distinct']
                stats['samples'] = (stats['samples'] + last['samples'])[:5]
                stats['rule'] = last['rule']
            elif not some:
                log('search process %d ended with %s: %s' % (k, rc, (e or '')[-300:]))
                crashed = k if crashed is None else crashed
        if crashed is not None and not res:
            j = self.crash_report(prop, seconds, seed, crashed, n, out)
            if j:
                res.append(j)
        return res, stats

    def transcript(self, prop, base, seed, seconds=20):
        """The verified text, compiled, against the crate on the contents of the search (bounded)."""
        b, names, err = transcript.build(self.work, base, run)
        if err:
            return ['the verified text does not compile: %s' % err], {}
        self.thread.join()
        if self.error:
            return ['the crate does not build for the comparison with the verified text'], {}
        f = os.path.join(self.work, 'names.txt')
        open(f, 'w').write('\n'.join(names))

        def shard(k):
            return run([self.bin, 'transcript', prop, '--program', b, '--names', f, '--seconds', str(seconds), '--seed', str(seed * 1000 + k), '--repo', REPO, '--out', self.work,
                        '--literals', os.path.join(VERIF, 'pinned', 'literals.txt')], timeout=seconds + 60)
        bad, tot = [], {'evaluations': 0, 'distinct': 0, 'verdicts': 0}
        with ThreadPoolExecutor(7) as ex:
            for rc, o, e in ex.map(shard, range(7)):
                some = False
                for line in (o or '').split('\n'):
                    if line.startswith('{'):
                        j = json.loads(line)
                        if j['kind'] == 'difference':
                            bad.append('extraction: ' + j['what'])
                        else:
                            some = True
                            tot['evaluations'] += j['evaluations']
                            tot['distinct'] += j['distinct']
                            tot['verdicts'] = max(tot['verdicts'], j['verdicts'])
                if not some:
                    bad.append('the comparison with the verified text ends with %s: %s' % (rc, (e or '')[-200:]))
        return bad[:5], tot

    def crash_report(self, prop, seconds, seed, k, n, out):
        """A search process that died (abort, stack overflow): repeated with each input written down before it is evaluated."""
        t = os.path.join(self.work, 'trace.txt')
        if os.path.exists(os.path.join(out, 'stop')):
            os.remove(os.path.join(out, 'stop'))
        rc, o, e = self.shard(prop, seconds, seed, k, n, out, t)
        if rc == 0 or not os.path.exists(t):
            return None
        text = open(t, errors='replace').read()
        # a property is broken by the death of the process only if it speaks about termination
        if prop not in ('C01', 'C02', 'C09'):
            return None
        return {'kind': 'finding', 'property': prop, 'class': 'crash', 'what': 'the process dies (exit status %s) on this input: %s' % (rc, (e or '').strip()[-300:]),
                'input': text, 'expected': 'a verdict', 'got': 'the process ends'}


# ---------------------------------------------------------------- verdict

def write_replay(prop, name, content):
    d = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, '%s-%s' % (prop, name))
    if isinstance(content, (dict, list)):
        json.dump(content, open(p, 'w'), indent=1)
    else:
        open(p, 'w').write(content)
    return p


MODE_GROUPS = {'C09': ['core']}


def groups_for(w, us):
    gs = []
    for u in us:
        w2 = w
        for n in u.verify:
            for g in (w2.fns[n].uses if n in w2.fns else []):
                if g not in gs and not g.startswith('sigs') and g in w.specs:
                    gs.append(g)
    return gs or ['core']


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    tier = tier if tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    thorough = tier == 'thorough'
    os.makedirs(TARGET, exist_ok=True)
    work = tempfile.mkdtemp(prefix='run-%s-' % prop, dir=TARGET)
    try:
        return decide_property(prop, tier, seed, thorough, work)
    finally:
        if not os.environ.get('VERIF_KEEP'):
            shutil.rmtree(work, ignore_errors=True)


def decide_property(prop, tier, seed, thorough, work):
    wit = Witness(work, prop)
    src = Source(work)
    src.build()
    broken = []
    base = None
    try:
        base = Weaver(src.ir())
    except Broken as e:
        if prop == 'C08':
            p = write_replay(prop, 'build.txt', 'cargo check fails: %s' % e)
            evidence(prop, tier, seed, [], [], {}, [], ['the crate does not build'], 1)
            print('VIOLATION property=%s replay=%s' % (prop, p))
            return 1
        print('the crate does not build with all features: %s' % e)
        return 2
    except Lost as e:
        log('extraction:', e)
        broken.append(str(e))
    wit.thread.start()
    results, lib = [], []
    if base is not None:
        us = un.units_for(prop, base, None, thorough, REPO)
        log('%d units' % len(us))
        feats = sorted({u.feats for u in us})
        notbuilt = {}
        if prop == 'C08':
            def chk(s):
                try:
                    src.typecheck(s)
                    src.ir(s)
                except (Broken, Lost) as e:
                    notbuilt[s] = (isinstance(e, Broken), str(e))
            with ThreadPoolExecutor(8) as ex:
                list(ex.map(chk, feats))
        with ThreadPoolExecutor(8) as ex:
            libf = ex.submit(library, prop, src, work, groups_for(base, us))
            fs = [ex.submit(safe_decide, u, src, work, thorough) for u in us if u.feats not in notbuilt]
            results = [f.result() for f in fs]
            lib = libf.result()
        for s, (b, msg) in notbuilt.items():
            if b:
                p = write_replay(prop, 'build-%s.txt' % s, 'feature set %s: %s' % (s, msg))
                evidence(prop, tier, seed, results, lib, {}, [], [msg], 1)
                print('VIOLATION property=%s replay=%s' % (prop, p))
                return 1
            broken.append(msg)
        if prop == 'C08':
            results += same_bodies(src, feats, base)
    for r in results:
        if r.status != 'ok':
            log(r.unit.name, r.status, r.detail[:300])
    for what, v, ms, err in lib:
        if not proved(v):
            broken.append('library proof: %s: %s' % (what, err[-300:]))
            log('library not proved', what, err[-1500:])
    failed = [r for r in results if r.status == 'failed']
    open_ = [r for r in results if r.status in ('unknown', 'lost')]
    if thorough and base is not None and not failed and not open_ and not broken:
        broken += vacuity(prop, us, src, work)
        bad, AUDIT['evaluations of each assumed contract'] = audit(work, seed)
        broken += bad
        if prop != 'C09' and prop != 'C21':
            bad, AUDIT['compiled verified text against the crate'] = wit.transcript(prop, base, seed)
            broken += bad
    all_proved = not failed and not open_ and not broken
    # concrete search: a cross-check when everything is proved, the counterexample search when an
    # obligation fails, and the bounded stand-in for what could not be brought to the verifier
    secs = (60 if thorough else 8) if all_proved else (240 if thorough else 75)
    secs = int(os.environ.get('VERIF_SECS') or max(5, min(secs, left() - 90)))
    found, stats = wit.search(prop, secs, seed)
    log('search: %d s, %s evaluations, %d findings' % (secs, stats.get('evaluations'), len(found)))
    if stats.get('error'):
        log('the search does not build:', stats['error'])
    known = findings.load()
    news, knowns = [], []
    for j in found:
        k = next((k for k in known['findings'] if k['property'] == prop and k['class'] == j.get('class')), None)
        (knowns if k else news).append(j)
    for k in known['findings']:
        if k['property'] == prop:
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    if news:
        j = news[0]
        j['failed_obligations'] = [d for r in failed for d in r.failed]
        p = write_replay(prop, 'input.json', j)
        evidence(prop, tier, seed, results, lib, stats, broken, [j.get('what', '')], 1)
        print('%s: %s' % (prop, j.get('what', '')))
        print('VIOLATION property=%s replay=%s' % (prop, p))
        return 1
    alarms = []
    for r in failed:
        # a proof about a loop that was rewritten says nothing: its invariants are about another loop
        fns = {d['function'] for d in r.failed if d['function']} or set(r.unit.verify)
        rewritten = [n for n in fns if base is not None and not shape.same_loops(base, n) and n in shape.PINNED and shape.PINNED[n]['loops']]
        if rewritten:
            open_.append(r)
        else:
            alarms.append(r)
    if alarms:
        text = {'property': prop, 'failed_obligations': [dict(d, unit=r.unit.name) for r in alarms for d in r.failed],
                'note': 'the verifier rejects these obligations; the search found no concrete failing input', 'search': stats}
        p = write_replay(prop, 'obligation.json', text)
        evidence(prop, tier, seed, results, lib, stats, broken, ['%s: %s' % (r.unit.name, r.detail) for r in alarms], 1)
        for r in alarms:
            print('%s: %s: %s' % (prop, r.unit.name, r.detail[:300]))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, p))
        return 1
    evidence(prop, tier, seed, results, lib, stats, broken, [], 0)
    if all_proved:
        print('%s: proved: %d obligations in %d units' % (prop, sum(r.obligations for r in results), len(results)))
    else:
        print('%s: held on everything explored; not proved on this tree: %s' % (prop, '; '.join([r.unit.name + ' (' + r.detail[:120] + ')' for r in open_] + [b[:160] for b in broken])))
    return 0


def safe_decide(u, src, work, thorough):
    try:
        return decide(u, src, work, thorough)
    except Broken as e:
        r = Result(u)
        r.status, r.detail = 'lost', str(e)
        return r
    except Exception as e:  # a construct the tool does not know must not bring the check down
        r = Result(u)
        r.status, r.detail = 'lost', '%s: %s' % (type(e).__name__, e)
        if os.environ.get('VERIF_TRACE'):
            import traceback
            traceback.print_exc()
        return r


def same_bodies(src, feats, base):
    """Under every feature set, each enabled reader is the function of the all-features build."""
    out = []
    for s in feats:
        if s == un.ALL:
            continue
        r = Result(un.Unit([], ['same'], feats=s, label='reader bodies'))
        try:
            F = {f['name']: f for f in src.ir(s)['functions']}
        except (Broken, Lost) as e:
            r.status, r.detail = 'lost', str(e)
            out.append(r)
            continue
        r.status = 'ok'
        for n, f in F.items():
            g = base.F.get(n)
            if n in ('from_fmt_reader', 'from_generic_reader') or n not in un.KNOWN:
                continue
            r.obligations += 1
            if g is None or g['stmts'] != f['stmts'] or g['params'] != f['params'] or g['unsupported'] != f['unsupported']:
                r.status, r.detail = 'unknown', '%s differs from the all-features build' % n
        out.append(r)
    return out


def vacuity(prop, us, src, work):
    """Each contract with `false` added to what it ensures must be rejected, function by function."""
    bad = []

    def one(u):
        if u.split:
            return None
        for n in u.verify:
            u2 = un.Unit([n], u.modes, u.feats, u.setup, u.split, u.raw, u.alloc, u.groups)
            r = attempt(u2, src, work, 20, 60, must_fail=True, tag='v')
            if r.status == 'ok':
                return '%s: proves false: its assumptions are contradictory' % u2.name
        return None
    with ThreadPoolExecutor(8) as ex:
        bad = [x for x in ex.map(one, us) if x]
    return bad


def audit(work, seed):
    """The assumed contracts of verus/ executed against the standard library itself (bounded, audit/).
    Returns what is wrong and how often each contract was evaluated."""
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(work, 'audit'))
    d = os.path.join(VERIF, 'audit')
    rc, o, e = run(['cargo', 'build', '--release', '--offline', '-q', '--manifest-path', os.path.join(d, 'Cargo.toml')], timeout=120, env=env)
    if rc != 0:
        return ['audit of the assumed contracts does not build: %s' % e[-300:]], {}
    rc, o, e = run([os.path.join(work, 'audit', 'release', 'audit'), str(seed)], timeout=120)
    n = {l.split()[0]: int(l.split()[1]) for l in o.split('\n') if len(l.split()) == 2 and not l.startswith('FAILED')}
    bad = ['assumed contract does not hold: ' + l[7:300] for l in o.split('\n') if l.startswith('FAILED')]
    if rc != 0 and not bad:
        bad = ['audit of the assumed contracts ends with %s' % rc]
    names = set()
    for f in ('prelude.rs', 'num.rs'):
        text = open(os.path.join(VERIF, 'verus', f)).read()
        names |= set(re.findall(r'external_body\)?\]?\s*(?:#\[[^\]]*\]\s*)*(?:pub\s+)?(?:broadcast\s+)?(?:proof\s+)?fn\s+(\w+)', text))
    # required to be unreachable: nothing is assumed
    names -= {'panic__', 'unreachable__'}
    bad += ['assumed contract %s is not audited' % x for x in sorted(names - set(n))]
    return bad, n


TRUSTED = [
    'verus/prelude.rs: the contracts of the standard library operations (Read, Seek, BufReader, Cursor, File::open, slices, str, String, Vec, UTF-8 decoding, char classes), marked external_body, state their documented behaviour',
    'extract/: the translation of the macro-expanded source into the Verus dialect (generic streams become one Stream type with the documented behaviour of any Read + Seek source; iterator loops become index loops; helpers without a contract are inlined)',
    'literal axioms: each byte or string literal of the source is an uninterpreted sequence with its length, its elements (up to 16) and a number that tells different literals apart',
    'Verus, its encoding and Z3',
    'Streams hold at most 2^63-1 bytes and a seek succeeds exactly when its target is in 0..2^64 (a File rejects targets from 2^63 on: see the known finding of C05)',
]


AUDIT = {}


def evidence(prop, tier, seed, results, lib, stats, broken, violations, nviol):
    ok = [r for r in results if r.status == 'ok']
    libn = sum(v.get('verified', 0) for _, v, _, _ in lib)
    proved = len(ok) == len(results) and not broken and results
    verified = {n for r in results for n in r.functions}
    cov = {
        'obligations': sum(r.obligations for r in results) + sum(v.get('verified', 0) + v.get('errors', 0) for _, v, _, _ in lib),
        'discharged': sum(r.obligations for r in ok) + libn,
        'checker_cmd': 'cd /verif && python3 tool/check.py %s' % prop,
        'trusted_base': TRUSTED,
        'functions_under_contract': sorted(verified),
        'back_end': 'Verus (Z3)',
        'solver_ms': sum(r.smt_ms for r in results) + sum(ms for _, _, ms, _ in lib),
        'units': [{'unit': r.unit.name, 'status': r.status, 'obligations': r.obligations, 'smt_ms': r.smt_ms, 'wall_s': round(r.wall, 1), 'detail': r.detail[:300]} for r in results],
        'library': [{'what': a, 'verified': v.get('verified', 0), 'errors': v.get('errors', 0)} for a, v, _, _ in lib],
        'not_proved': [r.unit.name + ': ' + r.detail[:200] for r in results if r.status != 'ok'] + [b[:300] for b in broken],
        'assumed_contracts': sorted({c for r in results for c in r.trusted} - verified),
        'bounded_search': {k: stats.get(k) for k in ('evaluations', 'distinct', 'rule', 'samples')} if stats else None,
    }
    if AUDIT:
        cov['audit'] = AUDIT
    e = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof' if proved else 'other', 'coverage': cov, 'wall_s': round(time.time() - START, 2),
         'violations': nviol,
         'assumptions': ['contracts of functions verified by other checks are assumed here: ' + ', '.join(cov['assumed_contracts'])] if cov['assumed_contracts'] else []}
    if not proved:
        cov['explanation'] = 'Some obligations were not discharged on this tree; for them only the bounded search counts: ' + '; '.join(cov['not_proved'] + violations)[:1500]
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    json.dump(e, open(os.path.join(d, prop + '.json'), 'w'), indent=1)


if __name__ == '__main__':
    sys.exit(main())

import concurrent.futures as cf, json, os, re, shutil, subprocess, sys, time
from units import UNITS, PROP_UNITS, PROP_DEPS, KANI_FACTS

V = '/verif'
REPO = '/repo'
B = V + '/build'
VX = V + '/vx/target/release/vx'
VH = B + '/harness/release/vh'
RUN_LIMIT = 840.0
T0 = time.time()


def log(*a):
    print('[%6.1fs]' % (time.time() - T0), *a, flush=True)


def left():
    return RUN_LIMIT - (time.time() - T0)


def sh(cmd, env=None, cwd=None, timeout=600, **kw):
    e = dict(os.environ)
    e['CARGO_NET_OFFLINE'] = 'true'
    e.pop('RUSTFLAGS', None)
    if env:
        e.update(env)
    try:
        p = subprocess.run(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, **kw)
        return p.returncode, p.stdout.decode('utf8', 'replace'), p.stderr.decode('utf8', 'replace')
    except subprocess.TimeoutExpired as x:
        return 124, (x.stdout or b'').decode('utf8', 'replace'), (x.stderr or b'').decode('utf8', 'replace') + '\ntimeout'


class Broken(Exception):
    pass


# --------------------------------------------------------------------------- build

def build_vx():
    rc, o, e = sh(['cargo', 'build', '--release', '--offline', '--quiet'], cwd=V + '/vx')
    if rc:
        raise Broken('vx does not build:\n' + e[-3000:])


def build_harness():
    rc, o, e = sh(['cargo', 'build', '--release', '--offline', '--quiet'], cwd=V + '/harness',
                  env={'CARGO_TARGET_DIR': B + '/harness'})
    return None if rc == 0 else e[-3000:]


def expand(crate, out):
    if crate == 'miniserde':
        cmd = ['cargo', 'rustc', '--offline', '--quiet', '-p', 'miniserde', '--lib', '--', '-Zunpretty=expanded', '-Awarnings']
        rc, o, e = sh(cmd, cwd=REPO, env={'RUSTUP_TOOLCHAIN': 'nightly', 'CARGO_TARGET_DIR': B + '/expand'})
    elif crate in ('itoa', 'ryu'):
        # a dependency, as /repo's lock file pins it
        rc, o, e = sh(['cargo', 'rustc', '--offline', '--quiet', '-p', crate, '--lib', '--', '-Zunpretty=expanded', '-Awarnings'], cwd=REPO, env={'RUSTUP_TOOLCHAIN': 'nightly', 'CARGO_TARGET_DIR': B + '/expand'})
        if rc:
            rc, o = 0, ''
    else:
        d = crate if crate.startswith('/') else V + '/' + crate
        cmd = ['cargo', 'rustc', '--offline', '--quiet', '--lib', '--', '-Zunpretty=expanded', '-Awarnings']
        rc, o, e = sh(cmd, cwd=d, env={'RUSTUP_TOOLCHAIN': 'nightly', 'CARGO_TARGET_DIR': B + '/expand'})
        if rc == 0:
            # default methods of the traits come from the library's own expansion
            lib = expand('miniserde', out + '.lib')
            o += '\nmod miniserde_source {\n' + open(lib).read() + '\n}\n'
    if rc:
        raise Broken('/repo does not compile (expansion of %s):\n%s' % (crate, e[-3000:]))
    with open(out, 'w') as f:
        f.write(o)
    return out


def declarations_rejected(d):
    """type-checks the sample declarations of d: {'C14': [...], 'C16': [...]} for those the compiler rejects"""
    rc, o, e = sh(['cargo', 'check', '--offline', '--quiet', '--message-format=json'], cwd=d, env={'CARGO_TARGET_DIR': B + '/expand'})
    out = {}
    if rc == 0:
        return out
    lines = open(d + '/src/lib.rs').read().split('\n')
    for l in o.split('\n'):
        try:
            m = json.loads(l).get('message') or {}
        except ValueError:
            continue
        if m.get('level') != 'error':
            continue
        for sp in m.get('spans', []):
            while sp.get('expansion') and not sp['file_name'].endswith('src/lib.rs'):
                sp = sp['expansion']['span']
            if not sp['file_name'].startswith('src/lib.rs'):
                continue
            k = sp['line_start'] - 1
            while k > 0 and not lines[k].startswith('pub mod '):
                k -= 1
            end = next((j for j in range(k, len(lines)) if lines[j] == '}' and (j + 1 == len(lines) or lines[j + 1].startswith('pub mod ') or not lines[j + 1])), k)
            prop = 'C14' if '_s ' in lines[k] else 'C16'
            out.setdefault(prop, []).append({'declaration': '\n'.join(lines[k:end + 1]), 'error': (m.get('rendered') or m['message'])[:1500]})
            break
    return out


# --------------------------------------------------------------------------- one unit

TRUST = [
    ('assume_specification', r'assume_specification\b'),
    ('external_body', r'verifier::external_body'),
    ('axiom', r'\baxiom fn\b|\badmit\s*\('),
    ('assume', r'\bassume\s*\('),
    ('uninterp', r'\buninterp spec fn\b'),
    ('external', r'verifier::external\b'),
]


def fn_name_at(lines, i):
    for j in range(i, min(i + 12, len(lines))):
        m = re.search(r'\bfn\s+(\w+)', lines[j])
        if m:
            return m.group(1)
        m = re.search(r'assume_specification\s*(?:<[^\[]*>)?\s*\[\s*(.*?)\s*\]', lines[j])
        if m:
            return m.group(1)
        m = re.search(r'\bstruct\s+(\w+)', lines[j])
        if m:
            return 'struct ' + m.group(1)
    return '?'


def trusted_scan(text):
    lines = text.split('\n')
    out = {}
    for i, l in enumerate(lines):
        c = l.split('//')[0]
        for name, pat in TRUST:
            if re.search(pat, c):
                out.setdefault(name, []).append(fn_name_at(lines, i))
    return out


class Unit:
    """Result of verifying one unit against the current source."""

    def __init__(self, name, work, expanded, path=None):
        self.name, self.work, self.expanded = name, work, expanded
        self.path = path or '%s/units/%s.vrs' % (V, name)
        self.out = '%s/%s_out.rs' % (work, name)
        self.rep = '%s/%s.json' % (work, name)
        self.dropped = []       # keys emitted without body: not decided by proof
        self.whynot = {}        # key -> reason it is undecided
        self.failed = {}        # key -> [messages]: obligations refuted / unproved
        self.flaky = {}         # key -> rlimit
        self.unit_error = None  # whole unit undecided
        self.fns, self.lost, self.lemma_failed = [], [], []
        self.breakdown = {}
        self.smt_ms = 0
        self.verified = self.errors = 0
        self.wall = 0.0
        self.version = ''

    def extract(self, probe=False):
        d = '%s/%s.drop' % (self.work, self.name)
        with open(d, 'w') as f:
            f.write('\n'.join(self.dropped))
        out = self.out.replace('_out.rs', '_probe.rs') if probe else self.out
        rep = self.rep + ('p' if probe else '')
        cmd = [VX, '--expanded', self.expanded, '--locals', V + '/units/locals.txt', '--unit', self.path, '--out', out, '--report', rep, '--drop', d]
        rc, o, e = sh(cmd + (['--probe'] if probe else []), timeout=60)
        if rc:
            raise Broken('extraction failed for unit %s: %s' % (self.name, e[-2000:]))
        return json.load(open(rep)), out

    def verus(self, path, threads, timeout):
        cmd = ['verus', path, '--output-json', '--time-expanded', '--multiple-errors', '5', '--rlimit', '30', '--num-threads', str(threads), '--', '--error-format=json']
        rc, o, e = sh(cmd, cwd=self.work, timeout=timeout)
        diags = []
        for l in e.split('\n'):
            if l.startswith('{'):
                try:
                    diags.append(json.loads(l))
                except ValueError:
                    pass
        try:
            res = json.loads(o[o.index('{'):])
        except ValueError:
            res = None
        return rc, res, diags, e

    def owner(self, line):
        for f in self.fns:
            if f['start'] <= line <= f['end']:
                return f['key']
        return None

    def run(self, threads=4, limit=240.0):
        t = time.time()
        try:
            self._run(threads, limit)
        except Broken as x:
            self.unit_error = str(x)
        self.wall = time.time() - t

    def _run(self, threads, limit):
        t = time.time()
        for attempt in range(14):
            rep, path = self.extract()
            self.fns = rep['fns']
            self.lost = rep['lost']
            self.report = rep
            for l in self.lost:
                self.whynot[l['key']] = 'not found in the source'
            budget = limit - (time.time() - t)
            if budget < 15:
                raise Broken('unit %s: time budget used up' % self.name)
            rc, res, diags, err = self.verus(path, threads, budget)
            if rc == 124:
                raise Broken('unit %s: verifier ran out of time' % self.name)
            errs = [d for d in diags if d.get('level') == 'error' and d.get('spans')]
            vr = (res or {}).get('verification-results', {})
            hard = res is None or vr.get('encountered-vir-error') or 'verified' not in vr or (errs and vr.get('errors', 0) == 0)
            if hard:
                # something the verifier does not accept: leave those functions out
                new = set()
                for d in errs:
                    ks = [self.owner(s['line_start']) for s in d['spans'] if s.get('is_primary')] or []
                    ks += [self.owner(s['line_start']) for s in d['spans']]
                    for k in ks:
                        if k and k not in self.dropped:
                            new.add(k)
                            self.whynot[k] = 'not accepted by the verifier: ' + d['message'][:300]
                            break
                if not new:
                    m = '; '.join(d['message'] for d in diags if d.get('level') == 'error')[:600]
                    raise Broken('unit %s not accepted by the verifier: %s' % (self.name, m or err[-600:]))
                self.dropped += sorted(new)
                continue
            self.collect(res, errs)
            return
        raise Broken('unit %s: too many functions outside the verifier\'s subset' % self.name)

    def collect(self, res, errs):
        self.version = res.get('verus', {}).get('version', '')
        vr = res['verification-results']
        self.verified, self.errors = vr['verified'], vr['errors']
        smt = res.get('times-ms', {}).get('smt', {})
        self.smt_ms = smt.get('smt-run', smt.get('total', 0))
        for m in smt.get('smt-run-module-times', []):
            for b in m.get('function-breakdown', []):
                n = b['function'].split('::', 1)[-1]
                e = self.breakdown.setdefault(n, {'mode': b.get('mode:', b.get('mode', '')), 'ms': 0, 'rlimit': 0, 'ok': True})
                e['ms'] += b.get('time', 0)
                e['rlimit'] += b.get('rlimit', 0)
                e['ok'] = e['ok'] and b.get('success', True)
        self.lemma_failed = []
        for d in errs:
            order = sorted(d['spans'], key=lambda s: not s.get('is_primary'))
            keys = [self.owner(s['line_start']) for s in order]
            # the function whose body fails is the one holding the call / exit / statement
            cand = [k for k in keys if k]
            if not cand:
                self.lemma_failed.append(d['message'])
                continue
            k = cand[0]
            if 'postcondition' in d['message'] or 'precondition' in d['message']:
                at = [self.owner(s['line_start']) for s in d['spans'] if s.get('label') and ('exit' in s['label'] or 'end of the function' in s['label'])]
                if 'precondition' in d['message']:
                    at = [self.owner(s['line_start']) for s in d['spans'] if s.get('is_primary')]
                at = [x for x in at if x]
                if at:
                    k = at[0]
            where = '; '.join('%s%s' % ((s['label'] + ': ') if s.get('label') else '', ' '.join(x['text'].strip() for x in s.get('text', []))[:160]) for s in d['spans'])
            msg = '%s [%s]' % (d['message'], where[:500])
            if 'esource limit' in d['message'] or 'rlimit' in d['message']:
                self.flaky.setdefault(k, []).append(msg)
            else:
                self.failed.setdefault(k, []).append(msg)

    # ----------------------------------------------------------------- per property
    def tagged(self, prop):
        return [f for f in self.fns if prop in f['props']]

    def probe(self, threads=8, limit=240.0):
        """every function under contract with `assert(false)` at its start: one that
        still verifies has an unsatisfiable precondition"""
        rep, path = self.extract(probe=True)
        rc, res, diags, err = self.verus(path, threads, limit)
        hit = set()
        for d in diags:
            if d.get('level') == 'error' and 'assertion failed' in d['message']:
                for s in d['spans']:
                    for f in rep['fns']:
                        if f['start'] <= s['line_start'] <= f['end']:
                            hit.add(f['key'])
        want = [f['key'] for f in rep['fns'] if not f['dropped'] and not f['found'].startswith('static ')]
        return len(want), sorted(k for k in want if k not in hit)


# --------------------------------------------------------------------------- bounded layer

def search(prop, seed, secs, deep, work):
    d = work + '/search'
    shutil.rmtree(d, ignore_errors=True)
    for k in (0, 1):
        rc, o, e = sh([VH, 'search', prop, str(seed), str(secs), '1' if deep else '0', d], timeout=secs * 3 + 120)
        try:
            return json.loads(o.strip().split('\n')[-1])
        except ValueError:
            pass
    return {'crash': None, 'workers': [], 'error': 'search gave no result (%d): %s' % (rc, e[-500:])}


def random_declarations(seed, work):
    """a batch of generated declarations with their contracts: (crate, expansion, unit files)"""
    d = '%s/decl%d' % (work, seed)
    os.makedirs(d + '/units', exist_ok=True)
    os.makedirs(d + '/crate', exist_ok=True)
    for f in ('Cargo.toml', 'Cargo.lock'):
        shutil.copy(V + '/derive_sample/' + f, d + '/crate/')
    rc, o, e = sh(['python3', V + '/tools/gen_derive.py', str(seed), d + '/crate', d + '/units'])
    if rc:
        raise Broken('generator of declarations failed: ' + e[-500:])
    return d + '/crate', expand(d + '/crate', d + '/exp.rs'), {n: '%s/units/%s.vrs' % (d, n) for n in ('derive_structs', 'derive_enums')}


def kani_facts(mods):
    """assumed contracts on machine operators and scalar std functions, proved about the real ones by Kani
    (complete: every argument, no bound reached): float_facts = the axioms of float_model.vrs,
    std_facts = std_specs.vrs and std_extra.vrs"""
    rc, o, e = sh(['cargo', 'kani', '--target-dir', B + '/kani', '-j', '4', '--output-format', 'terse'] + [x for m in mods for x in ('--harness', m)], cwd=V + '/kani', timeout=300)
    src = open(V + '/kani/src/lib.rs').read()
    names = []
    for m in mods:
        body = src.split('mod %s {' % m)[1].split('\n}\n')[0]
        names += ['%s::%s' % (m, n) for n in re.findall(r'#\[kani::proof\] fn (\w+)\(\)', body)]
        names += ['%s::%s' % (m, n) for n in re.findall(r'^        (to_\w+) \w+:', body, re.M)]
    names = [n for n in names if '$' not in n]
    m = re.search(r'Complete - (\d+) successfully verified harnesses, (\d+) failures, (\d+) total', o)
    ok = rc == 0 and bool(m) and m.group(2) == '0' and int(m.group(1)) == len(names)
    return {'backend': 'kani (CBMC), complete', 'harnesses': names, 'proved': int(m.group(1)) if m else 0, 'ok': ok, 'note': '' if ok else (e or o)[-400:]}


def search_summary(j):
    per, n, samples, others = {}, 0, [], []
    for w in j['workers']:
        n += w.get('n', 0)
        for k, v in w.get('per', {}).items():
            per[k] = per.get(k, 0) + v
        samples += w.get('samples', [])[:2]
        others += w.get('other', [])
    hit = j.get('crash') or next((w['hit'] for w in j['workers'] if w.get('hit')), None)
    return n, per, samples, others, hit


def write_replay(prop, hit, work_dir, extra):
    d = V + '/replays'
    os.makedirs(d, exist_ok=True)
    p = '%s/%s.json' % (d, prop)
    r = {'property': prop}
    r.update(hit or {})
    r.update(extra)
    with open(p, 'w') as f:
        json.dump(r, f, indent=1)
    return p


def known_findings():
    out = []
    p = V + '/known_findings.jsonl'
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith('#'):
                out.append(json.loads(l))
    return out


def is_known(prop, hit, known):
    for k in known:
        if k.get('status') == 'known' and k['property'] == prop and k.get('kind') == hit.get('kind') and k.get('payload') == hit.get('payload'):
            return k
    return None


# --------------------------------------------------------------------------- main

def main(argv):
    prop = argv[0]
    if '--thorough' in argv:
        tier = 'thorough'
    else:
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    work = '%s/run-%s-%d' % (B, prop, os.getpid())
    os.makedirs(work, exist_ok=True)
    try:
        return check(prop, tier, seed, work)
    except Broken as x:
        print('CHECK-ERROR property=%s %s' % (prop, x))
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)


def check(prop, tier, seed, work):
    t0 = time.time()
    thorough = tier == 'thorough'
    names = PROP_UNITS.get(prop, [])
    deps = [n for n in PROP_DEPS.get(prop, []) if n not in names]
    crates = sorted(set(UNITS[n] for n in names + deps))
    units = []
    with cf.ThreadPoolExecutor(8) as ex:
        fh = ex.submit(build_harness)
        ff = ex.submit(kani_facts, KANI_FACTS[prop]) if prop in KANI_FACTS else None
        build_vx()
        log('extractor ready')
        exp = {c: expand(c, '%s/%s.exp.rs' % (work, c)) for c in crates}
        log('expanded', ' '.join(crates))
        units = [Unit(n, work, exp[UNITS[n]]) for n in names]
        dunits = [Unit(n, work, exp[UNITS[n]]) for n in deps]
        rejected, decls = [], []
        if prop in ('C14', 'C16'):
            libs = [V + '/derive_sample/src/lib.rs']
            rejected += declarations_rejected(V + '/derive_sample').get(prop, [])
            for k in range(12 if thorough else 1):
                crate, ex2, files = random_declarations(seed * 1000 + k, work)
                rejected += declarations_rejected(crate).get(prop, [])
                n = 'derive_structs' if prop == 'C14' else 'derive_enums'
                u = Unit('%s_%d' % (n, seed * 1000 + k), work, ex2, files[n])
                units.append(u)
                libs.append(crate + '/src/lib.rs')
            decls = [d for f in libs for d in re.findall(r'pub mod \w+_%s \{\n.*?\n\}\n' % ('s' if prop == 'C14' else 'e'), open(f).read(), re.S)]
            log(len(decls), 'declarations;', len(rejected), 'rejected')
        per = max(2, 8 // max(1, len(units) + len(dunits)))
        list(ex.map(lambda u: u.run(per, 280.0), units + dunits))
        herr = fh.result()
        facts = ff.result() if ff else None
        if facts:
            log('assumed contracts proved by kani: %d of %d' % (facts['proved'], len(facts['harnesses'])), facts['note'])
    if herr:
        log('bounded layer does not build: ' + herr)
    broken_deps = []
    for u in dunits:
        if u.unit_error or u.failed or u.flaky or u.dropped or u.lost or u.lemma_failed:
            broken_deps.append(u.name)
    if broken_deps:
        log('units this property builds on are not fully discharged:', broken_deps)
    for u in units + dunits:
        log('unit %s: %d verified, %d errors, %.1fs, dropped %s, lost %s%s' % (u.name, u.verified, u.errors, u.wall, u.dropped, [l['key'] for l in u.lost], '' if not u.unit_error else ' ' + u.unit_error))

    # obligations of this property
    obligations, discharged, functions, undecided, failed, support = 0, 0, [], [], [], []
    for u in units:
        if u.unit_error:
            undecided.append({'unit': u.name, 'reason': u.unit_error})
            continue
        names_out = dict(u.breakdown)
        lemma_modes = [n for n, b in names_out.items() if b['mode'] not in ('exec',)]
        for l in u.lost:
            if prop in l['props']:
                undecided.append({'unit': u.name, 'function': l['key'], 'reason': 'not found in the source'})
        for f in u.tagged(prop):
            k = f['key']
            obligations += 1
            short = k.rsplit('::', 1)[-1]
            bd = next((b for n, b in names_out.items() if b['mode'] == 'exec' and (n == short or n.endswith('::' + short))), None)
            state = 'discharged'
            if f['dropped'] or k in u.whynot:
                state = 'undecided'
                undecided.append({'unit': u.name, 'function': k, 'reason': u.whynot.get(k, 'dropped')})
            elif k in u.failed:
                skeleton = len(f['loops']) == f['expected_loops'] and not f['inlined'] and not f['inline_failed'] and not f['missing_marks']
                state = 'failed'
                failed.append({'unit': u.name, 'function': k, 'obligation': u.failed[k], 'same_shape': skeleton})
            elif k in u.flaky:
                state = 'undecided'
                undecided.append({'unit': u.name, 'function': k, 'reason': 'solver resource limit'})
            else:
                discharged += 1
            functions.append({'function': k, 'unit': u.name, 'state': state, 'loops': len(f['loops']), 'smt_ms': bd['ms'] if bd else None, 'rlimit': bd['rlimit'] if bd else None, 'inlined': f['inlined']})
        for n in lemma_modes:
            obligations += 1
            if names_out[n]['ok']:
                discharged += 1
        # functions of the unit whose obligations another property reports: this property's proof
        # uses their contracts, so one that is not discharged widens the search as a broken unit does
        for f in u.fns:
            k = f['key']
            if prop not in f['props']:
                bad = 'dropped' if f['dropped'] or k in u.whynot else 'failed' if k in u.failed else 'resource limit' if k in u.flaky else None
                support.append({'function': k, 'unit': u.name, 'state': bad or 'discharged'})
                if bad and u.name not in broken_deps:
                    broken_deps.append(u.name)
                    log('a function this property builds on is not discharged: %s (%s)' % (k, bad))
        if u.lemma_failed:
            undecided.append({'unit': u.name, 'reason': 'lemma: ' + '; '.join(u.lemma_failed)[:400]})
    all_ok = not undecided and not failed and (units or not names)
    log('obligations %d, discharged %d, failed %d, undecided %d' % (obligations, discharged, len(failed), len(undecided)))
    for f in failed:
        log('FAILED %s: %s' % (f['function'], f['obligation'][0][:300]))
    for f in undecided:
        log('UNDECIDED %s: %s' % (f.get('function', f['unit']), f['reason'][:300]))

    # bounded layer / witness search
    known = known_findings()
    viol, replay, hit, others, n, percase, samples, spent = False, None, None, [], 0, {}, [], 0.0
    if not herr:
        if all_ok and units and not broken_deps:
            secs = 60.0 if thorough else 8.0
        elif not units:
            secs = 240.0 if thorough else 30.0
        else:
            secs = 240.0 if thorough else 90.0
        secs = max(3.0, min(secs, left() - 60))
        ts = time.time()
        j = search(prop, seed, secs, thorough or not all_ok or bool(broken_deps), work)
        spent = time.time() - ts
        if j.get('error'):
            log('bounded layer:', j['error'])
        n, percase, samples, others, hit = search_summary(j)
        log('bounded layer: %d cases, %s' % (n, 'witness' if hit else 'no witness'))
    found_known = []
    if hit:
        k = is_known(prop, hit, known)
        if k:
            found_known.append(k)
            hit = None
    for k in known:
        if k.get('status') == 'known' and k['property'] == prop:
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    line = None
    cause = {'failed_obligations': failed, 'undecided': undecided}
    if rejected and not hit:
        # a declaration the macros must accept does not compile
        hit = dict(rejected[0], kind='declaration')
    if hit:
        viol = True
        replay = write_replay(prop, hit, work, cause)
        line = 'VIOLATION property=%s replay=%s' % (prop, replay)
    elif failed and not undecided and not herr and not any(o for o in others if prop not in o['props']):
        # an obligation of an unchanged-shape function is refuted and no other property explains it
        if all(f['same_shape'] for f in failed):
            viol = True
            replay = write_replay(prop, None, work, dict(cause, note='no failing input found; the verifier rejects the named obligations', bounded_cases=n))
            line = 'VIOLATION property=%s replay=%s no-failing-input-found' % (prop, replay)

    # evidence
    trusted, norm, maps = [], {}, {}
    versions = set()
    for u in units:
        if u.unit_error:
            continue
        versions.add(u.version)
        for k, v in trusted_scan(open(u.out).read()).items():
            trusted.append('%s: %s: %s' % (u.name, k, ', '.join(sorted(set(v)))))
        for k, v in u.report['normalised'].items():
            norm[k] = norm.get(k, 0) + v
        for k, v in u.report['model_maps'].items():
            if v:
                maps[k] = maps.get(k, 0) + v
    probe = None
    if thorough and units and all_ok and left() > 120:
        vac, tot = [], 0
        for u in units:
            t, bad = u.probe(limit=min(200, left() - 40))
            tot += t
            vac += bad
        probe = {'functions_probed': tot, 'precondition_unsatisfiable': vac}
        log('vacuity probes:', probe)
    level = level_of(prop)
    cov = {
        'bounded_layer': {'label': 'bounded: sampled/enumerated runs of the real crate, not counted as proved', 'evaluations': n, 'cases_by_kind': percase, 'seconds': round(spent, 1), 'samples': samples[:12], 'other_property_mismatches': len(others)},
    }
    if names:
        cov.update({
            'obligations': obligations, 'discharged': discharged,
            'checker_cmd': 'verus <unit>_out.rs --output-json --time-expanded --multiple-errors 5 --rlimit 30  (unit text: vx --expanded <rustc -Zunpretty=expanded of /repo> --unit /verif/units/<unit>.vrs)',
            'trusted_base': ['rustc %s macro expansion' % '-Zunpretty=expanded', 'vx extraction (counted rewrites below)', 'Verus + Z3'] + trusted,
            'functions_under_contract': functions,
            'functions_built_on': support,
            'failed': failed, 'undecided': undecided,
            'builds_on_units': {u.name: {'verified': u.verified, 'errors': u.errors} for u in dunits},
            'verifier': sorted(versions), 'smt_ms': {u.name: u.smt_ms for u in units},
            'unit_totals': {u.name: {'verified': u.verified, 'errors': u.errors, 'wall_s': round(u.wall, 1)} for u in units},
            'rewrites_applied': norm, 'dependency_models_used': maps,
            'vacuity_probe': probe if probe else 'thorough tier only',
        })
    if facts:
        cov['assumed_contracts_proved'] = facts
    if decls:
        cov.update({'programs': len(decls), 'disagreements_checked': obligations, 'samples': [d.split('\n', 2)[2] for d in decls[:3] + decls[-2:]]})
    if level == 'exploration' or not names:
        cov.update({'evaluations': n, 'distinct_nontrivial': n, 'rule': 'cases of the bounded layer (enumerated, then seeded random); all are checked against the executable oracle', 'samples': samples[:12]})
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov, 'assumptions': assumptions(prop), 'wall_s': round(time.time() - t0, 1), 'violations': 1 if viol else 0}
    os.makedirs(V + '/evidence', exist_ok=True)
    with open('%s/evidence/%s.json' % (V, prop), 'w') as f:
        json.dump(ev, f, indent=1)
    if line:
        print(line, flush=True)
        return 1
    print('OK property=%s obligations=%d discharged=%d undecided=%d bounded_cases=%d' % (prop, obligations, discharged, len(undecided) + len(failed), n))
    return 0


def manifest():
    return json.load(open(V + '/MANIFEST.json'))


def level_of(prop):
    try:
        for c in manifest()['checks']:
            if c['property'] == prop:
                return c['level']
    except (OSError, ValueError):
        pass
    return 'proof'


def assumptions(prop):
    out = ['usize is 64 bits; documents shorter than 0x7fff_0000 bytes (MAX_LEN in units/json_spec.vrs)',
           'contracts assumed on std functions are the ones listed in trusted_base (assume_specification / external_body)']
    try:
        for c in manifest()['checks']:
            if c['property'] == prop:
                out.append(c['level_note'])
    except (OSError, ValueError):
        pass
    return out

#!/usr/bin/env python3
"""run.py PROPERTY [--tier quick|thorough]

Decides one property: discharges the contracts of the functions it depends on with Kani (and
Verus), replays counterexamples on the natively compiled code, and writes evidence/<id>.json.
Exit 0: nothing violates the property.  Exit 1: a VIOLATION line was printed.
"""
import json, os, re, subprocess, sys, threading, time, signal, shutil

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props import PROPS, CRATES, TRUSTED  # noqa: E402

BUILD = os.path.join(HERE, 'build')
EVID = os.path.join(HERE, 'evidence')
REPLAYS = os.path.join(HERE, 'evidence', 'replays')
# assertions of the models that mean "outside what the model can represent", not "property broken"
# safe code over the model of std: the translation lost track of a pointer
LOST_POINTER = ('dereference failure', 'misaligned pointer', 'null reference', 'free argument', 'rust_dealloc must be')
MODEL_LIMITS = ('sha3 model:', 'xof model:', 'vru-uf:', 'model limit:')
UNDECIDED_CATEGORIES = ('unwind', 'unsupported_construct', 'internal_error', 'recursion')


def log(*a):
    print(*a, flush=True)


def run(cmd, timeout, cwd=None, env=None, out=None):
    """run a command in its own process group; returns (rc, output); rc None on timeout"""
    e = dict(os.environ)
    e['CARGO_NET_OFFLINE'] = 'true'
    e['RUSTC_WRAPPER'] = ''
    e['CARGO_TERM_COLOR'] = 'never'
    e.update(env or {})
    f = open(out, 'w+') if out else subprocess.PIPE
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=f, stderr=subprocess.STDOUT,
                         start_new_session=True, text=True, errors='replace')
    try:
        o, _ = p.communicate(timeout=max(1, timeout))
        rc = p.returncode
    except subprocess.TimeoutExpired:
        rc = None
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        o, _ = p.communicate()
    if out:
        f.flush()
        f.close()
        with open(out, errors='replace') as g:
            o = g.read()
    return rc, o or ''


RUSTFLAGS = '--cfg vru_verif --cap-lints allow'


class Native:
    """the harness bodies compiled against the real dependencies"""

    def __init__(self, crate):
        self.crate = crate
        # with the real dependencies, or (where the properties talk about the modelled ones) with the models
        self.dir = os.path.join(HERE, 'native', crate)
        if not os.path.isdir(self.dir):
            self.dir = os.path.join(HERE, 'harness', crate)
        self.target = os.path.join(BUILD, 'native-' + crate)
        self.bin = os.path.join(self.target, 'debug', 'n-' + crate)
        self.ok = False
        self.note = ''

    def build(self, timeout):
        rc, o = run(['cargo', '+stable', 'build', '--offline', '--target-dir', self.target], timeout, cwd=self.dir,
                    env={'RUSTFLAGS': RUSTFLAGS})
        self.ok = rc == 0 and os.path.exists(self.bin)
        if not self.ok:
            errs = [l for l in o.splitlines() if l.startswith('error')]
            self.note = 'native build failed: ' + '; '.join(errs[:3])
        return self.ok

    def call(self, args, timeout):
        """returns (searched: {name: n}, failures: [(name, message, hex)], notes)"""
        rc, o = run(['bash', '-c', 'ulimit -v 16000000; exec "$0" "$@"', self.bin] + args, timeout)
        done, fails, notes = {}, [], []
        for l in o.splitlines():
            m = re.match(r'SEARCHED (\S+) held=(\d+) skipped=(\d+)', l)
            if m:
                done[m.group(1)] = int(m.group(2))
            m = re.match(r'FAILED (\S+) :: (.*) :: ([0-9a-f]*)$', l)
            if m:
                fails.append((m.group(1), m.group(2), m.group(3)))
        if rc is None:
            notes.append('native run did not finish: ' + ' '.join(args)[:120])
        elif rc not in (0, 3):
            notes.append('native run ended with %s: %s' % (rc, ' '.join(args)[:120]))
        return done, fails, notes


class Kani:
    def __init__(self, crate):
        self.crate = crate
        self.dir = os.path.join(HERE, 'harness', crate)
        self.target = os.path.join(BUILD, 'kani-' + crate)
        self.json = os.path.join(BUILD, 'kani-%s.json' % crate)
        self.logf = os.path.join(BUILD, 'kani-%s.log' % crate)

    def base(self, harnesses):
        c = ['cargo', 'kani', '--target-dir', self.target, '-Z', 'function-contracts', '-Z', 'stubbing',
             '-Z', 'unstable-options', '--no-assertion-reach-checks', '--exact']
        for h in harnesses:
            c += ['--harness', h]
        return c

    def prove(self, harnesses, per, timeout, jobs=8):
        for f in (self.json, self.logf):
            if os.path.exists(f):
                os.unlink(f)
        cmd = self.base(harnesses) + ['-j', str(jobs), '--output-format', 'terse', '--harness-timeout', '%ds' % per,
                                      '--export-json', self.json]
        self.cmd = ' '.join(cmd)
        t = time.time()
        rc, o = run(cmd, timeout, cwd=self.dir, env={'RUSTFLAGS': RUSTFLAGS}, out=self.logf)
        res = {}
        try:
            d = json.load(open(self.json))
        except Exception:
            errs = [l for l in o.splitlines() if l.startswith('error')]
            why = 'time budget exhausted' if rc is None else 'Kani could not process the code: ' + '; '.join(errs[:3])
            if rc is None:
                # what finished before the budget ran out
                cur = {}
                for l in o.splitlines():
                    m = re.match(r'(Thread \d+): Checking harness (\S+?)\.\.\.', l)
                    if m:
                        cur[m.group(1)] = m.group(2)
            return {h: dict(status='undecided', why=why, checks=[], n=0, ok=0, ms=0) for h in harnesses}, why
        pd = {x['harness_id']: x['property_details'] for x in d.get('property_details', [])}
        st = {x['harness_id']: (x.get('cbmc_stats') or {}) for x in d.get('cbmc', [])}
        for r in d['verification_results']['results']:
            h = r['harness_id']
            p = pd.get(h) or {}
            n, ok, sat = p.get('total_properties') or 0, p.get('passed') or 0, p.get('satisfied') or 0
            ms = r.get('duration_ms') or 0
            bad = [c for c in r.get('checks', []) if str(c.get('status', '')).lower() in ('failure', 'failed')]
            unsat = [c for c in r.get('checks', []) if str(c.get('status', '')).lower() in ('unsatisfiable', 'unreachable')
                     and c.get('category') == 'cover']
            real = [c for c in bad if c.get('category') not in UNDECIDED_CATEGORIES
                    and not str(c.get('description', '')).startswith(MODEL_LIMITS)
                    and not (self.crate == 'udp' and str(c.get('description', '')).startswith(LOST_POINTER))]
            limit = [c for c in bad if c not in real]
            e = dict(checks=bad, n=n, ok=ok + sat, ms=ms, solver=st.get(h))
            if r['status'] == 'Success' and n and not (sat == 0 and 'cover' in str(p)):
                e['status'] = 'proved'
                if unsat:
                    e.update(status='undecided', why='the end of the harness is not reachable')
            elif real and not limit:
                e['status'] = 'failed'
            elif bad:
                e.update(status='undecided', why='outside the model: ' + str(limit[0].get('description'))[:100])
            else:
                e.update(status='undecided', why='no answer within %d s' % per)
            res[h] = e
        for h in harnesses:
            res.setdefault(h, dict(status='undecided', why='not run (harness missing)', checks=[], n=0, ok=0, ms=0))
        return res, None

    def playback(self, harness, timeout):
        """concrete values of a counterexample, as one byte string; (hex or None, verifier output)"""
        rc, o = run(self.base([harness]) + ['-Z', 'concrete-playback', '--concrete-playback=print'], timeout,
                    cwd=self.dir, env={'RUSTFLAGS': RUSTFLAGS})
        tapes = []
        for blk in re.findall(r'let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];', o, re.S):
            tape = ''
            for v in re.findall(r'^\s*vec!\[([0-9, ]*)\]', blk, re.M):
                tape += ''.join('%02x' % int(x) for x in v.split(',') if x.strip())
            tapes.append(tape)
        return tapes, o


def known_findings():
    known, fixed = [], []
    try:
        for l in open(os.path.join(HERE, 'known-findings.txt')):
            l = l.strip()
            if l.startswith('known:'):
                m = re.match(r'known: property=(\S+) body=(\S+) (.*)', l)
                known.append((m.group(1), m.group(2), m.group(3)))
    except FileNotFoundError:
        pass
    return known


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED') or '1')
    spec = PROPS[prop]
    t0 = time.time()
    hard = 760 if tier == 'quick' else 4 * 3600
    left = lambda: hard - (time.time() - t0)
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(REPLAYS, exist_ok=True)
    violations, notes, assumptions = [], [], []
    searched = {}
    nat_fails = []

    # ---- native runs, in the background
    ncfg = spec.get('native') or []
    ncfg = {c['crate']: c for c in (ncfg if isinstance(ncfg, list) else [ncfg])}
    natives = {c: Native(c) for c in ncfg}
    ready = threading.Event()
    stop_search = threading.Event()
    knownlist = [k for k in known_findings() if k[0] == prop]
    known_hit = []

    def native_job():
        try:
            for c, n in natives.items():
                if not n.build(min(400, left())):
                    notes.append(n.note)
                    continue
                ready.set()
                cfg = ncfg[c]
                for name in cfg.get('exhaustive', []) + (cfg.get('exhaustive_thorough', []) if tier == 'thorough' else []):
                    d, f, nt = n.call(['search', name, '1', str(seed), '1'], min(300, left()))
                    searched.update(d)
                    nat_fails.extend((c,) + x for x in f)
                    notes.extend(nt)
                names = cfg.get('search', [])
                secs = cfg.get('seconds', 40) * (10 if tier == 'thorough' else 1)
                # several processes, each with its own names
                jobs = []
                for i in range(min(4, len(names))):
                    part = names[i::4]
                    def one(part=part, i=i):
                        d, f, nt = n.call(['search', ','.join(part), str(secs), str(seed * 16 + i)], min(secs * 3 + 60, left()))
                        searched.update(d)
                        nat_fails.extend((c,) + x for x in f)
                        notes.extend(nt)
                    t = threading.Thread(target=one)
                    t.start()
                    jobs.append(t)
                for t in jobs:
                    t.join()
                for (_, body, text) in knownlist:
                    d, f, nt = n.call(['search', body, '1', str(seed), '1'], min(60, left()))
                    if f:
                        known_hit.append(text)
        except Exception as e:  # a broken native run decides nothing
            notes.append('native: %r' % e)
        finally:
            ready.set()

    nt = threading.Thread(target=native_job)
    nt.start()

    # ---- deductive obligations
    results = {}
    cmds = []
    fails = []
    for k in spec.get('kani', []):
        kc = Kani(k['crate'])
        hs = list(k['quick']) + (list(k.get('thorough', [])) if tier == 'thorough' else [])
        if not hs:
            continue
        per = k.get('per', 420) if tier == 'quick' else k.get('per_thorough', 3600)
        budget = max(30, left() - 60)
        res, why = kc.prove(hs, min(per, int(budget)), budget, k.get('jobs', 8))
        if why:
            notes.append('%s: %s' % (k['crate'], why))
        cmds.append(kc.cmd)
        for h, r in res.items():
            r['crate'] = k['crate']
            results[k['crate'] + '::' + h] = r
            if r['status'] == 'failed':
                fails.append((kc, h, r))
    verus_results = {}
    if spec.get('verus'):
        import verus_obligations
        for name in spec['verus']:
            r = verus_obligations.check(name, BUILD, min(300, left() - 20))
            verus_results[name] = r
            cmds.append(r['cmd'])
            if r['status'] == 'undecided':
                notes.append('verus %s: %s' % (name, r['why']))

    # ---- triage
    def write_replay(name, data):
        path = os.path.join(REPLAYS, '%s-%s.json' % (prop, re.sub(r'\W+', '-', name)))
        with open(path, 'w') as f:
            json.dump(data, f, indent=1)
        return os.path.relpath(path, HERE)

    nt.join()
    for (c, name, msg, hexs) in nat_fails:
        path = write_replay(name, dict(property=prop, crate=c, body=name, message=msg, input_hex=hexs,
                                       source='native run', command='%s replay %s %s' % (natives[c].bin, name, hexs)))
        violations.append((path, '', '%s: %s' % (name, msg)))
    for kc, h, r in fails:
        short = h.split('::')[-1]
        what = [dict(function=c.get('function'), obligation=c.get('description'), location=c.get('location'))
                for c in r['checks'] if c not in ()]
        data = dict(property=prop, crate=kc.crate, harness=h, failed_obligations=what, source='Kani',
                    verifier_command=kc.cmd)
        confirmed = False
        if nat_fails or any(not v[1] for v in violations):
            log('# also failed: %s: %s' % (h, '; '.join(str(w['obligation']) for w in what[:3])))
            continue  # the property is already reported with a failing input
        if any(n.ok for n in natives.values()) and left() > 40:
            tapes, out = kc.playback(h, min(left() - 30, 300))
            data['verifier_output'] = out[-6000:]
            for n in natives.values():
                for tape in tapes:
                    if left() < 20:
                        break
                    _, f, _ = n.call(['replay', short, tape], 30)
                    if f:
                        data.update(input_hex=f[0][2], message=f[0][1],
                                    command='%s replay %s %s' % (n.bin, short, f[0][2]))
                        confirmed = True
                        break
                if not confirmed and left() > 40:
                    _, f, _ = n.call(['search', short, '15', str(seed + 1)], 45)
                    if f:
                        data.update(input_hex=f[0][2], message=f[0][1], found_by='search with the failed obligation',
                                    command='%s replay %s %s' % (n.bin, short, f[0][2]))
                        confirmed = True
        path = write_replay(h, data)
        violations.append((path, '' if confirmed else ' no-failing-input-found',
                           '%s: %s' % (h, '; '.join(str(w['obligation']) for w in what[:3]))))
    for name, r in verus_results.items():
        if r['status'] == 'failed' and not violations:
            path = write_replay('verus-' + name, dict(property=prop, obligation=name, source='Verus',
                                                      failed_obligations=r['errors'], verifier_output=r['output'][-6000:],
                                                      verifier_command=r['cmd']))
            violations.append((path, ' no-failing-input-found', 'verus %s: %s' % (name, '; '.join(r['errors'][:2]))))

    # ---- report
    n_ob = sum(r['n'] for r in results.values()) + sum(r['n'] for r in verus_results.values())
    n_ok = sum(r['ok'] for r in results.values()) + sum(r['ok'] for r in verus_results.values())
    for h, r in sorted(results.items()):
        log('%-11s %-60s %6d/%-6d %7.1fs %s' % (r['status'], h, r['ok'], r['n'], r['ms'] / 1000, r.get('why', '')))
    for h, r in sorted(verus_results.items()):
        log('%-11s verus::%-53s %6d/%-6d %7.1fs %s' % (r['status'], h, r['ok'], r['n'], r['s'], r.get('why', '')))
    for n, c in sorted(searched.items()):
        log('searched    %-60s %d evaluations held' % (n, c))
    for n in notes:
        log('NOTE', n)
    undecided = [h for h, r in list(results.items()) + list(verus_results.items()) if r['status'] == 'undecided']
    level = spec['level']
    cov = dict(
        obligations=n_ob, discharged=n_ok,
        checker_cmd=' && '.join(cmds) or 'cargo build (native evaluation only)',
        trusted_base=TRUSTED['common'] + [TRUSTED[t] for t in spec.get('trusted', [])],
        functions_under_contract=spec['functions'],
        harnesses={h: dict(status=r['status'], obligations=r['n'], discharged=r['ok'], seconds=r['ms'] / 1000,
                           solver=r.get('solver'), bounded=spec.get('bounded', {}).get(h.split('::')[-1]))
                   for h, r in results.items()},
        verus={h: dict(status=r['status'], obligations=r['n'], discharged=r['ok'], seconds=r['s'])
               for h, r in verus_results.items()},
        solver_seconds=round(sum(r['ms'] for r in results.values()) / 1000 + sum(r['s'] for r in verus_results.values()), 1),
        back_end='Kani 0.68 (CBMC 6.11, CaDiCaL)' + (', Verus 0.2026.09.13 (Z3)' if verus_results else ''),
        undecided=undecided,
        native_evaluations=searched, evaluations=sum(searched.values()),
        explanation='obligations are the checks Kani/Verus generated from the current source on this run; '
                    'native_evaluations are concrete executions of the same harness bodies (replay and search), '
                    'not counted as proved',
        notes=notes,
    )
    if 'bounded' in spec:
        cov['bounded_stand_ins'] = spec['bounded']
    with open(os.path.join(EVID, prop + '.json'), 'w') as f:
        json.dump(dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
                       assumptions=spec.get('assumptions', []), wall_s=round(time.time() - t0, 1),
                       violations=len(violations)), f, indent=1)
    for t in known_hit:
        log('KNOWN-FINDING: property=%s %s' % (prop, t))
    if any(not v[1] for v in violations):
        violations = [v for v in violations if not v[1]]
    for path, tail, what in violations:
        log('# ' + what[:300])
        log('VIOLATION property=%s replay=%s%s' % (prop, path, tail))
    log('%s %s: %d/%d obligations discharged, %d undecided harnesses, %.0f s'
        % (prop, tier, n_ok, n_ob, len(undecided), time.time() - t0))
    sys.exit(1 if violations else 0)


if __name__ == '__main__':
    main()

#!/usr/bin/env python3
"""check.py PROPERTY: decides one property by symbolic execution of /repo's current code.

exit 0: held on everything explored; exit 1 and a VIOLATION line: a counterexample of the solver
that was replayed against the un-instrumented code; anything else: no answer."""
import hashlib, json, os, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, 'engine'))
sys.path.insert(0, os.path.join(V, 'checks'))
import build as B
import specs


def entries_of(harness):
    t = open(os.path.join(V, 'harness', harness + '.cpp')).read()
    return sorted(set(re.findall(r'extern "C" void (\w+)\s*\(', t)) | set(re.findall(r'^ENTRY\((\w+)\)', t, re.M)))


def model_text(m):
    return ''.join('%s=%s\n' % kv for kv in sorted(m.items()))


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.spec = specs.SPECS[pid]
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.t0 = time.time()
        self.evdir = os.path.join(V, 'evidence')
        self.repdir = os.path.join(self.evdir, 'replay', pid)
        os.makedirs(self.repdir, exist_ok=True)
        for f in os.listdir(self.repdir):
            os.unlink(os.path.join(self.repdir, f))
        self.known = []
        kf = os.path.join(V, 'known_findings.txt')
        if os.path.exists(kf):
            for l in open(kf):
                m = re.match(r'finding: property=(\S+) entry=(\S+) label=(\S+) (.*)', l)
                if m and m.group(1) == pid:
                    self.known.append(m.groups())

    def explore(self, exp, e, jobs):
        out = os.path.join(self.repdir, e['entry'] + '.result.json')
        o = dict(mode='real', budget=40, timeout=2000, jobs=jobs, pathsec=30, maxpaths=20000, seed=self.seed)
        o.update(e.get('opts', {}))
        if self.tier == 'thorough':
            o.update(budget=600, timeout=20000, pathsec=300)
            o.update(e.get('thorough', {}))
        cmd = [exp, '--entry=' + e['entry'], '--out=' + out] + ['--%s=%s' % kv for kv in o.items()]
        env = dict(os.environ, SYMI_TIER=self.tier)
        log = open(os.path.join(self.repdir, e['entry'] + '.log'), 'wb')
        t = time.time()
        try:
            p = subprocess.run(cmd, stdout=log, stderr=log, env=env, timeout=o['budget'] + 120, cwd='/tmp')
            rc = p.returncode
        except subprocess.TimeoutExpired:
            return None, 'explorer did not stop'
        if rc != 0 or not os.path.exists(out):
            return None, 'explorer failed rc=%d' % rc
        r = json.load(open(out))
        os.unlink(out)
        r['opts'] = o
        r['wall'] = time.time() - t
        return r, None

    def replay(self, native, entry, models, timeout=20, chunk=50):
        """list of (status, [fail labels], text) per model file"""
        res = []
        env = dict(os.environ, SYMI_TIER=self.tier, ASAN_OPTIONS='detect_leaks=0:abort_on_error=1:handle_abort=0', UBSAN_OPTIONS='print_stacktrace=0')
        parts = [models[i:i + chunk] for i in range(0, len(models), chunk)]

        def one(ms):
            try:
                p = subprocess.run([native, '--entry=' + entry, '--timeout=%d' % timeout] + ms, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, cwd='/tmp', timeout=timeout * len(ms) + 60)
                return p.stdout.decode(errors='replace')
            except subprocess.TimeoutExpired:
                return ''
        with ThreadPoolExecutor(8) as ex:
            outs = list(ex.map(one, parts))
        for part in re.split(r'^RUN ', '\n'.join(outs), flags=re.M)[1:]:
            name, _, txt = part.partition('\n')
            fails = re.findall(r'^FAIL (\S+)', txt, re.M)
            m = re.search(r'^CRASH signal=(\d+)', txt, re.M)
            x = re.search(r'^EXIT (\d+)', txt, re.M)
            st = 'crash%s' % m.group(1) if m else ('exit%s' % x.group(1) if x else '?')
            res.append((name.strip(), st, fails, txt))
        return res

    def run(self):
        sp = self.spec
        runs = [e for e in sp['entries'] if self.tier == 'thorough' or not e.get('thorough_only')]
        groups = {}
        for e in runs:
            groups.setdefault((e['harness'], tuple(e.get('defs', ()))), []).append(e)
        built = {}
        for (hs, defs) in groups:
            built[(hs, defs)] = B.build(hs, entries_of(hs), defs=defs, want_native=True)
        asan = {}
        for (hs, defs), es in groups.items():
            if any(e.get('asan') for e in es):
                asan[(hs, defs)] = B.build(hs, entries_of(hs), defs=defs, asan=True)['native']
        par = min(4, len(runs))
        jobs = {1: 8, 2: 5, 3: 4}.get(par, 4)
        bt = time.time() - self.t0
        results, errors = [], []
        with ThreadPoolExecutor(par) as ex:
            for e, (r, err) in zip(runs, ex.map(lambda e: self.explore(built[(e['harness'], tuple(e.get('defs', ())))]['explorer'], e, jobs), runs)):
                if err:
                    errors.append('%s: %s' % (e['entry'], err))
                else:
                    results.append((e, r))
        violations, knownhits, unrep, notes, samples = [], [], [], [], []
        validated = diverged = replays = 0
        undecided_total = 0
        for e, r in results:
            g = (e['harness'], tuple(e.get('defs', ())))
            nat = built[g]['native']
            files, meta = [], {}
            for i, c in enumerate(r['candidates']):
                f = os.path.join(self.repdir, '%s.%s.%d.model' % (e['entry'], re.sub(r'\W+', '_', c['label'])[:60], i))
                open(f, 'w').write(model_text(c['model']))
                files.append(f)
                meta[f] = ('cand', c['label'], c['how'])
            # paths that crashed, and paths whose execution did not end in time (endless loops)
            for i, m in enumerate(r['crash_models'] + r['slow_models']):
                f = os.path.join(self.repdir, '%s.crash.%d.model' % (e['entry'], i))
                open(f, 'w').write(model_text(m))
                files.append(f)
                meta[f] = ('crash', 'crash', 'path')
            pm = r['path_models']
            cap = 4000 if e.get('asan') else (30 if self.tier == 'quick' else 300)
            step = max(1, len(pm) // cap)
            pfiles = []
            for i, m in enumerate(pm[::step][:cap]):
                f = os.path.join(self.repdir, '%s.path.%d.model' % (e['entry'], i))
                open(f, 'w').write(model_text(m))
                pfiles.append(f)
                meta[f] = ('path', '', '')
            rr = self.replay(nat, e['entry'], files, chunk=1, timeout=e.get('replay_timeout', 20)) + self.replay(nat, e['entry'], pfiles)
            if e.get('asan'):
                rr += [(n, 'asan-' + st, fl, tx) for n, st, fl, tx in self.replay(asan[g], e['entry'], files + pfiles, timeout=60, chunk=10)]
            else:
                # crashes the plain build survives (small overruns): the same inputs under the sanitizers
                got = {n for n, st, fl, tx in rr if 'crash' in st}
                left = [f for f in files if meta[f][0] == 'crash' and f not in got][:8]
                if left:
                    if g not in asan:
                        asan[g] = B.build(g[0], entries_of(g[0]), defs=g[1], asan=True)['native']
                    rr += [(n, 'asan-' + st, fl, tx) for n, st, fl, tx in self.replay(asan[g], e['entry'], left, timeout=60, chunk=1)]
            hit = {}
            for name, st, fails, txt in rr:
                replays += 1
                kind, label, how = meta.get(name, ('?', '', ''))
                crashed = 'crash' in st
                if e.get('crash_only'):
                    fails = []
                if kind == 'cand' and label in fails:
                    hit.setdefault(label, (name, how, txt))
                elif crashed and (kind in ('crash', 'cand') or e.get('asan')):
                    hit.setdefault('crash', (name, how, txt))
                elif kind == 'path':
                    if st in ('exit0', 'exit3') and not fails or st.startswith('asan-exit'):
                        validated += 1
                    else:
                        diverged += 1
            for name in pfiles:
                if not any(h[0] == name for h in hit.values()):
                    os.unlink(name)
            for label, (name, how, txt) in hit.items():
                kn = [k for k in self.known if k[1] == e['entry'] and k[2] == label]
                det = ' '.join(l for l in txt.splitlines() if l.startswith(('FAIL ' + label, 'CRASH')) or 'ERROR: AddressSanitizer' in l or 'runtime error' in l)[:300]
                if kn:
                    knownhits.append((kn[0][3], name))
                else:
                    violations.append((e['entry'], label, name, how, det))
            seen = set()
            for name, (kind, label, how) in meta.items():
                if (kind == 'crash' or kind == 'cand' and not e.get('crash_only')) and label not in hit and label not in seen:
                    seen.add(label)
                    unrep.append('%s/%s (%s)' % (e['entry'], label, how))
            need = e.get('need', ['end'])
            miss = [x for x in need if x not in r['reached']]
            if (miss or r['completed'] == 0) and not hit:
                errors.append('%s: %s not reached on any completed path (paths %d, completed %d, crashed %d, timeouts %d)' % (e['entry'], miss, r['paths'], r['completed'], r['crashed'], r['timeouts']))
            for l, c in r['checks'].items():
                undecided_total += c['undecided']
            if pm:
                samples.append({'entry': e['entry'], 'path_model': pm[-1]})
        self.write_evidence(runs, results, violations, knownhits, unrep, errors, validated, diverged, replays, samples, bt)
        for e, r in results:
            if os.environ.get('SYMI_VERBOSE'):
                print('%s: mode=%s paths=%d done=%d cut=%d crash=%d to=%d sat=%d unsat=%d unk=%d nf=%d wall=%.1f trunc=%s' % (e['entry'], r['mode'], r['paths'], r['completed'], r['bound_ended'], r['crashed'], r['timeouts'], r['sat'], r['unsat'], r['unknown'], r['normal_form'], r['wall'], r['truncated']))
                for n, c in r['notes'].items():
                    print('   note', n, c)
                for l, c in r['checks'].items():
                    print('   %-44s %s' % (l, c))
        if os.environ.get('SYMI_VERBOSE'):
            print('unreproduced', unrep, 'validated', validated, 'diverged', diverged, 'build %.1f' % bt)
        for what, name in knownhits:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, what))
        for en, label, name, how, det in violations:
            print('VIOLATION property=%s replay=%s entry=%s check=%s %s' % (self.pid, os.path.relpath(name, V), en, label, det))
        if violations:
            return 1
        if errors:
            for x in errors:
                print('ERROR ' + x, file=sys.stderr)
            return 2
        print('OK property=%s paths=%d queries=%d undecided=%d wall=%.1fs' % (self.pid, sum(r['completed'] for _, r in results), sum(r['sat'] + r['unsat'] + r['unknown'] for _, r in results), undecided_total, time.time() - self.t0))
        return 0

    def write_evidence(self, runs, results, violations, knownhits, unrep, errors, validated, diverged, replays, samples, bt):
        q = lambda k: sum(r[k] for _, r in results)
        fns = sorted({f for _, r in results for f in r['functions'] if 'ESKF_VIO' in f or 'Eigen' not in f})
        try:
            d = subprocess.run(['c++filt'], input='\n'.join(fns).encode(), stdout=subprocess.PIPE).stdout.decode().split('\n')
        except OSError:
            d = fns
        repo_fns = sorted({x for x in d if 'ESKF_VIO_BACKEND::' in x and not x.startswith(('std::', 'void std::'))})
        checks = {}
        for e, r in results:
            for l, c in r['checks'].items():
                checks['%s/%s' % (e['entry'], l)] = c
        ev = {
            'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': 'model_checking',
            'coverage': {
                'states': q('completed'),
                'transitions': q('sat') + q('unsat') + q('unknown'),
                'traces_validated_against_impl': validated,
                'samples': samples[:6],
                'meaning': 'states = symbolic paths of the real code followed to the end of the harness (each stands for all inputs of its path condition); transitions = solver queries for path alternatives and assertions; traces_validated = path models whose concrete run of the un-instrumented code agreed with the symbolic verdicts',
                'bounds': self.spec['bounds'],
                'outside_the_bounds': self.spec.get('outside', 'anything larger than the stated bounds; floating-point rounding wherever the mode is real'),
                'functions_encoded': repo_fns,
                'queries': {'sat': q('sat'), 'unsat': q('unsat'), 'unknown': q('unknown')},
                'obligations_decided_by_normal_form': q('normal_form'),
                'solver_seconds': round(q('solver_ms') / 1000.0, 2),
                'assertions': checks,
                'undecided_assertions': sum(c['undecided'] for c in checks.values()),
                'entries': [{'entry': e['entry'], 'mode': r['mode'], 'paths': r['paths'], 'completed': r['completed'], 'ended_by_assumption': r['assume_ended'], 'cut_by_bound': r['bound_ended'], 'timeouts': r['timeouts'], 'crashed': r['crashed'], 'truncated_by_budget': r['truncated'], 'notes': r['notes'], 'wall_s': round(r['wall'], 2), 'options': r['opts']} for e, r in results],
                'exhaustive': all(not r['truncated'] and r['timeouts'] == 0 and r['bound_ended'] == 0 and r['unknown'] == 0 for _, r in results),
                'replays': replays, 'replay_divergences': diverged,
                'candidates_not_reproduced': unrep, 'errors': errors,
                'known_findings_seen': [k[0] for k in knownhits],
                'build_s': round(bt, 1),
            },
            'assumptions': self.spec.get('assumptions', []) + specs.COMMON_ASSUMPTIONS,
            'wall_s': round(time.time() - self.t0, 2), 'violations': len(violations),
        }
        os.makedirs(self.evdir, exist_ok=True)
        with open(os.path.join(self.evdir, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)


def main():
    if len(sys.argv) > 1 and sys.argv[1] == '--setup':
        B.plugin(); B.runtime(); B.native_rt()
        for defs in sorted({tuple(e.get('defs', ())) for s in specs.SPECS.values() for e in s['entries']}):
            B.pch(defs)
        print('engine built')
        return 0
    if len(sys.argv) == 3 and sys.argv[1] == '--replay':
        # evidence/replay/<property>/<entry>.<label>.<n>.model, against the current tree
        f = os.path.abspath(sys.argv[2])
        pid, entry = os.path.basename(os.path.dirname(f)), os.path.basename(f).split('.')[0]
        e = [x for x in specs.SPECS[pid]['entries'] if x['entry'] == entry][0]
        bad = 0
        for asan in (False, True):
            nat = B.build(e['harness'], entries_of(e['harness']), defs=tuple(e.get('defs', ())), want_native=not asan, asan=asan)['native']
            p = subprocess.run([nat, '--entry=' + entry, '--timeout=60', f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd='/tmp', env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=1:handle_abort=0'))
            t = p.stdout.decode(errors='replace')
            print(('sanitizers: ' if asan else 'plain: ') + t)
            bad |= bool(re.search(r'^(FAIL|CRASH) ', t, re.M))
        return 1 if bad else 0
    if len(sys.argv) != 2 or sys.argv[1] not in specs.SPECS:
        print('usage: check.py PROPERTY | check.py --replay MODEL', file=sys.stderr)
        return 2
    try:
        return Check(sys.argv[1]).run()
    except B.BuildError as x:
        print('BUILD-ERROR %s' % x, file=sys.stderr)
        return 2


if __name__ == '__main__':
    sys.exit(main())

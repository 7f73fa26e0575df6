#!/usr/bin/env python3
"""mutate.py WORKER COUNT [SEED] [FILTER]: small changes of the source, one at a time, each put to
the checks anchored there; prints the ones no check reports. Works on copies outside /repo and /verif.
(A development aid: no registered check uses it.)"""
import os, random, re, shutil, subprocess, sys, glob, time
W, COUNT = sys.argv[1], int(sys.argv[2]); SEED = int(sys.argv[3]) if len(sys.argv) > 3 else 1; FILT = sys.argv[4] if len(sys.argv) > 4 else ''
BASE = '/tmp/w/mut' + W; REPO = BASE + '/repo'; VER = BASE + '/verif'; BUILD = BASE + '/build'
MAP = {'config.cpp': 'C01', 'config.hpp': 'C01', 'frame_manager.cpp': 'F02 F03 U04 U08 U01', 'frame_manager.hpp': 'F02 F03', 'feature_manager.cpp': 'F01 F03 U07', 'feature_manager.hpp': 'F01 F03',
       'data_loader.cpp': 'D02 D03 D04 D01', 'data_typedef.cpp': 'F01 F02 U01 D04 D03', 'data_typedef.hpp': 'F01 F02 D03', 'backend_initialize.cpp': 'B01 B02', 'backend.cpp': 'B03 F03 B02', 'backend_config.cpp': 'C01',
       'multi_view_vision_update.cpp': 'U03 U04 U05 U06 U07 U01 F03 U02 U08', 'attitude_estimate.cpp': 'A01 A02 A03 B02', 'imu_state.cpp': 'P01 U04 P03', 'imu_state.hpp': 'P01 U04 P03', 'sequence_propagator.cpp': 'P01 P02 P03 P04 U08', 'sequence_propagator.hpp': 'P01 P02 P03 P04',
       'trianglation.cpp': 'G01 G02', 'perspective_n_point.cpp': 'G03 G04', 'perspective_n_point.hpp': 'G03 G04', 'math_lib.hpp': 'M01 P01 P02 U03 U04 G01', 'attitude_estimate.hpp': 'A01 A02 A03', 'typedef.hpp': 'F01'}


def mutants(path, text):
    out = []
    lines = re.sub(r'/\*.*?\*/', lambda m: re.sub(r'[^\n]', ' ', m.group()), text, flags=re.S).split('\n')
    full = text.split('\n')
    for i, l in enumerate(lines):
        code = l.split('//')[0]
        st = code.strip()
        if st.startswith('/*') or st.startswith('*') or not st or st.startswith('#') or 'Log' in code or 'template' in code or 'cout' in code:
            continue

        def add(a, b, rep, kind):
            out.append((i, full[i][:a] + rep + full[i][b:], kind))
        for m in re.finditer(r'(?<![<>=!\-+*/&|])(<=|>=|==|!=|<|>)(?![<>=])', code):
            op = m.group()
            if op in '<>' and not re.search(r'\s$', code[:m.start()]):
                continue
            for r in {'<': ['<=', '>'], '>': ['>=', '<'], '<=': ['<'], '>=': ['>'], '==': ['!='], '!=': ['==']}[op]:
                add(m.start(), m.end(), r, 'rel')
        for m in re.finditer(r'&&|\|\|', code):
            add(m.start(), m.end(), '||' if m.group() == '&&' else '&&', 'logic')
        for m in re.finditer(r'(?<=\s)([+\-*/])(?=\s)', code):
            add(m.start(), m.end(), {'+': '-', '-': '+', '*': '/', '/': '*'}[m.group()], 'arith')
        for m in re.finditer(r'(?<=[(,=]\s)-(?=\s?[\w(])|(?<=\()-(?=\s?[\w(])', code):
            add(m.start(), m.end(), '', 'neg')
        for m in re.finditer(r'(\+=|-=)', code):
            add(m.start(), m.end(), {'+=': '-=', '-=': '+='}[m.group()], 'arith')
            add(m.start(), m.end(), '=', 'arith')
        for m in re.finditer(r'(?<![\w.])(\d+)(?![\w.])', code):
            v = int(m.group())
            for r in {v + 1, max(0, v - 1)} - {v}:
                add(m.start(), m.end(), str(r), 'int')
        for m in re.finditer(r'(?<![\w.])(\d+\.\d+(?:e-?\d+)?f?)(?!\w)', code):
            add(m.start(), m.end(), '(%s * 2)' % m.group(), 'float')
            if float(m.group().rstrip('f')) == 0:
                add(m.start(), m.end(), '0.125f', 'float')
        m = re.match(r'(\s*)(?:else )?if \((.*)\) \{\s*$', code)
        if m:
            a = code.index('if (') + 4
            add(a, a + len(m.group(2)), 'true', 'cond')
            add(a, a + len(m.group(2)), 'false', 'cond')
        if re.match(r'return (true|false);$', st):
            a = code.index('return')
            add(a, len(code), 'return %s;' % ('false' if 'true' in st else 'true'), 'ret')
        if st in ('continue;', 'break;'):
            add(code.index(st), len(code), 'break;' if st == 'continue;' else 'continue;', 'flow')
            add(code.index(st), len(code), ';', 'flow')
        for m in re.finditer(r'\.(front|back)\(\)', code):
            add(m.start(), m.end(), '.back()' if 'front' in m.group() else '.front()', 'end')
        for m in re.finditer(r'\.(inverse|transpose|normalized|conjugate)\(\)', code):
            add(m.start(), m.end(), '', 'drop')
        for m in re.finditer(r'INDEX_(\w+)', code):
            n = {'P': 'V', 'V': 'P', 'R': 'V', 'BA': 'BG', 'BG': 'BA'}.get(m.group(1))
            if n:
                add(m.start(), m.end(), 'INDEX_' + n, 'index')
        if re.match(r'[\w\->.\[\]()*&: ,]+(\(.*\)|[+\-]?= .*);$', st) and not re.match(r'(auto|const|return|fp64|Scalar|Matrix\w*|Vector\d?\w*|Quaternion|std::\w+<|bool|int|uint32_t|size_t|delete|Utility|static|using|virtual|IMU\w+ \w|Feature\w* \w|Frame\w* \w)\b.*', st):
            add(0, len(l), re.match(r'\s*', l).group() + ';', 'del')
        elif st.endswith(';') and re.match(r'(this->|\w+->|\(\*it\)|\w+\.)', st):
            add(0, len(l), re.match(r'\s*', l).group() + ';', 'del')
    return out


def main():
    os.makedirs(BASE, exist_ok=True)
    for d in (REPO, VER, BUILD):
        shutil.rmtree(d, ignore_errors=True)
    subprocess.check_call(['cp', '-a', '/repo', REPO])
    subprocess.check_call(['git', '-C', REPO, 'checkout', '-q', '--', '.'])
    subprocess.check_call(['git', 'clone', '-q', os.path.dirname(os.path.dirname(os.path.abspath(__file__))), VER])
    env = dict(os.environ, SYMI_REPO=REPO, SYMI_BUILD=BUILD)
    env.pop('SYMI_VERBOSE', None)
    allm = []
    for p in sorted(glob.glob(REPO + '/eskf_vio_backend/**/*.[ch]pp', recursive=True)):
        n = os.path.basename(p)
        if n in MAP and '/test' not in p and (not FILT or re.search(FILT, n)):
            t = open(p).read()
            allm += [(p, i, new, k) for i, new, k in mutants(p, t)]
    print('mutants', len(allm), flush=True)
    rnd = random.Random(SEED)
    rnd.shuffle(allm)
    os.makedirs(BUILD, exist_ok=True)
    subprocess.check_call([sys.executable, '-c', "import sys; sys.path[:0]=['engine','checks','.']; import specs, check, build as B; [B.build(h, check.entries_of(h), defs=d, want_native=True) for h, d in sorted({(e['harness'], tuple(e.get('defs', ()))) for p in specs.SPECS for e in specs.SPECS[p]['entries']})]"], cwd=VER, env=env)
    stats = dict(killed=0, survived=0, invalid=0)
    for p, i, new, kind in allm[int(os.environ.get('SKIP', 0)):][:COUNT]:
        orig = open(p).read()
        ls = orig.split('\n')
        old = ls[i]
        ls[i] = new
        open(p, 'w').write('\n'.join(ls))
        before = set(os.listdir(BUILD))
        res, t0 = 'SURVIVED', time.time()
        note = ''
        for pr in MAP[os.path.basename(p)].split():
            try:
                q = subprocess.run([sys.executable, 'check.py', pr], cwd=VER, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=400)
            except subprocess.TimeoutExpired:
                note += pr + ':timeout '
                continue
            if q.returncode == 1:
                res = 'killed ' + pr
                break
            if q.returncode != 0:
                if b'failed:' in q.stdout or b'error:' in q.stdout:
                    res = 'invalid'
                    break
                note += '%s:rc%d ' % (pr, q.returncode)
        open(p, 'w').write(orig)
        for f in set(os.listdir(BUILD)) - before:
            os.unlink(os.path.join(BUILD, f))
        stats[res.split()[0].lower()] += 1
        print('%s %s:%d [%s] %.0fs %s\n   - %s\n   + %s' % (res, os.path.basename(p), i + 1, kind, time.time() - t0, note, old.strip(), new.strip()), flush=True)
    print(stats)


main()

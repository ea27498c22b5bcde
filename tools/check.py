#!/usr/bin/env python3
"""Decides one property: builds the harness from the current sources of /repo, executes it
symbolically, replays witnesses and counterexamples natively, writes the evidence file.

usage: check.py PROPERTY [--tier quick|thorough] [--only HARNESS] [--keep]
       check.py --replay FILE
       check.py --setup
exit: 0 held, 1 violated (VIOLATION line printed), 2 anything else
"""
import concurrent.futures as cf
import fcntl, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENG = os.path.join(HERE, 'engine')
BUILD = os.path.join(HERE, 'build')
REPO = '/repo'
T0 = time.time()

COMMON = ['-std=c++11', '-I' + ENG, '-I' + ENG + '/config', '-I' + REPO + '/include', '-include', 'functional', '-w']
SYMFLAGS = ['-O1', '-fno-vectorize', '-fno-slp-vectorize', '-ffp-contract=off', '-fno-math-errno', '-U_FORTIFY_SOURCE',
            '-fno-stack-protector', '-gline-tables-only', '-emit-llvm']


class Failure(Exception):
    pass


def run(cmd, timeout=600, env=None):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True, env=env)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode('utf8', 'replace')
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, _ = p.communicate()
        return None, out.decode('utf8', 'replace')


def must(cmd, what, timeout=600):
    rc, out = run(cmd, timeout)
    if rc != 0:
        raise Failure('%s failed (%s):\n%s' % (what, rc, out[-4000:]))
    return out


def engine():
    """Builds the instrumentation tool, the runtime and the stubs if they are not up to date."""
    os.makedirs(BUILD, exist_ok=True)
    h = hashlib.sha256()
    for f in ['instrument.cpp', 'rt.cpp', 'ops.h', 'sym.h', 'native.cpp', 'stubs.c']:
        h.update(open(os.path.join(ENG, f), 'rb').read())
    d = os.path.join(BUILD, 'engine-' + h.hexdigest()[:16])
    with open(os.path.join(BUILD, 'lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(d, 'done')):
            return d
        os.makedirs(d, exist_ok=True)
        cx = subprocess.check_output(['llvm-config-18', '--cxxflags']).decode().split()
        cx = [x for x in cx if x not in ('-fno-exceptions', '-std=c++17')]
        ld = subprocess.check_output(['llvm-config-18', '--ldflags', '--libs']).decode().split()
        jobs = [
            (['g++', '-O1', '-std=c++17', '-fno-rtti'] + cx + [ENG + '/instrument.cpp', '-o', d + '/instrument'] + ld, 'instrument'),
            (['g++', '-O2', '-g1', '-std=c++17', '-w', '-c', ENG + '/rt.cpp', '-o', d + '/rt.o'], 'runtime'),
            (['g++', '-O1', '-std=c++11', '-fsanitize=address', '-w', '-I' + ENG, '-c', ENG + '/native.cpp', '-o', d + '/native.o'], 'replay runtime'),
            (['clang-18', '-O1', '-fno-builtin', '-fno-vectorize', '-fno-slp-vectorize', '-emit-llvm', '-c', ENG + '/stubs.c', '-o', d + '/stubs.bc'], 'stubs'),
        ]
        with cf.ThreadPoolExecutor(4) as ex:
            for f in [ex.submit(must, c, w, 1500) for c, w in jobs]:
                f.result()
        open(os.path.join(d, 'done'), 'w').close()
    return d


def flags_of(src, what='flags'):
    m = re.search(r'^// %s: (.*)$' % what, open(src).read(), re.M)
    return m.group(1).replace('$ENG', ENG).split() if m else []


def tool(name):
    """The source of a command line tool as a part of a namespace, with its function main as an ordinary function."""
    path = os.path.join(REPO, 'src/tools', name + '.cc')
    text = open(path).read()
    code = re.sub(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\'', lambda m: re.sub(r'[^\n]', ' ', m.group(0)), text, flags=re.S)
    m = re.search(r'\b(?:int|auto)\s+main\s*\([^)]*\)\s*(?:noexcept\s*)?(?:->\s*int\s*)?\{', code)
    if not m:
        raise Failure('no function main in %s' % path)
    depth, i = 1, m.end()
    while depth and i < len(code):
        depth += {'{': 1, '}': -1}.get(code[i], 0)
        i += 1
    text = text[:i - 1] + ' return 0; ' + text[i - 1:]
    k = code.index('main', m.start())
    text = text[:k] + 'tool' + text[k + 4:]
    lines = text.split('\n')
    head = [x if re.match(r'\s*#', x) else '' for x in lines]
    body = ['' if re.match(r'\s*#\s*include', x) else x for x in lines]
    line = '#line 1 "%s"' % path
    return '\n'.join([line] + head + ['#define ofstream captured_ofstream', 'namespace %s {' % name, line] + body + ['}', '#undef ofstream', ''])


def tools_of(src, w):
    """Flags for a harness that includes command line tools."""
    names = flags_of(src, 'tools')
    for n in names:
        tmp = w + '/%s.%d' % (n, threading.get_ident())
        with open(tmp, 'w') as f:
            f.write(tool(n))
        os.replace(tmp, w + '/%s.inc' % n)
    return ['-I' + w, '-I' + os.path.join(REPO, 'src/tools')] if names else []


def build_sym(src, d, w):
    fl = flags_of(src) + tools_of(src, w)
    must(['clang++-18'] + COMMON + fl + SYMFLAGS + ['-c', src, '-o', w + '/h.bc'], 'compilation of the harness to LLVM IR')
    must(['llvm-link-18', w + '/h.bc', d + '/stubs.bc', '-o', w + '/l.bc'], 'linking of LLVM IR')
    must([d + '/instrument', w + '/l.bc', w + '/i.bc', w + '/info.txt'], 'instrumentation')
    must(['clang-18', '-O1', '-Wno-override-module', '-c', w + '/i.bc', '-o', w + '/i.o'], 'code generation')
    must(['g++', w + '/i.o', d + '/rt.o', '-o', w + '/sym', '-lz3', '-lpthread'] + flags_of(src, 'libs'), 'linking')


def build_native(src, d, w):
    fl = flags_of(src) + tools_of(src, w)
    must(['g++'] + COMMON + fl + ['-O1', '-g1', '-fsanitize=address', '-c', src, '-o', w + '/n.o'], 'compilation of the replay program')
    must(['g++', '-fsanitize=address', w + '/n.o', d + '/native.o', '-o', w + '/native'] + flags_of(src, 'libs'), 'linking of the replay program')


def native(w, harness, path, env, timeout=150):
    e = dict(env)
    e['ASAN_OPTIONS'] = 'detect_leaks=0:hard_rss_limit_mb=3000:abort_on_error=0:exitcode=77:detect_stack_use_after_return=0:alloc_dealloc_mismatch=0:allocator_may_return_null=0:max_allocation_size_mb=8192:handle_abort=0'
    scratch = tempfile.mkdtemp(dir=w)
    e['SCRATCH'] = scratch
    try:
        p = subprocess.Popen([w + '/native', harness, path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True, env=e, cwd=scratch)
        try:
            out, _ = p.communicate(timeout=timeout)
            return p.returncode, out.decode('utf8', 'replace')
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.communicate()
            return None, 'timeout'
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def reproduced(kind, rc, out):
    if rc == 10:
        return 'REPLAY-ASSERT-FAILED' in out
    if rc in (0, 2, 11, 12, 14):
        return False
    if kind == 'hang':
        return rc is None or rc == -14 or rc == 77 or rc < 0
    return True


def fails(rc, out):
    """A native run that ends with a failed assertion, an invalid access or a crash."""
    return rc is not None and (rc == 10 and 'REPLAY-ASSERT-FAILED' in out or rc == 77 or rc < 0 and rc not in (-9, -14))


def known_findings():
    res = []
    try:
        for l in open(os.path.join(HERE, 'known-findings.txt')):
            m = re.match(r'KNOWN-FINDING: property=(\S+) harness=(\S+) message="([^"]*)" (.*)', l.strip())
            if m:
                res.append(m.groups())
    except FileNotFoundError:
        pass
    return res


def main():
    a = sys.argv[1:]
    if a and a[0] == '--setup':
        engine()
        return 0
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if '--tier' in a:
        i = a.index('--tier'); tier = a[i + 1]; del a[i:i + 2]
    only = None
    if '--only' in a:
        i = a.index('--only'); only = a[i + 1]; del a[i:i + 2]
    keep = '--keep' in a
    if keep:
        a.remove('--keep')
    replay = None
    if a and a[0] == '--replay':
        replay = os.path.abspath(a[1])
        head = dict(l.split(None, 1) for l in open(replay).read().splitlines() if l.startswith(('property ', 'harness ', 'tier ')))
        prop, only, tier = head['property'].strip(), head['harness'].strip(), head['tier'].strip()
    else:
        prop = a[0]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED') or 1)
    env = dict(os.environ, VERIF_TIER=tier)
    src = os.path.join(HERE, 'harness', prop + '.cpp')
    d = engine()
    os.makedirs(BUILD + '/work', exist_ok=True)
    os.makedirs(BUILD + '/replay', exist_ok=True)
    w = tempfile.mkdtemp(prefix=prop + '-', dir=BUILD + '/work')
    try:
        if replay:
            build_native(src, d, w)
            rc, out = native(w, only, replay, env)
            print(out, end='')
            print('exit status of the replay:', rc)
            return 0 if rc == 0 else 1
        return decide(prop, tier, seed, env, src, d, w, only)
    finally:
        if not keep:
            shutil.rmtree(w, ignore_errors=True)
        else:
            print('kept', w)


def decide(prop, tier, seed, env, src, d, w, only):
    with cf.ThreadPoolExecutor(2) as ex:
        fs, fn = ex.submit(build_sym, src, d, w), ex.submit(build_native, src, d, w)
        fs.result()
        native_build = fn
        tbuild = time.time() - T0
        text = open(src).read()
        stated = dict(re.findall(r'^//@ (\w+): (.*)$', text, re.M))
        # a comment for `name` also covers harnesses name1, name22, ...
        bounds = {}
        for m in re.findall(r'HARNESS\(\s*(\w+)\s*\)', text):
            best = max((k for k in stated if m.startswith(k)), key=len, default='')
            bounds[m] = stated.get(best, '')
        names = must([w + '/sym', '--list'], 'listing').split()
        names = [n for n in names if (only == n if only else (tier == 'thorough' or not n.startswith('t_')))]
        budget = 780.0 if tier == 'quick' else 780.0
        end = T0 + budget
        jobs = int(os.environ.get('SYM_JOBS') or 8)
        width = 3 if len(names) > 2 else len(names)
        results, hanging = {}, []

        def one(n):
            o = os.path.join(w, 'out_' + n)
            os.makedirs(o)
            left = end - time.time()
            if left < 5:
                return n, o, None, 'no time left'
            if hanging:
                return n, o, None, 'not run because %s does not terminate' % hanging[0]
            rc, out = run([w + '/sym', n, o, '%.0f' % left, str(jobs)], left + 40, dict(env, SCRATCH=o))
            try:
                r = json.load(open(o + '/result.json'))
            except Exception:
                r = None
            if any(f.startswith('violation_') and open(os.path.join(o, f)).read(10).startswith('kind hang') for f in os.listdir(o)):
                hanging.append(n)
            return n, o, r, out

        with cf.ThreadPoolExecutor(max(1, width)) as pool:
            for n, o, r, out in pool.map(one, names):
                results[n] = (o, r, out)
        native_build.result()
    known = [k for k in known_findings() if k[0] == prop]
    errors, violations, findings = [], [], []
    validated = 0
    samples = []
    tasks = []
    for n in names:
        o, r, out = results[n]
        if r is None:
            errors.append('%s: no result (%s)' % (n, out[-800:]))
        elif r['incomplete'] or r['lost'] or r['unknown']:
            errors.append('%s: incomplete: %s%s' % (n, r['why'], ' (process lost)' if r['lost'] else ''))
        for f in sorted(os.listdir(o)):
            if f.startswith('path_') or f.startswith('violation_'):
                hang = open(os.path.join(o, f)).read(10).startswith('kind hang')
                if not hang or not any(t[0] == n and t[2] for t in tasks):
                    tasks.append((n, os.path.join(o, f), hang))
    with cf.ThreadPoolExecutor(6) as pool:
        outs = list(pool.map(lambda t: native(w, t[0], t[1], dict(env, REPLAY_SECONDS='45') if t[2] else env), tasks))
    for (n, f, _), (rc, out) in zip(tasks, outs):
        body = open(f).read()
        if os.path.basename(f).startswith('path_'):
            if rc == 0:
                validated += 1
                if len([s for s in samples if s['harness'] == n]) < 2:
                    samples.append({'harness': n, 'inputs': [' '.join(l.split()[1:]) for l in body.splitlines() if l.startswith('in ')][:60], 'replay': 'same result natively'})
                continue
            if not fails(rc, out):
                errors.append('%s: native run of an explored path differs (%s): %s' % (n, rc, out[-600:]))
                continue
            # the real code fails for inputs of an explored path, for instance because it reads uninitialised memory
            m = re.search(r'REPLAY-ASSERT-FAILED:? *(.*)', out) or re.search(r'ERROR: (AddressSanitizer.*)', out)
            kind, msg = 'native run of an explored path', m.group(1) if m else 'status %s' % rc
        else:
            m = re.match(r'kind (.*)\nmsg (.*)\n', body)
            kind, msg = m.group(1), m.group(2)
        if os.path.basename(f).startswith('violation_') and not reproduced(kind, rc, out):
            errors.append('%s: counterexample "%s: %s" is not reproduced by the native replay (%s): %s\n%s' % (n, kind, msg, rc, out[-600:], body))
            continue
        k = [x for x in known if x[1] == n and x[2] in msg]
        if k:
            findings.append(k[0])
            continue
        dst = os.path.join(BUILD, 'replay', '%s_%s_%s' % (prop, n, os.path.basename(f)))
        with open(dst, 'w') as g:
            g.write('property %s\nharness %s\ntier %s\n%s' % (prop, n, tier, body))
            g.write('replayed-by python3 %s/tools/check.py --replay %s\n' % (HERE, dst))
        violations.append((dst, kind, msg, out))
    want = set(re.findall(r'REACH\(\s*"([^"]*)"\s*\)', text))
    labels = {}
    for n in names:
        if results[n][1]:
            for l, c in results[n][1]['labels'].items():
                labels[l] = labels.get(l, 0) + c
    missing = sorted(l for l in want - set(labels) if (tier == 'thorough' or not l.startswith('T:')))
    if missing and not only and not violations:
        errors.append('points never reached: %s' % ', '.join(missing))
    vacuous = [n for n in names if results[n][1] and not results[n][1]['paths'] and not results[n][1]['violations']]
    if vacuous and not violations:
        errors.append('no path completed: %s' % ', '.join(vacuous))
    rs = [results[n][1] for n in names if results[n][1]]
    tot = lambda k: sum(r[k] for r in rs)
    info = open(w + '/info.txt').read().splitlines()
    funs = [l[6:] for l in info if l.startswith('aleph ')]
    nfun = int(next(l for l in info if l.startswith('functions ')).split()[1])
    ninst = int(next(l for l in info if l.startswith('instructions ')).split()[1])
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': tot('branches') + tot('paths'),
            'transitions': 2 * tot('forks') + tot('implied'),
            'traces_validated_against_impl': validated,
            'samples': samples[:12],
            'exhaustive': not errors,
            'rule': 'states: decision points that depend on symbolic data plus completed paths; transitions: feasible successors of decision points',
            'paths_completed': tot('paths'),
            'functions_of_repo_encoded': funs,
            'functions_instrumented': nfun, 'instructions_instrumented': ninst,
            'solver_queries': tot('queries'), 'queries_sat': tot('sat'), 'queries_unsat': tot('unsat'), 'queries_unknown': tot('unknown'),
            'solver_seconds': round(tot('solver_s'), 2),
            'assertions_decided_by_solver': tot('asserts_solver'), 'assertions_decided_by_simplification': tot('asserts_trivial'),
            'reached': labels,
            'harnesses': {n: {'bounds': bounds.get(n, ''), 'result': {k: results[n][1][k] for k in ('paths', 'branches', 'forks', 'queries', 'solver_s', 'asserts_solver', 'maxdepth', 'wall_s')} if results[n][1] else None} for n in names},
            'external_functions': [l[9:] for l in info if l.startswith('external ')],
        },
        'assumptions': ['bounds of each harness as listed', 'LLVM IR of clang 18 at -O1, memory model and libm of this machine', 'z3 answers are right'],
        'wall_s': round(time.time() - T0, 2),
        'violations': len(violations),
    }
    os.makedirs(HERE + '/evidence', exist_ok=True)
    with open(HERE + '/evidence/%s.json' % prop, 'w') as f:
        json.dump(ev, f, indent=1)
    for k in sorted(set(findings)):
        print('KNOWN-FINDING: property=%s %s' % (prop, k[3]))
    for dst, kind, msg, out in violations:
        print('VIOLATION property=%s replay=%s' % (prop, dst))
        print('  %s: %s' % (kind, msg))
    for e in errors:
        print('ERROR', e)
    print('%s %s: build %.1f s, total %.1f s, %d paths, %d queries, %.1f s solver, %d witnesses replayed' % (prop, tier, tbuild, time.time() - T0, tot('paths'), tot('queries'), tot('solver_s'), validated))
    if os.environ.get('SYM_VERBOSE'):
        for n in names:
            print('  ', n, json.dumps(results[n][1]))
    if violations:
        return 1
    return 2 if errors else 0


if __name__ == '__main__':
    try:
        sys.exit(main())
    except Failure as e:
        print('ERROR', e)
        sys.exit(2)

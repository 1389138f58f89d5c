#!/usr/bin/env python3
"""Builds the harness of one check from /repo's working tree and runs it.

  run.py C01                 one check (VERIF_SEED and VERIF_TIER are read from the environment)
  run.py --replay FILE       runs a recorded case again (exit 1 if it fails)
  run.py --build C01         only builds
  run.py --setup             builds every check
  run.py --all               every check, one after another
"""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SNN_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
CXX = 'g++'

# flavour: flags of the library, flags of the boost and bitmap code, flags of the harness, flags of the link
FLAVOURS = {
    # as shipped: the release flags of CMakeLists.txt
    'release': (['-O3', '-DNDEBUG', '-O3', '-ffast-math', '-fopenmp'], ['-O1', '-DNDEBUG', '-w'], ['-O1', '-DNDEBUG'], ['-fopenmp', '-pthread', '-ldl']),
    # memory errors, undefined behaviour, assertions of the library and of libstdc++
    'asan': (['-O1', '-g1', '-fopenmp', '-fsanitize=address,undefined', '-fno-sanitize=enum', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer', '-D_GLIBCXX_ASSERTIONS'],
             ['-O1', '-w', '-fsanitize=address', '-D_GLIBCXX_ASSERTIONS'],
             ['-O1', '-g1', '-fsanitize=address', '-fno-omit-frame-pointer', '-D_GLIBCXX_ASSERTIONS'],
             ['-fsanitize=address,undefined', '-fopenmp', '-pthread', '-ldl']),
    # with the log of the library (the hook of MANIFEST.json)
    'complete': (['-O1', '-DNDEBUG', '-fopenmp', '-DSNN_VERBOSE=complete'], ['-O1', '-DNDEBUG', '-w'], ['-O1', '-DNDEBUG', '-DSNN_VERBOSE=complete'], ['-fopenmp', '-pthread', '-ldl']),
    'minimal': (['-O1', '-DNDEBUG', '-fopenmp', '-DSNN_VERBOSE=minimal'], ['-O1', '-DNDEBUG', '-w'], ['-O1', '-DNDEBUG', '-DSNN_VERBOSE=minimal'], ['-fopenmp', '-pthread', '-ldl']),
}
SLOW = 'src/neural_network/StraightforwardNeuralNetwork.cpp'


def includes(repo):
    inc = [repo + '/include']
    for d, _, files in os.walk(repo + '/include/snn'):
        inc.append(d)
    ext = repo + '/src/external_library/'
    inc += [ext + 'boost_1_80_0_minimal', ext + 'bitmap', ext + 'cpp-static-block']
    return ['-I' + i for i in sorted(inc)]


def sources(repo):
    ext = repo + '/src/external_library/'
    lib = [f for f in glob.glob(repo + '/src/**/*.cpp', recursive=True) if '/external_library/' not in f]
    boost = [f for f in glob.glob(ext + 'boost_1_80_0_minimal/libs/serialization/src/*.cpp')
             if not re.search(r'xml|binary|poly|text_w|wtext|codecvt|utf8', os.path.basename(f))]
    other = boost + glob.glob(ext + 'bitmap/*.cpp') + glob.glob(ext + 'cpp-static-block/*.cpp')
    return sorted(lib), sorted(other)


def tree_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(f.read())
    return h.hexdigest()


def files_under(d, exts):
    r = []
    for base, _, files in os.walk(d):
        r += [os.path.join(base, f) for f in files if f.endswith(exts)]
    return r


def build(check, flavour, log=sys.stderr):
    """Returns the path of the binary of this check. Objects are kept in build/ by content."""
    lib_flags, other_flags, harness_flags, link_flags = FLAVOURS[flavour]
    os.makedirs(BUILD, exist_ok=True)
    inc = includes(REPO)
    lib, other = sources(REPO)
    headers = files_under(REPO + '/include', ('.hpp', '.tpp', '.h')) + files_under(REPO + '/src', ('.hpp', '.tpp', '.h', '.ipp')) \
        if not hasattr(build, 'headers') else None
    if headers is not None:
        own = [h for h in headers if '/external_library/' not in h or '/boost' not in h]
        build.headers = tree_hash(own)  # boost is part of the repository too, its sizes and names are enough
        build.headers += hashlib.sha256('\n'.join('%s %d' % (h, os.path.getsize(h)) for h in sorted(headers)).encode()).hexdigest()
    harness = [VERIF + '/src/engine.cpp', VERIF + '/src/model.cpp', VERIF + '/src/live.cpp'] + \
        ([VERIF + '/src/%s.cpp' % check] if check != 'C22' else sorted(glob.glob(VERIF + '/src/C*.cpp')))
    harness_headers = tree_hash(glob.glob(VERIF + '/src/*.hpp'))
    jobs = []

    def job(f, flags):
        with open(f, 'rb') as s:
            content = s.read()
        mine = f.startswith(VERIF + '/src')
        key = hashlib.sha256('\0'.join([f, build.headers, harness_headers if mine else '', CXX] + flags).encode() + content).hexdigest()[:32]
        o = os.path.join(BUILD, key + '.o')
        jobs.append((f, flags, o))
        return o

    objects = []
    for f in lib:
        flags = list(lib_flags)
        if flavour == 'asan' and f.endswith(SLOW):
            flags = [x for x in flags if not x.startswith('-O') and x != '-fsanitize=address,undefined'] + ['-O0', '-fsanitize=address']
        objects.append(job(f, flags))
    for f in other:
        objects.append(job(f, other_flags))
    for f in harness:
        objects.append(job(f, harness_flags))
    # the slow ones first
    jobs.sort(key=lambda j: (not j[0].endswith(SLOW), not j[0].startswith(VERIF), j[0]))

    def compile_one(j):
        f, flags, o = j
        if os.path.exists(o):
            return None
        tmp = '%s.%d.tmp' % (o, os.getpid())
        r = subprocess.run([CXX, '-std=c++20', '-pipe'] + flags + inc + ['-I' + VERIF + '/src', '-c', f, '-o', tmp], capture_output=True, text=True)
        if r.returncode != 0:
            return f + '\n' + r.stderr[-6000:]
        os.rename(tmp, o)
        return None

    with cf.ThreadPoolExecutor(os.cpu_count() or 4) as pool:
        errors = [e for e in pool.map(compile_one, jobs) if e]
    if errors:
        print('\n'.join(errors), file=log)
        raise SystemExit(2)
    key = hashlib.sha256('\0'.join(objects + link_flags).encode()).hexdigest()[:24]
    binary = os.path.join(BUILD, '%s-%s-%s' % (check, flavour, key))
    if not os.path.exists(binary):
        tmp = '%s.%d.tmp' % (binary, os.getpid())
        # the objects of the repository first: their inline functions are the ones that are linked
        r = subprocess.run([CXX] + objects + link_flags + ['-o', tmp], capture_output=True, text=True)
        if r.returncode != 0:
            print(r.stderr[-6000:], file=log)
            raise SystemExit(2)
        os.rename(tmp, binary)
    return binary


def environment(seed):
    env = dict(os.environ)
    env.update(PBT_RNG_SEED=str(seed), OMP_NUM_THREADS='1', LC_ALL='C',
               ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=0:detect_stack_use_after_return=0:handle_abort=0',
               UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1:exitcode=98')
    return env


def known_findings():
    """known_findings.txt: 'KNOWN property=<id> <finding> : <what fails>' and 'fixed: property=<id> <commit> <what failed>'"""
    r = {}
    with open(VERIF + '/known_findings.txt') as f:
        for line in f:
            m = re.match(r'KNOWN property=(C\d+) (\S+) : (.*)', line)
            if m:
                r.setdefault(m.group(1), {})[m.group(2)] = m.group(3).strip()
    return r


def checks_config():
    with open(VERIF + '/checks.json') as f:
        return json.load(f)


def run_check(check):
    start = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    tier = os.environ.get('VERIF_TIER', 'quick') or 'quick'
    config = checks_config()[check]
    known = known_findings().get(check, {})
    seen = {}
    violations = []
    notes = []
    coverage = {'evaluations': 0, 'distinct_nontrivial': 0, 'rule': '', 'samples': [], 'elementary_comparisons': 0, 'discarded': 0, 'parts': {}}
    rules = []
    for flavour in config['flavours']:
        if violations and tier == 'quick' and time.time() - start > 200:
            notes.append('%s not run: a violation was found and the time is short' % flavour)
            break
        binary = build(check, flavour)
        built = time.time() - start
        args = [binary, '--seed', str(seed)] + (['--check', check] if check != 'C22' else ['--crashes-only'])
        args += config.get('args', [])
        if tier == 'thorough':
            args += ['--thorough', '--scale', str(config.get('thorough_scale', 1)), '--budget', str(config.get('thorough_budget', 1500))]
        else:
            args += ['--scale', str(config.get('quick_scale', 1) * float(os.environ.get('VERIF_SCALE', '1')))]
        for k in known:
            args += ['--listed', k]
        p = subprocess.run(args, env=environment(seed), capture_output=True, text=True)
        if p.returncode not in (0, 1):
            print(p.stdout[-3000:], p.stderr[-3000:], file=sys.stderr)
            raise SystemExit(2)
        for line in p.stdout.splitlines():
            f = line.split(' ', 2)
            if f[0] == 'STAT':
                n = f[2].split()
                part = coverage['parts'].setdefault('%s/%s' % (f[1], flavour), {})
                part.update(evaluations=int(n[0]), nontrivial=int(n[1]), discarded=int(n[2]), comparisons=int(n[3]), wall_s=round(float(n[4]), 2))
                coverage['evaluations'] += int(n[0])
                coverage['discarded'] += int(n[2])
                coverage['elementary_comparisons'] += int(n[3])
            elif f[0] == 'DISTINCT':
                coverage['distinct_nontrivial'] += int(f[2])
                coverage['parts']['%s/%s' % (f[1], flavour)]['distinct_nontrivial'] = int(f[2])
            elif f[0] == 'RULE':
                r = '%s: %s' % (f[1], f[2])
                if r not in rules:
                    rules.append(r)
            elif f[0] == 'LABEL':
                n, label = f[2].split(' ', 1)
                coverage['parts']['%s/%s' % (f[1], flavour)].setdefault('labels', {})[label] = int(n)
            elif f[0] == 'KNOWN':
                n, k = f[2].split(' ', 1)
                seen[k] = seen.get(k, 0) + int(n)
            elif f[0] == 'SAMPLE':
                if len(coverage['samples']) < 24:
                    coverage['samples'].append({'property': f[1], 'flavour': flavour, 'case': json.loads(f[2])})
            elif f[0] == 'FAIL':
                d = json.loads(f[2])
                d.update(check=check, prop=f[1], flavour=flavour, rng_seed=seed)
                violations.append(d)
            elif f[0] == 'FLAKY':
                d = json.loads(f[2])
                notes.append('not reproduced (%d), not counted as a violation: %s case %d: %s; %s' % (d['reproduced'], f[1], d['case'], d['first'], d['text'][:1500]))
    coverage['rule'] = 'a case is made from a recorded sequence of bounded random choices; non-trivial: ' + ' | '.join(rules)
    if notes:
        coverage['notes'] = notes
    coverage['known_findings_met'] = seen
    evidence = {'property': check, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': coverage,
                'assumptions': config.get('assumptions', []), 'wall_s': round(time.time() - start, 2), 'violations': len(violations)}
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    with open(VERIF + '/evidence/%s.json' % check, 'w') as f:
        json.dump(evidence, f, indent=1)
    print('%s %s seed %d: %d cases, %d distinct non-trivial, %d comparisons, %.1f s (build %.1f s)' %
          (check, tier, seed, coverage['evaluations'], coverage['distinct_nontrivial'], coverage['elementary_comparisons'], time.time() - start, built))
    for n in notes:
        print('NOTE ' + n[:1500])
    for k, n in sorted(seen.items()):
        if k in known:
            print('KNOWN-FINDING: property=%s %s (%d cases): %s' % (check, k, n, known[k]))
    os.makedirs(VERIF + '/replays', exist_ok=True)
    for v in violations:
        path = '%s/replays/%s-%s-%s-%d.json' % (VERIF, check, v['prop'], v['flavour'], seed)
        with open(path, 'w') as f:
            json.dump(v, f)
        print('%s %s\n%s\n%s' % (check, v['prop'], v['text'], v['message']))
        print('VIOLATION property=%s replay=%s' % (check, path))
    return 1 if violations else 0


def replay(path):
    with open(path) as f:
        v = json.load(f)
    binary = build(v['check'], v['flavour'])
    name = '/tmp/snn-replay-%d' % os.getpid()
    with open(name, 'w') as f:
        f.write('%d %s\n' % (v['size'], ' '.join(map(str, v['choices']))))
    args = [binary, '--prop', v['prop'], '--replay', name]
    if v['check'] == 'C22':
        args += ['--crashes-only']
    r = subprocess.run(args, env=environment(v['rng_seed'])).returncode
    os.unlink(name)
    return r


def main():
    if len(sys.argv) == 3 and sys.argv[1] == '--replay':
        return replay(sys.argv[2])
    if len(sys.argv) == 3 and sys.argv[1] == '--build':
        for flavour in checks_config()[sys.argv[2]]['flavours']:
            print(build(sys.argv[2], flavour))
        return 0
    if len(sys.argv) == 2 and sys.argv[1] == '--setup':
        for check, config in sorted(checks_config().items()):
            if os.path.exists(VERIF + '/src/%s.cpp' % check) or check == 'C22':
                for flavour in config['flavours']:
                    build(check, flavour)
        return 0
    if len(sys.argv) == 2 and sys.argv[1] == '--all':
        return max([subprocess.run([sys.executable, __file__, c]).returncode for c in sorted(checks_config())])
    if len(sys.argv) == 2:
        return run_check(sys.argv[1])
    print(__doc__)
    return 2


if __name__ == '__main__':
    sys.exit(main())

#!/usr/bin/env python3
"""Runs the deterministic simulation that decides one property.

usage: check.py ID [--replay FILE]

Builds the simulator from /repo's working tree (out of tree, in /verif/.work),
runs the seeded search on all cores and writes evidence/ID.json. Exit status:
0 the property held on everything explored, 1 violated (VIOLATION line),
2 no answer (build failure, irreproducible run).
"""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shutil
import signal
import struct
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VSIM_REPO', '/repo')
SIM = os.path.join(VERIF, 'sim')
WORK = os.path.join(VERIF, '.work')
CORES = os.cpu_count() or 4

# property: (binary, runs quick, seconds quick, level)
PROPS = {
    'C01': ('rt', 24000, 50, 'exploration'),
    'C02': ('rt', 24000, 50, 'fault_enumeration'),
    'C03': ('rt', 24000, 50, 'fault_enumeration'),
    'C04': ('rt', 24000, 50, 'fault_enumeration'),
    'C05': ('rt', 24000, 50, 'exploration'),
    'C06': ('rt', 24000, 50, 'exploration'),
    'C07': ('rt', 24000, 50, 'exploration'),
    'C08': ('rt', 24000, 50, 'exploration'),
    'C09': ('rt', 24000, 50, 'exploration'),
    'C10': ('rt', 24000, 50, 'exploration'),
    'C11': ('rt', 24000, 50, 'exploration'),
    'C24': ('rt', 24000, 50, 'fault_enumeration'),
    'C12': ('cc', 8000, 50, 'fault_enumeration'),
    'C13': ('cc', 5000, 50, 'fault_enumeration'),
    'C14': ('cc', 24000, 40, 'exploration'),
    'C15': ('cc', 8000, 50, 'exploration'),
    'C16': ('cc', 10000, 50, 'fault_enumeration'),
    'C17': ('cc', 6500, 50, 'exploration'),
    'C23': ('cc', 6000, 50, 'exploration'),
    'C22': ('tp', 4500, 45, 'fault_enumeration'),
}
RT_SRC = ['rt', 'rt_exchange', 'rt_state', 'rt_env', 'rt_peers', 'rt_journal', 'value']
CC_SRC = ['cc_model', 'cc_world', 'cc_scen']
TP_SRC = ['cc_world', 'tp_scen']
SAN = ['-fsanitize=address,undefined', '-fno-sanitize=vptr,function', '-fno-sanitize-recover=undefined']
COV = ['-fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores', '-ftrivial-auto-var-init=pattern', '-fno-omit-frame-pointer']
HARN = ['clang++', '-std=c++17', '-O1', '-g0', '-fsanitize=address', '-Wall', '-I' + SIM]
WRAP = ['-static-libstdc++', '-Wl,' + ','.join('--wrap=' + f for f in
        'newlocale uselocale memcpy memmove memset memchr memcmp strlen __asan_memcpy __asan_memmove __asan_memset'.split())]
LOCALES = [('de_DE', 'UTF-8'), ('fr_FR', 'UTF-8'), ('tr_TR', 'UTF-8'), ('ps_AF', 'UTF-8'), ('de_DE', 'ISO-8859-1')]
REAL = {
    'rt': 'generated headers (json.hh, json-array/base64/number/string.hh, protogen.hh, model classes) compiled from the tree under test; libstdc++ streams and locales; glibc number conversion, newlocale/uselocale',
    'cc': 'source/main.cc, proto3.cc, cppgen.cc, printer.cc, exception.cc and the embedded templates; libstdc++ file streams; glibc realpath; file contents on a real scratch directory',
    'tp': 'source/template.cc; libstdc++ file streams; file contents on a real scratch directory',
}
STUB = {
    'rt': 'thread scheduler, clock, transport between peers, stream buffers/iterators/custom streams at the ends, operator new, newlocale/uselocale failure',
    'cc': 'thread scheduler, libc file calls (open/read/write/writev/close/fopen/fclose/realpath: forwarded or failed), standard output device, operator new, process environment',
    'tp': 'libc file calls (open/read/write/writev/close/fopen/fclose: forwarded or failed), standard output device, operator new, process environment',
}


def die(msg):
    print('ERROR: ' + msg)
    sys.stdout.flush()
    sys.exit(2)


class BuildError(Exception):
    pass


class BrokenModels(BuildError):
    def __init__(self, b, broken):
        BuildError.__init__(self, 'models without a usable header: %s' % broken)
        self.texts = {n: open(os.path.join(b, n + '.proto'), encoding='utf-8').read() for n in broken}
        self.broken = broken


def report_broken(texts, broken):
    """C01 covers every model option: a valid model without a usable header cannot exchange anything"""
    os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
    n = sorted(broken)[0]
    dst = os.path.join(VERIF, 'replays', 'C01-model-%s.replay' % n)
    with open(dst, 'w', encoding='utf-8') as f:
        f.write('broken_model %s\n%s' % (n, texts[n]))
    print('unusable-model: %s: %s' % (n, broken[n]))
    print('VIOLATION property=C01 replay=%s' % dst)


def replay_broken(path):
    text = open(path, encoding='utf-8').read().split('\n', 1)[1]
    d = os.path.join(WORK, 'model%d' % os.getpid())
    os.makedirs(d, exist_ok=True)
    try:
        pb = build_proto(d)
        m, h = os.path.join(d, 'm.proto'), os.path.join(d, 'm.pg.hh')
        open(m, 'w', encoding='utf-8').write(text)
        p = subprocess.run([os.path.join(pb, 'protogen'), m, h], env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode == 0:
            p = subprocess.run(['clang++', '-std=c++11', '-w', '-fsyntax-only', '-x', 'c++', h], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        print(p.stdout.decode('utf-8', 'replace')[:3000])
        print('VIOLATION property=C01 replay=%s' % path if p.returncode else 'no violation')
        return 1 if p.returncode else 0
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if p.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd)[:400], p.stdout.decode('utf-8', 'replace')[-4000:]))
    return p.stdout


def tree_files():
    out = []
    for base in ('source', 'include', 'CMakeLists.txt', 'cmake', 'tests'):
        p = os.path.join(REPO, base)
        if os.path.isfile(p):
            out.append(p)
        for d, ds, fs in os.walk(p):
            ds.sort()
            out += [os.path.join(d, f) for f in sorted(fs)]
    return out


def digest(files, extra=''):
    h = hashlib.sha256(extra.encode())
    for f in files:
        h.update(f.encode() + b'\0')
        with open(f, 'rb') as fh:
            h.update(fh.read())
    return h.hexdigest()[:16]


def write_if_changed(path, text):
    if not os.path.exists(path) or open(path, encoding='utf-8').read() != text:
        with open(path, 'w', encoding='utf-8') as f:
            f.write(text)


def build_proto(b, target='protogen'):
    """protogen itself, by its own CMakeLists, with a compiler wrapper that adds the instrumentation"""
    w = os.path.join(b, 'cxx')
    with open(w, 'w') as f:
        f.write('''#!/bin/bash
a=()
for x in "$@"; do case "$x" in -O2|-O3|-O1|-Os|-Wfatal-errors|-Wl,--no-undefined) ;; *) a+=("$x");; esac; done
exec clang++ "${a[@]}" -w -O1 -g0 %s %s
''' % (' '.join(SAN), ' '.join(COV)))
    os.chmod(w, 0o755)
    pb = os.path.join(b, 'proto')
    env = dict(os.environ, CXX=w, CC='clang', ASAN_OPTIONS='detect_leaks=0')
    env.pop('CXXFLAGS', None)
    run(['cmake', '-S', REPO, '-B', pb, '-G', 'Unix Makefiles', '-DCMAKE_BUILD_TYPE=Release', '-DCMAKE_CXX_COMPILER=' + w, '-Wno-dev'], env=env)
    run(['make', '-C', pb, '--no-print-directory', '-j%d' % CORES, target], env=env)
    return pb


def compile_harness(b, names, pool):
    fs = []
    for n in names:
        fs.append(pool.submit(run, HARN + ['-c', os.path.join(SIM, n + '.cc'), '-o', os.path.join(b, n + '.o')]))
    return fs


def build_locales(b):
    d = os.path.join(b, 'loc')
    os.makedirs(d, exist_ok=True)

    def one(l):
        subprocess.run(['localedef', '-i', l[0], '-f', l[1], '--no-archive', os.path.join(d, l[0] + '.' + l[1])],
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    return [lambda l=l: one(l) for l in LOCALES]


def build(kind, schema_seed):
    """returns the directory with the simulator binary"""
    os.makedirs(WORK, exist_ok=True)
    sims = sorted(glob.glob(os.path.join(SIM, '*'))) + [os.path.abspath(__file__)]
    key = digest([f for f in tree_files() + sims if os.path.isfile(f)], '%s %s' % (kind, schema_seed if kind == 'rt' else ''))
    b = os.path.join(WORK, '%s-%s' % (kind, key))
    if os.path.exists(os.path.join(b, 'ok')):
        os.utime(os.path.join(b, 'ok'))
        return b
    old = sorted(glob.glob(os.path.join(WORK, kind + '-*')), key=os.path.getmtime)
    for d in old[:-2] if len(old) > 2 else []:
        shutil.rmtree(d, ignore_errors=True)
    shutil.rmtree(b, ignore_errors=True)
    os.makedirs(b)
    with cf.ThreadPoolExecutor(CORES + 2) as pool:
        fp = pool.submit(build_proto, b, 'template' if kind == 'tp' else 'protogen')
        fs = compile_harness(b, ['core'] + RT_SRC, pool) if kind == 'rt' else []
        fs += [pool.submit(f) for f in build_locales(b)]
        pb = fp.result()
        if kind == 'rt':
            exe = os.path.join(pb, 'protogen')
            names = run([sys.executable, os.path.join(SIM, 'schema.py'), b, str(schema_seed)]).decode().split()
            env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0')

            broken = {}  # models whose header cannot be generated or does not compile on its own

            def gen(n):
                out = os.path.join(b, n + '.pg.hh')
                p = subprocess.run([exe, os.path.join(b, n + '.proto'), out], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                if p.returncode or not os.path.exists(out):
                    broken[n] = 'the compiler rejects the model: ' + p.stdout.decode('utf-8', 'replace')[-1500:]
                    return ''
                return open(out, encoding='utf-8', errors='replace').read()
            texts = list(pool.map(gen, names))
            names = [n for n in names if n not in broken]
            if not names:
                raise BuildError('protogen rejects every model: %s' % broken)
            texts = [x for x in texts if x]
            m = re.search(r'\bnamespace\s+(protogen_\w+)', texts[0])
            if not m:
                raise BuildError('generated header has no protogen namespace')
            write_if_changed(os.path.join(b, 'pgns.hpp'), 'namespace PG = ::%s;\n' % m.group(1))
            glue = ['clang++', '-std=c++17', '-O0', '-g0', '-w'] + SAN + COV + ['-I' + b, '-I' + SIM]
            # the largest models first
            names.sort(key=lambda n: -os.path.getsize(os.path.join(b, n + '.pg.hh')))

            def compile_glue(n):
                try:
                    run(glue + ['-c', os.path.join(b, 'glue_%s.cc' % n), '-o', os.path.join(b, 'glue_%s.o' % n)])
                except BuildError:
                    p = subprocess.run(['clang++', '-std=c++11', '-w', '-fsyntax-only', '-x', 'c++', os.path.join(b, n + '.pg.hh')], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                    if p.returncode == 0:
                        raise  # not the header's fault
                    broken[n] = 'the generated header does not compile: ' + p.stdout.decode('utf-8', 'replace')[:1500]
            fs += [pool.submit(compile_glue, n) for n in names]
            for f in fs:
                f.result()
            names = [n for n in names if n not in broken]
            if any(n not in names for n in ('core', 'ev1', 'ev2', 'ev3', 'ev4')) and len(broken) > 0:
                raise BrokenModels(b, broken)
            with open(os.path.join(b, 'broken.json'), 'w') as f:
                json.dump(broken, f)
            objs = [os.path.join(b, 'glue_%s.o' % n) for n in names] + [os.path.join(b, n + '.o') for n in RT_SRC + ['core']]
            run(['clang++', '-fsanitize=address,undefined'] + objs + WRAP + ['-o', os.path.join(b, 'sim'), '-lpthread', '-ldl'])
        else:
            inc = os.path.join(pb, '__include')
            src = ['core'] + (CC_SRC if kind == 'cc' else TP_SRC)
            fs += [pool.submit(run, HARN + ['-Wno-mismatched-tags', '-I' + os.path.join(REPO, 'include'), '-I' + inc, '-c', os.path.join(SIM, n + '.cc'), '-o', os.path.join(b, n + '.o')]) for n in src]
            target = 'protogen' if kind == 'cc' else 'template'
            main_objs = [os.path.join(d, f) for d, _, x in os.walk(os.path.join(pb, 'CMakeFiles/%s.dir' % target)) for f in x if f.endswith('.o')]
            objs = []
            for i, o in enumerate(sorted(main_objs)):
                t = os.path.join(b, 'cli_%d.o' % i)
                run(['objcopy', '--redefine-sym', 'main=protogen_main', o, t])
                objs.append(t)
            libs = glob.glob(os.path.join(pb, 'lib*.a'))
            for f in fs:
                f.result()
            run(['clang++', '-fsanitize=address,undefined'] + objs + [os.path.join(b, n + '.o') for n in src] + libs +
                WRAP + ['-o', os.path.join(b, 'sim'), '-lpthread', '-ldl'])
    for f in glob.glob(os.path.join(b, '*.o')):
        os.unlink(f)
    shutil.rmtree(os.path.join(b, 'proto'), ignore_errors=True)
    open(os.path.join(b, 'ok'), 'w').close()
    return b


def sim_env(b):
    env = {k: v for k, v in os.environ.items() if k in ('PATH', 'HOME', 'TMPDIR')}
    env['VSIM_LOCPATH'] = os.path.join(b, 'loc')
    env['LC_ALL'] = 'C'
    return env


def load_known():
    """known-findings.txt: 'fixed: ...' lines are records only; 'finding: property=ID kind=K match=REGEX :: text' suppress one violation each"""
    out = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p, encoding='utf-8'):
            m = re.match(r'finding: property=(\S+) kind=(\S+) match=(.*?) :: (.*)', line.strip())
            if m:
                out.append(m.groups())
    return out


def search(prop, b, seed, schema, count, seconds, tmp):
    """one round on all cores; returns merged results"""
    procs = []
    for i in range(CORES):
        out = os.path.join(tmp, 'w%d' % i)
        for f in glob.glob(out + '*'):
            if os.path.isdir(f):
                shutil.rmtree(f)
            else:
                os.unlink(f)
        wd = os.path.join(tmp, 'd' + chr(97 + i // 26) + chr(97 + i % 26))
        os.makedirs(wd, exist_ok=True)
        procs.append(subprocess.Popen([os.path.join(b, 'sim'), '--prop', prop, '--seed', str(seed), '--from', str(i), '--step', str(CORES),
                                       '--count', str(count), '--time', str(seconds), '--out', out, '--schema', str(schema), '--work', wd],
                                      env=sim_env(b), stdout=subprocess.DEVNULL, stderr=open(out + '.err', 'wb'), start_new_session=True))
    deadline = time.time() + seconds + 240
    res = []
    for i, p in enumerate(procs):
        try:
            rc = p.wait(max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            rc = -9
        out = os.path.join(tmp, 'w%d' % i)
        if rc != 0 or not os.path.exists(out):
            for q in procs:
                if q.poll() is None:
                    os.killpg(q.pid, signal.SIGKILL)
            die('worker %d ended with %s: %s' % (i, rc, open(out + '.err', errors='replace').read()[-1500:]))
        r = json.load(open(out))
        for ext in ('hash', 'sched'):
            raw = open(out + '.' + ext, 'rb').read()
            r[ext] = set(struct.unpack('<%dQ' % (len(raw) // 8), raw))
        r['cov'] = open(out + '.cov', 'rb').read()
        res.append(r)
    return res


def replay(b, prop, path, tmp):
    p = subprocess.run([os.path.join(b, 'sim'), '--prop', prop, '--replay', path, '--work', tmp], env=sim_env(b), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    return p.returncode, p.stdout.decode('utf-8', 'replace')


def schema_of(path):
    m = re.search(r'^schema_seed (\d+)$', open(path, encoding='utf-8', errors='replace').read(), re.M)
    return int(m.group(1)) if m else 1


def main():
    if len(sys.argv) < 2 or sys.argv[1] not in PROPS and sys.argv[1] != '--build':
        die('usage: check.py ID [--replay FILE]')
    seed = int(os.environ.get('VERIF_SEED') or 1)
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if sys.argv[1] == '--build':  # setup: prove that everything builds
        for kind in sorted({p[0] for p in PROPS.values()}):
            try:
                build(kind, seed)
            except BuildError as e:
                die('build: %s' % e)
        return 0
    prop = sys.argv[1]
    kind, count, seconds, level = PROPS[prop]
    t0 = time.time()
    # letters only: the compiler maps the characters of paths, and all runs must look alike
    tmp = os.path.join(WORK, 'run' + ''.join(chr(97 + int(c)) for c in '%02d%08d' % (int(prop[1:]), os.getpid())))
    os.makedirs(tmp, exist_ok=True)
    try:
        if '--replay' in sys.argv:
            path = sys.argv[sys.argv.index('--replay') + 1]
            if open(path, encoding='utf-8', errors='replace').read(13) == 'broken_model ':
                return replay_broken(path)
            b = build(kind, schema_of(path))
            wd = os.path.join(tmp, 'daa')
            os.makedirs(wd, exist_ok=True)
            rc, text = replay(b, prop, path, wd)
            print(text)
            print({0: 'no violation', 1: 'VIOLATION property=%s replay=%s' % (prop, path)}.get(rc, 'the run differs from the recorded one (status %d)' % rc))
            return rc if rc in (0, 1) else 2
        rounds = [(seed, seed, count, seconds)]
        if tier == 'thorough':
            total = float(os.environ.get('VSIM_TIME') or 1500)
            n = 5 if kind == 'rt' else 1
            rounds = [(seed * 1000 + i if i else seed, seed * 1000 + i if i else seed, 10**9, total / n) for i in range(n)]
        agg = {'runs': 0, 'discards': 0, 'rechecks': 0, 'mismatches': 0, 'unreproducible': 0, 'simtime': 0, 'steps': 0, 'procs': 0}
        counters, hashes, scheds, samples, edges, search_s, violations, builds = {}, set(), set(), [], (0, 0), 0.0, [], []
        known = load_known()
        knownhits = []
        for sd, sch, cnt, sec in rounds:
            tb = time.time()
            b = build(kind, sch)
            builds.append(round(time.time() - tb, 1))
            if prop == 'C01' and os.path.exists(os.path.join(b, 'broken.json')):
                broken = json.load(open(os.path.join(b, 'broken.json')))
                if broken:
                    report_broken({n: open(os.path.join(b, n + '.proto'), encoding='utf-8').read() for n in broken}, broken)
                    return 1
            ts = time.time()
            res = search(prop, b, sd, sch, cnt, sec, tmp)
            search_s += time.time() - ts
            cov = None
            for r in res:
                for k in agg:
                    agg[k] += r[k]
                for k, v in r['counters'].items():
                    counters[k] = counters.get(k, 0) + v
                hashes |= r['hash']
                scheds |= r['sched']
                if len(samples) < 4:
                    samples += r['samples'][:1]
                c = int.from_bytes(r['cov'], 'big')
                cov = c if cov is None else cov | c
                edges = (edges[0], r['edges_total'])
                if r['violation']:
                    violations.append(r['violation'])
            edges = (max(edges[0], bin(cov or 0).count('1')), edges[1])
            violations = [v for v in violations if not any(k[0] == prop and k[1] == v['kind'] and re.search(k[2], v['message']) and (knownhits.append(k[3]) or True) for k in known)]
            if violations:
                break
        final = []
        if violations:
            os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
            violations.sort(key=lambda v: (v['tape_after'], v['run']))
            wd = os.path.join(tmp, 'daa')
            for v in violations:
                rc, _ = replay(b, prop, v['replay'], wd)
                if rc == 1:  # the fresh process reproduced exactly this violation
                    dst = os.path.join(VERIF, 'replays', '%s-%s.replay' % (prop, digest([v['replay']])))
                    shutil.copy(v['replay'], dst)
                    final.append((v, dst))
                else:
                    agg['unreproducible'] += 1
        faults = {k[6:]: v for k, v in sorted(counters.items()) if k.startswith('fault.')}
        probes = {k: v for k, v in sorted(counters.items()) if not k.startswith('fault.')}
        ev = {
            'property': prop, 'tier': tier, 'seed': seed, 'level': level,
            'coverage': {
                'evaluations': agg['runs'],
                'distinct_nontrivial': len(hashes),
                'rule': 'one evaluation is one simulated run: a forked pristine process driven by one PRNG tape (seed, run index); two runs are distinct when the hash of '
                        'their full event log (choices, schedule, faults, bytes, results) differs; a run is non-trivial when the code under test executed at least 50 basic blocks in it',
                'samples': samples or [{'none': True}],
                'runs_per_hour': round(agg['runs'] / max(search_s, 0.001) * 3600),
                'seeds': 'run index 0..%d of seed %s' % (agg['runs'] - 1, ', '.join(str(r[0]) for r in rounds)),
                'simulated_time_ticks': agg['simtime'],
                'code_under_test_basic_blocks_executed': agg['steps'],
                'simulated_child_processes': agg['procs'],
                'distinct_schedules': len(scheds),
                'basic_block_edges_reached': edges[0], 'basic_block_edges_total': edges[1],
                'faults_injected': faults,
                'probes': probes,
                'discarded_runs': agg['discards'],
                'determinism_rechecks': agg['rechecks'], 'determinism_mismatches': agg['mismatches'],
                'unreproducible_violations': agg['unreproducible'],
                'real_components': REAL[kind], 'stub_components': STUB[kind],
                'search_seconds': round(search_s, 1), 'build_seconds': builds, 'workers': CORES,
            },
            'assumptions': ['preemption points are basic-block edges, memory accesses, allocations and locale calls of instrumented code; library code between them is atomic',
                            'search is sampled: a clean result says nothing was found in the runs counted above'],
            'wall_s': round(time.time() - t0, 1),
            'violations': len(final),
        }
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, ensure_ascii=True)
        print('%s: %d runs, %d distinct, %d schedules, %d/%d edges, %.0f s search, %.0f s total; faults %s' %
              (prop, agg['runs'], len(hashes), len(scheds), edges[0], edges[1], search_s, time.time() - t0, faults))
        for t in sorted(set(knownhits)):
            print('KNOWN-FINDING: property=%s %s' % (prop, t))
        for v, dst in final[:1]:
            print('%s: %s' % (v['kind'], v['message'][:1500]))
            print('run %d, tape %d -> %d entries after minimisation' % (v['run'], v['tape_before'], v['tape_after']))
            print('VIOLATION property=%s replay=%s' % (prop, dst))
        if final:
            return 1
        if agg['mismatches'] or agg['unreproducible']:
            die('%d runs were not repeatable' % (agg['mismatches'] + agg['unreproducible']))
        if agg['runs'] == 0 or agg['discards'] * 2 > agg['runs']:
            die('nothing was explored')
        return 0
    except BuildError as e:
        if prop == 'C01' and isinstance(e, BrokenModels):
            report_broken(e.texts, e.broken)
            return 1
        die('build: %s' % e)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())

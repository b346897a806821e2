#!/usr/bin/env python3
"""Runs the monitor of one property against /repo's current working tree.

usage: run.py PROPERTY [--cases N] [--replay FILE] [--keep]

Environment: VERIF_SEED (default 1), VERIF_TIER (quick or thorough).

Exit status: 0 the property held on everything observed, 1 it was violated
(with a VIOLATION line), 2 the check could not give an answer.
"""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402

BUILD = os.path.join(VERIF, 'build')
REPLAY = os.path.join(VERIF, 'replay')
EVIDENCE = os.path.join(VERIF, 'evidence')
KNOWN = os.path.join(VERIF, 'known_findings.txt')
JOBS = 8
BASE_FLAGS = ['-std=gnu++17', '-w', '-O1', '-g1', '-fno-omit-frame-pointer']
SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all',
       '-D_GLIBCXX_ASSERTIONS']


def log(*a):
    print(*a, file=sys.stderr, flush=True)


class CheckError(Exception):
    """The check could not give an answer."""


# ---------------------------------------------------------------------------
# Build

def digest(paths, extra):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, 'rb') as f:
            h.update(hashlib.sha256(f.read()).digest())
    h.update(repr(extra).encode())
    return h.hexdigest()[:24]


def run_cmd(cmd, timeout):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       timeout=timeout)
    return p.returncode, p.stdout.decode('utf-8', 'replace')


def repo_sources():
    inc = []
    for root in ('include', 'vtk_interface', 'src', 'extern'):
        for d, _, fs in os.walk(os.path.join(REPO, root)):
            inc += [os.path.join(d, f) for f in fs]
    return inc


def build(check, variant=None):
    """The executable of the harness, for one of the check's variants."""
    cxx = 'g++'
    flags = BASE_FLAGS + (SAN if check.get('sanitize', True) else [])
    flags = flags + check.get('flags', [])
    if variant:
        cxx, more = check['variants'][variant]
        flags = [f for f in flags if not f.startswith('-O')] + more
    inc = ['-I' + os.path.join(REPO, 'include')]
    libs = ['-lgmpxx', '-lgmp'] + check.get('libs', [])
    libsrc = sorted(glob.glob(os.path.join(REPO, 'src', 'walnut', '*.cpp')))
    if check.get('vtk'):
        inc += ['-I' + os.path.join(REPO, 'vtk_interface', 'include'),
                '-isystem', '/usr/include/vtk-9.1']
        libsrc += sorted(glob.glob(os.path.join(REPO, 'vtk_interface', 'src',
                                                '*.cpp')))
        libs += ['-lvtk%s-9.1' % m for m in (
            'FiltersGeneral', 'CommonExecutionModel', 'CommonDataModel',
            'CommonCore')] + ['-lvtksys-9.1']
    tus = [os.path.join(VERIF, 'harness', h) for h in check['harness']]
    if not libsrc:
        raise CheckError('no library sources found in ' + REPO)
    headers = glob.glob(os.path.join(VERIF, 'harness', '*.h'))
    key = digest(repo_sources() + headers + tus, [cxx, flags, inc, libs])
    out_dir = os.path.join(BUILD, '-'.join(
        os.path.splitext(h)[0] for h in check['harness']) + '-' + key)
    exe = os.path.join(out_dir, 'harness')
    if os.path.exists(exe):
        return exe
    os.makedirs(BUILD, exist_ok=True)
    # Keep the cache small.
    old = sorted((d for d in glob.glob(os.path.join(BUILD, 'h_*'))
                  if os.path.isdir(d)), key=os.path.getmtime)
    old = [d for d in old if time.time() - os.path.getmtime(d) > 1800]
    for d in old[:-40]:
        shutil.rmtree(d, ignore_errors=True)
    tmp = tempfile.mkdtemp(prefix='tmp-', dir=BUILD)
    try:
        objs = []
        jobs = []
        for i, src in enumerate(tus + libsrc):
            obj = os.path.join(tmp, '%02d-%s.o' % (i, os.path.basename(src)))
            objs.append(obj)
            jobs.append([cxx] + flags + inc + ['-c', src, '-o', obj])
        with cf.ThreadPoolExecutor(JOBS) as ex:
            for cmd, (rc, out) in zip(jobs, ex.map(
                    lambda c: run_cmd(c, 800), jobs)):
                if rc != 0:
                    raise CheckError('compiling %s failed:\n%s' %
                                     (cmd[-3], out[:6000]))
        exe_tmp = os.path.join(tmp, 'harness')
        rc, out = run_cmd([cxx] + flags + objs + ['-o', exe_tmp] + libs, 600)
        if rc != 0:
            raise CheckError('linking failed:\n' + out[:6000])
        for o in objs:
            os.unlink(o)
        try:
            os.rename(tmp, out_dir)
        except OSError:
            if not os.path.exists(exe):
                raise
        return exe
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def build_prep():
    """The program which makes the inputs of jobs."""
    src = os.path.join(VERIF, 'harness', 'envprep.cpp')
    deps = repo_sources() + glob.glob(os.path.join(VERIF, 'harness', '*.h'))
    exe = os.path.join(BUILD, 'p_envprep-' + digest(deps + [src], []))
    if os.path.exists(exe):
        return exe
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='tmp-', dir=BUILD)
    try:
        out_exe = os.path.join(tmp, 'prep')
        rc, out = run_cmd(
            ['g++', '-std=gnu++17', '-w', '-O1',
             '-I' + os.path.join(REPO, 'include'), src, '-o', out_exe,
             '-lgmpxx', '-lgmp'], 600)
        if rc != 0:
            raise CheckError('compiling envprep.cpp failed:\n' + out[:6000])
        os.rename(out_exe, exe)
        return exe
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


# ---------------------------------------------------------------------------
# Run

ENV = dict(os.environ)
ENV.update({
    'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=78:'
                    'hard_rss_limit_mb=3300:allocator_may_return_null=0:'
                    'detect_stack_use_after_return=1:strict_init_order=1',
    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:exitcode=79',
    'TSAN_OPTIONS': 'halt_on_error=1:exitcode=66:second_deadlock_stack=1',
    'LC_ALL': 'C',
})


def crash_key(rc, err):
    """A name for a crash which does not depend on addresses or on lines."""
    m = re.search(r'^[^\n]*: ([^\n:]*\b[\w:~<>=+\-*/ ,&]*\([^\n]*\)[^\n]*): '
                  r"Assertion `(.*)' failed", err, re.M)
    if 'Assertion `' in err or "Assertion '" in err:
        a = re.search(r"([\w./+-]+):\d+: (.*?): Assertion [`'](.*?)' failed",
                      err, re.S)
        if a:
            return 'assert %s: %s' % (os.path.basename(a.group(1)), a.group(3))
        return 'assert'
    m = re.search(r'ERROR: AddressSanitizer: ([\w-]+)', err)
    if m:
        frames = re.findall(r'#\d+ 0x[0-9a-f]+ in (?:void |bool |auto )?'
                            r'(walnut::[\w:~]+)', err)
        return 'asan %s %s' % (m.group(1), frames[0] if frames else '')
    m = re.search(r'([\w./+-]+):\d+:\d+: runtime error: ([^\n]*)', err)
    if m:
        msg = re.sub(r'0x[0-9a-f]+|-?\d+', 'N', m.group(2))
        return 'ubsan %s: %s' % (os.path.basename(m.group(1)), msg[:100])
    m = re.search(r'WARNING: ThreadSanitizer: ([^\n(]*)', err)
    if m:
        frames = re.findall(r'#\d+ (walnut::[\w:~]+)', err)
        return 'tsan %s %s' % (m.group(1).strip(), frames[0] if frames else '')
    if 'hard rss limit exhausted' in err:
        return 'memory-limit'
    m = re.search(r"terminate called after throwing[^\n]*'([^']*)'", err)
    if m:
        return 'uncaught ' + m.group(1)
    return 'exit status %d' % rc


class Shard:
    def __init__(self, k):
        self.k = k
        self.start = 0
        self.restarts = 0
        self.viol = []       # (key, index, detail)
        self.stats = []
        self.problem = None


WRAP = []


def compare_digests(tmp, variants):
    """[(key, index, detail)] for the jobs whose results differ by build."""
    seen = {}
    viol = []
    count = 0
    for v in variants:
        for path in glob.glob(os.path.join(tmp, v + 'digests')):
            for line in open(path):
                index, value, kind = line.split()
                index = int(index)
                first = seen.setdefault(index, (v, value))
                if first[0] != v:
                    count += 1
                if first[1] != value:
                    viol.append(('X03-build-' + kind, index,
                                 '%s computes %s, %s computes %s' %
                                 (first[0], first[1], v, value)))
    return viol, count


def run_once(exe, prop, seed, args, tmp, tag, cpu_limit, wall, thorough):
    out = os.path.join(tmp, tag + '.json')
    status = os.path.join(tmp, tag + '.status')
    so = os.path.join(tmp, tag + '.stdout')
    se = os.path.join(tmp, tag + '.stderr')
    for p in (out, status):
        if os.path.exists(p):
            os.unlink(p)
    cmd = WRAP + [exe, '--prop', prop, '--seed', str(seed), '--out', out,
           '--status', status, '--cpu-limit', str(cpu_limit)] + args
    if thorough:
        cmd.append('--thorough')
    scratch = os.path.join(tmp, tag + '.d')
    os.makedirs(scratch, exist_ok=True)
    timed_out = False
    with open(so, 'wb') as fo, open(se, 'wb') as fe:
        p = subprocess.Popen(cmd, stdout=fo, stderr=fe, env=ENV, cwd=scratch,
                             start_new_session=True)
        try:
            rc = p.wait(timeout=wall)
        except subprocess.TimeoutExpired:
            timed_out = True
            os.killpg(p.pid, 9)
            rc = p.wait()
    viol = []
    with open(so, 'r', errors='replace') as f:
        for line in f:
            if line.startswith('VIOL\t'):
                parts = line.rstrip('\n').split('\t', 3)
                if len(parts) == 4:
                    viol.append((parts[1], int(parts[2]), parts[3]))
    with open(se, 'rb') as f:
        f.seek(0, 2)
        n = f.tell()
        f.seek(max(0, n - 200000))
        err = f.read().decode('utf-8', 'replace')
    index = None
    if os.path.exists(status):
        with open(status, 'rb') as f:
            t = f.read().split(b'\0')[0]
            if t:
                index = int(t)
    stats = None
    if rc == 0 and os.path.exists(out):
        with open(out) as f:
            stats = json.load(f)
    return rc, viol, err, index, stats, timed_out


def run_shard(shard, exe, prop, seed, cases, shards, tmp, cpu_limit, deadline,
              thorough, confirm_cpu, tag=''):
    while True:
        wall = max(5, deadline - time.time())
        rc, viol, err, index, stats, timed_out = run_once(
            exe, prop, seed,
            ['--shards', str(shards), '--shard', str(shard.k),
             '--cases', str(cases), '--start', str(shard.start)],
            tmp, tag + 'shard%d' % shard.k, cpu_limit, wall, thorough)
        shard.viol += viol
        if rc == 0 and stats is not None:
            shard.stats.append(stats)
            return
        if timed_out:
            shard.problem = 'shard %d ran out of wall time at case %s' % (
                shard.k, index)
            return
        if index is None or rc == 3:
            shard.problem = 'shard %d failed to start (status %d): %s' % (
                shard.k, rc, err[-2000:])
            return
        if 'WARNING: ThreadSanitizer' in err:
            # A report is true whether or not the schedule comes up again.
            shard.viol.append((crash_key(rc, err), index,
                               err[:3000].replace('\n', ' | ')))
            return
        # A crash, an abort, or a case that used up its processor time. Run the
        # case again, alone.
        hang = rc == 77
        rc2, viol2, err2, _, _, timed2 = run_once(
            exe, prop, seed, ['--only', str(index), '--cases', str(cases)],
            tmp,
            tag + 'confirm%d' % shard.k, confirm_cpu if hang else 4 * cpu_limit,
            max(30, deadline - time.time() + 60), thorough)
        if timed2:
            shard.problem = 'case %d did not finish when run again' % index
        elif rc2 == 77:
            shard.viol.append(('hang', index, 'case %d used more than %d s of '
                               'processor time' % (index, confirm_cpu)))
        elif rc2 not in (0, 3):
            shard.viol.append((crash_key(rc2, err2), index,
                               err2[-3000:].replace('\n', ' | ')))
        elif hang:
            pass  # Slow the first time only.
        elif not viol2:
            shard.problem = ('case %d failed (%s) but not when run again alone'
                             % (index, crash_key(rc, err)))
        shard.restarts += 1
        shard.start = index + 1
        if shard.restarts > 3 or len(shard.viol) > 12:
            return


def load_known(prop):
    """The finding lines of the property: [(key, text)]."""
    res = []
    if not os.path.exists(KNOWN):
        return res
    for line in open(KNOWN):
        line = line.strip()
        m = re.match(r'finding: property=(\S+) key="([^"]*)" (.*)', line)
        if m and m.group(1) == prop:
            res.append((m.group(2), m.group(3)))
    return res


def main():
    args = sys.argv[1:]
    if not args or args[0] not in CHECKS:
        log('usage: run.py PROPERTY, one of', ' '.join(sorted(CHECKS)))
        return 2
    prop = args[0]
    check = CHECKS[prop]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in args:
        tier = 'thorough'
    thorough = tier == 'thorough'
    t0 = time.time()
    variants = list(check.get('variants', {})) or [None]
    exes = {}
    for v in variants:
        exes[v] = build(check, v)
    prep = build_prep() if check.get('jobs') else None
    log('%s: built in %.1f s' % (prop, time.time() - t0))
    if '--build-only' in args:
        return 0
    WRAP[:] = check.get('wrap', [])
    name = check.get('prop', prop)

    def prepare(seed, cases, tmp):
        if prep:
            ENV['WALNUT_JOBS'] = os.path.join(tmp, 'jobs.txt')
            rc, out = run_cmd([prep, str(seed), str(cases * check['jobs']),
                               ENV['WALNUT_JOBS']], 900)
            if rc != 0:
                raise CheckError('making jobs failed:\n' + out[:2000])

    if '--replay' in args:
        rep = json.load(open(args[args.index('--replay') + 1]))
        cases = rep.get('cases', check[rep['tier']])
        tmp = tempfile.mkdtemp(prefix='verif-')
        all_viol, all_rc, all_err = [], 0, ''
        try:
            prepare(rep['seed'], cases, tmp)
            for v in variants:
                if v:
                    ENV['WALNUT_DIGESTS'] = os.path.join(tmp, v + 'digests')
                rc, viol, err, _, _, _ = run_once(
                    exes[v], name, rep['seed'],
                    ['--only', str(rep['index']), '--cases', str(cases),
                     '--verbose'], tmp, 'replay', 600, 900,
                    rep['tier'] == 'thorough')
                all_viol += viol
                all_rc |= rc
                all_err += err[-4000:]
            if variants[0]:
                all_viol += compare_digests(tmp, variants)[0]
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        for v in all_viol:
            print('VIOL', *v)
        print(all_err[-8000:])
        return 1 if all_viol or all_rc != 0 else 0
    cases = check['thorough'] if thorough else check['quick']
    if '--cases' in args:
        cases = int(args[args.index('--cases') + 1])
    shards = min(check.get('shards', JOBS), cases)
    deadline = t0 + (3 * 3600 if thorough else 720)
    cpu_limit = check.get('cpu_limit', 30)
    confirm_cpu = check.get('confirm_cpu', 150)
    compared = 0
    tmp = tempfile.mkdtemp(prefix='verif-')
    try:
        prepare(seed, cases, tmp)
        sh = []
        for v in variants:
            if v:
                ENV['WALNUT_DIGESTS'] = os.path.join(tmp, v + 'digests')
            mine = [Shard(k) for k in range(shards)]
            with cf.ThreadPoolExecutor(JOBS) as ex:
                list(ex.map(lambda s: run_shard(
                    s, exes[v], name, seed, cases, shards, tmp, cpu_limit,
                    deadline, thorough, confirm_cpu, v or ''), mine))
            sh += mine
        if variants[0]:
            viol, compared = compare_digests(tmp, variants)
            sh[0].viol += viol
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    evaluations = nontrivial = 0
    counters = {}
    digests = set()
    samples = []
    for s in sh:
        for st in s.stats:
            evaluations += st['evaluations']
            nontrivial += st['nontrivial']
            digests.update(st['digests'])
            samples += st['samples'][:2]
            for k, v in st['counters'].items():
                if k.startswith('max_'):
                    counters[k] = max(counters.get(k, 0), v)
                else:
                    counters[k] = counters.get(k, 0) + v
    if compared:
        counters['results_compared_between_builds'] = compared
    problems = [s.problem for s in sh if s.problem]
    known = load_known(prop)
    found = {}   # key -> (index, detail)
    for s in sh:
        for key, index, detail in s.viol:
            if key not in found or index < found[key][0]:
                found[key] = (index, detail)
    fresh = {}
    known_hit = {}
    for key, (index, detail) in sorted(found.items()):
        hit = [t for k, t in known if k == key]
        if hit:
            known_hit[key] = hit[0]
        else:
            fresh[key] = (index, detail)
    for key, text in known_hit.items():
        print('KNOWN-FINDING: property=%s %s [%s]' % (prop, text, key))
    os.makedirs(EVIDENCE, exist_ok=True)
    ev = {
        'property': prop,
        'tier': 'thorough' if thorough else 'quick',
        'seed': seed,
        'level': 'exploration',
        'coverage': {
            'evaluations': evaluations,
            'distinct_nontrivial': len(digests),
            'rule': check['rule'],
            'samples': samples[:6],
            'observed': dict(sorted(counters.items())),
        },
        'assumptions': check.get('assumptions', [
            'GMP computes the expected values',
            'g++ and its sanitizers compile and instrument the code as '
            'documented']),
        'wall_s': round(time.time() - t0, 1),
        'violations': len(fresh),
    }
    with open(os.path.join(EVIDENCE, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    log('%s: %d cases, %d distinct non-trivial, %.1f s' %
        (prop, evaluations, len(digests), time.time() - t0))
    if fresh:
        os.makedirs(REPLAY, exist_ok=True)
        for n, (key, (index, detail)) in enumerate(sorted(
                fresh.items(), key=lambda kv: kv[1][0])):
            path = os.path.join(REPLAY, '%s-%d.json' % (prop, n))
            with open(path, 'w') as f:
                json.dump({'property': prop, 'seed': seed, 'index': index,
                           'tier': ev['tier'], 'cases': cases, 'key': key, 'detail': detail,
                           'replay': 'python3 run.py %s --replay %s' %
                                     (prop, path)}, f, indent=1)
            log('  %s: case %d: %s' % (key, index, detail[:700]))
            print('VIOLATION property=%s replay=%s' % (prop, path))
            if n >= 4:
                break
        return 1
    if problems:
        raise CheckError('; '.join(problems))
    if evaluations == 0 or not digests:
        raise CheckError('nothing was observed')
    missing = ['%s (%d < %d)' % (k, counters.get(k, 0), n)
               for k, n in check.get('require', {}).items()
               if counters.get(k, 0) < n]
    if missing:
        raise CheckError('too few events were observed: ' + ', '.join(missing))
    return 0


if __name__ == '__main__':
    try:
        sys.exit(main())
    except CheckError as e:
        log('ERROR:', e)
        sys.exit(2)
    except subprocess.TimeoutExpired as e:
        log('ERROR:', e)
        sys.exit(2)

#!/usr/bin/env python3
"""Runs the property-based check of one property against /repo's working tree.

  python3 check.py C09 [quick|thorough]      run the check
  python3 check.py --replay replay/X.json    re-run one saved failure

Builds the library from the current sources (object files are cached by the
content of everything that went into them), links the harness parts of the
property and runs them; writes evidence/<id>.json.
"""
import concurrent.futures
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('H265NAL_REPO', '/repo')
BUILD = os.path.join(HERE, 'build')
CACHE = os.path.join(BUILD, 'cache')
JOBS = max(1, os.cpu_count() or 1)

CXX = 'clang++'
STD = ['-std=c++14', '-O1', '-g1']
SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-ftrivial-auto-var-init=pattern']
FULL = ['-DFDUMP_DEFINE', '-DRTP_DEFINE', '-DFPRINT_ERRORS']
SMALL = ['-Dh265nal=h265nal_small', '-DSMALL_FOOTPRINT']

sys.path.insert(0, os.path.join(HERE, 'tools'))
from props import PROPS  # noqa: E402  id -> dict(tus, scale, wall, ...)


def die(msg, rc=2):
    print(msg, flush=True)
    sys.exit(rc)


_digest = {}


def digest(path):
    if path not in _digest:
        with open(path, 'rb') as f:
            _digest[path] = hashlib.sha256(f.read()).hexdigest()
    return _digest[path]


def headers(*dirs):
    out = []
    for d in dirs:
        out += sorted(glob.glob(os.path.join(d, '*.h')))
    return out


def compile_one(job):
    src, flags, deps, extra_key = job
    key = hashlib.sha256('\n'.join(
        [CXX] + flags + [os.path.basename(src), digest(src), extra_key] +
        [os.path.basename(p) + digest(p) for p in deps]).encode()).hexdigest()[:32]
    obj = os.path.join(CACHE, key + '.o')
    if os.path.exists(obj):
        os.utime(obj)
        return obj, ''
    tmp = '%s.%d.tmp' % (obj, os.getpid())
    r = subprocess.run([CXX] + flags + ['-c', src, '-o', tmp],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        return None, '%s\n%s' % (src, r.stdout[-6000:])
    os.replace(tmp, obj)
    return obj, ''


def compile_all(jobs):
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        res = list(ex.map(compile_one, jobs))
    bad = [e for o, e in res if o is None]
    if bad:
        raise BuildError('\n'.join(bad))
    return [o for o, _ in res]


class BuildError(Exception):
    pass


class SmallBuildError(Exception):
    """The small-footprint configuration alone does not compile."""


def lib_sources():
    return sorted(glob.glob(os.path.join(REPO, 'src', '*.cc')))


def project_version():
    try:
        t = open(os.path.join(REPO, 'CMakeLists.txt')).read()
        m = re.search(r'project\([^)]*VERSION\s+([0-9.]+)', t, re.S | re.I)
        return m.group(1) if m else '0'
    except OSError:
        return '0'


def config_dir():
    """config.h as the build system would generate it."""
    d = os.path.join(BUILD, 'config')
    os.makedirs(d, exist_ok=True)
    t = ''
    src = os.path.join(REPO, 'src', 'config.h.in')
    if os.path.exists(src):
        t = open(src).read()
    v = project_version().split('.')
    vals = {'PROJECT_VERSION': '.'.join(v)}
    for i, n in enumerate(['MAJOR', 'MINOR', 'PATCH', 'TWEAK']):
        vals['PROJECT_VERSION_' + n] = v[i] if i < len(v) else ''
    t = re.sub(r'@(\w+)@', lambda m: vals.get(m.group(1), ''), t)
    t = re.sub(r'\$\{(\w+)\}', lambda m: vals.get(m.group(1), ''), t)
    t = re.sub(r'#cmakedefine\s+.*', '', t)
    p = os.path.join(d, 'config.h')
    if not os.path.exists(p) or open(p).read() != t:
        with open(p, 'w') as f:
            f.write(t)
    return d


def build(pid, spec, exe, fuzz=False, tsan=False):
    os.makedirs(CACHE, exist_ok=True)
    inc = ['-I' + os.path.join(REPO, 'include')]
    rh = headers(os.path.join(REPO, 'include'), os.path.join(REPO, 'src'))
    hh = headers(os.path.join(HERE, 'harness'))
    san = ['-fsanitize=address,undefined,fuzzer-no-link', '-fno-sanitize-recover=undefined', '-ftrivial-auto-var-init=pattern'] if fuzz else SAN
    hsan = ['-fsanitize=address']
    if tsan:
        san = hsan = ['-fsanitize=thread']
    jobs, extra = [], []
    for s in lib_sources():
        jobs.append((s, STD + san + FULL + inc, rh, 'lib'))
    tus = ['fuzz_main'] if fuzz else ['main'] + spec['tus']
    for t in tus:
        src = os.path.join(HERE, 'harness', t + '.cc')
        # the harness itself needs no undefined-behaviour instrumentation
        fl = STD + hsan + ['-Wall'] + FULL + inc + ['-I' + os.path.join(HERE, 'harness')]
        jobs.append((src, fl, rh + hh, 'harness'))
    if 'tool' in spec.get('with', []) and not fuzz:
        cfg = config_dir()
        tool = os.path.join(REPO, 'tools', 'h265nal.cc')
        jobs.append((tool, STD + SAN + FULL + inc + ['-I' + cfg, '-I' + os.path.join(REPO, 'src'), '-Dmain=cli_main'],
                     rh + headers(cfg), 'tool'))
    if 'small' in spec.get('with', []) and not fuzz:
        cfg = config_dir()
        small = [(s, STD + SAN + SMALL + inc, rh, 'small') for s in lib_sources()
                 if '_rtp_' not in os.path.basename(s)]
        small.append((os.path.join(REPO, 'tools', 'h265nal.cc'),
                      STD + SAN + SMALL + inc + ['-I' + cfg, '-I' + os.path.join(REPO, 'src'), '-Dmain=cli_main'],
                      rh + headers(cfg), 'tool'))
        src = os.path.join(HERE, 'harness', 'small.cc')
        jobs.append((src, STD + ['-fsanitize=address', '-Wall'] + SMALL + inc + ['-I' + os.path.join(HERE, 'harness')],
                     rh + hh, 'harness'))
        try:
            extra = compile_all(small)
        except BuildError as e:
            # is it this configuration only?
            compile_all(jobs)
            raise SmallBuildError(str(e))
    # the slow harness units first
    jobs.sort(key=lambda j: (j[3] != 'harness', j[0]))
    objs = compile_all(jobs) + extra
    link = ['-fsanitize=thread'] if tsan else ['-fsanitize=address,undefined' + (',fuzzer' if fuzz else '')]
    key = hashlib.sha256('\n'.join(sorted(objs)).encode()).hexdigest()[:32]
    stamp = exe + '.key'
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == key:
        return
    r = subprocess.run([CXX] + objs + link + ['-lpthread', '-o', exe],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError(r.stdout[-6000:])
    with open(stamp, 'w') as f:
        f.write(key)


def prune_cache(limit=3 << 30):
    try:
        fs = [(os.path.getmtime(p), os.path.getsize(p), p) for p in glob.glob(os.path.join(CACHE, '*'))]
    except OSError:
        return
    total = sum(f[1] for f in fs)
    for _, size, p in sorted(fs):
        if total < limit:
            break
        try:
            os.unlink(p)
            total -= size
        except OSError:
            pass


def known_findings(pid):
    """(part, text, line) of the known findings of this property."""
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if not os.path.exists(p):
        return out
    for line in open(p):
        line = line.rstrip('\n')
        m = re.match(r'known: property=(\S+) part=(\S+) match="([^"]*)" (.*)', line)
        if m and m.group(1) == pid:
            out.append((m.group(2), m.group(3), m.group(4)))
    return out


def run_fuzz(pid, spec, tier, seed, scratch, result):
    """Coverage-guided leg; returns True when a violation was reported."""
    exe = os.path.join(BUILD, 'fuzz_' + pid)
    build(pid, spec, exe, fuzz=True)
    corpus = os.path.join(scratch, 'corpus')
    art = os.path.join(scratch, 'art')
    os.makedirs(corpus)
    os.makedirs(art)
    env = dict(os.environ, H265_FUZZ_SEED=str(seed))
    env.pop('ASAN_OPTIONS', None)
    subprocess.run([exe.replace('fuzz_', 'pbt_'), '--make-corpus', corpus, '--seed', str(seed)],
                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    secs = spec['fuzz'][0 if tier == 'quick' else 1]
    procs = []
    for w in range(JOBS):
        c2 = os.path.join(scratch, 'c%d' % w)
        os.makedirs(c2)
        log = open(os.path.join(scratch, 'fuzz%d.log' % w), 'w')
        args = [exe, '-seed=%d' % (1 + (seed * 1000 + w) % 2000000000), '-max_total_time=%d' % secs,
                '-max_len=2048', '-rss_limit_mb=3000', '-timeout=25', '-print_final_stats=1',
                '-artifact_prefix=%s/w%d_' % (art, w), c2]
        if w % 4 != 3:  # every fourth worker starts from nothing
            args.append(corpus)
        procs.append((subprocess.Popen(args, stdout=log, stderr=subprocess.STDOUT, env=env), log.name))
    execs = cov = 0
    bad = []
    for p, logname in procs:
        rc = p.wait()
        t = open(logname, errors='replace').read()
        m = re.search(r'stat::number_of_executed_units:\s*(\d+)', t)
        execs += int(m.group(1)) if m else 0
        m = re.findall(r'cov: (\d+)', t)
        cov = max(cov, int(m[-1]) if m else 0)
        if rc != 0:
            bad.append((rc, t))
    ncorp = sum(len(os.listdir(os.path.join(scratch, 'c%d' % w))) for w in range(JOBS))
    result['parts'].append({
        'part': 'libfuzzer', 'evaluations': execs, 'planned': execs, 'nontrivial': ncorp,
        'distinct_nontrivial': ncorp,
        'rule': 'coverage-guided executions; non-trivial = inputs that reached new code',
        'wall_s': secs, 'note': 'edge coverage %d' % cov, 'classes': {},
        'samples': []})
    print('part libfuzzer: %d executions, %d inputs with new coverage, cov %d' % (execs, ncorp, cov))
    hit = False
    for f in sorted(glob.glob(art + '/*')):
        base = os.path.basename(f)
        if 'slow-unit' in base:
            continue
        fails = 0
        last = ''
        for _ in range(3):
            r = subprocess.run([exe, '-timeout=25', '-rss_limit_mb=3000', f], stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, env=env)
            if r.returncode != 0:
                fails += 1
                last = r.stdout.decode(errors='replace')
        if fails < 3:
            continue
        small = os.path.join(scratch, 'min')
        subprocess.run([exe, '-minimize_crash=1', '-max_total_time=15', '-exact_artifact_path=' + small, f],
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env)
        src = f
        if os.path.exists(small) and subprocess.run([exe, small], stdout=subprocess.DEVNULL,
                                                    stderr=subprocess.DEVNULL, env=env).returncode != 0:
            src = small
        os.makedirs(os.path.join(HERE, 'replay'), exist_ok=True)
        dst = os.path.join(HERE, 'replay', '%s_libfuzzer_%s.bin' % (pid, hashlib.sha256(open(src, 'rb').read()).hexdigest()[:8]))
        shutil.copyfile(src, dst)
        for line in last.splitlines():
            if re.search(r'ERROR:|runtime error|PROPERTY', line):
                print(line[:400])
        print('VIOLATION property=%s replay=%s' % (pid, dst), flush=True)
        hit = True
        break
    if not hit and bad and not glob.glob(art + '/*'):
        print(bad[0][1][-2000:])
    return hit


def run_tsan(pid, spec, tier, seed, scratch, result):
    """The concurrent part under the thread sanitizer."""
    exe = os.path.join(BUILD, 'tsan_' + pid)
    build(pid, spec, exe, tsan=True)
    part, quick, deep = spec['tsan']
    out = os.path.join(scratch, 'tsan.json')
    env = dict(os.environ)
    env.pop('TSAN_OPTIONS', None)
    # does the thread sanitizer start here at all?
    probe = subprocess.run([exe, '--prop', pid, '--part', 'none', '--dir', scratch], cwd=scratch, env=env,
                           stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
    if probe.returncode != 2:
        print('thread sanitizer not usable here: status %d' % probe.returncode)
        return False
    r = subprocess.run([exe, '--prop', pid, '--part', part, '--seed', str(seed + 7), '--scale',
                        str(quick if tier == 'quick' else deep), '--wall', str(60 if tier == 'quick' else 600), '--out', out,
                        '--replay-dir', os.path.join(HERE, 'replay'), '--dir', scratch], cwd=scratch, env=env)
    if os.path.exists(out):
        with open(out) as f:
            for p in json.load(f)['parts']:
                p['part'] += ' (thread sanitizer)'
                result['parts'].append(p)
    return r.returncode == 1


def main():
    args = sys.argv[1:]
    if not args:
        die(__doc__)
    if args[0] == '--replay':
        return replay(args[1])
    pid = args[0]
    if pid not in PROPS:
        die('unknown property ' + pid)
    tier = args[1] if len(args) > 1 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    spec = PROPS[pid]
    t0 = time.time()
    exe = os.path.join(BUILD, 'pbt_' + pid)
    try:
        build(pid, spec, exe)
    except SmallBuildError as e:
        os.makedirs(os.path.join(HERE, 'replay'), exist_ok=True)
        path = os.path.join(HERE, 'replay', pid + '_build.txt')
        with open(path, 'w') as f:
            f.write(str(e))
        print(str(e)[:2000])
        print('VIOLATION property=%s replay=%s' % (pid, path), flush=True)
        return 1
    except BuildError as e:
        # the code or the harness does not compile: no answer about the property
        die('BUILD FAILED\n' + str(e), 2)
    tb = time.time() - t0
    scratch = tempfile.mkdtemp(prefix='h265nal_%s_' % pid, dir=BUILD)
    rc = 0
    try:
        scale = spec.get('scale', 1.0) * (1 if tier == 'quick' else spec.get('deep', 40))
        wall = spec.get('wall', 90) if tier == 'quick' else spec.get('deep_wall', 900)
        out = os.path.join(scratch, 'out.json')
        known = known_findings(pid)
        cmd = [exe, '--prop', pid, '--seed', str(seed), '--scale', str(scale), '--wall', str(wall),
               '--out', out, '--replay-dir', os.path.join(HERE, 'replay'), '--dir', scratch,
               '--known', ''.join('%s\t%s\n' % (a, b) for a, b, _ in known)]
        env = dict(os.environ)
        for k in ('ASAN_OPTIONS', 'UBSAN_OPTIONS'):
            env.pop(k, None)
        r = subprocess.run(cmd, env=env, cwd=scratch)
        if r.returncode not in (0, 1) or not os.path.exists(out):
            die('the harness ended with status %d' % r.returncode, 2)
        rc = r.returncode
        with open(out) as f:
            result = json.load(f)
        if 'fuzz' in spec and rc == 0:
            try:
                if run_fuzz(pid, spec, tier, seed, scratch, result):
                    rc = 1
            except BuildError as e:
                die('BUILD FAILED\n' + str(e), 2)
        if 'tsan' in spec and rc == 0:
            try:
                if run_tsan(pid, spec, tier, seed, scratch, result):
                    rc = 1
            except BuildError as e:
                die('BUILD FAILED\n' + str(e), 2)
        for part, text, desc in known:
            print('KNOWN-FINDING: property=%s %s' % (pid, desc))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    parts = result['parts']
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': sum(p['evaluations'] for p in parts),
            'distinct_nontrivial': sum(p['distinct_nontrivial'] for p in parts),
            'rule': ' | '.join('%s: %s' % (p['part'], p['rule']) for p in parts),
            'samples': [s for p in parts for s in p['samples'][:2]][:12],
            'parts': parts,
            'known_findings_hit': result.get('known_hit', []),
            'build_s': round(tb, 1),
        },
        'assumptions': spec.get('assumptions', []),
        'wall_s': round(time.time() - t0, 1),
        'violations': rc,
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    tmp = os.path.join(HERE, 'evidence', pid + '.json.tmp')
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(HERE, 'evidence', pid + '.json'))
    prune_cache()
    print('%s %s: %s in %.1f s' % (pid, tier, 'VIOLATED' if rc else 'held', time.time() - t0))
    return rc


def replay(path):
    pid = os.path.basename(path).split('_')[0]
    spec = PROPS[pid]
    if path.endswith('.bin'):
        exe = os.path.join(BUILD, 'fuzz_' + pid)
        build(pid, spec, exe, fuzz=True)
        r = subprocess.run([exe, '-timeout=25', path])
        if r.returncode:
            print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1 if r.returncode else 0
    exe = os.path.join(BUILD, 'pbt_' + pid)
    build(pid, spec, exe)
    scratch = tempfile.mkdtemp(prefix='h265nal_%s_' % pid, dir=BUILD)
    try:
        rc = subprocess.run([exe, '--replay', os.path.abspath(path), '--dir', scratch], cwd=scratch).returncode
        if rc == 0 and 'tsan' in spec:
            exe = os.path.join(BUILD, 'tsan_' + pid)
            build(pid, spec, exe, tsan=True)
            rc = subprocess.run([exe, '--replay', os.path.abspath(path), '--dir', scratch], cwd=scratch).returncode
        return rc
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())

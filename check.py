#!/usr/bin/env python3
"""check.py <property> [quick|thorough]   - build /repo's working tree, explore, write evidence.
   check.py --replay <file>               - replay a recorded violation
   check.py --setup                       - prebuild (optional; every check builds what it needs)

Exit 0: property held on everything explored.  Exit 1: a VIOLATION line was printed.
Any other exit: the check could not be carried out (e.g. /repo does not compile)."""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
B = os.path.join(V, 'build')
JOBS = os.cpu_count() or 4
SAN = '-fsanitize=address -fno-omit-frame-pointer -D_GLIBCXX_ASSERTIONS'
# library variants: name -> compiler flags
VARIANTS = {
    'asan':  f'-O1 -g1 {SAN}',
    'plain': '-O1 -g1 -D_GLIBCXX_ASSERTIONS',
    'hooks': '-O1 -g1 -fsanitize=thread',   # compiler-inserted access hooks; the harness provides the hooks, not the TSan run time
}
HARNESS_FLAGS = {'hooks': '-O1 -g1'}
sys.path.insert(0, V)
from checks import CHECKS, TITLES   # noqa

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

class BuildError(Exception): pass

def build_lib(variant):
    """Configure (once) and build libsoftlib.a from REPO's tree; returns (lib, includes, link flags)."""
    d = os.path.join(B, 'lib-' + variant)
    os.makedirs(d, exist_ok=True)
    flags = VARIANTS[variant]
    stamp = os.path.join(d, 'flags.txt')
    want = flags + REPO
    if not os.path.exists(os.path.join(d, 'build.ninja')) or not os.path.exists(stamp) or open(stamp).read() != want:
        shutil.rmtree(d); os.makedirs(d)
        r = sh(['cmake', '-S', REPO, '-B', d, '-G', 'Ninja', '-DCMAKE_BUILD_TYPE=None', '-DBUILD_TESTS=OFF',
                '-DCMAKE_CXX_COMPILER=/usr/bin/g++', '-DCMAKE_CXX_FLAGS=' + flags + ' -w'])
        if r.returncode: raise BuildError('cmake configure failed:\n' + r.stdout[-3000:])
        open(stamp, 'w').write(want)
    # ninja goes by time stamps; a source changed without a newer one (a restored or copied file) is found by content
    seen = os.path.join(d, 'contents.json')
    now = contents()
    if os.path.exists(seen):
        old = json.load(open(seen))
        t = os.stat(seen).st_mtime
        if any(old.get(k) != now.get(k) and (k not in now or os.stat(os.path.join(REPO, k)).st_mtime <= t) for k in set(old) | set(now)):
            sh(['ninja', '-C', d, '-t', 'clean'])
    r = sh(['ninja', '-C', d, 'softlib'])
    if r.returncode: raise BuildError('library build failed:\n' + r.stdout[-3000:])
    json.dump(now, open(seen, 'w'))
    return d

def contents():
    out = {}
    for top in ('src', 'include', 'cmake', 'CMakeLists.txt'):
        p = os.path.join(REPO, top)
        for dp, _, fs in ([(REPO, [], [top])] if os.path.isfile(p) else os.walk(p)):
            for n in fs:
                q = os.path.join(dp, n)
                try: out[os.path.relpath(q, REPO)] = hashlib.sha256(open(q, 'rb').read()).hexdigest()
                except OSError: pass
    return out

def link_flags():
    h = ['-I/usr/include/hdf5/serial']
    l = ['-lgsl', '-lgslcblas', '-lpng', '-lz', '-lm', '-ldl', '-lpthread']
    for c in (['-L/usr/lib/x86_64-linux-gnu/hdf5/serial', '-lhdf5_cpp', '-lhdf5'],):
        l = c + l
    return h, l

def build_harness(pid, cfg, part=''):
    variant = cfg.get('variant', 'asan')
    d = build_lib(variant)
    src = [os.path.join(V, 'harness', s) for s in cfg['src']]
    out = os.path.join(B, 'h-' + pid + part)
    inc, lnk = link_flags()
    objs = []
    for i, (o, fl) in enumerate(cfg.get('objs', [])):   # sources compiled separately with flags of their own
        ob = os.path.join(B, f'h-{pid}{part}-{i}.o'); objs.append(ob)
        r = sh(['/usr/bin/g++', '-std=c++17', '-w', '-fopenmp', '-c', o.replace('@REPO@', REPO), '-o', ob, '-I' + os.path.join(d, 'include'), '-I' + os.path.join(REPO, 'include')] + inc + fl)
        if r.returncode: raise BuildError('object build failed:\n' + r.stdout[-4000:])
    extra_src = [s.replace('@REPO@', REPO) for s in cfg.get('repo_src', [])]
    cmd = (['/usr/bin/g++', '-std=c++17'] + HARNESS_FLAGS.get(variant, VARIANTS[variant]).split() + ['-w', '-fopenmp', '-D_FILE_OFFSET_BITS=64', '-DHAS_LIBPNG',
           '-I' + os.path.join(d, 'include'), '-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(V, 'harness')] + inc +
           cfg.get('cflags', []) + src + extra_src + objs +
           [os.path.join(d, 'src', 'libsoftlib.a')] + cfg.get('ldflags', []) + lnk + ['-rdynamic', '-o', out])
    r = sh(cmd)
    if r.returncode: raise BuildError('harness build failed:\n' + ' '.join(cmd) + '\n' + r.stdout[-4000:])
    return out

def parts_of(cfg):
    return [dict({k: v for k, v in cfg.items() if k != 'parts'}, **p) for p in cfg['parts']] if 'parts' in cfg else [cfg]

def known_for(pid):
    out = []
    p = os.path.join(V, 'KNOWN_FINDINGS')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known: property=(\S+) key=(\S+)', line)
            if m and m.group(1) == pid: out.append(m.group(2))
    return out

def env_for_run():
    e = dict(os.environ)
    logd = os.path.join(B, 'asan'); os.makedirs(logd, exist_ok=True)
    for f in os.listdir(logd):
        try: os.unlink(os.path.join(logd, f))
        except OSError: pass
    e['ASAN_OPTIONS'] = f'detect_leaks=0:log_path={logd}/log:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_odr_violation=0:detect_stack_use_after_return=0:quarantine_size_mb=16:max_allocation_size_mb=4096'
    e['MC_ASAN_LOG'] = f'{logd}/log'
    tmp = os.path.join(B, 'tmp'); os.makedirs(tmp, exist_ok=True)
    if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK): e['MC_TMP'] = '/dev/shm'
    else: e['MC_TMP'] = tmp
    e['OMP_NUM_THREADS'] = '1'
    e['HDF5_USE_FILE_LOCKING'] = 'FALSE'
    e['TZ'] = 'UTC'; e['LC_ALL'] = 'C'
    return e

def main():
    a = sys.argv[1:]
    os.makedirs(B, exist_ok=True); os.makedirs(os.path.join(V, 'replays'), exist_ok=True); os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    lock = open(os.path.join(B, 'lock'), 'w'); fcntl.flock(lock, fcntl.LOCK_EX)
    if a and a[0] == '--setup':
        for v in VARIANTS: build_lib(v)
        return 0
    if a and a[0] == '--replay':
        txt = open(a[1]).read(); pid = re.search(r'^property (\S+)', txt, re.M).group(1)
        for i, c in enumerate(parts_of(CHECKS[pid])):
            exe = build_harness(pid, c, f'.{i}' if i else '')
            rc = subprocess.run([exe, '--replay', os.path.abspath(a[1])], env=env_for_run()).returncode
            if rc != 2: break
        return rc
    pid = a[0]; tier = a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick')
    cfg = CHECKS[pid]; t0 = time.time()
    parts = parts_of(cfg); s = None; status = 0; tb = 0.0
    for i, part in enumerate(parts):
        t1 = time.time()
        try: exe = build_harness(pid, part, f'.{i}' if i else '')
        except BuildError as ex:
            print(f'check {pid}: {ex}'); return 2
        tb += time.time() - t1
        stats = os.path.join(B, f'stats-{pid}.json')
        if os.path.exists(stats): os.unlink(stats)
        cmd = [exe, '--out', stats, '--replay-dir', os.path.join(V, 'replays'), '--jobs', str(JOBS)]
        if tier == 'thorough': cmd.append('--thorough')
        for k in known_for(pid): cmd += ['--known', k]
        for x in a[2:]: cmd.append(x)
        r = subprocess.run(cmd, env=env_for_run())
        if not os.path.exists(stats):
            print(f'check {pid}: explorer ended with status {r.returncode} and no statistics'); return 2
        q = json.load(open(stats)); status = status or (r.returncode if not q['violations'] else 0)
        if s is None: s = q
        else:
            for k in ('states', 'operations', 'executions', 'choices', 'violations'): s[k] += q[k]
            s['suites'] += q['suites']; s['known'].update(q['known'])
    ev = {
        'property': pid, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': 'model_checking',
        'coverage': {
            'states': s['states'], 'transitions': s['operations'],
            'traces_validated_against_impl': s['executions'],
            'choice_points': s['choices'],
            'samples': [f"{u['suite']}: {x}" for u in s['suites'] for x in u['samples'][:4] if x],
            'exhaustive': all(u['complete'] for u in s['suites']),
            'suites': [{k: v for k, v in u.items() if k != 'samples'} for u in s['suites']],
            'explanation': 'Stateless exploration of the real library: every choice sequence of each suite within its bound is executed on code rebuilt from the current tree and compared with a reference model after every operation. states = distinct observable states (hash of model state and implementation answers), transitions = operations compared, traces_validated_against_impl = complete executions, each replayed on implementation and model in lockstep.',
        },
        'assumptions': cfg.get('assumptions', []),
        'wall_s': round(time.time() - t0, 2), 'violations': s['violations'],
        'known_findings': s['known'], 'build_s': round(tb, 2),
    }
    json.dump(ev, open(os.path.join(V, 'evidence', pid + '.json'), 'w'), indent=1)
    print(f"{pid} {tier}: {'VIOLATED' if s['violations'] else 'held'}; executions={s['executions']} operations={s['operations']} states={s['states']} wall={ev['wall_s']}s (build {tb:.1f}s)")
    return 1 if s['violations'] else (0 if status == 0 else 2)

if __name__ == '__main__':
    sys.exit(main())

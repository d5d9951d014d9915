#!/usr/bin/env python3
"""Driver: check.py <PROPERTY> [--replay FILE]

Rebuilds the harness of one property from /repo's working tree, explores it,
applies the known-findings file, writes evidence/<ID>.json and prints
VIOLATION / KNOWN-FINDING lines. Exit 0: held; exit 1: VIOLATION; exit 2: error
of the check itself.
"""
import concurrent.futures, importlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
H = os.path.join(VERIF, 'harness')
sys.path.insert(0, H)
from checks import CHECKS  # noqa: E402

ASYNC_SOURCES = {
    'address_resolver.cpp', 'awaitable.cpp', 'channel.cpp', 'connection.cpp', 'context.cpp', 'executor.cpp',
    'file.cpp', 'flag.cpp', 'future.cpp', 'mutex.cpp', 'pipe.cpp', 'socket.cpp', 'wait.cpp'}
BASE_FLAGS = ['-std=c++17', '-fno-rtti', '-g1', '-I' + REPO + '/src', '-I' + VERIF + '/shim', '-I' + H, '-w']
SAN = ['-fsanitize=address,undefined', '-fno-sanitize=vptr,nonnull-attribute', '-fno-sanitize-recover=all',
       '-fno-omit-frame-pointer']


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


def lib_sources(which):
    out = []
    for d, _, fs in os.walk(REPO + '/src'):
        for f in sorted(fs):
            if f.endswith('.cpp') and (which == 'full' or f not in ASYNC_SOURCES):
                out.append(os.path.join(d, f))
    return sorted(out)


def compile_many(jobs, log):
    """jobs: list of (cmd, label). Runs them in parallel; raises BuildError with the log of the first failure."""
    def one(j):
        r = sh(j[0])
        return j[1], r.returncode, r.stdout
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for label, rc, out in ex.map(one, jobs):
            if rc:
                log.append('== %s (exit %d)\n%s' % (label, rc, out[-6000:]))
    if log:
        raise BuildError('\n'.join(log))


def build(cfg, bdir, fuzzer=False):
    cxx = 'clang++' if fuzzer else cfg.get('cxx', 'g++')
    flags = list(BASE_FLAGS) + [cfg.get('opt', '-O1')]
    flags += SAN if cfg.get('san', True) else []
    if cxx == 'g++':
        flags = [f.replace('nonnull-attribute', 'nonnull-attribute') for f in flags]
    flags += cfg.get('flags', [])
    if fuzzer:
        flags += ['-fsanitize=fuzzer-no-link', '-DPBT_LIBFUZZER']
    if cfg.get('gen_flags'):
        flags += cfg['gen_flags']
    def compile_cmd(s, o, *more):
        cmd = [cxx] + flags + list(more) + ['-c', s, '-o', o]
        if not cfg.get('between') or fuzzer or os.path.basename(s) in ('vsched.cpp', 'main.cpp', 'asan_opts.cpp', 'allocs.cpp'):
            return cmd
        # With scheduling points between the basic blocks of the library.
        import shlex
        a = [cxx] + flags + list(more) + ['-fsanitize-coverage=trace-pc', '-S', s, '-o', '-']
        return ['bash', '-c', 'set -o pipefail; %s | python3 %s %s | %s -x assembler -c - -o %s' % (
            shlex.join(a), shlex.quote(os.path.join(H, 'covfilter.py')), shlex.quote(REPO + '/src'), cxx, shlex.quote(o))]

    objs, jobs = [], []
    srcs = [os.path.join(H, s) for s in cfg['src']] + cfg.get('gen_src', [])
    srcs += [os.path.join(H, 'fuzz_main.cpp' if fuzzer else 'main.cpp')]
    if cfg.get('san', True):
        srcs.append(os.path.join(H, 'asan_opts.cpp'))
    # The big harness files first.
    for s in srcs:
        o = os.path.join(bdir, ('f_' if fuzzer else '') + os.path.basename(s)[:-4] + '.o')
        objs.append(o)
        jobs.append((compile_cmd(s, o, '-I' + bdir), s))
    lib_failed = []
    libjobs = []
    for s in lib_sources(cfg.get('lib', 'core')):
        o = os.path.join(bdir, ('f_' if fuzzer else '') + 'lib_' + os.path.basename(s)[:-4] + '.o')
        objs.append(o)
        libjobs.append((compile_cmd(s, o), s))
    log = []
    compile_many(jobs + libjobs, log)
    exe = os.path.join(bdir, 'fuzzer' if fuzzer else 'harness')
    link = [cxx] + flags + objs + ['-o', exe] + cfg.get('link', []) + ['-lpthread']
    if fuzzer:
        link.insert(1, '-fsanitize=fuzzer')
    r = sh(link)
    if r.returncode:
        raise BuildError('link failed\n' + r.stdout[-6000:])
    return exe


def known_findings(pid):
    """Lines: 'finding: property=<id> arm=<regex> key=<regex> :: <text>' (regexes match whole strings)."""
    out = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'finding: property=(\S+) arm=(\S+) key=(\S+) :: (.*)', line.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3), m.group(4)))
    return out


def main():
    pid = sys.argv[1]
    cfg = dict(CHECKS[pid])
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    t0 = time.time()
    bdir = os.path.join(VERIF, 'build', pid)
    shutil.rmtree(bdir, ignore_errors=True)
    os.makedirs(bdir)
    rdir = os.path.join(VERIF, 'replays', pid)
    if len(sys.argv) <= 3:
        shutil.rmtree(rdir, ignore_errors=True)
    os.makedirs(rdir, exist_ok=True)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='verif-%s-' % pid)
    os.chmod(tmp, 0o700)
    violations = []  # (arm, key, message, replay path)
    result = None
    extra = {}
    try:
        ctx = type('Ctx', (), dict(seed=seed, tier=tier, bdir=bdir, tmp=tmp, rdir=rdir, REPO=REPO, VERIF=VERIF, H=H,
                                   sh=staticmethod(sh), BASE_FLAGS=BASE_FLAGS, SAN=SAN, cfg=cfg,
                                   build=staticmethod(build), BuildError=BuildError,
                                   replay=sys.argv[3] if len(sys.argv) > 3 else None))
        if 'runner' in cfg:
            mod = importlib.import_module(cfg['runner'])
            if ctx.replay:
                return mod.replay(ctx)
            result = mod.run(ctx)
            exe = None
        else:
            try:
                if 'gen' in cfg:
                    importlib.import_module(cfg['gen']).generate(ctx)
                exe = build(cfg, bdir)
            except BuildError as e:
                # The library itself must compile with what build.sh builds; if it does not, this is not for us to
                # judge. If it does, an API or instantiation the property needs no longer compiles.
                path = os.path.join(rdir, 'build.log')
                open(path, 'w').write(str(e))
                r = sh(['bash', '-c', 'for f in %s; do g++ -std=c++17 -fno-rtti -I%s/src -fsyntax-only $f || exit 1; done'
                        % (' '.join(lib_sources('core')), REPO)])
                if r.returncode:
                    print('library does not compile\n' + r.stdout[-3000:])
                    return 2
                print(str(e)[-3000:])
                violations.append(('build', 'does-not-compile', 'the harness no longer compiles against the library', path))
                result = dict(evaluations=0, nontrivial=0, distinct_nontrivial=0, checks=0, arms={}, labels={},
                              samples=['build failed'], failures=[])
                exe = None
            t_build = time.time() - t0
            extra['build_s'] = round(t_build, 1)
            if exe and ctx.replay:
                r = sh([exe, '--tmp', tmp, '--replay', ctx.replay])
                print(r.stdout)
                return r.returncode
            if exe:
                out = os.path.join(bdir, 'out.json')
                cmd = [exe, '--seed', str(seed), '--tier', tier, '--out', out, '--tmp', tmp]
                if tier == 'quick':
                    cmd += ['--max-s', str(cfg.get('max_s', 240))]
                else:
                    cmd += ['--max-s', str(cfg.get('max_s_thorough', 1800))]
                r = sh(cmd)
                if r.returncode not in (0, 1) or not os.path.exists(out):
                    print('harness failed, exit %d\n%s' % (r.returncode, r.stdout[-4000:]))
                    return 2
                result = json.load(open(out))
                if tier == 'thorough' and cfg.get('fuzz_arms'):
                    import fuzzrun
                    fuzzrun.run(ctx, cfg, exe, result, extra)
        known = known_findings(pid)
        seen_known = {}
        for i, f in enumerate(result['failures']):
            hit = None
            for a, k, text in known:
                if re.fullmatch(a, f['arm']) and re.fullmatch(k, f['key']):
                    hit = text
                    break
            if hit is not None:
                seen_known[hit] = seen_known.get(hit, 0) + f.get('count', 1)
                continue
            # Replay three times before believing it.
            path = os.path.join(rdir, '%s-%d%s' % (re.sub(r'\W+', '_', f['arm']), i, os.path.splitext(f['replay'])[1]))
            if os.path.abspath(f['replay']) != path:
                shutil.copy(f['replay'], path)
            ok = 0
            if 'runner' in cfg:
                ok = 3
            else:
                for _ in range(3):
                    r = sh([exe, '--tmp', tmp, '--replay', path])
                    if r.returncode == 1:
                        ok += 1
            if ok == 3:
                violations.append((f['arm'], f['key'], f['message'], path))
            else:
                extra.setdefault('unconfirmed', []).append({'arm': f['arm'], 'key': f['key'], 'replays_failing': ok,
                                                            'message': f['message'][:500]})
        for a, k, text in known:
            n = seen_known.get(text)
            if n or cfg.get('announce_known', True):
                print('KNOWN-FINDING: property=%s %s%s' % (pid, text, ' (%d cases)' % n if n else ''))
        cov = {
            'evaluations': result['evaluations'], 'distinct_nontrivial': result['distinct_nontrivial'],
            'rule': cfg['rule'], 'samples': result['samples'][:8], 'nontrivial': result['nontrivial'],
            'oracle_comparisons': result['checks'], 'arms': result.get('arms', {}), 'classes': result.get('labels', {}),
            'known_finding_cases': seen_known}
        cov.update(extra)
        ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': cfg.get('level', 'exploration'), 'coverage': cov,
              'assumptions': cfg.get('assumptions', []), 'wall_s': round(time.time() - t0, 1),
              'violations': len(violations)}
        with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as fo:
            json.dump(ev, fo, indent=1)
        print('%s: %d cases, %d non-trivial (%d distinct), %d comparisons, %.0f s'
              % (pid, cov['evaluations'], cov['nontrivial'], cov['distinct_nontrivial'], cov['oracle_comparisons'],
                 ev['wall_s']))
        if extra.get('unconfirmed'):
            print('unconfirmed (did not fail on all three replays):', json.dumps(extra['unconfirmed'])[:2000])
        for arm, key, msg, path in violations:
            print('  %s/%s: %s' % (arm, key, msg[:600].replace('\n', '\n    ')))
            print('VIOLATION property=%s replay=%s' % (pid, path))
        if not violations and result['evaluations'] == 0:
            print('nothing was explored')
            return 2
        return 1 if violations else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
        if not os.environ.get('VERIF_KEEP'):
            shutil.rmtree(bdir, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())

"""Runner for properties over programs: generated C++ cases, each with the
result an independent model predicts, compiled against the library and run.

A property module provides
  PRELUDE           C++ text before the cases
  cases(rng, tier)  list of Case
  shrinks(case)     smaller cases of the same kind (optional)
"""
import collections, concurrent.futures, importlib, json, os, random, subprocess, time


class Case:
    """op: kind of case (the failure key); args: what it was made from; code: statements that return a std::string;
    want: the string it must return; decls: declarations at namespace scope; nontrivial: by the property's rule."""

    def __init__(self, op, args, code, want, decls='', nontrivial=True, size=0, desc=None, pre='', post=''):
        self.op, self.args, self.code, self.want, self.decls = op, args, code, want, decls
        self.pre = pre    # text at global scope
        self.post = post  # the same, after it; NS is the namespace of the case
        self.nontrivial, self.size, self.desc = nontrivial, size, desc or '%s %s' % (op, args)

    def text(self, i):
        return '%s\nnamespace c%d {\n%s\nstd::string run() {\n%s\n}\n}\n%s\nstatic Reg r%d(%d, c%d::run);\n' % (
            self.pre, i, self.decls, self.code, self.post.replace('NS', 'c%d' % i), i, i, i)


COMMON = '''
#include <cstdio>
#include <exception>
#include <string>
#include <vector>
struct Entry { int id; std::string (*f)(); };
inline std::vector<Entry>& entries() { static std::vector<Entry> v; return v; }
struct Reg { Reg(int id, std::string (*f)()) { entries().push_back({id, f}); } };
'''
MAIN = COMMON + '''
#include <cstdlib>
int main(int argc, char** argv) {
  int from = argc > 1 ? std::atoi(argv[1]) : 0;
  std::size_t k = 0;
  for (auto& e : entries()) {
    if (static_cast<int>(k++) < from) continue;
    std::printf("@%d ", e.id);
    std::fflush(stdout);
    std::string s;
    try { s = e.f(); } catch (const std::exception& x) { s = std::string("exception ") + x.what(); }
    for (unsigned char c : s) std::printf("%02x", c);
    std::printf("\\n");
    std::fflush(stdout);
  }
}
'''


class Builder:
    def __init__(self, ctx, mod):
        self.ctx, self.mod, self.n = ctx, mod, 0
        self.flags = [f for f in ctx.BASE_FLAGS if f != '-g1'] + ['-O0', '-fmax-errors=3'] + getattr(mod, 'FLAGS', [])
        self.libs = []

    def path(self, suffix):
        self.n += 1
        return os.path.join(self.ctx.bdir, 'g%d%s' % (self.n, suffix))

    def obj(self, text, cxx='g++'):
        s, o = self.path('.cpp'), self.path('.o')
        open(s, 'w').write(text)
        flags = [f for f in self.flags if not f.startswith('-fmax-err')] if cxx != 'g++' else self.flags
        r = self.ctx.sh([cxx] + flags + ['-c', s, '-o', o])
        return (o if r.returncode == 0 else None), r.stdout

    def lib(self):
        if getattr(self.mod, 'LIB', False) and not self.libs:
            import check
            srcs = check.lib_sources('core')
            outs = [self.path('.o') for _ in srcs]
            with concurrent.futures.ThreadPoolExecutor(8) as ex:
                rs = list(ex.map(lambda p: self.ctx.sh(['g++'] + self.flags + ['-c', p[0], '-o', p[1]]),
                                 zip(srcs, outs)))
            bad = [r.stdout for r in rs if r.returncode]
            if bad:
                raise RuntimeError('the library does not compile\n' + bad[0][-3000:])
            self.libs = outs
        return self.libs

    def link_run(self, objs):
        """-> {id: string}, with 'CRASH ...' for cases that ended the program."""
        if not hasattr(self, 'main'):
            self.main = self.obj(MAIN)[0]
        exe = self.path('.exe')
        r = self.ctx.sh(['g++'] + self.flags + [self.main] + objs + self.lib() + ['-o', exe, '-lpthread'])
        if r.returncode:
            return None, r.stdout
        out, start = {}, 0
        for _ in range(50):
            try:
                r = subprocess.run([exe, str(start)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60,
                                   cwd=self.ctx.tmp)
                rc = r.returncode
                text = r.stdout.decode(errors='replace')
            except subprocess.TimeoutExpired as e:
                rc, text = 'timeout', (e.stdout or b'').decode(errors='replace')
            done = 0
            for line in text.split('\n'):
                if not line.startswith('@'):
                    continue
                i, _, h = line[1:].partition(' ')
                done += 1
                out[int(i)] = bytes.fromhex(h).decode(errors='replace')
                last = int(i)
            if rc == 0:
                break
            if done == 0:
                return None, 'the program ends with %s' % rc
            out[last] = 'CRASH %s' % rc
            start += done
        return out, ''

    def tu(self, cases):
        """cases: list of (id, case)."""
        return COMMON + self.mod.PRELUDE + ''.join(c.text(i) for i, c in cases)

    def single(self, case):
        """-> (key, message) or None if the case holds."""
        for cxx in ('g++', 'clang++') if getattr(self.mod, 'CLANG', False) else ('g++',):
            o, log = self.obj(self.tu([(0, case)]), cxx)
            if not o:
                return 'does-not-compile:' + case.op, cxx + ': ' + log[:1500]
            out, log = self.link_run([o])
            if out is None:
                return 'does-not-link:' + case.op, cxx + ': ' + log[-1500:]
            if out.get(0) != case.want:
                return case.op, '%s\nexpected: %s\ngot:      %s' % (cxx, case.want, out.get(0))
        return None


def run(ctx):
    mod = importlib.import_module(ctx.cfg['gen_module'])
    b = Builder(ctx, mod)
    b.lib()
    rng = random.Random('%s-%s-%s' % (ctx.cfg['gen_module'], ctx.seed, ctx.tier))
    cases = mod.cases(rng, ctx.tier)
    per = getattr(mod, 'PER_TU', 40)
    order = list(enumerate(cases))
    some = [x for x in order if not getattr(x[1], 'alone', False)]
    tus = [some[i:i + per] for i in range(0, len(some), per)] + [[x] for x in order if getattr(x[1], 'alone', False)]
    every = getattr(mod, 'CLANG_EVERY', 3)
    failures = []  # (case, key, message)
    results = {}

    def do(tu):
        # One file in three with the other compiler.
        cxx = 'clang++' if getattr(mod, 'CLANG', False) and tu[0][0] // per % every == 2 else 'g++'
        if len(tu) == 1 and cxx == 'g++' and getattr(mod, 'CLANG', False):
            # On its own because its file failed with one of them.
            o, log = b.obj(b.tu(tu), 'clang++')
            if not o:
                return tu, o, log
        o, log = b.obj(b.tu(tu), cxx)
        return tu, o, log
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        done = list(ex.map(do, tus))
        good = [o for _, o, _ in done if o]
        # A file that does not compile: its cases one by one.
        singles = sorted(((i, c) for tu, o, _ in done if not o for i, c in tu), key=lambda x: x[1].size)
        for i, c in singles[320:]:
            results[i] = None
        singles = singles[:320]
        for (i, c), (tu, o, log) in zip(singles, ex.map(do, [[x] for x in singles])):
            if o:
                good.append(o)
            else:
                failures.append((c, 'does-not-compile:' + c.op, log[:1500]))
                results[i] = None
    out, log = b.link_run(good)
    if out is None:
        # Link each on its own.
        for tu, o, _ in done:
            if len(failures) > 20:
                results.update((i, None) for i, _ in tu)
                continue
            if o:
                out1, log1 = b.link_run([o])
                if out1 is None:
                    for i, c in tu:
                        f = b.single(c)
                        results[i] = None
                        if f:
                            failures.append((c, f[0], f[1]))
                else:
                    results.update(out1)
    else:
        results.update(out)
    for i, c in order:
        if i not in results:
            failures.append((c, 'no-result:' + c.op, 'the case was not reached'))
        elif results[i] is not None and results[i] != c.want:
            failures.append((c, c.op, 'expected: %s\ngot:      %s' % (c.want, results[i])))
    # The smallest case of each kind of failure, made smaller while it fails.
    by_key = collections.OrderedDict()
    for c, k, m in sorted(failures, key=lambda f: f[0].size):
        by_key.setdefault(k, []).append((c, m))
    found = []
    t0 = time.time()
    for k, fs in by_key.items():
        c, m = fs[0]
        tries = 0
        if hasattr(mod, 'shrinks'):
            again = True
            while again and tries < 40 and time.time() - t0 < 120:
                again = False
                cand = mod.shrinks(c)[:8]
                with concurrent.futures.ThreadPoolExecutor(8) as ex:
                    for x, f in zip(cand, ex.map(b.single, cand)):
                        tries += 1
                        if f and f[0] == k and not again:
                            c, m, again = x, f[1], True
        p = os.path.join(ctx.tmp, 'prog-%d.json' % len(found))
        json.dump({'arm': ctx.cfg['gen_module'], 'key': k, 'op': c.op, 'case': c.desc, 'code': c.code,
                   'decls': c.decls, 'pre': c.pre, 'post': c.post, 'want': c.want, 'message': m, 'program': b.tu([(0, c)])}, open(p, 'w'), indent=1)
        found.append(dict(arm=c.op, key=k, message='%s\n%s' % (c.desc, m), replay=p, count=len(fs)))
    arms = collections.OrderedDict()
    for c in cases:
        a = arms.setdefault(c.op, {'evaluations': 0, 'nontrivial': 0})
        a['evaluations'] += 1
        a['nontrivial'] += bool(c.nontrivial)
    distinct = len({(c.code, c.decls) for c in cases if c.nontrivial})
    step = max(1, len(cases) // 8)
    return dict(evaluations=len(cases), nontrivial=sum(bool(c.nontrivial) for c in cases), distinct_nontrivial=distinct,
                checks=len(results), arms=arms, labels=getattr(mod, 'LABELS', {}),
                samples=[c.desc[:300] for c in cases[::step]][:8], failures=found)


def replay(ctx):
    mod = importlib.import_module(ctx.cfg['gen_module'])
    d = json.load(open(ctx.replay))
    f = Builder(ctx, mod).single(Case(d['op'], None, d['code'], d['want'], d['decls'], desc=d['case'], pre=d.get('pre', ''), post=d.get('post', '')))
    if f:
        print('REPLAY fails key=%s\n%s\n%s' % (f[0], d['case'], f[1]))
        return 1
    print('REPLAY ok')
    return 0

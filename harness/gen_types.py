"""Random universes of serializable types.

A type is a tuple (AST). The universe produces C++ declarations for the user
classes and enums, model specializations for them, and a list of types with
equivalent variants (same wire structure, different containers or class kinds).
Everything is a function of the seed.
"""
import random

INTS = [('std::int8_t', 1, 1), ('std::uint8_t', 0, 1), ('std::int16_t', 1, 2), ('std::uint16_t', 0, 2),
        ('std::int32_t', 1, 4), ('std::uint32_t', 0, 4), ('std::int64_t', 1, 8), ('std::uint64_t', 0, 8),
        ('signed char', 1, 1), ('unsigned char', 0, 1), ('long long', 1, 8), ('unsigned long', 0, 8),
        ('wchar_t', 1, 4), ('char16_t', 0, 2), ('char32_t', 0, 4), ('short', 1, 2), ('unsigned', 0, 4)]
RATIOS = [(1, 1), (1, 1000), (1, 1000000), (1, 1000000000), (60, 1), (3600, 1), (1, 3), (7, 2)]


class Universe:
    def __init__(self, seed, shared=True, recursive=False):
        self.r = random.Random(seed)
        self.decls = []    # C++ text
        self.models = []   # model specializations
        self.n = 0
        self.shared = shared
        self.memo = {}

    def name(self, p):
        self.n += 1
        return '%s%d' % (p, self.n)

    # ---- generation -------------------------------------------------
    def scalar(self, key=False, hashable=False):
        r = self.r
        k = r.choice(['bool', 'char', 'int', 'int', 'int', 'int', 'enum'] + ([] if key else ['float']))
        if k == 'bool':
            return ('bool',)
        if k == 'char':
            return ('char',)
        if k == 'float':
            return ('float', r.choice([4, 8]))
        i = r.choice(INTS)
        if k == 'int':
            return ('int',) + i
        i = r.choice(INTS[:8])
        n = self.name('E')
        self.decls.append('enum %s %s : %s { %s_a, %s_b = 5 };' % (r.choice(['class', '']), n, i[0], n, n))
        return ('enum', n) + i

    def string(self):
        r = self.r
        if r.random() < 0.15:
            t = r.choice([('int', 'char16_t', 0, 2), ('int', 'char32_t', 0, 4)])
            return ('seq', 'str', t)
        return ('seq', 'str', ('char',))

    def key(self, hashable=False, depth=0):
        r = self.r
        x = r.random()
        if hashable:
            return self.string() if x < 0.3 else self.scalar(True)
        if x < 0.45 or depth > 1:
            return self.scalar(True)
        if x < 0.7:
            return self.string()
        if x < 0.8:
            return ('pair', self.key(False, depth + 1), self.key(False, depth + 1))
        if x < 0.9:
            return ('tuple',) + tuple(self.key(False, depth + 1) for _ in range(r.randint(1, 3)))
        return ('seq', 'vector', self.key(False, depth + 1))

    def type(self, depth, agg=False, nocopy_ok=True, noshared=False):
        """agg: must be a standard layout class (field of an aggregate)."""
        r = self.r
        for _ in range(200):
            t = self._type(depth, agg, nocopy_ok, noshared)
            if agg and not self.std_layout(t):
                continue
            if not nocopy_ok and self.move_only(t):
                continue
            if noshared and self.has_shared(t):
                continue
            return t
        return self.scalar()

    def _type(self, depth, agg, nocopy_ok, noshared):
        r = self.r
        if depth <= 0:
            return self.string() if r.random() < 0.25 else self.scalar()
        sub = lambda **k: self.type(depth - 1, nocopy_ok=nocopy_ok, noshared=k.pop('ns', noshared), **k)
        k = r.choice(['scalar', 'str', 'seq', 'seq', 'set', 'map', 'array', 'pair', 'tuple', 'opt', 'uptr', 'sptr', 'wptr',
                      'dur', 'tp', 'agg', 'agg', 'cls', 'cls', 'cls'])
        if k == 'scalar':
            return self.scalar()
        if k == 'str':
            return self.string()
        if k == 'seq':
            t = self.nonempty(lambda: sub())
            return ('seq', r.choice(['vector', 'vector', 'deque', 'list']), t)
        if k == 'set':
            f = r.choice(['std', 'std', 'flat', 'flat', 'unordered'])
            return ('set', f, r.random() < 0.4, self.key(f == 'unordered'))
        if k == 'map':
            f = r.choice(['std', 'std', 'flat', 'flat', 'unordered'])
            multi = r.random() < 0.4
            return ('map', f, multi, self.key(f == 'unordered'),
                    sub(ns=noshared or f == 'unordered' or multi))
        if k == 'array':
            return ('array', 'std', r.choice([1, 2, 3, 5]), sub())
        if k == 'pair':
            return ('pair', sub(), sub())
        if k == 'tuple':
            return ('tuple',) + tuple(sub() for _ in range(r.choice([0, 1, 2, 3, 5])))
        if k == 'opt':
            return ('opt', sub())
        if k == 'uptr':
            return ('uptr', sub())
        if k in ('sptr', 'wptr'):
            return (k, sub()) if self.shared else self.scalar()
        if k == 'dur':
            return ('dur', r.choice(['std::int64_t', 'std::int32_t']), r.choice(RATIOS))
        if k == 'tp':
            return ('tp', ('dur', 'std::int64_t', r.choice(RATIOS)))
        if k == 'agg':
            n = r.choice([0, 1, 2, 2, 3, 4, 7, 13, 32]) if r.random() < 0.7 else 2
            fs = [self.type(depth - 1 if n < 7 else 0, agg=True, nocopy_ok=nocopy_ok, noshared=noshared) for _ in range(n)]
            return self.make_agg(fs)
        nb = r.choice([0, 0, 0, 1, 2])
        bases = []
        for _ in range(nb):
            for _ in range(50):
                b = self.make_cls([], [sub() for _ in range(r.randint(0, 2))],
                                  [self.scalar()] if r.random() < 0.3 else [])
                bases.append(b)
                break
        nf = r.choice([0, 1, 2, 2, 3, 5])
        fs = [sub() for _ in range(nf)]
        if r.random() < 0.25:
            i = r.randrange(len(fs) + 1)
            fs.insert(i, ('array', 'c', r.choice([1, 3, 4]), sub()))
        cs = [sub() for _ in range(r.randint(0, 2))] if r.random() < 0.35 else None
        if cs is None and not fs and not bases:
            fs = [self.scalar()]
        return self.make_cls(bases, fs, cs)

    def nonempty(self, f):
        for _ in range(100):
            t = f()
            if self.min_size(t) > 0:
                return t
        return self.scalar()

    # ---- user classes -----------------------------------------------
    def make_agg(self, fs):
        n = self.name('A')
        body = ' '.join('%s f%d;' % (self.cpp(f), i) for i, f in enumerate(fs))
        self.decls.append('struct %s { %s };' % (n, body))
        self.models.append('template <> struct M<u::%s> : ClassM<u::%s, Bases<>, Ptrs<%s>> {};'
                           % (n, n, ', '.join('&u::%s::f%d' % (n, i) for i in range(len(fs)))))
        return ('agg', n, tuple(fs))

    def make_cls(self, bases, fs, cs, version=None):
        """cs: None (no custom serialization) or the types saved by hand."""
        r = self.r
        n = self.name('C')
        out = ['struct %s : arpc::serializable<%s> {' % (n, ', '.join([n] + [b[1] for b in bases]))]
        # `unused` members are not declared to the library and not part of the wire form.
        for i, f in enumerate(fs):
            out.append('  ' + self.member(f, n.lower() + 'f%d' % i))
        if cs:
            for i, f in enumerate(cs):
                out.append('  ' + self.member(f, n.lower() + 'x%d' % i))
        if fs or cs is None:
            out.append('  ARPC_FIELDS(%s)' % ', '.join(n.lower() + 'f%d' % i for i in range(len(fs))))
        ver = None
        if cs is not None:
            ver = version or r.randint(1, 9)
            out.append('  ARPC_CUSTOM_SERIALIZATION_VERSION(%d);' % ver)
            out.append('  template <typename S> void save(S& s) const { %s }'
                       % ' '.join('s(%sx%d);' % (n.lower(), i) for i in range(len(cs))))
            out.append('  template <typename S> void load(S& s) { %s }'
                       % ' '.join('s(%sx%d);' % (n.lower(), i) for i in range(len(cs))))
        out.append('};')
        self.decls.append('\n'.join(out))
        ps = ['&u::%s::%sf%d' % (n, n.lower(), i) for i in range(len(fs))]
        ps += ['&u::%s::%sx%d' % (n, n.lower(), i) for i in range(len(cs or []))]
        self.models.append('template <> struct M<u::%s> : ClassM<u::%s, Bases<%s>, Ptrs<%s>> {};'
                           % (n, n, ', '.join('u::' + b[1] for b in bases), ', '.join(ps)))
        return ('cls', n, tuple(bases), tuple(fs), None if cs is None else tuple(cs))

    def member(self, t, name):
        if t[0] == 'array' and t[1] == 'c':
            return '%s %s[%d];' % (self.cpp(t[3]), name, t[2])
        return '%s %s;' % (self.cpp(t), name)

    # ---- properties of types ----------------------------------------
    def parts(self, t):
        k = t[0]
        if k in ('seq',):
            return [t[2]]
        if k == 'set':
            return [t[3]]
        if k == 'map':
            return [t[3], t[4]]
        if k == 'array':
            return [t[3]]
        if k in ('pair', 'tuple'):
            return list(t[1:])
        if k in ('opt', 'uptr', 'sptr', 'wptr', 'tp'):
            return [t[1]]
        if k == 'agg':
            return list(t[2])
        if k == 'cls':
            return list(t[2]) + list(t[3]) + list(t[4] or ())
        return []

    def std_layout(self, t):
        k = t[0]
        if k in ('bool', 'char', 'int', 'float', 'enum', 'dur', 'tp'):
            return True
        if k == 'seq':
            return t[1] in ('vector', 'deque', 'str')
        if k in ('set', 'map'):
            return t[1] == 'unordered'
        if k == 'array':
            return t[1] == 'std' and self.std_layout(t[3])
        if k == 'pair':
            return self.std_layout(t[1]) and self.std_layout(t[2])
        if k == 'tuple':
            return len(t) == 1 or (len(t) == 2 and self.std_layout(t[1]))
        if k == 'opt':
            return self.std_layout(t[1])
        if k in ('uptr', 'sptr', 'wptr'):
            return True
        if k == 'agg':
            return True
        return False  # classes derive from the mixin

    def move_only(self, t):
        if t[0] == 'uptr':
            return True
        if t[0] in ('sptr', 'wptr'):
            return False
        return any(self.move_only(p) for p in self.parts(t))

    def has_shared(self, t):
        return t[0] in ('sptr', 'wptr') or any(self.has_shared(p) for p in self.parts(t))

    def min_size(self, t):
        k = t[0]
        if k in ('array',):
            return t[2] * self.min_size(t[3])
        if k in ('pair', 'tuple', 'agg', 'cls'):
            return sum(self.min_size(p) for p in self.parts(t))
        return 1

    def unordered(self, t):
        # The order of equal keys in a flat multimap is unspecified as well.
        return (t[0] in ('set', 'map') and t[1] == 'unordered') or (t[:3] == ('map', 'flat', True)) or any(self.unordered(p) for p in self.parts(t))

    def c_array(self, t):
        return t[0] == 'array' and t[1] == 'c'

    def cpp(self, t, ns=''):
        k = t[0]
        if k == 'bool':
            return 'bool'
        if k == 'char':
            return 'char'
        if k == 'int':
            return t[1]
        if k == 'float':
            return 'float' if t[1] == 4 else 'double'
        if k in ('enum', 'agg', 'cls'):
            return ns + t[1]
        c = lambda x: self.cpp(x, ns)
        if k == 'seq':
            if t[1] == 'str':
                return 'std::string' if t[2] == ('char',) else 'std::basic_string<%s>' % c(t[2])
            return 'std::%s<%s>' % (t[1], c(t[2]))
        if k in ('set', 'map'):
            m = 'multi' if t[2] else ''
            a = ', '.join(c(x) for x in t[3:])
            pre = {'std': 'std::', 'flat': 'arpc::flat_', 'unordered': 'std::unordered_'}[t[1]]
            return '%s%s%s<%s>' % (pre, m, k, a)
        if k == 'array':
            return 'std::array<%s, %d>' % (c(t[3]), t[2]) if t[1] == 'std' else '%s[%d]' % (c(t[3]), t[2])
        if k == 'pair':
            return 'std::pair<%s, %s>' % (c(t[1]), c(t[2]))
        if k == 'tuple':
            return 'std::tuple<%s>' % ', '.join(c(x) for x in t[1:])
        if k == 'opt':
            return 'std::optional<%s>' % c(t[1])
        if k == 'uptr':
            return 'std::unique_ptr<%s>' % c(t[1])
        if k == 'sptr':
            return 'std::shared_ptr<%s>' % c(t[1])
        if k == 'wptr':
            return 'std::weak_ptr<%s>' % c(t[1])
        if k == 'dur':
            return 'std::chrono::duration<%s, std::ratio<%d, %d>>' % (t[1], t[2][0], t[2][1])
        if k == 'tp':
            return 'std::chrono::time_point<std::chrono::system_clock, %s>' % c(t[1])
        raise ValueError(t)

    # ---- equivalent types -------------------------------------------
    def variant(self, t, key=False, agg=False, hashable=False):
        """A different type with the same structure (and, without unordered containers, the same bytes)."""
        r = self.r
        k = t[0]
        v = lambda x, **kw: self.variant(x, **kw)
        if k == 'seq':
            if hashable or (key and t[1] == 'str') or (key and t[2] == ('char',)):
                return t  # strings and vectors of characters order differently
            e = v(t[2], key=key)
            kinds = ['vector', 'deque'] + ([] if agg else ['list'])
            if t[2][0] in ('char',) or t[1] == 'str':
                kinds.append('str')
            kd = r.choice(kinds)
            return ('seq', kd, t[2] if kd == 'str' else e)
        if k == 'set':
            if t[1] == 'unordered':
                if agg:
                    return t
                return ('set', r.choice(['std', 'flat', 'unordered']), t[2], t[3])
            if agg:
                return t
            return ('set', r.choice(['std', 'flat']), t[2], v(t[3], key=True))
        if k == 'map':
            if t[1] == 'unordered':
                if agg:
                    return t[:4] + (v(t[4]),)
                return ('map', r.choice(['std', 'flat', 'unordered']), t[2], t[3], v(t[4]))
            if agg:
                return t
            return ('map', r.choice(['std', 'flat']), t[2], v(t[3], key=True), v(t[4]))
        if k == 'array':
            return ('array', t[1], t[2], v(t[3], agg=agg, key=key))
        if k == 'pair' or k == 'tuple' or k == 'agg':
            if hashable:
                return t
            ps = self.parts(t)
            opts = ['tuple'] if not agg else []
            if len(ps) == 2:
                opts.append('pair')
            if not key and len(ps) <= 32 and all(self.std_layout(p) for p in ps):
                opts.append('agg')
            if not opts:
                return t
            o = r.choice(opts)
            if o == 'agg':
                return self.make_agg([v(p, agg=True) for p in ps])
            return (o,) + tuple(v(p, agg=agg, key=key) for p in ps)
        if k in ('opt', 'uptr'):
            return (k, v(t[1], agg=agg and k == 'opt', key=key))
        if k in ('sptr', 'wptr'):
            return t
        if k == 'cls':
            return self.make_cls([v(b) if b[0] == 'cls' else b for b in t[2]],
                                 [f if self.c_array(f) else v(f) for f in t[3]],
                                 None if t[4] is None else [v(f) for f in t[4]], version=1)
        return t

    def size_of(self, t):
        return 1 + sum(self.size_of(p) for p in self.parts(t))

    def kinds(self, t, acc):
        acc.add(t[0] + (':' + t[1] if t[0] in ('seq', 'set', 'map', 'array') else ''))
        for p in self.parts(t):
            self.kinds(p, acc)
        return acc


def universe(seed, count, **kw):
    """[(type, variant)] covering every kind at least once."""
    u = Universe(seed, **kw)
    out = []
    seen = set()
    # Small types of every kind first, then random ones.
    fixed = [('bool',), ('char',), ('float', 4), ('float', 8)] + [('int',) + i for i in INTS]
    fixed += [('seq', 'str', ('char',)), ('seq', 'vector', ('bool',)), ('seq', 'vector', ('int', 'std::uint8_t', 0, 1)),
              ('seq', 'vector', ('int', 'std::int32_t', 1, 4)), ('seq', 'deque', ('int', 'std::uint16_t', 0, 2)),
              ('seq', 'list', ('seq', 'str', ('char',))), ('array', 'std', 4, ('bool',)),
              ('array', 'std', 3, ('int', 'std::int64_t', 1, 8)), ('seq', 'vector', ('seq', 'vector', ('bool',)))]
    i8, u16, i32, u64 = [('int',) + INTS[i] for i in (0, 3, 4, 7)]
    st, bl, f8 = ('seq', 'str', ('char',)), ('bool',), ('float', 8)
    vi = ('seq', 'vector', i32)
    for k, f in (('set', 'std'), ('set', 'flat'), ('set', 'unordered'), ('map', 'std'), ('map', 'flat'), ('map', 'unordered')):
        for multi in (False, True):
            fixed.append((k, f, multi, st) if k == 'set' else (k, f, multi, u16, st))
    fixed.append(('map', 'std', False, ('pair', u16, st), ('seq', 'list', f8)))
    fixed.append(('map', 'flat', False, ('tuple', i8, bl), ('uptr', vi)))
    custom = u.make_cls([], [i32], [st])
    only_custom = u.make_cls([], [], [vi, ('opt', bl)])
    two = u.make_cls([], [i8, st], None)
    fixed += [two, custom, only_custom,
              u.make_cls([custom], [u16], None),             # custom code of the base only
              u.make_cls([custom], [], None),
              u.make_cls([custom], [u16], [f8]),
              u.make_cls([u.make_cls([], [bl], None), u.make_cls([], [i32], [i8])], [('array', 'c', 3, u16)], None),
              u.make_cls([u.make_cls([u.make_cls([], [st], None)], [u64], None)], [vi], [bl]),
              u.make_cls([u.make_agg([i32, st])], [u16], None),
              u.make_cls([], [('array', 'c', 2, st), ('array', 'c', 4, ('array', 'c', 2, i8)) if False else ('array', 'c', 4, bl)], None),
              u.make_cls([], [], [('array', 'c', 3, u64)]),
              u.make_agg([i8] * 32), u.make_agg([]), u.make_agg([st]), u.make_agg([u.make_agg([i32, st]), u.make_agg([]), f8, bl]),
              u.make_agg([('opt', st), ('uptr', i32), ('seq', 'vector', st), ('pair', bl, u64), ('array', 'std', 2, st)]),
              ('seq', 'vector', two), ('seq', 'deque', u.make_agg([i32, st])), ('seq', 'list', ('uptr', st)),
              ('array', 'std', 2, st), ('array', 'std', 2, two), ('opt', ('opt', i32)), ('opt', two), ('uptr', ('uptr', u16)),
              ('uptr', custom), ('pair', st, f8), ('tuple',), ('tuple', u64), ('tuple', i8, st, f8, bl, vi),
              ('tuple', ('dur', 'std::int64_t', (1, 1000)), ('dur', 'std::int32_t', (60, 1)), ('tp', ('dur', 'std::int64_t', (1, 1000000000)))),
              ('seq', 'vector', ('opt', ('dur', 'std::int32_t', (1, 3)))), ('seq', 'vector', ('float', 4)), ('seq', 'vector', f8)]
    if kw.get('shared', True):
        fixed += [('sptr', i32), ('seq', 'vector', ('sptr', st)), ('map', 'std', False, i32, ('sptr', two)),
                  ('tuple', ('sptr', st), ('wptr', st), ('wptr', i32), ('sptr', i32)), ('seq', 'deque', ('wptr', vi)),
                  ('sptr', ('sptr', u16)), ('uptr', ('seq', 'list', ('sptr', custom)))]
    for t in fixed:
        out.append((t, u.variant(t)))
    while len(out) < count:
        t = u.type(u.r.choice([1, 2, 2, 3]))
        if u.size_of(t) > 45:
            continue
        if u.size_of(t) < 3 and u.r.random() < 0.8:
            continue
        out.append((t, u.variant(t)))
    return u, out


def header(u):
    return '''// Generated by gen_types.py
#ifndef TYPES_GEN_H_
#define TYPES_GEN_H_
#include "arpc/binary_codecs.h"
#include "arpc/container/flat_map.h"
#include "arpc/container/flat_set.h"
#include "arpc/serializable.h"
#include "model.h"
namespace u {
%s
}
namespace model {
%s
}
#endif
''' % ('\n'.join(u.decls), '\n'.join(u.models))


def write(ctx, count, tus=8, verify=True, mutants=False, **kw):
    """Writes types.gen.h and the registration files into the build directory."""
    import os
    seed = ctx.seed if ctx.tier == 'quick' else ctx.seed + 1000003
    u, pairs = universe(seed, count, **kw)
    entries = []  # (type, variant index, group)
    index = {}

    def add(t, g):
        if t not in index:
            index[t] = len(entries)
            entries.append([t, -1, g])
        return index[t]
    for g, (t, v) in enumerate(pairs):
        i = add(t, g)
        j = add(v, g)
        entries[i][1] = j
    open(os.path.join(ctx.bdir, 'types.gen.h'), 'w').write(header(u))
    srcs = []
    # Spread by size.
    order = sorted(range(len(entries)), key=lambda i: -u.size_of(entries[i][0]))
    for k in range(tus):
        out = ['#include "types.gen.h"', '#include "ser.h"', 'void reg_types_%d(std::vector<ser::Ops>& v) {' % k]
        for i in order[k::tus]:
            t, var, g = entries[i]
            out.append('  v[%d] = ser::ops<%s, %s>("%s", %s, %s, %s, %d, %d);' % (
                i, u.cpp(t, 'u::'), str(verify).lower(), u.cpp(t), str(u.has_shared(t)).lower(),
                str(u.unordered(t)).lower(), str(u.move_only(t)).lower(), var, g))
        out.append('}')
        p = os.path.join(ctx.bdir, 'types%d.gen.cpp' % k)
        open(p, 'w').write('\n'.join(out) + '\n')
        srcs.append(p)
    out = ['#include "ser.h"'] + ['void reg_types_%d(std::vector<ser::Ops>&);' % k for k in range(tus)]
    out += ['namespace { struct Init { Init() { auto& v = ser::types(); v.resize(%d);' % len(entries)]
    out += ['reg_types_%d(v);' % k for k in range(tus)] + ['} } init; }']
    p = os.path.join(ctx.bdir, 'types_all.gen.cpp')
    open(p, 'w').write('\n'.join(out) + '\n')
    ctx.cfg['gen_src'] = srcs + [p]
    return u, entries


def generate(ctx):
    write(ctx, ctx.cfg.get('types', 90), **ctx.cfg.get('gen_opts', {}))


if __name__ == '__main__':
    import sys
    u, ts = universe(int(sys.argv[1]), int(sys.argv[2]))
    print(header(u))
    for t, v in ts:
        print('//', u.cpp(t), ' ~ ', u.cpp(v))

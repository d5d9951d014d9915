"""C07: structure hashes of generated types against a model of the hash."""
import copy
from genprog import Case

PRELUDE = r'''
#include <array>
#include <chrono>
#include <cstdint>
#include <deque>
#include <forward_list>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <ratio>
#include <set>
#include <string>
#include <string_view>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>
#include "arpc/container/flat_map.h"
#include "arpc/container/flat_set.h"
#include "arpc/serializable.h"
#include "arpc/type_hash.h"
template <typename T> constexpr arpc::traits::type_hash_t H = arpc::traits::type_hash_v<T>;
template <typename A, typename B> std::string differ() {
  constexpr bool d = H<A> != H<B>;
  return d ? "differ" : "same " + std::to_string(H<A>);
}
'''
M = 1 << 32
VOID, BOOLEAN, CHARACTER, INTEGER, FLOAT, ENUM, ARRAY, TUPLE, SEQUENCE, SET, MAP, OPTIONAL, DURATION, TIME_POINT, UNIQUE, SHARED, WEAK, \
    FUNCTION, CLASS, BASE, FIELD, CUSTOM, SEEN = range(23)


def leaf(f, s, n):
    return (f | (int(s) << 7) | (n << 8)) % M


def add(*a):
    h = 0
    for x in a:
        h = (h * 16777619 % M) ^ x
    return h


INTS = [('signed char', 1, 1), ('unsigned char', 0, 1), ('short', 1, 2), ('unsigned short', 0, 2), ('int', 1, 4), ('unsigned', 0, 4),
        ('long', 1, 8), ('unsigned long', 0, 8), ('long long', 1, 8), ('wchar_t', 1, 4), ('char16_t', 0, 2), ('char32_t', 0, 4)]
PERIODS = [(1, 1), (1, 1000), (1, 1000000), (1, 1000000000), (60, 1), (3600, 1), (1, 25), (86400, 1)]
SEQS = ['std::vector<%s>', 'std::deque<%s>', 'std::list<%s>', 'std::forward_list<%s>']


class U:
    """Types: tuples; 'cls' and 'agg' and 'enum' carry a unique number, for their names."""

    def __init__(self, r):
        self.r, self.n = r, 0

    def num(self):
        self.n += 1
        return self.n

    def scalar(self, key=False):
        r = self.r
        k = r.choice(['bool', 'char', 'int', 'int', 'int', 'enum'] + ([] if key else ['float', 'dur', 'tp']))
        if k in ('bool', 'char'):
            return (k,)
        if k == 'int':
            return ('int',) + r.choice(INTS)
        if k == 'enum':
            return ('enum', self.num()) + r.choice(INTS[:8])
        if k == 'float':
            return ('float',) + r.choice([('float ', 4), ('double', 8)])
        return (k,) + r.choice(PERIODS)

    def gen(self, d):
        r = self.r
        if d <= 0 or r.random() < 0.15:
            return ('seq', 'std::string', ('char',)) if r.random() < 0.15 else self.scalar()
        k = r.choice(['seq', 'seq', 'arr', 'tuple', 'tuple', 'tuple', 'map', 'set', 'opt', 'uptr', 'sptr', 'wptr', 'cls', 'cls', 'cls'])
        if k == 'seq':
            return ('seq', r.choice(SEQS), self.gen(d - 1))
        if k == 'arr':
            return ('arr', r.choice(['std', 'c']), r.choice([1, 2, 3, 4, 5, 16, 255, 256, 1000]), self.gen(d - 1))
        if k == 'tuple':
            n = r.choice([0, 1, 2, 2, 3, 4])
            return ('tuple', r.choice(['std::tuple', 'agg', 'std::pair'] if n == 2 else ['std::tuple', 'agg']), self.num(),
                    tuple(self.gen(d - 1) for _ in range(n)))
        if k == 'map':
            return ('map', r.choice(['std', 'flat', 'unordered']), r.random() < 0.3, self.key(), self.gen(d - 1))
        if k == 'set':
            return ('set', r.choice(['std', 'flat', 'unordered']), r.random() < 0.3, self.key())
        if k in ('opt', 'uptr', 'sptr', 'wptr'):
            return (k, self.gen(d - 1))
        nb = r.choice([0, 0, 0, 1, 1, 2])
        return ('cls', self.num(), r.choice([0, 0, 0, 1, 9]), tuple(self.cls(d - 1) for _ in range(nb)),
                tuple(self.gen(d - 1) for _ in range(r.choice([0, 1, 1, 2, 3, 4]))), r.random() < 0.15)

    def cls(self, d):
        r = self.r
        return ('cls', self.num(), r.choice([0, 0, 3]), (), tuple(self.gen(d - 1) for _ in range(r.choice([0, 1, 2]))), False)

    def key(self):
        return self.scalar(True) if self.r.random() < 0.7 else ('seq', 'std::string', ('char',))


def standard_layout(t):
    """Whether an aggregate with such an element still is one for the library."""
    k = t[0]
    if k == 'seq':
        return t[1] != 'std::list<%s>'
    if k in ('bool', 'char', 'int', 'float', 'enum', 'dur', 'tp'):
        return True
    if k == 'arr':
        return standard_layout(t[3])
    return False


def spell(t, decls, seen):
    """C++ spelling; declarations of user types are added in order."""
    k = t[0]
    S = lambda x: spell(x, decls, seen)
    if k in ('bool', 'char', 'void'):
        return k
    if k == 'int':
        return t[1]
    if k == 'float':
        return t[1]
    if k == 'enum':
        n = 'E%d' % t[1]
        if n not in seen:
            seen.add(n)
            decls.append('enum %s %s : %s { %s_v };' % ('class' if t[1] % 2 else '', n, t[2], n))
        return n
    if k == 'dur':
        return 'std::chrono::duration<%s, std::ratio<%d, %d>>' % (['long', 'int', 'short'][(t[1] + t[2]) % 3], t[1], t[2])
    if k == 'tp':
        return 'std::chrono::time_point<std::chrono::%s, std::chrono::duration<long, std::ratio<%d, %d>>>' % (
            'system_clock' if t[1] % 2 else 'steady_clock', t[1], t[2])
    if k == 'seq':
        return t[1] if t[1].startswith('std::string') else t[1] % S(t[2])
    if k == 'arr':
        e = S(t[3])
        if t[1] == 'std':
            return 'std::array<%s, %d>' % (e, t[2])
        n = 'Arr%d_%d' % (len(decls), t[2])
        decls.append('using %s = %s[%d];' % (n, e, t[2]))
        return n
    if k == 'map':
        p = 'arpc::flat_' if t[1] == 'flat' else 'std::unordered_' if t[1] == 'unordered' else 'std::'
        return '%s%smap<%s, %s>' % (p, 'multi' if t[2] else '', S(t[3]), S(t[4]))
    if k == 'set':
        p = 'arpc::flat_' if t[1] == 'flat' else 'std::unordered_' if t[1] == 'unordered' else 'std::'
        return '%s%sset<%s>' % (p, 'multi' if t[2] else '', S(t[3]))
    if k in ('opt', 'uptr', 'sptr', 'wptr'):
        return 'std::%s<%s>' % ({'opt': 'optional', 'uptr': 'unique_ptr', 'sptr': 'shared_ptr', 'wptr': 'weak_ptr'}[k], S(t[1]))
    if k == 'tuple':
        es = [S(x) for x in t[3]]
        if t[1] == 'agg' and all(standard_layout(x) for x in t[3]):
            n = 'A%d' % t[2]
            if n not in seen:
                seen.add(n)
                decls.append('struct %s {%s};' % (n, ''.join(' %s f%d;' % (e, i) for i, e in enumerate(es))))
            return n
        return '%s<%s>' % ('std::pair' if t[1] == 'std::pair' else 'std::tuple', ', '.join(es))
    if k == 'fn':
        return '%s(%s)%s' % (S(t[1]), ', '.join(S(x) for x in t[2]), ' const' if t[3] else '')
    if k == 'rec':
        return 'C%d' % t[1]
    assert k == 'cls', t
    n = 'C%d' % t[1]
    if n not in seen:
        seen.add(n)
        bs = [S(b) for b in t[3]]
        decls.append('struct %s;' % n)
        fs = [S(f) for f in t[4]]
        base = 'arpc::dynamic' if t[5] else 'arpc::serializable'
        s = 'struct %s : %s<%s> {\n' % (n, base, ', '.join([n] + bs))
        s += ''.join('  %s %s;\n' % (f, fname(t[1], i)) for i, f in enumerate(fs))
        s += '  ARPC_FIELDS(%s);\n' % ', '.join(fname(t[1], i) for i in range(len(fs)))
        if t[2]:
            s += '  ARPC_CUSTOM_SERIALIZATION_VERSION(%d); template <typename S> void save(S&) const {} template <typename S> void load(S&) {}\n' % t[2]
        decls.append(s + '};')
    return n


def fname(n, i):
    return ['f%d', 'g%d', 'name_%d'][n % 3] % (i + n % 5)


DYN = ('cls', 'dyn')


class Wrong(Exception):
    pass


def model(t, ident, path=()):
    """The hash. ident(t): name of the C++ type, so that a type within itself is recognized."""
    k = t[0]
    me = ident(t)
    if me in path:
        return leaf(SEEN, 0, path.index(me))
    q = path + (me,)
    if k == 'void':
        return leaf(VOID, 0, 0)
    if k == 'bool':
        return leaf(BOOLEAN, 0, 1)
    if k == 'char':
        return leaf(CHARACTER, 0, 1)
    if k == 'int':
        return leaf(INTEGER, t[2], t[3])
    if k == 'float':
        return leaf(FLOAT, 1, t[2])
    if k == 'enum':
        return leaf(ENUM, t[3], t[4])
    if k in ('dur', 'tp'):
        return leaf(DURATION if k == 'dur' else TIME_POINT, t[2] > t[1], abs(t[2] - t[1]))
    if k == 'seq':
        return add(leaf(SEQUENCE, 0, 0), model(t[2], ident))
    if k == 'arr':
        return add(leaf(ARRAY, 0, t[2]), model(t[3], ident))
    if k == 'map':
        return add(leaf(MAP, t[2], 0), model(('tuple', 'std::pair', 0, (t[3], t[4])), ident))
    if k == 'set':
        return add(leaf(SET, t[2], 0), model(t[3], ident))
    if k in ('opt', 'uptr', 'sptr', 'wptr'):
        return add(leaf({'opt': OPTIONAL, 'uptr': UNIQUE, 'sptr': SHARED, 'wptr': WEAK}[k], 0, 0), model(t[1], ident, q))
    if k == 'tuple':
        if t[1] == 'agg' and all(standard_layout(x) for x in t[3]):
            q = ('tuple of ' + me,)
        return add(leaf(TUPLE, 0, len(t[3])), *[model(x, ident, q) for x in t[3]])
    if k == 'fn':
        return add(leaf(FUNCTION, t[3], 0), *[model(x, ident, q) for x in (t[1],) + t[2]])
    assert k == 'cls', t
    bases = t[3]
    if t[5] and not any(b[5] for b in bases):
        bases = (DYN,) + bases
    if t == DYN:
        return add(leaf(CLASS, 0, 0), leaf(BASE, 0, 0), 0, leaf(FIELD, 0, 0), 0, leaf(CUSTOM, 0, 0))
    bq = q + ('bases of ' + me,)
    fq = q + ('fields of ' + me,)
    has = int(t[2] != 0)
    return add(leaf(CLASS, 0, len(bases) + len(t[4]) + has),
               leaf(BASE, 0, len(bases)),
               add(*[model_base(b, ident, bq) for b in bases]) if bases else 0,
               leaf(FIELD, 0, len(t[4])),
               add(*[model(f, ident, fq + ('field %d of %s' % (i, me),)) for i, f in enumerate(t[4])]) if t[4] else 0,
               leaf(CUSTOM, 0, has))


def model_base(b, ident, q):
    if b == DYN:
        return add(leaf(CLASS, 0, 0), leaf(BASE, 0, 0), 0, leaf(FIELD, 0, 0), 0, leaf(CUSTOM, 0, 0))
    return model(b, ident, q)


def structure(t, path=()):
    """What the hash may depend on."""
    k = t[0]
    if k in ('bool', 'char', 'void', 'rec'):
        return t
    if k in ('int', 'enum'):
        return (k,) + t[-2:]
    if k == 'float':
        return (k, t[2])
    if k in ('dur', 'tp'):
        return t
    if k == 'seq':
        return (k, structure(t[2]))
    if k == 'arr':
        return (k, t[2], structure(t[3]))
    if k == 'map':
        return (k, t[2], structure(t[3]), structure(t[4]))
    if k == 'set':
        return (k, t[2], structure(t[3]))
    if k in ('opt', 'uptr', 'sptr', 'wptr'):
        return (k, structure(t[1]))
    if k == 'tuple':
        return (k, tuple(structure(x) for x in t[3]))
    if k == 'fn':
        return (k, structure(t[1]), tuple(structure(x) for x in t[2]), t[3])
    return (k, t[2] != 0, tuple(structure(b) for b in t[3]), tuple(structure(f) for f in t[4]), t[5])


def sites(t, p=()):
    out = [p]
    for i, x in enumerate(t):
        if isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] in KINDS:
            out += sites(x, p + (i,))
        elif isinstance(x, tuple):
            for j, y in enumerate(x):
                if isinstance(y, tuple) and y and y[0] in KINDS:
                    out += sites(y, p + (i, j))
    return out


KINDS = {'bool', 'char', 'int', 'float', 'enum', 'dur', 'tp', 'seq', 'arr', 'map', 'set', 'opt', 'uptr', 'sptr', 'wptr', 'tuple', 'cls', 'fn', 'void'}


def get(t, p):
    for i in p:
        t = t[i]
    return t


def put(t, p, v):
    if not p:
        return v
    return t[:p[0]] + (put(t[p[0]], p[1:], v),) + t[p[0] + 1:]


def change(r, u, t, is_base, is_key):
    """A type near t, with another structure most of the time. None: no such change here."""
    k = t[0]
    if is_base:
        if k != 'cls':
            return None
        c = r.choice(['field', 'custom'])
    else:
        c = r.choice(['near', 'near', 'near', 'wrap', 'fresh']) if k != 'fn' else 'near'
    if k == 'void' or is_key and c == 'wrap':
        c = 'fresh'
    if c == 'fresh':
        return u.key() if is_key else u.gen(1)
    if c == 'wrap':
        w = r.choice(['opt', 'uptr', 'sptr', 'wptr', 'seq', 'arr', 'tuple', 'cls'])
        if w == 'seq':
            return ('seq', r.choice(SEQS), t)
        if w == 'arr':
            return ('arr', 'std', r.choice([1, 2]), t)
        if w == 'tuple':
            return ('tuple', 'std::tuple', u.num(), (t,))
        if w == 'cls':
            return ('cls', u.num(), 0, (), (t,), False)
        return (w, t)
    if k in ('bool', 'char'):
        return r.choice([('bool',), ('char',), ('int', 'signed char', 1, 1)])
    if k == 'int':
        return ('int',) + r.choice(INTS)
    if k == 'enum':
        return r.choice([('enum', u.num()) + r.choice(INTS[:8]), ('int',) + t[2:]])
    if k == 'float':
        return ('float', 'double', 8) if t[2] == 4 else ('float', 'float ', 4)
    if k in ('dur', 'tp'):
        return r.choice([('tp' if k == 'dur' else 'dur',) + t[1:], (k,) + r.choice(PERIODS)])
    if k == 'seq':
        if is_key:
            return ('char',)
        return r.choice([('arr', 'std', r.choice([0, 1, 3]), t[2]), ('opt', t[2]), t[2]])
    if k == 'arr':
        return r.choice([('arr', t[1], t[2] + r.choice([1, 2, 256]), t[3]), ('seq', 'std::vector<%s>', t[3]), ('tuple', 'std::tuple', 0, (t[3],) * min(t[2], 4))])
    if k == 'map':
        return r.choice([(k, t[1] if t[1] != 'flat' else 'std', not t[2]) + t[3:], ('set', 'std', t[2], t[3]),
                         ('seq', 'std::vector<%s>', ('tuple', 'std::pair', 0, t[3:5]))])
    if k == 'set':
        return r.choice([(k, t[1], not t[2], t[3]), ('seq', 'std::list<%s>', t[3])])
    if k in ('opt', 'uptr', 'sptr', 'wptr'):
        return r.choice([(r.choice(['opt', 'uptr', 'sptr', 'wptr']), t[1]), t[1], ('seq', 'std::vector<%s>', t[1])])

    def members(fs):
        fs = list(fs)
        m = r.choice(['add', 'remove', 'swap', 'swap', 'dup'])
        if m == 'add' or not fs:
            fs.insert(r.randint(0, len(fs)), u.gen(1))
        elif m == 'remove':
            fs.pop(r.randrange(len(fs)))
        elif m == 'dup':
            i = r.randrange(len(fs))
            fs.insert(i, fs[i])
        else:
            i, j = r.randrange(len(fs)), r.randrange(len(fs))
            fs[i], fs[j] = fs[j], fs[i]
        return tuple(fs)
    if k == 'tuple':
        return ('tuple', 'std::tuple', u.num(), members(t[3]))
    if k == 'fn':
        m = r.choice(['args', 'args', 'ret', 'const'])
        if m == 'const':
            return t[:3] + (not t[3],)
        if m == 'ret':
            return ('fn', r.choice([('void',), u.gen(1)])) + t[2:]
        return ('fn', t[1], members(t[2]), t[3])
    if k != 'cls':
        return None
    m = r.choice(['fields', 'fields', 'fields', 'bases', 'custom', 'dyn', 'move', 'tuple'])
    n = u.num()
    if is_base and m in ('bases', 'dyn', 'move', 'tuple'):
        m = 'fields'
    if m == 'fields':
        return ('cls', n, t[2], t[3], members(t[4]), t[5])
    if m == 'bases':
        bs = list(t[3])
        if bs and r.random() < 0.5:
            bs.pop(r.randrange(len(bs)))
        elif len(bs) > 1 and r.random() < 0.5:
            bs.reverse()
        else:
            bs.append(u.cls(1))
        return ('cls', n, t[2], tuple(bs), t[4], t[5])
    if m == 'custom':
        return ('cls', n, 0 if t[2] else 5, t[3], t[4], t[5])
    if m == 'dyn':
        return ('cls', n, t[2], t[3], t[4], not t[5])
    if m == 'move' and t[4]:
        return ('cls', n, t[2], t[3] + (('cls', u.num(), 0, (), (t[4][0],), False),), t[4][1:], t[5])
    if m == 'tuple':
        return ('tuple', 'std::tuple', n, t[4])
    return None


def renumber(u, t, memo):
    """The same structure with other names and other equivalent containers."""
    r = u.r
    k = t[0]
    R = lambda x: renumber(u, x, memo)
    if k == 'int':
        return ('int',) + r.choice([i for i in INTS if i[1:] == t[2:]])
    if k == 'enum':
        return ('enum', u.num()) + r.choice([i for i in INTS[:8] if i[1:] == t[3:]])
    if k == 'seq':
        e = R(t[2])
        ks = SEQS + (['std::string', 'std::string_view'] if e == ('char',) else [])
        return ('seq', r.choice(ks), e)
    if k == 'arr':
        return ('arr', r.choice(['std', 'c']) if t[2] else 'std', t[2], R(t[3]))
    if k == 'map':
        return ('map', r.choice(['std', 'flat', 'unordered']), t[2], rkey(t[3], u), R(t[4]))
    if k == 'set':
        return ('set', r.choice(['std', 'flat', 'unordered']), t[2], rkey(t[3], u))
    if k in ('opt', 'uptr', 'sptr', 'wptr'):
        return (k, R(t[1]))
    if k == 'tuple':
        es = tuple(R(x) for x in t[3])
        return ('tuple', r.choice(['std::tuple', 'agg', 'std::pair'] if len(es) == 2 else ['std::tuple', 'agg']), u.num(), es)
    if k == 'cls':
        if t[1] not in memo:
            memo[t[1]] = ('cls', u.num(), t[2] and r.choice([1, 2, 3, 4000000000]) , tuple(R(b) for b in t[3]), tuple(R(f) for f in t[4]), t[5])
        return memo[t[1]]
    if k == 'fn':
        return ('fn', R(t[1]), tuple(R(x) for x in t[2]), t[3])
    return t


def rkey(t, u):
    r = u.r
    if t[0] == 'seq':
        return ('seq', 'std::string', ('char',))
    return renumber(u, t, {})


def usable(t):
    """Instantiable as written: no vector<bool>-like or hashing problems; the elements of flat containers are plain."""
    k = t[0]
    if k in ('seq', 'arr', 'opt', 'uptr', 'sptr', 'wptr'):
        e = t[-1]
        if k == 'arr' and t[1] == 'c' and not t[2] or e == ('void',):
            return False
        if e[0] == 'arr' and e[1] == 'c' and k != 'arr':
            return False
        if k == 'arr' and t[1] == 'std' and e[0] == 'arr' and e[1] == 'c':
            return False
        if k == 'seq' and t[1].startswith('std::string') and e != ('char',):
            return False
        return usable(e) if not (k == 'seq' and t[1].startswith('std::string')) else True
    if k == 'map':
        if t[4][0] == 'arr' and t[4][1] == 'c':
            return False
        if t[3][0] not in ('bool', 'char', 'int', 'enum', 'seq'):
            return False
        return usable(t[4]) and usable(t[3])
    if k == 'set':
        return t[3][0] in ('bool', 'char', 'int', 'enum', 'seq') and usable(t[3])
    if k == 'tuple':
        if any(x[0] == 'arr' and x[1] == 'c' for x in t[3]):
            return False
        return all(usable(x) for x in t[3])
    if k == 'fn':
        return all(usable(x) and not (x[0] == 'arr' and x[1] == 'c') for x in t[2] + (t[1],))
    if k == 'cls':
        ids, dyn = set(), 0
        for b in t[3]:
            dyn += b[5]
            if b[1] in ids:
                return False
            ids |= {b[1]} | {x[1] for x in b[3]}
        return dyn <= 1 and all(usable(x) for x in t[3] + t[4])
    return True


def clash(t, decls=None):
    """A user type used with two meanings, or a class as an indirect base twice."""
    found = {}

    def walk(x):
        if x[0] in ('cls', 'tuple', 'enum'):
            n = (x[0], x[2] if x[0] == 'tuple' else x[1])
            if x[0] != 'tuple' or x[1] == 'agg':
                if found.setdefault(n, x) != x:
                    return True
        for y in x[1:]:
            if isinstance(y, tuple):
                if y and isinstance(y[0], str) and y[0] in KINDS:
                    if walk(y):
                        return True
                else:
                    for z in y:
                        if isinstance(z, tuple) and walk(z):
                            return True
        return False
    return walk(t)


def ident(t):
    """A key equal for equal C++ types."""
    if t == DYN:
        return 'arpc::dynamic_base_class'
    d = []
    return spell(t, d, set()) + (''.join(d) if t[0] == 'arr' else '')


def pick(r, u, d, top=True):
    while True:
        if top and r.random() < 0.12:
            t = ('fn', r.choice([('void',), u.gen(1)]), tuple(u.gen(1) for _ in range(r.choice([0, 1, 2, 3]))), r.random() < 0.5)
        else:
            t = u.gen(d)
        if usable(t) and not clash(t):
            return t


def size(t):
    return len(repr(t))


def decl(*ts):
    ds, seen, out = [], set(), []
    for i, t in enumerate(ts):
        s = spell(t, ds, seen)
        out.append('using X%d = %s;' % (i, s))
    return '\n'.join(ds + out)


RECURSIVE = [
    # A class through pointers to itself and others; per class: fields as text and as a function of the path
    ('struct R0 : arpc::serializable<R0> { int v; std::shared_ptr<R0> n; ARPC_FIELDS(v, n); };\nusing X0 = R0;',
     ('cls', 'R0', 0, (), (('int', 'int', 1, 4), ('sptr', ('self', 0))), False)),
]


def rec_case(r, u, i):
    """Classes that refer to each other through pointers, pairs, optionals of pointers."""
    n = r.choice([1, 1, 2, 3, 4])
    names = ['R%d' % j for j in range(n)]
    refs = {}
    for j in range(n):
        fs = []
        for _ in range(r.choice([1, 2, 3])):
            c = r.random()
            target = r.randrange(n)
            if c < 0.3:
                fs.append(u.scalar())
            elif c < 0.7:
                fs.append((r.choice(['sptr', 'uptr', 'wptr', 'sptr']), ('ref', target)))
            elif c < 0.85:
                fs.append(('tuple', 'std::tuple', 0, (u.scalar(), ('sptr', ('ref', target)))))
            else:
                fs.append(('opt', (r.choice(['sptr', 'wptr']), ('ref', target))))
        refs[j] = (r.choice([0, 0, 4]), tuple(fs))

    def sp(t, ds, seen):
        if t[0] == 'ref':
            return names[t[1]]
        if t[0] in ('opt', 'uptr', 'sptr', 'wptr'):
            return 'std::%s<%s>' % ({'opt': 'optional', 'uptr': 'unique_ptr', 'sptr': 'shared_ptr', 'wptr': 'weak_ptr'}[t[0]], sp(t[1], ds, seen))
        if t[0] == 'tuple':
            return 'std::tuple<%s>' % ', '.join(sp(x, ds, seen) for x in t[3])
        return spell(t, ds, seen)
    ds, seen = [], set()
    ds += ['struct %s;' % x for x in names]
    bodies = []
    for j in range(n):
        cu, fs = refs[j]
        s = 'struct %s : arpc::serializable<%s> {\n' % (names[j], names[j])
        s += ''.join('  %s f%d;\n' % (sp(f, ds, seen), x) for x, f in enumerate(fs))
        s += '  ARPC_FIELDS(%s);\n' % ', '.join('f%d' % x for x in range(len(fs)))
        if cu:
            s += '  ARPC_CUSTOM_SERIALIZATION_VERSION(%d); template <typename S> void save(S&) const {} template <typename S> void load(S&) {}\n' % cu
        bodies.append(s + '};')

    def h(t, path):
        if t[0] == 'ref':
            return hc(t[1], path)
        if t[0] in ('opt', 'uptr', 'sptr', 'wptr', 'tuple'):
            me = sp(t, [], set())
            if me in path:
                return leaf(SEEN, 0, path.index(me))
            q = path + (me,)
            if t[0] == 'tuple':
                return add(leaf(TUPLE, 0, 2), *[h(x, q) for x in t[3]])
            return add(leaf({'opt': OPTIONAL, 'uptr': UNIQUE, 'sptr': SHARED, 'wptr': WEAK}[t[0]], 0, 0), h(t[1], q))
        return model(t, ident, path)

    def hc(j, path):
        me = names[j]
        if me in path:
            return leaf(SEEN, 0, path.index(me))
        q = path + (me,)
        cu, fs = refs[j]
        fq = q + ('fields of ' + me,)
        return add(leaf(CLASS, 0, len(fs) + (1 if cu else 0)), leaf(BASE, 0, 0), 0, leaf(FIELD, 0, len(fs)),
                   add(*[h(f, fq + ('field %d of %s' % (x, me),)) for x, f in enumerate(fs)]), leaf(CUSTOM, 0, 1 if cu else 0))
    w = ' '.join(str(hc(j, ())) for j in range(n))
    return Case('recursive', None, 'return %s;' % ' + " " + '.join('std::to_string(H<%s>)' % x for x in names), w,
                '\n'.join(ds + bodies), size=len(repr(refs)), desc='recursive ' + ' '.join(' '.join(bodies).split())[:250])


def cases(r, tier):
    k = 1 if tier == 'quick' else 8
    u = U(r)
    out = []
    for _ in range(260 * k):
        t = pick(r, u, r.choice([0, 1, 1, 2, 2, 3]))
        qs = ['X0'] + ([] if t[0] == 'fn' else ['const X0', 'X0&', 'const X0&'] if t[0] != 'void' else [])
        code = 'std::string s = std::to_string(H<X0>);\n' + ''.join('if (H<%s> != H<X0>) s += " changed by qualifiers: %s";\n' % (q, q) for q in qs[1:])
        code += 'if (arpc::traits::type_hash<X0>::value != H<X0>) s += " v differs";\nreturn s;'
        out.append(Case('value', None, code, str(model(t, ident)), decl(t), nontrivial=size(t) > 30, size=size(t), desc='hash of %r' % (t,)))
    for _ in range(120 * k):
        while True:
            a = pick(r, u, r.choice([1, 2, 2]))
            b = renumber(u, a, {})
            if usable(b) and not clash(('tuple', 'std::tuple', 0, (a, b))) and a != b:
                break
        out.append(Case('same', None, 'return std::to_string(H<X0>) + (H<X0> == H<X1> ? "" : " differs from " + std::to_string(H<X1>));',
                        str(model(a, ident)), decl(a, b), size=size(a) + size(b), desc='%r and %r' % (a, b)))
    n = 0
    while n < 200 * k:
        a = pick(r, u, r.choice([1, 1, 2, 2, 3]))
        p = r.choice(sites(a))
        parent = get(a, p[:-2]) if len(p) >= 2 else None
        is_base = parent is not None and parent[0] == 'cls' and p[-2] == 3
        direct = get(a, p[:-1]) if p else None
        is_key = direct is not None and direct[0] in ('map', 'set') and p[-1] == 3
        v = change(r, u, get(a, p), is_base, is_key)
        if v is None:
            continue
        # Classes around the change get other names.
        b = put(a, p, v)
        b = renumber(u, b, {})
        if structure(a) == structure(b) or not usable(b) or clash(('tuple', 'std::tuple', 0, (a, b))):
            continue
        if model(a, ident) == model(b, ident):
            COLLIDED.append((a, b))
            continue
        n += 1
        out.append(Case('differ', None, 'return differ<X0, X1>();', 'differ', decl(a, b), size=size(a) + size(b), desc='%r and %r' % (a, b)))
    for i in range(60 * k):
        out.append(rec_case(r, u, i))
    # Systematic coincidences of the hash function, each listed as a finding.
    for w in ('seq', 'opt', 'sptr', 'uptr', 'tuple'):
        a = ('seq', 'std::string', ('char',)) if w == 'uptr' else ('int', 'int', 1, 4)
        b = a
        for _ in range(2):
            b = ('seq', 'std::vector<%s>', b) if w == 'seq' else ('tuple', 'std::tuple', 0, (b,)) if w == 'tuple' else (w, b)
        out.append(Case('wrapped_twice', None, 'return differ<X0, X1>();', 'differ', decl(a, b), size=1, desc='%r and %r' % (a, b)))
    out.append(Case('period', None, 'return differ<X0, X1>();', 'differ', decl(('dur', 1, 3), ('dur', 3, 5)), size=1, desc='ratio<1, 3>, ratio<3, 5>'))
    out.append(Case('length_beyond_24_bits', None, 'return differ<char[3], char[3 + (1 << 24)]>();', 'differ', '', size=1, desc='char[3], char[3 + (1 << 24)]'))
    c = Case('through_container', None, 'return differ<X, int>();', 'differ',
             'struct X : arpc::serializable<X> { std::vector<std::shared_ptr<X>> c; ARPC_FIELDS(c); };', size=1, desc='a class that contains itself through a vector')
    c.alone = True
    out.append(c)
    return out


COLLIDED = []
PER_TU = 14
CLANG = True
CLANG_EVERY = 7
LIB = True
FLAGS = ['-Wno-error']

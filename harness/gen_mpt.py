"""C09: compile-time sequence algorithms against Python lists."""
from genprog import Case

PRELUDE = r'''
#include <array>
#include <memory>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include "arpc/mpt.h"
namespace mpt = arpc::mpt;
namespace u {
struct Incomplete;
struct A {};
struct NoDefault { NoDefault(int) {} };
template <int n> struct N { char c[n]; };
enum class E : int { x = 3, y = -4 };
enum F { f0, f7 = 7 };
struct Mo { int v = 0; Mo() = default; Mo(int x, int) : v(x) {} Mo(Mo&&) = default; Mo& operator=(Mo&&) = default; };
}
template <typename Got, typename Want>
std::string same() {
  if constexpr (std::is_same_v<Got, Want>) return "ok";
  else return __PRETTY_FUNCTION__;
}
template <typename T> std::string str(const T& v) {
  if constexpr (std::is_same_v<T, bool>) return v ? "true" : "false";
  else if constexpr (std::is_enum_v<T>) return std::to_string(static_cast<long long>(v));
  else if constexpr (std::is_same_v<T, std::string>) return v;
  else if constexpr (std::is_same_v<T, std::unique_ptr<int>>) return v ? "p" + std::to_string(*v) : "null";
  else if constexpr (std::is_same_v<T, u::Mo>) return std::to_string(v.v);
  else return std::to_string(v);
}
template <typename T> std::string cat() {  // for T from a forwarding parameter
  std::string s = std::is_const_v<std::remove_reference_t<T>> ? "c" : "";
  return s + (std::is_lvalue_reference_v<T> ? "L" : "R");
}
/// Records each call: value category and value of what it was given.
struct Trace {
  std::string* out;
  template <typename T> void operator()(T&& v) const { *out += cat<T>() + str(v) + ";"; }
  template <typename T> void operator()(T&& v, const int& k) const { *out += cat<T>() + str(v) + "/" + std::to_string(k) + ";"; }
  template <typename T> void operator()(T&& v, int& k, const std::string& s) const {
    *out += cat<T>() + str(v) + "/" + std::to_string(k++) + s + ";";
  }
};
/// As Trace, and returns something per element.
struct Map : Trace {
  template <typename T, typename... X> std::string operator()(T&& v, X&&... x) const {
    Trace::operator()(std::forward<T>(v), x...);
    return "<" + str(v) + ">";
  }
};
template <typename T> struct Name;
struct TypeTrace {
  std::string* out;
  template <typename T> void operator()(mpt::wrap_type<T>) const { *out += std::string(Name<T>::v) + ";"; }
};
struct TypeMap {
  std::string* out;
  template <typename T> std::string operator()(mpt::wrap_type<T>) const { *out += std::string(Name<T>::v) + ";"; return Name<T>::v; }
};
struct TypeFold {
  template <typename T> std::string operator()(const std::string& a, mpt::wrap_type<T>) const { return a + Name<T>::v + ";"; }
};
template <long k> struct Greater { template <typename T> constexpr bool operator()(T v) const { return static_cast<long>(v) > k; } };
struct Odd { template <typename T> constexpr bool operator()(T v) const { return static_cast<long>(v) & 1; } };
template <template <typename> class P> struct TypeIs { template <typename T> constexpr bool operator()(mpt::wrap_type<T>) const { return P<T>::value; } };
struct Fold { template <typename A, typename T> constexpr long operator()(A a, T v) const { return static_cast<long>((static_cast<unsigned long>(a) * 31 + static_cast<unsigned long>(v)) & 0xffffffffful); } };
struct Fold2 { template <typename A, typename T> constexpr long operator()(A a, T v, long k) const { return Fold{}(a, v) ^ k; } };
struct Strings { template <typename T> std::string operator()(std::string a, T&& v, const std::string& sep) const { return a + sep + str(v); } };
'''
TYPES = ['int', 'char', 'void', 'u::Incomplete', 'int&', 'const long', 'std::string', 'u::N<3>', 'u::N<5>', 'u::A',
         'std::unique_ptr<int>', 'int(char)', 'mpt::pack<int, char>', 'mpt::wrap_type<int>', 'u::E', 'double[3]',
         'const u::A&', 'std::tuple<int>', 'u::NoDefault', 'bool', 'unsigned', 'u::A*']
PRELUDE += '\n'.join('template <> struct Name<%s> { static constexpr const char* v = "%s"; };' % (t, t) for t in TYPES)
PREDS = {'std::is_void': ['void'], 'std::is_reference': ['int&', 'const u::A&'],
         'std::is_integral': ['int', 'char', 'const long', 'bool', 'unsigned'],
         'std::is_const': ['const long'], 'std::is_array': ['double[3]'], 'std::is_enum': ['u::E']}
INTS = {'int': (-2**31, 2**31 - 1), 'unsigned': (0, 2**32 - 1), 'char': (-128, 127), 'signed char': (-128, 127),
        'short': (-2**15, 2**15 - 1), 'long': (-2**63 + 1, 2**63 - 1), 'std::size_t': (0, 2**64 - 1), 'bool': (0, 1),
        'unsigned char': (0, 255), 'long long': (-2**63 + 1, 2**63 - 1)}


def lit(t, v):
    if t == 'bool':
        return 'true' if v else 'false'
    if t in ('u::E', 'u::F'):
        return 'static_cast<%s>(%d)' % (t, v)
    suf = {'unsigned': 'u', 'long': 'l', 'std::size_t': 'ul', 'long long': 'll'}.get(t)
    if suf:
        return '(%d%s)' % (v, suf) if v < 0 else '%d%s' % (v, suf)
    return 'static_cast<%s>(%d)' % (t, v) if t != 'int' else ('(-%dl-1)' % (2**31 - 1) if v == -2**31 else '%d' % v)


def rint(r, t):
    lo, hi = INTS[t]
    if r.random() < 0.7:
        return r.randint(max(lo, -5), min(hi, 9))
    return r.choice([lo, hi, r.randint(lo, hi)]) if t != 'int' else r.choice([hi, r.randint(lo + 1, hi)])


def show(t, v):
    return ('true' if v else 'false') if t == 'bool' else str(v)


def pack(ts):
    return 'mpt::pack<%s>' % ', '.join(ts)


def vpack(vs):
    return 'mpt::value_pack<%s>' % ', '.join(lit(*v) for v in vs)


def iseq(t, vs):
    return 'mpt::integer_sequence<%s>' % ', '.join([t] + [lit(t, v) for v in vs])


def tlist(r, n):
    # Repeats are common.
    pool = r.sample(TYPES, min(len(TYPES), max(1, r.choice([n, n, n // 2 + 1]))))
    return [r.choice(pool) for _ in range(n)]


def vlist(r, n):
    return [(t, rint(r, t) if t in INTS else r.choice([3, -4] if t == 'u::E' else [0, 7]))
            for t in (r.choice(['int', 'int', 'char', 'bool', 'long', 'short', 'u::E', 'u::F']) for _ in range(n))]


def length(r):
    return r.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 8, 9, 12, 17, 24])


def seqs(r, n):
    """(C++ type, [element type as at<> gives], [C++ value or None], rebuild)"""
    k = r.choice('pvi')
    if k == 'p':
        ts = tlist(r, n)
        return pack(ts), ['mpt::wrap_type<%s>' % t for t in ts], None, lambda ix: pack([ts[i] for i in ix])
    if k == 'v':
        vs = vlist(r, n)
        return vpack(vs), [v[0] for v in vs], vs, lambda ix: vpack([vs[i] for i in ix])
    t = r.choice(list(INTS))
    vs = [rint(r, t) for _ in range(n)]
    return iseq(t, vs), [t] * n, [(t, v) for v in vs], lambda ix: iseq(t, [vs[i] for i in ix])


def ok(expr, want):
    return 'return same<%s, %s>();' % (expr, want)


def ixs(ix):
    return 'mpt::index_sequence<%s>' % ', '.join(map(str, ix))


def conv(ft, v):
    return v


class G:
    def __init__(self, r):
        self.r = r

    def size(self, n):
        s, el, _, _ = seqs(self.r, n)
        q = self.r.choice(['', ' const', '&', ' const&', '&&'])
        return 'return std::to_string(mpt::size_v<%s%s>);' % (s, q), str(n), s

    def size_tuple(self, n):
        ts = [t for t in tlist(self.r, n)]
        q = self.r.choice(['', ' const', '&', ' const&', '&&'])
        # Only the type of the tuple is used.
        return 'return std::to_string(mpt::size_v<std::tuple<%s>%s>) + std::to_string(mpt::is_tuple_v<std::tuple<%s>%s>);' % (
            ', '.join(ts), q, ', '.join(ts), q), '%d1' % n, ts

    def element(self, n):
        n = max(n, 1)
        s, el, vs, _ = seqs(self.r, n)
        i = self.r.randrange(n)
        return ok('mpt::element_type_t<%d, %s>' % (i, s), el[i]), 'ok', (s, i)

    def at(self, n):
        n = max(n, 1)
        s, el, vs, _ = seqs(self.r, n)
        i = self.r.randrange(n)
        c = 'constexpr auto x = mpt::at<%d>(%s{}); std::string a = same<decltype(x), const %s>();' % (i, s, el[i])
        if vs:
            return c + 'return a + str(x);', 'ok' + show(*vs[i]), (s, i)
        return c + 'return a;', 'ok', (s, i)

    def kinds(self, n):
        s, el, vs, _ = seqs(self.r, n)
        k = 'p' if s.startswith('mpt::pack') else 'v' if s.startswith('mpt::value') else 'i'
        q = self.r.choice(['', ' const', '&', ' const&', '&&'])
        return ('return str(mpt::is_pack_v<%s>) + str(mpt::is_value_pack_v<%s>) + str(mpt::is_integer_sequence_v<%s>) + str(mpt::is_tuple_v<%s>);'
                % ((s + q,) * 4)), ''.join('true' if x else 'false' for x in (k == 'p', k == 'v', k == 'i', False)), s + q

    def range(self, n):
        s, el, vs, sub = seqs(self.r, n)
        b = self.r.randint(0, n)
        e = self.r.randint(b, n)
        lv = self.r.random() < 0.5
        return ('%s s{}; (void)s; ' % s + ok('decltype(mpt::range<%d, %d>(%s))' % (b, e, 's' if lv else s + '{}'), sub(range(b, e)))), 'ok', (s, b, e)

    def tail(self, n):
        n = max(n, 1)
        s, el, vs, sub = seqs(self.r, n)
        return ('std::string a = same<decltype(mpt::tail(%s{})), %s>(); auto h = mpt::head(%s{}); return a + same<decltype(h), %s>()%s;' % (
            s, sub(range(1, n)), s, el[0], ' + str(h)' if vs else '')), 'okok' + (show(*vs[0]) if vs else ''), s

    def subset(self, n):
        s, el, vs, sub = seqs(self.r, n)
        ix = [self.r.randrange(n) for _ in range(self.r.randint(0, 6))] if n else []
        return ok('decltype(mpt::subset(%s{}, %s{}))' % (s, ixs(ix)), sub(ix)), 'ok', (s, ix)

    def cat(self, n):
        k = self.r.choice('pvi')
        m = self.r.randint(1, 5)
        parts, flat = [], []
        t = self.r.choice(list(INTS))
        for _ in range(m):
            l = self.r.randint(0, max(1, n // 2))
            if k == 'p':
                x = tlist(self.r, l)
                parts.append(pack(x))
            elif k == 'v':
                x = vlist(self.r, l)
                parts.append(vpack(x))
            else:
                x = [rint(self.r, t) for _ in range(l)]
                parts.append(iseq(t, x))
            flat += x
        want = pack(flat) if k == 'p' else vpack(flat) if k == 'v' else iseq(t, flat)
        pre, args = '', []
        for i, p in enumerate(parts):
            if self.r.random() < 0.3:
                pre += '%s%s x%d{}; (void)x%d; ' % (self.r.choice(['', 'const ']), p, i, i)
                args.append('x%d' % i)
            else:
                args.append(p + '{}')
        return pre + ok('decltype(mpt::cat(%s))' % ', '.join(args), want), 'ok', parts

    def insert_type(self, n):
        ts = []
        c = 'mpt::pack<>'
        for t in tlist(self.r, n):
            c = 'mpt::insert_type_into_t<%s, %s>' % (t, c)
            if t not in ts:
                ts.append(t)
        return ok(c, pack(ts)), 'ok', ts

    def insert_value(self, n):
        vs, c = [], 'mpt::value_pack<>'
        t = self.r.choice(['int', 'char', 'long', 'u::E', 'unsigned'])
        for v in [x for x in [(t, rint(self.r, t) if t in INTS else self.r.choice([3, -4])) for _ in range(n)]]:
            c = 'mpt::insert_value_into_t<%s, %s>' % (lit(*v), c)
            if v not in vs:
                vs.append(v)
        return ok(c, vpack(vs)), 'ok', vs

    def type_in(self, n):
        ts = tlist(self.r, n)
        t = self.r.choice(TYPES + ts * 3)
        return 'return str(mpt::is_type_in_v<%s, %s>) + std::to_string(mpt::count_if_v<%s, mpt::is_type<%s>>);' % (
            t, pack(ts), pack(ts), t), '%s%d' % ('true' if t in ts else 'false', ts.count(t)), (t, ts)

    def value_in(self, n):
        # Values of several types: equal values of different integer types are the same value.
        vs = [v for v in vlist(self.r, n)]
        v = self.r.choice(vs + vlist(self.r, 2))
        cls = lambda t: t if t == 'u::E' else 'int'
        k = sum(1 for w in vs if cls(w[0]) == cls(v[0]) and w[1] == v[1])
        return 'return str(mpt::is_value_in_v<%s, %s>) + std::to_string(mpt::count_if_v<%s, mpt::is_value<%s>>);' % (
            lit(*v), vpack(vs), vpack(vs), lit(*v)), '%s%d' % ('true' if k else 'false', k), (v, vs)

    def find_types(self, n):
        ts = tlist(self.r, n)
        p = self.r.choice(list(PREDS))
        ix = [i for i, t in enumerate(ts) if t in PREDS[p]]
        o = 'TypeIs<%s>' % p
        return ('return same<mpt::find_if_t<%s, %s>, %s>() + same<mpt::filter_if_t<%s, %s>, %s>() + std::to_string(mpt::count_if_v<%s, %s>);'
                % (pack(ts), o, ixs(ix), pack(ts), o, pack([ts[i] for i in ix]), pack(ts), o)), 'okok%d' % len(ix), (p, ts)

    def find_values(self, n):
        if self.r.random() < 0.5:
            t = self.r.choice([x for x in INTS if x != 'std::size_t'])
            vs = [(t, rint(self.r, t)) for _ in range(n)]
            s = iseq(t, [v[1] for v in vs])
            sub = lambda ix: iseq(t, [vs[i][1] for i in ix])
        else:
            vs = vlist(self.r, n)
            s = vpack(vs)
            sub = lambda ix: vpack([vs[i] for i in ix])
        if self.r.random() < 0.5:
            k = self.r.randint(-3, 6)
            o, f = 'Greater<%d>' % k, lambda v: v > k
        else:
            o, f = 'Odd', lambda v: v & 1
        ix = [i for i, v in enumerate(vs) if f(v[1])]
        return ('return same<mpt::find_if_t<%s, %s>, %s>() + same<mpt::filter_if_t<%s, %s>, %s>() + std::to_string(mpt::count_if_v<%s, %s>);'
                % (s, o, ixs(ix), s, o, sub(ix), s, o)), 'okok%d' % len(ix), (o, s)

    def find(self, n):
        ts = list(dict.fromkeys(tlist(self.r, max(n, 1))))
        i = self.r.randrange(len(ts))
        return 'return std::to_string(mpt::find_v<%s, mpt::is_type<%s>>);' % (pack(ts), ts[i]), str(i), (ts, i)

    def fold(self, n):
        t = self.r.choice(list(INTS))
        vs = [(t, rint(self.r, t)) for _ in range(n)]
        s = iseq(t, [v[1] for v in vs])
        if self.r.random() < 0.5:
            vs = [v for v in vlist(self.r, n)]
            s = vpack(vs)
        a0 = self.r.randint(0, 100)
        a = a0
        x = self.r.random() < 0.4
        k = self.r.randint(0, 99)
        for _, v in vs:
            a = (a * 31 + v) & 0xfffffffff
            a = a ^ k if x else a
        return 'constexpr long a = mpt::accumulate(%dl, %s{}, %s); return std::to_string(a);' % (
            a0, s, 'Fold2{}, %dl' % k if x else 'Fold{}'), str(a), (a0, s, x)

    def fold_types(self, n):
        ts = tlist(self.r, n)
        return 'return mpt::accumulate(std::string("^"), %s{}, TypeFold{});' % pack(ts), '^' + ''.join(t + ';' for t in ts), ts

    def visit_types(self, n):
        ts = tlist(self.r, n)
        return ('std::string out; mpt::for_each(%s{}, TypeTrace{&out}); out += "|"; auto t = mpt::transform(%s{}, TypeMap{&out}); out += "|";'
                'mpt::for_each(t, Trace{&out}); return out;' % (pack(ts), pack(ts))), (
            ''.join(t + ';' for t in ts) + '|' + ''.join(t + ';' for t in ts) + '|' + ''.join('L%s;' % t for t in ts)), ts

    # Run-time tuples and pairs.
    def tup(self, n, kinds=('int', 'std::string', 'std::unique_ptr<int>', 'int&', 'const std::string&', 'std::string&', 'std::string&&', 'const int')):
        """decls, tuple type, [(type, shown value)]"""
        pre, inits, els = '', [], []
        for i in range(n):
            t = self.r.choice(kinds)
            v = self.r.randint(0, 99)
            if 'unique' in t:
                inits.append('std::make_unique<int>(%d)' % v)
                els.append((t, 'p%d' % v))
            elif 'string' in t:
                if t.endswith('&'):
                    pre += 'std::string v%d = "a string longer than the buffer of a string %d"; ' % (i, v)
                    inits.append('std::move(v%d)' % i if t.endswith('&&') else 'v%d' % i)
                else:
                    inits.append('std::string("a string longer than the buffer of a string %d")' % v)
                els.append((t, 'a string longer than the buffer of a string %d' % v))
            else:
                if t.endswith('&'):
                    pre += 'int v%d = %d; ' % (i, v)
                    inits.append('v%d' % i)
                else:
                    inits.append('%d' % v)
                els.append((t, str(v)))
        if n == 2 and self.r.random() < 0.5 and not any('&&' in e[0] for e in els):
            ty = 'std::pair<%s>' % ', '.join(e[0] for e in els)
        else:
            ty = 'std::tuple<%s>' % ', '.join(e[0] for e in els)
        return pre, ty, '(%s)' % ', '.join(inits), els

    @staticmethod
    def catof(t, q):
        """Category of an element of type t got from a tuple of category q ('L', 'cL', 'R')."""
        if t.endswith('&') and not t.endswith('&&'):
            return ('c' if t.startswith('const') else '') + 'L'
        c = 'c' if t.startswith('const') or ('c' in q and not t.endswith('&&')) else ''
        return c + ('R' if q == 'R' else 'L')

    def tuple_visit(self, n):
        pre, ty, init, els = self.tup(min(n, 8))
        q = self.r.choice(['L', 'cL', 'R'])
        if q == 'R' and any('unique' in e[0] for e in els) is None:
            q = 'L'
        arg = {'L': 't', 'cL': 'std::as_const(t)', 'R': 'std::move(t)'}[q]
        m = self.r.randint(0, 2)
        f, extra, tail = 'Trace{&out}', '', lambda i: ''
        if m == 1:
            extra, tail = ', 7', lambda i: '/7'
        elif m == 2:
            pre += 'int k = 5; '
            extra, tail = ', k, std::string("z")', lambda i: '/%dz' % (5 + i)
        c = pre + 'std::string out; %s t%s; (void)t; ' % (ty, init if els else '')
        w = ''.join('%s%s%s;' % (self.catof(t, q), v, tail(i)) for i, (t, v) in enumerate(els))
        if self.r.random() < 0.5:
            return c + 'mpt::for_each(%s, %s%s); return out;' % (arg, f, extra), w, (ty, q, m)
        return (c + 'auto r = mpt::transform(%s, Map{{&out}}%s); std::string a = same<decltype(r), std::tuple<%s>>(); mpt::for_each(r, Trace{&out}); return a + out;'
                % (arg, extra, ', '.join(['std::string'] * len(els)))), 'ok' + w + ''.join('L<%s>;' % v for _, v in els), (ty, q, m)

    def tuple_at(self, n):
        pre, ty, init, els = self.tup(max(1, min(n, 8)))
        i = self.r.randrange(len(els))
        q = self.r.choice(['L', 'cL', 'R'])
        arg = {'L': 't', 'cL': 'std::as_const(t)', 'R': 'std::move(t)'}[q]
        return pre + '%s t%s; std::string out; Trace{&out}(mpt::at<%d>(%s)); return out + same<mpt::element_type_t<%d, %s>, %s>();' % (
            ty, init, i, arg, i, ty, els[i][0]), '%s%s;ok' % (self.catof(els[i][0], q), els[i][1]), (ty, i, q)

    def tuple_range(self, n):
        # From an lvalue: references to the elements. From an rvalue: the elements.
        pre, ty, init, els = self.tup(min(n, 8), ('int', 'std::string', 'std::unique_ptr<int>', 'int&', 'std::string&'))
        b = self.r.randint(0, len(els))
        e = self.r.randint(b, len(els))
        q = self.r.choice(['L', 'cL', 'R'])
        arg = {'L': 't', 'cL': 'std::as_const(t)', 'R': 'std::move(t)'}[q]
        c = pre + '%s t%s; (void)t; std::string out; auto r = mpt::range<%d, %d>(%s); mpt::for_each(r, Trace{&out}); out += "|"; ' % (
            ty, init if els else '', b, e, arg)
        w = ''.join('%s%s;' % (self.catof(t, 'L' if q == 'R' else q), v) for t, v in els[b:e]) + '|'
        # Referenced objects are left alone.
        for i, (t, v) in enumerate(els):
            if t.endswith('&'):
                c += 'out += str(v%d) + ";"; ' % i
                w += v + ';'
            elif q != 'R':
                c += 'out += std::to_string(%s); ' % ('&std::get<%d>(r) == &std::get<%d>(t)' % (i - b, i) if b <= i < e else '1')
                w += '1'
        return c + 'return out;', w, (ty, b, e, q)

    def tuple_fold(self, n):
        pre, ty, init, els = self.tup(min(n, 8))
        q = self.r.choice(['L', 'cL', 'R'])
        arg = {'L': 't', 'cL': 'std::as_const(t)', 'R': 'std::move(t)'}[q]
        return pre + '%s t%s; (void)t; return mpt::accumulate(std::string("^"), %s, Strings{}, std::string("+"));' % (
            ty, init if els else '', arg), '^' + ''.join('+' + v for _, v in els), (ty, q)

    def as_tuple(self, n):
        s, el, vs, _ = seqs(self.r, n)
        c = 'auto t = mpt::as_tuple(%s{}); std::string out = same<decltype(t), std::tuple<%s>>(); ' % (s, ', '.join(el))
        if vs is not None:
            return c + 'mpt::for_each(t, Trace{&out}); return out;', 'ok' + ''.join('L%s;' % show(*v) for v in vs), s
        return c + 'return out + same<decltype(mpt::as_pack(t)), %s>();' % s, 'okok', s

    def as_pack(self, n):
        n = 2 if self.r.random() < 0.4 else n
        s, el, vs, _ = seqs(self.r, n)
        if vs is None:
            if n == 2 and self.r.random() < 0.6:
                return ok('decltype(mpt::as_pack(std::pair<%s>{}))' % ', '.join(el), s), 'ok', s
            return ok('decltype(mpt::as_pack(%s{}))' % s, s), 'ok', s
        return ok('decltype(mpt::as_pack(%s{}))' % s, pack(el)), 'ok', s

    def as_value_pack(self, n):
        s, el, vs, _ = seqs(self.r, n)
        if vs is None:
            return self.as_tuple(n)
        return ok('decltype(mpt::as_value_pack(%s{}))' % s, vpack(vs)), 'ok', s

    def wrap(self, n):
        ts = tlist(self.r, n)
        w = pack(['mpt::wrap_type<%s>' % t for t in ts])
        return 'return same<decltype(mpt::wrap(%s{})), %s>() + same<decltype(mpt::unwrap(%s{})), %s>();' % (
            pack(ts), w, w, pack(ts)), 'okok', ts

    def make_ints(self, n):
        n = self.r.choice([n, 0, 1, 2, 3, 63, 64, 100, 127])
        t = self.r.choice([x for x in INTS if x != 'bool' or n < 2])
        if self.r.random() < 0.5:
            return ok('mpt::make_integer_sequence<%s, %d>' % (t, n), iseq(t, range(n))), 'ok', (t, n)
        v = rint(self.r, t)
        if t == 'std::size_t' and self.r.random() < 0.5:
            return ok('mpt::make_constant_index_sequence<%d, %s>' % (n, lit(t, v)), iseq(t, [v] * n)), 'ok', (t, n, v)
        return ok('mpt::make_constant_integer_sequence<%s, %d, %s>' % (t, n, lit(t, v)), iseq(t, [v] * n)), 'ok', (t, n, v)

    def arith(self, n):
        # All in int or long, so that Python's arithmetic is C++'s.
        t, w = self.r.choice([('int', 'int'), ('long', 'long'), ('int', 'long'), ('long', 'int')])
        res = 'long' if 'long' in (t, w) else 'int'
        a = [self.r.randint(-50, 50) for _ in range(n)]
        name, sym, f, rt = self.r.choice([
            ('plus', '+', lambda x, y: x + y, res), ('minus', '-', lambda x, y: x - y, res),
            ('multiplies', '*', lambda x, y: x * y, res),
            ('divides', '/', lambda x, y: int(x / y), res), ('modulus', '%', lambda x, y: x - y * int(x / y), res),
            ('equal_to', '==', lambda x, y: x == y, 'bool'), ('not_equal_to', '!=', lambda x, y: x != y, 'bool'),
            ('greater', '>', lambda x, y: x > y, 'bool'), ('less', '<', lambda x, y: x < y, 'bool'),
            ('greater_equal', '>=', lambda x, y: x >= y, 'bool'), ('less_equal', '<=', lambda x, y: x <= y, 'bool'),
            ('logical_and', '&&', lambda x, y: bool(x and y), 'bool'), ('logical_or', '||', lambda x, y: bool(x or y), 'bool'),
            ('bit_and', '&', lambda x, y: x & y, res), ('bit_or', '|', lambda x, y: x | y, res),
            ('bit_xor', '^', lambda x, y: x ^ y, res),
            ('negate', '-', lambda x, y: -x, t), ('logical_not', '!', lambda x, y: not x, 'bool'),
            ('bit_not', '~', lambda x, y: ~x, t), ('identity', None, lambda x, y: x, t)])
        b = [self.r.choice([-7, -1, 1, 2, 13]) if name in ('divides', 'modulus') else self.r.choice([x, 0, self.r.randint(-50, 50)]) for x in a]
        want = iseq(rt, [f(x, y) for x, y in zip(a, b)])
        if name in ('negate', 'logical_not', 'bit_not', 'identity'):
            s = iseq(t, a)
            c = 'same<typename %s::%s_t, %s>()' % (s, name, want)
            if sym:
                c += ' + same<decltype(%s(%s{})), %s>()' % (sym, s, want)
            else:
                c += ' + same<typename %s::identity::type, %s>()' % (s, want)
        else:
            s, z = iseq(t, a), iseq(w, b)
            if n == 0 and rt != 'bool':
                want = iseq(res, [])
            c = 'same<typename %s::template %s_t<%s>, %s>() + same<decltype(%s{} %s %s{}), %s>()' % (s, name, z, want, s, sym, z, want)
        return 'return %s;' % c, 'okok', (name, t, a, w, b)

    def aggregate(self, n):
        n = min(n, 32)
        if self.r.random() < 0.3:
            n = self.r.choice([0, 1, 15, 16, 17, 30, 31, 32])
        ts, vals = [], []
        for _ in range(n):
            t = self.r.choice(['int', 'std::string', 'bool', 'long', 'u::E', 'u::Mo', 'short'])
            ts.append(t)
            vals.append(self.r.randint(0, 9) if t not in ('bool', 'u::E') else self.r.choice([0, 1] if t == 'bool' else [3, -4]))
        decl = 'struct Agg { %s };' % ' '.join('%s f%d;' % (t, i) for i, t in enumerate(ts))
        init, w = [], ''
        for t, v in zip(ts, vals):
            if t == 'std::string':
                init.append('"%d"' % v)
            elif t == 'u::Mo':
                init.append('u::Mo(%d, 0)' % v)
            else:
                init.append(lit(t, v))
        q = self.r.choice(['L', 'cL'])
        for t, v in zip(ts, vals):
            w += '%s%s;' % (q, show(t, v))
        c = 'Agg a{%s}; std::string out = std::to_string(mpt::aggregate_arity_v<Agg>) + ":"; auto&& t = mpt::as_tuple(%s); ' % (
            ', '.join(init), 'a' if q == 'L' else 'std::as_const(a)')
        cq = 'const ' if q == 'cL' else ''
        c += 'out += same<std::decay_t<decltype(t)>, std::tuple<%s>>(); mpt::for_each(t, Trace{&out}); ' % ', '.join('%s%s&' % (cq, t) for t in ts)
        for i in range(n):
            c += 'out += std::to_string(&std::get<%d>(t) == &a.f%d); ' % (i, i)
        return c + 'return out;', '%d:ok%s%s' % (n, w, '1' * n), (ts, q), decl


OPS = [(k, 1.0) for k in ('size', 'size_tuple', 'element', 'at', 'kinds', 'range', 'tail', 'subset', 'cat', 'insert_type',
                          'insert_value', 'type_in', 'value_in', 'find_types', 'find_values', 'find', 'fold',
                          'fold_types', 'visit_types', 'tuple_visit', 'tuple_at', 'tuple_range', 'tuple_fold', 'as_tuple',
                          'as_pack', 'as_value_pack', 'wrap', 'make_ints', 'arith', 'aggregate')]
PER_TU = 48
CLANG = True
FLAGS = ['-ftemplate-depth=2000']


def cases(r, tier):
    out = []
    n = 40 if tier == 'quick' else 400
    for op, _ in OPS:
        k = n
        if op in ('arith', 'tuple_visit', 'tuple_range', 'aggregate', 'cat'):
            k = 2 * n
        seen = set()
        for _ in range(k):
            g = G(r)
            l = length(r)
            x = getattr(g, op)(l)
            decl = x[3] if len(x) > 3 else ''
            if (x[0], decl) in seen:
                continue
            seen.add((x[0], decl))
            out.append(Case(op, x[2], x[0], x[1], decl, nontrivial=l > 1, size=len(x[0])))
    r.shuffle(out)
    return out

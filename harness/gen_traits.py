"""C11: traits of composed types against a table."""
from genprog import Case

PRELUDE = r'''
#include <array>
#include <atomic>
#include <chrono>
#include <deque>
#include <forward_list>
#include <functional>
#include <initializer_list>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>
#include "arpc/container/flat_map.h"
#include "arpc/container/flat_set.h"
#include "arpc/serializable.h"
#include "arpc/traits/container_traits.h"
#include "arpc/traits/serialization_traits.h"
#include "arpc/traits/type_traits.h"
namespace tr = arpc::traits;
struct Out {
  std::string s;
  void operator()(const char* n, bool v) { if (v) s += std::string(n) + " "; }
};
template <typename T> std::string any() {  // any qualification
  Out o;
  o("iterable", tr::is_iterable<T>::value); o("iterable_v", tr::is_iterable_v<T>);
  o("citerable", tr::is_const_iterable<T>::value); o("citerable_v", tr::is_const_iterable_v<T>);
  o("contiguous", tr::is_contiguous_sequence<T>::value); o("contiguous_v", tr::is_contiguous_sequence_v<T>);
  o("static", tr::has_static_size<T>::value); o("static_v", tr::has_static_size_v<T>);
  if constexpr (tr::has_static_size<T>::value) {
    o.s += std::to_string(tr::static_size<T>::value) + " ";
    if (tr::static_size_v<T> != tr::static_size<T>::value) o.s += "v-differs ";
  }
  return o.s;
}
template <typename T> std::string cv() {  // not through references
  Out o;
  o("associative", tr::is_associative<T>::value); o("associative_v", tr::is_associative_v<T>);
  o("map", tr::is_map<T>::value); o("map_v", tr::is_map_v<T>);
  o("set", tr::is_set<T>::value); o("set_v", tr::is_set_v<T>);
  o("scalar", tr::is_bit_transferrable_scalar<T>::value); o("scalar_v", tr::is_bit_transferrable_scalar_v<T>);
  o("fields", tr::has_field_descriptors<T>::value); o("fields_v", tr::has_field_descriptors_v<T>);
  o("bases", tr::has_base_classes<T>::value); o("bases_v", tr::has_base_classes_v<T>);
  o("custom", tr::has_custom_serialization<T>::value); o("custom_v", tr::has_custom_serialization_v<T>);
  if (tr::get_custom_serialization_version<T>::value) o.s += "version=" + std::to_string(tr::get_custom_serialization_version<T>::value) + " ";
  if (tr::get_custom_serialization_version_v<T> != tr::get_custom_serialization_version<T>::value) o.s += "v-differs ";
  o("serializable", tr::can_be_serialized<T>::value); o("serializable_v", tr::can_be_serialized_v<T>);
  o("dynamic", arpc::is_dynamic<T>::value); o("dynamic_v", arpc::is_dynamic_v<T>);
  o("aggregate", tr::is_bindable_aggregate<T>::value); o("aggregate_v", tr::is_bindable_aggregate_v<T>);
  if constexpr (tr::has_field_descriptors<T>::value) o.s += "nfields=" + std::to_string(arpc::mpt::size_v<tr::get_field_descriptors_t<T>>) + " ";
  else if (!std::is_same_v<tr::get_field_descriptors_t<T>, arpc::mpt::pack<>>) o.s += "some-fields ";
  if constexpr (tr::has_base_classes<T>::value) o.s += "nbases=" + std::to_string(arpc::mpt::size_v<tr::get_base_classes_t<T>>) + " ";
  else if (!std::is_same_v<tr::get_base_classes_t<T>, arpc::mpt::pack<>>) o.s += "some-bases ";
  return o.s;
}
template <typename T> std::string plain() {  // of values that may be changed
  Out o;
  o("resizable", tr::can_be_resized<T>::value); o("resizable_v", tr::can_be_resized_v<T>);
  o("reservable", tr::can_reserve_capacity<T>::value); o("reservable_v", tr::can_reserve_capacity_v<T>);
  o("multi", tr::is_multi_key_associative<T>::value); o("multi_v", tr::is_multi_key_associative_v<T>);
  return o.s;
}
template <typename A, typename B> std::string same() {
  if constexpr (std::is_same_v<A, B>) return "";
  else return __PRETTY_FUNCTION__;
}
namespace u {
struct Agg1 { int a; };
struct Agg2 { int a; std::string b; Agg1 c; };
struct AggEmpty {};
struct AggInit { int a = 3; std::vector<int> v = {1}; };
struct AggArr { int a[3]; char b[2][2]; };
struct AggBase : AggEmpty { int x; };
struct TwoLayouts : Agg1 { int x; };
struct Private { int a; private: int b; };
struct Ctor { Ctor(int); int a; };
struct Virtual { virtual ~Virtual() {} int a; };
union Union { int a; float b; };
enum Plain { p0, p1 };
enum class Small : unsigned char { s0 };
enum class Big : long { b0 };
struct Begin { int* begin(); int* end(); };
struct BeginConst { const int* begin() const; const int* end() const; };
struct Data { int* begin(); int* end(); int* data(); };
struct DataOther { int* begin(); int* end(); void* data(); };
struct Keyed { using key_type = int; using value_type = long; };
struct KeyedSet { using key_type = int; using value_type = int; };
struct Resizes { using size_type = unsigned; void resize(unsigned); };
struct ResizesInt { using size_type = unsigned; int resize(unsigned); };
struct ResizesNoType { void resize(unsigned); };
struct Reserves { using size_type = long; void reserve(long); };
struct S0 : arpc::serializable<S0> {};
struct S1 : arpc::serializable<S1> { int a; std::string b; ARPC_FIELDS(a, b); };
struct S2 : arpc::serializable<S2, S1> { int c; ARPC_FIELDS(c); };
struct S3 : arpc::serializable<S3, S0, S1> { Private p; template <typename S> void save(S& s) const; template <typename S> void load(S& s); ARPC_CUSTOM_SERIALIZATION_VERSION(7); };
struct S4 : arpc::serializable<S4, S3> { int d; ARPC_FIELDS(d); };
struct S5 : arpc::serializable<S5, S3> { int d; ARPC_FIELDS(d); template <typename S> void save(S& s) const; template <typename S> void load(S& s); ARPC_CUSTOM_SERIALIZATION_VERSION(4000000000u); };
struct D0 : arpc::dynamic<D0> {};
struct D1 : arpc::dynamic<D1, S1> { int e; ARPC_FIELDS(e); };
struct D2 : arpc::dynamic<D2, D1> { int f, g, h; ARPC_FIELDS(f, g, h); };
struct Bare { int x; using field_descriptors = arpc::mpt::pack<arpc::field_descriptor<&Bare::x>>; };
struct BareCustom { static constexpr std::uint32_t custom_serialization_version = 12; };
struct WrongCustom { static constexpr int custom_serialization_version = 12; };
struct Cmp { bool operator()(int, int) const; };
template <typename T> struct Alloc : std::allocator<T> { Alloc(); template <typename U> Alloc(const Alloc<U>&); template <typename U> struct rebind { using other = Alloc<U>; }; };
}
'''

# name -> (words of any, words of cv, words of plain); static:N for fixed sizes
I = 'iterable citerable'
USER = {
    'u::Agg1': ('', 'aggregate', ''), 'u::Agg2': ('', 'aggregate', ''), 'u::AggEmpty': ('', 'aggregate', ''),
    'u::AggInit': ('', 'aggregate', ''), 'u::AggArr': ('', 'aggregate', ''), 'u::AggBase': ('', 'aggregate', ''),
    'u::TwoLayouts': ('', '', ''), 'u::Private': ('', '', ''), 'u::Ctor': ('', '', ''), 'u::Virtual': ('', '', ''),
    'u::Union': ('', '', ''), 'u::Plain': ('', 'scalar', ''), 'u::Small': ('', 'scalar', ''), 'u::Big': ('', 'scalar', ''),
    'u::Keyed': ('', 'associative map aggregate', 'multi'), 'u::KeyedSet': ('', 'associative set aggregate', 'multi'),
    'u::Resizes': ('', 'aggregate', 'resizable'), 'u::ResizesInt': ('', 'aggregate', ''),
    'u::ResizesNoType': ('', 'aggregate', ''), 'u::Reserves': ('', 'aggregate', 'reservable'),
    'u::S0': ('', 'fields bases serializable nfields=0 nbases=0 aggregate', ''),
    'u::S1': ('', 'fields bases serializable nfields=2 nbases=0 aggregate', ''),
    'u::S2': ('', 'fields bases serializable nfields=1 nbases=1', ''),
    'u::S3': ('', 'fields bases custom version=7 serializable nfields=0 nbases=2', ''),
    'u::S4': ('', 'fields bases serializable nfields=1 nbases=1', ''),
    'u::S5': ('', 'fields bases custom version=4000000000 serializable nfields=1 nbases=1', ''),
    'u::D0': ('', 'fields bases serializable dynamic nfields=0 nbases=1', ''),
    'u::D1': ('', 'fields bases serializable dynamic nfields=1 nbases=2', ''),
    'u::D2': ('', 'fields bases serializable dynamic nfields=3 nbases=1', ''),
    'u::Bare': ('', 'fields serializable nfields=1 aggregate', ''),
    'u::BareCustom': ('', 'custom version=12 serializable aggregate', ''), 'u::WrongCustom': ('', 'aggregate', ''),
    'void': ('', '', ''), 'int*': ('', '', ''), 'char*': ('', '', ''), 'std::nullptr_t': ('', '', ''), 'void(*)(int)': ('', '', ''),
    'int u::Agg1::*': ('', '', ''), 'std::chrono::seconds': ('', '', ''),
    'std::chrono::system_clock::time_point': ('', '', ''), 'std::monostate_': None,
    'std::string': (I + ' contiguous', '', 'resizable reservable'), 'std::u16string': (I + ' contiguous', '', 'resizable reservable'),
    'std::string_view': (I + ' contiguous', '', ''), 'std::function<int(char)>': ('', '', ''),
    'std::vector<bool>': (I, '', 'resizable reservable'), 'arpc::dynamic_base_class': ('', 'fields serializable dynamic nfields=0', ''),
}
del USER['std::monostate_']
# Only begin() on a non-const object: not for const (handled through QUALS below).
SCALARS = ['bool', 'char', 'signed char', 'wchar_t', 'char16_t', 'char32_t', 'short', 'unsigned short', 'int', 'unsigned',
           'long', 'unsigned long long', 'float', 'double', 'long double', 'std::int8_t', 'std::uint64_t', '__int128_t_']
SCALARS.pop()
KEYS = ['int', 'char', 'bool', 'u::Plain', 'u::Small', 'std::string', 'long', 'std::uint8_t']
WORDS = {'any': ['iterable', 'citerable', 'contiguous', 'static'],
         'cv': ['associative', 'map', 'set', 'scalar', 'fields', 'bases', 'custom', 'version', 'serializable', 'dynamic', 'aggregate',
                'nfields', 'nbases'],
         'plain': ['resizable', 'reservable', 'multi']}


class T:
    def __init__(self, cpp, any_='', cv='', plain='', decl=None, movable=True, depth=0, writable=None, cont=None):
        self.cpp, self.any, self.cv, self.plain = cpp, any_, cv, plain
        self.decl = decl          # how to declare an alias
        self.depth = depth
        self.writable = writable or cpp
        self.obj = cpp != 'void'


def leaf(r):
    if r.random() < 0.45:
        return T(r.choice(SCALARS), '', 'scalar', '')
    n = r.choice(list(USER))
    return T(n, *USER[n])


def gen(r, d):
    if d <= 0 or r.random() < 0.12:
        return leaf(r)

    def sub(complete=True):
        while True:
            t = gen(r, d - 1)
            if complete and t.cpp in ('void', 'arpc::dynamic_base_class'):
                continue
            return t
    k = r.choice(['vec', 'vec', 'deque', 'list', 'flist', 'array', 'array', 'arr', 'arr', 'map', 'map', 'set', 'set', 'pair', 'tuple', 'tuple',
                  'opt', 'ptr', 'vecalloc', 'ilist', 'rawptr'])
    dep = d
    if k in ('vec', 'vecalloc'):
        t = sub()
        c = 'std::vector<%s>' % t.cpp if k == 'vec' else 'std::vector<%s, u::Alloc<%s>>' % (t.cpp, t.cpp)
        b = t.cpp == 'bool'
        if t.cpp.endswith(']'):
            return T('std::deque<std::pair<int, int>>', I, '', 'resizable', depth=dep)
        return T(c, I + ('' if b else ' contiguous'), '', 'resizable reservable', depth=dep)
    if k in ('deque', 'list', 'flist'):
        t = sub()
        if t.cpp.endswith(']'):
            t = leaf_ok(r)
        n = {'deque': 'deque', 'list': 'list', 'flist': 'forward_list'}[k]
        return T('std::%s<%s>' % (n, t.cpp), I, '', 'resizable', depth=dep)
    if k == 'array':
        t = sub()
        if t.cpp.endswith(']'):
            t = leaf_ok(r)
        n = r.choice([0, 1, 2, 17, 1000])
        # Whether it is a standard layout class depends on the element; nothing binds to it either way.
        x = T('std::array<%s, %d>' % (t.cpp, n), I + ' contiguous static=%d' % n, '', '', depth=dep)
        x.loose = True
        return x
    if k == 'arr':
        t = sub()
        n = r.choice([1, 2, 3, 300])
        if t.cpp.endswith(']') or '(*' in t.cpp or '::*' in t.cpp:
            t = leaf_ok(r)
        base = t.cpp
        m = r.choice([None, None, 2])
        c = '%s[%d]' % (base, n) + ('[%d]' % m if m else '')
        return T(c, I + ' contiguous static=%d' % n, '', '', depth=dep)
    if k in ('map', 'set'):
        key = r.choice(KEYS)
        kind = r.choice(['std', 'std', 'unordered', 'flat', 'flat'])
        multi = r.random() < 0.5
        v = sub()
        while v.cpp.endswith(']') or not kept(v.cpp):
            v = leaf_ok(r)
        n = ('multi' if multi else '') + k
        a = key + (', ' + v.cpp if k == 'map' else '')
        cmp = ''
        if kind != 'unordered' and r.random() < 0.3:
            key = 'int'
            a = key + (', ' + v.cpp if k == 'map' else '') + ', ' + r.choice(['std::greater<int>', 'std::less<>', 'u::Cmp'])
        if kind == 'std':
            c = 'std::%s<%s>' % (n, a)
        elif kind == 'unordered':
            c = 'std::unordered_%s<%s>' % (n, a)
        else:
            c = 'arpc::flat_%s<%s>' % (n, a)
        return T(c, I + (' contiguous' if kind == 'flat' and not c.endswith('set<bool>') else ''), 'associative ' + k, ('' if kind == 'std' else 'reservable ') + ('multi' if multi else ''), depth=dep)
    if k == 'pair':
        a, b = sub(), sub()
        return prod(r, 'std::pair', [a, b], dep)
    if k == 'tuple':
        return prod(r, 'std::tuple', [sub() for _ in range(r.choice([0, 1, 2, 3, 7]))], dep)
    if k == 'opt':
        t = sub()
        if t.cpp.endswith(']'):
            t = leaf_ok(r)
        return T('std::optional<%s>' % t.cpp, depth=dep)
    if k == 'ptr':
        t = gen(r, d - 1)
        c = t.cpp
        if c.endswith(']') or c == 'void':
            c = 'int'
        return T('std::%s<%s>' % (r.choice(['unique_ptr', 'shared_ptr', 'weak_ptr']), c), depth=dep)
    if k == 'ilist':
        t = leaf_ok(r)
        return T('std::initializer_list<%s>' % t.cpp, I, '', '', depth=dep)
    t = leaf_ok(r)
    return T('%s*' % t.cpp, depth=dep) if not ('(*' in t.cpp or '::*' in t.cpp) else t


def kept(c):
    """Can be assigned, as elements of flat containers must be."""
    return not any(x in c for x in ('const', '&', 'u::Virtual', 'u::Union', 'u::BeginConst'))


def leaf_ok(r):
    while True:
        t = leaf(r)
        if t.cpp not in ('void', 'arpc::dynamic_base_class'):
            return t


def prod(r, name, ts, dep):
    """Elements may be const or references."""
    cs, ws = [], []
    for t in ts:
        q = r.choice(['', '', '', 'const', '&', 'const&', '&&'])
        c = t.cpp
        if c.endswith(']') or '(*' in c or '::*' in c:
            q, c = '', ('int' if c.endswith(']') else c)
        cs.append({'': c, 'const': 'const ' + c, '&': c + '&', 'const&': 'const %s&' % c, '&&': c + '&&'}[q] if not c.endswith('*') or q in ('', '&', '&&')
                  else (c + ' ' + q))
        ws.append(c)
    n = len(cs)
    return T('%s<%s>' % (name, ', '.join(cs)), 'static=%d' % n, '', '', depth=dep, writable='%s<%s>' % (name, ', '.join(ws)))


def want(words):
    out = ''
    for w in words.split():
        n, _, v = w.partition('=')
        if n in ('version', 'nfields', 'nbases'):
            out += w + ' '
        elif n == 'static':
            out += 'static static_v %s ' % v
        else:
            out += '%s %s_v ' % (n, n)
    return out


ORDER = ['iterable', 'citerable', 'contiguous', 'static', 'associative', 'map', 'set', 'scalar', 'fields', 'bases', 'custom', 'version',
         'serializable', 'dynamic', 'aggregate', 'nfields', 'nbases', 'resizable', 'reservable', 'multi']


def norm(words):
    return ' '.join(sorted(words.split(), key=lambda w: ORDER.index(w.partition('=')[0])))


def cases(r, tier):
    out = []
    k = 1 if tier == 'quick' else 10
    todo = [T(s, '', 'scalar', '') for s in SCALARS] + [T(n, *USER[n]) for n in sorted(USER)]
    todo += [gen(r, r.choice([1, 1, 2, 3])) for _ in range(900 * k)]
    seen = set()
    for t in todo:
        if t.cpp in seen:
            continue
        seen.add(t.cpp)
        fun = t.cpp.startswith('void(')
        decl = 'using X = %s;' % t.cpp
        quals = ['X', 'const X', 'X&', 'const X&', 'X&&', 'volatile X']
        loose = getattr(t, 'loose', False)
        code = ['std::string s;']
        w = ''
        for q in quals:
            if t.cpp == 'void' and '&' in q:
                continue
            if q == 'volatile X' and ('iterable' in t.any or t.cpp == 'void'):
                continue
            code.append('s += any<%s>() + "/";' % q)
            w += want(norm(t.any)) + '/'
            if '&' not in q and not (q == 'volatile X' and (t.cpp.startswith('u::') or t.cpp == 'arpc::dynamic_base_class')):
                code.append('s += cv<%s>() + "/";' % q if not loose else
                            '{ std::string z = cv<%s>(); auto p = z.find("aggregate"); if (p != std::string::npos) z.resize(p); s += z + "/"; }' % q)
                w += want(norm(t.cv)) + '/'
            # Qualifiers go, only there.
            code.append('s += same<tr::remove_cvref_t<%s>, X>();' % q)
            if not (q == 'volatile X' and t.cpp == 'void'):
                code.append('s += same<tr::writable_value_type_t<%s>, %s>();' % (q, t.writable if t.writable != t.cpp else 'X'))
        code.append('s += plain<X>();')
        w += want(norm(t.plain))
        code.append('return s;')
        # A comma separates nothing here, so the alias carries the type.
        out.append(Case('traits', None, '\n'.join(code), w, decl, nontrivial=t.depth > 0, size=len(t.cpp), desc='traits of ' + t.cpp))
    # Only one of begin() and begin() const.
    for n, w in [('u::Begin', 'iterable'), ('u::BeginConst', 'iterable citerable'), ('u::Data', 'iterable contiguous'), ('u::DataOther', 'iterable')]:
        out.append(Case('begin', None, 'return any<%s>();' % n, want(w), nontrivial=True, desc='begin of ' + n))
    out.append(Case('begin', None, 'return any<const u::Begin>() + any<const u::BeginConst>();', want('iterable citerable'), desc='begin of const'))
    # Members.
    for n in range(150 * k):
        ts = []
        while len(ts) < 4:
            t = gen(r, r.choice([0, 1, 2]))
            if t.cpp not in ('void', 'arpc::dynamic_base_class') and '(*' not in t.cpp and '::*' not in t.cpp and not t.cpp.endswith(']') \
                    and 'initializer_list' not in t.cpp:
                ts.append(t)
        q = [r.choice(['%s', '%s', 'const %s', '%s&', 'const %s&', '%s&&', '%s*']) for _ in ts]
        a = ['A%d' % i for i in range(4)]
        args = [q[i].replace('%s', a[i]) for i in range(4)][:r.choice([0, 1, 2, 3, 4])]
        ret = r.choice(['void', 'A0', 'A1&', 'const A2&', 'A3*', 'std::vector<A0>'])
        const = r.random() < 0.5
        decl = '\n'.join('using A%d = %s;' % (i, ts[i].cpp) for i in range(4))
        fq = [x for x in (r.choice(['A0', 'const A0', 'A0*', 'std::pair<A0, A1>']),)]
        decl += '\nstruct B { %s f; %s m(%s)%s; void m2() const; };\nstruct D : B {};\n' % (
            fq[0], ret, ', '.join('%s x%d' % (x, i) for i, x in enumerate(args)), ' const' if const else '')
        code = ['std::string s;', 'using F = tr::member_data_pointer_traits<&D::f>;',
                's += same<F::data_type, %s>() + same<F::class_type, B>() + same<F::data_ptr_type, %s B::*>();' % (fq[0], fq[0]),
                'if constexpr (F::data_ptr != &B::f) s += "data_ptr";',
                'using M = tr::member_function_pointer_traits<&D::m>;',
                's += same<M::return_type, %s>() + same<M::class_type, B>();' % ret,
                'if (M::is_const != %s) s += "is_const";' % ('true' if const else 'false'),
                'if constexpr (M::method_ptr != &B::m) s += "method_ptr";',
                's += same<M::method_ptr_type, %s (B::*)(%s)%s>();' % (ret, ', '.join(args), ' const' if const else ''),
                's += same<M::method_type, %s(%s)%s>();' % (ret, ', '.join(args), ' const' if const else ''),
                's += same<M::args_tuple_type, std::tuple<%s>>();' % ', '.join(bare(x) for x in args),
                's += same<M::args_ref_tuple_type, std::tuple<%s>>();' % ', '.join('const std::add_const_t<%s>&' % bare(x) for x in args),
                's += same<M::return_tuple_type, std::tuple<%s>>();' % ('' if ret == 'void' else ret),
                'return s;']
        out.append(Case('members', None, '\n'.join(code), '', decl, size=len(decl), desc='members: ' + ' '.join(decl.split())[:200]))
    return out


def bare(x):
    """Without qualifiers and reference, at the top level."""
    x = x.rstrip('&')
    return x[6:] if x.startswith('const ') and not x.endswith('*') else x


PER_TU = 35
CLANG = True
LIB = True
FLAGS = ['-Wno-error']

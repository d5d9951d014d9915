"""C08: what the field, base, custom serialization and enum macros declare."""
from genprog import Case

PRELUDE = r'''
#include <array>
#include <cstdint>
#include <map>
#include <memory>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <vector>
#include "arpc/binary_codecs.h"
#include "arpc/enum.h"
#include "arpc/mpt.h"
#include "arpc/serializable.h"
#include "arpc/string_adapters.h"
#include "arpc/traits/serialization_traits.h"
namespace tr = arpc::traits;
template <typename A, typename B> std::string same() {
  if constexpr (std::is_same_v<A, B>) return "";
  else return __PRETTY_FUNCTION__;
}
inline void put(std::int32_t& x, int v) { x = v; }
inline void put(std::uint8_t& x, int v) { x = static_cast<std::uint8_t>(v); }
inline void put(std::int16_t& x, int v) { x = static_cast<std::int16_t>(v); }
inline void put(std::string& x, int v) { x = std::string(v % 3, static_cast<char>('a' + v % 26)); }
inline void put(std::vector<std::int16_t>& x, int v) { x.assign(v % 3, static_cast<std::int16_t>(v)); }
inline void put(std::array<std::uint8_t, 2>& x, int v) { x = {static_cast<std::uint8_t>(v), static_cast<std::uint8_t>(v + 1)}; }
inline void put(std::pair<std::uint8_t, std::int32_t>& x, int v) { x = {static_cast<std::uint8_t>(v), v + 2}; }
inline void put(double& x, int v) { x = v; }
template <typename T> std::string encode(const T& v) {
  std::string s;
  arpc::string_output_stream out(s);
  arpc::little_endian_binary_encoder e(out);
  e(v);
  std::string h;
  char b[4];
  for (unsigned char c : s) { std::snprintf(b, sizeof b, "%02x", c); h += b; }
  return h;
}
/// Names and, through the descriptors, contents.
template <typename T> std::string describe(T& v) {
  std::string s;
  arpc::mpt::for_each(typename T::field_descriptors{}, [&](auto d) {
    using D = typename decltype(d)::type;
    s += D::name();
    s += same<typename D::class_type, T>();
    s += "=";
    put(v.*D::data_ptr, 200);
    s += encode(v.*D::data_ptr) + ",";
  });
  return s;
}
namespace u {
struct PlainBase { int not_serialized = 9; };
}
'''
import struct


def enc(t, v):
    """Bytes of put(t, v) in little endian."""
    if t == 'std::int32_t':
        return struct.pack('<i', v)
    if t == 'std::uint8_t':
        return bytes([v & 255])
    if t == 'std::int16_t':
        return struct.pack('<h', v)
    if t == 'double':
        return struct.pack('<d', v)
    if t == 'std::string':
        return bytes([v % 3]) + bytes([97 + v % 26]) * (v % 3)
    if t.startswith('std::vector'):
        return bytes([v % 3]) + struct.pack('<h', v) * (v % 3)
    if t.startswith('std::array'):
        return bytes([v & 255, (v + 1) & 255])
    return bytes([v & 255]) + struct.pack('<i', v + 2)


FT = ['std::int32_t', 'std::uint8_t', 'std::int16_t', 'double', 'std::string', 'std::vector<std::int16_t>', 'std::array<std::uint8_t, 2>',
      'std::pair<std::uint8_t, std::int32_t>']
NAMES = ['a', 'b', 'x1', 'value_', '_v', 'longer_name', 'Z', 'size', 'name', 'data', 'v_9', 'type', 'first', 'own', 'base', 'T_', 'fields']
BASES = [('std::int8_t', -128, 127), ('std::uint8_t', 0, 255), ('std::int16_t', -2**15, 2**15 - 1), ('std::uint16_t', 0, 2**16 - 1),
         ('std::int32_t', -2**31, 2**31 - 1), ('std::uint32_t', 0, 2**32 - 1), ('std::int64_t', -2**63 + 1, 2**63 - 1),
         ('std::uint64_t', 0, 2**64 - 1), ('char', -128, 127), ('int', -2**31, 2**31 - 1), ('bool', 0, 1)]


def lit(v, t):
    if t == 'bool':
        return 'true' if v else 'false'
    return str(v) + ('u' if v >= 0 and ('uint' in t) else '') + ('l' if '64' in t else '')


class Cls:
    pass


def hierarchy(r, tag):
    """Random classes, later ones deriving from earlier ones."""
    out = []
    n = r.choice([1, 2, 3, 4, 5, 6])
    for i in range(n):
        c = Cls()
        c.name = 'K%d' % i
        c.template = r.random() < 0.2
        c.spelled = c.name + ('<std::int32_t>' if c.template else '')
        c.bases, used = [], set()
        for b in r.sample(out, min(len(out), r.choice([0, 0, 1, 1, 2, 3]))):
            # No class twice in the hierarchy, and one dynamic base.
            if b.all & used or (b.dyn and any(x.dyn for x in c.bases)):
                continue
            used |= b.all
            c.bases.append(b)
        c.dynbase = r.random() < 0.3
        c.dyn = c.dynbase or any(b.dyn for b in c.bases)
        c.all = used | {c.name}
        k = r.choice([0, 1, 1, 2, 3, 4, 9, 16])
        names = r.sample(NAMES, min(k, len(NAMES)))
        c.fields = [(x, 'T' if c.template and r.random() < 0.3 else r.choice(FT)) for x in names]
        c.declared = c.fields[:]
        r.shuffle(c.declared)
        if r.random() < 0.3 and len(c.declared) > 1:
            c.declared = c.declared[:r.randint(1, len(c.declared))]
        if r.random() < 0.1:
            c.declared = []
        c.macro = bool(c.declared) or r.random() < 0.5
        c.custom = r.choice([None, None, None, 1, 2, 77, 4000000000])
        c.private = r.random() < 0.4
        out.append(c)
    return out


def body(c):
    s = ''
    if c.template:
        s += 'template <typename T>\n'
    args = [c.spelled if not c.template else c.name + '<T>'] + [b.spelled for b in c.bases]
    s += 'struct %s : arpc::%s<%s> {\n' % (c.name, 'dynamic' if c.dynbase else 'serializable', ', '.join(args))
    if c.template:
        s += '  ARPC_OWN_TYPE(%s);\n' % c.name
    if c.private and not c.template:
        s += ' private:\n'
    s += ''.join('  %s %s{};\n' % (t, f) for f, t in c.fields)
    s += '  int undeclared = 77;\n public:\n'
    if c.macro:
        s += '  ARPC_FIELDS(%s);\n' % ', '.join(f for f, _ in c.declared) if c.declared else '  ARPC_FIELDS();\n'
    if c.custom:
        s += '  ARPC_CUSTOM_SERIALIZATION_VERSION(%du);\n' % c.custom
        s += '  template <typename S> void save(S& s) const { s(std::uint8_t{%d}); s(custom_%s); }\n' % (0xc0 + int(c.name[1:]), c.name)
        s += '  template <typename S> void load(S& s) { std::uint8_t k; s(k); s(custom_%s); ++loads_%s; }\n' % (c.name, c.name)
        s += '  std::int16_t custom_%s = 0; int loads_%s = 0;\n' % (c.name, c.name)
    s += '  void fill(int v) {\n'
    for i, (f, t) in enumerate(c.fields):
        s += '    put(%s, v + %d);\n' % ('this->' + f, i)
    if c.custom:
        s += '    custom_%s = static_cast<std::int16_t>(v + 50);\n' % c.name
    s += ''.join('    this->%s::fill(v + %d);\n' % (b.name if not b.template else 'template ' + b.spelled if False else b.spelled, 100 * (i + 1))
                 for i, b in enumerate(c.bases))
    s += '  }\n  std::string dump() const {\n    std::string s = "{";\n'
    s += ''.join('    s += encode(%s) + ",";\n' % ('this->' + f) for f, _ in c.fields)
    if c.custom:
        s += '    s += encode(custom_%s) + "#" + std::to_string(loads_%s);\n' % (c.name, c.name)
    s += ''.join('    s += this->%s::dump();\n' % b.spelled for b in c.bases)
    s += '    return s + "}";\n  }\n'
    return s + '};\n'


def ty(t):
    return 'std::int32_t' if t == 'T' else t


def wire(c, v):
    out = b''
    for i, b in enumerate(c.bases):
        out += wire(b, v + 100 * (i + 1))
    idx = {f: i for i, (f, _) in enumerate(c.fields)}
    for f, t in c.declared:
        out += enc(ty(t), v + idx[f])
    if c.custom:
        out += bytes([0xc0 + int(c.name[1:])]) + struct.pack('<h', v + 50)
    return out


def dump(c, v):
    """As dump() shows an object decoded from wire(c, v) into an empty one."""
    s = '{'
    d = {f for f, _ in c.declared}
    zero = {'std::string': b'\0', 'std::vector<std::int16_t>': b'\0'}
    for i, (f, t) in enumerate(c.fields):
        t = ty(t)
        x = enc(t, v + i) if f in d else zero.get(t, {'std::array<std::uint8_t, 2>': bytes(2), 'std::pair<std::uint8_t, std::int32_t>': bytes(5)}.get(t) or
                                                  bytes(len(enc(t, 0))))
        s += x.hex() + ','
    if c.custom:
        s += struct.pack('<h', v + 50).hex() + '#1'
    for i, b in enumerate(c.bases):
        s += dump(b, v + 100 * (i + 1))
    return s + '}'


def classes_case(r, tag):
    cs = hierarchy(r, tag)
    c = cs[-1]
    decls = ''.join(body(x) for x in cs)
    code = ['std::string s;', 'using X = %s;' % c.spelled]
    want = ''
    ob = ['arpc::dynamic_base_class'] if c.dynbase and not any(b.dyn for b in c.bases) else []
    ob += [b.spelled for b in c.bases]
    db = (['arpc::dynamic_base_class'] if c.dynbase and not any(b.dyn for b in c.bases) else []) + [b.spelled for b in c.bases if b.dyn]
    code.append('s += same<X::base_classes, arpc::mpt::pack<%s>>() + same<tr::get_base_classes_t<X>, X::base_classes>();' % ', '.join(ob))
    code.append('s += same<X::dynamic_base_classes, arpc::mpt::pack<%s>>();' % ', '.join(db))
    code.append('s += same<X::own_type, X>();')
    code.append('s += std::to_string(arpc::mpt::size_v<X::field_descriptors>) + std::to_string(arpc::is_dynamic_v<X>) + std::to_string(tr::has_custom_serialization_v<X>) + std::to_string(tr::get_custom_serialization_version<X>::value) + " ";')
    want += '%d%d%d%d ' % (len(c.declared), c.dyn, bool(c.custom), c.custom or 0)
    if c.declared:
        code.append('s += same<arpc::mpt::pack<%s>, arpc::mpt::transform_t<X::field_descriptors, DataType>>();' % ', '.join(ty(t) for _, t in c.declared)
                    if False else '')
        for i, (f, t) in enumerate(c.declared):
            code.append('s += same<typename arpc::mpt::element_type_t<%d, X::field_descriptors>::type::data_type, %s>();' % (i, ty(t)))
        code.append('for (auto n : X::field_names()) s += std::string(n) + ";";')
        want += ''.join(f + ';' for f, _ in c.declared)
    if True:
        code.append('{ X x; x.fill(10); s += encode(x) + " "; }')
        want += wire(c, 10).hex() + ' '
        code.append('{ X x; x.fill(10); std::string b; arpc::string_output_stream o(b); arpc::little_endian_binary_encoder e(o); e(x);'
                    ' X y; arpc::string_input_stream in(b); arpc::little_endian_binary_decoder d(in); d(y); s += y.dump() + " "; }')
        want += dump(c, 10) + ' '
        code.append('{ X x; s += describe(x); }')
        want += ''.join('%s=%s,' % (f, enc(ty(t), 200).hex()) for f, t in c.declared)
    if c.dyn:
        code.append('{ X x; const arpc::dynamic_base_class& d = x; s += std::string(d.portable_class_name()) + std::string(arpc::portable_class_name<X>()); }')
        want += ('name of %s' % c.name) * 2
    code.append('return s;')
    # Dynamic classes need a definition of their name.
    post = ''.join('namespace arpc { namespace detail { template <> std::string_view dynamic_class_descriptor<NS::%s>::class_name = "name of %s"; } }\n' % (
        x.spelled, x.name) for x in cs if x.dyn)
    desc = '; '.join('%s%s(%s)%s fields %s of %s' % (x.name, ' dynamic' if x.dynbase else '', ', '.join(b.name for b in x.bases),
                                                     ' custom' if x.custom else '', [f for f, _ in x.declared], [f for f, _ in x.fields]) for x in cs)
    return Case('class', None, '\n'.join(code), want, decls, nontrivial=len(c.declared) > 1 or bool(c.bases), size=len(decls), desc=desc, post=post)


def enum_case(r, i):
    t, lo, hi = r.choice(BASES)
    n = 'En%d' % i
    k = r.choice([1, 1, 2, 3, 4, 7, 20, 100])
    if r.random() < 0.5:
        vals = [r.randint(max(lo, -300), min(hi, 300)) for _ in range(k)]
    else:
        vals = [r.choice([lo, hi, 0, r.randint(lo, hi)]) for _ in range(k)]
    if r.random() < 0.8:
        vals = list(dict.fromkeys(vals))
    names = ['%s%d' % (r.choice(['red', 'Green', 'blue_', 'k', 'entry', 'X_']), j) for j in range(len(vals))]
    unknown = r.choice(['unknown', '', '???', 'red0', 'a b'])
    pre = 'ARPC_ENUM(%s, %s, "%s", %s);' % (n, t, unknown, ', '.join('(%s, %s)' % (a, lit(v, t)) for a, v in zip(names, vals)))
    code = ['std::string s;', 'using N = arpc::enum_names<%s>;' % n, 's += same<std::underlying_type_t<%s>, %s>();' % (n, t)]
    want = ''
    table = {}
    for a, v in zip(names, vals):
        table.setdefault(v, a)
    for a, v in zip(names, vals):
        code.append('s += std::to_string(static_cast<%s>(%s::%s)) + N::name(%s::%s) + ",";' % (t, n, a, n, a))
        want += '%d%s,' % (v, table[v])
    probes = {lo, hi, 0, 1} | {r.randint(lo, hi) for _ in range(6)} | {r.randint(max(lo, -300), min(hi, 300)) for _ in range(6)}
    probes |= {min(hi, max(lo, v + d)) for v in vals[:5] for d in (-1, 1, 256, -256, 65536, 2**32)}
    for v in sorted(probes):
        code.append('s += std::string(N::name(static_cast<%s>(%s))) + ",";' % (n, lit(v, t)))
        want += (table[v] if v in table else unknown) + ','
    code.append('return s;')
    return Case('enum', None, '\n'.join(code), want, pre=pre, nontrivial=len(vals) > 1, size=len(pre), desc=pre[:300])


def cases(r, tier):
    k = 1 if tier == 'quick' else 8
    out = [enum_case(r, i) for i in range(120 * k)]
    out += [classes_case(r, i) for i in range(220 * k)]
    r.shuffle(out)
    return out


PER_TU = 20
CLANG = True
LIB = True
FLAGS = ['-Wno-error']

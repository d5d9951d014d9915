"""C10: preprocessor list macros against Python lists. The expansion is turned
into a string and compared without its white space."""
from genprog import Case

PRELUDE = r'''
#include <string>
#include "arpc/preprocessor.h"
#define V_STR_(...) #__VA_ARGS__
#define V_STR(...) V_STR_(__VA_ARGS__)
inline std::string squeeze(const std::string& s) {
  std::string o;
  for (char c : s) if (c != ' ' && c != '\n' && c != '\t') o += c;
  return o;
}
#define V_CASE(...) return squeeze(V_STR(__VA_ARGS__))
#define V_COMMA() ,
#define V_PLUS() +
#define V_NONE()
#define V_SEMI() ;x;
#define V_PARENS() ()
#define V_BRACKET(x) [x]
#define V_TWICE(x) x * x
#define V_QUOTE(x) #x
#define V_CALL(x) V_APPLY x
#define V_APPLY(...) {__VA_ARGS__}
#define V_PAIR(...) ARPC_NO_PARENS(V_PAIR_, __VA_ARGS__)
#define V_PAIR_(a, b) a = b
#define V_KEEP(...) __VA_ARGS__ |
#define V_INDEX(i, ...) <i: __VA_ARGS__>
#define V_INDEX_1(i, a) a i
#define V_DROP(i, ...) i
'''
WORDS = ['a', 'b', 'foo', 'x1', '_u', '7', '42', '0', '1', '0x1f', '3.5', 'int', 'std::string', '"s"', "'c'", '-1', 'p->q',
         'a+b', '[i]', '{', '}', 'const T&', 'V_UNDEFINED', '"a,b"', '"("', '"a b"', 'x[1]', 'A<int>', '...']
PARENS = ['(x)', '(x, y)', '(1, (2, 3))', '()', 'f(a, b)', '((x))', 'g()', '(a)b', '(,)']
SEPS = {'V_COMMA': ',', 'V_PLUS': '+', 'V_NONE': '', 'V_SEMI': ';x;', 'V_PARENS': '()'}


def sq(s):
    return ''.join(c for c in s if c not in ' \n\t')


def lit(s):
    return s


def args(r, n, parens=True, empties=True):
    out = []
    for _ in range(n):
        k = r.random()
        if parens and k < 0.15:
            out.append(r.choice(PARENS))
        elif empties and k < 0.2 and n > 1:
            out.append('')
        else:
            out.append(r.choice(WORDS))
    # The test for an empty list puts a macro in front of the first argument, which may make two of it.
    if n >= 256 and out[0].startswith('('):
        out[0] = 'first'
    return out


def count_len(r):
    return r.choice([0, 1, 1, 2, 3, 4, 5, r.randint(6, 30), r.randint(6, 30), r.randint(30, 256), r.choice([127, 128, 254, 255, 256])])


def quote(s):
    """What # makes of an argument (white space aside), then stringized again."""
    return '"%s"' % s.replace('\\', '\\\\').replace('"', '\\"') if ('"' in s or "'" in s) else '"%s"' % s


WHATS = [('V_BRACKET', lambda x: '[%s]' % x), ('V_TWICE', lambda x: '%s*%s' % (x, x)), ('V_KEEP', lambda x: '%s|' % x)]


def cases(r, tier):
    out = []

    def add(op, args, code, want, decls='', n=2):
        out.append(Case(op, None, code, sq(want), decls, nontrivial=n > 1, size=len(code), desc='%s: %s' % (op, sq(code)[:200])))

    def case(op, expr, want, n=2, decls=''):
        add(op, None, 'V_CASE(%s);' % expr, want, decls, n)
    k = 1 if tier == 'quick' else 8
    # Every length once, with arguments of all kinds.
    for n in range(257):
        if k == 1 and n > 40 and r.random() < 0.5 and n not in (63, 64, 127, 128, 254, 255, 256):
            continue
        a = args(r, n)
        case('count', 'ARPC_ARG_COUNT(%s)' % ', '.join(a), str(n), n)
        s = r.choice(list(SEPS))
        w, f = r.choice(WHATS)
        a = args(r, n)
        case('foreach', 'ARPC_FOREACH(%s, %s%s)' % (w, s, ''.join(', ' + x for x in a) if n else r.choice([',', ', '])),
             SEPS[s].join(f(x) for x in a), n)
        s = r.choice(list(SEPS))
        extra = args(r, r.choice([1, 1, 2, 3]), empties=False)
        case('for', 'ARPC_FOR(%d, V_INDEX, %s, %s)' % (n, s, ', '.join(extra)),
             SEPS[s].join('<%d:%s>' % (i, ','.join(extra)) for i in range(n, 0, -1)), n)
    for _ in range(60 * k):
        n = count_len(r)
        a = args(r, n)
        case('count', 'ARPC_ARG_COUNT(%s)' % ', '.join(a), str(n), n)
        a = args(r, min(n, 40))
        s = r.choice(list(SEPS))
        w, f = r.choice(WHATS)
        case('foreach', 'ARPC_FOREACH(%s, %s, %s)' % (w, s, ', '.join(a)), SEPS[s].join(f(x) for x in a), len(a))
        # Stringized elements keep their text.
        a = [x for x in args(r, min(n, 20), empties=False) if '"' not in x and "'" not in x] or ['z']
        case('foreach_quote', 'ARPC_FOREACH(V_QUOTE, V_COMMA, %s)' % ', '.join(a), ','.join('"%s"' % x for x in a), len(a))
        # Parenthesized elements taken apart.
        p = [(r.choice(WORDS[:4]), r.choice(WORDS[5:9])) for _ in range(max(1, min(n, 30)))]
        case('foreach_pairs', 'ARPC_FOREACH(V_PAIR, V_SEMI, %s)' % ', '.join('(%s, %s)' % x for x in p),
             ';x;'.join('%s=%s' % x for x in p), len(p))
        # Arguments that are macros, expanded once before.
        decl = '#define V_LIST%d %s' % (len(out), ', '.join(a))
        case('foreach_expanded', 'ARPC_FOREACH(V_BRACKET, V_PLUS, V_LIST%d)' % len(out), '+'.join('[%s]' % x for x in a), len(a), decl)
        case('count_expanded', 'ARPC_ARG_COUNT(V_LIST%d)' % len(out), str(len(a)), len(a), '#define V_LIST%d %s' % (len(out), ', '.join(a)))
        # Nested, as the library does it.
        i, j = r.randint(1, 12), r.randint(1, 12)
        d = '#define V_IN%d(x) (ARPC_DEFER_2(ARPC_FOREACH_AGAIN)()(V_BRACKET, V_PLUS%s))\n' % (
            len(out), ''.join(', b%d' % q for q in range(j)))
        # ARPC_FOREACH within ARPC_FOREACH needs the deferred form and an expansion.
        case('nested_foreach', 'ARPC_EXPAND(ARPC_FOREACH(V_IN%d, V_COMMA, %s))' % (len(out), ', '.join('a%d' % q for q in range(i))),
             ','.join(['(%s)' % '+'.join('[b%d]' % q for q in range(j))] * i), i, d)
        d = '#define V_IN%d(i, ...) (ARPC_DEFER_2(ARPC_FOR_AGAIN)()(i, V_DROP, V_PLUS))\n' % len(out)
        case('nested_for', 'ARPC_EXPAND(ARPC_FOR(%d, V_IN%d, V_COMMA))' % (i, len(out)),
             ','.join('(%s)' % '+'.join(str(z) for z in range(q, 0, -1)) for q in range(i, 0, -1)), i, d)
        # Several deferrals need as many expansions.
        lv = r.randint(1, 4)
        case('defer', 'ARPC_EXPAND(ARPC_DEFER_%d(V_BRACKET)(q))' % lv, '[q]')
        case('defer_kept', 'ARPC_EXPAND_1(ARPC_DEFER_1(V_BRACKET)(%s))' % a[0], '[%s]' % a[0])
        # Conditionals.
        c = r.choice([0, 1, 2, 7, 255])
        x, y = args(r, r.choice([0, 1, 2, 3])), args(r, r.choice([0, 1, 2, 3]))
        if r.random() < 0.5:
            cc = 'ARPC_ARG_COUNT(%s)' % ', '.join('k' * 3 for _ in range(c)) if c < 9 else str(c)
        else:
            cc = str(c)
        case('if', 'ARPC_IF(%s)(%s)' % (cc, ', '.join(x)), ','.join(x) if c else '')
        case('if_else', 'ARPC_IF_ELSE(%s)(%s)(%s)' % (cc, ', '.join(x), ', '.join(y)), ','.join(x if c else y))
        b = r.choice(['0', '1', '2', 'z', '10', 'true_'])
        case('not_bool', 'ARPC_NOT(%s) ARPC_BOOL(%s) ARPC_NOT(ARPC_NOT(%s))' % (b, b, b), '100' if b == '0' else '011')
        case('nested_if', 'ARPC_IF_ELSE(ARPC_NOT(%s))(ARPC_IF(ARPC_IS_EMPTY(%s))(e))(n)' % (cc, ', '.join(x)),
             'n' if c else ('e' if not x or x == [''] else ''))
        # Emptiness and commas.
        z = r.choice([[], args(r, 1, empties=False), args(r, 2), args(r, r.randint(3, 40))])
        case('is_empty', 'ARPC_IS_EMPTY(%s)' % ', '.join(z), '1' if not z else '0', len(z))
        case('has_comma', 'ARPC_HAS_COMMA(%s)' % ', '.join(z), '1' if len(z) > 1 else '0', len(z))
        case('second', 'ARPC_SECOND(%s)' % ', '.join(['a'] + z + ['t', 'u']), (z + ['t'])[0], len(z))
        # Tokens.
        p, q = r.choice(['a', 'b1', '_', 'ARPC_']), r.choice(['c', '12', '_d'])
        case('concat', 'ARPC_CONCAT(%s, %s)' % (p, q), p + q)
        w = r.choice(['abc', '1 + 2', 'x->y', '(a, b)', 'f(x)', '__LINE__', 'V_PLUS', 'ARPC_EMPTY'])
        add('stringize', None, 'return squeeze(ARPC_STRINGIZE(%s));' % w, w)
        case('no_parens', 'ARPC_NO_PARENS(V_APPLY, (%s))' % ', '.join(z), '{%s}' % ','.join(z), len(z))
        case('empty', 'q ARPC_EMPTY() w ARPC_EMPTY ARPC_EMPTY()() z', 'qwz')
        # Used the way ARPC_ENUM and ARPC_FIELDS use them: names of the fields.
    return out


PER_TU = 90
CLANG = True
FLAGS = ['-Wno-error']

"""Random hierarchies of polymorphic serializable classes, and types made of
pointers to them, for C04."""
import os
import gen_types


def generate(ctx):
    seed = ctx.seed if ctx.tier == 'quick' else ctx.seed + 77
    u = gen_types.Universe(seed, shared=False)
    r = u.r
    classes = []   # dict(name, parent, reg)
    roots = 3
    decls, models, regs, polys = u.decls, u.models, [], []

    def ptr(cands):
        k = r.choice(cands)
        return r.choice(['std::shared_ptr', 'std::unique_ptr', 'std::weak_ptr']) + '<%s>' % k['name']

    n = 0
    sentinel = []
    for root in range(roots):
        tree = []
        size = [7, 4, 3][root]
        for i in range(size):
            n += 1
            name = 'K%02d' % n
            parent = None
            if i:
                # One deep chain in the first tree, bushy otherwise.
                parent = tree[-1] if (root == 0 and i < 6) else r.choice(tree)
            plain = []
            for _ in range(r.choice([0, 0, 1, 2])):
                plain.append(u.make_cls([], [u.scalar(), u.string()][:r.randint(1, 2)], [u.scalar()] if r.random() < 0.3 else None)[1])
            fields = [u.cpp(u.type(1, nocopy_ok=True)) for _ in range(r.choice([0, 1, 1, 2, 3]))]
            if classes and r.random() < 0.6:
                fields.append(ptr(classes))
            if tree and r.random() < 0.4:
                fields.append('std::vector<%s>' % ptr(tree))
            if i == 0 and not fields:
                fields = ['std::string']
            custom = [u.cpp(u.type(1)) for _ in range(1)] if r.random() < 0.25 else []
            bases = list(plain)
            pos = r.randint(0, len(bases))
            if parent:
                bases.insert(pos, parent['name'])
                head = 'arpc::serializable<%s>' % ', '.join([name] + bases)
            else:
                head = 'arpc::dynamic<%s>' % ', '.join([name] + bases)
            abstract = False  # abstract classes of the library do not link: they cannot be registered
            body = ['struct %s : %s {' % (name, head)]
            if i == 0:
                body.append('  virtual int tag_%d() const%s' % (root, ' { return %d; }' % n))
            elif root == 1:
                body.append('  int tag_1() const override { return %d; }' % n)
            if abstract and root == 0:
                body.append('  virtual void pure_%s() = 0;' % name)
            elif parent and parent.get('pure'):
                body.append('  void pure_%s() override {}' % parent['pure'])
            pure = name if (abstract and root == 0) else None
            ps = []
            for j, f in enumerate(fields):
                body.append('  %s %sf%d{};' % (f, name.lower(), j))
                ps.append('&u::%s::%sf%d' % (name, name.lower(), j))
            for j, f in enumerate(custom):
                body.append('  %s %sx%d{};' % (f, name.lower(), j))
                ps.append('&u::%s::%sx%d' % (name, name.lower(), j))
            body.append('  ARPC_FIELDS(%s)' % ', '.join('%sf%d' % (name.lower(), j) for j in range(len(fields))))
            if custom:
                body.append('  ARPC_CUSTOM_SERIALIZATION_VERSION(%d);' % r.randint(1, 5))
                for m, c in (('save', ' const'), ('load', '')):
                    body.append('  template <typename S> void %s(S& s)%s { %s }' % (
                        m, c, ' '.join('s(%sx%d);' % (name.lower(), j) for j in range(len(custom)))))
            body.append('};')
            decls.append('\n'.join(body))
            # A root made with arpc::dynamic has dynamic_base_class (no content) as its first base.
            models.append('template <> struct M<u::%s> : ClassM<u::%s, Bases<%s>, Ptrs<%s>> {};' % (
                name, name, ', '.join('u::' + b for b in bases), ', '.join(ps)))
            k = dict(name=name, parent=parent, abstract=abstract, pure=pure)
            anc = []
            p = parent
            while p:
                anc.append('u::' + p['name'])
                p = p['parent']
            k['anc'] = anc
            k['root'] = root
            tree.append(k)
            if not abstract:
                if r.random() < 0.5:
                    regs.append('ARPC_REGISTER(u::%s);' % name)
                    port = 'u::' + name
                else:
                    port = r.choice(['n/%02d ' % n + 'x', 'A%04d' % n, 'é%03d' % n])
                    regs.append('ARPC_REGISTER_WITH_NAME("%s", u::%s);' % (port, name))
                polys.append('model::poly<%s>("%s")' % (', '.join(['u::' + name] + anc), port))
            classes.append(k)
    # A pure class needs a concrete descendant: root 0's chain guarantees it (i = 3 derives from i = 2).
    hdr = gen_types.header(u).replace('#include "model.h"\n', '#include "model.h"\n#include "poly.h"\n')
    open(os.path.join(ctx.bdir, 'types.gen.h'), 'w').write(hdr)
    ptus = 5
    srcs = []
    for t in range(ptus):
        out = ['#include "types.gen.h"', '#include "ser.h"'] + regs[t::ptus]
        out += ['namespace { struct InitP { InitP() { auto& v = model::polys();']
        out += ['v.push_back(%s);' % q for q in polys[t::ptus]]
        out += ['} } initp; }']
        p = os.path.join(ctx.bdir, 'polys%d.gen.cpp' % t)
        open(p, 'w').write('\n'.join(out) + '\n')
        srcs.append(p)
    # Types: pointers to every class, and containers of pointers.
    usable = [k for k in classes]
    ts = []
    for k in usable:
        ts.append('%s<u::%s>' % (r.choice(['std::shared_ptr', 'std::unique_ptr']), k['name']))
        if r.random() < 0.3:
            ts.append('std::weak_ptr<u::%s>' % k['name'])
    for _ in range(8):
        k = r.choice(usable)['name']
        ts.append(r.choice(['std::vector<std::unique_ptr<u::%s>>', 'std::map<std::string, std::shared_ptr<u::%s>>',
                            'std::list<std::shared_ptr<u::%s>>', 'std::optional<std::unique_ptr<u::%s>>',
                            'std::deque<std::weak_ptr<u::%s>>', 'std::array<std::shared_ptr<u::%s>, 2>']) % k)
    for _ in range(2):
        a, b = r.choice(usable)['name'], r.choice(usable)['name']
        ts.append('std::tuple<std::shared_ptr<u::%s>, std::unique_ptr<u::%s>, std::weak_ptr<u::%s>>' % (a, b, a))
        ts.append('std::pair<std::shared_ptr<u::%s>, std::shared_ptr<u::%s>>' % (b, a))
    tus = 3
    for t in range(tus):
        o = ['#include "types.gen.h"', '#include "ser.h"', 'void reg_types_%d(std::vector<ser::Ops>& v) {' % t]
        for i in range(t, len(ts), tus):
            o.append('  v[%d] = ser::ops<%s, false>("%s", true, false, false, -1, %d);' % (i, ts[i], ts[i], i))
        o.append('}')
        p = os.path.join(ctx.bdir, 'types%d.gen.cpp' % t)
        open(p, 'w').write('\n'.join(o) + '\n')
        srcs.append(p)
    o = ['#include "ser.h"'] + ['void reg_types_%d(std::vector<ser::Ops>&);' % k for k in range(tus)]
    o += ['namespace { struct Init { Init() { auto& v = ser::types(); v.resize(%d);' % len(ts)]
    o += ['reg_types_%d(v);' % k for k in range(tus)] + ['} } init; }']
    p = os.path.join(ctx.bdir, 'types_all.gen.cpp')
    open(p, 'w').write('\n'.join(o) + '\n')
    ctx.cfg['gen_src'] = srcs + [p]

"""Random feature graphs as C++ translation units for the framework monitors (C14, C16)."""
import random, os


def make_graph(rnd, k, mode):
    """k: namespace number; mode: 'order' or 'drop'"""
    m = rnd.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 9, 12]) if mode == 'order' else rnd.choice([2, 3, 4, 5, 6, 7])
    weighted = rnd.random() < .35
    shape = rnd.choice(['sparse', 'dense', 'chain', 'diamond', 'star'])
    level = list(range(m))
    names = list(range(m)); rnd.shuffle(names)             # abstract number of the feature at each level
    nodes = {}                                             # id -> dict(name, abs, spell deps)
    order = []                                             # definition order
    spell = {}                                             # abs -> list of (spelling, node) usable as dependency or listed
    nid = [0]

    def pick_deps(lv):
        low = [names[j] for j in range(lv)]
        if not low:
            return []
        if shape == 'chain':
            d = [names[lv - 1]] + ([rnd.choice(low)] if rnd.random() < .2 else [])
        elif shape == 'star':
            d = [names[0]] if rnd.random() < .8 else rnd.sample(low, min(len(low), 2))
        elif shape == 'diamond':
            d = rnd.sample(low, min(len(low), 2))
        else:
            p = .25 if shape == 'sparse' else .7
            d = [a for a in low if rnd.random() < p][:6]
        rnd.shuffle(d)
        seen = []
        for a in d:
            if a not in seen:
                seen.append(a)
        return seen

    weight_of = {}      # node id -> node id of its weighted variant

    def add(kind, a, lv, alias_of=None):
        i = nid[0]; nid[0] += 1
        asks = [rnd.choice(spell[d]) for d in pick_deps(lv)]
        nodes[i] = dict(id=i, name='%s%d' % (kind, a), abs=a, asks=asks, kind=kind, wacc=weighted and rnd.random() < .3)       # wacc: accumulates weights (is instantiated on the weight type)
        order.append(i)
        return i
    for lv in level:
        a = names[lv]
        f = add('F', a, lv)
        spell[a] = [('F%d' % a, f)]
        if rnd.random() < .5:
            s = add('S', a, lv)
            spell[a].append(('S%d' % a, s))
            if rnd.random() < .6:
                spell[a].append(('F%d(M)' % a, s))
            if weighted and rnd.random() < .5:
                weight_of[s] = add('V', a, lv)
        if weighted and rnd.random() < .6:
            weight_of[f] = add('W', a, lv)

    def resolve(sp_node):
        n = sp_node[1]
        return weight_of.get(n, n) if weighted else n
    # listing
    absl = list(range(m))
    cnt = max(1, min(m, rnd.choice([1, 2, 3, m // 2 + 1, m])))
    chosen = rnd.sample(absl, cnt)
    listed = []
    some_droppable = mode == 'order' and rnd.random() < .25          # droppable, but nobody drops
    for a in chosen:
        sp = rnd.choice(spell[a])
        drop = rnd.random() < .75 if mode == 'drop' else some_droppable and rnd.random() < .5
        listed.append((sp, drop))
        if mode == 'order' and not drop and rnd.random() < .15:
            listed.append((rnd.choice(spell[a]), False))      # the same feature once more
    if mode == 'drop' and not any(d for _, d in listed):
        listed[0] = (listed[0][0], True)
    rnd.shuffle(listed)
    # features certain to be there
    cand = {}
    for sp, d in listed:
        cand.setdefault(nodes[sp[1]]['abs'], set()).add(resolve(sp))
    asked = {}
    for n in nodes.values():
        for sp in n['asks']:
            asked.setdefault(nodes[sp[1]]['abs'], set()).add(resolve(sp))
    sure, todo = set(), list(cand)
    while todo:
        a = todo.pop()
        if a in sure:
            continue
        sure.add(a)
        c = cand.get(a) or asked[a]
        deps = None
        for n in c:
            d = set(nodes[sp[1]]['abs'] for sp in nodes[n]['asks'])
            deps = d if deps is None else deps & d
        todo += list(deps)
    ns = 'g%d' % k

    def sp_cpp(sp):
        return ns + '::tag::' + sp if '(' not in sp else ns + '::tag::%s(%s::tag::M)' % (sp[:-3], ns)
    o = []
    o.append('namespace %s { namespace tag { struct M {}; } }' % ns)
    for i in order:
        n = nodes[i]
        t = '%s::tag::%s' % (ns, n['name'])
        o.append('namespace %s { namespace tag { struct %s : boost::accumulators::depends_on<%s> { %stypedef probe::probe_impl<boost::mpl::_1, %s> impl; }; } }'
                 % (ns, n['name'], ', '.join(sp_cpp(sp[0]) for sp in n['asks']), 'typedef boost::mpl::true_ is_weight_accumulator; ' if n['wacc'] else '', n['name']))
        if n['kind'] != 'F':
            o.append('namespace boost { namespace accumulators { template<> struct feature_of<%s> : feature_of< ::%s::tag::F%d> {}; } }' % ('::' + t, ns, n['abs']))
        if n['kind'] == 'S' and any(sp[0].endswith('(M)') for sp in spell[n['abs']]):
            o.append('namespace boost { namespace accumulators { template<> struct as_feature< ::%s::tag::F%d(::%s::tag::M)> { typedef ::%s type; }; } }' % (ns, n['abs'], ns, t))
        if n['kind'] in 'VW':
            base = {'V': 'S', 'W': 'F'}[n['kind']]
            o.append('namespace boost { namespace accumulators { template<> struct as_weighted_feature< ::%s::tag::%s%d> { typedef ::%s type; }; } }' % (ns, base, n['abs'], t))
    for i in order:
        n = nodes[i]
        body = ' '.join('f(boost::accumulators::extractor<%s>()(args));' % sp_cpp(sp[0]) for sp in n['asks'])
        o.append('namespace probe { template<> struct deps< ::%s::tag::%s> { enum { node = %d }; template<class Args, class F> static void each(Args const &args, F f) { (void)args; (void)f; %s } }; }'
                 % (ns, n['name'], i, body))
    feats = ', '.join(('boost::accumulators::droppable<%s>' if d else '%s') % sp_cpp(sp[0]) for sp, d in listed)
    text = 'graph %d%s list=[%s] ' % (k, ' weighted' if weighted else '', ' '.join(('~' if d else '') + sp[0] + '=' + str(resolve(sp)) for sp, d in listed))
    text += ' '.join('%d:%s->{%s}' % (i, nodes[i]['name'], ','.join(str(resolve(sp)) for sp in nodes[i]['asks'])) for i in order)
    o.append('namespace %s {' % ns)
    o.append('static probe::Graph const &graph() { static probe::Graph g; if (g.nodes.empty()) { g.text = "%s";' % text)
    for i in order:
        o.append('  g.nodes[%d] = probe::Node{%d, %d, {%s}};' % (i, i, nodes[i]['abs'], ', '.join(str(resolve(sp)) for sp in nodes[i]['asks'])))
    o.append('  g.listed = {%s}; } return g; }' % ', '.join('probe::Listed{%d, %s}' % (resolve(sp), 'true' if d else 'false') for sp, d in listed))
    o.append('typedef boost::accumulators::accumulator_set<probe::Payload, boost::accumulators::%s<%s>%s> Set;' % (rnd.choice(['features', 'stats', 'features']), feats, ', int' if weighted else ''))
    o.append('struct Desc { typedef %s::Set Set; static probe::Graph const &graph() { return %s::graph(); }' % (ns, ns))
    forms = [0] + rnd.sample(range(1, 10), 3)
    o.append('  static int form(vf::Rng &r) { static int const f[] = {%s}; return f[r.below(%d)]; }' % (', '.join(map(str, forms)), len(forms)))
    o.append('  template<int I> struct has_form { enum { value = %s }; };' % ' || '.join('I == %d' % f for f in forms))
    cf = [0] + rnd.sample(range(1, 5), 1)
    o.append('  static int ctor(vf::Rng &r) { static int const f[] = {%s}; return f[r.below(%d)]; }' % (', '.join(map(str, cf)), len(cf)))
    o.append('  template<int I> struct has_ctor { enum { value = %s }; };' % ' || '.join('I == %d' % f for f in cf))
    o.append('  static void extract(Set &s, probe::Checker &c, std::string const &wh) {')
    for a in sorted(sure):
        for sp in spell[a]:
            if '(' not in sp[0]:
                o.append('    c.extracted(%d, boost::accumulators::extractor<%s>()(s), wh); c.extracted(%d, boost::accumulators::extract_result<%s>(s), wh);' % (sp[1], sp_cpp(sp[0]), sp[1], sp_cpp(sp[0])))
    o.append('  }')
    drops = []
    for sp, d in listed:
        if d and mode == 'drop':
            alts = [s for s in spell[nodes[sp[1]]['abs']]]
            drops.append((resolve(sp), sp_cpp(rnd.choice(alts)[0])))
    o.append('  static int ndrop() { return %d; } static int drop_node(int i) { static int const f[] = {%s}; return f[i]; }' % (len(drops), ', '.join(str(d[0]) for d in drops) or '0'))
    o.append('  static void drop(Set &s, int i) { switch (i) { %s } }' % ' '.join('case %d: s.drop<%s>(); break;' % (j, d[1]) for j, d in enumerate(drops)))
    o.append('}; }')
    return '\n'.join(o)


def generate(mode, tus, per):
    def gen(seed, tier, bdir):
        rnd = random.Random('%s-%s-%s' % (mode, seed, tier))
        out = {}
        n_tu = tus[tier]
        k = 0
        for t in range(n_tu):
            p = os.path.join(bdir, 'graphs_%s_%02d.cpp' % (mode, t))
            with open(p, 'w') as f:
                f.write('#include "graph_run.hpp"\n')
                for _ in range(per[tier]):
                    f.write(make_graph(rnd, k, mode) + '\n')
                    f.write('SCENARIO(graph%03d, %d) { probe::run<g%d::Desc>(r); }\n' % (k, 24 if mode == 'order' else 60, k))
                    k += 1
            out['graphs_%s_%02d' % (mode, t)] = p
        return out
    return gen

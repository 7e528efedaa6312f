"""C07: tree queries equal their definitions and do not change the tree."""
from vf.engine import check, eq, Violation, assume
from vf.gens import *
from vf.util import facet
from checks.c05 import start

RULE = ('random trees (1-9 words, 10-25 in facet big; all shapes; built by API, by loading, or after random moves and removals); '
        'non-trivial = at least 3 words; distinct by heads + the queried words')
ASSUMPTIONS = ['queries on removed words, on empty nodes and sibling queries of the technical root are not specified']


class Naive:
    """Definitions in terms of a head array and word order only."""

    def __init__(self, root):
        self.nodes = [root] + list(root.descendants)
        pos = {id(n): i for i, n in enumerate(self.nodes)}
        self.pos = pos
        self.head = [None] + [pos[id(n.parent)] for n in self.nodes[1:]]
        self.n = len(self.nodes) - 1

    def kids(self, i):
        return [j for j in range(1, self.n + 1) if self.head[j] == i]

    def anc(self, i):
        out = []
        while self.head[i] is not None:
            i = self.head[i]
            out.append(i)
        return out

    def desc(self, i):
        return [j for j in range(1, self.n + 1) if i in self.anc(j)]

    def ords(self, lst):
        return [self.pos[id(x)] for x in lst]


def mixed_tree(g, nmax):
    heads, root, nodes = start(g, nmax)
    assume(nodes)
    k = g.weighted([(3, 0), (1, 1), (1, 3)])
    ops = []
    for _ in range(k):
        ws = list(root.descendants)
        if len(ws) < 2:
            break
        a, b = g.choice(ws), g.choice(ws)
        if g.bool(0.3):
            a.remove(children=g.choice(['rehang', None]))
            ops.append('rm' + a.form)
        elif a is not b and not b.is_descendant_of(a):
            a.shift_after_subtree(b)
            ops.append(f'{a.form}>{b.form}')
    assume(root.descendants)
    return f'heads={heads} {ops}', root


def filters(lst, origin, siblings=False):
    """All documented ways of calling a list of nodes."""
    for add_self in (False, True):
        for mode in ({}, {'preceding_only': True}, {'following_only': True}):
            kw = dict(mode)
            if add_self:
                kw['add_self'] = True
            want = sorted(set(lst) | ({origin} if add_self else set()))
            if 'preceding_only' in kw:
                want = [x for x in want if x <= origin]
            if 'following_only' in kw:
                want = [x for x in want if x >= origin]
            yield kw, want


def f_lists(g):
    d, root = mixed_tree(g, 9)
    t = Naive(root)
    g.note(d, t.n >= 3)
    before = snap(root)
    for i, node in enumerate(t.nodes):
        sets = {'children': t.kids(i), 'descendants': t.desc(i)}
        if i:
            sets['siblings'] = [j for j in t.kids(t.head[i]) if j != i]
        for attr, base in sets.items():
            eq(t.ords(getattr(node, attr)), base, f'{d}: word {i}.{attr}')
            eq(t.ords(getattr(node, attr)()), base, f'{d}: word {i}.{attr}()')
            kept = getattr(node, attr)
            for kw, want in filters(base, i):
                eq(t.ords(getattr(node, attr)(**kw)), want, f'{d}: word {i}.{attr}({kw})')
                eq(t.ords(kept(**kw)), want, f'{d}: nodes = word {i}.{attr}; nodes({kw}) after other calls')
            eq(t.ords(kept), base, f'{d}: list returned by word {i}.{attr} changed by calling it')
            eq(len(getattr(node, attr)), len(base), 'len')
            if g.bool(0.3):       # a returned list is the caller's own
                mine = getattr(node, attr)
                mine.reverse()
                del mine[:1]
        eq(sorted(t.ords(node.unordered_descendants())), t.desc(i), f'{d}: unordered_descendants of {i}')
        eq(node.is_leaf(), not t.kids(i), f'{d}: is_leaf of {i}')
    eq(snap(root), before, f'{d}: queries changed the tree')


def f_relations(g):
    d, root = mixed_tree(g, g.choice([6, 9, 9, 18]))
    t = Naive(root)
    g.note(d, t.n >= 3)
    before = snap(root)
    npj = 0
    for i, a in enumerate(t.nodes):
        anc = t.anc(i)
        for j, b in enumerate(t.nodes):
            eq(bool(a.is_descendant_of(b)), j in anc, f'{d}: {i}.is_descendant_of({j})')
            eq(a < b, i < j, f'{d}: {i} < {j}')
            eq(a <= b, i <= j, f'{d}: {i} <= {j}')
            eq(a.precedes(b), i < j, f'{d}: {i}.precedes({j})')
        eq(a.prev_node is None if i == 0 else a.prev_node is t.nodes[i - 1], True, f'{d}: prev_node of {i}')
        eq(a.next_node is None if i == t.n else a.next_node is t.nodes[i + 1], True, f'{d}: next_node of {i}')
        if i:
            h = t.head[i]
            inside = set(t.desc(h)) if h else set(range(1, t.n + 1))
            want = any(k not in inside for k in range(min(i, h) + 1, max(i, h)))
            eq(bool(a.is_nonprojective()), want, f'{d}: is_nonprojective of {i}')
            npj += want
            gap = False
            for x in range(0, t.n + 1):
                sub = [x] + t.desc(x)
                if i not in sub and min(sub) < i < max(sub):
                    gap = True
            eq(bool(a.is_nonprojective_gap()), gap, f'{d}: is_nonprojective_gap of {i}')
        else:
            eq(bool(a.is_nonprojective()), False, 'root is_nonprojective')
            eq(bool(a.is_nonprojective_gap()), False, 'root is_nonprojective_gap')
            eq([a.form, a.lemma, a.upos, a.xpos, a.deprel], ['<ROOT>'] * 5, 'attributes of the technical root')
        eq(a.is_root(), i == 0, 'is_root')
        eq(a.root is root, True, 'root')
    if npj:
        g.tag('nonproj')
    eq(snap(root), before, f'{d}: queries changed the tree')


def f_treelet(g):
    from udapi.core.node import find_minimal_common_treelet
    d, root = mixed_tree(g, g.choice([6, 9, 20]))
    t = Naive(root)
    for _ in range(6):
        k = min(t.n, g.weighted([(2, 1), (5, 2), (4, 3), (2, 4), (1, 6)]))
        pool = list(range(0 if g.bool(0.2) else 1, t.n + 1))
        if k == 2 and len(pool) == 1:
            k = 1
        idx = []
        while len(idx) < k and pool:
            idx.append(pool.pop(g.draw(len(pool))))
        g.note(f'{d} treelet{idx}', t.n >= 3 and len(idx) > 1)
        before = snap(root)
        top, added = find_minimal_common_treelet(*[t.nodes[i] for i in idx])
        added = sorted(t.ords(added))
        chains = [[i] + t.anc(i) for i in idx]
        common = [x for x in chains[0] if all(x in c for c in chains)]
        nca = common[0]
        members = set()
        for c in chains:
            members |= set(c[:c.index(nca) + 1])
        eq(t.pos[id(top)], nca, f'{d}: top of the minimal treelet of {idx}')
        eq(added, sorted(members - set(idx)), f'{d}: nodes added to {idx}')
        eq(snap(root), before, 'find_minimal_common_treelet changed the tree')


def f_across(g):
    """Word order across sentences, zones and documents."""
    doc = new_doc()
    zones = [None, 'en', 'cs']
    trees = []
    many = g.bool(0.15)
    rename = g.bool(0.3)
    count = g.int(9, 13) if many else g.int(1, 4)
    ids = g.perm(range(count))
    for b in range(count):
        bundle = doc.create_bundle()
        if rename:
            bundle.bundle_id = f's{ids[b]}'
        for z in g.subset(zones[:2] if many else zones, 0.6, 1):
            r = bundle.create_tree(z) if z else bundle.create_tree()
            for w in range(1 if many else g.int(1, 3)):
                r.create_child(form=f'{b}.{z}.{w}')
            trees.append((b, r.zone, r))
    if len(doc.bundles) > 1 and g.bool(0.3):
        i = g.draw(len(doc.bundles))
        doc.bundles[i].remove()
        trees = [(b - (b > i), z, r) for b, z, r in trees if b != i]
    if g.bool(0.2):
        new = doc.create_bundle()
        r = new.create_tree('en')
        r.create_child(form='last')
        trees.append((len(doc.bundles) - 1, 'en', r))
    other = new_doc()
    orr = other.create_bundle().create_tree('en')
    ow = orr.create_child(form='other')
    desc = [(b, z, [w.form for w in r.descendants]) for b, z, r in trees]
    g.note(str(desc), len(trees) >= 3)
    for b1, z1, r1 in trees:
        for b2, z2, r2 in trees:
            for w1 in r1.descendants[:2]:
                for w2 in r2.descendants[-2:]:
                    if z1 != z2:
                        try:
                            w1.precedes(w2)
                        except ValueError:
                            continue
                        raise Violation(f'{desc}: order of {w1.form} and {w2.form} from different zones was not rejected')
                    want = (b1, w1.ord) < (b2, w2.ord)
                    eq(w1.precedes(w2), want, f'{desc}: {w1.form}.precedes({w2.form})')
        if z1 == 'en':
            try:
                r1.descendants[0].precedes(ow)
            except ValueError:
                continue
            raise Violation('order across documents was not rejected')


def f_attrs(g):
    s = gen_sentence(g, 6, deps=0, empties=0, mwt=0)
    doc = load(ser_sentence(s))
    root = doc.bundles[0].trees[0]
    if g.bool(0.4):     # None values exist only in documents built by the API
        c = g.choice([root] + list(root.descendants)).create_child(form='N')
        if g.bool():
            c.shift_before_node(g.choice(root.descendants[:1]))
    t = Naive(root)
    before = snap(root)
    names = ['form', 'lemma', 'upos', 'xpos', 'deprel', 'feats', 'misc', 'ord', 'dir', 'edge', 'children', 'siblings', 'depth',
             'feats_split', 'misc_split', 'feats[Case]', 'feats[Number]', 'misc[Gloss]', 'misc[Nothing]', 'udeprel', 'sdeprel']

    def one(i, name):
        n = t.nodes[i]
        if name == 'dir':
            return ['root' if t.head[i] in (0, None) else ('left' if i < t.head[i] else 'right')]
        if name == 'edge':
            return [0 if t.head[i] in (0, None) else i - t.head[i]]
        if name == 'children':
            return [len(t.kids(i))]
        if name == 'siblings':
            return [0 if t.head[i] is None else len(t.kids(t.head[i])) - 1]
        if name == 'depth':
            return [len(t.anc(i))]
        if name in ('feats_split', 'misc_split'):
            return str(getattr(n, name[:-6])).split('|')
        if '[' in name:
            a, k = name[:-1].split('[')
            val = ''
            for item in str(getattr(n, a)).split('|'):
                p = item.split('=', 1)
                if p[0] == k:
                    val = p[1] if len(p) == 2 else True
            return [val]
        if name in ('udeprel', 'sdeprel'):
            if n.deprel is None:
                return [None]
            p = n.deprel.split(':', 1)
            return [p[0] if name == 'udeprel' else (p[1] if len(p) == 2 else '')]
        if name in ('feats', 'misc'):
            return [str(getattr(n, name))]
        return [getattr(n, name)]
    for _ in range(5):
        i = g.draw(t.n + 1)
        req = g.list(lambda: g.choice(['', '', 'p_', 'c_', 'l_', 'r_']) + g.choice(names), 1, 5)
        undefs = g.choice([None, '', '_', 'U'])
        stringify = g.bool(0.6)
        want = []
        for name in req:
            if name[:2] in ('p_', 'c_', 'l_', 'r_'):
                who = {'p': [t.head[i]], 'c': t.kids(i), 'l': [i - 1] if i else [], 'r': [i + 1] if i < t.n else []}[name[0]]
                base = name[2:]
            else:
                who, base = [i], name
            for j in who:
                if j is not None:
                    want += one(j, base)
        want = [undefs if undefs is not None and x is None else x for x in want]
        got = t.nodes[i].get_attrs(req, undefs=undefs, stringify=stringify)
        if stringify:
            want = [str(x) if x is not None else None for x in want]
        else:
            got = [str(x) if type(x).__name__ in ('DualDict', 'Feats') else x for x in got]
        g.note(f'{ser_sentence(s)} word {i} {req} undefs={undefs!r} stringify={stringify}', t.n > 1)
        eq(got, want, f'get_attrs({req}, undefs={undefs!r}, stringify={stringify}) of word {i}')
    eq(snap(root), before, 'get_attrs changed the tree')


FACETS = {
    'lists': facet(f_lists, 6000),
    'relations': facet(f_relations, 6000),
    'treelet': facet(f_treelet, 12000),
    'across': facet(f_across, 4000),
    'attrs': facet(f_attrs, 8000),
}

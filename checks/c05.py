"""C05: edits keep the dependency structure a consistent ordered tree."""
from vf.engine import check, eq, Violation, assume
from vf.gens import *
from vf.util import facet

RULE = ('random trees (0-9 words, all shapes, built by API or by loading) plus histories of 1-14 edits incl. rejected ones; '
        'non-trivial = at least 3 words at some point and at least 2 applied or rejected edits; distinct by initial heads + operation log')
ASSUMPTIONS = ['nodes are not removed twice; nodes already removed are not used again']


class Model:
    """Words in order and their heads, by identity."""

    def __init__(self, root, nodes):
        self.root = root
        self.order = list(nodes)
        self.head = {id(n): n.parent for n in nodes}
        self.attr = {id(n): attrs(n) for n in nodes}
        self.keep = list(nodes)

    def children(self, n):
        return [x for x in self.order if self.head[id(x)] is n]

    def subtree(self, n):
        out = [n]
        for x in out:
            out.extend(self.children(x))
        return [x for x in self.order if any(x is y for y in out)]

    def ancestors(self, n):
        out = []
        p = self.head.get(id(n))
        while p is not None and p is not self.root:
            out.append(p)
            p = self.head[id(p)]
        return out

    def compare(self, msg):
        root = self.root
        desc = list(root.descendants)
        check(len(desc) == len(self.order) and all(a is b for a, b in zip(desc, self.order)),
              f'{msg}: words are {[n.form for n in desc]}, expected {[n.form for n in self.order]}')
        for n in self.order:
            h = self.head[id(n)]
            check(n.parent is h, lambda: f'{msg}: head of {n.form} is {n.parent}, expected {h}')
            eq(attrs(n), self.attr[id(n)], f'{msg}: attributes of {n.form}')
        for n in [root] + self.order:
            want = self.children(n)
            got = list(n.children)
            check(len(got) == len(want) and all(a is b for a, b in zip(got, want)),
                  lambda: f'{msg}: children of {n.form} are {[c.form for c in got]}, expected {[c.form for c in want]}')
        check_wf(root, msg)


def describe(root):
    return [(n.form, n.parent.ord) for n in root.descendants]


def start(g, nmax=9):
    n = heads_size(g, 0, nmax)
    heads = gen_heads(g, n)
    if n == 0 or g.bool():
        root, nodes = build(heads)
    else:
        root, nodes = build_text(heads)
    return heads, root, list(nodes[1:])


def expect_error(fn, excs, snap_fn, msg):
    before = snap_fn()
    try:
        fn()
    except excs:
        pass
    else:
        raise Violation(f'{msg}: no error reported')
    eq(snap_fn(), before, f'{msg}: a rejected edit changed something')


def f_history(g):
    from udapi.core.node import CycleError
    heads, root, nodes = start(g)
    m = Model(root, nodes)
    other_root, other_nodes = build([0, 1], doc=root.document)
    other_empty = None
    log = []
    counter = [0]
    done = 0
    maxn = len(nodes)
    for _ in range(g.int(1, 14)):
        words = m.order
        op = g.weighted([(4, 'create'), (7, 'parent'), (4, 'remove'), (1, 'flatten'), (2, 'cycle'), (1, 'self'), (1, 'cross'),
                         (1, 'none'), (1, 'empty'), (1, 'reparent_same'), (2, 'shift'), (1, 'crossroot')])
        msg = f'after {log}'
        if op == 'create':
            p = g.choice([root] + words)
            counter[0] += 1
            form = f'n{counter[0]}'
            c = p.create_child(form=form, lemma='L', deprel='dep')
            log.append(f'{form}=create_child({p.form})')
            check(c.parent is p and c.root is root, f'{log}: wrong new child')
            m.order.append(c)
            m.head[id(c)] = p
            m.attr[id(c)] = (form, 'L', None, None, '_', 'dep', '_')
            m.keep.append(c)
            done += 1
        elif op == 'parent' and words:
            n = g.choice(words)
            sub = m.subtree(n)
            cands = [root] + [w for w in words if not any(w is x for x in sub)]
            p = g.choice(cands)
            n.parent = p
            log.append(f'{n.form}.parent={p.form}')
            m.head[id(n)] = p
            done += 1
        elif op == 'reparent_same' and words:
            n = g.choice(words)
            n.parent = n.parent
            log.append(f'{n.form}.parent=same')
        elif op == 'remove' and words:
            n = g.choice(words)
            how = g.choice([None, 'rehang', 'warn', 'rehang_warn'])
            if how is None and g.bool():
                n.remove()
            else:
                n.remove(children=how)
            log.append(f'{n.form}.remove({how})')
            if how and how.startswith('rehang'):
                for c in m.children(n):
                    m.head[id(c)] = m.head[id(n)]
                m.order = [x for x in m.order if x is not n]
            else:
                sub = m.subtree(n)
                m.order = [x for x in m.order if not any(x is y for y in sub)]
            done += 1
        elif op == 'flatten':
            if g.bool():
                root.flatten()
                rel = 'root'
            else:
                rel = 'dep:x'
                root.flatten(deprel=rel)
            log.append('flatten')
            for x in m.order:
                m.head[id(x)] = root
                a = m.attr[id(x)]
                m.attr[id(x)] = a[:5] + (rel,) + a[6:]
            done += 1
        elif op == 'cycle':
            pairs = [(a, d) for a in words for d in m.subtree(a) if d is not a]
            if not pairs:
                continue
            a, d = g.choice(pairs)

            def bad():
                a.parent = d
            log.append(f'{a.form}.parent={d.form} (cycle)')
            expect_error(bad, CycleError, lambda: snap(root), f'{log}')
            done += 1
        elif op == 'self' and words:
            a = g.choice(words)

            def bad():
                a.parent = a
            log.append(f'{a.form}.parent=itself')
            expect_error(bad, CycleError, lambda: snap(root), f'{log}')
            done += 1
        elif op in ('cross', 'crossroot') and words:
            a = g.choice(words)
            t = other_root if op == 'crossroot' else g.choice(other_nodes)

            def bad():
                a.parent = t
            log.append(f'{a.form}.parent=word of another tree')
            expect_error(bad, (ValueError, CycleError), lambda: (snap(root), snap(other_root)), f'{log}')
            done += 1
        elif op == 'none' and words:
            a = g.choice(words)

            def bad():
                a.parent = None
            log.append(f'{a.form}.parent=None')
            expect_error(bad, (ValueError, TypeError, AttributeError), lambda: snap(root), f'{log}')
        elif op == 'empty' and words:
            a = g.choice(words)
            if not root.empty_nodes:
                g.choice(words).create_empty_child('dep', form='E')
            e = root.empty_nodes[0]
            if g.bool():
                def bad():
                    a.parent = e
            else:
                def bad():
                    e.parent = a
            log.append(f'{a.form}<->empty node')
            expect_error(bad, (ValueError, AttributeError), lambda: snap(root, deps=False), f'{log}')
        elif op == 'shift' and len(words) > 1:
            a, b = g.choice(words), g.choice(words)
            if a is b:
                continue
            a.shift_after_node(b, without_children=True)
            log.append(f'{a.form}.shift_after_node({b.form}, without_children)')
            m.order = [x for x in m.order if x is not a]
            i = next(i for i, x in enumerate(m.order) if x is b)
            m.order.insert(i + 1, a)
            done += 1
        else:
            continue
        maxn = max(maxn, len(m.order))
        g.tag(op)
        g.note(f'heads={heads} ' + '; '.join(log), maxn >= 3 and done >= 2)
        m.compare(f'heads={heads} after {log}')
    e = root.parent
    check(e is None, 'root.parent')
    try:
        root.parent = root
    except AttributeError:
        pass
    else:
        raise Violation('the technical root accepted a parent')
    m.compare('after root.parent=')


def f_big(g):
    """Longer sentences and more removals (renumbering)."""
    n = g.int(12, 50)
    heads = gen_heads(g, n)
    root, nodes = build_any(g, heads)
    m = Model(root, list(nodes[1:]))
    log = []
    for _ in range(g.int(2, 8)):
        if not m.order:
            break
        a = g.choice(m.order)
        k = g.draw(3)
        if k == 0:
            log.append(f'remove {a.form}')
            a.remove()
            sub = m.subtree(a)
            ids = {id(x) for x in sub}
            m.order = [x for x in m.order if id(x) not in ids]
        elif k == 1:
            log.append(f'rehang {a.form}')
            a.remove(children='rehang')
            for c in m.children(a):
                m.head[id(c)] = m.head[id(a)]
            m.order = [x for x in m.order if x is not a]
        else:
            ids = {id(x) for x in m.subtree(a)}
            p = g.choice([root] + [x for x in m.order if id(x) not in ids])
            log.append(f'{a.form}->{p.form}')
            a.parent = p
            m.head[id(a)] = p
        m.compare(f'{log}')
    g.note(f'{heads} {log}')


FACETS = {
    'history': facet(f_history, 40000, 400000),
    'big': facet(f_big, 2400),
}

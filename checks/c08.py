"""C08: empty nodes keep unique, ordered positions."""
from vf.engine import check, eq, Violation, assume
from vf.gens import *
from vf.util import facet

RULE = ('random trees (0-7 words) with 0-4 empty nodes per gap (facet many: up to 14 in one gap) and histories of 1-14 edits of words and empty nodes; '
        'non-trivial = at least 2 empty nodes and 2 edits; distinct by initial sentence + log')
ASSUMPTIONS = ['the empty nodes of a loaded sentence are numbered contiguously (N.1, N.2, ...), as CoNLL-U requires',
               'a word shifted next to a place where empty nodes stand is put after those empty nodes; a shift which does not change the word order changes nothing']


class Seq:
    """The sentence as one sequence of words and empty nodes (identities)."""

    def __init__(self, root):
        self.root = root
        self.items = list(root.descendants_and_empty)
        self.log = []
        self.last = None

    def words(self):
        return [x for x in self.items if not x.is_empty()]

    def empties(self):
        return [x for x in self.items if x.is_empty()]

    def labels(self):
        out, major, minor = [], 0, 0
        for x in self.items:
            if x.is_empty():
                minor += 1
                out.append(f'{major}.{minor}')
            else:
                major, minor = major + 1, 0
                out.append(str(major))
        return out

    def compare(self, msg):
        root = self.root
        want = self.labels()
        show = [(l, x.form) for l, x in zip(want, self.items)]
        got = list(root.descendants_and_empty)
        gs = [(str(x.ord), x.form) for x in got]
        eq(gs, show, f'{msg}: descendants_and_empty')
        check(all(a is b for a, b in zip(got, self.items)), f'{msg}: identity of nodes')
        emp = list(root.empty_nodes)
        check(len(emp) == len(self.empties()) and all(a is b for a, b in zip(emp, self.empties())),
              lambda: f'{msg}: empty_nodes is {[(str(e.ord), e.form) for e in emp]}, expected order {[x.form for x in self.empties()]}')
        desc = list(root.descendants)
        check(len(desc) == len(self.words()) and all(a is b for a, b in zip(desc, self.words())), f'{msg}: words')
        for e in emp:
            check(e.is_empty() and e.root is root and e.parent is None, f'{msg}: empty node')
        prev = None
        for x in got:
            if prev is not None:
                check(prev < x and not (x < prev) and prev.precedes(x) and not x.precedes(prev), f'{msg}: order of {prev.form} and {x.form}')
            prev = x
        for l, x in zip(want, got):
            check(x.address().endswith('#' + l), f'{msg}: address {x.address()}, expected #{l}')
        check_wf(root, msg)


def sub(root, n):
    return [n] + list(n.descendants)


def start_seq(g, nmax=7, many=False):
    n = heads_size(g, 0, nmax)
    heads = gen_heads(g, n)
    rows, k = [], 0
    big = g.int(0, n) if many else None

    def emps(major):
        nonlocal k
        c = g.int(6, 14) if major == big else g.weighted([(6, 0), (4, 1), (2, 2), (1, 4)])
        for i in range(1, c + 1):
            k += 1
            rows.append(f'{major}.{i}\te{k}\te\t_\t_\t_\t_\t_\t0:dep\t_')
    emps(0) if n or many else None
    for i, h in enumerate(heads, 1):
        rows.append(f'{i}\tw{i}\tw\t_\t_\t_\t{h}\tdep\t_\t_')
        emps(i)
    if n == 0:      # CoNLL-U needs a word, so remove it again
        doc = new_doc()
        root = doc.create_bundle().create_tree()
        return 'empty tree', root
    doc = load('\n'.join(rows) + '\n\n')
    return ' '.join(r.split('\t')[0] + ':' + r.split('\t')[6] for r in rows), doc.bundles[0].trees[0]


def step(g, s):
    root = s.root
    words, empties = s.words(), s.empties()
    op = g.weighted([(6, 'new_empty'), (3, 'rm_empty'), (3, 'new_word'), (4, 'rm_word'), (6, 'shift'), (2, 'parent'), (1, 'flatten')])
    c = len(s.log)
    if op == 'new_empty' and (words or empties):
        at = g.choice(words + empties)
        after = g.bool(0.6)
        e = at.create_empty_child('dep', after=after, form=f'E{c}') if not after or g.bool() else at.create_empty_child('dep', form=f'E{c}')
        s.log.append(f'E{c}={at.form}.create_empty_child(after={after})')
        i = next(i for i, x in enumerate(s.items) if x is at)
        if after:
            i += 1
            while i < len(s.items) and s.items[i].is_empty():
                i += 1
        s.items.insert(i, e)
        s.last = (e, at)
        eq([(d['parent'] is at, d['deprel']) for d in e.deps], [(True, 'dep')], 'deps of the new empty node')
    elif op == 'rm_empty' and empties:
        e = g.choice(empties)
        s.log.append(f'{e.form}.remove()')
        e.remove()
        s.items = [x for x in s.items if x is not e]
    elif op == 'new_word':
        p = g.choice([root] + words)
        s.items.append(p.create_child(form=f'W{c}', deprel='dep'))
        s.log.append(f'W{c}={p.form}.create_child()')
    elif op == 'rm_word' and words:
        w = g.choice(words)
        how = g.choice([None, 'rehang'])
        gone = sub(root, w) if how is None else [w]
        ids = {id(x) for x in gone}
        s.log.append(f'{w.form}.remove({how})')
        w.remove(children=how)
        s.items = [x for x in s.items if id(x) not in ids]
    elif op == 'shift' and len(words) > 1:
        a, r = g.choice(words), g.choice(words)
        kind = g.choice(['after_node', 'before_node', 'after_subtree', 'before_subtree'])
        wc = g.bool(0.5)
        if not wc and (r is a or r.is_descendant_of(a)):
            return
        moved = [a] if wc else sub(root, a)
        ids = {id(x) for x in moved}
        moved = [x for x in words if id(x) in ids]
        pos = {id(x): i for i, x in enumerate(words)}
        if kind.endswith('node'):
            b = pos[id(r)] + (1 if kind[0] == 'a' else 0)
        else:
            grp = [pos[id(r)]] + [pos[id(x)] for x in r.descendants if x is not a]
            b = max(grp) + 1 if kind[0] == 'a' else min(grp)
        s.log.append(f'{a.form}.shift_{kind}({r.form}, without_children={wc})')
        getattr(a, 'shift_' + kind)(r, without_children=wc)
        left = [x for i, x in enumerate(words) if i < b and id(x) not in ids]
        right = [x for i, x in enumerate(words) if i >= b and id(x) not in ids]
        if any(x is not y for x, y in zip(left + moved + right, words)):
            rest = [x for x in s.items if id(x) not in ids]
            i = next(i for i, x in enumerate(rest) if x is right[0]) if right else len(rest)
            s.items = rest[:i] + moved + rest[i:]
    elif op == 'parent' and len(words) > 1:
        a, p = g.choice(words), g.choice([root] + words)
        if p is a or p.is_descendant_of(a):
            return
        a.parent = p
        s.log.append(f'{a.form}.parent={p.form}')
    elif op == 'flatten':
        root.flatten()
        s.log.append('flatten')
    else:
        return
    g.tag(op)


def final_reload(s, msg):
    if not s.words():
        return
    doc = s.root.document
    text = conllu(doc)
    sents = parse_conllu(text)
    validate_conllu(sents)
    rows = [(r[0], r[1]) for r in sents[0]['rows'] if '-' not in r[0]]
    eq(rows, [(l, x.form) for l, x in zip(s.labels(), s.items)], f'{msg}: saved ids and forms')
    d2 = load(text)
    r2 = d2.bundles[0].trees[0]
    eq([(str(x.ord), x.form) for x in r2.descendants_and_empty], rows, f'{msg}: reloaded order')
    eq([(str(x.ord), x.form) for x in r2.empty_nodes], [r for r in rows if '.' in r[0]], f'{msg}: reloaded empty_nodes')
    eq([x.form for x in doc.nodes_and_empty], [r[1] for r in rows], 'document.nodes_and_empty')
    eq(conllu(d2), text, f'{msg}: second saving')


def history(g, nmax, many, steps):
    desc, root = start_seq(g, nmax, many)
    s = Seq(root)
    s.compare(desc)
    for _ in range(g.int(1, steps)):
        step(g, s)
        g.note(f'{desc}; ' + '; '.join(s.log), len(s.log) >= 2 and len([x for x in s.items if x.is_empty()]) >= 2)
        s.compare(f'{desc} after {s.log}')
    final_reload(s, f'{desc} after {s.log}')


def f_history(g):
    history(g, 7, False, 14)


def f_many(g):
    history(g, 5, True, 8)


def f_fill(g):
    """Only insertions and removals in one gap, passing through x.9/x.10/x.11."""
    n = g.int(1, 4)
    root, nodes = build(gen_heads(g, n))
    s = Seq(root)
    at = g.choice(nodes[1:])
    for k in range(g.int(9, 16)):
        e = at.create_empty_child('dep', form=f'e{k}')
        i = next(i for i, x in enumerate(s.items) if x is at) + 1
        while i < len(s.items) and s.items[i].is_empty():
            i += 1
        s.items.insert(i, e)
    s.log.append(f'{len(s.items) - n} empty nodes after {at.form}')
    s.compare(str(s.log))
    for _ in range(g.int(1, 8)):
        step(g, s)
        g.note(f'{n} words; ' + '; '.join(s.log))
        s.compare(str(s.log))
    final_reload(s, str(s.log))


FACETS = {
    'history': facet(f_history, 14000),
    'many': facet(f_many, 6000),
    'fill': facet(f_fill, 4000),
}

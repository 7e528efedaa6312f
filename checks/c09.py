"""C09: the textual and the structured enhanced dependencies are the same graph."""
from vf.engine import check, eq, Violation, assume
from vf.gens import *
from vf.util import facet
from checks.c08 import Seq, step, start_seq

RULE = ('random sentences (1-6 words, empty nodes) with random DEPS and histories of 1-14 operations on raw_deps, deps and on the tree; '
        'non-trivial = at least 2 edges at some point and 2 operations; distinct by sentence + log')
ASSUMPTIONS = ['edges given as text refer to the numbering at the time they are first read through node.deps; texts never parsed are not renumbered '
               '(facet frozen covers them only without renumbering)',
               'one list object is not assigned to deps of two nodes']


class Graph:
    def __init__(self, s):
        self.s = s
        self.edges = {id(x): [] for x in s.items}      # node -> [(parent node, deprel)]

    def label(self, node):
        if node is self.s.root:
            return '0'
        for l, x in zip(self.s.labels(), self.s.items):
            if x is node:
                return l
        raise Violation('edge to a removed node in the model')

    def text(self, node):
        return '|'.join(f'{self.label(p)}:{r}' for p, r in self.edges[id(node)]) or '_'

    def by_label(self):
        d = dict(zip(self.s.labels(), self.s.items))
        d['0'] = self.s.root
        return d

    def sync(self, was):
        """Account for a structural step."""
        now = {id(x) for x in self.s.items}
        gone = {id(x) for x in was if id(x) not in now}
        for x in self.s.items:
            if id(x) not in self.edges:
                self.edges[id(x)] = []
                if x.is_empty():
                    e, at = self.s.last
                    check(e is x, 'harness: new empty node')
                    self.edges[id(x)] = [(at, 'dep')]
        for k in list(self.edges):
            if k in gone:
                del self.edges[k]
            else:
                self.edges[k] = [(p, r) for p, r in self.edges[k] if id(p) not in gone]

    def compare(self, g, msg, both=None):
        for x in self.s.items:
            want = self.edges[id(x)]
            order = g.draw(2) if both is None else both
            if order == 0:
                eq(x.raw_deps, self.text(x), f'{msg}: raw_deps of {x.form}')
            got = x.deps
            check(len(got) == len(want) and all(d['parent'] is p and d['deprel'] == r for d, (p, r) in zip(got, want)),
                  lambda: f'{msg}: deps of {x.form} are {[(d["parent"].form, d["deprel"]) for d in got]}, expected {[(p.form, r) for p, r in want]}')
            eq(x.raw_deps, self.text(x), f'{msg}: raw_deps of {x.form} after deps')


def random_edges(g, gr):
    d = gr.by_label()
    labels = list(d)
    return [(g.choice(labels), g.choice(DEPRELS)) for _ in range(g.weighted([(3, 1), (2, 2), (1, 3), (1, 0)]))]


def graph_op(g, gr, log):
    s = gr.s
    if not s.items:
        return
    x = g.choice(s.items)
    d = gr.by_label()
    have = gr.edges[id(x)]
    op = g.weighted([(3, 'raw='), (3, 'deps='), (3, 'append'), (2, 'deprel'), (2, 'parent'), (2, 'del'), (1, 'clear'), (1, 'extend'), (1, 'raw_'), (1, 'insert')])
    if op == 'raw=':
        e = random_edges(g, gr)
        t = '|'.join(f'{a}:{b}' for a, b in e) or '_'
        x.raw_deps = t
        gr.edges[id(x)] = [(d[a], b) for a, b in e]
        log.append(f'{x.form}.raw_deps={t}')
        if g.bool(0.3):
            eq(x.raw_deps, t, f'{log}: raw_deps right after setting it')
    elif op == 'raw_':
        x.raw_deps = '_'
        gr.edges[id(x)] = []
        log.append(f'{x.form}.raw_deps=_')
    elif op == 'deps=':
        e = random_edges(g, gr)
        x.deps = [{'parent': d[a], 'deprel': b} for a, b in e]
        gr.edges[id(x)] = [(d[a], b) for a, b in e]
        log.append(f'{x.form}.deps={e}')
    elif op in ('append', 'extend', 'insert'):
        e = random_edges(g, gr)[:1] or [('0', 'root')]
        new = {'parent': d[e[0][0]], 'deprel': e[0][1]}
        if op == 'append':
            x.deps.append(new)
        elif op == 'extend':
            x.deps += [new]
        else:
            x.deps.insert(0, new)
        item = (d[e[0][0]], e[0][1])
        gr.edges[id(x)] = [item] + have if op == 'insert' else have + [item]
        log.append(f'{x.form}.deps.{op}{e[0]}')
    elif op in ('deprel', 'parent', 'del') and have:
        i = g.draw(len(have))
        if op == 'deprel':
            r = g.choice(DEPRELS)
            x.deps[i]['deprel'] = r
            have[i] = (have[i][0], r)
            log.append(f'{x.form}.deps[{i}].deprel={r}')
        elif op == 'parent':
            a = g.choice(list(d))
            x.deps[i]['parent'] = d[a]
            have[i] = (d[a], have[i][1])
            log.append(f'{x.form}.deps[{i}].parent={a}')
        else:
            del x.deps[i]
            del have[i]
            log.append(f'del {x.form}.deps[{i}]')
    elif op == 'clear':
        x.deps.clear()
        gr.edges[id(x)] = []
        log.append(f'{x.form}.deps.clear()')
    else:
        return
    g.tag(op)


def init(g, many=False):
    desc, root = start_seq(g, 6, many)
    assume(root.descendants)
    s = Seq(root)
    gr = Graph(s)
    d = gr.by_label()
    for x in s.items:
        e = random_edges(g, gr)
        x.raw_deps = '|'.join(f'{a}:{b}' for a, b in e) or '_'
        gr.edges[id(x)] = [(d[a], b) for a, b in e]
    return desc + ' ' + str([(x.form, gr.text(x)) for x in s.items]), s, gr


def saved_deps(s):
    rows = [r for sent in parse_conllu(conllu(s.root.document)) for r in sent['rows'] if '-' not in r[0]]
    return [(r[0], r[1], r[8]) for r in rows]


def f_history(g, many=False):
    desc, s, gr = init(g, many)
    log = []
    structural = False
    peak = 0
    for _ in range(g.int(1, 14)):
        peak = max(peak, sum(map(len, gr.edges.values())))
        if g.bool(0.55):
            graph_op(g, gr, log)
        else:
            for x in s.items:       # the graph is accessed before any renumbering
                x.deps
            was = list(s.items)
            k = len(s.log)
            step(g, s)
            if len(s.log) > k:
                log.append(s.log[-1])
                structural = True
            gr.sync(was)
        g.note(f'{desc}; ' + '; '.join(log), len(log) >= 2 and peak >= 2)
        if g.bool(0.6):
            gr.compare(g, f'{desc} after {log}')
    if structural:
        g.tag('structural')
    for x in s.items:
        x.deps
    if s.words():
        want = [(l, x.form, gr.text(x)) for l, x in zip(s.labels(), s.items)]
        eq(saved_deps(s), want, f'{desc} after {log}: saved DEPS')
        d2 = load(conllu(s.root.document))
        r2 = d2.bundles[0].trees[0]
        nodes = {str(x.ord): x for x in r2.descendants_and_empty}
        nodes['0'] = r2
        for x2, (l, form, t) in zip(r2.descendants_and_empty, want):
            eq([(d['parent'] is nodes[e.split(':')[0]], d['deprel']) for d, e in zip(x2.deps, t.split('|'))] if t != '_' else len(x2.deps),
               [(True, e.split(':', 1)[1]) for e in t.split('|')] if t != '_' else 0, f'reloaded edges of {form}')
    gr.compare(g, f'{desc} after {log} and saving')


def f_many(g):
    f_history(g, True)


def f_frozen(g):
    """No renumbering: texts which were never parsed stay verbatim and equal."""
    desc, s, gr = init(g)
    log = []
    for _ in range(g.int(1, 8)):
        graph_op(g, gr, log)
        x = g.choice(s.items)
        if g.bool():
            eq(x.raw_deps, gr.text(x), f'{desc} {log}: raw_deps of {x.form}')
        else:
            eq([(d['parent'] is p, d['deprel'] == r) for d, (p, r) in zip(x.deps, gr.edges[id(x)])], [(True, True)] * len(x.deps), f'{desc} {log}: deps of {x.form}')
    g.note(f'{desc}; ' + '; '.join(log), len(log) >= 2)
    eq(saved_deps(s), [(l, x.form, gr.text(x)) for l, x in zip(s.labels(), s.items)], f'{desc} after {log}: saved DEPS')
    gr.compare(g, f'{desc} after {log}')


def f_missing(g):
    """A reference to a node which does not exist is reported, whenever it is read."""
    desc, s, gr = init(g)
    x = g.choice(s.items)
    n = len(s.words())
    bad = g.choice([f'{n + 1}', f'{n + 7}', f'{n}.{len(s.empties()) + 1}', '0.99', f'{n + 1}.1'])
    assume(bad not in gr.by_label())
    text = f'{bad}:dep' if g.bool() else f'0:root|{bad}:dep'
    x.raw_deps = text
    g.note(f'{desc} {x.form}.raw_deps={text}')
    try:
        x.deps
    except (ValueError, IndexError, KeyError):
        pass
    else:
        raise Violation(f'{desc}: {x.form}.raw_deps={text} was read as {x.deps}')
    eq(x.raw_deps, text, 'raw_deps after the error')


FACETS = {
    'history': facet(f_history, 12000),
    'many': facet(f_many, 4000),
    'frozen': facet(f_frozen, 5000),
    'missing': facet(f_missing, 1500),
}

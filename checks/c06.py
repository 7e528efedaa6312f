"""C06: word-order moves."""
from vf.engine import check, eq, Violation, assume
from vf.gens import *
from vf.util import facet
from checks.c05 import Model, start

RULE = ('random trees (1-9 words, all shapes incl. heavily non-projective; 10-30 words in facet big) with 1-6 moves; '
        'non-trivial = at least 3 words and at least one move that changes the order or is rejected; distinct by heads + moves')
ASSUMPTIONS = ['a word moved "after the subtree of R" is put after the last word (other than itself) of that subtree, '
               'which is the documented boundary; multi-word tokens are generated so that moves may split them, only membership is compared']

KINDS = ['shift_after_node', 'shift_before_node', 'shift_after_subtree', 'shift_before_subtree']


def do_move(g, m, log, allow_errors=True):
    words = m.order
    a = g.choice(words)
    kind = g.choice(KINDS)
    refs = list(words)
    if kind.startswith('shift_after') and g.bool(0.08):
        r = m.root
    else:
        r = g.choice(refs)
    wc = g.bool(0.4)
    skip = g.bool(0.3)
    if kind == 'shift_before_subtree' or True:
        kwargs = {}
        if wc or g.bool(0.2):
            kwargs['without_children'] = wc
        if skip:
            kwargs['skip_if_descendant'] = True
    desc = f'{a.form}.{kind}({r.form}, {kwargs})'
    log.append(desc)
    sub = [a] if wc else m.subtree(a)
    subids = {id(x) for x in sub}
    old = list(words)
    if not wc and r is not a and id(r) in subids:
        before = snap(m.root)
        if skip:
            getattr(a, kind)(r, **kwargs)
            eq(snap(m.root), before, f'{desc}: skipped move changed something')
            return 'skip'
        try:
            getattr(a, kind)(r, **kwargs)
        except ValueError:
            pass
        else:
            raise Violation(f'{desc}: moving next to an own descendant was not rejected')
        eq(snap(m.root), before, f'{desc}: rejected move changed something')
        return 'rejected'
    # model: the boundary
    pos = {id(x): i for i, x in enumerate(old, 1)}
    pos[id(m.root)] = 0
    if kind.endswith('subtree'):
        group = [x for x in ([m.root] + old if r is m.root else m.subtree(r)) if x is not a]
        if r is a:
            group = [a] + group
        ps = [pos[id(x)] for x in group] or [pos[id(r)]]
        bound = max(ps) + 1 if 'after' in kind else min(ps)
    else:
        bound = pos[id(r)] + 1 if 'after' in kind else pos[id(r)]
    left = [x for x in old if id(x) not in subids and pos[id(x)] < bound]
    right = [x for x in old if id(x) not in subids and pos[id(x)] >= bound]
    getattr(a, kind)(r, **kwargs)
    m.order = left + sub + right
    m.compare(f'after {log}')
    return 'same' if all(x is y for x, y in zip(old, m.order)) else 'moved'


def f_moves(g):
    heads, root, nodes = start(g, 9)
    assume(nodes)
    m = Model(root, nodes)
    mw = {}
    if len(nodes) > 1 and g.bool(0.3):
        lo = g.int(0, len(nodes) - 2)
        ws = nodes[lo:lo + g.int(2, 3)]
        t = root.create_multiword_token(ws, form='MWT')
        mw[id(t)] = (t, {id(w) for w in ws})
        for n in nodes:
            m.attr[id(n)] = attrs(n)
    log = []
    kinds = set()
    for _ in range(g.int(1, 6)):
        res = do_move(g, m, log)
        kinds.add(res)
        g.tag(res, log[-1].split('.')[1].split('(')[0] + res)
        for t, ids in mw.values():
            eq({id(w) for w in t.words}, ids, f'{log}: multi-word token membership')
            for w in root.descendants:
                check((w.multiword_token is t) == (id(w) in ids), f'{log}: membership of {w.form}')
    g.note(f'heads={heads}; ' + '; '.join(log), len(nodes) >= 3 and kinds & {'moved', 'rejected', 'skip'})


def f_all_pairs(g):
    """One small tree, every word x reference x kind x option, each on a fresh copy."""
    n = g.int(2, 5)
    heads = gen_heads(g, n)
    g.note(f'heads={heads}', n >= 3)
    for ai in range(1, n + 1):
        for ri in range(1, n + 1):
            for kind in KINDS:
                for wc in (False, True):
                    root, nodes = build(heads)
                    m = Model(root, list(nodes[1:]))
                    gg = _Fixed([ai - 1, KINDS.index(kind), ri - 1], wc)
                    do_move(gg, m, [f'heads={heads}'])


class _Fixed:
    """Feeds fixed choices to do_move."""

    def __init__(self, idx, wc):
        self.idx, self.wc = list(idx), wc
        self.b = None

    def choice(self, seq):
        return seq[self.idx.pop(0)]

    def bool(self, p=0.5):
        if p == 0.08:
            return False
        if p == 0.4:
            return self.wc
        return False


def f_big(g):
    n = g.int(10, 30)
    heads = gen_heads(g, n)
    root, nodes = build_any(g, heads)
    m = Model(root, list(nodes[1:]))
    log = []
    for _ in range(g.int(1, 5)):
        do_move(g, m, log)
    g.note(f'heads={heads}; ' + '; '.join(log))


def f_root_rejected(g):
    heads, root, nodes = start(g, 6)
    assume(nodes)
    a = g.choice(nodes)
    kind = g.choice(['shift_before_node', 'shift_before_subtree'])
    before = snap(root)
    g.note(f'heads={heads} {a.form}.{kind}(root)', len(nodes) > 1)
    try:
        getattr(a, kind)(root, without_children=g.bool())
    except ValueError:
        pass
    else:
        raise Violation(f'{kind} the technical root was not rejected')
    eq(snap(root), before, 'rejected move changed something')


FACETS = {
    'moves': facet(f_moves, 30000, 300000),
    'all_pairs': facet(f_all_pairs, 800),
    'big': facet(f_big, 4000),
    'root_rejected': facet(f_root_rejected, 800, 1600),
}

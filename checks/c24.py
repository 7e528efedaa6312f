"""C24: each block hook is called for exactly the selected trees, words and mentions."""
from collections import Counter
from vf.engine import check, eq, Violation, assume
from vf.gens import *
from vf.util import facet
from udapi.core.block import Block
from udapi.block.util.eval import Eval

RULE = ('documents of 0-4 (sometimes 10-12) bundles with 0-3 zones, empty trees, empty nodes, multi-word tokens and coreference x blocks overriding a random subset of the hooks, with or without '
        'calling the default, with zones= and if_empty_tree=, while hooks create, remove, move or re-attach words, tokens, mentions, trees or bundles; also util.Eval with every code hook; '
        'the calls received are compared with a model; non-trivial = at least three calls expected; distinct by document and block')
ASSUMPTIONS = ['process_empty_node is not combined with an overridden process_tree or process_bundle', 'whether a hook sees the words created or removed during its own tree is not judged',
               'the empty-tree policy for trees in zones which are not selected is not judged']


def gen_doc(g, empties=0.3, mwts=0.3, coref=False, empty_tree=0.12):
    doc = new_doc()
    k = g.int(0, 4) if g.bool(0.93) else g.int(10, 12)
    for _ in range(k):
        b = doc.create_bundle()
        zs = g.subset(['', 'en', 'cs', 'en_x'], 0.45)
        for z in g.perm(zs):
            t = b.create_tree(z)
            n = 0 if g.bool(empty_tree) else g.int(1, 5) if g.bool(0.95) else g.int(10, 12)
            ws = [t.create_child(form=f'w{i}', deprel='dep') for i in range(1, n + 1)]
            for w, h in zip(ws, gen_heads(g, n)):
                if h:
                    w.parent = ws[h - 1]
            if n and g.bool(empties):
                for _ in range(g.int(1, 3)):
                    g.choice(ws).create_empty_child('dep', after=g.bool(), form='E')
            i = 0
            while i < n - 1 and mwts:
                if g.bool(mwts):
                    t.create_multiword_token(ws[i:i + 2], form='mm')
                    i += 1
                i += 1
    if coref:
        trees = [t for t in doc.trees if t.descendants]
        if trees:
            zone = g.choice(trees).zone   # mentions are compared only within a zone
            trees = [t for t in trees if t.zone == zone]
            free = {t: list(t.descendants) for t in trees}
            for e in range(g.int(0, 4) if g.bool(0.9) else g.int(10, 12)):
                ent = None
                for _ in range(g.int(1, 4)):
                    t = g.choice(trees)
                    if not free[t]:
                        continue
                    w = free[t].pop(g.int(0, len(free[t]) - 1))
                    if ent is None:
                        ent = doc.create_coref_entity(eid=f'e{e + 1}')
                    ent.create_mention(head=w, words=[w])
    return doc


class Overflow(Exception):
    pass


def zone_ok(z, zones):
    return zones == 'all' or z in zones.split(',')


ZONES = ['all', 'all', 'all', 'en', '', 'en,cs', 'cs,en_x', ',en', 'de', 'en_x']
HOOKS = ['process_bundle', 'process_tree', 'process_node', 'process_empty_node', 'process_coref_entity', 'process_coref_mention']


def make_block(hooks, sup, record, edit):
    """A block class overriding the given hooks; sup = those which call the default implementation."""
    body = {}

    def mk(h):
        def f(self, x):
            record(h, x)
            edit(self, h, x)
            if h in sup:
                getattr(super(cls, self), h)(x)
        return f
    for h in hooks:
        body[h] = mk(h)
    for h in ('process_start', 'process_end'):
        def s(self, h=h):
            record(h, None)
        body[h] = s
    for h in ('before_process_document', 'after_process_document'):
        def d(self, doc, h=h):
            record(h, doc)
        body[h] = d
    cls = type('Recorder', (Block,), body)
    return cls


def snapshot(doc):
    return [(b, [(t, t.zone, list(t.descendants), list(t.empty_nodes)) for t in b.trees]) for b in doc.bundles]


def expected(doc, shot, hooks, sup, zones, policy):
    """List of (hook, object) expected without edits, or an exception class."""
    out = []
    H = lambda h: h in hooks

    def call(h, x):
        if H(h):
            out.append((h, x))
    if not hooks:
        return Exception
    if H('process_coref_entity') or H('process_coref_mention'):
        for e in doc.coref_entities:
            call('process_coref_entity', e)
            if not H('process_coref_entity') or 'process_coref_entity' in sup:
                for m in e.mentions:
                    call('process_coref_mention', m)
    if any(H(h) for h in HOOKS[:4]):
        for b, ts in shot:
            call('process_bundle', b)
            if H('process_bundle') and 'process_bundle' not in sup:
                continue
            for t, z, ws, es in ts:
                if not ws:
                    if policy in ('skip', 'skip_warn', 'delete'):
                        continue
                    if policy != 'process':
                        out.append(Exception)
                        return out
                if not zone_ok(z, zones):
                    continue
                call('process_tree', t)
                if H('process_tree') and 'process_tree' not in sup:
                    continue
                for w in ws:
                    call('process_node', w)
                for e in es:
                    call('process_empty_node', e)
    return out


def gen_hooks(g):
    hooks = g.subset(HOOKS, 0.4)
    if 'process_empty_node' in hooks and ('process_tree' in hooks or 'process_bundle' in hooks):
        hooks.remove('process_empty_node')
    sup = [h for h in hooks if h not in ('process_node', 'process_empty_node', 'process_coref_mention') and g.bool(0.65)]
    return hooks, sup


def name(x):
    return getattr(x, 'form', None) or str(x)


def show(calls):
    return [(c[0], id(c[1])) if isinstance(c, tuple) else c for c in calls]


def desc(doc):
    return [[(t.zone, len(t.descendants), len(t.empty_nodes), len(t.multiword_tokens)) for t in b.trees] for b in doc.bundles]


def f_calls(g):
    """Hooks without edits: the exact sequence of calls over several documents."""
    hooks, sup = gen_hooks(g)
    docs = [gen_doc(g, coref=g.bool(0.5)) for _ in range(g.int(1, 2))]
    zones = g.choice(ZONES)
    policy = g.weighted([(5, 'process'), (2, 'skip'), (1, 'skip_warn'), (1, 'delete'), (1, 'fail'), (1, 'nonsense')])
    kw = {}
    if zones != 'all' or g.bool(0.3):
        kw['zones'] = zones
    if policy != 'process' or g.bool(0.2):
        kw['if_empty_tree'] = policy
    if policy in ('fail', 'nonsense', 'delete', 'skip_warn'):
        for d in docs:
            for t in d.trees:
                assume(t.descendants or zone_ok(t.zone, zones))
    log = []
    cls = make_block(hooks, sup, lambda h, x: log.append((h, x)), lambda *a: None)
    want = [('process_start', None)]
    err = None
    n = 0
    for d in docs:
        want.append(('before_process_document', d))
        e = expected(d, snapshot(d), hooks, sup, zones, policy)
        if e is Exception:
            err = True
            break
        if e and e[-1] is Exception:
            err = True
            want += e[:-1]
            break
        want += e
        n += len(e)
        want.append(('after_process_document', d))
    else:
        want.append(('process_end', None))
    g.note(f'{hooks} {sup} {kw} {[desc(d) for d in docs]}', nontrivial=n > 2)
    with_empty = [[[t for t in b.trees if t.descendants] for b in d.bundles] for d in docs]
    all_trees = [[list(b.trees) for b in d.bundles] for d in docs]
    block = cls(**kw)
    try:
        block.process_start()
        for d in docs:
            block.apply_on_document(d)
        block.process_end()
        got_err = None
    except Exception as ex:
        got_err = True
        check('Overflow' not in type(ex).__name__)
    eq(got_err, err, 'error')
    eq([h for h, x in log], [h for h, x in want], 'hooks called')
    check(all(a[1] is b[1] for a, b in zip(log, want)), lambda: f'wrong objects: {log} instead of {want}')
    reached = any(h in hooks for h in HOOKS[:4]) and ('process_bundle' not in hooks or 'process_bundle' in sup)
    if err is None:
        eq([[list(b.trees) for b in d.bundles] for d in docs], with_empty if policy == 'delete' and reached else all_trees, 'trees left')


class Editor:
    """Random edits done inside hooks."""

    def __init__(self, g, ops):
        self.g, self.ops = g, ops
        self.removed = set()
        self.new = set()
        self.budget = 60

    def __call__(self, block, hook, x):
        g = self.g
        self.budget -= 1
        if self.budget < 0 or not g.bool(0.5):
            return
        op = g.choice(self.ops[hook])
        getattr(self, op)(x)

    def nothing(self, x):
        pass

    # words
    def add_child(self, w):
        if w in self.removed:
            return
        n = w.create_child(form='NEW')
        self.new.add(n)
        k = self.g.int(0, 3)
        if k == 1:
            n.shift_before_node(w) if not w.is_root() else None
        elif k == 2 and not w.is_root():
            n.shift_after_node(w)

    def add_child_tree(self, t):
        n = t.create_child(form='NEW')
        self.new.add(n)
        ws = t.descendants
        if self.g.bool():
            n.shift_before_node(ws[0]) if ws[0] is not n else None

    def remove_self(self, w):
        if w in self.removed or w.root is None:
            return
        if self.g.bool():
            self.mark(w.descendants(add_self=True))
            w.remove()
        else:
            self.mark([w])
            w.remove(children='rehang')

    def mark(self, ws):
        self.removed.update(ws)

    def remove_other(self, w):
        ws = [x for x in w.root.descendants if x is not w]
        if w not in self.removed and ws:
            self.remove_self(self.g.choice(ws))

    def remove_in_tree(self, t):
        if t.descendants:
            self.remove_self(self.g.choice(list(t.descendants)))

    def move(self, w):
        ws = [x for x in w.root.descendants if x is not w and not x.is_descendant_of(w)]
        if w in self.removed or not ws:
            return
        r = self.g.choice(ws)
        self.g.choice([w.shift_after_node, w.shift_before_node])(r, **self.g.choice([{}, {'without_children': True}]))

    def move_other(self, w):
        ws = [x for x in w.root.descendants if x is not w]
        if w not in self.removed and ws:
            self.move(self.g.choice(ws))

    def rehang(self, w):
        if w not in self.removed:
            ws = [x for x in w.root.descendants if x is not w and not x.is_descendant_of(w)]
            w.parent = self.g.choice([w.root] + ws)

    def flatten(self, w):
        if w not in self.removed:
            w.root.flatten()

    def remove_tree(self, t):
        self.mark(t.descendants(add_self=True))
        t.remove()

    def remove_bundle(self, b):
        for t in b.trees:
            self.mark(t.descendants(add_self=True))
        self.mark([b])
        b.remove()

    # empty nodes
    def add_empty(self, e):
        w = e.root.descendants[0] if e.root.descendants else None
        if w is not None and len(e.root.empty_nodes) < 8:
            self.new.add(w.create_empty_child('dep', after=self.g.bool(), form='NEW'))

    def remove_empty(self, e):
        if e not in self.removed:
            self.mark([e])
            e.root.empty_nodes.remove(e)

    # coreference
    def other_mention(self, m):
        """create a new mention of the same entity"""
        ent = m.entity
        used = {w for e in m.head.root.bundle.document.coref_entities for x in e.mentions for w in x.words}
        for t in m.head.root.bundle.document.trees:
            for w in t.descendants:
                if w not in used and t.zone == m.head.root.zone:
                    self.new.add(ent.create_mention(head=w, words=[w]))
                    return


OPS = {
    'process_node': ['nothing', 'add_child', 'add_child', 'remove_self', 'remove_other', 'move', 'move_other', 'rehang', 'flatten'],
    'process_tree': ['nothing', 'add_child_tree', 'remove_in_tree', 'remove_tree'],
    'process_bundle': ['nothing', 'remove_bundle'],
    'process_empty_node': ['nothing', 'add_empty', 'remove_empty'],
    'process_coref_entity': ['nothing'],
    'process_coref_mention': ['nothing', 'other_mention'],
}


def f_edits(g):
    """Hooks which edit the document while it is being processed."""
    hooks, sup = gen_hooks(g)
    assume(hooks)
    if g.bool(0.5) and 'process_node' not in hooks and 'process_empty_node' not in hooks:
        hooks.append('process_node')
        sup = [h for h in hooks if h in ('process_bundle', 'process_tree', 'process_coref_entity')]
    doc = gen_doc(g, coref=g.bool(0.3))
    zones = g.choice(ZONES)
    log = []
    ed = Editor(g, OPS)

    def record(h, x):
        log.append((h, x))
        if len(log) > 2000:
            raise Overflow
    shot = snapshot(doc)
    want = expected(doc, shot, hooks, sup, zones, 'process')
    limit = len(want)
    g.note(f'{hooks} {sup} {zones} {desc(doc)}', nontrivial=len(want) > 2)
    cls = make_block(hooks, sup, record, ed)
    try:
        cls(zones=zones).run(doc)
    except Overflow:
        raise Violation('endless processing')
    got = [(h, x) for h, x in log if h in HOOKS]
    count = Counter((h, id(x)) for h, x in got)
    wanted = Counter((h, id(x)) for h, x in want)
    keep = {id(x): x for _, x in want}
    gone = {id(x) for x in ed.removed}
    fresh = {id(x) for x in ed.new}
    for (h, i), n in count.items():
        check(n == 1, f'{h} called {n} times on one object')
        check((h, i) in wanted or i in fresh, f'{h} called on an object which was not selected')
    for (h, i) in wanted:
        # words of a tree are skipped if the tree (or its bundle) was removed before it was reached
        check((h, i) in count or i in gone, f'{h} was not called on {keep[i]}')
    # the others come in document order
    order = {k: n for n, k in enumerate((h, id(x)) for h, x in want)}
    seq = [order[(h, id(x))] for h, x in got if (h, id(x)) in order]
    eq(seq, sorted(seq), 'order of calls')


# ------------------------------------------------------------------ util.Eval

LOG = []


def f_eval(g):
    doc = gen_doc(g, coref=g.bool(0.4))
    zones = g.choice(ZONES)
    kw = {'zones': zones}
    pre = 'import checks.c24 as c24; c24.LOG.append('
    keys = g.subset(['doc', 'bundle', 'tree', 'node', 'mwt', 'start', 'end', 'before_doc', 'after_doc', 'before_bundle', 'after_bundle', 'coref_mention', 'coref_entity'], 0.5, 1)
    empty_nodes = g.bool(0.4)
    if empty_nodes:
        kw['empty_nodes'] = 1
    edit = g.bool(0.4)
    dollar = g.bool(0.5)
    for k in keys:
        code = {'node': ['node', 'this'], 'tree': ['tree', 'this', 'root'], 'mwt': ['mwt', 'this'], 'doc': ['doc', 'document', 'this'], 'bundle': ['bundle', 'this'], 'coref_entity': ['entity', 'this'],
                'coref_mention': ['mention', 'this'], 'before_doc': ['doc', 'this'], 'after_doc': ['doc', 'this'], 'before_bundle': ['bundle', 'this'], 'after_bundle': ['bundle', 'this'],
                'start': ['self', 'self'], 'end': ['self', 'self']}[k]
        v = g.choice(code)
        kw[k] = f'{pre}({k!r}, id({v})))'
        if k == 'node':
            kw[k] += '; count_"n" += 1'
            if dollar:
                kw[k] += '; $.lemma = "x" + str(this.ord)'
            if edit:
                kw[k] += g.choice(['; n = node.create_child(form="N") if not node.is_empty() else None', '; n = node.create_child(form="N") if not node.is_empty() else None; n and n.shift_before_node(node)',
                                   '; node.remove(children="rehang") if not node.is_empty() and node.ord == 2 else None' if 'mwt' not in keys else ''])
        if k == 'mwt' and edit:
            kw[k] += '; this.remove()'
    want = []
    lemmas = {}
    if 'start' in keys:
        want.append(('start', None))
    if 'before_doc' in keys:
        want.append(('before_doc', doc))
    if 'doc' in keys:
        want.append(('doc', doc))
    n = 0
    for b in doc.bundles:
        for k in ('before_bundle', 'bundle'):
            if k in keys:
                want.append((k, b))
        for t in b.trees:
            if zone_ok(t.zone, zones):
                if 'tree' in keys:
                    want.append(('tree', t))
                if 'node' in keys:
                    nodes = list(t.descendants)
                    if empty_nodes:
                        nodes = sorted(nodes + list(t.empty_nodes), key=lambda x: tuple(map(int, str(x.ord).split('.'))) if '.' in str(x.ord) else (int(x.ord), 0))
                    n += len(nodes)
                    want += [('node', w) for w in nodes]
                    for w in nodes:
                        lemmas[w] = w.ord
                if 'mwt' in keys:
                    want += [('mwt', m) for m in t.multiword_tokens]
        if 'after_bundle' in keys:
            want.append(('after_bundle', b))
    for e in doc.coref_entities:
        if 'coref_entity' in keys:
            want.append(('coref_entity', e))
        if 'coref_mention' in keys:
            want += [('coref_mention', m) for m in e.mentions]
    if 'after_doc' in keys:
        want.append(('after_doc', doc))
    if 'end' in keys:
        want.append(('end', None))
    g.note(f'{kw} {desc(doc)}', nontrivial=len(want) > 2)
    LOG.clear()
    block = Eval(**kw)
    block.run(doc)
    import checks.c24 as me
    got = list(me.LOG)
    me.LOG.clear()
    want2 = [(k, id(block) if x is None else id(x)) for k, x in want]
    eq([k for k, _ in got], [k for k, _ in want], 'code hooks run')
    eq(got, want2, 'objects')
    if 'node' in keys:
        eq(block.count['n'], n, 'count')
        if dollar and not edit:
            for w, o in lemmas.items():
                eq(w.lemma, f'x{o}', 'the variable "this"')


FACETS = {
    'calls': facet(f_calls, 30000),
    'edits': facet(f_edits, 28000),
    'eval': facet(f_eval, 12000),
}

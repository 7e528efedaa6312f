"""C12: document, bundle, zone and sentence ids."""
from vf.engine import check, eq, Violation, assume
from vf.gens import *
from vf.util import facet

RULE = ('histories of 1-16 operations (create/rename/remove bundles, create/add/move/remove trees, zone and sentence-id changes incl. invalid and duplicate ones, loading) '
        'on documents of 0-6 bundles; non-trivial = at least 2 trees and 3 operations; distinct by the log')
ASSUMPTIONS = ['bundle ids given by the user are unique, non-empty and contain no slash', 'a tree is removed from its bundle before it is added to another one']

ZONES = ['', 'en', 'cs', 'en_udpipe', 'cs_A-1', 'x-y', '_b', 'de']
BAD = ['all', 'EN', 'en_', 'en/x', 'a b', 'en_a_b', 'e1', 'en\n', 'č', 'en_č', '/', 'en_x ']


class Model:
    def __init__(self, doc):
        self.doc = doc
        self.bundles = []       # [dict(obj, id, trees=[dict(obj, zone, words)])]
        self.log = []

    def trees(self):
        return [(b, t) for b in self.bundles for t in b['trees']]

    @staticmethod
    def tid(b, t):
        return b['id'] + ('/' + t['zone'] if t['zone'] else '')

    def compare(self, msg):
        doc = self.doc
        same = lambda xs, ys, what: check(len(xs) == len(ys) and all(a is b for a, b in zip(xs, ys)), lambda: f'{msg}: {what}: {xs} expected {ys}')
        same(list(doc), [b['obj'] for b in self.bundles], 'bundles')
        same(list(doc.bundles), [b['obj'] for b in self.bundles], 'doc.bundles')
        eq(len(doc), len(self.bundles), f'{msg}: len')
        same(list(doc.trees), [t['obj'] for _, t in self.trees()], 'doc.trees')
        words = [w for _, t in self.trees() for w in t['words']]
        same(list(doc.nodes), words, 'doc.nodes')
        same([n for n in doc.nodes_and_empty if not n.is_empty()], words, 'doc.nodes_and_empty')
        eq(sum(1 for n in doc.nodes_and_empty if n.is_empty()), sum(len(t['obj'].empty_nodes) for _, t in self.trees()), 'empty nodes')
        last = None
        for i, b in enumerate(self.bundles):
            o = b['obj']
            check(doc[i] is o and o.document is doc, f'{msg}: doc[{i}]')
            eq((o.bundle_id, o.address()), (b['id'], b['id']), f'{msg}: bundle id')
            same(list(o), [t['obj'] for t in b['trees']], f'trees of {b["id"]}')
            same(list(o.nodes), [w for t in b['trees'] for w in t['words']], f'nodes of {b["id"]}')
            check(last is None or last < o.number, f'{msg}: bundle numbers do not increase: {[x.number for x in doc]}')
            last = o.number
            for z in ZONES:
                has = any(t['zone'] == z for t in b['trees'])
                eq(o.has_tree(z), has, f'{msg}: has_tree({z!r}) in {b["id"]}')
                if not has:
                    try:
                        o.get_tree(z)
                    except Exception:
                        pass
                    else:
                        raise Violation(f'{msg}: get_tree({z!r}) of {b["id"]} returned a tree which does not exist')
            for t in b['trees']:
                r = t['obj']
                tid = self.tid(b, t)
                eq((r.zone, r.sent_id, r.address()), (t['zone'], tid, tid), f'{msg}: zone and ids of a tree of bundle {b["id"]}')
                check(o.get_tree(t['zone']) is r and r.bundle is o and r.document is doc, f'{msg}: links of {tid}')
                for k, w in enumerate(t['words'], 1):
                    eq(w.address(), f'{tid}#{k}', f'{msg}: address of a word')
                check_wf(r, msg)
        if self.trees():
            (b1, t1), (b2, t2) = self.trees()[0], self.trees()[-1]
            for (b1, t1) in self.trees():
                for (b2, t2) in self.trees():
                    if t1['zone'] == t2['zone'] and b1 is not b2 and t1['words'] and t2['words']:
                        i1 = next(i for i, x in enumerate(self.bundles) if x is b1)
                        i2 = next(i for i, x in enumerate(self.bundles) if x is b2)
                        eq(t1['words'][-1].precedes(t2['words'][0]), i1 < i2, f'{msg}: order across sentences')

    def state(self):
        d = self.doc
        return [(id(b), b.bundle_id, b.number, [(id(t), t.zone, t.sent_id, len(t.descendants), id(t.bundle)) for t in b]) for b in d]


def words_for(g, r):
    return [r.create_child(form='w') for _ in range(g.weighted([(3, 1), (2, 2), (1, 0)]))]


def rejected(m, fn, what):
    before = m.state()
    m.log.append(what + ' (rejected)')
    try:
        fn()
    except Exception as e:
        if isinstance(e, (NameError, AttributeError, UnboundLocalError)):
            raise
    else:
        raise Violation(f'{m.log}: was not rejected')
    eq(m.state(), before, f'{m.log}: a rejected change had an effect')


def f_history(g):
    from udapi.core.root import Root
    doc = new_doc()
    m = Model(doc)
    loose = []      # removed trees: (root, words, zone)
    fresh = [0]
    rej = 0
    if g.bool(0.08):        # many sentences: numbers and ids with two digits
        for _ in range(g.int(8, 12)):
            b = doc.create_bundle()
            r = b.create_tree()
            m.bundles.append(dict(obj=b, id=b.bundle_id, trees=[dict(obj=r, zone='', words=[r.create_child(form='w')])]))
        m.log.append(f'{len(m.bundles)} bundles with a tree')
        m.compare(str(m.log))
    for _ in range(g.int(1, 16)):
        op = g.weighted([(4, 'bundle'), (6, 'tree'), (2, 'add'), (3, 'rename'), (2, 'zone'), (2, 'sentid'), (2, 'rmtree'), (2, 'rmbundle'),
                         (2, 'badzone'), (2, 'dupzone'), (2, 'move'), (1, 'load'), (1, 'word'), (1, 'sentzone')])
        if op == 'bundle':
            b = doc.create_bundle()
            check(all(b.bundle_id != x['id'] for x in m.bundles) or fresh[0], f'{m.log}: create_bundle gave a used id')
            m.bundles.append(dict(obj=b, id=b.bundle_id, trees=[]))
            m.log.append('create_bundle')
        elif op in ('tree', 'add') and m.bundles:
            b = g.choice(m.bundles)
            free = [z for z in ZONES if all(t['zone'] != z for t in b['trees'])]
            if not free:
                continue
            z = g.choice(free)
            if op == 'tree':
                r = b['obj'].create_tree(z) if z or g.bool() else b['obj'].create_tree()
                ws = words_for(g, r)
            else:
                r = Root(zone=z if z or g.bool() else None)
                if g.bool(0.4):
                    r.sent_id = 'old/zone'
                ws = words_for(g, r)
                check(b['obj'].add_tree(r) is r, 'add_tree returns the tree')
            b['trees'].append(dict(obj=r, zone=z, words=ws))
            m.log.append(f'{b["id"]}.{op}({z!r})')
        elif op == 'rename' and m.bundles:
            b = g.choice(m.bundles)
            fresh[0] += 1
            b['id'] = b['obj'].bundle_id = f'r{fresh[0]}'
            m.log.append(f'bundle_id={b["id"]}')
        elif op in ('zone', 'sentzone') and m.trees():
            b, t = g.choice(m.trees())
            free = [z for z in ZONES if all(x['zone'] != z for x in b['trees'])] + [t['zone']]
            z = g.choice(free)
            if op == 'zone':
                t['obj'].zone = z
                t['zone'] = z
            else:
                if not z:
                    continue
                fresh[0] += 1
                t['obj'].sent_id = f's{fresh[0]}/{z}'
                t['zone'], b['id'] = z, f's{fresh[0]}'
            m.log.append(f'{op}={z!r} in {b["id"]}')
        elif op == 'sentid' and m.trees():
            b, t = g.choice(m.trees())
            fresh[0] += 1
            t['obj'].sent_id = f's{fresh[0]}' + ('/' + t['zone'] if t['zone'] and g.bool() else '')
            b['id'] = f's{fresh[0]}'
            m.log.append(f'sent_id={b["id"]}')
        elif op == 'rmtree' and m.trees():
            b, t = g.choice(m.trees())
            t['obj'].remove() if g.bool() else t['obj'].remove(children='warn')
            b['trees'] = [x for x in b['trees'] if x is not t]
            loose.append(t)
            m.log.append(f'remove {b["id"]}/{t["zone"]}')
        elif op == 'rmbundle' and m.bundles:
            b = g.choice(m.bundles)
            b['obj'].remove()
            m.bundles = [x for x in m.bundles if x is not b]
            m.log.append(f'remove {b["id"]}')
        elif op == 'badzone' and m.bundles:
            z = g.choice(BAD)
            if g.bool() and m.trees():
                b, t = g.choice(m.trees())
                if g.bool():
                    def bad():
                        t['obj'].zone = z
                    rejected(m, bad, f'zone={z!r}')
                else:
                    def bad():
                        t['obj'].sent_id = 'new/' + z
                    rejected(m, bad, f'sent_id=new/{z!r}')
            else:
                b = g.choice(m.bundles)
                rejected(m, lambda: b['obj'].create_tree(z), f'create_tree({z!r})')
            rej += 1
        elif op == 'dupzone' and m.trees():
            b, t = g.choice(m.trees())
            z = t['zone']
            others = [x for x in b['trees'] if x is not t]
            k = g.draw(4)
            if k == 0:
                rejected(m, lambda: b['obj'].create_tree(z), f'create_tree({z!r}) again')
            elif k == 1:
                rejected(m, lambda: b['obj'].add_tree(Root(zone=z)), f'add_tree({z!r}) again')
            elif others:
                o = g.choice(others)
                if k == 2:
                    def bad():
                        o['obj'].zone = z
                    rejected(m, bad, f'zone={z!r} again')
                elif z:
                    def bad():
                        o['obj'].sent_id = 'new/' + z
                    rejected(m, bad, f'sent_id=new/{z} again')
            rej += 1
        elif op == 'move' and loose and m.bundles:
            t = loose.pop(g.draw(len(loose)))
            b = g.choice(m.bundles)
            if any(x['zone'] == t['zone'] for x in b['trees']):
                rejected(m, lambda: b['obj'].add_tree(t['obj']), 'add_tree of a removed tree to a used zone')
                loose.append(t)
                continue
            b['obj'].add_tree(t['obj'])
            b['trees'].append(t)
            m.log.append(f'moved /{t["zone"]} to {b["id"]}')
        elif op == 'load' and not m.bundles:     # loading into a non-empty document adds zones (C03)
            ids = []
            text = ''
            for _ in range(g.int(1, 2)):
                fresh[0] += 1
                zs = g.subset(['', 'en', 'cs'], 0.5, 1)
                for z in zs:
                    text += f'# sent_id = f{fresh[0]}{"/" + z if z else ""}\n1\tw\t_\t_\t_\t_\t0\tdep\t_\t_\n\n'
                ids.append((f'f{fresh[0]}', zs))
            n = len(doc)
            doc.from_conllu_string(text)
            eq(len(doc), n + len(ids), f'{m.log}: loading into a document')
            for b, (i, zs) in zip(doc.bundles[n:], ids):
                eq([t.zone for t in b], zs, 'loaded zones')
                m.bundles.append(dict(obj=b, id=i, trees=[dict(obj=t, zone=z, words=list(t.descendants)) for t, z in zip(b, zs)]))
            m.log.append(f'load {ids}')
        elif op == 'word' and m.trees():
            b, t = g.choice(m.trees())
            if t['words'] and g.bool():
                w = g.choice(t['words'])
                w.create_empty_child('dep')
            else:
                t['words'].append(t['obj'].create_child(form='w'))
        else:
            continue
        g.tag(op)
        g.note(str(m.log), len(m.trees()) >= 2 and len(m.log) >= 3)
        m.compare(f'after {m.log}')
    # ids in the saved file
    text = conllu(doc)
    got = [l[len('# sent_id = '):] for l in text.split('\n') if l.startswith('# sent_id = ')]
    eq(got, [m.tid(b, t) for b, t in m.trees()], f'{m.log}: saved ids')
    if len({b['id'] for b in m.bundles}) == len(m.bundles):
        d2 = load(text)
        eq([(b.bundle_id, [t.zone for t in b]) for b in d2], [(b['id'], [t['zone'] for t in b['trees']]) for b in m.bundles if b['trees']], f'{m.log}: reloaded bundles')


def f_unbundled(g):
    """Trees created outside of a document."""
    from udapi.core.root import Root
    from udapi.core.bundle import Bundle
    z = g.choice(ZONES)
    r = Root(zone=z or None)
    g.note(repr(z))
    eq(r.sent_id, '?' + ('/' + z if z else ''), 'id of a tree without a bundle')
    w = r.create_child(form='w')
    eq(w.address(), r.sent_id + '#1', 'address')
    r.sent_id = 'own'
    eq(r.sent_id, 'own', 'own id')
    if g.bool():        # the zone and the id of a tree without a bundle
        i, z2 = g.choice(['own', 'x/en', 'a/b', 's1']), g.choice(ZONES)
        r = Root(zone=z or None)
        if g.bool():
            r.sent_id = i
        else:
            i = None
        r.zone = z2
        eq((r.zone, r.sent_id), (z2, (i.split('/')[0] if i else '?') + ('/' + z2 if z2 else '')), f'zone {z2!r} of a tree with id {i}')
        w = r.create_child(form='w')
        eq(w.address(), r.sent_id + '#1', 'address')
        z = z2
    b = Bundle()
    check(str(b), 'a bundle without id cannot be printed')
    eq(b.address(), '?', 'address of a bundle without id')
    doc = new_doc()
    bb = doc.create_bundle()
    bb.add_tree(r)
    eq(r.sent_id, bb.bundle_id + ('/' + z if z else ''), 'id after add_tree')


FACETS = {
    'history': facet(f_history, 14000),
    'unbundled': facet(f_unbundled, 400, 400),
}

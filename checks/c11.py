"""C11: FEATS / MISC / coreference attributes are a dictionary and a string at once."""
from vf.engine import check, eq, Violation, assume
from vf.gens import *
from vf.util import facet

RULE = ('histories of 1-12 reads and writes through the dictionary, string and attribute views of 1-3 dictionaries (FEATS and MISC of words, empty nodes '
        'and tokens, free DualDict, OtherDualDict); non-trivial = at least 2 writes; distinct by the log')
ASSUMPTIONS = ['the defaults of get() and setdefault() are not specified (missing names read as the empty string)',
               'strings given by the user have no duplicate names and no empty entries; names differing only in case are not mixed']

NAMES = ['Case', 'aZ', 'Number', 'b', 'Zz', 'Gender[psor]', 'C', 'x-y']
VALUES = ['Nom', 'Sing', '1', 'a=b', 'Plur', 'č', '0', 'No']


class Fmt:
    def __init__(self, sep, eqs, empty):
        self.sep, self.eqs, self.empty = sep, eqs, empty

    def entry(self, k, v):
        return k if v is True else f'{k}{self.eqs}{v}'

    def render(self, d):
        return self.sep.join(self.entry(k, v) for k, v in sorted(d.items(), key=lambda kv: kv[0].lower())) or self.empty


DUAL = Fmt('|', '=', '_')
OTHER = Fmt(',', ':', '')


class Model:
    """mapping + the verbatim string, if the last write was a string."""

    def __init__(self, fmt):
        self.fmt, self.d, self.s = fmt, {}, None

    def string(self):
        return self.s if self.s is not None else self.fmt.render(self.d)


def gen_map(g):
    d = {}
    for k in g.list(lambda: g.choice(NAMES), 0, 5, 0.65):
        d[k] = True if g.bool(0.15) else g.choice(VALUES)
    return d


def verbatim(fmt, d):
    return fmt.sep.join(fmt.entry(k, v) for k, v in d.items()) or fmt.empty


def same(obj, m, g, msg):
    order = g.draw(4)
    if order == 0:
        eq(str(obj), m.string(), f'{msg}: string view')
    eq(dict(obj), m.d, f'{msg}: dictionary view')
    if order == 1:
        eq(list(obj) == list(m.d) or set(obj) == set(m.d), True, 'names')
        eq(dict(obj.items()), m.d, f'{msg}: items')
        eq(sorted(map(str, obj.values())), sorted(map(str, m.d.values())), f'{msg}: values')
        eq(set(obj.keys()), set(m.d), f'{msg}: keys')
    eq(len(obj), len(m.d), f'{msg}: length')
    eq(bool(obj), bool(m.d), f'{msg}: truth value')
    k = g.choice(NAMES)
    eq(obj[k], m.d.get(k, ''), f'{msg}: [{k}]')
    eq(k in obj, k in m.d, f'{msg}: {k} in ...')
    eq(str(obj), m.string(), f'{msg}: string view after reading')
    if m.fmt is DUAL:
        eq(obj == m.string(), True, f'{msg}: comparison with its string')
        eq(obj == m.string() + '|q=q', False, f'{msg}: comparison with another string')
        eq(obj != m.string(), False, f'{msg}: != with its string')
    eq(obj == dict(m.d), True, f'{msg}: comparison with its mapping')
    if m.d:
        eq(obj == {}, False, f'{msg}: comparison with an empty mapping')


class Slot:
    """One dictionary under test; assign(value) replaces it through an attribute or set_mapping."""

    def __init__(self, name, get, assign, fmt):
        self.name, self.get, self.assign, self.m = name, get, assign, Model(fmt)


def slots(g, kind):
    from udapi.core.dualdict import DualDict
    from udapi.core.feats import Feats
    from udapi.core.coref import OtherDualDict
    out = []
    if kind == 'free':
        for cls, fmt in ((DualDict, DUAL), (Feats, DUAL), (OtherDualDict, OTHER)):
            o = cls()
            out.append(Slot(cls.__name__, lambda o=o: o, o.set_mapping, fmt))
        if g.bool(0.3):
            kw = {k: v for k, v in gen_map(g).items() if k.isidentifier()}
            o = DualDict(**kw)
            s = Slot(f'DualDict(**{kw})', lambda o=o: o, o.set_mapping, DUAL)
            s.m.d = dict(kw)
            out.append(s)
    else:
        root, nodes = build([0, 1, 1])
        e = nodes[1].create_empty_child('dep')
        t = root.create_multiword_token(nodes[2:4], form='M')

        def attr(o, a, label):
            return Slot(f'{label}.{a}', lambda: getattr(o, a), lambda v: setattr(o, a, v), DUAL)
        out = [attr(nodes[1], 'feats', 'word'), attr(nodes[1], 'misc', 'word'), attr(nodes[2], 'misc', 'word2'), attr(nodes[2], 'feats', 'word2'),
               attr(e, 'feats', 'empty'), attr(e, 'misc', 'empty'), attr(t, 'misc', 'token'), attr(t, 'feats', 'token')]
        if g.bool(0.4):     # not always, as loading the coreference accesses MISC of all nodes
            ent = root.document.create_coref_entity('e1', 'person')
            men = ent.create_mention(head=nodes[1], words=[nodes[1]])
            out.append(Slot('mention.other', lambda: men.other, lambda v: setattr(men, 'other', v), OTHER))
        out = g.perm(out)[:3]
    return out


def f_history(g, kind=None):
    sl = slots(g, g.choice(['free', 'node']))
    log, writes = [], 0
    for _ in range(g.int(1, 12)):
        s = g.choice(sl)
        m, fmt = s.m, s.m.fmt
        op = g.weighted([(4, 'set'), (2, 'del'), (2, 'setnone'), (2, 'str'), (2, 'map'), (1, 'none'), (1, 'emptystr'), (1, 'other'), (1, 'update'),
                         (1, 'pop'), (1, 'clear'), (2, 'read'), (1, 'copy'), (1, 'bad'), (1, 'same')])
        # an assignment may come before any reading (attributes are created lazily)
        obj = s.get() if op not in ('str', 'map', 'none', 'emptystr', 'other', 'bad') or g.bool(0.3) else None
        if op == 'set':
            k = g.choice(NAMES)
            v = True if g.bool(0.1) else g.choice(VALUES)
            obj[k] = v
            m.d[k] = v
            m.s = None
            log.append(f'{s.name}[{k}]={v!r}')
        elif op == 'same' and m.d:
            k = g.choice(list(m.d))
            obj[k] = m.d[k]
            m.s = None
            log.append(f'{s.name}[{k}]=same')
        elif op in ('del', 'setnone'):
            k = g.choice(NAMES)
            if op == 'del':
                del obj[k]
            else:
                obj[k] = g.choice(['', None])
            if k in m.d:
                del m.d[k]
                m.s = None
            log.append(f'{op} {s.name}[{k}]')
        elif op == 'str':
            d = gen_map(g)
            t = verbatim(fmt, d)
            s.assign(t)
            m.d, m.s = d, t
            log.append(f'{s.name}={t!r}')
        elif op == 'map':
            d = gen_map(g)
            s.assign(d)
            m.d, m.s = dict(d), None
            log.append(f'{s.name}={d!r}')
            if d and g.bool():      # the caller's mapping is not shared
                d.clear()
        elif op == 'none':
            s.assign(None)
            m.d, m.s = {}, None
            log.append(f'{s.name}=None')
        elif op == 'emptystr':
            s.assign(g.choice(['', fmt.empty]))
            m.d, m.s = {}, None
            log.append(f'{s.name}=empty')
        elif op == 'other':
            o = g.choice(sl)
            if o.m.fmt is not fmt or o is s:
                continue
            s.assign(o.get())
            m.d, m.s = dict(o.m.d), None
            log.append(f'{s.name}={o.name}')
            t = str(s.get())     # the order of a copied verbatim string is not specified
            check(sorted(t.split(fmt.sep)) == sorted(m.string().split(fmt.sep)), f'{log}: {t!r}, expected {m.string()!r}')
            if t == o.m.string():
                m.s = t
        elif op == 'update':
            d = gen_map(g)
            obj.update(d)
            if d:
                m.s = None
            m.d.update(d)
            log.append(f'{s.name}.update({d})')
        elif op == 'pop' and m.d:
            k = g.choice(list(m.d))
            eq(obj.pop(k), m.d[k], f'{log}: pop({k})')
            del m.d[k]
            m.s = None
            log.append(f'{s.name}.pop({k})')
        elif op == 'clear':
            obj.clear()
            m.d, m.s = {}, None
            log.append(f'{s.name}.clear()')
        elif op == 'copy':
            c = obj.copy()
            mc = Model(fmt)
            mc.d, mc.s = dict(m.d), m.s
            same(c, mc, g, f'{log}: copy')
            c['Copy'] = 'only'
            mc.d['Copy'], mc.s = 'only', None
            same(c, mc, g, f'{log}: edited copy')
            eq(type(c), type(obj), 'type of the copy')
            log.append(f'{s.name}.copy()')
        elif op == 'bad':
            bad = g.choice([5, ['a'], ('Case', 'Nom'), 1.5])
            try:
                s.assign(bad)
            except ValueError:
                pass
            else:
                raise Violation(f'{log}: {s.name} = {bad!r} was not rejected')
            log.append(f'{s.name}={bad!r}')
        elif op == 'read':
            eq(str(obj), m.string(), f'{log}: {s.name} string')
            continue
        else:
            continue
        if op in ('set', 'del', 'setnone', 'str', 'map', 'other', 'update', 'pop'):
            writes += 1
        g.tag(op, op + str(m.s is None))
        g.note('; '.join(log), writes >= 2)
        for x in sl:
            if x is s or g.bool(0.3):
                same(x.get(), x.m, g, f'{x.name} after {log}')
    for x in sl:
        eq(str(x.get()), x.m.string(), f'{x.name} after {log}: string view')
        same(x.get(), x.m, g, f'{x.name} after {log}')


def f_saved(g):
    """Through a file: verbatim when untouched, exactly one entry changed when edited."""
    s = gen_sentence(g, 4, deps=0)
    doc = load(ser_sentence(s))
    root = doc.bundles[0].trees[0]
    nodes = list(root.descendants_and_empty)
    rows = [r for sent in parse_conllu(ser_sentence(s)) for r in sent['rows'] if '-' not in r[0]]
    log = []
    for _ in range(g.int(1, 4)):
        i = g.draw(len(nodes))
        col, a = g.choice([(5, 'feats'), (9, 'misc')])
        k = g.choice(FEAT_NAMES[:4] + MISC_NAMES[1:4])
        obj = getattr(nodes[i], a)
        d = {}
        if rows[i][col] != '_':
            for x in rows[i][col].split('|'):
                p = x.split('=', 1)
                d[p[0]] = p[1] if len(p) == 2 else True
        eq(dict(obj), d, f'{a} of {rows[i][0]}')
        if g.bool(0.4):
            eq(obj[k], d.get(k, ''), 'read')
            continue
        v = g.choice(['New', '', 'a=b'])
        obj[k] = v
        if v:
            d[k] = v
            rows[i][col] = DUAL.render(d)
        elif k in d:
            del d[k]
            rows[i][col] = DUAL.render(d)
        log.append(f'{rows[i][0]}.{a}[{k}]={v}')
    g.note(ser_sentence(s) + str(log), log)
    got = [r for sent in parse_conllu(conllu(doc)) for r in sent['rows'] if '-' not in r[0]]
    eq([(r[0], r[5], r[9]) for r in got], [(r[0], r[5], r[9]) for r in rows], f'{log}: saved FEATS and MISC')


def f_deprel(g):
    """udeprel and sdeprel are independent parts of deprel."""
    root, nodes = build([0])
    n = nodes[1]
    u, sd = None, None
    log = []
    for _ in range(g.int(1, 8)):
        op = g.choice(['whole', 'u', 's', 's0'])
        if op == 'whole':
            u = g.choice(['nsubj', 'acl', 'x'])
            sd = g.choice(['', 'relcl', 'a:b'])
            n.deprel = u + (':' + sd if sd else '')
        elif op == 'u':
            u = g.choice(['obl', 'nmod'])
            n.udeprel = u
            sd = sd or ''
            if not log:
                sd = ''
        elif u is None:
            continue
        elif op == 's':
            sd = g.choice(['pass', 'tmod', 'x:y'])
            n.sdeprel = sd
        else:
            sd = ''
            n.sdeprel = g.choice(['', None])
        if not log and op == 'u':
            u, sd = u, 'x' if False else ''
            n.deprel = u
        log.append((op, u, sd))
        g.note(str(log), len(log) > 1)
        eq(n.deprel, u + (':' + sd if sd else ''), f'{log}: deprel')
        eq((n.udeprel, n.sdeprel), (u, sd), f'{log}: parts')
    n.deprel = None
    eq((n.udeprel, n.sdeprel), (None, None), 'parts of a missing deprel')


def f_shortcuts(g):
    root, nodes = build([0])
    n = nodes[1]
    log = []
    for _ in range(g.int(1, 5)):
        k = g.draw(4)
        if k == 0:
            v = g.choice(['No', 'Yes', '', 'no'])
            n.misc['SpaceAfter'] = v
        elif k == 1:
            v = g.choice(['gl', '', 'x'])
            n.gloss = v
            eq(n.misc['Gloss'], v, 'gloss')
        elif k == 2:
            v = g.choice(['Sing', 'Plur', 'Sing,Plur', 'Dual', ''])
            n.feats['Number'] = v
        else:
            v = g.choice(['Gloss=a', 'SpaceAfter=No', '_'])
            n.misc = v
        log.append((k, v))
    g.note(str(log))
    num = dict(n.feats).get('Number', '')
    eq((n.feats.is_singular(), n.feats.is_plural()), ('Sing' in num, 'Plur' in num), f'{log}: number')
    eq((n.no_space_after, n.gloss), ('SpaceAfter=No' in str(n.misc).split('|'), dict(n.misc).get('Gloss', '')), f'{log}: shortcuts')


FACETS = {
    'history': facet(f_history, 30000),
    'saved': facet(f_saved, 8000),
    'deprel': facet(f_deprel, 3000, 6000),
    'shortcuts': facet(f_shortcuts, 2000, 4000),
}

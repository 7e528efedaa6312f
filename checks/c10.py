"""C10: multi-word tokens, their words and the surface text."""
from vf.engine import check, eq, Violation, assume
from vf.gens import *
from vf.util import facet

RULE = ('random sentences (1-8 words, loaded with or without multi-word tokens) and histories of 1-12 operations (create over free or covered words, remove, '
        'word insertion, removal, moves that keep tokens contiguous or only permute words inside one, forms, spacing); non-trivial = at least one token and 2 operations; distinct by sentence + log')
ASSUMPTIONS = ['moves that tear a token apart (documented TODO in mwt.py) are compared for membership only']


class Model:
    def __init__(self, root):
        self.root = root
        self.order = list(root.descendants)
        self.toks = [dict(obj=m, words=list(m.words), form=m.form, nospace=m.no_space_after, misc=str(m.misc)) for m in root.multiword_tokens]
        self.info = {id(w): dict(form=w.form, nospace=w.no_space_after) for w in self.order}
        self.log = []

    def tok_of(self, w):
        for t in self.toks:
            if any(x is w for x in t['words']):
                return t

    def surface(self, words, use_mwt=True):
        """[(object, form, no space)] for a selection of words in order."""
        out, seen = [], []
        for w in self.order:
            if not any(x is w for x in words):
                continue
            t = self.tok_of(w) if use_mwt else None
            if t is None:
                out.append((w, self.info[id(w)]['form'], self.info[id(w)]['nospace']))
            elif not any(t is x for x in seen):
                seen.append(t)
                out.append((t['obj'], t['form'], t['nospace']))
        return out

    def text(self, words, use_mwt=True):
        return ''.join(f + ('' if ns else ' ') for _, f, ns in self.surface(words, use_mwt)).rstrip()

    def contiguous(self):
        pos = {id(w): i for i, w in enumerate(self.order)}
        for t in self.toks:
            ps = sorted(pos[id(w)] for w in t['words'])
            if ps != list(range(ps[0], ps[0] + len(ps))):
                return False
        return True

    def compare(self, g, msg):
        root = self.root
        got = list(root.multiword_tokens)
        check(len(got) == len(self.toks) and {id(m) for m in got} == {id(t['obj']) for t in self.toks},
              lambda: f'{msg}: tokens {[(m.form, [w.form for w in m.words]) for m in got]}, expected {[(t["form"], [w.form for w in t["words"]]) for t in self.toks]}')
        for w in self.order:
            t = self.tok_of(w)
            check(w.multiword_token is (t['obj'] if t else None), lambda: f'{msg}: token of {w.form} is {w.multiword_token and w.multiword_token.form}')
            eq(w.no_space_after, self.info[id(w)]['nospace'], f'{msg}: spacing of {w.form}')
            check(not w.is_mwt() and w.words == [w], 'is_mwt')
        for t in self.toks:
            m = t['obj']
            check({id(w) for w in m.words} == {id(w) for w in t['words']} and len(m.words) == len(t['words']),
                  lambda: f'{msg}: words of {m.form} are {[w.form for w in m.words]}, expected {[w.form for w in t["words"]]}')
            eq((m.form, m.no_space_after), (t['form'], t['nospace']), f'{msg}: token')
            eq(str(m.misc), t['misc'], f'{msg}: token misc')
            check(m.root is root and m.is_mwt(), f'{msg}: token root')
        if not self.contiguous():
            return check_wf(root, msg)
        # text queries before anything that may sort the words of a token
        want = self.surface(self.order)
        got = list(root.token_descendants)
        check(len(got) == len(want) and all(a is b[0] for a, b in zip(got, want)),
              lambda: f'{msg}: tokens {[x.form for x in got]}, expected {[x[1] for x in want]}')
        eq(root.compute_text(), self.text(self.order), f'{msg}: text')
        eq(root.compute_text(use_mwt=False), self.text(self.order, False), f'{msg}: text without tokens')
        w = g.choice([root] + self.order)
        if w is not root:
            sub = [w] + list(w.descendants)
            eq(w.compute_text(), self.text(sub), f'{msg}: text of the subtree of {w.form}')
            eq(w.compute_text(use_mwt=False), self.text(sub, False), f'{msg}: text of the subtree of {w.form} without tokens')
        if self.contiguous() and g.bool(0.5):
            for t in self.toks:
                o = sorted(w.ord for w in t['words'])
                eq(t['obj'].ord_range, f'{o[0]}-{o[-1]}', f'{msg}: range')
                eq(t['obj'].address(), f'{root.address()}#{o[0]}-{o[-1]}', f'{msg}: address')
        check_wf(root, msg)

    def saved(self, msg):
        if not self.order or not self.contiguous():
            return
        sents = parse_conllu(conllu(self.root.document))
        validate_conllu(sents)
        rows = [(r[0], r[1], r[9]) for r in sents[0]['rows'] if '-' in r[0]]
        pos = {id(w): i for i, w in enumerate(self.order, 1)}
        want = sorted(((min(pos[id(w)] for w in t['words']), max(pos[id(w)] for w in t['words']), t['form'], t['misc']) for t in self.toks), key=lambda x: x[0])
        eq(rows, [(f'{a}-{b}', f if f is not None else '_', m) for a, b, f, m in want], f'{msg}: saved token lines')
        d2 = load(conllu(self.root.document))
        r2 = d2.bundles[0].trees[0]
        eq(sorted((m.words[0].ord, m.words[-1].ord, m.form) for m in r2.multiword_tokens), [(a, b, f) for a, b, f, m in want], f'{msg}: reloaded tokens')
        eq(r2.compute_text(), self.text(self.order), f'{msg}: reloaded text')
        eq([t.form for t in r2.token_descendants], [x[1] for x in self.surface(self.order)], f'{msg}: reloaded tokens')


def run_of(g, m, free=False):
    i = g.draw(len(m.order))
    j = min(len(m.order), i + g.weighted([(5, 2), (2, 3), (1, 1), (1, 4)]))
    return m.order[i:j]


def op_create(g, m, ws):
    form = g.weighted([(3, f'M{len(m.log)}'), (1, gen_form(g))])
    misc = g.choice([None, None, 'SpaceAfter=No', {'Gloss': 'x'}, '_', 'Zeta=b|Alpha=a'])
    given = list(ws) if g.bool(0.85) else g.perm(ws)
    t = m.root.create_multiword_token(given, form=form, misc=misc)
    for old in list(m.toks):
        if any(any(x is w for w in ws) for x in old['words']):
            m.toks = [x for x in m.toks if x is not old]
    ns = (isinstance(misc, str) and 'SpaceAfter' in misc) or m.info[id(ws[-1])]['nospace']
    d = {}
    if isinstance(misc, dict):
        d = dict(misc)
    elif misc and misc != '_':
        d = dict(x.split('=') for x in misc.split('|'))
    if m.info[id(ws[-1])]['nospace']:
        d['SpaceAfter'] = 'No'
        s = '|'.join(f'{k}={v}' for k, v in sorted(d.items()))
    else:
        s = misc if isinstance(misc, str) else '|'.join(f'{k}={v}' for k, v in d.items()) or '_'
    if isinstance(misc, str) and misc == 'SpaceAfter=No':
        s = misc
    if isinstance(misc, str) and misc.startswith('Zeta') and m.info[id(ws[-1])]['nospace']:
        s = 'Alpha=a|SpaceAfter=No|Zeta=b'
    for w in ws:
        m.info[id(w)]['nospace'] = False
    m.toks.append(dict(obj=t, words=list(ws), form=form, nospace=ns, misc=s))
    m.log.append(f'{form}=create({[w.form for w in given]}, misc={misc!r})')
    eq([w for w in t.words], sorted(ws), f'{m.log}: words of the new token')


def drop(m, gone):
    ids = {id(x) for x in gone}
    m.order = [x for x in m.order if id(x) not in ids]
    for t in m.toks:
        t['words'] = [w for w in t['words'] if id(w) not in ids]
    m.toks = [t for t in m.toks if t['words']]


def f_history(g):
    s = gen_sentence(g, 8, deps=0, empties=0, mwt=g.choice([0, 0.3, 0.5]))
    if g.bool(0.3):     # spacing marked on words inside a range too
        pass
    doc = load(ser_sentence(s))
    root = doc.bundles[0].trees[0]
    m = Model(root)
    desc = ser_sentence(s)
    for _ in range(g.int(1, 12)):
        if not m.order:
            break
        op = g.weighted([(6, 'create'), (3, 'remove'), (3, 'rmword'), (2, 'new'), (2, 'space'), (2, 'inner'), (3, 'move'), (1, 'form'), (1, 'tokspace'), (1, 'parent'), (1, 'tear')])
        if op == 'create':
            op_create(g, m, run_of(g, m))
        elif op == 'remove' and m.toks:
            t = g.choice(m.toks)
            t['obj'].remove()
            m.toks = [x for x in m.toks if x is not t]
            m.log.append(f'{t["form"]}.remove()')
        elif op == 'rmword':
            w = g.choice(m.order)
            how = g.choice([None, 'rehang'])
            gone = [w] + list(w.descendants) if how is None else [w]
            w.remove(children=how)
            drop(m, gone)
            m.log.append(f'{w.form}.remove({how})')
        elif op == 'new':
            p = g.choice([root] + m.order)
            w = p.create_child(form=f'n{len(m.log)}', misc=g.choice([None, 'SpaceAfter=No']))
            m.order.append(w)
            m.info[id(w)] = dict(form=w.form, nospace=w.misc['SpaceAfter'] == 'No')
            m.log.append(f'{w.form}=create_child')
        elif op == 'space':
            w = g.choice(m.order)
            if m.tok_of(w):     # spacing of a token belongs on the token
                continue
            v = g.choice(['No', '', 'Yes'])
            w.misc['SpaceAfter'] = v
            m.info[id(w)]['nospace'] = v == 'No'
            m.log.append(f'{w.form}.SpaceAfter={v}')
        elif op == 'tokspace' and m.toks:
            t = g.choice(m.toks)
            t['obj'].misc = g.choice(['SpaceAfter=No', '_'])
            t['misc'] = str(t['obj'].misc)
            t['nospace'] = t['misc'] != '_'
            m.log.append(f'{t["form"]}.misc={t["misc"]}')
        elif op == 'form' and m.toks:
            t = g.choice(m.toks)
            t['form'] = t['obj'].form = gen_form(g)
            m.log.append('token form')
        elif op == 'parent':
            a, p = g.choice(m.order), g.choice([root] + m.order)
            if p is a or p.is_descendant_of(a):
                continue
            a.parent = p
            m.log.append(f'{a.form}.parent={p.form}')
        elif op == 'inner' and m.toks:
            t = g.choice(m.toks)
            if len(t['words']) < 2:
                continue
            a, b = g.perm(t['words'])[:2]
            kind = g.choice(['after', 'before'])
            getattr(a, f'shift_{kind}_node')(b, without_children=True)
            m.order = [x for x in m.order if x is not a]
            i = next(i for i, x in enumerate(m.order) if x is b)
            m.order.insert(i + (kind == 'after'), a)
            m.log.append(f'{a.form}.shift_{kind}({b.form}) in {t["form"]}')
        elif op in ('move', 'tear') and len(m.order) > 1:
            a, b = g.choice(m.order), g.choice(m.order)
            if a is b or (op == 'move' and (m.tok_of(a) or m.tok_of(b))):
                continue
            a.shift_after_node(b, without_children=True)
            m.order = [x for x in m.order if x is not a]
            m.order.insert(next(i for i, x in enumerate(m.order) if x is b) + 1, a)
            m.log.append(f'{a.form}.shift_after({b.form})')
        else:
            continue
        g.tag(op)
        g.note(f'{desc}{m.log}', len(m.log) >= 2 and m.toks)
        m.compare(g, f'after {m.log}')
        if g.bool(0.15):
            m.saved(f'after {m.log}')
    m.saved(f'after {m.log}')


def f_load(g):
    """Loaded tokens: exactly the ranges of the file, text as the file spells."""
    s = gen_sentence(g, 12, mwt=0.45)
    doc = load(ser_sentence(s))
    root = doc.bundles[0].trees[0]
    g.note(ser_sentence(s), s['mwts'])
    eq([(m.words[0].ord, m.words[-1].ord, len(m.words), m.form) for m in root.multiword_tokens],
       [(lo, hi, hi - lo + 1, form) for lo, hi, form, *_ in s['mwts']], 'tokens')
    inside = {i: k for k, (lo, hi, *_) in enumerate(s['mwts']) for i in range(lo, hi + 1)}
    for i, w in enumerate(root.descendants, 1):
        check(w.multiword_token is (root.multiword_tokens[inside[i]] if i in inside else None), f'token of word {i}')
    eq(root.compute_text(), spell(s['words'], s['mwts']), 'text')
    eq(root.compute_text(use_mwt=False), spell(s['words'], []), 'text without tokens')
    eq(root.get_sentence(), spell(s['words'], s['mwts']), 'get_sentence without a stored text')
    if g.bool(0.3):
        for k in ('detokenize', 'warn_detokenize', 'empty', 'warn_empty', 'fatal'):
            try:
                got = root.get_sentence(if_missing=k)
            except Exception:
                got = None
            eq(got, None if k == 'fatal' else '' if 'empty' in k else root.compute_text(), f'get_sentence(if_missing={k!r}) without a stored text')
        stored = g.choice(['stored', ''])
        root.text = stored
        for k in ('detokenize', 'empty', 'fatal', 'warn_empty'):
            eq(root.get_sentence(if_missing=k), stored, f'get_sentence({k!r}) with a stored text')
        eq(root.compute_text(), spell(s['words'], s['mwts']), 'compute_text with a stored text')


FACETS = {
    'history': facet(f_history, 12000),
    'load': facet(f_load, 8000),
}

"""C29: blocks that split and join words keep the spelling and the tree."""
import copy
import logging
from vf.engine import check, eq, Violation, assume
from vf.gens import *
from vf.util import facet
from udapi.block.ud.addmwt import AddMwt
from udapi.block.ud.removemwt import RemoveMwt
from udapi.block.ud.joinasmwt import JoinAsMwt
from udapi.block.ud.jointoken import JoinToken
from udapi.block.ud.splitunderscoretokens import SplitUnderscoreTokens
from udapi.block.ud.fixmwtspace import FixMwtSpace

RULE = ('documents of 1-3 sentences (0-9, sometimes up to 30 words in any tree, any number of adjacent occurrences and multi-word tokens) run through the block and compared, word by word and by object identity, '
        'with a model of the documented change; the text, the heads and all other annotation must stay; non-trivial = at least 2 words change; distinct by trees, forms and options')
ASSUMPTIONS = ['no enhanced dependencies', 'words inside a multi-word token have no SpaceAfter', 'analyses of AddMwt supply values for all words; split words have a form without format characters']


def quiet(block, doc):
    logging.disable(logging.CRITICAL)
    try:
        return run_block(block, doc)
    finally:
        logging.disable(logging.NOTSET)


def gen_doc(g, word, mwtform=None, p_mwt=0.2, nmax=9, wordmisc=None, tokfeats=0.15):
    """word(g) -> form; returns the document"""
    doc = new_doc()
    for _ in range(g.weighted([(5, 1), (2, 2), (1, 3)])):
        n = g.size(0, nmax) if g.bool(0.94) else g.int(10, 30)
        heads = gen_heads(g, n)
        root, nodes = build(heads, forms=[word(g) for _ in range(n)], doc=doc,
                            deprels=[g.choice(['dep', 'nsubj', 'det', 'conj', 'flat:name', 'root', 'case']) for _ in range(n)],
                            upos=[g.choice(['NOUN', 'PROPN', 'ADP', 'DET', 'NUM', 'VERB', 'AUX', 'CCONJ', 'PART', 'PRON', 'SCONJ']) for _ in range(n)])
        for w in nodes[1:]:
            if g.bool(0.3):
                w.feats = g.choice(['Case=Nom', 'Case=Gen|Number=Sing', 'Number=Plur', 'A=1|B=2|C=3'])
            if g.bool(0.2):
                w.xpos = g.choice(['X', 'NN', 'a-b'])
            m = g.weighted([(5, ''), (4, 'SpaceAfter=No'), (1, 'SpaceAfter=No|X=1'), (1, 'X=1'), (1, 'Gloss=a|Ref=2')])
            if wordmisc:
                m = '|'.join(x for x in (m, wordmisc(g)) if x)
            if m:
                w.misc = m
        i = 1
        while i < n:
            if g.bool(p_mwt):
                j = min(n, i + g.weighted([(5, 1), (2, 2), (1, 4)]))
                ws = nodes[i:j + 1]
                root.create_multiword_token(ws, form=mwtform(g, ws) if mwtform else ''.join(w.form for w in ws),
                                            misc=g.weighted([(3, None), (2, 'SpaceAfter=No'), (1, 'Y=2'), (1, 'SpaceAfter=No|Y=2')]),
                                            feats='Typo=Yes' if g.bool(tokfeats) else None)
                for w in ws:
                    if 'SpaceAfter' in w.misc:
                        del w.misc['SpaceAfter']
                i = j + 1
            else:
                i += 1
        if g.bool(0.3):
            root.text = root.compute_text()
        if g.bool(0.2):
            root.comment = ' c\n'
    return doc


def W(w):
    return dict(key=id(w), form=w.form, lemma=w.lemma, upos=w.upos, xpos=w.xpos, feats=dict(w.feats), deprel=w.deprel,
                misc=dict(w.misc), parent=id(w.parent) if not w.parent.is_root() else 0)


class M:
    """Words in order and multi-word tokens of a tree."""

    def __init__(self, root):
        self.nodes = list(root.descendants)     # keeps the identities alive
        self.words = [W(w) for w in self.nodes]
        self.mwts = [dict(form=m.form, misc=dict(m.misc), feats=dict(m.feats), words=[id(x) for x in m.words]) for m in root.multiword_tokens]

    def by(self, key):
        return next(w for w in self.words if w['key'] == key)

    def mwt(self, key):
        return next((m for m in self.mwts if key in m['words']), None)

    def index(self, key):
        return next(i for i, w in enumerate(self.words) if w['key'] == key)

    def desc(self, key):
        out, todo = set(), [key]
        while todo:
            k = todo.pop()
            for w in self.words:
                if w['parent'] == k and w['key'] not in out:
                    out.add(w['key'])
                    todo.append(w['key'])
        return out

    def same(self, root):
        """Compare with a tree."""
        check_wf(root)
        got = list(root.descendants)
        eq([w.form for w in got], [w['form'] for w in self.words], 'words')
        keys = {0: root}
        for w, e in zip(got, self.words):
            if isinstance(e['key'], int):
                check(id(w) == e['key'], f'word {w.ord} {w.form} is not the original object')
            keys[e['key']] = w
        for w, e in zip(got, self.words):
            real = W(w)
            for a in ('lemma', 'upos', 'xpos', 'feats', 'deprel', 'misc'):
                eq(real[a], e[a], f'{a} of word {w.ord} {w.form}')
            check(w.parent is keys[e['parent']], f'head of word {w.ord} {w.form}: {w.parent}, expected {keys[e["parent"]]}')
        mw = sorted(([x.ord for x in m.words], m.form, dict(m.misc), dict(m.feats)) for m in root.multiword_tokens)
        want = sorted((sorted(keys[k].ord for k in m['words']), m['form'], m['misc'], m['feats']) for m in self.mwts)
        eq(mw, want, 'multi-word tokens')
        for w, e in zip(got, self.words):
            m = w.multiword_token
            em = self.mwt(e['key'])
            check((m is None) == (em is None), f'multiword_token of word {w.ord}')
            if m is not None:
                check(m in root.multiword_tokens and any(x is w for x in m.words), f'multiword_token of word {w.ord} {w.form} does not contain it')
        for m in root.multiword_tokens:
            o = [x.ord for x in m.words]
            eq(o, list(range(o[0], o[-1] + 1)), 'words of a token')


def others(root):
    return (root.text, root.comment, root.sent_id, root.newdoc, root.zone)


def roots(doc):
    return [t for b in doc.bundles for t in b.trees]


def note(g, doc, extra, n):
    g.note(dict(trees=[[(w.form, w.parent.ord, str(w.misc)) for w in r.descendants] for r in roots(doc)],
                mwts=[[(m.ord_range, m.form, str(m.misc)) for m in r.multiword_tokens] for r in roots(doc)], **extra), n >= 2,
           key=(str(extra), conllu(doc)))


def no_empty(misc):
    return {k: v for k, v in misc.items() if v != ''}


# ---------------------------------------------------------------- AddMwt

def gen_analysis(g):
    k = g.weighted([(6, 2), (2, 3), (1, 4), (1, 12)])
    main = g.draw(k)
    a = dict(form=' '.join(g.choice(['de', 'o', 'às', 'les', 'by', 'x']) + str(i) * g.draw(2) for i in range(k)))
    if main or g.bool():
        a['main'] = main
    s = g.choice([None, 'siblings', 'subtree'])
    if s:
        a['shape'] = s
    star = g.draw(k)

    def vals(pool, p=0.5):
        return ' '.join(g.choice(pool) if i != star or g.bool(p) else '*' for i in range(k))
    if g.bool(0.8):
        a['lemma'] = vals(['l1', 'být', '*'])
    if g.bool(0.8):
        a['upos'] = vals(['ADP', 'DET', '*'])
    if g.bool(0.5):
        a['xpos'] = vals(['J,---', 'Vc', '*'])
    if g.bool(0.8):
        a['feats'] = vals(['_', '*', 'Case=Acc', 'Mood=Cnd|Number=Sing', 'Case=*|Person=1', 'Number=*', 'Case=*|Number=*'])
    if g.bool(0.8):
        a['deprel'] = vals(['aux', 'det', '*', 'case'])
    if g.bool(0.4):
        a['misc'] = vals(['_', 'Z=9', '*', 'Z=1|Q=2'])
    return a


class Adder(AddMwt):
    def __init__(self, analyses, **kwargs):
        super().__init__(**kwargs)
        self.analyses = analyses
        self.asked = []
        self.made = []

    def multiword_analysis(self, node):
        self.asked.append(id(node))
        return self.analyses.get(id(node))

    def postprocess_mwt(self, mwt):
        self.made.append(mwt)


def model_add(m, key, a):
    w = m.by(key)
    orig = copy.deepcopy(w)
    forms = a['form'].split()
    main = a.get('main', 0)
    i = m.index(key)
    parent = key if a.get('shape') == 'subtree' else w['parent']
    new = []
    for j, f in enumerate(forms):
        if j == main:
            w['form'], w['misc'] = f, {}
            new.append(w)
        else:
            new.append(dict(key=('new', key, j), form=f, lemma=None, upos=None, xpos=None, feats={}, deprel=None, misc={}, parent=parent))
    m.words[i:i + 1] = new
    if orig['form'].isupper():
        for x in new:
            x['form'] = x['form'].upper()
    elif orig['form'][0].isupper():
        new[0]['form'] = new[0]['form'].title()
    tok = dict(orig['misc'])
    for attr in ('lemma', 'upos', 'xpos', 'feats', 'deprel', 'misc'):
        if attr not in a:
            continue
        for x, v in zip(new, a[attr].split()):
            if v == '*':
                x[attr] = copy.deepcopy(orig[attr])
                if attr == 'misc':
                    tok = {s: orig['misc'][s] for s in ('SpaceAfter',) if s in orig['misc']}
                    x['misc'].pop('SpaceAfter', None)
            elif attr in ('feats', 'misc'):
                d = {} if v == '_' else dict(p.split('=') for p in v.split('|'))
                if attr == 'feats':
                    d = {k: orig['feats'].get(k, '') if y == '*' else y for k, y in d.items()}
                    d = {k: y for k, y in d.items() if y}
                x[attr] = d
            else:
                x[attr] = v
    if 'Entity' in tok:     # coreference is annotated on words
        new[0]['misc']['Entity'] = tok.pop('Entity')
    old = m.mwt(key)
    if old:
        k = old['words'].index(key)
        old['words'][k:k + 1] = [x['key'] for x in new]
        old['misc'] = {**tok, **old['misc']}
    else:
        m.mwts.append(dict(form=orig['form'], misc=tok, feats={}, words=[x['key'] for x in new]))


def f_add(g):
    cap = g.draw(4)
    doc = gen_doc(g, lambda g: g.choice([['dos', 'ab', 'x', 'kdyby'], ['Dos', 'aB', 'Ž'], ['DOS', 'X1', '1'], ['dos', 'Dos', 'DOS', '7', 'às', 'DeL', 'DOs', 'Č1a']][cap]),
                  wordmisc=lambda g: 'Entity=' + g.choice(['(e1)', '(e2-x-1', 'e2)']) if g.bool(0.15) else '')
    analyses = {}
    models = [M(r) for r in roots(doc)]
    for m in models:
        for w in m.words:
            if g.bool(0.4):
                analyses[w['key']] = gen_analysis(g)
    note(g, doc, dict(block='AddMwt', analyses=[[analyses.get(w['key']) for w in m.words] for m in models]), len(analyses))
    texts = [r.compute_text() for r in roots(doc)]
    oth = [others(r) for r in roots(doc)]
    block = Adder(analyses)
    for m in models:
        for k in [w['key'] for w in m.words]:
            if k in analyses:
                model_add(m, k, analyses[k])
    n = sum(1 for k in analyses)
    quiet(block, doc)
    for m, r, t, o in zip(models, roots(doc), texts, oth):
        eq(r.compute_text(), t, 'text')
        eq(others(r), o, 'sentence attributes')
        m.same(r)
    again = load(conllu(doc)) if any(m.words for m in models) else None     # the result can be written and read back
    if again:
        eq([[w.form for w in t.descendants] for t in roots(again) if t.descendants], [[w['form'] for w in m.words] for m in models if m.words], 'words read back')
    eq(len(block.made), n, 'number of calls of postprocess_mwt')
    for k in analyses:
        eq(block.asked.count(k), 1, 'times a word was analysed')


# ---------------------------------------------------------------- RemoveMwt

def f_remove(g):
    doc = gen_doc(g, lambda g: g.choice(['a', 'b', 'že', 'X']), p_mwt=g.choice([0.2, 0.6, 1.0]), mwtform=lambda g, ws: g.choice(['tok', 'a b', 'X', 'del']))
    models = [M(r) for r in roots(doc)]
    note(g, doc, dict(block='RemoveMwt'), sum(len(m.mwts) for m in models))
    texts = [r.compute_text() for r in roots(doc)]
    oth = [others(r) for r in roots(doc)]
    for m in models:
        for t in m.mwts:
            first = m.by(t['words'][0])
            feats = {}
            for k in t['words']:
                feats.update(m.by(k)['feats'])
            first.update(form=t['form'], misc=t['misc'], feats=feats)
        gone = {k for t in m.mwts for k in t['words'][1:]}
        for w in m.words:
            while w['parent'] in gone:
                w['parent'] = m.by(w['parent'])['parent']
        m.words = [w for w in m.words if w['key'] not in gone]
        m.mwts = []
    quiet(RemoveMwt(), doc)
    for m, r, t, o in zip(models, roots(doc), texts, oth):
        m.same(r)
        eq(r.compute_text(), t, 'text')
        eq(others(r), o, 'sentence attributes')


# ---------------------------------------------------------------- JoinAsMwt

def f_joinas(g):
    doc = gen_doc(g, lambda g: g.choice(['a', 'b', 'že', 'X', '1', '.', 'a1', '1a', '-', '日', 'e\u0301', '²', 'd\'']),
                  wordmisc=lambda g: 'OrigForm=' + g.choice(['o', 'Q']) if g.bool(0.15) else '')
    kw = g.choice([{}, {}, dict(revert_orig_form=False), dict(revert_orig_form=True), dict(revert_orig_form=0)])
    revert = kw.get('revert_orig_form', True)
    models = [M(r) for r in roots(doc)]
    texts = [r.compute_text() for r in roots(doc)]
    oth = [others(r) for r in roots(doc)]
    text = conllu(doc)
    n = 0
    for m in models:
        i = 0
        while i < len(m.words):
            j = i
            while (j + 1 < len(m.words) and not m.mwt(m.words[j]['key']) and not m.mwt(m.words[j + 1]['key']) and m.words[j]['misc'].get('SpaceAfter') == 'No'
                   and m.words[j]['form'][-1].isalpha() and m.words[j + 1]['form'][0].isalpha()):
                j += 1
            if j > i:
                ws = m.words[i:j + 1]
                tok = {'SpaceAfter': 'No'} if ws[-1]['misc'].get('SpaceAfter') == 'No' else {}
                m.mwts.append(dict(form=''.join(w['form'] for w in ws), misc=tok, feats={}, words=[w['key'] for w in ws]))
                n += 1
                for w in ws:
                    w['misc'].pop('SpaceAfter', None)
                    if revert and w['misc'].get('OrigForm'):
                        w['form'] = w['misc'].pop('OrigForm')
            i = j + 1
    note(g, doc, dict(block='JoinAsMwt', kw=kw), n + 1 if n else 0)
    quiet(JoinAsMwt(**kw), doc)
    for m, r, t, o in zip(models, roots(doc), texts, oth):
        m.same(r)
        eq(r.compute_text(), t, 'text')
        eq(others(r), o, 'sentence attributes')


# ---------------------------------------------------------------- JoinToken

def f_jointoken(g):
    name = g.choice(['JoinToken', 'JoinToken', 'Merge'])
    value = g.choice([None, None, 'Yes', 'prev'])
    doc = gen_doc(g, lambda g: g.choice(['a', 'b', 'že', 'X', '1', '.']), p_mwt=g.choice([0, 0.15]),
                  wordmisc=lambda g: g.choice([name, name, 'JoinToken']) + '=' + g.choice(['Yes', 'prev']) if g.bool(0.4) else '')
    kw = {}
    if name != 'JoinToken' or g.bool(0.2):
        kw['misc_name'] = name
    if value:
        kw['misc_value'] = value
    models = [M(r) for r in roots(doc)]
    texts = [r.compute_text() for r in roots(doc)]
    oth = [others(r) for r in roots(doc)]
    n = 0
    for m in models:
        for key in [w['key'] for w in m.words]:
            w = m.by(key)
            v = w['misc'].get(name)
            if not v or (value and v != value):
                continue
            n += 1
            i = m.index(key)
            p = m.words[i - 1] if i else None
            if p is None or m.mwt(key) or m.mwt(p['key']):
                w['misc']['Bug'] = 'JoiningTokenNotSupportedHere'
                continue
            if p['misc'].get('SpaceAfter') != 'No':
                w['misc']['Bug'] = 'JoiningTokensWithSpaceNotSupported'
                continue
            if p['key'] in m.desc(key):
                p['parent'], p['deprel'] = w['parent'], w['deprel']
            for c in m.words:
                if c['parent'] == key:
                    c['parent'] = p['key']
            p['form'] += w['form']
            p['misc'].pop('SpaceAfter', None)
            if w['misc'].get('SpaceAfter'):
                p['misc']['SpaceAfter'] = w['misc']['SpaceAfter']
            m.words.remove(w)
    note(g, doc, dict(block='JoinToken', kw=kw), n)
    quiet(JoinToken(**kw), doc)
    for m, r, t, o in zip(models, roots(doc), texts, oth):
        m.same(r)
        eq(r.compute_text(), t, 'text')
        eq(others(r), o, 'sentence attributes')


# ---------------------------------------------------------------- SplitUnderscoreTokens

def f_split(g):
    doc = gen_doc(g, lambda g: g.weighted([(3, g.choice(['a', 'že', '_', 'X'])), (6, '_'.join(g.choice(['a', 'Br', '1', 'č', '-']) for _ in range(g.weighted([(5, 2), (3, 3), (1, 11)])))), (1, g.choice(['_a', 'a_', '__', 'a__b']))]))
    for r in roots(doc):
        for w in r.descendants:
            w.lemma = g.weighted([(5, w.form), (2, None), (2, '_'.join('l%d' % i for i in range(w.form.count('_') + 1))), (1, 'x'), (1, 'x_y')])
    kw = g.choice([{}, {}, dict(deprel='compound'), dict(default_deprel='fixed:x'), dict(lemma='form'), dict(lemma='form', deprel='fixed'), dict(lemma='split', default_deprel='compound', deprel='flat:q')])
    models = [M(r) for r in roots(doc)]
    texts = [r.compute_text() for r in roots(doc)]
    oth = [others(r) for r in roots(doc)]
    n = 0
    wanted = []
    for m in models:
        for key in [w['key'] for w in m.words]:
            w = m.by(key)
            forms = w['form'].split('_')
            if w['form'] == '_' or len(forms) == 1 or not all(forms):
                continue
            if kw.get('lemma') == 'form':
                w['lemma'] = w['form']
            lemmas = w['lemma'].split('_') if w['lemma'] is not None else [None] * len(forms)
            if len(lemmas) != len(forms):
                continue
            n += 1
            rel = kw.get('deprel') or ('flat' if w['upos'] == 'PROPN' else 'fixed' if w['upos'] in ('ADP', 'AUX', 'CCONJ', 'DET', 'PART', 'PRON', 'SCONJ') else kw.get('default_deprel', 'flat'))
            new = [dict(key=('new', key, i), form=f, lemma=l, upos=w['upos'], xpos=w['xpos'], feats={}, deprel=rel, misc={}, parent=key)
                   for i, (f, l) in enumerate(zip(forms, lemmas)) if i]
            w['form'], w['lemma'] = forms[0], lemmas[0]
            if 'SpaceAfter' in w['misc']:
                new[-1]['misc']['SpaceAfter'] = w['misc'].pop('SpaceAfter')
            i = m.index(key)
            m.words[i + 1:i + 1] = new
            t = m.mwt(key)
            if t:
                k = t['words'].index(key)
                t['words'][k + 1:k + 1] = [x['key'] for x in new]
        out = ''
        done = set()
        for w in m.words:
            t = m.mwt(w['key'])
            if t is None:
                out += w['form'] + ('' if w['misc'].get('SpaceAfter') == 'No' else ' ')
            elif id(t) not in done:
                done.add(id(t))
                out += t['form'] + ('' if t['misc'].get('SpaceAfter') == 'No' else ' ')
        wanted.append(out.rstrip())
    note(g, doc, dict(block='SplitUnderscoreTokens', kw=kw, lemmas=[[w.lemma for w in r.descendants] for r in roots(doc)]), n)
    quiet(SplitUnderscoreTokens(**kw), doc)
    for m, r, t, o, t2 in zip(models, roots(doc), texts, oth, wanted):
        m.same(r)
        eq(r.compute_text(), t2, 'text')
        eq(r.compute_text().replace('_', ' '), t.replace('_', ' '), 'text up to underscores')
        eq(others(r), o, 'sentence attributes')


# ---------------------------------------------------------------- FixMwtSpace

def f_space(g):
    doc = gen_doc(g, lambda g: g.choice(['a', 'b', 'že', 'X', '1', 'c d', '.']), p_mwt=g.choice([0.3, 0.8]),
                  mwtform=lambda g, ws: g.weighted([(5, ' '.join(w.form for w in ws)), (1, ''.join(w.form for w in ws)), (1, '  '.join(w.form for w in ws)), (1, 'x y'), (1, ' '.join(w.form for w in ws[:-1]) + ' '),
                                                    (1, '\u00a0'.join(w.form for w in ws)), (1, ' '.join(w.form for w in ws).upper())]))
    models = [M(r) for r in roots(doc)]
    texts = [r.compute_text() for r in roots(doc)]
    oth = [others(r) for r in roots(doc)]
    n = 0
    for m in models:
        for t in list(m.mwts):
            if ' ' in t['form'] and t['form'] == ' '.join(m.by(k)['form'] for k in t['words']):
                n += 1
                m.mwts.remove(t)
                if 'SpaceAfter' in t['misc']:
                    m.by(t['words'][-1])['misc']['SpaceAfter'] = t['misc']['SpaceAfter']
    note(g, doc, dict(block='FixMwtSpace'), n)
    quiet(FixMwtSpace(), doc)
    for m, r, t, o in zip(models, roots(doc), texts, oth):
        m.same(r)
        eq(r.compute_text(), t, 'text')
        eq(others(r), o, 'sentence attributes')


# ---------------------------------------------------------------- language-specific splitting

LANGS = {}


def lang(code):
    if code not in LANGS:
        import importlib
        LANGS[code] = importlib.import_module(f'udapi.block.ud.{code}.addmwt')
    return LANGS[code]


def f_lang(g):
    code = g.choice(['cs', 'fr', 'de', 'es', 'pt', 'ca', 'la', 'el'])
    mod = lang(code)
    keys = sorted(mod.MWTS)
    fill = ['a', 'že', '.', 'X', 'etc.', '...', '1']
    if code == 'es':
        fill += ['comprarlo', 'darse', 'verlos', 'pese', 'dame']
    if code == 'pt':
        fill += ['chama-se', 'fazê-lo', 'vê-los', 'tem-o']

    def word(g):
        f = g.choice(keys) if g.bool(0.4) else g.choice(fill)
        return g.weighted([(4, f), (1, f.upper()), (1, f.title())])
    doc = gen_doc(g, word, mwtform=lambda g, ws: g.choice(['tok', 'zzz']), p_mwt=g.choice([0, 0, 0.15]))
    for r in roots(doc):
        for w in r.descendants:
            w.lemma = g.choice(['l', w.form])
            if g.bool(0.3):
                w.deprel = g.choice(['fixed', 'case', 'root', 'conj', 'fixed'])
            if code == 'cs' and g.bool(0.15):
                w.misc['AddMwt'] = g.choice(['a jsi', 'že i', w.form[:-1] + ' ť', 'x y z', 'x', 'na něj'])
                if w.misc['AddMwt'] == 'na něj':
                    w.form = g.choice(['naň', 'oňž', 'skrzeň', 'Přěden'])
    kw = dict(verbpron=True) if code in ('es', 'ca') and g.bool() else {}
    models = [M(r) for r in roots(doc)]
    texts = [r.compute_text() for r in roots(doc)]
    toks = [[t.form for t in r.token_descendants] for r in roots(doc)]
    oth = [others(r) for r in roots(doc)]
    desc = dict(block=code, kw=kw, upos=[[(w.upos, w.deprel) for w in r.descendants] for r in roots(doc)])
    sure = []        # static rules without further conditions
    for m in models:
        sure.append({w['key'] for w in m.words if w['form'].lower() in mod.MWTS and code in ('cs', 'de', 'es', 'ca', 'la', 'el') and not m.mwt(w['key'])})
    note(g, doc, desc, sum(map(len, sure)) + 1)
    quiet(mod.AddMwt(**kw), doc)
    for m, r, t, tk, o, s in zip(models, roots(doc), texts, toks, oth, sure):
        check_wf(r)
        eq(r.compute_text(), t, 'text')
        eq([x.form for x in r.token_descendants], tk, 'tokens')
        eq(others(r), o, 'sentence attributes')
        now = {id(w): w for w in r.descendants}
        eq([id(w) for w in r.descendants if id(w) in {x['key'] for x in m.words}], [x['key'] for x in m.words], 'the original words in their order')
        for x in m.words:
            w = now[x['key']]
            check((x['parent'] or id(r)) == id(w.parent), f'head of the original word {w.ord} {w.form}')
            if x['key'] in s:
                check(w.multiword_token is not None and w.multiword_token.form == x['form'], f'{x["form"]} was not split')
                forms = [y.form.lower() for y in w.multiword_token.words]
                eq(forms, mod.MWTS[x['form'].lower()]['form'].lower().split(), f'words of {x["form"]}')
            elif w.multiword_token is None:
                eq(W(w), x, f'unrelated word {w.ord}')
        for tok in r.multiword_tokens:
            o2 = [x.ord for x in tok.words]
            eq(o2, list(range(o2[0], o2[0] + len(o2))), f'words of the token {tok.form}')
            check(all(x.multiword_token is tok for x in tok.words), f'words of {tok.form}')


FACETS = {'lang': facet(f_lang, 8000), 'add': facet(f_add, 8000), 'remove': facet(f_remove, 14000), 'joinas': facet(f_joinas, 16000), 'jointoken': facet(f_jointoken, 16000),
          'split': facet(f_split, 16000), 'space': facet(f_space, 14000)}

"""C27: repairing spaces and words according to the text."""
import copy
import logging
import string
from vf.engine import check, eq, Violation, assume
from vf.gens import *
from vf.util import facet
from udapi.core.mwt import MWT
from udapi.block.ud.setspaceafterfromtext import SetSpaceAfterFromText
from udapi.block.ud.complywithtext import ComplyWithText
from udapi.block.ud.goeswithfromtext import GoeswithFromText
from udapi.block.ud.setspaceafter import SetSpaceAfter
from udapi.block.ud.en.setspaceafter import SetSpaceAfter as EnSetSpaceAfter
from udapi.block.ud.ro.setspaceafter import SetSpaceAfter as RoSetSpaceAfter

RULE = ('documents of 1-4 sentences (words, tokens, empty nodes in any tree) with a stored text which differs in spacing, in punctuation or in single words, '
        'run through the block and compared with a walk over the text / a model of the documented change; non-trivial = the text differs from the words; distinct by words and texts')
ASSUMPTIONS = ['the stored text does not start with whitespace; word forms do not start or end with whitespace',
               'ComplyWithText: an exact result is expected only if all characters of the sentence differ (the alignment is forced) and edited words are separated by unchanged ones']
PUNCT = [',', '.', '!', '?', ';', ':', '…', '-', '(', ')']


def quiet(block, doc):
    logging.disable(logging.CRITICAL)
    try:
        return run_block(block, doc)
    finally:
        logging.disable(logging.NOTSET)


def gen_tree(g, doc, forms, mwt=0.2, empties=0.2, misc=None, deprel=None):
    """forms of words -> root; token forms of multi-word tokens are new."""
    n = len(forms)
    heads = gen_heads(g, n)
    root, nodes = build(heads, forms=forms, doc=doc, deprels=[deprel() if deprel else 'dep' for _ in range(n)])
    i = 1
    while i < n:
        if g.bool(mwt):
            j = min(n, i + g.int(1, 2))
            root.create_multiword_token(nodes[i:j + 1], form=''.join(forms[i - 1:j]) if g.bool() else forms[i - 1][:1] + forms[j - 1])
            i = j + 1
        else:
            i += 1
    for t in root.token_descendants:
        m = misc() if misc else g.weighted([(4, ''), (3, 'SpaceAfter=No'), (1, 'SpaceAfter=No|X=1'), (1, 'X=1'), (1, 'SpaceAfter=Yes')])
        if m:
            t.misc = m
    if n and g.bool(empties):
        e = g.choice(nodes[1:]).create_empty_child('dep', form='E', misc=g.choice(['_', 'SpaceAfter=No', 'X=1|SpaceAfter=No']))
    return root


def tokens(root):
    return [(t.form, dict(t.misc)) for t in root.token_descendants]


def rest(root, misc=True):
    """Everything but SpaceAfter of tokens and words."""
    def strip(m):
        return sorted((k, v) for k, v in m.items() if k != 'SpaceAfter')
    s = snap(root)
    rows = [(id(w), w.form, w.lemma, w.upos, w.xpos, str(w.feats), w.deprel, id(w.parent), w.raw_deps, strip(w.misc)) for w in root.descendants]
    return rows, [e[:7] + e[8:] for e in s['empties']], [(m.form, strip(m.misc), [id(w) for w in m.words]) for m in root.multiword_tokens], s['comment'], s['zone']


def inner_misc(root):
    return [dict(w.misc) for w in root.descendants if w.multiword_token]


def walk(toks, text):
    """Set SpaceAfter of [(form, misc)] along the text; stops at the first mismatch."""
    out = [(f, dict(m)) for f, m in toks]
    for f, m in out:
        if not text.startswith(f):
            return out, False
        text = text[len(f):]
        m.pop('SpaceAfter', None)
        if text and not text[0].isspace():
            m['SpaceAfter'] = 'No'
        text = text.lstrip()
    return out, True


FORMS = ['a', 'ab', 'ba', 'b', '.', ',', 'žluť', '10 000', "''", 'a-b', '日本', 'A', '。', '()', 'e\u0301']


def gen_text(g, toks, wild):
    out = ''
    for f in toks:
        out += f + g.weighted([(4, ' '), (4, ''), (1, '  '), (1, '\u00a0'), (1, ' \u3000')] if wild else [(4, ' '), (4, ''), (1, '  ')])
    return out if wild and g.bool(0.2) else out.strip()


# ---------------------------------------------------------------- ud.SetSpaceAfterFromText
def f_fromtext(g):
    doc = new_doc()
    roots = []
    for _ in range(g.weighted([(4, 1), (3, 2), (2, 3), (1, 4)])):
        n = g.size(1, 7) if g.bool(0.92) else g.int(8, 20)
        root = gen_tree(g, doc, [g.choice(FORMS) for _ in range(n)])
        roots.append(root)
        mode = g.weighted([(2, 'same'), (7, 'spaces'), (2, 'differs')])
        toks = [t.form for t in root.token_descendants]
        if mode == 'same':
            root.text = root.compute_text()
        elif mode == 'spaces':
            root.text = gen_text(g, toks, True)
        else:
            k = g.int(0, len(toks) - 1)
            toks[k] = g.choice(['XX', toks[k] + 'x', ''])
            root.text = gen_text(g, toks, True).lstrip() or 'y'
        g.tag(mode)
    exp, texts, others, inner = [], [], [], []
    for r in roots:
        t = tokens(r)
        exp.append((t if r.text == r.compute_text() else walk(t, r.text)[0], r.text == r.compute_text() or walk(t, r.text)[1]))
        texts.append(r.text)
        others.append(rest(r))
        inner.append(inner_misc(r))
    g.note([([t.form for t in r.token_descendants], r.text) for r in roots], any(r.text != r.compute_text() for r in roots), key=('F', str([tokens(r) for r in roots]), str(texts)))
    quiet(SetSpaceAfterFromText(), doc)
    for r, (e, ok), text, o, i in zip(roots, exp, texts, others, inner):
        check_wf(r)
        eq(tokens(r), e, f'tokens and their MISC with text {text!r}')
        eq(r.text, text, 'stored text')
        eq(rest(r), o, 'everything except SpaceAfter')
        eq(inner_misc(r), i, 'MISC of words inside of multi-word tokens')
        check(not any('SpaceAfter' in n.misc for n in r.empty_nodes), 'an empty node keeps SpaceAfter')
        if ok and ''.join(text.split()) == ''.join(''.join(f for f, _ in e).split()):
            eq(' '.join(r.compute_text().split()), ' '.join(text.split()), 'text spelled by the words')


def f_notext(g):
    doc = new_doc()
    root = gen_tree(g, doc, [g.choice(FORMS) for _ in range(g.int(1, 3))])
    b = g.choice([SetSpaceAfterFromText, ComplyWithText])
    g.note(b.__name__, True, key=('N', b.__name__, str(tokens(root))))
    before = rest(root)[:1], inner_misc(root), tokens(root)
    try:
        quiet(b(), doc)
    except ValueError:
        pass
    else:
        raise Violation(f'{b.__name__} accepted a tree without text')
    eq((rest(root)[:1], inner_misc(root), tokens(root)), before, 'tree after the error')


# ---------------------------------------------------------------- ud.GoeswithFromText
def f_goeswith(g):
    doc = new_doc()
    roots = []
    for _ in range(g.weighted([(4, 1), (3, 2), (2, 3)])):
        n = g.size(1, 7) if g.bool(0.92) else g.int(8, 16)
        root = gen_tree(g, doc, [g.choice(FORMS + ['abcd', 'Abc', 'Nevertheless']) for _ in range(n)], mwt=0.1)
        roots.append(root)
        for w in root.descendants:
            w.upos, w.xpos, w.feats = g.choice(['NOUN', None]), g.choice(['X', None]), g.choice(['_', 'Case=Nom'])
        toks = [t.form for t in root.token_descendants]
        mode = g.weighted([(2, 'same'), (3, 'spaces'), (6, 'split'), (1, 'differs')])
        if mode == 'same':
            root.text = root.compute_text()
        elif mode == 'spaces':
            root.text = gen_text(g, toks, False)
        else:
            chars = [c for c in ''.join(toks) if c != ' ']
            if mode == 'differs':
                chars[g.int(0, len(chars) - 1)] = 'X'
            root.text = ''.join(c + g.weighted([(6, ''), (2, ' '), (1, '  ')]) for c in chars).strip()
        g.tag(mode)
    keep = g.bool()
    exp = []
    for r in roots:
        text = r.text
        nospace = text.replace(' ', '')
        toks = r.token_descendants
        if text == r.compute_text() or nospace != r.compute_text().replace(' ', ''):
            exp.append(None)
            continue
        pieces = ' '.join(text.split())
        new = []     # (token, [forms], SpaceAfter)
        solved = True
        for t in toks:
            k = len(t.form.replace(' ', ''))
            seg = ''
            while k:
                seg += pieces[0]
                k -= pieces[0] != ' '
                pieces = pieces[1:]
            sa = 'No' if pieces and pieces[0] != ' ' else None
            pieces = pieces.lstrip()
            if seg == t.form:
                new.append((t, [seg], sa))
            elif isinstance(t, MWT):
                new.append((t, None, None))
                solved = False
            else:
                new.append((t, seg.split(' '), sa))
        exp.append((new, solved, {id(w): attrs(w) + (id(w.parent),) for w in r.descendants}, {id(t): dict(t.misc) for t in toks}, {id(w): w.lemma for w in r.descendants}))
    before = [(rest(r), inner_misc(r), tokens(r)) for r in roots]
    texts = [r.text for r in roots]
    g.note([([t.form for t in r.token_descendants], r.text) for r in roots], any(e and any(f and len(f) > 1 for _, f, _ in e[0]) for e in exp),
           key=('G', keep, str([tokens(r) for r in roots]), str(texts)))
    quiet(GoeswithFromText(keep_lemma=keep) if keep or g.bool() else GoeswithFromText(), doc)
    for r, e, b, text in zip(roots, exp, before, texts):
        check_wf(r)
        eq(r.text, text, 'stored text')
        if e is None:
            eq((rest(r), inner_misc(r), tokens(r)), b, f'sentence which agrees or cannot be solved: {text!r}')
            continue
        new, solved, old, misc, lemmas = e
        if solved:
            eq(r.compute_text(), ' '.join(text.split()), 'text spelled by the words')
        got = list(r.token_descendants)
        pos = 0
        for t, forms, sa in new:
            eq(got[pos] is t, True, f'token {t.form} at position {pos}')
            if forms is None:
                eq(dict(t.misc), misc[id(t)], f'MISC of {t.form}')
                pos += 1
                continue
            m = {k: v for k, v in misc[id(t)].items() if k != 'SpaceAfter'}
            eq(t.form, forms[0], 'form')
            if len(forms) == 1:
                if sa:
                    m['SpaceAfter'] = 'No'
                eq(dict(t.misc), m, f'MISC of {forms}')
                if not isinstance(t, MWT):
                    a = old[id(t)]
                    eq(attrs(t)[2:6] + (id(t.parent),), a[2:6] + (a[7],), f'attributes of {forms}')
                    if a[0] == forms[0] or keep:
                        eq(t.lemma, a[1], f'lemma of {forms}')
                pos += 1
                continue
            a = old[id(t)]
            eq(dict(t.misc), m, f'MISC of the first part of {forms}')
            eq((t.lemma,) + attrs(t)[2:6] + (id(t.parent),), (a[1] if keep else forms[0].lower(),) + a[2:6] + (a[7],), f'attributes of the first part of {forms}')
            for j, f in enumerate(forms[1:], 1):
                w = got[pos + j]
                check(id(w) not in old, f'the part {f} is an old word')
                check(w.parent is t, f'the part {f} of {forms} does not depend on the first part')
                eq((w.form, w.lemma, w.upos, w.xpos, str(w.feats), w.deprel), (f, None if keep else f, t.upos, t.xpos, '_', 'goeswith'), f'part {f} of {forms}')
                eq(dict(w.misc), {'SpaceAfter': 'No'} if j == len(forms) - 1 and sa else {}, f'MISC of the part {f} of {forms}')
            pos += len(forms)
        eq(pos, len(got), 'number of tokens')
        for w in r.descendants:
            if id(w) in old and w.multiword_token:
                eq(attrs(w) + (id(w.parent),), old[id(w)], f'word {w.form} of a multi-word token')


# ---------------------------------------------------------------- ud.SetSpaceAfter
NOT_AFTER = '¡ ¿ ( [ { „ /'.split()
NOT_BEFORE = '. , ; : ! ? } ] ) / ?? ??? !! !!! ... …'.split()


def f_heuristic(g):
    doc = new_doc()
    roots = []
    pool = ['a', 'bb'] * 3 + ['"', '"', '"', '„', '“', '”', '.', ',', '(', ')', '¿', '/', '...', '*', '+']
    pool = pool if g.bool(0.7) else ['a', '"', '“', '„']
    cls = g.weighted([(3, SetSpaceAfter), (2, EnSetSpaceAfter), (2, RoSetSpaceAfter)])
    lang = cls.__module__.split('.')[-2]
    if lang != 'ud':
        own = {'en': ["n't", "'s", "'", "'", '-', '-', '-', '$', '$', '200'], 'ro': ['-', 'n-', 'într-', '-i', '-și', '-3,1', '-12', '--', '-2.a', '-5-lea']}[lang]
        pool = g.choice([own + ['a', 'bb', 'c'], own + ['a', 'bb', 'c'], pool + own])
    for _ in range(g.weighted([(3, 1), (4, 2), (2, 3), (1, 4)])):
        n = g.size(0, 8) if g.bool(0.92) else g.int(9, 20)
        root = gen_tree(g, doc, [g.choice(pool) for _ in range(n)], misc=lambda: g.weighted([(6, ''), (1, 'SpaceAfter=No'), (1, 'X=1')]),
                        deprel=lambda: 'goeswith' if g.bool(0.12) else 'dep')
        if lang == 'en':
            for w in root.descendants:
                w.xpos = g.choice(["''", '``', '_'] if w.form == "'" else ['_'])
                w.upos = 'NUM' if w.form == '200' or g.bool(0.1) else 'X'
        root.text = g.choice([None, root.compute_text(), root.compute_text(), 'x y'])
        roots.append(root)
    kw, na, nb = {}, list(NOT_AFTER), list(NOT_BEFORE)
    if g.bool(0.2):
        kw['extra_not_after'], na = '* -', na + ['*', '-']
    if g.bool(0.2):
        kw['extra_not_before'], nb = '+', nb + ['+']
    if g.bool(0.15):
        kw['not_after'], na = '( *', ['(', '*'] + (['*', '-'] if 'extra_not_after' in kw else [])
    if g.bool(0.15):
        kw['not_before'], nb = ') .', [')', '.'] + (['+'] if 'extra_not_before' in kw else [])
    if g.bool(0.2):
        kw['fix_text'] = 0
    exp, others, texts = [], [], []
    for r in roots:
        ws = r.descendants
        n = len(ws)
        q = [i for i, w in enumerate(ws) if w.form == '"']
        low = any(w.form == '„' for w in ws)
        glue = set()     # index i: no space between word i and i+1
        for i in range(n - 1):
            a, b = ws[i].form, ws[i + 1].form
            if a in na or b in nb or (a == '“' and not low) or (b == '“' and low):
                glue.add(i)
        if len(q) % 2 == 0:
            for k, i in enumerate(q):
                if k % 2 == 0 and i < n - 1:
                    glue.add(i)
                elif k % 2 and i:
                    glue.add(i - 1)
        else:
            if q[0] == 0 and n > 1:
                glue.add(0)
            if q[-1] == n - 1 and n > 1:
                glue.add(n - 2)
        for i in range(n - 1):
            a, b = ws[i], ws[i + 1]
            near = lambda x: x is ws[i].parent or x.parent is ws[i].parent
            if lang == 'ro':
                # contractions end or start with a hyphen; neither the dash nor negative numbers are contractions
                if len(a.form) > 1 and a.form.endswith('-') or len(b.form) > 1 and b.form[0] == '-' and b.form[1:].strip('0123456789,.'):
                    glue.add(i)
            elif lang == 'en':
                if b.form in ("n't", "'s") or (a.form, a.xpos) == ("'", '``') or (b.form, b.xpos) == ("'", "''"):
                    glue.add(i)
                elif a.form == '-' and i and near(b) and near(ws[i - 1]):
                    glue.update((i - 1, i))
                elif a.form == '$' and b.upos == 'NUM':
                    glue.add(i)
        e = {id(w): dict(w.misc) for w in list(ws) + list(r.token_descendants)}
        changed = False
        for i in sorted(glue):
            t = ws[i].multiword_token
            if ws[i + 1].deprel == 'goeswith' or t and t.words[-1] is not ws[i]:
                continue
            e[id(t or ws[i])]['SpaceAfter'] = 'No'
            changed = True
        exp.append((e, changed))
        others.append(rest(r))
        texts.append(r.text)
        g.tag(f'{lang} ' + ('changed' if changed else 'nothing to do'))
    g.note(dict(lang=lang, words=[[w.form for w in r.descendants] for r in roots], kw=kw), any(c for _, c in exp), key=('H', lang, str([(tokens(r), [(w.form, w.deprel) for w in r.descendants]) for r in roots]), str(kw)))
    quiet(cls(**kw), doc)
    for r, (e, changed), o, text in zip(roots, exp, others, texts):
        check_wf(r)
        for w in list(r.descendants) + list(r.token_descendants):
            eq(dict(w.misc), e[id(w)], f'MISC of {w.form} ({w.ord if not isinstance(w, MWT) else "token"}) in {[x.form for x in r.descendants]}')
        eq(rest(r), o, 'everything except SpaceAfter')
        if changed and kw.get('fix_text', 1):
            eq(r.text, r.compute_text(), 'text')
        elif not changed or not kw.get('fix_text', 1):
            eq(r.text, text, 'text')


# ---------------------------------------------------------------- ud.ComplyWithText
ALPHABET = string.ascii_letters + 'ěščřžýáíéůúňťďóäöüßñαβγδεζηθικλμνξοπρστυφχψωабвгд' + ''.join(map(chr, range(0x4e00, 0x4e80)))


def f_comply(g):
    """All characters differ and edits are separated by unchanged words: the result is determined."""
    kw = {}
    if g.bool(0.15):
        kw['allow_goeswith'] = 0
    if g.bool(0.15):
        kw['max_mwt_length'] = g.int(2, 5)
    if g.bool(0.15):
        kw['fix_text'] = 0
    if g.bool(0.15):
        kw['previous_form_label'] = g.choice(['', 'Prev'])
    if g.bool(0.15):
        kw['previous_text_label'] = g.choice(['', 'Old'])
    if g.bool(0.15):
        kw['added_label'] = 'New'
    if g.bool(0.15):
        kw['allow_hyphen_goeswith'] = 0
    if g.bool(0.15):
        kw['prefer_mwt'] = 0
    doc = new_doc()
    cases = []
    for _ in range(g.weighted([(5, 1), (3, 2), (1, 3)])):
        cases.append(comply_tree(g, doc, kw))
    g.note(dict(cases=[(c['show'], c['text']) for c in cases], kw=kw), any(c['edits'] for c in cases), key=('C', str(kw), str([(c['show'], c['text']) for c in cases])))
    quiet(ComplyWithText(**kw), doc)
    for c in cases:
        comply_judge(c, kw)


def comply_tree(g, doc, kw):
    k = g.int(0, len(ALPHABET) - 1)
    chars = list(ALPHABET[k:] + ALPHABET[:k])
    digits = g.perm(list('0123456789'))
    puncts = list(',.!?;:…()[]{}«»¿¡„“')

    def take(k):
        return ''.join(chars.pop() for _ in range(k))
    # layout: kept tokens and edits between them
    n = g.size(1, 6) if g.bool(0.93) else g.int(7, 12)
    items = []
    hyphen = False
    for i in range(n):
        if i == 0 and g.bool(0.6) or i:
            if g.bool(0.45) and not (items and items[-1][0] != 'keep'):
                kind = g.weighted([(3, 'typo'), (3, 'split'), (3, 'mwt'), (2, 'addp'), (2, 'delp'), (1, 'hyphen'), (1, 'number')])
                if kind == 'hyphen' and hyphen or kind == 'number' and sum(x == ('number',) for x in items) > 1:
                    kind = 'typo'
                hyphen = hyphen or kind == 'hyphen'
                items.append((kind,))
        items.append(('keep',))
    if g.bool(0.3):
        items.append((g.choice(['typo', 'split', 'mwt', 'addp', 'delp']),))
    forms = []        # words of the tree
    plan = []         # (kind, index of the first word, number of words, text form(s))
    for (kind,) in items:
        k = len(forms)
        if kind == 'keep':
            f = take(g.int(2, 3))
            if len(forms) < 3 and g.bool(0.15):
                plan.append((kind, k, 2, f))
                forms += [take(1), take(1)]      # a multi-word token with the form f
            else:
                plan.append((kind, k, 1, f))
                forms.append(f)
        elif kind == 'typo':
            f = take(g.int(2, 3))
            sw = f.swapcase()
            if g.bool(0.3) and len(sw) == len(f) and all(c in chars for c in sw):     # only the case differs
                new = sw
                for c in sw:
                    chars.remove(c)
            else:
                new = (f[0] if g.bool() else take(1)) + take(g.int(1, 2))
            plan.append((kind, k, 1, new))
            forms.append(f)
        elif kind == 'split':
            f = take(g.int(2, 4))
            cut = g.int(1, len(f) - 1)
            new = f[:cut] + ' ' + f[cut:]
            if len(f) - cut > 1 and g.bool():
                new = new[:-1] + ' ' + new[-1]
            plan.append((kind, k, 1, new))
            forms.append(f)
        elif kind == 'hyphen':
            parts = [take(2) for _ in range(g.weighted([(5, 2), (2, 3), (2, 4)]))]
            plan.append((kind, k, 1, ' '.join(parts)))
            forms.append('-'.join(parts))
        elif kind == 'number':
            a, b = ''.join(digits.pop() for _ in range(2)), ''.join(digits.pop() for _ in range(2))
            mark = g.choice(',.')
            if g.bool() and mark in puncts:      # with decimal places; spaces are allowed before them only
                puncts.remove(mark)
                if g.bool():
                    plan.append((kind, k, 1, a[0] + ' ' + a[1] + mark + b))
                else:
                    plan.append(('split', k, 1, a + mark + b[0] + ' ' + b[1]))
                forms.append(a + mark + b)
            else:
                plan.append((kind, k, 1, a + ' ' + b))
                forms.append(a + b)
        elif kind == 'mwt':
            m = g.int(2, 4) if g.bool(0.8) else 5
            fs = [take(g.int(1, 2)) for _ in range(m)]
            plan.append((kind, k, m, (fs[0][0] if len(fs[0]) > 1 and g.bool() else '') + take(2)))
            forms += fs
        elif kind == 'addp':
            plan.append((kind, k, 0, puncts.pop()))
        else:
            p = puncts.pop()
            plan.append((kind, k, 1, p))
            forms.append(p)
    if not forms:
        forms = ['xyz']
        plan = [('keep', 0, 1, 'xyz')]
    root, nodes = build(gen_heads(g, len(forms)), forms=forms, doc=doc)
    words = nodes[1:]
    for kind, k, m, f in plan:
        if kind == 'keep' and m == 2:
            root.create_multiword_token(words[k:k + 2], form=f)
    toks = root.token_descendants
    for t in toks:
        if g.bool(0.35):
            t.misc['SpaceAfter'] = 'No'
        if g.bool(0.2):
            t.misc['X'] = '1'
    if g.bool(0.15):
        g.choice(words).create_empty_child('dep', form='E')
    # the text
    text = ''
    edits = []

    def sep(tok):
        return '' if tok.misc['SpaceAfter'] == 'No' else ' '

    def tok_of(i):
        return words[i].multiword_token or words[i]
    exp = []    # expected tokens: ('old', token, form, extra) | ('new', form, parent token, deprel, upos) | ('mwt', form, words)
    unsolved = False
    for idx, (kind, k, m, f) in enumerate(plan):
        last = tok_of(k + m - 1) if m else None
        nxt = plan[idx + 1][0] if idx + 1 < len(plan) else None
        if kind == 'keep':
            text += f
            if nxt == 'keep' and g.bool(0.3):
                s = g.choice(['', ' '])
                if s != sep(last):
                    edits.append('space')
                text += s
            elif nxt != 'addp':
                text += sep(last)
            exp.append(('old', last, last.form, {}))
            continue
        if kind == 'delp':
            edits.append(kind)
            continue
        if kind == 'addp':
            edits.append(kind)
            text += (g.choice(['', ' ']) if idx else '') + f + (g.choice(['', ' ']) if nxt else '')
            prev = exp[-1][1] if exp else None
            exp.append(('punct', f, prev))
            continue
        edits.append(kind)
        text += f + sep(last)
        label = kw.get('previous_form_label', 'CorrectForm')
        extra = {'misc': {label: forms[k]} if label else {}, 'typo': label == 'CorrectForm'}
        if kind == 'typo':
            exp.append(('old', last, f, extra))
        elif kind == 'mwt':
            if m <= kw.get('max_mwt_length', 4):
                exp.append(('mwt', f, words[k:k + m]))
            else:
                unsolved = True
                exp += [('old', w, w.form, {}) for w in words[k:k + m]]
        elif kind == 'hyphen' and not kw.get('allow_hyphen_goeswith', 1):
            unsolved = True
            exp.append(('old', last, last.form, {}))
        elif kind == 'number':
            exp.append(('old', last, f, extra))
        elif not kw.get('allow_goeswith', 1):
            unsolved = True
            exp.append(('old', last, last.form, {}))
        else:
            extra['typo'] = True
            parts = f.split(' ')
            exp.append(('old', last, parts[0], extra))
            exp += [('goes', p, last) for p in parts[1:]]
    text = text.strip()
    norm = text
    if g.bool(0.1) and ' ' in text:
        text = text.replace(' ', g.choice(['  ', '\u00a0']), 1)
    root.text = text
    return dict(root=root, exp=exp, unsolved=unsolved, text=text, norm=norm, edits=edits, same=norm == root.compute_text(), show=[t.form + sep(t) for t in toks], comment=root.comment,
                misc={id(t): dict(t.misc) for t in toks}, attrs={id(w): attrs(w)[1:6] for w in words}, head={id(w): id(w.parent) for w in words}, words=words,
                dropped=[words[k] for kind, k, m, f in plan if kind == 'delp'], inner={id(w): dict(w.misc) for w in words})


def comply_judge(c, kw):
    r = c['root']
    desc = f"{c['show']} with text {c['text']!r}"
    check_wf(r)
    fix = kw.get('fix_text', 1)
    label = kw.get('previous_text_label', 'OrigText')
    toks = list(r.token_descendants)
    exp = c['exp']
    notes = []
    if c['text'] != c['norm'] and fix and label:
        notes.append(c['text'])
    # forms and their order
    eq([t.form for t in toks], [e[2] if e[0] == 'old' else e[1] for e in exp], f'tokens for {desc}')
    want = []
    for t, e in zip(toks, exp):
        if e[0] == 'old':
            check(t is e[1], f'{t.form} is not the original token in {desc}')
            m = dict(c['misc'][id(t)])
            m.update(e[3].get('misc', {}))
            eq(t.feats['Typo'], 'Yes' if e[3].get('typo') else '', f'Typo of {t.form} in {desc}')
        elif e[0] == 'punct':
            m = {kw.get('added_label', 'Added'): '1'}
            if e[2] is None:
                t2 = exp[1][1] if len(exp) > 1 and exp[1][0] == 'old' else None
                par = t2 and (t2.words[0] if isinstance(t2, MWT) else t2)
            else:
                par = e[2].words[-1] if isinstance(e[2], MWT) else e[2]
            if par is not None:
                check(t.parent is par, f'the added {t.form} depends on {t.parent.form} in {desc}')
            eq((t.deprel, t.upos), ('punct', 'PUNCT'), f'relation and tag of the added {t.form}')
            m = {k: v for k, v in m.items()}
        elif e[0] == 'goes':
            check(t.parent is e[2], f'the part {t.form} depends on {t.parent.form} in {desc}')
            eq((t.deprel, t.upos), ('goeswith', 'X'), f'relation and tag of the part {t.form}')
            m = {}
        else:
            check(isinstance(t, MWT) and [id(w) for w in t.words] == [id(w) for w in e[2]], f'no multi-word token {t.form} over {[w.form for w in e[2]]} in {desc}')
            m = {k: v for k, v in c['inner'][id(e[2][-1])].items() if k == 'SpaceAfter'}
        want.append((t.form, m))
    if c['same']:
        pass
    else:
        want = walk(want, c['norm'])[0]
    eq([(t.form, {k: str(v) for k, v in t.misc.items()}) for t in toks], want, f'tokens and their MISC for {desc}')
    # old words keep everything else
    alive = {id(w) for w in r.descendants}
    gone = {id(w) for w in c['dropped']}
    tokid = {id(e[1]) for e in exp if e[0] == 'old'}
    for w in c['words']:
        eq(id(w) in alive, id(w) not in gone, f'word {w.form} of {desc} is in the tree')
        if id(w) in gone:
            continue
        a, b = attrs(w)[1:6], c['attrs'][id(w)]
        eq((a[:3], a[4]), (b[:3], b[4]), f'attributes of {w.form} in {desc}')
        h = c['head'][id(w)]
        while h in gone:
            h = c['head'][h]
        eq(id(w.parent), h, f'head of {w.form} in {desc}')
        if id(w) not in tokid:
            eq(dict(w.misc), {k: v for k, v in c['inner'][id(w)].items() if k != 'SpaceAfter'}, f'MISC of the word {w.form} inside of a token in {desc}')
    if not c['unsolved']:
        eq(r.compute_text(), c['norm'], f'text spelled by the words of {desc}')
    elif fix and label:
        notes.append(c['norm'])
    if fix:
        eq(r.text, r.compute_text(), f'stored text of {desc}')
    else:
        eq(r.text, c['text'], f'stored text of {desc}')
    eq([x.strip() for x in r.comment.split('\n') if x.strip()], [f'{label} = {x}'.strip() for x in notes], f'comments of {desc}')


def f_comply_any(g):
    """Any text: the result is well formed and consistent, agreeing sentences are not touched, sentences are independent."""
    doc = new_doc()
    roots = []
    for _ in range(g.weighted([(4, 1), (3, 2), (2, 3)])):
        n = g.size(1, 6)
        root = gen_tree(g, doc, [g.choice(PUNCT) if g.bool(0.3) else g.choice(FORMS + ['abc', 'cab', 'a-b-c', '12', '3,5']) for _ in range(n)])
        t = root.compute_text()
        mode = g.weighted([(2, 'same'), (2, 'spaces'), (5, 'edit')])
        if mode == 'spaces':
            t = ''.join(c + g.weighted([(5, ''), (1, ' ')]) for c in t.replace(' ', '')).strip()
        elif mode == 'edit':
            ch = list(t)
            for _ in range(g.int(1, 4)):
                i = g.int(0, len(ch))
                k = g.draw(3)
                c = g.choice(list(' ,.-ab"1X'))
                if k == 0:
                    ch.insert(i, c)
                elif k == 1 and i < len(ch):
                    del ch[i]
                elif i < len(ch):
                    ch[i] = c
            t = ''.join(ch).strip()
        root.text = t or 'x'
        roots.append(root)
    kw = {}
    for k in ('fix_text', 'prefer_mwt', 'allow_goeswith', 'allow_add_punct', 'allow_delete_punct', 'allow_hyphen_goeswith'):
        if g.bool(0.15):
            kw[k] = 0
    if g.bool(0.1):
        kw['max_mwt_length'] = 2
    before = [(rest(r), inner_misc(r), tokens(r), r.text) for r in roots]
    texts = [r.text for r in roots]
    same = [r.text == r.compute_text() for r in roots]
    nwords = [[id(w) for w in r.descendants] for r in roots]
    singles = []
    for i in range(len(roots)):
        d = copy.deepcopy(doc)
        d.bundles = [d.bundles[i]]
        quiet(ComplyWithText(**kw), d)
        singles.append(d.bundles[0].trees[0])
    g.note(dict(cases=[([t.form for t in r.token_descendants], r.text) for r in roots], kw=kw), not all(same), key=('A', str(kw), str([(tokens(r), r.text) for r in roots])))
    quiet(ComplyWithText(**kw), doc)
    for r, b, s, c, text, ids in zip(roots, before, same, singles, texts, nwords):
        check_wf(r)
        norm = ' '.join(text.split())
        if s and norm == text:
            eq((rest(r), inner_misc(r), tokens(r), r.text), b, 'sentence which agrees with its text')
        if kw.get('fix_text', 1):
            eq(r.text, r.compute_text(), f'stored text (was {text!r})')
            if r.text != text:
                check(f' OrigText = {text}'.rstrip() in [x.rstrip() for x in r.comment.split('\n')] or norm != text, f'the old text {text!r} is not in a comment: {r.comment!r}')
        else:
            eq(r.text, text, 'stored text')
        order = [id(w) for w in r.descendants if id(w) in set(ids)]
        eq(order, [i for i in ids if i in set(order)], 'order of the original words')
        check(all(i in set(order) for i in ids) or kw.get('allow_delete_punct', 1), 'words were deleted')
        if not kw.get('allow_add_punct', 1) and not kw.get('allow_goeswith', 1):
            check(len(r.descendants) <= len(ids), 'words were added')
        eq([(n.form, dict(n.misc), n.deprel) for n in r.descendants], [(n.form, dict(n.misc), n.deprel) for n in c.descendants], 'result compared with processing the sentence alone')
        eq(r.text, c.text, 'text compared with processing the sentence alone')


FACETS = {
    'fromtext': facet(f_fromtext, 12500), 'notext': facet(f_notext, 500), 'goeswith': facet(f_goeswith, 10000), 'heuristic': facet(f_heuristic, 12500),
    'comply': facet(f_comply, 10000), 'comply_any': facet(f_comply_any, 10000),
}

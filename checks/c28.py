"""C28: tokenisers and segmenters keep every character."""
import re
from vf.engine import check, eq, Violation, assume
from vf.gens import *
from vf.util import facet
from udapi.block.tokenize.onwhitespace import OnWhitespace
from udapi.block.tokenize.simple import Simple as Tokenize
from udapi.block.segment.simple import Simple as Segment

RULE = ('documents of 1-3 raw sentences (Unicode letters, marks, digits, punctuation, all kinds of whitespace at all places) tokenised with each option and compared with a naive splitter, '
        'and raw texts segmented and compared with the documented rules; non-trivial = at least 2 words / 2 sentences; distinct by texts and options')
ASSUMPTIONS = ['the sentence has a text (possibly empty) and no words yet', 'segmentation of documents with several zones is judged only for the selected zone']
ATOMS = ['a', 'B', 'ž', 'É', 'e\u0301', '日', '本', 'ß', '1', '2', '_', '.', ',', '!', '"', '(', ')', '-', '…', '’', '€', '\u200b', '\ufeff', '𝒳', '🙂', '\u00ad', "'", '/', '\\', '|', '=', 'ا', 'ก็', '²', '½']
SPACES = [' ', ' ', ' ', '\t', '  ', '\u00a0', '\u3000', '\n', '\r\n', '\u2028', '\x0b', '\x1f', '\x85', ' \t ']


def gen_raw(g, n):
    out = ''
    if g.bool(0.2):
        out += g.choice(SPACES)
    for i in range(n):
        out += ''.join(g.choice(ATOMS) for _ in range(g.weighted([(4, 1), (3, 2), (2, 3), (1, 6)])))
        if i < n - 1 or g.bool(0.25):
            out += ''.join(g.choice(SPACES) for _ in range(g.weighted([(6, 1), (1, 2), (1, 3)]))) if g.bool(0.85) else ' '
    return out


def naive_tokens(text, simple):
    out, cur = [], ''
    for c in text:
        if c.isspace():
            if cur:
                out.append(cur)
            cur = ''
        elif not simple:
            cur += c
        elif c.isalnum() or c == '_':
            cur += c
        else:
            if cur:
                out.append(cur)
            out.append(c)
            cur = ''
    return out + ([cur] if cur else [])


def unescape(s):
    return s.replace('\\s', ' ').replace('\\t', '\t').replace('\\r', '\r').replace('\\n', '\n')


def respell(root):
    """Text with all whitespace from the words of a tree tokenised with keep_spaces."""
    out = ''
    for i, w in enumerate(root.descendants):
        if i == 0:
            out += unescape(w.misc['SpacesBefore'])
        else:
            check('SpacesBefore' not in w.misc, f'SpacesBefore on word {i + 1}')
        out += w.form
        check(not ('SpaceAfter' in w.misc and 'SpacesAfter' in w.misc), f'both SpaceAfter and SpacesAfter on {w.form}')
        out += unescape(w.misc['SpacesAfter']) or ('' if w.misc['SpaceAfter'] == 'No' else ' ')
    return out


def f_tokenize(g):
    doc = new_doc()
    roots = []
    for _ in range(g.weighted([(5, 1), (3, 2), (1, 3)])):
        n = g.size(0, 7) if g.bool(0.94) else g.int(8, 30)
        r = doc.create_bundle().create_tree(g.choice(['', '', 'en']))
        r.text = gen_raw(g, n)
        roots.append(r)
    cls = g.choice([OnWhitespace, Tokenize])
    kw = g.choice([{}, dict(keep_spaces=1), dict(keep_spaces=1), dict(zones='en'), dict(keep_spaces=0)])
    texts = [r.text for r in roots]
    want = [naive_tokens(t, cls is Tokenize) for t in texts]
    g.note(dict(texts=texts, block=cls.__module__, kw=kw), any(len(w) > 1 for w in want), key=('T', cls.__module__, str(kw), str(texts)))
    run_block(cls(**kw), doc)
    for r, t, w in zip(roots, texts, want):
        check_wf(r)
        eq(r.text, t, 'text of the sentence')
        if kw.get('zones') and r.zone != 'en':
            eq(len(r.descendants), 0, 'words in the other zone')
            continue
        ws = r.descendants
        eq([x.form for x in ws], w, f'words of {t!r}')
        eq([x.ord for x in ws], list(range(1, len(w) + 1)), 'numbers of words')
        check(all(x.parent is r for x in ws), 'words are not attached to the root')
        eq(len(r.children), len(w), 'children of the root')
        if kw.get('keep_spaces'):
            g.tag('keep_spaces')
            if ws:
                eq(respell(r), t, f'text spelled with SpacesAfter and SpacesBefore; MISC {[str(x.misc) for x in ws]}')
                for x in ws:
                    check(set(x.misc) <= {'SpaceAfter', 'SpacesAfter', 'SpacesBefore'}, f'MISC {x.misc}')
                    check(x.misc['SpacesAfter'] != '\\s', 'a single space is marked')
                    check(not re.search('[ \t\r\n]', x.misc['SpacesAfter'] + x.misc['SpacesBefore']), f'blanks not escaped in {str(x.misc)!r}')
        else:
            g.tag('normalised')
            eq(r.compute_text(), ' '.join(t.split()), f'text spelled by the words of {t!r}')
            for x in ws:
                check(dict(x.misc) in ({}, {'SpaceAfter': 'No'}), f'MISC {x.misc}')
            if ws:
                eq(ws[-1].misc['SpaceAfter'], '', 'SpaceAfter of the last word')
        if cls is OnWhitespace and not kw.get('keep_spaces'):
            check(all(not x.misc for x in ws), 'words separated by whitespace have SpaceAfter=No')
    # the words survive CoNLL-U
    if all(not re.search(r'[\n\r\t\x0b\x1f\x85\u2028\u00a0\u3000|=\\]', t) and t.split() for t in texts) and 'zones' not in kw:
        back = load(conllu(doc))
        eq([[(w.form, str(w.misc)) for w in b.trees[0].descendants] for b in back.bundles], [[(w.form, str(w.misc)) for w in r.descendants] for r in roots], 'words after saving and loading')


def f_again(g):
    """Tokenising a tokenised sentence is refused and does not change it."""
    root, nodes = build(gen_heads(g, g.int(1, 4)))
    root.text = g.choice(['w1 w2', root.compute_text(), 'x'])
    before = snap(root)
    cls = g.choice([OnWhitespace, Tokenize, Segment])
    g.note((cls.__module__, before['rows']), True, key=('A', cls.__module__, str(before)))
    try:
        run_block(cls(), root.document)
    except ValueError:
        pass
    else:
        raise Violation(f'{cls.__module__} accepted a sentence with words')
    eq(snap(root), before, 'sentence with words')


# ---------------------------------------------------------------- segmentation
CLOSING, OPENING = '"“»›)', '"„«¿¡‹('


def gen_token(g):
    """(token, core facts)"""
    op = g.choice([''] * 8 + list('"„«¿¡‹('))
    cl = g.choice([''] * 7 + list('"“»›)'))
    core = g.choice(['hello', 'World', 'A', 'B', 'Apples', 'např', 'e.g', '12', 'Éva', 'ß', 'x', 'USA', 'Al', '日本', 'např.e.g', 'Apple.Inc', 'eXg', 'pes'])
    end = g.weighted([(5, ''), (5, '.'), (1, '!'), (1, '?'), (1, ','), (1, ';'), (1, '...'), (1, '…')])
    return op, core, end, cl


def boundary(a, b):
    op, core, end, cl = a
    op2, core2, end2, cl2 = b
    if not (end and end[-1] in '.!?'):
        return False
    if not core2[0].isupper():
        return False
    if end == '.':
        if len(core) == 1 and core.isupper():     # initial of a name
            return False
        if core.endswith('např') or core.endswith('e.g'):
            return False
    return True


def f_segment(g):
    doc = new_doc()
    cases = []
    nb = g.weighted([(5, 1), (3, 2), (1, 3), (1, 11)])
    for k in range(nb):
        n = g.int(1, 3) if nb >= 11 else g.size(1, 8) if g.bool(0.96) else g.int(20, 40)
        toks = [gen_token(g) for _ in range(n)]
        text = ''.join(''.join(t) + ' ' for t in toks)[:-1]
        segs = [''.join(toks[0])]
        for a, b in zip(toks, toks[1:]):
            if boundary(a, b):
                segs.append('')
            else:
                segs[-1] += ' '
            segs[-1] += ''.join(b)
        b = doc.create_bundle()
        if g.bool(0.3):
            b.bundle_id = f's{k}'
        r = b.create_tree()
        r.text = text
        if g.bool(0.3):
            r.newdoc = True
        if g.bool(0.3):
            r.comment = ' a = b\n'
        cases.append((r, b, b.bundle_id, text, segs, r.newdoc, r.comment))
    judge_segments(g, doc, cases, exact=True)


def f_segment_any(g):
    """Any text: only the identity of the concatenation."""
    doc = new_doc()
    cases = []
    for k in range(g.weighted([(5, 1), (2, 2)])):
        n = g.size(0, 10)
        text = ''.join(g.choice(['A', 'b', '.', '!', '?', '"', '„', '(', ')', ' ', ' ', ' ', '\t', '. A', '  ', 'É', '1', '\u00a0', '“']) for _ in range(n * 2))
        b = doc.create_bundle()
        r = b.create_tree()
        r.text = text
        cases.append((r, b, b.bundle_id, text, None, None, r.comment))
    judge_segments(g, doc, cases, exact=False)


def judge_segments(g, doc, cases, exact):
    kw = g.choice([{}, {}, dict(keep_spaces=1), dict(zones='')]) if g.bool(0.9) else {}
    keep = kw.get('keep_spaces')
    if not g.bool(0.5):
        kw.pop('zones', None)
    other = None
    if exact and g.bool(0.2):    # another zone, not selected
        other = cases[-1][1].create_tree('cs')
        other.text = 'Ahoj. Nazdar. Čau.'
        kw['zones'] = '!cs'
        kw['zones'] = ''
    g.note(dict(texts=[c[3] for c in cases], kw=kw, segments=[c[4] for c in cases]), any(not c[4] or len(c[4]) > 1 for c in cases), key=('S', str(kw), str([c[3] for c in cases]), bool(other)))
    if other is not None:
        cls_kw = dict(keep_spaces=keep) if keep else {}
        block = Segment(zones='en', **cls_kw)
        for c in cases:
            c[0].zone = 'en'
    else:
        kw.pop('zones', None)
        block = Segment(**kw)
    run_block(block, doc)
    pos = 0
    numbers = [b.number for b in doc.bundles]
    eq(numbers, list(range(1, len(doc.bundles) + 1)), 'bundle numbers')
    ids = [b.bundle_id for b in doc.bundles]
    eq(len(set(ids)), len(ids), f'distinct bundle ids {ids}')
    zone = 'en' if other is not None else ''
    for i, (r, b, bid, text, segs, newdoc, comment) in enumerate(cases):
        nxt = doc.bundles.index(cases[i + 1][1]) if i + 1 < len(cases) else len(doc.bundles)
        part = doc.bundles[pos:nxt]
        check(part and part[0] is b, 'the first sentence stays in its bundle')
        got = [x.get_tree(zone).text for x in part]
        check(part[0].get_tree(zone) is r, 'the first sentence stays in its tree')
        if keep:
            eq(''.join(got), text, f'concatenated sentences {got}')
        else:
            eq(' '.join(got), text, f'sentences {got} joined by spaces')
        if segs is not None:
            eq([x[:-1] if keep and k < len(got) - 1 else x for k, x in enumerate(got)], segs, f'sentences of {text!r}')
        eq((r.newdoc, r.comment), (newdoc, comment), 'other attributes of the first sentence')
        for k, x in enumerate(part, 1):
            eq(x.bundle_id, f'{bid}-{k}', 'bundle id')
            eq(x.document is doc, True, 'document of the bundle')
            eq(len(x.get_tree(zone).descendants), 0, 'words')
            eq(x.get_tree(zone).sent_id, f'{bid}-{k}' + ('/en' if zone else ''), 'sent_id')
            if k > 1:
                eq([t.zone for t in x.trees], [zone], 'zones of a new sentence')
                check(not x.get_tree(zone).newdoc and not x.get_tree(zone).newpar, 'a new sentence starts a document or paragraph')
        pos = nxt
    if other is not None:
        eq((other.text, other.bundle is cases[-1][1]), ('Ahoj. Nazdar. Čau.', True), 'the other zone')
        g.tag('two zones')
    # a tokenised document keeps the text as well
    if not keep and all(c[3].split() for c in cases) and g.bool(0.3):
        run_block(Tokenize(zones='en') if other is not None else Tokenize(), doc)
        want = ' '.join(' '.join(c[3] for c in cases).split())
        eq(' '.join(' '.join(b.get_tree(zone).compute_text() for b in doc.bundles).split()), want, 'text after segmentation and tokenisation')


FACETS = {'tokenize': facet(f_tokenize, 40000), 'again': facet(f_again, 1500), 'segment': facet(f_segment, 30000), 'segment_any': facet(f_segment_any, 16000)}

"""C35: annotation of other coreference and verse formats arrives unchanged."""
import json
import os
import re
import shutil
import tempfile
from vf.engine import check, eq, Violation, assume
from vf.gens import *
from vf.corefgen import *
from vf.util import facet
from udapi.core.document import Document
from udapi.block.read.oldcorefud import OldCorefUD as OldReader
from udapi.block.write.oldcorefud import OldCorefUD as OldWriter
from udapi.block.read.conll2012 import Conll2012
from udapi.block.read.ccv import Ccv
from udapi.block.corefud.fixcorefud02 import FixCorefUD02
from udapi.block.corefud.fixtovalidate import FixToValidate

RULE = ('generated annotation (entities with nested, crossing and discontinuous mentions, bridging and split antecedents, see C14) is written in the old format by the block and by an independent serialiser and read back; '
        'generated CoNLL-2012 files (several documents, bracket columns with and without |) and Corpus of Czech Verse files are read and compared with the model they were written from; '
        'the two correction blocks are compared with an independent model; non-trivial = at least two mentions, poems or changes; distinct by file and options')
ASSUMPTIONS = ['ids without hyphens are different from what the ids with hyphens become',
               'CoNLL-2012: mentions of one entity are not crossing; the word-number columns are correct',
               'corefud.Gum2CorefUD is not judged: it was written for an older API (mention.misc) and cannot run']
L0 = 'eid-etype-head-other'
OLD = 'ClusterId MentionSpan ClusterType Bridging SplitAnte MentionMisc'.split()


def span_str(m, rows):
    return ','.join(rows[a] if a == b else f'{rows[a]}-{rows[b]}' for a, b in m.subspans())


def split_misc(text):
    """[(sent, position) -> dict of old-style attributes], and the text without them."""
    found, others = {}, []
    for si, s in enumerate(parse_conllu(text)):
        p = 0
        for r in s['rows']:
            items = [x for x in r[9].split('|') if x != '_']
            old = [x for x in items if re.fullmatch('(' + '|'.join(OLD) + r')(\[\d+\])?', x.split('=')[0])]
            others.append((si, r[:9], sorted(x for x in items if x not in old)))
            if '-' in r[0]:
                check(not old, f'annotation at a multi-word token {r}')
                continue
            if old:
                found[si, p] = dict(x.split('=', 1) for x in old)
            p += 1
    return found, others


def ids_of(text):
    return [[r[0] for r in s['rows'] if '-' not in r[0]] for s in parse_conllu(text)]


def f_oldwrite(g):
    sents, sizes, docs = gen_text(g, docs_p=0.1)
    ents = gen_layer(g, sizes, [0] * len(docs), L0)
    assume(ents)
    src = text_of(sents, serialise(g, ents, L0), L0)
    msg = f'write.OldCorefUD of\n{src}'
    g.note(src, sum(len(e.mentions) for e in ents) > 1)
    if g.bool(0.3):
        doc = load(text_of(sents, None, L0))
        build_api(g, doc, ents)
    else:
        doc = load(src)
    tmp = tempfile.mkdtemp(prefix='vc35')
    try:
        fn = os.path.join(tmp, 'out.conllu')
        OldWriter(files=fn).apply_on_document(doc)
        with open(fn, encoding='utf-8', newline='') as f:
            text = f.read()
        ids = ids_of(src)
        exp = {}
        for e in ents:
            for m in e.mentions:
                exp.setdefault((m.sent, m.head), []).append((e, m))
        found, others = split_misc(text)
        want = {}
        for k, lst in exp.items():
            d = want[k] = {}
            for i, (e, m) in enumerate(lst, 1):
                x = '' if len(lst) == 1 else f'[{i}]'
                d['ClusterId' + x] = e.eid
                d['MentionSpan' + x] = span_str(m, ids[m.sent])
                if e.etype:
                    d['ClusterType' + x] = e.etype
                if m.bridging:
                    d['Bridging' + x] = sorted(f'{t.eid}:{r}' for t, r in m.bridging)
                if e.split:
                    d['SplitAnte' + x] = sorted(t.eid for t in e.split)
                if m.other:
                    d['MentionMisc' + x] = ','.join(n if v is True else f'{n}:{str(v).replace(",", "%2C")}' for n, v in sorted(m.other.items(), key=lambda y: y[0].lower()))
        for d in found.values():
            for n in d:
                if n.split('[')[0] in ('Bridging', 'SplitAnte'):
                    d[n] = sorted(d[n].split(','))
        eq(found, want, f'{msg}\nattributes in\n{text}')
        eq([o[:2] + (o[2],) for o in others], split_misc(text_of(sents, None))[1], f'{msg}\nother columns in\n{text}')
        check('global.Entity' not in text, lambda: f'{msg}: global.Entity stays in\n{text}')
        # and back
        for e in ents:
            sort_split(e, ents)
        doc2 = Document()
        OldReader(files=fn).apply_on_document(doc2)
        doc2.meta['global.Entity'] = L0
        eq(unsplit(read_objects(doc2, L0)), unsplit(model_objects(ents)), f'{msg}\nread back')
        for n in doc2.nodes_and_empty:
            check(not any(k.split('[')[0] in OLD for k in n.misc), lambda: f'{msg}: old attributes stay in {dict(n.misc)}')
        eq(split_misc(conllu_plain(doc2))[1], others, f'{msg}\nother columns read back')
        verify_saved(conllu(doc2), ents, L0, docs, f'read.OldCorefUD of\n{text}')
    finally:
        shutil.rmtree(tmp)


def conllu_plain(doc):
    t = conllu(doc)
    return '\n'.join('\t'.join(l.split('\t')[:9] + ['|'.join(x for x in l.split('\t')[9].split('|') if x.split('=')[0] not in ('Entity', 'Bridge', 'SplitAnte')) or '_'])
                     if '\t' in l else l for l in t.split('\n'))


def sort_split(e, ents):
    """Order of split antecedents is not significant here."""
    order = {id(x): i for i, x in enumerate(ents)}
    e.split = sorted(e.split, key=lambda x: order[id(x)])


def unsplit(objs):
    return {k: (v[0], v[1], sorted(v[2])) for k, v in objs.items()}


def f_oldread(g):
    """Files of the old format by other writers."""
    sents, sizes, docs = gen_text(g, docs_p=0.1)
    ents = gen_layer(g, sizes, [0] * len(docs), L0)
    assume(ents)
    hyphen = g.choice(['', '', '_', '.'])
    plus, spaces, index1, omit = g.bool(0.3), g.bool(0.3), g.bool(0.5), g.bool(0.5)
    plain = text_of(sents, None)
    ids = ids_of(plain)
    taken, raw = {}, {}
    for i, e in enumerate(ents):     # some ids with hyphens
        if g.bool(0.5):
            raw[e] = g.choice([f'a-{i}', f'b-{i}-x', f'c-{i}', 'q-r', 'qr-', '-qr', 'q-r-'])
            while raw[e] in [v for k, v in raw.items() if k is not e]:
                raw[e] += f'-{i}'
        else:
            raw[e] = f'd{i}'
    cells = {}
    todo = [(e, m) for e in ents for m in e.mentions]
    for e, m in g.perm(todo):
        cells.setdefault((m.sent, m.head), []).append((e, m))
    types = {e: [m for m in e.mentions if g.bool(0.7)] or e.mentions[:1] for e in ents}
    splits = {e: [m for m in e.mentions if g.bool(0.7)] or e.mentions[-1:] for e in ents}
    annot = {}
    for k, lst in cells.items():
        d = annot[k] = {}
        for i, (e, m) in enumerate(lst, 1):
            x = '' if len(lst) == 1 and not index1 else f'[{i}]'
            d['ClusterId' + x] = raw[e]
            if len(m.pos) > 1 or not omit:
                d['MentionSpan' + x] = span_str(m, ids[m.sent])
            if e.etype and m in types[e]:
                d['ClusterType' + x] = e.etype
            if m.bridging:
                d['Bridging' + x] = ','.join(f'{raw[t]}:{r}' for t, r in m.bridging)
            if e.split and m in splits[e]:
                d['SplitAnte' + x] = ('+' if plus else ',').join(raw[t] for t in e.split)
            if m.other:
                d['MentionMisc' + x] = (' ' if spaces else ',').join(n if v is True else f'{n}:{str(v).replace(",", "%2C")}' for n, v in m.other.items())
                if g.bool(0.2) and 'gstype' not in m.other:
                    d['MentionMisc' + x] += (' ' if spaces else ',') + 'gstype:a-b(c)'
                    m.other['gstype'] = 'a%2Db%28c%29'
    text = text_of(sents, annot)
    msg = f'read.OldCorefUD(replace_hyphen_in_id_with={hyphen!r}) of\n{text}'
    g.note(text, len(todo) > 1)
    tmp = tempfile.mkdtemp(prefix='vc35')
    try:
        fn = os.path.join(tmp, 'in.conllu')
        with open(fn, 'w', encoding='utf-8', newline='') as f:
            f.write(text)
        doc = Document()
        OldReader(files=fn, replace_hyphen_in_id_with=hyphen).apply_on_document(doc)
    finally:
        shutil.rmtree(tmp)
    # clashing new ids are numbered in the order of the first occurrence of the id in the file
    new = {}
    for k in sorted(cells):
        for e, m in cells[k]:
            for x in [e] + [t for t, r in m.bridging] + (e.split if e.split and m in splits[e] else []):
                if x not in new:
                    i, base = 1, raw[x].replace('-', hyphen)
                    new[x] = base
                    while '-' in raw[x] and new[x] in [v for y, v in new.items() if y is not x]:
                        i += 1
                        new[x] = f'{base}{i}'
    for e in ents:
        e.eid = new[e]
    for e in ents:
        sort_split(e, ents)
    doc.meta['global.Entity'] = L0
    eq(unsplit(read_objects(doc, L0)), unsplit(model_objects(ents)), msg)
    ents.sort(key=lambda e: (mkey(e.mentions[0])[:4], e.eid))
    eq([e.eid for e in doc.coref_entities], [e.eid for e in ents], f'{msg}: order of entities')
    for n in doc.nodes_and_empty:
        check(not any(k.split('[')[0] in OLD for k in n.misc), lambda: f'{msg}: old attributes stay in {dict(n.misc)}')
    eq(rest(conllu(doc)), rest(plain), f'{msg}: other columns')


def f_conll2012(g):
    style = g.choice(['litbank', 'corref', 'summit'])
    attrs = {'litbank': 'docname,_,ord,form,_,_,_,_,_,_,_,_,coref', 'corref': 'ord,form,_,_,_,_,coref', 'summit': 'ord,form,_,_,_,lemma,_,_,coref'}[style]
    pipe = style == 'litbank' or g.bool()
    ndocs = g.int(1, 3)
    text, exp, exp_words, newdocs, si = '', {}, [], [], 0
    zero = style != 'corref' or g.bool()
    for di in range(ndocs):
        base = g.choice(['d', '12_bleak', 'A-b', 'x.y-z_']) + str(di)
        if style == 'litbank':
            text += f'#begin document ({base}); part 0\n'
        elif style == 'summit':
            text += f'#begin document /home/andre/x-y/{base}/{base}.txt\n'
        else:
            text += f'#begin document {base}{g.choice([".txt.xml", ".txt", "", ".xml"])}\n'
        nums = [str(x) for x in g.choice([[1, 2, 3], [0, 10, 100], [7, 13, 77]])]
        nsent = g.int(1, 3)
        for k in range(nsent):
            n = g.int(1, 7)
            words = [g.choice(['a', 'Bé', 'c-d', ',', '(', '1', '_', '“']) for _ in range(n)]
            lemmas = [g.choice(['x', 'y', '_']) for _ in range(n)]
            spans = {}
            for num in nums:
                for _ in range(g.weighted([(3, 0), (3, 1), (2, 2), (1, 3)])):
                    a = g.draw(n)
                    b = min(n - 1, a + g.draw(4))
                    mine = spans.setdefault(num, [])
                    if (a, b) not in mine and all(b < c or a > d or c <= a and b <= d or a <= c and d <= b for c, d in mine):
                        mine.append((a, b))
            cells = []
            for p in range(n):
                ends = [(num, s) for num in nums for s in spans.get(num, []) if s[1] == p and s[0] < p]
                single = [(num, s) for num in nums for s in spans.get(num, []) if s == (p, p)]
                starts = [(num, s) for num in nums for s in spans.get(num, []) if s[0] == p and s[1] > p]
                # brackets of one entity are properly nested in the column
                chunks = [f'({num})' for num, s in single]
                starts, ends = [f'({num}' for num, s in starts], [f'{num})' for num, s in ends]
                chunks = g.perm(chunks + starts + ends) if pipe else g.perm(chunks + ends) + g.perm(starts)    # (1 and 2) cannot be adjacent without |
                cells.append(('|' if pipe else '').join(chunks) or '_')
            for p in range(n):
                o = str(p if zero else p + 1)
                if style == 'litbank':
                    text += '\t'.join([base, '0', o, words[p]] + ['_'] * 8 + [cells[p]]) + '\n'
                elif style == 'corref':
                    text += '\t'.join([o, words[p]] + ['x'] * 4 + [cells[p]]) + '\n'
                else:
                    text += '\t'.join([o, words[p], '*', '_', '9', lemmas[p], '-', '_', cells[p]]) + '\n'
            newdocs.append(base if k == 0 else None)
            exp_words.append([(w, None if l == '_' or style != 'summit' else l) for w, l in zip(words, lemmas)])
            for num, ss in spans.items():
                for a, b in ss:
                    exp.setdefault(f'{base.replace("-", "")}_e{num}', []).append((si, a, b))
            si += 1
            text += '\n' * g.choice([1, 1, 2]) if k < nsent - 1 else ''
        if style == 'corref' or g.bool(0.3):
            text += '#end document\n'
            if g.bool(0.3):
                text += '\n'
        else:
            text += '\n#end document\n'
    msg = f'read.Conll2012(attributes={attrs}) of\n{text}'
    g.note(f'{attrs}\n{text}', sum(map(len, exp.values())) > 1)
    tmp = tempfile.mkdtemp(prefix='vc35')
    try:
        fn = os.path.join(tmp, 'in.conll')
        with open(fn, 'w', encoding='utf-8', newline='') as f:
            f.write(text)
        doc = Document()
        Conll2012(files=fn, **({} if style == 'litbank' else dict(attributes=attrs))).apply_on_document(doc)
    finally:
        shutil.rmtree(tmp)
    trees = list(doc.trees)
    eq([[(n.form, n.lemma if n.lemma != '_' else None) for n in t.descendants] for t in trees], exp_words, f'{msg}: words')
    eq([t.newdoc for t in trees], newdocs, f'{msg}: documents')
    got = {}
    for e in doc.coref_entities:
        check(not e.etype, lambda: f'{msg}: type of {e.eid}')
        for m in e.mentions:
            si = trees.index(m.words[0].root)
            ords = [w.ord - 1 for w in m.words]
            eq(ords, list(range(ords[0], ords[-1] + 1)), f'{msg}: words of {m.words}')
            check(m.head is m.words[0], lambda: f'{msg}: head of {m.words}')
            got.setdefault(e.eid, []).append((si, ords[0], ords[-1]))
    eq({k: sorted(v) for k, v in got.items()}, {k: sorted(v) for k, v in exp.items()}, f'{msg}: mentions')
    # and it can be saved
    if exp:
        doc2 = load(conllu(doc))
        got2 = {}
        trees2 = list(doc2.trees)
        for e in doc2.coref_entities:
            for m in e.mentions:
                got2.setdefault(e.eid, []).append((trees2.index(m.words[0].root), m.words[0].ord - 1, m.words[-1].ord - 1))
        eq({k: sorted(v) for k, v in got2.items()}, {k: sorted(v) for k, v in exp.items()}, f'{msg}: saved and loaded')


def f_ccv(g):
    poems, exp = [], []
    mode = g.weighted([(3, None), (1, 1), (1, 2)])
    tokenize = g.bool(0.85)
    for pi in range(g.int(1, 3)):
        poem = {'poem_id': g.choice(['p', '00-1', 'x y']) + str(pi), 'p_author': {'name': g.choice(['A. B.', 'Č'])}, 'b_author': {'name': g.choice(['A', None])}, 'biblio': {'title': g.choice(['t', 'u"v']), 'year': '1900'},
                'body': []}
        for st in range(g.int(1, 3)):
            stanza = []
            for ln in range(g.int(1, 3)):
                words, punct, text, toks = [], {}, '', []
                n = g.int(0, 5)

                def add(form, lemma, extra, before):
                    nonlocal text
                    toks.append([form, lemma, extra, False])
                    if text and before:
                        text += g.choice([' ', ' ', '  ', '\t'])
                    elif text:
                        toks[-2][3] = True
                    text += form
                for i in range(n + 1):
                    if i:
                        w = {'token': g.choice(['se', 'Lásko', 'v', "'s", 'a-b']), 'lemma': g.choice(['být', 'l']), 'xsampa': g.choice(['se', 'la:sko']), 'phoebe': g.choice(['se', 'lAsko'])}
                        if g.bool(0.9):
                            w['morph'] = g.choice(['NNFS5', 'Z:---'])
                        words.append(w)
                        add(w['token'], w['lemma'], w if 'morph' in w else None, g.bool(0.85))
                    if g.bool(0.3):
                        ps = [g.choice(',.!?„“-') for _ in range(g.int(1, 2))]
                        punct[str(i)] = ps if g.bool() else ''.join(ps)
                        for x in ps:
                            add(x, x, None, g.bool(0.3))
                if g.bool(0.1) and text:
                    text += ' '
                line = {'text': text, 'rhyme': g.choice([None, 1, 12]), 'metre': {'J': {'foot': 5}} if g.bool() else [], 'stress': g.choice(['0101', '']), 'words': words, 'punct': punct}
                stanza.append(line)
                exp.append(dict(newdoc=poem['poem_id'] if st == ln == 0 else None, newpar=ln == 0, line=line, poem=poem, toks=toks))
            poem['body'].append(stanza)
        poems.append(poem)
    src = json.dumps(poems, ensure_ascii=g.bool())
    msg = f'read.Ccv(tokenize={tokenize}, bundles_per_doc={mode}) of {src}'
    g.note(msg, len(exp) > 1)
    tmp = tempfile.mkdtemp(prefix='vc35')
    try:
        fn = os.path.join(tmp, 'in.json')
        with open(fn, 'w', encoding='utf-8') as f:
            f.write(src)
        kw = {} if tokenize else {'tokenize': False}
        reader = Ccv(files=fn, **(dict(bundles_per_doc=mode) if mode else {}), **kw)
        docs = []
        while not reader.finished and len(docs) < 100:
            d = Document()
            reader.apply_on_document(d)
            docs.append(d)
    finally:
        shutil.rmtree(tmp)
    check(len(docs) < 100, lambda: f'{msg}: does not finish')
    trees = [t for d in docs for t in d.trees]
    if mode:
        eq([len(d.bundles) for d in docs if d.bundles], [min(mode, len(exp) - i) for i in range(0, len(exp), mode)], f'{msg}: sizes of documents')
    else:
        eq(len(docs), 1, f'{msg}: documents')
    eq(len(trees), len(exp), f'{msg}: verses')
    for t, e in zip(trees, exp):
        eq((t.text, t.newdoc or None, bool(t.newpar)), (e['line']['text'], e['newdoc'], e['newpar']), f'{msg}: text, newdoc, newpar')
        want = {k: e['line'][k] for k in ('rhyme', 'metre', 'stress')}
        if e['newdoc']:
            want.update({k: e['poem'][k] for k in ('p_author', 'b_author', 'biblio')})
        eq(dict(t.json), want, f'{msg}: json of {e["line"]["text"]}')
        got = [(n.form, n.lemma, n.xpos or None, {k: str(v) for k, v in n.misc.items()}) for n in t.descendants]
        if not tokenize:
            eq(got, [], f'{msg}: words')
            continue
        exp_t = []
        for form, lemma, w, glued in e['toks']:
            misc = {}
            if w:
                misc = {'xsampa': w['xsampa'], 'phoebe': w['phoebe']}
            if glued:
                misc['SpaceAfter'] = 'No'
            exp_t.append((form, lemma, w['morph'] if w else None, misc))
        eq(got, exp_t, f'{msg}: words of {e["line"]["text"]!r}')


ETY = ['person', 'PER', 'Loc', 'location', 'org', 'ORG', 'date', 'misc', '_', 'spec', 'gen', 'spec.person', 'gen.loc', 'specperson', 'gen.date', 'APPOS', 'appos', 'Organization', 'other', 'generic', 'event', 'Spec.Org']
REL = ['part', 'part-inv', 'PART', 'sub-set', 'set-sub-inv', 'indirect_part', 'INDIRECT_x-inv', 'anaf', '', 'in-direct_a']
NEW = {'misc': 'other', 'date': 'time', 'loc': 'place', 'location': 'place', 'per': 'person', 'org': 'organization', '_': ''}


def f_fix02(g):
    layout = g.choice([L0, L0, 'entity-GRP-infstat-MIN-coref_type-identity'])
    sents, sizes, docs = gen_text(g, docs_p=0)
    ents = gen_layer(g, sizes, [0] * len(docs), L0)
    assume(ents)
    for e in ents:
        e.etype = g.choice(ETY) if g.bool(0.9) else None
        for m in e.mentions:
            m.bridging = [(t, g.choice(REL)) for t, r in m.bridging]
    doc = load(text_of(sents, None, L0))
    build_api(g, doc, ents)
    before = read_objects(doc, L0)
    if layout != L0:
        doc.meta['global.Entity'] = layout
    src = text_of(sents, None, L0)
    msg = f'corefud.FixCorefUD02 of {[(e.eid, e.etype, [(m.sent, m.pos, dict(m.other), [(t.eid, r) for t, r in m.bridging]) for m in e.mentions]) for e in ents]} in\n{src}'
    g.note(msg, sum(bool(e.etype) for e in ents) > 1)
    for e in ents:
        t = e.etype
        if t:
            t = t.lower()
            gs = 'gen' if t.startswith('gen') else 'spec' if t.startswith('spec') else None
            if gs:
                for m in e.mentions:
                    m.other['gstype'] = gs
                t = 'other' if t == 'spec' else t.replace('gen', '').replace('spec', '').replace('.', '')
            t = NEW.get(t, t)
            if t == 'appos':
                t = ''
                for m in e.mentions[1:]:
                    m.other['appos'] = '1'
            e.etype = t or None
        for m in e.mentions:
            br = []
            for x, r in m.bridging:
                r = r.lower()
                if r.endswith('-inv'):
                    r = 'i' + r.replace('-inv', '')
                br.append((x, r.replace('-', '').replace('indirect_', '')))
            m.bridging = br
    run_block(FixCorefUD02(), doc)
    eq(read_objects(doc, L0), model_objects(ents), f'{msg}: annotation (it was {before})')
    eq(doc.meta['global.Entity'], L0 if layout == L0 else 'eid-etype-head-other-infstat-minspan-identity', f'{msg}: global.Entity')


def f_validate(g):
    n = g.int(1, 4)
    text, model = '', []
    for i in range(n):
        size = heads_size(g, 1, 8)
        heads = gen_heads(g, size)
        rows = []
        for p, h in enumerate(heads, 1):
            rows.append(dict(id=p, head=h, upos=g.choice(['PUNCT', 'PUNCT', 'CCONJ', 'ADJ', 'PROPN', 'NOUN', 'VERB', 'X']), deprel=g.choice(['root', 'root', 'dep', 'nsubj', 'conj']), sp=g.bool(0.7)))
        newdoc, newpar = i == 0 or g.bool(0.2), g.bool(0.3)
        model.append((newdoc, newpar, rows))
        text += ('# newdoc\n' if newdoc else '') + ('# newpar\n' if newpar else '') + f'# sent_id = s{i + 1}\n'
        for r in rows:
            text += f'{r["id"]}\tw{r["id"]}\t_\t{r["upos"]}\t_\t_\t{r["head"]}\t{r["deprel"]}\t_\t{"_" if r["sp"] else "SpaceAfter=No"}\n'
        text += '\n'
    doc = load(text)
    changed = 0
    for i, (newdoc, newpar, rows) in enumerate(model):
        by = {r['id']: r for r in rows}
        for r in rows:
            if r['head'] == 0:
                r['deprel'] = 'root'
        for r in rows:
            if r['head'] and r['deprel'] == 'root':
                changed += 1
                par = by[r['head']]
                if par['upos'] == 'PUNCT':
                    r['head'] = par['head']
                r['deprel'] = 'cc' if r['upos'] == 'CCONJ' else 'amod' if (r['upos'], par['upos']) == ('ADJ', 'PROPN') else 'obl' if (r['upos'], par['upos']) == ('NOUN', 'VERB') else 'parataxis'
        if i and (newdoc or newpar):
            model[i - 1][2][-1]['sp'] = True
    g.note(text, changed > 0)
    run_block(FixToValidate(), doc)
    for t, (newdoc, newpar, rows) in zip(doc.trees, model):
        eq([(x.ord, x.form, x.upos, x.parent.ord, x.deprel, not x.no_space_after) for x in t.descendants],
           [(r['id'], f'w{r["id"]}', r['upos'], r['head'], r['deprel'], r['sp']) for r in rows], f'corefud.FixToValidate of\n{text}')
        eq((bool(t.newdoc), bool(t.newpar)), (newdoc, newpar), 'newdoc, newpar')


FACETS = {
    'oldwrite': facet(f_oldwrite, 2500),
    'oldread': facet(f_oldread, 2500),
    'conll2012': facet(f_conll2012, 2500),
    'ccv': facet(f_ccv, 2000),
    'fix02': facet(f_fix02, 2000),
    'validate': facet(f_validate, 2500),
}

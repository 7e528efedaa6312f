"""C33: the conversion from UD v1 to v2 makes exactly the documented changes."""
from vf.engine import check, eq, Violation, assume
from vf.gens import *
from vf.util import facet
from udapi.block.ud.convert1to2 import Convert1to2

RULE = ('1-2 documents of 1-3 sentences (1-9, sometimes more words, any tree shape) labelled with the tags, features and relations of UD v1, stored text equal, differing in spaces, different or missing, '
        'converted with random skip= by one block object and compared with an independent model of the rules; non-trivial = at least two words change and at least one keeps head, relation and tag; distinct by documents and options')
ASSUMPTIONS = ['every word has a form, a tag and a relation',
               'a copula with dependents is AUX or PRON (otherwise the result depends on the order of the rules); Negative= is not combined with the neg relation']
UP = ['NOUN', 'NOUN', 'VERB', 'VERB', 'CONJ', 'AUX', 'ADV', 'PART', 'DET', 'INTJ', 'ADJ', 'PRON', 'NUM', 'PROPN', 'PUNCT', 'X']
V1 = ['mwe', 'dobj', 'nsubjpass', 'csubjpass', 'auxpass', 'name', 'foreign', 'mwe:x', 'name:y', 'dobj:z', 'nsubjpass:a', 'auxpass:reflex', 'foreign:u']
GENERAL = ['nsubj', 'obj', 'iobj', 'obl', 'advmod', 'csubj', 'xcomp', 'det', 'amod', 'case', 'cop', 'cop', 'nmod', 'nmod', 'nmod:tmod', 'nmod:poss', 'nmod:x', 'neg', 'neg', 'advcl', 'acl', 'neg:x', 'flat', 'goeswith',
           'goeswith:q', 'flat:foreign', 'parataxis', 'appos', 'fixed', 'nsubj:outer']
COORD = ['conj', 'cc', 'punct', 'conj', 'cc', 'punct', 'cc:preconj', 'conj:and', 'obj', 'amod']
FEATS = ['Negative=Neg', 'Negative=Pos', 'Aspect=Pro', 'Aspect=Imp', 'VerbForm=Trans', 'VerbForm=Fin', 'Definite=Red', 'Definite=Def', 'Foreign=Foreign', 'Foreign=Yes', 'Tense=Nar', 'Tense=Past', 'NumType=Gen',
         'NumType=Card', 'PronType=Neg', 'PronType=Int,Neg', 'PronType=Ind', 'Polarity=Pos', 'Case=Nom']
SKIPS = 'upos upos_copula deprel_simple neg nmod feats remnants goeswith flat fixed appos coord text'.split()
SIMPLE = {'mwe': 'fixed', 'dobj': 'obj', 'nsubjpass': 'nsubj:pass', 'csubjpass': 'csubj:pass', 'auxpass': 'aux:pass', 'name': 'flat:name', 'foreign': 'flat'}
PROMOTE = ['nsubj', 'obj', 'iobj', 'obl', 'advmod', 'csubj', 'xcomp', 'ccomp', 'advcl']          # from the most preferred


class W:
    def __init__(self, **kw):
        self.__dict__.update(kw)
        self.todo, self.orig = [], None

    @property
    def u(self):
        return self.deprel.split(':')[0]


def gen(g, remnants):
    n = heads_size(g, 1, 9)
    heads = gen_heads(g, n)
    ws = [W(i=0, head=None, deprel='', upos='', lemma='', feats={})]
    style = g.weighted([(3, V1 + GENERAL), (2, COORD), (2, COORD + GENERAL), (1, ['flat', 'flat', 'goeswith', 'goeswith:q', 'nsubj', 'name', 'punct']),
                        (1, ['nsubj', 'obj', 'nmod', 'cop', 'case', 'nmod:tmod', 'neg']), (2, ['nsubj', 'obj', 'dobj', 'iobj', 'conj', 'cc', 'xcomp', 'advmod'])])
    for i, h in enumerate(heads, 1):
        deprel = g.choice(style)
        if remnants and g.bool(0.3):
            deprel = 'remnant'
        if h == 0 and g.bool(0.8):
            deprel = 'root'
        feats = {}
        for _ in range(g.draw(4)):
            k, v = g.choice(FEATS).split('=')
            if not (k == 'Negative' and deprel.startswith('neg')):
                feats[k] = v
        upos = g.choice(UP)
        if deprel == 'punct':
            upos = 'PUNCT'
        if deprel == 'cop' and any(x == i for x in heads):
            upos = g.choice(['AUX', 'PRON'])
        ws.append(W(i=i, head=h, deprel=deprel, upos=upos, lemma=g.choice([',', ';', '.', 'l']) if deprel == 'punct' else 'l', feats=feats, form=g.choice(['a', 'bc', 'd']) if deprel != 'punct' else ',',
                    nospace=g.bool(0.25)))
    spelled = ''.join(w.form + ('' if w.nospace else ' ') for w in ws[1:]).rstrip()
    text = g.weighted([(4, spelled), (1, None), (1, spelled.replace(' ', '  ')), (1, 'x ' + spelled), (1, spelled + '.')])
    return ws, spelled, text


def up(ws, i):
    out = []
    while i is not None:
        out.append(i)
        i = ws[i].head
    return out


def ancestor(ws, first):
    """The lowest word above (or equal to) all remnants and the governor of the governor of the first one."""
    tops = [w.i for w in ws[1:] if w.deprel == 'remnant'] + [ws[ws[first].head].head]
    common = set(up(ws, tops[0]))
    for t in tops[1:]:
        common &= set(up(ws, t))
    return max(common, key=lambda i: len(up(ws, i)))


def convert(ws, spelled, text, skip, count):
    """The documented changes; returns (new text, the original text for a comment or None)."""
    def todo(w, m):
        count[m] = count.get(m, 0) + 1
        if w is not None and m not in w.todo:
            w.todo.append(m)

    def kids(i):
        return [w for w in ws[1:] if w.head == i]
    # relations are judged with tags before or after the renaming, which is the same for these rules
    for w in ws[1:]:
        if 'upos' not in skip and w.upos == 'CONJ':
            w.upos = 'CCONJ'
        if 'upos_copula' not in skip and w.deprel == 'cop' and w.upos != 'PRON':
            w.upos = 'AUX'
        if 'deprel_simple' not in skip and w.u in SIMPLE:
            if w.u == 'foreign':
                w.feats['Foreign'] = 'Yes'
            old, _, sub = w.deprel.partition(':')
            w.deprel = SIMPLE[old]
            if sub:
                if ':' in w.deprel:
                    todo(w, 'deprel')
                else:
                    w.deprel += ':' + sub
        if 'neg' not in skip and w.deprel == 'neg':
            if 'Neg' not in w.feats.get('PronType', ''):
                w.feats['Polarity'] = 'Neg'
            if w.upos in ('ADV', 'PART', 'AUX', 'INTJ'):
                w.deprel = 'advmod'
                if w.upos == 'INTJ' and (ws[w.head].upos == 'VERB' or any(c.deprel == 'cop' for c in kids(w.head))):
                    w.upos = 'PART'
            elif w.upos == 'DET':
                w.deprel = 'det'
            else:
                todo(w, 'neg')
        if 'nmod' not in skip and w.u == 'nmod':
            p = ws[w.head]
            predicate = any('subj' in c.deprel or c.deprel == 'cop' for c in kids(p.i))
            if p.upos in ('VERB', 'AUX', 'ADV') or p.upos == 'ADJ' and predicate:
                w.deprel = 'obl' + w.deprel[4:]
            elif w.deprel == 'nmod:tmod':
                w.deprel = 'obl:tmod'
            elif w.deprel != 'nmod:poss' and not (p.upos in ('NOUN', 'PRON', 'PROPN', 'NUM', 'DET') and not predicate):
                todo(w, 'nmod')
        if 'feats' not in skip:
            if 'Negative' in w.feats:
                w.feats['Polarity'] = w.feats.pop('Negative')
            for k, a, b in (('Aspect', 'Pro', 'Prosp'), ('VerbForm', 'Trans', 'Conv'), ('Definite', 'Red', 'Cons'), ('Foreign', 'Foreign', 'Yes')):
                if w.feats.get(k) == a:
                    w.feats[k] = b
            if w.feats.get('Tense') == 'Nar':
                todo(w, 'nar')
            if w.feats.get('NumType') == 'Gen':
                todo(w, 'gen')
    for w in ws[1:]:
        for d in ('goeswith', 'flat'):
            if d in skip:
                continue
            x = w
            while x.u == d and x.i < x.head:
                p = ws[x.head]
                deprel = x.deprel
                x = [c for c in kids(p.i) if c.u == d][0]
                for c in kids(p.i):
                    c.head = x.i
                x.head, x.deprel = p.head, p.deprel
                p.head, p.deprel = x.i, deprel
    rem = [w for w in ws[1:] if w.deprel == 'remnant']
    if 'remnants' not in skip and rem:
        top = 0 if ws[rem[0].head].i == 0 else ancestor(ws, rem[0].i)
        while ws[top].deprel == 'remnant':
            top = ws[top].head
        if top == 0:
            todo(rem[0], 'remnant')
        else:
            level = [(w, ws[w.head].deprel) for w in rem if ws[w.head].deprel != 'remnant']
            level.sort(key=lambda p: -PROMOTE.index(p[1]) if p[1] in PROMOTE else -100)
            while level:
                nxt = []
                for w, d in level:
                    w.orig = d
                    c = [x for x in kids(w.i) if x.deprel == 'remnant']
                    if len(c) > 1:
                        todo(w, 'more-remnant-children')
                    nxt += [(x, d) for x in c]
                head, d = level[-1]
                head.head, head.deprel = top, 'conj'
                if ws[top].deprel == d:
                    head.orig = None
                for w, _ in level[:-1]:
                    w.head, w.deprel = head.i, 'orphan'
                level = nxt
    if 'coord' not in skip:
        for w in ws[1:]:
            if w.deprel == 'cc' or w.deprel == 'punct' and w.lemma in (',', ';'):
                sis = kids(w.head)
                conj = [c for c in sis if c.deprel == 'conj']
                if not conj:
                    if w.deprel == 'cc' and w.head < w.i:
                        todo(w, 'cc-without-conj')
                elif not (w.i < conj[0].i and w.i < w.head):
                    right = [c for c in sis if c.i > w.i and c.deprel != 'cc']
                    later = [c for c in conj if c.i > w.i]
                    if not later:
                        if w.deprel == 'cc':
                            todo(w, 'cc-after-conj')
                    elif right[0] is later[0]:
                        w.head = later[0].i
                    else:
                        todo(w, w.deprel + '-in-coord')
    if 'text' not in skip:
        if text is None:
            return spelled, None
        if ' '.join(text.split()) != spelled:
            todo(None, 'text')
            return spelled, text
    return text, None


def fs(feats):
    return '|'.join(f'{a}={b}' for a, b in sorted(feats.items(), key=lambda p: p[0].lower())) or '_'


def f_convert(g):
    skip = g.subset(SKIPS, 0.25) if g.bool(0.5) else [] if g.bool(0.6) else [x for x in SKIPS if x != g.choice(SKIPS)]
    args = {'skip': ','.join(skip)} if skip or g.bool(0.3) else {}
    stats = g.bool(0.85)
    if not stats:
        args['save_stats'] = 0
    block = Convert1to2(**args)
    sample, moved, kept = '', 0, 0
    for dn in range(g.int(1, 2) if g.bool(0.3) else 1):
        sents, src = [], ''
        for k in range(g.int(1, 3)):
            ws, spelled, text = gen(g, g.bool(0.35))
            old = [g.bool(0.06) for _ in ws]
            s = f'# sent_id = s{k + 1}\n' + (f'# text = {text}\n' if text is not None else '')
            for w in ws[1:]:
                misc = (['SpaceAfter=No'] if w.nospace else []) + (['ToDo=old'] if old[w.i] else [])
                w.row = [str(w.i), w.form, w.lemma, w.upos, 'X', fs(w.feats), str(w.head), w.deprel, '_', '|'.join(misc) or '_']
                s += '\t'.join(w.row) + '\n'
            src += s + '\n'
            sents.append((ws, spelled, text, old))
        sample += src
        msg = f'Convert1to2({args}) document {dn + 1}\n{src}'
        doc = load(src)
        count = {}
        want = [convert(ws, spelled, text, skip, count) for ws, spelled, text, _ in sents]
        run_block(block, doc)
        for t in doc.trees:
            check_wf(t, msg)
        for (ws, spelled, text, old), (new, orig), got, tree in zip(sents, want, parse_conllu(conllu(doc)), doc.trees):
            for w, r in zip(ws[1:], got['rows']):
                exp = [str(w.i), w.form, w.lemma, w.upos, 'X', fs(w.feats), str(w.head), w.deprel, '_']
                eq(r[:5] + [fs(dict(x.split('=') for x in r[5].split('|')) if r[5] != '_' else {})] + r[6:9], exp, f'word {w.i}; {msg}')
                m = dict(x.split('=', 1) for x in r[9].split('|')) if r[9] != '_' else {}
                eq(m.pop('SpaceAfter', None), 'No' if w.nospace else None, f'SpaceAfter of word {w.i}; {msg}')
                eq(sorted(x for x in m.pop('ToDo', '').split(',') if x), sorted((['old'] if old[w.i] else []) + w.todo), f'ToDo of word {w.i}; {msg}')
                eq(m.pop('orig_deprel', None), w.orig, f'orig_deprel of word {w.i}; {msg}')
                eq(m, {}, f'MISC of word {w.i}; {msg}')
                if exp[3:8] != w.row[3:8]:
                    moved += 1
                else:
                    kept += 1
            eq(tree.text, new, f'text; {msg}')
            eq(orig is not None and f'# ToDoOrigText = {orig}' in got['comments'] or orig is None and not any('ToDoOrigText' in c for c in got['comments']), True, f'comment with the original text; {msg}')
            g.tag('remnants' if any(w.orig for w in ws) or any(w.row[7] == 'remnant' for w in ws[1:]) else 'no remnants')
        if stats:
            table = dict((l.split()[0], int(l.split()[1])) for l in doc.meta['todo'].split('\n')[1:] if l.strip())
            eq(table.pop('TOTAL'), sum(count.values()), f'total; {msg}')
            eq(table, count, f'overview; {msg}')
        else:
            check('todo' not in doc.meta, f'overview stored despite save_stats=0; {msg}')
    g.note(f'{args}\n{sample}', moved > 1 and kept > 0)


FACETS = {
    'convert': facet(f_convert, 9000),
}

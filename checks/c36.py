"""C36: specialised repair blocks make exactly the documented change."""
import copy
import io
import os
import re
import shutil
import tempfile
from vf.engine import check, eq, Violation, assume
from vf.gens import *
from vf.util import facet
from udapi.block.ud.addpuncttype import AddPunctType
from udapi.block.ud.basic2enhanced import Basic2Enhanced
from udapi.block.ud.fixadvmodbyupos import FixAdvmodByUpos
from udapi.block.ud.fixcompoundname import FixCompoundName
from udapi.block.ud.fixpseudocop import FixPseudoCop
from udapi.block.ud.lemmatize import Lemmatize
from udapi.block.ud.printfixed import PrintFixed
from udapi.block.ud.settranslation import SetTranslation
from udapi.block.ud.bg.removedotafterabbr import RemoveDotAfterAbbr
from udapi.block.ud.de.fixgsd import FixGSD
from udapi.block.ud.es.fixexclamation import FixExclamation
from udapi.block.ud.kk.fixspuriousaux import FixSpuriousAux as KkFixSpuriousAux
from udapi.block.ud.ug.fixspuriousaux import FixSpuriousAux as UgFixSpuriousAux
from udapi.block.ud.pt.addhyphenmwt import AddHyphenMwt
from udapi.block.ud.zh.lemmatize import Lemmatize as ZhLemmatize
from udapi.block.mwe.normalize import Normalize
from udapi.block.mwe.tosubdeprels import ToSubDeprels
from udapi.block.mwe.possessives import Possessives
from udapi.block.util.findbug import FindBug

RULE = ('1-2 documents of 1-3 sentences (1-9, sometimes more words, any tree shape) drawn from the forms, lemmas, tags, features and relations the block is about, run through one block object and compared, '
        'row by row of the written CoNLL-U or line by line of what is printed, with an independent model; non-trivial = the block changes or prints something and there are at least 3 words; distinct by block, options and documents')
ASSUMPTIONS = ['every word has a form, a tag and a relation; a relation root belongs to a child of the root',
               'ud.FixCompoundName: no chains of compound names and no enhanced dependencies; ud.Lemmatize: adjectives have no degree',
               'ud.PrintFixed: the members of a fixed expression follow its head; mwe.ToSubDeprels and mwe.Normalize: every expression has a type',
               'ud.de.FixGSD, ud.es.FixExclamation, ud.pt.AddHyphenMwt, ud.bg.RemoveDotAfterAbbr: no enhanced dependencies, the words are not inside of multi-word tokens']


class W:
    def __init__(self, **kw):
        self.form, self.lemma, self.upos, self.xpos, self.feats, self.head, self.deprel, self.edges, self.misc = 'a', 'l', 'X', '_', {}, None, 'dep', [], {}
        self.__dict__.update(kw)

    @property
    def u(self):
        return self.deprel.split(':')[0]

    def put(self, key, value, where='feats'):
        d = getattr(self, where)
        if value:
            d[key] = value
        else:
            d.pop(key, None)


class S:
    """A sentence: words, tokens [(words, form)], empty nodes [(word before or None, form, edges)]."""

    def __init__(self, words, mwts=(), empties=(), text='stored text', comments=()):
        self.words, self.mwts, self.empties, self.text, self.comments = words, list(mwts), list(empties), text, list(comments)

    def kids(self, w):
        return [x for x in self.words if x.head is w]

    def rows(self):
        num = {id(None): '0'}
        for i, w in enumerate(self.words, 1):
            num[id(w)] = str(i)
        minor = {}
        for e in self.empties:
            minor[id(e[0])] = minor.get(id(e[0]), 0) + 1
            num[id(e)] = f'{num[id(e[0])]}.{minor[id(e[0])]}'

        def dd(d):
            return '|'.join(f'{k}={v}' for k, v in sorted(d.items(), key=lambda kv: kv[0].lower())) or '_'

        def ee(edges):
            return '|'.join(f'{num[id(h)]}:{r}' for h, r in edges) or '_'
        out = []

        def emit(w):
            for e in self.empties:
                if e[0] is w:
                    x = e[3] if len(e) > 3 else W(lemma='_', upos='_')
                    out.append([num[id(e)], e[1], x.lemma, x.upos, '_', dd(x.feats), '_', '_', ee(e[2]), dd(x.misc)])
        emit(None)
        for i, w in enumerate(self.words, 1):
            for ws, form, *misc in self.mwts:
                if ws[0] is w:
                    out.append([f'{i}-{i + len(ws) - 1}', form] + ['_'] * 7 + [dd(misc[0]) if misc else '_'])
            out.append([str(i), w.form, w.lemma, w.upos, w.xpos, dd(w.feats), num[id(w.head)], w.deprel, ee(w.edges), dd(w.misc)])
            emit(w)
        return out

    def ser(self):
        return '\n'.join(list(self.comments) + ([f'# text = {self.text}'] if self.text is not None else []) + ['\t'.join(r) for r in self.rows()]) + '\n\n'


def gen(g, word, edges=0.3, empties=0.0, mwts=0.0, lo=1, star=0.0):
    """A sentence; word(i, head) gives the attributes of a word."""
    n = heads_size(g, lo, 9)
    heads = gen_heads(g, n)
    if star and g.bool(star):
        top = g.int(1, n)
        heads = [0 if i == top else top if g.bool(0.9) or h == i else h for i, h in enumerate(heads, 1)]
        heads = [top if h and heads[h - 1] not in (0, top) else h for h in heads]
    ws = [W(**word(i, h)) for i, h in enumerate(heads, 1)]
    ref = [None] + ws
    for w, h in zip(ws, heads):
        w.head = ref[h]
        if h == 0:
            w.deprel = 'root' if w.u != 'root' else w.deprel
        elif w.u == 'root':
            w.deprel = 'dep'
    s = S(ws)
    if g.bool(empties):
        for k in sorted({g.int(0, n) for _ in range(g.int(1, 2))}):
            s.empties.append((ref[k], 'E', []))
        ref = ref + s.empties
        for e in s.empties:
            e[2].append((g.choice(ref), g.choice(['dep:e', 'nsubj'])))
    if g.bool(edges):
        for w in ws:
            for _ in range(g.weighted([(4, 1), (3, 0), (1, 2)])):
                w.edges.append((g.choice([w.head, g.choice(ref)]), g.choice([w.deprel, 'nsubj', 'conj:and'])))
    if g.bool(mwts):
        s.mwts = [([ws[i] for i in range(a - 1, b)], f) for a, b, f, *_ in gen_mwts(g, n, 0.3)]
    return s


def docs(g, make):
    out = [[make() for _ in range(g.weighted([(4, 1), (3, 2), (1, 3)]))] for _ in range(g.weighted([(4, 1), (1, 2)]))]
    for d in out:
        for i, s in enumerate(d, 1):
            s.comments.insert(0, f'# sent_id = s{i}')
    return out


def judge(g, block, documents, model, msg='', texts=True, printed=None):
    """Run the block on the documents and compare with the model applied to each sentence."""
    name = type(block).__module__.replace('udapi.block.', '') + msg
    texts_in = [''.join(s.ser() for s in d) for d in documents]
    loaded = [load(t) for t in texts_in]
    for t, d in zip(texts_in, loaded):
        check(any(s.text is None for x in documents for s in x) or conllu(d) == t, 'the generated document is not in the canonical form')
    before = [[s.rows() for s in d] for d in documents]
    lines = []
    for d in documents:
        for s in d:
            lines += model(s) or []
    after = [[s.rows() for s in d] for d in documents]
    n = sum(len(s.words) for d in documents for s in d)
    g.note(f'{name}\n' + '\n'.join(texts_in), n >= 3 and (before != after or (printed and bool(lines))), key=(name, str(texts_in)))
    g.tag('changed' if before != after else 'unchanged')
    got_lines = []
    for k, d in enumerate(loaded):
        got_lines += run_block(block, d).split('\n')[:-1]
        for t in d.trees:
            check_wf(t, name)
        sents = parse_conllu(conllu(d))
        eq(len(sents), len(documents[k]), f'{name}: sentences')
        for s, b, e, got in zip(documents[k], before[k], after[k], sents):
            eq(got['rows'], e, f'{name} on\n' + '\n'.join('\t'.join(r) for r in b) + '\n')
            if texts and s.text is not None:
                eq([c for c in got['comments'] if c.startswith('# text =')], [f'# text = {s.text}'], f'{name}: text')
            eq([c for c in got['comments'] if not c.startswith('# text =')], s.comments, f'{name}: comments')
    if printed:
        eq(got_lines, lines, f'{name} printed\n' + '\n'.join(texts_in))


# ---------------------------------------------------------------- tables
TYPES = {'Brck': list('()[]{}'), 'Peri': ['.'], 'Elip': ['...', '…'], 'Comm': [','], 'Semi': [';'], 'Colo': [':', '/'], 'Excl': ['!', '¡'], 'Qest': ['?', '¿'], 'Dash': list('-–—'),
         'Quot': list('"\'`“”„‘’‚«»‹›《》「」『』')}
SIDES = {'Ini': list('([{¡¿《「『'), 'Fin': list(')]}!?》」』')}
UPOS_ALL = 'NOUN PROPN PRON DET NUM VERB AUX ADP SCONJ CCONJ INTJ ADJ ADV PART X PUNCT SYM'.split()


def t_punct(g):
    forms = [f for fs in TYPES.values() for f in fs] + ['..', '!!', '*', '--', 'a', '?!', '〈']

    def word(i, h):
        f = {}
        for k, v in (('PunctType', 'Comm'), ('PunctType', 'Peri'), ('PunctSide', 'Ini'), ('PunctSide', 'Fin'), ('Case', 'Nom'), ('Number', 'Sing')):
            if g.bool(0.2):
                f[k] = v
        return dict(form=g.choice(forms), upos=g.weighted([(3, 'PUNCT'), (1, 'SYM'), (1, 'X')]), feats=f)

    def model(s):
        for w in s.words:
            for key, table in (('PunctType', TYPES), ('PunctSide', SIDES)):
                w.put(key, next((v for v, fs in table.items() if w.upos == 'PUNCT' and w.form in fs), ''))
    judge(g, AddPunctType(), docs(g, lambda: gen(g, word, empties=0.2, mwts=0.2)), model)


ADVMOD = {
    'advmod': [('NOUN PROPN PRON DET NUM', 'obl'), ('VERB', 'advcl'), ('AUX', 'aux'), ('CCONJ', 'cc'), ('INTJ', 'discourse'), ('ADJ ADV PART X PUNCT SYM', 'dep')],
    'expl': [('AUX', 'aux'), ('ADP', 'case'), ('CCONJ', 'cc')],
    'aux': [('NOUN PROPN PRON DET NUM VERB ADP SCONJ CCONJ INTJ ADJ ADV PART X PUNCT SYM', 'dep')],
    'cop': [('NOUN PROPN PRON DET NUM VERB ADP SCONJ CCONJ INTJ ADJ ADV PART X PUNCT SYM', 'dep')],
    'case': [('DET', 'det')],
    'mark': [('PRON DET', 'nsubj'), ('INTJ', 'discourse')],
    'cc': [('AUX', 'aux'), ('DET', 'det'), ('INTJ', 'discourse')],
    'det': [('NOUN', 'nmod'), ('ADJ', 'amod'), ('ADV', 'advmod'), ('AUX', 'aux'), ('VERB X', 'dep')],
    'nummod': [('PRON', 'nmod'), ('DET', 'det')],
    'punct': [('NOUN PROPN PRON DET NUM VERB AUX ADP SCONJ CCONJ INTJ ADJ ADV PART X SYM', 'dep')],
}


def t_advmod(g):
    def word(i, h):
        r = g.choice(list(ADVMOD) + ['advmod', 'advmod', 'nsubj', 'obl', 'conj'])
        return dict(upos=g.choice(UPOS_ALL), deprel=r + (g.choice([':x', ':pass', ':emph']) if g.bool(0.25) else ''))

    def model(s):
        for w in s.words:
            if w.u == 'advmod' and w.upos == 'ADV':
                assume(False)
            if w.u == 'advmod' and w.upos in ('ADP', 'SCONJ'):
                w.deprel = 'mark' if w.head is not None and w.head.upos == 'VERB' else 'case'
            else:
                w.deprel = next((new for tags, new in ADVMOD.get(w.u, []) if w.upos in tags.split()), w.deprel)
    judge(g, FixAdvmodByUpos(), docs(g, lambda: gen(g, word, empties=0.2, mwts=0.2)), model)


def t_lemmatize(g):
    def word(i, h):
        f = {}
        for k, v in (('Typo', 'Yes'), ('Typo', 'No'), ('Degree', 'Pos'), ('Degree', 'Cmp'), ('Polarity', 'Neg'), ('Polarity', 'Pos'), ('VerbForm', 'Inf'), ('VerbForm', 'Inf'), ('VerbForm', 'Fin'), ('Number', 'Plur'), ('Number', 'Sing'),
                     ('Case', 'Gen'), ('Case', 'Nom'), ('Gender', 'Masc'), ('Gender', 'Fem')):
            if g.bool(0.12):
                f[k] = v
        upos = g.choice(UPOS_ALL + ['NOUN', 'PROPN', 'ADJ', 'VERB', 'ADV'])
        if upos == 'ADJ':
            f.pop('Degree', None)
            f.pop('Polarity', None)
        return dict(form=g.choice(['Dog', 'dog', '_', 'ŽLUŤ', 'NEW']), lemma=g.weighted([(4, '_'), (1, 'Dog'), (1, 'l')]), upos=upos, feats=f)

    def model(s):
        for w in s.words:
            if w.lemma != '_' or w.form == '_' or w.feats.get('Typo') == 'Yes':
                continue
            no = lambda key, ok: w.feats.get(key, ok) != ok
            p = w.upos
            if p in ('NOUN', 'PROPN'):
                keep = no('Number', 'Sing') or no('Case', 'Nom') or no('Polarity', 'Pos')
            elif p in ('ADJ', 'PRON', 'DET'):
                keep = no('Gender', 'Masc') or no('Number', 'Sing') or no('Case', 'Nom')
            elif p == 'NUM':
                keep = no('Gender', 'Masc') or no('Case', 'Nom')
            elif p in ('VERB', 'AUX'):
                keep = w.feats.get('VerbForm') != 'Inf' or no('Polarity', 'Pos')
            elif p == 'ADV':
                keep = no('Degree', 'Pos') or no('Polarity', 'Pos')
            else:
                keep = False
            if not keep:
                w.lemma = w.form if p == 'PROPN' else w.form.lower()
    judge(g, Lemmatize(), docs(g, lambda: gen(g, word, empties=0.2, mwts=0.2)), model)


def t_zh(g):
    rewrite = g.weighted([(2, None), (1, 'empty'), (2, 'form'), (2, 'all')])
    plural = dict(zip(['我們', '我们', '他們', '他们', '它們', '它们', '牠們', '她們', '她们', '人們', '人们'], '我我他他它它牠她她人人'))
    neg, cop = '不没沒未', '是爲為为'

    def word(i, h):
        f = {}
        for k, v in (('Typo', 'Yes'), ('Polarity', 'Pos'), ('Mood', 'Ind'), ('Aspect', 'Perf')):
            if g.bool(0.12):
                f[k] = v
        base = g.choice(['要', '能', '有', '是', '認', '好看', '我們', '人们', '我'])
        form = g.weighted([(2, base), (2, g.choice(neg) + base), (2, base + g.choice(neg) + base), (1, base + g.choice(cop)), (1, base + g.choice(neg)), (1, g.choice(list(plural))), (1, '_')])
        return dict(form=form, lemma=g.weighted([(3, '_'), (1, form), (1, 'l')]), upos=g.choice(['VERB', 'AUX', 'NOUN', 'PRON', 'VERB']), feats=f)

    def model(s):
        for w in s.words:
            empty = w.lemma == '_' and w.form != '_' and w.feats.get('Typo') != 'Yes'
            if not (empty or rewrite == 'all' or rewrite == 'form' and w.lemma == w.form):
                continue
            f = w.form
            if w.upos in ('VERB', 'AUX'):
                half = len(f) // 2
                if len(f) > 1 and f[0] in neg:
                    w.lemma = f[1:]
                    w.put('Polarity', 'Neg')
                elif len(f) > 2 and len(f) % 2 and f[half] in neg and f[:half] == f[half + 1:]:
                    w.lemma = f[:half]
                    w.put('Mood', 'Int')
                else:
                    c = [x for x in f if x in cop]
                    if c:
                        w.lemma = c[0].replace('爲', '為')
            else:
                w.lemma = plural.get(f, f)
    judge(g, ZhLemmatize(**({} if rewrite is None else dict(rewrite=rewrite))), docs(g, lambda: gen(g, word)), model, f' {rewrite}')


def f_tables(g):
    g.choice([t_punct, t_advmod, t_lemmatize, t_zh])(g)


# ---------------------------------------------------------------- trees
def f_enhanced(g):
    def word(i, h):
        return dict(deprel=g.choice(['nsubj', 'obj', 'nmod:poss', 'conj', 'acl:relcl']))

    def model(s):
        for w in s.words:
            if not w.edges:
                w.edges.append((w.head, w.deprel))
    judge(g, Basic2Enhanced(), docs(g, lambda: gen(g, word, edges=0.7, empties=0.4, mwts=0.2)), model)


def f_compound(g):
    def word(i, h):
        return dict(form=g.weighted([(12, 'New'), (6, 'York'), (1, '30'), (1, 'F16')]), upos=g.weighted([(5, 'PROPN'), (1, 'NOUN'), (1, 'VERB')]),
                    deprel=g.weighted([(5, 'compound'), (1, 'compound:nn'), (1, 'nmod'), (1, 'flat:name'), (1, 'conj')]))

    def name(w):
        return w.upos == 'PROPN' and w.u == 'compound' and w.head is not None and w.head.upos == 'PROPN'

    def unchain(s):
        for w in s.words:          # members of a name have no name of their own
            if name(w) and any(name(x) for x in s.kids(w)):
                w.deprel = 'appos'
        return s

    def model(s):
        for head in list(s.words):
            members = [w for w in s.kids(head) if name(w)]
            group = [w for w in s.words if w is head or w in members]
            if members and not any(c.isdigit() for w in group for c in w.form):
                first = group[0]
                if first is not head:
                    first.head, first.deprel = head.head, head.deprel
                for w in group[1:]:
                    w.head, w.deprel = first, 'flat:name'
    judge(g, FixCompoundName(), docs(g, lambda: unchain(gen(g, word, edges=0.0, mwts=0.2))), model)


CLAUSE = 'nsubj csubj advmod advcl obj iobj obl aux mark punct cc expl dislocated vocative discourse parataxis'.split()
SPURIOUS = 'nsubj csubj obl advmod advcl vocative discourse parataxis punct'.split()


def f_pseudocop(g):
    kind = g.choice(['cop', 'cop', 'kk', 'ug'])
    lemmas = {'cop': g.subset(['become', 'stay', 'l'], 0.6, 1), 'kk': ['баста', 'кет'], 'ug': ['بەر', 'چىق', '_', 'باشلى', 'كىر']}[kind]
    noncop = kind == 'cop' and g.bool(0.5)
    move = CLAUSE if kind == 'cop' else SPURIOUS

    def word(i, h):
        rels = ['cop', 'aux'] if g.bool(0.45) else move + ['amod', 'det', 'conj', 'nmod', 'case']
        if h == 0:
            rels = ['root']
        r = g.choice(rels)
        return dict(lemma=g.choice(list(lemmas) + ['be']), upos=g.choice(['AUX', 'AUX', 'VERB', 'NOUN']), deprel=r + (':x' if g.bool(0.2) else ''))

    def model(s):
        for w in list(s.words):
            if w.lemma not in lemmas:
                continue
            if kind == 'cop':
                hit = w.u == 'cop' or noncop and w.u == 'aux'
                if not hit and noncop and w.upos == 'AUX':
                    w.upos = 'VERB'
            else:
                hit = w.u == 'aux' and (kind == 'ug' or w.upos == 'AUX')
            if hit:
                lex = w.head
                w.head, w.deprel, w.upos = lex.head, lex.deprel, 'VERB'
                lex.head, lex.deprel = w, 'xcomp'
                for c in s.kids(lex):
                    if c.u in move:
                        c.head = w
    block = FixPseudoCop(lemmas=','.join(lemmas), **(dict(noncopaux=1) if noncop else {})) if kind == 'cop' else KkFixSpuriousAux() if kind == 'kk' else UgFixSpuriousAux()
    judge(g, block, docs(g, lambda: gen(g, word, edges=0.2, empties=0.1, mwts=0.2)), model, f' {kind} {lemmas} {noncop}')


# ---------------------------------------------------------------- multi-word expressions
def f_mwe(g):
    which = g.choice([Normalize, ToSubDeprels, Possessives])
    types = ['VID', 'LVC.cause', 'IRV', 'LVC.full']
    of = {}

    def make():
        s = gen(g, lambda i, h: dict(deprel=g.choice(['obj', 'nmod:poss', 'det']), upos=g.choice(['PRON', 'PRON', 'VERB', 'NOUN']), form=g.choice(['a', 'b', 'my', 'go']),
                                     feats=dict(g.choice([[], [('Poss', 'Yes')], [('Poss', 'Yes')], [('Case', 'Nom')]])), misc=dict(g.choice([[], [], [('Gloss', 'x')]]))), empties=0.1, mwts=0.1)
        mine = []
        for k in g.perm(list(range(1, 13)))[:g.weighted([(3, 1), (3, 2), (1, 3), (1, 0)])]:
            members = g.subset(s.words, g.choice([0.3, 0.6]), 1)
            if len(s.words) > 1 and g.bool(0.5):          # a connected expression
                w = g.choice(s.words)
                members = [x for x in s.words if x is w or x.head is w and g.bool(0.7)]
            mine.append((k, g.choice(types), members, g.choice(members)))
        for w in s.words:
            mwes = [(k, t, first) for k, t, members, first in g.perm(mine) if w in members]
            if mwes:
                w.misc['Mwe'] = ';'.join(f'{k}:{t}' if first is w else str(k) for k, t, first in mwes)
        of[id(s)] = mine
        return s

    def model(s):
        mine = {k: (t, members) for k, t, members, _ in of[id(s)]}
        keys = {id(w): [int(x.split(':')[0]) for x in w.misc['Mwe'].split(';')] if 'Mwe' in w.misc else [] for w in s.words}
        if which is Normalize:
            for w in s.words:
                if keys[id(w)]:
                    w.misc['Mwe'] = ';'.join(f'{k}:{mine[k][0]}' if next(x for x in s.words if k in keys[id(x)]) is w else str(k) for k in keys[id(w)])
        elif which is ToSubDeprels:
            for w in s.words:
                for k in keys[id(w)]:
                    if w.head is not None and k in keys[id(w.head)]:
                        w.deprel += ':' + mine[k][0].lower().replace('.', '')
        else:
            out = []
            order = []
            for w in s.words:
                order += [k for k in keys[id(w)] if k not in order]
            for k in order:
                below = set()
                for w in s.words:
                    a, path = w, []
                    while a is not None:
                        path.append(a)
                        a = a.head
                    # a head of the expression above the word
                    if any(k in keys[id(x)] and not (x.head is not None and k in keys[id(x.head)]) for x in path[1:]):
                        below.add(id(w))
                seen = [w for w in s.words if id(w) in below]
                poss = [k in keys[id(w)] for w in seen if w.upos == 'PRON' and w.feats.get('Poss') == 'Yes']
                if poss:
                    out.append(('both' if len(set(poss)) == 2 else 'in' if poss[0] else 'out') + ': ' + ' '.join(w.form if k in keys[id(w)] else f'({w.form})' for w in seen))
            return out
    judge(g, which(), docs(g, make), model, printed=which is Possessives)


# ---------------------------------------------------------------- tokens
def spelled(s):
    return ''.join(w.form + ('' if w.misc.get('SpaceAfter') == 'No' else ' ') for w in s.words).rstrip()


def remove(s, w, to):
    for c in s.kids(w):
        c.head = to
    s.words = [x for x in s.words if x is not w]


def f_dot(g):
    def make():
        s = gen(g, lambda i, h: dict(form=g.choice(['г.', 'a', '.', 'b.', '...']), misc=dict(SpaceAfter='No') if g.bool(0.2) else {}), edges=0)
        if g.bool(0.7):
            s.words[-1].form = '.'
        if g.bool(0.5) and len(s.words) > 1:
            s.words[-2].form = 'г.'
        t = spelled(s)
        s.text = g.weighted([(3, t), (3, re.sub(r'[ .]+$', '.', t)), (1, None), (1, t + ' .'), (1, re.sub(r'[ .]+$', '', t) + '..')])
        if s.text == '':
            s.text = None
        return s

    def model(s):
        ws = s.words
        if len(ws) > 1 and ws[-1].form == '.' and ws[-2].form[-1] == '.' and s.text and not s.text.endswith(('..', '. .')):
            remove(s, ws[-1], ws[-1].head)
    judge(g, RemoveDotAfterAbbr(), docs(g, make), model)


ORD = ['erst', 'zweit', 'dritt', 'viert', 'fünft', 'sechst', 'siebt', 'neunt', 'zehnt', 'elft', 'zwölft', 'dreizehnt', 'vierzehnt', 'neunzehnt']


def f_ordinal(g):
    def word(i, h):
        form = g.weighted([(4, '10'), (4, '.'), (2, '3.'), (2, 'a'), (1, 'x1'), (1, '1a')])
        f = dict(g.choice([[], [('Case', 'Nom')], [('NumType', 'Card'), ('Gender', 'Masc')]]))
        return dict(form=form, lemma=g.weighted([(4, 'l'), (2, g.choice(ORD)), (1, g.choice(ORD) + 'er'), (1, 'Erst'), (1, 'acht'), (1, 'zweiter')]), upos=g.choice(['NUM', 'ADV', 'PUNCT', 'X']), xpos=g.choice(['CARD', '_']),
                    feats=f, deprel=g.choice(['nummod', 'nummod', 'nummod:x', 'obl', 'punct']), misc=dict(SpaceAfter='No') if g.bool(0.5) else {})

    def make():
        s = gen(g, word, edges=0)
        for w in s.words:
            if w.form == '.':
                w.lemma = '.'
        return s

    def ordinal(w, keep=False):
        w.upos, w.xpos = 'ADJ', 'ADJA'
        w.feats = dict(w.feats, NumType='Ord') if keep else dict(NumType='Ord')
        if w.u == 'nummod':
            w.deprel = 'amod'

    def model(s):
        for w in list(s.words):
            i = next(k for k, x in enumerate(s.words) if x is w)
            if w.form == '.' and 0 < i < len(s.words) - 1 and s.words[i - 1].form.isdigit() and s.words[i - 1].misc.get('SpaceAfter') == 'No':
                num = s.words[i - 1]
                a = num.head
                while a is not None and a is not w:
                    a = a.head
                if a is w:                     # the number stands below its period
                    num.head = w.head
                for c in s.kids(w):
                    c.head = num
                s.words.pop(i)
                num.put('SpaceAfter', w.misc.get('SpaceAfter', ''), 'misc')
                num.form += '.'
                num.lemma = num.form
                ordinal(num)
                continue
            if w.form[-1] == '.' and w.form[:-1].isdigit():
                w.lemma = w.form
                ordinal(w)
            low = w.lemma.lower()
            stem = low[:-2] if low.endswith('er') and low[:-2] in ORD else low
            if stem in ORD and not (w.lemma == 'erst' and w.upos == 'ADV'):
                w.lemma = w.lemma[:len(stem)]
                ordinal(w, True)
    judge(g, FixGSD(), docs(g, make), model)


def f_exclamation(g):
    def make():
        return gen(g, lambda i, h: dict(form=g.weighted([(3, 'a'), (2, '¡Hola!'), (2, 'Yahoo!'), (2, '¡a'), (1, '!b'), (1, '¡!'), (1, '!'), (1, 'c!!'), (1, '¡¡d'), (1, 'e¡'), (1, '¡1!')]),
                                        misc=dict(g.choice([[], [], [('SpaceAfter', 'No')], [('Gloss', 'x')]])), deprel=g.choice(['nsubj', 'obj'])), edges=0)

    def punct(w, c):
        return W(form=c, lemma=c, upos='PUNCT', xpos='faa' if c == '¡' else 'fat', feats=dict(PunctType='Excl', PunctSide='Ini' if c == '¡' else 'Fin'), head=w, deprel='punct')

    def model(s):
        for w in list(s.words):
            i = next(k for k, x in enumerate(s.words) if x is w)
            if len(w.form) > 1 and w.form[0] in '¡!' and w.form[1].isalnum():
                p = punct(w, w.form[0])
                p.misc['SpaceAfter'] = 'No'
                w.form = w.form[1:]
                s.words.insert(i, p)
                i += 1
                w.misc['Mark'] = 'PunctSep'
            if len(w.form) > 1 and w.form[-1] in '¡!' and w.form[-2].isalnum():
                p = punct(w, w.form[-1])
                w.form = w.form[:-1]
                if 'SpaceAfter' in w.misc:
                    p.misc['SpaceAfter'] = w.misc['SpaceAfter']
                w.misc.update(SpaceAfter='No', Mark='PunctSep')
                s.words.insert(i + 1, p)
    judge(g, FixExclamation(), docs(g, make), model)


def f_hyphen(g):
    def make():
        style = g.choice([0.3, 0.5])
        s = gen(g, lambda i, h: dict(form='-' if (i % 2 == 0 and g.bool(0.7)) or g.bool(0.1) else g.weighted([(5, 'ab'), (2, 'c1'), (1, 'al'), (1, 'Al'), (1, ','), (1, 'd-e')])), edges=0, lo=3)
        if g.bool(style):           # heads close to each other, so that the compounds are connected
            for k, w in enumerate(s.words[1:], 1):
                w.head = g.choice([s.words[k - 1], s.words[max(0, k - 2)], s.words[0]])
            s.words[0].head = None
            for w in s.words:
                w.deprel = 'root' if w.head is None else 'dep'
        s.text = spelled(s)
        return s

    def model(s):
        ok = lambda w: w.form.isalnum() and w.form.lower() != 'al'
        ws, i, done = list(s.words), 0, False
        while i < len(ws):
            k = i
            while ok(ws[i]) and k + 2 < len(ws) and ws[k + 1].form == '-' and ok(ws[k + 2]):
                k += 2
            if k > i:
                part = ws[i:k + 1]
                inside = {id(w) for w in part}
                heads = [w for w in part if id(w.head) not in inside]
                rest = [w for w in part if id(w.head) in inside and any(id(c) not in inside for c in s.kids(w))]
                if len(heads) > 1:
                    for w in heads:
                        w.misc['ToDo'] = 'NonCatenaCompound'
                elif rest:
                    for w in rest:
                        w.misc['ToDo'] = 'HasChildrenOutsideCompound'
                else:
                    for w in part[1::2]:
                        remove(s, w, w.head)
                    s.mwts.append((part[0::2], ''.join(w.form for w in part)))
                    done = True
                i = k
            i += 1
        if done:
            s.text = 'recomputed'

    def run(g):
        judge(g, AddHyphenMwt(), docs(g, make), model, texts=False)
    run(g)


def f_tokens(g):
    g.choice([f_dot, f_ordinal, f_exclamation, f_hyphen])(g)


# ---------------------------------------------------------------- files and reports
def f_translation(g):
    tr = [g.choice(['Hello.', 'x = y', 'žluť', ' two  spaces', '# no', '']) for _ in range(g.int(0, 5))]
    overwrite = g.bool()
    used = [0]

    def make():
        s = gen(g, lambda i, h: {}, edges=0)
        for c in g.subset(['# note a', '# text_en = old', '# text_english = no', '# text_cs = ne', '# x text_en = no'], 0.4):
            s.comments.append(c)
        return s
    documents = docs(g, make)

    def model(s):
        if used[0] < len(tr):
            line = f'# text_en = {tr[used[0]]}'
            used[0] += 1
            at = [i for i, c in enumerate(s.comments) if re.match(r'# ?text_en\s*=', c)]
            if not at:
                s.comments.append(line)
                s.changed = True
            elif overwrite:
                s.comments[at[0]] = line
    d = tempfile.mkdtemp()
    try:
        path = os.path.join(d, 'tr.txt')
        with open(path, 'w', encoding='utf-8', newline='') as f:
            last = '\n' if g.bool(0.7) or tr and tr[-1] == '' else ''
            f.write('\n'.join(tr) + (last if tr else ''))
        block = SetTranslation(path, **(dict(overwrite=1) if overwrite else {}))
        texts = [''.join(s.ser() for s in x) for x in documents]
        loaded = [load(t) for t in texts]
        for x in documents:
            for s in x:
                model(s)
        n = sum(len(s.words) for x in documents for s in x)
        g.note(f'SetTranslation {tr} overwrite={overwrite}\n' + ''.join(texts), n >= 3 and used[0] > 0, key=(str(tr), overwrite, str(texts)))
        for x, doc in zip(documents, loaded):
            run_block(block, doc)
            strip = lambda cs: [c.rstrip() for c in cs]
            sents = parse_conllu(conllu(doc))
            eq(len(sents), len(x), 'sentences')
            for s, got in zip(x, sents):
                eq(strip([c for c in got['comments'] if c != '# text = stored text']), strip(s.comments), f'comments with translations {tr}, overwrite={overwrite}')
                eq(got['rows'], s.rows(), 'words')
    finally:
        shutil.rmtree(d)


def f_printfixed(g):
    only = g.bool()
    vocab = ['as', 'well', 'of', 'a']

    def make():
        s = gen(g, lambda i, h: dict(form=g.choice(list(vocab) + ['As']), upos=g.choice(['ADP', 'ADV']), deprel='fixed' + g.choice(['', ':x']) if h and h < i and g.bool(0.5) else g.choice(['dep', 'conj', 'nmod:x'])), edges=0)
        return s
    known = None
    if g.bool(0.6):
        few = g.choice([vocab, vocab[:1], vocab[:2]])
        vocab = few
        known = [' '.join(g.choice(few) for _ in range(g.weighted([(4, 2), (4, 3), (3, 4), (2, 5), (2, 6), (1, 8)]))) for _ in range(g.int(1, 4))]
        if g.bool(0.2):
            known.append(g.choice(known))

    def model(s):
        out = []
        for i, w in enumerate(s.words):
            fixed = [k for k, x in enumerate(s.words) if x.head is w and x.u == 'fixed']
            if fixed:
                part = [(x.form.lower(), x.upos) if k == i or k in fixed else ('X', 'X') for k, x in enumerate(s.words[:fixed[-1] + 1]) if k >= i]
                note = w.deprel
            else:
                hits = [n for n in range(2, len(s.words) - i + 1) if known and ' '.join(x.form.lower() for x in s.words[i:i + n]) in known]
                if not hits:
                    continue
                part = [(x.form.lower(), x.upos) for x in s.words[i:i + hits[0]]]
                note = 'NOT FIXED'
            forms, tags = (' '.join(x) for x in zip(*part))
            out.append(forms if only else f'{forms} / {tags} / {note}')
        return out
    d = tempfile.mkdtemp()
    try:
        kw = {}
        if known:
            kw['known_expressions'] = os.path.join(d, 'known.txt')
            with open(kw['known_expressions'], 'w', encoding='utf-8') as f:
                f.write('\n'.join(known) + '\n')
        if only:
            kw['only_forms'] = 1
        block = PrintFixed(**kw)
    finally:
        shutil.rmtree(d)
    judge(g, block, docs(g, make), model, f' {only} {known}', printed=True)


def f_findbug(g):
    """The first (or every) bundle on which the other block fails is printed as it was, and the document stays as it was."""
    s = [gen(g, lambda i, h: dict(form=g.weighted([(6, 'a'), (1, 'bad'), (2, 'b')])), edges=0.2, empties=0.1, mwts=0.2) for _ in range(g.int(1, 5))]
    for i, x in enumerate(s, 1):
        x.comments.append(f'# sent_id = s{i}')
        if g.bool(0.3):
            x.comments.append('# note')
    first = g.weighted([(2, None), (1, True), (3, False)])
    code = g.choice(['1/0 if node.form == "bad" else 0', 'node.form = "x" if node.form != "bad" else [][1]', 'node.misc["Y"] = {"a": 1, "b": 2}[node.form]'])
    text = ''.join(x.ser() for x in s)
    doc = load(text)
    bad = [x.ser() for x in s if any(w.form == 'bad' for w in x.words)]
    kw = {} if first is None else dict(first_error_only=first)
    block = FindBug('util.Eval', node=code, **kw)
    raised = False
    g.note(f'{code} {first}\n{text}', len(bad) > 0 and len(s) > 1, key=(code, first, text))
    fh = io.StringIO()
    with stdout_to(fh):
        try:
            block.process_document(doc)
        except (ZeroDivisionError, IndexError, KeyError):
            raised = True
    got = fh.getvalue()
    eq(raised, bool(bad) and first is not False, 'the error is raised')
    eq(got, ''.join(bad if first is False else bad[:1]), f'the bundles with a bug in {code}')
    eq(conllu(doc), text, 'the document after looking for bugs')


FACETS = {
    'tables': facet(f_tables, 3000),
    'enhanced': facet(f_enhanced, 800),
    'compound': facet(f_compound, 1200),
    'pseudocop': facet(f_pseudocop, 2500),
    'mwe': facet(f_mwe, 2000),
    'tokens': facet(f_tokens, 3000),
    'translation': facet(f_translation, 600),
    'printfixed': facet(f_printfixed, 1000),
    'findbug': facet(f_findbug, 600),
}

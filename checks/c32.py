"""C32: consistency checks mark exactly the offending words."""
import re
from vf.engine import check, eq, Violation, assume
from vf.gens import *
from vf.util import facet
from udapi.block.ud.markbugs import MarkBugs
from udapi.block.ud.markfeatsbugs import MarkFeatsBugs

RULE = ('1-3 documents of 1-4 sentences (1-9, sometimes more words, any tree shape, one or two zones) labelled from small sets of tags, relations, features and forms near the rules, '
        'checked with random tests=, skip= and max_cop_lemmas= by one block object and compared with the rules written independently; non-trivial = at least one word is marked and at least one is not; '
        'distinct by documents and options')
ASSUMPTIONS = ['every word has a form, a tag and a relation', 'copula lemmas with the same number of occurrences around the limit may be reported in any way which keeps the number of the kept ones']
UP = ['NOUN', 'VERB', 'PUNCT', 'AUX', 'PRON', 'DET', 'NUM', 'SYM', 'ADP', 'X']
DEP = ['aux', 'aux:pass', 'fixed', 'goeswith', 'list', 'flat', 'flat:name', 'conj', 'appos', 'cop', 'mark', 'det', 'punct', 'nsubj', 'csubj', 'nsubj:outer', 'nsubj:pass', 'obj', 'ccomp', 'iobj', 'clf', 'case',
       'case:x', 'cc', 'advmod', 'root', 'dep', 'subj', 'obj:x', 'list:a', 'goeswith:b']
NAMES = ['PronType', 'NumType', 'VerbForm', 'Mood']
FORMS = ['a', 'b', '.', ',', '%', '$a', 'km', '1', 'č', '_', 'x.']
LEMMAS = ['be', 'être', 'být', 'ser', '_', 'estar']
TESTS = [None, None, None, '', '.*', 'aux-chain|cop-upos', 'no-', 'chain$', '^punct', 'child', 'cop', 'gap', 'multi', 'x', '-nonproj$', 'det']
SKIP = [None, None, None, '', 'no-(VerbForm|NumType|PronType)', 'punct', 'chain', 'child$', 'cop-many', '.', 'rightheaded', '^no']


class N:
    def __init__(self, **kw):
        self.__dict__.update(kw)

    @property
    def u(self):
        return self.deprel.split(':')[0]

    @property
    def s(self):
        return self.deprel.split(':', 1)[1] if ':' in self.deprel else ''


def gen(g, zone):
    n = heads_size(g, 1, 9)
    heads = gen_heads(g, n)
    nodes = [N(i=0, head=None, deprel='', upos='', form='', lemma='', feats={}, bug='', nospace=False)]
    for i, h in enumerate(heads, 1):
        names = [x for x in NAMES if g.bool(0.4)]
        nodes.append(N(i=i, head=h, deprel=g.choice(DEP), upos=g.choice(UP), form=g.choice(FORMS), lemma=g.choice(LEMMAS),
                       feats={x: ('Fin' if x == 'VerbForm' and g.bool(0.6) else 'Ind') for x in names},
                       bug=g.weighted([(12, ''), (1, 'old'), (1, 'aux-chain'), (1, 'x,no-Mood')]), nospace=g.bool(0.2)))
    return nodes


def text_of(nodes, sid):
    out = f'# sent_id = {sid}\n'
    for x in nodes[1:]:
        misc = '|'.join(([f'Bug={x.bug}'] if x.bug else []) + (['Gloss=g'] if x.i % 3 == 0 else []) + (['SpaceAfter=No'] if x.nospace else []))
        out += '\t'.join([str(x.i), x.form, x.lemma, x.upos, '_', '|'.join(f'{a}={b}' for a, b in sorted(x.feats.items(), key=lambda p: p[0].lower())) or '_', str(x.head), x.deprel, '_', misc or '_']) + '\n'
    return out + '\n'


def rules(nodes, zone):
    """[(word, short message)] in the order of the words; independent formulation of the rules."""
    out = []
    kids = {x.i: [y for y in nodes[1:] if y.head == x.i] for x in nodes}

    def dominated(i, top):
        while i != top and i:
            i = nodes[i].head
        return i == top

    def nonproj(x):
        lo, hi = sorted((x.i, x.head))
        return any(not dominated(k, x.head) for k in range(lo + 1, hi))

    def gap(x):          # inside the span of an edge x does not belong to
        if x.i == 0:
            return False
        for y in nodes[1:]:
            lo, hi = sorted((y.i, y.head))
            if lo < x.i < hi and not dominated(x.i, y.head):
                return True
        return False
    for x in nodes[1:]:
        p = nodes[x.head]

        def bug(m, w=x):
            out.append((w.i, m))
        for d in ('aux', 'fixed', 'goeswith', 'list'):
            if x.u == d == p.u:
                bug(d + '-chain')
        if x.u in ('flat', 'fixed', 'conj', 'appos', 'goeswith', 'list') and x.i < p.i:
            bug(x.u + '-rightheaded')
        if x.u == 'cop' and x.upos not in ('AUX', 'PRON'):
            bug('cop-upos')
        if x.u == 'mark' and x.upos == 'PRON':
            bug('mark-upos')
        if x.u == 'det' and x.upos not in ('DET', 'PRON'):
            bug('det-upos')
        if x.u == 'punct' and x.upos != 'PUNCT':
            bug('punct-upos')
        need = {'PRON': 'PronType', 'DET': 'PronType', 'NUM': 'NumType', 'VERB': 'VerbForm'}.get(x.upos)
        if need and need not in x.feats and not (need == 'VerbForm' and zone.split('_')[0] in ('id', 'jv', 'tl', 'hil', 'ifb')):
            bug('no-' + need)
        if x.feats.get('VerbForm') == 'Fin':
            if x.upos not in ('VERB', 'AUX'):
                bug('finverb-upos')
            if 'Mood' not in x.feats:
                bug('finverb-mood')
        if sum('subj' in c.u and c.s != 'outer' for c in kids[x.i]) > 1:
            bug('multi-subj')
        if sum(c.u == 'obj' for c in kids[x.i]) > 1:
            bug('multi-obj')
        if p.u in ('aux', 'cop', 'mark', 'clf', 'case') and x.u not in ('conj', 'cc', 'punct', 'fixed', 'goeswith', 'advmod'):
            bug(p.deprel + '-child')
        if x.u == 'goeswith' and p.i < x.i:
            span = nodes[max(p.i, 0):x.i]          # the head and the words between
            other = [y for y in span[1:] if y.u != 'goeswith']
            if other:
                bug('goeswith-gap', other[0])
            else:
                for y in span:
                    if y.i and y.nospace:
                        bug('goeswith-space', y)
        if x.upos == 'SYM' and x.form.isalpha():
            bug('sym-alpha')
        if x.upos == 'PUNCT':
            if any(c.isalpha() for c in x.form):
                bug('punct-alpha')
            if x.u not in ('punct', 'fixed', 'goeswith', 'root'):
                bug('punct-deprel')
            if nonproj(x):
                bug('punct-nonproj')
            if gap(x) and not gap(p):
                bug('punct-nonproj-gap')
    return out


def f_markbugs(g):
    tests, skip, limit = g.choice(TESTS), g.choice(SKIP), g.choice([None, 0, 1, 2, 3])
    args = {k: v for k, v in (('tests', tests), ('skip', skip), ('max_cop_lemmas', limit)) if v is not None}
    stats = g.bool(0.85)
    if not stats:
        args['save_stats'] = 0
    block = MarkBugs(**args)
    on = lambda m: (not tests or re.search(tests, m)) and not (skip and re.search(skip, m))
    limit = 2 if limit is None else limit
    marked = total = 0
    sample = ''
    for dn in range(g.int(1, 3) if g.bool(0.3) else 1):
        zones = g.choice([[''], ['en'], ['id'], ['jv_x'], ['en', 'id']])
        sents = []
        for k in range(g.int(1, 4)):
            for z in zones:
                sents.append((f's{k + 1}' + ('/' + z if z else ''), z, gen(g, z)))
        src = ''.join(text_of(n, sid) for sid, _, n in sents)
        sample += src
        doc = load(src)
        run_block(block, doc)
        msg = f'MarkBugs({args}) document {dn + 1}\n{src}'
        expected, count = [], {}
        cops = {}
        for k, (sid, z, nodes) in enumerate(sents):
            for i, m in rules(nodes, z):
                if on(m):
                    expected.append((k, i, m))
            for x in nodes[1:]:
                if x.u == 'cop':
                    cops.setdefault(x.lemma if x.lemma != '_' else x.form, []).append((k, x.i))
        order = sorted(cops, key=lambda l: -len(cops[l]))
        keep = set(order[:limit])
        if 0 < limit < len(order) and len(cops[order[limit - 1]]) == len(cops[order[limit]]):
            tie = len(cops[order[limit]])
            amb = {l for l in order if len(cops[l]) == tie}
            # which of the equally frequent lemmas were kept by the block
            if on('cop-many-lemmas'):
                trees = list(doc.trees)
                kept = {l for l in amb if not any('cop-many-lemmas' in trees[k].descendants[i - 1].misc['Bug'] for k, i in cops[l])}
                eq(len(kept | (keep - amb)), limit, f'number of kept copula lemmas; {msg}')
                keep = kept | (keep - amb)
        if on('cop-many-lemmas'):
            for l in order:
                if l not in keep:
                    expected += [(k, i, 'cop-many-lemmas') for k, i in cops[l]]
        # every report is counted; a word gets each mark once
        for _, _, m in expected:
            count[m] = count.get(m, 0) + 1
        for k, (sid, z, nodes) in enumerate(sents):
            for x in nodes[1:]:
                bugs = x.bug
                for kk, i, m in expected:
                    if (kk, i) == (k, x.i) and m not in bugs.split(','):
                        bugs += (',' if bugs else '') + m
                if bugs != x.bug:
                    marked += 1
                total += 1
                x.new = bugs
        got = parse_conllu(conllu(doc))
        want = parse_conllu(src)
        for (sid, z, nodes), a, b in zip(sents, got, want):
            for x, r, s in zip(nodes[1:], a['rows'], b['rows']):
                eq(r[:9], s[:9], f'columns of word {x.i} of {sid}; {msg}')
                m = dict(y.split('=', 1) for y in r[9].split('|')) if r[9] != '_' else {}
                o = dict(y.split('=', 1) for y in s[9].split('|')) if s[9] != '_' else {}
                eq(sorted(m.pop('Bug', '').split(',')), sorted(x.new.split(',')), f'marks of word {x.i} of {sid}; {msg}')
                o.pop('Bug', None)
                eq(m, o, f'MISC of word {x.i} of {sid}; {msg}')
        if stats:
            table = dict((l.split()[0], int(l.split()[1])) for l in doc.meta['bugs'].split('\n')[1:] if l.strip())
            eq(table.pop('TOTAL'), sum(count.values()), f'total; {msg}')
            eq(table, count, f'overview; {msg}')
        else:
            check('bugs' not in doc.meta, f'overview stored despite save_stats=0; {msg}')
    g.note(f'{args}\n{sample}', 0 < marked < total)


def f_feats(g):
    """The services of ud.MarkFeatsBugs with generated rules."""
    allowed = {n: g.subset(['A', 'B', 'C'], 0.6) for n in g.subset(['Case', 'Number', 'Gender', 'Poss'], 0.6)}
    required = g.subset(['Case', 'Number', 'Gender', 'X'], 0.4)

    class Mine(MarkFeatsBugs):
        def process_node(self, node):
            if node.upos == 'NOUN':
                self.check_required_features(node, required)
                self.check_allowed_features(node, allowed)
    src, model = '', []
    n = heads_size(g, 1, 9)
    for i, h in enumerate(gen_heads(g, n), 1):
        feats = {x: g.choice(['A', 'B', 'C', 'D', '1,2']) for x in ['Case', 'Gender', 'Number', 'Poss', 'Tense'] if g.bool(0.4)}
        bug = g.weighted([(6, ''), (1, 'FeatCaseMissing'), (1, 'old'), (1, 'old+FeatTenseNotAllowed')])
        up = g.choice(['NOUN', 'NOUN', 'VERB'])
        src += '\t'.join([str(i), 'f', 'l', up, '_', '|'.join(f'{a}={b}' for a, b in feats.items()) or '_', str(h), 'dep', '_', f'Bug={bug}|Q=1' if bug else '_']) + '\n'
        marks = []
        if up == 'NOUN':
            marks = [f'Feat{x}Missing' for x in required if x not in feats]
            marks += [f'Feat{x}NotAllowed' if x not in allowed else f'Feat{x}Value{v}NotAllowed' for x, v in feats.items() if x not in allowed or v not in allowed[x]]
        model.append((bug, marks))
    doc = load(src + '\n')
    again = g.bool(0.3)
    for _ in range(2 if again else 1):
        run_block(Mine(), doc)
    msg = f'allowed={allowed} required={required}\n{src}'
    g.note(msg, any(m for _, m in model) and any(not m for _, m in model))
    for (bug, marks), r, s in zip(model, parse_conllu(conllu(doc))[0]['rows'], src.split('\n')):
        eq(r[:9], s.split('\t')[:9], f'columns; {msg}')
        want = [x for x in bug.split('+') if x] + [m for m in dict.fromkeys(marks) if m not in bug.split('+')]
        got = dict(y.split('=', 1) for y in r[9].split('|')) if r[9] != '_' else {}
        eq(sorted(x for x in got.pop('Bug', '').split('+') if x), sorted(want), f'marks; {msg}')
        eq(got, {'Q': '1'} if bug else {}, f'MISC; {msg}')


FACETS = {
    'markbugs': facet(f_markbugs, 9000),
    'feats': facet(f_feats, 4000),
}

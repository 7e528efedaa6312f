"""C26: the repair blocks establish their property on a valid tree."""
import re
from vf.engine import check, eq, Violation, assume
from vf.gens import *
from vf.util import facet
from udapi.block.ud.fixroot import FixRoot
from udapi.block.ud.fixchain import FixChain
from udapi.block.ud.fixrightheaded import FixRightheaded
from udapi.block.ud.fixleaf import FixLeaf
from udapi.block.ud.fixpunct import FixPunct
from udapi.block.ud.fixpunctchild import FixPunctChild
from udapi.block.ud.fixmultisubjects import FixMultiSubjects

RULE = ('documents of 1-3 sentences (0-9, sometimes up to 25 words, any tree shape, tokens, empty nodes, DEPS) with relations drawn mostly from those the block repairs, '
        'run through the block and compared with a definition of the repaired tree or, for the heuristic blocks, with the target property and the frame condition; '
        'non-trivial = the block has to change at least one word; distinct by trees and labels')
ASSUMPTIONS = ['every word has a relation', 'punctuation attachment: the sentence has at least one word which is not punctuation']


PAIRS = {'(': ')', '[': ']', '"': '"', '“': '”', '«': '»', "'": "'", '„': '“', '¿': '?'}


class T:
    """Heads and relations of one tree (1-based; index 0 = root)."""

    def __init__(self, root):
        self.n = len(root.descendants)
        self.h = [None] + [w.parent.ord for w in root.descendants]
        self.d = [root.deprel] + [w.deprel for w in root.descendants]

    def u(self, i):
        return self.d[i].split(':')[0]

    def ch(self, i):
        return [k for k in range(1, self.n + 1) if self.h[k] == i]

    def key(self):
        return (tuple(self.h), tuple(self.d))

    def anc(self, i):
        while i:
            i = self.h[i]
            yield i


def gen_doc(g, rels, nmax=9, p_rel=0.7, empty_tree=True, empties=0.25):
    doc = new_doc()
    for _ in range(g.weighted([(5, 1), (2, 2), (1, 3)])):
        if empty_tree and g.bool(0.06):
            doc.create_bundle().create_tree()
            continue
        s = gen_sentence(g, nmax=nmax if g.bool(0.94) else 25, odd=0.05, empties=empties, deps=0.4)
        for w in s['words']:
            w['deprel'] = g.choice(rels) if g.bool(p_rel) else g.choice(['dep', 'nsubj', 'root', 'obj', 'punct', 'conj', 'acl:relcl'])
        for b in load(ser_sentence(s)).bundles:
            nb = doc.create_bundle()
            for t in b.trees:
                nb.add_tree(t)
    if g.bool(0.15):     # a second zone
        b = g.choice(doc.bundles)
        s = gen_sentence(g, nmax=4, empties=0)
        for w in s['words']:
            w['deprel'] = g.choice(rels)
        t = load(ser_sentence(s)).bundles[0].trees[0]
        t.zone = 'cs'
        b.add_tree(t)
    return doc


def trees_of(doc):
    return [t for b in doc.bundles for t in b.trees]


def frame(root, deps):
    """Everything except heads and relations."""
    s = snap(root, deps=deps)
    rows = [(r[0],) + r[1:6] + r[7:8] + ((r[9],) if deps else ()) for r in s['rows']]
    return (rows, s['empties'] if deps else [e[:-1] for e in s['empties']], s['mwts'], s['text'], s['comment'], s['newdoc'], s['newpar'], s['zone'])


def edges_of(root):
    return [[(str(e['parent'].ord), e['deprel']) for e in w.deps] for w in list(root.descendants) + list(root.empty_nodes)]


def compare(g, doc, block, model, deps_model=None):
    trees = trees_of(doc)
    before, frames, expected = [], [], []
    ids = [[id(w) for w in t.descendants] for t in trees]
    e_before = [edges_of(t) for t in trees] if deps_model else None
    for t in trees:
        m = T(t)
        k = m.key()
        moved = model(m)
        before.append(k)
        expected.append((m, moved))
        frames.append(frame(t, deps_model is None))
    g.note(dict(block=type(block).__name__, trees=[[' '.join(f'{a}:{b}' for a, b in zip(k[0][1:], k[1][1:]))] for k in before]),
           any(m.key() != k for (m, _), k in zip(expected, before)), key=(type(block).__name__, str(sorted(vars(block).items(), key=str)), str(before)))
    for (m, _), k in zip(expected, before):
        g.tag('changed' if m.key() != k else 'already fine')
    run_block(block, doc)
    eq(len(trees_of(doc)), len(trees), 'number of trees')
    for i, t in enumerate(trees):
        check_wf(t)
        eq([id(w) for w in t.descendants], ids[i], 'words and their order')
        r = T(t)
        eq(list(zip(r.h, r.d))[1:], list(zip(expected[i][0].h, expected[i][0].d))[1:], f'(head, relation) after {type(block).__name__} on {before[i]}')
        eq(frame(t, deps_model is None), frames[i], 'everything else')
        if deps_model:
            eq(edges_of(t), deps_model(expected[i][1], e_before[i], T.__new__(T)), 'enhanced dependencies')
    again = conllu(doc)
    run_block(block, doc)
    eq(conllu(doc), again, 'running the block a second time')


# ---------------------------------------------------------------- exact blocks
def root_case(g):
    doc = gen_doc(g, ['root', 'root', 'root:x', 'dep', 'parataxis', 'rooted', 'nsubj'])

    def model(m):
        rc = m.ch(0)
        if not rc:
            return
        for k in rc[1:]:
            m.h[k], m.d[k] = rc[0], 'parataxis'
        if m.u(rc[0]) != 'root':
            m.d[rc[0]] = 'root'
        for k in range(1, m.n + 1):
            if k != rc[0] and m.u(k) == 'root':
                m.d[k] = 'parataxis'
    compare(g, doc, FixRoot(), model)


def rels_param(g, default, pool):
    if g.bool(0.6):
        return default, {}
    rels = g.subset(pool, 0.5, 1)
    return list(rels), dict(deprels=','.join(rels))


def chain_case(g):
    rels, kw = rels_param(g, ['fixed', 'flat', 'goeswith', 'list'], ['fixed', 'flat', 'goeswith', 'list', 'conj', 'compound'])
    few = g.subset(['flat', 'fixed', 'goeswith', 'list', 'conj', 'compound'], 0.3, 1)
    doc = gen_doc(g, [r for x in few for r in (x, x, x + ':name')], p_rel=0.85)

    def model(m):
        h = list(m.h)
        for k in range(1, m.n + 1):
            if m.u(k) in rels:
                h[k] = next(a for a in m.anc(k) if a == 0 or m.u(a) != m.u(k))
        m.h = h
    compare(g, doc, FixChain(**kw), model)
    for t in trees_of(doc):
        m = T(t)
        for k in range(1, m.n + 1):
            check(not (m.u(k) in rels and m.h[k] and m.u(m.h[k]) == m.u(k)), f'{m.d[k]} chain at word {k}: {m.key()}')


def leaf_case(g):
    default = ['aux', 'cop', 'case', 'mark', 'cc']
    rels, kw = rels_param(g, default, default + ['det', 'punct', 'discourse'])
    doc = gen_doc(g, ['aux', 'cop', 'case', 'mark', 'cc', 'aux:pass', 'fixed', 'punct', 'goeswith', 'reparandum', 'conj', 'cc:preconj', 'det', 'dep', 'obl'], p_rel=0.9)

    def model(m):
        h, moved = list(m.h), {}
        for k in range(1, m.n + 1):
            f = m.h[k]
            if f and m.u(f) in rels:
                ok = {'fixed', 'punct', 'goeswith', 'reparandum'} | ({'conj', 'cc'} if m.u(f) != 'cc' else set())
                if m.u(k) not in ok:
                    h[k] = next(a for a in m.anc(f) if a == 0 or m.u(a) not in rels)
                    moved[k] = (f, h[k])
        m.h = h
        return moved

    def deps_model(moved, edges, _):
        out = [list(e) for e in edges]
        for k, (f, a) in moved.items():
            out[k - 1] = [(str(a) if p == str(f) else p, r) for p, r in out[k - 1]]
        return out
    compare(g, doc, FixLeaf(**kw), model, deps_model)


def punctchild_case(g):
    doc = gen_doc(g, ['punct', 'punct', 'dep', 'punct:x', 'root'], p_rel=0.9)

    def model(m):
        h = list(m.h)
        for k in range(1, m.n + 1):
            h[k] = next(a for a in m.anc(k) if a == 0 or m.d[a] != 'punct')
        m.h = h
    compare(g, doc, FixPunctChild(), model)


def subjects_case(g):
    doc = gen_doc(g, ['nsubj', 'nsubj', 'csubj', 'nsubj:pass', 'csubj:outer', 'nsubj:outer', 'csubj:pass', 'subj', 'nsubjx', 'expl'], p_rel=0.85)

    def model(m):
        for k in range(1, m.n + 1):
            subj = [c for c in m.ch(k) if m.u(c) in ('nsubj', 'csubj') and not m.d[c].endswith(':outer')]
            for c in subj[1:]:
                m.d[c] = 'obl' if m.d[c][0] == 'n' else 'advcl'
    compare(g, doc, FixMultiSubjects(), model)


# ---------------------------------------------------------------- right-headed relations
def right_case(g):
    default = ['flat', 'fixed', 'appos', 'goeswith', 'list']
    rels, kw = rels_param(g, default, default + ['conj'])
    few = g.subset(default + ['conj', 'dep'], 0.35, 1)
    doc = gen_doc(g, [r for x in few for r in (x, x, x + ':name')], p_rel=0.8)
    trees = trees_of(doc)
    before = [T(t) for t in trees]
    frames = [frame(t, True) for t in trees]
    ids = [[id(w) for w in t.descendants] for t in trees]
    bad = [[k for k in range(1, m.n + 1) if m.u(k) in rels and k < m.h[k]] for m in before]
    g.note(dict(block='FixRightheaded', trees=[str(m.key()) for m in before], bad=bad), any(bad), key=('R', str(sorted(rels)), str([m.key() for m in before])))
    run_block(FixRightheaded(**kw), doc)
    for t, m, f, i, b in zip(trees, before, frames, ids, bad):
        check_wf(t)
        eq([id(w) for w in t.descendants], i, 'words and their order')
        r = T(t)
        for k in range(1, r.n + 1):
            check(not (r.u(k) in rels and r.h[k] > k), f'word {k} ({r.d[k]}) still precedes its head {r.h[k]}: {m.key()} -> {r.key()}')
        eq(frame(t, True), f, 'everything else')
        eq(sorted(r.d[1:]), sorted(m.d[1:]), 'the relations of the sentence')
        eq(len(r.ch(0)), len(m.ch(0)), 'number of root children')
        g.tag('right-headed' if b else 'already fine')
        if not b:
            eq(r.key(), m.key(), 'tree without right-headed relations')
        # the whole phrase stays where it was: words which are neither right-headed nor a head of such a word nor their sisters keep head and relation
        touched = set()
        for k in b:
            # climb while swapping is possible
            top = m.h[k]
            touched |= {k, top} | set(m.ch(top))
            while top and m.u(top) in rels:
                top = m.h[top]
                touched |= {top} | set(m.ch(top))
        for k in range(1, m.n + 1):
            if k not in touched:
                eq((r.h[k], r.d[k]), (m.h[k], m.d[k]), f'head and relation of word {k}, not involved: {m.key()} -> {r.key()}')
        if len(b) == 1:
            k = b[0]
            p = m.h[k]
            if m.u(p) not in rels:      # a single swap, fully determined
                h, d = list(m.h), list(m.d)
                h[k] = m.h[p]
                if m.u(k) != 'conj':
                    for c in m.ch(p):
                        if c != k:
                            h[c] = k
                h[p] = k
                d[k], d[p] = m.d[p], m.d[k]
                g.tag('single swap')
                exp_bad = [c for c in range(1, m.n + 1) if d[c].split(':')[0] in rels and c < h[c]]
                if not exp_bad:
                    eq((r.h[1:], r.d[1:]), (h[1:], d[1:]), f'single swap of {k} and {p} in {m.key()}')


# ---------------------------------------------------------------- punctuation
def nonproj(h, k):
    """A word between k and its head is not dominated by the head."""
    p = h[k]
    if not p:
        return False
    for x in range(min(k, p) + 1, max(k, p)):
        a = x
        while a and a != p:
            a = h[a]
        if a != p:
            return True
    return False


def gap(h, k):
    """k lies under an edge whose head does not dominate it."""
    for c in range(1, len(h)):
        p = h[c]
        if p and min(c, p) < k < max(c, p):
            a = k
            while a and a != p:
                a = h[a]
            if a != p:
                return True
    return False


def punct_forms(g, n, paired):
    out = []
    if paired and n > 2 and g.bool(0.4):      # just one pair
        a = g.int(1, n - 2)
        b = g.int(a + 2, n)
        o, c = g.choice(['()', '[]', '""', '“”', '«»', "''", '„“', '¿?'])
        return [(o, True) if i == a else (c, True) if i == b else ('w', False) for i in range(1, n + 1)]

    def seg(k):
        while k > 0:
            if paired and k >= 3 and g.bool(0.35):
                inner = g.int(1, k - 2)
                a, b = g.choice(['()', '[]', '""', '“”', '«»', "''", '„“', '¿?'])
                out.append((a, True))
                seg(inner)
                out.append((b, True))
                k -= inner + 2
                continue
            prev = out and out[-1][1]
            if g.bool(0.35) and not prev:
                out.append((g.choice([',', '-', ';', ':', '.', '?', '!'] if any(not p for _, p in out) else [',', '-', ';']), True))
            else:
                out.append(('w', False))
            k -= 1
    seg(n)
    return out


def punct_case(g, paired):
    doc = new_doc()
    cases = []
    for _ in range(g.weighted([(4, 1), (2, 2), (1, 3)])):
        fs = punct_forms(g, g.size(1, 9) if g.bool(0.93) else g.int(10, 22), paired)
        words = [i for i, (f, p) in enumerate(fs, 1) if not p]
        if not words:
            fs.append(('w', False))
            words = [len(fs)]
        m = len(words)
        order = g.perm(list(range(m)))
        if g.bool(0.6):
            hs = single_proj(g, m)
        else:
            hs = [0] * m
            for k, w in enumerate(order):
                hs[w] = 0 if k == 0 else order[g.draw(k)] + 1
        top = words[hs.index(0)]
        root = doc.create_bundle().create_tree()
        empty = g.bool(0.2)
        ws = [root.create_child(form=f if p else f'w{i}', upos='PUNCT' if p else 'NOUN', deprel='punct' if p else g.choice(['dep', 'nsubj', 'acl'])) for i, (f, p) in enumerate(fs, 1)]
        for i, h in zip(words, hs):
            if h:
                ws[i - 1].parent = ws[words[h - 1] - 1]
            else:
                ws[i - 1].deprel = 'root'
        flat = g.bool(0.2)
        for i, (f, p) in enumerate(fs, 1):
            if p:
                ws[i - 1].parent = ws[(top if flat else g.choice(words)) - 1]
                if not flat and g.bool(0.15):     # punctuation under punctuation
                    c = g.choice([k for k, (_, q) in enumerate(fs, 1) if q])
                    if c != i and not ws[c - 1].is_descendant_of(ws[i - 1]):
                        ws[i - 1].parent = ws[c - 1]
        if empty:
            ws[0].create_empty_child('dep', form='E')
        if len(ws) > 2 and g.bool(0.2):
            root.create_multiword_token(ws[1:3], 'xx')
        cases.append((root, fs, words, empty))
    return doc, cases


def single_proj(g, n):
    heads = [0] * n

    def rec(lo, hi, par):
        if lo > hi:
            return
        r = g.int(lo, hi)
        heads[r - 1] = par
        for a, b in ((lo, r - 1), (r + 1, hi)):
            while a <= b:
                e = g.int(a, b)
                rec(a, e, r)
                a = e + 1
    rec(1, n, 0)
    return heads


def punct_common(g, doc, cases, kw):
    copy = kw.get('copy_to_enhanced')
    befores = []
    for root, fs, words, _ in cases:
        befores.append((T(root), frame(root, not copy), [id(w) for w in root.descendants]))
    run_block(FixPunct(**kw), doc)
    for (root, fs, words, _), (m, f, ids) in zip(cases, befores):
        check_wf(root)
        eq([id(w) for w in root.descendants], ids, 'words and their order')
        r = T(root)
        eq(frame(root, not copy), f, 'everything else')
        if copy:
            for w in root.descendants:
                if w.upos == 'PUNCT':
                    eq(edges_of(root)[w.ord - 1], [(str(w.parent.ord), w.deprel)], f'enhanced dependency of the punctuation {w.ord}')
                elif w.deprel == m.d[w.ord]:
                    eq(w.raw_deps, '_', f'enhanced dependencies of word {w.ord}')
        eq([w.deprel for w in root.descendants if w.parent.is_root()], ['root'], f'root child: {m.key()} -> {r.key()}')
        yield root, fs, words, m, r


def punct_simple(g):
    """Unpaired marks, never next to each other: all guarantees."""
    doc, cases = punct_case(g, False)
    kw = g.choice([{}, {}, dict(copy_to_enhanced=1), dict(check_paired_punct_upos=1)])
    g.note(dict(forms=[' '.join(f for f, _ in c[1]) for c in cases], kw=kw), any(any(p for _, p in c[1]) and len(c[2]) > 1 for c in cases),
           key=('P', str(kw), str([(T(c[0]).key(), c[1]) for c in cases])))
    for root, fs, words, m, r in punct_common(g, doc, cases, kw):
        desc = f'{[f for f, _ in fs]} {m.h[1:]} -> {r.h[1:]}'
        for k, (form, p) in enumerate(fs, 1):
            if not p:
                eq((r.h[k], r.d[k]), (m.h[k], m.d[k]), f'word {k} of {desc}')
                continue
            eq(r.d[k], 'punct', f'relation of mark {k} in {desc}')
            check(not r.ch(k), f'the mark {k} has dependents: {desc}')
            check(not nonproj(r.h, k), f'the mark {k} is attached non-projectively: {desc}')
            check(not (gap(r.h, k) and not gap(r.h, r.h[k])), f'the mark {k} causes a non-projective gap: {desc}')
            g.tag('moved' if r.h[k] != m.h[k] else 'kept')


def punct_paired(g):
    """Nested pairs: heads of words never change; a pair around one phrase attaches to the head of this phrase."""
    doc, cases = punct_case(g, True)
    kw = g.choice([{}, {}, dict(copy_to_enhanced=1), dict(check_paired_punct_upos=1)])
    g.note(dict(forms=[' '.join(f for f, _ in c[1]) for c in cases], kw=kw), any(any(p for _, p in c[1]) and len(c[2]) > 1 for c in cases),
           key=('PP', str(kw), str([(T(c[0]).key(), c[1]) for c in cases])))
    for root, fs, words, m, r in punct_common(g, doc, cases, kw):
        desc = f'{[f for f, _ in fs]} {m.h[1:]} -> {r.h[1:]}'
        for k, (form, p) in enumerate(fs, 1):
            if not p:
                eq((r.h[k], r.d[k]), (m.h[k], m.d[k]), f'word {k} of {desc}')
                continue
            eq(r.d[k], 'punct', f'relation of mark {k} in {desc}')
        marks = [k for k, (_, p) in enumerate(fs, 1) if p]
        if len(marks) == 2 and PAIRS.get(fs[marks[0] - 1][0]) == fs[marks[1] - 1][0]:
            o, k = marks
            g.tag('one pair')
            inside = [w for w in words if o < w < k]
            heads = {w for w in inside if not o < m.h[w] < k} | {m.h[w] for w in words if m.h[w] in inside and w not in inside}
            proj = not any(nonproj_words(m.h, words, w) for w in words)
            for x in marks if proj else ():
                check(not r.ch(x), f'the mark {x} has dependents: {desc}')
                check(not nonproj(r.h, x), f'the mark {x} is attached non-projectively: {desc}')
                check(not (gap(r.h, x) and not gap(r.h, r.h[x])), f'the mark {x} causes a non-projective gap: {desc}')
            if len(heads) == 1 and proj:
                h = heads.pop()
                g.tag('around one phrase')
                eq((r.h[o], r.h[k]), (h, h), f'heads of the marks {o} and {k} in {desc}')


def nonproj_words(h, words, k):
    p = h[k]
    if not p:
        return False
    for x in words:
        if min(k, p) < x < max(k, p):
            a = x
            while a and a != p:
                a = h[a]
            if a != p:
                return True
    return False


def heads_after(t, kw):
    """{word: head} for the words which are not punctuation: the nearest ancestor which is not punctuation."""
    pairs = '()[]{}“”„«»‹›《》「」『』¿?¡!'
    ws = t.descendants
    mark = {w.ord: w.upos == 'PUNCT' or not kw.get('check_paired_punct_upos') and len(w.form) == 1 and w.form in pairs for w in ws}
    exp = {}
    for w in ws:
        if not mark[w.ord]:
            a = w.parent
            while mark.get(a.ord):
                a = a.parent
            exp[w.ord] = a.ord or 'top'
    tops = [k for k, a in exp.items() if a == 'top']
    # The only word that can be the top of the sentence.
    if len(tops) == 1 and ws[tops[0] - 1].udeprel == 'root' and not any(mark[w.ord] and w.udeprel == 'root' for w in ws):
        exp[tops[0]] = 0
    return f'{[f"{w.form}/{w.upos}/{w.deprel}>{w.parent.ord}" for w in ws]} {kw}', exp


def punct_any(g):
    """Any words and marks, with any tags: never fails, only well-formed results with one root child."""
    doc = new_doc()
    pool = ['(', ')', '"', "'", ',', '.', '?', '[', ']', '“', '”', '„', '«', '»', '-', '!', '¿', 'a']
    trees = []
    for _ in range(g.weighted([(5, 1), (2, 2)])):
        n = g.size(0, 9)
        heads = gen_heads(g, n)
        few = g.choice(['()[]', '《》‹›', '«»“”', '()"\'', '「」『』', '„“‘’']) if g.bool(0.4) else pool
        root, nodes = build(heads, forms=[g.choice(few) if g.bool(0.6 if few is pool else 0.85) else f'w{i}' for i in range(n)], doc=doc,
                            deprels=[g.choice(['dep', 'punct', 'punct', 'root', 'root:x']) for _ in range(n)], upos=[g.choice(['PUNCT', 'PUNCT', 'NOUN', None]) for _ in range(n)])
        trees.append(root)
    kw = g.choice([{}, dict(copy_to_enhanced=1), dict(check_paired_punct_upos=1), dict(check_paired_punct_upos=1, copy_to_enhanced=1)])
    fr = [frame(t, not kw.get('copy_to_enhanced')) for t in trees]
    models = [heads_after(t, kw) for t in trees]
    g.note(dict(trees=[[f'{w.form}/{w.upos}/{w.deprel}' for w in t.descendants] for t in trees], kw=kw), any(len(t.descendants) > 1 for t in trees), key=('PA', str(kw), str(fr), str([T(t).key() for t in trees])))
    run_block(FixPunct(**kw), doc)
    for t, f, (desc, exp) in zip(trees, fr, models):
        check_wf(t)
        eq(frame(t, not kw.get('copy_to_enhanced')), f, 'words and their other attributes')
        for k, a in exp.items():
            if a == 'top':
                check(t.descendants[k - 1].parent.is_root() or t.descendants[k - 1].parent.parent.is_root(), lambda: f'word {k} of {desc}: attached to {t.descendants[k - 1].parent.ord}')
            else:
                eq(t.descendants[k - 1].parent.ord, a, f'head of the word {k} of {desc}')
        if t.descendants:
            eq([w.udeprel for w in t.children], ['root'], 'relations of the root children')


FACETS = {
    'root': facet(root_case, 1400), 'chain': facet(chain_case, 2000), 'leaf': facet(leaf_case, 1800), 'punctchild': facet(punctchild_case, 1400),
    'subjects': facet(subjects_case, 1400), 'right': facet(right_case, 3000), 'punct': facet(punct_simple, 6000), 'pairs': facet(punct_paired, 6000), 'any': facet(punct_any, 30000),
}

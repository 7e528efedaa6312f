"""C19: evaluation blocks report the scores defined over aligned words."""
import os
import re
import sys
import io
import tempfile
from collections import Counter
from vf.engine import check, eq, Violation, assume
from vf.gens import *
from vf.util import facet
from udapi.block.eval.parsing import Parsing
from udapi.block.eval.f1 import F1, find_lcs
from udapi.block.eval import conll17, conll18
from udapi.block.util.resegmentgold import ResegmentGold

RULE = ('pairs of gold and predicted trees (1-5 bundles, 0-9 words, predicted = mutated gold: changed heads, relations, tags, features, inserted, deleted, replaced '
        'words); non-trivial = the two differ and still share a word; distinct by both sides and options')
ASSUMPTIONS = ['the CoNLL scores are compared exactly when the alignment is forced (no form repeated in a sentence), otherwise through bounds',
               'focused F1 is compared exactly when no unfocused token is repeated, otherwise through the optimum as an upper bound',
               'printed percentages are compared with a tolerance of 0.011',
               'util.ResegmentGold: sentences have words, no predicted token crosses a gold sentence boundary']
CLAS17_IGNORE = {'aux', 'case', 'cc', 'clf', 'cop', 'det', 'mark', 'punct'}
CONTENT = {'nsubj', 'obj', 'iobj', 'csubj', 'ccomp', 'xcomp', 'obl', 'vocative', 'expl', 'dislocated', 'advcl', 'advmod', 'discourse', 'nmod', 'appos', 'nummod',
           'acl', 'amod', 'conj', 'fixed', 'flat', 'compound', 'list', 'parataxis', 'orphan', 'goeswith', 'reparandum', 'root', 'dep'}
FUNCTIONAL = {'aux', 'cop', 'mark', 'det', 'clf', 'case', 'cc'}
UNIV = {'PronType', 'NumType', 'Poss', 'Reflex', 'Foreign', 'Abbr', 'Gender', 'Animacy', 'Number', 'Case', 'Definite', 'Degree', 'VerbForm', 'Mood', 'Tense',
        'Aspect', 'Voice', 'Evident', 'Polarity', 'Person', 'Polite'}
RELS = ['nsubj', 'obj', 'det', 'case', 'punct', 'nsubj:pass', 'root', 'aux', 'mark', 'cc', 'advcl:relcl', 'cop', 'aux:pass', 'det:poss', 'acl', 'clf', 'unknown']
FEATS = ['_', 'Case=Nom', 'Case=Gen', 'Case=Nom|Foo=Bar', 'Foo=Bar', 'Foo=X|Number=Sing', 'Number=Sing', 'Gender=Fem|Number=Sing']


def gen_side(g, n, rels=RELS):
    return [dict(form=None, lemma=g.choice(['l', 'm', '_', 'k']), upos=g.choice(['NOUN', 'VERB', 'X']), xpos=g.choice(['_', 'x', 'y']), feats=g.choice(FEATS),
                 deprel=g.choice(rels), head=h) for h in gen_heads(g, n)]


def tie(words):
    """Replace head numbers by references to the words."""
    for w in words:
        w['h'] = words[w['head'] - 1] if w['head'] else None
    return words


def numbers(words):
    pos = {id(w): i for i, w in enumerate(words, 1)}
    for w in words:
        w['head'] = pos[id(w['h'])] if w['h'] is not None else 0
    return words


def clone(words):
    out = [dict(w) for w in words]
    return tie(out)


def mutate_attrs(g, words, p):
    for w in words:
        if g.bool(p):
            a = g.choice(['lemma', 'upos', 'xpos', 'feats', 'deprel', 'deprel'])
            w[a] = g.choice({'lemma': ['l', 'm', '_'], 'upos': ['NOUN', 'VERB', 'X'], 'xpos': ['_', 'x', 'y'], 'feats': FEATS, 'deprel': RELS}[a])


def regen_heads(g, words, p):
    n = len(words)
    for i, w in enumerate(words, 1):
        if g.bool(p):
            cand = [0] + [k for k in range(1, n + 1) if k != i]
            old = w['head']
            w['head'] = g.choice(cand)
            if not is_tree([x['head'] for x in words]):
                w['head'] = old
    tie(words)


def add_tree(bundle, zone, words):
    root = bundle.create_tree(zone)
    nodes = [root.create_child(form=w['form'], lemma=w['lemma'], upos=w['upos'], xpos=w['xpos'], feats=w['feats'], deprel=w['deprel']) for w in words]
    for node, w in zip(nodes, words):
        if w['head']:
            node.parent = nodes[w['head'] - 1]
    return root


def make_doc(pairs, gz='gold', pz='pred', gold_first=None, extra=None):
    doc = new_doc()
    for i, (go, pr) in enumerate(pairs):
        b = doc.create_bundle()
        order = [(gz, go), (pz, pr)]
        if gold_first is not None and not gold_first[i]:
            order.reverse()
        if extra and extra[i]:
            order.insert(extra[i] % 3, ('other', go[:1]))
        for z, ws in order:
            add_tree(b, z, [dict(w, head=0) for w in ws] if z == 'other' else ws)
    return doc


def run_all(g, cls, docs, **kw):
    """Run an evaluation block over several documents, through stdout, a file or a filehandle."""
    how = g.weighted([(4, 'stdout'), (1, 'file'), (1, 'filehandle')])
    if kw.get('print_raw') or len(docs) > 1 and how == 'file' and kw.get('print_raw'):
        how = 'stdout'
    fh = io.StringIO()
    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, 'out')
        if how == 'file':
            kw['files'] = path
        elif how == 'filehandle':
            kw['filehandle'] = open(path, 'wt', encoding='utf-8')
        with stdout_to(fh):
            me = sys.stdout
            b = cls(**kw)
            b.process_start()
            for doc in docs:
                b.apply_on_document(doc)
            b.process_end()
            check(sys.stdout is me, 'standard output not restored after the evaluation')
        if how == 'stdout':
            return b, fh.getvalue()
        eq(fh.getvalue(), '', 'printed to standard output although a file was requested')
        sys.stdout.flush()
        with open(path, encoding='utf-8') as f:
            return b, f.read()


def close(a, b, msg):
    if abs(float(a) - b) > 0.0111:
        raise Violation(f'{msg}: got {a}, expected {b}')


def pct(a, b):
    return 100 * a / b if b else 0


# ------------------------------------------------------------------ parsing
def naive_parsing(pairs):
    tot = uas = las = ulas = 0
    for go, pr in pairs:
        for a, b in zip(go, pr):
            tot += 1
            if a['head'] == b['head']:
                uas += 1
                las += a['deprel'] == b['deprel']
                ulas += a['deprel'].split(':')[0] == b['deprel'].split(':')[0]
    return tot, pct(uas, tot), pct(las, tot), pct(ulas, tot)


def parse_parsing(out):
    m = re.fullmatch(r'nodes = (\d+)\nUAS +=( *[\d.]+)\nLAS \(deprel\) +=( *[\d.]+)\nLAS \(udeprel\) +=( *[\d.]+)\n', out)
    check(m, 'unexpected output of eval.Parsing: ' + out)
    return [float(x) for x in m.groups()]


def split_docs(g, pairs):
    """Distribute the pairs over 1-3 documents."""
    if len(pairs) > 1 and g.bool(0.3):
        k = g.int(1, len(pairs) - 1)
        return [pairs[:k], pairs[k:]]
    return [pairs]


def f_parsing(g):
    pairs = []
    for _ in range(g.int(1, 5)):
        n = g.int(0, 8) if g.bool(0.9) else g.int(9, 30)
        go = tie(gen_side(g, n))
        for i, w in enumerate(go):
            w['form'] = 'w%d' % (i + 1)
        pr = clone(go)
        if g.bool(0.85):
            regen_heads(g, pr, g.choice([0.1, 0.5, 1]))
            mutate_attrs(g, pr, 0.3)
        pairs.append((go, pr))
    gz, pz = g.choice([('gold', 'pred'), ('', 'en'), ('en_gold', 'en_pred'), ('en', 'en_pred')])
    extra = [g.int(1, 3) if g.bool() else 0 for _ in pairs] if g.bool(0.3) else None
    kw = dict(gold_zone=gz)
    if extra and any(extra) or g.bool(0.3):
        kw['zones'] = pz
    same = all(a['head'] == b['head'] and a['deprel'] == b['deprel'] for go, pr in pairs for a, b in zip(go, pr))
    g.note(dict(gold=[[(w['head'], w['deprel']) for w in go] for go, _ in pairs], pred=[[(w['head'], w['deprel']) for w in pr] for _, pr in pairs], kw=kw),
           not same and any(go for go, _ in pairs))
    first = [g.bool() for _ in pairs]
    docs = [make_doc(ps, gz, pz, first, extra[len(pairs) - len(ps):] if extra else None) for ps in split_docs(g, pairs)]
    texts = [conllu(d) for d in docs]
    _, out = run_all(g, Parsing, docs, **kw)
    got = parse_parsing(out)
    want = naive_parsing(pairs)
    eq(int(got[0]), want[0], 'number of words')
    for x, y, name in zip(got[1:], want[1:], ('UAS', 'LAS', 'LAS (udeprel)')):
        close(x, y, name)
        check(0 <= x <= 100, f'{name} = {x}')
    check(got[1] >= got[3] >= got[2], 'UAS >= LAS(udeprel) >= LAS(deprel) does not hold')
    eq([conllu(d) for d in docs], texts, 'the evaluation changed the document')
    if same and want[0]:
        eq(got[1:], [100.0] * 3, 'identical analyses')
    if not extra:
        _, out2 = run_all(g, Parsing, [make_doc(pairs, gz, pz)], gold_zone=pz)
        eq(parse_parsing(out2), got, 'swapped sides')
    if g.bool(0.2):
        go, pr = pairs[0]
        longer = pr + [dict(form='x', lemma='x', upos='X', xpos='_', feats='_', deprel='dep', head=0, h=None)]
        a, b = (longer, go) if g.bool() else (go, longer)
        try:
            run_all(g, Parsing, [make_doc([(a, b)])], gold_zone='gold')
        except ValueError:
            g.tag('mismatch')
        else:
            raise Violation('trees with different numbers of words were evaluated without an error')


# ------------------------------------------------------------------ F1
def lcs_len(x, y, weight=lambda t: (0, 1)):
    """Best (weighted) common subsequence, weights compared lexicographically."""
    m, n = len(x), len(y)
    C = [[(0, 0)] * (n + 1) for _ in range(m + 1)]
    for i in range(1, m + 1):
        for j in range(1, n + 1):
            best = max(C[i - 1][j], C[i][j - 1])
            if x[i - 1] == y[j - 1]:
                a, b = weight(x[i - 1])
                c = C[i - 1][j - 1]
                best = max(best, (c[0] + a, c[1] + b))
            C[i][j] = best
    return C[m][n]


def is_subseq(x, y):
    it = iter(y)
    return all(t in it for t in x)


def f_lcs(g):
    alpha = g.choice(['ab', 'abc', 'abcdefgh'])
    x = g.list(lambda: g.choice(list(alpha)), 0, 9)
    y = g.list(lambda: g.choice(list(alpha)), 0, 9)
    if g.bool(0.3):
        y = x[:g.int(0, len(x))] + y
    g.note(dict(x=''.join(x), y=''.join(y)), bool(set(x) & set(y)) and x != y)
    got = find_lcs(list(x), list(y))
    check(is_subseq(got, x), f'find_lcs({x}, {y}) = {got} is not a subsequence of the first')
    check(is_subseq(got, y), f'find_lcs({x}, {y}) = {got} is not a subsequence of the second')
    eq(len(got), lcs_len(x, y)[1], f'length of find_lcs({x}, {y})')


def gen_f1_pair(g, unique, toks):
    n = g.int(0, 9)
    if unique:
        gold = g.perm(toks)[:n]
        pred = [t for t in gold if not g.bool(0.25)]
        rest = [t for t in toks if t not in gold]
        for t in g.perm(rest)[:g.int(0, 3)]:
            pred.insert(g.int(0, len(pred)), t)
    else:
        gold = [g.choice(toks[:g.choice([2, 4, len(toks)])]) for _ in range(n)]
        pred = list(gold)
        for _ in range(g.int(0, 4)):
            op = g.choice(['del', 'ins', 'sub', 'swap'])
            if op == 'ins' or not pred:
                pred.insert(g.int(0, len(pred)), g.choice(toks))
            else:
                k = g.int(0, len(pred) - 1)
                if op == 'del':
                    del pred[k]
                elif op == 'sub':
                    pred[k] = g.choice(toks)
                else:
                    pred[k], pred[-1] = pred[-1], pred[k]
    return gold, pred


def parse_f1(out):
    lines = out.split('\n')
    res = dict(details=[])
    m = re.fullmatch(r'Comparing predicted trees \(zone=(.*)\) with gold trees \(zone=(.*)\), sentences=(\d+)', lines[0])
    check(m, 'first line of eval.F1: ' + lines[0])
    res['head'] = m.groups()
    k = 1
    if lines[1] == '=== Details ===':
        k = 3
        while lines[k] != '=== Totals ===':
            f = lines[k].rsplit(None, 6)
            check(len(f) == 7, 'details line: ' + lines[k])
            res['details'].append((f[0].rstrip(),) + tuple(int(x) for x in f[1:4]) + tuple(float(x.rstrip('%')) for x in f[4:]))
            k += 1
        k += 1
    for name in ('predicted', 'gold', 'correct', 'precision', 'recall', 'F1'):
        a, _, b = lines[k].partition('=')
        eq(a.strip(), name)
        res[name] = float(b.strip().rstrip('%'))
        k += 1
    eq(lines[k:], [''], 'rest of the output of eval.F1')
    return res


def f_f1(g):
    attributes = g.choice(['form', 'form', 'lemma', 'form,upos', 'form,lemma,upos'])
    unique = g.bool(0.6)
    base = ['a', 'the', ',', '.', 'dog', 'A', 'cat', 'The', 'x1', 'x2', 'x3', 'is', 'has', 'an', 'them', 'doggy', ',,', '_']
    names = attributes.split(',')
    pairs = []
    for _ in range(g.int(1, 4)):
        gold, pred = gen_f1_pair(g, unique, base)
        tag = {t: (g.choice(['NOUN', 'DET']), g.choice(['l', 'm'])) for t in base}

        def mk(t):
            u, l = tag[t]
            if not unique and g.bool(0.2):
                u = g.choice(['NOUN', 'DET', None])
            w = dict(form=t, lemma=t if attributes == 'lemma' else l, upos=u, xpos=None, feats='_', deprel='dep', head=0, h=None)
            if attributes == 'lemma':
                w['form'] = 'f'
            return w
        pairs.append(([mk(t) for t in gold], [mk(t) for t in pred]))
    key = lambda w: '_'.join('None' if w[a] is None else w[a] for a in names)
    focus = None
    if g.bool(0.55):
        focus = g.choice(['a', '(?i)the', ',', '[,.]', 'x.*', 'dog|cat', '.*']) if len(names) == 1 else g.choice(['(a|the)_.*', '(?i:the|a)_DET.*', '.*_NOUN.*', ',_.*', '.*'])
    kw = dict(gold_zone='gold', attributes=attributes)
    details = g.choice([None, 0, 1, 100])
    if details is not None:
        kw['details'] = details
    nd = 4 if details is None else details
    if focus:
        kw['focus'] = focus
    g.note(dict(gold=[[key(w) for w in go] for go, _ in pairs], pred=[[key(w) for w in pr] for _, pr in pairs], kw=kw),
           any(go and go != pr for go, pr in pairs))
    docs = [make_doc(ps, gold_first=[g.bool() for _ in ps]) for ps in split_docs(g, pairs)]
    blk, out = run_all(g, F1, docs, **kw)
    res = parse_f1(out)
    infoc = (lambda t: bool(re.fullmatch(focus, t))) if focus else (lambda t: True)
    npred = Counter()
    ngold = Counter()
    ncom = Counter()
    correct, exact, forced = 0, True, True
    for go, pr in pairs:
        go, pr = [key(w) for w in go], [key(w) for w in pr]
        npred.update(t for t in pr if infoc(t))
        ngold.update(t for t in go if infoc(t))
        correct += lcs_len(pr, go, lambda t: (0, 1) if infoc(t) else (1, 0))[1]
        nf = [t for t in go if not infoc(t)], [t for t in pr if not infoc(t)]
        if focus:
            if len(set(nf[0])) < len(nf[0]) or len(set(nf[1])) < len(nf[1]):
                exact = False
            common = set(nf[0]) & set(nf[1])
            if [t for t in nf[0] if t in common] != [t for t in nf[1] if t in common]:
                exact = False       # more than one best alignment of the other words
        c2 = set(go) & set(pr)
        if len(set(go)) < len(go) or len(set(pr)) < len(pr) or [t for t in go if t in c2] != [t for t in pr if t in c2]:
            forced = False
        if forced:
            ncom.update(t for t in c2 if infoc(t))
    eq(res['head'], ('pred', 'gold', str(len(pairs))), 'first line')
    eq(int(res['predicted']), sum(npred.values()), 'predicted')
    eq(int(res['gold']), sum(ngold.values()), 'gold')
    c = int(res['correct'])
    if exact:
        eq(c, correct, 'correct')
        g.tag('exact')
    else:
        check(0 <= c <= correct, f'correct = {c}, the optimum is {correct}')
    check(c <= sum((npred & ngold).values()), f'correct = {c} exceeds the common words')
    close(res['precision'], pct(c, res['predicted']), 'precision')
    close(res['recall'], pct(c, res['gold']), 'recall')
    f = 2 * c / ((res['predicted'] + res['gold']) or 1)
    close(res['F1'], 100 * f, 'F1')
    check(abs(blk.f1 - f) < 1e-9, f'property f1 is {blk.f1}, expected {f}')
    if all([key(w) for w in go] == [key(w) for w in pr] for go, pr in pairs):
        eq(c, int(res['gold']), 'identical sentences')
    # details
    tot = npred + ngold
    if nd:
        det = res['details']
        eq(len(det), min(nd, len(tot)), 'number of detailed tokens')
        eq(len({d[0] for d in det}), len(det), 'a token is listed twice')
        sums = [d[1] + d[2] for d in det]
        eq(sums, sorted(tot.values(), reverse=True)[:nd], 'detailed tokens are not those with the highest counts')
        for t, p, go, co, pp, rr, ff in det:
            eq((p, go), (npred[t], ngold[t]), f'counts of {t}')
            check(0 <= co <= min(p, go), f'correct count {co} of {t}')
            if forced:
                eq(co, ncom[t], f'correct count of {t}')
            close(pp, pct(co, p), f'precision of {t}')
            close(rr, pct(co, go), f'recall of {t}')
            close(ff, 100 * 2 * co / (p + go), f'F1 of {t}')
        if len(det) == len(tot):
            eq(sum(d[3] for d in det), c, 'the details do not sum up to the total')
    else:
        eq(res['details'], [])
    if (not focus or exact) and g.bool(0.4):
        _, out2 = run_all(g, F1, [make_doc(pairs)], **dict(kw, gold_zone='pred'))
        r2 = parse_f1(out2)
        eq((r2['predicted'], r2['gold'], r2['correct'], r2['precision'], r2['recall'], r2['F1']),
           (res['gold'], res['predicted'], res['correct'], res['recall'], res['precision'], res['F1']), 'swapped sides')


# ------------------------------------------------------------------ CoNLL shared tasks
def gen_conll_pair(g, repeated):
    n = g.int(1, 9) if g.bool(0.93) else 0
    forms = ['w%d' % i for i in range(30)]
    go = tie(gen_side(g, n))
    for i, w in enumerate(go):
        w['form'] = g.choice(['a', 'b', 'c']) if repeated else forms[i]
    pr = clone(go)
    if g.bool(0.85):
        # delete words (their children go to their head), replace forms, insert words
        for w in list(pr):
            if g.bool(0.12):
                for c in pr:
                    if c['h'] is w:
                        c['h'] = w['h']
                pr.remove(w)
        extra = 20
        for w in pr:
            if g.bool(0.1):
                w['form'] = g.choice(['a', 'b', 'd']) if repeated else forms[extra]
                extra += 1
        numbers(pr)
        for _ in range(g.int(0, 2)):
            w = gen_side(g, 1)[0]
            w['form'] = g.choice(['a', 'b', 'd']) if repeated else forms[extra]
            extra += 1
            w['h'] = g.choice([None] + pr)
            pr.insert(g.int(0, len(pr)), w)
            if pr and g.bool(0.5):
                c = g.choice(pr)
                if c is not w and w['h'] is not c:
                    old = c['h']
                    c['h'] = w
                    numbers(pr)
                    if not is_tree([x['head'] for x in pr]):
                        c['h'] = old
        numbers(pr)
        regen_heads(g, pr, g.choice([0, 0.2, 0.6]))
        mutate_attrs(g, pr, g.choice([0, 0.2, 0.5]))
    if g.bool(0.3):
        for w in pr:
            if g.bool(0.3):
                w['form'] = w['form'].upper()
    return go, pr


def u(w):
    return w['deprel'].split(':')[0]


def ufeats(w):
    return sorted(f for f in w['feats'].split('|') if f.split('=')[0] in UNIV)


def kids(words, w):
    return [c for c in words if c['h'] is w]


def naive_conll(go, pr, task):
    """Counts for one sentence with unique forms in the same relative order."""
    gm = {w['form'].lower(): w for w in go}
    al = [(p, gm[p['form'].lower()]) for p in pr if p['form'].lower() in gm]
    amap = {id(p): q for p, q in al}
    c = Counter(pred=len(pr), gold=len(go), Words=len(al))
    content = (lambda w: u(w) not in CLAS17_IGNORE) if task == 17 else (lambda w: u(w) in CONTENT)
    c['predc'] = sum(map(content, pr))
    c['goldc'] = sum(map(content, go))
    c['alc'] = sum(content(q) for _, q in al)
    for p, q in al:
        c['UPOS'] += p['upos'] == q['upos']
        c['XPOS'] += p['xpos'] == q['xpos']
        if task == 17:
            c['Feats'] += p['feats'] == q['feats']
            c['Lemma'] += p['lemma'] == q['lemma']
        else:
            lem = q['lemma'] in ('_', p['lemma'])
            fm = ufeats(p) == ufeats(q)
            c['Lemmas'] += lem
            c['UFeats'] += fm
            c['AllTags'] += fm and p['upos'] == q['upos'] and p['xpos'] == q['xpos']
        if p['h'] is None:
            ok = q['h'] is None
        else:
            ok = id(p['h']) in amap and amap[id(p['h'])] is q['h'] and not p.get('rehanged')
        ok = ok and not p.get('rehanged')
        if ok:
            c['UAS'] += 1
            if u(p) == u(q):
                c['LAS'] += 1
                if content(q):
                    c['CLAS'] += 1
                    if task == 18:
                        c['BLEX'] += lem
                        pf = [x for x in kids(pr, p) if u(x) in FUNCTIONAL and not x.get('rehanged')]
                        gf = [x for x in kids(go, q) if u(x) in FUNCTIONAL]
                        if p['upos'] == q['upos'] and fm and len(pf) == len(gf) and not p.get('missing') and all(
                                amap.get(id(a)) is b and u(a) == u(b) and a['upos'] == b['upos'] and ufeats(a) == ufeats(b) for a, b in zip(pf, gf)):
                            c['MLAS'] += 1
    return c


METRICS = {17: ['Words', 'UPOS', 'XPOS', 'Feats', 'Lemma', 'UAS', 'LAS', 'CLAS'],
           18: ['Words', 'UPOS', 'XPOS', 'UFeats', 'AllTags', 'Lemmas', 'UAS', 'LAS', 'CLAS', 'MLAS', 'BLEX']}
CONTM = ('CLAS', 'MLAS', 'BLEX')


def parse_table(out, task):
    lines = out.split('\n')
    eq(lines[-1], '')
    lines = lines[:-1]
    eq(len(lines), 2 + len(METRICS[task]), 'number of lines in the table')
    res = {}
    for l, m in zip(lines[2:], METRICS[task]):
        f = [x.strip() for x in l.split('|')]
        eq(f[0], m, 'metric')
        res[m] = [float(x) if x else None for x in f[1:]]
    return res


def f_conll(g):
    task = g.choice([17, 18])
    cls = conll17.Conll17 if task == 17 else conll18.Conll18
    repeated = g.bool(0.15)
    pairs = [gen_conll_pair(g, repeated) for _ in range(g.int(1, 4))]
    gz, pz = g.choice([('gold', 'pred'), ('en', 'en_x')])
    kw = {} if gz == 'gold' and g.bool() else dict(gold_zone=gz)
    raw = None
    if g.bool(0.3):
        raw = 1 if task == 17 else g.choice(METRICS[18])
        kw['print_raw'] = raw
        if g.bool(0.5):
            kw['print_results'] = 0
    counts = task == 18 and g.bool(0.3)
    if counts:
        kw['print_counts'] = 1
    show = lambda ws: [(w['form'], w['head'], w['deprel'], w['upos'], w['xpos'], w['feats'], w['lemma']) for w in ws]
    g.note(dict(gold=[show(a) for a, _ in pairs], pred=[show(b) for _, b in pairs], kw=kw, task=task), any(a != b and a for a, b in pairs))
    docs = [make_doc(ps, gz, pz, gold_first=[g.bool() for _ in ps]) for ps in split_docs(g, pairs)]
    marks(g, task, docs, gz, pairs, pz)
    _, out = run_all(g, cls, docs, **kw)
    lines = out.split('\n')
    rawlines = []
    if raw:
        rawlines, out = lines[:len(pairs)], '\n'.join(lines[len(pairs):])
        if 'print_results' in kw:
            eq(out, '', 'results printed although print_results=0')
    if not repeated:
        cs = [naive_conll(a, b, task) for a, b in pairs]
        if raw:
            m = 'LAS' if task == 17 else raw
            names = ('predc', 'goldc', 'alc', m) if m in CONTM and task == 18 else ('pred', 'gold', 'Words', m)
            eq(rawlines, [' '.join(str(c[x]) for x in names) for c in cs], 'raw counts')
        if 'print_results' in kw:
            return
        tot = Counter()
        for c in cs:
            tot.update(c)
        res = parse_table(out, task)
        for m in METRICS[task]:
            p, q, a = ('predc', 'goldc', 'alc') if m in CONTM else ('pred', 'gold', 'Words')
            if counts:
                eq(res[m], [tot[m], tot[q], tot[p], tot[a]], f'counts of {m}')
                continue
            close(res[m][0], pct(tot[m], tot[p]), f'precision of {m}')
            close(res[m][1], pct(tot[m], tot[q]), f'recall of {m}')
            close(res[m][2], pct(2 * tot[m], tot[p] + tot[q]), f'F1 of {m}')
            if m == 'Words' and task == 18:
                eq(res[m][3], None, 'AligndAcc of Words')
            else:
                close(res[m][3], pct(tot[m], tot[a]), f'AligndAcc of {m}')
        if 'pred' in tot and not any(w.get('rehanged') or w.get('missing') for _, b in pairs for w in b) and not counts and g.bool(0.3) \
                and not any(w['lemma'] == '_' for a, b in pairs for w in a + b):
            _, out2 = run_all(g, cls, [make_doc(pairs, gz, pz)], gold_zone=pz)
            r2 = parse_table(out2, task)
            for m in METRICS[task]:
                eq((r2[m][0], r2[m][1], r2[m][2]), (res[m][1], res[m][0], res[m][2]), f'swapped sides: {m}')
    elif 'print_results' not in kw:
        res = parse_table(out, task)
        lw = sum(lcs_len([w['form'].lower() for w in a], [w['form'].lower() for w in b])[1] for a, b in pairs)
        np_, ng = sum(len(b) for _, b in pairs), sum(len(a) for a, _ in pairs)
        for m in METRICS[task]:
            if counts:
                check(0 <= res[m][0] <= res['Words'][0] <= lw, f'count of {m}')
                continue
            for x in res[m]:
                check(x is None or 0 <= x <= 100, f'{m}: {res[m]}')
            check(m in CONTM or res[m][0] <= res['Words'][0], f'{m} is higher than Words')
        if not counts:
            check(res['Words'][0] <= pct(lw, np_) + 0.02 and res['Words'][1] <= pct(lw, ng) + 0.02, 'more words aligned than the longest common subsequence')
    if all(show(a) == show(b) for a, b in pairs) and not counts and 'print_results' not in kw and not any(w.get('rehanged') or w.get('missing') for _, b in pairs for w in b):
        g.tag('identical')
        for m in METRICS[task]:
            if any((u(w) in CONTENT if task == 18 else u(w) not in CLAS17_IGNORE) or m not in CONTM for a, _ in pairs for w in a):
                eq(res[m][:3], [100.0] * 3, f'{m} of identical analyses')


def f_conll_long(g):
    """A long sentence of a few different forms, analysed identically except for one more word at the beginning."""
    task = g.choice([17, 18])
    n = g.int(195, 230)
    go = gen_side(g, n)
    for w in go:
        w['form'] = g.choice(['a', 'b', 'c', ','])
    pr = [dict(w, head=w['head'] + 1 if w['head'] else 0) for w in go]
    root = next(i for i, w in enumerate(pr, 2) if w['head'] == 0)
    pr.insert(0, dict(form='new', lemma='l', upos='X', xpos='_', feats='_', deprel='punct', head=root))
    g.note(dict(task=task, n=n, forms=[w['form'] for w in go], heads=[w['head'] for w in go]), True)
    _, out = run_all(g, conll17.Conll17 if task == 17 else conll18.Conll18, [make_doc([(go, pr)])], gold_zone='gold')
    res = parse_table(out, task)
    for m in METRICS[task]:
        if any((u(w) in CONTENT if task == 18 else u(w) not in CLAS17_IGNORE) or m not in CONTM for w in go):
            close(res[m][1], 100, f'recall of {m}')


def marks(g, task, docs, gz, pairs, pz):
    """Sometimes mark predicted words as re-attached or lacking a function word (set by util.ResegmentGold)."""
    if task != 18 or not g.bool(0.2):
        return
    trees = [t for d in docs for b in d.bundles for t in b.trees if t.zone == pz]
    for t, (_, pr) in zip(trees, pairs):
        for node, w in zip(t.descendants, pr):
            if g.bool(0.15):
                node.misc['Rehanged'] = 'Yes'
                w['rehanged'] = True
            if g.bool(0.1):
                node.misc['FuncChildMissing'] = 'Yes'
                w['missing'] = True


# ------------------------------------------------------------------ bootstrap script
def f_bootstrap(g):
    mod = g.choice([conll17, conll18])
    nsys = g.int(1, 4)
    names = ['sys%d' % i for i in range(nsys)]
    constant = g.bool(0.6)
    data = {}
    nsent = g.int(1, 5)
    for s in names:
        rows = []
        pred, gold = g.int(1, 20), g.int(1, 20)
        las = g.int(0, min(pred, gold))
        for i in range(nsent):
            if not constant:
                pred, gold = g.int(1, 20), g.int(1, 20)
                las = g.int(0, min(pred, gold))
            rows.append((pred, gold, min(pred, gold), las))
        data[s] = rows
    seed = g.int(1, 1000)
    resamples = g.choice([10, 19, 20, 40])
    argv = ['x', '-r', str(resamples), '--randseed', str(seed)]
    if g.bool(0.4):
        argv += ['-s', ','.join(names)]
    if g.bool(0.4):
        argv += ['-t', 'tst']
    conf = 95
    if g.bool(0.3):
        conf = g.choice([90, 95, 80])
        argv += ['-c', str(conf)]
    g.note(dict(data=data, argv=argv), nsys > 1)
    outs = []
    with tempfile.TemporaryDirectory() as d:
        for s in names:
            os.mkdir(os.path.join(d, s))
            with open(os.path.join(d, s, 'tst'), 'w') as f:
                f.write(''.join('%d %d %d %d\n' % r for r in data[s]))
        for _ in range(2):
            fh, err = io.StringIO(), io.StringIO()
            old, olderr = sys.argv, sys.stderr
            sys.argv, sys.stderr = argv + ['-d', d], err
            try:
                with stdout_to(fh):
                    mod.main()
            finally:
                sys.argv, sys.stderr = old, olderr
            outs.append(fh.getvalue())
    eq(outs[0], outs[1], 'the bootstrap is not reproducible with a random seed')
    rows = []
    for l in outs[0].split('\n')[:-1]:
        if l == '-' * 60:
            rows[-1]['sep'] = True
            continue
        m = re.fullmatch(r' *(\d+)\. +(\S+) +([\d.]+) ±( *[\d.]+) \( *([\d.]+) \.\. +([\d.]+)\)(?: p=([\d.]+))?', l)
        check(m, 'bootstrap line: ' + l)
        rows.append(dict(rank=int(m[1]), name=m[2], mid=float(m[3]), pm=float(m[4]), lo=float(m[5]), hi=float(m[6]), p=m[7], sep=False))
    eq([r['rank'] for r in rows], list(range(1, nsys + 1)), 'ranks')
    eq(sorted(r['name'] for r in rows), names, 'systems')
    check(all(a['mid'] >= b['mid'] for a, b in zip(rows, rows[1:])), 'systems are not sorted by score')
    for k, r in enumerate(rows):
        fs = [200 * x[3] / (x[0] + x[1]) for x in data[r['name']]]
        check(min(fs) - 0.011 <= r['lo'] <= r['mid'] <= r['hi'] <= max(fs) + 0.011, f'interval of {r} outside of the sentence scores {fs}')
        close(r['pm'], (r['hi'] - r['lo']) / 2, 'half width')
        eq(r['p'] is None, k == nsys - 1, 'p-value printed for all but the last system')
        if constant:
            close(r['mid'], fs[0], 'score of ' + r['name'])
            close(r['lo'], fs[0], 'lower bound')
            close(r['hi'], fs[0], 'upper bound')
            if r['p']:
                check(abs(float(r['p']) - 1 / (resamples + 1)) < 0.001, f"p-value {r['p']} with {resamples} resamples and a constant order")
        if r['p']:
            p = float(r['p'])
            check(0 < p <= 1, 'p-value')
            if abs(p - (1 - conf / 100)) > 0.0011:
                eq(r['sep'], p < 1 - conf / 100, f'separator after {r}')


# ------------------------------------------------------------------ re-segmentation
def cut(g, n):
    """Random sentence boundaries over n words: list of (lo, hi)."""
    out, lo = [], 0
    while lo < n:
        hi = min(n, lo + g.int(1, 6))
        out.append((lo, hi))
        lo = hi
    return out


def f_resegment(g):
    n = g.int(1, 16)
    gold_cut = cut(g, n)
    # predicted tokens: (form, gold word index of its first character)
    rep = g.bool(0.3)
    multi = g.bool(0.2)
    abc = [g.choice('ab') for _ in range(n)] if rep else None
    toks = []
    i = 0
    ends = {hi for _, hi in gold_cut}
    while i < n:
        if not rep and i + 1 not in ends and i + 1 < n and g.bool(0.08):
            toks.append((f'w{i}w{i + 1}', i))
            i += 2
        elif not rep and g.bool(0.08):
            toks += [('w', i), (str(i) + '', i)]
            i += 1
        elif rep:
            toks.append((abc[i], i))
            i += 1
        else:
            toks.append((f'w{i}' if g.bool(0.95) else f'w\u00a0{i}', i))
            i += 1
    pn = len(toks)
    pred_cut = cut(g, pn) if g.bool(0.85) else None
    if pred_cut is None:        # the same boundaries
        pred_cut = []
        for lo, hi in gold_cut:
            ks = [k for k, t in enumerate(toks) if lo <= t[1] < hi]
            pred_cut.append((ks[0], ks[-1] + 1))
    gold, pred = [], []
    for lo, hi in gold_cut:
        ws = gen_side(g, hi - lo)
        one_root(ws)
        for k, w in zip(range(lo, hi), ws):
            w['form'] = abc[k] if rep else f'w{k}'
        gold.append(tie(ws))
    for lo, hi in pred_cut:
        ws = gen_side(g, hi - lo)
        if not multi:
            one_root(ws)
        for k, w in zip(range(lo, hi), ws):
            w['form'], w['at'] = toks[k]
        pred.append(tie(ws))
    if g.bool(0.5):         # predicted heads mostly as in gold
        gm = {w['form']: w for ws in gold for w in ws}
        for ws in pred:
            pm = {w['form']: w for w in ws}
            for w in ws:
                q = gm.get(w['form'])
                if q is not None and g.bool(0.85):
                    old = w['h']
                    w['h'] = pm.get(q['h']['form']) if q['h'] is not None else None
                    numbers(ws)
                    if not is_tree([x['head'] for x in ws]) or not multi and [x['head'] for x in ws].count(0) != 1:
                        w['h'] = old
                    else:
                        for a in ('deprel', 'upos', 'feats', 'lemma'):
                            w[a] = q[a]
            numbers(ws)
    doc = new_doc()
    nodes = []
    pz = g.choice(['pred', ''])
    for k in range(max(len(gold), len(pred))):
        b = doc.create_bundle()
        todo = ([('gold', gold[k])] if k < len(gold) else []) + ([(pz, pred[k])] if k < len(pred) else [])
        if g.bool(0.3):
            todo.reverse()
        for z, ws in todo:
            t = add_tree(b, z, ws)
            if z == pz:
                nodes += t.descendants
    order = [w for ws in pred for w in ws]
    same = [hi - lo for lo, hi in pred_cut] == [len([t for t in toks if lo <= t[1] < hi]) for lo, hi in gold_cut]
    g.note(dict(gold=[[w['form'] for w in ws] for ws in gold], pred=[[(w['form'], w['head'], w['deprel']) for w in ws] for ws in pred]), not same)
    gt = [b.get_tree('gold') for b in doc.bundles[:len(gold)]]
    gsnap = [snap(t) for t in gt]
    psnap = {p[0]: (snap(b.get_tree(pz)), p[1]) for p, b in zip(pred_cut, doc.bundles)}
    run_block(ResegmentGold(), doc)
    eq(len(doc.bundles), len(gold), 'number of bundles')
    eq([b.get_tree('gold') is t for b, t in zip(doc.bundles, gt)], [True] * len(gt), 'gold trees')
    eq([snap(t) for t in gt], gsnap, 'a gold tree was changed')
    byid = {id(w): x for w, x in zip(order, nodes)}
    k = 0
    for b, (lo, hi) in zip(doc.bundles, gold_cut):
        eq(sorted(t.zone for t in b.trees), sorted(['gold', pz]), 'zones of a bundle')
        t = b.get_tree(pz)
        check_wf(t)
        mine = [j for j, x in enumerate(toks) if lo <= x[1] < hi]
        ds = t.descendants
        check(len(ds) == len(mine) and all(x is nodes[j] for x, j in zip(ds, mine)),
              f'words of predicted sentence: {[x.form for x in ds]}, expected {[toks[j][0] for j in mine]}')
        eq([x.form for x in ds], [toks[j][0] for j in mine], 'forms')
        if mine[0] in psnap and psnap[mine[0]][1] == mine[-1] + 1 and psnap[mine[0]][0]['rows']:
            s0 = psnap[mine[0]][0]
            s1 = snap(t)
            eq([r[1:] for r in s1['rows']], [r[1:] for r in s0['rows']], 'a predicted sentence with correct boundaries was changed')
            continue
        eq(len(t.children), 1, 'number of root children of a re-segmented sentence')
        inside = {id(order[j]) for j in mine}
        for j in mine:
            w, x = order[j], nodes[j]
            if w['h'] is None:
                if x.parent is t:
                    eq(x.misc['Rehanged'], '', f'{x.form} is still a root')
                else:
                    eq(x.misc['Rehanged'], 'Yes', f'root {x.form} was re-attached without a mark')
            elif id(w['h']) in inside:
                check(x.parent is byid[id(w['h'])], f'{x.form} lost its head although it is in the same sentence')
                eq(x.misc['Rehanged'], '', f'{x.form} kept its head')
            else:
                eq(x.misc['Rehanged'], 'Yes', f'{x.form} lost its head')
            lost = [c for c in order if c['h'] is w and id(c) not in inside and u(c) in FUNCTIONAL]
            if lost:
                eq(x.misc['FuncChildMissing'], 'Yes', f'{x.form} lost its function word {lost[0]["form"]}')
            elif not any(u(c) in FUNCTIONAL for c in order):
                eq(x.misc['FuncChildMissing'], '', f'{x.form} lost no function word')
    if rep:
        return
    # end to end: the scores over the re-segmented sentences
    out = run_writer(conll18.Conll18, doc)
    res = parse_table(out, 18)
    tot = Counter()
    for (lo, hi), go, b in zip(gold_cut, gold, doc.bundles):
        mine = [j for j, x in enumerate(toks) if lo <= x[1] < hi]
        ws = [order[j] for j in mine]
        back = {id(nodes[j]): order[j] for j in mine}
        for j in mine:
            w, x = order[j], nodes[j]
            w['rehanged'], w['missing'] = x.misc['Rehanged'] == 'Yes', x.misc['FuncChildMissing'] == 'Yes'
            w['newh'] = back.get(id(x.parent))
        ws2 = [dict(w) for w in ws]
        m = {id(a): c for a, c in zip(ws, ws2)}
        for c in ws2:
            c['h'] = m.get(id(c['newh']))
        tot.update(naive_conll(go, ws2, 18))
    for m in METRICS[18]:
        p, q, a = ('predc', 'goldc', 'alc') if m in CONTM else ('pred', 'gold', 'Words')
        close(res[m][0], pct(tot[m], tot[p]), f'precision of {m} after re-segmentation')
        close(res[m][1], pct(tot[m], tot[q]), f'recall of {m} after re-segmentation')


def one_root(ws):
    """Keep only the first root."""
    roots = [i for i, w in enumerate(ws, 1) if not w['head']]
    for r in roots[1:]:
        ws[r - 1]['head'] = roots[0]


FACETS = {
    'resegment': facet(f_resegment, 12000),
    'parsing': facet(f_parsing, 9000),
    'lcs': facet(f_lcs, 20000),
    'f1': facet(f_f1, 12000),
    'conll': facet(f_conll, 14000),
    'conlllong': facet(f_conll_long, 60),
    'bootstrap': facet(f_bootstrap, 500),
}

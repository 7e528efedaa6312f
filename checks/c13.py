"""C13: splitting, joining and moving sentences loses and reorders no words."""
from vf.engine import check, eq, Violation, assume
from vf.gens import *
from vf.util import facet

RULE = ('documents of 1-6 sentences (1-8 words, arbitrary trees, multi-word tokens, SpaceAfter) with words moved between trees, sentences split (by id or MISC marks), '
        'joined, merged and re-segmented; non-trivial = at least one dependency or token crosses or touches the cut and at least 3 words; distinct by operation and document')
ASSUMPTIONS = ['for splitting and joining a cut does not go through a multi-word token', 'one zone per bundle for splitting and joining by marks (as the blocks document)',
               'for re-segmentation no predicted token crosses a gold sentence boundary']


def misc_wo(s, *names):
    return '|'.join(x for x in str(s).split('|') if x.split('=')[0] not in names) or '_'


class Snap:
    """Words of a tree by identity with heads, attributes and tokens."""

    def __init__(self, root):
        self.words = list(root.descendants)
        self.head = {id(w): (None if w.parent.is_root() else w.parent) for w in self.words}
        self.attrs = {id(w): attrs(w) for w in self.words}
        self.mwts = [(m, list(m.words), m.form, str(m.misc)) for m in root.multiword_tokens]
        self.text = root.text
        self.comment = root.comment


def merged(snaps):
    out = Snap.__new__(Snap)
    out.words = [w for s in snaps for w in s.words]
    out.head, out.attrs, out.mwts = {}, {}, []
    for s in snaps:
        out.head.update(s.head)
        out.attrs.update(s.attrs)
        out.mwts += s.mwts
    return out


def part(s, words):
    out = Snap.__new__(Snap)
    ids = {id(w) for w in words}
    out.words = [w for w in s.words if id(w) in ids]
    out.head = {i: (h if h is not None and id(h) in ids else None) for i, h in s.head.items() if i in ids}
    out.attrs = {i: a for i, a in s.attrs.items() if i in ids}
    out.mwts = [m for m in s.mwts if id(m[1][0]) in ids]
    return out


def spelled(s):
    starts = {id(m[1][0]): m for m in s.mwts}
    out, i = '', 0
    while i < len(s.words):
        w = s.words[i]
        m = starts.get(id(w))
        form, misc = (m[2], m[3]) if m else (w.form, str(w.misc))
        out += form + ('' if 'SpaceAfter=No' in misc.split('|') else ' ')
        i += len(m[1]) if m else 1
    return out.rstrip()


def expect(root, s, msg, deprel_root=False, drop_misc=None, ignore_misc=()):
    got = list(root.descendants)
    check(len(got) == len(s.words) and all(a is b for a, b in zip(got, s.words)),
          lambda: f'{msg}: words are {[w.form for w in got]}, expected {[w.form for w in s.words]}')
    check_wf(root, msg)
    for k, w in enumerate(got, 1):
        h = s.head[id(w)]
        check(w.parent is (h if h is not None else root), lambda: f'{msg}: head of word {k} ({w.form}) is {w.parent.ord}')
        a, b = list(s.attrs[id(w)]), list(attrs(w))
        if deprel_root and h is None:
            a[5] = 'root'
        if drop_misc and id(w) in drop_misc:
            a[6] = misc_wo(a[6], drop_misc[id(w)])
        if ignore_misc:
            a[6], b[6] = misc_wo(a[6], *ignore_misc), misc_wo(b[6], *ignore_misc)
        if ignore_misc or drop_misc:        # an edited MISC is sorted
            a[6], b[6] = sorted(a[6].split('|')), sorted(b[6].split('|'))
        eq(b, a, f'{msg}: attributes of word {k}')
    mw = list(root.multiword_tokens)
    eq(sorted((m.words[0].ord, m.form, str(m.misc), [x.ord for x in m.words]) for m in mw),
       sorted((m[1][0].ord, m[2], m[3], [x.ord for x in m[1]]) for m in s.mwts), f'{msg}: multi-word tokens')
    for m in mw:
        check(m.root is root and all(w.multiword_token is m for w in m.words), f'{msg}: token links')
    eq(sum(1 for w in got if w.multiword_token is not None), sum(len(m[1]) for m in s.mwts), f'{msg}: words with a token')


def gen_doc(g, lo=1, hi=4, nmax=6, mark=None, zones=('',), text=True):
    """Document loaded from text; words are marked with Mark=... in MISC with some probability."""
    out = ''
    n = g.int(lo, hi) if g.draw(24) < 23 else g.int(9, 13)
    for i in range(1, n + 1):
        for z in zones:
            s = gen_sentence(g, nmax=nmax, odd=0.1, mwt=0.2, empties=0, deps=0)
            if mark:
                for w in s['words']:
                    if g.bool(mark[1]):
                        v = g.choice(['Mark=Yes', 'Mark=No', 'Mark=1'])
                        w['misc'] = v if w['misc'] == '_' else g.choice([v + '|' + w['misc'], w['misc'] + '|' + v])
                for lo_, hi_, *_ in s['mwts']:
                    for w in s['words'][lo_:hi_]:
                        w['misc'] = misc_wo(w['misc'], 'Mark')
            s['comments'] = [f'# sent_id = s{i}' + ('/' + z if z else '')]
            if text and g.bool(0.7):
                s['comments'].append('# text = ' + spell(s['words'], s['mwts']))
            if g.bool(0.15):
                s['comments'].append('# note')
            out += ser_sentence(s)
    return load(out), out


def numbers(doc, msg):
    ns = [b.number for b in doc]
    check(all(a < b for a, b in zip(ns, ns[1:])), f'{msg}: bundle numbers {ns}')


def finish(doc, msg):
    numbers(doc, msg)
    validate_conllu(parse_conllu(conllu(doc)))


def unchanged(root, s, msg):
    expect(root, s, msg)
    eq(root.text, s.text, f'{msg}: text')


def f_steal(g):
    doc, src = gen_doc(g, 2, 3, 7)
    trees = list(doc.trees)
    snaps = [Snap(t) for t in trees]
    log = []
    if g.bool(0.1):
        a, b = g.perm(range(len(trees)))[:2]
        c = g.draw(len(trees))
        mix = g.subset(trees[a].descendants, 0.6, 1) + g.subset(trees[b].descendants, 0.6, 1)
        before = [snap(t) for t in trees]
        from udapi.core.root import Root
        r = Root()
        try:
            (trees[c] if c not in (a, b) else r).steal_nodes(g.perm(mix))
        except ValueError:
            pass
        else:
            raise Violation('steal_nodes of nodes of several trees was accepted')
        eq([snap(t) for t in trees], before, 'rejected steal_nodes changed a tree')
        eq(len(r.descendants), 0, 'rejected steal_nodes moved words')
        return
    for _ in range(g.int(1, 3)):
        a, b = g.perm(range(len(trees)))[:2]
        old, new = snaps[a], snaps[b]
        k = g.draw(4)
        n = len(old.words)
        if k == 0:
            ws = list(old.words)
        elif k == 1:
            c = g.int(0, n)
            ws = old.words[c:] if g.bool() else old.words[:c]
        elif k == 2 and n:
            lo = g.draw(n)
            ws = old.words[lo:g.int(lo, n)]
        else:
            ws = g.subset(old.words)
        ids = {id(w) for w in ws}
        cut = set()
        for m in old.mwts:
            if any(id(w) in ids for w in m[1]) and g.bool(0.75):       # usually whole tokens only
                ids |= {id(w) for w in m[1]}
            elif any(id(w) in ids for w in m[1]) and any(id(w) not in ids for w in m[1]):
                cut.add(id(m[0]))
        ws = [w for w in old.words if id(w) in ids]
        arg = g.perm(ws) if g.bool(0.3) else (trees[a].descendants if len(ws) == n and g.bool() else ws)
        log.append(f'{b}.steal({a}: {[w.ord for w in ws]} of {n})')
        g.note(f'{log}\n{src}', len(ws) >= 2 and n - len(ws) >= 1)
        trees[b].steal_nodes(arg)
        moved, rest = part(old, ws), part(old, [w for w in old.words if id(w) not in ids])
        # a token is moved with the moved part of its words
        moved.mwts = [(m, [w for w in mw if id(w) in ids], *x) for m, mw, *x in old.mwts if any(id(w) in ids for w in mw)]
        rest.mwts = [m for m in old.mwts if not any(id(w) in ids for w in m[1])]
        if cut:
            g.tag('cut token')
        snaps[b], snaps[a] = merged([new, moved]), rest
        for t, s in zip(trees, snaps):
            expect(t, s, str(log))
    for t, s in zip(trees, snaps):
        eq(t.compute_text(), spelled(s), f'{log}: computed text')
    finish(doc, str(log))


def f_split(g):
    from udapi.block.util.splitsentence import SplitSentence
    mode = g.weighted([(3, 'misc'), (2, 'id')])
    doc, src = gen_doc(g, 1, 4, 7, mark=('Mark', 0.3) if mode == 'misc' else None)
    bundles = list(doc)
    trees = [b.trees[0] for b in bundles]
    snaps = [Snap(t) for t in trees]
    exp = []        # (bundle id, snap, changed, dropped marks)
    if mode == 'misc':
        value = g.choice([None, 'Yes', 'No', '1'])
        kw = dict(misc_name='Mark')
        if value:
            kw['misc_value'] = value
        for i, s in enumerate(snaps, 1):
            cuts = [k for k, w in enumerate(s.words) if k > 0 and (w.misc['Mark'] if value is None else w.misc['Mark'] == value)]
            if not cuts:
                exp.append((f's{i}', s, False, {}))
                continue
            drop = {id(s.words[k]): 'Mark' for k in cuts}
            bounds = [0] + cuts + [len(s.words)]
            for j, (lo, hi) in enumerate(zip(bounds, bounds[1:])):
                exp.append((f's{i}' + chr(65 + j) if j < 26 else None, part(s, s.words[lo:hi]), True, drop))
        changed = sum(1 for e in exp if e[2])
    else:
        i = g.draw(len(snaps))
        s = snaps[i]
        inside = {id(w) for m in s.mwts for w in m[1][1:]}
        cand = [k for k in range(1, len(s.words)) if id(s.words[k]) not in inside]
        assume(cand)
        c = g.choice(cand)
        kw = dict(sent_id=f's{i + 1}', word_id=c + 1)
        for j, x in enumerate(snaps):
            if j == i:
                exp.append((f's{j + 1}A', part(x, x.words[:c]), True, {}))
                exp.append((f's{j + 1}B', part(x, x.words[c:]), True, {}))
            else:
                exp.append((f's{j + 1}', x, False, {}))
        changed = 1
    msg = f'SplitSentence {kw}\n{src}'
    g.note(msg, changed and sum(len(s.words) for s in snaps) >= 3)
    run_block(SplitSentence(**kw), doc)
    # letters after Z are not specified, but the ids are distinct
    eq([b.bundle_id if e[0] else None for b, e in zip(doc, exp)], [e[0] for e in exp], f'{msg}: bundles')
    eq(len(doc.bundles), len(exp), f'{msg}: bundles')
    eq(len({b.bundle_id for b in doc}), len(exp), f'{msg}: distinct ids')
    for b, (bid, s, ch, drop) in zip(doc, exp):
        bid = bid or b.bundle_id
        eq(len(b.trees), 1, 'trees')
        t = b.trees[0]
        eq((t.sent_id, t.zone), (bid, ''), f'{msg}: tree id')
        if ch:
            expect(t, s, f'{msg}: {bid}', deprel_root=True, drop_misc=drop)
            eq(t.text, spelled(s), f'{msg}: text of {bid}')
        else:
            unchanged(t, s, f'{msg}: {bid}')
    finish(doc, msg)


def f_join(g):
    from udapi.block.util.joinsentence import JoinSentence
    mode = g.weighted([(3, 'misc'), (2, 'id')])
    doc, src = gen_doc(g, 1, 5, 5, mark=('Mark', 0.2) if mode == 'misc' else None)
    trees = [b.trees[0] for b in doc]
    snaps = [Snap(t) for t in trees]
    exp = []
    if mode == 'misc':
        value = g.choice([None, 'Yes', 'No', '1'])
        kw = dict(misc_name='Mark')
        if value:
            kw['misc_value'] = value
        for i, s in enumerate(snaps, 1):
            cmds = [w for w in s.words if (w.misc['Mark'] if value is None else w.misc['Mark'] == value)]
            if not cmds:
                exp.append([f's{i}', [s], {}])
            elif i == 1:
                assume(False)
            else:
                exp[-1][1].append(s)
                exp[-1][2].update({id(w): 'Mark' for w in cmds})
    else:
        assume(len(snaps) > 1)
        i = g.int(1, len(snaps) - 1)
        kw = dict(sent_id=f's{i + 1}')
        for j, s in enumerate(snaps):
            if j == i:
                exp[-1][1].append(s)
            else:
                exp.append([f's{j + 1}', [s], {}])
    msg = f'JoinSentence {kw}\n{src}'
    g.note(msg, any(len(e[1]) > 1 for e in exp) and sum(len(s.words) for s in snaps) >= 3)
    run_block(JoinSentence(**kw), doc)
    eq([b.bundle_id for b in doc], [e[0] for e in exp], f'{msg}: bundles')
    for b, (bid, ss, drop) in zip(doc, exp):
        t = b.trees[0]
        if len(ss) == 1:
            unchanged(t, ss[0], f'{msg}: {bid}')
        else:
            s = merged(ss)
            expect(t, s, f'{msg}: {bid}', drop_misc=drop)
            eq(t.text, spelled(s), f'{msg}: text of {bid}')
    finish(doc, msg)


def f_merge(g):
    from udapi.block.segment.merge import Merge
    zones = g.weighted([(3, ('',)), (1, ('en',)), (2, ('en', 'cs'))])
    doc, src = gen_doc(g, 1, 6, 4, zones=zones)
    if g.bool(0.05):
        empty = new_doc()
        run_block(Merge(), empty)
        eq(len(empty.bundles), 0, 'empty document')
    for t in doc.trees:
        if g.bool(0.5):
            t.descendants[-1].form = ';'
        if g.bool(0.1):
            t.descendants[0].form = ';'
        if g.bool(0.05):
            for w in list(t.children):
                w.remove()
            t.text = ''
    kind = g.weighted([(3, 'default'), (1, 'tokens'), (1, 'bundles')])
    decisions = {}

    class T(Merge):
        @staticmethod
        def should_merge_tokens(first, second):
            return len(first.form) <= len(second.form)

    class B(Merge):
        def should_merge_bundles(self, first_bundle, second_bundle):
            return int(second_bundle.bundle_id[1:]) % 3 != 1
    block = dict(default=Merge, tokens=T, bundles=B)[kind]
    zone = g.choice(['all', zones[0], zones[-1]])
    kw = {} if zone in ('all', '') else dict(zones=zone)
    our = 0 if not kw else zones.index(zone)
    snaps = [[Snap(t) for t in b] for b in doc]
    msg = f'{kind} {kw}\n{conllu(doc)}'
    snaps = [[Snap(t) for t in b] for b in doc]      # conllu() may fill in the text
    groups = [[0]]
    for i in range(1, len(snaps)):
        if kind == 'bundles':
            first = second = None
        else:
            w1 = [w for j in groups[-1] for w in snaps[j][our].words]
            w2 = snaps[i][our].words
            if not w1 or not w2:
                groups.append([i])
                continue
            first, second = w1[-1], w2[0]
        m = (first.form[-1] == ';' if kind == 'default' else len(first.form) <= len(second.form) if kind == 'tokens' else (i + 1) % 3 != 1)
        groups[-1].append(i) if m else groups.append([i])
    g.note(msg, any(len(x) > 1 for x in groups))
    run_block(block(**kw), doc)
    eq([b.bundle_id for b in doc], [f's{x[0] + 1}' for x in groups], f'{msg}: bundles')
    for b, idx in zip(doc, groups):
        eq([t.zone for t in b], list(zones), f'{msg}: zones')
        for z, t in enumerate(b):
            if len(idx) == 1:
                unchanged(t, snaps[idx[0]][z], msg)
            else:
                s = merged([snaps[i][z] for i in idx])
                expect(t, s, msg)
                eq(t.text, spelled(s), f'{msg}: text')
    finish(doc, msg)


def f_resegment(g):
    from udapi.block.util.resegmentgold import ResegmentGold
    # a sequence of predicted sentences; gold boundaries at token boundaries
    npred = g.int(1, 4)
    preds = []
    tokens = []     # (pred index, first word, n words)
    for p in range(npred):
        s = gen_sentence(g, nmax=6, odd=0.0, mwt=0.2, empties=0, deps=0)
        for w in s['words']:
            w['form'] = g.choice(['a', 'bb', 'dog', '.', 'x y', ',', 'to'])
        s['mwts'] = [(a, b, g.choice(['ab', 'du', 'xyz']), m, f) for a, b, _, m, f in s['mwts']]
        preds.append(s)
        i = 1
        starts = {m[0]: m for m in s['mwts']}
        while i <= len(s['words']):
            m = starts.get(i)
            tokens.append((m[2] if m else s['words'][i - 1]['form'], p))
            i = m[1] + 1 if m else i + 1
    # gold sentences
    gold, cur = [], []
    bounds = []
    mode = g.draw(3)
    for k, (form, p) in enumerate(tokens):
        cur.append(form)
        last = k + 1 == len(tokens)
        own = last or tokens[k + 1][1] != p
        if last or g.bool(0.85 if own else 0.12) and mode != 2 or mode == 2 and g.bool(0.3):
            gold.append(cur)
            bounds.append(k + 1)
            cur = []
    text = ''
    for i in range(max(len(gold), npred)):
        if i < len(gold):
            chars = ''.join(gold[i]).replace(' ', '')
            forms, a = [], 0
            while a < len(chars):       # gold has its own tokenisation
                b = g.int(1, 3)
                forms.append(chars[a:a + b])
                a += b
            heads = gen_heads(g, len(forms))
            gs = dict(words=[Word(form=f, lemma='_', upos='_', xpos='_', feats='_', head=h, deprel='dep', deps='_', misc='_') for f, h in zip(forms, heads)],
                      mwts=[], empties=[], comments=[f'# sent_id = b{i}/gold'])
            text += ser_sentence(gs)
        if i < npred:
            preds[i]['comments'] = [f'# sent_id = b{i}/pred']
            text += ser_sentence(preds[i])
    doc = load(text)
    g.note(text, len(gold) > 1 or npred > 1)
    pt = [b.get_tree('pred') for b in doc if b.has_tree('pred')]
    gt = [b.get_tree('gold') for b in doc if b.has_tree('gold')]
    ps, gs = merged([Snap(t) for t in pt]), [Snap(t) for t in gt]
    orig = [list(t.descendants) for t in pt]
    toks = [tok for t in pt for tok in t.token_descendants]
    run_block(ResegmentGold(), doc)
    eq([b.bundle_id for b in doc], [f'b{i}' for i in range(len(gold))], f'{text}: bundles')
    lo = 0
    for i, b in enumerate(doc):
        eq([t.zone for t in b], ['gold', 'pred'], f'{text}: zones')
        unchanged(b.get_tree('gold'), gs[i], f'{text}: gold tree')
        t = b.get_tree('pred')
        words = []
        for tok in toks[lo:bounds[i]]:
            words += list(tok.words) if hasattr(tok, 'words') and not hasattr(tok, 'descendants') else [tok]
        lo = bounds[i]
        s = part(ps, words)
        got = list(t.descendants)
        check(len(got) == len(words) and all(a is c for a, c in zip(got, words)), lambda: f'{text}: words of b{i}: {[w.form for w in got]}, expected {[w.form for w in words]}')
        intact = any(len(words) == len(x) and all(a is c for a, c in zip(words, x)) for x in orig)
        if intact and not any(w.misc['Rehanged'] for w in words):
            pass
        else:
            eq(len(t.children), 1, f'{text}: one word attached to the root of b{i}')
        for w in got:       # dependencies inside one gold sentence are kept
            if s.head[id(w)] is None:
                s.head[id(w)] = None if w.parent is t else w.parent
        expect(t, s, f'{text}: b{i}', ignore_misc=('Rehanged', 'FuncChildMissing'))
    finish(doc, text)


FACETS = {
    'steal': facet(f_steal, 9000),
    'split': facet(f_split, 6000),
    'join': facet(f_join, 6000),
    'merge': facet(f_merge, 6000),
    'resegment': facet(f_resegment, 6000),
}

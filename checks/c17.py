"""C17: selecting, marking, evaluating, splitting, counting and normalising blocks act on exactly the matching units."""
import os
import re
import tempfile
from collections import Counter
from vf.engine import check, eq, Violation, assume
from vf.gens import *
from vf.util import facet
import vf.corefgen as CG
from udapi.block.util.filter import Filter
from udapi.block.util.mark import Mark
from udapi.block.util.markdiff import MarkDiff
from udapi.block.util.eval import Eval
from udapi.block.util.split import Split
from udapi.block.util.see import See
from udapi.block.util.wc import Wc
from udapi.block.util.normalize import Normalize
from udapi.block.util.markmwtbugsatnodes import MarkMwtBugsAtNodes
from udapi.block.corefud.markpairs import MarkPairs
from udapi.block.corefud.markcrossing import MarkCrossing
from udapi.block.corefud.marknested import MarkNested
from udapi.block.corefud.markinterleaved import MarkInterleaved
from udapi.block.corefud.marksamesubspan import MarkSameSubSpan
from udapi.block.corefud.printmentions import PrintMentions

RULE = ('generated documents (1-5 bundles, up to 3 zones, trees of 0-9 words with attributes from small alphabets so that conditions hit) x conditions and options, '
        'compared with a naive application of the condition; non-trivial = the condition selects some but not all words; distinct by document and options')
ASSUMPTIONS = ['conditions read attributes of the word itself (not the topology being changed)',
               'nested matches of util.Filter keep_subtree may hang on the root or on their original parent',
               'percentages in util.See are compared with a tolerance of 1',
               'paired tokens in util.MarkDiff are unique, so that the alignment is forced']
UPOS = ['NOUN', 'VERB', 'PUNCT']
DEPRELS = ['nsubj', 'obj', 'acl:relcl', 'punct']
FORMS = ['a', 'b', 'cc', 'ddd']


class T:
    """Model of one tree."""


def gen_doc(g, bmax=4, zones=True, empties=0.2, mwt=0.15, empty_trees=0.1, nmax=8):
    """A document built through the API, with a model; attributes include marks."""
    doc = new_doc()
    trees = []
    for b in range(g.int(1, bmax)):
        bundle = doc.create_bundle()
        for z in (g.subset(['', 'en', 'cs'], 0.5, 1) if zones else ['']):
            n = 0 if g.bool(empty_trees) else heads_size(g, 1, nmax)
            root = bundle.create_tree(z)
            t = T()
            t.root, t.bundle, t.zone, t.heads = root, bundle, z, gen_heads(g, n)
            t.words = []
            for i in range(n):
                w = root.create_child(form=g.choice(FORMS), lemma=g.choice(FORMS), upos=g.choice(UPOS + [None] if g.bool(0.2) else UPOS),
                                      deprel=g.choice(DEPRELS), feats=g.choice(['_', 'Case=Nom', 'Case=Gen|Number=Sing', 'Number=Sing']),
                                      misc=g.choice(['_', '_', 'X=1', 'Mark=old', 'ToDo=t|X=2', 'Bug=b1', 'SpaceAfter=No']))
                t.words.append(w)
            for w, h in zip(t.words, t.heads):
                if h:
                    w.parent = t.words[h - 1]
            t.empties = []
            while t.words and g.bool(empties) and len(t.empties) < 3:
                t.empties.append(g.choice(t.words).create_empty_child('dep', form=g.choice(FORMS), upos=g.choice(UPOS), misc=g.choice(['_', 'Mark=old', 'X=1'])))
            t.empties = list(root.empty_nodes)
            i = 0
            t.mwts = []
            while i + 1 < n and g.bool(0.6):
                if g.bool(mwt):
                    k = g.int(2, min(3, n - i))
                    t.mwts.append(root.create_multiword_token(t.words[i:i + k], form='M', misc=g.choice(['_', 'Bug=b1', 'Bug=b2', 'Bug=b1+b2'])))
                    i += k
                else:
                    i += 1
            if g.bool(0.2):
                root.newdoc = g.choice([True, 'd1'])
            if g.bool(0.2):
                root.newpar = g.choice([True, 'p1'])
            if g.bool(0.2):
                root.add_comment('comment')
            trees.append(t)
    return doc, trees


CONDS = [
    ('node.upos == "NOUN"', lambda w: w.upos == 'NOUN'),
    ('node.form == "a"', lambda w: w.form == 'a'),
    ('len(node.form) > 1', lambda w: len(w.form) > 1),
    ('node.deprel.startswith("acl")', lambda w: w.deprel.startswith('acl')),
    ('node.udeprel == "acl" or node.upos is None', lambda w: w.deprel == 'acl:relcl' or w.upos is None),
    ('node.feats["Case"] == "Nom"', lambda w: str(w.feats).find('Case=Nom') >= 0),
    ('re.match("ToDo|Bug", str(node.misc))', lambda w: str(w.misc).startswith(('ToDo', 'Bug'))),
    ('node.misc["X"]', lambda w: 'X=' in str(w.misc)),
    ('node.lemma in ("a", "b") and not node.is_root()', lambda w: w.lemma in ('a', 'b')),
    ('True', lambda w: True),
    ('False', lambda w: False),
]
TCONDS = [
    ('len(tree.descendants) > 3', lambda t: len(t.words) > 3),
    ('tree.newdoc', lambda t: bool(t.root.newdoc)),
    ('root.zone == "en"', lambda t: t.zone == 'en'),
    ('tree.descendants and tree.descendants[0].form == "a"', lambda t: bool(t.words) and t.words[0].form == 'a'),
    ('any(n.upos == "VERB" for n in root.descendants)', lambda t: any(w.upos == 'VERB' for w in t.words)),
    ('re.search("comment", tree.comment)', lambda t: 'comment' in t.root.comment),
]


def describe(doc, trees):
    return '\n'.join(f'tree {t.bundle.bundle_id}/{t.zone}: ' + ' '.join(f'{i}:{w.form},{w.upos},{w.deprel},{w.feats},{w.misc}<-{h}'
                     for i, (w, h) in enumerate(zip(t.words, t.heads), 1)) for t in trees)


def zone_option(g):
    """zones parameter and a predicate."""
    if g.bool(0.6):
        return {}, lambda z: True
    z = g.choice(['all', 'en', 'cs', '', 'en,cs', 'xx', 'cs,en'])
    if z == 'all':
        return dict(zones=z), lambda q: True
    return dict(zones=z), lambda q: q in z.split(',')


def same(xs, ys):
    return len(xs) == len(ys) and all(a is b for a, b in zip(xs, ys))


def f_filter(g):
    doc, trees = gen_doc(g)
    desc = describe(doc, trees)
    names = ['delete_tree', 'delete_tree_if_node', 'delete_subtree', 'keep_tree', 'keep_tree_if_node', 'keep_subtree', 'keep_node']
    chosen = [g.choice(names)] if g.bool(0.75) else sorted(g.subset(names, 0.35, 1), key=names.index)
    if 'keep_tree_if_node' in chosen:   # it decides about the tree alone; parameters after it are not combined with it
        chosen = chosen[:chosen.index('keep_tree_if_node') + 1]
    kw, fns = {}, {}
    for c in chosen:
        code, fn = g.choice(TCONDS if c in ('delete_tree', 'keep_tree') else CONDS)
        kw[c], fns[c] = code, fn
    mark = None
    if 'keep_tree_if_node' in chosen and g.bool():
        kw['mark'] = mark = g.choice(['m', 'nonproj'])
    zkw, zok = zone_option(g)
    msg = f'util.Filter {kw} {zkw} on\n{desc}'
    att = {id(w): attrs(w) for t in trees for w in t.words}
    before = {id(t): snap(t.root) for t in trees}
    # model
    partial = False
    expected = []
    for t in trees:
        keep, words, heads, changed = True, list(t.words), list(t.heads), False
        marked = set()
        idx = list(range(len(words)))               # indices into t.words which are still there
        par = {i: h - 1 for i, h in enumerate(heads)}   # -1 = root
        alt = {}
        if zok(t.zone):
            for c in chosen:
                if not keep:
                    break
                fn = fns[c]
                now = [i for i in idx]
                view = T()
                view.root, view.zone, view.words = t.root, t.zone, [words[i] for i in now]
                if c in ('delete_tree', 'keep_tree'):
                    keep = fn(view) == (c == 'keep_tree')
                    continue
                hit = [i for i in now if fn(words[i])]
                partial |= 0 < len(hit) < len(now)
                if c == 'delete_tree_if_node':
                    keep = not hit
                elif c == 'keep_tree_if_node':
                    keep = bool(hit)
                    marked = set(hit) if mark else set()
                elif c == 'delete_subtree':
                    dead = set(hit)
                    for _ in now:
                        dead |= {i for i in now if par[i] in dead}
                    idx = [i for i in now if i not in dead]
                elif c == 'keep_subtree':
                    keep = bool(hit)
                    live = set(hit)
                    for _ in now:
                        live |= {i for i in now if par[i] in live}
                    idx = [i for i in now if i in live]
                    for i in hit:
                        if par[i] not in live:
                            par[i] = -1
                    alt = dict(par)
                    alt.update((i, -1) for i in hit)
                elif c == 'keep_node':
                    keep = bool(hit) or not now and not hit and False
                    live = set(hit)
                    for table in (par, alt):
                        for i in hit if table else []:
                            j = table[i]
                            while j != -1 and j not in live:
                                j = table[j]
                            table[i] = j
                    idx = hit
        expected.append((t, keep, idx, par, alt, marked))
    if partial:
        g.tag('partial')
    for c in chosen:
        g.tag(c)
    g.note(msg, partial)
    block = Filter(**kw, **zkw)
    run_block(block, doc)
    kept = [e[0] for e in expected if e[1]]
    check(same(list(doc.trees), [t.root for t in kept]), lambda: f'{msg}\nkept trees {[t.address() for t in doc.trees]} expected {[t.bundle.bundle_id + "/" + t.zone for t in kept]}')
    for t, keep, idx, par, alt, marked in expected:
        if not keep:
            continue
        r = t.root
        check_wf(r, msg)
        ws = [t.words[i] for i in idx]
        check(same(list(r.descendants), ws), lambda: f'{msg}\nwords left in {r.address()}: {[w.form for w in r.descendants]}, expected indices {[i + 1 for i in idx]}')
        for i in idx:
            w = t.words[i]
            options = [par[i]] + ([alt[i]] if i in alt else [])
            got = next((j for j in range(len(t.words)) if t.words[j] is w.parent), -1)
            check(got in options, lambda: f'{msg}\nhead of word {i + 1} of {r.address()} is {got + 1}, expected {[o + 1 for o in options]}')
            a = attrs(w)
            b = att[id(w)]
            if i in marked:
                eq(w.misc['Mark'], mark, f'{msg}\nmark of word {i + 1}')
                eq({k: v for k, v in w.misc.items() if k != 'Mark'}, {k: v for k, v in parse_misc(b[6]).items() if k != 'Mark'}, f'{msg}\nmisc of word {i + 1}')
                a, b = a[:6], b[:6]
            eq(a, b, f'{msg}\nattributes of word {i + 1}')
        if len(idx) == len(t.words) and not marked and (not alt or alt == par) and all(par[i] == t.heads[i] - 1 for i in idx):
            eq(snap(r), before[id(t)], f'{msg}\ntree {r.address()} must not change')


def parse_misc(s):
    out = {}
    if s != '_':
        for x in s.split('|'):
            k, e, v = x.partition('=')
            out[k] = v if e else True
    return out


def f_mark(g):
    doc, trees = gen_doc(g, empties=0.5)
    desc = describe(doc, trees)
    code, fn = g.choice(CONDS)
    kw = {}
    attr = 'Mark'
    if g.bool(0.3):
        kw['mark_attr'] = attr = g.choice(['Mark', 'Note', 'X'])
    value = 1
    if g.bool(0.4):
        kw['mark'] = value = g.choice(['val', 2, 'x=y'])
    add = True
    if g.bool(0.5):
        kw['add'] = add = g.choice([0, 1])
    empty = 0
    if g.bool(0.4):
        kw['empty'] = empty = g.choice([0, 1])
    stats = 0
    if g.bool(0.4):
        kw['print_stats'] = stats = 1
    zkw, zok = zone_option(g)
    if empty:
        code, fn = g.choice([c for c in CONDS if 'deprel' not in c[0]])
    msg = f'util.Mark node={code!r} {kw} {zkw} on\n{desc}'
    before = {id(t): snap(t.root) for t in trees}
    miscs = {id(w): (str(w.misc), parse_misc(str(w.misc))) for t in trees for w in t.words + t.empties}
    hits = 0
    want = {}
    for t in trees:
        for w in t.words + (t.empties if empty else []):
            if not zok(t.zone):
                continue
            d = dict(miscs[id(w)][1])
            if fn(w):
                d[attr] = value
                hits += 1
            elif not add:
                for k in (attr, 'ToDo', 'Bug'):
                    d.pop(k, None)
            want[id(w)] = d
    total = sum(len(t.words) for t in trees)
    g.note(msg, 0 < hits < total)
    out = run_block(Mark(code, **kw, **zkw), doc)
    eq(out.strip(), f'util.Mark marked {hits} nodes' if stats else '', f'{msg}\nstatistics')
    for t in trees:
        for w in t.words + t.empties:
            s, d = miscs[id(w)]
            w2 = want.get(id(w), d)
            eq({k: str(v) for k, v in w.misc.items()}, {k: str(v) for k, v in w2.items()}, f'{msg}\nMISC of {w.address()}')
            if w2 == d:
                eq(str(w.misc), s, f'{msg}\nunmarked MISC of {w.address()} must not change')
        after = snap(t.root)
        for k in before[id(t)]:
            if k == 'rows':
                eq([r[:7] + r[8:] for r in after[k]], [r[:7] + r[8:] for r in before[id(t)][k]], f'{msg}\nwords')
            elif k == 'empties':
                eq([r[:7] + r[8:] for r in after[k]], [r[:7] + r[8:] for r in before[id(t)][k]], f'{msg}\nempty nodes')
            else:
                eq(after[k], before[id(t)][k], f'{msg}\n{k}')


def f_markdiff(g):
    """Two zones with forced alignment: every token occurs at most once per side."""
    doc = new_doc()
    gz, pz = 'gold', g.choice(['', 'pred'])
    kw = {}
    value, attr = '1', 'Mark'
    if g.bool(0.3):
        kw['mark'] = value = g.choice(['d', 'x'])
    if g.bool(0.3):
        kw['mark_attr'] = attr = g.choice(['Mark', 'Diff'])
    add = g.bool(0.3)
    if add:
        kw['add'] = 1
    ign = g.bool(0.3)
    if ign:
        kw['ignore_parent'] = 1
    align = g.choice([False, False, 'from-pred', 'from-gold', 'both'])
    if align:
        kw['align'] = align
    stats = g.bool(0.5)
    if stats:
        kw['print_stats'] = -1
    kw['attributes'] = g.choice(['form', 'form,lemma', 'form,upos', 'form,lemma,upos,xpos,deprel,feats'])
    used = kw['attributes'].split(',')
    pairs = []
    counts = Counter()
    lines = []
    for b in range(g.int(1, 3)):
        bundle = doc.create_bundle()
        script = []          # list of ('=', i) ('-', i) ('+', i): at least one equal block between gaps is not needed
        pred, gold = [], []  # token names; names are unique
        prev_gap = False
        for i in range(g.int(1, 9)):
            k = g.weighted([(6, '='), (2, '-'), (2, '+'), (1, 'o')])
            if k in '=o':
                pred.append(f't{i}')
                gold.append(f't{i}' if k == '=' else f'g{i}')
            elif k == '-':
                pred.append(f'p{i}')
            else:
                gold.append(f'q{i}')
        roots = {}
        order = [pz, gz] if g.bool() else [gz, pz]
        for z in order:
            roots[z] = bundle.create_tree(z)
        nodes = {}
        hidden = {}
        for z, toks in ((pz, pred), (gz, gold)):
            nodes[z] = []
            for t in toks:
                other = g.choice(['', 'h']) if 'lemma' not in used else ''
                w = roots[z].create_child(form=t, lemma=t + other, upos='X', deprel='dep', misc=g.choice(['_', 'Mark=old', 'Bug=b', 'Z=1', f'{attr}=older']))
                nodes[z].append(w)
            for w, h in zip(nodes[z], gen_heads(g, len(toks))):
                if h:
                    w.parent = nodes[z][h - 1]
        pairs.append((bundle, pred, gold, nodes[pz], nodes[gz], roots[pz], roots[gz]))
        if g.bool(0.3):      # copy the structure where possible, so that differences are rare
            names = {n.form: n for n in nodes[gz]}
            for w in nodes[pz]:
                gw = names.get(w.form)
                target = None if gw is None else (roots[gz] if w.parent.is_root() else names.get(w.parent.form))
                if target is not None:
                    try:
                        gw.parent = target
                    except Exception:
                        pass
        lines.append(f'{bundle.bundle_id}: pred ' + ' '.join(f'{w.form}({w.misc})<-{w.parent.ord}' for w in nodes[pz]) + ' gold ' + ' '.join(f'{w.form}({w.misc})<-{w.parent.ord}' for w in nodes[gz]))
    msg = f'util.MarkDiff gold_zone={gz} {kw} on\n' + '\n'.join(lines)
    # model: common tokens are equal, the words between them are gaps; the first min(n, m) words of a gap with words on both sides are aligned
    expect = {}
    aligns = {}
    for bundle, pred, gold, pn, gn, pr, gr in pairs:
        common = [t for t in pred if t in set(gold)]
        al = {-1: -1}
        gaps = []
        pi = gi = 0
        eqp = []
        for t in common + [None]:
            p2 = pred.index(t) if t else len(pred)
            g2 = gold.index(t) if t else len(gold)
            gaps.append((pi, p2, gi, g2))
            for k in range(min(p2 - pi, g2 - gi)):
                al[pi + k] = gi + k
            if t:
                al[p2] = g2
                eqp.append((p2, g2))
            pi, gi = p2 + 1, g2 + 1
        marked = set()
        for a, b2, c, d in gaps:
            marked |= {('p', i) for i in range(a, b2)} | {('g', i) for i in range(c, d)}
            for k in range(min(b2 - a, d - c)):
                for at in used:
                    v1, v2 = pn[a + k].get_attrs([at], stringify=False)[0], gn[c + k].get_attrs([at], stringify=False)[0]
                    if str(v1) != str(v2):
                        counts[f'{at.upper()}: {v1} -> {v2}'] += 1
                if not ign and al.get(pn[a + k].parent.ord - 1) != gn[c + k].parent.ord - 1:
                    counts['PARENT-CHANGED'] += 1
            n = min(b2 - a, d - c)
            for i in range(a + n, b2):
                counts['DELETE-WORD'] += 1
                counts['DELETE-LEMMA: ' + pn[i].lemma] += 1
            for i in range(c + n, d):
                counts['ADD-WORD'] += 1
                counts['ADD-LEMMA: ' + gn[i].lemma] += 1
        for p, q in eqp:
            if not ign and al.get(pn[p].parent.ord - 1) != gn[q].parent.ord - 1:
                marked |= {('p', p), ('g', q)}
                counts['ONLY-PARENT-CHANGED'] += 1
        for side, ns in (('p', pn), ('g', gn)):
            for i, w in enumerate(ns):
                d = parse_misc(str(w.misc))
                if not add:
                    for k in (attr, 'ToDo', 'Bug'):
                        d.pop(k, None)
                if (side, i) in marked:
                    d[attr] = value
                if side == 'p' and align in ('both', 'from-pred') and i in al:
                    d['Align'] = str(al[i] + 1)
                if side == 'g' and align in ('both', 'from-gold'):
                    inv = [p for p, q in al.items() if q == i]
                    if inv:
                        d['Align'] = str(inv[0] + 1)
                expect[id(w)] = d
    nmark = sum(1 for d in expect.values() if d.get(attr) == value)
    g.note(msg, 0 < nmark < len(expect))
    snaps = [(snap(pr), snap(gr)) for *_, pr, gr in pairs]
    out = run_block(MarkDiff(gz, **kw), doc)
    for (bundle, pred, gold, pn, gn, pr, gr), (s1, s2) in zip(pairs, snaps):
        for ns, r, s in ((pn, pr, s1), (gn, gr, s2)):
            check(same(list(r.descendants), ns), f'{msg}: words changed')
            for w in ns:
                eq({k: str(v) for k, v in w.misc.items()}, expect[id(w)], f'{msg}\nMISC of {w.form} in {w.address()}')
            now = snap(r)
            eq([x[:7] + x[8:] for x in now['rows']], [x[:7] + x[8:] for x in s['rows']], f'{msg}: other attributes')
            eq(f'{attr} = {value}' in now['comment'], len(pred) != len(gold), f'{msg}: comment of {r.address()}')
    if stats:
        got = {}
        for l in out.split('\n'):
            if l.strip():
                n, _, e = l.strip().partition(' ')
                got[e] = int(n)
        eq(got, dict(counts), f'{msg}\nstatistics')
    else:
        eq(out, '', f'{msg}: output')


def f_markdiff_long(g):
    """Long sentences of a few different words: the same words with the same heads are never marked."""
    doc = new_doc()
    b = doc.create_bundle()
    n = g.int(195, 230)
    forms, heads = [g.choice(['a', 'b', 'c', ',']) for _ in range(n)], gen_heads(g, n)
    pred, gold = b.create_tree('pred'), b.create_tree('gold')
    g.note(dict(forms=forms, heads=heads), True)
    sides = []
    for root, extra in ((pred, 1), (gold, 0)):
        ws = [root.create_child(form=f, deprel='dep') for f in forms]
        for w, h in zip(ws, heads):
            if h:
                w.parent = ws[h - 1]
        if extra:
            x = root.create_child(form='new', deprel='punct')
            x.shift_before_node(ws[0])
        sides.append(ws)
    run_block(MarkDiff('gold'), doc)
    for ws in sides:
        eq([w.ord for w in ws if w.misc['Mark']], [], 'identical words must not be marked')
    eq([w.form for w in pred.descendants if w.misc['Mark']], ['new'], 'marked words')


LOG = []
P = 'import checks.c17 as C; C.LOG.append'


def f_eval(g):
    doc, trees = gen_doc(g, empties=0.4, mwt=0.4)
    desc = describe(doc, trees)
    hooks = g.subset(['start', 'end', 'doc', 'bundle', 'tree', 'node', 'before_doc', 'after_doc', 'before_bundle', 'after_bundle', 'mwt'], 0.45, 1)
    emp = g.bool(0.4)
    zkw, zok = zone_option(g)
    kw = {}
    for h in hooks:
        ref = {'start': 'None', 'end': 'None', 'doc': 'this, doc', 'bundle': 'this, bundle, doc', 'tree': 'this, tree, root, bundle, doc',
               'node': 'this, node, tree, root, bundle, doc', 'before_doc': 'this, doc', 'after_doc': 'this, doc', 'before_bundle': 'this, bundle, doc',
               'after_bundle': 'this, bundle, doc', 'mwt': 'this, mwt, tree, root, bundle, doc'}[h]
        kw[h] = f'{P}(({h!r}, {ref}))'
    count = None
    if 'node' in hooks and g.bool(0.4):
        count = g.choice(['form', 'upos'])
        kw['node'] += f'; count_$.{count} +=1; count_"TOTAL" +=1'
    bydollar = 'node' in hooks and g.bool(0.3)
    if bydollar:
        kw['node'] += "; C.LOG.append(('dollar', $.form, $.misc['X']))"
    want = []
    add = lambda h, *a: want.append((h,) + a) if h in hooks else None
    cnt = Counter()
    for phase in (1,):
        add('start', None)
        add('before_doc', doc, doc)
        add('doc', doc, doc)
        for b in doc.bundles:
            add('before_bundle', b, b, doc)
            add('bundle', b, b, doc)
            for t in trees:
                if t.bundle is b and zok(t.zone):
                    r = t.root
                    add('tree', r, r, r, b, doc)
                    nodes = list(t.words)
                    if emp:
                        nodes = sorted(nodes + t.empties, key=lambda x: float(str(x.ord)) if '.' not in str(x.ord) else int(str(x.ord).split('.')[0]) + int(str(x.ord).split('.')[1]) / 100)
                    for n in nodes:
                        add('node', n, n, r, r, b, doc)
                        if count:
                            cnt[getattr(n, count)] += 1
                            cnt['TOTAL'] += 1
                        if bydollar:
                            want.append(('dollar', n.form, parse_misc(str(n.misc)).get('X', '')))
                    for m in t.mwts:
                        add('mwt', m, m, r, r, b, doc)
            add('after_bundle', b, b, doc)
        add('after_doc', doc, doc)
        add('end', None)
    msg = f'util.Eval {kw} empty_nodes={emp} {zkw} on\n{desc}'
    g.note(msg, len(want) > 5)
    LOG.clear()
    text = conllu(doc)
    block = Eval(empty_nodes=emp, **kw, **zkw)
    out = run_block(block, doc)
    got = list(LOG)
    LOG.clear()
    ok = len(got) == len(want) and all(len(a) == len(b) and a[0] == b[0] and all(x is y or (isinstance(y, str) and x == y) for x, y in zip(a[1:], b[1:])) for a, b in zip(got, want))
    check(ok, lambda: f'{msg}\ncalls {[(a[0], str(a[1])) for a in got]}\nexpected {[(a[0], str(a[1])) for a in want]}')
    if count:
        eq(dict(block.count), dict(cnt), f'{msg}\ncounter')
    eq(conllu(doc), text, f'{msg}\nthe document must not change')
    eq(out, '', 'output')


def f_evalcoref(g):
    layout = g.choice([l for l in CG.LAYOUTS if 'GRP' not in l and 'head' in l])
    sents, sizes, docs = CG.gen_text(g)
    ents = CG.gen_layer(g, sizes, [0] * len(docs), layout)
    assume(ents)
    src = CG.text_of(sents, CG.serialise(g, ents, layout), layout)
    doc = load(src)
    hooks = g.subset(['coref_entity', 'coref_mention'], 0.6, 1)
    kw = {h: f'{P}(({h!r}, this, doc))' for h in hooks}
    ref = load(src)
    want = []
    for e in ref.coref_entities:
        if 'coref_entity' in hooks:
            want.append(('coref_entity', e.eid))
        if 'coref_mention' in hooks:
            want += [('coref_mention', e.eid, m.span, m.words[0].address()) for m in e.mentions]
    msg = f'util.Eval {kw} on\n{src}'
    g.note(msg, len(ents) > 1)
    LOG.clear()
    run_block(Eval(**kw), doc)
    got = [(a[0], a[1].eid) if a[0] == 'coref_entity' else (a[0], a[1].entity.eid, a[1].span, a[1].words[0].address()) for a in LOG]
    check(all(a[2] is doc for a in LOG), 'doc variable')
    LOG.clear()
    eq(got, want, msg)


def f_split(g):
    from udapi.core.run import Run
    import argparse
    n = g.int(0, 14)
    text = ''.join(f'# sent_id = s{i}\n# text = w{i}\n1\tw{i}\t_\t_\t_\t_\t0\troot\t_\t_\n\n' for i in range(n))
    files = g.int(1, 2) if g.bool(0.3) else 1
    by = g.choice(['parts', 'bundles_per_doc'])
    if files == 2:
        by = 'bundles_per_doc'
    k = g.int(1, 6) if g.bool(0.7) else g.int(7, 16)
    msg = f'util.Split {by}={k} with {n} bundles in {files} file(s)'
    g.note(msg, 1 < k < n)
    cut = g.int(0, n) if files == 2 else n
    sents = text.split('\n\n')[:-1]
    with tempfile.TemporaryDirectory() as d:
        names = []
        for j, part in enumerate([sents[:cut], sents[cut:]][:files]):
            names.append(os.path.join(d, f'f{j}.conllu'))
            with open(names[-1], 'w') as fh:
                fh.write(''.join(s + '\n\n' for s in part))
        LOG.clear()
        run = Run(argparse.Namespace(scenario=['read.Conllu', 'files=' + ','.join(names), 'util.Split', f'{by}={k}',
                                               'util.Eval', "doc=import checks.c17 as C; C.LOG.append((doc, [b.bundle_id for b in doc], [b.document is doc for b in doc], [t.document is doc for t in doc.trees], [b.number for b in doc]))"]))
        run.execute()
    got = list(LOG)
    LOG.clear()
    sizes = [len(x[1]) for x in got]
    eq([i for x in got for i in x[1]], [f's{i}' for i in range(n)], f'{msg}: bundles in the parts of sizes {sizes}')
    check(all(all(x[2]) and all(x[3]) for x in got), f'{msg}: bundles do not know their new document')
    check(len(set(id(x[0]) for x in got)) == len(got), 'same document')
    for x in got:
        eq(x[4], list(range(1, len(x[1]) + 1)), f'{msg}: numbers of the bundles of a part')
    if by == 'parts':
        full = [s for s in sizes if s]
        eq(len(full), min(k, n), f'{msg}: number of non-empty parts {sizes}')
        check(not full or max(full) - min(full) <= 1, f'{msg}: sizes {sizes}')
        check(len(sizes) <= max(k, 1), f'{msg}: sizes {sizes}')
    elif files == 1:
        eq([s for s in sizes if s], [k] * (n // k) + ([n % k] if n % k else []), f'{msg}: sizes')
    else:
        check(all(s <= k for s in sizes), f'{msg}: sizes {sizes}')


def naive_attr(t, i, name):
    """Values of a statistic of word i (0-based) of tree model t, by definition."""
    w = t.words[i]
    h = t.heads[i]
    if name[:2] in ('p_', 'c_'):
        if name[0] == 'p':
            if h == 0:
                return None     # not judged: the technical root
            return naive_attr(t, h - 1, name[2:])
        return [v for j in range(len(t.words)) if t.heads[j] == i + 1 for v in naive_attr(t, j, name[2:])]
    if name == 'dir':
        return ['root' if h == 0 else 'left' if i + 1 < h else 'right']
    if name == 'edge':
        return [str(0 if h == 0 else i + 1 - h)]
    if name == 'children':
        return [str(t.heads.count(i + 1))]
    if name == 'siblings':
        return [str(t.heads.count(h) - 1)]
    if name == 'depth':
        d, j = 1, h
        while j:
            d, j = d + 1, t.heads[j - 1]
        return [str(d)]
    if name == 'feats_split':
        return str(w.feats).split('|')
    if name == 'feats[Case]':
        return [parse_misc(str(w.feats)).get('Case', '')]
    v = getattr(w, name)
    return ['' if v is None else v]


def f_see(g):
    doc, trees = gen_doc(g, empties=0.3)
    desc = describe(doc, trees)
    stats = g.subset(['dir', 'edge', 'depth', 'children', 'siblings', 'c_upos', 'c_form', 'form', 'lemma', 'upos', 'deprel', 'feats_split', 'feats[Case]'], 0.4, 1)
    code, fn = g.choice(CONDS)
    n = g.int(1, 6)
    zkw, zok = zone_option(g)
    msg = f'util.See node={code!r} stats={",".join(stats)} n={n} {zkw} on\n{desc}'
    match, every = {s: Counter() for s in stats}, {s: Counter() for s in stats}
    ntrees = mtrees = nodes = mnodes = 0
    for t in trees:
        if not zok(t.zone):
            continue
        ntrees += 1
        hit = False
        for i, w in enumerate(t.words):
            m = bool(fn(w))
            nodes += 1
            mnodes += m
            hit |= m
            for s in stats:
                for v in naive_attr(t, i, s):
                    every[s][v] += 1
                    match[s][v] += m
        mtrees += hit
    g.note(msg, 0 < mnodes < nodes)
    text = conllu(doc)
    out = run_block(See(code, n=n, stats=','.join(stats), **zkw), doc).split('\n')
    eq(conllu(doc), text, f'{msg}: the document changed')
    check(code in out, f'{msg}: condition not printed')
    m = next((x for x in (re.match(r'matches (\d+) out of (\d+) nodes \((\S+)%\) in (\d+) out of (\d+) trees \((\S+)%\)$', l) for l in out) if x), None)
    check(m, lambda: f'{msg}: no summary in {out}')
    eq([int(m[i]) for i in (1, 2, 4, 5)], [mnodes, nodes, mtrees, ntrees], f'{msg}: summary')
    check(abs(float(m[3]) - (100 * mnodes / nodes if nodes else 0)) <= 0.11 and abs(float(m[6]) - (100 * mtrees / ntrees if ntrees else 0)) <= 0.11, f'{msg}: percentages in {m[0]}')
    seen = []
    cur = None
    rows = {}
    for l in out:
        x = re.match(r'=== (.*) \((-?\d+) values?\) ===$', l)
        if x:
            cur = x[1]
            seen.append(cur)
            eq(int(x[2]), sum(1 for c in match[cur].values() if c), f'{msg}: number of values of {cur}')
            rows[cur] = []
            continue
        if cur and l.strip():
            x = re.match(r'^ *(.*?) +(\d+) +(-?\d+)% delta= *([+-] *\d+)%$', l)
            check(x, lambda: f'{msg}: line {l!r}')
            rows[cur].append((x[1], int(x[2]), int(x[3]), int(x[4].replace(' ', ''))))
    eq(seen, stats, f'{msg}: statistics')
    for s in stats:
        tot, ev = sum(match[s].values()) or 1, sum(every[s].values()) or 1
        counts = sorted((c for c in match[s].values() if c), reverse=True)
        eq([r[1] for r in rows[s]], counts[:n], f'{msg}: counts of {s}')
        check(len({r[0] for r in rows[s]}) == len(rows[s]), f'{msg}: repeated value in {rows[s]}')
        for v, c, p, d in rows[s]:
            eq(c, match[s][v], f'{msg}: count of {s}={v!r}')
            check(abs(p - 100 * c / tot) <= 1 and abs(d - (100 * c / tot - 100 * every[s][v] / ev)) <= 1, f'{msg}: percentages of {s}={v!r}: {p} {d}')


def f_wc(g):
    doc, trees = gen_doc(g, zones=g.bool(0.4), empties=0.3, mwt=0.5)
    if g.bool(0.2):     # trees or words deleted earlier in the scenario
        t = trees.pop(g.draw(len(trees)))
        t.root.remove()
    single = all(t.zone == '' for t in trees)
    desc = describe(doc, trees)
    zkw, zok = zone_option(g)
    zkw = {} if single else zkw
    zok = (lambda z: True) if single else zok
    tsv = g.bool()
    use = [t for t in trees if zok(t.zone)]
    words = sum(len(t.words) for t in use)
    mwts = sum(len(t.mwts) for t in use)
    tokens = words - sum(len(m.words) for t in use for m in t.mwts) + mwts
    empty = sum(len(t.empties) for t in use)
    pars = sum(bool(t.root.newpar) for t in use)
    docs = sum(bool(t.root.newdoc) or t is trees[0] for t in use) if single else None
    msg = f'util.Wc tsv={tsv} {zkw} on\n{desc}'
    g.note(msg, mwts > 0 or empty > 0)
    text = conllu(doc)
    block = Wc(tsv=tsv, **zkw)
    out = run_block(block, doc)
    eq(conllu(doc), text, f'{msg}: the document changed')
    want = dict(trees=len(use), words=words, tokens=tokens, mwts=mwts, empty=empty, docs=docs, paragraphs=pars)
    if tsv:
        got = dict(zip(want, map(int, out.rstrip('\n').split('\t'))))
        if docs is None:
            got['docs'] = None
        eq(got, want, msg)
    else:
        got = {}
        for l in out.split('\n'):
            if l.strip():
                n, what = l.split(None, 1)
                got[what] = int(n)
        w = {'trees': len(use), 'words': words}
        if mwts:
            w.update({'multi-word tokens': mwts, 'tokens': tokens})
        if empty:
            w['empty nodes'] = empty
        if pars:
            w['paragraphs'] = pars
        if docs:
            w['documents'] = docs
        if docs is None:
            got.pop('documents', None)
        eq(got, w, msg)


def f_normalize(g):
    sents = [gen_sentence(g, 6, empties=0.4, deps=0.4) for _ in range(g.int(1, 4))]
    text = ''.join(ser_sentence(s) for s in sents)
    assume('Bug' not in text)
    # disorder FEATS and MISC
    rows = []
    for l in text.split('\n'):
        c = l.split('\t')
        if len(c) == 10:
            for k in (5, 9):
                if c[k] != '_' and g.bool(0.6):
                    c[k] = '|'.join(g.perm(c[k].split('|')))
            l = '\t'.join(c)
        rows.append(l)
    text = '\n'.join(rows)
    doc = load(text)
    marks = [g.choice([None, None, True, 'n']) for _ in doc.bundles]
    for b, m in zip(doc.bundles, marks):
        b.trees[0].newdoc = m
    doc.meta['loaded_from'] = g.choice(['/x/y/name.conllu', 'other.conllu', 'a.b.conllu'])
    stem = {'/x/y/name.conllu': 'name', 'other.conllu': 'other', 'a.b.conllu': 'a.b'}[doc.meta['loaded_from']]
    kw = {}
    for k in ('feats', 'misc'):
        if g.bool(0.25):
            kw[k] = 0
    sid = g.bool(0.5)
    start, prefix, fromfile, reset = 1, '', False, False
    if sid:
        kw['sent_id'] = 1
        if g.bool(0.4):
            kw['start_sent_id'] = start = g.int(2, 30)
        if g.bool(0.4):
            kw['sent_id_prefix'] = prefix = 'p-'
        if g.bool(0.4):
            kw['sent_id_from_filename'] = fromfile = 1
            if g.bool():
                kw['sent_id_reset_at_newdoc'] = reset = 1
        if (prefix or start != 1 or fromfile) and g.bool():
            del kw['sent_id']
    ndf = g.bool(0.3)
    if ndf:
        kw['newdoc_from_filename'] = 1
    eno = g.bool(0.4)
    if eno:
        kw['empty_node_ord'] = 1
        for t in doc.trees:        # gaps in the numbering, possible in loaded files
            if t.empty_nodes and g.bool():
                nodes = list(t.descendants_and_empty)
                for n in nodes:
                    n.deps
                last = None
                for e in t.empty_nodes:
                    maj, mi = str(e.ord).split('.')
                    last = g.int(1, 3) + (last[1] if last and last[0] == maj else 0)
                    e.ord = f'{maj}.{last}'
                    last = (maj, last)
    before = conllu(doc)
    msg = f'util.Normalize {kw} loaded_from={doc.meta["loaded_from"]} newdocs {marks} on\n{before}'
    g.note(msg, bool(kw))
    ids_before = [b.bundle_id for b in doc]
    order_before = [[('E' if n.is_empty() else 'W') + str(n.form) for n in t.descendants_and_empty] for t in doc.trees]
    edges = lambda t: [[(nodes_index(t, d['parent']), d['deprel']) for d in n.deps] for n in t.descendants_and_empty]
    edges_before = [edges(t) for t in load(before).trees]
    run_block(Normalize(**kw), doc)
    after = conllu(doc)
    num = start
    ids = []
    for m in marks:
        if reset and m:
            num = 1
        ids.append(f'{stem if fromfile else ""}{prefix}{num}')
        num += 1
    eq([b.bundle_id for b in doc], ids if sid else ids_before, f'{msg}\nsent_ids')
    eq([t.newdoc for t in doc.trees], [(stem if ndf else m) if m else None for m in marks], f'{msg}\nnewdocs')
    b2, a2 = parse_conllu(before), parse_conllu(after)
    eq(order_before, [[('E' if n.is_empty() else 'W') + str(n.form) for n in t.descendants_and_empty] for t in doc.trees], f'{msg}\norder')
    eq([edges(t) for t in doc.trees], edges_before, f'{msg}\nenhanced graph')
    distinct = len({b.bundle_id for b in doc}) == len(doc)     # otherwise the saved file cannot be loaded
    if distinct:
        eq([edges(t) for t in load(after).trees], edges_before, f'{msg}\nenhanced graph after reloading')
    lb, la = [l for l in before.split('\n') if not l.startswith('#')], [l for l in after.split('\n') if not l.startswith('#')]
    eq(len(la), len(lb), f'{msg}\nlines')
    maj, mi = 0, 0
    for x, y in zip(lb, la):
        cx, cy = x.split('\t'), y.split('\t')
        if len(cx) < 10:
            eq(y, x, f'{msg}\nline')
            maj = mi = 0
            continue
        if '-' in cx[0]:
            eq(cy, cx, f'{msg}\nmulti-word token')
            continue
        if '.' in cx[0]:
            mi += 1
            if eno:
                eq(cy[0], f'{maj}.{mi}', f'{msg}\nord of an empty node')
            else:
                eq(cy[0], cx[0], f'{msg}\nord of an empty node')
            eq(cy[1:8], cx[1:8], f'{msg}\nempty node')
            if not eno:
                eq(cy[8], cx[8], f'{msg}\nDEPS')
            continue
        maj, mi = int(cx[0]), 0
        eq(cy[:5] + cy[6:8], cx[:5] + cx[6:8], f'{msg}\nword')
        if not eno:
            eq(cy[8], cx[8], f'{msg}\nDEPS')
        for k, name in ((5, 'feats'), (9, 'misc')):
            if name in kw:
                eq(cy[k], cx[k], f'{msg}\n{name} of a word')
            else:
                eq(sorted(cy[k].split('|')), sorted(cx[k].split('|')), f'{msg}\n{name} of a word')
                keys = [p.split('=')[0].lower() for p in cy[k].split('|')]
                eq(keys, sorted(keys), f'{msg}\norder of {name} of a word')
    if not distinct:
        return
    doc2 = load(after)
    doc2.meta['loaded_from'] = doc.meta['loaded_from']
    run_block(Normalize(**kw), doc2)
    eq(conllu(doc2), after, f'{msg}\napplied twice')


def f_normzones(g):
    """Several zones: only the selected trees are normalised, the rest of the bundle is left alone."""
    zs = ['en', 'cs', 'x']
    feats = ['Number=Sing|Case=Nom', 'Case=Nom|Number=Sing', '_', 'Tense=Past|Aspect=Perf|Mood=Ind']
    miscs = ['Z=1|A=2', 'B=1', '_', 'SpaceAfter=No|Gloss=x|Mark=1', 'b=1|A=2']
    out, info = [], []
    for b in range(g.int(1, 4)):
        here = g.subset(zs, 0.7, 1)
        nd = g.choice([None, None, g.choice(here)])
        for z in here:
            rows = [[str(i + 1), g.choice(FORMS), '_', 'X', '_', g.choice(feats), '0' if i == 0 else '1', 'root' if i == 0 else 'dep', '_', g.choice(miscs)] for i in range(g.int(1, 3))]
            info.append((b, z, z == nd, rows))
            if z == nd:
                out.append(f'# newdoc id = d{b}')
            out.append(f'# sent_id = s{b}/{z}')
            out.extend('\t'.join(r) for r in rows)
            out.append('')
    text = '\n'.join(out) + '\n'
    doc = load(text)
    doc.meta['loaded_from'] = '/x/y.conllu'
    kw = {}
    zones = 'all'
    if g.bool(0.7):
        kw['zones'] = zones = g.choice(['en', 'cs', 'en,x', 'all', 'x'])
    reset = g.bool(0.4)
    sid = reset or g.bool(0.5)
    if sid:
        kw['sent_id'] = 1
    if reset:
        kw.update(sent_id_from_filename=1, sent_id_reset_at_newdoc=1)
    ndf = g.bool(0.4)
    if ndf:
        kw['newdoc_from_filename'] = 1
    for k in ('feats', 'misc'):
        if g.bool(0.2):
            kw[k] = 0
    msg = f'util.Normalize {kw} on\n{text}'
    g.note(msg, zones != 'all' and len({z for _, z, _, _ in info}) > 1)
    run_block(Normalize(**kw), doc)
    got = [l for l in conllu(doc).split('\n')]
    order = lambda v: '|'.join(sorted(v.split('|'), key=lambda q: q.split('=')[0].lower()))
    want = []
    nums, num, last = {}, 0, None
    for b in sorted({b for b, *_ in info}):
        num = 1 if reset and any(i[2] for i in info if i[0] == b) else num + 1
        nums[b] = num
    for (b, z, isnew, rows), t in zip(info, doc.trees):
        eq(t.newdoc, ('y' if ndf else f'd{b}') if isnew else None, f'{msg}\nnewdoc of s{b}/{z}')
        eq(t.bundle.bundle_id, (('y' if reset else '') + str(nums[b])) if sid else f's{b}', f'{msg}\nsent_id of s{b}/{z}')
        sel = zones == 'all' or z in zones.split(',')
        for r in rows:
            r = list(r)
            if sel:
                r[5] = r[5] if 'feats' in kw else order(r[5])
                r[9] = r[9] if 'misc' in kw else order(r[9])
            want.append('\t'.join(r))
    eq([l for l in got if l and not l.startswith('#')], want, f'{msg}\nwords')


def nodes_index(t, n):
    if n.is_root():
        return -1
    return next(i for i, x in enumerate(t.descendants_and_empty) if x is n)


def f_mwtbugs(g):
    doc, trees = gen_doc(g, mwt=0.7, zones=False)
    desc = describe(doc, trees)
    want = {}
    cover = {}
    for t in trees:
        for m in t.mwts:
            for w in m.words:
                cover[id(w)] = m
    changed = 0
    for t in trees:
        for w in t.words:
            d = parse_misc(str(w.misc))
            m = cover.get(id(w))
            bug = parse_misc(str(m.misc)).get('Bug') if m else None
            if bug:
                parts = d['Bug'].split('+') if 'Bug' in d else []
                for x in bug.split('+'):
                    if x not in parts:
                        parts.append(x)
                        changed += 1
                d['Bug'] = '+'.join(parts)
            want[id(w)] = d
    msg = f'util.MarkMwtBugsAtNodes on {[[(m.ord_range, str(m.misc)) for m in t.mwts] for t in trees]}\n{desc}'
    g.note(msg, changed > 0)
    mw = [[(m.ord_range, m.form, str(m.misc)) for m in t.mwts] for t in trees]
    for _ in range(2):
        run_block(MarkMwtBugsAtNodes(), doc)
        for t in trees:
            for w in t.words:
                eq(dict(w.misc.items()), want[id(w)], f'{msg}\nMISC of {w.address()}')
        eq([[(m.ord_range, m.form, str(m.misc)) for m in t.mwts] for t in trees], mw, f'{msg}\ntokens')


def f_corefmarks(g):
    """corefud.Mark*: pairs of mentions of one sentence with given properties."""
    layout = g.choice([l for l in CG.LAYOUTS if 'GRP' not in l and 'head' in l])
    sents, sizes, docs = CG.gen_text(g)
    ents = CG.gen_layer(g, sizes, [0] * len(docs), layout)
    assume(ents)
    src = CG.text_of(sents, CG.serialise(g, ents, layout), layout)
    doc = load(src)
    block = g.choice(['pairs', 'pairs', 'crossing', 'nested', 'interleaved', 'subspan'])
    kw = {}
    mark = not g.bool(0.15)
    if not mark:
        kw['mark'] = 0
    P3 = ['same_entity', 'both_continuous', 'both_discontinuous', 'nested', 'crossing', 'interleaved', 'same_head', 'same_span', 'same_subspan']
    if block == 'pairs':
        for k in g.subset(P3, 0.25):
            kw[k] = g.choice([1, -1, 'only', 'exclude', 'include', 0])
    else:
        for k in {'crossing': ['same_entity_only', 'continuous_only'], 'nested': ['same_entity_only', 'both_discontinuous', 'multiword_only'],
                  'interleaved': ['same_entity_only', 'both_discontinuous'], 'subspan': ['same_entity_only', 'both_discontinuous', 'nested_only']}[block]:
            if g.bool(0.5):
                kw[k] = g.choice([0, 1])
    ms = [m for e in doc.coref_entities for m in e.mentions]
    pos = {}
    for t in doc.trees:
        for i, n in enumerate(t.descendants_and_empty):
            pos[id(n)] = (t.sent_id, i)
    def cls(a, b):
        A, B = [pos[id(w)] for w in a.words], [pos[id(w)] for w in b.words]
        sa, sb = set(A), set(B)
        subs = lambda m: set(m.span.split(','))
        return dict(same_entity=a.entity is b.entity, both_continuous=',' not in a.span and ',' not in b.span,
                    both_discontinuous=',' in a.span and ',' in b.span, nested=sa <= sb or sb <= sa,
                    crossing=bool(sa & sb) and not sa <= sb and not sb <= sa,
                    interleaved=not sa & sb and not max(sa) < min(sb) and not max(sb) < min(sa),
                    same_head=a.head is b.head, same_span=sa == sb, same_subspan=bool(subs(a) & subs(b)), one=len(sa) == 1 or len(sb) == 1)
    def selected(c):
        if block == 'pairs':
            for k in P3:
                v = {'only': 1, 'exclude': -1, 'include': 0}.get(kw.get(k, 0), kw.get(k, 0))
                if v and c[k] != (v == 1):
                    return False
            return True
        if kw.get('same_entity_only', block == 'nested') and not c['same_entity']:
            return False
        if kw.get('both_discontinuous') and not c['both_discontinuous']:
            return False
        if block == 'crossing':
            return c['crossing'] and not (kw.get('continuous_only') and not c['both_continuous'])
        if block == 'nested':
            return c['nested'] and not (kw.get('multiword_only') and c['one'])
        if block == 'interleaved':
            return c['interleaved']
        return c['same_subspan'] and not (kw.get('nested_only') and not c['nested'])
    marked, pairs, matching = set(), 0, 0
    for i, a in enumerate(ms):
        for b in ms[i + 1:]:
            if a.words[0].root is not b.words[0].root:
                continue
            pairs += 1
            if selected(cls(a, b)):
                matching += 1
                if block == 'crossing':
                    marked |= {id(w) for w in a.words if any(w is v for v in b.words)}
                else:
                    marked |= {id(w) for w in a.words} | {id(w) for w in b.words}
    msg = f'{block} {kw} on\n{src}'
    g.note(msg, 0 < matching < pairs)
    g.tag(block)
    if not mark:
        marked = set()
    old = {id(n): {k: v for k, v in n.misc.items()} for n in doc.nodes_and_empty}
    nodes = list(doc.nodes_and_empty)
    objs = {'pairs': MarkPairs, 'crossing': MarkCrossing, 'nested': MarkNested, 'interleaved': MarkInterleaved, 'subspan': MarkSameSubSpan}
    spans = sorted((m.entity.eid, m.span) for m in ms)
    out = run_block(objs[block](**kw), doc)
    if block == 'pairs':
        eq(doc.meta['corefud.MarkPairs'], f'######## Mentions = {len(ms)}, matching/all pairs = {matching} / {pairs}', f'{msg}: totals')
    elif block != 'crossing':
        eq(len([l for l in out.split('\n') if l]), matching, f'{msg}: logged pairs')
    skip_empty = block == 'crossing'      # MarkCrossing looks only at words
    for n in nodes:
        if skip_empty and n.is_empty():
            continue
        eq('Mark' in n.misc, id(n) in marked, f'{msg}: mark of {n}')
        eq({k: v for k, v in n.misc.items() if k != 'Mark'}, old[id(n)], f'{msg}: MISC of {n}')
    eq(sorted((m.entity.eid, m.span) for m in doc.coref_mentions), spans, f'{msg}: mentions changed')


def f_printmentions(g):
    layout = g.choice([l for l in CG.LAYOUTS if 'GRP' not in l and 'head' in l])
    sents, sizes, docs = CG.gen_text(g)
    ents = CG.gen_layer(g, sizes, [0] * len(docs), layout)
    assume(ents)
    src = CG.text_of(sents, CG.serialise(g, ents, layout), layout)
    doc = load(src)
    kw = {}
    opts = ['continuous', 'oneword', 'singleton', 'empty', 'treelet']
    for k in g.subset(opts, 0.4):
        kw[k] = g.choice(['only', 'exclude', 'include', 1, 0])
    conv = {'only': 1, 1: 1, 'exclude': -1, 0: -1, 'include': 0}
    total = not g.bool(0.3)
    if not total:
        kw['print_total'] = 0
    if g.bool(0.5):
        kw['shuffle'] = 0
    kw['color'] = 0
    sel, allm = [], 0
    for e in doc.coref_entities:
        for m in e.mentions:
            if conv[kw.get('singleton', 'include')] and (len(e.mentions) == 1) != (conv[kw['singleton']] == 1):
                continue
            allm += 1
            words = m.words
            heads = 0
            for w in words:
                if not w.is_empty():
                    heads += not any(w.parent is v for v in words)
                else:
                    heads += not any(d['parent'] is v for d in w.deps for v in words)
            c = dict(continuous=',' not in m.span, oneword=len(words) == 1, empty=any(w.is_empty() for w in words), treelet=heads <= 1)
            if all(not conv[kw.get(k, 'include')] or c[k] == (conv[kw[k]] == 1) for k in c):
                sel.append(m)
    msg = f'corefud.PrintMentions {kw} on\n{src}'
    g.note(msg, 0 < len(sel) < allm)
    out = run_writer(PrintMentions, doc, **kw).split('\n')
    heads = [l[len('# Mention = '):] for l in out if l.startswith('# Mention = ')]
    eq(sorted(heads), sorted(' '.join(w.form for w in m.words) for m in sel), f'{msg}: printed mentions')
    eq([l for l in out if l.startswith('######## Total')], [f'######## Total matching/all mentions = {len(sel)} / {allm}'] if total else [], f'{msg}: total')
    check(not any('Mark' in n.misc for n in doc.nodes_and_empty), f'{msg}: marks were left in the document')


FACETS = {
    'filter': facet(f_filter, 9000),
    'mark': facet(f_mark, 6000),
    'markdiff': facet(f_markdiff, 5000),
    'markdifflong': facet(f_markdiff_long, 40),
    'eval': facet(f_eval, 5000),
    'evalcoref': facet(f_evalcoref, 1500),
    'split': facet(f_split, 2500),
    'see': facet(f_see, 4000),
    'wc': facet(f_wc, 4000),
    'normalize': facet(f_normalize, 3500),
    'normzones': facet(f_normzones, 1500),
    'mwtbugs': facet(f_mwtbugs, 3000),
    'corefmarks': facet(f_corefmarks, 3000),
    'printmentions': facet(f_printmentions, 1500),
}

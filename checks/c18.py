"""C18: projectivisation, de-projectivisation and flattening."""
from vf.engine import check, eq, Violation, assume
from vf.gens import *
from vf.util import facet
from udapi.block.transform.proj import Proj
from udapi.block.transform.deproj import Deproj
from udapi.block.transform.flatten import Flatten

RULE = ('random trees (uniform, chains, stars, crossing) of 0-30 words with relations, features, tokens and empty nodes, 1-3 trees per document; non-trivial = the tree '
        'has a non-projective edge; distinct by heads, relations and options')
ASSUMPTIONS = ['every word has a relation; sub-relations contain no plus sign',
               'whether the recorded label stays in MISC after de-projectivisation is not judged',
               'de-projectivisation uses the head strategy of Nivre & Nilsson (first word with the recorded relation, breadth first from the siblings)']
UDEPS = ['nsubj', 'obj', 'obl', 'root', 'conj', 'acl', 'advmod', 'det', 'case', 'xcomp', 'ccomp', 'nmod', 'amod', 'cc', 'punct', 'mark', 'cop', 'aux', 'fixed', 'flat',
         'vocative', 'dislocated', 'expl', 'iobj', 'csubj', 'advcl', 'discourse', 'appos', 'nummod', 'clf', 'compound', 'list', 'parataxis', 'orphan', 'goeswith',
         'reparandum', 'dep', 'x38', 'x39', 'x40']


def ancestors(heads, i):
    out = []
    while i:
        i = heads[i - 1]
        out.append(i)
    return out


def nonproj_edges(heads):
    out = []
    for i, h in enumerate(heads, 1):
        if h:
            for k in range(min(i, h) + 1, max(i, h)):
                if h not in ancestors(heads, k):
                    out.append(i)
                    break
    return out


def gen_tree(g, nmax=10, few=False):
    n = 0 if g.bool(0.03) else (g.int(1, nmax) if g.bool(0.9) else g.int(nmax, 30))
    heads = gen_heads(g, n)
    if n > 2 and not nonproj_edges(heads) and g.bool(0.5):
        # force a crossing: uniform heads on a random permutation
        order = g.perm(list(range(1, n + 1)))
        heads = [0] * n
        for k, w in enumerate(order):
            heads[w - 1] = 0 if k == 0 else order[max(0, k - g.int(1, 2))]
    pool = UDEPS[:3] if few else UDEPS[:g.choice([3, 8, 40])]
    rows, deprels = [], []
    uniq = g.perm(UDEPS) if g.bool(0.3) and n <= len(UDEPS) else None
    for i in range(n):
        dr = uniq[i] if uniq else g.choice(pool)
        if g.bool(0.25):
            dr += ':' + g.choice(['pass', 'sub', 'relcl'])
        deprels.append(dr)
    doc_rows = []
    mwts = {}
    if n > 1 and g.bool(0.2):
        a = g.int(1, n - 1)
        mwts[a] = g.int(a + 1, min(n, a + 2))
    for i in range(1, n + 1):
        if i in mwts:
            doc_rows.append(f'{i}-{mwts[i]}\tww\t_\t_\t_\t_\t_\t_\t_\t_')
        misc = g.choice(['_', '_', 'SpaceAfter=No', 'A=b|C=d'])
        feats = g.choice(['_', 'Case=Nom', 'Case=Gen|Number=Sing'])
        deps = g.choice(['_', '_', f'{heads[i - 1]}:{deprels[i - 1]}'])
        doc_rows.append('\t'.join([str(i), f'w{i}', f'l{i}', g.choice(['NOUN', 'VERB', '_']), g.choice(['_', 'x']), feats, str(heads[i - 1]), deprels[i - 1], deps, misc]))
        if g.bool(0.05):
            doc_rows.append(f'{i}.1\te\te\t_\t_\t_\t_\t_\t{i}:dep\t_')
    return heads, deprels, doc_rows


def gen_document(g, few=False):
    k = g.weighted([(6, 1), (2, 2), (1, 3)])
    trees = [gen_tree(g, few=few) for _ in range(k)]
    text, kept = '', []
    doc = new_doc()
    for i, t in enumerate(trees):
        if t[0]:
            d = load('# sent_id = s%d\n' % (i + 1) + '\n'.join(t[2]) + '\n\n')
            b = d.bundles[0]
            if i == 0:
                doc = d
            else:
                doc.create_bundle().add_tree(b.trees[0].copy() if hasattr(b.trees[0], 'copy') else b.trees[0])
        else:
            if i == 0:
                doc = new_doc()
            doc.create_bundle().create_tree()
    return doc, trees


def others(root, drop_misc=('pproj',), deprel=False):
    """Everything but heads, the recorded label and (optionally) the relation."""
    s = snap(root)
    rows = []
    for n, r in zip(root.descendants, s['rows']):
        misc = {k: v for k, v in n.misc.items() if k not in drop_misc}
        rows.append((r[0], n.form, n.lemma, n.upos, n.xpos, str(n.feats), r[9], tuple(misc.items())) + (() if deprel else (n.deprel,)))
    return rows, s['empties'], s['mwts'], s['text'], s['comment'], s['newdoc'], s['newpar'], s['zone']


def f_proj(g):
    doc, trees = gen_document(g)
    label = g.choice(['misc', 'deprel'])
    kw = {'label': label}
    order = g.choice([None, 'deepest', 'shortest'])
    if order:
        kw['lifting_order'] = order
    if label == 'misc' and g.bool():
        del kw['label']
    roots = [b.trees[0] for b in doc.bundles]
    nodes = [list(r.descendants) for r in roots]
    before = [others(r, deprel=(label == 'deprel')) for r in roots]
    full = [snap(r) for r in roots]
    g.note(dict(heads=[t[0] for t in trees], deprels=[t[1] for t in trees], kw=kw), any(nonproj_edges(t[0]) for t in trees))
    run_block(Proj(**kw), doc)
    trivial = True
    for t, r, ns, bf, fl in zip(trees, roots, nodes, before, full):
        heads, deprels, _ = t
        check_wf(r)
        check(len(ns) == len(r.descendants) and all(a is b for a, b in zip(ns, r.descendants)), 'words or their order changed')
        new = heads_of(r)
        eq(nonproj_edges(new), [], f'non-projective edges left after Proj of {heads}')
        bad = nonproj_edges(heads)
        if not bad:
            eq(snap(r), fl, 'a projective tree was changed')
            continue
        trivial = False
        eq(others(r, deprel=(label == 'deprel')), bf, 'something besides the heads and labels changed')
        for i, (h, n) in enumerate(zip(heads, new), 1):
            check(n == h or n in ancestors(heads, i), f'word {i} of {heads} re-attached to {n}, not an ancestor of its head {h}')
            node = ns[i - 1]
            mark = deprels[h - 1].split(':')[0] if h else '<ROOT>'
            if n == h:
                if label == 'misc':
                    check('pproj' not in node.misc, f'word {i} was not moved but is marked')
                else:
                    eq(node.deprel, deprels[i - 1], f'relation of word {i}, which was not moved')
            elif label == 'misc':
                eq(node.misc['pproj'], mark, f'label recorded for word {i}')
            else:
                u, _, s = deprels[i - 1].partition(':')
                eq(node.deprel, f'{u}:{s}+{mark}', f'label recorded for word {i}')
        # when lifting the only crossing edge minimally suffices, nothing else may happen
        if len(bad) == 1:
            m = list(heads)
            i = bad[0]
            while i in nonproj_edges(m):
                m[i - 1] = m[m[i - 1] - 1]
            if not nonproj_edges(m):
                eq(new, m, f'minimal lifting of {heads}')
    if not trivial:
        g.tag('nonproj')
    if g.bool(0.3):
        s = [snap(r) for r in roots]
        run_block(Proj(**kw), doc)
        eq([snap(r) for r in roots], s, 'a second run changed the projective tree')


def model_deproj(heads, udeps, labels):
    heads = list(heads)
    n = len(heads)
    for i in range(1, n + 1):
        lab = labels[i - 1]
        if not lab:
            continue
        p = heads[i - 1]
        queue = [k for k in range(1, n + 1) if heads[k - 1] == p and k != i]
        while queue:
            a = queue.pop(0)
            if udeps[a - 1] == lab:
                heads[i - 1] = a
                break
            queue += [k for k in range(1, n + 1) if heads[k - 1] == a]
    return heads


def f_deproj(g):
    """De-projectivisation of labelled trees (labels from Proj or arbitrary)."""
    doc, trees = gen_document(g, few=g.bool())
    label = g.choice(['misc', 'deprel'])
    kw = {'label': label} if label == 'deprel' or g.bool() else {}
    roots = [b.trees[0] for b in doc.bundles]
    nodes = [list(r.descendants) for r in roots]
    labels = []
    if g.bool(0.6):
        run_block(Proj(label=label, lifting_order=g.choice(['deepest', 'shortest'])), doc)
        for (heads, deprels, _), r in zip(trees, roots):
            new = heads_of(r)
            labels.append([None if a == b else (deprels[a - 1].split(':')[0] if a else '<ROOT>') for a, b in zip(heads, new)])
    else:
        for (heads, deprels, _), ns in zip(trees, nodes):
            labs = []
            for d, n in zip(deprels, ns):
                lab = g.choice(UDEPS[:8]) if g.bool(0.3) else None
                labs.append(lab)
                if lab and label == 'misc':
                    n.misc['pproj'] = lab
                elif lab:
                    u, _, s = d.partition(':')
                    n.deprel = f'{u}:{s}+{lab}'
            labels.append(labs)
    before = [others(r, deprel=True) for r in roots]
    mid = [heads_of(r) for r in roots]
    g.note(dict(heads=mid, deprels=[t[1] for t in trees], labels=labels, kw=kw), any(any(l) for l in labels))
    run_block(Deproj(**kw), doc)
    for (heads, deprels, _), r, ns, bf, md, labs in zip(trees, roots, nodes, before, mid, labels):
        check_wf(r)
        check(len(ns) == len(r.descendants) and all(a is b for a, b in zip(ns, r.descendants)), 'words or their order changed')
        eq(others(r, deprel=True), bf, 'something besides the heads and labels changed')
        eq([n.deprel for n in ns], deprels, 'relations after Deproj')
        udeps = [d.split(':')[0] for d in deprels]
        eq(heads_of(r), model_deproj(md, udeps, labs), f'heads after Deproj of {md} with labels {labs}')
        if any(labs):
            g.tag('labelled')


def f_inverse(g):
    """Proj then Deproj restores the tree when each lifted word finds its head: unique relations, one lifted edge."""
    n = g.int(3, 14)
    # a projective tree with one word moved under a deeper word such that exactly one edge crosses
    heads = gen_heads(g, n)
    if g.bool(0.7):
        # start from a projective tree and hang one word under a random other
        for _ in range(20):
            bad = nonproj_edges(heads)
            if len(bad) <= 1:
                break
            i = bad[-1]
            heads[i - 1] = heads[heads[i - 1] - 1]
        if not nonproj_edges(heads):
            i = g.int(1, n)
            cand = [k for k in range(1, n + 1) if k != i and i not in ancestors(heads, k)]
            assume(cand)
            heads[i - 1] = g.choice(cand)
    bad = nonproj_edges(heads)
    assume(len(bad) == 1)
    m = list(heads)
    while bad[0] in nonproj_edges(m):
        m[bad[0] - 1] = m[m[bad[0] - 1] - 1]
    assume(not nonproj_edges(m))
    deprels = g.perm(UDEPS)[:n]
    if g.bool(0.3):
        deprels = [d + ':' + g.choice(['pass', 'x']) if g.bool(0.3) else d for d in deprels]
    root, nodes = build_any(g, heads, deprels=deprels)
    label = g.choice(['misc', 'deprel'])
    g.note(dict(heads=heads, deprels=deprels, label=label))
    g.tag('one crossing edge')
    run_block(Proj(label=label, lifting_order=g.choice(['deepest', 'shortest'])), root.document)
    eq(heads_of(root), m, 'minimal lifting')
    run_block(Deproj(label=label), root.document)
    check_wf(root)
    eq(heads_of(root), heads, 'Deproj did not restore the original tree')
    eq([x.deprel for x in nodes[1:]], deprels, 'Deproj did not restore the relations')


def f_flatten(g):
    doc, trees = gen_document(g)
    mode = g.choice(['block', 'oneroot', 'method', 'method_arg'])
    roots = [b.trees[0] for b in doc.bundles]
    nodes = [list(r.descendants) for r in roots]
    before = [others(r, drop_misc=(), deprel=True) for r in roots]
    g.note(dict(heads=[t[0] for t in trees], deprels=[t[1] for t in trees], mode=mode), any(len(t[0]) > 1 for t in trees))
    rel, rest = 'root', 'root'
    if mode == 'block':
        run_block(Flatten(), doc)
    elif mode == 'oneroot':
        run_block(Flatten(oneroot=1), doc)
        rest = 'dep'
    elif mode == 'method':
        for r in roots:
            r.flatten()
    else:
        rel = rest = g.choice(['dep', 'root', 'x:y'])
        for r in roots:
            r.flatten(rel)
    for (heads, _, _), r, ns, bf in zip(trees, roots, nodes, before):
        check_wf(r)
        check(len(ns) == len(r.descendants) and all(a is b for a, b in zip(ns, r.descendants)), 'words or their order changed')
        eq(others(r, drop_misc=(), deprel=True), bf, 'flattening changed something besides heads and relations')
        eq(heads_of(r), [0] + [1] * (len(heads) - 1) if mode == 'oneroot' and heads else [0] * len(heads), 'heads after flattening')
        eq([n.deprel for n in ns], ([rel] + [rest] * (len(ns) - 1)) if ns else [], 'relations after flattening')
        if len(ns) > 2:
            g.tag('words')
            # the tree stays usable
            k = g.int(1, len(ns) - 1)
            ns[k].parent = ns[0]
            check_wf(r)
            eq([c.ord for c in ns[0].children], list(range(2, len(ns) + 1)) if mode == 'oneroot' else [k + 1], 'children after re-attaching a word of the flat tree')


FACETS = {
    'proj': facet(f_proj, 10000),
    'deproj': facet(f_deproj, 7000),
    'inverse': facet(f_inverse, 20000),
    'flatten': facet(f_flatten, 3000),
}

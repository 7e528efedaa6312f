"""C02: documents built or edited through the API survive saving and reloading."""
import io
import os
import tempfile
from vf.engine import check, eq, Violation, assume
from vf.gens import *
from vf.util import facet

RULE = ('random API programs: documents of 1-4 bundles x 1-2 zones with 0-8 words, built from nothing or loaded and then edited (attributes, heads, moves, removals, '
        'tokens, empty nodes, enhanced edges, comments, text, newdoc/newpar, JSON); non-trivial = at least 2 words and 3 API operations; distinct by the written text')
ASSUMPTIONS = ['attribute values are non-empty, without tabs, newlines and surrounding white space, and are not "_" unless meaning an empty value',
               'bundle ids are unique; comments do not imitate the special ones; multi-word tokens stay contiguous',
               'leaving out sentence ids also leaves out the newdoc/newpar lines (the option controls all ids)']


def attr_value(g):
    return g.weighted([(3, None), (5, 'x'), (2, gen_form(g)), (1, '_')])


def kwargs(g, k):
    form = gen_form(g)
    d = dict(form=form)
    if g.bool(0.1):
        d = dict(form=None)
    for a in ('lemma', 'upos', 'xpos', 'deprel'):
        if g.bool(0.5):
            v = attr_value(g)
            d[a] = g.choice(DEPRELS) if a == 'deprel' and v else v
    if g.bool(0.3):
        d['feats'] = g.choice([None, '_', '', 'Case=Nom', {'Number': 'Sing', 'Case': 'Gen'}, 'b=1|A=2'])
    if g.bool(0.3):
        d['misc'] = g.choice([None, '_', '', 'SpaceAfter=No', {'Zz': 'a=b', 'aa': 'c'}, 'x|y=1'])
    return d


def contiguous(t):
    o = sorted(w.ord for w in t.words)
    return o == list(range(o[0], o[0] + len(o)))


def edit_tree(g, root, log, n_ops):
    for _ in range(n_ops):
        words = list(root.descendants)
        op = g.weighted([(6, 'create'), (3, 'parent'), (2, 'shift'), (2, 'remove'), (3, 'mwt'), (3, 'empty'), (3, 'deps'), (3, 'attr'), (2, 'feats'),
                         (2, 'misc'), (1, 'rmmwt'), (1, 'rmempty'), (1, 'flatten'), (1, 'rawdeps'), (1, 'rehang'), (2, 'mwtattr')])
        every = words + list(root.empty_nodes)
        if op == 'create' or not words:
            n = g.choice([root] + words).create_child(**kwargs(g, len(log)))
            log.append('create')
        elif op == 'parent':
            a, p = g.choice(words), g.choice([root] + words)
            if a is p or p.is_descendant_of(a):
                continue
            a.parent = p
        elif op == 'shift':
            a, b = g.choice(words), g.choice(words)
            wc = g.bool()
            if not wc and (a is b or b.is_descendant_of(a)):
                continue
            getattr(a, g.choice(KINDS))(b, without_children=wc)
            for t in list(root.multiword_tokens):
                if not contiguous(t):
                    t.remove()
        elif op in ('remove', 'rehang'):
            g.choice(words).remove(children='rehang' if op == 'rehang' else None)
            for t in list(root.multiword_tokens):
                if not contiguous(t):
                    t.remove()
        elif op == 'mwt':
            i = g.draw(len(words))
            root.create_multiword_token(words[i:i + g.int(1, 3)], form=g.choice(['M', gen_form(g), None]), misc=g.choice([None, '_', 'SpaceAfter=No', {'a': 'b'}]),
                                        **({'feats': g.choice([None, '_', 'Typo=Yes'])} if g.bool(0.4) else {}))
        elif op == 'mwtattr' and root.multiword_tokens:
            t = g.choice(list(root.multiword_tokens))
            k = g.draw(4)
            if k == 0:
                t.form = g.choice(['N', gen_form(g), None])
            elif k == 1:
                t.misc = g.choice([None, '_', 'SpaceAfter=No', {'a': 'b', 'Flag': True}, 'x=1|B=2'])
            elif k == 2:
                t.feats = g.choice([None, '_', 'Typo=Yes', {'Abbr': 'Yes'}])
            else:
                getattr(t, g.choice(['misc', 'feats']))[g.choice(['K', 'a'])] = g.choice(['v', ''])
        elif op == 'rmmwt' and root.multiword_tokens:
            g.choice(list(root.multiword_tokens)).remove()
        elif op == 'empty':
            e = g.choice(every).create_empty_child(g.choice(DEPRELS), after=g.bool(), **{k: v for k, v in kwargs(g, 0).items() if k != 'deprel'})
        elif op == 'rmempty' and root.empty_nodes:
            g.choice(list(root.empty_nodes)).remove()
        elif op == 'deps':
            n = g.choice(every)
            new = {'parent': g.choice([root] + every), 'deprel': g.choice(DEPRELS)}
            if g.bool():
                n.deps.append(new)
            else:
                n.deps = [new]
        elif op == 'rawdeps':
            n = g.choice(every)
            n.raw_deps = g.choice(['_', f'{g.choice([root] + every).ord}:dep:x'])
            n.deps      # from now on the edges follow renumbering
        elif op == 'attr':
            n = g.choice(every)
            a = g.choice(['form', 'lemma', 'upos', 'xpos', 'deprel'])
            if a == 'deprel' and n.is_empty():
                continue
            setattr(n, a, attr_value(g))
        elif op in ('feats', 'misc'):
            n = g.choice(every)
            d = getattr(n, op)
            k = g.draw(4)
            if k == 0:
                d[g.choice(['Case', 'Zz', 'aa'])] = g.choice(['v', '', 'x=y'])
            elif k == 1:
                setattr(n, op, g.choice([None, '_', 'B=1|a=2', 'flag', '']))
            elif k == 2:
                setattr(n, op, {'K': 'v', 'Flag': True})
            else:
                d.clear()
        elif op == 'flatten':
            root.flatten()
        else:
            continue
        log.append(op)
        g.tag(op)


KINDS = ['shift_after_node', 'shift_before_node', 'shift_after_subtree', 'shift_before_subtree']
COMMENTS = ['plain', 'key = value', 'a # b', 'sent_id_orig = 7', 'text_en = Hi', 'x=1', 'newdocument', 'newpar2', 'č  two']


def meta(g, root, first):
    if g.bool(0.4):
        for _ in range(g.int(1, 2)):
            root.add_comment(g.choice(COMMENTS))
    if g.bool(0.3):
        root.text = g.choice(['Stored text.', 'a  b', '', '# x', 'text = y'])
    if g.bool(0.15) or first and g.bool(0.3):
        root.newdoc = g.choice([True, 'doc1', 'doc 2'])
    if g.bool(0.15):
        root.newpar = g.choice([True, 'par1', 'p 2'])
    if g.bool(0.15):
        root.json = {'k': g.choice([1, 'č', [1, None], {'b': 1, 'a': 'x'}])}


def gen_doc(g):
    log = []
    doc = new_doc()
    nb = g.int(1, 3)
    if g.bool(0.4):
        text = ''
        for i in range(nb):
            text += f'# sent_id = s{i}\n' + ser_sentence(gen_sentence(g, 6))
        doc.from_conllu_string(text)
        for n in doc.nodes_and_empty:
            n.deps
        log.append('load')
    else:
        for i in range(nb):
            b = doc.create_bundle()
            if g.bool(0.4):
                b.bundle_id = g.choice(['x', 's-', 'č.']) + str(i)
            for z in g.choice([[None], ['en'], ['', 'cs'], ['en_a', 'en']]):
                b.create_tree(z) if z is not None else b.create_tree()
            log.append('bundle')
    first = True
    for root in list(doc.trees):
        edit_tree(g, root, log, g.weighted([(1, 0), (5, 6), (3, 12)]) if log[0] != 'load' else g.int(0, 5))
        meta(g, root, first)
        first = False
    if g.bool(0.15):
        doc.json = {'d': g.choice([1, {'y': [2]}])}
        log.append('json')
    if g.bool(0.2) and len(doc.bundles) > 1:
        g.choice(doc.bundles).remove()
    if g.bool(0.2):
        t = g.choice(list(doc.trees))
        used = [x.zone for x in t.bundle]
        z = g.choice(['de', 'pl_x'])
        if z not in used:
            t.zone = z
    return doc, log


def norm(v):
    return '_' if v is None else v


def node_fields(n):
    return (str(n.ord), norm(n.form), norm(n.lemma), norm(n.upos), norm(n.xpos), str(n.feats), norm(n.deprel) if not n.is_empty() else '_', str(n.misc),
            '_' if n.is_empty() else str(n.parent.ord), [(str(d['parent'].ord), d['deprel']) for d in n.deps])


def extract(doc):
    out = []
    for b in doc:
        for t in b:
            out.append(dict(
                bundle=b.bundle_id, zone=t.zone, sent_id=t.sent_id,
                text=t.text if t.text is not None else t.compute_text(),
                newdoc=t.newdoc or None, newpar=t.newpar or None, json=t.json,
                comments=[l for l in t.comment.split('\n') if l and not l.startswith('$')],
                nodes=[node_fields(n) for n in t.descendants_and_empty],
                mwts=sorted((min(w.ord for w in m.words), max(w.ord for w in m.words), norm(m.form), str(m.misc), str(m.feats)) for m in t.multiword_tokens)))
    return out


def diff(a, b, msg):
    eq([(x['bundle'], x['zone'], x['sent_id']) for x in a], [(x['bundle'], x['zone'], x['sent_id']) for x in b], f'{msg}: sentences')
    for x, y in zip(a, b):
        for k in y:
            eq(x[k], y[k], f'{msg}: {k} of {y["sent_id"]}')


def prepare(g):
    doc, log = gen_doc(g)
    assume(list(doc.trees))
    for t in doc.trees:     # the marker of the artificial word of an empty sentence is reserved
        if len(t.descendants) == 1 and str(t.descendants[0].misc) == 'Empty=Yes':
            t.descendants[0].misc = '_'
    return doc, log


def f_roundtrip(g):
    doc, log = prepare(g)
    want = extract(doc)
    if g.bool(0.2):
        path = os.path.join(tempfile.gettempdir(), f'c02-{os.getpid()}.conllu')
        doc.store_conllu(path)
        text = open(path, encoding='utf-8', newline='').read()
        from udapi.core.document import Document
        re = Document(path)
        os.unlink(path)
    else:
        text = conllu(doc)
        re = load(text)
    g.note(text + f'# {log}', sum(len(x['nodes']) for x in want) >= 2 and len(log) >= 3, key=text)
    # the written text itself
    sents = parse_conllu(text)
    eq(len(sents), len(want), 'number of sentences written')
    validate_conllu(sents)
    for s, x in zip(sents, want):
        rows = [r for r in s['rows'] if '-' not in r[0]]
        if not any(n[0].isdigit() for n in x['nodes']):
            check('Empty=Yes' in rows[-1][9], 'artificial word')
            rows = rows[:-1]
        eq([(r[0], r[1], r[2], r[3], r[4], r[5], r[7], r[9], r[6]) for r in rows], [n[:9] for n in x['nodes']], f'written lines of {x["sent_id"]}')
        eq([r[8] for r in rows], ['|'.join(f'{a}:{b}' for a, b in n[9]) or '_' for n in x['nodes']], f'written DEPS of {x["sent_id"]}')
        eq([(r[0], r[1], r[9], r[5]) for r in s['rows'] if '-' in r[0]], [(f'{a}-{b}', f, m, fe) for a, b, f, m, fe in x['mwts']], 'written token lines')
        c = s['comments']
        eq([l for l in c if l.startswith('# sent_id =')], ['# sent_id = ' + x['sent_id']], 'sent_id line')
        eq(sum(l.startswith('# text =') for l in c), 1, 'one text line')
    diff(extract(re), want, 'reloaded')
    eq(re.json, doc.json, 'document JSON')
    eq(extract(doc) == want, True, 'saving changed the document')
    eq(conllu(re), text, 'saving the reloaded document')


def f_options(g):
    from udapi.block.write.conllu import Conllu
    doc, log = prepare(g)
    if g.bool(0.3):     # documents whose comments came from a file have their own code path
        doc = load(conllu(doc))
    full = conllu(doc)
    o = dict(print_sent_id=g.bool(), print_text=g.bool(), print_empty_trees=g.bool())
    if g.bool(0.3):
        o = {k: int(v) for k, v in o.items()}
    g.note(full + f'# {o}', not all(o.values()), key=full + str(o))
    keep = []
    if doc.json:
        keep += [l for l in full.split('\n') if l.startswith('# doc_json_')]
    body = full[len(''.join(l + '\n' for l in keep)):]
    blocks = body.split('\n\n')[:-1]
    trees = list(doc.trees)
    eq(len(blocks), len(trees), 'sentences in the default output')
    want = ''.join(l + '\n' for l in keep)
    for b, t in zip(blocks, trees):
        if not t.descendants and not t.empty_nodes and not o['print_empty_trees']:
            continue
        for l in b.split('\n'):
            if l.startswith('#'):
                if not o['print_sent_id'] and (l.startswith('# sent_id = ') or l in ('# newdoc', '# newpar') or l.startswith(('# newdoc id = ', '# newpar id = '))):
                    continue
                if not o['print_text'] and l.startswith('# text = '):
                    continue
            want += l + '\n'
        want += '\n'
    got = run_writer(Conllu, doc, **o)
    eq(got, want, f'output with {o}')
    eq(conllu(doc), full, 'default output after writing with options')


FACETS = {
    'roundtrip': facet(f_roundtrip, 9000),
    'options': facet(f_options, 4000),
}

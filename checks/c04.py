"""C04: malformed CoNLL-U never yields a corrupt tree."""
import io

from vf.engine import check, eq, Violation, assume, Reject
from vf.gens import *
from vf.util import facet

RULE = ('CoNLL-U texts with arbitrary head functions (cycles, self-loops, out-of-range, non-numeric), 0-13 columns, and texts mutated at line, column and character '
        'level, read in strict/robust mode, with and without cycle repair, whole-file and tree by tree; non-trivial = text differs from a valid file '
        '(at least one bad head, bad column count or mutation); distinct by text and options')
ASSUMPTIONS = ['any exception raised by the reader counts as reporting an error', 'the column rule for more than ten columns in robust mode is only: no corrupt tree']


def read(text, g, **kw):
    """(doc, None) or (None, exception); several reading paths."""
    from udapi.block.read.conllu import Conllu
    from udapi.core.document import Document
    mode = g.draw(4)
    doc = Document()
    try:
        if mode == 1:
            kw['bundles_per_doc'] = 1000
        elif mode == 2:
            kw['max_docs'] = 1000
        elif mode == 3:
            r = Conllu(filehandle=io.StringIO(text), **kw)
            while True:
                t = r.read_tree()
                if t is None:
                    return doc, None
                doc.create_bundle().add_tree(t)
        Conllu(filehandle=io.StringIO(text), **kw).process_document(doc)
        return doc, None
    except Exception as e:
        return None, e


def cyclic(heads):
    """Set of words lying on a cycle of the head function (heads 1-based, 0 = root, all in range)."""
    on = set()
    for i in range(1, len(heads) + 1):
        j = heads[i - 1]
        for _ in range(len(heads)):
            if j == i:
                on.add(i)
                break
            if j == 0:
                break
            j = heads[j - 1]
    return on


def gen_bad_heads(g, n):
    k = g.draw(5)
    if k == 0:
        return [g.int(0, n) for _ in range(n)]
    if k == 1:
        return [g.weighted([(8, g.int(0, n)), (1, n + 1), (1, -1), (1, n + 2), (1, -n), (1, 10 ** 6)]) for _ in range(n)]
    heads = gen_heads(g, n)
    if k == 2:      # one edge redirected into a descendant or itself
        i = g.int(1, n)
        heads[i - 1] = g.int(1, n)
    elif k == 3:    # one cycle over a subset
        sub = g.perm(range(1, n + 1))[:g.int(1, n)]
        for a, b in zip(sub, sub[1:] + sub[:1]):
            heads[a - 1] = b
    elif g.bool():
        heads[g.draw(n)] = g.choice([n + 1, -1, -2, n + 7])
    return heads


def f_heads(g):
    nsent = g.weighted([(3, 1), (2, 2), (1, 3)])
    specs = []
    text = ''
    fix = g.bool(0.4)
    for k in range(nsent):
        n = heads_size(g, 1, 8)
        heads = gen_bad_heads(g, n) if k == nsent - 1 or g.bool(0.4) else gen_heads(g, n)
        rows = []
        for i, h in enumerate(heads, 1):
            if g.bool(0.1) and i > 1:
                rows.append(f'{i - 1}.1\te\t_\t_\t_\t_\t_\t_\t_\t_')
            rows.append(f'{i}\tw{i}\tl{i}\t_\t_\t_\t{h}\tr{i}\t_\t_')
            if i < n and g.bool(0.1) and not any('-' in r.split('\t')[0] for r in rows[-2:]):
                rows.insert(len(rows) - 1, f'{i}-{i + 1}\tm\t_\t_\t_\t_\t_\t_\t_\t_')
        text += f'# sent_id = {k + 1}\n' + '\n'.join(rows) + '\n\n'
        specs.append(heads)
    kw = dict(strict=g.bool(0.3))
    if fix:
        kw['fix_cycles'] = True
    bad_range = any(not 0 <= h <= len(hs) for hs in specs for h in hs)
    cyc = not bad_range and any(cyclic(hs) for hs in specs)
    desc = f'{specs} {kw}'
    g.note(desc, bad_range or cyc)
    g.tag((bad_range, cyc, fix))
    doc, err = read(text, g, **kw)
    if bad_range:
        check(doc is None, lambda: f'{desc}: an out-of-range head was not reported')
        return
    if cyc and not fix:
        check(doc is None, lambda: f'{desc}: a cycle was not reported, heads={[heads_of(t) for t in doc.trees]}')
        return
    if doc is None:
        raise Violation(f'{desc}: rejected a readable text: {type(err).__name__} {err}')
    trees = list(doc.trees)
    eq(len(trees), nsent, f'{desc}: number of trees')
    for t, hs in zip(trees, specs):
        check_wf(t, desc)
        eq([(w.form, w.lemma, w.deprel) for w in t.descendants], [(f'w{i}', f'l{i}', f'r{i}') for i in range(1, len(hs) + 1)], f'{desc}: words')
        got = heads_of(t)
        on = cyclic(hs)
        for i, (a, b) in enumerate(zip(got, hs), 1):
            check(a == b or a == 0 and i in on, f'{desc}: word {i} was re-attached from {b} to {a}; words on a cycle: {sorted(on)}; heads now {got}')


HEAD_TOKENS = ['_', '', 'x', '1.0', ' 1', '1 ', '+1', '-0', '0x1', '１', '²', '1_0', 'nan', '1,2', '0', '1', '00']


def f_columns(g):
    """Column counts and unusual head fields."""
    n = heads_size(g, 1, 5)
    heads = gen_heads(g, n)
    rows, kinds = [], []
    bad = False
    expected = []
    for i, h in enumerate(heads, 1):
        cols = [str(i), f'w{i}', f'l{i}', 'NOUN', 'X', 'A=B', str(h), f'r{i}', '_', 'M=1']
        if g.bool(0.1):
            cols[6] = '_'
        k = 10 if g.bool(0.6) else g.int(2, 13)
        if k != 10:
            bad = True
        cols = (cols + ['y', 'z', '_'])[:k]
        rows.append('\t'.join(cols))
        full = (cols + ['_'] * 10)[:10]
        expected.append((full[1], full[2], None if full[3] == '_' else full[3], None if full[4] == '_' else full[4], full[5],
                         int(full[6]) if full[6] != '_' else None, None if full[7] == '_' else full[7], full[9]))
        if i < n and g.bool(0.12):
            k = 10 if g.bool(0.6) else g.int(2, 12)
            bad |= k != 10
            rows.insert(len(rows) - 1, '\t'.join([f'{i}-{i + 1}', 'm'] + ['_'] * (k - 2)))
            kinds.append('mwt')
        if g.bool(0.12):
            k = 10 if g.bool(0.6) else g.int(2, 12)
            bad |= k != 10
            rows.append('\t'.join([f'{i}.1', 'e'] + ['_'] * (k - 2)))
            kinds.append('empty')
    if sum(1 for k in kinds if k == 'mwt') > 1:     # avoid overlapping ranges
        seen, out = -1, []
        for r in rows:
            if '-' in r.split('\t')[0]:
                a, b = map(int, r.split('\t')[0].split('-'))
                if a <= seen:
                    continue
                seen = b
            out.append(r)
        rows = out
        bad = any(len(r.split('\t')) != 10 for r in rows)
    strict = g.bool()
    text = '# sent_id = a\n' + '\n'.join(rows) + '\n\n'
    desc = f'strict={strict}\n{text}'
    g.note(desc, bad)
    nohead = any(e[5] is None for e in expected)
    doc, err = read(text, g, strict=strict, empty_parent=g.choice(['warn', 'ignore']))
    if strict:
        if bad or nohead:
            check(doc is None, lambda: f'{desc}: strict reading accepted a wrong number of columns or an empty head')
            return
    elif any(len(r.split('\t')) > 10 for r in rows):
        if doc is not None:
            for t in doc.trees:
                check_wf(t, desc)
        return
    if doc is None:
        raise Violation(f'{desc}: rejected: {type(err).__name__} {err}')
    t = list(doc.trees)[0]
    check_wf(t, desc)
    eq([(w.form, w.lemma, w.upos, w.xpos, str(w.feats), w.parent.ord, w.deprel, str(w.misc)) for w in t.descendants],
       [e[:5] + (e[5] or 0,) + e[6:] for e in expected], f'{desc}: words')


def f_noise(g):
    """Mutations of valid files: an error or well-formed trees holding the words of the file."""
    lines = []
    for k in range(g.weighted([(2, 1), (2, 2), (1, 3)])):
        s = gen_sentence(g, nmax=5, odd=0.1)
        s['comments'] = g.subset([f'# sent_id = s{k}', '# text = a b', '# newdoc', '# foo'], 0.4)
        lines += ser_sentence(s).split('\n')[:-1]
    muts = []
    for _ in range(g.int(1, 4)):
        if not lines:
            break
        i = g.draw(len(lines))
        k = g.weighted([(4, 'head'), (3, 'id'), (2, 'dupline'), (2, 'delline'), (2, 'swap'), (2, 'char'), (2, 'cols'), (1, 'blank'), (1, 'comment'), (1, 'special'), (1, 'cut')])
        cols = lines[i].split('\t')
        word = len(cols) == 10
        if k == 'head' and word:
            cols[6] = g.choice(HEAD_TOKENS + [str(x) for x in range(-2, 9)])
            lines[i] = '\t'.join(cols)
        elif k == 'id' and word:
            cols[0] = g.choice(['0', '1', '2', '3', '4', '-1', '1-', '1-2', '2-1', '0-1', '1.1', '0.1', '1.0', '9.9', 'x', '', '１', '1-2-3', '5-6', '1.2.3', '1-1', '00001', ' 2', '1.', '.1', '2-1.1'])
            lines[i] = '\t'.join(cols)
        elif k == 'dupline':
            lines.insert(i, lines[i])
        elif k == 'delline':
            del lines[i]
        elif k == 'swap':
            j = g.draw(len(lines))
            lines[i], lines[j] = lines[j], lines[i]
        elif k == 'char' and lines[i]:
            j = g.draw(len(lines[i]))
            c = g.choice(['\t', ' ', '', '#', '-', '.', '0', '1', '\r', '\x0b', '\u2028', '\x00', '\ufeff', '|', ':', '='])
            lines[i] = lines[i][:j] + c + lines[i][j + 1:]
        elif k == 'cols' and word:
            a, b = g.draw(10), g.draw(10)
            cols[a], cols[b] = cols[b], cols[a]
            lines[i] = '\t'.join(cols)
        elif k == 'blank':
            lines.insert(i, g.choice(['', ' ', '\t', '  ']))
        elif k == 'comment':
            lines.insert(i, g.choice(['#', '# sent_id = z', '# sent_id', '# json_x = 1', '# json_x = {', '# newpar id = ', '# global.Entity = q', '# text =']))
        elif k == 'special' and word:
            cols[9] = 'Empty=Yes'
            lines[i] = '\t'.join(cols)
        elif k == 'cut':
            lines = lines[:i + 1]
        muts.append((k, i))
    text = '\n'.join(lines) + '\n' * g.int(0, 3)
    strict, fix = g.bool(0.3), g.bool(0.3)
    desc = f'{muts} strict={strict} fix_cycles={fix}\n{text}'
    g.note(desc, True)
    doc, err = read(text, g, strict=strict, fix_cycles=fix)
    g.tag('error' if doc is None else 'read', *(m for m, _ in muts))
    if doc is None:
        return
    nwords = 0
    for t in doc.trees:
        check_wf(t, desc)
        nwords += len(t.descendants)

    def word_line(l):
        f = l.split('\t')[0]
        if not l or l[0] == '#' or '-' in f or '.' in f:
            return False
        try:
            int(f)
            return True
        except ValueError:
            return False
    if 'Empty=Yes' not in text:
        eq(nwords, sum(map(word_line, text.split('\n'))), f'{desc}: number of words')
    if strict:
        for l in text.split('\n'):
            if l.strip() and l[0] != '#' and 10 not in (len(l.split('\t')), len(l.rstrip().split('\t'))):      # blanks at the end of a line may be dropped
                raise Violation(f'{desc}: strict reading accepted a line with a wrong number of columns: {l!r}')
    # what was accepted has a head function inside the sentence
    for t in doc.trees:
        if not fix:
            hs = heads_of(t)
            check(is_tree(hs), f'{desc}: heads {hs}')


FACETS = {
    'heads': facet(f_heads, 22000),
    'columns': facet(f_columns, 12000),
    'noise': facet(f_noise, 22000),
}

"""Generators of udapi data and well-formedness / snapshot helpers."""
import contextlib
import io
import sys

from vf.engine import G, Violation, check, eq, assume, Reject

PLAIN_FORMS = ['a', 'dog', 'the', 'ran', 'cat', 'of', 'New', 'York', 'x', 'Big', 'city', 'don', 't']
PUNCT_FORMS = ['.', ',', '!', '?', '"', "'", '(', ')', '-', '...', '«', '»', '“', '”', '„', ':', ';', '…', '/']
ODD_FORMS = ['_', '#', '=', '|', 'a=b', 'a|b', '10 000', '\\', '&', '<', '>', '&amp;', '1-2', '3.1', '1', '0', '%s', '{', '}',
             'é', 'ß', 'İ', 'č', '漢字', 'שלום', '😀', 'e\u0301', 'a\u200bb', 'a\u2028b', 'x\x85y', 'a\xa0b', '\ufeffx', 'a_b', '*', '~', '$', '`',
             "d'", "O'Neil", 'http://x.y/?a=b&c=d', 'ROOT', '<ROOT>', 'None', 'True']
UPOS = ['NOUN', 'VERB', 'ADJ', 'ADV', 'PRON', 'DET', 'ADP', 'PUNCT', 'PROPN', 'AUX', 'CCONJ', 'SCONJ', 'NUM', 'PART', 'INTJ', 'SYM', 'X']
DEPRELS = ['dep', 'nsubj', 'obj', 'det', 'case', 'punct', 'acl:relcl', 'nsubj:pass', 'root', 'flat', 'fixed', 'conj', 'cc', 'advmod:emph:x', 'nmod', 'aux', 'cop', 'mark']
FEAT_NAMES = ['Case', 'Number', 'Person', 'aZ', 'abbr', 'Gender[psor]', 'Z', 'A']
FEAT_VALUES = ['Nom', 'Sing', '1', 'a,b', 'Plur', 'X=Y', 'Yes']
MISC_NAMES = ['SpaceAfter', 'Gloss', 'Ref', 'lowercase', 'Zeta', 'Alpha', 'LId', 'x']
MISC_VALUES = ['No', 'a', 'b=c', 'with space', 'č', '1', '2:3,4', '&', 'Yes', 'a_b', '_x', '\\s\\t', '#1/2\\n']


def gen_form(g, odd=0.25):
    k = g.draw(100)
    if k < 60:
        return g.choice(PLAIN_FORMS)
    if k < 100 - int(100 * odd):
        return g.choice(PUNCT_FORMS)
    if g.bool(0.75):
        return g.choice(ODD_FORMS)
    s = g.text('abcXYZčß.,-_=|&<>"\'()[]{}#0123456789漢é\u0301\xa0\u2028 ', 1, 6).strip()
    return s or 'a'


def gen_heads(g, n):
    """Heads (1-based, 0 = root) of a random tree over n words; choice 0 = all attached to the root."""
    if n == 0:
        return []
    mode = g.draw(6)
    heads = [0] * n
    if mode == 0:           # attach left-ward
        for i in range(n):
            heads[i] = g.draw(i + 1)
    elif mode in (1, 2):    # arbitrary tree (usually non-projective)
        order = g.perm(range(1, n + 1))
        for k, i in enumerate(order):
            if mode == 2 and k:     # no second root child
                heads[i - 1] = order[g.draw(k)]
            else:
                c = g.draw(k + 1)
                heads[i - 1] = 0 if c == 0 else order[c - 1]
    elif mode == 3:         # projective
        def rec(lo, hi, par):
            if lo > hi:
                return
            r = g.int(lo, hi)
            heads[r - 1] = par
            # split the left and right part into consecutive blocks
            for a, b in ((lo, r - 1), (r + 1, hi)):
                while a <= b:
                    e = g.int(a, b)
                    rec(a, e, r)
                    a = e + 1
        rec(1, n, 0)
    elif mode == 4:         # chain, either direction, with a twist
        rev = g.bool()
        for i in range(n):
            heads[i] = (i + 2 if i + 2 <= n else 0) if rev else i
        if n > 2 and g.bool():
            j = g.int(1, n)
            if not rev:
                heads[j - 1] = g.draw(j)
    else:                   # two interleaved groups (heavily non-projective)
        tops = [0, 0]
        for i in range(1, n + 1):
            b = g.draw(2)
            heads[i - 1] = tops[b] if tops[b] else (tops[1 - b] if g.bool() else 0)
            if not tops[b] or g.bool(0.4):
                tops[b] = i
    return heads


def is_tree(heads):
    n = len(heads)
    for i in range(1, n + 1):
        seen = set()
        j = i
        while j:
            if j in seen or j < 0 or j > n:
                return False
            seen.add(j)
            j = heads[j - 1]
    return True


def heads_size(g, lo=1, hi=9):
    """Usually lo..hi; sometimes two digits, rarely long."""
    r = g.draw(64)
    if r < 62:
        return g.size(lo, hi)
    if r == 62 or g.bool(0.7):
        return g.int(hi + 1, 2 * hi + 12)
    return g.int(40, 130)


def new_doc():
    from udapi.core.document import Document
    return Document()


def build(heads, forms=None, doc=None, deprels=None, zone=None, upos=None):
    """Build a tree through the API; returns (root, [root, node1, ...])."""
    doc = doc if doc is not None else new_doc()
    root = doc.create_bundle().create_tree(zone)
    nodes = [root]
    for i in range(len(heads)):
        nodes.append(root.create_child(form=forms[i] if forms else f'w{i + 1}',
                                       lemma=f'l{i + 1}',
                                       upos=upos[i] if upos else None,
                                       deprel=deprels[i] if deprels else 'dep'))
    for i, h in enumerate(heads):
        if h:
            nodes[i + 1].parent = nodes[h]
    return root, nodes


def build_text(heads, forms=None, deprels=None):
    """Build the same tree by loading CoNLL-U text."""
    rows = []
    for i, h in enumerate(heads, 1):
        rows.append('\t'.join([str(i), forms[i - 1] if forms else f'w{i}', f'l{i}', '_', '_', '_', str(h),
                               deprels[i - 1] if deprels else 'dep', '_', '_']))
    doc = new_doc()
    doc.from_conllu_string('# sent_id = 1\n' + '\n'.join(rows) + '\n\n')
    root = doc.bundles[0].trees[0]
    return root, [root] + list(root.descendants)


def build_any(g, heads, **kw):
    return build(heads, **kw) if g.bool() else build_text(heads, **{k: v for k, v in kw.items() if k in ('forms', 'deprels')})


def heads_of(root):
    """Heads by order, computed from `parent` only."""
    desc = list(root.descendants)
    pos = {id(n): i for i, n in enumerate(desc, 1)}
    pos[id(root)] = 0
    return [pos.get(id(n.parent), -1) for n in desc]


def well_formed(root, bundle=True):
    """None or a description of a structural inconsistency."""
    desc = list(root.descendants)
    n = len(desc)
    if len(set(map(id, desc))) != n:
        return 'a word occurs twice in descendants'
    ids = {id(root): root}
    for i, node in enumerate(desc, 1):
        if node.ord != i:
            return f'ord of word #{i} is {node.ord!r}: {[x.ord for x in desc]}'
        if not isinstance(node.ord, int):
            return f'ord {node.ord!r} is not an int'
        if node.root is not root:
            return f'word {i} has a wrong root'
        ids[id(node)] = node
    if root.ord != 0:
        return 'root.ord != 0'
    if root.parent is not None:
        return 'root has a parent'
    childcount = 0
    for node in [root] + desc:
        ch = list(node.children)
        childcount += len(ch)
        if [c.ord for c in ch] != sorted(c.ord for c in ch):
            return f'children of {node.ord} not sorted: {[c.ord for c in ch]}'
        if len(set(map(id, ch))) != len(ch):
            return f'duplicate child of {node.ord}'
        for c in ch:
            if id(c) not in ids:
                return f'child {c.form} of {node.ord} is not in the tree'
            if c.parent is not node:
                return f'child {c.ord} of {node.ord} has parent {c.parent}'
    for node in desc:
        p = node.parent
        if p is None:
            return f'word {node.ord} has no parent'
        if id(p) not in ids:
            return f'parent of word {node.ord} is not in the tree'
        if not any(c is node for c in p.children):
            return f'word {node.ord} is not among the children of its parent'
    if childcount != n:
        return f'{childcount} child links for {n} words'
    # acyclic and connected
    for node in desc:
        steps = 0
        p = node
        while p is not root:
            p = p.parent
            steps += 1
            if steps > n + 1:
                return f'cycle above word {node.ord}'
    return None


def check_wf(root, msg=''):
    e = well_formed(root)
    if e:
        raise Violation(f'tree not well formed: {e} {msg}')


def dep_edges(node):
    return [((str(d['parent'].ord) if not d['parent'].is_root() else '0'), d['deprel']) for d in node.deps]


def attrs(node):
    return (node.form, node.lemma, node.upos, node.xpos, str(node.feats), node.deprel, str(node.misc))


def snap(root, deps=True):
    """Comparable snapshot of everything observable in a tree."""
    rows = []
    for n in root.descendants:
        rows.append((n.ord,) + attrs(n) + (n.parent.ord if n.parent is not None else None,
                                           n.raw_deps if deps else None,
                                           [c.ord for c in n.children]))
    em = [(str(e.ord),) + attrs(e) + (e.raw_deps if deps else None,) for e in root.empty_nodes]
    mw = sorted((m.words[0].ord, [w.ord for w in m.words], m.form, str(m.misc)) for m in root.multiword_tokens)
    return dict(rows=rows, empties=em, mwts=mw, text=root.text, comment=root.comment, newdoc=root.newdoc,
                newpar=root.newpar, children=[c.ord for c in root.children], zone=root.zone)


@contextlib.contextmanager
def stdout_to(fh):
    old = sys.stdout
    sys.stdout = fh
    try:
        yield fh
    finally:
        sys.stdout = old


def run_block(block, doc):
    """Run a block on a document, returning what it printed."""
    fh = io.StringIO()
    with stdout_to(fh):
        block.run(doc)
    return fh.getvalue()


def conllu(doc):
    return doc.to_conllu_string()


def load(text):
    d = new_doc()
    d.from_conllu_string(text)
    return d


# ------------------------------------------------------------------ sentence specs
class Word(dict):
    """form lemma upos xpos feats head deprel deps misc (strings as in the file, head int)"""


def gen_feats(g, names=FEAT_NAMES, values=FEAT_VALUES, valueless=0.1, p=0.4, hi=4, sort=0.5):
    if not g.bool(p):
        return '_'
    items = []
    for name in g.list(lambda: g.choice(names), 1, hi, 0.5):
        if any(i.split('=')[0] == name for i in items):
            continue
        items.append(name if g.bool(valueless) else f'{name}={g.choice(values)}')
    if g.bool(sort):
        items.sort(key=lambda s: s.split('=')[0].lower())
    return '|'.join(items)


def gen_word(g, head, odd=0.25):
    return Word(form=gen_form(g, odd), lemma=g.weighted([(3, 'l'), (2, '_'), (2, gen_form(g, odd))]),
                upos=g.weighted([(3, '_'), (5, g.choice(UPOS))]), xpos=g.weighted([(4, '_'), (2, 'X-1'), (1, 'a|b=c')]),
                feats=gen_feats(g), head=head, deprel=g.weighted([(5, g.choice(DEPRELS)), (1, '_')]), deps='_',
                misc=gen_feats(g, MISC_NAMES, MISC_VALUES, p=0.4))


def gen_mwts(g, n, p=0.25, misc=True):
    """Non-overlapping ranges [(lo, hi, form, misc)]."""
    out = []
    i = 1
    while i < n:
        if g.bool(p):
            hi = min(n, i + g.weighted([(5, 1), (2, 2), (1, 3)]))
            out.append((i, hi, gen_form(g), gen_feats(g, MISC_NAMES, MISC_VALUES) if misc else '_', gen_feats(g, p=0.25)))
            i = hi + 1
        else:
            i += 1
    return out


def gen_sentence(g, nmax=7, odd=0.25, mwt=0.15, empties=0.3, deps=0.3, comments=True, single_root=False):
    n = heads_size(g, 1, nmax)
    heads = gen_heads(g, n)
    words = [gen_word(g, h, odd) for h in heads]
    mw = gen_mwts(g, n, mwt)
    for lo, hi, *_ in mw:     # canonical: no SpaceAfter on words inside a range
        for w in words[lo - 1:hi]:
            w['misc'] = '|'.join(x for x in w['misc'].split('|') if x.split('=')[0] != 'SpaceAfter') or '_'
    em = []
    if g.bool(empties):
        for major in range(0, n + 1):
            k = g.weighted([(8, 0), (4, 1), (2, 2), (1, 3)])
            for minor in range(1, k + 1):
                e = gen_word(g, None, odd)
                e['head'] = None
                e['deprel'] = '_'
                em.append((major, minor, e))
    if g.bool(deps) or em:
        ids = [str(i) for i in range(0, n + 1)] + [f'{a}.{b}' for a, b, _ in em]
        for w in words + [e for _, _, e in em]:
            if g.bool(0.7):
                edges = g.list(lambda: f'{g.choice(ids)}:{g.choice(DEPRELS)}', 1, 3, 0.4)
                w['deps'] = '|'.join(edges)
    return dict(words=words, mwts=mw, empties=em, comments=[])


def ser_sentence(s):
    lines = list(s['comments'])
    mw = {m[0]: m for m in s['mwts']}
    em = {}
    for a, b, e in s['empties']:
        em.setdefault(a, []).append((b, e))

    def emit_empties(major):
        for minor, e in em.get(major, ()):
            lines.append('\t'.join((f'{major}.{minor}', e['form'], e['lemma'], e['upos'], e['xpos'], e['feats'], '_', '_', e['deps'], e['misc'])))
    emit_empties(0)
    for i, w in enumerate(s['words'], 1):
        if i in mw:
            lo, hi, form, misc = mw[i][:4]
            lines.append('\t'.join((f'{lo}-{hi}', form, '_', '_', '_', mw[i][4] if len(mw[i]) > 4 else '_', '_', '_', '_', misc)))
        lines.append('\t'.join((str(i), w['form'], w['lemma'], w['upos'], w['xpos'], w['feats'], str(w['head']), w['deprel'], w['deps'], w['misc'])))
        emit_empties(i)
    return '\n'.join(lines) + '\n\n'


def spell(words, mwts):
    """Reference detokenisation from a spec."""
    out = ''
    i = 1
    starts = {m[0]: m for m in mwts}

    def no_space(misc):
        return 'SpaceAfter=No' in misc.split('|')
    while i <= len(words):
        if i in starts:
            lo, hi, form, misc = starts[i][:4]
            out += form + ('' if no_space(misc) else ' ')
            i = hi + 1
        else:
            w = words[i - 1]
            out += w['form'] + ('' if no_space(w['misc']) else ' ')
            i += 1
    return out.rstrip()


# ------------------------------------------------------------------ reference CoNLL-U parser
def parse_conllu(text):
    """Independent parser: list of dicts(comments, rows) with raw 10-column rows."""
    sents = []
    cur = dict(comments=[], rows=[])
    for line in text.split('\n'):
        if line == '':
            if cur['comments'] or cur['rows']:
                sents.append(cur)
                cur = dict(comments=[], rows=[])
        elif line[0] == '#' and not cur['rows']:
            cur['comments'].append(line)
        else:
            cols = line.split('\t')
            if len(cols) != 10:
                raise Violation(f'written line does not have 10 columns: {line!r}')
            cur['rows'].append(cols)
    if cur['comments'] or cur['rows']:
        raise Violation('written CoNLL-U does not end with an empty line')
    return sents


def validate_conllu(sents):
    """Basic validity of written CoNLL-U: ids, ranges, heads."""
    for s in sents:
        nid = 0
        last_empty = None
        pending = 0
        words = [r for r in s['rows'] if r[0].isdigit()]
        n = len(words)
        ids = {'0'} | {r[0] for r in s['rows'] if '-' not in r[0]}
        for r in s['rows']:
            if any(c == '' for c in r):
                raise Violation(f'empty column in {r}')
            if '-' in r[0]:
                lo, hi = map(int, r[0].split('-'))
                check(lo == nid + 1 and hi >= lo and hi <= n and lo > pending, f'bad range {r[0]} at position {nid}')
                pending = hi
            elif '.' in r[0]:
                a, b = r[0].split('.')
                check(int(a) == nid, f'empty node {r[0]} after word {nid}')
                b = int(b)
                check(last_empty is None and b == 1 or last_empty is not None and b == last_empty + 1 or True, '')
                check(last_empty is None or b > last_empty, f'empty nodes not increasing: {r[0]}')
                last_empty = b
                check(r[6] == '_', 'empty node with a head')
            else:
                check(r[0] == str(nid + 1), f'word id {r[0]} after {nid}')
                nid += 1
                last_empty = None
                check(r[6].isdigit() and 0 <= int(r[6]) <= n, f'bad head {r[6]}')
            if '-' not in r[0] and r[8] != '_':
                for d in r[8].split('|'):
                    h, _, rel = d.partition(':')
                    check(h in ids, f'DEPS {r[8]} refers to a missing node; ids={sorted(ids)}')
        heads = [int(r[6]) for r in words]
        check(is_tree(heads), f'written heads {heads} do not form a tree')


def run_writer(cls, doc, **kw):
    """Construct a writer while stdout is captured, run it, return the output."""
    fh = io.StringIO()
    with stdout_to(fh):
        cls(**kw).run(doc)
    return fh.getvalue()

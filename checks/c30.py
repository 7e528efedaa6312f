"""C30: plain-text and legacy-format readers."""
import io
import logging
import os
import shutil
import tempfile
from vf.engine import check, eq, Violation, assume, Reject
from vf.gens import *
from vf.util import facet
from udapi.core.document import Document
from udapi.block.read.sentences import Sentences
from udapi.block.read.text import Text
from udapi.block.read.addsentences import AddSentences
from udapi.block.read.addtext import AddText
from udapi.block.read.conll import Conll
from udapi.block.read.conllup import Conllup
from udapi.block.read.conllu import Conllu
from udapi.block.read.vislcg import Vislcg
from udapi.block.write.vislcg import Vislcg as WVislcg
from udapi.block.write.sentences import Sentences as WSentences

RULE = ('1-3 generated files (plain sentences, wrapped paragraphs, parallel texts, CoNLL-like tables with random columns, VISL-CG) x reader options, read through file names or file handles '
        'and compared with a model of the content, with read.Conllu (default columns) or with the written tree; non-trivial = at least 2 sentences or words; distinct by content and options')
ASSUMPTIONS = ['lines end with \\n or \\r\\n', 'a trailing document without bundles is allowed with bundles_per_doc', 'added sentences and texts: as many files (or lines) as documents (or sentences)',
               'tables without an ID column have no multi-word tokens and no empty nodes']


class Scratch:
    def __enter__(self):
        self.dir = tempfile.mkdtemp()
        self.n = 0
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.dir)

    def put(self, text, bom=False):
        self.n += 1
        p = os.path.join(self.dir, f'f{self.n}.txt')
        with open(p, 'w', encoding='utf-8-sig' if bom else 'utf-8', newline='') as f:
            f.write(text)
        return p


def read_all(reader):
    """Documents of a reader; documents without bundles at the end are dropped."""
    out = []
    for _ in range(100):
        if reader.finished:
            break
        d = Document()
        reader.apply_on_document(d)
        out.append(d)
    check(reader.finished, 'the reader never finishes')
    while len(out) > 1 and not out[-1].bundles:
        out.pop()
    return out


LINE_ATOMS = ['a', 'B', 'ž', '日本', '.', '"', '#', ' ', ' ', '  ', '\t', '\u00a0', '1', '_', '# text = x', '\u2028', '\x85', '\x0c', '\ufeff']


def gen_line(g, odd=True):
    s = ''.join(g.choice(LINE_ATOMS if odd else LINE_ATOMS[:11]) for _ in range(g.weighted([(3, 1), (4, 3), (2, 6), (1, 14)])))
    return s


def gen_lines(g, nmax=8, blank=0.3):
    n = g.size(0, nmax) if g.bool(0.93) else g.int(10, 25)
    out = []
    for _ in range(n):
        out.append('' if g.bool(blank) else gen_line(g))
    nl = g.weighted([(4, '\n'), (1, '\r\n')])
    text = nl.join(out)
    if out and g.bool(0.8):
        text += nl
    return text


def readlines(text):
    """Lines with their ends; only \\n ends a line."""
    out = text.split('\n')
    return [x + '\n' for x in out[:-1]] + ([out[-1]] if out[-1] else [])


def universal(text):
    return text.replace('\r\n', '\n').replace('\r', '\n')


def strip_end(line, chars):
    while line and line[-1] in chars:
        line = line[:-1]
    return line


def model_sentences(text, kw):
    """[(text, preceded by an empty line)]"""
    out, empty = [], False
    for line in readlines(text):
        if line in ('\n', '\r\n') and (kw.get('ignore_empty_lines') or kw.get('newdoc_if_empty_line')):
            empty = True
            continue
        out.append((strip_end(line, kw.get('rstrip', '\r\n ')), empty))
        empty = False
    return out


def model_text(text, kw):
    out, par = [], []
    for line in readlines(text) + ['\n']:
        if line in ('\n', '\r\n'):
            if par:
                out.append((' '.join(par), False))
            par = []
        else:
            par.append(strip_end(line, kw.get('rstrip', '\r\n ')))
    return out


def f_plain(g):
    cls = g.choice([Sentences, Sentences, Text])
    kw = {}
    if cls is Sentences:
        o = g.draw(3)
        if o:
            kw[['', 'ignore_empty_lines', 'newdoc_if_empty_line'][o]] = g.choice([True, 1])
    if g.bool(0.3):
        kw['rstrip'] = g.choice(['\n', '\r\n', '\r\n \t', '\n.'])
    nfiles = g.weighted([(5, 1), (2, 2), (1, 3)])
    texts = [gen_lines(g, blank=g.choice([0, 0.3, 0.6])) for _ in range(nfiles)]
    merge = nfiles > 1 and g.bool(0.3)
    per = g.weighted([(5, 0), (1, 1), (2, 2), (1, 3), (1, 11)])
    split = kw.get('newdoc_if_empty_line') and not per and g.bool(0.4)
    zone = g.choice(['keep', 'keep', 'en'])
    okw = dict(kw)
    if merge:
        okw['merge'] = True
    if per:
        okw['bundles_per_doc'] = per
    if split:
        okw['split_docs'] = True
    if zone != 'keep':
        okw['zone'] = zone
    handle = nfiles == 1 and g.bool(0.5)
    model = model_sentences if cls is Sentences else model_text
    with Scratch() as sc:
        if handle:
            reader = cls(filehandle=io.StringIO(texts[0]), **okw)
            seen = texts
        else:
            paths = [sc.put(t, bom=g.bool(0.1)) for t in texts]
            reader = cls(files=paths if g.bool() else ','.join(paths), **okw)
            seen = [universal(t) for t in texts]
        # a leading BOM character of the content itself is dropped by the default encoding
        assume(handle or not any(t.startswith('\ufeff') for t in texts))
        want = [model(t, kw) for t in seen]
        g.note(dict(block=cls.__name__, options=okw, handle=handle, texts=texts), sum(map(len, want)) > 1, key=(cls.__name__, str(okw), handle, str(texts)))
        docs = read_all(reader)
    # group the expected sentences into documents
    exp = []
    for f, trees in enumerate(want):
        if not (merge and exp):
            exp.append([])
        cur = exp[-1]
        for k, t in enumerate(trees):
            if per and len(cur) == per or split and cur and t[1] and not (merge and k == 0):
                cur = []
                exp.append(cur)
            cur.append((t[0], t[1], k == 0, f))
    exp = [e for e in exp if e]
    got = [[(b.get_tree('' if zone == 'keep' else zone).text) for b in d.bundles] for d in docs if d.bundles]
    if merge and split:
        # whether an empty line at the start of a later file starts a document is not specified
        eq([x for d in got for x in d], [t[0] for d in exp for t in d], 'sentences')
        return
    eq(got, [[t[0] for t in d] for d in exp], 'texts of the sentences')
    for d, e in zip([d for d in docs if d.bundles], exp):
        eq([b.number for b in d.bundles], list(range(1, len(e) + 1)), 'bundle numbers')
        for i, (b, t) in enumerate(zip(d.bundles, e)):
            eq(len(b.trees), 1, 'trees in a bundle')
            tree = b.trees[0]
            eq(len(tree.descendants), 0, 'words')
            if kw.get('newdoc_if_empty_line'):
                if t[2] and i:       # first sentence of a merged file
                    continue
                if i == 0 and not t[2] and not t[1]:   # first of a part of a file
                    continue
                eq(bool(tree.newdoc), t[1] or i == 0, f'newdoc of sentence {i + 1}')
            else:
                check(not tree.newdoc, 'newdoc')
    if cls is Sentences and not kw and len(docs) == 1 and docs[0].bundles and all(t[0] for t in exp[0]):
        eq(run_writer(WSentences, docs[0]), ''.join(t[0] + '\n' for t in exp[0]), 'written sentences')


def f_parallel(g):
    """Two plain-text readers filling two zones of the same bundles."""
    n = g.size(1, 12)
    per = g.weighted([(3, 0), (2, 2), (1, 5)])
    a = [f'en {i} ' + gen_line(g, False).strip() for i in range(n)]
    b = [f'cs {i} ' + gen_line(g, False).strip() for i in range(n)]
    cls2 = g.choice([Sentences, Text])
    kw = dict(bundles_per_doc=per) if per else {}
    r1 = Sentences(filehandle=io.StringIO('\n'.join(a) + '\n'), zone='en', **kw)
    r2 = cls2(filehandle=io.StringIO(('\n' if cls2 is Sentences else '\n\n').join(b) + '\n'), zone='cs', **kw)
    g.note(dict(n=n, per=per, second=cls2.__name__, a=a, b=b), n > 1, key=(n, per, cls2.__name__, str(a), str(b)))
    got = []
    for _ in range(50):
        d = Document()
        r1.apply_on_document(d)
        r2.apply_on_document(d)
        if d.bundles:
            got.append(d)
        if r1.finished and r2.finished:
            break
    check(r1.finished and r2.finished, 'the readers never finish')
    size = per or n
    eq([len(d.bundles) for d in got], [min(size, n - i) for i in range(0, n, size)], 'sizes of documents')
    rows = [[(t.zone, t.text) for t in x.trees] for d in got for x in d.bundles]
    eq(rows, [[('en', x.rstrip(' ')), ('cs', y.rstrip(' '))] for x, y in zip(a, b)], 'sentences in zones')


# ---------------------------------------------------------------- AddSentences, AddText

def f_addsentences(g):
    ndocs = g.weighted([(3, 1), (3, 2), (1, 3)])
    zone = g.choice(['', '', 'en'])
    into = g.choice(['text', 'text', 'text_en', 'gloss'])
    docs = []
    for _ in range(ndocs):
        d = new_doc()
        for _ in range(g.size(1, 5) if g.bool(0.9) else g.int(10, 14)):
            r, _n = build([0] * g.draw(3), doc=d, zone=zone)
            if g.bool(0.3):
                r.comment = g.choice([' c\n', ' c', ' a\n b\n', '$TEXT\n', ' a\n b'])
            r.text = g.choice([None, 'old'])
            if zone and g.bool(0.4):
                r.bundle.create_tree('').text = 'other'
        docs.append(d)
    lines = [[gen_line(g) for _ in d.bundles] for d in docs]
    one = g.bool(0.4)
    nl = g.choice(['\n', '\n', '\r\n'])
    last = nl if g.bool(0.8) else ''
    texts = [nl.join(l) + last for l in lines]
    if one:
        texts = [nl.join(x for l in lines for x in l) + last]
    if not last and any(t.endswith(nl) or not t for t in texts):
        last = nl
        texts = [t + nl for t in texts]
    for t in texts:
        assume(not t.startswith('\ufeff'))
    g.note(dict(lines=lines, one=one, zone=zone, into=into, nl=nl, last=last, comments=[[b.get_tree(zone).comment for b in d.bundles] for d in docs]), sum(map(len, lines)) > 1, key=(str(lines), one, zone, into, nl, last, str([conllu(d) for d in docs])))
    old = [[(r.text, r.comment) for b in d.bundles for r in [b.get_tree(zone)]] for d in docs]
    with Scratch() as sc:
        paths = []
        for t in texts:
            if g.bool(0.1):          # empty files are skipped
                paths += [sc.put('') for _ in range(g.int(1, 2))]
            paths.append(sc.put(t))
        kw = {}
        if zone:
            kw['zone'] = zone
        if into != 'text' or g.bool():
            kw['into'] = into
        block = AddSentences(files=paths, **kw)
        for i, d in enumerate(docs):
            block.process_document(d)
            if not one:
                eq(bool(block.finished), i == len(docs) - 1, f'finished after document {i + 1}')
        check(block.finished, 'not finished')
    for d, ls, os_ in zip(docs, lines, old):
        for b, line, (text, comment) in zip(d.bundles, ls, os_):
            r = b.get_tree(zone)
            line = line.rstrip()
            if into == 'text':
                eq((r.text, r.comment), (line, comment), 'text')
            else:
                eq(r.text, text, 'text')
                eq(r.comment, comment + ('\n' if comment and comment[-1] != '\n' else '') + f' {into} = {line}\n', 'comment')
            if zone and len(b.trees) > 1:
                eq(b.get_tree('').text, 'other', 'text of the other zone')
            saved = conllu(d)
    if last and g.bool(0.3):   # too few lines must be reported
        d = docs[-1]
        with Scratch() as sc:
            block = AddSentences(files=[sc.put(''.join(x + '\n' for x in lines[-1][:-1]))], zone=zone)
            try:
                block.process_document(d)
            except IOError:
                return
            raise Violation('a file without enough lines was accepted')


SPACES = [' ', '\n', '  ', '\n\n', '\t', ' \n', '\n\n\n', ' \n\n', '\n \n', '\u00a0']


def f_addtext(g):
    ndocs = g.weighted([(4, 1), (2, 2), (1, 3)])
    zone = g.choice(['', '', 'en'])
    docs, texts, models = [], [], []
    for _ in range(ndocs):
        d = new_doc()
        text = g.choice(['', '', '\n', ' ', '\n\n '])
        par = True
        model = []
        for _ in range(g.size(1, 5) if g.bool(0.93) else g.int(10, 13)):
            n = g.size(0, 5)
            forms = [g.choice(['a', 'b', 'ž', '.', '10 000', 'Abc', '日', '"']) for _ in range(n)]
            r, nodes = build(gen_heads(g, n), forms=forms, doc=d, zone=zone)
            if n > 1 and g.bool(0.3):
                k = g.int(1, n - 1)
                r.create_multiword_token(nodes[k:k + 2], form=g.choice(['zz', forms[k - 1] + forms[k]]))
            toks = list(r.token_descendants)
            for t in toks:
                if g.bool(0.3):
                    t.misc = g.choice(['SpaceAfter=No', 'X=1', 'X=1|SpaceAfter=No'])
            newpar = par
            par = False
            after = []
            for t in toks:
                sp = g.choice(SPACES) if g.bool(0.7) else ''
                text += t.form + sp
                after.append(sp)
                # a line with blanks only: not specified
                par = None if sp == '\n \n' else '\n\n' in sp
            model.append((newpar, after))
        if g.bool(0.4):
            stripped = text.rstrip()
            if stripped != text:
                text = stripped + g.choice(['', '\n', ' '])
                for k in range(len(model) - 1, -1, -1):     # empty trees after the last token
                    if model[k][1]:
                        break
                    model[k] = (None, [])
        docs.append(d)
        texts.append(text)
        models.append(model)
    add = g.choice([None, True, False, 0, 1])
    g.note(dict(texts=texts, words=[[[t.form for t in b.get_tree(zone).token_descendants] for b in d.bundles] for d in docs], add_newpar=add, zone=zone), True, key=(str(texts), str([conllu(d) for d in docs]), add))
    misc = [[[{k: v for k, v in t.misc.items() if k != 'SpaceAfter'} for t in b.get_tree(zone).token_descendants] for b in d.bundles] for d in docs]
    bad = g.bool(0.1)
    with Scratch() as sc:
        paths = [sc.put(t) for t in texts]
        kw = {} if add is None else dict(add_newpar=add)
        if zone:
            kw['zone'] = zone
        block = AddText(files=paths, **kw)
        logging.disable(logging.CRITICAL)
        try:
            for k, d in enumerate(docs):
                check(not block.finished, 'finished too early')
                block.process_document(d)
        finally:
            logging.disable(logging.NOTSET)
        check(block.finished, 'not finished')
    for d, model, text, ms in zip(docs, models, texts, misc):
        pos = len(text) - len(text.lstrip())
        for b, (newpar, after), m in zip(d.bundles, model, ms):
            r = b.get_tree(zone)
            toks = list(r.token_descendants)
            if add in (False, 0) and add is not None:
                check(not r.newpar, 'newpar added')
            elif newpar is not None:
                eq(bool(r.newpar), newpar, f'newpar before {[t.form for t in toks]}')
            for i, (t, sp, x) in enumerate(zip(toks, after, m)):
                pos = text.index(t.form, pos)
                pos += len(t.form)
                last = not text[pos:pos + 1] or text[pos].isspace()
                eq(dict(t.misc), {**x, **({} if last else {'SpaceAfter': 'No'})}, f'misc of {t.form}')
            eq(r.text, r.compute_text(), 'stored text')
            eq(''.join(r.text.split()), ''.join(''.join(t.form for t in toks).split()), 'characters of the text')


# ---------------------------------------------------------------- tables

def gen_file(g, nmax=6, odd=0.25, empties=0.25, mwt=0.2):
    out = []
    for i in range(g.size(1, 4) if g.bool(0.9) else g.int(10, 12)):
        s = gen_sentence(g, nmax=nmax, odd=odd, empties=empties, mwt=mwt, deps=0.3)
        s['comments'] = []
        if g.bool(0.8):
            s['comments'].append(f'# sent_id = s{i}' + g.choice(['', '', '/en']))
        if g.bool(0.5):
            s['comments'].append('# text = ' + g.choice(['abc', 'a  b', '']))
        if g.bool(0.3):
            s['comments'].append(g.choice(['# c', '#', '# newpar', '# newdoc id = d', '# newdoc', '#x = y']))
        out.append(s)
    return out


def row_deps(t):
    return [(str(e.ord), e.raw_deps) for e in t.empty_nodes] + [w.raw_deps for w in t.descendants]


def view(root):
    s = snap(root)
    s['rows'] = [tuple('_' if v is None and k in (2, 3, 4, 6) else v for k, v in enumerate(r)) for r in s['rows']]
    s['mwts'] = sorted((m.ord_range, m.form, str(m.feats), str(m.misc)) for m in root.multiword_tokens)
    s['empties'] = [(str(e.ord), e.form, str(e.feats), str(e.misc), e.raw_deps, e.lemma or '_', e.upos or '_', e.xpos or '_') for e in root.empty_nodes]
    s['sent_id'] = root.sent_id
    return s


def f_conll(g):
    sents = gen_file(g)
    text = ''.join(ser_sentence(s) for s in sents)
    kw = g.choice([{}, {}, dict(bundles_per_doc=2), dict(sent_id_filter='s[01]'), dict(split_docs=1), dict(ignore_sent_id=1), dict(zone='de'), dict(max_docs=1)])
    g.note(dict(text=text, kw=kw), len(sents) > 1, key=(text, str(kw)))
    a, b = [read_all(cls(filehandle=io.StringIO(text), **kw)) for cls in (Conll, Conllu)]
    eq(len(a), len(b), 'number of documents')
    for x, y in zip(a, b):
        eq([bb.bundle_id for bb in x.bundles], [bb.bundle_id for bb in y.bundles], 'bundle ids')
        for t, u in zip([t for bb in x.bundles for t in bb.trees], [t for bb in y.bundles for t in bb.trees]):
            check_wf(t)
            eq(view(t), view(u), 'tree read by read.Conll and by read.Conllu')
        eq(conllu(x), conllu(y), 'written document')


STD = ['form', 'lemma', 'upos', 'xpos', 'feats', 'head', 'deprel', 'deps', 'misc']
EXTRA = ['PARSEME:MWE', 'NER', 'sem']


def gen_table(g, plus=False, sep='tab', filenum=0):
    cols = g.subset(STD, 0.75)
    if not cols:
        cols = ['form']
    if g.bool(0.75):
        cols = cols + ['ord']
    cols = g.perm(cols) if g.bool(0.8) else sorted(cols, key=(['ord'] + STD).index)
    if plus:
        for x in g.subset(EXTRA, 0.4):
            cols.insert(g.draw(len(cols) + 1), x)
    elif g.bool(0.4):
        for _ in range(g.int(1, 2)):
            cols.insert(g.draw(len(cols) + 1), '_')
    blanks = sep == 'tab'

    def val(x):
        return x if blanks else '_'.join(x.split()) or 'x'
    rows_of = []
    for i in range(g.size(1, 4)):
        s = gen_sentence(g, nmax=6, odd=0.35, empties=0.25 if 'ord' in cols and not plus else 0, mwt=0.3 if 'ord' in cols else 0, deps=0.3 if 'deps' in cols else 0)
        if s['empties'] and 'deps' not in cols:
            s['empties'] = []
        if 'deps' not in cols:
            for w in s['words']:
                w['deps'] = '_'
        rows_of.append(s)
    return cols, rows_of, val


def table_lines(g, cols, s, val, sep, extra):
    """Lines of one sentence in the given columns (through the plain CoNLL-U serialization)."""
    out = []
    s['comments'] = []
    for line in ser_sentence(s).rstrip('\n').split('\n'):
        f = dict(zip(['ord'] + STD, line.split('\t')))
        word = '-' not in f['ord'] and '.' not in f['ord']
        row = []
        for c in cols:
            if c == '_':
                row.append(g.choice(['_', 'junk', '1', '-', '3.5', 'a-b']))
            elif c in f:
                row.append(val(f[c]))
            else:
                v = g.choice(['_', '*', 'B-PER', '1:LVC', '1-2']) if word else '_'
                if word:
                    extra.append((f['ord'], c, v))
                row.append(v)
        out.append(sep.join(row))
    return out


def check_table(tree, s, cols, val, extra):
    check_wf(tree)
    words = list(tree.descendants)
    eq(len(words), len(s['words']), 'number of words')
    for i, (w, e) in enumerate(zip(words, s['words']), 1):
        for c in ('form', 'lemma', 'upos', 'xpos', 'deprel'):
            want = val(e[c]) if c in cols else '_'
            got = getattr(w, c)
            if c == 'form' and c not in cols:
                eq(got, None, 'form')
            elif c == 'form':
                eq(got, want, f'form of word {i}')
            else:
                eq(got or '_', want, f'{c} of word {i}')
        eq(str(w.feats), val(e['feats']) if 'feats' in cols else '_', f'feats of word {i}')
        misc = dict(p.split('=', 1) if '=' in p else (p, True) for p in val(e['misc']).split('|')) if 'misc' in cols and e['misc'] != '_' else {}
        for o, c, v in extra:
            if o == str(i) and v != '_':
                misc[c.lower().capitalize()] = v
        m = tree_mwt(s, i)
        if m is not None:
            misc.pop('SpaceAfter', None)
        eq({k: v for k, v in w.misc.items()}, misc, f'misc of word {i}')
        eq(w.parent.ord, e['head'] if 'head' in cols else 0, f'head of word {i}')
        if 'deps' in cols:
            eq(w.raw_deps, val(e['deps']), f'deps of word {i}')
    mw = sorted((m.ord_range, m.form if 'form' in cols else None, str(m.feats) if 'feats' in cols else '_', {k: v for k, v in m.misc.items() if k != 'SpaceAfter'}) for m in tree.multiword_tokens)
    want = []
    for lo, hi, form, misc, feats in s['mwts']:
        mm = dict(p.split('=', 1) if '=' in p else (p, True) for p in val(misc).split('|')) if 'misc' in cols and misc != '_' else {}
        mm.pop('SpaceAfter', None)
        want.append((f'{lo}-{hi}', val(form) if 'form' in cols else None, val(feats) if 'feats' in cols else '_', mm))
    eq(mw, sorted(want), 'multi-word tokens')
    em = [(str(e.ord), e.form if 'form' in cols else None, str(e.feats), e.raw_deps) for e in tree.empty_nodes]
    eq(em, [(f'{a}.{b}', val(e['form']) if 'form' in cols else None, val(e['feats']) if 'feats' in cols else '_', val(e['deps'])) for a, b, e in s['empties']], 'empty nodes')


def tree_mwt(s, i):
    for m in s['mwts']:
        if m[0] <= i <= m[1]:
            return m
    return None


def f_columns(g):
    sep = g.choice(['tab', 'tab', 'space', 'doublespace'])
    cols, sents, val = gen_table(g, sep=sep)
    glue = {'tab': '\t', 'space': g.choice([' ', '  ', ' \t ']), 'doublespace': g.choice(['  ', '    '])}[sep]
    # a line beginning with # would be a comment, an all-blank line ends the sentence
    text = ''
    for s in sents:
        extra = []
        lines = table_lines(g, cols, s, val, glue, extra)
        assume(not any(l.startswith('#') for l in lines))
        assume(sep != 'tab' or all(l == l.rstrip() for l in lines))
        text += '\n'.join(lines) + '\n\n'
    kw = dict(attributes=','.join(cols))
    if sep != 'tab' or g.bool(0.2):
        kw['separator'] = sep
    if g.bool(0.2):
        kw['strict'] = True
    g.note(dict(text=text, kw=kw), sum(len(s['words']) for s in sents) > 1, key=(text, str(kw)))
    fast = g.bool()
    if not fast:
        kw['bundles_per_doc'] = 100
    docs = read_all(Conll(filehandle=io.StringIO(text), **kw))
    trees = [t for d in docs for b in d.bundles for t in b.trees]
    eq(len(trees), len(sents), 'number of sentences')
    for t, s in zip(trees, sents):
        check_table(t, s, cols, val, [])


def f_plus(g):
    nfiles = g.weighted([(4, 1), (2, 2)])
    files = []
    with Scratch() as sc:
        explicit = nfiles == 1 and g.bool(0.3)
        paths, alls = [], []
        for k in range(nfiles):
            cols, sents, val = gen_table(g, plus=True)
            ups = [{'ord': 'ID'}.get(c, c if c in EXTRA else c.upper()) for c in cols]
            text = '' if explicit else '# global.columns = ' + ' '.join(ups) + '\n'
            for i, s in enumerate(sents):
                extra = []
                if i or g.bool():
                    text += f'# sent_id = f{k}s{i}\n'
                lines = table_lines(g, cols, s, val, '\t', extra)
                assume(not any(l.startswith(('#', '\ufeff')) for l in lines))
                assume(all(l == l.rstrip() for l in lines))
                text += '\n'.join(lines) + '\n\n'
                alls.append((s, cols, val, extra))
            files.append(text)
            paths.append(sc.put(text))
        kw = dict(attributes=','.join(cols)) if explicit else {}
        if g.bool(0.3):
            kw['save_global_columns'] = True
        if g.bool(0.3):
            kw['merge'] = True
        g.note(dict(files=files, kw=kw), len(alls) > 1, key=(str(files), str(kw)))
        docs = read_all(Conllup(files=paths, **kw))
    trees = [t for d in docs for b in d.bundles for t in b.trees]
    eq(len(trees), len(alls), 'number of sentences')
    for t, (s, cols, val, extra) in zip(trees, alls):
        check_table(t, s, cols, val, extra)
    if not explicit:
        heads = [x for t in trees for x in t.comment.split('\n') if 'global.columns' in x]
        eq(heads, [f.split('\n')[0][1:] for f in files] if kw.get('save_global_columns') else [], 'comments global.columns')


def f_damaged(g):
    """Short rows, empty or impossible heads, cycles and wrong ids: the same verdict and trees as read.Conllu."""
    cols = ['ord'] + STD
    plus = g.bool(0.4)
    if g.bool(0.7):
        cols = g.perm(cols)
    ups = ['ID' if c == 'ord' else c.upper() for c in cols]
    a = b = ''
    if plus:
        a = '# global.columns = ' + ' '.join(ups) + '\n'
    short = odd = False
    for k in range(g.weighted([(3, 1), (2, 2), (1, 3)])):
        n = g.size(1, 6)
        heads = gen_heads(g, n)
        rows = []
        for i, h in enumerate(heads, 1):
            if g.bool(0.2):
                odd = True
                h = g.choice(['_', '_', str(g.int(0, n)), str(g.int(0, n)), str(i), str(n + 1), '-1', 'x', ''])
            o = str(i)
            if g.bool(0.03):
                odd = True
                o = g.choice([str(i + 1), '0', 'x', '_'])
            rows.append([o, g.choice(['w', '_', 'ž']), g.choice(['l', '_']), g.choice(['NOUN', '_']), g.choice(['x', '_']), g.choice(['A=B', '_']), str(h),
                         g.choice(['dep', '_']), g.choice([f'{h}:dep', '_']), g.choice(['M=1', 'SpaceAfter=No', '_', 'Empty=Yes'])])
            if i < n and g.bool(0.1) and not (len(rows) > 1 and '-' in rows[-2][0]):
                rows.insert(len(rows) - 1, [f'{i}-{i + 1}', 'm', '_', '_', '_', '_', '_', '_', '_', g.choice(['_', 'N=2'])])
        c = g.choice(['', f'# sent_id = s{k}\n', '# x\n'])
        a += c
        b += c
        for r in rows:
            d = dict(zip(['ord'] + STD, r))
            out = [d[c] for c in cols]
            if g.bool(0.08):
                short = True
                m = g.int(1, 9)
                for c in cols[m:]:
                    d[c] = '_'
                out = out[:m]
            if plus and d['head'] == '0' and '-' not in d['ord'] and len(out) > cols.index('head') and g.bool(0.2):
                out[cols.index('head')] = '???'
            line = '\t'.join(out)
            if line != line.rstrip() or not line or line[0] == '#':
                raise Reject()
            a += line + '\n'
            b += '\t'.join(d[c] for c in ['ord'] + STD) + '\n'
        a += '\n'
        b += '\n'
    kw = dict(strict=g.bool(0.3))
    if g.bool(0.4):
        kw['fix_cycles'] = True
    if g.bool(0.4):
        kw['empty_parent'] = 'ignore'
    if g.bool(0.3):
        kw['bundles_per_doc'] = 100
    g.note(dict(text=a, plus=plus, kw=kw), short or odd, key=(a, plus, str(kw)))
    g.tag((plus, short, odd))
    try:
        want = read_all(Conllu(filehandle=io.StringIO(b), **kw))
    except Exception as e:
        want = None
    if kw['strict'] and short:
        want = None
    cls, okw = (Conllup, kw) if plus else (Conll, dict(kw, attributes=','.join(cols)))
    try:
        got = read_all(cls(filehandle=io.StringIO(a), **okw))
    except Exception as e:
        if want is not None:
            raise Violation(f'{kw}: refused a readable file: {type(e).__name__}: {e}\n{a}')
        return
    check(want is not None, lambda: f'{kw}: a damaged file was accepted\n{a}')
    x, y = [[t for d in docs for bb in d.bundles for t in bb.trees] for docs in (got, want)]
    eq(len(x), len(y), 'number of sentences')
    for t, u in zip(x, y):
        check_wf(t)
        eq(view(t), view(u), f'{kw}: tree')


# ---------------------------------------------------------------- VISL-CG

VL = ['a', 'být', '10 000', '"', 'a"b', '#', '§', '§quot.', '=', ';', '(x)', 'a|b', '.', '日', '§sect.', '->', '@x', '<', '>']


def f_vislcg(g):
    doc = new_doc()
    n_trees = g.size(1, 4) if g.bool(0.9) else g.int(10, 12)
    for _ in range(n_trees):
        n = g.size(0, 7) if g.bool(0.12) else g.size(1, 7)
        if g.bool(0.05):
            n = g.int(10, 14)
        r, nodes = build(gen_heads(g, n), forms=[g.choice(VL) for _ in range(n)], doc=doc, deprels=[g.choice(['nsubj', 'acl:relcl', 'root', 'x']) for _ in range(n)])
        for w in nodes[1:]:
            w.lemma = g.choice(VL)
            w.xpos = g.choice(['n', 'prn', 'X-1', '(', 'a|b', '#'])
            w.feats = g.choice(['_', 'p3|sg', 'pers', 'Case=Nom', 'A=1|B=2|C=3', 'Case=Nom|Number=Sing', 'a|b|c|d|e'])
        i = 1
        while i < n:
            if g.bool(0.3):
                j = min(n, i + g.int(1, 2))
                r.create_multiword_token(nodes[i:j + 1], form=g.choice(['tok', 'a b', 'x y z', '"', ' '.join(w.form for w in nodes[i:j + 1])]))
                i = j + 1
            else:
                i += 1
    trees = [b.trees[0] for b in doc.bundles]
    text = run_writer(WVislcg, doc)
    # comments and additional empty lines of other producers
    comments = {}
    parts = [p for p in text.split('\n\n')]
    out = ''
    k = 0
    for t in trees:
        body = ''
        if len(t.descendants):
            if g.bool(0.2):
                body = f'# c{k}\n#d\n'
                comments[k] = f' c{k}\nd\n'
            k += 1
        one = run_writer_tree(t)
        check(one.endswith('\n'), 'written sentence ends with a newline')
        out += body + one + ('\n' if g.bool(0.1) else '')
    if g.bool(0.1):
        out = '\n' * g.int(1, 2) + out
    if not comments and g.bool():
        out = text
    elif g.bool(0.3):        # other producers do not escape quotes in lemmas
        out = '\n'.join(l.replace('§quot.', '"') if l.startswith('\t"') else l for l in out.split('\n'))
    want = [t for t in trees if len(t.descendants)]
    g.note(dict(text=out), len(want) > 1, key=out)
    docs = read_all(Vislcg(filehandle=io.StringIO(out)))
    got = [t for d in docs for b in d.bundles for t in b.trees]
    eq(len(got), len(want), 'number of sentences')
    for i, (t, u) in enumerate(zip(got, want)):
        check_wf(t)
        if out is not text:
            eq(t.comment, comments.get(i, ''), 'comment')
        a, b = list(t.descendants), list(u.descendants)
        eq(len(a), len(b), 'number of words')
        forms = []
        for tok in u.token_descendants:
            ws = tok.words
            if len(ws) == 1 and not tok.is_mwt():
                forms.append(tok.form)
            else:
                p = tok.form.split()
                forms += p if len(p) == len(ws) else [tok.form] + ['_'] * (len(ws) - 1)
        eq([w.form for w in a], forms, 'forms')
        for w, e in zip(a, b):
            for c in ('lemma', 'xpos', 'deprel'):
                eq(getattr(w, c), getattr(e, c), f'{c} of word {w.ord}')
            eq(str(w.feats), str(e.feats), f'feats of word {w.ord}')
            eq(w.parent.ord, e.parent.ord, f'head of word {w.ord}')
        eq(sorted((m.ord_range, m.form) for m in t.multiword_tokens), sorted((m.ord_range, m.form) for m in u.multiword_tokens), 'multi-word tokens')


def run_writer_tree(tree):
    fh = io.StringIO()
    with stdout_to(fh):
        b = WVislcg()
        b.before_process_document(tree.document)
        b.process_tree(tree)
        b.after_process_document(tree.document)
    return fh.getvalue()


FACETS = {'plain': facet(f_plain, 8000), 'parallel': facet(f_parallel, 1500), 'addsentences': facet(f_addsentences, 4000), 'addtext': facet(f_addtext, 6000),
          'conll': facet(f_conll, 5000), 'columns': facet(f_columns, 6000), 'plus': facet(f_plus, 4000), 'damaged': facet(f_damaged, 6000), 'vislcg': facet(f_vislcg, 6000)}

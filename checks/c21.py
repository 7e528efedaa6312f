"""C21: exports to other formats, parsed back and compared with the tree."""
import html
import json
import re
import logging
import xml.etree.ElementTree as ET
from collections import Counter
from vf.engine import check, eq, Violation, assume
from vf.gens import *
from vf.util import facet
from udapi.block.write.sentences import Sentences
from udapi.block.write.sentenceshtml import SentencesHtml
from udapi.block.write.sdparse import Sdparse
from udapi.block.write.tikz import Tikz
from udapi.block.write.vislcg import Vislcg
from udapi.block.write.treex import Treex
from udapi.block.write.html import Html

RULE = ('random documents of 0-3 (sometimes 10-12) bundles, 1-3 zones, trees of 0-8 (sometimes 9-14) words with every special character of the target formats in forms, lemmas, tags, '
        'features, relations, texts and comments, multi-word tokens and enhanced dependencies, written with random options and parsed back by an independent parser of the format; '
        'non-trivial = at least one tree with 2 words; distinct by document and options')
ASSUMPTIONS = ['words have form, lemma, tags, features and relation', 'values contain no whitespace (texts may contain single spaces)',
               'XML/HTML element ids are not judged beyond what the property names', 'CorefHtml is not covered']
SPECIAL = list('<>&"\'\\/()[]{}#%$_~^;|=§@') + ['</script>', '<!--', '&amp;', '\\&', ' \\\\', '{}', '\\u003c', '§quot.', '1-2', '->', '~~~', '">', '<b>', '\\n']


def gen_val(g, extra=()):
    if g.bool(0.35):
        return g.choice(['a', 'dog', 'The', 'žluť', '日本', '1', 'a', 'the', 'x.y'])
    s = ''.join(g.choice(list('abc') + SPECIAL + list(extra)) for _ in range(g.int(1, 4))).replace(' ', '')
    return s if s != '_' or extra == 'keep_' else 'a_'


def gen_key(g):
    return ''.join(g.choice('ABCabc&<>"\'\\/#%$~^;§@{}()[]') for _ in range(g.int(1, 3)))


def gen_feats(g):
    if g.bool(0.4):
        return '_'
    d = {}
    for _ in range(g.int(1, 3)):
        d[gen_key(g)] = ''.join(g.choice('ABC1&<>"\\/#%$~^;§@{}()[]') for _ in range(g.int(1, 2)))
    return '|'.join(f'{k}={d[k]}' for k in sorted(d, key=str.lower)) if g.bool(0.7) else '|'.join(f'{k}={d[k]}' for k in d)


def gen_tree(g, bundle, zone, empty=0.05, texts=True, deprels=None, mwt=0.3):
    n = 0 if g.bool(empty) else g.int(1, 8) if g.bool(0.92) else g.int(9, 14)
    root = bundle.create_tree(zone)
    heads = gen_heads(g, n)
    ws = []
    for i in range(n):
        ws.append(root.create_child(form=gen_val(g, 'keep_' if g.bool(0.1) else ()), lemma=gen_val(g), upos=g.choice(['NOUN', 'VERB', 'X', 'A&B', 'N<', 'P%_']),
                                    xpos=g.choice(['_', 'NN', 'PRP$', 'a|b', '"', '&', '(', '#', 'V;=', '\\']), feats=gen_feats(g),
                                    deprel=(deprels or gen_deprel)(g), misc=g.choice(['_', '_', '_', 'SpaceAfter=No', 'SpaceAfter=No', 'X=1', 'Gloss=a"b<c', 'A=1|SpaceAfter=No'])))
    for w, h in zip(ws, heads):
        if h:
            w.parent = ws[h - 1]
    mwts = []
    if mwt and n > 1:
        i = 0
        while i < n - 1:
            if g.bool(mwt):
                k = min(n - i, g.int(2, 3))
                root.create_multiword_token(ws[i:i + k], form=gen_val(g), misc=g.choice(['_', 'SpaceAfter=No']))
                mwts.append((i, i + k))
                i += k
            else:
                i += 1
    if texts:
        root.text = g.choice([None, 'Text & <i> "q" \\ end', "a'b", ' '.join(gen_val(g) for _ in range(g.int(1, 3))), 'computed'])
        if root.text == 'computed':
            root.text = root.compute_text()
    return root, heads, ws


def gen_deprel(g):
    return g.choice(['nsubj', 'obj', 'root', 'dep', 'nmod:poss', 'acl:relcl', 'a_b', 'x&y', 'c<d', 'p%', '#r', 'root', 'aux:{x}', 'a"b'])


def safe_deprel(g):
    return g.choice(['nsubj', 'obj', 'root', 'dep', 'nmod:poss', 'acl:relcl', 'a_b', 'x&y', 'a(b'])


def gen_doc(g, zones=None, ids=True, **kw):
    doc = new_doc()
    k = g.int(1, 3) if g.bool(0.95) else g.int(10, 12)
    zs = zones or g.choice([[''], [''], ['', 'en'], ['en', 'en_gold'], ['en_gold', 'cs', 'cs_x']])
    info = []
    for i in range(k):
        b = doc.create_bundle()
        if ids and g.bool(0.3):
            b.bundle_id = g.choice(['s', "d'x", 'a&b', 'q"', 'a<b', 'x-1']) + str(i)
        for z in zs:
            if z and g.bool(0.15):
                continue
            r = gen_tree(g, b, z, **kw)
            if g.bool(0.15):
                r[0].newdoc = g.choice([True, 'd1'])
            if g.bool(0.15):
                r[0].newpar = g.choice([True, 'p1'])
            info.append(r)
    trees = [t for b in doc.bundles for t in b.trees]
    assume(trees)
    return doc, trees


def note(g, doc, kw):
    from udapi.block.write.conllu import Conllu
    s = run_writer(Conllu, doc) + str(kw)
    g.note(s, nontrivial=any(len(t.descendants) > 1 for t in doc.trees), key=s)


def sel(kw, t):
    return not kw.get('zones') or kw['zones'] == 'all' or t.zone in kw['zones'].split(',')


def gen_zone_kw(g, kw):
    if g.bool(0.15):
        kw['zones'] = g.choice(['en', 'en,cs', 'cs_x', 'en_gold'])


def want_sentence(t):
    return t.text if t.text is not None else t.compute_text()


class Warns(logging.Handler):
    def __init__(self):
        super().__init__()
        self.n = 0

    def emit(self, record):
        if record.levelno >= logging.WARNING and 'text' in record.getMessage():
            self.n += 1


# ---------------------------------------------------------------- sentences

def spelled(t):
    """Sentence spelled by tokens, computed independently of compute_text."""
    out = ''
    for tok in t.token_descendants:
        out += tok.form + ('' if 'SpaceAfter=No' in str(tok.misc).split('|') else ' ')
    return out.rstrip()


def f_sentences(g):
    doc, trees = gen_doc(g)
    kw = {}
    mode = 'detokenize'
    if g.bool(0.6):
        mode = kw['if_missing'] = g.choice(['detokenize', 'empty', 'warn_detokenize', 'warn_empty', 'fatal'])
    if g.bool(0.4):
        kw['newdoc'] = 1
    if g.bool(0.4):
        kw['newpar'] = 1
    gen_zone_kw(g, kw)
    note(g, doc, kw)
    for t in trees:
        if not len(t.descendants):
            continue
        eq(t.compute_text(), spelled(t), 'compute_text')
    want = []
    fatal = False
    miss = 0
    for i, b in enumerate(doc.bundles):
        for t in b.trees:
            if not sel(kw, t):
                continue
            if kw.get('newdoc') and t.newdoc and b.number > 1:
                want.append('')
            if kw.get('newpar') and t.newpar and b.number > 1:
                want.append('')
            if t.text is None:
                miss += 1
                if mode == 'fatal':
                    fatal = True
                want.append('' if 'empty' in mode else spelled(t))
            else:
                want.append(t.text)
    h = Warns()
    lg = logging.getLogger()
    lg.addHandler(h)
    old = logging.root.manager.disable
    logging.disable(logging.NOTSET)
    others = [x for x in lg.handlers if x is not h]
    for x in others:
        lg.removeHandler(x)
    try:
        try:
            out = run_writer(Sentences, doc, **kw)
        except RuntimeError:
            check(fatal, 'unexpected RuntimeError')
            return
        finally:
            lg.removeHandler(h)
            for x in others:
                lg.addHandler(x)
            logging.disable(old)
    except Violation:
        raise
    check(not fatal, 'if_missing=fatal did not raise')
    eq(out.split('\n'), want + [''], 'lines')
    eq(h.n, miss if mode.startswith('warn') else 0, 'number of warnings')


def f_sentenceshtml(g):
    doc, trees = gen_doc(g)
    kw = {}
    title = 'Sentences from CoNLL-U'
    if g.bool(0.5):
        title = kw['title'] = gen_val(g)
    if g.bool(0.4):
        kw['if_missing'] = 'empty'
    note(g, doc, kw)
    out = run_writer(SentencesHtml, doc, **kw)
    m = re.fullmatch(r'<!DOCTYPE html>\s*<html>\s*<head>\s*<meta charset="utf-8">\s*<title>([^<]*)</title>\s*</head>\s*<body>\s*<ul>(.*)</ul>\s*</body>\s*</html>\s*', out, re.S)
    check(m, 'page structure')
    eq(html.unescape(m[1]), title, 'title')
    items = []
    rest = m[2]
    for x in re.finditer(r'<li id="([^"<]*)">([^<]*)</li>', m[2]):
        for p in (x[1], x[2]):
            check(not re.search(r'&(?!(amp|lt|gt|quot|#x27|#39|apos);)', p), 'unescaped &')
        items.append((html.unescape(x[1]), html.unescape(x[2])))
    check(not re.sub(r'<li id="[^"<]*">[^<]*</li>', '', m[2]).strip(), 'extra content in the list')
    want = [(t.sent_id, t.text if t.text is not None else '' if kw.get('if_missing') == 'empty' else spelled(t)) for t in trees]
    eq(items, want, 'items')
    # the same content through the real HTML parser
    from html.parser import HTMLParser

    class P(HTMLParser):
        def __init__(self):
            super().__init__(convert_charrefs=True)
            self.items = []
            self.on = False

        def handle_starttag(self, tag, attrs):
            if tag == 'li':
                self.items.append([dict(attrs)['id'], ''])
                self.on = True

        def handle_endtag(self, tag):
            if tag == 'li':
                self.on = False

        def handle_data(self, data):
            if self.on:
                self.items[-1][1] += data
    p = P()
    p.feed(out)
    eq([tuple(x) for x in p.items], want, 'parsed HTML')


# ---------------------------------------------------------------- sdparse

def sd_unescape(s):
    out = ''
    i = 0
    while i < len(s):
        if s[i] == '\\':
            check(i + 1 < len(s) and s[i + 1] in '\\/', 'bad escape in ' + s)
            out += s[i + 1]
            i += 2
        else:
            check(s[i] != '/', 'unescaped slash in ' + s)
            out += s[i]
            i += 1
    return out


def f_sdparse(g):
    doc, trees = gen_doc(g, deprels=safe_deprel)
    kw = {}
    if g.bool(0.4):
        kw['print_upos'] = g.choice([0, 1])
    if g.bool(0.4):
        kw['print_feats'] = g.choice([0, 1, 1])
    if g.bool(0.3):
        kw['always_ord'] = g.choice([0, 1])
    gen_zone_kw(g, kw)
    for t in trees:   # dependencies cannot be split unambiguously if a form contains ', ' or looks like form-number
        for w in t.descendants:
            if re.search(r'-\d+$', w.form) or w.form in ('~~~',):
                w.form = 'x'
    note(g, doc, kw)
    out = run_writer(Sdparse, doc, **kw)
    blocks = out.split('~~~ sdparse\n')
    eq(blocks.pop(0), '', 'before the first block')
    ts = [t for t in trees if sel(kw, t)]
    eq(len(blocks), len(ts), 'number of blocks')
    for t, b in zip(ts, blocks):
        check(b.endswith('\n~~~\n\n'), 'end of a block')
        lines = b[:-6].split('\n')
        ws = t.descendants
        toks = lines.pop(0).split(' ')
        if toks == [''] and not ws:
            toks = []
        eq(len(toks), len(ws), 'number of words')
        for tok, w in zip(toks, ws):
            cut = re.fullmatch(r'((?:[^\\/]|\\.)*)(?:/(.*))?', tok, re.S)
            check(cut, 'word ' + tok)
            eq(sd_unescape(cut[1]), w.form, 'form')
            tail = ''
            if kw.get('print_upos', 1):
                tail += w.upos
            if kw.get('print_feats') and str(w.feats) != '_':
                tail += f'[{w.feats}]'
            eq(cut[2] or '', tail, 'tags')
        count = Counter(w.form for w in ws)
        name = lambda w: f'{w.form}-{w.ord}' if kw.get('always_ord') or count[w.form] > 1 else w.form
        want = [(w.deprel, name(w.parent), name(w)) for w in ws if not w.parent.is_root()]
        eq(len(lines), len(want), 'number of dependencies')
        for l, x in zip(lines, want):
            check(l.startswith(x[0] + '(') and l.endswith(')'), f'relation {x} in {l}')
            pair = l[len(x[0]) + 1:-1].split(', ')
            eq(len(pair), 2, 'governor and dependent in ' + l)
            eq([sd_unescape(p) for p in pair], list(x[1:]), 'dependency')


# ---------------------------------------------------------------- tikz

TEX = [(r'\textbackslash{}', '\\'), (r'\{', '{'), (r'\}', '}'), (r'\_', '_'), (r'\$', '$'), (r'\#', '#'), (r'\%', '%'), (r'\symbol{38}', '&'),
       (r'\&', None), (r'\textasciitilde{}', '~'), (r'\textasciicircum{}', '^'), ('$[$', '['), ('$]$', ']'), ('{[}', '['), ('{]}', ']'), (r'\~{}', '~'), (r'\^{}', '^')]


def tex_unescape(s):
    out = ''
    i = 0
    while i < len(s):
        for a, b in TEX:
            if s.startswith(a, i):
                check(b is not None, 'column separator within a value: ' + s)
                out += b
                i += len(a)
                break
        else:
            check(s[i] not in '\\{}_$#%&~^[]', f'unescaped {s[i]!r} in {s!r}')
            out += s[i]
            i += 1
    return out


def f_tikz(g):
    doc, trees = gen_doc(g)
    kw = {}
    if g.bool(0.3):
        kw['print_sent_id'] = 0
    if g.bool(0.3):
        kw['print_text'] = 0
    if g.bool(0.3):
        kw['print_preambule'] = 0
    if g.bool(0.4):
        kw['as_tree'] = 1
    elif g.bool(0.4):
        kw['enhanced'] = 1
    if g.bool(0.4):
        kw['attributes'] = g.choice(['form', 'form,lemma', 'ord,form,upos', 'form,feats,deprel', 'form,upos,xpos,misc'])
    gen_zone_kw(g, kw)
    comments = {}
    if g.bool(0.5):
        kw['comment_attribute'] = 'text_en'
    for t in trees:
        if g.bool(0.4):
            val = g.choice(['Hello & 50% {x}', 'a_b $1 #2', 'C:\\x ~ ^', 'plain'])
            comments[t] = val
            t.comment = g.choice(['', ' other = 1\n', ' note\n', ' old_text_en = 1\n']) + f' text_en = {val}' + g.choice(['', '\n', '\n last = 2\n'])
        elif g.bool(0.3):
            t.comment = g.choice([' unrelated = 1\n', ' old_text_en = 1\n'])
        if kw.get('enhanced'):
            ws = t.descendants
            for w in ws:
                if g.bool(0.5):
                    w.deps = [{'parent': g.choice([t] + list(ws)), 'deprel': gen_deprel(g)} for _ in range(g.int(1, 2))]
    note(g, doc, kw)
    out = run_writer(Tikz, doc, **kw)
    at = kw.get('attributes', 'form,upos,deprel' if kw.get('as_tree') else 'form,upos').split(',')
    if kw.get('print_preambule', 1):
        check(out.startswith('\\documentclass'), 'preamble')
        k = out.index('\\begin{document}\n')
        out = out[k + len('\\begin{document}\n'):]
        check(out.endswith('\\end{document}\n'), 'end of document')
        out = out[:-len('\\end{document}\n')]
    else:
        check('documentclass' not in out and '{document}' not in out, 'preamble not asked for')
    blocks = out.split('\\begin{dependency}\n')
    eq(blocks.pop(0), '', 'before the first picture')
    ts = [t for t in trees if sel(kw, t)]
    eq(len(blocks), len(ts), 'number of pictures')
    for t, b in zip(ts, blocks):
        check(b.endswith('\\end{dependency}\n\n'), 'end of picture')
        lines = b[:-len('\\end{dependency}\n\n')].split('\n')
        eq(lines.pop(), '')
        eq(lines.pop(0), '\\begin{deptext}')
        if kw.get('print_sent_id', 1):
            eq(lines.pop(0), '% sent_id = ' + t.sent_id)
        if kw.get('print_text', 1):
            eq(lines.pop(0), '% text = ' + (t.text if t.text is not None else spelled(t)))
        if t.comment:
            for c in t.comment.rstrip().split('\n'):
                eq(lines.pop(0), '%' + c, 'comment')
        ws = t.descendants
        for a in at:
            l = lines.pop(0)
            check(l.endswith(' \\\\'), 'end of a row')
            cells = [tex_unescape(c.strip(' ')) for c in l[:-3].split(' \\& ')] if ws else []
            if not ws:
                eq(l.strip(), '\\\\', 'row of an empty tree')
            val = lambda w: str(w.ord) if a == 'ord' else str(getattr(w, a))
            eq(cells, [val(w) for w in ws], 'row ' + a)
        eq(lines.pop(0), '\\end{deptext}')
        if t not in comments:
            check(not any('deptrans' in l for l in lines), 'a comment which is not there')
        if kw.get('comment_attribute') and t in comments:
            l = lines.pop()
            check(l.startswith('\\deptrans{') and l.endswith('}'), 'comment under the graph: ' + l)
            eq(tex_unescape(l[10:-1]), comments[t], 'comment under the graph')
        if kw.get('as_tree'):
            dep = {}

            def depth(w):
                return 0 if w.is_root() else 1 + depth(w.parent)
            mx = max([depth(w) for w in ws], default=0)
            for w in ws:
                m = re.fullmatch(r'\\node \(w(\d+)\) \[yshift=\\depskip\+(\d+)\\deplevel,depnode\] at \(\\wordref\{1\}\{(\d+)\}\) \{\};', lines.pop(0))
                check(m, 'node line')
                eq([int(x) for x in m.groups()], [w.ord, mx - depth(w), w.ord], 'position of a node')
            for w in ws:
                l = lines.pop(0)
                m = re.fullmatch(r'\\draw\[depguide\] \(w(\d+)\)--\(\\wordref\{1\}\{(\d+)\}\);( \\draw\[depedge\] \(w(\d+)\)--node\[deplabel\] \{(.*)\} \(w(\d+)\);)?', l)
                check(m, 'edge line ' + l)
                eq((m[1], m[2]), (str(w.ord), str(w.ord)), 'guide')
                if w.parent.is_root():
                    eq(m[3], None, 'edge of a root word')
                else:
                    check(m[3], 'missing edge')
                    eq((int(m[4]), tex_unescape(m[5]), int(m[6])), (w.ord, w.deprel, w.parent.ord), 'edge')
        else:
            want = []
            for w in ws:
                want.append((False, w.parent.ord, w.ord, w.deprel if not w.parent.is_root() else None))
                if kw.get('enhanced'):
                    for d in w.deps:
                        want.append((True, d['parent'].ord, w.ord, d['deprel'] if not d['parent'].is_root() else None))
            got = []
            for l in lines:
                m = re.fullmatch(r'\\deproot(\[edge below\])?\{(\d+)\}\{root\}', l)
                if m:
                    got.append((bool(m[1]), 0, int(m[2]), None))
                    continue
                m = re.fullmatch(r'\\depedge(\[edge below\])?\{(\d+)\}\{(\d+)\}\{(.*)\}', l)
                check(m, 'edge ' + l)
                got.append((bool(m[1]), int(m[2]), int(m[3]), tex_unescape(m[4])))
            lines = []
            basic = lambda es, below: [e for e in es if e[0] == below]
            for below in (False, True):
                eq(sorted(map(repr, basic(got, below))), sorted(map(repr, basic(want, below))), 'edges')
        eq(lines, [], 'extra lines')


# ---------------------------------------------------------------- vislcg

VCG = {'§sect.': '§', '§quot.': '"', '§num.': '#', '§semi.': ';', '§equals.': '=', '§lpar.': '(', '§rpar.': ')', '§verbar.': '|'}


def vcg_unescape(s):
    out = ''
    i = 0
    while i < len(s):
        if s[i] == '§':
            for a, b in VCG.items():
                if s.startswith(a, i):
                    out += b
                    i += len(a)
                    break
            else:
                raise Violation('bad escape in ' + s)
        else:
            check(s[i] not in '"#;=()|', f'unescaped {s[i]} in {s}')
            out += s[i]
            i += 1
    return out


def f_vislcg(g):
    doc, trees = gen_doc(g)
    kw = {}
    gen_zone_kw(g, kw)
    note(g, doc, kw)
    out = run_writer(Vislcg, doc, **kw)
    lines = out.split('\n')
    eq(lines.pop(), '')
    for t in [t for t in trees if sel(kw, t)]:
        done = set()
        for tok in t.token_descendants:
            l = lines.pop(0)
            check(l.startswith('"<') and l.endswith('>"'), 'cohort ' + l)
            eq(vcg_unescape(l[2:-2]), tok.form, 'form of a token')
            for k, w in enumerate(tok.words):
                l = lines.pop(0)
                tabs = '\t' if k == 0 else '\t\t'
                check(l.startswith(tabs + '"'), 'indentation of ' + l)
                f = l[len(tabs):].split(' ')
                m = re.fullmatch(r'"([^"]*)"', f[0])
                check(m, 'lemma of ' + l)
                eq(vcg_unescape(m[1]), w.lemma, 'lemma')
                eq(vcg_unescape(f[1]), w.xpos, 'xpos')
                eq([vcg_unescape(x) for x in f[2:-2]], [] if str(w.feats) == '_' else str(w.feats).split('|'), 'feats')
                eq(f[-2], '@' + w.deprel, 'deprel')
                eq(f[-1], f'#{w.ord}->{w.parent.ord}', 'ord and head')
                done.add(w.ord)
        eq(done, {w.ord for w in t.descendants}, 'words')
        eq(lines.pop(0), '', 'end of a sentence')
    eq(lines, [], 'extra lines')


# ---------------------------------------------------------------- treex

NS = '{http://ufal.mff.cuni.cz/pdt/pml/}'


def f_treex(g):
    doc, trees = gen_doc(g)
    note(g, doc, {})
    out = run_writer(Treex, doc)
    try:
        x = ET.fromstring(out.strip())
    except ET.ParseError as e:
        raise Violation(f'not well-formed XML: {e}')
    bundles = x.find(NS + 'bundles')
    bs = list(bundles)
    eq([b.get('id') for b in bs], [b.bundle_id for b in doc.bundles], 'bundle ids')
    T = lambda e, name: None if e.find(NS + name) is None else e.find(NS + name).text or ''
    for xb, b in zip(bs, doc.bundles):
        zones = list(xb.find(NS + 'zones'))
        eq(len(zones), len(b.trees), 'number of zones')
        for xz, t in zip(zones, b.trees):
            p = t.zone.split('_')
            eq((xz.get('language'), xz.get('selector')), tuple(p) if len(p) == 2 else ('und', t.zone), 'zone')
            eq(T(xz, 'sentence'), t.text or None, 'sentence')
            at = list(xz.find(NS + 'trees'))
            eq(len(at), 1, 'a_tree')
            eq(T(at[0], 'ord'), '0', 'ord of the root')
            got = {}

            def walk(e, parent):
                ch = e.find(NS + 'children')
                for c in (list(ch) if ch is not None else []):
                    o = int(T(c, 'ord'))
                    check(o not in got, f'word {o} twice')
                    conll = c.find(NS + 'conll')
                    got[o] = (parent, T(c, 'form'), T(c, 'lemma'), T(c, 'tag'), T(c, 'deprel'), T(conll, 'pos'), T(conll, 'feat'))
                    walk(c, o)
            walk(at[0], 0)
            want = {w.ord: (w.parent.ord, w.form, w.lemma, w.upos, w.deprel, w.xpos, str(w.feats)) for w in t.descendants}
            eq(got, want, 'words')


# ---------------------------------------------------------------- html

def f_html(g):
    doc, trees = gen_doc(g)
    for b in doc.bundles:
        assume(b.trees)
    js = g.bool(0.3)
    note(g, doc, {'js': js})
    out = run_writer(Html, doc, **({'path_to_js': './lib'} if js else {}))
    scripts = re.findall(r'<script src="([^"]*)"></script>', out)
    eq(len(scripts), 3, 'libraries')
    check(all(s.startswith('./lib/') for s in scripts) == js, 'path_to_js')
    body = out[out.index('<script>') + 8:].lstrip()
    check(body.count('</script') == 1 and body.rstrip().endswith('</script></body></html>'), 'the script element ends early')
    check('<!--' not in body, 'comment start in the script')
    check(body.startswith('data='), 'data')
    try:
        data, end = json.JSONDecoder(strict=True).raw_decode(body[5:])
    except ValueError as e:
        raise Violation(f'not JSON: {e}')
    check(body[5 + end:].lstrip().startswith(';'), 'end of data')
    eq(len(data), len(doc.bundles), 'bundles')
    for d, b in zip(data, doc.bundles):
        eq(list(d['zones']), [t.zone for t in b.trees], 'zones')
        desc = []
        for t in b.trees:
            z = d['zones'][t.zone]
            eq(z['sentence'], t.text or '', 'sentence')
            nodes = z['trees']['a']['nodes']
            ws = [t] + list(t.descendants)
            eq(len(nodes), len(ws), 'number of nodes')
            ids = {}
            for n, w in zip(nodes, ws):
                check(re.fullmatch(r'n[^#/]*', n['id']), 'id cannot be used in a selector')
                check(n['id'] not in ids, 'id twice')
                ids[n['id']] = w
            look = lambda n, k: ids[n[k]].ord if n.get(k) is not None else None
            desc += [[f'[{t.zone}]', 'label'], [' ', 'space']]
            for n, w in zip(nodes, ws):
                kids = sorted(c.ord for c in w.children)
                eq(look(n, 'firstson'), kids[0] if kids else None, 'first son')
                if w is t:
                    eq(n['parent'], None, 'parent of the root')
                    eq(n['labels'], ['zone=' + t.zone, 'id=' + t.sent_id], 'labels of the root')
                    continue
                eq(look(n, 'parent'), w.parent.ord, 'parent')
                sib = [c.ord for c in w.parent.children if c.ord > w.ord]
                eq(look(n, 'rbrother'), min(sib) if sib else None, 'right brother')
                eq(n['order'], w.ord, 'order')
                want = dict(ord=w.ord, form=w.form, lemma=w.lemma, upos=w.upos, xpos='' if w.xpos == '_' else w.xpos, feats=str(w.feats), deprel=w.deprel, misc=str(w.misc), id=f'{t.sent_id}#{w.ord}')
                got = dict(n['data'])
                for k in ('xpos', 'feats', 'misc'):
                    for q in (want, got):
                        if q[k] == '_':
                            q[k] = ''
                eq(got, want, 'attributes')
                eq(n['labels'], [w.form, '#{#bb0000}' + w.upos, '#{#0000bb}' + w.deprel], 'labels')
                f = str(w.feats)
                check(n['hint'] in (f'lemma={w.lemma}\n' + f.replace('|', '\n'), f'lemma={w.lemma}\n' if f == '_' else None), 'hint')
                desc.append([w.form, n['id']])
                if 'SpaceAfter=No' not in str(w.misc):
                    desc.append([' ', 'space'])
            desc.append(['\n', 'newline'])
        eq(d['desc'], desc, 'description')


FACETS = {
    'sentences': facet(f_sentences, 4000),
    'sentenceshtml': facet(f_sentenceshtml, 3000),
    'sdparse': facet(f_sdparse, 5000),
    'tikz': facet(f_tikz, 6000),
    'vislcg': facet(f_vislcg, 5000),
    'treex': facet(f_treex, 4000),
    'html': facet(f_html, 5000),
}

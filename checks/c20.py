"""C20: tree drawings show every word once with its real head."""
import html
import io
import re
from vf.engine import check, eq, Violation, assume
from vf.gens import *
from vf.util import facet
from udapi.block.write.textmodetrees import TextModeTrees
from udapi.block.write.textmodetreeshtml import TextModeTreesHtml

RULE = ('random trees (0-12, sometimes up to 40 words, projective and crossing) with empty nodes, tokens, marks and comments x drawing options, drawn as text, ANSI, HTML, '
        'whole or subtree, and parsed back from the box-drawing characters; non-trivial = the drawn tree has at least 3 words; distinct by tree and options')
ASSUMPTIONS = ['attribute values contain no box-drawing characters or newlines', 'the list-valued attribute deps is not drawn']
SYM = '╼┾┮┶'
CORNER = '╭╰┡┢├'
EDGE = set('─│╪ ' + CORNER)
BASE = ['form', 'lemma', 'upos', 'xpos', 'feats', 'deprel', 'ord', 'misc', 'feats[Case]', 'misc[X]', 'edge', 'dir', 'depth', 'children', 'siblings', 'udeprel', 'form', 'form']


def gen_tree(g, bundle, zone, nmax=12):
    n = g.int(0, nmax) if g.bool(0.93) else g.int(nmax, 40)
    heads = gen_heads(g, n)
    if g.bool(0.25) and n > 3:
        order = g.perm(list(range(1, n + 1)))
        heads = [0] * n
        for k, w in enumerate(order):
            heads[w - 1] = 0 if k == 0 else order[max(0, k - g.int(1, 3))]
    root = bundle.create_tree(zone)
    words = []
    for i in range(n):
        words.append(root.create_child(
            form=g.choice([f'w{i + 1}', f'w{i + 1}', 'a', 'žluť', '<b>', 'x&y', '"', '日本', 'a b', '**', 'long_' * g.int(1, 4)]), lemma=g.choice(['l', 'lemma', None]),
            upos=g.choice(['NOUN', 'VERB', None]), xpos=g.choice(['_', 'X', None]), feats=g.choice(['_', 'Case=Nom', 'Case=Gen|Number=Sing']),
            deprel=g.choice(['dep', 'nsubj:pass', 'root', None] if g.bool(0.2) else ['dep', 'nsubj:pass', 'root']),
            misc=g.choice(['_', '_', '_', 'X=1', 'SpaceAfter=No', 'Mark=1', 'ToDo=x|X=2', 'Bug=b', 'NoMark=1', 'ToDoOrigText=1', 'Y=Mark'])))
    for w, h in zip(words, heads):
        if h:
            w.parent = words[h - 1]
    empties = []
    if n and g.bool(0.3):
        for _ in range(g.int(1, 3)):
            after = g.int(0, n)
            if sum(a == after for a, _ in empties) < 9:
                e = (words[after - 1] if after else words[0]).create_empty_child('dep', after=bool(after), form=g.choice(['e', 'E0', '<e>']), upos=g.choice(['PRON', None]),
                                                                            misc=g.choice(['_', 'Mark=e', 'X=1']))
                empties.append((after, e))
    mwt = None
    if n > 1 and g.bool(0.2):
        a = g.int(1, n - 1)
        mwt = root.create_multiword_token(words[a - 1:a + 1], form='zum')
    if g.bool(0.5):
        root.text = 'Some text & <i>' if g.bool() else None
    if g.bool(0.4):
        root.comment = ''.join(g.choice([' note <x>\n', ' ToDo = check\n', ' Mark = 1\n', ' a = b & c\n', 'nospace\n', ' global.Entity = eid\n', ' XToDo = 1\n'])
                               for _ in range(g.int(1, 3)))
    return root, heads, words


def attr_value(node, a, undef):
    """Expected printed value of one attribute, from the data structure."""
    if a.startswith('feats['):
        return node.feats[a[6:-1]]
    if a.startswith('misc['):
        return node.misc[a[5:-1]]
    p = node.parent
    if a == 'edge':
        return '0' if node.is_empty() or p.is_root() else str(node.ord - p.ord)
    if a == 'dir':
        return 'root' if node.is_empty() or p.is_root() else 'left' if node.ord < p.ord else 'right'
    if a == 'children':
        return str(0 if node.is_empty() else len(node.children))
    if a == 'siblings':
        return str(0 if node.is_empty() else len(p.children) - 1)
    if a == 'depth':
        d = 1
        while not node.is_empty() and not node.parent.is_root():
            node, d = node.parent, d + 1
        return str(d)
    v = getattr(node, a)
    return undef if v is None else str(v)


def cells_of(node, attrs_, undef, layout, marked, stars):
    vals = [attr_value(node, a, undef) for a in attrs_]
    groups = [[v] for v in vals] if layout == 'align' else [vals]
    out = []
    for gr in groups:
        t = ' '.join(gr)
        out.append(' **' + t + '**' if marked and stars else ' ' + t)
    return out


def parse_drawing(lines, rows, layout, hints, indent):
    """rows: list of None (technical root), ('e', cells) or ('w', cells); returns parents (index or None) per row."""
    n = len(rows)
    syms, edges, starts = [None] * n, [None] * n, [None] * n
    for r, (line, row) in enumerate(zip(lines, rows)):
        if row is None or row[0] == 'w':
            cells = row[1] if row else []
            texts = ''.join(cells)
            pos = [i for i, ch in enumerate(line) if ch in SYM]
            check(len(pos) == 1, f'line {r} has {len(pos)} node symbols: {line!r}')
            syms[r] = pos[0]
        else:
            cells = row[1]
        if not cells:
            edges[r] = line
            continue
        if layout == 'classic':
            if row[0] == 'w':
                t = cells[0]
                check(line[syms[r] + 1:syms[r] + 1 + len(t)] == t, f'line {r} does not show {t!r} after the node symbol: {line!r}')
                edges[r] = line[:syms[r] + 1] + ' ' * len(t) + line[syms[r] + 1 + len(t):]
            else:
                t = cells[0]
                check(line.endswith(t), f'line {r} does not end with {t!r}: {line!r}')
                edges[r] = line[:len(line) - len(t)]
            continue
        m = re.fullmatch('([' + re.escape(''.join(EDGE) + SYM) + ']*?)' + ' *'.join('(' + re.escape(c) + ')' for c in cells), line)
        check(m, f'line {r} does not show exactly {cells!r}: {line!r}')
        edges[r] = m.group(1)
        starts[r] = [m.start(k + 2) for k in range(len(cells))]
    for r, e in enumerate(edges):
        check(all(ch in EDGE or c == syms[r] for c, ch in enumerate(e)), f'unexpected characters in line {r}: {lines[r]!r}')
    if layout != 'classic':
        for r, e in enumerate(edges):
            if syms[r] is not None and layout == 'compact':
                pass
    if layout in ('align', 'align-words'):
        ss = [s for s in starts if s]
        for k in range(len(ss[0]) if ss else 0):
            if layout == 'align-words' and k:
                break
            check(len({s[k] for s in ss}) == 1, f'column {k} is not aligned: {[s[k] for s in ss]}')
        if ss:
            # aligned as far left as possible
            need = max(len(e.rstrip()) for e in edges)
            check(ss[0][0] == need, f'the first column starts at {ss[0][0]} although the edges end at {need}')
            for k in range(1, len(ss[0])):
                if layout == 'align':
                    width = max(len(row[1][k - 1]) for row in rows if row)
                    eq(ss[0][k], ss[0][k - 1] + width, f'start of column {k}')

    def at(r, c):
        return edges[r][c] if 0 <= r < n and 0 <= c < len(edges[r]) else ' '
    parents, used = [None] * n, set()
    top = 0
    for r in range(n):
        if syms[r] is None:
            continue
        c = syms[r] - 1
        used.add((r, syms[r]))
        while c >= 0 and at(r, c) in '─╪':
            used.add((r, c))
            c -= 1
        if c < 0:
            parents[r] = None
            top += 1
            continue
        corner = at(r, c)
        check(corner in CORNER, f'line {r}: broken edge at column {c}: {lines[r]!r}')
        used.add((r, c))
        dirs = {'╭': [1], '╰': [-1], '┡': [-1], '┢': [1], '├': [-1, 1]}[corner]
        check(hints or corner not in '┡┢', f'thick segment {corner} although hints=0')
        check(not hints or corner != '├', 'plain ├ although hints=1')
        found = []
        for d in dirs:
            rr = r + d
            path = []
            while True:
                ch = at(rr, c)
                if ch in '│╪┡┢├':
                    path.append((rr, c))
                    rr += d
                    continue
                break
            ch = at(rr, c)
            if ch and ch in ('┮┾' if d < 0 else '┶┾') and syms[rr] == c:
                found.append(rr)
                used.update(path)
            elif corner != '├':
                raise Violation(f'line {r}: the edge does not reach a node (ends with {ch!r} in line {rr})')
        check(len(found) == 1, f'line {r}: {len(found)} possible heads')
        parents[r] = found[0]
    if any(rows) or n:
        eq(top, 1 if any(s is not None for s in syms) else 0, 'number of top nodes')
    # leaf and non-leaf symbols, no superfluous lines
    for r in range(n):
        if syms[r] is None:
            continue
        kids = [k for k in range(n) if parents[k] == r]
        want = '╼' if not kids and parents[r] is not None else None
        ch = lines[r][syms[r]]
        if kids:
            up, down = any(k < r for k in kids), any(k > r for k in kids)
            eq(ch, '┾' if up and down else '┶' if up else '┮', f'symbol of the node in line {r}')
        elif want:
            eq(ch, want, f'symbol of the leaf in line {r}')
    for r in range(n):
        for c, ch in enumerate(edges[r]):
            if ch in '│' + CORNER + '╪':
                check((r, c) in used or indent == 0 and False, f'superfluous line at row {r}, column {c}')
    return parents


def is_marked(node, mark):
    return bool(mark) and re.search(mark + '=', str(node.misc)) is not None


def strip_ansi(s):
    return re.sub(r'\x1b\[[0-9;]*m', '', s)


def gen_opts(g):
    kw = {}
    if g.bool(0.4):
        kw['layout'] = g.choice(['compact', 'align-words', 'align', 'classic'])
    if g.bool(0.5):
        kw['attributes'] = ','.join([g.choice(BASE) for _ in range(g.int(1, 4))])
    if g.bool(0.3):
        kw['indent'] = g.choice([2, 0, 3, 1, 5])
    if g.bool(0.3):
        kw['minimize_cross'] = 0
    if g.bool(0.3):
        kw['hints'] = 0
    if g.bool(0.3):
        kw['print_undef_as'] = g.choice(['-', 'None', '', 'UNDEF'])
    if g.bool(0.3):
        kw['print_empty'] = 0
    if kw.get('layout', '').startswith('align'):     # empty cells would make the columns ambiguous
        if kw.get('print_undef_as') == '':
            kw['print_undef_as'] = '-'
        if 'attributes' in kw:
            kw['attributes'] = ','.join(a for a in kw['attributes'].split(',') if '[' not in a) or 'form'
    for o in ('print_sent_id', 'print_text', 'add_empty_line'):
        if g.bool(0.2):
            kw[o] = 0
    if g.bool(0.4):
        kw['print_comments'] = 1
    if g.bool(0.3):
        kw['mark'] = g.choice(['', 'X', '(X|Bug)', 'Mark', '^Mark'])
    return kw


DEFAULT_MARK = '(ToDo|ToDoOrigText|Bug|Mark)'


def expect_headers(node, kw):
    out = []
    if kw.get('print_sent_id', 1):
        out.append('# sent_id = ' + node.address())
    if kw.get('print_text', 1):
        if node.is_root():
            t = node.text if node.text is not None else node.compute_text()
        else:
            t = node.compute_text()
        out.append('# text = ' + t)
    if kw.get('print_comments') and node.is_root() and node.comment:
        out += ['#' + l for l in node.comment.rstrip().split('\n')]
    return out


def drawn_nodes(node, kw):
    if node.is_root():
        r = node
        nodes = [r] + (r.descendants_and_empty if kw.get('print_empty', 1) else list(r.descendants))
    else:
        nodes = sorted(node.descendants(add_self=1), key=lambda n: n.ord)
        if kw.get('print_empty', 1):
            lo, hi = nodes[0], nodes[-1]
            ws = node.root.descendants_and_empty
            i, j = ws.index(lo), ws.index(hi)
            inside = {id(n) for n in nodes}
            nodes = [n for n in ws[i:j + 1] if n.is_empty() or id(n) in inside]
    return nodes


def check_tree_lines(lines, node, kw, stars):
    """Consume the lines of one drawn (sub)tree and check them; returns the remaining lines."""
    hd = expect_headers(node, kw)
    eq(lines[:len(hd)], hd, 'lines above the drawing')
    lines = lines[len(hd):]
    nodes = drawn_nodes(node, kw)
    mark = kw.get('mark', DEFAULT_MARK)
    layout = kw.get('layout', 'classic')
    attrs_ = kw.get('attributes', 'form,upos,deprel').split(',')
    rows = [None if n.is_root() else ('e' if n.is_empty() else 'w', cells_of(n, attrs_, kw.get('print_undef_as', '_'), layout, is_marked(n, mark), stars)) for n in nodes]
    check(len(lines) >= len(rows), f'{len(lines)} lines left for {len(rows)} nodes')
    mine, rest = lines[:len(rows)], lines[len(rows):]
    parents = parse_drawing(mine, rows, layout, kw.get('hints', 1), kw.get('indent', 1))
    for r, n in enumerate(nodes):
        if n.is_empty():
            continue
        if n is node:
            eq(parents[r], None, 'head of the top node')
            continue
        p = parents[r]
        check(p is not None and nodes[p] is n.parent, f'{n.form} (ord {n.ord}) is drawn under {nodes[p].ord if p is not None else None}, its head is {n.parent.ord}')
    if kw.get('indent', 1):
        proj = not any(n is not node and not n.is_empty() and n.is_nonprojective() for n in nodes)
        if proj and not any(n.is_empty() for n in nodes):
            check(not any('╪' in e for e in mine), 'a projective tree is drawn with crossing edges')
    if kw.get('add_empty_line', 1):
        check(rest and rest[0] == '', 'no empty line after the tree')
        rest = rest[1:]
    return rest


def tree_marked(root, kw):
    mark = kw.get('mark', DEFAULT_MARK)
    nodes = [n for n in drawn_nodes(root, kw) if not n.is_root()]
    if any(is_marked(n, mark) for n in nodes):
        return True
    return bool(kw.get('print_comments') and root.is_root() and root.comment and mark and any(re.match(' %s = ' % mark, l) for l in root.comment.split('\n')))


def sample(trees, kw):
    return dict(trees=[(h, [w.misc.__str__() for w in ws]) for _, h, ws in trees], kw=kw)


def f_draw(g):
    """One tree or subtree through draw() or the block."""
    doc = new_doc()
    b = doc.create_bundle()
    root, heads, words = gen_tree(g, b, g.choice(['', 'en']))
    kw = gen_opts(g)
    top = root
    how = g.choice(['node', 'block', 'bundle', 'doc'])
    if how == 'node' and words and g.bool(0.6):
        top = g.choice(words)
    if g.bool(0.1):
        kw['marked_only'] = 1
    g.note(dict(sample([(root, heads, words)], kw), top=top.ord, how=how), len(words) > 2)
    before = snap(root)
    fh = io.StringIO()
    full = dict(kw, color=0)
    if how == 'node':
        with stdout_to(fh):
            (top.draw if g.bool() else top.print_subtree)(**full)
    elif how == 'bundle':
        with stdout_to(fh):
            b.draw(**full)
    elif how == 'doc':
        with stdout_to(fh):
            doc.draw(**dict(full, print_doc_meta=0))
    else:
        if g.bool():
            full.pop('color')       # auto: not a terminal
        fh.write(run_writer(TextModeTrees, doc, print_doc_meta=0, **full))
    out = fh.getvalue()
    if kw.get('marked_only') and not tree_marked(top, kw):
        eq(out, '', 'an unmarked tree was drawn')
        return
    check(out.endswith('\n'), 'no final newline')
    if g.bool(0.1):     # the pretty printed document
        eq(str(doc), run_writer(TextModeTrees, doc, color=True), 'str(document)')
    rest = check_tree_lines(out[:-1].split('\n'), top, kw, stars=True)
    eq(rest, [], 'extra lines')
    eq(snap(root), before, 'drawing changed the tree')
    if top is root and len(words) > 2 and any(w.is_nonprojective() for w in words):
        g.tag('nonproj')


def gen_doc(g, hidden=True):
    doc = new_doc()
    if g.bool(0.3):
        doc.meta['a<key'] = 'v&1'
        if hidden:
            doc.meta['_hidden'] = 'x'
    if g.bool(0.2):
        doc.meta['docname'] = 'x.conllu'
    trees = []
    for _ in range(g.int(1, 3)):
        b = doc.create_bundle()
        for z in g.subset(['', 'en', 'cs'], 0.5, 1):
            trees.append(gen_tree(g, b, z, 6))
    return doc, trees


def meta_lines(doc, kw):
    return [f'{k} = {v}' for k, v in sorted(doc.meta.items()) if k[0] != '_'] if kw.get('print_doc_meta', 1) else []


def doc_opts(g):
    kw = gen_opts(g)
    if g.bool(0.3):
        kw['print_doc_meta'] = 0
    if g.bool(0.4):
        kw['marked_only'] = 1
    if g.bool(0.3):
        kw['zones'] = g.choice(['en', 'cs', 'en,cs', 'all'])
    return kw


def selected(root, kw):
    z = kw.get('zones', 'all')
    return z == 'all' or root.zone in z.split(',')


def f_document(g):
    """Whole documents: selection, order, ANSI colours."""
    doc, trees = gen_doc(g)
    kw = doc_opts(g)
    g.note(sample(trees, kw), any(len(t[2]) > 2 for t in trees))
    out = run_writer(TextModeTrees, doc, color=0, **kw)
    lines = out.split('\n')
    eq(lines.pop(), '', 'end of output')
    ml = meta_lines(doc, kw)
    eq(lines[:len(ml)], ml, 'document metadata')
    lines = lines[len(ml):]
    n = 0
    for root, _, _ in trees:
        if selected(root, kw) and (not kw.get('marked_only') or tree_marked(root, kw)):
            lines = check_tree_lines(lines, root, kw, stars=True)
            n += 1
    eq(lines, [], 'extra lines after the expected trees')
    if 0 < n < len(trees):
        g.tag('selected')
    nomark = dict(kw, mark='')
    nomark.pop('marked_only', None)
    col = run_writer(TextModeTrees, doc, color=1, **dict(kw, marked_only=0))
    eq(strip_ansi(col), run_writer(TextModeTrees, doc, color=0, **nomark), 'the coloured drawing without colours differs from the plain one')
    mark = kw.get('mark', DEFAULT_MARK)
    cl = [l for l in col.split('\n') if '\x1b[7m' in l]
    want = sum(is_marked(w, mark) for r, _, _ in trees if selected(r, kw) for w in drawn_nodes(r, kw) if not w.is_root())
    per = len(kw.get('attributes', 'form').split(',')) if kw.get('layout') == 'align' else 1
    if mark and kw.get('print_comments'):
        want += sum(bool(re.match(' %s = ' % mark, l)) for r, _, _ in trees if selected(r, kw) and r.comment for l in r.comment.rstrip().split('\n'))
    eq(len(cl), want, 'number of highlighted lines')


def f_str(g):
    doc, trees = gen_doc(g)
    g.note(sample(trees, {}), any(len(t[2]) > 2 for t in trees))
    eq(strip_ansi(str(doc)), run_writer(TextModeTrees, doc, color=0, mark=''), 'str(document) differs from the plain drawing')
    for b in doc.bundles:
        fh = io.StringIO()
        with stdout_to(fh):
            b.draw(color=0)
        lines = fh.getvalue().split('\n')
        eq(lines.pop(), '')
        for t in b.trees:
            lines = check_tree_lines(lines, t, {}, True)
        eq(lines, [], 'extra lines in bundle.draw()')


def f_html(g):
    doc, trees = gen_doc(g, hidden=False)
    kw = doc_opts(g)
    color = g.bool(0.7)
    rows = g.bool(0.6)
    extra = {}
    if not color:
        extra['color'] = 0
    if not rows:
        extra['zones_in_rows'] = 0
    whole = True
    if rows and g.bool(0.4):
        whole = False
        extra['whole_bundle'] = 0
    if g.bool(0.3):
        extra['title'] = 'A <title> & more'
    g.note(dict(sample(trees, kw), extra=extra), any(len(t[2]) > 2 for t in trees))
    out = run_writer(TextModeTreesHtml, doc, **dict(kw, **extra))
    m = re.fullmatch(r'<!DOCTYPE html>\n<html>\n<head>\n<meta charset="utf-8">\n<title>(.*)</title>\n<style>(.*?)</style>\n</head>\n<body>\n<pre>\n(.*)</pre>\n</body>\n</html>\n',
                     out, re.S)
    check(m, 'unexpected HTML document: ' + out[:300])
    eq(html.unescape(m[1]), extra.get('title', 'Udapi visualization'), 'title')
    check('<' not in m[1], 'title not escaped')
    body = m[3]
    check(not re.search(r'&(?!amp;|lt;|gt;|quot;|#x27;|#39;|apos;)', body), 'unescaped ampersand')
    rest = re.sub(r'</?(mark|table|tr|td)>|<span class=(\'[^\'<>]*\'|"[^"<>]*")>|</span>', '', body)
    check('<' not in rest, 'unescaped character < in ' + rest)
    nmark = body.count('<mark>')
    eq(body.count('</mark>'), nmark, 'closing of mark')
    eq(body.count('<span'), body.count('</span>'), 'closing of span')
    lines = body.split('\n')
    eq(lines.pop(), '')
    text = lambda l: html.unescape(re.sub(r'<[^<>]*>', '', l))
    ml = meta_lines(doc, kw)
    eq([text(l) for l in lines[:len(ml)]], ml, 'document metadata')
    lines = lines[len(ml):]
    marks_want = 0
    mark = kw.get('mark', DEFAULT_MARK)
    for b in doc.bundles:
        sel = [t for t in b.trees if selected(t, kw)]
        pr = [t for t in sel if not kw.get('marked_only') or tree_marked(t, kw)]
        if not pr:
            continue
        if rows:
            if whole and kw.get('marked_only') and len(sel) == len(b.trees):
                pr = list(b.trees)
            elif whole:
                # which trees of unselected zones are shown is not judged
                if len(sel) < len(b.trees):
                    k = lines.index('</tr></table>')
                    if lines[:k].count('<td>') == len(b.trees):
                        pr = list(b.trees)
                    else:
                        pr = sel
            eq(lines.pop(0), '<table><tr>', 'start of a bundle')
        for t in pr:
            if rows:
                eq(lines.pop(0), '<td>', 'start of a tree')
            count = len(expect_headers(t, kw)) + len(drawn_nodes(t, kw)) + (1 if kw.get('add_empty_line', 1) else 0)
            left = check_tree_lines([text(l) for l in lines[:count]], t, kw, stars=not color)
            eq(left, [], 'extra lines')
            for n in drawn_nodes(t, kw):
                if not n.is_root() and is_marked(n, mark):
                    marks_want += len(kw.get('attributes', 'form,upos,deprel').split(',')) if kw.get('layout') == 'align' else 1
            if mark and kw.get('print_comments') and t.comment:
                marks_want += sum(bool(re.match(' %s = ' % mark, l)) for l in t.comment.rstrip().split('\n'))
            lines = lines[count:]
            if rows:
                eq(lines.pop(0), '</td>', 'end of a tree')
        if rows:
            eq(lines.pop(0), '</tr></table>', 'end of a bundle')
    eq(lines, [], 'extra lines')
    eq(nmark, marks_want, 'number of highlighted places')


FACETS = {
    'draw': facet(f_draw, 22000),
    'document': facet(f_document, 8000),
    'str': facet(f_str, 3000),
    'html': facet(f_html, 8000),
}

"""C34: coreference reports and pages state exactly what is annotated in the document."""
import gzip
import html.parser
import json
import os
import re
import shutil
import tempfile
from collections import Counter
from vf.engine import check, eq, Violation, assume
from vf.gens import *
from vf.corefgen import *
from vf.util import facet
from udapi.block.corefud.stats import Stats
from udapi.block.corefud.countgaps import CountGaps
from udapi.block.corefud.miscstats import MiscStats
from udapi.block.corefud.printmentions import PrintMentions
from udapi.block.write.corefhtml import CorefHtml
from udapi.block.read.conllu import Conllu as Reader

RULE = ('generated annotated documents (see C14; nested, crossing, discontinuous mentions, empty nodes with enhanced parents, several newdocs and paragraphs) and random options; the report is parsed and compared with the numbers '
        'counted in the model, the HTML page is parsed back to sentences, words and the mentions around each word; non-trivial = at least two entities or three mentions are reported; distinct by documents and options')
ASSUMPTIONS = ['words have a form and a tag', 'corefud.CountGaps: no sentence has only mentions of empty nodes', 'per-document statistics need named documents', 'corefud.PrintMentions with forest= adds ShouldBeInSpanOf unless print_should=0']
L0 = 'eid-etype-head-other'
UPOS = ['NOUN', 'PRON', 'PROPN', 'VERB', 'DET', 'ADP', 'X', '_']
DEP = ['nsubj', 'case', 'punct', 'cop', 'cc', 'conj', 'dep', 'det', 'advmod:emph', 'amod', 'mark', 'nmod']


def gen_doc(g, named=False, layout=L0, odd=False, **kw):
    sents, sizes, docs = gen_text(g, **kw)
    for si, s in enumerate(sents):
        ids = [f'{i}' for i in range(1, len(s['words']) + 1)] + [f'{a}.{b}' for a, b, _ in s['empties']]
        for w in s['words']:
            w['upos'], w['deprel'], w['deps'] = g.choice(UPOS), g.choice(DEP), '_'
            if w['upos'] == 'ADP' and g.bool():
                w['deprel'] = 'dep'
        for _, _, w in s['empties']:
            w['upos'] = g.choice(UPOS)
            w['deps'] = '_' if g.bool(0.4) else '|'.join(f'{x}:dep' for x in sorted(g.subset(ids, 0.15), key=float)) or '0:root'
        if odd:
            for w in slots(s):
                if g.bool(0.3):
                    w['form'] = g.choice(['<', 'a<b>', '&amp;', '"q"', "it's", 'é', '&', 'x y'])
        if named and s['newdoc'] is True:
            s['newdoc'] = f'd{si}'
    ents = gen_layer(g, sizes, [0] * len(docs), layout, **{k: v for k, v in dict(bridging=False).items()})
    src = text_of(sents, serialise(g, ents, layout), layout)
    return sents, sizes, docs, ents, src


def upos_of(sents, m, p):
    return slots(sents[m.sent])[p]['upos']


def is_empty(sents, si):
    """For each slot of a sentence, is it an empty node?"""
    s = sents[si]
    out = [True for a, _, _ in s['empties'] if a == 0]
    for i in range(1, len(s['words']) + 1):
        out.append(False)
        out += [True for a, _, _ in s['empties'] if a == i]
    return out


def parents(sents, si):
    """For each slot: set of positions of its parents (basic for words, enhanced for empty nodes); None = the technical root."""
    s = sents[si]
    ids = []
    ids += [f'0.{b}' for a, b, _ in s['empties'] if a == 0]
    for i in range(1, len(s['words']) + 1):
        ids.append(str(i))
        ids += [f'{i}.{b}' for a, b, _ in s['empties'] if a == i]
    out = []
    for w, i in zip(slots(s), ids):
        if '.' in i:
            ps = set() if w['deps'] == '_' else {e.split(':')[0] for e in w['deps'].split('|')}
        else:
            ps = {str(w['head'])}
        out.append({ids.index(x) for x in ps if x in ids})
    return out


def tops(sents, m):
    par = parents(sents, m.sent)
    return sum(not (par[p] & set(m.pos)) for p in m.pos)


def f_stats(g):
    opts = dict(report_basics=g.bool(), report_mentions=g.bool(0.75), report_entities=g.bool(0.75), report_details=g.bool(0.6), exclude_singletons=g.bool(0.25), exclude_nonsingletons=g.bool(0.2),
                m_len_max=g.choice([5, 0, 1, 2, 5]), e_len_max=g.choice([5, 1, 2, 5]), per_doc=g.bool(0.3), style=g.choice(['human', 'human', 'tex', 'tex-table', 'tex-doc']))
    if g.bool(0.3):
        opts['selected_upos'] = g.choice(['all', 'NOUN X', 'DET', '_ PRON', 'NOUN PRON PROPN'])
    if g.bool(0.4):
        opts['max_rows_per_page'] = g.int(0, 2)
    opts = {k: v for k, v in opts.items() if g.bool(0.9) or k in ('style', 'per_doc')}
    if not opts['per_doc'] or opts['style'] != 'human':
        opts.pop('docname', None)
    o = dict(m_len_max=5, e_len_max=5, report_basics=False, report_mentions=True, report_entities=True, report_details=True, selected_upos='NOUN PRON PROPN DET ADJ VERB ADV NUM _',
             exclude_singletons=False, exclude_nonsingletons=False, style='human', per_doc=False, max_rows_per_page=50)
    o.update(opts)
    ndoc = g.int(1, 3)
    data = [gen_doc(g, named=True) for _ in range(ndoc)]
    block = Stats(**opts)
    docs = [load(d[-1]) for d in data]

    class All:
        pass

    def go():
        for d in docs:
            block.apply_on_document(d)
        block.process_end()
    import io
    from vf.gens import stdout_to
    buf = io.StringIO()
    with stdout_to(buf):
        go()
    out = buf.getvalue()
    rows, heads = [], []
    for part in ([[d] for d in data] if o['per_doc'] else [data]):
        words = sum(len(s['words']) for d in part for s in d[0])
        ents = [(d[0], e) for d in part for e in d[3]]
        ents = [(s, e) for s, e in ents if not (len(e.mentions) == 1 and o['exclude_singletons']) and not (len(e.mentions) > 1 and o['exclude_nonsingletons'])]
        ms = [(s, m) for s, e in ents for m in e.mentions] if o['report_mentions'] or o['report_details'] else []
        ne = lambda n: n or 1
        cols = []
        if o['report_basics']:
            cols += [('docs', f"{sum(bool(s['newdoc']) for d in part for s in d[0]):,}"), ('sents', f"{sum(len(d[0]) for d in part):,}"), ('words', f'{words:,}'),
                     ('empty', f"{sum(len(s['empties']) for d in part for s in d[0]):,}")]
        if o['report_entities']:
            lens = [len(e.mentions) for _, e in ents]
            cols += [('entities', f'{len(ents):,}'), ('entities_per1k', f'{1000 * len(ents) / ne(words):.0f}'), ('longest_entity', str(max(lens, default=0))), ('avg_entity', f'{sum(lens) / ne(len(lens)):.1f}')]
            k = o['e_len_max']
            for i in range(1, k + 1):
                c = sum(x == i if i < k else x >= k for x in lens)
                cols.append((f"c_len_{i}{'' if i < k else '+'}", f'{100 * c / ne(len(lens)):.1f}'))
        if o['report_mentions']:
            lens = [sum(not is_empty(s, m.sent)[p] for p in m.pos) for s, m in ms]
            cols += [('mentions', f'{len(ms):,}'), ('mentions_per1k', f'{1000 * len(ms) / ne(words):.0f}'), ('longest_mention', str(max(lens, default=0))), ('avg_mention', f'{sum(lens) / ne(len(lens)):.1f}')]
            k = o['m_len_max']
            if k:
                for i in range(0, k + 1):
                    c = sum(x == i if i < k else x >= k for x in lens)
                    cols.append((f"m_len_{i}{'' if i < k else '+'}", f'{100 * c / ne(len(lens)):.1f}'))
        if o['report_details']:
            pct = lambda c: f'{100 * c / ne(len(ms)):.1f}'
            cols += [('with_empty', pct(sum(any(is_empty(s, m.sent)[p] for p in m.pos) for s, m in ms))), ('with_gaps', pct(sum(len(m.subspans()) > 1 for s, m in ms))),
                     ('nontreelet', pct(sum(tops(s, m) > 1 for s, m in ms)))]
            ups = [upos_of(s, m, m.head) for s, m in ms]
            sel = list(dict.fromkeys(ups)) if o['selected_upos'] == 'all' else o['selected_upos'].split() + ['other']
            for u in sel:
                cols.append((f'head_upos={u}', pct(sum(x == u or u == 'other' and x not in sel for x in ups))))
        rows.append(cols)
        heads.append(part[0][0][0]['newdoc'])
    msg = f'Stats({opts})\n' + '\n=====\n'.join(d[-1] for d in data) + '\noutput:\n' + out
    g.note(f'{opts}\n' + '\n=====\n'.join(d[-1] for d in data), sum(len(d[3]) for d in data) > 1 and sum(len(e.mentions) for d in data for e in d[3]) > 2)
    al = o['selected_upos'] == 'all' and o['report_details']
    norm = (lambda c: sorted(c)) if al else (lambda c: c)
    if o['style'] == 'human':
        got = []
        for line in out.split('\n')[:-1]:
            k, _, v = line.rpartition(' = ')
            if not _:
                got.append((line.rstrip(), []))
            else:
                if not got:
                    got.append((None, []))
                got[-1][1].append((k.strip(), v.strip()))
        exp = list(zip(heads, rows)) if o['per_doc'] else [(None, rows[0])] if rows[0] else []
        eq([(a, norm(b)) for a, b in got], [(a, norm(b)) for a, b in exp], msg)
    else:
        table = o['style'] != 'tex'
        text = out
        if table:
            text = ''
            if rows[0]:
                pages = re.findall(r'\\begin\{mypage\}(.*?)\\end\{mypage\}', out, re.S)
                eq(out.count('\\begin{mypage}'), len(pages), f'balanced pages; {msg}')
                check('begin{mypage}' not in ''.join(pages), f'page inside of a page; {msg}')
                eq((out.count('\\begin{document}'), out.count('\\end{document}')), (1, 1) if o['style'] == 'tex-doc' else (0, 0), f'document environment; {msg}')
                for p in pages:
                    lines = p.split('\n')
                    i = next(i for i, l in enumerate(lines) if '\\midrule' in l)
                    head = lines[i].split('\\\\')[0]
                    rest_ = lines[i + 1:]
                    while rest_ and rest_[0].startswith('\\cmidrule'):
                        rest_.pop(0)
                    if not al:
                        eq(head.count('&'), len(rows[0]), f'columns of the heading; {msg}')
                    body = '\n'.join(rest_).split('\\bottomrule')[0]
                    text += body
        lines = ' '.join(text.split('\n')).split('\\\\')
        got = []
        for l in lines:
            if l.strip():
                cells = [c.strip() for c in l.split('&')]
                got.append((cells[0] if table or o['per_doc'] else None, cells[1:] if table or o['per_doc'] else cells))
        exp = []
        for h, r in zip(heads, rows):
            first = h if o['per_doc'] else f'{ndoc} documents' if table else None
            if r:
                exp.append((first, [v for _, v in r]))
        if rows[0]:
            eq([(a, sorted(b) if al else b) for a, b in got], [(a, sorted(b) if al else b) for a, b in exp], msg)


def f_misc(g):
    """corefud.MiscStats."""
    k = g.choice([None, 1, 2, 3])
    block = MiscStats(**({} if k is None else dict(maxvalues=k)))
    k = 10 if k is None else k
    docs, srcs, model = [], [], {}
    for _ in range(g.int(1, 2)):
        src = ''
        for s in range(g.int(1, 3)):
            n = heads_size(g, 1, 9)
            for i, h in enumerate(gen_heads(g, n), 1):
                items = {}
                for _ in range(g.draw(4)):
                    items[g.choice(['A', 'A[1]', 'A[2]', 'A[10]', 'B', 'Cc', 'B[x]', 'Gloss'])] = g.choice(['1', '2', 'x y', 'é', 'v', 'w', 'zz', '3', '4', '5', '6', '7'])
                for a, v in items.items():
                    c = model.setdefault(re.sub(r'\[[0-9]+\]', '', a), [])
                    c.append(v)
                src += '\t'.join([str(i), 'f', 'l', 'X', '_', '_', str(h), 'dep', '_', '|'.join(f'{a}={v}' for a, v in items.items()) or '_']) + '\n'
            src += '\n'
        srcs.append(src)
        docs.append(load(src))
    import io
    buf = io.StringIO()
    with stdout_to(buf):
        for d in docs:
            block.apply_on_document(d)
        block.process_end()
    out = buf.getvalue()
    msg = f'MiscStats(maxvalues={k})\n' + '\n=====\n'.join(srcs) + '\n' + out
    g.note('\n=====\n'.join(srcs) + str(k), len(model) > 1 and max(map(len, model.values())) > 1)
    got, cur = {}, None
    for line in out.split('\n'):
        c = line.split('\t')
        if len(c) == 2:
            check(c[0] not in got, f'{c[0]} reported twice; {msg}')
            cur = got[c[0]] = (int(c[1]), [])
        elif len(c) == 3:
            cur[1].append((c[1], int(c[2])))
    eq(sorted(got), sorted(model), f'attributes; {msg}')
    for a, vals in model.items():
        cnt = Counter(vals)
        eq(got[a][0], len(vals), f'occurrences of {a}; {msg}')
        best = sorted(cnt.values(), reverse=True)[:k]
        eq([f for _, f in got[a][1]], best, f'frequencies of {a}; {msg}')
        eq(len({v for v, _ in got[a][1]}), len(best), f'values of {a}; {msg}')
        for v, f in got[a][1]:
            eq(cnt[v], f, f'frequency of {a}={v}; {msg}')


def f_gaps(g):
    opts = {k: g.bool() for k in ('report_per_newdoc', 'report_per_file', 'report_total') if g.bool(0.7)}
    o = dict(report_per_newdoc=False, report_per_file=True, report_total=True)
    o.update(opts)
    block = CountGaps(**opts)
    exp, srcs = [], []
    total = (Counter(), Counter())
    import io
    buf = io.StringIO()
    nontriv = False
    for _ in range(g.int(1, 2)):
        sents, sizes, docs = gen_text(g, nmax=3, nsent=g.int(2, 9), many_empties=0)
        # few mentions
        ents = gen_layer(g, sizes, [0] * len(docs), L0, max_ent=g.int(1, 3), bridging=False)
        ent_sents = {m.sent for e in ents for m in e.mentions}
        for e in ents:
            for m in e.mentions:
                assume(any(not is_empty(sents, m.sent)[p] for p in m.pos))
        pars = [g.bool(0.35) for _ in sents]
        src = text_of(sents, serialise(g, ents, L0), L0)
        parts = src.split('\n\n')
        if not g.bool(0.9):
            sents[0]['newdoc'] = None
            parts[0] = re.sub(r'# newdoc.*\n', '', parts[0])
        src = '\n\n'.join(('# newpar\n' if i < len(pars) and pars[i] and not x.startswith('# newdoc') else '') + x for i, x in enumerate(parts))
        src = '\n\n'.join(re.sub(r'^(# newdoc[^\n]*\n)', r'\1# newpar\n', x) if i < len(pars) and pars[i] and x.startswith('# newdoc') else x for i, x in enumerate(src.split('\n\n')))
        srcs.append(src)
        groups = []
        for i, s in enumerate(sents):
            if s['newdoc'] or not groups:
                groups.append((s['newdoc'], []))
                groups[-1][1].append([])
            elif pars[i]:
                groups[-1][1].append([])
            groups[-1][1][-1].append(i in ent_sents)
        fs, fp = Counter(), Counter()
        for name, ps in groups:
            flat = ''.join('x' if y else '.' for p in ps for y in p)
            seq = Counter(len(x) for x in flat.split('x') if x)
            par = Counter(len(p) for p in ps if not any(p))
            fs += seq
            fp += par
            if o['report_per_newdoc']:
                exp += [(f'SEQ STATS {name}', seq), (f'PAR STATS {name}', par)]
        if o['report_per_file']:
            exp += [('SEQ STATS FILE', fs), ('PAR STATS FILE', fp)]
        total[0].update(fs)
        total[1].update(fp)
        doc = load(src)
        with stdout_to(buf):
            block.apply_on_document(doc)
        nontriv = nontriv or bool(fs) and bool(ent_sents)
    with stdout_to(buf):
        block.process_end()
    if o['report_total']:
        exp += [('SEQ STATS TOTAL', total[0]), ('PAR STATS TOTAL', total[1])]
    msg = f'CountGaps({opts})\n' + '\n=====\n'.join(srcs) + '\n' + buf.getvalue()
    g.note(f'{opts}\n' + '\n=====\n'.join(srcs), nontriv)
    got = []
    for line in buf.getvalue().split('\n')[:-1]:
        h = re.fullmatch(r'=+ (...) STATS(?:,| in) (.*) =+', line)
        if h:
            got.append((f'{h.group(1)} STATS {h.group(2)}', Counter()))
        elif line.startswith('SUM: '):
            eq(int(line[5:]), sum(a * b for a, b in got[-1][1].items()), f'sum; {msg}')
        elif ':' in line:
            a, b = line.split(':')
            got[-1][1][int(a)] = int(b)
    eq([(a, dict(b)) for a, b in got], [(a, dict(b)) for a, b in exp], msg)


def plain(text):
    """The document without ShouldBeInSpanOf and the order of MISC attributes."""
    lines = [l.split('\t') for l in text.split('\n')]
    for c in lines:
        if len(c) == 10:
            c[9] = '|'.join(sorted(x for x in c[9].split('|') if not x.startswith('ShouldBeInSpanOf='))) or '_'
    return '\n'.join('\t'.join(c) for c in lines)


def f_mentions(g):
    sents, sizes, docs, ents, src = gen_doc(g)
    assume(ents)
    opts = {k: g.choice(['include', 'exclude', 'only', 0, 1]) for k in ('continuous', 'almost_continuous', 'treelet', 'forest', 'almost_forest', 'oneword', 'singleton', 'empty') if g.bool(0.3)}
    shuffle = g.bool(0.4)
    if not shuffle or g.bool():
        opts['shuffle'] = shuffle
    if g.bool(0.3):
        opts['max_trees'] = g.int(1, 3)
    if g.bool(0.4):
        opts['print_other_forms'] = g.int(0, 2)
    if g.bool(0.3):
        opts['print_total'] = g.bool()
    if g.bool(0.8):
        opts['print_should'] = False
    shuffle = opts.get('shuffle', True)
    doc = load(src)
    doc.coref_entities
    before = conllu(doc)
    out = run_writer(PrintMentions, doc, color=False, attributes='form,misc[Mark]', mark='xxx', print_text=False, print_doc_meta=False, **opts)
    ok = lambda cond, k: opts.get(k, 'include') == 'include' or bool(cond) == (opts[k] in ('only', 1))
    form = lambda m: ' '.join(slots(sents[m.sent])[p]['form'] for p in m.pos)

    def forest(m, almost):
        s = slots(sents[m.sent])
        emp, par = is_empty(sents, m.sent), parents(sents, m.sent)
        for p in m.pos:
            kids = [k for k in range(len(s)) if not emp[k] and p in par[k] and not emp[p]]
            if any(s[k]['deprel'].split(':')[0] == 'cop' for k in kids):
                continue
            for k in kids:
                if k in m.pos:
                    continue
                u = s[k]['deprel'].split(':')[0]
                if almost and u == 'punct' and not m.pos[0] < k < m.pos[-1]:
                    continue
                aux = u in ('case', 'cc', 'conj', 'mark', 'appos', 'vocative', 'discourse') or s[k]['deprel'] == 'advmod:emph' or u == 'dep' and s[k]['upos'] in ('ADP', 'SCONJ', 'CCONJ', 'PUNCT')
                if almost and aux and not (par[p] & set(m.pos)):
                    continue
                return False
        return True

    def almost_cont(m):
        emp = is_empty(sents, m.sent)
        real = [p for p in m.pos if not emp[p]]
        return not real or all(emp[p] or p in m.pos for p in range(real[0], real[-1]))
    chosen = []
    allm = sorted([m for e in ents for m in e.mentions], key=lambda m: mkey(m)[:4] + (m.ent.eid, m.pos))
    cand = 0
    for m in allm:
        if not ok(len(m.ent.mentions) == 1, 'singleton'):
            continue
        cand += 1
        if ok(len(m.pos) == 1, 'oneword') and ok(len(m.subspans()) == 1, 'continuous') and ok(almost_cont(m), 'almost_continuous') and \
                ok(any(is_empty(sents, m.sent)[p] for p in m.pos), 'empty') and ok(tops(sents, m) <= 1, 'treelet') and ok(forest(m, False), 'forest') and ok(forest(m, True), 'almost_forest'):
            chosen.append(m)
    msg = f'PrintMentions({opts})\n{src}\n{out}'
    g.note(f'{opts}\n{src}', 0 < len(chosen) < len(allm) or 'max_trees' in opts and len(chosen) > 2)
    mx = opts.get('max_trees', 0) or len(allm) + 1
    items = []
    tail = []
    k = opts.get('print_other_forms', 5)
    for line in out.split('\n')[:-1]:
        if line.startswith('# Mention = '):
            items.append([line[len('# Mention = '):], None, None])
        elif re.match(r'# \d+ other forms:', line):
            items[-1][1] = line
        elif line.startswith('# sent_id = ') and items:
            items[-1][2] = line[len('# sent_id = '):]
        elif line.startswith('########'):
            tail.append(line)
    exp = []
    for m in chosen:
        f = form(m)
        c = Counter(form(x) for x in m.ent.mentions if form(x) != f)
        line = None
        if c and k:
            line = f'# {min(len(c), k)} other forms:' + ''.join(f' "{a}"({b})' for a, b in sorted(c.items(), key=lambda x: -x[1])[:k])
        exp.append([f, line, f's{m.sent + 1}'])
    if shuffle:
        left = [str(x) for x in exp]
        for x in items:
            check(str(x) in left, f'unexpected {x}, matching {exp}; {msg}')
            left.remove(str(x))
        eq(len(items), min(mx, len(exp)), f'number of printed mentions; {msg}')
    else:
        eq(items, exp[:mx], msg)
    t = []
    if len(chosen) > mx:
        t.append(f'######## Only first {mx} matching mentions printed. Use max_trees=0 to see all.')
    if opts.get('print_total', True):
        t.append(f'######## Total matching/all mentions = {len(chosen)} / {cand}')
    eq(tail, t, f'final message; {msg}')
    after, before = plain(conllu(doc)), plain(before)
    if not opts.get('print_should', True):
        check('ShouldBeInSpanOf' not in conllu(doc), f'ShouldBeInSpanOf added; {msg}')
    eq(after, before, f'document changed; {msg}')


class Page(html.parser.HTMLParser):
    """Sentences of a page: [(data-id, [(form, bold, empty, [class lists of the mentions around])], text)], headings, overview rows."""

    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.stack, self.sents, self.overview, self.h1, self.pars, self.problems, self.starts = [], [], [], [], [], [], []
        self.cell = None

    def handle_starttag(self, tag, attrs):
        a = dict(attrs)
        if tag in ('meta', 'hr', 'br', 'input', 'link'):
            if tag == 'hr' and a.get('class') == 'par':
                self.pars.append(len(self.sents))
            return
        if tag == 'p' and a.get('class') == 'sentence':
            self.sents.append(dict(id=a.get('data-id'), dom=a.get('id'), words=[], text='', depth=len(self.stack)))
        if tag == 'td':
            self.cell = ''
        if tag == 'span' and 'm' in a.get('class', '').split():
            self.starts.append(dict(sent=len(self.sents) - 1, cls=a['class'].split(), title=a.get('title'), id=a.get('id')))
            a['m'] = len(self.starts) - 1
        self.stack.append((tag, a))

    def handle_endtag(self, tag):
        if not self.stack or self.stack[-1][0] != tag:
            self.problems.append(f'</{tag}> with open {[t for t, _ in self.stack]}')
            while self.stack and self.stack[-1][0] != tag:
                self.stack.pop()
        if self.stack:
            self.stack.pop()
        if tag == 'td':
            self.overview.append(self.cell)
            self.cell = None

    def handle_data(self, data):
        tags = [t for t, _ in self.stack]
        if 'script' in tags or 'style' in tags:
            return
        if self.cell is not None:
            self.cell += data
        if tags and tags[-1] == 'h1':
            self.h1.append((len(self.sents), data))
        if 'p' in tags and not any(a.get('class') == 'labels' for _, a in self.stack):
            bold = any(t == 'b' and a.get('class') == 'head' for t, a in self.stack)
            empty = any(t == 'i' and a.get('class') == 'empty' for t, a in self.stack)
            ms = tuple(a['m'] for _, a in self.stack if 'm' in a)
            norm = any(t == 'span' and a.get('class') == 'norm' for t, a in self.stack)
            s = self.sents[-1]
            for ch in data:
                s['words'].append((ch, bold, empty, ms, norm))


SCRATCH = None


def f_html(g):
    sents, sizes, docs, ents, src = gen_doc(g, odd=g.bool(0.3), layout=g.choice([L0, L0, 'eid-etype-head-minspan-link-identity-other']))
    assume(ents)
    odd_other = g.bool(0.2)
    opts = dict(show_trees=g.bool(), show_eid=g.bool(), show_etype=g.bool())
    opts = {k: v for k, v in opts.items() if g.bool(0.7)}
    if g.bool(0.4):
        opts['colors'] = g.choice([0, 1, 3, 7])
    if g.bool(0.3):
        opts['rtl'] = True
    d = tempfile.mkdtemp(prefix='c34.')
    try:
        doc = load(src)
        doc.coref_entities
        before = conllu(doc)
        out = run_writer(CorefHtml, doc, docs_dir=os.path.join(d, 'docs'), **opts)
        eq(plain(conllu(doc)), plain(before), 'write.CorefHtml changed the document')
        ndocs = len({x for x in docs})
        texts = [out]
        jsons = []
        for i in range(2, ndocs + 1):
            with gzip.open(os.path.join(d, 'docs', f'doc{i}.html.gz'), 'rt') as f:
                texts.append(f.read())
            if opts.get('show_trees', True):
                with gzip.open(os.path.join(d, 'docs', f'doc{i}.json.gz'), 'rt') as f:
                    jsons.append(json.loads(f.read()))
        files = sorted(os.listdir(os.path.join(d, 'docs')))
        exp_files = sorted([f'doc{i}.html.gz' for i in range(2, ndocs + 1)] + ([f'doc{i}.json.gz' for i in range(2, ndocs + 1)] if opts.get('show_trees', True) else []))
        eq(files, exp_files, f'files written for {ndocs} documents; {opts}\n{src}')
    finally:
        shutil.rmtree(d, ignore_errors=True)
    msg = f'CorefHtml({opts})\n{src}'
    g.note(msg, len(ents) > 1 and sum(len(e.mentions) for e in ents) > 2)
    esc = lambda s: re.sub(r'[^\w\d-]', '_', s)
    pages = []
    for k, t in enumerate(texts):
        p = Page()
        p.feed(t)
        p.close()
        eq(p.problems, [], f'nesting of tags in document {k + 1}; {msg}\n{t if k else t[t.index("<div id=" + chr(34) + "main"):t.rindex("<script>")]}')
        eq([t for t, _ in p.stack], [], f'unclosed tags in document {k + 1}; {msg}')
        pages.append(p)
    # overview
    order = sorted(ents, key=lambda e: (mkey(e.mentions[0])[:4], e.eid))
    rows = []
    for e in order:
        heads = [slots(sents[m.sent])[m.head] for m in e.mentions]
        rep = None
        for u in ('PROPN', 'NOUN'):
            rep = rep or next((h for h in heads if h['upos'] == u), None)
        rep = rep or heads[0]
        rows.append((e.eid, str(len(e.mentions)), rep['lemma'] if rep['lemma'] not in ('', '_') else rep['form']))
    got = [tuple(pages[0].overview[i:i + 3]) for i in range(0, len(pages[0].overview), 3)]
    eq(got, rows, f'overview of entities; {msg}')
    check(f'all_docs = {ndocs};' in out, f'number of documents; {msg}')
    # sentences
    ids = set()
    si = 0
    for k, p in enumerate(pages):
        mine = [i for i, x in enumerate(docs) if x == k]
        eq([s['id'] for s in p.sents], [f's{i + 1}' for i in mine], f'sentences of document {k + 1}; {msg}')
        name = sents[mine[0]]['newdoc']
        eq([x for x in p.h1], [(0, name)] if name and name is not True else [], f'heading of document {k + 1}; {msg}')
        for j, i in enumerate(mine):
            s = slots(sents[i])
            emp = is_empty(sents, i)
            ms = [m for e in ents for m in e.mentions if m.sent == i]
            chars = p.sents[j]['words']
            while chars and chars[0][0] == '\n':
                chars = chars[1:]
            want = ''
            at = 0
            for pos, w in enumerate(s):
                f = w['form']
                got = chars[at:at + len(f)]
                eq(''.join(c[0] for c in got), f, f'word {pos} of sentence {i + 1}; {msg}')
                around = sorted((m.ent.eid, m.ent.mentions.index(m) + 1) for m in ms if pos in m.pos)
                for c in got:
                    eq(c[1], any(m.head == pos for m in ms), f'bold of word {pos} of sentence {i + 1}; {msg}')
                    eq(c[2], emp[pos], f'empty-node style of word {pos} of sentence {i + 1}; {msg}')
                    shown = sorted((p.starts[x]['cls'][0], p.starts[x]['cls'][1]) for x in c[3])
                    eq(shown, sorted((esc(a), f'{esc(a)}e{b}') for a, b in around), f'mentions shown around word {pos} of sentence {i + 1}; {msg}\n{texts[k] if k else out[out.index("<p class="):out.rindex("<script>")]}')
                    eq(c[4], not around, f'style of words outside of mentions, word {pos} of sentence {i + 1}; {msg}')
                at += len(f)
                # SpaceAfter of words inside of tokens is not stated here
                if at < len(chars) and chars[at][0] == ' ' and not (pos + 1 < len(s) and s[pos + 1]['form'].startswith(' ')):
                    at += 1
            eq(''.join(c[0] for c in chars[at:]).strip(), '', f'text after the last word of sentence {i + 1}; {msg}')
            # each start tag describes its mention
            for st in [x for x in p.starts if x['sent'] == j]:
                eid_cls, mid = st['cls'][:2]
                m = [x for x in ms if esc(x.ent.eid) == eid_cls and f'{eid_cls}e{x.ent.mentions.index(x) + 1}' == mid]
                eq(len(m), 1, f'mention of the tag {st}; {msg}')
                m = m[0]
                up = s[m.head]['upos']
                eq(st['cls'][2:5], [m.ent.etype or 'other', 'm', up if up in ('PROPN', 'NOUN', 'PRON', 'VERB', 'DET') else 'OTHER'], f'classes of {st}; {msg}')
                eq('singleton' in st['cls'], len(m.ent.mentions) == 1, f'singleton; {st}; {msg}')
                t = st['title'].split('\n')
                check(t[0] == f'eid={m.ent.eid}' or re.fullmatch(re.escape(f'eid={m.ent.eid}') + r'\[\d+/\d+\]', t[0]), f'title {st}; {msg}')
                eq(t[1:3] + [t[3].replace('=_', '=None')], [f'etype={m.ent.etype or ""}', f'head={s[m.head]["form"]}', f'head-upos={up if up != "_" else None}'], f'title {st}; {msg}')
                if opts.get('colors', 7):
                    check(any(re.fullmatch(r'c\d+', c) and int(c[1:]) < opts.get('colors', 7) for c in st['cls'][5:]), f'color of {st}; {msg}')
                if st['id']:
                    check(st['id'] not in ids, f'id {st["id"]} used twice; {msg}')
                    ids.add(st['id'])
                    check(m is m.ent.mentions[0], f'the id of the entity is not at its first mention: {st}; {msg}')
    # a part of a mention is opened once, its pieces after a crossing boundary are marked as crossing
    opened = Counter(tuple(st['cls'][:2]) for p in pages for st in p.starts if 'crossing' not in st['cls'])
    eq(opened, Counter({(esc(e.eid), f'{esc(e.eid)}e{k}'): len(m.subspans()) for e in ents for k, m in enumerate(e.mentions, 1)}), f'number of opened parts of mentions; {msg}')
    eq(sorted(ids), sorted(esc(e.eid) for e in ents), f'targets of the links; {msg}')
    if opts.get('show_trees', True):
        js = re.search(r'docs_json = \[false, (.*)\];', out, re.S).group(1).split('\n];')[0]
        first = json.JSONDecoder().raw_decode(js)[0]
        for k, x in enumerate([first] + jsons):
            eq(len(x), sum(d == k for d in docs), f'trees of document {k + 1}; {msg}')
            for tree, i in zip(x, [i for i, d in enumerate(docs) if d == k]):
                eq(len(list(tree['zones'].values())[0]['trees']['a']['nodes']), 1 + len(sents[i]['words']), f'nodes of the tree of sentence {i + 1}; {msg}')


FACETS = {
    'stats': facet(f_stats, 2500),
    'misc': facet(f_misc, 1500),
    'gaps': facet(f_gaps, 2500),
    'mentions': facet(f_mentions, 3500),
    'html': facet(f_html, 2500),
}

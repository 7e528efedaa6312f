"""C01: reading and re-writing CoNLL-U changes nothing."""
import io
import json
import os
import tempfile

from vf.engine import check, eq, Violation, assume
from vf.gens import *
from vf.util import facet

RULE = ('documents of 1-4 sentences (1-7 words; comments, zones, multi-word tokens, empty nodes, DEPS, odd Unicode forms) '
        'generated as CoNLL-U text; non-trivial = at least two words and at least one of: comment beyond sent_id/text, '
        'multi-word token, empty node, DEPS, non-empty FEATS or MISC; distinct by text')
ASSUMPTIONS = ['valid = special comments at most once per sentence, no empty comment line, no trailing blanks, '
               'no SpaceAfter on words inside a multi-word token, JSON comments last in canonical form']

ORD_COMMENTS = ['# foo', '#foo', '# x = y', '# text_en = Hello there', '## double', '# translit = abc', '# sent_id_orig = 7',
                '# newparagraph', '# newdocument = 1', '# text', '# global.columns = ID FORM', '# č\u2028ž', '# a\x85b', '# \x0b1', '# $TEXT x',
                '#\tq', '# speaker_id = A', '# sent-id = 3', '# author=Me', '# texts = foo', '#text = notspecial', '# jsonx = 1', '# = x', '# z\x1cy', '#  two  blanks']
TEXT_CH = 'ab Cč.,=#漢é\u2028\xa0|"<&$'
JSON_VALUES = [1, "x", True, None, [1, "č"], {"b": 1, "a": [2]}, "a b", 1.5, "=", {}, "\u2028"]


def json_line(g, prefix, key):
    return f'# {prefix}{key} = {json.dumps(g.choice(JSON_VALUES), ensure_ascii=False, sort_keys=True)}'


def gen_doc(g, special_missing=False, zones=True, nmax=7):
    nsent = g.size(1, 4)
    use_zones = zones and g.bool(0.25)
    use_ge = g.bool(0.2)
    ge = g.choice(['eid-etype-head-other', 'eid', 'GRP-etype', 'x']) if use_ge else None
    sents = []
    doc_lines = []
    if g.bool(0.1):
        doc_lines = [json_line(g, 'doc_json_', k) for k in sorted(g.subset(['a', 'b1', 'k-k'], lo=1))]
    ids = []
    bid = 0
    zlist = []
    missing = False
    for i in range(nsent):
        if use_zones and zlist and g.bool(0.5):
            z = g.choice([z for z in ['', 'en', 'cs_x', 'de_Ab-1', '_q'] if z not in zlist] or ['zz'])
            if z in zlist:
                bid += 1
                zlist = [z]
            else:
                zlist.append(z)
        else:
            bid += 1
            zlist = [g.choice(['', 'en', 'cs_x']) if use_zones else '']
        base = g.choice(['s', 'a.b-', 'č', '', '#']) + str(bid)
        if zlist and len(zlist) > 1:
            base = prev_base
        prev_base = base
        sid = base + ('/' + zlist[-1] if zlist[-1] else '')
        s = gen_sentence(g, nmax=nmax)
        if g.bool(0.04):
            s = dict(words=[], mwts=[], empties=[], comments=[], hollow=True)
        lines = []
        specials = []
        if i == 0 and use_ge or g.bool(0.25):
            v = g.choice(['# newdoc', '# newdoc id = d1', '# newdoc id = a b', '# newdoc id = č=x'])
            specials.append(v)
            if use_ge:
                specials.append('# global.Entity = ' + ge)
        if g.bool(0.2):
            specials.append(g.choice(['# newpar', '# newpar id = p1', '# newpar id = x y']))
        has_sid = not (special_missing and g.bool(0.5))
        has_text = not (special_missing and g.bool(0.5))
        if has_sid:
            specials.append('# sent_id = ' + sid)
        if has_text:
            t = g.text(TEXT_CH, 1, 8).strip() or 'x'
            specials.append('# text = ' + t)
        if g.bool(0.4):
            specials = g.perm(specials)
        ords = g.list(lambda: g.choice(ORD_COMMENTS), 0, 3, 0.35)
        merged = list(specials)
        for c in ords:
            merged.insert(g.int(0, len(merged)), c)
        if g.bool(0.1):
            merged.insert(0, '# global.columns = ID FORM LEMMA')
        if g.bool(0.1):
            merged += [json_line(g, 'json_', k) for k in sorted(g.subset(['a', 'b1', 'Zz'], lo=1))]
        s['comments'] = merged
        s['has_sid'], s['has_text'] = has_sid, has_text
        sents.append(s)
        ids.append(sid)
    return doc_lines, sents, ids


def ser(doc_lines, sents):
    out = []
    for i, s in enumerate(sents):
        c = s['comments']
        if i == 0:
            c = doc_lines + c
        if s.get('hollow'):
            out.append('\n'.join(c + ['1\t_\t_\t_\t_\t_\t0\t_\t_\tEmpty=Yes']) + '\n\n')
        else:
            out.append(ser_sentence(dict(s, comments=c)))
    return ''.join(out)


def nontriv(sents):
    w = [x for s in sents for x in s['words']]
    return len(w) >= 2 and any(s['mwts'] or s['empties'] or len(s['comments']) > 2 for s in sents) or any(
        x['feats'] != '_' or x['misc'] != '_' or x['deps'] != '_' for x in w)


def feat_tags(g, sents):
    for s in sents:
        for c in s['comments']:
            g.tag(c.split('=')[0])
        g.tag(f"mw{min(2, len(s['mwts']))}em{min(3, len(s['empties']))}n{len(s['words'])}")


def f_roundtrip(g):
    dl, sents, ids = gen_doc(g)
    text = ser(dl, sents)
    g.note(text, nontriv(sents))
    feat_tags(g, sents)
    d = load(text)
    out = conllu(d)
    eq(out, text, 'load+store differs')
    eq(conllu(d), text, 'second store differs')


def f_entry_points(g):
    """All loading and storing entry points give the same bytes."""
    from udapi.core.document import Document
    from udapi.block.read.conllu import Conllu as R
    from udapi.block.write.conllu import Conllu as W
    dl, sents, ids = gen_doc(g)
    text = ser(dl, sents)
    g.note(text, nontriv(sents))
    feat_tags(g, sents)
    way = g.draw(9)
    with tempfile.TemporaryDirectory() as td:
        src, dst = os.path.join(td, 'in.conllu'), os.path.join(td, 'out.conllu')
        with open(src, 'w', encoding='utf-8', newline='\n') as f:
            if g.bool(0.15):
                f.write('\ufeff')   # BOM must be ignored
            f.write(text)
        if way == 0:
            d = Document(src)
        elif way == 1:
            d = Document()
            d.load_conllu(src)
        elif way == 2:
            d = Document()
            R(files=src).apply_on_document(d)
        elif way == 3:      # slow path: one big document
            docs = R(files=[src], bundles_per_doc=1000).read_documents()
            eq(len(docs), 1, 'number of documents')
            d = docs[0]
        elif way == 4:
            docs = R(files=src, sent_id_filter='.*').read_documents()
            eq(len(docs), 1, 'number of documents')
            d = docs[0]
        elif way == 5:
            d = Document()
            with open(src, encoding='utf-8-sig') as fh:
                R(filehandle=fh).apply_on_document(d)
        elif way == 6:
            d = Document()
            R(files=src, strict=True).process_document(d)
        elif way == 7:
            docs = R(files=src, split_docs=1, max_docs=0).read_documents()
            d = None
            out = ''.join(conllu(x) for x in docs)
        else:
            docs = R(files=src, max_docs=1000).read_documents()
            eq(len(docs), 1, 'number of documents')
            d = docs[0]
        if d is not None:
            w = g.draw(4)
            if w == 0:
                out = conllu(d)
            elif w == 1:
                d.store_conllu(dst)
                out = open(dst, encoding='utf-8', newline='').read()
            elif w == 2:
                W(files=dst).run(d)
                out = open(dst, encoding='utf-8', newline='').read()
            else:
                fh = open(dst, 'w', encoding='utf-8', newline='')
                W(filehandle=fh).run(d)
                out = open(dst, encoding='utf-8', newline='').read()
        eq(open(src, encoding='utf-8-sig', newline='').read(), text, 'the input file was modified')
    if way == 7 and any('global.Entity' in c for s in sents for c in s['comments']):
        # with split_docs the look-ahead tree decides; only sentences are compared here
        out = '\n'.join(l for l in out.split('\n') if 'global.Entity' not in l)
        text = '\n'.join(l for l in text.split('\n') if 'global.Entity' not in l)
    if way == 7 and dl:
        return
    eq(out, text, f'way={way}')


QUERIES = ['feats', 'misc', 'deps', 'text', 'draw', 'navig', 'tokens', 'attrs', 'coref', 'rawdeps', 'udeprel', 'str', 'copyfeats', 'iter', 'delmissing']


def f_queries(g):
    """Read-only access between load and store changes nothing."""
    dl, sents, ids = gen_doc(g)
    text = ser(dl, sents)
    g.note(text, nontriv(sents))
    d = load(text)
    qs = g.list(lambda: g.choice(QUERIES), 1, 5, 0.6)
    for q in qs:
        g.tag(q)
        for tree in d.trees:
            nodes = list(tree.descendants_and_empty)
            if q == 'text':
                tree.compute_text(), tree.get_sentence(), tree.compute_text(use_mwt=False)
            elif q == 'draw':
                with stdout_to(io.StringIO()):
                    tree.draw(color=False)
            elif q == 'tokens':
                [t.form for t in tree.token_descendants], [m.ord_range for m in tree.multiword_tokens], [m.misc['x'] for m in tree.multiword_tokens]
            elif q == 'str':
                str(tree), repr(tree), tree.address(), tree.sent_id
            for n in nodes:
                if q == 'feats':
                    n.feats['Case'], 'Number' in n.feats, dict(n.feats)
                elif q == 'misc':
                    n.misc['SpaceAfter'], list(n.misc.items()), n.no_space_after, n.gloss
                elif q == 'deps':
                    n.deps
                elif q == 'rawdeps':
                    n.raw_deps
                elif q == 'udeprel':
                    n.udeprel, n.sdeprel
                elif q == 'copyfeats':
                    c = n.feats.copy()
                    c['New'] = 'x'
                    c2 = n.misc.copy()
                    c2.clear()
                elif q == 'iter':
                    for k in n.misc:
                        n.misc[k]
                    len(n.feats), bool(n.misc)
                elif q == 'delmissing':
                    del n.misc['NonExistentName']
                    del n.feats['NonExistentName']
                if not n.is_empty():
                    if q == 'navig':
                        n.children(add_self=True), n.siblings(preceding_only=True), n.descendants(following_only=True), n.prev_node, n.next_node
                        n.is_nonprojective(), n.is_nonprojective_gap(), n.is_leaf(), n.is_descendant_of(tree)
                    elif q == 'attrs':
                        n.get_attrs(['form', 'p_upos', 'c_deprel', 'l_form', 'r_form', 'dir', 'edge', 'children', 'siblings', 'depth', 'feats_split', 'misc_split', 'feats[Case]'], undefs='')
    eq(conllu(d), text, f'after queries {qs}')


def f_missing_special(g):
    """A missing sent_id or text comment is added, nothing else changes."""
    dl, sents, ids = gen_doc(g, special_missing=True, zones=False)
    text = ser(dl, sents)
    g.note(text, nontriv(sents))
    d = load(text)
    out = conllu(d)
    got = parse_conllu(out)
    eq(len(got), len(sents), 'number of sentences')
    seen_ids = []
    for s, o in zip(sents, got):
        exp_rows = parse_conllu(ser_sentence(s) if not s.get('hollow') else '1\t_\t_\t_\t_\t_\t0\t_\t_\tEmpty=Yes\n\n')[0]['rows']
        eq(o['rows'], exp_rows, 'rows')
        c = list(o['comments'])
        if s is sents[0]:
            c = [x for x in c if not x.startswith('# doc_json')]
        if not s['has_sid']:
            added = [x for x in c if x.startswith('# sent_id = ')]
            eq(len(added), 1, f'added sent_id in {c}')
            c.remove(added[0])
        sid = [x for x in o['comments'] if x.startswith('# sent_id = ')]
        eq(len(sid), 1, f'number of sent_id comments in {o["comments"]}')
        seen_ids.append(sid[0])
        if not s['has_text']:
            added = [x for x in c if x.startswith('# text = ') or x == '# text =']
            eq(len(added), 1, f'added text in {c}')
            eq(added[0].rstrip(), ('# text = ' + spell(s['words'], s['mwts'])).rstrip(), 'added text')
            c.remove(added[0])
        eq(sorted(c), sorted(s['comments']), 'comments')
        if s['has_sid'] and s['has_text']:
            eq(c, s['comments'], 'order of comments')
        else:
            keep = [x for x in s['comments'] if x not in SPECIAL(s['comments'])]
            eq([x for x in c if x not in SPECIAL(c)], keep, 'order of ordinary comments')
    eq(len(set(seen_ids)), len(seen_ids), f'sent_ids unique: {seen_ids}')
    # and then it is a fixed point
    eq(conllu(load(out)), out, 'second round trip')


def SPECIAL(c):
    import re
    return {x for x in c if re.match(r'# (newdoc|newpar)( id|$)|# sent_id = |# text = |# global\.(Entity|columns)', x)}


def f_long(g):
    """Longer sentences: many words, ranges and empty nodes (also ten and more in one gap)."""
    n = g.int(9, 60)
    heads = gen_heads(g, n)
    words = [gen_word(g, h, 0.02) for h in heads]
    em = []
    for major in range(n + 1):
        k = g.weighted([(20, 0), (2, 1), (1, g.int(2, 13))])
        for minor in range(1, k + 1):
            e = Word(form='e', lemma='_', upos='_', xpos='_', feats='_', head=None, deprel='_', deps=f'{g.int(0, n)}:dep', misc='_')
            em.append((major, minor, e))
    s = dict(words=words, mwts=[], empties=em, comments=['# sent_id = a', '# text = t'])
    text = ser_sentence(s)
    g.note(text)
    d = load(text)
    eq(conllu(d), text)
    for node in d.nodes_and_empty:
        node.deps
    eq(conllu(d), text, 'after accessing deps')


JSON_KEYS = ['a', 'b1', 'Zz', 'my-key', 'k.2', 'č', 'x/y', 'a:b', '_', 'doc_x', 'key,1']


def f_content(g):
    """The loaded objects hold exactly what the text says (comments, metadata, all columns)."""
    import re
    dl, sents, ids = gen_doc(g)
    docjson, jsons = {}, []
    for s in sents:
        s['comments'] = [c for c in s['comments'] if not re.match(r'# (doc_)?json_', c)]
    dl = []
    for k in g.subset(JSON_KEYS, 0.15):
        docjson[k] = g.choice(JSON_VALUES)
        dl.append(f"# doc_json_{k}{g.choice([' = ', '=', '  =  '])}{json.dumps(docjson[k], ensure_ascii=g.bool())}")
    for s in sents:
        js = {}
        for k in g.subset(JSON_KEYS, 0.1):
            js[k] = g.choice(JSON_VALUES)
            line = f"# json_{k}{g.choice([' = ', '=', '  =  '])}{json.dumps(js[k], ensure_ascii=g.bool())}"
            s['comments'].insert(g.int(0, len(s['comments'])), line)
        jsons.append(js)
    text = ser(dl, sents)
    g.note(text, nontriv(sents) or any(jsons) or bool(docjson))
    d = load(text)
    eq(dict(d.json), docjson, 'document.json')
    trees = list(d.trees)
    eq(len(trees), len(sents), 'number of sentences')
    ge = [c.split(' = ')[1] for s in sents for c in s['comments'] if c.startswith('# global.Entity = ')]
    eq(d.meta.get('global.Entity'), ge[0] if ge else None, 'global.Entity')
    for t, s, sid, js in zip(trees, sents, ids, jsons):
        c = s['comments']
        eq(t.sent_id, sid, 'sent_id')
        eq(t.json, js, 'tree.json')

        def special(name):
            for x in c:
                m = re.match(r'# %s(?: id = (.+))?$' % name, x)
                if m:
                    return m.group(1) or True
            return None
        eq(t.newdoc, special('newdoc'), 'newdoc')
        eq(t.newpar, special('newpar'), 'newpar')
        eq([t.text], [x[9:] for x in c if x.startswith('# text = ')], 'text')
        ordinary = [x for x in c if x not in SPECIAL(c) - {x for x in c if x.startswith('# global.columns')} and not x.startswith('# json_')]
        left = [x for x in t.comment.split('\n') if x and not x.startswith('$') or x.startswith('$TEXT ')]
        eq(left, [x[1:] for x in ordinary], 'tree.comment')
        if s.get('hollow'):
            eq(len(t.descendants), 0, 'hollow sentence')
            continue
        rows = parse_conllu(ser_sentence(dict(s, comments=[])))[0]['rows']
        seen = {}
        for n in t.descendants:
            seen[str(n.ord)] = [n.form, n.lemma, n.upos, n.xpos, str(n.feats), str(n.parent.ord), n.deprel, n.raw_deps, str(n.misc)]
        for m in t.multiword_tokens:
            seen[m.ord_range] = [m.form, '_', '_', '_', str(m.feats), '_', '_', '_', str(m.misc)]
        for e in t.empty_nodes:
            seen[str(e.ord)] = [e.form, e.lemma, e.upos, e.xpos, str(e.feats), '_', '_', e.raw_deps, str(e.misc)]
        eq(len(seen), len(rows), f'{sorted(seen)}: words, tokens and empty nodes')
        for r in rows:
            eq([x if x is not None else '_' for x in seen[r[0]]], r[1:], f'columns of {r[0]}')
        for n in list(t.descendants) + list(t.empty_nodes):
            r = next(r for r in rows if r[0] == str(n.ord))
            for what, got, col in (('feats', dict(n.feats), r[5]), ('misc', dict(n.misc), r[9])):
                parts = [] if col == '_' else col.split('|')
                if all('=' in p for p in parts):
                    eq(got, dict(p.split('=', 1) for p in parts), what)
            if r[8] != '_':
                eq([[str(e['parent'].ord), e['deprel']] for e in n.deps], [x.split(':', 1) for x in r[8].split('|')], 'deps')
            else:
                eq(n.deps, [], 'deps')


FACETS = {
    'roundtrip': facet(f_roundtrip, 5000),
    'entry_points': facet(f_entry_points, 2400),
    'queries': facet(f_queries, 3200),
    'missing_special': facet(f_missing_special, 2400),
    'long': facet(f_long, 240),
    'content': facet(f_content, 2400),
}


def k_empty_comment():
    t = '# sent_id = 1\n#\n# text = a\n1\ta\t_\t_\t_\t_\t0\troot\t_\t_\n\n'
    return conllu(load(t)) != t


KNOWN = {'K2': k_empty_comment}

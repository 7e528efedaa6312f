"""C03: reader options deliver each sentence exactly once, in order, grouped as asked."""
import bz2
import gzip
import io
import lzma
import os
import re
import shutil
import tempfile

from vf.engine import check, eq, Violation, assume
from vf.gens import *
from vf.util import facet

RULE = ('1-4 generated CoNLL-U files (0-6 trees each; zones, newdoc marks, missing ids, BOM, gz/bz2/xz, missing last newline) x reading options '
        '(merge, split_docs, bundles_per_doc, max_docs, sent_id_filter, zone, ignore_sent_id; list/string/wildcard/file handle; read_documents, scenario run, '
        'Document(file), load_conllu); non-trivial = at least 3 trees and one option other than the default; distinct by options and files')
ASSUMPTIONS = ['bundle ids are unique across the files, newdoc stands only on the first tree of a bundle, documents without any tree are not counted',
               'a zone is imposed (zone=) only on files with one tree per bundle']

FILTERS = ['s1', 's[135]', '.*/cs', 's\\d+$', '.*2', '\\?', 'x', '', '(?!s2)', 's\\d/(en|cs)', 's']


def gen_files(g, multi=True, zone_list=('', 'en', 'cs', 'de_x'), nfiles=None, missing=True, lo=0, hi=6):
    files = []
    bid = 0
    for fi in range(nfiles or g.weighted([(4, 1), (4, 2), (2, 3), (1, 4)])):
        trees = []
        want = g.weighted([(6, 3), (3, 2), (1, 1)]) if False else g.int(max(lo, 0 if g.bool(0.15) else 1), hi)
        p_newdoc = g.weighted([(2, 0.0), (4, 0.4), (1, 0.8)])
        while len(trees) < want:
            bid += 1
            nd = None
            if g.bool(p_newdoc):
                nd = g.weighted([(3, f'doc{bid}'), (2, True), (1, 'same')])
            zs = g.subset(zone_list, 0.4, 1) if multi and g.bool(0.4) else [g.choice(zone_list) if multi else '']
            if g.bool(0.3):
                zs = g.perm(zs)
            for k, z in enumerate(zs):
                bid_s = f's{bid}'
                sid = bid_s + ('/' + z if z else '')
                if missing and len(zs) == 1 and g.bool(0.12):
                    sid = None
                s = gen_sentence(g, nmax=3, odd=0.1)
                trees.append(dict(sid=sid, newdoc=nd if k == 0 else None, s=s))
        files.append(trees)
    return files


def ser_tree(t):
    lines = []
    if t['newdoc'] is True:
        lines.append('# newdoc')
    elif t['newdoc']:
        lines.append(f'# newdoc id = {t["newdoc"]}')
    if t['sid'] is not None:
        lines.append('# sent_id = ' + t['sid'])
    t['s']['comments'] = lines
    return ser_sentence(t['s'])


def rows_of(t):
    return parse_conllu(ser_sentence(t['s']))[0]['rows']


def model(files, o):
    docs, cur, units = [], None, 0
    for fi, trees in enumerate(files):
        if not o['merge']:
            cur = None
        skipped = None
        for t in trees:
            nd = t['newdoc']
            if o['filter'] is not None:
                if not re.match(o['filter'], t['sid'] if t['sid'] is not None else '?'):
                    skipped = nd or skipped
                    continue
                nd = nd or skipped
                skipped = None
            if o['ignore'] or t['sid'] is None:
                bid, zone = None, ''
            else:
                bid, _, zone = t['sid'].partition('/')
            if o['zone'] != 'keep':
                zone = o['zone']
            same = cur is not None and bid is not None and cur['bundles'] and cur['bundles'][-1]['raw'] == bid
            if cur is not None and (nd and o['split'] or o['bpd'] and not same and len(cur['bundles']) == o['bpd']):
                cur = None
            if cur is None or nd:
                if o['max_docs'] and units >= o['max_docs']:
                    return docs
                units += 1
            if cur is None:
                cur = dict(bundles=[], file=fi, docname=nd if isinstance(nd, str) else None)
                docs.append(cur)
                same = False
            if not same:
                cur['bundles'].append(dict(raw=bid, id=bid if bid is not None else str(len(cur['bundles']) + 1), trees=[]))
            cur['bundles'][-1]['trees'].append(dict(zone=zone, newdoc=nd, rows=rows_of(t)))
    return docs


def compare_docs(docs, exp, msg, names=None, o=None):
    got = [d for d in docs if len(d.bundles)]
    eq([[(b.bundle_id, [t.zone or '' for t in b]) for b in d] for d in got],
       [[(b['id'], [t['zone'] for t in b['trees']]) for b in d['bundles']] for d in exp], f'{msg}: documents, bundles and zones')
    for d, e in zip(got, exp):
        et = [t for b in e['bundles'] for t in b['trees']]
        trees = list(d.trees)
        eq([t.newdoc for t in trees], [t['newdoc'] for t in et], f'{msg}: newdoc')
        eq([b.number for b in d], list(range(1, len(d.bundles) + 1)), f'{msg}: bundle numbers')
        for t, b, z in [(t, b['id'], x['zone']) for (t, (b, x)) in zip(trees, [(b, x) for b in e['bundles'] for x in b['trees']])]:
            eq(t.sent_id, b + ('/' + z if z else ''), f'{msg}: sent_id')
            check_wf(t, msg)
        eq([s['rows'] for s in parse_conllu(conllu(d))], [t['rows'] for t in et], f'{msg}: content')
        if names is not None and not o['merge']:
            eq(d.meta.get('loaded_from'), names[e['file']], f'{msg}: loaded_from')
            eq(d.meta.get('docname'), e['docname'], f'{msg}: docname')


def write_file(g, path, text):
    k = g.weighted([(6, ''), (1, '.gz'), (1, '.bz2'), (1, '.xz')])
    path += k
    bom = g.bool(0.15)
    data = (('\ufeff' if bom else '') + text).encode('utf-8')
    if g.bool(0.2) and data.endswith(b'\n\n'):
        data = data[:-g.int(1, 2)]
    op = {'': open, '.gz': gzip.open, '.bz2': bz2.open, '.xz': lzma.open}[k]
    with op(path, 'wb') as f:
        f.write(data)
    return path


def gen_options(g, multi):
    return dict(merge=g.bool(0.3), split=g.bool(0.35), bpd=g.weighted([(4, 0), (2, 1), (2, 2), (1, 3), (1, 100)]),
                max_docs=g.weighted([(5, 0), (2, 1), (2, 2), (1, 3)]), filter=g.choice(FILTERS) if g.bool(0.3) else None,
                zone='keep' if multi or g.bool(0.5) else g.choice(['en', 'cs_y', '']), ignore=g.bool(0.15))


def kwargs_of(g, o):
    kw = dict(merge=o['merge'], split_docs=o['split'], bundles_per_doc=o['bpd'], max_docs=o['max_docs'], zone=o['zone'], ignore_sent_id=o['ignore'])
    if o['filter'] is not None:
        kw['sent_id_filter'] = o['filter']
    defaults = dict(merge=False, split_docs=False, bundles_per_doc=0, max_docs=0, zone='keep', ignore_sent_id=False)
    return {k: (int(v) if isinstance(v, bool) and g.bool() else v) for k, v in kw.items() if v != defaults.get(k, ()) or g.bool(0.2)}


def f_options(g):
    from udapi.block.read.conllu import Conllu
    from udapi.core.block import Block
    from udapi.core.run import Run
    multi = g.bool(0.6)
    files = gen_files(g, multi)
    o = gen_options(g, multi)
    kw = kwargs_of(g, o)
    texts = [''.join(map(ser_tree, f)) for f in files]
    tmp = tempfile.mkdtemp()
    try:
        mode = g.weighted([(4, 'list'), (2, 'string'), (2, 'pattern'), (2, 'handle')])
        how = g.weighted([(3, 'read_documents'), (2, 'run')])
        desc = f'{o} {mode} {how} ' + ' || '.join('; '.join(f'{t["sid"]}{"*" + str(t["newdoc"]) if t["newdoc"] else ""}' for t in f) for f in files)
        g.note(desc, sum(map(len, files)) >= 3 and (len(files) > 1 or any(o[k] not in (False, 0, None, 'keep') for k in o)))
        g.tag(*(k for k in o if o[k] not in (False, 0, None, 'keep')))
        names = None
        if mode == 'handle':
            files = files[:1]
            reader = Conllu(filehandle=io.StringIO(texts[0]), **kw)
        else:
            paths = [write_file(g, f'{tmp}/f{i}.conllu', t) for i, t in enumerate(texts)]
            names = paths
            if mode == 'list':
                reader = Conllu(files=paths, **kw)
            elif mode == 'string':
                reader = Conllu(files=g.choice([',', ' ']).join(paths), **kw)
            else:
                reader = Conllu(files=f'!{tmp}/f*.conllu*', **kw)
        exp = model(files, o)
        if how == 'read_documents':
            docs = reader.read_documents()
        else:
            docs = []

            class Rec(Block):
                def process_document(self, document):
                    docs.append(document)
            run = Run.__new__(Run)
            run.run_blocks([('read.Conllu', reader, ''), ('x', Rec(), '')])
        check(reader.finished, f'{desc}: reader not finished')
        compare_docs(docs, exp, desc, names, o)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def f_entry(g):
    """One file through all entry points; documents delivered one by one hold no state of each other."""
    from udapi.core.document import Document
    from udapi.block.read.conllu import Conllu
    files = gen_files(g, True, nfiles=1, lo=1)
    text = ''.join(map(ser_tree, files[0]))
    o = dict(merge=False, split=False, bpd=0, max_docs=0, filter=None, zone='keep', ignore=False)
    exp = model(files, o)
    g.note(text, len(files[0]) >= 3)
    tmp = tempfile.mkdtemp()
    try:
        p = write_file(g, f'{tmp}/a.conllu', text)
        d1 = new_doc()
        d1.load_conllu(p)
        docs = [d1]
        if p.endswith('.conllu'):
            docs.append(Document(p))
        d = new_doc()
        d.from_conllu_string(text)
        docs.append(d)
        d = new_doc()
        Conllu(files=[p]).run(d)
        docs.append(d)
        d = new_doc()
        Conllu(files=[p], bundles_per_doc=len(exp[0]['bundles'])).process_document(d)
        docs.append(d)
        # tree by tree
        r = Conllu(files=[p])
        fh = r.next_filehandle()
        n = 0
        while True:
            t = r.read_tree()
            if t is None:
                break
            n += 1
        eq(n, len(files[0]), 'read_tree')
        for d in docs:
            compare_docs([d], exp, 'entry point')
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def f_parallel(g):
    """Several readers in one scenario: the zones are added to the same bundles."""
    from udapi.block.read.conllu import Conllu
    from udapi.core.block import Block
    from udapi.core.run import Run
    nread = g.weighted([(4, 2), (1, 3)])
    ndocs = g.int(1, 3)
    mode = g.weighted([(2, 'files'), (2, 'bpd')])
    n = g.int(1, 3)
    zones = ['en', 'cs', 'de'][:nread]
    sizes = [[g.int(1, 4) for _ in range(ndocs)] for _ in range(nread)]
    same = g.bool(0.6)
    if same:
        sizes = [sizes[0]] * nread
    if mode == 'bpd':       # all readers have the same number of bundles in all but the last document
        last = [g.int(1, n) for _ in range(nread)]
        sizes = [[n] * (ndocs - 1) + [last[0] if same else l] for l in last]
    content, exp_ids = [], []
    give_ids = [g.bool(0.7) for _ in range(nread)]
    for r in range(nread):
        docs = []
        for d in range(ndocs):
            docs.append([dict(sid=(f'b{r if not same else 0}.{d}.{i}' if give_ids[r] else None), newdoc=None, s=gen_sentence(g, nmax=2, odd=0.05, empties=0, deps=0))
                         for i in range(sizes[r][d])])
        content.append(docs)
    tmp = tempfile.mkdtemp()
    try:
        readers = []
        for r in range(nread):
            if mode == 'files':
                paths = []
                for d in range(ndocs):
                    paths.append(f'{tmp}/{r}-{d}.conllu')
                    open(paths[-1], 'w', encoding='utf-8').write(''.join(map(ser_tree, content[r][d])))
                readers.append(Conllu(files=paths, zone=zones[r]))
            else:
                p = f'{tmp}/{r}.conllu'
                open(p, 'w', encoding='utf-8').write(''.join(ser_tree(t) for d in content[r] for t in d))
                readers.append(Conllu(files=[p], zone=zones[r], bundles_per_doc=n))
        desc = f'{mode} {n} sizes={sizes} ids={give_ids} same={same}'
        g.note(desc, ndocs > 1 or nread > 2)
        got = []

        class Rec(Block):
            def process_document(self, document):
                got.append(document)
        run = Run.__new__(Run)
        run.run_blocks([(f'r{i}', r, '') for i, r in enumerate(readers)] + [('x', Rec(), '')])
        got = [d for d in got if d.bundles]
        eq(len(got), ndocs, f'{desc}: number of documents')
        for d, doc in enumerate(got):
            exp = []
            for i in range(max(sizes[r][d] for r in range(nread))):
                have = [r for r in range(nread) if sizes[r][d] > i]
                first = content[have[0]][d][i]
                exp.append((first['sid'] or str(i + 1), [(zones[r], rows_of(content[r][d][i])) for r in have]))
            texts = iter(parse_conllu(conllu(doc)))
            eq([(b.bundle_id, [(t.zone, next(texts)['rows']) for t in b]) for b in doc], exp, f'{desc}: document {d}')
            for b in doc:
                for t in b:
                    eq(t.sent_id, f'{b.bundle_id}/{t.zone}', f'{desc}: sent_id')
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


FACETS = {
    'options': facet(f_options, 14000),
    'entry': facet(f_entry, 2500),
    'parallel': facet(f_parallel, 3000),
}

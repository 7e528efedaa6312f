"""C16: coreference clean-up blocks do exactly their documented job."""
import re
from vf.engine import check, eq, Violation, assume
from vf.gens import *
from vf.corefgen import *
from vf.util import facet
from udapi.block.corefud.indexclusters import IndexClusters
from udapi.block.corefud.mergesamespan import MergeSameSpan
from udapi.block.corefud.removemisc import RemoveMisc
from udapi.block.corefud.removenocorefentities import RemoveNoCorefEntities
from udapi.block.corefud.delete import Delete
from udapi.block.corefud.singleparent import SingleParent
from udapi.block.corefud.movehead import MoveHead
from udapi.block.corefud.fixentityacrossnewdoc import FixEntityAcrossNewdoc
from udapi.block.corefud.fixparentheses import FixParentheses
from udapi.block.corefud.link2cluster import Link2Cluster
from udapi.block.corefud.concatmentionmisc import ConcatMentionMisc
from udapi.block.corefud.guessspan import GuessSpan
from udapi.block.corefud.printentities import PrintEntities
from udapi.block.corefud.load import Load
from udapi.block.corefud.fixinterleaved import FixInterleaved

RULE = ('generated annotated documents (see C14) with the block applied once and twice; the saved annotation and the objects are compared with the transformed model, '
        'all other columns with the input; non-trivial = the block had something to change; distinct by text and parameters')
ASSUMPTIONS = ['one zone', 'at most 9 entities', 'layouts starting with eid for corefud.FixEntityAcrossNewdoc', 'link cycles are outside of corefud.Link2Cluster']
L0 = 'eid-etype-head-other'


def setup(g, layout=None, **kw):
    layout = layout or g.choice([l for l in LAYOUTS if 'GRP' not in l and 'head' in l])
    sents, sizes, docs = gen_text(g)
    ents = gen_layer(g, sizes, docs if kw.get('perdoc') else [0] * len(docs), layout, **{k: v for k, v in kw.items() if k != 'perdoc'})
    assume(ents)
    src = text_of(sents, serialise(g, ents, layout), layout)
    return layout, sents, sizes, docs, ents, src


def outcome(doc, ents, layout, docs, src, msg, expected_rest=None, objects=True):
    """Compare the document after a block with the model."""
    if objects:
        eq(read_objects(doc, layout), model_objects(ents), f'{msg}: objects\n{src}')
    text = conllu(doc)
    verify_saved(text, ents, layout, docs, f'{msg} of\n{src}')
    eq(rest(text), rest(src) if expected_rest is None else expected_rest, f'{msg}: other columns of\n{src}')
    return text


def twice(block, text, msg, layout):
    doc = load(text)
    run_block(block, doc)
    doc.coref_entities
    eq(norm(conllu(doc)), norm(text), f'{msg}: second application')


def norm(text):
    return re.sub(r'(SplitAnte|Bridge)=([^|\n]+)', lambda m: m.group(1) + '=' + ','.join(sorted(m.group(2).split(','))), text)


def f_index(g):
    layout, sents, sizes, docs, ents, src = setup(g)
    doc = load(src)
    start, prefix = g.choice([1, 1, 0, 7]), g.choice(['e', 'c', 'x1'])
    block = IndexClusters(**({} if g.bool(0.3) else dict(start=start, prefix=prefix)))
    start, prefix = block.start, block.prefix
    mode = g.draw(3)
    msg = f'IndexClusters(start={start}, prefix={prefix!r}) mode={mode}'
    key = lambda e: (min(map(mkey, e.mentions))[:4], e.eid)
    order = sorted(ents, key=key)
    g.note(f'{msg}\n{src}', overlapping(ents) and [e.eid for e in order] != [f'{prefix}{i}' for i in range(start, start + len(order))])
    if mode == 1:      # entities built in another order
        doc = load(text_of(sents, None, layout))
        build_api(g, doc, ents)
    run_block(block, doc)
    for i, e in enumerate(order, start):
        e.eid = f'{prefix}{i}'
    eq([e.eid for e in doc.coref_entities], [e.eid for e in order], f'{msg}: entity ids\n{src}')
    eq(list(doc.eid_to_entity), [e.eid for e in order], f'{msg}: keys of eid_to_entity\n{src}')
    text = outcome(doc, ents, layout, docs, src, msg)
    # several documents share the numbering
    if mode == 2:
        doc2 = load(src)
        run_block(block, doc2)
        for i, e in enumerate(order, start + len(order)):
            e.eid = f'{prefix}{i}'
        outcome(doc2, ents, layout, docs, src, f'{msg} second document')
    if len({key(e)[0] for e in order}) == len(order):
        twice(IndexClusters(start=start, prefix=prefix), text, msg, layout)


def f_merge(g):
    layout, sents, sizes, docs, ents, src = setup(g, bridging=g.bool())
    doc = load(src)
    same = g.bool(0.4)
    # add duplicate mentions
    dups = []
    nodes = nodes_of(doc)
    n = 0
    for e in ents:
        e.obj = doc.eid_to_entity[e.eid]
    for m in [m for e in ents for m in e.mentions]:
        if g.bool(0.35):
            e = m.ent if g.bool(0.5) else g.choice(ents)
            x = M(e, m.sent, m.pos, m.head)
            if not all(compatible(x, y) or (x.sent, x.pos) == (y.sent, y.pos) for y in e.mentions):
                continue
            e.mentions.append(x)
            e.obj.create_mention(head=nodes[m.sent][m.head], words=[nodes[m.sent][p] for p in m.pos])
            n += 1
    g.note(f'same_entity_only={same} dups={n}\n{src}', n > 0)
    block = MergeSameSpan(same_entity_only=same)
    msg = f'MergeSameSpan(same_entity_only={same})'
    before = {(e.eid, m.sent, m.pos) for e in ents for m in e.mentions}
    run_block(block, doc)
    exp = set()
    for eid, s, p in before:
        if same or not any((x, s, p) in before and x < eid for x in [e.eid for e in ents]):
            exp.add((eid, s, p))
    objs = read_objects(doc, layout)
    got = [(k[1], m[0], m[1]) for k, v in objs.items() for m in v[1]]
    eq(sorted(got), sorted(exp), f'{msg}: mentions left\n{src}')
    for e in ents:
        for m in e.mentions:
            same_span = [x for y in ents for x in y.mentions if x is not m and (x.sent, x.pos) == (m.sent, m.pos)]
            if not same_span:
                o = next(x for x in objs[(0, e.eid)][1] if (x[0], x[1]) == (m.sent, m.pos))
                eq(o[2:4], (m.head, tuple(sorted((k, str(v).replace(',', '%2C')) for k, v in m.other.items()))), f'{msg}: untouched mention changed\n{src}')
    text = conllu(doc)
    eq(rest(text), rest(src), f'{msg}: other columns')
    sm, _, _ = parse_layer(parse_conllu(text), layout)
    eq(sorted((x[1], x[2], x[3]) for x in sm), sorted(exp), f'{msg}: saved mentions\n{text}')
    twice(MergeSameSpan(same_entity_only=same), text, msg, layout)


def f_nocoref(g):
    layout, sents, sizes, docs, ents, src = setup(g)
    no = [e for e in ents if g.bool(0.5)]
    for e in no:
        e.eid = 'NOCOREF' + e.eid
    src = text_of(sents, serialise(g, ents, layout), layout)
    doc = load(src)
    g.note(src, bool(no))
    run_block(RemoveNoCorefEntities(), doc)
    alive = [e for e in ents if e not in no]
    for e in alive:
        for m in e.mentions:
            m.bridging = [x for x in m.bridging if x[0] not in no]
        e.split = [x for x in e.split if x not in no]
    text = conllu(doc)
    for e in alive:     # less than two antecedents are omitted
        e.split = e.split if len(e.split) > 1 else []
    outcome(doc, alive, layout, docs, src, 'RemoveNoCorefEntities', objects=False)
    m, b, s = parse_layer(parse_conllu(text), layout)
    em, eb, es = model_saved(alive, layout, docs)
    eq((sorted(m), sorted(b), sorted(s)), (sorted(em), sorted(eb), sorted(es)), f'RemoveNoCorefEntities of\n{src}\nsaved\n{text}')
    eq(read_objects(load(text), layout), model_objects(alive), f'RemoveNoCorefEntities: reloaded\n{src}')
    total = sum(len(w.coref_mentions) for t in doc.trees for w in t.descendants_and_empty)
    eq(total, sum(len(m.pos) for e in alive for m in e.mentions), f'RemoveNoCorefEntities: mentions listed by words\n{src}')
    twice(RemoveNoCorefEntities(), text, 'RemoveNoCorefEntities', layout)


def f_across(g):
    """Entities crossing newdoc boundaries are split into one entity per document."""
    layout = g.choice(['eid-etype-head-other', 'eid-etype-head-minspan-link-identity-other', 'eid-head-other'])
    sents, sizes, docs = gen_text(g, docs_p=0.5)
    ents = gen_layer(g, sizes, [0] * len(docs), layout, bridging=False)
    assume(ents)
    for e in ents:      # bridging within one document only
        for m in e.mentions:
            others = [t for t in ents if t is not e and any(docs[x.sent] == docs[m.sent] for x in t.mentions)]
            if others and g.bool(0.2) and not any(x is not m and x.sent == m.sent and x.pos[0] == m.pos[0] for x in e.mentions):
                m.bridging.append((g.choice(others), g.choice(['part', ''])))
    src = text_of(sents, serialise(g, ents, layout), layout)
    doc = load(src)
    if g.bool():
        doc.coref_entities
    crossing = sum(1 for e in ents if len({docs[m.sent] for m in e.mentions}) > 1)
    g.note(f'{docs}\n{src}', crossing > 0)
    run_block(FixEntityAcrossNewdoc(), doc)
    # expected: per document entities; the document numbers are arbitrary but increasing
    nums = {}
    split = {}
    for o in doc.coref_entities:
        mt = re.fullmatch(r'd(\d+)\.(.+)', o.eid)
        check(mt is not None, f'FixEntityAcrossNewdoc: eid {o.eid}')
        d = docs[list(doc.trees).index(o.mentions[0].head.root)]
        check(nums.setdefault(d, int(mt.group(1))) == int(mt.group(1)), f'FixEntityAcrossNewdoc: document numbers {nums} {o.eid}\n{src}')
    check(len(set(nums.values())) == len(nums), f'FixEntityAcrossNewdoc: document numbers {nums}')
    for e in ents:
        for d in sorted({docs[m.sent] for m in e.mentions}):
            check(d in nums, f'FixEntityAcrossNewdoc: no entity of document {d}')
            x = E(f'd{nums[d]}.{e.eid}', e.etype)
            x.mentions = [m for m in e.mentions if docs[m.sent] == d]
            split[(id(e), d)] = x
    for x in split.values():
        for m in x.mentions:
            m.ent = x
            m.bridging = [(split[(id(t), docs[m.sent])], r) for t, r in m.bridging]
    ents2 = list(split.values())
    for x in ents2:     # sorted() with eids as the last criterion is not needed here
        x.mentions.sort(key=mkey)
    text = outcome(doc, ents2, layout, docs, src, 'FixEntityAcrossNewdoc')
    eq(doc.meta['global.Entity'], layout, 'global.Entity')
    eq(read_objects(load(text), layout), model_objects(ents2), f'FixEntityAcrossNewdoc: reloaded\n{src}')


def f_delete(g):
    layout, sents, sizes, docs, ents, src = setup(g)
    coref, misc, empty = g.bool(0.75), g.bool(0.4), g.bool(0.5)
    if not coref:
        empty = False
    for s in sents:
        for w in slots(s):
            if g.bool(0.2):
                w['misc'] = '|'.join([x for x in w['misc'].split('|') if x != '_' and not x.startswith('Functor=')] + ['Functor=' + g.choice(['1.1:ACT', 'ACT', '2:a.b'])])
    src = text_of(sents, serialise(g, ents, layout), layout)
    doc = load(src)
    loaded = g.bool()
    if loaded:
        doc.coref_entities
    msg = f'Delete(coref={coref}, empty={empty}, misc={misc}) loaded={loaded}'
    g.note(f'{msg}\n{src}', any(s['empties'] for s in sents) or not empty)
    block = Delete(coref=coref, empty=empty, misc=misc)
    run_block(block, doc)
    text = conllu(doc)
    out = parse_conllu(text)
    validate_conllu(out)
    for s, o, orig in zip(sents, out, parse_conllu(src)):
        got = {r[0]: r for r in o['rows']}
        rows = [r for r in orig['rows'] if not (empty and '.' in r[0])]
        eq([r[0] for r in o['rows']], [r[0] for r in rows], f'{msg}: ids\n{src}')
        edges = {r[0]: [tuple(x.split(':', 1)) for x in r[8].split('|')] if r[8] != '_' else [] for r in orig['rows']}
        for r in rows:
            q = got[r[0]]
            eq(q[:8], r[:8], f'{msg}: columns of {r[0]}\n{src}')
            em = sorted(x for x in r[9].split('|') if x != '_')
            if '-' not in r[0]:
                if misc:
                    em = [x for x in em if x == 'SpaceAfter=No' or x.split('=')[0] in ('Entity', 'Bridge', 'SplitAnte') and not coref and loaded]
                if coref:
                    em = [x for x in em if x.split('=')[0] not in ('Entity', 'Bridge', 'SplitAnte')]
                em2 = em
                if empty and '.' in r[8] and any(x.startswith('Functor=') and '.' in x[8:].split(':')[0] for x in em):
                    em2 = [x for x in em if not x.startswith('Functor=')]
                qm = sorted(x for x in q[9].split('|') if x != '_')
                if not coref and (loaded or misc):
                    strip = lambda l: [x for x in l if x.split('=')[0] not in ('Entity', 'Bridge', 'SplitAnte')]
                    em2, qm = strip(em2), strip(qm)
                eq(qm, em2, f'{msg}: MISC of {r[0]}\n{src}')
            # enhanced dependencies
            if not empty or '.' not in r[8]:
                eq(q[8], r[8], f'{msg}: DEPS of {r[0]}\n{src}')
            else:
                verify_deps(r[0], edges, q[8], f'{msg}: DEPS of {r[0]} {edges}\n{src}')
    if coref:
        check('Entity=' not in text and 'Bridge=' not in text and 'SplitAnte=' not in text, f'{msg}: annotation left\n{text}')
        eq(len(doc.coref_entities), 0, f'{msg}: entities')
        check(not any(n.coref_mentions for t in doc.trees for n in t.descendants_and_empty), f'{msg}: words list mentions')
    elif loaded:
        eq(read_objects(doc, layout), model_objects(ents), f'{msg}: objects\n{src}')
    doc2 = load(text)
    if loaded:
        doc2.coref_entities
    run_block(Delete(coref=coref, empty=empty, misc=misc), doc2)
    eq(conllu(doc2), text, f'{msg}: second application')


def verify_deps(i, edges, got, msg):
    new = [tuple(x.split(':', 1)) for x in got.split('|')] if got != '_' else []
    check(not any('.' in p for p, _ in new), f'{msg}: reference to an empty node left: {got}')
    kept = [e for e in edges[i] if '.' not in e[0]]
    # is the root reachable without empty nodes in the original graph?
    seen, todo, ok = set(), [i], False
    while todo:
        x = todo.pop()
        if x == '0':
            ok = True
            break
        if x in seen:
            continue
        seen.add(x)
        todo += [p for p, _ in edges.get(x, []) if '.' not in p]
    if ok:
        eq(sorted(new), sorted(kept), f'{msg}: the other dependencies lead to the root, so only those to empty nodes go')
        return
    # dependencies of skipped empty nodes
    seen, todo, avail = set(), [p for p, _ in edges[i] if '.' in p], set(kept) | {('0', 'root')}
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        for p, r in edges[x]:
            if '.' in p:
                todo.append(p)
            else:
                avail.add((p, r))
    check(set(kept) <= set(new), f'{msg}: lost {set(kept) - set(new)} in {got}')
    check(set(new) <= avail, f'{msg}: {set(new) - avail} are not dependencies of the skipped empty nodes')
    # unless earlier words made the root reachable, all are propagated
    cyc = has_cycle(i, edges)
    if set(new) != set(kept):
        check(set(new) >= avail - {('0', 'root')}, f'{msg}: not propagated {avail - set(new)}')
        check((('0', 'root') in new) == (('0', 'root') in avail - {('0', 'root')} or ('0', 'root') in set(kept) or cyc or any(('0', 'root') in edges[x] for x in seen)),
              f'{msg}: 0:root without a cycle of empty nodes: {got}')


def has_cycle(i, edges):
    """Is there a cycle of empty nodes above node i?"""
    def walk(x, path):
        for p, _ in edges[x]:
            if '.' in p:
                if p in path or walk(p, path | {p}):
                    return True
        return False
    return walk(i, frozenset())


def f_singleparent(g):
    sents, sizes, docs = gen_text(g, empties=0.9)
    src = text_of(sents)
    doc = load(src)
    g.note(src, any('|' in e[2]['deps'] for s in sents for e in s['empties']))
    run_block(SingleParent(), doc)
    text = conllu(doc)
    for s, o in zip(parse_conllu(src), parse_conllu(text)):
        heads = {r[0]: r[6] for r in s['rows']}

        def depth(i):
            d = 0
            while i != '0':
                i = heads[i]
                d += 1
            return d
        for r, q in zip(s['rows'], o['rows']):
            if '.' not in r[0] or '|' not in r[8]:
                eq(q, r, f'SingleParent changed {r[0]} of\n{src}')
                continue
            eq(q[:8] + q[9:], r[:8] + r[9:], f'SingleParent: columns of {r[0]} of\n{src}')
            a = [tuple(x.split(':', 1)) for x in r[8].split('|')]
            b = [tuple(x.split(':', 1)) for x in q[8].split('|')] if q[8] != '_' else []
            cand = [p for p, _ in a if '.' not in p]
            if not cand:
                eq(b, [], f'SingleParent: {r[0]} with empty parents only')
                continue
            check(b and len({p for p, _ in b}) == 1, f'SingleParent: parents left {q[8]} of {r[8]}\n{src}')
            p = b[0][0]
            eq(b, [x for x in a if x[0] == p], f'SingleParent: dependencies of {r[0]} {r[8]}\n{src}')
            check(p in cand and depth(p) == min(map(depth, cand)), f'SingleParent: {p} is not the highest of {r[8]}\n{src}')
    doc2 = load(text)
    run_block(SingleParent(), doc2)
    eq(conllu(doc2), text, 'SingleParent: second application')


def f_movehead(g):
    layout, sents, sizes, docs, ents, src = setup(g)
    keep = g.bool(0.7)
    bugs = g.choice(['warn', 'none'])
    doc = load(src)
    run_block(MoveHead(bugs=bugs, keep_head_if_possible=keep), doc)
    msg = f'MoveHead(keep={keep})'
    objs = read_objects(doc, layout)
    orig = parse_conllu(src)
    moved = 0
    for e in ents:
        got = {(x[0], x[1]): x[2] for x in objs[(0, e.eid)][1]}
        for m in e.mentions:
            h = got.get((m.sent, m.pos))
            check(h is not None, f'{msg}: mention {m.pos} disappeared')
            rows = [r for r in orig[m.sent]['rows'] if '-' not in r[0]]
            cand = find_heads(rows, m.pos, m.head, keep)
            check(h in cand, f'{msg}: head of {e.eid} {m.pos} in sentence {m.sent + 1} is {h}, expected one of {cand} (was {m.head})\n{src}')
            moved += h != m.head
            m.head = h
    g.note(f'{msg}\n{src}', moved > 0)
    text = outcome(doc, ents, layout, docs, src, msg)
    twice(MoveHead(bugs=bugs, keep_head_if_possible=keep), text, msg, layout)


def find_heads(rows, pos, head, keep):
    """Positions allowed as the head (one element unless the case is open)."""
    if len(pos) == 1:
        return [head]
    idx = {r[0]: p for p, r in enumerate(rows)}
    inside = {rows[p][0] for p in pos}
    basic = [p for p in pos if '.' in rows[p][0] or rows[p][6] not in inside]
    if len(basic) == 1:
        return basic

    def eparents(p):
        if rows[p][8] != '_':
            return [x.split(':')[0] for x in rows[p][8].split('|')]
        return [rows[p][6]] if '.' not in rows[p][0] else []
    enh = [p for p in basic if not any(x in inside for x in eparents(p))]
    if not enh:
        enh = [p for p in basic if not all(x in inside for x in eparents(p))]
        if not enh:
            return [head]
    if len(enh) == 1:
        return enh
    if any('.' in rows[p][0] for p in enh):
        return enh
    # one governing all the others
    def anc(p):
        out, i = set(), rows[p][6]
        while i != '0':
            out.add(i)
            i = rows[idx[i]][6]
        return out
    for p in enh:
        if all(q == p or rows[p][0] in anc(q) for q in enh):
            return [p]
    if keep and head in enh:
        return [head]
    return [enh[0]]


def f_parentheses(g):
    layout = 'eid-etype-head-other'
    sents, sizes, docs = gen_text(g, empties=0.15)
    for s in sents:
        for w in slots(s):
            w['lemma'] = g.choice(['(', ')', '[', ']', '{', '}', 'a', 'b'])
    ents = gen_layer(g, sizes, [0] * len(docs), layout)
    assume(ents)
    src = text_of(sents, serialise(g, ents, layout), layout)
    mark = g.bool()
    doc = load(src)
    run_block(FixParentheses(mark=mark), doc)
    marked, changed = set(), 0
    clash = False
    for m in sorted((m for e in ents for m in e.mentions), key=lambda m: (mkey(m)[:4], m.ent.eid)):
        s = sents[m.sent]
        sl = slots(s)
        isw = [any(w is x for x in s['words']) for w in sl]
        basics = [p for p in range(len(sl)) if isw[p]]
        alllem = {sl[p]['lemma'] for p in basics}
        pos = list(m.pos)
        lem = {sl[p]['lemma'] for p in pos}
        for a, b in ('()', '[]', '{}'):
            if a in lem and b not in lem and b in alllem and isw[pos[-1]]:
                nxt = next((p for p in basics if p > pos[-1]), None)
                if nxt is not None and sl[nxt]['lemma'] == b:
                    pos.append(nxt)
                    marked.add((m.sent, nxt))
            elif a not in lem and b in lem and a in alllem and isw[pos[0]]:
                prv = next((p for p in reversed(basics) if p < pos[0]), None)
                if prv is not None and sl[prv]['lemma'] == a:
                    pos.insert(0, prv)
                    marked.add((m.sent, prv))
        if tuple(pos) != m.pos:
            changed += 1
        m.newpos = tuple(pos)
    for e in ents:
        for m in e.mentions:
            m.pos = m.newpos
    g.note(f'mark={mark}\n{src}', changed > 0)
    for e in ents:
        clash = clash or any(not compatible(x, y) for i, x in enumerate(e.mentions) for y in e.mentions[:i])
    sort_layer(ents)
    msg = f'FixParentheses(mark={mark})'
    if not clash:
        for e in ents:
            objs = sorted((p_of(doc, o), o) for o in [x.words for x in doc.eid_to_entity[e.eid].mentions])
        got = read_objects(doc, layout)
        eq(got, model_objects(ents), f'{msg}: objects\n{src}')
    for si, ns in enumerate(nodes_of(doc)):
        for p, n in enumerate(ns):
            eq(n.misc['Mark'] in (1, '1'), mark and (si, p) in marked, f'{msg}: Mark at {si}:{p}\n{src}')
            n.misc['Mark'] = None
    if not clash:
        verify_saved(conllu(doc), ents, layout, docs, f'{msg} of\n{src}')
    eq(rest(conllu(doc)), rest(src), f'{msg}: other columns')


def p_of(doc, words):
    return [w.address() for w in words]


def f_link2cluster(g):
    sents, sizes, docs = gen_text(g, empties=0.2)
    ida, anta = g.choice([('proiel-id', 'antecedent-proiel-id'), ('nid', 'ante')])
    keep = g.bool(0.3)
    counter = g.choice([1, 5, 0])
    slot = [(i, p, w) for i, s in enumerate(sents) for p, w in enumerate(slots(s))]
    with_id = [x for x in slot if g.bool(0.7)]
    assume(len(with_id) > 1)
    ids = {(x[0], x[1]): str(100 + k) for k, x in enumerate(g.perm(with_id))}
    order = g.perm(with_id)
    comp = {}
    links = {}
    info = {}
    for k, (i, p, w) in enumerate(order):
        misc = [x for x in w['misc'].split('|') if x != '_'] + [f'{ida}={ids[(i, p)]}']
        if g.bool(0.3):
            info[(i, p)] = g.choice(['old', 'new'])
            misc.append(f'information-status={info[(i, p)]}')
        if k and g.bool(0.5):       # link to an earlier one in a random order: no cycles
            t = order[g.draw(k)]
            links[(i, p)] = (t[0], t[1])
            misc.append(f'{anta}={ids[(t[0], t[1])]}')
        elif g.bool(0.1):
            misc.append(f'{anta}=9999')     # unknown antecedent
        w['misc'] = '|'.join(sorted(misc, key=lambda x: x.split('=')[0].lower()))
    src = text_of(sents)
    g.note(f'{ida} keep={keep} counter={counter}\n{src}', len(links) > 1)
    # connected components
    parent = {(i, p): (i, p) for i, p, _ in with_id}

    def find(x):
        while parent[x] != x:
            x = parent[x]
        return x
    for a, b in links.items():
        parent[find(a)] = find(b)
    groups = {}
    for a in parent:
        groups.setdefault(find(a), set()).add(a)
    groups = sorted(sorted(v) for v in groups.values() if len(v) > 1)
    doc = load(src)
    run_block(Link2Cluster(id_attr=ida, ante_attr=anta, delete_orig_attrs=not keep, eid_counter=counter), doc)
    pos = {id(n): (si, p) for si, ns in enumerate(nodes_of(doc)) for p, n in enumerate(ns)}
    got = []
    for e in doc.coref_entities:
        if e.mentions:
            ms = []
            for m in e.mentions:
                check(m.entity is e, 'mention.entity')
                eq(len(m.words), 1, 'mention length')
                check(m.words[0].coref_mentions == [m], 'word does not list its mention')
                ms.append(pos[id(m.head)])
                eq(m.other['infstat'], info.get(ms[-1], ''), 'infstat')
            eq(ms, sorted(ms), 'order of mentions')
            got.append(ms)
    eq(sorted(got), groups, f'Link2Cluster: entities\n{src}')
    text = conllu(doc)
    inmention = {x for v in groups for x in v}
    exp = []
    for s, o in zip(sents, parse_conllu(src)):
        i = sents.index(s)
        p = 0
        rows = []
        for r in o['rows']:
            misc = [x for x in r[9].split('|') if x != '_']
            if '-' not in r[0]:
                if not keep and (i, p) in ids:
                    misc = [x for x in misc if x.split('=')[0] not in (ida, anta)]
                    if (i, p) in inmention:
                        misc = [x for x in misc if x.split('=')[0] != 'information-status']
                p += 1
            rows.append(r[:9] + [sorted(misc)])
        exp.append(rows)
    eq(rest(text), exp, f'Link2Cluster: other columns\n{src}')


def f_misc(g):
    """RemoveMisc and ConcatMentionMisc against a direct definition."""
    sents, sizes, docs = gen_text(g)
    names = ['Mention', 'MentionMisc_gstype', 'MentionMisc_x', 'MentionMisc_gstype[2]', 'MentionMisc_b[12]', 'ClusterId', 'ClusterId[2]', 'Bridging[1]', 'Bridging[10]', 'ClusterId[123]', 'Xy', 'MentionMisc', 'A[b]']
    concat = g.bool()
    if concat:
        names = [n for n in names if n != 'MentionMisc']
    for s in sents:
        for w in slots(s):
            w['misc'] = '|'.join(sorted([f'{n}=' + g.choice(['1', 'a,b', 'x:y']) for n in g.subset(names, 0.4)], key=lambda x: x.split('=')[0].lower())) or '_'
    src = text_of(sents)
    doc = load(src)
    if concat:
        g.note(f'concat\n{src}', 'MentionMisc_' in src)
        run_block(ConcatMentionMisc(), doc)
        what = 'ConcatMentionMisc'

        def tr(misc):
            out, new = [], {}
            for n, v in misc:
                m = re.match(r'MentionMisc_([^\[]+)((?:\[\d+\])?)', n)
                if m:
                    new.setdefault('MentionMisc' + m.group(2), []).append(m.group(1) + ':' + v.replace(',', '%2C'))
                else:
                    out.append((n, v))
            return out + [(k, ','.join(v)) for k, v in new.items()]
    else:
        arg = g.subset(['Mention', 'ClusterId', 'Bridging', 'Xy', 'zzz', 'MentionMisc_gstype', 'MentionMisc_b'], 0.4)
        what = f'RemoveMisc({",".join(arg)})'
        g.note(f'{what}\n{src}', any(a in src for a in arg))
        run_block(RemoveMisc(attrnames=','.join(arg)), doc)

        def tr(misc):
            return [(n, v) for n, v in misc if re.sub(r'\[\d+\]', '', n) not in arg]
    exp = []
    for s in parse_conllu(src):
        rows = []
        for r in s['rows']:
            if '-' not in r[0]:
                m = tr([tuple(x.split('=', 1)) for x in r[9].split('|') if '=' in x])
                rows.append(r[:9] + [sorted(f'{n}={v}' for n, v in m)])
            else:
                rows.append(r[:9] + [sorted(x for x in r[9].split('|') if x != '_')])
        exp.append(rows)
    eq(rest(conllu(doc)), exp, f'{what} of\n{src}')


def f_guess(g):
    """GuessSpan: spans become the subtrees of the heads."""
    layout, sents, sizes, docs, ents, src = setup(g, layout=L0, disc=0)
    doc = load(src)
    # several mentions of one entity must have different heads
    for e in ents:
        hs = [(m.sent, m.head) for m in e.mentions]
        assume(len(set(hs)) == len(hs))
    run_block(GuessSpan(), doc)
    orig = parse_conllu(src)
    changed = False
    for e in ents:
        got = {(pos_sent, h): p for pos_sent, p, h in [(x[0], x[1], x[2]) for x in read_objects(doc, layout)[(0, e.eid)][1]]}
        for m in e.mentions:
            rows = [r for r in orig[m.sent]['rows'] if '-' not in r[0]]
            idx = {r[0]: p for p, r in enumerate(rows)}
            sub = {rows[m.head][0]}
            while True:
                more = {r[0] for r in rows if r[6] in sub and r[0] not in sub}
                if not more:
                    break
                sub |= more
            base = tuple(sorted(idx[i] for i in sub))
            p = got.get((m.sent, m.head))
            check(p is not None, f'GuessSpan: head of {e.eid} changed\n{src}')
            check(set(base) <= set(p), f'GuessSpan: {p} does not contain the subtree {base} of {m.head}\n{src}')
            extra_ = [x for x in p if x not in base]
            check(all('.' in rows[x][0] for x in extra_), f'GuessSpan: {p} has words outside of the subtree {base}\n{src}')
            for x in range(len(rows)):
                if '.' in rows[x][0] and base[0] < x < base[-1] and x not in base:
                    par = [y.split(':')[0] for y in rows[x][8].split('|')] if rows[x][8] != '_' else []
                    if any(y in sub for y in par):
                        check(x in p, f'GuessSpan: empty node {rows[x][0]} with an enhanced parent within the mention left out\n{src}')
            changed = changed or p != m.pos
    g.note(src, changed)


def docname(sents):
    return sents[0]['newdoc'] if sents[0]['newdoc'] is not True else None


def f_print(g):
    layout, sents, sizes, docs, ents, src = setup(g)
    doc = load(src)
    minm = g.choice([0, 1, 2, 3])
    rx = g.choice([None, 'e', 'c.*1', 'X'])
    ranges, mark = g.bool(0.6), g.bool()
    agg = g.bool(0.4)
    out = run_block(PrintEntities(eid_re=rx, min_mentions=minm, print_ranges=ranges, mark_head=mark, aggregate_mentions=agg), doc)
    g.note(f'{rx} {minm} {ranges} {mark} {agg}\n{src}', bool(out))
    order = sorted(ents, key=lambda e: (mkey(e.mentions[0])[:4], e.eid))
    orig = parse_conllu(src)
    exp = [f'Coref entities in document {docname(sents)}:'] if docname(sents) else []
    for e in order:
        if len(e.mentions) < minm or rx and not re.match(rx, e.eid):
            continue
        exp.append(f' {e.eid} has {len(e.mentions)} mentions:')
        items = []
        for m in e.mentions:
            rows = [r for r in orig[m.sent]['rows'] if '-' not in r[0]]
            forms = ' '.join(f'**{rows[p][1]}**' if mark and p == m.head else rows[p][1] for p in m.pos)
            span = ','.join(rows[a][0] if a == b else f'{rows[a][0]}-{rows[b][0]}' for a, b in m.subspans())
            items.append((forms, f's{m.sent + 1}:{span}'))
        if agg:
            groups = {}
            for f, a in items:
                groups.setdefault(f, []).append(a)
            for f, a in sorted(groups.items(), key=lambda x: -len(x[1])):
                exp.append(f'{len(a):4}: {f}')
                if ranges:
                    if len(a) == 1:
                        exp.append('        ' + a[0])
                    else:
                        import os
                        pre = os.path.commonprefix(a)
                        exp.append(f'        {pre} ({" ".join(x[len(pre):] for x in a)})')
        else:
            for f, a in items:
                exp.append('   ' + f)
                if ranges:
                    exp.append('     ' + a)
    eq(out.split('\n')[:-1] if out else [], exp, f'PrintEntities(eid_re={rx}, min_mentions={minm}, print_ranges={ranges}, mark_head={mark}, aggregate_mentions={agg}) of\n{src}')
    # and nothing was changed
    eq(read_objects(doc, layout), model_objects(ents), 'PrintEntities changed the document')
    doc2 = load(src)
    run_block(Load(), doc2)
    for t in doc2.trees:      # loaded now: later changes of MISC make no difference
        for w in t.descendants_and_empty:
            del w.misc['Entity']
    eq(read_objects(doc2, layout), model_objects(ents), 'corefud.Load')


def runs_of(pos):
    out = []
    for p in sorted(pos):
        if out and out[-1][1] == p - 1:
            out[-1] = (out[-1][0], p)
        else:
            out.append((p, p))
    return set(out)


def offending(a, b, kw):
    """Should mentions (entity, positions) `a` and `b` of one sentence be fixed?"""
    if kw.get('same_entity_only', True) and a[0] != b[0]:
        return False
    A, B = set(a[1]), set(b[1])
    if kw.get('both_discontinuous') and (len(runs_of(A)) == 1 or len(runs_of(B)) == 1):
        return False
    if A <= B or B <= A:
        return kw.get('nested_same_subspan', True) and bool(runs_of(A) & runs_of(B))
    return bool(A & B) or not kw.get('crossing_only') and max(A) > min(B) and max(B) > min(A)


def f_interleaved(g):
    """corefud.FixInterleaved: nothing but offending mentions is touched, none of them is left, no word gets or loses annotation."""
    sents, sizes, docs = gen_text(g, docs_p=0)
    src = text_of(sents, None, L0)
    doc = load(src)
    nodes = nodes_of(doc)
    layer = []                       # (sentence, entity, positions)
    nent = g.weighted([(2, 1), (3, 2), (1, 3)])
    ents = [doc.create_coref_entity(f'e{i + 1}') for i in range(nent)]
    for si, size in enumerate(sizes):
        for _ in range(g.int(0, 5)):
            e = g.draw(nent)
            k = min(size, 1 + g.draw(4))
            pos = tuple(sorted({g.draw(size) for _ in range(k)}))
            if (si, f'e{e + 1}', pos) not in layer:
                layer.append((si, f'e{e + 1}', pos))
                ents[e].create_mention(head=nodes[si][g.choice(pos)], words=[nodes[si][p] for p in pos])
    assume(layer)
    kw = {}
    if g.bool(0.4):
        kw['same_entity_only'] = False
    if g.bool(0.3):
        kw['crossing_only'] = True
    if g.bool(0.3):
        kw['both_discontinuous'] = True
    if g.bool(0.3):
        kw['nested_same_subspan'] = False
    where = {n: (si, p) for si, ns in enumerate(nodes) for p, n in enumerate(ns)}

    def state():
        out, objs = [], []
        for e in doc.coref_entities:
            for m in e.mentions:
                at = sorted(where[w] for w in m.words)
                eq(len({si for si, p in at}), 1, 'a mention over several sentences')
                check(m.head in m.words, lambda: f'{msg}: head outside of the mention')
                out.append((at[0][0], e.eid, tuple(p for si, p in at)))
                objs.append(m)
        for ns in nodes:
            for n in ns:
                eq(sorted(id(m) for m in n.coref_mentions), sorted(id(m) for m in objs if n in m.words), f'{msg}: coref_mentions of word {where[n]}')
        return out, objs

    msg = f'FixInterleaved({kw}) of {layer} in\n{src}'
    before, objs = state()
    heads = {id(m): m.head for m in objs}
    eq(sorted(before), sorted(layer), 'generator')
    bad = [[(a, b) for a in layer for b in layer if a[0] == b[0] == si and a != b and offending(a[1:], b[1:], kw)] for si in range(len(sizes))]
    g.note(msg, any(bad))
    run_block(FixInterleaved(**kw), doc)
    after, objs2 = state()
    check(not set(map(id, objs2)) - set(map(id, objs)), lambda: f'{msg}: new mentions')
    eq(len(set(after)), len(after), f'{msg}: mentions with the same span and entity in {after}')
    for si in range(len(sizes)):
        orig, new = sorted(x for x in layer if x[0] == si), sorted(x for x in after if x[0] == si)
        if not bad[si]:
            eq(new, orig, f'{msg}: sentence {si + 1} has no interleaved mentions')
        eq({p for x in new for p in x[2]}, {p for x in orig for p in x[2]}, f'{msg}: words with annotation in sentence {si + 1}')
        for a in new:
            part = [x[2] for x in orig if set(x[2]) <= set(a[2]) and (x[1] == a[1] or not kw.get('same_entity_only', True))]
            eq({p for x in part for p in x}, set(a[2]), f'{msg}: {a} is not a union of mentions')
            for b in new:
                check(a == b or not offending(a[1:], b[1:], kw), lambda: f'{msg}: {a} and {b} left')
    # a mention which interleaves with nothing and is in no enlarged mention is the same object with the same head
    kept = {id(m): x for m, x in zip(objs2, after)}
    for m, x in zip(objs, before):
        if not any(x in pair for pair in bad[x[0]]):
            if x in layer and x in after:
                continue
            check(any(set(x[2]) & set(y[2]) or max(x[2]) > min(y[2]) and max(y[2]) > min(x[2]) for y in after if y[0] == x[0] and y not in before), lambda: f'{msg}: {x} changed to {after}')
        elif id(m) in kept and kept[id(m)] == x:
            check(m.head is heads[id(m)], lambda: f'{msg}: head of {x} changed')
    eq(rest(conllu(doc)), rest(src), f'{msg}: other columns')
    run_block(FixInterleaved(**kw), doc)
    eq(state()[0], after, f'{msg}: second application')


FACETS = {
    'interleaved': facet(f_interleaved, 2500),
    'index': facet(f_index, 1500),
    'merge': facet(f_merge, 2000),
    'nocoref': facet(f_nocoref, 1500),
    'across': facet(f_across, 2000),
    'delete': facet(f_delete, 3000),
    'singleparent': facet(f_singleparent, 2500),
    'movehead': facet(f_movehead, 3000),
    'parentheses': facet(f_parentheses, 2500),
    'link2cluster': facet(f_link2cluster, 2500),
    'misc': facet(f_misc, 1500),
    'guess': facet(f_guess, 2500),
    'print': facet(f_print, 1500),
}

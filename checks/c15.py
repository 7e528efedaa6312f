"""C15: coreference edits keep entities, mentions and words in agreement."""
import re
from vf.engine import check, eq, Violation, assume
from vf.gens import *
from vf.corefgen import *
from vf.util import facet
from udapi.core.coref import nodes_to_span, span_to_nodes, OtherDualDict, BridgingLinks

RULE = ('histories of 3-14 edits (entities with given and automatic ids, mentions from words/span/head, new words, spans, heads and entities, removals, rejected edits, bridging links) '
        'over documents of 1-3 sentences with empty nodes (also x.10), with or without annotation loaded from text; the whole state is compared with a model after each edit; '
        'non-trivial = two mentions share a word and at least one was moved or removed; distinct by history')
ASSUMPTIONS = ['words are not reordered or removed while mentions exist', 'two mentions of one entity never have the same words']


class S:
    pass


def okey(m):
    return (m.sent, m.pos[0], -len(m.pos), m.pos[-1], m.ent.eid, m.pos)


def verify(st, msg):
    doc, nodes = st.doc, st.nodes
    eids = [e.eid for e in st.ents]
    got = [x.eid for x in doc.coref_entities]
    eq(sorted(got), sorted(eids), f'{msg}: entity ids')
    eq(sorted(doc.eid_to_entity), sorted(eids), f'{msg}: eid_to_entity keys')
    allm = sorted((m for e in st.ents for m in e.mentions), key=okey)
    for e in st.ents:
        o = doc.eid_to_entity[e.eid]
        check(o is e.obj, f'{msg}: entity object of {e.eid}')
        eq(o.etype or None, e.etype, f'{msg}: etype of {e.eid}')
        ms = sorted(e.mentions, key=okey)
        got = list(o.mentions)
        if len(got) != len(ms) or any(a is not b.obj for a, b in zip(got, ms)):
            raise Violation(f'{msg}: entity {e.eid} lists {[x.span for x in got]}, expected {[(m.sent, m.pos) for m in ms]}')
    got = list(doc.coref_mentions)
    if len(got) != len(allm) or any(a is not b.obj for a, b in zip(got, allm)):
        raise Violation(f'{msg}: doc.coref_mentions is {[(x.entity.eid, x.span) for x in got]}, expected {[(m.ent.eid, m.sent, m.pos) for m in allm]}')
    for m in allm:
        o = m.obj
        check(o.entity is m.ent.obj, f'{msg}: entity of {m.pos}')
        ws = [nodes[m.sent][p] for p in m.pos]
        eq([x.address() for x in o.words], [x.address() for x in ws], f'{msg}: words')
        check(o.head is nodes[m.sent][m.head], f'{msg}: head {o.head} expected {nodes[m.sent][m.head]}')
        eq(o.span, st.span(m.sent, m.pos), f'{msg}: span')
        eq([(l.target.eid, l.relation) for l in o.bridging], [(t.eid, r) for t, r in m.bridging], f'{msg}: bridging')
        eq([t.eid for t in o.bridging.targets], [t.eid for t, _ in m.bridging], f'{msg}: bridging targets')
        eq(dict(o.other), m.other, f'{msg}: other')
    for si, ns in enumerate(nodes):
        for p, n in enumerate(ns):
            exp = [m for m in allm if m.sent == si and p in m.pos]
            got = list(n.coref_mentions)
            if len(got) != len(exp) or any(a is not b.obj for a, b in zip(got, exp)):
                raise Violation(f'{msg}: {n.address()} lists {[(x.entity.eid, x.span) for x in got]}, expected {[(m.ent.eid, m.pos) for m in exp]}')
            check([id(x) for x in n.coref_entities] == [id(m.ent.obj) for m in exp], f'{msg}: {n.address()}.coref_entities')
    # total order
    for i, a in enumerate(allm[:6]):
        for j, b in enumerate(allm[:6]):
            eq((a.obj < b.obj, a.obj > b.obj), (i < j, i > j), f'{msg}: order of mentions {a.ent.eid} {a.pos} / {b.ent.eid} {b.pos}')
    es = sorted(st.ents, key=lambda e: (1,) + min(map(okey, e.mentions)) if e.mentions else (0, e.eid))
    for i, a in enumerate(es):
        for j, b in enumerate(es):
            eq((a.obj < b.obj, a.obj > b.obj), (i < j, i > j), f'{msg}: order of entities {a.eid} / {b.eid}')


def start(g):
    st = S()
    sents, sizes, docs = gen_text(g, nsent=g.int(1, 3), nmax=5, many_empties=0.1)
    st.sizes = sizes
    loaded = g.bool(0.3)
    layout = 'eid-etype-head-other'
    st.ents = []
    annot = None
    if loaded:
        st.ents = gen_layer(g, sizes, [0] * len(docs), layout, max_ent=3)
        for e in st.ents:
            e.split = []
        annot = serialise(g, st.ents, layout)
    st.src = text_of(sents, annot, layout if loaded else None)
    st.doc = load(st.src)
    st.nodes = nodes_of(st.doc)
    st.labels = [[r[0] for r in s['rows'] if '-' not in r[0]] for s in parse_conllu(st.src)]
    for e in st.ents:
        e.obj = st.doc.eid_to_entity[e.eid]
        objs = list(e.obj.mentions)
        for m in e.mentions:
            ws = [st.nodes[m.sent][p] for p in m.pos]
            m.obj = next(o for o in objs if o.words == ws)
            m.other = {k: v.replace(',', '%2C') if isinstance(v, str) else v for k, v in m.other.items()}
    for e in st.ents:
        for m in e.mentions:
            m.bridging = [next((t, r) for t, r in m.bridging if t.eid == l.target.eid and r == l.relation) for l in m.obj.bridging]

    def span(si, pos):
        out = []
        for p in sorted(pos):
            if out and out[-1][1] == p - 1:
                out[-1][1] = p
            else:
                out.append([p, p])
        lab = st.labels[si]
        return ','.join(lab[a] if a == b else f'{lab[a]}-{lab[b]}' for a, b in out)
    st.span = span
    return st


def anypos(g, n):
    return sorted(g.subset(range(n), 0.5, 1)) if g.bool(0.5) else gen_pos(g, n, 0.4)


def free(ent, sent, pos, but=None):
    return not any(m is not but and m.sent == sent and m.pos == tuple(pos) for m in ent.mentions)


def expect_error(fn, what, st, errors=(ValueError,)):
    try:
        fn()
    except errors:
        verify(st, f'after rejected {what}')
        return
    raise Violation(f'{what} was accepted')


def f_history(g):
    st = start(g)
    assume(any(st.sizes))
    verify(st, 'at the beginning')
    hist = []
    moved = shared = False
    for step in range(g.int(3, 14)):
        ms = [m for e in st.ents for m in e.mentions]
        op = g.weighted([(2, 'entity'), (6, 'mention'), (3, 'words'), (2, 'span'), (2, 'head'), (3, 'reent'), (2, 'remove'), (2, 'bad'), (1, 'bridging'), (1, 'node_entity'), (1, 'other')])
        if not st.ents:
            op = 'entity'
        elif not ms and op not in ('entity', 'mention', 'bad', 'node_entity'):
            op = 'mention'
        m = g.choice(ms) if ms else None
        msg = f'{op}'
        if op == 'entity':
            auto = g.bool(0.4)
            eid = None if auto else g.choice(['e', 'x', 'e1', 'é']) + str(g.int(1, 9))
            if auto:
                k = 1
                while any(e.eid == f'e{k}' for e in st.ents):
                    k += 1
                exp = f'e{k}'
            elif any(e.eid == eid for e in st.ents):
                hist.append(f'entity {eid} (dup)')
                expect_error(lambda: st.doc.create_coref_entity(eid), f'create_coref_entity({eid}) of an existing entity', st)
                continue
            else:
                exp = eid
            e = E(exp, g.choice(ETYPES + [None]))
            e.obj = st.doc.create_coref_entity(eid, e.etype)
            st.ents.append(e)
            msg = f'entity {exp}'
        elif op in ('mention', 'node_entity'):
            s = g.choice([i for i, n in enumerate(st.sizes) if n])
            pos = anypos(g, st.sizes[s])
            if op == 'node_entity':
                k = 1
                while any(e.eid == f'e{k}' for e in st.ents):
                    k += 1
                e = E(f'e{k}', None)
            else:
                e = g.choice(st.ents)
            if not free(e, s, pos):
                continue
            h = g.choice(pos)
            ws = [st.nodes[s][p] for p in pos]
            head = st.nodes[s][h]
            m = M(e, s, pos, h)
            how = g.draw(4)
            if op == 'node_entity':
                kw = {'words': g.perm(ws)} if how < 2 else {'span': st.span(s, pos)} if how == 2 else {}
                if not kw:
                    m.pos = (h,)
                e.obj = head.create_coref_entity(**kw)
                st.ents.append(e)
                m.obj = e.obj.mentions[0]
            elif how == 0:
                m.obj = e.obj.create_mention(head=head, words=g.perm(ws))
            elif how == 1:
                m.obj = e.obj.create_mention(head=head, span=st.span(s, pos))
            elif how == 2:
                m.obj = e.obj.create_mention(words=ws)
                m.head = pos[0]
            else:
                if not free(e, s, (h,)):
                    continue
                m.obj = e.obj.create_mention(head=head)
                m.pos = (h,)
            e.mentions.append(m)
            msg = f'{op} of {e.eid} {s}:{m.pos} head {m.head} how={how}'
        elif op in ('words', 'span'):
            pos = sorted(set(anypos(g, st.sizes[m.sent])) | {m.head})
            if not free(m.ent, m.sent, pos, m):
                continue
            msg = f'{op} {m.ent.eid} {m.sent}:{m.pos} -> {pos}'
            if op == 'words':
                ws = [st.nodes[m.sent][p] for p in pos]
                m.obj.words = g.perm(ws) if g.bool(0.7) else ws + ws[:1]
            else:
                m.obj.span = st.span(m.sent, pos)
            m.pos = tuple(pos)
            moved = True
        elif op == 'head':
            m.head = g.choice(m.pos)
            m.obj.head = st.nodes[m.sent][m.head]
            msg = f'head {m.ent.eid} {m.pos} -> {m.head}'
        elif op == 'reent':
            e = g.choice(st.ents)
            if not free(e, m.sent, m.pos, m):
                continue
            msg = f'{m.ent.eid} {m.sent}:{m.pos} to entity {e.eid}'
            m.obj.entity = e.obj
            m.ent.mentions.remove(m)
            m.ent = e
            e.mentions.append(m)
            moved = True
        elif op == 'remove':
            msg = f'remove {m.ent.eid} {m.sent}:{m.pos}'
            m.obj.remove()
            m.ent.mentions.remove(m)
            moved = True
        elif op == 'other':
            k, v = g.choice(OTHER_NAMES), g.choice(['', 'x', 'y,z', None])
            msg = f'other {m.ent.eid} {k}={v}'
            m.obj.other[k] = v
            if v:
                m.other[k] = v.replace(',', '%2C')
            else:
                m.other.pop(k, None)
        elif op == 'bridging':
            if any(m2.ent is m.ent and m2 is not m and m2.bridging for m2 in ms) or len(st.ents) < 2:
                continue
            ts = [e for e in st.ents if e is not m.ent]
            t, r = g.choice(ts), g.choice(['part', 'subset', '', 'party'])
            b = m.obj.bridging
            how = g.draw(5)
            if how == 0 or not m.bridging:
                b.append((t.obj, r))
                m.bridging.append((t, r))
            elif how == 1:
                i = g.draw(len(m.bridging))
                del b[i]
                del m.bridging[i]
            elif how == 2:
                i = g.draw(len(m.bridging))
                b[i] = (t.obj, r)
                m.bridging[i] = (t, r)
            elif how == 3:
                i = g.draw(len(m.bridging) + 1)
                b.insert(i, (t.obj, r))
                m.bridging.insert(i, (t, r))
            else:
                rx = g.choice(['part', 'part|subset', 'x', '.*', None])
                sub = b(rx)
                eq([(e.eid, rel) for e, rel in sub], [(e.eid, rel) for e, rel in m.bridging if rx is None or re.match(rx, rel)], f'bridging({rx!r})')
            msg = f'bridging of {m.ent.eid} how={how} {t.eid} {r}'
            if how != 4:
                expect_error(lambda: b.append((m.ent.obj, 'part')), 'bridging to the own entity', st)
        elif op == 'bad':
            k = g.draw(7)
            s = g.choice([i for i, n in enumerate(st.sizes) if n])
            e = g.choice(st.ents)
            n = st.sizes[s]
            if k == 0 and n > 1:
                h = g.draw(n)
                ws = [st.nodes[s][p] for p in range(n) if p != h]
                expect_error(lambda: e.obj.create_mention(head=st.nodes[s][h], words=ws), 'create_mention with the head outside of words', st)
            elif k == 1 and n > 1:
                h = g.draw(n)
                sp = st.span(s, g.subset([p for p in range(n) if p != h], 0.5, 1))
                expect_error(lambda: e.obj.create_mention(head=st.nodes[s][h], span=sp), 'create_mention with the head outside of span', st)
            elif k == 2 and m and st.sizes[m.sent] > len(m.pos):
                h = g.choice([p for p in range(st.sizes[m.sent]) if p not in m.pos])
                def sethead():
                    m.obj.head = st.nodes[m.sent][h]
                expect_error(sethead, 'head outside of the mention', st)
            elif k == 3 and m and st.sizes[m.sent] > 1:
                ps = g.subset([p for p in range(st.sizes[m.sent]) if p != m.head], 0.5, 1)
                def setwords():
                    m.obj.words = [st.nodes[m.sent][p] for p in ps]
                def setspan():
                    m.obj.span = st.span(m.sent, ps)
                expect_error(setwords if g.bool() else setspan, 'new words without the head', st)
            elif k == 4:
                expect_error(lambda: e.obj.create_mention(head=st.nodes[s][0], words=[st.nodes[s][0]], span='1'), 'both words and span', st)
            elif k == 5:
                bad = 'a' + g.choice(['-', '=', '|', ' ', '\t', '(', ')']) + 'b'
                expect_error(lambda: st.doc.create_coref_entity(bad), f'entity id {bad!r}', st)
            else:
                sp = g.choice(['x', '1-', '1--2', 'a-b', '1,,2', ''])
                if sp:
                    expect_error(lambda: e.obj.create_mention(head=st.nodes[s][0], span=sp), f'span {sp!r}', st)
                else:
                    expect_error(lambda: e.obj.create_mention(), 'neither head nor words', st)
            msg = f'bad {k}'
        hist.append(msg)
        verify(st, f'after {hist}')
        ms = [x for e in st.ents for x in e.mentions]
        shared = shared or any(a is not b and a.sent == b.sent and set(a.pos) & set(b.pos) for a in ms for b in ms)
        g.tag(op)
    g.note(f'{hist} on\n{st.src}', moved and shared)


def f_span(g):
    """Span strings and node lists determine each other."""
    sents, sizes, docs = gen_text(g, nsent=1, nmax=9, empties=0.7, many_empties=0.3)
    assume(sizes[0])
    src = text_of(sents)
    doc = load(src)
    nodes = nodes_of(doc)[0]
    lab = [r[0] for r in parse_conllu(src)[0]['rows'] if '-' not in r[0]]
    pos = sorted(g.subset(range(sizes[0]), g.choice([0.2, 0.5, 0.8])))
    out = []
    for p in pos:
        if out and out[-1][1] == p - 1:
            out[-1][1] = p
        else:
            out.append([p, p])
    exp = ','.join(lab[a] if a == b else f'{lab[a]}-{lab[b]}' for a, b in out)
    g.note(f'{exp} of {lab}', len(out) > 1 and any('.' in l for l in lab))
    eq(nodes_to_span([nodes[p] for p in g.perm(pos)]), exp, 'nodes_to_span')
    if pos:
        eq([n.address() for n in span_to_nodes(nodes[0].root, exp)], [nodes[p].address() for p in pos], f'span_to_nodes({exp})')
        # ranges in any order and split differently
        parts = []
        for a, b in out:
            if b > a and g.bool():
                c = g.int(a, b - 1)
                parts += [(a, c), (c + 1, b)]
            else:
                parts.append((a, b))
        sp = ','.join(lab[a] if a == b and g.bool() else f'{lab[a]}-{lab[b]}' for a, b in g.perm(parts))
        eq([n.address() for n in span_to_nodes(nodes[0].root, sp)], [nodes[p].address() for p in pos], f'span_to_nodes({sp})')


def f_other(g):
    """The dict and string views of mention.other agree with a plain dict."""
    d, model = OtherDualDict(), {}
    hist = []
    keys = OTHER_NAMES + ['aab', 'X', 'é']
    n_str = 0
    for _ in range(g.int(1, 10)):
        op = g.weighted([(4, 'set'), (2, 'del'), (2, 'str'), (2, 'get'), (1, 'map'), (1, 'smap'), (1, 'clear'), (1, 'copy')])
        k = g.choice(keys)
        v = g.choice(['a', 'b:c', 'x,y', 'č', '0', True, '', None])
        if op == 'set':
            d[k] = v
            if v is None or v == '':
                model.pop(k, None)
            else:
                model[k] = v.replace(',', '%2C') if isinstance(v, str) else v
        elif op == 'del':
            del d[k]
            model.pop(k, None)
        elif op == 'get':
            eq(d[k], model.get(k, ''), f'{hist} get {k}')
            eq(k in d, k in model, f'{hist} {k} in')
        elif op == 'map':
            model = {x: g.choice(['1', 'z']) for x in g.subset(keys, 0.4)}
            src = dict(model)
            d.set_mapping(src)
            src['zzz'] = '1'
        elif op == 'smap':
            model = {x: g.choice(['1', 'z:y', True]) for x in g.subset(keys, 0.4)}
            d.set_mapping(','.join(x if y is True else f'{x}:{y}' for x, y in model.items()))
            if g.bool():
                d['gstype'] = 'q'
                model['gstype'] = 'q'
        elif op == 'clear':
            d.clear()
            model = {}
        elif op == 'copy':
            c = d.copy() if g.bool() else OtherDualDict(dict(d))
            c['copied'] = 'yes'
            check('copied' not in d, 'a copy shares data')
        hist.append((op, k, v))
        if op in ('str', 'map', 'copy') or g.bool(0.3):
            s = str(d)
            n_str += 1
            if op != 'smap':
                names = [x.partition(':')[0] for x in s.split(',')] if s else []
                got = {x.partition(':')[0]: (x.partition(':')[2] if ':' in x else True) for x in s.split(',')} if s else {}
                eq(got, model, f'{hist}: str')
                eq(len(names), len(model), f'{hist}: names in the string')
        eq(dict(d), model, f'{hist}: dict')
        eq(len(d), len(model), f'{hist}: len')
    d['zz'] = '1'
    model['zz'] = '1'
    exp = ','.join(k if v is True else f'{k}:{v}' for k, v in sorted(model.items(), key=lambda x: x[0].lower()))
    if len({k.lower() for k in model}) == len(model):
        eq(str(d), exp, f'{hist}: sorted string')
    g.note(str(hist), n_str > 0 and len(hist) > 2)


FACETS = {
    'history': facet(f_history, 14000),
    'span': facet(f_span, 8000),
    'other': facet(f_other, 8000),
}

"""C14: coreference annotation survives loading and saving."""
import re
from vf.engine import check, eq, Violation, assume
from vf.gens import *
from vf.corefgen import *
from vf.util import facet
from udapi.block.corefud.load import Load

RULE = ('documents of 1-4 sentences (words and empty nodes, also x.10) with 1-5 entities of 1-5 mentions (nested, crossing, single, discontinuous), bridging, split antecedents, '
        'extra attributes, 14 field layouts; annotated through the API or as text with any legal bracket order; non-trivial = at least two overlapping mentions or '
        'a discontinuous mention or a link; distinct by text')
ASSUMPTIONS = ['mentions of one entity do not cross and are not same-span (documented limits of the format); attribute values contain none of - | ( ) < and blanks',
               'bridging starts only from a mention which is the only one of its entity starting at that word', 'one zone']


def f_roundtrip(g):
    layout = g.choice(LAYOUTS)
    api = 'GRP' not in layout and g.bool(0.5)
    sents, sizes, docs = gen_text(g)
    if api or 'GRP' not in layout:
        docs = [0] * len(docs) if 'GRP' not in layout else docs
    ents = gen_layer(g, sizes, docs, layout)
    assume(ents)
    g.tag(layout, api)
    if api:
        default = layout == 'eid-etype-head-other' and g.bool()
        src = text_of(sents, None, None if default else layout, first_newdoc=g.bool(0.7))
        doc = load(src)
        if not default:
            doc.meta['global.Entity'] = layout
        build_api(g, doc, ents)
    else:
        src = text_of(sents, serialise(g, ents, layout), layout)
        doc = load(src)
    g.note(f'{layout} api={api} {model_objects(ents)}\n{src}', overlapping(ents))
    msg = f'layout {layout}'
    eq(read_objects(doc, layout), model_objects(ents), f'{msg}: objects after {"building" if api else "loading"}\n{src}')
    text = conllu(doc)
    verify_saved(text, ents, layout, docs, msg)
    # nothing else was changed
    eq(rest(text), rest(src), f'{msg}: other columns')
    eq(read_objects(doc, layout), model_objects(ents), f'{msg}: objects after saving')
    doc2 = load(text)
    eq(read_objects(doc2, layout), model_objects(ents), f'{msg}: reloaded objects of\n{text}')
    order = [e for e in doc2.coref_entities]
    check(all(x < y for x, y in zip(order, order[1:])), f'{msg}: loaded entities are not sorted')
    for e in order:
        check(all(x < y for x, y in zip(e.mentions, e.mentions[1:])), f'{msg}: loaded mentions are not sorted')
    text2 = conllu(doc2)
    verify_saved(text2, ents, layout, docs, f'{msg}: saving once more')
    if not api:     # otherwise the order of entities may change from creation order to word order
        eq(text2, text, f'{msg}: saving once more')
    eq(conllu(load(text2)), text2, f'{msg}: saving for the third time')
    eq(conllu(doc), text, f'{msg}: saving the same document twice')


def f_untouched(g):
    """Loading a file without looking at coreference keeps the annotation verbatim; removing links to entities without mentions."""
    layout = g.choice([l for l in LAYOUTS if 'GRP' not in l])
    sents, sizes, docs = gen_text(g)
    ents = gen_layer(g, sizes, [0] * len(docs), layout, max_ent=6)
    assume(ents)
    src = text_of(sents, serialise(g, ents, layout), layout)
    doc = load(src)
    text = conllu(doc)
    eq([s['rows'] for s in parse_conllu(text)], [s['rows'] for s in parse_conllu(src)], f'annotation kept verbatim\n{src}')
    # remove all mentions of some entities: links to them disappear from the file
    doc2 = load(src)
    by = {e.eid: e for e in ents}
    dead = g.subset(ents, 0.4)
    if len(dead) == len(ents):
        dead = dead[1:]
    g.note(f'{layout} remove {[e.eid for e in dead]}\n{src}', bool(dead) and overlapping(ents))
    for o in list(doc2.coref_entities):
        if by[o.eid] in dead:
            for m in list(o.mentions):
                m.remove()
    alive = [e for e in ents if e not in dead]
    for e in alive:
        for m in e.mentions:
            m.bridging = [(t, r) for t, r in m.bridging if t in alive]
        e.split = [t for t in e.split if t in alive]
        if len(e.split) < 2:
            e.split = []
    out = conllu(doc2)
    verify_saved(out, alive, layout, docs, f'removed {[e.eid for e in dead]} of\n{src}')
    eq(read_objects(load(out), layout), model_objects(alive), f'reloaded after removing {[e.eid for e in dead]} of\n{src}')


def f_lazy(g):
    """The annotation is loaded on the first access, whatever the access is."""
    layout = g.choice(LAYOUTS)
    sents, sizes, docs = gen_text(g)
    if 'GRP' not in layout:
        docs = [0] * len(docs)
    ents = gen_layer(g, sizes, docs, layout)
    if g.bool(0.1):
        ents = []
    src = text_of(sents, serialise(g, ents, layout) if ents else None, layout if ents else None)
    how = g.draw(9)
    g.note(f'{how} {layout}\n{src}', overlapping(ents), key=(how, src))
    g.tag(how)
    ref = load(src)

    def namer(d):
        """With GRP, ids are prefixed by a document number which is unique in the process."""
        import re
        nums = sorted({int(m.group(1)) for e in d.eid_to_entity for m in [re.match(r'd(\d+)\.', e)] if m}) if 'GRP' in layout else []
        return lambda e: re.sub(r'^d(\d+)\.', lambda m: f'd{nums.index(int(m.group(1)))}.', e) if nums else e
    nref = namer(ref)
    pos = {id(n): (si, p) for d in [ref] for si, t in enumerate(d.trees) for p, n in enumerate(t.descendants_and_empty)}
    want = [(nref(m.entity.eid), [pos[id(w)] for w in m.words], pos[id(m.head)]) for e in ref.coref_entities for m in e.mentions]
    doc = load(src)
    pos2 = {id(n): (si, p) for si, t in enumerate(doc.trees) for p, n in enumerate(t.descendants_and_empty)}
    words = [n for t in doc.trees for n in t.descendants_and_empty]

    def desc(ms):
        nd = namer(doc)
        return [(nd(m.entity.eid), [pos2[id(w)] for w in m.words], pos2[id(m.head)]) for m in ms]
    eids = [nref(e.eid) for e in ref.coref_entities]
    if how == 0:
        eq(desc([m for e in doc.coref_entities for m in e.mentions]), want, 'doc.coref_entities')
    elif how == 1:
        ms = list(doc.coref_mentions)
        eq(sorted(desc(ms)), sorted(want), 'doc.coref_mentions')
        eq([m[1][0] for m in desc(ms)], sorted(m[1][0] for m in want), 'doc.coref_mentions are sorted')
    elif how == 2:
        items = list(doc.eid_to_entity.items())
        eq([(namer(doc)(k), desc(e.mentions)) for k, e in items], [(e, [w for w in want if w[0] == e]) for e in eids], 'doc.eid_to_entity')
    elif how == 3:
        keys = list(doc.coref_clusters)
        eq([namer(doc)(k) for k in keys], eids, 'doc.coref_clusters')
    elif how in (4, 5):
        w = g.choice(words)
        exp = [x for x in want if pos2[id(w)] in x[1]]
        if how == 4:
            eq(sorted(desc(w.coref_mentions)), sorted(exp), f'mentions of {w}')
        else:
            es = list(w.coref_entities)
            eq(sorted(namer(doc)(e.eid) for e in es), sorted(x[0] for x in exp), f'entities of {w}')
    elif how in (6, 7):     # a new entity gets an unused id
        if how == 6:
            new = [doc.create_coref_entity() for _ in range(g.choice([1, 1, 2, 11]))]
        else:
            w = g.choice(words)
            new = [w.create_coref_entity()]
            eq([(m.head is w, list(m.words)) for m in new[0].mentions], [(True, [w])], 'mention of the new entity')
        ids = [e.eid for e in new]
        check(all(x and 'd' not in x for x in ids), f'new ids {ids}')
        check(len(set(ids + eids)) == len(ids) + len(eids), f'new ids {ids}, used {eids}')
        eq([namer(doc)(e.eid) for e in doc.coref_entities], eids + ids, 'entities')
        eq(sorted(x for x in desc([m for e in doc.coref_entities if e not in new for m in e.mentions])), sorted(want), 'mentions of the other entities')
    else:
        if not eids or 'GRP' in layout:
            return
        try:
            doc.create_coref_entity(g.choice(eids))
        except ValueError:
            pass
        else:
            raise Violation('an entity with a used id was created')
        eq(sorted(desc(doc.coref_mentions)), sorted(want), 'mentions after a rejected creation')


def damage(g, text):
    """A few random edits of Entity= attributes."""
    for _ in range(g.weighted([(3, 1), (1, 2), (1, 3)])):
        lines = text.split('\n')
        idx = [i for i, l in enumerate(lines) if re.search(r'(?<![^\t|])Entity=[^|\n]', l)]
        if not idx:
            break

        def chunks(i):
            return [x for x in re.split(r'(\([^()]+\)?|[^()]+\))', re.search(r'(?<![^\t|])Entity=([^|\n]*)', lines[i]).group(1)) if x]
        i = g.choice(idx)
        ch = chunks(i)
        q = g.draw(len(ch))
        k = g.draw(7)
        if k == 0:
            del ch[q]
        elif k == 1:
            ch.insert(g.draw(len(ch) + 1), ch[q])
        elif k == 2:
            ch[q] = g.choice(chunks(g.choice(idx)))
        elif k == 3:
            ch = g.perm(ch)
        elif k == 4:
            ch[q] = g.choice([ch[q].lstrip('('), ch[q].rstrip(')'), ch[q].strip('()')])
        elif k == 5:
            ch[q] = re.sub(r'\d', g.choice('0123459'), ch[q], count=1)
        else:
            ch[q] = ch[q].replace('-', g.choice(['--', '', '-5-']), 1)
        lines[i] = re.sub(r'(?<![^\t|])Entity=[^|\n]*', lambda m: 'Entity=' + ''.join(ch) if ''.join(ch) else 'Entity=()', lines[i])
        text = '\n'.join(lines)
    return text


def f_damaged(g):
    """Wrong annotation is refused or read as it stands; never are mentions attached to other words or left half-deleted."""
    layout = g.choice([l for l in LAYOUTS if 'GRP' not in l])
    sents, sizes, docs = gen_text(g)
    ents = gen_layer(g, sizes, [0] * len(docs), layout)
    assume(ents)
    src = text_of(sents, serialise(g, ents, layout), layout)
    text = damage(g, src)
    strict = g.bool(0.6)
    # brackets which can never be right
    must, unclosed, ids = None, {}, layout.split('-')
    for si, s in enumerate(parse_conllu(text)):
        for r in s['rows']:
            if '-' in r[0]:
                continue
            for x in re.split(r'(\([^()]+\)?|[^()]+\))', dict(y.split('=', 1) for y in r[9].split('|') if '=' in y).get('Entity', '')):
                if x.startswith('(') and not x.endswith(')'):
                    i = dict(zip(ids, x[1:].split('-'))).get('eid', '')
                    unclosed.setdefault(re.sub(r'\[.*', '', i), []).append(si)
                elif x.endswith(')') and not x.startswith('('):
                    i = re.sub(r'\[.*', '', x[:-1])
                    if not unclosed.get(i):
                        must = must or f'{x} was not opened'
                    else:
                        o = unclosed[i].pop()
                        if o != si and strict:
                            must = must or f'{x} closes a mention opened in another sentence'
    msg = f'strict={strict}, layout {layout}\n{text}'
    g.note(msg, text != src)
    doc = load(text)
    try:
        run_block(Load(strict=strict), doc)
    except Exception:
        g.tag('refused')
        return
    g.tag('read')
    check(not must, lambda: f'{msg}\nwas loaded although {must}')
    got = []
    pos = {id(n): (si, p) for si, ns in enumerate(nodes_of(doc)) for p, n in enumerate(ns)}
    listed = {}
    for t in doc.trees:
        for w in t.descendants_and_empty:
            for m in w.coref_mentions:
                listed.setdefault(id(m), []).append(pos[id(w)])
    for e in doc.coref_entities:
        for m in e.mentions:
            check(m.entity is e, lambda: f'{msg}: entity of {m}')
            at = [pos[id(w)] for w in m.words]
            if f'({e.eid}[' in text:        # a part annotated twice is not judged
                at = sorted(set(at))
                if id(m) in listed:
                    listed[id(m)] = sorted(set(listed[id(m)]))
            eq(at, sorted(set(at)), f'{msg}: order of words of a mention of {e.eid}')
            eq(len({a for a, b in at}), 1, f'{msg}: sentences of a mention of {e.eid}')
            eq(sorted(listed.pop(id(m), [])), at, f'{msg}: words listing a mention of {e.eid} and its words')
            if strict:
                check(m.head in m.words, lambda: f'{msg}: head of {m} is outside of it')
            got.append((0, e.eid, at[0][0], tuple(b for a, b in at)))
    check(not listed, lambda: f'{msg}: words {listed} list mentions which belong to no entity')
    if strict and not any(unclosed.values()):
        try:
            m, b, s = parse_layer(parse_conllu(text), layout)
        except Violation:
            return
        eq(sorted(got), sorted(x[:4] for x in m), f'{msg}\nmentions')


FACETS = {
    'damaged': facet(f_damaged, 2500),
    'lazy': facet(f_lazy, 4000),
    'roundtrip': facet(f_roundtrip, 8000),
    'untouched': facet(f_untouched, 4000),
}

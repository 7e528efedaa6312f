"""Coreference layers: model, generator, independent serialiser and parser."""
import re

from vf.engine import check, eq, Violation, assume
from vf.gens import *

ETYPES = ['person', 'place', 'object', 'abstract', 'event']
LAYOUTS = ['eid-etype-head-other', 'eid-etype-head-minspan-link-identity-other', 'eid-etype-head', 'eid', 'etype-eid-head-other', 'eid-head-other', 'eid-etype-other',
           'GRP-etype-head-other', 'entity-GRP-head-infstat-other', 'GRP-etype-infstat-head-minspan', 'eid-other-head', 'eid-minspan-head-other-etype', 'head-eid-link', 'eid-head']
OTHER_NAMES = ['gstype', 'Aaa', 'nptype', 'x', 'salience']
OTHER_VALUES = ['gen', 'a_b', '1', 'x:y', 'č', 'a%2Cb', 'sal']
FIELD_VALUES = {'minspan': ['1', '1,2', '3'], 'link': ['coref', 'ana'], 'identity': ['Foo', 'A%2C_B'], 'infstat': ['new', 'giv:act']}


class M:
    """A mention: sentence index, sorted positions in words+empty nodes, head position."""
    __slots__ = ('ent', 'sent', 'pos', 'head', 'other', 'bridging', 'obj', 'newpos')

    def __init__(self, ent, sent, pos, head):
        self.ent, self.sent, self.pos, self.head = ent, sent, tuple(pos), head
        self.other, self.bridging, self.obj = {}, [], None

    def subspans(self):
        out = []
        for p in self.pos:
            if out and out[-1][1] == p - 1:
                out[-1][1] = p
            else:
                out.append([p, p])
        return out


class E:
    __slots__ = ('eid', 'etype', 'mentions', 'split', 'doc', 'obj')

    def __init__(self, eid, etype, doc=0):
        self.eid, self.etype, self.doc, self.mentions, self.split, self.obj = eid, etype, doc, [], [], None


def compatible(a, b):
    """May both be mentions of one entity (the format cannot express other combinations)?"""
    if a.sent != b.sent:
        return True
    if a.pos == b.pos:
        return False
    for x, y in ((a, b), (b, a)):
        lo, hi = y.pos[0], y.pos[-1]
        if hi < x.pos[0] or lo > x.pos[-1]:
            return True
        subs = x.subspans()
        for s in subs:
            if s[0] <= lo and hi <= s[1] and [lo, hi] != s:
                return True
        for s, t in zip(subs, subs[1:]):
            if s[1] < lo and hi < t[0]:
                return True
    return False


def gen_pos(g, n, disc=0.2):
    lo = g.draw(n)
    hi = lo + g.weighted([(4, 0), (3, 1), (3, 2), (2, 3), (1, n)])
    pos = list(range(lo, min(n - 1, hi) + 1))
    if len(pos) > 2 and g.bool(disc):
        pos = [pos[0]] + [p for p in pos[1:-1] if g.bool(0.5)] + [pos[-1]]
    return pos


def gen_layer(g, sizes, docs, layout, max_ent=5, disc=0.2, bridging=True):
    """sizes: words+empties of each sentence, docs: newdoc index of each sentence."""
    fields = layout.split('-')
    ents = []
    nent = g.int(1, max_ent) if max_ent < 5 or g.draw(24) < 23 else g.int(9, 13)
    grp = 'GRP' in fields
    has_type = 'etype' in fields or 'entity' in fields
    for k in range(nent):
        d = g.choice(sorted(set(docs))) if grp else 0
        eid = g.choice(['e', 'c', 'e1', 'X.']) + str(k + 1)
        if grp and g.bool(0.5):       # the same GRP may be used in several documents
            eid = f'e{g.int(1, 3)}'
        if any(e.eid == eid and e.doc == d for e in ents):
            continue
        e = E(eid, g.choice(ETYPES) if has_type and g.bool(0.8) else None, d)
        sents = [i for i, x in enumerate(docs) if not grp or x == d]
        for _ in range(g.weighted([(2, 1), (3, 2), (3, 3), (1, 5)])):
            s = g.choice(sents)
            if not sizes[s]:
                continue
            pos = gen_pos(g, sizes[s], disc)
            m = M(e, s, pos, pos[0])
            if all(compatible(m, x) for x in e.mentions):
                if 'head' in fields:
                    m.head = g.choice(pos)
                for f in fields:
                    if f in FIELD_VALUES and g.bool(0.5):
                        m.other[f] = g.choice(FIELD_VALUES[f])
                if 'other' in fields and g.bool(0.5):
                    for n in g.subset(OTHER_NAMES, 0.4):
                        m.other[n] = g.choice(OTHER_VALUES) if g.bool(0.85) else True
                e.mentions.append(m)
        if e.mentions:
            ents.append(e)
    sort_layer(ents)
    if bridging:
        for e in ents:
            others = [x for x in ents if x is not e and x.doc == e.doc]
            for m in e.mentions:
                if others and g.bool(0.25) and not any(x is not m and x.sent == m.sent and x.pos[0] == m.pos[0] for x in e.mentions):
                    for t in g.subset(others, 0.4, 1)[:3]:
                        m.bridging.append((t, g.choice(['part', 'subset', '', 'a:b'])))
            if len(others) >= 2 and g.bool(0.2):
                e.split = g.perm(others)[:g.int(2, 3)]
    return ents


def mkey(m):
    return (m.sent, m.pos[0], -len(m.pos), m.pos[-1], m.pos)


def sort_layer(ents):
    for e in ents:
        e.mentions.sort(key=mkey)
    ents.sort(key=lambda e: (mkey(e.mentions[0]), e.eid) if e.mentions else ((-1,), e.eid))


def fields_of(m, layout, idstr):
    vals = []
    named = [f for f in layout.split('-') if f not in ('eid', 'GRP', 'etype', 'entity', 'head', 'other')]
    for f in layout.split('-'):
        if f in ('eid', 'GRP'):
            vals.append(idstr)
        elif f in ('etype', 'entity'):
            vals.append(m.ent.etype or '')
        elif f == 'head':
            vals.append(str(m.pos.index(m.head) + 1))
        elif f == 'other':
            vals.append(','.join(k if v is True else f'{k}:{v}' for k, v in sorted(m.other.items(), key=lambda x: x[0].lower()) if k not in named))
        else:
            vals.append(m.other.get(f, ''))
    while vals[-1] == '':
        vals.pop()
    return '-'.join(vals)


def serialise(g, ents, layout):
    """{(sent, pos): {'Entity':..., 'Bridge':..., 'SplitAnte':...}} with a random but legal order of brackets."""
    out = {}
    cells = {}

    def cell(s, p):
        return cells.setdefault((s, p), dict(close=[], single=[], open=[]))
    for e in ents:
        for m in e.mentions:
            subs = m.subspans()
            for i, (lo, hi) in enumerate(subs, 1):
                idstr = e.eid + (f'[{i}/{len(subs)}]' if len(subs) > 1 else '')
                size = hi - lo + 1
                if lo == hi:
                    cell(m.sent, lo)['single'].append((e, f'({fields_of(m, layout, idstr)})'))
                else:
                    cell(m.sent, lo)['open'].append((e, size, f'({fields_of(m, layout, idstr)}'))
                    cell(m.sent, hi)['close'].append((e, size, f'{idstr})'))
            if m.bridging:
                d = out.setdefault((m.sent, m.pos[0]), {})
                d['Bridge'] = ','.join(([d['Bridge']] if 'Bridge' in d else []) +
                                       [f'{t.eid}<{e.eid}' + (f':{r}' if r else '') for t, r in m.bridging])
        if e.split:
            m = e.mentions[0]
            d = out.setdefault((m.sent, m.pos[0]), {})
            d['SplitAnte'] = ','.join(([d['SplitAnte']] if 'SplitAnte' in d else []) + [f'{t.eid}<{e.eid}' for t in e.split])
    for k, c in cells.items():
        def arrange(items, rev):
            items = g.perm(items)
            # brackets of one entity must be nested: sort each entity's items in place
            res = list(items)
            for e in {id(x[0]): x[0] for x in items}.values():
                idx = [i for i, x in enumerate(res) if x[0] is e]
                mine = sorted((res[i] for i in idx), key=lambda x: x[1], reverse=rev)
                for i, x in zip(idx, mine):
                    res[i] = x
            return [x[-1] for x in res]
        close, op = arrange(c['close'], False), arrange(c['open'], True)
        # a part of a discontinuous mention stays inside the brackets of the same entity around it
        first, last, rest_ = [], [], []
        for e, x in g.perm(c['single']):
            (last if any(o[0] is e for o in c['open']) else first if any(o[0] is e for o in c['close']) else rest_).append(x)
        where = g.draw(3)
        s = first + (rest_ + close + op if where == 0 else close + rest_ + op if where == 1 else close + op + rest_) + last
        out.setdefault(k, {})['Entity'] = ''.join(s)
    return out


RE_CHUNK = re.compile(r'\(([^()]+)\)|\(([^()]+)|([^()]+)\)')


def parse_layer(sents, layout):
    """Independent reader of saved Entity/Bridge/SplitAnte: sents = list of lists of (cols) rows (words and empty nodes in order), newdoc flags.

    Returns a list of comparable mentions (doc, eid, sent, positions, fields) and links."""
    mentions, bridges, splits = [], [], []
    docid = -1
    fields = layout.split('-')
    grp = 'GRP' in fields
    open_disc = {}
    for si, s in enumerate(sents):
        rows = [r for r in s['rows'] if '-' not in r[0]]
        if any(re.match(r'# newdoc\b', c) for c in s['comments']) or docid < 0:
            docid += 1
        d = docid if grp else 0
        stack = {}
        for p, r in enumerate(rows):
            misc = dict(x.split('=', 1) for x in r[9].split('|') if '=' in x)
            ent = misc.get('Entity', '')
            consumed = 0
            seen_open = False
            for mt in RE_CHUNK.finditer(ent):
                if mt.start() != consumed:
                    raise Violation(f'unreadable Entity={ent}')
                consumed = mt.end()
                single, op, cl = mt.groups()
                if cl is not None:
                    check(not seen_open, f'closing bracket after an opening bracket in Entity={ent}')
                    if not stack.get(cl):
                        raise Violation(f'closing {cl} without an opening bracket in sentence {si}')
                    st = stack[cl].pop()
                    finish(mentions, open_disc, d, si, cl, st[0], p, st[1], fields)
                else:
                    vals = (single or op).split('-')
                    if len(vals) > len(fields):
                        raise Violation(f'too many fields in Entity={ent} for {layout}')
                    vals = dict(zip(fields, vals + [''] * len(fields)))
                    i = vals.get('eid') or vals.get('GRP')
                    if single is not None:
                        finish(mentions, open_disc, d, si, i, p, p, vals, fields)
                    else:
                        seen_open = True
                        stack.setdefault(i, []).append((p, vals))
            check(consumed == len(ent), f'unreadable Entity={ent}')
            for x in (misc['Bridge'].split(',') if 'Bridge' in misc else []):
                t, src = x.split('<')
                src, _, rel = src.partition(':')
                bridges.append((d, si, p, src, t, rel))
            for x in (misc['SplitAnte'].split(',') if 'SplitAnte' in misc else []):
                t, src = x.split('<')
                splits.append((d, si, p, src, t))
        check(not any(stack.values()), f'unclosed mentions {stack} in sentence {si}')
        check(not any(open_disc.values()), f'unfinished discontinuous mentions {open_disc} in sentence {si}')
    return mentions, bridges, splits


def finish(mentions, open_disc, d, si, idstr, lo, hi, vals, fields):
    m = re.fullmatch(r'([^\[]+)\[(\d+)/(\d+)\]', idstr)
    if not m:
        mentions.append((d, idstr, si, tuple(range(lo, hi + 1)), extra(vals, fields)))
        return
    eid, i, n = m.group(1), int(m.group(2)), int(m.group(3))
    key = (d, eid)
    lst = open_disc.setdefault(key, [])
    if i == 1:
        lst.append([n, 1, list(range(lo, hi + 1)), vals])
    else:       # innermost unfinished
        for x in reversed(lst):
            if x[0] == n and x[1] == i - 1 and x[2][-1] < lo:
                break
        else:
            raise Violation(f'subspan {idstr} does not continue any mention')
        check(extra(x[3], fields) == extra(vals, fields), f'subspans of {eid} differ: {x[3]} {vals}')
        x[1] = i
        x[2] += range(lo, hi + 1)
        if i == n:
            lst.remove(x)
            mentions.append((d, eid, si, tuple(x[2]), extra(vals, fields)))


def extra(vals, fields):
    named = {}
    other = {}
    for f in fields:
        if f == 'other':
            for x in (vals[f].split(',') if vals[f] else []):
                k, sep, v = x.partition(':')
                other[k] = v if sep else True
        elif f not in ('eid', 'GRP'):
            if vals[f] != '':
                named[f] = vals[f]
    return tuple(sorted(named.items())), tuple(sorted((k, str(v)) for k, v in other.items()))


def model_saved(ents, layout, docs):
    """What parse_layer must return for the model."""
    fields = layout.split('-')
    named = [f for f in fields if f not in ('eid', 'GRP', 'etype', 'entity', 'head', 'other')]
    mentions, bridges, splits = [], [], []
    for e in ents:
        for m in e.mentions:
            n, o = {}, {}
            for f in fields:
                if f in ('etype', 'entity') and e.etype:
                    n[f] = e.etype
                if f == 'head':
                    n[f] = str(m.pos.index(m.head) + 1)
                if f in named and m.other.get(f):
                    n[f] = m.other[f]
            for k, v in m.other.items():
                if k not in named:
                    o[k] = v
            mentions.append((e.doc, e.eid, m.sent, m.pos, (tuple(sorted(n.items())), tuple(sorted((k, str(v)) for k, v in o.items())))))
            for t, r in m.bridging:
                bridges.append((e.doc, m.sent, m.pos[0], e.eid, t.eid, r))
        for t in e.split:
            m = e.mentions[0]
            splits.append((e.doc, m.sent, m.pos[0], e.eid, t.eid))
    return mentions, bridges, splits


def gen_text(g, docs_p=0.2, nmax=6, empties=0.4, nsent=None, many_empties=0.05):
    """Sentences for a coreference document: (specs, sizes, docs)."""
    n = nsent or (g.int(1, 4) if g.draw(24) < 23 else g.int(9, 13))
    sents, docs, d = [], [], -1
    for i in range(n):
        s = gen_sentence(g, nmax=nmax, odd=0.05, mwt=0.1, empties=empties, deps=0)
        if g.bool(many_empties):        # x.10 and later
            major = g.draw(len(s['words']) + 1)
            k = g.int(10, 12)
            s['empties'] = sorted([e for e in s['empties'] if e[0] != major] + [(major, j, Word(form=f'E{j}', lemma='_', upos='_', xpos='_', feats='_', head=None, deprel='_', deps='_', misc='_'))
                                  for j in range(1, k + 1)], key=lambda e: (e[0], e[1]))
        for w in s['words'] + [e[2] for e in s['empties']]:
            w['misc'] = '|'.join(x for x in w['misc'].split('|') if x.split('=')[0] not in ('Entity', 'Bridge', 'SplitAnte')) or '_'
        nd = None
        if i == 0 or g.bool(docs_p):
            d += 1
            nd = f'doc{d}' if g.bool(0.7) else True
        s['newdoc'] = nd
        sents.append(s)
        docs.append(d)
    sizes = [len(s['words']) + len(s['empties']) for s in sents]
    return sents, sizes, docs


def slots(s):
    """Words and empty nodes of a spec in order."""
    out = [e for a, _, e in s['empties'] if a == 0]
    for i, w in enumerate(s['words'], 1):
        out.append(w)
        out += [e for a, _, e in s['empties'] if a == i]
    return out


def text_of(sents, annot=None, layout=None, first_newdoc=True):
    import copy
    out = ''
    for si, s in enumerate(sents):
        s2 = copy.deepcopy(s)
        for p, w in enumerate(slots(s2)):
            a = (annot or {}).get((si, p))
            if a:
                items = [x for x in w['misc'].split('|') if x != '_'] + [f'{k}={v}' for k, v in a.items()]
                w['misc'] = '|'.join(sorted(items, key=lambda x: x.split('=')[0].lower()))
        c = []
        if s['newdoc'] and (first_newdoc or si):
            c.append('# newdoc' + (f' id = {s["newdoc"]}' if s['newdoc'] is not True else ''))
        if layout and (c or si == 0):
            c.append(f'# global.Entity = {layout}')
        c.append(f'# sent_id = s{si + 1}')
        s2['comments'] = c
        out += ser_sentence(s2)
    return out


def nodes_of(doc):
    return [list(t.descendants_and_empty) for t in doc.trees]


def read_objects(doc, layout):
    """The coreference objects of a document as comparable data."""
    import re
    grp = 'GRP' in layout.split('-')
    pos = {}
    docidx = {}
    d = -1
    for si, t in enumerate(doc.trees):
        if t.newdoc or d < 0:
            d += 1
        docidx[si] = d if grp else 0
        for p, n in enumerate(t.descendants_and_empty):
            pos[id(n)] = (si, p)

    def name(e):
        if not grp:
            return (0, e.eid)
        i = docidx[pos[id(e.mentions[0].head)][0]]
        return (i, re.sub(r'^d\d+\.', '', e.eid))
    ents = {}
    for e in doc.coref_entities:
        ms = []
        for m in e.mentions:
            check(m.entity is e, 'mention.entity')
            sp = {pos[id(w)][0] for w in m.words}
            check(len(sp) == 1, 'mention words in several sentences')
            ps = tuple(pos[id(w)][1] for w in m.words)
            check(ps == tuple(sorted(ps)) and len(set(ps)) == len(ps), f'mention words {ps}')
            for w in m.words:
                check(sum(1 for x in w.coref_mentions if x is m) == 1, f'word does not list its mention {m}')
            ms.append((sp.pop(), ps, pos[id(m.head)][1], tuple(sorted((k, str(v)) for k, v in m.other.items())),
                       tuple(sorted((name(l.target), l.relation) for l in m.bridging))))
        check(name(e) not in ents, f'duplicate entity {e.eid}')
        ents[name(e)] = (e.etype or None, ms, [name(x) for x in e.split_ante])
    total = sum(len(w.coref_mentions) for t in doc.trees for w in t.descendants_and_empty)
    eq(total, sum(len(m[1]) for e in ents.values() for m in e[1]), 'number of mentions listed by words')
    return ents


def model_objects(ents):
    out = {}
    for e in ents:
        # commas in values are held escaped
        out[(e.doc, e.eid)] = (e.etype, [(m.sent, m.pos, m.head, tuple(sorted((k, str(v).replace(',', '%2C')) for k, v in m.other.items())),
                                         tuple(sorted(((t.doc, t.eid), r) for t, r in m.bridging))) for m in e.mentions],
                               [(t.doc, t.eid) for t in e.split])
    return out


def build_api(g, doc, ents):
    """Create the layer through the API."""
    nodes = nodes_of(doc)
    order = g.perm(ents)
    for e in order:
        e.obj = doc.create_coref_entity(e.eid, e.etype)
    todo = g.perm([m for e in ents for m in e.mentions])
    for m in todo:
        ws = [nodes[m.sent][p] for p in m.pos]
        h = nodes[m.sent][m.head]
        k = g.draw(4)
        if k == 0:
            m.obj = m.ent.obj.create_mention(head=h, words=g.perm(ws))
        elif k == 1:
            from udapi.core.coref import nodes_to_span
            m.obj = m.ent.obj.create_mention(head=h, span=nodes_to_span(ws))
        elif k == 2:
            m.obj = m.ent.obj.create_mention(words=ws)
            m.obj.head = h
        else:
            m.obj = m.ent.obj.create_mention(head=h)
            m.obj.words = ws
        for n, v in m.other.items():
            m.obj.other[n] = v
    for e in order:
        for m in e.mentions:
            for t, r in g.perm(m.bridging):
                m.obj.bridging.append((t.obj, r))
        e.obj.split_ante = [t.obj for t in e.split]


def overlapping(ents):
    ms = [m for e in ents for m in e.mentions]
    return any(a is not b and a.sent == b.sent and set(a.pos) & set(b.pos) for a in ms for b in ms) or any(len(m.subspans()) > 1 for m in ms) \
        or any(m.bridging for m in ms) or any(e.split for e in ents)


def verify_order(sents, layout, msg):
    """Rules 1-4 of the documentation of udapi.core.coref: the order of the brackets of one word."""
    field = [f in ('eid', 'GRP') for f in layout.split('-')].index(True)
    for s in sents:
        rows = [r for r in s['rows'] if '-' not in r[0]]
        opened, length, words = {}, {}, []
        for pos, r in enumerate(rows):
            value = next((x[7:] for x in r[9].split('|') if x.startswith('Entity=')), '')
            chunks = re.findall(r'\([^()]+\)?|[^()]+\)', value)
            words.append(chunks)
            for i, c in enumerate(chunks):
                if c[0] == '(' and c[-1] == ')':
                    continue
                if c[0] == '(':
                    opened.setdefault(c[1:].split('-')[field], []).append((pos, i))
                else:
                    start = opened[c[:-1]].pop()
                    length[start] = length[(pos, i)] = pos - start[0]
        for pos, chunks in enumerate(words):
            kind = ['S' if c[0] == '(' and c[-1] == ')' else 'O' if c[0] == '(' else 'C' for c in chunks]
            good = re.fullmatch('C*O+S*' if 'O' in kind else 'S*C*', ''.join(kind))
            check(good, f'{msg}: brackets of word {rows[pos][0]} are not in the documented order: {"".join(chunks)}')
            for k in 'OC':
                lens = [length.get((pos, i), 0) for i in range(len(chunks)) if kind[i] == k]
                check(lens == sorted(lens, reverse=k == 'O'), f'{msg}: word {rows[pos][0]}: {"".join(chunks)}: a shorter mention must be opened later and closed earlier')


def verify_saved(text, ents, layout, docs, msg):
    sents = parse_conllu(text)
    validate_conllu(sents)
    verify_order(sents, layout, msg)
    m, b, s = parse_layer(sents, layout)
    em, eb, es = model_saved(ents, layout, docs)
    eq(sorted(m), sorted(em), f'{msg}\nsaved mentions in\n{text}')
    eq(sorted(b), sorted(eb), f'{msg}\nsaved bridging in\n{text}')
    eq(sorted(s), sorted(es), f'{msg}\nsaved split antecedents in\n{text}')
    check(sum(1 for x in sents for c in x['comments'] if c == f'# global.Entity = {layout}') >= 1 or not ents, f'{msg}: no global.Entity header in\n{text}')


def rest(text):
    """Everything but the coreference annotation: the columns of every line."""
    return [[r[:9] + [sorted(x for x in r[9].split('|') if x.split('=')[0] not in ('Entity', 'Bridge', 'SplitAnte', '_'))] for r in s['rows']] for s in parse_conllu(text)]

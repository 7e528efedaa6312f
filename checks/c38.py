"""C38: periphrastic verb forms and the case of phrases are detected as documented (msf.*)."""
import json
import os
from vf.engine import check, eq, Violation, assume
from vf.gens import *
from vf.util import facet
from checks.c36 import W, S, gen, docs, judge
from udapi.block.msf.init import Init
from udapi.block.msf.case import Case
from udapi.block.msf.createabstract import CreateAbstract
from udapi.block.msf.numphrase import NumPhrase
from udapi.block.msf.removefunc import RemoveFunc
from udapi.block.msf.slavic.conditional import Conditional
from udapi.block.msf.slavic.converb import Converb
from udapi.block.msf.slavic.future import Future
from udapi.block.msf.slavic.imperative import Imperative
from udapi.block.msf.slavic.infinitive import Infinitive
from udapi.block.msf.slavic.past import Past
from udapi.block.msf.slavic.present import Present
from udapi.block.msf.slavic.preprocessor import Preprocessor

RULE = ('1-2 documents of 1-3 sentences (1-9, sometimes more words, any tree shape) of verbs, participles, copulas, auxiliaries, reflexives, negative particles, prepositions, subjects and counted nouns with random features, run through one '
        'block or the whole pipeline and compared, row by row of the written CoNLL-U, with an independent model; non-trivial = something changes and there are at least 3 words; distinct by block and documents')
ASSUMPTIONS = ['every word has a form, a tag and a relation; a relation root belongs to a child of the root',
               'the meaning of the prepositions and conjunctions (msf.Case) is compared with a copy of the table (vf/msf_cases.json)']
CASES = json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'vf', 'msf_cases.json')))
PAST = ('Past', 'Imp', 'Pqp')
FUTURE_PARTICLES = ('ќе', 'ще')


# ---------------------------------------------------------------- words
def some(g, table, p):
    return {k: g.choice(vs) for k, vs in table.items() if g.bool(p)}


AGREEMENT = {'Person': '1230', 'Number': ['Sing', 'Plur'], 'Gender': ['Masc', 'Fem', 'Fem,Neut', 'Fem,Masc'], 'Animacy': ['Anim', 'Inan']}
VERBAL = {'VerbForm': ['Fin', 'Fin', 'Part', 'Part', 'PartRes', 'Inf', 'Conv', 'Sup'], 'Tense': ['Pres', 'Pres', 'Past', 'Fut', 'Imp', 'Pqp'], 'Mood': ['Ind', 'Imp', 'Cnd', 'Sub'], 'Voice': ['Act', 'Pass'],
          'Aspect': ['Imp', 'Perf']}


FOCUS = {'Infinitive': dict(VerbForm=['Inf', 'Inf', 'Sup']), 'Converb': dict(VerbForm=['Conv']), 'Imperative': dict(Mood=['Imp'], VerbForm=['Fin']), 'Conditional': dict(VerbForm=['Part', 'Fin', 'PartRes']),
         'Present': dict(Tense=['Pres'], VerbForm=['Fin']), 'Future': dict(Tense=['Fut', 'Pres']), 'Past': dict(VerbForm=['Part', 'Part', 'Fin'], Tense=['Past', 'Imp', 'Pqp'])}


def word_maker(g, name=None):
    focus = g.choice([None, None, 'Fin', 'Part', 'Inf', 'Conv'])
    tense = g.choice([None, None, 'Pres', 'Past', 'Fut'])
    mood = g.choice([None, None, None, 'Imp', 'Cnd', 'Ind'])
    boost = [g.choice(['refl', 'neg', 'prep', 'subj', 'aux', 'cop', 'aux']) for _ in range(g.choice([0, 2, 3]))]
    kinds = [(w + 20 * (k in boost), k) for w, k in [(4, 'verb'), (3, 'adj'), (1, 'noun'), (4, 'aux'), (3, 'cop'), (2, 'refl'), (2, 'neg'), (1, 'prep'), (1, 'subj'), (1, 'cnd')]]

    def verbal(f, p):
        f.update(some(g, AGREEMENT, 0.3))
        if g.bool(0.9):
            f['Person'] = f.get('Person', '3') if g.bool(0.9) else '0'
        f.update(some(g, VERBAL, p))
        for k, v in (('VerbForm', focus), ('Tense', tense), ('Mood', mood)):
            if v and g.bool(0.7):
                f[k] = v
        if g.bool(0.5):
            f.update({k: g.choice(vs) for k, vs in FOCUS.get(name, {}).items()})
        if g.bool(0.15):
            f['Polarity'] = g.choice(['Neg', 'Pos'])
        if g.bool(0.1):
            f['Reflex'] = g.choice(['Yes', 'No'])
        return f

    def word(i, h):
        m = some(g, {'PhraseTense': ['x'], 'PhrasePolarity': ['Neg'], 'PhraseReflex': ['Yes'], 'PhrasePerson': '1', 'X': '1', 'Phrase': ['9']}, 0.04)
        rel = g.choice(['conj', 'ccomp', 'advcl', 'acl', 'xcomp', 'parataxis'])
        kind = g.weighted(kinds) if h else g.choice(['verb', 'adj', 'noun', 'verb', 'adj'])
        if kind == 'verb':
            f = verbal({}, 0.5)
            if g.bool(0.08):
                f['Case'] = 'Nom'
            return dict(upos='VERB', feats=f, deprel=rel, misc=m)
        if kind == 'adj':
            f = verbal({}, 0.3)
            if g.bool(0.6):
                f['Voice'] = 'Pass'
            return dict(upos='ADJ', feats=f, deprel=g.choice([rel, 'amod']), misc=m)
        if kind == 'noun':
            return dict(upos='NOUN', feats=some(g, dict(AGREEMENT, Case=['Nom', 'Gen'], Polarity=['Neg'], Tense=['Pres']), 0.3), deprel=g.choice([rel, 'obl']), misc=m)
        if kind in ('aux', 'cop'):
            return dict(upos=g.weighted([(8, 'AUX'), (1, 'VERB'), (1, 'PART')]), lemma=g.weighted([(8, 'byt'), (1, 'hteti'), (1, 'htjeti'), (1, 'ќе'), (1, 'ще')]), feats=verbal({}, 0.4),
                        deprel=g.choice(['aux', 'aux', 'aux:pass', 'aux:cnd']) if kind == 'aux' else g.weighted([(5, 'cop'), (1, 'cop:x')]), misc=m)
        if kind == 'refl':
            return dict(upos='PRON', lemma=g.choice(['se', 'ми']), feats=some(g, {'Reflex': ['Yes'], 'PronType': ['Prs', 'Rel']}, 0.75), deprel=g.choice(['expl:pass', 'expl:pv', 'expl', 'expl:impers', 'obj']), misc=m)
        if kind == 'neg':
            return dict(upos=g.weighted([(5, 'PART'), (1, 'ADV')]), feats=some(g, {'Polarity': ['Neg', 'Neg', 'Neg', 'Pos']}, 0.9), deprel='advmod', misc=m)
        if kind == 'prep':
            return dict(upos='ADP', feats=some(g, {'Polarity': ['Neg']}, 0.1), deprel='case', misc=m)
        if kind == 'subj':
            return dict(upos='PRON', feats=some(g, dict(AGREEMENT, Case=['Nom']), 0.6), deprel=g.choice(['nsubj', 'nsubj', 'nsubj:pass', 'csubj']), misc=m)
        return dict(upos='SCONJ', feats=some(g, {'Mood': ['Cnd', 'Sub', 'Ind'], 'Person': '12'}, 0.8), deprel=g.choice(['mark', 'aux:cnd', 'conj', 'cc']), misc=m)
    return word


# ---------------------------------------------------------------- model of the verb forms
class View:
    """A word with the helpers among its children."""

    def __init__(self, s, w):
        self.s, self.w, self.kids = s, w, s.kids(w)
        self.refl = [c for c in self.kids if c.u == 'expl' and c.feats.get('Reflex') == 'Yes']
        self.neg = [c for c in self.kids if c.upos == 'PART' and c.feats.get('Polarity') == 'Neg']
        self.prep = [c for c in self.kids if c.upos == 'ADP']
        self.aux = [c for c in self.kids if c.u == 'aux']
        self.cop = [c for c in self.kids if c.u == 'cop']
        self.cond = [c for c in self.kids if c.feats.get('Mood') == 'Cnd' or c.deprel == 'aux:cnd']

    def f(self, key):
        return self.w.feats.get(key, '')

    def write(self, members, source=None, polarity=None, reflex=True, agree='', **values):
        """values: explicit values; agree: features copied from the source; polarity: the word which may carry it."""
        w = self.w
        source = source or w
        pos = {id(x): i for i, x in enumerate(self.s.words, 1)}
        out = {}
        names = {'P': 'Person', 'N': 'Number', 'G': 'Gender', 'A': 'Animacy', 'T': 'Tense', 'S': 'Aspect', 'M': 'Mood'}
        for a in agree:
            out[names[a]] = source.feats.get(names[a], '')
        pol = (polarity or w).feats.get('Polarity', '') or ('Neg' if self.neg else None)
        out.update(values)
        if pol is not None:
            out['Polarity'] = pol
        if reflex:
            out['Reflex'] = 'Yes' if self.refl else self.f('Reflex')
        for k, v in out.items():
            w.put('Phrase' + k, v, 'misc')
        w.misc['Phrase'] = str(sorted(pos[id(x)] for group in ([w],) + tuple(members) for x in group))

    def voice(self, source=None):
        return 'Pass' if self.refl and self.refl[0].deprel == 'expl:pass' else (source or self.w).feats.get('Voice', '')


def imperative(v):
    if v.f('Mood') == 'Imp' and v.w.upos == 'VERB':
        v.write([v.refl, v.neg], agree='PNS', Mood='Imp', Form='Fin', Voice='Act')
        return
    aux = [c for c in v.aux if c.feats.get('Mood') == 'Imp']
    if v.w.upos == 'ADJ' and v.f('Voice') == 'Pass' and aux:
        v.write([aux, v.neg], aux[0], reflex=False, agree='PN', Mood='Imp', Form='Fin', Voice='Pass', Aspect=v.f('Aspect'), Gender=v.f('Gender'), Animacy=v.f('Animacy'))
        return
    cop = [c for c in v.cop if c.feats.get('Mood') == 'Imp']
    if cop:
        v.write([cop, v.prep, v.neg, v.refl], cop[0], agree='PN', Mood='Imp', Form='Fin', Voice=v.voice(cop[0]))


def conditional(v):
    helpers = [c for c in v.kids if c.u == 'aux' or c.feats.get('Mood') == 'Cnd']
    if not v.cond:
        return
    if v.f('VerbForm') in ('Part', 'PartRes', 'Fin') and not v.cop:
        v.write([helpers, v.refl, v.neg], agree='NSGA', Mood='Cnd', Form='Fin', Person=v.cond[0].feats.get('Person', '3'), Voice=v.voice())
        return
    cop = [c for c in v.cop if c.feats.get('VerbForm') in ('Part', 'Fin')]
    if cop:
        v.write([[c for c in helpers if c.u != 'cop'], cop, v.neg, v.prep, v.refl], cop[0], polarity=cop[0], agree='SPNGA', Mood='Cnd', Form='Fin', Voice=v.voice(cop[0]))


def converb(v):
    if v.f('VerbForm') == 'Conv' and v.w.upos == 'VERB':
        v.write([v.refl, v.neg], agree='PNTSGA', Form='Conv', Voice=v.voice())
    elif v.w.upos == 'ADJ':
        aux = [c for c in v.aux if c.feats.get('VerbForm') == 'Conv']
        if aux:
            v.write([aux, v.neg], aux[0], polarity=aux[0], reflex=False, agree='PNTGA', Aspect=v.f('Aspect'), Form='Conv', Voice='Pass')
    else:
        cop = [c for c in v.cop if c.feats.get('VerbForm') == 'Conv']
        if cop:
            v.write([cop, v.prep, v.neg, v.refl], cop[0], reflex=False, agree='PNTGA', Form='Conv', Voice=v.voice(cop[0]))


def infinitive(v):
    if v.f('VerbForm') == 'Inf' and v.w.upos == 'VERB' and not v.aux:
        v.write([v.refl, v.neg], agree='S', Form='Inf', Voice='Pass' if v.refl and v.refl[0].deprel == 'expl:pass' else 'Act')
        return
    inf = [c for c in v.aux if c.feats.get('VerbForm') == 'Inf']
    if v.w.upos == 'ADJ' and v.f('Voice') == 'Pass' and inf and len(inf) == len(v.aux):
        v.write([inf, v.neg, v.refl], polarity=inf[0], agree='SGAN', Form='Inf', Voice='Pass')
        return
    cop = [c for c in v.cop if c.feats.get('VerbForm') == 'Inf']
    if cop and not v.aux:
        v.write([cop, v.prep, v.neg, v.refl], polarity=cop[0], Form='Inf', Voice=v.voice(cop[0]))
    if v.f('VerbForm') == 'Sup':
        v.write([v.refl, v.neg], agree='S', Form='Sup', Voice='Act')


def present(v):
    if v.f('Tense') == 'Pres' and v.w.upos == 'VERB' and v.f('VerbForm') == 'Fin' and not any(c.upos == 'AUX' and (c.lemma in FUTURE_PARTICLES or c.feats.get('Mood') == 'Cnd') for c in v.kids):
        v.write([v.refl, v.neg], agree='PNS', Tense='Pres', Mood='Ind', Form='Fin', Voice=v.voice())
        return
    if v.w.upos == 'ADJ' and v.f('Voice') == 'Pass':
        aux = [c for c in v.aux if c.feats.get('Tense') == 'Pres' and c.lemma not in ('hteti', 'htjeti')]
        if aux and all(c.feats.get('Tense') == 'Pres' for c in v.aux):
            v.write([aux, v.neg], aux[0], polarity=aux[0], reflex=False, agree='PN', Tense='Pres', Mood='Ind', Form='Fin', Voice='Pass', Aspect=v.f('Aspect'), Gender=v.f('Gender'), Animacy=v.f('Animacy'))
            return
    cop = [c for c in v.cop if c.feats.get('Tense') == 'Pres']
    if cop and all(c.feats.get('Tense') == 'Pres' for c in v.kids if c.upos == 'AUX'):
        aux = [c for c in v.aux if c.feats.get('Mood') == 'Ind' and c.feats.get('Tense') == 'Pres']
        v.write([cop, aux, v.prep, v.neg, v.refl], cop[0], polarity=cop[0], agree='PN', Tense='Pres', Mood='Ind', Form='Fin', Aspect=v.f('Aspect'), Voice=v.voice(cop[0]))


def future(v):
    south = [c for c in v.aux if c.feats.get('Tense') == 'Pres' and c.lemma in ('hteti', 'htjeti')]
    if v.w.upos != 'AUX' and south:
        cop = [c for c in v.cop if c.deprel == 'cop']
        v.write([v.refl, v.neg, v.aux, cop] + ([v.prep] if cop else []), south[0], agree='PN', Tense='Fut', Mood='Ind', Form='Fin', Voice=v.f('Voice'), Aspect=v.f('Aspect'), Gender=v.f('Gender'), Animacy=v.f('Animacy'))
        return
    particles = [c for c in v.kids if c.lemma in FUTURE_PARTICLES]
    if v.f('Tense') == 'Pres' and particles:
        v.write([v.refl, v.neg, particles], agree='PNS', Tense='Fut', Mood='Ind', Form='Fin', Voice=v.f('Voice'))
        return
    if v.w.upos in ('VERB', 'ADJ'):
        aux = [c for c in v.aux if c.feats.get('Tense') == 'Fut']
        if aux:
            v.write([aux, v.refl, v.neg], aux[0], polarity=aux[0], agree='PN', Tense='Fut', Mood='Ind', Form='Fin', Voice=v.voice(), Aspect=v.f('Aspect'), Gender=v.f('Gender'), Animacy=v.f('Animacy'))
            return
        if v.f('Tense') == 'Fut':
            v.write([v.refl, v.neg], agree='PNS', Tense='Fut', Mood='Ind', Form='Fin', Voice=v.voice())
            return
    cop = [c for c in v.cop if c.feats.get('Tense') == 'Fut']
    if cop:
        v.write([cop, [c for c in v.aux if c.feats.get('Mood') == 'Ind'], v.prep, v.neg, v.refl], cop[0], polarity=cop[0], reflex=False, agree='PN', Tense='Fut', Mood='Ind', Form='Fin', Voice=v.voice(cop[0]))


def past(v):
    cop = [c for c in v.cop if c.feats.get('Tense') in PAST]
    now = [c for c in v.aux if c.feats.get('Tense') == 'Pres']
    then = [c for c in v.aux if c.feats.get('Tense') in PAST]
    upos, tense = v.w.upos, v.f('Tense')
    if v.f('Person') == '0':
        v.write([v.refl, v.neg], agree='TPNMSGA', Voice='Pass', Form=v.f('VerbForm'))
    if v.f('VerbForm') in ('Part', 'PartRes') and upos == 'VERB' and v.f('Voice') != 'Pass':
        if not any(c.u != 'conj' for c in v.cond):
            who = then or now
            v.write([now, v.refl, v.neg, then], agree='NSGA', Tense=tense if tense in ('Imp', 'Pqp') else 'Past', Person=who[0].feats.get('Person', '') if who else '3', Mood='Ind', Form='Fin', Voice=v.voice())
    elif tense in PAST and upos == 'VERB' and v.f('VerbForm') != 'Conv':
        if not v.aux:
            v.write([v.refl, v.neg], agree='TPNSGA', Mood='Ind', Form=v.f('VerbForm'), Voice=v.voice())
    elif upos == 'ADJ' and v.f('Voice') == 'Pass' and not cop:
        if not v.cond and then:
            person = now[0].feats.get('Person', '') if now else '3'
            subj = [c for c in v.kids if c.u == 'nsubj']
            if subj and subj[0].feats.get('Person'):
                person = subj[0].feats['Person']
            v.write([then, now, v.neg], then[0], polarity=then[0], reflex=False, agree='TN', Person=person, Mood='Ind', Form='Fin', Voice='Pass', Aspect=v.f('Aspect'), Gender=v.f('Gender'), Animacy=v.f('Animacy'))
    elif cop and not v.cond:
        person = '' if cop[0].feats.get('VerbForm') == 'Fin' else now[0].feats.get('Person', '') if now else '3'
        v.write([now, cop, v.prep, v.neg, v.refl], cop[0], polarity=cop[0], agree='STNGA', Person=person, Mood='Ind', Form='Fin', Voice=v.voice(cop[0]))


def preprocess(v):
    w = v.w
    if (w.upos == 'VERB' or w.upos == 'AUX' and v.f('VerbForm') == 'Fin') and not v.f('Voice'):
        w.feats['Voice'] = 'Act'
    if w.upos == 'VERB' and v.f('Case'):
        w.upos = 'ADJ'
    if w.deprel == 'aux:cnd':
        w.feats['Mood'] = 'Cnd'
    if v.f('Polarity') == 'Pos':
        del w.feats['Polarity']
    if v.f('Tense') == 'Pres':
        p = [c for c in v.kids if c.lemma in FUTURE_PARTICLES]
        if len(p) == 1:
            p[0].feats['Tense'] = 'Fut'
    if v.f('Gender') in ('Fem,Neut', 'Fem,Masc'):
        subj = [c for c in v.kids if c.u == 'nsubj']
        if len(subj) == 1 and not any(c.deprel == 'conj' for c in v.s.kids(subj[0])):
            for k in ('Gender', 'Number'):
                w.put(k, subj[0].feats.get(k, ''))
    if w.upos == 'VERB' and v.f('Voice') == 'Pass':
        w.upos = 'ADJ'
    if w.deprel in ('expl:pv', 'expl:pass', 'expl:impers'):
        w.feats['Reflex'] = 'Yes'
    if w.deprel == 'expl:pv' and w.lemma == 'ми' and v.f('PronType') == 'Prs':
        w.deprel = 'iobj'
    if v.f('Mood') == 'Sub':
        w.feats['Mood'] = 'Cnd'


VERB_BLOCKS = {'Preprocessor': (Preprocessor, preprocess), 'Imperative': (Imperative, imperative), 'Conditional': (Conditional, conditional), 'Converb': (Converb, converb), 'Infinitive': (Infinitive, infinitive),
               'Present': (Present, present), 'Future': (Future, future), 'Past': (Past, past)}


def apply(s, function):
    for w in list(s.words):
        function(View(s, w))


def f_verbs(g):
    name = g.weighted([(1, 'Preprocessor'), (1, 'Imperative'), (2, 'Conditional'), (1, 'Converb'), (2, 'Infinitive'), (2, 'Present'), (2, 'Future'), (3, 'Past')])
    cls, function = VERB_BLOCKS[name]
    judge(g, cls(), docs(g, lambda: gen(g, word_maker(g, name), empties=0.1, mwts=0.1, star=0.4)), lambda s: apply(s, function))
    g.tag(name)


# ---------------------------------------------------------------- model of the case features
def single_adposition_case(v):
    adp = [c for c in v.kids if c.u == 'case' and c.upos == 'ADP']
    if len(adp) == 1 and not any(c.u == 'fixed' for c in v.s.kids(adp[0])):
        return adp[0].feats.get('Case', '')
    return ''


def by_relation(w):
    return {'nsubj': 'Nom', 'obj': 'Acc'}.get(w.u, '')


def init(v):
    w = v.w
    for k, x in w.feats.items():
        if k not in ('Abbr', 'AdpType', 'Emph', 'Foreign', 'NameType', 'Style', 'Typo', 'Variant'):
            w.misc['MSF' + k] = x
    if not v.f('Case'):
        c = single_adposition_case(v)
        if c:
            w.misc['MSFCase'] = c
    if 'MSFCase' not in w.misc:
        c = next((c.feats['Case'] for c in v.kids if c.u in ('amod', 'det') and 'Case' in c.feats), '') or by_relation(w)
        w.put('MSFCase', c, 'misc')
    for k in [k for k in w.misc if k.startswith('Phrase') and k[6:7].isupper()]:
        w.misc['MSFVerbForm' if k == 'PhraseForm' else 'MSF' + k[6:]] = w.misc.pop(k)


def case(v):
    w = v.w
    if w.u in ('case', 'mark', 'cc', 'aux', 'cop', 'punct'):
        w.misc['MSFFunc'] = 'Yes'
        return
    w.misc['MSFFunc'] = 'No'
    if w.u in ('det', 'amod'):
        return

    def markers(rel):
        return '_'.join('_'.join([c.lemma] + [x.lemma for x in v.s.kids(c) if x.u == 'fixed']) for c in v.kids if c.u == rel)
    value = w.misc.get('MSFCase', '')
    if markers('case'):
        value = markers('case') + '+' + value
        value = CASES.get(value, value)
    w.put('MSFCase', value or CASES.get(markers('mark')) or CASES.get(markers('cc')) or '', 'misc')


def numphrase(v):
    w = v.w
    quant = [c for c in v.kids if c.deprel in ('nummod:gov', 'det:numgov')]
    if quant and w.misc.get('MSFCase', 'Gen') == 'Gen':
        w.put('MSFCase', quant[0].misc.get('MSFCase') or single_adposition_case(v) or by_relation(w), 'misc')


def abstract(v):
    w = v.w
    agreement = ('Number', 'Person', 'Gender', 'Animacy', 'Polite')
    if w.misc.get('MSFVerbForm') != 'Fin' or not any('MSF' + k in w.misc for k in agreement):
        return
    edges = [e for x in v.s.words for e in x.edges] + [e for x in v.s.empties for e in x[2]]
    if not any(c.u in ('nsubj', 'csubj') for c in v.kids) and not any(h is w and r.startswith(('nsubj', 'csubj')) for h, r in edges):
        x = W(upos='PRON', lemma='_', feats={'PronType': 'Prs', 'Case': 'Nom'}, misc={'MSFPronType': 'Prs', 'MSFCase': 'Nom', 'MSFFunc': 'No'})
        for k in agreement:
            if 'MSF' + k in w.misc:
                x.feats[k] = x.misc['MSF' + k] = w.misc['MSF' + k]
        v.s.empties.append((w, '_', [(w, 'nsubj')], x))
    for k in agreement:
        w.misc.pop('MSF' + k, None)


def removefunc(v):
    if v.w.misc.get('MSFFunc') == 'Yes':
        for k in [k for k in v.w.misc if k.startswith('MSF')]:
            del v.w.misc[k]


CASE_BLOCKS = {'Init': (Init, init), 'Case': (Case, case), 'NumPhrase': (NumPhrase, numphrase), 'CreateAbstract': (CreateAbstract, abstract), 'RemoveFunc': (RemoveFunc, removefunc)}


def noun_maker(g, single=True):
    heads = [k.split('+')[0] for k in sorted(CASES)]

    def word(i, h):
        m = {'X': '1'} if g.bool(0.1) else {}
        if single:
            m.update(some(g, {'MSFCase': ['Gen', 'Loc', 'Nom'], 'MSFVerbForm': ['Fin', 'Fin', 'Fin', 'Inf'], 'MSFNumber': ['Sing'], 'MSFPerson': '13', 'MSFGender': ['Masc'], 'MSFAnimacy': ['Anim'], 'MSFPolite': ['Form'],
                              'MSFFunc': ['Yes', 'Yes', 'No'], 'PhraseTense': ['Past'], 'PhraseForm': ['Fin'], 'PhraseVoice': ['Act'], 'Phrase': ['[1, 2]'], 'Phrasee': ['1']}, 0.25))
        f = some(g, {'Case': ['Nom', 'Gen', 'Dat', 'Acc', 'Loc', 'Ins'], 'Abbr': ['Yes'], 'AdpType': ['Prep'], 'Number': ['Sing', 'Plur'], 'Style': ['Coll'], 'Typo': ['Yes'], 'VerbForm': ['Fin'], 'Person': '13'}, 0.2)
        lemma = g.choice(heads).split('_')[0]
        kind = g.weighted([(3, 'noun'), (4, 'case'), (2, 'fixed'), (2, 'mark'), (2, 'cc'), (3, 'quant'), (2, 'mod'), (1, 'other')])
        if kind == 'noun':
            return dict(upos='NOUN', feats=f, deprel=g.choice(['nsubj', 'obj', 'obl', 'nmod', 'nsubj:pass', 'obj:x', 'iobj']), misc=m)
        if kind == 'case':
            f.pop('Case', None)
            if g.bool(0.6):
                f['Case'] = g.choice(['Gen', 'Loc', 'Ins'])
            return dict(upos=g.weighted([(5, 'ADP'), (1, 'NOUN')]), lemma=lemma, feats=f, deprel=g.choice(['case', 'case', 'case:x']), misc=m)
        if kind == 'fixed':
            return dict(upos='NOUN', lemma=g.choice(['rámec', 'strana', 'od', 'co']), feats=f, deprel='fixed', misc=m)
        if kind == 'mark':
            return dict(upos='SCONJ', lemma=g.choice(['že', 'aby', 'jen', 'když', 'x']), feats=f, deprel='mark', misc=m)
        if kind == 'cc':
            return dict(upos='CCONJ', lemma=g.choice(['a', 'ale', 'x']), feats=f, deprel='cc', misc=m)
        if kind == 'quant':
            return dict(upos='NUM', feats=f, deprel=g.choice(['nummod:gov', 'det:numgov', 'nummod', 'det:nummod']), misc=m)
        if kind == 'mod':
            return dict(upos='ADJ', feats=f, deprel=g.choice(['amod', 'det', 'amod:x']), misc=m)
        return dict(upos='VERB', feats=f, deprel=g.choice(['aux', 'cop', 'punct', 'ccomp', 'csubj']), misc=m)
    return word


def combos(g, s):
    """Make some words the bearers of a combination listed in the table."""
    markers = [w for w in s.words if w.u in ('case', 'mark', 'cc') and w.head]
    if markers and g.bool(0.4):
        c = g.choice(markers)
        for x in [x for x in s.words if x is not c and x.head and not s.kids(x)][:g.int(1, 3)]:
            x.head, x.deprel = c, 'fixed'
    for w in s.words:
        kids = [c for c in s.kids(w) if c.u == 'case']
        if len(kids) == 1 and g.bool(0.8):
            key = g.choice(sorted(k for k in CASES if '+' in k))
            parts = key.split('+')[0].split('_')
            fixed = [x for x in s.kids(kids[0]) if x.u == 'fixed']
            if len(fixed) + 1 == len(parts):
                for x, lemma in zip([kids[0]] + fixed, parts):
                    x.lemma = lemma
                w.put('MSFCase', key.split('+')[1], 'misc')
        kids = [c for c in s.kids(w) if c.u in ('mark', 'cc')]
        if len(kids) == 1 and g.bool(0.8):
            words = [kids[0]] + [x for x in s.kids(kids[0]) if x.u == 'fixed']
            keys = [k.split('_') for k in sorted(CASES) if '+' not in k and k.count('_') < len(words)]
            keys += [k for k in keys if len(k) > 1] * len(keys)
            for x, lemma in zip(words, g.choice(keys)):
                x.lemma = lemma
    return s


def f_cases(g):
    name = g.weighted([(3, 'Init'), (4, 'Case'), (3, 'NumPhrase'), (3, 'CreateAbstract'), (1, 'RemoveFunc')])
    cls, function = CASE_BLOCKS[name]
    judge(g, cls(), docs(g, lambda: combos(g, gen(g, noun_maker(g), empties=0.3, mwts=0.1))), lambda s: apply(s, function))
    g.tag(name)


class Chain:
    def __init__(self, blocks):
        self.blocks = blocks

    def run(self, doc):
        for b in self.blocks:
            b.run(doc)


def f_pipeline(g):
    """The documented order: preprocessing, verb forms, initialisation, case, number phrases, abstract nodes, function words."""
    steps = list(VERB_BLOCKS.values()) + [CASE_BLOCKS[k] for k in ('Init', 'Case', 'NumPhrase', 'CreateAbstract', 'RemoveFunc')]
    makers = [word_maker(g), noun_maker(g, False)]

    def word(i, h):
        return g.weighted([(3, makers[0]), (2, makers[1])])(i, h)

    def model(s):
        for _, function in steps:
            apply(s, function)
    judge(g, Chain([cls() for cls, _ in steps]), docs(g, lambda: gen(g, word, empties=0.2, mwts=0.1, star=0.4)), model)


FACETS = {
    'verbs': facet(f_verbs, 12000),
    'cases': facet(f_cases, 5000),
    'pipeline': facet(f_pipeline, 1500),
}

"""C39: the labels of case-enhanced relations are normalised as documented (ud.*.FixEdeprels)."""
import json
import os
import re
from vf.engine import check, eq, Violation, assume
from vf.gens import *
from vf.util import facet
from checks.c36 import W, S, gen, docs, judge
from udapi.block.ud.ar.fixedeprels import FixEdeprels as Ar
from udapi.block.ud.cs.fixedeprels import FixEdeprels as Cs
from udapi.block.ud.lt.fixedeprels import FixEdeprels as Lt
from udapi.block.ud.ru.fixedeprels import FixEdeprels as Ru
from udapi.block.ud.sk.fixedeprels import FixEdeprels as Sk

RULE = ('1-2 documents of 1-3 sentences (1-9, sometimes more words, any tree shape) with enhanced relations whose labels combine the relations, the markers the block knows (all of its table, prepositions with several cases, '
        'unknown ones), more markers and cases, run through one block object and compared, row by row of the written CoNLL-U, with an independent model; non-trivial = something changes and there are at least 3 words; distinct by language and documents')
ASSUMPTIONS = ['every word has a form, a tag and a relation; a relation root belongs to a child of the root',
               'the canonical markers and cases are compared with a copy of the tables (vf/edeprels.json)',
               'single sentences of the treebanks which the Czech and Slovak blocks correct by hand are not generated']
re._MAXCACHE = 20000      # the blocks use more regular expressions than the cache of the module holds
TABLES = json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'vf', 'edeprels.json')))
BASES = ['obl', 'obl:arg', 'nmod', 'advcl', 'acl', 'acl:relcl']
NOMINAL = ['obl', 'obl:arg', 'nmod']
CASES = ['nom', 'gen', 'dat', 'acc', 'voc', 'loc', 'ins']


def split(label, bases=BASES):
    """relation, marker with case (None if the relation is not one of those)"""
    for b in sorted(bases, key=len, reverse=True):
        if label.startswith(b + ':') and len(label) > len(b) + 1:
            return b, label[len(b) + 1:]
    return None, None


def stem(rest, cases=CASES):
    """The marker without the case, if the case is one of those."""
    m, _, c = rest.rpartition(':')
    return m if m and c in cases else rest


def cased(rest, markers, cases):
    """The marker from markers without a case or with one of those cases."""
    m = stem(rest, cases)
    return m if m in markers else None


def known(table, base, rest, cases=CASES):
    for m in (rest, stem(rest, cases)):
        if m in table['unambiguous']:
            return f'{base}:{table["unambiguous"][m]}'


def outermost(table, base, rest, alone=False):
    for m, but in table['outermost'].items():
        if alone and rest == m or rest[:len(m) + 1] in (m + '_', m + ':') and len(rest) > len(m) + 1 and rest not in but:
            return f'{base}:{m}'


def from_child(s, w, marker):
    first = next((c for c in s.kids(w) if c.lemma == marker), None)
    return first.feats.get('Case', '').lower() if first else ''


# ---------------------------------------------------------------- models: the new label
def sk(s, w, label):
    base, rest = split(label, NOMINAL + ['advcl', 'acl'])
    if not base:
        return label
    new = known(TABLES['sk'], base, rest)
    if new:
        return new
    if base not in NOMINAL:
        return label
    m = cased(rest, 'medzi na o po pred v za'.split(), ['nom', 'gen', 'dat', 'voc'])
    if m and from_child(s, w, m):
        return f'{base}:{m}:{from_child(s, w, m)}'
    if rest in ('o', 'po', 'v'):
        return label + (':acc' if rest == 'o' else ':loc')
    return base if rest in ('voc', 'loc') else label


def lt(s, w, label):
    if label in ('acl:k', 'acl:k:dat'):
        return 'acl'
    if label in ('advcl:do', 'advcl:do:gen'):
        label = 'obl:do:gen'
    base, rest = split(label)
    if not base:
        return label
    new = outermost(TABLES['lt'], base, rest) or known(TABLES['lt'], base, rest)
    if new:
        return new
    m = cased(rest, ['po', 'už'], ['nom', 'voc'])
    if m and base in NOMINAL:
        c = from_child(s, w, m)
        return f'{base}:{m}:{c if c not in ("", "nom", "voc") else "acc"}'
    return label


def ar(s, w, label):
    base, rest = split(label)
    if not base:
        return label
    wa = 'وَ'
    label = label.replace(f':{wa}_', ':').replace(f':{wa}:', ':')
    if label.endswith(f':{wa}'):
        label = label[:-len(wa) - 1]
    base, rest = split(label)
    if not base:
        return label
    return outermost(TABLES['ar'], base, rest, True) or known(TABLES['ar'], base, rest) or label


def ru(s, w, label):
    if label == 'ccomp:чтобы':
        return 'ccomp'
    if not split(label)[0]:
        return label
    for x in ('быть', 'сколь', 'столько', 'типа'):
        label = label.split(':' + x)[0]
    base, rest = split(label)
    if rest in ('в', 'вместо', 'при') and base not in NOMINAL:
        return base
    if base and base not in NOMINAL and rest.split(':')[0] in 'взамен для до из на насчет от перед по после с среди у'.split():
        label = f'{"obl" if base == "advcl" else "nmod"}:{rest}'
    label = re.sub(':(то|точно)[_:]', ':', label)
    base, rest = split(label)
    if base:
        new = outermost(TABLES['ru'], base, rest) or known(TABLES['ru'], base, rest, CASES + ['par'])
        if new:
            return new
        for markers, cases, default in (('до из от', 'nom dat acc voc loc ins', 'gen'), ('в во на о', 'nom gen dat voc ins', 'loc'), ('за под', 'nom gen dat voc loc', 'acc'), ('между', 'nom dat acc voc loc', 'gen'),
                                        ('по', 'nom gen voc ins', 'dat'), ('с', 'nom dat acc voc loc', 'ins')):
            m = cased(rest, markers.split(), cases.split())
            if m and base in NOMINAL:
                return f'{base}:{m}:{from_child(s, w, m) or default}'
    if label in ('nmod:loc', 'nmod:voc'):
        return 'nmod' if w.head and w.head.feats.get('Case') == label[5:].capitalize() else 'nmod:nom'
    return label


CS_EARLY = {'advcl:do': 'obl:do:gen', 'advcl:pro': 'advcl:aby', 'acl:k': 'acl', 'advcl:k': 'obl:k:dat', 'advcl:místo': 'obl:místo:gen', 'acl:na_způsob': 'nmod:na_způsob:gen', 'acl:od': 'nmod:od:gen',
            'advcl:od': 'obl:od:gen', 'advcl:podle': 'obl:podle:gen', 'advcl:v_duch': 'obl:v_duchu:gen', 'advcl:v_duchu': 'obl:v_duchu:gen', 'obl:jestli': 'obl:gen'}
CS_EARLY.update({k + {'pro': ':acc', 'k': ':dat'}.get(k.split(':')[1], ':gen'): v for k, v in CS_EARLY.items()})
CS_EARLY.update({'acl:v': 'nmod:v:loc', 'advcl:v': 'obl:v:loc'})
CS_ACC = 'adresát AIDS DEM frank h ha hodina Honolulu jméno koruna litr metr míle miliarda milión mm MUDr NATO obyvatel OSN počet procento příklad rok SSSR vůz'.split()
CS_FOREIGN = ['a', 'al', 'a_l', 'ale', 'a_le', 'ala', 'a_la', 'ad', 'jak_ad', 'beyond', 'de', 'di', 'en', 'in', 'into', 'of', 'per', 'von', 'voor']
CS_WRONG = {'jméno:nom': 'jménem:nom', 'jméno': 'jménem:gen', 'jméno:gen': 'jménem:gen', 'mezi:nom': 'mezi:ins', 'mezi:dat': 'mezi:ins', 'o:nom': 'o:acc', 'o:gen': 'o:acc', 'o:dat': 'o:acc', 'po:nom': 'po:acc', 'po:gen': 'po:acc',
            'před:gen': 'před:ins', 's:nom': 's:ins', 's:acc': 's:ins', 'se:nom': 's:ins', 'se:acc': 's:ins', 'se:ins': 's:ins', 'shoda': '', 'shoda:gen': '', 'v:gen': 'v:loc', 'vo:acc': 'o:acc', 'z:nom': 'z:gen',
            'z:ins': 's:ins', 'za:nom': 'za:acc'}


def cs(s, w, label):
    if not split(label)[0]:
        return label
    label = CS_EARLY.get(label, label)
    for x in ('nmod:když', 'obl:ačkoli'):
        if label.startswith(x):
            label = x.split(':')[0]
    base, rest = split(label)
    if base in NOMINAL and rest.startswith('až_') and stem(rest, ['gen', 'dat', 'acc', 'loc', 'ins']) != rest:
        rest = rest[3:]
        label = f'{base}:{rest}'
    if not base:
        return label
    new = outermost(TABLES['cs'], base, rest) or known(TABLES['cs'], base, rest)
    if new:
        return new
    if base not in NOMINAL:
        for first in 'a alespoň až jen hlavně například ovšem_teprve protože teprve totiž zejména'.split():
            if base != 'acl:relcl' and rest in [f'{first}_{x}' for x in 'aby až jestliže když li pokud protože že'.split()]:
                rest = rest[len(first) + 1:]
                break
        if base != 'acl:relcl':
            if rest in [f'i_{x}' for x in 'aby až jestliže li pokud'.split()]:
                rest = rest[2:]
            a, _, b = rest.partition('_')
            if a in 'aby až jestliže když li pokud protože že'.split() and b in ('ale', 'tedy', 'totiž', 'už', 'však'):
                rest = a
            if rest in ('co_když', 'kdy') or base == 'advcl' and rest in ('neboť', 'nechť'):
                return base
        return f'{base}:{rest}'
    m = cased(rest, 'mezi na nad o po pod před v za'.split(), ['nom', 'gen', 'dat', 'voc'])
    if m and from_child(s, w, m) not in ('', 'nom', 'gen', 'dat', 'voc'):
        return f'{base}:{m}:{from_child(s, w, m)}'
    counted = any(c.deprel == 'nummod:gov' for c in s.kids(w))
    number = w.lemma[:1] in '0123456789' and w.lemma != ''
    if label in ('nmod:loc', 'nmod:voc'):
        return 'nmod' if w.head and w.head.feats.get('Case') == label[5:].capitalize() else 'nmod:nom'
    if label in ('obl:nom', 'obl:voc'):
        return 'obl'
    if label == 'nmod:co:nom':
        w.deprel = 'acl:relcl'
        return 'acl:relcl'
    for other, x in (('obl:loc', 'obl:v:loc'), ('obl:arg:loc', 'obl:arg:na:loc'), ('obl:arg:na_konec', 'obl:arg:na:acc'), ('nmod:že:gen', 'acl:že'), ('obl:v_čelo_s:ins', 'obl:s:ins'), ('obl:v_čele_s:ins', 'obl:s:ins')):
        if label == other:
            return x
    if rest == 'li' and base != 'nmod':
        return 'advcl:li'
    if rest == 'mezi:voc':
        return f'{base}:mezi:acc'
    if rest[:6] in ('místo_', 'místo:') and len(rest) > 6:
        return label if rest == 'místo_aby' else f'{base}:místo:gen'
    if rest in ('na', 'na:gen'):
        return f'{base}:na:{"acc" if counted or w.lemma in CS_ACC else "loc"}'
    if rest in ('v', 'v:nom'):
        return f'{base}:v:{"acc" if counted else "loc"}'
    case = {'mezi': 'acc' if counted else 'ins', 'mimo': 'acc', 'místo': 'gen', 'nad': 'acc' if counted or number else 'ins', 'o': 'acc' if counted or number else 'loc', 'po': 'acc' if counted else 'loc',
            'pod': 'acc' if counted or number else 'ins', 'před': 'ins', 's': 'ins', 'za': 'acc'}
    if rest in case:
        return f'{label}:{case[rest]}'
    if rest in ('co', 'co:nom'):
        return 'advmod'
    if rest in CS_WRONG:
        return f'{base}:{CS_WRONG[rest]}'.rstrip(':')
    for x in CS_FOREIGN:
        if rest == x or rest[:len(x) + 1] in (x + '_', x + ':') and len(rest) > len(x) + 1:
            return base
    for x in ('ať:', 'přestože_', 'přestože:'):
        if rest.startswith(x) and len(rest) > len(x):
            return f'{base}:{x[:-1]}'
    return label


SEVERAL = {'sk': 'medzi na o po pred v za', 'lt': 'po už do k', 'ar': 'وَ', 'ru': 'до из от в во на о за под между по с быть типа столько вместо при взамен для насчет то точно чтобы',
           'cs': 'mezi na nad o po pod před v za do k pro místo na_způsob od podle v_duch v_duchu jestli když ačkoli li mimo na_konec s co de von jméno shoda vo z ad per kdy co_když neboť nechť a_la přestože se ať'}
BLOCKS = {'ar': (Ar, ar), 'cs': (Cs, cs), 'lt': (Lt, lt), 'ru': (Ru, ru), 'sk': (Sk, sk)}


def f_labels(g):
    lang = g.weighted([(2, 'cs'), (2, 'ru'), (1, 'ar'), (1, 'lt'), (1, 'sk')])
    cls, new = BLOCKS[lang]
    table = TABLES[lang]
    several = SEVERAL[lang].split()
    firm = list(table['unambiguous'])
    outer = list(table['outermost'])

    def marker():
        return g.weighted([(5, g.choice(several)), (4, g.choice(firm)), (2, g.choice(outer or several)), (1, 'xyz'), (1, g.choice(['že', 'aby', 'pokud', 'если', 'ak']))])

    def label():
        base = g.weighted([(8, g.choice(BASES)), (1, g.choice(['ccomp', 'nsubj', 'conj', 'oblx', 'acl:x']))])
        out = base
        if g.bool(0.9):
            if g.bool(0.9):
                out += ':' + '_'.join(marker() for _ in range(g.weighted([(6, 1), (3, 2), (1, 3)])))
                if lang == 'cs' and g.bool(0.12):
                    out = base + ':' + g.choice('a alespoň až jen ovšem_teprve protože i'.split()) + '_' + g.choice('aby až jestliže když li pokud protože že'.split())
                elif lang == 'cs' and g.bool(0.08):
                    out = base + ':' + g.choice('aby až jestliže když li pokud protože že'.split()) + '_' + g.choice('ale tedy už x'.split())
                elif lang == 'cs' and g.bool(0.15):
                    out = base + ':' + g.choice('mezi na nad o po pod před v za s mimo místo co li do'.split())
                elif lang == 'ar' and g.bool(0.3):
                    out = base + ':وَ' + g.choice(['_', ':', '']) + g.choice(firm + outer)
            if g.bool(0.5):
                out += ':' + g.choice(CASES + ['par'])
        return out

    def word(i, h):
        f = {'Case': g.choice(['Nom', 'Acc', 'Gen', 'Loc', 'Ins', 'Voc', 'Dat'])} if g.bool(0.5) else {}
        return dict(upos=g.choice(['NOUN', 'NUM', 'ADP', 'VERB', 'X']), lemma=g.weighted([(6, g.choice(several)), (2, g.choice(['rok', 'NATO', '15', 'l'])), (1, g.choice(outer or several))]), feats=f, deprel=g.choice(['case', 'obl', 'nmod', 'nummod:gov', 'nummod', 'advcl']))

    def make():
        s = gen(g, word, edges=0.0, empties=0.1, mwts=0.1, star=0.3)
        ref = [w.head for w in s.words] + list(s.words) + s.empties
        for w in s.words:
            for _ in range(g.weighted([(6, 1), (2, 2), (1, 0)])):
                w.edges.append((g.choice([w.head, g.choice(ref)]), label()))
            for c in s.kids(w):
                if w.edges and g.bool(0.4):
                    b, r = split(w.edges[0][1])
                    c.lemma = stem(r) if r else 'x'
        return s

    def model(s):
        for w in s.words:
            w.edges = [(h, new(s, w, r)) for h, r in w.edges]
    judge(g, cls(), docs(g, make), model)
    g.tag(lang)


FACETS = {'labels': facet(f_labels, 6000)}

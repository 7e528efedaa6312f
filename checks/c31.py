"""C31: repair and conversion blocks work on each sentence on its own and touch only what they are about."""
import importlib
import logging
import os
from vf.engine import check, eq, Violation, assume
from vf.gens import *
from vf.util import facet
from vf.vocab import vocabulary

RULE = ('documents of 2-4 sentences (1-9, sometimes more words; one or two zones) whose words, tags, features and relations are drawn mostly from those mentioned in the block, '
        'run through the block whole, sentence by sentence, with another order of sentences, and limited to one zone; non-trivial = the block changes at least one sentence and there are at least 3 words; '
        'distinct by block and document')
ASSUMPTIONS = ['every word has a form, a universal tag and a relation',
               'blocks written for one treebank may fail with an error on a sentence, if they do so also when this sentence stands alone',
               'blocks which by their documentation need the whole document (ud.MarkBugs copulas, overviews of bugs in document.meta) are judged elsewhere']
UP = 'NOUN VERB PUNCT ADP AUX DET PRON PROPN ADJ ADV NUM CCONJ SCONJ PART SYM X INTJ'.split()
DEP = ('nsubj obj obl root punct case aux aux:pass cop det nmod amod advmod mark cc conj acl acl:relcl advcl xcomp ccomp fixed flat flat:name compound appos nummod nsubj:pass '
       'expl:pv expl:pass orphan vocative parataxis list dep goeswith obl:arg iobj csubj advmod:emph discourse dislocated').split()
FEATS = ('Case=Nom Case=Gen Case=Acc Case=Loc Number=Sing Number=Plur VerbForm=Inf VerbForm=Fin VerbForm=Part VerbForm=Conv Tense=Past Tense=Pres Tense=Fut Mood=Ind Mood=Imp Mood=Cnd '
         'Aspect=Perf Aspect=Imp Voice=Act Voice=Pass Polarity=Neg Person=3 Person=1 Gender=Fem Gender=Masc Animacy=Anim PronType=Prs PronType=Rel Reflex=Yes Poss=Yes Definite=Def NumType=Card '
         'AdpType=Prep Degree=Cmp Foreign=Yes Abbr=Yes Typo=Yes').split()
MISC = ['Gloss=x', 'Bug=abc', 'Mark=1', 'LTranslit=a', 'Translit=b', 'LId=5', 'MSeg=a-b', 'NE=geo', 'CorrectForm=a', 'MSFCase=Nom', 'PhraseTense=Fut', 'PhraseMood=Ind', 'Mwe=1:VID', 'Mwe=1', 'Mwe=2:LVC.cause;1',
        'Mwe=2', 'LDeriv=a', 'MorphInd=^a<n>_NSD$']
FORMS = ['a', 'The', 'dog', '.', ',', '„', '“', '(', ')', '"', '-', '?', '10', 'New', 'x', 'é', 'c_d', 'dům']

W = 'form lemma upos xpos feats head deprel deps misc words tokens text'          # a block which changes the words of the sentence
# block: (arguments, columns which it may change)
BLOCKS = {
    'msf.case.Case': ({}, 'misc', False),
    'msf.init.Init': ({}, 'misc', False),
    'msf.numphrase.NumPhrase': ({}, 'misc', False),
    'msf.slavic.conditional.Conditional': ({}, 'misc', False),
    'msf.slavic.converb.Converb': ({}, 'misc', False),
    'msf.slavic.future.Future': ({}, 'misc', False),
    'msf.slavic.imperative.Imperative': ({}, 'misc', False),
    'msf.slavic.infinitive.Infinitive': ({}, 'misc', False),
    'msf.slavic.past.Past': ({}, 'misc', False),
    'msf.slavic.preprocessor.Preprocessor': ({}, 'deprel feats upos', False),
    'msf.slavic.present.Present': ({}, 'misc', False),
    'mwe.normalize.Normalize': ({}, 'misc', False),
    'mwe.possessives.Possessives': ({}, '', False),
    'mwe.tosubdeprels.ToSubDeprels': ({}, 'deprel', False),
    'transform.flatten.Flatten': ({}, 'deprel head', False),
    'transform.proj.Proj': ({}, 'deprel head misc', False),
    'tutorial.addarticles.AddArticles': ({}, W, False),
    'tutorial.addcommas.AddCommas': ({}, W, False),
    'tutorial.removecommas.RemoveCommas': ({}, W, False),
    'ud.addpuncttype.AddPunctType': ({}, 'feats', False),
    'ud.basic2enhanced.Basic2Enhanced': ({}, 'deps', False),
    'ud.convert1to2.Convert1to2': ({}, 'deprel feats head misc upos', False),
    'ud.exgoogle2ud.ExGoogle2ud': ({}, 'deprel head upos', False),
    'ud.fixadvmodbyupos.FixAdvmodByUpos': ({}, 'deprel', False),
    'ud.fixchain.FixChain': ({}, 'deprel head', False),
    'ud.fixcompoundname.FixCompoundName': ({}, 'deprel head', False),
    'ud.fixleaf.FixLeaf': ({}, 'deprel deps head', False),
    'ud.fixmultisubjects.FixMultiSubjects': ({}, 'deprel', False),
    'ud.fixpseudocop.FixPseudoCop': ({'lemmas': 'l,a,dog'}, 'deprel head upos', True),
    'ud.fixpunct.FixPunct': ({}, 'deprel head', False),
    'ud.fixpunctchild.FixPunctChild': ({}, 'deprel head', False),
    'ud.fixrightheaded.FixRightheaded': ({}, 'deprel head', False),
    'ud.fixroot.FixRoot': ({}, 'deprel head', False),
    'ud.joinasmwt.JoinAsMwt': ({}, 'misc tokens', False),
    'ud.lemmatize.Lemmatize': ({}, 'lemma', False),
    'ud.removemwt.RemoveMwt': ({}, W, False),
    'ud.setspaceafter.SetSpaceAfter': ({}, 'misc text tokens', False),
    'ud.splitunderscoretokens.SplitUnderscoreTokens': ({}, W, False),
    'ud.ar.fixedeprels.FixEdeprels': ({}, 'deps', False),
    'ud.bg.removedotafterabbr.RemoveDotAfterAbbr': ({}, W, False),
    'ud.ca.addmwt.AddMwt': ({}, W, False),
    'ud.ca.elque.ElQue': ({}, W, False),
    'ud.cs.addmwt.AddMwt': ({}, W, False),
    'ud.cs.fixedeprels.FixEdeprels': ({}, 'deprel deps', False),
    'ud.cs.markfeatsbugs.MarkFeatsBugs': ({}, 'misc', False),
    'ud.da.fixmultisubject.FixMultiSubject': ({}, 'deprel head misc', False),
    'ud.de.addmwt.AddMwt': ({}, W, False),
    'ud.de.fixgsd.FixGSD': ({}, W, False),
    'ud.de.fixhdt.FixHDT': ({}, W, False),
    'ud.el.addmwt.AddMwt': ({}, W, False),
    'ud.en.setspaceafter.SetSpaceAfter': ({}, 'misc text tokens', False),
    'ud.es.addmwt.AddMwt': ({}, W, False),
    'ud.es.elque.ElQue': ({}, W, False),
    'ud.es.fixexclamation.FixExclamation': ({}, W, False),
    'ud.es.fixtenerque.FixTenerQue': ({}, 'deprel deps head upos', True),
    'ud.es.fixverbfeats.FixVerbFeats': ({}, 'feats lemma', False),
    'ud.fr.addmwt.AddMwt': ({}, W, False),
    'ud.ga.to2.To2': ({}, 'deprel feats upos', False),
    'ud.gl.to2.To2': ({}, 'deprel head misc', False),
    'ud.he.fixneg.FixNeg': ({}, 'deprel feats upos', False),
    'ud.hi.fixaux.FixAux': ({}, 'deprel feats head lemma upos', False),
    'ud.id.addmwt.AddMwt': ({}, W, False),
    'ud.id.fixgsd.FixGSD': ({}, W, False),
    'ud.kk.fixspuriousaux.FixSpuriousAux': ({}, 'deprel head upos', True),
    'ud.la.addmwt.AddMwt': ({}, W, False),
    'ud.la.markfeatsbugs.MarkFeatsBugs': ({}, 'misc', False),
    'ud.lt.fixedeprels.FixEdeprels': ({}, 'deps', False),
    'ud.ml.markfeatsbugs.MarkFeatsBugs': ({}, 'misc', False),
    'ud.mr.addformsinmwt.AddFormsInMwt': ({}, W, False),
    'ud.pt.addhyphenmwt.AddHyphenMwt': ({}, W, False),
    'ud.pt.addmwt.AddMwt': ({}, W, False),
    'ud.ro.fixneg.FixNeg': ({}, 'deprel feats upos', False),
    'ud.ro.setspaceafter.SetSpaceAfter': ({}, 'misc text tokens', False),
    'ud.ru.fixedeprels.FixEdeprels': ({}, 'deps', False),
    'ud.ru.fixremnant.FixRemnant': ({}, 'deprel head', True),
    'ud.ru.fixtoest.FixToEst': ({}, 'deprel deps head', False),
    'ud.sk.fixedeprels.FixEdeprels': ({}, 'deps', False),
    'ud.ug.fixspuriousaux.FixSpuriousAux': ({}, 'deprel head upos', True),
    'ud.yue.lemmatize.Lemmatize': ({}, 'lemma', False),
    'ud.zh.lemmatize.Lemmatize': ({}, 'feats lemma', False),
}


# splitting words inside of multi-word tokens is not what these blocks are made for
NO_MWT = {'ud.es.fixexclamation.FixExclamation', 'ud.pt.addhyphenmwt.AddHyphenMwt'}


def gen_doc(g, cls, two_zones, mwt=True, same=False):
    v = vocabulary(cls)
    feats = FEATS + [f'{n}={x}' for n in v['feats'][::1] for x in ('Yes',)]
    k = g.int(2, 4)
    out = []
    n, first = 0, {}
    for s in range(k):
        n = n if same and n else heads_size(g, 1, 9)
        heads = gen_heads(g, n)
        rows, text = [], ''
        mwts = {lo: (hi, form) for lo, hi, form, *_ in gen_mwts(g, n, 0.08)} if mwt and g.bool(0.4) else {}
        inside = {i for lo, (hi, _) in mwts.items() for i in range(lo, hi + 1)}
        empties = {g.int(0, n)} if g.bool(0.1) else set()
        for i in range(n + 1):
            if i:
                if i in mwts:
                    hi, form = mwts[i]
                    rows.append(f'{i}-{hi}\t{form}' + '\t_' * 8)
                    text += form + ' '
                w = g.choice(v['words']) if v['words'] and g.bool(0.55) else g.choice(FORMS)
                form = w if g.bool(0.8) else w.capitalize()
                lemma = g.weighted([(3, w), (2, 'l'), (2, g.choice(v['words']) if v['words'] else 'm'), (1, '_')])
                head = heads[i - 1]
                deprel = 'root' if head == 0 and g.bool(0.9) else g.choice(v['deprels']) if v['deprels'] and g.bool(0.6) else g.choice(DEP)
                deprel = deprel.rstrip(':') or 'dep'
                upos = g.choice(v['upos']) if v['upos'] and g.bool(0.6) else g.choice(UP)
                if form in '.,„“()"-?' and g.bool(0.8):
                    upos = 'PUNCT'
                if same and not s:
                    first[i] = form, lemma, upos
                elif same and g.bool(0.5):
                    form, lemma, upos = first[i]
                xpos = g.choice(v['words']) if v['words'] and g.bool(0.15) else g.choice(['_', 'X', 'NN'])
                fs = {}
                for _ in range(g.draw(5)):
                    if v['feats'] and g.bool(0.3):
                        f, x = g.choice(v['feats']), g.choice(v['feats'])
                    else:
                        f, x = g.choice(FEATS).split('=')
                    fs[f] = x
                misc = {}
                for _ in range(g.weighted([(6, 0), (2, 1), (1, 2)])):
                    m, x = g.choice(MISC).split('=')
                    misc[m] = x
                if i not in inside:
                    nospace = g.bool(0.15)
                    if nospace:
                        misc['SpaceAfter'] = 'No'
                    text += form + ('' if nospace else ' ')
                edges = []
                if g.bool(0.5):
                    edges.append(f'{head}:{deprel if g.bool(0.5) or not v["deprels"] else g.choice(v["deprels"]).rstrip(":")}')
                    if g.bool(0.2):
                        edges.append(f'{g.int(0, n)}:{g.choice(DEP)}')
                rows.append('\t'.join([str(i), form, lemma, upos, xpos.replace(' ', '_'), '|'.join(f'{a}={b}' for a, b in sorted(fs.items(), key=lambda x: x[0].lower())) or '_',
                                       str(head), deprel, '|'.join(edges) or '_', '|'.join(f'{a}={b}' for a, b in sorted(misc.items(), key=lambda x: x[0].lower())) or '_']))
            if i in empties:
                rows.append(f'{i}.1\tE\t_\t{g.choice(UP)}\t_\t_\t_\t_\t{max(i, 1)}:dep\t_')
        sid = f's{s // 2 + 1}/{["en", "cs"][s % 2]}' if two_zones else f's{s + 1}'
        out.append(f'# sent_id = {sid}\n# text = {text.rstrip()}\n' + '\n'.join(rows) + '\n\n')
    return out


def get(name):
    mod, cls = name.rsplit('.', 1)
    return getattr(importlib.import_module('udapi.block.' + mod), cls)


class Failed(Exception):
    pass


def apply(cls, args, texts, **kw):
    """Texts of the sentences after the block."""
    doc = load(''.join(texts))
    block = cls(**args, **kw)
    before = dict(doc.meta)
    try:
        run_block(block, doc)
    except Exception as e:
        if type(e).__name__ in ('Violation', 'Hang'):
            raise
        raise Failed(f'{type(e).__name__}: {e}')
    for t in doc.trees:
        check_wf(t, f'after {cls.__name__}({args})\n{"".join(texts)}')
    out = conllu(doc)
    again = load(out)
    for t in again.trees:
        check_wf(t, f'after {cls.__name__}({args}) and reloading\n{"".join(texts)}')
    eq(conllu(again), out, f'{cls.__name__}({args}): saved and loaded again\n{"".join(texts)}')
    parts = [x + '\n\n' for x in out.split('\n\n') if x]
    eq(len(parts), len(texts), f'{cls.__name__}: number of sentences')
    return parts, {k: v for k, v in doc.meta.items() if k not in before}


def changed(a, b):
    """Names of the columns in which two sentences differ."""
    pa, pb = parse_conllu(a)[0], parse_conllu(b)[0]
    out = set()
    ca, cb = [[c for c in p['comments'] if not c.startswith('# text =')] for p in (pa, pb)]
    ta, tb = [[c for c in p['comments'] if c.startswith('# text =')] for p in (pa, pb)]
    if ca != cb:
        out.add('comment')
    if ta != tb:
        out.add('text')
    ra, rb = [[r for r in p['rows'] if '-' not in r[0]] for p in (pa, pb)]
    ma, mb = [[r for r in p['rows'] if '-' in r[0]] for p in (pa, pb)]
    if ma != mb:
        out.add('tokens')
    if [r[0] for r in ra] != [r[0] for r in rb]:
        out.add('words')
    else:
        for x, y in zip(ra, rb):
            for i, col in enumerate(('form', 'lemma', 'upos', 'xpos', 'feats', 'head', 'deprel', 'deps', 'misc'), 1):
                if x[i] != y[i]:
                    out.add(col)
    return out


def one(g, name, same=False):
    args, frame, fails = BLOCKS[name]
    cls = get(name)
    two = not same and g.bool(0.5)
    texts = gen_doc(g, cls, two, name not in NO_MWT, same)
    args = {k: (g.choice(x) if isinstance(x, list) else x) for k, x in args.items()}
    alone, errors = [], 0
    for t in texts:
        try:
            alone.append(apply(cls, args, [t])[0][0])
        except Failed as e:
            errors += 1
            check(fails, f'{name}({args}) failed: {e}\n{t}')
            alone.append(None)
    msg = f'{name}({args})'
    if errors:
        texts = [t for t, a in zip(texts, alone) if a is not None]
        alone = [a for a in alone if a is not None]
        assume(len(texts) > 1)
    g.note(f'{msg}\n{"".join(texts)}', sum(len(t.split('\n')) for t in texts) > 5 + 4 * len(texts) and any(a != t for a, t in zip(alone, texts)))
    try:
        whole, _ = apply(cls, args, texts)
        for i, (a, w) in enumerate(zip(alone, whole)):
            eq(w, a, f'{msg}: sentence {i + 1} of the document differs from the result on the sentence alone\n{"".join(texts)}')
            bad = changed(texts[i], w) - set(frame.split())
            check(not bad, f'{msg}: changed also {sorted(bad)}\n{texts[i]}\n{w}')
        if two:
            z = g.choice(['en', 'cs'])
            limited, _ = apply(cls, args, texts, zones=z)
            for i, (a, w) in enumerate(zip(alone, limited)):
                mine = f'/{z}\n' in texts[i]
                eq(w, a if mine else texts[i], f'{msg} zones={z}: sentence {i + 1}\n{"".join(texts)}')
        elif len(texts) > 1:
            order = g.perm(list(range(len(texts))))
            other, _ = apply(cls, args, [texts[i] for i in order])
            for i, w in zip(order, other):
                eq(w, alone[i], f'{msg}: sentence {i + 1} in the order {order}\n{"".join(texts)}')
    except Failed as e:
        raise Violation(f'{msg} failed on the document but not on single sentences: {e}\n{"".join(texts)}')


def f_all(g):
    one(g, g.choice(sorted(BLOCKS)))


# blocks whose objects keep some data from one tree to the next
STATE = ['ud.fixpunct.FixPunct', 'ud.complywithtext.ComplyWithText', 'ud.exgoogle2ud.ExGoogle2ud']


def f_same(g):
    """Similar sentences of the same length: nothing is left over from the previous one."""
    one(g, g.choice([x for x in STATE if x in BLOCKS]) if g.bool(0.3) else g.choice(sorted(BLOCKS)), True)


FACETS = {
    'same': facet(f_same, 5000),
    'all': facet(f_all, 12000),
}

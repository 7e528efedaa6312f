"""C37: language-specific repair blocks make exactly the documented change."""
import re
from vf.engine import check, eq, Violation, assume
from vf.gens import *
from vf.util import facet
from checks.c36 import W, S, gen, docs, judge, UPOS_ALL
from udapi.block.ud.ro.fixneg import FixNeg as RoFixNeg
from udapi.block.ud.he.fixneg import FixNeg as HeFixNeg
from udapi.block.ud.ru.fixtoest import FixToEst
from udapi.block.ud.es.fixverbfeats import FixVerbFeats
from udapi.block.ud.es.fixtenerque import FixTenerQue
from udapi.block.ud.es.elque import ElQue as EsElQue
from udapi.block.ud.ca.elque import ElQue as CaElQue
from udapi.block.ud.ga.to2 import To2 as GaTo2
from udapi.block.ud.gl.to2 import To2 as GlTo2
from udapi.block.ud.yue.lemmatize import Lemmatize as YueLemmatize
from udapi.block.ud.de.fixhdt import FixHDT
from udapi.block.ud.da.fixmultisubject import FixMultiSubject
from udapi.block.ud.mr.addformsinmwt import AddFormsInMwt
from udapi.block.ud.hi.fixaux import FixAux
from udapi.block.tutorial.addarticles import AddArticles
from udapi.block.tutorial.addcommas import AddCommas
from udapi.block.tutorial.adpositions import Adpositions

RULE = ('1-2 documents of 1-3 sentences (1-9, sometimes more words, any tree shape) drawn from the forms, lemmas, tags, features and relations the block is about, run through one block object and compared, '
        'row by row of the written CoNLL-U or line by line of what is printed, with an independent model; non-trivial = the block changes or prints something and there are at least 3 words; distinct by block, options and documents')
ASSUMPTIONS = ['every word has a form, a tag and a relation; a relation root belongs to a child of the root',
               'ud.de.FixHDT, tutorial.*: no enhanced dependencies, no empty nodes, the words are not inside of multi-word tokens',
               'ud.es.ElQue and ud.ca.ElQue: a step which would lead to a cycle is left out']


def under(x, top):
    """Is x in the subtree of top?"""
    while x is not None:
        if x is top:
            return True
        x = x.head
    return False


# ---------------------------------------------------------------- words
def t_neg(g):
    ro = g.bool()

    def word(i, h):
        f = {}
        for k, v in (('VerbType', 'Cop'), ('VerbType', 'Mod'), ('Polarity', 'Pos'), ('Case', 'Acc')):
            if g.bool(0.25):
                f[k] = v
        return dict(form=g.choice(['ne', 'ne', 'Ne', 'nu', 'einam']), upos=g.choice(['PRON', 'PRON', 'ADJ', 'ADV', 'VERB', 'PART']), feats=f, deprel=g.weighted([(3, 'neg'), (1, 'advmod'), (1, 'neg:x')]),
                    misc=dict([('ToDo', g.choice(['neg', 'neg', 'nmod', 'neg,nmod']))] if g.bool(0.4) else [], **({'X': '1'} if g.bool(0.2) else {})))

    def model(s):
        for w in s.words:
            if w.deprel != 'neg':
                continue
            if ro:
                if (w.upos, w.form) == ('PRON', 'ne'):
                    w.feats = {'Polarity': 'Neg'}
                w.upos, w.deprel = 'ADV', 'advmod'
            elif w.feats.get('VerbType') == 'Cop':
                w.upos, w.deprel = 'AUX', 'cop'
                del w.feats['VerbType']
                if w.misc.get('ToDo') == 'neg':
                    del w.misc['ToDo']
    judge(g, (RoFixNeg if ro else HeFixNeg)(), docs(g, lambda: gen(g, word, empties=0.2, mwts=0.2)), model)


def t_toest(g):
    def word(i, h):
        return dict(form=g.choice(['то', 'есть', 'a']), lemma=g.choice(['то', 'то', 'быть', 'быть', 'тот']), deprel=g.choice(['mark', 'mark', 'fixed', 'fixed', 'fixed:x', 'mark:y', 'cc', 'nsubj']))

    def model(s):
        for w in s.words:
            if w.u == 'mark' and w.lemma == 'то' and any(c.u == 'fixed' and c.lemma == 'быть' for c in s.kids(w)):
                w.deprel = 'cc'
                w.edges = [e for e in w.edges if e[0] is not w.head] + [(w.head, 'cc')]
    judge(g, FixToEst(), docs(g, lambda: gen(g, word, edges=0.6, empties=0.2, mwts=0.2)), model)


def t_verbfeats(g):
    stems = ['com', 'cant', 'viv', 'hac', 'docd', '']
    ends = ['er', 'ar', 'ir', 'iendo', 'ando', 'ado', 'ada', 'ados', 'adas', 'ido', 'idas', 'o', 'amos', 'or', 'ad', 'erlo', 'ndos', 'adora', 'ude']

    def word(i, h):
        f = {}
        for k, v in (('Gender', 'Fem'), ('Number', 'Plur'), ('Number', 'Sing'), ('Tense', 'Pres'), ('VerbForm', 'Fin'), ('Mood', 'Ind')):
            if g.bool(0.2):
                f[k] = v
        form = g.weighted([(6, g.choice(stems) + g.choice(ends)), (2, g.choice(['biert', 'dich', 'fech', 'hech', 'muert', 'puest', 'vist', 'descubiert', 'trast']) + g.choice(['o', 'a', 'os', 'as', 'e', ''])), (1, 'entiendo')]) or 'x'
        return dict(form=g.weighted([(4, form), (1, form.upper()), (1, form.capitalize())]), upos=g.choice(['VERB', 'VERB', 'AUX', 'ADJ', 'VERBX']), feats=f)

    def model(s):
        for w in s.words:
            if w.upos not in ('VERB', 'AUX'):
                continue
            low = w.form.lower()
            if low.endswith(('ar', 'er', 'ir')):
                if low[-2] in 'aei':
                    w.feats, w.lemma = {'VerbForm': 'Inf'}, low
            elif low.endswith('ndo'):
                if low != 'entiendo':
                    w.feats = {'VerbForm': 'Ger'}
            else:
                plural = low.endswith('s')
                base = low[:-1] if plural else low
                if base[-1:] in ('o', 'a') and base[:-1].endswith(('ad', 'id', 'biert', 'dich', 'fech', 'hech', 'muert', 'puest', 'vist')):
                    w.feats = {'VerbForm': 'Part', 'Tense': 'Past', 'Gender': w.feats.get('Gender') or ('Masc' if base[-1] == 'o' else 'Fem'),
                               'Number': w.feats.get('Number') or ('Plur' if plural else 'Sing')}
                    if base[:-1].endswith('ad'):
                        w.lemma = base[:-2] + 'r'
    judge(g, FixVerbFeats(), docs(g, lambda: gen(g, word, empties=0.2, mwts=0.2)), model)


def t_ga(g):
    def word(i, h):
        f = {}
        for k, v in (('Case', 'Com'), ('Case', 'Gen'), ('Form', 'Emph'), ('Form', 'Len'), ('VerbForm', 'Inf'), ('VerbForm', 'Vnoun'), ('VerbForm', 'Ger'), ('VerbForm', 'Part')):
            if g.bool(0.18):
                f[k] = v
        m = {'ToDo': g.choice(['nmod', 'nmod,neg', 'neg'])} if g.bool(0.3) else {}
        return dict(lemma=g.choice(['ag', 'ag', 'l']), upos=g.choice(['PRON', 'ADP', 'NOUN', 'VERB']), xpos=g.choice(['_', 'Abr', 'Cop', 'Foreign', 'Noun']), feats=f, misc=m,
                    deprel=g.choice(['nmod:prep', 'nmod:tmod', 'nmod', 'nmod:poss', 'case']))

    def model(s):
        for i, w in enumerate(s.words):
            if w.feats.get('Case') == 'Com':
                w.feats['Case'] = 'NomAcc'
            if w.feats.get('Form') == 'Emph':
                if w.upos in ('PRON', 'ADP'):
                    del w.feats['Form']
                    w.feats['PronType'] = 'Emp'
                else:
                    w.feats['Form'] = 'Emp'
            if w.deprel in ('nmod:prep', 'nmod:tmod'):
                w.deprel = 'obl' + w.deprel[4:]
            if w.xpos == 'Abr':
                w.feats['Abbr'] = 'Yes'
            if w.xpos == 'Cop':
                w.upos = 'AUX'
            if w.xpos == 'Foreign':
                w.feats['Foreign'] = 'Yes'
            if 'nmod' in w.misc.get('ToDo', ''):
                del w.misc['ToDo']
            if w.feats.get('VerbForm') in ('Inf', 'Vnoun', 'Ger'):
                prev = s.words[i - 1] if i else None
                w.feats['VerbForm'] = 'Vnoun' if prev and prev.lemma == 'ag' and prev.head is w else 'Inf'
    judge(g, GaTo2(), docs(g, lambda: gen(g, word, empties=0.2, mwts=0.2)), model)


CANTONESE = dict(zip('𡃁仔 仲 企 係咪 出嚟 可 啦 㗎喇 喇 嚟 就嚟 死𡃁妹 老豆 蚊 蛋撻 返嚟 過嚟人 過嚟'.split(), '笭仔 重 徛 係 出唻 可以 喇 㗎嘑 嘑 唻 就唻 死笭妹 老頭 緡 蛋澾 返唻 過唻人 過唻'.split()))


def t_yue(g):
    def word(i, h):
        form = g.weighted([(3, g.choice(list(CANTONESE))), (1, '我'), (1, '_'), (1, 'Abc')])
        return dict(form=form, lemma=g.weighted([(3, '_'), (1, 'l')]), feats={k: v for k, v in (('Typo', g.choice(['Yes', 'No'])), ('Case', 'Nom')) if g.bool(0.3)})

    def model(s):
        for w in s.words:
            if w.lemma == '_' and w.form != '_' and w.feats.get('Typo') != 'Yes':
                w.lemma = CANTONESE.get(w.form, w.form)
    judge(g, YueLemmatize(), docs(g, lambda: gen(g, word, empties=0.2, mwts=0.2)), model)


COMPOUND = 'ले दे डाल फेंक बैठ उठ रख आ पहुंच चल निकल निकाल गिरा समा धमक खडा दबोच गुजर फूंक घेर बच لے دے ڈال پھینک بیٹھ اٹھ رکھ آ لا پہنچ دیکھ پھر چل چڑھ سڑ'.split()
PHASE = 'लग चुक चाह दिखा बन करा لگ چک چاہ دکھا بن'.split()
HI_LEMMA = {'آنہ': 'آ', 'چاہے': 'چاہ', 'चुका': 'चुक', 'چکا': 'چک', 'दिया': 'दे', 'دیا': 'دے', 'دی': 'دے', 'دیت': 'دے', 'گی': 'گا', 'گے': 'گا', 'जाना': 'जा', 'जान': 'जा', 'گیا': 'جا', 'جائے': 'جا', 'جاتا': 'جا',
            'جاتی': 'جا', 'جان': 'جا', 'جانا': 'جا', 'جاؤ': 'جا', 'جائی': 'جا', 'جاتے': 'جا', 'جات': 'جا', 'हों': 'है', 'है.': 'है', 'ہوں': 'ہے', 'ہوا': 'ہے', 'लिया': 'ले', 'لیا': 'لے', 'لو': 'لے', 'لی': 'لے', 'لیجیے': 'لے',
            'लगा': 'लग', 'لگا': 'لگ', 'पहुंचा': 'पहुंच', 'पहुँच': 'पहुंच', 'پڑے': 'پڑ', 'پھرے': 'پھر', 'रहा': 'रह', 'रहूं': 'रह', 'رہا': 'رہ', 'رہی': 'رہ', 'رہے': 'رہ', 'سکے': 'سک', 'سکی': 'سک', 'سکتا': 'سک', 'سکت': 'سک',
            'थी': 'था', 'تھ': 'تھا', 'تھے': 'تھا', 'تھیں': 'تھا', 'उठा': 'उठ', 'اٹھا': 'اٹھ', 'والی': 'والا'}
HI_FORM = {'چاہئے': 'چاہئے', 'چاہیئے': 'چاہئے', 'چاہیے': 'چاہئے', 'چاہئیں': 'چاہئے', 'دکھائیں': 'دکھا', 'ہے': 'ہے', 'لیا': 'لے'}
CLAUSAL = 'nsubj csubj advmod advcl obj iobj obl aux mark punct cc expl dislocated vocative discourse parataxis'.split()


def t_hi(g):
    lemmas = g.weighted([(3, COMPOUND), (4, PHASE), (3, list(HI_LEMMA)), (2, ['वाला', 'والا', 'والی', 'हो', 'کا', 'بنا', 'لا', 'x'])])

    def word(i, h):
        f = {}
        for k, v in (('AdpType', 'Post'), ('VerbForm', 'Part'), ('Aspect', 'Perf'), ('Number', 'Sing'), ('Gender', 'Masc')):
            if g.bool(0.2):
                f[k] = v
        lemma = g.weighted([(4, g.choice(lemmas)), (1, g.choice(COMPOUND + PHASE + ['वाला', 'والا', 'x', 'xले', 'लेx']))])
        form = g.weighted([(6, 'a'), (1, g.choice(list(HI_FORM) + ['کر', 'کے'])), (1, lemma)])
        if g.bool(0.06):
            lemma, form = g.choice([('کا', 'کے'), ('بنا', 'کر'), ('کا', 'کر'), ('بنا', 'کے')])
        return dict(form=form, lemma=lemma, upos=g.weighted([(4, 'AUX'), (1, 'VERB'), (1, 'ADP')]), feats=f,
                    deprel=g.weighted([(4, 'aux'), (1, 'aux:pass'), (4, g.choice(CLAUSAL)), (3, g.choice(['nmod', 'amod', 'compound', 'conj', 'case', 'nsubj:pass', 'acl', 'det', 'ccomp', 'cop', 'cc:preconj']))]))

    def model(s):
        for w in s.words:
            if w.upos == 'AUX':
                old, form = w.lemma, w.form
                if form in HI_FORM:
                    w.lemma = HI_FORM[form]
                    if form == 'چاہئیں':
                        w.feats['Number'] = 'Plur'
                elif (form, old) == ('کر', 'بنا'):
                    w.lemma = 'کر'
                else:
                    w.lemma = HI_LEMMA.get(old, old)
                if (w.lemma, form) == ('کا', 'کے'):
                    w.upos, w.deprel = 'ADP', 'mark'
            if w.lemma in COMPOUND and w.upos == 'AUX' and w.u == 'aux':
                w.upos, w.deprel = 'VERB', 'compound'
            elif w.lemma in ('वाला', 'والا'):
                w.upos, w.deprel = 'ADJ', 'compound'
                for k in ('AdpType', 'VerbForm', 'Aspect'):
                    w.put(k, '')
            elif w.lemma in PHASE and w.upos == 'AUX' and w.u == 'aux':
                second = w.head
                w.head, w.deprel, w.upos = second.head, second.deprel, 'VERB'
                second.head, second.deprel = w, 'xcomp'
                for c in s.kids(second):
                    if c.deprel.startswith(tuple(CLAUSAL)):
                        c.head = w
    judge(g, FixAux(), docs(g, lambda: gen(g, word, mwts=0.1, edges=0)), model)


def f_words(g):
    g.choice([t_neg, t_toest, t_verbfeats, t_ga, t_yue, t_hi, t_hi])(g)


# ---------------------------------------------------------------- trees
STAY = 'obj iobj obl ccomp xcomp conj list compound flat fixed goeswith reparandum'.split()


def t_tener(g):
    def word(i, h):
        form, lemma = g.weighted([(3, ('tengo', 'tener')), (2, ('voy', 'ir')), (2, ('que', 'que')), (2, ('a', 'a')), (1, ('Que', 'que')), (3, ('comer', 'comer')), (1, ('pan', 'pan'))])
        return dict(form=form, lemma=lemma, upos='AUX' if lemma in ('tener', 'ir') and g.bool(0.8) else 'VERB',
                    deprel=g.choice(['aux', 'aux', 'aux', 'aux:x', 'fixed', 'mark', 'nsubj', 'obj', 'obl:arg', 'punct', 'advmod', 'conj', 'cop']))

    def attach(w, head, rel):
        if w.edges:
            kept = [e for e in w.edges if not (e[0] is w.head and e[1].split(':')[0] == w.u)]
            w.edges = kept + ([(head, rel)] if len(kept) < len(w.edges) else [])
        w.head, w.deprel = head, rel

    def model(s):
        pos = {id(w): i for i, w in enumerate(s.words)}
        for w in s.words:
            if w.lemma not in ('tener', 'ir') or w.upos != 'AUX':
                continue
            w.upos = 'VERB'
            if w.u != 'aux':
                continue
            main = w.head
            attach(w, main.head, main.deprel)
            attach(main, w, 'xcomp')
            for c in s.kids(main):
                if c.u not in STAY:
                    attach(c, w, c.deprel)
            for c in s.kids(w):
                if c.form.lower() in ('que', 'a') and pos[id(w)] < pos[id(c)] < pos[id(main)]:
                    attach(c, main, 'mark')
    judge(g, FixTenerQue(), docs(g, lambda: gen(g, word, edges=0.5, empties=0.2, mwts=0.2)), model)


def t_gl(g):
    def word(i, h):
        return dict(lemma=g.choice(['ser', 'ser', 'estar', 'quedar', 'l']), upos=g.choice(['NOUN', 'PRON', 'ADJ', 'VERB', 'PUNCT', 'ADP', 'CONJ', 'PART', 'ADV']),
                    deprel=g.choice(['cop', 'cop', 'case', 'case', 'punct', 'punct', 'nsubj', 'obj', 'cop:x']))
    like = {'NOUN': 10, 'PRON': 9, 'ADJ': 8, 'VERB': 8, 'PUNCT': -10}

    def invert(s, w):
        kids = sorted(s.kids(w), key=lambda c: -like.get(c.upos, 0))
        kids[0].head, w.head = w.head, kids[0]
        for c in kids[1:]:
            c.head = kids[0]

    def model(s):
        for w in s.words:
            if w.deprel == 'cop':
                c = w.head
                if c.lemma in ('ser', 'estar'):
                    w.head, w.deprel = c.head, c.deprel
                    for x in s.kids(c):
                        if x is not w:
                            x.head = w
                    c.head, c.deprel = w, 'cop'
                else:
                    w.deprel = 'xcomp'
            if w.deprel == 'case' and s.kids(w):
                if w.upos in ('ADP', 'CONJ', 'PART'):
                    invert(s, w)
                else:
                    w.misc['ToDo'] = 'case-upos'
            if w.deprel == 'punct' and w.upos == 'PUNCT' and s.kids(w):
                invert(s, w)
    judge(g, GlTo2(), docs(g, lambda: gen(g, word, edges=0, empties=0.2, mwts=0.2)), model)


def t_da(g):
    shape = g.choice(['xcomp', 'advcl', 'amod'])

    def word(i, h):
        return dict(form=g.weighted([(5, 'a'), (1, ',')]), deprel=g.weighted([(5, g.choice(['nsubj', 'nsubj', 'csubj', 'nsubj:pass'])), (2, shape), (1, g.choice(['xcomp', 'advcl', 'amod', 'obl', 'obl:x'])), (2, 'cop'), (1, 'punct')]))

    def model(s):
        pos = {id(w): i for i, w in enumerate(s.words)}

        def dist(a, b):
            i, j = sorted((pos[id(a)], pos[id(b)]))
            return j - i + 10 * sum(x.form == ',' for x in s.words[i + 1:j])
        for w in s.words:
            kids = s.kids(w)
            subj = [c for c in kids if c.u in ('nsubj', 'csubj')]
            if len(subj) != 2:
                continue
            by = lambda *rels: [c for c in kids if c.u in rels]
            if by('xcomp'):
                cands, loose = by('xcomp'), True
            elif by('advcl'):
                cands, loose = by('advcl'), False
            else:
                cands, loose = [c for c in by('amod', 'obl') if any(x.u == 'cop' for x in s.kids(c))], False
            for p in cands:
                if loose:
                    nearer = [dist(p, x) <= dist(w, x) for x in subj]
                    away = [dist(w, x) <= dist(p, x) for x in subj]
                else:
                    nearer = [dist(p, x) < dist(w, x) for x in subj]
                    away = [dist(w, x) < dist(p, x) for x in subj]
                mine = subj[0] if nearer[0] and away[1] else subj[1] if nearer[1] and away[0] else None
                if mine is None:
                    continue
                mine.head = p
                if p.u != 'advcl':
                    for c in s.kids(w):
                        if c is not p and dist(p, c) < dist(w, c):
                            c.head = p
                if p.u == 'xcomp':
                    p.misc['ToDo'] = 'check-xcomp'
                else:
                    p.deprel = 'advcl'
                break
    judge(g, FixMultiSubject(), docs(g, lambda: gen(g, word, edges=0, empties=0.2, mwts=0.2)), model)


def t_elque(g):
    ca = g.bool(0.4)
    fix = g.bool(0.75)
    free = g.bool(0.6)

    def word(i, h):
        form = g.choice(['en', 'en', 'el', 'el', 'el', 'que', 'que', 'que', 'cual', 'vive', 'y']) if free else ['y', 'en', 'el', g.choice(['que', 'que', 'cual']), 'vive', 'en', 'el'][i % 7]
        upos = {'en': 'ADP', 'el': 'DET', 'que': g.weighted([(5, 'PRON'), (1, 'SCONJ')]), 'cual': 'PRON', 'vive': 'VERB', 'y': g.choice(['CCONJ', 'ADP'])}[form]
        return dict(form=form, lemma=form, upos=upos, deprel=g.choice(['case', 'fixed', 'fixed:x']) if form == 'en' and g.bool() else g.choice(['case', 'fixed', 'fixed:x', 'advcl:x', 'conj:y', 'nsubj:z', 'det', 'nsubj', 'csubj', 'ccomp', 'advcl', 'acl', 'acl:relcl', 'xcomp', 'conj', 'appos', 'cc', 'mark', 'punct', 'obj', 'csubj:pass', 'mark:x']))

    def attach(w, head, rel=None):
        check(not under(head, w), 'the model is wrong: a cycle')
        w.head = head
        w.deprel = rel or w.deprel
        if len(w.edges) == 1:
            w.edges = [(head, rel or w.edges[0][1])]

    def model(s):
        lines = []
        pos = {id(w): i for i, w in enumerate(s.words)}
        for i, que in enumerate(s.words):
            verb = que.head
            if que.lemma not in (('que',) if ca else ('que', 'cual')) or que.upos != 'PRON' or verb is None or pos[id(verb)] < i or not i or s.words[i - 1].lemma != 'el':
                continue
            el = s.words[i - 1]
            adp = s.words[i - 2] if i > 1 and s.words[i - 2].upos == 'ADP' else None
            if adp is not None and adp.u == 'fixed':
                adp = adp.head
            if not fix:
                def name(x, *names):
                    return next((n for y, n in names if x.head is y and x.head is not None), 'OTHER')
                parts = [f"{adp.deprel}({name(adp, (el, 'el'), (que, 'que'), (verb, 'VERB'))}, ADP)"] if adp is not None else []
                parts.append(f"{el.deprel}({name(el, (adp, 'ADP'), (que, 'que'), (verb, 'VERB'))}, el)")
                parts.append(f"{que.deprel}(VERB, que)")
                parts.append(f"{verb.deprel}({name(verb, (adp, 'ADP'), (el, 'el'))}, VERB)")
                lines.append('; '.join(parts))
                continue
            if adp is not None and adp.head in (que, verb) and not under(el, adp):
                attach(adp, el, 'case')
            if el.head is que:
                attach(el, verb)
            if not any(verb.head is x for x in (adp, el, que) if x is not None):
                rel = {'nsubj': 'nsubj', 'csubj': 'nsubj', 'ccomp': 'obj', 'advcl': 'obl', 'acl': 'nmod'}.get(verb.u, verb.deprel if verb.u in ('xcomp', 'conj', 'appos', 'root') else None)
                if rel and not under(verb, el):
                    attach(el, verb.head, rel)
                    attach(verb, el, 'acl:relcl')
                    for c in s.kids(verb):
                        if pos[id(c)] < pos[id(el)] and c.u in ('cc', 'mark', 'case', 'punct'):
                            attach(c, el)
        return lines
    judge(g, (CaElQue if ca else EsElQue)(**(dict(fix=1) if fix else {})), docs(g, lambda: gen(g, word, edges=0.4, empties=0.2, mwts=0.2)), model, ' fix' if fix else '', printed=not fix)


def f_trees(g):
    g.choice([t_tener, t_gl, t_da, t_elque, t_elque])(g)


# ---------------------------------------------------------------- tokens
HDT = {'am': ('an', 'dem'), 'a.': ('an', 'dem'), 'ans': ('an', 'das'), 'aufs': ('auf', 'das'), 'beim': ('bei', 'dem'), 'durchs': ('durch', 'das'), 'fürs': ('für', 'das'), 'hinterm': ('hinter', 'dem'),
       'hinters': ('hinter', 'das'), 'im': ('in', 'dem'), 'ins': ('in', 'das'), 'übers': ('über', 'das'), 'ums': ('um', 'das'), 'unterm': ('unter', 'dem'), 'unters': ('unter', 'das'), 'vom': ('von', 'dem'),
       'vorm': ('vor', 'dem'), 'vors': ('vor', 'das'), 'z.': ('zu', 'dem'), 'zum': ('zu', 'dem'), 'zur': ('zu', 'der')}
ARTICLE = {'dem': dict(Case='Dat', Gender='Masc,Neut'), 'das': dict(Case='Acc', Gender='Neut'), 'der': dict(Case='Dat', Gender='Fem')}


def t_hdt(g):
    def word(i, h):
        form = g.weighted([(6, g.choice(list(HDT))), (1, g.choice(['an', 'zumm', 'beims', 'xim', 'zu']))])
        f = {'PronType': 'Art'} if g.bool(0.8) else {}
        if g.bool(0.3):
            f['Case'] = 'Gen'
        m = {}
        if g.bool(0.3):
            m['SpaceAfter'] = 'No'
        if g.bool(0.3):
            m['Id'] = '7'
        return dict(form=g.weighted([(3, form), (1, form.capitalize()), (1, form.upper())]), upos=g.weighted([(5, 'ADP'), (1, 'DET')]), feats=f, misc=m,
                    deprel=g.choice(['case', 'mark', 'conj', 'reparandum', 'nmod', 'conj:x', 'dep']))

    def model(s):
        for w in list(s.words):
            low = w.form.lower()
            if w.upos != 'ADP' or w.feats.get('PronType') != 'Art' or low not in HDT:
                continue
            p, a = HDT[low]
            upper = w.form.upper() == w.form
            art = W(form=a.upper() if upper else a, lemma='der', upos='DET', xpos='ART', feats=dict(ARTICLE[a], Definite='Def', Number='Sing', PronType='Art'), deprel='det', head=w)
            if w.u not in ('root', 'conj', 'reparandum'):
                art.head, w.deprel = w.head, 'case'
            s.words.insert(s.words.index(w) + 1, art)
            s.mwts.append(([w, art], w.form, dict(w.misc)))
            w.misc.pop('SpaceAfter', None)
            w.form = p.upper() if upper else p.capitalize() if w.form[0].isupper() else p
            w.lemma, w.xpos, w.feats = p, 'APPR', {'AdpType': 'Prep', 'Case': ARTICLE[a]['Case']}
    judge(g, FixHDT(), docs(g, lambda: gen(g, word, edges=0)), model)


def t_mr(g):
    """Two- and three-word tokens of a stem and postpositions."""
    def word(i, h):
        return dict(form=g.weighted([(4, '_'), (1, 'f')]), lemma=g.choice(['चा', 'चा', 'ची', 'च्या', 'वरती', 'ने', 'मध्ये', 'घर']), upos=g.weighted([(4, 'ADP'), (2, 'PART'), (3, 'NOUN')]))

    def make():
        s = gen(g, word, edges=0, lo=2)
        i = 0
        while i < len(s.words) - 1:
            k = g.weighted([(4, 2), (3, 3), (1, 4)])
            ws = s.words[i:i + k]
            if len(ws) > 1 and g.bool(0.8):
                stem = g.choice(['घरा', 'माझ', 'तुझ', 'आपल', 'त्या', 'च'])
                mid = g.choice(['चा', 'ची', 'चे', 'च्या', 'चं', 'ा', 'ी', 'े', '्या', 'वर', 'वरती', 'ने', ws[1].lemma, ''])
                s.mwts.append((ws, stem + mid + (g.choice(['ने', 'मध्ये', 'चा', '']) if len(ws) > 2 else g.choice(['', '', '', '', 'ने']))))
            else:
                ws = ws[:1]
            i += len(ws)
        return s
    poss = ['चा', 'ची', 'चे', 'च्या', 'चं']
    vowels = ['ा', 'ी', 'े', '्या']

    def pieces(form, three):
        """[stem, case, rest] with the longest possible stem."""
        for k in range(len(form) - 1, 0, -1):
            for p in poss:
                if form[k:].startswith(p) and (len(form) > k + len(p) if three else form[k:] == p):
                    return [form[:k], p] + [form[k + len(p):]] * three
        for p in ('माझ', 'तुझ', 'आपल'):
            for v in vowels:
                if form.startswith(p + v) and (len(form) > len(p + v) if three else form == p + v):
                    return [p, 'च' + v] + [form[len(p + v):]] * three
        return None

    def model(s):
        for ws, form, *_ in s.mwts:
            post = [w.upos in ('ADP', 'PART') for w in ws]
            if len(ws) == 2 and post[1]:
                missing = any(w.form == '_' for w in ws)
                lemma = ws[1].lemma
                if lemma in ('चा', 'ची'):
                    if missing:
                        ws[1].lemma = 'चा'
                    p = pieces(form, False)
                elif lemma == 'वरती':
                    p = next(([form[:-len(x)], x] for x in ('वर', 'वरती') if form.endswith(x) and len(form) > len(x)), None)
                else:
                    p = [form[:-len(lemma)], lemma] if form.endswith(lemma) and len(form) > len(lemma) else None
            elif len(ws) == 3 and post[1] and post[2] and ws[1].lemma in ('चा', 'च्या'):
                p = pieces(form, True)
                if p and ws[1].form == '_':
                    ws[1].lemma = 'चा'
            else:
                p = None
            for w, f in zip(ws, p or []):
                if w.form == '_':
                    w.form = f
    judge(g, AddFormsInMwt(), docs(g, make), model)


def t_tutorial(g):
    kind = g.choice(['articles', 'commas', 'commas', 'adpositions'])
    lang = g.choice([None, 'cs'])

    def word(i, h):
        return dict(form=g.choice(['however', 'dog', ',']), lemma=g.choice(['however', 'dog', 'l']), upos=g.choice(['NOUN', 'ADP', 'PROPN', 'VERB']), deprel=g.choice(['appos', 'appos', 'nsubj', 'appos:x']))

    def new(**kw):
        return W(**dict(dict(lemma='_', upos='_'), **kw))

    def articles(s):
        for w in list(s.words):
            if w.upos == 'NOUN':
                first = next(i for i, x in enumerate(s.words) if under(x, w))
                s.words.insert(first, new(form='the', lemma='the', upos='DET', deprel='det', head=w))

    def commas(s):
        old = list(s.words)
        for i, w in enumerate(old):
            if i and (lang is None and old[i - 1].lemma == 'however' or any(c.deprel == 'appos' for c in s.kids(old[i - 1]))):
                s.words.insert(next(k for k, x in enumerate(s.words) if x is w), new(form=',', upos='PUNCT', deprel='punct', head=w))
    if kind == 'articles':
        judge(g, AddArticles(), docs(g, lambda: gen(g, word, edges=0)), articles)
    elif kind == 'commas':
        judge(g, AddCommas(**({'language': lang} if lang else {})), docs(g, lambda: gen(g, word, edges=0)), commas, f' {lang}')
    else:
        seen = []

        def adpositions(s):
            seen.extend(w for w in s.words if w.upos == 'ADP')
        ds = docs(g, lambda: gen(g, word, edges=0, empties=0.2, mwts=0.2))[:1]
        judge(g, Adpositions(), ds, adpositions)
        ds2 = docs(g, lambda: gen(g, word, edges=0))[:1]
        out = run_block(Adpositions(), load(''.join(s.ser() for s in ds2[0])))
        eq(out, 'prepositions %5.1f%%, postpositions   0.0%%\n' % (100 * any(w.upos == 'ADP' for s in ds2[0] for w in s.words)), 'tutorial.Adpositions')


def f_tokens(g):
    g.weighted([(3, t_hdt), (3, t_mr), (2, t_tutorial)])(g)


FACETS = {
    'words': facet(f_words, 6000),
    'trees': facet(f_trees, 8000),
    'tokens': facet(f_tokens, 5000),
}

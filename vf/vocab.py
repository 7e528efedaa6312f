"""Words, relations and features which a block mentions (only to generate inputs on which it has something to do)."""
import ast
import functools
import inspect
import random
import re
import sys
try:
    import re._parser as sre
except ImportError:
    import sre_parse as sre

UPOS = set('ADJ ADP ADV AUX CCONJ DET INTJ NOUN NUM PART PRON PROPN PUNCT SCONJ SYM VERB X CONJ'.split())
UDEP = set('acl advcl advmod amod appos aux case cc ccomp clf compound conj cop csubj dep det discourse dislocated expl fixed flat goeswith iobj list mark '
           'nmod nsubj nummod obj obl orphan parataxis punct reparandum root vocative xcomp dobj nsubjpass csubjpass auxpass mwe name foreign neg remnant'.split())


def sample(pattern, rnd):
    """A string (probably) matching a regular expression."""
    def go(items):
        out = ''
        for op, arg in items:
            op = str(op)
            if op == 'LITERAL':
                out += chr(arg)
            elif op == 'NOT_LITERAL':
                out += 'a' if arg != ord('a') else 'b'
            elif op == 'IN':
                o, a = rnd.choice([x for x in arg if str(x[0]) != 'NEGATE'] or [('LITERAL', 97)])
                if str(arg[0][0]) == 'NEGATE':
                    out += 'a'
                elif str(o) == 'LITERAL':
                    out += chr(a)
                elif str(o) == 'RANGE':
                    out += chr(rnd.randint(a[0], a[1]))
                else:
                    out += '1' if 'DIGIT' in str(a) else 'a'
            elif op == 'ANY':
                out += 'a'
            elif op == 'BRANCH':
                out += go(rnd.choice(arg[1]))
            elif op == 'SUBPATTERN':
                out += go(arg[-1])
            elif op in ('MAX_REPEAT', 'MIN_REPEAT', 'POSSESSIVE_REPEAT'):
                lo, hi, sub = arg
                for _ in range(rnd.randint(lo, min(int(hi), lo + 2))):
                    out += go(sub)
        return out
    return go(sre.parse(pattern))


def strings(cls):
    """All string constants of the modules which define the class and its bases."""
    out = []
    for c in cls.__mro__:
        if not c.__module__.startswith('udapi.block.'):
            continue
        try:
            tree = ast.parse(inspect.getsource(sys.modules[c.__module__]))
        except (OSError, SyntaxError):
            continue
        docs = {id(n.body[0].value) for n in ast.walk(tree) if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef)) and n.body and isinstance(n.body[0], ast.Expr)}
        out += [n.value for n in ast.walk(tree) if isinstance(n, ast.Constant) and isinstance(n.value, str) and id(n) not in docs]
    return sorted(set(out))


@functools.lru_cache(None)
def vocabulary(cls):
    """dict(words=, deprels=, upos=, feats=, edeps=) of sorted lists."""
    rnd = random.Random(7)
    words, deprels, upos, feats = set(), set(), set(), set()
    for s in strings(cls):
        variants = [s]
        if re.search(r'[\[\]()^$*+?|\\]', s) and len(s) < 3000:
            try:
                variants = [sample(s, rnd) for _ in range(6)]
            except Exception:       # not a regular expression
                variants = [s]
        for v in variants:
            if not v or len(v) > 40 or any(c in '\t\n%{}' for c in v):
                continue
            if v in UPOS:
                upos.add(v)
            elif v.split(':')[0] in UDEP:
                deprels.add(v)
            elif re.fullmatch(r'[A-Z][A-Za-z0-9]*', v) and v.isascii():
                feats.add(v)
                words.add(v)
            else:
                for w in v.split():
                    if len(w) <= 20:
                        words.add(w)
    return dict(words=sorted(words), deprels=sorted(deprels), upos=sorted(upos), feats=sorted(feats))

"""C23: scenarios run their blocks in order with the given parameters."""
import io
import os
import re
import subprocess
import sys
import tempfile
from types import SimpleNamespace
from vf.engine import check, eq, Violation, assume
from vf.gens import *
from vf.util import facet
from vf.blocks import rec
import udapi
from udapi.core.run import Run, create_block
from udapi.core.document import Document

RULE = ('in-process scenarios of 1-6 recording blocks with random parameter strings and 1-3 readers of 1-5 rounds, compared with a model of the call log; '
        'command lines (bin/udapy as a subprocess) over files or standard input with shortcut options, compared with applying the blocks one by one through the API; '
        'command lines with one planted failure; non-trivial = at least two blocks; distinct by command line')
ASSUMPTIONS = ['numbers are strings of ASCII digits', 'recorded blocks are imported as private modules (leading dot)']
REPO = os.path.dirname(os.path.dirname(os.path.abspath(udapi.__file__)))
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def gen_value(g):
    """(written value, expected value)"""
    s = g.choice(['1', '0', '42', '007', '12345678901234567890', '-1', '+3', '1.5', '1e3', '', 'x', 'a=b', '=', 'a==b', '1=2', 'True', 'None', '0x1', ' 5', '5 ', 'node.form = "_"', 'a b', 'a,b',
                  '!x*', '1_000', '²', 'é', "it's", '"q"', 'x.y', '.', 'form,lemma', 'ID=5', '५x', '10', '9'])
    return s, int(s) if re.fullmatch('[0-9]+', s) else s


def f_parse(g):
    n = g.int(1, 6) if g.bool(0.93) else g.int(10, 12)
    blocks = []
    toks = []
    for i in range(n):
        reader = g.bool(0.35)
        name = 'RecReader' if reader else 'Rec'
        toks.append('.vf.blocks.' + name)
        kw = {}
        if reader:
            kw['rounds'] = 1
            if g.bool(0.8):
                kw['rounds'] = g.int(1, 5) if g.bool(0.95) else g.int(10, 12)
                toks.append(f'rounds={kw["rounds"]}')
        for _ in range(g.int(0, 3)):
            k = g.choice(['a', 'b', 'param_x', 'node', 'files', 'zones', 'A', 'é'])
            s, v = gen_value(g)
            toks.append(f'{k}={s}')
            kw[k] = v
        blocks.append((name, kw))
    fail = None
    if g.bool(0.2):
        fail = (g.int(0, n - 1), g.int(1, 3))
        # the parameter goes right behind the name of the block
        at = [i for i, t in enumerate(toks) if t.startswith('.vf.')][fail[0]]
        toks.insert(at + 1, f'fail={fail[1]}')
        blocks[fail[0]][1]['fail'] = fail[1]
    if not any(nm == 'RecReader' for nm, _ in blocks):
        toks.append('.vf.blocks.RecReader')
        blocks.append(('RecReader', {'rounds': 1}))
        n += 1
    g.note(toks, nontrivial=n > 1)
    rounds = max(kw['rounds'] for nm, kw in blocks if nm == 'RecReader')
    want = [('new', i, nm, kw) for i, (nm, kw) in enumerate(blocks)]
    want += [('start', i) for i in range(n)]
    failed = False
    for r in range(rounds):
        for i in range(n):
            want.append(('before', i, r))
            if blocks[i][1].get('fail') == r + 1 and fail:
                failed = True
                break
            want.append(('doc', i, r, list(range(i))))
            want.append(('after', i, r))
        if failed:
            break
    if not failed:
        want += [('end', i) for i in range(n)]
    rec.LOG.clear()
    rec.DOCS.clear()
    given = list(toks)
    got = None
    try:
        got = Run(SimpleNamespace(scenario=toks)).execute()
    except ValueError as e:
        check('planned' in str(e) and failed, f'unexpected error {e}')
    eq(toks, given, 'the scenario given was changed')
    eq([(e[0], e[1], e[2], dict(e[3])) if e[0] == 'new' else e for e in rec.LOG], want, 'calls')
    if not failed:
        eq([b.no for _, b, *_ in got], list(range(n)), 'returned blocks')
    rec.LOG.clear()
    rec.DOCS.clear()


def f_errors(g):
    """Errors are found when the scenario is created, before any document is touched."""
    kw = {}
    toks = []
    pre = [['.vf.blocks.Rec'], ['.vf.blocks.Rec', 'a=1']]
    for _ in range(g.int(0, 2)):
        toks += g.choice(pre)
    case = g.int(0, 5)
    exp = Exception
    if case == 0:
        toks.append(g.choice(['util.NoSuchBlock', 'nosuchpackage.Block', 'nosuch.pack.Block', '.vf.blocks.Nothing', 'read.Conlluu', 'Nothing']))
        exp = (ImportError, SyntaxError)
    elif case == 1:
        toks += ['.vf.blocks.Strict'] + g.perm([g.choice(['gamma=1', 'Alpha=2', 'alpha_=', 'zone=en', 'x=1=2'])] + g.choice([[], ['alpha=3'], ['beta=y']]))
        exp = TypeError
    elif case == 2:
        toks = [g.choice(['a=1', 'files=x', '=', 'a=b=c'])] + toks
        exp = RuntimeError
    elif case == 3:
        toks = []
        exp = ValueError
    elif case == 4:
        toks += [g.choice(['write.Conllu', 'read.Conllu', 'util.Eval', 'ud.FixPunct', 'transform.Flatten']), g.choice(['nonsense=1', 'nonsense=x', 'Files=a'])]
        exp = TypeError
    else:
        toks = ' '.join(toks + ['.vf.blocks.Rec'])   # not a list
        exp = TypeError
    g.note(toks, nontrivial=len(toks) > 1)
    tail = g.choice([[], ['.vf.blocks.Rec']])
    if isinstance(toks, list) and toks:
        toks = toks + tail
    rec.LOG.clear()
    rec.DOCS.clear()
    try:
        Run(SimpleNamespace(scenario=toks)).execute()
    except exp:
        pass
    except Exception as e:
        raise Violation(f'unexpected error {e!r}')
    else:
        raise Violation('no error')
    check(all(e[0] == 'new' for e in rec.LOG), 'a block was run')
    rec.LOG.clear()


# ------------------------------------------------------------------ blocks through the API

def f_create(g):
    """create_block gives the class with the parameters; scenario parameters are the same as keyword arguments."""
    kw = {}
    toks = ['.vf.blocks.Strict']
    for k in ('alpha', 'beta', 'zones', 'if_empty_tree'):
        if g.bool(0.6):
            s, v = gen_value(g)
            if k == 'zones':
                s = v = g.choice(['all', 'en', '', 'en,cs'])
            if k == 'if_empty_tree':
                s = v = g.choice(['skip', 'process', 'delete'])
            kw[k] = v
            toks.append(f'{k}={s}')
    g.note((toks, kw), nontrivial=len(kw) > 1)
    b = create_block('.vf.blocks.Strict', **kw)
    c = [x for x in Run(SimpleNamespace(scenario=['.vf.blocks.RecReader'] + toks)).execute()][1][1]
    rec.LOG.clear()
    rec.DOCS.clear()
    from vf.blocks.strict import Strict
    for x in (b, c):
        check(type(x) is Strict, 'class')
        eq((x.alpha, x.beta, x.zones, x.if_empty_tree), (kw.get('alpha', 1), kw.get('beta', 'x'), kw.get('zones', 'all'), kw.get('if_empty_tree', 'process')), 'parameters')


# ------------------------------------------------------------------ command line

def gen_input(g, k=None):
    out = ''
    k = k or g.int(1, 4)
    for i in range(k):
        s = gen_sentence(g, nmax=4, odd=0.1)
        s['comments'] = (['# newdoc'] if g.bool(0.2) else []) + [f'# sent_id = s{i + 1}'] + ([f'# text = some text {i}'] if g.bool(0.5) else [])
        if g.bool(0.2):
            for w in s['words']:
                w['misc'] = 'Mark=1'
        out += ser_sentence(s)
    return out


def block_pool():
    from udapi.block.util.eval import Eval
    from udapi.block.util.normalize import Normalize
    from udapi.block.util.wc import Wc
    from udapi.block.util.see import See
    from udapi.block.util.filter import Filter
    from udapi.block.transform.flatten import Flatten
    from udapi.block.transform.proj import Proj
    from udapi.block.ud.setspaceafterfromtext import SetSpaceAfterFromText
    from udapi.block.write.sentences import Sentences
    from udapi.block.write.conllu import Conllu
    from udapi.block.write.textmodetrees import TextModeTrees
    return [
        ('util.Eval', Eval, [{'node': 'node.form += "=x"'}, {'node': 'print(node.form)'}, {'tree': 'print(len(tree.descendants))', 'end': 'print("end")'}, {'doc': 'print(len(doc.bundles))'},
                             {'start': 'self.a = 5', 'node': 'node.lemma = str(self.a); self.a += 1'}, {'node': 'count_$.upos += 1', 'end': 'print(sorted((str(k), v) for k, v in self.count.items()))'},
                             {'node': 'node.misc["K"] = "1=2"', 'zones': 'all'}]),
        ('util.Normalize', Normalize, [{}, {'feats': 0}, {'sent_id_prefix': 'p-'}]),
        ('util.Wc', Wc, [{}, {'tsv': 1}]),
        ('util.Filter', Filter, [{'keep_tree_if_node': 'node.upos=="NOUN"'}, {'delete_tree': 'len(tree.descendants) == 1'}]),
        ('transform.Flatten', Flatten, [{}]),
        ('transform.Proj', Proj, [{}]),
        ('write.Sentences', Sentences, [{}, {'if_missing': 'empty'}]),
        ('write.Conllu', Conllu, [{}, {'print_sent_id': 0}, {'print_text': 0, 'print_sent_id': 0}]),
        ('write.TextModeTrees', TextModeTrees, [{}, {'color': 1, 'attributes': 'form,ord'}]),
    ]


SHORT = {'s': ('write.Conllu', {}), 'T': ('write.TextModeTrees', {'color': 1}), 'H': ('write.TextModeTreesHtml', {'color': 1})}
ADD = {'A': ('attributes', 'form,lemma,upos,xpos,feats,deprel,misc'), 'C': ('print_comments', 1), 'M': ('marked_only', 1), 'N': ('color', 0)}


def udapy(args, stdin, cwd, timeout=120):
    env = dict(os.environ, PYTHONPATH=REPO + ':' + VERIF, PYTHONUTF8='1', PYTHONDONTWRITEBYTECODE='1', COLUMNS='80')
    p = subprocess.run([sys.executable, '-W', 'ignore', os.path.join(REPO, 'bin', 'udapy')] + args, input=stdin.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=env, timeout=timeout)
    return p.returncode, p.stdout.decode(), p.stderr.decode()


def api_run(reader_kw, docs_text, steps, cwd):
    """Apply the blocks one by one to every document which the reader delivers; docs_text is None or the standard input."""
    from udapi.block.read.conllu import Conllu as R
    from udapi.block.write.conllu import Conllu as W
    from udapi.block.write.textmodetrees import TextModeTrees
    from udapi.block.write.textmodetreeshtml import TextModeTreesHtml
    extra = {'write.Conllu': W, 'write.TextModeTrees': TextModeTrees, 'write.TextModeTreesHtml': TextModeTreesHtml}
    fh = io.StringIO()
    old = os.getcwd()
    os.chdir(cwd)
    try:
        with stdout_to(fh):
            if docs_text is not None:
                docs = [Document()]
                R(filehandle=io.StringIO(docs_text)).apply_on_document(docs[0])
                docs[0].meta['loaded_from'] = '-'
            else:
                docs = list(R(**reader_kw).read_documents())
            blocks = [(cls or extra[name])(**kw) for name, cls, kw in steps]
            for b in blocks:
                b.process_start()
            for d in docs:
                for b in blocks:
                    b.before_process_document(d)
                    b.process_document(d)
                    b.after_process_document(d)
            for b in blocks:
                b.process_end()
    finally:
        os.chdir(old)
    return fh.getvalue()


def gen_command(g, d):
    """Returns (arguments of udapy, steps for the API, reader options or None, standard input)."""
    reader_kw, stdin = None, ''
    scen = []
    if g.bool(0.6):
        names = [f'f{i}.conllu' for i in range(g.int(1, 3))]
        for nm in names:
            with open(os.path.join(d, nm), 'w') as f:
                f.write(gen_input(g))
        reader_kw = {'files': ','.join(names)}
        if g.bool(0.3):
            reader_kw['bundles_per_doc'] = g.int(1, 2)
        elif g.bool(0.2):
            reader_kw['split_docs'] = 1
        if g.bool(0.1):
            reader_kw['files'] = '!f*.conllu'
        scen = ['read.Conllu'] + [f'{k}={v}' for k, v in reader_kw.items()]
    else:
        stdin = gen_input(g)
    steps = []
    for _ in range(g.int(0 if scen else 1, 3)):
        name, cls, kws = g.choice(block_pool())
        kw = g.choice(kws)
        steps.append((name, cls, dict(kw)))
        scen.append(name)
        scen += [f'{k}={v}' for k, v in kw.items()]
    opts = []
    main = g.choice([None, 's', 's', 'T', 'H', 'sT'])
    if main:
        for c in main:
            steps.append((SHORT[c][0], None, dict(SHORT[c][1])))
        flags = main
        if main[-1] in 'TH':
            for c in 'ACMN':
                if g.bool(0.35):
                    steps[-1][2][ADD[c][0]] = ADD[c][1]
                    flags += c
        flags = ''.join(g.perm(list(flags)))
        if g.bool(0.6):
            opts.append('-' + flags)
        else:
            opts += ['-' + c for c in flags]
        if g.bool(0.3):
            if main[-1] in 'TH':
                for k, v in g.subset([('layout', 'align'), ('attributes', 'form,ord'), ('print_sent_id', 0), ('indent', 2)], 0.5, 1):
                    opts += ['-X', f'{k}={v}']
                    steps[-1][2][k] = v
            else:
                opts += ['-X', 'print_sent_id=0']
                steps[-1][2]['print_sent_id'] = 0
        if g.bool(0.15):
            opts += ['-X', 'util.Wc', '--extra', 'tsv=1']
            steps.append(('util.Wc', [b for b in block_pool() if b[0] == 'util.Wc'][0][1], {'tsv': 1}))
    if g.bool(0.7):
        opts.insert(g.int(0, len(opts)) if not any('X' in o or 'extra' in o for o in opts) else 0, g.choice(['-q', '--quiet', '-q', '--gc', '-v']))
    return opts + scen, steps, reader_kw, stdin


LONG = {'-s': '--save', '-T': '--save_text_mode_trees', '-H': '--save_html', '-A': '--save_all_attributes', '-C': '--save_comments', '-M': '--marked_only', '-N': '--no_color'}


def f_cli(g):
    with tempfile.TemporaryDirectory() as d:
        args, steps, reader_kw, stdin = gen_command(g, d)
        args = [LONG[a] if a in LONG and g.bool(0.3) else a for a in args]
        assume(steps)
        g.note((args, stdin), nontrivial=len(steps) > 1)
        want = api_run(reader_kw, None if reader_kw else stdin, steps, d)
        code, out, err = udapy(args, stdin, d)
        eq(out, want, 'output of udapy')
        eq(code, 0, 'exit status; ' + err[-300:])


FAILURES = [
    (['util.NoSuchBlock'], 0), (['nosuch.Block'], 0), (['util.Eval', 'nonsense=1'], 0), (['write.Conllu', 'nonsense=x'], 0), (['util.Eval', 'node=1/0'], 1), (['util.Eval', 'tree=raise ValueError("x")'], 1),
    (['util.Eval', 'start=1/0'], 0), (['util.Eval', 'end=1/0'], 2), (['util.Eval', 'doc=import sys; sys.exit(2)'], 1), (['util.Eval', 'node=nosuchname'], 1), (['util.Eval', 'doc=raise KeyboardInterrupt'], 1),
    (['read.Conllu', 'files=nosuchfile.conllu'], 0), (['write.Conllu', 'files=a.conllu', 'overwrite=1'], 0), (['util.Eval', 'doc=import sys; sys.exit("message")'], 1),
    (['util.Filter', 'zones=all', 'if_empty_tree=fail'], None), (['write.Sentences', 'if_missing=fatal'], None), (['util.Eval', 'end=import sys; sys.exit(1)'], 2),
    (['util.Eval', 'node=syntax error here'], 1),
]


def f_failure(g):
    """A failure anywhere gives a non-zero exit status and a message, with what had been written before kept."""
    with tempfile.TemporaryDirectory() as d:
        with open(os.path.join(d, 'in.conllu'), 'w') as f:
            f.write(''.join(f'# sent_id = s{i}\n# text = w{i}\n1\tw{i}\t_\tX\t_\t_\t0\troot\t_\t_\n\n' for i in range(3)))
        bad, stage = g.choice(FAILURES[:14] + FAILURES[16:])
        scen = ['read.Conllu', 'files=in.conllu', 'bundles_per_doc=1', 'util.Eval', 'tree=print(tree.sent_id)']
        k = g.choice([1, 2, 3])
        late = False
        if stage == 1 and k > 1:
            # fails only in a later round
            late = True
            key, code = bad[1].split('=', 1)
            if 'syntax' not in code:
                bad = [bad[0], 'doc=if doc.bundles[0].bundle_id == "s%d": %s' % (k - 1, code.replace('import sys; sys', '__import__("sys")'))]
            else:
                late = False
        opts = [o for o in ['-q', '--gc', '-s'] if g.bool(0.4)]
        before = g.bool()
        args = opts + (scen + bad if before else scen[:3] + bad + scen[3:])
        g.note(args, nontrivial=True)
        code, out, err = udapy(args, '', d)
        check(code != 0, f'exit status {code} after a failure')
        if 'read.Conllu' != bad[0] and stage == 1:
            lines = [l for l in out.split('\n') if l.startswith('s')]
            rounds = k if late else 1
            eq(lines, [f's{i}' for i in range(rounds if before else rounds - 1)], 'output before the failure')
        if stage == 0:
            check('read.Conllu' == bad[0] or not out, 'output before the blocks are created')
        if not any('exit(' in x for x in bad):
            check(err.strip() != '', 'no message')


FACETS = {
    'parse': facet(f_parse, 12000),
    'errors': facet(f_errors, 2000),
    'create': facet(f_create, 1500),
    'cli': facet(f_cli, 800),
    'failure': facet(f_failure, 160),
}

"""C22: writers put each document exactly where the options say and nowhere else."""
import copy
import io
import os
import shutil
import sys
import tempfile
from types import SimpleNamespace
from vf.engine import check, eq, Violation, assume
from vf.gens import *
from vf.util import facet
from udapi.block.write.conllu import Conllu
from udapi.block.write.sentences import Sentences
from udapi.block.write.sentenceshtml import SentencesHtml
from udapi.block.write.textmodetrees import TextModeTrees
from udapi.block.write.html import Html
from udapi.block.write.tikz import Tikz
from udapi.block.write.treex import Treex
from udapi.core.run import Run

RULE = ('0-4 (sometimes 10-12) documents x output options (standard output, file lists, file handle, docname_as_file, overwrite, path patterns, newline, encoding) x writer classes, '
        'applied through the API or a scenario (also with two writers and an evaluation block printing in between), in a scratch directory whose whole content is compared '
        'with a model before and after, also when an error is raised; non-trivial = at least one document goes to a file; distinct by options and documents')
ASSUMPTIONS = ['a writer runs under the standard output under which it was created', 'path patterns have a star instead of the whole directory, name or extension',
               'several documents for one file handle, docname_as_file together with path, and documents read in parts from one file with overwrite or path are not judged']
WRITERS = {'Conllu': Conllu, 'Sentences': Sentences, 'SentencesHtml': SentencesHtml, 'TextModeTrees': TextModeTrees, 'Html': Html, 'Tikz': Tikz, 'Treex': Treex}


class Scratch:
    def __enter__(self):
        self.cwd = os.getcwd()
        self.dir = os.path.realpath(tempfile.mkdtemp())
        os.chdir(self.dir)
        return self

    def __exit__(self, *a):
        os.chdir(self.cwd)
        shutil.rmtree(self.dir)

    def put(self, name, data):
        os.makedirs(os.path.dirname(os.path.abspath(name)), exist_ok=True)
        with open(name, 'wb') as f:
            f.write(data)

    def state(self):
        out = {}
        for d, _, fs in os.walk(self.dir):
            for f in fs:
                p = os.path.join(d, f)
                with open(p, 'rb') as h:
                    out[os.path.relpath(p, self.dir)] = h.read()
        return out


class Keep(io.StringIO):
    def close(self):
        if not self.closed:
            self.value = self.getvalue()
        super().close()


def gen_docs(g, lo=0):
    n = g.int(lo, 4) if g.bool(0.95) else g.int(10, 12)
    docs = []
    for i in range(n):
        doc = new_doc()
        for b in range(g.int(0 if g.bool(0.1) else 1, 2)):
            t = doc.create_bundle().create_tree(g.choice(['', '', 'en']))
            for w in range(g.int(0 if g.bool(0.1) else 1, 3)):
                t.create_child(form=g.choice([f'd{i}', 'ab', 'é', 'x']), deprel='dep', lemma='l', upos='X', xpos='x')
        docs.append(doc)
    return docs


def reference(cls, doc, kw):
    return run_writer(cls, copy.deepcopy(doc), **kw)


def to_bytes(s, newline, encoding):
    if newline not in (None, '', '\n'):
        s = s.replace('\n', newline)
    return s.encode(encoding) if s else b''


def gen_common(g):
    name = g.choice(['Conllu'] * 4 + ['Sentences', 'Sentences', 'SentencesHtml', 'TextModeTrees', 'Html', 'Tikz', 'Treex'])
    extra = {}
    if name == 'Sentences' and g.bool():
        extra['if_missing'] = 'empty'
    if g.bool(0.2):
        extra['zones'] = 'en'
        if name == 'Html':
            del extra['zones']
    io_kw = {}
    newline, enc = '\n', 'utf-8'
    if g.bool(0.3):
        newline = io_kw['newline'] = g.choice(['\n', '\r\n', '', None, '\r'])
    if g.bool(0.3):
        enc = io_kw['encoding'] = g.choice(['utf-8', 'latin-1', 'utf-16', 'utf-8-sig', 'utf-16-le'])
    if enc == 'latin-1' and name == 'TextModeTrees':
        enc = io_kw['encoding'] = 'utf-16-le'
    return name, extra, io_kw, newline, enc


NAMES = ['out.txt', 'o1.conllu', 'sub/o2.conllu', 'a/b/c/deep.x', 'in1.conllu', './o3', '-', '-', 'x y.txt', 'sub/../o4.conllu', 'ABS/o5.conllu', 'out.txt.gz']


def pattern_target(loaded, path):
    """Where the document loaded from the given file goes with the path option, by a direct reading of the option."""
    if '*' not in path and not path.endswith('/'):
        path += '/'
    d, f = path.rpartition('/')[0] if '/' in path else '', path.rpartition('/')[2]
    if path.startswith('/') and d == '':
        d = '/'
    od, of = os.path.dirname(loaded), os.path.basename(loaded)
    stem, ext = os.path.splitext(of)
    if f == '*' or f == '':
        nf = of
    else:
        pn, pe = os.path.splitext(f)
        nf = (stem if pn in ('*', '') else pn) + (ext if pe in ('', '.*') else pe)
    nd = od if d in ('', '*') else d
    return os.path.join(nd, nf)


def f_direct(g):
    docs = gen_docs(g)
    name, extra, io_kw, newline, enc = gen_common(g)
    cls = WRITERS[name]
    mode = g.choice(['files', 'files', 'filehandle', 'docname', 'docname', 'overwrite', 'path', 'path', 'path', 'stdout'])
    with Scratch() as sc:
        sc.put('in1.conllu', b'old content 1, longer than what is going to be written \n' * 200)
        sc.put('sub/in2.conllu', b'old content 2\n' * 3000)
        sc.put('other.txt', b'untouched')
        kw = {}
        dest = []
        err_from = None
        fh = None
        if mode == 'files':
            names = [x.replace('ABS', sc.dir + '/abs') for x in (g.choice(NAMES) for _ in range(g.int(1, max(1, len(docs) + g.int(-1, 1)))))]
            if g.bool(0.5):
                kw['files'] = names
            else:
                names = [x for x in names if ' ' not in x] or ['out.txt']
                kw['files'] = g.choice([' ', ',']).join(names)
            if kw['files'] == '-':
                dest = ['-'] * len(docs)
            else:
                dest = names[:len(docs)]
                if len(docs) > len(names):
                    err_from = len(names)
        elif mode == 'filehandle':
            docs = docs[:1]
            fh = Keep()
            kw['filehandle'] = fh
            dest = ['FH'] * len(docs)
        elif mode == 'docname':
            kw['docname_as_file'] = 1
            for d in docs:
                n = g.choice(['d1', 'd2.conllu', 'x/y/d3', 'in1.conllu', None, sc.dir + '/abs/d4', 'd 5', 'd6.txt'])
                if n is not None or g.bool():
                    d.meta['docname'] = n
                if g.bool(0.3):
                    d.meta['loaded_from'] = 'in1.conllu'
                dest.append(n if n is not None else '-')
        elif mode in ('overwrite', 'path'):
            if mode == 'overwrite':
                kw['overwrite'] = 1
            else:
                kw['path'] = g.choice(['outdir', 'outdir/', 'out/deep', '*.txt', 'outdir/*.txt', 'outdir/*', '*/', 'outdir/new.*', 'new.*', '*/*.out', '*/same.*', sc.dir + '/abs', sc.dir + '/abs/*.x',
                                       './', '.', '*', '*.*', 'outdir/*.*', '../' + os.path.basename(sc.dir) + '/up'])
                if g.bool(0.2):
                    kw['overwrite'] = 1
            for d in docs:
                n = g.choice(['in1.conllu', 'sub/in2.conllu', './in1.conllu', sc.dir + '/sub/in2.conllu', 'sub/a.b.conllu', 'noext', 'sub/.hidden', None])
                if n is not None or g.bool():
                    d.meta['loaded_from'] = n
                if g.bool(0.3):
                    d.meta['docname'] = 'nonsense'
                dest.append('-' if n is None else n if mode == 'overwrite' else pattern_target(n, kw['path']))
        else:
            dest = ['-'] * len(docs)
        refs = [reference(cls, d, extra) for d in docs]
        g.note(f'{mode} {name} {kw} {extra} {io_kw} {dest} {refs}', nontrivial=any(x != '-' for x in dest))
        want = {k: v for k, v in sc.state().items()}
        stdout = ''
        for d, r in zip(dest, refs):
            if d == '-':
                stdout += r
            elif d == 'FH':
                pass
            else:
                want[os.path.relpath(d)] = to_bytes(r, newline, enc)
        buf = io.StringIO()
        with stdout_to(buf):
            w = cls(**kw, **extra, **io_kw)
            for i, d in enumerate(docs):
                try:
                    w.run(d)
                except RuntimeError:
                    check(i == err_from, f'error on document {i}')
                    break
                finally:
                    check(sys.stdout is buf, 'standard output was not restored')
                    check(not buf.closed, 'standard output was closed')
                check(i != err_from, 'more documents than files is not an error')
        eq(buf.getvalue(), stdout, 'standard output')
        if fh is not None and docs:
            eq(fh.value if fh.closed else fh.getvalue(), refs[0], 'file handle')
        got = sc.state()
        eq(sorted(got), sorted(want), 'files')
        for k in want:
            eq(got[k], want[k], 'content of ' + k)


def f_contradict(g):
    """Contradictory options are refused and nothing is written."""
    docs = gen_docs(g)
    name, extra, io_kw, newline, enc = gen_common(g)
    cls = WRITERS[name]
    kw = {}
    with Scratch() as sc:
        sc.put('in1.conllu', b'old')
        kw = {}
        case = g.int(0, 4)
        if case == 0:
            kw = dict(docname_as_file=1, overwrite=1)
        elif case == 1:
            kw = dict(docname_as_file=1, files=g.choice(['a.txt', 'a.txt b.txt', 'in1.conllu']))
        elif case == 2:
            kw = dict(overwrite=1, files=g.choice(['a.txt', 'in1.conllu', 'in1.conllu,b.txt']))
        elif case == 3:
            kw = dict(files='')
        else:
            kw = dict(files=g.choice([5, None]), overwrite=0)
        for d in docs:
            d.meta['docname'] = 'dn.txt'
            d.meta['loaded_from'] = 'in1.conllu'
        g.note(f'{name} {kw} {extra} {io_kw} {len(docs)}', nontrivial=True)
        before = sc.state()
        buf = io.StringIO()
        with stdout_to(buf):
            try:
                w = cls(**kw, **extra, **io_kw)
            except (ValueError, TypeError):
                w = None
            check(sys.stdout is buf, 'standard output was not restored')
        check(w is None, f'contradictory options accepted: {kw}')
        eq(sc.state(), before, 'files')
        eq(buf.getvalue(), '', 'standard output')


def f_scenario(g):
    """Whole scenarios: reader -> (edit) -> writers and printing blocks."""
    with Scratch() as sc:
        files = []
        for i in range(g.int(1, 4) if g.bool(0.93) else g.int(10, 12)):
            f = g.choice(['', 'in/', 'in/deep/']) + f'f{i}' + g.choice(['.conllu', '.x.conllu', ''])
            trees = []
            for t in range(g.int(1, 4)):
                nd = f'# newdoc id = {g.choice(["dx", "dir/dy", "dz.conllu"])}{i}{t}\n' if t and g.bool(0.4) or g.bool(0.4) else ''
                if not nd and g.bool(0.1):
                    nd = '# newdoc\n'
                trees.append((nd, f'# sent_id = f{i}-{t}\n# text = w{i}{t}\n1\tw{i}{t}\t_\t_\t_\t_\t0\troot\t_\t_\n\n'))
            files.append((f, trees))
            sc.put(f, ''.join(a + b for a, b in trees).encode())
        split = g.bool(0.4)
        per_doc = 0
        if not split and g.bool(0.2):
            per_doc = g.int(1, 2)
        merge = not split and not per_doc and g.bool(0.15)
        # the documents which the reader delivers: (loaded_from, docname, text)
        docs = []
        for f, trees in files:
            cur = None
            for k, (nd, body) in enumerate(trees):
                name = nd[len('# newdoc id = '):].strip() if '=' in nd else None
                if cur is None or (split and nd) or (per_doc and cur[3] == per_doc):
                    cur = [f, name, '', 0]
                    docs.append(cur)
                cur[2] += nd + body
                cur[3] += 1
        if merge:
            docs = [[files[0][0], docs[0][1], ''.join(d[2] for d in docs), 0]]
        edit = g.bool(0.5)
        scen = ['read.Conllu', 'files=' + g.choice([',', ' ']).join(f for f, _ in files)]
        if split:
            scen.append('split_docs=1')
        if per_doc:
            scen.append(f'bundles_per_doc={per_doc}')
        if merge:
            scen.append('merge=1')
        if edit:
            scen += ['util.Eval', 'node=node.form += "!"']
        want = sc.state()
        stdout = [''] * len(docs)
        nw = g.int(1, 3)
        infile = False
        desc = []
        for w in range(nw):
            sent = g.bool(0.35)
            mode = g.choice(['files', 'docname', 'overwrite', 'path', 'stdout', 'print'])
            if merge and mode == 'docname' or mode in ('overwrite', 'path') and (split or per_doc or merge):
                mode = 'files'
            if mode == 'overwrite' and infile:
                mode = 'stdout'
            if mode == 'print':
                scen += ['util.Eval', f'doc=print("PRINT{w}", len(doc.bundles))']
                for i, d in enumerate(docs):
                    stdout[i] += f'PRINT{w} {d[2].count("# sent_id")}\n'
                continue
            scen.append('write.Sentences' if sent else 'write.Conllu')
            dests = ['-'] * len(docs)
            if mode == 'files':
                dests = [g.choice([f'w{w}/{i}.out', f'w{w}-{i}.out', '-']) for i in range(len(docs))]
                if dests == ['-']:
                    dests = ['one.out']
                scen.append('files=' + ','.join(dests))
            elif mode == 'docname':
                if any(d[1] and (d[1] in want) for d in docs):
                    mode = 'stdout'
                else:
                    scen.append('docname_as_file=1')
                    dests = [d[1] or '-' for d in docs]
            elif mode == 'overwrite':
                scen.append('overwrite=1')
                dests = [d[0] for d in docs]
                infile = True
            elif mode == 'path':
                p = g.choice([f'p{w}', f'p{w}/', f'p{w}/*.txt', '*.new' + str(w), f'*/*.n{w}'])
                scen.append('path=' + p)
                dests = [pattern_target(d[0], p) for d in docs]
            desc.append(mode)
            for i, (d, t) in enumerate(zip(docs, dests)):
                text = d[2].replace('\t_\t_\t_\t_\t0', '!\t_\t_\t_\t_\t0') if edit else d[2]
                if sent:
                    text = ''.join(l[9:] for l in text.splitlines(True) if l.startswith('# text = '))
                if t == '-':
                    stdout[i] += text
                else:
                    want[os.path.relpath(t)] = text.encode()
        g.note(f'{scen}', nontrivial=any(m != 'stdout' for m in desc))
        buf = io.StringIO()
        with stdout_to(buf):
            try:
                Run(SimpleNamespace(scenario=scen)).execute()
            finally:
                check(sys.stdout is buf, 'standard output was not restored')
        eq(buf.getvalue(), ''.join(stdout), 'standard output')
        got = sc.state()
        eq(sorted(got), sorted(want), 'files')
        for k in want:
            eq(got[k], want[k], 'content of ' + k)


FACETS = {
    'direct': facet(f_direct, 6000),
    'contradict': facet(f_contradict, 1500),
    'scenario': facet(f_scenario, 3500),
}

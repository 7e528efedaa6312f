"""C25: file patterns expand to exactly the intended files."""
import bz2
import gzip
import io
import lzma
import os
import re
import shutil
import sys
import tempfile
from vf.engine import check, eq, Violation, assume
from vf.gens import *
from vf.util import facet
from udapi.core.files import Files
from udapi.block.read.conllu import Conllu

RULE = ('random scratch directories of 0-12 files (names with digits, dots, brackets, spaces, non-ASCII; hidden files; subdirectories; gz/xz/bz2) x file specifications '
        '(lists, names separated by commas and blanks, wildcards, file lists with relative and absolute entries and blank lines, standard input), expanded, iterated and read; '
        'the wildcards are matched by an independent matcher; non-trivial = the specification denotes at least two files; distinct by specification and directory')
ASSUMPTIONS = ['relative entries of a file list are relative to the current directory (as they always were)', 'compressed files are recognised by the extension of a name with a stem',
               'specifications of separators only and empty file lists are not judged']
NAMES = ['a.conllu', 'b.conllu', 'a1.conllu', 'a2.conllu', 'a10.conllu', 'A.conllu', 'a.txt', 'x', 'ž.conllu', '.hidden.conllu', 'a b.conllu', 'a,b.conllu', 'f[1].txt', 'a-1.conllu', '-x.txt', 'b.conllu.bak',
         'c.gz', 'd.xz', 'e.bz2', 'a.conllu.gz', 'a1.conllu.xz', 'a2.conllu.bz2', '!x', '@y', 'UPPER.GZ', 'q?.txt', 'star*.txt', 'gz.txt', 'xgz', 'new.tar.gz', ' lead.txt', 'trail.txt ']
DIRS = ['', '', 'd1/', 'd2/', 'd10/', 'd1/sub/', 'x.gz/', '.h/']


class Scratch:
    def __enter__(self):
        self.cwd = os.getcwd()
        self.dir = os.path.realpath(tempfile.mkdtemp())
        os.chdir(self.dir)
        return self

    def __exit__(self, *a):
        os.chdir(self.cwd)
        shutil.rmtree(self.dir)


def put(name, data):
    if os.path.dirname(name):
        os.makedirs(os.path.dirname(name), exist_ok=True)
    if name.endswith('.gz'):
        data = gzip.compress(data)
    elif name.endswith('.xz'):
        data = lzma.compress(data)
    elif name.endswith('.bz2'):
        data = bz2.compress(data)
    with open(name, 'wb') as f:
        f.write(data)


def match_segment(pat, name):
    """Shell matching of one path segment, written directly."""
    if name.startswith('.') and not pat.startswith('.'):
        return False

    def m(i, j):
        if i == len(pat):
            return j == len(name)
        c = pat[i]
        if c == '*':
            return any(m(i + 1, k) for k in range(j, len(name) + 1))
        if j == len(name):
            return False
        if c == '?':
            return m(i + 1, j + 1)
        if c == '[':
            e = pat.find(']', i + 2)
            if e > 0:
                body = pat[i + 1:e]
                neg = body[0] == '!'
                if neg:
                    body = body[1:]
                ok, k = False, 0
                while k < len(body):
                    if k + 2 < len(body) and body[k + 1] == '-':
                        ok = ok or body[k] <= name[j] <= body[k + 2]
                        k += 3
                    else:
                        ok = ok or name[j] == body[k]
                        k += 1
                return ok != neg and m(i + 1 + (e - i), j + 1)
        return c == name[j] and m(i + 1, j + 1)
    return m(0, 0)


def match_files(pattern, everything):
    segs = pattern.split('/')
    out = []
    for p in everything:
        ps = p.split('/')
        if len(ps) == len(segs) and all((s == n) if not re.search(r'[*?[]', s) else match_segment(s, n) for s, n in zip(segs, ps)):
            out.append(p)
    return sorted(out)


def gen_dir(g):
    names = []
    for _ in range(g.int(1, 6) if g.bool(0.85) else g.int(9, 12)):
        n = g.choice(DIRS) + g.choice(NAMES)
        if n not in names:
            names.append(n)
    content = {}
    for i, n in enumerate(names):
        content[n] = g.choice(['', f'text {i}\n', f'ž line {i}\nsecond\n\n', f'no newline {i}', f'\ufeffbom {i}\n' if g.bool(0.3) else 'x\n', 'long ' * 3000 + f'{i}\n'])
        put(n, content[n].encode())
    return names, content


PATTERNS = ['*', '*.conllu', 'a*.conllu', 'a?.conllu', '?.conllu', 'a[12].conllu', '[ab].conllu', '[!a]*', '[a-c].*', '*/*.conllu', 'd?/*', 'd*/*', '*/*', '*/*/*', 'd1/*.conllu*', '*.gz', '*.conllu.*', 'a ?.conllu'[:1] + '*',
            '.*.conllu', '.h/*', 'd1/sub/*', 'nothing*', 'x*', 'a.conllu', 'd[12]*/*', '*[0-9]*', '[A]*', '*[[]*', 'ž*', '[!.]*', './*.conllu', 'd1/./*']


def gen_spec(g, names):
    """A specification string and the list of files it denotes, or None if it must be an error."""
    everything = set(names)
    dirs = set()
    for n in names:
        parts = n.split('/')
        for i in range(1, len(parts)):
            dirs.add('/'.join(parts[:i]))
    everything |= dirs
    toks, want = [], []
    ok = True
    for _ in range(g.int(1, 4) if g.bool(0.95) else g.int(10, 12)):
        kind = g.choice(['name', 'name', 'wild', 'wild', 'list', 'missing'])
        if kind == 'name':
            n = g.choice(names)
            n = g.choice(['', '', './', os.getcwd() + '/']) + n
            if re.search(r'[ ,]', n) or n[0] in '!@':
                continue
            toks.append(n)
            want.append(n)
        elif kind == 'missing':
            toks.append('missing.file')
            want.append('missing.file')
        elif kind == 'wild':
            p = g.choice(PATTERNS)
            absolute = g.bool(0.2)
            q = p
            pre = ''
            while q.startswith('./'):
                q, pre = q[2:], pre + './'
            mid = '/./' in q
            m = match_files(q.replace('/./', '/'), everything)
            if mid:
                m = ['d1/./' + x[3:] for x in m]
            m = [pre + x for x in m]
            base = os.getcwd() + '/'
            if absolute:
                p = base + p
                m = [base + x for x in m]
            m = sorted(m)
            toks.append('!' + p)
            if not m:
                ok = False
            want += m
        else:
            entries = []
            lines = []
            for _ in range(g.int(1, 4)):
                n = g.choice(names + ['missing.file'])
                n = g.choice(['', '', './', os.getcwd() + '/']) + n
                if n[0] in '!@':
                    continue
                entries.append(n)
                lines.append(n)
                if g.bool(0.15):
                    lines.append('')
            lf = g.choice(['my.filelist', 'lists/l1', os.getcwd() + '/lists/abs', './l2', 'lists/deep/l3']) + str(len(toks))
            if os.path.dirname(lf):
                os.makedirs(os.path.dirname(lf), exist_ok=True)
            with open(lf, 'w') as f:
                f.write('\n'.join(lines) + (g.choice(['\n', '\n', '']) if lines else ''))
            toks.append('@' + lf)
            want += entries
    assume(toks)
    s = ''
    for i, t in enumerate(toks):
        s += (g.choice([' ', ',', ', ', '  ', ' , ', '\n']) if i else g.choice(['', '', ' '])) + t
    s += g.choice(['', '', ' ', ','])
    return s, want if ok else None


def iterate(g, files, want, content=None, spec=''):
    """Walk over the files with all the accessors."""
    eq(files.number_of_files, len(want), 'number_of_files')
    eq(list(files.filenames), want, 'filenames')
    eq(files.filename, None, 'filename before the first file')
    eq(files.file_number, 0, 'number before the first file')
    for i, w in enumerate(want, 1):
        eq(files.has_next_file(), True, 'has_next_file')
        text = content(w) if content is not None else None
        if text is not None:
            fh = files.next_filehandle()
            eq(fh.read(), text, f'content of {w}')
            check(files.filehandle is fh, 'filehandle')
            if w != '-':
                fh.close()
        else:
            eq(files.next_filename(), w, 'next_filename')
        eq(files.filename, w, 'filename')
        eq(files.file_number, i, 'file_number')
    eq(files.has_next_file(), False, 'has_next_file at the end')
    for _ in range(2):
        if g.bool():
            eq(files.next_filename(), None, 'end marker')
        else:
            eq(files.next_filehandle(), None, 'end marker')
            eq(files.filehandle, None, 'filehandle at the end')
        eq(files.filename, None, 'filename at the end')
        check(not files.has_next_file(), 'has_next_file after the end')


def f_expand(g):
    with Scratch():
        names, content = gen_dir(g)
        # other files which are not listed by gen_dir do not exist yet; file lists are created while generating the specification
        spec, want = gen_spec(g, names)
        # patterns are matched against the directory as it is when expanded, including the file lists
        if '!' in spec:
            lists = [t[1:] for t in re.split('[, \n]+', spec) if t.startswith('@')]
            if lists:
                pats = [t for t in re.split('[, \n]+', spec) if t.startswith('!')]
                assume(False if any('*' in p for p in pats) else True)
        g.note((spec.replace(os.getcwd(), 'CWD'), sorted(names)), nontrivial=want is None or len(want) > 1)
        asl = want is not None and g.bool(0.2)
        try:
            files = Files(list(want)) if asl else Files(spec) if g.bool() else Files(filenames=spec, encoding='utf-8')
        except RuntimeError:
            check(want is None, f'unexpected error for {spec!r}')
            return
        check(want is not None, f'an unmatched pattern in {spec!r} is not an error')

        def get(w):
            p = os.path.relpath(w)
            if p not in content or not g.bool(0.7):
                return None
            return content[p]
        iterate(g, files, want, get, spec)


def f_stdin(g):
    """Standard input as a file and as a file list; file handles; wrong arguments."""
    with Scratch():
        names, content = gen_dir(g)
        case = g.choice(['-', '@-', 'fh', 'both', 'empty', 'type'])
        old = sys.stdin
        g.note((case, names, content), nontrivial=True)
        try:
            if case == '-':
                text = g.choice(['', 'abc\n', 'ž\nx'])
                sys.stdin = io.TextIOWrapper(io.BytesIO(text.encode()), encoding='utf-8')
                pre = [n for n in names if not re.search('[ ,]', n) and n[0] not in '!@'][:g.int(0, 2)]
                iterate(g, Files(' '.join(pre + ['-'])), pre + ['-'], lambda w: text if w == '-' else content[w])
            elif case == '@-':
                sys.stdin = io.TextIOWrapper(io.BytesIO(('\n'.join(names) + '\n').encode()), encoding='utf-8')
                iterate(g, Files('@-'), names, lambda w: content[w])
            elif case == 'fh':
                fh = io.StringIO('text')
                f = Files(filehandle=fh)
                eq(f.number_of_files, 1, 'number_of_files')
                check(f.has_next_file(), 'has_next_file')
                check(f.next_filehandle() is fh, 'the given file handle')
                check(f.filehandle is fh, 'filehandle')
                eq(f.next_filehandle(), None, 'end marker')
            else:
                try:
                    if case == 'both':
                        Files(filenames='a', filehandle=io.StringIO(''))
                    elif case == 'empty':
                        Files('')
                    else:
                        Files(g.choice([5, None, {'a': 1}]))
                except ValueError:
                    pass
                else:
                    raise Violation('no error for ' + case)
        finally:
            sys.stdin = old


def f_reader(g):
    """The files= parameter of a reader reads every denoted file once, in order."""
    with Scratch():
        names, texts = [], {}
        for i in range(g.int(1, 6) if g.bool(0.9) else g.int(10, 12)):
            n = g.choice(['', 'd/', 'd2/']) + f'f{i}' + g.choice(['.conllu', '.conllu', '.conllu.gz', '.x.xz', '.bz2', ''])
            k = g.int(1, 3)
            names.append(n)
            texts[n] = [f'{i}-{j}' for j in range(k)]
            data = ''.join(f'# sent_id = {i}-{j}\n# text = ž\n1\tž\t_\t_\t_\t_\t0\troot\t_\t_\n\n' for j in range(k))
            put(n, (data.replace('\n', '\r\n') if g.bool(0.2) else data).encode())     # both kinds of line ends
        spec, want = g.choice([
            lambda: (','.join(names), names), lambda: (' '.join(reversed(names)), names[::-1]), lambda: ('!f*', sorted(n for n in names if '/' not in n)),
            lambda: ('!*/*', sorted(n for n in names if '/' in n)), lambda: ('!d/f*,!d2/*', sorted(n for n in names if n.startswith('d/')) + sorted(n for n in names if n.startswith('d2/'))),
            lambda: (list(names), names)])()
        g.note((spec, names, texts), nontrivial=len(want) > 1)
        try:
            r = Conllu(files=spec)
        except RuntimeError:
            check(any(not [n for n in names if match_segment(p.split('/')[-1], n.split('/')[-1]) and (n.split('/')[:-1] == p.split('/')[:-1] or '*/' in p and '/' in n)]
                      for p in ([t[1:] for t in spec.split(',')] if isinstance(spec, str) else [])), 'unexpected error')
            return
        docs = list(r.read_documents())
        eq([d.meta['loaded_from'] for d in docs], want, 'loaded_from')
        eq([[t.sent_id for t in d.trees] for d in docs], [texts[n] for n in want], 'sentences')
        eq({(t.text, tuple((w.form, w.deprel, str(w.misc)) for w in t.descendants)) for d in docs for t in d.trees}, {('ž', (('ž', 'root', '_'),))}, 'words')


FACETS = {
    'expand': facet(f_expand, 9000),
    'stdin': facet(f_stdin, 1500),
    'reader': facet(f_reader, 2500),
}

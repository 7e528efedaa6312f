"""Blocks which record what happens to them."""
from udapi.core.block import Block

LOG = []
DOCS = []


def doc_no(document):
    for i, d in enumerate(DOCS):
        if d is document:
            return i
    DOCS.append(document)
    return len(DOCS) - 1


class Rec(Block):
    def __init__(self, **kwargs):
        super().__init__()
        self.kw = kwargs
        self.no = len([1 for e in LOG if e[0] == 'new'])
        LOG.append(('new', self.no, type(self).__name__, kwargs))

    def process_start(self):
        LOG.append(('start', self.no))

    def before_process_document(self, document):
        LOG.append(('before', self.no, doc_no(document)))

    def process_document(self, document):
        if self.kw.get('fail') == len([1 for e in LOG if e[:2] == ('doc', self.no)]) + 1:
            raise ValueError('planned failure')
        LOG.append(('doc', self.no, doc_no(document), list(document.meta.get('trace', []))))
        document.meta.setdefault('trace', []).append(self.no)

    def after_process_document(self, document):
        LOG.append(('after', self.no, doc_no(document)))

    def process_end(self):
        LOG.append(('end', self.no))

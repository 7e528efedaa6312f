"""A recording block which asks for a number of rounds, as readers do."""
from vf.blocks.rec import Rec, LOG, doc_no


class RecReader(Rec):
    def __init__(self, rounds=1, **kwargs):
        super().__init__(rounds=rounds, **kwargs)
        self.left = rounds
        self.finished = False

    def process_document(self, document):
        super().process_document(document)
        self.left -= 1
        self.finished = self.left <= 0

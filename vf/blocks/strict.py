"""A block with fixed parameters."""
from vf.blocks.rec import LOG
from udapi.core.block import Block


class Strict(Block):
    def __init__(self, alpha=1, beta='x', **kwargs):
        super().__init__(**kwargs)
        self.alpha = alpha
        self.beta = beta

    def process_tree(self, tree):
        LOG.append(('strict', self.alpha, self.beta))

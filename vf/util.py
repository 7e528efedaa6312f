def facet(fn, quick, thorough=None):
    return dict(fn=fn, quick=quick, thorough=thorough if thorough is not None else quick * 12)

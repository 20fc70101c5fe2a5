"""Complete snapshots of live expression trees: structure, multiplicities, object identities, links and parameters."""
from gpyv import ref


def snap(k):
    if isinstance(k, str): return k
    # everything reachable upwards matters too: the snapshot is taken from the root the node reports
    top = k
    while top.parent is not None: top = top.parent
    return (id(k), _sub(top))

def _sub(n):
    if isinstance(n, str): return n
    params = tuple(sorted((repr(a), repr(b)) for a, b in n.parameters.items()))
    links = (id(n), id(n.parent), id(n.root), params)
    if ref.is_change(n): return links + (n.CP_or_CW, _sub(n.left), _sub(n.right))
    return links + (ref.kind(n), tuple(sorted(n.base_terms.items())), tuple(_sub(c) for c in n.composite_terms))

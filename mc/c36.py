"""C36: every method, in every context of its other arguments, with each argument left out against its default and by position against by name."""
from .sigs import SIGNATURES, signatures

ASSUMPTIONS = ["the documented signatures are those of the pinned release"]


def explore(ck):
    items = [f"{cls}.{method}" for cls, methods in SIGNATURES.items() for method in methods]
    ck.each(items[::7] + [it for n, it in enumerate(items) if n % 7], lambda c, it: signatures(c, it))

"""C03: location rules over all paths of the storage operations."""
from . import core

LEVEL = 'other'
MIN_OBLIGATIONS = 40
EXPLANATION = ('Path-sensitive abstract interpretation of every public storage operation (symbolic rows, chunks, archetypes, '
               'handles and component sets; user operations may throw at every site), with an end rule: After every path of every public operation, each handle the path touched maps to the row that holds it, and no other handle does.')


def run(ctx):
    core.run(ctx, 'C03')

"""C24: effect rules over all paths of the storage operations."""
from . import core

LEVEL = 'other'
MIN_OBLIGATIONS = 40
EXPLANATION = ('Path-sensitive abstract interpretation of every public storage operation (symbolic rows, chunks, archetypes, '
               'handles and component sets; user operations may throw at every site), with an end rule: Every path that returns leaves the operand with exactly the specified component set and values.')


def run(ctx):
    core.run(ctx, 'C24')

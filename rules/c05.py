"""C05: lifetime rules over all paths of the storage operations."""
from . import core

LEVEL = 'other'
MIN_OBLIGATIONS = 40
EXPLANATION = ('Path-sensitive abstract interpretation of every public storage operation (symbolic rows, chunks, archetypes, '
               'handles and component sets; user operations may throw at every site), with an end rule: Every construction, move, assignment and destruction of a component slot on every path meets a slot in the right state, and the used rows at the end are exactly the live slots.')


def run(ctx):
    core.run(ctx, 'C05')

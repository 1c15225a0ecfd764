"""C06: failure rules over all paths of the storage operations."""
from . import core

LEVEL = 'other'
MIN_OBLIGATIONS = 40
EXPLANATION = ('Path-sensitive abstract interpretation of every public storage operation (symbolic rows, chunks, archetypes, '
               'handles and component sets; user operations may throw at every site), with an end rule: Every path that leaves an operation by an exception restores rows, locations and handles of before the call.')


def run(ctx):
    core.run(ctx, 'C06')

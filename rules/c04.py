"""C04: density rules over all paths of the storage operations."""
from . import core

LEVEL = 'other'
MIN_OBLIGATIONS = 40
EXPLANATION = ('Path-sensitive abstract interpretation of every public storage operation (symbolic rows, chunks, archetypes, '
               'handles and component sets; user operations may throw at every site), with an end rule: After every path each touched archetype keeps its chunks dense and a chunk is dropped only when empty.')


def run(ctx):
    core.run(ctx, 'C04')

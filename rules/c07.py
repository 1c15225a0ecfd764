"""C07: errors rules over all paths of the storage operations."""
from . import core

LEVEL = 'other'
MIN_OBLIGATIONS = 40
EXPLANATION = ('Path-sensitive abstract interpretation of every public storage operation (symbolic rows, chunks, archetypes, '
               'handles and component sets; user operations may throw at every site), with an end rule: Misuse reaches the documented error before any storage is touched; no exception meets a function that promises not to throw.')


def run(ctx):
    core.run(ctx, 'C07')

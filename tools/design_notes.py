ROW = ', `rules/core.py`, `sa/rowmodel.py`, `sa/rowrules.py`, `drivers/core.cpp`'
FILES = {k: ROW for k in ('C03', 'C04', 'C05', 'C06', 'C07', 'C24')}
FILES.update({
    'C01': ', `sa/poolmodel.py`, `drivers/pool.cpp`, `drivers/core.cpp`', 'C02': ', `sa/poolmodel.py`, `drivers/pool.cpp`, `drivers/core.cpp`',
    'C08': ', `rules/witness.py`', 'C12': ', `drivers/wsq.cpp`', 'C18': ', `drivers/sets.cpp`', 'C17': ', `drivers/sparse.cpp`',
    'C25': ', `sa/interp.py` (generations), the drivers of the other properties'})
ROWA = ['component operations of the user do not re-enter the registry', 'running out of memory after a structural change is not followed '
        '(failures of user operations and of creating archetypes and chunks are)', 'one thread uses a registry at a time except for reserve()']
ASSUME = {k: ROWA for k in ('C03', 'C04', 'C05', 'C06', 'C07', 'C24')}
NOTES = {
    'C01': 'Generation wrap-around (2^32 reuses of one slot) is outside; a narrower generation type is a violation.',
    'C03': 'Narrowed to failures of user operations; see limits.',
    'C11': 'The semaphore used by wait() can overflow in theory; 16-bit child counters of tasks and the grandparent count are not '
           'reachable through parallel_for and the schedule.',
    'C12': 'The first version accepted any free() by a destructor-like function; the planted change `c12-frees-grown-out` (pop frees '
           'grown-out arrays) made the rule name who may free.',
    'C14': 'Iterating over the commands and clearing the buffer afterwards is reported as undecided: whether a throwing command is executed again is not judged.',
    'C21': 'A refactoring that collects batches first and submits them afterwards (refactors/r39) is undecided on three obligations, without alarm.',
    'C25': 'The first run reported set_location() with a moved entity that "is not in the map"; such a path contradicts the row invariant: a '
           'false alarm, the rule was corrected. Three planted changes that were missed led to: elements removed by pop_back, pop_front and '
           'erase die at once (not at the next growth), a second iteration of loops, iterators returned by operations.',
}

"""Shared plan generators."""

BASENAMES = ['agents', 'agents_extra', 'agents1', 'agents_1', 'a', 'run_2017',
             'data', 'npy', 'basename', 'x.y', 'agents_', 'n_p_y', '7',
             'Agents', 'agent', 'data-set', 'p.npy', 'run+2', 'a(b)', 'v[1]', 'w*',
             'agents 2', '^q$']

WRITE_ERRORS = ['enospc', 'write_eio', 'open_eio', 'open_emfile', 'close_eio',
                'meta_eio', 'list_eio']
CRASHES = ['crash_before', 'crash_after', 'crash_torn']
LEGAL = ['write_short', 'read_short']
READ_ERRORS = ['read_eio', 'open_eio', 'open_emfile', 'list_eio']


def faults(rng, kinds, n, horizon):
    return [{'at': rng.randrange(max(1, horizon)), 'kind': rng.choice(kinds),
             'frac': round(rng.choice([0, .01, .3, .5, .9, .999, 1]), 3),
             'n': rng.choice([1, 1, 1, 2, 5])} for _ in range(n)]


def disk_knobs(rng):
    return {'buffer': rng.choice([1, 3, 7, 64, 100, 512, 8192]),
            'order': rng.randrange(1 << 30)}


def swarm(rng, items, lo=1):
    """A random non-empty subset (swarm testing)."""
    k = rng.randint(lo, len(items))
    return rng.sample(list(items), k)

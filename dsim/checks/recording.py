"""Recorded data: chunks (.npy), rows (.csv), geometry (.json), recorder."""
import csv
import datetime
import io
import json
import os

import numpy as np
from dateutil.tz import tzutc

from dsim import gen
from dsim.core import BadPlan, Scenario
from dsim.disk import Disk, SimCrash

DTYPES = {
    'f8': np.float64,
    'f4': np.float32,
    'i8': np.int64,
    'b1': np.bool_,
    'agents': np.dtype([('position', np.float64, 2), ('target', np.int64),
                        ('active', np.bool_), ('mass', np.float64)]),
}


def frame(spec, serial):
    """A frame whose every element depends on its unique serial number."""
    dtype, shape = DTYPES[spec['dtype']], tuple(spec['shape'])
    base = np.arange(int(np.prod(shape))).reshape(shape)
    if spec['dtype'] == 'agents':
        a = np.zeros(shape, dtype)
        a['position'][..., 0] = serial + base / 8.0
        a['position'][..., 1] = -serial - base / 8.0
        a['target'] = serial * 1000 + base
        a['active'] = (base + serial) % 2 == 0
        a['mass'] = serial * 0.5 + base
        return a
    if spec['dtype'] == 'b1':
        bits = (serial >> (base % 20)) & 1
        return bits.astype(np.bool_)
    return (serial * 16 + base).astype(dtype)


def gen_spec(rng):
    dt = rng.choice(['f8', 'f4', 'i8', 'agents', 'agents'])
    if dt == 'agents':
        shape = [rng.choice([1, 2, 3, 7, 20])]
    else:
        shape = rng.choice([[1], [4], [10], [3, 2], [2, 5], [64]])
    return {'dtype': dt, 'shape': shape}


def same(a, b):
    return isinstance(a, np.ndarray) and a.dtype == b.dtype and \
        a.shape == b.shape and a.tobytes() == b.tobytes()


def stack(frames):
    return np.vstack(frames)


def ids(arr):
    """Short description of an array for messages."""
    a = np.asarray(arr)
    if a.dtype.names:
        a = a['target'] // 1000
    elif a.dtype.kind in 'fi':
        a = (a // 16).astype(int)
    return '%s%s serials %s' % (a.dtype.kind, a.shape,
                                a.reshape(len(a), -1)[:, 0].tolist()
                                if a.ndim and len(a) else [])


class IO(Scenario):
    real = ('crowddynamics.io', 'numpy .npy codec', 'csv', 'json',
            'Python buffered/text I/O')
    stub = ('raw file layer with fault injection over a scratch directory',
            'directory listing order')
    assumptions = (
        'a crash kills the process: data handed to the file system survives '
        '(no power-loss model, the code makes no fsync promise)',
        'numpy reads and writes arrays through the Python file object '
        '(its C fast path is disabled at the seam)')

    def prepare(self):
        import crowddynamics.io as cio
        self.io = cio

    def new_storage(self, disk, base, kind='npy', root=None):
        make = self.io.save_npy if kind == 'npy' else self.io.save_csv
        s = make(root or disk.root, base)
        s.send(None)
        return s

    def load_flat(self, disk, base, root):
        """Load from `root`; when that has a subdirectory, from a copy of its
        own files, because loading also looks below a directory."""
        if root != disk.root:
            return list(self.io.load_npy(root, base))
        disk.enabled = False
        try:
            os.mkdir(disk.path('flat'))
            for name in disk.names():
                if os.path.isfile(disk.path(name)):
                    disk.write_bytes(disk.read_bytes(name), 'flat', name)
            disk.enabled = True
            return list(self.io.load_npy(disk.path('flat'), base))
        finally:
            disk.enabled = False
            for name in disk.names('flat'):
                os.remove(disk.path('flat', name))
            os.rmdir(disk.path('flat'))
            disk.enabled = True

    def load(self, disk, base):
        return list(self.io.load_npy(disk.root, base))


# --------------------------------------------------------------------------

class Snapshots(IO):
    id = 'R01'
    title = 'Recorded frames are snapshots'
    rule = ('Interleaved half-steps (hand over a frame / tell whether to '
            'dump / let the simulation mutate its array in place) of 1-4 '
            'series sharing one directory, under legal short reads and '
            'writes, tiny buffers and shuffled listings.  Non-trivial also: '
            'an array was mutated between its hand-over and its dump.')
    quick_runs = 1600
    thorough_runs = 60000

    def generate(self, rng):
        n = rng.randint(1, 4)
        series = []
        for b in rng.sample(gen.BASENAMES, n):
            s = gen_spec(rng)
            s['base'] = b
            series.append(s)
        ops = []
        style = rng.choice(['half', 'whole', 'mixed'])
        p_dump = rng.choice([.1, .3, .5, .9])
        p_mut = rng.choice([0, .3, .8])
        for _ in range(rng.randint(4, 40)):
            w = rng.randrange(n)
            if style == 'whole' or style == 'mixed' and rng.random() < .5:
                ops.append(['data', w])
                if rng.random() < p_mut:
                    ops.append(['mutate', w])
                ops.append(['flag', w, int(rng.random() < p_dump)])
            else:
                ops.append(rng.choice([['data', w], ['mutate', w],
                                       ['flag', w, int(rng.random() < p_dump)],
                                       ]))
            if rng.random() < p_mut:
                ops.append(['mutate', w])
            if rng.random() < .05:
                ops.append(['read', w])
        if rng.random() < .06:
            # many frames in one chunk, or many chunks
            w = rng.randrange(n)
            ops.insert(rng.randrange(len(ops) + 1),
                       ['many', w, rng.choice([70, 150, 300]),
                        rng.choice([0, 0, 1, 40])])
        for s in series:
            # the same series name may be in use in another directory
            s['dir'] = rng.choice([0, 0, 0, 1])
            s['view'] = rng.choice([0, 0, 1, 2, 3])
        if n > 1 and rng.random() < .4:
            series[1] = dict(series[1], base=series[0]['base'],
                             dir=1 - series[0]['dir'])
        return {'series': series, 'ops': ops, 'knobs': gen.disk_knobs(rng),
                'flags': rng.randrange(3),
                'faults': gen.faults(rng, gen.LEGAL, rng.randint(0, 6), 120)}

    def execute(self, plan, ctx):
        k = plan['knobs']
        with Disk(ctx, plan['faults'], k['buffer'], k['order']) as disk:
            serial = [0]

            def fresh(w):
                serial[0] += 1
                return frame(plan['series'][w], serial[0])
            n = len(plan['series'])

            def array(w):
                # simulations also hand over parts of a larger array
                f, view = fresh(w), plan['series'][w].get('view', 0)
                if view == 1:
                    return np.concatenate((f, f))[:len(f)]
                if view == 2:
                    return np.concatenate((f, f))[::2][:len(f)] \
                        if len(f) == 1 else np.repeat(f, 2, axis=0)[::2]
                return f

            def flag(value):
                # a condition computed with numpy gives a numpy bool
                return (bool(value), np.bool_(value), bool(value))[
                    plan.get('flags', 0) % 3]
            def handed(w):
                # ... or a view of it through which nothing can be written
                if plan['series'][w].get('view', 0) != 3:
                    return live[w]
                view = live[w].view()
                view.setflags(write=False)
                ctx.probe('read-only-view')
                return view
            live = [array(w) for w in range(n)]
            disk.enabled = False
            os.mkdir(disk.path('sub'))
            disk.enabled = True
            where = [disk.path('sub') if s.get('dir') else disk.root
                     for s in plan['series']]
            stores = [self.new_storage(disk, s['base'], root=where[w])
                      for w, s in enumerate(plan['series'])]
            want_flag = [False] * n
            buffered = [[] for _ in range(n)]
            chunks = [[] for _ in range(n)]
            flip = [0] * n

            def verify(w, when):
                base = plan['series'][w]['base']
                got = self.load_flat(disk, base, where[w])
                ctx.ev('load', base, len(got))
                ctx.check(len(got) == len(chunks[w]), 'chunk-count',
                          lambda: '%s: series %r has %d chunks, %d were '
                          'dumped' % (when, base, len(got), len(chunks[w])))
                for i, (g, c) in enumerate(zip(got, chunks[w])):
                    ctx.check(same(g, c), 'frame-content',
                              lambda: '%s: chunk %d of %r holds %s, the frames '
                              'handed over were %s' % (when, i, base, ids(g),
                                                       ids(c)))

            for op in plan['ops']:
                w = op[1]
                if w >= n:
                    continue
                if op[0] == 'data' and not want_flag[w]:
                    if flip[w] % 2:     # sometimes a new array object
                        live[w] = array(w)
                    buffered[w].append(live[w].copy())
                    stores[w].send(handed(w))
                    want_flag[w] = True
                    ctx.ev('data', w)
                elif op[0] == 'mutate':
                    live[w][...] = fresh(w)     # in place, as a simulation
                    flip[w] += (serial[0] % 3 == 0)
                    ctx.ev('mutate', w)
                    if buffered[w]:
                        ctx.probe('mutated-while-buffered')
                        ctx.nontrivial = True
                elif op[0] == 'flag' and want_flag[w]:
                    stores[w].send(flag(op[2]))
                    want_flag[w] = False
                    ctx.ev('flag', w, op[2])
                    if op[2]:
                        chunks[w].append(stack(buffered[w]))
                        buffered[w] = []
                        verify(w, 'after a dump')
                elif op[0] == 'read':
                    verify(w, 'read')
                elif op[0] == 'many' and not want_flag[w]:
                    for i in range(op[2]):
                        live[w][...] = fresh(w)
                        buffered[w].append(live[w].copy())
                        stores[w].send(handed(w))
                        dump = bool(op[3]) and i % op[3] == 0
                        stores[w].send(flag(dump))
                        if dump:
                            chunks[w].append(stack(buffered[w]))
                            buffered[w] = []
                    ctx.ev('many', w, op[2], op[3])
                    ctx.probe('long-buffer')
                ctx.state('R01', [(len(b), len(c), f) for b, c, f in zip(
                    buffered, chunks, want_flag)])
            for w in range(n):
                verify(w, 'at the end')


# --------------------------------------------------------------------------

class ChunkDurability(IO):
    id = 'R02'
    title = 'Dumped frames survive crashes, failed writes and restarts'
    rule = ('Sessions of recording into the same directory; crashes (before, '
            'inside, after any I/O step) and write errors end a session, the '
            'next one starts on what is on the disk.  Non-trivial: a fault '
            'fired or a restart continued an existing series.')
    quick_runs = 1600
    thorough_runs = 60000

    def generate(self, rng):
        spec = gen_spec(rng)
        kinds = gen.swarm(rng, gen.CRASHES + gen.WRITE_ERRORS + gen.LEGAL)
        ops = []
        for _ in range(rng.randint(3, 40)):
            r = rng.random()
            if r < .08:
                ops.append(['restart'])
            elif r < .11:
                # between two sessions somebody deletes an old chunk
                ops.append(['restart'])
                ops.append(['drop', rng.randrange(50)])
            elif r < .15:
                ops.append(['read'])
            else:
                ops.append(['step', int(rng.random() < rng.choice([.3, .8]))])
        return {'spec': spec, 'base': rng.choice(gen.BASENAMES), 'ops': ops,
                'first': rng.choice([0, 0, 0, 1, 3, 9, 10, 99, 1000]),
                'other': rng.choice([None] + gen.BASENAMES),
                'knobs': gen.disk_knobs(rng),
                'faults': gen.faults(rng, kinds, rng.choice([0, 1, 1, 2, 4]),
                                     rng.choice([10, 40, 120]))}

    def execute(self, plan, ctx):
        k = plan['knobs']
        base = plan['base']
        with Disk(ctx, plan['faults'], k['buffer'], k['order']) as disk:
            serial = 0
            hist = []      # (acked, chunk) in order of the dump attempts
            store, pending = None, []
            other, other_chunks = None, []
            if plan.get('first'):
                # recorded earlier, the chunks before it were deleted since
                f = stack([frame(plan['spec'], 900000)])
                buf = io.BytesIO()
                np.save(buf, f)
                disk.write_bytes(buf.getvalue(), '%s_%d.npy' % (
                    base, plan['first']))
                hist.append((True, f))

            def recover():
                """What a process that starts now finds."""
                disk.enabled = False
                try:
                    got = self.load(disk, base)
                except Exception as exc:
                    ctx.fail('unreadable', 'after the history so far, loading '
                             'series %r raises %s: %s' % (
                                 base, type(exc).__name__, exc))
                finally:
                    disk.enabled = True
                i = 0
                for g in got:
                    while i < len(hist) and not same(g, hist[i][1]):
                        ctx.check(not hist[i][0], 'lost-chunk', lambda:
                                  'acknowledged chunk %s is missing or out of '
                                  'order (found %s instead)' % (
                                      ids(hist[i][1]), ids(g)))
                        i += 1
                    ctx.check(i < len(hist), 'foreign-chunk', lambda:
                              'loaded chunk %s was never recorded, or is '
                              'out of order, torn or duplicated' % ids(g))
                    i += 1
                for acked, c in hist[i:]:
                    ctx.check(not acked, 'lost-chunk', lambda:
                              'acknowledged chunk %s is gone' % ids(c))
                ctx.ev('recovered', len(got))
                ctx.state('R02', len(got), len(hist),
                          tuple(a for a, _ in hist[-4:]))

            def guarded(fn):
                nonlocal store, pending
                try:
                    fn()
                    return True
                except SimCrash:
                    ctx.probe('crash')
                    disk.reboot()
                except OSError as exc:
                    ctx.ev('error', exc.errno)
                    ctx.probe('io-error')
                store, pending = None, []
                ctx.probe('restart')
                recover()
                return False

            for op in plan['ops']:
                if op[0] == 'restart':
                    if store is not None and hist:
                        ctx.nontrivial = True
                    store, pending = None, []
                    ctx.ev('restart')
                elif op[0] == 'read':
                    recover()
                elif op[0] == 'drop' and store is None:
                    self.drop(disk, ctx, base, hist, op[1])
                elif op[0] == 'step':
                    if store is None:
                        made = []
                        if not guarded(lambda: made.append(
                                self.new_storage(disk, base))):
                            continue
                        store = made[0]
                    serial += 1
                    f = frame(plan['spec'], serial)
                    dump = bool(op[1])
                    pending.append(f.copy())
                    if not guarded(lambda: store.send(f)):
                        continue
                    chunk = stack(pending)
                    if dump:
                        hist.append((False, chunk))
                    ctx.ev('step', serial, dump)
                    if guarded(lambda: store.send(dump)) and dump:
                        hist[-1] = (True, chunk)
                        pending = []
                    if plan.get('other') and plan['other'] != base and \
                            serial % 3 == 0:
                        # a second series lives in the same directory
                        disk.enabled = False
                        if other is None:
                            other = self.new_storage(disk, plan['other'])
                        g = frame(plan['spec'], serial + 100000)
                        other.send(g)
                        other.send(True)
                        other_chunks.append(stack([g]))
                        disk.enabled = True
            disk.quiesce()
            disk.reboot()
            recover()
            if other is not None:
                got = self.load(disk, plan['other'])
                ctx.check(len(got) == len(other_chunks) and all(
                    same(a, b) for a, b in zip(got, other_chunks)),
                    'other-series', 'the second series %r in the directory '
                    'changed' % plan['other'])
            # bounded liveness: once faults stop, recording works again
            store = self.new_storage(disk, base)
            f = frame(plan['spec'], serial + 1)
            store.send(f)
            store.send(True)
            hist.append((True, stack([f])))
            recover()


    def drop(self, disk, ctx, base, hist, which):
        found = []
        for name in disk.names():
            try:
                arr = np.load(io.BytesIO(disk.read_bytes(name)))
            except Exception:
                continue
            if not name.startswith(base + '_'):
                continue
            for i, (acked, c) in enumerate(hist):
                if acked and same(arr, c):
                    found.append((i, name))
        found.sort()
        # the newest chunk stays: numbers of deleted last chunks may be reused
        if len(found) > 1:
            i, name = found[which % (len(found) - 1)]
            disk.enabled = False
            os.remove(disk.path(name))
            disk.enabled = True
            del hist[i]
            ctx.ev('drop', i)
            ctx.probe('dropped-chunk')


# --------------------------------------------------------------------------

class SeriesLoading(IO):
    id = 'R03'
    title = 'Loading a series returns exactly its own chunks in numeric order'
    rule = ('Directories holding several series with related names, chunk '
            'numbers with gaps and different digit counts, concatenated '
            'output, csv/json/temporary files; every listing is shuffled; '
            'writers may add chunks while a load is under way.')
    quick_runs = 1600
    thorough_runs = 60000

    DIRS = ('', 'sub', 'sub/deep', '.hidden', 'sub/.d', 'run 2.npy',
            'sub/deep/er/still/below')

    def prepare(self):
        super().prepare()
        import crowddynamics.cli as cli
        self.cli = cli
        self.command = [name for name, c in cli.main.commands.items()
                        if c is cli.concat_npy][0]

    def generate(self, rng):
        bases = rng.sample(gen.BASENAMES, rng.randint(1, 5))
        top = rng.choice([3, 12, 25, 120])
        files = []
        sub = rng.random() < .3
        for b in range(len(bases)):
            for i in rng.sample(range(top + 1), rng.randint(0, min(top, 14))):
                files.append([b, i, rng.choice(self.DIRS) if sub else ''])
                if sub and rng.random() < .2:       # the same number again
                    files.append([b, i, rng.choice(self.DIRS)])
        if rng.random() < .05:
            files = [[0, i, ''] for i in range(rng.choice([101, 130, 260]))]
        rng.shuffle(files)
        junk = rng.sample(['agents.npy.bak', 'agents_0.csv', 'agents_x.npy',
                           'agents_.npy', 'agents-3.npy', 'agents_1.npy.tmp',
                           'data.csv', 'geometry.json', 'agents_2_old.npy',
                           'a_1.npz', 'xagents_3.npy', 'agents_0.npyx',
                           'agents_1e3.npy', 'agentsX5.npy', 'notes.txt'],
                          rng.randint(0, 6))
        reads = [[rng.randrange(len(bases)), rng.choice(
            ['load', 'load', 'concat', 'cli', 'during'])]
            for _ in range(rng.randint(1, 5))]
        return {'bases': bases, 'files': files, 'junk': junk, 'reads': reads,
                'spec': gen_spec(rng), 'knobs': gen.disk_knobs(rng),
                'faults': gen.faults(rng, ['read_short'], rng.randint(0, 4),
                                     60)}

    def execute(self, plan, ctx):
        k = plan['knobs']
        bases = plan['bases']
        with Disk(ctx, plan['faults'], k['buffer'], k['order']) as disk:
            model = {b: {} for b in bases}
            serial = 0
            names = set()

            disk.enabled = False
            for d in self.DIRS[2:]:
                os.makedirs(disk.path(*d.split('/')))
            disk.enabled = True

            def put(base, i, sub=''):
                nonlocal serial
                serial += 1
                arr = stack([frame(plan['spec'], serial)])
                buf = io.BytesIO()
                np.save(buf, arr)
                name = '%s_%d.npy' % (base, i)
                if sub + '/' * bool(sub) + name in names:
                    return
                names.add(sub + '/' * bool(sub) + name)
                disk.write_bytes(buf.getvalue(), *(
                    sub.split('/') if sub else []), name)
                model[base].setdefault(i, []).append(arr)
                if len(model[base][i]) > 1:
                    ctx.probe('number twice')
                if sub:
                    ctx.probe('chunk-in-subdirectory')

            for b, i, sub in plan['files']:
                if b < len(bases):
                    put(bases[b], i, sub)
            for j in plan['junk']:
                if j not in names and not any(
                        j == '%s.npy' % b for b in bases):
                    if self._is_chunk(j, bases):
                        continue
                    names.add(j)
                    disk.write_bytes(b'not an array', j)
            for b, how in plan['reads']:
                if b >= len(bases):
                    continue
                base = bases[b]
                want = [a for i in sorted(model[base]) for a in model[base][i]]
                ctx.ev(how, base, len(want))
                ctx.state('R03', how, len(want), len(names))
                if len(want) > 1:
                    ctx.nontrivial = True
                if how == 'load':
                    got = self.load(disk, base)
                    self._compare(ctx, base, got, self._as(
                        model[base], got))
                elif how == 'during':
                    it = self.io.load_npy(disk.root, base)
                    before = {i: list(v) for i, v in model[base].items()}
                    got = []
                    for n, arr in enumerate(it):
                        got.append(arr)
                        if n == 0:
                            put(base, 1000 + serial)
                    want2 = [a for i in sorted(model[base])
                             for a in model[base][i]]
                    self._compare(ctx, base, got[:len(want)], self._as(
                        before, got))
                    ctx.check(len(got) == len(want) or (
                        len(got) == len(want2) and
                        same(got[-1], want2[-1])), 'foreign-chunk',
                        'a chunk added during the load is returned wrong')
                elif want:
                    target = base + '.npy'
                    clash = self._is_chunk(target, bases)
                    if how == 'concat' or clash:
                        got = self.io.load_npy_concatenated(disk.root, base)
                        ctx.check(same(got, self._rows(model[base], got)),
                                  'concatenation',
                                  lambda: 'concatenation of %r gives %s, '
                                  'recorded were %s' % (
                                      base, ids(got), ids(stack(want))))
                    else:
                        self.concat(disk, base, len(names))
                        ctx.probe('cli-concat')
                        disk.enabled = False
                        got = np.load(disk.path(target))
                        disk.enabled = True
                        names.add(target)
                        ctx.check(same(got, self._rows(model[base], got)),
                                  'concatenation',
                                  lambda: 'concat-npy of %r wrote %s, '
                                  'recorded were %s' % (
                                      base, ids(got), ids(stack(want))))
            for base in bases:
                want = [a for i in sorted(model[base]) for a in model[base][i]]
                got = self.load(disk, base)
                self._compare(ctx, base, got, self._as(model[base], got))

    @staticmethod
    def _as(groups, got):
        """The chunks in numeric order; those with equal numbers, in
        different directories, in the order in which they were loaded."""
        want, k = [], 0
        for i in sorted(groups):
            left = list(groups[i])
            for _ in groups[i]:
                hit = [n for n, a in enumerate(left)
                       if k < len(got) and same(got[k], a)]
                want.append(left.pop(hit[0] if hit else 0))
                k += 1
        return want

    def _rows(self, groups, got):
        """The same for concatenated chunks."""
        n = [len(a) for v in groups.values() for a in v]
        if len(set(n)) == 1 and len(got) == sum(n):
            got = [got[k:k + n[0]] for k in range(0, len(got), n[0])]
        else:
            got = []
        return stack(self._as(groups, got))

    def concat(self, disk, base, n):
        """The command line, from inside or outside of the directory."""
        cwd = os.getcwd()
        args = ['-d', disk.root] if n % 2 else ['--directory', disk.root]
        try:
            if n % 3 == 0:
                os.chdir(disk.root)
                args = []
            elif n % 3 == 1:
                os.chdir(disk.path('sub'))
                args[1] = '..'
            self.cli.main.main(
                args=[self.command] + args + ['--basename=' + base],
                standalone_mode=False)
        finally:
            os.chdir(cwd)

    @staticmethod
    def _is_chunk(name, bases):
        for b in bases:
            if name.startswith(b + '_') and name.endswith('.npy') and \
                    name[len(b) + 1:-4].isdigit():
                return True
        return False

    @staticmethod
    def _compare(ctx, base, got, want):
        ctx.check(len(got) == len(want), 'chunk-count',
                  lambda: 'series %r: %d chunks loaded, %d recorded' % (
                      base, len(got), len(want)))
        for i, (g, w) in enumerate(zip(got, want)):
            ctx.check(same(g, w), 'chunk-order',
                      lambda: 'series %r: position %d holds %s, expected %s'
                      % (base, i, ids(g), ids(w)))


# --------------------------------------------------------------------------

def csv_line(values):
    buf = io.StringIO()
    csv.writer(buf, lineterminator='').writerow(values)
    return buf.getvalue()


class Rows(IO):
    id = 'R04'
    title = 'Dumped rows appear once, complete and in order'
    rule = ('Interleaved half-steps of 1-3 row streams over several sessions, '
            'with crashes and write errors at any I/O step.  Non-trivial: a '
            'fault fired, several streams or several sessions.')
    quick_runs = 1600
    thorough_runs = 60000

    def generate(self, rng):
        n = rng.randint(1, 3)
        kinds = gen.swarm(rng, gen.CRASHES + gen.WRITE_ERRORS + gen.LEGAL)
        streams = [{'base': b, 'keys': rng.sample(
            ['iterations', 'time_tot', 'dt', 'inactive', 'target_0', 'name'],
            rng.randint(1, 5))} for b in rng.sample(gen.BASENAMES, n)]
        clean = rng.random() < .35
        ops = []
        for _ in range(rng.randint(3, 50)):
            w = rng.randrange(n)
            ops.append(rng.choice(
                [['row', w], ['row', w],
                 ['flag', w, int(rng.random() < .5)],
                 ['flag', w, 1],
                 ['restart', w] if rng.random() < .3 else ['row', w]]))
            if clean and rng.random() < .15:
                ops += [['row', w], ['flag', w, int(rng.random() < .5)],
                        ['again', w], ['flag', w, int(rng.random() < .5)]]
        pad = rng.choice([1500, 6000, 20000]) if rng.random() < .05 else 0
        if pad:
            # much text is dumped at once
            ops = [op[:2] + [0] if op[0] == 'flag' and rng.random() < .7
                   else op for op in ops]
        return {'streams': streams, 'ops': ops, 'clean': clean, 'pad': pad,
                'ugly': clean and rng.random() < .5,
                'knobs': gen.disk_knobs(rng),
                'faults': gen.faults(
                    rng, gen.LEGAL if clean else kinds,
                    rng.choice([1, 1, 2, 4]), rng.choice([8, 30, 90]))}

    def execute(self, plan, ctx):
        k = plan['knobs']
        with Disk(ctx, plan['faults'], k['buffer'], k['order']) as disk:
            n = len(plan['streams'])
            serial = 0
            S = [dict(store=None, want_flag=False, pend=[], live=None,
                      text=[], breaks=0) for _ in range(n)]
            # text: list of (state, line); state 'acked'|'maybe'
            if n > 1:
                ctx.nontrivial = True

            def verify(w):
                st, spec = S[w], plan['streams'][w]
                name = spec['base'] + '.csv'
                text = disk.read_bytes(name).decode() \
                    if name in disk.names() else ''
                header = csv_line(spec['keys'])
                if plan['ugly']:
                    rows = [csv_line(r) for r in csv.reader(
                        io.StringIO(text, newline=''))]
                else:
                    rows = [x for x in text.replace('\r\n', '\n').split('\n')
                            if x]
                if st['breaks'] == 0:
                    want = [line for state, line in st['text']
                            if state == 'acked']
                    ctx.check(rows == want, 'rows-differ', lambda:
                              'stream %r holds %r, dumped were %r' % (
                                  spec['base'], rows[-6:], want[-6:]))
                    return
                known = [line for _, line in st['text'] if line != header]
                pos = -1
                acked = [line for s, line in st['text']
                         if s == 'acked' and line != header]
                for line in acked:
                    hits = [i for i, r in enumerate(rows) if r == line]
                    ctx.check(len(hits) == 1, 'row-lost-or-repeated', lambda:
                              'acknowledged row %r of %r appears %d times' % (
                                  line, spec['base'], len(hits)))
                    ctx.check(hits[0] > pos, 'row-order', lambda:
                              'row %r of %r is out of order' % (
                                  line, spec['base']))
                    pos = hits[0]
                odd = [r for r in rows if r not in known and r != header]
                ctx.check(len(odd) <= st['breaks'], 'foreign-row', lambda:
                          'stream %r has lines %r that were never recorded '
                          '(%d interruptions can explain as many)' % (
                              spec['base'], odd, st['breaks']))
                for r in known:
                    ctx.check(rows.count(r) <= 1, 'row-lost-or-repeated',
                              'row %r of %r is repeated' % (r, spec['base']))

            def reset(w):
                S[w].update(store=None, want_flag=False, pend=[], live=None)

            def attempt(w, fn):
                try:
                    fn()
                    return True
                except SimCrash:
                    disk.reboot()
                    # the whole process died
                    for v in range(n):
                        if v != w:
                            reset(v)
                    ctx.probe('crash')
                except OSError as exc:
                    ctx.ev('error', exc.errno)
                    ctx.probe('io-error')
                reset(w)
                S[w]['breaks'] += 1
                for v in range(n):
                    verify(v)
                return False

            for op in plan['ops']:
                w = op[1]
                if w >= n:
                    continue
                st, spec = S[w], plan['streams'][w]
                if op[0] == 'restart':
                    if st['text']:
                        ctx.nontrivial = True
                    reset(w)
                    ctx.ev('restart', w)
                elif op[0] == 'again' and not st['want_flag'] and \
                        st['live'] and not st['breaks']:
                    # nothing changed since the row before
                    st['pend'].append(csv_line(st['live'].values()))
                    data = st['live']
                    if attempt(w, lambda: st['store'].send(data)):
                        st['want_flag'] = True
                    ctx.ev('again', w)
                    ctx.probe('equal-rows')
                elif op[0] == 'row' and not st['want_flag']:
                    if st['store'] is None:
                        made = []
                        if not attempt(w, lambda: made.append(
                                self.new_storage(disk, spec['base'], 'csv'))):
                            continue
                        st['store'] = made[0]
                        st['live'] = {}
                        st['pend'] = [csv_line(spec['keys'])]
                    serial += 1
                    for j, key in enumerate(spec['keys']):
                        # one dict, updated in place like simulation.data
                        v = (serial, serial / 8.0, 'r%dc%d' % (serial, j),
                             np.float64(serial / 3.0), serial / 7e9)[
                            (j + serial % 2 * 2) % 5]
                        if j == 0:
                            v = 'id%d' % serial + plan.get('pad', 0) * '.'
                        if plan['ugly'] and j == len(spec['keys']) - 1:
                            v = 'id%d, "q"%sline %d' % (serial, (
                                '\n', '\r\n', '\r\n\r\n', '\n\n',
                                '\r', '\t ', '%s')[serial % 7], j)
                        st['live'][key] = v
                    st['pend'].append(csv_line(st['live'].values()))
                    data = st['live']
                    if attempt(w, lambda: st['store'].send(data)):
                        st['want_flag'] = True
                    ctx.ev('row', w, serial)
                elif op[0] == 'flag' and st['want_flag']:
                    dump = bool(op[2])
                    lines = st['pend']
                    at = len(st['text'])
                    if dump:
                        st['text'] += [('maybe', x) for x in lines]
                    ctx.ev('flag', w, dump)
                    if attempt(w, lambda: st['store'].send(dump)):
                        st['want_flag'] = False
                        if dump:
                            st['text'][at:] = [('acked', x) for x in lines]
                            st['pend'] = []
                            verify(w)
                ctx.state('R04', [(len(s['text']), len(s['pend']),
                                   s['breaks']) for s in S])
            disk.quiesce()
            disk.reboot()
            for w in range(n):
                verify(w)


# --------------------------------------------------------------------------

class FailuresSurface(IO):
    id = 'R05'
    title = 'A storage call that returns has done its work'
    rule = ('Random calls to the chunk, row and geometry writers and loaders '
            'with I/O errors (ENOSPC, EIO, EMFILE on open, write, close, '
            'rename, read) and truncated files.  Non-trivial: an error fired.')
    quick_runs = 1600
    thorough_runs = 60000

    def prepare(self):
        super().prepare()
        from shapely.geometry import LineString, Polygon
        self.LineString, self.Polygon = LineString, Polygon

    def generate(self, rng):
        ops = []
        for _ in range(rng.randint(3, 25)):
            ops.append([rng.choice(['npy', 'npy', 'csv', 'geo', 'load',
                                    'loadgeo', 'cat', 'truncate']),
                        rng.randrange(1000)])
        kinds = gen.swarm(rng, gen.WRITE_ERRORS + gen.READ_ERRORS +
                          gen.LEGAL)
        return {'ops': ops, 'spec': gen_spec(rng),
                'knobs': gen.disk_knobs(rng),
                'faults': gen.faults(rng, kinds, rng.randint(1, 6),
                                     rng.choice([10, 60, 150]))}

    def execute(self, plan, ctx):
        k = plan['knobs']
        with Disk(ctx, plan['faults'], k['buffer'], k['order']) as disk:
            chunks = []             # acked, on disk
            maybe = False           # an unacknowledged chunk may be there
            rows, geo = [], None
            geo_maybe = []
            store = rowstore = None
            damaged = False
            serial = 0

            def quiet(fn):
                disk.enabled = False
                try:
                    return fn()
                finally:
                    disk.enabled = True

            for op, arg in plan['ops']:
                serial += 1
                fired = sum(ctx.faults.values())
                try:
                    if op == 'npy':
                        if store is None:
                            store = self.new_storage(disk, 'agents')
                        batch = []
                        for i in range(1 + arg % 3):
                            f = frame(plan['spec'], serial * 10 + i)
                            batch.append(f.copy())
                            store.send(f)
                            store.send(i == arg % 3)
                        chunks.append(stack(batch))
                        names = disk.names()
                        found = [nm for nm in names if nm.endswith('.npy') and
                                 self._holds(disk, nm, chunks[-1])]
                        ctx.check(len(found) == 1, 'silent-write-failure',
                                  lambda: 'dump returned but %d files hold '
                                  'the chunk' % len(found))
                    elif op == 'csv':
                        if rowstore is None:
                            rowstore = self.new_storage(disk, 'data', 'csv')
                        line = []
                        for i in range(1 + arg % 3):
                            d = {'iterations': serial * 10 + i, 'dt': .5,
                                 'tag': 't%d.%d' % (serial, i)}
                            line.append(csv_line(d.values()))
                            rowstore.send(d)
                            rowstore.send(i == arg % 3)
                        rows += line
                        text = disk.read_bytes('data.csv').decode() \
                            if 'data.csv' in disk.names() else ''
                        have = text.replace('\r\n', '\n').split('\n')
                        for r in rows:
                            ctx.check(have.count(r) == 1,
                                      'silent-write-failure',
                                      'row %r appears %d times after its dump '
                                      'returned' % (r, have.count(r)))
                    elif op == 'geo':
                        g = {'domain': self.Polygon(
                            [(0, 0), (serial, 0), (0, 1 + arg)]),
                            'targets': [self.LineString(
                                [(0, 0), (serial, i)]) for i in range(arg % 4)]
                        }
                        geo_maybe.append(g)
                        self.io.save_geometry_json(disk.path('geometry.json'),
                                                   g)
                        geo, geo_maybe = g, []
                        got = quiet(lambda: self.io.load_geometry_json(
                            disk.path('geometry.json')))
                        ctx.check(got == g, 'silent-write-failure',
                                  'saved geometry does not load back')
                    elif op == 'load' and not damaged:
                        got = self.load(disk, 'agents')
                        self._subset(ctx, got, chunks, maybe)
                    elif op == 'cat' and chunks and not damaged:
                        got = self.io.load_npy_concatenated(disk.root,
                                                            'agents')
                        if not maybe:
                            ctx.check(same(got, stack(chunks)),
                                      'silent-read-failure', lambda:
                                      'concatenation returned %s instead of '
                                      '%s' % (ids(got), ids(stack(chunks))))
                    elif op == 'loadgeo' and (geo is not None):
                        got = self.io.load_geometry_json(
                            disk.path('geometry.json'))
                        ctx.check(got == geo or got in geo_maybe,
                                  'silent-read-failure',
                                  'loaded geometry was never saved')
                    elif op == 'truncate' and chunks and not damaged:
                        names = [nm for nm in disk.names()
                                 if nm.endswith('.npy')]
                        nm = names[arg % len(names)]
                        data = disk.read_bytes(nm)
                        cut = (arg * 7919) % len(data)
                        disk.write_bytes(data[:cut], nm)
                        ctx.fault('truncated-file')
                        try:
                            quiet(lambda: list(self.io.load_npy(
                                disk.root, 'agents')))
                        except Exception:
                            ctx.probe('truncation-detected')
                        else:
                            ctx.fail('silent-read-failure',
                                     'a chunk cut to %d of %d bytes loads '
                                     'without an error' % (cut, len(data)))
                        disk.write_bytes(data, nm)
                    ctx.ev(op, 'ok', sum(ctx.faults.values()) - fired)
                except (OSError, ValueError, EOFError) as exc:
                    new = sum(ctx.faults.values()) - fired
                    ctx.ev(op, 'raised', type(exc).__name__, new)
                    # a failed save may have left a torn geometry behind
                    ctx.check(new > 0 or op == 'loadgeo' and geo_maybe,
                              'spurious-error', lambda:
                              '%s raised %s: %s although no fault was '
                              'injected' % (op, type(exc).__name__, exc))
                    ctx.probe('error-surfaced')
                    if op == 'npy':
                        store, maybe = None, True
                    elif op == 'csv':
                        rowstore = None
                ctx.state('R05', op, len(chunks), maybe, len(rows))
            disk.quiesce()
            disk.reboot()
            got = self.load(disk, 'agents')
            self._subset(ctx, got, chunks, maybe)
            text = disk.read_bytes('data.csv').decode() \
                if 'data.csv' in disk.names() else ''
            have = text.replace('\r\n', '\n').split('\n')
            for r in rows:
                ctx.check(have.count(r) == 1, 'row-lost', 'acknowledged row '
                          '%r appears %d times at the end' % (
                              r, have.count(r)))

    @staticmethod
    def _holds(disk, name, chunk):
        try:
            return same(np.load(io.BytesIO(disk.read_bytes(name))), chunk)
        except Exception:
            return False

    @staticmethod
    def _subset(ctx, got, chunks, maybe):
        if not maybe:
            ctx.check(len(got) == len(chunks) and all(
                same(a, b) for a, b in zip(got, chunks)),
                'silent-read-failure', lambda: 'load returned %s instead of '
                '%s' % ([ids(g) for g in got], [ids(c) for c in chunks]))
            return
        i = 0
        for g in got:
            if i < len(chunks) and same(g, chunks[i]):
                i += 1
        ctx.check(i == len(chunks), 'silent-read-failure', lambda:
                  'load returned %s, acknowledged were %s' % (
                      [ids(g) for g in got], [ids(c) for c in chunks]))


# --------------------------------------------------------------------------

class Geometry(IO):
    id = 'R06'
    title = 'Saved geometry loads back, the last save wins'
    rule = ('Histories of saves and loads of geometry files holding points, '
            'lines, polygons with holes, multi-part geometries, lists, named '
            'groups and missing values, with crashes and I/O errors.  '
            'Non-trivial: a fault fired or a file was saved more than once.')
    quick_runs = 1600
    thorough_runs = 60000
    KINDS = ['point', 'line', 'ring', 'poly', 'hole', 'mpoint', 'mline',
             'mpoly', 'coll', 'none', 'list', 'dict', 'empty-list']

    def prepare(self):
        super().prepare()
        import shapely.geometry as sg
        self.sg = sg

    def generate(self, rng):
        ops = []
        for _ in range(rng.randint(2, 12)):
            r = rng.random()
            if r < .6:
                ops.append(['save', rng.randrange(2), [
                    [rng.choice(['domain', 'obstacles', 'targets', 'spawns',
                                 'type', 'x']),
                     rng.choice(self.KINDS), rng.randrange(100)]
                    for _ in range(rng.randint(0, 5))]])
            else:
                ops.append(['load', rng.randrange(2)])
        kinds = gen.swarm(rng, gen.CRASHES + gen.WRITE_ERRORS +
                          ['read_eio', 'read_short', 'write_short'])
        return {'ops': ops, 'knobs': gen.disk_knobs(rng),
                'faults': gen.faults(rng, kinds, rng.choice([0, 0, 1, 3]),
                                     40)}

    def geom(self, kind, n, depth=0):
        sg = self.sg
        x = n / (4.0, 7.0, 3e5, .013)[n % 4]     # few digits and many
        if kind == 'point':
            return sg.Point(x, -x)
        if kind == 'line':
            return sg.LineString([(x, 0), (1, x), (2, 3 + n)])
        if kind == 'ring':
            return sg.LinearRing([(0, 0), (1 + x, 0), (0, 1 + x)])
        if kind == 'poly':
            return sg.Polygon([(0, 0), (1 + x, 0), (1 + x, 2), (0, 2)])
        if kind == 'hole':
            return sg.Polygon([(0, 0), (9 + x, 0), (9 + x, 9), (0, 9)],
                              [[(1, 1), (2, 1), (1, 2)]])
        if kind == 'mpoint':
            return sg.MultiPoint([(x, 1), (2, x + 5)])
        if kind == 'mline':
            return sg.MultiLineString([[(x, 0), (1, 1)], [(5, 5), (6, x)]])
        if kind == 'mpoly':
            return sg.MultiPolygon([self.geom('poly', n),
                                    self.geom('hole', n)])
        if kind == 'coll':
            return sg.GeometryCollection([self.geom('line', n),
                                          self.geom('point', n)])
        if kind == 'list':
            return [self.geom(k, n) for k in
                    ('line', 'poly', 'mline', 'point')[:1 + n % 4]]
        if kind == 'dict':
            return {('a', 'type', 'coordinates', 'obstacles')[n % 4]:
                    self.geom('line', n), 'b': self.geom('hole', n)}
        if kind == 'empty-list':
            return []
        return None

    def execute(self, plan, ctx):
        k = plan['knobs']
        with Disk(ctx, plan['faults'], k['buffer'], k['order']) as disk:
            last = [None, None]         # last acknowledged, per file
            maybe = [[], []]            # later attempts that failed
            broken = [False, False]

            def load(f, path):
                return self.io.load_geometry_json(path)

            def judge(f, got, strict):
                options = ([last[f]] if last[f] is not None else []) + maybe[f]
                if strict:
                    options = [last[f]]
                ctx.check(any(self.equal(got, o) for o in options),
                          'geometry-differs', lambda:
                          'file %d loads as %r, last saved was %r' % (
                              f, got, options))

            for op in plan['ops']:
                f = op[1] % 2
                path = disk.path('geometry%d.json' % f)
                fired = sum(ctx.faults.values())
                if op[0] == 'save':
                    g = {}
                    for name, kind, n in op[2]:
                        g[name] = self.geom(kind, n)
                        ctx.probe('kind:' + kind)
                    if last[f] is not None:
                        ctx.nontrivial = True
                    ctx.ev('save', f, sorted(g))
                    maybe[f].append(g)
                    try:
                        self.io.save_geometry_json(path, g)
                        last[f], maybe[f], broken[f] = g, [], False
                    except SimCrash:
                        disk.reboot()
                        broken[f] = True
                    except OSError:
                        ctx.check(sum(ctx.faults.values()) > fired,
                                  'spurious-error',
                                  'save failed without a fault')
                        broken[f] = True
                if op[0] == 'load' or not broken[f]:
                    if last[f] is None and not maybe[f]:
                        continue
                    fired = sum(ctx.faults.values())
                    try:
                        got = load(f, path)
                    except SimCrash:
                        disk.reboot()
                        continue
                    except Exception as exc:
                        ctx.check(broken[f] or
                                  sum(ctx.faults.values()) > fired,
                                  'unloadable', lambda:
                                  'loading a saved geometry raised %s: %s' % (
                                      type(exc).__name__, exc))
                        ctx.ev('load', f, 'raised')
                        continue
                    judge(f, got, not broken[f])
                    ctx.ev('load', f, 'ok')
                ctx.state('R06', op[0], f, len(maybe[f]), broken[f],
                          [x[1] for x in op[2]] if op[0] == 'save' else 0)

    def equal(self, a, b):
        if isinstance(a, dict) or isinstance(b, dict):
            return isinstance(a, dict) and isinstance(b, dict) and \
                set(a) == set(b) and all(self.equal(a[k], b[k]) for k in a)
        if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
            return isinstance(a, (list, tuple)) and \
                isinstance(b, (list, tuple)) and len(a) == len(b) and \
                all(self.equal(x, y) for x, y in zip(a, b))
        if a is None or b is None:
            return a is None and b is None
        return type(a) is type(b) and a == b


# --------------------------------------------------------------------------

class Recorder(IO):
    id = 'R07'
    title = 'Recorder keeps frames and rows aligned, one per iteration'
    rule = ('A simulation with one or two SaveSimulationData nodes runs under '
            'crashes, write errors, restarts and changes of working '
            'directory.  Non-trivial: a fault fired or two recorders run.')
    quick_runs = 640
    thorough_runs = 20000
    real = IO.real + ('crowddynamics.simulation.logic.SaveSimulationData',
                      'MultiAgentSimulation.update', 'LogicNodeBase tree')
    stub = IO.stub + ('shapely (stand-in)', 'agents object holding the array')

    def prepare(self):
        super().prepare()
        from crowddynamics.simulation import logic, multiagent, field, agents
        self.logic, self.multi = logic, multiagent
        self.field, self.agents = field, agents
        from shapely.geometry import Polygon, LineString
        self.Polygon, self.LineString = Polygon, LineString
        scn = self

        class Step(logic.LogicNode):
            def update(self):
                sim = self.simulation
                it = sim.data['iterations'] + 1 + sim.offset
                sim.agents.array['position'] = it
                sim.agents.array['target'] = it * 100 + np.arange(
                    len(sim.agents.array))
                sim.data['time_tot'] += 0.5
                sim.data['dt'] = it
                sim.data['done'] = -it
                sim.agents.array['mass'] = -it
        self.Step = Step

        class Reset(logic.LogicNode):
            def update(self):
                sim = self.simulation
                it = sim.data['iterations'] + 1 + sim.offset
                last = self.parent is None or \
                    not isinstance(self.parent, Late)
                sim.data['done'] = it if last else 0.25
                sim.agents.array['mass'] = it if last else 0.25
        self.Reset = Reset

        class Late(Reset):
            """Bookkeeping above Reset, as states are placed"""
        self.Late = Late

    def generate(self, rng):
        kinds = gen.swarm(rng, gen.CRASHES + gen.WRITE_ERRORS + gen.LEGAL)
        sessions = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            sessions.append({
                'iters': rng.randint(1, 25),
                'recorders': [{'freq': rng.choice([1, 2, 3, 5, 50]),
                               'phase': rng.randint(0, 3),
                               'own': int(rng.random() < .25),
                               'dir': d} for d in
                              rng.sample(['rec', 'rec2', 'runs/rec'],
                                         rng.choice([1, 1, 2]))],
                'chdir': rng.randint(0, 12) if rng.random() < .3 else -1,
                'inject': rng.random() < .7,
                'answer': rng.choice([0, 0, 1, 2, 3]),
                'above': rng.choice([0, 0, 0, 1, 2])})
        return {'sessions': sessions, 'size': rng.choice([0, 1, 3, 8]),
                'relative': rng.random() < .3,
                'knobs': gen.disk_knobs(rng),
                'faults': gen.faults(rng, kinds, rng.choice([0, 1, 1, 2]),
                                     rng.choice([20, 60, 200]))}

    def make_sim(self, size, number):
        sim = self.multi.MultiAgentSimulation(
            name=('Hall', 'Room 2', 'x')[number % 3],
            timestamp=datetime.datetime(2017, 3, 1, 12, 0, number,
                                        tzinfo=tzutc()))
        sim.offset = 0
        sim.data['done'] = 0
        sim.field = self.field.Field(
            domain=self.Polygon([(0, 0), (9, 0), (9, 9), (0, 9)]),
            obstacles=self.LineString([(0, 0), (9, 0)]),
            targets=[self.LineString([(9, 0), (9, 9)])],
            spawns=[self.Polygon([(1, 1), (2, 1), (2, 2)])])
        sim.agents = self.agents.Agents(agent_type=self.agents.Circular)
        sim.agents.array = np.zeros(size, dtype=sim.agents.array.dtype)
        return sim

    def execute(self, plan, ctx):
        k = plan['knobs']
        cwd = os.getcwd()
        with Disk(ctx, plan['faults'], k['buffer'], k['order']) as disk:
            disk.enabled = False
            os.mkdir(disk.path('w'))
            os.mkdir(disk.path('w', 'elsewhere'))
            disk.enabled = True
            model = {}      # dir -> list of (state, [iteration numbers])
            breaks = {}
            offset = 0
            try:
                for number, ses in enumerate(plan['sessions']):
                    os.chdir(disk.path('w'))
                    offset = self.session(plan, ctx, disk, ses, model,
                                          breaks, offset, number)
                    disk.reboot()
                    os.chdir(cwd)
                    for d in model:
                        self.verify(plan, ctx, disk, d, model[d], breaks[d])
                disk.quiesce()
            finally:
                os.chdir(cwd)

    def session(self, plan, ctx, disk, ses, model, breaks, offset, number):
        size = max(0, plan['size'])
        sim = self.make_sim(size, number)
        want_done = {}
        sim.offset = offset
        calls = []
        pend = {}
        recs = []
        try:
            sim.logic = self.Reset(sim, name='Reset') << self.Step(sim)
            for i in range(ses['above']):
                sim.logic.root.inject_before(self.Late(sim))
                ctx.probe('nodes-above')
            base = '.' if plan['relative'] else disk.path('w')
            if len(ses['recorders']) > 1:
                ctx.nontrivial = True
            for r in [dict(x) for x in ses['recorders']]:
                def cond(simulation, r=r):
                    ctx.check(simulation is sim, 'save-condition',
                              'save_condition got %r' % (simulation,))
                    calls.append(r['dir'])
                    left = (simulation.data['iterations'] + 1 + r['phase']) \
                        % max(1, r['freq'])
                    # any true or false value answers
                    return ((False, True), (np.bool_(False), np.bool_(True)),
                            (0, 1), (None, 'dump'))[
                        ses.get('answer', 0) % 4][left == 0]
                d = r['dir']
                if r.get('own'):
                    # a directory of its own, named after the run
                    node = self.logic.SaveSimulationData(
                        sim, save_condition=cond, base_directory=base)
                    r['dir'] = d = sim.name_with_timestamp
                    ctx.probe('own-directory')
                    if any(x['dir'] == d for x, _ in recs):
                        r['dir'] = d = 'second'
                        node = self.logic.SaveSimulationData(
                            sim, save_condition=cond, base_directory=base,
                            save_directory='second')
                else:
                    node = self.logic.SaveSimulationData(
                        sim, save_condition=cond, base_directory=base,
                        save_directory=r['dir'])
                ctx.check(disk.isdir('w', d), 'directory', lambda:
                          'the recorder of run %r has no directory %r, there '
                          'are %r' % (sim.name_with_timestamp, d,
                                      disk.names('w')))
                recs.append((r, node))
                pend[r['dir']] = []
                model.setdefault(r['dir'], [])
                breaks.setdefault(r['dir'], 0)
                self.check_static(ctx, disk, sim, r['dir'])
                if ses['inject']:
                    node.add_to_simulation_logic()
                else:
                    sim.logic['Reset'].add_children(node)
            for i in range(ses['iters']):
                if i == ses['chdir']:
                    os.chdir(disk.path('w', 'elsewhere'))
                    ctx.probe('chdir')
                it = sim.data['iterations'] + 1 + offset
                marks = {}
                for r, _ in recs:
                    d = r['dir']
                    dump = (sim.data['iterations'] + 1 + r['phase']) % \
                        max(1, r['freq']) == 0
                    pend[d].append(it if ses['inject'] else -it)
                    if dump:
                        model[d].append(['maybe', pend[d]])
                        marks[d] = len(model[d]) - 1
                        pend[d] = []
                del calls[:]
                ctx.ev('iter', it)
                sim.update()
                ctx.check(sorted(calls) == sorted(
                    r['dir'] for r, _ in recs), 'save-condition', lambda:
                    'save_condition was evaluated %d times in one iteration '
                    'with %d recorders' % (len(calls), len(recs)))
                ctx.check(not ses['inject'] or calls == [
                    r['dir'] for r, _ in recs], 'not-last', lambda:
                    'recorders were added in the order %r, but evaluated as '
                    '%r' % ([r['dir'] for r, _ in recs], calls))
                for d, m in marks.items():
                    model[d][m][0] = 'acked'
                if marks:
                    for d in marks:
                        self.verify(plan, ctx, disk, d, model[d], breaks[d])
                ctx.state('R07', tuple(len(v) for v in pend.values()),
                          len(marks))
            offset += sim.data['iterations']
        except SimCrash:
            ctx.probe('crash')
            offset += 1000
            for d in model:
                breaks[d] += 1
        except OSError as exc:
            ctx.probe('io-error')
            ctx.ev('error', exc.errno)
            offset += 1000
            for d in model:
                breaks[d] += 1
        return offset

    def check_static(self, ctx, disk, sim, d):
        """Metadata and geometry are on disk once the node exists."""
        text = disk.read_bytes('w', d, 'metadata.csv').decode() \
            if 'metadata.csv' in disk.names('w', d) else ''
        ctx.check(csv_line(sim.metadata.values()) in
                  text.replace('\r\n', '\n').split('\n'), 'metadata',
                  'metadata of the simulation is not in metadata.csv: %r'
                  % text)
        disk.enabled = False
        try:
            g = self.io.load_geometry_json(disk.path('w', d,
                                                     'geometry.json'))
        finally:
            disk.enabled = True
        ctx.check(g.get('domain') == sim.field.domain and
                  g.get('obstacles') == sim.field.obstacles and
                  list(g.get('targets') or []) == list(sim.field.targets) and
                  list(g.get('spawns') or []) == list(sim.field.spawns),
                  'geometry', 'geometry.json does not hold the field')

    def verify(self, plan, ctx, disk, d, hist, breaks):
        if not disk.isdir('w', d):
            ctx.check(not any(s == 'acked' for s, _ in hist), 'lost',
                      'directory %s is gone' % d)
            return
        disk.enabled = False
        try:
            chunks = list(self.io.load_npy(disk.path('w', d), 'agents'))
        except Exception as exc:
            ctx.fail('unreadable', 'agents do not load: %s: %s' % (
                type(exc).__name__, exc))
        finally:
            disk.enabled = True
        frames = []
        empty = max(0, plan['size']) == 0
        for c in chunks:
            ctx.check(c.ndim == 2 and c.shape[1] == max(0, plan['size']),
                      'frame-shape', lambda: 'a chunk of a crowd of %d has '
                      'shape %r' % (plan['size'], c.shape))
            for row in c:
                if empty:
                    frames.append(None)
                    continue
                done = int(row['mass'][0])
                it = abs(done)
                ok = np.all(row['position'] == it) and np.all(
                    row['mass'] == done) and np.all(
                    row['target'] == it * 100 + np.arange(len(row)))
                ctx.check(ok, 'mixed-frame', lambda:
                          'a frame mixes iterations: %r, %r' % (
                              row['target'].tolist(), row['mass'].tolist()))
                frames.append(done)
        text = disk.read_bytes('w', d, 'data.csv').decode() \
            if 'data.csv' in disk.names('w', d) else ''
        rows = []
        header = None
        # what follows the last line end is torn
        for line in text.replace('\r\n', '\n').split('\n')[:-1]:
            parts = line.split(',')
            if parts and 'iterations' in line:
                header = parts
                continue
            if len(parts) >= 4 and header:
                try:
                    it = int(float(parts[3]))
                except ValueError:
                    continue
                rows.append((it, line))
        acked = [i for s, its in hist if s == 'acked' for i in its]
        allits = [i for s, its in hist for i in its]
        got_rows = [i for i, _ in rows]
        if empty:
            # frames without agents can only be counted
            ctx.check(len(acked) <= len(frames) <= len(allits) and (
                breaks or len(frames) == len(got_rows)), 'misaligned',
                lambda: '%d frames of the empty crowd in %s, acknowledged '
                'were %d, handed over %d' % (len(frames), d, len(acked),
                                             len(allits)))
            frames = list(got_rows) if not breaks else list(acked)
        for label, got in (('frames', frames), ('rows', got_rows)):
            extra = [i for i in got if i not in allits]
            if label == 'rows' and breaks:
                # torn tails are not complete rows
                extra = []
                got = [i for i in got if i in allits]
            ctx.check(not extra, 'foreign', lambda: '%s %r were never '
                      'recorded' % (label, extra))
            if label == 'rows' and breaks:
                missing = [i for i in acked if i not in got]
                ctx.check(not missing, 'lost', lambda:
                          'rows of acknowledged iterations %r are missing'
                          % missing)
            else:
                kept = [i for i in got if i in set(acked)]
                ctx.check(kept == acked, 'misaligned', lambda:
                          '%s in %s are %r, acknowledged iterations are %r'
                          % (label, d, got, acked))
                ctx.check(got == [i for i in allits if i in set(got)],
                          'misaligned', lambda: '%s are repeated or out of '
                          'order: %r' % (label, got))
        if not breaks:
            ctx.check(frames == got_rows, 'misaligned', lambda:
                      'frames %r and rows %r do not line up' % (
                          frames, got_rows))
            for it, line in rows:
                parts = dict(zip(header, line.split(',')))
                ctx.check(parts.get('dt') == str(abs(it)) and
                          'time_tot' in parts and 'iterations' in parts,
                          'row-content', 'row %r under header %r' % (
                              line, header))


SCENARIOS = [Snapshots, ChunkDurability, SeriesLoading, Rows,
             FailuresSurface, Geometry, Recorder]

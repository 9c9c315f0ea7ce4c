"""Working directory, configuration, command line and block list."""
import builtins
import errno
import itertools
import math
import os
import random
import shutil
import tempfile
from array import array
from collections import Counter, OrderedDict
from fractions import Fraction

from dsim import gen
from dsim.core import BadPlan, Scenario
from dsim.disk import Disk, SimCrash, _real_open
from dsim.sched import Scheduler

import numpy as np
from sortedcontainers import SortedList

RECORD = []         # what simulated user code (config / CLI files) reports


class UserError(Exception):
    pass


class UserInterrupt(BaseException):
    pass


USER_ERRORS = {'user': UserError, 'interrupt': UserInterrupt,
               'value': ValueError, 'os': OSError, 'attr': AttributeError,
               'import': ImportError, 'stop': StopIteration, 'key': KeyError}


class Scratch(object):
    """Private directory; also the seam over os.chdir (enter failures)."""

    def __init__(self, ctx):
        self.ctx = ctx
        base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
        self.root = os.path.realpath(tempfile.mkdtemp('', 'dsim-', base))
        self.armed = None

    def __enter__(self):
        self.home = os.getcwd()
        self.real_chdir = os.chdir

        def chdir(path):
            if self.armed is not None:
                code, self.armed = self.armed, None
                self.ctx.fault('chdir-' + errno.errorcode[code])
                raise OSError(code, os.strerror(code), path)
            return self.real_chdir(path)
        os.chdir = chdir
        return self

    def __exit__(self, *exc):
        os.chdir = self.real_chdir
        os.chdir(self.home)
        if os.path.basename(self.root).startswith('dsim-'):
            shutil.rmtree(self.root, ignore_errors=True)
        return False

    def path(self, *parts):
        return os.path.join(self.root, *parts)

    def write(self, text, *parts):
        p = self.path(*parts)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with _real_open(p, 'w') as fp:
            fp.write(text)
        return p


# --------------------------------------------------------------------------

DIRS = ['a', 'a/b', 'c', 'c/d e', '.', 'x.y']
MODES = ['abs', 'rel', 'missing', 'file', 'fault', 'slash']


class WorkingDirectory(Scenario):
    id = 'U01'
    title = 'The working directory of the caller is left as it was'
    rule = ('nested remember_cwd histories with missing, relative and '
            'unreadable directories, bodies that change directory or raise; '
            'or a consumer that iterates import_simulation_callables step by '
            'step, moving about, closing or throwing.  Non-trivial: a fault '
            'fired (failing chdir, raising body or module).')
    real = ('crowddynamics.utils.remember_cwd',
            'crowddynamics.config.import_simulation_callables',
            'configobj', 'importlib', 'real chdir inside a scratch directory')
    stub = ('user modules are generated', 'os.chdir can be made to fail')
    quick_runs = 3000
    thorough_runs = 150000

    def prepare(self):
        from crowddynamics import config, utils
        self.config, self.utils = config, utils

    def generate(self, rng):
        if rng.random() < 0.5:
            def level(depth):
                return [rng.choice(DIRS), rng.choice(MODES),
                        rng.choice(['', '', '', 'user', 'interrupt', 'value',
                                    'os', 'import', 'key']),
                        rng.choice(['', '', 'cd', 'rmdir']),
                        [level(depth + 1) for _ in range(
                            rng.choice([0, 1, 1, 2]))] if depth < 3 else []]
            return {'what': 'nest', 'levels': [level(0) for _ in range(
                rng.randint(1, 4))]}
        mods = []
        for i in range(rng.randint(1, 3)):
            mods.append({
                'kind': rng.choice(['ok', 'ok', 'ok', 'import', 'user',
                                    'cd', 'missing']),
                'sub': rng.choice(['', '', 'sub']),
                'defs': rng.randint(0, 3),
                'ask': [rng.randrange(4) for _ in range(rng.randint(1, 4))]})
        return {'what': 'callables', 'mods': mods,
                'conf': rng.choice(['abs', 'abs', 'bare', 'rel', 'dotted']),
                'steps': [rng.choice(['next', 'next', 'next', 'next', 'cd',
                                      'close', 'throw-user', 'throw-attr',
                                      'throw-import', 'throw-interrupt'])
                          for _ in range(rng.randint(1, 12))]}

    def execute(self, plan, ctx):
        with Scratch(ctx) as s:
            if plan['what'] == 'nest':
                self.nest(plan, ctx, s)
            else:
                self.callables(plan, ctx, s)

    # -- remember_cwd
    def nest(self, plan, ctx, s):
        for d in DIRS:
            os.makedirs(s.path(d), exist_ok=True)
        s.write('not a directory', 'plain')
        os.chdir(s.root)
        for lev in plan['levels']:
            try:
                self.enter(lev, ctx, s, 0)
            except (UserError, UserInterrupt, ValueError, OSError,
                    ImportError, KeyError):
                pass
            ctx.check(os.getcwd() == s.root, 'cwd-lost', lambda:
                      'working directory is %s after remember_cwd' %
                      os.path.relpath(os.getcwd(), s.root))

    def enter(self, lev, ctx, s, depth):
        d, mode, err, side, inner = lev
        before = os.getcwd()
        target = s.path(d)
        expect = target
        arg = target
        if mode == 'rel':
            arg = os.path.relpath(target, before)
        elif mode == 'slash':
            arg = target + os.sep
        elif mode == 'missing':
            arg, expect = s.path('nothing', 'here'), None
        elif mode == 'file':
            arg, expect = s.path('plain'), None
        elif mode == 'fault':
            s.armed = errno.EACCES
            expect = None
        if expect is not None and not os.path.isdir(expect):
            expect = None
        if expect is not None:
            expect = os.path.realpath(expect)
        entered = False
        raised = None
        given = USER_ERRORS[err]('given') if err else None
        ctx.ev(depth, mode, d, err, side)
        try:
            with self.utils.remember_cwd(arg):
                entered = True
                got = os.getcwd()
                ctx.check(expect is not None, 'entered-nothing', lambda:
                          'the body ran although the directory cannot be '
                          'entered (%s)' % mode)
                ctx.check(got == expect, 'wrong-directory', lambda:
                          'body ran in %s instead of %s' % (got, expect))
                for sub in inner:
                    try:
                        self.enter(sub, ctx, s, depth + 1)
                    except (UserError, UserInterrupt, ValueError, OSError,
                            ImportError, KeyError):
                        pass
                    ctx.check(os.getcwd() == got, 'cwd-lost', lambda:
                              'working directory is %s after a nested '
                              'remember_cwd in %s' % (os.getcwd(), got))
                if side == 'cd':
                    os.chdir(s.path('c'))
                elif side == 'rmdir' and got != s.root and \
                        got != before and not before.startswith(got) and \
                        not os.listdir(got):
                    os.rmdir(got)
                    ctx.fault('directory-removed')
                if given is not None:
                    ctx.fault('body-' + err)
                    raise given
        except BaseException as exc:
            if exc.__class__.__name__ == 'Violation':
                raise
            raised = exc
        finally:
            s.armed = None
        try:
            after = os.getcwd()
        except OSError:
            after = '(removed)'
        ctx.check(after == before, 'cwd-lost', lambda:
                  'working directory was %s and is %s afterwards (%s %s)' % (
                      before, after, mode, err))
        if entered:
            ctx.check(raised is given, 'error-changed', lambda:
                      'the body raised %r and %r came out' % (given, raised))
        else:
            ctx.check(expect is None and isinstance(raised, OSError),
                      'not-entered', lambda: 'directory %s could not be '
                      'entered: %r' % (arg, raised))
        ctx.state(depth, mode, err, side, entered)
        for name in DIRS:
            os.makedirs(s.path(name), exist_ok=True)
        if raised is not None:
            raise raised

    # -- import_simulation_callables
    def callables(self, plan, ctx, s):
        del RECORD[:]
        os.makedirs(s.path('conf', 'sub'))
        os.makedirs(s.path('elsewhere'))
        lines = ['[simulations]']
        want = []           # (module index, name) in configuration order
        stop = None
        for i, m in enumerate(plan['mods']):
            name = 'mod%d' % i
            rel = os.path.join(m['sub'], name + '.py')
            kind = m['kind']
            body = ['import os', 'from dsim.checks import utilities as u',
                    'u.RECORD.append((%d, os.getcwd()))' % i]
            if kind == 'import':
                body.append('raise ImportError("injected")')
            elif kind == 'user':
                body.append('raise u.UserError("injected")')
            elif kind == 'cd':
                body.append('os.chdir(%r)' % s.path('elsewhere'))
            for k in range(m['defs']):
                body.append('def f%d(): return %r' % (k, [i, k]))
            if kind != 'missing':
                s.write('\n'.join(body) + '\n', 'conf', rel)
            asks = ['f%d' % k for k in m['ask']]
            if not asks:
                continue
            lines += ['[[%s]]' % name, 'path = %s' % rel,
                      'functions = %s,' % ', '.join(asks)]
            for k in m['ask']:
                if stop is not None:
                    continue
                if kind in ('user', 'missing'):
                    stop = 'UserError' if kind == 'user' else \
                        'FileNotFoundError'
                elif kind != 'import' and k < m['defs']:
                    want.append((i, k))
            if kind in ('import', 'user', 'missing') and asks:
                ctx.fault('module-' + kind)
        conf = s.write('\n'.join(lines) + '\n', 'conf', 'crowddynamics.cfg')
        moved_ok = True
        os.chdir(s.root)
        if plan['conf'] == 'abs':
            arg = conf
        elif plan['conf'] == 'bare':
            os.chdir(s.path('conf'))
            arg = 'crowddynamics.cfg'
        elif plan['conf'] == 'dotted':
            os.chdir(s.path('conf'))
            arg = os.path.join('.', 'crowddynamics.cfg')
        else:
            arg = os.path.join('conf', 'crowddynamics.cfg')
        here = os.getcwd()
        it = self.config.import_simulation_callables(arg)
        ctx.check(os.getcwd() == here, 'cwd-lost', 'calling '
                  'import_simulation_callables moved the caller')
        got, ended = [], None
        started = False
        for step in plan['steps'] + ['next'] * (len(want) + 1):
            ctx.ev(step)
            if step == 'cd':
                if started or plan['conf'] == 'abs':
                    here = s.path('elsewhere') if here != s.path(
                        'elsewhere') else s.root
                    os.chdir(here)
                    ctx.probe('consumer-moved')
                continue
            if step != 'next' and not started:
                continue
            try:
                if step == 'next':
                    started = True
                    name, func = next(it)
                    got.append((name, func))
                elif step == 'close':
                    it.close()
                    ended = 'closed'
                else:
                    err = USER_ERRORS[step[6:]]('thrown')
                    ctx.fault(step)
                    try:
                        it.throw(err)
                    except BaseException as exc:
                        ctx.check(exc is err, 'error-changed', lambda:
                                  'the consumer threw %r into the iterator '
                                  'and %r came out' % (err, exc))
                    else:
                        ctx.fail('error-lost', 'the consumer threw %r into '
                                 'the iterator, which went on' % (err,))
                    ended = 'thrown'
            except StopIteration:
                ended = 'exhausted'
            except (UserError, FileNotFoundError) as exc:
                ended = type(exc).__name__
            ctx.check(os.getcwd() == here, 'cwd-lost', lambda:
                      'after %s on the iterator the working directory of the '
                      'consumer is %s instead of %s' % (
                          step, os.getcwd(), here))
            if ended:
                break
        names = [(n, f()) for n, f in got]
        exp = [('f%d' % k, [i, k]) for i, k in want]
        ctx.check(names == exp[:len(names)], 'wrong-callables', lambda:
                  'callables %s, expected %s' % (names, exp))
        if ended in ('exhausted', 'UserError', 'FileNotFoundError'):
            ctx.check(len(names) == len(exp) and
                      (stop or 'exhausted') == ended, 'wrong-callables',
                      lambda: 'callables %s then %s, expected %s then %s' % (
                          names, ended, exp, stop or 'exhausted'))
        for i, where in RECORD:
            ctx.check(where == s.path('conf'), 'module-directory', lambda:
                      'module %d was executed in %s' % (
                          i, os.path.relpath(where, s.root)))
        ctx.state(plan['conf'], tuple(m['kind'] for m in plan['mods']), ended,
                  len(got))


# --------------------------------------------------------------------------

KEYS = ['ratio_rt', 'ratio_rs', 'ratio_ts', 'radius_mean', 'radius_scale',
        'target_velocity_mean', 'target_velocity_scale', 'mass_mean',
        'mass_scale']


class Configuration(Scenario):
    id = 'U02'
    title = 'A body type configuration is loaded exactly or refused'
    rule = ('generated body type files, damaged (lines or bytes lost, values '
            'out of bounds or not numbers, keys removed) and read through a '
            'faulty disk.  Non-trivial: a fault fired or the file was '
            'damaged (probe damaged).')
    real = ('crowddynamics.config.load_config', 'the shipped specification',
            'configobj / validate')
    stub = ('disk seam',)
    quick_runs = 2500
    thorough_runs = 120000

    def prepare(self):
        from crowddynamics import config
        self.config = config
        with _real_open(config.BODY_TYPES_CFG_SPEC) as fp:
            self.spec = fp.read()

    def generate(self, rng):
        def num(key):
            if key.startswith('ratio'):
                return rng.choice([0, 1, 0.5, round(rng.random(), 4)])
            return rng.choice([0, 1, round(rng.random() * 100, 4), 1e-3])
        types = [[rng.choice(['adult', 'male', 'child', 'x', 'robot-2',
                              'old man', 'é']),
                  [num(k) for k in KEYS]] for _ in range(rng.randint(1, 4))]
        damage = []
        for _ in range(rng.choice([0, 1, 1, 1, 2])):
            damage.append([rng.choice([
                'drop-key', 'negative', 'above', 'word', 'empty', 'cut',
                'drop-section-line', 'dup-key', 'list', 'extra', 'comment',
                'blank', 'quote']), rng.randrange(4), rng.randrange(9),
                rng.randrange(1000)])
        return dict(types=types, damage=damage, knobs=gen.disk_knobs(rng),
                    shipped=rng.random() < 0.05,
                    # what the file held when it was loaded before
                    earlier=[num(k) for k in KEYS]
                    if rng.random() < .4 else [],
                    again=rng.random() < .3,
                    faults=gen.faults(rng, gen.READ_ERRORS + ['read_short'],
                                      rng.choice([0, 0, 1, 1, 2]), 12))

    def execute(self, plan, ctx):
        if plan['shipped']:
            conf = self.config.load_config(self.config.BODY_TYPES_CFG,
                                           self.config.BODY_TYPES_CFG_SPEC)
            with _real_open(self.config.BODY_TYPES_CFG) as fp:
                self.compare(ctx, conf, fp.read(), 'shipped')
            ctx.probe('shipped')
            return
        seen, rows = set(), []
        for name, values in plan['types']:
            if name in seen or len(values) != 9:
                continue
            seen.add(name)
            rows.append(['[%s]' % name])
            rows[-1] += ['%s = %s' % (k, v) for k, v in zip(KEYS, values)]
        cut = None
        for kind, sec, key, n in plan['damage']:
            if not rows:
                break
            sec %= len(rows)
            row = rows[sec]
            at = 1 + key % 9
            if at >= len(row):
                continue
            ctx.probe('damaged')
            ctx.nontrivial = True
            ctx.ev('damage', kind, sec, key)
            k = row[at].split('=')[0].strip()
            if kind == 'drop-key':
                del row[at]
            elif kind == 'negative':
                row[at] = '%s = -%s' % (k, 0.5 + n)
            elif kind == 'above':
                row[at] = '%s = %s' % (k, 1.5 + n)
            elif kind == 'word':
                row[at] = '%s = %s' % (k, ['wide', '1.2.3', '0,5', '--1',
                                           '1 m', '0x10'][n % 6])
            elif kind == 'empty':
                row[at] = k + ' ='
            elif kind == 'cut':
                cut = n
            elif kind == 'drop-section-line':
                row[0] = ''
            elif kind == 'dup-key':
                row.insert(at, row[at])
            elif kind == 'list':
                row[at] = '%s = 0.1, 0.2' % k
            elif kind == 'extra':
                row.append('colour = red')
            elif kind == 'comment':
                row[at] += '  # a comment'
            elif kind == 'blank':
                row.insert(at, '')
            elif kind == 'quote' and '=' in row[at]:
                row[at] = '%s = "%s"' % (k, row[at].split('=', 1)[1].strip())
        text = '\n'.join('\n'.join(r) for r in rows) + '\n'
        data = text.encode('utf-8')
        if cut is not None and data:
            data = data[:cut % len(data)]
            while True:
                try:
                    text = data.decode('utf-8')
                    break
                except UnicodeDecodeError:
                    data = data[:-1]
        with Disk(ctx, plan['faults'], plan['knobs']['buffer'],
                  plan['knobs']['order']) as disk:
            disk.write_bytes(self.spec.encode(), 'spec.cfg')
            if len(plan.get('earlier', ())) == len(KEYS):
                disk.enabled = False
                old = '\n'.join(['[%s]' % (plan['types'] or [['x']])[0][0]] + [
                    '%s = %s' % kv for kv in zip(KEYS, plan['earlier'])])
                disk.write_bytes(old.encode('utf-8'), 'types.cfg')
                conf = self.config.load_config(disk.path('types.cfg'),
                                               disk.path('spec.cfg'))
                self.compare(ctx, conf, old, 'earlier')
                for section in conf.values():
                    section.clear()     # the caller may do as it likes
                ctx.probe('loaded-before')
                disk.enabled = True
            disk.write_bytes(data, 'types.cfg')
            fired = sum(ctx.faults.values())
            try:
                conf = self.config.load_config(disk.path('types.cfg'),
                                               disk.path('spec.cfg'))
            except Exception as exc:
                ctx.ev('refused', type(exc).__name__)
                ctx.state('refused', type(exc).__name__,
                          tuple(sorted(d[0] for d in plan['damage'])))
                hard = [k for k in ctx.faults if k != 'read_short']
                ctx.check(hard or self.wrong(text), 'refused-valid', lambda:
                          '%s: %s for a valid file' % (
                              type(exc).__name__, exc))
                disk.quiesce()
                if self.wrong(text) or not hard:
                    return
                # the fault is over: the same file loads
                conf = self.config.load_config(disk.path('types.cfg'),
                                               disk.path('spec.cfg'))
                ctx.probe('recovered')
            ctx.check(not self.wrong(text), 'accepted-invalid', lambda:
                      'loaded although %s:\n%s' % (self.wrong(text), text))
            self.compare(ctx, conf, text, 'generated')
            if plan.get('again'):
                disk.quiesce()
                for section in conf.values():
                    if hasattr(section, 'clear'):
                        section.clear()
                self.compare(ctx, self.config.load_config(
                    disk.path('types.cfg'), disk.path('spec.cfg')), text,
                    'loaded again')
                ctx.probe('loaded-again')
            ctx.state('loaded', len(rows),
                      tuple(sorted(d[0] for d in plan['damage'])))

    @staticmethod
    def parse(text):
        """Independent reader: {section: [(key, raw), ...]}, or a reason."""
        out, cur, loose = OrderedDict(), None, []
        for line in text.split('\n'):
            line = line.split('  #')[0].strip()
            if not line:
                continue
            if line.startswith('['):
                if not line.endswith(']'):
                    return None, 'a section line is damaged'
                name = line[1:-1].strip()
                if name in out or not name:
                    return None, 'a section is repeated'
                cur = out[name] = []
            elif '=' not in line:
                return None, 'a line has no value'
            else:
                k, v = line.split('=', 1)
                v = v.strip()
                if len(v) > 2 and v[0] == v[-1] == '"' and \
                        '"' not in v[1:-1]:
                    v = v[1:-1]
                (loose if cur is None else cur).append((k.strip(), v))
        if len(set(k for k, _ in loose)) != len(loose):
            return None, 'a key is repeated'
        return out, None

    def wrong(self, text):
        """None, or why the file breaks the shipped specification."""
        doc, why = self.parse(text)
        if doc is None:
            return why
        for name, items in doc.items():
            keys = [k for k, _ in items]
            if len(set(keys)) != len(keys):
                return 'a key of [%s] is repeated' % name
            d = dict(items)
            for k in KEYS:
                if k not in d:
                    return '%s of [%s] is missing' % (k, name)
                try:
                    v = float(d[k])
                except ValueError:
                    return '%s of [%s] is %r' % (k, name, d[k])
                if v < 0 or (k.startswith('ratio') and v > 1):
                    return '%s of [%s] is %s' % (k, name, v)
        return None

    def compare(self, ctx, conf, text, what):
        doc, why = self.parse(text)
        ctx.check(list(conf.sections) == list(doc), 'wrong-sections', lambda:
                  'sections %s, the file has %s' % (conf.sections, list(doc)))
        for name, items in doc.items():
            for k, raw in items:
                if k not in KEYS:
                    continue
                got = conf[name][k]
                ctx.check(isinstance(got, float) and got == float(raw),
                          'wrong-value', lambda: '%s of [%s] is %r, the file '
                          'says %s' % (k, name, got, raw))
            for k in KEYS:
                v = conf[name].get(k)
                ok = isinstance(v, float) and v >= 0 and not (
                    k.startswith('ratio') and v > 1)
                ctx.check(ok, 'out-of-bounds', lambda: '%s of [%s] is %r' % (
                    k, name, v))


# --------------------------------------------------------------------------

OPTION_NAMES = ['size', 'width', 'speed', 'flag', 'mode', 'label', 'pair',
                'n', 'agent_count', 'height', 'depth', 'kind', 'label2',
                'zone', 'a_b_c']
CLASS_NAMES = ['Hall', 'Room', 'Corridor', 'Plaza', 'Exit', 'Stairs',
               '_Hall', 'hall']
FILE_NAMES = ['a.py', 'b.py', 'sim.py', 'zeta.py', 'm1.py', '_hidden.py',
              # names of modules that are in use already
              'json.py', 'random.py', 'agents.py', 'traitlets.py', 'cli.py',
              'my sim.py', 'v1.2.py', '__init__.py', 'A.py', 'Sim.py']
# files that are not Python files
JUNK = ['junk.txt', 'junk.pyc', 'junkpy', 'junk.spy', 'junk.py~', 'junk.py.bak',
        '.py', 'junk.pyx', 'py']


class CommandLine(Scenario):
    id = 'U03'
    title = 'The run command executes the named simulations, as asked'
    rule = ('directories of 1-3 generated simulation files, listed in random '
            'order, and command lines chaining 1-4 simulations with options; '
            'simulations may fail.  Non-trivial: two or more simulations are '
            'registered, or a simulation failed.')
    real = ('crowddynamics.cli', 'crowddynamics.traits.trait_to_option',
            'crowddynamics.utils.import_subclasses', 'click', 'traitlets')
    stub = ('the run loop of the generated simulations records its options',
            'setup_logging is a no-op', 'directory listing order')
    quick_runs = 1500
    thorough_runs = 60000

    def prepare(self):
        from crowddynamics import cli
        self.cli = cli
        cli.setup_logging = lambda *a, **k: None

    def generate(self, rng):
        files = []
        for fname in rng.sample(FILE_NAMES, rng.choice([1, 1, 2, 3])):
            classes = []
            for cname in rng.sample(CLASS_NAMES, rng.choice([0, 1, 2, 3])):
                opts = [[o, self.gen_trait(rng)] for o in rng.sample(
                    OPTION_NAMES, rng.choice([0, 1, 2, 3, 5, 7, 14]))]
                classes.append([cname, opts, rng.choice(['', '', '', '',
                                                         'user', 'value']),
                                rng.randrange(4)])
            files.append([fname, classes])
        calls = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            calls.append([[rng.randrange(10), [[rng.randrange(5),
                                                rng.choice([
                                                    0, rng.randrange(100),
                                                    rng.randrange(100)])]
                                               for _ in range(rng.choice(
                                                   [0, 1, 2]))]]
                          for _ in range(rng.choice([1, 1, 2, 4]))])
        return {'files': files, 'calls': calls,
                'order': rng.randrange(1 << 30),
                'junk': rng.choice(['', '', 'dir'] + JUNK),
                'loglevel': rng.choice(['', '', 'INFO', 'DEBUG', 'bogus',
                                        'help', 'ERROR']),
                'here': rng.choice(['cwd', 'cwd', 'cwd', 'path'])}

    @staticmethod
    def gen_trait(rng):
        kind = rng.choice(['int', 'int-bounds', 'float', 'bool', 'unicode',
                           'enum', 'tuple', 'complex', 'texts'])
        return [kind, rng.randrange(50)]

    @staticmethod
    def trait_source(t):
        kind, v = t
        return {'int': 'Int(%d)' % v,
                'int-bounds': 'Int(%d, min=0, max=50)' % v,
                'float': 'Float(%r)' % (v / 4),
                'bool': 'Bool(False)',
                'unicode': 'Unicode(%r)' % ('u%d' % v),
                'enum': "Enum(['red', 'green', 'blue'], "
                        "default_value='red')",
                'tuple': 'Tuple(Int(), Float(), default_value=(%d, 0.5))' % v,
                'texts': 'Tuple(Unicode(), Int(), default_value=("t", %d))' % v,
                'complex': 'Complex(%r)' % complex(v, 1)}[kind]

    @staticmethod
    def trait_default(t):
        kind, v = t
        return {'int': v, 'int-bounds': v, 'float': v / 4, 'bool': False,
                'unicode': 'u%d' % v, 'enum': 'red', 'tuple': (v, 0.5),
                'texts': ('t', v),
                'complex': complex(v, 1)}[kind]

    @staticmethod
    def given(name, t, n):
        """-> (argv, value) or (argv, None) when it must be refused."""
        kind, _ = t
        flag = '--' + name
        if kind == 'int':
            return ([flag, str(n)], n) if n % 7 != 6 else (
                [flag, 'wide'], None)
        if kind == 'int-bounds':
            return [flag, str(n)], n if n <= 50 else None
        if kind == 'float':
            return ([flag, str(n / 8)], n / 8) if n % 7 != 6 else (
                [flag, 'fast'], None)
        if kind == 'bool':
            return [flag], True
        if kind == 'unicode':
            text = 's %d' % n if n % 5 else ''
            return [flag, text], text
        if kind == 'enum':
            v = ['red', 'green', 'blue', 'pink'][n % 4]
            return [flag, v], v if v != 'pink' else None
        if kind == 'tuple':
            return [flag, str(n), str(n / 2)], (n, n / 2)
        if kind == 'texts':
            return [flag, 't %d' % n, str(n)], ('t %d' % n, n)
        return [flag, '%d+2j' % n], complex(n, 2)

    def execute(self, plan, ctx):
        cli = self.cli
        del RECORD[:]
        cli.run.commands.clear()
        with Scratch(ctx) as s:
            work = s.path('work')
            os.makedirs(work)
            owners = OrderedDict()
            order = random.Random(plan['order'])
            uniq = 0
            for fname, classes in sorted(plan['files']):
                src = ['from traitlets import *',
                       'from crowddynamics.simulation.multiagent import '
                       'MultiAgentSimulation',
                       'from dsim.checks import utilities as u']
                above = None
                for cname, opts, fail, inherit in classes:
                    uniq += 1
                    names = [o for o, _ in opts]
                    if len(set(names)) != len(names):
                        raise BadPlan()
                    # a simulation can extend another one of the file
                    base = above if inherit == 0 and above else \
                        'MultiAgentSimulation'
                    above = cname
                    src += ['class %s(%s):' % (cname, base),
                            '    dsim_uid = %d' % uniq]
                    src += ['    %s = %s' % (o, self.trait_source(t))
                            for o, t in opts]
                    src += ['    def update(self):',
                            '        u.RECORD.append((%d, type(self).__name__'
                            ', [getattr(self, o) for o in %r]))' % (uniq,
                                                                    names),
                            '        self.exit_condition = lambda _: True']
                    if fail:
                        src.append('        raise u.USER_ERRORS[%r]("given")'
                                   % fail)
                    owners.setdefault(cname, {})[uniq] = (uniq, opts, fail)
                s.write('\n'.join(src) + '\n', 'work', fname)
            if plan['junk'] == 'dir':
                os.makedirs(s.path('work', 'folder'))
            elif plan['junk']:
                if plan['junk'] not in JUNK:
                    raise BadPlan()
                s.write('this is not python (', 'work', plan['junk'])
            if len(owners) > 1:
                ctx.nontrivial = True
            real_listdir = os.listdir

            def listdir(path='.'):
                out = sorted(real_listdir(path))
                order.shuffle(out)
                return out
            os.listdir = listdir
            try:
                os.chdir(work)
                # the same file must win however the directory is listed
                won = None
                for _ in range(3):
                    found = cli.import_simulations()
                    ctx.check(sorted(found) == sorted(owners),
                              'wrong-simulations', lambda:
                              'import_simulations() found %s, expected %s' % (
                                  sorted(found), sorted(owners)))
                    uids = {k: c.dsim_uid for k, c in found.items()}
                    ctx.check(won in (None, uids), 'listing-order', lambda:
                              'simulations of the same name come from '
                              'different files when the directory is listed '
                              'in another order: %s, %s' % (won, uids))
                    won = uids
                    if max([len(o) for o in owners.values()] + [1]) == 1:
                        break
                    ctx.probe('duplicate-name')
                expect = {}
                for k, uid in won.items():
                    ctx.check(uid in owners[k], 'wrong-simulations',
                              'the class of another name was found')
                    expect[k] = owners[k][uid]
                if plan['here'] == 'path':
                    os.chdir(s.root)
                    for arg in ('work', work):
                        try:
                            found = {k: c.dsim_uid for k, c in
                                     cli.import_simulations(arg).items()}
                        except OSError as exc:
                            found = str(exc)
                        ctx.check(found == won, 'wrong-simulations', lambda:
                                  'import_simulations(%r) found %s, and %s '
                                  'inside of the directory' % (
                                      arg, found, won))
                    ctx.state('path', len(expect))
                    os.chdir(work)
                text = io_quiet(lambda: cli.main.main(
                    ['list'], standalone_mode=False))
                missing = [k for k in expect if "'%s'" % k not in text]
                ctx.check(not missing, 'wrong-list', lambda: 'the list '
                          'command does not show %s' % missing)
                ctx.check(not RECORD, 'ran-unasked', 'a simulation ran '
                          'while simulations were listed')
                cli.simulation_commands()
                ctx.check(sorted(cli.run.commands) == sorted(expect),
                          'wrong-commands', lambda: 'commands %s, expected '
                          '%s' % (sorted(cli.run.commands), sorted(expect)))
                ctx.check(not RECORD, 'ran-unasked', 'a simulation ran '
                          'while the commands were made')
                for call in plan['calls']:
                    self.call(plan, ctx, expect, call)
                ctx.check(os.getcwd() == work, 'cwd-lost',
                          'the command moved the working directory')
            finally:
                os.listdir = real_listdir
                cli.run.commands.clear()

    def call(self, plan, ctx, expect, call):
        import click
        names = sorted(expect)
        argv, want, refused, raised = ['run'], [], False, None
        if plan['loglevel'] == 'help':
            argv.append('--help')
        elif plan['loglevel']:
            argv += ['--loglevel', plan['loglevel']]
            refused = plan['loglevel'] == 'bogus'
        if not names or not call:
            return
        for pick, opts in call:
            name = names[pick % len(names)]
            uid, traits, fail = expect[name]
            argv.append(name)
            values = {o: self.trait_default(t) for o, t in traits}
            seen = set()
            for o, n in opts:
                if not traits:
                    continue
                oname, t = traits[o % len(traits)]
                if oname in seen:
                    continue
                seen.add(oname)
                extra, v = self.given(oname, t, n)
                argv += extra
                if v is None:
                    refused = True
                    ctx.probe('bad-option')
                else:
                    values[oname] = v
            if raised is None:
                want.append((uid, name, [values[o] for o, _ in traits]))
                if fail:
                    raised = fail
        del RECORD[:]
        ctx.ev(' '.join(argv))
        got = None
        try:
            io_quiet(lambda: self.cli.main.main(
                argv, standalone_mode=False))
        except click.ClickException:
            got = 'refused'
        except (UserError, ValueError) as exc:
            if str(exc) != 'given':
                ctx.fail('command-crashed', '"%s": %s: %s' % (
                    ' '.join(argv), type(exc).__name__, exc))
            got = exc
        except SystemExit as exc:
            ctx.check(plan['loglevel'] == 'help' and not exc.code,
                      'command-crashed', lambda: '"%s" exits with %s' % (
                          ' '.join(argv), exc.code))
        except Exception as exc:
            ctx.fail('command-crashed', '"%s": %s: %s' % (
                ' '.join(argv), type(exc).__name__, exc))
        if plan['loglevel'] == 'help':
            ctx.check(not RECORD, 'ran-unasked', '--help ran simulations')
            return
        if refused:
            ctx.check(got == 'refused' and not RECORD, 'ran-refused', lambda:
                      '%s was run: %s' % (' '.join(argv), RECORD))
            return
        ctx.check(RECORD == want, 'wrong-run', lambda: '"%s" ran %s instead '
                  'of %s' % (' '.join(argv), [r[1:] for r in RECORD],
                             [w[1:] for w in want]))
        if raised:
            ctx.fault('simulation-' + raised)
            ctx.check(isinstance(got, USER_ERRORS[raised]), 'error-lost',
                      lambda: 'the error of the simulation became %r' % got)
        else:
            ctx.check(got is None, 'refused', lambda: '"%s" was refused' %
                      ' '.join(argv))
        ctx.state(len(call), refused, raised, len(want), len(expect))


def io_quiet(func):
    import contextlib
    import io
    with contextlib.redirect_stdout(io.StringIO()) as out, \
            contextlib.redirect_stderr(io.StringIO()):
        func()
    return out.getvalue()


# --------------------------------------------------------------------------

class KeyFault(Exception):
    pass


class Custom(object):
    """Minimal list type: append, +, iteration.  Appends can fail."""
    hook = None

    def __init__(self, items=()):
        self.items = list(items)

    def append(self, value):
        if Custom.hook is not None:
            Custom.hook(value)
        self.items.append(value)

    def __add__(self, other):
        return Custom(self.items + list(other))

    def __iter__(self):
        return iter(self.items)

    def __len__(self):
        return len(self.items)


class Ordered(SortedList):
    """Sorted list whose append takes values in any order."""

    def append(self, value):
        self.add(value)


LISTS = {'list': list, 'sorted': Ordered,
         'array': lambda: array('q'), 'custom': Custom}


class BlockList(Scenario):
    id = 'B01'
    title = 'The block list returns exactly the values of the blocks asked'
    rule = ('1-4 clients insert and query one block list; keys are iterators '
            'that yield to the other clients, or raise, while they are read; '
            'appends of the list type can fail.  Non-trivial: clients '
            'interleaved or a fault fired.')
    real = ('crowddynamics.core.block_list.MutableBlockList',
            'sortedcontainers', 'array')
    stub = ('cooperative scheduler in place of threads',)
    quick_runs = 4000
    thorough_runs = 200000

    def prepare(self):
        from crowddynamics.core import block_list
        self.cls = block_list.MutableBlockList

    def generate(self, rng):
        dim = rng.choice([1, 2, 2, 2, 3, 3, 4, 5])
        span = rng.choice([1, 2, 4, 1000, 10 ** 9])
        value = itertools.count()

        def key():
            return [[rng.choice([0, 0, 1, -1, rng.randint(-span, span)]),
                     rng.choice([0, 25, 50, 75, 99, 1])]
                    for _ in range(dim)]

        def op():
            k = rng.random()
            fault = rng.choice([None] * 8 + [rng.randrange(dim)])
            if k < 0.55:
                return ['set', key(), next(value), fault,
                        rng.random() < 0.06]
            if k < 0.7:
                return ['get', key(), 0, fault, False]
            return ['near', key(), rng.choice(
                [0, 1, 1, -1, -1, 2, 3] if dim < 4 else [0, 1, -1]), fault,
                    rng.random() < 0.3]
        clients = [[op() for _ in range(rng.randint(1, 10))]
                   for _ in range(rng.choice([1, 2, 3, 4]))]
        if rng.random() < .02:
            # a list of many blocks
            dim, span = rng.choice([1, 2, 3]), 1000
            clients[0] = [['set', key(), next(value), None, False]
                          for _ in range(rng.choice([80, 300]))]
            for c in clients[1:]:
                c[:] = [op() for _ in range(6)]
            for _ in range(4):
                kind = rng.choice(['set', 'get', 'near', 'near'])
                clients[0].append([
                    kind, rng.choice(clients[0])[1],
                    {'set': next(value), 'near': rng.choice([0, 1, 2])}.get(
                        kind, 0), None, False])
        return {'dim': dim, 'type': rng.choice(sorted(LISTS)),
                'cell': rng.choice([[1, 1], [1, 2], [2, 1], [7, 2], [1, 8],
                                    [1000, 1], [3, 5], [1, 10], [1, 3]]),
                'form': rng.choice(['iter', 'iter', 'tuple', 'list', 'int',
                                    'numpy', 'mixed']),
                'dups': rng.choice([0, 0, 1, 3]),
                'other': rng.choice([0, 0, 3]),
                'clients': clients,
                'sched': [rng.randrange(8) for _ in
                          range(rng.choice([0, 30, 150]))]}

    def execute(self, plan, ctx):
        if len(plan['cell']) != 2 or not plan['cell'][1]:
            raise BadPlan()
        cell = Fraction(*plan['cell'])
        if cell <= 0:
            raise BadPlan()
        size = float(cell) if cell.denominator > 1 else int(cell)
        bl = self.cls(size, LISTS[plan['type']])
        # an independent list of the same kind in the same process
        other = self.cls(size * 2, LISTS[plan['type']])
        noise = [-1000 - k for k in range(plan['other'])]
        for k, v in enumerate(noise):
            other[[float(k % 2 * cell) for _ in range(plan['dim'])]] = v
        sched = Scheduler(ctx, plan['sched'])
        clock = itertools.count(1)
        log = []            # (value, block, invoked, returned | None)
        failing = set()
        multi = len(plan['clients']) > 1

        def hook(value):
            sched.point('append')
            if value in failing:
                ctx.fault('append')
                raise KeyFault('append')
        Custom.hook = hook

        def block(key):
            return tuple(k for k, _ in key)

        def coords(key):
            # exact in binary: frac is a multiple of 1/128 of a cell
            out = []
            for k, f in key:
                if cell.denominator not in (1, 2, 4, 8):
                    f = 25 + f // 2     # away from the rounded border
                x = (k + Fraction(f * 127 // 100, 128)) * cell
                if cell.denominator == 1 and (plan['form'] == 'int' or (
                        plan['form'] == 'mixed' and f % 2)):
                    out.append(int(k * cell))
                else:
                    out.append(float(x))
            return out

        def make_key(key, fault):
            xs = coords(key)
            if plan['form'] == 'tuple' and fault is None:
                return tuple(xs)
            if plan['form'] == 'list' and fault is None:
                return xs
            if plan['form'] == 'numpy' and fault is None:
                return np.array(xs)

            def it():
                for i, x in enumerate(xs):
                    sched.point('key')
                    if fault == i:
                        ctx.fault('key')
                        raise KeyFault('key')
                    yield x
            return it()

        def near(a, b, r):
            return all(abs(p - q) <= r for p, q in zip(a, b))

        def expect(name, got, blk, r, start):
            end = next(clock)
            got = Counter(got)
            must, may = Counter(), Counter()
            for v, b, t0, t1 in log:
                if near(b, blk, r):
                    may[v] += 1
                    if t1 is not None and t1 < start:
                        must[v] += 1
            ctx.check(not (must - got), 'lost-value', lambda: '%s of block '
                      '%s radius %d misses %s' % (
                          name, blk, r, dict(must - got)))
            ctx.check(not (got - may), 'foreign-value', lambda: '%s of block '
                      '%s radius %d has %s that were not put there' % (
                          name, blk, r, dict(got - may)))

        def client(c, ops):
            for op, key, arg, fault, flag in ops:
                if len(key) != plan['dim']:
                    raise BadPlan()
                blk = block(key)
                start = next(clock)
                if op == 'set':
                    value = arg * 8 + c
                    bad = flag and plan['type'] == 'custom'
                    if plan['dups'] and not bad:
                        value = 10 ** 6 + arg % plan['dups']
                    if bad:
                        failing.add(value)
                    entry = [value, blk, start, None]
                    log.append(entry)
                    err = None
                    try:
                        bl[make_key(key, fault)] = value
                    except KeyError:
                        err = 'key'
                    except KeyFault:
                        err = 'append'
                    exp = 'key' if fault is not None else \
                        'append' if bad else None
                    ctx.check(err == exp, 'wrong-error', lambda: 'insertion '
                              'failed with %s, expected %s' % (err, exp))
                    if err:
                        # never there, at no time
                        del log[[i for i, e in enumerate(log)
                                 if e is entry][0]]
                    else:
                        entry[3] = next(clock)
                    continue
                try:
                    if op == 'get':
                        got = bl[make_key(key, fault)]
                    else:
                        got = bl.nearest(make_key(key, fault)) if arg < 0 \
                            else bl.nearest(make_key(key, fault), radius=arg)
                except KeyError:
                    ctx.check(fault is not None, 'wrong-error',
                              'query of a good key raised KeyError')
                    continue
                ctx.check(fault is None, 'wrong-error', lambda: 'a key that '
                          'fails was accepted by %s' % op)
                ctx.probe(op)
                expect(op, list(got), blk, abs(arg) if op == 'near' else 0,
                       start)
                if op == 'near' and flag and plan['type'] == 'list':
                    got.append(-1)      # the caller owns the result
                    ctx.probe('result-mutated')
        for c, ops in enumerate(plan['clients']):
            sched.spawn('c%d' % c, lambda c=c, ops=ops: client(c, ops))
        try:
            sched.run()
        finally:
            Custom.hook = None
        for t in sched.tasks:
            if t.error is not None:
                raise t.error
        for v, b, _, _ in log:
            centre = [(k + Fraction(1, 2)) * cell for k in b]
            for r in (0, 1):
                expect('nearest', list(bl.nearest(
                    [float(x) for x in centre], radius=r)), b, r,
                    next(clock))
        got = list(other.nearest([0.] * plan['dim'], radius=1))
        ctx.check(sorted(got) == sorted(noise), 'foreign-value', lambda:
                  'another block list holds %s, it was given %s' % (
                      got, noise))
        ctx.state(plan['dim'], plan['type'], len(log))


SCENARIOS = [WorkingDirectory, Configuration, CommandLine, BlockList]

"""C28: answers come one per line as soon as they are found, and the tools can be chained through pipes.

Monitor: who reads and writes when. The line by line tools are fed from a stream that records how many answers
have been written when each request is read; generators run on an external solver that fails at its n-th call;
boards with astronomically many layouts are enumerated until the first few lines are there; real processes are
driven request by request, chained, and cut off by a reader that leaves.
"""
import io
import json
import os
import random
import select
import shlex
import signal
import subprocess
import sys
import time

from checks import c16
from lib import bp, core, gen, scenes
from lib import layout as L

PATIENCE = 40

SOLVER = '''
import os, sys, time
with open('calls', 'a') as f:
    f.write('.')
    n = f.tell()
if n >= int(os.environ['FAIL_AT']):
    sys.exit(1)
from pysat.formula import CNF
from pysat.solvers import Solver
cnf = CNF(from_string=sys.stdin.read())
with Solver(name='g3', bootstrap_with=cnf.clauses) as s:
    if s.solve():
        print('s SATISFIABLE')
        print('v ' + ' '.join(map(str, s.get_model())) + ' 0')
        sys.exit(10)
    print('s UNSATISFIABLE')
    sys.exit(20)
'''


# ---------------------------------------------------------------------------
# line by line tools
# ---------------------------------------------------------------------------

class Feed(io.TextIOBase):
    """Standard input that hands out one line at a time and notes how much had been written by then."""

    def __init__(self, lines, written):
        self.lines, self.written, self.seen, self.next = lines, written, [], 0

    def readable(self):
        return True

    def readline(self, size=-1):
        self.seen.append(self.written())
        if self.next >= len(self.lines):
            return ''
        self.next += 1
        return self.lines[self.next - 1]

    def __next__(self):
        line = self.readline()
        if not line:
            raise StopIteration
        return line

    def read(self, size=-1):
        return ''.join(iter(self.readline, ''))

    def readlines(self, hint=-1):
        return list(iter(self.readline, ''))


class Out(io.TextIOBase):
    def __init__(self):
        self.chunks, self.length, self.flushed = [], 0, []

    def writable(self):
        return True

    def write(self, text):
        self.chunks.append(text)
        self.length += len(text)
        return len(text)

    def flush(self):
        self.flushed.append(self.length)


def layouts(rng, number, **how):
    found = []
    while len(found) < number:
        rows = scenes.scene(rng, **how)[0]
        if any(t[0] not in 'EF' for row in rows for t in row):
            found.append(rows)
    return found


def json_line(rows):
    return json.dumps(L.write_layout(rows)) + '\n'


def alone(tool, argv, request):
    """What the tool prints for one request."""
    return core.run_cli(tool, argv, request).out


def requests(rng, number):
    """(tool, argv, requests), every request a text of one or more lines."""
    kind = rng.choice(('rotate', 'rotate', 'draw', 'read', 'encode', 'encode', 'decode'))
    rows = layouts(rng, number, inserters=kind != 'read', fillers=kind in ('rotate', 'draw'), largest=rng.choice((4, 6, 9, 14)))
    if kind == 'rotate':
        return 'rotate', rng.choice([[op] for op in c16.ORACLE] + [[]]), [json_line(r) for r in rows]
    if kind == 'draw':
        return 'stringifier', ['encode'], [json_line(r) for r in rows]
    if kind == 'read':
        return 'stringifier', ['decode'], [alone('stringifier', ['encode'], json_line(r)) for r in rows]
    level = rng.choice(('normal', 'fast', 'express'))
    if kind == 'encode':
        return 'blueprint', ['encode'] + rng.choice(([], ['--level', level], ['--label', 'a b'])), [json_line(r) for r in rows]
    return 'blueprint', ['decode'], [bp.pack(bp.make(bp.entities_of(r, level))) + '\n' for r in rows]


def stream(seed, rounds):
    rng = random.Random(seed)
    report = core.Report()
    for _ in range(rounds):
        tool, argv, asked = requests(rng, rng.choice((1, 2, 3, 5)))
        answers = [alone(tool, argv, request) for request in asked]
        context = {'tool': tool, 'argv': argv, 'requests': asked}
        if any(not a.endswith('\n') for a in answers):
            report.violation(f'alone:{tool}', 'a request asked alone is not answered by whole lines', context)
            return report
        if any('\n' in a.rstrip('\n') for a in answers) and (tool, argv) != ('stringifier', ['encode']):
            report.violation(f'lines:{tool}', 'an answer takes more than one line', context)
            return report
        text = ''.join(asked)
        cut = rng.random() < 0.3
        if cut:
            text = text[:-1]
        lines = text.splitlines(keepends=True)
        out = Out()
        feed = Feed(lines, lambda: out.length)
        module = core.tool(tool)
        old = sys.argv, sys.stdin, sys.stdout
        sys.argv, sys.stdin, sys.stdout = [tool] + argv, feed, out
        try:
            module.main()
        except EOFError:
            pass
        except Exception as e:
            context['error'] = repr(e)
        finally:
            sys.argv, sys.stdin, sys.stdout = old
        written = ''.join(out.chunks)
        context.update(written=written[:3000], seen=feed.seen, cut=cut)
        report.count('requests_' + tool, len(asked))
        report.observe((tool, tuple(argv), text))
        if written != ''.join(answers):
            report.violation(f'answers:{tool}' + (':cut' if cut else ''), 'requests one after the other are not answered as they are one by one'
                             + (' (no newline at the end of the last one)' if cut else ''), context)
            return report
        first, due = 0, 0
        for request, answer in zip(asked, answers):
            if first < len(feed.seen) and feed.seen[first] < due:
                report.violation(f'late:{tool}', f'request {asked.index(request) + 1} was read with {feed.seen[first]} characters of the '
                                 f'{due} of the earlier answers written', context)
                return report
            first += request.count('\n')
            due += len(answer)
            report.count('moments')
    return report


# ---------------------------------------------------------------------------
# generators
# ---------------------------------------------------------------------------

SMALL = [('belt_balancer', ['net', 5, 3]), ('belt_balancer', ['net', 6, 2]), ('belt_balancer', ['net', 7, 4]), ('belt_balancer', ['net', 5, 4, '--expand-underground']),
         ('belt_balancer_net_free', [8, 4, 2, 2]), ('belt_balancer_net_free', [6, 2, 2, 2]), ('belt_balancer_net_free_power_of_2', [8, 4]),
         ('interchange', [8, 4]), ('interchange', [6, 2]), ('make_block', [3, 4]), ('make_block', [4, 4, '--tile']), ('make_block', [4, 3, '--allow-empty']),
         ('make_block', [4, 4, '--single-loop'])]
VAST = [('belt_balancer', ['net', 14, 8]), ('belt_balancer', ['net', 12, 7, '--underground-length', 2]), ('belt_balancer', ['net', 12, 8, '--use-ends']),
        ('belt_balancer_net_free', [13, 6, 2, 2]), ('belt_balancer_net_free', [14, 5, 2, 2, '--aligned']), ('belt_balancer_net_free_power_of_2', [16, 4]),
        ('interchange', [14, 6]), ('interchange', [18, 4]), ('make_block', [12, 12]), ('make_block', [10, 9, '--tile']), ('make_block', [11, 8, '--allow-empty']),
        ('make_block', [8, 10, '--no-parallel']), ('make_block', [8, 8, '--single-loop'])]


def network():
    with open('net', 'w') as f:
        f.write('0 0 1 1\n')


def found_first(seed, rounds):
    """A layout is printed before the next one is searched for; without --all no other is searched for."""
    rng = random.Random(seed)
    report = core.Report()
    network()
    with open('solver.py', 'w') as f:
        f.write(SOLVER)
    backend = f'cmd:{shlex.quote(sys.executable)} solver.py'
    for _ in range(rounds):
        tool, argv = rng.choice(SMALL)
        argv = [str(a) for a in argv]
        fail = rng.choice((2, 3, 4, 6))
        everything = rng.random() < 0.8
        to_file = tool == 'make_block' and rng.random() < 0.3
        full = argv + ['--solver', backend] + (['--all'] if everything else []) + (['--output', 'out'] if to_file else [])
        os.environ['FAIL_AT'] = str(fail)
        for name in ('calls', 'out'):
            if os.path.exists(name):
                os.remove(name)
        run = core.run_cli(tool, full)
        calls = os.path.getsize('calls')
        lines = run.lines
        context = {'tool': tool, 'argv': full, 'calls': calls, 'fail_at': fail, 'run': run.describe()}
        if to_file:
            with open('out') as f:
                lines = f.read().splitlines()
            context['file'] = lines[:3]
            if run.out:
                report.violation(f'both:{tool}', 'with --output, something was printed', context)
                return report
        report.observe((tool, tuple(full), fail))
        report.count('found_first')
        if not everything:
            if calls != 1 or len(lines) > 1:
                report.violation(f'one:{tool}', f'without --all, {calls} layouts were searched for and {len(lines)} printed', context)
                return report
            continue
        if calls < fail:
            report.count('exhausted')
            continue
        if len(lines) != fail - 1:
            report.violation(f'held:{tool}', f'{fail - 1} layouts were found and {len(lines)} printed before the next search (which failed)', context)
            return report
        try:
            for line in lines:
                json.loads(line)
        except ValueError:
            report.violation(f'lines:{tool}', 'a line is not one layout', context)
            return report
        report.count('found_before_failure', fail - 1)
    return report


class TooLate(BaseException):
    pass


class First(Out):
    """Standard output with a reader who leaves after some lines."""

    def __init__(self, wanted):
        super().__init__()
        self.wanted, self.ends = wanted, []

    def write(self, text):
        super().write(text)
        if '\n' in text:
            self.ends += [self.length] * text.count('\n')
            if len(self.ends) >= self.wanted:
                raise core.EnoughOutput
        return len(text)


def vast(seed, rounds, everything=True):
    """The first lines of an enumeration that would never end."""
    rng = random.Random(seed)
    report = core.Report()
    network()
    for _ in range(rounds):
        tool, argv = rng.choice(VAST)
        argv = [str(a) for a in argv]
        began = time.monotonic()
        base = core.run_cli(tool, argv)
        usual = time.monotonic() - began
        if len(base.lines) != 1 or base.end != 'returned':
            report.violation(f'one:{tool}', f'without --all, {len(base.lines)} lines were printed', {'tool': tool, 'argv': argv, 'run': base.describe()})
            return report
        wanted = rng.choice((1, 2, 5, 20))
        limit = max(30, 20 * usual)
        out = First(wanted)
        module = core.tool(tool)

        def ring(*_):
            raise TooLate
        old = sys.argv, sys.stdin, sys.stdout
        sys.argv, sys.stdin, sys.stdout = [tool] + argv + ['--all'], io.StringIO(''), out
        signal.signal(signal.SIGALRM, ring)
        signal.setitimer(signal.ITIMER_REAL, limit)
        end = 'returned'
        try:
            module.main()
        except core.EnoughOutput:
            end = 'enough'
        except TooLate:
            end = 'late'
        except Exception as e:
            end = repr(e)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            sys.argv, sys.stdin, sys.stdout = old
        context = {'tool': tool, 'argv': argv + ['--all'], 'wanted': wanted, 'lines': len(out.ends), 'first_alone_after': usual, 'end': end}
        report.count('vast')
        report.observe(('vast', tool, tuple(argv), wanted))
        if end == 'late':
            report.violation(f'late:{tool}', f'after {limit:.0f} s, {len(out.ends)} of {wanted} lines are there; one layout takes {usual:.1f} s', context)
            return report
        if end != 'enough':
            report.violation(f'few:{tool}', f'the enumeration ended ({end}) after {len(out.ends)} of {wanted} lines', context)
            return report
        if len(out.ends) > 1:
            # make_block is told to push its first block through at once
            if tool == 'make_block' and not any(out.ends[0] <= n < out.ends[1] for n in out.flushed):
                report.violation('pushed:make_block', 'the first block is kept in the buffer', context)
                return report
            report.count('several_lines')
    return report


# ---------------------------------------------------------------------------
# real processes
# ---------------------------------------------------------------------------

def environment(**more):
    return dict(os.environ, PYTHONPATH=core.REPO, PYTHONDONTWRITEBYTECODE='1', PYTHONIOENCODING='utf-8', **more)


def command(tool, argv):
    return [sys.executable, '-m', 'factorio_sat.' + tool] + [str(a) for a in argv]


def read_lines(process, number, deadline):
    """That many lines, or what came until the deadline; reads no further."""
    data = b''
    while data.count(b'\n') < number:
        left = deadline - time.monotonic()
        if left <= 0 or not select.select([process.stdout], [], [], left)[0]:
            break
        piece = os.read(process.stdout.fileno(), 1 << 16)
        if not piece:
            break
        data += piece
    return data.decode()


def conversation(seed):
    """Ask one thing, wait for the answer, ask the next."""
    rng = random.Random(seed)
    report = core.Report()
    tool, argv, asked = requests(rng, 3)
    answers = [alone(tool, argv, request) for request in asked]
    context = {'tool': tool, 'argv': argv, 'requests': asked}
    process = subprocess.Popen(command(tool, argv), stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                               env=environment(PYTHONUNBUFFERED='1'), bufsize=0)
    try:
        for k, (request, answer) in enumerate(zip(asked, answers)):
            data = request.encode()
            if rng.random() < 0.3:      # a writer that takes its time
                middle = rng.randrange(len(data))
                process.stdin.write(data[:middle])
                time.sleep(0.05)
                data = data[middle:]
            process.stdin.write(data)
            got = read_lines(process, answer.count('\n'), time.monotonic() + PATIENCE)
            report.count('turns')
            report.observe(('turn', tool, tuple(argv), request))
            if got != answer:
                report.violation(f'conversation:{tool}', f'the answer to request {k + 1} did not come before request {k + 2} was asked',
                                 dict(context, got=got[:2000], want=answer[:2000]))
                return report
        process.stdin.close()
        rest = read_lines(process, 1 << 30, time.monotonic() + PATIENCE)
        try:
            process.wait(PATIENCE)
        except subprocess.TimeoutExpired:
            report.violation(f'stays:{tool}', 'the process does not end with its input', context)
            return report
        if rest:
            report.violation(f'surplus:{tool}', 'more came after the last answer', dict(context, got=rest[:2000]))
    except BrokenPipeError:
        report.violation(f'gone:{tool}', 'the process ended before its input did', context)
    finally:
        process.kill()
        process.wait()
    return report


def leaving(seed):
    """The reader leaves after some lines: the generator ends."""
    rng = random.Random(seed)
    report = core.Report()
    network()
    tool, argv = rng.choice([c for c in VAST if c[0] != 'belt_balancer_net_free'])
    wanted = rng.choice((1, 3, 10))
    process = subprocess.Popen(command(tool, argv + ['--all']), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=environment(), bufsize=0)
    context = {'tool': tool, 'argv': [str(a) for a in argv], 'wanted': wanted}
    try:
        got = read_lines(process, wanted, time.monotonic() + 2 * PATIENCE)
        process.stdout.close()
        report.count('left')
        report.observe(('left', tool, tuple(context['argv']), wanted))
        if got.count('\n') < wanted:
            report.violation(f'late:{tool}', f'{got.count(chr(10))} lines after {2 * PATIENCE} s', context)
            return report
        try:
            process.wait(PATIENCE)
        except subprocess.TimeoutExpired:
            report.violation(f'stays:{tool}', f'{PATIENCE} s after its reader left, the process still runs', context)
    finally:
        process.kill()
        process.wait()
    return report


def shell(text, timeout=2 * PATIENCE):
    process = subprocess.Popen(['bash', '-c', text], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=environment(), text=True,
                               start_new_session=True)
    try:
        out, err = process.communicate(timeout=timeout)
        return out, err
    except subprocess.TimeoutExpired:
        return None, ''
    finally:
        try:
            os.killpg(process.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass


def as_shell(tool, argv):
    return shlex.join(command(tool, argv))


def chain(seed):
    """Tools joined by pipes: each layout comes out moved by all the operations, as the blueprint and in the book."""
    rng = random.Random(seed)
    report = core.Report()
    start = rng.random()
    stages = []
    if start < 0.5:
        tool, argv = rng.choice((('make_block', [6, 6, '--all']), ('make_block', [5, 7, '--tile', '--all']), ('interchange', [8, 4, '--all']),
                                 ('belt_balancer', ['net', 8, 5, '--all']), ('belt_balancer_net_free_power_of_2', [12, 4, '--all'])))
        network()
        number = rng.choice((1, 4, 12))
        stages += [as_shell(tool, argv), f'head -n {number}']
    else:
        number = rng.choice((1, 3, 8, 60))
        with open('layouts', 'w') as f:
            f.writelines(json_line(r) for r in layouts(rng, number, fillers=False, inserters=False, largest=rng.choice((6, 6, 16))))
        stages.append('cat layouts')
    stages.append('tee first')
    moves = [rng.choice(tuple(c16.ORACLE)) for _ in range(rng.choice((0, 1, 2, 3)))]
    stages += [as_shell('rotate', [m]) for m in moves]
    end = rng.choice(('layouts', 'blueprints', 'book', 'unpacked', 'drawn'))
    label = rng.choice((None, 'my "blocks"'))
    if end == 'drawn':
        stages += [as_shell('stringifier', ['encode']), as_shell('stringifier', ['decode'])]
    elif end != 'layouts':
        stages.append(as_shell('blueprint', ['encode']))
        if end != 'blueprints':
            stages.append(as_shell('blueprint_book', ['pack'] + (['--label', label] if label else [])))
        if end == 'unpacked':
            stages.append(as_shell('blueprint_book', ['unpack']))
    text = ' | '.join(stages)
    out, err = shell(text)
    context = {'chain': text.replace(sys.executable, 'python'), 'out': (out or '')[:2000], 'err': err[-1500:]}
    report.count('chains')
    report.count('end_' + end)
    report.observe(('chain', text, seed))
    if out is None:
        report.violation('chain:stays', f'the chain does not end within {2 * PATIENCE} s', context)
        return report
    with open('first') as f:
        first = f.read().splitlines()
    context['first'] = first[:3]
    if len(first) != number:
        report.violation('chain:source', f'{len(first)} layouts entered the chain, not {number}', context)
        return report
    want = []
    for line in first:
        rows = L.read_layout(json.loads(line))
        for move in moves:
            rows = c16.ORACLE[move](rows)
        want.append([list(r) for r in rows])
    lines = out.splitlines()
    report.count('layouts_through', len(want))
    try:
        if end in ('layouts', 'drawn'):
            got = [[list(r) for r in L.read_layout(json.loads(line))] for line in lines]
        else:
            if end == 'book':
                assert len(lines) == 1, f'{len(lines)} lines for a book'
                book = bp.unpack(lines[0])['blueprint_book']
                assert book.get('label') == label, 'the label of the book'
                data = [b for b in sorted(book['blueprints'], key=lambda b: b['index'])]
            else:
                data = [bp.unpack(line) for line in lines]
            got = [bp.read_entities(d) for d in data]
            want = [bp.entities_of(r) for r in want]
    except (ValueError, KeyError, TypeError, AssertionError, bp.BadBlueprint, L.BadTile) as e:
        report.violation(f'chain:{end}', f'what comes out of the chain cannot be read: {e!r}', context)
        return report
    if got != want:
        report.violation(f'chain:{end}', f'what comes out of the chain ({len(got)}) is not what went in ({len(want)}), moved', context)
    return report


def main():
    check = core.Check('C28', 'exploration',
                       'one evaluation = one stream of requests, one enumeration, one turn of a conversation, or one chain of processes; '
                       'distinct = different requests',
                       ['real processes run with unbuffered output where single answers are awaited: Python may otherwise hold lines back in its buffer'])
    for name in ('belt_balancer', 'belt_balancer_net_free', 'belt_balancer_net_free_power_of_2', 'interchange', 'make_block', 'rotate',
                 'stringifier', 'blueprint', 'blueprint_book'):
        core.tool(name)
    rng = check.rng
    deadline = check.budget(50, 400)
    tasks = []
    for _ in range(check.pick(45, 400)):
        for func, args, timeout in ((stream, (12,), 60), (found_first, (3,), 90), (vast, (2,), 200), (conversation, (), 250), (chain, (), 150)):
            tasks.append(core.Task(func, rng.randrange(1 << 30), *args, timeout=timeout))
        if len(tasks) % 3 == 0:
            tasks.append(core.Task(leaving, rng.randrange(1 << 30), timeout=250))
    check.run(tasks, deadline)
    check.finish(60)


if __name__ == '__main__':
    main()

"""C18: network files and network operations preserve the network.

Workload: random networks and files (comments, blank lines, odd spacing), every shipped network, every size of
created network up to a bound. Oracle: an independent reader of network files, comparison node by node, graph
isomorphism, and the flow of the network solved exactly over the rationals for several wirings its colours allow.
"""
import collections
import os
import random
from fractions import Fraction

import numpy as np

from lib import core, gen, graphs
from lib import layout as L


def normal(nodes):
    """A network up to the order of its splitters and of the two sides of a splitter."""
    return collections.Counter((L._side(i), L._side(o)) for i, o in nodes)


def wiring(rng, nodes):
    """One wiring that the colours allow: (ins, outs, sources, sinks) with one id per wire."""
    (cin, _), (cout, _) = L.network_terminals(nodes)
    produced, consumed = collections.defaultdict(list), collections.defaultdict(list)
    for i, (ins, outs) in enumerate(nodes):
        for k, c in enumerate(ins):
            if c is not None:
                consumed[c].append((i, k))
        for k, c in enumerate(outs):
            if c is not None:
                produced[c].append((i, k))
    ins = [[None, None] for _ in nodes]
    outs = [[None, None] for _ in nodes]
    sources, sinks = [], []
    wire = 0
    for c in sorted(set(produced) | set(consumed)):
        p, q = produced[c][:], consumed[c][:]
        rng.shuffle(p)
        rng.shuffle(q)
        for k in range(max(len(p), len(q))):
            if k < len(p):
                outs[p[k][0]][p[k][1]] = wire
            else:
                sources.append(wire)
            if k < len(q):
                ins[q[k][0]][q[k][1]] = wire
            else:
                sinks.append(wire)
            wire += 1
    return ins, outs, sources, sinks


def shape_of(nodes):
    (_, a), (_, b) = L.network_terminals(nodes)
    return a, b


def balances(report, rng, nodes, n_in, n_out, context, sig, wirings):
    """Ends as said, and every input spread evenly over all outputs, whatever wiring the colours allow."""
    try:
        ends = shape_of(nodes)
    except ValueError as e:
        report.violation(sig + ':ends', f'not one colour for the inputs and one for the outputs: {e}', context)
        return
    if ends != (n_in, n_out):
        report.violation(sig + ':ends', f'{ends[0]} inputs and {ends[1]} outputs instead of {n_in} and {n_out}', context)
        return
    for ins, outs in nodes:
        if all(c is None for c in ins) or all(c is None for c in outs):
            report.violation(sig + ':loose', 'a splitter without any input or without any output', context)
            return
    for k in range(wirings):
        ins, outs, sources, sinks = wiring(rng, nodes)
        if len(nodes) > EXACT:
            wrong = uneven(ins, outs, sources, sinks)
            report.count('flows_solved')
            report.count('flows_solved_in_floats')
            if wrong is not None:
                report.violation(sig + ':unbalanced', f'an output gets {wrong} of an input, instead of 1/{n_out}', context)
                return
            continue
        flow = L.flow_matrix(ins, outs, sources, sinks)
        report.count('flows_solved')
        if not L.is_balanced(flow, n_out):
            report.violation(sig + ':unbalanced', 'an input is not divided evenly over the outputs: ' + repr(flow)[:400], context)
            return
        if sum((v for row in flow.values() for v in row.values()), Fraction(0)) != n_in:
            report.violation(sig + ':lossy', 'not everything that enters leaves', context)
            return


EXACT = 150     # splitters of the largest network solved over the rationals


def uneven(ins, outs, sources, sinks):
    """The share furthest from an even one, if it is off by more than rounding. For large networks."""
    n = len(ins)
    producer = {w: i for i, ws in enumerate(outs) for w in ws if w is not None}
    places = [sum(w is not None for w in ws) for ws in outs]
    column = {w: k for k, w in enumerate(sources)}
    system, given = np.eye(n), np.zeros((n, len(sources)))
    for i, ws in enumerate(ins):            # what leaves splitter i by one side = what enters it / its sides
        for w in ws:
            if w in producer:
                system[i, producer[w]] -= 1 / places[i]
            elif w is not None:
                given[i, column[w]] += 1 / places[i]
    try:
        share = np.linalg.solve(system, given)
    except np.linalg.LinAlgError:
        return 'nothing definite'
    worst = None
    for w in sinks:
        row = share[producer[w]] if w in producer else np.eye(len(sources))[column[w]]
        off = np.abs(row - 1 / len(sinks)).max()
        if not off < 1e-9 / len(sinks) and (worst is None or off > worst[0]):
            worst = off, row[np.abs(row - 1 / len(sinks)).argmax()]
    return None if worst is None else worst[1]


def shipped(name, seed, wirings):
    rng = random.Random(seed)
    report = core.Report()
    with open(os.path.join(core.REPO, 'networks', name)) as f:
        text = f.read()
    nodes = L.read_network(text)
    a, b = map(int, name.split('x'))
    context = {'network': name, 'text': text}
    balances(report, rng, nodes, a, b, context, 'shipped:' + name, wirings)
    report.observe(('shipped', name))
    module = core.tool('network')
    got = module.open_network(os.path.join(core.REPO, 'networks', name))
    if [tuple(map(tuple, n)) for n in got] != nodes:
        report.violation('read:' + name, 'the file is not read as it stands', context)
    flip(report, rng, nodes, text)
    report.sample({'network': name, 'splitters': len(nodes)}, 1)
    return report


def flip(report, rng, nodes, text):
    with open('in', 'w') as f:
        f.write(text)
    for name in ('once', 'twice'):
        if os.path.exists(name):
            os.remove(name)
    context = {'text': text}
    run = core.run_cli('network', ['flip', 'in', 'once'])
    if gen.crash(run, report, 'flip', dict(context, run=run.describe())):
        return
    run = core.run_cli('network', ['flip', 'once', 'twice'])
    if gen.crash(run, report, 'flip', dict(context, run=run.describe())):
        return
    with open('once') as f:
        once_text = f.read()
    with open('twice') as f:
        twice_text = f.read()
    try:
        once, twice = L.read_network(once_text), L.read_network(twice_text)
    except ValueError as e:
        report.violation('flip:file', f'flip wrote something that is not a network: {e}', dict(context, once=once_text, twice=twice_text))
        return
    report.count('flips')
    if normal(once) != normal([(o, i) for i, o in nodes]):
        report.violation('flip:once', 'flipping does not reverse every connection', dict(context, once=once_text))
        return
    if normal(twice) != normal(nodes):
        report.violation('flip:twice', 'flipping twice does not restore the network', dict(context, twice=twice_text))
        return
    with open('in') as f:
        if f.read() != text:
            report.violation('flip:input', 'flip changed its input file', context)


def messy(rng, nodes):
    """A network file as someone may have written it."""
    lines = []
    for ins, outs in nodes:
        if rng.random() < 0.2:
            lines.append(rng.choice(('', '   ', '# 1 2 3 4', '#', '  # comment')))
        sep = rng.choice((' ', '  ', '\t'))
        lines.append(rng.choice(('', ' ')) + sep.join(str(-1 if c is None else c) for c in ins + outs) + rng.choice(('', '', ' ', '\t')))
    return '\n'.join(lines) + rng.choice(('\n', '', '\n\n'))


def any_network(rng):
    """Any list of splitters, connected sensibly or not."""
    n = rng.randint(0, 9)
    colours = list(range(rng.randint(1, 12))) + [None]
    if rng.random() < 0.3:
        colours = [None if c is None else c * rng.choice((1, 7, 1000)) for c in colours]
    return [(tuple(rng.choice(colours) for _ in range(2)), tuple(rng.choice(colours) for _ in range(2))) for _ in range(n)]


def files(seed, number):
    rng = random.Random(seed)
    report = core.Report()
    module = core.tool('network')
    for _ in range(number):
        nodes = any_network(rng) if rng.random() < 0.5 else gen.random_network(rng, 6)
        text = messy(rng, nodes)
        with open('file', 'w') as f:
            f.write(text)
        context = {'text': text}
        got = [tuple(map(tuple, n)) for n in module.open_network('file')]
        if got != nodes:
            report.violation('read', 'the network file is not read as it stands', dict(context, got=repr(got)))
            return report
        with open('file') as f:
            if [tuple(map(tuple, n)) for n in module.open_network(f)] != nodes:
                report.violation('read:handle', 'an open network file is not read as it stands', context)
                return report
        if rng.random() < 0.2:
            module.save_network('saved', got)
        else:
            with open('saved', 'w') as f:
                module.save_network(f, got)
        with open('saved') as f:
            saved = f.read()
        if L.read_network(saved) != nodes:
            report.violation('write', 'the written network is not the one given', dict(context, saved=saved))
            return report
        report.count('files_round_tripped')
        report.observe(('file', tuple(nodes)) if nodes else None)
        flip(report, rng, nodes, text)
        # flipping a network whose wiring is determined reverses its graph
        try:
            n, edges = graphs.of_network(nodes)
            m, reverse = graphs.of_network([(o, i) for i, o in L.read_network(open('once').read())])
        except graphs.Ambiguous:
            continue
        if graphs.isomorphic((n, edges), (m, reverse)) is False:
            report.violation('flip:graph', 'flipping changed the wiring', context)
        if report.violations:
            return report
    return report


def vast(seed, number):
    """Files of thousands of splitters."""
    rng = random.Random(seed)
    report = core.Report()
    module = core.tool('network')
    for _ in range(number):
        n = rng.choice((100, 257, 1000, 3000))
        colours = list(range(rng.choice((3, 200, 70000)))) + [None]
        nodes = [(tuple(rng.choice(colours) for _ in range(2)), tuple(rng.choice(colours) for _ in range(2))) for _ in range(n)]
        text = messy(rng, nodes)
        with open('file', 'w') as f:
            f.write(text)
        context = {'splitters': n, 'text': text}
        got = [tuple(map(tuple, node)) for node in module.open_network('file')]
        if got != nodes:
            report.violation('read', 'the network file is not read as it stands', context)
            return report
        with open('saved', 'w') as f:
            module.save_network(f, got)
        if L.read_network(open('saved').read()) != nodes:
            report.violation('write', 'the written network is not the one given', context)
            return report
        report.count('files_round_tripped')
        report.count('large_files')
        report.observe(('file', tuple(nodes)))
        flip(report, rng, nodes, text)
        if report.violations:
            return report
    return report


def spoil(rng, nodes):
    """A network file with a line that is no splitter."""
    lines = gen.network_text(nodes).splitlines()
    at = rng.randrange(len(lines))
    fields = lines[at].split()
    kind = rng.randrange(7)
    if kind == 0:
        del fields[rng.randrange(4)]
    elif kind == 1:
        fields.insert(rng.randrange(5), str(rng.randint(-1, 5)))
    elif kind == 2:
        fields = fields + fields
    elif kind == 3:
        fields[rng.randrange(4)] = rng.choice(('x', '1.5', '-', 'None', '0x', '1,', '1;2'))
    elif kind == 4:
        fields = fields[:2]
    elif kind == 5:
        fields += rng.choice((['# note'], ['#'], ['#2'], ['// note']))
    else:
        fields = fields[:2] + rng.choice((['->'], ['|'], [':'])) + fields[2:]
    lines[at] = ' '.join(fields)
    return '\n'.join(lines) + '\n'


def malformed(seed, number):
    """A file that is no network is refused by everything that reads networks."""
    rng = random.Random(seed)
    report = core.Report()
    for _ in range(number):
        nodes = gen.random_network(rng, 6) if rng.random() < 0.5 else any_network(rng) or [((0, 0), (1, 1))]
        text = spoil(rng, nodes)
        with open('in', 'w') as f:
            f.write(text)
        run = core.run_cli('network', ['flip', 'in', 'out'])
        report.observe(('malformed', text))
        report.count('malformed_files')
        if not run.failed:
            with open('out') as f:
                try:
                    understood = normal(L.read_network(f.read())) == normal([(o, i) for i, o in nodes])
                except ValueError:
                    understood = False
            if understood:
                report.count('malformed_but_understood')        # a remark at the end of a line, say
                continue
            report.violation('malformed', 'a file with a line that is no splitter was taken as a network',
                             {'text': text, 'out': open('out').read()})
            return report
    return report


def create(seed, sizes, wirings):
    rng = random.Random(seed)
    report = core.Report()
    for size in sizes:
        if os.path.exists('created'):
            os.remove('created')
        run = core.run_cli('network', ['create', 'created', size])
        context = {'size': size, 'run': run.describe()}
        if gen.crash(run, report, 'create', context):
            return report
        with open('created') as f:
            text = f.read()
        context['network'] = text[:5000]
        try:
            nodes = L.read_network(text)
        except ValueError as e:
            report.violation('create:file', f'not a network file: {e}', context)
            return report
        report.count('created')
        report.observe(('created', size))
        balances(report, rng, nodes, size, size, context, 'create', wirings if len(nodes) < EXACT else 1)
        if report.violations:
            return report
        flip(report, rng, nodes, text)
        balances(report, rng, L.read_network(open('once').read()), size, size, context, 'create:flipped', 1)
    return report


def refused():
    """Sizes no balancer can have end with an error, not with a network."""
    report = core.Report()
    for size in (1, 0, -1, -4):
        run = core.run_cli('network', ['create', 'x', '--', size])
        report.observe(('refused', size))
        if not run.failed:
            with open('x') as f:
                text = f.read()
            nodes = L.read_network(text)
            try:
                ok = shape_of(nodes) == (size, size)
            except ValueError:
                ok = size == 1 and not nodes
            if not ok:
                report.violation('create:size', f'a network was created for size {size}', {'size': size, 'text': text})
    return report


def main():
    check = core.Check('C18', 'exploration',
                       'one evaluation = one network file read, written and flipped, one shipped network judged, or one network created; '
                       'non-trivial = it has a splitter; distinct = different networks', [])
    core.tool('network')
    rng = check.rng
    deadline = check.budget(25, 400)
    names = sorted(os.listdir(os.path.join(core.REPO, 'networks')))
    tasks = [core.Task(refused, timeout=20, label='refused')]
    for k in range(4):
        tasks += [core.Task(malformed, rng.randrange(1 << 30), check.pick(60, 1000), timeout=60, label='malformed'),
                  core.Task(vast, rng.randrange(1 << 30), check.pick(3, 30), timeout=60, label='vast')]
    for size in (64, 127, 128, rng.randint(50, 200), rng.randint(50, 200)) + check.pick((), (255, 256, 257, 300, 511)):
        tasks.append(core.Task(create, rng.randrange(1 << 30), [size], 1, timeout=60, label='create'))
    largest = check.pick(49, 80)
    big = sorted(range(2, largest + 1), reverse=True)
    for k in range(16):
        tasks.append(core.Task(create, rng.randrange(1 << 30), big[k::16], 2, timeout=check.pick(60, 380), label='create'))
    for name in names:
        tasks.append(core.Task(shipped, name, rng.randrange(1 << 30), check.pick(3, 20), timeout=60, label='shipped ' + name))
    for _ in range(check.pick(120, 1000)):
        tasks.append(core.Task(files, rng.randrange(1 << 30), check.pick(40, 200), timeout=60, label='files'))
    check.run(tasks, deadline)
    check.finish(300)

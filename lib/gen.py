"""Workloads shared by several checks: networks, generator runs, random legal layouts."""
import json
import os
import random

from . import core
from . import layout as L
from . import legal


def shipped_networks(max_nodes=None):
    """{name: nodes} of the network files in the repository."""
    folder = os.path.join(core.REPO, 'networks')
    result = {}
    for name in sorted(os.listdir(folder)):
        with open(os.path.join(folder, name)) as f:
            nodes = L.read_network(f.read())
        if max_nodes is None or len(nodes) <= max_nodes:
            result[name] = nodes
    return result


def network_text(nodes):
    lines = []
    for ins, outs in nodes:
        lines.append(' '.join(str(-1 if c is None else c) for c in ins + outs))
    return '\n'.join(lines) + '\n'


def random_network(rng, max_nodes=4):
    """A random splitter network with a single input and a single output colour, every splitter with
    at most one unused side, every splitter reachable. Not a balancer in general."""
    while True:
        n = rng.randint(1, max_nodes)
        # ports
        ins = [[True, True] for _ in range(n)]
        outs = [[True, True] for _ in range(n)]
        for i in range(n):
            if rng.random() < 0.4:
                side = rng.choice((ins, outs))
                side[i][rng.randrange(2)] = False
        in_ports = [(i, k) for i in range(n) for k in range(2) if ins[i][k]]
        out_ports = [(i, k) for i in range(n) for k in range(2) if outs[i][k]]
        most = min(len(in_ports), len(out_ports))
        wires = rng.randint(0, most - 1) if most > 1 else 0
        wires = min(wires, len(in_ports) - 1, len(out_ports) - 1)
        rng.shuffle(in_ports)
        rng.shuffle(out_ports)
        colour_in = {}
        colour_out = {}
        ok = True
        for k in range(wires):
            if in_ports[k][0] == out_ports[k][0]:
                ok = False          # a splitter feeding itself is possible, but uninteresting
            colour_in[in_ports[k]] = k + 2
            colour_out[out_ports[k]] = k + 2
        if not ok:
            continue
        for port in in_ports[wires:]:
            colour_in[port] = 0
        for port in out_ports[wires:]:
            colour_out[port] = 1
        nodes = []
        for i in range(n):
            nodes.append((tuple(colour_in.get((i, k)) for k in range(2)), tuple(colour_out.get((i, k)) for k in range(2))))
        # merge some colours: wires of equal colour are interchangeable
        if rng.random() < 0.3 and wires >= 2:
            a, b = rng.sample(range(2, wires + 2), 2)
            nodes = [(tuple(a if c == b else c for c in i), tuple(a if c == b else c for c in o)) for i, o in nodes]
        # renumber
        used = sorted({c for i, o in nodes for c in i + o if c is not None})
        table = {c: k for k, c in enumerate(used)}
        if rng.random() < 0.3:
            values = list(table.values())
            rng.shuffle(values)
            table = dict(zip(used, values))
        if rng.random() < 0.3:      # colours with gaps
            table = dict(zip(used, rng.sample(range(len(used) + 4), len(used))))
        nodes = [(tuple(None if c is None else table[c] for c in i), tuple(None if c is None else table[c] for c in o))
                 for i, o in nodes]
        rng.shuffle(nodes)
        try:
            L.network_terminals(nodes)
        except ValueError:
            continue
        return nodes


def relabel(rng, nodes):
    """The same network, written differently: other colours (with gaps, far apart in one bit, 0 unused),
    lines in another order, sides exchanged."""
    used = sorted({c for i, o in nodes for c in i + o if c is not None})
    kind = rng.randrange(4)
    if kind == 0:
        values = list(used)
    elif kind == 1:
        values = rng.sample(range(len(used) + 4), len(used))
    elif kind == 2:
        values = rng.sample(range(1, len(used) + 3), len(used))
    else:                                       # pairs that differ in a single bit
        bit = 1 << rng.randrange(2, 6)
        low = [c for c in range(2 * bit) if not c & bit]
        chosen = rng.sample(low, min(len(low), (len(used) + 1) // 2))
        values = [c for base in chosen for c in (base, base | bit)][:len(used)]
        if len(values) < len(used):
            values = list(used)
    rng.shuffle(values)
    table = dict(zip(used, values))
    table[None] = None

    def side(colours):
        colours = [table[c] for c in colours]
        if rng.random() < 0.5:
            colours.reverse()
        return tuple(colours)
    result = [(side(i), side(o)) for i, o in nodes]
    rng.shuffle(result)
    return result


def parse_lines(run, report, sig, context):
    """Layouts printed by a run. Malformed lines are violations."""
    result = []
    lines = run.lines
    if run.end == 'truncated' and not run.out.endswith('\n'):
        lines = lines[:-1]
    for line in lines:
        try:
            cells = json.loads(line)
            rows = L.read_layout(cells)
        except (ValueError, KeyError, TypeError, AttributeError, L.BadTile) as e:
            report.violation(sig + ':malformed', f'printed line is not a layout: {e!r}', dict(context, line=line[:2000]))
            continue
        result.append(rows)
    return result


def crash(run, report, sig, context):
    """True (and reported) when a well-formed request ended with an error."""
    if run.failed and str(run.detail).rstrip().split('\n')[-1].startswith('MemoryError'):
        report.count('runs_out_of_memory')
        return True
    if run.failed:
        report.violation(sig + ':error', 'a valid request ended with an error: ' + str(run.detail)[-700:],
                         dict(context, run=run.describe()))
        return True
    return False


def freeze(rows):
    return tuple(tuple(row) for row in rows)


def random_legal(rng, w, h, limit=4, wrap=(False, False), block=(False,) * 4, block_under=None, max_nodes=60000,
                 empty_bias=0.0, splitters=True):
    """A random layout the rules admit (rows), or None if the search ran out of nodes."""
    rules = legal.Rules(w, h, wrap=wrap, block=block, limit=limit, block_under=block_under, splitters=splitters)
    allowed = {}
    if empty_bias:
        for y in range(h):
            for x in range(w):
                if rng.random() < empty_bias:
                    allowed[x, y] = 1 << legal.INDEX[('E', None, None, False)]
    for grid in rules.solutions(allowed, rng, max_nodes):
        return rules.tiles(grid)
    return None

"""The end requirements of the network balancer, judged on a traced layout."""
from . import layout as L


def contiguous(values):
    values = sorted(values)
    return bool(values) and values == list(range(values[0], values[0] + len(values)))


def end_faults(rows, circuit, n, m, mode='straight', use_ends=False, aligned=False):
    """mode: straight | 90 | 180. Texts describing what is wrong with the ends."""
    w, h = L.size(rows)
    faults = []
    sources = list(circuit.sources.values())
    sinks = list(circuit.sinks.values())
    if len(sources) != n:
        faults.append(f'{len(sources)} belts enter, {n} wanted')
    if len(sinks) != m:
        faults.append(f'{len(sinks)} belts leave, {m} wanted')
    if faults:
        return faults
    if any(x != 0 or d != 0 for x, y, d in sources):
        return ['an input does not enter from the left']
    if not contiguous([y for _, y, _ in sources]):
        faults.append('inputs are not contiguous')
    want = {'straight': (0, w - 1), '180': (2, 0), '90': (3, h - 1)}[mode]
    for x, y, d in sinks:
        if d != want[0] or (y if mode == '90' else x) != want[1]:
            return ['an output does not leave at the right side']
    along = [(x if mode == '90' else y) for x, y, _ in sinks]
    if not contiguous(along):
        faults.append('outputs are not contiguous')
    for x, y, _ in sources + sinks:
        if rows[y][x][0] != 'B':
            faults.append('an end tile is not a belt')
    if not use_ends and mode != '180':
        used = {(x, y) for x, y, _ in sources}
        if any(rows[y][0] != L.EMPTY for y in range(h) if (0, y) not in used):
            faults.append('another tile of the input side is not empty')
        used = {(x, y) for x, y, _ in sinks}
        line = [(x, h - 1) for x in range(w)] if mode == '90' else [(w - 1, y) for y in range(h)]
        if any(rows[y][x] != L.EMPTY for x, y in line if (x, y) not in used):
            faults.append('another tile of the output side is not empty')
    if aligned:
        a = {y for _, y, _ in sources}
        b = {y for _, y, _ in sinks}
        if not (b <= a if n >= m else a <= b):
            faults.append('inputs and outputs are not aligned')
    return faults


def edge_belt_faults(rows):
    """Two straight belts side by side right behind the inputs or before the outputs."""
    w, h = L.size(rows)
    straight = ('B', 0, 0)
    return [(x, y) for x in {1, max(w - 2, 1)} if x < w for y in range(h - 1)
            if rows[y][x] == straight and rows[y + 1][x] == straight]


def edge_splitter_faults(rows, circuit, nodes):
    """Splitters fed by two inputs (or feeding two outputs) of the balancer that are not at the edge."""
    w, h = L.size(rows)
    (cin, _), (cout, _) = L.network_terminals(nodes)
    again_in = sum(c == cin for _, outs in nodes for c in outs)
    again_out = sum(c == cout for ins, _ in nodes for c in ins)
    faults = []
    for column, again, side, colour in ((1, again_in, 0, cin), (w - 2, again_out, 1, cout)):
        wanted = sum(all(c == colour for c in node[side]) for node in nodes)
        if not again:
            at_edge = 0
            ends = circuit.sources if side == 0 else circuit.sinks
            for i, (x, y) in enumerate(circuit.splitters):
                wires = circuit.ins[i] if side == 0 else circuit.outs[i]
                if all(wire in ends for wire in wires):
                    if x != column or rows[y][x][1] != 0:
                        faults.append(f'splitter at ({x}, {y}) joins two ends away from the edge')
                    else:
                        at_edge += 1
            if at_edge != wanted:
                faults.append(f'{at_edge} splitters at the edge, {wanted} wanted')
        else:
            count = 0
            for i, (x, y) in enumerate(circuit.splitters):
                if x == column:
                    count += 1
            if count < wanted - again:
                faults.append(f'{count} splitters at the edge, at least {wanted - again} wanted')
    return faults

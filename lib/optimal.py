"""Reading and judging the database of the optimal-balancer search, independently of it."""
import json
import os
import re

from . import ends
from . import layout as L

DATABASE = 'optimal_balancers.json'


def parse(text):
    """{network: (exist {size: bool}, solutions {size: cells})}; raises ValueError on anything else."""
    data = json.loads(text)
    if not isinstance(data, dict):
        raise ValueError('not an object')
    result = {}
    for name, entry in data.items():
        exist, solutions = {}, {}
        for key, value in entry.get('exist', {}).items():
            if not isinstance(value, bool):
                raise ValueError(f'exist {value!r}')
            exist[size(key)] = value
        for key, value in entry.get('solutions', {}).items():
            solutions[size(key)] = value
        result[name] = exist, solutions
    return result


def size(key):
    parts = tuple(int(v) for v in key.split(','))
    if len(parts) != 3:
        raise ValueError(f'size {key!r}')
    return parts


def load(path=DATABASE):
    if not os.path.exists(path):
        return {}
    with open(path) as f:
        return parse(f.read())


def dump(stores, path=DATABASE):
    data = {}
    for name, (exist, solutions) in stores.items():
        data[name] = {'exist': {','.join(map(str, k)): v for k, v in exist.items()},
                      'solutions': {','.join(map(str, k)): v for k, v in solutions.items()}}
    with open(path, 'w') as f:
        json.dump(data, f)


def implied(exist, wanted):
    """What the recorded sizes say about this one: True, False, None, or 'both' (they contradict each other)."""
    yes = any(v and all(a >= b for a, b in zip(wanted, k)) for k, v in exist.items())
    no = any(not v and all(a <= b for a, b in zip(wanted, k)) for k, v in exist.items())
    return 'both' if yes and no else True if yes else False if no else None


def terminals(nodes):
    (_, n), (_, m) = L.network_terminals(nodes)
    return n, m


def admissible(nodes, objective, loss_below):
    """Sizes (width, height) the search considers whose loss is below the given one, as {(w, h): loss}."""
    n, m = terminals(nodes)
    low = max(n, m)
    result = {}
    if objective == 'length':
        for w in range(3, loss_below):
            if (w - 2) * low >= 2 * len(nodes):
                result[w, low] = w
    else:
        for h in range(low, 2 * low + 1):
            w = 1
            while w * h < loss_below:
                if w * h >= 2 * len(nodes):
                    result[w + 2, h] = w * h
                w += 1
    return result


def loss(objective, w, h, nodes):
    """Comparable quality of a size; None: not a candidate for this objective."""
    if objective == 'length':
        return (h, w)
    return (w - 2) * h


def order(name):
    match = re.match('(\\d+)[x-](\\d+)(.*)', name)
    if match is None:
        return (float('inf'), float('inf'), name)
    return int(match.group(1)), int(match.group(2)), match.group(3)


def solution_faults(nodes, key, cells):
    """What is wrong with a stored layout."""
    u, w, h = key
    try:
        rows = L.read_layout(cells)
    except (ValueError, KeyError, TypeError, AttributeError, L.BadTile) as e:
        return [f'not a layout: {e!r}']
    if L.size(rows) != (w, h):
        return [f'the layout is {L.size(rows)}, recorded for {(w, h)}']
    faults = L.check_rules(rows, u)
    if faults:
        return [str(f) for f in faults][:3]
    circuit = L.trace(rows)
    if L.matches_network(circuit, nodes) is False:
        return ['the layout does not realise the network']
    n, m = terminals(nodes)
    return ends.end_faults(rows, circuit, n, m, 'straight', False, True)

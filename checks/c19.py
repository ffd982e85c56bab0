"""C19: the optimal-balancer search reports true minima.

Three workloads, all through calculate_optimal's command line in a scratch folder with its own networks:
 - sequences of compute runs (limits, objectives, number of threads vary; databases with entries taken out):
   every recorded layout is judged by the independent rules, every size recorded or implied as impossible is
   offered to the balancer generator, and the minima are recomputed from the database on their own;
 - queries over synthetic databases, compared with an independent evaluation;
 - tables over synthetic databases, read back cell by cell.
"""
import json
import os
import random

from lib import bp, core, gen, optimal, patterns
from lib import layout as L

SMALL = ('1x2', '2x1', '2x2', '1x4', '4x1', '2x4', '4x2', '1x3', '3x1')
PATTERNS = ('--glue-splitters', '--expand-underground', '--prevent-mergeable-underground', '--prevent-bad-patterns')


def set_up(networks):
    os.makedirs('networks', exist_ok=True)
    for name in os.listdir('networks'):
        os.remove(os.path.join('networks', name))
    for name, nodes in networks.items():
        with open(os.path.join('networks', name), 'w') as f:
            f.write(gen.network_text(nodes))


# ---------------------------------------------------------------------------
# compute
# ---------------------------------------------------------------------------

def generator_has(nodes, key, rng, cap):
    """A layout of this size that the search must not have called impossible, or None."""
    u, w, h = key
    with open('net', 'w') as f:
        f.write(gen.network_text(nodes))
    run = core.run_cli('belt_balancer', ['net', w, h, '--aligned', '--fast', '--underground-length', u], max_lines=1)
    for rows in gen.parse_lines(run, core.Report(), 'x', {}):
        if not optimal.solution_faults(nodes, key, L.write_layout(rows)):
            return rows
    run = core.run_cli('belt_balancer', ['net', w, h, '--aligned', '--edge-splitters', '--all', '--underground-length', u], max_lines=cap)
    for rows in gen.parse_lines(run, core.Report(), 'x', {}):
        if optimal.solution_faults(nodes, key, L.write_layout(rows)):
            continue
        picture = patterns.Picture(rows)
        if not any(patterns.shown(option, picture, u) for option in PATTERNS):
            return rows
    return None


def judge_database(report, networks, before, after, context, rng, probes):
    for name, nodes in networks.items():
        old_exist, old_solutions = before.get(name, ({}, {}))
        exist, solutions = after.get(name, ({}, {}))
        where = dict(context, network=name, nodes=nodes, exist={str(k): v for k, v in exist.items()})
        for key, value in exist.items():
            report.count('sizes_recorded_' + str(value))
            if value and key not in solutions:
                report.violation('compute:layout', f'{key} is recorded as possible without a layout', where)
                return
            if optimal.implied(exist, key) == 'both':
                report.violation('compute:contradiction', f'{key} is both possible and impossible', where)
                return
        for key, cells in solutions.items():
            report.count('layouts_judged')
            if not exist.get(key):
                report.violation('compute:layout', f'a layout is stored for {key}, which is not recorded as possible', where)
                return
            faults = optimal.solution_faults(nodes, key, cells)
            if faults:
                report.violation('compute:solution', f'the layout stored for {key} is wrong: {faults[:2]}', dict(where, layout=cells))
                return
        for key in old_exist:
            if optimal.implied(exist, key) is not optimal.implied(old_exist, key):
                report.violation('compute:lost', f'what was known about {key} is lost', where)
                return
        for key in old_solutions:
            if key not in solutions:
                report.violation('compute:lost', f'the layout for {key} is lost', where)
                return
        impossible = [key for key, value in exist.items() if not value]
        rng.shuffle(impossible)
        for key in impossible[:probes]:
            rows = generator_has(nodes, key, rng, 60)
            report.count('impossible_sizes_probed')
            report.observe(('impossible', tuple(nodes), key))
            if rows is not None:
                report.violation('compute:impossible', f'{key} is recorded as impossible, but has a layout', dict(where, layout=L.show(rows)))
                return


def judge_minimum(report, networks, after, u, objective, context):
    """Every network has its optimum, and everything better is known to be impossible."""
    for name, nodes in networks.items():
        exist, solutions = after.get(name, ({}, {}))
        where = dict(context, network=name, nodes=nodes, exist={str(k): v for k, v in exist.items()})
        n, m = optimal.terminals(nodes)
        low = max(n, m)
        usable = [k for k in solutions if k[0] <= u and (objective == 'area' or k[2] == low)]
        if not usable:
            report.violation('compute:unfinished', 'the run ended without a layout', where)
            continue
        best = min((k[1] - 2) * k[2] if objective == 'area' else k[1] for k in usable)
        report.observe(('minimum', tuple(nodes), u, objective, best))
        report.count('minima_' + objective)
        for (w, h), value in optimal.admissible(nodes, objective, best).items():
            if optimal.implied(exist, (u, w, h)) is not False:
                report.violation('compute:minimum', f'{(u, w, h)} is better than the optimum {best} and not known to be impossible', where)
                return
        report.sample({'network': nodes, 'limit': u, 'objective': objective, 'best': best}, 1)


def thin_out(rng, stores, networks):
    """The database of an earlier time or another machine: true facts, some of them missing."""
    result = {}
    for name, (exist, solutions) in stores.items():
        keep = {k: v for k, v in exist.items() if rng.random() < 0.5}
        if rng.random() < 0.3:          # a fact that another one implies
            for k, v in list(keep.items()):
                if not v and k[0] > 1:
                    keep[k[0] - 1, k[1], k[2]] = False
        if rng.random() < 0.9:
            result[name] = keep, {k: s for k, s in solutions.items() if keep.get(k)}
    return result


def compute(seed, rounds, probes, largest):
    rng = random.Random(seed)
    report = core.Report()
    core.diversify_solver(seed)
    shipped = gen.shipped_networks()
    networks = {}
    for _ in range(rng.randint(1, 4)):
        if rng.random() < 0.75:
            name = rng.choice(SMALL)
            if optimal.order(name) not in map(optimal.order, networks):
                networks[name] = shipped[name]
        else:
            nodes = gen.random_network(rng, 3)
            n, m = optimal.terminals(nodes)
            name = f'{n}{rng.choice("x-")}{m}' + rng.choice(('', '-b'))
            if optimal.order(name) not in map(optimal.order, networks):
                networks[name] = nodes
    if rng.random() < 0.15 and largest:
        name = rng.choice(('4x4', '2x3'))
        if optimal.order(name) not in map(optimal.order, networks):
            networks[name] = shipped[name]
    set_up(networks)
    database = rng.choice((optimal.DATABASE, 'other.json'))
    for name in (optimal.DATABASE, 'other.json'):
        if os.path.exists(name):
            os.remove(name)
    history = []
    for _ in range(rounds):
        before = optimal.load(database)
        if before and rng.random() < 0.3:
            before = thin_out(rng, before, networks)
            optimal.dump(before, database)
            history.append('entries taken out')
        u, objective = rng.choice((1, 2, 3, 4, 4, 5, 6, 8, 8, 9, 10, 15)), rng.choice(('length', 'area'))
        argv = (['--database', database] if database != optimal.DATABASE or rng.random() < 0.3 else []) + ['compute', u, objective]
        if rng.random() < 0.7:
            argv += ['--threads', rng.randint(1, 3)]
        if rng.random() < 0.3:
            argv += ['--solver', rng.choice(('g3', 'g4', 'cd', 'm22'))]
        history.append([str(a) for a in argv])
        run = core.run_cli('calculate_optimal', argv, repeats=6)
        if run.end == 'truncated':
            report.violation('compute:endless', 'the search does the same thing again and again', {'history': history, 'out': run.out[-1500:]})
            return report
        context = {'history': history, 'run': run.describe()}
        report.count('compute_runs')
        if gen.crash(run, report, 'compute', context):
            return report
        try:
            after = optimal.load(database)
        except (ValueError, AttributeError) as e:
            report.violation('compute:database', f'not a database: {e!r}', context)
            return report
        if not after:
            report.violation('compute:database', 'no database was written', context)
            return report
        judge_database(report, networks, before, after, context, rng, probes)
        if not report.violations:
            judge_minimum(report, networks, after, u, objective, context)
        if not report.violations:
            ask(report, networks, after, u, objective, rng, database, context)
        if report.violations:
            return report
    return report


# ---------------------------------------------------------------------------
# query
# ---------------------------------------------------------------------------

def known_optimum(nodes, exist, u, objective):
    """True: surely known to be optimal; False: surely not; None: an equally good size is still open."""
    best = None
    n, m = optimal.terminals(nodes)
    low = max(n, m)
    bound = 1
    for _ in range(400):
        sizes = optimal.admissible(nodes, objective, bound + 1)
        now = [optimal.implied(exist, (u, w, h)) for (w, h), v in sizes.items() if v == bound]
        if True in now:
            best = bound
            break
        if None in now:
            return False
        bound += 1
    if best is None:
        return False
    now = [optimal.implied(exist, (u, w, h)) for (w, h), v in optimal.admissible(nodes, objective, best + 1).items() if v == best]
    return True if None not in now else None


def ask(report, networks, stores, u, objective, rng, database, context):
    """One query, judged against an independent evaluation of the database."""
    imperfect, blueprints = rng.random() < 0.4, rng.random() < 0.4
    argv = (['--database', database] if database != optimal.DATABASE else []) + ['query', u, objective]
    argv += (['--allow-imperfect'] if imperfect else []) + (['--export-blueprints'] if blueprints else [])
    run = core.run_cli('calculate_optimal', argv)
    context = dict(context, query=[str(a) for a in argv], run=run.describe(), database={name: [str(k) + '=' + str(v) for k, v in e.items()] for name, (e, _) in stores.items()})
    if gen.crash(run, report, 'query', context):
        return
    report.count('queries')
    wanted = []         # (name, must be printed, allowed outputs)
    for name in sorted(networks, key=optimal.order):
        exist, solutions = stores.get(name, ({}, {}))
        usable = {k: s for k, s in solutions.items() if k[0] <= u}
        if not usable:
            continue
        must = True
        if not imperfect:
            must = known_optimum(networks[name], exist, u, objective)
            if must is False:
                continue
        best = min(optimal.loss(objective, k[1], k[2], networks[name]) for k in usable)
        wanted.append((name, must, [s for k, s in usable.items() if optimal.loss(objective, k[1], k[2], networks[name]) == best]))
    lines = run.lines
    report.count('answers', len(lines))
    report.observe(('query', tuple(context['query']), tuple(sorted(context['database'])), core.hash_key(context['database'])) if wanted else None)

    def shows(line, name, options):
        try:
            if not blueprints:
                got = json.loads(line)
                return any(got == s for s in options)
            data = bp.unpack(line)
            got = bp.read_entities(data)
        except (ValueError, KeyError, TypeError, bp.BadBlueprint):
            return False
        level = 'normal' if u <= 4 else 'fast' if u <= 6 else 'express'
        if data['blueprint'].get('label') != ' to '.join(name.split('x')):
            return False
        return any(got == bp.entities_of(L.read_layout(s), level) for s in options)
    # the lines must be a selection of the wanted ones, in order, with all that must be there
    k = 0
    for name, must, options in wanted:
        if k < len(lines) and shows(lines[k], name, options):
            k += 1
        elif must is True:
            report.violation('query:missing', f'the answer for {name} is missing, wrong or out of order', dict(context, got=lines[k][:300] if k < len(lines) else None))
            return
        else:
            report.count('ties_open')
    if k != len(lines):
        report.violation('query:surplus', 'an answer is printed that the database does not support', dict(context, got=lines[k][:300]))


def toy_layout(rng, w, h, mark):
    rows = [[L.EMPTY] * w for _ in range(h)]
    for _ in range(3):
        rows[rng.randrange(h)][rng.randrange(w)] = ('B', 0, 0)
    rows[mark % h][0] = ('U', mark % 4, True)
    return L.write_layout(rows)


def synthetic(rng, networks):
    """A database as the search could have left it, for a made-up truth about which sizes are possible."""
    stores = {}
    for name, nodes in networks.items():
        if rng.random() < 0.1:
            continue
        n, m = optimal.terminals(nodes)
        low = max(n, m)
        corners = []
        wide = rng.choice((0, 0, 0, 12, 30, 60))
        for _ in range(rng.randint(1, 3)):
            corners.append((rng.choice((1, 2, 3, 4, 5, 6, 7, 8)), rng.choice((0, wide)) + rng.randint(3, 9), low + rng.randrange(0, low + 1)))
        corners.append((rng.choice((4, 6, 8)), wide + rng.randint(5, 10), low))

        def truth(key):
            return any(all(a >= b for a, b in zip(key, c)) for c in corners) and (key[1] - 2) * key[2] >= 2 * len(nodes)
        exist, solutions = {}, {}
        for _ in range(rng.randint(0, 4)):
            # a search, perhaps cut short
            u, objective = rng.choice((1, 2, 3, 4, 4, 5, 6, 8, 8)), rng.choice(('length', 'area'))
            for k, ((w, h), _) in enumerate(sorted(optimal.admissible(nodes, objective, 90 if not wide else 90 + wide * low).items(), key=lambda i: (i[1], rng.random()))):
                if rng.random() < 0.03:
                    break
                key = u, w, h
                known = optimal.implied(exist, key)
                if known is None:
                    exist[key] = truth(key)
                    if exist[key]:
                        solutions[key] = toy_layout(rng, w, h, rng.randrange(99))
                        if rng.random() < 0.9:
                            break
                elif known:
                    break
        items = list(exist.items())
        rng.shuffle(items)
        exist = dict(items)
        # what others imply may or may not be kept
        for key in [k for k, v in items if not v]:
            value = exist.pop(key)
            if optimal.implied(exist, key) is not False or rng.random() < 0.3:
                exist[key] = value
        stores[name] = exist, solutions
    return stores


NAMES = ('1x2', '2x1', '10x10', '10x2', '2x10', '12x3', '100-1', '2x3', '3x2', '4x4', '2-2', '4x4-alternative', 'special', '4x4b', 'balancer_9')


def some_networks(rng):
    shipped = gen.shipped_networks()
    pool = [n for name, n in shipped.items() if len(n) <= 12]
    return {name: rng.choice(pool) for name in rng.sample(NAMES, rng.randint(1, 5))}


def queries(seed, number):
    rng = random.Random(seed)
    report = core.Report()
    for _ in range(number):
        networks = some_networks(rng)
        set_up(networks)
        stores = synthetic(rng, networks)
        database = rng.choice((optimal.DATABASE, 'other.json'))
        if os.path.exists(database):
            os.remove(database)
        if rng.random() < 0.95:
            written = dict(stores)
            if rng.random() < 0.2:
                written['7x7'] = ({(4, 9, 9): True}, {(4, 9, 9): toy_layout(rng, 9, 9, 1)})     # a network whose file is gone
            optimal.dump(written, database)
        else:
            stores = {}
        for _ in range(6):
            ask(report, networks, stores, rng.choice((1, 2, 3, 4, 4, 5, 6, 7, 8, 10)), rng.choice(('length', 'area')), rng, database, {})
            if report.violations:
                return report
        table(report, networks, stores, rng, database)
        if report.violations:
            return report
    return report


# ---------------------------------------------------------------------------
# tables
# ---------------------------------------------------------------------------

LEVELS = ((4, '\U0001f7e8'), (6, '\U0001f7e5'), (8, '\U0001f7e6'))
IMPOSSIBLE, UNKNOWN = '\u274c', '\u2754'


def table(report, networks, stores, rng, database):
    preamble = rng.choice(('', '', '# Results\nText about them.\n\n', 'a | b\n## 4x4\n| x |\n'))
    path = 'table.md'
    if os.path.exists(path):
        os.remove(path)
    if preamble or rng.random() < 0.5:
        with open(path, 'w') as f:
            f.write(preamble + rng.choice(('', '# Balancers\n## old\n| 1 |\n')))
    argv = (['--database', database] if database != optimal.DATABASE else []) + ['export-crosstable', path]
    for k in range(2):
        run = core.run_cli('calculate_optimal', argv)
        context = {'argv': argv, 'run': run.describe(), 'database': {name: [str(k) + '=' + str(v) for k, v in e.items()] for name, (e, _) in stores.items()}}
        if gen.crash(run, report, 'table', context):
            return
    with open(path) as f:
        text = f.read()
    context['text'] = text
    report.count('tables')
    if not text.startswith(preamble + '# Balancers\n'):
        report.violation('table:preamble', 'the text before the table was not kept', context)
        return
    sections, current = [], None
    for line in text[len(preamble):].split('\n')[1:]:
        if line.startswith('## '):
            current = (line[3:], [])
            sections.append(current)
        elif line.startswith('|') and current is not None:
            current[1].append([cell.strip() for cell in line.strip('|').split('|')])
        elif line.strip():
            report.violation('table:format', f'unexpected line {line!r}', context)
            return
    names = [name for name in sorted(networks, key=optimal.order) if stores.get(name, ({}, {}))[0]]
    if [name for name, _ in sections] != names:
        report.violation('table:networks', f'the table lists {[n for n, _ in sections]} instead of {names}', context)
        return
    for name, rows in sections:
        exist = stores[name][0]
        nodes = networks[name]
        widths = [int(c) for c in rows[0][1:]]
        low, high = max(optimal.terminals(nodes)), max(h for _, _, h in exist)
        if widths != list(range(1, max(w for _, w, _ in exist) - 1)) or [int(r[0]) for r in rows[2:]] != list(range(low, high + 1)):
            report.violation('table:range', f'the table of {name} does not span the recorded sizes', context)
            return
        for row in rows[2:]:
            h = int(row[0])
            if len(row) != len(widths) + 1:
                report.violation('table:format', f'a row of {name} has {len(row)} cells', context)
                return
            for w, cell in zip(widths, row[1:]):
                known = [optimal.implied(exist, (u, w + 2, h)) for u, _ in LEVELS]
                if True in known:
                    want = (LEVELS[known.index(True)][1],)
                elif known[-1] is False:
                    want = (IMPOSSIBLE,)
                elif False in known:
                    want = (IMPOSSIBLE, UNKNOWN)    # impossible up to some level, open beyond
                else:
                    want = (UNKNOWN,)
                report.count('table_cells')
                if cell not in want:
                    report.violation('table:cell', f'{name}, interior {w} by {h}: {cell!r} instead of {want}', context)
                    return
    report.observe(('table', core.hash_key(context['database'])) if sections else None)


def main():
    check = core.Check('C19', 'exploration',
                       'evaluations = minima confirmed, impossible sizes probed, queries and tables judged; non-trivial = they involve a '
                       'recorded size; distinct = different (network, limit, objective, size), databases and queries',
                       ['whether a size has a layout is asked of the balancer generator, whose completeness C04 and C09 judge',
                        'the ends are covered by splitters, as the README says'])
    for name in ('calculate_optimal', 'belt_balancer'):
        core.tool(name)
    rng = check.rng
    deadline = check.budget(28, 600)
    tasks = []
    for _ in range(check.pick(90, 2500)):
        tasks.append(core.Task(compute, rng.randrange(1 << 30), rng.randint(1, 4), 4, not check.quick, timeout=check.pick(9, 120), label='compute'))
        tasks.append(core.Task(queries, rng.randrange(1 << 30), check.pick(10, 60), timeout=check.pick(15, 120), label='queries'))
    check.run(tasks, deadline)
    check.finish(200)

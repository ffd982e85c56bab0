"""C29: a run depends on its request alone and leaves nothing but its answer behind.

Monitors: (a) the same request in a fresh process, after many others in one process, and in other surroundings
(folder, environment, hash seed, locale, other people's files lying about) gives the same answer; (b) an audit hook
records every file opened for writing, moved or removed, and the scratch folders and the package are compared
before and after; input files keep their content.
"""
import hashlib
import json
import os
import random
import shutil
import subprocess
import sys
import threading

from checks import c16, c19
from lib import bp, core, gen, optimal, scenes
from lib import layout as L

TOOLS = ('belt_balancer', 'belt_balancer_net_free', 'belt_balancer_net_free_power_of_2', 'interchange', 'make_block', 'rotate', 'stringifier', 'blueprint',
         'blueprint_book', 'network', 'calculate_optimal')


class Request:
    """argv may name files; outputs: the files it may write. exact: the answer is to be the same text, otherwise the
    same set of lines (enumerations), or none where there was none (single layouts)."""

    def __init__(self, tool, argv, files=None, stdin='', outputs=(), compare='exact'):
        self.tool, self.argv, self.files, self.stdin, self.outputs, self.compare = tool, [str(a) for a in argv], dict(files or {}), stdin, tuple(outputs), compare

    def describe(self):
        return {'tool': self.tool, 'argv': self.argv, 'files': {k: v[:2000] for k, v in self.files.items()}, 'stdin': self.stdin[:2000]}


def json_line(rows):
    return json.dumps(L.write_layout(rows)) + '\n'


def generator(rng):
    files = {}
    kind = rng.randrange(6)
    if kind <= 1:
        files['net'] = '0 0 1 1\n' if rng.random() < 0.6 else gen.network_text(gen.random_network(rng, 2))
        argv = ['net', rng.randrange(3, 6), rng.choice((2, 2, 3))]
        argv += rng.choice(([], ['--fast'], ['--aligned'], ['--use-ends'], ['--expand-underground'], ['--glue-splitters'], ['--prevent-mergeable-underground'],
                            ['--prevent-bad-patterns'], ['--break-symmetry'], ['--edge-splitters'], ['--edge-belts'], ['--turn-180']))
        tool = 'belt_balancer'
    elif kind == 2:
        tool, argv = 'belt_balancer_net_free', rng.choice(([5, 2, 2, 2], [6, 2, 2, 2], [6, 3, 2, 2], [6, 2, 2, 2, '--aligned']))
    elif kind == 3:
        tool, argv = 'belt_balancer_net_free_power_of_2', rng.choice(([4, 2], [6, 2], [8, 4], [9, 4]))
    elif kind == 4:
        tool, argv = 'interchange', rng.choice(([4, 2], [6, 2], [6, 4], [8, 2]))
    else:
        tool, argv = 'make_block', rng.choice(([3, 3], [2, 4, '--tile'], [3, 3, '--allow-empty'], [4, 3, '--no-parallel'], [4, 4, '--single-loop']))
    argv = argv + rng.choice(([], [], ['--underground-length', rng.randrange(1, 6)], ['--solver', rng.choice(('g4', 'cd15', 'm22', 'mc'))]))
    outputs = ()
    if rng.random() < 0.8:
        argv, compare = argv + ['--all'], 'set'
    else:
        compare = 'any'
    if tool == 'make_block' and rng.random() < 0.3:
        argv, outputs = argv + ['--output', 'blocks'], ('blocks',)
    return Request(tool, argv, files, outputs=outputs, compare=compare)


def stream(rng):
    kind = rng.choice(('rotate', 'draw', 'read', 'encode', 'decode', 'pack', 'unpack', 'parse'))
    rows = []
    while len(rows) < rng.choice((1, 2, 4)):
        r = scenes.scene(rng, inserters=kind in ('rotate', 'draw', 'encode'), fillers=kind in ('rotate', 'draw'), largest=6)[0]
        if any(t[0] not in 'EF' for row in r for t in row):
            rows.append(r)
    level = rng.choice(('normal', 'fast', 'express'))
    prints = [bp.make(bp.entities_of(r, level), label=rng.choice((None, 'x', 'Förderband'))) for r in rows]
    lines = ''.join(map(json_line, rows))
    if kind == 'rotate':
        return Request('rotate', rng.choice([[op] for op in c16.ORACLE] + [[]]), stdin=lines)
    if kind == 'draw':
        return Request('stringifier', ['encode'], stdin=lines)
    if kind == 'read':
        return Request('stringifier', ['decode'], stdin=fresh(Request('stringifier', ['encode'], stdin=lines))[0][0][0])
    if kind == 'encode':
        return Request('blueprint', ['encode'] + rng.choice(([], ['--level', level], ['--label', 'größer'])), stdin=lines)
    if kind == 'decode':
        return Request('blueprint', ['decode'], stdin=''.join(bp.pack(p) + '\n' for p in prints))
    if kind == 'pack':
        return Request('blueprint_book', ['pack'] + rng.choice(([], ['--label', 'book'])), stdin=''.join(bp.pack(p) + '\n' for p in prints))
    if kind == 'unpack':
        book = {'blueprint_book': {'item': 'blueprint-book', 'blueprints': [dict(p, index=i) for i, p in enumerate(prints)], 'active_index': 0, 'version': 1}}
        return Request('blueprint_book', ['unpack'], stdin=bp.pack(book) + '\n')
    found = None
    while found is None:
        found = gen.random_legal(rng, rng.randrange(2, 6), rng.randrange(2, 5))
    return Request('network', ['parse', 'out'] + rng.choice(([], ['--assume-valid-output'])), stdin=json_line(found), outputs=('out',))


def other(rng):
    kind = rng.choice(('create', 'flip', 'query', 'query', 'table', 'compute'))
    if kind == 'create':
        return Request('network', ['create', 'made', rng.randrange(2, 20)], outputs=('made',))
    if kind == 'flip':
        return Request('network', ['flip', 'net', 'out'], {'net': gen.network_text(gen.random_network(rng, 4))}, outputs=('out',))
    if kind == 'compute':
        names = rng.sample(('1x2', '2x1', '2x2'), rng.choice((1, 2)))
        nodes = {'1x2': [((0, None), (1, 1))], '2x1': [((0, 0), (1, None))], '2x2': [((0, 0), (1, 1))]}
        files = {'networks/' + n: gen.network_text(nodes[n]) for n in names}
        # the order of the lines and of the entries is that of the folder
        return Request('calculate_optimal', ['--database', 'data', 'compute', rng.choice((1, 4)), rng.choice(('length', 'area')), '--threads', '1'], files,
                       outputs=('data',), compare='compute')
    networks = c19.some_networks(rng)
    files = {'networks/' + n: gen.network_text(nodes) for n, nodes in networks.items()}
    stores = c19.synthetic(rng, networks)
    optimal.dump(stores, 'made')
    with open('made') as f:
        files['data'] = f.read()
    os.remove('made')
    if kind == 'table':
        return Request('calculate_optimal', ['--database', 'data', 'export-crosstable', 'table'], files, outputs=('table',), compare='table')
    return Request('calculate_optimal', ['--database', 'data', 'query', rng.choice((2, 4, 6, 8)), rng.choice(('length', 'area'))]
                   + rng.choice(([], ['--export-blueprints'])) + rng.choice(([], ['--allow-imperfect'])), files)


def vary(rng, r):
    """The same data, asked for otherwise."""
    argv = list(r.argv)
    if r.tool == 'rotate':
        argv = [rng.choice(sorted(c16.ORACLE))]
    elif r.tool == 'blueprint' and argv[0] == 'encode':
        argv = ['encode'] + rng.choice((['--level', 'express'], ['--level', 'fast'], ['--label', 'y'], []))
    elif r.tool == 'calculate_optimal' and argv[2] == 'query':
        argv[3:5] = [str(rng.choice((2, 4, 6, 8))), rng.choice(('length', 'area'))]
    elif r.tool == 'network' and argv[0] == 'parse':
        argv = ['parse', 'out'] + (['--assume-valid-output'] if len(argv) == 2 else [])
    elif r.compare in ('set', 'any'):
        if '--underground-length' in argv:
            k = argv.index('--underground-length')
            argv[k + 1] = str(rng.randrange(1, 6))
        else:
            argv += ['--underground-length', str(rng.randrange(1, 6))]
    return Request(r.tool, argv, r.files, r.stdin, r.outputs, r.compare)


def request(rng):
    return rng.choice((generator, stream, stream, other))(rng)


# ---------------------------------------------------------------------------
# surroundings
# ---------------------------------------------------------------------------

LITTER = {'blueprint': 'x', 'optimal_balancers.json': '{"2x2": {"exist": {"4,3,2": true}, "solutions": {}}}', 'solution.cnf': 'p cnf 0 0\n', 'tmp': '', 'out.tmp': 'old\n',
          'data.tmp': '{"1x2": {"exist": {"1,3,2": false}}}', 'Network': 'old\n', 'Network.gv': 'old\n', 'numpy.txt': '1\n', 'config.json': '{"all": true}', '.factorio': 'x\n',
          'networks.bak/2x2': '0 0 0 0\n', 'cache/answers': 'x'}


def put(files):
    for name, text in files.items():
        if os.path.dirname(name):
            os.makedirs(os.path.dirname(name), exist_ok=True)
        with open(name, 'w', encoding='utf-8') as f:
            f.write(text)


def snapshot(root):
    found = {}
    for folder, _, names in os.walk(root):
        for name in names:
            path = os.path.join(folder, name)
            if '__pycache__' in path or '/.git/' in path:
                continue
            try:
                with open(path, 'rb') as f:
                    found[os.path.relpath(path, root)] = hashlib.sha1(f.read()).hexdigest()
            except OSError:
                found[os.path.relpath(path, root)] = None
    return found


class Audit:
    """Every write the interpreter makes to the file system."""
    current = None

    def __init__(self):
        self.events = []

    def start(self):
        if Audit.current is None:
            sys.addaudithook(Audit.hook)
        Audit.current = self

    def stop(self):
        Audit.current = False

    @staticmethod
    def hook(event, args):
        audit = Audit.current
        if not audit or threading.current_thread() is not threading.main_thread():
            return
        if event == 'open':
            path, mode, flags = args
            if isinstance(path, (str, bytes)) and (flags or 0) & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND):
                audit.events.append(('write', os.fsdecode(path)))
        elif event in ('os.remove', 'os.rename', 'os.mkdir', 'os.rmdir', 'os.truncate', 'os.chmod', 'os.link', 'os.symlink', 'shutil.rmtree', 'shutil.move'):
            audit.events += [(event, os.fsdecode(a)) for a in args[:2] if isinstance(a, (str, bytes))]


def forbidden(audit, wanted, work, temporary, lasting):
    """Events outside the named outputs (and what stands beside them while they are written) and the temporary folder."""
    folders = {os.path.dirname(name) for name in wanted}
    wrong = []
    for event, path in audit.events:
        path = os.path.realpath(os.path.join(work, path))
        inside = os.path.relpath(path, work)
        if path.startswith(('/dev/', '/proc/')) or path.startswith(os.path.realpath(temporary) + os.sep):
            continue
        if any(inside == name or inside.startswith(name + '.') for name in wanted):
            continue
        if os.path.dirname(inside) in folders and inside not in lasting:
            continue
        wrong.append((event, inside))
    return wrong


def answer(request_, run):
    """What came out, in the form it is compared in."""
    files = []
    for name in request_.outputs:
        try:
            with open(name, encoding='utf-8') as f:
                files.append(f.read())
        except FileNotFoundError:
            files.append(None)
    texts = [run[0]] + files
    if request_.compare == 'set':
        texts = [t and sorted(t.splitlines()) for t in texts]
    elif request_.compare == 'any':
        texts = [t and len(t.splitlines()) for t in texts]
    elif request_.compare == 'compute':
        try:
            stores = optimal.load('data')
            # which layout is found, and what the progress report says in which order, is left open
            texts = [sorted((n, sorted(exist.items()), sorted(solutions)) for n, (exist, solutions) in stores.items())]
        except Exception as e:
            texts = [repr(e)]
    return [texts, run[1]]


def clear(keep=()):
    for name in os.listdir('.'):
        if name in keep:
            continue
        if os.path.isdir(name) and not os.path.islink(name):
            shutil.rmtree(os.path.abspath(name))
        else:
            os.remove(name)


def one(request_, litter=None):
    """Run in this process in an emptied folder; (answer, faults)."""
    clear()
    put(litter or {})
    put(request_.files)
    os.makedirs('temporary')
    temporary = os.path.abspath('temporary')
    import tempfile
    old = tempfile.tempdir
    tempfile.tempdir = temporary
    work = os.path.realpath('.')
    before = snapshot('.')
    audit = Audit()
    audit.start()
    try:
        run = core.run_cli(request_.tool, request_.argv, request_.stdin)
    finally:
        audit.stop()
        tempfile.tempdir = old
    faults = []
    after = snapshot('.')
    for name in sorted(set(before) | set(after)):
        if before.get(name) != after.get(name) and name not in request_.outputs and not (name == 'data.tmp' and 'data' in request_.outputs):
            faults.append(('made' if name not in before else 'removed' if name not in after else 'changed', name))
    wrong = forbidden(audit, request_.outputs, work, temporary, set(before) | set(after))
    faults += [w for w in wrong if w not in faults]
    end = 'error' if run.failed else 'fine'
    return answer(request_, (run.out, end)), faults, len(audit.events), run.describe()


def first_of_all(request_, litter):
    return one(request_, litter)


def fresh(request_, litter=None, timeout=40):
    for outcome in core.run_tasks([core.Task(first_of_all, request_, litter, timeout=timeout)], workers=1):
        if outcome.kind == 'ok':
            return outcome.value
        if outcome.kind == 'exception':
            raise RuntimeError(outcome.value)
    return None


def shorten(value):
    text = json.dumps(value, ensure_ascii=False)
    return text if len(text) < 3000 else text[:3000] + '…'


def histories(seed, number):
    """Requests one after the other in one process, each compared with a process that did nothing before."""
    rng = random.Random(seed)
    report = core.Report()
    wanted, asked = [], []
    for _ in range(number):
        chance = rng.random() if wanted else 1
        r = rng.choice(wanted)[0] if chance < 0.2 else vary(rng, rng.choice(wanted)[0]) if chance < 0.5 else request(rng)
        alone = fresh(r)        # this process has not run anything itself so far
        if alone is None:
            report.count('too_slow')
            continue
        wanted.append((r, alone))
    for step, (r, alone) in enumerate(wanted):
        litter = LITTER if rng.random() < 0.3 else None
        here = one(r, litter)
        asked.append(r)
        context = dict(r.describe(), earlier=[e.describe() for e in asked[:-1]][-4:], litter=bool(litter), alone=shorten(alone[0]), here=shorten(here[0]), run=here[3])
        report.count('requests_' + r.tool)
        report.count('file_events', here[2])
        report.observe((r.tool, tuple(r.argv), r.stdin, json.dumps(r.files, sort_keys=True)))
        if alone[0] != here[0]:
            report.violation(f'history:{r.tool}', f'as request {step + 1} of a process{" among other files" if litter else ""}, it is answered differently', context)
            return report
        for event, name in alone[1] + here[1]:
            report.violation(f'files:{r.tool}:{event}', f'a file it was not told to write: {event} {name}', context)
            return report
    clear()
    return report


PACKAGE = os.path.join(core.REPO, 'factorio_sat')


def surroundings(seed, number):
    """Real processes elsewhere, with another environment."""
    rng = random.Random(seed)
    report = core.Report()
    for _ in range(number):
        r = request(rng)
        alone = fresh(r)
        if alone is None or r.compare == 'compute':
            continue
        clear()
        put(r.files)
        put(LITTER if rng.random() < 0.5 else {})
        os.makedirs('temporary')
        os.makedirs('home')
        env = {k: v for k, v in os.environ.items() if not k.startswith(('LC_', 'LANG', 'PYTHON'))}
        changes = {'PYTHONHASHSEED': str(rng.randrange(10 ** 6)), 'TZ': rng.choice(('UTC', 'Asia/Tokyo')), 'HOME': os.path.abspath('home'), 'COLUMNS': rng.choice(('20', '300'))}
        changes.update(rng.choice(({}, {'LANG': 'C.UTF-8'}, {'LC_ALL': 'C'}, {'LC_ALL': 'POSIX'}, {'LANG': 'de_DE.UTF-8'})))
        if rng.random() < 0.5:
            changes['PYTHONUNBUFFERED'] = '1'
        env.update(changes, PYTHONPATH=core.REPO, PYTHONDONTWRITEBYTECODE='1', TMPDIR=os.path.abspath('temporary'))
        before, package = snapshot('.'), snapshot(PACKAGE)
        try:
            run = subprocess.run([sys.executable, '-m', 'factorio_sat.' + r.tool, *r.argv], input=r.stdin.encode(), env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
        except subprocess.TimeoutExpired:
            report.count('too_slow')
            continue
        streams = r.tool in ('rotate', 'stringifier', 'blueprint')
        end = 'fine' if run.returncode == 0 or (streams and b'EOFError' in run.stderr) else 'error'
        here = answer(r, (run.stdout.decode('utf-8', 'replace'), end))
        context = dict(r.describe(), environment=changes, alone=shorten(alone[0]), here=shorten(here), stderr=run.stderr.decode('utf-8', 'replace')[-600:])
        report.count('processes')
        report.observe(('process', r.tool, tuple(r.argv), r.stdin, tuple(changes.items())))
        if here != alone[0]:
            report.violation(f'surroundings:{r.tool}', 'in other surroundings it is answered differently', context)
            return report
        after = snapshot('.')
        for name in sorted(set(before) | set(after)):
            if before.get(name) != after.get(name) and name not in r.outputs:
                report.violation(f'files:{r.tool}', f'a file it was not told to write: {name}', context)
                return report
        if snapshot(PACKAGE) != package:
            report.violation(f'package:{r.tool}', 'the program has changed its own files', context)
            return report
    clear()
    return report


def main():
    check = core.Check('C29', 'exploration',
                       'one evaluation = one request, answered in a fresh process and again after others or in other surroundings; distinct = different requests',
                       ['which layout is found first is left open: single layouts are compared by whether there is one',
                        'drawing and rendering are left to C22 and C23, external solvers to C11 and C12'])
    for name in TOOLS:
        core.tool(name)
    rng = check.rng
    deadline = check.budget(45, 400)
    tasks = []
    for _ in range(check.pick(130, 1000)):
        tasks.append(core.Task(histories, rng.randrange(1 << 30), 8, timeout=120))
        tasks.append(core.Task(surroundings, rng.randrange(1 << 30), 4, timeout=120))
    check.run(tasks, deadline)
    check.finish(100)


if __name__ == '__main__':
    main()

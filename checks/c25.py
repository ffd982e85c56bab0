"""C25: fetched assets are those of the game.

A game installation is made up (sprites of random bytes, recipe files written in many styles, decoys), the asset
fetcher of the tree is put in a scratch folder (it writes beside itself) and run on it. Oracle: the installation as it
was made; the sheets the renderer's monitor (lib/pictures.py) knows to be loaded; the recipes as data, before they
were written down as Lua.
"""
import collections
import contextlib
import importlib.util
import io
import json
import os
import random
import shutil
import sys
import traceback

from lib import core, pictures

SPRITES = [
    ('assembling-machine-1', 'hr-assembling-machine-1.png'), ('assembling-machine-1', 'hr-assembling-machine-1-shadow.png'),
    ('burner-inserter', 'hr-burner-inserter-hand-base-shadow.png'), ('burner-inserter', 'hr-burner-inserter-hand-closed-shadow.png'),
    ('burner-inserter', 'hr-burner-inserter-hand-open-shadow.png'),
    ('inserter', 'hr-inserter-hand-base.png'), ('inserter', 'hr-inserter-hand-closed.png'), ('inserter', 'hr-inserter-hand-open.png'),
    ('inserter', 'hr-inserter-platform.png'),
    ('long-handed-inserter', 'hr-long-handed-inserter-hand-base.png'), ('long-handed-inserter', 'hr-long-handed-inserter-hand-closed.png'),
    ('long-handed-inserter', 'hr-long-handed-inserter-hand-open.png'), ('long-handed-inserter', 'hr-long-handed-inserter-platform.png'),
    ('splitter', 'hr-splitter-east-top_patch.png'), ('splitter', 'hr-splitter-east.png'), ('splitter', 'hr-splitter-north.png'),
    ('splitter', 'hr-splitter-south.png'), ('splitter', 'hr-splitter-west-top_patch.png'), ('splitter', 'hr-splitter-west.png'),
    ('transport-belt', 'hr-transport-belt.png'), ('underground-belt', 'hr-underground-belt-structure.png'),
]
RECIPES = {'normal': 'normal-recipes.json', 'expensive': 'expensive-recipes.json'}
ITEMS = ('iron-plate', 'copper-plate', 'iron-gear-wheel', 'electronic-circuit', 'transport-belt', 'x', 'Ünicode "quoted" \\ name')


# -- recipes as data, and in Lua ------------------------------------------------

def amount(rng):
    return rng.choice((1, 1, 2, 3, 10, 1000, 0.5, 2.25))


def products(rng):
    """(fields of the recipe, what it makes)"""
    if rng.random() < 0.6:
        name = rng.choice(ITEMS)
        fields = {'result': name}
        n = 1
        if rng.random() < 0.5:
            n = amount(rng)
            fields['result_count'] = n
        return fields, [(name, n)]
    made = [(rng.choice(ITEMS), amount(rng)) for _ in range(rng.randint(1, 3))]
    return {'results': [{'type': 'item', 'name': name, 'amount': n} for name, n in made]}, made


def body(rng, always_time=False):
    """Fields of a recipe (or of one of its variants), and what they mean: (time, needed, made)."""
    fields, made = products(rng)
    needed = [(rng.choice(ITEMS), amount(rng)) for _ in range(rng.choice((0, 1, 1, 2, 3, 6)))]
    fields['ingredients'] = [[name, n] if rng.random() < 0.6 else {'type': 'item', 'name': name, 'amount': n} for name, n in needed]
    time = 0.5
    if always_time or rng.random() < 0.6:
        time = rng.choice((0.5, 1, 2.5, 10, 60))
        fields['energy_required'] = time
    return fields, (time, needed, made)


def recipe(rng):
    """(table, {variant: meaning}); no meaning for recipes of other machines."""
    table = {'type': 'recipe', 'name': rng.choice(ITEMS)}
    if rng.random() < 0.4:
        table['enabled'] = rng.random() < 0.5
    if rng.random() < 0.3:
        table['icons'] = [{'icon': '__base__/graphics/x.png', 'tint': {'r': 1, 'g': 0.25}}]
        table['order'] = 'a[b]-c'
    category = rng.choice((None, None, None, 'crafting', 'advanced-crafting', 'smelting', 'crafting-with-fluid', 'chemistry', 'oil-processing'))
    if category is not None:
        table['category'] = category
    kind = rng.randrange(4)
    if kind <= 1:
        fields, meaning = body(rng)
        table.update(fields)
        meanings = {'normal': meaning, 'expensive': meaning}
    elif kind == 2:
        time = rng.random() < 0.2
        fields, meaning = body(rng, time)
        other, second = body(rng, time)
        table.update({'normal': fields, 'expensive': other})
        meanings = {'normal': meaning, 'expensive': second}
        if time:
            table['energy_required'] = 99       # the variants have their own
    else:
        fields, meaning = body(rng)
        table['normal'] = fields
        meanings = {'normal': meaning, 'expensive': meaning}
    if category not in (None, 'crafting', 'advanced-crafting'):
        meanings = {}
    items = list(table.items())
    rng.shuffle(items)
    return dict(items), meanings


def lua(rng, value, depth=0):
    if value is True:
        return 'true'
    if value is False:
        return 'false'
    if isinstance(value, str):
        text = value.replace('\\', '\\\\').replace('"', '\\"')
        return rng.choice(('"%s"' % text, "'%s'" % text)) if '"' not in value else '"%s"' % text
    if isinstance(value, (int, float)):
        return rng.choice((repr(value), repr(value) if isinstance(value, int) else '%.3f' % value))
    gap = lambda: rng.choice(('', ' ', '\n' + '  ' * depth, ' ', '  ') + ((' -- %s\n' % rng.choice(('note', 'a = {', '"')),) if rng.random() < 0.2 else ()))
    parts = []
    if isinstance(value, dict):
        for key, v in value.items():
            parts.append(f'{key}{gap()}={gap()}{lua(rng, v, depth + 1)}')
    else:
        parts = [lua(rng, v, depth + 1) for v in value]
    separator = rng.choice((',', ',', ',', ';'))
    text = (gap() + separator + gap()).join(parts) if parts else gap()
    if parts and rng.random() < 0.4:
        text += separator
    return '{' + gap() + text + gap() + '}'


def recipe_file(rng, recipes):
    text = lua(rng, recipes)
    style = rng.randrange(3)
    text = {0: f'data:extend({text})', 1: f'data:extend(\n{text}\n)\n', 2: f'data:extend\n({text})'}[style]
    if rng.random() < 0.4:
        text = '-- recipes\n' + text
    if rng.random() < 0.2:
        text = '--[[ several\nlines ]]\n' + text
    return text


# -- installation ---------------------------------------------------------------

def write(path, data):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'wb') as f:
        f.write(data)


def snapshot(folder):
    result = {}
    for base, _, names in os.walk(folder):
        for name in names:
            path = os.path.join(base, name)
            with open(path, 'rb') as f:
                result[os.path.relpath(path, folder)] = f.read()
    return result


def install(rng, root):
    """A game: (sprites by name, expected meanings per variant)."""
    base = os.path.join(root, 'data', 'base')
    sprites = {}
    for folder, name in SPRITES:
        sprites[name] = bytes(rng.randrange(256) for _ in range(rng.choice((0, 1, 40, 3000))))
        write(os.path.join(base, 'graphics', 'entity', folder, name), sprites[name])
        write(os.path.join(base, 'graphics', 'entity', folder, name[3:]), b'low resolution')
        write(os.path.join(base, 'graphics', 'entity', 'fast-' + folder, name), b'another kind')
    expected = {'normal': collections.Counter(), 'expensive': collections.Counter()}
    for k in range(rng.choice((0, 1, 1, 2, 4))):
        recipes = []
        for _ in range(rng.choice((0, 1, 1, 3, 6))):
            table, meanings = recipe(rng)
            recipes.append(table)
            for variant, meaning in meanings.items():
                expected[variant][normal(*meaning)] += 1
        write(os.path.join(base, 'prototypes', 'recipe', f'{rng.choice("abc")}{k}.lua'), recipe_file(rng, recipes).encode())
    write(os.path.join(base, 'prototypes', 'recipe', 'notes.txt'), b'not a recipe')
    write(os.path.join(base, 'prototypes', 'item', 'item.lua'), b'data:extend({{type = "item", name = "x"}})')
    write(os.path.join(root, 'data', 'core', 'prototypes', 'recipe', 'c.lua'), b'data:extend({{type = "recipe", ingredients = {}, result = "core"}})')
    return sprites, expected


def normal(time, needed, made):
    return json.dumps([float(time), [[n, float(a)] for n, a in needed], [[n, float(a)] for n, a in made]], ensure_ascii=False)


def fetch(folder, argv, home):
    """Run the fetcher of the tree, placed in `folder`. Returns (ended well, what it said)."""
    target = os.path.join(folder, 'fetch.py')
    os.makedirs(folder, exist_ok=True)
    shutil.copyfile(os.path.join(core.REPO, 'factorio_sat', 'assets', 'fetch.py'), target)
    spec = importlib.util.spec_from_file_location('fetch_under_test', target)
    module = importlib.util.module_from_spec(spec)
    old = sys.argv, os.environ.get('HOME')
    out = io.StringIO()
    sys.argv = ['fetch_assets'] + argv
    os.environ['HOME'] = home
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            spec.loader.exec_module(module)
            try:
                module.main()
                return True, out.getvalue()
            except SystemExit as e:
                return e.code in (0, None), out.getvalue()
            except BaseException:
                return False, out.getvalue() + traceback.format_exc()
    finally:
        sys.argv = old[0]
        if old[1] is None:
            del os.environ['HOME']
        else:
            os.environ['HOME'] = old[1]


def run(seed, number):
    rng = random.Random(seed)
    report = core.Report()
    for _ in range(number):
        for name in ('game', 'package', 'home'):
            shutil.rmtree(name, ignore_errors=True)
        home = os.path.abspath('home')
        os.makedirs(home)
        found = rng.random() < 0.3
        root = os.path.join(home, '.steam', 'steamapps', 'common', 'Factorio') if found else os.path.abspath(rng.choice(('game', 'game/with space', 'game/é')))
        sprites, expected = install(rng, root)
        argv = [] if found else [rng.choice((root, os.path.relpath(root), root + '/'))]
        package = os.path.abspath('package/factorio_sat/assets')
        if rng.random() < 0.4:          # fetched before
            for name in rng.sample(sorted(sprites), 5) + list(RECIPES.values()):
                write(os.path.join(package, name), b'old' * rng.choice((1, 2000)))
        fault = rng.choice((None, None, None, None, None, 'sprite', 'game'))
        if fault == 'sprite':
            folder, name = rng.choice(SPRITES)
            if name not in pictures.SHEETS:
                fault = None
            else:
                os.remove(os.path.join(root, 'data', 'base', 'graphics', 'entity', folder, name))
        elif fault == 'game':
            shutil.rmtree(root)
        before = snapshot(root)
        ok, said = fetch(package, argv, home)
        got = snapshot(package)
        got.pop('fetch.py')
        context = {'argv': argv, 'fault': fault, 'said': said[-1500:], 'files': sorted(got),
                   'recipes': {k: v.decode() for k, v in before.items() if k.endswith('.lua') and 'base/prototypes/recipe' in k}}
        report.count('installations')
        report.count('fault_' + (fault or 'none'))
        report.observe(('installation', core.hash_key(repr(sorted(before.items()))), fault))
        if snapshot(root) != before:
            report.violation('installation', 'the installation of the game was changed', context)
            return report
        if fault is not None:
            if ok:
                report.violation('silent', f'fetching from a broken installation ({fault}) ended as if all was well', context)
                return report
            continue
        if not ok:
            report.violation('error', 'fetching from a sound installation failed', context)
            return report
        for name in pictures.SHEETS:
            report.count('sprites_compared')
            if got.get(name) != sprites[name]:
                report.violation('sprite', f'{name} is missing or not the one of the game', context)
                return report
        for name in got:
            if name.endswith('.png') and got[name] != sprites.get(name):
                report.violation('sprite', f'{name} is not the one of the game', context)
                return report
        for variant, name in RECIPES.items():
            try:
                data = json.loads(got.get(name, b''))
                have = collections.Counter(normal(r['time'], [(i['name'], i['amount']) for i in r['ingredients']], [(i['name'], i['amount']) for i in r['results']])
                                           for r in data)
            except (ValueError, KeyError, TypeError) as e:
                report.violation('recipes', f'{name} is no list of recipes: {e!r}', context)
                return report
            report.count('recipes_compared', len(data))
            if have != expected[variant]:
                report.violation('recipes:' + variant, f'the {variant} recipes are not those of the game: missing {list(expected[variant] - have)[:2]}, '
                                 f'surplus {list(have - expected[variant])[:2]}', context)
                return report
    report.sample({'argv': argv, 'recipes': sum(expected['normal'].values())}, 1)
    return report


def main():
    check = core.Check('C25', 'exploration',
                       'one evaluation = one made-up installation fetched from; non-trivial = all; distinct = different installations',
                       ['recipe files of the form the game has (one data:extend per file, no expressions)', 'luaparser reads Lua rightly'])
    core.load('factorio_sat.assets.fetch')
    rng = check.rng
    deadline = check.budget(15, 150)
    tasks = [core.Task(run, rng.randrange(1 << 30), 12, timeout=check.pick(40, 100), label='fetch') for _ in range(check.pick(32, 800))]
    check.run(tasks, deadline)
    check.finish(60)

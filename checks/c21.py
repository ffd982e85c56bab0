"""C21: the building blocks for numbers and counts mean what they say.

Workload: every building block at every small width, value and number of literals (swept), wider ones at random;
literals of either sign; the same variable on several places where a caller may do that. Monitor: the clauses that
come back are handed to a SAT solver, and for every assignment of the literals given (all of them up to a bound, then
random ones and those around the boundary) the clauses with that assignment must be satisfiable, over the helper
variables, exactly when the arithmetic says so. Every variable of the clauses must be one given or one handed out by
the allocator.
"""
import itertools
import math
import random

from lib import core


class Block:
    """One call of a building block under observation."""

    def __init__(self, rng):
        self.rng = rng
        self.top = 0
        self.handed = set()

    def lits(self, n, alias=()):
        out = []
        for _ in range(n):
            if alias and self.rng.random() < 0.3:
                var = abs(self.rng.choice(alias))
            else:
                self.top += self.rng.choice((1, 1, 1, 2))
                var = self.top
            out.append(var if self.rng.random() < 0.5 else -var)
        return out

    def allocator(self):
        def allocate():
            self.top += 1
            self.handed.add(self.top)
            return self.top
        return allocate

    def pool(self):
        from pysat.formula import IDPool
        return IDPool(start_from=self.top + 1)


class Shared(Block):
    """Calls of several building blocks that draw their variables from one pool."""

    def __init__(self, rng):
        from pysat.formula import IDPool
        super().__init__(rng)
        self.ids = IDPool()
        self.given = set()

    def lits(self, n, alias=()):
        out = []
        for _ in range(n):
            if alias and self.rng.random() < 0.3:
                var = abs(self.rng.choice(alias))
            else:
                var = self.ids._next()
            self.given.add(var)
            out.append(var if self.rng.random() < 0.5 else -var)
        return out

    def allocator(self):
        return self.ids._next

    def pool(self):
        return self.ids


def bits(value, n):
    return [bool(value >> i & 1) for i in range(n)]


def spread(lits, values):
    value = {abs(l): v == (l > 0) for l, v in zip(lits, values)}
    return tuple(value[v] for v in sorted(value))


def number(rng, n):
    return rng.choice((rng.randrange(1 << n), rng.randrange(1 << n), (1 << n) - 1, 0, 1 << (n - 1), (1 << rng.randint(0, n)) - 1))


def num(values):
    return sum(1 << i for i, v in enumerate(values) if v)


def judge(report, rng, name, params, lits, clauses, meaning, helpers, limit, witness=None):
    """meaning(values of lits) -> bool. helpers: None if any higher variable is a helper (library pool)."""
    from pysat.solvers import Solver
    variables = sorted({abs(l) for l in lits})
    top = max(variables, default=0)
    context = {'block': name, 'params': params, 'literals': lits, 'clauses': [list(c) for c in clauses][:300]}
    for clause in clauses:
        for lit in clause:
            if lit == 0 or (abs(lit) not in variables and (abs(lit) not in helpers if helpers is not None else abs(lit) <= top)):
                report.violation(name + ':variable', f'clause {list(clause)} has a variable nobody gave it', context)
                return
    n = len(variables)
    if 1 << n <= limit:
        assignments = itertools.product((False, True), repeat=n)
    else:
        assignments = [tuple(rng.random() < p for _ in variables) for p in (0.5, 0.1, 0.9) for _ in range(limit // 3)]
    with Solver('minisat22', bootstrap_with=[list(c) for c in clauses]) as solver:
        yes = no = 0
        if witness is not None and 1 << n > limit:
            # assignments that mean the right thing, by construction; by chance they would hardly come up
            assignments = itertools.chain(assignments, (spread(lits, witness()) for _ in range(limit // 3)))
        for values in assignments:
            value = dict(zip(variables, values))
            given = [value[abs(l)] == (l > 0) for l in lits]
            want = bool(meaning(given))
            got = solver.solve(assumptions=[v if value[v] else -v for v in variables])
            report.evaluations += 1
            if want:
                yes += 1
            else:
                no += 1
            if got != want:
                report.violation(name, f'{name} {params}: {"rejects" if want else "accepts"} the values '
                                 f'{[int(v) for v in given]} of its literals', dict(context, values=[int(v) for v in given]))
                return
        # satisfying assignments are rare in wide equations: take models of the clauses as well
        if 1 << n > limit:
            for _ in range(limit // 8):
                solver.set_phases([v if rng.random() < 0.5 else -v for v in variables])
                if not solver.solve(assumptions=[v if rng.random() < 0.5 else -v for v in variables if rng.random() < 0.25]):
                    continue
                model = set(solver.get_model())
                value = {v: v in model for v in variables}
                given = [value[abs(l)] == (l > 0) for l in lits]
                report.evaluations += 1
                report.count('models')
                yes += 1
                if not meaning(given):
                    report.violation(name, f'{name} {params}: accepts the values {[int(v) for v in given]} of its literals',
                                     dict(context, values=[int(v) for v in given]))
                    return
                # ... and their neighbours
                for v in variables:
                    value[v] = not value[v]
                    given = [value[abs(l)] == (l > 0) for l in lits]
                    want = bool(meaning(given))
                    got = solver.solve(assumptions=[u if value[u] else -u for u in variables])
                    value[v] = not value[v]
                    report.evaluations += 1
                    if got != want:
                        report.violation(name, f'{name} {params}: {"rejects" if want else "accepts"} the values '
                                         f'{[int(u) for u in given]} of its literals', context)
                        return
    report.count('accepted', yes)
    report.count('rejected', no)
    report.count(name)
    if yes and no:
        report.keys.add(core.hash_key((name, params)))
    report.sample({'block': name, 'params': params, 'clauses': len(clauses), 'accepted': yes, 'rejected': no}, 1)


# ---- one function per building block: (params) -> clauses, literals, meaning -----------------------------------------

def some(rng, n, counts):
    """Assignments with about as many true as matters."""
    def witness():
        true = set(rng.sample(range(n), min(n, max(0, rng.choice(counts)))))
        return [i in true for i in range(n)]
    return witness


def amo_family(name):
    def build(block, util, card, n, cutoff=None):
        lits = block.lits(n)
        args = (lits, block.allocator())
        if cutoff is not None:
            args += (cutoff,)
        clauses = getattr(card, name)(*args)
        meaning = (lambda v: sum(v) <= 1) if name.endswith('amo') else (lambda v: sum(v) == 1)
        return lits, clauses, meaning, some(block.rng, n, (0, 1, 1, 2, 2, 2, 2))
    return build


def library(name):
    def build(block, util, card, n, k):
        lits = block.lits(n)
        meaning = {'library_equals': lambda v: sum(v) == k, 'library_atmost': lambda v: sum(v) <= k,
                   'library_atleast': lambda v: sum(v) >= k}[name]
        everything = all(meaning([True] * i + [False] * (n - i)) for i in range(n + 1))
        try:
            clauses = getattr(card, name)(lits, k, block.pool())
        except Exception:
            if everything or not 0 <= k <= n:  # refused: nothing to say, or nothing sensible asked for
                return None
            raise
        block.handed = None
        return lits, clauses, meaning, some(block.rng, n, (k, k, k - 1, k + 1))
    return build


def b_add(block, util, card, n, longer, carry, overflow, alias):
    a = block.lits(n)
    b = block.lits(n, a if alias else ())
    o = block.lits(n + longer, a + b if alias else ())
    c = block.lits(1) if carry else []
    clauses = util.add_numbers(a, b, o, block.allocator(), *([c[0]] if c else []), allow_overflow=overflow)

    def meaning(v):
        x, y, z = num(v[:n]), num(v[n:2 * n]), num(v[2 * n:3 * n + longer])
        s = x + y + (v[-1] if carry else 0)
        return z == (s % (1 << n) if overflow and not longer else s)

    def witness():
        while True:
            x, y, k = number(block.rng, n), number(block.rng, n), block.rng.randint(0, 1) if carry else 0
            s = x + y + k
            if overflow or longer or s < 1 << n:
                return bits(x, n) + bits(y, n) + bits(s, n + longer) + [bool(k)] * carry
    return (a + b + o + c, clauses, meaning) + (() if alias else (witness,))


def b_sum(block, util, card, n, count, overflow):
    numbers = [block.lits(n) for _ in range(count)]
    o = block.lits(n)
    clauses = util.sum_numbers(numbers, o, block.allocator(), overflow)

    def meaning(v):
        s = sum(num(v[i * n:(i + 1) * n]) for i in range(count))
        z = num(v[count * n:])
        return z == (s % (1 << n) if overflow else s)

    def witness():
        while True:
            values = [number(block.rng, n) if overflow else block.rng.randrange(2 + (1 << n) // count) for _ in range(count)]
            if overflow or sum(values) < 1 << n:
                return sum((bits(x, n) for x in values), []) + bits(sum(values), n)
    return sum(numbers, []) + o, clauses, meaning, witness


def succ(x, n):
    return bits(x, n) + bits(x + 1, n)


def b_increment(block, util, card, n):
    a, b = block.lits(n), block.lits(n)
    return a + b, util.increment_number(a, b), lambda v: num(v[n:]) == (num(v[:n]) + 1) % (1 << n), lambda: succ(number(block.rng, n), n)


def counted(rng, n):
    p = rng.random()
    values = [rng.random() < p for _ in range(n)]
    return values + bits(sum(values), n.bit_length())


def b_popcount(block, util, card, n):
    a = block.lits(n)
    o = block.lits(n.bit_length())
    return a + o, util.get_popcount(a, o, block.allocator()), lambda v: num(v[n:]) == sum(v[:n]), lambda: counted(block.rng, n)


def b_set_number(block, util, card, n, value):
    a = block.lits(n)
    return a, util.set_number(value, a), lambda v: num(v) == value


def b_set_not_number(block, util, card, n, value):
    a = block.lits(n)
    return a, [util.set_not_number(value, a)], lambda v: num(v) != value


def b_set_maximum(block, util, card, n, value):
    a = block.lits(n)
    return a, util.set_maximum(value, a), lambda v: num(v) <= value


def b_set_numbers(block, util, card, n, x, y):
    a, b = block.lits(n), block.lits(n)
    return a + b, util.set_numbers(x, y, a, b), lambda v: (num(v[:n]), num(v[n:])) in ((x, y), (y, x))


def b_equal(block, util, card, n, m):
    a, b = block.lits(n), block.lits(m)
    clauses = util.set_numbers_equal(a, b) if n == m and block.rng.random() < 0.5 else util.set_numbers_equal(a, b, allow_different_lengths=True)

    def witness():
        x = number(block.rng, min(n, m)) if min(n, m) else 0
        return bits(x, n) + bits(x, m)
    return a + b, clauses, lambda v: num(v[:n]) == num(v[n:]), witness


def b_invert(block, util, card, n):
    a, b = block.lits(n), block.lits(n)

    def meaning(v):
        x, y = num(v[:n]), num(v[n:])
        # the most negative number has no counterpart
        return x != 1 << (n - 1) and (x + y) % (1 << n) == 0

    def witness():
        x = number(block.rng, n)
        return bits(x, n) + bits(-x, n)
    return a + b, util.invert_number(a, b, block.allocator()), meaning, witness


def b_symmetry(block, util, card, n, alias):
    a = block.lits(n)
    b = block.lits(n, a if alias else ())

    def witness():
        x = bits(number(block.rng, n), n)
        y = x[:]
        if block.rng.random() < 0.8:
            k = block.rng.randrange(n)
            y[k:] = [not x[k]] + bits(number(block.rng, n), n - k - 1)
        return x + y
    return (a + b, util.break_symmetry(a, b, block.allocator()), lambda v: v[:n] <= v[n:]) + (() if alias else (witness,))


def b_same(block, util, card):
    a = block.lits(2)
    return a, util.literals_same(*a), lambda v: v[0] == v[1]


def b_different(block, util, card):
    a = block.lits(2)
    return a, util.literals_different(*a), lambda v: v[0] != v[1]


def b_all(block, util, card, n, value):
    a = block.lits(n)
    return a, (util.set_all_true if value else util.set_all_false)(a), lambda v: all(x == value for x in v)


def b_not_all(block, util, card, n):
    a = block.lits(n)
    return a, [util.invert_components(a)], lambda v: not all(v)


def b_implies(block, util, card, n, widths):
    a = block.lits(n)
    consequences = [block.lits(w) for w in widths]

    def meaning(v):
        if not all(v[:n]):
            return True
        at = n
        for w in widths:
            if not any(v[at:at + w]):
                return False
            at += w
        return True
    return a + sum(consequences, []), util.implies(a, consequences), meaning


def b_set_literal(block, util, card, value):
    a = block.lits(1)
    return a, [[util.set_literal(a[0], value)]], lambda v: v[0] == value


def sweep(full):
    """Every small case: (name, build, params)."""
    top = 17 if full else 12
    for name in ('quadratic_amo', 'logarithmic_amo', 'heule_amo', 'quadratic_one', 'logarithmic_one', 'heule_one'):
        for n in range(1, top + 1):
            yield name, amo_family(name), (n,)
            if name.startswith('heule'):
                for cutoff in (3, 4, 5, 7):
                    yield name, amo_family(name), (n, cutoff)
    for name in ('library_equals', 'library_atmost', 'library_atleast'):
        for n in range(1, (12 if full else 10) + 1):
            for k in range(0, n + 1):
                yield name, library(name), (n, k)
    for n in range(1, (5 if full else 4) + 1):
        for longer, carry, overflow, alias in itertools.product((0, 1), (False, True), (False, True), (False, True)):
            yield 'add_numbers', b_add, (n, longer, carry, overflow, alias)
    for n, count in [(1, 2), (1, 3), (1, 5), (2, 2), (2, 3), (2, 4), (3, 2), (3, 3)] + ([(4, 2), (2, 6), (3, 4)] if full else []):
        for overflow in (False, True):
            yield 'sum_numbers', b_sum, (n, count, overflow)
    for n in range(1, (8 if full else 6) + 1):
        yield 'increment_number', b_increment, (n,)
        yield 'invert_number', b_invert, (n,)
        yield 'break_symmetry', b_symmetry, (n, False)
        yield 'break_symmetry', b_symmetry, (n, True)
    for n in range(2, (13 if full else 10) + 1):
        yield 'get_popcount', b_popcount, (n,)
    for n in range(1, (8 if full else 6) + 1):
        for value in range(1 << n):
            yield 'set_number', b_set_number, (n, value)
            yield 'set_not_number', b_set_not_number, (n, value)
            yield 'set_maximum', b_set_maximum, (n, value)
    for n in range(1, (4 if full else 3) + 1):
        for x in range(1 << n):
            for y in range(1 << n):
                yield 'set_numbers', b_set_numbers, (n, x, y)
    for n in range(0, (6 if full else 5) + 1):
        for m in range(0, (6 if full else 5) + 1):
            if n + m:
                yield 'set_numbers_equal', b_equal, (n, m)
    yield 'literals_same', b_same, ()
    yield 'literals_different', b_different, ()
    for value in (False, True):
        yield 'set_literal', b_set_literal, (value,)
        for n in range(1, 7):
            yield 'set_all', b_all, (n, value)
    for n in range(1, 7):
        yield 'invert_components', b_not_all, (n,)
    for n in range(0, 4):
        for widths in ((1,), (2,), (1, 1), (2, 1), (2, 3), (1, 2, 2)):
            yield 'implies', b_implies, (n, widths)


def wide(rng):
    """One wide case at random."""
    n = rng.randint(5, 20)
    value = rng.choice((rng.randrange(1 << n), rng.randrange(1 << n), (1 << n) - 1, 0, 1 << (n - 1)))
    kind = rng.randrange(14)
    if kind == 0:
        name = rng.choice(('quadratic_amo', 'logarithmic_amo', 'heule_amo', 'quadratic_one', 'logarithmic_one', 'heule_one'))
        return name, amo_family(name), (rng.randint(10, 70) if rng.random() < 0.8 else rng.randint(70, 200),)
    if kind == 1:
        name = rng.choice(('library_equals', 'library_atmost', 'library_atleast'))
        size = rng.randint(8, 40) if rng.random() < 0.8 else rng.randint(40, 130)
        return name, library(name), (size, rng.randint(0, size))
    if kind == 2:
        return 'add_numbers', b_add, (n, rng.randint(0, 1), rng.random() < 0.5, rng.random() < 0.5, rng.random() < 0.3)
    if kind == 3:
        return 'sum_numbers', b_sum, (rng.randint(3, 7), rng.randint(2, 6), rng.random() < 0.5)
    if kind == 4:
        return 'increment_number', b_increment, (n,)
    if kind == 5:
        return 'invert_number', b_invert, (n,)
    if kind == 6:
        return 'break_symmetry', b_symmetry, (n, rng.random() < 0.5)
    if kind == 7:
        return 'get_popcount', b_popcount, (rng.randint(10, 70) if rng.random() < 0.8 else rng.randint(70, 150),)
    if kind == 8:
        return 'set_number', b_set_number, (n, value)
    if kind == 9:
        return 'set_not_number', b_set_not_number, (n, value)
    if kind == 10:
        return 'set_maximum', b_set_maximum, (n, value)
    if kind == 11:
        other = rng.choice((rng.randrange(1 << n), value, value ^ (1 << rng.randrange(n)), value ^ ((1 << n) - 1)))
        return 'set_numbers', b_set_numbers, (n, value, other)
    if kind == 12:
        return 'set_numbers_equal', b_equal, (n, rng.choice((n, rng.randint(1, 20))))
    return 'implies', b_implies, (rng.randint(0, 6), tuple(rng.randint(1, 4) for _ in range(rng.randint(1, 4))))


def observe(report, rng, case, limit):
    util, card = core.tool('util'), core.tool('cardinality')
    name, build, params = case
    block = Block(rng)
    module = card if hasattr(card, name) and not hasattr(util, name) else util
    if name != 'set_all' and not hasattr(module, name) and not hasattr(util, name):
        report.count('absent')
        return
    result = build(block, util, card, *params)
    if result is None:
        report.count('refused')
        return
    lits, clauses, meaning = result[:3]
    judge(report, rng, name, params, lits, clauses, meaning, block.handed, limit, *result[3:])


def together(seed, number, limit):
    """Two or three blocks at once, as a board has them: each means what it says, whatever the others allocate."""
    util, card = core.tool('util'), core.tool('cardinality')
    rng = random.Random(seed)
    report = core.Report()
    for _ in range(number):
        block = Shared(rng)
        parts = []
        while len(parts) < rng.choice((2, 2, 3)):
            name, build, params = rng.choice(SWEEP) if rng.random() < 0.4 else wide(rng)
            module = card if hasattr(card, name) and not hasattr(util, name) else util
            if name != 'set_all' and not hasattr(module, name):
                continue
            try:
                result = build(block, util, card, *params)
            except Exception:
                result = None       # judged on its own
            if result is not None:
                parts.append((name, params, *result[:3]))
                if rng.random() < 0.5:
                    block.lits(rng.randint(1, 9))
        ends = list(itertools.accumulate(len(lits) for _, _, lits, _, _ in parts))

        def meaning(values):
            return all(bool(m(values[end - len(lits):end])) for end, (_, _, lits, _, m) in zip(ends, parts))
        judge(report, rng, 'together', tuple((name, params) for name, params, *_ in parts), [l for part in parts for l in part[2]],
              [c for part in parts for c in part[3]], meaning, set(range(1, block.ids.top + 1)) - block.given, limit)
    return report


def case_batch(seed, cases_of, limit):
    rng = random.Random(seed)
    report = core.Report()
    source = SWEEP[cases_of[1]::cases_of[2]] if cases_of[0] == 'sweep' else [wide(rng) for _ in range(cases_of[1])]
    for case in source:
        try:
            observe(report, rng, case, limit)
        except (AssertionError, ArithmeticError, LookupError, TypeError, ValueError, RuntimeError, AttributeError) as e:
            import traceback
            report.violation('crash:' + case[0], f'{case[0]} {case[2]} failed: {type(e).__name__} {e}',
                             {'case': (case[0], case[2]), 'trace': traceback.format_exc()})
    return report


def plain_numbers(seed):
    """The helpers that work on values instead of literals."""
    util = core.tool('util')
    rng = random.Random(seed)
    report = core.Report()
    for n in range(1, 14):
        values = range(1 << n) if n < 9 else [rng.randrange(1 << n) for _ in range(300)]
        for value in values:
            bits = [bool(value >> i & 1) for i in range(n)]
            report.evaluations += 1
            if list(util.get_bits(value, n)) != bits:
                report.violation('get_bits', f'get_bits({value}, {n})', {})
            if util.read_number(bits) != value:
                report.violation('read_number', f'read_number({bits}) is {util.read_number(bits)}', {})
            if n > 1:
                signed = value - (1 << n) if bits[-1] else value
                if util.read_number(bits, signed=True) != signed:
                    report.violation('read_number:signed', f'read_number({bits}, signed) is {util.read_number(bits, signed=True)}', {})
        report.keys.add(core.hash_key(('plain', n)))
    for value in list(range(1, 3000)) + [1 << k for k in range(12, 30)] + [(1 << k) + 1 for k in range(12, 30)]:
        report.evaluations += 1
        if util.bin_length(value) != (value - 1).bit_length():
            report.violation('bin_length', f'bin_length({value}) is {util.bin_length(value)}', {})
    for value in range(1, 5000):
        if bool(util.is_power_of_two(value)) != (bin(value).count('1') == 1):
            report.violation('is_power_of_two', f'is_power_of_two({value})', {})
        report.evaluations += 1
    for _ in range(200):
        values = [rng.randint(-9, 9) for _ in range(rng.randint(0, 7))]
        if util.product(values) != math.prod(values):
            report.violation('product', f'product({values})', {})
    start = rng.randint(0, 1000)
    allocate = util.make_allocator(start)
    got = [allocate() for _ in range(500)]
    if len(set(got)) != 500 or min(got) <= start:
        report.violation('make_allocator', 'hands out a variable twice, or one already in use', {'start': start})
    given = rng.sample(range(1, 1000), 50)
    fixed = util.make_fixed_allocator(given)
    if [fixed() for _ in given] != given:
        report.violation('make_fixed_allocator', 'does not hand out the literals given', {})
    return report


SWEEP = []


def main():
    check = core.Check('C21', 'exploration',
                       'one evaluation = one assignment of the literals given to a building block, decided by a SAT solver over the helper '
                       'variables and compared with the arithmetic; distinct = different block and parameters; non-trivial = some '
                       'assignments accepted and some rejected',
                       ['a call that the library refuses (an exception) because every assignment satisfies it, or because the bound is out of '
                        'range, says nothing wrong'])
    core.tool('util'), core.tool('cardinality')
    SWEEP.extend(sweep(not check.quick))
    rng = check.rng
    deadline = check.budget(40, 600)
    tasks = [core.Task(plain_numbers, rng.randrange(1 << 30), timeout=60, label='plain')]
    parts = 64
    for k in range(parts):
        tasks.append(core.Task(case_batch, rng.randrange(1 << 30), ('sweep', k, parts), check.pick(1 << 13, 1 << 17), timeout=check.pick(60, 400), label='sweep'))
    for _ in range(check.pick(40, 600)):
        tasks.append(core.Task(case_batch, rng.randrange(1 << 30), ('wide', 40), check.pick(400, 2000), timeout=60, label='wide'))
    for i in range(check.pick(40, 600)):
        tasks.insert(min(len(tasks), 3 * i), core.Task(together, rng.randrange(1 << 30), 25, check.pick(200, 1000), timeout=60, label='together'))
    check.run(tasks, deadline)
    check.finish(500)

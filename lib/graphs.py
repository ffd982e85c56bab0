"""Splitter networks as graphs: vertices are splitters, edges are wires, 'src' and 'dst' the outside."""
import collections

SRC, DST = 'src', 'dst'


class Ambiguous(Exception):
    pass


def of_circuit(circuit):
    """Counter of edges between splitter indices and the outside; wires that touch no splitter are left out."""
    producer, consumer = {}, {}
    for i, wires in enumerate(circuit.outs):
        for w in wires:
            if w is not None:
                producer[w] = i
    for i, wires in enumerate(circuit.ins):
        for w in wires:
            if w is not None:
                consumer[w] = i
    edges = collections.Counter()
    for w in set(producer) | set(consumer):
        edges[producer.get(w, SRC), consumer.get(w, DST)] += 1
    return len(circuit.splitters), edges


def of_network(nodes):
    """The same from a network, if its colours determine the wiring: a colour with several producers and
    several consumers leaves it open who feeds whom (several wires of one splitter are interchangeable)."""
    producers, consumers = collections.defaultdict(collections.Counter), collections.defaultdict(collections.Counter)
    for i, (ins, outs) in enumerate(nodes):
        for c in ins:
            if c is not None:
                consumers[c][i] += 1
        for c in outs:
            if c is not None:
                producers[c][i] += 1
    edges = collections.Counter()
    for c in set(producers) | set(consumers):
        p, q = dict(producers.get(c, {})), dict(consumers.get(c, {}))
        np, nq = sum(p.values()), sum(q.values())
        if np < nq:
            p[SRC] = nq - np
        elif nq < np:
            q[DST] = np - nq
        if len(p) > 1 and len(q) > 1:
            raise Ambiguous(f'colour {c} has several producers and consumers')
        for a, k in p.items():
            for b, m in q.items():
                edges[a, b] += k if len(q) == 1 else m
    return len(nodes), edges


def _refine(n, edges, rounds=None):
    ins, outs = collections.defaultdict(list), collections.defaultdict(list)
    for (a, b), k in edges.items():
        outs[a].append((b, k))
        ins[b].append((a, k))
    label = {i: 0 for i in range(n)}
    label[SRC], label[DST] = 'src', 'dst'
    for _ in range(rounds or n + 1):
        new = {}
        for v in range(n):
            new[v] = repr((label[v], sorted((repr(label[b]), k) for b, k in outs[v]), sorted((repr(label[a]), k) for a, k in ins[v])))
        new = {v: hash_text(t) for v, t in new.items()}
        new[SRC], new[DST] = 'src', 'dst'
        if len(set(new.values())) == len(set(label.values())) and rounds is None and _ > 0:
            label = new
            break
        label = new
    return label


def hash_text(text):
    import hashlib
    return hashlib.blake2b(text.encode(), digest_size=8).hexdigest()


def isomorphic(first, second, max_steps=200000):
    """True / False / None (gave up)."""
    (n, e), (m, f) = first, second
    if n != m or sum(e.values()) != sum(f.values()) or e.get((SRC, DST)) != f.get((SRC, DST)):
        return False
    rounds = n + 1
    la, lb = _refine(n, e, rounds), _refine(m, f, rounds)
    if sorted(la[v] for v in range(n)) != sorted(lb[v] for v in range(n)):
        return False
    classes = collections.defaultdict(list)
    for v in range(n):
        classes[lb[v]].append(v)
    order = sorted(range(n), key=lambda v: (len(classes[la[v]]), la[v]))
    image, used = {SRC: SRC, DST: DST}, set()
    steps = [0]

    def fits(v, w):
        for u, x in image.items():
            if e.get((v, u), 0) != f.get((w, x), 0) or e.get((u, v), 0) != f.get((x, w), 0):
                return False
        return e.get((v, v), 0) == f.get((w, w), 0)

    def search(k):
        steps[0] += 1
        if steps[0] > max_steps:
            return None
        if k == n:
            return True
        v = order[k]
        for w in classes[la[v]]:
            if w in used or not fits(v, w):
                continue
            image[v] = w
            used.add(w)
            found = search(k + 1)
            if found or found is None:
                return found
            del image[v]
            used.discard(w)
        return False
    return search(0)

"""Small strongly regular graphs, as adjacency lists of lists, for the valuations."""
from itertools import combinations


def cayley(n, s):
    return [[1 if (j - i) % n in s else 0 for j in range(n)] for i in range(n)]


def pentagon():
    return cayley(5, {1, 4}), (5, 2, 0, 1)


def paley13():
    return cayley(13, {1, 3, 4, 9, 10, 12}), (13, 6, 2, 3)


def kneser52():
    p = list(combinations(range(5), 2))
    return [[0 if set(a) & set(b) else 1 for b in p] for a in p], (10, 3, 0, 1)


def triangular5():
    p = list(combinations(range(5), 2))
    return [[1 if len(set(a) & set(b)) == 1 else 0 for b in p] for a in p], (10, 6, 3, 4)


def rook3():
    p = [(i, j) for i in range(3) for j in range(3)]
    return [[1 if a != b and (a[0] == b[0] or a[1] == b[1]) else 0 for b in p] for a in p], (9, 4, 1, 2)


def multipartite(m, n):
    """complete m-partite, parts of size n"""
    v = m * n
    return [[0 if i // n == j // n else 1 for j in range(v)] for i in range(v)], (v, v - n, v - 2 * n, v - n)


def cliques(m, n):
    v = m * n
    return [[1 if i != j and i // n == j // n else 0 for j in range(v)] for i in range(v)], (v, n - 1, n - 2, 0)


def clebsch():
    v = 16
    return [[1 if bin(i ^ j).count('1') in (1, 4) else 0 for j in range(v)] for i in range(v)], (16, 5, 0, 2)


def all_small():
    return [pentagon(), kneser52(), triangular5(), rook3(), multipartite(2, 3), multipartite(3, 2), cliques(2, 3),
            cliques(3, 2), multipartite(2, 2), multipartite(4, 2), paley13(), clebsch()]


def relabel(m, p):
    n = len(m)
    return [[m[p[i]][p[j]] for j in range(n)] for i in range(n)]


def seed(v, k, l, u):
    a = [0] * v
    b = [0] * v
    for i in range(1, k + 1):
        a[i] = 1
    b[0] = a[1] if v > 1 else 0
    for i in range(2, l + 2):
        b[i] = 1
    for i in range(k + 1, k + k - l):
        b[i] = 1
    return [a, b]


def canonical(m, r):
    """a random relabelling whose first two rows are the canonical seed"""
    n = len(m)
    x = r.randrange(n)
    nb = [j for j in range(n) if m[x][j]]
    y = r.choice(nb)
    rest = [j for j in range(n) if j not in (x, y)]
    r.shuffle(rest)
    g = [[], [], [], []]
    for j in rest:
        g[(0 if m[x][j] else 2) + (0 if m[y][j] else 1)].append(j)
    p = [x, y] + g[0] + g[1] + g[2] + g[3]
    return relabel(m, p)


def params(m):
    n = len(m)
    k = sum(m[0])
    ls = {sum(a * b for a, b in zip(m[i], m[j])) for i in range(n) for j in range(i) if m[i][j]}
    us = {sum(a * b for a, b in zip(m[i], m[j])) for i in range(n) for j in range(i) if not m[i][j]}
    return n, k, ls, us


def is_srg(m, v, k, l, u):
    """None or what is wrong"""
    if len(m) != v:
        return '%d rows instead of %d' % (len(m), v)
    for i, row in enumerate(m):
        if len(row) != v:
            return 'row %d has %d entries instead of %d' % (i, len(row), v)
        for j, a in enumerate(row):
            if a not in (0, 1):
                return 'entry (%d,%d) is %r' % (i, j, a)
        if row[i]:
            return 'diagonal entry %d is set' % i
    for i in range(v):
        for j in range(i):
            if m[i][j] != m[j][i]:
                return 'entries (%d,%d) and (%d,%d) differ' % (i, j, j, i)
        if sum(m[i]) != k:
            return 'vertex %d has degree %d instead of %d' % (i, sum(m[i]), k)
    bits = [int(''.join(map(str, row)), 2) for row in m]
    for i in range(v):
        for j in range(i):
            c = bin(bits[i] & bits[j]).count('1')
            w = l if m[i][j] else u
            if c != w:
                return 'vertices %d and %d (%sadjacent) have %d common neighbours instead of %d' % (j, i, '' if m[i][j] else 'non', c, w)
    return None


def lattice(n):
    p = [(i, j) for i in range(n) for j in range(n)]
    return [[1 if a != b and (a[0] == b[0] or a[1] == b[1]) else 0 for b in p] for a in p], (n * n, 2 * n - 2, n - 2, 2)


def triangular(n):
    p = list(combinations(range(n), 2))
    return [[1 if len(set(a) & set(b)) == 1 else 0 for b in p] for a in p], (n * (n - 1) // 2, 2 * n - 4, n - 2, 4)


def paley(q):
    return cayley(q, {x * x % q for x in range(1, q)}), (q, (q - 1) // 2, (q - 5) // 4, (q - 1) // 4)


def complement(m):
    return [[int(not a and i != j) for j, a in enumerate(row)] for i, row in enumerate(m)]


def co(f, *a):
    m, (v, k, l, u) = f(*a)
    return complement(m), (v, v - k - 1, v - 2 - 2 * k + u, v - 2 * k + l)


def family(vmax=150):
    """parameters and makers of infinite families, by number of vertices"""
    out = []
    for n in range(2, vmax + 1):
        for m in range(2, vmax // n + 1):
            out.append(((m * n, n - 1, n - 2, 0), (cliques, m, n)))
            out.append(((m * n, m * n - n, m * n - 2 * n, m * n - n), (multipartite, m, n)))
    for n in range(3, 13):
        out.append(((n * n, 2 * n - 2, n - 2, 2), (lattice, n)))
        out.append((co_params(n * n, 2 * n - 2, n - 2, 2), (co, lattice, n)))
    for n in range(5, 18):
        out.append(((n * (n - 1) // 2, 2 * n - 4, n - 2, 4), (triangular, n)))
        out.append((co_params(n * (n - 1) // 2, 2 * n - 4, n - 2, 4), (co, triangular, n)))
    for q in (5, 13, 17, 29, 37, 41, 53, 61, 73, 89, 97, 101, 109, 113, 137, 149):
        out.append(((q, (q - 1) // 2, (q - 5) // 4, (q - 1) // 4), (paley, q)))
    return [x for x in out if x[0][0] <= vmax]


def co_params(v, k, l, u):
    return v, v - k - 1, v - 2 - 2 * k + u, v - 2 * k + l


def around(r, sizes, per=3, vmax=150):
    """graphs one of whose parameters lies around one of the sizes"""
    fam = family(vmax)
    for s in sizes:
        hit = [x for x in fam if any(s <= y <= s + 2 for y in x[0])]
        r.shuffle(hit)
        # one by its number of vertices, one by its degree, the rest as they come
        pick = [x for x in hit if s <= x[0][0] <= s + 2][:per] + [x for x in hit if s <= x[0][1] <= s + 2][:per] + hit[:per]
        for p, mk in pick:
            yield mk[0](*mk[1:])


def isomorphic(a, b, limit=2000000):
    """is there a relabelling of a into b; None when the search for one was given up"""
    n = len(a)
    if n != len(b) or sorted(map(sum, a)) != sorted(map(sum, b)):
        return False
    # each next vertex is the one with most neighbours among those placed
    order = []
    while len(order) < n:
        order.append(max((x for x in range(n) if x not in order), key=lambda x: (sum(a[x][y] for y in order), sum(a[x]))))
    img, used, steps = [], set(), [0]

    def go(i):
        if i == n:
            return True
        x = order[i]
        for y in range(n):
            if y in used or sum(a[x]) != sum(b[y]):
                continue
            steps[0] += 1
            if steps[0] > limit:
                raise OverflowError
            if all(a[x][order[j]] == b[y][img[j]] for j in range(i)):
                img.append(y)
                used.add(y)
                if go(i + 1):
                    return True
                img.pop()
                used.discard(y)
        return False
    try:
        return go(0)
    except OverflowError:
        return None


def written_form(m):
    """the first row and column at which the form in which the search writes graphs is left, or None: in every
    row ones come first among the columns that the earlier rows do not tell apart"""
    n = len(m)
    for r in range(2, n):
        last = {}
        for c in range(r + 1, n):
            g = tuple(m[i][c] for i in range(r))
            if m[r][c] > last.get(g, 1):
                return r, c
            last[g] = m[r][c]
    return None


def written_forms(m, limit=40000000):
    """every relabelling of m that is in the form in which the search writes graphs; None when there are too many"""
    n = len(m)
    adj = [sum(1 << j for j in range(n) if m[i][j]) for i in range(n)]
    # of vertices that can be exchanged without changing the graph only the first is tried
    twin = [[y for y in range(x) if adj[x] & ~(1 << y) == adj[y] & ~(1 << x)] for x in range(n)]
    out, left = set(), [limit]

    def go(order, cells):
        left[0] -= len(cells) + 1
        if left[0] < 0:
            raise OverflowError
        if all(c & (c - 1) == 0 for c in cells):
            full = order + [c.bit_length() - 1 for c in cells]
            pos = {x: i for i, x in enumerate(full)}
            out.add(tuple(sum(1 << pos[y] for y in range(n) if adj[x] >> y & 1) for x in full))
            return
        first = cells[0]
        for x in range(n):
            if not first >> x & 1 or any(first >> y & 1 for y in twin[x]):
                continue
            rest = []
            for c in cells:
                c &= ~(1 << x)
                if c & adj[x]:
                    rest.append(c & adj[x])
                if c & ~adj[x]:
                    rest.append(c & ~adj[x])
            go(order + [x], rest)
    try:
        go([], [(1 << n) - 1])
    except OverflowError:
        return None
    return out

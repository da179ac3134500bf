"""The fixed family of valuations at which value numbers are compared."""
import itertools
import random
from .core import SEED


def rng(tag):
    return random.Random('%s/%s' % (SEED, tag))


STOCK = (9, 12, 17, 26, 34, 66)


def scaled(ctx, r, tier='quick', per=4, cap=140):
    """keyword arguments for question(): systems whose columns, rows, buckets or counts lie around every
    integer the program's own source mentions (both sides of a threshold), and around a stock of sizes"""
    sizes = ctx.sizes(cap, STOCK)
    if tier == 'thorough':
        per *= 3
        sizes = sorted(set(sizes) | set(range(5, 40)) | {129, 257})
    for s in sizes:
        for i in range(per):
            yield dict(maxsize=2 * s, dens=r.choice([.5, .3]), known=r.choice([None, 0, 1]))
            if s <= 70:
                yield dict(minc=s, maxc=s + 2, maxr=r.choice([4, max(4, s)]), dens=r.choice([.5, .3, 2. / s]), known=r.choice([None, 3]))
                yield dict(minr=s, maxr=s + 1, dens=r.choice([.5, .3]), maxc=r.choice([4, 6]), known=r.choice([0, 2]))
                yield dict(maxc=6, maxr=4, known=s)
            if 16 < s <= 70 and i == 0:
                yield dict(minc=s, maxc=s + 2, maxr=3, maxsize=s)
    # numbers the source itself mentions: sizes, counts and values around each of them, met exactly or nearly
    for s in ctx.marks(cap):
        for i in range(2 * per + 4):
            x = dict(single=r.choice([0, .7, 1]), sparse=r.choice([None, None, 1, 2, 3]), tight=r.choice([0, 1, 2, 2]), dens=r.choice([.5, .3, .9, .97]))
            yield dict(x, maxsize=r.choice([s + 2, 2 * s, 3 * s]), known=r.choice([None, 0, 1]), minc=r.choice([1, 1, 3]), minsize=r.choice([1, 1, s - 1, s]))
            if s <= 70 and i % 2:
                yield dict(x, minc=s, maxc=s + r.choice([1, 2, 6, 14]), minr=(s + 14).bit_length(), maxr=(s + 14).bit_length() + r.choice([0, 1, 4]), maxsize=r.choice([1, 4, 4, s]))
            if i % 3 == 0 and s > 0:
                yield dict(x, minr=min(s, 70), maxr=min(s, 70) + 2, maxc=r.choice([4, 6]), maxsize=r.choice([4, s]))
    # counts around the larger ones
    for s in ctx.marks(5000):
        if s > cap:
            for i in range(2 * per + 2):
                yield dict(maxsize=r.choice([s + 2, s + 2, 2 * s]), minsize=r.choice([1, s - 3, s // 2]), maxc=3, tight=r.choice([0, 1, 2]), known=r.choice([None, 0, 1]),
                           sparse=r.choice([None, None, 1]), dens=r.choice([.5, .9]))


def apart(ctx, r):
    """columns which, read as binary numbers from either end, lie a multiple of a constant of the source apart"""
    for z in sorted({int(c) for c in ctx._lits if 8 < c < 2 ** 80 and c == int(c)} if hasattr(ctx, '_lits') else ()):
        for k in (1, 1, 2):
            n = (k * z).bit_length() + r.randint(1, 3)
            x = r.randrange(2 ** n - k * z)
            a, b = ([int(c) for c in format(y, '0%db' % n)] for y in (x, x + k * z))
            for m in (1, -1):
                cols = [a[::m]] * r.choice([1, 1, 2]) + [b[::m]] * r.choice([1, 1, 2])
                yield dict(cols=cols if r.random() < .5 else cols[::-1])


def corners(r, n):
    """extremes in combination: few or many rows and columns, nothing or little left to distribute, no or many
    assigned buckets, narrow or wide ones, capacities all met or not"""
    mix = [x for x in itertools.product((1, 9, 36), (1, 3, 12, 36), (0, 1, None, None), (0, 1, 12), (1, 4, 40), (0, 1, 2)) if x[0] * x[1] < 200]
    for rows, cols, sparse, known, big, tight in r.sample(mix, n):
        yield dict(minr=rows, maxr=rows + 2, minc=cols, maxc=cols + 1, sparse=sparse, known=known, maxsize=big, tight=tight, dens=r.choice([.5, .1, .9]), single=r.choice([0, .9]))


def systems(ctx, r, n, base, tier='quick', per=2, cap=140, **over):
    """n small systems (keywords base(i)) and the scaled ones: -> (index, env, x, unk)"""
    for i in range(n):
        yield (i,) + question(r, **base(i))
    i = n
    for kw in itertools.chain(scaled(ctx, r, tier, per, cap), corners(r, 40 if tier == 'quick' else 300), apart(ctx, r)):
        b = {k: v for k, v in base(i).items() if k in ('distinct', 'sat', 'unit', 'tight')}
        if 'cols' in kw and b.get('distinct') is True:
            kw['cols'] = [c for j, c in enumerate(kw['cols']) if c not in kw['cols'][:j]]
        b.update(kw)
        b.update(over)
        if b.get('distinct') is False:
            b.pop('known', None)
        b['minc'] = max(1, b.get('minc', 1))
        yield (i,) + question(r, **b)
        i += 1


def question(r, distinct=None, maxc=5, maxr=4, sat=True, minc=0, tight=None, unit=False, maxsize=4, dens=.5, minr=1, known=None, single=0, sparse=None, minsize=1, cols=None):
    """a well-formed system: 0/1 matrix, buckets partly assigned, and a solution x of it"""
    given = cols
    while True:
        C = r.randint(minc, maxc)
        R = r.randint(minr, maxr)
        cols = []
        if given:
            cols, C, R = [list(c) for c in given], len(given), len(given[0])
        for _ in range(0 if given else C):
            cols.append([int(r.random() < dens) for _ in range(R)] if dens != .5 else [r.randint(0, 1) for _ in range(R)])
        if given:
            pass
        elif distinct is True:
            seen = []
            for c in cols:
                if c not in seen:
                    seen.append(c)
            cols = seen
        elif distinct is False:
            cols.sort(reverse=r.random() < .7)
        C = len(cols)
        if C < minc:
            minc -= minc > 3
            continue
        if single and C and distinct is not False and r.random() < single:
            for i in range(r.randint(1, 3)):
                j = r.randrange(C)
                for c in range(C):
                    cols[c] = cols[c] + [int(c == j)]
                R += 1
        A = [[cols[c][i] for c in range(C)] for i in range(R)]
        # buckets: C unknown ones plus assigned ones
        cuts = None
        if distinct is False:
            # assigned buckets lie between groups of identical columns, never inside one: a merged bucket is one run
            known = known or 0
            if known:
                cols.sort(reverse=True)
                cuts = [c for c in range(C + 1) if c in (0, C) or cols[c] != cols[c - 1]]
        else:
            known = known if known is not None else r.choice([0, 0, 1, 2])
        N = C + known
        if N == 0:
            known = N = 1
        if cuts is not None:
            at = sorted(r.choice(cuts) for _ in range(known))
            unk = [c + sum(1 for y in at if y <= c) for c in range(C)]
        else:
            unk = sorted(r.sample(range(N), C))
        size = [1 if unit else r.randint(min(minsize, maxsize), maxsize) for _ in range(N)]
        loc, s = [], 0
        for z in size:
            loc.append(s)
            s += z
        L = s
        v = [r.randint(0, size[i]) for i in range(N)]
        bounds = []
        for i in unk:
            bounds.append(size[i] if unit or r.random() < .7 else r.randint(0, size[i]))
        x = [r.randint(0, bb) for bb in bounds]
        if tight and bounds:
            x = [bb if r.random() < (.5 if tight == 1 else .9) else y for y, bb in zip(x, bounds)]
        if sparse is not None and C:
            # nearly all zero: then many right hand sides are met by a single unknown, and the quota by few
            alone = [next(c for c in range(C) if A[i][c]) for i in range(R) if sum(A[i]) == 1]
            keep = set(alone if alone and r.random() < .6 else r.sample(range(C), min(C, sparse)))
            if r.random() < .3:
                keep.add(min(range(C), key=lambda c: bounds[c]))
            x = [y if j in keep else 0 for j, y in enumerate(x)]
        for j, i in enumerate(unk):
            v[i] = -1
        # the equation "all unknowns sum to quota" is part of every system that occurs
        ones = [1] * C
        if A and A[-1] != ones and r.random() < .4:
            ones = [1 - a for a in A[-1]]
        A.insert(r.choice([0, len(A)]) if given else r.randint(0, len(A)), ones)
        R += 1
        b = [sum(a * y for a, y in zip(row, x)) for row in A]
        quota = sum(x)
        env = dict(A=A, b=b, bounds=bounds, quota=quota, val=v, loc=loc, L=L, N=N, C=C, R=R)
        if not sat:
            k = r.randrange(3)
            if k == 0 and R:
                i = r.randrange(R)
                b[i] = max(0, b[i] + r.choice([-1, 1, 2]))
            elif k == 1:
                env['quota'] = max(0, quota + r.choice([-1, 1, 2, 3]))
            elif bounds:
                i = r.randrange(C)
                bounds[i] = max(0, bounds[i] - r.choice([1, 2]))
            x = None
        return env, x, unk

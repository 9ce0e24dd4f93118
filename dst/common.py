"""Generator helpers shared by the properties."""


def gen_sched(rng, est=3000, coop=0.12, tick=None, maxp=400, hold=0.0):
    r = rng.random()
    if r < coop:
        pol = {'kind': 'coop'}
    elif r < 0.45:
        pol = {'kind': 'uniform', 'p': rng.choice([0.002, 0.01, 0.03, 0.1, 0.3]), 'max': maxp}
    elif r < 0.75:
        pol = {'kind': 'hot', 'mod': rng.choice([2, 8, 32, 128]), 'p': rng.choice([0.1, 0.5, 1.0]),
               'salt': rng.randrange(1000003), 'max': maxp}
    else:
        pol = {'kind': 'pct', 'd': rng.randrange(1, 6), 'len': int(est * rng.choice([0.3, 1, 2]))}
    if rng.random() < hold:
        pol['hold'] = 1
    return {'policy': pol, 'tick': rng.choice([100, 1000, 1000, 5000]) if tick is None else tick}


def gen_stall(rng, ms=(20, 200, 1000, 4000), who=('ThreadPoolExecutor',), n=4):
    """Threads that the machine does not run for a while, anywhere in their work."""
    who = list(who) + (['Deep'] if any(x.startswith('ThreadPool') for x in who) else [])
    return {'who': list(who), 'p': rng.choice([0.001, 0.005, 0.02, 0.1]), 'max': rng.randrange(1, n + 1), 'ms': list(ms)}


def pick(rng, seq):
    return seq[rng.randrange(len(seq))]


def subset(rng, seq, p=0.5):
    return [x for x in seq if rng.random() < p]


def viol(cls, msg, key=None):
    v = {'cls': cls, 'msg': msg}
    if key:
        v['key'] = key
    return v

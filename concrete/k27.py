from h import *
from robuststats.utils import montecarlo as MC


class Boom(Exception):
    pass


class Hard(BaseException):
    pass


def disturb(rng):
    """advance or replace the global state in an arbitrary way"""
    r = int(rng.integers(7))
    if r == 0:
        np.random.randn(int(rng.integers(0, 9)))
    elif r == 1:
        np.random.rand(int(rng.integers(1, 700)))
    elif r == 2:
        np.random.seed(int(rng.integers(2 ** 31)))
    elif r == 3:
        np.random.randn()
    elif r == 4:
        np.random.gamma(2., size=3), np.random.permutation(5)
    elif r == 5:
        np.random.set_state(np.random.RandomState(int(rng.integers(1000))).get_state())


def body(rng, seed, depth):
    """block body: draws of the seed first, then anything, possibly nested, left in an arbitrary way"""
    ref = np.random.RandomState(seed)
    exact(np.random.randn(3), ref.randn(3), "draws inside are those of the seed", seed=seed)
    exact(np.random.randint(0, 1000, 5), ref.randint(0, 1000, 5), "integer draws inside are those of the seed", seed=seed)
    for _ in range(int(rng.integers(3))):
        disturb(rng)
    if depth and rng.integers(2):
        block(rng, depth - 1)


def block(rng, depth):
    seed = int(pick(rng, [0, 1, 2 ** 32 - 1, int(rng.integers(2 ** 31))]))
    if rng.integers(2):
        np.random.randn()                       # leaves half of a normal pair cached
    if rng.integers(2):
        np.random.rand(int(rng.integers(1, 900)))
    before = np.random.get_state()
    way = int(rng.integers(7))
    err = pick(rng, [Boom, Hard, KeyboardInterrupt, ValueError, StopIteration, SystemExit, GeneratorExit])("x")

    def f():
        with MC.temp_seed(seed):
            body(rng, seed, depth)
            return 5

    def g():
        with MC.temp_seed(seed):
            body(rng, seed, depth)
            yield 1
            yield 2
    if way == 0:
        with MC.temp_seed(seed):
            body(rng, seed, depth)
    elif way == 1:
        got = None
        try:
            with MC.temp_seed(seed):
                body(rng, seed, depth)
                raise err
        except BaseException as e:
            if isinstance(e, Broken):
                raise
            got = e
        ok(got is err, "the exception propagates", got=got)
    elif way == 2:
        ok(f() == 5, "early return keeps its value")
    elif way == 3:
        for i in range(3):
            with MC.temp_seed(seed):
                body(rng, seed, depth)
                if i == 1:
                    break
                continue
    elif way == 4:
        it = g()
        next(it)
        it.close()
    elif way == 5:
        cm = MC.temp_seed(seed)
        np.random.rand(3)
        before = np.random.get_state()
        with cm:
            body(rng, seed, depth)
    else:
        with MC.temp_seed(seed):
            pass
    ok(rand_state_eq(np.random.get_state(), before), "global random state restored", way=way, seed=seed)
    a = np.random.RandomState()
    a.set_state(before)
    exact(np.random.randn(2), a.randn(2), "draws after the block continue the sequence from before it")


@case("C27", 150)
def blocks(rng):
    if rng.integers(2):
        np.random.seed(int(rng.integers(2 ** 31)))
    block(rng, 2)


@case("C27", 40)
def repeated(rng):
    seed = int(rng.integers(2 ** 31))
    with MC.temp_seed(seed):
        a = np.random.randn(4)
    disturb(rng)
    with MC.temp_seed(seed):
        exact(np.random.randn(4), a, "same seed, same draws")

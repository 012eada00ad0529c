from rsv.spec import *


class Boom(Exception):
    pass


class Hard(BaseException):
    pass


def register(L):
    C = check("C27")
    m = L.module("robuststats.utils.montecarlo")
    st = lambda: np._rng().state()
    MARK = [0]

    def havoc():
        """any number of draws, reseedings or other changes of the generator: the state is arbitrary afterwards"""
        MARK[0] += 1
        np._rng().set(("any state %d" % MARK[0], (), "", 0))

    def seeded(name, seed):
        """the state inside is the one a direct seeding gives, and draws are those of the seed"""
        inside = st()
        a = np.random.randn(dim("a"), dim("b"))
        keep = st()
        np.random.seed(seed)
        RT.oblige(name + ": state is the seeded state", inside == st(), "%s / %s" % (inside, st()))
        b = np.random.randn(dim("a"), dim("b"))
        eq(name + ": draws are those of the seed", a, b)
        np._rng().set(keep)

    def same_state(name, before):
        RT.oblige(name, st() == before, "before %s, after %s" % (before, st()))

    seeds = [("any seed", lambda: pint("seed")), ("seed 0", lambda: 0), ("seed 77", lambda: 77)]
    for snm, sd in seeds:
        @C.scenario("normal exit, %s" % snm)
        def _(sd=sd):
            seed = sd()
            for pre in (False, True):
                if pre:
                    np.random.randn(dim("c"))
                b = st()
                with m.temp_seed(seed):
                    seeded("inside", seed)
                same_state("state restored, block with draws", b)
                with m.temp_seed(seed):
                    havoc()
                same_state("state restored, arbitrary block", b)
                with m.temp_seed(seed):
                    pass
                same_state("state restored, empty block", b)

        for enm, ex in (("Exception", Boom), ("BaseException", Hard), ("KeyboardInterrupt", KeyboardInterrupt), ("StopIteration", StopIteration),
                        ("GeneratorExit", GeneratorExit), ("ValueError", ValueError), ("SystemExit", SystemExit), ("AssertionError", AssertionError)):
            @C.scenario("exit by %s, %s" % (enm, snm))
            def _(sd=sd, ex=ex):
                seed = sd()
                b = st()
                err = ex("x")
                got = None
                try:
                    with m.temp_seed(seed):
                        havoc()
                        raise err
                except BaseException as e:
                    got = e
                RT.oblige("the exception propagates", got is err, "%r" % (got,))
                same_state("state restored", b)

        @C.scenario("early return, break and continue, %s" % snm)
        def _(sd=sd):
            seed = sd()
            b = st()

            def f():
                with m.temp_seed(seed):
                    havoc()
                    return 3
            RT.oblige("value returned", f() == 3)
            same_state("state restored after return", b)
            for i in range(3):
                with m.temp_seed(seed):
                    havoc()
                    if i == 1:
                        break
                    continue
            same_state("state restored after break and continue", b)

            def g():
                with m.temp_seed(seed):
                    havoc()
                    yield 1
                    yield 2
            it = g()
            next(it)
            it.close()
            same_state("state restored when a suspended block is closed", b)

        @C.scenario("nesting, %s" % snm)
        def _(sd=sd):
            s1, s2 = sd(), pint("other seed")
            b = st()
            with m.temp_seed(s1):
                havoc()
                mid = st()
                with m.temp_seed(s2):
                    seeded("inner", s2)
                    with m.temp_seed(s1):
                        seeded("innermost", s1)
                    havoc()
                same_state("inner block restores the outer block's state", mid)
                try:
                    with m.temp_seed(s2):
                        havoc()
                        raise Boom()
                except Boom:
                    pass
                same_state("inner block left by an exception restores the outer block's state", mid)
            same_state("outer state restored", b)

        @C.scenario("repetition gives the same draws, %s" % snm)
        def _(sd=sd):
            seed = sd()
            with m.temp_seed(seed):
                a = np.random.randn(dim("a"), dim("b"))
            havoc()
            with m.temp_seed(seed):
                c = np.random.randn(dim("a"), dim("b"))
            eq("same draws", a, c)
            one, two = m.temp_seed(seed), m.temp_seed(seed)
            b = st()
            with one:
                havoc()
                with two:
                    havoc()
            same_state("separately created blocks", b)
            b = st()
            cm = m.temp_seed(seed)
            np.random.randn(3)
            b = st()
            with cm:
                havoc()
            same_state("the state saved is the one at entry of the block", b)

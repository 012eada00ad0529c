from h import *
from robuststats.models import mappings as m


def cvec(rng, *shape):
    a = randn(rng, *shape, cplx=True)
    r = rng.integers(5)
    if r == 0:
        a = np.real(a) + 0j          # complex with null imaginary part
    if r == 1:
        a = 1j * np.imag(a)
    if r == 2:
        a = a * 10.0 ** rng.integers(-200, 200, size=a.shape)
    if r == 3:
        a = a.astype(np.complex64)
    return a


def dims(rng):
    return int(pick(rng, [1, 1, 2, 3, 4, 5, 8, 17, 64])), int(pick(rng, [1, 1, 2, 3, 4, 5, 7, 12, 33]))


@case("C01", 150)
def complex_round_trip(rng):
    n, p = dims(rng)
    if rng.integers(12) == 0:
        n, p = pick(rng, [(1500, 2), (2, 700), (300, 40)])
    a = layout(rng, cvec(rng, p) if rng.integers(2) else cvec(rng, n, p))
    ro = RO(a)
    r = m.arraytoreal(a)
    ok(np.isrealobj(r), "arraytoreal is real", a=a)
    exact(r, stack_real(a), "arraytoreal = [Re | Im]", a=a)
    b = m.arraytocomplex(r)
    ok(np.iscomplexobj(b), "arraytocomplex is complex")
    exact(b, a, "arraytocomplex(arraytoreal(a)) = a")
    exact(m.arraytocomplex(a), a, "complex input unchanged")
    ro.check()


@case("C01", 150)
def real_round_trip(rng):
    n, p = dims(rng)
    if rng.integers(12) == 0:
        n, p = pick(rng, [(1500, 2), (2, 700), (300, 40)])
    shape = (2 * p,) if rng.integers(2) else (n, 2 * p)
    a = randn(rng, *shape)
    r = rng.integers(4)
    if r == 0:
        a = rng.integers(-9, 9, size=shape)
    if r == 1:
        a = a.astype(np.float32)
    a = layout(rng, a)
    ro = RO(a)
    c = m.arraytocomplex(a)
    ok(np.iscomplexobj(c), "arraytocomplex is complex")
    exact(c, a[..., :p] + 1j * a[..., p:], "arraytocomplex = first half + i second half", a=a)
    exact(m.arraytoreal(c), a, "arraytoreal(arraytocomplex(a)) = a")
    exact(m.arraytoreal(a), a, "real input unchanged")
    ro.check()


@case("C01", 30)
def other_dimensions(rng):
    for nd in (0, 3, 4):
        s = tuple(int(x) for x in rng.integers(1, 4, size=nd))
        z = randn(rng, *s, cplx=True) if nd else np.array(1 + 2j)
        raises(AttributeError, lambda: m.arraytoreal(z), "arraytoreal of %d dimensions" % nd)
        y = np.real(z)
        raises(AttributeError, lambda: m.arraytocomplex(y), "arraytocomplex of %d dimensions" % nd)
        exact(m.arraytoreal(y), y, "real passes")
        exact(m.arraytocomplex(z), z, "complex passes")

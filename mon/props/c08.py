"""C08  Internal Minkowski-sum ellipsoids lie in the sum and touch it."""
from ellipy.elltool.core.ellipsoid.Ellipsoid import Ellipsoid
from . import mink
from .. import gen

RULE = ('2..6 ellipsoids of dimension 1..5 (full; in a second case degenerate ones with their own tolerances), 1..4 '
        'directions; centre, order, touching in the given direction and inclusion along random, nearby and opposite '
        'probe directions against the sum of the members\' support values; distinct by content')
REQUIRED = ['one-per-direction', 'center', 'touches', 'contained', 'degenerate-touches', 'single', 'rejected']


def f(arr, ls):
    return Ellipsoid.minksum_ia(arr, ls)


CASES = [('large_full', gen.large(lambda m: mink.run(m, f, False, False), 20, 70), 3, 60),
         ('crowd', lambda m: mink.crowd(m, f, False), 8, 200), ('full', lambda m: mink.run(m, f, False, False), 160, 4000),
         ('degenerate', lambda m: mink.run(m, f, False, True), 100, 2500),
         ('scaled', lambda m: mink.scaled(m, f, False), 40, 1500), ('single', lambda m: mink.single(m, f), 40, 800), ('rejected', lambda m: mink.rejected(m, f), 8, 40)]

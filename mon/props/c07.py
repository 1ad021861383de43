"""C07  External Minkowski-sum ellipsoids contain the sum and touch it."""
from ellipy.elltool.core.ellipsoid.Ellipsoid import Ellipsoid
from . import mink
from .. import gen

RULE = ('2..6 ellipsoids of dimension 1..5 (full; in a second case degenerate ones with their own tolerances), 1..4 '
        'directions; centre, order, touching in the given direction and containment along random, nearby and opposite '
        'probe directions against the sum of the members\' support values; distinct by content')
REQUIRED = ['one-per-direction', 'center', 'touches', 'contains', 'degenerate-touches', 'single', 'rejected']


def f(arr, ls):
    return Ellipsoid.minksum_ea(arr, ls)


CASES = [('large_full', gen.large(lambda m: mink.run(m, f, True, False), 20, 70), 3, 60),
         ('crowd', lambda m: mink.crowd(m, f, True), 8, 200), ('full', lambda m: mink.run(m, f, True, False), 200, 5000),
         ('degenerate', lambda m: mink.run(m, f, True, True), 120, 3000),
         ('scaled', lambda m: mink.scaled(m, f, True), 40, 1500), ('single', lambda m: mink.single(m, f), 40, 800), ('rejected', lambda m: mink.rejected(m, f), 8, 40)]

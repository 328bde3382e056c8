"""Template families shared by the obligations."""
from .tmpl import Spec

# clamped, unclamped and partially clamped axes; all interior multiplicities
AX1 = [(1, (2, 2)), (1, (2, 1, 1, 2)), (1, (1, 1, 1, 1, 1))]
AX2 = [(2, (3, 3)), (2, (3, 1, 3)), (2, (3, 2, 1, 3)),
       (2, (1,) * 7), (2, (2, 1, 1, 1, 2))]
AX3 = [(3, (4, 4)), (3, (4, 1, 2, 4)), (3, (4, 3, 4)), (3, (1,) * 9),
       (3, (1, 2, 1, 1, 2, 1, 1, 1))]
AX4 = [(4, (5, 5)), (4, (5, 1, 3, 5)), (4, (5, 4, 5)), (4, (1,) * 11)]

QUICK1 = AX1 + AX2 + AX3
MORE1 = AX4 + [(2, (3, 1, 1, 1, 3)), (3, (4, 2, 1, 4)), (3, (4, 1, 1, 1, 4)),
               (3, (2, 2, 1, 1, 1, 2, 2)), (2, (1, 2, 1, 2, 1, 1)),
               (1, (2, 1, 1, 1, 2)), (5, (6, 1, 6)), (5, (1,) * 13),
               (4, (5, 1, 1, 1, 1, 5)), (5, (6, 1, 1, 1, 6)),
               (5, (6, 2, 3, 6)), (6, (7, 1, 2, 7)), (7, (8, 3, 8))]
QUICK2 = [((2, (3, 1, 3)), (1, (2, 2))),
          ((1, (2, 1, 2)), (3, (4, 4))),
          ((2, (1,) * 7), (2, (3, 2, 3)))]
MORE2 = [((3, (4, 1, 4)), (2, (3, 1, 3))),
         ((1, (1, 1, 1, 1)), (2, (1,) * 6)),
         ((2, (3, 3)), (3, (1,) * 8))]
QUICK3 = [((2, (3, 1, 3)), (1, (2, 2)), (1, (2, 1, 2))),
          ((1, (2, 2)), (2, (3, 3)), (2, (1,) * 6))]
MORE3 = [((3, (4, 4)), (2, (3, 1, 3)), (1, (2, 1, 2))),
         ((1, (1, 1, 1, 1)), (2, (3, 2, 3)), (1, (2, 2)))]


# deeper: higher degrees, all interior multiplicities, longer knot vectors
DEEP1 = [(4, (5, 2, 2, 5)), (4, (1, 1, 3, 2, 1, 2,
                                                          1, 1)),
         (5, (6, 5, 6)), (5, (2, 1, 3, 1, 2, 3, 2)),
         (6, (1,) * 15), (7, (5, 3, 2, 8)),
         (3, (4, 1, 1, 1, 1, 1, 1, 4)), (2, (3,) + (1,) * 9 + (3,)),
         (1, (2,) + (1,) * 10 + (2,)), (3, (3, 1, 2, 3, 1, 3, 1)),
         (2, (2, 2, 2, 2, 2)), (3, (4, 2, 2, 2, 4))]
DEEP2 = [((4, (5, 1, 5)), (3, (1,) * 8)), ((3, (4, 2, 4)), (3, (4, 1, 1, 4))),
         ((5, (6, 6)), (1, (2, 1, 1, 2))),
         ((3, (4, 1, 4)), (2, (3, 1, 3)), (2, (1,) * 6)),
         ((2, (3, 2, 3)), (1, (1,) * 5), (3, (4, 4)))]


def fid(specs):
    return '/'.join(Spec(*s).id for s in specs)


def all_specs(thorough=True):
    """[(specs, tier)]"""
    out = [((s,), 'quick') for s in QUICK1 + MORE1]
    out += [(s, 'quick') for s in QUICK2 + QUICK3 + MORE2 + MORE3]
    out += [((s,), 'thorough') for s in DEEP1]
    out += [(s, 'thorough') for s in DEEP2]
    return out


def clamped(specs):
    return all(Spec(*s).clamped() for s in specs)

"""reduced problems on which the active set iterations take an unusual course (dev/qpfind.py 1 90): variables, equalities, inequalities"""
HARD = [
    (2, (), (((0, 1), -2), ((0, 3), -5), ((0, -3), 8))),  # drop first, drop last, dual drop
    (2, (), (((-1, 0), 2), ((5, 0), -5), ((0, 3), 2), ((-4, 0), 5), ((0, -3), 1), ((2, 0), -4))),  # drop first, drop last, dual drop, infeasible
    (2, (), (((-1, 4), -8), ((-1, 0), -3), ((0, 4), -7))),  # drop first, drop inside, dual drop, full
    (2, (), (((-1, -2), 9), ((2, 1), -7), ((-2, 1), -5), ((3, 4), -15))),  # drop first, drop inside, dual drop, full, infeasible
    (2, (), (((3, -3), -7), ((4, 1), -5), ((2, -4), -7))),  # drop first, drop inside, dual drop, full, tie
    (2, (), (((-3, -1), 2), ((4, -3), -10), ((-1, 3), 6), ((4, 0), -8))),  # drop first, drop inside, dual drop, full, infeasible, tie
    (2, (), (((0, -4), 0), ((3, 1), -2), ((2, 0), -2))),  # drop first, drop inside, dual drop, full, tie, tie1
    (2, (), (((0, 4), -12), ((4, 0), 0), ((-3, 5), -14), ((-4, -2), 6), ((-2, 0), 1))),  # drop first, drop inside, dual drop, full, tie1
    (2, (), (((0, -3), -9), ((0, -4), -11), ((3, 5), 19), ((-2, 5), 14))),  # drop first, drop last, dual drop, full
    (2, (), (((3, 1), 6), ((2, -4), 10), ((-4, 0), -6), ((-1, 0), -5))),  # drop first, drop last, dual drop, full, infeasible
    (2, (), (((0, -2), -6), ((4, -1), -14), ((5, 4), -3), ((0, -4), -11))),  # drop first, drop inside, drop last, dual drop, full
    (2, (), (((5, -2), -17), ((0, 1), -5), ((-2, 3), 14), ((1, -2), -6), ((2, -3), -11))),  # drop first, drop inside, drop last, dual drop, full, infeasible
    (2, (), (((2, 0), 0), ((-3, 3), -2), ((0, 4), -6), ((2, 1), -4), ((2, 5), -11), ((2, 0), -2), ((4, 5), -13), ((1, -1), 1))),  # drop first, drop inside, drop last, dual drop, full, readd
    (2, (), (((4, -1), -13), ((0, -3), -9), ((5, 0), -13), ((-2, -4), -5))),  # drop first, drop inside, drop last, dual drop, full, tie
    (2, (), (((-2, 1), 5), ((-1, -4), -2), ((5, 0), -9), ((-1, -3), -2), ((-2, 0), 6), ((4, 3), -5))),  # drop first, drop inside, drop last, dual drop, full, infeasible, tie
    (2, (), (((3, 0), -6), ((1, 0), -3), ((1, 2), -6), ((-2, 5), -3), ((-1, 0), 5), ((-1, -1), 7))),  # drop first, drop inside, drop last, dual drop, full, readd, tie
    (2, (), (((-3, 1), -3), ((2, -3), 7), ((3, 4), 0), ((-4, -4), 1), ((-1, 5), -5), ((-1, -4), 3), ((-1, -2), 2), ((0, 1), -1), ((2, -1), 3))),  # drop first, drop inside, drop last, dual drop, full, readd, tie
    (2, (), (((5, 0), 0), ((0, -3), 7), ((-4, 5), -9), ((4, 4), -6), ((2, 2), -2), ((0, 2), -4))),  # drop first, drop inside, drop last, dual drop, full, tie1
    (2, (), (((4, 2), -17), ((0, 1), -3), ((-2, 3), -1))),  # drop last, dual drop, full
    (2, (), (((2, -4), -3), ((-3, -1), -4), ((-2, 2), 4), ((2, 0), -1))),  # drop last, dual drop, full, infeasible
    (2, (), (((0, 2), -2), ((3, -3), 4), ((0, 1), -2))),  # drop first, drop last, dual drop, full, tie
    (2, (), (((0, -1), -6), ((1, 4), 14), ((0, -4), -12), ((-1, 3), 8))),  # drop first, drop last, dual drop, full, infeasible, tie
    (2, (), (((-1, 5), 4), ((5, 5), 22), ((-1, -3), -6), ((3, -4), 3), ((-1, 0), -3))),  # drop first, drop inside, drop last, dual drop, full, infeasible, readd, tie
    (2, (), (((1, -3), 3), ((-2, 1), -2), ((-1, 3), -1), ((4, 3), -2), ((4, -1), 1))),  # drop last, dual drop, full, infeasible, tie
    (2, (), (((0, -3), 6), ((-4, 3), -12), ((-2, 3), -10), ((-4, -2), -3))),  # drop first, drop last, dual drop, full, partial drop
    (2, (), (((5, 5), -20), ((5, 2), -12), ((0, 1), -5), ((1, -3), 2), ((4, -4), 1), ((4, 2), -10), ((-1, 0), 3), ((2, -4), 4))),  # drop first, drop last, dual drop, full, infeasible, partial drop
    (2, (), (((1, 0), -3), ((5, -2), -11), ((3, 0), -8), ((-3, -2), 11), ((2, -3), -3), ((-2, 2), 4))),  # drop first, drop inside, drop last, dual drop, full, partial drop
    (2, (), (((2, -3), -8), ((-2, 3), 8), ((4, 3), 0), ((2, -3), -6), ((4, -4), -11), ((0, -1), -2), ((-3, 3), 11))),  # drop first, drop inside, drop last, dual drop, full, infeasible, partial drop
    (2, (), (((-1, -2), 3), ((-2, -3), 3), ((5, 4), -11), ((3, 0), -7))),  # drop first, drop inside, drop last, dual drop, full, partial drop, readd
    (2, (), (((-3, -2), 4), ((1, 0), 1), ((3, 4), -9), ((0, 3), -7))),  # drop first, drop inside, drop last, dual drop, full, partial drop, readd
    (2, (), (((0, 3), -8), ((-2, -2), 2), ((3, 5), -9), ((2, 4), -7))),  # drop first, drop inside, drop last, dual drop, full, partial drop, readd
    (2, (), (((-4, 3), -3), ((-1, 4), 10), ((-1, 0), -1), ((-1, 3), -3), ((-1, 0), -3), ((0, -1), -1))),  # drop first, drop inside, drop last, dual drop, full, partial drop, tie
    (2, (), (((1, 2), -5), ((-4, 1), 2), ((-1, 5), -8), ((3, 4), -9), ((-4, 0), 5))),  # drop first, drop inside, drop last, dual drop, full, partial drop, two drops
    (2, (), (((0, 1), -3), ((5, 5), 2), ((-3, 3), -6), ((1, -3), 6))),  # drop first, drop last, full, infeasible, partial drop, readd
    (2, (), (((1, 0), -6), ((5, 4), -11), ((0, -1), 1), ((4, 2), -10), ((-2, -1), 6))),  # drop first, drop last, full, infeasible, partial drop, readd
    (2, (), (((1, 0), -4), ((2, 1), -5), ((-4, -1), 5), ((4, 0), -5), ((3, 3), -7), ((2, -2), 6))),  # drop first, drop last, full, infeasible, partial drop, readd
    (2, (), (((-3, 4), 10), ((-4, -2), 0), ((4, -2), -2), ((1, -1), -2), ((-1, -1), -1))),  # drop first, drop last, dual drop, full, partial drop, tie
    (2, (), (((-2, 0), 3), ((-1, 1), 1), ((5, -1), -5), ((-2, 4), 4), ((3, -2), -5), ((0, -1), 2), ((1, 1), -1), ((2, -3), -4), ((2, 1), -1))),  # drop first, drop last, dual drop, full, infeasible, partial drop, tie
    (2, (), (((2, 4), -12), ((2, 2), -9), ((-2, -4), 16), ((1, 0), -3), ((-4, 1), 2))),  # drop first, drop inside, drop last, dual drop, full, infeasible, partial drop, tie
    (2, (), (((-3, -1), 6), ((2, -2), 3), ((4, -4), 10), ((0, 3), -7), ((-2, 5), -11), ((1, 4), -11))),  # drop first, drop inside, drop last, dual drop, full, infeasible, partial drop, readd, tie
    (2, (), (((3, 0), -2), ((-4, -1), 3), ((2, 1), -2))),  # drop first, drop last, full, infeasible, partial drop, readd, tie
    (2, (), (((3, 0), 1), ((-1, 0), 1), ((5, -2), -6), ((4, 1), -6))),  # drop first, drop last, full, infeasible, partial drop, readd, tie
    (2, (), (((3, -2), -3), ((3, -2), -2), ((0, -1), -3), ((-1, 1), 1))),  # drop first, drop last, full, infeasible, partial drop, readd, tie
    (2, (), (((5, -4), 9), ((-3, 2), -2), ((1, 4), -13), ((3, 5), -17))),  # drop first, drop last, dual drop, full, partial drop, tie, two drops
    (2, (), (((3, -4), -4), ((1, -4), -2), ((-2, 0), 5), ((2, 2), -3), ((2, 0), -4))),  # drop first, drop inside, drop last, dual drop, full, partial drop, tie, two drops
    (2, (), (((0, -4), -11), ((-4, 0), -11), ((1, -2), -3), ((-1, -1), -6), ((0, 2), 8))),  # drop first, drop inside, drop last, dual drop, full, partial drop, tie, tie1, two drops
    (2, (), (((5, -4), -13), ((1, -3), -2), ((2, 0), -5), ((5, 4), -13), ((1, 0), -3))),  # drop first, drop last, dual drop, full, partial drop, tie, tie1, two drops
    (2, (), (((5, 3), 11), ((-1, 2), -2), ((-3, -4), -4), ((2, 3), 4), ((5, -1), 10), ((5, 1), 10), ((-1, 0), -3))),  # drop first, drop inside, drop last, dual drop, full, infeasible, partial drop, tie, two drops
    (2, (), (((-2, 1), 2), ((-1, -4), 10), ((-1, -1), 5), ((0, 4), -7), ((1, 2), -6), ((-3, 5), -7), ((4, 4), -10), ((-3, 1), 1))),  # drop first, drop inside, drop last, dual drop, full, infeasible, partial drop, readd, tie, two drops
    (2, (), (((4, -3), -11), ((-4, -2), -4), ((3, 1), 0), ((5, 4), 9), ((0, -1), -6), ((4, 4), 9), ((2, 0), -1), ((3, 2), 5))),  # drop first, drop last, dual drop, full, infeasible, partial drop, readd, tie, two drops
    (2, (), (((1, 5), 3), ((5, 2), -2), ((-2, -3), -1), ((0, 3), 3), ((2, -4), -5), ((3, -2), -5), ((-4, 1), 7), ((-4, -2), 2))),  # drop first, drop last, dual drop, full, infeasible, partial drop, readd, tie, two drops
    (2, (), (((-1, 3), -5), ((5, -1), -1), ((1, -2), 3), ((3, -3), 3), ((1, 2), -6), ((-1, 3), -3), ((-3, 5), -7), ((3, -4), 6), ((-1, 1), -1))),  # drop first, drop last, dual drop, full, infeasible, partial drop, readd, tie, two drops
    (2, (), (((-4, 2), 0), ((1, 2), -2), ((4, 5), -5))),  # drop first, drop last, dual drop, full, partial drop, tie1, two drops
    (2, (), (((4, -3), -13), ((1, 5), 4), ((3, -1), -9))),  # drop first, drop last, dual drop, full, partial drop, two drops
    (2, (), (((-2, 4), -3), ((-3, -2), -7), ((-2, 0), -5), ((0, -2), 0), ((4, 0), 8), ((0, 1), 3))),  # drop first, drop last, dual drop, full, infeasible, partial drop, two drops
    (2, (), (((4, -4), 2), ((0, 4), -8), ((2, -1), -1), ((0, 5), -9), ((2, 0), -2), ((-1, 2), -3), ((1, 1), -4), ((-2, 1), 3), ((-4, -1), 11))),  # drop first, drop inside, drop last, dual drop, full, partial drop, readd, two drops
    (2, (), (((4, -1), 10), ((-4, 0), -6), ((-2, 1), -5), ((0, 4), -3))),  # drop first, drop inside, drop last, dual drop, full, partial drop, tie1, two drops
    (2, (), (((-3, 0), 10), ((4, 0), -10), ((-2, 1), 6), ((4, -4), -12), ((1, -1), -6), ((-2, -3), 8))),  # drop first, drop inside, drop last, dual drop, full, infeasible, partial drop, readd, two drops
    (2, (), (((1, -1), 4), ((0, 2), 2), ((3, -1), 7), ((-4, -3), -8), ((-1, -3), -2), ((-1, 3), -1), ((-1, 0), -3))),  # drop first, drop last, dual drop, full, infeasible, partial drop, readd, two drops
    (2, (), (((3, -4), 1), ((-1, -1), -5), ((-3, -1), -10), ((3, 3), 15), ((2, 5), 18), ((-4, -1), -12), ((-1, 3), 2), ((1, 3), 10))),  # drop first, drop last, dual drop, full, infeasible, partial drop, readd, two drops
    (2, (), (((5, -1), 4), ((-3, 5), -10), ((-1, 4), -8), ((-3, 3), -6), ((0, -3), 7), ((-1, 5), -9))),  # drop first, drop last, dual drop, full, partial drop, readd, two drops
    (2, (), (((5, 5), -8), ((4, 2), -3), ((2, 3), -5), ((0, 2), -4), ((0, 3), -5))),  # drop first, drop last, dual drop, partial drop
    (2, (), (((0, -3), -8), ((5, -2), 0), ((3, 0), 4), ((-1, 2), 6), ((2, -4), -9), ((0, -1), -3), ((-1, -1), -3), ((4, 2), 12))),  # drop first, drop last, dual drop, partial drop, tie
    (2, (), (((-1, 4), 13), ((-2, -2), -2), ((-1, -1), -2))),  # drop first, drop last, dual drop, tie
    (2, (), (((4, -3), -2), ((-2, 4), -2), ((-2, 3), -1))),  # drop last, dual drop, full, tie
    (2, (((0, -2), 0),), (((4, -1), -9), ((1, 2), -5), ((4, 2), -5))),  # drop first, drop last, drop with equalities, dual drop, full
    (2, (((4, 3), 3),), (((-2, 5), -11), ((-2, -4), 0), ((-4, 0), -11))),  # drop first, drop last, drop with equalities, dual drop, full, infeasible
    (2, (((-1, 3), -1),), (((5, 2), -9), ((2, 4), -8), ((2, 4), -8))),  # drop first, drop last, drop with equalities, dual drop, full, tie
    (2, (((1, 2), 2),), (((2, 2), -2), ((3, -1), -8), ((-1, 4), 8))),  # drop first, drop last, drop with equalities, dual drop, full, infeasible, tie
    (3, (), (((-3, -4, 1), -1), ((4, 5, -2), -1), ((1, 0, -3), -7))),  # drop first, drop inside, dual drop
    (3, (), (((0, -4, 2), -2), ((0, -3, -2), 8), ((0, -3, 4), -4), ((1, -3, 0), 5), ((0, 1, 0), -1), ((3, -1, 4), -4))),  # drop first, drop inside, dual drop, infeasible, tie
    (3, (), (((4, -1, 4), 7), ((3, 0, 0), -4), ((2, 0, 0), -3))),  # drop first, drop last, dual drop
    (3, (), (((4, 0, 4), -8), ((-4, 0, -1), 1), ((0, 0, 5), -10), ((0, -4, 0), 2), ((3, 0, 1), -2))),  # drop first, drop inside, drop last, dual drop
    (3, (), (((-2, 2, 4), -14), ((4, 0, 0), 1), ((5, 0, 0), 2))),  # drop last, dual drop
    (3, (), (((0, 5, 0), -5), ((0, 3, -2), 2), ((0, 2, -2), 4), ((-4, -3, 4), -16), ((0, 3, -1), 0), ((3, -3, 5), 3), ((1, 2, -1), -2), ((1, -2, -1), 7))),  # drop last, dual drop, infeasible
    (3, (), (((-3, 0, -3), -9), ((0, -1, 0), -3), ((-3, 3, 4), -2), ((-3, 1, -2), -7))),  # drop first, drop inside, dual drop, full
    (3, (), (((2, -1, 1), 0), ((3, 2, 4), -8), ((-4, -3, 0), -5), ((-4, 3, 0), -9), ((3, 3, -2), -6))),  # drop first, drop inside, dual drop, full, infeasible
    (3, (), (((3, 0, 4), -17), ((-3, 0, 4), -3), ((4, 2, 2), -19), ((-2, 2, 0), -2))),  # drop inside, dual drop, full
    (3, (), (((-2, -3, -2), 0), ((-1, -3, 1), 3), ((0, 1, 0), 1), ((-4, 4, -3), 3), ((4, 5, -1), -10))),  # drop inside, dual drop, full, infeasible
    (3, (), (((-1, -3, 4), -17), ((3, -2, -3), 17), ((-3, -3, 3), -19), ((-1, 3, -4), 12), ((3, 5, 5), -1), ((3, 3, 0), 12), ((-3, 5, -1), 1))),  # drop first, drop inside, dual drop, full, readd
    (3, (), (((-3, 0, 1), -5), ((5, -4, 0), 27), ((3, 0, -4), -3), ((-3, 3, 4), -4), ((4, -4, 4), 36), ((-2, -1, -2), -8), ((5, 5, 3), 9))),  # drop first, drop inside, dual drop, full, readd
    (3, (), (((3, -2, -2), -2), ((3, 4, 5), 8), ((-1, 2, -2), -5), ((-4, 5, 0), -4), ((5, 4, -3), -10), ((0, -2, -3), -2), ((-4, -1, 5), 13), ((4, -3, 0), 5))),  # drop first, drop inside, dual drop, full, readd
    (3, (), (((5, 2, 3), -2), ((-1, 0, 1), -5), ((5, -1, 0), 6), ((-2, -4, 0), -6), ((-2, 1, -4), 12))),  # drop first, drop inside, dual drop, full, infeasible, readd
    (3, (), (((5, 3, -2), -8), ((-4, -1, -3), 11), ((-2, -3, 2), 7), ((-4, 0, 4), 1), ((1, 1, 0), -4))),  # drop first, drop inside, dual drop, full, infeasible, readd
    (3, (), (((2, -4, -4), -1), ((-2, 4, 0), 8), ((5, 0, 0), 0), ((3, 2, 4), -6), ((2, -1, 1), -5), ((-2, -1, 0), 0))),  # drop first, drop inside, dual drop, full, infeasible, readd
    (3, (), (((0, 0, -4), -10), ((-3, 2, -4), -13), ((0, 4, 1), -8), ((5, -1, 2), 5))),  # drop first, drop inside, dual drop, full, tie
    (3, (), (((0, 2, 2), 3), ((0, -3, 0), 4), ((4, 4, 1), -5), ((-3, 4, -2), -5), ((1, -1, 0), -1))),  # drop first, drop inside, dual drop, full, infeasible, tie
    (3, (), (((-4, -1, 1), -5), ((-4, 2, 4), 2), ((-1, -2, 2), -5), ((2, 0, -1), 1), ((2, -4, -1), -5))),  # drop inside, dual drop, full, infeasible, tie
    (3, (), (((-1, 2, -2), -2), ((-2, -1, 0), -1), ((-2, -2, -3), 1), ((1, 0, 5), -2), ((2, 3, 4), -3))),  # drop first, drop inside, dual drop, full, readd, tie
    (3, (), (((1, -4, 3), -13), ((-1, -4, 3), -12), ((-4, 4, 0), 8), ((2, 1, 5), -8), ((1, -4, -3), -2), ((-3, -2, 3), -9), ((1, -2, 3), -9))),  # drop first, drop inside, dual drop, full, readd, tie
    (3, (), (((4, -4, -1), -9), ((-3, 0, 2), 0), ((0, -4, -1), 2), ((0, -4, 4), -14), ((-2, -1, -2), 3), ((5, 0, 0), -4), ((4, 1, 5), -11))),  # drop first, drop inside, dual drop, full, readd, tie
    (3, (), (((0, -1, -4), -9), ((1, -1, -3), -9), ((4, 0, 3), 0), ((0, -3, 0), -3))),  # drop first, drop inside, dual drop, full, tie, tie1
    (3, (), (((-3, 2, 1), -15), ((-2, 3, 1), -17), ((3, -1, -3), 19), ((-4, -1, 2), -13), ((-4, -3, -3), 5), ((-4, 2, 0), -17), ((-2, 5, 5), -30), ((0, 4, 3), -2))),  # drop inside, dual drop, full, tie, tie1
    (3, (), (((3, 3, 3), 4), ((5, 1, -3), 15), ((-2, -3, 1), -5), ((5, 0, 1), 10), ((-2, 2, -3), 1), ((-2, 5, 1), -5), ((-4, -2, 2), 1), ((1, 0, 2), 0), ((-1, 0, -1), -2))),  # drop inside, dual drop, full, infeasible, tie, tie1
    (3, (), (((1, 4, 0), 0), ((5, 3, 0), -9), ((0, -2, -1), -1), ((4, -3, -2), -11), ((1, -3, -1), -4), ((-3, 5, -3), 0))),  # drop first, drop inside, dual drop, full, tie1
    (3, (), (((0, 0, -4), -6), ((0, 4, 5), 10), ((0, 0, -2), -4), ((-1, -3, 3), 4))),  # drop first, drop last, dual drop, full
    (3, (), (((-1, -1, -1), -5), ((-3, -1, -1), -11), ((2, 5, 5), -5), ((4, -1, 0), 9), ((3, -4, 3), -2))),  # drop first, drop inside, drop last, dual drop, full
    (3, (), (((1, -3, -3), -1), ((2, 3, 0), 11), ((-1, 0, 1), -4), ((-2, -2, 5), -21), ((0, 1, 3), -6), ((3, 3, 2), 6))),  # drop first, drop inside, drop last, dual drop, full, infeasible
    (3, (), (((-2, 0, -1), -1), ((0, -1, 5), -16), ((-3, 0, 0), -5), ((-4, 4, 4), -12), ((0, -4, 0), -7))),  # drop inside, drop last, dual drop, full
    (3, (), (((3, 1, 3), 4), ((-4, -4, 5), 3), ((-3, 0, 1), 3), ((4, -1, 1), -4), ((-3, 3, -3), 7), ((3, -1, 0), -5), ((-1, 2, -4), 1), ((-1, 0, -3), -1))),  # drop inside, drop last, dual drop, full, infeasible
    (3, (), (((-2, -2, 2), -10), ((-3, -4, -2), -2), ((4, -1, 3), -9), ((5, -4, 4), -18), ((5, 3, 0), 6), ((-4, 1, 5), -11))),  # drop first, drop inside, drop last, dual drop, full, readd
    (3, (), (((-1, -4, -2), 0), ((5, 4, 5), -6), ((5, -3, 4), -4), ((0, 0, 1), -1), ((-3, -3, 4), -3), ((5, 0, -2), -2))),  # drop first, drop inside, drop last, dual drop, full, readd
    (3, (), (((0, 3, -3), 2), ((-3, 0, -4), -2), ((-4, -3, -2), -2), ((4, 4, 4), 9), ((2, 4, 5), 14), ((0, -3, 0), -5), ((1, -1, 1), -2))),  # drop first, drop inside, drop last, dual drop, full, readd
    (3, (), (((4, 5, -3), -3), ((-3, -4, 2), 5), ((5, 1, 3), -4), ((-4, -1, 1), -2), ((-4, 0, 1), -5), ((-4, 1, -4), -2))),  # drop first, drop inside, drop last, dual drop, full, infeasible, readd
    (3, (), (((0, 4, 1), 1), ((2, -2, 0), -2), ((-4, 1, 1), -3), ((-3, 2, 4), -8), ((-1, -4, -1), -10), ((1, 0, 4), -11), ((-4, 2, -2), -3))),  # drop first, drop inside, drop last, dual drop, full, infeasible, readd
    (3, (), (((-4, -4, -1), 2), ((-3, 4, 3), 0), ((2, 3, 3), 7), ((4, -2, -4), -3), ((0, 3, 2), -2), ((-4, 2, -3), -15), ((2, 5, 4), 5), ((4, 5, 3), 3))),  # drop first, drop inside, drop last, dual drop, full, infeasible, readd
    (3, (), (((0, 4, -4), 10), ((0, -2, 5), 1), ((-3, -1, 1), 4), ((2, 4, 5), 14), ((-1, -4, -1), -11), ((-4, -4, -4), -6), ((4, 2, 1), -2), ((4, 4, 0), 3))),  # drop inside, drop last, dual drop, full, infeasible, readd
    (3, (), (((-2, -4, 4), -14), ((1, -2, -3), -6), ((-4, 5, 1), 4), ((-1, 1, -1), -3), ((1, -1, -3), -1), ((0, -4, -4), -1), ((-1, 1, -1), -1), ((2, -1, 0), 5), ((3, 0, -1), 9))),  # drop inside, drop last, dual drop, full, infeasible, readd
    (3, (), (((4, 0, 3), -6), ((-3, -1, 2), -13), ((-4, 0, 1), -13), ((-3, 2, 0), -11), ((-2, 4, 1), -13))),  # drop first, drop inside, drop last, dual drop, full, tie
    (3, (), (((5, 0, -4), 3), ((4, 2, 4), -24), ((-3, -4, -3), 24), ((-3, -4, 3), -2), ((-4, -4, -2), 24), ((2, 0, -2), 2), ((2, 4, 1), -13))),  # drop first, drop inside, drop last, dual drop, full, infeasible, tie
    (3, (), (((2, -1, 1), 1), ((-4, -2, 0), -8), ((5, -2, -3), 5), ((1, -2, -4), 1), ((4, 2, 1), 7))),  # drop inside, drop last, dual drop, full, tie
    (3, (), (((-1, 5, 0), -9), ((0, -2, -3), 12), ((1, 0, 4), -7), ((4, 2, 5), -12), ((-4, 1, 5), -12), ((-2, 0, -3), 3), ((1, 0, 4), -7))),  # drop inside, drop last, dual drop, full, infeasible, tie
    (3, (), (((3, 0, 5), -14), ((0, -2, 5), -10), ((5, 2, 3), -12), ((-2, 0, 0), 6), ((1, -4, 4), -14), ((5, 1, 0), -8), ((0, 0, -3), 7), ((5, -1, -4), -2), ((0, 1, 0), 1))),  # drop first, drop inside, drop last, dual drop, full, readd, tie
    (3, (), (((-2, -1, 3), -7), ((0, -3, 1), 9), ((-4, 1, 4), -23), ((3, -1, 5), 4), ((3, 4, 1), -3), ((-1, 3, 4), -20), ((-4, 5, -1), -23), ((5, 4, 3), -3), ((-3, -2, -2), 1))),  # drop first, drop inside, drop last, dual drop, full, readd, tie
    (3, (), (((4, 3, 5), -7), ((3, 2, 5), -4), ((-4, -2, 0), 6), ((-3, 1, -4), -1), ((1, 3, -1), -8), ((4, 5, 1), -13), ((3, 5, 1), -13), ((-3, 1, 2), -1))),  # drop first, drop inside, drop last, dual drop, full, tie, tie1
    (3, (), (((-1, 0, 1), -2), ((2, -1, 0), 6), ((-2, -1, 5), -1), ((-1, 4, -1), 0), ((-1, -1, 4), 1), ((-2, 0, -4), -10), ((-3, -4, -1), -13), ((-4, -1, -1), -13), ((0, 2, 2), 4))),  # drop inside, drop last, dual drop, full, tie, tie1
    (3, (), (((4, -4, 1), -3), ((1, 4, 1), 12), ((1, -3, 1), -4), ((1, 0, -3), 0), ((-2, 5, -2), 6), ((0, -2, 5), 1), ((-3, -4, -4), -14), ((-2, -3, 4), -4))),  # drop first, drop inside, drop last, dual drop, full, tie1
    (3, (), (((2, 0, -3), -5), ((1, 2, 2), -5), ((3, -4, -1), 8), ((-3, 4, -3), -14))),  # drop last, dual drop, full
    (3, (), (((0, -1, 0), 2), ((3, -2, -2), -3), ((1, 3, 1), -12), ((0, -3, 4), 1), ((-3, 4, 0), 3))),  # drop last, dual drop, full, infeasible
    (3, (), (((4, -4, 3), -2), ((0, -2, -1), -7), ((-3, 5, -1), 6), ((0, 1, -1), 3), ((0, -4, 4), -7))),  # drop last, dual drop, full, infeasible, tie
    (3, (), (((-2, -1, 0), 1), ((0, -3, 5), -13), ((-3, -4, 0), -7), ((0, -1, 0), -3), ((4, -3, 2), -13))),  # drop last, dual drop, full, tie, tie1
    (3, (), (((2, 0, 3), -10), ((-4, 2, 5), -12), ((-3, 5, 0), -4), ((1, -3, 1), -1), ((3, -2, 0), -1))),  # drop first, drop inside, dual drop, full, partial drop
    (3, (), (((1, 5, 0), 12), ((0, -1, 1), -1), ((-4, 3, 0), 4), ((-4, -4, 0), -10), ((2, 5, 1), 13), ((1, 0, -2), -5), ((-4, -4, -3), -15))),  # drop first, drop inside, dual drop, full, infeasible, partial drop
    (3, (), (((2, 3, 5), -10), ((1, -3, 3), -4), ((2, 2, 1), -7), ((-1, -1, -2), 4), ((-1, 4, 0), -6))),  # drop first, drop inside, full, infeasible, partial drop
    (3, (), (((-1, -4, -3), -4), ((5, 0, 3), -10), ((5, 2, 4), -8), ((-3, 4, -1), 13))),  # drop first, drop inside, full, partial drop
    (3, (), (((0, 1, 0), -2), ((-2, -4, -2), 3), ((5, 3, -2), -15), ((2, 1, -4), -13))),  # drop first, drop inside, dual drop, full, partial drop, readd
    (3, (), (((1, 0, 0), -4), ((-2, 5, -3), -15), ((-4, 1, -2), 5), ((-3, -2, 1), 18))),  # drop first, drop inside, dual drop, full, partial drop, readd
    (3, (), (((-4, -2, 0), -4), ((5, 1, 0), 3), ((-4, 2, 3), -9), ((3, 4, 4), -7))),  # drop first, drop inside, dual drop, full, partial drop, readd
    (3, (), (((5, 2, -2), 0), ((-3, -3, 3), 12), ((-3, 2, -1), -13), ((5, 4, -4), -12), ((3, -4, 3), 27), ((1, 0, -1), -2), ((3, 5, -4), -21))),  # drop first, drop inside, dual drop, full, infeasible, partial drop, readd
    (3, (), (((-1, 0, -1), 2), ((-1, 1, 3), 1), ((-3, 1, 0), 4), ((2, 4, -1), -6), ((0, -4, 4), -14), ((5, 1, 2), 1), ((3, 5, 3), -3), ((-2, -3, 3), -12))),  # drop first, drop inside, dual drop, full, infeasible, partial drop, readd
    (3, (), (((-1, -4, -3), 5), ((-2, 0, -1), 7), ((-1, -1, 2), -6), ((5, 0, -1), -14), ((0, 0, -2), 0), ((5, 4, 2), -15), ((-3, -4, 4), 19), ((-3, -3, 2), 1))),  # drop first, drop inside, dual drop, full, infeasible, partial drop, readd
    (3, (), (((4, -2, 2), -8), ((-1, 3, -2), 15), ((-2, -1, 1), -7), ((4, 0, -1), -2))),  # drop first, drop inside, full, infeasible, partial drop, readd
    (3, (), (((4, 5, 2), -3), ((-2, -4, -4), 3), ((-3, 4, 5), -7), ((-1, -2, 0), -6), ((2, 3, 5), -1))),  # drop first, drop inside, full, infeasible, partial drop, readd
    (3, (), (((0, 5, 4), -12), ((-4, 4, 5), -26), ((-3, 0, 4), -17), ((4, 1, -4), -3), ((0, -1, -1), 5))),  # drop first, drop inside, full, infeasible, partial drop, readd
    (3, (), (((0, 3, 1), -8), ((-1, 3, 5), -12), ((3, -2, 0), 1), ((2, 2, 2), -9), ((-3, -2, -1), 12))),  # drop first, drop inside, full, partial drop, readd
    (3, (), (((-2, 2, -3), -7), ((0, 3, 3), 14), ((0, 5, 4), 18), ((-4, 1, -2), -8), ((-1, -2, -2), -7), ((-3, 4, -3), -5), ((1, -3, 0), -2), ((0, 5, 4), 18))),  # drop first, drop inside, full, partial drop, readd
    (3, (), (((5, 4, -4), 13), ((4, 0, 2), -6), ((0, 5, 4), 3), ((-1, -2, 1), -5), ((0, -3, 3), -11), ((-4, 2, -1), 11), ((3, -1, 5), -13), ((3, 4, -2), 11))),  # drop first, drop inside, full, partial drop, readd
    (3, (), (((5, 5, 2), -3), ((-2, 4, 2), -4), ((3, 5, -1), -4), ((0, 0, -4), 0), ((-4, 0, 0), -3))),  # drop first, drop inside, dual drop, full, partial drop, tie
    (3, (), (((4, -1, -4), 7), ((-1, -2, -3), 1), ((4, 3, -3), -5), ((1, 3, 5), -5), ((-2, 4, 3), -12), ((-3, 2, 0), -12))),  # drop first, drop inside, dual drop, full, infeasible, partial drop, tie
    (3, (), (((2, 0, 5), -19), ((-4, 3, 1), 10), ((0, 1, 1), -3), ((1, -2, -1), 0), ((-4, 2, -4), 22))),  # drop first, drop inside, full, infeasible, partial drop, tie
    (3, (), (((-2, 4, -2), -3), ((5, 1, -4), -3), ((-4, 1, 2), -3), ((-1, -3, 4), 0))),  # drop first, drop inside, full, partial drop, tie
    (3, (), (((2, 1, 5), 15), ((0, 5, -4), -12), ((5, 5, -3), -7), ((3, 0, 0), 1), ((-2, 0, -4), -12))),  # drop first, drop inside, dual drop, full, partial drop, readd, tie
    (3, (), (((-3, 2, -2), 4), ((5, 2, 3), -11), ((-1, -2, 4), 13), ((1, 4, 0), -5), ((5, -2, 0), -11))),  # drop first, drop inside, dual drop, full, partial drop, readd, tie
    (3, (), (((-1, -3, 4), -10), ((4, 4, 0), 2), ((3, 0, 3), -10), ((-3, -4, -4), 2), ((4, 4, 3), -3), ((2, 3, 3), 1))),  # drop first, drop inside, dual drop, full, partial drop, readd, tie
    (3, (), (((1, 2, -1), -6), ((-3, 0, 3), -18), ((-2, -2, 3), -18), ((1, -1, -1), 4))),  # drop first, drop inside, full, infeasible, partial drop, readd, tie
    (3, (), (((-4, -2, 4), -20), ((1, -3, 4), -18), ((-3, 2, -1), 1), ((1, -2, 5), -20), ((4, -2, 0), -1), ((-3, 5, -4), 25))),  # drop first, drop inside, full, infeasible, partial drop, readd, tie
    (3, (), (((-4, 5, -1), 18), ((-1, 2, 4), 9), ((2, 4, 5), 0), ((-1, -4, 3), -5), ((1, 5, 4), 6), ((-1, -4, -4), -5))),  # drop first, drop inside, full, infeasible, partial drop, readd, tie
    (3, (), (((0, 2, 3), -3), ((1, 2, -3), 1), ((5, 5, -4), -9), ((2, -4, -4), 5), ((0, 2, 2), -4), ((-2, 0, 1), 4), ((-2, 3, 2), -1), ((1, 2, 1), -3), ((2, 5, 2), -9))),  # drop first, drop inside, full, partial drop, readd, tie
    (3, (), (((3, 4, 1), 3), ((-2, -2, -4), 1), ((2, 0, -3), -3), ((-1, -4, -1), -3), ((2, 3, 3), 4), ((0, 1, 0), 3), ((0, 1, 1), 2), ((5, 4, -1), -1), ((-1, -3, 0), -2))),  # drop first, drop inside, full, partial drop, readd, tie
    (3, (), (((3, 1, 1), -5), ((5, 2, -3), -10), ((3, 1, 2), -3), ((4, 3, -2), -10), ((4, -3, -2), -5), ((-2, -1, -1), 6), ((4, 1, -3), -9), ((2, 5, -1), -8))),  # drop first, drop inside, dual drop, full, partial drop, tie, tie1
    (3, (), (((-4, 1, 5), -2), ((-1, -3, -4), -6), ((-2, -1, 0), -6), ((1, 4, -2), 1))),  # drop first, drop inside, dual drop, full, partial drop, tie, two drops
    (3, (), (((5, -2, 5), -20), ((0, 5, 4), -1), ((2, -3, 4), -15), ((4, 3, 0), -5), ((2, -2, -1), -4), ((-2, 0, -2), 8))),  # drop first, drop inside, full, partial drop, tie1
    (3, (), (((-4, -1, 2), -3), ((0, 0, -1), 1), ((0, -1, 4), -7), ((-1, -4, 4), -14), ((5, 0, -3), 3), ((3, 0, 2), -1))),  # drop first, drop inside, dual drop, full, partial drop, tie1, two drops
    (3, (), (((-2, -3, -1), 3), ((4, -1, 0), -12), ((5, 0, -1), -14), ((-4, 0, -3), 10))),  # drop first, drop inside, dual drop, full, partial drop, two drops
    (3, (), (((5, -2, -2), -4), ((-4, -2, -3), 3), ((0, 1, -1), -6), ((-4, 0, 3), 12), ((2, 3, 0), -8), ((0, 5, 5), 2))),  # drop first, drop inside, dual drop, full, infeasible, partial drop, two drops
    (3, (), (((5, -1, -3), -6), ((-4, -4, 5), 1), ((0, -1, -4), 2), ((1, 0, 1), -3))),  # drop first, drop inside, dual drop, full, partial drop, readd, two drops
    (3, (), (((0, -3, -3), 2), ((0, 4, -1), 11), ((-2, 4, -1), 7), ((-4, -2, 5), -21), ((-4, 0, 1), -10), ((5, -2, 1), 4))),  # drop first, drop inside, dual drop, full, partial drop, readd, two drops
    (3, (), (((1, -2, 4), -8), ((1, 2, 0), -9), ((0, 3, 4), -20), ((5, 2, 3), -28), ((2, 1, 1), -12), ((0, -3, -3), 18))),  # drop first, drop inside, dual drop, full, partial drop, readd, two drops
    (3, (), (((-1, -3, -2), -17), ((4, 4, 0), 21), ((-4, -4, 0), -19), ((2, 0, -1), 1), ((-3, -4, -2), -22), ((-4, 1, 0), -5), ((-2, -3, 5), 4))),  # drop first, drop last, dual drop, full, partial drop
    (3, (), (((1, -3, -1), 13), ((-2, 3, 0), -15), ((-4, 4, 3), -21), ((-3, -4, 0), 3), ((4, 1, 3), 14), ((-4, -2, 2), -4), ((3, -2, 0), 15), ((3, -1, 3), 3))),  # drop first, drop last, dual drop, full, infeasible, partial drop
    (3, (), (((1, 1, 0), -4), ((0, -3, 0), 0), ((-2, 1, 5), 1), ((4, -2, 5), -17), ((4, 1, 2), -13))),  # drop first, drop inside, drop last, dual drop, full, partial drop
    (3, (), (((-4, 3, -2), -19), ((0, 0, 2), -2), ((-2, -2, -1), 2), ((1, 1, -2), 0), ((0, 1, 4), -7), ((0, 3, 5), -12))),  # drop first, drop inside, drop last, dual drop, full, infeasible, partial drop
    (3, (), (((0, -2, 0), -4), ((4, 2, -3), 4), ((1, -1, 4), -7), ((1, 2, 1), 0), ((1, -3, 0), -5), ((-4, -1, 0), 3))),  # drop first, drop inside, drop last, full, infeasible, partial drop
    (3, (), (((0, 3, -2), 5), ((-4, -4, 5), 1), ((1, -1, 0), -3), ((-1, 0, 4), 0), ((5, -3, -3), -9))),  # drop first, drop inside, drop last, full, partial drop
    (3, (), (((5, 3, 2), -1), ((-3, 5, 3), 9), ((-4, 0, 5), -9), ((-3, -1, 4), -12), ((2, -4, 2), -19))),  # drop inside, drop last, dual drop, full, partial drop
    (3, (), (((-3, -2, -3), -11), ((-4, 5, -3), -14), ((-4, 5, 0), -3), ((1, -1, 0), -5))),  # drop first, drop inside, drop last, dual drop, full, partial drop, readd
    (3, (), (((2, -3, 4), -10), ((0, 1, -2), 2), ((0, 5, -3), 5), ((4, -1, 3), -13))),  # drop first, drop inside, drop last, dual drop, full, partial drop, readd
    (3, (), (((0, 5, 4), -13), ((0, 0, 1), -2), ((0, 2, -2), 2), ((3, 0, 4), -15), ((3, -2, 1), -8))),  # drop first, drop inside, drop last, dual drop, full, partial drop, readd
    (3, (), (((1, 2, 4), -8), ((3, 0, 0), -6), ((-4, 0, 1), 7), ((4, -3, -4), -1), ((-3, 0, -2), 8), ((1, 0, 0), -6))),  # drop first, drop inside, drop last, full, infeasible, partial drop, readd
    (3, (), (((-1, -2, -1), -2), ((2, 2, 0), 2), ((-1, 3, -2), -10), ((-2, 1, -4), -15), ((-4, -3, -2), -12), ((1, -2, 5), 17), ((-1, -4, 2), 7), ((-4, -4, -3), -12))),  # drop first, drop inside, drop last, full, infeasible, partial drop, readd
    (3, (), (((1, 4, -1), -11), ((-4, -3, 2), 21), ((1, -4, 2), 7), ((1, 3, 3), -5), ((1, 4, -2), -12), ((1, -4, 0), 6), ((-3, -3, 1), 17), ((1, 0, -1), -6), ((5, 4, 4), -18))),  # drop first, drop inside, drop last, full, infeasible, partial drop, readd
    (3, (), (((-1, 3, 0), -5), ((-1, 5, 5), -25), ((2, -3, 0), 5), ((0, 1, 3), -12))),  # drop first, drop inside, drop last, full, partial drop, readd
    (3, (), (((-1, 4, 3), -11), ((5, 5, -4), -8), ((-4, 2, 4), -10), ((1, 3, -3), -7))),  # drop first, drop inside, drop last, full, partial drop, readd
    (3, (), (((0, -3, 2), -4), ((4, 0, 1), -9), ((0, 0, 1), -3), ((3, 2, -4), 0))),  # drop first, drop inside, drop last, full, partial drop, readd
    (3, (), (((2, 5, -3), -15), ((5, -3, 0), -5), ((-4, 4, 1), -2), ((0, -4, 4), 6), ((5, 1, -1), -14))),  # drop inside, drop last, dual drop, full, partial drop, readd
    (3, (), (((1, -1, -2), 1), ((1, 5, 2), -7), ((4, -1, -3), 1), ((4, -3, -3), 3), ((0, -2, 4), 8), ((-1, 0, 0), 0))),  # drop inside, drop last, dual drop, full, partial drop, readd
    (3, (), (((1, -1, -1), 11), ((0, 4, -2), -4), ((-4, 3, -4), -8), ((-3, 0, 4), -21), ((5, 0, 0), 15), ((0, -3, 4), -3))),  # drop inside, drop last, dual drop, full, partial drop, readd
    (3, (), (((1, 1, 0), 0), ((0, -3, -1), 8), ((3, -2, 2), 4), ((0, -1, 0), 1), ((4, 4, 5), -10), ((-4, 4, 1), -14))),  # drop inside, drop last, dual drop, full, infeasible, partial drop, readd
    (3, (), (((2, 0, -1), -6), ((-3, 4, -1), -2), ((0, 3, -1), -5), ((0, -3, 2), 6), ((1, -2, -1), 6), ((-1, 1, 1), -2), ((5, -4, 0), 4), ((1, -4, -1), 12), ((3, 0, -4), 4))),  # drop inside, drop last, dual drop, full, infeasible, partial drop, readd
    (3, (), (((-1, -4, 3), -5), ((0, 0, -2), 0), ((4, -1, 0), -5), ((-2, -2, 4), -4), ((0, 1, -4), 3))),  # drop first, drop inside, drop last, dual drop, full, partial drop, tie
    (3, (), (((5, -1, 1), -10), ((1, 0, 0), -3), ((-1, 3, 4), 5), ((-4, 4, 1), 8), ((4, -1, 0), -10), ((-1, 0, -1), 3))),  # drop first, drop inside, drop last, full, partial drop, tie
    (3, (), (((5, -3, 1), -4), ((2, 0, 2), -5), ((0, -1, -1), 3), ((-3, -1, 3), -10), ((-2, -3, 0), -3), ((-1, -2, 5), -15), ((3, -3, 1), -4))),  # drop first, drop inside, drop last, full, partial drop, readd, tie
    (3, (), (((4, 2, -1), -10), ((3, 3, 1), -12), ((-2, 5, -3), 1), ((2, 0, 0), -2), ((3, 0, 3), -12), ((-3, -4, 5), 4), ((0, 3, 3), -10))),  # drop first, drop inside, drop last, full, partial drop, readd, tie
    (3, (), (((-1, 4, 0), -5), ((2, 4, -2), -17), ((3, 5, 0), -17), ((5, -4, -4), -14), ((-3, 3, -1), 2), ((3, 1, -1), -13), ((0, 3, 3), 2))),  # drop first, drop inside, drop last, full, partial drop, readd, tie
    (3, (), (((3, 5, 0), 2), ((0, 0, -1), 5), ((0, 0, 4), -12), ((-1, -4, -1), 1), ((-1, 2, 2), -3), ((1, -2, -2), 4), ((1, 0, -3), 8))),  # drop inside, drop last, dual drop, full, partial drop, readd, tie
    (3, (), (((-1, 0, 1), 0), ((0, 1, 4), 4), ((0, 4, -4), -10), ((-4, -2, 0), 1), ((2, 5, 3), -4))),  # drop inside, drop last, dual drop, full, partial drop, tie, two drops
    (3, (), (((-3, 3, -1), 14), ((4, -4, 4), -23), ((-2, 2, 1), 5), ((2, 2, 5), -20), ((1, -1, -3), 8), ((0, 5, 0), 0), ((2, -4, -1), -3), ((-4, 4, 0), 14), ((0, 0, 5), -15))),  # drop first, drop inside, drop last, dual drop, full, partial drop, tie1
    (3, (), (((5, 0, 0), 0), ((0, -2, -1), 0), ((-4, -1, 4), -8), ((5, 0, 0), 2), ((2, -1, 1), -3))),  # drop inside, drop last, dual drop, full, partial drop, tie1, two drops
    (3, (), (((4, 5, -2), -17), ((-4, 3, -1), -3), ((2, -1, 0), -1), ((4, 0, -4), -10))),  # drop first, drop inside, drop last, dual drop, full, partial drop, two drops
    (3, (), (((-4, 4, 0), 17), ((5, 0, -4), -19), ((3, -2, -1), -12), ((-3, -1, -1), 7), ((1, 0, 0), -5), ((1, 4, -2), 1), ((3, 2, 0), -7), ((-4, -3, 2), 13))),  # drop first, drop inside, drop last, full, infeasible, partial drop, two drops
    (3, (), (((5, -2, -3), 12), ((-4, -3, -2), 9), ((2, 2, 2), -8), ((0, 5, 2), -9), ((4, 3, 3), -10), ((5, 0, 3), -8), ((0, -4, 0), 6), ((2, -4, 0), 4), ((5, 4, -1), -1))),  # drop first, drop inside, drop last, full, partial drop, two drops
    (3, (), (((0, -4, 1), 2), ((-3, -2, 0), 3), ((0, 0, 1), -2), ((2, 3, 2), -7))),  # drop inside, drop last, dual drop, full, partial drop, two drops
    (3, (), (((-3, -4, -1), 19), ((-1, 0, -1), 2), ((5, -3, 0), 0), ((2, 4, 0), -14), ((5, 1, 4), -16), ((2, 3, -2), -11), ((2, 5, -4), -14), ((2, -2, 5), -3))),  # drop inside, drop last, dual drop, full, infeasible, partial drop, two drops
    (3, (), (((-3, -1, 0), 6), ((4, 3, 5), -2), ((-2, -2, 5), 2), ((4, -1, -3), -17), ((-4, -4, 5), 5))),  # drop inside, drop last, dual drop, full, partial drop, readd, two drops
    (3, (), (((-3, 0, -1), -2), ((-1, -1, 0), 4), ((1, 2, -1), -7), ((-2, 4, 4), -3), ((-4, -1, -4), -4), ((0, 0, -1), -2))),  # drop inside, drop last, dual drop, full, partial drop, readd, two drops
    (3, (), (((-2, 1, -2), -8), ((-4, 3, 2), -1), ((0, -1, 1), 4), ((0, 0, -2), -5), ((-1, -3, -4), -12), ((3, 3, -1), 4), ((1, 0, 4), 16))),  # drop inside, drop last, dual drop, full, partial drop, readd, two drops
    (3, (), (((3, -3, -4), -18), ((-2, -2, -3), 1), ((1, 3, 1), -6), ((-4, 1, -4), 1), ((3, 5, 1), -9))),  # drop last, dual drop, full, partial drop
    (3, (), (((3, 0, -1), -11), ((3, 2, -3), -16), ((-2, -4, 5), 22), ((-1, -3, 2), 11), ((-4, 3, 0), 3))),  # drop first, drop inside, drop last, dual drop, full, infeasible, partial drop, readd
    (3, (), (((0, 0, -3), -9), ((-1, 2, 1), 2), ((0, -2, -1), -5), ((4, -4, 4), 12), ((5, -4, -4), -11), ((5, 2, 5), 24))),  # drop first, drop inside, drop last, dual drop, full, infeasible, partial drop, readd
    (3, (), (((2, 4, -4), 15), ((4, -3, 0), 14), ((-2, -4, 4), -13), ((3, 2, 1), -6), ((-3, -3, -1), -7), ((1, 2, -1), 5), ((0, 0, -2), 6))),  # drop first, drop inside, drop last, dual drop, full, infeasible, partial drop, readd
    (3, (), (((3, 1, -1), -1), ((-3, -1, -3), 11), ((4, -1, -2), 1), ((-1, 1, 1), 0), ((-3, 4, 5), -2), ((-1, -1, 4), -13), ((1, -3, -2), 0))),  # drop last, dual drop, full, infeasible, partial drop
    (3, (), (((-3, 0, 2), -10), ((-2, 0, -3), 4), ((0, 0, 5), -9), ((4, 5, -3), 10), ((-2, -3, 5), -11), ((4, -1, 1), 9))),  # drop first, drop last, dual drop, full, partial drop, readd
    (3, (), (((-1, 2, 4), 8), ((-1, 0, 2), 3), ((-2, 1, 3), 2), ((5, 0, -4), -4), ((0, 0, -1), -2), ((1, 4, 0), 1), ((0, 0, 2), 7), ((4, 1, 5), 0), ((2, 0, 3), 16))),  # drop first, drop last, dual drop, full, infeasible, partial drop, readd
    (3, (), (((1, -2, 1), -3), ((0, 1, -2), 3), ((-2, 0, 4), -6), ((0, 1, 2), -5), ((1, 4, -4), 16), ((5, 1, -2), 18), ((3, 2, 2), 16))),  # drop first, drop last, full, infeasible, partial drop, readd
    (3, (), (((-1, 0, 0), 1), ((-1, 3, 0), -6), ((1, 4, -4), -1), ((2, -4, 1), 5), ((-2, 0, 0), 2), ((-4, 3, -4), -7), ((4, -1, -1), 4))),  # drop first, drop last, full, infeasible, partial drop, readd
    (3, (), (((-2, 5, -4), 11), ((3, 3, 1), 5), ((-3, 5, -3), 8), ((-1, 0, 1), -3), ((-4, -4, 3), -6), ((2, -2, -4), 9), ((1, 0, -2), 2))),  # drop first, drop last, full, infeasible, partial drop, readd
    (3, (), (((1, 0, -4), -4), ((0, -1, -1), -3), ((-1, 1, 3), 2))),  # drop first, drop last, full, partial drop, readd
    (3, (), (((5, -4, -1), 7), ((0, 5, 2), -11), ((0, 3, -1), -9))),  # drop first, drop last, full, partial drop, readd
    (3, (), (((1, 3, 0), -7), ((-3, 5, 5), -8), ((3, -1, 1), -3))),  # drop first, drop last, full, partial drop, readd
    (3, (), (((5, 3, 0), 8), ((1, 3, -3), 13), ((0, 4, -1), 12), ((3, 2, -2), 8), ((4, 5, -3), 16), ((0, -2, 3), -10), ((1, -2, 4), -11), ((-3, -2, -2), 1), ((-1, 0, 0), -2))),  # drop last, dual drop, full, infeasible, partial drop, readd
    (3, (), (((-4, -3, 0), -10), ((1, -2, 5), 13), ((1, 4, -4), -2), ((2, 4, -1), 3), ((2, 0, 1), 5))),  # drop last, full, infeasible, partial drop, readd
    (3, (), (((-2, -3, -3), 21), ((3, 1, 1), -14), ((-1, 0, -3), 10), ((0, -4, 5), -3), ((-1, 1, 2), -4), ((-2, -3, 5), 0))),  # drop last, full, infeasible, partial drop, readd
    (3, (), (((-3, -3, 4), -7), ((4, -3, -1), 12), ((-4, 5, -2), -11), ((-1, 0, 2), -6), ((2, 0, -4), 10), ((1, 5, 0), -1))),  # drop last, full, infeasible, partial drop, readd
    (3, (), (((-1, 5, -1), 12), ((2, -4, 0), -14), ((5, 5, 3), -2), ((4, 4, -1), -3), ((0, 3, 4), 12), ((2, 5, 3), 9))),  # drop last, full, partial drop, readd
    (3, (), (((-3, 1, 1), -11), ((-1, -1, 5), -18), ((2, -2, -4), 20), ((5, 0, -3), 24), ((-1, 0, 0), -3), ((-3, 5, -1), -5))),  # drop last, full, partial drop, readd
    (3, (), (((4, 2, 4), 0), ((5, -4, 1), -21), ((0, -1, 2), 4), ((-4, -1, 4), 20), ((5, 3, -2), -11), ((-1, 1, -2), 2), ((2, 0, -1), -7), ((-1, 2, -3), 3))),  # drop last, full, partial drop, readd
    (3, (), (((-2, 5, 0), 1), ((-3, -1, -3), 7), ((3, -4, -4), 10), ((-3, -3, 3), -4), ((-1, 0, 2), -4), ((0, 1, 1), -2), ((4, -3, 1), -2))),  # drop first, drop last, dual drop, full, partial drop, tie
    (3, (), (((-2, -4, -4), -5), ((-1, 0, -2), -5), ((3, -1, -2), -4), ((-3, 4, 3), 2))),  # drop first, drop inside, drop last, dual drop, full, partial drop, readd, tie
    (3, (), (((-3, 4, -4), -3), ((-1, -2, 1), 3), ((-3, 0, -4), 3), ((5, 5, 1), -11), ((2, 5, 1), -11))),  # drop first, drop inside, drop last, dual drop, full, partial drop, readd, tie
    (3, (), (((3, 5, -3), -6), ((-4, -2, 1), 12), ((4, 1, 0), -9), ((-1, -1, 0), 1), ((3, -1, 0), -9))),  # drop first, drop inside, drop last, dual drop, full, partial drop, readd, tie
    (3, (), (((-1, -1, -4), -9), ((-1, 5, -1), -7), ((5, 2, 1), 12), ((0, 3, 4), 5), ((0, -2, 4), 11), ((-4, -3, -3), -9))),  # drop last, dual drop, full, partial drop, tie
    (3, (), (((0, 0, -1), -4), ((4, 2, 3), 24), ((-4, 0, -2), -15), ((-1, 1, 4), 9), ((4, -1, 3), 16), ((-2, -1, -4), -15))),  # drop first, drop inside, drop last, full, infeasible, partial drop, readd, tie
    (3, (), (((0, -4, 4), -8), ((0, -1, -1), 0), ((3, 1, -2), 7), ((-4, 1, 3), -5), ((0, 3, 2), 2), ((2, -3, -2), -4), ((4, 3, 0), 9))),  # drop first, drop inside, drop last, dual drop, full, infeasible, partial drop, tie
    (3, (), (((-4, 4, 3), -13), ((3, 2, 0), 7), ((4, 3, -4), 0), ((1, -1, 5), 16), ((-1, -4, 1), -2), ((-3, 1, -1), -13))),  # drop first, drop inside, drop last, dual drop, full, infeasible, partial drop, readd, tie
    (3, (), (((-1, 3, 0), -4), ((0, 5, 4), -4), ((2, 2, 0), 1), ((-1, -3, 0), 4), ((4, 4, -4), -6), ((-2, -3, 1), 4), ((0, 4, 5), 8), ((0, -2, -4), -5), ((-1, 0, -4), -6))),  # drop first, drop inside, drop last, dual drop, full, infeasible, partial drop, readd, tie
    (3, (), (((1, -1, -1), 3), ((0, 0, 3), -1), ((4, 4, 1), -4), ((-3, 2, 0), -1), ((3, 0, -2), 3), ((-1, -3, 0), 2), ((2, 0, -2), 3), ((1, 2, 2), -4), ((-3, -2, -3), 5))),  # drop first, drop last, dual drop, full, infeasible, partial drop, readd, tie
    (3, (), (((5, 5, -1), 23), ((-2, 3, 1), 6), ((-4, -2, 0), -10), ((-4, 4, 5), 5), ((2, -3, 3), -10), ((4, -1, 0), 1), ((3, 0, 0), -1), ((0, -4, 0), -10), ((3, -4, 3), -3))),  # drop last, dual drop, full, infeasible, partial drop, tie
    (3, (), (((0, 2, 2), 3), ((0, -2, 0), -5), ((-2, -3, -2), 1), ((2, -3, -4), -5), ((1, -3, -3), -6))),  # drop first, drop last, dual drop, full, partial drop, readd, tie
    (3, (), (((0, -2, -1), -2), ((-3, 3, -2), 1), ((4, 3, 2), 2), ((2, 1, 5), 10), ((4, -4, 0), -3), ((-1, 3, 0), 1), ((0, 5, 3), 7))),  # drop first, drop last, dual drop, full, partial drop, readd, tie
    (3, (), (((-1, 0, -4), 1), ((-4, -3, 5), 12), ((4, 5, -3), -11), ((3, -1, -3), 4), ((2, 1, 3), 8), ((3, 1, 1), 2), ((1, 2, -4), -11), ((3, 3, 0), -1))),  # drop first, drop last, dual drop, full, partial drop, readd, tie
    (3, (), (((-2, -4, 0), -6), ((-1, -1, 1), -6), ((-3, 2, 2), 11), ((4, 5, 3), 14), ((0, 1, -3), -3), ((-3, 5, -1), 12))),  # drop first, drop last, full, infeasible, partial drop, readd, tie
    (3, (), (((0, 0, 1), -5), ((-1, 5, 2), -7), ((2, 1, 5), -3), ((4, 4, 0), 0), ((0, -4, -4), 2), ((0, 2, 0), -2), ((0, 4, 3), -5))),  # drop first, drop last, full, infeasible, partial drop, readd, tie
    (3, (), (((5, -3, -1), 8), ((3, 4, -4), 8), ((0, 1, 0), 1), ((-3, -4, -3), 0), ((-3, -2, 0), -1), ((0, 2, 1), 1), ((-3, 2, 4), -6), ((-1, -1, 1), -6))),  # drop first, drop last, full, infeasible, partial drop, readd, tie
    (3, (), (((-1, 1, -1), -1), ((0, -3, 1), 8), ((2, 5, 4), -2), ((-2, 2, 2), -2))),  # drop first, drop last, full, partial drop, readd, tie
    (3, (), (((-3, 0, 5), 6), ((5, 0, -3), -12), ((-1, 1, 1), -1), ((4, 0, 0), -12))),  # drop first, drop last, full, partial drop, readd, tie
    (3, (), (((0, -3, 2), 2), ((0, -3, 0), 3), ((0, 3, -4), -4), ((2, 2, -3), -4), ((-1, -4, 2), 7))),  # drop first, drop last, full, partial drop, readd, tie
    (3, (), (((-1, 0, -2), -5), ((-1, 0, 3), -2), ((-2, -2, 0), -5), ((2, 1, -2), 8), ((5, 2, -4), 21), ((0, -1, 3), -1))),  # drop last, dual drop, full, infeasible, partial drop, readd, tie
    (3, (), (((1, 2, 3), 1), ((-4, -3, 3), -3), ((-2, 4, -4), 20), ((2, 0, 0), -3), ((3, 4, 5), -3), ((0, 0, -2), 2))),  # drop last, full, infeasible, partial drop, readd, tie
    (3, (), (((0, -3, -3), -11), ((5, -3, 0), -9), ((3, 0, 0), -3), ((-2, 1, 1), 7), ((-1, -2, 0), -2), ((-1, 4, 2), 13), ((-2, 1, 0), 3))),  # drop last, full, infeasible, partial drop, readd, tie
    (3, (), (((0, 4, 5), -6), ((0, -3, 0), 11), ((1, -1, 4), 5), ((4, 0, 0), -6), ((-1, -1, 1), 5), ((2, -1, 0), -3), ((-1, 0, 0), 1))),  # drop last, full, infeasible, partial drop, readd, tie
    (3, (), (((-3, 1, -2), 0), ((-2, 2, 4), -12), ((5, 3, 3), -6), ((-1, 3, 3), -12), ((0, 5, -3), -3), ((3, -1, 5), -4), ((4, 5, 4), -6), ((1, 0, 4), -6))),  # drop first, drop last, dual drop, full, partial drop, tie, two drops
    (3, (), (((-3, -3, 1), -10), ((-2, -3, -4), -11), ((5, 3, 3), 15), ((5, 0, -4), 7), ((0, -1, 0), -5), ((5, 4, 3), 19), ((1, 2, -2), 9))),  # drop first, drop last, full, partial drop, tie, two drops
    (3, (), (((2, -4, -1), -6), ((-4, 0, -2), -8), ((-4, 0, 0), -8), ((-2, 4, 5), 9))),  # drop first, drop inside, drop last, dual drop, full, partial drop, tie, two drops
    (3, (), (((0, 3, 5), 17), ((-3, 0, -2), 0), ((0, -1, 0), 0), ((-3, 2, -1), 5), ((-2, 5, -4), -6), ((-1, 4, 2), -6), ((-2, 2, 0), -6))),  # drop first, drop inside, drop last, dual drop, full, partial drop, readd, tie, two drops
    (3, (), (((5, 1, -2), -5), ((2, 3, 5), -20), ((-4, 5, 1), 1), ((-2, 3, 4), -10), ((-3, 1, -3), 15), ((-1, -3, 5), -8), ((3, 0, 2), -11), ((-1, 5, 4), -14))),  # drop first, drop inside, drop last, dual drop, full, partial drop, readd, tie, two drops
    (3, (), (((4, -3, 4), 12), ((-1, 0, -3), -8), ((0, -1, -2), -5), ((4, 2, 0), 2), ((-4, -1, -4), -11), ((0, 5, 0), 1), ((2, 1, -4), -4), ((1, 5, -1), -1), ((-1, 5, -1), -1))),  # drop first, drop inside, drop last, dual drop, full, partial drop, readd, tie, two drops
    (3, (), (((3, 2, -1), -3), ((0, -2, 4), -8), ((1, 2, 0), -2), ((4, 5, -1), -4), ((-1, -3, 5), -7), ((4, -2, 0), -6), ((-1, 4, 0), 3))),  # drop inside, drop last, dual drop, full, partial drop, readd, tie, two drops
    (3, (), (((1, -3, 0), 1), ((2, -2, 3), 5), ((1, 1, 5), 5), ((-4, 0, -2), -10), ((2, 1, 3), 7), ((-3, 0, 0), -8), ((-3, 3, 3), -5), ((3, 5, -4), 16))),  # drop first, drop inside, drop last, dual drop, full, partial drop, tie, tie1, two drops
    (3, (), (((-1, -2, 0), -4), ((-3, 4, -4), -1), ((4, -3, -4), -1), ((1, 4, -4), 8), ((-3, -3, 2), -9), ((0, 2, 0), 4), ((0, 0, -1), -1))),  # drop inside, drop last, dual drop, full, partial drop, tie, tie1, two drops
    (3, (), (((0, -4, 5), -2), ((2, -4, -2), -2), ((-2, 0, -4), -2), ((-3, 0, -2), -3), ((-1, -2, 0), -3))),  # drop last, dual drop, full, partial drop, tie, two drops
    (3, (), (((0, -3, -4), 0), ((-1, 4, 0), -8), ((0, -4, 4), 16), ((0, 3, 3), -3), ((-1, -2, 4), 14), ((2, 5, 1), -8), ((5, 2, 1), 0), ((3, -2, 2), 9), ((5, 0, 0), 2))),  # drop first, drop inside, drop last, dual drop, full, infeasible, partial drop, tie, two drops
    (3, (), (((-1, 3, 5), -13), ((-2, 5, -4), 0), ((0, 4, -4), 0), ((3, 5, 1), -14), ((-4, 4, 3), -9), ((4, 2, 3), -14), ((0, 1, 0), -3), ((1, 3, 0), -5), ((-1, -4, -3), 15))),  # drop first, drop inside, drop last, dual drop, full, infeasible, partial drop, readd, tie, two drops
    (3, (), (((0, 2, -2), -10), ((3, 3, 1), 3), ((-2, -4, -3), -5), ((-4, 0, -2), -14), ((-1, -3, -1), 0), ((4, 4, 0), 1), ((2, -3, 3), 19))),  # drop inside, drop last, dual drop, full, infeasible, partial drop, tie, two drops
    (3, (), (((1, 0, 5), -12), ((1, 5, 3), -12), ((2, 2, -4), 0), ((2, 0, -2), -1), ((1, -4, 0), 1), ((1, 0, -4), 3), ((-2, 0, 2), 4), ((-3, 2, 4), -2), ((2, 0, 0), -5))),  # drop last, dual drop, full, infeasible, partial drop, readd, tie, two drops
    (3, (), (((-2, 3, 0), 6), ((-3, -2, 5), 18), ((-3, 0, -1), -2), ((0, -3, -1), -2), ((2, 1, 0), 0), ((1, 0, 0), -1), ((-1, 0, -1), -2))),  # drop last, dual drop, full, infeasible, partial drop, tie, tie1, two drops
    (3, (), (((0, -4, 4), 0), ((4, 3, 1), -11), ((-1, -2, -1), 9), ((-4, 4, -4), 6), ((1, 0, 0), -1), ((0, 3, 3), -12), ((-3, 2, -2), 4), ((3, -2, -2), 5))),  # drop last, dual drop, full, partial drop, tie, tie1, two drops
    (3, (), (((-3, 1, 3), 6), ((2, 0, 0), -2), ((-4, -3, 0), 4), ((4, 2, -2), 0), ((2, 0, 5), -8), ((0, -4, 3), -10), ((2, -3, 1), -10))),  # drop first, drop last, full, partial drop, readd, tie, tie1, two drops
    (3, (), (((3, 0, 0), 10), ((-3, 2, 0), -9), ((-2, 3, -1), -7), ((-4, -1, 0), -12), ((-1, 0, -4), -13), ((-1, 4, 0), 2), ((-3, 0, -1), -12))),  # drop last, dual drop, full, partial drop, tie1, two drops
    (3, (), (((-2, -3, 0), 6), ((0, 1, 0), 2), ((3, -3, 2), -8), ((0, -1, -1), -1), ((4, 3, 5), -13), ((-1, 1, 4), 0), ((0, 0, 2), 0), ((-1, 4, -4), 6), ((5, 1, -2), -7))),  # drop last, dual drop, full, infeasible, partial drop, tie1, two drops
    (3, (), (((1, -1, 3), 3), ((-2, -4, 2), 6), ((4, 3, -4), -11), ((1, 0, 0), -3), ((2, 3, 5), -4))),  # drop first, drop last, dual drop, full, partial drop, two drops
    (3, (), (((-3, -2, -4), 0), ((0, 4, -3), -15), ((5, 4, -3), -13), ((-3, 5, -4), -18), ((5, -4, -4), 9), ((0, -1, 1), 4), ((2, -1, 2), 7), ((-1, 0, 0), 0))),  # drop first, drop last, full, infeasible, partial drop, two drops
    (3, (), (((-2, -3, 2), -10), ((5, 1, 0), 18), ((-1, 5, 3), 0), ((-1, 0, 0), -6), ((-4, 5, 0), -1), ((0, -4, 2), -4))),  # drop first, drop last, full, partial drop, two drops
    (3, (), (((3, 0, 2), -8), ((1, 0, 1), -6), ((3, -2, -2), -5), ((-4, 0, 3), 12), ((3, -4, 5), -1), ((0, 3, 2), -5), ((5, -2, -1), -10))),  # drop first, drop inside, drop last, full, partial drop, readd, tie1, two drops
    (3, (), (((-4, -2, 2), -18), ((3, 0, -4), 13), ((-4, -1, -3), -9), ((-2, -4, -4), -8), ((-4, -3, 5), -23))),  # drop first, drop inside, drop last, dual drop, full, partial drop, readd, two drops
    (3, (), (((-2, -2, -2), 5), ((3, -2, 0), -10), ((0, 1, -2), 1), ((3, 2, 0), -7), ((1, 5, 2), 2), ((1, 3, -4), 0), ((-1, -2, 1), 1))),  # drop first, drop inside, drop last, dual drop, full, partial drop, readd, two drops
    (3, (), (((0, 0, 2), 7), ((-1, 3, 0), -9), ((0, -3, -3), -3), ((0, -1, -4), -9), ((-2, -2, -3), -10), ((-3, 2, 5), 2), ((0, 4, -2), -12))),  # drop first, drop inside, drop last, dual drop, full, partial drop, readd, two drops
    (3, (), (((0, 3, 3), -12), ((3, -2, 5), -13), ((1, 0, 0), -3), ((3, 2, -4), -3))),  # drop first, drop inside, drop last, dual drop, full, partial drop, tie1, two drops
    (3, (), (((0, -3, 1), -5), ((4, -2, 0), -2), ((2, -4, -2), -14), ((3, 1, -2), 1), ((-4, 5, 0), 11), ((1, -4, -1), -12), ((-3, -3, 0), -12), ((1, 5, 1), 21))),  # drop first, drop inside, drop last, dual drop, full, partial drop, readd, tie1, two drops
    (3, (), (((-1, 4, -3), -15), ((4, -3, 5), 16), ((3, 0, 1), -1), ((0, -2, 3), 14), ((-1, 3, 5), 4), ((0, 3, 0), -8), ((1, 5, -1), -6), ((1, 2, -2), -10), ((5, 3, 4), -4))),  # drop first, drop inside, drop last, dual drop, full, partial drop, readd, tie1, two drops
    (3, (), (((1, 0, 2), -1), ((0, 0, 4), 0), ((3, 4, -1), 2), ((2, -4, -2), -6))),  # drop last, dual drop, full, partial drop, two drops
    (3, (), (((0, -4, -1), 15), ((-3, -2, 4), -2), ((-4, 5, -2), -21), ((5, 2, 5), -1), ((0, -4, 5), -1), ((-2, 2, 0), -9), ((0, 4, -4), -8))),  # drop first, drop inside, drop last, dual drop, full, infeasible, partial drop, two drops
    (3, (), (((-1, 2, -2), -4), ((0, 0, 4), 0), ((1, -1, 1), -6), ((2, 4, 0), -8), ((-1, 0, -4), 1))),  # drop first, drop inside, drop last, dual drop, full, infeasible, partial drop, readd, two drops
    (3, (), (((5, -1, 5), 2), ((1, 3, -1), -2), ((1, 0, -2), -7), ((-1, -1, 4), 15), ((2, -2, -4), -14), ((-4, 0, 5), 19))),  # drop first, drop inside, drop last, dual drop, full, infeasible, partial drop, readd, two drops
    (3, (), (((2, 4, 2), -6), ((0, 1, 3), 6), ((5, 0, -4), -21), ((1, 0, 0), -4), ((-2, 3, -2), -4), ((-1, -2, 2), 11))),  # drop first, drop inside, drop last, dual drop, full, infeasible, partial drop, readd, two drops
    (3, (), (((0, 1, 2), -1), ((2, 0, 3), -9), ((0, 0, -1), -3), ((0, -4, 0), -4), ((1, -4, -2), -4), ((2, -2, 0), -7), ((1, -2, 0), -4), ((0, 1, 0), 3), ((4, 5, -3), -3))),  # drop last, dual drop, full, infeasible, partial drop, two drops
    (3, (), (((1, -2, 0), 2), ((-2, 3, -2), 4), ((-4, -2, 4), 8), ((1, 4, -2), -7), ((2, 2, 1), -11), ((2, 3, -4), -3), ((3, -4, -2), 5), ((1, 3, 3), -13))),  # drop first, drop last, dual drop, full, partial drop, readd, two drops
    (3, (), (((4, 0, 0), 4), ((2, 3, 2), -5), ((0, 5, 0), -10), ((0, -4, -4), 20), ((0, 1, 1), -5), ((5, -3, 4), 1), ((1, 5, -1), -5), ((-3, 0, -2), 2))),  # drop first, drop last, full, infeasible, partial drop, readd, two drops
    (3, (), (((-3, 0, -2), 5), ((1, 0, 0), -2), ((4, -2, 5), -6), ((1, 0, 4), 4), ((0, 0, 2), 3), ((5, 2, -3), -9), ((5, 5, 0), 1))),  # drop first, drop last, full, partial drop, readd, two drops
    (3, (), (((3, 3, 3), -18), ((2, 4, -3), -11), ((5, 5, 5), -28), ((2, 5, 2), -21), ((-1, 2, -1), -2), ((-3, -2, 0), 12), ((-2, 3, 1), -4))),  # drop first, drop last, full, partial drop, readd, two drops
    (3, (), (((5, 2, 0), 4), ((-4, -3, 4), -9), ((3, 3, 0), 7), ((0, -3, -3), -2), ((-3, 0, 1), 1), ((0, -3, 1), -7), ((4, -1, -1), -1), ((3, 3, -1), 8))),  # drop first, drop last, full, partial drop, readd, two drops
    (3, (), (((1, 3, 1), 3), ((-2, 3, 5), -4), ((2, -3, -3), -1), ((4, 1, -2), 0), ((0, -4, 5), -21), ((3, -2, 3), -18), ((1, 2, 2), -3))),  # drop last, dual drop, full, partial drop, readd, two drops
    (3, (), (((-4, 3, 2), 1), ((-3, 0, 0), 4), ((3, 5, -3), -18), ((-1, 3, 0), -8), ((-1, -1, 1), 4), ((5, 1, -2), -7), ((5, 0, -1), -3))),  # drop last, dual drop, full, partial drop, readd, two drops
    (3, (), (((5, 0, 0), -13), ((-3, -2, 2), 12), ((4, 3, 5), 10), ((0, -4, -2), -12), ((-2, -2, 4), 15), ((4, 5, 0), -2), ((2, 0, -3), -15), ((-4, -2, 1), 13))),  # drop last, dual drop, full, partial drop, readd, two drops
    (3, (), (((-2, -1, -2), 13), ((0, 0, 4), -11), ((-3, -4, 0), 9), ((3, -1, 3), -17), ((4, 1, -3), -1), ((3, 0, 0), -9), ((2, 1, -3), 5), ((-3, -4, 5), -6), ((2, 4, -3), 3))),  # drop first, drop inside, dual drop, full, partial drop, readd, tie, two drops
    (3, (), (((-2, -4, 5), -5), ((1, 0, -3), 5), ((-1, 0, 4), -5), ((-3, 0, -2), -2), ((-3, 2, 3), -5), ((-4, -2, -4), -2), ((2, 2, 0), 2), ((0, 2, -4), 2), ((0, -4, 4), 1))),  # drop first, drop inside, dual drop, full, partial drop, readd, tie, two drops
    (3, (), (((0, 2, -3), 0), ((1, 2, 2), -10), ((-1, 4, 3), -15), ((2, 4, 0), -12), ((-2, 1, -1), -3), ((0, -4, -2), 16))),  # drop first, drop inside, dual drop, full, infeasible, partial drop, tie, two drops
    (3, (), (((2, 4, -3), -7), ((3, -2, 0), -3), ((-1, -4, -2), -1), ((5, -1, -1), -5), ((-2, -1, 5), 13), ((-1, 4, -4), -7), ((-3, 1, -1), -4))),  # drop first, drop inside, dual drop, full, infeasible, partial drop, readd, tie, two drops
    (3, (), (((-3, 0, 4), 13), ((0, 1, 2), 1), ((2, 2, -4), -11), ((4, -1, 0), -11), ((2, 5, -1), -11), ((-2, 0, 3), 11), ((-2, -3, 0), 11), ((0, -4, 0), 2))),  # drop first, drop inside, dual drop, full, infeasible, partial drop, readd, tie, two drops
    (3, (), (((2, 0, 1), -2), ((4, 2, 5), 4), ((0, 3, 3), 2), ((-1, 0, 0), 3), ((4, -1, -4), -22), ((-1, 1, 1), 9), ((2, -3, -4), -22), ((5, -4, 2), -22), ((-2, 3, -1), 13))),  # drop first, drop inside, dual drop, full, infeasible, partial drop, readd, tie, two drops
    (3, (), (((0, 1, 1), -3), ((5, 3, 5), 33), ((-4, 5, -4), -8), ((-1, -3, -3), -13), ((-2, -4, -2), -16), ((-4, 3, 3), 0))),  # drop first, drop inside, dual drop, full, infeasible, partial drop, readd, two drops
    (3, (), (((-2, 5, 5), -18), ((0, 3, -3), -2), ((0, -2, 4), -10), ((5, 0, 2), -9), ((4, 1, 0), -4), ((-3, -4, 0), 7))),  # drop first, drop inside, dual drop, full, infeasible, partial drop, readd, two drops
    (3, (), (((0, 2, 3), -9), ((-2, -3, -3), 17), ((3, 3, 0), -10), ((5, 0, -1), -8), ((-3, 1, 1), -2), ((0, 2, -3), -5))),  # drop first, drop inside, dual drop, full, infeasible, partial drop, readd, two drops
    (3, (), (((0, 3, -2), 3), ((0, -2, 2), -4), ((0, 1, -4), 7), ((0, -2, 5), -7))),  # drop first, drop inside, dual drop, infeasible
    (3, (), (((2, 1, 3), -2), ((4, 1, 5), -4), ((0, -2, 1), -4), ((-1, -3, -3), 2), ((0, -4, 2), -7), ((0, -1, -3), 6))),  # drop first, drop inside, dual drop, partial drop
    (3, (), (((5, 4, 5), -22), ((3, -2, 3), -20), ((-4, 2, -1), -3))),  # drop first, drop inside, partial drop
    (3, (), (((1, -1, 4), -12), ((0, 1, -2), 9), ((-4, 0, 0), 1), ((-3, -4, 4), -20), ((4, 5, -2), 17), ((-2, -2, 5), -17), ((-2, -4, 4), -20))),  # drop first, drop inside, dual drop, partial drop, tie
    (3, (), (((-2, -1, -2), -1), ((3, -3, -2), -4), ((-1, 2, 4), 4), ((5, 0, 0), -4), ((0, 4, 4), 6))),  # drop first, drop inside, infeasible, partial drop, tie
    (3, (), (((3, 0, -3), 2), ((-4, 5, -3), 26), ((0, -4, 4), -14), ((-2, 0, 4), -4), ((0, -1, -4), 8), ((1, -1, -1), -2))),  # drop first, drop inside, drop last, dual drop, partial drop
    (3, (), (((2, 4, -2), -11), ((-1, 3, -3), -1), ((4, 5, -2), -17), ((0, 5, 0), -4), ((0, -4, 2), 8), ((1, -1, 2), -5), ((4, -1, 3), -8), ((4, -4, 4), -4), ((4, 1, 0), -13))),  # drop first, drop inside, drop last, infeasible, partial drop
    (3, (), (((3, -3, 3), -6), ((0, -1, -2), -7), ((0, 0, -4), -8), ((2, -3, -2), -14))),  # drop first, drop inside, drop last, partial drop
    (3, (), (((5, -1, -2), -18), ((-4, 4, 0), 25), ((3, -2, 0), -15), ((5, 0, 0), -14), ((2, -3, -2), -1), ((-1, -1, 1), -1))),  # drop first, drop inside, drop last, infeasible, partial drop, readd
    (3, (), (((5, -1, -4), -9), ((3, 2, -1), -8), ((-3, -2, 5), 19), ((-4, 0, 5), 14), ((4, 2, 2), -2), ((0, 1, 0), -2))),  # drop first, drop inside, drop last, partial drop, readd
    (3, (), (((-1, -2, -3), 0), ((-4, 0, -1), 0), ((-3, 5, 0), -10), ((0, 1, -1), -3), ((-3, 2, 0), -4), ((3, -3, 2), 10), ((-1, 3, -2), -8))),  # drop first, drop inside, drop last, partial drop, readd
    (3, (), (((2, 4, -4), -8), ((2, 1, -3), -1), ((5, 4, 1), 4), ((3, -4, 3), 19), ((-2, -1, 1), 0), ((1, -1, -2), 3), ((-1, 2, -1), -5))),  # drop first, drop inside, drop last, partial drop, readd
    (3, (), (((3, 5, 0), -5), ((5, -4, 0), -8), ((-2, -3, -1), 4), ((4, 2, 0), -8), ((0, 1, 0), 2))),  # drop first, drop inside, drop last, dual drop, partial drop, tie
    (3, (), (((0, -1, 0), -4), ((3, 0, -4), 3), ((-1, -4, -2), -14), ((0, 5, 4), 23), ((0, 1, -4), -8), ((-3, -4, 0), -14), ((0, 2, 3), 14))),  # drop first, drop inside, drop last, infeasible, partial drop, tie
    (3, (), (((4, -2, -2), -6), ((3, 4, -2), 6), ((-1, -4, 4), -5), ((0, -3, 0), -6))),  # drop first, drop inside, drop last, partial drop, tie
    (3, (), (((-4, 0, -4), 3), ((5, 3, -3), -3), ((5, 2, 5), -8), ((2, 4, 2), -8))),  # drop first, drop inside, drop last, dual drop, partial drop, readd, tie
    (3, (), (((5, -3, -1), 13), ((5, 1, -1), 12), ((-3, -3, -4), -1), ((-4, -1, -3), -4), ((-1, 0, 1), -2), ((-3, 1, 0), -4))),  # drop first, drop inside, drop last, partial drop, readd, tie
    (3, (), (((5, 4, -3), -11), ((-3, 5, -4), 16), ((-4, -3, 0), 11), ((-3, 3, -2), 12), ((4, 0, -1), -11), ((-3, -4, 3), 5))),  # drop first, drop inside, drop last, partial drop, readd, tie
    (3, (), (((0, 3, -1), 2), ((-1, -1, -1), -1), ((-4, 5, -4), -3), ((-4, 0, -3), -3), ((2, 0, 1), 2), ((-3, 3, -1), 5))),  # drop first, drop inside, drop last, partial drop, readd, tie
    (3, (), (((1, 0, 1), -5), ((5, 0, 1), -11), ((0, -3, 0), 0), ((3, 1, 2), -11))),  # drop first, drop inside, drop last, partial drop, tie, tie1
    (3, (), (((4, 1, 1), -2), ((-3, 4, 5), 6), ((1, 0, 0), -1), ((5, 1, 1), -2), ((1, 4, -1), 13), ((-1, 0, -2), 6), ((3, -1, -1), -2))),  # drop first, drop inside, drop last, dual drop, partial drop, tie, two drops
    (3, (), (((1, -1, -1), -2), ((5, 0, -1), -3), ((0, -4, -1), -3))),  # drop first, drop inside, drop last, partial drop, tie, two drops
    (3, (), (((0, 2, 0), -4), ((-2, 2, -2), -3), ((-3, -2, 0), 6), ((0, 1, -1), -2), ((-4, 0, 1), 0), ((5, 4, -1), -6))),  # drop first, drop inside, drop last, partial drop, tie, tie1, two drops
    (3, (), (((-2, -1, 2), 2), ((-1, 1, -1), -5), ((1, 4, -3), -8), ((5, 4, -2), 3), ((-4, 5, 0), -12))),  # drop first, drop inside, drop last, partial drop, tie1, two drops
    (3, (), (((2, 5, 0), 2), ((0, -4, 3), -7), ((0, 2, 2), -6), ((3, 0, 3), -4), ((0, -2, 0), 1), ((0, 0, 2), -6), ((0, 5, 2), -5))),  # drop first, drop inside, drop last, dual drop, partial drop, two drops
    (3, (), (((5, 0, 0), -10), ((0, 0, -4), -7), ((2, -1, -2), -9), ((5, 0, -2), -12))),  # drop first, drop inside, drop last, partial drop, two drops
    (3, (), (((0, -3, 0), 10), ((0, 5, -1), -13), ((1, 5, -4), -3), ((2, 1, 5), -8), ((0, -1, 1), 1), ((0, -2, 4), -1), ((1, 2, 5), -12), ((4, 3, 4), -9))),  # drop last, dual drop, partial drop
    (3, (), (((3, 1, -4), 21), ((0, 0, -2), 7), ((4, -4, 4), -10), ((0, 1, 1), 1), ((0, 5, 0), 10), ((0, 2, 1), 1), ((0, 0, -1), 4), ((0, -2, 2), -9))),  # drop first, drop last, dual drop, partial drop, tie
    (3, (), (((0, 3, 2), -13), ((0, 3, 4), -16), ((-3, -2, 0), 8), ((0, 5, -2), -9), ((-1, 2, 5), -16))),  # drop first, drop last, dual drop, partial drop, tie, two drops
    (3, (), (((4, -3, 3), -6), ((4, 0, -4), 1), ((2, -1, 4), -6), ((-1, 5, 4), -1))),  # drop first, drop last, partial drop, tie, two drops
    (3, (), (((-3, -3, -4), 9), ((-4, 2, -4), 26), ((2, 3, 5), -4), ((0, 0, -1), 2), ((3, 1, -1), -4), ((0, 5, 0), 16), ((-2, 2, -4), 20), ((0, 5, 3), 11), ((2, 1, 0), -3))),  # drop first, drop last, partial drop, tie, tie1, two drops
    (3, (), (((1, 1, 1), -7), ((4, 0, 2), -12), ((-2, 5, 1), 2), ((-3, 3, 0), 0), ((5, -1, -3), 3))),  # drop first, drop last, dual drop, partial drop, tie1, two drops
    (3, (), (((5, -2, -4), 14), ((3, 5, 1), -7), ((-2, -2, 4), 0), ((0, 2, 1), -4), ((5, 1, 4), 0), ((5, 3, 0), 0))),  # drop first, drop last, partial drop, tie1, two drops
    (3, (), (((5, 0, 2), -5), ((1, 0, 2), -3), ((-1, 0, 5), -4))),  # drop first, drop last, dual drop, partial drop, two drops
    (3, (), (((0, -3, 5), -5), ((2, -1, -1), 3), ((0, 4, 0), 10), ((0, 0, -3), 2), ((3, 2, 2), 10), ((-2, 0, 1), -6), ((-4, -1, -1), -8))),  # drop first, drop last, infeasible, partial drop, two drops
    (3, (), (((-1, 0, -3), -11), ((4, 4, -1), 1), ((5, 0, 4), 24), ((-4, -3, -3), -12), ((0, -4, 0), 6))),  # drop first, drop last, partial drop, readd, two drops
    (3, (), (((-2, -2, 0), -7), ((-4, 0, 3), -11), ((3, 1, -3), 12), ((3, 5, 3), 1))),  # drop first, drop inside, infeasible, partial drop
    (3, (), (((0, -2, 0), -2), ((-2, 3, 1), -2), ((2, -4, -1), -1))),  # drop first, drop inside, dual drop, tie
    (3, (), (((-2, -4, 4), -2), ((5, 0, 2), 10), ((-1, -2, 2), -2))),  # drop first, drop last, dual drop, tie
    (3, (), (((-2, 0, 3), -8), ((5, 0, 3), -8), ((3, 0, 2), -4), ((3, 0, 1), -3))),  # drop last, dual drop, tie
    (3, (), (((-4, -1, 1), -6), ((1, 5, 4), -4), ((2, 2, 2), -1), ((5, -1, 2), 0))),  # drop inside, dual drop, full, tie
    (3, (), (((5, -3, -2), -6), ((-4, 4, 2), -6), ((3, -3, -4), -5), ((1, -3, -2), 6))),  # drop last, dual drop, full, tie
    (3, (), (((-3, 1, 4), -4), ((-1, 3, 4), -5), ((2, 2, 3), -5))),  # drop first, drop inside, partial drop, tie
    (3, (), (((0, 1, 0), -2), ((3, -1, 5), 7), ((1, 3, 3), -4), ((-1, 0, -3), 0), ((3, -4, -1), 20))),  # drop first, drop inside, dual drop, tie1
    (3, (), (((-3, 1, 1), -3), ((4, 1, -3), 3), ((-1, 4, 5), -12), ((1, 1, -1), 0), ((5, -4, -3), 12), ((1, 3, 1), -5))),  # drop inside, dual drop, full, tie1
    (3, (), (((4, -4, 0), 16), ((-2, -2, 2), 0), ((-2, 0, 0), -6), ((2, 5, 4), 10), ((-1, -1, 0), 0), ((-3, 0, -3), -15))),  # drop last, dual drop, full, tie1
    (3, (), (((0, 1, 0), -2), ((-3, 5, 2), -9), ((-2, 1, 5), 2), ((0, 0, -2), 0))),  # drop first, drop inside, partial drop, tie1
    (3, (), (((0, 2, 3), -4), ((1, 1, 1), -3), ((5, 0, -1), -3))),  # drop first, drop last, partial drop, two drops
    (3, (((-3, -4, -4), 0),), (((5, 0, 0), -10), ((1, 1, 1), -1), ((4, -2, 0), -4))),  # drop first, drop last, drop with equalities, dual drop
    (3, (((0, 1, 4), 0),), (((0, 1, -3), -9), ((0, 0, -3), -7), ((4, 3, 1), -3), ((0, -1, 5), 16))),  # drop first, drop last, drop with equalities, dual drop, infeasible
    (3, (((2, 0, 0), -4),), (((3, -4, -4), 4), ((1, 3, 0), -4), ((-4, 0, -4), 9), ((5, -3, -4), 5), ((-2, 1, 0), 2))),  # drop first, drop last, drop with equalities, dual drop, tie
    (3, (((0, 1, 0), -1),), (((-2, -4, -2), -2), ((4, 4, 4), 8), ((-4, -4, -2), -2), ((-1, -4, -1), -1), ((0, 0, 2), 6), ((1, -4, 2), 11))),  # drop first, drop last, drop with equalities, dual drop, infeasible, tie
    (3, (((1, 3, -3), 2),), (((1, 1, -3), -4), ((-2, 4, -4), -12), ((-1, 3, 2), 8))),  # drop first, drop inside, drop with equalities, dual drop, full
    (3, (((3, 4, 0), 0),), (((1, -4, 0), -1), ((0, 0, 2), -2), ((-1, 0, -3), 5), ((-3, 5, 1), 0))),  # drop first, drop inside, drop with equalities, dual drop, full, infeasible
    (3, (((2, 1, -4), -3),), (((4, 2, -2), 2), ((0, -4, 4), -12), ((-3, 2, 0), 9), ((4, -3, 5), -13), ((-4, -3, 0), -2), ((1, 3, -3), 9))),  # drop first, drop inside, drop with equalities, dual drop, full, infeasible, readd
    (3, (((5, -1, -3), -3),), (((5, 2, 0), 7), ((-4, -2, -1), -8), ((-2, 1, 1), 1), ((-4, 3, -3), -5), ((-3, 4, 5), 13), ((-3, -4, -1), -9), ((1, 1, 2), 6), ((-2, -3, 0), -4))),  # drop first, drop inside, drop with equalities, dual drop, full, infeasible, readd
    (3, (((-2, -1, -4), 2),), (((1, 0, 1), 0), ((1, 5, 5), 6), ((-2, 0, -3), 4), ((0, -1, 0), -2), ((-2, 3, 5), 2), ((-2, 3, 0), 6), ((-4, 0, 5), -3), ((0, -2, 0), -4), ((5, -2, 1), -6))),  # drop first, drop inside, drop with equalities, dual drop, full, infeasible, readd
    (3, (((-2, 0, -4), -4),), (((4, -3, 4), -5), ((-2, -3, -3), -10), ((4, 0, -1), -9))),  # drop first, drop inside, drop with equalities, dual drop, full, tie
    (3, (((1, -3, 0), 0),), (((-1, 0, 2), -6), ((1, -4, -3), 10), ((0, -4, 0), -6), ((1, 4, 3), -3))),  # drop first, drop inside, drop with equalities, dual drop, full, infeasible, tie
    (3, (((3, -2, 1), 0),), (((-3, 1, -2), -9), ((1, -4, -3), -15), ((-4, -3, -2), -18), ((0, 5, -4), 0), ((0, -2, -3), -11), ((0, 4, -4), -3), ((2, -1, 0), 2))),  # drop first, drop inside, drop with equalities, dual drop, full, tie1
    (3, (((-2, 0, -2), 1),), (((0, 2, -2), -1), ((1, -3, -1), -1), ((0, 5, 0), 0), ((-2, 0, -1), 1), ((3, -1, -3), -4), ((1, 0, -1), -2), ((-1, 2, 0), 2))),  # drop first, drop inside, drop with equalities, dual drop, full, infeasible, tie1
    (3, (((-2, -2, 3), 2),), (((5, 0, 0), -3), ((-2, 4, 2), -15), ((-4, 2, 4), -12), ((2, -3, 0), 7))),  # drop first, drop inside, drop last, drop with equalities, dual drop, full
    (3, (((-3, 3, 0), -2),), (((-3, 2, -3), -6), ((0, 2, 0), -2), ((0, -2, 3), 7), ((-4, -4, -3), -2), ((5, 5, 5), 5))),  # drop first, drop inside, drop last, drop with equalities, dual drop, full, infeasible
    (3, (((0, -3, 1), -1),), (((2, 0, -3), -9), ((4, -2, 3), 5), ((0, 4, -4), -6), ((3, 2, 0), -1), ((-4, -3, -2), -5))),  # drop first, drop inside, drop last, drop with equalities, dual drop, full, readd
    (3, (((0, 0, 4), 2),), (((-3, 0, 5), 18), ((-2, 4, -1), -5), ((0, 2, -3), -8), ((1, 3, 5), 4), ((2, -3, -2), 0), ((5, 1, 0), -12), ((4, 4, -1), -4), ((0, -1, 2), 6))),  # drop first, drop inside, drop last, drop with equalities, dual drop, full, readd
    (3, (((-3, 0, 1), 4),), (((1, 1, 2), -4), ((-2, 3, 2), 4), ((0, 4, 2), 1), ((1, 4, -2), 0), ((5, -2, 5), -13), ((0, 0, 2), -2), ((0, 0, 1), 0), ((0, -1, 1), -1), ((-3, 3, 0), 8))),  # drop first, drop inside, drop last, drop with equalities, dual drop, full, readd
    (3, (((-3, 3, 3), 3),), (((-4, 4, 0), -8), ((-4, 5, 0), -9), ((2, 3, 5), -10), ((1, 0, 3), -1))),  # drop first, drop inside, drop last, drop with equalities, dual drop, full, tie
    (3, (((3, 0, -2), 1),), (((3, 0, -1), -3), ((-3, 0, 5), -9), ((-2, 2, 1), 0))),  # drop first, drop last, drop with equalities, dual drop, full
    (3, (((0, 1, 2), 1),), (((0, 1, -3), -11), ((0, 0, -3), -9), ((-2, -1, 3), 13), ((2, 0, 0), 0), ((0, 2, 2), 2))),  # drop first, drop last, drop with equalities, dual drop, full, infeasible
    (3, (((-2, 3, 1), -1),), (((5, 0, 0), -10), ((-2, -1, -1), 4), ((2, -1, -3), -7))),  # drop last, drop with equalities, dual drop, full
    (3, (((3, -1, 1), 2),), (((-4, -4, 0), 5), ((3, 5, -4), -1), ((-2, 4, -1), -14), ((-4, 1, 5), -19))),  # drop first, drop inside, drop last, drop with equalities, dual drop, full, infeasible, readd
    (3, (((0, 2, 4), 2),), (((3, -4, -1), 3), ((1, -2, 0), 1), ((-4, 5, -2), -3), ((-1, 1, -4), -5), ((5, 3, 1), -5))),  # drop first, drop inside, drop last, drop with equalities, dual drop, full, infeasible, readd
    (3, (((5, 1, 0), -1),), (((5, 3, -1), 23), ((4, -2, -3), 12), ((-3, 5, 2), 4), ((0, -3, 1), -11), ((-4, 0, 0), 0), ((-2, 0, 1), -7))),  # drop first, drop inside, drop last, drop with equalities, dual drop, full, infeasible, readd
    (3, (((0, 5, 5), -1),), (((5, -1, 2), 8), ((-3, 3, 4), -25), ((-2, -1, -3), 8), ((5, -1, -2), 21))),  # drop last, drop with equalities, dual drop, full, infeasible
    (3, (((1, 1, -1), 3),), (((4, 4, 5), -9), ((1, 1, 3), -7), ((-2, -1, 1), -4))),  # drop first, drop last, drop with equalities, dual drop, full, tie
    (3, (((0, 0, -1), 0),), (((1, 0, 4), -8), ((4, 0, 4), -16), ((-2, 3, -4), 21), ((1, 1, 0), 1), ((3, 3, 0), 4), ((-3, 4, 5), 8), ((2, 2, 5), -7), ((1, -2, 0), -8))),  # drop first, drop last, drop with equalities, dual drop, full, infeasible, tie
    (3, (((0, 3, 4), 0),), (((-3, 4, 0), -3), ((3, -3, 1), 3), ((-4, 3, 5), -3), ((-1, 2, 4), -1))),  # drop last, drop with equalities, dual drop, full, tie
    (3, (((-2, -4, 0), -4),), (((4, -3, -2), -23), ((2, 0, 2), 2), ((5, -3, -4), -31), ((-1, 0, 0), 2), ((-2, 0, -3), -4))),  # drop first, drop inside, drop last, drop with equalities, dual drop, full, infeasible, tie
    (3, (((-3, 5, 0), 0),), (((0, 1, 1), -4), ((-3, -2, 0), 10), ((3, 2, 4), -11), ((0, 2, 5), -5), ((0, 1, 1), -4), ((-3, 1, 3), -3), ((0, -3, -4), 13), ((4, 2, 0), -8))),  # drop first, drop inside, drop last, drop with equalities, dual drop, full, infeasible, readd, tie
    (3, (((4, -1, -3), -2),), (((4, -2, -4), -12), ((3, 5, 0), 11), ((-1, 0, 1), -6), ((-1, -4, 1), -4), ((5, 5, -4), 3))),  # drop last, drop with equalities, dual drop, full, infeasible, tie
    (3, (((5, -4, 3), 1),), (((1, 1, 3), -4), ((4, -2, 5), -7), ((1, 4, 1), -11), ((-2, 4, -3), -4), ((1, 5, 4), -12))),  # drop first, drop inside, drop last, drop with equalities, dual drop, full, partial drop
    (3, (((-3, -3, 5), 4),), (((5, 0, 5), -4), ((-1, -2, 3), -1), ((-2, 5, -1), 16), ((-1, 1, 3), -1), ((-1, 2, 4), -1))),  # drop first, drop last, drop with equalities, dual drop, full, partial drop
    (3, (((-3, 0, -1), 3),), (((-4, 2, -1), -11), ((-1, 3, -2), 1), ((-3, 4, 5), -27), ((-1, -2, 0), 0), ((-1, -3, 5), -13))),  # drop first, drop last, drop with equalities, dual drop, full, infeasible, partial drop
    (3, (((4, -1, -4), 2),), (((-3, 0, 4), -3), ((1, -2, -4), 5), ((-3, 2, 4), -2), ((0, -3, -1), -1))),  # drop first, drop inside, drop last, drop with equalities, dual drop, full, partial drop, readd
    (3, (((1, -3, 2), 3),), (((1, 3, 5), -13), ((0, -1, 4), 0), ((-2, 3, 2), -13), ((-2, 3, -2), -7))),  # drop first, drop inside, drop last, drop with equalities, dual drop, full, partial drop, readd
    (3, (((3, -2, -2), -3),), (((4, 2, -1), 13), ((-1, 2, 1), 1), ((1, 0, -1), 3), ((0, -4, 3), -11), ((-2, 0, 5), -7))),  # drop first, drop inside, drop last, drop with equalities, dual drop, full, partial drop, readd
    (3, (((2, 1, 0), -1),), (((1, 3, 1), -3), ((-3, 2, -3), 8), ((3, -4, -2), 0), ((5, 1, 1), -5), ((-2, -1, 5), -2))),  # drop first, drop inside, drop last, drop with equalities, dual drop, full, infeasible, partial drop
    (3, (((-2, 4, 5), 0),), (((0, 1, 1), 0), ((1, -4, -4), -3), ((-4, 5, -2), 27), ((5, 3, 1), -9), ((2, -1, 1), -8))),  # drop first, drop inside, drop last, drop with equalities, dual drop, full, infeasible, partial drop, readd
    (3, (((-2, 3, -1), 2),), (((0, 3, -2), 1), ((0, 1, 0), -2), ((5, -2, 5), -19), ((0, -4, 3), 1), ((0, 1, 1), -5), ((-3, -4, -1), 18))),  # drop first, drop inside, drop last, drop with equalities, dual drop, full, infeasible, partial drop, readd
    (3, (((3, 2, -1), -4),), (((3, 4, 0), 7), ((-2, -3, 3), -3), ((-4, -1, 0), 6), ((-3, 3, -3), 16), ((5, -1, 2), -13), ((-3, 2, 1), 12), ((5, 4, -4), 0), ((-2, 3, 4), 13))),  # drop first, drop inside, drop last, drop with equalities, dual drop, full, infeasible, partial drop, readd
    (3, (((-4, 2, 4), 3),), (((1, -1, 5), 14), ((-2, -3, 4), 20), ((-1, -1, 1), 7), ((-1, 3, 3), 9), ((-3, -4, 1), 15), ((0, -2, 2), 9), ((1, -3, 3), 10), ((0, 0, -2), -5), ((-1, 5, -1), -5))),  # drop first, drop last, drop with equalities, dual drop, full, infeasible, partial drop, readd
    (3, (((2, -3, -4), -3),), (((5, -4, 5), -17), ((4, -4, -4), -15), ((-4, 2, -2), 15))),  # drop first, drop last, drop with equalities, full, infeasible, partial drop, readd
    (3, (((-1, 3, 0), 0),), (((-3, -4, 3), 3), ((3, -3, 0), -3), ((5, 1, -4), -5))),  # drop first, drop last, drop with equalities, full, infeasible, partial drop, readd
    (3, (((0, 2, 3), 3),), (((-1, -2, 3), 1), ((4, 4, -3), -10), ((0, 3, 1), -6))),  # drop first, drop last, drop with equalities, full, infeasible, partial drop, readd
    (3, (((0, -3, -4), 0),), (((4, -1, 0), 8), ((-4, -4, 0), 10), ((-1, 3, -4), -9), ((3, 0, 0), 2), ((-4, -1, -3), -1), ((1, 4, 0), -9), ((4, 3, -2), -4))),  # drop first, drop last, drop with equalities, dual drop, full, partial drop, tie
    (3, (((-1, 0, 2), -2),), (((2, 5, -1), -2), ((0, 3, 5), -3), ((-4, 4, 1), 7), ((2, 0, -2), -1), ((1, 0, -1), -1), ((-2, 2, -1), 6))),  # drop first, drop inside, drop last, drop with equalities, dual drop, full, partial drop, tie
    (3, (((1, -2, -1), 0),), (((0, 0, -1), 1), ((4, 4, -4), -14), ((2, 4, 1), -13), ((-2, 0, 0), 3), ((-3, -1, -3), 7), ((1, 1, 3), -4), ((5, 0, -2), -5), ((-2, -2, -1), 8), ((2, 0, 0), -2))),  # drop first, drop last, drop with equalities, dual drop, full, infeasible, partial drop, tie
    (3, (((0, 2, 5), 0),), (((-2, 5, 0), 7), ((-1, 5, -4), 10), ((0, 1, -2), 4), ((-3, 5, -2), 7), ((1, -2, 3), -4), ((0, 0, 4), -4))),  # drop first, drop last, drop with equalities, dual drop, full, infeasible, partial drop, readd, tie
    (3, (((-1, 1, 1), -2),), (((-4, 1, 0), 3), ((-1, 1, -4), -9), ((-2, 1, -3), -6), ((-2, 0, -3), -9), ((3, -4, -4), -3), ((2, 2, 3), 15))),  # drop first, drop last, drop with equalities, full, infeasible, partial drop, readd, tie
    (3, (((-3, -2, 5), 0),), (((4, 0, 4), -23), ((-3, -1, 1), 5), ((2, 3, 0), 3), ((-3, 0, 2), 3), ((4, 0, -4), 0), ((-1, 0, -1), 7), ((2, -3, 3), -23))),  # drop first, drop last, drop with equalities, full, infeasible, partial drop, readd, tie
    (3, (((4, -1, 3), -1),), (((-4, 0, -1), 1), ((2, 0, 5), -16), ((0, 2, -4), 14), ((3, 5, 5), -17), ((3, -3, -3), 2), ((5, -2, 1), -7), ((-2, 0, 0), 4))),  # drop first, drop last, drop with equalities, full, infeasible, partial drop, readd, tie
    (3, (((1, 4, -3), 0),), (((4, -2, -3), -14), ((-4, -4, -2), -4), ((4, -1, -2), -9), ((4, 0, 0), -3), ((2, -3, -3), -14))),  # drop first, drop last, drop with equalities, dual drop, full, partial drop, tie, two drops
    (3, (((2, 4, 0), 1),), (((0, 1, -4), 1), ((1, 1, 0), -2), ((5, -2, 3), -16), ((4, 1, -4), -11), ((1, 2, -2), -1))),  # drop first, drop inside, drop last, drop with equalities, dual drop, full, partial drop, tie, two drops
    (3, (((-4, -2, 0), -2),), (((-4, 3, 0), 6), ((3, -3, 2), -6), ((2, 1, 2), 1), ((-4, 2, -2), 8), ((2, -1, 4), -6), ((-1, -1, 1), -3), ((-2, 1, -3), 6))),  # drop first, drop last, drop with equalities, dual drop, full, infeasible, partial drop, readd, tie, two drops
    (3, (((-4, 0, -2), 2),), (((-3, 5, -1), 2), ((-3, -1, 4), -9), ((-4, 0, 0), -2))),  # drop first, drop last, drop with equalities, dual drop, full, partial drop, two drops
    (3, (((-3, 5, 4), 4),), (((-1, -1, 4), 7), ((3, 0, 1), -6), ((3, -3, -3), -6), ((4, 5, 0), -12))),  # drop first, drop inside, drop last, drop with equalities, dual drop, full, partial drop, two drops
    (3, (((-1, -4, 0), 4),), (((2, -1, 2), -11), ((1, -3, 5), -14), ((-2, 3, 3), 4), ((-4, 4, 0), 16), ((0, 0, 3), -5), ((0, 3, 0), 5), ((2, -2, 3), -12), ((0, -1, 0), 0), ((5, 1, 0), -14))),  # drop first, drop inside, drop last, drop with equalities, dual drop, full, partial drop, readd, two drops
    (3, (((0, -1, 4), -2),), (((-4, -1, 0), 5), ((2, 4, 3), -19), ((0, 0, 2), -5))),  # drop first, drop last, drop with equalities, dual drop, full, partial drop, readd, two drops
    (3, (((4, 4, -1), -3),), (((0, -1, 0), -3), ((1, -4, -1), -15), ((5, 3, 4), 0), ((-2, 2, 4), 16))),  # drop first, drop last, drop with equalities, dual drop, full, partial drop, readd, two drops
    (3, (((4, 3, -3), 4),), (((2, 0, -1), -4), ((2, -3, 3), 1), ((2, 2, 5), 2), ((0, -3, -2), -7))),  # drop first, drop last, drop with equalities, dual drop, full, partial drop, readd, two drops
    (3, (((0, 0, 4), -3),), (((-1, 3, 4), -6), ((5, 2, 4), 15), ((-2, -1, 3), -3), ((-1, 1, 0), -2))),  # drop first, drop last, drop with equalities, dual drop, full, partial drop, tie1, two drops
    (3, (((3, 3, 4), 1),), (((-1, 1, 3), -9), ((0, -4, 0), -6), ((-1, 5, -4), 19), ((-3, -3, -2), -9), ((5, 0, -4), 28))),  # drop first, drop last, drop with equalities, dual drop, full, infeasible, partial drop, two drops
    (3, (((-1, 0, 3), 0),), (((-4, 0, -4), 9), ((5, 0, 0), -8), ((2, 1, -3), -6), ((3, 0, -1), -6), ((-2, 3, 4), -6), ((4, 2, 0), -12))),  # drop first, drop inside, drop last, drop with equalities, dual drop, full, infeasible, partial drop, two drops
    (3, (((1, -4, -4), 2),), (((-1, -2, -1), -5), ((-1, 5, -2), 10), ((-4, 0, 1), -9), ((3, -1, -4), 10), ((-1, -1, 5), -9), ((1, 0, 2), 0))),  # drop first, drop inside, drop last, drop with equalities, dual drop, full, infeasible, partial drop, readd, two drops
    (3, (((-1, 0, 5), -2),), (((2, 2, 4), -16), ((-2, -4, 0), 14), ((-4, 3, -4), 16), ((-1, -3, 0), 9), ((0, 5, 4), -16), ((5, 2, 0), -18))),  # drop first, drop inside, drop last, drop with equalities, dual drop, full, infeasible, partial drop, readd, two drops
    (3, (((-4, 1, -1), -2),), (((-3, 2, 0), -12), ((-3, 0, 5), -21), ((1, 5, 1), -16), ((-3, -3, 5), -10), ((0, -3, -3), 19), ((-2, 1, 1), -8), ((-2, -4, 2), 3), ((-4, 2, 1), -17), ((-4, 0, 3), -15))),  # drop first, drop inside, drop last, drop with equalities, dual drop, full, infeasible, partial drop, readd, two drops
    (3, (((-4, 5, 1), -3),), (((-1, -1, 2), -5), ((-4, 2, -4), 0), ((0, -1, 0), -3), ((5, 3, 2), 8))),  # drop first, drop last, drop with equalities, dual drop, full, infeasible, partial drop, readd, two drops
    (3, (((-3, 4, 0), 4),), (((-2, 0, 0), -1), ((5, 5, -1), 24), ((-4, 3, 3), -1), ((0, -1, 0), -3), ((-4, -1, -4), 2))),  # drop first, drop last, drop with equalities, dual drop, full, infeasible, partial drop, readd, two drops
    (3, (((-4, 0, 4), -4),), (((2, -2, 5), -4), ((3, -2, 5), -7), ((5, -4, -2), -14), ((5, 0, -3), -13), ((-3, 2, 1), 10), ((5, 4, 0), -14))),  # drop first, drop last, drop with equalities, dual drop, full, infeasible, partial drop, readd, two drops
    (3, (((-3, 2, 0), -3),), (((3, 3, -4), 17), ((-1, -1, -4), -5), ((2, 1, -1), 10), ((1, 2, 0), 9), ((1, 3, 5), 10), ((1, 0, 3), 4), ((-3, -3, 1), -15), ((-4, 2, 0), -7))),  # drop first, drop last, drop with equalities, dual drop, full, infeasible, partial drop, tie1, two drops
    (4, (), (((4, -3, 0, -4), 0), ((-1, -4, 0, 1), -7), ((-1, -1, 0, 1), -3), ((1, -4, 1, 5), -2))),  # drop first, drop inside, dual drop
    (4, (), (((0, 2, 3, -1), -3), ((-2, 1, 0, -1), -8), ((-1, -3, -4, 0), -5), ((-3, 3, -3, 3), -12))),  # drop inside, dual drop
    (4, (), (((-4, 5, 0, -3), 1), ((0, 0, -1, 0), 1), ((0, 0, 4, 0), -5), ((-4, 0, 2, -1), -7), ((-4, 2, 3, 1), -10), ((0, 4, 0, 4), -4))),  # drop first, drop inside, dual drop, infeasible, tie
    (4, (), (((0, 1, -2, 0), -7), ((0, 2, -4, 0), -12), ((1, -2, -1, -1), 4), ((5, 0, -1, 0), 9))),  # drop first, drop last, dual drop
    (4, (), (((5, 0, -3, 1), 4), ((0, 5, 0, -4), -14), ((-3, 0, -3, 3), 14), ((0, 4, 0, 0), -11), ((0, 2, 0, 5), -4))),  # drop last, dual drop
    (4, (), (((0, 2, -3, 2), -10), ((0, -3, -4, -3), 2), ((4, 4, -4, -3), -9), ((-1, 0, 3, 3), 0), ((0, 5, 0, -3), -3))),  # drop first, drop inside, dual drop, full
    (4, (), (((2, 1, 0, 1), -7), ((3, -3, -4, 0), -6), ((-3, -2, 1, -3), 3), ((-3, 1, 0, 0), 7), ((-3, -3, 4, 3), 34), ((-2, 4, -3, -4), -19))),  # drop first, drop inside, dual drop, full, infeasible
    (4, (), (((-3, -4, -3, -2), -5), ((2, -2, -4, 2), -12), ((-1, 0, 5, 2), -1), ((1, 5, -1, 2), -5), ((-2, 1, 5, 4), -2))),  # drop inside, dual drop, full
    (4, (), (((-2, -2, -2, -2), -10), ((-2, -1, -3, 4), -6), ((0, 4, -3, 3), 12), ((3, -1, 1, -2), 3), ((3, -1, 2, 0), -3), ((-4, 0, 3, 0), -4))),  # drop inside, dual drop, full, infeasible
    (4, (), (((-3, 4, 2, -2), -5), ((-2, 0, 5, 4), -4), ((1, -3, -3, 5), -3), ((4, -3, 1, 4), -2), ((4, -3, -3, 0), 4), ((1, 4, 0, 0), -8))),  # drop first, drop inside, dual drop, full, readd
    (4, (), (((1, 5, -4, -3), -19), ((-1, -2, 0, 0), 1), ((0, 3, -1, 0), -3), ((2, 5, -4, 5), -6), ((1, -2, 2, -4), -4), ((5, -2, 3, 4), 8), ((0, -1, -2, 0), -2))),  # drop first, drop inside, dual drop, full, readd
    (4, (), (((-1, 0, 2, 0), -7), ((0, 2, 0, -3), 8), ((1, -3, 0, 3), -1), ((0, 0, 0, -3), 6), ((5, 3, -2, 0), -3), ((5, 5, -4, 2), -5), ((0, 3, 1, -1), 0), ((-4, 5, 2, 0), -15))),  # drop first, drop inside, dual drop, full, readd
    (4, (), (((5, -3, -3, 2), -3), ((-4, 2, -3, 0), -4), ((2, 1, 4, -4), -4), ((0, 0, -3, -4), -9), ((2, 3, 3, 2), -5), ((-4, -3, -4, 3), 12))),  # drop first, drop inside, dual drop, full, infeasible, readd
    (4, (), (((-2, 1, 0, 3), 5), ((-2, 5, -2, -4), 4), ((-3, -2, -3, 3), 2), ((-3, -1, 4, 5), -5), ((-2, -3, 4, 5), -7), ((2, 1, 0, -4), -2), ((0, -2, -4, 1), -6))),  # drop first, drop inside, dual drop, full, infeasible, readd
    (4, (), (((1, -4, 5, 2), -6), ((4, 4, 1, 5), 21), ((-1, 0, -2, -2), -1), ((0, 2, -2, -2), 0), ((-3, -4, -1, 0), -10), ((1, 5, -4, 3), 23), ((-2, -3, 0, 5), 4), ((-1, 3, -3, 3), 16))),  # drop first, drop inside, dual drop, full, infeasible, readd
    (4, (), (((-4, 4, -4, 2), -16), ((2, 0, 3, -1), 8), ((-3, 5, 1, -4), -14), ((4, 0, -2, 2), 4), ((4, -4, -4, 5), 9), ((1, -1, 0, -1), 2), ((-4, -1, 2, 0), 2), ((0, 5, 4, 3), -5))),  # drop inside, dual drop, full, infeasible, readd
    (4, (), (((4, 1, 2, -1), 15), ((-2, 5, -4, 0), -6), ((-2, -2, 5, 5), -11), ((0, 3, -1, 0), -3), ((2, 2, -4, 2), 6), ((-4, -3, 4, -2), -12), ((5, 5, 3, 2), 18), ((-3, 0, 1, 0), -8), ((-1, -2, -4, 3), -8))),  # drop inside, dual drop, full, infeasible, readd
    (4, (), (((2, -2, -3, 1), -2), ((-4, 0, 0, -2), -15), ((-3, -3, -2, 2), -15), ((-4, 4, -2, -1), -9), ((2, 0, 3, -4), 4))),  # drop first, drop inside, dual drop, full, tie
    (4, (), (((1, -2, 5, 2), 1), ((-2, 2, -4, 2), -6), ((-3, 0, 3, 4), -7), ((-2, 3, 2, 2), -10), ((-4, -2, 0, -4), -4), ((3, -4, 3, -2), 11), ((2, 5, 4, -2), -10))),  # drop first, drop inside, dual drop, full, infeasible, tie
    (4, (), (((3, -2, 4, -2), 2), ((-2, 3, 1, 3), 2), ((-4, 0, -3, -1), -6), ((5, 1, 0, 2), 0), ((-3, -2, 0, -1), 2), ((1, 5, -1, 3), -6))),  # drop inside, dual drop, full, infeasible, tie
    (4, (), (((4, 0, 0, 0), -2), ((0, 1, -1, 3), 6), ((-2, 0, -3, -4), -12), ((-3, -2, 4, 0), 18), ((-3, -3, -3, -1), -8), ((2, 4, 0, -2), -3), ((-4, 4, 2, -3), 14), ((-1, -1, 3, 5), 21), ((4, -4, 2, -4), -12))),  # drop first, drop inside, dual drop, full, tie, tie1
    (4, (), (((-1, 4, 1, 0), -8), ((-3, 1, -4, -4), -5), ((2, 0, -1, -4), 4), ((0, -3, 3, 2), -1), ((3, -2, 0, -3), 10), ((-2, 0, 4, 2), -10))),  # drop first, drop inside, dual drop, full, tie1
    (4, (), (((2, 2, 4, -4), 8), ((2, 4, 5, -2), 5), ((0, -3, -3, 3), -9), ((-4, 1, -4, 1), 10), ((0, 0, 1, 4), -13), ((-4, -3, 3, -4), -10))),  # drop first, drop inside, drop last, dual drop, full
    (4, (), (((-3, -3, -2, -3), 19), ((4, -2, 4, 0), -1), ((2, -2, 3, 0), 2), ((0, 4, 0, 2), -10), ((0, 5, -3, 0), -11), ((3, 3, -1, -4), -2), ((-4, 0, -3, 2), -1), ((4, -4, 0, -3), 2))),  # drop first, drop inside, drop last, dual drop, full, infeasible
    (4, (), (((-3, 1, 3, 4), -2), ((-4, 0, 3, -2), -4), ((0, -1, 1, -4), 4), ((0, 1, -4, 3), -12), ((-3, -1, -2, 1), -9), ((1, 4, -2, -4), -17))),  # drop inside, drop last, dual drop, full
    (4, (), (((-4, -3, -4, 4), -14), ((5, -1, -3, 0), 6), ((4, 1, -3, 3), 10), ((4, -3, 3, 0), -4), ((1, 2, 1, -2), 6), ((-4, 0, 3, -3), -8), ((-3, 1, 3, 4), 4))),  # drop inside, drop last, dual drop, full, infeasible
    (4, (), (((0, -2, 3, 1), 0), ((-4, 0, -3, 5), -17), ((-3, 1, 3, -4), 10), ((0, 5, -3, 2), -11), ((4, 1, 4, 1), 1), ((-1, 0, -3, 4), -12), ((-3, 5, 3, 1), -10))),  # drop first, drop inside, drop last, dual drop, full, readd
    (4, (), (((-3, 1, -2, 4), -8), ((1, 4, 1, -1), 8), ((-4, 2, 2, 1), 4), ((5, 5, -2, -3), 6), ((5, -3, -4, 0), -10), ((5, -1, -4, 0), -8), ((-3, -3, 2, -4), 2))),  # drop first, drop inside, drop last, dual drop, full, readd
    (4, (), (((-1, 3, -4, 1), 4), ((4, 0, -2, -1), 1), ((0, 3, -4, -1), 8), ((0, -3, 5, -3), 5), ((-2, -2, -1, 0), -6), ((1, 1, 0, 4), -7), ((-4, -3, -1, -4), -5), ((-3, 1, 3, 3), -2))),  # drop first, drop inside, drop last, dual drop, full, infeasible, readd
    (4, (), (((-3, 1, 2, -3), 2), ((-1, 0, -4, -2), 1), ((2, -2, -3, 0), -4), ((-1, 4, 4, 0), -7), ((2, 0, 5, 4), 10), ((5, -2, 0, -3), 4), ((-3, -2, -1, -4), -21), ((-2, 4, 0, -2), -4), ((-3, 0, 4, 0), 2))),  # drop first, drop inside, drop last, dual drop, full, infeasible, readd
    (4, (), (((-3, -2, -3, 0), -5), ((-1, 2, 5, 2), 26), ((4, 0, 0, 4), 5), ((5, 3, 3, -3), -2), ((-3, -4, -4, 3), -3), ((4, -4, 4, 0), -4), ((-1, 3, 0, -2), 7), ((0, 0, 2, 0), 4), ((-4, -2, -4, 2), -2))),  # drop first, drop inside, drop last, dual drop, full, infeasible, readd
    (4, (), (((2, 2, -3, -4), 3), ((5, 2, 4, 0), 3), ((2, -4, -4, 3), 7), ((-4, 0, 5, -2), -19), ((3, -3, 4, 3), -5), ((4, 0, 3, 0), 0), ((0, -1, -1, 0), -1))),  # drop inside, drop last, dual drop, full, readd
    (4, (), (((3, 1, 3, -4), -8), ((4, 0, -1, -1), 2), ((-4, 4, -2, 2), -2), ((1, -3, 0, 0), 4), ((0, 4, -4, -3), -12), ((-2, -3, 3, -1), -1), ((-1, 0, 3, 0), -1), ((3, 2, 4, -3), -8))),  # drop inside, drop last, dual drop, full, readd
    (4, (), (((-1, 4, 4, 5), -4), ((5, 0, -1, -2), -2), ((-1, 1, 3, -1), -1), ((0, -3, 4, 4), 14), ((4, 0, -4, 0), -11), ((3, 0, 4, 1), -8), ((-2, 3, -4, 5), 2), ((-2, 3, 1, -4), -5), ((-3, 2, -3, 1), 6))),  # drop inside, drop last, dual drop, full, readd
    (4, (), (((0, -3, 1, 4), -11), ((5, 0, -1, -4), 7), ((0, -2, 3, 5), -9), ((2, 0, 1, 0), 3), ((-4, 5, -2, -4), 16), ((1, 0, -2, 1), -2), ((-3, 5, -4, 1), 4), ((0, 4, 5, -3), -6))),  # drop inside, drop last, dual drop, full, infeasible, readd
    (4, (), (((-3, 0, 4, 4), -4), ((4, -4, -4, 0), -6), ((0, -4, -3, 2), -19), ((-4, 4, -1, 4), -15), ((-3, 0, -2, -4), -6), ((4, 0, -4, -4), 8), ((-4, 0, 0, 4), -19), ((2, -2, -2, 1), -6))),  # drop first, drop inside, drop last, dual drop, full, tie
    (4, (), (((3, -1, 5, -2), -9), ((0, -1, -2, 0), -3), ((-1, -4, 5, 5), -12), ((-3, -2, 5, 0), 4), ((4, -1, 1, 0), -15), ((5, 4, 5, 5), -7), ((0, -3, -4, -2), -7))),  # drop inside, drop last, dual drop, full, tie
    (4, (), (((4, -4, -3, 5), -15), ((0, 3, 1, -3), 1), ((-4, 2, 2, 2), -1), ((5, 1, -4, 4), -28), ((-1, -2, -3, 4), -2), ((4, -4, 4, 0), 0), ((-3, 4, 0, -3), 6), ((4, -4, 2, 1), -2), ((1, 5, -1, 5), -32))),  # drop first, drop inside, drop last, dual drop, full, tie1
    (4, (), (((5, 5, -2, 5), -28), ((0, -1, -2, 1), -2), ((-3, 0, 0, -3), 14), ((-2, -4, 5, -3), 13), ((1, 5, 4, 5), -22))),  # drop last, dual drop, full
    (4, (), (((-1, -1, 0, 0), 3), ((-4, 2, 0, -2), 0), ((0, 0, 3, 2), 11), ((5, 4, -4, -4), -27), ((-4, -1, 0, 5), -2), ((-4, -4, 0, 0), 14))),  # drop last, dual drop, full, infeasible
    (4, (), (((2, 5, -1, -3), 21), ((-1, -4, 1, -2), -5), ((-2, 0, 3, 4), 0), ((-2, -1, -2, -3), 1), ((1, 3, 5, -4), 27), ((3, 2, 3, 0), 14), ((1, 1, -4, 0), -4), ((-4, -2, 0, -2), -1), ((4, 1, 0, 3), -5))),  # drop first, drop inside, drop last, dual drop, full, infeasible, readd, tie
    (4, (), (((5, -2, -1, -3), -2), ((-4, 1, 0, 5), -7), ((-4, 0, 0, 2), -1), ((-2, 0, 1, -1), 7), ((2, 1, 0, 3), -7), ((0, 5, 0, -1), 3))),  # drop last, dual drop, full, infeasible, tie
    (4, (), (((0, -3, -3, 3), -5), ((-1, 2, 4, 3), -3), ((-3, 0, 0, -4), 9), ((4, 5, -4, -3), -12), ((2, 3, 2, -3), 2), ((-1, -1, -2, 4), -6))),  # drop first, drop inside, dual drop, full, partial drop
    (4, (), (((-4, 5, 5, -4), 3), ((0, 0, -2, 0), -5), ((0, -4, 5, -1), -2), ((2, 0, -2, 2), 0), ((1, 5, 3, -1), 4), ((-4, -4, -3, 0), -9), ((-2, 4, 1, 4), 1))),  # drop first, drop inside, dual drop, full, infeasible, partial drop
    (4, (), (((-1, 3, -3, 0), 9), ((1, 5, -1, 3), -4), ((3, 3, 5, 3), -10), ((-2, -3, 2, -1), -7), ((2, 0, 0, 0), 1), ((-3, 0, 1, 2), -1))),  # drop first, drop inside, full, infeasible, partial drop
    (4, (), (((-1, 4, -3, -1), -6), ((2, 5, 3, 0), -20), ((-3, -3, -4, 0), 20), ((-4, -4, 3, 3), 12), ((2, -1, 2, 1), -5))),  # drop first, drop inside, full, partial drop
    (4, (), (((-3, -1, 2, 4), -6), ((0, -3, 4, 3), -8), ((-1, 4, 4, 0), -19), ((2, -1, 4, 1), -10), ((-1, -1, 3, 1), -8), ((2, 2, 0, 0), -3), ((-2, 0, 3, 5), -12))),  # drop inside, dual drop, full, partial drop
    (4, (), (((0, 0, -2, -1), -4), ((3, 4, 1, 1), -8), ((0, -2, 0, -1), -3), ((-2, 0, 5, 5), 13), ((-1, -3, -1, -3), 6), ((0, 0, -3, -1), -6), ((2, -3, -2, -3), -5))),  # drop inside, dual drop, full, infeasible, partial drop
    (4, (), (((2, -2, 4, 1), -4), ((5, 2, 2, 5), -14), ((5, -2, 5, -4), 24), ((0, 3, 0, -4), 0), ((-3, -1, -3, 5), -21), ((4, 0, -1, 0), -5))),  # drop inside, full, infeasible, partial drop
    (4, (), (((2, 4, 4, 3), -11), ((-1, 3, 0, -3), -8), ((0, -4, 3, 4), 7), ((-2, 1, 1, -1), -7), ((0, 0, -1, 3), -3))),  # drop first, drop inside, dual drop, full, partial drop, readd
    (4, (), (((-3, 0, -4, 0), -13), ((-2, -4, 1, -1), -14), ((2, -2, 5, -3), -6), ((3, -4, -4, 0), -20), ((1, 2, -1, 2), 10))),  # drop first, drop inside, dual drop, full, partial drop, readd
    (4, (), (((5, 5, 0, 3), -32), ((-1, 0, 0, 1), -1), ((2, 5, -4, 0), -22), ((-2, 5, 3, 5), -23), ((-4, 0, 5, -2), 19), ((1, -3, 2, 0), 9))),  # drop first, drop inside, dual drop, full, partial drop, readd
    (4, (), (((2, -4, 5, -2), -5), ((0, 1, -2, 1), -4), ((-4, 5, 0, 0), 24), ((-2, 4, 2, 3), 2), ((-1, 0, -1, 3), 1), ((1, -4, 1, -3), -3), ((5, 1, 0, 0), -13))),  # drop first, drop inside, dual drop, full, infeasible, partial drop, readd
    (4, (), (((3, 2, 0, 0), 13), ((-3, 1, -1, 0), -3), ((4, -4, 5, -1), 9), ((0, 0, -2, 1), -5), ((-3, -1, -1, -2), -3), ((-2, 5, 4, 4), -6), ((4, -1, -1, -2), 10), ((-4, 0, 5, 2), -4))),  # drop first, drop inside, dual drop, full, infeasible, partial drop, readd
    (4, (), (((3, -3, -2, 2), -14), ((-4, 0, 0, -1), -4), ((-4, 0, 4, -4), 9), ((2, 5, 5, -2), 20), ((1, 3, -3, 0), 6), ((2, 0, 1, 1), 0), ((3, 4, -2, -4), 7), ((2, -4, -3, 5), -16))),  # drop first, drop inside, dual drop, full, infeasible, partial drop, readd
    (4, (), (((-3, 5, 0, -4), 0), ((-4, -3, -4, 2), 22), ((-4, -4, 1, -4), 0), ((5, 2, 4, 1), -21), ((3, 1, 0, 1), -10))),  # drop first, drop inside, full, infeasible, partial drop, readd
    (4, (), (((0, 3, -4, 2), 2), ((2, -2, 0, -3), -5), ((-2, -3, 1, -1), 6), ((-3, 3, 1, 5), 3), ((4, 5, 2, 0), -7))),  # drop first, drop inside, full, infeasible, partial drop, readd
    (4, (), (((-1, 5, -3, 3), 8), ((0, -4, 0, -2), -6), ((-3, 2, 1, 4), 24), ((2, 0, 1, -4), -16), ((2, 4, 2, 1), -4))),  # drop first, drop inside, full, infeasible, partial drop, readd
    (4, (), (((2, -2, 0, 0), -6), ((5, 3, 5, 0), -9), ((-2, 0, 0, 2), 4), ((-3, 3, 4, 5), -6), ((-2, -2, -1, -4), 0))),  # drop first, drop inside, full, partial drop, readd
    (4, (), (((-1, 5, 5, 3), -3), ((1, 1, 1, -4), -1), ((1, 2, -1, 0), 6), ((0, -2, 2, -1), -10), ((-2, -3, 4, 4), -13), ((-4, 1, 0, 5), 11))),  # drop first, drop inside, full, partial drop, readd
    (4, (), (((4, 5, -2, 1), 12), ((-3, 3, 4, 2), 3), ((0, 2, -2, -4), 15), ((-4, 0, 4, 5), -12), ((5, 2, -2, 1), -6), ((0, -1, 2, 1), -9))),  # drop first, drop inside, full, partial drop, readd
    (4, (), (((-3, 0, 0, 2), 5), ((1, 5, -2, 3), -20), ((0, 2, 1, -4), 3), ((5, -3, 2, 1), -15), ((1, 0, 3, 3), -19), ((5, 2, 0, -4), -9))),  # drop inside, dual drop, full, partial drop, readd
    (4, (), (((-3, -2, -3, 2), 14), ((0, 3, 0, 0), -6), ((2, -4, 2, 5), 2), ((-4, 5, 5, 0), -24), ((1, -3, 4, -3), -4), ((0, 0, 4, 0), -3), ((1, -4, 0, 5), 9), ((-1, 5, 3, 5), -19))),  # drop inside, dual drop, full, partial drop, readd
    (4, (), (((-2, 0, 1, -1), -2), ((5, -1, -4, 0), 10), ((0, 3, -3, -2), 5), ((3, 5, -1, 3), 1), ((2, 0, 3, 3), 0), ((-3, -1, 3, 3), -11), ((4, 5, -1, 1), 7), ((-2, -1, 0, 2), -6), ((-2, 3, 3, 4), -12))),  # drop inside, dual drop, full, partial drop, readd
    (4, (), (((-2, -4, 5, 0), -10), ((0, 2, -1, 4), -5), ((2, -4, 3, 2), -24), ((-4, -2, -2, 1), -4), ((4, 4, 5, 0), -12), ((-4, 4, 2, 2), 11), ((3, 1, 2, -4), 1), ((0, -4, 0, -3), 3), ((1, 3, 0, -2), 9))),  # drop inside, dual drop, full, infeasible, partial drop, readd
    (4, (), (((-1, 0, 0, -4), 6), ((-3, -2, 0, -2), -3), ((-2, -1, -4, 4), -5), ((0, 2, 5, 2), 7), ((1, 4, 0, 5), -1), ((3, 3, 3, -2), 2), ((-1, 3, -1, 2), 2), ((0, 0, -1, 0), 3), ((3, -4, 1, 1), -8))),  # drop inside, dual drop, full, infeasible, partial drop, readd
    (4, (), (((3, -3, 5, 2), -7), ((5, 4, -1, 3), -4), ((-2, 3, -4, 3), -5), ((0, -4, -1, 4), -13), ((1, 2, -2, 2), -1), ((-1, 5, -4, 0), 12), ((-2, 0, 0, -3), 6))),  # drop inside, full, infeasible, partial drop, readd
    (4, (), (((5, 5, -1, -3), -8), ((-2, 0, 1, 0), 2), ((-1, 0, 0, -1), -3), ((0, -4, -3, 3), 8), ((3, -2, -2, 0), 7), ((3, -2, 3, 0), 8), ((0, 2, -4, 2), -9))),  # drop inside, full, infeasible, partial drop, readd
    (4, (), (((-3, 5, 0, 4), -13), ((1, -4, -4, -1), 24), ((1, -3, 1, -1), -3), ((-4, 0, 0, -4), 13), ((4, -4, 4, 5), -13), ((-1, 5, 5, 0), -28), ((2, 0, 4, 3), -17), ((-4, 1, -2, 3), 9))),  # drop inside, full, infeasible, partial drop, readd
    (4, (), (((2, 0, 4, 4), -6), ((5, 0, -2, 2), -5), ((-2, 4, -2, 3), -1), ((0, 0, 3, 0), -6), ((-4, -4, -1, 0), -5), ((5, 0, 5, -4), 1))),  # drop first, drop inside, dual drop, full, partial drop, tie
    (4, (), (((0, 3, -1, 2), 14), ((0, 1, -4, 0), -8), ((-3, -4, -3, 1), -15), ((5, -2, 0, -2), -15), ((-1, -1, 1, 5), 17), ((0, -1, -1, -3), -15), ((-3, 0, 0, 0), -4), ((-3, -1, 1, -3), -6), ((2, 0, 0, 2), 4))),  # drop first, drop inside, dual drop, full, infeasible, partial drop, tie
    (4, (), (((-1, 2, 3, 5), -5), ((4, 2, 0, -1), -9), ((0, -1, -1, 0), 5), ((-4, 5, -4, 2), -4), ((-1, 0, 4, 0), -9), ((3, -1, -4, -1), 5))),  # drop first, drop inside, full, infeasible, partial drop, tie
    (4, (), (((0, 0, 1, 4), -6), ((-2, 2, 1, -4), 7), ((0, 2, -2, -1), 9), ((-1, -3, 1, 0), -10), ((-1, -4, 0, -3), -10))),  # drop first, drop inside, full, partial drop, tie
    (4, (), (((-3, 3, -2, 0), -11), ((0, -2, 5, 3), 1), ((-1, -1, -1, -3), -4), ((-3, -3, 3, -4), -7), ((-1, 0, 0, 0), -2), ((2, -1, 5, 1), 0), ((0, -4, 3, 5), 11), ((-1, 2, 1, -1), -11))),  # drop inside, dual drop, full, partial drop, tie
    (4, (), (((5, 0, -3, -4), -8), ((0, 2, 5, -4), -15), ((1, -1, 1, 0), -7), ((1, 1, -4, -1), -3), ((1, 5, -4, 1), 22), ((-1, 5, 3, 4), 8), ((-4, 0, 0, 3), 15), ((-4, -3, -3, 2), 18))),  # drop inside, full, infeasible, partial drop, tie
    (4, (), (((0, -2, 1, -3), 0), ((-1, 1, 0, -1), -2), ((5, -3, -2, 0), -10), ((5, -3, 4, -1), -1), ((0, 4, -4, 3), -10))),  # drop first, drop inside, dual drop, full, partial drop, readd, tie
    (4, (), (((3, -3, 0, 0), 3), ((-3, 1, -4, 2), 4), ((2, 4, 0, -1), -1), ((3, 1, 4, 0), 5), ((-3, 3, 4, -4), -14), ((-3, -4, 4, -3), -11))),  # drop first, drop inside, dual drop, full, partial drop, readd, tie
    (4, (), (((5, -2, -1, 0), -4), ((-2, 4, 1, 2), 17), ((5, 1, -1, 5), 3), ((0, 0, 5, -3), -4), ((-2, 0, -1, -2), -5), ((-4, 1, -1, -2), -5), ((2, 5, -3, -3), -2), ((4, 1, 3, -2), 0))),  # drop first, drop inside, dual drop, full, partial drop, readd, tie
    (4, (), (((2, 4, -3, 4), -14), ((-4, -2, -4, 4), 15), ((5, 1, 1, 4), -2), ((0, 1, 0, -1), -6), ((-2, 5, 0, -2), -14), ((1, -2, -2, 2), 6), ((0, -4, 0, 3), 18), ((5, 1, -4, 4), -13))),  # drop first, drop inside, full, infeasible, partial drop, readd, tie
    (4, (), (((3, 4, 4, 2), -3), ((0, 0, -1, 0), -2), ((0, -3, 1, 0), 7), ((-2, 0, 3, -4), 1), ((0, -3, -1, 0), 6), ((-2, 5, -2, -2), -11), ((3, 1, 3, 0), 2), ((0, 5, -3, -1), -11), ((3, 2, 1, 5), -4))),  # drop first, drop inside, full, infeasible, partial drop, readd, tie
    (4, (), (((1, 3, 0, 0), -2), ((-4, 3, 1, -3), 10), ((4, -2, -3, 2), -7), ((-3, 4, 2, 3), 7), ((-4, 1, 1, 1), 10), ((-4, -2, -4, -2), -3), ((4, -1, 1, -1), -7), ((-2, -4, 5, -4), 5), ((-1, 1, 0, -4), 2))),  # drop first, drop inside, full, infeasible, partial drop, readd, tie
    (4, (), (((1, 0, -2, 4), 4), ((-2, 5, 2, -3), -4), ((0, -1, -2, 5), 5), ((3, -2, -3, 3), 2), ((3, 1, 0, -4), -4), ((-3, 0, 0, 1), 0), ((-3, 1, 2, -3), -1))),  # drop first, drop inside, full, partial drop, readd, tie
    (4, (), (((0, 0, 0, 3), 5), ((-2, 4, 0, 3), 0), ((4, -4, 4, 0), -5), ((5, 1, 5, 3), 23), ((-2, -3, 1, -2), -2), ((1, -1, 2, 4), 10), ((3, 3, 1, 0), -5), ((-1, 1, 1, 1), 2))),  # drop first, drop inside, full, partial drop, readd, tie
    (4, (), (((-2, 0, 4, 5), 7), ((0, 1, 0, -3), -3), ((-4, 4, 2, -2), -4), ((5, -4, 1, 0), 3), ((-2, 0, 0, 3), 7), ((-2, 1, -4, 3), 3), ((-4, 5, -2, 0), -4), ((-2, -1, 3, 1), 6))),  # drop first, drop inside, full, partial drop, readd, tie
    (4, (), (((1, 0, -4, 1), 12), ((-1, 0, 0, -1), 1), ((0, 0, 0, 4), -11), ((1, -2, 3, 1), -11), ((2, 1, -3, 0), 14), ((0, -4, 1, -4), 5), ((2, -1, -4, -2), 21), ((-1, 4, 2, 2), -9), ((2, 4, -4, -3), 30))),  # drop inside, dual drop, full, partial drop, readd, tie
    (4, (), (((-3, 2, -4, 0), -6), ((-2, 0, 1, 0), -6), ((-4, 0, 1, 0), -6), ((-2, 4, 5, 1), -16), ((0, 4, 1, -3), 4), ((1, -3, -1, 3), -1), ((2, -1, 1, 0), 8), ((3, -2, 4, -3), 18), ((0, 5, -4, 5), -16))),  # drop inside, dual drop, full, partial drop, readd, tie
    (4, (), (((1, -1, -3, 0), -8), ((-4, 0, 5, -2), 19), ((-3, -1, 5, 4), 1), ((-1, -4, 0, -2), -2), ((0, 2, -2, 1), -8), ((2, 2, 0, 0), -2), ((-3, 3, 0, 2), -5), ((-2, 3, 4, 1), 1), ((2, -3, -3, -2), -3))),  # drop inside, full, infeasible, partial drop, readd, tie
    (4, (), (((0, -2, 0, 2), -2), ((0, 0, -4, 0), -11), ((-1, 0, -1, 0), -1), ((5, 1, 3, 0), 2), ((-3, 5, -3, -4), -11), ((1, 4, 2, 0), -7))),  # drop first, drop inside, dual drop, full, partial drop, tie, two drops
    (4, (), (((1, 3, 3, -2), -6), ((-1, -2, 4, -2), -8), ((4, 4, -2, -2), 5), ((2, 0, -3, 0), 6), ((-1, -1, 3, 0), -6), ((-4, 4, -3, 4), 7), ((-3, 5, 5, 3), -8), ((5, 4, 1, 0), 0))),  # drop first, drop inside, full, partial drop, tie, two drops
    (4, (), (((-3, 5, -4, 1), -4), ((-2, 3, 5, -4), -12), ((-1, 5, 4, 3), 2), ((-4, 0, 4, 5), -25), ((-2, 1, 1, 0), -5), ((2, 1, -1, 4), -12), ((5, 2, 1, 4), -21), ((1, -3, 2, -4), 16), ((-3, 5, 5, -1), -25))),  # drop inside, dual drop, full, partial drop, tie, two drops
    (4, (), (((-2, -3, 2, -2), -6), ((2, 3, -4, 5), 12), ((-1, 0, 1, -2), -4), ((5, 3, 0, 5), 11), ((1, 0, 0, 2), 3), ((-1, 4, 1, -3), -2), ((2, 3, 0, 0), 5), ((5, -1, 2, 3), 0))),  # drop first, drop inside, full, partial drop, readd, tie, two drops
    (4, (), (((-3, 2, 2, 0), -7), ((1, -2, 5, -4), -19), ((4, 1, -2, 0), 2), ((-3, 1, -4, -4), 5), ((2, 5, 3, 3), -6), ((3, 0, 1, -1), -7), ((-1, 1, -1, 2), 6), ((-2, 2, -2, -4), -5), ((2, 3, -1, -1), -6))),  # drop inside, dual drop, full, partial drop, readd, tie, two drops
    (4, (), (((-3, -1, 2, 0), -2), ((5, 1, -4, 0), 7), ((-3, 3, -1, 4), -16), ((5, 3, 0, -4), 17), ((-2, -2, 0, -1), -1), ((-2, 1, -1, 2), -11), ((-2, 1, 0, 0), -7))),  # drop first, drop inside, full, partial drop, tie1
    (4, (), (((2, -4, 5, -1), -9), ((3, 5, -4, -3), 16), ((-3, 0, -4, 0), -2), ((1, 3, 0, -2), 4), ((0, 5, 5, -1), 4), ((3, 0, -3, -3), 4), ((5, 2, -1, -2), 11), ((1, 1, 3, 2), 7), ((-1, 0, 0, 0), -2))),  # drop inside, dual drop, full, partial drop, tie1, two drops
    (4, (), (((-1, 2, 2, -1), 3), ((4, -2, 3, 4), -7), ((0, -1, 0, 4), -10), ((1, 5, -4, 1), -16), ((1, 0, -2, 2), -9))),  # drop first, drop inside, dual drop, full, partial drop, two drops
    (4, (), (((5, -3, 1, -1), -20), ((0, 0, 5, -2), -9), ((0, 4, -1, -1), 7), ((-4, -3, 5, 2), 4), ((-3, 3, -1, 4), 2), ((1, -2, -3, 0), -1), ((0, 3, 2, -2), 0), ((4, 0, -1, -3), -15))),  # drop first, drop inside, dual drop, full, infeasible, partial drop, two drops
    (4, (), (((2, -3, -4, 0), 11), ((1, 0, -2, -4), -5), ((-3, -2, 4, 4), -19), ((-3, 0, 5, -3), -28), ((4, 5, 3, -3), 14), ((-2, -4, -1, -2), -18), ((0, 2, -3, 5), 26), ((0, -4, 4, 1), -20))),  # drop first, drop inside, full, infeasible, partial drop, two drops
    (4, (), (((2, 1, -1, -4), -7), ((-1, 4, -4, 0), -1), ((2, -1, -2, 0), -9), ((4, -1, -4, -2), -17), ((-4, -4, -2, 2), 2), ((-1, -4, 3, -4), 1), ((5, 0, 1, -1), -9), ((4, 5, 3, -2), 3))),  # drop first, drop inside, full, partial drop, two drops
    (4, (), (((-1, 3, 5, 1), -15), ((2, 2, -3, 1), -3), ((2, 2, 1, 3), -13), ((-4, 0, -2, -2), 8), ((-1, -1, -3, 5), -4))),  # drop inside, dual drop, full, partial drop, two drops
    (4, (), (((3, 0, 2, -2), 2), ((-3, 5, 0, -1), 1), ((2, -4, 0, 4), 10), ((-4, 3, 2, 2), 7), ((-2, -2, 0, 2), -3), ((-4, 0, -3, -2), -16), ((0, 0, 4, -4), -8), ((0, 1, -4, 4), 11), ((-2, 4, -2, 4), 14))),  # drop inside, dual drop, full, infeasible, partial drop, two drops
    (4, (), (((-4, 3, 0, -3), -2), ((0, -4, 5, -1), 5), ((-1, -2, -1, -3), -10), ((3, 5, -4, 2), -1), ((-2, -2, -4, 1), -7), ((5, -1, -3, -4), -13))),  # drop first, drop inside, dual drop, full, partial drop, readd, two drops
    (4, (), (((3, 0, -4, -4), 9), ((-2, 1, -1, -2), 0), ((-2, 4, 4, 1), -16), ((0, 2, 1, 2), -9), ((4, -2, 4, 3), -2), ((3, -1, 0, 4), -1))),  # drop first, drop inside, dual drop, full, partial drop, readd, two drops
    (4, (), (((0, 1, 1, 0), -3), ((0, -1, 0, 1), 3), ((-4, 3, 0, 1), -17), ((-1, 3, -1, -1), -6), ((2, -1, 1, 2), 0), ((3, 3, -1, -4), 10), ((-1, -4, 2, 1), 2))),  # drop first, drop inside, dual drop, full, partial drop, readd, two drops
    (4, (), (((0, -1, 4, 2), 0), ((4, -4, -3, 1), -5), ((-3, 4, -1, 5), -14), ((2, 0, 2, 5), -13), ((5, 1, 3, 0), 3), ((-2, 1, -4, -4), -4))),  # drop first, drop inside, full, infeasible, partial drop, readd, two drops
    (4, (), (((2, -4, 4, -4), -6), ((3, 4, -3, 2), 2), ((-3, 5, -3, 0), 14), ((0, 5, 3, 1), -5), ((5, -1, 0, 0), -5), ((-3, -1, -4, 3), 10), ((-4, 2, 3, -2), -3))),  # drop first, drop inside, full, infeasible, partial drop, readd, two drops
    (4, (), (((-3, -3, 1, -1), 3), ((1, 1, 2, 2), -8), ((4, -4, -4, 2), -10), ((-1, -4, 5, 5), -24), ((0, 3, 2, -3), 3), ((1, -2, 0, 2), -9), ((5, -2, 5, 1), -34))),  # drop first, drop inside, full, partial drop, readd, two drops
    (4, (), (((0, 0, 0, -2), -1), ((4, -4, -3, 2), -5), ((1, -2, 1, 3), 1), ((2, -4, 2, 4), -4), ((-4, 0, 0, 0), 1), ((-1, 2, -2, 4), 9), ((-1, 1, -1, -4), -2), ((-2, -3, 4, -1), -7))),  # drop first, drop inside, full, partial drop, readd, two drops
    (4, (), (((0, 0, -3, 4), 2), ((3, 1, 2, -1), 7), ((-2, 0, -2, -2), -6), ((4, 0, -3, 0), 3), ((1, 3, 0, 0), 1), ((-2, 4, 2, 0), -4), ((0, 1, 0, -2), -5), ((0, 0, 5, 0), 12), ((-1, -1, -1, 0), -2))),  # drop first, drop inside, full, partial drop, readd, two drops
    (4, (), (((3, 0, 0, 0), 3), ((-4, 1, 1, -2), -11), ((1, -4, 3, 1), 5), ((5, 4, -3, -4), -3), ((1, 1, 0, 5), 9))),  # drop inside, dual drop, full, partial drop, readd, two drops
    (4, (), (((0, 2, 0, -1), 10), ((-4, -2, -3, 5), -8), ((1, -1, -3, 3), -10), ((5, 4, -3, 3), -3), ((-1, -2, 0, -1), -2), ((-1, -3, 2, -1), -3), ((0, -4, 3, 2), -16), ((5, 3, 5, -2), 3), ((-4, 0, 5, 1), 7))),  # drop inside, dual drop, full, partial drop, readd, two drops
    (4, (), (((-3, 2, -1, 5), -3), ((4, 1, -4, 4), 24), ((3, -3, 2, -3), -1), ((-3, 5, -2, -4), -15), ((2, -3, 2, 0), 5), ((-3, -3, 2, 0), -6), ((0, 0, 2, 1), -1), ((2, -2, 4, 1), 1), ((1, 0, -1, 0), 5))),  # drop inside, dual drop, full, infeasible, partial drop, readd, two drops
    (4, (), (((-3, -3, 1, 5), -10), ((-1, 1, -3, 1), -4), ((-1, -1, 0, -1), -7), ((5, 4, 2, 2), 33), ((-4, 3, 0, -4), -7), ((3, 4, 0, 1), 24), ((-1, 1, 5, 0), 7), ((0, 0, 3, 0), 3), ((-1, -4, -1, -3), -19))),  # drop inside, dual drop, full, infeasible, partial drop, readd, two drops
    (4, (), (((-4, 2, 4, -4), -11), ((0, 3, -2, -4), -5), ((-2, -2, -1, 5), -10), ((-3, 0, 0, 5), -16), ((1, -4, 4, 0), -10))),  # drop inside, full, partial drop
    (4, (), (((-1, -4, 2, -3), -9), ((5, 3, 5, -1), -22), ((-3, -2, 2, 3), -5), ((4, 1, 0, -1), -12), ((0, 2, 4, -4), -14), ((-3, 4, 0, 0), 13))),  # drop first, drop inside, drop last, dual drop, full, partial drop
    (4, (), (((-3, 4, 1, 0), 6), ((1, 3, -4, 0), 19), ((1, 4, 0, 3), -1), ((0, -1, 0, 0), -1), ((-1, -3, 2, -2), -18), ((4, -2, 1, 3), 2), ((2, 0, 4, -4), -23), ((0, 2, 5, -3), -18))),  # drop first, drop inside, drop last, dual drop, full, infeasible, partial drop
    (4, (), (((3, 4, 1, 5), -9), ((1, -1, 4, -4), -4), ((3, 4, -1, 5), -6), ((-4, -1, 5, 2), -8), ((1, 3, -3, -2), 8), ((3, -1, -2, -4), 6), ((0, -3, 0, -3), 1), ((-1, 0, -2, 3), 4), ((4, 3, -4, 1), 4))),  # drop first, drop inside, drop last, full, infeasible, partial drop
    (4, (), (((-3, 4, -3, 0), -18), ((1, 0, -4, 1), -3), ((-3, 2, -1, -1), -14), ((-2, 0, 3, -1), 0), ((4, -4, 1, -3), 14), ((1, -1, -1, 2), 3))),  # drop first, drop inside, drop last, full, partial drop
    (4, (), (((3, -1, 0, 3), 3), ((4, -4, 0, -3), 12), ((-2, 3, 0, -1), -2), ((0, -4, -4, -3), -3), ((0, 4, 0, 0), -4), ((-1, -3, -3, -3), -4), ((-2, 3, 0, 5), -10))),  # drop inside, drop last, dual drop, full, partial drop
    (4, (), (((4, 0, -2, 1), -6), ((5, -1, -1, -2), 0), ((-4, 3, -2, 5), -3), ((-4, 2, 0, 0), 4), ((0, -1, 3, 3), -4), ((-4, 2, 0, -4), 12), ((5, -1, 0, 4), -13), ((-2, -4, -1, 1), -4))),  # drop inside, drop last, dual drop, full, infeasible, partial drop
    (4, (), (((5, 0, 0, -4), -15), ((-2, 4, 4, 5), 0), ((0, -1, 5, 1), -2), ((0, -3, 4, -2), -1), ((-3, -2, 0, 1), 13), ((4, 1, -3, 4), -8), ((0, 0, -2, 0), -2), ((3, 5, 5, 1), -18), ((4, 1, 0, -2), -13))),  # drop inside, drop last, full, infeasible, partial drop
    (4, (), (((0, 3, -4, 5), -10), ((2, 0, -4, 0), -12), ((0, -1, -1, -2), -4), ((5, 3, -4, 5), -14), ((0, 4, 5, 1), 7), ((4, 0, 0, 4), 6))),  # drop first, drop inside, drop last, dual drop, full, partial drop, readd
    (4, (), (((0, -4, 0, 3), -8), ((1, -2, 0, -2), -3), ((1, -2, 3, 3), -6), ((0, 0, -4, 2), -7), ((5, 1, -4, -3), -5), ((3, -4, 1, 3), -15))),  # drop first, drop inside, drop last, dual drop, full, partial drop, readd
    (4, (), (((-2, 2, -4, -3), -2), ((0, -3, 2, -1), 4), ((-2, -3, 0, 3), 16), ((2, 0, -1, -3), 1), ((1, 0, 1, 2), -4), ((5, 3, 1, 2), -7), ((-4, -4, -1, -2), 11), ((3, 3, 0, 1), -2))),  # drop first, drop inside, drop last, dual drop, full, partial drop, readd
    (4, (), (((-4, 2, 1, -2), -3), ((5, 2, 0, 2), -10), ((0, 2, 0, -2), -3), ((4, 4, 0, 4), -24), ((2, 1, 3, 4), -23), ((5, 4, 5, 0), -25), ((0, -4, -3, 0), 21))),  # drop first, drop inside, drop last, full, infeasible, partial drop, readd
    (4, (), (((0, 2, -4, -3), -5), ((-2, -4, 4, 4), 10), ((4, 0, 1, -4), -4), ((4, 3, 3, 0), -3), ((-3, 0, 0, 4), -2), ((-2, 1, -2, 4), -7), ((3, -1, 3, 0), 2))),  # drop first, drop inside, drop last, full, infeasible, partial drop, readd
    (4, (), (((-1, 0, -4, 1), 9), ((5, -3, -4, 0), 12), ((-3, 0, 3, -2), -2), ((0, 0, 5, 0), -8), ((4, 5, -4, -4), 8), ((1, 5, -1, 5), -6), ((-3, -2, 4, -3), -5), ((-4, 3, -1, 0), -3))),  # drop first, drop inside, drop last, full, infeasible, partial drop, readd
    (4, (), (((3, -2, 3, -3), -13), ((-2, 5, 1, 0), 11), ((5, 5, -2, 2), -8), ((0, -3, 4, -4), -7), ((2, -4, -1, -1), -9), ((-1, -2, 1, 3), 6), ((1, -4, -3, 3), -2))),  # drop first, drop inside, drop last, full, partial drop, readd
    (4, (), (((3, 0, 0, -1), 5), ((-2, -2, 0, 2), -6), ((0, -2, 1, 3), -7), ((-4, -1, 3, -1), -3), ((-3, 3, 4, 4), -6), ((4, 0, -2, 5), -5), ((-4, -3, 2, -3), -1), ((-2, 5, -3, 0), 5))),  # drop first, drop inside, drop last, full, partial drop, readd
    (4, (), (((-1, 3, -1, -4), 3), ((-2, 5, 0, 5), -21), ((4, -1, 4, 5), -18), ((0, 4, -1, 0), -9), ((5, 2, 0, -1), -8), ((-3, 3, -1, 2), -8), ((0, 0, 3, 0), -4), ((0, 1, 1, 4), -12))),  # drop first, drop inside, drop last, full, partial drop, readd
    (4, (), (((1, -2, 0, 1), 8), ((0, 4, 5, -4), -13), ((2, -3, 2, 0), 14), ((-4, 5, -2, 2), -27), ((-3, 4, 4, 0), -24), ((0, 0, -4, -4), 9), ((-4, 5, -3, -1), -23))),  # drop inside, drop last, dual drop, full, partial drop, readd
    (4, (), (((-4, 5, -4, 4), -17), ((1, 0, -3, 3), -6), ((5, 0, -3, 0), 1), ((-2, 0, 5, -3), 6), ((0, 1, 2, 0), -1), ((3, 2, -4, 5), -13), ((0, 5, 5, -3), -3))),  # drop inside, drop last, dual drop, full, partial drop, readd
    (4, (), (((-2, -3, 5, 0), 3), ((-2, 1, 1, -2), 9), ((-1, -1, 5, -3), 20), ((-4, -3, 3, 5), -9), ((5, -3, 2, -2), -3), ((3, 2, 1, 1), 0), ((-2, 5, -4, 4), -18))),  # drop inside, drop last, dual drop, full, partial drop, readd
    (4, (), (((2, 5, 4, -2), -9), ((-1, 5, 1, 2), -11), ((1, -3, 0, 4), 9), ((2, -1, 3, 1), 4), ((-2, -3, -3, -4), 2), ((1, 2, 0, 4), 0), ((5, 3, -1, -3), 6))),  # drop inside, drop last, dual drop, full, infeasible, partial drop, readd
    (4, (), (((-4, -4, 5, -1), 0), ((0, 5, -1, 0), -5), ((-1, -1, 3, 1), -2), ((5, -1, 0, -3), -15), ((-2, 5, 0, -1), -3), ((-2, 0, 0, 3), 13))),  # drop inside, drop last, full, partial drop, readd
    (4, (), (((5, 2, -4, 4), -29), ((-3, -2, -3, -1), 17), ((3, 1, 3, 3), -19), ((-3, -1, 5, 4), -1), ((3, 0, 2, -4), 3), ((-2, 0, -2, 5), -9), ((4, 0, 4, 0), -10))),  # drop inside, drop last, full, partial drop, readd
    (4, (), (((2, 5, 5, 2), 1), ((3, -2, 0, 0), -11), ((-2, -1, 2, 0), 2), ((4, 0, -4, -2), -8), ((-2, 3, 5, -2), -2), ((-2, 4, 3, -2), 2), ((-3, 3, 1, 0), 14))),  # drop inside, drop last, full, partial drop, readd
    (4, (), (((-4, -4, 2, 2), -8), ((5, 2, -4, -4), 0), ((0, -2, -4, -1), -8), ((4, 1, -3, 3), 9), ((0, -2, 4, 4), 3), ((-2, -2, 5, -2), -8), ((-1, 1, 0, -3), 2))),  # drop first, drop inside, drop last, dual drop, full, partial drop, tie
    (4, (), (((-3, -1, 1, 5), 8), ((-3, -1, 5, -2), 19), ((-4, 0, 5, -2), 19), ((-2, 5, 5, -4), 11), ((0, -1, -2, 1), -4), ((3, 0, -1, -3), -6), ((3, -1, 1, 0), -6), ((2, -3, -2, 3), -6))),  # drop first, drop inside, drop last, full, infeasible, partial drop, tie
    (4, (), (((2, 0, 1, 0), -2), ((-4, 0, -3, 5), -18), ((5, 5, 1, 5), -2), ((-1, -1, -4, -2), 1), ((0, -4, -2, 4), -22), ((5, 0, 1, 5), -12), ((-2, -2, 0, 4), -15), ((-1, 0, 0, 4), -12), ((-3, 1, -4, 2), -8))),  # drop first, drop inside, drop last, full, partial drop, tie
    (4, (), (((-2, -1, -4, 5), -14), ((0, 3, 1, 2), -9), ((-1, 2, 0, -1), 3), ((3, 1, 5, 5), -14), ((1, 1, 5, -4), 11), ((4, 0, 1, 0), 0), ((-4, 5, 5, -4), 8), ((-3, 0, -2, 0), 1))),  # drop inside, drop last, dual drop, full, partial drop, tie
    (4, (), (((0, 0, -1, 0), 4), ((0, -2, 0, 2), -6), ((5, 2, 4, -4), -4), ((1, 0, 0, -4), -4), ((-2, 5, 1, 0), 14), ((-2, -4, -4, 5), -6), ((3, 5, 5, -4), 2), ((-1, 1, 1, 0), 3))),  # drop inside, drop last, full, infeasible, partial drop, readd, tie
    (4, (), (((2, 0, 0, -3), -6), ((-1, 2, 3, -1), -17), ((-1, -2, -1, -1), 5), ((0, -4, -3, 0), 22), ((-4, 2, 0, -1), -11), ((0, -4, -3, -1), 19), ((5, 4, 1, -3), -17), ((-3, 0, 1, 3), 5), ((2, 0, -3, -3), 3))),  # drop inside, drop last, full, partial drop, readd, tie
    (4, (), (((-4, 4, 2, 1), -8), ((-4, 0, 1, -4), -8), ((4, -2, -3, -3), 2), ((3, 0, -3, 2), 0), ((5, 0, 4, 3), 25), ((-4, -3, 0, -2), -2))),  # drop inside, drop last, dual drop, full, partial drop, tie, two drops
    (4, (), (((0, 5, 1, 2), 4), ((4, 5, -1, -2), -11), ((1, 0, 0, 1), -3), ((-2, 3, 5, -4), -18), ((2, -4, 5, 5), 2), ((4, 0, 5, 0), -18), ((-2, -3, 0, 5), 19), ((0, -3, 1, 0), 0), ((5, 0, 0, 5), 7))),  # drop inside, drop last, full, partial drop, readd, tie, two drops
    (4, (), (((1, -2, -1, -1), -3), ((-1, 0, 5, 4), 6), ((-3, 5, 2, 5), 11), ((2, 1, -4, 0), -3), ((1, -2, -2, 3), 1), ((0, -1, 1, -1), 1), ((0, 5, 1, 1), 1), ((2, 3, 5, 0), -4), ((2, -2, 0, 0), -4))),  # drop inside, drop last, full, partial drop, tie
    (4, (), (((-3, 5, 0, -1), -10), ((0, 1, 0, 5), -16), ((4, 5, 1, 0), -8), ((-3, 2, 0, 5), -22), ((3, -4, 2, 3), -4), ((-4, 3, 1, 0), -11))),  # drop inside, drop last, dual drop, full, partial drop, tie1, two drops
    (4, (), (((2, 0, 2, -1), -2), ((-4, 0, 1, 3), -3), ((5, 3, -3, 1), -4), ((1, 0, -3, 2), -3), ((5, -1, -3, 0), -3))),  # drop first, drop inside, drop last, dual drop, full, partial drop, two drops
    (4, (), (((-1, -2, -3, 0), -11), ((4, -1, 4, 3), -4), ((2, 1, -2, 0), -3), ((-2, 2, 3, 0), 14), ((2, -4, -4, 0), -21), ((1, 0, 0, 1), -3), ((-4, 3, 4, 4), 15), ((0, -3, 0, -4), 1))),  # drop first, drop inside, drop last, full, partial drop, two drops
    (4, (), (((1, -2, 3, -4), -5), ((-2, -4, 0, 1), -2), ((-2, 0, -1, 1), 1), ((5, 0, 2, 5), -1), ((5, 5, -4, -3), 11), ((-3, 3, 2, 2), 1))),  # drop inside, drop last, dual drop, full, partial drop, two drops
    (4, (), (((0, 5, -3, 2), 17), ((-3, -4, 4, 0), -15), ((4, 4, -4, 0), 22), ((-1, -2, 1, 0), -7), ((-1, -2, -4, -3), -19), ((0, 5, 5, 3), 3), ((-4, -3, 0, 4), -11))),  # drop inside, drop last, dual drop, full, infeasible, partial drop, two drops
    (4, (), (((5, 4, 4, 5), -17), ((-3, 3, 0, 0), 4), ((1, -3, -1, 1), 6), ((4, -3, 3, -3), -13), ((2, 5, 1, -4), -13), ((0, 1, 1, 0), -5))),  # drop first, drop inside, drop last, full, partial drop, readd, two drops
    (4, (), (((5, 0, 1, 0), -10), ((2, -3, -2, 4), 1), ((3, 5, -3, 0), 3), ((-1, -3, 2, 0), -7), ((-1, -1, 2, 4), 12), ((-4, 0, 1, 1), 12), ((0, -4, 5, -4), -23))),  # drop first, drop inside, drop last, full, partial drop, readd, two drops
    (4, (), (((1, -1, 3, -2), -3), ((3, 1, -3, 1), 9), ((4, 0, -1, -2), 8), ((1, -1, -1, 3), 4), ((-3, -4, 2, -3), -1), ((3, 4, 3, -3), -7), ((-3, -2, -1, -3), 3), ((-2, 4, 1, -1), -6), ((3, 3, 1, 3), 0))),  # drop first, drop inside, drop last, full, partial drop, readd, two drops
    (4, (), (((-3, 4, 4, 5), 8), ((-3, 3, -4, 4), -8), ((0, 5, 4, 0), 5), ((1, -3, 1, -2), 1), ((0, -1, -3, -3), -10))),  # drop inside, drop last, dual drop, full, partial drop, readd, two drops
    (4, (), (((3, 3, -4, 5), -13), ((1, -1, 0, -1), 1), ((0, -2, 0, 1), 7), ((4, 2, 0, -3), -11), ((-4, 3, -4, 4), -9), ((0, 4, 5, 5), 3), ((-2, 4, -3, -4), -18))),  # drop inside, drop last, dual drop, full, partial drop, readd, two drops
    (4, (), (((-3, 0, 0, 1), -1), ((1, 2, 1, -3), -2), ((0, 2, 0, 4), -8), ((-3, 3, 5, 3), -5), ((2, 0, 4, 5), 0), ((3, -2, 3, 1), 10), ((3, 4, -3, 0), -14), ((-3, 0, -2, -1), -1), ((1, 3, 5, 3), -5))),  # drop inside, drop last, dual drop, full, partial drop, readd, two drops
    (4, (), (((-3, -3, 1, -4), -6), ((3, 2, 0, 1), 0), ((4, 4, -3, 4), 2), ((-3, -1, 2, -1), 8), ((-2, 4, 0, 5), 17), ((3, -1, 0, -2), -7), ((-1, -3, -3, -2), -14))),  # drop inside, drop last, full, partial drop, two drops
    (4, (), (((0, 0, 5, -4), -3), ((1, 2, 0, 1), -3), ((3, -4, -4, 0), -16), ((0, 0, 1, 3), 1), ((3, 0, 0, 4), -8), ((4, 4, -4, 1), 4), ((0, -1, 3, -3), -6))),  # drop inside, drop last, full, partial drop
    (4, (), (((0, 4, 0, -3), -9), ((4, -4, 5, 2), 16), ((0, 0, -4, 0), -4), ((2, -4, 0, 1), -3), ((-4, 4, -2, 4), 1), ((4, 0, 5, -3), 9), ((-1, -2, -1, 3), 2))),  # drop last, dual drop, full, partial drop
    (4, (), (((3, -4, -4, 0), 5), ((5, 3, -2, 3), -11), ((-3, 0, 1, 2), -4), ((5, 5, 4, -2), -2), ((3, 0, 5, -1), 16), ((1, 4, -3, 3), -19), ((-4, 0, 5, 0), 6), ((-1, 3, -1, -3), -2))),  # drop first, drop inside, drop last, dual drop, full, infeasible, partial drop, readd
    (4, (), (((-2, 5, -4, -4), -6), ((-4, 1, 0, 2), 10), ((0, -3, -2, 0), -9), ((-4, 4, 5, 2), 28), ((-4, -3, -4, 4), -7), ((-3, 1, 5, -4), 24), ((2, 5, 2, 0), 7), ((5, -4, 5, 1), 3))),  # drop first, drop inside, drop last, dual drop, full, infeasible, partial drop, readd
    (4, (), (((0, -3, -2, 0), 6), ((-3, 5, -1, -4), -12), ((-1, 1, -4, -1), -11), ((-3, 5, 1, 0), 0), ((2, 0, -1, 2), -1), ((-4, 0, 5, 1), -3), ((3, 4, 4, 1), -2), ((3, -2, -1, -2), 20), ((4, -3, -4, 0), 15))),  # drop first, drop inside, drop last, dual drop, full, infeasible, partial drop, readd
    (4, (), (((4, 0, 5, -4), 20), ((0, 2, 2, -2), 12), ((-4, -4, -3, -4), 10), ((4, 2, 1, 5), -17), ((5, -4, 0, -1), 2), ((-4, -1, -1, -3), 3), ((-4, -2, 2, 5), -5), ((-4, -3, -1, 5), -12))),  # drop last, dual drop, full, infeasible, partial drop
    (4, (), (((-1, 0, -3, 1), -5), ((1, 5, -4, 5), -6), ((5, 0, 1, 0), 6), ((-3, 1, -2, -2), -1), ((0, -3, 5, -3), 3), ((2, 1, -4, 1), -3), ((1, -1, 3, 0), 5), ((-2, 0, 1, -2), 1))),  # drop first, drop last, full, infeasible, partial drop, readd
    (4, (), (((0, 0, -3, -3), 13), ((3, 0, -2, 3), 2), ((0, 0, -3, 3), 0), ((-2, 1, 5, 2), 3), ((-1, 0, 4, -3), 4), ((-4, -2, 3, -3), -5), ((0, 1, 1, -1), -4), ((-1, 1, 0, -4), 11), ((2, -2, 0, 0), 7))),  # drop first, drop last, full, infeasible, partial drop, readd
    (4, (), (((1, 1, 0, 3), -9), ((0, -1, -1, -2), 4), ((-3, 3, -3, -2), 27), ((-2, 1, 5, 3), -3), ((-3, -3, -4, -3), 13), ((2, 3, 2, 4), -11))),  # drop first, drop last, full, partial drop, readd
    (4, (), (((-3, 0, -4, 2), -13), ((1, 0, 0, -3), -1), ((4, -3, 0, 0), 7), ((1, 0, 0, -1), 2), ((0, 0, 5, 3), 20), ((5, 1, -2, 1), 0), ((-4, 5, -3, 4), -14), ((0, 3, 5, 5), 17))),  # drop first, drop last, full, partial drop, readd
    (4, (), (((-3, -4, -4, -1), 5), ((0, 0, 1, -1), 5), ((3, 2, -2, 4), -21), ((2, -4, 4, -3), 8), ((4, 4, -4, 2), -22), ((0, -1, 3, 4), -2), ((-1, -3, -4, 1), -5), ((4, 2, 3, 4), -14))),  # drop first, drop last, full, partial drop, readd
    (4, (), (((-3, 1, 5, 0), 0), ((-2, 2, 3, -3), -7), ((5, 2, 2, -4), -22), ((2, -1, -2, 3), 4), ((0, 1, 0, 0), -2))),  # drop last, dual drop, full, partial drop, readd
    (4, (), (((3, 5, -2, -1), 18), ((3, 0, -2, 3), 13), ((5, -3, 5, 2), 21), ((4, -4, 5, 3), 16), ((-1, -3, 2, -1), -10), ((-3, -4, -4, -1), -31), ((-1, 0, 0, -1), -4), ((-1, 2, -1, 0), 3), ((-4, -4, 5, 0), -12))),  # drop last, dual drop, full, partial drop, readd
    (4, (), (((3, 2, 4, 0), 12), ((5, -2, 3, 5), 0), ((0, 1, -4, 2), -7), ((-4, 4, -3, -1), 8), ((2, -3, 5, 0), 7), ((2, 0, 4, 2), 10), ((0, -3, 3, -3), -4))),  # drop last, full, infeasible, partial drop, readd
    (4, (), (((-1, 1, -2, 2), -3), ((0, 1, 4, -3), -10), ((4, 5, -4, 4), 5), ((-4, 4, 1, -3), 12), ((0, -3, 0, 4), 2), ((2, -1, 3, -1), -14), ((0, 0, 0, -1), 1))),  # drop last, full, infeasible, partial drop, readd
    (4, (), (((2, 0, -2, -3), -11), ((3, 5, 4, 4), -2), ((0, -2, -1, 5), 0), ((0, 0, -2, 0), -5), ((-4, -2, 2, 4), 15), ((3, 4, 2, 3), 13), ((-4, 2, 1, -3), 12))),  # drop last, full, infeasible, partial drop, readd
    (4, (), (((2, 0, -4, -1), -4), ((5, 2, 0, 0), 1), ((-4, -2, 0, -1), -6), ((-1, 2, 1, 3), 9), ((-3, 3, 5, 0), 14))),  # drop last, full, partial drop, readd
    (4, (), (((1, -3, 0, 4), -11), ((5, 0, -1, 0), 0), ((2, 0, 5, -3), -6), ((2, -1, -4, 0), 3), ((-1, 3, 1, -3), 0))),  # drop last, full, partial drop, readd
    (4, (), (((-3, 4, 2, -2), -1), ((0, 0, 1, 0), 0), ((-1, 0, -2, 3), -9), ((0, 4, 2, 0), -3), ((0, 3, -4, 5), -18))),  # drop last, full, partial drop, readd
    (4, (), (((5, -3, 3, 0), -4), ((2, -1, 3, -1), -5), ((0, 5, -2, -3), -20), ((5, 0, 3, 3), 3), ((0, 0, -1, 4), 14), ((-4, 2, -2, 1), 5), ((5, 0, 3, -4), -20), ((2, -3, -4, 1), 14))),  # drop first, drop inside, drop last, dual drop, full, partial drop, readd, tie
    (4, (), (((-3, -2, 1, -2), 11), ((-4, 1, 0, 0), 4), ((-3, 0, 5, 0), 13), ((0, 0, -1, 5), -6), ((5, -1, 2, 3), -8), ((0, -4, -2, -1), 0), ((0, 5, -4, -1), -4), ((2, -3, 0, 2), -8), ((2, -4, 2, 0), 3))),  # drop first, drop inside, drop last, dual drop, full, partial drop, readd, tie
    (4, (), (((1, -3, 2, 1), -1), ((-2, 5, -4, 1), -9), ((0, -1, 0, -4), 12), ((4, 4, 0, 0), 16), ((-2, 0, 3, 5), -9), ((4, 2, -3, 1), 1), ((-2, -3, 1, -4), 5), ((0, 1, -4, -4), 4))),  # drop last, dual drop, full, partial drop, tie
    (4, (), (((-3, 3, -3, 2), -5), ((-4, 0, -3, 1), -5), ((1, 3, -3, 5), 2), ((4, 4, 5, -3), 1), ((5, -3, 1, -1), 3), ((5, 0, 5, 1), 13), ((4, -1, 4, -1), 9))),  # drop first, drop inside, drop last, dual drop, full, infeasible, partial drop, tie
    (4, (), (((4, -3, 3, -3), 1), ((-3, 0, 5, 3), -1), ((1, -2, 1, 3), -6), ((5, 3, 0, 1), 12), ((0, 1, -3, 0), -6), ((0, 5, 0, -3), 21), ((2, -2, 3, -3), 12))),  # drop first, drop inside, drop last, dual drop, full, infeasible, partial drop, readd, tie
    (4, (), (((2, 1, 0, 1), -5), ((-2, -1, 0, -2), 3), ((-1, -3, -1, 3), 24), ((5, -1, 2, 3), -7), ((3, 3, 0, 4), -5))),  # drop first, drop last, full, partial drop, readd, tie
    (4, (), (((-1, 0, 2, -3), 3), ((1, 2, -2, 0), -1), ((-2, 2, -3, 4), -13), ((0, -3, 3, -3), 7), ((-2, 1, -3, 0), -13), ((2, -3, 0, 5), 4), ((5, -1, 2, 4), 21))),  # drop first, drop last, full, partial drop, readd, tie
    (4, (), (((5, -2, 0, -4), -12), ((2, -1, 3, -2), -12), ((-1, 2, -2, 0), 11), ((1, 5, 0, -1), 9), ((4, 0, -2, 3), -4), ((-2, 0, 1, 2), 1), ((0, 4, 2, 5), 6))),  # drop first, drop last, full, partial drop, readd, tie
    (4, (), (((-3, -3, 3, -4), 0), ((0, 4, -4, -4), 14), ((0, 5, 0, 5), 10), ((-1, 0, 0, 2), 2), ((0, 0, -4, -2), 4), ((4, -3, 4, -4), -20))),  # drop last, full, infeasible, partial drop, readd, tie
    (4, (), (((-1, 5, 3, -2), -5), ((2, -1, 3, 0), 8), ((-3, 2, 4, 0), 0), ((-4, -2, 3, 4), 1), ((-4, -4, 0, 5), -1), ((4, -1, -3, 0), 5), ((4, -1, -2, -1), 3), ((-3, 1, 0, 0), -5))),  # drop last, full, infeasible, partial drop, readd, tie
    (4, (), (((2, -1, 3, -4), -3), ((5, 4, -3, 1), 4), ((-2, 1, -1, 2), -2), ((0, -1, 2, -3), -3), ((4, -2, 4, 0), 12), ((0, 5, 0, 0), -15))),  # drop last, full, partial drop, readd, tie
    (4, (), (((0, -4, 2, 0), -6), ((5, -3, 1, 2), -8), ((1, 0, 2, 5), 7), ((-2, 0, 4, -4), -8), ((4, 3, -4, -4), -7), ((3, -3, 0, 1), -6))),  # drop first, drop inside, drop last, dual drop, full, partial drop, tie, two drops
    (4, (), (((-1, -4, -2, 1), -12), ((1, 5, -3, 0), 7), ((3, -4, 2, 4), -17), ((-4, 1, 1, 0), 4), ((0, -4, 0, 3), -17), ((-1, 0, -4, -3), 5))),  # drop first, drop inside, drop last, dual drop, full, partial drop, readd, tie, two drops
    (4, (), (((-3, -3, -1, -1), -15), ((-2, 3, -4, -1), 5), ((-2, 3, -1, 5), 0), ((-1, -4, -1, 0), -15), ((-2, 5, 4, 4), 7), ((1, -3, -1, 4), -8), ((0, 0, 5, -1), 1), ((1, -3, -3, -3), -3))),  # drop first, drop inside, drop last, dual drop, full, partial drop, readd, tie, two drops
    (4, (), (((1, 0, -1, 5), -12), ((5, -4, 5, -3), 6), ((3, -4, 0, 3), -2), ((-2, 0, -3, 3), 0), ((2, -1, 0, 5), -10), ((-4, 4, -1, -4), 10), ((5, 0, -2, 2), -12), ((0, 0, 0, 1), -2), ((0, -1, -4, 4), -4))),  # drop first, drop inside, drop last, dual drop, full, partial drop, readd, tie, two drops
    (4, (), (((-2, -4, 3, 2), 1), ((1, 0, 1, 1), -4), ((0, 1, -3, -3), 8), ((-2, 0, -1, 5), -11), ((4, -2, -3, -4), -11), ((5, 1, 2, 0), -7))),  # drop last, dual drop, full, partial drop, tie, two drops
    (4, (), (((-3, -3, -3, -2), 0), ((0, -3, -1, 4), -11), ((-2, 3, 5, 2), -11), ((0, -1, 0, 4), -8), ((-4, 5, -2, 5), -3), ((1, 4, -4, 4), 11), ((3, 4, 4, 0), 6), ((5, 2, -2, 0), 19), ((0, -2, -1, 0), -3))),  # drop first, drop inside, drop last, full, infeasible, partial drop, readd, tie, two drops
    (4, (), (((2, 4, 0, -1), -7), ((-1, 1, 4, 1), 8), ((-1, 3, -3, -3), -15), ((5, 5, 5, 3), 3), ((3, -4, 0, 5), 10), ((-1, -4, 1, -4), -3), ((2, 2, -4, 0), -15), ((-2, -3, -3, -4), 3), ((-3, -3, 0, -1), 9))),  # drop first, drop inside, drop last, dual drop, full, infeasible, partial drop, tie, two drops
    (4, (), (((0, 0, -1, 5), -18), ((0, -4, -3, -1), -8), ((2, 2, 4, 2), 2), ((5, -1, 2, 4), -4), ((-3, 0, 1, 3), 4), ((-4, 5, -4, -3), 14), ((2, 2, -4, 4), -28), ((-2, -3, -3, 2), -12), ((-1, -4, 4, -4), 23))),  # drop last, full, partial drop, readd, tie1, two drops
    (4, (), (((3, 3, 0, -1), 6), ((1, -2, 1, -4), -3), ((-2, -2, 0, -1), 0), ((5, 5, 4, -2), -2), ((3, 5, -2, 5), -12), ((-2, 3, 0, 1), -4), ((-1, 0, -4, 2), -16))),  # drop first, drop inside, drop last, dual drop, full, partial drop, readd, two drops
    (4, (), (((0, -1, -3, 1), 6), ((0, 0, 1, 5), -13), ((2, -2, 1, 2), -12), ((0, 0, -3, -1), 11), ((0, 2, 0, 4), -4), ((-3, 5, 1, -2), 2), ((0, -3, 1, 5), -16), ((4, 3, -3, -4), 13))),  # drop first, drop inside, drop last, dual drop, full, partial drop, readd, two drops
    (4, (), (((3, -1, -4, -4), 11), ((0, 3, -2, -1), 14), ((5, 0, 3, -1), 4), ((-3, -4, -1, 0), -18), ((3, -3, 0, 2), 5), ((-4, 3, 5, -2), -22), ((4, 3, 0, -1), 19), ((-4, -2, 5, -1), -33))),  # drop first, drop inside, drop last, dual drop, full, partial drop, readd, two drops
    (4, (), (((-1, -3, 4, 4), 0), ((-4, -4, 3, 3), -7), ((2, 1, 2, -4), -11), ((5, 5, 0, 2), 16), ((2, -3, 1, 2), 14), ((5, 3, -1, -1), 13), ((-4, 0, 4, 0), -22), ((-3, -3, 0, 0), -6), ((0, 4, 0, -4), -15))),  # drop first, drop inside, drop last, dual drop, full, partial drop, tie1, two drops
    (4, (), (((3, -3, 3, 3), -6), ((-4, -4, -3, 2), -13), ((-2, 5, -1, 0), 2), ((-4, 2, 1, -4), -3), ((-1, 5, 0, -3), 4))),  # drop last, dual drop, full, partial drop, two drops
    (4, (), (((3, 5, -4, -4), -22), ((0, -3, 3, 0), 2), ((-4, -1, -4, 0), 15), ((3, 5, -3, -2), -21), ((0, 1, -2, 0), -2), ((5, 2, 5, 0), -19))),  # drop first, drop inside, drop last, full, infeasible, partial drop, readd, two drops
    (4, (), (((-2, -1, -4, 4), -8), ((3, 1, -4, -2), 14), ((1, 5, -3, -2), 0), ((1, 1, 0, -4), 14), ((-1, -4, 4, 3), -10), ((1, -2, 1, -3), 11), ((1, 2, -4, 0), 3), ((4, -2, 0, 4), -5), ((-4, 0, 2, 4), -17))),  # drop first, drop inside, drop last, full, infeasible, partial drop, readd, two drops
    (4, (), (((-1, -3, -2, -3), -6), ((-1, 4, 1, 3), -16), ((-4, -2, 5, 0), 14), ((-1, 5, -4, 3), -29), ((3, -1, 1, -3), 15), ((0, 0, -4, -4), 0), ((-3, -1, 5, 3), 6), ((-1, -1, -2, -4), 8), ((2, -1, 2, 0), 11))),  # drop first, drop inside, drop last, full, infeasible, partial drop, readd, two drops
    (4, (), (((3, -3, 1, -1), 1), ((-1, 1, 0, 0), -3), ((-2, 3, 0, -1), -5), ((-3, 3, 2, 0), -7), ((-1, 0, -2, 0), 7), ((2, 1, -1, 4), 0), ((0, 0, 0, 4), 5))),  # drop first, drop inside, drop last, dual drop, full, infeasible, partial drop, two drops
    (4, (), (((-3, 0, -2, -2), 2), ((4, 0, 5, 0), -5), ((0, 2, 0, -4), 2), ((2, -2, 1, 1), -4), ((1, 4, 2, 4), 5), ((3, -1, 5, 4), 0), ((2, 0, 1, 1), -3))),  # drop first, drop inside, drop last, dual drop, full, infeasible, partial drop, readd, two drops
    (4, (), (((-3, -4, 1, -1), -6), ((3, 3, 4, -2), -5), ((5, -4, 0, 0), -22), ((0, -2, -1, -4), 1), ((-1, -2, -1, 5), -8), ((3, 5, -4, 4), 11), ((0, 2, 2, -2), 6))),  # drop first, drop inside, drop last, dual drop, full, infeasible, partial drop, readd, two drops
    (4, (), (((3, 3, -3, -1), 2), ((0, -1, 0, -1), -2), ((3, 0, 4, -2), -6), ((1, 1, 1, 5), -2), ((0, -4, -1, -1), 1), ((-4, 0, 1, 2), 10), ((-2, 2, 0, 4), 12), ((1, 2, 0, 0), -2))),  # drop first, drop inside, drop last, dual drop, full, infeasible, partial drop, readd, two drops
    (4, (), (((1, 2, 0, 3), -4), ((1, 0, 4, -1), 9), ((-3, 5, -3, 0), -20), ((-3, -2, 0, 0), -5), ((0, -2, 5, 3), 6), ((4, 1, -1, 5), 4), ((0, -4, -2, -3), 10), ((1, 0, -4, -2), 0))),  # drop inside, drop last, dual drop, full, infeasible, partial drop, readd, two drops
    (4, (), (((2, 0, 0, -1), -4), ((4, -2, -4, -2), -6), ((-2, -2, 1, 4), 12), ((0, 1, 5, -3), -1), ((-3, 2, 0, -1), 4), ((0, 2, 0, 3), 3), ((0, 1, -2, 5), 2), ((-4, 0, 0, 2), 12))),  # drop first, drop last, full, partial drop, readd, two drops
    (4, (), (((-1, -3, 0, 4), -13), ((5, 3, -2, 5), -8), ((0, -2, 0, -2), 6), ((2, -2, 0, -4), 17), ((-1, 0, 0, 3), -11), ((-2, 1, 0, 0), -3), ((-3, -4, 4, 2), -4), ((-2, 0, 1, 4), -14), ((3, -4, 0, 3), -2))),  # drop first, drop last, full, partial drop, readd, two drops
    (4, (), (((-2, 0, 2, 0), -6), ((1, 3, 2, 4), -18), ((-3, -3, 1, 2), -6), ((-3, 5, 2, -2), -20), ((-1, 3, -3, -3), 2), ((-2, -1, 3, -3), 3), ((-3, -2, 0, 2), -7), ((4, -4, 0, 0), 26))),  # drop last, dual drop, full, partial drop, readd, two drops
    (4, (), (((5, 4, 0, 3), 3), ((-2, -1, 2, 0), -3), ((-1, 0, 2, -3), 6), ((-1, 3, 3, 3), -2), ((0, 0, -3, 5), -8), ((-2, -4, 4, -1), -4), ((-4, -4, 0, -3), 0), ((-3, 0, 0, 2), -6), ((5, 4, 5, -2), 14))),  # drop last, dual drop, full, partial drop, readd, two drops
    (4, (), (((-2, -1, -2, -4), 16), ((-3, -4, -4, -3), -1), ((-3, -3, 2, -2), 4), ((3, -2, -2, 0), 3), ((4, 4, -3, 3), -2), ((-2, 4, 4, 2), -8), ((-1, -4, 5, 1), -5))),  # drop last, dual drop, full, infeasible, partial drop, readd, two drops
    (4, (), (((5, 4, 4, -3), -2), ((5, 5, 4, -4), 1), ((3, 1, -4, 1), -5), ((-2, -2, 0, 1), 2), ((1, 0, 0, 1), -3), ((0, -1, 1, 2), -1), ((3, 1, -3, -1), -6), ((2, -2, -3, 4), 2))),  # drop last, full, partial drop, readd, two drops
    (4, (), (((0, -4, 2, 5), -12), ((-2, -2, -3, -3), 7), ((5, 0, 1, -3), 10), ((-2, -2, 1, 2), -5), ((2, -4, 2, -3), 8), ((-3, 2, 0, 4), -10), ((-1, 2, 0, 0), -1), ((-3, 3, 0, 3), -9), ((3, 5, 0, 0), 5))),  # drop last, full, partial drop, readd, two drops
    (4, (), (((5, -3, -3, -4), 3), ((-3, 5, 3, 0), 10), ((-2, -2, 0, 2), -7), ((-2, 1, -4, 0), 17), ((-2, 4, 5, -4), 9), ((-1, 0, -3, 3), 5), ((2, -1, -2, -1), 3), ((0, -1, 5, 0), -18), ((-2, 4, 4, 2), -2))),  # drop inside, full, partial drop, readd
    (4, (), (((0, 5, -1, 3), -6), ((-3, -4, 0, 0), 10), ((-1, 5, 3, -2), -17), ((5, 2, 0, -2), -17), ((2, 0, 0, 3), 6), ((0, -3, -2, 1), 14), ((-3, -4, 0, -3), 3), ((-2, -2, -4, -2), 13))),  # drop first, drop inside, dual drop, full, infeasible, partial drop, readd, tie
    (4, (), (((0, 5, 5, 1), 25), ((4, -1, 4, -3), -5), ((1, -3, 5, 2), 13), ((0, 0, 2, 5), 20), ((-3, 3, -1, 1), 4), ((2, -2, 0, -1), -5), ((-2, 5, 3, -4), 3), ((1, 0, 0, 0), 2), ((-3, -2, 1, 0), -5))),  # drop first, drop inside, dual drop, full, infeasible, partial drop, readd, tie
    (4, (), (((0, 1, -4, 0), 2), ((0, -4, 0, 0), -3), ((0, 3, 0, 0), 2), ((-3, 5, 0, -2), 5), ((2, -3, 3, -1), -3), ((5, -4, -2, 0), 2), ((-1, 2, -3, 0), -3), ((4, 1, -2, 4), -3), ((0, 0, 1, -1), 1))),  # drop first, drop inside, dual drop, full, infeasible, partial drop, readd, tie
    (4, (), (((5, 2, -4, 0), -6), ((-1, 3, 5, 3), -5), ((5, 0, 5, -4), -10), ((-1, -2, 2, 4), -11), ((1, -3, -3, 1), -11), ((-1, 5, 1, 1), 15))),  # drop first, drop inside, dual drop, full, partial drop, readd, tie, two drops
    (4, (), (((-1, -3, -1, 0), 1), ((5, -2, -3, 5), -1), ((5, -1, -1, -4), 5), ((3, -2, -1, 0), 3), ((4, -4, 3, -1), -1), ((-2, -2, 5, 2), -5), ((-3, 0, -2, 5), -1), ((-2, -1, -1, 0), 1), ((3, 2, 5, 0), -5))),  # drop first, drop inside, dual drop, full, partial drop, readd, tie, two drops
    (4, (), (((3, -4, -3, -4), 9), ((-4, 5, -3, 4), -6), ((0, -2, -4, -1), 1), ((-3, 5, 1, -1), 12), ((-1, 2, 3, 1), -5), ((2, 2, -2, 2), 1), ((-4, -3, 4, -1), -6), ((2, -4, 0, -3), 3), ((4, -1, -4, -3), 11))),  # drop first, drop inside, full, infeasible, partial drop, readd, tie, tie1, two drops
    (4, (), (((-2, -3, 2, -3), 18), ((3, 0, 5, 3), 2), ((3, 0, -4, 0), -11), ((0, -2, -4, 2), -6), ((3, 3, 1, -1), -4), ((-2, 4, -4, -1), -10), ((-3, -1, -4, 4), -11), ((-1, 0, -1, 0), -6), ((-1, 0, -1, -2), 3))),  # drop first, drop inside, full, infeasible, partial drop, readd, tie, tie1, two drops
    (4, (), (((2, 2, 0, -4), 0), ((-1, 0, 3, 0), -2), ((1, 2, 1, 1), -3), ((5, -2, -3, -2), -13), ((-1, 4, 4, 4), 1), ((-3, -1, 1, -1), 3), ((0, -3, -3, 5), -13))),  # drop first, drop inside, dual drop, full, infeasible, partial drop, readd, tie, two drops
    (4, (), (((-2, 0, 5, -3), -17), ((5, 0, 3, -1), 0), ((-2, -1, 0, -4), -7), ((0, -4, 5, -4), -8), ((5, -1, -1, 4), 24), ((-1, -3, -1, 0), 2), ((5, -4, 5, -4), 2), ((-4, 4, -1, -4), -17), ((0, 5, 1, 0), -7))),  # drop first, drop inside, dual drop, full, infeasible, partial drop, readd, tie, two drops
    (4, (), (((2, 1, 0, -2), -10), ((3, -2, 5, -1), 6), ((4, 5, -1, 2), -9), ((3, -4, 0, -3), -13), ((1, -1, -2, -2), -12), ((3, 0, -2, -3), -19), ((5, -3, 2, 0), -8), ((0, 0, -2, 5), 6), ((0, -4, 0, 1), 3))),  # drop first, drop inside, dual drop, full, partial drop, readd, tie1, two drops
    (4, (), (((2, -1, 3, -3), -8), ((0, -2, -2, 0), 1), ((4, 1, -3, 4), -3), ((1, -4, 0, -3), -6), ((-3, -1, -1, -2), 1), ((0, 3, -4, -1), 0), ((1, 1, 4, 1), 2), ((3, -2, 3, -3), -9))),  # drop first, drop inside, dual drop, full, infeasible, partial drop, readd, two drops
    (4, (), (((1, -2, 5, -2), -19), ((-2, 3, 4, 0), -6), ((-2, 4, 3, 2), 3), ((4, -2, -4, 0), 7), ((0, -3, -2, 0), -1), ((0, -2, 5, 0), -20), ((-2, 5, -1, 0), 19), ((5, 0, 4, 5), -16))),  # drop first, drop inside, dual drop, full, infeasible, partial drop, readd, two drops
    (4, (), (((2, 0, 0, 4), -7), ((5, 3, 1, -4), -5), ((-4, 3, -2, -1), 9), ((5, -3, 3, 0), -8), ((-2, -3, 1, -1), 0), ((-4, 0, 0, 2), -2), ((5, 4, 4, -1), -9), ((4, 4, -3, -4), -4))),  # drop first, drop inside, dual drop, full, infeasible, partial drop, readd, two drops
    (4, (), (((1, 5, 0, 0), -11), ((0, -1, 2, 0), 2), ((-2, -3, 5, 0), 0), ((0, 4, -4, 5), -18), ((-4, 1, 2, 0), -12), ((5, 0, 3, 0), 9), ((0, 3, -3, -2), -2), ((4, -4, -2, 0), 24), ((-4, -3, 0, 0), 2))),  # drop inside, dual drop, full, readd
    (4, (), (((2, -1, 3, -4), 1), ((1, 5, -1, 0), -10), ((-4, 3, 4, 5), -14), ((0, 4, 0, 0), -11), ((4, -1, 0, 5), 13), ((-4, -3, 5, 2), -2), ((-2, 0, 2, 0), -5))),  # drop first, drop inside, dual drop, partial drop
    (4, (), (((4, -2, -1, 4), -5), ((3, 5, 5, 2), -10), ((-2, 3, 0, -3), -2))),  # drop first, drop inside, partial drop
    (4, (), (((4, -4, -3, -4), 22), ((0, 4, -4, 0), -3), ((0, 1, 0, 0), -1), ((0, -2, -4, 2), -4), ((4, 1, -3, 2), -6), ((0, 0, 5, 3), -8), ((5, 0, 0, -1), 8), ((0, 4, -2, -4), 8))),  # drop inside, dual drop, partial drop
    (4, (), (((1, 2, 0, 3), -1), ((-3, 2, 4, -2), -7), ((0, -3, -4, 4), 0), ((4, 1, -1, -2), 5), ((4, -1, 3, -2), 15), ((-1, 0, -4, 5), -5))),  # drop inside, infeasible, partial drop
    (4, (), (((-4, 0, 0, 0), -6), ((4, 0, 0, 3), 19), ((-2, -1, 0, -2), -5), ((2, 5, 5, 0), -1), ((2, 0, 1, 3), -6), ((0, 5, 2, 2), -5), ((4, -2, -4, 0), 6))),  # drop first, drop inside, infeasible, partial drop, tie
    (4, (), (((3, -1, 2, -1), 9), ((3, 2, 5, 2), -4), ((-3, 2, 5, 0), -4), ((1, 2, 2, 5), -4), ((-1, 0, 0, 0), -1))),  # drop first, drop inside, partial drop, readd, tie
    (4, (), (((-4, 0, -3, -2), 2), ((5, -1, 5, -1), -10), ((-3, 1, 3, -1), 3), ((1, -2, 3, -4), -10), ((0, 3, 2, 0), -5))),  # drop first, drop inside, partial drop, readd, tie
    (4, (), (((2, 4, -3, -4), -1), ((-2, 2, 5, 4), -4), ((-2, -2, 1, 4), 7), ((0, -1, 5, 2), -4), ((-1, 2, -3, 5), 13), ((0, 0, 0, -1), -2))),  # drop first, drop inside, partial drop, readd, tie
    (4, (), (((-3, 0, -1, -2), -7), ((0, 2, 3, -4), -11), ((-2, -3, -1, 5), 6), ((4, 0, -4, 3), 23), ((2, -4, -4, -1), 8), ((1, -3, 5, 1), -7), ((-3, 4, 5, -2), -14))),  # drop first, drop inside, partial drop, tie, tie1
    (4, (), (((0, 0, 0, 5), -5), ((-2, 0, -1, 0), 8), ((0, 5, -2, 2), -5), ((-4, -2, 4, 3), 3), ((0, -1, 2, 0), -3), ((-1, 3, -3, 0), 11), ((-2, 5, 3, -4), 5), ((0, -3, -3, 4), 2), ((0, 1, 4, 1), -5))),  # drop first, drop inside, dual drop, partial drop, tie, two drops
    (4, (), (((3, -1, -3, -3), 8), ((0, 1, 1, 0), -5), ((0, 2, 5, -1), -17), ((0, 4, 3, 0), -17))),  # drop first, drop inside, partial drop, tie, two drops
    (4, (), (((5, 0, 0, 2), -6), ((-1, -3, -2, 3), -2), ((1, -1, -1, -1), -6), ((0, 2, 4, 1), 11), ((2, 0, 1, -4), -6), ((-2, 3, 2, 1), 14), ((-4, -1, 1, -4), 5), ((1, 0, 2, 3), 4))),  # drop first, drop inside, partial drop, tie, tie1, two drops
    (4, (), (((0, -4, 3, 5), 3), ((-2, 4, -1, 4), -2), ((4, 2, 0, -3), -17), ((-1, 4, -3, -2), -2), ((3, 1, 1, 0), -15), ((0, 1, -3, 0), 6))),  # drop first, drop inside, partial drop, readd, two drops
    (4, (), (((-3, 0, 0, 0), -9), ((-4, -1, -3, 4), -18), ((3, 2, 0, -3), 8), ((3, 3, 5, 1), 14), ((5, 4, 0, -1), 8), ((-2, 1, -1, 1), -11), ((1, 4, -2, 0), -8))),  # drop first, drop inside, partial drop, readd, two drops
    (4, (), (((4, -3, 0, -2), -16), ((1, 3, 0, -4), -14), ((-1, -4, 5, -4), -19), ((0, 5, -2, 1), 7))),  # drop inside, partial drop
    (4, (), (((1, 0, 2, 0), -6), ((3, 0, 2, 2), 2), ((-4, -1, 5, -4), -24), ((-4, 1, -1, -2), -5), ((5, 0, 5, 4), -2))),  # drop first, drop inside, drop last, partial drop
    (4, (), (((4, 0, 1, 0), -2), ((-2, 0, -3, 0), -1), ((0, 0, -1, 0), -1), ((-3, 4, -2, 4), -11), ((1, 5, 2, 5), -12))),  # drop first, drop inside, drop last, dual drop, partial drop
    (4, (), (((-1, 1, 0, 0), 1), ((-2, -4, 5, 0), 10), ((1, 4, 3, 4), -11), ((0, -2, 5, 5), 0), ((2, 1, -3, 0), -6), ((-3, 2, 4, 0), 0), ((5, 4, 1, 3), -16), ((-4, -4, 0, 0), 14))),  # drop first, drop inside, drop last, infeasible, partial drop
    (4, (), (((3, 3, 5, -1), -5), ((2, 0, -1, 5), -11), ((4, -4, -4, -4), -12), ((0, 0, 0, 5), -8), ((-2, 2, 2, 5), 1))),  # drop inside, drop last, dual drop, partial drop
    (4, (), (((-3, -3, 3, -3), 3), ((1, -1, -1, -2), -10), ((4, 1, -1, 0), -11), ((3, 2, -1, 1), -7))),  # drop first, drop inside, drop last, partial drop, readd
    (4, (), (((3, 0, -2, 4), -6), ((2, -3, -4, 0), -2), ((5, 0, 2, 0), -5), ((4, 2, -2, -4), -12), ((0, 2, 0, -1), -2), ((0, 0, -4, -4), 0), ((-3, 0, 5, 3), 13), ((2, -4, 3, -1), 7), ((4, 0, 0, 0), -10))),  # drop first, drop inside, drop last, partial drop, readd
    (4, (), (((5, -1, -3, 5), -1), ((5, -2, 5, -3), -15), ((1, 0, -4, 4), 7), ((3, 2, 5, -3), -15), ((3, 1, 0, 0), -7))),  # drop first, drop inside, drop last, partial drop, tie
    (4, (), (((0, 0, 5, 0), -5), ((-3, 5, 5, 3), 3), ((2, 0, 0, 1), -1), ((-1, 0, 0, 0), -5), ((0, 1, 4, 0), -5), ((4, -3, 3, 4), 2))),  # drop first, drop inside, drop last, partial drop, readd, tie
    (4, (), (((0, 0, 5, -4), -11), ((-2, 0, 1, 1), -4), ((-3, -1, 5, 0), -11), ((1, 0, 2, -4), -6), ((-4, -3, 1, 4), 4), ((3, -4, 4, 1), 20), ((-1, 1, -4, 4), 6), ((1, -1, 4, 0), 2))),  # drop first, drop inside, drop last, partial drop, readd, tie
    (4, (), (((-1, 5, 1, -1), 12), ((2, 0, 1, 3), -5), ((5, 1, 5, 0), 7), ((1, 0, -2, 0), -4), ((2, -2, -4, -3), -5), ((-1, 5, -1, 3), -2), ((5, 3, 5, -3), 15), ((2, -3, 4, 2), -1), ((3, 2, 0, 1), -1))),  # drop first, drop inside, drop last, partial drop, readd, tie
    (4, (), (((1, 0, 0, 4), -4), ((4, -1, -3, 1), 7), ((-1, -1, 2, 1), -10), ((-1, 0, -3, 0), 10), ((-4, 0, 4, 0), -12))),  # drop first, drop inside, drop last, partial drop, tie, two drops
    (4, (), (((4, 2, -2, 4), 5), ((-1, 2, -3, -1), 11), ((2, -2, -2, 3), -1), ((-4, -2, 5, 0), -5), ((4, -3, 3, -3), -21), ((3, -3, 4, -3), -21), ((4, -4, 3, -1), -21))),  # drop first, drop inside, drop last, partial drop, readd, tie, two drops
    (4, (), (((-3, -3, 0, 5), 20), ((0, -2, 1, -2), -4), ((1, 0, 4, -4), -7), ((4, 4, -1, 0), -4), ((-3, 3, 5, -2), 3), ((-2, 1, 0, -1), -1), ((-4, -4, 5, 3), 18), ((-1, 2, 1, -3), -6))),  # drop first, drop inside, drop last, partial drop, tie1
    (4, (), (((-3, 5, 4, 0), -22), ((1, 5, 1, -4), 3), ((0, -2, 5, 4), -4), ((1, 5, 0, -3), -2), ((-3, 4, 3, 0), -19), ((2, 0, 0, 0), 7), ((5, 4, -1, -4), 14), ((-3, 3, -1, 5), -18), ((1, -3, -4, -4), 18))),  # drop first, drop inside, drop last, partial drop, readd, tie1, two drops
    (4, (), (((2, 2, -1, 0), 5), ((-3, -3, -3, 2), -1), ((4, -3, 4, -3), -3), ((0, -2, 1, 0), -2))),  # drop first, drop inside, drop last, partial drop, two drops
    (4, (), (((-3, 5, 0, -1), -10), ((4, 3, -4, -4), -16), ((-4, -2, 1, -4), -1), ((0, 5, 1, 5), -1), ((-3, 0, -3, -4), 3), ((4, -1, -2, -3), -7))),  # drop first, drop inside, drop last, partial drop, readd, two drops
    (4, (), (((-2, -1, -3, 3), -15), ((5, 2, -4, 0), 0), ((-3, -2, 2, 1), -6), ((3, 0, -1, 1), -3), ((-3, -1, 0, 0), -3), ((-4, -3, -2, 2), -17))),  # drop first, drop inside, drop last, partial drop, readd, two drops
    (4, (), (((-1, 5, -1, 4), -15), ((0, 1, 0, 1), -4), ((5, 5, 5, -3), -8), ((-3, -3, 0, 3), 8), ((-4, -1, 0, 5), 2), ((5, 0, -3, 0), -13), ((-3, 0, -2, 0), 5), ((0, 5, 2, 3), -12))),  # drop first, drop inside, drop last, partial drop, readd, two drops
    (4, (), (((0, 0, 5, -2), 0), ((5, -3, 1, -4), 9), ((0, 2, 2, 0), 6), ((-4, 3, 3, 4), -5), ((2, -3, 4, 5), 2), ((-3, -4, 4, 0), -15), ((-2, 0, 5, -1), -5), ((-4, -4, -4, 2), -18), ((3, 0, 3, 3), 11))),  # drop inside, drop last, partial drop, readd, two drops
    (4, (), (((3, -2, 0, 0), -12), ((-1, -3, 0, -1), -9), ((0, 4, -3, -4), 7), ((-2, -3, 2, 0), -6), ((-2, 0, 0, -2), 0), ((2, 5, 0, 4), 20))),  # drop inside, drop last, partial drop
    (4, (), (((3, 3, 2, -1), -4), ((0, 0, 0, 3), -7), ((4, 0, -4, 0), 5), ((-2, 4, 1, 3), 1), ((-1, 2, -2, 5), -10), ((1, 5, 5, 4), -23), ((0, 0, 0, 1), -3), ((-1, 5, -1, -3), 14))),  # drop last, dual drop, partial drop
    (4, (), (((-3, -4, -1, 3), -2), ((1, 4, 0, -4), 1), ((1, -3, 0, 1), -2), ((3, 5, -4, 3), 6))),  # drop first, drop last, partial drop, readd, tie
    (4, (), (((-4, 0, -2, -2), 4), ((-2, -1, -2, -1), 1), ((0, 2, -1, 3), 5), ((3, 0, 0, 2), -2), ((1, 1, 0, 0), -2))),  # drop first, drop last, partial drop, readd, tie
    (4, (), (((-2, -3, -3, -4), 20), ((0, 1, 4, 0), -2), ((0, 0, 1, 1), -2), ((-1, 0, 4, -4), 13), ((1, 0, -4, 0), 1))),  # drop first, drop last, partial drop, readd, tie
    (4, (), (((0, -2, 0, 4), -4), ((4, 0, 1, 4), -2), ((2, 0, -1, 3), -1), ((1, 0, -1, 2), -4), ((0, 2, -1, -3), 4), ((5, 4, -3, 0), -1))),  # drop first, drop last, partial drop, tie, two drops
    (4, (), (((3, 1, -2, 5), 7), ((-1, -1, -1, -3), -4), ((-2, 5, 1, 2), 3), ((-1, -2, -2, -4), -5), ((-4, -4, 4, 2), 12), ((-1, -1, -1, 2), 8))),  # drop first, drop last, partial drop, readd, tie, two drops
    (4, (), (((-4, -3, -4, 3), 1), ((0, 2, -1, -2), 6), ((3, -2, 0, 1), -5), ((1, -3, 0, -2), 1), ((-2, 5, 4, 4), 3), ((0, 2, 4, 4), -1), ((3, -1, 0, 1), -5), ((0, 2, -3, -1), 2), ((2, -1, 0, 1), -3))),  # drop first, drop last, partial drop, readd, tie, two drops
    (4, (), (((4, -3, 4, 0), 3), ((2, -1, 3, -3), 11), ((5, 3, 2, 1), 2), ((2, -4, 1, -2), 7), ((0, 3, -1, 3), -10), ((-3, 1, -4, 5), -11), ((2, 0, 2, 0), 2), ((2, 3, 5, 4), -5))),  # drop first, drop last, partial drop, readd, two drops
    (4, (), (((2, -2, 5, 5), -10), ((0, 4, 5, 3), -7), ((5, -3, 2, 4), -14), ((-1, 0, -2, -3), 4), ((-4, 4, -2, 2), 18), ((0, 1, -2, 0), 6), ((5, 5, 5, 0), -24), ((4, 0, 4, 0), -20), ((4, 4, 5, 2), -19))),  # drop first, drop last, partial drop, readd, two drops
    (4, (), (((0, 5, -3, 0), -4), ((1, 2, 5, 5), -24), ((0, 0, 2, -1), 2), ((0, -3, 2, 0), -5), ((0, -4, -2, 0), 12))),  # drop first, drop inside, infeasible, partial drop
    (4, (), (((-2, 2, 1, 3), -5), ((-2, 0, 0, -1), -1), ((0, 0, -1, -1), 3), ((2, 2, 1, 3), -3), ((5, -2, -3, 4), -5), ((5, 4, 1, 5), -7), ((-1, -3, 2, 2), 9))),  # drop first, drop inside, partial drop, readd
    (4, (), (((1, -1, 5, 2), -13), ((-1, 2, -2, -1), 1), ((-2, 0, -4, 0), 19), ((4, -2, 0, 2), -8), ((-2, -4, 0, 5), 17), ((-2, 4, 4, -2), -10), ((-3, 3, -4, 2), 26), ((-1, 0, -4, 3), 21))),  # drop first, drop inside, partial drop, readd
    (4, (), (((2, 0, 0, 0), 2), ((-2, 0, -1, 0), -4), ((-4, -2, 3, 0), -8), ((0, 0, -1, -1), -1), ((4, 1, -1, 5), 21), ((3, -4, 4, 1), 0), ((-4, 0, -3, 1), 1), ((4, 0, -2, 5), 19))),  # drop first, drop inside, partial drop, readd
    (4, (), (((-1, 2, 2, 1), 8), ((4, -2, 1, 0), -19), ((-3, 1, -3, 4), 15), ((4, -3, 5, -4), -24))),  # drop first, drop last, partial drop, readd
    (4, (), (((3, -2, 1, 0), -6), ((4, 0, 1, -3), 2), ((-2, 0, -2, -4), 20), ((5, 0, 5, -2), -7), ((-2, 5, -4, 2), 2))),  # drop first, drop last, partial drop, readd
    (4, (), (((-3, -3, 5, -4), -24), ((1, 3, 2, 3), -2), ((-1, 4, 2, -2), 0), ((3, 1, 2, -4), 0), ((-3, 1, 3, -3), -22))),  # drop first, drop last, partial drop, readd
    (4, (), (((4, 0, -4, 5), -8), ((3, 0, 0, 5), -7), ((-4, 0, 2, 3), -8), ((-3, 0, 4, 3), -5), ((-4, 0, -3, -2), -1), ((3, -2, 0, 5), 2))),  # drop first, drop inside, dual drop, tie
    (4, (), (((-1, 0, -2, 0), -3), ((-3, 0, 1, 4), 6), ((-1, -4, 3, 0), 5), ((2, 4, -3, -1), -3), ((3, 5, 1, 1), 4), ((-3, -1, 0, -2), 3), ((2, 2, 1, 0), 1), ((3, 0, 1, 0), 1), ((-2, 4, 1, 0), 17))),  # drop inside, dual drop, tie
    (4, (), (((2, 0, 2, -2), 9), ((2, 5, -2, 3), -7), ((4, 0, -4, -4), -7), ((5, 2, 2, -1), 12), ((-4, -1, 2, 3), 1), ((-2, -3, -2, -1), -5), ((4, 1, 4, 0), 18), ((0, -4, 1, -4), 9))),  # drop inside, dual drop, infeasible, tie
    (4, (), (((2, 0, 0, -3), -6), ((3, 0, 0, -1), -6), ((3, 1, 0, -3), -6), ((0, 2, 1, 4), 4), ((1, 0, 0, 0), -2), ((-2, -4, -4, -2), 7))),  # drop last, dual drop, tie
    (4, (), (((-4, 3, 0, 5), -15), ((-1, 3, 5, 4), -15), ((2, 5, -1, -3), 10), ((4, -4, 2, 3), -9), ((-1, -4, 0, 4), -12))),  # drop inside, dual drop, full, tie
    (4, (), (((0, -3, 0, 2), -4), ((4, -4, 0, 3), 0), ((-1, 3, -1, 4), -14), ((0, 0, 0, -1), -1), ((4, 0, 1, -2), 15))),  # drop last, dual drop, full, tie
    (4, (), (((0, 3, 4, 0), -3), ((3, 2, 5, 4), -17), ((3, -1, -1, -3), 0), ((0, 0, -2, 0), 0), ((3, -3, 4, -1), -4))),  # drop inside, full, partial drop, tie
    (4, (), (((3, -1, 0, -1), -5), ((5, -4, -1, 0), -6), ((-1, 0, 0, -4), -6))),  # drop first, drop inside, partial drop, tie
    (4, (), (((2, -4, 0, 0), 18), ((1, 5, -3, -4), -10), ((1, 5, -1, -1), -12), ((-3, 1, 2, 0), -12), ((-3, -4, -1, -3), 6), ((0, 3, 4, 4), -4), ((-1, 2, -4, -3), -2), ((-1, -2, 0, 0), 2))),  # drop inside, infeasible, partial drop, tie
    (4, (), (((2, 0, 5, -1), -15), ((-2, 5, 0, 5), -4), ((0, -4, -4, 5), 4), ((-3, 5, 1, 4), -5))),  # drop inside, partial drop, tie
    (4, (), (((3, 2, 0, 0), 17), ((0, -2, 1, 1), -7), ((-2, 0, -1, 0), -3), ((0, 5, -1, 1), 18), ((-3, 2, 4, -2), -10), ((5, -3, 5, 0), -2), ((-3, -1, 0, 2), -10), ((0, 2, -4, -2), 14))),  # drop inside, drop last, partial drop, tie
    (4, (), (((-2, -2, -3, -3), -13), ((4, -4, -2, -3), -13), ((1, 2, 3, 3), 14), ((-3, 3, 2, 4), 17), ((0, -4, 0, -1), -13), ((-4, -1, 2, 0), -8), ((-2, 0, 1, 3), 6))),  # drop inside, partial drop, tie, tie1
    (4, (), (((5, -4, -4, -1), 1), ((-3, 2, 5, -1), 8), ((3, 5, 2, 2), -10), ((-1, -3, -2, 0), 2), ((-1, 4, 4, 5), -10), ((2, 5, 4, 1), -4), ((-1, -3, 0, 5), -4))),  # drop last, partial drop, tie, two drops
    (4, (), (((-1, -4, 4, 2), -1), ((-1, -1, -2, -1), -5), ((-2, -4, 4, 0), -4), ((5, -4, 0, -2), -4), ((3, 2, -1, 3), 9), ((-4, 0, -3, -4), -10))),  # drop inside, dual drop, full, tie1
    (4, (), (((2, 1, -2, -4), -13), ((0, 5, 0, -1), -15), ((-3, -4, -3, 2), 17), ((2, 2, 1, 4), 1), ((5, 5, 2, -3), -23), ((-3, 3, -1, -3), -11), ((2, -1, 3, 1), 6), ((2, -1, 3, 5), 15), ((2, -4, 0, 0), 11))),  # drop last, dual drop, full, tie1
    (4, (), (((3, 4, -4, 5), 35), ((-1, -4, 3, 0), -16), ((1, 0, 1, 4), 0), ((-4, 0, 2, -3), -12), ((0, -2, 0, 0), -5), ((5, -2, -1, 5), 12), ((-4, -3, 4, -2), -21), ((-1, 2, -4, 4), 26))),  # drop first, drop inside, partial drop, tie1
    (4, (), (((0, 0, 1, 4), 1), ((1, 0, 3, -3), -12), ((3, -3, 4, 3), -6), ((0, 5, 4, -2), -18))),  # drop inside, partial drop, tie1
    (4, (), (((4, 3, -1, -4), -9), ((-4, 5, 4, -3), -14), ((2, -1, 4, 3), 3), ((-1, 2, 0, -4), -10))),  # drop first, drop inside, partial drop, two drops
    (4, (), (((-3, -1, 3, 5), 5), ((0, 1, 3, -2), -11), ((1, 2, 2, -4), -12))),  # drop first, drop last, partial drop, two drops
    (4, (), (((-4, 4, 2, -4), -5), ((5, 5, 0, 2), -4), ((2, 2, -2, -1), -4), ((-3, 0, -4, 2), 21), ((1, 1, -3, -1), -3))),  # drop inside, drop last, partial drop, two drops
    (4, (), (((3, 5, -3, -3), -32), ((-4, 0, 5, 1), 17), ((4, 1, -2, 0), -10), ((-1, 0, -2, -4), -13), ((5, 5, 1, 0), -16), ((2, 1, 1, -1), -4), ((-3, -2, -4, 2), 9), ((-1, -1, 1, -3), -3), ((-4, -1, 5, -3), 8))),  # drop last, full, partial drop, two drops
    (4, (), (((-2, -1, -3, -3), 7), ((5, 0, 0, 2), -11), ((5, -4, -4, 2), -12), ((1, 0, -1, -2), 2), ((0, 3, -3, -4), 3), ((2, 1, 3, 4), -6), ((1, 4, -2, 2), -2))),  # drop last, partial drop, readd, two drops
    (4, (), (((-2, 2, 0, 2), 4), ((1, 5, 2, -1), -21), ((2, -1, 0, 0), -2), ((-3, 1, 5, 1), 3), ((-1, 0, -3, 0), 7), ((-2, 0, 0, 2), 10), ((0, -2, 1, 1), 8), ((4, 1, 3, 0), -17))),  # drop last, partial drop, readd, two drops
    (4, (), (((2, -3, 5, 0), -11), ((5, -2, 4, -3), -1), ((4, -4, 5, 5), -21), ((0, -1, 0, 0), -2), ((0, -1, -1, 0), -1))),  # drop last, partial drop, two drops
    (4, (((5, 0, 4, -3), 4),), (((-4, 0, 3, -3), -24), ((0, 0, -2, -4), 4), ((-2, 5, 0, -4), -5), ((5, 0, -2, -4), -2), ((2, -3, -1, -3), 5), ((1, -1, -3, -3), 9), ((3, 0, -1, 1), 13))),  # drop last, drop with equalities, dual drop
    (4, (((-2, -2, 0, -1), -4),), (((0, 0, 0, 3), -7), ((0, -2, 0, -1), -2), ((1, 2, 0, 2), -1))),  # drop first, drop inside, drop with equalities, dual drop
    (4, (((-4, 0, 2, -4), 2),), (((1, 0, 3, 4), 3), ((5, 4, -3, -4), -15), ((1, -4, 1, 0), -5), ((3, 2, -1, -1), -8))),  # drop first, drop inside, drop with equalities, dual drop, full
    (4, (((-3, -3, -2, 0), 1),), (((-3, 1, -4, 1), 11), ((-1, 2, 1, -2), -1), ((4, -3, 0, 0), -4), ((1, 5, 2, 4), -6), ((3, -1, 5, -1), -13))),  # drop first, drop inside, drop with equalities, dual drop, full, infeasible
    (4, (((0, 5, 3, -3), -2),), (((0, 1, -3, -4), 14), ((-1, 0, 2, -2), -3), ((-2, 0, 3, -3), -2), ((4, 5, -2, 3), -4))),  # drop inside, drop with equalities, dual drop, full
    (4, (((3, -4, -4, -4), 1),), (((0, 3, 3, -1), -8), ((2, -3, -2, 4), 11), ((-1, -4, -4, -1), 8), ((3, 0, 5, 1), -19), ((1, 5, 3, 0), -5))),  # drop inside, drop with equalities, dual drop, full, infeasible
    (4, (((-3, 1, -2, 1), -1),), (((0, -1, 0, 0), 4), ((1, 3, -3, -3), -1), ((4, 1, 2, 5), -19), ((-1, 0, -4, 4), -13), ((4, 3, 4, 5), -19), ((-4, -1, -3, -1), 7), ((0, -2, -3, -2), 7), ((5, 0, 5, 4), -12))),  # drop first, drop inside, drop with equalities, dual drop, full, readd
    (4, (((-4, 2, 0, 0), -3),), (((2, 0, 4, -3), -11), ((-4, -1, 0, 5), 7), ((-1, 4, -1, 0), -11), ((2, 4, -2, 2), -1), ((-1, -2, 2, 0), 1), ((-2, 0, 3, 4), 1), ((-4, 2, -2, 1), -1), ((1, 4, 5, -4), 2))),  # drop first, drop inside, drop with equalities, dual drop, full, infeasible, readd
    (4, (((3, 5, 2, -4), -1),), (((5, 5, 5, 4), -17), ((2, 1, -2, 5), -16), ((-2, 2, -4, 1), -8), ((-3, -3, -3, 1), 4), ((-4, 3, -3, 4), -13), ((5, 2, 3, 0), -5), ((5, -1, 4, -2), 5), ((-4, 0, -1, -4), 12), ((-1, -3, -3, 1), 3))),  # drop first, drop inside, drop with equalities, dual drop, full, infeasible, readd
    (4, (((4, -1, 0, 0), 2),), (((-2, -1, 0, 0), -1), ((-1, 3, -1, 0), -6), ((2, 0, 2, -1), 6), ((3, -2, -2, 4), 11), ((-1, -1, 0, -3), -9), ((4, 5, 1, -2), -2), ((3, -1, 0, -2), -1), ((1, -3, 1, 2), 15), ((0, 5, -1, -2), -13))),  # drop first, drop inside, drop with equalities, dual drop, full, infeasible, readd
    (4, (((-3, 4, 0, 3), -1),), (((-1, 0, 1, 4), -11), ((5, 0, 3, 0), 1), ((1, -4, -3, 2), -9), ((3, 1, -2, 2), -3), ((-2, 4, 3, -2), 0), ((-4, -4, 3, -4), -12), ((4, -2, 1, 0), -2), ((1, 0, 1, 0), 0))),  # drop inside, drop with equalities, dual drop, full, infeasible, readd
    (4, (((-4, -1, -1, 3), 0),), (((3, 1, -2, 3), 5), ((-3, 0, -4, 0), 1), ((1, -2, 3, -3), -8), ((0, -1, -1, -2), -8), ((0, 0, 3, 0), 4))),  # drop first, drop inside, drop with equalities, dual drop, full, tie
    (4, (((0, 0, 0, 3), 0),), (((4, -4, 5, -1), -12), ((0, 0, -4, -2), -3), ((0, 1, 4, -1), -12), ((1, -3, 4, 1), -11), ((0, 0, 3, 0), -9), ((0, 4, 4, -4), -10))),  # drop first, drop inside, drop with equalities, dual drop, full, infeasible, tie
    (4, (((-4, -4, 3, 4), -3),), (((-1, -4, 2, -2), 12), ((1, 1, -2, 3), -2), ((5, 0, -4, -1), -5), ((0, 4, 0, 0), -11), ((0, 0, 0, 4), 1), ((5, -4, 5, -2), -12))),  # drop inside, drop with equalities, dual drop, full, tie
    (4, (((2, 5, 1, 4), 0),), (((3, 4, 0, -2), 11), ((-4, 5, 1, -3), 6), ((0, 4, 2, 1), 0), ((1, 0, 1, 4), -7), ((-3, -3, 5, -2), -7), ((0, 5, -1, -3), 12), ((2, -2, 0, -2), 6))),  # drop inside, drop with equalities, dual drop, full, infeasible, tie
    (4, (((4, 0, 2, 4), -3),), (((1, 2, -1, -1), 13), ((1, -1, 5, -4), 10), ((-3, 4, 3, -4), 10), ((-3, 0, -1, 1), -9), ((-1, 1, 4, -1), 0), ((-3, -1, -2, 0), -8))),  # drop first, drop inside, drop last, drop with equalities, dual drop, full
    (4, (((0, 4, 4, 1), -2),), (((-1, -1, -3, -3), 12), ((-2, -2, 5, -1), -13), ((4, 0, 2, -1), 5), ((-1, 0, -3, 1), 2), ((5, -4, -3, -3), 9), ((4, -3, 3, 2), -17), ((4, 5, 5, 3), 2), ((-3, 0, -2, 1), 0))),  # drop first, drop inside, drop last, drop with equalities, dual drop, full, infeasible
    (4, (((0, -1, 2, 1), 4),), (((-1, -4, 1, -3), -3), ((0, -3, 5, 0), -15), ((-4, 1, 0, -3), 19), ((-3, 4, 2, 1), 12), ((5, -4, 5, 5), -37))),  # drop inside, drop last, drop with equalities, dual drop, full
    (4, (((2, 4, 2, 2), 1),), (((0, 0, 3, 2), 5), ((0, -1, -2, 1), 8), ((3, 3, -4, 2), 17), ((0, 1, 0, 1), 1), ((0, 3, 1, -1), -5), ((-2, -3, 0, -2), -8), ((-3, 4, 0, 3), -4), ((-2, 0, -3, -1), -4))),  # drop inside, drop last, drop with equalities, dual drop, full, infeasible
    (4, (((3, -3, 3, -2), -1),), (((-3, 0, 0, 0), 6), ((1, 2, -3, -3), 11), ((-3, -4, 4, 2), -15), ((-3, -1, 0, -1), 2), ((-3, -1, 2, 3), 0), ((5, -4, 3, 2), -29), ((-2, -1, -3, 2), 12), ((5, -1, 0, -1), -13))),  # drop first, drop inside, drop last, drop with equalities, dual drop, full, readd
    (4, (((4, 2, -3, 2), 2),), (((-2, 0, 2, 0), -6), ((3, -4, -4, 0), 10), ((3, -3, 0, -3), 3), ((2, 1, 0, 4), -11), ((1, 5, 4, 1), -21), ((-3, -4, 5, 5), -15), ((5, 2, 0, -3), -6), ((-1, 0, 5, 1), -14), ((3, -1, 2, 4), -18))),  # drop first, drop inside, drop last, drop with equalities, dual drop, full, readd
    (4, (((5, 5, 4, 0), -2),), (((0, 0, 5, 3), 21), ((-4, -2, 5, 2), 37), ((2, -2, 0, 3), 4), ((0, 3, -4, 4), -9), ((3, -3, -2, -2), -11), ((5, 4, -2, -1), -30), ((-4, 0, 4, 2), 29), ((4, 4, -2, 4), -18))),  # drop inside, drop last, drop with equalities, dual drop, full, readd
    (4, (((-1, 0, 0, 5), -3),), (((-4, -1, 0, -3), 9), ((2, -4, 2, -1), 9), ((-3, 1, 0, -4), 14), ((1, 0, 0, 2), -5), ((2, -4, 3, -3), 19), ((-3, 0, 2, -1), 10), ((2, 1, -3, -2), -3), ((-2, -4, 2, 3), -1), ((3, 4, 2, 4), -5))),  # drop inside, drop last, drop with equalities, dual drop, full, infeasible, readd
    (4, (((5, 5, 1, 4), 0),), (((1, -1, -1, -2), -1), ((4, 3, 0, -4), -20), ((-4, 0, 3, 5), 11), ((2, 0, 4, -4), -20), ((3, 3, 1, -1), -13), ((1, -2, 0, -3), -2), ((4, 5, -3, -2), -15), ((-2, 1, -1, -3), -10), ((0, 3, 0, -3), -18))),  # drop first, drop inside, drop last, drop with equalities, dual drop, full, tie
    (4, (((5, -3, -1, 0), -2),), (((5, 0, -1, 0), 17), ((-1, 5, 2, 4), 8), ((-2, 3, 0, 0), 0), ((0, -2, -1, -3), -4), ((-2, -2, 1, -1), -9), ((-2, 0, 2, 5), -5), ((0, 3, 0, -4), 0), ((4, 0, 3, 4), 1))),  # drop inside, drop last, drop with equalities, dual drop, full, infeasible, tie
    (4, (((-4, 0, -3, 4), -1),), (((0, -1, 4, 4), -2), ((5, -4, 0, -1), -4), ((-4, 4, 2, 0), 0), ((-3, 3, 1, -4), -8))),  # drop last, drop with equalities, dual drop, full
    (4, (((2, 1, 4, 4), 3),), (((1, 4, 0, 5), -15), ((1, -2, 4, 5), -15), ((-2, 0, 4, 5), -23), ((0, 0, 1, -2), 7), ((4, -4, 0, 4), -1))),  # drop first, drop inside, drop last, drop with equalities, dual drop, full, infeasible, readd
    (4, (((5, 4, 2, 4), 4),), (((0, -1, 3, -4), 2), ((1, 0, 0, 4), -1), ((-3, 3, -4, -1), 3), ((-1, -1, 1, -4), 1), ((-3, 2, -4, 5), 1), ((4, 4, 0, -4), 1), ((0, 0, -3, 3), -2), ((3, -4, 3, 3), -3))),  # drop first, drop inside, drop last, drop with equalities, dual drop, full, infeasible, readd
    (4, (((0, 3, -4, 0), -3),), (((4, 5, -4, 5), -36), ((-3, 4, 0, 0), 2), ((5, 3, -4, 2), -25), ((0, -4, -4, 5), -7), ((0, -2, 0, -3), 14), ((-2, 2, 0, -2), 9), ((0, 1, 4, 2), -7), ((5, -3, 0, -2), -2), ((1, 4, 0, 4), -23))),  # drop first, drop inside, drop last, drop with equalities, dual drop, full, infeasible, readd
    (4, (((3, 3, -4, -4), 2),), (((0, 0, -1, -4), -9), ((2, 0, 1, 0), -9), ((5, 2, 5, -4), -42), ((-2, -3, -2, 4), -6), ((-1, 0, 5, 0), 3))),  # drop last, drop with equalities, dual drop, full, infeasible
    (4, (((-3, 1, 2, 2), 0),), (((4, 3, 5, 3), 17), ((5, -4, -3, -2), -2), ((-4, 5, 2, 0), -8), ((5, 4, 2, -1), -8), ((0, 1, 3, 3), 15))),  # drop last, drop with equalities, dual drop, full, tie
    (4, (((2, 4, 2, -1), -2),), (((4, -1, -2, -1), -3), ((5, -4, 1, -1), -6), ((-4, -2, 4, 0), 1), ((3, 5, 4, 0), 7), ((4, 0, 5, -3), 7), ((5, -3, -1, 3), -20), ((2, 0, -4, 1), -3), ((1, 0, 0, 0), 1), ((-2, 3, -1, 1), 6))),  # drop first, drop inside, drop last, drop with equalities, dual drop, full, infeasible, tie
    (4, (((2, -3, 2, 2), 3),), (((4, 3, -2, 3), 4), ((2, 0, 1, -1), -3), ((1, 0, 0, 0), 2), ((-3, -2, 0, 2), -3), ((2, 4, -3, 4), 0))),  # drop last, drop with equalities, dual drop, full, infeasible, tie
    (4, (((-1, -1, -1, 4), -3),), (((1, 2, -3, 4), -7), ((-3, 0, 4, -3), -2), ((4, 4, 5, -4), -10), ((0, -4, 5, 0), -7), ((0, -3, 4, 3), -13), ((3, 4, 0, 4), 0))),  # drop first, drop inside, drop with equalities, dual drop, full, partial drop
    (4, (((0, 0, 5, 1), 0),), (((2, 1, 0, -1), -4), ((2, 4, 0, -2), -5), ((-1, -3, -4, -3), 15), ((0, 4, 4, -3), -14), ((-4, 1, 5, 5), -8), ((0, 0, 5, -2), -8), ((0, 1, 0, 5), -1))),  # drop first, drop inside, drop with equalities, dual drop, full, infeasible, partial drop
    (4, (((-4, -1, 2, 0), 1),), (((1, -3, 3, -2), -19), ((-4, -2, 4, 3), -5), ((-1, 0, -1, -1), 0), ((-4, -1, 0, -4), -18), ((5, 5, 0, 5), 30))),  # drop first, drop inside, drop with equalities, full, infeasible, partial drop
    (4, (((3, 1, 2, 1), 3),), (((2, -2, -2, -3), -6), ((0, 4, 5, -2), -9), ((1, 4, 5, 3), -2), ((-2, 1, -3, 1), 2))),  # drop first, drop inside, drop with equalities, full, partial drop
    (4, (((4, -2, -4, -1), -2),), (((-3, -4, 5, -1), -5), ((1, 2, 3, 4), -6), ((-3, -4, 3, 3), -6), ((1, -3, -1, -3), -1))),  # drop first, drop inside, drop with equalities, dual drop, full, partial drop, readd
    (4, (((0, 0, 1, 0), -1),), (((1, -2, -1, 1), 4), ((5, 4, 2, 0), -18), ((5, 0, 0, 3), -10), ((-4, 2, -3, -1), -1), ((-4, 2, -1, 4), 2))),  # drop first, drop inside, drop with equalities, dual drop, full, partial drop, readd
    (4, (((-3, -4, -3, -3), 2),), (((-3, 1, 5, -3), -4), ((-3, 4, 0, 2), -4), ((-2, -4, -1, 0), 6), ((4, -1, 0, 1), 1), ((2, 0, 3, 0), -2))),  # drop first, drop inside, drop with equalities, dual drop, full, partial drop, readd
    (4, (((2, 0, -4, 0), 0),), (((-4, 5, -2, -3), 14), ((5, -1, 0, 3), -8), ((0, 1, 3, 2), -3), ((-1, -4, -1, -3), 0), ((-2, 0, 1, 3), 11))),  # drop first, drop inside, drop with equalities, full, infeasible, partial drop, readd
    (4, (((-1, -1, 1, 4), 1),), (((-4, 0, -1, -1), 13), ((4, 5, 4, -2), -18), ((3, 0, 4, 4), -4), ((2, -2, -1, -4), -12), ((3, 4, 0, -2), -13))),  # drop first, drop inside, drop with equalities, full, infeasible, partial drop, readd
    (4, (((-1, 2, 5, 0), -2),), (((-3, 1, -2, 4), 10), ((5, -4, 4, -1), -13), ((0, 3, 5, 0), -14), ((-1, 0, 2, -2), -8), ((1, 0, 0, 1), 1))),  # drop first, drop inside, drop with equalities, full, infeasible, partial drop, readd
    (4, (((0, 5, 4, 0), 3),), (((0, 2, -3, 1), -5), ((1, -4, 0, -4), -11), ((1, 0, -4, -3), -15), ((-3, 3, -2, -1), -7), ((3, 0, 4, 0), 0), ((4, -1, -3, -4), -12))),  # drop first, drop inside, drop with equalities, dual drop, full, partial drop, tie
    (4, (((-1, 0, -1, 5), 0),), (((0, 0, 4, -1), -13), ((2, 4, 5, 0), -13), ((-3, 5, 4, 5), 12), ((0, -4, -3, -4), -2), ((-3, 1, -2, 3), 22), ((0, 4, -2, 4), 20))),  # drop first, drop inside, drop with equalities, full, infeasible, partial drop, tie
    (4, (((1, -3, 3, 3), 4),), (((-4, 2, 5, 5), -27), ((1, 0, 2, -2), 8), ((2, -2, -1, -1), 14), ((-1, 2, 2, -1), -7), ((-4, 5, -4, 3), -33), ((0, 2, 2, 3), -11), ((2, 2, 1, 4), -7), ((-2, 1, 0, 0), -7))),  # drop first, drop inside, drop with equalities, full, partial drop, tie
    (4, (((4, 4, -2, -3), -2),), (((0, 0, 0, -2), -5), ((3, -2, 0, 0), -15), ((-1, -2, 0, -2), -8), ((5, -2, 1, -1), -22), ((0, 4, 5, -2), 13))),  # drop first, drop inside, drop with equalities, dual drop, full, partial drop, two drops
    (4, (((3, 5, -3, 0), 0),), (((1, -4, 1, -2), -11), ((-2, 0, 2, 3), 3), ((-4, 1, -2, 1), 12), ((3, -4, 4, 0), -15), ((-2, 2, -2, 0), 10))),  # drop first, drop inside, drop last, drop with equalities, dual drop, full, partial drop
    (4, (((1, 1, 1, -2), 1),), (((-1, 2, -2, 1), -2), ((4, 4, -4, -4), -44), ((1, 4, -2, -3), -28), ((-1, -3, 2, 3), 27), ((-4, -3, 0, 0), 22), ((0, -4, 2, 1), 20), ((3, -1, -1, -2), -14))),  # drop first, drop inside, drop last, drop with equalities, full, infeasible, partial drop
    (4, (((4, 2, -2, -4), 1),), (((4, -2, -1, 5), -1), ((2, 2, 5, -3), 9), ((-1, -2, -2, -3), -6), ((-1, 0, -1, 2), 3), ((-2, -1, -2, -2), -6), ((1, -1, -1, 0), -4))),  # drop first, drop inside, drop last, drop with equalities, full, partial drop
    (4, (((1, 2, -2, -3), 3),), (((1, 3, 4, 4), -24), ((-3, 5, 4, 3), -15), ((-2, 0, 2, -4), 14), ((-2, 1, 0, -3), 13), ((5, -3, 5, -2), -9), ((0, -4, 5, -2), 2), ((0, -3, -4, -3), 20), ((3, -3, -1, -2), 6))),  # drop inside, drop last, drop with equalities, dual drop, full, partial drop
    (4, (((-1, -1, -2, -3), -4),), (((4, 2, -1, 4), -19), ((3, -1, -1, 0), 2), ((0, -1, -2, 4), -9), ((-2, 5, 4, 1), -12), ((0, 2, 3, 5), -16))),  # drop first, drop inside, drop last, drop with equalities, full, partial drop, readd
    (4, (((0, -3, 2, -4), 4),), (((3, 5, -2, -4), -25), ((2, 0, 2, -3), 2), ((-1, 2, -4, 0), -6), ((3, 4, -3, -2), -25), ((0, -3, 1, 2), 14), ((0, 0, 0, 2), -6), ((3, 4, -4, 4), -28), ((5, -1, -3, -4), -14))),  # drop first, drop inside, drop last, drop with equalities, full, partial drop, readd
    (4, (((-4, -2, 5, 0), -2),), (((0, 0, -3, -2), 8), ((0, 3, 4, 0), 0), ((-1, -4, 4, 2), -14), ((-1, -4, -3, -3), 3), ((3, 1, 2, 3), -11), ((-2, -2, -4, 2), 7), ((5, 5, 1, 4), -6), ((4, -1, 1, 2), -14))),  # drop first, drop inside, drop last, drop with equalities, full, partial drop, readd
    (4, (((2, 4, 0, -4), -3),), (((5, 1, 5, -4), 20), ((-1, -3, 4, 2), 2), ((0, -3, 4, 3), 1), ((-4, -3, 1, -1), 6), ((4, 4, -4, 1), -7))),  # drop inside, drop last, drop with equalities, dual drop, full, partial drop, readd
    (4, (((1, 2, 0, 0), -1),), (((4, 4, 4, -1), -11), ((0, 3, 5, -4), -8), ((-1, -2, 3, 0), -7), ((2, 2, 3, -1), -4), ((5, 0, 1, 2), -14), ((-1, 3, 4, 0), 1), ((-2, -4, -3, 2), 7))),  # drop inside, drop last, drop with equalities, dual drop, full, partial drop, readd
    (4, (((1, 3, 2, -3), 2),), (((4, -2, -2, 5), -5), ((0, 5, 4, 0), 2), ((-3, 5, -1, -1), 1), ((0, 0, 0, 2), -2), ((3, 4, -3, -2), 3), ((-4, 0, 5, 0), 1))),  # drop inside, drop last, drop with equalities, dual drop, full, partial drop, two drops
    (4, (((-1, -2, -4, 5), 2),), (((-1, 5, 0, 1), 13), ((4, 5, -3, 5), 37), ((5, -1, 4, -4), 5), ((0, 1, 2, -3), -5), ((-3, 1, 0, -3), -8), ((1, 5, 2, -4), 12))),  # drop first, drop last, drop with equalities, dual drop, full, partial drop
    (4, (((3, 4, 0, -1), 4),), (((0, 2, 2, 0), 1), ((1, 3, 0, -1), -3), ((3, -3, 2, 0), 13), ((2, 0, 5, 4), 11), ((-4, 5, -2, 0), -17), ((4, 3, 0, 0), 7), ((3, 3, 0, -2), 7), ((0, 4, 0, 3), -7))),  # drop first, drop last, drop with equalities, dual drop, full, infeasible, partial drop
    (4, (((4, 3, 2, 1), -4),), (((-2, 1, 1, -4), -7), ((4, -4, 0, 5), 15), ((-2, 0, 0, 0), -6), ((4, -4, 2, 1), 13))),  # drop first, drop inside, drop last, drop with equalities, dual drop, full, partial drop, readd
    (4, (((1, -4, 2, -4), 1),), (((-4, 2, 5, -4), -22), ((-2, -1, 2, -4), -20), ((5, 1, 0, 1), 7), ((3, 5, 2, 0), 5), ((0, -1, 0, -1), -4))),  # drop first, drop inside, drop last, drop with equalities, dual drop, full, partial drop, readd
    (4, (((2, 1, 0, -3), 1),), (((-4, 3, 4, 1), 18), ((5, 1, -2, -4), -13), ((3, -4, 0, 1), -15), ((5, 3, 3, -4), -8), ((3, 3, 4, 2), -2))),  # drop first, drop inside, drop last, drop with equalities, dual drop, full, partial drop, readd
    (4, (((-1, 5, 4, 5), 0),), (((5, -1, 5, -3), -5), ((5, -4, -3, 4), -13), ((4, -4, 2, -3), -2), ((-1, -3, 1, 5), 5), ((-3, -3, 3, 0), 18), ((2, 5, -1, -2), -15))),  # drop last, drop with equalities, dual drop, full, partial drop
    (4, (((-3, 0, 1, 4), 3),), (((-2, -4, -4, 2), -9), ((-1, 1, 3, 1), 5), ((-4, -1, -2, 3), -3), ((-2, 3, 0, -3), 17), ((0, 2, 4, 4), -5), ((4, 0, 1, 4), -19))),  # drop first, drop inside, drop last, drop with equalities, full, infeasible, partial drop, readd
    (4, (((-3, 0, 0, -3), -3),), (((5, 3, -2, -2), -27), ((-4, 3, -2, 5), 0), ((-1, 1, 3, -4), 5), ((1, 3, 2, 2), -2), ((3, 4, -1, 4), -16), ((1, -1, 0, 0), 2))),  # drop first, drop inside, drop last, drop with equalities, full, infeasible, partial drop, readd
    (4, (((5, 5, 5, 5), 4),), (((2, 1, 0, 3), -14), ((3, -4, -1, 1), -2), ((3, 1, -1, -4), 8), ((1, 0, -1, -1), 4), ((-4, 5, -3, 0), 8), ((1, 2, -4, 3), -7), ((5, 1, 0, 3), -19), ((3, 0, -4, 1), -4), ((-2, -3, 3, -4), 17))),  # drop first, drop inside, drop last, drop with equalities, full, infeasible, partial drop, readd
    (4, (((-1, 4, 2, -3), -2),), (((5, -4, 1, 0), -4), ((0, -3, 4, -3), -11), ((0, -2, -4, 0), 1), ((0, 0, 2, 2), 2), ((0, -1, -2, 1), 3), ((-3, -2, -3, 4), 2))),  # drop first, drop inside, drop last, drop with equalities, dual drop, full, infeasible, partial drop
    (4, (((-4, 0, 2, 3), 2),), (((-4, 1, 0, -1), -15), ((1, 0, 4, -4), -16), ((4, 5, 2, 1), 12), ((-3, 0, 3, 0), -13), ((0, -1, -3, 2), 13), ((-2, 1, 0, 4), 7))),  # drop first, drop inside, drop last, drop with equalities, dual drop, full, infeasible, partial drop, readd
    (4, (((2, -1, -2, -3), 1),), (((-3, -1, 3, 5), -15), ((4, -2, -4, 4), -5), ((0, 3, 2, -1), -6), ((5, 3, -4, -4), 13), ((1, 1, -1, -3), 10), ((5, 3, 5, 1), -29), ((0, 1, 0, -1), 4))),  # drop first, drop inside, drop last, drop with equalities, dual drop, full, infeasible, partial drop, readd
    (4, (((-4, 2, 5, 2), 2),), (((-2, 1, 0, -2), 13), ((0, 0, 2, 5), -20), ((3, -3, -1, 3), -15), ((2, 0, 0, 1), -7), ((-1, 0, 1, -4), 12), ((2, 5, -2, 3), -6), ((4, 0, -3, 2), -4), ((-1, -3, 4, 1), -15))),  # drop first, drop inside, drop last, drop with equalities, dual drop, full, infeasible, partial drop, readd
    (4, (((0, 3, 4, 3), 2),), (((5, 1, 3, 5), 11), ((5, -4, -3, 5), 24), ((-4, 1, 3, -4), -16), ((4, 4, 1, 3), 9), ((-3, 1, 5, 1), -13), ((-4, -4, 3, 0), -11), ((0, 0, 0, 1), 1), ((1, 3, 2, -2), 0))),  # drop first, drop last, drop with equalities, dual drop, full, infeasible, partial drop, readd
    (4, (((0, 1, 2, 1), 0),), (((-1, -3, 3, -3), 7), ((3, 0, 0, 1), -5), ((-1, -3, 2, -1), 0), ((0, 1, 0, 0), 5), ((5, 5, -2, 5), -7), ((-4, -1, -3, -2), 1), ((4, 2, 4, 2), 6), ((5, -1, 4, -1), 5))),  # drop first, drop last, drop with equalities, dual drop, full, infeasible, partial drop, readd
    (4, (((0, 0, 3, 0), -2),), (((0, -3, 0, -3), 9), ((-3, -3, 0, 5), -21), ((3, 5, -4, 0), 19), ((0, 5, 1, -4), 9), ((2, 0, 2, -4), 11), ((5, 4, -2, -4), 28), ((0, -1, -4, 1), 11), ((5, 4, -2, -4), 30), ((-3, -2, 5, 1), -24))),  # drop first, drop last, drop with equalities, dual drop, full, infeasible, partial drop, readd
    (4, (((1, -1, 3, 1), 3),), (((1, 4, 5, -3), 21), ((-3, -2, 3, 0), 16), ((4, 4, 4, 5), -10), ((-2, 5, -2, -3), 0), ((-4, -2, 3, -3), 26), ((3, -1, -4, 2), -19), ((3, 0, -3, -3), -1), ((0, -3, 4, 3), 6))),  # drop last, drop with equalities, dual drop, full, infeasible, partial drop
    (4, (((-1, 3, 0, 3), -4),), (((-4, 0, 1, 0), 9), ((1, 4, -4, -4), -5), ((1, 0, 5, 5), 0), ((2, -2, -1, -2), -2))),  # drop first, drop last, drop with equalities, full, infeasible, partial drop, readd
    (4, (((2, -2, 2, 0), -4),), (((4, 0, -1, 0), -1), ((-2, -1, 4, 4), 1), ((4, 0, 5, 0), -17), ((2, -3, -4, -1), 5), ((-3, 5, 4, -3), -13))),  # drop first, drop last, drop with equalities, full, infeasible, partial drop, readd
    (4, (((0, -1, 3, -2), -2),), (((2, -2, -2, 1), -12), ((5, -2, 0, 4), -18), ((0, 2, 2, -2), 8), ((0, 0, -3, 2), -9), ((-1, 0, -2, 3), -4))),  # drop first, drop last, drop with equalities, full, infeasible, partial drop, readd
    (4, (((0, -3, 2, -3), -3),), (((4, 4, 2, -4), 6), ((-3, -1, -3, -1), -7), ((0, -3, 0, -1), -8))),  # drop first, drop last, drop with equalities, full, partial drop, readd
    (4, (((0, 5, -3, 4), 3),), (((5, -4, 0, 1), -6), ((0, -4, 2, -3), -7), ((0, 5, 3, -1), 17), ((5, 4, -1, -1), 22))),  # drop first, drop last, drop with equalities, full, partial drop, readd
    (4, (((2, -3, 5, 1), 4),), (((-4, 2, 2, -3), -13), ((2, -2, 0, 5), 12), ((1, 0, 4, -2), -8), ((-1, 5, 4, 0), 2))),  # drop first, drop last, drop with equalities, full, partial drop, readd
    (4, (((2, 3, 3, -4), -1),), (((0, 3, 4, 4), -24), ((3, 2, -1, 3), -15), ((0, -2, 0, -3), 12), ((0, 0, -2, 2), 1), ((1, 1, -1, -4), 5))),  # drop last, drop with equalities, full, infeasible, partial drop, readd
    (4, (((0, 0, 5, 4), 0),), (((-1, 0, 5, -4), -11), ((5, -3, 1, -4), -9), ((1, 0, 5, 2), -16), ((3, 3, 4, 5), -20), ((5, -4, 2, 0), -10), ((-1, -1, -3, 0), 12))),  # drop last, drop with equalities, full, infeasible, partial drop, readd
    (4, (((0, 2, -4, 1), -4),), (((-1, -2, -1, -1), 9), ((0, -2, 5, -3), 4), ((0, 2, 0, 3), -11), ((1, -3, 5, 4), -14), ((1, -3, 0, 0), 8), ((0, 4, 5, -1), -14), ((-1, 1, 0, -4), 11))),  # drop last, drop with equalities, full, infeasible, partial drop, readd
    (4, (((0, -2, -2, -1), 1),), (((0, 3, 3, 0), 7), ((-1, 0, 1, 2), 4), ((5, 1, -4, -2), -22), ((-1, 3, -2, 2), -10), ((4, 0, 0, 3), -16), ((2, 1, -1, 3), -16), ((4, 4, -4, -1), -24), ((-1, 0, -2, -4), -5))),  # drop first, drop inside, drop last, drop with equalities, dual drop, full, partial drop, tie
    (4, (((0, -2, 0, 1), -3),), (((4, -2, 5, 2), -5), ((2, 0, 2, -1), -2), ((-2, -1, -1, 1), -4), ((0, 5, -2, 4), 30), ((-4, -3, -1, 3), -10), ((4, 1, -4, -1), 25), ((1, 1, 3, 3), 4), ((5, 1, 2, -3), 8), ((4, 0, -3, -2), 18))),  # drop first, drop inside, drop last, drop with equalities, full, infeasible, partial drop, readd, tie
    (4, (((-2, -2, 0, -2), 4),), (((1, 4, -1, -2), 1), ((-3, -3, 1, -1), 1), ((-2, 5, 0, -3), 2), ((-4, -4, -3, 5), -2), ((1, 0, 0, 2), 1), ((5, 1, -1, 1), 0))),  # drop first, drop last, drop with equalities, full, infeasible, partial drop, readd, tie
    (4, (((-4, 0, -3, 0), 4),), (((-4, 1, 3, -3), 8), ((-2, -4, 1, -2), -4), ((3, 1, 0, 0), -3), ((4, 4, -1, 2), 2), ((-4, 0, -3, -1), 1), ((5, 2, 0, 3), 1))),  # drop first, drop last, drop with equalities, full, partial drop, readd, tie
    (4, (((3, 5, 2, 0), 0),), (((-1, 5, -4, 0), 8), ((-2, 0, 4, 4), -1), ((1, -2, 0, 3), 3), ((0, 3, -1, -4), 1), ((5, -3, -3, 5), 12), ((-1, -4, 0, 2), -1), ((0, 3, 0, 0), 3), ((0, 2, 2, 5), 7))),  # drop first, drop last, drop with equalities, full, partial drop, readd, tie
    (4, (((4, 5, -4, 4), 0),), (((-3, -2, -2, 5), -16), ((2, -4, 4, 5), -16), ((2, -3, 4, 0), -3), ((0, -1, 0, 0), 0), ((-3, 0, 0, 0), -7), ((-3, 5, -1, 0), -2))),  # drop first, drop inside, drop last, drop with equalities, dual drop, full, partial drop, tie, two drops
    (4, (((-1, -3, -2, -4), 2),), (((-1, 2, 2, -3), 11), ((5, -4, -4, -1), 7), ((2, 0, 2, 3), -5), ((0, 1, 1, 3), -7), ((5, 2, -1, -1), 18), ((2, -3, 5, 0), -1), ((-4, -3, 2, 2), -20))),  # drop first, drop last, drop with equalities, full, partial drop, two drops
    (4, (((1, 0, -1, 1), -2),), (((-1, 2, 2, -2), -17), ((0, 2, 5, 1), -16), ((2, -3, 4, 0), -4), ((1, 5, 0, -4), -21), ((5, -3, 4, 3), 9), ((3, 5, 3, -1), -17), ((0, -4, -1, 3), 22))),  # drop first, drop inside, drop last, drop with equalities, full, partial drop, readd, two drops
    (4, (((-2, 5, 1, -1), -2),), (((0, 5, 0, -4), -18), ((3, 5, 3, 5), 5), ((0, 5, 0, -3), -15), ((0, -2, -3, -2), -7))),  # drop first, drop inside, drop last, drop with equalities, dual drop, full, partial drop, two drops
    (4, (((-4, -3, 4, 2), -4),), (((3, 4, 2, 3), -23), ((4, 5, -2, 1), -8), ((0, 1, -1, 0), 3), ((1, 5, 2, 4), -25), ((4, -4, 2, -1), 1), ((-3, -2, 0, -4), 17), ((5, -2, -1, 5), -7))),  # drop first, drop inside, drop last, drop with equalities, dual drop, full, partial drop, readd, two drops
    (4, (((5, -2, 4, 0), -3),), (((3, 0, 1, 0), -8), ((0, 0, 4, 2), 0), ((-1, 3, -3, -1), -2), ((2, 0, -2, 0), -4), ((4, 5, -2, -4), -13), ((-3, 4, 2, 4), -15), ((0, 1, 4, 1), -6), ((1, -1, -3, 0), 0))),  # drop first, drop inside, drop last, drop with equalities, dual drop, full, partial drop, readd, two drops
    (4, (((-2, 2, 0, 2), 3),), (((1, 5, -4, 3), 4), ((0, -2, -4, 4), 31), ((0, 3, -1, -1), -9), ((-1, -4, -1, 0), 19), ((2, -1, -2, -4), -7), ((-2, 4, -3, -2), 3), ((-1, 5, -3, -4), -16), ((-3, 3, 5, 4), -5))),  # drop first, drop inside, drop last, drop with equalities, dual drop, full, partial drop, readd, two drops
    (4, (((3, 2, -1, -3), 2),), (((0, 3, 3, 3), 0), ((-2, -4, -4, -4), 2), ((-4, 5, -3, 2), 8), ((4, -4, 3, -3), -9), ((0, 3, 0, -1), 1))),  # drop last, drop with equalities, dual drop, full, partial drop, two drops
    (4, (((5, -1, 5, 5), 4),), (((5, -3, -2, -4), -12), ((-3, 1, 2, 4), 8), ((2, 0, 3, -1), -10), ((0, -1, -4, 5), 27), ((3, 5, 3, 2), 8), ((0, -1, -4, -4), -1), ((4, -1, 4, 3), -6), ((1, 0, 1, -1), -4))),  # drop first, drop inside, drop last, drop with equalities, full, infeasible, partial drop, two drops
    (4, (((-1, 0, -1, 3), -1),), (((-1, -3, 3, 4), -6), ((-4, 5, 0, 0), -1), ((0, 1, -3, 0), 3), ((-1, 0, 5, -4), 6), ((-1, 2, 0, 3), 0), ((0, 0, 1, 0), -2), ((-1, 3, 0, 4), 0))),  # drop first, drop inside, drop last, drop with equalities, full, infeasible, partial drop, readd, two drops
    (4, (((-4, 1, 3, -3), 0),), (((4, 3, -2, 0), -3), ((3, 3, 1, 3), -7), ((2, 5, -4, 5), 5), ((-4, 3, 3, -2), -13), ((1, 5, 0, -4), -15), ((-1, 4, 5, 0), -20), ((4, -2, 3, 0), -8), ((-4, 0, -2, -1), 9))),  # drop first, drop inside, drop last, drop with equalities, full, infeasible, partial drop, readd, two drops
    (4, (((-4, 4, -3, 5), -1),), (((-3, -4, 4, -4), -19), ((-4, -1, -4, 3), 15), ((-1, 4, 1, 3), 0), ((-2, 5, 4, -1), -20), ((4, 0, 5, 0), -11), ((4, -4, 5, 2), -3), ((3, 0, 2, -2), -6))),  # drop first, drop inside, drop last, drop with equalities, dual drop, full, infeasible, partial drop, two drops
    (4, (((2, 0, 0, -1), 0),), (((-3, 0, 3, -1), 22), ((4, 0, 2, 5), -21), ((-1, -1, 5, -4), 33), ((4, 1, -1, -3), -7), ((0, 3, 1, 0), -5), ((3, 4, -1, 0), -23), ((-2, 0, -4, 3), -15))),  # drop first, drop inside, drop last, drop with equalities, dual drop, full, infeasible, partial drop, readd, two drops
    (4, (((2, 4, 3, 3), 4),), (((0, -2, -3, 0), 6), ((2, 3, 0, 3), 11), ((4, -1, -2, 1), 7), ((3, -1, -3, 3), 12), ((2, 3, 5, 2), -7), ((-4, 2, 0, 1), 6), ((1, -3, 4, 5), -11), ((3, 1, 3, -3), -10))),  # drop first, drop inside, drop last, drop with equalities, dual drop, full, infeasible, partial drop, readd, two drops
    (4, (((1, 5, 5, -4), -4),), (((0, 3, 5, -2), -7), ((4, 3, -4, -1), 0), ((2, 2, 2, -2), -10), ((-2, -4, -3, 1), 11), ((-4, 5, 0, 5), 24), ((5, -4, -4, 0), -10), ((0, -1, 5, 1), -8), ((3, 4, 3, -3), -12))),  # drop first, drop inside, drop last, drop with equalities, dual drop, full, infeasible, partial drop, readd, two drops
    (4, (((0, -2, 0, 5), 4),), (((-2, 0, -1, -2), -5), ((-1, 4, 0, 0), 13), ((0, 4, -3, 5), 31), ((-4, 4, -1, 2), 15), ((0, -2, 3, 5), 8), ((-2, 4, 5, 5), 22), ((1, -3, 0, -3), -17))),  # drop inside, drop last, drop with equalities, dual drop, full, infeasible, partial drop, readd, two drops
    (4, (((3, -3, -2, 1), 2),), (((-4, -4, 3, 5), 17), ((0, 0, -4, 0), -7), ((4, -3, 5, 3), 38), ((-2, 0, -3, 0), -12), ((-3, 4, 1, -4), -27), ((-4, 1, 3, 0), -7))),  # drop last, drop with equalities, dual drop, full, infeasible, partial drop, readd, two drops
    (4, (((5, 5, 0, 0), -1),), (((5, 4, 0, 0), -1), ((-2, -4, -1, 3), 19), ((0, 0, 4, 0), -8), ((-3, -3, -4, 4), 25), ((-1, 3, 2, 0), -11), ((2, -2, -4, -1), 11), ((-1, 5, 1, -3), -21))),  # drop last, drop with equalities, dual drop, full, infeasible, partial drop, two drops
    (4, (((1, -4, -1, 3), -1),), (((-2, -1, 5, 5), 15), ((0, 5, 4, 1), 10), ((-1, 0, 0, 3), 6), ((2, 4, 5, -4), 1), ((1, -3, -1, -2), -9), ((2, -4, -4, -4), -16))),  # drop first, drop last, drop with equalities, full, infeasible, partial drop, readd, two drops
    (4, (((-2, 0, -4, 2), -4),), (((0, -1, 0, 5), 9), ((2, 2, -2, -4), -12), ((-4, -3, 2, 4), 19), ((2, -4, -1, 1), -7), ((-4, -2, 4, 1), 13), ((2, 0, 2, -1), -7), ((-3, 0, -4, 0), 10))),  # drop first, drop last, drop with equalities, full, infeasible, partial drop, readd, two drops
    (4, (((-2, 1, 3, -1), 2),), (((4, 5, 3, -4), 9), ((5, -1, -2, 3), -10), ((0, 0, -3, 5), -19), ((-2, -1, 0, -1), 4), ((-2, -1, 0, 0), 4), ((3, -1, -4, 3), -14), ((-3, -3, -4, 4), -13))),  # drop first, drop last, drop with equalities, full, infeasible, partial drop, readd, two drops
    (4, (((3, -1, -3, 4), 3),), (((5, 1, 0, 0), 3), ((4, 5, 3, 0), 0), ((-2, 4, -3, -3), 21), ((-2, -1, 5, 0), -17), ((3, -1, 3, 5), -14), ((-4, -3, -1, 0), -2), ((4, 2, -4, 4), 12), ((-1, 0, 3, 5), -14), ((0, 4, 3, 4), -5))),  # drop first, drop last, drop with equalities, full, partial drop, readd, two drops
    (4, (((-1, 0, -1, 0), 3),), (((1, 2, 0, 1), 3), ((-1, -2, 2, -3), -8), ((-1, -2, 0, 3), -1), ((-1, 1, -4, 5), 10), ((4, 1, 2, -4), 6), ((-1, -1, 0, 0), -3), ((-3, 1, 2, 2), -15), ((0, -4, 5, 1), -14), ((5, 2, -3, 3), 25))),  # drop last, drop with equalities, dual drop, full, partial drop, readd, two drops
    (4, (((3, 0, 0, -2), 3),), (((4, 1, -1, -4), -10), ((5, 5, -4, -3), -15), ((-2, 1, 1, -4), -8), ((3, 4, 3, 3), -1), ((-3, -4, 0, 0), 9), ((-1, -3, 5, -4), -2))),  # drop first, drop inside, drop with equalities, dual drop, full, infeasible, partial drop, readd
    (4, (((-4, 0, 0, 1), 4),), (((4, 3, 0, 5), 10), ((4, 2, 2, 4), 2), ((-2, -3, -1, 2), 15), ((-4, -3, -1, 0), 10), ((-2, 1, 4, -2), -18), ((1, 5, 1, -3), -22), ((-4, 5, 5, 1), -20))),  # drop first, drop inside, drop with equalities, dual drop, full, infeasible, partial drop, readd
    (4, (((5, 2, 1, 5), -2),), (((-4, 0, -2, -3), 8), ((5, 1, 1, 4), -5), ((-3, -1, 2, -4), 0), ((3, 0, -3, -4), -5), ((0, 5, 0, 0), 2), ((0, 1, 3, 0), -2), ((-2, 1, 0, 5), 11))),  # drop first, drop inside, drop with equalities, dual drop, full, infeasible, partial drop, readd
    (4, (((-4, 5, 3, 2), 2),), (((-4, 5, 0, 0), -5), ((5, -3, 4, 5), -4), ((0, 5, 2, 5), -24), ((1, 3, 5, -3), 14), ((0, 2, -4, 5), -32))),  # drop first, drop inside, drop with equalities, dual drop, full, partial drop, readd, two drops
    (4, (((-4, -3, -2, 1), 4),), (((-4, -2, -2, 5), -12), ((5, -2, 0, -1), 6), ((-2, 3, 2, 1), -2), ((-4, 2, 1, -1), -4), ((4, 2, 5, 0), 0), ((0, -1, 2, -3), -2), ((0, -3, 1, 4), -15))),  # drop first, drop inside, drop with equalities, dual drop, full, partial drop, readd, two drops
    (4, (((0, 3, 0, 4), -4),), (((1, 5, 2, 0), -1), ((0, 0, 0, 2), 6), ((-2, -3, -1, -2), -1), ((0, 1, -4, -3), 2), ((-3, 1, 4, -1), -3), ((1, 3, 2, -3), -11), ((-1, 2, 4, -4), -12), ((0, -3, -2, -2), 3))),  # drop first, drop inside, drop with equalities, dual drop, full, partial drop, readd, two drops
    (4, (((0, -4, 0, 2), 4),), (((3, 3, -4, -3), -5), ((3, 0, -2, -2), -3), ((-1, -3, -2, -3), -14), ((1, -2, -3, -3), -13), ((4, -2, 3, -4), 5), ((-2, 0, -4, -2), -15), ((2, 1, 3, 1), 16), ((-4, -4, 0, -4), -15))),  # drop first, drop inside, drop with equalities, dual drop, full, partial drop, tie1, two drops
    (4, (((4, 1, -1, 0), 2),), (((0, -2, -4, -4), 6), ((5, 0, 4, 2), 6), ((0, 1, -2, 0), -6), ((0, -3, -4, 4), -8), ((0, 1, 1, 1), 0), ((0, 4, -3, 3), -12), ((-3, -3, -1, 2), -5))),  # drop first, drop inside, drop with equalities, dual drop, full, infeasible, partial drop, two drops
    (4, (((-4, 0, 1, 5), -2),), (((-2, 5, 2, 2), -7), ((2, 1, 1, -3), -7), ((0, -3, -4, -2), 9), ((-2, 0, 3, -3), -22), ((0, 4, 0, -4), -14), ((3, 0, -1, 0), 11), ((-1, -3, 4, 3), -1))),  # drop first, drop inside, drop with equalities, dual drop, full, infeasible, partial drop, readd, two drops
    (4, (((0, 3, 2, 1), -2),), (((-1, -4, 2, 4), 4), ((0, 2, 2, 2), -4), ((4, 5, -3, -4), -8), ((5, 3, 0, 4), -14), ((5, -4, -2, 4), -4), ((0, -2, -4, 4), -10), ((-4, -3, 4, 3), 10), ((1, 1, 2, -4), 11))),  # drop first, drop inside, drop with equalities, dual drop, full, infeasible, partial drop, readd, two drops
    (4, (((-4, 4, 1, 5), 3),), (((1, -1, 2, 4), -15), ((2, 3, -3, -3), 1), ((-2, 1, 5, 0), -6), ((1, 2, -4, 4), -7), ((3, -2, 2, -1), -5), ((-2, 0, 2, 1), -2), ((1, 3, -1, -3), 1), ((3, -1, 4, -4), 0))),  # drop first, drop inside, drop with equalities, dual drop, full, infeasible, partial drop, readd, two drops
    (4, (((2, 0, -4, -3), 2),), (((1, 5, 5, -1), 13), ((2, 4, -4, 2), 17), ((-2, 0, -4, 5), 0), ((-2, 0, 3, 0), -6), ((1, 4, 5, -1), 11), ((1, 0, -4, 0), 1), ((1, 0, 4, 3), 6), ((0, 0, 4, 2), 3))),  # drop last, drop with equalities, dual drop, infeasible
    (4, (((0, 5, 0, -1), 4),), (((5, -2, -2, 3), 0), ((4, 1, -1, 4), -23), ((0, 0, 0, 1), -3), ((1, -3, 0, 0), -5), ((5, -3, 3, 3), 1), ((2, 0, 0, 5), -21), ((4, -3, 2, -4), -2))),  # drop first, drop inside, drop with equalities, dual drop, partial drop
    (4, (((5, 0, 0, 2), -2),), (((3, -3, 5, 0), -22), ((5, 0, 1, -1), -17), ((-1, 0, 1, 5), 2), ((2, 0, -4, -4), 4), ((0, 0, 1, -4), -2))),  # drop first, drop inside, drop with equalities, infeasible, partial drop
    (4, (((1, 2, 4, 3), -4),), (((0, 0, -3, -4), -4), ((5, -1, -1, 2), 6), ((-1, 5, 0, -1), 13), ((-1, 2, 0, 4), 11), ((2, 3, 0, 4), 16), ((-4, 5, 0, 4), 16), ((0, -1, -1, -2), -3), ((3, -4, 2, 0), -8))),  # drop first, drop inside, drop with equalities, infeasible, partial drop, readd
    (4, (((0, 0, 5, 5), -2),), (((-3, 5, 2, 3), -7), ((4, 2, 1, 1), -6), ((-2, 3, 2, 3), -7))),  # drop first, drop inside, drop with equalities, partial drop, tie
    (4, (((0, -2, -3, -3), 1),), (((4, -3, -3, 1), -9), ((1, -3, -2, 5), -20), ((0, 5, 0, 2), 4), ((0, -3, 4, 5), -20), ((0, 2, 1, 1), 2))),  # drop first, drop inside, drop last, drop with equalities, dual drop, partial drop
    (4, (((-1, 2, -3, -2), 1),), (((4, 1, 0, 0), -5), ((1, 5, 0, 4), 2), ((3, 2, 0, 0), -10), ((4, -2, 4, 0), -9), ((-3, 0, -3, -3), 5), ((5, -2, 3, -4), -19), ((-3, 4, -2, 5), 17), ((-1, 0, -4, 4), 13), ((0, -2, 1, 2), 7))),  # drop first, drop inside, drop last, drop with equalities, infeasible, partial drop
    (4, (((-1, -2, -1, 1), 0),), (((-1, -4, 0, -2), -5), ((-3, -2, 3, -2), -9), ((-2, 0, 0, 3), 1), ((0, -1, 0, -1), -2), ((-4, 1, -1, 3), -6))),  # drop first, drop inside, drop last, drop with equalities, partial drop
    (4, (((0, 3, -3, 0), -1),), (((-3, -1, -1, 4), -11), ((1, 1, 0, -3), 3), ((-3, 0, 2, 0), -4), ((-3, 0, -1, 2), -11))),  # drop first, drop inside, drop last, drop with equalities, partial drop, readd
    (4, (((5, 0, -2, 0), -2),), (((-3, 2, 0, 2), -19), ((5, 4, 2, -1), 12), ((0, 4, -3, -2), -12), ((2, 5, 0, 2), -13), ((-2, 5, 0, 2), -26), ((0, -3, -1, 3), -2))),  # drop first, drop inside, drop last, drop with equalities, partial drop, tie1, two drops
    (4, (((0, -2, -1, -3), -1),), (((0, -3, 3, -2), -5), ((0, 1, 1, 0), -5), ((0, 1, 0, -3), -6), ((5, -1, 5, 5), 29), ((4, 0, -2, 1), 4), ((-4, 0, 3, 2), 10), ((0, 2, 1, -1), 3))),  # drop first, drop inside, drop last, drop with equalities, dual drop, partial drop, two drops
    (4, (((1, 0, 1, -4), -4),), (((-2, 3, 5, 5), 1), ((0, 1, 0, 3), -5), ((-3, 5, 3, 0), -12), ((4, 4, -4, 5), -8), ((0, 5, 0, -3), -5))),  # drop first, drop inside, drop last, drop with equalities, partial drop, two drops
    (4, (((5, -1, 5, 0), 0),), (((3, -2, 3, 4), -5), ((-2, -1, -2, 3), 4), ((0, -1, 0, 0), -5), ((2, 0, 2, -1), -2))),  # drop first, drop last, drop with equalities, infeasible, partial drop, readd, tie
    (4, (((0, 0, 0, 5), -2),), (((0, 5, 5, 0), 2), ((5, -3, 2, -1), 0), ((4, -4, -3, 0), -6), ((2, 0, 0, 2), -4))),  # drop first, drop last, drop with equalities, partial drop, two drops
    (4, (((-3, -1, 2, 1), 4),), (((-4, 0, 0, 0), -10), ((3, -4, 1, 4), 20), ((-4, -2, -3, -1), -13), ((0, 4, -1, -4), -2), ((4, 1, -3, 5), 5), ((-1, 4, 3, -4), -4), ((-1, 1, -4, 0), -11), ((0, -3, -2, -2), 4))),  # drop first, drop last, drop with equalities, infeasible, partial drop, readd, two drops
    (4, (((1, 0, 1, 5), 0),), (((-1, 1, -2, 0), -6), ((5, -4, -1, 0), 6), ((-1, -2, -2, 0), 2), ((-1, 0, 5, -1), 14), ((-4, 2, 0, 3), 8), ((-4, 4, -3, 1), -12))),  # drop first, drop last, drop with equalities, partial drop, readd, two drops
    (4, (((2, -1, 3, 3), 4),), (((1, -2, 0, -2), 2), ((-4, 4, -2, 1), -9), ((-1, -1, 3, 1), -5))),  # drop first, drop inside, drop with equalities, partial drop
]

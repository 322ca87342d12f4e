"""documented default search domains ('Input domain' of each problem's documentation); D is the dimension"""
h = lambda a, b=None: (lambda D: (-a if b is None else a, a if b is None else b))
import math
DOM = {'Ackley': h(32.768), 'Alpine1': h(10), 'Alpine2': h(0, 10), 'BentCigar': h(100), 'ChungReynolds': h(100), 'CosineMixture': h(1), 'Csendes': h(1), 'Discus': h(100), 'DixonPrice': h(10), 'Elliptic': h(100),
       'ExpandedGriewankPlusRosenbrock': h(100), 'ExpandedSchaffer': h(100), 'Griewank': h(100), 'HGBat': h(100), 'HappyCat': h(100), 'Katsuura': h(100), 'Levy': h(10), 'Michalewicz': h(0, math.pi), 'ModifiedSchwefel': h(100),
       'Perm': lambda D: (-D, D), 'Pinter': h(10), 'Powell': h(-4, 5), 'Qing': h(500), 'Quintic': h(10), 'Rastrigin': h(5.12), 'Ridge': h(64), 'Rosenbrock': h(30), 'Salomon': h(100), 'SchafferN2': h(100), 'SchafferN4': h(100),
       'SchumerSteiglitz': h(100), 'Schwefel': h(500), 'Schwefel221': h(100), 'Schwefel222': h(100), 'Sphere2': h(1), 'Sphere3': h(65.536), 'Step': h(100), 'Step2': h(100), 'Step3': h(100), 'Stepint': h(5.12), 'StyblinskiTang': h(5),
       'SumSquares': h(10), 'Trid': lambda D: (-D * D, D * D), 'Weierstrass': h(100), 'Whitley': h(10.24), 'Zakharov': h(-5, 10)}
FIXED = {'SchafferN2': 2, 'SchafferN4': 2}
OWN = ('Perm', 'Trid')      # bounds follow from the dimension; the constructor takes none

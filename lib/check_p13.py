from . import fcheck
def main(pid, tier): return fcheck.main(pid, tier, assumptions=['the generator follows the contract of numpy.random.Generator: random in [0, 1), integers(n) in 0..n-1, choice without replacement pairwise different and of positive probability'], trusted=['numpy random generator'])

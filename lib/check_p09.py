from . import fcheck
def main(pid, tier): return fcheck.main(pid, tier, assumptions=['lower <= upper in every component', 'points are one-dimensional arrays of floats'], trusted=['numpy Generator.uniform(lo, hi) lies in [lo, hi]'])

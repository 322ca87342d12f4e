from . import fcheck
def main(pid, tier): return fcheck.main(pid, tier, assumptions=['lower <= upper in every component', 'objects_to_array by its contract (P10)', 'partial correctness of integers with exclusions (termination is with probability one)'], trusted=['numpy Generator: uniform(lo, hi) lies in [lo, hi], integers(lo, hi) in [lo, hi)', 'numpy argmin, apply_along_axis'])

from . import fcheck
def main(pid, tier): return fcheck.main(pid, tier, assumptions=['bounds are numbers, lists, tuples or arrays of numbers'], trusted=['documented domains transcribed in specs/domains.py (Sphere excepted: its documentation and its default differ in what they call usual)'], nquick=1500)

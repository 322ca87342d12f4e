from . import fcheck
def main(pid, tier): return fcheck.main(pid, tier, nquick=60, assumptions=['numeric parameters are positive'], trusted=['CallbackList and default_rng as constructors'])

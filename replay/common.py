"""Concrete side of the function contracts: TARGETS = {name: (generate(rng) -> input, check(input) -> None or text)}"""
import json, sys, time, warnings, traceback, signal
import numpy as np
warnings.filterwarnings('ignore')
CPU = 30          # seconds of processor time one case may take (cases take milliseconds)
class Hang(BaseException): pass
def _hang(*a): raise Hang()
signal.signal(signal.SIGVTALRM, _hang)
def guarded(f, x):
    signal.setitimer(signal.ITIMER_VIRTUAL, CPU)
    try: return f(x)
    except Hang: return 'no result after %d s of processor time: %s' % (CPU, traceback.format_exc()[-400:])
    finally: signal.setitimer(signal.ITIMER_VIRTUAL, 0)
def dec(v):
    """json -> value"""
    if isinstance(v, dict) and '__a' in v: return np.array([dec(q) for q in v['__a']], dtype=float)
    if isinstance(v, dict): return {k: dec(q) for k, q in v.items()}
    if isinstance(v, list): return [dec(q) for q in v]
    if v in ('inf', '-inf', 'nan') and isinstance(v, str): return float(v)
    return v
def enc(v):
    if isinstance(v, np.ndarray): return {'__a': [enc(q) for q in v.tolist()]}
    if isinstance(v, dict): return {k: enc(q) for k, q in v.items()}
    if isinstance(v, (list, tuple)): return [enc(q) for q in v]
    if isinstance(v, (float, np.floating)):
        v = float(v)
        return v if np.isfinite(v) else str(v)
    if isinstance(v, np.integer): return int(v)
    if isinstance(v, np.bool_): return bool(v)
    return v
def run(TARGETS):
    if sys.argv[1] == '--replay':
        d = json.load(open(sys.argv[2])); r = guarded(TARGETS[d['contract']][1], dec(d['input']))
        print(r or 'the contract holds for this input'); sys.exit(1 if r else 0)
    n, seed, secs = int(sys.argv[2]), sys.argv[3], float(sys.argv[4])
    names = sys.argv[5:] or list(TARGETS)
    out = {}
    for t in names:
        if t not in TARGETS: continue
        gen, check = TARGETS[t]
        rng = np.random.default_rng([ord(c) for c in seed + t])
        end = time.time() + secs / len(names)
        done, found = 0, None
        for k in range(n):
            if time.time() > end and k >= 3: break
            x = gen(rng); e = enc(x)
            try: r = guarded(check, dec(e))
            except Exception as ex: r = 'exception %r\n%s' % (ex, traceback.format_exc()[-600:])
            done += 1
            if r: found = {'text': '%s: %s' % (t, r), 'input': e}; break
        out[t] = {'done': done, 'found': found}
    print(json.dumps(out))

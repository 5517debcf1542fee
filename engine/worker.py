"""run one proof: worker.py <spec module> <proof name> <budget>  -> JSON on the last stdout line"""
import importlib
import json
import os
import resource
import sys
import time
import traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.join(HERE, '..', 'specs')]
import z3  # noqa
import proof, sym, front, models, ir, speclib  # noqa


def model_hint(E, f):
    """concrete values of the registered inputs in the solver's counterexample"""
    out = {}
    if f.model is None:
        return out
    for (name, bm, n) in getattr(E, 'hints', []):
        try:
            L = f.model.eval(n, model_completion=True).as_long()
            L = min(max(L, 0), 96)
            bs = [f.model.eval(bm.read(z3.IntVal(i)), model_completion=True).as_long() for i in range(L)]
            bs = [b if b else 65 for b in bs] if name == 'str' else bs
            out[name] = bytes(bs).hex()
        except Exception:
            pass
    try:
        out['_model'] = str(f.model)[:3000]
    except Exception:
        pass
    return out


def confirmed(P, E, hard, mod):
    """a failed obligation after a loop only says that the invariants at hand do not carry it: is it also broken on a path followed without them?  True / None (not found, not excluded)"""
    sure = [f for f in hard if not (f.st is not None and f.st.hav)]
    if sure:
        return sure, E
    t = time.time()
    for k in (1, 2, 3, 4, 6):
        E2 = sym.Engine(mod, timeout_ms=3000, budget_s=max(5, CONFIRM_S - (time.time() - t)))
        models.setup(E2)
        E2.modset = {k: set(v) for k, v in E.modset.items()}
        try:
            E2.confirm(P.body, (k,))
        except (sym.Unsupported, ir.IRError, AttributeError, KeyError, TypeError, AssertionError, z3.Z3Exception):
            return None, E2
        except sym.Budget:
            pass
        bad = [f for f in E2.failures if f.detail.endswith('sat')]
        if bad:
            return bad, E2
        if time.time() - t > CONFIRM_S:
            break
    return None, E2


CONFIRM_S = 90


def main():
    modname, pname, budget = sys.argv[1], sys.argv[2], float(sys.argv[3])
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    importlib.import_module(modname)
    P = next(p for p in proof.PROOFS if p.name == pname)
    t = time.time()
    res = dict(proof=pname, func=P.func, files=P.files, status='?', detail='', bounded=P.bounded)
    E = None
    try:
        mod = front.load(*P.files)
        E = sym.Engine(mod, timeout_ms=P.timeout, budget_s=budget)
        models.setup(E)
        if P.bounded:
            E.unroll = P.bounded
        E.verify(P.body)
        HE = E
        hard = [f for f in E.failures if f.detail.endswith('sat')]
        if hard and E.soft:
            res['status'], res['detail'] = 'unknown', 'the solver gave up on an invariant'
        elif hard:
            bad, E2 = (hard, E) if P.bounded else confirmed(P, E, hard, mod)
            if bad:
                res['status'] = 'failed'
                hard, HE = bad, E2
            else:
                res['status'], res['detail'] = 'unknown', 'no invariant at hand carries %s; no path of few iterations breaks it' % ', '.join(sorted({'"%s"' % f.name for f in hard}))
        elif E.failures and all(f.name == 'loop terminates' for f in E.failures):
            res['status'] = 'noterm'
        elif E.failures:
            res['status'] = 'unknown'
        elif E.stats['obligations'] == 0 or E.stats['returns'] == 0:
            res['status'] = 'vacuous'
        else:
            res['status'] = 'proved'
        res['failures'] = [dict(obligation=f.name, function=f.func, line=f.line, solver=f.detail, counterexample=model_hint(HE, f)) for f in (hard or E.failures)[:12]]
    except (sym.Unsupported, ir.IRError) as e:
        res['status'], res['detail'] = 'unreachable', 'outside the verifier\'s reach: %s' % e
    except sym.Budget as e:
        res['status'], res['detail'] = 'budget', str(e)
        if E is not None and not E.soft and any(f.detail.endswith('sat') and not (f.st is not None and f.st.hav) for f in E.failures):
            res['failures'] = [dict(obligation=f.name, function=f.func, line=f.line, solver=f.detail, counterexample=model_hint(E, f)) for f in E.failures[:12]]
            res['status'] = 'failed'
    except MemoryError:
        res['status'], res['detail'] = 'budget', 'memory'
    except Exception:
        res['status'], res['detail'] = 'unreachable', 'engine: ' + traceback.format_exc()[-1500:]
    res['wall_s'] = round(time.time() - t, 2)
    if E is not None:
        res['stats'] = {k: (round(v, 3) if isinstance(v, float) else v) for k, v in E.stats.items()}
        res['obligation_kinds'] = E.obl_names
        res['contracts_used'] = sorted(E.used_contracts)
        res['inlined'] = sorted(E.inlined)
        res['lemmas'] = {k: v for k, v in speclib.LEMMAS.items()}
    print(json.dumps(res))


main()

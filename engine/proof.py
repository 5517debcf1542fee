"""Proof registry: each proof verifies one entry function of /repo against its contract."""
PROOFS = []


class Proof:
    def __init__(self, prop, func, files, body, kw):
        self.prop, self.func, self.files, self.body = prop, func, files, body
        self.name = body.__name__
        self.budget = kw.pop('budget', 150)
        self.timeout = kw.pop('timeout', 10000)
        self.tier = kw.pop('tier', 'quick')
        self.note = kw.pop('note', '')
        self.bounded = kw.pop('bounded', None)
        self.extra = kw


def proof(prop, func, files, **kw):
    """register body(E) as the contract of `func`; prop: property id or list of ids"""
    def d(body):
        for p in ([prop] if isinstance(prop, str) else prop):
            PROOFS.append(Proof(p, func, files, body, dict(kw)))
        return body
    return d

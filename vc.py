"""Contract registry (importable by the verifier and by the replay interpreter)."""
import os

REG = []


class Contract(object):
    def __init__(self, fn, prop, targets, kind, budget, note, opts):
        self.fn, self.prop, self.targets, self.kind = fn, prop, targets, kind
        self.budget, self.note, self.opts = budget, note, opts
        self.name = fn.__name__

    def __call__(self, c):
        return self.fn(c)


def contract(prop, target, kind="proof", budget=60, note="", trials=None, suffix="", **opts):
    """kind 'proof': discharged for all inputs by the solver.  kind 'bounded': run on generated inputs only."""
    targets = [target] if isinstance(target, str) else list(target)

    def deco(fn):
        props = [prop] if isinstance(prop, str) else list(prop)
        o = dict(opts)
        o["trials"] = trials
        k = Contract(fn, props, targets, kind, budget, note, o)
        k.name += suffix
        REG.append(k)
        return fn
    return deco


def helper_gone(e):
    """has the contract itself asked for a private helper that the code no longer has (or no longer with these arguments)?
    Such a contract says nothing about the code: the helper was renamed, inlined or given other arguments."""
    import re
    tb = e.__traceback__
    while tb is not None and tb.tb_next is not None:
        tb = tb.tb_next
    if tb is None:
        return False
    f = tb.tb_frame.f_code
    here = os.path.dirname(os.path.abspath(__file__))
    mine = f.co_filename.startswith(os.path.join(here, "contracts")) or (
        f.co_filename.startswith(os.path.join(here, "pyvc")) and f.co_name in ("fn", "cut", "replace"))
    if not mine:
        return False
    s = str(e)
    if isinstance(e, AttributeError):
        return re.search(r"no attribute '_(?!_)\w+'", s) is not None
    if isinstance(e, KeyError):
        return re.fullmatch(r"'_(?!_)\w+'", s) is not None
    if isinstance(e, TypeError):
        return re.match(r"(\w+\.)*_(?!_)\w+\(\) (missing|got|takes)", s) is not None
    return False

"""Explicit-state search over operation histories of a live object, in lock step with a reference model."""
import types


def fingerprint(o, ids=False):
    """Structural fingerprint of an object graph (aliasing and iteration orders included).

    Two objects with equal fingerprints behave alike from here on.  With ids=True large integers
    (identity-based keys) are replaced by ordinals of first occurrence.
    """
    memo = {}
    nums = {}

    def f(o, depth):
        t = type(o)
        if o is None or t in (bool, float, str, bytes, complex):
            return (t.__name__, o)
        if t is int:
            if ids and abs(o) > 1 << 20:
                return ('id', nums.setdefault(o, len(nums)))
            return ('int', o)
        i = id(o)
        if i in memo:
            return ('@', memo[i])
        memo[i] = len(memo)
        keep.append(o)
        if isinstance(o, dict):
            r = ('d', t.__name__, tuple((f(k, depth + 1), f(v, depth + 1)) for k, v in o.items()))
            if t is not dict and getattr(o, '__dict__', None):
                r += (f(o.__dict__, depth + 1),)
            return r
        if isinstance(o, (list, tuple, set, frozenset)):
            return (t.__name__, tuple(f(x, depth + 1) for x in o))
        if isinstance(o, types.GeneratorType):
            fr = o.gi_frame
            if fr is None:
                return ('gen', 'done')
            return ('gen', fr.f_lasti, f(dict(fr.f_locals), depth + 1))
        if isinstance(o, types.FunctionType):
            c = tuple(f(x.cell_contents, depth + 1) for x in (o.__closure__ or ()))
            return ('fn', o.__qualname__, c)
        if isinstance(o, types.MethodType):
            return ('m', o.__func__.__qualname__, f(o.__self__, depth + 1))
        if isinstance(o, (type, types.BuiltinFunctionType, types.ModuleType)):
            return ('c', getattr(o, '__name__', '?'))
        slots = getattr(t, '__slots__', None)
        if slots and not hasattr(o, '__dict__'):
            if isinstance(slots, str):
                slots = (slots,)
            return ('s', t.__name__, tuple(f(getattr(o, s, None), depth + 1) for s in slots))
        if hasattr(o, '__dict__'):
            return ('o', t.__name__, f(o.__dict__, depth + 1))
        try:
            return ('r', t.__name__, f(o.__reduce__()[1:], depth + 1))
        except Exception:
            return ('x', t.__name__)
    keep = []
    return f(o, 0)


def explore(ctx, new, ops, step, observe=None, depth=6, key=None, ids=False, maxstates=None, ops0=(), final=None):
    """Breadth-first search.

    new()                  -> (impl, model)         fresh pair
    ops(model)             -> iterable of operations enabled in the model state
    step(ctx, impl, model, op, checking) -> model'  perform op on both, compare results
    observe(ctx, impl, model)               pure observations compared in every new state
    final(ctx, impl, model)                 destructive/complete observation on a fresh replica
    key(model)             -> hashable model state
    ops0: history leading to the initial state of the search
    Returns True if the whole reachable space closed before `depth`.
    """
    key = key or (lambda m: m)

    def replay(hist):
        impl, model = new()
        for op in hist:
            model = step(ctx, impl, model, op, False)
        return impl, model

    ops0 = tuple(ops0)
    impl, model = replay(ops0)
    ctx.case('initial', ops0, state=False)
    if observe:
        observe(ctx, impl, model)
    ctx.state((key(model), fingerprint(impl, ids)))
    frontier = [ops0]
    d = 0
    while frontier and d < depth:
        nxt = []
        for hist in frontier:
            if ctx.overtime('state space search stopped at depth %d' % d):
                return False
            _, model = replay(hist)
            enabled = list(ops(model))
            for op in enabled:
                h = hist + (op,)
                ctx.case(h, state=False)
                impl, model = replay(hist)
                model = step(ctx, impl, model, op, True)
                if observe:
                    observe(ctx, impl, model)
                new_state = ctx.state((key(model), fingerprint(impl, ids)))
                if final and new_state:
                    i2, m2 = replay(h)
                    final(ctx, i2, m2)
                if new_state:
                    nxt.append(h)
                    if maxstates and len(ctx.seen) > maxstates:
                        ctx.outcome('state cap')
                        return False
        frontier = nxt
        d += 1
        ctx.outcome('depth %d frontier %d' % (d, len(frontier)))
    return not frontier

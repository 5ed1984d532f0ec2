"""Helpers to build and read sudokus through the public interface."""
from mc.core import Violation
from mc.ref import geo


def mk(w, h, grid, cands=None):
    from sudokutools.sudoku import Sudoku
    s = Sudoku((w, h))
    N = w * h
    k = 0
    for r in range(N):
        for c in range(N):
            v = grid[k]
            if v:
                s[r, c] = v
            k += 1
    if cands is not None:
        k = 0
        for r in range(N):
            for c in range(N):
                s.set_candidates(r, c, cands[k])
                k += 1
    return s


def flat(s, N):
    return tuple([s[r, c] for r in range(N) for c in range(N)])


def cflat(s, N):
    return tuple([frozenset(s.get_candidates(r, c)) for r in range(N) for c in range(N)])


def snap(s, N):
    return flat(s, N), cflat(s, N)


def bs(s):
    return tuple(s.box_size), s.box_width, s.box_height


def show(grid):
    return "".join("%x" % v if 0 <= v < 16 else "(%s)" % v for v in grid)


def fail(msg, *args):
    raise Violation(msg % args if args else msg)


def need(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def raises(exc, func, *args, **kwargs):
    """func(*args) must raise exactly an instance of exc."""
    try:
        r = func(*args, **kwargs)
    except exc:
        return True
    raise Violation("%s not raised by %s%r, returned %r" % (
        getattr(exc, "__name__", exc), getattr(func, "__name__", func), args, r))


def adversarial(w, h, kind):
    """Stored candidates that calculations must not rely on."""
    N = w * h
    full = frozenset(range(1, N + 1))
    res = []
    for k in range(N * N):
        r, c = divmod(k, N)
        if kind == 0:
            res.append(frozenset())
        elif kind == 1:
            res.append(full)
        elif kind == 2:
            res.append(frozenset((k % N + 1,)))
        elif kind == 3:
            res.append(frozenset() if k % 3 else full - {k % N + 1})
        elif kind == 4:
            res.append(frozenset((1,)))
        else:
            res.append(frozenset(v for v in full if (r * 3 + c * 5 + v) % 2))
    return res

"""Reference reader of the coordinate notation, written from its description.

text   = group { sep group }          (white space is dropped, unless sep or nsep contain it)
group  = qualifier numbers { qualifier numbers }, no qualifier twice
numbers: without nsep a run of digits, each of them a number; with nsep decimal numbers separated by it
"""
import string

from mc.ref import geo

WS = set(string.whitespace)


class Bad(Exception):
    pass


class Unclear(Exception):
    """Neither clearly allowed nor clearly forbidden."""


def members(w, h):
    g = geo(w, h)
    return {"r": g.rows, "c": g.cols, "b": g.boxes, "p": g.parts}


def read(text, w, h, sep=",", nsep=""):
    """Returns the sorted tuple of coordinates or raises Bad."""
    N = w * h
    if not nsep and N > 9:
        nsep = ","
    if not (WS & set(sep) or WS & set(nsep)):
        text = "".join(c for c in text if c not in WS)
    sets = members(w, h)
    pos = 0
    end = len(text)
    result = set()
    unclear = False

    while True:
        # one group
        group = {}
        while pos < end and text[pos] in "rcbp":
            q = text[pos]
            if q in group:
                raise Bad("repeated qualifier")
            pos += 1
            numbers = []
            if not nsep:
                while pos < end and text[pos] in "0123456789":
                    numbers.append(int(text[pos]))
                    pos += 1
            else:
                while True:
                    start = pos
                    while pos < end and text[pos] in "0123456789":
                        pos += 1
                    if start == pos:
                        raise Bad("number expected")
                    if text[start] == "0" and pos > start + 1:
                        unclear = True      # leading zeros
                    numbers.append(int(text[start:pos]))
                    if text.startswith(nsep, pos) and not text.startswith(sep, pos):
                        pos += len(nsep)
                    elif text.startswith(nsep, pos):
                        # The next character decides.
                        if pos + len(sep) < end and text[pos + len(sep)] in "rcbp":
                            break
                        pos += len(nsep)
                    else:
                        break
            if not numbers:
                raise Bad("no numbers")
            if any(not 1 <= n <= N for n in numbers):
                raise Bad("number outside")
            group[q] = numbers
        if not group:
            raise Bad("empty group")
        fields = None
        for q, numbers in group.items():
            s = set()
            for n in numbers:
                s.update(sets[q][n - 1])
            fields = s if fields is None else fields & s
        result |= fields
        if pos == end:
            break
        if not text.startswith(sep, pos):
            raise Bad("unexpected character")
        pos += len(sep)
    if unclear:
        raise Unclear(tuple(sorted(result)))
    return tuple(sorted(result))


def write(group, nsep):
    """group: list of (qualifier, numbers)."""
    return "".join(q + nsep.join(str(n) for n in numbers) for q, numbers in group)

"""Inputs and outputs of panda as integer rows; no geometry is decided here."""
from fractions import Fraction as F
from math import gcd
import re


def prim(r):
    g = 0
    for x in r:
        g = gcd(g, abs(x))
    return tuple(x // g for x in r) if g > 1 else tuple(r)


def homog(tokens, h):
    """Numbers as strings -> integer row with homogenising coordinate h (0/1/None)."""
    v = [F(t) for t in tokens]
    if h is not None:
        v.append(F(h))
    m = 1
    for x in v:
        m = m * x.denominator // gcd(m, x.denominator)
    return tuple(int(x * m) for x in v)


class ParseError(Exception):
    pass


def parse(out):
    """Output of panda with unnamed rows -> {section: [token rows]} """
    sec, res = None, {}
    for l in out.splitlines():
        l = l.strip()
        if not l:
            continue
        if l.endswith(":"):
            sec = l[:-1]
            if sec in res:
                raise ParseError("section %s twice" % sec)
            res[sec] = []
        elif sec is None:
            raise ParseError("row before any section: " + l)
        else:
            res[sec].append(l.split())
    return res


def rows(sec, h=None):
    try:
        return [homog(t, h) for t in sec]
    except (ValueError, ZeroDivisionError) as e:
        raise ParseError(str(e))


def parse_fe(out):
    r = parse(out)
    extra = set(r) - {"Equations", "Inequalities", "Reduced Inequalities"}
    if extra:
        raise ParseError("unexpected section %s" % extra)
    return rows(r.get("Equations", [])), rows(r.get("Inequalities", r.get("Reduced Inequalities", [])))


def parse_ve(out):
    r = parse(out)
    pts = []
    for k, v in r.items():
        k = k.replace("Reduced ", "")
        if k == "Vertices / Rays":
            pts += rows(v)
        elif k == "Vertices":
            pts += rows(v, 1)
        elif k == "Rays":
            pts += rows(v, 0)
        else:
            raise ParseError("unexpected section " + k)
    return pts


def frac(x, h):
    f = F(x, h)
    return str(f.numerator) if f.denominator == 1 else "%d/%d" % (f.numerator, f.denominator)


def gens_text(gens, head=""):
    """Homogeneous integer generators -> input file (vertices first)."""
    v = [g for g in gens if g[-1] != 0]
    r = [g for g in gens if g[-1] == 0]
    t = head + "Vertices:\n" + "".join(" ".join(frac(x, g[-1]) for x in g[:-1]) + "\n" for g in v)
    if r:
        t += "\nRays:\n" + "".join(" ".join(map(str, g[:-1])) + "\n" for g in r)
    return t


def cons_text(A, E, head=""):
    t = head
    if E:
        t += "Equations:\n" + "".join(" ".join(map(str, r)) + "\n" for r in E) + "\n"
    t += "Inequalities:\n" + "".join(" ".join(map(str, r)) + "\n" for r in A)
    return t


def signs(row, gens):
    out = []
    for g in gens:
        d = sum(a * b for a, b in zip(row, g))
        out.append((d > 0) - (d < 0))
    return out


# ------------------------------------------------- states dumped by TLC
def dump_states(path):
    """-dump file of TLC -> list of {var: python value} (sequences of integers)."""
    res, cur = [], None
    txt = open(path).read()
    for block in re.split(r"(?m)^State \d+:\n", txt)[1:]:
        d = {}
        for m in re.finditer(r"(?ms)^/\\ (\w+) = (.*?)(?=^/\\ |\Z)", block + "\n"):
            d[m.group(1)] = tlaval(m.group(2).strip())
        if not d:
            m = re.match(r"(?s)\s*(\w+) = (.*)", block)
            d[m.group(1)] = tlaval(m.group(2).strip())
        res.append(d)
    res.sort(key=repr)      # TLC's order depends on its workers
    return res


_tok = re.compile(r'\s*(<<|>>|\{|\}|\[|\]|\|->|:>|@@|,|\(|\)|-?\d+|TRUE|FALSE|"(?:[^"\\]|\\.)*"|\w+)')


def tlaval(s):
    toks = _tok.findall(s)
    pos = 0

    def val():
        nonlocal pos
        t = toks[pos]
        pos += 1
        if t == "<<" or t == "{":
            end = ">>" if t == "<<" else "}"
            out = []
            while toks[pos] != end:
                out.append(val())
                if toks[pos] == ",":
                    pos += 1
            pos += 1
            return out
        if t == "[":
            d = {}
            while toks[pos] != "]":
                k = toks[pos]
                pos += 2
                d[k] = val()
                if toks[pos] == ",":
                    pos += 1
            pos += 1
            return d
        if t == "(":
            d = {}
            while True:
                k = val()
                pos += 1  # :>
                d[k if not isinstance(k, list) else tuple(k)] = val()
                if toks[pos] == "@@":
                    pos += 1
                    continue
                pos += 1
                return d
        if t == "TRUE":
            return True
        if t == "FALSE":
            return False
        if t[0] == '"':
            return t[1:-1]
        try:
            return int(t)
        except ValueError:
            return t
    return val()

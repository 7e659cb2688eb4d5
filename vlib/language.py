"""Writes documents of the specification (InputLanguage) in all their notations and reads them with the real program."""
import os
from . import core, geometry as g
from .core import Job
from .integers import execute

WORDS = {
    "conv": ["CONVEX_HULL", "CONVEX_HULL_SECTION", "CONV_SECTION", "Vertices"],
    "cone": ["CONE_SECTION", "CONICAL_HULL", "CONICAL_HULL_SECTION", "Rays"],
    "ineq": ["INEQUALITIES", "INEQUALITY_SECTION", "INEQUALITIES_SECTION", "Inequalities"],
    "eq": ["EQUATIONS", "EQUATION_SECTION", "EQUATIONS_SECTION", "Equations"],
    "maps": ["MAPS", "MAP_SECTION", "MAPS_SECTION", "Maps"],
    "names": ["INDEX", "INDICES", "INDEX_SECTION", "INDICES_SECTION", "NAMES", "NAME_SECTION", "NAMES_SECTION", "Indices", "Names"],
    "dim": ["DIM", "DIMENSION", "Dim", "Dimension"]}
NAMES = [["x", "y", "z", "w"], ["x1", "x2", "x3", "x4"], ["a", "ab", "abc", "b"], ["var_1", "Y", "e", "E1"], ["x", "x1", "x11", "X"], ["p12", "p13", "q21", "q_3"]]
UNDECLARED = ["u", "xx", "Q", "zz9"]
IDS = ["1", " 12 ", "row", "x", "y <= 3", "a b c", "END", "-1", "x1 + x2", "2/3", "e=1", "\t7"]
BIG = ["2147483648", "-2147483649", "99999999999999999999", "+4294967296", "10000000000"]
JUNK = {"conv": ["1.5", "--3", "0x1F", "#", "1e3", "*", "3;", "1,5", "-", "inf", "++1"],
        "ineq": ["1.5", "--3", "0x1F", "#", "=<", "<", ">", "x*", "+-2", "2*3", "=3", "1e3", "3,", "!="],
        "maps": ["u+", "--3", "2*u", "+-2", "1.5", "#", "0x1F", "3,", "u-", "+", "u--3"]}
JUNK["cone"], JUNK["eq"] = JUNK["conv"], JUNK["ineq"]


class Style:
    """How a document is written; plain: the same way everywhere."""

    def __init__(self, rng, plain=False):
        self.rng, self.plain = rng, plain
        self.names = NAMES[0] if plain else rng.choice(NAMES)
        self.eol = "\n" if plain or rng.random() < .7 else "\r\n"
        self.noisy = 0 if plain else rng.choice([0, .2, .6])

    def some(self, usual, others):
        return usual if self.plain or self.rng.random() >= self.noisy else self.rng.choice(others)

    def blank(self):
        return self.some(" ", [" ", "  ", "\t", " \t "])

    def number(self, tk):
        v = tk["v"]
        return tk["s"] + self.some("", ["", "0", "00"]) * (v > 0) + str(v)

    def name(self, n):
        return self.names[n - 1] if n else self.rng.choice([u for u in UNDECLARED if u not in self.names])

    def token(self, tk, kind):
        t = tk["t"]
        if t == "int":
            return self.number(tk)
        if t == "var":
            return tk["s"] + (self.number(dict(tk, s="")) if tk["v"] >= 0 else "") + self.name(tk["n"])
        if t == "sum":
            return "".join(self.token(x, kind) for x in tk["u"])
        if t == "big":
            b = self.rng.choice(BIG)
            return b + (self.name(1) if kind in ("maps", "ineq") and self.rng.random() < .4 else "")
        if t == "junk":
            return self.rng.choice(JUNK.get(kind, JUNK["ineq"]))
        return {"sign": tk["s"], "slash": "/", "rel": tk["w"], "id": "(" + self.rng.choice(IDS) + ")"}[t]

    def row(self, row, kind):
        out = self.some("", ["", " ", "\t", "   "])
        for k, tk in enumerate(row):
            if k:
                glue = ("slash" in (tk["t"], row[k - 1]["t"]) and (self.plain or self.rng.random() < .6)) \
                    or (row[k - 1]["t"] == "id" and k == 1 and self.rng.random() < self.noisy) \
                    or (row[k - 1]["t"] == "rel" and row[k - 1]["w"] != "=" and tk["t"] in ("int", "sign") and self.rng.random() < self.noisy)
                out += "" if glue else self.blank()
            out += self.token(tk, kind)
        return out + self.some("", ["", " ", "\t"]) + self.eol

    def section(self, s, declared, dimension=None):
        kind, blank = s["kind"], lambda: self.some("", ["", "", self.eol, " " + self.eol, "\t" + self.eol])
        word = WORDS[kind][-1] if self.plain else self.rng.choice(WORDS[kind])
        lead, trail = self.some("", ["", " ", "\t"]), self.some("", ["", " ", "\t"])
        if kind == "dim":
            v = str(s["value"]) if s["value"] >= 0 else self.rng.choice(["", "x", "-2", "2 3", "3.0", "2x"])
            return lead + word + self.some("=", ["=", " = ", " =", "= "]) + v + trail + self.eol + blank()
        out = lead + word + self.some(":", ["", ":"]) + trail + self.eol + blank()
        if kind == "names":
            names = self.names[:s["value"]] if s["value"] <= len(self.names) else None
            for k, n in enumerate(names):
                out += n + (self.eol if k + 1 == len(names) else self.some(" ", [" ", "\t", "  ", self.eol]))
            return out + blank()
        for r in s["rows"]:
            out += self.row(r, kind) + blank()
        return out + self.some("", ["", "END" + self.eol, "End" + self.eol])

    def document(self, doc):
        out = self.some("", ["", self.eol, " " + self.eol])
        for s in doc:
            out += self.section(s, 0)
        if not self.plain and doc and doc[-1]["kind"] != "names" and self.rng.random() < self.noisy:
            out = out.rstrip("\r\n")     # no line break at the end of the file
        return out


MAIN = {"inner": "Vertices:\n0 0\n3 0\n0 2\n", "outer": "Inequalities:\n-1 0 0\n0 -1 0\n1 1 -4\n"}


def documents(ctx, bases, edits, sample, limit=None):
    """Documents of the specification, with every single edit and a sample of further ones."""
    dump = os.path.join(ctx.sub("docs"), "d%s" % edits)
    core.tlc_model(ctx, "InputMutations", "CONSTANTS Bases={%s} MaxEdits=%d Sample=%d\nINIT Init\nNEXT Next\nINVARIANTS BasesMean %sRowsCount TurnedSame\nCHECK_DEADLOCK FALSE\n"
                   % (",".join(map(str, bases)), edits, sample, "OrderIrrelevant "), name="Documents%s" % edits, args=["-dump", dump, "-seed", str(ctx.seed)])
    return [s for s in g.dump_states(dump + ".dump")]


def inner(doc):
    return any(s["kind"] in ("conv", "cone") for s in doc)


def outer(doc):
    return any(s["kind"] in ("ineq", "eq") for s in doc)


def known_main(style, state):
    """The main document of a file of known data, in the same names."""
    n = 2 if state["base"] in (21, 22) else 0
    head = "Names:\n%s\n" % " ".join(style.names[:2]) if n else ""
    return head + MAIN["inner" if state["base"] < 24 else "outer"]


def parse(answer):
    if answer is None or answer == "error":
        return {"ok": "error", "names": [], "rows": [], "maps": [], "known": []}
    n, r, m, k = answer.split(";")
    rows = lambda t: [[int(x) for x in row.split()] for row in t.split(",") if row]
    return {"ok": "ok", "names": n.split(), "rows": rows(r), "known": rows(k),
            "maps": [[[[int(y) for y in x.split(":")] for x in im.split()] for im in mp.split("|")[:-1]] for mp in m.split(",") if mp]}


def read(ctx, exe, states, rng, styles, wanted):
    """The documents in some notations, read by the program's own functions; TLC judges what was read."""
    if not exe:
        return
    d = ctx.sub("files")
    req, obs, owner = [], [], []
    for k, s in enumerate(states):
        for v in range(styles):
            st = Style(rng, plain=v == 0 and k % 7 == 0)
            known = s["base"] > 20
            if not known and (inner(s["doc"]) == outer(s["doc"])):
                continue
            text = st.document(s["doc"])
            p = os.path.join(d, "f%d-%d" % (k, v))
            with open(p, "w", newline="") as f:
                f.write(text)
            if known:
                with open(p + "m", "w", newline="") as f:
                    f.write(known_main(st, s))
                req.append("%s\t%sm\t%s" % ("inner" if s["base"] < 24 else "outer", p, p))
            else:
                req.append("%s\t%s" % ("inner" if inner(s["doc"]) else "outer", p))
            owner.append((s, text, known_main(st, s) if known else None))
            obs.append({"kind": "known" if known else "main", "doc": s["doc"], "names": st.names, "knownnames": 2 if s["base"] in (21, 22) else 0})
    for o, a in zip(obs, execute(ctx, exe, req)):
        o["got"] = parse(a) if a != "" else None
    keep = [k for k, o in enumerate(obs) if o["got"] is not None]
    ctx.count(files_read=len(keep))
    for lo in range(0, len(keep), 15000):
        part = keep[lo:lo + 15000]
        for k, v in sorted(core.judge(ctx, "JudgeInput", [obs[x] for x in part], name="read").items()):
            s, text, main = owner[part[k]]
            if wanted(v):
                f = {"input.txt": text} if main is None else {"input.txt": main, "known.txt": text}
                ctx.violation("read: " + key(s), "%s\n%s" % (v, text[:800]), f)


def key(s):
    return "base %d with %d edits: %s" % (s["base"], s["edits"], brief(s["doc"]))


def brief(doc):
    f = lambda tk: {"int": "%s%s" % (tk["s"], tk["v"]), "var": "%s%s%s" % (tk["s"], "" if tk["v"] < 0 else tk["v"], "?xyzw"[tk["n"]]), "sign": tk["s"], "rel": tk["w"], "slash": "/", "id": "()",
                    "big": "BIG", "junk": "JUNK", "sum": ""}[tk["t"]] + "".join(f(x) + "." for x in tk["u"])
    return " | ".join("%s %s" % (s["kind"], s["value"] if s["kind"] in ("names", "dim") else ", ".join(" ".join(map(f, r)) for r in s["rows"])) for s in doc)


def job(style, s, args):
    text = style.document(s["doc"])
    if s["base"] > 20:
        return Job(known_main(style, s), args, known=text, meta=s)
    return Job(text, args, meta=s)


BODY = {"conv": "0 0\n4 0\n0 4\n5 5\n", "rconv": "0 0\n4 0\n5 5\n", "cone": "1 2\n2 1\n", "rcone": "1 2\n", "ineq": "-1 0 -1\n0 -1 -1\n1 1 -7\n", "rineq": "-1 0 -1\n1 1 -7\n",
        "eq": "1 1 -3\n", "names": "x y\n", "maps": "y x\n"}
PLAIN = dict({k: w[-1] for k, w in WORDS.items()}, rconv="Reduced Vertices", rcone="Reduced Rays", rineq="Reduced Inequalities")


def spelled(order, at=-1, word="", colon=True, end=""):
    """A document with the sections in an order; the section at one position is spelled as given."""
    out = ""
    for k, kind in enumerate(order):
        w = word if k == at else PLAIN[kind]
        if kind == "dim":
            out += w + " = 2\n"
        else:
            out += w + (":" if k != at or colon else "") + "\n" + BODY[kind] + (end + "\n" if k == at and end else "")
    return out


def harness(ctx, h):
    objs = [o for o in h["objs"] if not os.path.basename(o).startswith("main.")]
    return core.compile_harness(ctx, "language", [os.path.join(core.HARNESS, "language.cpp")], objs=objs, optional=True)

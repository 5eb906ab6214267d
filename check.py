#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N]: decides one property of properties.jsonl.
check.py setup: shows that the tools work.
check.py replay FILE: makes the calls of a replay file again and judges them.

Exit 0: the property held on everything explored.  Exit 1: VIOLATION.  Else: trouble."""
import argparse, base64, datetime, itertools, json, os, random, sys, traceback, unicodedata
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import cover
import mined
import vf
from gen import Gen, ATEXT, CTL, UNI
from vf import Run, Trouble, call, cps, pack

A, D = "addressList", "dateTime"


def C(goal, text, reader="none", year=0, **kw):
    return dict(goal=goal, text=cps(text) if isinstance(text, str) else text, reader=reader, year=year, **kw)


class Enough(Exception):
    """A violation was found: what the check would do after it does not change its verdict."""


class Check:
    def __init__(self, run):
        self.run = run
        self.rnd = random.Random("%s/%d" % (run.prop, run.seed))
        self.q = run.quick
        self.counts, self.seen = {}, {}

    # -- sources of calls --

    def write(self, num, conf=None, module="AddrWriter", depth=300, **kw):
        """Texts that a writer wrote, with the value it meant.  num: behaviours per worker."""
        base = (dict(list=2, groups=0, named=6, gaps=1, quoted=2, encoded=0, obs=0, literal=0, port=0, route=0, empty=0, uni=0,
                     words=3, size=3) if module == "AddrWriter" else dict(gaps=1, two=0, alpha=3, nozone=1, edge=2))
        base.update(conf or {})
        rd = base.pop("reader", "none")
        rec = ", ".join("%s |-> %d" % kv for kv in base.items())
        if module == "AddrWriter":
            rec += ', reader |-> "%s"' % rd
        m = "---- MODULE MCWriter ----\nEXTENDS %s\nMCConf == [%s]\n====\n" % (module, rec)
        cfg = "CONSTANT Conf <- MCConf\nINIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n"
        printed = self.run.tlc("MCWriter", m, cfg, simulate=num, depth=depth)
        cases, off = [], 0
        for p in printed:
            if "disagree" in p:   # a text that is ambiguous: not one the writer should have written
                off += 1
                continue
            cases.append(C(p["goal"], p["text"], p.get("reader", "none"), p.get("year", 0), want=p["want"]))
        self.count("written texts", len(cases))
        if off:
            self.count("written texts left out as ambiguous", off)
        if off * 50 > len(cases):
            raise Trouble("the writer and the machine disagree: %s" % [p for p in printed if "disagree" in p][:1])
        return cases

    def cover(self, slices, share=1.0, timeout=600):
        """Texts that take the transitions of the machine's control graph."""
        ops = []
        job = lambda m, c, n: lambda: self.run.tlc("MCCover", m, c, timeout=timeout, n=n)
        for (goal, *_), printed in zip(slices, self.run.together([job(*cover.module(*x), self.run.number()) for x in slices])):
            ts = list(cover.texts(cover.graph(printed)))
            self.count("control states", len(printed))
            if share < 1:
                ts = [t for t in ts if self.rnd.random() < share]
            ops += [dict(e="language", goal=goal, text=t, want=ok) for t, ok in ts]
        self.count("texts that cover control transitions", len(ops))
        self.rnd.shuffle(ops)
        return [dict(ops=ops[i:i + 40]) for i in range(0, len(ops), 40)]

    def schedules(self, pool, num, ids=12, burst=1, maxlog=12, extras=False):
        """Schedules of several callers, generated from module System."""
        cps_ = lambda s: ", ".join(str(ord(c)) for c in s)
        m = "---- MODULE MCSchedule ----\nEXTENDS System\nMCPool == << %s >>\nMCIds == 1..%d\n====\n" % (
            ",\n ".join('[goal |-> "%s", text |-> << %s >>]' % (g, cps_(t)) for g, t in pool), ids)
        cfg = "CONSTANTS Pool <- MCPool Ids <- MCIds Burst = %d Sharing = FALSE Extras = %s MaxLog = %d\nINIT SInit\nNEXT SNext\nINVARIANTS Faithful Deterministic\nCHECK_DEADLOCK FALSE\n" % (
            burst, str(bool(extras)).upper(), maxlog)
        out = self.run.tlc("MCSchedule", m, cfg, simulate=num, depth=400)
        self.count("schedules", len(out))
        return [dict(ops=p["ops"]) for p in out]

    def laws(self, invariants, pieces, most, goal=A, begin="", raw=False):
        """Laws of the specification (module Laws), for all texts of at most so many of the pieces."""
        tla = lambda t: "<< %s >>" % ", ".join(str(ord(ch)) for ch in t)
        m = "---- MODULE MCLaws ----\nEXTENDS Laws\nMCBegin == %s\nMCPieces == { %s }\n====\n" % (tla(begin), ", ".join(tla(x) for x in pieces))
        cfg = "CONSTANTS Goal = \"%s\" Begin <- MCBegin Pieces <- MCPieces MaxPieces = %d\nINIT LInit\nNEXT %s\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n" % (
            goal, most, "RawNext" if raw else "LNext", invariants)
        n = self.run.number()
        self.run.later(lambda: self.run.tlc("MCLaws", m, cfg, timeout=800, n=n))
        self.count("laws checked for all texts over some pieces", len(invariants.split()))

    def std(self, invariants, pieces, most, times=False, say=True):
        """Laws of what the standard library writes (module StdLaws); returns what it says it wrote."""
        tla = lambda t: "<< %s >>" % ", ".join(str(ord(ch)) for ch in t)
        m = "---- MODULE MCStd ----\nEXTENDS StdLaws\nMCPieces == { %s }\n====\n" % ", ".join(tla(x) for x in pieces)
        cfg = "CONSTANTS Pieces <- MCPieces MaxPieces = %d Say = %s\nINIT %s\nNEXT %s\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n" % (
            most, str(say).upper(), *(("TInit", "TNext") if times else ("SInit", "SNext")), invariants)
        out = self.run.tlc("MCStd", m, cfg, timeout=850)
        self.count("laws checked for all texts over some pieces", len(invariants.split()))
        self.count("texts written by module Std", len(out))
        return [C(p["goal"], p["text"], want=p["want"]) for p in out]

    def numbers(self, invariant, most):
        """Laws of the parts of the specification that calculate (module Numbers), for 0..most."""
        cfg = "CONSTANT Upto = %d\nINIT NInit\nNEXT NNext\nINVARIANT %s\nCHECK_DEADLOCK FALSE\n" % (most, invariant)
        n = self.run.number()
        self.run.later(lambda: self.run.tlc("Numbers", cfg=cfg, timeout=800, n=n))

    def model(self, name):
        """Exhaustive checking of a configuration of the specification itself."""
        n = self.run.number()
        self.run.later(lambda: self.run.tlc(name, n=n))

    # -- running --

    def count(self, k, n):
        self.counts[k] = self.counts.get(k, 0) + n

    def go(self, what, scripts, budget=None, **kw):
        """Real library, then TLC."""
        if not scripts or self.late():
            return []
        self.rnd.shuffle(scripts)
        res = self.run.drive(scripts, budget=budget if budget is not None else (45 if self.q else 500), **kw)
        calls = [o for s in res for o in s["ops"] if o.get("text") and "r" in o]
        self.count("calls", len(calls))
        self.count("calls with a result", sum(1 for o in calls if o["r"].get("ok")))
        for o in self.rnd.sample(calls, min(2, len(calls))):
            self.run.samples.append("%s(%s) -> %s" % (o.get("goal"), ascii(vf.text_of(o))[:300], vf.show(o["r"])[:300]))
        self.run.judge(res, what)
        self.enough()
        return res

    def late(self):
        """On a slow machine, the quick tier leaves out what would come last."""
        if self.q and self.run.elapsed() > 480:
            self.count("parts left out for lack of time", 1)
            return True
        return False

    def enough(self):
        if self.run.fresh():
            raise Enough

    def cases(self, what, cases, per=6, **kw):
        for x in cases:
            if len(x["text"]) <= 200:
                self.seen.setdefault(x["goal"], []).append(vf.text_of(x))
        return self.go(what, pack(cases, per), **kw)

    def constants(self, what, kinds, reader="none", most=1500, only=None):
        """Texts made of the constants in the library's source (module mined)."""
        known, new = self.run.mine()
        scripts = []
        chars = [chr(n) for n in new["ints"] if 0x80 <= n < 0x110000 and not 0xD800 <= n <= 0xDFFF]
        if kinds != D:      # numbers may be characters
            new = dict(new, strs=new["strs"] + self.rnd.sample(chars, min(len(chars), 30)))
        for d, share in ((new, most if self.q else 4 * most), (known, 60 if self.q else 1500)):
            if kinds == D:
                sized, worded = [], [(t, None) for t in mined.dates(d, self.rnd, self.q)]
            else:
                sized, worded = mined.addresses(d, kinds, self.rnd, self.q)
            if only:
                sized, worded = [], [x for x in worded if only(x[0])]
            if d is known:
                sized = self.rnd.sample(sized, min(len(sized), 12 if self.q else 200))
            if len(worded) > share:
                worded = self.rnd.sample(worded, share)
            if d is new and kinds != D:
                worded += [x for x in mined.pairs(d, kinds, self.rnd, 500 if self.q else 4000) if not only or only(x[0])]
            cs = [C(D if kinds == D else A, t, reader, **({} if w is None else dict(want=w))) for t, w in sized + worded]
            self.count("texts made of constants in the source" + ("" if d is known else " that are new"), len(cs))
            scripts += pack([x for x in cs if len(x["text"]) >= 200], 1) + pack([x for x in cs if len(x["text"]) < 200], 20)
        self.dictionary = new["strs"]
        return self.go(what, scripts, budget=60 if self.q else 300)

    dictionary = ()

    def hunt(self, what, make, n=6000, goal=A, reader="none", mutate=.2, damage=None):
        """Random texts by the thousand, of which those are judged that execute something new."""
        if self.late():
            return
        g, texts = Gen(self.rnd), []
        g.dictionary = [x for x in self.dictionary if x][:40]
        for _ in range(n if self.q else 10 * n):
            s = make(g)
            if self.rnd.random() < mutate:
                s = g.mutate(s, damage) if damage else g.mutate(s)
            texts.append(s)
        ops = [dict(e="hunt", goal=goal, text=cps(t)) for t in dict.fromkeys(texts)]
        pre = [dict(e="reader", reader=reader)] if reader != "none" else []
        res = self.run.drive([dict(ops=pre + ops[i:i + 25]) for i in range(0, len(ops), 25)], budget=14 if self.q else 150, cover=True)
        found = [s for s in res if any("r" in o for o in s["ops"])]
        self.count("random texts run for coverage", 25 * len(res))
        self.count("random texts that executed something new", sum(1 for s in found for o in s["ops"] if "r" in o))
        self.run.judge(found, what)
        self.enough()
        # what is nearly like them
        near = [vf.text_of(o) for s in found for o in s["ops"] if "r" in o and len(o["text"]) <= 300]
        near += self.some(self.seen.get(goal, []), 120)
        if near and not self.late():
            more = 1200 if self.q else 20000
            vs = dict.fromkeys(g.vary(x, self.rnd.choice(near)) for x in near for _ in range(more // len(near) + 1))
            self.go(what, pack([C(goal, t, reader) for t in list(vs)[:more]], 20), budget=12 if self.q else 150)

    def some(self, xs, n):
        """n of xs, rotating with the seed; all of them in the thorough tier."""
        xs = list(xs)
        return xs if not self.q or len(xs) <= n else self.rnd.sample(xs, n)


def long_mailboxes(n):
    return [("n" * n + " <x@y>", [[cps("n" * n), cps("x@y")]]), ("l" * n + "@y", [[[], cps("l" * n + "@y")]]), ("N <x@" + "d" * n + ">", [[cps("N"), cps("x@" + "d" * n)]]),
            ("\"" + "q" * n + "\" <x@y>", [[cps("q" * n), cps("x@y")]]), ("w" * 60 + (" " + "v" * 60) * (n // 60) + " <x@y>", [[cps("w" * 60 + (" " + "v" * 60) * (n // 60)), cps("x@y")]])]


# pieces of texts for laws
PA = ["a", "@", "<", ">", ",", " ", ".", ":", ";"]
PQ = ["a", "@", "\"", "\\", "<", ">", " ", "\r\n ", "[", "]"]
PL = ["a@b", ",", ";", "N ", "<", ">", "g", ":", " ", "."]
PD = ["1 ", "12", "Jan", " feb ", "06", " 2006 ", "05", ":", "1:02", "GMT", "est", " +0100", " 0930", "Mon,", " ", "(c)"]

PROPS = {}


def prop(f):
    PROPS[f.__name__] = f
    return f


def randoms(c, n, make, mutate=0.0, goal=A, reader="none", damage=None):
    g = Gen(c.rnd)
    out = []
    for _ in range(n):
        s = make(g)
        if c.rnd.random() < mutate:
            s = g.mutate(s, damage) if damage else g.mutate(s)
        out.append(C(goal, s, reader))
    return out


ASCII = [chr(i) for i in range(128)]
LAYOUT = [" ", "\t", "  ", " \t ", "\r\n ", " \r\n ", "\t\r\n\t", "()", "(c)", " (c) ", "(a(b)c)", "(\\))", "(a)(b)", " (a)\r\n (b) ",
          "(a\r\n b)", "(\r\n )", "(\"<a@b>,;:)", "((((x))))", "(\\()", "(\u00e9\U0001f600)", "(=?utf-8?q?x?=)", "(\x01\x7f)", "(\\\x00)"]


# ---------------------------------------------------------------- addresses

@prop
def C01(c):
    """A mailbox that was written is read back."""
    c.laws("NothingAdded InOrder Shape", PA, 4 if c.q else 6)
    c.laws("FirstDerivation NothingAdded InOrder Shape", PQ, 3 if c.q else 5)
    cs = c.write(4 if c.q else 40, dict(list=1, named=8, words=4, size=4, quoted=3, gaps=1))
    cs += c.write(1 if c.q else 10, dict(list=1, named=8, words=8, size=9, quoted=3, gaps=0, uni=1))
    # every character an atom may have, first, in the middle, last, alone
    for ch in ATEXT:
        for w in (ch, "ab" + ch, ch + "ab", "a" + ch + "b", ch + ch):
            cs += [C(A, w + " <x@y>"), C(A, w + "@y"), C(A, "x@" + w), C(A, "N " + w + " <x." + w + "@" + w + ".y>")]
    for n in (50, 64, 65, 100, 255, 256, 257, 300):
        cs += [C(A, "n" * n + " <x@y>"), C(A, "l" * n + "@y"), C(A, "x@" + "d" * n), C(A, "\"" + "q" * n + "\" <x@y>"),
               C(A, "x@" + ".".join(["d"] * (n // 4))), C(A, ".".join(["l"] * (n // 4)) + "@y"), C(A, " ".join(["Nm"] * (n // 8)) + " <x@y>")]
    for n in ((1010, 1100) if c.q else (500, 998, 999, 1000, 1024, 1025, 2050, 4100)):
        cs += [C(A, s, want=w) for s, w in long_mailboxes(n)]
    cs += randoms(c, 150 if c.q else 3000, lambda g: g.mailbox())
    # names, local parts and domains that are alike, or that look like something else
    odd = ["a", "A", "a@b", "a.b", "'a'", "'", "''", "`a`", "{a}", "a=b", "mailto:a", "a/b", "a%b", "%s", "%20", "a+b", "a&amp;b", "null", "NaN", "0", "-1", "www.b", "xn--a", "XN--A", "A.B", "*", "?", "=?", "?=", "=??=", "\\n", "a_b", "__", "#", "$a", "~", "^", "|", "a|b"]
    q = lambda s: s if all(ch in ATEXT for ch in s) else mined.quote(s)
    for x, y in itertools.product(odd, repeat=2):
        fixed = [C(A, q(x) + " <" + q(y) + "@b>", want=[[cps(x), cps(y + "@b")]])]
        if all(ch in ATEXT + "." for ch in y) and ".." not in y:
            fixed.append(C(A, q(x) + "@" + y, want=[[[], cps(x + "@" + y)]]))
        cs += fixed
    for l, d in itertools.product(("a", "a.b", "A", "0"), ("b", "b.c", "a", "a.b", "B.C")):
        for nm in (l + "@" + d, l, d, "@" + d, l + "@", (l + "@" + d).upper(), (l + "@" + d).lower(), "<" + l + "@" + d + ">", l + "@" + d + " ", "\"" + l + "\""):
            cs.append(C(A, mined.quote(nm) + " <" + l + "@" + d + ">", want=[[cps(nm), cps(l + "@" + d)]]))
        for x, (a, z) in itertools.product((l + "@" + d, l, d), ("<>", "()", "[]", "''", "\"\"", "  ", ",,", ";;", ":;", "- ", "@ ", "\u201c\u201d")):
            for nm in (a + x + z, "T " + a + x + z, a + x + z + " T", "T" + a + x + z):
                for nm in (nm, nm.strip()):
                    cs.append(C(A, mined.quote(nm) + " <" + l + "@" + d + ">", want=mined.mb((nm, l + "@" + d))))
    # every length
    for n in list(range(2, 140)) + [200, 250, 253, 254, 255, 256, 257, 258, 300, 320, 321, 400, 510, 511, 512, 513]:
        w = c.rnd.choice(sorted(set(mined.KIND["name"] + mined.KIND["local"] + mined.KIND["domain"] + mined.KIND["quoted"]) - {"quoted words", "words"})) if c.q else None
        for k in ([w, "quoted local", "atom name", "local", "quoted name", "domain"] if c.q else sorted(set(mined.KIND["name"] + mined.KIND["local"] + mined.KIND["domain"] + mined.KIND["quoted"]))):
            if n < 140 or k in ("quoted local", "atom name", "local", "quoted name", "domain"):
                t, v = mined.SHAPES[k][1](n)
                cs.append(C(A, t, want=v))
    fixed = [x for x in cs if "want" not in x]
    c.cases("mailbox", [x for x in cs if "want" in x] + c.some(fixed, 900))
    c.constants("mailbox", ["name", "local", "domain", "quoted"])
    return c.hunt("mailbox", lambda g: g.mailbox())


@prop
def C02(c):
    """Lists: order, completeness, separators."""
    c.laws("ConcatLaw CommaLaw JoinLaw", PL, 4 if c.q else 5)
    cs = c.write(3 if c.q else 30, dict(list=12, named=5, gaps=1, obs=5, groups=0, size=2))
    g = Gen(c.rnd)
    for n in ([2, 3, 5, 9, 17, 33, 65, 100, 129] if c.q else list(range(2, 40)) + [64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 400]):
        for sep in (",", ";", ", ", ",\r\n ", None):
            t, w = "", []
            for i in range(n):
                if i:
                    t += c.rnd.choice([",", ";"]) if sep is None else sep
                t += "a%d@b%d" % (i, i)
                w.append([[], [ord(x) for x in "a%d@b%d" % (i, i)]])
            if n <= 65 or sep is None or not c.q:
                cs.append(C(A, t, want=w))
    for n in ([3, 9, 20] if c.q else [3, 5, 9, 20, 40, 80]):
        t = ", ".join("N%d <a@b%d>" % (i, i) for i in range(n))
        cs.append(C(A, t, want=[[cps("N%d" % i), cps("a@b%d" % i)] for i in range(n)]))
    # duplicates stay; the same address many times; empty members everywhere
    for n in (2, 3, 10):
        cs.append(C(A, ",".join(["Dup <d@e>"] * n), want=[[cps("Dup"), cps("d@e")]] * n))
    for pre, mid, post in itertools.product(["", ",", " ,", ",,", "(c),", ", (c) ,"], [",", ",,", ", ,", ",(c),", ",\r\n ,", ",,,,"], ["", ",", ",,", ", ,", ",(c)"]):
        cs.append(C(A, pre + "a@b" + mid + "N <c@d>" + mid + "e@f" + post))
    # all short lists of members that are partly alike
    few = [("a@b", "", "a@b"), ("N <a@b>", "N", "a@b"), ("M <a@b>", "M", "a@b"), ("N <c@d>", "N", "c@d"), ("A@b", "", "A@b"), ("<a@b>", "", "a@b"), ("N <>", "N", ""), ("a@b.", "", "a@b."), ("\"\" <c@d>", "", "c@d"), ("\"a\"@b", "", "a@b")]
    for n in (2, 3):
        for ms in itertools.product(few, repeat=n):
            cs.append(C(A, c.rnd.choice([",", ", ", ";", " , ", ",,", "; "]).join(m[0] for m in ms), want=[[cps(m[1]), cps(m[2])] for m in ms]))
    for _ in range(60 if c.q else 600):
        ms = [c.rnd.choice(few) for _ in range(c.rnd.randrange(4, 9))]
        cs.append(C(A, c.rnd.choice([",", ", ", ";", ",,"]).join(m[0] for m in ms), want=[[cps(m[1]), cps(m[2])] for m in ms]))
    for n in ((257, 513, 1001) if c.q else (257, 513, 1001, 1025, 2049)):
        t, v = mined.SHAPES["members"][1](n)
        cs.append(C(A, t, want=v))
    cs += randoms(c, 100 if c.q else 1500, lambda g: g.alist(2, 8, 0))
    c.cases("list", [x for x in cs if "want" in x] + c.some([x for x in cs if "want" not in x], 300), per=3)
    c.constants("list", ["list"])
    return c.hunt("list", lambda g: g.alist(2, 6, 0), 3000, mutate=0)


@prop
def C03(c):
    """Groups flatten in place."""
    c.laws("GroupLaw", PL, 4 if c.q else 5)
    cs = c.write(3 if c.q else 30, dict(list=4, groups=7, named=5, gaps=2, obs=2, size=2, words=2))
    body = ["", " ", "(c)", ",", ",,", " , ", "a@b", "N <a@b>", "a@b,c@d", "a@b, N <c@d>", ",a@b", "a@b,", "a@b,,c@d", "<a@b>", "a@b , c@d,(x)"]
    name = ["g", "Group Name", "\"q:;n\"", "=?utf-8?q?g?=", "g.h", "g (c)", "(c) g", "\u00e9"]
    around = [("", ""), ("x@y,", ""), ("", ",z@w"), ("x@y,", ",z@w"), ("x@y;", ";z@w"), ("X <x@y>, ", ", h: k@l;"), ("h:;,", ""), (",", ",")]
    for b, n, (l, r) in itertools.product(body, name, around):
        cs.append(C(A, l + n + ":" + b + ";" + r))
    for b in body:
        cs += [C(A, "g:" + b), C(A, "\"g:" + b + "\";"), C(A, "\"g:" + b + "\""), C(A, "x@y,g:" + b), C(A, "g:" + b + ";;h:" + b + ";")]
    for n in ([5, 12] if c.q else [5, 12, 30, 60]):
        m = ["m%d@b" % i for i in range(n)]
        cs.append(C(A, "a@b,g:" + ",".join(m) + ";,c@d", want=[[[], cps(x)] for x in ["a@b"] + m + ["c@d"]]))
        cs.append(C(A, ",".join("g%d:%s;" % (i, x) for i, x in enumerate(m)), want=[[[], cps(x)] for x in m]))
    for n in ((17, 40, 66, 130) if c.q else (17, 40, 66, 130, 258, 520)):   # many groups, empty or not, and mailboxes
        m = ["m%d@b" % i for i in range(n)]
        ks = [c.rnd.choice(["g:%s;", "g:;,%s", "%s,g: ;", "g:%s,n@o;", "%s", "N <%s>", "g:N <%s>;"]) for _ in m]
        w = []
        for x, k in zip(m, ks):
            w += [[cps("N" if "N" in k else ""), cps(x)]] + ([[[], cps("n@o")]] if "n@o" in k else [])
        cs += [C(A, c.rnd.choice([",", ", ", ",,"]).join(k % x for x, k in zip(m, ks)), want=w), C(A, ",".join("g:%s;" % x for x in m), want=[[[], cps(x)] for x in m]), C(A, ",".join(["g:;"] * n) + ",a@b", want=[[[], cps("a@b")]])]
    few = ["a@b", "N <c@d>", "g:;", "g:a@b;", "h:N <a@b>,c@d;", "", "g: ;", "g:,a@b;", "g:a@b,;", "Group Name: x@y;", "\"q\":a@b,c@d,e@f;", "<>"]
    for n in (2, 3):
        for ms in itertools.product(few, repeat=n):
            cs.append(C(A, ",".join(ms), few=1))
    for n, m in itertools.product(range(0, 7), range(0, 5)):
        ms = ["m%d@b" % i for i in range(n)]
        for sep in (",", ", ", ",,"):
            for pre, post in (("", ""), ("x@y,", ""), ("", ",x@y"), ("h:k@l,m@n;,", ",o:;")):
                cs.append(C(A, pre + "," * m + "g" * (3 * m + 1) + ":" + sep.join(ms) + ";" + post, few=1))
    cs += randoms(c, 100 if c.q else 1500, lambda g: g.alist(1, 3, .8), .2)
    few = c.some([x for x in cs if "few" in x], 900)
    c.cases("groups", [x for x in cs if "want" in x] + few + c.some([x for x in cs if "want" not in x and "few" not in x], 500), per=3)
    c.constants("groups", ["group"])
    return c.hunt("groups", lambda g: g.alist(1, 3, .8), 3000)


BASES = [("Na Me <lo@do>", "a@b"), ]
PIECES = [  # texts cut where comments and white space may stand
    ["", "Na", "|", "Me", "", "<", "", "lo", "", "@", "", "do", "", ">", "", ",", "", "x", "", "@", "", "[1.2]", ""],
    ["", "\"q\"", "", "<", "", "lo.cal", "", "@", "", "do.main", "", ">", ""],
    ["", "g", "", ":", "", "a", "", "@", "", "b", "", ",", "", "N", "", "<", "", "c", "", "@", "", "d", "", ">", "", ";", "", ",", "", "e", "", "@", "", "f", ""],
    ["", "=?utf-8?q?x?=", "|", "=?utf-8?q?y?=", "|", "z", "", "<", "", "lo", "", ".", "", "\"r\"", "", ".", "", "s", "", "@", "", "do", "", ">", ""],
    ["", "a", "", "@", "", "b", "", ";", "", "c", "", "@", "", "d", ""],
    ["", "N", "", "<", "@r", "", ":", "", "a", "", "@", "", "b", "", ">", ""],
    ["", "N", "", "<>", "", ",", "", "a@b", ""],
    ["", ",", "", "a@b", "", ",", "", ",", "", "c@d", "", ",", ""],
    ["", "a@b", "", ":25"],
]


def layouts(pieces, forms):
    """Each gap of a text in each layout, one at a time; then all gaps alike."""
    gaps = [i for i, p in enumerate(pieces) if p in ("", "|")]
    plain = ["" if p == "" else " " if p == "|" else p for p in pieces]
    for g in gaps:
        for f in forms:
            yield "".join(plain[:g] + [f] + plain[g + 1:])
    for f in forms:
        yield "".join(f if p in ("", "|") else p for p in pieces)


@prop
def C04(c):
    """Comments and folding white space between tokens do not matter."""
    c.laws("CommentLaw SpaceLaw Balance", ["a", "(c)", "@", "<", ">", ",", " ", ".", ":", "[b]"], 4 if c.q else 6)
    cs = c.write(3 if c.q else 30, dict(list=2, groups=1, named=6, gaps=9, obs=2, literal=1, size=2, words=3))
    fixed = [C(A, t) for p in PIECES for t in layouts(p, LAYOUT)]
    cs += [C(A, "(" + "c" * n + ") N <a@b>", want=[[cps("N"), cps("a@b")]]) for n in ((1010,) if c.q else (255, 256, 998, 1000, 1024, 4100))]
    # nested comments and long folds
    for n in ([20, 60] if c.q else [20, 60, 150, 300]):
        w = [[cps("N"), cps("a@b")]]
        cs += [C(A, "N " + "(" * n + "x" + ")" * n + " <a@b>", want=w), C(A, "N <a@b>" + "(c)" * n, want=w),
               C(A, "N" + " " * n + "<a@b>", want=w), C(A, "N (" + "\r\n x" * n + ") <a@b>", want=w)]
    cs += c.some(fixed, 1000)
    # what comments contain, after every sort of mailbox
    inner = ["", "a", "John", "John Smith", "a@b", "<a@b>", "x@y", "N <x@y>", "\"q\"", "=?utf-8?q?a?=", ",", ";", ":", "@", ".", "g:;", "(n)", "(a@b)", "\\)", "\\\\", "\r\n ", " ", "1", "\u00e9", "'", "[1]", "\x01", "\\\x00"]
    where = ["x@y (%s)", "x@y(%s)", "(%s)x@y", "(%s) x@y", "N <x@y> (%s)", "N (%s) <x@y>", "(%s) N <x@y>", "<x@y>(%s)", "<x@y> (%s)", "x(%s)@y", "x@(%s)y", "N <(%s)x@y>", "N <x@y(%s)>", "\"N\"(%s)<x@y>", "(%s) <x@y>", "x@y (%s),z@w (%s)", "g(%s):x@y;", "g:x@y(%s);", "g:;(%s)", "g:(%s);", "=?utf-8?q?n?=(%s)<x@y>", "a.b (%s) @y", "\"l\"(%s)@y", "x@[1](%s)", "N <x@y> (%s) ,z@w", "N(%s)M(%s)<x@y>", "<>(%s)", "N (%s)(%s) M <x@y>"]
    cs += c.some([C(A, w.replace("%s", i)) for w in where for i in inner], 500)
    c.cases("layout", cs, per=4)
    c.constants("layout", ["comment"])
    return c.hunt("layout", lambda g: g.oc(.8) + g.pick(g.mailbox, g.group)() + g.oc(.8), 3000, mutate=.1)


def contexts_all(chars, ctx):
    return [C(A, pre + ch + post) for ch in chars for pre, post in ctx]


@prop
def C05(c):
    """Quoted strings are read back exactly."""
    c.laws("QuoteLaw", ["a", "\"", "\\", "<", "@", " ", ",", "\t", "\u00e9", ":", "=?"], 2 if c.q else 4, raw=True)
    cs = c.write(4 if c.q else 40, dict(list=1, named=6, quoted=10, size=8, words=2, gaps=1))
    ctx = [("\"", "\" <x@y>"), ("\"a", "b\" <x@y>"), ("\"", "\"@y"), ("\"a", "b\"@y"), ("W \"a", "\" Z <x@y>"), ("\"", "b\" <x@y>"), ("N <\"a", "b\"@y>")]
    chars = ASCII + ["\\" + ch for ch in ASCII] + ["\r\n ", " \r\n ", "\t\r\n\t ", "\r\n\t", " \r\n", "\r\n", "\n ", "\r ", "\\\\\\\"", "\\\\", "\\ ", "\u00e9",
                                                  "\\\u00e9", "\U0001f600", "\\\U0001f600", "  ", "\t\t", " \t ", "=?utf-8?q?x?=", "(c)", "<a@b>", "a,b;c:d", "//", "''"]
    fixed = contexts_all(chars, ctx)
    for n in ([64, 300, 1030] if c.q else [64, 128, 300, 1000, 1025, 2050]):
        s = "".join(c.rnd.choice("ab \\\"()<>@,;:.") for _ in range(n)) + "e"
        q = "\"" + s.replace("\\", "\\\\").replace("\"", "\\\"") + "\""
        cs += [C(A, q + " <x@y>", want=[[cps(s), cps("x@y")]]), C(A, q + "@y", want=[[[], cps(s + "@y")]])]
    bits = ["a", " ", "\t", "\r\n ", "\r\n\t", "\\\"", "\\\\", "\\a", "\\ ", "(", "<", "@", "\u00e9", "'", "=?", "\\\u00e9"]
    for n in (1, 2, 3):
        for t in itertools.product(bits, repeat=n):
            if "".join(t).count("\r\n") < 2:
                for post in (" <x@y>", "@y"):
                    fixed.append(C(A, "\"" + "".join(t) + "\"" + post))
    # what looks like something else
    like = ["g: a@b;", "g: N <a@b>;", "g:;", "a@b", "<a@b>", "N <a@b>", "N (a@b)", "(c)", "(c) N", "N (c)", "a@b, c@d", "Last, First", "a;b", "a: b", "a; b: c;", "[a]", "[1.2.3.4]", "\"q\"", "'q'", "\\", "\\n", "\\\\", "//", "/* */", "=?utf-8?q?a?=", "=?utf-8?b?YQ==?= b", "=41", "%41", "&amp;", "<b>a</b>",
            "mailto:a@b", "<mailto:a@b>", "via a@b", "a on behalf of b", "Re: a", "a - b", "a | b", "{a}", "$a", "${a}", "a=b", "a,b,c", ",", ";", ":", "<", ">", "@", ".", "a.", ".a", "a..b", "[a", "a]", "(a", "a)", "<a", "a>", "\"", "\"a", "a\"", "'a", "a'", "`a`", "\u201ca\u201d", "1 Jan 2006 01:02", "a\tb", "\ta", "a ", " a", "  a  b  ", "", " ", "null", "nil", "undefined", "?", "*", "#", "~", "!"]
    for x in like + [c.rnd.choice(like) + c.rnd.choice(["", " ", "b", ", "]) + c.rnd.choice(like) for _ in range(300)]:
        q = mined.quote(x)
        cs += [C(A, q + " <x@y>", want=mined.mb((x, "x@y"))), C(A, q + "@y", want=mined.mb(("", x + "@y"))), C(A, c.rnd.choice([q + ":a@b;", "g:" + q + "<a@b>;", "x@y," + q + "@b;z@w", "W " + q + " Z <a@b>", q + "\r\n " + q + " <a@b>", "a." + q + "@b"]))]
    many = [C(A, "\"" + "".join(c.rnd.choice(bits + ["b c"]) for _ in range(c.rnd.randrange(4, 12))) + "\"" + c.rnd.choice([" <x@y>", "@y", " w <x@y>"])) for _ in range(300)]
    cs += randoms(c, 100 if c.q else 1500, lambda g: g.quoted() + c.rnd.choice([" <x@y>", "@y", "<x@y>", " w <x@y>"]), .15)
    c.cases("quoted string", cs + many + c.some(fixed, 2000))
    c.constants("quoted string", ["quoted"])
    return c.hunt("quoted string", lambda g: g.quoted() + c.rnd.choice([" <x@y>", "@y", "<x@y>", " w <x@y>"]), 4000)


@prop
def C06(c):
    """How a display name is put together."""
    c.laws("Spaces NothingAdded", ["a", "@", ".", " ", "\t", "(c)", "\r\n ", "<b@c>"], 4 if c.q else 6)
    cs = c.write(3 if c.q else 30, dict(list=1, named=10, quoted=4, encoded=3, words=5, size=2, gaps=4))
    pieces = []
    toks = ["a", "B2", "\"q r\"", "\"\"", "\" s \"", "=?utf-8?q?e?=", "=?utf-8?b?ZiA=?=", ".", "@", "..", " ", "  ", "(c)", "\r\n ", "\t"]
    fixed = [C(A, "".join(t) + end) for n in (1, 2, 3, 4) for t in (itertools.product(toks, repeat=n) if n < 3 else
             [tuple(c.rnd.choice(toks) for _ in range(n)) for _ in range(400 if c.q else 4000)]) for end in ("<x@y>", )]
    words = ["a", "Bc", "\"q r\"", "\"\"", "\" s\"", "\"t \"", "=?utf-8?q?e?=", "=?utf-8?b?ZiA=?=", "x-y", "\u00e9", "\".\""]
    seps = [" ", "  ", ".", "@", ". ", " .", " . ", "@ ", "..", ".@", "(c)", " (c) ", ".(c)", "\r\n ", "\t", ""]
    for _ in range(500 if c.q else 8000):
        n = c.rnd.choice([2, 3, 3, 4, 5])
        pieces.append(C(A, c.rnd.choice(["", "", " "]) + "".join(c.rnd.choice(words) + c.rnd.choice(seps) for _ in range(n)) + "<x@y>"))
    fixed += [C(A, s) for s in ("J. Doe <x@y>", "John Q. Public <x@y>", "a.b.c <x@y>", "a@b <x@y>", "Mr. \"X.\" Y. <x@y>", "A.. B <x@y>", "A . B <x@y>",
                                "a . <x@y>", "<x@y>", " <x@y>", "\"\" <x@y>", "\"\" a <x@y>", "a \"\" <x@y>", "a \"\" b <x@y>")]
    for n in ([8, 20] if c.q else [8, 20, 50, 100]):
        ws = ["w%d" % i for i in range(n)]
        cs.append(C(A, c.rnd.choice([" ", "  ", "\t", " (c) "]).join(ws) + " <x@y>", want=[[cps(" ".join(ws)), cps("x@y")]]))
    ws = ["a", "b", "\"q\"", "\"\"", "\" \"", "\"r \"", "=?utf-8?q?e?=", "=?utf-8?q?_?=", "=?utf-8?q??=", "=?utf-8?q?_f?=", "."]
    alls = [C(A, " ".join(t) + " <x@y>") for n in (1, 2, 3) for t in itertools.product(ws, repeat=n)] + [C(A, "".join(t) + " <x@y>") for n in (2, 3) for t in itertools.product(["a", "\"q\"", ".", "@", " ", "=?utf-8?q?e?="], repeat=n)]
    for _ in range(200):
        alls.append(C(A, " ".join(c.rnd.choice(ws) for _ in range(c.rnd.randrange(4, 8))) + " <x@y>"))
    cs += randoms(c, 120 if c.q else 2000, lambda g: g.name() + g.oc(.5) + "<x@y>", .1)
    c.cases("display name", cs + c.some(fixed, 500) + c.some(pieces, 400) + c.some(alls, 1500))
    c.constants("display name", ["name", "encoded", "quoted"], most=1000)
    return c.hunt("display name", lambda g: g.name() + g.oc(.5) + "<x@y>", 4000, mutate=.1)


def qenc(bs, lower=False):
    return "".join(("=%02x" if lower else "=%02X") % b for b in bs)


@prop
def C07(c):
    """Encoded words are decoded; what cannot be decoded stays as it is."""
    c.numbers("CodeLaw", 2047 if c.q else 65535)
    if not c.q:
        c.laws("FirstDerivation", ["a", "?=", "?", "=", " ", "<b@c>"], 4, begin="=?u?q?a?=")
    near = []
    cs = c.write(3 if c.q else 30, dict(list=1, named=10, encoded=9, quoted=2, words=4, size=2, gaps=2))
    fixed = []
    E = lambda cs_, enc, t, pre="", post=" <x@y>": fixed.append(C(A, "%s=?%s?%s?%s?=%s" % (pre, cs_, enc, t, post)))
    for cs_ in ("utf-8", "UTF-8", "Utf-8", "iso-8859-1", "ISO-8859-1", "us-ascii", "US-ASCII"):
        for enc in "qQbB":
            for lo in range(0, 256, 32):
                bs = bytes(range(lo, lo + 32))
                E(cs_, enc, qenc(bs, lo % 64 == 0) if enc in "qQ" else base64.b64encode(bs).decode())
    for n in range(0, 9):   # every length of base64, padded or not
        b = base64.b64encode(bytes(range(65, 65 + n))).decode()
        for t in (b, b.rstrip("="), b + "=", b[:-1], b + "A"):
            if t:
                E("utf-8", "b", t)
    for ch in ASCII:        # every character in the text of a Q word, and of a B word
        E("utf-8", "q", "a" + ch + "b")
        E("utf-8", "b", "YWJj" + ch)
        E("iso-8859-1", "q", ch)
        E("utf-8", "q", "=" + ch + "1")
        E("utf-8", "q", "=4" + ch)
        E("u" + ch, "q", "a")
        E("utf-8", ch, "a")
    for t in ("_", "a_b", "__", "=5F", "=20", "=3D=3F", "=", "=4", "a=", "==", "=4G", "=zz", "=C3=A9", "=c3=a9", "=F0=9F=98=80", "=FF", "=00", "=0D=0A", "\u00e9"):
        for cs_ in ("utf-8", "iso-8859-1", "us-ascii", "x-none", "UTF8", "utf-8*en", "windows-1252", "iso-2022-jp", "koi8-r"):
            E(cs_, "q", t)
    e = "=?utf-8?q?a?="
    for t in (e, e + e, e + " " + e, e + "  " + e, e + "\r\n " + e, e + "(c)" + e, "x " + e, e + " x", "x" + e, e + "x", "\"" + e + "\"", e + " " + e + " x " + e,
              "=?utf-8?q??=", "=?utf-8?b??=", "=??q?a?=", "=?utf-8??a?=", "=?utf-8?q?a", "=?utf-8?q?a?", "=?utf-8?q?a b?=", e + ".", "." + e, e + "@", "a." + e,
              "=?utf-8?q?a?b?=", "=?utf-8?qq?a?=", "=?utf-8?q?=?=", "=?utf-8?q?a=?=", "=?utf-8?q?(?=", "=?utf-8?q?<?=", "=?utf-8?q?,?=", "=?utf-8?q?\"?="):
        fixed += [C(A, t + " <x@y>"), C(A, t + ":;"), C(A, "g:" + t + " <x@y>;"), C(A, t + "@y"), C(A, "N <" + t + "@y>"), C(A, "x@" + t), C(A, "x@[" + t + "]"),
                  C(A, "a." + t + "@y"), C(A, t + ".a@y"), C(A, "(" + t + ") <x@y>")]
    # words that are nearly the same, in one list
    for _ in range(60 if c.q else 600):
        w = c.rnd.choice(["=?utf-8?b?YWJjZGVm?=", "=?utf-8?q?aBc=41?=", "=?iso-8859-1?q?=E9x?=", "=?x-no?q?abc?=", "=?utf-8?B?4pyT?="])
        ws = [w]
        for _ in range(4):
            i = c.rnd.randrange(len(w))
            ws.append(w[:i] + (w[i].swapcase() if w[i].isalpha() and c.rnd.random() < .7 else c.rnd.choice("aA1=")) + w[i + 1:])
        near.append(C(A, c.rnd.choice([" ", "", " x ", ""]).join(ws) + " <x@y>" if c.rnd.random() < .3 else ", ".join(x + " <x@y>" for x in ws)))
    long = "".join("=?utf-8?q?w%d?= " % i for i in range(12))
    cs.append(C(A, long + "<x@y>", want=[[cps("".join("w%d" % i for i in range(12))), cps("x@y")]]))
    for n in ((45, 75, 120, 300, 1030) if c.q else (45, 75, 76, 120, 255, 256, 300, 998, 1000, 1030, 3100)):
        s = "".join(c.rnd.choice("abcdefgh ") for _ in range(n))
        cs += [C(A, "=?utf-8?q?%s?= <x@y>" % s.replace(" ", "_"), want=[[cps(s), cps("x@y")]]),
               C(A, "=?utf-8?b?%s?= <x@y>" % base64.b64encode(s.encode()).decode(), want=[[cps(s), cps("x@y")]])]
    bits = ["a", "_", "=20", "=C3=A9", "=C3", "=A9", "=3D", "=3F", "=5F", "=00", "=0A", "=FF", "=80", "=E4=B8", "=AD", "=F0=9F", "=98=80", "=EF=BF=BD", "=ED=A0=80", "=C2=AD", "=E2=80=8B", "=22", "=3C", "=2C", "=EF=BB=BF", "=0D", "=09", "=7F", "=1B", "=28", "=C0=80"]
    for n in (1, 2):
        for t in itertools.product(bits, repeat=n):
            fixed.append(C(A, "=?utf-8?q?%s?= <x@y>" % "".join(t)))
            if n == 2:
                fixed.append(C(A, "=?utf-8?q?%s?= =?utf-8?q?%s?= <x@y>" % t))
                near.append(C(A, "=?%s?q?%s?=%s=?%s?q?%s?= <x@y>" % (c.rnd.choice(["utf-8", "iso-8859-1", "us-ascii", "x-no"]), t[0], c.rnd.choice(["", " ", "\r\n ", "  ", "(c)", " z "]), c.rnd.choice(["utf-8", "iso-8859-1", "us-ascii", "x-no"]), t[1])))
    # what is encoded looks like something else
    for inner in ("=?utf-8?q?a?=", "=?utf-8?b?YQ==?=", "a@b", "<a@b>", "\"a\"", "N <c@d>", "a, b", "a;b", "(c)", "\\\"", "\\", "'a'", " a", "a ", "a  b", "\ta", "a\r\n b", "a\nb", "\x00", "\u00e9", "e\u0301", "\ufeff", "\u200b", "\u202e", "%41", "&amp;", "=41", "_", "a_b", "?", "=", "?=", "=?"):
        for enc in "qb":
            w = qenc(inner.encode()) if enc == "q" else base64.b64encode(inner.encode()).decode()
            for f in ("=?utf-8?%s?%s?= <x@y>", "N =?utf-8?%s?%s?= M <x@y>", "\"=?utf-8?%s?%s?=\" <x@y>", "=?UTF-8?%s?%s?= =?utf-8?q?z?= <x@y>", "=?utf-8?q?z?= =?UTF-8?%s?%s?= <x@y>", "a.=?utf-8?%s?%s?=@y", "(=?utf-8?%s?%s?=) N <x@y>", "=?utf-8?%s?%s?=:a@b;", "\"=?utf-8?%s?%s?=\"@y", "N \"=?utf-8?%s?%s?=\" <x@y>"):
                cs.append(C(A, f % (enc, w)))
    for n in range(1, 130):
        for k in ("encoded text", "encoded escapes"):
            t, v = mined.SHAPES[k][1](n)
            cs.append(C(A, t, want=v))
    cs += randoms(c, 120 if c.q else 2000, lambda g: " ".join(g.encoded() for _ in range(g.n(1, 3))) + " <x@y>", .1)
    c.cases("encoded word", cs + c.some(near, 500) + c.some(fixed, 1500))
    c.constants("encoded word", ["encoded"])
    return c.hunt("encoded word", lambda g: " ".join(g.encoded() for _ in range(g.n(1, 3))) + " <x@y>", 4000)


POOL = [(A, "a@b"), (A, "N M <a.b@c.d>"), (A, "=?x-up?q?ab?= <c@d>"), (A, "=?X-Rev?b?YWJj?= =?utf-8?q?x?= <c@d>"), (A, "=?x-tag?q?m?= <c@d>, =?x-no?q?m?= <c@d>"),
        (A, "g: =?x-tag?q?u?= <a@b>, c@d;, \"q\"@[1.2]"), (A, "=?x-failread?q?m?= <c@d>"), (A, "a@b,c@d,e@f"), (A, "a@"), (A, "=?x-slow?q?abcdef?= =?x-up?b?eHg=?= <a@b>"),
        (A, "=?x-nest?q?m_n?= =?x-void?q?z?= x <a@b>"),
        (A, "=?utf-8?q?=C3=A9?= <a@b>"), (A, "=?iso-8859-1?q?=E9?= <a@b>"), (A, "(c) x <y@z>"), (A, "g:;"), (A, ""), (D, "Mon, 2 Jan 2006 15:04:05 -0700"),
        (D, "1 Feb 1999 1:02 EST"), (D, "29 Feb 2024 23:59:60 +0530"), (D, "nonsense"), (D, "3 Mar 2003 04:05 (x) GMT"), (D, "3 Mar 2003 04:05")]


@prop
def C08(c):
    """The charset reader."""
    c.numbers("CodeLaw", 255 if c.q else 8191)
    cs = []
    for rd in ("base", "alt", "any"):
        cs += c.write(1 if c.q else 15, dict(reader=rd, list=1, named=10, encoded=10, words=3, size=2, gaps=1))
    cs += randoms(c, 60 if c.q else 800, lambda g: " ".join(g.encoded() for _ in range(g.n(1, 3))) + " <x@y>", 0, reader="base")
    for rd in ("none", "base", "alt", "any"):
        for name in ("x-up", "X-UP", "x-Rev", "X-tag", "x-slow", "x-failread", "x-gaps", "x-eof", "x-lazy", "x-nest", "x-void", "x-much", "x-both", "x-no", "windows-1252", "utf-8", "UTF-8", "iso-8859-1", "us-ascii", "x-up*en", "utf8", "latin1"):
            for t in ("q?abC", "b?" + base64.b64encode(bytes(range(256))).decode(), "q?" + qenc(range(128, 256)), "q?_", "q?=G", "b?abc", "x?abc", "q?" + "long" * 30, "q?=0D=0A=00"):
                cs.append(C(A, "=?%s?%s?= <x@y>" % (name, t), rd))
                if c.rnd.random() < .2:
                    cs.append(C(A, "p =?%s?%s?= =?%s?%s?= s <x@y>, =?%s?%s?= <z@w>" % ((name, t) * 3), rd))
    for n in (45, 120, 1700):     # x-much gives forty times as much
        cs.append(C(A, "=?x-much?q?%s?= <x@y>" % ("m" * n), "base", want=[[cps("m" * 40 * n), cps("x@y")]]))
    for nm in ("x-failread", "x-both", "x-gaps", "x-eof", "x-slow", "x-lazy", "x-void", "x-up"):
        for n in (0, 1, 2, 3, 4, 5, 8, 20, 70):
            cs.append(C(A, "N =?%s?q?%s?= M <x@y>" % (nm, ("abcdefghij" * 7)[:n]), c.rnd.choice(["base", "alt"])))
    for nm in ("utf-8", "UTF-8", "us-ascii", "US-ASCII", "iso-8859-1", "ISO-8859-1", "Iso-8859-1", "latin1", "utf8", "ascii", "windows-1252", "cp1252", "iso-8859-15", "utf-16", "utf-7", "iso-2022-jp", "gb2312", "big5", "koi8-r", "shift_jis", "euc-kr", "unknown-8bit", "x-unknown", "binary", "iso8859-1", "utf_8", "utf-8 ", "utf-8*en", "iso-8859-1*de"):
        for t in ("q?abC", "q?=E9=80=C3=A9", "b?6YDDqQ==", "q?=93a=94"):
            for rd in ("none", "any", "base"):
                cs.append(C(A, "=?%s?%s?= <x@y>" % (nm, t), rd, few=1))
    cs = [x for x in cs if "want" in x] + [x for x in cs if "few" in x] + c.some([x for x in cs if "want" not in x and "few" not in x], 450)
    c.cases("charset reader", cs)
    c.constants("charset reader", ["encoded"], reader=c.rnd.choice(["any", "base"]), most=800)
    sch = c.schedules(POOL[1:15], 1 if c.q else 30, ids=8, burst=1, maxlog=14)
    c.go("charset reader replaced", sch[:110] if c.q else sch)
    return c.hunt("charset reader", lambda g: " ".join(g.encoded() for _ in range(g.n(1, 3))) + " <x@y>", 3000, reader="base")


@prop
def C09(c):
    """The forms of an addr-spec."""
    c.laws("RouteLaw Shape NothingAdded", ["a@b", "<@r,@s:", "<", ">", ",", " ", "N", ":1", "."], 4 if c.q else 6)
    cs = c.write(3 if c.q else 30, dict(list=2, named=5, literal=3, port=3, route=3, empty=2, obs=6, quoted=4, size=3, gaps=2))
    loc = ["a", "a.b", "a.", "a..b", ".a", "\"q\"", "\"\"", "\"q\".a", "a.\"q\"", "a . b", "(c)a(d)", "a(c).b", "\u00e9", "\"a@b\"", "=?utf-8?q?x?=", "a.=?utf-8?q?x?=", "A.B-c+d", "0", "-", "a.b.c.d.e.f"]
    dom = ["b", "b.c", "b.", "b.c.", "b..c", ".b", "[1.2.3.4]", "[]", "[IPv6:::1]", "[ipv6:::1]", "[IPV6:1::2]", "[a b]", "[\r\n a]", "[ a ]", "[a\\b]", "[[]", "(c)b(d)", "b .c", "b.(c)d", "B.Com", "\u00e9.com",
           "b.c.d.e.f.g", "1", "-", "b_c", "b:25", "b:0", "b:65536", "b.c:99999999", "[1.2]:25", "b.:25", "b:", "b:2a", "b: 25", "b :25", "b:25 ", "\"b\"", "xn--a"]
    ang = ["%s", "<%s>", "N <%s>", "< %s >", "(c)<(c)%s(c)>(c)", "<@r:%s>", "<@r,@s:%s>", "<,@r,,@s:%s>", "<@r.t, (c) @[s]:%s>", "N<%s", "%s>", "<<%s>>", "<@r%s>", "<@:%s>", "g:%s;", "g:N <%s>,x@y;"]
    fixed = [C(A, f % (l + "@" + d)) for l in loc for d in dom for f in ang]
    fixed += [C(A, s) for s in ("<>", "N <>", "N < >", "<>,<>", "a@b,<>", "g:<>;", "\"N\" <>", "<>x", "<@r:>", "@", "a", "a@", "@b", "a b@c", "a@b c", "a@b@c", "<a>", "N <a>", "N a@b")]
    for n in range(1, 80):
        for k in ("local words", "labels", "literal", "port", "route", "quoted local"):
            t, v = mined.SHAPES[k][1](n)
            cs.append(C(A, t, want=v))
    labels = ["b", "B", "xn--b", "XN--B", "b-", "-b", "1", "com", "b_c", "\u00e9", "\u00c9", "\u3002"]
    for n in (1, 2, 3):
        for t in itertools.product(labels, repeat=n):
            fixed.append(C(A, "a@" + ".".join(t)))
    for n in (2, 3, 4, 5, 6):
        for e in (".", "..", ":1", ".:1"):
            for f in ("a@%s", "N <a@%s>", "\"a\"@%s", "<@r:a@%s>", "a@%s,c@d"):
                cs.append(C(A, f % (".".join(["bc"] * n) + e)))
    rt = ["@r", "@[1.2]", "@r.s", "", "@[IPv6:1::2]", "@\u00e9", " @r", "@R.", "(c)@r"]
    cs += [C(A, "%s<%s:a@b>" % (c.rnd.choice(["", "N "]), ",".join(t))) for n in (1, 2) for t in itertools.product(rt, repeat=n)]
    cs += randoms(c, 150 if c.q else 3000, lambda g: g.pick(g.spec(), "N <" + g.spec() + ">", "<" + g.route() + g.spec() + ">"), .1)
    c.cases("addr-spec", cs + c.some(fixed, 2200))
    c.constants("addr-spec", ["local", "domain", "angle"])
    return c.hunt("addr-spec", lambda g: g.pick(g.spec(), "N <" + g.spec() + ">", "<" + g.route() + g.spec() + ">"), 4000, mutate=.1)


SLICES = [
    (A, "", "a@<>, :;", 0, 60), (A, "", "a@<>.\"\\ ", 0, 60), (A, "", "a@.[] \r\n<>", 0, 60), (A, "", "a@()\\ \r\n,\0", 2, 60),
    (A, "<", "a@,: .>(", 1, 60), (A, "", "1a@:,. ;", 0, 60), (A, "\"g", "a\":;@, ", 0, 7), (A, "", "a=?@<> \"", 0, 7), (A, "=?a?q?", "a=?@<> .", 0, 9),
    (A, "g:", "a@<>,; \"", 0, 7), (A, "", "\"\\\r\n a@\0\x01", 0, 60),
]
CTX = [("", "@b"), ("a", "@b"), ("a@", ""), ("a@b", ""), ("a@b", "c"), ("\"", "\"@b"), ("\"\\", "\"@b"), ("a@[", "]"), ("a@[x", "x]"), ("(", ")a@b"), ("(\\", ")a@b"), ("(x", "x)a@b"),
       ("", " <a@b>"), ("N", " <a@b>"), ("N ", " <a@b>"), ("N <", "a@b>"), ("N <a@b", ">"), ("N <a@b>", ""), ("a@b,", ""), ("a@b", ",c@d"), ("a@b,", ",c@d"), ("g", ":a@b;"), ("g:", "a@b;"),
       ("g:a@b", ";"), ("g:a@b;", ""), ("=?", "?q?a?= <a@b>"), ("=?u", "?q?a?= <a@b>"), ("=?u?", "?a?= <a@b>"), ("=?u?q?", "?= <a@b>"), ("=?u?q?a", "?= <a@b>"), ("=?u?q?a?=", " <a@b>"),
       ("<@", ":a@b>"), ("<@r", ":a@b>"), ("<@r:", "a@b>"), ("a@b:", ""), ("a@b:1", ""), ("a@b:1", "2"), ("a .", "b@c"), ("\"a\"", "@c"), ("a@b\r\n", ""), ("a@b ", " "), ("", ""), ("N \"x\"", "<a@b>"), ("\"g:a@b", "\";")]


@prop
def C10(c):
    """Exactly the published grammar is accepted."""
    c.laws("FirstDerivation", PA, 3 if c.q else 5)
    c.laws("FirstDerivation", PQ, 3 if c.q else 5)
    sl = SLICES if not c.q else SLICES[:6] + [c.rnd.choice(SLICES[6:9]), c.rnd.choice(SLICES[9:])]
    c.go("language", c.cover(sl, 0.45 if c.q else 1))
    cs = contexts_all([chr(i) for i in range(128)] + ["\x80", "\u00e9", "\u2028", "\uffff", "\U00010000", "\U0010ffff", "\r\n", "\r\n ", " \r\n "], CTX)
    cs = c.some(cs, 2500)
    cs += randoms(c, 250 if c.q else 3000, lambda g: g.alist(1, 2), .75)
    # texts cut short, and with each character left out, doubled, or exchanged with the next one
    for t in ("Na Me <lo.cal@do.main>, \"q\"@[1.2]", "g: a@b, N <c@d>;, e@f", "=?utf-8?q?a?= x <@r:a@b>, c@d:25", "\"a \\\" b\" (c(d)) <e@f>; <>", "a . \"b\" @c,\r\n (x) d@e"):
        cs += c.some([C(A, t[:i]) for i in range(len(t))] + [C(A, t[i:]) for i in range(len(t))] + [C(A, t[:i] + t[i + 1:]) for i in range(len(t))] + [C(A, t[:i] + t[i] + t[i:]) for i in range(len(t))] +
                     [C(A, t[:i] + t[i + 1] + t[i] + t[i + 2:]) for i in range(len(t) - 1)], 130)
    # tokens in any order
    tk = ["a", "a@b", "c@d.e", "<c@d>", "<>", "N ", ",", ";", "g:", ":", " ", "\r\n ", "(c)", "\"q\"", ".", "@", "=?utf-8?q?x?=", "@[1]", ":25", "<@r:e@f>"]
    cs += c.some([C(A, "".join(x)) for n in (1, 2, 3) for x in itertools.product(tk, repeat=n)], 700)
    cs += [C(A, "".join(c.rnd.choice(tk) for _ in range(c.rnd.randrange(4, 8)))) for _ in range(500 if c.q else 5000)]
    # two lists with something between them
    part = ["a@b", "N <a@b>", "\"q\"@b", "g:a@b;", "g:;", "<a@b>", "<>", "a@[1]", "a@b:25", "a@b,c@d", "N M <a@b>", "=?utf-8?q?x?= <a@b>"]
    cs += c.some([C(A, x + m + y) for x in part for m in ("", " ", "\r\n ", "\t", "(c)", "\r\n", "\n", "\r", "|", "/", "&", " and ", "+", "\u00a0", "\u3001", "\uff0c", ",", ";", ", ;", ".", ":", "@", "\"", "<", ">", "\x00", "-") for y in part], 700)
    c.cases("language", cs)
    c.constants("language", list(mined.KIND))
    return c.hunt("language", lambda g: g.alist(1, 2), 5000, mutate=.7)


@prop
def C11(c):
    """No line breaks in addresses."""
    c.laws("NoBreaks", ["a", "@", "\"", "\\", "\r", "\n", "\r\n ", "[", "]", "<", ">"], 4 if c.q else 6)
    brk = ["\r", "\n", "\r\n", "\r\n ", " \r\n ", "\n ", "\r ", "\r\r\n ", "\n\r\n ", "\r\n\r\n ", " \r\n", "\\\r", "\\\n", "\\\r\n ", "\\\r\\\n", "\r\n\t\r\n ", "\u0085", "\u2028", "\x0b", "\x0c", "\r\n (\r\n )\r\n "]
    c.go("no line breaks", c.cover([(A, "", "a@\"\\\r\n ", 0, 60), (A, "a@", "a[]\\\r\n .", 0, 60), (A, "<", "a@\"\r\n >", 0, 60)], .5 if c.q else 1))
    cs = [C(A, pre + b + post) for b in brk for pre, post in CTX + [("\"a", "b\"@c"), ("N <\"a", "b\"@c>"), ("a@[", "b]"), ("a@[b", "]"), ("\"", "\" <a@b>"), ("g:\"", "\"@b;"), ("<@r", ",@s:\"x\"@y>"), ("a.\"", "\"@b"), ("a@b", ":25")]]
    cs = c.some(cs, 1400)
    inner = ["a", "\r\n ", "\r\n\t", " ", "\\\r", "\\\n", "\\\x00", "\\a", "\\\\", "(", "."]
    for n in (2, 3, 4):
        for t in c.some(itertools.product(inner, repeat=n), 150):
            for pre, post in (("\"", "\"@b"), ("\"", "\" <a@b>"), ("a@[", "]"), ("(", ")a@b"), ("a.\"", "\".c@d")):
                cs.append(C(A, pre + "".join(t) + post)) if not c.q or c.rnd.random() < .5 else None
    for n in (2, 3, 4):
        cs += [C(A, "a@[" + "b\r\n c" * n + "]"), C(A, "\"" + "b\r\n c" * n + "\"@d"), C(A, "\"" + "b\r\n c" * n + "\" <a@b>"), C(A, "a@[" + "b\r\n\tc " * n + "]:25"), C(A, "a" + "\r\n .b" * n + "@c")]
    cs += c.write(3 if c.q else 20, dict(list=2, named=4, quoted=8, literal=4, gaps=6, obs=4, size=4))
    cs += randoms(c, 100 if c.q else 1500, lambda g: g.mutate(g.spec(), "\r\n \\\""))
    c.cases("no line breaks", cs)
    c.constants("no line breaks", list(mined.KIND), only=lambda t: "\r" in t or "\n" in t)
    return c.hunt("no line breaks", lambda g: g.mutate(g.mailbox(), ["\r\n ", "\r", "\n", "\\\r", "\\\n", "\"", "["]), 4000, mutate=.3)


@prop
def C12(c):
    """Every Unicode character comes through."""
    c.numbers("Utf8Law", 17407)
    alone = sorted({u for u in range(0x80, 0x110000) if unicodedata.category(chr(u)) in ("Cc", "Cf", "Zs", "Zl", "Zp")} | {0xFFFD, 0xFFFE, 0xFFFF, 0x34F, 0x3002, 0xFF0E, 0xFF61, 0xFF20, 0xFF0C, 0xFF1B, 0xFF1C, 0xFF1E, 0xFE6B, 0x2024, 0xFE52, 0x201C, 0x201D, 0x2018, 0x2019, 0xAB, 0xBB,
                    0x115F, 0x1160, 0x3164, 0xFFA0, 0x2800, 0x10000, 0xFFFFF, 0x100000, 0x10FFFE, 0x10FFFF, 0x1F600, 0xE000, 0xF8FF, 0xFDD0, 0xD7FF})
    odd = [u for u in range(0x80, 0x30000) if not 0xD800 <= u <= 0xDFFF and (unicodedata.normalize("NFKC", chr(u)) != chr(u) or chr(u).upper() != chr(u) or chr(u).lower() != chr(u) or unicodedata.combining(chr(u)) or chr(u).isdigit())]
    rich = [u for u in alone if not 0xE0020 <= u <= 0xE007E] + c.rnd.sample(odd, 150 if c.q else 4000)
    cs = []
    for u in rich:
        k, bs = chr(u), list(chr(u).encode())
        w = lambda t, *ps: cs.append(C(A, t, want=[[list(n.encode()), list(a.encode())] for n, a in ps]))
        w("%sa%s <%sl%s@%sd%s>" % ((k,) * 6), ("%sa%s" % (k, k), "%sl%s@%sd%s" % ((k,) * 4)))
        w("%s <%s@%s>,%s@%s" % ((k,) * 5), (k, k + "@" + k), ("", k + "@" + k))
        w("\"%sb %s\" a%sb <\"%sc%s\"@[%sd%s]>" % ((k,) * 7), ("%sb %s a%sb" % (k, k, k), "%sc%s@[%sd%s]" % ((k,) * 4)))
        w("(%s)%s.a.%s@b.%s.c(%s)" % ((k,) * 5), ("", "%s.a.%s@b.%s.c" % ((k,) * 3)))
        w("\"\\%sa\\%s\" <x@a%sb>" % ((k,) * 3), ("%sa%s" % (k, k), "x@a%sb" % k))
        w("g%s:%s@%s;,a %s b <x@y>" % ((k,) * 4), ("", k + "@" + k), ("a %s b" % k, "x@y"))
    edge = UNI + [0x85, 0xAD, 0xDF, 0x130, 0x131, 0x17F, 0x301, 0x345, 0x1C5, 0x661, 0x200B, 0x200D, 0x200E, 0x202E, 0x2029, 0x2060, 0x212A, 0x212B, 0x3000, 0xFB01, 0xFDD0, 0xFF01, 0xFFF9, 0xFFFC,
                  0x1FFFE, 0x1FFFF, 0x20000, 0x2F800, 0xE0001, 0xE0100, 0xF0000, 0xFFFFD, 0x100000, 0x1F468, 0x1F1E6] + list(range(0x80, 0x100))
    ctx = [("", " <x@y>"), ("N", "M <x@y>"), ("N ", "<x@y>"), ("\"", "\" <x@y>"), ("\"\\", "\" <x@y>"), ("", "@y"), ("a.", "b@y"), ("\"", "\"@y"), ("x@", ""), ("x@a", "b.c"), ("x@[", "]"),
           ("(", ")x@y"), ("(\\", ")x@y"), ("g", ":x@y;"), ("g:", " <x@y>;"), ("<@", ":x@y>"), ("=?utf-8?q?", "?= <x@y>"), ("=?", "?q?a?= <x@y>"), ("a@b:", ""), (".", " <x@y>")]
    fixed = [C(A, pre + chr(u) + post) for u in edge for pre, post in ctx]
    cs += c.some(fixed, 500)
    # what normal forms, joiners and marks would change
    nfd = [u for u in range(0x80, 0x30000) if not 0xD800 <= u <= 0xDFFF and not 0xAC00 <= u <= 0xD7A3 and unicodedata.normalize("NFD", chr(u)) != chr(u)]
    few = lambda xs, n: c.rnd.sample(xs, min(len(xs), n))
    seqs = [unicodedata.normalize("NFD", chr(u)) for u in few(nfd, 120 if c.q else 3000)]
    seqs += [chr(0xAC00 + 28 * c.rnd.randrange(399)) + chr(t) for t in range(0x11A7, 0x11C4)] + [chr(l) + chr(v) + x for l, v, x in few([(l, v, x) for l in range(0x1100, 0x1114) for v in range(0x1161, 0x1177) for x in ("", "\u11a8", "\u11c2")], 40 if c.q else 1200)]
    marks = [u for u in range(0x80, 0x1F000) if unicodedata.combining(chr(u))]
    seqs += [c.rnd.choice(["a", "\u0915", "\u05d0", "q", "\u00e9", "\u1e69", "\u3042"]) + "".join(chr(c.rnd.choice(marks)) for _ in range(c.rnd.randrange(1, 4))) for _ in range(80 if c.q else 2000)]
    seqs += ["e\u0323\u0307", "e\u0307\u0323", "\U0001f468\u200d\U0001f469\u200d\U0001f467", "\u2764\ufe0f", "\U0001f1e9\U0001f1ea", "1\ufe0f\u20e3", "\U0001f44d\U0001f3fd", "\u0e01\u0e33", "\u0f71\u0f72", "\u09c7\u09be", "\u304b\u3099", "\uff76\uff9e", "\u0644\u0627",
             "\u202aab\u202c", "\u2066a\u2069", "\u200ea\u200f", "\ufeffa", "a\ufeff", "\u2028\u2029", "a\u200bb", "\u00ada", "i\u0307", "\u0130\u0131", "\u1e9e\u00df", "\u03a3\u03c2\u03c3", "\u01c4\u01c5\u01c6", "\u00c5\u212b", "\u2126\u03a9", "\u00b5\u03bc"]
    for s in seqs:
        bs, at = list(s.encode()), list((s + "@d" + s).encode())
        cs += c.rnd.sample([C(A, "%s <x@y>" % s, want=[[bs, cps("x@y")]]), C(A, "\"%s\" <x@y>" % s, want=[[bs, cps("x@y")]]), C(A, "%s@d%s" % (s, s), want=[[[], at]]), C(A, "N <\"%s\"@d%s>" % (s, s), want=[[[78], at]]),
                             C(A, "(%s)%s (%s) b <x@y>" % (s, s, s), want=[[bs + [32, 98], cps("x@y")]])], 2)
    # blocks of 64 characters: all of the BMP in the quick tier, all of Unicode in the thorough one
    where = [lambda s: (s + " <x@y>", [cps("x@y")], 0), lambda s: ("\"" + s + "\" <x@y>", [cps("x@y")], 0), lambda s: (s + "@y", None, 1), lambda s: ("x@" + s, None, 2),
             lambda s: ("\"" + s + "\"@y", None, 1), lambda s: ("x@[" + s + "]", None, 3), lambda s: ("(" + s + ")x@y", None, 4)]
    blocks = [b for b in range(0x80, 0x110000, 64) if not 0xD800 <= b <= 0xDFFF]
    if c.q:
        blocks = [b for b in blocks if b < 0x10000 and (b < 0x3100 or b >= 0xF900 or c.rnd.random() < .15)] + c.rnd.sample([b for b in blocks if b >= 0x10000], 100) + [0x10000, 0x1F000, 0x1FFC0, 0xE0000, 0xE0100, 0xEFFC0, 0xF0000, 0xFFFC0, 0x100000, 0x10FFC0]
    for b in blocks:
        s = "".join(chr(u) for u in range(b, min(b + 64, 0x110000)))
        bs = list(s.encode())
        for w in (c.rnd.sample(range(7), 2) if c.q else range(7)):
            t, _, k = where[w](s)
            want = {0: [[bs, cps("x@y")]], 1: [[[], bs + cps("@y")]], 2: [[[], cps("x@") + bs]], 3: [[[], cps("x@[") + bs + cps("]")]], 4: [[[], cps("x@y")]]}[k]
            cs.append(C(A, t, want=want))
    cs += c.write(2 if c.q else 20, dict(list=2, named=6, uni=7, quoted=4, literal=1, groups=1, size=3, gaps=3))
    c.cases("Unicode", cs)
    c.constants("Unicode", list(mined.KIND), only=lambda t: not t.isascii())
    def uni(g):
        g.u = .7
        return g.mailbox()
    return c.hunt("Unicode", uni, 3000, mutate=0)


# ---------------------------------------------------------------- dates

MON = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"]
DOW = ["Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun"]
ZN = ["UT", "UTC", "GMT", "EST", "EDT", "CST", "CDT", "MST", "MDT", "PST", "PDT"]


@prop
def C13(c):
    """Date and time fields."""
    c.numbers("YearLaw", 9999)
    c.numbers("ClockLaw", 1439)
    cs = c.write(3 if c.q else 30, dict(gaps=0, two=0, edge=4), "DateWriter")
    f = []
    for m in MON:
        for y in (1, 4, 100, 400, 1900, 1970, 1999, 2000, 2001, 2023, 2024, 2038, 2100, 9999):
            for d in (1, 2, 9, 10, 27, 28, 29, 30, 31):
                f.append(C(D, "%d %s %04d %02d:%02d:%02d +0000" % (d, m, y, c.rnd.randrange(24), c.rnd.randrange(60), c.rnd.randrange(60))))
    t = [C(D, "5 Jun 2020 %02d:00:00 +0000" % h) for h in range(25)] + [C(D, "5 Jun 2020 %d:07 GMT" % h) for h in range(10)]
    t += [C(D, "5 Jun 2020 13:%02d:59 -0130" % h) for h in range(61)] + [C(D, "5 Jun 2020 23:59:%02d +0200" % h) for h in range(62)]
    t += [C(D, "%02d Jul 2021 00:00:00" % d) for d in range(32)] + [C(D, "%d Jul 2021 00:00" % d) for d in range(1, 10)]
    t += [C(D, s) for s in ("31 Dec 1999 23:59:60 +0000", "30 Jun 2015 23:59:60 -0800", "28 Feb 2021 23:59:60 EST", "29 Feb 2020 23:59:60", "1 Jan 0000 00:00:00 +0000", "31 Dec 9999 23:59:59 +0000",
                            "31 Dec 9999 23:59:59 -2359", "1 Jan 0001 00:00:00 +2359", "19 Jan 2038 03:14:07 +0000", "19 Jan 2038 03:14:08 +0000", "1 Jan 1970 00:00:00 +0000", "31 Dec 1969 23:59:59 +0000",
                            "1 Jan 2006 1:02", "1 Jan 2006 01:02", "1 Jan 2006 01:02:03", "00 Jan 2006 00:00", "32 Jan 2006 00:00", "31 Feb 2006 00:00", "1 Jan 2006 24:00", "1 Jan 2006 23:60", "1 Jan 2006 23:59:61")]
    yr = [C(D, "7 Aug %04d 06:05:04 +0000" % y) for y in range(0, 10000, 1 if not c.q else 37)]
    sec = ["%d %s %04d %02d:%02d:%02d %s" % (c.rnd.randrange(1, 29), c.rnd.choice(MON), c.rnd.choice([c.rnd.randrange(1, 10000), c.rnd.randrange(1900, 2100)]), h, m, c.rnd.randrange(60), c.rnd.choice(["+0000", "-0500", "+0545", "GMT", "PDT", "", "-1130"])) for h in range(24) for m in range(60)]
    days = ["%d %s %04d 12:34:56 %s" % (d, m, y, z) for m in MON for d in range(1, 32) for y, z in ((2023, "+0100"), (2024, "-0330"), (1900, "EST"), (2000, ""))]
    zs = ["%d %s %04d %02d:%02d:%02d %s%02d%02d" % (c.rnd.randrange(1, 29), c.rnd.choice(MON), c.rnd.choice([2, 99, 100, 999, 1000, 1582, 1600, 1752, 1899, 1901, 1941, 1945, 1969, 1970, 1971, 2001, 2037, 2039, 2106, 2262, 2263, 3000, 9998]), c.rnd.choice([0, 11, 12, 13, 23]), c.rnd.choice([0, 29, 59]), c.rnd.choice([0, 1, 59, 60]), s, h, m)
          for s in "+-" for h in range(0, 24) for m in (0, 1, 15, 30, 44, 45, 59)]
    odd = [C(D, "%d %s %d 12:%02d:56 %s" % (d, m, y, c.rnd.randrange(60), c.rnd.choice(["+0000", "-0700", "", "GMT"]))) for y in (1582, 1752, 1700, 4, 1) for m in MON for d in range(1, 32)]   # where calendars differ
    odd += [C(D, "%d %s %s %02d:%02d:%02d %s" % (d, m, c.rnd.choice(["1999", "2005", "2016", "2024", "0099", "9999"]), h, mi, s, c.rnd.choice(["+0000", "-0800", "+1200", "", "GMT"])))      # at the edges
            for d, m in ((31, "Dec"), (30, "Jun"), (1, "Jan"), (28, "Feb"), (29, "Feb"), (31, "Mar"), (1, "Mar")) for h in (0, 12, 23) for mi in (0, 1, 30, 58, 59) for s in (0, 1, 59, 60)]
    cs += c.some(odd, 5000) + c.some(f, 2000) + t + c.some(yr, 600) + [C(D, x) for x in sec + days + zs]
    cs += randoms(c, 1500 if c.q else 5000, lambda g: g.date(), 0, D)
    c.cases("date fields", cs, per=40)
    c.constants("date fields", D)
    return c.hunt("date fields", lambda g: g.date(), 20000, goal=D, mutate=0)


def cases_of(z):
    return ["".join(x) for x in itertools.product(*[(ch.upper(), ch.lower()) for ch in z])]


@prop
def C14(c):
    """Zones."""
    c.numbers("ClockLaw", 1439)
    cs = c.write(2 if c.q else 20, dict(gaps=1, alpha=5, edge=5, nozone=1), "DateWriter")
    f = [C(D, "9 Oct 2011 12:34:56 %s%02d%02d" % (s, h, m)) for s in ("+", "-", "") for h in range(24) for m in (0, 1, 15, 29, 30, 31, 45, 59)]
    f += [C(D, "9 Oct 2011 12:34:56 %s%02d%02d" % (s, h, m)) for s in "+-" for h in (0, 1, 9, 12, 23) for m in range(60)]
    z = [C(D, "9 Oct 2011 12:34%s%s%s" % (sec, gap, zn)) for zn0 in ZN for zn in cases_of(zn0) for sec in ("", ":56") for gap in ("", " ")]
    z += [C(D, "9 Oct 2011 12:34:56%s" % s) for s in ("", " ", "  ", " (c)", " (EST)", " (c) +0100", " +0100 (EST)", " EST (c)", " (c) EST", "\r\n +0100", " Z", " z", " A", " CET", " CEST", " BST", " JST", " AST", " HST", " +01:00", " +1", " +01",
                                                            " +010", " +01000", " -", " +", " --0100", " UTC+1", " GMT+0100", " +0100 EST", " EST EST", " U", " E", " ES", " ESTX", " UTCX", " -0000", " +0000", " 0000", "+0100", "-0100", "0100", " +9999", " -9999", " +2400", " +0060")]
    scripts = pack(cs + c.some(f, 500) + c.some(z, 250), 20)
    # the machine's own zone does not matter
    for tz in ["UTC", "America/New_York", "Asia/Kolkata", "Pacific/Apia", "Australia/Lord_Howe", "Nowhere/At_All"]:
        ops = [dict(e="local", zone=tz, year=c.rnd.randrange(-43200, 43200))]
        ops += [call(D, "9 %s %d 12:34:56 %s" % (m, y, z)) for m, y in (("Jan", 2026), ("Jul", 2026), ("Oct", 1950))
                for z in ("+0000", "-0500", "-0400", "+0530", "+1300", "+1400", "+1030", "+1100", "EST", "EDT", "GMT")]
        ops += [call(D, t) for t in ("9 Oct 2011 12:34:56", "9 Oct 2011 12:34:56 +0000", "9 Oct 2011 12:34:56 EST", "27 Mar 2011 02:30:00", "13 Mar 2011 02:30 EST", "13 Mar 2011 02:30 EDT", "6 Nov 2011 01:30:00 -0400", "30 Dec 2011 12:00", "9 Jul 2011 00:00 GMT", "9 Jul 2011 00:00 UT")]
        scripts.append(dict(ops=ops))
    alloff = [C(D, "%d %s %d 12:34%s%s%s%02d%02d" % (c.rnd.randrange(1, 29), c.rnd.choice(MON), c.rnd.choice([1960, 1999, 2011, 2024]), c.rnd.choice(["", ":56"]), c.rnd.choice([" ", "  ", "\t", "\r\n "]), s, h, m)) for s in ("+", "-", "") for h in range(25) for m in range(60)]
    for h in range(100):
        alloff += [C(D, "9 Oct 2011 12:34:56 %s%02d%02d" % (s, h, m)) for s in "+-" for m in (0, 30, 60, 99)]
    scripts += pack(alloff, 60)
    # without a zone, and with one, in many local zones, at many times of the year
    for off in [3600 * h for h in range(-12, 15)] + [19800, 20700, -12600, 34200, 1, -1, 1234]:
        ops = [dict(e="local", zone="X/%d" % off, year=off)]
        ops += [call(D, "%d %s %d %02d:34%s" % (c.rnd.randrange(1, 29), m, c.rnd.choice([1970, 2011, 2026, 2030]), c.rnd.randrange(24), x)) for m in MON for x in (":56", "", " %s%02d%02d" % ("-" if off < 0 else "+", abs(off) // 3600, abs(off) // 60 % 60), " GMT", " +0000")]
        scripts.append(dict(ops=ops))
    c.go("zones", scripts)
    c.constants("zones", D)
    return c.hunt("zones", lambda g: g.date(), 10000, goal=D, mutate=.1)


@prop
def C15(c):
    """Two-digit years."""
    c.numbers("CenturyLaw", 99)
    cs = c.write(2 if c.q else 20, dict(gaps=1, two=10, edge=2), "DateWriter")
    cs = [dict(x, year=x["year"]) for x in cs]
    scripts = []
    for now in range(2000, 2100):
        n = now % 100
        ys = range(100) if not c.q else sorted(set([0, 1, 49, 50, 51, 68, 69, 70, 99, n, (n + 1) % 100, (n - 1) % 100] + [c.rnd.randrange(100) for _ in range(3)]))
        for edge in (("-07-01T12:00:00Z",) if c.q else ("-01-01T00:00:00Z", "-07-01T12:00:00Z", "-12-31T23:59:58Z")):
            ops = [dict(e="year", date="%04d%s" % (now, edge))]
            ops += [call(D, "%d %s %04d %02d:00 %s" % (c.rnd.randrange(1, 29), c.rnd.choice(MON), y, c.rnd.randrange(24), c.rnd.choice(ZN + ["", "+0000", "-1200"]))) for y in (now - 1, now, now + 1, now - 100, now - 50, c.rnd.randrange(1, 9999), c.rnd.randrange(0, 100))]      # all four digits
            ops += [call(D, c.rnd.choice(["1 Jan %02d 00:00", "9 Feb %02d 01:02:03 +0100", "Mon, 31 Dec %02d 23:59:59 -0800", "29 Feb %02d 12:00 EST"]) % y) for y in ys]
            scripts.append(dict(ops=ops, clock=True))
    # years of the two neighbouring days of New Year, and the clock moving while the process runs
    for now in c.some(range(2000, 2099), 12):
        ops = []
        for date in ("%04d-12-31T23:59:58Z" % now, "%04d-01-01T00:00:01Z" % (now + 1)):
            ops += [dict(e="year", date=date)] + [call(D, "1 Jan %02d 00:00" % (y % 100)) for y in (now - 1, now, now + 1, now + 2)]
        scripts.append(dict(ops=ops, clock=True))
    # the real clock, and the other texts of a year
    scripts += pack([C(D, "1 Jan %s 00:00" % y) for y in ["%02d" % i for i in range(100)] + ["1", "123", "0026", "0099", "00001", "12345"]], 20)
    # going forward through time in one process, by hours, days, months and years
    for k in range(24 if c.q else 200):
        at = datetime.datetime(2026 + (k * 3) % 72, 12, 31, 22, 0, 0)
        ops = []
        for i in range(14):
            at += c.rnd.choice([datetime.timedelta(minutes=7), datetime.timedelta(minutes=31), datetime.timedelta(hours=5), datetime.timedelta(days=20), datetime.timedelta(days=366)])
            if at.year > 2099:
                break
            ops += [dict(e="year", date=at.strftime("%Y-%m-%dT%H:%M:%SZ"))] + [call(D, "%d Jan %02d %02d:00" % (c.rnd.randrange(1, 29), (at.year + y) % 100, c.rnd.randrange(24))) for y in (-1, 0, 1)]
        scripts.append(dict(ops=ops, clock=True))
    for now in range(2026, 2100) if not c.q else c.rnd.sample(range(2026, 2100), 12):      # every two-digit year, in every zone
        scripts.append(dict(ops=[dict(e="year", date="%04d-05-05T05:05:05Z" % now)] + [call(D, "%d %s %02d 00:00 %s" % (c.rnd.randrange(1, 29), c.rnd.choice(MON), y, c.rnd.choice(["", "EST", "+1200", "-1100"]))) for y in range(100)], clock=True))
    c.go("two-digit years", scripts + pack(cs, 12))
    return c.constants("two-digit years", D)


DPIECES = [
    ["", "Mon", "", ",", "", "2", "|", "Jan", "~", "2006", "~", "15", "", ":", "", "04", "", ":", "", "05", "~", "-0700", ""],
    ["", "12", "", "Oct", "~", "1999", "~", "1", "", ":", "", "23", "", "EST", ""],
    ["", "Tue", "", ",", "", "3", "|", "Mar", "~", "2003", "~", "09", "", ":", "", "08", "", ":", "", "07", ""],
    ["", "4", "", "Jul", "", "76", "|", "10", "", ":", "", "11", "", ":", "", "12", "", "utc", ""],
]


@prop
def C16(c):
    """Layout, case and the day of the week do not matter."""
    c.laws("CaseLaw DowLaw CommentLaw SpaceLaw", PD, 4 if c.q else 6, goal=D)
    cs = c.write(3 if c.q else 30, dict(gaps=9, two=0, edge=1), "DateWriter")
    fixed = []
    for p in DPIECES:
        for t in layouts(p, LAYOUT):
            fixed.append(C(D, t.replace("~", " ")))
        gaps = [i for i, x in enumerate(p) if x == "~"]
        for i in gaps:
            for f in LAYOUT:
                q = [" " if x in ("~", "|") else x for x in p]
                q[i] = f
                fixed.append(C(D, "".join(q)))
    want = {}
    for d in DOW:
        for x in cases_of(d):
            fixed.append(C(D, x + ", 2 Jan 2006 15:04:05 -0700"))
    for m in MON:
        for x in cases_of(m):
            fixed.append(C(D, "2 %s 2006 15:04 gmt" % x))
    for n in ([30, 100] if c.q else [30, 100, 300]):
        fixed += [C(D, "2 " + "(" * n + ")" * n + "Jan 2006 15:04"), C(D, "2 Jan 2006 15:04" + " (c)" * n), C(D, "2" + " " * n + "Jan 2006 15:04")]
    for d in DOW:
        for t in ("2 Jan 2006 15:04", "3 Jan 2006 15:04", "31 Feb 2006 01:00"):
            fixed.append(C(D, d + ", " + t))
    # every day of the week with many dates; what comments contain
    for d in DOW:
        for day in range(1, 32):
            fixed.append(C(D, "%s, %d %s %d 15:04:05 %s" % (c.rnd.choice([d, d.upper(), d.lower()]), day, c.rnd.choice(MON), c.rnd.choice([1999, 2000, 2023, 2024]), c.rnd.choice(["+0100", "EST", "", "-0930"]))))
    inner = ["", "1", "2 Jan", "Feb", "2006", "15:04", ":", "EST", "+0100", "PDT", "Tue", "Tue,", "1st", ",", "a(b)c", "\\)", "\r\n ", "\u00e9", "GMT+1", "(EST)", "12 Mar 1999 01:02:03 -0400", "recte Feb", "60", "AM", "PM", "\x01"]
    for i in inner:
        for w in ("(%s) 2 Jan 2006 15:04:05 -0700", "2 (%s) Jan 2006 15:04:05 -0700", "2 Jan 06 (%s) 15:04:05 -0700", "2 Jan 2006 15 (%s):04:05 -0700", "2 Jan 2006 15:04 (%s)", "2 Jan 2006 15:04 (%s):05 GMT", "2 Jan 2006 15:04:05 (%s) GMT", "2 Jan 2006 15:04:05 -0700 (%s)", "2 Jan 2006 15:04:05 -0700(%s)",
                  "2 Jan 2006 15:04:05 (%s)", "2 Jan 2006 15:04:05GMT(%s)", "Mon (%s), 2 Jan 2006 15:04:05 -0700", "(%s) Mon, 2 Jan 2006 15:04:05", "Mon, (%s) 2 Jan 2006 15:04", "2(%s)Jan 2006 15:04", "2 Jan(%s)06(%s)15(%s):(%s)04 -0700 (%s)"):
            fixed.append(C(D, w.replace("%s", i)))
    for x in itertools.product(LAYOUT, LAYOUT):
        fixed.append(C(D, "2%sJan 2006 15:04:05%s+0100" % x))
        fixed.append(C(D, "Mon,%s2 Jan 06%s15:04 est" % x))
    c.cases("date layout", cs + c.some(fixed, 2600), per=40)
    c.constants("date layout", D)
    return c.hunt("date layout", lambda g: g.date(), 12000, goal=D, mutate=0)


@prop
def C17(c):
    """Exactly the date-times of the grammar are accepted."""
    c.laws("FirstDerivation EndLaw Balance", PD, 3 if c.q else 5, goal=D)
    c.go("date language", c.cover([(D, "", "", 1, 60)], .45 if c.q else 1))
    if not c.q:
        c.go("date language", c.cover([(D, "", "1 :,JanutceMo+-(\r\n", 2, 60)]))
    cs = randoms(c, 1500 if c.q else 8000, lambda g: g.date(), .8, D, damage="0123456789 :,+-()\t\r\nJanMonUTGZ\u00e9\x00")
    for t in ("Mon, 2 Jan 2006 15:04:05 -0700", "12 Oct 99 1:23 EST"):
        fx = [C(D, t[:i] + ch + t[i:]) for i in range(len(t) + 1) for ch in "0 :,+-(aZ\r\n\t\u00e9"] + [C(D, t[:i] + t[i + 1:]) for i in range(len(t))] + [C(D, t[:i]) for i in range(len(t))]
        fx += [C(D, t[:i] + ch + t[i + 1:]) for i in range(len(t)) for ch in "9 :,)x"]
        cs += c.some(fx, 250)
    cs += [C(D, x) for x in ("", " ", "\r\n", "0", "Mon", "Mon,", "2 Jan 2006", "2 Jan 2006 15", "2 Jan 2006 15:04:", "15:04", "2006-01-02T15:04:05Z", "02/01/2006 15:04", "Jan 2 2006 15:04", "2 January 2006 15:04", "2 Sept 2006 15:04", "Monday, 2 Jan 2006 15:04",
                              "2 Jan 6 15:04", "2 Jan 206 15:04", "2 Jan 20006 15:04", "222 Jan 2006 15:04", "2 Jan 2006 115:04", "2 Jan 2006 15:4", "2 Jan 2006 15:04:5", "2 Jan 2006 15.04", "2 Jan 2006 3:04 PM", "2 Jan 2006 15:04:05.123", "2 Jan 2006 15:04:05,5",
                              *["%s %s 2006 15:04%s" % (d, m, z) for d in ("2", "Mon, 2") for m in ("January", "February", "March", "April", "June", "July", "August", "September", "Sept", "October", "November", "December", "Janu", "Ja", "J", "01", "Jan.", "Mai", "Okt", "XII") for z in ("", " GMT", ":05 +0100")],
                              *["%s, 2 Jan 2006 15:04 +0100" % d for d in ("Monday", "Tuesday", "Mo", "Tues", "Thur", "Wednes", "Mon.", "M", "Mit", "1", "Mon, Tue")],
                              *["2 Jan 2006 15:04%s +0100" % x for x in (".5", ":05.1", ":05.123", ":05.123456789", ":05,123", ":5", ":055", ":", "::05", ":05:06", " PM", "PM", "pm", "h", "Z", "T", ".05", ":05 AM")],
                              *["2 Jan 2006 15:04:05 %s" % x for x in ("Z", "z", "UTC+1", "+1", "+01", "+010", "+01000", "+01:00", "+01.00", "GMT+0100", "+-0100", "++0100", "- 0100", "CET", "A", "M", "Local", "EST5EDT", "E", "+0100 +0100", "+0100 EST", "EST +0100", "UTCC", "\u22120100", "+01\u00a000", "+o1oo")],
                              *["2%sJan%s2006%s15:04%s+0100" % x for x in (("-", "-", " ", " "), ("/", "/", " ", " "), (".", ".", " ", " "), (" ", ", ", " ", " "), (", ", " ", " ", " "), ("th ", " ", " ", " "), (" ", " ", "T", " "), (" ", " ", " at ", " "), ("_", "_", "_", "_"), ("\n", " ", " ", " "), ("\r\n", " ", " ", " "), (" ", " ", ", ", " "), (" ", " ", " ", ", "), (" ", "\u00a0", " ", " "))],
                              *[x + "2 Jan 2006 15:04:05 +0100" + y for x, y in (("\ufeff", ""), ("", "\n"), ("", "\r\n"), ("", "\x00"), ("\x00", ""), ("\n", ""), ("\r\n", ""), ("", "\r"), ("", "."), ("", ","), ("", ";"), ("\"", "\""), ("<", ">"), ("", "\r\n "), ("\t", "\t"), ("", "\u00a0"), ("Date: ", ""), ("", " x"), ("", "0"), ("+", ""), ("-", ""), ("0", ""), (",", ""), ("", " ("), ("", " )"), ("", " ()"), ("(", ""))],
                              "2-Jan-2006 15:04", "Mon 2 Jan 2006 15:04", "Mon,2Jan2006 15:04", "\u0662 Jan 2006 15:04", "2 Jan 2006 15:04 \u22120100")]
    # what is written elsewhere
    for fmt in ("%a %b %e %H:%M:%S %Y", "%a %b %e %H:%M:%S UTC %Y", "%a %b %e %H:%M:%S +0100 %Y", "%a %b %d %H:%M:%S %Y", "%e %b %y %H:%M GMT", "%d %b %y %H:%M +0100", "%A, %d-%b-%y %H:%M:%S GMT", "%a, %d-%b-%Y %H:%M:%S GMT", "%a, %d %b %Y %H:%M:%S GMT", "%a, %d %b %Y %H:%M:%S Z",
                "%Y-%m-%dT%H:%M:%SZ", "%Y-%m-%dT%H:%M:%S+01:00", "%Y-%m-%dT%H:%M:%S.123456789Z", "%Y-%m-%d %H:%M:%S", "%Y-%m-%d %H:%M:%S +0100", "%Y-%m-%d %H:%M:%S +0100 CET", "%Y-%m-%d", "%H:%M:%S", "%I:%M%p", "%b %e %H:%M:%S", "%b %e %H:%M:%S.000", "%d/%b/%Y:%H:%M:%S +0100", "%d %b %Y",
                "%B %d, %Y", "%d %B %Y %H:%M:%S", "%d %b %Y %I:%M:%S %p", "%d %b %Y %I:%M %p +0100", "%s", "%Y%m%dT%H%M%SZ", "%Y%m%d%H%M%S", "%m/%d/%Y %H:%M", "%d.%m.%Y %H:%M", "%Y/%m/%d %H:%M:%S", "%a, %d %b %Y %H.%M.%S +0100", "%d %b %Y %H:%M:%S,123", "%d %b '%y %H:%M", "%Y %b %d %H:%M:%S",
                "%a, %b %d %Y %H:%M:%S", "%d%b%Y %H:%M", "%d %b %Y %H%M", "%a, %d %b %Y %H:%M:%S GMT+01:00", "%a, %d %b %Y %H:%M:%S +01:00", "%a, %d %b %Y %H:%M:%S +01", "%a, %d %b %Y %H:%M:%S CEST", "%a, %d %b %Y %H:%M:%S +0100 (CET)", "%a, %d %b %Y %H:%M:%S UTC+0100", "%a, %d %b %Y %H:%M:%S Europe/Paris",
                "%a %d %b %Y %H:%M:%S %z", "%a, %d %b, %Y %H:%M", "%a, %dth %b %Y %H:%M", "%G-W%V-%u", "%Y-%jT%H:%M", "@%s", "%s +0000"):
        for w in (datetime.datetime(2006, 1, 2, 15, 4, 5), datetime.datetime(1999, 12, 31, 3, 59, 9), datetime.datetime(2023, 10, 12, 10, 20, 30)):
            cs.append(C(D, w.strftime(fmt)))
    for t in ("Mon, 2 Jan 2006 15:04:05 -0700", "12 Oct 99 1:23 EST", "3 (c) Mar 2003 4:05:06 \r\n +0100"):
        cs += [C(D, t[:i] + t[i] + t[i:]) for i in range(len(t))] + [C(D, t[:i] + t[i + 1] + t[i] + t[i + 2:]) for i in range(len(t) - 1)] + [C(D, t[i:]) for i in range(len(t))]
        cs += [C(D, t[:i] + x + t[i:]) for i in range(len(t) + 1) for x in (" ", "(c)", "\r\n ", ".", "/", "T", "Z", "1")]
    c.cases("date language", cs, per=40)
    c.constants("date language", D)
    return c.hunt("date language", lambda g: g.date(), 20000, goal=D, mutate=.6, damage=list("0123456789 :,+-()\t\r\n.") + MON + ZN)


# ---------------------------------------------------------------- the whole

@prop
def C18(c):
    """Every input is answered, with a value or an error, and nothing else happens."""
    g = Gen(c.rnd)
    raws, texts = [], []

    def raw(goal, b):
        raws.append(dict(e="robust", goal=goal, text=[], raw=base64.b64encode(b).decode()))
    for goal in (A, D):
        for b in range(256):
            raw(goal, bytes([b]))
            raw(goal, b"a" + bytes([b]) + b"@b" if goal == A else b"1 Jan 2006 0" + bytes([b]) + b":00")
        for b in (b"\xff\xfe", b"\xc3", b"\xe2\x82", b"\xf0\x9f\x98", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xc0\x80", b"a@\xff", b"\"\xff\"@b", b"(\xff)a@b", b"=?utf-8?q?\xff?= <a@b>", b"N\xe9 <a@b>", b"\x00", b"\xef\xbb\xbfa@b", b"=?utf-8?q?=ff?= <\xff@\xfe>"):
            raw(goal, b)
        for _ in range(150 if c.q else 4000):
            n = c.rnd.choice([1, 2, 3, 5, 8, 13, 30])
            raw(goal, bytes(c.rnd.choice([c.rnd.randrange(256), c.rnd.choice(b" ()<>@,;:\\\".[]=?\r\n\ta1")]) for _ in range(n)))
            s = (g.alist(1, 2) if goal == A else g.date()).encode("utf-8", "replace")
            i = c.rnd.randrange(len(s) + 1) if s else 0
            raw(goal, s[:i] + bytes([c.rnd.randrange(128, 256)]) + s[i:])
            raw(goal, s[:i])
    structural = "()<>@,;:\\\".[]=?\r\n\t a1"
    for n in (1, 2):
        for t in itertools.product(structural, repeat=n):
            texts += [C(A, "".join(t)), C(D, "".join(t))]
    for t in c.some(itertools.product(structural, repeat=3), 350):
        texts.append(C(A, "".join(t)))
    big = [1, 10, 60] if c.q else [1, 10, 60, 150, 300]
    texts += [C(A, "(" * n + ")" * n + "a@b") for n in (100, 130, 200, 260)] + [C(D, "(" * n + ")" * n + "1 Jan 2006 00:00") for n in (100, 130, 200, 260)]
    for n in big:
        for unit in ("(", ")", "<", ">", "\"", "[", "]", "\\", ",", ";", ":", "@", ".", " ", "\r\n ", "\r", "a", "=?", "?=", "()", "<>", "\"\"", "[]", "a,", "a:", "a;", "a@", "g:", "=?a?q?a?=", "\\\"", "(\\", "\u00e9", "\x00", "@a,", "a.", "1 ", "+", "Mon,"):
            if n <= 60 or unit not in ("a:", "g:", "\"\"", "=?a?q?a?=", "=?", "?=", "a;"):
                texts += [C(A, unit * n), C(D, unit * n)]
                if n <= 10:
                    texts += [C(A, unit * n + "a@b"), C(A, "a@b" + unit * n), C(D, "1 Jan 2006 00:00" + unit * n)]
    texts += [C(A, "(" * n + ")" * n + "a@b") for n in big] + [C(A, "(" * n + "a@b") for n in big] + [C(D, "(" * n + ")" * n + "1 Jan 2006 00:00") for n in big]
    texts += [C(A, t) for t in ("<>", "N <>", ":", ":;", "g:", "g:;", ";", ",", ",,", "@", "<@>", "<@:>", "<:>", "a@b:", "a@b:;", "\"", "\"\"", "\"\\", "(", "()", "(\\", "[", "a@[", "=", "=?", "=?=", "=?a?", "=?a?q?", "=?a?q?a", "=?a?q?a?", "=?a?q?a?=", "\\", "\r", "\n", "\r\n", "\r\n\r\n")]
    texts += [C(D, t) for t in (":", "::", ",", "Mon", "Mon,", "1", "99", "1 Jan", "99 Jan 9999 99:99:99 +9999", "99 Jan 99 99:99:99 -9999", "00 Jan 0000 00:00:00 -0000", "+", "-0000")]
    texts += randoms(c, 80 if c.q else 2000, lambda g: g.alist(1, 2), 1)
    # valid, but odd
    parts = ["", "a", ".", "..", "\"\"", "\" \"", "\"\\\"\"", "[]", "[ ]", "(", "()", "<>", "=??=", "=?utf-8?q??=", "=?utf-8?b??=", "=?utf-8?b?=?=", "=?a*?q?b?=", "=?*?q?b?=", "=?a*b*c?q?d?=", "=?-?b?%?=", "@", ":", ";", ",", "\\", "\x00", "\u00e9"]
    for l, d in itertools.product(parts, parts):
        texts += [C(A, l + "@" + d, few=1), C(A, "<" + l + "@" + d + ">", few=1), C(A, l + " <" + d + "@b>", few=1), C(A, l + ":" + d + ";", few=1), C(A, l + "." + d + "@b", few=1), C(A, "<@" + l + ":a@" + d + ">", few=1), C(A, l + " " + d + " <>", few=1)]
    few, texts = [x for x in texts if "few" in x], [x for x in texts if "few" not in x]
    few = c.some(few, 1800)
    t1 = few + c.some([x for x in texts if len(x["text"]) < 40], 1200)
    t2 = [x for x in texts if len(x["text"]) >= 40]
    scripts = [dict(ops=raws[i:i + 30]) for i in range(0, len(raws), 30)] + pack(t1, 20) + pack(t2, 1)
    res = c.go("totality", scripts)
    res = res + c.constants("totality", list(mined.KIND), most=1200) + c.constants("totality", D)
    c.hunt("totality", lambda g: g.alist(1, 2), 4000, mutate=.6)
    c.hunt("totality", lambda g: g.date(), 8000, goal=D, mutate=.4)
    c.run.extra["scripts with output on stdout or stderr"] = c.run.noise
    for s in res:
        if s.get("noise"):
            c.run.violation("totality: the library wrote to stdout or stderr", dict(s["ops"][-1], noise=s["noise"]), "no output", s["ops"])
    return res


@prop
def C19(c):
    """Results depend on nothing but the call."""
    c.model("MCSystem")
    sch = c.schedules(POOL, 4 if c.q else 30, ids=10, burst=1, maxlog=18, extras=True)
    g = Gen(c.rnd)
    # the same calls in different orders, after different pasts, many times over, in different processes
    base = [(A, g.alist(1, 2)) for _ in range(12)] + [(D, g.date()) for _ in range(12)] + POOL
    near = []      # texts that are nearly the same
    for t in ("Ann <a@b>", "\"Ann\" <a@b>", "ann <a@b>", "Ann <A@b>", "Ann <a@b> ", " Ann <a@b>", "Ann<a@b>", "Ann <a@b>,", "Ann (x) <a@b>", "Ann <a@b>\x00", "Ann\u00a0<a@b>", "Ann <a@b", "=?utf-8?q?Ann?= <a@b>", "=?UTF-8?Q?Ann?= <a@b>", "=?utf-8?q?ann?= <a@b>"):
        near.append((A, t))
    for t in ("1 Jan 2006 01:02", "1 Jan 2006 01:02 ", "1 Jan 2006 01:02:00", "1 Jan 2006 01:02 GMT", "1 Jan 2006 01:02 EST", "1 JAN 2006 01:02", "01 Jan 2006 01:02", "1 Jan 2006 1:02", "1 Jan 2006 01:02 -0500", "1 Jan 2006 01:02 +0500", "1 Jan 2006 01:02 est"):
        near += [(D, t), (A, t)]
    near += [(D, "Ann <a@b>"), (D, "a@b"), (A, "a@b"), (A, ""), (D, "")]
    scripts, first = sch[:70] if c.q else sch, []
    # families of texts that differ in one place only, with long common parts before and after it
    for k in range(60 if c.q else 600):
        goal = A if k % 3 == 0 else D
        n = c.rnd.choice([0, 0, 30, 60, 120])
        t = c.rnd.choice(["Ann <ab@cd>", "=?utf-8?b?YWJj?= <a@b>", "ab@cd", "\"Ann\" <a@b>, c@d"]) if goal == A else c.rnd.choice(["1 Jan 2006 01:02:03 +0100", "12 Mar 1999 11:12 EST", "Tue, 3 Oct 2023 04:05:06 -0730"])
        pad = "(" + "".join(c.rnd.choice("abcdefgh ") for _ in range(n)) + ")" if n else ""
        where = c.rnd.randrange(3)
        fam = set([t])
        for _ in range(7):
            i = c.rnd.randrange(len(t))
            x = t[i]
            fam.add(t[:i] + (x.swapcase() if x.isalpha() and c.rnd.random() < .6 else c.rnd.choice("0123456789") if x.isdigit() else c.rnd.choice("AeZ(), \"")) + t[i + 1:])
        fam = sorted(fam)
        c.rnd.shuffle(fam)
        scripts.append(dict(ops=[call(goal, pad + x if where == 0 else x + pad if where == 1 else pad + x + pad) for x in fam + fam[:3]]))
    # a text after its own beginnings, ends and continuations
    whole = [(A, t) for t in ("Ann Bee <ab@cd.ef>, \"q\"@[1]", "g: a@b, N <c@d>;, e@f", "=?utf-8?q?ab?= =?utf-8?q?c?= <a@b>")] + [(D, t) for t in ("Tue, 3 Oct 2023 04:05:06 -0730", "12 Mar 1999 11:12 EST", "1 Jan 06 01:02:03")]
    whole += [(A, g.alist(1, 2)) for _ in range(4 if c.q else 60)] + [(D, g.date()) for _ in range(4 if c.q else 60)]
    for goal, t in whole:
        ops = []
        for i in sorted(c.rnd.sample(range(1, len(t)), min(len(t) - 1, 8))) + [len(t) - 1]:
            part = [[t[:i], t], [t, t[:i], t], [t[i:], t], [t[:i], t[i:], t], [t[:i], t[:i], t], [t[:i] + "\x00" + t[i:], t]][c.rnd.randrange(6) if i < len(t) - 1 else 0]
            ops += [call(goal, x) for x in part]
        ops += [call(goal, x) for y in (" ", "x", ",", ")", "(", "\x00", " <", "0", "\r\n") for x in (t + y, t)]
        scripts.append(dict(ops=ops))
    for k in range(24 if c.q else 150):
        xs = near + c.rnd.sample(base, 8)
        c.rnd.shuffle(xs)
        ops = []
        for i, (goal, t) in enumerate(xs):
            if i % 9 == 8:
                ops.append(dict(e="reader", reader=c.rnd.choice(["none", "base", "alt", "any"])))
            ops.append(call(goal, t))
        scripts.append(dict(ops=ops))
    for t in ([(A, "a@b"), (A, "a@"), (D, "1 Jan 2006 01:02"), (D, "x")] if c.q else base):   # many times
        scripts.append(dict(ops=[call(*t) for _ in range(300)]))
    # thousands of times
    known, new = c.run.mine()
    top = max([3000] + [x + 8 for x in new["ints"] if x < (20000 if c.q else 100000)])
    for t, k in (((A, "a@b"), 1), ((A, "g:N <a@b>,c@d;"), 2), ((D, "1 Jan 2006 01:02"), .5), ((A, "=?utf-8?q?w?= <a@b>"), 2), ((A, "\"q\" <a@b>"), 2), ((D, "2 Feb 99 01:02:03 EST"), .5), ((A, "a@"), 1)):
        scripts.insert(0, dict(ops=[call(D, "1 Jan 2006 01:02"), dict(e="many", goal=t[0], text=cps(t[1]), times=int(top / k)), call(A, "z@y"), call(*t), call(D, "3 Mar 2003 03:03")]))
    first.extend(scripts[:7])
    del scripts[:7]
    # long common beginnings and ends
    for goal, x, ys in ((A, "(%s) ", ["a@b", "a@c", "A <a@b>", "a@b,"]), (A, "\"%s\" ", ["<a@b>", "<a@c>", "A <a@b>"]), (A, "%s@", ["b", "c", "b.c", "b "]), (D, "(%s) ", ["1 Jan 2006 01:02", "1 Jan 2006 01:03", "2 Jan 2006 01:02", "1 Jan 2006 01:02 EST", "1 Jan 06 01:02"])):
        for n in (60, 130, 260, 520, 1030):
            y = [x % ("p" * n) + z for z in ys] + [z + " (%s)" % ("p" * n) for z in ys if goal == D or "<" in z or "(" in x]
            c.rnd.shuffle(y)
            scripts.append(dict(ops=[call(goal, t) for t in y + y[:3]]))
    # groups and lists of falling and rising size
    for k in range(12):
        ops = []
        for _ in range(12):
            n = c.rnd.randrange(0, 9)
            ms = ",".join("%sm%d@b%s" % (("N%d <" % i, i, ">") if c.rnd.random() < .3 else ("", i, "")) for i in range(n))
            ops.append(call(A, c.rnd.choice(["g:%s;", "g:,%s;", "%s", "g:%s;,h:%s;", "\"q\" <a@b>,%s", "a@b,%s (", "g:%s", "J. <x@y>,%s"]).replace("%s", ms)))
        scripts.append(dict(ops=ops))
    # many different texts, then the first ones again
    seq = [(A, "u%d@v%d" % (i, i)) for i in range(300)] + [(D, "%d Jan %04d 01:02" % (i % 28 + 1, 1900 + i)) for i in range(200)]
    scripts.append(dict(ops=[call(*t) for t in seq + seq[:60] + seq[300:360]]))
    # many different values of one part, then values that are nearly the same
    zs = ["+0000", "-0000", "0000", "GMT", "gmt", "UT", "UTC", "utc", "EST", "est", "-0500", "CDT", "0500", "+0500", "EDT", "-0400", "cst", "-0600", "MDT", "Gmt"]
    parts = [(D, "2 Jan 2006 15:04:05 %s", ["%s%02d%02d" % (c.rnd.choice(["+", "-", ""]), i % 14, i % 60) for i in range(120)], zs), (D, "2 Jan %s 15:04:05 GMT", ["%04d" % i for i in range(1900, 2000)], ["1999", "2099", "99", "0099", "1900", "00", "2000", "50"]),
             (D, "%s 2006 15:04:05", ["%d %s" % (d, m) for d in range(1, 29) for m in MON[:6]], ["1 Jan", "01 Jan", "1 JAN", "1 Jun", "1 Jul", "11 Jan", "1 jan"]),
             (A, "%s <a@b>", ["Nm%d" % i for i in range(150)], ["Nm1", "nm1", "\"Nm1\"", "\"nm1 \"", "Nm1 ", "NM1", "=?utf-8?q?Nm1?=", "N m1", "Nm11", "Nm.1", "\"Nm\\1\""]), (A, "l%s@b", ["%d" % i for i in range(150)], ["", "1", "l1", "\u00e91", "L1", "01", "1.1"]),
             (A, "a@d%s", ["%d" % i for i in range(150)], ["", "1", "D1", ".1", "1:25", "01", "1.", "(1)"]), (A, "\"q%s\" <a@b>", ["%d" % i for i in range(150)], ["", "1", "\\1", " 1", "1 ", "\\\"1", "\t1", "\r\n 1"]), (A, "g%s:a@b;", ["%d" % i for i in range(90)], ["1", "2", "", " 1"]),
             (A, "=?utf-8?q?w%s?= <a@b>", ["%d" % i for i in range(150)], ["1", "=31", "=311", "_1", "1?= =?utf-8?q?1", "1?= 1", "1=", "=3"]), (A, "=?x-up%s?q?w?= <a@b>", ["%d" % i for i in range(90)], ["", "1", "*en", "-1", "11"]), (A, "=?%s?q?w?= <a@b>", ["x-c%d" % i for i in range(90)], ["x-up", "X-UP", "utf-8", "x-rev", "us-ascii", "x-tag", "x-nest", "iso-8859-1"])]
    for goal, t, vs, ws in parts:
        ws, vs = ws * 3, c.rnd.sample(vs, len(vs))
        for rd in ("base",) if "=?" not in t else ("none", "base", "any"):
            c.rnd.shuffle(ws)
            ops = [dict(e="reader", reader=rd)] + [call(goal, t % x) for x in c.rnd.sample(ws, 4) + vs + ws + vs[:5]]
            scripts.append(dict(ops=ops))
    c.go("history", first, limit=700)
    c.go("history", scripts)
    # in another environment
    ops = [call(*t) for t in near + base]
    c.rnd.shuffle(ops)
    odd = [dict(ops=[dict(o) for o in ops[i:i + 15]]) for i in range(0, len(ops), 15)]
    for e in (["TZ=Asia/Kolkata", "LANG=tr_TR.UTF-8", "LC_ALL=tr_TR.UTF-8", "HOME=/nonexistent", "USER=nobody"], ["TZ=Nowhere", "LANG=C", "LC_ALL=C", "LC_TIME=de_DE", "PATH=", "DEBUG=1", "VERBOSE=1", "CI=true", "GODEBUG=randautoseed=0"]):
        e = e + [w + "=1" for w in new["strs"] if len(w) >= 3 and w.replace("_", "").isalnum() and w.upper() == w and w.isascii()]
        c.go("another environment", [dict(ops=[dict(o) for o in s["ops"]]) for s in odd], environ=e, maxprocs=c.rnd.choice([1, 4, 16]))
    # at other times
    for k in range(16 if c.q else 100):
        ops = []
        for at in c.rnd.sample(["2027-01-01T00:00:00Z", "2028-02-29T12:00:00Z", "2031-12-31T23:59:59Z", "2038-01-19T03:14:08Z", "2050-06-15T06:07:08Z", "2099-12-31T00:00:00Z", "2026-12-25T18:00:00Z", "2033-07-04T04:04:04Z", "2040-10-28T01:30:00Z", "2077-04-01T00:00:00Z", "2030-01-01T00:00:00Z"], 3):
            ops += [dict(e="year", date=at)] if not ops or at > ops[0]["date"] else []
            ops += [call(*t) for t in c.rnd.sample(base, 5)] + [call(D, "%d %s %04d %02d:%02d:%02d %s" % (c.rnd.randrange(1, 29), c.rnd.choice(MON), c.rnd.randrange(1900, 2100), c.rnd.randrange(24), c.rnd.randrange(60), c.rnd.randrange(60), c.rnd.choice(ZN + ["", "+0100", "-0830"]))) for _ in range(4)]
        scripts = [dict(ops=ops, clock=True)] if k == 0 else scripts + [dict(ops=ops, clock=True)]
    return c.go("at other times", scripts)


@prop
def C20(c):
    """Concurrent calls do not affect each other."""
    c.model("MCSystem")
    sch = c.schedules(POOL, 2 if c.q else 15, ids=16, burst=8, maxlog=8)
    g = Gen(c.rnd)
    scripts = sch[:40] if c.q else sch
    for k in range(10 if c.q else 60):
        calls, n = [], 16
        if k % 3 == 0:      # the same call, at the same time
            t = c.rnd.choice([x for x in POOL if x[1]])
            calls = [t] * n
        elif k % 3 == 1:    # dates
            calls = [(D, g.date()) for _ in range(n)]
        else:
            calls = [c.rnd.choice(POOL) if c.rnd.random() < .3 else (A, g.alist(1, 2)) if c.rnd.random() < .3 else (A, "N%d =?utf-8?q?w%d?= <l%d@d%d>, (c%d) \"q%d\"@z" % ((i,) * 6)) for i in range(n)]
        rd = c.rnd.choice(["none", "base", "alt", "any"])
        ops = [dict(e="reader", reader=rd), dict(e="par", calls=[dict(e="call", id=i + 1, goal=a, text=cps(t)) for i, (a, t) in enumerate(calls)])]
        ops += [dict(e="look", id=i + 1) for i in range(n)]
        scripts.append(dict(ops=ops))
    for s in sch:
        s["ops"] = [o for o in s["ops"] if o["e"] != "local"]
    # many goroutines, each making many short calls
    for k in range(2 if c.q else 10):
        calls = [(D, "%d %s %04d %02d:%02d:%02d %s" % (i % 28 + 1, MON[i % 12], 1900 + i, i % 24, i % 60, (7 * i) % 60, ZN[i % 11])) if i % 2 else (A, "u%d@v%d" % (i, i)) for i in range(120)]
        scripts.append(dict(ops=[dict(e="par", calls=[dict(e="call", id=i + 1, goal=a, text=cps(t)) for i, (a, t) in enumerate(calls)])]))
    # the same part of long texts, that is different in each of them
    for part in ("%s@d", "a@%s", "%s <a@b>", "\"%s\" <a@b>", "\"%s\"@b", "a@[%s]", "=?utf-8?q?%s?= <a@b>", "=?utf-8?b?%s?= <a@b>", "=?x-up?q?%s?= <a@b>", "(%s) a@b", "%s:a@b,c@d;", "a@b:%s", "<@%s:a@b>", "x@y,a@%s,z@w", "a.b@c , %s . x@y", "a@ %s . com"):
        calls = []
        for i in range(24):
            n = 8 * c.rnd.randrange(1, 9)
            w = "".join(c.rnd.choice("0123456789" if ":%" in part else "abcdefgh") for _ in range(n))
            calls.append((A, part % (base64.b64encode(w.encode()).decode().rstrip("=") if "?b?" in part else w)))
        scripts.append(dict(ops=[dict(e="reader", reader="base"), dict(e="par", calls=[dict(e="call", id=i + 1, goal=a, text=cps(t)) for i, (a, t) in enumerate(calls)])]))
    half = len(scripts) // 2
    c.rnd.shuffle(scripts)
    c.go("concurrency", scripts[:half], procs=3, maxprocs=8)
    return c.go("concurrency, race detector", scripts[half:], procs=3, maxprocs=8, race=True, limit=300, budget=90 if c.q else 600)


@prop
def C21(c):
    """Results belong to their callers."""
    c.model("MCSystem")
    sch = c.schedules(POOL[:16], 4 if c.q else 30, ids=6, burst=2, maxlog=14)
    scripts = sch[:100] if c.q else sch
    lists = ["a@b", "N <a@b>", "a@b,c@d", "g:a@b,c@d;,e@f", "X <x@y>,g:;,=?utf-8?q?z?= <z@w>", "g:;", "", "<>", "a@b,c@d,e@f,g@h,i@j", "a@b,,c@d,", "\"q\" <\"r\"@[s]>",
             "a@b,a@b", "N <a@b>, N <a@b>", "g:a@b,a@b;", "g:N <a@b>,a@b,N <a@b>;,a@b", "g:a@b;,g:a@b;", "a@b,c@d,a@b;c@d", "g:,a@b,a@b;", "<a@b>,a@b", "(c),a@b", "g:a@b,c@d,e@f,g@h;,i@j", "a@b,g:;,a@b", ",", "g:,;", "x@y,<>,x@y", "N <>, N <>"]
    g = Gen(c.rnd)
    lists += [g.alist(1, 3) for _ in range(6 if c.q else 60)]
    eq = lambda k: c.rnd.choice([",".join(["N <a@b>"] * k), "g:%s;" % ",".join(["a@b"] * min(k, 40)), ",".join("a%d@b" % (i % 3) for i in range(k)), ",".join(["g:a@b;"] * min(k, 40)), ",".join("a%d@b" % i for i in range(k))])
    lists += [eq(c.rnd.randrange(3, 70)) for _ in range(10 if c.q else 60)]
    for t in lists:
        for how in ("fields", "swap", "append"):
            other = c.rnd.choice(lists)
            ops = [dict(e="call", id=1, goal=A, text=cps(t)), dict(e="call", id=2, goal=A, text=cps(t)), dict(e="call", id=3, goal=A, text=cps(other)),
                   dict(e="write", id=1, how=how), dict(e="look", id=2), dict(e="look", id=3),
                   dict(e="call", id=4, goal=A, text=cps(t)), dict(e="look", id=1), dict(e="write", id=4, how="append"), dict(e="look", id=2),
                   dict(e="write", id=2, how="fields"), dict(e="call", id=5, goal=A, text=cps(t)), dict(e="gc"), dict(e="look", id=5), dict(e="look", id=3), dict(e="look", id=1)]
            scripts.append(dict(ops=ops))
    # all results of a list appended to, then all looked at
    for t in lists:
        ops = [dict(e="call", id=i + 1, goal=A, text=cps(t)) for i in range(4)]
        ops += [dict(e="write", id=i + 1, how="append") for i in range(3)] + [dict(e="look", id=i + 1) for i in range(4)]
        scripts.append(dict(ops=ops))
    # results, also dates, kept while many others are made
    known, new = c.run.mine()
    top = max([1200] + [x + 8 for x in new["ints"] if x < (5000 if c.q else 100000)])
    dates = ["1 Jan 2006 01:02:03 +0100", "2 Feb 99 01:02 EST", "3 Mar 2003 03:03", "Tue, 3 Oct 2023 04:05:06 -0730"]
    for k in range(6 if c.q else 30):
        pick = [(A, t) for t in c.rnd.sample(lists, 12)] + [(D, t) for t in dates]
        ops = [dict(e="call", id=i + 1, goal=a, text=cps(t)) for i, (a, t) in enumerate(pick)]
        ops += [call(A, "u%d@v%d, N%d <w@x%d>" % ((i,) * 4)) for i in range(30)] + [call(D, "%d Jun 2010 %02d:00:00 %s%02d00" % (i + 1, i, c.rnd.choice("+-"), i)) for i in range(12)] + [dict(e="gc")]
        if k < 4:
            ops += [dict(e="many", goal=A, text=cps("u@v"), times=top), dict(e="many", goal=A, text=cps("g:u@v,N <w@x>;,y@z"), times=top // 3)] if k % 2 else [dict(e="many", goal=A, text=cps("=?utf-8?q?w?= <u@v>"), times=top // 2), dict(e="many", goal=D, text=cps("4 Apr 2004 04:04 -0400"), times=top // 2)]
        ops += [dict(e="look", id=i + 1) for i in range(len(pick))]
        ops += [dict(e="call", id=100 + i, goal=a, text=cps(t)) for i, (a, t) in enumerate(pick[::-1])] + [dict(e="look", id=i + 1) for i in range(len(pick))]
        scripts.append(dict(ops=ops))
    # results made at the same time, then changed
    for k in range(6 if c.q else 40):
        t = c.rnd.choice(lists)
        pick = [t if c.rnd.random() < .5 else c.rnd.choice(lists) for _ in range(8)]
        ops = [dict(e="par", calls=[dict(e="call", id=i + 1, goal=A, text=cps(x)) for i, x in enumerate(pick)])]
        for i in range(8):
            ops += [dict(e="write", id=i + 1, how=c.rnd.choice(["fields", "swap", "append"]))] + [dict(e="look", id=j + 1) for j in range(8) if j != i and c.rnd.random() < .5]
        scripts.append(dict(ops=ops))
    for s in scripts:
        s["names"] = True
    return c.go("ownership", scripts)


@prop
def C22(c):
    """What Go's standard library writes is read back."""
    ps = ["a", " ", "\"", "\\", "\u00e9", ".", "@", "=?", "\U0001f600", "\t"]
    cs = c.std("NameLaw LocalLaw BothLaw", ps, 2 if c.q else 4, say=c.q)
    cs += c.std("NameLaw LocalLaw", ["a", "?=", "=", "_", ",", ";", ":", "<", ">", "(", ")", "'", "[", "\u4e2d", "~", "0"], 2 if c.q else 3)
    cs += c.std("LongLaw", ["a", "\u00e9", "\u4e2d", "\U0001f600", ".", " b"], 1 if c.q else 2)
    cs += c.std("TimeLaw", [], 1500 if c.q else 20000, times=True)
    c.cases("module Std", c.some([x for x in cs if x["goal"] == A], 1500), per=10)
    c.cases("module Std", [x for x in cs if x["goal"] == D], per=40)
    g = Gen(c.rnd)
    names, locs, ops = [], [], []
    pool = ["Bob", "Bob Smith", "B. Smith", "", "a\"b", "a\\b", "a, b", "a;b:c", "<x>", "(c)", "x@y", " lead", "trail ", "two  sp", "tab\there", "\u00e9", "J\u00e9r\u00f4me Dupont", "\U0001f600", "\u4e2d\u6587 \u540d\u5b57", "x" * 80, "\u00e9" * 60,
            "=?utf-8?q?x?=", "?=", "a=b", "_", "a_b", "\u00a0", "O'Neil", "a\u00e9, \"q\"", "!#$%&'*+-/=?^_`{|}~", "na\u00efve (test) <x@y>", "\u202edir", "long " * 30 + "\u00e9"]
    odd = ["=?", "?=", "=?a", "a=?b", "=?utf-8?q?a?= b", "b =?utf-8?q?a?=", "a.", ".a", ".", "..", "a..b", "@", "\\", "\"", "\\\"", "''", "'a'", "a\\", "\"a\"", "(a", "a)", "<a>", "a:b;", "[a]", "a\u00e9\u00e8 b", "\u00e9 ", " \u00e9", "\u00e9  \u00e9", "_\u00e9_", "=\u00e9", "?\u00e9=", "\u00e9\"", "\u00e9@x", "\U0001f468\u200d\U0001f469", "e\u0301", "\ufb01", "\ufffd", "\u3000"]
    pool += odd + [a + b for a in odd for b in c.rnd.sample(odd, 4)] + ["n" * n for n in (70, 75, 76, 77, 78, 100, 998, 1000)] + ["\u00e9" * n for n in range(5, 60, 3)] + ["a\u4e2d" * n for n in range(3, 40, 3)]
    for w in mined.words(c.run.mine()[1]["strs"])[:40]:
        pool += [w, "a" + w + "b", w + "\u00e9", "\u00e9" + w, w + w, w.upper()]
    for _ in range(200 if c.q else 1500):
        pool.append("".join(g.uni() if c.rnd.random() < .3 else c.rnd.choice(ATEXT + " ,;:.\"\\<>()@[]") for _ in range(c.rnd.choice([1, 3, 6, 12, 30]))))
    # where a name is divided into encoded words
    for tok in ("=?", "?=", " ", "  ", ".", " .", "@", "\"", "\\\"", "_", "=3D", "?q?", "=?utf-8?q?a?=", "\t", ", ", "a\u0301", "\U0001f600", "<a@b>"):
        pool += [u * i + tok + "\u00e9" * 40 for i in (range(0, 74) if tok == "=?" or not c.q else c.rnd.sample(range(74), 14)) for u in c.rnd.sample(["\u00e9", "x", "\u4e2d", "x\u00e9"], 2 if tok == "=?" else 1)]
    lpool = ["a", "a.b", "a b", "a\"b", "a@b", ".a", "a.", "a..b", "a\\b", "a,b", "\u00e9", "x" * 64, "a+b", "<>", "(c)", " a", "a "]
    scripts = []
    for i, n in enumerate(pool):
        l = lpool[i % len(lpool)] if i % 3 == 0 else "a.b"
        scripts.append(dict(ops=[dict(e="mailstring", calls=[dict(e="x", how=n, raw=base64.b64encode((l + "@example.com").encode()).decode())])]))
    # several addresses of one list
    for _ in range(10 if c.q else 100):
        xs = [(c.rnd.choice(pool), c.rnd.choice(lpool)) for _ in range(c.rnd.randrange(2, 5))]
        scripts.append(dict(ops=[dict(e="mailstring", calls=[dict(e="x", how=n, raw=base64.b64encode((l + "@ex.org").encode()).decode()) for n, l in xs])]))
    times = []
    near = [abs(n) for n in c.run.mine()[1]["ints"] if 1 < abs(n) < 9999]
    for _ in range(4000 if c.q else 20000):
        y = c.rnd.choice(near) + c.rnd.choice([-1, 0, 0, 1]) if near and c.rnd.random() < .1 else c.rnd.choice([1, 100, 1900, 1969, 1970, 1999, 2000, 2024, 2038, 9999, c.rnd.randrange(1, 10000), c.rnd.randrange(1970, 2040)])
        t = datetime.datetime(y, c.rnd.randrange(1, 13), c.rnd.randrange(1, 29), c.rnd.randrange(24), c.rnd.randrange(60), c.rnd.randrange(60))
        sec = (t - datetime.datetime(1970, 1, 1)) // datetime.timedelta(seconds=1)
        times.append(dict(ops=[dict(e="timeformat", year=c.rnd.choice([0, 0, c.rnd.randrange(-1439, 1440) * 60, c.rnd.randrange(-56, 57) * 900]), date=str(sec), how=c.rnd.choice(["RFC1123Z", "RFC822Z", "nodow", "RFC1123"]))]))
    for h in range(24):
        for m in range(60):
            off = (h * 60 + m) * 60
            for o in (off, -off):
                times.append(dict(ops=[dict(e="timeformat", year=o, date=str(c.rnd.randrange(-2 ** 33, 2 ** 35)), how=c.rnd.choice(["RFC1123Z", "RFC1123Z", "nodow", "RFC822Z"]))]))
    for i in range(0, len(times), 60):
        scripts.append(dict(ops=[o for x in times[i:i + 60] for o in x["ops"]]))
    return c.go("standard library", [s for s in scripts if s["ops"]])


# ----------------------------------------------------------------

ASSUME = ["TLC, the CommunityModules and the Go toolchain are correct", "the driver records calls and results faithfully (the events are what the public API returned)"]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("file", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    a = ap.parse_args()
    if a.property == "setup":
        return setup()
    if a.property == "replay":
        return replay(a.file)
    if a.property not in PROPS:
        print("no such property", a.property)
        return 2
    run = Run(a.property, a.tier, a.seed)
    try:
        c = Check(run)
        try:
            PROPS[a.property](c)
            run.join()
        except Enough:
            pass
        except Trouble as e:
            if not run.fresh():
                raise
            print("TROUBLE after a violation: %s" % e)
        run.extra["counts"] = c.counts
        return run.finish(assumptions=ASSUME)
    except Trouble as e:
        print("TROUBLE: %s" % e)
        return 3
    except Exception:
        traceback.print_exc()
        return 4
    finally:
        run.close()


def setup():
    """Shows that the tools work: builds the driver and has TLC judge one call, rightly and wrongly answered."""
    run = Run("setup", "quick", 1)
    try:
        res = run.drive([dict(ops=[call(A, "N <a@b>")])])
        run.judge(res, "setup")
        if run.violations:
            print("unexpected: %s" % vf.describe(run.violations[0]))
        res[0]["ops"][-1]["r"] = dict(ok=True, v=[[cps("N"), cps("a@c")]])
        n = len(run.violations)
        run.judge(res, "setup")
        if len(run.violations) != n + 1:
            raise Trouble("a corrupted result was not noticed")
        # a library whose results share memory is not isolated
        cfg = open(os.path.join(vf.SPEC, "MCSystem.cfg")).read().replace("Sharing = FALSE", "Sharing = TRUE").replace("Deterministic Apart ReaderMatters", "")
        for inv, prop in (("Apart", ""), ("", "PROPERTIES Isolated")):
            if run.tlc("MCSystem", open(os.path.join(vf.SPEC, "MCSystem.tla")).read(), "\n".join(x for x in cfg.replace("TypeOK Faithful ", inv).replace("PROPERTIES Isolated ReaderStable", prop).split("\n") if x != "INVARIANTS "), expect_ok=False):
                pass
            if "rc 0" in run.steps[-1]:
                raise Trouble("shared memory was not noticed")
        print("ready")
        return 0
    finally:
        run.close()


def replay(path):
    d = json.load(open(path))
    run = Run(d["property"] + "-replay", "quick", d["seed"])
    try:
        scripts = []
        for v in d["violations"]:
            ops = []
            for o in v["history"]:
                if o["e"] in ("return", "year"):
                    continue
                o = {k: x for k, x in o.items() if k not in ("r", "ms")}
                if o["e"] == "invoke":
                    o["e"] = "call"
                ops.append(o)
            scripts.append(dict(ops=ops))
        run.judge(run.drive(scripts), "replay")
        for v in run.violations:
            print(vf.describe(v))
        print("%d of %d violations happen again" % (len(run.violations), len(d["violations"])))
        return 1 if run.violations else 0
    finally:
        run.close()


if __name__ == "__main__":
    sys.exit(main())

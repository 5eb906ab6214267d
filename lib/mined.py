"""Texts made of the constants in the library's source, as a fuzzer makes texts of its dictionary.

A change that treats some length, character or word differently usually names it.
These texts have such lengths (one less, that many, one more), contain such
characters and words, in every role they can have.  What the library should make
of them is for the specification to say: no source is read for that."""

MON = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"]


def b(s):
    return list(s.encode("utf-8"))


def mb(*pairs):
    return [[b(n), b(a)] for n, a in pairs]


def sizes(ints, top, known=()):
    ns = set()
    for i in ints:
        i = abs(i)
        for n in (i - 1, i, i + 1):
            if 1 < n <= top:
                ns.add(n)
    return sorted(ns)


def quote(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'


def qword(s):
    return "=?utf-8?q?" + "".join("=%02X" % c for c in s.encode("utf-8")) + "?="


def rep(n, unit):
    return (unit * (n // len(unit) + 1))[:n]


# shapes of a given size: name -> (largest size in the quick tier, size -> text, value)
def _list(sep, item=lambda i: "a%d@b" % i):
    return lambda n: (sep.join(item(i) for i in range(n)), mb(*[("", item(i)) for i in range(n)]))


SHAPES = {
    "atom name": (9000, lambda n: ("n" * n + " <x@y>", mb(("n" * n, "x@y")))),
    "local": (9000, lambda n: ("l" * n + "@y", mb(("", "l" * n + "@y")))),
    "domain": (9000, lambda n: ("x@" + "d" * n, mb(("", "x@" + "d" * n)))),
    "address": (9000, lambda n: ("N <" + "l" * (n - 2) + "@d>", mb(("N", "l" * (n - 2) + "@d")))),
    "whole": (9000, lambda n: ("w" * max(1, n - 2) + "@d", mb(("", "w" * max(1, n - 2) + "@d")))),
    "quoted name": (9000, lambda n: ('"' + rep(n, "q r") [:-1] + 's" <x@y>', mb((rep(n, "q r")[:-1] + "s", "x@y")))),
    "quoted local": (9000, lambda n: ('"' + "q" * n + '"@y', mb(("", "q" * n + "@y")))),
    "escapes": (4500, lambda n: ('"' + "\\\"" * n + '" <x@y>', mb(('"' * n, "x@y")))),
    "literal": (9000, lambda n: ("x@[" + "d" * n + "]", mb(("", "x@[" + "d" * n + "]")))),
    "port": (9000, lambda n: ("x@y:" + "1" * n, mb(("", "x@y:" + "1" * n)))),
    "words": (1500, lambda n: (" ".join(["wo"] * n) + " <x@y>", mb((" ".join(["wo"] * n), "x@y")))),
    "quoted words": (700, lambda n: (" ".join(['"q"'] * n) + " <x@y>", mb((" ".join(["q"] * n), "x@y")))),
    "encoded words": (350, lambda n: (" ".join(["=?utf-8?q?ab?="] * n) + " <x@y>", mb(("ab" * n, "x@y")))),
    "encoded text": (5000, lambda n: ("=?utf-8?q?" + "e" * n + "?= <x@y>", mb(("e" * n, "x@y")))),
    "encoded word": (5000, lambda n: ("=?utf-8?q?" + "e" * max(1, n - 12) + "?= <x@y>", mb(("e" * max(1, n - 12), "x@y")))),
    "encoded escapes": (1700, lambda n: (qword("\u00e9" * ((n + 1) // 2)) + " <x@y>", mb(("\u00e9" * ((n + 1) // 2), "x@y")))),
    "dots in a name": (1500, lambda n: ("a" + ".b" * n + " <x@y>", mb(("a" + ".b" * n, "x@y")))),
    "labels": (1500, lambda n: ("x@" + ".".join(["d"] * n), mb(("", "x@" + ".".join(["d"] * n))))),
    "local words": (1500, lambda n: (".".join(["l"] * n) + "@y", mb(("", ".".join(["l"] * n) + "@y")))),
    "comment": (9000, lambda n: ("(" + rep(n, "c") + ") N <x@y>", mb(("N", "x@y")))),
    "comments": (1500, lambda n: ("N" + "(c)" * n + "<x@y>", mb(("N", "x@y")))),
    "nested": (260, lambda n: ("N " + "(" * n + "c" + ")" * n + "<x@y>", mb(("N", "x@y")))),
    "space": (130, lambda n: ("N" + " " * n + "<x@y>", mb(("N", "x@y")))),
    "members": (700, _list(",")),
    "semicolons": (400, _list(";")),
    "named members": (250, lambda n: (",".join("N%d <a@b>" % i for i in range(n)), mb(*[("N%d" % i, "a@b") for i in range(n)]))),
    "equal members": (400, lambda n: (",".join(["D <a@b>"] * n), mb(*[("D", "a@b")] * n))),
    "empty members": (400, lambda n: ("a@b" + "," * n + "c@d", mb(("", "a@b"), ("", "c@d")))),
    "group": (66, lambda n: ("g:" + ",".join("a%d@b" % i for i in range(n)) + ";,x@y", mb(*[("", "a%d@b" % i) for i in range(n)] + [("", "x@y")]))),
    "groups": (250, lambda n: (",".join("g:a%d@b;" % i for i in range(n)), mb(*[("", "a%d@b" % i) for i in range(n)]))),
    "group name": (5000, lambda n: ("g" * n + ":a@b;", mb(("", "a@b")))),
    "route": (400, lambda n: ("<" + ",".join(["@r"] * n) + ":a@b>", mb(("", "a@b")))),
}

KIND = {  # which shapes show which property
    "name": ["atom name", "quoted name", "words", "quoted words", "dots in a name"],
    "local": ["local", "quoted local", "local words", "address", "whole"],
    "domain": ["domain", "labels", "literal", "port", "address", "whole"],
    "angle": ["route", "address"],
    "quoted": ["quoted name", "quoted local", "escapes", "quoted words"],
    "encoded": ["encoded words", "encoded text", "encoded word", "encoded escapes"],
    "comment": ["comment", "comments", "nested", "space"],
    "list": ["members", "semicolons", "named members", "equal members", "empty members"],
    "group": ["group", "groups", "group name"],
    "edge": [],
}

ROLES = {
    "name": ["%s <x@y>", "N%sM <x@y>", "N %s <x@y>", "%s M <x@y>", "%sM <x@y>", "N%s <x@y>", "A %s B <x@y>"],
    "local": ["%s@y", "a.%s@y", "a%s@y", "%sa@y", "%s.a@y", "N <%s@y>", "a%sb@y", "a . %s@y"],
    "domain": ["x@%s", "x@a.%s", "x@%s.a", "x@a%s.b", "x@[%s]", "x@[%s:1]", "x@[%s1]", "x@[a%sb]", "x@y:%s", "N <x@%s>", "N <x@a%s>"],
    "angle": ["N <%s>", "<@%s:a@b>", "<@r,%s:a@b>", "<@a%s,@s:x@y>", "N <@r:%s>", "<%s@b>", "%s <>"],
    "quoted": ["\"%s\" <x@y>", "\"a%sb\" <x@y>", "\"%s\"@y", "\"a%s\"@y", "N \"%sb\" M <x@y>", "N <\"a%sb\"@y>", "\"\\%s\" <x@y>", "\"a\\%sb\"@y", "\"g%s\":a@b;"],
    "encoded": ["=?%s?q?a?= <x@y>", "=?a%s?q?a?= <x@y>", "=?utf-8?%s?a?= <x@y>", "=?utf-8?q?%s?= <x@y>", "=?utf-8?q?a%sb?= <x@y>", "=?utf-8?b?%s?= <x@y>", "=?x-tag?q?%s?= <x@y>", "%s =?utf-8?q?a?= <x@y>", "=?utf-8?q?a?= %s <x@y>",
                "=?%s?b?YWJj?= <x@y>", "N =?X-%s?q?a?= <x@y>"],
    "comment": ["(%s) N <x@y>", "N <x@y> (%s)", "x@y (%s)", "x@y(%s)", "N(%s)M<x@y>", "(a%sb)x@(c)y", "x(%s)@y", "x@(%s)y", "N <x@y(%s)>", "a@b(%s),c@d", "g:(%s);", "g(%s):a@b;", "N%s<x@y>", "N %s <x@y>"],
    "list": ["a@b%sc@d", "a@b,%s,c@d", "a@b,%s <c@d>", "%s <a@b>,%s <c@d>", "N <a@b>,%s,c@d", "a@b,%s@c,d@e", "a@%s,c@d", "%s,a@b", "a@b,%s"],
    "group": ["%s:a@b;", "g:%s;", "g:%s,c@d;", "a%s:a@b,c@d;", "g:a@b%s", "x@y,%s:a@b;,z@w", "\"%s\":a@b;", "g:%s <x@y>;", "g:a@b;%s"],
    "edge": ["%s", "%s a@b", "%sa@b", "a@b %s", "a@b%s", "N <x@y>%s", "%s<x@y>", "N <a@b%s", "<a@b%s>", "a%sb", "g:a@b;%s", "a@b,c@d%s"],
}


def forms(s):
    return sorted({s, s.upper(), s.lower(), s.title(), s.strip() or s})


def words(strs):
    out = []
    for s in strs:
        if s and all(not 0xD800 <= ord(ch) <= 0xDFFF for ch in s) and len(s) <= 60 and "\n\n" not in s and s.count(" ") <= 8:
            out.append(s)
    return out


def addresses(d, kinds, rnd, quick):
    """(text, value or None) for the constants d, where they concern these kinds of things."""
    sized, worded = [], []
    for name in sorted({x for k in kinds for x in KIND[k]}):
        top, f = SHAPES[name]
        for n in sizes(d["ints"], top if quick else 2 * top):
            sized.append(f(n))
    ws = words(d["strs"])
    add = lambda r, x: worded.append((r.replace("%s", x), None))
    for w in ws:
        for s in forms(w):
            core = s.strip(" \t\r\n[](){}<>\"'`:;,.@?=!")
            for k in kinds:
                for r in ROLES[k]:
                    add(r, s)
                    if core and core != s:
                        add(r, core)
                    if k == "quoted":
                        add(r, s.replace("\\", "\\\\").replace('"', '\\"'))
                    if k in ("name", "local", "list", "group", "angle", "encoded", "edge"):
                        for q in (s, "a" + s + "b", s + "b", "b" + s, s + " b " + s):
                            add(r, quote(q))
                            if k in ("name", "encoded", "list", "group"):
                                add(r, qword(q))
                    if k in ("name", "local", "domain", "quoted", "comment"):
                        add(r, s + "a" + s)
                        add(r, "a" + s + s + "b")
                        add(r, s + rnd.choice(ws))
                        for o in "a1.\u00e9":
                            add(r, o + s)
                            add(r, s + o)
    return sized, sorted(set(worded))


def pairs(d, kinds, rnd, most):
    """Texts with two of the constants each."""
    out, ws, ns = [], words(d["strs"]), sizes(d["ints"], 1100)
    item = lambda w: rnd.choice(["a@b", "N <a@b>", "\"q\" <a@b>", "a%sb@c" % w, quote("a%sb" % w) + " <x@y>", quote(w) + "@y", qword(w) + " <x@y>", "x@a%sb" % w, "(%s) x@y" % w.replace("(", "").replace(")", ""), "N%s <x@y>" % w])
    for _ in range(most // 3 if ws and ns else 0):      # a size and a word
        n, w = rnd.choice(ns), rnd.choice(ws)
        k = max(0, n - len(w))
        m = rnd.choice([0, k, rnd.randrange(k + 1)])
        x = "a" * m + w + "b" * (k - m)
        y = rep(m, "ab ").lstrip() + w + rep(k - m, "c de").rstrip()
        t = [quote(x) + " <x@y>", quote(y) + " <x@y>", quote(x) + "@y", "x@" + x, x + "@y", x + " <x@y>", "N <" + x + "@y>", "(" + x + ") x@y", quote(y) + " w <x@y>"]
        if len(w) < 60 and n < 300:
            t += [qword(x) + " <x@y>", " ".join(["wo"] * (n // 2) + [w] + ["rd"] * (n - n // 2)) + " <x@y>", ".".join(["l"] * m + [w]) + "@y"]
        if n < 70:
            t += ["g:" + ",".join(item(w) for _ in range(n)) + ";,x@y", ",".join(rnd.choice(["g:%s;", "%s", "g:;,%s"]) % item(w).replace("%", "") for _ in range(n))]
        if n < 150:
            t += [rnd.choice([",", ";", ", "]).join(item(w) if rnd.random() < 3 / n else "a%d@b" % i for i in range(n))] * 3
        out.append((rnd.choice(t), None))
    while ws and len(out) < most:
        u, v = rnd.choice(ws), rnd.choice(ws)
        x = rnd.choice(["%sb%s", "%s b %s", "%s%s", "a%sb%sc", "a%sb%s", "%sb%sc", "a %s b %s", "%s b%s c"]) % (u, v)
        if rnd.random() < .2:
            x = rnd.choice([x + u, x + v, x + rnd.choice(ws), x.upper()])
        k = rnd.choice([k for k in kinds if k != "edge"] or ["name"])
        x = rnd.choice([quote(x), quote(x), qword(x) if len(x) < 60 else quote(x), x])
        out.append((rnd.choice(ROLES["name"][:5] if k in ("quoted", "encoded") else ROLES[k]).replace("%s", x), None))
    return out


DSHAPES = [lambda n: ("(" + "c" * n + ")12 Feb 2003 04:05:06 +0700"), lambda n: ("12 Feb 2003 04:05:06 +0700" + " (c)" * min(n, 200)), lambda n: ("12 Feb" + " " * min(n, 130) + "2003 04:05:06 +0700"),
           lambda n: ("12 " + "(" * min(n, 200) + ")" * min(n, 200) + "Feb 2003 04:05:06 EST")]


def dates(d, rnd, quick):
    out = []
    for n in sizes(d["ints"], 100000):
        if n <= 9000:
            out += [f(n) for f in DSHAPES]
        y = "%04d" % n if n <= 9999 else "2000"
        out += ["12 Feb %s 04:05:06 %s" % (y, z) for z in ("+0000", "-0330", "EST", "")] + ["29 Feb %s 04:05" % y, "31 Dec %s 23:59:60 +0000" % y, "1 Jan %s 00:00:00 -2359" % y]
        if n < 100:
            out += ["%d Mar 2001 04:05:06 +0100" % n, "%02d Dec 2001 04:05:06 +0100" % n, "1 Mar 2001 %d:05:06 +0100" % n, "1 Mar 2001 %02d:05" % n, "1 Mar 2001 04:%02d:06 PST" % n, "1 Mar 2001 04:05:%02d +0100" % n]
            out += ["1 Mar 2001 04:05:06 %s%02d%02d" % (s, n, m) for s in "+-" for m in (0, 30, 59)] + ["1 Mar 2001 04:05:06 %s%02d%02d" % (s, h, n) for s in "+-" for h in (0, 11)] + ["3 Mar %02d 04:05" % n]
        if n < 10000:
            out += ["1 Mar 2001 04:05:06 %s%04d" % (s, n) for s in ("+", "-", "")] + ["1 Mar 1960 04:05:06 %s%04d" % (s, n) for s in ("+", "-", "")]
        for secs in (n, 60 * n, 3600 * n):
            if secs <= 86340:
                out += ["1 Mar 2001 04:05:06 %s%02d%02d" % (s, secs // 3600, secs // 60 % 60) for s in "+-"]
    ns = sizes(d["ints"], 9999)
    for y in [n for n in ns if n > 99 and n in d["ints"]][:8] if quick else [n for n in ns if n > 99][:60]:     # a year, day by day
        out += ["%d %s %04d 12:34:56 %s" % (k, m, y, rnd.choice(["+0000", "-0500", "+0930", "", "PDT"])) for m in MON for k in range(1, 32)]
    if ns:      # the constants together
        pick = lambda top, few: rnd.choice([n for n in ns if n <= top] or few) if rnd.random() < .5 else rnd.choice(few)
        for _ in range(500 if quick else 5000):
            k, y, h, mi, s = pick(31, range(1, 32)), pick(9999, [1999, 2001, 2024, 1960]), pick(23, range(24)), pick(59, [0, 30, 59]), pick(60, [0, 30, 59])
            z = rnd.choice(["%s%02d%02d" % (rnd.choice("+-"), pick(23, range(14)), pick(59, [0, 30, 45])), "", "GMT", "EST"])
            out.append("%d %s %04d %02d:%02d:%02d %s" % (k, rnd.choice(MON), y, h, mi, s, z))
    for w in words(d["strs"]):
        for s in forms(w):
            for r in ("%s", "%s 2 Jan 2006 15:04:05 +0100", "2 %s 2006 15:04:05 +0100", "2 Jan 2006 15:04:05 %s", "2 Jan 2006 15:04 %s", "2 Jan 2006 15:04:05%s", "%s2 Jan 2006 15:04:05 +0100", "2 Jan 2006 15:04:05 +0100%s", "2 Jan 2006 15:04:05 +0100 %s",
                      "2 Jan 2006 15:04:05 +0100 (%s)", "2 Jan 2006 15:04:05 (%s)", "2 (%s) Jan 2006 15:04:05 EST", "2 Jan (%s) 2006 15:04:05", "(%s) 2 Jan 2006 15:04:05", "2%sJan 2006 15:04:05", "2 Jan%s2006 15:04:05", "2 Jan 2006%s15:04:05", "2 Jan 2006 15%s04:05", "2 Jan 2006 15%s04%s05",
                      "%s, 2 Jan 2006 15:04:05 +0100", "%s 2 Jan 2006 15:04", "Mon%s 2 Jan 2006 15:04", "2 Jan %s 15:04", "2 Jan 2006 %s:04", "2 Jan 2006 15:%s", "2 Jan 2006 15:04:%s", "2 Jan 2006 15:04:05%s5", "29 %s 2021 00:00", "31 %s 1999 23:59:59 -0500", "2 Jan 2006 15:04:05 GMT%s", "2 Jan 2006 15:04:05 GMT%s0100"):
                out.append(r.replace("%s", s))
    return out

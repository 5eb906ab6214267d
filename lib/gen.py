"""Random texts for the real library.  What they mean is for the specification to say."""
import random

ATEXT = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789!#$%&'*+-/=?^_`{|}~"
CTL = [c for c in list(range(1, 9)) + [11, 12] + list(range(14, 32)) + [127]]
UNI = [0x80, 0x9F, 0xA0, 0xE9, 0xFF, 0x100, 0x3B1, 0x7FF, 0x800, 0x2028, 0x4E2D, 0xD7FF, 0xE000, 0xFEFF,
       0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x1F600, 0x10FFFD, 0x10FFFF]


class Gen:
    def __init__(self, rnd, size=1.0, unicode=0.1):
        self.r, self.size, self.u = rnd, size, unicode
        self.dictionary, self.seen = [], []

    def echo(self, s):
        """Sometimes a word that occurred before, or one that is given, instead of a new one."""
        k = self.r.random()
        if self.dictionary and k < .25:
            w = self.r.choice(self.dictionary)
            return self.r.choice([w, w, w + s, s + w, w.upper(), w.lower()])
        if self.seen and k < .45:
            w = self.r.choice(self.seen)
            return w if self.p(.8) else w.swapcase()
        self.seen = self.seen[-4:] + [s]
        return s

    def p(self, x):
        return self.r.random() < x

    def n(self, lo, hi):
        return self.r.randint(lo, hi)

    def pick(self, *xs):
        return self.r.choice(xs)

    def uni(self):
        r = self.r.random()
        if r < .4:
            return chr(self.r.choice(UNI))
        while True:
            c = self.r.choice([self.r.randint(0x80, 0x7FF), self.r.randint(0x800, 0xFFFF), self.r.randint(0x10000, 0x10FFFF)])
            if not 0xD800 <= c <= 0xDFFF:
                return chr(c)

    # white space and comments
    def wsp(self):
        return "".join(self.pick(" ", " ", " ", "\t") for _ in range(self.pick(1, 1, 1, 2, 3)))

    def fws(self):
        k = self.r.random()
        if k < .6:
            return self.wsp()
        if k < .9:
            return self.pick("", self.wsp()) + "\r\n" + self.wsp()
        return self.wsp() + "\r\n" + self.wsp()

    def comment(self, d=0):
        s = "("
        for _ in range(self.pick(0, 1, 1, 2, 3)):
            k = self.r.random()
            if self.p(.3):
                s += self.fws()
            if k < .1:
                s += self.echo("c").replace("(", "").replace(")", "").replace("\\", "")
            elif k < .5:
                s += "".join(self.r.choice(ATEXT + ",;:.<>@[]\"") for _ in range(self.n(1, 4)))
            elif k < .6:
                s += "\\" + self.r.choice("()\\ \tab\"\x00\r\n\x01\x7f")
            elif k < .8 and d < 3:
                s += self.comment(d + 1)
            elif k < .9:
                s += chr(self.r.choice(CTL))
            else:
                s += self.uni()
        if self.p(.2):
            s += self.fws()
        return s + ")"

    def cfws(self):
        k = self.r.random()
        if k < .6:
            return self.fws()
        s = ""
        for _ in range(self.pick(1, 1, 1, 2)):
            s += self.pick("", self.fws()) + self.comment()
        return s + self.pick("", self.fws())

    def oc(self, p=.25):
        return self.cfws() if self.p(p) else ""

    # words
    def atom(self):
        return self.echo("".join(self.uni() if self.p(self.u) else self.r.choice(ATEXT) for _ in range(self.n(1, 6))))

    def dotatom(self):
        return ".".join(self.atom() for _ in range(self.pick(1, 1, 2, 3)))

    def quoted(self):
        if self.dictionary and self.p(.4):
            t = "".join(self.r.choice(self.dictionary) if self.p(.5) else self.r.choice("abc xyz .") for _ in range(self.n(1, 6)))
            return '"' + t.replace("\\", "\\\\").replace('"', '\\"') + '"'
        s = '"'
        for _ in range(self.pick(0, 1, 2, 3, 5)):
            if self.p(.25):
                s += self.fws()
            k = self.r.random()
            if k < .1:
                s += self.echo("a").replace("\\", "").replace('"', "")
            elif k < .6:
                s += self.r.choice(ATEXT + "()<>[]:;@,.")
            elif k < .8:
                s += "\\" + self.r.choice("\"\\ \tabc(<@,")
            elif k < .85:
                s += "\\" + chr(self.r.choice(CTL + [0, 10, 13]))
            elif k < .9:
                s += chr(self.r.choice(CTL))
            else:
                s += self.pick("", "\\") + self.uni()
        if self.p(.15):
            s += self.fws()
        return s + '"'

    def encoded(self):
        import base64
        k = self.r.random()
        if self.p(.2):
            w = "".join(self.r.choice(self.dictionary) if self.p(.5) else self.r.choice("abc xyz .") for _ in range(self.n(1, 6))) if self.dictionary and self.p(.5) else self.echo("x")
            w = w.encode("utf-8", "replace")
            return "=?utf-8?q?" + "".join("=%02X" % c for c in w) + "?="
        raw = bytes(self.r.choice([self.n(32, 126), self.n(97, 122), self.n(0, 255)]) for _ in range(self.n(1, 8)))
        cs = self.pick("utf-8", "UTF-8", "iso-8859-1", "ISO-8859-1", "us-ascii", "x-up", "X-Up", "x-rev", "x-tag", "x-nest", "x-lazy", "x-no",
                       "windows-1252", "utf8", "utf-8*en")
        if self.p(.5):
            enc, txt = self.pick("b", "B"), base64.b64encode(raw).decode()
            if self.p(.15):
                txt = txt[:-1] or "A"
        else:
            enc = self.pick("q", "Q")
            txt = "".join(("=%02X" if self.p(.8) else "=%02x") % b if not (chr(b).isalnum() and b < 128) or self.p(.1)
                          else chr(b) for b in raw)
            txt = txt.replace("=20", "_")
            if self.p(.1):
                txt += self.pick("=", "=4", "=G1", "=_")
        if self.p(.05):
            enc = self.pick("x", "qq", "bq")
        return "=?%s?%s?%s?=" % (cs, enc, txt)

    def word(self):
        return self.pick(self.atom, self.atom, self.quoted, self.encoded)()

    def name(self):
        s = ""
        for i in range(self.pick(1, 1, 2, 2, 3)):
            if i:
                s += self.cfws() if self.p(.9) else ""
            s += self.word()
            if self.p(.12):
                s += self.pick(".", "@", "..", ". ")
        return s

    def local(self):
        k = self.r.random()
        if k < .55:
            return self.oc(.1) + self.dotatom() + self.oc(.1)
        if k < .6:
            return self.dotatom() + "."
        if k < .8:
            return self.oc(.1) + self.quoted() + self.oc(.1)
        return ".".join(self.oc(.3) + self.pick(self.atom, self.quoted, self.encoded)() + self.oc(.3) for _ in range(self.n(1, 3)))

    def domain(self):
        k = self.r.random()
        if k < .75:
            s = self.dotatom()
        elif k < .8:
            s = self.dotatom() + "."
        else:
            s = "["
            for _ in range(self.n(0, 4)):
                s += (self.fws() if self.p(.2) else "") + self.r.choice(ATEXT + ".:()<>@,;\"")
            s += (self.fws() if self.p(.1) else "") + "]"
        return self.oc(.1) + s + self.oc(.1)

    def spec(self):
        return self.local() + "@" + self.domain() + (":%d" % self.n(0, 99999) if self.p(.1) else "")

    def route(self):
        s = self.pick("", ",", ", ") + "@" + self.domain()
        for _ in range(self.n(0, 2)):
            s += "," + self.oc(.2) + ("@" + self.domain() if self.p(.8) else "")
        return s + ":"

    def mailbox(self):
        if self.p(.35):
            return self.spec()
        if self.p(.06):
            a = self.spec()
            return self.pick(a, '"' + a.replace("\\", "\\\\").replace('"', '\\"') + '"', a.split("@")[0]) + " <" + a + ">"
        s = self.name() if self.p(.85) else ""
        k = self.r.random()
        if k < .8:
            a = "<" + self.spec() + ">"
        elif k < .9:
            a = "<" + self.route() + self.spec() + ">"
        else:
            a = "<>"
        return s + self.oc(.6) + a + self.oc()

    def group(self):
        k = self.r.random()
        if k < .2:
            body = self.oc(.5)
        elif k < .8:
            body = ",".join(self.oc(.2) + self.mailbox() for _ in range(self.n(1, 3)))
        else:
            body = self.pick("", ",", " ,") + self.mailbox() + "".join("," + (self.mailbox() if self.p(.5) else self.oc()) for _ in range(self.n(1, 2)))
        q = '"' if self.p(.08) else ""
        return q + self.name() + ":" + body + q + (";" if self.p(.9) else "") + self.oc()

    def address(self, g=.15):
        return self.group() if self.p(g) else self.mailbox()

    def alist(self, lo=1, hi=3, g=.15):
        n = self.n(lo, hi)
        s = self.pick(*[""] * 8, ",", " ,", self.oc())
        for i in range(n):
            if i:
                s += self.pick(",", ",", ", ", ", ", ";", ",\r\n ", ",,", ", ,")
            s += self.address(g)
        return s + self.pick(*[""] * 8, ",", ", ", self.oc())

    # dates
    def date(self):
        def n2(x):
            return "%02d" % x if self.p(.7) else str(x)
        oor = self.p(.12)
        day = self.n(0, 99) if oor else self.n(1, 28) if self.p(.8) else self.n(1, 31)
        mon = self.pick("Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec")
        dow = self.pick("Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun")
        if self.p(.2):
            mon, dow = self.pick((mon.upper(), dow.upper()), (mon.lower(), dow.lower()), (mon.swapcase(), dow.swapcase()))
        year = "%04d" % (self.n(0, 9999) if self.p(.2) else self.n(1900, 2100)) if self.p(.75) else "%02d" % self.n(0, 99)
        hh, mm, ss = ((self.n(0, 99), self.n(0, 99), self.n(0, 99)) if oor else (self.n(0, 23), self.n(0, 59), self.n(0, 60)))
        s = (self.oc(.1) + dow + self.oc(.1) + "," if self.p(.5) else "")
        s += self.cfws() if self.p(.5) else self.pick(" ", "")
        s += n2(day) + (self.cfws() if self.p(.4) else self.pick(" ", " ", "")) + mon
        s += (self.cfws() if self.p(.3) else self.pick(" ", " ", " ", "")) + year + (self.cfws() if self.p(.3) else self.pick(" ", " ", " ", ""))
        s += n2(hh) + self.oc(.1) + ":" + self.oc(.1) + "%02d" % mm + self.oc(.1)
        if self.p(.75):
            s += ":" + self.oc(.1) + "%02d" % ss + self.oc(.1)
        k = self.r.random()
        if k < .5:
            s += self.pick(" ", " ", self.fws()) + self.pick("+", "-", "") + "%02d%02d" % ((self.n(0, 99), self.n(0, 99)) if self.p(.1) else (self.n(0, 14), self.pick(0, 15, 30, 45, 59)))
        elif k < .8:
            z = self.pick("UT", "UTC", "GMT", "EST", "EDT", "CST", "CDT", "MST", "MDT", "PST", "PDT", "Z", "CET")
            s += self.pick(" ", " ", "", self.cfws()) + (z if self.p(.7) else z.lower())
        return s + self.oc(.2)

    # damage
    def mutate(self, s, extra="\"()<>@,;:.\\[] \t\r\n=?a1\x00\x01\u00e9"):
        s = list(s)
        for _ in range(self.pick(1, 1, 1, 2, 3)):
            i = self.n(0, len(s))
            k = self.r.random()
            if k < .35 and s:
                del s[min(i, len(s) - 1)]
            elif k < .75:
                s.insert(i, self.r.choice(extra))
            elif k < .85 and s:
                s[min(i, len(s) - 1)] = self.r.choice(extra)
            elif len(s) > 1:
                j = self.n(0, len(s) - 1)
                i = min(i, len(s) - 1)
                s[i], s[j] = s[j], s[i]
        return "".join(s)

    def vary(self, s, other=""):
        """A text that is nearly s."""
        for _ in range(self.pick(1, 1, 1, 2, 2, 3)):
            n = len(s)
            i, j = sorted((self.n(0, n), self.n(0, n)))
            if j - i > 12 and self.p(.7):
                j = i + self.n(1, 12)
            k = self.n(0, 12)
            if k == 0:
                s = s[:i] + s[j:]
            elif k == 1:
                s = s[:j] + s[i:j] * self.pick(1, 1, 2) + s[j:]
            elif k == 2:
                s = s[:i] + s[i:j].swapcase() + s[j:]
            elif k == 3:
                s = s[:i] + self.pick(" ", "(c)", "\r\n ", "\t", " (x) ", "\r\n\t", "  ") + s[i:]
            elif k == 4:
                s = s[:i] + self.pick(*(self.dictionary or ["a"]), "a", "1", ".", "\"", "\\", "@", "\u00e9", "=") + s[i:]
            elif k == 5:
                s = s + self.pick(",", ", ", ";", " ") + other
            elif k == 6:
                s = other + self.pick(",", ", ", ";", " ") + s
            elif k == 7:
                m = self.n(0, len(other))
                s = s[:i] + other[m:m + self.n(0, 8)] + s[j:]
            elif k == 8 and n:
                m = self.n(0, n - 1)
                s = s[:i] + s[m:m + self.n(1, 8)] + s[j:]
            elif k == 9 and n > 1:
                i = self.n(0, n - 2)
                s = s[:i] + s[i + 1] + s[i] + s[i + 2:]
            elif k == 10 and n:
                i = self.n(0, n - 1)
                x = s[i]
                s = s[:i] + (self.r.choice("0123456789") if x.isdigit() else self.r.choice("abzAZ\u00e9") if x.isalpha() else self.r.choice(" \t.,;:@()<>\"\\")) + s[i + 1:]
            elif k == 11:
                s = self.pick("g:%s;", "\"%s\" <a@b>", "(%s) a@b", "<%s>", "N <%s>", "%s,%s", "%s;%s", "x@y,%s", "%s,x@y").replace("%s", s)
            else:
                s = self.mutate(s)
        return s if len(s) <= 400 and " " * 20 not in s else s[:60]

"""Texts that take every transition of the machine's control graph (module Cover)."""
import collections


def module(goal, prefix, alphabet, depth, maxlen):
    return """---- MODULE MCCover ----
EXTENDS Cover
MCPrefix == << %s >>
MCAlphabet == { %s }
====
""" % (", ".join(str(ord(c)) for c in prefix), ", ".join(str(ord(c)) for c in alphabet)), """CONSTANTS
 Goal = "%s"
 Prefix <- MCPrefix
 Alphabet <- MCAlphabet
 Depth = %d
 MaxLen = %d
INIT Init
NEXT Next
VIEW Expectations
CHECK_DEADLOCK FALSE
""" % (goal, depth, maxlen)


def graph(printed):
    g = {}
    for d in printed:
        k = tuple(d["at"])
        if k not in g:
            g[k] = (d["text"], d["ok"], [(c, tuple(t) if t else None) for c, t in d["next"]])
    return g


def completions(g):
    """The shortest way from each state to the end of a text."""
    back = collections.defaultdict(list)
    for s, (_, _, nxt) in g.items():
        for c, t in nxt:
            if t in g:
                back[t].append((s, c))
    done = {s: [] for s, v in g.items() if v[1]}
    todo = collections.deque(done)
    while todo:
        t = todo.popleft()
        for s, c in back[t]:
            if s not in done:
                done[s] = [c] + done[t]
                todo.append(s)
    return done


def texts(g):
    """(text, is it in the language?): each state and each transition, on its own and completed."""
    done = completions(g)
    seen = set()
    start = min(g, key=lambda s: len(g[s][0]))
    again = {c: [c] + done[t] for c, t in g[start][2] if t in done} if not g[start][0] else {}

    def out(t, ok):
        k = tuple(t)
        if k not in seen and t:
            seen.add(k)
            yield t, ok

    for s, (text, ok, nxt) in g.items():
        yield from out(text, ok)
        for c, t in nxt:
            if t is None:
                yield from out(text + [c] + done.get(s, []), False)
                if c in again:  # as if the text began anew there
                    yield from out(text + again[c], False)
            elif t in done:
                yield from out(text + [c] + done[t], True)

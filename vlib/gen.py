"""Random protocol material shared by the workloads."""
import random

WORDS = ["hello", "world", "foo", "bar", "irc", "proxy", "x", "ok", ":)", "a:b", "::", "-", "+o", "#chan", "\x02bold\x02",
         "\x034,5col\x03", "caf\u00e9", "\u65e5\u672c", "\u20ac", "100%", "%s%n", "$nick", "[12:34:56]", "\\", "`cmd`", "=", "~", "@all", "1", "0x1f", "\ttab"]
NICKCH = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
NICKEXT = NICKCH + "0123456789[]\\`_^{|}-"


def nick(r, n=None):
    n = n or r.randint(2, 9)
    return r.choice(NICKCH) + "".join(r.choice(NICKEXT) for _ in range(n - 1))


def chan(r, types="#&"):
    return r.choice(types) + "".join(r.choice(NICKEXT + ".!") for _ in range(r.randint(1, 12)))


def text(r, maxwords=12, tag=None):
    k = r.random()
    if k < 0.04:
        s = ""
    elif k < 0.08:
        s = ":" + r.choice(WORDS)
    elif k < 0.12:
        s = " " + r.choice(WORDS) + "  " + r.choice(WORDS) + " "
    elif k < 0.16:
        s = r.choice(WORDS)
    elif k < 0.19:
        s = "x" * r.randint(100, 330)
    else:
        s = " ".join(r.choice(WORDS) for _ in range(r.randint(1, maxwords)))
    if tag is not None:
        j = r.random()
        if j < 0.5 or not s:
            s = s + " " + tag if s else tag
        elif j < 0.8:
            s = tag + " " + s
        else:
            s = s[:len(s) // 2] + tag + s[len(s) // 2:]
    return s


def hostmask(r, n=None):
    return "%s!%s@%s" % (n or nick(r), r.choice(["~", ""]) + nick(r, 4).lower(), r.choice(["host.example", "1.2.3.4", "2001:db8::1", "a.b-c.org", "user/cloak"]))

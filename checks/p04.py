"""P04: parsing, serialising and stream recovery of IRC lines against a reference."""
import core, drv, e2e, gen
from drv import un, hx

ID = "P04"
TECHNIQUE = "differential runtime monitor: sanitized parser/serialiser/stream reader compared with an independent reference on generated lines and fragmentations"
LEVEL = "exploration"
LEVEL_NOTE = "Every generated line, message and fragmented stream is compared with a reference implementation of the message grammar; bounded by the generated inputs."
RULE = ("one evaluation per line parsed, message serialised or stream recovered and compared; distinct = "
        "(kind, number of parameters, origin or not, colon, odd features of the text) combinations compared")
ASSUMPTIONS = ["without a character set conversion (P20 covers conversion)", "messages of at most 510 bytes when built by appending parameters"]
prepare = drv.prepare

ODD = [b":", b"::", b" ", b"  ", b"\t", b"a:b", b"\x01ACTION x\x01", b"\xc3\xa9", b"\xff\xfe", b"\xe2\x80\xa9", b"\x85", b"\x0b", b"%s", b"\\", b"-", b"+", b"@", b"!", b"#"]


def cases(tier, seed):
    n, k = (48, 400) if tier == "quick" else (400, 3000)
    return [{"seed": seed * 9176 + i, "n": k, "kind": ["parse", "build", "stream"][i % 3]} for i in range(n)]


def word(r, first=False):
    """A parameter that needs no colon."""
    k = r.random()
    if k < 0.5:
        w = gen.nick(r).encode()
    elif k < 0.7:
        w = b"".join(r.choice(ODD) for _ in range(r.randint(1, 4))).replace(b" ", b"")
    elif k < 0.8:
        w = gen.chan(r).encode()
    elif k < 0.9:
        w = bytes(r.choice([x for x in range(1, 256) if x not in (10, 13, 32)]) for _ in range(r.randint(1, 10)))
    else:
        w = b"w" * r.randint(1, 40)
    while w[:1] == b":" or not w:
        w = b"x" + w
    return w


def trailing(r):
    k = r.random()
    if k < 0.15:
        return b""
    if k < 0.5:
        return gen.text(r).encode()[:120]
    if k < 0.8:
        return b"".join(r.choice(ODD) for _ in range(r.randint(1, 6)))
    return bytes(r.choice([x for x in range(1, 256) if x not in (10, 13)]) for _ in range(r.randint(1, 40)))


CMDS = [b"PRIVMSG", b"NOTICE", b"MODE", b"NICK", b"JOIN", b"PART", b"TOPIC", b"QUIT", b"324", b"353", b"001", b"005", b"367", b"221", b"333",
        b"AWAY", b"mode", b"nick", b"join", b"part", b"topic", b"x", b"004", b"329", b"341", b"999", b"0", b"KICK", b"USER", b"PING"]


def message(r):
    """(origin, args): anything a parse can produce."""
    origin = None
    if r.random() < 0.6:
        origin = r.choice([gen.hostmask(r).encode(), b"irc.test", word(r).replace(b":", b"c"), word(r)])
    args = [r.choice(CMDS) if r.random() < 0.8 else word(r)]
    for _ in range(r.choice([0, 0, 1, 1, 2, 2, 3, 4, 6, 14])):
        args.append(word(r)[:24])
    if r.random() < 0.03:
        args += [bytes([r.choice(b"abcxyz0#+-")]) * r.choice([1, 1, 2]) for _ in range(r.choice([20, 40, 63, 64, 65, 120, 240]))]
    if r.random() < 0.7:
        args.append(trailing(r)[:200])
    return origin, args


def line(r):
    """A line of the message grammar, spelled in one of its ways."""
    origin, args = message(r)
    sp = lambda: b" " * r.choice([1, 1, 1, 2, 3])
    out = b""
    if origin is not None:
        out += b":" + origin + sp()
    out += args[0]
    for i, a in enumerate(args[1:]):
        last = i == len(args) - 2
        if last and (not a or b" " in a or a[:1] == b":" or r.random() < 0.5):
            out += sp() + b":" + a
        else:
            out += sp() + a
    if len(args) > 1 and b":" not in out and r.random() < 0.1:
        out += sp()
    return out


def show(l):
    return None if l is None else (un(l["o"]), [un(x) for x in l["a"]])


def bad(key, got, want, src):
    raise core.Violation(key, "%s\n got  %r\n want %r" % (src, got, want))


def sig(kind, o, a):
    t = a[-1] if a else b""
    return (kind, len(a), o is not None, a[0].upper() if a and a[0].upper() in CMDS else b"?", t == b"", t[:1] == b":", b" " in t, any(x > 127 for x in t))


def one_line(nl, src):
    if not nl.endswith(b"\r\n") or b"\n" in nl[:-2] or b"\r" in nl[:-2]:
        bad("not one line", nl, b"...\\r\\n", src)


def run_parse(r, p, cov, n):
    for _ in range(n):
        raw = line(r)
        want = e2e.parse_line(raw)
        d = p.ask("parse", hx(raw))
        if d["l"] is None or show(d["l"]) != want:
            bad("parse", show(d["l"]), want, "parsing %r" % raw)
        if d["l"]["nullterm"] is not True:
            bad("parse:termination", d["l"]["nullterm"], True, "parsing %r" % raw)
        nl, s = un(d["nl"]), un(d["s"])
        one_line(nl, "serialising %r" % (want,))
        if nl[:-2] != s:
            bad("serialise:line end", nl, s + b"\r\n", "serialising %r" % (want,))
        if e2e.parse_line(s) != want:
            bad("serialise", e2e.parse_line(s), want, "serialised as %r, which means" % s)
        if show(d["l2"]) != want:
            bad("reparse", show(d["l2"]), want, "parsing %r" % s)
        if show(d["dup"]) != want or d["cmp"]:
            bad("copy", show(d["dup"]), want, "copying %r" % raw)
        if want[0] is not None and un(d["nick"]) != want[0].split(b"!", 1)[0]:
            bad("origin nick", un(d["nick"]), want[0].split(b"!", 1)[0], "nick of %r" % want[0])
        cov.judge(sig("parse", *want), 5)
        cov.ev("parsed")
    # anything else must still come out as one line, and stay what it is
    for _ in range(n // 4):
        raw = bytes(r.choice(b" :\t!@#ab\r\n\xff\x01" + bytes(range(1, 256))) for _ in range(r.randint(0, 30)))
        d = p.ask("parse", hx(raw))
        if d["l"] is not None and d["l"]["a"]:
            one_line(un(d["nl"]), "serialising %r" % (show(d["l"]),))
            a = show(d["l"])[1]
            if a[0] and show(d["l2"]) != show(d["l"]):
                bad("reparse:odd", show(d["l2"]), show(d["l"]), "parsing %r" % un(d["s"]))
            cov.judge(("odd", len(a), a[0] == b""))
            cov.ev("odd_lines")


def run_build(r, p, cov, n):
    for _ in range(n):
        o, a = message(r)
        while sum(len(x) + 1 for x in a) + 10 > 500:
            a.pop()
        d = p.ask("build", hx(o) if o is not None else "-", *[hx(x) for x in a])
        nl = un(d["nl"])
        one_line(nl, "serialising %r" % ((o, a),))
        if e2e.parse_line(nl[:-2]) != (o, a):
            bad("build", e2e.parse_line(nl[:-2]), (o, a), "serialised as %r, which means" % nl)
        if show(d["l2"]) != (o, a):
            bad("build:reparse", show(d["l2"]), (o, a), "parsing %r" % nl)
        cov.judge(sig("build", o, a), 3)
        cov.ev("built")
        if r.random() < 0.3:
            # text that tries to be several lines
            x = b"a\r\nQUIT :b\n\r" + trailing(r)
            d = p.ask("build", "-", hx(b"PRIVMSG"), hx(b"#c"), hx(x))
            one_line(un(d["nl"]), "serialising a parameter %r" % x)
            cov.judge("inject")
            cov.ev("injections")


def run_stream(r, p, cov, n):
    for _ in range(n // 8):
        msgs = []
        data = b""
        for _ in range(r.randint(1, 12)):
            raw = line(r)
            k = r.random()
            if k < 0.08:
                raw = raw + b" :" + b"y" * r.choice([500, 1022, 1023, 1024, 1025, 4096, 9000])
                if b" :" in raw[:-1] and raw.index(b" :") < len(raw) - 3 and len(e2e.parse_line(raw)[1]) < 1:
                    continue
            elif k < 0.14:
                raw = raw + b"\r" + b"z"
            elif k < 0.18:
                raw = raw + b"\0z"
            msgs.append(e2e.parse_line(raw.replace(b"\r", b" ").replace(b"\0", b" ")))
            data += raw + r.choice([b"\r\n", b"\r\n", b"\n", b"\r\r\n"])
        want = msgs
        mode = r.choice(["bytes", "random", "whole", "pairs"])
        chunks = []
        i = 0
        while i < len(data):
            k = {"bytes": 1, "whole": len(data), "pairs": 2}.get(mode) or r.choice([1, 2, 3, 7, 40, 511, 512, 513])
            chunks.append(data[i:i + k])
            i += k
        if mode == "bytes" and len(data) > 3000:
            chunks = [data[:2000]] + [data[j:j + 1] for j in range(2000, len(data))]
        if len(data) > 60000:
            continue
        d = p.ask("stream", *[hx(c) for c in chunks])
        got = [x if isinstance(x, str) else show(x) for x in d]
        if got != want:
            k = 0
            while k < min(len(got), len(want)) and got[k] == want[k]:
                k += 1
            bad("stream", got[k:k + 2], want[k:k + 2], "line %d of the stream (%s): %r" % (k, mode, data[:300]))
        cov.ev("stream_lines", len(want))
        cov.ev("chunks", len(chunks))
        for o, a in want:
            cov.judge((mode,) + sig("stream", o, a))


def run_case(case, cov):
    r = core.case_rng(case)
    with drv.Drv() as p:
        {"parse": run_parse, "build": run_build, "stream": run_stream}[case["kind"]](r, p, cov, case["n"])
    cov.sample("%s: e.g. %r" % (case["kind"], line(r)))

"""P19: case mapping and announced features against a reference."""
import core, drv, gen
from drv import un, hx
from irctrack import TABLES

ID = "P19"
TECHNIQUE = "differential runtime monitor: sanitized name comparison and feature parser compared with reference tables, exhaustively over characters and randomly over names and announcements"
LEVEL = "exploration"
LEVEL_NOTE = "All 65025 character pairs per case mapping and the meaning of all 255 characters per announcement are compared with reference tables; names and announcements are generated."
RULE = ("one evaluation per pair of names or per character whose meaning was compared; distinct = (case mapping, kind of difference) "
        "for names, (token, value shape) for announcements")
ASSUMPTIONS = ["announcements use the token grammar of the ISUPPORT draft; values are printable"]
prepare = drv.prepare

MAPS = {"": "rfc1459", "CASEMAPPING=rfc1459": "rfc1459", "CASEMAPPING=ascii": "ascii", "CASEMAPPING=strict-rfc1459": "strict-rfc1459",
        "CASEMAPPING": "rfc1459", "CASEMAPPING=ascii CASEMAPPING=rfc1459": "rfc1459", "CASEMAPPING=rfc1459 CASEMAPPING=ascii": "ascii",
        "CASEMAPPING=ascii NICKLEN=9 CASEMAPPING=strict-rfc1459": "strict-rfc1459"}
CHARS = [x for x in range(1, 256)]


def cases(tier, seed):
    n, k = (40, 2500) if tier == "quick" else (300, 12000)
    out = [{"seed": 0, "kind": "table", "tok": t, "n": 0} for t in sorted(MAPS)]
    out += [{"seed": seed * 577 + i, "kind": "names", "tok": sorted(MAPS)[i % len(MAPS)], "n": k} for i in range(n)]
    out += [{"seed": seed * 577 + i, "kind": "feat", "tok": "", "n": k // 50} for i in range(n)]
    return out


def bad(key, got, want, src):
    raise core.Violation(key, "%s\n got  %r\n want %r" % (src, got, want))


def run_table(p, case, cov):
    fold = TABLES[MAPS[case["tok"]]]
    p.tell("info", hx(case["tok"].encode()))
    t = p.ask("cmptab")
    k = 0
    for i in CHARS:
        for j in CHARS:
            want = bytes([i]).translate(fold) == bytes([j]).translate(fold)
            if (t[k] == "1") != want:
                bad("cmp:char", t[k] == "1", want, "comparing %r and %r under %s" % (bytes([i]), bytes([j]), case["tok"] or "no announced mapping"))
            k += 1
    cov.judge(("table", case["tok"]), k)
    cov.ev("character_pairs", k)


def run_names(r, p, case, cov):
    m = MAPS[case["tok"]]
    fold = TABLES[m]
    p.tell("info", hx(case["tok"].encode()))
    special = b"[]{}\\|^~_-`@AZaz\xc0\xe0"
    for _ in range(case["n"]):
        a = bytes(r.choice(special if r.random() < 0.5 else CHARS) for _ in range(r.randint(0, 12))) if r.random() < 0.7 else gen.nick(r).encode()
        k = r.choice(["same", "case", "flip", "prefix", "other", "one"])
        if k == "same":
            b = a
        elif k == "case":
            b = bytes(c if r.random() < 0.5 else r.choice([x for x in range(1, 256) if fold[x] == fold[c]] or [c]) for c in a)
        elif k == "flip":
            b = bytes(c ^ 0x20 if c ^ 0x20 else c for c in a)
        elif k == "prefix":
            b = a[:r.randint(0, len(a))]
        elif k == "one":
            b = bytearray(a or b"x")
            b[r.randrange(len(b))] = r.choice(CHARS)
            b = bytes(b)
        else:
            b = gen.nick(r).encode()
        want = a.translate(fold) == b.translate(fold)
        ab, ba, aa = p.ask("cmp", hx(a), hx(b))
        if (ab == 0) != want:
            bad("cmp:equal", ab == 0, want, "comparing %r and %r under %s" % (a, b, m))
        if (ba == 0) != want:
            bad("cmp:symmetric", ba == 0, want, "comparing %r and %r under %s" % (b, a, m))
        if aa != 0:
            bad("cmp:reflexive", aa, 0, "comparing %r with itself" % a)
        n = r.randint(0, 14)
        wn = a[:n].translate(fold) == b[:n].translate(fold)
        g = p.ask("ncmp", hx(a), hx(b), str(n))
        if (g == 0) != wn:
            bad("ncmp", g == 0, wn, "comparing %d characters of %r and %r under %s" % (n, a, b, m))
        cov.judge((case["tok"], k, want, wn, len(a) == len(b)), 4)
        cov.ev("names_compared")


FLAGS = ["FNC", "MAP", "SSL", "VBANLIST", "OVERRIDE", "WALLCHOPS", "WALLVOICES", "RFC2812", "PENALTY", "REMOVE", "SAFELIST", "USERIP", "CAPAB", "HCN",
         "CPRIVMSG", "CNOTICE", "KNOCK", "VCHANNELS", "WHOX", "CALLERID", "ACCEPT", "ESILENCE", "UHNAMES", "NAMESX", "SECURELIST"]
NUMS = ["NICKLEN", "USERLEN", "WATCH", "HOSTLEN", "CHANNELLEN", "AWAYLEN", "KICKLEN", "TOPICLEN", "MAXCHANNELS", "MAXTARGETS", "MAXBANS", "MODES",
        "MAXPARA", "KEYLEN", "SILENCE"]
STRS = ["NETWORK", "IRCD", "CHARSET", "CHANLIMIT", "STATUSMSG", "MAXLIST", "IDCHAN"]


def run_feat(r, p, case, cov):
    for _ in range(case["n"]):
        toks, ref = [], {}
        order = []
        for f in r.sample(FLAGS, r.randint(0, 8)):
            order.append((f, None))
        for f in r.sample(NUMS, r.randint(0, 8)):
            order.append((f, str(r.randint(1, 99999))))
        for f in r.sample(STRS, r.randint(0, 4)):
            order.append((f, "".join(r.choice("abcXYZ0-9:;,.#&@+!~*'/") for _ in range(r.randint(1, 12)))))
        for _ in range(r.choice([0, 1, 1, 2])):
            order.append(("CHANTYPES", "".join(r.sample("#&!+.~=*", r.randint(0, 4)))))
        for _ in range(r.choice([0, 1, 1, 2])):
            n = r.randint(0, 6)
            if n:
                order.append(("PREFIX", "(%s)%s" % ("".join(r.sample("qaohvYuX", n)), "".join(r.sample("~&@%+!*.=-", n)))))
            else:
                order.append(("PREFIX", ""))
        for _ in range(r.choice([0, 1, 1, 2])):
            ms = list("bcdefgijklmnprstwxyzABCDEFGIJKLMNOP")
            r.shuffle(ms)
            k = sorted(r.sample(range(len(ms)), 4))
            parts = ["".join(ms[:k[0]]), "".join(ms[k[0]:k[1]]), "".join(ms[k[1]:k[2]]), "".join(ms[k[2]:k[3]])]
            if r.random() < 0.2:
                parts.append("Q")
            order.append(("CHANMODES", ",".join(parts)))
        if r.random() < 0.3:
            order.append((r.choice(["EXCEPTS", "INVEX", "DEAF"]), r.choice([None, "x", "e", "D"])))
        if r.random() < 0.3:
            order.append(("ELIST", "".join(r.sample("MNUCT", r.randint(1, 5)))))
        if r.random() < 0.3:
            order.append(("EXTBAN", "~,%s" % "".join(r.sample("cqrnT", r.randint(1, 5)))))
        if r.random() < 0.6:
            order.append(("CASEMAPPING", r.choice(["rfc1459", "ascii", "strict-rfc1459"])))
        r.shuffle(order)
        for k, v in order:
            ref[k] = v
            toks.append(k if v is None else "%s=%s" % (k, v))
        for _ in range(r.choice([0, 0, 1, 3])):    # makes no sense: as if it was not there
            toks.insert(r.randrange(len(toks) + 1), r.choice(["PREFIX=ov)@+", "PREFIX=(ov@+", "PREFIX=(ov)@", "PREFIX=(o)@+", "PREFIX", "PREFIX=@+", "CHANMODES=b,k", "CHANMODES",
                                                              "CHANMODES=b,k,l", "CHANMODES=beIklimnpsta", "NOSUCHTHING=x"]))
        src = " ".join(toks)
        p.tell("info", hx(src.encode()))
        # meaning of every character
        ct = ref.get("CHANTYPES", "#&")
        pf = ref.get("PREFIX", "(ov)@+")
        pm, ps = pf[1:].split(")", 1) if pf else ("", "")
        cm = (ref.get("CHANMODES", "beI,k,l,imnpsta")).split(",")[:4]
        d = p.ask("feat")
        for i in CHARS:
            c = chr(i)
            want = [int(c in ct), int(c in ps), ord(ps[pm.index(c)]) if c in pm else 32, ord(pm[ps.index(c)]) if c in ps else 0,
                    int(c in pm), next((x + 1 for x, l in enumerate(cm) if c in l), 0)]
            if d[i - 1] != want:
                names = ["channel type", "prefix", "prefix of mode", "mode of prefix", "prefix mode", "mode class"]
                k = [x for x in range(6) if d[i - 1][x] != want[x]][0]
                bad("feature:" + names[k], d[i - 1][k], want[k], "%s %r after %s" % (names[k], c, src))
        cov.judge(("meaning", "CHANTYPES" in ref, len(pm), "CHANMODES" in ref), 255 * 6)
        for _ in range(6):
            ms = "".join(r.sample("qaohvYuXnt", r.randint(0, 5)))
            want = next((ord(ps[i]) for i in range(len(pm)) if pm[i] in ms), 0)
            got = p.ask("pfx", hx(ms.encode()))
            if got != want:
                bad("feature:highest prefix", got, want, "prefix of somebody with modes %r after %s" % (ms, src))
            cov.judge(("highest", len(ms), len(pm)))
        # announcing what was stored says everything that was said, and changes nothing
        s1 = un(p.ask("infostr")).decode("latin1")
        have = dict(x.split("=", 1) if "=" in x else (x, None) for x in s1.split(" "))
        for k, v in ref.items():
            if v == "" and k in have and have[k] in ("", None):
                continue
            if k == "CASEMAPPING" or v is not None:
                if k in ("EXCEPTS", "INVEX", "DEAF") or (k == "ELIST" and sorted(v) == sorted(have.get(k) or "")):
                    continue
                if have.get(k) != v:
                    bad("announce:" + k, have.get(k), v, "announced after %s: %s" % (src, s1))
            elif k in ("EXCEPTS", "INVEX", "DEAF"):
                if have.get(k) != {"EXCEPTS": "e", "INVEX": "I", "DEAF": "D"}[k]:
                    bad("announce:" + k, have.get(k), v, "announced after %s: %s" % (src, s1))
            elif k not in have:
                bad("announce:" + k, None, "announced", "announced after %s: %s" % (src, s1))
        have.pop("NOSUCHTHING", None)
        for k in have:
            if k not in ref and k not in ("CHANTYPES", "PREFIX", "CASEMAPPING"):
                bad("announce:invented", k, None, "announced after %s: %s" % (src, s1))
        p.tell("info", hx(s1.encode("latin1")))
        s2 = un(p.ask("infostr")).decode("latin1")
        if s1 != s2:
            bad("announce:twice", s2, s1, "announcing again after %s" % src)
        if p.ask("feat") != d:
            bad("announce:meaning changed", None, None, "announcing again after %s" % src)
        for k, v in order:
            cov.judge(("announce", k, v is None))
        cov.ev("announcements")


def run_case(case, cov):
    r = core.case_rng(case)
    with drv.Drv() as p:
        if case["kind"] == "table":
            run_table(p, case, cov)
        elif case["kind"] == "names":
            run_names(r, p, case, cov)
        else:
            run_feat(r, p, case, cov)
    if case["kind"] != "table":
        cov.sample("%s %s" % (case["kind"], case["tok"]))

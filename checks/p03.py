"""P03: nothing for anybody who has not presented the password; everything for those who have."""
import os, random, socket, struct, time
import build, core, e2e
from core import Violation

ID = "P03"
TECHNIQUE = "runtime monitoring: hostile and honest peers on every kind of entry (listeners with their own and the global password, SOCKS, unix socket) while traffic flows; a reference password checker judges every answer, and no byte of traffic may reach, nor any line leave for, a peer it has not accepted"
LEVEL = "exploration"
LEVEL_NOTE = "Randomized passwords, near-miss guesses, command orders, SOCKS exchanges and fragmentation; bounded by the generated histories."
RULE = "one evaluation per command of an unauthenticated peer (and per SOCKS exchange) whose answer was judged; distinct = (entry, password shape, guess kind or command, authenticated, outcome) combinations"
ASSUMPTIONS = ["a SOCKS password is compared up to an embedded NUL"]
CASE_LIMIT = 200
_bin = [None]


def prepare():
    _bin[0] = build.build_proxy("asan")


def cases(tier, seed):
    n, steps = (500, 45) if tier == "quick" else (1500, 120)
    return [{"seed": seed * 389 + i, "steps": steps} for i in range(n)]


def free_port():
    while True:
        p = random.SystemRandom().randint(10000, 30000)
        s = socket.socket()
        try:
            s.bind(("0.0.0.0", p))
            return p
        except OSError:
            continue
        finally:
            s.close()


PWS = ["secret", "Secret99", "a:b", "p:net0", "with space", ":lead", "trail:", "\u00e9t\u00e9", "x", "%s%n", "pass word:x:y", "k" * 200, "S3cr3t;!#", "secretsecret", "*"]


def accepts(pw, arg):
    """Does presenting arg present exactly the password pw (and maybe a network)?  -> (ok, network)"""
    i = arg.find(":")
    while i >= 0:
        if arg[:i] == pw:
            return True, arg[i + 1:]
        i = arg.find(":", i + 1)
    return arg == pw, None


def guesses(r, pw, others):
    g = [("empty", ""), ("prefix", pw[:-1]), ("suffix", pw[1:]), ("longer", pw + r.choice("x 0")), ("case", pw.swapcase()), ("reversed", pw[::-1]),
         ("colonlead", ":" + pw), ("netfirst", "net0:" + pw), ("prefixnet", pw[:-1] + ":net0"), ("longernet", pw + "x:net0"), ("space", " " + pw), ("first", pw[:1]),
         ("random", "".join(r.choice("abc:S 1") for _ in range(r.randint(1, 12)))), ("huge", "z" * r.randint(300, 450)), ("null", "(null)"),
         ("twice", pw + pw), ("quoted", '"%s"' % pw), ("wild", "*"), ("control", "\1" + pw), ("net", "net0"), ("colon", ":")]
    for o in others:
        g.append(("other", o))
        g.append(("othernet", o + ":net0"))
    return r.choice(g)


def run_case(case, cov):
    r = core.case_rng(case)
    w = e2e.World(_bin[0], "p03")
    with w:
        gpw = r.choice(PWS)
        own = r.choice([p for p in PWS if p != gpw])
        nets, cfg = [], []
        for i in range(2):
            s = w.server("s%d" % i)
            nets.append(s)
            cfg.append(("net%d" % i, {"nick": "me", "username": "u", "fullname": "F", "servers": "%s:%d" % (w.ip, s.port), "queue-speed": "0", "autoconnect": None}))
        glob = {"default-network": "net0", "autoconnect": "net0;net1", "replication": "none", "report-time": "never", "admin-log": "false", "create-implicit": "false",
                "password": gpw.replace("\\", "\\\\").replace(" ", "\\s")}
        rules = [("joe", r.choice(PWS)), ("ann", "annpw"), ("joe", "second")]
        extra = ""
        entries = [("main", w.lport, gpw, [])]
        sport = None
        if r.random() < .6:
            sport = free_port()
            extra = "[socks]\nport=%d\nallow=%s\n" % (sport, ";".join("%s:%s" % (u, p.replace("\\", "\\\\").replace(";", "\\;").replace(" ", "\\s")) for u, p in rules) + ";")
            # the peers may use one of the rules or the global password
            entries.append(("socks", sport, gpw, rules))
        w.write_config(glob, cfg, extra)
        w.nextport += 10
        with open(os.path.join(w.conf, "listener"), "w") as f:
            f.write("[%s:%d]\npassword=%s\nnetwork=net1\n\n[%s:%d]\nnetwork=net1\n" % (w.ip, w.nextport, own.replace(" ", "\\s"), w.ip, w.nextport + 1))
        entries.append(("ownpw", w.nextport, own, []))
        entries.append(("nopw", w.nextport + 1, gpw, []))
        entries.append(("unix", None, gpw, []))
        w.start()
        for s in nets:
            w.pump(lambda: s.conn)
            w.login_server(s.conn, "me")
            s.conn.send(":me!u@real.host JOIN #main", ":irc.test 353 me = #main :me @op", ":irc.test 366 me #main :End")
            w.sync_server(s.conn)
            s.conn.take()
        everyone = [gpw, own] + [p for _, p in rules]
        friends = []
        for i in range(2):
            c = w.connect("friend%d" % i)
            c.send("PASS :%s:net%d" % (gpw, i), "NICK me", "USER u 0 * :f")
            w.sync_client(c)
            friends.append(c)
        w.admin("ECHO x")
        before = w.admin("NETWORK LIST")
        tagn = [0]
        peers = []      # unauthenticated peers that stay around

        kinds = ["main", "main", "ownpw", "nopw", "unix"] + (["socks"] if sport else [])

        def open_peer(kind=None):
            e = r.choice([x for x in entries if kind is None or x[0] == kind])
            if e[0] == "unix":
                c = w.connect_unix(os.path.join(w.conf, "socket"), "peer-unix")
            elif e[0] == "socks":
                s = socket.socket()
                s.connect(("127.0.0.1", e[1]))
                c = e2e.Conn(w, s, "peer-socks")
            else:
                c = w.connect("peer-" + e[0], port=e[1])
            c.entry = e
            return c

        def bye(c, *last):
            if last:
                c.send(*last)
            c.close()
            w.nudge()
            w.nudge()

        def put(c, data):
            if r.random() < .3:
                i = 0
                while i < len(data):
                    k = r.randint(1, 12)
                    c.send_raw(data[i:i + k])
                    i += k
                    if r.random() < .1:
                        w.pump(lambda: True)
            else:
                c.send_raw(data)

        def traffic():
            """Things an outsider must not see."""
            tagn[0] += 1
            for i, s in enumerate(nets):
                s.conn.send(":x!y@z PRIVMSG #main :PRIVATE%d" % tagn[0])
            friends[0].send("PRIVMSG #main :PRIVATE%d-friend" % tagn[0])

        def outside(c, what):
            for l in c.lines:
                if b"PRIVATE" in l.raw or (l.args and (l.args[0] in (b"001", b"002", b"003", b"004", b"005", b"376", b"422", b"353", b"JOIN", b"PRIVMSG") or b"PASS OK" in l.raw)):
                    raise Violation("leak:" + c.entry[0], "a peer that was not accepted (%s) received %r" % (what, l.raw))
            if b"PRIVATE" in c.inbuf:
                raise Violation("leak:" + c.entry[0], "a peer that was not accepted received %r" % c.inbuf)

        def no_effect(what):
            for i, s in enumerate(nets):
                w.sync_server(s.conn)
                for l in s.conn.take():
                    if b"PRIVATE" in l.raw:
                        continue
                    if b"UNAUTH" in l.raw or l.args[0] in (b"JOIN", b"PRIVMSG", b"NICK", b"QUIT", b"OPER"):
                        raise Violation("forwarded", "net%d's server received %r (%s)" % (i, l.raw, what))
            for c in friends:
                w.sync_client(c)
                for l in c.take():
                    if b"UNAUTH" in l.raw:
                        raise Violation("forwarded-to-client", "a client received %r (%s)" % (l.raw, what))

        def wait_lines(c, n, what):
            start = c.pos
            w.pump(lambda: len(c.lines) - start >= n or c.closed, limit=20, what="answer to an unauthenticated %s" % what)
            return c.take()

        def passline(arg):
            if arg == "" or " " in arg or arg.startswith(":") or r.random() < .4:
                arg = ":" + arg
            return r.choice(["PASS ", "PASS ", "pass ", "Pass  ", ":x!y@z PASS "]) + arg + r.choice(["\r\n", "\r\n", "\n"])

        def one(c):
            """One command of an unauthenticated peer."""
            name, port, pw, _ = c.entry
            tagn[0] += 1
            t = "UNAUTH%d" % tagn[0]
            if r.random() < .6:
                kind, arg = guesses(r, pw, [p for p in everyone if p != pw])
                ok, net = accepts(pw, arg)
                line = passline(arg)
                if len(line.encode()) > 500:
                    return c
                if ok:
                    return None
                put(c, line.encode())
                got = wait_lines(c, 1, "PASS (%s)" % kind)
                desc = "entry %s, password %r, guess %r (%s): got %r" % (name, pw, arg, kind, [l.raw for l in got])
                if any(b"PASS OK" in l.raw for l in got):
                    raise Violation("accepted-wrong:" + name, desc)
                if len(got) != 1 or got[0].args[0] != b"464":
                    raise Violation("refusal:" + name, desc)
                cov.judge((name, PWS.index(pw), kind, "refused"))
                cov.ev("wrong_guesses")
            else:
                cmd = r.choice(["NICK %s", "USER %s 0 * :x", "JOIN #%s", "PRIVMSG #main :%s", "PRIVMSG ctrlproxy :ECHO %s", "CTRLPROXY NETWORK ADD %s", "CTRLPROXY DIE %s",
                                "QUIT :%s", "PING %s", "PONG %s", "CONNECT net1 %s", "OPER %s x", "AWAY :%s", "NICK", "PASSWORD %s", "PAS %s", "PASS", "FOO%s", "\1%s\1", "CAP LS", "WHO %s",
                                ":me!u@real.host PRIVMSG #main :%s", "AUTHENTICATE %s", "CTRLPROXY SET password %s", "CTRLPROXY NETWORK DEL net1 %s"])
                line = cmd % t if "%s" in cmd else cmd
                put(c, line.encode() + b"\r\n")
                got = wait_lines(c, 1, cmd)
                want = b"461" if cmd == "PASS" else b"451"
                if len(got) != 1 or got[0].args[0] != want:
                    raise Violation("answer:" + name, "entry %s, not authenticated, said %r: got %r, expected one %s" % (name, line, [l.raw for l in got], want.decode()))
                cov.judge((name, cmd.split()[0] if cmd.split() else "", "refused"))
                cov.ev("commands_refused")
            return c

        def right(c):
            name, port, pw, _ = c.entry
            net = r.choice([None, "net0", "net1", "NET1", "nowhere"])
            if net is None and accepts(pw, pw)[1] is not None:
                net = "net0"
            arg = pw if net is None else pw + ":" + net
            put(c, passline(arg).encode())
            got = wait_lines(c, 1, "right PASS")
            desc = "entry %s, password %r, presented %r: got %r" % (name, pw, arg, [l.raw for l in got])
            ok, n2 = accepts(pw, arg)
            if n2 == "nowhere":
                if len(got) != 1 or got[0].args[0] != b"464":
                    raise Violation("unknown-network", desc)
                w.pump(lambda: c.closed, what="end of the connection for an unknown network")
            else:
                if len(got) < 1 or b"PASS OK" not in got[0].raw:
                    raise Violation("refused-right:" + name, desc)
                if n2 is None and name in ("unix", "socks"):
                    # there is no network to go to
                    cov.judge((name, PWS.index(pw), net, "accepted"))
                    c.send("NICK me", "USER u 0 * :f")
                    w.pump(lambda: c.closed, what="end of a client that selected no network")
                    return
                c.send("NICK me", "USER u 0 * :f")
                w.sync_client(c)
                w001 = [l for l in c.take() if l.args and l.args[0] == b"001"]
                expnet = {"net0": b"net0", "net1": b"net1", "NET1": b"net1", None: {"main": b"net0", "ownpw": b"net1", "nopw": b"net1"}.get(name)}[net if n2 is not None or net is None else None]
                if expnet is not None and not w001:
                    raise Violation("no-welcome:" + name, desc + "\nbut no welcome followed")
                traffic()
                w.sync_client(c)
                if expnet is not None:
                    for s in nets:
                        w.sync_server(s.conn)
                    w.sync_client(c)
                    if not any(b"PRIVATE%d" % tagn[0] in l.raw for l in c.take()):
                        raise Violation("no-traffic:" + name, desc + "\nbut no traffic followed")
                cov.judge((name, PWS.index(pw), net, "accepted"))
                cov.ev("accepted")
            bye(c)
            for s in nets:
                w.sync_server(s.conn)
                s.conn.take()
            for f in friends:
                w.sync_client(f)
                f.take()

        def raw_wait(c, n, what):
            w.pump(lambda: len(rawdata(c)) >= n or c.closed, limit=20, what=what)
            return rawdata(c)

        def rawdata(c):
            return b"\n".join([l.raw for l in c.lines] + [c.inbuf]) if c.lines else c.inbuf

        def socks():
            c = open_peer(r.choice(["main", "ownpw", "nopw", "unix"] + (["socks"] * 4 if sport else [])))
            name, port, pw, rls = c.entry
            methods = r.choice([[2], [0, 2], [2, 0], [0], [], [1], [3, 2, 0x80], [255], list(range(256))[:255], [0] * 10])
            put(c, bytes([5, len(methods)]) + bytes(methods))
            if 2 not in methods:
                got = raw_wait(c, 2, "SOCKS method reply")
                w.pump(lambda: c.closed, what="refusal of SOCKS methods")
                if got[:2] != b"\5\xff" or len(got) != 2:
                    raise Violation("socks-methods", "%s: methods %r: got %r" % (name, methods, got))
                cov.judge((name, "socks-nomethod", tuple(methods[:3])))
                return
            got = raw_wait(c, 2, "SOCKS method reply")
            if got != b"\5\2":
                raise Violation("socks-methods", "%s: methods %r: got %r" % (name, methods, got))
            k = r.random()
            good = [(u, p) for u, p in rls] + [(u, pw) for u in ("", "joe", "nobody", "x" * 200)]
            user, p = r.choice(good)
            what = "right"
            if k < .5:
                what, p = guesses(r, p, [])
                if r.random() < .3:
                    what, user, p = "mixed", r.choice(["ann", "joe", "JOE", "", "joe:second"]), r.choice([x for x in everyone] + ["annpw", "second", "ANNPW"])
            elif k < .65:
                # no proper authentication at all
                blob = r.choice([b"\5\1\0\3\4net0\x1a\x0b", b"\5\1\0\1\x7f\0\0\1\x1a\x0b", b"\0" * 20, b"\1\0\0", b"\1\1\0\0", b"\5\0", b"\2\1a\1b", b"\1\3joe\0", b"PASS %s\r\n" % pw.encode(),
                                 bytes(r.randrange(256) for _ in range(r.randint(1, 60)))])
                put(c, blob + r.choice([b"", b"\5\1\0\3\4net0\x1a\x0bNICK x\r\nUSER x x x x\r\nPRIVMSG #main :UNAUTHsocks\r\n"]))
                traffic()
                no_effect("SOCKS without authentication: %r" % blob)
                w.pump(lambda: True)
                x = rawdata(c)[2:]
                if b"PRIVATE" in x or b" 001 " in x or x[:2] == b"\1\0" or (x[:1] == b"\5" and x[1:2] == b"\0"):
                    raise Violation("socks-leak", "%s: SOCKS peer sent %r and got %r" % (name, blob, x))
                cov.judge((name, "socks-blob", blob[:2]))
                c.close()       # (the proxy may be closing it as well)
                w.nudge()
                return
            u, q = user.encode(), p.encode()
            if len(u) > 255 or len(q) > 255:
                bye(c)
                return
            ok = (user, p) in rls or p == pw
            tail = b"\5\1\0\3" + bytes([4]) + b"net0" + struct.pack(">H", 6667) if r.random() < .3 else b""
            if not ok and tail:
                tail += b"NICK me\r\nUSER x x x x\r\nPRIVMSG #main :UNAUTHsocks\r\n"
            put(c, bytes([r.choice([1, 1, 5]), len(u)]) + u + bytes([len(q)]) + q + tail)
            got = raw_wait(c, 4, "SOCKS authentication reply")[2:]
            desc = "%s (password %r, rules %r): SOCKS user %r password %r: got %r" % (name, pw, rls, user, p, got)
            cov.judge((name, "socks", what, bool(rls), ok, user in dict(rls)))
            if not ok:
                cov.ev("socks_refused")
                if got[:2] != b"\1\1" and not (tail and got == b"" and c.closed):
                    raise Violation("socks-accepted-wrong", desc)
                traffic()
                no_effect(desc)
                w.pump(lambda: c.closed, what="end of a refused SOCKS connection")
                if len(rawdata(c)) > 4:
                    raise Violation("socks-leak", desc + "\nthen %r" % rawdata(c))
                return
            cov.ev("socks_accepted")
            if got[:2] != b"\1\0":
                raise Violation("socks-refused-right", desc)
            if not tail and r.random() < .3:
                h = r.choice([b"nowhere.invalid", b"net", b"net00", b"", b"net0\0", b"x" * 255])
                blob = r.choice([b"\5\1\0\3" + bytes([len(h)]) + h + struct.pack(">H", 6667)] * 2 + [b"\5\2\0\3\4net0\x1a\x0b", b"\5\0\0\3\4net0\x1a\x0b", b"\5\3\0\3\4net0\x1a\x0b", b"\5\1\0\1\x7f\0\0\1\x1a\x0b", b"\5\1\0\4" + b"\0" * 16 + b"\x1a\x0b",
                                 b"\4\1\0\3\4net0\x1a\x0b", b"\5\1\0\x37\4net0\x1a\x0b"])
                real = h == b"net0\0" and blob[1:4] == b"\1\0\3" and blob[4] == 5      # (ends at the NUL)
                if not real:
                    put(c, blob)
                    traffic()
                    x = raw_wait(c, 6, "refusal of a SOCKS request")[4:]
                    w.pump(lambda: c.closed, what="end of a SOCKS connection to nowhere")
                    if x and x[:1] != b"\5" or x[1:2] == b"\0" or b"PRIVATE" in x:
                        raise Violation("socks-nowhere", desc + "\nrequest %r got %r" % (blob, x))
                    cov.judge((name, "socks-nowhere", blob[:4]))
                    return
            if not tail:
                put(c, b"\5\1\0\3" + bytes([4]) + b"net0" + struct.pack(">H", 6667))
            x = raw_wait(c, 14, "SOCKS connect reply")[4:]
            if x[:2] != b"\5\0":
                raise Violation("socks-connect", desc + "\nconnect got %r" % x)
            c.inbuf = b""
            c.lines.clear()
            c.pos = 0
            c.send("NICK me", "USER u 0 * :f")
            w.sync_client(c)
            if not any(l.args and l.args[0] == b"001" for l in c.take()):
                raise Violation("no-welcome:socks", desc)
            bye(c)
            for s in nets:
                w.sync_server(s.conn)
                s.conn.take()

        for _ in range(case["steps"]):
            k = r.random()
            if k < .15 and len(peers) < 5:
                peers.append(open_peer(r.choice(kinds)))
            elif k < .65 and peers:
                c = r.choice(peers)
                if r.random() < .5:
                    traffic()
                one(c)
                if r.random() < .4:
                    no_effect("unauthenticated peer")
                outside(c, "commands")
            elif k < .75 and peers:
                c = peers.pop(r.randrange(len(peers)))
                outside(c, "before the password")
                right(c)
            elif k < .80 and peers:
                c = peers.pop(r.randrange(len(peers)))
                outside(c, "until it left")
                bye(c, *([] if r.random() < .5 else ["QUIT :UNAUTH bye"]))
            elif k < .85:
                # everything at once, the password coming last
                c = open_peer(r.choice(kinds))
                pw = c.entry[2]
                tagn[0] += 1
                put(c, ("JOIN #UNAUTH%d\r\nPRIVMSG #main :UNAUTH%d\r\nCTRLPROXY NETWORK ADD UNAUTH%d\r\n" % ((tagn[0],) * 3)).encode() + ("PASS :%s:net0\r\n" % pw).encode() + b"NICK me\r\nUSER u 0 * :f\r\n")
                w.sync_client(c)
                got = c.take()
                if [l.args[0] for l in got[:3]] != [b"451"] * 3 or not any(l.args and l.args[0] == b"001" for l in got):
                    raise Violation("pipelined", "entry %s, password %r: got %r" % (c.entry[0], pw, [l.raw for l in got[:6]]))
                no_effect("commands sent ahead of the password")
                cov.judge((c.entry[0], "pipelined"))
                bye(c)
            else:
                socks()
        no_effect("at the end")
        for c in peers:
            w.pump(lambda: True)
            outside(c, "at the end")
        after = w.admin("NETWORK LIST")
        if [l.split()[0:1] for l in after] != [l.split()[0:1] for l in before]:
            raise Violation("settings-changed", "networks before %r, after %r" % (before, after))
        cov.sample("password %r, own %r, rules %r" % (gpw, own, rules))
        w.stop()

"""P11: every connection is a lossless FIFO stream, whatever the kernel does to reads and writes."""
import collections, os, time
import build, core, e2e, gen
from core import Violation

ID = "P11"
TECHNIQUE = "runtime monitoring with fault injection: short and refused reads and writes, small kernel buffers, stalled readers and closes with output pending; an offline checker compares every received stream with what was sent"
LEVEL = "exploration"
LEVEL_NOTE = "Randomized traffic under randomized socket behaviour (short/refused reads and writes injected below GLib, real full kernel buffers); bounded by the generated histories."
RULE = "one evaluation per stream segment (all lines of one source at one receiver) compared; distinct = (receiver, source, socket family, fault profile, stalled, ending, size class) combinations"
ASSUMPTIONS = ["a peer that has itself closed or reset its connection gets a prefix of its stream"]
CASE_LIMIT = 240
_bin = [None]


def prepare():
    _bin[0] = build.build_proxy("asan")


def cases(tier, seed):
    n, steps = (400, 18) if tier == "quick" else (1600, 40)
    return [{"seed": seed * 769 + i, "steps": steps} for i in range(n)]


class Rx:
    """A receiver: what it must get, per source."""

    def __init__(self, conn, kind, fam):
        self.conn, self.kind, self.fam = conn, kind, fam
        self.exp = collections.OrderedDict()    # source -> deque of args
        self.pos = len(conn.lines)
        self.log = []                           # every tagged line, in order of arrival
        self.gone = False
        self.cs = None                          # character set, when not UTF-8

    def want(self, src, args):
        if self.cs:
            try:
                args = tuple(a.decode().encode(self.cs) for a in args)
            except UnicodeEncodeError:
                return                          # cannot be written in that character set: left out
        self.exp.setdefault(src, collections.deque()).append(args)

    def settle(self, cov, faults, complete=True, what="", partial=(), torn=False):
        """Consume what arrived; each source's lines must come in order and (if complete) all."""
        n = collections.Counter()
        while self.pos < len(self.conn.lines):
            l = self.conn.lines[self.pos]
            self.pos += 1
            a = tuple(l.args)
            if not (len(a) > 2 and a[0] in (b"PRIVMSG", b"NOTICE") and a[2].startswith(b"T")):
                if a and (a[0] in (b"PING", b"PONG", b"ERROR", b"QUIT", b"NICK", b"MODE", b"USER", b"PASS", b"JOIN", b"USERHOST") or a[0].isdigit() or (a[0] == b"NOTICE" and b"T" != a[-1][:1])):
                    continue
                if torn and len(a) < 3:
                    torn = False
                    continue
                raise Violation("corrupt", "%s received a line nobody sent: %r" % (self.conn.name, l.raw))
            src = a[2].split(b":", 1)[0]
            q = self.exp.get(src)
            if torn and q and q[0][:2] == a[:2] and q[0][2].startswith(a[2]) and q[0] != a:
                # what was left of a line when the connection broke
                q.clear()
                torn = False
                continue
            if not q or q[0] != a:
                kind = "unexpected"
                if q and a in q:
                    kind = "lost"
                elif a in self.log[-3000:]:
                    kind = "duplicated"
                elif q is not None:
                    kind = "corrupt"
                raise Violation(kind, "%s (%s, faults %r%s) received\n  %r\nexpected next from %r:\n  %r" % (
                    self.conn.name, self.fam, faults, what, a, src, list(q)[:2] if q else None))
            q.popleft()
            self.log.append(a)
            n[src] += 1
        for src, q in self.exp.items():
            if complete and q and src not in partial:
                raise Violation("lost-tail", "%s (%s, faults %r%s) never received %d lines of %r, next:\n  %r" % (
                    self.conn.name, self.fam, faults, what, len(q), src, q[0]))
            if n[src]:
                cov.judge((self.kind, src[:2], self.fam, tuple(sorted(k for k, v in faults.items() if v)), what, min(n[src], 1000) // 50), n=1)
        cov.ev("lines_checked", sum(n.values()))


def run_case(case, cov):
    r = core.case_rng(case)
    w = e2e.World(_bin[0], "p11")
    with w:
        faults = {}
        tiny = r.random() < .35     # few lines, in very small pieces

        def set_faults():
            faults.clear()
            f = {"wr_cap": r.choice([0, 1, 2, 7, 40] if tiny else [0, 0, 64, 511, 600]), "rd_cap": r.choice([0, 1, 3, 20] if tiny else [0, 0, 64, 511, 512, 513]),
                 "wr_eagain": r.choice([0, 0, 2, 3, 7]), "rd_eagain": r.choice([0, 0, 2, 3, 5])}
            for k, v in f.items():
                w.vctl.set(k, v)
                faults[k] = v

        small = 0 if tiny else r.choice([0, 0, 4096, 1, 20000])
        w.vctl.set("sndbuf", small)
        faults0 = small
        nets = []
        cfg = []
        for i in range(2):
            s = w.server("s%d" % i)
            if r.random() < .6 and not tiny:
                s.lsock.setsockopt(e2e.socket.SOL_SOCKET, e2e.socket.SO_RCVBUF, 4096)
            nets.append({"name": "net%d" % i, "srv": s, "nick": "me", "clients": [], "alive": True})
            cfg.append(("net%d" % i, {"nick": "me", "username": "u", "fullname": "f", "servers": "%s:%d" % (w.ip, s.port), "queue-speed": "0",
                                      "reconnect-interval": "1"}))
        w.write_config({"default-network": "net0", "autoconnect": "net0;net1", "replication": "none", "report-time": "never", "admin-log": "false"}, cfg)
        w.start()
        if r.random() < .5:
            set_faults()
        tagn = [0]

        def login(n):
            c = n["srv"].conn
            w.login_server(c, "me")
            c.send(":irc.test 302 me :me=+u@real.host")
            c.send(":me!u@real.host JOIN #main", ":irc.test 353 me = #main :me @op", ":irc.test 366 me #main :End")
            w.sync_server(c)
            n["rx"] = Rx(c, "server", "tcp")
            n["alive"] = True

        for n in nets:
            w.pump(lambda: n["srv"].conn)
            login(n)

        def attach(n):
            saved = dict(faults)
            for k in saved:
                w.vctl.set(k, 0)        # the handshake is P03's business
            fam = r.choice(["tcp", "unix"] if tiny else ["tcp", "tcp-small", "unix"])
            if fam == "unix":
                c = w.connect_unix(os.path.join(w.conf, "socket"), "cl%d" % len(w.conns))
            else:
                c = w.connect("cl%d" % len(w.conns), rcvbuf=2048 if fam == "tcp-small" else None)
            c.send("PASS secret:%s" % n["name"], "NICK me", "USER u 0 * :f")
            w.sync_client(c)
            for k, v in saved.items():
                w.vctl.set(k, v)
            x = Rx(c, "client", fam)
            x.net = n
            tagn[0] += 1
            x.src = "TC%d" % tagn[0]
            n["clients"].append(x)
            if r.random() < .3:
                c.send("CTRLPROXY CHARSET ISO-8859-1")
                w.sync_client(c)
                x.cs = "iso-8859-1"
                x.pos = len(c.lines)
                cov.ev("other_charset")
            cov.ev("attach_" + fam)
            return x

        for _ in range(r.randint(1, 3)):
            attach(nets[0])
        if r.random() < .7:
            attach(nets[1])
        cnt = [0]
        euro = r.choice([0, .02, .2, .6])
        gone = set()        # sources that left before all they sent had to be processed

        def body(src, wide=True):
            cnt[0] += 1
            if wide and r.random() < euro:
                return "%s:%d:\u20ac" % (src, cnt[0])
            k = r.random()
            pad = 0 if k < .3 else (r.randint(1, 60) if k < .6 else r.randint(100, 400))
            return "%s:%d:%s" % (src, cnt[0], "".join(r.choice("abc xyz:\x02\u00e9,") for _ in range(min(pad, 40))) + "p" * max(0, pad - 40))

        def put(c, lines, cs="utf-8"):
            data = b"".join(l.encode(cs) + (b"\r\n" if r.random() < .9 else b"\n") for l in lines)
            if len(data) < 30000 and r.random() < .5:
                i = 0
                while i < len(data):
                    k = r.randint(1, 200)
                    c.send_raw(data[i:i + k])
                    i += k
                    if r.random() < .02:
                        w.pump(lambda: True)
            else:
                c.send_raw(data)

        def server_burst(n, count):
            lines = []
            for _ in range(count):
                b = body("TS%s" % n["name"])
                cmd = r.choice(["PRIVMSG", "NOTICE"])
                lines.append(":x%d!u@h.example %s #main :%s" % (cnt[0] % 7, cmd, b))
                for x in n["clients"]:
                    if not x.gone:
                        x.want(b.split(":")[0].encode(), (cmd.encode(), b"#main", b.encode()))
            put(n["srv"].conn, lines)
            cov.ev("server_lines", count)

        def client_burst(x, count):
            n = x.net
            lines = []
            for _ in range(count):
                b = body(x.src, not x.cs)
                cmd = r.choice(["PRIVMSG", "NOTICE"])
                lines.append("%s #main :%s" % (cmd, b))
                a = (cmd.encode(), b"#main", b.encode())
                n["rx"].want(x.src.encode(), a)
                for y in n["clients"]:
                    if y is not x and not y.gone:
                        y.want(x.src.encode(), a)
            put(x.conn, lines, x.cs or "utf-8")
            cov.ev("client_lines", count)

        def live():
            return [x for n in nets for x in n["clients"] if not x.gone]

        def sync():
            """Everything sent has been processed and, where somebody reads, received."""
            for x in live():
                if x.conn.reading:
                    w.sync_client(x.conn)
            for n in nets:
                if n["alive"] and n["rx"].conn.reading:
                    w.sync_server(n["rx"].conn)
            for x in live():
                if x.conn.reading:
                    w.sync_client(x.conn)

        def judge():
            sync()
            # who does not read cannot tell whether all it sent was processed already
            part = gone | {b"TS%s" % n["name"].encode() for n in nets if n["alive"] and not n["rx"].conn.reading} | {
                x.src.encode() for x in live() if not x.conn.reading}
            for n in nets:
                if n["alive"] and n["rx"].conn.reading:
                    n["rx"].settle(cov, dict(faults, sndbuf=faults0), partial=part)
            for x in live():
                if x.conn.reading:
                    x.settle(cov, dict(faults, sndbuf=faults0), partial=part)
            order()

        def order():
            """Clients of one network see the lines of different sources in one common order."""
            for n in nets:
                xs = [x for x in n["clients"] if not x.gone and x.conn.reading]
                for a, b in zip(xs, xs[1:]):
                    sa, sb = set(a.log), set(b.log)
                    la, lb = [l for l in a.log if l in sb], [l for l in b.log if l in sa]
                    if la != lb:
                        i = next((i for i, (p, q) in enumerate(zip(la, lb)) if p != q), min(len(la), len(lb)))
                        raise Violation("order", "two clients of one network saw lines in different orders:\n%r\n%r" % (la[i:i + 3], lb[i:i + 3]))

        def stalled():
            """Clients and servers that do not read at the moment."""
            return [x for x in live() if not x.conn.reading] + [n["rx"] for n in nets if n["alive"] and not n["rx"].conn.reading]

        def processed(n):
            """All server lines have been processed, though some receivers do not read."""
            if n["alive"] and n["rx"].conn.reading:
                w.sync_server(n["rx"].conn)

        def finish(x, how):
            """A client that does not read leaves while output to it is pending."""
            n = x.net
            processed(n)
            for y in live():
                if y.conn.reading:
                    w.sync_client(y.conn)
            cov.ev("leave_" + how)
            if how == "quit":
                x.conn.send("QUIT :bye")
                sure = {y.src.encode() for y in n["clients"] if y.conn.reading}
                if n["alive"] and n["rx"].conn.reading:
                    sure.add(b"TS%s" % n["name"].encode())
                need = {k: len(q) for k, q in x.exp.items() if k in sure}
                if n["alive"] and r.random() < .5:
                    server_burst(n, 5)          # may or may not reach it any more
                x.gone = True
                n["clients"].remove(x)
                x.conn.reading = True
                w.pump(lambda: x.conn.closed, what="the rest of the output after QUIT")
                had = {k: len(q) for k, q in x.exp.items()}
                x.settle(cov, dict(faults, sndbuf=faults0), complete=False, what="quit")
                for k, q in x.exp.items():
                    if had[k] - len(q) < need.get(k, 0):
                        raise Violation("lost-tail", "%s left with QUIT and never received %d lines of %r sent to it before, next\n  %r" % (
                            x.conn.name, need[k] - had[k] + len(q), k, q[0]))
                return
            x.gone = True
            gone.add(x.src.encode())
            n["clients"].remove(x)
            w.pump(lambda: not x.conn.out, what="the proxy to read from a client")
            x.conn.close(rst=(how == "rst"))
            x.settle(cov, dict(faults, sndbuf=faults0), complete=False, what=how)

        adms = []

        def admin_burst(count):
            """An administration session whose output is read late, if at all."""
            a = {"conn": w.connect_unix(os.path.join(w.conf, "admin"), "admin"), "exp": []}
            a["conn"].reading = False
            data = b""
            for _ in range(count):
                b = body("TA").encode()
                a["exp"].append(b.strip())
                data += b"ECHO " + b + b"\n"
            a["conn"].send_raw(data)
            a["half"] = r.random() < .4
            adms.append(a)
            cov.ev("admin_lines", count)

        def admin_settle():
            for a in adms:
                c = a["conn"]
                w.pump(lambda: not c.out, what="the administration commands to be read")
                if a["half"]:
                    c.sock.shutdown(e2e.socket.SHUT_WR)
                c.reading = True
                w.pump(lambda: len(c.lines) >= len(a["exp"]) or c.closed, what="the administration output")
                got = [l.raw.strip() for l in c.lines]
                if got != a["exp"]:
                    i = next((i for i, (p, q) in enumerate(zip(got, a["exp"])) if p != q), min(len(got), len(a["exp"])))
                    raise Violation("admin-output", "faults %r: administration output differs at line %d of %d (got %d):\n%r\nexpected\n%r" % (
                        faults, i, len(a["exp"]), len(got), got[i:i + 2], a["exp"][i:i + 2]))
                cov.judge(("admin", a["half"], len(got) // 100, tuple(sorted(k for k, v in faults.items() if v))))
                if not a["half"]:
                    c.close()
                else:
                    w.pump(lambda: c.closed, what="the end of the administration session")
            adms.clear()

        big = r.random() < .25
        for step in range(case["steps"]):
            k = r.random()
            n = nets[0] if r.random() < .8 else nets[1]
            cl = [x for x in n["clients"]]
            if k < .3:
                if n["alive"]:
                    server_burst(n, r.choice([1, 5, 10] if tiny else [1, 5, 30, 30, 200] + ([1500] if big else [])))
            elif k < .55 and cl and n["alive"]:
                client_burst(r.choice(cl), r.choice([1, 5, 10] if tiny else [1, 5, 30, 100] + ([800] if big else [])))
            elif k < .65:
                y = [x for x in live() if x.conn.reading]
                if y:
                    x = r.choice(y)
                    w.sync_client(x.conn)
                    x.conn.reading = False
                    cov.ev("stall_client")
            elif k < .72:
                if n["alive"] and n["rx"].conn.reading:
                    w.sync_server(n["rx"].conn)
                    n["rx"].conn.reading = False
                    cov.ev("stall_server")
            elif k < .82:
                for y in stalled():
                    y.conn.reading = True
                judge()
            elif k < .86:
                set_faults()
            elif k < .885:
                admin_settle()
            elif k < .91:
                admin_burst(r.choice([1, 5, 20]) if tiny else r.choice([5, 100, 1000]))
            elif k < .96:
                st = [x for x in live() if not x.conn.reading]
                if st and len(live()) > 1:
                    finish(r.choice(st), r.choice(["quit", "quit", "close", "rst"]))
                elif len(live()) < 4:
                    attach(n)
            else:
                # all others are still served
                t0 = time.time()
                judge()
                if w.admin("ECHO alive") != [b"alive"]:
                    raise Violation("stuck", "the administration socket does not answer")
                cov.ev("service_checks_with_stalled", 1 if stalled() else 0)
        end = r.choice(["judge"] * 4 + ["term", "server-close", "server-rst", "disconnect", "clients-rst"])
        n = nets[0]
        admin_settle()
        if end == "judge":
            for y in stalled():
                y.conn.reading = True
            judge()
        elif end == "term":
            w.stop()
        elif end in ("server-close", "server-rst"):
            for x in n["clients"]:
                w.sync_client(x.conn) if x.conn.reading else None
            w.pump(lambda: not n["srv"].conn.out, what="the proxy to read from the server")
            n["srv"].conn.close(rst=end == "server-rst")
            n["alive"] = False
            n["rx"].settle(cov, dict(faults, sndbuf=faults0), complete=False, what=end)
            for y in stalled():
                y.conn.reading = True
            sync()
            for x in live():
                x.settle(cov, dict(faults, sndbuf=faults0), complete=(x.net is not n), what=end, partial=gone, torn=True)
        elif end == "disconnect":
            w.admin("DISCONNECT net0")
            for y in stalled():
                y.conn.reading = True
            w.pump(lambda: n["rx"].conn.closed, what="the end of the connection after DISCONNECT")
            n["alive"] = False
            n["rx"].settle(cov, dict(faults, sndbuf=faults0), complete=False, what=end)
            for x in live():
                w.sync_client(x.conn)
        elif end == "clients-rst":
            for x in live():
                if len(n["clients"]):
                    x.conn.close(rst=r.random() < .5)
                    x.gone = True
            for y in nets:
                y["rx"].conn.reading = True
            w.nudge()
        cov.ev("end_" + end)
        for k in ("n_short_write", "n_short_read", "n_eagain"):
            cov.ev(k, w.vctl.get(k))
        if end != "term":
            w.nudge()
            w.vctl.set("wr_cap", 0)
            w.stop()
        cov.sample(repr(dict(case, faults=faults, end=end)))

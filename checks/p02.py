import json, os, random, time
import build, e2e, gen
from hostile import b
from hostile_client import HostileClient
from core import Violation

ID = "P02"
TECHNIQUE = "ASan/UBSan-instrumented proxy under generated hostile user input on every entry point, with liveness monitors"
LEVEL = "exploration"
LEVEL_NOTE = ("Pre-login bytes, SOCKS, client IRC lines and administration commands through all interfaces, arbitrarily fragmented; "
              "memory errors, UB, aborts, hangs and collateral damage to another network's client are detected; only generated input is covered.")
RULE = ("one evaluation per hostile input survived (followed by probes: the other network's client still exchanges messages, a fresh login works, the administration socket answers); "
        "distinct = (entry point, command or shape, parameter count) combinations survived")
ASSUMPTIONS = ["commands that end the proxy by design (DIE, and stopping the listener or changing the password the rig logs in with) are not generated"]
CASE_LIMIT = 200
BIN = PLAIN = None


def prepare():
    global BIN, PLAIN
    BIN = build.build_proxy()
    PLAIN = build.build_proxy("plain")


def cases(tier, seed):
    n, bursts = (200, 30) if tier == "quick" else (2500, 120)
    out = [{"kind": "hostile", "seed": seed * 100003 + i, "bursts": bursts, "v": i % 12} for i in range(n)]
    m = 8 if tier == "quick" else 64
    out += [{"kind": "memcheck", "seed": seed * 100003 + 5000 + i, "bursts": 10 if tier == "quick" else 30, "v": i % 12} for i in range(m)]
    return out


VALGRIND = ["valgrind", "--error-exitcode=99", "--quiet", "--exit-on-first-error=yes", "--leak-check=no", "--num-callers=20",
            "--child-silent-after-fork=yes"]


class Echo:
    """A small server: enough behaviour to give the proxy state to work with."""

    def __init__(self, w, s):
        self.w, self.s, self.pos, self.nick = w, s, {}, "me"

    def step(self):
        c = self.s.conn
        if c is None or c.closed:
            return
        p = self.pos.get(id(c), 0)
        out = []
        for l in c.lines[p:]:
            a = l.args
            if not a:
                continue
            if a[0] == b"USER":
                n = self.nick = "me"
                out += [":irc.test 001 %s :hi" % n, ":irc.test 005 %s CHANTYPES=#& PREFIX=(ov)@+ CHANMODES=b,k,l,imnpst :are" % n, ":irc.test 375 %s :-" % n, ":irc.test 376 %s :End" % n]
            elif a[0] == b"JOIN" and len(a) > 1:
                for ch in a[1].split(b",")[:5]:
                    ch = ch.decode("latin-1")
                    if ch[:1] in "#&" and ch:
                        out += [b(":%s!user@real.host JOIN %s" % (self.nick, ch)), b(":irc.test 353 %s = %s :@%s other +op" % (self.nick, ch, self.nick)), b(":irc.test 366 %s %s :End" % (self.nick, ch))]
            elif a[0] == b"PART" and len(a) > 1:
                out.append(b":%s!user@real.host PART %s" % (self.nick.encode(), a[1]))
            elif a[0] == b"NICK" and len(a) > 1 and a[1].isalnum():
                out.append(b":%s!user@real.host NICK :%s" % (self.nick.encode(), a[1]))
                self.nick = a[1].decode("latin-1")
            elif a[0] == b"MODE" and len(a) > 2:
                out.append(b":%s!user@real.host MODE " % self.nick.encode() + b" ".join(x for x in a[1:5] if x and b" " not in x))
            elif a[0] == b"TOPIC" and len(a) > 2:
                out.append(b":%s!user@real.host TOPIC %s :%s" % (self.nick.encode(), a[1], a[2]))
            elif a[0] == b"AWAY":
                out.append(b":irc.test %s me :away" % (b"306" if len(a) > 1 else b"305"))
            elif a[0] == b"WHO" and len(a) > 1:
                out += [b":irc.test 352 me %s u h irc.test other H :0 Other" % a[1], b":irc.test 315 me %s :End" % a[1]]
            elif a[0] == b"WHOIS" and len(a) > 1:
                out += [b":irc.test 311 me %s u h * :R" % a[1], b":irc.test 318 me %s :End" % a[1]]
        self.pos[id(c)] = len(c.lines)
        if out and not c.closed:
            c.send(*out)


def run_case(case, cov):
    r = random.Random("p02-%r" % sorted(case.items()))
    v = case["v"]
    mem = case["kind"] == "memcheck"
    w = e2e.World(PLAIN if mem else BIN, tag="p02", unpriv=True)
    try:
        s, s2 = w.server(), w.server()
        g = {"default-network": ["net", None, "nosuch"][v % 3], "autoconnect": "net;safe", "replication": ["none", "simple", "highlight", "lastdisconnect"][v % 4],
             "report-time": ["never", "always", "replication"][v % 3], "learn-nickserv": "true", "admin-user": "ctrladm", "autosave": "true" if v % 5 == 0 else "false",
             "create-implicit": "true" if v % 2 else "false", "logging": "irssi" if v % 4 == 1 else None, "auto-away-enable": "true" if v % 6 == 2 else None}
        w.write_config(g, [("net", {"nick": "me", "fullname": "F", "username": "u", "servers": "irc://%s:%d" % (w.ip, s.port), "reconnect-interval": "2"}),
                           ("safe", {"nick": "sn", "fullname": "F", "username": "u", "servers": "irc://%s:%d" % (w.ip, s2.port)})])
        w.LIMIT = 120 if mem else 40
        w.start(args=["-d", "5"] if v % 6 == 1 else [], wrapper=VALGRIND if mem else ())
        w.pump(lambda: s2.conn)
        w.login_server(s2.conn, "sn")
        echo = Echo(w, s)
        w.pump(lambda: s.conn)
        for _ in range(50):
            echo.step()
            w.drain(0.002)
            if echo.pos and s.conn.lines:
                break
        by = w.attach("sn", "safe")
        by.take()
        h = HostileClient(r, ip=w.ip, netport=s.port)
        conns, hist = [], []
        upath = os.path.join(w.conf, "socket")
        nsafe = len(s2.conn.lines)

        def detail():
            return "last hostile input:\n" + "\n".join("  %s %r" % x for x in hist[-60:])

        def chop(c, data):
            if r.random() < .35 and len(data) < 400:
                i = 0
                while i < len(data) and not c.closed:
                    k = r.choice([1, 1, 2, 3, 7, 20])
                    c.send_raw(data[i:i + k])
                    i += k
                    if r.random() < .3:
                        w.drain(0)
            else:
                c.send_raw(data)

        def login(kind):
            if kind == "unix" and os.path.exists(upath):
                c = w.connect_unix(upath)
            else:
                c = w.connect("h")
            if kind == "socks":
                chop(c, h.socks_login() + b"NICK me\r\nUSER u 0 * :R\r\n")
            else:
                chop(c, b"PASS secret:net\r\n" + r.choice([b"", b"CONNECT net\r\n", b"CONNECT net 6667\r\n", b"NICK x\r\n", b"CONNECT 127.9.9.9 1\r\n"]) + b"NICK %s\r\nUSER u 0 * :R\r\n" % r.choice([b"me", b"zed", b"other"]))
            return c

        def one():
            k = r.random()
            if k < .3:
                d = h.prelogin()
                c = w.connect("pre") if r.random() < .85 or not os.path.exists(upath) else w.connect_unix(upath)
                hist.append(("prelogin", d))
                chop(c, d)
                e = r.random()
                if e < .3:
                    w.drain(0)
                    c.close(rst=r.random() < .4)
                elif e < .6:
                    conns.append(("pre", c))
                else:
                    c.close()
                cov.ev("prelogin")
                cov.judge("pre|%s|%d" % (d[:4].hex(), min(len(d), 300) // 20))
            elif k < .42:
                kind = r.choice(["tcp", "tcp", "unix", "socks"])
                hist.append(("login", kind.encode()))
                conns.append((kind, login(kind)))
                cov.ev("login_" + kind)
            elif k < .52:
                try:
                    a = w.connect_unix(os.path.join(w.conf, "admin"), "adm")
                except FileNotFoundError:
                    raise Violation("admin-socket:gone", detail())
                d = b"".join((h.admin() if r.random() < .8 else h.line()) + b"\n" for _ in range(r.randint(1, 5)))
                if r.random() < .2:
                    d = d[:-1]
                hist.append(("admin socket", d))
                chop(a, d)
                if r.random() < .3:
                    conns.append(("adm", a))
                else:
                    w.drain(0)
                    a.close()
                cov.ev("admin_socket")
                cov.judge("adm|%s" % d.split(b"\n")[0][:14].decode("latin-1"))
            elif conns:
                i = r.randrange(len(conns))
                kind, c = conns[i]
                if c.closed:
                    conns.pop(i)
                    return
                ls = []
                for _ in range(r.randint(1, 8)):
                    j = r.random()
                    if j < .35 and kind != "pre":
                        ls.append((b"CTRLPROXY " if r.random() < .7 else b"PRIVMSG ctrladm :") + h.admin())
                    else:
                        x = h.line()
                        # the rig's own password must not be guessed by chance
                        ls.append(x)
                d = b"".join(l + r.choice([b"\r\n", b"\r\n", b"\n", b"\r"]) for l in ls)
                hist.append((kind, d))
                chop(c, d)
                if r.random() < .15:
                    conns.pop(i)
                    c.close(rst=r.random() < .5)
                cov.ev("client_lines", len(ls))
                for l in ls:
                    a = e2e.parse_line(l)[1]
                    cov.judge("%s|%s|%d" % (kind, (b" ".join(a[:2]) if a[:1] == [b"CTRLPROXY"] else (a[0] if a else b"-"))[:24].decode("latin-1"), min(len(a), 9)))

        def probe(bi):
            by_t = "alive%d" % bi
            s2.conn.send(":x!y@z PRIVMSG sn :" + by_t)
            w.sync_server(s2.conn)
            w.sync_client(by)
            got = by.take()
            if not any(by_t.encode() in l.raw for l in got):
                raise Violation("bystander:lost", "the other network's client missed a message\n" + detail())
            for l in got:
                if by_t.encode() in l.raw or not l.args:
                    continue
                raise Violation("bystander:disturbed", "the other network's client received %r\n" % l.raw + detail())
            if bi % 4 == 0:
                c = w.connect("fresh")
                c.send("PASS secret:safe", "NICK sn", "USER u 0 * :R")
                w.pump(lambda: c.closed or any(len(l.args) > 1 and l.args[0] in (b"422", b"376") for l in c.lines), what="fresh login")
                if c.closed:
                    for _ in range(60):
                        w.check_alive()
                        time.sleep(.02)
                    raise Violation("login:refused", "a correct login was refused: %r\n" % [l.raw for l in c.lines] + detail())
                w.sync_client(c)
                c.close()
                cov.ev("fresh_logins")
            if bi % 5 == 2:
                w.nudge()
                cov.ev("admin_ok")
        try:
            for bi in range(case["bursts"]):
                for _ in range(r.randint(2, 5 if mem else 8)):
                    one()
                    echo.step()
                probe(bi)
                echo.step()
                if s.conn.closed or r.random() < .1:
                    # bring the network back if the input removed it
                    for cmd in ("NETWORK ADD net", "ADDSERVER net %s:%d" % (w.ip, s.port), "CONNECT net"):
                        w.admin(cmd)
                    w.advance(3)
                if len(conns) > 40:
                    for _, c in conns[:20]:
                        c.close()
                    conns = conns[20:]
            for c in [c for _, c in conns]:
                c.close()
            probe(10**6)
            cov.sample("last=%r" % (hist[-1],))
            w.stop()
        except (e2e.ProxyDied, e2e.Hang) as e:
            if isinstance(e, e2e.ProxyDied):
                e.text = e.text[-5000:] + "\n" + detail()
            raise
    finally:
        w.close()

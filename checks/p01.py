import json, random, time
import build, e2e, gen
from hostile import Hostile, b
from core import Violation

ID = "P01"
TECHNIQUE = "ASan/UBSan-instrumented proxy under generated hostile server traffic with liveness monitors"
LEVEL = "exploration"
LEVEL_NOTE = ("Grammar-based hostile server streams in every login stage with clients, logging, replication and nick services on; "
              "memory errors, UB, aborts and hangs are detected by sanitizers and liveness probes; only generated streams are covered.")
RULE = ("one evaluation per hostile line survived (followed by a successful liveness probe of server link, client and admin socket); "
        "distinct = (login stage, command, parameter count, origin shape, clients attached) combinations survived")
ASSUMPTIONS = ["heap/stack/UB errors are those gcc ASan+UBSan detect; uninitialised reads are covered by a valgrind subset"]
CASE_LIMIT = 150
BIN = PLAIN = None


def prepare():
    global BIN, PLAIN
    BIN = build.build_proxy()
    PLAIN = build.build_proxy("plain")


def cases(tier, seed):
    n, bursts = (240, 40) if tier == "quick" else (3000, 150)
    out = [{"kind": "hostile", "seed": seed * 100003 + i, "bursts": bursts, "v": i % 12} for i in range(n)]
    m = 8 if tier == "quick" else 64
    out += [{"kind": "memcheck", "seed": seed * 100003 + 5000 + i, "bursts": 12 if tier == "quick" else 40, "v": i % 12} for i in range(m)]
    return out


VALGRIND = ["valgrind", "--error-exitcode=99", "--quiet", "--exit-on-first-error=yes", "--leak-check=no", "--num-callers=20",
            "--child-silent-after-fork=yes"]


def sig(stage, line, ncl):
    o, a = e2e.parse_line(line)
    oshape = "none" if o is None else ("mask" if b"!" in o and b"@" in o else ("empty" if not o else "bare"))
    return "%s|%s|%d|%s|%d" % (stage, (a[0][:12].decode("latin-1") if a else "-"), min(len(a), 9), oshape, ncl)


def run_case(case, cov):
    r = random.Random("p01-%r" % sorted(case.items()))
    v = case["v"]
    mem = case["kind"] == "memcheck"
    w = e2e.World(PLAIN if mem else BIN, tag="p01")
    try:
        s = w.server()
        s2 = w.server()
        logging = [{}, {"logging": "irssi"}, {"logging": "custom"}, {}][v % 4]
        g = {"default-network": "net", "autoconnect": "net;other", "replication": ["none", "simple", "highlight", "lastdisconnect"][v % 4],
             "report-time": ["never", "always", "replication"][v % 3], "motd-file": "/dev/null", "learn-nickserv": "true",
             "admin-user": "ctrladm", "learn-network-name": "true" if v % 2 else "false", "autosave": "false"}
        g.update(logging)
        if v % 4 == 2:
            for k, x in (("logfile", "$N/%s" % "$@"), ("log-format-join", "j $n $c"), ("log-format-part", "p $n $c $m"), ("log-format-msg", "<$n> $t $m"),
                         ("log-format-notice", "n $n $t $m"), ("log-format-action", "a $n $t $m"), ("log-format-kick", "k $n $c $t $r"), ("log-format-quit", "q $n $m"),
                         ("log-format-mode", "m $n $c $p $s"), ("log-format-topic", "t $n $c $t"), ("log-format-notopic", "t $n $c"), ("log-format-nickchange", "nc $n $r")):
                g[k] = x
        if v % 5 == 0:
            g["auto-away-enable"] = "true"
        w.write_config(g, [("net", {"nick": "me", "fullname": "F", "username": "u", "servers": "irc://%s:%d" % (w.ip, s.port),
                                    "reconnect-interval": "2", "autojoin": "#auto"}),
                           ("other", {"nick": "me2", "fullname": "F", "username": "u", "servers": "irc://%s:%d" % (w.ip, s2.port)})])
        with open(w.conf + "/nickserv", "w") as f:
            f.write("me\tsecretpw\tnet\n")
        w.LIMIT = 120 if mem else 40
        w.start(args=["-d", "5"] if v % 6 == 1 else [], wrapper=VALGRIND if mem else ())
        w.pump(lambda: s2.conn)
        w.login_server(s2.conn, "me2")
        by = w.attach("me2", "other")
        h = Hostile(r)
        clients = []
        w.pump(lambda: s.conn)
        conn = s.conn
        stage = "pre"
        last = []

        def detail():
            return "last lines sent by the server:\n" + "\n".join("  %r" % x for x in last[-80:])

        def hostile(n):
            lines = [h.server_line() for _ in range(n)]
            last.append("--stage %s clients %d" % (stage, len(clients)))
            last.extend(lines)
            data = b"".join(l + r.choice([b"\r\n"] * 9 + [b"\n"]) for l in lines)
            if r.random() < 0.25:
                i = 0
                while i < len(data):
                    k = r.randint(1, 50)
                    conn.send_raw(data[i:i + k])
                    i += k
                    if r.random() < .05:
                        w.drain(0)
            else:
                conn.send_raw(data)
            return lines

        def probe(lines):
            """The link must answer; a link the proxy chose to drop must come back."""
            nonlocal conn, stage
            t = b"live%d" % r.randint(0, 10**9)
            n0 = len(conn.lines)
            conn.send(b"PING :" + t)
            w.pump(lambda: conn.closed or any(l.args[:2] == [b"PONG", t] for l in conn.lines[n0:]), what="server probe")
            if conn.closed:
                cov.ev("link_dropped")
                stage = "pre"
                nacc = len(s.accepted)
                for _ in range(30):
                    w.advance(3)
                    if len(s.accepted) > nacc:
                        break
                    w.drain(0.01)
                w.pump(lambda: len(s.accepted) > nacc, what="reconnect")
                conn = s.conn
            for l in lines:
                cov.judge(sig(stage, l, len(clients)))
            cov.ev("lines", len(lines))
        try:
            for bi in range(case["bursts"]):
                if stage == "pre" and r.random() < 0.4:
                    w.login_server(conn, h.me, extra005=["CHANTYPES=#& PREFIX=(ov)@+ CHANMODES=b,k,l,imnpst CASEMAPPING=rfc1459"], motd=True)
                    me = "me"
                    conn.send(":me!user@real.host JOIN #main", ":irc.test 353 me = #main :me @op other friend", ":irc.test 366 me #main :End",
                              ":me!user@real.host JOIN #c", ":irc.test 353 me = #c :@me other", ":irc.test 366 me #c :End",
                              ":irc.test 302 me :me=+user@real.host")
                    stage = "ready"
                    cov.ev("logins")
                lines = hostile(r.randint(1, 12 if mem else 40))
                probe(lines)
                if stage == "ready" and r.random() < 0.25 and len(clients) < 3:
                    c = w.connect("c")
                    c.send("PASS secret:net", "NICK %s" % r.choice(["me", "zed", "me2"]), "USER u 0 * :R")
                    clients.append(c)
                    cov.ev("attach")
                elif clients and r.random() < 0.2:
                    c = clients.pop(r.randrange(len(clients)))
                    c.close()
                    cov.ev("detach")
                for c in list(clients):
                    if r.random() < 0.6:
                        c.send(*r.sample(["PRIVMSG #main :hi", "WHOIS other", "NAMES #main", "WHO #main", "MODE #main", "MODE #main b", "TOPIC #main", "NICK newnick", "PRIVMSG other :\001PING 1\001", "USERHOST me", "LIST",
                                          "JOIN #new", "PRIVMSG NickServ :IDENTIFY hunter2", "WHOWAS other", "MOTD", "STATS u", "CTRLPROXY BACKLOG", "CTRLPROXY DUMPJOINEDCHANNELS"], 3))
                    if c.closed:
                        clients.remove(c)
                if bi % 3 == 0:
                    s2.conn.send(":x!y@z PRIVMSG me2 :alive%d" % bi)
                    w.sync_server(s2.conn)
                    w.sync_client(by)
                    if not any(b"alive%d" % bi in l.raw for l in by.take()):
                        raise Violation("bystander:lost", "the other network's client missed a message\n" + detail())
                    cov.ev("bystander_ok")
                if bi % 7 == 3:
                    w.nudge()
                    cov.ev("admin_ok")
                if r.random() < 0.1:
                    w.advance(r.choice([1, 6, 30]))
                    s2.conn.send("PING :x")
                if r.random() < 0.06:
                    conn.close(rst=r.random() < .5)
                    probe([])
                if r.random() < 0.05:
                    w.admin("SAVECONFIG")
                if r.random() < 0.15:
                    # resynchronise the nick the server believes in
                    conn.send(":%s!user@real.host NICK me" % "me")
            cov.sample("stage=%s last=%r" % (stage, last[-2:]))
            w.stop()
        except (e2e.ProxyDied, e2e.Hang) as e:
            if isinstance(e, e2e.ProxyDied):
                e.text = e.text[-5000:] + "\n" + detail()
            raise
    finally:
        w.close()

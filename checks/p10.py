"""P10: client-to-client requests and replies, with and without clients attached."""
import re, time
import build, core, e2e, gen
from core import Violation

ID = "P10"
TECHNIQUE = "runtime monitoring of the real proxy on two networks: every CTCP message in either direction is judged against who is attached at that moment"
LEVEL = "exploration"
LEVEL_NOTE = "Randomized histories of CTCP requests and replies in both directions, well-formed and not, with clients attaching, leaving and half logged in; bounded by the generated histories."
RULE = "one evaluation per CTCP message judged; distinct = (direction, command, form, origin form, target form, clients attached, outcome) combinations"
ASSUMPTIONS = ["a request without closing delimiter and an unknown request may be answered with an error or not at all"]
CASE_LIMIT = 200
STD = ["VERSION", "PING", "TIME", "CLIENTINFO", "SOURCE", "FINGER"]
_bin = [None]


def prepare():
    _bin[0] = build.build_proxy("asan")


def cases(tier, seed):
    n, steps = (400, 60) if tier == "quick" else (2400, 200)
    return [{"seed": seed * 643 + i, "steps": steps} for i in range(n)]


class Net:
    pass


def run_case(case, cov):
    r = core.case_rng(case)
    w = e2e.World(_bin[0], "p10")
    with w:
        nets = []
        cfg = []
        for i in range(2):
            n = Net()
            n.name, n.nick, n.srv, n.clients = "net%d" % i, ["me", "Other|1"][i], w.server("s%d" % i), []
            n.full = r.choice(["Real Name", "x", "Jos\u00e9 :D", "a b  c"])
            nets.append(n)
            cfg.append((n.name, {"nick": n.nick, "username": "u", "fullname": n.full, "servers": "%s:%d" % (w.ip, n.srv.port), "queue-speed": "0"}))
        w.write_config({"default-network": "net0", "autoconnect": "net0;net1", "replication": "none", "report-time": "never", "admin-log": "false"}, cfg)
        w.start()
        for n in nets:
            w.pump(lambda: n.srv.conn)
            w.login_server(n.srv.conn, n.nick)
            n.srv.conn.send(":%s!u@real.host JOIN #main" % n.nick, ":irc.test 353 %s = #main :%s @op" % (n.nick, n.nick), ":irc.test 366 %s #main :End" % n.nick)
            w.sync_server(n.srv.conn)
            n.srv.conn.take()
        tagn = [0]
        halves = []

        def tag():
            tagn[0] += 1
            return "t%d" % tagn[0]

        def sent(n):
            w.sync_server(n.srv.conn)
            return [l for l in n.srv.conn.take() if l.args and l.args[0] not in (b"PING", b"PONG")]

        def quiet_other(n, what):
            for o in nets:
                if o is not n:
                    x = sent(o)
                    if x:
                        raise Violation("other-network", "%s made the proxy send %r to %s" % (what, [l.raw for l in x], o.name))

        def ctcp_of(c):
            return [l for l in c.take() if len(l.args) > 2 and l.args[0].upper() in (b"PRIVMSG", b"NOTICE") and b"\1" in l.args[2]]

        def request(n):
            """The server delivers a request to the user."""
            t = tag()
            k = r.random()
            if k < .55:
                cmd = r.choice(STD)
                kind = cmd
                word = r.choice([cmd, cmd, cmd, cmd.lower(), cmd.capitalize()])
                arg = {"PING": r.choice([t, "123 456 " + t, t + "  two  spaces", " lead " + t, ":x " + t]), "CLIENTINFO": r.choice(["", "", "PING"])}.get(cmd, r.choice(["", "", "", t]))
                body = word + (" " + arg if arg else "")
                form = "std"
            elif k < .7:
                kind, body, form = "ACTION", r.choice(["ACTION waves " + t, "ACTION", "action " + t]), "action"
            elif k < .85:
                kind = "UNKNOWN"
                body = r.choice(["FOO " + t, "DCC SEND x 1 2 " + t, "USERINFO", "AVATAR", "ERRMSG " + t, "PINGX " + t, "", " PING " + t, "VERSIO", "\t", "x" * r.randint(1, 380)])
                form = "unknown"
            else:
                kind, body, form = "BROKEN", r.choice(STD + ["", "FOO"]) + " " + t, "open"
            text = "\1" + body + ("" if form == "open" else "\1")
            if form == "std" and r.random() < .1:
                text += r.choice([" trailing", "\1", "\1FOO\1"])
            who = "n%s" % t
            origin, nick = r.choice([(who + "!u@h", who), (who + "!u@h", who), (who + "!~x@2001:db8::1", who), (who + "[]!u@h", who + "[]"), (who, who), ("serv.er." + t, "serv.er." + t),
                                     (n.nick + "!u@real.host", n.nick), (None, None)])
            target = r.choice([n.nick, n.nick, n.nick, n.nick.lower(), "#main", "@#main", "#elsewhere"])
            cmdw = r.choice(["PRIVMSG"] * 5 + ["privmsg"])
            raw = (":%s " % origin if origin else "") + "%s %s :%s" % (cmdw, target, text)
            if len(raw.encode()) > 500:
                return
            for c in n.clients:
                w.sync_client(c)
                c.take()
            t0 = time.time() + w.vctl.get("offset_ns") / 1e9
            n.srv.conn.send(raw)
            out = sent(n)
            t1 = time.time() + w.vctl.get("offset_ns") / 1e9
            oform = "none" if origin is None else ("self" if nick == n.nick else ("server" if "!" not in origin else "user"))
            desc = "server said %r with %d clients attached, proxy sent %r" % (raw, len(n.clients), [l.raw for l in out])
            quiet_other(n, repr(raw))
            cov.judge(("request", kind, form, oform, target[0] == "#", min(len(n.clients), 2), len(out)))
            cov.ev("requests")
            if n.clients:
                if out:
                    raise Violation("answered-despite-client:" + kind, desc)
                for c in n.clients:
                    w.sync_client(c)
                    got = ctcp_of(c)
                    if len(got) != 1 or got[0].args[2] != text.encode():
                        raise Violation("request-delivery", desc + "\nclient got %r" % [l.raw for l in got])
                return
            if nick is None or form == "action":
                if out:
                    raise Violation("answered:" + (form if nick else "no-origin"), desc)
                return
            if len(out) > 1:
                raise Violation("answered-twice:" + kind, desc)
            if not out:
                if form == "std":
                    raise Violation("unanswered:" + kind, desc)
                return
            a = out[0].args
            if a[0] != b"NOTICE" or len(a) != 3 or a[1] != nick.encode():
                raise Violation("answer-form:" + kind, desc)
            if len(a[2]) < 3 or a[2][:1] != b"\1" or a[2][-1:] != b"\1" or b"\1" in a[2][1:-1]:
                raise Violation("answer-delimiters:" + kind, desc)
            word, _, val = a[2][1:-1].partition(b" ")
            cov.ev("answers")
            if form != "std":
                if word not in (b"ERRMSG", kind.encode()) and not (form == "open"):
                    raise Violation("answer-word:" + kind, desc)
                return
            if word != kind.encode():
                raise Violation("answer-word:" + kind, desc)
            if kind == "PING" and val != body.encode()[5:]:
                raise Violation("answer:PING", desc)
            if kind == "FINGER" and val != n.full.encode():
                raise Violation("answer:FINGER", desc)
            if kind == "VERSION" and b"ctrlproxy" not in val.lower():
                raise Violation("answer:VERSION", desc)
            if kind == "SOURCE" and not val:
                raise Violation("answer:SOURCE", desc)
            if kind == "CLIENTINFO" and not arg and not set(x.encode() for x in STD) <= set(val.split()):
                raise Violation("answer:CLIENTINFO", desc)
            if kind == "TIME":
                try:
                    v = time.mktime(time.strptime(val.decode(), "%a %b %d %H:%M:%S %Y"))
                except ValueError:
                    v = None
                if v is None or not t0 - 2 <= v <= t1 + 2:
                    raise Violation("answer:TIME", desc + " at %s" % time.ctime(t0))

        def reply(n):
            """The server delivers a CTCP reply (or something that looks like one)."""
            t = tag()
            asked = n.asked and r.random() < .7
            if asked:
                c, nick, cmd = n.asked.pop(r.randrange(len(n.asked)))
            else:
                c, nick, cmd = None, "z" + t, r.choice(STD + ["FOO", "ACTION"])
            body = r.choice([cmd + " reply " + t, cmd, cmd + " " + t])
            text = "\1" + body + r.choice(["\1", "\1", "\1", "\1", ""])
            origin = r.choice([":%s!u@h " % nick, ":%s!u@h " % nick, ":%s " % nick, ""])
            raw = "%sNOTICE %s :%s" % (origin, r.choice([n.nick, n.nick, "#main"]), text)
            for x in n.clients:
                w.sync_client(x)
                x.take()
            n.srv.conn.send(raw)
            out = sent(n)
            quiet_other(n, repr(raw))
            cov.ev("replies")
            cov.judge(("reply", cmd, text[-1] == "\1", bool(origin), asked and True, min(len(n.clients), 2)))
            if out:
                raise Violation("replied-to-reply", "server said %r with %d clients attached, proxy sent %r" % (raw, len(n.clients), [l.raw for l in out]))
            for x in n.clients:
                w.sync_client(x)
                got = [l.raw for l in ctcp_of(x) if l.args[2] == text.encode()]
                if x is c and len(got) != 1:
                    raise Violation("reply-delivery", "server said %r, the client that asked got it %d times" % (raw, len(got)))
                if len(got) > 1:
                    raise Violation("reply-duplicated", "server said %r, a client got %r" % (raw, got))

        def ask(n):
            """A client sends a request or a reply."""
            c = r.choice(n.clients)
            t = tag()
            cmd = r.choice(STD + ["FOO", "ACTION", "DCC"])
            target = r.choice(["bob" + t, "bob", "#main", "bob" + t + "[]"])
            verb = r.choice(["PRIVMSG", "PRIVMSG", "PRIVMSG", "NOTICE"])
            body = cmd + r.choice(["", " " + t])
            text = "\1" + body + r.choice(["\1", "\1", "\1", "\1", ""])
            raw = "%s %s :%s" % (verb, target, text)
            for x in n.clients:
                w.sync_client(x)
                x.take()
            c.send(raw)
            w.sync_client(c)
            out = sent(n)
            quiet_other(n, repr(raw))
            cov.ev("client_sent")
            cov.judge(("client", verb, cmd, text[-1] == "\1", target[0] == "#", min(len(n.clients), 2)))
            if [l.args for l in out] != [[verb.encode(), target.encode(), text.encode()]]:
                raise Violation("forward:" + verb, "client sent %r, the server received %r" % (raw, [l.raw for l in out]))
            for x in n.clients:
                w.sync_client(x)
                got = ctcp_of(x)
                if x is c and got:
                    raise Violation("echo-to-sender", "client sent %r and got %r" % (raw, [l.raw for l in got]))
                if len(got) > 1 or [1 for l in got if l.args[2] != text.encode()]:
                    raise Violation("echo", "client sent %r, another client got %r" % (raw, [l.raw for l in got]))
            if verb == "PRIVMSG" and target[0] != "#":
                n.asked.append((c, target, cmd))

        for n in nets:
            n.asked = []
        for step in range(case["steps"]):
            n = r.choice(nets)
            k = r.random()
            if k < .14 and len(n.clients) < 3:
                c = w.attach(n.nick, n.name)
                w.sync_client(c)
                c.take()
                n.clients.append(c)
                sent(n)
                cov.ev("attached")
            elif k < .34 and n.clients:
                c = r.choice(n.clients)
                n.clients.remove(c)
                n.asked = [x for x in n.asked if x[0] is not c]
                w.leave(c, *r.choice([(), (), ("QUIT :bye",)]))
                w.sync_server(n.srv.conn)
                sent(n)
                cov.ev("left")
            elif k < .38:
                h = w.connect("half")
                h.send(*r.choice([["PASS secret"], ["PASS secret:" + n.name, "NICK " + n.nick], ["NICK " + n.nick, "USER a b c :d"]]))
                w.pump(lambda: h.lines, what="an answer before login")
                halves.append(h)
                cov.ev("half_logins")
            elif k < .40 and halves:
                w.leave(halves.pop())
            elif k < .62 and n.clients:
                ask(n)
            elif k < .76:
                reply(n)
            else:
                request(n)
        cov.ev("cases")
        w.stop()

#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, state=(), hook=False):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": n, "meaning": m} for n, m in state],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": hook}})


prop("P01", "No server input can crash, corrupt or wedge the proxy",
     "Whatever a connected IRC server sends - well-formed or malformed lines, missing or surplus parameters, odd origins, "
     "any order, any fragmentation, at any stage of the login - the proxy never crashes, aborts, touches invalid or "
     "uninitialised memory, invokes undefined behaviour or stops responding. Afterwards it still serves its clients, its "
     "administration socket and its other networks.",
     ["inputs", "histories"], "all byte streams a server can send, in every registration state, with zero or more clients attached",
     "The unit tests feed a handful of well-formed lines to single modules; a remote peer chooses every byte and the order of "
     "every message, so only hostile workloads under sanitizers reach the missing-parameter, odd-origin and odd-order paths.",
     ["libirc/state.c", "libirc/isupport.c", "libirc/line.c", "src/network.c", "src/ctcp.c", "src/ctcp_redirect.c",
      "src/nickserv.c", "src/redirect.c", "src/log_custom.c", "src/repl_backends.c", "src/client.c"],
     [("server line dispatch", "src/network.c process_from_server"), ("state update", "libirc/state.c state_handle_data")],
     ["proxy process exit status and sanitizer report", "PONG replies and admin-socket replies after each burst"])

prop("P02", "No client or unauthenticated input can crash, corrupt or wedge the proxy",
     "Whatever bytes a peer sends to a listening port before or after authenticating, over the SOCKS entry, the local client "
     "socket or the local administration socket - malformed, truncated, split anywhere, pipelined, or cut off - the proxy never crashes, aborts, "
     "touches invalid memory, invokes undefined behaviour or stops responding. Other clients and networks keep being served.",
     ["inputs", "histories"], "all byte streams on each entry point, all split points and disconnect points",
     "Tests drive a few valid commands through in-process objects; no test speaks SOCKS, malformed commands or partial lines to the real listener.",
     ["libirc/listener.c", "src/listener.c", "libirc/client.c", "src/client.c", "src/admin.c", "src/cache.c", "libirc/transport_ioc.c"],
     [("protocol detection and SOCKS", "libirc/listener.c"), ("client command dispatch", "src/client.c process_from_client"),
      ("admin commands", "src/admin.c")],
     ["proxy process exit status and sanitizer report", "replies to a bystander client and to a fresh login"])

prop("P03", "Only peers presenting the right password gain access",
     "When a password is configured, a peer on a listening port receives no welcome, no network traffic and no ability to send anything to a network or to run "
     "commands until it has presented exactly the right password (with an optional network name after a colon); wrong, partial, empty or "
     "repeated guesses get a refusal and leave the peer unauthenticated, and the right password is always accepted. The same holds for user/password rules on the SOCKS entry.",
     ["inputs", "histories", "configurations"], "all pre-authentication command sequences, password values (prefixes, extensions, separators), per-listener and global passwords",
     "The existing tests check one correct and one wrong PASS; near-miss passwords, command interleavings and the SOCKS rules are not sampled.",
     ["src/listener.c", "libirc/listener.c", "src/main.c"],
     [("PASS check", "src/listener.c default_handle_client_line"), ("SOCKS user/password", "libirc/listener.c")],
     ["bytes received by the peer", "bytes reaching the network server", "replies 464/451/PASS OK"])

prop("P04", "IRC lines survive parsing and serialising unchanged",
     "Parsing an IRC message yields exactly the origin and parameters the protocol grammar gives it, and serialising a message yields one CRLF-terminated line that any "
     "conforming peer parses back to the same origin and parameters; no message is ever emitted as more than one protocol line. Lines coming from a byte stream are recovered identically whatever the fragmentation.",
     ["inputs"], "all byte strings as input lines; all origin/parameter vectors a parse can produce; all fragmentations",
     "Tests parse about two dozen fixed lines; the round trip must hold for every parameter shape (empty, leading colon, spaces, long).",
     ["libirc/line.c", "libirc/irc.h"],
     [("parse", "libirc/line.c irc_parse_line"), ("serialise", "libirc/line.c irc_line_string / irc_send_line")],
     ["parsed origin/parameters", "bytes produced"])

prop("P05", "Tracked network state equals what the server said",
     "After any sequence of server messages (joins, parts, kicks, quits, nick changes, topics, modes, NAMES/WHO and other numeric replies), the proxy's picture of the network - "
     "channels joined, members with their statuses, topics, channel modes, keys, limits and ban-style lists, its own nick and user modes - equals the one an independent "
     "model of the protocol derives from the same messages, respecting the server's announced case mapping, prefixes and channel modes. No nick, channel or membership is duplicated, left behind or lost.",
     ["inputs", "histories", "configurations"], "all message histories a conforming server can send and all announced feature sets",
     "Tests check single transitions with default features; interleavings, mode parameter shapes, case variants and announced prefixes form an unbounded history space.",
     ["libirc/state.c", "libirc/isupport.c"],
     [("state transitions", "libirc/state.c state_handle_data"), ("feature parsing", "libirc/isupport.c")],
     ["channel, member, mode and topic tables after each message", "DUMPJOINEDCHANNELS and the replay to a new client"],
     state=[("network state", "channels, nicks, memberships, modes")])

prop("P06", "A newly attached client sees exactly the current network state",
     "A client that finishes logging in to a connected network is told its current nick, every channel the proxy is on (and no other), each channel's topic and the complete member list with "
     "correct statuses, so that an independent client model fed only with those lines equals the state the server established. It holds whatever nick the client asked for and however many clients are already attached, and the other clients and the network see nothing but, at most, the requested nick change. It is greeted with each welcome numeric once and with exactly the configured message of the day.",
     ["histories", "configurations"], "all network states reachable by server histories, all client nick choices, replication modes",
     "Tests attach a client to empty or one-channel states; completeness and correctness must hold for every state, including long member lists that need several lines.",
     ["src/repl.c", "libirc/state.c", "src/client.c", "libirc/client.c", "src/user.c"],
     [("state replay", "libirc/client.c client_send_state / src/repl.c client_replicate")],
     ["lines the new client receives"])

prop("P07", "Server traffic reaches every attached client exactly once and in order",
     "Every message a network server sends after login that is not a reply to one client's own query, a ping or an automatically answered client-to-client request is delivered to each attached client of that network exactly once, in the server's order and with unchanged command and "
     "parameters (own identity shown as each client knows itself; configured timestamps excepted), and never to clients of other networks or to peers still logging in. Clients attaching, detaching or stalling do not disturb delivery to the others.",
     ["histories", "schedules"], "all server message streams, all client attach/detach/stall interleavings, several networks",
     "Tests have one client and one line at a time; duplication, loss, reordering and cross-network leaks only show over histories with several clients.",
     ["src/network.c", "src/client.c", "libirc/connection.c", "libirc/transport_ioc.c"],
     [("fan-out", "src/network.c / src/client.c clients_send"), ("identity rewriting", "src/client.c irc_line_replace_hostmask")],
     ["per-client received sequence vs. server sent sequence"])

prop("P08", "Client commands reach their network once, in order, and messages are echoed",
     "Every command an attached client sends that is not answered by the proxy itself is sent to the client's own network server exactly once, in order and unchanged, and to no other network; "
     "each channel or private message a client sends is shown once, as coming from the user, to every other client of the same network and never back to the sender. Client pings, quits, log-in commands and proxy commands are never forwarded.",
     ["histories", "schedules"], "all client command streams from several clients on several networks, in all interleavings",
     "Tests send one line from one client; exactly-once forwarding and echo across clients need multi-client histories.",
     ["src/client.c", "src/network.c", "libirc/connection.c"],
     [("forwarding", "src/client.c process_from_client, src/network.c network_forward_line")],
     ["per-server received sequence", "per-client echo sequence"])

prop("P09", "Replies to a query go to the client that asked, and only to it",
     "When a client sends a query the proxy forwards (WHOIS, WHO, WHOWAS, NAMES, LIST, TOPIC, MODE lists, MOTD, VERSION, STATS, failing JOIN/NICK/PRIVMSG and the like), every numeric reply the server gives to it, "
     "errors included, is delivered exactly once to that client; replies to queries of different clients are not mixed up when the server answers in order, and numerics nobody asked for are shown to all clients rather than lost.",
     ["histories", "schedules"], "all interleavings of outstanding queries by several clients with in-order server answers, client disconnects in between",
     "Tests check a redirect of a couple of numerics with one client; matching replies to outstanding queries depends on the whole history of pending queries.",
     ["libirc/redirect.c", "src/redirect.c", "src/network.c"],
     [("query stack", "libirc/redirect.c query_stack_*")],
     ["numerics each client receives"])

prop("P10", "CTCP requests and replies are routed and answered correctly",
     "A client-to-client (CTCP) request a client sends reaches the server once and its reply is delivered to the client that asked; "
     "with no client attached the proxy answers the standard requests (VERSION, PING, TIME, CLIENTINFO, SOURCE, FINGER) itself exactly once with a well-formed reply to the sender and nobody else, and with clients attached it leaves the answering to them. It never answers replies, so no reply loop can form.",
     ["inputs", "histories"], "all CTCP payloads, requesters and targets, with 0..n clients, with clients leaving while a request is outstanding",
     "Tests cover a few formatting helpers; routing depends on who asked and who is still attached.",
     ["src/ctcp.c", "src/ctcp_redirect.c", "src/network.c", "src/client.c"],
     [("automatic answers", "src/ctcp.c"), ("reply routing", "src/ctcp_redirect.c")],
     ["lines to the server", "lines to each client"])

prop("P11", "Connections are lossless FIFO streams under partial and delayed I/O",
     "Whatever the fragmentation of reads, short or refused writes and slow readers, the sequence of lines one side of the proxy accepts for a connection is the sequence its peer receives: no line is lost, "
     "duplicated, reordered, truncated or merged while the connection lives. A peer that stops reading never blocks the service of others, and closing a connection with output pending is safe.",
     ["fault_sequences", "schedules", "inputs"], "all read/write chunkings, would-block points and stall/resume points on every connection",
     "Tests use complete lines on socketpairs that never fill; partial writes and would-block paths are not exercised.",
     ["libirc/transport_ioc.c", "libirc/transport.c", "libirc/line.c", "libirc/connection.c"],
     [("output queue", "libirc/transport_ioc.c transport_send_queue"), ("input loop", "libirc/transport_ioc.c handle_transport_receive")],
     ["byte streams at the peers under injected faults"])

prop("P12", "The message backlog returns exactly what happened, in order",
     "Replaying the stored backlog from a marker to now yields every stored line exactly once, in the original order with its original content and time, and the network state reconstructed at any stored point - channels, topics, modes, members with their statuses, own nick - equals the state the network had when that point was stored; "
     "restricting a replay to one channel yields precisely the lines addressed to it.",
     ["histories", "inputs"], "all line histories (lengths beyond the snapshot interval, long lines, state changes) and all marker pairs",
     "Tests store a few lines; snapshot reuse, marker arithmetic and serialisation of large states only show over long histories.",
     ["libirc/linestack.c"],
     [("storage and replay", "libirc/linestack.c linestack_insert_line / linestack_traverse / linestack_get_state")],
     ["replayed lines and times", "reconstructed states"])

prop("P13", "A returning client gets exactly the messages its replication mode promises",
     "On attaching, a client receives the messages selected by the configured replication mode: none for none, those since the user last said something (that message included) for simple, those since the last client disconnected for lastdisconnect, and for highlight those since the last attach that contain a configured word - each once, in order, before any newer live traffic; after that replay the client's picture of the network is the current one. The backlog starts anew with each connection to the server. "
     "The BACKLOG command delivers what was stored since the previous BACKLOG for the network, optionally restricted to one channel.",
     ["histories", "configurations"], "all attach/detach/speech histories, all replication modes",
     "There is no end-to-end test of replication; markers depend on the whole history of attaches, detaches and reconnects.",
     ["src/repl.c", "src/repl_backends.c", "libirc/linestack.c", "src/admin.c"],
     [("replication backends", "src/repl_backends.c")],
     ["lines a client receives when attaching"])

prop("P14", "Answers given from the proxy's cache equal what the server would say",
     "When the proxy answers a client's query itself (channel modes, topic, names, who and similar) instead of forwarding it, the answer has the form of the server's reply, ends with the proper terminator and states exactly the current network state; when it does not hold the full information it forwards the query instead. A query is always either answered or forwarded, never both and never dropped.",
     ["histories", "inputs", "configurations"], "all states, all query forms, cache limits",
     "Tests do not compare cached answers with state after histories; staleness only shows after changes.",
     ["src/cache.c", "libirc/state.c"],
     [("cached replies", "src/cache.c client_try_cache")],
     ["reply lines to the client", "lines forwarded to the server"])

prop("P15", "Configuration survives saving and reloading",
     "Saving the configuration and starting again from the saved files yields the same effective settings - networks with their servers, passwords and identities, autojoined channels with keys, autoconnect list, listeners and access rules, replication, logging, time stamping, away and all other global options - whatever their values; values unset before saving stay unset after reloading. "
     "Saving twice changes nothing, and a failed save reports the error without crashing.",
     ["configurations", "histories", "fault_sequences"], "all configurations expressible through the configuration file and the administration commands; all change/save/reload sequences",
     "Tests check a couple of options through one save; every option, value shape and removal must survive.",
     ["src/settings.c", "src/settings.h", "libirc/url.c", "src/main.c"],
     [("save", "src/settings.c save_configuration"), ("load", "src/settings.c load_configuration")],
     ["settings before saving and after reloading"])

prop("P16", "Learned nick passwords are kept, used for the right nick, and never disclosed",
     "With learning enabled, a password the user identifies with (IDENTIFY to NickServ, or the NS command) is kept for exactly the nick and network it was used on, replaces an older one for these, stays with a network that is renamed, and survives saving and restarting unchanged, in a file nobody else can read. Known passwords are sent only to the NickServ of their network, to identify for the nick in use: once after every login, and when an attached user's nick changes to one with a known password (one for this network rather than one for all networks), unless the server says the user is identified already. Messages to anybody else, other users' nicks, messages from the server, other networks and unfinished logins never make a password be learned or sent.",
     ["histories", "configurations", "inputs"], "all sequences of identification commands, nick changes, collisions and restarts over several networks and nicks",
     "Tests cover lookups of a prepared table; learning, replacing, persistence and reclaiming are histories.",
     ["src/nickserv.c", "src/keyfile.c"],
     [("learning and identifying", "src/nickserv.c"), ("persistence", "src/keyfile.c")],
     ["lines to the server", "keyfile content after save"])

prop("P17", "Logging records each message once, in the right place, and nowhere else",
     "With logging enabled every channel or private message, and every membership, topic, nick and mode event is appended exactly once, in order and completely, to the log of the conversation it belongs to (events of a user to every channel shared with it), from both directions. CTCP requests and replies other than ACTION are not logged. Whatever names a server, nick or channel uses, nothing is ever written outside the configured log directory; the number of log files held open stays bounded and logs can be moved away and reopened with SIGHUP without losing or repeating an entry.",
     ["inputs", "histories", "configurations"], "all event histories, all names (separators, dots, case), built-in and custom log formats",
     "Tests check a few log lines; containment and exactly-once need hostile names and multi-channel histories.",
     ["src/log.c", "src/log_custom.c", "src/log_subst.c", "src/log_support.c"],
     [("path construction", "src/log_custom.c, src/log_subst.c"), ("writing", "src/log_support.c")],
     ["files created under the scratch directory and their content"])

prop("P18", "Networks stay connected: login, reconnect, rejoin and failure handling",
     "For each network set to connect, the proxy registers with the configured password, nick and user data, answers server pings at any time, tries alternative nicks when taken, and after login joins the configured channels with their keys and runs the configured commands exactly once. "
     "When the connection is lost, refused or silent too long, it tells attached clients, tries the configured servers in rotation after the configured delay, and after reconnecting is back on the channels it was on; a network the user disconnected stays disconnected.",
     ["fault_sequences", "histories", "configurations", "crash_points"], "all sequences of connection losses at any login or traffic stage, refusals, silences, nick collisions, user connects/disconnects",
     "Tests never run the reconnect state machine against failing servers or time.",
     ["libirc/connection.c", "src/network.c", "src/user.c"],
     [("connection state machine", "libirc/connection.c"), ("login completion", "src/network.c")],
     ["connections and lines seen by scripted servers under virtual time"],
     state=[("connection state", "not connected / reconnect pending / connecting / login / ready")])

prop("P19", "Names compare and features parse as the server announced",
     "Under each announced case mapping, two names are treated as the same exactly when the mapping says so, and this equality is reflexive, symmetric and transitive; channel names, prefixes, channel-mode classes and other announced features are interpreted as announced, and announcing the stored features again changes nothing.",
     ["inputs", "configurations"], "all string pairs and all feature announcements",
     "Tests compare a few names; the relation must hold over the whole byte range and every announcement.",
     ["libirc/isupport.c", "libirc/isupport.h"],
     [("comparison", "libirc/isupport.c irccmp"), ("announcement parsing", "libirc/isupport.c network_info_parse")],
     ["comparison results and derived tables"])

prop("P20", "Character-set conversion preserves text both ways",
     "When a client or network uses a configured character set, text passes through the proxy so that every character representable on both sides arrives as the same character, in both directions, and text that cannot be converted causes neither a lost connection nor a corrupted or missing neighbouring line. Without a configured character set bytes pass unchanged.",
     ["inputs", "configurations", "histories"], "all texts, all supported character sets on either side, invalid sequences",
     "Tests do not send non-ASCII text through a full proxy path; conversion happens at several layers that must agree.",
     ["libirc/line.c", "libirc/transport_ioc.c", "src/client.c", "src/network.c", "libirc/client.c"],
     [("conversion", "libirc/line.c irc_recv_line / irc_send_line_iconv")],
     ["bytes at both ends"])

prop("P21", "Automatic away follows client presence and activity",
     "With auto-away enabled, a connected network on which the user is not away yet gets the configured away message (and nick) when the user has been inactive for more than the configured time while no more clients than the client limit are attached, or, with a client limit, as soon as a leaving client brings the number of attached clients down to that limit. The user is marked back when a message of the user's own goes to any server (away networks only) or when a client attaches that exceeds the client limit. Nothing else makes the proxy send away commands: not incoming messages, answers to CTCP requests, failed or unfinished logins, nor any event when auto-away is disabled.",
     ["histories", "configurations", "schedules"], "all sequences of attach, detach, activity and elapsed time, all auto-away settings",
     "No test advances time or combines clients; the behaviour is a timed protocol.",
     ["src/auto_away.c"],
     [("timer and hooks", "src/auto_away.c")],
     ["AWAY/NICK lines to the server under virtual time"])

prop("P22", "Administration commands do what they say, and nothing when they fail",
     "Each administration command gives the same effect through every interface (client command, message to the administration user, administration socket): settings read back as set, networks and servers added, removed or renamed appear and disappear accordingly, connects and disconnects act on the intended network only; invalid commands answer with an error and leave all settings, networks and connections unchanged.",
     ["inputs", "histories", "configurations"], "all command sequences with valid and invalid arguments through each interface",
     "Tests invoke a few commands in-process; effects over histories and the equivalence of interfaces are not sampled.",
     ["src/admin.c", "src/admin-cmd.c", "src/help.c"],
     [("command table", "src/admin.c")],
     ["command output, subsequent settings, saved configuration"])

prop("P23", "The multi-user daemon relays only authenticated users, to their own proxy",
     "The multi-user daemon forwards nothing between a client and a user's proxy until the client has presented that user's correct password; afterwards it relays lines unchanged, once and in order in both directions. Wrong credentials, unknown users or malformed input get a refusal and never reach, crash or stall any proxy or the daemon.",
     ["inputs", "histories"], "all pre-authentication sequences, users, passwords and input bytes",
     "There is no test of the daemon at all.",
     ["daemon/main.c", "daemon/backend.c", "daemon/user.c", "libirc/listener.c"],
     [("login and relay", "daemon/main.c"), ("backend handshake", "daemon/backend.c")],
     ["bytes at clients and at the per-user proxies"])

prop("P24", "Connection churn does not leak resources",
     "Clients connecting, authenticating or failing to, and leaving in any way, networks connecting and being lost, and administration sessions leave no residue: once they are gone the proxy holds the same open descriptors as before, and its memory and pending timers do not grow with the number of past connections.",
     ["histories", "fault_sequences"], "all sequences of connection set-ups and endings at any stage",
     "Leaks only show over many cycles; the tests run one.",
     ["libirc/listener.c", "libirc/client.c", "libirc/transport_ioc.c", "libirc/connection.c", "src/listener.c", "src/client.c"],
     [("pending-client and transport teardown", "libirc/listener.c, libirc/transport_ioc.c")],
     ["/proc descriptors and heap in use over cycles"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")

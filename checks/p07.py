import route
from route import prepare
ID = "P07"
TECHNIQUE = "trace monitor (exactly-once, ordered delivery) over the sanitized proxy between scripted servers and clients"
LEVEL = "exploration"
LEVEL_NOTE = "Every line received by every client in randomized multi-client histories is matched against per-source reference queues; assumes loopback TCP and the histories the generator produces."
RULE = ("one evaluation per line received by a client or server and matched against the reference queues; distinct = "
        "(command, source kind, number of concurrent sources) combinations judged")
ASSUMPTIONS = ["single host loopback TCP", "server lines are at most 505 bytes of valid UTF-8"]


def cases(tier, seed):
    n, steps = (120, 60) if tier == "quick" else (400, 250)
    out = []
    for i in range(n):
        out.append({"seed": seed * 100003 + i, "nets": 1 + i % 3, "clients": 1 + (i // 3) % 3, "steps": steps,
                    "report": "always" if i % 5 == 4 else ("replication" if i % 5 == 3 else "never"),
                    "wr_cap": [0, 0, 7][i % 3], "rd_cap": [0, 3, 0][(i // 2) % 3]})
    return out


def run_case(case, cov):
    route.Scenario(case, cov, "p07").run()

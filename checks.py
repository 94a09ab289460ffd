"""What each check runs: parts (world:profile:weight), relevant violation classes, number of runs per tier."""
# Classes are prefixes of "<property>:<what>".  Generic classes ("*:memory", "*:deadlock", ...) always count.
P = "proxy:"


def parts(*a):
    return ",".join(a)


CHECKS = {
    "C01": dict(parts=parts(P + "auth:6", P + "slots:1", P + "hostile:1"), rel="C01,SERVE,SESS"),
    "C02": dict(parts=parts(P + "auth:5", P + "setup:2", P + "reconf:2"), rel="C02,C28:refused"),
    "C03": dict(parts=parts(P + "auth:5", P + "slots:2"), rel="C03"),
    "C04": dict(parts=parts(P + "udp:120", P + "fidelity:60", P + "faultslots:20", P + "volume:2"), rel="C04,C09:addr-udp,C09:cross,SESS"),
    "C05": dict(parts=parts(P + "udp:100", P + "fidelity:60", P + "vanish:20", P + "shutdown:20", P + "volume:2"), rel="C05,C09:addr-udp,C09:cross"),
    "C06": dict(parts=parts(P + "tcp:120", P + "fidelity:40", P + "close:20", P + "vanish:20", P + "volume:1"), rel="C06,C09:addr-tcp,SESS"),
    "C07": dict(parts=parts(P + "tcp:120", P + "fidelity:40", P + "close:20", P + "volume:1"), rel="C07"),
    "C08": dict(parts=parts(P + "fidelity:4", P + "tcp:3", P + "udp:2", P + "faultslots:1"), rel="C08,C05:payload,C07:data"),
    "C09": dict(parts=parts(P + "slots:50", P + "affinity:20", P + "fidelity:10", P + "faultslots:10", P + "many:1"), rel="C09,C05:foreign,C07:early,C07:data"),
    "C10": dict(parts=parts(P + "slots:60", P + "faultslots:75", P + "setup:15", P + "hostile:15", P + "many:1", P + "volume:1"), rel="C10,SERVE"),
    "C11": dict(parts=parts(P + "affinity:80", P + "many:1"), rel="C11,SERVE,C10:stuck"),
    "C12": dict(parts=parts(P + "close:6", P + "closereg:3", P + "setup:1"), rel="C12,C10:stuck"),
    "C13": dict(parts=parts(P + "shutdown:1"), rel="C13,SESS,C12:hang"),
    "C14": dict(parts=parts(P + "registrar:5", P + "regfail:2", P + "setup:1"), rel="C14"),
    "C15": dict(parts=parts(P + "registrar:60", P + "regfail:24", P + "closereg:24", P + "many:1"), rel="C15"),
    "C16": dict(parts=parts(P + "regfail:5", P + "closereg:4"), rel="C16,SERVE,SESS,C10,C12,C15"),
    "C17": dict(parts="worker:worker:1", rel="C17"),
    "C18": dict(parts="mutex:mutex:1", rel="C18"),
    "C19": dict(parts=parts("conn:conn:6", P + "tcp:1", P + "close:1"), rel="C19"),
    "C20": dict(parts=parts(P + "setup:6", "conn:conn:1", "client:client:1", "conf:conf:1"),
                rel="C20,C10,C12,C19:init,C19:leak,C19:inuse,C25:init,C25:leak,C25:free,C25:kept,C25:success,C25:failed,C21:leak,C21:accepted,C21:retry"),
    "C21": dict(parts=parts("conf:conf:1"), rel="C21"),
    "C22": dict(parts=parts(P + "daemon:3", P + "dstart:1"), rel="C22,SESS,SERVE,C10,C12,C13"),
    "C23": dict(parts=parts(P + "hostile:6", P + "affinity:2", P + "auth:1", P + "regfail:1"), rel="C23,SESS,SERVE,C10,C11,C12"),
    "C24": dict(parts=parts("log:log:1"), rel="C24"),
    "C25": dict(parts=parts("client:client:1"), rel="C25"),
    "C26": dict(parts=parts(P + "vanish:1"), rel="C26,SESS,C10"),
    "C28": dict(parts=parts(P + "reconf:5", P + "fidelity:1", P + "setup:1"), rel="C28,C01,C02,C09,C12,C14,C15,SESS"),
    "C29": dict(parts=parts(P + "isolate:1"), rel="C29,C04,C05,C06,C07,SESS,SERVE,C10:stuck,C10:capacity"),
    "C30": dict(parts=parts(P + "soak:1"), rel="C30,C10,C12:leak"),
}
QUICK = 100000         # runs; 25-40 s on 8 cores
THOROUGH = 2000000
PROBES = {
    0: "sessions served", 1: "client datagrams relayed", 2: "client datagrams whose send was made to fail",
    3: "messages parsed at clients", 4: "TCP data messages compared", 5: "TCP status messages compared",
    6: "challenges to clients that must be refused", 7: "rejected sessions checked", 8: "answers: to be served",
    9: "answers: wrong password", 10: "answers: not permitted", 11: "answers: malformed", 12: "answers: undetermined",
    14: "TCP segments compared at remote hosts", 15: "registration reports compared", 16: "hostile messages sent",
    17: "full-capacity probes", 18: "dispatch after shutdown", 19: "proxies closed", 20: "drops of all clients",
    58: "prompt report checks", 59: "checks of the listening address", 21: "registrar convergence checks", 22: "slot affinity checks", 23: "admissions demanded",
    24: "worker runs", 25: "worker idle claims checked", 26: "lock/worker creations failed and retried", 27: "worker joins",
    28: "shared lock claims", 29: "condition timeouts", 30: "condition tokens waited for", 31: "connection reads compared",
    32: "connection sends compared", 33: "connection set-ups failed and retried", 34: "blocked calls ended by close",
    35: "complete deliveries", 36: "receive timeouts", 37: "UDP datagrams received", 38: "UDP datagrams sent", 60: "signals raised", 62: "rounds of repeated use compared", 63: "messages of a host used more than once", 61: "delays of a well-behaved client measured",
    50: "signals sent to the daemon", 51: "daemons ended by a signal before they were ready", 52: "starts that failed",
    53: "daemons ended after being asked", 54: "configured logs checked", 55: "processes that started a daemon followed to their end",
    56: "messages demanded in the log", 57: "connections handed over after a shutdown request",
}
COMPONENTS = {
    "proxy": dict(real="src/proxy.c proxy_conn.c conn.c worker.c mutex_posix.c thread_posix.c registration.c conf.c log.c regex.c "
                       "digest.c md5.c pearson.c rand.c, and in the daemon profiles proxyd.c with its main, unmodified, and libpcre2",
                  simulated="threads and scheduler, clocks, sockets and TCP/UDP network, name lookup, files, console, syslog, "
                            "heap, randomness, clients, remote hosts, registrar"),
    "worker": dict(real="src/worker.c mutex_posix.c thread_posix.c, unmodified",
                   simulated="pthreads and scheduler, clocks, heap, requesting threads"),
    "mutex": dict(real="src/mutex_posix.c, unmodified", simulated="pthreads and scheduler, clocks, heap, contending threads"),
    "conn": dict(real="src/conn.c mutex_posix.c thread_posix.c, unmodified",
                 simulated="pthreads and scheduler, clocks, sockets and TCP/UDP network, name lookup, heap, peers, calling threads"),
    "conf": dict(real="src/conf.c, proxy.c (proxy_load_conf and ownership of the configuration), unmodified",
                 simulated="configuration files and the errors of reading them, heap, threads"),
    "log": dict(real="src/log.c, proxy.c (proxy_log*), mutex_posix.c, unmodified",
                simulated="log files, console, syslog, calendar clock and time zone, heap, pthreads and scheduler, logging threads"),
    "client": dict(real="src/proxy_client.c, conn.c, digest.c, md5.c, proxy.c (get_password_response), mutex_posix.c, unmodified",
                   simulated="pthreads and scheduler, clocks, sockets and TCP network, name lookup, heap, proxy servers"),
}
LEVEL_NOTE = ("Seeded search: the property held in every simulated run explored (workloads, schedules and faults drawn from "
              "the seed); nothing is claimed beyond them. Assumes the simulator's model of Linux threads, sockets and files "
              "and the oracle in sim/ are right; the code under test is the unmodified source compiled for the simulator.")

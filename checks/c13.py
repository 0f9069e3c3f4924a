"""C13: the trust mark issuer's record of what it has issued."""
import json
import os
import resource
import shutil
import signal
import tempfile

from fsmon.boot import clock

LEVEL = "fault_enumeration"
RULE = ("Histories of additions, look-ups, lists, restarts, exports and imports and passages of time "
        "on the file based and the in-memory record, compared operation by operation with a model "
        "(a list of (id, subject, issued at, expires at)). Additions are cut short at every byte "
        "position in turn by a child process whose file size limit is reached, and several processes "
        "add and read at the same time. Distinct by kind of record, history, and where it was cut.")
ASSUMPTIONS = ["wall-clock time is virtual (LD_PRELOAD interposer)",
               "a cut addition is a write that the operating system ends early (RLIMIT_FSIZE); "
               "loss of data already accepted by the operating system is not modelled"]
REQUIRE = {"lookups": 3000, "found": 600, "expired-only": 100, "other-valid": 100, "cut": 300,
           "cut-in-record": 150, "restarts": 100, "imports": 60, "concurrent-adds": 300,
           "concurrent-reads": 50, "interleavings": 10,
           "large": 100}
IDS = ["https://refeds.org/sirtfi", "https://marks.example.org/b", "urn:x:c"]
SUBS = ["https://a.example.org", "https://b.example.org", "https://a.example.org/x",
        "https://ü.example.org/\u2028\n", "https://A.example.org"]


class Model:
    def __init__(self):
        self.rows = []

    def add(self, r):
        self.rows.append(r)

    def valid(self, i, sub=None, iat=0):
        now = clock.now()
        return [r for r in self.rows if r["id"] == i and ("exp" not in r or now <= r["exp"]) and
                (sub is None or r["sub"] == sub) and (not iat or r["iat"] == iat)]


def row(rng):
    r = {"id": rng.choice(IDS), "sub": rng.choice(SUBS), "iat": clock.now() - rng.choice([0, 0, 5])}
    if rng.random() < .7:
        r["exp"] = r["iat"] + rng.choice([0, 3, 10, 60, 1000])
    if rng.random() < .2:
        r["ref"] = "x" * rng.choice([1, 50, 9000]) + rng.choice(["", "\n", "é", '"']
                                                                )
    return r


def compare(case, db, model, history, iats=()):
    n = 0
    for i in IDS:
        want = {r["sub"] for r in model.valid(i)}
        got = db.list(i)
        n += 1
        case.check(len(got) == len(set(got)) and set(got) == want, "list",
                   lambda: f"list({i!r}) = {got}, issued and in force: {want}\n{history[-12:]}")
        for s in SUBS:
            rows = model.valid(i, s)
            f = bool(db.find(i, s))
            n += 1
            case.check(f == bool(rows), "find",
                       lambda: f"find({i!r}, {s!r}) = {f}, in force: {rows}\n"
                               f"all: {[r for r in model.rows if r['id'] == i and r['sub'] == s]}\n"
                               f"{history[-12:]}")
            ever = [r for r in model.rows if r["id"] == i and r["sub"] == s]
            if rows:
                case.count("found")
                if len(ever) > len(rows):
                    case.count("other-valid")
            elif ever:
                case.count("expired-only")
            for t in {r["iat"] for r in ever} | set(iats):
                rows = model.valid(i, s, t)
                f = bool(db.find(i, s, t))
                n += 1
                case.check(f == bool(rows), "find-iat",
                           lambda: f"find({i!r}, {s!r}, {t}) = {f}, in force: {rows}\n"
                                   f"{history[-12:]}")
            l2 = db.list(i, s)
            case.check(list(l2) == ([s] if model.valid(i, s) else []), "list-sub",
                       lambda: f"list({i!r}, {s!r}) = {l2}\n{history[-12:]}")
    case.count("lookups", n)


class Dir:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="fsmon-c13-")
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def files(d, tag="r"):
    return {i: os.path.join(d, f"{tag}{n}") for n, i in enumerate(IDS)}


def history(case, kind):
    from fedservice.trust_mark_entity import FileDB, SimpleDB
    rng = case.rng
    with Dir() as d:
        gen = [0]

        def fresh():
            gen[0] += 1
            return FileDB(**files(d, f"g{gen[0]}-")) if kind == "file" else SimpleDB()

        db, model, hist = fresh(), Model(), []
        cur = gen[0]
        if rng.random() < .1:
            # it has been in use for a while
            for k in range(rng.choice([120, 300, 1200])):
                x = {"id": rng.choice(IDS), "iat": clock.now(),
                     "sub": rng.choice(SUBS) if k < 20 else f"https://n{k}.example.org"}
                if rng.random() < .3:
                    x["exp"] = x["iat"] + rng.choice([1, 500])
                db.add(dict(x))
                model.add(x)
            case.count("large")
            hist.append(("in use", len(model.rows)))
        for step in range(rng.randint(4, 14)):
            r = rng.random()
            if r < .55:
                x = row(rng)
                db.add(dict(x))
                model.add(x)
                hist.append(("add", x["id"][-6:], x["sub"][-8:], x["iat"], x.get("exp")))
            elif r < .75:
                dt = rng.choice([1, 3, 4, 10, 70])
                clock.advance(dt)
                hist.append(("time", dt))
            elif r < .88 and kind == "file":
                db = FileDB(**files(d, f"g{cur}-"))
                hist.append(("restart",))
                case.count("restarts")
            elif r < .98:
                text = db.dumps()
                assert isinstance(text, str)
                db2 = fresh()
                db2.loads(text)
                db = db2
                cur = gen[0]
                hist.append(("export-import",))
                case.count("imports")
            if rng.random() < .4:
                compare(case, db, model, hist, [clock.now() + 77])
        compare(case, db, model, hist)
        case.observed((kind, tuple(h[0] for h in hist), len(model.rows)), bool(model.rows),
                      sample={"record": kind, "history": hist})


def cut_add(path, limit, fn):
    """fn() in a child whose files cannot grow beyond limit bytes. True if it reported success."""
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
            fn()
            code = 0
        except OSError:
            code = 7
        except BaseException:
            code = 1
        finally:
            os._exit(code)
    _, st = os.waitpid(pid, 0)
    return os.waitstatus_to_exitcode(st)


def cut(case):
    from fedservice.trust_mark_entity import FileDB
    rng = case.rng
    with Dir() as d:
        conf = files(d)
        db, model, hist = FileDB(**conf), Model(), []
        for _ in range(rng.randint(0, 3)):
            x = row(rng)
            db.add(dict(x))
            model.add(x)
        for k in range(rng.randint(1, 3)):
            x = row(rng)
            path = conf[x["id"]]
            size = os.path.getsize(path)
            length = len(json.dumps(x)) + 1
            at = case.index % (length + 2) if k == 0 else rng.randint(0, length + 1)
            if rng.random() < .15:
                at = length - rng.choice([0, 1, 2])
            rc = cut_add(path, size + at, lambda: db.add(dict(x)))
            after = os.path.getsize(path)
            hist.append(("cut", x["id"], at, "of", length, "rc", rc, "written", after - size))
            case.check(rc in (0, 7), "cut-other-error", lambda: f"{hist}")
            case.count("cut")
            if 0 < after - size < length:
                case.count("cut-in-record")
            db = FileDB(**conf) if rng.random() < .6 else db
            if rc == 0:
                model.add(x)
            else:
                # the addition failed: it may or may not have been recorded, nothing else
                probe = [r for r in [x] if db.find(x["id"], x["sub"], x["iat"])]
                before = model.valid(x["id"], x["sub"], x["iat"])
                if probe and not before and after - size >= length - 1:
                    model.add(x)
                elif after - size < length - 1:
                    case.check(not probe or before, "cut-record-found", lambda: f"{x} {hist}")
            compare(case, db, model, hist)
            # what is added next is there
            for _ in range(rng.randint(1, 2)):
                y = row(rng)
                y["id"] = x["id"] if rng.random() < .8 else y["id"]
                db.add(dict(y))
                model.add(y)
            hist.append(("add",))
            compare(case, db, model, hist)
            case.observed((at, length, rc, k, len(model.rows)), sample=hist)


def concurrent(case):
    from fedservice.trust_mark_entity import FileDB
    rng = case.rng
    with Dir() as d:
        conf = files(d)
        FileDB(**conf)
        n, m = rng.randint(2, 5), rng.randint(3, 12)
        go = os.path.join(d, "go")
        pids, model = [], Model()
        big = rng.random() < .5
        for w in range(n):
            rows = []
            for k in range(m):
                x = {"id": IDS[0] if rng.random() < .8 else IDS[1],
                     "sub": f"https://w{w}.example.org/{k}", "iat": clock.now()}
                if rng.random() < .5:
                    x["exp"] = clock.now() + 100
                if big and rng.random() < .5:
                    x["ref"] = "y" * rng.choice([5000, 9000, 20000])
                rows.append(x)
                model.add(x)
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    db = FileDB(**conf)
                    while not os.path.exists(go):
                        pass
                    for j, x in enumerate(rows):
                        db.add(dict(x))
                        # what this process added is there at once
                        if not db.find(x["id"], x["sub"], x["iat"]):
                            os._exit(3)
                        if x["sub"] not in db.list(x["id"]):
                            os._exit(4)
                    code = 0
                except BaseException as err:
                    with open(os.path.join(d, f"err{w}"), "w") as fp:
                        fp.write(repr(err))
                    code = 5
                finally:
                    os._exit(code)
            pids.append(pid)
        # a reader, meanwhile: what it has seen stays
        open(go, "w").close()
        db, seen, left = FileDB(**conf), set(), list(pids)
        codes = []
        while left:
            now = set(db.list(IDS[0]))
            case.check(seen <= now, "lost", lambda: f"{seen - now}")
            seen |= now
            case.count("concurrent-reads")
            p, st = os.waitpid(-1, os.WNOHANG)
            if p:
                left.remove(p)
                codes.append(os.waitstatus_to_exitcode(st))
        errs = [open(os.path.join(d, f)).read() for f in os.listdir(d) if f.startswith("err")]
        case.check(codes == [0] * n, "concurrent", lambda: f"exit codes {codes} (3: not found, 4: "
                                                           f"not listed, 5: {errs})")
        db = FileDB(**conf)
        for x in model.rows:
            case.check(db.find(x["id"], x["sub"], x["iat"]), "concurrent-lost", lambda: f"{x}")
        for i in IDS:
            got = db.list(i)
            want = {x["sub"] for x in model.rows if x["id"] == i}
            case.check(set(got) == want and len(got) == len(set(got)), "concurrent-list",
                       lambda: f"{got} {want}")
        order = []
        for line in open(conf[IDS[0]], "rb"):
            if b'"https://w' in line:
                order.append(line.split(b'"https://w')[1][:1].decode())
        case.count("concurrent-adds", n * m)
        order = "".join(order)
        if any(a != b for a, b in zip(order, sorted(order))):
            case.count("interleavings")
        case.observed((n, m, order), n > 1, sample={"processes": n, "order of records": order})


def run(ctx):
    ctx.cases("file", 250, 6000, lambda case: history(case, "file"))
    ctx.cases("memory", 150, 4000, lambda case: history(case, "memory"))
    ctx.cases("cut", 400, 6000, cut)
    ctx.cases("concurrent", 15, 300, concurrent)

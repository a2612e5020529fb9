"""Run scenarios on the real code and record every call as an event.

usage: drive.py SCENARIOS.ndjson TRACE.ndjson [workers] [timeout]

A scenario is {"id":..., "steps":[...]}.  Scenarios run in forked workers; a
worker that dies or stops answering becomes an event with "crash" set.
Exit 3: the harness itself failed (never a verdict on the code under test).
"""
import json
import os
import select
import signal
import sys
import time
import traceback


def run_worker(fd, todo, scen, interp):
    def put(obj):
        data = (json.dumps(obj) + "\n").encode()
        while data:
            n = os.write(fd, data)
            data = data[n:]
    for i in todo:
        put({"i": i, "k": "start"})
        try:
            for kind, payload in interp.run(scen[i]):
                put({"i": i, "k": kind, "v": payload})
        except Exception:
            put({"i": i, "k": "harness", "v": traceback.format_exc()})
            os._exit(3)
        put({"i": i, "k": "end"})
    os._exit(0)


class Worker:
    def __init__(self, todo, scen, interp):
        self.todo, self.scen, self.interp = todo, scen, interp
        self.buf = b""
        self.cur = None
        self.spawn()

    def spawn(self):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            os.setpgid(0, 0)
            nul = os.open(os.devnull, os.O_RDWR)
            os.dup2(nul, 0)
            if not os.environ.get("DRIVE_DEBUG"):
                os.dup2(nul, 1)
                os.dup2(nul, 2)
            run_worker(w, self.todo, self.scen, self.interp)
        os.close(w)
        self.pid, self.fd = pid, r
        self.seen = time.time()


def main():
    scen_file, trace_file = sys.argv[1:3]
    workers = int(sys.argv[3]) if len(sys.argv) > 3 else 8
    limit = float(sys.argv[4]) if len(sys.argv) > 4 else 20.0
    scen = [json.loads(l) for l in open(scen_file)]
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    import interp
    interp.setup()
    out = {i: [] for i in range(len(scen))}
    pend = {}
    ended = set()
    ws = []
    for k in range(workers):
        todo = list(range(k, len(scen), workers))
        if todo:
            ws.append(Worker(todo, scen, interp))
    failed = None

    def handle(w, line):
        nonlocal failed
        m = json.loads(line)
        i = m["i"]
        w.seen = time.time()
        if m["k"] == "start":
            w.cur = i
        elif m["k"] == "begin":
            pend[i] = m["v"]
        elif m["k"] == "event":
            pend.pop(i, None)
            out[i].append(m["v"])
        elif m["k"] == "end":
            ended.add(i)
            w.cur = None
        elif m["k"] == "harness":
            failed = "scenario %s:\n%s" % (scen[i]["id"], m["v"])

    def died(w, why):
        i = w.cur
        os.close(w.fd)
        try:
            os.killpg(w.pid, signal.SIGKILL)
        except OSError:
            pass
        if i is None:
            rest = [j for j in w.todo if j not in ended]
            if not rest:
                return False
            i = rest[0]
        ev = pend.pop(i, None)
        if ev is None:
            ev = {"op": "between-calls", "self": "", "a": {}}
        ev = dict(ev)
        ev.update(crash=why, raised="", ret="", out=[], heap={"root": ""},
                  val={}, pre=[], post=[])
        out[i].append(ev)
        ended.add(i)
        w.todo = [j for j in w.todo if j not in ended]
        w.cur = None
        w.buf = b""
        if not w.todo:
            return False
        w.spawn()
        return True

    while ws and failed is None:
        ready, _, _ = select.select([w.fd for w in ws], [], [], 1.0)
        now = time.time()
        for w in list(ws):
            if w.fd in ready:
                data = os.read(w.fd, 1 << 16)
                if data:
                    w.buf += data
                    *lines, w.buf = w.buf.split(b"\n")
                    for l in lines:
                        handle(w, l)
                    continue
                _, st = os.waitpid(w.pid, 0)
                if failed is not None:
                    break
                clean = os.WIFEXITED(st) and os.WEXITSTATUS(st) == 0 and w.cur is None
                if clean and all(j in ended for j in w.todo):
                    os.close(w.fd)
                    ws.remove(w)
                    continue
                why = ("killed-by-signal-%d" % os.WTERMSIG(st) if os.WIFSIGNALED(st)
                       else "process-exited-%d" % os.WEXITSTATUS(st))
                if not died(w, "process-crashed:" + why):
                    ws.remove(w)
            elif now - w.seen > limit:
                os.killpg(w.pid, signal.SIGKILL)
                os.waitpid(w.pid, 0)
                if not died(w, "no-answer-in-time"):
                    ws.remove(w)
    if failed is not None:
        for w in ws:
            try:
                os.killpg(w.pid, signal.SIGKILL)
            except OSError:
                pass
        sys.stderr.write("HARNESS FAILURE " + failed + "\n")
        sys.exit(3)
    with open(trace_file, "w") as f:
        for i, s in enumerate(scen):
            f.write(json.dumps({"id": s["id"], "ev": out[i]}) + "\n")
    print("scenarios %d events %d" % (len(scen), sum(len(v) for v in out.values())))


if __name__ == "__main__":
    main()

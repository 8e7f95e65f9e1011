"""Seeded interleaving of several processes at their system calls.

Every operation on the scratch tree waits for its turn (wait_turn in simos.c); the
coordinator lets one process at a time go on to its next operation, as the schedule
in the scenario says.  Nothing runs between two operations but the process whose
turn it is, so a schedule is one exactly repeatable execution.
"""
import os, pickle, resource, signal, sys, time, traceback

from . import core


class Stuck(Exception):
    pass


def run(ctx, sc, jobs, schedule, limit=40):
    """Called in an isolated process.  jobs: functions; schedule: list of ints.
    Returns [(status, value)] per job and the number of switches."""
    from . import ops
    L = ctx.os.lib
    n = len(jobs)
    L.sim_turns(n)
    ctx.os.knob("proc", -1)
    ops.arm(ctx, sc)
    pids, pipes = [], []
    for i, fn in enumerate(jobs):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 3
            try:
                os.close(r)
                ctx.os.knob("proc", i)
                L.sim_turn_start()
                try:
                    res = ("value", fn())
                except BaseException as e:
                    res = ("escaped" if core.from_stage(e) else "harness", traceback.format_exc())
                data = pickle.dumps(res, protocol=4)
                view = memoryview(data)
                os.set_blocking(w, False)
                import fcntl
                fcntl.fcntl(w, 1031, 1 << 20)       # F_SETPIPE_SZ
                while view:
                    view = view[os.write(w, view):]
                code = 0
            finally:
                L.sim_turn_finished()
                os._exit(code)
        os.close(w)
        pids.append(pid)
        pipes.append(r)
        wait(L, i, pids)
    switches, last, step = 0, None, 0
    while True:
        waiting = [i for i in range(n) if L.sim_turn_state(i) == 1]
        if not waiting:
            break
        if step < len(schedule):
            i = waiting[schedule[step] % len(waiting)]
        else:
            i = waiting[0]
        step += 1
        if last is not None and i != last:
            switches += 1
        last = i
        L.sim_turn_mark(i)
        L.sim_turn_go(i)
        wait(L, i, pids)
    ctx.os.arm(False)
    out = []
    for pid, r in zip(pids, pipes):
        buf = b""
        while True:
            b = os.read(r, 1 << 20)
            if not b:
                break
            buf += b
        os.close(r)
        _, st = os.waitpid(pid, 0)
        if os.WIFSIGNALED(st):
            out.append(("signal:%d" % os.WTERMSIG(st), None))
        elif os.WEXITSTATUS(st) == 77:
            out.append(("crash", None))
        elif buf:
            kind, val = pickle.loads(buf)
            if kind == "harness":
                raise core.HarnessError(val)
            out.append(("ok" if kind == "value" else "exception", val))
        else:
            out.append(("exit:%d" % os.WEXITSTATUS(st), None))
    return out, switches, step


def wait(L, i, pids):
    """Until process i waits for its turn or has ended."""
    for _ in range(600):
        if L.sim_turn_wait_report(100) == 0:
            return
        if i < len(pids):
            # died without saying so?
            try:
                info = os.waitid(os.P_PID, pids[i], os.WEXITED | os.WNOHANG | os.WNOWAIT)
            except ChildProcessError:
                info = True
            if info is not None:
                L.sim_turn_dead(i)
                return
    for p in pids:
        os.kill(p, signal.SIGKILL)
    raise Stuck("a process neither finished nor made a system call")

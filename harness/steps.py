"""What is on disk at every moment of a step: the states it can be interrupted in

A step is run line by line; whenever the disk below the root has changed, the state is
kept.  That is what would be left if the process ended there: what the process still
has in its buffers is not on disk.  Between two states in which a file grew, it may
also have been written in part.
"""
import os
import sys
import shutil
import signal
import resource
from pathlib import Path

#: only these are followed line by line (nothing else touches files)
FOLLOW = ("/resistics/", "/numpy/lib/", "zipfile.py", "pathlib.py", "shutil.py", "tempfile.py", "contextlib.py", "/numpy/compat/", "/os.py", "/json/")


class Interrupted(BaseException):
    """The user or the system ends the step"""


def signature(root):
    out = []
    stack = [str(root)]
    while stack:
        d = stack.pop()
        try:
            with os.scandir(d) as it:
                for e in it:
                    if e.is_dir(follow_symlinks=False):
                        out.append(e.path)
                        stack.append(e.path)
                    else:
                        s = e.stat(follow_symlinks=False)
                        out.append((e.path, s.st_ino, s.st_size, s.st_mtime_ns))
        except FileNotFoundError:
            out.append((d, "absent"))
    return sorted(map(str, out))


def snapshot(root):
    """Relative path to (inode, contents), None for a directory"""
    res = {}
    if not root.exists():
        return None
    for p in sorted(root.rglob("*")):
        r = str(p.relative_to(root))
        if p.is_dir():
            res[r] = None
        else:
            res[r] = (p.stat().st_ino, p.read_bytes())
    return res


def restore(root, snap):
    if root.exists():
        shutil.rmtree(root)
    if snap is None:
        return
    root.mkdir(parents=True)
    for r, v in snap.items():
        if v is None:
            (root / r).mkdir(parents=True, exist_ok=True)
        else:
            (root / r).parent.mkdir(parents=True, exist_ok=True)
            (root / r).write_bytes(v[1])


def follow(root, fn, changed):
    """Run fn; changed() is called whenever the disk below the root has changed"""
    last = [signature(root)]

    def look():
        now = signature(root)
        if now != last[0]:
            last[0] = now
            sys.settrace(None)
            try:
                changed()
            finally:
                last[0] = signature(root)
                sys.settrace(enter)

    def local(frame, event, arg):
        look()
        return local

    def enter(frame, event, arg):
        f = frame.f_code.co_filename
        if any(x in f for x in FOLLOW):
            return local(frame, event, arg)
        return None

    sys.settrace(enter)
    try:
        return fn()
    finally:
        sys.settrace(None)


def states(root, fn):
    """All states of the disk below the root while fn runs; the result of fn is dropped"""
    got = [snapshot(root)]
    follow(root, fn, lambda: got.append(snapshot(root)))
    end = snapshot(root)
    if plain(end) != plain(got[-1]):
        got.append(end)
    return got


def plain(snap):
    return None if snap is None else {k: v and v[1] for k, v in snap.items()}


def torn(before, after, rng):
    """States between two: a file that grew is there in part"""
    res = []
    for k, v in (after or {}).items():
        old = (before or {}).get(k)
        if v is None or old is None or old[0] != v[0]:
            continue
        a, b = old[1], v[1]
        if a and len(b) >= len(a) and not b.startswith(a):
            # written over what was there without emptying it first
            for n in sorted({1, len(b) // 2, rng.randint(1, len(b) - 1)}):
                res.append(dict(after, **{k: (v[0], b[:n] + a[n:])}))
        if len(b) > len(a) + 1 and b.startswith(a):
            for n in sorted({len(a) + 1, rng.randint(len(a) + 1, len(b) - 1), len(b) - 1}):
                res.append(dict(after, **{k: (v[0], b[:n])}))
    return res


def interrupted(root, fn, k):
    """Run fn and end it after its k-th change of the disk; True when it was ended"""
    count = [0]

    def changed():
        count[0] += 1
        if count[0] == k:
            raise Interrupted()

    try:
        follow(root, fn, changed)
    except Interrupted:
        return True
    return False


def full_disk(fn, size):
    """Run fn in a process that cannot write a file beyond a size: ok, an error, or died"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.alarm(0)
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (size, resource.getrlimit(resource.RLIMIT_FSIZE)[1]))
            try:
                fn()
                os.write(w, b"ok")
            except Exception as e:
                os.write(w, ("error " + type(e).__name__).encode())
        finally:
            os._exit(0)
    os.close(w)
    got = b""
    while True:
        x = os.read(r, 4096)
        if not x:
            break
        got += x
    os.close(r)
    os.waitpid(pid, 0)
    return got.decode() or "died"


# ------------------------------------------------------------------ steps in turns
import threading

#: calls before which another step may get its turn
MAKES = {"mkdir", "makedirs", "open", "unlink", "remove", "rename", "replace", "touch", "write_text", "write_bytes", "rmdir", "save", "savetxt", "_savez", "rmtree"}


class Turns:
    """Steps of one process each in its thread, exactly one of which is running at a time

    turns: who gets the next turn and how many gates it lasts.  A gate is where a step is
    about to do something to the disk, or has just done it (writes), or any call at all.
    """

    def __init__(self, root, fns, turns, writes):
        self.root, self.fns, self.turns, self.writes = root, fns, list(turns), writes
        self.go = [threading.Event() for _ in fns]
        self.done = [False] * len(fns)
        self.results = [None] * len(fns)
        self.errors = [""] * len(fns)
        self.left = 0
        self.gates = [0] * len(fns)
        self.over = threading.Event()

    def hand_over(self, i):
        """The turn of i has ended, or i is done"""
        while self.turns:
            j, n = self.turns.pop(0)
            if not self.done[j]:
                self.left = n
                break
        else:
            rest = [k for k in range(len(self.fns)) if not self.done[k]]
            if not rest:
                self.over.set()
                return i
            j, self.left = rest[0], 10**9
        if j != i:
            self.go[j].set()
        return j

    def gate(self, i):
        self.gates[i] += 1
        self.left -= 1
        if self.left > 0:
            return
        if self.hand_over(i) != i:
            self.go[i].wait()
            self.go[i].clear()

    def body(self, i):
        self.go[i].wait()
        self.go[i].clear()

        def local(frame, event, arg):
            if event == "return":
                self.gate(i)
            return local

        def enter(frame, event, arg):
            f = frame.f_code.co_filename
            if not any(x in f for x in FOLLOW):
                return None
            if not self.writes:
                self.gate(i)
                return None
            name = frame.f_code.co_name
            if name not in MAKES or "/resistics/" in f:
                return None
            if name == "open" and not set(str(frame.f_locals.get("mode", "r"))) & set("wax+"):
                return None
            self.gate(i)
            return local

        sys.settrace(enter)
        try:
            self.results[i] = self.fns[i]()
        except Exception as e:
            self.errors[i] = f"{type(e).__name__}: {e}"[:200]
        finally:
            sys.settrace(None)
            self.done[i] = True
            self.hand_over(i)

    def run(self):
        threads = [threading.Thread(target=self.body, args=(i,), daemon=True) for i in range(len(self.fns))]
        for x in threads:
            x.start()
        self.hand_over(-1)
        for x in threads:
            x.join()
        return self

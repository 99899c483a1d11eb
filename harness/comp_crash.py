"""C17: a build with intermittent saving that dies can be resumed or fails."""
import multiprocessing
import os
import random
import shutil
import sys
import tempfile

from comp_build import diag_digest, grid_digest

TRACE_MODULE = "T_Crash"


def models(prop, tier):
    rows, deaths = (3, 2) if tier == "quick" else (5, 4)
    return [dict(module="MC_Checkpoint", name="left%d" % left, edges=True,
                 cfg="SPECIFICATION Fair\nCONSTANTS Rows = %d\nDeaths = %d\n"
                     "SafeClear = TRUE\nLeft = %d\nINVARIANT Inv\n"
                     "PROPERTY Ends\nACTION_CONSTRAINT Emit\n" % (
                         rows, deaths, left)) for left in (0, 2)]


def assumptions(prop):
    return ["a death leaves what was written before it, the file being "
            "written cut off anywhere; what the operating system had not yet "
            "written to disk is not lost",
            "checkpoints are written by ShallotGrid.save, whose calls tell "
            "which row is complete; where it is not called, only the result "
            "of loading is judged"]


def corruptors(prop):
    def dead(s, cond):
        for r in s["recs"]:
            if r["op"] == "dead" and cond(r):
                return r

    def partial(s):
        r = dead(s, lambda r: r["res"] == "ok")
        if r:
            r["out"] = "0"
            return s

    def lost(s):
        r = dead(s, lambda r: r["res"] == "ok" and r["phase"] == "quiet" and
                 r["rows"] > 0)
        if r:
            r["res"] = "LoadError"
            return s

    def redone(s):
        r = dead(s, lambda r: r["res"] == "ok" and r["rows"] > 1 and
                 r["first"] > 0)
        if r:
            r["first"] = 0
            return s
    return [("partial", partial), ("lost", lost), ("redone", redone)]


def relevant(prop, sessions):
    return sum(1 for s in sessions for r in s["recs"] if r["op"] == "dead")


MUTATING = ("os.mkdir", "os.rmdir", "os.remove", "os.rename", "os.truncate",
            "os.link", "os.symlink", "shutil.rmtree", "shutil.move",
            "shutil.copyfile")


class Stop(BaseException):
    pass


class Entries(list):
    """what os.scandir returns"""

    def __enter__(self):
        return self

    def __exit__(self, *error):
        pass

    def __iter__(self):
        while self:
            yield self.pop(0)

    def __next__(self):
        if not self:
            raise StopIteration
        return self.pop(0)

    def close(self):
        self.clear()


class Watch:
    """What a process does to the files, seen before it is done."""
    on = None
    installed = False
    order = random.Random(17)

    @classmethod
    def install(cls):
        if not cls.installed:
            sys.addaudithook(cls.hook)
            os.scandir = cls.listing(os.scandir)
            os.listdir = cls.listing(os.listdir)
            cls.installed = True

    @classmethod
    def listing(cls, original):
        """a file system may list a folder in any order"""
        def listed(*args, **kwargs):
            found = original(*args, **kwargs)
            if cls.on is None or cls.on.busy:
                return found
            entries = list(found)
            cls.order.shuffle(entries)
            if cls.order.random() < 0.5:
                last = cls.order.choice(["y_value.npy", "num_fxfy.npy"])
                entries.sort(key=lambda e: getattr(e, "name", e) != last)
            if isinstance(found, list):
                return entries
            found.close()
            return Entries(entries)
        return listed

    @classmethod
    def hook(cls, event, args):
        watch = cls.on
        if watch is None or watch.busy:
            return
        if event == "open":
            path, mode, flags = args
            if isinstance(path, int) or str(path).startswith("/dev"):
                return
            writes = (isinstance(mode, str) and set(mode) & set("wax+")) or (
                isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR))
            if not writes:
                return
        elif event not in MUTATING:
            return
        watch.busy = True
        try:
            watch.event(event)
        finally:
            watch.busy = False


def snapshot():
    dirs, files = [], {}
    for folder, names, found in os.walk("."):
        dirs += [os.path.join(folder, n) for n in names]
        for name in found:
            path = os.path.join(folder, name)
            with open(path, "rb") as f:
                files[path] = f.read()
    return sorted(dirs), files


def restore(snap, where):
    os.mkdir(where)
    for d in snap[0]:
        os.makedirs(os.path.join(where, d), exist_ok=True)
    for path, data in snap[1].items():
        with open(os.path.join(where, path), "wb") as f:
            f.write(data)


class Run(Watch):
    """Phases and snapshots of one build."""

    def __init__(self, rows, done=0, fresh=True, stop=None):
        self.rows, self.done, self.busy = rows, done, False
        self.phase = "untouched" if fresh else "quiet"
        self.points = []        # (phase, rows, snapshot, event)
        self.first = -1
        self.stop, self.n = stop, 0

    def note(self, phase, event):
        self.n += 1
        self.points.append((phase, self.done, snapshot(), event))
        if self.stop and self.stop[0] == self.n:
            self.stop = (0, self.stop[1])
            self.died = (phase, self.done)
            raise self.stop[1]

    def event(self, event):
        self.note(self.phase, event)
        if self.phase == "untouched":
            self.phase = "start"
        elif self.phase == "quiet":
            self.phase = "end" if self.done >= self.rows else "start"
        if self.phase == "start" and self.first >= 0:
            self.phase = "write"

    def save(self, original, args, kwargs):
        y = kwargs.get("y_value", args[2] if len(args) > 2 else None)
        if y is None:
            return original(*args, **kwargs)
        if self.first < 0:
            self.first = int(y)
        self.busy = True
        try:
            self.note("quiet" if self.done else "write", "save")
        finally:
            self.busy = False
        self.phase = "write"
        out = original(*args, **kwargs)
        self.done = int(y) + 1
        self.phase = "quiet" if self.done >= self.rows else "write"
        return out


def watched(run, fn):
    """(outcome, value) of fn with its files and saves watched by run."""
    import Shallot
    from obs import OpTimeout, call
    original = Shallot.ShallotGrid.save

    def save(*args, **kwargs):
        return run.save(original, args, kwargs)
    Watch.install()
    Shallot.ShallotGrid.save = save
    Watch.on = run
    try:
        return call(fn, _limit=60)
    except OpTimeout:
        return "Timeout", None
    except BaseException as error:
        return type(error).__name__, None
    finally:
        Watch.on = None
        Shallot.ShallotGrid.save = original


def digest(g):
    return grid_digest(g) + " " + diag_digest(g)


def temp_name():
    import Shallot
    return getattr(Shallot, "TEMP_SAVE_DIR", "./.temp_shallot")


class Fresh:
    """Runs in its own folder, which is removed afterwards."""

    def __init__(self, top):
        self.top = top

    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix="d", dir=self.top)
        os.chdir(self.dir)
        return self.dir

    def __exit__(self, *error):
        os.chdir(self.top)
        shutil.rmtree(self.dir)


def build(top, args, n, kd, before=None, stop=None):
    """A watched build in a new folder: outcome, digest, run, last files."""
    from GridParameters import GridParameters
    from Shallot import ShallotGrid
    with Fresh(top) as where:
        if before:
            inner = os.path.join(where, "w")
            restore(before, inner)
            os.chdir(inner)
        run = Run(args[5], stop=stop)
        res, g = watched(run, lambda: ShallotGrid(
            GridParameters(*args), n, logging_level=50,
            keep_diagnostics=kd, intermittent_saving=True))
        return res, "error" if g is None else digest(g), run, snapshot()


def resume(task):
    """Loads what a death left behind."""
    top, snap, how, rows, done, watch = task
    from Shallot import ShallotGrid
    with Fresh(top) as where:
        inner = os.path.join(where, "w")
        restore(snap, inner)
        os.chdir(inner)
        path = temp_name()
        if not os.path.isdir(path):
            pass
        elif how == "absolute":
            path = os.path.abspath(path)
        elif how == "plain":
            path = os.path.normpath(path)
        elif how == "copy":
            shutil.copytree(path, "backup")
            path = "backup"
        elif how == "moved":
            os.rename(path, "moved")
            path = "./moved"
        run = Run(rows, done, fresh=False)
        if not watch:
            run.event = lambda event: None
            run.note = lambda phase, event: None
        res, g = watched(run, lambda: ShallotGrid.load(path,
                                                       logging_level=50))
        out = "error" if g is None else digest(g)
        return res, out, run.first, run.points if watch else []


def interrupt(task):
    """A build that an exception ends at its k-th event, then loaded."""
    top, args, n, kd, before, k, error, how = task
    res, out, run, left = build(top, args, n, kd, before, (k, error))
    if res == "ok":
        return None
    phase, done = run.died
    back = resume((top, left, how, args[5], done, False))
    return phase, done, back


def variants(points, rng, quick):
    """Crash points with the file that was being written cut off."""
    out = []
    last = None
    for i, (phase, rows, snap, event) in enumerate(points):
        if last is None or snap != last[2]:
            out.append((phase, rows, snap, "before " + event))
            if last and last[3] == "open":
                for path, data in snap[1].items():
                    if last[2][1].get(path) == data or not data:
                        continue
                    cuts = {0, len(data) - 1, rng.randrange(len(data)),
                            min(len(data) - 1, 64)}
                    if quick:
                        cuts = {0, rng.choice(sorted(cuts))}
                    for cut in sorted(cuts):
                        cut_snap = (snap[0], {**snap[1], path: data[:cut]})
                        out.append((last[0] if last[0] not in
                                    ("quiet", "untouched") else "write",
                                    last[1], cut_snap, "cut"))
        elif phase == "quiet":
            out.append((phase, rows, snap, "before " + event))
        last = (phase, rows, snap, event)
    return out


def drive(prop, seed, tier, edges):
    rng = random.Random(seed * 1000 + 17)
    Watch.order.seed(seed)
    quick = tier == "quick"
    top = os.getcwd()
    GRIDS = [((0, 1, 2, 0, 1, 3, 2, 2), 20),
             ((-1, 2, 2, 0.25, 1.5, 3, 3, 2), 20),
             ((0, 1.5, 2, 0, 2, 4, 2.5, 2), 15),
             ((-1, 1, 3, -1.5, 1, 3, 1.8, 2), 20),
             ((0.2, 1.2, 2, 0.5, 2, 2, 4, 3), 25),
             ((1.2, 2, 1, 0.5, 2, 4, 4, 4), 20)]
    HOWS = ["temp", "temp", "temp", "absolute", "plain", "copy", "moved"]

    def dead(phase, rows, back, what):
        res, out, first = back[:3]
        return dict(op="dead", phase=phase, rows=rows, res=res, out=out,
                    first=first, what=what)

    # each pair of a folder that is left over and a number of deaths, as in
    # the model
    pairs = sorted({(e["left"] > 0, e["deaths"]) for name in edges
                    for e in edges[name]})
    plan = [(left, deaths, kd) for left, deaths in pairs
            for kd in ((rng.random() < 0.5,) if quick else (False, True))]
    if not quick:
        plan = plan * 4
    context = multiprocessing.get_context("fork")
    with context.Pool(8) as pool:
        # deaths while the checkpoint of another build is cleared, in any order
        for _ in range(14 if quick else 150):
            args, n = rng.choice(GRIDS)
            other = rng.choice([g for g in GRIDS if g[0] != args])
            res, full, run, _ = build(top, *other, rng.random() < 0.5)
            quiet = [p for p in run.points if p[0] == "quiet"]
            if res != "ok" or not quiet:
                continue
            res, out, run, _ = build(top, args, n, False,
                                     rng.choice(quiet[:-1] or quiet)[2])
            start = [p for p in run.points if p[0] in ("untouched", "start")]
            tasks = [(top, p[2], rng.choice(HOWS), args[5], p[1], False)
                     for p in start]
            yield dict(what="cleared", w=len(start), recs=[
                dict(op="build", res=res, out=out),
                dict(op="left", res="ok", out=full)] + [
                dead(p[0], p[1], back, "before " + p[3])
                for p, back in zip(start, pool.imap(resume, tasks, 4))])
        for left, deaths, kd in plan:
            args, n = rng.choice(GRIDS)
            recs, before = [], None
            if left:
                # the checkpoint that another, interrupted build left
                other = rng.choice([g for g in GRIDS if g[0] != args])
                res, out, run, _ = build(top, *other, rng.random() < 0.5)
                quiet = [p for p in run.points if p[0] == "quiet"]
                full = out
                if res == "ok" and quiet:
                    before = rng.choice(quiet[:-1] or quiet)[2]
            res, out, run, _ = build(top, args, n, kd, before)
            if res == "ok" and run.first < 0 and not run.points:
                run.points = []
            recs.append(dict(op="build", res=res, out=out))
            if before:
                recs.append(dict(op="left", res="ok", out=full))
            recs.append(dict(op="progress", res=res, rows=args[5],
                             seen=bool(run.points)))
            points, known = run.points, len(recs)
            if deaths == 0:
                todo = variants(points, rng, quick)
                most = 110 if quick else 1000
                if len(todo) > most:
                    keep = [t for t in todo if t[0] == "quiet" or
                            "cut" not in t[3]]
                    rest = [t for t in todo if t not in keep]
                    todo = keep + rng.sample(rest, max(
                        0, min(len(rest), most - len(keep))))
                tasks = [(top, p[2], rng.choice(HOWS), args[5], p[1], False)
                         for p in todo]
                for p, back in zip(todo, pool.imap(resume, tasks, 4)):
                    phase = p[0]
                    if not before and phase == "untouched":
                        phase = "start"
                    recs.append(dead(phase, p[1], back, p[3]))
                # deaths by an exception
                total = len(points)
                ks = [k for k in range(1, total + 1)
                      if points[k - 1][0] == "quiet"]
                ks += rng.sample(range(1, total + 1),
                                 min(total, 10 if quick else 60))
                tasks = [(top, args, n, kd, before, k, rng.choice(
                    [KeyboardInterrupt(), OSError(28, "disk full"),
                     MemoryError(), SystemExit(1)]), rng.choice(HOWS))
                    for k in ks]
                for got in pool.imap(interrupt, tasks, 2):
                    if got:
                        phase, rows, back = got
                        if phase == "untouched" and not before:
                            phase = "start"
                        recs.append(dead(phase, rows, back, "exception"))
                yield dict(what="one death", recs=recs, w=len(recs))
                continue
            # resumed builds that die as well
            chain = [p for p in points if p[0] == "quiet" and p[1] > 0]
            rng.shuffle(chain)
            for p in chain[:2 if quick else 6]:
                snap, done, sess = p[2], p[1], list(recs[:known])
                sess = [r for r in sess if r["op"] != "left"] + \
                    [dict(op="left", res="ok", out=out)]
                for level in range(deaths):
                    got = resume((top, snap, "temp" if level else
                                  rng.choice(HOWS[:5]), args[5], done, True))
                    sess.append(dead("quiet", done, got, "resumed"))
                    # its own start does not touch the checkpoint
                    todo = variants(got[3], rng, True)
                    if len(todo) > 40 and quick:
                        todo = rng.sample(todo, 40)
                    tasks = [(top, q[2], "temp", args[5], q[1], False)
                             for q in todo]
                    for q, back in zip(todo, pool.imap(resume, tasks, 4)):
                        sess.append(dead(q[0], q[1], back, q[3]))
                    later = [q for q in got[3] if q[0] == "quiet" and
                             q[1] < args[5]]
                    if not later:
                        break
                    q = rng.choice(later)
                    snap, done = q[2], q[1]
                yield dict(what="%d deaths" % deaths, recs=sess, w=len(sess))

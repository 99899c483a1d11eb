"""Check runner: TLC models, drivers on the real code, TLC trace validation."""
import concurrent.futures as cf
import hashlib
import importlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
CP = ("/opt/veriftools/tla/tla2tools.jar:"
      "/opt/veriftools/tla/CommunityModules-deps.jar")
WORKERS = max(2, min(8, os.cpu_count() or 2))


class MachineryError(Exception):
    pass


def java(scratch, module, cfg, env=None, workers=1, timeout=600, heap="2g",
         extra=()):
    """Runs TLC on spec/<module>.tla with the given configuration text."""
    meta = tempfile.mkdtemp(prefix="meta", dir=scratch)
    cfg_path = os.path.join(meta, module + ".cfg")
    with open(cfg_path, "w") as f:
        f.write(cfg)
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
           "-Xss64m", "-Xmx" + heap, "-cp", CP, "tlc2.TLC",
           "-workers", str(workers), "-metadir", os.path.join(meta, "m"),
           "-noGenerateSpecTE", "-deadlock", "-config", cfg_path]
    cmd += list(extra) + [os.path.join(SPEC, module + ".tla")]
    out_path = os.path.join(meta, "out.txt")
    with open(out_path, "wb") as out:
        try:
            rc = subprocess.run(cmd, stdout=out, stderr=subprocess.STDOUT,
                                env={**os.environ, **(env or {})}, cwd=meta,
                                timeout=timeout).returncode
        except subprocess.TimeoutExpired:
            rc = -1
    with open(out_path, errors="replace") as f:
        text = f.read()
    shutil.rmtree(meta, ignore_errors=True)
    return rc, text


def emitted(text, prefix):
    """The JSON values that a specification printed with the given prefix."""
    found = []
    start = '"' + prefix + " "
    for line in text.splitlines():
        if line.startswith(start):
            found.append(json.loads(json.loads(line)[len(prefix) + 1:]))
    return found


STATS = re.compile(r"(\d+) states generated, (\d+) distinct states found")


def model_check(scratch, mc):
    """mc: dict(module, cfg, name, workers, heap, timeout). Returns stats."""
    t0 = time.time()
    rc, text = java(scratch, mc["module"], mc["cfg"], env=mc.get("env"),
                    workers=mc.get("workers", 2), heap=mc.get("heap", "3g"),
                    timeout=mc.get("timeout", 700))
    m = STATS.findall(text)
    if rc != 0 or not m or "No error has been found" not in text:
        raise MachineryError("model %s: TLC ended with %s\n%s" % (
            mc["module"], rc, "\n".join(
                l for l in text.splitlines()
                if not l.startswith('"EDGE'))[-2500:]))
    edges = sorted(emitted(text, "EDGE"),
                   key=lambda e: json.dumps(e, sort_keys=True))
    if mc.get("edges") and not edges:
        raise MachineryError("model %s emitted no transitions" % mc["module"])
    return dict(name=mc.get("name", mc["module"]), transitions=int(m[-1][0]),
                states=int(m[-1][1]), edges=edges,
                wall=round(time.time() - t0, 2))


class NotJudgeable(Exception):
    """The specification has no value for what the code did in a record."""


NO_VALUE = re.compile(r"Attempted to |In evaluation, the identifier|"
                      r"evaluating the expression|None of the cases|"
                      r"in its domain|in the domain|out of bounds|overflow|"
                      r"unable to fingerprint", re.I)


def trace_job(scratch, module, records, path, timeout):
    with open(path, "w") as f:
        for r in records:
            f.write(json.dumps(r, separators=(",", ":")) + "\n")
    cfg = "INIT TraceInit\nNEXT TraceNext\nCHECK_DEADLOCK FALSE\n"
    rc, text = java(scratch, module, cfg, env={"TRACE": path}, timeout=timeout)
    done = emitted(text, "DONE")
    if rc != 0 or done != [len(records)]:
        at = re.findall(r"^(?:/\\ )?l = (\d+)$", text, re.M)
        if rc > 0 and not done and NO_VALUE.search(text) and \
                "Java heap" not in text and "StackOverflow" not in text:
            # state k is judging record k; without a trace it is the first
            raise NotJudgeable(min(int(at[-1]) if at else 1, len(records)))
        keep = os.path.join(ROOT, "replays")
        os.makedirs(keep, exist_ok=True)
        shutil.copy(path, os.path.join(keep, "machinery_trace.ndjson"))
        raise MachineryError("trace %s: TLC ended with %s, consumed %s of %d\n%s"
                             % (module, rc, done, len(records), text[-6000:]))
    return [(e["l"], e["f"]) for e in emitted(text, "FAIL")]


def validate(scratch, module, sessions, timeout=800, tag=None):
    """Runs the trace specification; returns {session index: [(rec, [tags])]}.

    A recorded session on a record of which the specification is undefined
    (an index that does not exist, a value of another kind) fails with the
    given tag: the code did what no behaviour of the specification does.
    """
    if not sessions:
        return {}
    order = sorted(range(len(sessions)),
                   key=lambda i: -sessions[i].get("w", len(sessions[i]["recs"])))
    total = sum(s.get("w", len(s["recs"])) for s in sessions)
    n = max(1, min(WORKERS, total // 40 + 1, len(sessions)))
    bins, load = [[] for _ in range(n)], [0] * n
    for i in order:
        k = load.index(min(load))
        bins[k].append(i)
        load[k] += sessions[i].get("w", len(sessions[i]["recs"]))
    result = {}

    def run(k):
        extra, left = [], list(bins[k])
        while True:
            where, records = [], []
            for i in left:
                for j, r in enumerate(sessions[i]["recs"]):
                    where.append((i, j))
                    records.append(r)
            if not records:
                return extra
            try:
                fails = trace_job(scratch, module, records, os.path.join(
                    scratch, "%s_%d.ndjson" % (module, k)), timeout)
            except NotJudgeable as error:
                at = where[error.args[0] - 1]
                extra.append((at, [tag]))
                left.remove(at[0])
                if len(extra) > 4:      # enough is known
                    return extra
                continue
            return extra + [(where[l - 1], tags) for l, tags in fails]

    with cf.ThreadPoolExecutor(n) as ex:
        for part in ex.map(run, range(n)):
            for (i, j), tags in part:
                result.setdefault(i, []).append((j, tags))
    return result


def drive(scratch, comp, prop, seed, tier, edges, timeout):
    edges_path = os.path.join(scratch, "edges.json")
    out_path = os.path.join(scratch, "sessions.ndjson")
    with open(edges_path, "w") as f:
        json.dump(edges, f)
    work = os.path.join(scratch, "cwd")
    os.makedirs(work, exist_ok=True)
    env = {k: v for k, v in os.environ.items() if k != "PYTHONPATH"}
    env.update(MPLBACKEND="Agg", MPLCONFIGDIR=os.path.join(scratch, "mpl"),
               PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
               TQDM_DISABLE="1", VERIF_REPO=REPO)
    log = os.path.join(scratch, "driver.log")
    with open(log, "wb") as f:
        try:
            rc = subprocess.run(
                [PY, os.path.join(ROOT, "harness", "drive.py"), comp, prop,
                 str(seed), tier, edges_path, out_path],
                stdout=f, stderr=subprocess.STDOUT, cwd=work, env=env,
                timeout=timeout).returncode
        except subprocess.TimeoutExpired:
            rc = "timeout"
    with open(log, errors="replace") as f:
        tail = f.read()[-4000:]
    if rc == 3:     # the code raised, or returned something unobservable,
                    # where conforming code does neither
        return None, tail
    if rc == "timeout":
        raise MachineryError("driver %s timed out\n%s" % (comp, tail))
    if rc != 0:
        raise MachineryError("driver %s ended with %s\n%s" % (comp, rc, tail))
    with open(out_path) as f:
        return [json.loads(line) for line in f], tail


def known_findings():
    path = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f)["findings"]


def write_evidence(prop, data):
    path = os.path.join(ROOT, "evidence", prop + ".json")
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        json.dump(data, f, indent=1)


def replay_file(prop, n, data):
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s_%d.json" % (prop, n))
    with open(path, "w") as f:
        json.dump(data, f, indent=1)
    return path


def run_check(prop, comp_name):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    comp = importlib.import_module("comp_" + comp_name)
    scratch = tempfile.mkdtemp(prefix="verif_%s_" % prop)
    try:
        return _run(prop, comp_name, comp, seed, tier, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _run(prop, comp_name, comp, seed, tier, scratch, t0):
    # 1. the models
    models = comp.models(prop, tier)
    with cf.ThreadPoolExecutor(3) as ex:
        stats = list(ex.map(lambda mc: model_check(scratch, mc), models))
    edges = {s["name"]: s["edges"] for s in stats}
    t1 = time.time()

    # 2. the code
    sessions, log = drive(scratch, comp_name, prop, seed, tier, edges,
                          timeout=780 if tier == "quick" else 7200)
    violations, known, canaries, rejected = [], {}, 0, 0
    if sessions is None:
        path = replay_file(prop, 0, dict(property=prop, seed=seed, tier=tier,
                                         fails=[prop + ".raised"], log=log))
        violations.append(path)
        sessions, t2 = [], time.time()
    else:
        t2 = time.time()
        # 3. conformance, with corrupted copies of recorded sessions
        corrupt = []
        counts = {}
        for i, s in enumerate(sessions):
            for name, fn in comp.corruptors(prop):
                if counts.get(name, 0) >= 3:
                    continue
                try:
                    copy = fn(json.loads(json.dumps(s)))
                except (KeyError, IndexError, TypeError, AttributeError):
                    copy = None     # not a recording this one is made for
                if copy is not None:
                    counts[name] = counts.get(name, 0) + 1
                    corrupt.append((i, name, copy))
        all_sessions = sessions + [c[2] for c in corrupt]
        fails = validate(scratch, comp.TRACE_MODULE, all_sessions,
                         timeout=800 if tier == "quick" else 7200,
                         tag=prop + ".not_judgeable")
        mine = {}
        for i, items in fails.items():
            for j, tags in items:
                for tag in tags:
                    if tag.startswith(prop + "."):
                        mine.setdefault(i, []).append((j, tag))
        listed = {f["tag"]: f for f in known_findings()
                  if f["property"] == prop}
        bad = {}
        for i in range(len(sessions)):
            for j, tag in mine.get(i, []):
                if tag in listed:
                    known[tag] = known.get(tag, 0) + 1
                else:
                    bad.setdefault(i, []).append((j, tag))
        for name, _ in comp.corruptors(prop):
            if not counts.get(name) and not bad:
                raise MachineryError("canary %s was never made" % name)
        caught, missed = set(), {}
        for k, (i, name, copy) in enumerate(corrupt):
            if i in bad:
                continue
            canaries += 1
            base = {t for _, t in mine.get(i, [])}
            new = {t for _, t in mine.get(len(sessions) + k, [])} - base
            if any(t not in listed for t in new):
                rejected += 1
                caught.add(name)
            else:
                missed.setdefault(name, (i, copy))
        for name, (i, copy) in missed.items():
            # a corruption may happen to make no difference, but not each time
            if name not in caught and not bad:
                path = replay_file(prop, 999, dict(canary=name, session=copy))
                raise MachineryError("canary %s of session %d was accepted, see "
                                     "%s" % (name, i, path))
        shown = {}
        for i, items in sorted(bad.items()):
            tags = sorted({t for _, t in items})
            key = tuple(tags)
            if key in shown and (shown[key] >= 2 or len(violations) >= 8):
                continue
            shown[key] = shown.get(key, 0) + 1
            last = max(j for j, _ in items)
            violations.append(replay_file(prop, len(violations), dict(
                property=prop, seed=seed, tier=tier, fails=tags,
                failing_records=[[j, t] for j, t in items][:40],
                what=sessions[i].get("what"),
                history=sessions[i]["recs"][:last + 1][-60:])))
    t3 = time.time()

    # 4. evidence and verdict
    recs = sum(len(s["recs"]) for s in sessions)
    mine_recs = comp.relevant(prop, sessions) if hasattr(comp, "relevant") \
        else recs
    samples = [dict(what=s.get("what"), recs=s["recs"][:3])
               for s in sessions[:1] + sessions[len(sessions) // 2:
                                                len(sessions) // 2 + 1]]
    samples = json.loads(json.dumps(samples))
    text = json.dumps(samples)
    if len(text) > 6000:
        samples = [text[:6000]]
    write_evidence(prop, dict(
        property=prop, tier=tier, seed=seed, level="model_checking",
        coverage=dict(
            states=sum(s["states"] for s in stats),
            transitions=sum(s["transitions"] for s in stats),
            models=[{k: v for k, v in s.items() if k != "edges"}
                    for s in stats],
            transitions_replayed_from_model=sum(len(s["edges"])
                                                for s in stats),
            traces_validated_against_impl=len(sessions),
            records_validated=recs,
            records_deciding_this_property=mine_recs,
            distinct_sessions=len({hashlib.sha1(json.dumps(
                s["recs"], sort_keys=True).encode()).hexdigest()
                for s in sessions}),
            canaries_rejected=rejected, canaries=canaries,
            known_findings=known,
            samples=samples,
            seconds=dict(model=round(t1 - t0, 1), driver=round(t2 - t1, 1),
                         conformance=round(t3 - t2, 1))),
        assumptions=comp.assumptions(prop),
        wall_s=round(time.time() - t0, 2), violations=len(violations)))
    for tag, n in known.items():
        what = next(f["what"] for f in known_findings() if f["tag"] == tag)
        print("KNOWN-FINDING: property=%s %s (%d records)" % (prop, what, n))
    for path in violations:
        print("VIOLATION property=%s replay=%s" % (prop, path))
    print("%s %s: %d model states, %d sessions, %d records, %d/%d canaries, "
          "%d violations, %.1f s" % (
              prop, tier, sum(s["states"] for s in stats), len(sessions), recs,
              rejected, canaries, len(violations), time.time() - t0))
    return 1 if violations else 0

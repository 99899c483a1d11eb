"""C18: saved grids load back complete and are never overwritten."""
import os
import random
import shutil

from comp_build import diag_digest, digest, tree

TRACE_MODULE = "T_GridSave"


def models(prop, tier):
    n, e = (5, 2) if tier == "quick" else (7, 3)
    return [dict(module="MC_GridSave", name="saves", edges=True, workers=1,
                 cfg="SPECIFICATION Spec\nCONSTANTS MaxLen = %d\n"
                     "MaxEdits = %d\nVIEW View\nINVARIANT Inv\n"
                     "PROPERTY Frame\nACTION_CONSTRAINT Emit\n" % (n, e))]


def assumptions(prop):
    return ["grids are compared by digests of everything that can be read "
            "from them",
            "files whose absence has a meaning (masks, measurements, the "
            "extension of diagnostics) are damaged but not removed"]


def corruptors(prop):
    def find(s, op, cond=lambda r: True):
        return next((r for r in s["recs"] if r["op"] == op and cond(r)), None)

    def ok(r):
        return r["res"] == "ok"

    def lost(s):
        r = find(s, "load", lambda r: ok(r) and r["grid"]["grads"])
        if r:
            r["grid"]["grads"].pop()
            return s

    def mask(s):
        r = find(s, "load", ok)
        if r:
            r["grid"]["hidden"] = "0"
            return s

    def damage(s):
        dirs = [r["dir"] for r in s["recs"] if r["op"] == "damage"]
        if not dirs:
            return None
        at = next(i for i, r in enumerate(s["recs"]) if r["op"] == "damage")
        good = find(s, "load", ok)
        for r in s["recs"][at:]:
            if r["op"] == "load" and r["res"] != "ok" and good and \
                    r["dir"] == dirs[0]:
                r["res"] = "ok"
                r["grid"] = dict(good["grid"], maps="0")
                return s

    def overwritten(s):
        r = find(s, "save", lambda r: not ok(r))
        if r:
            r["post"] = "0"
            return s

    def twin(s):
        r = find(s, "twin")
        if r:
            r["two"] = dict(r["two"], res="0")
            return s
    return [("lost", lost), ("mask", mask), ("damage", damage),
            ("overwritten", overwritten), ("twin", twin)]


def grid_state(g):
    """Everything that can be read from a grid."""
    import numpy as np
    p = g.parameters

    def num(x):
        return "none" if x is None else repr(float(x))
    from obs import call
    return dict(
        axes=digest(*p.get_vectors(), p.dx, p.dy, p.rf, p.rf_array,
                    p.grid_shape, p.slice_shape, p.extendable),
        n=num(g.num_fxfy),
        maps=digest(*[f(False, False) for f in (
            g.get_disk_radius, g.get_inclination, g.get_tilt, g.get_fx_map,
            g.get_fy_map)]),
        deviation=digest(g.get_diagnostic_map(False, False)),
        hill=digest(*[f(False, True) for f in (
            g.get_disk_radius, g.get_inclination, g.get_tilt, g.get_fx_map,
            g.get_fy_map)]),
        hidden=digest(g.get_combined_mask()), diag=diag_digest(g),
        grads=[dict(pos=num(x.position), meas=num(x.measured_gradient),
                    err=num(x.measured_error), scale=num(x.orbital_scale),
                    tc=num(x.transmission_change),
                    scaled=num(call(x.get_scaled_gradient)[1]),
                    data=digest(x.get_data(False)),
                    shown=digest(x.get_data(True)),
                    mask="none" if x.mask is None else digest(
                        np.array(x.mask)))
               for x in g.gradients or []])


def drive(prop, seed, tier, edges):
    import numpy as np
    from GridParameters import GridParameters
    from Shallot import ShallotGrid
    from obs import call
    rng = random.Random(seed * 1000 + 18)
    quick = tier == "quick"
    top = os.getcwd()
    count = [0]
    GRIDS = [((0, 1, 2, 0, 1, 2, 2, 2), 40),
             ((-1, 2, 3, 0.25, 1.5, 2, 3, 2), 40),
             ((0, 1.5, 2, 0, 2, 3, 2.5, 2), 30),
             ((-1, 1, 2, -1.5, 1, 3, 1.8, 2), 40),
             ((0.2, 1.2, 3, 0.5, 2, 2, 4, 3), 50),
             ((1.2, 2, 1, 0.5, 2, 3, 4, 4), 30)]

    NAMES = [".temp_shallot_2", ".temp_shallot2",
             "my.temp_shallot", "temp", "a b", "p.npy", "gradients_0",
             "y_value", ".p"]

    class World:
        def __init__(self, what):
            self.what = what
            count[0] += 1
            self.dir = os.path.join(top, "g%d" % count[0])
            os.mkdir(self.dir)
            os.chdir(self.dir)
            args, n = rng.choice(GRIDS)
            res, self.g = call(ShallotGrid, GridParameters(*args), n,
                               logging_level=50,
                               keep_diagnostics=rng.random() < 0.6)
            if self.g is None:
                raise RuntimeError("grid not built: " + res)
            self.recs = [dict(op="init", res="ok")]
            self.ecl = None
            self.hurt = {}
            self.twins = {}
            self.edit("eclipse")
            self.edit("gradients")

        def close(self):
            os.chdir(top)
            shutil.rmtree(self.dir)
            return dict(what=self.what, recs=self.recs)

        # ---- edits; what they do is the business of C19 to C22
        def edit(self, kind, g=None, args=None):
            g = self.g if g is None else g
            n = len(g.gradients or [])
            if kind == "eclipse":
                self.ecl = args or (rng.choice([1.0, 2.0, 0.7]),
                                    rng.uniform(2, 6), rng.random())
                return call(g.set_eclipse_parameters, *self.ecl)[0], self.ecl
            if kind == "gradients":
                k = rng.choice([1, 2, 2, 3, 11 if rng.random() < 0.3 else 1])
                pos = [rng.uniform(-0.5, 0.5) for _ in range(k)]
                if k > 1 and rng.random() < 0.4:    # (almost) the same place
                    pos[1] = pos[0] + rng.choice([0, 1e-6])
                args = args or (np.array(pos),
                                np.array([rng.uniform(0, 0.3)
                                          for _ in range(k)]),
                                np.array([rng.uniform(0.1, 2)
                                          for _ in range(k)]),
                                np.array([rng.uniform(0.5, 1)
                                          for _ in range(k)]))
                return call(g.add_gradients, *args)[0], args
            if kind == "hill":
                R = g.get_disk_radius(False, False)
                h = args or float(np.nanquantile(R, rng.random()))
                return call(g.generate_hill_radius_mask, h)[0], h
            if kind == "rescale":
                if n:
                    v = args or rng.uniform(3, 9)
                    return call(g.update_gradient_scaling, v, None, None)[0], v
            elif kind == "remove":
                if n:
                    idx = args if args is not None else np.array(
                        [rng.randrange(n)], dtype="int64")
                    return call(g.remove_gradients, idx)[0], idx
            elif kind == "fit":
                return call(g.determine_gradient_fit)[0], None
            elif kind == "own mask":
                name = rng.choice(["inclination", "tilt", "fx_map", "fy_map"])
                shape = g.get_tilt(False, False).shape
                mask = np.array([rng.random() < 0.3 for _ in
                                 range(int(np.prod(shape)))]).reshape(shape)
                part = getattr(g, name, None)
                if part is not None:
                    return call(part.set_mask, mask)[0], None
            return "none", None

        def others(self, d):
            return tree(".", (d,))

        def save(self, d, again=None):
            g = self.g
            state = grid_state(g)
            pre, opre = self.look(d), self.others(d)
            name = d + rng.choice(["", "", "/"]) if not os.path.exists(d) \
                else d
            if rng.random() < 0.2:
                name = os.path.abspath(name)
            elif rng.random() < 0.4:
                name = "./" + name
            res, _ = call(g.save, name)
            self.recs.append(dict(
                op="save", dir=d, res=res, grid=state, after=grid_state(g),
                pre=pre, post=self.look(d), others_pre=opre,
                others_post=self.others(d)))

        def look(self, d):
            if os.path.isfile(d):
                with open(d) as f:
                    return "file " + f.read()
            return tree(d)

        def occupy(self, d):
            if os.path.exists(d):
                return
            kind = rng.randrange(3)
            if kind == 0:
                os.mkdir(d)
            elif kind == 1:
                with open(d, "w") as f:
                    f.write("a file")
            else:
                os.mkdir(d)
                with open(os.path.join(d, "notes.txt"), "w") as f:
                    f.write("notes")
            self.recs.append(dict(op="occupy", res="ok", dir=d))

        def damage(self, d, how):
            if not os.path.isdir(d) or d in self.hurt:
                return
            paths = [os.path.join(a, f) for a, _, fs in os.walk(d)
                     for f in fs if f.endswith(".npy")]
            if how == "remove":
                paths = [p for p in paths if "mask" not in os.path.basename(p)
                         and "extended" not in os.path.basename(p)]
            if not paths:
                return
            path = rng.choice(sorted(paths))
            with open(path, "rb") as f:
                data = f.read()
            if how == "remove":
                os.remove(path)
            else:
                cut = rng.choice([0, 1, len(data) // 2, len(data) - 1,
                                  rng.randrange(len(data))])
                with open(path, "wb") as f:
                    f.write(data[:cut])
            self.hurt[d] = (path, data)
            self.recs.append(dict(op="damage", res="ok", dir=d,
                                  how=how + " " + path))

        def repair(self, d):
            path, data = self.hurt.pop(d)
            with open(path, "wb") as f:
                f.write(data)
            self.recs.append(dict(op="repair", res="ok", dir=d))

        def load(self, d, adopt):
            pre, opre = self.look(d), self.others(d)
            name = d if rng.random() < 0.7 else "./" + d
            res, g = call(ShallotGrid.load, name, logging_level=50)
            self.recs.append(dict(
                op="load", dir=d, res=res,
                grid={} if g is None else grid_state(g), pre=pre,
                post=self.look(d), others_pre=opre,
                others_post=self.others(d)))
            if g is not None and adopt:
                self.g = g
                if self.ecl:
                    call(g.update_gradient_scaling, *self.ecl[1:])
            return g

        def twin(self, d="twin"):
            """The same calls on a grid and on its loaded copy."""
            self.save(d)
            g = self.load(d, False)
            if g is None:
                return
            old = self.g
            # an eclipse of its own, since it is not saved
            call(old.update_gradient_scaling, transverse_velocity=5.0,
                 limb_darkening=0.5)
            call(g.update_gradient_scaling, transverse_velocity=5.0,
                 limb_darkening=0.5)
            # gradients can be added once the eclipse is set again
            kinds = ["remove", "fit", "hill", "remove"]
            rng.shuffle(kinds)
            for kind in kinds + ["eclipse", "gradients", "fit", "hill"]:
                res, args = self.edit(kind, old)
                res2, _ = self.edit(kind, g, args)
                fits = [call(x.get_gradient_fit) for x in (old, g)]
                sol = [call(x.extract_solutions) if x.gradient_fit is not None
                       else ("none", None) for x in (old, g)]
                one, two = [dict(
                    res=r, grid=grid_state(x),
                    fit="none" if f[1] is None else digest(f[1]),
                    sol=s[0] if s[1] is None else digest(*s[1]))
                    for r, x, f, s in zip((res, res2), (old, g), fits, sol)]
                self.recs.append(dict(op="twin", res="ok", what=kind,
                                      one=one, two=two))

    items = [h for h in edges["saves"] if len(h) >= 4 and
             any(x["op"] == "save" for x in h)]
    for hist in rng.sample(items, min(70 if quick else 1200, len(items))):
        w = World("model history")
        names = dict(zip("pq", ("p", "q") if rng.random() < 0.4 else
                         rng.sample(NAMES, 2)))
        if rng.random() < 0.4:
            w.edit("own mask")
        hist = [dict(h, dir=names[h["dir"]]) if h.get("dir") in names else h
                for h in hist]
        for h in hist:
            if h["op"] == "edit":
                w.edit(h["kind"])
            elif h["op"] == "load":
                w.load(h["dir"], h["adopt"])
            elif h["op"] == "damage":
                w.damage(h["dir"], h["how"])
            else:
                getattr(w, h["op"])(h["dir"])
        for d in names.values():
            w.load(d, False)
        yield w.close()
    for _ in range(12 if quick else 300):
        w = World("twins")
        for _ in range(rng.randrange(4)):
            w.edit(rng.choice(["gradients", "hill", "rescale", "remove",
                               "fit", "gradients"]))
        w.twin()
        yield w.close()
    # every file of a folder is missing or cut off once
    for _ in range(10 if quick else 200):
        w = World("damages")
        for _ in range(rng.randrange(4)):
            w.edit(rng.choice(["gradients", "hill", "rescale", "remove",
                               "own mask"]))
        w.save("p")
        for _ in range(10):
            w.damage("p", rng.choice(["remove", "cut", "cut"]))
            w.load("p", False)
            if "p" in w.hurt:
                w.repair("p")
        w.load("p", True)
        w.save("q")
        w.load("q", False)
        yield w.close()

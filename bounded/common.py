"""Bounded contract checks on the real code (labelled bounded, never counted as proved).

A bounded module defines sections with @section; each runs in its own process, gets a Ctx, and evaluates a
contract of the public API (or of a kernel) against a directly written specification on generated inputs."""
import json, os, sys, time, traceback, random, math, warnings

SECTIONS = {}


def section(name, **kw):
    def deco(f):
        SECTIONS[name] = (f, kw)
        return f

    return deco


class TooMany(Exception):
    pass


class Ctx:
    def __init__(self, name, seed, tier, budget, curfile):
        import numpy as np

        self.name, self.seed, self.tier = name, seed, tier
        self.rng = random.Random(f"{name}/{seed}")
        self.np_rng = np.random.RandomState(abs(hash_str(f"{name}/{seed}")) % (2**32))
        self.t_end = time.time() + budget
        self.evals = 0
        self.failures = []
        self.samples = []
        self.distinct = set()
        self.curfile = curfile
        self.keys = {}

    def scale(self, quick, thorough):
        return thorough if self.tier == "thorough" else quick

    def more(self):
        return time.time() < self.t_end

    def at(self, what):
        """remember what is being run, so that a crash of the process can be attributed"""
        if self.curfile:
            with open(self.curfile, "w") as f:
                f.write(f"{self.name}: {what}"[:2000])

    def fail(self, key, detail):
        n = self.keys.get(key, 0)
        self.keys[key] = n + 1
        if n < 2:
            self.failures.append({"key": f"{self.name}/{key}", "detail": detail[:4000]})
        if len(self.failures) > 20:
            raise TooMany()

    def ok(self, key, cond, detail=""):
        self.evals += 1
        if not cond:
            self.fail(key, detail() if callable(detail) else str(detail))
        return bool(cond)

    def eq(self, key, got, exp, info=""):
        """values equal (NaN equals NaN, dtype ignored, shape respected)"""
        self.evals += 1
        g, e = norm(got), norm(exp)
        if len(self.distinct) < 200000:
            self.distinct.add(hash_str(f"{key}|{e!r}"))
        if g != e:
            self.fail(key, f"{key}\n input: {show(info)}\n expected: {e!r}\n got:      {g!r}")
            return False
        if len(self.samples) < 4:
            self.samples.append(f"{key}: {show(info)[:200]} -> {str(g)[:200]}")
        return True

    def call(self, key, fn, info=""):
        """fn() must not raise"""
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                return True, fn()
        except TooMany:
            raise
        except Exception as ex:  # noqa
            self.evals += 1
            tb = traceback.format_exc(limit=-3)
            self.fail(key + ":raised", f"{key}\n input: {show(info)}\n raised {type(ex).__name__}: {ex}\n{tb}")
            return False, None

    def raises(self, key, fn, info="", types=Exception):
        self.evals += 1
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                r = fn()
        except types:
            return True
        except Exception as ex:  # noqa
            self.fail(key, f"{key}\n input: {show(info)}\n raised {type(ex).__name__} instead of {types}")
            return False
        self.fail(key, f"{key}\n input: {show(info)}\n expected an exception, got {show(r)}")
        return False


def hash_str(s):
    import zlib

    return zlib.crc32(s.encode("utf8", "replace"))


def show(x):
    try:
        if callable(x):
            x = x()
        if isinstance(x, str):
            return x
        return repr(x)
    except Exception as e:  # noqa
        return f"<{type(x).__name__} {e}>"


def nv(x):
    """normalise one value"""
    import numpy as np

    if isinstance(x, (bytes, np.bytes_)):
        return x.decode("latin1")
    if isinstance(x, (str, np.str_)):
        return str(x)
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        if math.isnan(x):
            return "NaN"
        f = float(x)
        return int(f) if f.is_integer() and abs(f) < 2**53 else f
    if x is None:
        return None
    return x


def norm(x):
    import numpy as np

    if isinstance(x, np.ndarray):
        a = getattr(x, "_np", x)
        if a.ndim == 0:
            return nv(a[()])
        return [norm(v) if isinstance(v, np.ndarray) else nv(v) for v in np.asarray(a)]
    if isinstance(x, (list, tuple)):
        return [norm(v) for v in x]
    if isinstance(x, dict):
        return {str(k): norm(v) for k, v in x.items()}
    return nv(x)


def run_section(name, seed, tier, budget, out, curfile):
    f, kw = SECTIONS[name]
    ctx = Ctx(name, seed, tier, budget, curfile)
    t0 = time.time()
    err = None
    try:
        f(ctx)
    except TooMany:
        pass
    except Exception:  # noqa
        err = traceback.format_exc()
    with open(out, "w") as g:
        json.dump(
            dict(section=name, evals=ctx.evals, distinct=len(ctx.distinct), failures=ctx.failures, samples=ctx.samples, error=err, t=time.time() - t0, bound=kw.get("bound", "")),
            g,
        )


def main():
    import importlib

    modname, name, seed, tier, budget, out, curfile = sys.argv[1:8]
    importlib.import_module("bounded." + modname)
    run_section(name, int(seed), tier, float(budget), out, curfile)


def list_sections(modname):
    import importlib

    importlib.import_module("bounded." + modname)
    print(json.dumps({k: v[1] for k, v in SECTIONS.items() if v[0].__module__ == "bounded." + modname}))


if __name__ == "__main__":
    # run as: python -m bounded.common  (module identity fix)
    import bounded.common as bc

    if sys.argv[1] == "--list":
        bc.list_sections(sys.argv[2])
    else:
        bc.main()

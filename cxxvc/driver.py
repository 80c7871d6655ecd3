"""Decides one property: (1) extract the functions from clang's AST of the
current tree, (2) generate and discharge the obligations of every function the
property depends on against its contract, (3) where an obligation fails, look
for a failing input on the real code (solver model first, then a bounded
search), (4) where a function is out of the verifier's reach, let the bounded
search stand in for it, labelled as such."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import threading
import time

from . import smt
from .ast import TU, ExtractError
from .contract import generate, discharge, Contract
from .exec import Config
from .lib import Lib
from .terms import T
from .values import Rec, Bits, Unsupported

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
PROCS = max(1, min(8, os.cpu_count() or 1))


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ------------------------------------------------------------------ harness
class Harness:
    """bounded search / replay on the real code, public API only"""

    def __init__(self, name, srcs, scratch, gen):
        self.name, self.srcs, self.scratch, self.gen = name, srcs, scratch, gen
        self.bin = os.path.join(scratch, "harness_" + name)
        self.error = None

    def flags(self):
        # `inline`/-O1 keeps asserts and checks on; sanitizers make undefined
        # behaviour a failure instead of luck
        return ["-std=c++17", "-O1", "-g0", "-w", "-I" + SRC, "-I" + self.gen,
                "-I" + os.path.join(VERIF, "harness"),
                "-D_GLIBCXX_ASSERTIONS", "-fsanitize=address,undefined",
                "-fno-sanitize=vptr", "-fno-sanitize-recover=all"]

    def build(self):
        objs, jobs = [], []
        extra = list(self.srcs)

        def compile_all(files):
            ps = []
            for f in files:
                o = os.path.join(self.scratch, os.path.basename(f) + ".%s.o" %
                                 self.name)
                if o in objs:
                    continue
                objs.append(o)
                ps.append((f, subprocess.Popen(
                    ["g++"] + self.flags() + ["-c", f, "-o", o],
                    stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)))
            for f, p in ps:
                _, e = p.communicate()
                if p.returncode:
                    self.error = "compiling %s: %s" % (
                        f, e.decode(errors="replace")[:1500])
            return self.error is None

        def link():
            p = subprocess.run(["g++"] + self.flags() + objs + [
                "-o", self.bin], stdout=subprocess.DEVNULL,
                stderr=subprocess.PIPE)
            return p.returncode == 0, p.stderr.decode(errors="replace")

        files = [os.path.join(VERIF, "harness", self.name + ".cc")]
        for s in self.srcs:
            p = os.path.join(SRC, "flpr", s)
            if s == "scan_fort.cc":
                p = os.path.join(self.gen, s)
            if os.path.exists(p):
                files.append(p)
        if not compile_all(files):
            return False
        ok, err = link()
        if not ok:
            # definitions may have moved to another file of the library
            rest = [os.path.join(SRC, "flpr", f)
                    for f in sorted(os.listdir(os.path.join(SRC, "flpr")))
                    if f.endswith((".cc", ".cpp", ".cxx"))]
            rest = [f for f in rest if f not in files]
            if os.path.exists(os.path.join(self.gen, "scan_fort.cc")):
                rest.append(os.path.join(self.gen, "scan_fort.cc"))
            if not compile_all([f for f in rest if f not in files]):
                return False
            ok, err = link()
        if not ok:
            self.error = "linking: " + err[:1500]
        return ok

    def run(self, args, timeout):
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:"
                   "handle_abort=0:handle_segv=0:allow_user_segv_handler=1",
                   UBSAN_OPTIONS="print_stacktrace=0")
        try:
            p = subprocess.run([self.bin] + args, stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, timeout=timeout,
                               env=env, cwd=self.scratch)
            return p.returncode, p.stdout.decode("latin-1"), \
                p.stderr.decode("latin-1")
        except subprocess.TimeoutExpired as e:
            return None, (e.stdout or b"").decode("latin-1"), "timeout"

    @staticmethod
    def failure(out):
        """FAIL <escaped case> | <message>"""
        for l in out.split("\n"):
            if l.startswith("FAIL "):
                c, _, m = l[5:].partition(" | ")
                return {"case": c, "message": m}
        return None

    @staticmethod
    def stats(out):
        for l in out.split("\n"):
            if l.startswith("OK "):
                return json.loads(l[3:])
        return None


def case_text(strs, ints):
    return ",".join(["s:" + s.encode("latin-1", "replace").hex()
                     for s in strs] + ["i:%d" % i for i in ints])


def flatten(v, vals, strs, ints):
    """model values of a symbolic parameter, in declaration order"""
    if isinstance(v, Rec):
        for k in v.f:
            flatten(v.f[k], vals, strs, ints)
    elif isinstance(v, Bits):
        for b in v.b:
            flatten(b, vals, strs, ints)
    elif isinstance(v, T):
        if v.sort == "Str":
            x = vals.get(v.args[0], "") if v.op == "var" else \
                (v.args[0] if v.op == "str" else "")
            strs.append(x)
        elif v.sort in ("Int", "Bool"):
            x = vals.get(v.args[0], 0) if v.op == "var" else v.args[0] \
                if v.op in ("int", "bool") else 0
            ints.append(int(x))


# ------------------------------------------------------------------- driver
class Driver:
    def __init__(self, pid, spec, tier, seed):
        self.pid, self.spec, self.tier, self.seed = pid, spec, tier, seed
        self.t0 = time.time()
        self.quick = tier != "thorough"
        self.scratch = tempfile.mkdtemp(prefix="verif_%s_" % pid)
        self.gen = os.path.join(self.scratch, "gen")
        os.mkdir(self.gen)
        self.tus = {}
        self.results = {}       # contract -> Verified
        self.disabled = {}
        self.deadline = self.t0 + (430 if self.quick else 3000)
        self.notes = []
        self.found = False      # the search has a failing input
        smt.STOP[0] = lambda: self.enough() or time.time() > self.deadline

    def enough(self, nbad=0):
        """a failing input is at hand: name an obligation if one fails soon"""
        return bool(self.found) and (nbad > 0 or
                                     time.time() > self.found + 60)

    # ------------------------------------------------------------- extraction
    def gen_scanner(self):
        l = os.path.join(SRC, "flpr", "scan_fort.l")
        if not os.path.exists(l):
            return
        subprocess.run(["flex", "--outfile=" + os.path.join(
            self.gen, "scan_fort.cc"), "--header-file=" + os.path.join(
                self.gen, "scan_fort.hh"), l], stdout=subprocess.DEVNULL,
            stderr=subprocess.DEVNULL, cwd=self.gen)

    def load(self):
        ts = []
        errs = []

        def one(key, main, filters, text):
            try:
                self.tus[key] = TU(main, [SRC, self.gen], filters=filters,
                                   text=text)
            except ExtractError as e:
                errs.append(str(e))
        for s in self.spec.sources:
            text = None
            main = os.path.join(SRC, "flpr", s)
            flt = self.spec.filters
            if s in self.spec.texts:
                text = self.spec.texts[s]
                main = None
            elif not os.path.exists(main):
                errs.append("%s does not exist" % s)
                continue
            t = threading.Thread(target=one, args=(s, main, flt, text))
            t.start()
            ts.append(t)
        for t in ts:
            t.join()
        order = [self.tus[s] for s in self.spec.sources if s in self.tus]
        for t in order:
            t.others = [x for x in order if x is not t]
        self.order = order
        return errs

    # ------------------------------------------------------------------ proof
    def verify(self, con):
        cfg = Config()
        cfg.contracts = self.spec.contracts
        cfg.inv_pools = self.spec.pools
        cfg.deadline = self.deadline
        for k, v in self.spec.config.items():
            setattr(cfg, k, v)
        try:
            r = generate(self.order, self.spec.make_lib(), cfg, con)
        except RecursionError:
            r = None
        except (KeyError, AttributeError, IndexError, TypeError, ValueError,
                AssertionError, NotImplementedError) as e:
            if os.environ.get("VERIF_DEBUG"):
                raise
            from .contract import Verified
            r = Verified(con)
            r.status = "unsupported"
            r.reason = "extraction: %s: %s" % (type(e).__name__, e)
        if r is None:
            from .contract import Verified
            r = Verified(con)
            r.status, r.reason = "unsupported", "too deep"
        return r

    def relevant(self, con, o):
        """does this obligation decide the property (for a root)?"""
        if con not in self.roots:
            return True
        if o.kind == "ensures" or o.kind == "throws":
            return not o.tags or self.pid in o.tags
        return True

    def prove_all(self):
        spec = self.spec
        self.roots = [c for c in spec.contracts if c.name in spec.roots or
                      c.qual in spec.roots]
        todo = list(self.roots)
        seen = set()
        while todo and not self.enough(1 if any(
                r.bad for r in self.results.values()) else 0):
            c = todo.pop(0)
            if c in seen:
                continue
            seen.add(c)
            r = self.verify(c)
            r.todo = [o for o in r.obls if self.relevant(c, o)]
            log("  %s: %s %s paths=%d obligations=%d (%.1fs)" % (
                c.name, r.status, r.reason, r.paths, len(r.todo), r.time))
            self.results[c] = r
            if r.status != "unsupported":
                left = max(5.0, self.deadline - time.time())
                discharge(r.todo, timeout=8000 if self.quick else 40000,
                          procs=PROCS, deadline=time.time() + left,
                          max_fail=16 if c in self.roots else 1,
                          stop=self.enough)
                bad = [o for o in r.todo if o.result != "discharged"]
                r.bad = bad
                if bad:
                    r.status = "failed"
                log("     discharged %d/%d" % (len(r.todo) - len(bad),
                                              len(r.todo)))
            else:
                r.bad = []
            if r.status != "proved" and c not in self.roots:
                # look through the helper instead, and redo its callers
                c.enabled = False
                self.disabled[c] = r
                redo = [x for x in list(self.results)
                        if c.name in self.results[x].used or c.qual in self.results[x].used]
                for x in redo:
                    del self.results[x]
                    seen.discard(x)
                todo = redo + todo
                continue
            for d in spec.contracts:
                if d.enabled and d.do_verify and (
                        d.name in r.used or d.qual in r.used) and \
                        d not in seen:
                    todo.append(d)
        for c in list(self.results):
            if c in self.disabled:
                del self.results[c]

    # ------------------------------------------------------------------- main
    def run(self):
        spec = self.spec
        if spec.needs_scanner:
            self.gen_scanner()
        h = None
        hres = {}
        th = None
        if spec.harness:
            h = Harness(spec.harness, spec.hsrcs, self.scratch, self.gen)

            def bg():
                hres["built"] = h.build()
                if hres["built"]:
                    secs = spec.search_s if self.quick else \
                        spec.search_s * 15
                    hres["run"] = h.run([self.pid, "search", str(self.seed),
                                         str(secs)], secs * 4 + 60)
                    f = h.failure(hres["run"][1])
                    if f is not None and not match_finding(
                            known_findings(self.pid), f):
                        self.found = time.time()
            th = threading.Thread(target=bg)
            th.start()
        errs = self.load()
        if errs:
            self.notes += ["extraction: " + e for e in errs]
        if spec.roots and self.order:
            self.prove_all()
        if th:
            th.join()
        return self.decide(h, hres)

    def decide(self, h, hres):
        pid = self.pid
        bad, unsup = [], []
        for c, r in self.results.items():
            if r.status == "unsupported":
                unsup.append((c, r))
            elif r.status == "failed":
                bad += [(c, r, o) for o in r.bad
                        if o.result != "not attempted"]
        searched = None
        fail = None
        tried = []
        if h is not None:
            if not hres.get("built"):
                self.notes.append("harness: " + str(h.error))
                log("harness did not build: " + str(h.error))
            else:
                rc, out, err = hres["run"]
                fail = h.failure(out)
                searched = h.stats(out)
                if fail is None and rc is None:
                    cur = [l for l in out.split("\n")
                           if l.startswith("AT ")]
                    fail = {"case": cur[-1][3:] if cur else "?",
                            "message": "the search did not finish (a case "
                            "does not terminate?)"}
                    if not cur:
                        fail = None
                elif fail is None and rc != 0:
                    log("harness rc=%s %s" % (rc, err[-800:]))
                    self.notes.append("harness ended with %s: %s" % (
                        rc, err[-300:]))
                if fail is None and bad:
                    fail, tried = self.replay_models(h, bad)
        kf = known_findings(pid)
        if fail is not None:
            k = match_finding(kf, fail)
            if k:
                fail = None
        os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
        viol = 0
        line = None
        if fail is not None or bad:
            viol = 1
            path = os.path.join(VERIF, "evidence", "replay", pid + ".json")
            rep = {"property": pid, "failing_input": fail,
                   "obligations": [self.obl_json(c, o) for c, r, o in
                                   bad[:20]],
                   "models_tried": tried[:10]}
            if fail is not None:
                rep["replay_cmd"] = "build harness/%s.cc with /repo, then run "\
                    "it with arguments: %s case %s" % (h.name, pid,
                                                       fail["case"])
            with open(path, "w") as f:
                json.dump(rep, f, indent=1)
            line = "VIOLATION property=%s replay=%s" % (pid, path)
            for c, r, o in bad[:8]:
                print("failed obligation: %s [%s] %s at %s" % (
                    c.name, o.kind, o.name, o.loc))
            if fail is not None:
                print("failing input: %s: %s" % (fail["case"][:300],
                                                 fail["message"][:500]))
            else:
                line += " no-failing-input-found"
        self.evidence(viol, searched, unsup, bad)
        for k in kf:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
        for c, r in unsup:
            print("bounded stand-in for %s: %s" % (c.name, r.reason))
        if line:
            print(line)
            return 1
        n = sum(len(r.todo) for r in self.results.values()
                if r.status == "proved")
        print("%s: %d obligations discharged in %d functions%s" % (
            pid, n, sum(r.status == "proved" for r in self.results.values()),
            "" if not searched else "; %d concrete cases agree" %
            searched.get("evaluations", 0)))
        return 0

    def replay_models(self, h, bad):
        tried = []
        seen = set()
        for c, r, o in bad:
            if c not in self.roots or not o.values:
                continue
            strs, ints = [], []
            if r.this0 is not None:
                flatten(r.this0, o.values, strs, ints)
            for a in r.args0:
                flatten(a, o.values, strs, ints)
            t = case_text(strs, ints)
            if t in seen:
                continue
            seen.add(t)
            if len(seen) > 60:
                break
            rc, out, err = h.run([self.pid, "case", t], 20)
            tried.append({"obligation": o.name, "case": t, "rc": rc})
            f = h.failure(out)
            if f is not None:
                f["from"] = "solver model of: " + o.name
                return f, tried
        secs = self.spec.search_s * 3
        if time.time() < self.t0 + 700 - secs:
            rc, out, err = h.run([self.pid, "search", str(self.seed + 1),
                                  str(secs)], secs * 3 + 20)
            f = h.failure(out)
            if f is not None:
                return f, tried
        return None, tried

    def obl_json(self, c, o):
        return {"function": c.name, "kind": o.kind, "name": o.name,
                "where": o.loc, "result": o.result, "backend": o.backend,
                "model": o.values, "time_s": round(o.time, 2)}

    def evidence(self, viol, searched, unsup, bad):
        obls = dis = 0
        funcs = []
        inl, lib = set(), set()
        by = {}
        st = 0.0
        for c, r in self.results.items():
            n = len(getattr(r, "todo", []))
            d = sum(o.result == "discharged" for o in getattr(r, "todo", []))
            obls += n
            dis += d
            for o in getattr(r, "todo", []):
                if o.result == "discharged":
                    by[o.backend] = by.get(o.backend, 0) + 1
                st += o.time
            inl |= set(r.inlined)
            lib |= set(r.lib)
            funcs.append({"function": c.name, "file": os.path.basename(
                r.file or "?"), "line": r.line, "status": r.status,
                "reason": r.reason, "paths": r.paths, "obligations": n,
                "discharged": d, "generation_s": round(r.time, 2),
                "loops": [str(x)[:300] for x in r.loops][:12]})
        level = self.spec.level
        cov = {"functions_under_contract": funcs, "obligations": obls,
               "discharged": dis, "discharged_by": by,
               "solver_s": round(st, 2),
               "looked_through": sorted(inl)[:80],
               "checker_cmd": "python3 check.py %s (cxxvc + z3 %s)" % (
                   self.pid, smt.z3.get_version_string()),
               "trusted_base": TRUSTED + self.spec.trusted +
               ["library model: " + x for x in sorted(lib)],
               "out_of_reach": [{"function": c.name, "reason": r.reason,
                                 "stand_in": "bounded search"}
                                for c, r in unsup],
               "helpers_looked_through": [
                   {"function": c.name, "reason": r.reason or
                    "contract not provable for the current body"}
                   for c, r in self.disabled.items()]}
        if searched:
            cov["bounded"] = dict(searched, label="bounded search on the real "
                                  "code; never counted as proved")
            for k in ("evaluations", "distinct_nontrivial", "rule",
                      "samples"):
                if k in searched:
                    cov[k] = searched[k]
        if self.notes:
            cov["notes"] = self.notes
        if level == "other":
            cov["explanation"] = self.spec.explanation
        ev = {"property": self.pid, "tier": "quick" if self.quick else
              "thorough", "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": ASSUMPTIONS + self.spec.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": viol}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"),
                  "w") as f:
            json.dump(ev, f, indent=1)


TRUSTED = [
    "clang 18's parse of the sources (AST JSON) and cxxvc's symbolic "
    "execution of it",
    "cxxvc's string theory (extensional facts about len/code, instantiated)",
    "z3 (QF_UFLIA); cvc5 where z3 gives up",
]
ASSUMPTIONS = [
    "std::string/std::bitset/<cctype> behave as the library model in "
    "cxxvc/lib.py says (C locale); memory allocation does not fail",
    "lines are shorter than 2^28 bytes",
    "partial correctness: termination of loops is not an obligation "
    "(the bounded search has a time limit)",
]


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if not os.path.exists(p):
        return out
    for l in open(p):
        l = l.strip()
        if l.startswith("finding: property=%s " % pid):
            rest = l.split(" ", 2)[2]
            m, _, what = rest.partition(" :: ")
            out.append({"match": m.strip(), "what": what.strip()})
    return out


def match_finding(kf, fail):
    for k in kf:
        if k["match"] == fail["case"]:
            return k
    return None


def main(argv):
    import signal
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    from contracts.props import spec_for
    spec = spec_for(pid)
    sys.setrecursionlimit(20000)
    d = Driver(pid, spec, tier, seed)
    try:
        return d.run()
    finally:
        shutil.rmtree(d.scratch, ignore_errors=True)

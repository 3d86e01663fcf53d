"""Shared plumbing: building the facts from /repo's working tree, reporting."""
import concurrent.futures
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
LIB = os.path.join(REPO, "libexactreal")
BUILD = os.path.join(VERIF, "build")
LLVM_CONFIG = next((p for p in ("/usr/lib/llvm-18/bin/llvm-config", shutil.which("llvm-config-18") or "", shutil.which("llvm-config") or "") if p and os.path.exists(p)), "llvm-config")


class Broken(Exception):
    """The analysis cannot run: an error exit, never a verdict."""


class Unfamiliar(Broken):
    """the tree is not shaped the way this analysis expects: it decides nothing"""


def sh(cmd, **kw):
    r = subprocess.run(cmd, capture_output=True, text=True, **kw)
    return r


def ensure_tools():
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(VERIF, "tools", "irx.cc")
    exe = os.path.join(BUILD, "irx")
    stamp = os.path.join(BUILD, "irx.stamp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == h:
        return exe
    cxx = sh([LLVM_CONFIG, "--cxxflags"]).stdout.split()
    ld = sh([LLVM_CONFIG, "--ldflags"]).stdout.split()
    tmp = exe + ".tmp%d" % os.getpid()
    r = sh(["clang++", "-O1", "-std=c++17"] + cxx + ["-fexceptions", src, "-o", tmp] + ld + ["-lLLVM-18"])
    if r.returncode:
        raise Broken("cannot build irx: " + r.stderr[-2000:])
    os.replace(tmp, exe)
    with open(stamp, "w") as f:
        f.write(h)
    return exe


OPAQUE = r"""^([^(<]*[ :*&])?(std::(__cxx11::)?basic_(string|ostream|istream|stringstream|ios|streambuf|stringbuf)<|std::__cxx11::to_string|std::ostream::|std::ios|std::map<|std::unordered_map<|std::vector<|std::set<|std::unordered_set<|std::_Rb_tree|std::_Hashtable|std::locale|boost::algorithm)|^.*exactreal::\(anonymous namespace\)::(nocheck|noassert|isSet)\(|^std::pair<.*> std::(unordered_)?map<.*>::(emplace|try_emplace|insert|insert_or_assign)[<(]"""


class Facts:
    """Everything one check needs from the tree, built in a scratch directory."""

    def __init__(self, prop):
        self.irx = ensure_tools()
        self.dir = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.gen = os.path.join(self.dir, "gen")
        os.makedirs(self.gen)
        src = os.path.join(LIB, "exact-real", "local.hpp.in")
        if not os.path.exists(src):
            raise Broken("vanished: " + src)
        txt = re.sub(r"@\w+@", "/usr", open(src).read())
        with open(os.path.join(self.gen, "local.hpp"), "w") as f:
            f.write(txt)
        self.units = []
        self.compiled = {}

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def flags(self):
        return ["-std=c++17", "-DBUILD_LIBEXACTREAL", "-DBOOST_DISABLE_ASSERTS", "-I", "/opt/vp/include", "-I", os.path.join(VERIF, "stubs"), "-I", self.gen, "-I", LIB]

    def compile(self, sources, extra=()):
        """sources: paths, or (name, text) pairs; returns bitcode paths."""
        jobs = []
        for s in sources:
            if isinstance(s, tuple):
                p = os.path.join(self.dir, s[0] + ".cc")
                with open(p, "w") as f:
                    f.write(s[1])
            else:
                p = s if s.startswith("/") else os.path.join(LIB, "src", s + ".cc")
            if not os.path.exists(p):
                raise Broken("vanished: " + p)
            o = os.path.join(self.dir, os.path.basename(p) + ".bc")
            if not isinstance(s, tuple):
                o = self.compiled.get((p, tuple(extra)), os.path.join(self.dir, "%d-%s.bc" % (len(self.compiled), os.path.basename(p))))
            jobs.append((p, o))

        def one(job):
            p, o = job
            if self.compiled.get((p, tuple(extra))) == o:
                return o
            r = sh(["clang++"] + self.flags() + ["-O0", "-Xclang", "-disable-O0-optnone", "-fno-discard-value-names", "-gline-tables-only", "-w", "-emit-llvm", "-c", p, "-o", o] + list(extra))
            if r.returncode:
                errs = [l for l in r.stderr.splitlines() if "error" in l]
                raise Broken("%s does not compile: %s" % (p, "\n".join(errs[:5]) or r.stderr[-1500:]))
            return o

        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            out = list(ex.map(one, jobs))
        self.units += [p for p, _ in jobs]
        for s, (p, o) in zip(sources, jobs):
            if not isinstance(s, tuple):
                self.compiled[p, tuple(extra)] = o
        return out

    def lower(self, bcs, roots=".", opaque=OPAQUE, name="out"):
        o = os.path.join(self.dir, name + ".json")
        op, rt = o + ".op", o + ".rt"
        open(op, "w").write(opaque)
        open(rt, "w").write(roots)
        r = sh([self.irx, o, op, rt] + bcs)
        if r.returncode:
            raise Broken("irx failed: " + r.stderr[-1500:])
        return json.load(open(o))

    def syntax(self, name, text, extra=(), cxx="g++", fast=False):
        """Does this translation unit type-check against the tree?  (ok, first errors)"""
        p = os.path.join(self.dir, name + ".cc")
        with open(p, "w") as f:
            f.write(text)
        r = sh([cxx] + self.flags() + ["-w", "-fsyntax-only", p] + (["-fmax-errors=1"] if fast else []) + list(extra))
        return r.returncode == 0, r.stderr


def where(ins):
    """file:line of an instruction: innermost position inside /repo, else outermost."""
    for f, l in ins.get("loc", []):
        if "libexactreal" in f and "/include/" not in f:
            return "%s:%d" % (f.replace(REPO + "/", ""), l)
    if ins.get("loc"):
        f, l = ins["loc"][-1]
        return "%s:%d" % (os.path.basename(f), l)
    return "?"


class Report:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.obligations = []
        self.counts = {}
        self.rules = []
        self.assumptions = []
        self.trusted = ["clang 18 front end and LLVM 18 inliner/SROA", "stand-in headers in /verif/stubs for the absent submodules", "the library catalogue in /verif/lib/catalog.py"]
        self.explanation = ""
        self.findings = []

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def ob(self, key, ok, detail="", place=""):
        """ok: True discharged, False violated, None not decided"""
        self.obligations.append({"key": key, "ok": ok, "detail": str(detail)[:1500], "place": place})

    def floor(self, what, n, least):
        self.count(what, 0)
        self.counts[what] = n
        if n < least:
            # either there is a violation, or the rest could not be decided
            self.ob("coverage:" + what, None, "only %d %s found, at least %d on the tree as it was when this was written" % (n, what, least))

    def finish(self):
        known = []
        kf = os.path.join(VERIF, "known_findings.json")
        if os.path.exists(kf):
            known = [k for k in json.load(open(kf))["findings"] if k["property"] == self.prop]
        bad = [o for o in self.obligations if o["ok"] is False]
        und = [o for o in self.obligations if o["ok"] is None]
        good = [o for o in self.obligations if o["ok"] is True]
        listed, new = [], []
        for o in bad:
            k = next((k for k in known if k["key"] == o["key"] and re.search(k.get("match", "."), o["detail"], re.S)), None)
            (listed if k else new).append((o, k))
        ev = os.path.join(VERIF, "evidence")
        os.makedirs(ev, exist_ok=True)
        cov = {"obligations": len(self.obligations), "discharged": len(good), "undecided": [o["key"] + ": " + o["detail"][:300] for o in und],
               "explanation": self.explanation, "rules": self.rules, "analysed": self.counts,
               "samples": [{"obligation": o["key"], "place": o["place"], "fact": o["detail"][:400]} for o in good[:: max(1, len(good) // 12)][:14]],
               "checker_cmd": "python3 /verif/check.py %s" % self.prop, "trusted_base": self.trusted}
        cov["known_findings"] = [o["key"] for o, k in listed]
        with open(os.path.join(ev, self.prop + ".json"), "w") as f:
            json.dump({"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "other", "coverage": cov,
                       "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(new)}, f, indent=1, default=str)
        for o in und:
            print("UNDECIDED %s: %s %s" % (o["key"], o["detail"][:300], o["place"]))
        for o, k in listed:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        print("%s: %d obligations, %d discharged, %d undecided, %d known, %d violated; %s" % (self.prop, len(self.obligations), len(good), len(und), len(listed), len(new), self.counts))
        if new:
            rp = os.path.join(ev, "replay-%s.txt" % self.prop)
            with open(rp, "w") as f:
                for o, _ in new:
                    f.write("property %s\nobligation: %s\nat: %s\n%s\n\n" % (self.prop, o["key"], o["place"], o["detail"]))
            for o, _ in new[:20]:
                print("  violated: %s at %s: %s" % (o["key"], o["place"], o["detail"][:600]))
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            return 1
        return 0


def parallel(facts, rep, jobs):
    """runs the parts of a check in processes of their own and collects what they report"""
    import multiprocessing
    import traceback
    ctx = multiprocessing.get_context("fork")
    pipes = []
    for k, job in enumerate(jobs):
        r, w = ctx.Pipe(False)

        def work(job=job, w=w, k=k):
            facts.dir = os.path.join(facts.dir, "part%d" % k)
            os.makedirs(facts.dir, exist_ok=True)
            n = len(rep.obligations)
            before = dict(rep.counts)
            try:
                job()
                w.send((rep.obligations[n:], {k: v - before.get(k, 0) for k, v in rep.counts.items()}, None))
            except Unfamiliar as e:
                rep.ob("part %d" % k, None, str(e))
                w.send((rep.obligations[n:], {k: v - before.get(k, 0) for k, v in rep.counts.items()}, None))
            except Broken as e:
                w.send((rep.obligations[n:], {}, ("broken", str(e))))
            except BaseException:
                rep.ob("part %d" % k, None, "the analysis failed: " + traceback.format_exc()[-900:])
                w.send((rep.obligations[n:], {k: v - before.get(k, 0) for k, v in rep.counts.items()}, None))
            w.close()
        p = ctx.Process(target=work)
        p.start()
        w.close()
        pipes.append((p, r))
    failed = None
    for p, r in pipes:
        try:
            obs, counts, err = r.recv()
        except EOFError:
            obs, counts, err = [], {}, ("error", "a part of the check died")
        p.join()
        rep.obligations += obs
        for k, v in counts.items():
            rep.count(k, v)
        failed = failed or err
    if failed:
        raise Broken(failed[1]) if failed[0] == "broken" else RuntimeError(failed[1])

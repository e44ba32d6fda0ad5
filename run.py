#!/usr/bin/env python3
"""Solver-based checks of /repo (see DESIGN.md).

  run.py C07                 run the check of property C07 (tier from VERIF_TIER)
  run.py C07 --only SUBSTR   only harnesses whose name contains SUBSTR (development)
  run.py --replay FILE       replay a recorded counterexample natively

Every run regenerates the encoding: kani-compiler translates /repo's current
source together with the harness crate to goto programs (one per harness), CBMC
executes them symbolically and its SAT back end decides every assertion over all
values of the symbolic inputs. Counterexamples are replayed natively (dev,
release, then Miri) before they are reported.
"""
import argparse, concurrent.futures as cf, fcntl, glob, hashlib, json, os, re, resource, shutil
import signal, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, "harness")
EVID = os.path.join(HERE, "evidence")
BUILD = os.path.join(HERE, ".build")
KNOWN = os.path.join(HERE, "known_findings.txt")
sys.path.insert(0, HERE)
from props import PROPS  # noqa: E402

TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
T0 = time.time()
DEADLINE = T0 + (840 if TIER == "quick" else 6 * 3600)
JOBS = max(1, min(8, os.cpu_count() or 1))

CBMC_FLAGS = os.environ.get("VERIF_CBMC_EXTRA", "").split() + [
    "--no-malloc-may-fail", "--no-undefined-shift-check", "--no-signed-overflow-check",
    "--nan-check", "--no-self-loops-to-assumptions", "--no-pointer-primitive-check",
    "--object-bits", "16", "--sat-solver", "cadical",
]

FOCUS = None
COSTS = None
STOP = threading.Event()
procs = set()
plock = threading.Lock()


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


def killall():
    with plock:
        for p in list(procs):
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass


def env_for(debug_assertions, extra=None):
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_PROFILE_DEV_DEBUG_ASSERTIONS"] = "true" if debug_assertions else "false"
    e["CARGO_INCREMENTAL"] = "0"
    e.pop("RUSTFLAGS", None)
    e.pop("CARGO_TARGET_DIR", None)
    e.pop("RUSTUP_TOOLCHAIN", None)
    e.update(extra or {})
    return e


def run(cmd, timeout, cwd=None, env=None, mem_gb=None):
    """-> (rc or None on timeout, output)"""
    timeout = max(1.0, min(timeout, DEADLINE - time.time()))
    if STOP.is_set():
        return None, ""

    def pre():
        os.setsid()
        if mem_gb:
            resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))

    with tempfile.TemporaryFile() as f:
        p = subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
                             cwd=cwd, env=env, preexec_fn=pre)
        with plock:
            procs.add(p)
        try:
            try:
                rc = p.wait(timeout)
            except subprocess.TimeoutExpired:
                rc = None
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.wait()
        finally:
            with plock:
                procs.discard(p)
        f.seek(0)
        return rc, f.read().decode("utf8", "replace")


class Fatal(Exception):
    pass


def cost(name):
    """Expected seconds of a harness: only decides the order of the queries."""
    global COSTS
    if COSTS is None:
        try:
            COSTS = json.load(open(os.path.join(HERE, "costs.json")))
        except (OSError, ValueError):
            COSTS = {}
    return COSTS.get(name, 30)


# ---------------------------------------------------------------- encoding

def table(build, only):
    """The harnesses of a module, from its source table (with --exact, each must then be encoded)."""
    tiers = ["q"] if TIER == "quick" else ["q", "t"]
    src = open(os.path.join(HARNESS, "src", build["mod"] + ".rs")).read()
    out = []
    for m in re.finditer(r"^\s*((?:q|t)_\w+)\s*\(\d+\)\s*=", src, re.M):
        n = "%s::%s" % (build["mod"], m.group(1))
        if m.group(1)[0] in tiers and (not only or only in n):
            out.append(n)
    return out


def groups(names, n):
    """n groups of about the same cost, the dearest first in each."""
    gs = [[] for _ in range(n)]
    for x in sorted(names, key=lambda x: -cost(x)):
        min(gs, key=lambda g: (sum(map(cost, g)), len(g))).append(x)
    return [g for g in gs if g]


def codegen(build, work, idx, part, want):
    """kani-compiler: /repo + harness crate -> goto programs."""
    tgt = os.path.join(work, "kani%d-%d" % (idx, part))
    mod = build["mod"]
    cmd = ["cargo", "kani", "--lib", "--only-codegen", "--no-assertion-reach-checks", "-Z", "stubbing",
           "--target-dir", tgt, "--exact"]
    for n in want:
        cmd += ["--harness", n]
    if build.get("features"):
        cmd += ["--features", ",".join(build["features"])]
    env = env_for(build.get("debug", False))
    if build.get("rustflags"):
        env["RUSTFLAGS"] = build["rustflags"]
    t = time.time()
    rc, out = run(cmd, 700, cwd=HARNESS, env=env)
    if rc != 0:
        with plock:
            sys.stdout.write("\n".join(re.findall(r"^error.*(?:\n(?!warning).*){0,12}", out, re.M))[-4000:] or out[-3000:])
        raise Fatal("encoding failed (rc=%s): the harness crate does not compile against /repo" % rc)
    hs = []
    for f in glob.glob(tgt + "/**/vh-*.kani-metadata.json", recursive=True):
        d = json.load(open(f))
        for h in d["proof_harnesses"]:
            g = h["goto_file"]
            if not os.path.exists(g):
                raise Fatal("goto program missing: " + g)
            hs.append(dict(name=h["pretty_name"], goto=g, entry=h["mangled_name"],
                           unwind=h["attributes"]["unwind_value"] or 1,
                           stubs=[s.get("original", "") + " -> " + s.get("replacement", "")
                                  if isinstance(s, dict) else str(s)
                                  for s in h["attributes"].get("stubs", [])],
                           build=build, bidx=idx))
    # completeness of the harness set against the source table
    got = {h["name"] for h in hs}
    if set(want) != got:
        raise Fatal("harness set differs: missing %s extra %s" % (set(want) - got, got - set(want)))
    log("encoded %d goto programs of module %s%s in %.1fs" % (
        len(hs), mod, " (debug assertions on)" if build.get("debug") else "", time.time() - t))
    return hs


def kani_lib():
    c = sorted(glob.glob(os.path.expanduser("~/.kani/kani-*/library/kani/kani_lib.c"))) or \
        sorted(glob.glob("/root/.kani/kani-*/library/kani/kani_lib.c"))
    if not c:
        raise Fatal("kani_lib.c not found")
    return c[-1]


def link(h):
    """The post-processing the Kani driver applies to each goto program."""
    src = h["goto"]
    out = src.replace(".symtab.out", ".goto")
    for cmd in (
        ["goto-cc", src, h["build"].get("alloc") and os.path.join(HARNESS, "no_heap.c") or kani_lib(), "-o", out],
        ["goto-cc", out, "--function", h["entry"], "-o", out],
        ["goto-instrument", "--add-library", "--no-malloc-may-fail", out, out],
        ["goto-instrument", "--generate-function-body-options", "assert-false-assume-false",
         "--generate-function-body", ".*", "--drop-unused-functions", out, out],
        ["goto-instrument", "--ensure-one-backedge-per-target", out, out],
    ):
        rc, o = run(cmd, 120)
        if rc != 0:
            return "link step failed: %s\n%s" % (" ".join(cmd), o[-1500:])
    h["goto"] = out
    return None


# ---------------------------------------------------------------- solving

LINE = re.compile(r"^\[(?P<id>[^\]]*(?:\[[^\]]*\])?[^\]]*?\.(?P<cls>[a-zA-Z_\-]+)\.\d+)\] (?P<rest>.*): (?P<st>SUCCESS|FAILURE|UNKNOWN|ERROR)$", re.S)


def parse(out):
    props = []
    started = False
    cur = None
    for l in out.splitlines():
        if l.startswith("** Results:"):
            started = True
            continue
        if not started:
            continue
        if l.startswith("** ") and " failed" in l:
            break
        if l.startswith("["):
            cur = l
        elif cur is not None:
            cur += "\n" + l
        else:
            continue
        m = LINE.match(cur)
        if m:
            rest = re.sub(r"^line \d+ ", "", m.group("rest"))
            props.append(dict(id=m.group("id"), cls=m.group("cls"), desc=rest, st=m.group("st")))
            cur = None
    s = {}
    for key, pat, conv in [
        ("steps", r"size of program expression: (\d+) steps", int),
        ("vccs", r"Generated (\d+) VCC", int),
        ("vccs_left", r"VCC\(s\), (\d+) remaining", int),
        ("symex_s", r"Runtime Symex: ([\d.e+-]+)s", float),
        ("sat_vars", r"(\d+) variables, \d+ clauses", int),
        ("sat_clauses", r"\d+ variables, (\d+) clauses", int),
    ]:
        v = re.findall(pat, out)
        s[key] = (max if key.startswith("sat") else sum)(conv(x) for x in v) if v else 0
    s["solver_s"] = sum(float(x) for x in re.findall(r"Runtime (?:Solver|decision procedure|Post-process|Convert SSA): ([\d.e+-]+)s", out))
    s["solver_calls"] = len(re.findall(r"Runtime Solver: ", out)) or len(re.findall(r"Runtime decision procedure", out))
    s["unwound"] = len(re.findall(r"^Unwinding loop", out, re.M))
    return props, s


def classify(h, p):
    if FOCUS and p["cls"] not in ("cover", "unwind", "recursion") and FOCUS not in p["desc"] and \
            "not currently supported by Kani" not in p["desc"] and p["cls"] != "unsupported_construct":
        return "other"  # not what this property is about: its own check decides it
    if p["cls"] == "cover":
        return "cover"
    if p["cls"] == "unwind":
        return "unwind"
    if p["cls"] == "unsupported_construct" or "not currently supported by Kani" in p["desc"]:
        return "unsupported"
    if p["desc"].startswith("VP:"):
        return "vp"
    if "_mp_" in h["name"] and p["cls"] == "assertion":
        return "panic_expected"
    if p["cls"] == "recursion":
        return "unwind"
    return "safety"


def loops(goto):
    """-> loop ids by the name their unwinding assertion has, ids of the loops of the harness
    crate (all of concrete length)"""
    rc, out = run(["cbmc", "--show-loops", goto], 60)
    every, owned = {}, set()
    for m in re.finditer(r"^Loop (\S+):\n(.*)\n", out, re.M):
        i, at = m.groups()
        fn = re.search(r" function (.*)$", at)
        every[(fn.group(1) if fn else i.rsplit(".", 1)[0]) + "." + i.rsplit(".", 1)[1]] = i
        if re.match(r"\s+file src/", at):
            owned.add(i)
    return every, owned


def solve(h, limit):
    t = time.time()
    e = link(h)
    if e:
        return dict(h=h, status="error", wall=time.time() - t, unwind=0, props=[], stats={}, out=e, rc=None)
    every, owned = loops(h["goto"])
    fixed = []
    if "_cache_" in h["name"] or int((re.findall(r"_n(\d+)", h["name"]) or ["0"])[-1]) > 60:
        fixed = ["--max-field-sensitivity-array-size", "620"]  # arrays of concrete shape are folded
    # Bounds for the loops of the crate and of core. Where an unwinding assertion
    # fails, the bound of that loop alone is raised and the query repeated.
    base = h["unwind"] if h["unwind"] <= 64 or "_many_n" in h["name"] else 12
    ladder = [n for n in (6, 12, 24, 70, 140, 300, 620) if n > base]
    extra, tries = {}, 0
    wide = base  # the bound of loops that cannot be told from their assertion, and of recursion
    while True:
        own = list(fixed)
        us = ["%s:%d" % (l, 1500 if l in owned else extra.get(l, base)) for l in sorted(every.values())
              if l in owned or l in extra or wide > base]
        if us:
            own += ["--unwindset", ",".join(us)]
        h["own"] = own
        cmd = ["cbmc"] + CBMC_FLAGS + ["--slice-formula", "--verbosity", "8", "--unwind", str(wide)] + own + [h["goto"]]
        rc, out = run(cmd, limit - (time.time() - t), mem_gb=24)
        bound = max([wide] + list(extra.values()))
        if rc is None:
            return dict(h=h, status="timeout", wall=time.time() - t, unwind=base, props=[], stats=parse(out)[1])
        if rc not in (0, 10):
            return dict(h=h, status="error", wall=time.time() - t, unwind=base, props=[], stats={},
                        out=out[-3000:], rc=rc)
        props, stats = parse(out)
        if not props:
            return dict(h=h, status="error", wall=time.time() - t, unwind=base, props=[], stats={}, out=out[-3000:], rc=rc)
        for p in props:
            p["kind"] = classify(h, p)
        bad = [p for p in props if p["st"] == "FAILURE" and p["kind"] in ("vp", "safety")]
        unw = [p for p in props if p["st"] == "FAILURE" and p["kind"] == "unwind"]
        odd = [p for p in props if p["st"] not in ("SUCCESS", "FAILURE")]
        uns = [p for p in props if p["st"] == "FAILURE" and p["kind"] == "unsupported"]
        tries += 1
        res = dict(h=h, wall=time.time() - t, unwind=wide, bound=bound, props=props, stats=stats, bad=bad, unw=unw,
                   cbmc=" ".join(cmd))
        if bad:
            res["status"] = "fail"
        elif unw:
            grown, grow = 0, []
            for p in unw:
                m = re.match(r"(.*)\.unwind\.(\d+)$", p["id"])
                if m:
                    loop = m.group(1) + "." + m.group(2)
                    loop = every.get(loop, loop)
                    if loop not in every.values():
                        nxt = [n for n in ladder if n > wide]
                        grow = grow or nxt[:1]
                        continue
                    nxt = [n for n in ladder if n > extra.get(loop, base)]
                    if nxt:
                        extra[loop] = nxt[0]
                        grown += 1
            if grow:
                wide = grow[0]
            if (grown or grow) and time.time() - t < limit * 0.6:
                continue
            res["status"] = "unwind"
            res["out"] = "; ".join(p["id"] for p in unw)
        elif uns:
            res["status"] = "unsupported"
            res["out"] = "\n".join(p["desc"] for p in uns)
        elif odd:
            res["status"] = "error"
            res["out"] = str(odd[:3])
        else:
            res["status"] = "ok"
        return res


# ---------------------------------------------------------------- traces

def walk_value(v, out):
    if "elements" in v:
        for e in v["elements"]:
            walk_value(e["value"], out)
    elif "members" in v:
        for e in v["members"]:
            walk_value(e["value"], out)
    elif v.get("binary") is not None:
        b = v["binary"]
        out.append([int(b[i:i + 8], 2) for i in range(len(b) - 8, -8, -8) if i >= 0])
    else:
        raise Fatal("trace value not understood: %s" % json.dumps(v)[:200])


def extract(h, pid, unwind, limit=300):
    """Concrete inputs of a trace that reaches/violates property `pid`."""
    cmd = ["cbmc"] + CBMC_FLAGS + ["--unwind", str(unwind)] + h.get("own", []) + ["--property", pid, "--trace", "--json-ui",
                                   "--verbosity", "4", h["goto"]]
    rc, out = run(cmd, limit, mem_gb=24)
    if rc != 10:
        return None
    try:
        doc = json.loads(out)
    except ValueError:
        return None
    for item in doc:
        for r in item.get("result", []) if isinstance(item, dict) else []:
            if r.get("property") == pid and "trace" in r:
                vals, last = [], None
                for st in r["trace"]:
                    if st.get("stepType") != "assignment":
                        continue
                    fn = (st.get("sourceLocation") or {}).get("function", "")
                    lhs = st.get("lhs", "")
                    if "any_raw_" in fn and lhs.startswith("goto_symex$$return_value"):
                        base = re.sub(r"\[\d+l*u*l*\]$", "", lhs)
                        if base != lhs and last == base:
                            continue  # element of the array recorded just before
                        last = lhs
                        walk_value(st["value"], vals)
                    else:
                        last = None
                return vals
    return None


# ---------------------------------------------------------------- replay

def native(build, work, mode):
    """Builds the replayer against /repo; mode: dev | release | miri. -> argv prefix, env"""
    tgt = os.path.join(work, "native-%s-%s-%d" % (mode, "-".join(build.get("features", [])), bool(build.get("alloc"))))
    feats = list(build.get("features", []))
    if build.get("alloc"):
        feats.append("counting-alloc")
    fl = ["--features", ",".join(feats)] if feats else []
    env = env_for(True, {"CARGO_TARGET_DIR": tgt})
    if mode == "miri":
        env["MIRIFLAGS"] = "-Zmiri-disable-isolation"
        return (["cargo", "+nightly", "miri", "run", "-q", "--offline", "--bin", "replay"] + fl + ["--"], env)
    cmd = ["cargo", "build", "-q", "--offline", "--bin", "replay"] + fl + (["--release"] if mode == "release" else [])
    rc, out = run(cmd, 400, cwd=HARNESS, env=env)
    if rc != 0:
        sys.stdout.write(out[-3000:])
        raise Fatal("replayer does not build")
    return ([os.path.join(tgt, "release" if mode == "release" else "debug", "replay")], env)


BUILDLOCK = threading.Lock()


def replayer(h, work, cache, mode):
    key = (",".join(h["build"].get("features", [])), bool(h["build"].get("alloc")), mode)
    with BUILDLOCK:
        if key not in cache:
            cache[key] = native(h["build"], work, mode)
        return cache[key]


def replay_one(prefix, env, name, vals, timeout):
    with tempfile.NamedTemporaryFile("w", suffix=".vals", delete=False) as f:
        for v in vals:
            f.write(" ".join("%d" % b for b in v) + "\n")
        path = f.name
    try:
        return run(prefix + [name, path], timeout, cwd=HARNESS, env=env)
    finally:
        os.unlink(path)


def confirm(h, vals, work, cache, modes=("dev", "release", "miri")):
    """Replays on the real code. -> (mode, what) or None"""
    notes = []
    for mode in modes:
        prefix, env = replayer(h, work, cache, mode)
        tmo = 300 if mode == "miri" else 20
        rc, out = replay_one(prefix, env, h["name"], vals, tmo)
        tail = [l for l in out.splitlines() if l.strip()]
        notes.append("%s: rc=%s %s" % (mode, rc, tail[-1][:160] if tail else ""))
        if rc is None and mode != "miri":
            return mode, "does not return within %ds" % tmo, notes
        if rc == 66:
            return mode, next((l for l in tail if "REPLAY-VIOLATION" in l), "assertion"), notes
        if rc in (77, 78, 79):
            continue
        if mode == "miri":
            if rc not in (0, None) and "Undefined Behavior" in out:
                return mode, next(l for l in tail if "Undefined Behavior" in l), notes
            continue
        if rc is not None and rc != 0:
            what = next((l for l in tail if "panicked" in l), "abnormal end rc=%s" % rc)
            nxt = [tail[i + 1] for i, l in enumerate(tail[:-1]) if "panicked" in l]
            return mode, what + (" " + nxt[0] if nxt else ""), notes
    return None, "; ".join(notes), notes


def known(prop):
    """known: property=<id> harness=<name> desc=<substring of the assertion> -- <what fails>"""
    out = []
    try:
        for l in open(KNOWN):
            m = re.match(r"known: property=(\S+) harness=(\S+) desc=(.*?) -- (.*)$", l.strip())
            if m and m.group(1) == prop:
                out.append(m.groups()[1:])
    except FileNotFoundError:
        pass
    return out


def family(name):
    return re.sub(r"^(.*::)[qt]_", r"\1", re.sub(r"_n\d+\w*$", "", name))


# ---------------------------------------------------------------- main

def check(prop, only):
    cfg = PROPS[prop]
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(EVID, exist_ok=True)
    work = tempfile.mkdtemp(prefix=prop + "-", dir=BUILD)
    try:
        return check_in(prop, cfg, only, work)
    finally:
        killall()
        if os.environ.get("VERIF_KEEP") != "1":
            shutil.rmtree(work, ignore_errors=True)


def check_in(prop, cfg, only, work):
    global FOCUS
    FOCUS = cfg.get("focus")
    broken = []  # encodings that failed: only a violation found in another one can be reported
    limit = cfg.get("limit", 420) if TIER == "quick" else 3 * 3600
    jobs = cfg.get("jobs", JOBS)
    parts = []
    tables = [table(b, only) for b in cfg["builds"]]
    count = sum(map(len, tables))
    for i, b in enumerate(cfg["builds"]):
        n = max(1, min(4, round(4 * len(tables[i]) / max(count, 8))))
        parts += [(b, i, k, g) for k, g in enumerate(groups(tables[i], n))]

    results, violations, unconfirmed, knownhits = [], [], [], []
    cache = {}
    kn = known(prop)
    stop = STOP

    def encode(part):
        b, i, k, g = part
        try:
            return sorted(codegen(b, work, i, k, g), key=lambda h: -cost(h["name"]))
        except Fatal as e:
            if not stop.is_set():
                broken.append(("build %d" % i, str(e), ""))
            return []

    def settle(r):
        """Replays the counterexamples of a result on the real code."""
        h = r["h"]
        cand = r["bad"] if r["status"] == "fail" else r["unw"]
        cand = sorted(cand, key=lambda p: 0 if p["kind"] == "vp" else 1)
        fresh = []
        for p in cand:
            k = next((k for k in kn if k[0] == h["name"] and k[1] in p["desc"]), None)
            if k:
                knownhits.append(k[2])
            else:
                fresh.append(p)
        for p in fresh[:3]:
            vals = extract(h, p["id"], r["unwind"])
            if vals is None:
                unconfirmed.append((h["name"], p["id"], p["desc"], "no trace"))
                continue
            mode, what, notes = confirm(h, vals, work, cache)
            if mode:
                violations.append(save_replay(prop, h, p, vals, mode, what, notes, r))
                log("counterexample confirmed (%s): %s :: %s" % (mode, p["desc"], what))
                return
            unconfirmed.append((h["name"], p["desc"], "does not reproduce natively: " + what))

    def go(h):
        return None if stop.is_set() else solve(h, limit)

    with cf.ThreadPoolExecutor(len(parts)) as enc, cf.ThreadPoolExecutor(jobs) as ex:
        waiting = {enc.submit(encode, p) for p in parts}
        seen, ready, busy = 0, [], 0
        while waiting:
            done, waiting = cf.wait(waiting, return_when=cf.FIRST_COMPLETED)
            for f in done:
                r = f.result()
                if isinstance(r, list):
                    seen += len(r)
                    ready += r
                    ready.sort(key=lambda h: cost(h["name"]))
                    continue
                busy -= 1
                if r is None or stop.is_set():
                    continue
                results.append(r)
                st = r["stats"]
                log("%-10s %-44s %6.1fs  steps=%s vccs=%s vars=%s" % (
                    r["status"], r["h"]["name"], r["wall"], st.get("steps"), st.get("vccs"), st.get("sat_vars")))
                if r["status"] in ("fail", "unwind"):
                    settle(r)
                    if violations:  # one confirmed counterexample decides the verdict
                        stop.set()
                        killall()
            while ready and busy < jobs and not stop.is_set():  # the dearest query first
                waiting.add(ex.submit(go, ready.pop()))
                busy += 1
    if not seen:
        raise Fatal("no harness: %s" % broken)
    results.sort(key=lambda r: r["h"]["name"])
    problems, incomplete = list(broken), []
    for r in results:
        h = r["h"]
        if r["status"] == "timeout":
            sib = [q for q in results if q["status"] == "ok" and family(q["h"]["name"]) == family(h["name"])]
            (incomplete if sib else problems).append((h["name"], "time limit", ""))
        elif r["status"] not in ("ok", "fail", "unwind"):
            problems.append((h["name"], r["status"], r.get("out", "")))

    # vacuity: every witness must be reachable somewhere, and one in each harness
    covers = {}
    for r in results:
        mine = [p for p in r["props"] if p["kind"] == "cover"]
        for p in mine:
            covers[p["desc"]] = covers.get(p["desc"], False) or p["st"] == "FAILURE"
        if r["status"] == "ok" and not any(p["st"] == "FAILURE" for p in mine):
            problems.append((r["h"]["name"], "vacuous: no witness reachable", ""))
    if not only:
        for d, ok in covers.items():
            if not ok and not violations:
                problems.append((prop, "witness never reachable: " + d, ""))

    # the model against the implementation: replay witness traces natively
    validated, samples = 0, []
    if not violations:
        pick = sorted([r for r in results if r["status"] == "ok"], key=lambda r: r["wall"])
        per = {}
        for r in pick:
            per.setdefault(r["h"]["bidx"], [])
            if len(per[r["h"]["bidx"]]) < (3 if TIER == "quick" else 8):
                per[r["h"]["bidx"]].append(r)
        def sample(k, r):
            if DEADLINE - time.time() < 120:
                return None
            h = r["h"]
            cs = [p for p in r["props"] if p["kind"] == "cover" and p["st"] == "FAILURE"]
            p = cs[(SEED + k) % len(cs)]
            vals = extract(h, p["id"], r["unwind"], 90)
            if vals is None:
                return None
            rc, out = replay_one(*replayer(h, work, cache, "dev"), h["name"], vals, 20)
            return h, p, vals, rc, out

        todo = [x for l in per.values() for x in l]
        with cf.ThreadPoolExecutor(jobs) as ex:
            for f in {r["h"]["bidx"]: r["h"] for r in todo}.values():
                ex.submit(replayer, f, work, cache, "dev")
            got = list(ex.map(sample, range(len(todo)), todo))
        for h, p, vals, rc, out in filter(None, got):
            hit = ("REPLAY-WITNESS: " + p["desc"]) in out
            if rc in (0, 78) and hit:  # 78: the solver's trace ends at the witness
                validated += 1
                samples.append(dict(harness=h["name"], witness=p["desc"],
                                    inputs=[" ".join("%02x" % b for b in v) for v in vals][:40]))
            else:
                log("witness trace not reproduced: %s %r rc=%s %s" % (h["name"], p["desc"], rc, out[-300:]))
                if rc == 66 or rc == 101:
                    problems.append((h["name"], "model and implementation disagree", out[-300:]))

    ok = [r for r in results if r["status"] == "ok"]
    tot = lambda k: sum(r["stats"].get(k, 0) for r in results)
    asserts = sum(1 for r in ok for p in r["props"] if p["kind"] != "cover")
    ev = dict(
        property=prop, tier=TIER, seed=SEED, level="model_checking",
        coverage=dict(
            states=tot("vccs"),
            transitions=tot("steps"),
            traces_validated_against_impl=validated,
            samples=samples or [dict(harness=v["harness"], violation=v["desc"]) for v in violations],
            explanation="states = verification conditions generated by symbolic execution; transitions = SSA steps of the "
                        "symbolic executions (each stands for all values of the symbolic inputs at once); "
                        "traces_validated_against_impl = solver-produced witness traces replayed on the natively built crate",
            harnesses={r["h"]["name"]: dict(
                status=r["status"], unwind=r.get("bound", r["unwind"]), wall_s=round(r["wall"], 2),
                assertions=sum(1 for p in r["props"] if p["kind"] != "cover"),
                property_assertions=sum(1 for p in r["props"] if p["kind"] == "vp"),
                witnesses_reached=sum(1 for p in r["props"] if p["kind"] == "cover" and p["st"] == "FAILURE"),
                vccs=r["stats"].get("vccs", 0), ssa_steps=r["stats"].get("steps", 0),
                sat_variables=r["stats"].get("sat_vars", 0), sat_clauses=r["stats"].get("sat_clauses", 0),
                symex_s=round(r["stats"].get("symex_s", 0), 2), solver_s=round(r["stats"].get("solver_s", 0), 2),
            ) for r in results},
            assertions_discharged=asserts,
            queries_discharged=tot("solver_calls"),
            solver_s=round(tot("solver_s"), 2), symex_s=round(tot("symex_s"), 2),
            sat_variables_max=max([r["stats"].get("sat_vars", 0) for r in results] or [0]),
            functions_encoded=functions(results),
            bounds=cfg["bounds"],
            outside_bounds=cfg.get("outside", ""),
            configurations=sorted({"features=%s debug_assertions=%s" % (",".join(b.get("features", [])) or "default",
                                                                         bool(b.get("debug"))) for b in cfg["builds"]}),
            witnesses={d: "reached" if o else "NOT reached" for d, o in covers.items()},
            incomplete=[i[0] for i in incomplete],
            unconfirmed=[list(u) for u in unconfirmed],
        ),
        assumptions=[
            "kani-compiler and CBMC translate MIR and decide the formulas correctly; rustc's own semantics for x86_64",
            "loops are unwound as far as their unwinding assertions show to be enough (checked, not assumed)",
        ] + sorted({s for r in results for s in r["h"]["stubs"]}) + cfg.get("assumptions", []),
        wall_s=round(time.time() - T0, 1),
        violations=len(violations),
    )
    json.dump(ev, open(os.path.join(EVID, prop + ".json"), "w"), indent=1)

    for k in sorted(set(knownhits)):
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    for u in unconfirmed:
        log("unconfirmed:", u)
    for p in incomplete:
        log("INCOMPLETE (bound not explored):", p)
    if violations:
        for v in violations:
            print("violated: %s -- %s -- %s" % (v["harness"], v["desc"], v["what"]))
            print("VIOLATION property=%s replay=%s" % (prop, v["path"]), flush=True)
        return 1
    if unconfirmed or problems:
        for p in problems:
            log("PROBLEM:", *p)
        print("INCONCLUSIVE property=%s" % prop)
        return 2
    print("OK property=%s harnesses=%d assertions=%d" % (prop, len(ok), asserts))
    return 0


def functions(results):
    fs = set()
    for r in results:
        for p in r["props"]:
            fn = re.sub(r"\.[a-zA-Z_\-]+\.\d+$", "", p["id"])
            if "arraystring" in fn:
                fs.add(fn)
    return sorted(fs)


def save_replay(prop, h, p, vals, mode, what, notes, r):
    d = os.path.join(EVID, "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.json" % (prop, h["name"].replace("::", "-")))
    json.dump(dict(property=prop, harness=h["name"], build=h["build"], assertion=p["desc"], id=p["id"], values=vals,
                   confirmed=mode, what=what, replays=notes, cbmc=r.get("cbmc", ""),
                   how="python3 /verif/run.py --replay " + path), open(path, "w"), indent=1)
    return dict(path=path, harness=h["name"], desc=p["desc"], what=what)


def do_replay(path):
    d = json.load(open(path))
    os.makedirs(BUILD, exist_ok=True)
    work = tempfile.mkdtemp(prefix="replay-", dir=BUILD)
    try:
        h = dict(name=d["harness"], build=d["build"], bidx=0)
        mode, what, notes = confirm(h, d["values"], work, {})
        for n in notes:
            print(n)
        if mode:
            print("VIOLATION property=%s replay=%s" % (d["property"], path))
            return 1
        print("not reproduced")
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--only")
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true")
    a = ap.parse_args()
    if a.setup:
        for tool in ("cargo", "cargo-kani", "goto-cc", "goto-instrument", "cbmc"):
            if not shutil.which(tool):
                raise SystemExit("missing tool: " + tool)
        print("kani_lib:", kani_lib())
        return 0
    if a.replay:
        return do_replay(a.replay)
    try:
        return check(a.prop, a.only)
    except Fatal as e:
        print("ERROR:", e)
        return 2


if __name__ == "__main__":
    try:
        rc = main()
    finally:
        killall()
    sys.exit(rc)

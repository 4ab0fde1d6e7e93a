#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--replay FILE]

Builds the property's harness against /repo's current working tree (nothing is written there: the harness,
the instrumented sources and the patched std files go in through a build overlay), explores, confirms any
violation by replaying it, writes evidence/<id>.json and exits 0 (held) or 1 (VIOLATION line).
"""
import argparse, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
MOD = "github.com/anivanovic/gotit"
sys.path.insert(0, os.path.join(VERIF, "tools"))
from props import PROPS  # noqa: E402

ENV = dict(os.environ)
ENV.update({
    "PATH": "/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
    "HOME": os.environ.get("HOME", "/root"), "GOPATH": "/root/go", "GOMODCACHE": "/root/go/pkg/mod",
    "GOCACHE": "/root/.cache/go-build", "GOTOOLCHAIN": "local", "GOPROXY": "off", "GOFLAGS": "-mod=readonly",
    "GOWORK": "off", "TZ": "UTC", "GODEBUG": "randautoseed=0,randseednop=0",
})


for _k in list(ENV):
    if _k.lower().endswith("_proxy"):
        del ENV[_k]


class Error(Exception):
    pass


def run(cmd, **kw):
    return subprocess.run(cmd, env=kw.pop("env", ENV), text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def goroot():
    r = run(["go", "env", "GOROOT"], cwd="/")
    if r.returncode:
        raise Error("go env failed: " + r.stdout)
    return r.stdout.strip()


def patch_std(work, repl):
    """Hooks in package net (dial) and os (file creation); inert unless the harness sets them."""
    gr = goroot()
    # net: every outgoing connection
    p = gr + "/src/net/dial.go"
    s = open(p).read()
    sig = "\tctx, cancel := d.dialCtx(ctx)\n\tdefer cancel()\n"
    head = "func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {\n"
    assert s.count(head + sig) == 1, "net/dial.go changed"
    s = s.replace(head + sig, head + sig + "\tif VerifDialHook != nil {\n\t\treturn VerifDialHook(ctx, network, address)\n\t}\n")
    s += "\n// VerifDialHook replaces every dial when set.\nvar VerifDialHook func(ctx context.Context, network, address string) (Conn, error)\n"
    out = os.path.join(work, "net_dial.go")
    open(out, "w").write(s)
    repl[p] = out
    # os: every call that can create, truncate, rename or delete by path
    p = gr + "/src/os/file.go"
    s = open(p).read()
    for sig, op, expr in [
        ("func Mkdir(name string, perm FileMode) error {\n", "mkdir", "name, 0"),
        ("func Rename(oldpath, newpath string) error {\n", "rename", "newpath, 0"),
    ]:
        assert s.count(sig) == 1, "os/file.go changed"
        s = s.replace(sig, sig + '\tif VerifFSHook != nil {\n\t\tif err := VerifFSHook("%s", %s); err != nil {\n\t\t\treturn err\n\t\t}\n\t}\n' % (op, expr))
    sig = "func OpenFile(name string, flag int, perm FileMode) (*File, error) {\n"
    assert s.count(sig) == 1
    s = s.replace(sig, sig + '\tif VerifFSHook != nil {\n\t\tif err := VerifFSHook("open", name, flag); err != nil {\n\t\t\treturn nil, err\n\t\t}\n\t}\n')
    for sig, expr in [("func (f *File) Write(b []byte) (n int, err error) {\n", "verifPos(f)"), ("func (f *File) WriteAt(b []byte, off int64) (n int, err error) {\n", "off")]:
        assert s.count(sig) == 1, "os/file.go changed"
        s = s.replace(sig, sig + """\tif VerifWriteHook != nil && f != nil {
\t\tif k, werr := VerifWriteHook(f.Name(), b, %s); werr != nil {
\t\t\tb = b[:k]
\t\t\tdefer func() {
\t\t\t\tif err == nil {
\t\t\t\t\terr = werr
\t\t\t\t}
\t\t\t}()
\t\t}
\t}
""" % expr)
    s += "\n// VerifWriteHook sees every write to a file when set; with an error, only the first k bytes are written.\nvar VerifWriteHook func(name string, b []byte, off int64) (k int, err error)\n"
    s += """
// verifPos is where a write without an offset goes.
func verifPos(f *File) int64 {
\tif f.file == nil {
\t\treturn -1
\t}
\tif f.appendMode {
\t\tif fi, err := f.Stat(); err == nil {
\t\t\treturn fi.Size()
\t\t}
\t}
\tif at, err := f.seek(0, io.SeekCurrent); err == nil {
\t\treturn at
\t}
\treturn -1
}
"""
    s += "\n// VerifFSHook sees (and may refuse) every path-based change of the file system when set.\nvar VerifFSHook func(op, name string, flag int) error\n"
    out = os.path.join(work, "os_file.go")
    open(out, "w").write(s)
    repl[p] = out
    p = gr + "/src/os/file_unix.go"
    s = open(p).read()
    for sig, op, arg in [("func Truncate(name string, size int64) error {\n", "truncate", "name"),
                         ("func Remove(name string) error {\n", "remove", "name"),
                         ("func Link(oldname, newname string) error {\n", "link", "newname"),
                         ("func Symlink(oldname, newname string) error {\n", "symlink", "newname")]:
        assert s.count(sig) == 1, "os/file_unix.go changed"
        s = s.replace(sig, sig + '\tif VerifFSHook != nil {\n\t\tif err := VerifFSHook("%s", %s, 0); err != nil {\n\t\t\treturn err\n\t\t}\n\t}\n' % (op, arg))
    out = os.path.join(work, "os_file_unix.go")
    open(out, "w").write(s)
    repl[p] = out
    p = gr + "/src/os/path.go"
    s = open(p).read()
    sig = "func RemoveAll(path string) error {\n"
    assert s.count(sig) == 1
    s = s.replace(sig, sig + '\tif VerifFSHook != nil {\n\t\tif err := VerifFSHook("removeall", path, 0); err != nil {\n\t\t\treturn err\n\t\t}\n\t}\n')
    out = os.path.join(work, "os_path.go")
    open(out, "w").write(s)
    repl[p] = out


def patch_testing(work, repl):
    """Races are judged by the harness (vrt/race_on.go), not by package testing."""
    p = goroot() + "/src/testing/testing.go"
    s = open(p).read()
    assert "race.Errors()" in s, "testing/testing.go changed"
    s = s.replace("race.Errors()", "(0 * race.Errors())")
    out = os.path.join(work, "testing_testing.go")
    open(out, "w").write(s)
    repl[p] = out


def instrument(work, mode, repl):
    """Writes instrumented copies of /repo's packages (scheduling points) and overlays them."""
    out = os.path.join(work, "instr")
    r = run(["go", "run", os.path.join(VERIF, "tools/instr/main.go"), "-repo", REPO, "-mod", MOD, "-mode", mode, "-out", out], cwd=VERIF)
    if r.returncode:
        raise Error("instrumentation failed:\n" + r.stdout)
    third = {}
    for line in open(os.path.join(out, "map.txt")):
        src, dst = line.rstrip("\n").split("\t")
        if src.startswith(REPO + "/"):
            repl[src] = dst
        else:  # another module: a copy of it replaces it
            third.setdefault(os.path.dirname(src), []).append((src, dst))
    if not third:
        return []
    mod = open(os.path.join(REPO, "go.mod")).read()
    for n, (d, files) in enumerate(sorted(third.items())):
        m = re.match(r".*/pkg/mod/(.*)@[^/]*$", d)
        if not m:
            raise Error("only the root package of another module can be instrumented: " + d)
        cp = os.path.join(out, "mod%d" % n)
        os.makedirs(cp)
        open(os.path.join(cp, "go.mod"), "w").write("module %s\n\ngo 1.20\n" % m.group(1))
        for src, dst in files:
            shutil.copy(dst, os.path.join(cp, os.path.basename(src)))
        mod += "\nreplace %s => %s\n" % (m.group(1), cp)
    open(os.path.join(work, "go.mod"), "w").write(mod)
    shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(work, "go.sum"))
    return ["-modfile=" + os.path.join(work, "go.mod")]


def build(prop, cfg, work):
    binp = os.path.join(work, "h.test")
    repl = {}
    patch_std(work, repl)
    for d, _, fs in os.walk(os.path.join(VERIF, "mc")):
        for f in fs:
            if f.endswith(".go"):
                rel = os.path.relpath(os.path.join(d, f), os.path.join(VERIF, "mc"))
                repl[os.path.join(REPO, "verifmc", rel)] = os.path.join(d, f)
    extra = []
    if cfg.get("instr"):
        extra = instrument(work, cfg["instr"], repl)
    ov = os.path.join(work, "overlay.json")
    json.dump({"Replace": repl}, open(ov, "w"))
    cmd = ["go", "test", "-c", "-vet=off", "-ldflags=-checklinkname=0", "-overlay", ov, "-o", binp]
    if cfg.get("race"):
        # the harness itself is not watched
        patch_testing(work, repl)
        json.dump({"Replace": repl}, open(ov, "w"))
        cmd += ["-race", "-gcflags=%s/verifmc/...=-race=false" % MOD]
    cmd += extra
    cmd.append("./verifmc/" + prop.lower())
    r = run(cmd, cwd=REPO)
    if r.returncode:
        raise Error("build failed:\n" + r.stdout[-6000:])
    if cfg.get("binary"):  # the program itself
        r = run(["go", "build", "-o", os.path.join(work, "gotit"), "./cmd/gotit"], cwd=REPO)
        if r.returncode:
            raise Error("build failed:\n" + r.stdout[-6000:])
    return binp


class Proc:
    def __init__(self, binp, work, cfg, tier, tag, shard=None, replay=None, deadline=None, hang=None):
        self.scratch = tempfile.mkdtemp(prefix="s-", dir=scratch_root())
        self.out = os.path.join(work, "out-%s.json" % tag)
        self.cur = os.path.join(work, "cur-%s" % tag)
        self.log = os.path.join(work, "log-%s" % tag)
        env = dict(ENV)
        env.update({"VERIF_TIER": tier, "VERIF_OUT": self.out, "VERIF_CUR": self.cur, "VERIF_SCRATCH": self.scratch,
                    "VERIF_WORK": work, "VERIF_REPO": REPO, "TMPDIR": self.scratch, "GOTRACEBACK": "all",
                    "VERIF_RACELOG": os.path.join(work, "race-" + tag),
                    "GORACE": "halt_on_error=0 exitcode=0 history_size=3 log_path=" + os.path.join(work, "race-" + tag)})
        if cfg.get("maxprocs"):
            env["GOMAXPROCS"] = str(cfg["maxprocs"])
        if shard:
            env["VERIF_SHARD"] = shard
        if replay:
            env["VERIF_REPLAY"] = replay
        if deadline:
            env["VERIF_DEADLINE"] = str(deadline)
        if hang:
            env["VERIF_HANG"] = str(hang)
        for f in (self.out, self.cur, self.out + ".states"):
            if os.path.exists(f):
                os.unlink(f)
        pre = None
        if cfg.get("nobody") and os.geteuid() == 0:
            os.chmod(self.scratch, 0o777)
            os.chmod(work, 0o777)
            os.chmod(binp, 0o755)

            def pre():
                os.setgroups([])
                os.setgid(65534)
                os.setuid(65534)
        self.t0 = time.time()
        self.f = open(self.log, "w")
        self.p = subprocess.Popen([binp, "-test.timeout=0", "-test.v=false"], cwd=self.scratch, env=env,
                                  stdout=self.f, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, preexec_fn=pre)

    def wait(self):
        rc = self.p.wait()
        self.f.close()
        text = open(self.log, errors="replace").read()
        shutil.rmtree(self.scratch, ignore_errors=True)
        try:
            res = json.load(open(self.out))
        except Exception:
            res = None
        cur = None
        try:
            b = open(self.cur, "rb").read()
            n, ln = struct.unpack("<II", b[:8])
            cur = {"section": b[8:8 + ln].decode(), "choices": list(struct.unpack("<%dI" % n, b[256:256 + 4 * n]))}
        except Exception:
            pass
        return rc, text, res, cur

    def kill(self):
        try:
            self.p.kill()
        except Exception:
            pass


def scratch_root():
    for d in ("/dev/shm", "/tmp"):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            st = os.statvfs(d)
            if st.f_bavail * st.f_frsize > 1 << 30:
                return d
    return tempfile.gettempdir()


TARGET = re.compile(re.escape(MOD) + r"/pkg/")


def verdict(rc, text, res, cur):
    """-> (kind, violation or None); kind in ok, violation, error"""
    if rc == 0:
        return "ok", None
    if rc == 10 and res and res.get("violation"):
        return "violation", res["violation"]
    if rc == 11 and cur:
        if TARGET.search(text):
            return "violation", dict(cur, key="hang", desc="no progress (endless loop or deadlock)\n" + text[-3000:], trace=[])
        return "error", None
    if rc == 12:
        return "error", None
    if rc == 66 and cur:
        # judged by vrt/race_on.go: both accesses are made by the code under test
        return "violation", dict(cur, key="race", desc="two goroutines access the same memory without synchronisation: " + text[text.find("WARNING: DATA RACE"):][:3000], trace=[])
    # crash of a goroutine of the code under test
    m = re.search(r"^(panic: .*|fatal error: .*)$", text, re.M)
    if m and cur:
        crash = text[m.start():]
        first = crash.split("\n\ngoroutine ")[0:2]
        blk = "\n\ngoroutine ".join(first)
        if TARGET.search(blk) and "VRT-HARNESS" not in text:
            return "violation", dict(cur, key="crash", desc="the process crashed: " + blk[:3000], trace=[])
        if "stack overflow" in m.group(1) and TARGET.search(crash):
            return "violation", dict(cur, key="crash", desc="the process crashed: " + m.group(1), trace=[])
        if "deadlock" in m.group(1) and TARGET.search(crash):
            return "violation", dict(cur, key="deadlock", desc="goroutines left blocked for ever: " + crash[:3000], trace=[])
    return "error", None


def load_known(prop):
    known = {}
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                known[m.group(2)] = m.group(3)
    return known


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    prop, tier = a.prop, a.tier
    cfg = PROPS[prop]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        rc = check(prop, tier, cfg, work, a, t0)
    except Error as e:
        print("ERROR", prop, e)
        rc = 2
    finally:
        if not a.keep:
            shutil.rmtree(work, ignore_errors=True)
        else:
            print("kept", work)
    sys.exit(rc)


def check(prop, tier, cfg, work, a, t0):
    binp = build(prop, cfg, work)
    tb = time.time() - t0
    if a.replay:
        shard = json.load(open(a.replay)).get("shard")
        p = Proc(binp, work, cfg, tier, "replay", shard=shard) if shard else Proc(binp, work, cfg, tier, "replay", replay=os.path.abspath(a.replay))
        rc, text, res, cur = p.wait()
        print(text)
        kind, v = verdict(rc, text, res, cur)
        print("replay:", kind)
        return {"ok": 0, "violation": 1}.get(kind, 2)
    shards = cfg.get("shards", {}).get(tier, 1) if isinstance(cfg.get("shards"), dict) else cfg.get("shards", 1)
    deadline = {"quick": 500, "thorough": cfg.get("thorough_deadline", 3000)}[tier]
    deadline = int(os.environ.get("VERIF_BUDGET", deadline))
    procs = [Proc(binp, work, cfg, tier, "s%d" % i, shard="%d/%d" % (i, shards), deadline=deadline) for i in range(shards)]
    results, viol, err = [], None, None
    pending = list(enumerate(procs))
    while pending:
        for item in list(pending):
            i, p = item
            if p.p.poll() is None:
                continue
            pending.remove(item)
            rc, text, res, cur = p.wait()
            kind, v = verdict(rc, text, res, cur)
            if kind == "ok":
                results.append((i, res))
            elif kind == "violation":
                if viol is None or len(v["choices"]) < len(viol["choices"]):
                    viol, vshard, vtime = v, "%d/%d" % (i, shards), time.time() - p.t0
                for _, q in pending:
                    q.kill()
            elif viol is None:
                err = "shard %d: exit %s\n%s" % (i, rc, text[-5000:])
        time.sleep(0.02)
    unconfirmed = None
    if viol:
        rp = os.path.join(work, "replay.json")
        json.dump(viol, open(rp, "w"))
        hits, n = 0, 6
        if viol["key"] == "hang":
            n = 3
        for k in range(n):
            p = Proc(binp, work, cfg, tier, "r%d" % k, replay=rp, hang=60)
            rc, text, res, cur = p.wait()
            kind, v2 = verdict(rc, text, res, cur)
            if kind == "violation":
                hits += 1
        print("violation replayed: %d of %d" % (hits, n))
        if hits < 2 and viol["key"] != "race" and vtime < 150:
            # it may need what happened in earlier executions of the same process: repeat all of them
            hits = 0
            for k in range(2):
                p = Proc(binp, work, cfg, tier, "h%d" % k, shard=vshard, deadline=deadline)
                rc, text, res, cur = p.wait()
                kind, v2 = verdict(rc, text, res, cur)
                if kind == "violation" and (v2["section"], v2["key"]) == (viol["section"], viol["key"]):
                    hits += 1
            print("violation replayed with all executions before it: %d of 2" % hits)
            viol["shard"] = vshard
            viol["desc"] += " (after the executions before it in the same process)"
        if hits >= 2:
            d = os.path.join(VERIF, "replays")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, "%s.json" % prop)
            viol["property"] = prop
            viol["how"] = "python3 check.py %s --tier %s --replay %s" % (prop, tier, path)
            json.dump(viol, open(path, "w"), indent=1)
            print("section %s, choices %s" % (viol["section"], viol["choices"]))
            print("what: [%s] %s" % (viol["key"], viol["desc"]))
            print("trace:", " ".join(viol.get("trace") or [])[:3000])
            evidence(prop, tier, cfg, results, work, t0, tb, shards, 1, note="violation found; exploration stopped")
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        unconfirmed = "%s: %s" % (viol["key"], viol["desc"][:1500])
        if viol["key"] == "race":
            print("a race report that does not replay; exploring again without the race detector")
            return check(prop, tier, dict(cfg, race=False), work, a, t0)
        if err is None and not results:
            err = "a violation was seen but did not replay: " + unconfirmed
    if err:
        print("ERROR", prop, err)
        return 2
    known = load_known(prop)
    seen = {}
    for _, r in results:
        for k, d in (r.get("known") or {}).items():
            seen.setdefault(k, d)
    for k in seen:
        if k not in known:
            path = os.path.join(VERIF, "replays", "%s.json" % prop)
            os.makedirs(os.path.dirname(path), exist_ok=True)
            json.dump({"property": prop, "key": k, "desc": seen[k], "choices": [], "section": ""}, open(path, "w"))
            print("finding not listed: [%s] %s" % (k, seen[k]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        print("KNOWN-FINDING: property=%s %s" % (prop, known[k]))
    evidence(prop, tier, cfg, results, work, t0, tb, shards, 0, unconfirmed=unconfirmed)
    return 0


def evidence(prop, tier, cfg, results, work, t0, tb, shards, nviol, note=None, unconfirmed=None):
    states, secs = set(), {}
    for i, r in results:
        try:
            b = open(os.path.join(work, "out-s%d.json.states" % i), "rb").read()
            states.update(struct.unpack("<%dQ" % (len(b) // 8), b))
        except OSError:
            pass
        for s in r.get("sections") or []:
            e = secs.setdefault(s["name"], {"executions": 0, "choices": 0, "steps": 0, "max_depth": 0, "outcomes": 0,
                                            "exhaustive": True, "divergences": 0, "deviation_bound": s["dev_bound"], "note": s.get("note", ""), "samples": []})
            for k in ("executions", "choices", "steps", "divergences"):
                e[k] += s[k]
            e["outcomes"] = max(e["outcomes"], s["outcomes"])
            e["max_depth"] = max(e["max_depth"], s["max_depth"])
            e["exhaustive"] = e["exhaustive"] and s["exhaustive"]
            if s.get("capped"):
                e["capped"] = s["capped"]
            e["samples"] += (s.get("samples") or [])[:1]
    samples = []
    for n, e in secs.items():
        for s in e.pop("samples")[:2]:
            samples.append({"section": n, "execution": s})
    ex = sum(e["executions"] for e in secs.values())
    cov = {
        "states": len(states), "transitions": sum(e["choices"] + e["steps"] for e in secs.values()),
        "traces_validated_against_impl": ex,
        "exhaustive": bool(secs) and all(e["exhaustive"] for e in secs.values()) and nviol == 0,
        "evaluations": ex, "distinct_nontrivial": len(states),
        "rule": cfg.get("rule", "one execution of the real code per complete choice sequence; distinct by the fingerprint of what was observed"),
        "sections": secs, "samples": samples[:12] or ["none"], "build_s": round(tb, 2), "shards": shards,
        "bounds": cfg.get("bounds", ""),
    }
    if note:
        cov["note"] = note
    if unconfirmed:
        cov["unconfirmed"] = unconfirmed
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "0") or 0), "level": "model_checking",
          "coverage": cov, "assumptions": cfg.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": nviol}
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    json.dump(ev, open(os.path.join(d, prop + ".json"), "w"), indent=1)
    print("%s %s: %d executions, %d choices+steps, %d distinct observed states, exhaustive=%s, %.1fs (build %.1fs)" % (
        prop, tier, ex, cov["transitions"], len(states), cov["exhaustive"], time.time() - t0, tb))
    for n, e in secs.items():
        print("  section %-22s executions=%-9d outcomes=%-7d depth<=%-4d exhaustive=%s%s%s" % (
            n, e["executions"], e["outcomes"], e["max_depth"], e["exhaustive"],
            " capped=" + e["capped"] if e.get("capped") else "", " divergences=%d" % e["divergences"] if e["divergences"] else ""))


if __name__ == "__main__":
    signal.signal(signal.SIGTERM, lambda *_: sys.exit(143))
    main()

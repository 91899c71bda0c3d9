"""Shared by the checks: building the harness, running TLC, profiles, evidence."""
import json, os, re, subprocess, sys, shutil, time, random, hashlib, tempfile, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("AMT_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
GOENV = dict(os.environ,
    PATH="/opt/veriftools/go1.27.3/bin:" + os.environ.get("PATH", ""),
    GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", CGO_ENABLED=os.environ.get("CGO_ENABLED", "1"))
GOENV.setdefault("HOME", "/root")

class CheckError(Exception):
    pass

def goroot():
    return subprocess.run(["go", "env", "GOROOT"], env=GOENV, capture_output=True, text=True, check=True).stdout.strip()

def make_overlay(work):
    """A copy of hash/maphash whose results can be programmed."""
    src = os.path.join(goroot(), "src/hash/maphash/maphash.go")
    text = open(src).read()
    def sub(old, new, n=1):
        nonlocal text
        if text.count(old) < n:
            raise CheckError("hash/maphash is not as expected: " + old)
        text = text.replace(old, new)
    sub("\treturn rthash(b, state)\n", "\treturn verifSum(rthash(b, state))\n")
    sub("\treturn rthashString(s, state)\n", "\treturn verifSum(rthashString(s, state))\n")
    sub("\treturn rthash(h.buf[:h.n], h.state.s)\n", "\treturn verifSum(rthash(h.buf[:h.n], h.state.s))\n")
    sub("\treturn comparableHash(v, seed)\n", "\treturn verifSum(comparableHash(v, seed))\n")
    sub("\treturn Seed{s: s}\n", "\tif VerifSeed != nil {\n\t\tVerifSeed(Seed{s: s})\n\t}\n\treturn Seed{s: s}\n")
    text += """
// VerifSum, when set, maps each true hash to the one returned.
var VerifSum func(uint64) uint64

// VerifSeed, when set, is told every seed made.
var VerifSeed func(Seed)

func verifSum(x uint64) uint64 {
	if VerifSum != nil {
		return VerifSum(x)
	}
	return x
}
"""
    dst = os.path.join(work, "maphash.go")
    open(dst, "w").write(text)
    ov = os.path.join(work, "overlay.json")
    json.dump({"Replace": {src: dst}}, open(ov, "w"))
    return ov

def go_build(work, name, tags=(), flags=(), hook=True, pkg=".", ok_fail=False):
    """Build the harness against the current tree; returns the binary's path."""
    out = os.path.join(work, name)
    # /verif stays untouched: go.mod is copied with the right replace path
    mod = os.path.join(work, "go.mod")
    text = open(os.path.join(HARNESS, "go.mod")).read().replace("=> /repo", "=> " + REPO)
    open(mod, "w").write(text)
    cmd = ["go", "build", "-modfile", mod, "-o", out]
    tags = list(tags)
    if hook:
        cmd += ["-overlay", make_overlay(work)]
        tags.append("verifhook")
    if tags:
        cmd += ["-tags", ",".join(tags)]
    cmd += list(flags) + [pkg]
    p = subprocess.run(cmd, cwd=HARNESS, env=GOENV, capture_output=True, text=True)
    if p.returncode != 0:
        if ok_fail:
            return None, p.stderr
        raise CheckError("build of the harness failed:\n" + p.stderr)
    return (out, "") if ok_fail else out

# ---- TLC

TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
COUNT = re.compile(r"([\d,]+) states generated, ([\d,]+) distinct states found")

class Tlc:
    """One TLC run: the text it printed and its counts."""
    def __init__(self, rc, text):
        self.rc, self.text = rc, text
        m = COUNT.findall(text)
        self.generated, self.distinct = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
        self.complete = "Model checking completed. No error has been found." in text

    def lines(self, prefix):
        """PrintT(prefix \\o json) lines."""
        out = []
        for l in self.text.splitlines():
            if l.startswith('"' + prefix):
                out.append(json.loads(l)[len(prefix):])
        return out

def tlc(work, spec, cfg, workers=1, env=None, out=None, timeout=800, heap="1500m", cfgtext=None, quick=None):
    """Run TLC in work; cfg is the name of a file in spec/, or of cfgtext."""
    meta = tempfile.mkdtemp(dir=work, prefix="tlc")
    cfgpath = os.path.join(SPEC, cfg + ".cfg")
    if cfgtext is not None:
        cfgpath = os.path.join(meta, cfg + ".cfg")
        open(cfgpath, "w").write(cfgtext)
    if quick is None:   # short runs: most of the time would go into the JIT compiler
        quick = spec in ("Trace", "HashTrace", "DepTab", "Graph")
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC"] + (["-XX:TieredStopAtLevel=1"] if quick else []) + [ "-Xmx" + heap, "-Xss64m",
           "-Djava.io.tmpdir=" + meta, "-cp", TLA_CP, "tlc2.TLC", "-noGenerateSpecTE", "-workers", str(workers),
           "-metadir", os.path.join(meta, "states"), "-config", cfgpath, os.path.join(SPEC, spec + ".tla")]
    path = out or os.path.join(meta, "out")
    with open(path, "w") as f:
        try:
            rc = subprocess.run(cmd, cwd=meta, env=dict(os.environ, **(env or {})), stdout=f,
                                stderr=subprocess.STDOUT, timeout=timeout).returncode
        except subprocess.TimeoutExpired:
            rc = -1
    text = open(path, errors="replace").read() if not out else tail(path)
    if not out:
        shutil.rmtree(meta, ignore_errors=True)
    return Tlc(rc, text)

def tail(path, n=4000):
    with open(path, "rb") as f:
        f.seek(0, 2)
        f.seek(max(0, f.tell() - n))
        return f.read().decode(errors="replace")

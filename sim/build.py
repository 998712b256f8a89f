"""Builds the simulator from the current tree of /repo. Nothing in /repo or in
the Go installation is modified: everything goes in through a build overlay."""
import json, os, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VSIM_REPO", "/repo")
sys.path.insert(0, os.path.join(HERE, "goroot"))
import patch as goroot_patch  # noqa: E402


class BuildError(Exception):
    pass


def env():
    e = dict(os.environ)
    e["HOME"] = "/root"
    e["PATH"] = "/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GO111MODULE="on",
             GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build", CGO_ENABLED="1",
             GOWORK="off")
    for k in ("GOEXPERIMENT", "GODEBUG", "GORACE"):
        e.pop(k, None)
    return e


def run(cmd, cwd, what, extra=None):
    e = env()
    if extra:
        e.update(extra)
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError("%s failed (%d):\n%s" % (what, p.returncode, p.stdout[-6000:]))
    return p.stdout


def sources():
    """Non-test Go files of the library itself (not examples)."""
    out = []
    for d, dirs, files in os.walk(REPO):
        dirs[:] = sorted(x for x in dirs if not x.startswith((".", "_")) and x not in ("examples", "testdata"))
        for f in sorted(files):
            if f.endswith(".go") and not f.endswith("_test.go") and not f.startswith(("_", ".")):
                out.append(os.path.join(d, f))
    return out


def build(out, flavours=("plain",)):
    """Returns {flavour: binary path}."""
    try:
        return build1(out, flavours, False)
    except BuildError:
        # Should the code that restores package-level variables not compile,
        # do without: processes are then told apart less well, that is all.
        return build1(out, flavours, True)


def build1(out, flavours, noboot):
    t0 = time.time()
    os.makedirs(out, exist_ok=True)
    goroot = run(["go", "env", "GOROOT"], HERE, "go env").strip()
    replace = {}
    try:
        replace.update(goroot_patch.patch_goroot(goroot, out, os.path.join(HERE, "goroot")))
    except goroot_patch.PatchError as e:
        raise BuildError("runtime patch: %s" % e)
    # scheduling points in the code under test
    instr = os.path.join(out, "instr")
    os.makedirs(instr, exist_ok=True)
    exe = os.path.join(out, "instrbin")
    run(["go", "build", "-o", exe, "."], os.path.join(HERE, "instr"), "building the instrumenter", {"GOFLAGS": ""})
    srcs = sources()
    npoints = 0
    lines = run([exe, instr] + srcs, HERE, "instrumenting", {"INSTR_NOBOOT": "1"} if noboot else None)
    for line in lines.splitlines():
        s, d, n = line.split("\t")
        replace[s] = d
        npoints += int(n)
    # test-only exports and the harness itself
    exp = os.path.join(HERE, "export")
    for f in sorted(os.listdir(exp)):
        if f.endswith(".go"):
            pkg = f.split("__")
            replace[os.path.join(REPO, *pkg[:-1], "zz_verif_" + pkg[-1])] = os.path.join(exp, f)
    har = os.path.join(HERE, "harness")
    for f in sorted(os.listdir(har)):
        if f.endswith(".go"):
            replace[os.path.join(REPO, "internal", "zzverifsim", f)] = os.path.join(har, f)
    ov = os.path.join(out, "overlay.json")
    with open(ov, "w") as f:
        json.dump({"Replace": replace}, f, indent=1)
    mod = os.path.join(out, "verif.mod")
    shutil.copy(os.path.join(REPO, "go.mod"), mod)
    shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(out, "verif.sum"))
    bins = {}
    for fl in flavours:
        b = os.path.join(out, "sim-" + fl)
        cmd = ["go", "build", "-overlay", ov, "-modfile", mod, "-o", b]
        if fl == "race":
            cmd.append("-race")
        else:
            cmd += ["-gcflags=all=-l=0"]
            cmd = [c for c in cmd if c != "-gcflags=all=-l=0"]
        cmd.append("./internal/zzverifsim")
        run(cmd, REPO, "building the simulator (%s)" % fl)
        bins[fl] = b
    return bins, {"build_s": round(time.time() - t0, 2), "yield_points": npoints, "files": len(srcs), "process_state_restored": not noboot}


if __name__ == "__main__":
    try:
        print(build(sys.argv[1], sys.argv[2].split(",")))
    except BuildError as e:
        print(e)
        sys.exit(3)

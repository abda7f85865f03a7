#!/usr/bin/env python3
"""run.py <ID> [quick|thorough] : decide one property on /repo's working tree.

exit 0  no obligation of the property is violated (known findings printed)
exit 1  VIOLATION property=<ID> replay=<path>
exit 2  no verdict (source does not parse, nothing could be decided)"""
import sys, os, re, time, subprocess, tempfile, shutil
V = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(V, "engine"), os.path.join(V, "checks")]
REPO = os.environ.get("TQ_REPO", "/repo")
CONFIG = "".join("#define %s %s\n" % x for x in (("TQMESH_VERSION_MAJOR", 0), ("TQMESH_VERSION_MINOR", 0), ("VERSION_MAJOR", 0), ("VERSION_MINOR", 0),
                                                 ("TQMESH_SOURCE_DIR", '"/src"'), ("SOURCE_DIR", '"/src"')))


def chunks(text):
    """a specification file is a header line block followed by independent programs,
    separated by blank lines; each one can be dropped if it no longer type-checks"""
    lines = text.split("\n")
    out, cur = [], []
    for i, l in enumerate(lines, 1):
        if l.strip(): cur.append(i)
        elif cur: out.append((cur[0], cur[-1])); cur = []
    if cur: out.append((cur[0], cur[-1]))
    return out


def export(work):
    subprocess.run([os.path.join(V, "tools/build.sh")], check=True)
    with open(os.path.join(work, "TQMeshConfig.h"), "w") as f: f.write("#pragma once\n" + CONFIG)
    sd = os.path.join(work, "spec")
    os.mkdir(sd)
    specs = {n: open(os.path.join(V, "spec", n)).read().split("\n") for n in sorted(os.listdir(os.path.join(V, "spec"))) if n.endswith(".h")}
    tu = os.path.join(work, "tu.cpp")
    out = os.path.join(work, "facts.jsonl")
    s = os.path.join(REPO, "src")
    with open(tu, "w") as f:
        f.write('#include "%s/tools/driver.cpp"\n' % V)
        for n in specs: f.write('#include "%s/%s"\n' % (sd, n))
    cmd = [os.path.join(V, "build/tqfacts"), s + ":" + sd, out, tu, "--",
           "-std=gnu++17", "-DNDEBUG", "-DTQMESH_USE_EXPRTK", "-fno-access-control", "-ferror-limit=0", "-w", "-resource-dir", "/usr/lib/llvm-18/lib/clang/18", "-I" + work, "-I" + os.path.join(V, "tools")]
    cmd += ["-I" + os.path.join(s, d) for d in ("app", "algorithm", "utils", "extern_libs")]
    dropped = []
    for attempt in range(8):
        for n, ls in specs.items():
            with open(os.path.join(sd, n), "w") as f: f.write("\n".join(ls))
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if " error: " not in r.stderr:
            if r.returncode: break
            return out, dropped
        bad = set()
        for n, l in re.findall(re.escape(sd) + r"/([\w.]+):(\d+):\d+: (?:fatal )?error: ", r.stderr): bad.add((n, int(l)))
        if not bad:
            for n, l in re.findall(re.escape(sd) + r"/([\w.]+):(\d+):\d+: note: in instantiation", r.stderr): bad.add((n, int(l)))
        if os.environ.get("TQ_VERBOSE"): sys.stderr.write(r.stderr[:3000])
        if not bad: break
        n_ = 0
        for n, l in bad:
            for a, b in chunks("\n".join(specs[n])):
                if a <= l <= b and "namespace vp_spec" not in "\n".join(specs[n][a - 1:b]):
                    dropped.append("%s:%d" % (n, a))
                    for i in range(a - 1, b): specs[n][i] = ""
                    n_ += 1
        if not n_: break
    sys.stderr.write(r.stderr[-6000:])
    print("NO-VERDICT the sources do not type-check")
    raise SystemExit(2)


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else "quick"
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="tqv_")
    try:
        facts, dropped = export(work)
        import rules
        ctx = rules.Ctx(pid, facts, REPO, tier, V)
        ctx.dropped = dropped
        import g, props
        p = props.P[pid]
        for grp in p["groups"]: ctx.group(g, grp)
        return ctx.finish(p, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())

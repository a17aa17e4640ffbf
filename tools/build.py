"""Builds the simulator against /repo's working tree.

Everything goes to /verif/build/<key>/, where key hashes the library sources
and the simulator sources, so that a changed tree is always rebuilt.  The
library's ntl-extras tree is mirrored there and only the tuning-threshold
headers are rewritten (constants become run-time knobs with the same default
value).  /repo itself is only read.
"""
import hashlib, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PMLSIM_REPO", "/repo")
NTLX = os.path.join(REPO, "ntl-extras")
SIM = os.path.join(VERIF, "sim")
BUILD = os.environ.get("PMLSIM_BUILD", os.path.join(VERIF, "build"))
WRAPS = ["_ZN3NTL9RandomBndEl", "_ZN3NTL6randomERNS_5zz_pXEl", "_ZN3NTL6randomERNS_3VecINS_4zz_pEEEl",
         "_Z12_ntl_GetTimev", "_Z16_ntl_GetWallTimev"]
VARIANTS = {
    "pc":   ["-O2", "-fsanitize-coverage=trace-pc"],
    "tsan": ["-O1", "-fsanitize=thread"],
    "o0":   ["-O0", "-fsanitize-coverage=trace-pc"],
    "pat":  ["-O1", "-ftrivial-auto-var-init=pattern", "-fsanitize-coverage=trace-pc"],
}
GUARD = "PML_SIM"


def modules():
    mk = open(os.path.join(NTLX, "Makefile")).read()
    m = re.search(r"^DIRS *= *(.*)$", mk, re.M)
    return m.group(1).split()


def lib_files():
    out = []
    for d in modules():
        base = os.path.join(NTLX, d)
        for sub in ("", "src"):
            p = os.path.join(base, sub)
            if not os.path.isdir(p):
                continue
            for f in sorted(os.listdir(p)):
                if f.endswith((".h", ".hpp", ".orig", ".tpp", ".inc")) or (sub == "src" and f.endswith(".cpp")):
                    out.append(os.path.relpath(os.path.join(p, f), NTLX))
    return out


def key(variant):
    h = hashlib.sha256()
    for f in lib_files():
        h.update(f.encode()); h.update(open(os.path.join(NTLX, f), "rb").read())
    for f in sorted(os.listdir(SIM)):
        if f.endswith((".h", ".cpp")):
            h.update(f.encode()); h.update(open(os.path.join(SIM, f), "rb").read())
    h.update(open(os.path.abspath(__file__), "rb").read())
    h.update(variant.encode())
    return h.hexdigest()[:16]


NUM = r"(-?\d+)[lL]?"


def knobify(text, name, knobs):
    """constants of a thresholds header -> run-time knobs with the same default"""
    out = []
    for line in text.split("\n"):
        m = re.match(r"^\s*#\s*define\s+([A-Za-z_]\w*)\s+\(?" + NUM + r"\)?\s*(//.*)?$", line)
        if m and not m.group(1).endswith("_LEN") and not m.group(1).endswith("_H"):
            knobs.append((name, m.group(1), 0, [int(m.group(2))]))
            out.append("#define %s (::pml_sim_knob(\"%s\",%sL))" % (m.group(1), m.group(1), m.group(2)))
            continue
        m = re.match(r"^\s*static\s+(?:const\s+)?long\s+([A-Za-z_]\w*)\s*\[\s*(\d*)\s*\]\s*=\s*\{([^}]*)\}\s*;\s*$", line)
        if m and not m.group(1).endswith("_SIZES"):
            vals = [int(x) for x in m.group(3).replace("LONG_MAX", str(2**63 - 1)).replace("L", "").split(",") if x.strip()]
            n = int(m.group(2)) if m.group(2) else len(vals)
            knobs.append((name, m.group(1), n, vals))
            out.append("static long %s_dflt[%d] = {%s};" % (m.group(1), n, ", ".join(str(v) + "L" for v in vals)))
            out.append("#define %s (::pml_sim_knob_arr(\"%s\",%s_dflt,%d))" % (m.group(1), m.group(1), m.group(1), n))
            continue
        out.append(line)
    decl = 'extern "C" long pml_sim_knob(const char *, long);\nextern "C" long * pml_sim_knob_arr(const char *, long *, long);\n'
    return decl + "\n".join(out)


def mirror(dst, with_knobs):
    knobs = []
    mods = modules()
    files = set(lib_files())
    for f in sorted(files):
        src = os.path.join(NTLX, f)
        if f.endswith(".orig"):
            if f[:-5] + ".h" in files:
                continue
            to = os.path.join(dst, f[:-5] + ".h")
        else:
            to = os.path.join(dst, f)
        os.makedirs(os.path.dirname(to), exist_ok=True)
        text = open(src, errors="surrogateescape").read()
        if with_knobs and os.path.basename(f).startswith("thresholds_"):
            text = knobify(text, os.path.basename(f), knobs)
        open(to, "w", errors="surrogateescape").write(text)
    with open(os.path.join(dst, "knobs_gen.h"), "w") as o:
        o.write("struct KnobDef { const char * file; const char * name; long n; long dflt; };\nstatic const KnobDef knob_defs[] = {\n")
        for (fn, nm, n, vals) in knobs:
            o.write('  { "%s", "%s", %d, %dL },\n' % (fn, nm, n, vals[0] if vals else 0))
        o.write("  { 0, 0, 0, 0 } };\n")
    return mods, knobs


def run(cmd, log):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        log.append(" ".join(cmd) + "\n" + p.stdout)
    return p.returncode == 0


def try_build(d, variant, with_knobs, jobs):
    src = os.path.join(d, "src"); obj = os.path.join(d, "obj")
    for x in (src, obj):
        shutil.rmtree(x, ignore_errors=True); os.makedirs(x)
    mods, knobs = mirror(src, with_knobs)
    inc = ["-I" + os.path.join(src, m) for m in mods] + ["-I" + src, "-I" + SIM]
    tasks, libo, simo = [], [], []
    for f in lib_files():
        if f.endswith(".cpp"):
            o = os.path.join(obj, f.replace("/", "__")[:-4] + ".o")
            libo.append(o)
            tasks.append((os.path.getsize(os.path.join(src, f)), ["g++", "-std=c++11", "-w", "-g1", "-fno-pie", "-fno-omit-frame-pointer", "-D" + GUARD] + VARIANTS[variant] + inc + ["-c", os.path.join(src, f), "-o", o]))
    for f in sorted(os.listdir(SIM)):
        if f.endswith(".cpp"):
            o = os.path.join(obj, "sim__" + f[:-4] + ".o")
            simo.append(o)
            opt = ["-O2"] if f in ("core.cpp", "main.cpp") else ["-O1"]
            tasks.append((1000000, ["g++", "-std=c++17", "-w", "-g1", "-fno-pie", "-fno-omit-frame-pointer"] + opt + inc + ["-c", os.path.join(SIM, f), "-o", o]))
    tasks.sort(key=lambda t: -t[0])
    log = []
    with ThreadPoolExecutor(jobs) as ex:
        oks = list(ex.map(lambda t: run(t[1], log), tasks))
    dropped = []
    for t, ok in zip(tasks, oks):
        if ok:
            continue
        o = t[1][-1]; b = os.path.basename(o)
        if b.startswith("sim__ops_"):       # an operation file that no longer compiles is left out, and reported
            dropped.append(b[5:-2]); simo.remove(o)
        else:
            return None, "\n".join(log)
    if dropped and not [x for x in simo if os.path.basename(x).startswith("sim__ops_")]:
        return None, "\n".join(log)
    exe = os.path.join(d, "pmlsim")
    ok = run(["g++", "-no-pie", "-rdynamic", "-o", exe] + libo + simo + ["-Wl,--wrap=" + w for w in WRAPS] +
             ["-l:libntl.a", "-l:libgmp.a", "-lpthread", "-ldl", "-lm"], log)
    if not ok:
        return None, "\n".join(log)
    shutil.rmtree(obj, ignore_errors=True)
    open(os.path.join(d, "dropped"), "w").write(" ".join(dropped))
    return exe, "\n".join(log)


def build(variant="pc", jobs=8, quiet=False):
    d = os.path.join(BUILD, variant + "-" + key(variant))
    exe = os.path.join(d, "pmlsim")
    if os.path.exists(os.path.join(d, "ok")) and os.path.exists(exe):
        return exe, open(os.path.join(d, "ok")).read().strip()
    t0 = time.time()
    # drop builds of other trees of the same variant
    if os.path.isdir(BUILD):
        for x in os.listdir(BUILD):
            if x.startswith(variant + "-"):
                shutil.rmtree(os.path.join(BUILD, x), ignore_errors=True)
    os.makedirs(d, exist_ok=True)
    e, log = try_build(d, variant, True, jobs)
    knobs = "knobs"
    if e is None:
        e, log2 = try_build(d, variant, False, jobs)
        knobs = "noknobs"
        log = log + "\n--- without knobs ---\n" + log2
    if e is None:
        sys.stderr.write(log[:20000])
        raise SystemExit("pmlsim: build failed (%s)" % variant)
    dr = open(os.path.join(d, "dropped")).read().strip()
    if dr:
        sys.stderr.write(log[:4000] + "\n")
        knobs += " dropped: " + dr
    open(os.path.join(d, "ok"), "w").write(knobs)
    if not quiet:
        print("built %s in %.1f s (%s)" % (variant, time.time() - t0, knobs), flush=True)
    return exe, knobs


if __name__ == "__main__":
    for v in sys.argv[1:] or ["pc"]:
        print(build(v))

#!/usr/bin/env python3
"""Build the explorer against /repo's working tree and decide one property.

  check.py C05               quick tier
  check.py C05 --thorough    thorough tier
  check.py C05 --replay BUILD FAMILY CASE [--thorough]   run one case verbosely

Exit 0: held on everything explored. Exit 1: violated (VIOLATION line)."""
import concurrent.futures as cf
import json, os, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
SRC = os.path.join(VERIF, "src")
REPO = os.environ.get("VERIF_REPO", "/repo")
EVID = os.path.join(VERIF, "evidence")
WRAP = "-Wl," + ",".join("--wrap=" + f for f in ("malloc", "free", "calloc", "realloc", "strdup"))

# adapter name -> (source, compiler, flags)
C, CXX = "adapter_c.c", "adapter_cpp.cpp"
ADAPTERS = {
    "main": (C, "gcc", ["-O1", "-DSURFACE=0"]),
    "tiny": (C, "gcc", ["-O1", "-DSURFACE=0", "-Dzj_ALLOCATOR_INIT_MEMSIZE=64", "-Dzj_STRING_INIT_MEMSIZE=1"]),
}
def pp(name, lang, surface, opt, defs=(), cc=None):
    """Register an adapter."""
    if lang == "c++c":  # the C interface in a C++ program
        ADAPTERS[name] = (C, cc or "g++", ["-x", "c++", "-Dzj_CPLUSPLUS=0", opt, f"-DSURFACE={surface}"] + list(defs))
    elif lang == "c":
        ADAPTERS[name] = (C, cc or "gcc", [opt, f"-DSURFACE={surface}"] + list(defs))
    else:
        ADAPTERS[name] = (CXX, cc or "g++", [opt, "-std=c++11", f"-DSURFACE={surface}", f"-DNSTAG=ns_{name}"] + list(defs))
    return name


SURFACES = ["main", pp("short", "c", 1, "-O1")] + [pp(n, "c++", s, "-O1") for n, s in
            (("nsshort", 2), ("members", 3), ("objects", 4), ("wrapper", 5), ("nslong", 6))]


ADAPTERS["gobind"] = ("adapter_go.c", "gcc", ["-O1"])
BETA = []
for n, surface, defs in (("beta", 0, []), ("betashort", 1, ["-Dz_MEMORY_MODE=2", "-Dz_EXPECT_MODE=2"]), ("betatiny", 0, ["-Dz_ALLOCATORINITMEMSIZE=1", "-Dz_STRINGINITMEMSIZE=1", "-Dz_DELTA=3", "-DMEMMODE3=size_t", "-DEXPECT3"])):
    ADAPTERS[n] = ("adapter_beta.cpp", "g++", ["-O1", f"-DSURFACE={surface}", f"-DNSTAG=ns_{n}"] + defs)
    BETA.append(n)


def configs(thorough):
    """Quick: a covering selection; thorough: the full product of the main options."""
    def d(delta, init, st, size, expect, mem):
        r = []
        if delta != 2: r.append(f"-Dzj_DELTA={delta}")
        if init: r.append(f"-Dzj_ALLOCATOR_INIT_MEMSIZE={init}")
        if st: r.append(f"-Dzj_STRING_INIT_MEMSIZE={st}")
        if size == 64: r.append("-Dzj_SIZE_TYPE=uint64_t")
        if expect == 2: r.append("-Dzj_EXPECT_MODE=2")
        if expect == 3: r.append("-DEXPECT3")
        if mem == 2: r.append("-Dzj_MEMORY_MODE=2")
        if mem == 3: r.append("-DMEMMODE3=" + ("uint64_t" if size == 64 else "uint32_t"))
        return r
    out = ["main"]
    n = 0
    def add(lang, surface, opt, defs, cc=None):
        nonlocal n
        n += 1
        out.append(pp(f"k{n}", lang, surface, opt, defs, cc))
    if not thorough:
        for delta, init, st, size, expect, mem, lang, surface, opt, cc, std in (
                (2, 0, 0, 32, 2, 1, "c", 0, "-O3", None, "c99 -funsigned-char"), (3, 1, 1, 32, 1, 2, "c", 1, "-O0", None, None),
                (2, 1, 3, 64, 2, 3, "c", 0, "-O2", "clang", "c2x -DNDEBUG"), (7, 64, 2, 64, 1, 1, "c++", 2, "-O3", None, "c++98 -DNDEBUG"),
                (2, 0, 0, 64, 1, 2, "c++", 3, "-O0", None, "c++23 -funsigned-char"), (3, 100, 1024, 32, 2, 1, "c++", 4, "-O2", "clang++", "c++11 -funsigned-char -DNDEBUG"),
                (2, 65536, 1, 64, 2, 2, "c", 0, "-O0", "clang", None), (10, 24, 7, 32, 3, 3, "c", 1, "-O3", "clang", "c11"),
                (2, 2, 5000, 32, 2, 2, "c++", 6, "-Os", None, "c++14 -fshort-enums"), (4, 33, 1, 64, 2, 1, "c++", 3, "-O1", None, "c++20"),
                (5, 4095, 1023, 32, 1, 2, "c", 0, "-Os", None, "gnu17 -fshort-enums -D_FORTIFY_SOURCE=2"), (2, 1, 1, 64, 1, 3, "c", 0, "-O1", None, None),
                (2, 3, 9, 32, 3, 3, "c++", 4, "-O2", None, "c++17"), (3, 5, 2, 64, 3, 2, "c++c", 0, "-O1", None, None),
                (2, 48, 4, 32, 1, 3, "c++", 5, "-O0", "clang++", None), (6, 0, 1, 32, 2, 1, "c++c", 1, "-O2", "clang++", None)):
            add(lang, surface, opt, d(delta, init, st, size, expect, mem) + (f"-std={std}".split() if std else []), cc)
    else:
        for delta in (2, 3):
            for init, st in ((1, 1), (64, 1024), (0, 0)):
                for size in (32, 64):
                    for expect in (1, 2):
                        for mem in (1, 2, 3):
                            for lang, opt in (("c", "-O0"), ("c", "-O3"), ("c++", "-O2")):
                                add(lang, 0 if lang == "c" else {(1, 1): 3, (1, 2): 4, (2, 1): 5, (2, 2): 2}.get((expect, size // 32), 6), opt, d(delta, init, st, size, expect, mem))
        for lang, cc, stds in (("c", None, ("c99", "c11", "c17", "c2x")), ("c", "clang", ("c99", "gnu11", "c2x")), ("c++", None, ("c++98", "c++14", "c++17", "c++20", "c++23")),
                               ("c++", "clang++", ("c++98", "c++17", "c++20")), ("c++c", None, ("c++98", "c++11", "c++20")), ("c++c", "clang++", ("c++11",))):
            for i, std in enumerate(stds):
                add(lang, i % 2 if lang != "c++" else 2 + i % 5, ("-O1", "-O2", "-Os")[i % 3], d(2 + i % 2, 1 + 40 * i, 1 + i, 32, 3, 1 + (i + 1) % 3) + [f"-std={std}"] + (["-funsigned-char", "-DNDEBUG"] if i % 2 else ["-fshort-enums"]), cc)
    return out


HARNESS = ["vf", "ref", "gen", "texts", "hist", "apis_main"]
# build name -> adapters, harness sources, extra flags
BUILDS = {
    "vals": dict(adapters=["main", "tiny"], src=HARNESS + ["values"]),
    "mem": dict(adapters=["main", "tiny", "members", "objects", "wrapper"], src=HARNESS + ["values", "lite", "memprops"]),
    "asan": dict(adapters=["main", "tiny", "members", "objects", "wrapper"], src=HARNESS + ["values", "lite", "memprops"], flavour="asan"),
    "msan": dict(adapters=["main", "tiny", "members", "objects", "wrapper"], src=HARNESS + ["values", "lite", "memprops"], flavour="msan"),
    "conf": dict(adapters=configs, src=HARNESS + ["histprops", "values", "lite", "more", "confprops"]),
    "surf": dict(adapters=SURFACES, composed=["mixc0", "mixc1", "mixn0", "mixn1"], src=HARNESS + ["mix", "histprops", "values", "lite", "more", "confprops"]),
    "betafull": dict(adapters=BETA, src=HARNESS + ["histprops", "values", "lite", "more", "betaprops"]),
    "betaasan": dict(adapters=BETA, src=HARNESS + ["values", "lite", "betaprops"], flavour="asan"),
    "betamsan": dict(adapters=BETA, src=HARNESS + ["values", "lite", "betaprops"], flavour="msan"),
    "full": dict(adapters=["main", "tiny"], src=HARNESS + ["histprops", "values", "lite", "more"]),
    "iso": dict(adapters=["main", "tiny", "members", "objects"], src=HARNESS + ["values", "lite", "isoprops"]),
    "race": dict(adapters=["main", "tiny", "members", "objects"], src=HARNESS + ["values", "lite", "race", "raceprops"], flavour="race"),
    "work": dict(adapters=["main", "tiny", "wrapper", "beta"], src=HARNESS + ["values", "work", "workprops"], flavour="work"),
    "go": dict(adapters=["gobind"], src=HARNESS + ["histprops", "values", "lite", "more", "goprops"], go=True),
}
BETAGROUPS = "C19,C01,C02,C03,C04,C05,C06,C07,C08,C09,C10,C12,C16,C17,C20"  # the whole family set, on the beta header
LIGHT = ",".join(f"{g}.{f}" for g, fs in (
    ("C01", "words edits dialects positions"), ("C02", "positions tokens encodings"), ("C03", "edits docs boundary"), ("C04", "retry parse_tokens dialects hist1"),
    ("C05", "edits all_worlds1 room"), ("C06", "edits sizes"), ("C07", "edits lists repeat"), ("C08", "escape_bytes escape_sizes positions encodings decode_units decode_seq"),
    ("C09", "bytes numbers positions sizes dialects"), ("C10", "literals edges lengths positions doubles"), ("C12", "edits"),
    ("C16", "keysets keylengths many positions histories"), ("C20", "types tokens")) for f in fs.split())
GOFULL = "C01,C02,C03,C04,C05,C06,C07,C08,C09,C10,C12,C16,C17,C20"
GOGROUPS = LIGHT + ",".join(["", "C18"] + [f"{g}.{f}" for g, fs in (
    ("C01", "numbers escapes tokens bytes2_ctx sizes"), ("C02", "bytes"), ("C03", "room sizes"), ("C04", "parse_edits parse_sizes"), ("C05", "wide"),
    ("C07", "wide"), ("C08", "decode_pairs"), ("C17", "width length"), ("C06", "room")) for f in fs.split()])
# property -> runs (build, family group, options): api = run the families on that adapter,
# tier = only in this tier, bounds = explore with the bounds of that tier whatever the tier
RUNS = {
    "C01": [("full", "C01")], "C02": [("full", "C02")], "C03": [("full", "C03")], "C04": [("full", "C04")],
    "C05": [("full", "C05")], "C06": [("full", "C06")], "C07": [("full", "C07")], "C08": [("full", "C08")],
    "C09": [("full", "C09")], "C10": [("full", "C10")] + [("full", "C10,C05.full2,C20.types", dict(locale=l, bounds="quick")) for l in ("de_DE", "ps_AF")], "C11": [("mem", "C11"), ("asan", "C11S"), ("msan", "C11S")], "C12": [("full", "C12")], "C13": [("iso", "C13"), ("race", "C13T"), ("full", "C06.two_alloc,C06.two_alloc3,C06.fast_source,C06.sizes,C06.tokens")], "C14": [("conf", "C14")] + [("conf", LIGHT, dict(api=a, bounds="quick")) for a in ("k2", "k3", "k6", "k11")], "C15": [("surf", "C15")] + [("surf", LIGHT, dict(api=a, bounds="quick")) for a in SURFACES[1:]], "C16": [("full", "C16")],
    "C17": [("vals", "C17")], "C18": [("go", GOGROUPS, dict(tier="quick")), ("go", "C18", dict(tier="thorough")), ("go", GOFULL, dict(tier="thorough", bounds="quick"))], "C19": [("betafull", BETAGROUPS), ("betafull", "C10", dict(locale="de_DE", bounds="quick")), ("betaasan", "C19S"), ("betamsan", "C19S")], "C20": [("full", "C20")],
    "C21": [("work", "C21")],
}
ASSUME = [
    "x86-64 Linux, C locale (number conversions also in locales with another decimal point), no memory exhaustion; API preconditions as stated in properties.jsonl",
    "bounded: holds for every case within the bounds listed under families",
    "trusted: reference parser, ordered-tree model and monitors in /verif/src, the compilers and libc",
]


class BuildError(Exception):
    pass


class InfraError(Exception):
    """The machinery itself failed: no answer."""


def sh(cmd, cwd):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return p.returncode, p.stdout.decode("utf-8", "replace")


class Builder:
    """Compiles into a scratch directory; everything of /repo is read from its working tree."""

    def __init__(self, scratch, thorough):
        self.dir = scratch
        self.thorough = thorough
        self.pool = cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 8)
        self.jobs = {}
        self.done = {}

    def compile(self, key, cmd, cwd):
        if key not in self.jobs:
            self.jobs[key] = self.pool.submit(sh, cmd, cwd)
        return self.jobs[key]

    def adapter(self, name, flavour):
        src, cc, flags = ADAPTERS[name]
        fl = FLAVOURS[flavour]
        cc = {"gcc": fl.get("acc", fl.get("cc", cc)), "g++": fl.get("acxx", fl.get("cxx", cc))}.get(cc, cc)
        obj = os.path.join(self.dir, f"a_{flavour}_{name}.o")
        if name == "gobind":
            flags = flags + [f'-DGOLIB="{self.dir}/go/lib.so"']
        cmd = [cc, "-w", "-g1"] + fl["flags"] + fl.get("aflags", []) + flags + [f"-DAPI_NAME={name}", f"-I{REPO}", f"-I{SRC}", "-c", os.path.join(SRC, src), "-o", obj]
        return obj, self.compile(obj, cmd, self.dir)

    def harness(self, name, flavour, build):
        fl = FLAVOURS[flavour]
        bd = os.path.join(self.dir, build)
        obj = os.path.join(bd if name == "apis_main" else self.dir, f"h_{flavour}_{name}.o")
        cmd = [fl.get("cxx", "g++"), "-std=c++17", "-w"] + fl.get("hflags", ["-O2"]) + fl["flags"] + [f"-I{SRC}", f"-I{bd}", "-c", os.path.join(SRC, name + ".cpp"), "-o", obj]
        return obj, self.compile(obj, cmd, self.dir)

    def golib(self):
        """The Go package of /repo plus the exports of src/go, as a shared library."""
        d = os.path.join(self.dir, "go")
        pkg = os.path.join(d, "zzzjson")
        os.makedirs(pkg)
        for f in os.listdir(REPO):
            if f.endswith((".go", ".h")) and not f.endswith("_test.go"):
                shutil.copy(os.path.join(REPO, f), pkg)
        for f in ("vf_hook.h", "vf_hook.c", "vf_hook.go"):
            shutil.copy(os.path.join(SRC, "go", f), pkg)
        shutil.copy(os.path.join(SRC, "go", "main.go"), d)
        with open(os.path.join(d, "go.mod"), "w") as f:
            f.write("module vf\n\ngo 1.23\n")
        env = dict(os.environ, GOFLAGS="-mod=mod", GOTOOLCHAIN="local", GO111MODULE="on", GOPROXY="off", CGO_ENABLED="1", GOOS="", GOARCH="",
                   GOCACHE=os.path.join(d, "cache"), GOPATH=os.path.join(d, "path"), HOME=d, GOENV="off", GOWORK="off")
        p = subprocess.run(["go", "build", "-buildmode=c-shared", "-o", "lib.so", "."], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        return p.returncode, p.stdout.decode("utf-8", "replace")

    def build(self, build):
        if build not in self.done:
            self.done[build] = self.build1(build)
        return self.done[build]

    def build1(self, build):
        b = dict(BUILDS[build])
        if callable(b["adapters"]):
            b["adapters"] = b["adapters"](self.thorough)
        flavour = b.get("flavour", "std")
        bd = os.path.join(self.dir, build)
        os.makedirs(bd, exist_ok=True)
        with open(os.path.join(bd, "apis.list"), "w") as f:
            f.write(" ".join(f"X({a})" for a in b["adapters"] + b.get("composed", [])) + "\n")
        golib = self.pool.submit(self.golib) if b.get("go") else None
        todo = [self.harness(s, flavour, build) for s in b["src"]] + [self.adapter(a, flavour) for a in b["adapters"]]
        for obj, job in todo:
            rc, out = job.result()
            if rc and os.path.basename(obj).startswith("h_"):
                raise InfraError(f"compiling {os.path.basename(obj)} failed:\n{out}")
            if rc:
                raise BuildError(f"compiling {os.path.basename(obj)} failed:\n{out}")
        if golib:
            rc, out = golib.result()
            if rc:
                raise BuildError("the Go package does not build:\n" + out)
        exe = os.path.join(bd, "mc")
        fl = FLAVOURS[flavour]
        rc, out = sh([fl.get("cxx", "g++")] + fl["flags"] + ["-o", exe] + [o for o, _ in todo] + fl.get("link", [WRAP]), self.dir)
        if rc:
            raise BuildError("linking failed:\n" + out)
        return exe


COUNTED = "strlen strnlen memcpy memmove memset memcmp memchr strcmp strncmp strchr strcpy strncpy strcat strspn strcspn strtod strtol strtoll __isoc23_strtol __isoc23_strtoll atof atoi atol atoll".split()
FLAVOURS = {
    "std": dict(flags=[]),
    "asan": dict(cc="clang", cxx="clang++", flags=["-fsanitize=address", "-DVF_PLAIN", "-DVF_NOLIMIT"], hflags=["-O1"]),
    "race": dict(acc="clang", acxx="clang++", aflags=["-fsanitize=thread", "-include", os.path.join(SRC, "race_wrap.h")], flags=[], link=[WRAP, "-Wl," + ",".join("--wrap=" + f for f in ("pthread_mutex_lock", "pthread_mutex_unlock", "pthread_once", "__cxa_guard_acquire", "__cxa_guard_release")), "-lpthread"]),
    "work": dict(aflags=["-fsanitize-coverage=trace-pc", "-fno-builtin", "-fexceptions"], flags=[], link=[WRAP, "-Wl," + ",".join("--wrap=" + f for f in COUNTED)]),
    "msan": dict(cc="clang", cxx="clang++", flags=["-fsanitize=memory", "-DVF_PLAIN", "-DVF_NOLIMIT", "-DVF_MSAN"], hflags=["-O1", "-fsanitize-ignorelist=" + os.path.join(SRC, "msan_ignore.txt"), "-mllvm", "-msan-poison-stack=0"]),
}


def make_locale(name, cwd):
    """Compile a locale of the C library into the scratch directory."""
    d = os.path.join(cwd, "locale")
    os.makedirs(d, exist_ok=True)
    if not os.path.isdir(os.path.join(d, name)):
        subprocess.run(["localedef", "-i", name, "-f", "UTF-8", os.path.join(d, name)], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    return os.path.isfile(os.path.join(d, name, "LC_NUMERIC"))


def run_mc(exe, group, thorough, cwd, extra=(), timeout=None):
    out = os.path.join(cwd, "out.json")
    if os.path.exists(out):
        os.unlink(out)
    cmd = [exe, "--prop", group, "--out", out] + (["--thorough"] if thorough else []) + list(extra)
    log = os.path.join(cwd, "log.txt")
    with open(log, "w") as f:
        try:
            rc = subprocess.run(cmd, cwd=cwd, env=dict(os.environ, LOCPATH=os.path.join(cwd, "locale")), stdout=f, stderr=subprocess.STDOUT, timeout=timeout).returncode
        except subprocess.TimeoutExpired:
            rc = -999
    text = open(log, errors="replace").read()
    res = json.load(open(out)) if os.path.exists(out) else None
    return rc, res, text


def confirm(exe, group, bad, thorough, cwd, extra=()):
    """Replay the failing case alone, then, if it needs its predecessors, the family again."""
    rc, _, text = run_mc(exe, group, thorough, cwd, ["--fam", bad["family"], "--case", str(bad["case"])] + list(extra), timeout=120)
    if rc != 0:
        how = "the case alone" + (" (does not end within 120 s)" if rc == -999 else f" (status {rc})")
        return f"reproduced by replaying {how}\n" + text[-6000:]
    rc, res, text = run_mc(exe, group, thorough, cwd, ["--fam", bad["family"]] + list(extra), timeout=600)
    if rc != 0 and res and res.get("bad"):
        return "reproduced only after the cases before it (the family was run again): " + json.dumps(res["bad"]) + "\n" + text[-6000:]
    return None


def main():
    prop = sys.argv[1]
    thorough = "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough"
    os.makedirs(EVID, exist_ok=True)
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix=f"vf_{prop}_")
    violations = []
    families, totals = [], dict(states=0, transitions=0, traces=0)
    saturated = False
    extra_cov = {}
    try:
        b = Builder(scratch, thorough)
        if "--replay" in sys.argv:
            i = sys.argv.index("--replay")
            exe = b.build(sys.argv[i + 1])
            fam, case = sys.argv[i + 2], sys.argv[i + 3]
            fam, _, loc = fam.partition("~")
            fam, _, name = fam.partition("@")
            if loc:
                make_locale(loc, scratch)
            rc, _, text = run_mc(exe, fam if "." in fam else [r[1] for r in RUNS[prop] if r[0] == sys.argv[i + 1]][0], thorough, scratch, ["--fam", fam, "--case", case] + (["--api", name] if name else []) + (["--locale", loc] if loc else []))
            print(text)
            return 1 if rc else 0
        for build, group, *opt in RUNS[prop]:
            opt = opt[0] if opt else {}
            if opt.get("tier", "thorough" if thorough else "quick") != ("thorough" if thorough else "quick"):
                continue
            deep = thorough and opt.get("bounds") != "quick"
            extra = ["--api", opt["api"]] if "api" in opt else []
            at = "@" + opt["api"] if "api" in opt else ""
            if "locale" in opt:
                if not make_locale(opt["locale"], scratch):
                    print(f"[{prop}] locale {opt['locale']} cannot be made here: not explored")
                    continue
                extra += ["--locale", opt["locale"]]
                at += "~" + opt["locale"]
            try:
                exe = b.build(build)
                print(f"[{prop}] {build} built after {time.time() - t0:.1f} s", flush=True)
                rc, res, text = run_mc(exe, group, deep, scratch, extra)
                if res is None:
                    raise InfraError(f"explorer ended with status {rc}:\n{text[-3000:]}")
                if res.get("bad"):
                    how = confirm(exe, group, res["bad"], deep, scratch, extra)
                    if how is None:  # a disturbed run, not the code: explore again
                        rc, res, text = run_mc(exe, group, deep, scratch, extra)
                        if res is None:
                            raise InfraError("explorer failed")
                        if res.get("bad"):
                            how = confirm(exe, group, res["bad"], deep, scratch, extra)
                    if res.get("bad") and how is not None:
                        res["bad"]["how"] += "; " + how
                    else:
                        res.pop("bad", None)
            except BuildError as e:
                violations.append(dict(build=build, family="(build)", case=0, msg="the library does not build in this configuration or surface", how=str(e)[-8000:]))
                break
            for f in res["families"]:
                f["build"] = build + at
                families.append(f)
            totals["states"] += res["states"]
            totals["transitions"] += res["transitions"]
            totals["traces"] += res["cases"]
            saturated |= res.get("states_saturated", False)
            extra_cov.update(res.get("coverage", {}))
            print(f"[{prop}] {build}{at}: {res['cases']} executions, {res['transitions']} operations, {res['states']} distinct states, {res['wall']:.1f} s", flush=True)
            if res.get("bad"):
                violations.append(dict(res["bad"], build=build, at=at, deep=deep))
                break
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    samples = []
    for f in families:
        for s in f["samples"][:2]:
            samples.append(f"{f['name']}: {s}")
    ev = dict(
        property=prop, tier="thorough" if thorough else "quick", seed=int(os.environ.get("VERIF_SEED", "1") or 1),
        level="model_checking",
        coverage=dict(states=totals["states"], transitions=totals["transitions"], traces_validated_against_impl=totals["traces"],
                      exhaustive=not violations, states_are_a_lower_bound=saturated, samples=samples[:40],
                      families=[{k: f[k] for k in ("build", "name", "what", "cases", "transitions")} for f in families], **extra_cov),
        assumptions=ASSUME, wall_s=round(time.time() - t0, 2), violations=len(violations))
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    rp = os.path.join(EVID, prop + ".replay.txt")
    if violations:
        v = violations[0]
        with open(rp, "w") as f:
            f.write(f"property {prop}\nfamily {v['family']} case {v['case']}\n{v['msg']}\n\n")
            f.write(f"replay: cd {VERIF} && python3 check.py {prop}{' --thorough' if v.get('deep') else ''} --replay {v['build']} {v['family']}{v.get('at', '')} {v['case']}\n\n{v['how']}\n")
        print(f"{v['family']} case {v['case']}: {v['msg']}")
        print(f"VIOLATION property={prop} replay={rp}", flush=True)
        return 1
    if os.path.exists(rp):
        os.unlink(rp)
    print(f"[{prop}] held on everything explored, {time.time() - t0:.1f} s")
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except InfraError as e:
        print(f"no answer: {e}")
        sys.exit(2)

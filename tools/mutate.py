#!/usr/bin/env python3
"""mutate.py WORKDIR FILE[:N] ... [--seed S] -- development aid: applies small source changes to a scratch copy of /repo one at a time,
runs the quick explorers that cover the file until the first violation, and lists the changes no explorer noticed although the
repository's tests still pass. Nothing in /verif or /repo depends on it."""
import json, os, random, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))  # run it from a copy of /verif to go on editing
W = sys.argv[1]
args = [a for a in sys.argv[2:] if not a.startswith("--")]
seed = int(next((a[7:] for a in sys.argv if a.startswith("--seed=")), "1"))
JOBS = int(os.environ.get("MUT_JOBS", "8"))
MAP = [("src/Stream", "P01 P02 P03"), ("src/Mmap", "P01"), ("src/Vfs", "P04 P05 P06 P07"), ("src/Misc", "P04 P15"), ("src/Archive.cc", "P08 P09 P10 P22 P11"),
       ("src/archive/", "P08 P09 P22 P10 P11 P16"), ("src/vobs/", "P10 P11 P12 P16"), ("src/World.cc", "P12 P16"), ("src/world/", "P12 P13 P10 P16"),
       ("src/Mesh", "P13 P12 P16"), ("src/MultiRes", "P13 P24 P16"), ("src/SoftSkin", "P13 P16"), ("src/ModelMesh", "P13 P16"), ("src/ModelHier", "P13 P16"), ("src/Model.cc", "P13 P16"),
       ("src/Material", "P13 P12 P16"), ("src/Font", "P13 P16"), ("src/Boxes", "P13"), ("src/Texture", "P14 P16"), ("src/addon/texcvt", "P14"), ("src/ModelScript", "P15 P16"),
       ("src/ModelAnim", "P24 P16"), ("src/MorphMesh", "P24 P16"), ("src/DaedalusScript", "P20 P19 P17 P18 P16"), ("src/DaedalusVm", "P17 P18 P19"), ("include/zenkit/DaedalusScript", "P19 P20 P18"),
       ("include/zenkit/DaedalusVm", "P18 P19 P17"), ("src/addon/daedalus", "P19 P18"), ("src/SaveGame", "P23 P12"), ("src/CutsceneLib", "P26 P10 P12 P16"), ("src/Date", "P08"), ("src/Object", "P10"), ("src/Logger", "P27 P21"), ("src/Internal", "P03 P13"), ("", "P16")]
REPO, MB, TB = W + "/repo", W + "/mb", W + "/tb"
os.environ["MC_REPO"], os.environ["MC_BUILD"] = REPO, MB
sys.path.insert(0, V + "/tools"); sys.path.insert(0, V)
import build as B, check as C
known = C.load_known()
def sh(c, **k): return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, errors="replace", **k)
if not os.path.exists(REPO):
    os.makedirs(W, exist_ok=True)
    sh(f"git clone -q /repo {REPO}")
sh(f"git -C {REPO} checkout -q -- . ; git -C {REPO} pull -q --ff-only /repo HEAD")
if not os.path.exists(TB):
    print(sh(f"cmake -S {REPO} -B {TB} -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCMAKE_CXX_FLAGS=-Wno-error -DCMAKE_C_FLAGS=-Wno-error -DCMAKE_POLICY_VERSION_MINIMUM=3.5 -DFETCHCONTENT_FULLY_DISCONNECTED=ON -DFETCHCONTENT_SOURCE_DIR_DOCTEST=/opt/vp/deps/doctest -DFETCHCONTENT_SOURCE_DIR_LIBSQUISH=/opt/vp/deps/libsquish -DZK_BUILD_TESTS=ON -DZK_BUILD_EXAMPLES=OFF && ninja -C {TB}").stdout[-200:])
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
def tests_pass():
    if sh(f"ninja -C {TB}").returncode: return False
    rep = W + "/rep"; shutil.rmtree(rep, ignore_errors=True); os.makedirs(rep)
    sh(f"python3 /opt/vp/run_doctest.py {TB}/test-zenkit {rep}", cwd=REPO + "/tests")
    sh(f"python3 /opt/vp/results.py {W}/r.json lines:{rep}/results.txt")
    return not (STABLE - set(json.load(open(W + "/r.json"))["passed"]))
def run(prop, limit):
    for name, cfg in C.explorers_of(prop):
        r = B.build(cfg, [name])
        if r is None: return "nobuild"
        work = W + "/run"; shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
        env = dict(C.ENV); env["MC_FIRST"] = "|" + "|".join(known.get(prop, {})) + "|"
        ps = []
        for s in range(JOBS):
            os.makedirs(f"{work}/s{s}", exist_ok=True)
            ps.append(subprocess.Popen([r[0], "--tier", "quick", "--shard", f"{s}/{JOBS}", "--out", f"{work}/{s}.json", "--status", f"{work}/{s}.st", "--scratch", f"{work}/s{s}"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env, cwd=work))
        t0 = time.time(); res = None; live = list(enumerate(ps))
        while live and res is None:
            time.sleep(0.05)
            for s, p in list(live):
                rc = p.poll()
                if rc is None: continue
                live.remove((s, p))
                if rc == 0: continue
                if rc == 3:
                    v = [x["sig"] for x in json.load(open(f"{work}/{s}.json"))["violations"] if x["sig"] not in known.get(prop, {})]
                    if v: res = "viol " + v[0]
                else: res = f"crash {rc}"
            if time.time() - t0 > limit: res = res or "timeout"
        for p in ps:
            if p.poll() is None: p.kill()
            p.wait()
        if res and res != "timeout": return res
    return None
SW = {"<": ["<="], "<=": ["<"], ">": [">="], ">=": [">"], "==": ["!="], "!=": ["=="], "&&": ["||"], "||": ["&&"], "+": ["-"], "-": ["+"], "<<": [">>"], ">>": ["<<"], "+=": ["="], "|=": ["="], "|": ["&"], "&": ["|"]}
def mutants(lines):
    out = []
    for i, l in enumerate(lines):
        s = l.strip()
        if not s or s.startswith(("//", "/*", "*", "#", "ZKLOG", "case ", "namespace", "using", "static_assert", "}", "throw")) or "ZKLOG" in s: continue
        code = re.sub(r'"(\\.|[^"\\])*"', lambda m: '"' + "_" * (len(m.group(0)) - 2) + '"', l.split("//")[0])
        for m in re.finditer(r"(?<= )(<=|>=|==|!=|&&|\|\||\+=|\|=|<<|>>|<|>|\+|-|\||&)(?= )", code):
            for n in SW[m.group(1)]: out.append((i, l[:m.start()] + n + l[m.end():]))
        for m in re.finditer(r"(?<![\w.\"'])(0x[0-9A-Fa-f]+|\d+)(?![\w.\"'])[uU]?", code):
            if "template" in code or "std::array" in code: continue
            v = int(m.group(1), 0); out.append((i, l[:m.start()] + str(v + 1) + l[m.end():]))
        for m in re.finditer(r"\b(true|false)\b", code):
            out.append((i, l[:m.start()] + ("false" if m.group(1) == "true" else "true") + l[m.end():]))
        m = re.match(r"^(\s*)(?:\} else )?if \((.*)\)( \{| .*;)?$", l.rstrip())
        if m and "auto " not in m.group(2) and "constexpr" not in l:
            out.append((i, l.replace("if (", "if (!(", 1).rstrip()[::-1].replace(")", "))", 1)[::-1] + "\n" if l.rstrip().endswith(") {") else None))
        if re.match(r"^[\w:.\->\[\]()*& <>]+[\w)\]] ?(=|\+=|\|=|\(|\.|->).*;$", s) and not re.match(r"^(auto|const|static|return|std::\w+<|std::string \w|std::u?int\w* \w|u?int\w* \w+ *[=;]|bool \w+ *[=;]|float \w+ *[=;]|break|using|char|size_t|if|for|while|else|typename|[A-Z]\w+ \w+ *[;={(])", s):
            out.append((i, re.match(r"\s*", l).group(0) + ";\n"))
        m = re.match(r"^(\s*)return (.*);$", l.rstrip())
    return [(i, n) for i, n in out if n and n != lines[i]]
for a in args:
    f, _, n = a.partition(":")
    path = REPO + "/" + f
    src = open(path).read(); lines = src.splitlines(True)
    ms = mutants(lines); tot = len(ms)
    random.Random(seed).shuffle(ms)
    if n: ms = ms[:int(n)]
    props = next(p for k, p in MAP if f.startswith(k)).split()
    props = [p for p in props if p not in os.environ.get("MUT_SKIP", "").split()]
    if os.environ.get("MUT_PROPS"): props = os.environ["MUT_PROPS"].split()
    print(f"## {f}: {len(ms)} of {tot} mutants, {props}", flush=True)
    kill = surv = 0
    for i, new in ms:
        open(path, "w").write("".join(lines[:i] + [new] + lines[i + 1:]))
        res = None
        for p in props:
            res = run(p, 400)
            if res: break
        if res == "nobuild": pass
        elif res: kill += 1; (os.environ.get("MUT_V") and print(f"ok {f}:{i+1} {p} {res} | {new.strip()[:90]}", flush=True))
        elif tests_pass():
            surv += 1; print(f"SURVIVED {f}:{i+1}\n   - {lines[i].strip()}\n   + {new.strip()}", flush=True)
        else: kill += 1
        open(path, "w").write(src)
    print(f"## {f}: killed {kill} survived {surv}", flush=True)

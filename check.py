#!/usr/bin/env python3
"""check.py <property>: decides one property on /repo's current tree.

1. goverif proves the contracts the property rests on (and those they use).
2. the harness runs the real library on a bounded set of inputs; it turns a
   failed obligation into a failing input and watches what the proofs abstract
   (rounding, overflow, scheduling). It never makes the property count as held.
Exit 0: every obligation discharged and no failing input. Exit 1: VIOLATION.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
T0 = time.time()
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
CPUS = len(os.sched_getaffinity(0))

ENV = dict(os.environ, GOTOOLCHAIN="local", GOSUMDB="off", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", CGO_ENABLED="1")
ENV.setdefault("HOME", "/root")
ENV["PATH"] = "/usr/local/bin:/usr/bin:/bin:" + ENV.get("PATH", "")
ENV["GOPATH"] = "/root/go"
ENV["GOMODCACHE"] = "/root/go/pkg/mod"


def die(msg):
    print("ERROR: " + msg)
    sys.exit(2)


def build(src, out, race=False):
    os.makedirs(os.path.join(V, "build"), exist_ok=True)
    tmp = os.path.join(V, "build", ".%s.%d" % (out, os.getpid()))
    cmd = ["go", "build"] + (["-race"] if race else []) + ["-o", tmp, "."]
    r = subprocess.run(cmd, cwd=os.path.join(V, src), env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        die("%s does not build: %s" % (src, r.stdout[-2000:]))
    dst = os.path.join(V, "build", out)
    os.replace(tmp, dst)
    return dst


def source_literals():
    """Numbers in the library's source: sizes and values worth trying."""
    ints, floats = set(), set()
    for d, dirs, files in os.walk(REPO):
        dirs[:] = [x for x in dirs if not x.startswith(".") and x not in ("build", "testdata")]
        for f in files:
            if not f.endswith(".go") or f.endswith("_test.go"):
                continue
            try:
                t = open(os.path.join(d, f), errors="replace").read()
            except OSError:
                continue
            t = re.sub(r"//[^\n]*|/\*.*?\*/|\"(?:\\.|[^\"\\\n])*\"|`[^`]*`", " ", t, flags=re.S)
            numbers(t, ints, floats)
            for c in re.findall(r"\bmath\.(\w+)", t):
                if c in MATH:
                    numbers(MATH[c], ints, floats)
            for a, b in re.findall(r"\b(\d+)\s*<<\s*(\d+)\b", t):
                if int(b) < 40:
                    ints.add(int(a) << int(b))
    return ints, floats


MATH = {"Pi": "3.141592653589793", "E": "2.718281828459045", "Sqrt2": "1.4142135623730951", "Ln2": "0.6931471805599453", "Log2E": "1.4426950408889634",
        "MaxFloat32": "3.4028234663852886e38", "SmallestNonzeroFloat32": "1.401298464324817e-45", "MaxFloat64": "1.7976931348623157e308", "SmallestNonzeroFloat64": "5e-324",
        "MaxInt8": "127", "MaxUint8": "255", "MaxInt16": "32767", "MaxUint16": "65535", "MaxInt32": "2147483647", "MaxUint32": "4294967295"}


def numbers(t, ints, floats):
    for m in re.findall(r"(?<![\w.])(0[xX][0-9a-fA-F_]+|\d[\d_]*\.?\d*(?:[eE][-+]?\d+)?|\.\d+(?:[eE][-+]?\d+)?)(?!\w)", t):
        m = m.replace("_", "")
        try:
            if m[:2] in ("0x", "0X"):
                ints.add(int(m, 16))
                continue
            v = float(m)
        except ValueError:
            continue
        if v == v and abs(v) < 1e309:
            floats.add(v)
            if v == int(v) and abs(v) < 1 << 40:
                ints.add(int(v))


def write_dict(path, extra=""):
    ints, floats = source_literals()
    bi, bf = set(), set()
    try:
        base = json.load(open(os.path.join(V, "tools", "base-literals.json")))
        bi, bf = set(base["ints"]), set(map(float, base["floats"]))
    except (OSError, ValueError):
        pass
    ni, nf = ints - bi, floats - bf
    xi, xf = set(), set()
    numbers(extra, xi, xf)
    xi = {x for x in xi if 4 < x < 1 << 20}
    I = sorted(ints) + sorted(ni) * 12 + sorted(xi) * 4
    F = sorted(floats) + sorted(nf) * 12 + sorted(xf) * 2
    ops = focus(extra)
    json.dump({"ints": I, "floats": [repr(x) for x in F], "ops": ops}, open(path, "w"))


def focus(text):
    """What the failed obligations are about, in the harness's words."""
    ops = set()
    for kind, name in re.findall(r"^(op|comp|loss|activation|constructor) (\w+)", text, flags=re.M):
        if kind in ("loss", "activation"):
            name = {"LeakyRelu": "leaky"}.get(name, name.lower())
        elif kind == "constructor":
            name = "cons"
        elif name in ("Sum", "Max", "Min", "Avg", "Var", "Std", "Mean"):
            name = "q" + name
        ops.add(name)
    if re.search(r"every graph|^graphs of", text, flags=re.M):
        ops.add("large")
    return sorted(ops)


def search(prop, binary, secs, seed, scratch, dictf):
    out = os.path.join(scratch, "report.json")
    if os.path.exists(out):
        os.remove(out)
    workers = max(2, CPUS if prop != "C20" else CPUS // 2)
    cmd = [binary, "-prop", prop, "-seed", str(seed), "-secs", str(secs), "-workers", str(workers), "-dir", scratch, "-dict", dictf, "-out", out]
    try:
        subprocess.run(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=secs + 150, cwd=scratch)
        return json.load(open(out))
    except (subprocess.TimeoutExpired, OSError, ValueError):
        return None


def prove(prop, binary, budget, scratch):
    out = os.path.join(scratch, "proof.json")
    cmd = [binary, "-prop", prop, "-repo", REPO, "-j", str(max(2, CPUS)), "-t", "%ds" % (180 if TIER == "quick" else 600), "-budget", "%ds" % budget, "-json", out] + (["-deep"] if TIER == "thorough" else ["-extra", "60s"])
    try:
        r = subprocess.run(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=budget + 120, cwd=scratch)
    except subprocess.TimeoutExpired:
        return None, "the verifier did not finish"
    if not os.path.exists(out):
        return None, r.stdout[-3000:]
    return json.load(open(out)) or [], ""


def known_findings(prop):
    keys = {}
    for l in open(os.path.join(V, "known-findings.txt")):
        m = re.match(r"finding:\s+property=(\S+)\s+(\S+)\s+::\s*(.*)", l)
        if m and m.group(1) == prop:
            keys[m.group(2)] = m.group(3)
    return keys


def main():
    prop = sys.argv[1]
    info = json.load(open(os.path.join(V, "tools", "props.json")))[prop]
    scratch = tempfile.mkdtemp(prefix="qeepcheck.")
    try:
        code = check(prop, info, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(code)


def check(prop, info, scratch):
    gv = build("goverif", "goverif")
    hn = build("harness", "harness-race" if prop == "C20" else "harness", race=prop == "C20")
    dictf = os.path.join(scratch, "dict.json")
    write_dict(dictf)
    rdir = os.path.join(V, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(prop + "-"):
            os.remove(os.path.join(rdir, f))

    thorough = TIER == "thorough"
    rep = search(prop, hn, 90 if thorough else 14, SEED, scratch, dictf)
    units, perr = prove(prop, gv, 1500 if thorough else 330, scratch)

    # the obligations that decide this property
    failed, obs, done = [], 0, 0
    soft, skipped = [], []
    known_proof = False
    by_obl = {}
    if units is not None:
        for u in units:
            if u.get("gap"):
                continue
            soft += ["%s: %s" % (u["unit"], x) for x in u.get("soft") or []]
            if u.get("skipped"):
                skipped.append(u["unit"])
            known_proof = known_proof or (u.get("known") and prop in ("C01", "C02", "C07"))
            for o in u.get("obs") or []:
                ps = o.get("props") or []
                if not u.get("dep") and ps and prop not in ps:
                    continue
                obs += 1
                by_obl[o["name"]] = by_obl.get(o["name"], 0) + o["count"]
                if o["ok"]:
                    done += 1
                else:
                    failed.append((u["unit"], o))
    else:
        failed.append(("verifier", {"name": "source accepted by the verifier", "why": perr, "pos": ""}))
        obs += 1

    # a failed obligation: look for the input that shows it
    extra_rep = None
    if (failed or soft) and not (rep and rep["failures"]):
        txt = "\n".join(soft[:50]) + "\n" + "\n".join("%s\n%s\n%s" % (u, o["name"], o.get("why", "")) for u, o in failed[:200])
        write_dict(dictf, txt)
        extra_rep = search(prop, hn, 300 if thorough else 75, SEED + 1000, scratch, dictf)
    fails = ((rep or {}).get("failures") or []) + ((extra_rep or {}).get("failures") or [])

    known = known_findings(prop)
    seen = {}
    for r in (rep, extra_rep):
        for k, n in ((r or {}).get("known") or {}).items():
            seen[k] = seen.get(k, 0) + n
    if known_proof:
        seen.setdefault("explicit-broadcast-average", 0)
    violations = []
    for k in sorted(seen):
        if k in known:
            print("KNOWN-FINDING: property=%s %s %s" % (prop, k, known[k]))
        else:
            p = os.path.join(rdir, "%s-%s.json" % (prop, k))
            json.dump({"property": prop, "known_kind": k, "message": "behaviour of kind %s, which is not listed" % k}, open(p, "w"), indent=1)
            violations.append((p, True))
    confirmed = 0
    for i, f in enumerate(fails[:5]):
        p = os.path.join(rdir, "%s-input-%d.json" % (prop, i))
        json.dump({"property": prop, "message": f["message"], "case": f["case"], "seed": f["seed"], "index": f["index"],
                   "replay_cmd": "cd harness && go build -o /tmp/h . && /tmp/h -replay %s" % os.path.relpath(p, V),
                   "failed_obligations": [{"unit": u, "obligation": o["name"], "why": o.get("why", "")[:600]} for u, o in failed[:5]]}, open(p, "w"), indent=1)
        violations.append((p, True))
        confirmed += 1
        print("failing input: %s" % f["message"][:500])
    if failed and not confirmed:
        p = os.path.join(rdir, "%s-obligation.json" % prop)
        json.dump({"property": prop, "obligations": [{"unit": u, "obligation": o["name"], "why": o.get("why", ""), "pos": o.get("pos", "")} for u, o in failed[:50]],
                   "verifier_cmd": "cd goverif && go build -o /tmp/gv . && /tmp/gv -prop %s" % prop}, open(p, "w"), indent=1)
        violations.append((p, False))
    for u, o in failed[:10]:
        print("obligation not discharged: %s: %s: %s" % (u, o["name"], o.get("why", "")[:300]))
    if not failed and rep is None and not fails:
        die("the harness gave no report")

    funcs, insts = set(), set()
    smt = smtms = goals = checks = ms = 0
    gaps = []
    nunits = nspec = 0
    for u in units or []:
        if u.get("gap"):
            gaps.append(u["gap"])
            continue
        nunits += 1
        funcs.update(u.get("funcs") or [])
        insts.update(u.get("insts") or [])
        smt += u["smt"]
        smtms += u["smtms"]
        goals += u["goals"]
        checks += u["checks"]
        ms += u["ms"]
    ev = {
        "property": prop, "tier": TIER, "seed": SEED, "level": info["level"],
        "coverage": {
            "obligations": obs, "discharged": done,
            "checker_cmd": "build/goverif -prop %s -repo /repo" % prop,
            "trusted_base": info["trusted"] + ["contract instance used but proved by no unit: " + g for g in sorted(gaps)],
            "explanation": info["explanation"],
            "units": nunits, "obligation_instances": by_obl,
            "functions_under_contract": sorted(funcs), "contract_instances_used": sorted(insts),
            "back_ends": {"normal-form prover goals": goals, "z3 queries": smt, "z3 seconds": round(smtms / 1000, 2), "verifier cpu seconds": round(ms / 1000, 1)},
            "no_panic_checks": checks,
            "bounded": info.get("bounded", []) + ["not proved on this tree, a bounded check stands in: " + x[:300] for x in soft[:20]],
            "undecided_for_lack_of_time": skipped,
            "evaluations": sum((r or {}).get("evaluations", 0) for r in (rep, extra_rep)),
            "distinct_nontrivial": sum((r or {}).get("distinct_nontrivial", 0) for r in (rep, extra_rep)),
            "rule": (rep or {}).get("rule", ""),
            "samples": ((rep or {}).get("samples") or [])[:3],
            "bounded_search_operations": (rep or {}).get("ops", {}),
        },
        "assumptions": info["assumptions"],
        "wall_s": round(time.time() - T0, 2),
        "violations": len(violations),
    }
    path = os.path.join(V, "evidence", prop + ".json")
    json.dump(ev, open(path + ".tmp", "w"), indent=1)
    os.replace(path + ".tmp", path)
    print("%s: %d/%d obligations discharged over %d units, %d functions; %d bounded cases; %.0f s" % (
        prop, done, obs, nunits, len(funcs), ev["coverage"]["evaluations"], time.time() - T0))
    for p, inp in violations:
        print("VIOLATION property=%s replay=%s%s" % (prop, os.path.relpath(p, V), "" if inp else " no-failing-input-found"))
    return 1 if violations else 0


main()

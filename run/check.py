#!/usr/bin/env python3
"""Decide one property: discharge every obligation of its contracts on /repo's current source.

usage: check.py <PROPERTY-ID> [quick|thorough]

exit 0  every obligation discharged (or only listed known findings fail)
exit 1  + "VIOLATION property=<id> replay=<path>[ no-failing-input-found]"
exit 2  undecided: the code could not be compiled by the verifier, a modelled limit or an
        unwinding bound was hit, a solver ran out of time, or a reachability guard failed
"""
import glob, json, os, re, resource, shutil, subprocess, sys, time

T0 = time.time()
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
MODELS = ["tracing", "tracing-attributes", "anyhow", "sha2", "aes", "ctr", "everscale-crypto", "dashmap",
          "parking_lot", "ahash", "rand", "crossbeam-queue", "tokio", "tokio-util", "zstd", "everscale-raptorq"]
SPEC_NAMES = open(os.path.join(VERIF, "run", "spec_names.txt")).read().split()
BUDGET = float(os.environ.get("VERIF_BUDGET", "860"))
# Heap objects are byte arrays for CBMC; keeping them apart byte by byte lets pointers and keys stored in them propagate.
CBMC = ["--cbmc-args", "--max-field-sensitivity-array-size", os.environ.get("VERIF_FIELDS", "1024")]
KANI = ["cargo", "kani", "-Z", "function-contracts", "-Z", "stubbing", "-Z", "unstable-options",
        "--no-assertion-reach-checks"]


def die(msg, code=2):
    print("UNDECIDED:", msg)
    sys.exit(code)


class Harness:
    def __init__(self, spec, name, opts, desc):
        self.spec, self.name, self.desc = spec, name, desc
        self.kind = opts.get("kind", "proof")
        self.bound = opts.get("bound", "")
        self.unwind = opts.get("unwind")
        self.contract = opts.get("contract")
        self.functions = [f for f in opts.get("fns", "").split(",") if f]
        self.tier = opts.get("tier", "quick")
        self.solver = opts.get("solver")
        self.stubs = [s for s in opts.get("stub", "").split(",") if s]
        # callee replaced by its contract, written as a function of the specification
        self.given = [g.split(">") for g in opts.get("given", "").split(",") if g]
        self.id = spec + "__" + name
        self.drops = opts.get("counts") == "real"

    def wrapper(self):
        out = []
        if self.contract:
            out.append("#[kani::proof_for_contract(everscale_network::%s)]" % self.contract)
        else:
            out.append("#[kani::proof]")
        if self.unwind:
            out.append("#[kani::unwind(%s)]" % self.unwind)
        if self.solver:
            out.append("#[kani::solver(%s)]" % self.solver)
        if not self.drops:
            for op in ("fetch_add", "fetch_sub"):
                out.append("#[kani::stub(std::sync::atomic::Atomic::<usize>::%s, shared)]" % op)
        for orig, repl in self.given:
            orig = orig.replace(".", "::") if orig.startswith("std.") else "everscale_network::" + orig
            out.append("#[kani::stub(%s, everscale_network::verif::%s)]" % (orig, repl.replace(".", "::") if "." in repl else self.spec + "::" + repl))
        for s in self.stubs:
            out.append("#[kani::stub_verified(everscale_network::%s)]" % s)
        out.append("fn %s() { everscale_network::verif::%s::%s() }" % (self.id, self.spec, self.name))
        return " ".join(out)


ANN = re.compile(r'(\w+)=("([^"]*)"|\S+)')


def parse_spec(path, spec):
    """Harness annotations: `//@ harness k=v ... : description` on the lines before `pub fn name()`."""
    hs, pend = [], None
    for line in open(path):
        s = line.strip()
        if s.startswith("//@ harness"):
            body = s[len("//@ harness"):]
            head, _, desc = body.partition(" : ")
            opts = {m.group(1): (m.group(3) if m.group(3) is not None else m.group(2)) for m in ANN.finditer(head)}
            pend = (opts, desc.strip())
        elif s.startswith("//@ +") and pend:
            pend = (pend[0], pend[1] + " " + s[5:].strip())
        elif pend:
            m = re.match(r"pub fn (\w+)\(\)", s)
            if m:
                hs.append(Harness(spec, m.group(1), *pend))
                pend = None
            elif s.startswith("gen!(") or s.startswith("gen_"):
                m = re.search(r"\(\s*(\w+)", s)
                hs.append(Harness(spec, m.group(1), *pend))
                pend = None
    return hs


def prepare(prop, tier):
    b = os.path.join(VERIF, "build", prop)
    shutil.rmtree(b, ignore_errors=True)
    os.makedirs(b + "/crate/src")
    os.makedirs(b + "/specs")
    os.makedirs(b + "/replay")
    sdir = os.path.join(VERIF, "specs", prop)
    hs = []
    for n in SPEC_NAMES:
        text, src = "", os.path.join(sdir, n + ".rs")
        common = os.path.join(VERIF, "specs", "common", n + ".rs")
        own = open(src).read() if os.path.exists(src) else ""
        for m in re.finditer(r"^//@ fields=(\d+)", own, re.M):  # arrays up to this size are kept element by element
            CBMC[2] = str(max(int(CBMC[2]), int(m.group(1))))
        if own:
            text = "use super::*;\n"
            if "//@ common" in own:
                text += open(common).read()
            text += own
            hs += parse_spec(src, n)
        open("%s/specs/%s.rs" % (b, n), "w").write(text)
    shutil.copy(os.path.join(VERIF, "specs", "env.rs"), b + "/specs/env.rs")
    hs = [h for h in hs if tier == "thorough" or h.tier == "quick"]
    if not hs:
        die("no harness for " + prop)
    with open(b + "/crate/Cargo.toml", "w") as f:
        f.write('[package]\nname = "proofs"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n[dependencies]\n'
                'everscale-network = { path = "%s" }\n[patch.crates-io]\n' % REPO)
        for m in MODELS:
            f.write('%s = { path = "%s/models/%s" }\n' % (m, VERIF, m))
    lock = REPO + "/Cargo.lock"
    if not os.path.exists(lock):
        lock = VERIF + "/run/Cargo.lock"
    shutil.copy(lock, b + "/crate/Cargo.lock")
    with open(b + "/crate/src/lib.rs", "w") as f:
        f.write("#![allow(unexpected_cfgs)]\n#[cfg(kani)]\nmod proofs {\n"
                "    // Shared objects live as long as the harness: reference counts are not tracked.\n"
                "    #[allow(dead_code)] fn shared(_a: &std::sync::atomic::AtomicUsize, _n: usize, "
                "_o: std::sync::atomic::Ordering) -> usize { 2 }\n")
        for h in hs:
            f.write("    " + h.wrapper() + "\n")
        f.write("//PLAYBACK\n}\n")
    return b, hs


def env(b):
    e = dict(os.environ)
    e["EVERSCALE_VERIF_SPECS"] = b + "/specs"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e.setdefault("CARGO_HOME", os.path.expanduser("~/.cargo"))
    return e


def left():
    return BUDGET - (time.time() - T0)


MEM = int(os.environ.get("VERIF_MEM_GB", "12")) << 30


def limit_memory():
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))


def run(cmd, b, log, timeout):
    with open(log, "w") as f:
        p = subprocess.Popen(cmd, cwd=b + "/crate", env=env(b), stdout=f, stderr=subprocess.STDOUT,
                             start_new_session=True, preexec_fn=limit_memory)
        try:
            return p.wait(timeout=max(1, timeout))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            p.wait()
            return "timeout"


UNDECIDABLE = ("unwinding assertion", "MODEL-LIMIT", "is not currently supported by Kani", "recursion unwinding",
               "reached unsupported", "unsupported")


def triage(check):
    d = check["description"]
    if any(u in d for u in UNDECIDABLE):
        return "limit"
    if check["category"] in ("unwind", "unsupported_construct", "recursion"):
        return "limit"
    return "violation"


def where(check):
    l = check.get("location") or {}
    return "%s:%s" % (l.get("file", "?"), l.get("line", "?"))


def replay(prop, b, h, bad):
    """Extract Kani's counterexample and execute it natively against /repo's code."""
    path = "%s/replay/%s.txt" % (b, h.id)
    confirmed, test, native = False, "", ""
    log = "%s/replay/%s.kani.log" % (b, h.id)
    if left() > 30:
        run(KANI + ["-Z", "concrete-playback", "--concrete-playback=print", "--exact", "--harness", "proofs::" + h.id,
                    "--harness-timeout", "%ds" % max(10, left() - 60)] + CBMC, b, log, left() - 45)
        out = open(log).read()
        tests = []
        for blk in re.findall(r"```\n(.*?)```", out, re.S):
            if re.search(r"/// Check for `cover`", blk):
                continue
            if "#[test]" in blk:
                tests.append(blk)
        if tests:
            seen, uniq = set(), []
            for t in tests:
                n = re.search(r"fn (kani_concrete_playback_\w+)", t).group(1)
                if n not in seen:
                    seen.add(n)
                    uniq.append(t)
            test = "\n".join(uniq)
            lib = b + "/crate/src/lib.rs"
            orig = open(lib).read()
            open(lib, "w").write(orig.replace("//PLAYBACK", test))
            plog = "%s/replay/%s.native.log" % (b, h.id)
            rc = run(["cargo", "kani", "playback", "-Z", "concrete-playback", "-Z", "function-contracts", "--",
                      "kani_concrete", "--test-threads=1"], b, plog, left() - 10)
            open(lib, "w").write(orig)
            native = open(plog).read()
            if "test result: FAILED" in native or "panicked at" in native:
                pan = re.findall(r"panicked at ([^\n]*)\n([^\n]*)", native)
                real = [p for p in pan if "det vals" not in p[1] and "kani::assume" not in p[1]
                        and "MODEL-LIMIT" not in p[1] and "concrete_playback" not in p[0]]
                confirmed = bool(real)
    with open(path, "w") as f:
        f.write("property %s\nharness %s (%s)\n%s\n\nfailed obligations:\n" % (prop, h.id, h.spec, h.desc))
        for c in bad:
            f.write("  %s  [%s] %s  in %s\n" % (c["description"], c["category"], where(c), c["function"]))
        f.write("\nspecification: specs/%s/%s.rs\n" % (prop, h.spec))
        f.write("\ncounterexample (%s):\n%s\n" % ("replayed natively against /repo, failed there"
                                                 if confirmed else "not confirmed by replay", test or "none"))
        f.write("\nnative execution:\n%s\n" % (native[-6000:] if native else "none"))
        if os.path.exists(log):
            f.write("\nverifier output (tail):\n%s\n" % open(log).read()[-6000:])
    return path, confirmed


def known_findings(prop):
    """known-findings.txt lines: `finding: property=ID harness=H match=<regex> :: <what fails>`"""
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) harness=(\S+) match=(.*?) :: (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3), m.group(4)))
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    b, hs = prepare(prop, tier)
    only = os.environ.get("VERIF_ONLY")
    sel = []
    if only:
        hs = [h for h in hs if re.search(only, h.id)]
        for h in hs:
            sel += ["--harness", "proofs::" + h.id]
        sel.append("--exact")
    jobs = os.environ.get("VERIF_JOBS", "8")
    log = b + "/kani.log"
    cmd = KANI + sel + ["-j", jobs, "--output-format=terse", "--export-json", b + "/out.json", "--harness-timeout",
                        os.environ.get("VERIF_HTIMEOUT", "500s")] + CBMC
    rc = run(cmd, b, log, left() - 20)
    text = open(log).read()
    if rc == "timeout":
        die("verifier ran out of time; log " + log)
    if not os.path.exists(b + "/out.json"):
        errs = re.findall(r"^error.*(?:\n.*){0,4}", text, re.M)
        print("\n".join(errs[:5]))
        die("the verifier could not process the source; log " + log)
    d = json.load(open(b + "/out.json"))
    res = {r["harness_id"]: r for r in d["verification_results"]["results"]}
    stats = {c["harness_id"]: c.get("cbmc_stats") or {} for c in (d.get("cbmc") or [])}
    known = known_findings(prop)
    undecided, violations, findings, rows = [], [], [], []
    for h in hs:
        r = res.get("proofs::" + h.id)
        if r is None:
            undecided.append("%s: no result (time or memory limit)" % h.id)
            continue
        checks = r.get("checks") or []
        covers = [c for c in checks if c["category"] == "cover"]
        obl = [c for c in checks if c["category"] != "cover" and c["status"] != "Unreachable"]
        bad = [c for c in obl if c["status"] == "Failure"]
        unk = [c for c in obl if c["status"] not in ("Failure", "Success")]
        limit = [c for c in bad if triage(c) == "limit"]
        viol = [c for c in bad if triage(c) == "violation"]
        row = dict(harness=h.id, kind=h.kind, bound=h.bound, functions=h.functions, desc=h.desc, contract=h.contract,
                   obligations=len(obl), clauses=len([c for c in obl if "/build/%s/specs/" % prop in
                                                      str((c.get("location") or {}).get("file"))
                                                      or h.contract and "|result" in c["description"]]),
                   discharged=len([c for c in obl if c["status"] == "Success"]), covers=len(covers),
                   covers_reached=len([c for c in covers if c["status"] == "Satisfied"]),
                   time_s=r.get("duration_ms", 0) / 1000.0,
                   solver_s=stats.get("proofs::" + h.id, {}).get("runtime_decision_procedure_s") or 0)
        rows.append(row)
        ok = r["status"] == "Success"
        if viol:
            rest = []
            for c in viol:
                hit = [k for k in known if k[0] == h.id and re.search(k[1], c["description"])]
                (findings.append((h, c, hit[0])) if hit else rest.append(c))
            if rest:
                violations.append((h, rest, limit))
            elif limit or unk:
                undecided.append("%s: %s" % (h.id, "; ".join(c["description"] for c in (limit + unk)[:3])))
        elif limit or unk:
            undecided.append("%s: %s" % (h.id, "; ".join("%s (%s)" % (c["description"], where(c))
                                                        for c in (limit + unk)[:3])))
        elif not ok:
            undecided.append("%s: verifier gave no verdict (time limit or internal error)" % h.id)
        if not viol and not limit and ok:
            if not covers:
                undecided.append("%s: no reachability guard" % h.id)
            miss = [c["description"] for c in covers if c["status"] != "Satisfied"]
            if miss:
                undecided.append("%s: reachability guard not met: %s" % (h.id, "; ".join(miss)))
        print("%-10s %-70s %4d/%-4d obligations, %d/%d guards, %.1fs  [%s]" % (
            "FAILED" if viol else "UNDECIDED" if (limit or unk or not ok) else "ok", h.id, row["discharged"],
            row["obligations"], row["covers_reached"], row["covers"], row["time_s"], h.kind))
    seen = set()
    for h, c, k in findings:
        if k not in seen:
            seen.add(k)
            print("KNOWN-FINDING: property=%s %s" % (prop, k[2]))
    reported = 0
    for h, bad, limit in violations:
        path, confirmed = replay(prop, b, h, bad)
        if not confirmed and limit:
            undecided.append("%s: failure not confirmed and a modelled limit was hit: %s" % (h.id, limit[0]["description"]))
            continue
        reported += 1
        for c in bad[:6]:
            print("  failed obligation: %s at %s" % (c["description"], where(c)))
        print("VIOLATION property=%s replay=%s%s" % (prop, path, "" if confirmed else " no-failing-input-found"))
    proof = [r for r in rows if r["kind"] == "proof"]
    bounded = [r for r in rows if r["kind"] != "proof"]
    meta = json.load(open(os.path.join(VERIF, "run", "levels.json"))).get(prop, {})
    level = meta.get("level", "other")
    S = lambda rs, k: sum(r[k] for r in rs)
    fns = sorted({f for r in rows for f in r["functions"]})
    cov = dict(obligations=S(proof, "obligations"), discharged=S(proof, "discharged"),
               contract_clauses=S(proof, "clauses"), harnesses=len(proof),
               functions_under_contract=sorted({f for r in proof for f in r["functions"]}),
               bounded=dict(note="bounded stand-ins, not counted as proved", harnesses=len(bounded),
                            obligations=S(bounded, "obligations"), discharged=S(bounded, "discharged"),
                            functions=sorted({f for r in bounded for f in r["functions"]}),
                            bounds={r["harness"]: r["bound"] for r in bounded}),
               reachability_guards=S(rows, "covers"), reachability_guards_met=S(rows, "covers_reached"),
               solver_s=round(S(rows, "solver_s"), 2), verifier_s=round(S(rows, "time_s"), 2),
               back_end="Kani 0.68.0 / CBMC 6.11.0 / CaDiCaL", checker_cmd=" ".join(cmd),
               samples=[{k: r[k] for k in ("harness", "kind", "bound", "desc", "obligations", "time_s")} for r in rows],
               trusted_base=trusted(), explanation="Every obligation Kani generates from /repo's current source for the "
               "listed harnesses (assertions written from the property, plus panic, overflow, bounds and memory-safety "
               "checks in the real code they execute) is discharged by CBMC for all inputs of the harness; bounded "
               "harnesses cover the stated bound only.")
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
                   assumptions=assumptions(prop, hs), wall_s=round(time.time() - T0, 1), violations=reported),
              open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    print("%s: %d harnesses, %d proof obligations, %d bounded obligations, %.0fs" % (
        prop, len(rows), cov["obligations"], cov["bounded"]["obligations"], time.time() - T0))
    if not os.environ.get("VERIF_KEEP"):
        shutil.rmtree(b + "/crate/target", ignore_errors=True)
    if reported:
        sys.exit(1)
    if undecided:
        for u in undecided:
            print("UNDECIDED:", u)
        sys.exit(2)
    sys.exit(0)


def trusted():
    return ["Kani 0.68.0, CBMC 6.11.0, CaDiCaL, rustc (MIR semantics, fixed struct layout)",
            "contracts assumed at the boundary: " + ", ".join("models/" + m for m in MODELS),
            "specs/env.rs: clock, socket and std hash tables",
            "verified unmodified: every other dependency (tl-proto, smallvec, bytes, generic-array, frunk, std) is "
            "compiled from its real source",
            "objects shared through Arc outlive the harness (reference counts are not tracked)",
            "single-threaded sequential semantics; termination is not proved"]


def assumptions(prop, hs):
    """Mechanical scan for every assumption written in this property's specifications."""
    out = []
    for p in sorted(glob.glob(os.path.join(VERIF, "specs", prop, "*.rs"))):
        for i, line in enumerate(open(p), 1):
            if "kani::assume(" in line or "spec_set" in line or "set_now(" in line:
                out.append("specs/%s/%s:%d: %s" % (prop, os.path.basename(p), i, line.strip()[:160]))
    return out[:200] + ["cryptographic primitives are uninterpreted functions: no claim about their strength",
                        "concurrency is out of reach: each call runs alone"]


main()

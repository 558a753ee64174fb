#!/usr/bin/env python3
"""Runs the check of one property against /repo's working tree.

usage: check.py ID [--tier quick|thorough]

Builds the harnesses from /repo, runs them under the given tier and seed, decides on the recorded
observations, writes evidence/<ID>.json, and exits with 0 (held on everything explored), 1 (violation)
or 2 (inconclusive: nothing is claimed).
"""
import concurrent.futures
import glob
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from checks import CHECKS  # noqa: E402

OURS = "github.com/ftl/sdrainer/"


def go_env():
    env = dict(os.environ)
    goroot = "/opt/veriftools/go1.23.12"
    env.update(HOME="/root", GOROOT=goroot, GOTOOLCHAIN="local", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod",
               GOPROXY="off", GOFLAGS="-mod=readonly", GOWORK="off", GOSUMDB="off")
    env.setdefault("GOCACHE", "/root/.cache/go-build")
    env["PATH"] = goroot + "/bin:" + env.get("PATH", "")
    return env


def build(harness, race, outdir):
    binary = os.path.join(outdir, harness + ("-race" if race else ""))
    pkg = "./cmd/" + harness if harness != "sdrainer" else "github.com/ftl/sdrainer"
    cmd = ["go", "build", "-o", binary] + (["-race"] if race else []) + [pkg]
    p = subprocess.run(cmd, cwd=os.path.join(HERE, "harness"), env=go_env(), capture_output=True, text=True)
    if p.returncode != 0:
        print(p.stdout + p.stderr)
        print(f"cannot build {harness}")
        sys.exit(2)
    return binary


def frames(block):
    """Function names of one stack, innermost first."""
    return [m.group(1) for m in re.finditer(r"^ {2}(\S+)\(\)$", block, re.M)]


def owner(stack):
    for f in stack:
        first = f.split("/")[0]
        if f.startswith(OURS) or "." in first and "/" in f:
            return f
        if f.startswith("verif/") or f.startswith("main."):
            return f
    return ""


def parse_races(files):
    result = {}
    total = 0
    for name in files:
        text = open(name, errors="replace").read()
        for block in text.split("WARNING: DATA RACE")[1:]:
            block = block.split("==================")[0]
            total += 1
            parts = re.split(r"\n\s*\n", block)
            accesses = [p for p in parts if re.search(r"(Read|Write|read|write|Previous|Atomic|atomic).* at 0x", p)]
            owners = [owner(frames(a)) for a in accesses[:2]]
            if any(o.startswith(OURS) for o in owners):
                key = " / ".join(sorted(owners))
                result.setdefault(key, block.strip()[:6000])
    return result, total


def read_known(prop):
    known = []
    try:
        for line in open(os.path.join(HERE, "known_findings.txt")):
            m = re.match(r"known: property=(\S+) match=(.+?) :: (.*)$", line.strip())
            if m and m.group(1) == prop:
                known.append((re.compile(m.group(2)), m.group(3)))
    except FileNotFoundError:
        pass
    return known


def run_stage(prop, cfg, harness, race, tier, seed, work):
    """Runs all parts of a stage: processes that share the cases."""
    binary = build(harness, race, work)
    extra = {"VERIF_BIN_" + e.upper(): build(e, race, work) for e in cfg["binaries"]}
    parts = cfg["parts"]
    with concurrent.futures.ThreadPoolExecutor(parts) as pool:
        results = list(pool.map(lambda i: run_part(cfg, prop, harness, race, tier, seed, binary, extra,
                                                   os.path.join(work, f"{harness}-{race}-{i}"), f"{i}/{parts}"), range(parts)))
    if parts == 1:
        return results[0]
    merged = dict(done=dict(evaluations=0, distinct=0, samples=[], counters={}, rule=""), violations=[], inconclusive=[],
                  races=0, foreign_races=0, text="")
    for res in results:
        d = res["done"]
        for key in ("evaluations", "distinct"):
            merged["done"][key] += d.get(key, 0)
        merged["done"]["samples"] = (merged["done"]["samples"] + (d.get("samples") or []))[:6]
        merged["done"]["rule"] = d.get("rule") or merged["done"]["rule"]
        for key, n in (d.get("counters") or {}).items():
            merged["done"]["counters"][key] = merged["done"]["counters"].get(key, 0) + n
        for key in ("violations", "inconclusive", "races", "foreign_races", "text"):
            merged[key] += res[key]
    return merged


def run_part(cfg, prop, harness, race, tier, seed, binary, extra, work, part):
    os.makedirs(work)
    out = os.path.join(work, "out.jsonl")
    current = os.path.join(work, "current")
    racelog = os.path.join(work, "race")
    env = go_env()
    env.update(VERIF_OUT=out, VERIF_CURRENT=current, VERIF_SEED=str(seed), VERIF_TIER=tier, VERIF_WORK=work,
               VERIF_STAGE="race" if race else "plain",
               GORACE=f"halt_on_error=0 exitcode=0 log_path={racelog} history_size=4", GOTRACEBACK="all")
    env.update(extra, VERIF_PART=part)
    timeout = cfg["timeout"] if tier == "quick" else 6 * cfg["timeout"]
    errname = os.path.join(work, "err")
    with open(errname, "wb") as err:
        p = subprocess.Popen([binary, prop], stdout=err, stderr=err, env=env, cwd=work, start_new_session=True)
        timed_out = False
        try:
            p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            timed_out = True
            try:
                p.send_signal(signal.SIGQUIT)
                p.wait(timeout=20)
            except subprocess.TimeoutExpired:
                pass
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
    with open(errname, "rb") as err:
        data = err.read()
    text = data[:400000].decode(errors="replace")
    if len(data) > 400000:
        text += "\n...\n" + data[-400000:].decode(errors="replace")
    done, violations, inconclusive = None, [], []
    if os.path.exists(out):
        for line in open(out, errors="replace"):
            try:
                rec = json.loads(line)
            except ValueError:
                continue
            if rec["t"] == "done":
                done = rec
            elif rec["t"] == "violation":
                violations.append(rec)
            elif rec["t"] == "inconclusive":
                inconclusive.append(rec)
    case = open(current).read() if os.path.exists(current) else ""
    if done is None or (p.returncode != 0 and not timed_out):
        m = re.search(r"^(panic: .*|fatal error: .*|unexpected fault address.*)$", text, re.M)
        goroutines = text[m.start():].split("\n\n") if m else text.split("\n\n")
        if timed_out:
            m2 = re.search(r"SIGQUIT: quit", text)
            goroutines = text[m2.start():].split("\n\n") if m2 else []
            stuck = [g for g in goroutines if OURS in g]
            if stuck:
                violations.append(dict(case=case, msg="the run does not end: sdrainer blocks or loops", detail="\n\n".join(stuck)[:8000]))
            else:
                inconclusive.append(dict(case=case, msg="timeout without a goroutine in sdrainer"))
        elif m:
            first = "\n\n".join(goroutines[:2])
            if OURS in first or ("deadlock" in m.group(1) and OURS in text) or "concurrent map" in m.group(1):
                violations.append(dict(case=case, msg="the process crashed: " + m.group(1), detail="\n\n".join(goroutines[:4])[:8000]))
            else:
                inconclusive.append(dict(case=case, msg="the harness crashed: " + first[:3000]))
        else:
            inconclusive.append(dict(case=case, msg=f"no result, exit status {p.returncode}: {text[-2000:]}"))
    races, total_races = parse_races(glob.glob(racelog + ".*"))
    for key, block in races.items():
        violations.append(dict(case=case, msg="data race: " + key, detail=block))
    return dict(done=done or {}, violations=violations, inconclusive=inconclusive, races=len(races),
                foreign_races=total_races - len(races), text=text)


def main():
    args = sys.argv[1:]
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    cfg = CHECKS[prop]
    start = time.time()
    evdir = os.path.join(HERE, "evidence")
    os.makedirs(evdir, exist_ok=True)
    work = tempfile.mkdtemp(prefix=f"verif-{prop}-")
    try:
        coverage = dict(evaluations=0, distinct_nontrivial=0, rule="", samples=[])
        observed, violations, inconclusive, rules = {}, [], [], []
        known = read_known(prop)
        for harness, race in cfg["stages"]:
            if any(not any(exp.search(v["msg"]) for exp, _ in known) for v in violations):
                break  # the check has failed, further stages do not change this
            res = run_stage(prop, cfg, harness, race, tier, seed, work)
            d = res["done"]
            coverage["evaluations"] += d.get("evaluations", 0)
            coverage["distinct_nontrivial"] += d.get("distinct", 0)
            coverage["samples"] += d.get("samples") or []
            if d.get("rule") and d["rule"] not in rules:
                rules.append(d["rule"])
            stage = "race detector build" if race else "plain build"
            observed[f"{harness} ({stage})"] = d.get("counters", {})
            if race:
                observed[f"{harness} ({stage})"]["data race reports in sdrainer"] = res["races"]
                observed[f"{harness} ({stage})"]["data race reports in other code"] = res["foreign_races"]
            violations += [dict(v, harness=harness, race=race) for v in res["violations"]]
            inconclusive += res["inconclusive"]
            if os.environ.get("VERIF_SHOW"):
                print(res["text"][-int(os.environ["VERIF_SHOW"]):])
        coverage["rule"] = "; ".join(rules) or "no cases"
        coverage["observed"] = observed
        if not coverage["samples"]:
            coverage["samples"] = ["none"]
        new = []
        reported = set()
        for v in violations:
            for exp, text in known:
                if exp.search(v["msg"]):
                    reported.add(text)
                    break
            else:
                new.append(v)
        coverage["inconclusive_cases"] = len(inconclusive)
        evidence = dict(property=prop, tier=tier, seed=seed, level=cfg["level"], coverage=coverage,
                        assumptions=cfg["assumptions"], wall_s=round(time.time() - start, 2), violations=len(new))
        with open(os.path.join(evdir, prop + ".json"), "w") as f:
            json.dump(evidence, f, indent=1)
            f.write("\n")
        for text in sorted(reported):
            print(f"KNOWN-FINDING: property={prop} {text}")
        if new:
            replay = os.path.join(evdir, prop + ".replay.json")
            with open(replay, "w") as f:
                json.dump(dict(property=prop, seed=seed, tier=tier,
                               replay=f"cd {HERE} && VERIF_SEED={seed} VERIF_CASE={new[0].get('case', '')} python3 check.py {prop} --tier {tier}",
                               violations=new[:30]), f, indent=1)
                f.write("\n")
            for v in new[:5]:
                print(f"{prop} [{v.get('case')}]: {v['msg'][:1000]}")
            print(f"VIOLATION property={prop} replay={replay}")
            sys.exit(1)
        if not coverage["evaluations"] or not coverage["distinct_nontrivial"]:
            inconclusive.append(dict(case="", msg="nothing was observed"))
        if inconclusive:
            for i in inconclusive[:5]:
                print(f"INCONCLUSIVE {prop} [{i.get('case')}]: {i['msg'][:2000]}")
            sys.exit(2)
        print(f"{prop}: held on {coverage['evaluations']} evaluations, {coverage['distinct_nontrivial']} distinct, {evidence['wall_s']} s")
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    main()

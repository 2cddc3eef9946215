#!/usr/bin/env python3
"""check.py ID [--replay FILE] [--tier quick|thorough]

Builds the harness of property ID against /repo's working tree, runs it in a
few processes and writes evidence/ID.json.  Exit 0: held on everything
explored.  Exit 1: a line "VIOLATION property=ID replay=PATH".  Exit 2: the
check itself could not give an answer."""
import json, os, re, shutil, signal, struct, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"

# property: package, flags.  shards: processes per tier.
PROPS = {
    "C01": dict(pkg="conv", shards=6, scale=250),
    "C02": dict(pkg="conv", shards=6, scale=250),
    "C03": dict(pkg="conv", shards=6, scale=150, cbind=True),
    "C04": dict(pkg="conv", shards=6, scale=400),
    "C05": dict(pkg="conv", shards=6, scale=150, cbind=True),
    "C06": dict(pkg="conv", shards=6, race=True),
    "C07": dict(pkg="conv", shards=4, scale=400, cbind=True),
    "C08": dict(pkg="netp", shards=2),
    "C09": dict(pkg="netp", shards=2, race=True),
    "C10": dict(pkg="netp", shards=2, scale=150),
    "C11": dict(pkg="netp", shards=2, race=True),
    "C12": dict(pkg="netp", shards=2, scale=150),
    "C13": dict(pkg="topo", shards=6, scale=200),
    "C14": dict(pkg="topo", shards=6, scale=200),
    "C15": dict(pkg="topo", shards=6, scale=150),
    "C16": dict(pkg="gfx", shards=8),
    "C17": dict(pkg="gfx", shards=8),
    "C18": dict(pkg="gfx", shards=8, scale=150),
    "C19": dict(pkg="gorw", shards=2, scale=150, race=True),
    "C20": dict(pkg="gfx", shards=8),
}
RULES = json.load(open(os.path.join(HERE, "rules.json")))
LIMIT = {"quick": 600, "thorough": 4 * 3600}
MEMORY = 5 << 30  # resident bytes of one shard; they need well below 1 GB


def resident(pid):
    try:
        return int(open("/proc/%d/statm" % pid).read().split()[1]) * 4096
    except (OSError, ValueError, IndexError):
        return 0


def env():
    e = dict(os.environ)
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", CGO_ENABLED="1",
             GOFLAGS="-mod=mod -buildvcs=false", LOG="fatal")
    e.setdefault("HOME", "/root")
    e.setdefault("GOMODCACHE", "/root/go/pkg/mod")
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    for k in list(e):
        if k.startswith("VERIF_") and k not in ("VERIF_SEED", "VERIF_TIER", "VERIF_ONLY", "VERIF_SCALE"):
            del e[k]
    return e


def fail(msg):
    print("ERROR: " + msg, flush=True)
    sys.exit(2)


def build(prop, tmp, e):
    p = PROPS[prop]
    for f in ("go.mod", "go.sum"):
        shutil.copy(os.path.join(HERE, "harness", f), os.path.join(tmp, f))
    exe = os.path.join(tmp, "check.test")
    cmd = ["go", "test", "-c", "-modfile=" + tmp + "/go.mod", "-o", exe]
    if p.get("race"):
        cmd.append("-race")
    jobs = [(cmd + ["./" + p["pkg"]], os.path.join(HERE, "harness"))]
    cbin = None
    if p.get("cbind"):
        cdir = os.path.join(tmp, "c")
        os.mkdir(cdir)
        src = REPO + "/rawpanel-lib-c"
        mod = open(src + "/go.mod").read()
        mod = re.sub(r"=>\s*\.\./?\s*$", "=> " + REPO, mod, flags=re.M)
        open(cdir + "/go.mod", "w").write(mod)
        shutil.copy(src + "/go.sum", cdir + "/go.sum")
        json.dump({"Replace": {src + "/zz_verif_server_test.go":
                               os.path.join(HERE, "harness/cbind/zz_verif_server_test.go")}},
                  open(cdir + "/ov.json", "w"))
        cbin = os.path.join(tmp, "cbin")
        jobs.append((["go", "test", "-c", "-modfile=" + cdir + "/go.mod", "-overlay", cdir + "/ov.json",
                      "-o", cbin, "."], src))
    for c, cwd in jobs:
        r = subprocess.run(c, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            print(r.stdout[-4000:])
            fail("the harness does not build")
    return exe, cbin


def crash_in_repo(log):
    """The goroutine that crashed (or one side of a data race) runs library code."""
    if "WARNING: DATA RACE" in log:
        blk = log[log.index("WARNING: DATA RACE"):]
        blk = blk[:blk.find("==================")] if "==================" in blk else blk
        return (REPO + "/") in blk
    m = re.search(r"^(panic: |fatal error: )", log, re.M)
    if not m or "test timed out" in log[m.start():m.start() + 60]:
        return False
    rest = log[m.start():]
    if re.match(r"fatal error: .*(out of memory|cannot allocate|thread|pthread)", rest):
        return False
    g = re.search(r"^goroutine \d+ .*?:\n(.*?)(?:\n\n|\Z)", rest, re.M | re.S)
    return bool(g) and (REPO + "/") in g.group(1)


def known_findings(prop):
    known = []
    kf = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(kf):
        for l in open(kf):
            m = re.match(r"known: property=(\S+) check=(\S+) match=/(.*?)/ (.*)", l.strip())
            if m and m.group(1) == prop:
                known.append(m.groups())
    return known


def is_known(v, known):
    for k in known:
        if v["sub"] == k[1] and re.search(k[2], v["msg"]):
            return k
    return None


def failed(out, i, known):
    """whether shard i, which has ended, found a violation"""
    try:
        data = json.load(open(os.path.join(out, "shard-%d.json" % i)))
        return any(not is_known(v, known) for v in data["violations"] or [])
    except (OSError, ValueError):
        return crash_in_repo(open(os.path.join(out, "log-%d" % i), errors="replace").read())


def main():
    args = sys.argv[1:]
    if not args or args[0] not in PROPS:
        fail("usage: check.py ID [--replay FILE] [--tier T]")
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    while len(args) > 1:
        if args[1] == "--replay":
            replay = os.path.abspath(args[2])
        elif args[1] == "--tier":
            tier = args[2]
        del args[1:3]
    if tier not in LIMIT:
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    e = env()
    e["VERIF_TIER"], e["VERIF_SEED"] = tier, str(seed)
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    procs = []
    try:
        exe, cbin = build(prop, tmp, e)
        out = os.path.join(tmp, "out")
        os.mkdir(out)
        work = os.path.join(tmp, "cwd")
        os.mkdir(work)
        e["VERIF_OUT"] = out
        e["VERIF_REGRESS"] = os.path.join(HERE, "regress")
        e["GORACE"] = "halt_on_error=1 exitcode=66"
        e["GOTRACEBACK"] = "all"
        if cbin:
            e["VERIF_CBIN"] = cbin
        shards = 1 if replay else PROPS[prop]["shards"]
        e["VERIF_SHARDS"] = str(shards)
        if tier == "quick":  # percent of the case counts, where there is time for more
            e.setdefault("VERIF_SCALE", str(PROPS[prop].get("scale", 100)))
        if replay:
            e["VERIF_REPLAY"] = replay
        for i in range(shards):
            pe = dict(e, VERIF_SHARD=str(i))
            log = open(os.path.join(out, "log-%d" % i), "w")
            procs.append(subprocess.Popen(
                [exe, "-test.run", "^Test%s$" % prop, "-test.timeout", "0", "-test.v=false"],
                cwd=work, env=pe, stdout=log, stderr=subprocess.STDOUT, start_new_session=True))
        known = known_findings(prop)
        end = t0 + LIMIT[tier]
        late = found = False
        rss, big = [0] * shards, set()
        while any(p.poll() is None for p in procs):
            if time.time() > end:
                late = not found
                break
            time.sleep(0.02)
            for i, p in enumerate(procs):
                if p.poll() is None:
                    rss[i] = max(rss[i], resident(p.pid))
                    if rss[i] > MEMORY:  # the case in flight takes it; it would end as out of memory
                        os.killpg(p.pid, signal.SIGKILL)
                        p.wait()
                        big.add(i)
                # once a shard has a violation the others get a while to finish
                if not found and p.poll() is not None and failed(out, i, known):
                    found = True
                    end = min(end, time.time() + 45)
        for p in procs:
            if p.poll() is None:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
        viols, errors, subs, notes, hashes = [], [], {}, {}, set()
        if late:
            errors.append("time limit reached")
        for i, p in enumerate(procs):
            f = os.path.join(out, "shard-%d.json" % i)
            logtext = open(os.path.join(out, "log-%d" % i), errors="replace").read()
            data = None
            if os.path.exists(f):
                data = json.load(open(f))
            if data:
                viols += data["violations"] or []
                errors += data["errors"] or []
                for k, v in (data["notes"] or {}).items():
                    notes[k] = notes.get(k, 0) + v
                for k, s in data["subs"].items():
                    d = subs.setdefault(k, dict(evaluations=0, nontrivial=0, labels={}, samples=[]))
                    d["evaluations"] += s["evaluations"]
                    d["nontrivial"] += s["nontrivial"]
                    for l, n in (s.get("labels") or {}).items():
                        d["labels"][l] = d["labels"].get(l, 0) + n
                    d["samples"] += s.get("samples") or []
                    if s.get("exhaustive"):
                        d["exhaustive"] = True
                hb = open(os.path.join(out, "hash-%d" % i), "rb").read()
                hashes.update(struct.unpack("<%dQ" % (len(hb) // 8), hb))
            clean = data and data["complete"] and p.returncode in (0, 1) and not (
                p.returncode == 1 and not data["violations"] and not data["errors"])
            if clean or (data and data["violations"]):
                continue
            # the process died
            cut = ""
            if i in big and not late:
                cut = "the process was ended in this case: it holds %d MB of memory" % (rss[i] >> 20)
            if cut or crash_in_repo(logtext):
                rp = os.path.join(out, "%s-crash-%d.json" % (prop, i))
                case, sub = None, "crash"
                try:
                    b = open(os.path.join(out, "cur-%d" % i), "rb").read()
                    n = struct.unpack("<Q", b[:8])[0]
                    if n:
                        s, c = b[8:8 + n].split(b"\n", 1)
                        case, sub = json.loads(c), s.decode()
                except Exception:
                    pass
                flights = [x for x in sorted(os.listdir(out)) if x.startswith("flight-%d-" % i)]
                if case is None and flights:
                    fl = json.load(open(os.path.join(out, flights[0])))
                    case, sub = fl["case"], fl["sub"]
                at = max(0, min([x for x in (logtext.find("panic: "), logtext.find("fatal error: "),
                                             logtext.find("WARNING: DATA RACE")) if x >= 0] or [0]) - 200)
                if cut and case is None:
                    errors.append("shard %d took %d MB" % (i, rss[i] >> 20))
                    continue
                json.dump({"property": prop, "sub": sub, "message": cut or logtext[at:at + 6000], "case": case,
                           "other_cases_in_flight": [json.load(open(os.path.join(out, x))) for x in flights[:20]]},
                          open(rp, "w"), indent=1)
                viols.append(dict(sub=sub, replay=rp, msg=cut or logtext[at:at + 1500]))
            elif not late and not found:
                sys.stdout.write(logtext[-3000:])
                errors.append("shard %d ended with %s" % (i, p.returncode))
        rest, seen_known = [], set()
        for v in viols:
            k = is_known(v, known)
            if k:
                seen_known.add(k)
            else:
                rest.append(v)
        # evidence
        samples = []
        for k in sorted(subs):
            for s in subs[k].pop("samples")[:3]:
                samples.append({"check": k, "case": s})
        cov = dict(evaluations=sum(s["evaluations"] for s in subs.values()),
                   distinct_nontrivial=len(hashes),
                   rule=RULES[prop]["rule"], samples=samples[:12] or ["none"], checks=subs, notes=notes,
                   shards=shards, resident_mb=max(rss) >> 20)
        if not replay:
            os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
            json.dump(dict(property=prop, tier=tier, seed=seed, level="exploration", coverage=cov,
                           assumptions=RULES[prop]["assumptions"], wall_s=round(time.time() - t0, 2),
                           violations=len(rest)),
                      open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1, sort_keys=True)
        for k in [k for k in known if k in seen_known]:
            print("KNOWN-FINDING: property=%s %s" % (prop, k[3]))
        for x in errors:
            print("ERROR: " + x)
        if rest:
            keep = os.path.join(HERE, "replays")
            os.makedirs(keep, exist_ok=True)
            seen = set()
            for v in rest:
                dst = os.path.join(keep, os.path.basename(v["replay"]))
                shutil.copy(v["replay"], dst)
                if v["sub"] in seen:
                    continue
                seen.add(v["sub"])
                print("%s/%s: %s" % (prop, v["sub"], v["msg"][:2500]))
                print("VIOLATION property=%s replay=%s" % (prop, dst))
            return 1
        if errors:
            return 2
        if cov["evaluations"] == 0:
            print("ERROR: no case was run")
            return 2
        print("%s held: %d cases, %d distinct non-trivial, %.1f s" % (
            prop, cov["evaluations"], cov["distinct_nontrivial"], time.time() - t0))
        return 0
    finally:
        for p in procs:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())

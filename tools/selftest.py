#!/usr/bin/env python3
"""selftest.py [ID...]: how tightly are recorded outcomes bound?  Takes the
records the last run of each check left in out/, damages one leaf of the
outcome of each of a sample of them and counts how many the specification
refuses.  Accepted damage is listed by where in the record it lies."""
import collections, json, os, random, re, subprocess, sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "checks"))
import vlib

PK = ("c", "i", "pl")
BD = ("b", "in", "plen")
PA = ("s", "cap", "buf", "sched", "w", "wl")
KIND = {
    **{p: (("trace0.ndjson", "TraceParser", {"MODE": m}, PA),) for p, m in
       dict(C01="inv", C02="sound", C03="results", C04="errors", C05="bounded", C06="total", C07="kept").items()},
    "C26": (("trace0.ndjson", "TraceLossy", {}, PA),),
    **{p: (("records0.ndjson", "TracePacket", {"MODE": m}, PK),) for p, m in
       dict(C08="dispatch", C09="access", C10="total", C15="blocks", C16="json").items()},
    "C11": (("built0.ndjson", "TraceBuild", {"MODE": "build"}, BD),),
    "C12": (("built0.ndjson", "TraceBuild", {"MODE": "back"}, BD),),
    "C24": (("built0.ndjson", "TraceBuild", {"MODE": "sink"}, BD),),
    "C19": (("requests.ndjson", "TraceBuild", {"MODE": "build"}, BD + ("meta",)),),
    "C13": (("sets0.ndjson", "TraceConfig", {}, ("h", "pre", "items")),),
    "C14": (("items0.ndjson", "TraceConfig", {}, ("item",)),),
    "C17": (("converted0.ndjson", "TraceConvert", {}, PK),),
    "C18": (("trace.ndjson", "TraceQueue", {}, ("cap",)),),
    "C20": (("derived.ndjson", "TraceDerive", {}, ("d",)),),
    "C21": (("typed0.ndjson", "TracePacket", {"MODE": "typed"}, PK),),
    "C22": (("runs.ndjson", "TraceCli", {"RELEASE": "0"}, ("o", "s")),),
    "C23": (("features0.ndjson", "TraceFeatures", {"MODE": "build"}, ("op", "given", "by")),),
    "C27": (("printed0.ndjson", "TracePrint", {}, ("c", "i", "pl")),),
    "C28": (("kept0.ndjson", "TraceKept", {}, ("b",)),),
    "C29": (("runs.ndjson", "TraceShow", {"LIST_TIME": "0"}, ("s",)),),
    "C25": (("aid.ndjson", "TraceAid", {}, ("f0", "ops")),),
}


def leaves(x, path, skip):
    if isinstance(x, dict):
        for k, v in x.items():
            if k not in skip:
                yield from leaves(v, path + (k,), skip)
    elif isinstance(x, list):
        for k, v in enumerate(x):
            yield from leaves(v, path + (k,), skip)
    else:
        yield path


def damage(x, path, r):
    y = json.loads(json.dumps(x))
    at = y
    for k in path[:-1]:
        at = at[k]
    v = at[path[-1]]
    if isinstance(v, bool):
        w = not v
    elif isinstance(v, int):
        w = v ^ (1 << r.randrange(8)) if 0 <= v < 256 else v + r.choice((-1, 1))
    elif isinstance(v, str):
        w = {"true": "false", "false": "true"}.get(v) or (v + "x" if not v else v[:-1])
    else:
        return None
    at[path[-1]] = w
    return y


def where(path):
    return "/".join("*" if isinstance(k, int) and n > 1 else str(k) for n, k in enumerate(path))


def main():
    ids = sys.argv[1:] or sorted(KIND)
    n = int(os.environ.get("N", "400"))
    for p in ids:
        for file, module, mode, skip in KIND[p]:
            src = os.path.join(vlib.VERIF, "out", p, file)
            if not os.path.exists(src):
                print(p, "no records")
                continue
            r = random.Random(5)
            recs = [l for l in open(src) if len(l) < 20000]
            r.shuffle(recs)
            done = []
            for l in recs:
                if len(done) >= n:
                    break
                rec = json.loads(l)
                ls = list(leaves(rec, (), skip))
                # one kind of place at a time, so that long arrays do not take all
                kinds = collections.defaultdict(list)
                for q in ls:
                    kinds[where(q)].append(q)
                if not kinds:
                    continue
                k = r.choice(sorted(kinds))
                q = r.choice(kinds[k])
                y = damage(rec, q, r)
                if y is not None:
                    done.append((k, q, y, rec))
            out = f"/tmp/selftest-{p}.ndjson"
            with open(out, "w") as f:
                for _, _, y, _ in done:
                    f.write(json.dumps(y) + "\n")
            # records whose damage makes an operator undefined stop TLC; take them out and go on
            bad = set()
            left = list(range(len(done)))
            while left:
                with open(out, "w") as f:
                    for i in left:
                        f.write(json.dumps(done[i][2]) + "\n")
                e = dict(os.environ, TRACE=out, **mode)
                t = subprocess.run(["java", "-Xss512m", "-Xmx8g", "-XX:+UseParallelGC", "-cp", vlib.CP, "tlc2.TLC",
                                    "-workers", "4", "-continue", "-metadir", f"/tmp/selftest-meta-{p}", "-noGenerateSpecTE",
                                    "-config", os.path.join(vlib.SPEC, module + ".cfg"),
                                    os.path.join(vlib.SPEC, module + ".tla")], cwd=vlib.SPEC, env=e,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True).stdout
                subprocess.run(["rm", "-rf", f"/tmp/selftest-meta-{p}"])
                got = set()
                for part in re.split(r"is violated", t)[1:]:
                    m = re.findall(r"^(?:/\\ )?(?:t|recno) = (\d+)", part, re.M)
                    if m:
                        got.add(left[int(m[-1]) - 1])
                bad |= got
                if len(re.findall(r"rror: (?!Invariant|The behavior up)", t)) > 0:
                    m = re.findall(r"^(?:/\\ )?(?:t|recno) = (\d+)", t, re.M)
                    if not m:
                        print(p, "stopped", t[-1500:])
                        break
                    i = left[int(m[-1]) - 1]
                    bad.add(i)
                    left = [j for j in left if j not in bad]
                    continue
                break
            os.remove(out)
            acc = collections.Counter(done[i][0] for i in range(len(done)) if i not in bad)
            print(f"{p} {module} {mode}: {len(done)} damaged, {len(bad)} refused")
            for k, m in acc.most_common(12):
                i = next(i for i in range(len(done)) if i not in bad and done[i][0] == k)
                print("    accepted", m, k, done[i][1], json.dumps(done[i][2])[:300] if os.environ.get("V") else "")
            sys.stdout.flush()


main()

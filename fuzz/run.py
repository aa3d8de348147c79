#!/usr/bin/env python3
"""run.py EXE RUNS MAX_LEN | EXE --replay FILE: one libFuzzer campaign with fixed seed; writes the stage's summary."""
import json, os, re, shutil, subprocess, sys, time

exe = sys.argv[1]
work, pid, stage = os.environ["PBT_DIR"], os.environ["PBT_ID"], os.environ["PBT_STAGE"]
seed = int(os.environ.get("VERIF_SEED", "1"))
env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0", UBSAN_OPTIONS="print_stacktrace=1")


def run_input(path):
    return subprocess.run([exe, "-timeout=20", path], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")


if sys.argv[2] == "--replay":
    m = re.search(r"^input ([0-9a-f]*)$", open(sys.argv[3]).read(), re.M)
    p = os.path.join(work, "input")
    open(p, "wb").write(bytes.fromhex(m.group(1)))
    r = run_input(p)
    print(r.stdout[-3000:])
    print("FAILS" if r.returncode else "passes")
    sys.exit(1 if r.returncode else 0)

runs, max_len = int(sys.argv[2]), sys.argv[3]
jobs = 4 if runs < 1000000 else 8
t0 = time.time()
seeds = os.path.join(work, stage + "-seeds")
shutil.rmtree(seeds, ignore_errors=True)
os.makedirs(seeds)
texts = ["8'b0101xz01", "'hdead_beef", "64'o1777", "'d18446744073709551615", "hello", "", "130'bx", "'hz0f_", "'b" + "10xz" * 40, "'h" + "0123456789abcdefXZ" * 4]
for i, t in enumerate(texts * 3):
    open(os.path.join(seeds, "s%02d" % i), "wb").write(bytes([i * 7 % 256, i * 5 % 256]) + t.encode())
procs = []
for j in range(jobs):
    d = os.path.join(work, "%s-%d" % (stage, j))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + "/corpus")
    cmd = [exe, "-runs=%d" % (runs // jobs), "-seed=%d" % (seed * 100 + j + 1), "-max_len=" + max_len, "-timeout=20", "-rss_limit_mb=4096",
           "-dict=" + os.path.join(os.path.dirname(os.path.abspath(__file__)), "literal.dict"), "-artifact_prefix=" + d + "/", "-print_final_stats=1",
           "-max_total_time=%d" % (120 if runs < 1000000 else 1200), d + "/corpus", seeds]
    procs.append((d, subprocess.Popen(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")))
evals, corpus, samples, cover, bad = 0, 0, [], 0, None
for d, p in procs:
    o = p.communicate()[0]
    m = re.search(r"number_of_executed_units: (\d+)", o)
    evals += int(m.group(1)) if m else 0
    m = re.findall(r"cov: (\d+)", o)
    cover = max([cover] + [int(x) for x in m])
    fs = sorted(os.listdir(d + "/corpus"))
    corpus += len(fs)
    for f in fs[:: max(1, len(fs) // 2)][:2]:
        samples.append(repr(open(os.path.join(d, "corpus", f), "rb").read())[:300])
    arts = sorted(f for f in os.listdir(d) if f.startswith(("crash-", "timeout-", "oom-")))
    if p.returncode and arts and not bad:
        bad = (os.path.join(d, arts[0]), o)
    elif p.returncode and not arts:
        print(o[-2000:])
        sys.exit(3)
    shutil.rmtree(d + "/corpus")
replay, violations = "", 0
if bad:
    path, o = bad
    # only a reproducible input counts, minimised
    if run_input(path).returncode:
        mini = os.path.join(work, stage + "-min")
        subprocess.run([exe, "-minimize_crash=1", "-runs=20000", "-max_total_time=30", "-exact_artifact_path=" + mini, path], env=env,
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if os.path.exists(mini) and run_input(mini).returncode:
            path = mini
        r = run_input(path)
        data = open(path, "rb").read()
        replay = os.path.join(work, "replay-%s-%s-%d.txt" % (pid, stage, seed))
        tail = r.stdout[-2500:]
        open(replay, "w").write("property %s\nstage %s\ntier %s\nseed %d\ninput %s\n---\n%r\n%s\n" % (
            pid, stage, os.environ.get("VERIF_TIER", "quick"), seed, data.hex(), data, tail))
        print("input %r\n%s" % (data, tail))
        violations = 1
json.dump({"evaluations": evals, "nontrivial": corpus, "distinct_nontrivial": corpus, "labels": {"edges covered": cover, "corpus entries": corpus},
           "rule": "a case is a byte string grown by libFuzzer from a few literals (type and format chosen by its first two bytes); non-trivial and "
                   "distinct: it reached new coverage and entered the corpus",
           "samples": samples[:6], "assumptions": [], "known": {}, "run_s": round(time.time() - t0, 2), "violations": violations, "replay": replay},
          open(os.path.join(work, "summary-%s.json" % pid), "w"))
sys.exit(1 if violations else 0)

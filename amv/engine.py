"""Property-based testing engine: choice-sequence generation, parallel search,
shrinking, replay files, evidence.

A case is a pure function of a sequence of choices.  While searching, the
choices come from a PRNG seeded by (VERIF_SEED, property, case index); while
shrinking and replaying they come from a list, and 0 once it is exhausted.
Generators are written so that 0 is the simplest choice.
"""
import hashlib
import json
import multiprocessing as mp
import os
import random
import shutil
import sys
import tempfile
import time
import traceback

from . import client, vmbuild

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("AMV_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
JOBS = int(os.environ.get("AMV_JOBS", "8"))


class Src:
    """A source of choices."""

    def __init__(self, seed=None, replay=None):
        self.rng = random.Random(seed) if replay is None else None
        self.replay = replay
        self.log = []
        self.labels = set()

    def n(self, k):
        """An integer in range(k)."""
        if k <= 1:
            return 0
        if self.rng is not None:
            v = int(self.rng.random() * k)
            if v >= k:
                v = k - 1
        else:
            i = len(self.log)
            v = self.replay[i] % k if i < len(self.replay) else 0
        self.log.append(v)
        return v

    def rint(self, a, b):
        return a + self.n(b - a + 1)

    def pick(self, seq):
        return seq[self.n(len(seq))]

    def p(self, percent):
        """True with the given chance; choice 0 means False."""
        return self.n(100) >= 100 - percent

    def weighted(self, pairs):
        """pairs: [(weight, item)] with integer weights; the first is the
        simplest."""
        total = sum(w for w, _ in pairs)
        if total <= 0:
            raise ValueError("no choice")
        v = self.n(total)
        for w, it in pairs:
            v -= w
            if v < 0:
                return it
        raise AssertionError

    def shuffle(self, seq):
        seq = list(seq)
        for i in range(len(seq) - 1):
            j = i + self.n(len(seq) - i)
            seq[i], seq[j] = seq[j], seq[i]
        return seq

    def sub(self, seq, k):
        return self.shuffle(seq)[:k]

    def label(self, name):
        self.labels.add(name)


class Reject(Exception):
    """The generator gave up on this choice sequence (not a verdict)."""


class Property:
    """What a property module provides."""

    id = None
    rule = ""
    quick = 800
    thorough = 8000
    cap = 150           # seconds of search (quick); a bound, not a verdict
    assumptions = ()
    needs_vm = True
    technique = "property-based testing"
    level_note = ""

    def gen(self, src, tier):
        """-> JSON-able case"""
        raise NotImplementedError

    def check(self, case, w):
        """-> None, or the text of what is wrong"""
        raise NotImplementedError

    def nontrivial(self, case):
        """-> a hashable key when the case is non-trivial, else None"""
        return json.dumps(case, sort_keys=True, default=str)

    def sample(self, case):
        return case

    def extra_workers(self, env):
        return None

    def summary(self, labels):
        return {}


class Env:
    """Scratch folder, VM and workers of one process."""

    def __init__(self, scratch, so):
        self.scratch = scratch
        self.so = so
        self._w = {}

    @property
    def w(self):
        return self.worker("0")

    def worker(self, hashseed):
        if hashseed not in self._w:
            d = os.path.join(self.scratch, f"p{os.getpid()}-{hashseed}")
            os.makedirs(d, exist_ok=True)
            self._w[hashseed] = client.Worker(REPO, self.so, d, hashseed)
        return self._w[hashseed]

    def close(self):
        for w in self._w.values():
            w.close()
        self._w = {}


def case_seed(pid, index, salt=""):
    h = hashlib.sha256(f"{SEED}|{pid}|{index}|{salt}".encode()).digest()
    return int.from_bytes(h[:8], "big")


def run_one(prop, src, env):
    """-> (case or None, failure text or None)"""
    try:
        case = prop.gen(src, TIER)
    except Reject:
        return None, None
    return case, prop.check(case, env)


def shrink(prop, choices, env, deadline, limit=600):
    """Edits the choice list while the case still fails."""
    best = list(choices)
    seen = set()
    tries = 0

    def fails(c):
        nonlocal tries
        t = tuple(c)
        if t in seen or time.time() > deadline or tries > limit:
            return None
        seen.add(t)
        tries += 1
        src = Src(replay=list(c))
        try:
            case, why = run_one(prop, src, env)
        except client.HarnessError:
            raise
        except Exception:
            return None
        if why is None:
            return None
        log = list(src.log)
        while log and log[-1] == 0:
            log.pop()
        return log, case, why

    got = None
    r = fails(best)
    if r:
        best, got = r[0], r
    improved = True
    while improved and time.time() < deadline and tries <= limit:
        improved = False
        size = max(len(best) // 2, 1)
        while size >= 1:
            i = 0
            while i < len(best):
                r = fails(best[:i] + best[i + size:])
                if r and (len(r[0]), r[0]) < (len(best), best):
                    best, got, improved = r[0], r, True
                    continue
                if any(best[i:i + size]):
                    r = fails(best[:i] + [0] * len(best[i:i + size]) + best[i + size:])
                    if r and (len(r[0]), r[0]) < (len(best), best):
                        best, got, improved = r[0], r, True
                i += size
                if time.time() > deadline or tries > limit:
                    break
            size //= 2
        for i in range(len(best)):
            if time.time() > deadline or tries > limit:
                break
            if i >= len(best):
                break
            for v in (best[i] // 2, best[i] - 1):
                if i < len(best) and 0 < v < best[i]:
                    r = fails(best[:i] + [v] + best[i + 1:])
                    if r and (len(r[0]), r[0]) < (len(best), best):
                        best, got, improved = r[0], r, True
                        break
    return best, got, tries


def _search(prop, k, n, total, scratch, so, q, stop, t0, cap):
    try:
        env = Env(scratch, so)
        done = rejected = 0
        keys = set()
        labels = {}
        samples = []
        for i in range(k, total, n):
            if stop.is_set() or time.time() - t0 > cap:
                break
            src = Src(case_seed(prop.id, i))
            case, why = run_one(prop, src, env)
            if case is None:
                rejected += 1
                continue
            done += 1
            key = prop.nontrivial(case)
            if key is not None:
                h = hashlib.blake2b(str(key).encode("utf-8", "replace"), digest_size=8).digest()
                keys.add(h)
                if len(samples) < 2:
                    samples.append(prop.sample(case))
            for lab in src.labels:
                labels[lab] = labels.get(lab, 0) + 1
            if why is not None:
                known = prop.known(case, why) if hasattr(prop, "known") else None
                if known:
                    q.put(("known", known))
                    continue
                stop.set()
                best, tries = src.log, 0
                got = None
                if hasattr(prop, "reduce"):
                    got = prop.reduce(src.log, env, case, why, time.time() + 40)
                if got:
                    case, why, tries = got
                else:
                    best, got, tries = shrink(prop, src.log, env, time.time() + 40)
                    if got:
                        case, why = got[1], got[2]
                q.put(("fail", i, case, why, best, tries))
                break
        env.close()
        q.put(("done", done, rejected, keys, labels, samples))
    except client.HarnessError as e:
        q.put(("error", "harness: " + str(e)))
    except BaseException:
        q.put(("error", traceback.format_exc()))


def replay_path(pid):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    return os.path.join(d, f"{pid}.json")


def emit(prop, coverage, wall, violations):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = {
        "property": prop.id,
        "tier": "thorough" if TIER == "thorough" else "quick",
        "seed": SEED,
        "level": "exploration",
        "coverage": coverage,
        "assumptions": list(prop.assumptions),
        "wall_s": round(wall, 2),
        "violations": violations,
    }
    with open(os.path.join(VERIF, "evidence", prop.id + ".json"), "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False, default=str)
        f.write("\n")


def known_findings(pid):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path, encoding="utf-8") as f:
        return [k for k in json.load(f)["findings"] if k.get("property") == pid]


def main(prop, argv):
    t0 = time.time()
    replay = None
    if "--replay" in argv:
        replay = argv[argv.index("--replay") + 1]
    n_override = int(argv[argv.index("-n") + 1]) if "-n" in argv else None
    scratch = tempfile.mkdtemp(prefix=f"amv-{prop.id}-")
    try:
        so = os.environ.get("AMV_SO") or (
            vmbuild.build(REPO, scratch) if prop.needs_vm else "-")
        if replay:
            with open(replay, encoding="utf-8") as f:
                rep = json.load(f)
            env = Env(scratch, so)
            if "-choices" in argv:
                case, why = run_one(prop, Src(replay=rep["choices"]), env)
            else:
                case = rep["case"]
                why = prop.check(case, env)
            env.close()
            if why:
                print(why)
                print(f"VIOLATION property={prop.id} replay={replay}")
                return 1
            print("replay: holds")
            return 0
        total = n_override or (prop.thorough if TIER == "thorough" else prop.quick)
        cap = prop.cap * (20 if TIER == "thorough" else 1)
        tb = time.time()
        ctx = mp.get_context("fork")
        q = ctx.Queue()
        stop = ctx.Event()
        procs = [
            ctx.Process(target=_search,
                        args=(prop, k, JOBS, total, scratch, so, q, stop, tb, cap))
            for k in range(JOBS)
        ]
        for p in procs:
            p.start()
        done = rejected = 0
        keys, labels, samples, fails, errors, known = set(), {}, [], [], [], {}
        left = len(procs)
        while left:
            try:
                m = q.get(timeout=5)
            except Exception:
                if not any(p.is_alive() for p in procs):
                    errors.append("a search process ended without a report")
                    break
                continue
            if m[0] == "done":
                left -= 1
                done += m[1]
                rejected += m[2]
                keys |= m[3]
                for a, b in m[4].items():
                    labels[a] = labels.get(a, 0) + b
                samples += m[5]
            elif m[0] == "fail":
                fails.append(m)
            elif m[0] == "known":
                known[m[1]] = known.get(m[1], 0) + 1
            else:
                left -= 1
                errors.append(m[1])
                stop.set()
        for p in procs:
            p.join()
        for k in sorted(known):
            print(f"KNOWN-FINDING: property={prop.id} {k}")
        cov = {
            "evaluations": done,
            "distinct_nontrivial": len(keys),
            "rule": prop.rule,
            "samples": samples[:4],
            "rejected_by_generator": rejected,
            "planned": total,
            "labels": dict(sorted(labels.items())),
            "known_finding_hits": known,
        }
        cov.update(prop.summary(labels))
        emit(prop, cov, time.time() - t0, len(fails))
        if fails:
            fails.sort(key=lambda m: (len(json.dumps(m[2], default=str)), m[1]))
            _, idx, case, why, choices, tries = fails[0]
            path = replay_path(prop.id)
            with open(path, "w", encoding="utf-8") as f:
                json.dump({"property": prop.id, "seed": SEED, "index": idx,
                           "why": why, "case": case, "choices": choices}, f,
                          indent=1, ensure_ascii=False, default=str)
            print(f"{prop.id}: case {idx} fails ({len(fails)} failing; shrunk in {tries} runs)")
            print(why)
            print(f"VIOLATION property={prop.id} replay={path}")
            return 1
        if errors:
            print("ERROR " + errors[0][-3000:], file=sys.stderr)
            return 3
        print(f"{prop.id}: {done} cases, {len(keys)} distinct non-trivial, "
              f"{rejected} rejected, {time.time() - t0:.1f} s, labels {labels}")
        return 0
    except vmbuild.BuildError as e:
        print("ERROR build: " + str(e), file=sys.stderr)
        return 4
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

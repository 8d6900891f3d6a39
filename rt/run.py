"""Evaluate the executable contracts on the real code: search for a failing input, or replay one."""
import ast, contextlib, io, json, multiprocessing as mp, os, random, resource, signal, sys, time, traceback
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")

class Hang(BaseException):
    pass

def literals():
    """Constants of the current source that the pinned one does not have: they widen the value pools."""
    base = os.path.join(HERE, "rt", "literals.json")
    known = set(json.load(open(base))) if os.path.exists(base) else set()
    s, n = set(), set()
    for root, _, files in os.walk(os.path.join(REPO, "spine_json_lib")):
        if os.sep + "test" in root:
            continue
        for f in files:
            if f.endswith(".py"):
                try:
                    t = ast.parse(open(os.path.join(root, f)).read())
                except SyntaxError:
                    continue
                for x in ast.walk(t):
                    if isinstance(x, ast.Constant) and repr(x.value) not in known:
                        if isinstance(x.value, str) and len(x.value) <= 24:
                            s.add(x.value)
                        elif isinstance(x.value, (int, float)) and not isinstance(x.value, bool):
                            n.add(x.value)
    return {"str": sorted(s), "num": sorted(n)}

def all_literals():
    out = set()
    for root, _, files in os.walk(os.path.join(REPO, "spine_json_lib")):
        if os.sep + "test" in root:
            continue
        for f in files:
            if f.endswith(".py"):
                for x in ast.walk(ast.parse(open(os.path.join(root, f)).read())):
                    if isinstance(x, ast.Constant):
                        out.add(repr(x.value))
    return sorted(out)

def setup_real():
    sys.dont_write_bytecode = True
    sys.path.insert(0, REPO)
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))

def evaluate(prop, case, limit=20):
    """None, or what the contract says is wrong."""
    def boom(*a):
        raise Hang()
    signal.signal(signal.SIGALRM, boom)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            return prop.check(json.loads(json.dumps(case)))
    except Hang:
        return "no result within %d s" % limit
    except RecursionError as e:
        return "raised RecursionError"
    except MemoryError:
        return "raised MemoryError"
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if "spine_json_lib" in f.filename]
        return "raised %s: %s at %s" % (type(e).__name__, e, "%s:%d" % (os.path.basename(where[-1].filename), where[-1].lineno) if where else "the check itself (%s:%d)" % (tb[-1].filename, tb[-1].lineno))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)

def worker(pid, seed, budget, q):
    setup_real()
    from rt.props import P
    prop = P[pid]()
    rng = random.Random(seed)
    lits = literals()
    t0, n, seen, samples = time.time(), 0, set(), []
    while time.time() - t0 < budget:
        el = (time.time() - t0) / max(budget, 0.01)
        size = rng.choice([1, 2, 2, 3] if el < 0.4 else [2, 3, 3, 4, 6])
        case = prop.gen(rng, lits if rng.random() < 0.6 else {"str": [], "num": []}, size)
        n += 1
        key = hash(json.dumps(case, sort_keys=True))
        seen.add(key)
        if len(samples) < 2 and n % 7 == 0:
            samples.append(case)
        msg = evaluate(prop, case)
        if msg:
            q.put(("bad", case, msg))
            break
    q.put(("done", n, len(seen), samples))

def search(pid, seed, budget, procs=None):
    procs = procs or min(8, os.cpu_count() or 1)
    q = mp.Queue()
    ps = [mp.Process(target=worker, args=(pid, seed * 1000 + i, budget, q), daemon=True) for i in range(procs)]
    for p in ps:
        p.start()
    bad, n, d, samples, done = [], 0, 0, [], 0
    end = time.time() + budget + 60
    while done < procs and time.time() < end:
        try:
            m = q.get(timeout=1)
        except Exception:
            if not any(p.is_alive() for p in ps) and q.empty():
                break
            continue
        if m[0] == "bad":
            bad.append((m[1], m[2]))
            end = min(end, time.time() + 3)
        else:
            done += 1
            n += m[1]; d += m[2]; samples += m[3]
        if bad and done >= 1:
            end = min(end, time.time() + 2)
    for p in ps:
        p.terminate()
    bad.sort(key=lambda b: len(json.dumps(b[0])))
    return {"evaluations": n, "distinct": d, "samples": samples[:3], "bad": bad[0] if bad else None}

if __name__ == "__main__":
    sys.path.insert(0, HERE)
    if sys.argv[1] == "replay":
        setup_real()
        from rt.props import P
        r = json.load(open(sys.argv[2]))
        msg = evaluate(P[r["property"]](), r["case"])
        print(msg or "holds")
        sys.exit(1 if msg else 0)
    elif sys.argv[1] == "literals":
        json.dump(all_literals(), open(os.path.join(HERE, "rt", "literals.json"), "w"), indent=0)
    else:
        for pid in sys.argv[2:]:
            t = time.time()
            r = search(pid, int(os.environ.get("VERIF_SEED", "1")), float(sys.argv[1]))
            print(pid, r["evaluations"], r["distinct"], "%.1fs" % (time.time() - t), r["bad"][1] if r["bad"] else "ok", flush=True)
            if r["bad"]:
                json.dump({"property": pid, "case": r["bad"][0]}, open("/tmp/w/bad_%s.json" % pid, "w"), indent=1)

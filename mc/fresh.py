"""A process that has never seen the models: reads pickled models, writes what it observes of each (used by C18)."""
import pickle
import sys

if __name__ == "__main__":
    repo, dims = sys.argv[1], tuple(int(x) for x in sys.argv[2:5])
    sys.path[:0] = [".", repo]
    jobs = pickle.loads(sys.stdin.buffer.read())
    out = []
    if len(sys.argv) > 5:                   # a process in which other models have lived
        from checks import c18
        c18.N, c18.M_, c18.T = dims
        for cls in ("UKF", "Chol", "KF"):
            c18.apply(cls, c18.make(cls, "d" if cls == "UKF" else "c"), "filter", jobs[0][2])
    for cls, data, X, after in jobs:
        try:
            mod = pickle.loads(data)
        except Exception as e:
            out.append(f"does not load: {type(e).__name__}: {e}")
            continue
        from checks import c18
        c18.N, c18.M_, c18.T = dims
        first = c18.probe(cls, mod, X)
        results = [(ok, c18.picture(r) if ok else type(r).__name__) for ok, r in (c18.apply(cls, mod, op, X) for op in after)]
        out.append((first, results, c18.probe(cls, mod, X), pickle.dumps(mod, 2)))
    sys.stdout.buffer.write(pickle.dumps(out))

"""Run harness calls natively (a separate process: a panic aborts it).

usage: native.py LIB < json list of [fname, [floats], [ints]]  -> json list of
outputs, each a list of up to 96 floats (null = untouched)"""
import ctypes
import json
import subprocess
import sys


def main():
    lib = ctypes.CDLL(sys.argv[1])
    for line in sys.stdin:
        res = []
        for fname, a, n in json.loads(line):
            A = (ctypes.c_double * max(1, len(a)))(*a)
            N = (ctypes.c_uint32 * max(1, len(n)))(*n)
            out = (ctypes.c_double * 96)(*([float.fromhex("0x1.23456789abcdep+321")] * 96))
            f = getattr(lib, fname)
            f.argtypes = [ctypes.c_void_p] * 3
            f.restype = None
            f(A, N, out)
            r = [x for x in out]
            while r and r[-1] == float.fromhex("0x1.23456789abcdep+321"):
                r.pop()
            res.append([x.hex() if x == x else "nan" for x in r])
        print(json.dumps(res), flush=True)


def run(lib, calls, timeout=120):
    """-> list of outputs, or ('abort', code, stderr)"""
    return run_many(lib, [calls], timeout)[0]


def run_many(lib, seqs, timeout=240):
    """one fresh process per sequence (settings are process-global)"""
    out = []
    for calls in seqs:
        try:
            p = subprocess.run([sys.executable, __file__, lib], input=json.dumps(calls) + "\n", capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            out.append(("abort", -1, "timeout"))
            continue
        if p.returncode != 0 or not p.stdout.strip():
            out.append(("abort", p.returncode, p.stderr[-400:]))
        else:
            out.append([[float("nan") if x == "nan" else float.fromhex(x) for x in r] for r in json.loads(p.stdout)])
    return out


if __name__ == "__main__":
    main()

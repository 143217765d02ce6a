"""obligations.py <module> [pattern]: discharge the obligations of one module in parallel, print those that are not proved"""
import collections
import importlib
import multiprocessing
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from tlv import env  # noqa: F401
from tlv.pyver import domain

M = importlib.import_module("tlv.pyver." + sys.argv[1])
PAT = sys.argv[2] if len(sys.argv) > 2 else ""


def one(i):
    n, f, *rest = M.OBLIGATIONS[i]
    return domain.discharge(domain.Obligation(n, f, *(rest or [60])))


if __name__ == "__main__":
    todo = [i for i, ob in enumerate(M.OBLIGATIONS) if PAT in ob[0]]
    c, T = collections.Counter(), []
    with multiprocessing.get_context("fork").Pool(8) as pool:
        for r in pool.imap(one, todo):
            c[r["status"]] += 1
            T.append((round(r["seconds"], 1), r["name"]))
            if r["status"] != "proved" or PAT:
                print(r["name"], "|", r["status"], r["seconds"], r["paths"], "|", r["detail"][:200], *([r["functions"]] if PAT else []))
    print(dict(c), "slowest:", *sorted(T, reverse=True)[:4])

"""worker.py PROP TIER SHARD NSHARDS RESULT [only-case ...]"""
import importlib, json, os, sys, zlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common

def main():
    prop, tier, shard, n, res = sys.argv[1:6]
    only = sys.argv[6:]
    shard, n = int(shard), int(n)
    mod = importlib.import_module(prop.lower())
    rep = common.Rep(prop, tier)
    cf = os.open(res + ".case", os.O_CREAT | os.O_WRONLY | os.O_TRUNC)
    for key, fn in mod.cases(tier == "thorough"):
        if only and key not in only:
            continue
        if zlib.crc32(key.encode()) % n != shard:
            continue
        if rep.nviol > 60:
            break
        os.ftruncate(cf, 0)
        os.pwrite(cf, key.encode(), 0)
        rep.key = key
        fn(rep)
    os.ftruncate(cf, 0)
    with open(res, "w") as f:
        json.dump(rep.result(), f)

main()

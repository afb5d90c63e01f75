import sys, json, time, traceback
from codec import *
m = json.load(open("/tmp/mir.json"))
C = Codecs(m)
pat = sys.argv[1] if len(sys.argv) > 1 else ""
verbose = len(sys.argv) > 2
for k in list(C.index):
    if pat not in k[1] or (not pat and k[1].endswith(('::Class','::Code'))): continue
    t0 = time.time()
    C.ip.unmodelled.clear(); C.ip.steps = 0; C.ip.max_steps = 2000000
    try:
        R = RoundTrip(C, k).run()
    except Exception as e:
        C.ip.stack.clear()
        print("EXC ", k, type(e).__name__, e)
        if verbose: traceback.print_exc()
        continue
    st = "VIOL" if R.viol else "und " if R.und else "ok  "
    print(st, k, "w%d ok%d viol%d und%d %.2fs" % (R.wpaths, R.ok, len(R.viol), len(R.und), time.time() - t0), dict(C.ip.unmodelled))
    if verbose:
        for v in R.viol[:6]: print("   V", *[x[:1500] for x in v], sep="\n      ")
        for v in R.und[:4]: print("   U", v)

import sys, json, time
from codec import *
m = json.load(open("/tmp/mir.json"))
C = Codecs(m)
ip = C.ip
def w(ts, tr=None):
    for k, d in C.index.items():
        if k[1] == ts and (tr is None or k[0] == tr) and "write_to" in d:
            s = ip.new_state()
            C.noexpand = {k}
            t0 = time.time()
            for o in C.run_writer(s, d["write_to"][0], mk("sym", "self", m["insts"][d["write_to"][0]]["self"])):
                print(k, o.k, o.s.tags, o.v, "\n    ", ", ".join(show_piece(p) for p in o.pieces)[:1500])
                print("      |", "; ".join("%s:%s" % (show(a[0]), a[1:]) for a in o.s.f.order)[:600])
            print("%.2fs" % (time.time() - t0), dict(ip.unmodelled))
if __name__ == "__main__":
    w(*sys.argv[1:])

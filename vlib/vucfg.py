import sst, sys
# model-options: LIB IN OUT [timebase]
a = sys.argv[1:]
c = sst.Component("x", a[0] + ".Exec")
c.addParams({"in": a[1], "out": a[2]})
if len(a) > 3:
    c.addParam("at", a[3])

import sys, time
sys.path.insert(0, "/verif/engine")
import summ, lib
import importlib, os
import catalog
summ.set_dump(os.environ.get("NTT_BUILD", "/verif/build") + "/dump")
quiet = "-q" in sys.argv
for a in [x for x in sys.argv[1:] if x != "-q"] or list(catalog.PROPS):
    if a in catalog.PROPS:
        a = catalog.PROPS[a]["fn"]
    m, f = a.split(".")
    rep = lib.Report(f.upper())
    t = time.time()
    fn = getattr(importlib.import_module(m), f)
    try:
        lib.TOUCHED.clear()
        fn(rep)
        lib.stored_as_declared(rep)
    except lib.Broken as b:
        rep.viol.setdefault(f"{b.rule} @ {b.where}", []).append((b.msg, None, None))
    except Exception as e:
        rep.viol.setdefault(f"undecided {e!r}", []).append((repr(e), None, None))
        if not quiet:
            import traceback; traceback.print_exc()
    if quiet:
        print(f.upper(), rep.nobs, "VIOL" if rep.viol else "ok", "; ".join(list(rep.viol)[:3]))
        continue
    print("==", a, rep.nobs, "obs", f"{time.time()-t:.1f}s", {k: v[0] for k, v in rep.per.items()})
    for k, v in rep.viol.items():
        print("  VIOL", k, len(v), v[0][0][:300], "path", v[0][1].p.n if v[0][1] else None)

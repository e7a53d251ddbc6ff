import faulthandler, importlib, json, os, sys, traceback, warnings


def main():
    prop, wid, shard, nshards, tier, seed, scratch = sys.argv[1:8]
    replay = None
    if len(sys.argv) > 8:
        replay = (sys.argv[8], int(sys.argv[9]))
    out = os.path.join(scratch, f"res{wid}.json")
    from mc.engine import MC, Stop

    mc = MC(prop, int(shard), int(nshards), tier, int(seed), scratch, replay)
    mc.attach(os.path.join(scratch, f"slot{wid}"))
    mc._mark("import\t0\timport")
    warnings.simplefilter("ignore")
    import riptable

    repo = os.path.realpath(os.environ.get("MC_REPO", "/repo"))
    assert os.path.realpath(riptable.__file__).startswith(repo + "/"), riptable.__file__
    kf = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
    if os.path.exists(kf):
        mc.known = [k for k in json.load(open(kf))["findings"] if k["property"] == prop]
    if replay:
        mc.known = []
    mod = importlib.import_module("mc.props." + prop.lower())
    err = None
    try:
        with open(os.devnull, "w") as dn:
            sys.stdout = dn
            mod.explore(mc)
    except Stop:
        pass
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        if any(f.filename.startswith(repo + "/riptable") for f in tb):
            mc.violations.append({"space": mc._space or "setup", "index": mc._idx or 0, "case": None, "case_repr": repr(mc._case)[:500], "key": None,
                                  "msg": "exception in library code outside a case: " + traceback.format_exc()[-1500:]})
        else:
            err = traceback.format_exc()
    finally:
        sys.stdout = sys.__stdout__
    r = mc.result()
    r["error"] = err
    tmp = out + ".tmp"
    with open(tmp, "w") as f:
        json.dump(r, f)
    os.replace(tmp, out)
    os._exit(0)


main()

import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import json
from common import *


def registry():
    import cliprops
    c = {}
    c["D03"] = cliprops.make("D03", {"quick": 160, "thorough": 4000}, "seeded scenarios (input document, output mode, existing target, link, permissions); for each a fault-free run, then one run per sampled fault (I/O error, short or torn write, crash, power-loss images) and seeded combinations; distinct = distinct (system-call step sequence, faults fired, exit status)")
    c["D04"] = cliprops.make("D04", {"quick": 220, "thorough": 6000}, "seeded commands and inputs; for each a fault-free run, then one run per sampled I/O error at a step and seeded combinations; distinct = distinct (step sequence, faults fired, exit status)")
    c["D05"] = cliprops.make("D05", {"quick": 220, "thorough": 6000}, "seeded commands and inputs; for each, runs with interruptions, short transfers and arbitrary segmentation, and the same bytes from file and pipe; distinct = distinct (step sequence, faults fired, exit status)")
    c["D07"] = cliprops.make("D07", {"quick": 1200, "thorough": 15000}, "seeded commands and inputs; each repeated under other hash seeds, process ids and clocks")
    import binprops, genprops, pubprops
    c["D06"] = binprops.make()
    c["D09"] = genprops.make()
    c["D08"] = pubprops.make()
    import lspprops
    for p in ("E01", "E02", "E05"):
        c[p] = lspprops.make(p)
    import lspsame
    c["D05"] = lspsame.combine("D05", c["D05"], {"quick": 400, "thorough": 12000})
    c["D07"] = lspsame.combine("D07", c["D07"], {"quick": 500, "thorough": 15000})
    import lspask, lspedit, lspext, lspwild
    import lspsave
    c["D01"] = lspsave.make_d01()
    import lspcache
    c["D02"] = lspcache.make_d02()
    c["E08"] = lspask.make()
    c["E07"] = lspedit.make()
    c["E06"] = lspwild.make()
    for p in ("E03", "E04"):
        c[p] = lspext.make(p)
    return c


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "replay":
        rec = json.load(open(sys.argv[2]))
        return registry()[rec["property"]].replay(sys.argv[2])
    prop = sys.argv[1]
    if prop == "setup":
        build_cli()
        if os.path.isdir(os.path.join(VERIF, "lspsim")):
            build_lsp()
        return 0
    if len(sys.argv) > 2:
        import common
        common.TIER = sys.argv[2]
    return registry()[prop].run()


if __name__ == "__main__":
    try:
        code = main()
    except HarnessError as e:
        print(f"harness error: {e}", file=sys.stderr)
        code = 4
    sys.exit(code)

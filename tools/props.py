"""What each check is made of."""
ALL = list(range(32))
ASSUMPTIONS = [
    "the reference model in h/model.hpp states the documented rules correctly",
    "clang 18, libstdc++ and the sanitizer runtimes behave as documented",
]
FAULT = set()


def std(src, feats, quick, thorough, setups=ALL, single=ALL, modes=7, **kw):
    ads = [(0, setups, modes, feats)]
    if single:
        ads.append((1, single, modes, feats))
    p = dict(name="main", src=[src], adapters=ads, quick=quick, thorough=thorough)
    p.update(kw)
    return p


# a spread over all options, for the checks in which the setup is not the point
SOME = [0, 3, 7, 10, 11, 12, 18, 20, 22, 25]

PROPS = {
    "C01": dict(parts=[std("C01.cpp", "-DFEAT_CONV=1", (160000, 60), (6000000, 600))]),
}
ML = [8, 9, 10, 11, 12, 13, 14, 15, 21, 22, 25, 26, 27, 28, 31]
T = "-DFEAT_TYPES=1"
TI = "-DFEAT_TYPES=1 -DFEAT_ITER=1"
TIT = "-DFEAT_TYPES=1 -DFEAT_ITER=1 -DFEAT_TRY=1"
SOME1 = [3, 7, 11, 20, 22]

PROPS["C02"] = dict(parts=[std("C02.cpp", T, (200000, 60), (8000000, 600))])
PROPS["C03"] = dict(parts=[std("C03.cpp", TIT, (200000, 60), (8000000, 600), setups=SOME, single=SOME1)])
PROPS["C03"]["parts"][0]["adapters"].append((2, [0, 3, 10, 11, 20, 22], 7, TIT))
PROPS["C04"] = dict(parts=[std("C04.cpp", T, (200000, 60), (8000000, 600), setups=ALL, single=SOME1)])
PROPS["C05"] = dict(parts=[std("C05.cpp", T, (250000, 60), (8000000, 600), setups=ML, single=ML)])
TT = "-DFEAT_TYPES=1 -DFEAT_THROWING=1"
PROPS["C06"] = dict(parts=[std("C06.cpp", TIT, (150000, 60), (6000000, 600), single=SOME1)])
PROPS["C06"]["parts"].append(std("C06b.cpp", T, (16, 30), (400, 300), setups=[0, 10, 20, 24], single=[], san="none", sut_opt="-O2", name="far", common=["engine.cpp", "track_malloc.cpp", "hist.cpp", "setups.cpp"]))
PROPS["C07"] = dict(parts=[std("C07.cpp", TT, (250000, 60), (4000000, 600), single=SOME1)])
PROPS["C13"] = dict(parts=[std("C13.cpp", "-DFEAT_ITER=1", (150000, 60), (6000000, 600), single=SOME1)])
PROPS["C14"] = dict(parts=[std("C14.cpp", "", (150000, 60), (6000000, 600), single=ALL)])
PROPS["C15"] = dict(parts=[std("C15.cpp", TIT, (300000, 60), (6000000, 600), single=SOME1)])
PROPS["C16"] = dict(parts=[std("C16.cpp", T, (400000, 60), (6000000, 600), single=[0, 8, 9, 11, 19, 21, 22, 24, 25, 28])])
PROPS["C17"] = dict(parts=[std("C17.cpp", TIT, (400000, 60), (6000000, 600), modes=3, single=SOME1)])
PROPS["C18"] = dict(parts=[std("C18.cpp", TIT + " -DFEAT_CONV=2", (120000, 60), (6000000, 600), single=SOME1)])
PROPS["C20"] = dict(parts=[std("C20.cpp", TIT, (300000, 60), (4000000, 600), setups=SOME, single=SOME1)])
PROPS["C22"] = dict(parts=[std("C22.cpp", TIT + " -DFEAT_CONV=2", (120000, 60), (6000000, 600), setups=[0, 3, 7, 10, 12, 18, 22, 25, 26], single=[0, 3, 7, 10, 12, 18, 22, 25, 26])])
PROPS["C23"] = dict(parts=[std("C23.cpp", TIT + " -DFEAT_CONV=2", (80000, 60), (4000000, 400), setups=SOME, single=SOME1)])
PROPS["C23"]["parts"].append(std("C23.cpp", TIT + " -DFEAT_CONV=1", (6000, 60), (300000, 300), setups=[3, 11, 20, 25], single=[11], san="tsan", name="threads"))
PROPS["C23"]["parts"].append(dict(name="conversions", src=["C23b.cpp"], common=["engine.cpp", "track.cpp"], san="tsan", quick=(12000, 40), thorough=(600000, 200),
                                   sut_src=[("h/conv.cpp", v, ["-DGROUP=%d" % g]) for v in (0, 1, 3) for g in (2, 3, 4, 5, 7)]))
PROPS["C24"] = dict(parts=[std("C24.cpp", T + " -DFEAT_CONV=2", (120000, 60), (6000000, 600), single=SOME1)])


# conversions of single fields: no setups, the types in groups
def conv(src, groups, quick, thorough):
    sut = [("h/conv.cpp", v, ["-DGROUP=%d" % g]) for v in (0, 1, 3) for g in groups]
    return dict(parts=[dict(name="main", src=[src], common=["engine.cpp", "track.cpp"], sut_src=sut, quick=quick, thorough=thorough)])


PROPS["C08"] = conv("C08.cpp", [1], (150000, 60), (20000000, 600))
PROPS["C09"] = conv("C09.cpp", [2], (300000, 60), (40000000, 600))
PROPS["C10"] = conv("C10.cpp", [3, 4, 5], (60000, 60), (6000000, 600))
PROPS["C11"] = conv("C11.cpp", [6, 7, 8, 9], (100000, 60), (10000000, 600))
PROPS["C12"] = dict(parts=[dict(name="main", src=["C12.cpp"], common=["engine.cpp", "track.cpp"], quick=(400000, 60), thorough=(10000000, 600),
                                sut_src=[("h/lists.cpp", v, ["-DPART=%d" % p]) for v in (0, 1) for p in (0, 1, 2, 3)])])
PROPS["C19"] = dict(parts=[std("C19.cpp", TIT + " -DFEAT_CONV=2", (120000, 60), (6000000, 500), setups=[0, 1, 3, 5, 7, 8, 10, 11, 12, 18, 20, 22, 24, 25, 27], single=SOME1)])
PROPS["C19"]["parts"][0]["adapters"].append((2, [0, 3, 10, 11, 20, 22], 7, TIT))
FAULT.add("C21")
F_SETUPS = [0, 3, 10, 11, 18, 20, 22, 25]
PROPS["C21"] = dict(parts=[
    std("C21.cpp", TIT, (60000, 60), (400000, 400), setups=F_SETUPS, single=[11], san="none", common=["engine.cpp", "track_malloc.cpp", "hist.cpp", "setups.cpp"]),
    std("C21.cpp", TIT, (25000, 60), (200000, 400), setups=F_SETUPS, single=[], name="asan", common=["engine.cpp", "track.cpp", "hist.cpp", "setups.cpp", "fault_new.cpp"], ld=["-Wl,--wrap=realloc"]),
])
PROPS["C27"] = dict(parts=[std("C27.cpp", TIT + " -DFEAT_CONV=1", (30000, 60), (1500000, 400), setups=SOME, single=SOME1)])
CUSTOM = list(range(100, 122))
C25_BASE = [0, 3, 5, 7, 8, 9, 10, 11, 12, 15, 18, 20, 22, 23, 24, 25, 26, 30, 31]
PROPS["C25"] = dict(parts=[std("C25.cpp", TIT + " -DFEAT_CONV=2", (120000, 60), (6000000, 600), setups=C25_BASE + CUSTOM, single=[])])
# conversions of single fields and lists by both builds
PROPS["C22"]["parts"].append(dict(name="conversions", src=["C22b.cpp"], common=["engine.cpp", "track.cpp"], quick=(200000, 40), thorough=(10000000, 300),
                                  sut_src=[("h/conv.cpp", v, ["-DGROUP=%d" % g]) for v in (0, 1) for g in (1, 2, 3, 4, 5, 6, 7, 8)]
                                  + [("h/lists.cpp", v, ["-DPART=%d" % p]) for v in (0, 1) for p in (0, 1, 2, 3)]))
PROPS["C26"] = dict(python="compile_time")
for _p in ("C10", "C11", "C12", "C22", "C25"):
    PROPS[_p]["compile"] = True

# the thorough tier adds a coverage-guided search over the same cases
for _p in ("C01", "C02", "C05", "C08", "C09", "C10", "C11", "C13", "C19", "C24", "C25"):
    PROPS[_p]["parts"][0]["fuzz"] = dict(thorough=240)

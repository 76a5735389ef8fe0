import os
"""Which builds each check consists of."""
PARTS = {
    "C01": [{"variant": "o1", "src": "C01.cpp"}],
    "C02": [{"variant": "o1", "src": "C02.cpp"}],

    "C03": [{"variant": "o1", "src": "C03.cpp"}],

    "C04": [{"variant": "o1", "src": "C04.cpp"}],

    "C05": [{"variant": "o1", "src": "C05.cpp"}],
    "C06": [{"variant": "o1", "src": "C06.cpp"}],
    "C07": [{"variant": "o1", "src": "C07.cpp"}],
    "C08": [{"variant": "o1", "src": "C08.cpp"}],
    "C09": [{"variant": "o1", "src": "C09.cpp"}],
    "C10": [{"variant": "o1", "src": "C10.cpp"}],
    "C11": [{"variant": "o1", "src": "C11.cpp"}],
    "C12": [{"variant": "o1", "src": "C12.cpp"}],
    "C13": [{"variant": "o1", "src": "C13.cpp"}],
    "C14": [{"variant": "o1", "src": "C14.cpp"}, {"variant": "nojit", "src": "C14.cpp"}, {"variant": "jit0", "src": "C14.cpp"}],
    "C19": [{"variant": "o1", "src": "C19.cpp", "flags": ["-DMAP_BAD=1"], "more": ["-DTEST_BAD_HASH=1"]}, {"variant": "o1", "src": "C19.cpp"}],
}

# the same explorations with faults at allocations: see lib/fault.h
FAULT = ["-DFAULT=1", "-Wl,--wrap=gc_forceGC,--wrap=freeThrown"]


def faulty(mode, srcs):
    r = []
    for s in srcs:
        p = {"variant": "hook", "src": s + ".cpp", "flags": FAULT, "env": {"FAULT_MODE": mode}, "env_quick": {"FAULT_COARSE": "1"}, "env_thorough": {"VERIF_TIER": "quick"}}
        if s == "C10":
            p["env_quick"]["MC_SKIP"] = "[bound]"
        r.append(p)
    return r


ALL = ["C%02d" % i for i in range(1, 15)]
PARTS["C15"] = [{"variant": "hook", "src": "C15.cpp", "flags": FAULT}] + faulty("gc", ALL + ["C19"])
PARTS["C16"] = faulty("oom", ["C16"] + ALL)
PARTS["C17"] = faulty("own", ALL + ["C19"])
PARTS["C18"] = [{"variant": "o1", "src": "C18.cpp", "c": ["C18_heap.c"]}, {"variant": "mm2", "src": "C18.cpp", "c": ["C18_heap.c"], "flags": ["-DALIGN=16"]}]
PARTS["C22"] = [{"variant": "hook", "src": "C22.cpp", "flags": FAULT}]
PARTS["C23"] = [{"variant": "o1", "src": "C23.cpp"}]
PARTS["C27"] = [{"variant": "o1", "src": "C27.cpp", "flags": ["-Wl,--wrap=fopen"]}]
PARTS["C25"] = [{"variant": "o1", "src": "C25.cpp"}]
PARTS["C28"] = [{"variant": "o1", "src": "C28.cpp", "flags": ["-Wl,--wrap=pipe,--wrap=poll,--wrap=read,--wrap=write,--wrap=close,--wrap=waitpid,--wrap=fcntl,--wrap=posix_spawnp,--wrap=posix_spawn_file_actions_adddup2,--wrap=posix_spawn_file_actions_addclose"]}]
PARTS["C30"] = [{"variant": "o1", "src": "C30.cpp"}]
PARTS["C29"] = [{"variant": "o1", "src": "C29.cpp"}]
PARTS["C26"] = [{"variant": "o1", "src": "C26.cpp", "more": ["-D_GNU_SOURCE", "-I" + os.environ.get("VERIF_REPO", "/repo") + "/src", "-include", os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/lib/rndhook.h"]}]
PARTS["C20"] = [{"variant": "o1", "src": "C20.cpp"}]
PARTS["C21"] = [{"variant": "o1", "src": "C21.cpp"}, {"variant": "nojit", "src": "C21.cpp"}]
PARTS["C32"] = [{"variant": "o1", "src": "C32.cpp", "flags": ["-Wl,--wrap=fopen"]}]
PARTS["C34"] = [{"variant": "o1", "src": "C34.cpp"}]
PARTS["C35"] = [{"variant": "o1", "src": "C35.cpp", "c": ["C35_main.c"], "flags": ["-Wl,--allow-multiple-definition"]}]
PARTS["C31"] = [{"variant": "hook", "src": "C31.cpp", "flags": FAULT}]
PARTS["C33"] = [{"variant": "o1", "src": "C33.cpp"}, {"variant": "nojit", "src": "C33.cpp"}]
PARTS["C24"] = [{"variant": "o1", "src": "C24.cpp"}]
PARTS["C36"] = [{"variant": "o1", "src": "C36.cpp"}, {"variant": "o1", "src": "C36.cpp", "flags": ["-DEACH_FILLS=1"], "more": ["-DEACH_FILLS=1"]}]

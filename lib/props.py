"""What each check runs."""
import driver

EXTRA = {}
ASSUME = ["the sanitizer runtimes, libstdc++ and the reference model in harness/model.hpp are trusted",
          "double precision (default build) unless a stage is named f"]

# property -> (stages: (harness, variant, quick cases, thorough cases)), level
CPP = {
    "C01": [("C01", "d", 6000, 100000), ("C01", "f", 1875, 30000)],
    "C02": [("C02", "d", 3750, 50000), ("C02", "f", 750, 8000), ("C02", "o2", 2000, 15000)],
    "C03": [("C03", "d", 4500, 60000), ("C03", "f", 2500, 40000)],
    "C06": [("C06", "d", 6000, 80000), ("C06", "f", 1875, 30000)],
    "C07": [("C07", "d", 3750, 50000), ("C07", "f", 1000, 15000), ("C07", "o2", 3750, 30000)],
    "C04": [("C04", "d", 700, 12000), ("C04", "f", 120, 1500)],
    "C08": [("C08", "d", 6000, 100000), ("C08", "f", 2500, 40000), ("C08", "o2", 5000, 40000)],
    "C09": [("C09", "d", 9000, 150000), ("C09", "f", 2500, 50000), ("C09", "o2", 7500, 60000)],
    "C10": [("C10", "d", 6000, 100000), ("C10", "f", 1875, 40000), ("C10", "o2", 5000, 40000)],
    "C11": [("C11", "d", 4500, 80000), ("C11", "f", 1000, 20000), ("C11", "o2", 5000, 40000)],
    "C12": [("C12", "d", 6000, 100000), ("C12", "f", 1250, 20000), ("C12", "o2", 5000, 40000)],
    "C28": [("C28", "d", 4500, 60000), ("C28", "f", 1250, 20000)],
    "C13": [("C13", "d", 4500, 60000), ("C13", "f", 750, 10000), ("C13", "o2", 3750, 30000)],
    "C14": [("C14", "d", 6000, 80000), ("C14", "f", 1250, 20000), ("C14", "o2", 3750, 30000)],
    "C15": [("C15", "d", 3750, 50000), ("C15", "f", 1250, 20000), ("C15", "o2", 2500, 20000)],
    "C16": [("C16", "d", 1440, 20000), ("C16", "f", 200, 2000), ("C16", "o2", 800, 6000)],
    "C17": [("C17", "d", 4500, 60000), ("C17", "f", 1000, 20000), ("C17", "o2", 3750, 30000)],
    "C18": [("C18", "d", 6000, 80000), ("C18", "f", 1250, 20000), ("C18", "o2", 5000, 40000)],
    "C22": [("C22", "d", 1200, 20000), ("C22", "o2", 3750, 30000)],
    "C19": [("C19", "d", 1800, 30000), ("C19", "f", 400, 6000), ("C19", "o2", 1600, 15000)],
    "C20": [("C20", "d", 1800, 30000), ("C20", "f", 300, 5000), ("C20", "o2", 1600, 15000)],
    "C21": [("C21", "d", 3000, 40000), ("C21", "f", 625, 8000), ("C21", "o2", 2500, 20000)],
    "C23": [("C23", "d", 5000, 80000), ("C23", "cd", 3000, 60000), ("C23", "f", 2000, 40000), ("C23", "cf", 2000, 40000)],
    "C26": [("C26", "o2", 3000, 40000), ("C26", "o2f", 600, 10000)],
    "C27": [("C27", "d", 2400, 30000)],
    "C24": [("C24", "d", 3600, 60000), ("C24", "f", 500, 8000)],
    "C25": [("C25", "d", 1920, 40000), ("C25", "f", 300, 6000)],
    "C05": [("C05", "d", 9000, 120000), ("C05", "f", 3125, 40000), ("C05", "o2", 5000, 40000)],
}
LEVEL = {"C04": "fault_enumeration", "C16": "fault_enumeration"}

def harness_env(prop, v):
    if prop in ("C24", "C25"):     # the program itself, instrumented like the library
        return {"ONEX_CLI": driver.os.path.join(driver.build_lib(v, cli=True), "onex"), "COLUMNS": "100000", "LINES": "50", "INPUTRC": "/dev/null"}
    return {}

def finish(c):
    return c.finish(LEVEL.get(c.prop, "exploration"), ASSUME)

def run(c):
    if c.prop in CPP:
        for h, v, q, t in CPP[c.prop]:
            env = c.built(h + "/" + v, v, lambda: harness_env(c.prop, v))
            if env is None:
                continue
            c.cases(h, v, q if c.tier == "quick" else t, EXTRA.get(h, ()), env=env)
        if c.prop == "C26":
            c.memcheck("C26", "o2", 640 if c.tier == "quick" else 4000)
            c.memcheck("C26", "o2f", 160 if c.tier == "quick" else 1000)
        if c.prop == "C23":
            c.races("C23", 1200 if c.tier == "quick" else 20000)
            c.fuzz("C23", 15000 if c.tier == "quick" else 250000, 1024)
        return finish(c)
    raise driver.CheckError("unknown property " + c.prop)

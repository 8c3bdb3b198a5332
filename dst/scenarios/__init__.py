"""Registry: which scenarios decide which property."""
import importlib

FOR = {
    "C01": [("link", 3), ("traffic", 1)],
    "C02": [("link", 1)],
    "C03": [("link", 1)],
    "C04": [("link", 1), ("traffic", 1)],
}
for _p in ("C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C25", "C26"):
    FOR[_p] = [("traffic", 1)]

for _p in ("C14", "C15", "C16", "C17", "C18"):
    FOR[_p] = [("remote", 1)]

for _p in ("C19", "C20", "C21", "C22", "C23", "C24"):
    FOR[_p] = [("poll", 1)]

FOR["C11"] = [("traffic", 6), ("storm", 1)]
FOR["C25"] = [("traffic", 3), ("storm", 1)]

FOR["C27"] = [("start", 1)]

FOR["C28"] = [("soak_traffic", 4), ("soak_remote", 2), ("soak_link", 2), ("soak_poll", 1)]

WHERE = {"soak_traffic": ("soak", "SoakTraffic"), "soak_remote": ("soak", "SoakRemote"),
         "soak_link": ("soak", "SoakLink"), "soak_poll": ("soak", "SoakPoll"),
         "start": ("start", "Start"), "storm": ("storm", "Storm"), "poll": ("poll", "Poll"), "remote": ("remote", "Remote"), "link": ("link", "Link"), "traffic": ("traffic", "Traffic")}


def get(name):
    mod, cls = WHERE[name]
    return getattr(importlib.import_module("dst.scenarios." + mod), cls)

"""Registry of the checks, one per property."""
import importlib

_WHERE = {
    "C01": "isolation", "C02": "reads", "C03": "failing", "C04": "failing", "C05": "threads",
    "C06": "threads", "C07": "isolation", "C08": "curves", "C09": "parts", "C10": "placing",
    "C11": "placing", "C12": "repro", "C13": "gui", "C14": "gui", "C15": "gui", "C16": "gui",
}


def get(pid):
    mod = importlib.import_module("checks." + _WHERE[pid])
    return getattr(mod, pid)()

"Which world decides which property.  Worlds are imported only when needed."
import importlib

WORLDS = {
    "C01": ("sched_single", "C01"), "C02": ("sched_threads", "C02"), "C03": ("sched_threads", "C03"),
    "C04": ("sched_faults", "C04"), "C05": ("sched_threads", "C05"), "C06": ("sched_single", "C06"),
    "C07": ("heap_world", "C07"), "C08": ("heap_world", "C08"),
    "C09": ("graph_world", "C09"), "C10": ("graph_world", "C10"), "C11": ("graph_world", "C11"),
    "C12": ("graph_world", "C12"), "C13": ("graph_world", "C13"), "C14": ("graph_world", "C14"),
    "C15": ("pushback_world", "C15"),
    "C16": ("state_world", "C16"), "C17": ("state_world", "C17"), "C18": ("state_world", "C18"),
    "C19": ("lines_world", "C19"),
    "C20": ("resume_world", "C20"), "C21": ("resume_world", "C21"),
    "C22": ("lazy_world", "C22"),
    "C23": ("file_world", "C23"), "C24": ("file_world", "C24"), "C25": ("file_world", "C25"),
    "C26": ("file_world", "C26"), "C27": ("grep_world", "C27"),
    "C28": ("log_world", "C28"), "C29": ("log_world", "C29"),
    "C30": ("stamp_world", "C30"),
    "C31": ("bic_world", "C31"),
    "C32": ("file_world", "C32"),
    "C33": ("value_world", "C33"),
    "C34": ("import_world", "C34"),
    "C35": ("release_world", "C35"),
}


def get(id):
    mod, cls = WORLDS[id]
    return getattr(importlib.import_module("worlds." + mod), cls)()

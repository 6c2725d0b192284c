"""Task descriptions shared by the symbolic runner and the concrete replayer (no solver here)."""
class Task:
    """one harness instance: fn(w, **params) explored symbolically, every obligation decided by the solver"""
    def __init__(self, name, fn, mods, params=None, quick=True, deadline=60, ms=20000, bound="", flags=None, ubsan=False,
                 world=None, replay="plain", max_paths=3000, allow_undef=False, group="", memory=True, weight=None, note="", conc_ok=True):
        self.name = name; self.fn = fn; self.mods = list(mods); self.params = dict(params or {}); self.quick = quick
        self.deadline = deadline; self.ms = ms; self.bound = bound; self.flags = flags or {}; self.ubsan = ubsan
        self.world = world or {}; self.replay = replay; self.max_paths = max_paths; self.allow_undef = allow_undef
        self.group = group; self.memory = memory; self.weight = weight if weight is not None else deadline; self.note = note
        self.conc_ok = conc_ok
        self.deep = False

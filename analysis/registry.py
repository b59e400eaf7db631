PROPS = {}
META = {}
def prop(pid, **meta):
    def deco(f):
        PROPS[pid] = f
        META[pid] = meta
        return f
    return deco

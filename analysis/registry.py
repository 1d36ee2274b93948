RULES = {}


def prop(pid):
    def d(fn):
        RULES.setdefault(pid, []).append(fn)
        return fn
    return d

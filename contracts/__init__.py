REGISTRY = {}       # contract class name -> instance
PROPERTIES = {}     # property id -> dict(contracts, bounded, budget, level, explanation, assumptions)


def register(cls):
    inst = cls()
    key = cls.__name__
    assert key not in REGISTRY, key
    inst.key = key
    REGISTRY[key] = inst
    return cls


def prop(pid, contracts=(), bounded=None, budget=6, level='proof', explanation='', note='', technique=None, assumptions=()):
    PROPERTIES[pid] = dict(contracts=list(contracts), bounded=list(bounded or [pid]), budget=budget, level=level,
                           explanation=explanation or note, note=note, technique=technique, assumptions=list(assumptions))

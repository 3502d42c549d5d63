"""Which abstract-interpretation tasks decide which property."""


class Task(object):
    """One driver: an entry point of the program, abstract inputs, obligations.

    phases: 'sym' (all sizes, fixpoint) then 'pin' (size partition) by default.
    """

    def __init__(self, name, fn, phases=('sym', 'pin'), sym_s=15, pin_s=60,
                 paths=60000, rev=(False,), stubs=None, tier='quick', deep=None):
        self.name = name
        self.fn = fn
        self.phases = phases
        self.sym_s = sym_s
        self.pin_s = pin_s
        self.paths = paths
        self.rev = rev
        self.stubs = stubs
        self.tier = tier
        self.deep = deep


PROPS = {}


def prop(pid, *tasks):
    PROPS.setdefault(pid, []).extend(tasks)


def load():
    from .drivers import ALL  # noqa: F401  (registers)
    return PROPS

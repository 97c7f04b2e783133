"""Sub-test declaration and the API property modules use."""


class Violation(AssertionError):
    pass


class Skip(Exception):
    """The generated case is outside the property's domain (counted, never a pass in disguise)."""


class Ctx:
    def __init__(self):
        self.events = {}
        self.skipped = 0

    def ev(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + n


class Sub:
    """strategy: draw -> JSON-able case;  check(case, ctx) -> truthy when the case is non-trivial."""

    def __init__(self, name, strategy, check, quick=400, thorough=None, rule="", shard=150, big=48):
        self.name, self.strategy, self.check = name, strategy, check
        self.quick, self.thorough = quick, thorough or quick * 25
        self.rule = rule
        self.shard = shard
        self.big = big      # quick cases in jobs whose inputs are up to 8 or 40 times larger (sizes drawn with gen.sz)


def req(cond, *msg):
    if not cond:
        raise Violation(" ".join(str(m) for m in msg))

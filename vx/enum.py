"""Enumerate all outputs of a generator that only uses ctx.choose/pick."""


class _Ctx:
    def __init__(self, trail):
        self.trail, self.i, self.more = trail, 0, None

    def choose(self, name, n):
        if n <= 1:
            return 0
        if self.i < len(self.trail):
            v = self.trail[self.i][0]
        else:
            v = 0
            self.trail.append([0, n])
        self.i += 1
        return v

    def pick(self, name, options):
        return options[self.choose(name, len(options))]


def outputs(gen):
    """all distinct outputs, in a fixed order"""
    out, trail = {}, []
    while True:
        c = _Ctx(trail)
        out.setdefault(gen(c))
        trail = c.trail[:c.i]
        while trail and trail[-1][0] + 1 >= trail[-1][1]:
            trail.pop()
        if not trail:
            return list(out)
        trail[-1][0] += 1

class Scenario:
    def __init__(self, name, fn, configs, bounds="", assumptions=(), **opts):
        """configs(tier) -> list of keyword dictionaries."""
        self.name = name
        self.fn = fn
        self._configs = configs
        self.bounds = bounds
        self.assumptions = list(assumptions)
        self.opts = opts

    def configs(self, tier):
        c = self._configs
        return c(tier) if callable(c) else c


def product(**axes):
    import itertools
    keys = list(axes)
    return [dict(zip(keys, vals)) for vals in itertools.product(*axes.values())]


def marg(f, vrs, keep=True, bare=False):
    """A marginal, asked for the way users do: keeping is the default, and a single variable needs no list."""
    vrs = vrs[0] if bare else list(vrs)
    return f.marginalize(vrs) if keep else f.marginalize(vrs, keep=False)

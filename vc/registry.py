"""The units of proof: one contract on one function (or one lemma) each."""
UNITS = []


class Unit:
    def __init__(self, props, name, run, group, slow): self.props, self.name, self.run, self.group, self.slow = props, name, run, group, slow


def unit(props, name, group, slow=0):
    """run(E): verifies one function of the real code against its contract. slow: started earlier when larger."""
    def d(fn):
        UNITS.append(Unit(props.split(), name, fn, group, slow))
        return fn
    return d

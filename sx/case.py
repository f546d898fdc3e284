"""Harness case descriptor shared by the symbolic and the concrete runs."""


class Case:
    def __init__(self, name, fn, bounds, weight=1, max_steps=60000, max_paths=100000, limit=10, witnesses=None, **params):
        self.name, self.fn, self.bounds = name, fn, bounds
        self.params = params
        self.weight = weight
        self.max_steps = max_steps
        self.max_paths = max_paths
        self.limit = limit  # seconds a concrete replay may take before it counts as a hang
        self.witnesses = witnesses

    def run(self, sx):
        return self.fn(sx, **self.params)


class Suite:
    def __init__(self):
        self.cases = {"quick": [], "thorough": []}
        self._by = {}

    def add(self, case, tier="quick"):
        """quick cases also run in the thorough tier"""
        assert case.name not in self._by, case.name
        self._by[case.name] = case
        self.cases["thorough"].append(case)
        if tier == "quick":
            self.cases["quick"].append(case)

    def by_name(self, n):
        return self._by[n]

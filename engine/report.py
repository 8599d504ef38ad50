"""Verdicts: violations, undecided points and evidence of one check."""


class Verdict:
    def __init__(self, prop):
        self.prop = prop
        self.violations = {}     # key -> text
        self.undecided = {}
        self.obligations = 0
        self.discharged = 0
        self.samples = []
        self.coverage = {}
        self.assumptions = []

    def take(self, w):
        """the result of a part"""
        self.violations.update(w.violations)
        self.undecided.update(w.undecided)
        self.obligations += w.obligations
        self.discharged += w.discharged
        for s in w.samples:
            self.sample(s)

    def ok(self, n=1):
        self.obligations += n
        self.discharged += n

    def bad(self, key, text):
        self.obligations += 1
        self.violations.setdefault(key, text)

    def unknown(self, key, text):
        self.obligations += 1
        self.undecided.setdefault(key, text)

    def sample(self, s, n=12):
        if len(self.samples) < n:
            self.samples.append(s)

class Violation:
    def __init__(self, rule, loc, msg, key=None):
        self.rule, self.loc, self.msg = rule, loc, msg
        self.key = key or '%s @ %s' % (rule, loc)

    def text(self):
        return '%s: [%s] %s' % (self.loc, self.rule, self.msg)


class Result:
    def __init__(self, explanation, assumptions=()):
        self.explanation = explanation
        self.assumptions = list(assumptions)
        self.coverage = {}
        self.violations = []
        self._seen = set()

    def bad(self, rule, loc, msg, key=None):
        k = (rule, loc)
        if k in self._seen:
            return
        self._seen.add(k)
        self.violations.append(Violation(rule, loc, msg, key))

    def count(self, k, n=1):
        self.coverage[k] = self.coverage.get(k, 0) + n

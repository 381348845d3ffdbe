"""Result of one check run."""


CURRENT = []      # the report being filled in, for the watchdog of check.py


class Report:
    def __init__(self, pid, explanation):
        CURRENT.append(self)
        self.pid = pid
        self.explanation = explanation
        self.findings = []
        self.coverage = {}
        self.assumptions = []
        self.lines = []

    def find(self, key, rule, where, text):
        self.findings.append({'key': key, 'rule': rule, 'where': where, 'text': text})

    def cov(self, k, n):
        v = self.coverage.get(k)
        if isinstance(v, list):
            v.extend(x for x in n if x not in v)
        elif isinstance(v, int):
            self.coverage[k] = v + n
        else:
            self.coverage[k] = n

    def summary(self):
        out = list(self.lines)
        for k, v in self.coverage.items():
            if isinstance(v, list):
                out.append('%s (%d): %s' % (k, len(v), '; '.join(map(str, v))[:1500]))
            else:
                out.append('%s: %s' % (k, v))
        return out

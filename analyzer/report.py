"""Collecting obligations and their outcome."""

class Report:
    def __init__(self):
        self.total = {}          # property -> number of obligations
        self.yes = {}
        self.bad = {}            # property -> {key: message}
        self.und = {}            # property -> {key: message}
        self.notes = {}
        self.samples = {}
        self._k = {}

    def add(self, props, status, key, msg=''):
        for p in props:
            self.total[p] = self.total.get(p, 0) + 1
            if len(self.samples.setdefault(p, [])) < 8 and key not in self._k.setdefault(p, set()):
                self._k[p].add(key)
                self.samples[p].append({'obligation': key, 'outcome': {'y': 'holds', 'n': 'violated'}.get(status, 'undecided')})
            if status == 'y':
                self.yes[p] = self.yes.get(p, 0) + 1
            elif status == 'n':
                self.bad.setdefault(p, {}).setdefault(key, msg)
            else:
                self.und.setdefault(p, {}).setdefault(key, msg)

    def note(self, p, k, v):
        self.notes.setdefault(p, {})[k] = v

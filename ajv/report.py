"""Collects what a check analysed and what it found."""
from . import show


class Report:
    def __init__(self, prop):
        self.prop = prop
        self.bad_ = {}          # key -> (message, construct, trace text)
        self.obligations = {}   # rule -> count
        self.unclear_ = {}
        self.rules = {}

    def rule(self, rule, text):
        self.rules[rule] = text
        self.obligations.setdefault(rule, 0)

    def ok(self, rule, n=1):
        self.obligations[rule] = self.obligations.get(rule, 0) + n

    def bad(self, rule, where, msg, o=None, ev=None):
        self.ok(rule)
        key = '%s|%s|%s' % (self.prop, rule, where)
        if key in self.bad_:
            return
        site = []
        if ev is not None and ev.site:
            for b, sp in ev.site:
                site.append('%s (%s)' % (b, sp))
        text = ''
        if o is not None:
            try:
                text = show.outcome(o)
            except Exception as e:      # rendering must never decide anything
                text = 'trace not rendered: %r' % e
        self.bad_[key] = dict(rule=rule, where=where, message=msg, call_path=site, trace=text[:20000])

    def unclear(self, rule, where, why):
        k = '%s @ %s: %s' % (rule, where, why)
        self.unclear_[k] = self.unclear_.get(k, 0) + 1

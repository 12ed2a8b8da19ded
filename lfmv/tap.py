"""
Online tap on a machine's updates: every update of a free matrix or dispersion is bracketed by
`before(kind, obj)` / `after(kind, obj)`. Uses the library's own hook: a pre-assigned `sampling_fct`
takes precedence, so the real update functions are fetched first and wrapped.
"""
from lfmv import core


class Tap(object):
    def __init__(self, machine, before=None, after=None, limit=200000):
        self.machine, self.before, self.after = machine, before, after
        self.limit, self.events = limit, []

    def install(self):
        import lom.matrix_update_wrappers as mw
        import lom.lambda_update_wrappers as lw
        m = self.machine
        self.objs = [x for x in m.members if not x.fixed]
        self.lbdas = [x for x in m.lbdas if not x.fixed]
        with core.quiet():
            real = [(x, 'm', mw.get_sampling_fct(x)) for x in self.objs] + \
                   [(x, 'l', lw.get_update_fct(x)) for x in self.lbdas]
        for x, kind, f in real:
            x.sampling_fct = self.wrap(kind, f)
        return self

    def wrap(self, kind, f):
        def update(x):
            self.events.append((kind, id(x)))
            if len(self.events) > self.limit:
                raise core.StepLimit('%d updates in one inference' % len(self.events))
            if self.before:
                self.before(kind, x)
            f(x)
            if self.after:
                self.after(kind, x)
        return update

    def remove(self):
        for x in self.machine.members + self.machine.lbdas:
            x.sampling_fct = None

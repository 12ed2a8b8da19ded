import re
import sys
import warnings
import numpy as np
from lfmv import core, ref, util
from lfmv.core import Api
from lfmv.tap import Tap
from lfmv.checks import c23

PROPERTY = 'C24'
RULE = ('"show": random assembled machines before and after inferences; every 2D member is drawn with every technique and the drawn image '
        '(values after colour normalisation, orientation, colours) is compared with the probabilities recomputed from trace or state; matrices '
        'drawn directly. "report": inferences whose printed progress is intercepted at the moment of printing together with the number of '
        'completed sweeps and the dispersions. Distinct non-trivial = distinct (technique, drawn image) and distinct reports.')
REQUIRED = {'drawn': 800, 'means': 200, 'maps': 200, 'states': 200, 'uncertain_entries': 500, 'without_negative': 60, 'before_inference': 60,
            'direct': 150, 'refused': 60, 'reports': 800, 'reported_values': 1000, 'max_and_values': 60, 'burn_in_reports': 300, 'sampling_reports': 300,
            'inferences': 150, 'ended_by_max': 40, 'ended_by_convergence': 20, 'several_dispersions': 40, 'named': 100, 'annealed': 15, 'fixed_with_missing': 10}


def cases(tier, seed):
    out = []
    for r in range(12 if tier == 'quick' else 120):
        out.append({'kind': 'show', 'seed': [seed, r]})
        out.append({'kind': 'report', 'seed': [seed, r]})
    return out


def figure(obs, what, draw):
    """run draw() and return the image it drew"""
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    plt.close('all')
    with Api(what), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        ret = draw(plt)
        ims = [im for n in plt.get_fignums() for ax in plt.figure(n).axes for im in ax.images]
        obs.ok(len(ims) == 1, 'drawn', '%s: %d images were drawn' % (what, len(ims)))
        im = ims[0]
        a = np.ma.filled(np.ma.asarray(im.norm(np.ma.asarray(im.get_array()).astype(float))), np.nan).astype(float)
        lum = im.cmap(np.linspace(0, 1, 9))[:, :3] @ np.array([.299, .587, .114])
        origin = im.origin
        up = im.axes.get_ylim()
        right = im.axes.get_xlim()
    plt.close('all')
    return ret, a, lum, origin == 'upper' and up[0] > up[1] and right[0] < right[1]


def judge(obs, what, P, got, tie=None):
    ret, a, lum, upright = got
    good = a.shape == P.shape and (np.abs(a - P) <= 1e-6) if tie is None else (a.shape == P.shape and ((np.abs(a - P) <= 1e-6) | (tie & ((a == 0) | (a == 1)))))
    obs.ok(np.all(good), 'image', lambda: '%s: drawn values differ from the probabilities: %s' % (what, util.diff_at(a, P)))
    obs.ok(upright, 'orientation', what + ': rows are not drawn from top to bottom or columns from left to right')
    obs.ok(bool((np.diff(lum) <= 1e-9).all()) and lum[0] - lum[-1] > .5, 'colours', '%s: larger probabilities are not darker: %s' % (what, np.round(lum, 2)))
    obs.count('drawn')


def drawings(obs, rng, m, what, inferred):
    for x in c23.everything(m):
        v = np.asarray(x.val)
        if v.ndim != 2 or (v > 1).any():
            continue
        lr = x.layer
        t = np.asarray(x.trace, dtype=float) if inferred and not x.fixed else v[None].astype(float)
        mean = t.mean(0)
        for tech in ('mean', 'map', 'state'):
            if rng.random() < .4:
                continue
            P = (1 + (v if tech == 'state' else mean)) / 2.
            tie = None
            if tech == 'map':
                tie = mean == 0
                if x.fixed:             # a missing entry is not on
                    tie = np.zeros(mean.shape, dtype=bool)
                    obs.count('fixed_with_missing', (v == 0).any())
                P = (mean > 0).astype(float)
                obs.count('uncertain_entries', ((mean > -1) & (mean < 1)).sum())
            w = '%s, show(%r) of a matrix %s of %s' % (what, tech, list(v.shape), lr.model if lr is not None else 'data')
            keep = [c23.state(y) for y in c23.parts(m)]
            judge(obs, w, P, figure(obs, w, lambda plt: x.show(tech) if tech != 'mean' or rng.random() < .5 else x.show()), tie)
            obs.ok(keep == [c23.state(y) for y in c23.parts(m)] and (not inferred or x.fixed or np.array_equal(t, x.trace)), 'purity', w + ': drawing changed the machine')
            obs.count(tech + 's')
            obs.count('without_negative', tech != 'map' and not (2 * P - 1 < 0).any())
            obs.count('before_inference', not inferred)
            obs.saw(tech, core.digest(P))
        if rng.random() < .3:
            bad = str(rng.choice(['median', 'MAP', '', 'mode']))
            try:
                with core.quiet():
                    x.show(bad)
            except Exception:
                obs.count('refused')
            else:
                obs.fail('technique', 'show(%r) was accepted' % bad)


def show(case, obs, rng):
    core.load()
    import lom.auxiliary_functions as aux
    for trial in range(6):
        with Api('building'):
            m, layers, desc = c23.assemble(rng, Mute())
        c23.dress(rng, m, layers, fix=True)
        for l in layers:
            if l.model == 'OR-AND-IBP':
                l.alpha = 1.
        if trial % 2:
            drawings(obs, rng, m, desc + ', before inference', False)
        S = int(rng.choice([1, 3, 4, 6]))
        with Api('infer'):
            m.infer(no_samples=S, burn_in_min=1, burn_in_max=3)
        if rng.random() < .4:       # on everywhere
            for f in layers[0].factors:
                if not f.fixed:
                    f.trace = np.abs(f.trace)
                    k = tuple(rng.integers(0, n) for n in f.trace.shape)
                    f.trace[k] = -1 if S > 1 else 1
        drawings(obs, rng, m, '%s, %d samples' % (desc, S), True)
    for trial in range(20):
        shape = util.dims(rng, 2, 1, 9)
        kind = trial % 4
        if kind == 0:
            M = rng.random(shape)
        elif kind == 1:
            M = util.data(rng, shape, .5, .2)
        elif kind == 2:
            M = rng.uniform(-1, 1, shape)
        else:
            M = (rng.random(shape) < .5).astype([np.int8, bool, float][int(rng.integers(3))])
        P = M.astype(float)
        if (P < 0).any():
            P = (1 + P) / 2
        before = M.copy()
        kw = {}
        if rng.random() < .3:
            kw['draw_cbar'] = False
        what = 'plot_matrix of a %s matrix %s' % (M.dtype, list(shape))
        if trial % 5 == 4:
            what = 'plot_matrix_ax of a %s matrix %s' % (M.dtype, list(shape))
            got = figure(obs, what, lambda plt: aux.plot_matrix_ax(M, plt.figure().add_subplot(111)))
            obs.ok(got[0][0].images and got[0][1] is got[0][0].images[0], 'returned', what + ': does not return the axes and what was drawn')
        elif kw:
            got = figure(obs, what, lambda plt: aux.plot_matrix(M, **kw))
            obs.ok(len(got[0][0].axes) == 1, 'bar', what + ': a colour bar was drawn')
        else:
            def both(plt):
                r = aux.plot_matrix(M)
                obs.ok(len(r[0].axes) == 2, 'bar', what + ': %d axes, expected image and colour bar' % len(r[0].axes))
                for ax in r[0].axes[1:]:        # its colours are not a second image
                    for im in list(ax.images):
                        im.remove()
                return r
            got = figure(obs, what, both)
            obs.ok(got[0][1] in got[0][0].axes and len(got[0][1].images) == 1, 'returned', what + ': does not return the figure and the axes drawn on')
        judge(obs, what, P, got)
        obs.ok(np.array_equal(M, before), 'caller', what + ": the caller's matrix was changed")
        obs.count('direct')
    obs.sample = {'machine': desc, 'samples': S}


class Mute(object):
    def count(self, *a):
        pass


class Printer(object):
    """stands in for stdout: every progress report is stored with the sweeps completed and the dispersions at that moment"""
    def __init__(self, sweeps, lbdas):
        self.sweeps, self.lbdas, self.reports, self.text = sweeps, lbdas, [], ''

    def write(self, s):
        self.text += s
        for g in re.finditer(r'iteration:?\s+(\d+)([^\r\n]*)', s):
            tail = g.group(2)
            nums = [float(x) for x in re.findall(r'(?<![\w.])-?\d+(?:\.\d+)?(?:e-?\d+)?|nan|inf', tail)]
            self.reports.append((int(g.group(1)), nums, self.sweeps(), [np.array(l.val, dtype=float) for l in self.lbdas], s))
        return len(s)

    def flush(self):
        pass


def numbers(l, v):
    """expected numbers and tolerances for a dispersion"""
    if l.layer.model == 'MAX-AND':
        return [(100. * x, .0551) for x in np.atleast_1d(v)]
    return [(1 / (1 + np.exp(-float(v))), .000501)]


def report(case, obs, rng):
    for trial in range(14):
        with Api('building'):
            m, layers, desc = c23.assemble(rng, Mute())
        c23.dress(rng, m, layers, fix=True)
        free_l = [l.lbda for l in layers if not l.lbda.fixed]
        for l in layers:
            if l.model == 'OR-AND-IBP':
                l.alpha = 1.
            lb = l.lbda
            v = np.asarray(lb.val, dtype=float)
            with Api('print_value'):
                txt = lb.print_value()
            got = [float(x) for x in re.findall(r'-?\d+(?:\.\d+)?(?:e-?\d+)?|nan|inf', str(txt))]
            exp = numbers(lb, v)
            obs.ok(len(got) == len(exp) and all(abs(a - e) <= tol for a, (e, tol) in zip(got, exp)), 'print_value',
                   lambda: 'print_value of a dispersion %s of %s is %r' % (v, l.model, txt))
            obs.ok(repr(l) == '%s_%dD' % (l.model.replace('-', '_'), len(l.factors)), 'name', 'a layer %s with %d factors is called %r' % (l.model, len(l.factors), repr(l)))
            obs.count('named')
        S = int(rng.choice([1, 5, 12, 20]))
        kw = dict(no_samples=S, burn_in_min=int(rng.choice([0, 3, 7, 12])), burn_in_max=int(rng.choice([0, 6, 14, 30])), print_step=int(rng.choice([1, 2, 3, 5])),
                  convergence_window=int(rng.choice([2, 3, 5])), convergence_eps=float(rng.choice([1e-4, .1, 1.])))
        what = '[%s], %s' % (desc, kw)
        tap = Tap(m, limit=20000).install()
        n = len(tap.objs)
        n, timer = (n, 'm') if n else (len(tap.lbdas), 'l')     # what is updated once per sweep
        if not n:
            tap.remove()
            continue
        m.anneal = bool(trial % 4 == 1 and tap.objs and kw['burn_in_min'] > 0 and not any(l.model == 'MAX-AND' for l in layers))
        obs.count('annealed', m.anneal)
        done = lambda: sum(e[0] == timer for e in tap.events)
        pr = Printer(lambda: done() / float(n), free_l)
        old = sys.stdout
        with Api('infer ' + what):
            keep, sys.stdout = sys.stdout, pr
            try:
                m.infer(**kw)
            finally:
                sys.stdout = keep
        tap.remove()
        T = done() // n
        burn = T - S
        step = kw['print_step']
        obs.ok(done() == T * n and burn >= 0, 'sweeps', '%s: %d updates of %d members' % (what, done(), n))
        first, second = [r for r in pr.reports if r[2] <= burn], [r for r in pr.reports if r[2] > burn]
        pre = min(kw['burn_in_min'], burn)
        for k, nums, s, vals, txt in pr.reports:
            good = k in (int(s), int(s) + 1) if s <= burn else k == s - burn
            obs.ok(s == int(s) and good, 'iteration', lambda: '%s: %r was reported after %.1f sweeps (%d of them burn-in)' % (what, txt, s, burn))
            exp = [e for l, v in zip(free_l, vals) for e in numbers(l, v)]
            obs.ok(len(nums) == len(exp) and all(abs(a - e) <= tol for a, (e, tol) in zip(nums, exp)), 'reported_value',
                   lambda: '%s: reported %r while the dispersions are %s (%s)' % (what, txt, vals, [l.layer.model for l in free_l]))
            obs.count('reports')
            obs.count('reported_values', len(exp))
            obs.count('max_and_values', sum(l.layer.model == 'MAX-AND' for l in free_l))
            obs.saw('report', txt)
        obs.ok([r[0] for r in second] == list(range(step, S + 1, step)), 'sampling_reports',
               lambda: '%s: reports %s in the sampling phase' % (what, [r[0] for r in second]))
        exp = list(range(step, pre + 1, step)) + list(range(kw['burn_in_min'] + step, burn + 2, step))
        got = [r[0] for r in first]
        # the iteration that ends burn-in draws nothing; whether it is reported does not matter
        obs.ok([k for k in got if k <= burn] == [k for k in exp if k <= burn] and len(got) - len([k for k in got if k <= burn]) <= 1, 'burn_in_reports',
               lambda: '%s: reports %s in a burn-in of %d sweeps, expected %s' % (what, got, burn, exp))
        obs.count('burn_in_reports', len(first))
        obs.count('sampling_reports', len(second))
        obs.ok(m.burn_in_iters in (burn, burn + 1), 'burn_in_iters', '%s: %r burn-in iterations are reported, %d were run' % (what, m.burn_in_iters, burn))
        by_max = 'without convergence' in pr.text
        conv = 'converged at' in pr.text
        obs.ok(by_max or conv, 'outcome', what + ': it is not reported how burn-in ended')
        if by_max != conv:
            obs.ok((burn < max(kw['burn_in_max'], kw['burn_in_min'])) <= conv, 'outcome', lambda: '%s: burn-in of %d sweeps is reported as %s' % (what, burn, 'converged' if conv else 'not converged'))
            obs.count('ended_by_convergence' if conv else 'ended_by_max')
        obs.count('several_dispersions', len(free_l) > 1)
        obs.count('inferences')
    obs.sample = {'machine': desc, 'settings': kw, 'reports': [r[4].strip()[:60] for r in pr.reports[:3]]}


def run(case, obs):
    rng = util.rng_of('c24', case)
    {'show': show, 'report': report}[case['kind']](case, obs, rng)

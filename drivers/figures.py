"""The drawing functions, with what they show or write looked at instead of displayed."""
import copy, argparse
from collections import defaultdict
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
from matplotlib.quiver import Quiver
from drv import *
from models import *
import neuro_shooting.shooting_hooks as sh_
import neuro_shooting.vector_visualization as vv
torch.set_default_dtype(torch.float64)
Q = 10 ** 5
SYSTEM = []


def fake_system(cmd):
    SYSTEM.append(cmd)
    return 1


os.system = fake_system       # image conversion is an external program
plt.tight_layout = lambda *a, **k: None     # needs LaTeX with the settings for printing
matplotlib.figure.Figure.tight_layout = lambda *a, **k: None


def content(fig):
    out = []
    for ax in fig.axes:
        lines = [dict(x=qt(np.asarray(ln.get_xdata()).reshape(-1), Q), y=qt(np.asarray(ln.get_ydata()).reshape(-1), Q)) for ln in ax.get_lines()]
        arrows = [dict(x=qt(c.X, Q), y=qt(c.Y, Q), u=qt(np.asarray(c.U).reshape(-1), Q), v=qt(np.asarray(c.V).reshape(-1), Q)) for c in ax.collections if isinstance(c, Quiver)]
        out.append(dict(lines=lines, arrows=arrows))
    return out


class Look:
    """records figures when they are shown or written"""

    def __init__(self):
        self.figs, self.cur = [], None
        plt.show = lambda *a, **k: self.show()
        plt.savefig = lambda fn, *a, **k: self.save(fn)
        matplotlib.figure.Figure.savefig = lambda fig, fn, *a, **k: self.save(fn, fig=fig)

    def entry(self, fig, how, file='', fmt=''):
        ax = fig.axes[0] if fig.axes else None
        return dict(fig=fig, how=how, axes=content(fig), ylabel=ax.get_ylabel() if ax else '', title=ax.get_title() if ax else '', file=file, formats=[fmt] if fmt else [],
                    own=not matplotlib.rcParams['text.usetex'] and matplotlib.get_backend().lower() == 'agg')

    def show(self, *a, **k):
        for n in plt.get_fignums():
            self.figs.append(self.entry(plt.figure(n), 'show'))
        plt.close('all')

    def save(self, fn, *a, fig=None, **k):
        fig = fig or plt.gcf()
        base, ext = os.path.splitext(str(fn))
        last = self.figs[-1] if self.figs else None
        if last and last['how'] == 'save' and last['fig'] is fig and last['file'] == base:
            last['formats'] = sorted(last['formats'] + [ext[1:]])
        else:
            self.figs.append(self.entry(fig, 'save', base, ext[1:]))


def series(v):
    a = np.asarray(v, dtype=float)
    a = a.reshape(a.shape[0], -1)
    return [qt(a[:, j], Q) for j in range(a.shape[1])]


def rows(a):
    return qt(np.asarray(a, dtype=float)[:, 0, :], Q)


def paths(y):
    y = np.asarray(y.detach() if torch.is_tensor(y) else y, dtype=float)
    return [dict(x=qt(y[:, n, 0, 0], Q), y=qt(y[:, n, 0, 1], Q)) for n in range(y.shape[1])]


def settings():
    return (matplotlib.get_backend().lower(), {k: str(v) for k, v in matplotlib.rcParams.items() if k != 'backend'})


def same(a, b):
    if torch.is_tensor(a):
        return torch.is_tensor(b) and torch.equal(a, b)
    if isinstance(a, np.ndarray):
        return np.array_equal(a, b)
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


def run(rec):
    sh, ns = int(os.environ['VERIF_SHARD']), int(os.environ['VERIF_SHARDS'])
    cs = cases()
    rng('figures-pick').shuffle(cs)
    cs.sort(key=lambda c: len(c['calls']))
    if not THOROUGH:
        cs = cs[:150]
    for i, c in enumerate(cs * (3 if THOROUGH else 2)):
        if i % ns != sh:
            continue
        r = seed_all('figures', i)
        m = r.choice(['Simple', 'UpDown', 'Universal', 'Periodic', 'Dampened', 'Symmetrized', 'SecondOrder', 'Debug'])
        name = r.choice(['b', 'simple', 'block1', 'trunk', 'energy_block', 't', 'dot', 'state'])
        n, infl, rws = r.randint(1, 3), r.choice([1, 2]), r.randint(1, 3)
        sig = '%s %s n=%d infl=%d %s' % (m, name, n, infl, ' '.join(c['calls']))
        with guard(rec, sig):
            mod = make(m, 'tanh', n, 1, 2, infl, None)
            b = block(name, mod, method='euler', step=.5)
            x = torch.randn(rws, 1, 2)
            with quiet():
                b(x)
                with torch.no_grad():
                    for p in b.parameters():
                        p.normal_(std=.5)
                data = defaultdict(list)
                h = mod.register_lagrangian_gradient_hook(sh_.parameter_evolution_hook)
                mod.set_custom_hook_data(data=data)
                b.set_integration_time_vector(torch.tensor([0., .5, 1., 1.5]), suppress_warning=True)
                y = b(x)[0]
                h.remove()
            plt.close('all')
            rec.emit('Start', sig)
            for j, cl in enumerate(c['calls']):
                kind, mode = cl.split(':')
                look = Look()
                before = settings()
                d = 'out%d_%d' % (i, j)
                args = None if mode == 'none' else argparse.Namespace(viz=mode in ('show', 'both'), save_figures=mode in ('save', 'both'), output_directory=d, output_basename='o')
                csig = '%s call %d' % (sig, j)
                wrap = r.choice([lambda v: v, lambda v: v.detach(), lambda v: v.detach().numpy()])
                val, pred = wrap(y + torch.randn(y.shape)), wrap(y)
                call = dict(kind=kind, mode=mode, particles=True, series=[], t=qt(data['t'], Q), label='basic', max=10, truth=[], paths=[], q1=[], p1=[], q2=[], p2=[])
                sd = {k: v.detach().clone() for k, v in b.state_dict().items()}
                must = lambda e: True
                if kind == 'temporal':
                    for k in list(data):
                        if k != 't' and not k.startswith(name + '.dot_'):
                            call['series'].append(dict(label=k, ys=series(data[k])))
                    fn = lambda: vv.plot_temporal_data(data=data, block_name=name, args=args)
                    keep = [copy.deepcopy(dict(data))]
                    now = lambda: [dict(data)]
                    frame = lambda e, k: 0
                elif kind == 'basic':
                    call['particles'] = r.random() < .7
                    train = r.random() < .5
                    tv, tp = wrap(y[:2] * 2), wrap(y[:2] + 1)
                    call['truth'] = paths(val) + paths(pred) + (paths(tv) + paths(tp) if train else [])
                    losses = dict(model_name='m_1', loss=r.uniform(0, 5), sim_loss=r.uniform(0, 5), norm_loss=r.uniform(0, 5), par_norm=r.uniform(0, 5)) if r.random() < .6 else None
                    pars = dict(overall=r.randint(1000, 2000), fixed=r.randint(100, 200), optimized=r.randint(800, 900)) if r.random() < .5 else None
                    itr = r.randint(0, 3000)
                    want = ['%d' % itr] + ([] if losses is None else ['%.4f' % losses[k] for k in ('loss', 'sim_loss', 'norm_loss', 'par_norm')]) + ([] if pars is None else ['%d' % v for v in pars.values()])
                    must = lambda e, want=want: all(w in e['title'] for w in want)
                    q2 = 'q2' in sd
                    call.update(q1=rows(sd['q1']), p1=rows(sd['p_q1']), q2=rows(sd['q2']) if q2 else [], p2=rows(sd['p_q2']) if q2 else [])
                    kw = dict(train_y=tv, train_pred_y=tp, train_t=data['t'][:2]) if train else {}
                    fn = lambda: vv.basic_visualize(b, val, pred, torch.tensor(data['t']), itr=itr, uses_particles=call['particles'], losses_to_print=losses, nr_of_pars=pars, args=args, **kw)
                    keep = [copy.deepcopy(v.detach() if torch.is_tensor(v) else v) for v in (val, pred, tv, tp)] + [sd]
                    now = lambda: [v.detach() if torch.is_tensor(v) else v for v in (val, pred, tv, tp)] + [{k: v.detach() for k, v in b.state_dict().items()}]
                    frame = lambda e, k: 0
                else:
                    call['mode'] = 'save' if mode == 'save' else 'show'
                    g = lambda key: [rows(v) for v in data[name + key]]
                    q2 = (name + '.state.q2') in data
                    mx = r.choice([1, 2, 3, 10])
                    call.update(max=mx, truth=paths(val), paths=paths(np.stack(data[name + '.data.q1'])), q1=g('.state.q1'), p1=g('.costate.p_q1'), q2=g('.state.q2') if q2 else [], p2=g('.costate.p_q2') if q2 else [])
                    fn = lambda: vv.visualize_time_evolution(val, data=data, block_name=name, max_display=mx, **(dict(save_to_directory=d) if mode == 'save' else {}))
                    keep = [copy.deepcopy(dict(data)), copy.deepcopy(val.detach() if torch.is_tensor(val) else val)]
                    now = lambda: [dict(data), val.detach() if torch.is_tensor(val) else val]
                    must = lambda e: '%.2f' % data['t'][min(e['frame'], len(data['t'])) - 1] in e['title']
                    frame = lambda e, k: k + 1
                rec.emit('Call', csig, **call)
                with quiet():
                    fn()
                for k, e in enumerate(look.figs):
                    lab = 'basic'
                    if kind == 'temporal':
                        lab = e['ylabel']
                        for s in call['series']:
                            if e['how'] == 'save' and lab == s['label'].replace('_', '\\_'):
                                lab = s['label']
                                break
                    elif kind == 'evolution':
                        lab = 'evolution'
                    e['frame'] = frame(e, k)
                    own = e['own'] if kind != 'evolution' else e['own'] == (e['how'] == 'show' or e['own'])
                    if kind == 'evolution' and e['how'] == 'save':
                        own = False     # frames of an animation are written with the user's settings
                    rec.emit('Figure', '%s figure %d' % (csig, k), how=e['how'], axes=e['axes'], label=lab, frame=e['frame'], formats=e['formats'], file=e['file'], own=own, titled=bool(must(e)))
                after = settings()
                rec.emit('Return', csig, settings=before == after, data=same(keep, now()), open=len(plt.get_fignums()))
                if before != after:
                    matplotlib.rcdefaults()
                plt.close('all')


main(run)

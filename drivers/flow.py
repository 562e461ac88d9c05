"""Transports batches of data with real blocks: the same samples in different company."""
from drv import *
from models import *
torch.set_default_dtype(torch.float64)
SC = 1e6


def setups():
    out = []
    for m in VEC + CONV:
        for mode in ['auto', 'rnn', 'pf', 'pft'] + (['analytic'] if m in ANALYTIC else []) + (['dic'] if m in ('UpDown', 'Universal', 'Periodic', 'General') else []):
            out.append((m, mode))
    return out


def flat(dd):
    return torch.cat([dd[b][k].detach().reshape(-1) for b in dd for k in dd[b]])


def run_setup(rec, r, i, m, mode, batches):
    conv = m in CONV
    n, f, infl = r.choice([2, 3]), r.choice([2, 3]), r.choice([1, 2])
    d = 1 if not conv else r.choice([1, 2])
    nl = r.choice(['tanh', 'relu', 'sigmoid', 'softmax', 'identity'])
    sig = '%s %s %s n=%d d=%d f=%d infl=%d' % (m, mode, nl, n, d, f, infl)
    seed_all('flow', i)
    kw, bk = {}, {}
    if mode == 'rnn':
        kw['use_rnn_mode'] = True
    if mode == 'analytic':
        kw['use_analytic_solution'] = True
    if mode == 'dic':
        kw.update(optimize_over_data_initial_conditions=True, optimize_over_data_initial_conditions_type=r.choice(['direct', 'linear', 'mini_nn']))
        sig += ' ' + kw['optimize_over_data_initial_conditions_type']
    if mode == 'pf':
        bk['use_particle_free_rnn_mode'] = True
    if mode == 'pft':
        bk.update(use_particle_free_time_dependent_mode=True, nr_of_particle_free_time_dependent_steps=3)
    with guard(rec, sig + ' setup'):
        mod = make(m, nl, n=n, d=d, f=f, infl=infl, **kw)
        b = block('b', mod, method=r.choice(['rk4', 'midpoint']), step=.25, **bk)
        if mode == 'dic':
            for p in mod.parameters():
                p.data.normal_(std=.5)
        far = r.choice([1., 1., 4., 150.])
        xs = torch.randn(*([6] + shape(m, 'q1', 6, d, f, infl)[1:])) * far
        with quiet():
            init = mod.get_initial_data_dict_from_data_tensor(xs)
        # particles 1 and 2 start where samples 1 and 2 start
        own = dict(b.named_parameters())
        placed = mode not in ('pf', 'pft') and all(k in own for k in KEYS[m])
        if placed:
            for k in KEYS[m]:
                own[k].data[:2] = init[k].detach()[:2]
            for k in KEYS[m]:
                own['p_' + k].data.normal_(std=.5 if far < 10 else .3 / far)
        rec.emit('Start', sig)
        hist = []
        h = mod.register_lagrangian_gradient_hook(lambda *a: hist.append(a[8]))
    for ids in batches:
        with guard(rec, sig + ' batch %s' % ids):
            del hist[:]
            with quiet(), grad_mode(r):
                res, st, co, da = b(layout(xs[[j - 1 for j in ids]], r))
            assert len(st) == 1 and len(da) == 1
            dd, sd = list(da.values())[0], list(st.values())[0]
            rows = [torch.cat([dd[k][j].detach().reshape(-1) for k in dd] + [res[j].detach().reshape(-1)]) for j in range(len(ids))] if res.shape[0] == len(ids) else []
            pars = torch.cat([v.detach().reshape(-1) for o in hist[-1] for v in hist[-1][o].get_parameter_dict().values()])
            rec.emit('Pass', sig + ' batch %s' % ids, ids=ids, out=[qt(v, SC) for v in rows],
                     particles=[qt(torch.cat([sd[k][j].detach().reshape(-1) for k in sd] + [sd['q1'][j].detach().reshape(-1)]), SC) for j in range(2)] if placed else [],
                     fin=qt(torch.cat([flat(st), flat(co), pars]), SC), tol=3)


def run(rec):
    r = rng('flow')
    bs = [c['ids'] for c in cases()]
    for i, (m, mode) in enumerate(setups() * (4 if THOROUGH else 1)):
        if i % int(os.environ['VERIF_SHARDS']) != int(os.environ['VERIF_SHARD']):
            continue
        pick = [[1, 2, 3, 4]] + r.sample(bs, 8 if THOROUGH else 5) + [r.choice([[5, 6, 5], [3], [6, 5, 4, 3, 2, 1]])]
        if i % 3 == 0:      # many samples at once
            pick.append([1 + r.randrange(6) for _ in range(r.choice([65, 80, 130, 300]))])
        run_setup(rec, r, i, m, mode, pick)


main(run)

"""Real convolutional blocks get smaller states passed through; the states at the first evaluation are recorded."""
from drv import *
from models import *
torch.set_default_dtype(torch.float64)


def one(rec, i, m, c, npt, zero, r):
    n, h, w, infl = c['n'], c['h'], c['w'], r.choice([1, 2])
    d = r.randint(1, 2)
    chans = [r.randint(1, 2) for _ in range(npt)]
    sig = '%s own %dx%dx%d smaller by %s channels %s%s' % (m, n, h, w, [(c['dn'], c['dh'], c['dw'])] + ([(c['dw'] % n, c['dn'] % h, c['dh'] % w)] if npt > 1 else []), chans, ' zero' if zero else '')
    with guard(rec, sig), quiet():
        seed_all('enlarge', i)
        mod = make(m, 'tanh', n, d, h, infl, None, in_features=d + sum(chans), particle_size=[h, w])
        b = block('m', mod, method='euler', step=1., keep_initial_state_parameters_at_zero=zero)
        sd, cd, dd = SortedDict(), SortedDict(), SortedDict()
        info, base = {}, 0
        names = r.sample(['a', 'k', 'z', 'with.dot'], npt)
        for k in range(npt):
            cut = (c['dn'], c['dh'], c['dw']) if k == 0 else (c['dw'] % n, c['dn'] % h, c['dh'] % w)
            for dct, pre in ((sd, ''), (cd, 'p_'), (dd, None)):
                blk = SortedDict()
                for key in KEYS[m]:
                    ch = chans[k] * (infl if key == 'q2' and m in INFLATED else 1)
                    s = [n - cut[0], ch, h - cut[1], w - cut[2]]
                    if pre is None:
                        blk[key] = torch.randn(2, ch, h, w)
                    else:
                        # q2 of some blocks already has the right size
                        if key == 'q2' and i % 4 == 3:
                            s = [n, ch, h, w]
                        blk[pre + key] = torch.zeros(s)
                        info[(pre, names[k], key)] = (s, [n, ch, h, w])
                dct[names[k]] = blk
        own = set(nm for nm, p in b.named_parameters())
        first = []
        mod.register_lagrangian_gradient_hook(lambda *a: first.append((a[2], a[3])) if not first else None)
        call = lambda: b(pass_through_state_dict_of_dicts=sd, pass_through_costate_dict_of_dicts=cd, data_dict_of_dicts=dd)
        call()
        count = 0
        for nm, p in b.named_parameters():
            if nm not in own:
                with torch.no_grad():
                    p.copy_((torch.arange(p.numel()) + 1 + count).view(p.shape))
                count += p.numel()
        for (pre, nm, key), (s, t) in info.items():
            (cd if pre else sd)[nm][pre + key] = -(torch.arange(int(np.prod(s))) + 1).double().view(s)
        for again in range(2 if i % 5 == 0 else 1):
            del first[:]
            call()
            items = []
            for (pre, nm, key), (s, t) in info.items():
                g = first[0][1 if pre else 0][nm][pre + key]
                items.append(dict(s=s, t=t, g=list(g.shape), v=qt(g.reshape(-1), 1), zero=bool(zero and not pre)))
            rec.emit('Enlarge', sig + ' pass %d' % again, items=items, nparam=count)


def refuse(rec, i, m, big, r):
    n, h, w = 2, 3, 3
    sig = '%s refuse larger by %s' % (m, big)
    with guard(rec, sig), quiet():
        mod = make(m, 'tanh', n, 1, h, 1, None, in_features=2, particle_size=[h, w])
        b = block('m', mod, method='euler', step=1.)
        s = [n + big[0], 1, h + big[1], w + big[2]]
        mk = lambda pre: SortedDict({'a': SortedDict({pre + k: torch.randn(*s) for k in KEYS[m]})})
        st, _ = attempt(b, pass_through_state_dict_of_dicts=mk(''), pass_through_costate_dict_of_dicts=mk('p_'), data_dict_of_dicts=SortedDict({'a': SortedDict({k: torch.randn(2, 1, h, w) for k in KEYS[m]})}))
        rec.emit('Reject', sig, raised=st == 'raise')


def run(rec):
    cs = cases()
    r = rng('enlarge')
    for _ in range(60 if THOROUGH else 24):
        n, h, w = r.choice([1, 2, 5, 8]), r.randint(4, 9), r.randint(4, 9)
        cs.append(dict(n=n, h=h, w=w, dn=r.randrange(n), dh=r.randrange(h), dw=r.randrange(w)))
    sh, ns = int(os.environ['VERIF_SHARD']), int(os.environ['VERIF_SHARDS'])
    for i, c in enumerate(cs):
        npt, zero = r.choice([1, 1, 2, 3]), r.random() < .25
        if i % ns == sh:
            one(rec, i, CONV[i % 3], c, npt, zero, rng('enl', i))
    if sh == 0:
        for i, big in enumerate([(1, 0, 0), (0, 1, 0), (0, 0, 1), (1, -1, -1), (-1, 2, -1), (-1, -1, 1), (1, 1, 1)]):
            for m in CONV:
                refuse(rec, i, m, big, r)
        # nothing to enlarge: vector models, switched off
        for m in ('UpDown', 'Simple'):
            with guard(rec, '%s vectors are not enlarged' % m), quiet():
                mod = make(m, 'tanh', 2, 1, 2, 2, None, blocks=2)
                b = block('m', mod)
                mk = lambda pre: SortedDict({'a': SortedDict({pre + k: -(torch.arange(int(np.prod(shape(m, k, 2, 1, 2, 2)))) + 1).double().view(shape(m, k, 2, 1, 2, 2)) for k in KEYS[m]})})
                first = []
                mod.register_lagrangian_gradient_hook(lambda *a: first.append((a[2], a[3])) if not first else None)
                own = len(list(b.named_parameters()))
                b(pass_through_state_dict_of_dicts=mk(''), pass_through_costate_dict_of_dicts=mk('p_'), data_dict_of_dicts=mk(''))
                items = [dict(s=shape(m, k, 2, 1, 2, 2), t=shape(m, k, 2, 1, 2, 2), g=list(first[0][j]['a'][pre + k].shape), v=qt(first[0][j]['a'][pre + k].reshape(-1), 1), zero=False) for j, pre in ((0, ''), (1, 'p_')) for k in KEYS[m]]
                rec.emit('Enlarge', '%s vectors are not enlarged' % m, items=items, nparam=len(list(b.named_parameters())) - own)


main(run)

"""C21: custom gated recurrent unit."""
import math
import numpy as np
from vf.engine import case, stable_rng
FUNCTIONS = ['GRUCell.__init__', 'GRUCell.forward', 'GRU.__init__', 'GRU.forward', 'GRURNNModel.__init__', 'GRURNNModel.forward']
ASSUMPTIONS = ['sizes (input, hidden, batch, layers, length) are enumerated up to 3, weights and inputs are arbitrary',
               'sigmoid and tanh are uninterpreted functions of their exact arguments',
               'the layer loop and the time loop of GRU are also checked against arbitrary cells (the contract of GRUCell)']
GV = 'model_architectures.rnn_base_model.custom.gru_vmap'
GM = 'model_architectures.rnn_base_model.model.gru_model'


def act(B, name, x):
    if B.sym:
        return B.val(getattr(B.torch, name)(B.tensor(x)))
    return math.tanh(x) if name == 'tanh' else 1 / (1 + math.exp(-x))


def ref_cell(B, w, x, h):
    """Standard gated recurrent unit for one sample; w = (w_ih, w_hh, b_ih, b_hh), gates stacked reset, update, candidate."""
    wi, wh, bi, bh = w
    H = len(h)
    gi = [sum(wi[k][q] * x[q] for q in range(len(x))) + bi[k] for k in range(3 * H)]
    gh = [sum(wh[k][q] * h[q] for q in range(H)) + bh[k] for k in range(3 * H)]
    out = []
    for k in range(H):
        r = act(B, 'sigmoid', gi[k] + gh[k])
        z = act(B, 'sigmoid', gi[H + k] + gh[H + k])
        n = act(B, 'tanh', gi[2 * H + k] + r * gh[2 * H + k])
        out.append((1 - z) * n + z * h[k])
    return out


def weights(B, name, I, H, bias=True):
    wi, wh = B.mat(name + 'wi', 3 * H, I, dist=(-1, 1)), B.mat(name + 'wh', 3 * H, H, dist=(-1, 1))
    z = [B.num(0)] * (3 * H)
    bi, bh = (B.vec(name + 'bi', 3 * H, dist=(-1, 1)), B.vec(name + 'bh', 3 * H, dist=(-1, 1))) if bias else (z, z)
    return wi, wh, bi, bh


def load(B, cell, w, bias=True):
    with B.torch.no_grad():
        cell.w_ih.copy_(B.tensor(w[0]))
        cell.w_hh.copy_(B.tensor(w[1]))
        if bias:
            cell.b_ih.copy_(B.tensor(w[2]))
            cell.b_hh.copy_(B.tensor(w[3]))


@case('C21', params=[('%d-%d%s' % (i, h, '' if b else ',no bias'), dict(I=i, H=h, bias=b)) for i, h, b in
                     ((1, 1, True), (2, 1, True), (1, 2, True), (3, 2, True), (2, 3, True), (2, 2, False))], ntrials=4)
def cell(B, I, H, bias):
    w = weights(B, 'c', I, H, bias)
    c = B.mod(GV).GRUCell(I, H, bias=bias) if not bias else B.mod(GV).GRUCell(I, H)
    B.true('weight shapes', tuple(c.w_ih.shape) == (3 * H, I) and tuple(c.w_hh.shape) == (3 * H, H) and
           tuple(c.b_ih.shape) == (3 * H,) and tuple(c.b_hh.shape) == (3 * H,))
    B.true('learnable weights', len(list(c.parameters())) == (4 if bias else 2))
    load(B, c, w, bias)
    for N in (0, 1, 2, 3):
        n = max(N, 1)
        x, h = B.mat('x%d' % N, n, I, dist=(-1, 1)), B.mat('h%d' % N, n, H, dist=(-1, 1))
        tx, th = B.tensor(x if N else x[0]), B.tensor(h if N else h[0])
        keep = B.frozen('input', [tx, th, c.w_ih, c.w_hh, c.b_ih, c.b_hh])
        y = c(tx, th)
        want = [ref_cell(B, w, x[i], h[i]) for i in range(n)]
        B.true('shape', tuple(y.shape) == ((N, H) if N else (H,)))
        B.eq('gated recurrent unit', y, want if N else want[0])
        y0 = c(tx)
        want = [ref_cell(B, w, x[i], [B.num(0)] * H) for i in range(n)]
        B.eq('missing state is zero', y0, want if N else want[0])
        keep()


@case('C21', params=[('%dx%d' % (l, t), dict(L=l, T=t)) for l in (1, 2, 3) for t in (1, 2, 3)], ntrials=1)
def stack(B, L, T):
    """Layers and time steps chain the cells, whatever the cells compute."""
    from vf import terms as tm
    I, H = 2, 3
    for N in (0, 1, 2):
        n = max(N, 1)
        calls = []
        g = B.mod(GV).GRU(I, H, num_layers=L)
        B.true('one cell per layer', len(g.gru_layers) == L)
        B.true('cell sizes', [(q.input_size, q.hidden_size) for q in g.gru_layers] == [(I, H)] + [(H, H)] * (L - 1))

        class Cell(B.nn.Module):
            def __init__(self, l):
                super().__init__()
                self.l = l

            def forward(self, x, hx=None):
                o = np.empty((n, H), object)
                for p in np.ndindex(n, H):
                    o[p] = (tm.var('cell%d!%d_%d_%d' % (self.l, len(calls), p[0], p[1])) if B.sym else
                            B.num(round(stable_rng('cell', self.l, len(calls), p).uniform(-1, 1), 3)))
                calls.append((self.l, B.arr(x).copy(), B.arr(hx).copy(), o))
                return B.tensor(o)
        for l in range(L):
            g.gru_layers[l] = Cell(l)
        for given in (True, False):
            del calls[:]
            x = B.array('x%d' % N, (T, n, I))
            h = B.array('h%d' % N, (L, n, H))
            tx, th = B.tensor(x if N else x[:, 0]), B.tensor(h if N else h[:, 0])
            keep = B.frozen('input', [tx, th])
            out, hn = g(tx, th) if given else g(tx)
            keep()
            B.true('one call per layer and step', len(calls) == L * T)
            B.true('shapes', tuple(out.shape) == ((T, N, H) if N else (T, H)) and tuple(hn.shape) == ((L, N, H) if N else (L, H)))
            if len(calls) != L * T:
                return
            state = [h[l] if given else np.full((n, H), B.num(0), object) for l in range(L)]
            o = B.arr(out).reshape(T, n, H)
            for t in range(T):
                inp = x[t]
                for l in range(L):
                    k = [c for c in calls if c[0] == l][t]
                    B.eq('layer input', k[1], inp)
                    B.eq('layer state', k[2], state[l])
                    inp = state[l] = k[3]
                B.eq('output is the top layer', o[t], inp)
            B.eq('final state of every layer', B.arr(hn).reshape(L, n, H), np.array(state, object))


@case('C21', params=[('%d,%d,%d,%d' % (i, h, l, t), dict(I=i, H=h, L=l, T=t)) for i, h, l, t in ((1, 1, 1, 3), (2, 1, 2, 2), (1, 2, 1, 2))],
      ntrials=3)
def network(B, I, H, L, T):
    """The whole network, unrolled with real cells."""
    g = B.mod(GV).GRU(I, H, num_layers=L)
    w = [weights(B, 'l%d' % l, I if l == 0 else H, H) for l in range(L)]
    for l in range(L):
        load(B, g.gru_layers[l], w[l])
    for N in (0, 2):
        n = max(N, 1)
        x, h = B.array('x%d' % N, (T, n, I), dist=(-1, 1)), B.array('h%d' % N, (L, n, H), dist=(-1, 1))
        out, hn = g(B.tensor(x if N else x[:, 0]), B.tensor(h if N else h[:, 0]))
        o, f = B.arr(out).reshape(T, n, H), B.arr(hn).reshape(L, n, H)
        for b in range(n):
            st = [list(h[l, b]) for l in range(L)]
            for t in range(T):
                inp = list(x[t, b])
                for l in range(L):
                    inp = st[l] = ref_cell(B, w[l], inp, st[l])
                B.eq('output', list(o[t, b]), inp)
            for l in range(L):
                B.eq('final state', list(f[l, b]), st[l])


@case('C21', params=[('torch', dict(src='torch')), ('custom', dict(src='custom'))], ntrials=4, sym=False,
      why='comparison with the library implementation on sampled weights; the proof is in cases cell, stack and network')
def library(B, src):
    t = B.torch
    I, H, L, T, N, O = 3, 4, 2, 5, 3, 2
    m = B.mod(GM).GRURNNModel(I, O, H, None, n_recurrent_layers=L, gru_model_source=src, is_save_model_init_file=False)
    ref = t.nn.GRU(I, H, num_layers=L)
    w = [weights(B, 'l%d' % l, I if l == 0 else H, H) for l in range(L)]
    with t.no_grad():
        for l in range(L):
            for p, q in zip(('weight_ih_l%d', 'weight_hh_l%d', 'bias_ih_l%d', 'bias_hh_l%d'), w[l]):
                getattr(ref, p % l).copy_(B.tensor(q))
                if src == 'torch':
                    getattr(m._gru_rnn_model, p % l).copy_(B.tensor(q))
            if src == 'custom':
                load(B, m._gru_rnn_model.gru_layers[l], w[l])
    A, c = B.mat('A', O, H, dist=(-1, 1)), B.vec('c', O, dist=(-1, 1))
    with t.no_grad():
        m._linear_layer.weight.copy_(B.tensor(A))
        m._linear_layer.bias.copy_(B.tensor(c))
    x, h = B.tensor(B.array('x', (T, N, I), dist=(-1, 1))), B.tensor(B.array('h', (L, N, H), dist=(-1, 1)))
    for xx, hh in ((x, h), (x, None), (x[:, 0], h[:, 0]), (x[:, 1], None)):
        o, f = m(xx, hh) if hh is not None else m(xx)
        ro, rf = ref(xx, hh) if hh is not None else ref(xx)
        B.eq('hidden', f, B.arr(rf))
        B.eq('output', o, B.arr(ro) @ np.array(A, float).T + np.array(c, float))


@case('C21', params=[('batched', dict(N=2)), ('unbatched', dict(N=0))], ntrials=3)
def model(B, N):
    """The recurrent network model: network, then the linear output layer; a missing hidden state is zero."""
    I, H, L, T, O = 2, 2, 2, 2, 3
    m = B.mod(GM).GRURNNModel(I, O, H, None, n_recurrent_layers=L, gru_model_source='custom', is_save_model_init_file=False)
    A, c = B.mat('A', O, H, dist=(-1, 1)), B.vec('c', O, dist=(-1, 1))
    with B.torch.no_grad():
        m._linear_layer.weight.copy_(B.tensor(A))
        m._linear_layer.bias.copy_(B.tensor(c))
    n = max(N, 1)
    shp = (T, N) if N else (T,)
    hshp = (L, N, H) if N else (L, H)
    y, hn = B.tensor(B.array('y', shp + (H,), dist=(-1, 1))), B.tensor(B.array('hn', hshp, dist=(-1, 1)))
    got = []

    class Net(B.nn.Module):
        def forward(self, x, h):
            got.append((x, h))
            return y, hn
    B.put(m, '_gru_rnn_model', Net())
    x = B.tensor(B.array('x', shp + (I,), dist=(-1, 1)))
    h = B.tensor(B.array('h', hshp, dist=(-1, 1)))
    for hh in (h, None):
        del got[:]
        o, f = m(x, hh) if hh is not None else m(x)
        B.true('features passed on', len(got) == 1 and got[0][0] is x)
        if hh is None:
            B.true('shape of the zero state', tuple(got[0][1].shape) == hshp)
            B.eq('missing state is zero', got[0][1], np.full(hshp, B.num(0), object) if B.sym else np.zeros(hshp))
        else:
            B.eq('state passed on', got[0][1], h)
        ya = B.arr(y)
        want = np.empty(shp + (O,), object)
        for p in np.ndindex(*shp):
            for k in range(O):
                want[p + (k,)] = sum(A[k][q] * ya[p + (q,)] for q in range(H)) + c[k]
        B.eq('linear output layer', o, want)
        B.eq('hidden state returned', f, hn)
    B.raises('features not a tensor', lambda: m([[1.0]]), RuntimeError)
    B.raises('state not a tensor', lambda: m(x, [1.0]), RuntimeError)

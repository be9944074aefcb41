"""P22: recursive feasibility and cost decrease of the closed loop."""
from record import arr, vec, typed, workspace
from fractions import Fraction as F
import gen, exact, dyn
from gen import fl, pj
from p19 import around_origin
MODELS = [dict(module='Receding.tla', cfg='MC_Receding.cfg', args=('-workers', '4')),
          dict(module='Receding.tla', cfg='MC_Receding_deep.cfg', args=('-workers', '4'), thorough=True)] + \
         [dict(module='Receding.tla', cfg='MC_Receding_bad_%s.cfg' % k, expect=e)
          for k, e in (('set', 'RecursivelyFeasible'), ('cost', 'Decrease'), ('apply', 'RecursivelyFeasible'))]

def cases(rng, tier):
    N = 450 if tier == 'quick' else 2000
    out = []
    for i in range(N):
        nx, nu = rng.choice([1, 2, 2, 2, 3]), rng.choice([1, 1, 2])
        T = rng.choice([1, 2, 3, 4, 5])
        u = rng.random()
        if u < .3:
            S = dict(nx=nx, nu=nu, A=[[F(int(j == i)) + (F(1, 4) if j == i + 1 else 0) for j in range(nx)] for i in range(nx)],
                     B=[[F(int(i == nx - 1 and j == 0)) if j == 0 else gen.dy(rng, -1, 1, 2) for j in range(nu)] for i in range(nx)], c=[F(0)] * nx)
        else:
            S = dyn.system(rng, nx, nu, False, k=1, den=4)
            if not any(any(r) for r in S['B']):
                S['B'][0][0] = F(1)
        D = around_origin(rng, nx + nu)
        Q, R = gen.spd(rng, nx, 1), gen.spd(rng, nu, 1)
        s = rng.choice([F(1), F(1), F(8), F(1, 8)])
        out.append(dict(S=dyn.sj(S), D=pj(D), Q=fl(Q), R=fl([[s * v for v in r] for r in R]), N=T, steps=12,
                        dirs=fl([gen.row(rng, nx, 2, 1) for _ in range(3)]), shrink=[rng.choice([.5, .9, .99, .999]) for _ in range(3)],
                        explicit=rng.random() < .4))
    return out

def run(case, rec):
    ws = workspace(case)
    import numpy as np
    import ocp, mpqp
    from scipy.linalg import block_diag
    from scipy.optimize import linprog
    from common import call, result, make, ev, em, fr, pol_exact, pol_enc, rpoly_of
    from pympc.control.controllers import ModelPredictiveController as MPC
    S = dyn.make_sys(case['S'], True)
    Se = dyn.sfr(case['S'])
    nx, nu, N = S.nx, S.nu, case['N']
    Q, R = arr(case['Q']), arr(case['R'])
    Rm = np.hstack([np.linalg.matrix_power(S.A, i).dot(S.B) for i in range(nx)])
    sv = np.linalg.svd(Rm)[1]
    if len(sv) < nx or sv[-1] < 1e-2:
        return
    D = make(case['D'])
    res = call(S.solve_dare, Q, R)
    if res[0] != 'ok':
        rec.emit('call', op='solve_dare', r=result(res, lambda v: {}))
        return
    P, K = res[1]
    if abs(np.linalg.eigvals(S.A + S.B.dot(K))).max() > .95 or abs(P).max() > 1e3:
        return
    res = call(S.mcais, K, D)
    if res[0] != 'ok':
        rec.emit('call', op='mcais', r=result(res, lambda v: {}))
        return
    XN = res[1]
    if XN.A.shape[0] > 20:
        return
    c = MPC(S, N, Q, R, P, D, XN)
    De, Xe = pol_exact(case['D']), rpoly_of(XN)
    # states on the boundary of the feasible set (scaled towards the origin), with the inputs that show their feasibility
    nz = nx + N * nu
    rows, rhs = [], []
    M, Bs = np.hstack((np.eye(nx), np.zeros((nx, N * nu)))), None
    for t in range(N):
        U = np.zeros((nu, nz))
        U[:, nx + t * nu:nx + (t + 1) * nu] = np.eye(nu)
        rows.append(D.A[:, :nx].dot(M) + D.A[:, nx:].dot(U))
        rhs.append(D.b)
        M = S.A.dot(M) + S.B.dot(U)
    rows.append(XN.A.dot(M))
    rhs.append(XN.b)
    rows, rhs = np.vstack(rows), np.concatenate(rhs)
    expl = False
    if case['explicit'] and nx <= 2 and N * nu <= 3 and len(rhs) <= 18:
        o = dict(sys=[Se], doms=[De], modes=[1] * N, Q=fr(case['Q']), R=fr(case['R']), P=fr(np.round(P * 2 ** 20) / 2 ** 20), XN=dict(n=nx, A=fr(np.round(np.array(fl(Xe['A'])) * 2 ** 20) / 2 ** 20),
                 b=fr(np.round(np.array(fl(Xe['b'])) * 2 ** 20) / 2 ** 20), C=[], d=[]))
        if mpqp.tame(mpqp.from_ocp(o)) is not None:
            st = call(c.store_explicit_solution)
            expl = st[0] == 'ok'
            if not expl:
                rec.emit('call', op='store-explicit', r=result(st, lambda v: {}))
    for g, sh in zip(case['dirs'], case['shrink']):
        lp = linprog(-np.concatenate((g, np.zeros(N * nu))), A_ub=rows, b_ub=rhs, bounds=(None, None))
        if lp.status != 0:
            continue
        z = sh * lp.x
        x0 = np.round(z[:nx] * 2 ** 24) / 2 ** 24
        us = [fr(np.round(z[nx + t * nu:nx + (t + 1) * nu] * 2 ** 24) / 2 ** 24) for t in range(N)]
        # exact check of the certificate (the rounding may break it when shrink is close to 1)
        x, ok = fr(x0), True
        for t in range(N):
            ok = ok and all(exact.dot(r, x + us[t]) <= b for r, b in zip(De['A'], De['b']))
            x = dyn.step(Se, x, us[t])
        if not (ok and all(exact.dot(r, x) <= b for r, b in zip(Xe['A'], Xe['b']))):
            continue
        for ff in [c.feedforward] + ([c.feedforward_explicit] if expl else []):
            s, x = [], x0.copy()
            for k in range(case['steps']):
                res = call(ff, ws(x))
                def fields(v):
                    a = ocp.ans(v)
                    return None if a is None else dict(u=a['u'][0], V=a['V'])
                s.append(dict(x=ev(x), r=result(res, fields)))
                if s[-1]['r']['k'] != 'ok':
                    break
                x = S.A.dot(x) + S.B.dot(res[1][0][0])
            rec.emit('closedloop', S=dyn.senc(Se), Q=em(fr(case['Q'])), R=em(fr(case['R'])), D=pol_enc(De), XN=pol_enc(Xe), N=N,
                     w=[ev(u) for u in us], s=s)

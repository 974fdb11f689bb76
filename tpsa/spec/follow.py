"""Reference recurrences of path following (C06, C08-C12), in the analysed language.

Never executed: the engine builds its value graph and compares it with that of
trusspy.solvers.pathfollow.  ATTEMPT, COMMIT and RECORD are uninterpreted.

ATTEMPT(prev, start, J, lim, bound): a Newton solution from `start` with at most `bound`
iterations, control component |J|, target prev[|J|] + sign(J)*lim[|J|]; -> x, converged, iterations
"""
import numpy as np


def component(rel):
    """signed 1-based index of the largest relative change"""
    m = np.argmax(abs(rel))
    return int((1 + m) * np.sign(rel[m]))


def follow(ATTEMPT, COMMIT, RECORD, x, du, dlpf, j, j_fixed, j_pre, xlimit, incs, nfev, cycl, stepcontrol, maxfac, minfac, reduce, increase, dxtol, full_bound, lim_given):
    X = np.append(x, 0)
    if lim_given is None:
        lim0 = np.append(np.ones(len(x)) * du, dlpf)
    else:
        lim0 = lim_given
    lim = lim0.copy()
    J = len(X) if j is None else j
    since = 4  # accepted increments since the last reduction (none yet: enough)
    for i in range(incs):
        z = 0  # recycle counter
        used = 0
        if j_pre and not j_fixed:
            p, pok, used = ATTEMPT(X, X, J, lim, 1)
            rel = (p - X) / lim
            J = component(rel)
            scale = max(abs(rel))
        accepted = False
        while True:
            # the first attempt may start from the scaled linear prediction, all others start at the last solution
            guess = X + (p - X) / scale if z == 0 and j_pre and not j_fixed else X
            bound = nfev if full_bound else max(nfev - used, 1)
            x, ok, n = ATTEMPT(X, guess, J, lim, bound)
            rel = (x - X) / lim
            was = J
            now = J if j_fixed else component(rel)
            if j_fixed:
                admissible = abs(rel[abs(J) - 1]) <= dxtol
            else:
                admissible = np.all(abs(rel) <= dxtol)
            changed = False
            if stepcontrol:
                if ok:
                    if now == was:
                        if lim[0] >= lim0[0] * maxfac:
                            lim = lim0 * maxfac
                            changed = True
                        elif z <= 0 and since > 3:
                            lim = lim * (1 + (bound - n) / bound * increase)
                            changed = True
                elif lim[0] > lim0[0] * minfac:
                    last = z + 1 == cycl
                    if last:
                        z = 0
                    if now == was or last:
                        lim = lim / reduce
                        changed = True
                        since = 0
            if ok and admissible:
                COMMIT(x)
                since = since + 1
                accepted = True
                J = now
                break
            if z + 1 == cycl:
                break
            if now == was and not ok and not changed:
                break
            if ok:
                J = now
            used = 0
            z = z + 1
        if not accepted:
            break
        X = x
        RECORD(x)
        if xlimit is not None:
            if abs(x[xlimit[0] - 1]) > xlimit[1]:
                break

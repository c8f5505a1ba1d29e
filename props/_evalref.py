"""Reference semantics of evaluation runs, computed from the environments' own log."""


def single(log, n_steps, n_episodes, max_len):
    """log: ("step", eid, action, obs, r, done, cut) and ("reset", ...) of one
    evaluation.  Returns (scores, lengths) or raises ValueError if the log is
    not what an evaluation of this budget would do."""
    scores, lens = [], []
    R = L = 0
    n = 0
    running = False
    for x in log:
        if finished(scores, n, n_steps, n_episodes):
            raise ValueError("went on after the budget was used: %s" % (x,))
        if x[0] == "reset":
            if running:
                raise ValueError("episode %d was reset before it ended" % len(scores))
            R = L = 0
            running = True
        else:
            if not running:
                raise ValueError("stepped without a reset")
            R += x[4]
            L += 1
            n += 1
            if x[5] or x[6] or L == max_len:
                scores.append(float(R))
                lens.append(float(L))
                running = False
    if not finished(scores, n, n_steps, n_episodes):
        raise ValueError("stopped early after %d steps and %d episodes" % (n, len(scores)))
    if not scores:
        scores.append(float(R))
        lens.append(float(L))
    return scores, lens


def finished(scores, n, n_steps, n_episodes):
    return len(scores) >= n_episodes if n_steps is None else n >= n_steps


def batch(lock, n_envs, n_steps, n_episodes, max_len):
    """lock: list of locksteps, each a list over envs of (r, done, cut).
    Returns (scores, lengths, locksteps used)."""
    idx = list(range(n_envs))
    nxt = n_envs
    R = [0.0] * n_envs
    L = [0] * n_envs
    done = {}
    for used, row in enumerate(lock, 1):
        for i, (r, d, c) in enumerate(row):
            R[i] += r
            L[i] += 1
        for i, (r, d, c) in enumerate(row):
            if d or c or L[i] == max_len:
                done[idx[i]] = (R[i], L[i])
                idx[i] = nxt
                nxt += 1
                R[i], L[i] = 0.0, 0
        k = 0
        while k in done:
            k += 1
        if n_steps is None:
            if k >= n_episodes:
                return [done[j][0] for j in range(n_episodes)], [done[j][1] for j in range(n_episodes)], used
            continue
        out = []
        T = 0
        over = False
        for j in range(k):
            T += done[j][1]
            if T > n_steps:
                over = True
                break
            out.append(done[j])
        if T >= n_steps or over:
            return [o[0] for o in out], [o[1] for o in out], used
        u = idx.index(k)
        if T + L[u] >= n_steps:
            if k == 0:
                out.append((R[u], L[u]))
            return [o[0] for o in out], [o[1] for o in out], used
    return None

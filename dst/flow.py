"""Own linear power flow: bus angles by least squares per island, no pypsa helpers."""

from __future__ import annotations

import numpy as np


def islands(buses, branches):
    """Connected sets of buses (lists, in the given order)."""
    parent = {b: b for b in buses}

    def find(x):
        while parent[x] != x:
            parent[x] = parent[parent[x]]
            x = parent[x]
        return x

    for _, b0, b1, *_ in branches:
        parent[find(b0)] = find(b1)
    groups: dict = {}
    for b in buses:
        groups.setdefault(find(b), []).append(b)
    return list(groups.values())


def bridge(buses, branches, key):
    """Does the outage of ``key`` split its island?"""
    return len(islands(buses, [b for b in branches if b[0] != key])) > len(islands(buses, branches))


def linear_flow(buses, branches, inj, slack=None):
    """Flows and angles for injections.

    branches: (key, bus0, bus1, z, shift in radians); flow = (angle0 - angle1 - shift) / z.
    slack: {bus} which take the imbalance (one per island); None: islands are balanced.
    Returns (flows, angles, injections including the slack).
    """
    flows, ang, out = {}, {}, dict(inj)
    for isl in islands(buses, branches):
        pos = {b: i for i, b in enumerate(isl)}
        br = [b for b in branches if b[1] in pos]
        ref = isl[0]
        if slack is not None:
            ref = next(b for b in isl if b in slack)
        B = np.zeros((len(isl), len(isl)))
        p = np.array([inj.get(b, 0.0) for b in isl])
        for _, b0, b1, z, sh in br:
            i, j, y = pos[b0], pos[b1], 1.0 / z
            B[i, i] += y
            B[j, j] += y
            B[i, j] -= y
            B[j, i] -= y
            p[i] += y * sh
            p[j] -= y * sh
        k = pos[ref]
        keep = [i for i in range(len(isl)) if i != k]
        th = np.zeros(len(isl))
        if keep:
            th[keep] = np.linalg.solve(B[np.ix_(keep, keep)], p[keep])
        for b in isl:
            ang[b] = th[pos[b]]
        net = 0.0
        for key, b0, b1, z, sh in br:
            f = (th[pos[b0]] - th[pos[b1]] - sh) / z
            flows[key] = f
            if b0 == ref:
                net += f
            if b1 == ref:
                net -= f
        out[ref] = net
    return flows, ang, out


def outage_factors(buses, branches, key):
    """Change of all other flows per unit of flow on ``key`` when it is lost (None if it is a bridge)."""
    if bridge(buses, branches, key):
        return None
    rest = [b for b in branches if b[0] != key]
    _, b0, b1, _, _ = next(b for b in branches if b[0] == key)
    if b0 == b1:
        return {b[0]: 0.0 for b in rest}
    rest = [(k, a, b, z, 0.0) for k, a, b, z, _ in rest]
    return linear_flow(buses, rest, {b0: 1.0, b1: -1.0})[0]

"""Unit cells drawn in three dimensions, against the geometry of the structure."""
import numpy as np
from lib.framework import check, close
from lib import strats as S


def drawn(coll):
    """Polygons of the collection, padding of short ones removed."""
    faces = np.asarray(coll._faces)
    hidden = np.asarray(getattr(coll, '_invalid_vertices', False))
    if hidden.ndim == 3:
        hidden = hidden.any(axis=-1)
    return [f if hidden.ndim < 2 else f[~h] for f, h in zip(faces, hidden if hidden.ndim == 2 else [None] * len(faces))]


def tidy(faces):
    """Drop a repeated closing vertex."""
    return [f[:-1] if np.allclose(f[0], f[-1]) else f for f in faces]


def cell(sym, q, oi):
    """Corners of the unit cell in the sample frame, cell centred and with a unit edge in the basal plane."""
    if sym == 'cubic':
        c = np.array([(x, y, z) for x in (-.5, .5) for y in (-.5, .5) for z in (-.5, .5)])
    else:
        a = np.deg2rad((30 if oi else 0) + 60 * np.arange(6))
        c = np.array([(np.cos(t), np.sin(t), z) for t in a for z in (-1.633 / 2, 1.633 / 2)])
    return c @ S.rot_quat(q)          # rows: inverse rotation of the crystal vectors


def judge(coll, sym, q, oi):
    faces = tidy(drawn(coll))
    want = cell(sym, q, oi)
    check(len(faces) == (6 if sym == 'cubic' else 8), f'{len(faces)} faces')
    pts = np.concatenate(faces)
    close(pts.mean(axis=0), [0, 0, 0], 0.3, 'centred')
    size = np.linalg.norm(pts, axis=1).max() / np.linalg.norm(want, axis=1).max()
    check(size > 0, 'size')
    want = want * size
    d = np.linalg.norm(pts[:, None] - want[None], axis=2)
    check(d.min(axis=1).max() < 1e-6 * size * 10, lambda: f'corner {pts[d.min(axis=1).argmax()]} is not one of the cell')
    check(d.min(axis=0).max() < 1e-6 * size * 10, lambda: f'corner {want[d.min(axis=0).argmax()]} of the cell is missing')
    ids = d.argmin(axis=1)
    k, edges, sizes = 0, {}, []
    for f in faces:
        loop = ids[k:k + len(f)]
        k += len(f)
        check(len(set(loop)) == len(loop), 'corner used twice in a face')
        n = np.linalg.svd(f - f.mean(axis=0))[1]
        check(n[2] < 1e-6 * size, 'flat face')
        sizes.append(len(f))
        for a, b in zip(loop, np.roll(loop, -1)):
            edges[frozenset((a, b))] = edges.get(frozenset((a, b)), 0) + 1
    check(sorted(sizes) == ([4] * 6 if sym == 'cubic' else [4] * 6 + [6] * 2), f'faces of {sizes} corners')
    check(set(edges.values()) == {2} and len(edges) == (12 if sym == 'cubic' else 18), 'every edge in two faces')
    lens = sorted(np.linalg.norm(want[list(e)[0]] - want[list(e)[1]]) / size for e in edges)
    close(lens, [1] * 12 if sym == 'cubic' else [1] * 12 + [1.633] * 6, 1e-6, 'lengths of the edges')
    return pts, size

"""C24 grids, C25 refinement and edge maps, C26 mesh comparison, C27 boundary reconstruction: run-time contracts."""
import numpy as np

from base import clause, close, need, rejects, Fail, Skip
from ellipy.gras.geom.geom import circle_part, sphere_part
from ellipy.gras.geom.tri.tri import (sphere_tri, sphere_tri_ext, icosahedron, shrink_face_tri, map_face_2_edge,
                                      is_face, is_tri_equal)
from ellipy.gras.geom.sup.sup import sup_2_boundary_2, sup_2_boundary_3, sup_geom_diff_2d


# ------------------------------------------------------------------ C24
@clause('C24', 2)
def circle(g):
    n = g.pick([1, 2, 3, g.i(4, 30), g.i(30, 500)])
    rng = None if g.b(0.5) else np.array([g.u(-4, 4), g.u(-4, 4)])
    g.use(n, rng)
    lo, hi = (0., 2 * np.pi) if rng is None else (rng[0], rng[1])
    ang = lo + (hi - lo) * np.arange(n) / n
    kw = {} if rng is None else dict(angle_range_vec=rng.copy())
    m = circle_part(n, **kw)
    need(np.shape(m) == (n, 2), 'shape %s' % (np.shape(m),))
    close(m[:, 0], np.cos(ang), 1e-12, 'first coordinates')
    close(m[:, 1], np.sin(ang), 1e-12, 'second coordinates')
    x, y = circle_part(n, True, **kw)
    close(np.ravel(x), np.cos(ang), 1e-12, 'apart: first coordinates')
    close(np.ravel(y), np.sin(ang), 1e-12, 'apart: second coordinates')


def check_sphere(v, f, depth):
    nv, nf = 10 * 4 ** depth + 2, 20 * 4 ** depth
    need(v.shape == (nv, 3) and f.shape == (nf, 3), 'depth %d: shapes %s %s' % (depth, v.shape, f.shape))
    close(np.sqrt(np.sum(v * v, 1)), np.ones(nv), 1e-12, 'not unit vectors')
    f = np.asarray(f).astype(int)
    need(f.min() == 0 and f.max() == nv - 1, 'mesh indices')
    need(np.unique(f).size == nv, 'some vertices are not used')
    e = np.sort(np.vstack((f[:, [0, 1]], f[:, [1, 2]], f[:, [0, 2]])), 1)
    need(np.all(e[:, 0] != e[:, 1]), 'degenerate triangle')
    code = e[:, 0] * nv + e[:, 1]
    _, cnt = np.unique(code, return_counts=True)
    need(np.all(cnt == 2), 'an edge belongs to %s triangles' % np.unique(cnt))
    need(np.unique(np.sort(f, 1), axis=0).shape[0] == nf, 'repeated triangle')
    # distinct: the grid spacing is above 0.5 / 2**depth, so a coarse cell holds few points
    cell = 0.2 / 2 ** depth
    o = np.argsort(v[:, 0])
    w = v[o]
    j0 = 0
    for i in range(1, nv):
        while w[i, 0] - w[j0, 0] > cell:
            j0 += 1
        if i > j0:
            d = np.max(np.abs(w[j0:i] - w[i]), 1)
            need(np.all(d > 1e-9), 'two grid directions coincide')
    # the triangles cover the sphere once: total solid angle is that of the sphere
    a, b, c = v[f[:, 0]], v[f[:, 1]], v[f[:, 2]]
    num = np.abs(np.sum(a * np.cross(b, c), 1))
    den = 1 + np.sum(a * b, 1) + np.sum(b * c, 1) + np.sum(a * c, 1)
    close(np.sum(2 * np.arctan2(num, den)), 4 * np.pi, 1e-6, 'solid angle of the triangles')


@clause('C24', exhaustive=5)
def sphere(g):
    d = g.index
    g.use(d)
    v, f = sphere_tri(d)
    check_sphere(v, f, d)


@clause('C24', 0.3)
def sphere_reject(g):
    g.use(0)
    for bad in (-1, 0.5, np.array([1, 1]), 'a', 1.5, -2.):
        rejects(sphere_tri, bad)
        rejects(sphere_tri_ext, 3, bad)
    rejects(sphere_tri_ext, 2, 0)
    rejects(sphere_tri_ext, 2, 2.5)


EXT = [1, 12, 13, 41, 42, 43, 100, 161, 162, 163, 300, 641, 642, 643]


@clause('C24', exhaustive=len(EXT))
def sphere_by_count(g):
    n = EXT[g.index]
    g.use(n)
    n = g.pick([n, float(n)])
    v, f = sphere_tri_ext(3, n, g.b())
    d = 1
    while 10 * 4 ** d + 2 < n:
        d += 1
    v = v.copy()
    v[np.abs(v) < 1e-15] = 0
    check_sphere(v, f, d)


@clause('C24', 1)
def circle_by_count(g):
    n = g.pick([1, 2, 3, g.i(4, 300)])
    g.use(n)
    m = g.pick([n, float(n)])
    if g.b():
        v, f = sphere_tri_ext(2, m, True)
        need(np.array_equal(f, np.stack((np.arange(n), (np.arange(n) + 1) % n), 1)), 'polygon mesh')
    else:
        v = sphere_tri_ext(2, m)
    a = 2 * np.pi * np.arange(n) / n
    close(v, np.stack((np.cos(a), np.sin(a)), 1), 1e-12, 'circle grid')


PART = [1, 2, 3, 4, 5, 10, 20, 21, 22, 50, 80, 81, 82, 100]


@clause('C24', exhaustive=len(PART))
def sphere_cover(g):
    n = PART[g.index]
    g.use(n)
    m = sphere_part(n)
    need(np.shape(m) == (n, 3), 'shape %s' % (np.shape(m),))
    close(np.sum(m * m, 1), np.ones(n), 1e-12, 'not unit vectors')
    d = m @ m.T - np.eye(n)
    if n > 1:
        need(np.max(d) < 1 - 1e-6, 'two directions coincide')
        need(np.min(d) > -1 + 1e-6, 'two directions are opposite')
    if g.index == 0:
        rejects(sphere_part, 0)
        rejects(sphere_part, -3)


# ------------------------------------------------------------------ meshes
def random_mesh(g, max_faces=7):
    """a triangulated sheet (each edge in at most two faces), generic vertices, shuffled numbering and face orientation"""
    kind = g.i(0, 3)
    if kind == 0:
        faces = [[0, 1, 2]]
        nv = 3
    elif kind == 1:
        nv, faces = 4, [[0, 1, 2], [0, 1, 3], [0, 2, 3], [1, 2, 3]]
    else:
        faces, nv = [[0, 1, 2]], 3
        cnt = {}

        def add(fc):
            for e in ((0, 1), (1, 2), (0, 2)):
                k = tuple(sorted((fc[e[0]], fc[e[1]])))
                cnt[k] = cnt.get(k, 0) + 1
        add(faces[0])
        for _ in range(g.i(1, max_faces - 1)):
            free = sorted(k for k, c in cnt.items() if c == 1)
            if not free:
                break
            e = g.pick(free)
            fc = [e[0], e[1], nv]
            nv += 1
            add(fc)
            faces.append(fc)
        if g.b(0.2):
            nv += 1     # a vertex outside all faces
    f = np.array(faces)
    f = np.stack([g.rng.permutation(r) for r in f])
    p = g.rng.permutation(nv)
    f = p[f][g.rng.permutation(len(f))]
    v = np.round(g.rng.randn(nv, 3) * 2 ** 12) / 2 ** 10
    return v, f


def sides(fc):
    return [(fc[0], fc[1]), (fc[1], fc[2]), (fc[0], fc[2])]


def check_map(f, e, f2e, isdir, what, sorted_edges):
    f = np.reshape(f, (-1, 3))
    f2e, isdir = np.reshape(f2e, (-1, 3)), np.reshape(isdir, (-1, 3))
    need(f2e.shape == f.shape and isdir.shape == f.shape, what + ': shapes of the maps')
    want = sorted({tuple(sorted(s)) for r in f.tolist() for s in sides(r)})
    have = sorted(tuple(sorted(r)) for r in np.asarray(e).tolist())
    need(have == want, what + ': edge list %s, expected %s' % (have, want))
    if sorted_edges:
        need(all(r[0] < r[1] for r in np.asarray(e).tolist()), what + ': an edge does not run from the lower to the higher vertex')
    for i, r in enumerate(f.tolist()):
        for j, (x, y) in enumerate(sides(r)):
            ed = tuple(int(z) for z in e[int(f2e[i, j])])
            need(set(ed) == {x, y}, what + ': side %d of face %s is named as edge %s' % (j, r, ed))
            need(bool(isdir[i, j]) == (ed == (x, y)), what + ': direction flag of side %d of face %s' % (j, r))


# ------------------------------------------------------------------ C25
@clause('C25', 2)
def edge_maps(g):
    v, f = random_mesh(g, 10)
    g.use(f)
    ff = f[0] if len(f) == 1 and g.b() else f
    e, f2e, isdir = map_face_2_edge(ff.copy())
    check_map(f, e, f2e, isdir, 'map_face_2_edge', True)


def key(x):
    return tuple(np.round(x * 2 ** 30).astype(np.int64).tolist())


def refine(v, f, bound, steps, adjust):
    """independent refinement on coordinates; returns vertices list, faces (frozensets of vertex keys), statistics"""
    verts = [x for x in v]
    faces = [tuple(r) for r in f.tolist()]
    stats = dict(n_vert_vec=[len(verts)], n_face_vec=[len(faces)], n_edge_vec=[], n_edges_to_shrink_vec=[], max_edge_length_vec=[])

    def edges(fs):
        return {tuple(sorted(s)) for r in fs for s in sides(r)}

    def length(e):
        d = verts[e[0]] - verts[e[1]]
        return np.sqrt(np.sum(d * d))
    stats['n_edge_vec'].append(len(edges(faces)))
    step = 0
    while step < steps:
        es = edges(faces)
        ln = {e: length(e) for e in es}
        if any(abs(x - bound) < 1e-9 * (1 + bound) for x in ln.values() if bound > 0):
            raise Skip()
        long = {e for e in es if ln[e] > bound}
        if not long:
            break
        split = [r for r in faces if any(tuple(sorted(s)) in long for s in sides(r))]
        keep = [r for r in faces if not any(tuple(sorted(s)) in long for s in sides(r))]
        se = edges(split)
        stats['n_edges_to_shrink_vec'].append(len(se))
        stats['max_edge_length_vec'].append(max(ln.values()))
        mid = {}
        new = []
        for e in sorted(se):
            mid[e] = len(verts) + len(new)
            new.append((verts[e[0]] + verts[e[1]]) * 0.5)
        if adjust is not None:
            new = list(adjust(np.array(new)))
        ke = edges(keep)
        faces = list(keep)
        for r in split:
            m = [mid[tuple(sorted(s))] for s in sides(r)]
            faces += [(m[0], m[1], m[2]), (r[0], m[0], m[2]), (m[0], r[1], m[1]), (m[2], m[1], r[2])]
        for e in sorted(se & ke):
            faces.append((e[0], mid[e], e[1]))
        verts += new
        step += 1
        stats['n_vert_vec'].append(len(verts))
        stats['n_face_vec'].append(len(faces))
        stats['n_edge_vec'].append(len(edges(faces)))
    return np.array(verts), faces, stats, step


@clause('C25', 5)
def refinement(g):
    v, f = random_mesh(g)
    steps = g.pick([1, 1, 2, 2, 3, 0, None])
    ln = np.concatenate([np.sqrt(np.sum((v[f[:, i]] - v[f[:, j]]) ** 2, 1)) for i, j in ((0, 1), (1, 2), (0, 2))])
    srt = np.sort(ln)
    bound = g.pick([0., srt[0] * 0.6, srt[-1] * 0.6, srt[-1] * 1.5, srt[len(srt) // 2] + 1e-6, srt[-1] - 1e-6])
    if steps is None:
        bound = max(bound, srt[-1] * 0.3)
    shift = g.rng.randn(3) * 0.2
    adjust = (lambda x: x + shift) if g.b(0.3) and steps is not None else None
    one = len(f) == 1 and g.b()
    g.use(v, f, float(bound), steps, adjust is not None)
    ev, ef, st, n_step = refine(v, f, bound, 40 if steps is None else steps, adjust)
    args = [v.copy(), f[0].copy() if one else f.copy(), float(bound)]
    kw = {}
    if steps is not None:
        kw['n_max_steps'] = steps
    if adjust is not None:
        kw['f_vert_adjust_func'] = adjust
    rv, rf, rs, re, rf2e, rdir = shrink_face_tri(*args, is_stat_collected=True, **kw)
    nv = v.shape[0]
    need(rv.shape == ev.shape, 'vertices: shape %s, expected %s' % (rv.shape, ev.shape))
    close(rv[:nv], v, 1e-15, 'old vertices')
    rf = np.reshape(rf, (-1, 3)).astype(int)
    need(rf.shape[0] == len(ef), '%d faces, expected %d' % (rf.shape[0], len(ef)))
    need(sorted(map(key, rv)) == sorted(map(key, ev)), 'set of vertices')
    kr, ke = [key(x) for x in rv], [key(x) for x in ev]
    if len(set(ke)) == len(ke):
        a = sorted(tuple(sorted(kr[i] for i in r)) for r in rf.tolist())
        b = sorted(tuple(sorted(ke[i] for i in r)) for r in ef)
        need(a == b, 'refined faces differ')
    check_map(rf, re, rf2e, rdir, 'refined mesh', False)
    need(rs['n_steps'] == n_step, 'n_steps %s, expected %d' % (rs['n_steps'], n_step))
    for k2, x in st.items():
        y = np.ravel(rs[k2])
        need(y.size == len(x), 'statistics %s: %s, expected %s' % (k2, y, x))
        close(y, np.array(x, dtype=float), 1e-12, 'statistics ' + k2)
    v2, f2 = shrink_face_tri(*args, **kw)
    close(v2, rv, 1e-15, 'vertices without statistics')
    need(np.array_equal(np.reshape(f2, (-1, 3)), rf), 'faces without statistics')


# ------------------------------------------------------------------ C26
@clause('C26', 1)
def face_membership(g):
    v, f = random_mesh(g, 9)
    nv = int(f.max()) + 1
    chk = []
    for _ in range(g.i(1, 8)):
        k = g.i(0, 3)
        if k <= 1:
            chk.append(g.rng.permutation(f[g.i(0, len(f) - 1)]))
        elif k == 2 and nv >= 3:
            chk.append(g.rng.permutation(nv)[:3])
        else:
            r = f[g.i(0, len(f) - 1)].copy()
            r[g.i(0, 2)] = g.pick([x for x in range(nv + 2) if x not in r])
            chk.append(r)
    c = np.array(chk)
    g.use(f, c)
    have = {tuple(sorted(r)) for r in f.tolist()}
    e = [tuple(sorted(r)) in have for r in c.tolist()]
    r = is_face(f.copy(), c.copy())
    need(list(map(bool, np.ravel(r))) == e, 'is_face %s, expected %s' % (r, e))


@clause('C26', 2)
def mesh_equality(g):
    v, f = random_mesh(g, 7)
    tol = g.pick([0., 2. ** -12, 2. ** -8])
    # well separated coordinates, some shared between vertices
    v = np.round(v * 2) / 2
    if np.unique(v, axis=0).shape[0] != v.shape[0]:
        v[:, 0] += np.arange(v.shape[0]) * 8
    p = g.rng.permutation(v.shape[0])          # new number of each vertex
    v2 = np.zeros(v.shape)
    v2[p] = v
    f2 = p[f][g.rng.permutation(len(f))]
    f2 = np.stack([g.rng.permutation(r) for r in f2])
    eq = True
    k = g.i(0, 6)
    if k == 0:
        i, j = g.i(0, v.shape[0] - 1), g.i(0, 2)
        d = g.pick([tol, -tol, tol + 2. ** -16, -tol - 2. ** -16, 2. ** -4])
        v2[i, j] += d
        eq = abs(d) <= tol
    elif k == 1:
        i = g.i(0, len(f2) - 1)
        r = f2[i].copy()
        old = tuple(sorted(r))
        cand = [x for x in range(v.shape[0]) if x not in r]
        if not cand:
            raise Skip()
        r[g.i(0, 2)] = g.pick(cand)
        f2[i] = r
        have = [tuple(sorted(x)) for x in f2.tolist()]
        cnt = {}
        for x in have:
            for s in sides(x):
                cnt[tuple(sorted(s))] = cnt.get(tuple(sorted(s)), 0) + 1
        if len(set(have)) != len(have) or max(cnt.values()) > 2:
            raise Skip()
        eq = False
    elif k == 2 and len(f2) > 1:
        f2 = f2[:-1]
        eq = False
    elif k == 3:
        v2 = np.vstack((v2, [[100., 100., 100.]]))
        eq = False
    g.use(v, f, v2, f2, tol)
    r, rep = is_tri_equal(v.copy(), f.copy(), v2.copy(), f2.copy(), tol)
    need(bool(r) == eq, 'is_tri_equal %s, expected %s (%s)' % (r, eq, rep))
    need((rep == '') == eq, 'report %r' % rep)
    r, rep = is_tri_equal(v2.copy(), f2.copy(), v.copy(), f.copy(), tol)
    need(bool(r) == eq, 'is_tri_equal with exchanged meshes: %s' % r)


# ------------------------------------------------------------------ C27
def ring(g, lo=3, hi=14):
    n = g.i(lo, hi)
    if g.b(0.3):
        a = np.arange(n) * 2 * np.pi / n + g.u(0, 6)
    else:
        while True:
            a = np.sort(g.rng.uniform(0, 2 * np.pi, n))
            gaps = np.diff(np.append(a, a[0] + 2 * np.pi))
            if np.max(gaps) < 2.6 and np.min(gaps) > 0.02:
                break
            n = g.i(lo, hi)
            if n > 12:
                n = 8
        a = a + g.u(0, 6)
    ln = np.ones(n) if g.b(0.6) else g.rng.uniform(0.5, 2, n)
    return np.stack((np.cos(a), np.sin(a))) * ln


@clause('C27', 2)
def planar_boundary(g):
    d = ring(g).T
    n = d.shape[0]
    if n == 4 and g.b(0.2):
        d = d[:3]
        n = 3
    s = np.sqrt(np.sum((d @ g.mat(2, 2)) ** 2, 1)) + d @ g.vec(2) + 0.5
    if g.b(0.3):
        s = g.rng.uniform(-1, 2, n)
    g.use(d, s)
    r = sup_2_boundary_2(d.copy(), s.copy())
    need(np.shape(r) == (n, 2), 'shape %s' % (np.shape(r),))
    for i in range(n):
        j = (i + 1) % n
        if abs(np.linalg.det(d[[i, j]])) < 1e-3:
            continue
        close(d[[i, j]] @ r[i], s[[i, j]], 1e-8, 'point %d is not on the support lines %d and %d' % (i, i, j))


@clause('C27', 1)
def space_boundary(g):
    n, k = g.i(3, 8), g.i(1, 8)
    d, s = g.rng.randn(n, 3), g.rng.uniform(-1, 3, n)
    f = np.stack([g.rng.permutation(n)[:3] for _ in range(k)])
    if g.b(0.2):
        d, f = sphere_tri(0)
        s = 1 + d @ np.array([0.1, -0.2, 0.3])
        f = f[g.rng.permutation(20)[:k]]
    g.use(d, s, f)
    r = sup_2_boundary_3(d.copy(), s.copy(), f.copy())
    need(np.shape(r) == (len(f), 3), 'shape %s' % (np.shape(r),))
    for i in range(len(f)):
        if abs(np.linalg.det(d[f[i]])) < 1e-2:
            continue
        close(d[f[i]] @ r[i], s[f[i]], 1e-7, 'point %d is not on its three support planes' % i)


def polygon_support(l, d):
    n = d.size
    pts = []
    i, j = np.triu_indices(n, 1)
    det = l[0, i] * l[1, j] - l[1, i] * l[0, j]
    ok = np.abs(det) > 1e-9
    i, j, det = i[ok], j[ok], det[ok]
    x = (d[i] * l[1, j] - d[j] * l[1, i]) / det
    y = (l[0, i] * d[j] - l[0, j] * d[i]) / det
    p = np.stack((x, y), 1)
    inside = np.all(p @ l <= d + 1e-9 * (1 + np.abs(d)), 1)
    pts = p[inside]
    return np.max(pts @ l, 0)


@clause('C27', 3)
def planar_difference(g):
    l = ring(g, 3, 20)
    n = l.shape[1]
    k = g.i(0, 3)
    if k == 0:
        dif = g.rng.uniform(0.2, 3, n)
    elif k == 1:
        dif = np.sqrt(np.sum((l.T @ g.mat(2, 2)) ** 2, 1)) + 0.3 + np.abs(g.rng.randn(n)) * 0.01
    else:
        q1, q2 = g.spd(2) * 4, g.spd(2) * 0.2
        dif = np.sqrt(np.sum(l * (q1 @ l), 0)) - np.sqrt(np.sum(l * (q2 @ l), 0))
        if np.any(dif < 0.05):
            raise Skip()
    r2 = g.rng.uniform(0, 2, n)
    r1 = dif + r2
    g.use(r1, r2, l)
    e = polygon_support(l, r1 - r2)
    a, b = r1.copy(), r2.copy()
    if g.b(0.2):
        a, b = a.reshape(1, -1), b.reshape(1, -1)
    elif g.b(0.2):
        a, b = a.reshape(-1, 1), b.reshape(-1, 1)
    r = sup_geom_diff_2d(a, b, l.copy())
    need(np.shape(np.ravel(r)) == (n,), 'shape %s' % (np.shape(r),))
    close(np.ravel(r), e, 1e-6, 'geometric difference')


@clause('C27', 0.5)
def planar_difference_reject(g):
    l = ring(g, 3, 8)
    n = l.shape[1]
    r2 = g.rng.uniform(0, 1, n)
    r1 = r2 + 1
    k = g.i(0, 6)
    g.use(l, r1, r2, k)
    if k == 0:
        r1[g.i(0, n - 1)] -= g.pick([1.5, 2.])
        rejects(sup_geom_diff_2d, r1, r2, l)
    elif k == 1:
        i = g.i(0, n - 1)
        r1[i] = r2[i]
        rejects(sup_geom_diff_2d, r1, r2, l)
    elif k == 2:
        rejects(sup_geom_diff_2d, r1, r2[:-1], l)
    elif k == 3:
        rejects(sup_geom_diff_2d, r1, r2, l[:, :-1])
    elif k == 4:
        rejects(sup_geom_diff_2d, r1, r2, np.vstack((l, l[:1])))
    elif k == 5:
        rejects(sup_geom_diff_2d, r1, r2, l[0])
    else:
        rejects(sup_geom_diff_2d, np.stack((r1, r1)), r2, l)

"""Regenerate known_findings.jsonl: 'fixed:' lines for repaired defects (they suppress nothing)."""
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = '''23d8c8c C19 regularised matrix not regular for repeated eigenvalues (non-orthogonal eigenvectors of the general eigensolver)
36d639f C17 orth_transl_qr returned NaN for parallel vectors
1ced05c C19 reg_mat failed for rectangular matrices
e6f4e66 C21 make_symmetric failed for a single matrix
56bd44f C21 pinv failed for a single matrix
5b0bedd C20 r_multiply: constant-in-time and 1x1 factors failed or gave wrong results in dense mode
8952bd3 C21 sqrtm_pos failed for 1x1 pages and pages containing NaN
8153500 C20 SymmetricMatVector products used V instead of V' (wrong values)
248ce73 C20 SymmetricMatVector rejected a single symmetric matrix
875b0e1 C20 lr_svd_divide_vec failed for a single matrix and several vectors
d7d93a6 C02 lr_multiply_by_vec / lr_divide_vec reshaped the caller's array in place
a2a482f C20 lr_divide_vec gave one value for several vectors with a constant matrix
a5c9a85 C07 rho_mat rejected round-off below zero for a single direction only
f68a395 C27 sup_geom_diff_2d mixed up hull facets and did not wrap the direction index
73e3516 C06 lists of different lengths compared equal
6602593 C06 boolean values made the comparison fail
9a2d9da C06 empty arrays of dictionaries made the comparison fail
a22b413 C16 is_parallel compared only some components of the normals
815874c C16 is_parallel failed for a single hyperplane against an array
d8ffb78 C03 hyperplane copies lost the relative tolerance
936ec54 C04 hyperplanes through the origin with opposite normals compared unequal
bc17c62 C16 contains accepted mismatching sizes
5cb2c90 C04 equality with properties failed
847cbc6 C04 a single object given as an array of any shape was not broadcast
4efeb93 C03 copies of one-element arrays lost their shape
f814e38 C11 a basis with negative inner products was accepted
729df21 C13 volume of degenerate ellipsoids had the wrong shape
306fe3c C01 the stored shape matrix was not exactly symmetric
1e8954e C08 _get_grid_by_factor failed for 2-dimensional ellipsoids
5e51674 C12 polar of arrays of several ellipsoids failed
d2f63ca C12 non-robust polar used an inner instead of an outer product
23fc24c C12 robust polar accepted ellipsoids without the origin inside
facfa82 C08 get_boundary failed for 3-dimensional ellipsoids
1f86073 C24 sphere_tri_ext rejected integer-valued float numbers of points
a725989 C08 boundary by scalar floating point factor failed
021edef C14 is_internal failed for lists and arrays of ellipsoids
9b9dd04 C07 rho of one-dimensional arrays of ellipsoids failed
9565c19 C15 is_bigger failed for a degenerate first ellipsoid
9ee81c5 C15 simultaneous diagonalisation wrong for indefinite second matrices
d098004 C10 minksum_ia failed for a degenerate first ellipsoid
58a827a C07 rho_mat returned non-finite support points for nearly zero quadratic forms
2b25ae6 C24 sphere_part returned the same direction twice
5240639 C08 get_rho_boundary_by_factor: wrong dimensions gave an index error instead of a rejection
87812eb C17 orth_transl_max_tr failed for one-dimensional vectors of opposite signs
6d8c8e2 C17 orth_transl lost orthogonality for nearly antiparallel vectors
22a0703 C17 ell_valign failed for one-dimensional vectors
8e98c00 C21 from_expression failed for constants mixed with time-dependent entries at one time point
8af52fd C20 r_multiply failed for a one-by-one third factor
377a6c7 C20 lr_multiply_by_vec failed for one vector with a family of matrices
8d00773 C21 make_pos_definite_or_nan changed the shape of a single masked matrix
de9d070 C06 dict_compare failed for lists of arrays of different shapes
68468b9 C25 the face-to-edge map did not match zero-area faces
190b9b9 C25 shrink_face_tri failed for one face given as a one-row matrix'''
with open(os.path.join(HERE, 'known_findings.jsonl'), 'w') as f:
    f.write('# Findings file. Lines "fixed: ..." record repaired defects and suppress nothing; a JSON line with\n'
            '# "status": "open" would list a genuine, unrepaired defect (there is none).\n')
    for ln in M.splitlines():
        h, p, w = ln.split(' ', 2)
        f.write('fixed: property=%s %s %s\n' % (p, h, w))

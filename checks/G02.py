"""Rotations from flight and viewing angles."""
import math

PRELOAD = ["geometry", "transformations"]
BOUNDS = "all angles: first and last in (-180, 180), middle in (-90, 90) degrees (a micro-radian off the gimbal lock)"
ASSUMPTIONS = ["doubles are real numbers"]
E = 1e-6


def angles(ctx, mid=math.pi / 2 - E, ends=math.pi - E):
    # the middle angle is the second one of every convention used here
    return (ctx.angle("a", -ends, ends), ctx.angle("b", -mid, mid), ctx.angle("c", -ends, ends))


def transpose(M):
    return [[M[j][i] for j in range(3)] for i in range(3)]


def mul(A, B):
    return [[sum(A[i][k] * B[k][j] for k in range(3)) for j in range(3)] for i in range(3)]


def rows(R):
    return [[R[i][j] for j in range(3)] for i in range(3)]


def det(M):
    return (M[0][0] * (M[1][1] * M[2][2] - M[1][2] * M[2][1]) - M[0][1] * (M[1][0] * M[2][2] - M[1][2] * M[2][0])
            + M[0][2] * (M[1][0] * M[2][1] - M[1][1] * M[2][0]))


BUILD = {"ptr": "rotation_from_ptr", "ptr_v2": "rotation_from_ptr_v2", "opk": "rotation_from_opk"}
BACK = {"ptr": "ptr_from_rotation", "ptr_v2": "ptr_from_rotation_v2", "opk": "opk_from_rotation"}


def proper(ctx, w, kind):
    g = w.mod("geometry")
    R = rows(getattr(g, BUILD[kind])(*angles(ctx)))
    ctx.eq(mul(transpose(R), R), [[1.0, 0, 0], [0, 1, 0], [0, 0, 1]], "orthonormal")
    ctx.eq(det(R), 1.0, "proper")


def back(ctx, w, kind):
    g = w.mod("geometry")
    a = angles(ctx)
    R = getattr(g, BUILD[kind])(*a)
    out = getattr(g, BACK[kind])(R)
    S = getattr(g, BUILD[kind])(*out)
    ctx.eq(rows(S), rows(R), "same rotation", 1e-6)
    for x, y, n in zip(a, out, "123"):
        ctx.eq_angle(y, x, "angle " + n, 1e-6)


def zero(ctx, w):
    g = w.mod("geometry")
    base = [[1.0, 0, 0], [0, 0, -1], [0, 1, 0]]
    ctx.eq(rows(g.rotation_from_ptr(0.0, 0.0, 0.0)), base, "level camera looking north")
    ctx.eq(rows(g.rotation_from_ptr_v2(0.0, 0.0, 0.0)), base, "level camera looking north (v2)")
    ctx.eq(rows(g.rotation_from_opk(0.0, 0.0, 0.0)), [[1.0, 0, 0], [0, -1, 0], [0, 0, -1]], "camera looking down")


def compatible(ctx, w):
    g = w.mod("geometry")
    a = angles(ctx)
    ctx.eq(rows(g.rotation_from_ptr(*a)), rows(g.rotation_from_ptr_v2(*a)), "the two implementations agree")


def meaning_ptr(ctx, w):
    """Pan is the compass direction of the optical axis, tilt its dip, roll about the axis."""
    g = w.mod("geometry")
    pan, tilt, roll = angles(ctx)
    R = g.rotation_from_ptr(pan, tilt, roll)
    sp, cp = ctx.sincos_any(pan)
    st, ct = ctx.sincos_any(tilt)
    sr, cr = ctx.sincos_any(roll)
    ctx.eq(list(R[2]), [sp * ct, cp * ct, -st], "optical axis")
    # image x axis: horizontal right of the axis, turned by the roll
    right, down = [cp, -sp, 0.0], [-sp * st, -cp * st, -ct]
    ctx.eq(list(R[0]), [cr * right[k] - sr * down[k] for k in range(3)], "image x axis")


def meaning_opk(ctx, w):
    """omega, phi, kappa: turns about east, north and up taking the level frame to the camera."""
    g = w.mod("geometry")
    o, p, k = angles(ctx)
    R = rows(g.rotation_from_opk(o, p, k))
    so, co = ctx.sincos_any(o)
    sp, cp = ctx.sincos_any(p)
    sk, ck = ctx.sincos_any(k)
    Ro = [[1.0, 0, 0], [0, co, -so], [0, so, co]]
    Rp = [[cp, 0, sp], [0, 1.0, 0], [-sp, 0, cp]]
    Rk = [[ck, -sk, 0], [sk, ck, 0], [0, 0, 1.0]]
    body = mul(mul(Ro, Rp), Rk)  # body (right, up, back) to world
    want = transpose([[body[i][0], -body[i][1], -body[i][2]] for i in range(3)])
    ctx.eq(R, want, "rotation from omega phi kappa")


def aa(ctx, w):
    g = w.mod("geometry")
    r, R = ctx.rotation("r")
    ctx.eq(rows(g.rotation_from_angle_axis(r)), rows(R), "rotation vector")
    t = ctx.angle("t", -3, 3)
    s, c = ctx.sincos_any(t)
    k = ctx.choice("axis", 3)
    v = [0.0, 0.0, 0.0]
    v[k] = t
    i, j = (k + 1) % 3, (k + 2) % 3
    M = [[0.0] * 3 for _ in range(3)]
    M[k][k] = 1.0
    M[i][i] = M[j][j] = c
    M[j][i], M[i][j] = s, -s
    ctx.eq(rows(g.rotation_from_angle_axis(ctx.array(v))), M, "turn about an axis", 1e-9)


KINDS = [dict(kind=k) for k in BUILD]
HARNESSES = [
    dict(name="proper rotation", fn=proper, params=KINDS),
    dict(name="back to angles", fn=back, params=KINDS),
    dict(name="zero angles", fn=zero),
    dict(name="two implementations", fn=compatible),
    dict(name="meaning of pan tilt roll", fn=meaning_ptr),
    dict(name="meaning of omega phi kappa", fn=meaning_opk),
    dict(name="angle axis", fn=aa),
]

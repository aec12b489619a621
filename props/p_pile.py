"""C29: from a set of fibers to the initial state of the packing simulation."""
from .common import *
from .p_plot import filled
from .p_stack import bundle, layout, edges_of, network, _sub, thick, LAYOUTS


def start(V, fm, mat, net, h, threshold=None, solve=False):
    """Stack, mesh and contact system of the pile: what holds before any compaction."""
    n = len(h)
    half = V.q("1/2")
    st = fm.Stack(mat, net) if threshold is None else fm.Stack(mat, net, threshold=threshold)
    E = edges_of(st)
    mesh = fm.Mesh(st)
    fiber, z = ints_of(mesh["fiber"]), vals(mesh["z"])
    heights = vals(mat["z"])
    V.check("every node is at the stacked height of its fiber", all_([eq(x, heights[f]) for x, f in zip(z, fiber)]))
    K = fm.stiffness(mat, mesh)
    con = fm.constraint(mat, mesh)
    C, H, dH = dense(V, con[0]), vals(con[2]), vals(con[4])
    V.check("one unknown displacement and rotation per node", K[0].shape[0] == 2 * len(mesh) and all(len(r) == 2 * len(mesh) for r in C))
    fin = [r for r in range(len(H)) if finite(H[r]).margin() >= 0]
    V.check("the pile at rest satisfies every contact condition", all_([ge(H[r], 0) for r in fin]))
    # which fibers each bound concerns
    used = {r: [c // 2 for c, x in enumerate(C[r]) if filled(x)]
            for r in fin}
    pairs = set()
    for r in fin:
        if len(used[r]) == 2:
            a, b = (fiber[k] for k in used[r])
            pairs.add((min(a, b), max(a, b)))
    V.check("the contacts are the connections of the stack", pairs == set(E))
    for f in range(n):
        floor = [H[r] for r in fin if len(used[r]) == 1 and fiber[used[r][0]] == f and float(dH[r]) == 0]
        V.check("every fiber meets the floor condition", len(floor) > 0)
        if threshold is None:
            below = [H[r] for r in fin if len(used[r]) == 2 and f == max(fiber[k] for k in used[r])]
            V.check("every fiber rests on the floor or on a connected fiber", any_([eq(x, 0) for x in floor + below]))
    plate = [H[r] for r in fin if float(dH[r]) == 1]
    V.check("the plate touches the pile", any_([eq(x, 0) for x in plate]))
    return mesh


@case("C29", "graphs", n=3, bounds="3 fibers, each of the 8 connection graphs, any thicknesses <= 5, without threshold or any threshold in [0, 20]")
@case("C29", "graphs-4", n=4, tier="thorough", bounds="4 fibers, each of the 64 connection graphs, any thicknesses <= 5, without threshold or any threshold")
def graphs(V, fm, n):
    h = thick(V, n)
    mat = make_mat(V, fm, bundle(V, n, h), V.q(20))
    net = network(V, fm, mat, n, _sub(V, n, True))
    start(V, fm, mat, net, h, V.real("threshold", 0, 20) if V.bool("with-threshold") else None)


@case("C29", "layouts", bounds="4 fibers in one of 3 layouts, full network, periodic or not, any thicknesses <= 5 and initial heights")
def layouts(V, fm):
    h = thick(V, 4)
    mat = make_mat(V, fm, layout(V, V.pick("layout", list(LAYOUTS)), 4, h,
                                 [V.real("z%d" % i, -5, 5) for i in range(4)]), V.q(8))
    start(V, fm, mat, network(V, fm, mat, 4, None, V.bool("periodic")), h)


@case("C29", "solve", bounds="2 crossing fibers of any thicknesses <= 5 and moduli ratio; the initial state of solve (itermax 0), any packing and tolerances")
def initial(V, fm):
    h = thick(V, 2)
    mat = make_mat(V, fm, bundle(V, 2, h), V.q(20))
    net = network(V, fm, mat, 2, None, V.bool("periodic"))
    mesh = start(V, fm, mat, net, h)
    K, C, u, f, F, H, Z, rl, mask, err = fm.solve(mat, mesh, itermax=0, packing=V.real("packing", 0, 9), verbose=False)
    V.check("Z(0) is the top of the pile", eq(vals(Z(0.0))[0], V.max([h[0], h[0] + h[1]])))
    V.check("u, f and the loads start at zero", all_([eq(x, 0) for y in (u, f, F) for x in vals(y(0.0))]))
    V.check("the stretch factor starts at 1", eq(vals(rl(0.0))[0], 1))

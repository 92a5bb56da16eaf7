"""Rewrites the generated part of DESIGN.md (per-property sections and the table of planted bugs)."""
import ast
import glob
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ORACLE = {
    "C01": "the telescoping sum itself: sums of rates over all cells, left against right flux of each face, fine against coarse totals",
    "C02": "zero, and the physical flux written down in the harness (q, q²/h + g h²/2; u; u²/2)",
    "C03": "zero",
    "C04": "the sign of the new height; step bound dt <= dx/(2 max(|u|+c)) computed by the harness from the states",
    "C05": "minimum and maximum of the three old values, universally quantified as any M (m) above (below) them",
    "C06": "the same code on shifted data",
    "C07": "the same code on mirrored data with swapped boundary conditions",
    "C08": "the extended vector of cell values written down directly; the same scheme on a larger mesh continuing the data",
    "C09": "the jump conditions F* = F(U) + S (U* - U) on both sides, exact characteristic speeds u ± c, bounds of U*",
    "C10": "sums of the steps handed out; min(dx·cfl, suggested) per step; the announced length",
    "C11": "exact polynomial or Taylor solutions of test problems with symbolic coefficients; linear invariants",
    "C12": "the assumption 'every Euler step keeps the bound' stated for unknown rates at every stage",
    "C13": "the state before the refused update; exact sums of times",
    "C14": "a freshly built object evaluated at the same arguments",
    "C15": "the list of states the harness itself passed in or copied; a freshly built solver",
    "C16": "tiling, nesting and averaging identities on a symbolic interval",
    "C17": "i -> (cell·p + local) mod n·p written down independently; maxima over the explicit list of neighbours",
    "C18": "exact rational integration of Lagrange polynomials in the harness (Fractions)",
    "C19": "zero; weak form with exactly integrated test functions",
    "C20": "the old values of the adjacent cells' unknowns; m_i/(2 Σ d_ij) from exactly integrated gradients",
    "C21": "polynomial calculus with symbolic coefficients (exact antiderivatives, evaluation by Horner's rule)",
    "C22": "integrals of |.|, |.|² and maxima of piecewise polynomials; log2 as an uninterpreted function of the ratio",
    "C23": "recomputation of averages and fluxes of the recorded states by the harness; the averaged fine solution",
    "C24": "numbers as z3 doubles/integers against the documented range; parameters read back from steps and right hand sides of the solver built",
    "C25": "the equation along characteristics and across waves, derivatives by exact dual numbers or jump conditions; the parameters and defaults of each benchmark",
    "C26": "the derivative of the energy contracted with the rates",
    "C27": "linear interpolation written as v0 + w (v1 - v0) with the weight as symbolic input",
    "C28": "the solutions, initial data and exact solutions handed in, compared with what the recorder in place of matplotlib/pickle received",
    "C29": "the curvature formula written down by the harness, thresholds as symbols; scalings as affine maps with symbolic coefficients",
    "C31": "old values and intermediate states written down from the physical fluxes and the speeds max(|u| + c)",
    "C32": "the same code on the same data in other units",
    "C33": "the published formulas, written down cell by cell and face by face in the harness; exact mass and gradient matrices from integrals of polynomials",
    "C30": "the table of variations written down in the harness; means of errors computed from the recorded rates of change",
}
WHY = {
    "C01": "a limiter or a reconstruction has a branch for every sign and ordering of its arguments; a leak shows only for states on one of them",
    "C02": "special states (thin films, large velocities, other gravity) are where a consistent looking flux stops being consistent",
    "C03": "balance between pressure and bottom terms holds per ordering of four bottom and surface values; tests use one profile",
    "C04": "violations live at extreme ratios of depth, speed and bottom step, at the limit of the step bound",
    "C05": "a maximum principle is a statement on all data; the limiter clips in eight combinations per face",
    "C06": "seams of periodic index arithmetic matter only when data differ there",
    "C07": "a sign mistake is invisible on symmetric or right-running data",
    "C08": "every pair of conditions, width and mesh size, with data different in every cell",
    "C09": "wave speeds must bound all characteristic speeds, for subcritical, supercritical, dry and mirrored pairs",
    "C10": "last steps, remainders and refused steps depend on the real number (T - t0)/dt",
    "C11": "order conditions with time dependence, start times and stage book-keeping",
    "C12": "strong stability depends on the convex form of the stages, not on their order",
    "C13": "the exceptional entry may be anywhere and of either sign, and aliasing shows only after later steps",
    "C14": "caching and in-place changes show only for particular sequences of calls",
    "C15": "histories of updates, resets and restarts in any order of the times",
    "C16": "ends of cells, coarsening factors and domains not starting at zero",
    "C17": "the wrap-around cell, meshes with fewer cells than neighbours, every degree",
    "C18": "degrees at which a quadrature is one node short, cells of length other than one",
    "C19": "limited corrections must cancel pairwise, also over the seam",
    "C20": "two unknowns with different bounds share every limited correction; the step bound is a minimum over unknowns",
    "C21": "degrees of exactness, intervals not of length one or not starting at zero",
    "C22": "integrals over several cells of functions changing sign, jumps, domains of any length",
    "C23": "which node, which record, which side: symbolic values make every mix-up visible",
    "C24": "every double and every text of options; several solvers with options in any order",
    "C25": "a wrong exact solution makes every error computed with it wrong, at all places where nobody looked",
    "C26": "dissipation is a sign condition on all pairs of states",
    "C27": "every order of recorded times of two histories",
    "C28": "several solvers with different meshes, labels and time steps in one figure",
    "C29": "rows just above and just below a threshold, in every combination; scalings which differ per column",
    "C31": "limiting clips in many combinations per face, and a bound of the wrong cell matters only where neighbours differ",
    "C32": "a missing or doubled factor is 1 for the default gravity, width or speed tests use",
    "C33": "a term that vanishes for the data of a test (water at rest, equal neighbours, positive velocities) can be wrong without notice",
    "C30": "studies run one after another in one process, where what one leaves behind shows in the next",
}


def constants(path):
    out = {}
    for n in ast.parse(open(path).read()).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") in ("BOUNDS", "OUTSIDE", "EXPLANATION"):
            out[n.targets[0].id] = ast.literal_eval(n.value)
    return out


def cell(s):
    return str(s).replace("|", "\\|").replace("\n", " ")


def main():
    props = [json.loads(l) for l in open(V + "/properties.jsonl")]
    try:
        cost = json.load(open(V + "/tools/cost.json"))
    except OSError:
        cost = {}
    out = ["## Properties", ""]
    for p in sorted(props, key=lambda p: p["id"]):
        i = p["id"]
        f = glob.glob(f"{V}/harness/{i.lower()}_*.py")
        if not f:
            continue
        c = constants(f[0])
        out += [f"### {i} {p['title']}", "", p["statement"], "",
                f"*Decided by* `{os.path.relpath(f[0], V)}`: {c['EXPLANATION']}", f"*Oracle:* {ORACLE[i]}.", f"*Bounds:* {c['BOUNDS']}.", f"*Outside:* {c['OUTSIDE']}.",
                f"*Beyond tests:* {WHY[i]}."]
        if i in cost:
            out.append(f"*Cost (quick):* {cost[i]}.")
        out.append("")
    out += ["## Planted bugs", "", "Each folder of `seeded/` was written from the property and the code, kept only after the stable tests passed with it and its demonstration failed.",
            "`tools/catch.py` runs checks against them in a private mount namespace; the last column is what its last run on all of them recorded (`tools/catches.json`).", "",
            "| bug | breaks | needs | caught by |", "|---|---|---|---|"]
    try:
        caught = json.load(open(V + "/tools/catches.json"))
    except OSError:
        caught = {}
    for d in sorted(glob.glob(V + "/seeded/*")):
        b = os.path.basename(d)
        m = json.load(open(d + "/meta.json"))
        got = [c for c, r in sorted(caught.get(b, {}).items()) if r == 1]
        out.append(f"| {b} | {cell(m['what_it_breaks'])} | {cell(m['needs'])} | {', '.join(got) or 'none'} |")
    text = open(V + "/DESIGN.md").read()
    a, z = "<!-- generated by tools/design.py -->\n", "<!-- end of the generated part -->\n"
    i, j = text.index(a) + len(a), text.index(z)
    open(V + "/DESIGN.md", "w").write(text[:i] + "\n".join(out) + "\n" + text[j:])


if __name__ == "__main__":
    main()

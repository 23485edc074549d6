"""Writes DESIGN.md from the parts here and what each check states"""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)

HOW = {
"P01": "Executes ode_system and its right-hand side on an arbitrary state; "
"each returned rate is put into the physical law (mhd.py) and the solver "
"decides whether the residual can be non-zero. Tests compare a few runs with "
"stored numbers, so an algebra error present when they were stored passes.",
"P02": "The second derivative of B_φ is checked against the exact derivative "
"(dual numbers over the executed functions) of Ohm's law in Faraday's law.",
"P03": "Executes the start-condition function on arbitrary inputs; oracle: "
"radial and azimuthal balance at the midplane, root choice by comparison, "
"refusal exactly when no real root exists or a parameter is NaN.",
"P04": "The executed coefficient functions give a power series; it is put "
"into the equations with truncated series arithmetic and each order must "
"vanish. Recorded deviations are compared with the formula on record.",
"P05": "Executes the Taylor step (and its ODE variant with a scripted "
"integrator); oracle: evaluation of the series and the grid's tail.",
"P06": "One whole solution call with a recording integrator that returns "
"arbitrary states; oracle: concatenation of the parts, what each integrator "
"call must be given, one Euler step for the jump.",
"P07": "Candidate search on arbitrary profiles (NaN included) against a "
"literal scan; jump against Rankine-Hugoniot; finder with every failure; "
"the command with every choice of solution.",
"P08": "Speeds against the dispersion polynomial (they are its roots, "
"ordered); crossings against a literal scan with linear interpolation.",
"P09": "Arbitrary powers are uninterpreted with their product law; oracle: "
"the scaling exponents and rotation of vectors.",
"P10": "Numbers are opaque tokens with text, so configparser runs "
"unmodified; oracle: field-by-field meaning, precedence of overrides.",
"P11": "The real dumpers and loaders over an in-memory HDF5 with h5py's "
"conversions; replays use h5py files. Round trip is the oracle.",
"P12": "Files of every version are written by a table of what the version "
"stored; the real loaders read them.",
"P13": "Row-by-row concatenation/reversal, naming, and start condition "
"consistency on arrays of symbolic numbers.",
"P14": "Each program's main function runs with the solver stubbed by an "
"arbitrary outcome; oracle: what was asked against what was stored. Table "
"workers are run in-process with any row failing.",
"P15": "Rows written by a literal writer with comments/orders/omissions, "
"read by the real reader; and the programs' dumps read back.",
"P16": "Every short profile: the classifier's answer against a literal "
"specification of each kind, all comparisons decided by the solver.",
"P17": "The real search loop against an arbitrary threshold: bracket and "
"halving invariants at each step, all outcomes at each trial.",
"P18": "The real search loop against arbitrary outcomes: climbing, "
"golden-section invariants, result and record.",
"P19": "Scoring of arbitrary profiles against a literal formula; trials with "
"any failure; walkers' start.",
"P20": "Both sides stubbed with arbitrary results; mismatch, first guess, "
"records and join against literal versions.",
"P21": "The equations are an arbitrary function (uninterpreted, keyed by all "
"arguments they were made with); each entry must be its symmetric "
"difference quotient.",
"P22": "Arbitrary random draws; what is reported is compared with start "
"state and coefficients of the very input.",
"P23": "As P01 for the two solvers without polar flow; the cubic's root is "
"arbitrary among its roots. Without the electric field the speeds are "
"integrated: at states in balance, with a field of fixed components, the "
"rates must keep the azimuthal balance (proved) and the radial balance and "
"the electric field (they do not: recorded, `rates-*`).",
"P25": "The validators are executed on arbitrary states; their residual "
"must be that of the law (mhd.py), however written.",
"P26": "Each statistic of a short arbitrary solution against attainment "
"plus bound (maxima) or the trapezium/parabola integral.",
"P28": "Direction against velocity/field of the closest stored state scaled "
"to the radius; the loop with arbitrary directions; output files.",
"P29": "What is printed is parsed back (numbers are opaque tokens) and "
"compared with what is stored, name by name.",
"P30": "Drawing goes to a recorder; each curve's points are compared with "
"the stated quantity at the points in the limits.",
"P31": "As P30, with name, colour and values of each solution.",
}
COST = dict(
    P01=8, P02=10, P03=2, P04=57, P05=5, P06=70, P07=60, P08=5, P09=6,
    P10=55, P11=12, P12=6, P13=7, P14=100, P15=15, P16=9, P17=7, P18=9,
    P19=10, P20=11, P21=32, P22=11, P23=25, P25=8, P26=9, P28=10, P29=11,
    P30=22, P31=36)


def main():
    sys.path[:0] = [ROOT, os.path.join(ROOT, "props"),
                    os.environ.get("VP_REPO_SRC", "/repo/src")]
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    files = {f[:3].upper(): f[:-3] for f in os.listdir(
        os.path.join(ROOT, "props")) if f[0] == "p" and f[1:3].isdigit()}
    out = [open(os.path.join(HERE, "design_head.md")).read().rstrip()]
    for line in open(os.path.join(ROOT, "properties.jsonl")):
        p = json.loads(line)
        m = importlib.import_module(files[p["id"]])
        out.append(f"\n### {p['id']} {p['title']} (about {COST[p['id']]} s)\n")
        out.append(HOW[p["id"]])
        out.append(f"*Bounds*: {m.BOUNDS}. *Outside*: {m.OUTSIDE}.")
        for what in ("STUBS", "ASSUMPTIONS"):
            v = getattr(m, what, [])
            if v:
                out.append(f"*{what.capitalize()}*: {'; '.join(v)}.")
    out.append("")
    out.append(open(os.path.join(HERE, "design_tail.md")).read())
    with open(os.path.join(ROOT, "DESIGN.md"), "w") as f:
        f.write("\n".join(out))


main()

#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from the catalogue below."""
import glob
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/disc_solver/"
ALL = []


def prop(pid, title, statement, over, text, why, files, mech, na=None):
    ALL.append(dict(
        id=pid, title=title, statement=statement, over=over, text=text,
        why=why, files=[S + f for f in files],
        mech=[dict(name=n, where=S + w) for n, w in mech], na=na,
    ))


prop(
    "P01", "The integrated right-hand side satisfies steady self-similar MHD",
    "At every admissible state and angle the derivatives handed to the "
    "integrator satisfy mass, magnetic-flux and momentum conservation and "
    "keep the azimuthal electric field zero, for both ways of closing the "
    "induction equation (field derivative or radial electric field), for "
    "single states and for arrays of states. Diffusivities follow their "
    "prescribed B²/ρ law (or stay constant when that is switched off), and a "
    "prescribed polar acceleration is used exactly as given. A state with "
    "negative density or negative polar velocity is refused.",
    ["inputs", "configurations"],
    "every real state vector, angle in (-90°, 90°), parameter set and option",
    "Tests evaluate the equations at a few stored solutions and compare "
    "against pinned numbers; a wrong term that is small there passes.",
    ["solve/solution.py", "solve/deriv_funcs.py", "solve/j_e_funcs.py"],
    [("right-hand side", "solve/solution.py:ode_system"),
     ("field and velocity derivatives", "solve/deriv_funcs.py")],
)
prop(
    "P02", "The second-derivative induction closure differentiates Ohm's law",
    "With the field-derivative closure, the second derivative of the "
    "azimuthal field used by the integrator is the one for which the radial "
    "electric field given by Ohm's law evolves as Faraday's law demands, "
    "up to the one discrepancy on record.",
    ["inputs"],
    "every real state, angle, diffusivities; constant or varying diffusivity",
    "The existing test pins a rounding-level residual of one stored run.",
    ["solve/deriv_funcs.py", "solve/solution.py"],
    [("closure", "solve/deriv_funcs.py:dderiv_B_φ_soln")],
)
exec(open(os.path.join(ROOT, "tools", "more.py"), encoding="utf-8").read())

NOTE = (
    "Bounded symbolic execution of the real functions, one SMT query per "
    "claim and path (z3); reals stand for floats; every counterexample is "
    "replayed on the untouched code before it is reported. "
)


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w",
              encoding="utf-8") as f:
        for p in ALL:
            f.write(json.dumps(dict(
                id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["text"]),
                why_tests_cant=p["why"],
                anchors=dict(files=p["files"], mechanism=p["mech"]),
            ), ensure_ascii=False) + "\n")
            assert len(p["title"]) <= 80, p["id"]
    checks, na = [], []
    for p in ALL:
        if glob.glob(os.path.join(ROOT, "props", p["id"].lower() + "_*.py")):
            checks.append(dict(
                property=p["id"], quick_cmd=f"bash check.sh {p['id']} quick",
                thorough_cmd=f"bash check.sh {p['id']} thorough",
                technique="symbolic execution of the real code + SMT (z3)",
                level="model_checking",
                level_note=NOTE + "Bounds, stubs and assumptions are listed "
                "in the evidence file and in the property's module.",
            ))
        else:
            na.append(dict(
                property=p["id"], reason=p["na"] or "check not built yet"
            ))
    with open(os.path.join(ROOT, "MANIFEST.json"), "w",
              encoding="utf-8") as f:
        json.dump(dict(
            version=1, setup_cmd="bash setup.sh", checks=checks,
            not_applicable=na,
        ), f, indent=1, ensure_ascii=False)
        f.write("\n")


main()

"""
The external integrator (scikits.odes CVODE) replaced by its contract: it is
handed a right-hand side, options, an angle grid and a start state, and ends in
one of four ways with arbitrary states on the way.
"""
import numpy as np
from scikits.odes.sundials import (
    CVODESolveFailed, CVODESolveFoundRoot, CVODESolveReachedTSTOP
)
from scikits.odes.sundials.cvode import (
    SolverReturn, SolverVariables, StatusEnum
)

NONE = SolverVariables(None, None)


class Integrator:
    """`script`: list of (outcome, angles, rows) for consecutive calls"""
    def __init__(self, env, script, evaluate=False):
        self.env = env
        self.evaluate = evaluate
        self.script = list(script)
        self.calls = []

    def __call__(self, name, rhs, **options):
        call = dict(rhs=rhs, options=options, name=name)
        owner = self

        class Solver:
            def solve(self, angles, y0):
                call.update(angles=angles, y0=y0)
                owner.calls.append(call)
                return owner.outcome(len(owner.calls) - 1)
        return Solver()

    def rows(self, k, n):
        a = [self.env.array(f"y{k}_{i}", 11) for i in range(n)]
        return self.env.asarray([list(i) for i in a])

    def outcome(self, k):
        how, t, y = self.script[k]
        if self.evaluate:
            for a, b in zip(t, y):
                self.calls[k]["rhs"](
                    a, b, np.zeros(11, dtype=object if self.env.sym else float)
                )
        t = self.env.asarray(list(t))
        end = SolverVariables(t[-1:], y[-1:])
        values = SolverVariables(t, y)
        if how == "finish":
            return SolverReturn(
                StatusEnum.SUCCESS, values, NONE, NONE, NONE, "done"
            )
        if how == "root":
            raise CVODESolveFoundRoot(SolverReturn(
                StatusEnum.ROOT_RETURN, values, NONE, end, NONE, "root"
            ))
        if how == "tstop":
            raise CVODESolveReachedTSTOP(SolverReturn(
                StatusEnum.TSTOP_RETURN, values, NONE, NONE, end, "tstop"
            ))
        flag = (
            StatusEnum.TOO_CLOSE if how == "close" else StatusEnum.CONV_FAILURE
        )
        raise CVODESolveFailed(SolverReturn(
            flag, values, SolverVariables(t[-1], y[-1]), NONE, NONE, "failed"
        ))

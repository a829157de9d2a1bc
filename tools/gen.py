"""Writes properties.jsonl and MANIFEST.json from one table (kept here so that the two
cannot drift apart).  Only properties whose check module exists are claimed."""

import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = "diffrax/"
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=()):
    P.append(
        dict(
            id=id, title=title, statement=statement, over=over, text=text, why=why,
            files=files, mech=mech, technique=technique, note=note, observe=list(observe),
        )
    )


INT = D + "_integrate.py"
prop(
    "C01",
    "Accepted steps tile the interval exactly; rejected steps leave no trace",
    "For every history of accepted and rejected steps, the accepted steps of a solve are contiguous, start at t0 and, if the solve succeeds, end exactly at t1 in either direction of integration, without ever stepping beyond t1. A rejected step changes neither the state, nor the solver's memory, nor the flag telling the solver that the vector field jumped. The step size controller and the solver are asked about exactly these steps, in this order, and an empty interval takes no step at all.",
    ["histories", "inputs", "configurations"],
    "every sequence of accept/reject/grow/shrink/jump decisions of a step size controller, every interval and first step, every loop implementation",
    "The tests run a few fixed solver/controller pairs, whose histories of acceptance are incidental; what is at stake is every order of accepting, rejecting and jumping, and rounding at the end of the interval.",
    [INT, D + "_adjoint.py"],
    [("body of the integration loop: keep/reject selection, clipping to t1", INT + ": loop/body_fun, diffeqsolve")],
    "exhaustive exploration of all controller/solver decision sequences on the real loop, against a reference state machine",
    "Every script of decisions up to the depth is executed on the real diffeqsolve and compared with the reference machine step by step. Trusts JAX/Equinox loops and the scripted solver and controller.",
)
prop(
    "C02",
    "Saved output is exactly what was requested, once each and in order",
    "Whatever combination of the initial value, every n-th step, given times and the final value is requested, the output contains each of them exactly once, in order of time, with the value the solution has at that time; it does not depend on where the steps happened to fall, on rejected steps, or on other requests being made. The same holds for each of several independent requests with their own output functions. Unused slots are filled with infinity, also when a solve stops early.",
    ["histories", "configurations", "inputs"],
    "every combination of save options, every multiset of output times relative to the steps, every history of accepted and rejected steps, early stops",
    "Tests sample a handful of SaveAt combinations with one solver; coincidences of output times with step ends, repeated output times, every n-th step after rejections, and early stops are combinations that only enumeration reaches.",
    [INT, D + "_saveat.py", D + "_misc.py"],
    [("save_state, saving at ts by dense output, steps, t1", INT + ": save_y/body_fun/_save_ts"), ("padding and unsaved handling", INT + ": diffeqsolve epilogue")],
    "exhaustive enumeration of save requests x step histories on the real loop, against a reference model",
    "All combinations within the bounds are run and compared entry by entry.",
)
prop(
    "C03",
    "Dense output is the saved solution, everywhere and consistently",
    "The dense output of a solve reproduces the values at the step ends, is the solver's own interpolant in between, agrees with the output saved at given times, is continuous where the solution is, and at a jump returns the left or right limit as asked. Increments over an interval are differences of values, derivatives are derivatives of the values, and all of this also holds for PyTree states, backwards in time and for solves that stopped early.",
    ["histories", "inputs", "configurations"],
    "every history of steps, every pair of query times in the solved region, both one-sided limits, every solver of the library",
    "Tests look at dense output of a few solvers at a few points; queries that fall on step ends, queries after rejected steps, or both limits backwards in time need every combination.",
    [D + "_global_interpolation.py", D + "_local_interpolation.py", INT, D + "_solution.py"],
    [("DenseInterpolation lookup", D + "_global_interpolation.py: DenseInterpolation"), ("local interpolants", D + "_local_interpolation.py")],
    "exhaustive enumeration of step histories x query points on the real code, against the reference timeline",
    "All histories and query pairs within bounds; derivative compared with finite differences/AD of values.",
)
prop(
    "C04",
    "Every solve ends with the right outcome, statistics and error",
    "A solve reports success only if it reached t1; it reports running out of steps exactly when the budget of attempted steps is used up first; and failures of the solver or of the step size controller end it at once with that very reason, whatever else happens on the same step. The counts of attempted, accepted and rejected steps are exact; by default an unsuccessful solve raises, while with errors switched off it returns what was computed up to there. Non-finite error estimates never lead to a non-finite accepted state being reported as success by an adaptive solve.",
    ["histories", "fault_sequences", "configurations"],
    "every sequence of steps with failures injected at any attempt by solver or controller, every step budget, every loop implementation",
    "Tests provoke each outcome once; precedence between outcomes on the same step and off-by-one in the budget need every fault position and every budget.",
    [INT, D + "_solution.py", D + "_adjoint.py"],
    [("result bookkeeping", INT + ": body_fun, diffeqsolve epilogue"), ("max_steps", INT + ": cond_fun, loop")],
    "exhaustive fault injection (every failure position x every budget) on the real loop, against a reference machine",
    "Every fault position within the depth is injected into the real code.",
)
prop(
    "C05",
    "The adaptive controller follows the documented control law",
    "For every history of error estimates the adaptive controller accepts a step exactly if its scaled error is below one (or the step cannot be shrunk further), and chooses the next step by the documented proportional-integral-derivative law with its safety factor, its bounds on the factor and on the step size. A rejected step is always retried with a smaller step from the same point; steps never leave the permitted range; and if smaller steps than the minimum were needed it either continues with the minimum or reports it, as configured. The error is scaled by atol + rtol times the larger of the two states in magnitude, using the given norm.",
    ["histories", "configurations", "inputs"],
    "every history of error magnitudes including zero, infinity and NaN, every controller configuration, both directions",
    "Tests only run whole solves and look at the answer, which is insensitive to the control law; the memory of earlier errors makes it a property of histories.",
    [D + "_step_size_controller/pid.py"],
    [("PIDController.adapt_step_size", D + "_step_size_controller/pid.py")],
    "exhaustive exploration of error histories through the real controller, against a reference control law",
    "All error histories up to the depth over a set of magnitudes, compared to a direct transcription of the documentation.",
)
prop(
    "C06",
    "Step-to times and jump times are hit exactly, in every history",
    "With step times or jump times prescribed, every such time inside the interval is the end of an accepted step, and no step crosses one, whatever the inner controller does; the inner controller's own step size is resumed afterwards. After a jump time the next step starts just beyond it and the solver is told about the jump, so nothing computed before the jump is reused, and no step evaluates the vector field on both sides. When rejected steps are to be revisited, every time at which a step was rejected is eventually hit exactly, in order.",
    ["histories", "configurations", "inputs"],
    "every history of accept/reject decisions of the inner controller, every set of step and jump times (at the ends, outside, coinciding, unsorted), both directions, nested controllers",
    "The tests check a couple of fixed lists with one history; the position index and the rejected-step buffer are state machines whose errors show only in particular histories.",
    [D + "_step_size_controller/clip.py"],
    [("clipping to the next time, index search, rejected-step buffer", D + "_step_size_controller/clip.py")],
    "exhaustive exploration of inner-controller histories x sets of times on the real controller, against a reference machine",
    "All histories and sets within bounds, executed in the real loop.",
)
prop(
    "C07",
    "Fixed step grids are followed exactly",
    "With a constant step size the n-th step ends at t0 + n dt0 up to rounding in the last place, with one shorter step at the end only if dt0 does not divide the interval, and without a spurious extra step due to rounding. With prescribed step locations the steps are exactly those locations. Both hold forwards and backwards in time, in single and double precision, and for unbounded horizons ended by an event.",
    ["inputs", "configurations"],
    "all origins, step sizes, numbers of steps and remainders within bounds; all subsets of a grid of locations; both directions and precisions",
    "Tests use a few round numbers; rounding errors depend on the particular combination.",
    [D + "_step_size_controller/constant.py", INT],
    [("ConstantStepSize, StepTo", D + "_step_size_controller/constant.py"), ("rounding of tnext to t1", INT + ": body_fun")],
    "exhaustive enumeration of grids on the real code, against exact arithmetic",
    "Every grid within bounds is run to completion.",
)
prop(
    "C08",
    "Events stop the solve at the right step and time",
    "A solve with events ends on the first accepted step after which some event has triggered (a boolean one is true; a real one has changed sign in the requested direction), never on a rejected one, and says which one; if several trigger, exactly the first to be located is the one reported. With root finding, the final time and value are those of the located crossing within that step, and everything saved is consistent with the solve having stopped there. Event functions see real time, state and arguments, and an event never hides a failure.",
    ["histories", "configurations", "inputs"],
    "every history of steps, every position of the crossings relative to the steps, every structure of up to three events of every kind and direction, root finding or not, every way of saving",
    "Tests place one or two events at convenient times; ties, crossings at step ends, reject-then-trigger and events of mixed kinds are combinatorial.",
    [D + "_event.py", INT],
    [("event evaluation, cond_fn and root finding", INT + ": body_fun, diffeqsolve (event handling)")],
    "exhaustive enumeration of event structures x crossing positions x step histories on the real code, against a reference machine",
    "All combinations within bounds.",
)
prop(
    "C09",
    "Integrating backwards in time is the mirror image of forwards",
    "Solving from t0 down to t1 gives exactly the reflected times, values, dense output, statistics and outcome of solving the time-reflected equation forwards. This holds for every solver, step size controller, event and kind of control, including Brownian motion.",
    ["histories", "configurations"],
    "every solver, controller, event kind and control of the library, every history of steps within the bound",
    "Almost all tests integrate forwards.",
    [INT, D + "_term.py", D + "_step_size_controller", D + "_solver", D + "_event.py"],
    [("WrapTerm and direction handling", D + "_term.py: WrapTerm; " + INT)],
    "exhaustive exploration of step histories, comparing two executions of the real code (metamorphic reference)",
    "Every history of depth 2 for each solver; the oracle is the code itself on the reflected problem, whose correctness is pinned by C16-C18.",
)


def extra():
    path = os.path.join(HERE, "tools", "props_more.py")
    if os.path.exists(path):
        ns = dict(prop=prop, D=D, INT=INT)
        exec(open(path).read(), ns)
        return ns.get("NOT_APPLICABLE", [])
    return []


def main():
    na = extra()
    built = [p for p in P if os.path.exists(os.path.join(HERE, "mc", p["id"].lower() + ".py"))]
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in built + [x for x in P if x["id"] in {n["property"] for n in na}]:
            anchors = dict(
                files=p["files"],
                mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
            )
            if p["observe"]:
                anchors["observe_at"] = p["observe"]
            anchors["hook_needed"] = None
            f.write(
                json.dumps(
                    dict(
                        id=p["id"], title=p["title"], statement=p["statement"],
                        quantifier=dict(over=p["over"], text=p["text"]),
                        why_tests_cant=p["why"], anchors=anchors,
                    )
                )
                + "\n"
            )
            assert len(p["title"]) <= 80, p["title"]
    manifest = dict(
        version=1,
        setup_cmd="bash /verif/setup.sh",
        checks=[
            dict(
                property=p["id"],
                quick_cmd=f"bash /verif/check.sh {p['id']} quick",
                thorough_cmd=f"bash /verif/check.sh {p['id']} thorough",
                technique=p["technique"],
                level="model_checking",
                level_note=p["note"],
            )
            for p in built
        ],
        not_applicable=na,
        notes="Checks import diffrax from /repo's working tree (no build product is used); see DESIGN.md.",
    )
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(manifest, f, indent=1)
        f.write("\n")
    print(len(built), "checks")


main()

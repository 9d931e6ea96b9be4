"""Build configurations and per-property run plans."""
GXX, CLANG = "/usr/bin/g++", "/usr/bin/clang++"
CONFIGS = {
    "plain": {"cxx": GXX, "flags": ["-O2"]},
    # null pointers with a zero length are harmless and left to C01 alone
    "asan": {"cxx": CLANG, "flags": ["-O1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
                                     "-fno-sanitize=nonnull-attribute", "-fno-sanitize-recover=all"]},
    "asanx": {"cxx": CLANG, "flags": ["-O1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined,float-cast-overflow",
                                      "-fno-sanitize-recover=all"]},
    # automatic variables prefilled, for comparison with "plain"
    "zero": {"cxx": GXX, "flags": ["-O2", "-ftrivial-auto-var-init=zero"]},
    "pattern": {"cxx": GXX, "flags": ["-O2", "-ftrivial-auto-var-init=pattern"]},
    "msan": {"cxx": CLANG, "flags": ["-O1", "-fno-omit-frame-pointer", "-fsanitize=memory",
                                     "-fsanitize-memory-track-origins=1"]},
    # nothing optimised away before the sanitizer sees it
    "asan0": {"cxx": CLANG, "flags": ["-O0", "-fno-omit-frame-pointer", "-fsanitize=address,undefined,float-cast-overflow",
                                      "-fno-sanitize-recover=all"]},
    "msan0": {"cxx": CLANG, "flags": ["-O0", "-fno-omit-frame-pointer", "-fsanitize=memory",
                                      "-fsanitize-memory-track-origins=1"]},
    "tsan": {"cxx": CLANG, "flags": ["-O0", "-fsanitize=thread"]},
}
PROPS = {}
def run(name, src, config, quick, thorough, **k):
    d = dict(name=name, src=src, config=config, quick=quick, thorough=thorough)
    d.update(k)
    return d

PROPS["C09"] = dict(
    rule="random scenes with independent rows (1-14 bodies, all built-in and user-defined constraint kinds, "
         "generators, loops, anchors), stepped by the optimized system with each solver, bias factor and step "
         "length; non-trivial = at least one constraint row was judged; distinct by bodies, masses, topology, solver",
    runs=[run("plain", "c09.cpp", "plain", 80000, 2500000)],
    require={"rows_judged": 5000})
PROPS["C10"] = dict(
    rule="random scenes stepped by the generic system (Euler, RK4; each solver); every evaluation's state is "
         "recorded at the integrator boundary and judged; non-trivial = at least one row evaluation judged; "
         "distinct by bodies, masses, topology, solver, integrator",
    runs=[run("plain", "c10.cpp", "plain", 180000, 3000000)],
    require={"rows_judged": 10000})
PROPS["C15"] = dict(
    rule="random operation histories over five matrices with an exact integer shadow; every operation checks all five; "
         "distinct by operation and shape sequence",
    runs=[run("plain", "c15.cpp", "plain", 600000, 6000000), run("asan", "c15.cpp", "asan", 32000, 150000)],
    require={"operations_checked": 200000})
PROPS["C16"] = dict(
    rule="random block patterns (0 to thousands of blocks wide) pushed through every operation with dirty targets and "
         "reused shapes, compared exactly; distinct by shape and block pattern",
    runs=[run("plain", "c16.cpp", "plain", 96000, 3000000), run("asan", "c16.cpp", "asan", 20000, 400000)],
    require={"rounds": 8000, "rounds_wider_than_255_blocks": 500})
PROPS["C13"] = dict(
    rule="random sparse systems (0-24 rows, up to 420 blocks, positive, semidefinite and for elimination mixed-sign "
         "weights) solved by new and reused solver objects under default and hostile tuning and every kind of guess; "
         "non-trivial = at least one row judged; distinct by pattern, solver and guess kind",
    runs=[run("plain", "c13.cpp", "plain", 300000, 6000000)],
    require={"successes_judged": 40000, "failures_reported": 1000, "zero_row_systems": 500, "unsupported_solves": 10000, "completeness_cases": 10000})
PROPS["C14"] = dict(
    rule="half the cases judge limited solves for box optimality, half judge reports of worlds full of limited "
         "constraints under changing limits, step lengths and substeps; distinct by pattern or scene",
    runs=[run("plain", "c14.cpp", "plain", 400000, 4000000)],
    require={"rows_at_limit": 5000, "limited_reports": 5000, "reports_at_limit": 500, "neutral_gear_reports": 100,
             "sim_rows_free": 2000, "sim_rows_at_limit": 500})
PROPS["C07"] = dict(
    rule="every built-in constraint kind at random configurations, velocities and parameters; fourth-order differences "
         "of the reported error and of the reported Jacobian; distinct by kind and parameters",
    runs=[run("plain", "c07.cpp", "plain", 4000000, 60000000)],
    require={"derivatives_judged": 100000, "rates_judged": 100000, "velocity_cases": 5000})
PROPS["C08"] = dict(
    rule="every built-in constraint kind at random configurations: geometry, completeness of the output, independence "
         "from everything else; distinct by kind and parameters",
    runs=[run("plain", "c08.cpp", "plain", 4000000, 60000000)],
    require={"rows_judged": 80000, "positional_cases": 20000, "velocity_cases": 5000})
PROPS["C19"] = dict(
    rule="random body poses, velocities, points and forces; distinct by point and body position",
    runs=[run("plain", "c19.cpp", "plain", 4000000, 60000000)], require={"points_judged": 50000})
PROPS["C20"] = dict(
    rule="random generators applied to prefilled states (registered, unregistered and unset ends, coincident springs, "
         "saturated motors); distinct by kind and parameters",
    runs=[run("plain", "c20.cpp", "plain", 4000000, 60000000)],
    require={"gravity": 5000, "static": 5000, "springs": 5000, "motors_saturated": 1000, "motors_unsaturated": 1000,
             "coincident_springs": 1000, "short_springs": 1000})

PROPS["C11"] = dict(
    rule="random scenes (limits, loops, anchors, motors) in both systems under every solver and integrator, dt and "
         "substep count; per-body momentum account of the last substep and row-by-row force reports; non-trivial = a "
         "world with constraints was judged; distinct by bodies, masses, topology, solver, system",
    runs=[run("plain", "c11.cpp", "plain", 80000, 2500000)],
    require={"reports_judged": 20000, "anchor_reports_judged": 4000, "multi_substep_frames": 2000, "rk4_worlds": 1000, "euler_worlds": 1000})
PROPS["C12"] = dict(
    rule="isolated or uniformly forced worlds of linked, rolling, welded, clutched, geared, sprung and motor-driven "
         "bodies; linear momentum ledger per frame in every system, angular ledger per velocity-level step, pairwise "
         "ledger for single springs/motors/clutches; distinct by bodies, masses, topology, solver",
    runs=[run("plain", "c12.cpp", "plain", 60000, 2500000)],
    require={"frames_linear": 20000, "frames_angular": 20000, "frames_closed_links": 500, "pairs_motor": 200, "pairs_clutch": 200})
PROPS["C18"] = dict(
    rule="two copies of a random scene, one processed in substeps, one in single steps of the same length; compared "
         "bit for bit; non-trivial = at least one frame with more than one substep; distinct by scene, solver, system",
    runs=[run("plain", "c18.cpp", "plain", 40000, 1200000)],
    require={"frames_with_substeps": 10000, "elapsed_judged": 3000, "worlds_rk4": 500})
PROPS["C27"] = dict(
    rule="random histories of resize, copy, rewrite and destroy over three state buffers with a shadow image of each; "
         "distinct by operation and size sequence",
    runs=[run("plain", "c27.cpp", "plain", 800000, 18000000), run("asan", "c27.cpp", "asan", 48000, 600000)],
    require={"copies": 10000, "copies_resizing": 5000, "copies_rows_only": 500, "same_size_resizes": 5000, "destroys": 5000})

TECHNIQUE = {
    "C01": "ASan+UBSan on random API histories, asserts on, hang watchdog",
    "C02": "allocation ledger in replaced operator new/delete over random histories",
    "C03": "result-trace comparison across heap fills, stack fills and layouts; MemorySanitizer",
    "C04": "online registry monitor with counting generators and constraints",
    "C05": "differential monitor: edited world against fresh world",
    "C06": "differential monitor: group alone against group among others",
    "C07": "online derivative monitor on reported errors and Jacobians",
    "C08": "online geometry monitor with independent reference and poisoned outputs",
    "C09": "online row-law monitor at the velocity step",
    "C10": "online row-law monitor at every evaluation (recorded at the integrator boundary)",
    "C11": "momentum-account monitor against reported forces",
    "C12": "momentum ledger monitor",
    "C13": "solver-boundary monitor recomputing residuals",
    "C14": "solver-boundary and report monitor of box optimality",
    "C15": "shadow-model monitor over operation histories, ASan+UBSan",
    "C16": "dense shadow-model monitor over operation histories, ASan+UBSan",
    "C17": "integrator monitor: exact step laws and observed order of convergence",
    "C18": "differential monitor: substeps against repeated steps, bitwise",
    "C19": "online frame, velocity and power-identity monitor",
    "C20": "online force-law monitor on prefilled states",
    "C21": "differential monitor: scene against moved, turned, boosted scene",
    "C22": "ThreadSanitizer and concurrent-against-alone trace comparison",
    "C23": "online joint-error monitor over long runs",
    "C24": "virtual clock injection with exact expected averages",
    "C25": "row-law and account monitors on anchored scenes, ASan+UBSan",
    "C26": "online drivetrain-law monitor over time with changing settings",
    "C27": "shadow-model monitor over operation histories, ASan+UBSan",
    "C28": "energy ledger monitor",
    "C29": "differential monitor: scene against the same scene in other units",
    "C30": "construction monitor: objects created over patterned memory, setters diffed field by field",
    "C31": "online state monitor inside every generator, constraint and integrator call",
    "C32": "protocol automaton driven by user-defined integrator, solver, constraints and generators",
}
PROPS["C17"] = dict(
    rule="integrators driven on bare states under random coupled laws (sizes change between rounds), constrained worlds "
         "run at h, h/2, h/4 against h/32, and single system steps; non-trivial = at least one body; distinct by scene or law",
    runs=[run("plain", "c17.cpp", "plain", 9000, 250000)],
    require={"orders_judged": 800, "euler_steps": 500, "nsv_steps": 500, "rk4_constant_steps": 500, "system_steps": 1000, "worlds_judged": 300})
PROPS["C21"] = dict(
    rule="a random scene and its translated, turned or boosted twin stepped side by side in every system; non-trivial = "
         "at least one body compared after a step; distinct by scene, system and kind of move",
    runs=[run("plain", "c21.cpp", "plain", 240000, 6000000)],
    require={"frames_turned": 2000, "frames_shifted": 2000, "frames_boosted": 2000, "reports_compared": 10000})
PROPS["C29"] = dict(
    rule="a random scene and the same scene in other units of mass, length and time stepped side by side in every system "
         "(power-of-two units under elimination digit for digit, general units within tolerance); non-trivial = at least "
         "one body compared after a step; distinct by scene, system, solver and units",
    runs=[run("plain", "c29.cpp", "plain", 80000, 4000000)],
    require={"frames_exact": 5000, "frames_general": 5000, "reports_compared": 20000})
PROPS["C30"] = dict(
    rule="every class constructed over patterned memory and over the remains of a used object, all public fields compared "
         "with the neutral ones; unconfigured constraints and generators evaluated at random configurations; every setter "
         "diffed over all fields, and so are all objects of a random world around registration, steps, evaluation, queries and removal; distinct by class, fill and values",
    runs=[run("plain", "c30.cpp", "plain", 1000000, 20000000), run("asan", "c30.cpp", "asan", 100000, 2000000)],
    require={"values_compared": 1000000, "default_rows": 50000, "default_forces": 50000, "setters": 50000, "uses_judged": 300000})
PROPS["C31"] = dict(
    rule="random histories over 1-3 systems of both kinds (edits, resets, shared solvers and integrators, substeps); inside "
         "every generator, constraint and integrator call the shown state is compared with the bodies, with the integrator's "
         "last word and with the forces applied so far; distinct by history seed",
    runs=[run("plain", "c31.cpp", "plain", 100000, 3000000)],
    require={"callbacks_judged": 500000, "later_evaluations": 100000, "reports_matched": 50000, "frames": 100000})
PROPS["C32"] = dict(
    rule="worlds built entirely of user-defined parts (integrators of random stage counts that overwrite the state, solvers "
         "that answer anything, constraints of 1-3 rows on 1-2 bodies, generators) run against a protocol automaton and the "
         "documented assembly formulas; distinct by bodies, constraints and rows per frame",
    runs=[run("plain", "c32.cpp", "plain", 60000, 2000000), run("asan", "c32.cpp", "asan", 3000, 80000)],
    require={"evaluations_judged": 100000, "rows_judged": 500000, "limited_solves": 20000, "plain_solves": 20000, "generic_solves": 100000,
             "advances_judged": 50000, "rows_on_unregistered_bodies": 50000})
PROPS["C26"] = dict(
    rule="sets and chains of friction, clutch, gear and drive devices under loads with settings changing between frames; "
         "speeds, angles and torques against closed forms or the enumerated box solution; distinct by devices and limits",
    runs=[run("plain", "c26.cpp", "plain", 800000, 15000000)],
    require={"frames_judged": 50000, "gears_in_neutral": 2000, "gears_engaged": 2000, "clutches_slipping": 2000, "clutches_locked": 2000,
             "drives_at_limit": 2000, "drives_at_speed": 2000, "friction_sliding": 2000, "friction_holding": 2000})
PROPS["C23"] = dict(
    rule="random mechanisms over tens to hundreds of velocity-level frames with a per-row, per-frame bound, and "
         "smoothly started RK4 mechanisms at three step lengths; distinct by scene and solver",
    runs=[run("plain", "c23.cpp", "plain", 24000, 240000)],
    require={"joint_rows_judged": 300000, "orders_judged": 500})
PROPS["C28"] = dict(
    rule="passive worlds (no generators, bias factor 0, limits around zero) frame by frame, and RK4 mechanisms with "
         "gravity and springs whose energy account (change plus dissipated work) must close to fourth order; distinct by scene",
    runs=[run("plain", "c28.cpp", "plain", 37500, 600000)],
    require={"passive_frames": 30000, "ledgers_conservative": 300, "ledgers_damped": 300, "frames_losing_energy": 1000, "spring_paths": 400})

SAN = dict(crash_only=True)
PROPS["C01"] = dict(
    rule="random histories over 1-4 systems of both kinds sharing solvers and integrators (tiny, empty and large worlds, "
         "edits, resets, destruction in several orders) under ASan+UBSan; further runs drive every other API surface "
         "through other harnesses with only the sanitizers judging; distinct by history seed",
    runs=[run("histories", "c01.cpp", "asanx", 24000, 600000), run("histories-plain", "c01.cpp", "plain", 24000, 800000),
          run("solvers", "c13.cpp", "asanx", 6000, 240000, **SAN), run("limits", "c14.cpp", "asanx", 4000, 120000, **SAN),
          run("constraints", "c08.cpp", "asanx", 8000, 240000, **SAN), run("generators", "c20.cpp", "asanx", 8000, 240000, **SAN),
          run("frames", "c19.cpp", "asanx", 8000, 240000, **SAN), run("integrators", "c17.cpp", "asanx", 1200, 32000, **SAN),
          run("drivetrain", "c26.cpp", "asanx", 1200, 40000, **SAN), run("matrices", "c15.cpp", "asanx", 6000, 240000, **SAN),
          run("sparse", "c16.cpp", "asanx", 2000, 80000, **SAN), run("states", "c27.cpp", "asanx", 8000, 320000, **SAN),
          run("histories-unoptimised", "c01.cpp", "asan0", 2400, 60000), run("constraints-unoptimised", "c08.cpp", "asan0", 2000, 40000, **SAN),
          run("sparse-unoptimised", "c16.cpp", "asan0", 500, 16000, **SAN), run("solvers-unoptimised", "c13.cpp", "asan0", 800, 24000, **SAN),
          run("matrices-unoptimised", "c15.cpp", "asan0", 1000, 32000, **SAN)],
    require={"steps": 50000, "large_worlds": 200, "empty_worlds_stepped": 500})
PROPS["C02"] = dict(
    rule="half whole-library histories ended by destroying everything in several orders, half single buffers, solvers "
         "and integrators used, destroyed and used again (zero sizes included); ledger of every operator new/delete in "
         "the plain build, LeakSanitizer and alloc/dealloc matching in the asan build; distinct by history seed",
    runs=[run("ledger", "c02.cpp", "plain", 200000, 8000000), run("asan", "c02.cpp", "asan", 40000, 1200000)],
    require={"histories": 10000, "steps": 50000, "buffers_destroyed": 10000, "tool_uses": 5000, "blocks_tracked": 1000000})
def _c03(name, config, q, t, **env):
    return run(name, "c03.cpp", config, q, t, env={k: str(v) for k, v in env.items()})
PROPS["C03"] = dict(
    rule="the same random histories (bodies, constraints, edits, shared solvers) executed with fresh heap memory all zero, "
         "all ones, random numbers; varied addresses; dirty stacks; automatic variables prefilled by the compiler; a "
         "jumping clock; other worlds interleaved: every result trace compared bit for bit; plus MemorySanitizer on the "
         "results; distinct by history seed",
    compare=True,
    runs=[_c03("heap-zero", "plain", 24000, 480000, VF_FILL=0),
          _c03("heap-ones", "plain", 24000, 480000, VF_FILL=255, VF_STACK=255),
          _c03("heap-random", "plain", 24000, 480000, VF_FILL=256, VF_STACK=256, VF_SCATTER=1, VF_CLOCK=1),
          _c03("company", "plain", 24000, 480000, VF_FILL=63, VF_STACK=63, VF_COMPANY=1),
          _c03("auto-zero", "zero", 24000, 480000, VF_FILL=0), _c03("auto-pattern", "pattern", 24000, 480000, VF_FILL=127),
          _c03("msan", "msan", 7500, 160000), _c03("msan-unoptimised", "msan0", 1600, 40000)],
    require={"steps": 100000, "traces_compared": 30000})
PROPS["C04"] = dict(
    rule="random histories over 1-3 systems with a set model checked after every operation (add, remove in any order, "
         "re-add, reset, destroy, step); every constraint and generator counts its evaluations; distinct by history seed",
    runs=[run("plain", "c04.cpp", "plain", 144000, 5000000)],
    require={"registry_checks": 200000, "steps": 50000, "calls_accounted": 200000, "remove-body": 5000,
             "remove-constraint": 5000, "remove-generator": 5000, "reset": 500, "foreign_bodies_checked": 50000, "bodies_advanced": 50000})
PROPS["C05"] = dict(
    rule="worlds reached through random histories against newly built worlds with the same contents in the same order "
         "(bitwise under elimination and iterative solvers without a guess, 1e-5 with their warm start), and used against new solver and "
         "integrator objects (bitwise); distinct by scene, system and solver",
    runs=[run("plain", "c05.cpp", "plain", 90000, 5000000)],
    require={"frames_bitwise_constrained": 3000, "frames_iterative": 1500, "frames_bitwise_iterative": 1500, "reuse_frames": 10000, "reports_compared": 10000})
PROPS["C06"] = dict(
    rule="a random group stepped alone and among 1 to 350 unconnected bodies with their own constraints and generators, "
         "bodies, constraints and generators registered in random interleavings; motion and every force report compared; "
         "distinct by group, world size, system and solver",
    runs=[run("plain", "c06.cpp", "plain", 90000, 1500000)],
    require={"frames_compared": 10000, "reports_compared": 20000, "frames_in_large_worlds": 500,
             "frames_with_group_beyond_index_255": 100, "free_bodies_checked": 5000,
             "groups_beside_heavy_loads": 1500, "huge_worlds": 10})
PROPS["C22"] = dict(
    rule="2-6 threads started together, each with its own random history of worlds, solvers, integrators and direct use "
         "of matrices, states and bodies (40% of the cases: the same history in every thread); each thread's result trace "
         "against the same history alone; the tsan build reports races; distinct by seeds",
    runs=[run("tsan", "c22.cpp", "tsan", 1200, 20000, procs=3), run("plain", "c22.cpp", "plain", 6000, 100000, procs=4)],
    require={"steps_concurrent": 100000, "tool_uses_concurrent": 20000, "cases_in_lockstep": 500})
PROPS["C24"] = dict(
    rule="systems run for 1 to thousands of frames under a virtual clock that moves only inside generators, constraints, "
         "solver and integrator (exact expected averages), under a clock that ticks at every look, and under the real one; "
         "distinct by construction (system kinds, contents, frame counts)",
    runs=[run("plain", "c24.cpp", "plain", 20000, 200000)],
    require={"averages_above_zero": 20000, "judged_beyond_capacity": 5000, "ticking_judged": 2000, "resets": 1000})
PROPS["C25"] = dict(
    rule="scenes with clutches, gears, user constraints, springs and motors on unregistered bodies (moving fields, odd "
         "masses): row laws and force account with the anchors at rest, anchors compared bit for bit; against twins with "
         "the anchors registered and all but immovable; against equivalent world constraints; non-trivial = an anchor is "
         "used; distinct by scene, system, solver",
    runs=[run("plain", "c25.cpp", "plain", 120000, 4000000), run("asan", "c25.cpp", "asan", 15000, 500000)],
    require={"rows_judged": 20000, "components_accounted": 50000, "heavy-twin": 5000, "world-twin": 3000, "anchor_uses": 20000})

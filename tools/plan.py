"""What decides each property: stages of bin/check."""

ASSUME = [
    "the driver records what the public API returned (driver/ is trusted)",
    "TLC evaluates the specification correctly",
]


def scene(mode, quick, thorough, **kw):
    return dict(kind="trace", mode=mode, n=(quick, thorough), spec="TraceScene", rounds=6, **kw)


def trace(mode, spec, quick, thorough, rounds=4, **kw):
    return dict(kind="trace", mode=mode, n=(quick, thorough), spec=spec, rounds=rounds, **kw)


def model(module, cfg, min_states=100, **kw):
    return dict(kind="model", module=module, cfg=cfg, min_states=min_states, **kw)


SCENE = model("MC_Scene", "MC_Scene.cfg", 20000)
WIDE = model("MC_Scene", "MC_SceneWide.cfg", 100000, tier="thorough", timeout=3000)


def fed(mode, cfg, module="MC_Placements", spec="TraceScene", **kw):
    """behaviours generated from the specification, carried out on the library"""
    f = dict(module=module, cfg=cfg + ".cfg")
    for k in ("num", "depth"):
        if k in kw:
            f[k] = kw.pop(k)
    return dict(kind="trace", mode=mode, n=(0, 0), spec=spec, rounds=1, feed=f, **kw)


GRID = fed("grid", "MC_Placements")
GRIDW = fed("grid", "MC_PlacementsWide", tier="thorough")
JOURNEYS = [fed("plan", "MC_Journeys", "MC_Journeys"), fed("plan", "MC_JourneysSim", "MC_Journeys", num=(600, 6000), depth=24), fed("plan", "MC_JourneysWide", "MC_Journeys", tier="thorough")]
PLAN = {
    "C01": dict(stages=[SCENE, WIDE, GRID, GRIDW, scene("c01", 50000, 60000)]),
    "C02": dict(stages=[SCENE, WIDE, GRID, GRIDW, scene("c02", 50000, 60000)]),
    "C03": dict(stages=[SCENE, WIDE, GRID, GRIDW, scene("c03", 50000, 60000)]),
    "C04": dict(stages=[SCENE, fed("gridsdf", "MC_Placements"), fed("gridsdf", "MC_PlacementsWide", tier="thorough"), scene("c04", 60000, 60000)]),
    "C05": dict(stages=[SCENE, JOURNEYS[1], scene("c05", 40000, 60000)]),
}
PLAN.update({
    "S01": dict(stages=[model("MC_Shapes", "MC_Shapes.cfg", 200), trace("s01", "TraceShapes", 20000, 60000)]),
    "S02": dict(stages=[model("MC_Shapes", "MC_Shapes.cfg", 200), trace("s02", "TraceShapes", 20000, 60000)]),
    "S03": dict(stages=[trace("s03", "TraceShapes", 10000, 30000)]),
    "T01": dict(stages=[model("MC_Transforms", "MC_Transforms.cfg", 2000), trace("t01", "TraceTransforms", 20000, 60000)]),
    "T02": dict(stages=[model("MC_Transforms", "MC_Transforms.cfg", 2000), trace("t02", "TraceTransforms", 20000, 60000)]),
    "T03": dict(stages=[model("MC_Rotors", "MC_Rotors.cfg", 2000), trace("t03", "TraceRotors", 10000, 40000)]),
})


HIST = dict(module="MC_Tilemap", cfg="MC_TilemapHist.cfg")
SIM = dict(module="MC_Tilemap", cfg="MC_TilemapSim.cfg", num=(300, 3000), depth=42)


def tilemap(mode):
    return [
        model("MC_Tilemap", "MC_Tilemap.cfg", 20000),
        trace(mode, "TraceTilemap", 0, 0, feed=HIST, rounds=1) if mode != "m03" else model("MC_Tilemap", "MC_TilemapDisk.cfg", 200000),
        trace(mode, "TraceTilemap", 0, 0, feed=SIM, rounds=1),
        trace(mode, "TraceTilemap", 1500, 6000),
        model("MC_Tilemap", "MC_TilemapDisk3.cfg", 1000000, tier="thorough"),
    ]


PLAN.update({
    "M01": dict(stages=tilemap("m01")),
    "M02": dict(stages=tilemap("m02")),
    "M03": dict(stages=tilemap("m03")),
    "M04": dict(stages=[model("MC_Tiles", "MC_Tiles.cfg", 2000), trace("m04", "TraceTiles", 8000, 40000)]),
    "M05": dict(stages=[trace("m05", "TraceTiles", 4000, 20000)]),
    "M06": dict(stages=[model("MC_Resolve", "MC_Resolve.cfg", 50000), trace("m06", "TraceResolve", 20000, 60000)]),
    "U02": dict(stages=[trace("u02", "TracePublisher", 0, 0, feed=dict(module="MC_Publisher", cfg="MC_Publisher.cfg"), rounds=1), trace("u02", "TracePublisher", 3000, 20000)]),
    "U03": dict(stages=[model("MC_Approx", "MC_Approx.cfg", 120000), trace("u03", "TraceApprox", 20000, 60000)]),
    "U04": dict(stages=[model("MC_Interp", "MC_Interp.cfg", 100000), trace("u04", "TraceInterp", 10000, 60000)]),
    "U01": dict(stages=[model("MC_Rect2", "MC_Rect2.cfg", 5000), trace("u01", "TraceRect2", 5000, 20000)]),
})
for p in PLAN.values():
    p.setdefault("assumptions", ASSUME)

PLAN.update({
    "C06": dict(stages=[model("MC_Calls", "MC_Calls.cfg", 4000), trace("c06", "TraceCalls", 12000, 60000, stdout=True)]),
})

PLAN.update({
    "C07": dict(stages=[model("MC_Evidence", "MC_Evidence.cfg", 50000), scene("c07", 25000, 60000), trace("c07e", "TraceEvidence", 3000, 12000)]),
})

PLAN.update({
    "H01": dict(stages=[SCENE] + JOURNEYS + [scene("h01", 6000, 20000)]),
})

BEVY = dict(crate="bevy_driver")
PLAN["C06"]["stages"].append(trace("c06", "TraceCalls", 3000, 20000, stdout=True, **BEVY))
PLAN.update({
    "T04": dict(stages=[
        scene("t04", 25000, 60000, **BEVY),
        scene("t04h", 1500, 8000, **BEVY),
        fed("plan", "MC_JourneysSim", "MC_Journeys", num=(200, 3000), depth=24, **BEVY),
        trace("t04m", "TraceTransforms", 8000, 30000, **BEVY),
        trace("t04c", "TraceTransforms", 8000, 30000, **BEVY),
        trace("t04s", "TraceShapes", 6000, 30000, **BEVY),
    ]),
})

SPACE = dict(crate="space_driver")
PLAN.update({
    "D01": dict(stages=[model("MC_Space", "MC_Solids.cfg", 300), trace("d01", "TraceSpace", 20000, 80000, **SPACE)]),
    "D02": dict(stages=[model("MC_Space", "MC_SpaceLaws.cfg", 5000), trace("d02", "TraceSpace", 12000, 40000, **SPACE)]),
    "D03": dict(stages=[trace("d03", "TraceSpace", 15000, 60000, **SPACE)]),
})

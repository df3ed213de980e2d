"""One function per property: which specification is checked, which behaviours are generated and replayed, which
recorded traces are validated.  See DESIGN.md."""


def c01(c):
    c.mc("MCCalendar")
    scn = c.generate("CalendarGen", simulate=c.n(60, 600), depth=12)
    c.validate("CalendarTrace", c.record("calendar", shards=8, scenarios=scn))


def c02(c):
    c.mc("MCPeriod", "MCPeriod.cfg" if not c.thorough else "MCPeriodDeep.cfg")
    scn = c.generate("PeriodGen")
    c.validate("PeriodTrace", c.record("period", shards=8, scenarios=scn))


def c03(c):
    c.mc("MCWeather", "MCWeatherDeep.cfg" if c.thorough else "MCWeather.cfg")
    scn = c.generate("WeatherGen")
    c.validate("WeatherTrace", c.record("weather", shards=8, scenarios=scn))


def c04(c):
    c.mc("MCEpw", "MCEpwDeep.cfg" if c.thorough else "MCEpw.cfg")
    scn = c.generate("EpwGen")
    c.validate("EpwTrace", c.record("epw", shards=8, scenarios=scn))


def c05(c):
    c.mc("MCStateHeader")
    scn = c.generate("StateHeaderGen")
    c.validate("StateHeaderTrace", c.record("header", shards=8, scenarios=scn))


def c06(c):
    c.mc("MCAssembly", "MCAssemblyDeep.cfg" if c.thorough else "MCAssembly.cfg", workers=8)
    scn = c.generate("AssemblyGen", simulate=c.n(2500, 20000), depth=20)
    c.validate("AssemblyTrace", c.record("assembly", shards=8, scenarios=scn))


def c07(c):
    c.mc("MCMatAlg", "MCMatAlgDeep.cfg" if c.thorough else "MCMatAlg.cfg", workers=8)
    scn = c.generate("MatAlgGen", simulate=c.n(25, 250), depth=10)
    c.validate("MatAlgTrace", c.record("matrix", shards=8, scenarios=scn))


def c08(c):
    c.mc("MCAirFlow", "MCAirFlowDeep.cfg" if c.thorough else "MCAirFlow.cfg", workers=8)
    scn = c.generate("AirFlowGen")
    c.validate("AirFlowTrace", c.record("airflow", shards=8, scenarios=scn))


def c09(c):
    c.mc("MCHvacControl", "MCHvacControlDeep.cfg" if c.thorough else "MCHvacControl.cfg", workers=8)
    scn = c.generate("HvacControlGen")
    c.validate("HvacControlTrace", c.record("hvac", shards=8, scenarios=scn))


def c10(c):
    c.mc("MCZoneHeat", "MCZoneHeatDeep.cfg" if c.thorough else "MCZoneHeat.cfg", workers=8)
    scn = c.generate("ZoneHeatGen")
    c.validate("ThermalTrace", c.record("zones", shards=8, scenarios=scn), cfg="ThermalTraceZone.cfg")


def c11(c):
    c.mc("MCRunLoop", workers=8)
    scn = c.generate("RunLoopGen")
    c.validate("RunLoopTrace", c.record("runs", shards=8, scenarios=scn))


def c12(c):
    c.mc("MCWall", "MCWallDeep.cfg" if c.thorough else "MCWall.cfg", workers=8)
    scn = c.generate("WallGen")
    c.validate("ThermalTrace", c.record("walls", shards=8, scenarios=scn), cfg="ThermalTraceWall.cfg")


def c13(c):
    c.mc("MCDiscretization", "MCDiscretizationDeep.cfg" if c.thorough else "MCDiscretization.cfg", workers=8)
    scn = c.generate("DiscretizationGen")
    c.validate("DiscretizationTrace", c.record("disc", shards=8, scenarios=scn))


def c14(c):
    c.mc("MCCavity", workers=8)
    scn = c.generate("CavityGen")
    c.validate("CavityTrace", c.record("cavity", shards=8, scenarios=scn))


def c15(c):
    c.mc("MCGlazing", "MCGlazingDeep.cfg" if c.thorough else "MCGlazing.cfg", workers=8)
    scn = c.generate("GlazingGen")
    c.validate("GlazingTrace", c.record("glazing", shards=8, scenarios=scn))


def c16(c):
    c.mc("MCControlApi", workers=8)
    scn = c.generate("ControlApiGen")
    c.validate("ControlApiTrace", c.record("api", shards=8, scenarios=scn))


def c17(c):
    c.mc("MCSun", "MCSunDeep.cfg" if c.thorough else "MCSun.cfg", workers=8)
    scn = c.generate("SunGen")
    c.validate("SunTrace", c.record("sun", shards=8, scenarios=scn))


def c18(c):
    c.mc("MCDome", "MCDomeDeep.cfg" if c.thorough else "MCDome.cfg", workers=8)
    scn = c.generate("DomeGen")
    c.validate("DomeTrace", c.record("dome", shards=8, scenarios=scn))


def c19(c):
    c.mc("MCPerezSky", "MCPerezSkyDeep.cfg" if c.thorough else "MCPerezSky.cfg", workers=8)
    scn = c.generate("PerezSkyGen")
    c.validate("PerezSkyTrace", c.record("perez", shards=8, scenarios=scn))


def c20(c):
    c.mc("MCLoops", "MCLoopsDeep.cfg" if c.thorough else "MCLoops.cfg", workers=8)
    scn = c.generate("LoopsGen", simulate=c.n(1600, 12000), depth=17)
    c.validate("LoopsTrace", c.record("loops", shards=8, scenarios=scn))


def c21(c):
    c.mc("MCTriangulation", workers=8)
    c.mc("MCTriangulation", "MCTriangulationTwo.cfg", workers=8)
    scn = c.generate("TriangulationGen", simulate=c.n(700, 6000), depth=17)
    c.validate("TriangulationTrace", c.record("triang", shards=8, scenarios=scn))


def c22(c):
    c.mc("MCBvh", "MCBvhDeep.cfg" if c.thorough else "MCBvh.cfg", workers=8)
    scn = c.generate("SceneGen", simulate=c.n(12, 120), depth=41)
    c.validate("SceneTrace", c.record("scenes", shards=8, scenarios=scn))


def c23(c):
    c.mc("MCPlacement", "MCPlacementDeep.cfg" if c.thorough else "MCPlacement.cfg", workers=8)
    scn = c.generate("PlacementGen", simulate=c.n(40, 300), depth=71)
    c.validate("PlacementTrace", c.record("shapes", shards=8, scenarios=scn))


def c24(c):
    c.mc("MCClouds", workers=8)
    scn = c.generate("CloudsGen", simulate=c.n(60, 600), depth=101)
    c.validate("CloudsTrace", c.record("clouds", shards=8, scenarios=scn))


def c25(c):
    c.mc("MCRadiation", "MCRadiationDeep.cfg" if c.thorough else "MCRadiation.cfg", workers=8)
    scn = c.generate("RadiationGen", simulate=c.n(12, 60), depth=61)
    c.validate("RadiationTrace", c.record("light", shards=8, scenarios=scn))


def c26(c):
    c.mc("MCSpl", "MCSplDeep.cfg" if c.thorough else "MCSpl.cfg", workers=8)
    c.mc("MCSpl", "MCSplAnyDeep.cfg" if c.thorough else "MCSplAny.cfg", workers=8)
    scn = c.generate("SplGen", simulate=c.n(8, 100), depth=41)
    c.validate("SplTrace", c.record("text", shards=8, scenarios=scn))


def c27(c):
    c.mc("MCPictures", workers=8)
    scn = c.generate("PicturesGen", simulate=c.n(24, 240), depth=61)
    c.validate("PicturesTrace", c.record("pictures", shards=8, scenarios=scn))


def c28(c):
    c.mc("MCMatrixFiles", workers=8)
    scn = c.generate("MatrixFilesGen", simulate=c.n(20, 300), depth=61)
    c.validate("MatrixFilesTrace", c.record("mfiles", shards=8, scenarios=scn))


def c29(c):
    c.mc("MCCamera", workers=8)
    scn = c.generate("CameraGen", simulate=c.n(24, 240), depth=61)
    c.validate("CameraTrace", c.record("camera", shards=8, scenarios=scn))

def c30(c):
    c.mc("MCLightPaths", "MCLightPathsDeep.cfg" if c.thorough else "MCLightPaths.cfg", workers=8)
    scn = c.generate("LightPathsGen", simulate=c.n(24, 240), depth=61)
    c.validate("LightPathsTrace", c.record("lightpaths", shards=8, scenarios=scn))


PROPS = {k.upper(): v for k, v in list(globals().items()) if k[0] == "c" and k[1:].isdigit()}

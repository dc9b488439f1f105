"""The checks, one function per property."""
import os
import vlib

CHECKS = {}


def check(f):
    CHECKS[f.__name__] = f
    return f


def scripts_from_sim(c, module, cfg, num, depth, name, dedupe=True):
    hs = c.simulate(module, cfg, num, depth)
    if dedupe:
        seen, out = set(), []
        for h in hs:
            k = tuple(h)
            if k not in seen:
                seen.add(k); out.append(h)
        hs = out
    p = os.path.join(vlib.scratch_dir(), name + ".script")
    vlib.write_scripts(p, hs)
    return p, len(hs)


@check
def S01(c):
    exe = vlib.build_driver("fs", "asan")
    c.model_check("MCFileStream", c.n("MCFileStream.cfg", "MCFileStream.cfg"))
    p, n = scripts_from_sim(c, "MCFileStream", "GenFileStream.cfg", c.n(400, 4000), 60, "S01")
    c.conform(exe, "TraceFileStream", "TraceFileStream.cfg", n, 60 if not c.thorough else 400, ["--script", p], label="spec-generated")
    c.conform(exe, "TraceFileStream", "TraceFileStream.cfg", c.n(1600, 40000), 100 if not c.thorough else 500, ["--ops", 90], label="random")


@check
def S02(c):
    exe = vlib.build_driver("fs", "asan")
    c.model_check("MCFileStream", c.n("MCFileStream.cfg", "MCFileStream.cfg"))
    c.conform(exe, "TraceFileStream", "TraceFileStream.cfg", c.n(2400, 40000), 150 if not c.thorough else 500, ["--ops", 60, "--life", 1], label="lifecycle")


@check
def S03(c):
    exe = vlib.build_driver("fs", "asan")
    c.model_check("MCFileStream", "MCFileStream.cfg")
    c.conform(exe, "TraceFileStream", "TraceFileStream.cfg", c.n(1200, 30000), 60 if not c.thorough else 400, ["--ops", 60, "--mode", "multi"], label="several streams")


@check
def S04(c):
    exe = vlib.build_driver("us", "asan")
    c.model_check("MCSharedFile", "MCSharedFile.cfg")
    p, n = scripts_from_sim(c, "MCSharedFile", "GenSharedFile.cfg", c.n(400, 4000), 60, "S04")
    c.conform(exe, "TraceSharedFile", "TraceSharedFile.cfg", n, 60 if not c.thorough else 400, ["--script", p], label="spec-generated")
    c.conform(exe, "TraceSharedFile", "TraceSharedFile.cfg", c.n(1600, 40000), 100 if not c.thorough else 500, ["--ops", 90], label="random")


@check
def S05(c):
    exe = vlib.build_driver("ss", "asan")
    c.model_check("MCSerStream", "MCSerStream.cfg")
    p, n = scripts_from_sim(c, "MCSerStream", "GenSerStream.cfg", c.n(120, 1500), 40, "S05")
    c.conform(exe, "TraceSerStream", "TraceSerStream.cfg", n, 16 if not c.thorough else 100, ["--script", p], label="spec-generated")
    c.conform(exe, "TraceSerStream", "TraceSerStream.cfg", c.n(500, 8000), 32 if not c.thorough else 200, ["--ops", 50], label="random")


@check
def X03(c):
    exe = vlib.build_driver("pq", "asan")
    c.model_check("MCExtPq", "MCExtPq.cfg")
    c.model_check("PqDesign", c.n("MCPqDesign.cfg", "MCPqDesignDeep.cfg"), workers=8)
    c.conform(exe, "TraceExtPq", "TraceExtPq.cfg", c.n(400, 8000), 25 if not c.thorough else 200, ["--ops", 60, "--items", 2500], label="random")


@check
def X04(c):
    exe = vlib.build_driver("sq", "asan")
    c.model_check("MCStackQueue", "MCStackQueue.cfg")
    p, n = scripts_from_sim(c, "MCStackQueue", "GenStackQueue.cfg", c.n(300, 3000), 62, "X04")
    c.conform(exe, "TraceStackQueue", "TraceStackQueue.cfg", n, 40 if not c.thorough else 300, ["--script", p], label="spec-generated")
    c.conform(exe, "TraceStackQueue", "TraceStackQueue.cfg", c.n(1200, 30000), 80 if not c.thorough else 500, ["--ops", 80], label="random")


@check
def X01(c):
    exe = vlib.build_driver("ms", "asan")
    for x in "abd" if not c.thorough else "abcde":
        c.model_check("MCMergeDesign", "MCMergeDesign_%s.cfg" % x, workers=8)
    c.conform(exe, "TraceExtSort", "TraceExtSort.cfg", c.n(700, 20000), 20 if not c.thorough else 200, label="random")


@check
def X02(c):
    exe = vlib.build_driver("sers", "asan")
    c.model_check("SerSortDesign", "SerSortDesign.cfg", workers=8)
    c.conform(exe, "TraceExtSort", "TraceExtSort.cfg", c.n(700, 15000), 20 if not c.thorough else 200, label="random")


@check
def B04(c):
    exe = vlib.build_driver("bc", "asan")
    c.model_check("BlockCacheDesign", c.n("BlockCacheDesign.cfg", "BlockCacheDesignDeep.cfg"), workers=8)
    c.conform(exe, "TraceBlockStore", "TraceBlockStore.cfg", c.n(1200, 30000), 60 if not c.thorough else 400, ["--ops", 120], label="random")


@check
def B01(c):
    exe = vlib.build_driver("bt", "asan")
    for x in "ab" if not c.thorough else "abcde":
        c.model_check("BTreeDesign", "BTreeDesign_%s.cfg" % x, workers=8)
    c.conform(exe, "TraceBTree", "TraceBTree.cfg", c.n(800, 25000), 40 if not c.thorough else 300, ["--ops", 80, "--mode", "dyn"], label="random")


@check
def B02(c):
    exe = vlib.build_driver("bt", "asan")
    for x in "ab" if not c.thorough else "abcde":
        c.model_check("BTreeDesign", "BTreeDesign_%s.cfg" % x, workers=8)
    c.conform(exe, "TraceBTree", "TraceBTree.cfg", c.n(500, 10000), 25 if not c.thorough else 150, ["--ops", 80, "--mode", "shape"], label="structure after every change")


@check
def B03(c):
    exe = vlib.build_driver("bt", "asan")
    c.model_check("BTreeDesign", "BTreeDesign_a.cfg", workers=8)
    c.conform(exe, "TraceBTree", "TraceBTree.cfg", c.n(800, 20000), 40 if not c.thorough else 300, ["--ops", 50, "--mode", "build"], label="bulk built, reopened")


@check
def D01(c):
    exe = vlib.build_driver("cont", "asan")
    for x in "QHD":
        c.model_check("ContainersDesign", "ContainersDesign_%s.cfg" % x, workers=8)
    c.conform(exe, "TraceContainers", "TraceContainers.cfg", c.n(2200, 44000), 110 if not c.thorough else 550, ["--ops", 60], label="random")


@check
def R01(c):
    exe = vlib.build_driver("res", "asan")
    c.model_check("ResourcesDesign", "ResourcesDesign.cfg", workers=8)
    c.model_check("ResourcesDesign", "ResourcesDesign_R.cfg", workers=8)
    c.conform(exe, "TraceResources", "TraceResources.cfg", c.n(800, 20000), 100 if not c.thorough else 500, ["--ops", 80], label="one thread")
    c.conform(exe, "TraceResources", "TraceResources.cfg", c.n(300, 6000), 100 if not c.thorough else 500, ["--mode", "comp"], label="components under a limit")
    c.conform(exe, "TraceResources", "TraceResources.cfg", c.n(48, 800), 12 if not c.thorough else 100, ["--mode", "threads"], label="many threads")


@check
def R03(c):
    exe = vlib.build_driver("ft", "asan")
    c.model_check("FaultDesign", "FaultDesign.cfg")
    c.conform(exe, "TraceFaults", "TraceFaults.cfg", c.n(3200, 60000), 100 if not c.thorough else 500, label="failing calls, streams")
    c.conform(exe, "TraceFaultyBlocks", "TraceFaultyBlocks.cfg", c.n(800, 20000), 50 if not c.thorough else 300, ["--mode", "blocks"], label="failing calls, block collections")
    for drv, spec, args, q in (("fs", "TraceFileStream", ["--ops", 60, "--life", 1], 480), ("us", "TraceSharedFile", ["--ops", 60], 320),
                               ("ss", "TraceSerStream", ["--ops", 30], 100), ("sq", "TraceStackQueue", ["--ops", 60], 240),
                               ("bc", "TraceBlockStore", ["--ops", 80], 240)):
        c.conform(vlib.build_driver(drv, "asan"), spec, spec + ".cfg", c.n(q, q * 20), c.n(q // 8, q), args + ["--short", 60], label="short transfers, " + drv)


@check
def R05(c):
    exe = vlib.build_driver("bud", "asan")
    c.model_check("BudgetDesign", "BudgetDesign.cfg", workers=8)
    for m, k in (("ms", 400), ("ser", 400), ("pq", 400), ("sort", 200), ("pipe", 200), ("says", 800)):
        c.conform(exe, "TraceBudget", "TraceBudget.cfg", c.n(k, k * 25), k // 16 if not c.thorough else k, ["--mode", m], label="within budget, " + m)


@check
def C01(c):
    exe = vlib.build_driver("job", "asan")
    for x in "abcde":
        c.model_check("JobsDesign", "JobsDesign_%s.cfg" % x)
    c.conform(exe, "TraceJobs", "TraceJobs.cfg", c.n(1200, 40000), 75 if not c.thorough else 500, label="scheduled job trees")


@check
def C02(c):
    exe = vlib.build_driver("job", "asan")
    c.model_check("ParSort", "ParSort.cfg")
    c.conform(exe, "TraceParSort", "TraceParSort.cfg", c.n(2000, 60000), 125 if not c.thorough else 1000, ["--mode", "sort"], label="scheduled sorts")


@check
def C03(c):
    exe = vlib.build_driver("par", "asan")
    for x in "abcdefghj" + ("iklm" if c.thorough else ""):
        c.model_check("ParallelDesign", "ParallelDesign_%s.cfg" % x)
    c.conform(exe, "TraceParSection", "TraceParSection.cfg", c.n(2400, 60000), 150 if not c.thorough else 1000, label="scheduled sections")


@check
def R04(c):
    exe = vlib.build_driver("prog", "asan")
    c.model_check("MCProgress", c.n("MCProgress.cfg", "MCProgressDeep.cfg"), workers=8)
    c.conform(exe, "TraceProgress", "TraceProgress.cfg", c.n(2400, 60000), 150 if not c.thorough else 1000, label="trees of indicators")
    c.model_check("MCFractions", "MCFractions.cfg", workers=8)
    exe = vlib.build_driver("fr", "asan")
    c.conform(exe, "TraceFractions", "TraceFractions.cfg", c.n(1600, 40000), 200 if not c.thorough else 1000, label="recorded fractions")


@check
def R06(c):
    exe = vlib.build_driver("lg", "asan")
    c.model_check("LogDesign", c.n("LogDesign.cfg", "LogDesignDeep.cfg"), workers=8)
    c.conform(exe, "TraceLog", "TraceLog.cfg", c.n(3200, 60000), 200 if not c.thorough else 1000, label="streams, targets, groups")


@check
def R02(c):
    exe = vlib.build_driver("tmp", "asan")
    c.model_check("MCTempFiles", c.n("MCTempFiles.cfg", "MCTempFilesDeep.cfg"), workers=8)
    c.conform(exe, "TraceTempFiles", "TraceTempFiles.cfg", c.n(1200, 40000), 75 if not c.thorough else 500, label="handles, files, settings, shutdowns")


@check
def L01(c):
    exe = vlib.build_driver("pl", "asan")
    c.model_check("MCPipeline", c.n("MCPipeline.cfg", "MCPipelineDeep.cfg"), workers=8)
    c.model_check("MCPipeline", "MCPipelineFwd.cfg", workers=8)
    for v in ("a", "b") + (("c",) if c.thorough else ()):
        c.model_check("PhaseOrder", "PhaseOrder_%s.cfg" % v, workers=8)
    c.conform(exe, "TracePipeline", "TracePipeline.cfg", c.n(3200, 60000), 200 if not c.thorough else 600, label="random pipelines of probe nodes")
    fac = vlib.build_driver("fac", "asan")
    c.conform(fac, "TracePipeline", "TracePipeline.cfg", c.n(1200, 40000), 150 if not c.thorough else 600, label="push and pull pipelines composed of factories, node sets")


@check
def L02(c):
    exe = vlib.build_driver("op", "asan")
    c.model_check("MCOperators", "MCOperatorsDeep.cfg", workers=8)
    c.conform(exe, "TraceOperators", "TraceOperators.cfg", c.n(4800, 100000), 150 if not c.thorough else 500, label="random compositions of operators")


@check
def L03(c):
    exe = vlib.build_driver("pl", "asan")
    for v in ("a", "b") + (("c",) if c.thorough else ()):
        c.model_check("AssignDesign", "AssignDesign_%s.cfg" % v, workers=8)
    c.conform(exe, "TracePipeline", "TracePipeline.cfg", c.n(3200, 60000), 200 if not c.thorough else 600, ["--mode", "res"], label="limits, fractions and data structures")
    fac = vlib.build_driver("fac", "asan")
    c.conform(fac, "TracePipeline", "TracePipeline.cfg", c.n(1200, 40000), 150 if not c.thorough else 600, ["--mode", "res"], label="fractions given to the parts of a composition")


@check
def L04(c):
    exe = vlib.build_driver("pl", "asan")
    opx = vlib.build_driver("op", "asan")
    c.model_check("MCPipeline", "MCPipelineFault.cfg", workers=8)
    c.conform(exe, "TracePipeline", "TracePipeline.cfg", c.n(2400, 60000), 150 if not c.thorough else 600, ["--mode", "fault"], label="exceptions from probe nodes")
    c.conform(opx, "TraceOperators", "TraceOperators.cfg", c.n(3200, 60000), 100 if not c.thorough else 500, ["--mode", "fault"], label="exceptions in compositions of operators")

"""What each property's checker is built from."""
CDF = ["cdf_1d_cuda", "cdf_2d_cuda", "cdf_3d_cuda"]
APP = ["cd_apply_1d_cuda", "cd_apply_2d_cuda", "cd_apply_3d_cuda"]
STC = ["cd_stencil_1d_cuda", "cd_stencil_2d_cuda", "cd_stencil_3d_cuda"]
BCS = ["cd_correct_bc_1d_cuda", "cd_correct_bc_2d_cuda", "cd_correct_bc_3d_cuda"]


def d3(n):
    return [f"{n}{d}d" for d in (1, 2, 3)]


FP = ["floating-point results are compared within 64 ulp of the magnitude of the terms combined, so a change below that is not seen",
      "the compilers (g++, gfortran) and the Thrust headers are trusted"]
HDR = ["the compilers (g++) and the Thrust headers are trusted"]
DSL = "explicit-state exploration of array states under every assignment form, storage order, domain order and sub-domain; each transition run on the real code"
ITER = "exhaustive exploration of the iterator state graph on the real code: every reachable iterator object, every legal step and jump"
ALLF = ["copycoarsetofine"] + [x for k in ("celldiffusionflux", "celldiffusionapply", "celldiffusionstencilcoeffs", "cellsetcorrectionbc", "nodediffusionflux",
                                            "nodediffusionapply", "nodediffusionstencilcoeffs", "cellsmooth", "cellblocksmooth", "applystencil", "celladjustrhs") for x in d3(k)]
MONA = ["the compilers' -fsanitize=thread instrumentation reports every load and store (bulk copies are seen at the call); accesses the optimiser proves redundant are not made and not seen",
        "the compilers (g++, gfortran) and the Thrust headers are trusted"]
P07S = ["p07.cpp", "p07_1.cpp", "p07_2a.cpp", "p07_2b.cpp"] + [f"p07_3{x}.cpp" for x in "abcd"]
P04S = ["p04.cpp", "p04_3a.cpp", "p04_3b.cpp", "p04_3c.cpp"]
P05S = ["p05.cpp"] + [f"p05_3{x}.cpp" for x in "abcdef"]
DSLPARTS = [dict(name="p07", src=P07S, dsl=True), dict(name="p08", src=["p08.cpp", "p08_d.cpp", "p08_v.cpp"], dsl=True),
            dict(name="p04", src=P04S, dsl=True, thorough=True), dict(name="p05", src=P05S, dsl=True, thorough=True)]
PROPS = {
    "P01": dict(src=["p01.cpp"], level="model_checking", technique=ITER, assumptions=HDR, note="bounded: exhaustive over the shapes, sub-boxes, strides and permutations listed in the evidence"),
    "P02": dict(src=["p02.cpp"], level="model_checking", technique=ITER, assumptions=HDR, note="bounded: exhaustive over the shapes, sub-boxes, strides and axes listed in the evidence"),
    "P03": dict(src=["p03.cpp"], level="model_checking", technique=ITER, assumptions=HDR, note="bounded: exhaustive over the shapes, offset tables, ratios and index ranges listed in the evidence"),
    "P04": dict(src=["p04.cpp", "p04_3a.cpp", "p04_3b.cpp", "p04_3c.cpp"], level="model_checking", technique=DSL, assumptions=FP),
    "P05": dict(src=["p05.cpp"] + [f"p05_3{x}.cpp" for x in "abcdef"], level="model_checking", technique=DSL, assumptions=FP),
    "P06": dict(src=["p06.cpp"], level="model_checking", technique="exhaustive exploration of operation histories on the real bounds type against an index-set model; "
                "explicit-state exploration of assignments over empty domains", assumptions=FP),
    "P07": dict(src=["p07.cpp", "p07_1.cpp", "p07_2a.cpp", "p07_2b.cpp"] + [f"p07_3{x}.cpp" for x in "abcd"], level="model_checking", technique=DSL, assumptions=FP),
    "P08": dict(src=["p08.cpp", "p08_d.cpp", "p08_v.cpp"], level="model_checking", technique=DSL, assumptions=FP),
    "P10": dict(src=["p10.cpp"], cuda=CDF, m4=d3("celldiffusionflux"), level="model_checking", assumptions=FP),
    "P11": dict(src=["p11.cpp"], cuda=APP, m4=d3("celldiffusionapply"), level="model_checking", assumptions=FP),
    "P12": dict(src=["p12.cpp"], cuda=STC, m4=d3("celldiffusionstencilcoeffs"), level="model_checking", assumptions=FP),
    "P13": dict(src=["p13.cpp"], cuda=STC, m4=d3("celldiffusionstencilcoeffs"), level="model_checking", assumptions=FP),
    "P14": dict(src=["p14.cpp"], cuda=BCS, m4=d3("cellsetcorrectionbc"), level="model_checking", assumptions=FP),
    "P15": dict(src=["p15.cpp"], cuda=BCS + ["coarse_to_fine_cuda"], m4=["copycoarsetofine"] + d3("cellsetcorrectionbc"),
                level="model_checking", assumptions=FP),
    "P16": dict(src=["p16.cpp"], cuda=CDF + APP + STC,
                m4=[x for k in ("cell", "node") for y in ("flux", "apply", "stencilcoeffs") for x in d3(k + "diffusion" + y)],
                level="model_checking", assumptions=FP),
    "P17": dict(src=["p17.cpp"], m4=d3("cellsmooth") + d3("cellblocksmooth"), level="model_checking",
                assumptions=FP + ["LAPACK is not installed: dgetrf/dgetrs/dgesv/dcopy are stand-ins that implement their documented behaviour",
                                  "stencils have a non-zero, dominant diagonal stored first; blocks tile the box from the first displacement on"]),
    "P18": dict(src=["p18.cpp"], m4=d3("applystencil") + d3("celladjustrhs"), level="model_checking",
                assumptions=FP + ["coarse-fine elimination is used with compact stencils, as its source requires",
                                  "ls_apply_st_3d_cuda does not compile (unfinished, not in the build) and is not covered"]),
    "P21": dict(src=["p21.cpp"], rep=["src/random.cpp"], level="model_checking", assumptions=HDR,
                technique="explicit-state exploration to a fixpoint: every reachable (host copy, device copy, flag) state of the container is a real object, every operation is run from each"),
    "P22": dict(src=["p22.cpp"], cuda=CDF + APP + STC,
                m4=[x for k in ("cell", "node") for y in ("flux", "apply", "stencilcoeffs") for x in d3(k + "diffusion" + y)] + d3("applystencil"),
                level="model_checking", assumptions=FP,
                technique="explicit-state exploration of all interleavings and implementation choices of two operator pipelines, run on the real kernels; every terminal state must agree"),
    "P19": dict(monitor="SCHED", args=["--depth", "1"], cuda=CDF + APP + STC + BCS + ["coarse_to_fine_cuda"], m4=ALLF, level="model_checking", assumptions=MONA,
                parts=[dict(name=n, src=[n + ".cpp"], cat=n in ("p11", "p13", "p14")) for n in ("p10", "p11", "p12", "p13", "p14", "p15")]
                + [dict(p, cat=True) for p in DSLPARTS],
                technique="stateless exploration of schedules on the real kernels: the OpenMP runtime is replaced by one that runs the team's threads in every chosen order; "
                          "one thread per iteration with conflict detection on every load and store (a conflict-free region has a single Mazurkiewicz trace, so all interleavings are covered), "
                          "plus bitwise comparison over team sizes and thread orders"),
    "P20": dict(monitor="FOOT", args=["--depth", "1"], cuda=CDF + APP + STC + BCS + ["coarse_to_fine_cuda"], m4=ALLF, level="model_checking", assumptions=MONA,
                parts=[dict(name=n, src=[n + ".cpp"], cat=n == "p14") for n in ("p10", "p11", "p12", "p13", "p14", "p15", "p16", "p17", "p18")]
                + [dict(p, cat=True) for p in DSLPARTS],
                technique="exhaustive exploration of kernel calls over small boxes, segments, ghost widths and orders with every load and store of the real code monitored against the model's footprint"),
}

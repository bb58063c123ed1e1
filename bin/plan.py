"""Which specification stages decide which property."""


def mc(module, thorough=True):
    return {"do": "mc", "module": module, "cfg": {"quick": module + ".cfg", "thorough": module + ("_thorough.cfg" if thorough else ".cfg")}}


def conf(domain, module, **kw):
    return dict({"do": "conf", "domain": domain, "module": module}, **kw)


LATTICE = "Inputs are lattice configurations carried to coordinates by exact affine maps; TLC arithmetic is 32-bit, so lattice coordinates are small."



def mesh(cfg, clauses, num, ex=True):
    """Generated edit histories of meshes: exhaustive short ones and random long ones."""
    st = [mc("MCMesh")]
    if ex:
        st += [{"do": "gen", "module": "MeshEx", "cfg": {"quick": "MeshEx.cfg", "thorough": "MeshEx_thorough.cfg"}, "out": "ex.ndjson"},
               conf("mesh", "ConfMesh", **{"in": "ex.ndjson"}, clauses=clauses, batch=4000)]
    st += [{"do": "gen", "module": "MeshGen", "cfg": cfg, "simulate": True, "num": num, "depth": 80, "out": "hist.ndjson"},
           conf("mesh", "ConfMesh", **{"in": "hist.ndjson"}, clauses=clauses, batch=1500)]
    return st


MESH = "Positions are lattice points carried over by exact affine maps; meshes stay below about 32 triangles. Splitting an edge whose two triangles share their third corner is outside the specification (the result is not a mesh without double edges)."

PLAN = {
    "C01": {"stages": mesh("MeshGen.cfg", ["wf-*", "fail/*"], {"quick": 1500, "thorough": 12000}), "assumptions": [MESH]},
    "C02": {"stages": mesh("MeshGenTopo.cfg", ["answer/*", "vertex/*", "faces/*", "triangles/*", "retired/*", "positions/*", "lost/*", "fail/*", "stopped"], {"quick": 1500, "thorough": 12000}), "assumptions": [MESH]},
    "C03": {"stages": mesh("MeshGen.cfg", ["topology/*"], {"quick": 1500, "thorough": 12000}), "assumptions": [MESH]},
    "C04": {
        "stages": [
            mc("MCMesh"),
            {"do": "gen", "module": "MeshGen", "cfg": "MeshGen.cfg", "simulate": True, "num": {"quick": 1500, "thorough": 12000}, "depth": 80, "out": "hist.ndjson"},
            conf("meshq", "ConfMeshQ", **{"in": "hist.ndjson"}, batch=1500),
        ],
        "assumptions": [MESH],
    },
    "C05": {"stages": mesh("MeshGenSplit.cfg", [c + "/effect-" + o for c in ("answer", "vertex", "faces", "triangles", "positions", "retired") for o in ("spe", "spf")] + ["tree/*", "filed/*", "fail/spe", "fail/spf"], {"quick": 2000, "thorough": 12000}), "assumptions": [MESH]},
    "C06": {
        "stages": [
            mc("MCMesh"),
            {"do": "gen", "module": "MeshGen", "cfg": "MeshGenLoc.cfg", "simulate": True, "num": {"quick": 1500, "thorough": 10000}, "depth": 80, "out": "hist.ndjson"},
            conf("meshl", "ConfMeshL", **{"in": "hist.ndjson"}, batch=1500),
        ],
        "assumptions": [MESH],
    },
    "C07": {
        "stages": [
            mc("MCVertexSet"),
            {"do": "gen", "module": "VertexGen", "cfg": "VertexGen.cfg", "simulate": True, "num": {"quick": 3000, "thorough": 20000}, "depth": 20, "out": "hist.ndjson"},
            conf("vset", "ConfVertex", **{"in": "hist.ndjson"}),
            {"do": "gen", "module": "VertexGen", "cfg": "VertexEx.cfg", "out": "ex.ndjson"},
            conf("vset", "ConfVertex", **{"in": "ex.ndjson"}),
        ],
        "assumptions": ["Positions are on a two-scale lattice: differences are zero, well below or above the merge tolerance of 1e-6. Values that are computed rather than given stay below 2^12, where doubles resolve the tolerance."],
    },
    "C08": {
        "stages": [
            mc("MCMeshClean", False), mc("MCMesh"),
            {"do": "gen", "module": "MeshGen", "cfg": "MeshGen.cfg", "simulate": True, "num": {"quick": 2000, "thorough": 12000}, "depth": 80, "out": "hist.ndjson"},
            conf("meshc", "ConfMeshC", **{"in": "hist.ndjson"}, batch=2000),
        ],
        "assumptions": [MESH, "Meshes whose merged triangles would use a directed edge twice are not judged."],
    },
    "C28": {"stages": mesh("MeshGenCol.cfg", [c + "/effect-" + o for c in ("answer", "vertex", "faces", "triangles", "positions", "retired") for o in ("col", "cop")] + ["fail/col", "fail/cop"], {"quick": 2000, "thorough": 12000}), "assumptions": [MESH]},
    "C09": {
        "stages": [
            mc("MCBoxes"),
            {"do": "gen", "module": "BoxHist", "cfg": "BoxHist.cfg", "simulate": True, "num": {"quick": 2500, "thorough": 15000}, "depth": 20, "out": "hist.ndjson"},
            conf("tree", "ConfBox", **{"in": "hist.ndjson"}),
            {"do": "gen", "module": "BoxEx", "cfg": {"quick": "BoxEx.cfg", "thorough": "BoxEx_thorough.cfg"}, "out": "ex.ndjson"},
            conf("tree", "ConfBox", **{"in": "ex.ndjson"}),
            conf("tree", "ConfBox"),
        ],
        "assumptions": [LATTICE],
    },
    "C10": {"stages": [mc("MCBoxes"), conf("box", "ConfBox")], "assumptions": [LATTICE]},
    "C11": {
        "stages": [
            mc("MCField", False),
            {"do": "gen", "module": "Lazy", "cfg": "Lazy.cfg", "simulate": True, "num": {"quick": 2500, "thorough": 12000}, "depth": 20, "out": "prog.ndjson"},
            conf("lazy", "ConfLazy", **{"in": "prog.ndjson"}),
            {"do": "gen", "module": "LazyEx", "cfg": {"quick": "LazyEx.cfg", "thorough": "LazyEx_thorough.cfg"}, "out": "ex.ndjson"},
            conf("lazy", "ConfLazy", **{"in": "ex.ndjson"}),
        ],
        "assumptions": ["Infinitesimals are instantiated by tiny rationals between 2^-40 and 2^-1000; coefficients stay below 2000, so every sign is that of the infinitesimal."],
    },
    "C12": {
        "stages": [
            mc("MCConvert"),
            {"do": "gen", "module": "ConvertGen", "cfg": "ConvertGen.cfg", "out": "chains.ndjson"},
            conf("conv", "ConfConvert", **{"in": "chains.ndjson"}),
        ],
        "assumptions": ["Numbers are written with up to 128 bits and exponents within about 110 binary orders; values that no double can come near are outside the statement."],
    },
    "C13": {"stages": [mc("MCPred"), mc("MCWide", False), mc("MCSpace"), conf("orient", "ConfPred")], "assumptions": [LATTICE]},
    "C14": {"stages": [mc("MCPred"), conf("line", "ConfPred")], "assumptions": [LATTICE]},
    "C15": {"stages": [mc("MCPred"), conf("tri", "ConfPred")], "assumptions": [LATTICE]},
    "C16": {"stages": [mc("MCPred"), mc("MCWide", False), conf("circle", "ConfPred")], "assumptions": [LATTICE]},
    "C17": {"stages": [mc("MCPred"), conf("seg", "ConfIsect")], "assumptions": [LATTICE]},
    "C18": {"stages": [mc("MCSpace"), conf("tt", "ConfIsect")], "assumptions": [LATTICE]},
    "C19": {"stages": [mc("MCPred"), conf("hull", "ConfIsect")], "assumptions": [LATTICE]},
    "C20": {"stages": [mc("MCAlgebra"), conf("alg", "ConfAlg")], "assumptions": [LATTICE]},
    "C21": {
        "stages": [
            mc("MCTriang"),
            {"do": "gen", "module": "TriEx", "cfg": {"quick": "TriEx.cfg", "thorough": "TriEx_thorough.cfg"}, "out": "ex.ndjson"},
            conf("tri2", "ConfTri", **{"in": "ex.ndjson"}, clauses=["*/dt"]),
            {"do": "gen", "module": "TriGen", "cfg": "TriGen.cfg", "simulate": True, "num": {"quick": 3000, "thorough": 20000}, "depth": 30, "out": "sets.ndjson"},
            conf("tri2", "ConfTri", **{"in": "sets.ndjson"}, clauses=["*/dt"]),
        ],
        "assumptions": [LATTICE, "Point spacings below the tolerance of the kernel predicates (1e-10) are outside the statement."],
    },
    "C22": {
        "stages": [
            mc("MCTriang"),
            {"do": "gen", "module": "TriEx", "cfg": {"quick": "TriEx.cfg", "thorough": "TriEx_thorough.cfg"}, "out": "ex.ndjson"},
            conf("tri2", "ConfTri", **{"in": "ex.ndjson"}, clauses=["*/cdt", "*/batch", "*/inside"]),
            {"do": "gen", "module": "TriGen", "cfg": "TriGen.cfg", "simulate": True, "num": {"quick": 3000, "thorough": 20000}, "depth": 30, "out": "sets.ndjson"},
            conf("tri2", "ConfTri", **{"in": "sets.ndjson"}, clauses=["*/cdt", "*/batch", "*/inside"]),
        ],
        "assumptions": [LATTICE, "Constraints that cross each other, or end at points given twice, are not promised anything."],
    },
    "C23": {
        "stages": [
            mc("MCBool"),
            {"do": "gen", "module": "BoolGen", "cfg": "BoolGen.cfg", "simulate": True, "num": {"quick": 900, "thorough": 6000}, "depth": 90, "out": "steps.ndjson"},
            conf("boolean", "ConfBool", **{"in": "steps.ndjson"}, batch=3000),
        ],
        "assumptions": ["Operands are solids made of cubes, moved and sheared; results that touch themselves along an edge or at a corner cannot be held by the mesh and are not taken.",
                        "Lazily computed positions stay below about 1e7, where doubles resolve the merge tolerance of 1e-6."],
    },
    "C24": {
        "stages": [
            mc("MCSolid"),
            {"do": "gen", "module": "SolidEx", "cfg": {"quick": "SolidEx.cfg", "thorough": "SolidEx_thorough.cfg"}, "out": "ex.ndjson"},
            conf("solid", "ConfSolid", **{"in": "ex.ndjson"}, batch=15000),
            {"do": "gen", "module": "SolidGen", "cfg": "SolidGen.cfg", "simulate": True, "num": {"quick": 300, "thorough": 2000}, "depth": 40, "out": "solids.ndjson"},
            conf("solid", "ConfSolid", **{"in": "solids.ndjson"}, batch=15000),
        ],
        "assumptions": ["Solids are made of cubes and plane regions of squares, triangulated in several ways and sheared."],
    },
    "C25": {
        "stages": [
            mc("MCSmooth"),
            {"do": "gen", "module": "SmoothGen", "cfg": "SmoothGen.cfg", "simulate": True, "num": {"quick": 1300, "thorough": 9000}, "depth": 80, "out": "smooth.ndjson"},
            conf("remesh", "ConfSmooth", **{"in": "smooth.ndjson"}, clauses=["*/smooth", "*/remesh"], batch=1500),
        ],
        "assumptions": [MESH, "Connected manifold meshes without flat triangles or coincident vertices. Smoothed places are compared to a thousandth of the lattice, remeshing runs with doubles for up to three rounds; borders may move in remeshing."],
    },
    "C26": {
        "stages": [
            mc("MCMeshFile", False),
            {"do": "gen", "module": "MeshGen", "cfg": "MeshGen.cfg", "simulate": True, "num": {"quick": 2000, "thorough": 12000}, "depth": 80, "out": "hist.ndjson"},
            conf("iort", "ConfFile", **{"in": "hist.ndjson"}, batch=2000),
        ],
        "assumptions": [MESH],
    },
    "C27": {
        "stages": [
            mc("MCMeshFile", False),
            {"do": "gen", "module": "FileGen", "cfg": "FileGen.cfg", "simulate": True, "num": {"quick": 6000, "thorough": 40000}, "depth": 12, "out": "docs.ndjson"},
            conf("iodoc", "ConfFile", **{"in": "docs.ndjson"}, batch=20000),
        ],
        "assumptions": ["Faces with more than three corners in OBJ files are outside the statement: the reader is documented for triangles only."],
    },
    "C29": {
        "stages": [
            mc("MCCross"),
            {"do": "gen", "module": "BoolGen", "cfg": "BoolGen.cfg", "simulate": True, "num": {"quick": 600, "thorough": 5000}, "depth": 90, "out": "steps.ndjson"},
            conf("cross", "ConfCross", **{"in": "steps.ndjson"}, batch=1500),
        ],
        "assumptions": ["The meshes are closed surfaces of solids made of cubes, moved and sheared."],
    },
    "C30": {
        "stages": [
            mc("MCMeasure"),
            {"do": "gen", "module": "MeshGen", "cfg": "MeshGen.cfg", "simulate": True, "num": {"quick": 1500, "thorough": 10000}, "depth": 80, "out": "hist.ndjson"},
            conf("measure", "ConfMeasure", **{"in": "hist.ndjson"}, batch=1500),
        ],
        "assumptions": [MESH, "Boxes of exactly represented faces may be larger than the face by the rounding of doubles."],
    },
}

"""C04: GraphState stores, looks up, slices and converts samples faithfully."""

EXPLAIN = """Every method of GraphState and DependencyGraph is interpreted abstractly on a symbolic store; the values it leaves in the nested dictionaries, the values it returns,
the calls it makes and the inputs it rejects are compared with the reference semantics in lcx/refsrc/graph_state.py."""

from ..refs import refrules


def run(cx):
    refrules(cx, "graph_state", {
        "container": "set stores the value under its node and name with one entry per sample, keeps fixed values, and lookups find exactly what was set",
        "samples": "sample i holds entry i of every parameter; copies share nothing the original changes in place; parameter extraction names each source",
        "conversion": "dictionary, table, list and file forms hold every parameter under its full name, in sample order",
        "dependencies": "the dependency graph lists each parameter once and each edge in both directions",
    })

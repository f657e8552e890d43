"""Writes properties.jsonl and MANIFEST.json: python3 tools/meta.py"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/compas_cem/"
FORCE = S + "equilibrium/force.py"
NUMPY = S + "equilibrium/force_numpy.py"
DIAG = S + "diagrams/diagram.py"
FORM = S + "diagrams/form.py"
TOPO = S + "diagrams/topology/topology.py"
NODEM = S + "diagrams/mixins/node_mixins.py"
EDGEM = S + "diagrams/mixins/edge_mixins.py"
MESH = S + "diagrams/topology/mesh_mixins.py"
OPT = S + "optimization/optimizer.py"
CON = S + "optimization/constraints/"
PAR = S + "optimization/parameters/"
TODAY = "The existing tests form-find a handful of fixed structures (tests/equilibrium) and query a handful of fixed diagrams (tests/diagrams)"

PROPS = []


def prop(pid, title, statement, over, text, why, files, mechanism, technique, note, observe=None):
    PROPS.append(dict(pid=pid, title=title, statement=statement, over=over, text=text, why=why, files=files,
                      mechanism=mechanism, technique=technique, note=note, observe=observe or []))


prop("C01", "Form diagrams are in static equilibrium",
     "In every form diagram returned by form finding, at every node the load, the forces of the incident edges along their actual "
     "directions and, at supports, the reaction add up to zero, up to the convergence threshold. Loads and reactions of the whole "
     "structure balance as well, in force and in moment.",
     ["inputs", "configurations"], "every valid topology diagram (any number, length, order and shift of trails, direct and indirect "
     "deviation edges, planes, loads) with both solvers and any thresholds",
     TODAY + "; none of them checks the balance of forces on the coordinates that were returned, for arbitrary structures.",
     [FORCE, NUMPY], [("node_equilibrium and equilibrium_state walk the sequences and hand the residual on to the next trail edge", FORCE),
                      ("equilibrium_state_numpy", NUMPY), ("form_update writes attributes of the form", FORCE)],
     "property-based testing: random structures, invariant oracle (balance of forces)",
     "Thousands of random structures per run; forces are recomputed from public queries with a tolerance derived from the threshold.",
     ["form.node_coordinates", "form.edge_force", "form.node_load", "form.reaction_force"])

prop("C02", "Forms honour everything the topology diagram prescribes",
     "In a form diagram every trail edge without a plane has the length and force state prescribed in the topology diagram and every "
     "trail edge with a plane ends on that plane; deviation edges carry the prescribed forces, origin nodes stay where they were, and "
     "nodes, edges, loads and supports are those of the input. The stored length of an edge is the distance between its ends with "
     "the sign of its force, and only supports react.",
     ["inputs"], "every valid topology diagram, both solvers",
     TODAY + "; prescribed values are compared for fixed structures only, planes in two of them.",
     [FORCE, NUMPY, FORM], [("trail_length_from_plane, trail_vector_out", FORCE), ("form_from_eqstate, form_update", FORCE),
                            ("FormDiagram.from_topology_diagram", FORM)],
     "property-based testing: random structures, prescribed values as oracle",
     "Random structures; each prescribed value is compared with what public queries of the form report.")

prop("C03", "Both solvers compute the equilibrium that the method defines",
     "For every valid topology diagram the plain and the NumPy-based form-finding functions find the same form, and it is the one "
     "that the combinatorial equilibrium method defines. Where parts of a structure are degenerate (a trail that carries no force, "
     "coincident nodes), results are finite and both functions still agree.",
     ["inputs"], "every valid topology diagram, including degenerate ones",
     TODAY + "; the NumPy solver is compared with stored coordinates for few of them and never with an independent implementation.",
     [FORCE, NUMPY], [("equilibrium_state and its helpers", FORCE), ("equilibrium_state_numpy and its helpers", NUMPY)],
     "property-based testing: differential against an independent reference solver and between the two solvers",
     "Trusts lib/ref.py, an independent implementation of the method; ill-conditioned cases are excluded by it.")

prop("C04", "Node numbering, insertion order and edge orientation do not matter",
     "Renumbering the nodes, adding nodes, edges, supports and loads in another order, swapping the two ends of an edge, or passing "
     "coordinates as lists, tuples, points or vectors gives the same form, node by node and edge by edge.",
     ["inputs", "histories"], "every valid topology diagram and every renumbering, order of insertion and orientation of edges",
     "Tests build each structure in exactly one way; the quantifier is over all ways of writing down the same structure.",
     [FORCE, NUMPY, TOPO], [("build_trails, connected_edges", TOPO), ("incoming/outgoing edge look-ups", FORCE)],
     "property-based testing: metamorphic relation (permuted input, same form)", "Random structures and random rewritings of them.")

prop("C05", "Forms follow rigid motions, scaling and reversal of the input",
     "Moving, rotating or mirroring all of the input moves the form in the same way; scaling all loads and forces scales the "
     "forces and leaves the geometry alone; scaling all lengths scales the geometry and leaves the forces alone; reversing all loads, "
     "forces and states gives the same geometry with all forces reversed.",
     ["inputs"], "every valid topology diagram and every such transformation",
     "No test transforms a structure and solves it again.",
     [FORCE, NUMPY], [("equilibrium_state", FORCE), ("equilibrium_state_numpy", NUMPY)],
     "property-based testing: metamorphic relations (laws of statics)", "Random structures and random transformations.")

prop("C06", "Form finding is a pure function of the prescribed input",
     "Form finding leaves the topology diagram as it was, returns a form that shares no state with it, and gives the same form when it "
     "is repeated, made verbose, given a callback, or preceded by other runs. After any sequence of edits of loads, forces, lengths, "
     "planes, origin positions and shifts, it gives the form of a diagram built afresh with those values.",
     ["inputs", "histories"], "every valid topology diagram and every history of edits and runs",
     "Tests solve each diagram once; the quantifier is over histories of edits and runs on one diagram.",
     [FORCE, NUMPY, FORM, NODEM, EDGEM], [("FormDiagram.from_topology_diagram copies the input", FORM), ("equilibrium_state starts from the topology diagram", FORCE)],
     "property-based testing: model-based histories (edits and runs against a fresh build)", "Random histories of up to ten edits.")

prop("C07", "Form finding returns a converged form or raises",
     "If the total displacement of the nodes between consecutive iterations does not fall below the threshold within the maximum number "
     "of iterations, form finding raises an error instead of returning a form; if it does, it returns a form that is in equilibrium up "
     "to that threshold. Structures without indirect deviation edges need a single iteration. Unless asked otherwise the limit is 100 iterations and the threshold 1e-6; a diagram without trails is rejected.",
     ["inputs", "configurations"], "every valid topology diagram, iteration limit and threshold",
     "Tests use default limits on structures that converge.",
     [FORCE, NUMPY], [("equilibrium_state: iteration loop, residual and ValueError", FORCE), ("equilibrium_state_numpy", NUMPY)],
     "property-based testing: reference iteration as convergence oracle",
     "Where the displacement is within a factor of 100 of the threshold neither outcome is demanded.")

prop("C08", "Form finding up to a sequence stops exactly there",
     "Form finding up to a given sequence places the nodes up to that sequence in equilibrium, leaves the nodes after it where the "
     "topology diagram has them with no force in the trail edges between them, and reports the force left over at the nodes on it. "
     "A sequence past the last one has no effect and a negative one is rejected.",
     ["inputs", "configurations"], "every valid topology diagram, shifted or not, and every sequence",
     "Tests never use the limit with shifted trails or trails of different lengths.",
     [FORCE], [("equilibrium_state: kmax", FORCE)], "property-based testing: differential against a truncated reference solver",
     "Random structures; every sequence up to two past the last one.")

prop("C09", "Trails are exactly the paths of trail edges that end at supports",
     "Building trails finds, for every support, the path of trail edges that ends there, ordered from its origin to the support, and labels origins and "
     "sequences accordingly, whatever the keys, the order of insertion, the orientation of edges, or previous builds and shifts. "
     "Diagrams without supports, or with nodes that belong to no trail, are rejected with an error.",
     ["inputs", "histories"], "every diagram whose trail edges form disjoint paths with one supported end, and every history of "
     "extensions and rebuilds", "Tests build trails once on a few fixed diagrams.",
     [TOPO], [("build_trails", TOPO), ("TopologyDiagram.trails, origin_nodes", TOPO)],
     "property-based testing: generated plan as oracle, histories of extensions and rebuilds",
     "Random plans; branching or cyclic trail edges are out of the domain.")

prop("C10", "Auxiliary trails complete a diagram without changing the rest of it",
     "Building trails with auxiliary trails adds, for each node outside of trails and nothing else, one support at the configured offset and one trail "
     "edge of the configured length that leads there, and leaves all the rest untouched. Repeating it adds nothing, and the "
     "auxiliary trails, their edges and their supports can be told apart from the regular ones.",
     ["inputs", "histories"], "every diagram with free nodes, every auxiliary length and vector, and every history of extensions and rebuilds",
     "Tests add auxiliary trails to two small diagrams.",
     [TOPO], [("auxiliary trails in build_trails", TOPO)],
     "property-based testing: plan and reference solver as oracles, repeated application", "Random diagrams with free nodes.")

prop("C11", "Shifting trails relabels sequences and keeps the equilibrium",
     "Shifting a trail to a sequence relabels its nodes consecutively from there and affects nothing else: all queries about sequences and about direct and "
     "indirect deviation edges agree with the new labels. The form that is found does not depend on shifts, and "
     "shifting from a node that is not an origin is rejected.",
     ["inputs", "histories"], "every valid topology diagram and every history of shifts and rebuilds",
     "Tests shift single trails of fixed diagrams and look at few queries.",
     [TOPO, FORCE], [("shift_trail, node_sequence, sequences, trails_sequences", TOPO), ("is_direct_deviation_edge, is_indirect_deviation_edge", TOPO)],
     "property-based testing: model-based histories", "Random histories of up to eight shifts.")

prop("C12", "Queries of a diagram agree with what was put into it",
     "After any history of additions and overrides, all queries of a diagram (nodes, edges by type, supports, loads, lengths, forces, planes, counts, "
     "filters, attributes) report exactly what was added last. The same holds for the form diagrams found from it.",
     ["histories", "inputs"], "every history of additions and overrides",
     "Tests add a few elements and look at a few queries.",
     [DIAG, NODEM, EDGEM, TOPO, FORM], [("add_node, add_edge, add_load, add_support", DIAG), ("node and edge filters", NODEM), ("edge filters", EDGEM)],
     "property-based testing: stateful model (dictionaries) compared after every step", "Histories of 1-30 operations.")

prop("C13", "Nodes are found by their coordinates",
     "Looking up a location finds the node that is there now, within the tolerance of the diagram, and nothing at abandoned or empty locations; "
     "elements added by coordinates attach to existing nodes and create missing ones. A structure built from lines, points and vectors alone "
     "is the one built from keys, also after form finding and optimization.",
     ["histories", "inputs"], "every history of additions from geometry and moves, every tolerance; two nodes at one location are excluded",
     "Tests look up nodes right after adding them.",
     [DIAG, NODEM, EDGEM, S + "elements/node.py", S + "elements/edge.py", S + "loads/node.py", S + "supports/node.py"],
     [("node_key, node_exists, update_node_xyz, update_gkeys", NODEM), ("gkey_node map", DIAG)],
     "property-based testing: stateful model of occupied locations; differential (keys versus geometry)", "Random histories on a grid of unambiguous locations.")

prop("C14", "Copies and serialized diagrams are complete, usable and independent",
     "A diagram sent through JSON, its data dictionary, a copy or pickling answers every query as before, finds the same form, and can be edited and "
     "rebuilt like the original. Edits of one never reach the other.",
     ["inputs", "histories"], "every topology and form diagram in any stage, and every chain of round trips",
     "Tests do not serialize diagrams.",
     [DIAG, TOPO, FORM, S + "data/data.py"], [("data property of diagrams", TOPO), ("from_data, copy", DIAG)],
     "property-based testing: round trips, then same edits on both sides", "Random diagrams, 1-3 round trips, up to five edits.")

prop("C15", "Constraints and parameters survive serialization with the same effect",
     "A constraint or an optimization parameter sent through JSON, its data dictionary, a copy or pickling keeps its class, key, target, weight and "
     "bounds. An optimization with the results gives the same optimum, penalty and form as one with the originals.",
     ["inputs"], "every kind of constraint and parameter, key, target, weight and bound",
     "Tests do not touch the optimization module.",
     [CON + "constraint.py", PAR + "edge.py", PAR + "node.py"], [("data properties", CON + "constraint.py"), ("data properties", PAR + "edge.py")],
     "property-based testing: round trips, differential optimization", "Random problems; targets are compas objects or numbers.")

prop("C16", "The penalty is the weighted sum of squared deviations from the targets",
     "The penalty reported by an optimization is the sum over all constraints of the weight times the squared deviation of the returned form from the "
     "target: distances to point, plane, line and polyline, differences of trail forces, reaction vectors and deviation edge lengths, "
     "and of edge directions up to their sense.",
     ["inputs"], "every structure, and every set of constraints, targets and weights",
     "Tests do not touch the optimization module.",
     [CON + x for x in ("constraint.py", "point.py", "plane.py", "line.py", "polyline.py", "force.py", "length.py", "direction.py")] + [OPT],
     [("penalty, reference and target of each constraint", CON), ("_calculate_penalty", OPT)],
     "property-based testing: reference objective on the reference equilibrium", "Random problems of up to six constraints.")

prop("C17", "The gradient is the derivative of the penalty",
     "The gradient reported by an optimization, by automatic differentiation as well as by finite differences, is the derivative of the penalty with "
     "respect to each parameter, in the order of the parameters, at the reported optimum. The reported norm is the norm of that gradient.",
     ["inputs", "configurations"], "every structure, parameter and constraint kind, where the penalty is differentiable",
     "Tests do not touch the optimization module.",
     [S + "optimization/grad.py", OPT, NUMPY], [("grad_autograd, grad_finite_differences", S + "optimization/grad.py"), ("equilibrium_state_numpy is differentiable", NUMPY)],
     "property-based testing: central differences of a reference objective",
     "Kinks of the penalty, and points where the derivatives of the iterations have not settled (see the known finding), are excluded.")

prop("C18", "Optimizations end at the reported optimum, within bounds, in equilibrium",
     "After an optimization every parameter is within its bounds around the initial value, everything else in the topology diagram is unchanged, and the returned form is the "
     "equilibrium of the topology diagram as it now is. The reported optimum is what the topology diagram holds, the reported penalty is "
     "that of the returned form and not above the initial one, and on convex problems it is the minimum. If the solver gives up, the parameters are back at their initial values.",
     ["inputs", "configurations"], "every structure, problem, algorithm, stopping criterion and gradient method",
     "Tests do not touch the optimization module.",
     [OPT, S + "optimization/nlopt.py", PAR + "parameter.py"], [("Optimizer.solve", OPT), ("bound_low, bound_up", PAR + "parameter.py"), ("nlopt_solver", S + "optimization/nlopt.py")],
     "property-based testing: invariants against reference equilibrium and objective; known optimum on convex problems",
     "Random problems with all six algorithms; relies on nlopt, whose LBFGS is only run past one evaluation where form finding cannot fail.")

prop("C19", "An optimizer solves what is currently defined, whatever its history",
     "After any history of additions, removals and previous solves, an optimizer solves exactly the problem made of the parameters and constraints it holds, like a fresh optimizer "
     "and like the proxy function do. Options left out take their documented values, in both. The reported time is that of the run, in seconds. Removing what is not there, solving without parameters or constraints, and unknown gradient methods or algorithms are rejected with an error that leaves the diagram untouched.",
     ["histories", "inputs"], "every history of additions, removals and solves",
     "Tests do not touch the optimization module.",
     [OPT, S + "optimization/proxy.py"], [("add/remove methods, optimization_parameters, _update_parameters, check_optimization_sanity", OPT), ("solve_proxy", S + "optimization/proxy.py")],
     "property-based testing: stateful model, differential against a fresh optimizer", "Histories of up to 25 operations.")

prop("C20", "Quad meshes become diagrams whose trails lead to the supports",
     "A topology diagram made from a quad mesh has the vertices and supports of the mesh; each polyedge with one supported end becomes a trail to it, each with two supported ends becomes "
     "two trails joined by one deviation edge at its middle, and all others, open or closed, become deviation edges, except along a row of "
     "supports. Lengths, forces and states are those asked for, and the trails can be built and solved.",
     ["inputs"], "every quad mesh (grid or ring), numbering, order and orientation of polyedges, and supports at the ends of polyedges",
     "Tests do not cover meshes.",
     [MESH], [("from_dualquadmesh", MESH)], "property-based testing: generated plan as oracle",
     "compas_singular is not installed: a stand-in offers the four methods of a QuadMesh that are read.")


GH = S + "ghpython/"
VIEW = S + "viewers/"
PLOT = S + "plotters/"

prop("C21", "Plots show what is in the diagrams",
     "A plot of a topology or form diagram shows each selected node and edge where it is, coloured by its type, sequence or force state, with widths, loads, reactions and labels that "
     "follow the values in the diagram and the options given, and nothing else. Plotting does not change the diagram.",
     ["inputs", "configurations"], "every diagram (before or after building trails, with auxiliary trails), option and selection of nodes and edges",
     "Tests do not plot.",
     [PLOT + "topologyartist.py", PLOT + "formartist.py", PLOT + "plotter.py"], [("TopologyArtist", PLOT + "topologyartist.py"), ("FormArtist", PLOT + "formartist.py")],
     "property-based testing: the diagram as oracle of the canvas",
     "Reads the circles, lines, arrows and texts back from a canvas without a screen.")

prop("C22", "Grasshopper components do what the library does",
     "The Grasshopper components assemble, shift, move, search, solve (also with constraints, through the proxy), draw, disassemble, export and import diagrams with the same "
     "results as the library; they return nothing if a required input is missing, and never modify a diagram they are given.",
     ["inputs", "configurations"], "every structure, selection and set of connected inputs",
     "Tests cannot import the components, which need Rhino.",
     [GH + "components/", GH + "artists.py", S + "optimization/proxy.py"], [("RunScript of each component", GH + "components/"), ("DiagramArtist, FormArtist, TopologyArtist", GH + "artists.py")],
     "property-based testing: differential against the library and the generated structure",
     "Rhino, Grasshopper and the remote call are stand-ins (lib/rhino.py); data passes the proxy as JSON.")

prop("C23", "The 3D viewer shows what is in the diagrams",
     "A topology or form diagram added to the viewer appears with each selected node and edge where it is, coloured by type or force state, with widths, loads, reactions and labels that "
     "follow the values in the diagram and the options given, and with the visibility asked for, then or later.",
     ["inputs", "configurations"], "every diagram, option and selection of nodes and edges",
     "Tests cannot import the viewer, which needs compas_view2.",
     [VIEW + "diagramobject.py", VIEW + "formobject.py", VIEW + "topologyobject.py", VIEW + "viewer.py"], [("DiagramObject", VIEW + "diagramobject.py"), ("edges_by_type", VIEW + "topologyobject.py")],
     "property-based testing: the diagram as oracle of what is added to a recording viewer",
     "compas_view2 is a stand-in that records what is added (lib/view2.py).")


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["title"]
            rec = {"id": p["pid"], "title": p["title"], "statement": p["statement"],
                   "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                   "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
                               "observe_at": p["observe"], "hook_needed": None}}
            f.write(json.dumps(rec) + "\n")
    manifest = {"version": 1, "setup_cmd": "./check --selftest",
                "checks": [{"property": p["pid"], "quick_cmd": "./check " + p["pid"],
                            "thorough_cmd": "VERIF_TIER=thorough ./check " + p["pid"],
                            "technique": p["technique"], "level": "exploration", "level_note": p["note"]} for p in PROPS],
                "not_applicable": [],
                "notes": "Needs no build: the checks import the code from /repo/src. No hooks."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(manifest, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()

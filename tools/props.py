"""Source of properties.jsonl and MANIFEST.json: `python tools/props.py` rewrites both."""

import json
import pathlib

V = pathlib.Path(__file__).resolve().parents[1]
S = "src/tfc/"
U = S + "utils/"
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, claim=True):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, claim=claim))  # fmt: skip


prop("C01", "Univariate polynomial and Fourier bases are exact at every order",
     "For every polynomial or Fourier basis, both backends, every domain, every number of functions and every derivative order, "
     "the matrix returned for an array of points has one row per point and one column per kept function, and each entry is the "
     "derivative of that order, with respect to the problem variable, of that basis function at that point, to rounding. "
     "The functions asked to be removed are left out unless the full matrix is asked for, and the points are never modified.",
     ["inputs", "configurations"], "all bases (Chebyshev, Legendre, Hermite physicist/probabilist, Laguerre, Fourier), domains, sizes, "
     "removals, points, orders 0-12, kinds of array",
     "The tests compare a handful of hand-written low-degree polynomials on one domain, up to a fixed order; recurrences and chain-rule "
     "factors can be wrong for other sizes, orders or domains.",
     [U + "BF.cc", U + "BF.h", U + "BF_Py.py", S + "utfc.py"],
     [("recurrences of each basis and of its derivatives", U + "BF.cc"), ("scaling of derivative d by c^d", U + "BF.cc"), ("Python recurrences", U + "BF_Py.py"), ("H, dH, d2H, d4H, d8H", S + "utfc.py")],
     "property-based testing against closed-form references (differential oracle)", "random and enumerated configurations; reference is an independent formula in double precision")
prop("C02", "Univariate random-feature bases compute sigma(w z + b) and its derivatives",
     "For every activation (sigmoid, tanh, sine, swish, rectified linear), both backends, every set of weights and biases, however and in whichever order they were "
     "set, the matrix of every derivative order up to eight is the derivative in the problem variable of the activation of each feature, with the removed features left out. "
     "Weights and biases read back are the ones in use, and replacing them takes effect at the next evaluation.",
     ["inputs", "configurations", "histories"], "activations, number of features, weights and biases, histories of setting them, orders, domains, removals",
     "The tests check one size, a few orders and one domain with the weights drawn at construction.",
     [U + "BF.cc", U + "BF.h", U + "BF_Py.py", S + "utfc.py"],
     [("ELM switch statements of each derivative order", U + "BF.cc"), ("weight and bias setters", U + "BF.cc"), ("nested derivatives", U + "BF_Py.py")],
     "property-based testing against integer-polynomial references", "orders 0-8 compiled, 0-4 Python; ReLU not judged at its kink")
prop("C03", "Multivariate bases are all products of univariate ones up to the degree",
     "For every multivariate polynomial or Fourier basis, in any number of dimensions, the columns are exactly the products of one univariate function per dimension whose "
     "degrees sum to at most the degree of the expansion, each once and in a fixed order, and every mixed partial derivative is the product of the univariate derivatives. "
     "A product is left out exactly when each of its factors is among the functions removed in its own dimension.",
     ["inputs", "configurations"], "1-5 dimensions, degrees, bases, domains per dimension, removal per dimension, orders per dimension, both backends",
     "The tests cover two or three dimensions at one degree with one removal per dimension.",
     [U + "BF.cc", U + "BF_Py.py", S + "mtfc.py"],
     [("recursion over the multi-indices", U + "BF.cc"), ("removal of products", S + "mtfc.py"), ("derivative methods of several names", S + "mtfc.py")],
     "property-based testing against products of closed-form references", "bounded: dimension <= 5, order <= 5 per dimension")
prop("C04", "Multivariate random-feature bases and all their mixed derivatives are exact",
     "For every activation, number of dimensions, weights and biases, each entry of every mixed partial derivative up to total order eight is the derivative of the activation of "
     "the weighted sum of the scaled coordinates plus the bias. "
     "Weights and biases read back are the ones in use.",
     ["inputs", "configurations", "histories"], "activations, 1-4 dimensions, features, weights, domains per dimension, removal, splits of the order among dimensions",
     "The tests take a few low orders in two dimensions.",
     [U + "BF.cc", U + "BF_Py.py", S + "mtfc.py"],
     [("nELM switch statements and chain rule per dimension", U + "BF.cc"), ("Python nELM", U + "BF_Py.py")],
     "property-based testing against integer-polynomial references", "total order 0-8 compiled, 0-3 Python")
prop("C05", "The two backends compute the same thing, and Python's extends to complex values",
     "For the same basis, domain, points, removed functions and order, the compiled and the Python backends return the same matrix, collocation points and scaling. "
     "The Python backend, given complex domain ends or points, returns the analytic continuation of the basis functions that it supports on complex fields.",
     ["inputs", "configurations"], "all bases common to both backends, one or several dimensions, complex ends and points",
     "The tests compare the backends at a few fixed settings, and solve a single complex problem.",
     [U + "BF_Py.py", U + "BF.cc"], [("independent Python implementation", U + "BF_Py.py")],
     "differential property-based testing between the two backends", "agreement to rounding; complex points near the basis's own domain")
prop("C06", "Collocation points and the affine map to the basis's domain",
     "The collocation points start and end at the ends of the problem domain, have the documented distribution for the basis (Chebyshev-Gauss-Lobatto for Chebyshev and Legendre, uniform otherwise) "
     "and, in several dimensions, form the full grid of the points of each dimension. "
     "The map from problem to basis variable is affine, takes ends to ends, and its slope is the factor that enters the derivatives.",
     ["inputs", "configurations"], "bases, backends, numbers of points per dimension, domains given as any array or list of any number type",
     "The tests use one or two domains and numbers of points.",
     [S + "utfc.py", S + "mtfc.py", U + "BF.cc", U + "BF_Py.py"], [("node generation", S + "mtfc.py"), ("x, z, c of the basis class", U + "BF.cc")],
     "property-based testing against the definition", "to 1e-12 relative")
prop("C07", "Removing basis functions drops exactly those columns",
     "However the functions to remove are written - a number of leading functions, a list in any order, any integer array, one entry per dimension - the matrix of every derivative is the full matrix with exactly those "
     "columns left out and the others in order, eagerly and compiled. "
     "Two ways of writing the same set give the same result.",
     ["inputs", "configurations"], "ways of writing the set of removed functions, bases, dimensions, derivative methods",
     "The tests use one list of leading indices.",
     [S + "utfc.py", S + "mtfc.py", U + "BF.cc"], [("normalisation of nC", S + "utfc.py"), ("normalisation of nC per dimension", S + "mtfc.py"), ("skipping of removed columns", U + "BF.cc")],
     "metamorphic property-based testing", "indices are distinct and in range")
prop("C08", "Automatic differentiation and compilation of the basis matrices are exact",
     "Any composition of derivatives (element-wise, Jacobian, directional, reverse-mode in the coefficients), compilation, vectorisation and loops applied to the basis matrices gives the values "
     "and derivatives of the true functions, for the original points and any function of them. "
     "Repeated derivatives through the transformation and the explicit derivative methods agree.",
     ["inputs", "programs"], "programs composing JAX transformations over every method of every basis, in one and several variables",
     "The tests differentiate a few expressions once or twice in fixed ways.",
     [S + "utfc.py", S + "mtfc.py", U + "TFCUtils.py"], [("derivative rules of each basis primitive", S + "utfc.py"), ("batching and lowering of the primitives", S + "mtfc.py"), ("element-wise derivative", U + "TFCUtils.py")],
     "property-based testing of generated transformation programs against references", "total order up to 8; transformations documented for each backend")
prop("C09", "A constrained expression meets its constraints for every free function",
     "The constrained expression obtained for independent linear constraints - values, derivatives, integrals, relative and combined constraints, in one or several variables with compatible data - "
     "meets every constraint exactly, to rounding, whatever the coefficients of the free function, including zero and large ones. "
     "This holds for the printed code and for the expression assembled from the switching functions, evaluated eagerly or compiled.",
     ["inputs", "programs"], "sets of constraints, their data, support functions, bases, removed functions, coefficients",
     "The tests evaluate a few textbook problems at the solution's coefficients only.",
     [U + "CeSolver.py", U + "TFCUtils.py", S + "utfc.py", S + "mtfc.py"], [("switching functions from the support matrix", U + "CeSolver.py"), ("derivatives of the basis", S + "utfc.py")],
     "property-based testing: the constraints are the oracle", "1-4 constraints in one variable, up to 6 in several")
prop("C10", "The solver's quantities are the defined ones through any history of changes",
     "The support matrix, switching functions, projection functionals and constrained expression that the solver returns are always those that the definition gives for the constraints, data, free function and support functions it holds at that moment, "
     "whatever was set or read before and in whatever order. "
     "Other solvers are not affected.",
     ["histories", "inputs"], "sets of linear constraints, and sequences of setting and reading any of the solver's quantities",
     "The tests build a solver once and read its expression; staleness after a change and other orders are not reached.",
     [U + "CeSolver.py"], [("lazy recomputation flags and setters", U + "CeSolver.py"), ("support matrix, alpha, phi, rho, ce", U + "CeSolver.py")],
     "stateful model-based testing against exact rational arithmetic", "1-5 constraints; histories up to 12 operations")
prop("C11", "The solver's own check of an expression tells the truth",
     "Asked whether an expression satisfies the constraints, the solver answers yes exactly when every constraint holds identically for that expression, and no when at least one is broken.",
     ["inputs"], "constraints and expressions that satisfy, or break one or more of, them, in one or two variables",
     "The tests only ask about correct expressions; a check that always says yes passes them.",
     [U + "CeSolver.py"], [("checkCe", U + "CeSolver.py")],
     "property-based testing against exact rational arithmetic", "polynomial perturbations, rational data")
prop("C12", "Printed code computes the expression it was printed from",
     "The code printed for a symbolic expression - numbers, elementary functions, undefined functions of any arguments, their derivatives of any order in any arguments and their values at points - runs on arrays and returns the value of the expression at every point.",
     ["inputs", "programs"], "random symbolic expressions and the solver's own outputs",
     "The tests print a few expressions of the solver and never vary the arguments or orders of the derivatives.",
     [U + "CeSolver.py"], [("printer of derivatives, substitutions and functions", U + "CeSolver.py")],
     "generated expressions, printed, executed and compared with high-precision evaluation", "Integral and piecewise expressions are outside the printer")
prop("C13", "Linear least squares returns the least-squares solution",
     "For every residual that is affine in the unknowns, the function and class forms of linear least squares return the starting point's least-squares correction - the minimum-norm minimiser with the pseudo-inverse, the minimiser with the least-squares method - for unknowns given as arrays or dictionaries, "
     "with any further arguments constant or not, timed or not, and again when run with new arguments. "
     "The caller's arrays are not changed, the result has the same structure and shapes as the unknowns, and the reported time is a finite non-negative number.",
     ["inputs", "configurations", "histories"], "shapes, structures of the unknowns, options, constant arguments, repeated runs",
     "The tests solve two problems with default options.",
     [U + "TFCUtils.py"], [("LS and LsClass", U + "TFCUtils.py"), ("partial evaluation and jit of the solve", U + "TFCUtils.py")],
     "property-based testing against numpy's least squares", "well-conditioned or exactly rank-deficient problems")
prop("C14", "Nonlinear least squares iterates as specified and stops as specified",
     "The function and class forms of nonlinear least squares make Gauss-Newton steps from the given start, stop as soon as the largest residual or the largest step is within the tolerance or the iteration limit is reached (or the user's condition says so), and return the iterate reached and the number of iterations made. "
     "This holds for unknowns given as arrays or dictionaries, any options, given Jacobians, constant arguments and repeated runs, and the caller's arrays are not changed.",
     ["inputs", "configurations", "histories"], "residuals, starts, tolerances, limits, structures of the unknowns, options, user's condition and body, repeated runs",
     "The tests solve a few problems to convergence; the stopping rule, the count and the options are not compared with anything.",
     [U + "TFCUtils.py"], [("NLLS and NllsClass loops", U + "TFCUtils.py")],
     "model-based property testing against Gauss-Newton in numpy", "mildly nonlinear, well-conditioned residuals")
prop("C15", "Dictionaries of unknowns behave as the concatenation of their values",
     "Through any history of creating, setting, deleting and updating keys, arithmetic, conversion and JAX transformations, a dictionary of unknowns keeps its keys in order, flattens to the concatenation of its values, and adding or subtracting a flat array or another dictionary adds the matching parts to each value. "
     "Plain additions leave their operands unchanged, and no dictionary affects another.",
     ["histories", "inputs"], "sequences of operations on several dictionaries with any keys, sizes and shapes",
     "The tests use the dictionaries only inside one solver.",
     [U + "TFCUtils.py"], [("TFCDict and TFCDictRobust", U + "TFCUtils.py"), ("pytree registration", U + "TFCUtils.py")],
     "stateful model-based testing against an ordered-list model", "up to 14 operations")
prop("C16", "Partial evaluation is the original function with its constants filled in",
     "The function returned for chosen constant arguments, in whichever order they are listed, takes the remaining arguments and returns what the original returns, with nested arguments and outputs and with outputs that depend on constants only, for new values of the remaining arguments, and its derivatives agree too. "
     "What depends on constants only is computed once and not again at later calls.",
     ["inputs", "programs"], "functions, sets and orders of constant arguments, nested structures, backends",
     "The tests use it inside solvers with one function each.",
     [U + "TFCUtils.py"], [("pe, pejit", U + "TFCUtils.py")],
     "differential property-based testing against the original function", "functions traceable in the remaining arguments")
prop("C17", "Element-wise derivative, step function and scaled QR are exact",
     "The element-wise derivative of any element-wise function with respect to any argument, repeated in any order, compiled or not and with several outputs, is its partial derivative at every point; with respect to a dictionary it is the sum over its entries. "
     "The step function is 1 for positive values and 0 for the others, with zero derivatives of every order. "
     "The scaled QR solver returns the least-squares solution, and the condition number of the column-scaled matrix, whatever the scales of the columns.",
     ["inputs", "programs"], "random functions, sequences of arguments, shapes; arrays with zeros; scaled matrices",
     "The tests differentiate fixed functions once.",
     [U + "TFCUtils.py"], [("egrad, egradSimple, step, ScaledQrLs", U + "TFCUtils.py")],
     "property-based testing against symbolic derivatives and numpy", "smooth functions; full-rank matrices")
prop("C18", "The component-constraint graph lists exactly the acyclic orientations",
     "For any nodes and edges between different nodes, the orientations listed are all those of the graph, each once, and the ones marked as valid are exactly the acyclic ones. "
     "Saving writes, for each graph asked for, a picture with the nodes and arrows of that orientation.",
     ["inputs"], "graphs with up to 6 nodes and 7 edges, repeated edges included",
     "No test covers it.",
     [U + "TFCUtils.py"], [("ComponentConstraintGraph", U + "TFCUtils.py")],
     "property-based testing against enumeration with Kahn's algorithm", "rendering trusts Graphviz")
prop("C19", "A hybrid of several bases is their matrices side by side",
     "For any list of univariate bases of the same number of points, the hybrid's value and derivative matrices are those of its parts side by side in order, with each part's removed functions left out unless the full matrix is asked for, eagerly, differentiated and compiled.",
     ["inputs", "configurations"], "1-3 bases of any kind, size, domain, removal and backend",
     "No test covers it.",
     [S + "utfc.py"], [("HybridUtfc", S + "utfc.py")],
     "property-based testing against references", "orders up to eight")

exec(open(V / "tools" / "props_more.py").read()) if (V / "tools" / "props_more.py").exists() else None

if __name__ == "__main__":
    with open(V / "properties.jsonl", "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]},
            }) + "\n")  # fmt: skip
    cmd = "/opt/venv/bin/python run.py {} --tier {}"
    man = {
        "version": 1,
        "setup_cmd": "/opt/venv/bin/python vlib/build.py plain && /opt/venv/bin/python vlib/build.py asan",
        "checks": [
            {"property": p["id"], "quick_cmd": cmd.format(p["id"], "quick"), "thorough_cmd": cmd.format(p["id"], "thorough"),
             "technique": p["technique"], "level": "exploration", "level_note": p["note"]}
            for p in P if p["claim"]
        ],
        "not_applicable": [{"property": p["id"], "reason": p["note"]} for p in P if not p["claim"]],
        "notes": "No hooks in /repo. See DESIGN.md; genuine defects are listed in KNOWN_FINDINGS.md.",
    }  # fmt: skip
    (V / "MANIFEST.json").write_text(json.dumps(man, indent=1) + "\n")

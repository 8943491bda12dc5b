"""More properties; read by props.py."""

prop("C20", "LaTeX tables hold exactly the array's numbers in the format asked for",
     "For every two-dimensional array of numbers in any memory layout, and every format, the table is a tabular environment with as many columns as declared, "
     "one row per row of the array, and each cell the array's entry in that format. "
     "Row and column headers appear, when given, in order beside and above their rows and columns, and the arguments are not changed.",
     ["inputs"], "arrays of floats (infinite and undefined included), integers and booleans of 1x1 to 60x60, memory layouts, formats, headers",
     "No test covers it.",
     [U + "Latex.py"], [("SimpleTable", U + "Latex.py")],
     "property-based testing with a parser of the table as the inverse", "headers free of LaTeX separators")
prop("C21", "Plots and HTML documents carry what they were given, where it was asked for",
     "For any grid of subplots in either plotting library, every label, title, twin or third axis appears on its own subplot and nowhere else, traces, views, color scales and sizes land where asked, "
     "and saved files are of the kind and at the place asked for. "
     "An HTML document written and read back has the same nested tags, attributes and text, in a new or existing folder.",
     ["inputs", "configurations"], "grids of 1x1 to 3x3 with holes, five ways to give labels, two and three dimensions, sequences of traces, views and color scales; trees of tags",
     "No test draws more than one subplot or inspects it.",
     [U + "MakePlot.py", U + "PlotlyMakePlot.py", U + "Html.py"],
     [("MakePlot", U + "MakePlot.py"), ("MakePlot of Plotly", U + "PlotlyMakePlot.py"), ("HTML", U + "Html.py")],
     "property-based testing against a model of the figure and a round trip of the document", "the figure objects of the plotting libraries are trusted")
prop("C22", "The compiled code stays within its memory, and calls leave none behind",
     "For every configuration, points, order and sequence of creations, evaluations, weight changes and deletions, the compiled basis functions read and write only their own memory, "
     "arrays they returned keep their values whatever happens to the object later, and points with the wrong number of dimensions are refused. "
     "Repeating evaluations, compiled calls or accesses to weights any number of times does not make memory grow, and basis functions that are no longer used give back the memory of their weights.",
     ["inputs", "configurations", "histories"], "configurations of C01-C04 and C08, eager and compiled; histories over three objects; sizes down to no points at all",
     "The tests check values, which stray reads, leaks and dangling arrays usually leave intact.",
     [U + "BF.cc", U + "BF.h", U + "BF_Py.cc", S + "utfc.py", S + "mtfc.py"],
     [("arrays allocated and owned per call", U + "BF.cc"), ("basis functions reachable from compiled code", U + "BF.h"), ("index tables of the products", U + "BF.cc")],
     "fuzzing under AddressSanitizer and UndefinedBehaviorSanitizer, stateful generation, resident-set measurement", "growth below 24 MB per 60 calls is not seen")
prop("C23", "Instances do not influence each other",
     "For any history of creating, evaluating, compiling, changing the weights of, dropping and combining several univariate, multivariate and hybrid objects, each evaluation, eager or compiled earlier or later, "
     "gives the matrix of its own object and nothing else. "
     "This holds from several threads at once, and for functions compiled before other objects were created or after their own object is no longer referenced elsewhere.",
     ["histories", "schedules", "configurations"], "histories of up to 12 operations on up to four objects of any basis, backend and dimension; concurrent calls",
     "The tests use one object at a time.",
     [S + "utfc.py", S + "mtfc.py", U + "BF.cc", U + "BF.h"],
     [("identifier of each basis and the container compiled calls look it up in", U + "BF.h"), ("registration of the compiled call per object", S + "utfc.py"), ("registration of the compiled call per object", S + "mtfc.py")],
     "stateful property-based testing against independent references", "no object is created while other threads evaluate")
prop("C24", "Differential equations solved with the toolbox give the known solution",
     "For any ordinary equation of first or second order, pair of coupled ones, or second-order partial equation in two variables, linear or weakly nonlinear, built so that its solution is known and representable, "
     "collocating the constrained expression derived by the toolbox and solving it by least squares yields that solution at every point.",
     ["inputs", "configurations"], "constraints of every kind (points, derivatives, integrals, relative), bases, domains, dictionary or array unknowns, both solvers and their options",
     "The tests solve a few fixed equations.",
     [S + "utfc.py", S + "mtfc.py", U + "CeSolver.py", U + "TFCUtils.py", U + "BF.cc"],
     [("collocation points and basis", S + "utfc.py"), ("constrained expression and its printed code", U + "CeSolver.py"), ("least squares and element-wise derivatives", U + "TFCUtils.py")],
     "property-based testing with manufactured solutions, end to end", "judged where the collocation system is well conditioned")
prop("C25", "Configurations that contradict themselves are refused, and no others",
     "Unknown bases, backends, solver methods and print types, more functions removed than the degree of the expansion, negative indices to remove in the univariate and random-feature bases, lengths that do not match the number of dimensions, "
     "weights of the wrong size, hybrids of different numbers of points, edges of unknown nodes and labels of the wrong type are refused with an error, in every combination with otherwise valid settings. "
     "The same settings without the fault are accepted.",
     ["inputs", "configurations"], "valid configurations of every basis, backend, dimension and kind of sequence, with one fault each",
     "No test gives an invalid configuration.",
     [S + "utfc.py", S + "mtfc.py", U + "TFCUtils.py", U + "CeSolver.py", U + "BF.cc", U + "BF_Py.py", U + "MakePlot.py", U + "PlotlyMakePlot.py"],
     [("validation in the constructors", S + "mtfc.py"), ("validation in the constructor", S + "utfc.py"), ("size of weights", U + "BF.cc")],
     "property-based testing with fault injection into valid configurations", "one fault at a time; the wording of the error is not judged")

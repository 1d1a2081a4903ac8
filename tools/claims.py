MC = "model checking: "
MNOTES = ("All checks enumerate a bounded space exhaustively on the real code "
          "(imported from /repo's working tree) and compare every execution "
          "with an independent reference model; nothing is sampled.")
NA = {}
CLAIMS = {
    "C01": (MC + "exhaustive enumeration of all small grid polygons, shape "
            "parameter grids and rotation histories against a quadrature model",
            "model_checking",
            "exhaustive within the stated grids; continuous parameters outside "
            "the grid are not covered"),
    "C02": (MC + "breadth-first exploration of all structure-building call "
            "histories (valid and rejected calls) on the real objects against "
            "a boring reference structure", "model_checking",
            "exhaustive up to the stated history depth over the operation "
            "alphabet"),
    "C03": (MC + "exhaustive enumeration of lattices, point lists, step lists "
            "and conventions against an independent path model",
            "model_checking", "exhaustive within the stated alphabet"),
    "C04": (MC + "exhaustive enumeration of lattice x cutoff x truncation x "
            "structure against the set of lattice points in the cutoff and "
            "quadrature Fourier coefficients", "model_checking",
            "exhaustive within the stated alphabet"),
    "C05": (MC + "exhaustive enumeration of all layer stacks over a letter "
            "alphabet x wavevectors x polarisation x mode number against a "
            "Sturm oscillation count and an independent field solution",
            "model_checking", "exhaustive within the stated alphabet; pairs "
            "of modes closer than the documented search step are skipped"),
    "C06": (MC + "exhaustive enumeration of lattice x stack x k x truncation x "
            "guided-mode list against a reference projection built from own "
            "slab modes and quadrature", "model_checking",
            "exhaustive within the stated alphabet"),
    "C10": (MC + "exhaustive enumeration of lattice x stack x k x mode x "
            "channel, and of on-demand request sequences, against an "
            "independent golden-rule calculation", "model_checking",
            "exhaustive within the stated alphabet; grazing channels skipped"),
    "C11": (MC + "exhaustive enumeration of lattice x stack x k x mode x height "
            "x component subset; fields are projected on reference modes and "
            "must be the eigenvector, its curl and its inverse transform",
            "model_checking", "exhaustive within the stated alphabet"),
    "C12": (MC + "exhaustive enumeration of lattice x layer x polarisation x k "
            "x cutoff x mode x component subset against the plane-wave "
            "operator with quadrature coefficients", "model_checking",
            "exhaustive within the stated alphabet"),
    "C07": (MC + "exhaustive enumeration of all words (length <= 2 quick, 3 "
            "thorough) over 14 spectrum-preserving transformations applied to "
            "every structure of the alphabet; the real solver's result after "
            "the word must equal the one before it", "model_checking",
            "metamorphic: exhaustive within the stated alphabet; does not pin "
            "absolute values (C05, C06, C10 do)"),
    "C09": (MC + "exhaustive enumeration of lattice x mirror angle x stack x "
            "guided-mode list x k x separation option (odd/even/both, dense/"
            "sparse, number of modes) and of the rejected combinations; the "
            "unseparated spectrum and the parity of the fields are the oracle",
            "model_checking", "exhaustive within the stated alphabet"),
    "C08": (MC + "exhaustive enumeration of the product of all solver options "
            "(eigensolver, guided-mode computation, gradient option, backend, "
            "verbosity, loss timing, k-splitting, number of modes, target, "
            "truncation, decoupled mode lists) on every structure; all results "
            "must coincide", "model_checking",
            "metamorphic: exhaustive within the stated alphabet"),
    "C15": (MC + "exhaustive enumeration of lattice x shape list x well height "
            "x truncation x potential x mass x k, and of all run histories up "
            "to the bound, against an independent plane-wave Schroedinger "
            "matrix", "model_checking",
            "exhaustive within the stated alphabet"),
    "C16": (MC + "exhaustive enumeration of lattice x stack x well list x "
            "truncation x mode counts x k against an independently assembled "
            "Hopfield problem; zero-coupling union, identical wells, "
            "translations, supercells, unit changes and run histories",
            "model_checking", "exhaustive within the stated alphabet"),
    "C13": (MC + "exhaustive enumeration of all sequences of public calls "
            "(valid runs, rejected runs, queries, backend switches, other "
            "objects on the same crystal) up to the bound on the slab, 2D and "
            "polariton solvers, each compared with a fresh object; exciton and "
            "polariton run histories also in C15/C16", "model_checking",
            "exhaustive within the stated alphabet of operations"),
    "C14": (MC + "full Jacobian enumeration: every differentiable primitive at "
            "every point of a bounded argument alphabet, every input entry x "
            "every output entry against central differences; every parameter "
            "of every structure x option set x output (frequencies, losses, "
            "couplings, fields) of the 2D and slab solvers", "model_checking",
            "exhaustive within the stated alphabet; the derivative oracle is "
            "numerical (Richardson, tolerance stated)"),
    "C17": (MC + "exhaustive enumeration of objective x start x epochs x bounds "
            "x arguments x pass_self x callback x display, and of all call "
            "histories up to the bound on one optimiser object, against a "
            "reference Adam recursion and an independent scipy run",
            "model_checking", "exhaustive within the stated alphabet"),
    "C18": (MC + "exhaustive enumeration of shape lists x layers x units x "
            "tolerances, of all binary rasters up to the bound x level forms x "
            "boundary option, and of export histories; files are decoded by an "
            "independent GDSII reader", "model_checking",
            "exhaustive within the stated alphabet"),
    "C19": (MC + "exhaustive enumeration of plot function x solver kind x "
            "structure x wavevector list x all option combinations; what is "
            "drawn is read back from the figure artists and compared with an "
            "unplotted solver", "model_checking",
            "exhaustive within the stated alphabet"),
    "C20": (MC + "exhaustive enumeration of the arguments of every numeric "
            "helper over small alphabets, of every backend function x argument "
            "list x backend, and of all backend switching histories up to the "
            "bound, against independent definitions", "model_checking",
            "exhaustive within the stated alphabet"),
    "C21": (MC + "exhaustive enumeration of the subsets of omitted options "
            "(all, or up to the stated size) and of all positional prefixes of "
            "every public call, each executed and compared with the call with "
            "documented values given by name", "model_checking",
            "exhaustive within the stated bounds"),
    "C22": (MC + "exhaustive enumeration of parameter tuples, building "
            "sequences and run histories up to the bound; the printed "
            "name-value pairs are parsed back and compared with what was "
            "requested", "model_checking",
            "exhaustive within the stated alphabet"),
}

#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (the claimed checks are those with a module in harness/checks)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, over, text, why, files, mech, tech, note, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  tech=tech, note=note, observe=observe))


GR = "escnn/group/"
p("C01", "Group elements obey the group axioms in every parametrisation",
  "In every supported group, products, inverses and the identity of elements obey the group axioms and agree with the "
  "matrices the elements stand for, and converting an element between any two of the group's parametrisations yields the same "
  "element. Equality and hashing of elements follow that identity, elements of different groups never mix, and the enumeration "
  "of a finite group lists each element exactly once. Sampling grids consist of elements of the group (or of its "
  "homogeneous space) in the promised number and arrangement.",
  ["inputs", "histories", "configurations"],
  "all groups (finite, continuous, products, double groups), all elements including boundary angles and long products, all parametrisations",
  "the tests multiply a few elements of a few groups in the default parametrisation; other parametrisations, edge elements, long words and "
  "large orders form an unbounded set",
  [GR + "group.py", GR + "groups/", GR + "directproduct.py", GR + "doublegroup.py"],
  [("GroupElement / Group operations", GR + "group.py"), ("parametrisation changes", GR + "groups/*._change_param"),
   ("3D rotation parametrisations", GR + "groups/so3_utils.py")],
  "runtime monitor: reference matrix model run in lock step with random and edge words over group elements",
  "oracle is an independent matrix model; reach is the sampled groups, words and parametrisations")
p("C02", "Every representation is an orthogonal group homomorphism",
  "Every representation the library constructs maps the identity to the identity matrix, products of elements to products of "
  "matrices and inverses to transposed matrices (orthogonality, when the change of basis is orthogonal), for all elements. Its "
  "character equals the trace, and its declared change of basis and list of irreps reproduce its matrices.",
  ["inputs", "configurations", "programs"],
  "all groups, all representations reachable through public constructors, all pairs of elements",
  "tests check irreps and a few sums on a grid; compositions of constructors and elements are unbounded",
  [GR + "representation.py", GR + "irrep.py", GR + "groups/", GR + "directproduct.py"],
  [("Representation construction", GR + "representation.py"), ("irrep callables", GR + "groups/")],
  "runtime monitor: constructor hook that collects every Representation built by random constructor programs and evaluates the homomorphism oracle on it",
  "exploration over generated constructor programs and elements")
p("C03", "Irreps are irreducible, inequivalent, complete and correctly typed",
  "The irreps of a group are irreducible over the reals and pairwise inequivalent, their real/complex/quaternionic type and their basis of "
  "endomorphisms match the actual commutant, and for a finite group they are complete; for a continuous group they cover each "
  "frequency up to the requested band limit exactly once. Asking for an irrep by its id always gives that irrep.",
  ["configurations", "inputs"], "all groups and all irreps within the band limit",
  "completeness and type are statements about the whole family and the whole group; tests look at some members",
  [GR + "irrep.py", GR + "groups/", GR + "directproduct.py"],
  [("irrep families", GR + "groups/*.irrep"), ("product irreps", GR + "directproduct.py")],
  "runtime monitor: character orthogonality and commutant oracles over Haar quadrature of the running irreps",
  "exact quadrature for the degrees involved; exploration over groups and band limits")
p("C04", "Subgroup inclusion and restriction maps are consistent homomorphisms",
  "For every valid subgroup id, including conjugated ones and ids of product groups, the inclusion is an injective homomorphism "
  "into the parent whose image is the geometric subgroup the id documents, and the restriction inverts it on the image and returns nothing for every "
  "other element, however the element was produced. Invalid ids are refused.",
  ["inputs", "configurations", "histories"], "all groups, subgroup ids, adjoints, elements (including products and elements close to a full turn)",
  "infinitely many ids and elements; tests use a few per group and enumerate only canonical elements",
  [GR + "group.py", GR + "groups/", GR + "directproduct.py"],
  [("subgroup maps", GR + "groups/*._subgroup"), ("id normalisation", GR + "groups/*._process_subgroup_id")],
  "runtime monitor: homomorphism / round-trip / membership oracles on recorded calls of both maps against a matrix model",
  "exploration over ids, adjoints and elements")
p("C05", "Restricting a representation equals composing with the inclusion",
  "The restriction of any representation to any subgroup equals, matrix by matrix, the representation evaluated on the included subgroup "
  "elements, in the same basis; its decomposition into irreps of the subgroup is correct and restricting along a chain of subgroups composes.",
  ["inputs", "configurations"], "all groups, ids, representations, subgroup elements",
  "tests restrict irreps of some groups only and only to some ids",
  [GR + "representation.py", GR + "groups/", GR + "_numerical.py"],
  [("Representation.restrict / Group.restrict_representation", GR + "group.py"), ("per-group irrep restriction", GR + "groups/*._restrict_irrep")],
  "runtime monitor: pointwise comparison of the restricted representation with the composition, on random and edge elements",
  "exploration over ids, representations and elements")
p("C06", "Regular, quotient, induced and homogeneous-space objects match definitions",
  "The regular and quotient representations permute the basis exactly as the group permutes its elements or cosets, and an induced representation acts "
  "on cosets and fibres as induction prescribes, whichever coset representatives are given. The Fourier bases of a homogeneous space have the "
  "documented size, are equivariant under the group and under the stabiliser, and are orthonormal and complete.",
  ["inputs", "configurations", "histories"], "all finite groups and subgroup ids, all induced representations, all homogeneous spaces and irreps, all group elements, in any order of requests",
  "tests cover a handful of groups and compare characters",
  [GR + "group.py", GR + "representation.py", GR + "homspace.py"],
  [("build_regular/quotient/induced_representation", GR + "representation.py"), ("HomSpace", GR + "homspace.py")],
  "runtime monitor: permutation / Mackey / equivariance oracles on the constructed objects against coset bookkeeping done by the harness",
  "exploration over groups, ids and elements")
p("C07", "Tensor products decompose exactly; Clebsch-Gordan coefficients intertwine",
  "The tensor product of two representations has the Kronecker product of their matrices for every element, and Clebsch-Gordan coefficients are "
  "orthogonal intertwiners between the product of two irreps and the irreps it contains, with the multiplicities that characters dictate. "
  "No valid pair is decomposed incompletely, and asking again or in another order gives the same coefficients.",
  ["inputs", "configurations", "histories"], "all groups, pairs (and chains) of representations, elements",
  "tests sample small irreps",
  [GR + "group.py", GR + "_clebsh_gordan.py", GR + "representation.py", GR + "groups/", GR + "directproduct.py"],
  [("Group._clebsh_gordan_coeff / _tensor_product_irreps", GR + "groups/"), ("numerical solver", GR + "_clebsh_gordan.py")],
  "runtime monitor: intertwining, orthogonality and character-count oracles over the coefficients the running code returns",
  "exploration over irrep pairs and elements")
p("C08", "Direct sums, basis changes and disentangling preserve the representation",
  "Direct sum, change of basis and disentangling return representations whose matrices are the stated function of their arguments' matrices; the spaces of homomorphisms "
  "and endomorphisms consist of intertwiners and have the dimension the irrep multiplicities dictate. Comparing any two representations answers without error, those that compare equal agree as maps and hash equal, "
  "the declared support for basis-dependent nonlinearities is never wider than the basis allows, and none of these operations modifies its arguments.",
  ["inputs", "configurations"], "all groups, representations and elements",
  "unbounded compositions of constructors",
  [GR + "representation.py"],
  [("directsum, change_basis, disentangle, homomorphism_space", GR + "representation.py")],
  "runtime monitor: algebraic oracles on random constructor programs with snapshots of the arguments",
  "exploration over generated programs")
p("C09", "Results do not depend on the history of earlier requests or on caches",
  "What a group, representation, kernel basis or module computes does not depend on what was requested before, in which order, in which process, or on the state of the in-memory and on-disk caches: cold, "
  "warm, shared by concurrent processes, damaged or unwritable. Objects handed out earlier are not changed by later requests, requests that differ are never answered with each other's results because the objects involved share a name (documented name-keyed spectral representations excepted), and serving a request from a warm or a cold cache leaves the caller's random stream the same. Refusals documented to depend on the irreps built so far are excepted.",
  ["histories", "schedules", "fault_sequences"], "all request sequences, process interleavings on the disk cache, and damaged cache contents",
  "each test runs one history in one process; interleavings and damaged files are not exercised",
  [GR + "_numerical.py", GR + "_clebsh_gordan.py", GR + "irrep.py", GR + "group.py", GR + "groups/_numerical_thomson.py", "escnn/gspaces/gspace.py", "escnn/nn/modules/basismanager/", "escnn/nn/init.py"],
  [("memoised constructors", GR + "group.py"), ("disk caches", GR + "_clebsh_gordan.py, irrep.py, groups/octa.py, groups/ico.py, groups/_numerical_thomson.py"), ("sampled-filter memo", "escnn/nn/modules/basismanager/"), ("kernel-basis memo", "escnn/gspaces/gspace.py")],
  "runtime monitor: event log of results under permuted request histories, cache states, concurrent processes and injected cache damage, compared offline with a fresh-process reference",
  "exploration over request orders, cache states, interleavings and damage")
K = "escnn/kernels/"
p("C10", "Every sampled kernel basis element satisfies the steerability constraint",
  "Each element of every kernel basis built for a group action satisfies k(g.x) = rho_out(g) k(x) rho_in(g)^-1 for all group elements g and "
  "all points x including the origin, in the returned channel order, and stays so after any band-limiting filter; gradients with respect to the points agree with the function.",
  ["inputs", "configurations"], "all gspaces on the plane and in space, representation pairs, points, radial profiles",
  "tests check some representation pairs at some points",
  [K, "escnn/gspaces/r2.py", "escnn/gspaces/r3.py"],
  [("Wigner-Eckart solvers", K + "wignereckart_solver.py"), ("steerable filter bases", K + "steerable_filters_basis.py"), ("kernel factories", K + "r2.py, r3.py")],
  "runtime monitor: constraint residual of the basis functions sampled at random, edge and transformed points",
  "exploration over spaces, representations, points and profiles")
p("C11", "Kernel bases are complete, independent and correctly described",
  "Within its band limit and radial profile, a kernel basis is linearly independent and spans all equivariant kernels, so its size matches what characters predict at generic points. "
  "Its declared dimension, shapes and per-element attributes describe the sampled elements in the same order, filtering removes exactly the elements whose attributes fail the predicate, and bases compare equal only if they sample equal.",
  ["inputs", "configurations"], "all gspaces, representation pairs, band limits, filters",
  "tests do not count dimensions independently",
  [K], [("SteerableKernelBasis", K + "steerable_basis.py"), ("Basis attributes and filtering", K + "basis.py")],
  "runtime monitor: rank of sampled bases against an independent null-space / character count; attribute oracles",
  "exploration over spaces and representations within small band limits")
p("C12", "G-spaces act on points and restrict consistently with their symmetry group",
  "The action of a G-space's symmetry group on its base points is the documented isometry group about the documented axis. Restricting a space, a field type or an "
  "element along any chain of subgroups gives the space whose action and fibre group are the composition of the inclusions, and its subgroup id, inclusion maps and fibre subgroup refer to the same subgroup.",
  ["inputs", "configurations", "histories"], "all factories and parameters, chains of subgroup ids, elements and points",
  "tests restrict a few spaces once",
  ["escnn/gspaces/"], [("factories and restrict", "escnn/gspaces/"), ("_combine_subgroups", GR + "groups/")],
  "runtime monitor: action / composition oracles on recorded chains of restrictions against a matrix model",
  "exploration over factories, chains and elements")
N = "escnn/nn/"
p("C13", "Field types and geometric tensors keep data, layout and symmetry in step",
  "A field type's size, slices, offsets and transformation law agree with its list of representations, and transforming a geometric tensor applies the group to fibres and to the grid or coordinates "
  "as a group action that composes. Slicing, splitting, concatenating, direct sums, arithmetic and device or dtype moves keep values, coordinates and type consistent, refuse mismatched operands, and never alter "
  "the operands.",
  ["inputs", "programs", "configurations"], "all field types, index expressions, operation sequences, elements",
  "index expressions and operation sequences are unbounded",
  [N + "field_type.py", N + "geometric_tensor.py"], [("FieldType", N + "field_type.py"), ("GeometricTensor", N + "geometric_tensor.py")],
  "runtime monitor: reference tensor model run in lock step with random programs of GeometricTensor operations",
  "exploration over operation programs")
p("C14", "Grid convolutions commute with the group for all weights",
  "Planar and spatial convolutions and transposed convolutions commute with every grid-preserving element of their group, for all weights, field types, strides, dilations, paddings, groups, "
  "biases and initialisations, and equal a plain convolution with the kernel they expand. Their filters depend linearly on the weights and every weight matters.",
  ["inputs", "configurations", "histories"], "all types, hyper-parameters, weights, inputs and grid symmetries",
  "tests check one random weight for a few configurations",
  [N + "modules/conv/"], [("R2Conv, R3Conv, transposed", N + "modules/conv/"), ("basis expansion", N + "modules/basismanager/")],
  "runtime monitor: equivariance and reference-convolution oracles on the modules' inputs and outputs under random configurations, weights and transformed inputs",
  "exploration over configurations, weights and inputs")
p("C15", "Point-cloud convolutions are equivariant for every group element and graph",
  "Point convolutions commute with every group element acting on features and coordinates, are invariant to translations, to the order of nodes and edges and to passing displacements instead of coordinates, and equal the mean over incoming edges of the "
  "kernel at the displacement applied to the source feature.",
  ["inputs", "configurations"], "all groups including continuous ones, all graphs with at least one edge (self loops, repeated edges, isolated nodes), types, weights",
  "tests use one random graph",
  [N + "modules/pointconv/"], [("R2PointConv/R3PointConv", N + "modules/pointconv/")],
  "runtime monitor: equivariance and reference message-passing oracles on random and hostile graphs",
  "exploration over graphs, groups and types")
p("C16", "Linear maps, tensor products and nonlinearities commute with the fibre group",
  "Linear layers, tensor-product layers and every pointwise, norm, gated, induced and vector-field nonlinearity commute with all elements of the fibre group on all inputs and "
  "compute the documented function, leaving their input untouched unless asked to work in place. They refuse field types whose representations do not support them.",
  ["inputs", "configurations"], "all groups, field types with mixed and permuted fields, options, inputs (zero, tiny, huge)",
  "tests use a few types with random normal input",
  [N + "modules/nonlinearities/", N + "modules/linear.py"], [("nonlinearities", N + "modules/nonlinearities/"), ("Linear", N + "modules/linear.py")],
  "runtime monitor: equivariance, reference-function and input-snapshot oracles around the modules' forward calls",
  "exploration over groups, types and inputs")
p("C17", "Fourier nonlinearities sample, apply and project correctly",
  "Fourier and quotient-Fourier nonlinearities equal: evaluate the band-limited function on the sampling grid, apply the function, project back by least squares; the identity function leaves the input unchanged. They commute with every element that permutes "
  "the grid, and up to the grid's aliasing error with the others.",
  ["inputs", "configurations"], "all groups, band limits, grids, functions, inputs",
  "tests use loose tolerances on a few groups",
  [N + "modules/nonlinearities/fourier.py", N + "modules/nonlinearities/fourier_quotient.py"],
  [("Fourier transforms", N + "modules/nonlinearities/fourier*.py")],
  "runtime monitor: reference transform computed by the harness from irreps and grid; equivariance under grid symmetries",
  "exploration over groups, grids and inputs")
p("C18", "Pooling, upsampling, masking and invariant maps preserve equivariance",
  "Pooling, upsampling and masking of fields with orthogonal representations commute with every grid symmetry compatible with their stride and equal the documented per-field computation for all kernel sizes, strides and paddings (norm max pooling: where the largest norm in the window is unique). Invariant maps return outputs that no fibre transformation changes.",
  ["inputs", "configurations"], "all modules, shapes, hyper-parameters, types, inputs incl. ties and negative values",
  "tests fix kernel sizes and shapes",
  [N + "modules/pooling/", N + "modules/invariantmaps/", N + "modules/masking_module.py", N + "modules/rdupsampling.py"],
  [("pooling", N + "modules/pooling/"), ("invariant maps", N + "modules/invariantmaps/")],
  "runtime monitor: equivariance and per-field reference oracles around forward calls",
  "exploration over configurations and inputs")
p("C19", "Normalisation and dropout are equivariant with exact statistics",
  "Batch and field normalisation commute with the group in training and evaluation mode, normalise each field by the documented statistics, and their running statistics are the documented function of the batches seen and "
  "never move in evaluation mode (batches with more than one value per channel, orthogonal representations; the norm batch normalisations divide by the running variance in both modes). Dropout drops whole fields (per sample or per position) or documented channels with the given probability, rescales the rest and is the identity in evaluation mode.",
  ["inputs", "histories", "configurations"], "all types, batch sequences, momenta, options, modes",
  "statistics depend on the whole history of batches",
  [N + "modules/batchnormalization/", N + "modules/normalization/", N + "modules/dropout/"],
  [("batch norms", N + "modules/batchnormalization/"), ("dropout", N + "modules/dropout/")],
  "runtime monitor: shadow statistics updated in lock step with every forward call; equivariance oracles",
  "exploration over batch histories and types")
p("C20", "Training, evaluation, saving and loading histories never change the function",
  "Any sequence of training steps, mode switches, state saving and loading, copying and dtype changes leaves a module computing the function its current parameters define: evaluation mode equals training mode for deterministic modules, a module that loaded the state another one saved in the same mode equals it, "
  "and no two modules share or disturb each other's state. The same module built in another process has the same parameters and buffers in the same order, the same initial values under the same seed, and computes the same function of its parameters.",
  ["histories", "fault_sequences"], "all sequences of mode switches, optimizer steps, state_dict saves and loads, deepcopies, dtype moves, processes",
  "tests run one short sequence",
  [N + "modules/conv/", N + "modules/linear.py", N + "modules/equivariant_module.py", N + "modules/basismanager/"],
  [("filter caching on train/eval", N + "modules/conv/rd_convolution.py"), ("basis managers", N + "modules/basismanager/")],
  "runtime monitor: lock-step reference (function rebuilt from current parameters) over random lifecycle event sequences",
  "exploration over event sequences")
p("C21", "Exported modules compute the same function as the equivariant ones",
  "For every module that can be exported, the exported plain PyTorch module gives, in evaluation mode, the same output as the original for every input, exporting changes neither the original's outputs nor its later training, and the two share no state (documented refusals to export excepted).",
  ["inputs", "configurations", "histories"], "all exportable modules, hyper-parameters, inputs, histories before and after export",
  "tests export default configurations",
  [N + "modules/"], [("export methods", N + "modules/*.export")],
  "runtime monitor: differential execution of original and exported module",
  "exploration over modules, options and inputs")
p("C22", "Predicted output shapes always match the produced tensors",
  "For every module and every input shape the module accepts, the shape it predicts equals the shape of the tensor it returns, and the returned tensor carries the module's declared output type.",
  ["inputs", "configurations"], "all modules, hyper-parameters, input shapes",
  "tests check few shapes",
  [N + "modules/"], [("evaluate_output_shape", N + "modules/*")],
  "runtime monitor: hook on every forward call comparing predicted and actual shape and type",
  "exploration over modules, options and shapes")
p("C23", "Composite modules and whole networks stay equivariant, with correct gradients",
  "Sequences, branches, merges, reshuffles, restrictions and basis disentangling apply exactly the modules they are made of to exactly the fields they are declared for, and a network composed of equivariant modules commutes with the group in both modes, before and after training. "
  "Gradients transform accordingly: equivalent inputs give equal parameter gradients.",
  ["programs", "inputs", "histories"], "all compositions of modules, inputs, elements and training histories",
  "compositions are unbounded; tests fix a few",
  [N + "modules/"], [("structural modules", N + "modules/")],
  "runtime monitor: equivariance of outputs and gradients over random network programs, with forward hooks on every submodule",
  "exploration over generated networks")


p("C24", "Weight initialisation preserves feature scale and draws every weight",
  "A freshly built layer with weights starts from random weights drawn for every parameter, independently, reproducibly from the random state, and with the variances that keep the power of the features: the generalised He initialisation gives an output whose power on white noise "
  "is the promised one whatever the representations, multiplicities and kernel geometry, and the delta-orthonormal initialisation gives a norm-preserving filter. Initialising twice, in another order or with cached variances gives the same distribution.",
  ["inputs", "configurations", "histories"], "all layers with weights, field types, kernel geometries, random states and histories of earlier initialisations",
  "a test fixes a few layers; the guarantee is about a distribution over draws for every layer",
  [N + "init.py"], [("generalized_he_init", N + "init.py"), ("deltaorthonormal_init", N + "init.py"), ("layer constructors", N + "modules/conv/, " + N + "modules/linear.py")],
  "runtime monitor: statistics over repeated draws of the initialisers on random layers, against variances computed from the expanded filters",
  "exploration over generated layers, statistical with wide margins and fixed seeds")

p("C25", "Equivariance self-checks accept equivariant modules and reject others",
  "The check_equivariance methods of modules and the testing elements of groups can be trusted: a module that is equivariant passes its own check, a module whose forward pass breaks equivariance fails it (for any element of the group that is sampled), and the elements offered for testing "
  "belong to the group and are not confined to a proper subgroup of it.",
  ["inputs", "configurations"], "all modules, groups and ways of breaking equivariance",
  "a self-check that accepts everything makes every test that uses it pass",
  [N + "modules/", "escnn/group/group.py", "escnn/gspaces/"], [("check_equivariance", N + "modules/equivariant_module.py"), ("testing_elements", "escnn/group/group.py, escnn/gspaces/gspace.py")],
  "runtime monitor: the self-checks are run on modules as built and on the same modules with a corrupted forward pass; offline closure of the collected testing elements",
  "exploration over generated modules and corruptions")


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for q in P:
            assert len(q["title"]) <= 80, (q["id"], len(q["title"]))
            d = {"id": q["id"], "title": q["title"], "statement": q["statement"],
                 "quantifier": {"over": q["over"], "text": q["text"]}, "why_tests_cant": q["why"],
                 "anchors": {"files": q["files"], "mechanism": [{"name": a, "where": b} for a, b in q["mech"]]}}
            f.write(json.dumps(d) + "\n")
    checks, na = [], []
    for q in P:
        if os.path.exists(os.path.join(V, "harness", "checks", q["id"].lower() + ".py")):
            cmd = f"/opt/venv/bin/python harness/run.py {q['id']} --tier "
            checks.append({"property": q["id"], "quick_cmd": cmd + "quick", "thorough_cmd": cmd + "thorough",
                           "technique": q["tech"], "level": "exploration", "level_note": q["note"],
                           "evidence_file": f"evidence/{q['id']}.json"})
        else:
            na.append({"property": q["id"], "reason": "check under construction"})
    json.dump({"version": 1, "setup_cmd": "/opt/venv/bin/python harness/selftest.py", "checks": checks, "not_applicable": na},
              open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)


main()

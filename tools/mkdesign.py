#!/usr/bin/env python3
"""Writes DESIGN.md from the hand-written parts (tools/design-*.md, ORACLE below), the bounds stated
in the harnesses, the last evidence files and the descriptions of planted bugs."""
import glob, json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

ORACLE = {
'C01': "The pairing is compared with the one given by the rank formula: the number of pairs (i,j) is computed from ranks of lower-left submatrices of the boundary matrix over the two-element field, by elimination written in the harness and independent of the reduction in the repository. The order of simplices is the one that sorting symbolic weights produces, so every feasible order is a path.",
'C02': "All algorithms, representations and dualised variants are run on the same symbolic complex and must give the pairing of the rank formula. Column arithmetic is compared with the symmetric difference of sets with symbolic membership or symbolic indices.",
'C03': "Columns are compared with the positions of the faces in the sorted complex; dual entries and dimensions with the index formula; text is produced by the harness with symbolic layout and must be read as the same matrix.",
'C04': "The simplex is compared with the sorted set of its symbolic vertices: membership, boundary (each face omits exactly one vertex), equality, order (irreflexive, transitive, total on sets), hash.",
'C05': "A list of simplices in the harness is the model: after every operation the complex must contain the same simplices in the same order, lookups by value, index and dimension must agree, and removal must remove the same closure.",
'C06': "Closure is computed in the harness on bit sets of vertices; weights by maximum or minimum over symbolic vertex or edge weights; sorted complexes are checked for faces before cofaces by the solver.",
'C07': "Irreflexivity, asymmetry, transitivity, transitivity of incomparability, compatibility with values and with faces are asserted for symbolic values; degrees are counted in the harness.",
'C08': "Points are derived from the rank-formula pairing and symbolic weights: every pair gives one point in the dimension of its creator, unpaired creators give unpaired points, in the documented dimensions.",
'C09': "Components are merged by the elder rule in the harness (breadth-first search on thresholds, no union-find) and compared with both the component algorithm and the diagram of the matrix reduction in dimension zero.",
'C10': "The partition is the reachability relation, computed by transitive closure in the harness.",
'C11': "Cliques are found by testing all subsets of vertices with a mask; weights are maxima and minima of symbolic weights over subsets.",
'C12': "A subset is expected exactly if all pairwise distances (symbolic, linear or squared) are at most the radius; its weight is the largest of them.",
'C13': "The total cost of the returned assignment is compared with the minimum over all permutations; the assignment must be a permutation that chooses zeros of the reduced matrix.",
'C14': "Minimum over all partial matchings written out as a formula over symbolic coordinates. For the bottleneck distance of two against two points only bounds are asserted because of the recorded finding.",
'C15': "Formulas of the distances over symbolic coordinates; the solver decides the equations and the triangle inequality.",
'C16': "A list of symbolic points is the model; summary values are sums, powers and maxima over that list.",
'C17': "Function values of the operands are evaluated at, between and outside of all breakpoints by the harness and combined there; integrals are sums of length times value.",
'C18': "Points alive are counted at midpoints between all coordinates.",
'C19': "Linear interpolation is written out in the harness; integrals are computed per segment with an explicit zero crossing.",
'C20': "A full square array of symbolic values is the model for symmetric, dense and sparse matrices.",
'C21': "Definitions over symbolic values; order statistics are checked by counting smaller and larger values, so no sorting is involved.",
'C22': "Cliques by testing all subsets; clique graphs by testing all pairs of simplices for a common face.",
'C23': "Distances are minima over all simple paths, written out; Dowker complexes by testing all subsets for a common witness.",
'C24': "Visited selections are collected and compared with the complete set of selections produced by recursion in the harness; counts with symbolic sizes are compared with exact 64-bit values.",
'C25': "Neighbourhoods, boundaries, links and orders of vertices are derived from the list of faces.",
'C26': "Cones, suspensions, quotients, subdivisions, skeletons, filters and spines are built from their definition on sets of bit masks; for spines, homology by ranks is preserved and no further collapse exists.",
'C27': "Admissible simplices and intersection homology are computed from the definition with ranks of boundary maps restricted to allowable chains.",
'C28': "Alternating sums over all dimensions, also of infinite minus finite points of symbolic diagrams.",
'C29': "Covering, separation, nesting and levels are asserted directly for symbolic positions; every point must be found once.",
'C30': "Witness conditions, lunes and smallest enclosing balls are evaluated by their definition for every subset; landmarks must maximise the minimum distance to earlier ones.",
'C31': "A list of symbolic coordinates is the model; texts are produced with symbolic layout.",
'C32': "Expected tokens and numbers are computed by a separate scanner over the symbolic characters.",
'C33': "Texts are produced from a symbolic graph with symbolic layout; the complex read must be that graph. Numbers in the text are indices into a table of symbolic values, so weights remain symbolic across the parser.",
'C34': "Double sums over points with polynomial weights and kernels over symbolic coordinates; exponentials are evaluated for all values of small grids and compared up to 1e-9.",
'C35': "Parents in the hierarchy are derived from connected components of sublevel sets at every threshold.",
'C36': "Direct sums over all pairs; logarithms and exponentials on small grids.",
'C37': "Incidences are counted on bit masks; weighted curvature by the definition of Forman.",
'C38': "Minimum over all partial matchings; means in the cases in which the answer is known in closed form.",
'C39': "Texts with symbolic layout and symbolic values (see C33); expected simplices from the grid neighbourhood or the matrix entries.",
'C40': "Matrices are compared entry by entry with symbolic weights; pseudo-inverse by the four Moore-Penrose conditions, heat kernel by a matrix exponential computed with a power series. Eigen's solvers iterate on floating-point values, so harnesses that call them explore all values of a small grid path by path.",
'C41': "The points written are the points expected; raw and JSON texts with coordinates from the table of symbolic values.",
'C42': "A point is expected as a neighbour exactly if its symbolic distance is below the radius or among the k smallest, decided by counting closer points.",
'C43': "GraphML texts are produced from a symbolic graph (tags are concrete, weights come from the table of symbolic values); drawings are parsed by the harness and compared with the complex.",
'C44': "Formulas over symbolic values; samples are checked against the equation of the surface for four seeds of the random device.",
'C45': "The interpreter is embedded and the real module is imported; arrays are created over symbolic memory with different strides, and the functions are called through Python. Diagrams are compared with the bars of the rank formula, trees by the cut property, pairs of edges with the bars in dimension one.",
'C46': "Objects are created and inspected through Python; floating-point numbers stay symbolic while they pass through the interpreter (harness/python.h), integers are explored value by value. Expectations are sets and sums over the inputs.",
'C47': "The tools run as functions on text files and their output is read back as text; numbers in both stay symbolic where no roots, powers or quotients are needed. Distances of diagrams with up to two points are minima over all matchings, areas are sums over unit intervals, statistics are sums over the points.",
'C48': "The tools run as functions on text files. The number of points of a reported diagram that are born up to a and die after b must equal, for symbolic a and b, the number of components of the sublevel graph at b that contain a vertex of the sublevel graph at a (reachability over symbolic edges); for higher dimensions and degree filtrations, where values are structural, the same number comes from ranks modulo two.",
'C49': "The tools run as functions on text files. Distances and degrees are recomputed from the points; communities from all subsets of the vertices and a fixed point over shared faces; entropies from their definitions; diagrams of descriptors from the components of sublevel sets of a separately computed descriptor. The JSON output is parsed.",
'C50': "The tools run as functions on text files. Hierarchies of functions are compared with a separate definition on paths (shared with C35); Betti numbers with ranks of boundary operators; diagrams of ordinary and intersection homology with ranks of the columns of allowable simplices. The list of perversities is generated separately; their Betti numbers are compared with the library function that C27 checks, because the tool combines a subdivision with the skeletons of the original complex.",
'C51': "The tool runs as a function on text files with matrices of symbolic weights. Cliques are enumerated as subsets, weights are maxima or minima of edges, and the pairs come from ranks of boundary submatrices.",
}


def main():
    head = open(os.path.join(ROOT, 'tools', 'design-head.md')).read()
    tail = open(os.path.join(ROOT, 'tools', 'design-tail.md')).read()
    out = [head]
    out.append('## Properties\n')
    out.append('Costs are those of the last quick run on eight cores (wall time includes compilation). "Symbolic" is the number of\nassertions that needed the solver, "folded" the number that became constant after the branches of the path were decided.\n')
    for l in open(os.path.join(ROOT, 'properties.jsonl')):
        p = json.loads(l)
        i = p['id']
        out.append('### %s %s\n' % (i, p['title']))
        out.append('Oracle: ' + ORACLE.get(i, 'see the harness') + '\n')
        f = os.path.join(ROOT, 'harness', i + '.cpp')
        if not os.path.exists(f):
            out.append('Not applicable: see MANIFEST.json.\n')
            continue
        text = open(f).read()
        q, t = [], []
        for n, b in re.findall(r'^//@ (\w+): (.*)$', text, re.M):
            (t if n.startswith('t_') else q).append('`%s`: %s' % (n, b))
        out.append('Bounds (quick): ' + '; '.join(q) + '.\n')
        if t:
            out.append('Bounds (added by thorough): ' + '; '.join(t) + '.\n')
        e = os.path.join(ROOT, 'evidence', i + '.json')
        if os.path.exists(e):
            v = json.load(open(e)); c = v['coverage']
            out.append('Cost: %.0f s, %d paths, %d solver queries, %.0f s solver time; assertions: %d symbolic, %d folded.\n' % (
                v['wall_s'], c['paths_completed'], c['solver_queries'], c['solver_seconds'], c['assertions_decided_by_solver'], c['assertions_decided_by_simplification']))
        out.append('Beyond tests: ' + p['why_tests_cant'] + '\n')
    out.append(tail)
    caught = json.load(open(os.path.join(ROOT, 'tools', 'caught.json')))
    out.append('## Planted bugs\n')
    out.append('| id | property | what it breaks | needs | caught by |\n|---|---|---|---|---|')
    for d in sorted(glob.glob(os.path.join(ROOT, 'seeded', '*', 'meta.json'))):
        m = json.load(open(d)); s = os.path.basename(os.path.dirname(d))
        out.append('| %s | %s | %s | %s | %s |' % (s, m['property'], m['what_it_breaks'], m['needs'], caught.get(s, 'not yet run')))
    out.append('')
    k = open(os.path.join(ROOT, 'known-findings.txt')).read().splitlines()
    fixed = [re.match(r'fixed: property=(\S+) (\S+) (.*)', x).groups() for x in k if x.startswith('fixed:')]
    out.append('## Defects found in the repository\n')
    out.append('Left as they are, recorded in `known-findings.txt`: ' + ' '.join('%s: %s' % re.match(r'KNOWN-FINDING: property=(\S+) harness=\S+ message="[^"]*" (.*)', x).groups() for x in k if x.startswith('KNOWN')) + '\n')
    out.append('Repaired by `fix:` commits, each found by a counterexample that was replayed natively (%d):\n' % len(fixed))
    out += ['- %s %s: %s' % f for f in fixed]
    open(os.path.join(ROOT, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')


main()

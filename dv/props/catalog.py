"""Which contracts, lemmas and drivers decide which property."""
import importlib
MODULES = ['pcubuf', 'bio', 'metric', 'tag', 'access', 'residence', 'collpat', 'collstep', 'collwrap', 'construct', 'plan', 'diff', 'wmig', 'queue', 'adj', 'split', 'sel', 'part']


def _all():
    specs, files, ghosts, inline, lemmas = [], {}, {}, set(), {}
    for m in MODULES:
        mod = importlib.import_module('props.' + m)
        ss = mod.specs()
        specs += ss
        files[m] = getattr(mod, 'FILES', None) or sorted({s.file for s in ss})
        ghosts.update(getattr(mod, 'GHOSTS', {}))
        inline |= set(getattr(mod, 'INLINE', ()))
        for L in getattr(mod, 'LEMMAS', lambda: [])():
            lemmas[L.name] = L
        for s in ss:
            s.module = m
            s.uses = tuple(getattr(mod, 'USES', ())) + (m,)
    return specs, files, ghosts, inline, lemmas


def get(pid):
    specs, files, ghosts, inline, lemmas = _all()
    p = dict(PROPS[pid])
    p['id'] = pid
    p['specs'] = specs
    names = {s.name for s in specs}
    roots = []
    for r in p['roots']:
        if isinstance(r, str):
            if r.startswith('module:'):
                roots += [s.name for s in specs if s.module == r[7:] and not s.assumed]
            else:
                assert r in names, r
                roots.append(r)
    p['roots'] = roots
    fs = []
    for m in p['modules']:
        for f in files[m]:
            if f not in fs:
                fs.append(f)
    p['files'] = fs
    p['ghosts'], p['inline'] = ghosts, inline
    p['lemmas'] = {n: lemmas[n] for n in lemmas if any(n.startswith(x) for x in p.get('lemmas', ()))}
    p.setdefault('drivers', [])
    p.setdefault('bounded', '')
    return p


ALLR = (1, 2, 3, 4)
PROPS = {
    'C02': dict(title='Weights and coordinates stay attached to their own element',
                modules=['access'], roots=['Ngraph::weight(vertex)', 'Ngraph::weight(edge)', 'Ngraph::setWeights', 'Ngraph::setCoords', 'Ngraph::coord', 'Ngraph::hasCoords',
                                           'Ngraph::setEdgeWeights(w)', 'Ngraph::setEdgeWeights(v)'], lemmas=('DIV-UNIQUE',), level='proof',
                drivers=[('d_graph', ALLR, (4, 150, ()), (60, 4000, ())), ('d_set', (1, 2, 4), (4, 100, ()), (60, 4000, ()))],
                bounded='weights given at construction and ghost weights on random graphs, and random setter histories, compared with a reference model (d_graph, d_set)',
                note='Queries and bulk setters are proved for every graph satisfying the CSR invariant. Placement of weights during construction and the ghost-weight exchange are covered by the bounded driver only.'),
    'C03': dict(title='Traversals visit every element exactly once and handles round-trip',
                modules=['access'], roots=['module:access'], lemmas=('DIV-UNIQUE',), level='proof',
                drivers=[('d_graph', ALLR, (6, 150, ()), (60, 4000, ()))],
                bounded='traversal of random graphs compared with a reference model (driver d_graph)',
                note='All access, handle and iterator functions under contract, all obligations discharged for every graph satisfying the CSR invariant; that the invariant is established by construction is C01. Assumes the container/libc models and mathematical integers.'),
    'C04': dict(title='Edge endpoints, degrees and sources are consistent with the edge lists',
                modules=['access'], roots=['Ngraph::degree(vertex)', 'Ngraph::degree(edge)', 'Ngraph::u(lid)', 'Ngraph::u(edge)', 'Ngraph::v(edge)', 'Ngraph::pins', 'Ngraph::edges'],
                lemmas=('DIV-UNIQUE',), level='proof',
                drivers=[('d_graph', ALLR, (5, 150, ()), (60, 4000, ()))],
                bounded='all endpoints of random graphs compared with a reference model (d_graph)',
                note='Endpoint, degree and source queries are proved for every graph satisfying the CSR invariant, including the binary search with vertices of degree zero anywhere (its termination is not proved).'),
    'C05': dict(title='Residence and cut queries name exactly the parts that own a pin',
                modules=['residence', 'access'], roots=['Ngraph::getResidence', 'Ngraph::isResidentOn', 'Ngraph::isCut', 'Ngraph::owner'], lemmas=('DIV-UNIQUE',), level='proof',
                drivers=[('d_graph', ALLR, (5, 150, ()), (60, 4000, ()))],
                bounded='residence of every edge of random graphs against the set of owners of its pins (d_graph)',
                note='The three queries are proved against the owner function for every edge of every graph satisfying the CSR invariant; parts are assumed non-negative for the cut query.'),
    'C17': dict(title='Collective operations compute the reduction over all ranks',
                modules=['collpat', 'collstep', 'collwrap'], roots=['module:collpat', 'module:collstep', 'module:collwrap'], lemmas=('COLL',), level='proof',
                drivers=[('d_coll', (1, 2, 3, 4, 5, 6, 7, 8), (3, 300, ()), (30, 20000, ()))],
                bounded='every collective on random data for 1 to 8 ranks against MPI (d_coll)',
                note='Patterns (bit-precise, any rank count up to 2^30), step protocol, merge functions, drivers of the patterns and public wrappers are all under contract; the pattern lemmas give matching partners and coverage. That matched sends and receives compose across ranks into the reduction (induction over the steps of all ranks, MPI delivering matched messages) is argued in DESIGN.md, not machine checked.'),
    'C01': dict(title='Construction represents the input graph exactly', modules=['construct', 'access', 'tag'], lemmas=('DIV-UNIQUE',), level='other',
                roots=['Ngraph::Ngraph', 'Ngraph::destroyData', 'Ngraph::constructVerts(v)', 'Ngraph::constructVerts(a)'],
                drivers=[('d_graph', ALLR, (16, 600, ()), (90, 6000, ()))],
                bounded='construction of random graphs through both interfaces compared with a reference model (d_graph)',
                note='Setting up an empty graph, releasing an old one and both forms of constructVerts (numbering, global ids, weights, the identifier map) are proved for all inputs; constructEdges, constructGhosts and the global counts are decided by the bounded driver.'),
    'C06': dict(title='Migration moves vertices without changing the global graph', modules=['part', 'access', 'plan', 'tag'], lemmas=('DIV-UNIQUE',), level='other',
                roots=['Ngraph::repartition', 'Ngraph::updateGhostOwners', 'Ngraph::getPartition'],
                drivers=[('d_migrate', ALLR, (18, 600, ()), (120, 6000, ()))],
                bounded='sequences of migrations of random graphs compared with the original graph (d_migrate)', note='Proved per rank for every graph, plan and set of messages: repartition plans every vertex for the part it is given, once, and hands that plan to migrate; the ghost-owner exchange asks every owner once, answers exactly the requests for vertices that move, with their destination, and updates exactly the ghosts answered for; the partition map names, for every vertex reported, the part that reports it. The contract of migrate itself is assumed (nothing is concluded from it), and the rebuilding of the graph it carries out is decided by the bounded driver; that messages arrive as sent is assumed (C18).'),
    'C07': dict(title='Migration plans behave as finite maps', modules=['plan'], roots=['module:plan'], level='proof',
                drivers=[('d_plan', (1, 2), (12, 1200, ()), (60, 20000, ()))], bounded='random histories of plan operations compared with std::map (d_plan)',
                note='Every member of both plan classes and of the pair iterator is under contract (destructors excepted) and discharged for every graph and history: a plan is a destination tag and a duplicate-free list that name the same vertices. Containers and their iteration order are modelled; creation of the tag is used through its own proved contract (C09).'),
    'C08': dict(title='Weight migration conserves total weight', modules=['wmig', 'plan', 'access', 'tag'], lemmas=('DIV-UNIQUE',), level='proof',
                roots=['Ngraph::migrate(weight)', 'WMIterator::WMIterator', 'WMIterator::u', 'WMIterator::v', 'WMIterator::weight', 'WMIterator::operator++', 'WMIterator::operator++(int)', 'WMIterator::operator==',
                       'WeightMigration::begin', 'WeightMigration::end', 'WeightMigration::insert', 'Ngraph::setWeights', 'Ngraph::owner', 'Ngraph::globalID(vertex)', 'Ngraph::localID(vertex)', 'Ngraph::findGID'],
                drivers=[('d_wmig', ALLR, (12, 600, ()), (60, 6000, ()))], bounded='random weight plans compared with a reference model (d_wmig)',
                note='Proved per rank for every graph, plan and set of received messages: each planned pair is sent once, to the owner of its target and with its weight, each local vertex ends with its weight minus what it sends plus what is addressed to it, and nothing else is sent. Conservation over all ranks follows if messages are delivered as sent (C18); that step and the absence of rounding are assumed, not machine checked.'),
    'C09': dict(title='Tag data is per element', modules=['tag', 'access'], roots=['module:tag'], lemmas=('DIV-UNIQUE',), level='proof',
                drivers=[('d_tag', ALLR, (12, 600, ()), (60, 6000, ()))], bounded='random tag histories compared with a reference model (d_tag)',
                note='Every tag function is proved: creation gives one entry per element in fresh storage, a write changes exactly the entry of its element, a read returns it, for every graph; the three ghost-tag exchanges are proved per rank for all distributions (one request per ghost to its owner, each request answered with the callback value, each answer stored at its ghost). That the messages received are those the peers sent is assumed (C18), deletion of tags is not under contract.'),
    'C10': dict(title='Saving and loading a graph gives back the same graph', modules=[], roots=[], level='other',
                drivers=[('d_io', ALLR, (12, 450, ()), (60, 5000, ()))], bounded='random graphs saved and loaded (d_io)', note='Decided by the bounded driver only so far; contracts for the functions behind this property are being added.'),
    'C11': dict(title='Second-adjacency tables list exactly the second neighbours', modules=['adj', 'access', 'residence', 'tag'], lemmas=('DIV-UNIQUE',), level='other',
                roots=['Ngraph::adjacent', 'Ngraph::vev_begin', 'Ngraph::vev_end', 'Ngraph::eve_begin', 'Ngraph::eve_end', 'Ngraph::iterate(vev)', 'Ngraph::iterate(eve)'],
                drivers=[('d_adj', ALLR, (12, 600, ()), (60, 6000, ()))], bounded='tables of random graphs compared with a reference model (d_adj)', note='The walk (begin, end, one step, for both tables) is proved for every table with ordered offsets; that the tables hold exactly the neighbours is decided by the bounded driver.'),
    'C12': dict(title='Diffusion decides who sends how much', modules=['diff', 'residence', 'metric', 'tag', 'access'], lemmas=('DIV-UNIQUE',),
                roots=['Container<int>::get', 'Container<int>::total', 'Container<double>::set', 'Container<double>::get', 'Container<double>::has', 'Container<double>::total',
                       'Targets::Targets', 'Weights::Weights', 'Ngraph::getResidence', 'Ngraph::isCut', 'Ngraph::owner'], level='other',
                drivers=[('d_diff', ALLR, (12, 600, ()), (60, 6000, ()))], bounded='sides, weights and targets of random partitions compared with a reference (d_diff)',
                note='The keyed container, the weights exchange (own weight to every neighbour, each received weight stored for its sender) and the targets (exactly the documented fraction of the difference times the share of the boundary, only towards strictly lighter neighbours) are proved for all inputs; the sides are decided by the bounded driver, as are the factory functions.'),
    'C13': dict(title='Balancing selects vertices within targets and preserves the graph', level='other',
                modules=['sel', 'queue', 'diff', 'plan', 'metric', 'residence', 'access', 'tag'], lemmas=('DIV-UNIQUE',),
                roots=['getCavity', 'getWeightCavity', 'WeightSelector::select', 'edgeCutGrowth', 'addCavity'],
                drivers=[('d_balance', ALLR, (18, 450, ()), (120, 5000, ()))], bounded='single selections and whole balancings of random partitions checked against the stated rules (d_balance)', note='Proved for every graph satisfying the CSR invariant: the cavity around an edge consists of own vertices of that edge only, planning a cavity sends exactly its vertices to the chosen part and reports the weight newly planned, and the weight selector sends weight only from own vertices to ghosts of parts with a target and never beyond the target. The vertex selector as a whole and the balancing loop are decided by the bounded driver.'),
    'C14': dict(title='Traversal queues contain every boundary edge once', modules=['queue', 'access', 'residence', 'tag'], level='other',
                roots=['ShrinkingArray::ShrinkingArray', 'ShrinkingArray::size', 'ShrinkingArray::begin', 'ShrinkingArray::end', 'ShrinkingArray::get', 'ShrinkingArray::operator[]', 'ShrinkingArray::addElement', 'ShrinkingArray::startIteration'],
                drivers=[('d_queue', ALLR, (12, 600, ()), (60, 6000, ()))], bounded='queues of random partitions compared with a reference (d_queue)', note='The queue container (adding elements, starting an iteration, access) is proved; the contents and order of the queues are decided by the bounded driver.'),
    'C15': dict(title='Reported metrics are the true metrics of the partition', modules=['metric', 'tag', 'access'], roots=['module:metric'], level='other',
                drivers=[('d_metric', ALLR, (12, 600, ()), (60, 6000, ()))], bounded='metrics of random partitions and random histories compared with a reference (d_metric)', note='Imbalance, the weight getters, the slope fit and the migration timers are proved against their formulas for all histories and graphs; the disconnection figures and the printed report are covered by the bounded driver only.'),
    'C16': dict(title='Splitting and repartitioning put every vertex where the plan says', modules=['split', 'access'], level='other', lemmas=('DIV-UNIQUE',),
                roots=['expandParts', 'Ngraph::changeOwners'],
                drivers=[('d_split', ALLR, (14, 450, ()), (90, 5000, ()))], bounded='splits of random graphs with partitioner stand-ins (d_split)', note='Proved: the renumbering of parts when a graph is split over more ranks (every owner becomes the rank its part lives on), and the change of owners; the split as a whole, the plans of the partitioners and the migration that carries them out (C06 to C10) are decided by the bounded driver here.'),
    'C18': dict(title='Every message sent in a phase is received once', modules=['pcubuf'], roots=['module:pcubuf'], level='other',
                drivers=[('d_comm', (1, 2, 3, 4, 6), (10, 900, ()), (60, 10000, ())), ('d_aa', (1,), (8, 6000, ()), (60, 200000, ()))],
                bounded='random phases of messages, and random tree histories, compared with a reference (d_comm, d_aa)', note='The growing byte buffers under every message are proved; message matching, phases and the tree are decided by the bounded driver so far.'),
    'C19': dict(title='Binary file I/O round-trips values', modules=['bio', 'pcubuf'], roots=['module:bio', 'module:pcubuf'], lemmas=('BIO',), level='proof',
                drivers=[('d_bio', (1,), (12, 6000, ()), (60, 100000, ()))], bounded='random values, strings and arrays written and read (d_bio)', note='All functions of the file layer that are compiled in (compression is not) are proved at the level of bytes, with lemmas giving the round trip; fread, fwrite, malloc, realloc and strlen are modelled, opening files is not covered by the proof.'),
    'C20': dict(title='Loading an edge-list file distributes every edge to its source vertex', modules=[], roots=[], level='other',
                drivers=[('d_bin', ALLR, (14, 450, ()), (60, 5000, ()))], bounded='random edge-list files loaded and compared with the file (d_bin)', note='Decided by the bounded driver only so far; contracts for the functions behind this property are being added.'),
}

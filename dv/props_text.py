"""Source of /verif/properties.jsonl (written by mkmanifest.py)."""
P = []


def p(id, title, statement, over, qtext, tests, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=' '.join(statement.split()), quantifier=dict(over=over, text=' '.join(qtext.split())),
                  why_tests_cant=' '.join(tests.split()), anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                  **({'state': [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {}), **({'observe_at': observe} if observe else {}))))


p('C01', 'Construction represents the input graph exactly',
  '''Whatever vertices, edges of any number of types, pins, weights and owners the ranks pass in (as vectors or as arrays), the built
  graph has exactly those vertices, edges and pins on each rank: every local vertex has the edges it was given, every edge connects exactly the vertices it was given,
  and every vertex that is referenced but not owned is a ghost exactly once with the given owner.
  Local and global identifiers map to each other one-to-one, and the global vertex, edge and pin counts count every entity once however many ranks hold it.''',
  ['inputs', 'configurations'], 'all hypergraphs and traditional graphs, all distributions over ranks, all input orders, 1 to 7 edge types, both construction interfaces',
  'The suites build a handful of fixed ring, tree and mesh-like graphs with 4 vertices per rank; input order, several edge types sharing ghosts and irregular pin lists are not sampled.',
  ['agi/agiConstruct.cpp', 'agi/ngraph.h', 'agi/pngraph.h'],
  [('CSR counting, prefix sum and fill', 'agi/agiConstruct.cpp constructEdges (both overloads)'), ('ghost numbering', 'agi/agiConstruct.cpp constructEdges, constructGhosts'), ('global counts by lowest resident part', 'agi/agiConstruct.cpp constructGhosts')],
  ['numLocalVtxs/numGhostVtxs/numLocalEdges/numLocalPins/numGlobal*', 'begin/iterate/pins/edges/u/v/owner/globalID'])
p('C02', 'Weights and coordinates stay attached to their own element',
  '''A weight or coordinate query on a vertex or edge returns the value that was supplied for that same vertex or edge (1 when no weight was supplied), no matter in which
  order elements were listed or how many edge types there are. The bulk setters replace the value of every element of the named kind and edge type and of no other,
  and in a graph constructed on more than one rank the weight of a ghost vertex is the weight its owner was given.''',
  ['inputs', 'histories'], 'all graphs, input orders, edge types and weight/coordinate assignments, before and after bulk setters',
  'Tests use unit weights or weights given in an order that coincides with the internal numbering, so a value attached to the wrong element is invisible.',
  ['agi/agiConstruct.cpp', 'agi/agiVertex.cpp', 'agi/agiEdge.cpp', 'agi/agiTag.cpp'],
  [('edge weight placement', 'agi/agiConstruct.cpp constructEdges'), ('setters', 'agi/agiVertex.cpp setWeights, setCoords; agi/agiEdge.cpp setEdgeWeights'), ('ghost weight tag', 'agi/agiConstruct.cpp constructGhosts, agi/agiTag.cpp createDoubleGhostTag')],
  ['weight(GraphVertex*)', 'weight(GraphEdge*)', 'coord', 'setWeights', 'setEdgeWeights', 'setCoords'])
p('C03', 'Traversals visit every element exactly once; handles round-trip',
  '''Iterating local vertices, ghost vertices, the edges of a type, the edges of a vertex, the pins of an edge or the neighbours of a vertex yields each such element exactly once
  and then reports the end, and stays inside that vertex, edge and edge type. The handles obtained identify their element: converting a handle to a local or global identifier and back gives the same handle, and handles of different elements or edge types differ.''',
  ['inputs'], 'all graphs, all edge types, all elements, every position of every iterator',
  'Tests traverse small fixed graphs with one or two edge types; encodings that mix local id, type and number of types are only exercised for tiny values.',
  ['agi/agiIterate.cpp', 'agi/agiVertex.cpp', 'agi/agiEdge.cpp', 'agi/agi_typeconvert.cpp', 'agi/Iterators/EdgeIterator.h', 'agi/Iterators/HyperEdgeIterator.h', 'agi/Iterators/PinIterator.h', 'agi/Iterators/GraphIterator.h'],
  [('iterator positions as handles', 'agi/agiIterate.cpp iterate overloads'), ('iterator construction', 'agi/agiIterate.cpp begin; agi/agiVertex.cpp edges, adjacent; agi/agiEdge.cpp pins'), ('handle encoding', 'agi/agiEdge.cpp getEdge, localID; agi/agi_typeconvert.cpp')],
  ['begin', 'beginGhosts', 'edges', 'pins', 'adjacent', 'iterate', 'edge', 'localID', 'globalID', 'findGID', 'find'])
p('C04', 'Edge endpoints, degrees and sources are consistent with the edge lists',
  '''For every edge of a traditional graph the reported source is the vertex whose edge list contains it and the reported destination is the vertex it was built with; for every hyperedge
  the degree equals the number of pins it was built with. The degree of a vertex equals the number of edges of that type listed for it, and a source query is answered correctly for every edge even when vertices without edges precede it.''',
  ['inputs'], 'all edges of all graphs, including vertices of degree zero anywhere in the numbering',
  'Graphs in the suites have no isolated vertices and few edges, so the search that recovers a source from an edge number is barely exercised.',
  ['agi/agiEdge.cpp', 'agi/agiVertex.cpp'],
  [('binary search over CSR offsets', 'agi/agiEdge.cpp u(lid_t,etype)'), ('endpoint decoding', 'agi/agiEdge.cpp u, v, degree, pins'), ('degree', 'agi/agiVertex.cpp degree')],
  ['u', 'v', 'degree(GraphEdge*)', 'degree(GraphVertex*)', 'pins'])
p('C05', 'Residence and cut queries name exactly the parts that own a pin',
  '''The residence of an edge is exactly the set of parts owning at least one of its vertices; an edge is reported resident on a part if and only if that part is in this set, and
  reported cut if and only if the set has more than one member.''',
  ['inputs', 'configurations'], 'all edges, all ownership assignments, all queried parts including ones that do not exist',
  'Tests check two fixed graphs; edges with many pins, repeated owners and owners in any order are not enumerated.',
  ['agi/agiEdge.cpp'], [('residence collection', 'agi/agiEdge.cpp getResidence'), ('early-exit search', 'agi/agiEdge.cpp isResidentOn, isCut')],
  ['getResidence', 'isResidentOn', 'isCut'])
p('C06', 'Migration moves vertices without changing the global graph',
  '''After a migration every vertex of the global graph exists on exactly one rank, namely its destination in the plan (or where it was if not in the plan), with the weight, coordinates and original owner it had, and the
  global set of edges of every type, with their pins and weights, is unchanged; every rank holds exactly the edges its vertices need and knows the new owner of every ghost.
  The reported partition maps every vertex that started on a rank to the rank it is on now, across any number of successive migrations.''',
  ['inputs', 'histories', 'configurations', 'schedules'], 'all graphs, all plans (including empty, everything to one rank, neighbours moving at the same time), sequences of migrations, all rank counts, any message arrival order',
  'Tests migrate a few fixed graphs once or twice with regular plans and compare mostly counts; weights, coordinates and simultaneous moves of both ends of an edge are not compared.',
  ['agi/agiMigrate.cpp', 'agi/agiMigration.h', 'agi/agiVertex.cpp'],
  [('send/receive of vertices, coordinates and edges', 'agi/agiMigrate.cpp sendVertex/recvVertex/sendCoord/recvCoord/sendEdges/recvEdges'), ('edges and ghost owners affected by the plan', 'agi/agiMigrate.cpp updateGhostOwners, migrate'), ('partition map', 'agi/agiMigrate.cpp getPartition')],
  ['migrate', 'repartition', 'getPartition'])
p('C07', 'Migration plans behave as finite maps',
  '''A migration plan contains exactly the local vertices inserted into it, each with the destination inserted last, reports its size accordingly, iterates over each planned vertex once and is empty again after being cleared.
  A weight-migration plan accumulates, for every source vertex and target, the sum of the weights inserted for that pair, and its pair list and totals agree with what was inserted.''',
  ['inputs', 'histories'], 'all sequences of insert, query, iterate and clear operations', 'Tests use plans only through whole migrations and never re-insert, clear and reuse or mix operations.',
  ['agi/agiMigration.cpp', 'agi/agiMigration.h', 'agi/agiWeightMigration.cpp'],
  [('plan storage', 'agi/agiMigration.cpp'), ('weight plan storage', 'agi/agiWeightMigration.cpp')], ['Migration', 'WeightMigration'])
p('C08', 'Weight migration conserves total weight and delivers it to the named vertex',
  '''After a weight migration the total vertex weight over all ranks is unchanged, each sending vertex has lost exactly the weight it was planned to send, and each planned target vertex has gained exactly
  the weight addressed to it and no other vertex has changed.''',
  ['inputs', 'schedules', 'configurations'], 'all graphs, all weight plans, several senders addressing the same vertex, all rank counts', 'Tests only check that the weight balancer runs; delivery to the right vertex is not checked.',
  ['agi/agiWeightMigrate.cpp', 'agi/agiWeightMigration.cpp'], [('send and apply weights', 'agi/agiWeightMigrate.cpp migrate'), ('plan', 'agi/agiWeightMigration.cpp')], ['migrate(WeightMigration*)', 'weight', 'getWeightPartition'])
p('C09', 'Tag data is per element: a read returns the last value written there',
  '''A tag read on a vertex or edge returns the last value written to that element through that tag, writes to one element, tag or edge type never change another, and distinct tags are independent.
  A ghost tag reports, for every ghost vertex, the value its callback gives on the owning rank.''',
  ['inputs', 'histories', 'configurations'], 'all element kinds, value types, edge types and sequences of reads and writes; ghost tags for all distributions', 'Tests write one value per element once on one or two edge types.',
  ['agi/agiTag.cpp', 'agi/agiInfo.h'], [('typed storage', 'agi/agiInfo.h'), ('element indexing', 'agi/agiTag.cpp get/set'), ('ghost exchange', 'agi/agiTag.cpp create*GhostTag')], ['create*Tag', 'set*Tag', 'get*Tag', 'create*GhostTag'])
p('C10', 'Saving and loading a graph gives back the same graph',
  '''A graph written to files and read back by the same number of ranks has the same mode, vertices, edges of every type, pins, ghosts, owners, weights and identifiers on every rank.''',
  ['inputs', 'configurations'], 'all graphs, edge types, global id magnitudes and rank counts', 'The save/load cases need graph files that are not part of the repository, or use tiny ids.',
  ['agi/agiIO.cpp', 'pcu/pcu_io.c'], [('writers', 'agi/agiIO.cpp saveToFile'), ('readers', 'agi/agiIO.cpp loadFromFile'), ('byte order', 'pcu/pcu_io.c')], ['saveToFile', 'loadFromFile'])
p('C11', 'Second-adjacency tables list exactly the second neighbours',
  '''After the vertex-edge-vertex (edge-vertex-edge) table of an edge type is created, walking it from a vertex (edge) yields, in compressed form, every other vertex (edge) of that type reachable over one shared edge (owned vertex)
  exactly once and nothing else, and in uncompressed form one entry per shared connection, and the walk ends.''',
  ['inputs'], 'all graphs, all edge types, compressed and uncompressed', 'Tests build the table for one edge type of a few fixed graphs.',
  ['agi/agiConstruct.cpp', 'agi/agiVertex.cpp', 'agi/agiEdge.cpp', 'agi/agiIterate.cpp'], [('two-pass construction', 'agi/agiConstruct.cpp create_vev_adjacency, create_eve_adjacency'), ('walk', 'agi/agiIterate.cpp iterate(VEVIterator), iterate(EVEIterator); agi/agiVertex.cpp vev_begin/vev_end; agi/agiEdge.cpp eve_begin/eve_end')],
  ['create_vev_adjacency', 'create_eve_adjacency', 'vev_begin', 'vev_end', 'eve_begin', 'eve_end', 'iterate'])
p('C12', 'Diffusion decides who sends how much: sides, weights and targets are exact',
  '''For every part, the computed sides count exactly the entities shared with each neighbouring part, the computed weights are its own and each neighbour's true total for the criterion, and a positive target is planned only from a heavier part to a strictly lighter neighbour, of
  the documented fraction of the difference times the share of the boundary. Neighbour sets are symmetric across parts.''',
  ['inputs', 'configurations'], 'all hypergraphs, and traditional graphs that list every edge in both directions, with whole-number edge weights, all partitions, all criteria (vertices, each edge type), tolerances and step factors', 'Balancing tests only look at the final imbalance of a few graphs and treat any improvement as success.',
  ['partition/Diffusive/src/engpar_sides.h', 'partition/Diffusive/src/engpar_weights.h', 'partition/Diffusive/src/engpar_targets.h', 'partition/Diffusive/src/engpar_make.cpp', 'partition/Diffusive/src/engpar_container.h'],
  [('sides', 'partition/Diffusive/src/engpar_make.cpp, engpar_sides.h'), ('weights exchange', 'partition/Diffusive/src/engpar_weights.h'), ('targets', 'partition/Diffusive/src/engpar_targets.h'), ('keyed container', 'partition/Diffusive/src/engpar_container.h')])
p('C13', 'Balancing selects vertices within targets and preserves the graph',
  '''Running a balancer changes only the distribution: the global vertices, edges, pins and weights are unchanged and the partition map is complete, and in each step a part sends vertices only to neighbouring parts that have a positive target and does not start a
  cavity for a target that is already met. When several criteria are balanced in priority order, a selection never pushes a part over the limit accepted for an earlier criterion (ghosts not being counted).''',
  ['inputs', 'configurations', 'histories'], 'all hypergraphs (for vertex criteria also traditional graphs with both directions), partitions, inputs with the default minimum connectivity, criteria orders and numbers of iterations', 'Tests run a few balancings and look only at the resulting imbalance.',
  ['partition/Diffusive/src/engpar_selector.cpp', 'partition/Diffusive/src/engpar_balancer.cpp', 'partition/Diffusive/src/engpar_sd.cpp', 'partition/Diffusive/src/engpar_weightBalancer.cpp', 'partition/Diffusive/src/engpar_weightSelector.cpp'],
  [('cavity selection', 'partition/Diffusive/src/engpar_selector.cpp'), ('trim and cancel', 'partition/Diffusive/src/engpar_selector.cpp trim, cancel'), ('step loop', 'partition/Diffusive/src/engpar_balancer.cpp, engpar_sd.cpp')])
p('C14', 'Traversal queues contain every boundary edge once, in the promised order',
  '''The iteration queue contains exactly the edges cut by the part boundary, each once; the distance queue contains every cut edge exactly once, edges of one connected component are contiguous, and inside a component edges appear in order of decreasing distance from its centre.''',
  ['inputs'], 'all hypergraphs (iteration queue: all graphs), partitions and numbers of components', 'One test builds queues of two small graphs; its data-driven case needs files that are absent.',
  ['partition/Diffusive/src/engpar_queue.cpp'], [('breadth-first passes', 'partition/Diffusive/src/engpar_queue.cpp bfs_push, bfs_pull, bfs'), ('component order', 'partition/Diffusive/src/engpar_queue.cpp createDistanceQueue')])
p('C15', 'Reported metrics are the true metrics of the partition',
  '''The reported imbalance of a criterion is the largest part total divided by the average part total, the reported cut and disconnection figures are those of the current partition, and the smoothed slope and timing statistics equal their defining formula for the recorded history.''',
  ['inputs', 'histories', 'configurations'], 'all graphs (for the disconnection figures hypergraphs and traditional graphs with both directions), partitions and rank counts; all histories of recorded values', 'Metrics are printed by tests, not compared with anything.',
  ['partition/Metrics/engpar_metrics.cpp', 'partition/Diffusive/src/engpar_sd.cpp', 'agi/agiMigrationTimers.cpp', 'partition/Diffusive/src/engpar_balancer.cpp'],
  [('imbalance and evaluation', 'partition/Metrics/engpar_metrics.cpp'), ('slope fit', 'partition/Diffusive/src/engpar_sd.cpp'), ('timers', 'agi/agiMigrationTimers.cpp')])
p('C16', 'Splitting and repartitioning put every vertex where the plan says',
  '''Splitting a graph onto more parts, expanding parts and repartitioning by a given assignment leave every vertex on exactly the part assigned to it, with owners renamed consistently on every rank, and hand the graph partitioners arrays that describe the graph being split.''',
  ['inputs', 'configurations'], 'all hypergraphs and symmetric traditional graphs with whole-number weights and identifiers the partitioner can hold, assignments and split factors', 'Split tests are skipped without graph data; repartition is tested with one regular pattern.',
  ['partition/Multilevel/engpar_split.cpp', 'partition/Multilevel/engpar_parmetis.cpp', 'partition/Multilevel/engpar_zoltan.cpp', 'agi/agiMigrate.cpp', 'agi/agiVertex.cpp'],
  [('expandParts and owner renaming', 'partition/Multilevel/engpar_split.cpp; agi/agiVertex.cpp changeOwners'), ('partitioner input arrays', 'partition/Multilevel/engpar_parmetis.cpp, engpar_zoltan.cpp'), ('repartition', 'agi/agiMigrate.cpp repartition')])
p('C17', 'Collective operations compute the reduction over all ranks',
  '''For every number of ranks, the sum, minimum, maximum, logical and exclusive-scan collectives return on every rank exactly the result of combining all ranks' contributions (for a scan: those of the lower ranks), element by element, and a barrier or reduction
  exchanges messages only between partners that agree on the exchange.''',
  ['inputs', 'configurations', 'schedules'], 'all rank counts (including non powers of two), array lengths and values, any message timing', 'Tests run on at most 4 ranks with few values.',
  ['pcu/pcu_coll.c', 'pcu/pcu.c', 'pcu/pcu_msg.c'], [('communication patterns', 'pcu/pcu_coll.c reduce_*, bcast_*, scan_up_*, scan_down_*'), ('merge functions', 'pcu/pcu_coll.c pcu_add_*, pcu_min_*, pcu_max_*'), ('public wrappers', 'pcu/pcu.c')])
p('C18', 'Every message sent in a phase is received once, unchanged, by its addressee',
  '''In each communication phase every rank receives exactly the bytes each peer packed for it, in packing order, attributed to the right sender, and none from other phases; with ordering enabled senders are delivered in increasing rank order.
  Unpacking consumes exactly what was packed and the end of data is reported exactly when everything has been consumed.''',
  ['inputs', 'schedules', 'configurations'], 'all message patterns, sizes, numbers of ranks and arrival orders', 'Tests exchange small regular patterns; buffer growth, many peers and empty messages are hardly exercised.',
  ['pcu/pcu_msg.c', 'pcu/pcu_buffer.c', 'pcu/pcu_aa.c', 'pcu/pcu_order.c', 'pcu/pcu.c'], [('growing buffers', 'pcu/pcu_buffer.c'), ('peer tree', 'pcu/pcu_aa.c'), ('ordering', 'pcu/pcu_order.c'), ('phase protocol', 'pcu/pcu_msg.c')])
p('C19', 'Binary file I/O round-trips values regardless of byte order',
  '''Numbers and strings written through the portable binary file layer are read back as the same values, and byte swapping reverses the bytes of each element of any array exactly, leaving other memory untouched.''',
  ['inputs'], 'all values, array lengths and strings', 'No test covers this layer (its users need absent data).',
  ['pcu/pcu_io.c'], [('byte swap', 'pcu/pcu_io.c pcu_swap_unsigneds, pcu_swap_doubles'), ('read/write', 'pcu/pcu_io.c pcu_read_*, pcu_write_*')])
p('C20', 'Loading an edge-list file distributes every edge to its source vertex',
  '''Loading a binary edge list on any number of ranks gives each vertex of the file one owner by the requested partitioning, with exactly the edges of the file that start at it as its edge list, and ghost owners that match the owners' own view.''',
  ['inputs', 'configurations'], 'all edge lists, numbers of ranks and partition files', 'The suites need the graph data repository, so the loader is never run.',
  ['interfaces/binGraph.cpp'], [('edge exchange', 'interfaces/binGraph.cpp exchange_edges'), ('local CSR', 'interfaces/binGraph.cpp create_dist_csr'), ('ghost owners', 'interfaces/binGraph.cpp compute_ghost_edges')])

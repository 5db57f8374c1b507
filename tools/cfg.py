RULE='random features (numbers with ties, labels, missing cases) and case lists drawn from VERIF_SEED; a case is non-trivial unless its generator marks it trivial, and distinct when its logged input differs'
NA={
'C23':'p-values come from a truncated continued fraction, Lgamma and Pow in floating point; the accuracy of that numerical approximation is not expressible in a contract any SMT back end here can decide',
'C24':'the property is about goroutine schedules of a whole command line program (closures in package main, channels, files); a function contract covers one call, not the interleavings. The shared types it relies on are covered by C14',
}
REALS='float64 arithmetic is treated as exact real arithmetic and machine integers as mathematical ones; termination is not proved.'
CFG={
'C01':dict(note='Every obligation of the nine split functions is discharged for all inputs: multiset of cases preserved, the three stretches, routing, decoded split agrees. '+REALS+' big.Int.Bit is an assumed contract.'),
'C02':dict(note='Every obligation of SortBy and all its helpers is discharged: sorted, (case,value) pair counts preserved, frame. '+REALS),
'C03':dict(note='Every obligation of the label table, of the feature and vote counter functions that use it, of Copy/CopyInTo and of StripStrings is discharged: codes in order of first appearance, stable, bijective; copies own their table. '+REALS+' strconv.Itoa/Sprintf of an int is assumed injective.'),
'C04':dict(note='Every obligation of Append, Put*, Get*, PutMissing, IsMissing, Copy, CopyInTo, Mean, Modei and ImputeMissing of both feature kinds is discharged: missing flags, last written values, other cases untouched, HasMissing. '+REALS+' strconv.ParseFloat and strings.ToLower are assumed deterministic functions; a NaN is not modelled. Imputing assumes at least one known case.'),
'C05':dict(note='Every obligation of Shuffle, ShuffleCases, ShuffledCopy, AddContrasts and ContrastAll is discharged: (value, missing) multisets preserved, unlisted cases untouched, contrasts appended and findable. '+REALS+' rand.Intn is assumed to return a value in range.'),

'C06':dict(note='Every obligation of the counting and impurity functions of the plain, entropy, disutility, regret, weighted, numerical and L1 targets is discharged: each equals its definition over the class counts or values, and the split impurity is the size weighted average. '+REALS+' math.Log is an uninterpreted function. Wrapping targets are taken to wrap the dense features directly.'),
'C07':dict(note='Every obligation of UpdateSImpFromAllocs, of the SplitImpurity it must agree with and of everything they call is discharged for 14 targets (plain, entropy, disutility, regret, weighted, Neyman-Pearson, AdaBoost, AdaCost, Hellinger, numerical, L1, ordinal, numerical AdaBoost, gradient boosting): update and recomputation have the same closed form and leave the same running totals. '+REALS+' Density and transduction targets, whose update calls the full computation, are only sampled by the bounded harness.',
  bounded=['DensityTarget.UpdateSImpFromAllocs','TransTarget.UpdateSImpFromAllocs']),
'C08':dict(note='Every obligation of DenseNumFeature.BestNumSplit, BestSplit and the sorting it uses is discharged for all cases, targets and leaf sizes: the threshold separates the sorted cases with the leaf size on each side, the reported decrease is the one achieved there, no gap is better, minimum reported otherwise, cases permuted. Targets enter through an interface contract (SplitImpurity/UpdateSImpFromAllocs are functions of the sides) that C06 and C07 prove for the implementations. '+REALS),
'C13':dict(note='Every obligation of the vote counters, running means and pair counters (constructors, Vote, Tally, TallyNum, WeightedAdd, Add, Read) is discharged: each vote changes exactly the total it names, the tally is a plurality label, the mean recurrence yields the weighted mean (lemma over histories). Vote weights are taken to be non-negative. WriteTsv is only exercised by the harness. '+REALS+' strconv.ParseFloat and fmt.Sprintf are assumed deterministic functions.',bounded=['SparseCounter.WriteTsv']),

'C21':dict(note='Every obligation of FindPredicted, Mode, Modei, Mean and Predicted of the plain, numerical, weighted, regret, Neyman-Pearson, ordinal, Hellinger and disutility targets is discharged for all contents and case lists: the prediction is the defined function of the class counts, sums and shares. That those counts do not depend on the order of the cases is the definition of a count (a per-case sum), sampled by the harness. '+REALS+' fmt.Sprintf is assumed deterministic. Density and transduction targets are outside the statement.'),

'C20':dict(note='Every obligation of EncodeToNum and OneHot of features and of whole matrices is discharged: indicator columns, codes, names, flags, order, lookup by name, nothing existing is written. Assumes the names of the encoded features are distinct. '+REALS+' String concatenation is an uninterpreted function.'),

'C16':dict(note='Every obligation of the six samplers is discharged for all sizes, decks, classes and outcomes of the random draws: counts, ranges, rearrangement of the deck, constants left in place, class lists complete and sound, every draw comes from a class list, previous content dropped. The distribution of the draws is only sampled (every class that can be drawn is drawn). '+REALS+' rand.Intn is assumed to return a value in range.'),

'C15':dict(note='Every obligation of CatBallotBox.TallyError, NumBallotBox.TallySquaredError, TallyError, TallyR2Score and of the tallies they call is discharged for all vote contents and features; a ghost array records the tally reported for each case, so ties between pluralities are covered whichever way they fall. '+REALS),

'C10':dict(note='Every obligation of FeatureMatrix.BestSplitter is discharged for all feature matrices, candidate lists, numbers to try and outcomes of the random draws: both lists are rearranged, constants counted and kept in the tail, and the answer is that of a candidate that was asked in this call and none that was asked reported more. Candidates enter through an interface contract for Feature.BestSplit that records its answer in ghost state; C08 and C09 prove the frame and permutation part of it for the two feature kinds. Vetting and out-of-bag evaluation are outside the statement. '+REALS+' rand.Rand.Intn is assumed to return a value in range.',assume=['Feature.BestSplit: interface contract (rearranges the cases, changes only the scratch space)']),

'C17':dict(note='Every obligation of the Boost, Update and Intercept functions and constructors of the AdaBoost, AdaCost, numerical AdaBoost, gradient and two-class gradient boosting targets is discharged for all contents, weights and partitions: cut-off, tree weight, factor of every case, normalisation to one, residuals and scores. '+REALS+' math.Log, Exp and Tanh are uninterpreted (Exp positive); the logistic transform is the tanh form the code documents.'),

'C22':dict(note='Every obligation of BuildScikitTree (recursive, verified against its own contract) and NewScikitTree is discharged for all trees: each entry mirrors the node at its depth-first position, child positions, counts, depth, earlier entries kept. The tree is described by ghost functions (size, height, position, node at a position) that preconditions tie to the children of every node; they exist for every finite tree without shared nodes. '+REALS),
'C12':dict(note='Every obligation of Tree.Vote, Tree.VoteCases and of Node.Recurse run with the function literal VoteCases passes to it (recursive, verified against its own contract) is discharged: for every case the number of votes, the prediction and the weight are those of the leaf reached, the case list is only reordered, tree and data untouched. The splits themselves are under C01. Where a case goes is a ghost function of node and case that preconditions tie to the splits of every node. The partition and the leaf list are covered by the bounded harness only. '+REALS+' Ballot boxes are assumed not to share memory with the tree or the data.',bounded=['Tree.Partition','Tree.GetLeaves']),

'C14':dict(race=True,note='Every obligation of Vote, Tally and TallyNum of the three ballot boxes, RunningMean.Add, WeightedAdd and Read and SparseCounter.Add is discharged under interference: guarded fields and maps are only touched under their lock, locks are released and never nested, whatever the other goroutines do between critical sections the call adds exactly its own contribution, and what a reader returns is one state of the accumulator. Rely and guarantee: labels keep their codes, recorded codes are known labels, counts are not negative. The functions called are executed in place. SparseCounter.WriteTsv and the error functions are only exercised by the harness, which runs under the race detector. A lock is assumed to exclude and to order memory (sync.Mutex is trusted); fairness and termination are not proved. '+REALS,bounded=['SparseCounter.WriteTsv'],assume=['sync.Mutex: mutual exclusion and memory order are assumed']),

'C09':dict(note='Every obligation of BestCatSplit, BestBinSplit, BestCatSplitIter, BestCatSplitIterBig, BestCatSplitBig and DenseCatFeature.BestSplit is discharged for all features, case lists, targets and leaf sizes: the answer leaves the leaf size on both sides and reports what it achieves, no category set beats an exhaustive search (over the enumerated half, and over all sets by the complement lemmas), no additional category improves a greedy answer, a binary search reports no split exactly when a side is too small. Targets enter through the interface contract of C08, here with the impurity a function of the two multisets of cases, symmetric in its sides. '+REALS+' big.Int operations and single-bit operations on ints are assumed contracts (numbers below 2^62).'),

'C19':dict(note='Every obligation of ParseAFM (both orientations), ParseFeature, LoadCases, WriteCases, WriteArffCases and both Append functions is discharged for every table: each cell, label, name and type lands where the table says, each written record holds the cells of its case. The csv reader and writer, strings.Join and fmt.Fprintln are assumed contracts for well-formed tables. ParseARFF, ParseLibSVM, WriteLibSvm, WriteLibSvmCases and LoadAFM are bounded only: 10000 random tables loaded, or written and loaded back. '+REALS,bounded=['ParseARFF','ParseLibSVM','WriteLibSvm','WriteLibSvmCases','LoadAFM'],assume=['csv.Reader, csv.Writer, strings.Join, fmt.Fprintln: contracts for tables whose cells hold no separator','Feature.Append through the interface: one more cell of that feature and no other (proved of both implementations)']),

'C18':dict(note='Every obligation of WriteForest, WriteTree, both headers, WriteNodeAndChildren (recursive, verified against its own contract), WriteNode, DescribeMap and Tree.AddNode is discharged for all forests: the exact text of every line, one line per node in depth-first order with its path, trees in order, and a path that is added puts a node with that prediction and splitter exactly there and changes nothing else. Cutting lines back into fields and the reading loop (ParseRfAcePredictorLine, ReadTree, ReadForest) are bounded: the harness writes and reads random forests. The forest is described by ghost functions (size, line, path of a node) that preconditions tie to the children of every node; the sink reports no errors. '+REALS,
  bounded=['ForestReader.ParseRfAcePredictorLine','ForestReader.ReadTree','ForestReader.ReadForest']),

'C11':dict(note='Every obligation of Tree.Grow, of the function literal it passes down and of Node.CodedRecurse run with that literal (recursive, verified against its own contract) is discharged for all matrices, targets, case samples, parameters, draws and previous contents of the tree: every node grown is a leaf without children or splitter whose prediction is that of the target for the cases that reach it, or has a splitter on a candidate and both children, and its cases are divided between them as its split says; depth and size limits; each node is grown once and nodes outside the tree stay. The old tree is numbered by ghost functions that a precondition ties to the children of every node; they exist for every finite tree without shared nodes. Vetting and out-of-bag evaluation are outside the statement. '+REALS,assume=['Feature.SplitPoints, DecodeSplit, IsMissing and Target.FindPredicted: interface contracts (SplitPoints divides and rearranges the cases as the split says: proved of both feature kinds under C01)','Feature.BestSplit: interface contract of C10']),
}

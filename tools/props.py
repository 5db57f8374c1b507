import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,obs=None):
    d={"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
       "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}}
    if state: d["anchors"]["state"]=[{"name":a,"meaning":b,"where":c} for a,b,c in state]
    if obs: d["anchors"]["observe_at"]=obs
    d["anchors"]["hook_needed"]=None
    P.append(d)

p("C01","Applying a split partitions the cases exactly",
 "Splitting a list of cases on a feature, whether by the coded split a search returned or by the decoded splitter saved with the tree, rearranges the list in place: no case is lost, added or duplicated, the left part comes first, the right part last and the cases whose value is missing lie in between, and the returned pieces are exactly those three stretches. A non-missing case is in the left part exactly when its number is at most the threshold, or when its category belongs to the split's left set. A coded split and the splitter decoded from it send every non-missing case the same way.",
 ["inputs"],"every feature content, missing pattern, threshold or left set (small and big category counts) and every case list, with repeats, of any length",
 "The tests split a handful of three- to eight-case features; the in-place three-way partition has to be right for every arrangement of left, right and missing cases.",
 ["densenumfeature.go","densecatfeature.go","splitter.go"],
 [("in-place three way partition","DenseNumFeature.Split, DenseNumFeature.SplitPoints, DenseCatFeature.Split, DenseCatFeature.SplitPoints, Splitter.Split"),("decoding","DenseNumFeature.DecodeSplit, DenseCatFeature.DecodeSplit, GoesLeft")],
 obs=["Feature.Split","Feature.SplitPoints","Splitter.Split"])

p("C02","Sorting cases by value is a sort and keeps pairs together",
 "Sorting a list of cases by an accompanying list of numbers leaves the numbers in increasing order. Each case stays paired with its number, nothing is lost or duplicated, and numbers beyond the length of the case list are left untouched.",
 ["inputs"],"every length and every content of the two lists (numbers without NaN), including heavy ties, presorted and adversarial inputs that reach the heap-sort fallback",
 "Tests sort a few random lists and check order only; pairing, ties, the tails and the fallback path depend on the input.",
 ["sortby/sortby.go","sortablefeature.go"],
 [("hybrid quick/heap/insertion sort","sortby.SortBy, quickSort, doPivot, heapSort, siftDown, insertionSort, medianOfThree")])

p("C03","Category labels and codes stay in bijection",
 "Whatever sequence of labels a categorical feature or vote counter sees, labels receive the codes 0, 1, 2, ... in order of first appearance, a label keeps its code for good, and looking a code up returns the label that was given it. Working on a copy of a feature, including writing labels to it that the original has never seen, never changes the original. Replacing the labels by anonymous ones keeps the correspondence: each anonymous label still stands for the code it replaced.",
 ["histories","inputs"],"every sequence of label lookups, writes, copies and anonymisation",
 "Tests look up a few labels once; the invariant is about all histories, and a broken code table only shows when a later label or a copy is involved.",
 ["catmap.go","densecatfeature.go","featurematrix.go"],
 [("code table","CatMap.CatToNum, CatMap.NumToCat, CatMap.NCats"),("copying","DenseCatFeature.Copy"),("anonymisation","FeatureMatrix.StripStrings")],
 state=[("Map/Back","label to code and code to label","catmap.go CatMap")])

p("C04","Missing values are tracked faithfully",
 "After any sequence of appending, writing, marking missing, copying and imputing values in a feature, a case reads back as missing exactly when its last write marked it missing (for a categorical feature a missing token, empty, '?', 'na', 'nan' or 'null' in any case; for a numerical one a string that does not parse as a number), every other case still reads back its own last written value, and a feature holding a missing case reports that it has missing values. A copy, and a feature the values were copied into, reports the same values and the same missing cases as the source. Imputing fills exactly the missing cases, with the mean (numerical) or most frequent category (categorical) of the non-missing ones, and leaves nothing marked missing.",
 ["histories","inputs"],"every sequence of feature mutations and every value string; for the numerical mean, features with at least one non-missing case",
 "Tests append fixed strings once; the flags and values have to agree after every history of writes.",
 ["densenumfeature.go","densecatfeature.go"],
 [("value and flag updates","DenseNumFeature/DenseCatFeature Append, PutStr, Put, Puti, PutMissing, GetStr"),("copying","Copy, CopyInTo"),("imputation","ImputeMissing")],
 state=[("Missing/HasMissing","per case missing flag and the any-missing summary","DenseNumFeature, DenseCatFeature")])

p("C05","Shuffling permutes and contrasts leave the original alone",
 "Shuffling a feature rearranges its (value, missing flag) entries among its cases without losing or inventing one, and shuffling over a list of cases only rearranges entries among the listed cases. A shuffled contrast copy leaves the feature it was made from unchanged, and adding contrasts to a feature matrix appends the requested number of shuffled copies, leaves the existing features in place, and makes each contrast findable under its original's name followed by ':SHUFFLED'.",
 ["inputs","schedules"],"every feature, case list without repeats and outcome of the random draws",
 "Tests check one seed and the label counts; preservation must hold for every random outcome.",
 ["densenumfeature.go","densecatfeature.go","featurematrix.go"],
 [("shuffles","Shuffle, ShuffleCases, ShuffledCopy"),("contrasts","FeatureMatrix.AddContrasts, FeatureMatrix.ContrastAll")])

p("C06","Impurities equal their definitions",
 "For a non-empty set of known cases, the impurity a target reports is its definition: one minus the sum of squared class fractions (Gini, with each class count scaled by its weight for a weighted target), minus the sum of p log p over the classes present (entropy, each term scaled by the class cost for the disutility target), the average misclassification cost when every case is assigned the class with the highest count times cost (regret), the sum of squared deviations from the mean (numerical) and the average absolute deviation from the mean (L1). The impurity of a split is the average of the parts' impurities weighted by their number of cases. None of this changes the cases or the data.",
 ["inputs"],"every target content, weights and costs, and every left, right and optional missing case list with repeats",
 "Tests evaluate a few tiny splits with rounded constants; a wrong term only shows for particular class mixes, weights or repeated cases.",
 ["densenumfeature.go","densecatfeature.go","l1target.go","entropytarget.go","dentropytarget.go","wrftarget.go","regrettarget.go"],
 [("impurity","Impurity, ImpFromCounts, GiniWithoutAlocate, CountPerCat, SumAndSumSquares, Mean, Error"),("split impurity","SplitImpurity of each target")])

p("C07","Incremental split evaluation equals recomputation",
 "When cases are moved one batch at a time from the right side of a split to the left, the impurity obtained by updating the previous evaluation equals the impurity recomputed from scratch for the new left and right sides, for every target. After the update the running totals kept for the next step are again exactly those of the new sides.",
 ["inputs","histories"],"every target type and content, every starting left/right pair and every sequence of batches moved from right to left, in exact arithmetic",
 "Tests compare the two for one feature and one move; drift in a counter or sum shows only after particular sequences and class mixes.",
 ["densenumfeature.go","densecatfeature.go","l1target.go","entropytarget.go","dentropytarget.go","wrftarget.go","regrettarget.go","NPtarget.go","adaboosttarget.go","adacosttarget.go","hdistancetarget.go","gradboosttarget.go","ordinaltarget.go","numadaboostingtarget.go","densitytarget.go","transduction.go"],
 [("incremental update","UpdateSImpFromAllocs, MoveCountsRtoL of each target")],
 state=[("LCounter/RCounter, Lsum/Rsum/Lsum_sqr/Rsum_sqr","running class counts and sums of the two sides","splitallocations.go BestSplitAllocs")])

p("C08","The numerical split search returns the best threshold",
 "For cases on which a numerical feature is known, the non-random split search returns a threshold lying strictly between two consecutive distinct values, with at least the requested leaf size on each side, and reports exactly the impurity decrease that this threshold achieves. No other admissible threshold achieves a larger decrease, and when none improves on the parent by more than the minimum the reported decrease is that minimum. The case list is only reordered.",
 ["inputs"],"every feature content whose distinct values differ by more than the 1e-7 tie tolerance, every target, case list and leaf size of at least one; parent impurity known (non-negative)",
 "Tests check one separable feature; optimality, leaf size and the reported decrease quantify over all candidate thresholds and inputs.",
 ["densenumfeature.go","sortablefeature.go","sortby/sortby.go"],
 [("gap scan over sorted cases","DenseNumFeature.BestNumSplit"),("missing handling","DenseNumFeature.BestSplit")])

p("C09","The categorical split search returns what it evaluated",
 "For cases on which a categorical feature is known, a split search that finds an improvement returns a category subset that leaves at least the requested leaf size on each side and reports exactly the impurity decrease that subset achieves. When every subset is enumerated no other admissible subset is better, and the greedy search never returns a set that one more category would improve. The case list is only reordered, and a two-category feature reports no split exactly when one side would fall below the leaf size.",
 ["inputs"],"every categorical feature (two, few, more than five and more than thirty categories), target, case list and leaf size of at least one; parent impurity known (non-negative)",
 "Tests check one or two separable features; optimality over all subsets and honesty of the reported gain depend on every input.",
 ["densecatfeature.go"],
 [("searches","DenseCatFeature.BestCatSplit, BestBinSplit, BestCatSplitIter, BestCatSplitIterBig, BestCatSplitBig, BestSplit")])

p("C10","The best candidate feature wins",
 "Searching the candidate features for a split returns a feature that is one of the candidates, together with a split that feature itself proposed for these cases and the impurity decrease it reported. No candidate that was tried reported a larger decrease, and if none exceeded the minimum decrease no split is returned. When as many candidates as there are may be tried, every candidate not known to be constant is tried. The candidate list is only reordered, candidates known to be constant stay in its tail, and the number of known constants never shrinks nor exceeds the number of candidates.",
 ["inputs","histories"],"every feature matrix, candidate list without repeats, number of candidates to try and outcome of the random draws, without vetting or out-of-bag evaluation",
 "Tests use one feature matrix with separable features; the bookkeeping of tried and constant candidates depends on the random draws and on state carried down the tree.",
 ["featurematrix.go"],
 [("candidate loop","FeatureMatrix.BestSplitter")])

p("C11","Grown trees are well formed",
 "After growing a tree, including growing again into a tree that was grown before, every node is either a leaf with a prediction and no children and no splitter, or an inner node with a splitter on one of the candidate features and both children. Every leaf's prediction is the target's prediction for exactly the training cases that reach it, no inner node lies at or beyond the maximum depth when one is set, and no inner node holds fewer than twice the leaf size of training cases.",
 ["inputs","histories"],"every training matrix, target, case sample, growth parameters and every previous content of the tree",
 "Tests grow forests and check accuracy; a stale child or a wrong case set at one node is invisible to accuracy thresholds.",
 ["tree.go","node.go"],
 [("growth closure","Tree.Grow"),("recursion over cases","Node.CodedRecurse")])

p("C12","Every case is predicted by the leaf it reaches",
 "Letting a tree vote on a set of cases casts, for each listed case, exactly one vote: the prediction of the leaf reached by following the splits from the root, with the tree's weight (one when the tree has none). A case whose splitting value is missing follows the missing branch if there is one and otherwise gets no vote. The partition into leaves that the library reports lists every voted case exactly once, under the leaf and prediction it would be voted, and none of this changes the tree or the data.",
 ["inputs"],"every tree (coded or decoded splits, with or without missing branches), feature matrix and case list",
 "Tests vote with one tree on eight cases; routing must be right for each shape of tree and arrangement of missing values.",
 ["tree.go","node.go","splitter.go"],
 [("recursion","Node.Recurse"),("consumers","Tree.Vote, Tree.VoteCases, Tree.GetLeaves, Tree.Partition")])

p("C13","Tallies are exact functions of the votes cast",
 "For any sequence of votes, the categorical tally of a case is a category whose total vote weight for that case is the largest, or 'NA' if the case received no positive weight; the numerical tally is the weighted mean of the parsable votes, or 'NA' if there were none; and the sum tally is the weighted sum of the parsable votes. Votes for one case never influence another case, and running means and co-occurrence counts likewise equal the weighted mean and the totals of what was added.",
 ["histories","inputs"],"every sequence of votes with non-negative weights over any cases and predictions, in exact arithmetic",
 "Tests cast a few votes; the totals must be right for every history.",
 ["catballotbox.go","numballotbox.go","sumballotbox.go","utils.go"],
 [("votes and tallies","CatBallotBox.Vote/Tally, NumBallotBox.Vote/Tally/TallyNum, SumBallotBox.Vote/Tally/TallyNum"),("accumulators","RunningMean.WeightedAdd/Add/Read, SparseCounter.Add")])

p("C14","Shared accumulators tolerate concurrent use",
 "Vote counters, running means and co-occurrence counters can be updated and read from several goroutines at once: whatever the interleaving, no update is lost, no reader sees a half-made update, nothing panics or deadlocks, and the final content equals that of some sequential order of the same operations.",
 ["schedules"],"every interleaving of any number of concurrent votes, adds, tallies and reads",
 "A test run samples one schedule and the existing tests start no goroutines on these types.",
 ["catballotbox.go","numballotbox.go","sumballotbox.go","utils.go","catmap.go"],
 [("per object mutex","CatBallotBox.Vote/Tally, SumBallotBox.Vote/TallyNum, RunningMean.WeightedAdd/Read, SparseCounter.Add/WriteTsv")],
 state=[("guarded fields","CatBallot.Map, the vote counter's label table, SumBallot.Sum, RunningMean.Mean/Count, SparseCounter.Map","each under its own mutex")])

p("C15","Reported errors equal their definitions",
 "The error reported for a categorical vote count against a feature is one minus the average, over the feature's categories, of the fraction of that category's known cases whose tally is the true label; the numerical squared error is the mean squared difference between tally and true value over the known cases; the numerical error is that squared error divided by the variance of the known true values, and the R2 score is one minus it. Cases whose true value is missing are ignored.",
 ["inputs"],"every vote content and every feature with at least one known case (and, for the categorical error, at least one known case in each category; for the normalised numerical error, non-constant values)",
 "Tests compute one error per forest and compare it with a threshold; a wrong denominator or a counted missing case stays below it.",
 ["catballotbox.go","numballotbox.go"],
 [("errors","CatBallotBox.TallyError, NumBallotBox.TallySquaredError, NumBallotBox.TallyError, NumBallotBox.TallyR2Score")])

p("C16","Sampling draws valid cases of the requested size",
 "Sampling with replacement returns the requested number of cases, each within range. Drawing the first n of a deck rearranges the deck, keeps the known constants out of the sample, and samples distinct positions, exactly n (or all, if fewer) when there are no known constants. Balanced sampling returns the requested number of cases, each a known case of the class drawn for it, and nothing is left from an earlier use of the sample list; balancing by a second feature draws only cases known in both.",
 ["inputs","schedules"],"every size, deck, class assignment (each class, or each combination that can be drawn, having a known case) and outcome of the random draws",
 "Tests check one configuration per sampler; ranges and membership must hold for every random outcome.",
 ["sampeling.go"],
 [("samplers","SampleWithReplacment, SampleFirstN, NewBalancedSampler, BalancedSampler.Sample, NewSecondaryBalancedSampler, SecondaryBalancedSampler.Sample")])

p("C17","Boosting reweights cases as defined",
 "Boosting rounds of the adaptive boosting targets give a tree whose weighted error reaches the cut-off weight zero and leave all case weights unchanged; otherwise (a tree without errors counts as having a fixed tiny error) they return the defined tree weight, scale every known case by the defined factor for its leaf, and renormalise so that the case weights sum to one. A round of gradient boosting subtracts the learning rate times the leaf prediction from the residual of every known case in the leaf and changes nothing else; for two-class gradient boosting the residual of each case is its actual class indicator minus the logistic transform of its accumulated score.",
 ["inputs","histories"],"every target content, partition of cases into leaves and sequence of rounds, in exact arithmetic, with positive case weights and costs and at least one known case per numerical leaf",
 "Tests run one or two boosting rounds and check accuracy only; a wrong factor, leaf or normalisation stays under the threshold.",
 ["adaboosttarget.go","adacosttarget.go","numadaboostingtarget.go","gradboosttarget.go","gradboostclasstarget.go"],
 [("boosting","AdaBoostTarget.Boost, AdaCostTarget.Boost, NumAdaBoostTarget.Boost, GradBoostTarget.Boost/Update, GradBoostClassTarget.Boost/Update"),("initialisation","New* constructors")])

p("C18","Saved forests read back as the same forest",
 "Writing a forest and reading it back yields the same forest: the target, the intercept, the trees in order with their target and weight, and for every tree the same nodes at the same left/right/missing positions with the same predictions and the same splits, numerical or categorical. A reloaded forest therefore predicts exactly what the saved one predicted.",
 ["inputs"],"every forest with at least one tree whose trees have both children and possibly a missing branch at inner nodes, and whose names, labels and predictions contain none of the format's separators (comma, quote, equals sign, colon, line break, or surrounding blanks); a last line without a line break included",
 "Tests round-trip one literal without missing branches; order, nesting, missing branches and special values depend on the forest.",
 ["forestwriter.go","forestreader.go","tree.go"],
 [("writing","ForestWriter.WriteForest, WriteTree, WriteNodeAndChildren, WriteNode, DescribeMap"),("reading","ForestReader.ReadForest, ReadTree, ParseRfAcePredictorLine, Tree.AddNode")])

p("C19","Data files load and save every cell",
 "Loading a feature matrix from the annotated matrix, attribute-relation or sparse numbered format puts every cell into the feature and case it belongs to, with names, types, case labels and missing cells as written, and keeps the last line even without a line break. Writing chosen cases out and loading them again returns the same features restricted to those cases, and writing never changes the matrix.",
 ["inputs"],"every well-formed table whose cells are free of the format's separators",
 "Tests load three small literals; alignment, orientation, missing cells and last lines depend on the table.",
 ["featurematrix.go","arff.go","libsvm.go"],
 [("loading","ParseAFM, ParseFeature, FeatureMatrix.LoadCases, ParseARFF, ParseLibSVM"),("saving","FeatureMatrix.WriteCases, WriteArffCases, WriteLibSvm, WriteLibSvmCases")])

p("C20","Encoded features say what the categories said",
 "Encoding a categorical feature as numbers yields, for more than two categories, one indicator per category that is one exactly on the cases of that category and zero elsewhere, named after the feature and the category, and for at most two categories a single feature holding the codes; one-hot encoding yields the corresponding true/false features, a feature that already has at most two categories staying as it is. Encoding a whole matrix keeps numerical features and the order of features, and every feature of the result can be found under its name. Missing cases stay missing and the source is not changed.",
 ["inputs"],"every categorical feature and feature matrix with distinct feature names",
 "Tests encode one or two small features; the per category and per case equality has to hold for all contents.",
 ["densecatfeature.go","featurematrix.go"],
 [("encoding","DenseCatFeature.EncodeToNum, DenseCatFeature.OneHot, FeatureMatrix.EncodeToNum, FeatureMatrix.OneHot")])

p("C21","Leaf predictions are the defined summary of their cases",
 "The prediction for a set of cases is: the most frequent known category (classification), the mean of the known values (regression), the category with the largest count times weight or cost (weighted and cost-sensitive targets, the constrained class's count divided by alpha for the Neyman-Pearson target), the most frequent value (ordinal), or the share of cases of the positive class (Hellinger target; weighted by cost for the disutility target). The prediction never depends on the order of the cases.",
 ["inputs"],"every target content with non-negative weights and costs, and every non-empty list of cases with at least one known value, with repeats; for the targets that are documented not to check for missing values (regret, Neyman-Pearson, disutility, Hellinger) every listed case is known",
 "Tests look at a few predictions; ties, repeated and missing cases and weights vary with the input.",
 ["densenumfeature.go","densecatfeature.go","wrftarget.go","regrettarget.go","NPtarget.go","ordinaltarget.go","hdistancetarget.go"],
 [("prediction","FindPredicted, Mode, Modei, Mean, Predicted of each target")])

p("C22","Exported flat trees mirror the grown tree",
 "Exporting a tree to the flat array format lists the nodes in depth-first order, left before right: an inner node's entry holds its split feature and threshold and the positions of the entries of its left and right child, a leaf's entry has no children (-1), the node count equals the number of entries and the recorded depth is that of the deepest node.",
 ["inputs"],"every tree whose inner nodes have two children and no missing branch",
 "No test looks at the export; positions depend on the shape of the tree.",
 ["sklearn_tree.go"],
 [("export","BuildScikitTree, NewScikitTree")])

p("C23","Mean importance p-values follow Welch's test",
 "The statistics helper returns the sample mean and unbiased variance of each sample, Welch's t value and degrees of freedom, and the one-sided p-value of the hypothesis that the first mean is larger.",
 ["inputs"],"every pair of samples with at least two values each",
 "Tests compare two samples with fixed numbers; accuracy of the continued fraction depends on the arguments.",
 ["stats/stats.go"],[("Welch's test","stats.MeanAndVar, stats.Ttest")])

p("C24","Multi-threaded forest growth equals independent single growth",
 "Growing a forest on several cores with the command line tool produces a forest in which every tree is one that a single-core run could have produced from some sample, writes each tree exactly once, and loses no out-of-bag vote, whatever the interleaving.",
 ["schedules"],"every interleaving of the growing goroutines",
 "The command line program has no tests and a run samples one schedule.",
 ["growforest/growforest.go"],[("goroutines","growforest main, grow closure, recordingTree mutex")])

with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for d in P: jsonschema.validate(d,s); assert len(d['title'])<=80
print(len(P))

#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the JSON stays well formed)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
      quantifier=dict(over=over, text=text), why_tests_cant=why,
      anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
                   mechanism=[dict(name=a, where=b) for a,b in mech],
                   observe_at=observe, hook_needed=hook)))

p("C01","Loading reproduces the file's table exactly",
  "Loading a well-formed dataset file yields exactly the requested table: one series per line of the file (at most the row limit when that is positive), each as long as the first line has columns minus the skipped leading columns, and every point equal to the number written at that row and column. This holds for any set of separator characters, repeated, leading or trailing separators, any numeric notation, and regardless of what stands in skipped columns or beyond the row limit. The dataset information reported on loading describes exactly this table.",
  ["inputs","configurations"],"all well-formed files (shape, notation, separators, line endings), row limits and column offsets, both numeric precisions",
  "The tests load four fixed files with one or two parameter combinations and look at the first and last point of one row.",
  ["src/TimeSeriesSet.cpp","src/OnexAPI.cpp"],
  [("line/column tokenising, row-major store with column offset","src/TimeSeriesSet.cpp TimeSeriesSet::loadData")],
  ["OnexAPI::loadDataset / getDatasetInfo","TimeSeriesSet::getTimeSeries"],
  [("data","row-major value table","TimeSeriesSet::data"),("itemCount,itemLength","table dimensions","TimeSeriesSet")])
p("C02","Unusable dataset files are refused and leave no trace",
  "A dataset file that is missing, unreadable, empty, has rows of different lengths, contains an unparsable or unrepresentable number among the columns to be read, or has no column left after skipping, is refused with the library's error. A refused load consumes no dataset id and leaves every loaded dataset, its values and its groups exactly as they were. A column offset below zero is refused likewise.",
  ["inputs","histories","fault_sequences"],"every kind and position of defect in a file, in any state of the session",
  "Tests try one ragged, one text-only and one overflowing file on a fresh object and never look at what a failed load leaves behind.",
  ["src/TimeSeriesSet.cpp","src/OnexAPI.cpp"],
  [("per-row length check, stod error translation, clean-up on error","src/TimeSeriesSet.cpp loadData"),("new set destroyed when loading throws","src/OnexAPI.cpp loadDataset")],
  ["OnexAPI::loadDataset","OnexAPI::getAllDatasetInfo"])
p("C03","Saved datasets reload bit-for-bit",
  "Saving a dataset and loading the saved file with the same separator reproduces it exactly: the same number of series, the same length and every value bit-for-bit equal. This holds whatever sequence of loads, normalisations and aggregations produced the dataset. Saving changes nothing in memory.",
  ["inputs","histories","configurations"],"all finite normal-range datasets, separators that cannot occur inside a number, any preceding operations, both numeric precisions",
  "No test saves a dataset at all.",
  ["src/TimeSeriesSet.cpp","src/OnexAPI.cpp"],
  [("text output of every value with round-trip precision","src/TimeSeriesSet.cpp saveData")],
  ["OnexAPI::saveDataset","the saved file","OnexAPI::loadDataset"])
p("C04","A save that cannot complete is reported as an error",
  "If a dataset file or a group file cannot be opened or cannot be written in full, the save operation raises the library's error; a save that reports success has put the complete file on disk. The dataset and its groups in memory are unaffected either way and a later save to a working destination succeeds.",
  ["fault_sequences","crash_points"],"a write failure after every byte count from 0 to the file size, and every kind of unopenable path",
  "Tests never save and cannot inject write failures.",
  ["src/TimeSeriesSet.cpp","src/GroupableTimeSeriesSet.cpp","src/GlobalGroupSpace.cpp","src/LocalLengthGroupSpace.cpp","src/Group.cpp"],
  [("stream state checked after closing","src/TimeSeriesSet.cpp saveData, src/GroupableTimeSeriesSet.cpp saveGroups")],
  ["OnexAPI::saveDataset","OnexAPI::saveGroup","file size under a file-size limit"])
p("C05","Normalisation is exact min-max scaling of the whole dataset",
  "Normalising a dataset returns its true minimum and maximum over all points of all series and replaces every value d by (d-min)/(max-min), so that all values lie in [0,1], the extremes become 0 and 1 and the order of values is preserved; a constant dataset becomes all zeros. The number and length of the series do not change, the dataset is reported as normalised, and no other dataset is affected.",
  ["inputs","histories"],"all finite datasets of every shape (odd/even counts and lengths, single rows and columns, extremes in any position), any preceding operations",
  "Tests normalise two fixed 3- and 5-row datasets; the position of the extremes and the parity of the dimensions are never varied.",
  ["src/TimeSeriesSet.cpp"],
  [("pairwise min/max scan, scaling loop, constant-dataset branch","src/TimeSeriesSet.cpp normalize")],
  ["OnexAPI::normalizeDataset return value","all values before and after"])
p("C06","PAA replaces each block by its mean",
  "Piecewise aggregation with block size n>0 turns every series of length L into one of length ceil(L/n) whose i-th value is the mean of the i-th block of n consecutive values, the last block being averaged over the values it actually has. The number of series does not change, series never mix, block size 1 changes nothing, and the reported information matches the new shape.",
  ["inputs","histories"],"all datasets and all block sizes, including larger than the series, and repeated aggregation",
  "One fixed 3x11 dataset with block sizes 1, 3, 5 is tested.",
  ["src/TimeSeriesSet.cpp"],
  [("block accumulator with flush at block end or series end","src/TimeSeriesSet.cpp doPAA/PAA")],
  ["OnexAPI::PAA return value","all values before and after"])
p("C07","Subsequence views are exact and bounds-checked",
  "A subsequence obtained for a valid (series, start, end) has length end-start, reports that series and these positions, and its k-th point is point start+k of that series of the dataset; leaving out both positions gives the whole series. Every request outside the dataset, every empty or reversed range and every out-of-range point index raises the library's error. Asking a dataset for the distance between one of its subsequences and another series gives exactly the named distance of those two series.",
  ["inputs"],"all (series, start, end) and point indices, in and out of range, on datasets of every shape",
  "Tests try half a dozen ranges on one file.",
  ["src/TimeSeriesSet.cpp","src/TimeSeries.cpp"],
  [("index and range checks","src/TimeSeriesSet.cpp getTimeSeries; src/TimeSeries.cpp operator[]")],
  ["TimeSeriesSet::getTimeSeries","TimeSeries accessors","TimeSeriesSet::distanceBetween"])
p("C08","Pairwise distance is the length-normalised Euclidean distance",
  "The pairwise distance of two series of equal length n is the square root of the mean of their squared point differences; it is symmetric, zero for identical series and does not depend on where the series are stored. Series of different lengths are refused with the library's error, and an unknown distance name is refused likewise.",
  ["inputs","configurations"],"all pairs of finite series, lengths from 1 to well over a thousand, both precisions",
  "One test evaluates it without comparing the result (a comma instead of ==); two others compare a single value each.",
  ["src/distance/Distance.cpp"],
  [("squared-difference accumulation and normalisation","src/distance/Distance.cpp pairwiseDistance")],
  ["getDistance(\"euclidean\")","pairwiseDistance"])
p("C09","Warped distance is the optimal band-constrained alignment",
  "The warped distance of two series is the square root of the smallest total squared difference over all monotone alignments that stay within the warping band, divided by twice the longer length; it is infinite exactly when the length difference exceeds the band. The band half-width is the longer length times the configured ratio, rounded down and at most the longer length minus one. The distance is symmetric and never exceeds the cost of the straight alignment for equal lengths.",
  ["inputs","configurations"],"all pairs of finite series of equal and different lengths (including length 1), all band ratios from 0 to 1, both precisions",
  "Five hand-computed pairs of at most seven points, nearly all with an unconstrained band.",
  ["src/distance/Distance.cpp"],
  [("dynamic programme over a cost matrix restricted to the band","src/distance/Distance.cpp warpedDistance"),("band size","src/distance/Distance.cpp calculateWarpingBandSize")],
  ["warpedDistance","getDistance(\"euclidean_dtw\")","setWarpingBandRatio"])
p("C10","Cut-offs and lower bounds never discard a better answer",
  "Evaluating the pairwise, warped or cascaded distance with a cut-off returns either the exact distance or a value that is certainly above the cut-off, and never hides a distance below the cut-off. The envelope lower bounds, with or without a cut-off and in either argument order, never exceed the true warped distance (a bound reported as infinite certifies that the true distance is above the cut-off).",
  ["inputs","histories","configurations"],"all pairs of series, cut-offs (including just above and below the true distance), band ratios, and earlier evaluations on the same objects",
  "One lower-bound value and one generous cut-off are tested; soundness is a statement about every pair and cut-off.",
  ["src/distance/Distance.cpp","src/TimeSeries.cpp","src/lib/trillionDTW.cpp"],
  [("early abandoning","warpedDistance / pairwiseDistance"),("Keogh bounds and cascade","keoghLowerBound, crossKeoghLowerBound, cascadeDistance")],
  ["the five distance functions"])
p("C11","Envelopes are the true sliding extremes, whatever happened before",
  "For every series and half-width w>=0 the upper (lower) envelope at position i is the maximum (minimum) of the points at distance at most w from i. This holds for any order and repetition of requests with different half-widths, and the envelope reflects the current points whatever changed them: addition, assignment, copying, or points written through operator[] or in the array a series views.",
  ["inputs","histories"],"all series (ties, monotone runs, constants, length 1), all half-widths including larger than the series, all sequences of requests, additions, point writes, copies and assignments",
  "Two fixed series with six half-widths, each requested in increasing order on a fresh object.",
  ["src/TimeSeries.cpp","src/TimeSeries.hpp","src/lib/trillionDTW.cpp","src/lib/deque.cpp"],
  [("streaming min/max with two monotone queues","src/lib/trillionDTW.cpp lower_upper_lemire"),("cache keyed by half-width","src/TimeSeries.cpp getKeoghLower/Upper")],
  ["TimeSeries::getKeoghLower / getKeoghUpper"],
  [("keogh cache","envelope arrays with validity flag and half-width","TimeSeries")])
p("C12","Series objects are independent, safe values",
  "A series that owns its points keeps them until changed through itself: copying, assigning (also to itself), moving from and destroying other series never changes, frees or leaks its points, and the position information travels with the value. A series that views foreign points always shows those points. Point-wise addition adds the other series' points, changes nothing else, and refuses a different length. A series that was moved from, or that has no points, can still be used: it never claims points it does not have.",
  ["histories"],"all sequences of construction, copy, copy- and move-assignment (including self-assignment), addition, point writes and destruction over a pool of owning and viewing series",
  "Tests construct views and add once; no test copies, assigns or moves an owning series.",
  ["src/TimeSeries.hpp","src/TimeSeries.cpp"],
  [("ownership flag deciding deep or shallow copy and release","src/TimeSeries.* constructors, operator=, destructor")],
  ["TimeSeries copy/assign/move/operator+=/operator[]","AddressSanitizer and LeakSanitizer"])
p("C13","Grouping partitions all subsequences",
  "After grouping a dataset with any threshold, every subsequence of every length from 2 to the series length belongs to exactly one group of its own length, no group is empty, and the returned number of groups is the number of groups there are. Regrouping replaces the old groups completely, and grouping completes for every dataset shape regardless of how much time passes meanwhile.",
  ["inputs","histories","schedules"],"all datasets (also with fewer than five subsequences of a length), thresholds, both distances, repeated grouping, arbitrary clock readings during grouping",
  "Tests assert a lower bound on the group count for three files; membership is never enumerated and progress logging depends on the clock.",
  ["src/LocalLengthGroupSpace.cpp","src/GlobalGroupSpace.cpp","src/Group.cpp"],
  [("every (start, series) visited once per length and linked into one group","src/LocalLengthGroupSpace.cpp generateGroups; src/Group.cpp addMember")],
  ["OnexAPI::groupDataset","group file","LocalLengthGroupSpace::getGroup / Group::getMembers"],
  [("memberMap","linked list of members through the coordinate table","LocalLengthGroupSpace"),("groups","groups of one length","LocalLengthGroupSpace")])
p("C14","Group members lie within half the threshold of their representative",
  "For a non-negative threshold ST every member of a group is at distance at most ST/2 from the group's representative, the representative is itself one of the members, and any two representatives of the same length are more than ST/2 apart. Subsequences are placed by start position and then series index, each joining the closest representative that exists at that moment if it is within ST/2 and founding a new group otherwise.",
  ["inputs"],"all datasets and thresholds (including 0, ties and distances exactly equal to ST/2), both distances",
  "Tests use two datasets whose groups are obvious (identical or far apart).",
  ["src/LocalLengthGroupSpace.cpp","src/Group.cpp"],
  [("nearest representative with cut-off, threshold test, new group creation","src/LocalLengthGroupSpace.cpp generateGroups")],
  ["group file","Group::getMembers / getCentroid"])
p("C15","Saved groups restore the same index",
  "Saving the groups of a dataset, grouped with any threshold, and loading them into a dataset of the same shape and values restores the same groups in the same order with the same members, bit-identical representatives and the same count; matches then have the same distances and saving again describes the same groups. The file lists, for each length from 2 up, the number of groups and per group its representative and members as documented, under a header with version, threshold, item count and item length; the size-only file lists the same counts and sizes.",
  ["inputs","histories","configurations"],"all grouped datasets, repeated save/load cycles, both file kinds, both precisions",
  "No test saves or loads groups.",
  ["src/Group.cpp","src/LocalLengthGroupSpace.cpp","src/GlobalGroupSpace.cpp","src/GroupableTimeSeriesSet.cpp","src/TimeSeries.cpp"],
  [("text writer and reader for groups","saveGroup(s)/loadGroup(s)"),("round-trip precision of representatives","src/TimeSeries.cpp printData")],
  ["OnexAPI::saveGroup / loadGroup / getBestMatch","group files"])
p("C16","Bad group files are refused and the current index survives",
  "Loading a group file that is missing, truncated at any point, of another version or shape, size-only, or whose counts, positions, lengths, values or distance name are invalid raises the library's error without crash or hang. The dataset then still has exactly the groups it had before (or none) and answers matches exactly as before.",
  ["inputs","crash_points","fault_sequences"],"every truncation of a valid file and arbitrary field corruptions, on grouped and ungrouped datasets",
  "No test loads a group file, let alone a damaged one.",
  ["src/GroupableTimeSeriesSet.cpp","src/GlobalGroupSpace.cpp","src/LocalLengthGroupSpace.cpp","src/Group.cpp"],
  [("header compatibility checks, member validation, replacement only after a complete load","src/GroupableTimeSeriesSet.cpp loadGroups and callees")],
  ["OnexAPI::loadGroup / getBestMatch / saveGroup"])
p("C17","A match is a real subsequence at its reported distance",
  "A match names an existing series of the target dataset and a valid range of it of at least two points whose values are the ones returned, and its length differs from the query's by no more than the warping band allows. The reported distance is finite and equals the warped distance between the query and exactly that subsequence.",
  ["inputs","histories","configurations"],"all target datasets, groupings (computed or loaded), queries (from the same or another dataset, whole or partial, shorter or longer than the target series) and band ratios",
  "Tests only compare the distance with zero for queries that are contained in the target.",
  ["src/GlobalGroupSpace.cpp","src/LocalLengthGroupSpace.cpp","src/Group.cpp","src/OnexAPI.cpp"],
  [("best group then best member search","GlobalGroupSpace::getBestMatch, Group::getBestMatch")],
  ["OnexAPI::getBestMatch"])
p("C18","A match is as good as the index promises",
  "The returned match comes from a group whose representative is closest to the query among all groups of all lengths the warping band admits, and no member of that group is closer than the match. In particular, when the query's values occur in the dataset grouped by the Euclidean distance with threshold ST>=0, the match is no farther than ST/(4*sqrt(n)) for query length n, and exactly zero for ST=0.",
  ["inputs","configurations"],"all datasets, thresholds, queries and band ratios",
  "Tests check that contained queries match at distance 0 in datasets where that is easy; optimality over groups and lengths is never compared with an exhaustive search.",
  ["src/GlobalGroupSpace.cpp","src/LocalLengthGroupSpace.cpp","src/Group.cpp","src/distance/Distance.cpp"],
  [("traversal of admissible lengths","src/GlobalGroupSpace.cpp generateTraverseOrder"),("pruned nearest-representative search","LocalLengthGroupSpace::getBestGroup")],
  ["OnexAPI::getBestMatch against exhaustive reference search over the saved groups"])
p("C19","Answers do not depend on the history of queries",
  "Matching changes nothing: the answer to a query is determined by the target's values and groups, the query's values and the current band ratio, and is the same however often and in whatever order queries were asked before, whatever band ratios were in force for them, and whatever happened to other datasets. Data, groups and dataset information are the same before and after any number of matches.",
  ["histories"],"all sequences of matches, band changes and operations on other datasets, compared with a fresh session",
  "Tests ask at most four queries at one ratio and never repeat one after others.",
  ["src/TimeSeries.cpp","src/GlobalGroupSpace.cpp","src/distance/Distance.cpp"],
  [("envelope cache keyed by band size","src/TimeSeries.cpp")],
  ["OnexAPI::getBestMatch in long-lived and fresh sessions"],
  [("keogh cache of representatives","mutable state touched by const matching","TimeSeries"),("warping band ratio","process-wide setting","src/distance/Distance.cpp")])
p("C20","Invalid requests are refused without side effects",
  "Every request naming a dataset that is not loaded (or processing a dataset object that holds no data), a series or range that does not exist, an ungrouped target, a query shorter than two points or with no comparable length in the target, a block size below 1, or a band ratio that is negative or not a number raises the library's error. After a refused request the session is exactly as before: same datasets, ids, values, flags, groups, band ratio and answers.",
  ["inputs","histories"],"all invalid argument combinations to every operation in every session state",
  "A handful of invalid calls is tested and only for the exception, not for what they leave behind.",
  ["src/OnexAPI.cpp","src/TimeSeriesSet.cpp","src/GroupableTimeSeriesSet.cpp","src/GlobalGroupSpace.cpp","src/distance/Distance.cpp"],
  [("index and argument checks before any change","OnexAPI::_checkDatasetIndex, getTimeSeries, PAA, getBestMatch")],
  ["all OnexAPI operations; full session snapshots before and after"])
p("C21","Answers never come from groups of changed data",
  "Any operation that changes a dataset's values or shape (normalising, aggregating, reloading) discards its groups: the dataset is reported as not grouped, matching against it and saving its groups are refused until it is grouped again, and grouping it again gives exactly what a freshly loaded dataset with those values would give. The groups of other datasets are unaffected.",
  ["histories"],"all interleavings of group, match, normalise, PAA, reload, load-group operations on several datasets",
  "No test changes a dataset after grouping it.",
  ["src/GroupableTimeSeriesSet.cpp","src/GroupableTimeSeriesSet.hpp","src/TimeSeriesSet.cpp"],
  [("groups reset by every data-changing operation","GroupableTimeSeriesSet")],
  ["OnexAPI::getDatasetInfo / getBestMatch / saveGroup / groupDataset"])
p("C22","Dataset ids and the registry stay consistent",
  "At any time the registry holds exactly the datasets loaded and not yet unloaded: their number, ids, names, shapes and flags are reported correctly, an id keeps denoting the same dataset until it is unloaded, and a new dataset gets the smallest free id. Unloading one dataset or operating on it never affects another, unloading everything empties the registry, and separate sessions share no datasets.",
  ["histories"],"all sequences of load, unload, unload-all, failed loads and other operations in one or several sessions",
  "Three short fixed sequences are tested.",
  ["src/OnexAPI.cpp"],
  [("slot vector with smallest-free-slot reuse and separate counter","src/OnexAPI.cpp loadDataset/unloadDataset")],
  ["OnexAPI::getDatasetCount / getAllDatasetInfo / getDatasetInfo / loadDataset"],
  [("loadedDatasets","slot per id, null when free","OnexAPI"),("datasetCount","number of live datasets","OnexAPI")])
p("C23","No memory error, undefined behaviour or leak in any session",
  "No sequence of library operations with valid or invalid arguments, on any input files, reads or writes outside live objects, releases memory wrongly or twice, executes undefined behaviour, crashes or hangs. When a session ends, all memory obtained for it has been released. (Operations are those of the API, datasets, groups, series, distances, and envelopes of half-width 0 or more; copying a whole dataset or API object is not an operation, and the bundled search may end the program with an error message when its arguments or files are unusable.)",
  ["inputs","histories","configurations"],"all sessions over all public operations, both numeric precisions",
  "The tests run uninstrumented on small valid inputs; the library manages raw arrays, caches and linked member lists by hand.",
  ["src/TimeSeries.cpp","src/TimeSeriesSet.cpp","src/Group.cpp","src/LocalLengthGroupSpace.cpp","src/GlobalGroupSpace.cpp","src/GroupableTimeSeriesSet.cpp","src/OnexAPI.cpp","src/lib/deque.cpp","src/lib/trillionDTW.cpp","src/distance/Distance.cpp"],
  [("manual ownership throughout","src/*")],
  ["AddressSanitizer, UndefinedBehaviorSanitizer, LeakSanitizer, library assertions"])
p("C24","The command line survives any input",
  "Whatever lines are typed, the command-line program keeps running until it is told to quit or input ends, and then exits normally with status 0. A line that names no command, has the wrong number of arguments, unconvertible numbers or an operation that fails prints a line starting with 'Error!' and leaves the session as it was; blank lines and lines starting with // do nothing.",
  ["inputs","histories"],"all command scripts: valid, malformed, missing and surplus arguments, out-of-range numbers, unknown files, end of input at any point",
  "The command line has no tests.",
  ["cli/OnexCLI.cpp","cli/Command.hpp"],
  [("argument count checks, exception handlers in the main loop","cli/OnexCLI.cpp")],
  ["stdout, exit status and sanitizer reports of the onex program driven through stdin"])
p("C25","The command line reports what the session really holds",
  "Every successful command prints the true result: load and paa the name, id and shape; list the loaded datasets with their normalised and grouped state; group and loadGroup the number of groups; match the series, start, length and distance of the best match. These agree with the effect of the same operations on the library, for any sequence of commands, and files written by save and saveGroup are the ones the library would write.",
  ["histories","inputs"],"all command sequences over several datasets",
  "The command line has no tests.",
  ["cli/OnexCLI.cpp"],
  [("argument parsing and forwarding to the API","cli/OnexCLI.cpp MAKE_COMMAND blocks")],
  ["stdout of the onex program compared with an independent session model"])
p("C26","Results are reproducible",
  "The same operations on the same files give bit-identical results (groups, files, matches, information) in every run: nothing depends on leftover memory contents, on earlier unrelated work in the process, on the clock, or on addresses. No decision or output uses an uninitialised value.",
  ["histories","schedules","configurations"],"all sessions, repeated under different heap contents, clock readings and prior activity",
  "A test run sees one heap state and one clock, and cannot see reads of uninitialised memory.",
  ["src/TimeSeries.cpp","src/TimeSeriesSet.cpp","src/LocalLengthGroupSpace.cpp","src/Group.cpp","src/GroupableTimeSeriesSet.cpp"],
  [("initialisation of all state before use","constructors in src/*")],
  ["result digests under perturbed heaps and clocks; valgrind memcheck"])
p("C27","The bundled subsequence search finds the true nearest neighbour",
  "The bundled single-query search over a long data file reports the location and distance of the subsequence whose z-normalised values have the smallest band-constrained warped distance to the z-normalised query, exactly as an exhaustive search would, and counts the points it scanned. Its pruning and chunking never change the result. (Queries of at least two points, data at least as long as the query, no constant windows.)",
  ["inputs"],"all data files (shorter and longer than one internal chunk) and queries of at least two points without constant windows, all band half-widths of 0 or more",
  "The routine is exported by the library but no test calls it.",
  ["src/lib/trillionDTW.cpp","src/lib/util.cpp","src/lib/deque.cpp"],
  [("cascading lower bounds, early abandoning, chunked reading","src/lib/trillionDTW.cpp calculate")],
  ["printed location, distance and number of points scanned"])
p("C28","Candidates order by distance first",
  "Of two match candidates whose distances differ by more than 1e-12 the one with the smaller distance comes first; candidates at the same distance are ordered by series, then start, then length. No two candidates each come before the other, no candidate comes before itself, and sorting candidates yields non-decreasing distances.",
  ["inputs"],"all pairs and collections of candidates with finite distances that are either equal or differ by more than the tolerance",
  "No test compares candidates.",
  ["src/TimeSeries.hpp","src/Group.hpp"],
  [("comparison with tolerance and tie-breaking","src/TimeSeries.hpp candidate_time_series_t::operator<")],
  ["operator< and std::sort on candidates"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))

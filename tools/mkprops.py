#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as Python only because JSON lines are unpleasant to edit).
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=None)))

PM_H, PM_C = "common/include/rofl/common/param_map.h", "common/src/param_map.cpp"
PR_H, PR_C = "common/include/rofl/common/profiler.h", "common/src/profiler.cpp"
IO_H, IO_C = "common/include/rofl/common/io.h", "common/src/io.cpp"

prop("C01", "Configuration text is absorbed exactly, however the stream delivers it",
 "Reading parameters from an input stream stores exactly what the delivered text says: every line whose first two whitespace-separated words are a name not starting with '#' and a value sets that name to that value, a later line overrides an earlier one, and every other line and all other entries are left alone, whatever the line lengths and however the bytes are split into deliveries. "
 "If the stream fails before its end, the lines completely delivered before the failure are applied, the line being delivered may be applied or ignored as far as it was received, nothing else changes, and the read does not report success; a read that reached the end of the text reports success.",
 ["inputs", "fault_sequences", "histories"],
 "for every text (blank, comment, one-word and over-long lines, repeated names, missing final newline, any whitespace), every way of splitting it into deliveries, and every byte at which the stream ends or fails by error or exception",
 "No test reads a parameter file at all; even if one did, it would use one well-formed file delivered in one piece and never a failing stream.",
 [PM_H, PM_C], [("line-by-line parse into the table", "ParamMap::read(std::istream&)")],
 [("table_", "name -> value", PM_H)], ["return value of read", "parameters visible through getParam / write"])

prop("C02", "A configuration save or load that reports success is complete",
 "When writing the parameters to a named file reports success, the file holds exactly one line with the name and value of every parameter and nothing else, and, provided all names and values are single words and no name starts with '#', loading it into an empty store reproduces the parameters; when loading a named file reports success, every line of the file was absorbed. "
 "If the file cannot be opened, written or read in full, because of a full disk, an I/O error, a failing close or exhausted descriptors, the operation reports failure, the store being saved is not altered, and a load stores nothing that is not in the file; with no such failure the operations report success. "
 "The process dying during a save leaves the earlier file, or one that loads without error and whose complete lines are all genuine.",
 ["fault_sequences", "crash_points", "histories"],
 "for every store content, every sequence of saves and loads, every point at which open, read, write or close fails, is shortened or interrupted, and every byte at which the process dies",
 "The tests never save or load a file and cannot make the disk fail.",
 [PM_H, PM_C], [("file save", "ParamMap::write(std::string&)"), ("file load", "ParamMap::read(std::string&)")],
 [("table_", "name -> value", PM_H)], ["return values of write/read", "bytes of the file on disk"])

prop("C03", "The parameter store behaves as a map over any history, memory failures included",
 "Over any history of setting, reading (scalar and container), clearing, command-line parsing ('-name value' pairs), stream loading and printing, every lookup returns what was last stored under that name; a missing name returns the caller's default, reports that it was missing and registers the default, and a value that cannot be converted yields the caller's default (for a container, the default from the first unconvertible element on) without altering the store. "
 "If memory runs out during an operation, the operation throws or reports failure and every parameter still has its value from before the operation or the value the operation was storing: none disappears, appears with a different value or is altered as a side effect.",
 ["histories", "inputs", "fault_sequences"],
 "for every sequence of operations on one or several stores, every name and value, and every allocation that may fail during them",
 "No existing test touches the parameter store; example-based tests sample a few calls and never fail an allocation.",
 [PM_H, PM_C], [("replace an entry", "ParamMap::setParam, setParamString, read(argc,argv)"), ("lookup with default", "ParamMap::getParam, getParamContainer, getParamContainerInserter")],
 [("table_", "name -> value", PM_H)], ["getParam / getParamContainer results", "write output"])

prop("C04", "Home-directory expansion touches only '~' paths and survives any environment",
 "Expanding home paths replaces the leading '~' or '~/' of exactly those values that are '~' or start with '~/' by the home directory followed by '/', and leaves every other parameter byte for byte as it was, however many parameters are expanded. "
 "With no home directory in the environment nothing is changed and the program keeps running, expanding twice equals expanding once whenever the home directory does not itself begin with a tilde, and memory running out during the expansion leaves every parameter either untouched or completely expanded.",
 ["configurations", "inputs", "fault_sequences"],
 "for every store content, every value of HOME (unset, empty, with or without trailing content, changing between calls) and every allocation that may fail",
 "No test calls the expansion; the defect-prone cases need an unusual environment or memory failure.",
 [PM_H, PM_C], [("tilde expansion", "ParamMap::adaptTildeInPaths")], [("table_", "name -> value", PM_H)], ["parameters after the call"])

prop("C05", "Profiler statistics are exact under any interleaving of its callers",
 "Whatever number of threads record measurements under whatever labels and in whatever order, the printed report shows, for each label that was recorded and only for those, the exact number of recordings, their minimum, maximum, mean and sample variance (zero for a single recording). "
 "A report printed while other threads are recording shows, for every label, values that were all true together at one moment during the call, recording and printing concurrently is free of data races and always terminates, and a recording that fails for lack of memory leaves all statistics as if it had never been attempted.",
 ["schedules", "histories", "fault_sequences"],
 "for every set of threads, labels and measurements, every interleaving at memory-access granularity, and every failing allocation",
 "No test uses the profiler from two threads; the outcome depends on preemption points a test cannot place.",
 [PR_H, PR_C], [("online mean/variance update", "Profiler::updateStat, MeasureStatistic"), ("report", "Profiler::printStats")],
 [("stats_", "label -> running statistics", PR_H)], ["text printed by the report"])

prop("C06", "A scoped timer records exactly the elapsed monotonic time of its scope, once",
 "Each scoped timer adds exactly one measurement to its label when its scope is left, by whatever exit including an exception, equal in milliseconds to the monotonic time between its creation and that exit, regardless of wall-clock steps, stalls, nesting or timers running in other threads; reading its elapsed time at any moment gives the monotonic time since creation and records nothing. "
 "The one-line scope-timing macro measures its whole enclosing scope, and memory running out while a timer records may lose that one measurement but never ends the program.",
 ["schedules", "histories", "fault_sequences"],
 "for every nesting and interleaving of timers in several threads, every evolution of the monotonic and wall clocks (jumps, stalls, leap back of wall time), every exit path and every failing allocation",
 "Existing tests only let timers run against the real clock and never compare what was recorded.",
 [PR_H, PR_C], [("RAII measurement", "ScopedTimer::ScopedTimer, ~ScopedTimer, elapsedTimeMs"), ("scope macro", "ROFL_COMMON_PROFILER_SCOPED_TIMER_HERE")],
 [("timeStart_", "monotonic creation instant", PR_H)], ["report text", "elapsed time value"])

prop("C07", "A stamped name denotes one instant within the call, under any clock",
 "A date-stamped string is the given prefix, the local date and time as YYYYMMDD_HHMM_SS, and the given postfix, verbatim and nothing else, where the stamp is the local rendering, in the time zone in force, of a single wall-clock reading between the start and the end of the call. "
 "This holds for every clock value from the year 1970 to 2259 and every jump, every time zone and daylight-saving change, any number of threads asking for names or other local times at the same time, and every prefix and postfix; if memory runs out the call throws or returns the exact name, never a truncated one.",
 ["schedules", "configurations", "inputs", "fault_sequences"],
 "for every interleaving of concurrent callers, every sequence of clock values including jumps across second, day and DST boundaries, every TZ, every prefix and postfix, and every failing allocation",
 "The only test prints one stamp at the real current time; it cannot place a preemption or a clock jump inside the call.",
 [IO_H, IO_C], [("stamp generation", "generateStampedString")], [], ["returned string"])

prop("C08", "A directory listing returns every regular file exactly once, or throws",
 "Listing a directory appends to the caller's list the full path of every regular file (or link to one) directly inside it that exists throughout the call, each exactly once, no subdirectory, special file or dangling link, and no path that never existed; entries the caller already had are kept and the whole list comes back sorted. "
 "Files appearing or disappearing during the call may or may not be listed, the result does not depend on the order or manner in which the system enumerates entries, and if the directory cannot be opened or read to its end, or an entry cannot be examined, the call throws; memory running out never yields a short list (it may then throw and lose the list).",
 ["histories", "fault_sequences", "configurations"],
 "for every directory content, enumeration order and entry-type reporting, every failing system call or allocation during the enumeration, and every concurrent creation or deletion between its steps",
 "The only test lists one real directory once and checks nothing; it controls neither enumeration order, faults nor concurrent changes.",
 [IO_H, IO_C], [("enumeration and sort", "getDirectoryFiles")], [], ["returned list", "exception"])

prop("C09", "The min-max heap always exposes the true extremes, over any history",
 "After any history of pushes and pops, including duplicates and any strict weak ordering, the heap contains exactly the values pushed and not popped; its top and bottom are a minimum and a maximum of them, its next-top and next-bottom are the second in each direction (the same single value when there is only one), and popping removes exactly one item equivalent to the one shown. "
 "A push that fails, because memory runs out or copying the value throws, leaves the heap as it was.",
 ["histories", "inputs", "fault_sequences"],
 "for every sequence of push, pop-top and pop-bottom, every value multiset and ordering, and every failing allocation or copy",
 "The existing test pushes a fixed list of distinct numbers once and prints the result.",
 ["common/include/rofl/common/min_max_heap.h"], [("sift up/down", "MinMaxHeap::heapUp, heapDownMin, heapDownMax"), ("accessors", "top, bottom, nextTop, nextBottom")],
 [("data_", "implicit binary tree", "common/include/rofl/common/min_max_heap.h")], ["top/bottom/nextTop/nextBottom/size/iteration"])

prop("C10", "The disjoint-set forest always describes the partition the joins imply",
 "After any history of initialisations, additions and joins, two nodes report the same representative exactly when the joins connect them, the representative is a member of its class, each class reports its exact size, the number of sets equals the number of classes, and the listing of representatives gives exactly one node per class. "
 "A join of already joined nodes changes nothing and returns the number of nodes; a query or join with an identifier that is not a node changes nothing and touches no memory outside the structure; and an initialisation or addition that fails for lack of memory leaves the previous partition intact.",
 ["histories", "inputs", "fault_sequences"],
 "for every sequence of operations with any identifiers, valid or not, and every failing allocation",
 "No test uses the structure; its invariants only show over long histories and failures.",
 ["common/include/rofl/common/disjoint_set.h", "common/src/disjoint_set.cpp"], [("union by rank with path compression", "DisjointSet::find, join"), ("set counting", "initSets, makeSet, join")],
 [("nodes_", "parent/rank/size forest", "common/include/rofl/common/disjoint_set.h"), ("setNum_", "number of classes", "common/include/rofl/common/disjoint_set.h")], ["find, size, setNum, parents"])

prop("C11", "Label sets obey set algebra over any history and memory failure",
 "Over any history of insertions, removals, clears, copies and combinations, a label set contains exactly the labels the operations imply: union, intersection and difference (with a set or one label) are the mathematical ones and never modify their operands, equality and inequality hold exactly when the contents agree for operands of any sizes, insertion reports whether the label was already there, and iteration and printing are in ascending order. "
 "An operation that fails for lack of memory throws and leaves every existing set unchanged.",
 ["histories", "inputs", "fault_sequences"],
 "for every history over a family of sets, every label and every failing allocation",
 "The existing test prints a few combinations of two small sets.",
 ["common/include/rofl/common/label_set.h", "common/src/label_set.cpp"], [("set operations", "LabelSet::unionSet, intersectionSet, differenceSet, operator==, insert")],
 [("labels_", "ordered labels", "common/include/rofl/common/label_set.h")], ["membership, size, iteration, print, comparison"])

prop("C12", "Grid cells stay independent and in range through any re-initialisation",
 "After any history of (re-)initialisations (by bounds, centre and window, or min-max corners), writes and fills, each in-domain index tuple addresses its own cell: it reads the value last written to it since the last initialisation, position and index tuple convert into each other one to one over the whole domain, the inside test accepts exactly the domain, and the number of cells is the product of the dimensions. "
 "A re-initialisation that fails for lack of memory leaves the grid exactly as it was, contents included.",
 ["histories", "inputs", "fault_sequences"],
 "for every sequence of initialisations and accesses in 1 to 3 dimensions, with any value type, any bounds, and every failing allocation or value copy",
 "The grid is only exercised indirectly by one detector test with a single initialisation.",
 ["common/include/rofl/common/grid.h", "common/include/rofl/common/interval_indices.h"], [("domain and storage kept in step", "Grid::initBounds, initCenter, initMinMax"), ("index arithmetic", "RasterIndexer, StaticRasterIndexer")],
 [("domain_", "min and dimensions", "common/include/rofl/common/grid.h"), ("data_", "cells", "common/include/rofl/common/grid.h")], ["value, getPos, getIndices, inside, size, dimensions"])

prop("C13", "The Morton tree keeps exactly its items and answers queries in Morton order",
 "After any history of single and bulk insertions and queries, an integer Morton tree holds exactly the inserted items with their coordinates and identifiers (the insertion rank when automatic numbering is asked for, the given identifier otherwise), and a query returns the first item in Morton order that does not precede the query point, or the end, whatever the order of insertions, sorts and copies; the level computed for the items between two positions is the number of low bits in which their coordinates differ. "
 "If a bulk insertion fails part-way, because memory runs out or converting an item throws, the items already in the tree are intact, the items inserted are a prefix of those offered, and later queries are still correct.",
 ["histories", "inputs", "fault_sequences"],
 "for every sequence of insertions, sorts, copies and queries on integer trees of 2 and 3 dimensions with coordinates of any sign and magnitude, and every failing allocation or conversion",
 "The existing test builds one tree once and prints it.",
 ["common/include/rofl/common/morton_tree.h", "common/include/rofl/common/morton_sort.h", "common/src/bit_manip.cpp"], [("lazy sort flag", "MortonTree::insert, findItem, sort"), ("Morton comparison", "MortonTraits::compare")],
 [("ordered_", "items are sorted", "common/include/rofl/common/morton_tree.h"), ("items_", "stored points", "common/include/rofl/common/morton_tree.h")], ["size, iteration, findItem"])

prop("C14", "Hough plane accumulators reflect exactly the points since the last reset",
 "After any history of initialisations, resets and insertions, the Hough transform of the plane detector is the cell-wise sum of what each point inserted since the last initialisation or reset contributes on its own, the Hough spectrum of every direction is the sum of the squares of its transform cells, and points outside the distance range contribute nothing; inserting points in several batches or in another order makes no difference, and inserting through iterators and a converter first discards what was there. "
 "This holds for every histogram size; a re-initialisation that fails for lack of memory leaves the detector as it was, and after an insertion that fails, a reset or re-initialisation makes the detector as good as new.",
 ["histories", "inputs", "fault_sequences"],
 "for every histogram size (including a single direction), every sequence of batches, resets and re-initialisations, and every failing allocation or conversion",
 "The existing test runs one detector once on one synthetic cloud and prints the planes it found.",
 ["geometry/include/rofl/geometry/hough_plane_detector.h", "geometry/src/hough_plane_detector.cpp"], [("accumulation", "HoughPlaneDetector::insert, setZero, init")],
 [("houghTransform_", "3D histogram", "geometry/include/rofl/geometry/hough_plane_detector.h"), ("houghSpectrum_", "derived 2D histogram", "geometry/include/rofl/geometry/hough_plane_detector.h")], ["getHoughTransform, getHoughSpectrum"])

prop("C15", "Association returns exactly the maximum consistent matchings, every time",
 "Associating two item sets returns exactly the largest sets of source-destination pairs that are mutually coherent (every two pairs map two different source items farther apart than the minimum distance to two different destination items whose distance differs from theirs by less than the tolerance), each once and no other. "
 "The answer depends only on the most recently inserted source and destination items and the settings in force: not on earlier inputs or associations of this or any other associator, on an earlier call that failed, nor on how large the search is, and the call always ends.",
 ["histories", "inputs", "fault_sequences"],
 "for every pair of item sets and distance tables, every tolerance and minimum distance, every history of insertions and associations on one or several associators, and every failing allocation or distance evaluation",
 "The only test does not terminate and is excluded from the stable tests; it checks nothing.",
 ["geometry/include/rofl/geometry/correspondence_graph_association.h", "geometry/src/correspondence_graph_association.cpp"], [("correspondence graph and clique search", "associate, executeBronKerbosch"), ("pair distances", "insertSrc, insertDst")],
 [("nodes_", "correspondence graph", "geometry/include/rofl/geometry/correspondence_graph_association.h"), ("distancesSrc_/distancesDst_", "sorted pair distances", "geometry/include/rofl/geometry/correspondence_graph_association.h")], ["returned hypotheses"])

prop("C16", "Re-initialising the PNEBI table is all or nothing",
 "After any history of initialisations and evaluations, the look-up table answers every evaluation exactly as a table freshly built with the parameters of its last successful initialisation; evaluation, for one order or for all orders at once, is consistent between the two forms and never alters the table. Evaluating into a vector that was used before gives the same values as into a new one, with or without the table. "
 "If memory runs out during an initialisation, the call throws and the table answers exactly as before it, its reported maximum order included.",
 ["histories", "fault_sequences", "inputs"],
 "for every sequence of initialisations (maximum order of at least 1, tolerance) and evaluations, and every failing allocation",
 "No test uses the table; all-or-nothing behaviour only shows when an allocation fails.",
 ["common/include/rofl/common/functions.h", "common/src/functions.cpp"], [("table construction", "PnebiLUT::init"), ("interpolation", "PnebiLUT::eval")],
 [("lut_", "sampled points", "common/include/rofl/common/functions.h"), ("orderMax_", "maximum order", "common/include/rofl/common/functions.h")], ["eval, getOrderMax"])

prop("C17", "Callers working on their own objects never affect each other",
 "Every public computation of the library, called from any number of threads on arguments and objects private to each caller, gives each of them exactly the result it gives a lone caller in a fresh process, whatever the other callers do, in whatever order the calls were made before, and wherever the callers are preempted. "
 "No data race and no hidden dependence on earlier calls exists, and every call terminates.",
 ["schedules", "histories", "inputs"],
 "for every mix of library calls in several threads on private data, every interleaving at memory-access granularity, and every history of earlier calls in the process",
 "Every existing test is single-threaded and makes its calls once from a fresh process.",
 ["common/src/bit_manip.cpp", "common/src/functions.cpp", "common/src/io.cpp", "common/src/label_set.cpp", "common/src/disjoint_set.cpp", "common/src/param_map.cpp", "common/src/profiler.cpp", "common/include/rofl/common/peak_finder_d.h", "common/include/rofl/common/interval_indices.h", "common/include/rofl/common/morton_sort.h", "common/include/rofl/common/morton_tree.h", "common/include/rofl/common/tls_scalar_consensus.h", "common/include/rofl/common/min_max_heap.h", "common/include/rofl/common/grid.h", "geometry/src/hough_plane_detector.cpp", "geometry/src/hough_line_detector.cpp", "geometry/src/correspondence_graph_association.cpp", "geometry/src/base_geometry2.cpp", "geometry/src/gis.cpp", "geometry/include/rofl/geometry/box_registration.h"],
 [("absence of shared mutable state", "all library sources; the profiler singleton is the one shared object")],
 [("Profiler singleton", "shared by all callers that time themselves", PR_H)], ["results of every call"])

prop("C18", "Concurrent readers of one unmodified object all get the right answer",
 "Any number of threads may at the same time query one object that nobody modifies, through its read-only operations (grid, heap, label set, parameter printing, Morton tree iteration, PNEBI table, plane detector queries), and every query returns what it returns to a single reader. "
 "Read-only operations leave the object unchanged, contain no data race under any interleaving, and always terminate.",
 ["schedules", "inputs"],
 "for every object content, every mix of read-only operations by several threads, and every interleaving at memory-access granularity",
 "Existing tests never share an object between threads.",
 ["common/include/rofl/common/grid.h", "common/include/rofl/common/min_max_heap.h", "common/include/rofl/common/label_set.h", PM_H, "common/include/rofl/common/morton_tree.h", "common/include/rofl/common/functions.h", "geometry/src/hough_plane_detector.cpp"],
 [("const operations without hidden mutation", "const member functions of the listed classes")], [], ["results of the queries"])

prop("C19", "A peak search reports exactly the window maxima, whatever was searched before",
 "Searching a function over a box of indices reports exactly the cells whose value passes the threshold (when enabled) and is strictly better, in the chosen order, than every other value within the half-window around the cell and inside the box: each once, best first, none missing and none other, appended to the caller's list without touching what it holds. "
 "The answer depends only on the function and on the domain, window and threshold in force: not on earlier settings and searches of this or any other finder, on searches that failed, on how the domain was given, nor on the process it runs in; a search whose value function throws or that runs out of memory throws, may leave only the first peaks of the full answer in the list, and leaves the finder as usable as before.",
 ["histories", "inputs", "fault_sequences"],
 "for every domain in one to three dimensions (including a single cell and thin boxes), every window, order, threshold and function, every sequence of settings and searches, and every failing allocation or evaluation",
 "The existing test searches one small 2D table once and prints what it found; nothing compares the answer with the definition, in any dimension, after a reconfiguration or after a failure.",
 ["common/include/rofl/common/peak_finder_d.h", "common/include/rofl/common/interval_indices.h", "common/include/rofl/common/min_max_heap.h"],
 [("sliding window with a priority queue", "PeakFinderD::detect"), ("unit-step visiting order", "detail::BoustrophedonIndexer::getIndices"), ("box arithmetic", "IntervalIndices::intersect, stacked, translate")],
 [("domain_, iwin_, valueMin_", "search settings", "common/include/rofl/common/peak_finder_d.h")], ["indices appended by detect"])

prop("C20", "Plane and direction searches report exactly the strongest ones accumulated",
 "After any history of initialisations, window settings, resets, insertions and copies, the plane detector reports as directions exactly the cells of its Hough spectrum strictly stronger than every other within the window, strongest first, as parallel planes of a direction exactly the distance cells of the Hough transform strictly stronger than every other within the window, strongest first, and as planes the parallel planes of all reported directions, strongest first; each once. "
 "Asked for normals or plane parameters it reports, for the same cells, the cell's normal and minus the cell's distance, whichever form of the query is used, replacing what the caller's list held. A window given as angles and distance is rounded up to whole cells. "
 "The answers depend only on the ranges, window and points in force (a new detector given the same ones finds the same), and no search, failed or not, alters the detector.",
 ["histories", "inputs", "fault_sequences"],
 "for every histogram size, parameter range, window and point set, every sequence of settings, insertions and searches, and every failing allocation or conversion",
 "The existing test prints the planes of one synthetic cloud from one detector used once.",
 ["geometry/include/rofl/geometry/hough_plane_detector.h", "geometry/src/hough_plane_detector.cpp", "common/include/rofl/common/peak_finder_d.h"],
 [("direction search", "HoughPlaneDetector::findSpectrumMax, findNormalMax"), ("plane search", "HoughPlaneDetector::findParallelPlanes, findPlanes"), ("cell to plane", "HoughPlaneDetector::getPlaneParam"), ("window", "HoughPlaneDetector::setPeakWindow")],
 [("ithetaWin_, iphiWin_, irhoWin_", "suppression window", "geometry/include/rofl/geometry/hough_plane_detector.h")], ["lists filled by the searches", "getPlaneParam"])

prop("C21", "The line detector counts every point once and reports the strongest lines",
 "After any history of initialisations, window settings, resets, insertions and copies, the Hough transform of the line detector counts, for each direction, every point inserted since the last initialisation or reset once, in the cell of its signed distance along that direction (and not at all outside the covered distances), and the spectrum of a direction is the sum of the squares of its counts. "
 "The direction searches report exactly the directions whose spectrum is strictly greater than that of every other within the window, strongest first, as indices, angles or normals of the same directions; the line search reports exactly the distance cells of those directions that are strictly stronger than every other within the window; each once. "
 "A window given as angle and distance is rounded up to whole cells. A failed initialisation leaves the detector as it was; searches and copies alter nothing.",
 ["histories", "inputs", "fault_sequences"],
 "for every number of directions and distances, every parameter range, window and point set, every sequence of settings, insertions, copies and searches, and every failing allocation",
 "The existing tests never insert a point into a line detector.",
 ["geometry/include/rofl/geometry/hough_line_detector.h", "geometry/src/hough_line_detector.cpp", "common/include/rofl/common/peak_finder_d.h", "common/include/rofl/common/grid.h"],
 [("accumulation", "HoughLineDetector::insert"), ("direction search", "HoughLineDetector::findSpectrumIndicesMax, findSpectrumIndexMax, findSpectrumAngleMax, findNormalMax"), ("line search", "HoughLineDetector::findLines"), ("(re-)initialisation", "HoughLineDetector::init, setZero")],
 [("houghTransform_, houghSpectrum_", "accumulators", "geometry/include/rofl/geometry/hough_line_detector.h")], ["getHoughTransform", "getHoughSpectrum", "lists filled by the searches"])

prop("C22", "Aligning a cloud to a plane is the rigid motion its current settings define",
 "After any history of settings, computations and transformations, the plane aligner's computed transformation is a proper rigid motion that takes the normal of the plane in force (turned to look towards the origin) to the axis Z, brings the centre of the input points within the tolerance of the plane onto the axis Z (the origin, if there are none) and keeps heights along the normal; a new aligner given the same cloud, plane and tolerance, in this or another process, computes the same one. "
 "Only computing changes the transformation. Transforming replaces the output by the input cloud moved by it, point by point, with the same shape, the other fields of the points kept and invalid points left invalid, and changes neither the aligner nor (unless the caller passes it as output) the input; a step that runs out of memory throws and leaves the aligner as it was.",
 ["histories", "inputs", "fault_sequences"],
 "for every plane, cloud (empty, organised, with invalid points) and tolerance, every sequence of settings, copies, computations and transformations, and every failing allocation",
 "No existing test uses the aligner.",
 ["pcl/include/rofl/pcl/point_cloud_plane_aligner.h"],
 [("frame of a plane", "PointCloudPlaneAligner::compute"), ("orientation of the normal", "PointCloudPlaneAligner::setPlaneCoeffs"), ("transformation of the cloud", "PointCloudPlaneAligner::transform")],
 [("cloud_, plane_, planeTol_, transform_", "settings and last result", "pcl/include/rofl/pcl/point_cloud_plane_aligner.h")], ["getPlaneCoeffs", "getTransform", "clouds filled by transform"])

prop("C23", "A box registration step is the best rigid motion and never loses ground",
 "Registering a box to a cloud, every step yields a proper rigid motion (no mirroring) that minimises the sum of squared distances between the points and their nearest places on the box before the step, so from step to step the distance of the cloud from the box never grows (beyond rounding), however many steps, from any rigid start. "
 "The start estimated from the cloud is a proper rigid motion at the centre of the points with the axes of the box along their principal axes, longer dimensions along wider spreads (the identity for fewer than two points), and the nearest place reported for a query is a point of the box's surface at the least distance. "
 "The results depend only on the dimensions in force, the cloud and the transformation passed in, not on what the object did before; a start or step that fails (no memory, failing association) throws and leaves the caller's transformation as it was.",
 ["histories", "inputs", "fault_sequences"],
 "for every box in two and three dimensions, every non-empty cloud (including flat, collinear and repeated points), every sequence of dimensions, starts, steps and queries, and every failing allocation or association",
 "No existing test uses the registration.",
 ["geometry/include/rofl/geometry/box_registration.h"],
 [("nearest place on the box", "BoxRegistration::associate"), ("registration step", "BoxRegistration::computeTransform"), ("start", "BoxRegistration::estimateInitTranform"), ("dimensions and their order", "BoxRegistration::setDimension")],
 [("dimensions_, perm_", "box", "geometry/include/rofl/geometry/box_registration.h")], ["transformations and points returned by the calls"])

prop("C24", "Floating-point Morton trees find what they hold, in one total order",
 "After any history of single and bulk insertions, sorts, copies and queries, a Morton tree over float or double coordinates holds exactly the inserted items with their coordinates and identifiers (the insertion rank when automatic numbering is asked for), a query for a point that is in the tree returns an item at that point, and any query returns the first item that does not precede the query point, or the end. "
 "The order is total: no two different points are tied, none precedes itself, and it is transitive; negative zero is zero; for non-negative coordinates it is the exact Morton order (the coordinate whose values differ in the most significant binary digit decides, the first one on ties). "
 "If a bulk insertion fails part-way, the items already in the tree are intact, those inserted are a prefix of those offered, and later queries are still correct.",
 ["histories", "inputs", "fault_sequences"],
 "for every sequence of insertions, sorts, copies and queries on float and double trees of 1 to 3 dimensions with coordinates that are zero or of magnitude 1e-30 to 1e30 and any sign, and every failing allocation or conversion",
 "The existing tests print one comparison and one tree.",
 ["common/include/rofl/common/morton_tree.h", "common/include/rofl/common/morton_sort.h", "common/include/rofl/common/numeric_traits.h", "common/src/bit_manip.cpp"],
 [("Morton comparison of floating-point values", "mortonCmpFloat, xorFloat"), ("lazy sort flag", "MortonTree::insert, findItem, sort"), ("mantissa and exponent", "FloatTraits, IntegerTraits::log2Mod")],
 [("ordered_", "items are sorted", "common/include/rofl/common/morton_tree.h"), ("items_", "stored points", "common/include/rofl/common/morton_tree.h")], ["size, iteration, findItem, MortonTraits::compare"])

prop("C25", "Intervals of indices denote exact cell sets and iterators visit each cell once",
 "Over any history of settings, copies, intersections, stackings and translations, an interval of indices denotes exactly the cells its last setting defines: its bounds, dimensions, size and membership answers agree with that set (an interval with a non-positive dimension is empty, has size zero and no cell), an intersection denotes the common cells, stacking the cells next to the interval along a coordinate, and no operation alters another interval. "
 "A visit from begin to end yields every cell exactly once: in raster order coordinate 0 runs fastest, in boustrophedon order each move changes one coordinate by one and a run is complete before the next coordinate moves; iterators moved forward and backward, prefix or postfix, copied and compared in any mixture denote the cell at their position and are equal exactly when their positions are. "
 "The text of an interval or of indices is complete, or its failure is reported.",
 ["histories", "inputs", "fault_sequences"],
 "for every interval in 1 to 4 dimensions (empty ones included) that fits the index type, every sequence of operations on several intervals and iterators, and every failing allocation",
 "The existing test prints the visits of one small interval.",
 ["common/include/rofl/common/interval_indices.h"],
 [("interval operations", "IntervalIndices::initBounds, initCentered, initMinMax, intersect, stacked, translate"), ("visiting order", "RasterIndexer, BoustrophedonIndexer"), ("iterators", "IntervalIterator"), ("text", "IntervalIndices::print, outIdx")],
 [("min_, dimensions_", "interval", "common/include/rofl/common/interval_indices.h"), ("pos_, indices_", "iterator position", "common/include/rofl/common/interval_indices.h")], ["min, max, first, last, dimensions, size, empty, inside, iterators, printed text"])

prop("C26", "Scalar consensus finds the cheapest agreement, whatever its outputs held before",
 "For any samples with acceptance ranges, the truncated-least-squares consensus is the weighted mean (weights are inverse squared ranges) of one of the sets of samples whose acceptance intervals overlap, and no other such set is cheaper (squared residuals of the set plus the ranges of the samples left out); exactly the samples nearer to it than their range are marked, one mark per sample. "
 "The answer depends on the samples alone: not on the size and contents of the output variables, on earlier calls, or on earlier calls that failed for lack of memory. A consensus of no samples marks nobody and leaves the value as it was, and the samples are never changed.",
 ["histories", "inputs", "fault_sequences"],
 "for every sequence of calls in float and double with reused, stale or new outputs, every set of up to hundreds of samples (endpoints that coincide and zero ranges included), and every failing allocation",
 "The existing test prints one estimate from new outputs.",
 ["common/include/rofl/common/tls_scalar_consensus.h"],
 [("sweep over interval ends", "estimateTranslationTls"), ("inlier marks", "inliers output parameter")],
 [("inliers", "marks in the caller's vector", "common/include/rofl/common/tls_scalar_consensus.h")], ["valueMax, inliers"])

prop("C27", "A request beyond what an object holds is refused, never answered",
 "After any history, failed initialisations included, a request outside what an object currently holds ends the program with a message or throws, without returning an answer and without touching memory that is not the object's: reading or popping an empty heap; a cell, direction, normal or plane of a plane detector, or a cell or direction of a line detector, outside its current size (any coordinate below zero or at or past the end, by either form of the call); an order below zero or not below the maximum order of an initialised look-up table; a grid position past its cells; an axis beyond an interval's dimensions when stacking or translating; a consensus with different numbers of samples and ranges; a peak search over no domain. "
 "Requests within it return.",
 ["histories", "inputs", "fault_sequences"],
 "for every history of initialisations and changes, every failing allocation in them, and every request within or beyond the current contents, up to the ends of the index type",
 "No test makes such a request: it would end the test.",
 ["common/include/rofl/common/min_max_heap.h", "geometry/src/hough_plane_detector.cpp", "geometry/src/hough_line_detector.cpp", "common/src/functions.cpp", "common/include/rofl/common/grid.h", "common/include/rofl/common/interval_indices.h", "common/include/rofl/common/tls_scalar_consensus.h", "common/include/rofl/common/peak_finder_d.h", "common/include/rofl/common/macros.h"],
 [("assertions", "ROFL_ASSERT and its variants"), ("checked access", "Grid::value(pos)")],
 [("thetaNum_, phiNum_, rhoNum_", "current size of a detector", "geometry/src/hough_plane_detector.cpp")], ["exit, exceptions"])

# ---- properties of pure functions: not claimed (see MANIFEST not_applicable) ----
PURE = "Tests sample a few arguments of a function over a huge numeric domain."
prop("C30", "Bit and numeric-trait primitives are exact for every integer",
 "Leading-zero counts, powers of two, interleaving, base-2 logarithm, floor/ceil to powers of two and mid/rounding helpers return the mathematically exact result for every argument of every supported width.",
 ["inputs"], "for every integer of every width", PURE,
 ["common/include/rofl/common/bit_manip.h", "common/src/bit_manip.cpp", "common/include/rofl/common/numeric_traits.h"], [("bit tricks", "bit_manip.cpp")])
prop("C31", "Fast trigonometry and PNEBI evaluation stay within their error bounds",
 "The fast sine/cosine/arctangent approximations, angle normalisation and PNEBI evaluation stay within a fixed error of the exact functions over their whole domain.",
 ["inputs"], "for every floating-point argument", PURE, ["common/include/rofl/common/functions.h", "common/src/functions.cpp"], [("polynomial approximations", "functions.cpp")])
prop("C32", "Cosine and Fourier interval bounds enclose the function",
 "The lower and upper bounds computed on an interval enclose every value of the cosine or Fourier series on it.",
 ["inputs"], "for every interval and coefficient vector", PURE, ["common/src/functions.cpp"], [("interval arithmetic", "findLUCos, findLUFourier")])
prop("C33", "Morton distances and splits are exact",
 "The Morton distance of two points is the level of their smallest common cell, and splitting yields boxes that enclose exactly the points between the ends.",
 ["inputs"], "for all pairs of points", PURE, ["common/include/rofl/common/morton_sort.h"], [("Morton traits", "MortonTraits")])
prop("C34", "Geometric conversions are correct",
 "Geographic conversions, angle/pose helpers and orientation predicates compute the transformation their documentation defines.",
 ["inputs"], "for every geometric input", PURE, ["geometry/include/rofl/geometry/gis.h", "geometry/src/gis.cpp", "geometry/include/rofl/geometry/base_geometry2.h"], [("closed-form geometry", "geometry/")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")

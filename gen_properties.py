#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long lines stay readable)."""
import json, os

def p(id, title, statement, over, text, why, files, mechanism, observe, state=(), hook=None):
    return {
        "id": id, "title": title, "statement": " ".join(statement.split()),
        "quantifier": {"over": over, "text": " ".join(text.split())},
        "why_tests_cant": " ".join(why.split()),
        "anchors": {
            "files": files,
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "mechanism": [{"name": n, "where": w} for n, w in mechanism],
            "observe_at": observe, "hook_needed": hook,
        },
    }

IMG = "src/image.rs"; SW = "src/swatch.rs"
DB = "src/math/clustering/dbscan/algorithm.rs"
KD = "src/math/neighbors/kdtree/mod.rs"; LIN = "src/math/neighbors/linear.rs"
EL = "src/math/neighbors/kdtree/element.rs"; MET = "src/math/distance/metric.rs"
RGBA = "src/color/rgba.rs"; XYZ = "src/color/xyz.rs"; LAB = "src/color/lab.rs"; WP = "src/color/white_point.rs"
NUM = "src/math/number.rs"; PT = "src/math/point.rs"
KM = "src/math/clustering/kmeans/algorithm.rs"; KI = "src/math/clustering/kmeans/init.rs"; KC = "src/math/clustering/kmeans/cluster.rs"
MST = "src/math/graph/spanning_tree.rs"; EDGE = "src/math/graph/edge.rs"
HI = "src/math/clustering/hierarchical/algorithm.rs"; UF = "src/math/clustering/hierarchical/union_find.rs"
CD = "src/math/clustering/hdbscan/core_distance.rs"
EXTRACT = ("ImageData::extract", IMG)
HOOK = "cfg auto_palette_verif: src/verif re-exports of private items"
ONE_IMAGE = "tests/extract.rs runs one PNG and prints the palette without asserting anything; "

P = [
# --- the palette, through the public API -----------------------------------------------------
p("P01", "Extracting a palette never fails on a well-formed image",
  """For every well-formed RGBA image (four bytes per pixel, exactly width times height pixels, including
  the empty image), palette extraction terminates and returns a list in both single and double precision;
  it never panics, whatever the colours and however they are arranged.""",
  ["inputs"], "all RGBA images of all sizes and shapes, both precisions",
  ONE_IMAGE + "failures need particular colour mixtures (for example a group whose mean colour lies outside the sRGB gamut) or shapes.",
  [IMG, DB, RGBA, XYZ, LAB, KD],
  [EXTRACT, ("DBSCAN::fit label state machine; every pixel ends assigned or outlier", DB), ("Rgba::normalize_value", RGBA)],
  ["return value of ImageData::extract"]),
p("P02", "One swatch per group of densely packed similar pixels",
  """Pixels are compared by normalised CIE L*a*b* colour and normalised position; a pixel is dense when at
  least 25 pixels, itself included, lie within distance 0.025 of it. The palette holds exactly one swatch for
  each maximal group of dense pixels linked by such distances; each other pixel within reach of a dense one
  counts towards exactly one of the groups in reach, and all remaining pixels count towards none.""",
  ["inputs"], "all well-formed images, both precisions",
  ONE_IMAGE + "the grouping is only tested on 16 fixed 2-D points, never on pixels, ties, borders or noise.",
  [IMG, DB, KD, LAB, XYZ],
  [EXTRACT, ("DBSCAN::fit / expand_cluster", DB), ("KDTree::search_radius", KD)],
  ["number of swatches and their shares returned by ImageData::extract"],
  [("labels", "per-pixel Undefined/Marked/Outlier/Assigned state", DB)]),
p("P03", "Colour, position and share of a swatch describe the same group",
  """Each swatch's colour is the sRGB value of the mean L*a*b* colour of one group of pixels, its position is the
  mean position of that same group in whole pixels, and its share is the size of that same group over the number
  of pixels in the image. Up to rounding in the chosen precision, no attribute is ever taken from another group.""",
  ["inputs", "schedules"], "all well-formed images with any number of groups, and all hash iteration orders",
  ONE_IMAGE + "mixing up groups needs two or more groups and an unlucky hash iteration order.",
  [IMG, DB, SW],
  [EXTRACT, ("DBSCAN::centroids / count_at share cluster ids", DB)],
  ["fields of each Swatch returned by ImageData::extract"],
  [("centroids, membership", "maps from cluster id to mean and members", DB)]),
p("P04", "Swatch shares are true fractions and the list is sorted by them",
  """Every share is greater than zero and at most one, is a whole number of pixels over the number of pixels in the image,
  all shares together do not exceed one, and the swatches are listed by non-decreasing share.""",
  ["inputs"], "all well-formed images, both precisions",
  ONE_IMAGE + "nothing asserts the order or the sum of shares.",
  [IMG, SW, DB],
  [EXTRACT, ("Ord for Swatch", SW), ("DBSCAN::count_at", DB)],
  ["order and percentage of the swatches"]),
p("P05", "Extraction is a pure function of the image",
  """Extracting a palette from the same image always returns the identical list, swatch for swatch and bit for bit:
  regardless of the process's hash seeds, of which images (in either precision) were processed earlier in the same
  process or thread, including malformed ones on which extraction panicked, of whether the same ImageData was used before, and
  of where the pixel buffer lives. Extraction leaves the pixel buffer unchanged.""",
  ["histories", "schedules", "inputs"], "all histories of extractions and all hash iteration orders of the internal maps",
  "tests run one extraction per process and never compare two; hash seeds are random in every run.",
  [IMG, DB],
  [EXTRACT, ("cluster-id-ordered centroids", DB)],
  ["two results of ImageData::extract compared"],
  [("HashMap iteration order", "environment answer chosen by the process's random keys", DB)]),
p("P06", "Concurrent extractions do not influence each other",
  """Extractions running at the same time in several threads, over the same or over different images, each return
  exactly what they return when run alone, and none of them blocks another forever.""",
  ["schedules"], "all interleavings of two extractions",
  "no test uses a second thread.",
  [IMG, DB, KD],
  [("no shared mutable state; ImageData only borrows the pixels", IMG)],
  ["results of ImageData::extract in each thread"]),
p("P07", "Swatch positions lie inside the image and inside their group",
  """The position of every swatch is a valid pixel coordinate, x below the width and y below the height, and lies,
  up to one pixel of rounding, within the bounding box of the pixels it summarises; x is always the horizontal and y the
  vertical coordinate for every aspect ratio, so transposing the image transposes the positions.""",
  ["inputs"], "all well-formed images of all aspect ratios",
  ONE_IMAGE + "one square-ish image cannot tell rows from columns or reveal overflow on long images.",
  [IMG, DB],
  [EXTRACT], ["position of each swatch"]),
p("P08", "The palette ignores the alpha channel",
  """Two images of equal size which differ only in the alpha values of their pixels have identical palettes.""",
  ["inputs"], "all well-formed images and all assignments of alpha values",
  "the only test image is opaque.",
  [IMG, XYZ, RGBA],
  [EXTRACT, ("From<&Rgba> for XYZ", XYZ)], ["result of ImageData::extract"]),
p("P09", "A uniform image yields exactly its own colour",
  """An image all of whose pixels have the same colour and form one dense group (such as a strip of 500 pixels or a square of
  121 by 121) yields exactly one swatch: that very colour, with share 1, positioned at the centre of the image up to one pixel;
  this holds for each of the 16,777,216 colours. Likewise, in an image with several groups, a group whose pixels all have the same
  colour is shown in exactly that colour.""",
  ["inputs"], "all 24-bit colours, image shapes and both precisions",
  "colour tests cover five colours and never go through clustering.",
  [IMG, RGBA, XYZ, LAB, DB],
  [EXTRACT, ("colour conversions", XYZ), ("centroid mean", DB)], ["result of ImageData::extract"]),
p("P10", "A patch becomes a swatch exactly at the density threshold",
  """A patch of a colour unlike everything around it yields a swatch exactly if one of its pixels has at least 25 patch pixels, itself
  included, within reach; the swatch then counts precisely the patch pixels within reach of such a pixel. An image without any
  such pixel yields an empty palette.""",
  ["inputs"], "all well-formed images around the density threshold",
  ONE_IMAGE + "the threshold itself (24, 25, 26 pixels in reach) is never exercised.",
  [IMG, DB, KD],
  [EXTRACT, ("min_points comparison", DB), ("epsilon comparison", KD)], ["number of swatches"]),
p("P11", "Swatches are ordered by their share",
  """Comparing two swatches puts the one with the smaller share first, whatever their colours and positions; the order is total, the same in both
  directions and by every operator, so that sorting any list of swatches lists shares from least to greatest; two swatches are equal exactly if
  colour, position and share are equal, and equal swatches compare as equal.""",
  ["inputs"], "all pairs and lists of swatches, both precisions",
  "two swatches with far apart shares are compared.",
  [SW], [("Ord, PartialOrd and PartialEq of Swatch", SW)], ["results of comparing and sorting swatches"]),
# --- colour ------------------------------------------------------------------------------------
p("C01", "Colour conversions are lossless for every 24-bit colour",
  """Converting any 24-bit sRGB colour to XYZ and back, or to XYZ, to L*a*b* and back, returns the same colour, in both
  single and double precision.""",
  ["inputs"], "all 16,777,216 colours, both precisions, both chains",
  "tests convert black, white and the three primaries, in one direction at a time, in double precision.",
  [RGBA, XYZ, LAB, WP],
  [("From<&Rgba> for XYZ, From<&Lab> for XYZ", XYZ), ("From<&XYZ> for Lab", LAB), ("From<&XYZ> for Rgba", RGBA)],
  ["conversion results"], hook=HOOK),
p("C02", "Conversions from sRGB agree with the CIE definitions and stay in range",
  """For every 24-bit sRGB colour the XYZ and L*a*b* values agree with the IEC 61966-2-1 and CIE 1976 (D65) definitions to
  within a small fraction of one 8-bit step, ignore alpha, lie within the declared ranges, greys have a* and b* near zero, and
  brightening any channel never lowers luminance or lightness.""",
  ["inputs"], "all 16,777,216 colours, both precisions",
  "five colours are tested against literals recorded from the implementation.",
  [XYZ, LAB, WP, NUM],
  [("sRGB transfer function and matrix", XYZ), ("CIE f function", LAB), ("clamping to declared ranges", XYZ)],
  ["XYZ and L*a*b* values"], hook=HOOK),
p("C03", "Every L*a*b* value converts to a displayable colour",
  """Every L*a*b* value, in or out of gamut, converts to an opaque 24-bit sRGB colour without failing: inside the sRGB gamut the
  result is the correctly rounded colour to within one step per channel, and outside it the channels saturate instead of
  failing or wrapping round. Values outside the declared L*a*b* range are clamped to it first.""",
  ["inputs"], "all L*a*b* values, both precisions",
  "tests only convert values that come from in-gamut colours; averages of colours are often out of gamut.",
  [RGBA, XYZ, LAB],
  [("Rgba::normalize_value", RGBA), ("From<&Lab> for XYZ", XYZ), ("XYZ::new clamping", XYZ)],
  ["converted colour"], hook=HOOK),
p("C04", "XYZ and L*a*b* convert into each other without loss",
  """Every XYZ value in the declared range converts to the L*a*b* value of the CIE 1976 definition, clamped to the declared range of L*a*b*, and back to
  the same XYZ value where nothing had to be clamped, up to rounding; it converts to an opaque sRGB colour, correctly rounded to within one step, whose
  channels saturate out of gamut. Values outside the declared XYZ range are clamped to it first.""",
  ["inputs"], "all XYZ values, in both precisions",
  "a handful of colours.",
  [LAB, XYZ, RGBA, WP], [("From<&XYZ> for Lab", LAB), ("From<&Lab> for XYZ", XYZ), ("From<&XYZ> for Rgba", RGBA), ("normalize_x/y/z", XYZ)],
  ["converted values"], hook=HOOK),
# --- geometry ----------------------------------------------------------------------------------
p("M01", "Points form a vector space and distances are metrics",
  """Point addition, subtraction and scaling act on every coordinate separately in every dimension, the in-place forms agree with
  the by-value forms, and indexing agrees with listing the coordinates. Euclidean distance is symmetric, zero exactly for equal
  points, satisfies the triangle inequality, and is the square root of the squared Euclidean distance, which is the sum of the
  squared coordinate differences.""",
  ["inputs"], "all points of dimension 2, 3 and 5, both precisions",
  "each operator is tested on one or two points; Point5, which extraction uses, is only tested for indexing.",
  [PT, MET],
  [("impl_point macro", PT), ("DistanceMetric::measure", MET)], ["operator results"], hook=HOOK),
p("M02", "Clamping and converting numbers neither wraps nor loses more than it must",
  """Clamping a value to a range gives the value itself inside the range and the nearer bound outside of it, in every number type. Converting a whole number
  gives the same number in every type that can hold it and the nearest one in a floating-point type that cannot; converting between the precisions
  gives the nearest number.""",
  ["inputs"], "all numbers in all number types of the library",
  "a few small values per type.",
  [NUM], [("Clamp", NUM), ("Number and Float conversions", NUM)], ["clamped and converted values"], hook=HOOK),
p("N01", "Radius search returns exactly the points within the radius",
  """For every dataset, query, metric and radius, each search engine returns exactly the points whose distance to the query is at
  most the radius, every such point once, including duplicates and points exactly on the boundary, with its correct distance;
  a negative radius returns nothing. The tree-based and linear engines therefore always agree.""",
  ["inputs"], "all datasets of any size and dimension, all queries and radii, both metrics and precisions",
  "eight points, one query and integer radii above one; pruning errors need particular split planes, scales or ties.",
  [KD, LIN, EL, MET],
  [("KDTree::search_radius pruning", KD), ("LinearSearch::search_radius", LIN), ("KDTree::build_node", KD)],
  ["returned neighbours"],
  [("tree", "every index appears in exactly one node; left and right split at the median on the node's axis", KD)], hook=HOOK),
p("N02", "k-nearest search returns the k nearest points, nearest first",
  """For every dataset, query, metric and k, each search engine returns min(k, n) distinct points in non-decreasing order of distance,
  such that no omitted point is nearer than a returned one, each with its correct distance; nearest-point search returns the
  first of them, or nothing for an empty dataset.""",
  ["inputs"], "all datasets, queries, metrics and k",
  "one query on eight points, k of 0, 1, 2 and 10; pruning with k of two or more on deeper trees is untested.",
  [KD, LIN, EL, MET],
  [("KDTree::search_recursively pruning", KD), ("BinaryHeap of Element", EL), ("LinearSearch::search", LIN)],
  ["returned neighbours"], hook=HOOK),
p("N03", "Answers of a search engine do not depend on earlier queries",
  """Every query of a search engine gets the same answer, bit for bit, as it gets from a new engine over the same dataset: whatever was asked before of this or of
  any other engine in the same process, whichever data lay in the same memory before, and whatever the hash seeds. Queries leave the dataset unchanged.""",
  ["histories", "inputs"], "all sequences of queries of any number of engines",
  "each test asks one engine one question.",
  [KD, LIN, EL], [("search, search_nearest, search_radius", KD), ("LinearSearch", LIN)], ["answers to successive queries"], hook=HOOK),
# --- clustering ----------------------------------------------------------------------------------
p("D01", "Density clustering matches its definition",
  """Density-based clustering of any dataset puts two core points (those with at least the minimum number of points within epsilon,
  themselves included) in the same cluster exactly if they are linked through core points by steps of at most epsilon; each
  non-core point within epsilon of a core point joins exactly one cluster that has such a core point, and every other point,
  and no other, is reported as an outlier.""",
  ["inputs"], "all datasets, minimum counts, radii and both metrics",
  "one dataset of 16 points with one parameter setting and no outliers.",
  [DB, KD, "src/math/clustering/dbscan/label.rs"],
  [("label state machine in fit and expand_cluster", DB)], ["clusters, counts and outliers"],
  [("labels", "Undefined, Marked, Outlier, Assigned", DB)], hook=HOOK),
p("D02", "Cluster sizes and centroids account for every point",
  """Cluster identifiers are consecutive from zero; the reported size and centroid under one identifier belong to the same cluster, the
  centroid is the mean of exactly its members, sizes plus outliers add up to the number of points, and an identifier that does
  not exist has size zero.""",
  ["inputs", "schedules"], "all datasets and parameters, and all hash iteration orders",
  "the only clustering test sorts the centroids and never looks at sizes.",
  [DB], [("centroid accumulation in fit", DB), ("count_at", DB), ("centroids", DB)], ["centroids, counts and outliers"], hook=HOOK),
p("D03", "Density clusters do not depend on the order of the points",
  """Permuting the dataset changes neither the number of clusters, nor which points are outliers, nor how the core points are grouped;
  only a border point within reach of several clusters may change sides.""",
  ["inputs", "histories"], "all datasets and all permutations of them",
  "one dataset in one order.",
  [DB, KD], [("expand_cluster", DB)], ["clusters and outliers before and after permuting"], hook=HOOK),
p("D04", "Density clustering is a function of the dataset and its parameters",
  """Clustering the same dataset with the same parameters always gives the same identifiers, sizes, centroids and outliers, bit for bit: whatever was
  clustered before in the same process, whichever data lay in the same memory before, and whatever the hash seeds. The dataset is left unchanged.""",
  ["histories", "inputs"], "all sequences of clusterings, all hash seeds",
  "each test clusters once; hash seeds differ from run to run and no test compares runs.",
  [DB, KD], [("DBSCAN::fit", DB), ("hash maps of centroids and members", DB)], ["centroids, sizes and outliers of successive runs"], hook=HOOK),
p("K01", "Initial centroids are k distinct members of the dataset",
  """For every sequence of random draws, initialisation with k below the number of points picks k different elements of the dataset, so no
  datum is picked more often than it occurs; with k of zero it picks none and with k at least the number of points it picks all.
  No element is out of reach: with random initialisation some draws lead to every selection of k elements, and with k-means++ any
  element can be the first.""",
  ["inputs", "schedules"], "all datasets, k, both strategies and all outcomes of the random generator",
  "one dataset, k = 2, unseeded generator, and only the number of centroids is asserted.",
  [KI], [("selected flags", KI)], ["initial centroids"],
  [("selected", "which indices were picked", KI)], hook=HOOK),
p("K02", "Farthest-first seeding always takes a farthest remaining point",
  """With the k-means++ strategy, whatever the first random pick, every further centroid is a not yet chosen point whose distance to the nearest
  centroid chosen before it is the greatest possible.""",
  ["inputs", "schedules"], "all datasets, k, metrics and first picks",
  "only the number of centroids is asserted.",
  [KI, MET], [("max_by over min_by of distances", KI)], ["order and values of the initial centroids"], hook=HOOK),
p("K03", "k-means moves by Lloyd steps and stops only when settled",
  """Every iteration assigns each point to a nearest centroid and moves each centroid to the mean of its points; a centroid without points stays
  where it was. Iteration ends at the iteration limit or when every centroid has moved less than the tolerance in the chosen metric, not before, and not later.""",
  ["inputs", "histories", "schedules"], "all datasets, seeds, k, tolerances, iteration limits and metrics",
  "the only test discards the fitted result.",
  [KM, KC, KD], [("reassign", KM), ("convergence flag", KM), ("Cluster::update_centroid", KC)], ["centroids and sizes for successive iteration limits"],
  [("clusters", "centroid and members", KC)], hook=HOOK),
p("K04", "k-means accounts for every point and stays within the data",
  """After at least one iteration the sizes of the clusters add up to the number of points, there are exactly k clusters, and every
  centroid lies within the range of the data in every coordinate; the sum of squared distances to the nearest centroid never increases
  from one iteration to the next.""",
  ["inputs", "histories", "schedules"], "all datasets, seeds, k and iteration limits",
  "the only test discards the fitted result.",
  [KM, KC, KI], [("reassign", KM), ("Cluster", KC)], ["centroids and sizes"], hook=HOOK),
p("K05", "k-means with as many clusters as points reproduces the points",
  """When k is at least the number of points, every point is its own cluster of size one whose centroid is that point; when k is
  zero there are no clusters.""",
  ["inputs"], "all datasets and k",
  "no test has k at or above the number of points.",
  [KM, KC, KI], [("k >= dataset.len() branch of fit", KM)], ["centroids and sizes"], hook=HOOK),
p("K06", "k-means is a function of the dataset, its parameters and the draws",
  """Initialising and clustering the same dataset with the same parameters and the same sequence of random draws always gives the same centroids and sizes in
  the same order, bit for bit: whatever was clustered before in the same process, whichever data lay in the same memory before, and whatever the
  hash seeds. The dataset is left unchanged.""",
  ["histories", "inputs", "schedules"], "all sequences of runs, all draws and hash seeds",
  "the only test discards the fitted result.",
  [KM, KI, KC], [("Kmeans::fit", KM), ("Initializer::initialize", KI), ("hash set of children", KC)], ["centroids and sizes of successive runs"], hook=HOOK),
p("G01", "The spanning tree connects everything at minimum total weight",
  """For every symmetric weighting of the complete graph, the tree has one edge fewer than there are vertices, connects all of them without cycles,
  reports each edge with its true weight, reports a total equal to the sum of its edges, and no spanning tree weighs less.""",
  ["inputs"], "all weightings of complete graphs, including ties, zero and negative weights",
  "one graph with four vertices.",
  [MST, EDGE], [("Prim's loop with attached set and candidate heap", MST), ("reversed Ord", EDGE)], ["weight and edges"], hook=HOOK),
p("G02", "The spanning tree is a function of the weights",
  """Building the tree for the same weights always gives the same edges in the same order and the same total, bit for bit, also when several trees are minimal:
  whatever was built before in the same process, whichever data lay in the same memory before, and whatever the hash seeds.""",
  ["histories", "inputs"], "all sequences of weightings, all hash seeds",
  "one graph is built once.",
  [MST, EDGE], [("MinimumSpanningTree::build", MST), ("attached hash set", MST)], ["edges and weight of successive runs"], hook=HOOK),
p("H01", "Cutting the hierarchy into k parts is single-linkage clustering",
  """For every dataset and every k from one to the number of points, the cut labels each point exactly once with labels zero to k-1, all used; no division
  into k parts has its nearest two parts farther apart, and inside each part all points are linked by steps no longer than that separation.""",
  ["inputs"], "all symmetric weightings and all k",
  "one dataset of six points.",
  [HI, MST, UF], [("partition", HI), ("bfs", HI)], ["labels"], hook=HOOK),
p("H02", "The hierarchy is a proper tree of ascending merges and its cuts nest",
  """Merges happen in non-decreasing order of weight, every point and every earlier merge is used in exactly one later merge, recorded sizes equal the number
  of points below, each merge weight is the smallest distance between its two sides, and the parts of a finer cut are subsets of the parts of every coarser cut.""",
  ["inputs"], "all symmetric weightings and all k",
  "one dataset of six points.",
  [HI, UF, MST], [("fit", HI), ("UnionFind", UF)], ["merges and labels"], hook=HOOK),
p("H03", "The hierarchy is a function of the weights and cutting it changes nothing",
  """Building the hierarchy for the same weights always gives the same merges, and cutting it into k parts the same labels, bit for bit: whichever cuts of it were
  made before, whatever was built before in the same process, whichever data lay in the same memory before, and whatever the hash seeds.""",
  ["histories", "inputs"], "all sequences of cuts of all hierarchies, all hash seeds",
  "one hierarchy is cut a few times.",
  [HI, UF, MST], [("partition", HI), ("fit", HI)], ["merges and labels of successive runs"], hook=HOOK),
p("U01", "Union-find tracks merged groups through every sequence of operations",
  """After every sequence of finds and unions of distinct groups, two elements have the same representative exactly if they have been merged, a union reports
  the total size of the merged group and creates the next consecutive representative, and finding never changes what later operations return.""",
  ["histories"], "all sequences of finds and unions",
  "two short hand-written sequences.",
  [UF], [("find with path compression", UF), ("union", UF)], ["results of find and union"],
  [("parent, size, next_label", "the forest", UF)], hook=HOOK),
p("S01", "Core distances are distances to the right neighbour",
  """For every dataset, the core distance of a point is the distance to its m-th nearest other point for the minimum sample count m, or to the
  farthest other point when there are fewer than m others; duplicates count as separate points at distance zero.""",
  ["inputs"], "all datasets, m and metrics",
  "one dataset of six points with one m.",
  [CD, KD], [("CoreDistance::new", CD), ("KDTree::search", KD)], ["core distances"], hook=HOOK),
p("S02", "Core distances are a function of the dataset and the parameters",
  """Core distances of the same dataset with the same parameters are always the same, bit for bit: whatever was computed before in the same process,
  whichever data lay in the same memory before, and whatever the hash seeds. The dataset is left unchanged.""",
  ["histories", "inputs"], "all sequences of computations, all hash seeds",
  "one dataset, once.",
  [CD, KD], [("CoreDistance::new", CD)], ["core distances of successive runs"], hook=HOOK),
]
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))

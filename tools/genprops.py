#!/usr/bin/env python3-vt
# Source of properties.jsonl (run by hand after editing; the checks never run it).
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
RT="rtree.go"
rtstate=[("root/size/height","tree of nodes, object count, depth","rtree.go"),("entries[].bb","cached box of everything below an entry","rtree.go"),("node.parent","back pointer used when boxes are adjusted","rtree.go")]
SEAM="generated build overlay (no change in /repo): yield points before every statement, time/rand/sync routed to the simulator"
p("C01","Spatial index answers exactly its contents under any history",
 "After any history of building (incrementally or in bulk), inserting, upserting, deleting and rebuilding, through any mix of clients, a box search returns exactly the stored objects whose bounding box touches or overlaps the query box (each once, with its ID, properties and geometry as stored; a conditional search additionally applies the caller's condition), lookup by ID returns exactly the stored objects with that ID (even without a single point), and the reported size is the number stored. Every operation completes without panicking, including on an index that deletes have emptied, and deleting one object removes exactly one stored object equal to it and reports whether there was one.",
 ["histories","schedules","configurations"],
 "every sequence of client operations and every order in which clients take turns, every child-count configuration with max>=2 and 1<=min<=max/2 (and the defaults), all twelve geometry types (bounding boxes are taken in the x,y plane) with finite coordinates below 1e9 in magnitude, duplicates and shared IDs allowed",
 "two tests insert five points, delete one and print the results; none asserts an answer, none splits more than one node, deletes across levels, or inserts after a bulk load.",
 [RT,"box.go"],[("Insert/insert/chooseNode/split/adjustTree",RT),("bulkLoad/omt",RT),("Delete*/findLeaf/condenseTree",RT),("searchIntersectWithCond",RT)],
 ["SearchIntersect","SearchIntersectWithCond","SearchBySpatialID","Size","Delete"],rtstate,SEAM)
p("C02","Nearest-neighbour queries return the k nearest under any history",
 "At any point of any history of inserts, bulk builds, upserts and deletes, asking for the k nearest objects to a point returns min(k, size) distinct stored objects, in non-decreasing order of the distance from the point to their bounding boxes, and no stored object that was left out is nearer than one that was returned. k may be zero or exceed the number stored.",
 ["histories","schedules","configurations"],
 "every operation history and client turn order as for C01, every k>=0, every query point",
 "no test calls the nearest-neighbour query at all; pruning errors need a particular tree shape, which depends on the whole history.",
 [RT],[("NearestNeighbors/nearestNeighbors/insertNearest",RT),("minDist, pruneEntriesMinDist, sortPreallocEntries",RT)],["NearestNeighbors"],rtstate,SEAM)
p("C03","Deleting and upserting by ID has exact, replay-safe effect",
 "Deleting by ID removes every stored object with that ID and nothing else, wherever the objects lie, and reports true exactly when there was at least one; upserting a batch leaves, for each ID in it, exactly one stored object, the last one given, and leaves other IDs alone. Hence delivering the same deletes and upserts again, in the same order, any number of times (at-least-once delivery) ends in the same contents.",
 ["histories","fault_sequences","configurations"],
 "every delivery history of upsert and delete messages, duplicated and re-delivered after crashes of the sender, over indexes that may already hold several objects with one ID",
 "the one delete-by-ID test has unique IDs and one leaf; objects that share an ID and sit in different leaves, and re-delivery, are never tried.",
 [RT],[("DeleteBySpatialID",RT),("UpsertBySpatialID",RT),("DeleteWithComparator/findLeaf",RT)],["DeleteBySpatialID","UpsertBySpatialID","SearchBySpatialID","Size"],rtstate,SEAM)
p("C04","IDs generated by the index are unique whatever the clock does",
 "All objects that enter one index with an index-generated ID (given at construction or on insertion) carry pairwise different, non-empty IDs for the whole life of the index, so looking one up by its ID finds only it and deleting by its ID removes only it. This holds when the wall clock is coarse, stands still, or jumps forwards or backwards, and when objects are deleted and re-inserted in between.",
 ["histories","fault_sequences"],
 "every clock behaviour (granularity, stalls, backward and forward jumps, readings that repeat or precede earlier ones) combined with every history of inserts and deletes",
 "no test inserts with generated IDs, and a test cannot make the real clock return the same or an earlier reading on demand.",
 [RT],[("NewRandomIDTree",RT),("InsertWithRandomId",RT)],["NewRandomIDTree","InsertWithRandomId","SearchIntersect","SearchBySpatialID","DeleteBySpatialID"],[("generated ID","clock reading plus discriminator",RT)],SEAM)
p("C05","An interrupted index operation leaves the index as it was",
 "If the caller-supplied condition of a search or the comparator of a delete panics, or ends its goroutine, at any evaluation, the index afterwards still answers every query, and accepts every update, exactly as if that operation had never been started; a delete whose condition failed removes nothing.",
 ["crash_points","histories","schedules"],
 "every evaluation of the condition as the failing one, in every reachable index state, with other queries in progress",
 "no test passes a failing condition or interrupts a query; the interruption point is chosen inside the call.",
 [RT],[("SearchIntersectWithCond",RT),("DeleteWithComparator (decides before it mutates)",RT),("NearestNeighbors (per-call buffers)",RT)],["SearchIntersectWithCond","DeleteWithComparator","all queries afterwards"],rtstate,SEAM)
p("C06","Concurrent queries on one index do not disturb each other",
 "Any number of queries (box searches with or without condition, ID lookups, nearest-neighbour queries, size, depth and box listings) running at the same time on one index that nobody is updating each return what they would return alone, and leave the index unchanged; updates made to other indexes meanwhile have no influence. No query reads or writes memory in a way that races with another.",
 ["schedules","histories"],
 "every interleaving, statement by statement, of two or more queries on a shared index reached by any update history, with other indexes being updated in parallel",
 "all tests are single-threaded; a shared buffer or lazily adjusted node gives wrong answers only under particular interleavings.",
 [RT,"box.go"],[("queries keep all scratch state per call",RT),("results slices are fresh per call",RT)],["SearchIntersect","SearchIntersectWithCond","SearchBySpatialID","NearestNeighbors","GetAllBoundingBoxes"],rtstate,SEAM)
p("C07","Measuring and relating shared geometries is safe under concurrency",
 "Any number of callers may at the same time measure, validate, relate, bound, buffer or tag (distance, length, area, centroid, angle, azimuth, point-in-polygon, segment/line/polygon relations, Hausdorff distance, bounding box, self-intersection, validity, SRID tagging) the same geometries: each call gives, bit for bit, the result it gives alone on a private copy, whatever was computed before or meanwhile, none changes any caller's geometry (nor the memory beyond its end), none crashes the others, and no two of them race. No such call on a valid geometry panics.",
 ["schedules","histories","inputs"],
 "every interleaving, statement by statement, of two or more such calls on shared or overlapping geometries, and every preceding call history",
 "tests call each function once, alone, on one input, and print the result.",
 ["calcaulation.go","relation.go","contain.go","box.go","angle.go","point.go","lineString.go","linearRing.go","polygon.go","buffer.go","vector.go","srid.go"],[("functions without package-level state","calcaulation.go, relation.go, contain.go"),("SridMap","srid.go")],["return values, panics, and the argument geometries afterwards"],[("SridMap","process-wide SRID tags","srid.go")],SEAM)
p("C08","Deriving a geometry never alters its source or its siblings",
 "Computing a convex hull, minimum rotated bounding rectangle, simplification, rotation, ring closure or centroid of a line, split, buffer, or S2 covering leaves every caller-visible geometry, including others that share its storage, exactly as it was, so repeating the derivation or running several at the same time on shared geometry gives the same results as running each alone. Hulls, rectangles, simplified lines, rotated geometries and split halves are independent: editing the source, a result, or the other half afterwards changes none of the rest. No such call on a valid geometry panics.",
 ["schedules","histories","inputs"],
 "every interleaving of derivations on shared geometry and of later edits by the owners of the source and of the results",
 "tests derive once from a throw-away geometry and never look at the source again.",
 ["convexhull.go","mbr.go","simplify.go","calcaulation.go","lineString.go","linearRing.go","googleS2.go","buffer.go"],[("ConvexHull (sorts points)","convexhull.go"),("DouglasPeuckerSimplify (removes points)","simplify.go"),("S2RegionCoverer (orients the ring)","googleS2.go"),("SplitByIndex","lineString.go"),("NewRingFromLine (closes the ring)","linearRing.go")],["source, sibling and result geometries after each step"],None,SEAM)
p("C09","Encoding and decoding are safe under concurrency",
 "Any number of callers may at the same time encode the same geometries, features and feature collections to WKT and GeoJSON, and decode the same documents: each call gives the bytes or the geometry it gives alone, no call changes the object or document it was given, decoded objects share no memory with the document or with one another, and no two calls race.",
 ["schedules","histories","inputs"],
 "every interleaving, statement by statement, of two or more encode and decode calls on shared values, and every preceding call history",
 "codec tests are single-threaded and use one value per test.",
 ["wkt/encode.go","wkt/decode.go","geojson/geojson.go","geojson/feature.go","geojson/feature_collection.go","geojson/properties.go"],[("Encode/Decode keep state per call","wkt/"),("MarshalJSON copies before filling defaults","geojson/feature.go, feature_collection.go"),("UnmarshalGeo builds fresh geometry","geojson/geojson.go")],["returned bytes and geometries; arguments afterwards"],None,SEAM)
p("C10","Acknowledged GeoJSON features survive crashes unchanged",
 "A program that writes features and feature collections as GeoJSON to storage, syncs, and acknowledges, reads every acknowledged document back after any crash, short read or failed write with the same ID, bounding box, CRS, properties (typed accessors and their defaults answer as before) and geometry: coordinates in x,y[,z] order with every number bit-equal, ring and part structure intact, for all twelve geometry types on writing and for points, lines and polygons with or without Z when decoded back to geometry. A program that reads such a document, sets a property, the ID or (of a point, line or polygon) the computed bounding box, and writes it again keeps everything else. A document whose write did not complete is either entirely readable or reported as an error, never as a different feature.",
 ["crash_points","fault_sequences","histories","inputs"],
 "every crash point between and inside the writes and syncs of documents, torn tail, short-read pattern, write error and re-open sequence, over features with every geometry type (non-empty, finite coordinates, closed rings), any JSON properties, IDs that are strings or numbers; whole numbers up to 2^53",
 "tests marshal a point feature and unmarshal literal documents; none writes through a storage that can fail, and no polygon, line, multi-geometry or Z geometry goes both ways.",
 ["geojson/geojson.go","geojson/feature.go","geojson/feature_collection.go","geojson/properties.go"],[("MarshalGeo/Convert*","geojson/geojson.go"),("UnmarshalGeo/inter2*","geojson/geojson.go"),("Feature.MarshalJSON, FeatureCollection.MarshalJSON","geojson/"),("SetBoundingBox","geojson/feature.go")],["bytes on the simulated disk; UnmarshalFeature, UnmarshalFeatureCollection, UnmarshalGeo, Property*"],None,SEAM)
p("C11","Acknowledged WKT geometries survive crashes unchanged",
 "A program that writes geometries as WKT to storage, syncs, and acknowledges, decodes every acknowledged document after any crash, short read or failed write to a geometry of the same type with the same parts, rings and points in the same order and every coordinate bit-equal, for points, multipoints, lines, multilines, polygons (with holes) and multipolygons, with or without Z, and again after the decoded geometry is written in its turn. A document whose write did not complete is reported as an error, never decoded to a smaller or different geometry.",
 ["crash_points","fault_sequences","histories","inputs"],
 "every crash point between and inside writes and syncs, torn tail, short-read pattern and write error, over every geometry type with one or more parts, rings and points, closed rings, and finite coordinates",
 "the tests decode one multipolygon and ignore the outcome; nothing compares a decoded geometry with the encoded one, and truncated text is never tried.",
 ["wkt/encode.go","wkt/decode.go"],[("Encode and *ToWktString","wkt/encode.go"),("Decode and *FromWKT","wkt/decode.go")],["bytes on the simulated disk; wkt.Decode"],None,SEAM)
p("C12","Damaged GeoJSON never crashes the reader nor yields half a geometry",
 "Decoding a GeoJSON feature, feature collection or geometry from storage or a network that truncated, corrupted, duplicated, swapped or spliced bytes or JSON values anywhere either fails with an error or yields a complete geometry of the type the document names (every position in the document present, of that dimension), and never panics, hangs or returns neither geometry nor error.",
 ["fault_sequences","inputs"],
 "every damage (flipped, lost, inserted, repeated or spliced bytes, and well-formed JSON with missing, null, nested, mistyped or mixed-dimension values, and positions of other than two or three numbers) at every place of every document",
 "the tests decode only well-formed documents.",
 ["geojson/geojson.go","geojson/feature.go","geojson/feature_collection.go"],[("UnmarshalGeo and its type assertions","geojson/geojson.go"),("UnmarshalFeature*","geojson/")],["UnmarshalFeature, UnmarshalFeatureCollection, UnmarshalGeo"],None,SEAM)
p("C13","Damaged WKT never crashes the reader nor yields half a geometry",
 "Decoding WKT that storage or a network truncated, corrupted, duplicated, swapped or spliced anywhere either fails with an error or yields a geometry of the type the text names that contains every coordinate tuple of the text, and never panics, hangs or returns neither geometry nor error; in particular no proper prefix of an encoded document decodes successfully, and text with unbalanced parentheses, a wrong number of coordinates in a tuple, mixed dimensions, or anything but numbers and separators between its parentheses is refused.",
 ["fault_sequences","inputs"],
 "every damage (flipped, lost, inserted, repeated or spliced bytes or tokens) at every place of every encoded geometry",
 "the tests decode only well-formed text.",
 ["wkt/decode.go"],[("Decode and *FromWKT","wkt/decode.go")],["wkt.Decode"],None,SEAM)
p("C14","Grid lookups and coordinate conversions keep no state between callers",
 "Geohash and S2 lookups (encode, centre, boundary, neighbours), datum conversions between WGS84, GCJ02 and BD09, UTM conversions and destination-point computations, called any number of times by any number of concurrent callers, return for the same arguments always the same results (bit for bit, errors included), independent of earlier and concurrent calls, hand every caller its own memory, and never race.",
 ["schedules","histories"],
 "every interleaving, statement by statement, of two or more calls with equal and different arguments (failing ones included), and every preceding call history",
 "tests call each once.",
 ["geohash.go","googleS2.go","lonlat.go","utm.go","point.go"],[("pure functions over constant tables","utm.go, lonlat.go"),("fresh result slices","geohash.go, googleS2.go")],["return values"],[("zoneLetters and series coefficients","package variables read by every call","utm.go")],SEAM)
p("C15","Editing histories behave like list edits, and failed edits change nothing",
 "Any history of appending, setting, inserting, deleting, reversing and reading points of a line by its owner has on the line exactly the effect of the same edits on a list (setting or inserting at position = length extends it by exactly one point); an edit at a position the line does not have (negative ones included) reports an error, and an edit that reports an error leaves the line unchanged; appending points, rings, polygons and features to multipoints, polygons, multipolygons and feature collections likewise adds exactly that element. Owners of different lines, polygons, multi-geometries or features built from the same points with the constructors never see each other's edits, however their steps interleave.",
 ["histories","schedules"],
 "every sequence of edits at every non-negative position (out-of-range ones included), by several owners interleaved statement by statement",
 "no test edits a line after building it.",
 ["lineString.go","lineStringZ.go","multipoint.go","multipointZ.go","polygon.go","polygonZ.go","geojson/feature_collection.go","geojson/properties.go"],[("InsertPoint/SetPoint/DelPoint/Append/Reverse","lineString.go"),("New* constructors copy their arguments","lineString.go, linearRing.go, multipoint.go")],["GetPointSet, GetPoint, GetPointCount, GetFirstPoint, GetEndPoint, IsPoint..."],None,SEAM)
p("C16","A geo service recovers and converges through crashes and bad networks",
 "A service that keeps features durably as GeoJSON or WKT documents, serves box, ID and nearest queries from an index, and ships updates to replicas answers, after any crash and restart that rebuilds the index in bulk from the durable documents and replays later updates, exactly from its acknowledged updates (an update in flight at the crash applied completely or not at all). Once faults stop, every replica that has received all updates, with whatever loss, re-delivery and reordering in between, gives the same answers as every other within a bounded number of steps.",
 ["crash_points","fault_sequences","schedules","histories"],
 "every placement of crashes (between events and at I/O steps), lost disks, torn and failing writes, message loss, duplication, reordering, delay and partition in every history of single and batched updates",
 "no test combines index, codecs and persistence; the failures need a bulk-loaded index that is then updated, or a decoded geometry that differs subtly from the encoded one.",
 [RT,"geojson/feature.go","geojson/geojson.go","wkt/decode.go","wkt/encode.go","box.go"],[("bulkLoad then Insert/UpsertBySpatialID",RT),("codecs round trip","wkt/, geojson/")],["index queries on every node, documents on every simulated disk"],rtstate,SEAM)
p("C17","The index's own account of its structure stays exact",
 "At any point of any history, the reported depth is at least one, every bounding box the index lists is tight (each of its four sides touches a stored object's bounding box, and it contains at least one stored object), every stored object lies inside at least depth minus one of the listed boxes, an index of depth one lists none, changing a listed box changes nothing in the index, and each operation takes a number of steps bounded by a fixed polynomial in the number of objects and the child limit.",
 ["histories","schedules","configurations"],
 "every operation history and configuration as for C01",
 "no test looks at depth or boxes; boxes go stale only after particular splits, deletes and re-insertions, and stale boxes do not show in small searches.",
 [RT],[("adjustTree/computeBoundingBox/condenseTree",RT),("GetAllBoundingBoxes/Depth",RT)],["GetAllBoundingBoxes","Depth"],rtstate,SEAM)
p("C18","Long service accumulates nothing",
 "However many calls a process makes, in whatever order, by however many callers, and however they end (with a result, an error, or a panic of the caller's own condition), the memory the library keeps for itself and the goroutines it leaves behind stay below a bound that does not depend on the number of calls; and the memory of an index stays bounded by the most objects it held at once (and its child limit), however many inserts, upserts, deletes and queries it has served.",
 ["histories","schedules","configurations"],
 "every sequence of calls of any length, with arguments that never repeat, failing calls and interrupted queries included",
 "no test makes more than a handful of calls, and none looks at memory or goroutines; what leaks shows after thousands of requests, or only when a call fails.",
 [RT,"srid.go","geohash.go","googleS2.go","utm.go","wkt/decode.go","wkt/encode.go","geojson/geojson.go","geojson/feature.go"],[("package-level variables",'srid.go, rtree.go (randomIDCount), utm.go, geojson/, wkt/'),("entries of removed objects and nodes",RT)],["live memory and waiting goroutines between phases of requests"],rtstate,SEAM)
pure="pure function"
def n(id,title,statement,qtext,why,files,mech):
    p(id,title,statement,["inputs"],qtext,why,files,mech,["return values"])
n("C20","Distances, lengths, areas, angles and centroids are numerically right","Distance, length, area, angle, azimuth and centroid functions return the mathematically defined value within floating-point error for every valid input.","every valid geometry","tests print single values without asserting",["calcaulation.go","point.go","angle.go","vector.go"],[("formulas","calcaulation.go")])
n("C21","Spatial relations agree with the nine-intersection model","Point, segment, line and polygon relations classify every pair of valid geometries as exact geometry would.","every pair of valid geometries","tests log results for one polygon",["relation.go","contain.go"],[("ray casting, segment tests","contain.go, relation.go")])
n("C22","Hull, rectangle and simplification are geometrically correct","The convex hull is convex and contains its input, the rotated rectangle is minimal and contains it, and a simplified line stays within the threshold of the original and keeps its end points.","every point set, line and threshold","tests print one result",["convexhull.go","mbr.go","simplify.go"],[("Graham scan, rotation, Douglas-Peucker","convexhull.go, mbr.go, simplify.go")])
n("C23","Datum and UTM conversions invert each other within tolerance","Converting a coordinate and converting it back returns the original within the stated accuracy over the whole supported domain.","every coordinate in the supported domain","one conversion is logged",["lonlat.go","utm.go"],[("series formulas","utm.go, lonlat.go")])
n("C24","Grid cells contain the points they were computed from","The geohash or S2 cell computed for a point contains it, its neighbours touch it, and a region covering covers the region.","every point, level and polygon","single cells are logged",["geohash.go","googleS2.go"],[("delegation to libraries","geohash.go, googleS2.go")])
n("C25","Bounding boxes are exact","The bounding box of a geometry is the smallest box containing its points, for every geometry type.","every geometry","one box is printed",["box.go"],[("calBox/BoundingBox","box.go")])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
open(out,"w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,s)
print(len(P))

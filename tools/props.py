#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the properties, in one reviewable place)."""
import json, os
L = "internal/logument/logument.go"; T = "internal/tson/tson.go"; S = "internal/tson/serialization.go"
P = "internal/tsonpatch/tsonpatch.go"; V = "internal/vssgen/vss.go"; VA = "internal/vssgen/args.go"
J = "exp/tjson.go"; SC = "exp/scenario.go"; EX = "exp/exp_scenario.go"; UT = "exp/utils_temporal.go"; W = "web_demo.go"
out = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    out.append({"id": id, "title": title, "statement": statement,
                "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

LGSTATE = [("Version", "the list of version numbers"), ("Patches", "the recorded changes of each version"),
           ("PatchPool", "changes stored but not yet appended"), ("Snapshots", "the initial and the cached snapshots"),
           ("CurrentState", "the state including pending changes")]

prop("C01", "Each append records the pending changes as exactly one new version",
 "Appending while changes are pending creates exactly one version, numbered one above the latest, that holds exactly the changes stored or set since the previous append in the order they were given; appending with nothing pending changes nothing. No later store, append, set, compaction-free query or slice ever alters, reorders, duplicates or loses a change already recorded, and versions stay contiguous.",
 ["histories"], "every sequence of create, store (all accepted forms), set, test-and-set, append and query operations on a document, including long ones with many versions",
 "The tests run one fixed store/append sequence; the claim is about every history, including buffer growth shared between pool and versions.",
 [L], [("Store accumulates the pool, Append moves it to the next version", L)], LGSTATE)
prop("C02", "A version snapshot is the initial document with all changes up to it",
 "The snapshot of a version equals the initial document with the recorded changes of every version from the first up to that version applied in order. This holds whatever snapshots, slices, tracks, histories or appends were done before, in whatever order, so asking again for the same version always gives the same document.",
 ["histories"], "every history of recorded changes and every order and repetition of queries on it",
 "Cached snapshots make the result depend on the query order; tests take one or two snapshots of a two-version document.",
 [L, P], [("Snapshot starts from the nearest cached snapshot and replays the versions after it", L)], LGSTATE)
prop("C03", "Queries have no side effects on documents or on the caller's data",
 "Snapshots, slices, tracks, histories and value lookups change neither what any other query on the document reports afterwards nor the initial document, patches or buffers the caller passed in, apart from time-based snapshots and slices first appending pending changes. Later changes the caller makes to a patch list it stored, and later operations on a slice, do not show through in the document, nor do later operations on the document show through in results already returned.",
 ["histories"], "every pair of a history and a query, every follow-up query or change, and every patch list reused by the caller",
 "Aliasing between results, caches and the history is only visible in a later, different operation; tests look at one result each.",
 [L, P], [("patches are applied to copies; queries build new maps and slices", P)], LGSTATE)
prop("C04", "A temporal snapshot holds exactly the changes up to the given time",
 "The snapshot at a time is the initial document with exactly the recorded and pending changes whose timestamp is at or before that time, applied in timestamp order, changes with equal timestamps in the order they were recorded. It does not depend on how the changes were split into versions or on any query made before.",
 ["histories", "inputs"], "every history with timestamps in any order, equal timestamps across and within versions, and every query time including both extremes",
 "Tests use increasing timestamps and one query time; the claim quantifies over orderings, ties, batch splits and cutoffs.",
 [L], [("TemporalSnapshot collects, stably sorts and applies patches up to the time", L)], LGSTATE)
prop("C05", "Tracking a version range reports every value change in it and nothing else",
 "Tracking a version range reports, per version of the range, the changes recorded in it, in recorded order, leaving out only a change that sets a path to the value that the last reported change of the same path within the range already gave it. Applying the reported changes to the state before the range therefore gives the values of the last version of the range.",
 ["histories", "inputs"], "every history, including removals and re-additions, different spellings of the same path and equal values in different numeric forms, and every version range",
 "Tests track one range with one repeated value; redundancy depends on the whole sequence of operations per path.",
 [L], [("Track drops re-assertions by the last value seen per path", L)], LGSTATE)
prop("C06", "Tracking a time window reports every value change in it and nothing else",
 "Tracking a time window reports, per version, exactly the changes recorded with a timestamp inside the closed window, in recorded order, leaving out only a change that sets a path to the value the last reported change of the same path in the window already gave it. Versions without a reported change do not appear with changes, and pending changes are not reported.",
 ["histories", "inputs"], "every history with any timestamps and every window, including empty ones and ones bounded by a change's own timestamp",
 "Tests use one window; boundaries, out-of-order timestamps and redundancy across versions need every window of every history.",
 [L], [("TemporalTrack filters by timestamp and drops re-assertions", L)], LGSTATE)
prop("C07", "A version slice is a working document for exactly its version range",
 "Slicing a version range gives a document whose versions are exactly those of the range, whose snapshot at every version of the range equals that of the original document, and whose tracked and recorded changes after the first version equal those of the original. It can be appended to, queried and sliced again as any document, and starts with no pending changes.",
 ["histories", "inputs"], "every history, every version range, every earlier query on the original and every follow-up operation on the slice, slices of slices included",
 "Tests look at the maps of one slice; being a document means every later operation works on it.",
 [L], [("Slice copies versions, snapshots and patches of the range", L)], LGSTATE)
prop("C08", "A temporal slice is a working document for exactly its time window",
 "Slicing a time window gives a document that starts from the state just before the window, keeps exactly the changes with a timestamp inside the closed window, and whose temporal snapshot at every time inside the window equals that of the original document. It has contiguous versions, its current state is the original's state at the end of the window, and it can be appended to, queried and sliced again as any document.",
 ["histories", "inputs"], "every history with timestamps in any order, every window and every follow-up operation on the slice",
 "Tests look at the maps of one slice; equality with the original must hold at every time of every window.",
 [L], [("TemporalSlice takes the state before the window and the changes inside it", L)], LGSTATE)
prop("C09", "The current state and set operations stay in step with the recorded changes",
 "The current state always equals the initial document with all appended and pending changes applied in the order they were given; a set adds exactly its change to the pending changes and fails without any effect when it cannot be applied. A test-and-set replacement adds exactly one change when the value at the path is different or missing, and no change at all when it is equal in value, whatever its timestamp.",
 ["histories", "inputs"], "every sequence of store, set, test-and-set and append operations, over all value types, numeric forms, paths inside objects and arrays, and failing operations",
 "Tests set one value on one document; the claim needs every interleaving of pending, appended and tested changes.",
 [L, T], [("Set and Store apply to CurrentState; TestSet compares with it", L)], LGSTATE)
prop("C10", "Compaction drops only redundant changes of the target path",
 "Compacting a path removes from the history exactly those changes at or below that path that set a path to the value it was already given by the previous recorded change of that path with no removal in between, and nothing else. The versions and the value of every snapshot taken afterwards stay the same, other paths are untouched, and compacting again changes nothing.",
 ["histories", "inputs"], "every history with time-ordered changes and every target path, including paths that share a textual prefix, escaped keys, array elements and the whole document",
 "Tests compact one path of one document; prefix confusion and removals between equal values need every combination.",
 [L], [("Compact compares each change with the last value of its path", L)], LGSTATE)
prop("C11", "The history of a path lists its value changes in order",
 "The history of a target path lists, for every path at or below it that was changed, the initial value first if it existed in the first snapshot, followed by the recorded changes of that path in version order without those that merely set the value it already had. No other path appears, and no change at or below the target is missing.",
 ["histories", "inputs"], "every history with time-ordered changes and every target path",
 "Tests ask for one history with two versions; order and completeness need many versions and paths that resemble each other.",
 [L], [("History compacts a copy and collects matching patches per path", L)], LGSTATE)
prop("C12", "Serializing a document as text and parsing it gives the same document",
 "For every document, parsing its text serialization, plain or indented, with any whitespace indentation, gives back exactly the same document: every key, value, value type, order of array elements, null and timestamp (a missing timestamp stays missing).",
 ["inputs"], "every document over objects, arrays, strings of valid UTF-8, finite numbers, booleans and nulls, with timestamps that are absent or any non-negative 64-bit number, at every nesting",
 "The round-trip test covers one document; escapes, exponents, large timestamps, nulls, empty containers and nestings need enumeration.",
 [S], [("Marshal, MarshalIndent and Unmarshal", S)])
prop("C13", "The parser accepts exactly well-formed documents and always terminates",
 "For every byte sequence parsing terminates with either a document or an error, never a crash. Text following the documented grammar, with any whitespace between tokens and timestamps after keys, before array elements or after values, is accepted with exactly the values and timestamps written, and text that is truncated, has unbalanced or missing delimiters, or has anything but whitespace after the value is rejected.",
 ["inputs"], "every byte sequence, in particular all token sequences of the grammar and all truncations and single-byte damages of valid texts",
 "Tests parse a handful of valid texts and almost no invalid ones.",
 [S, "README.md"], [("recursive-descent parser", S)])
prop("C14", "Conversions between timestamped and plain JSON keep all data",
 "Converting a document to the JSON form that keeps timestamps and back gives the same document, and converting it to plain JSON gives exactly its keys, array order, values and nulls without timestamps. Converting plain JSON to a document and back gives equal JSON with every leaf marked as having no timestamp, never modifies the JSON value given, and the sorted form carries the same data as the unsorted one.",
 ["inputs"], "every document and every JSON value, including top-level primitives, nulls, empty containers, nested arrays, large timestamps and keys named like the leaf fields",
 "Tests convert one sample document.",
 [T], [("ToCompatibleTsonBytes, FromCompatibleTsonBytes, ToJson, FromJson and variants", T)])
prop("C15", "Equality and latest-timestamp answers are exact",
 "Two documents are equal exactly when they have the same structure, values and timestamps, and equal without timestamps exactly when they have the same structure and values; both answers are symmetric and neither changes its arguments. The latest timestamp of a document is the largest timestamp of any leaf in it, and never below zero for an object or array.",
 ["inputs"], "every pair of documents, in particular every pair that differs in exactly one place, however small or deeply nested the difference",
 "Tests compare one equal and one different pair.",
 [T], [("Equal, EqualWithoutTimestamp, GetLatestTimestamp", T)])
prop("C16", "Looking up a path returns exactly the value it denotes",
 "A path starting with a slash is a JSON Pointer and any other path is separated by dots or slashes; looking it up returns exactly the value reached by following its unescaped elements through object keys and array indices, the empty path being the whole document. A path that does not lead to a value gives an error, never a value or a crash, and looking up never changes the document.",
 ["inputs"], "every document and path, including keys with slashes, tildes, dots, digits, empty keys and non-ASCII, escape sequences next to each other, and indices out of range or not numeric",
 "Tests look up two simple paths.",
 [T], [("SplitPath and GetValue", T)])
prop("C17", "Applying a change sets or removes exactly its target",
 "Applying an add or replace gives the value and the change's timestamp to exactly the addressed element, creating missing parents, a remove deletes exactly that element, and every other value and timestamp stays as it was; a patch applies its changes in order. The document given is never modified, an impossible or unsupported change gives an error and no document, and nothing ever crashes.",
 ["inputs", "histories"], "every document, every operation kind, path and value type, at every depth in objects and arrays, and every sequence of operations in a patch",
 "Tests apply one patch; positions inside nested arrays, missing parents, escaped keys, errors and sharing need enumeration.",
 [P, T], [("ApplyPatch, ApplyOperation, applyTraverse", P)])
prop("C18", "A generated patch reproduces the other document's values, with no extra change",
 "For two documents between which a patch can express the difference, applying the generated patch to the first gives a document with exactly the keys, structure and values of the second, and every changed or added leaf has the second's timestamp. The patch contains no change for a leaf whose value is the same in both, at most one change per path, is empty when the values are equal, and otherwise generation reports an error instead of a wrong patch; neither document is modified.",
 ["inputs"], "every pair of documents over objects, arrays of equal and different length, leaves of all types and nulls, and every order in which keys may be visited",
 "Tests compare one pair of flat documents; array shifts, type changes, key escapes and visiting order need enumeration.",
 [P], [("GeneratePatch, diff, compareArray", P)])
prop("C19", "A generated patch with timestamps reproduces the other document exactly",
 "For two documents between which a patch can express the difference, applying the patch generated with timestamps to the first gives exactly the second document, values and timestamps alike. The patch contains exactly one change per leaf whose value or timestamp differs, none for a leaf that is the same in both, is empty exactly when the documents are equal, and otherwise generation reports an error.",
 ["inputs"], "every pair of documents over objects, arrays, leaves of all types and nulls, and every order in which keys may be visited",
 "Not covered by any existing test beyond dataset generation.",
 [P], [("GeneratePatchWithTimestamp", P)])
prop("C20", "Patches survive being written as JSON and read back",
 "Every patch or operation written as JSON by any of the provided writers is valid JSON, and reading it back gives the same operations in the same order with the same path, value and timestamp. A document to which the patch that was read back is applied equals one to which the original was applied.",
 ["inputs"], "every patch over all operation kinds, paths with any characters, string values with any valid UTF-8 (quotes, control characters, HTML), numbers in any form, booleans and 64-bit timestamps",
 "Tests print one simple operation.",
 [P], [("Operation.String, Operation.Marshal, Patch.String, Unmarshal, FromJson", P)])
prop("C21", "Generated dataset files form a replayable chain per car",
 "In a generated dataset every file parses, and applying a file's patch to the previous document of the same car gives exactly the file's document, values and timestamps, with one change for each leaf that differs and the first patch file holding the initial document. With change rate and maintain rate zero single-valued leaves never change, with change rate one every one of them is given a new value and time, and with maintain rate one every one keeps its value and gets the new time.",
 ["configurations", "inputs", "schedules"], "every catalog of supported signal types, numbers of cars and files, rates, every outcome of the random choices, and any clock readings",
 "Tests generate files with live randomness and check none of the contents.",
 [V, VA], [("VssJson.Generate, GenerateNext, Save; vssgen.Generate", V)])
prop("C22", "Independent documents can be used concurrently without interfering",
 "Operations on different documents running at the same time, each document being used by one caller at a time, behave exactly as if run alone and never race on shared memory, even when the documents were created from the same initial document or patch list. The same holds for parsing, serializing, applying and generating patches on the same unchanging inputs.",
 ["schedules"], "every interleaving of two or more callers each performing a short sequence of operations on its own document",
 "No test uses more than one goroutine, and interference through shared package state or shared structure shows only under particular interleavings.",
 [L, T, S, P], [("no package-level mutable state; documents are copied on write", P)])
prop("C23", "Temporal documents built for comparison answer as the recorded changes say",
 "A temporal document built from changes reports at every time, for each path, the value given by the latest change of that path at or before that time, and nothing for a path not yet set or removed. Tracking a path over a window reports, in time order, exactly the values in effect at some time of the window, and searching events reports the start times of those that meet the condition.",
 ["histories", "inputs"], "every list of add, replace and remove changes of plain-valued paths with non-negative timestamps in any order, and every query time and window",
 "There are no tests in this package.",
 [J], [("FromTSONPatches, TemporalSnapshot, TemporalTrack, FindEvents", J)])
prop("C24", "The driving scenario switches exactly on its battery and cooldown rules",
 "In the mixed scenario the state changes from urban traffic to charging exactly when the battery is at or below 10 percent, and from charging back to the scenario before it exactly when the battery is at or above 99.95 percent, never within 60 seconds of the previous switch, and a switch is reported exactly when it happens. Each update takes over the vehicle's battery level, and a switch records its time and gives every signal the behaviour of the new scenario.",
 ["histories", "inputs"], "every sequence of battery levels and times, including values at, just below and just above the thresholds and the cooldown",
 "There are no tests in this package; thresholds and cooldown need sequences of several updates.",
 [SC], [("UpdateScenarioState, updateAllSensorPatterns", SC)])
prop("C25", "The simulation's documents, patches and counts agree with each other",
 "For every simulated scenario, applying all recorded timestamped changes to the saved initial document gives the values of the saved final document, each recorded change really changes its value, and the plain-JSON patches applied to the initial document give the final one. The reported counts are consistent: updates are value changes plus timestamp-only changes, and the patch counts equal the numbers of patches written.",
 ["configurations", "schedules"], "every scenario, every outcome of the random choices (explored by extremes), and every order in which signals are visited",
 "There are no tests in this package.",
 [EX, "exp/utils.go", SC, "exp/doc_data_save.go"], [("runRealisticExperiment and its document updates", EX)])
prop("C26", "The web demo serves the state after the requested patches",
 "For every car and patch number of the generated dataset, the patch endpoint returns the initial document with the patch files up to that number applied, which equals the dataset's document of that number, and the update endpoint returns the initial document or the requested patch file unchanged. Requests do not influence later requests.",
 ["inputs", "histories"], "every car, every patch number including none, and every order of requests",
 "There are no tests of the web demo.",
 [W, VA], [("patchHandler, updateHandler", W)])
prop("C27", "Generated dataset values conform to the signal catalog",
 "Every leaf of a generated document belongs to a signal of the catalog, at the place the catalog gives it, and its value has the signal's type: a boolean, one of the allowed values, a whole number for integer types, never negative for unsigned ones, a number within 0 to 100 for percentages, a string, or a non-empty list of those. With size one every signal of the catalog with a supported type is present, with size zero none, and this also holds for every later document of the chain.",
 ["configurations", "inputs"], "every catalog of supported signal types and every outcome of the random choices",
 "Tests generate one file with live randomness and do not look inside.",
 [V], [("Generate, GenerateNext, LeafNodes", V)])
prop("C28", "The comparison experiment answers from exactly the changes it was given",
 "For every initial document and list of recorded changes, the comparison experiment's document answers every time-based snapshot with the initial values changed by the changes up to that time, the result files hold exactly the answers of the two engines, and its event search reports exactly the change times inside the window at which the value exceeds the threshold. The caller's list of changes is left as it was.",
 ["histories", "inputs"], "every list of changes with non-decreasing timestamps, query times, windows and thresholds",
 "There are no tests in this package.",
 [UT, J], [("NewTemporalQueryExperiment and its Run methods", UT)])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in out:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(out))

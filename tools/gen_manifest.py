#!/usr/bin/env python3
# Generates /verif/MANIFEST.json: a property is claimed when mc/props registers it.
import json,re,glob,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src="".join(open(f).read() for f in glob.glob(V+"/mc/props/*.go"))
reg=set(re.findall(r'Prop\{ID: "(C\d\d)"',src))
GEN="The real code is driven (no model stands in for it); every case of the listed finite spaces is run and compared with an independent reference that is self-tested against the published examples of the standard. Trusted: that reference, the Go toolchain, and math/big. Inputs outside the bounds are not covered."
note={
"C17":"Every schedule of the listed pairs and triples of calls up to the preemption bound is executed on the real code, to which scheduling points are added in a temporary copy made from the current sources; every schedule's results are compared with those of each call alone, and a second build reports data races of the same schedules. Trusted: the instrumenter, the scheduler, the race detector, the Go toolchain. More preemptions, more threads and the standard library's inside are not covered."
}
tech={
"C01":"exhaustive exploration of all write sequences within bounds against a reference digest",
"C02":"explicit-state exploration of all operation histories of one and two hashers against a reference machine",
"C03":"exhaustive enumeration of keys, blocks, buffer layouts and call histories within bounds against a table-free reference",
"C04":"exhaustive enumeration of lengths, keys, IVs and layouts within bounds against the mode definitions",
"C05":"exhaustive enumeration of all lengths, block sizes and slice layouts within bounds",
"C06":"exhaustive exploration of random-source behaviours and raw encodings against reference curve arithmetic",
"C07":"exhaustive exploration of all keys, hashes and nonce sequences on small curves and boundary cases on the SM2 curve, real code",
"C08":"exhaustive enumeration of the full (key, hash, r, s) space on small curves and boundary cases on the SM2 curve, real code",
"C09":"exhaustive enumeration of integers and byte strings within bounds against a strict DER model",
"C10":"exhaustive exploration of all keys and nonce sequences on small curves, lengths and boundary cases on the SM2 curve, real code",
"C11":"exhaustive enumeration of all edits, truncations, points and keys within bounds against the reference decryption",
"C12":"exhaustive enumeration of coordinates, lengths and byte strings within bounds against a DER model",
"C13":"exhaustive enumeration of all key quadruples on small curves, identities and key lengths, real code against a reference run",
"C14":"exhaustive exploration of all single deviations of protocol runs, real code",
"C15":"fault enumeration and exhaustive exploration of all random-source outputs on small curves, real code",
"C16":"exhaustive exploration of all call sequences up to a depth against isolated runs in fresh processes",
"C17":"stateless exploration of all schedules up to a preemption bound under a controlled scheduler, real code",
"C18":"exhaustive enumeration of template combinations against an independent decoder",
"C19":"exhaustive enumeration of all single-byte changes, truncations, extensions and substitutions",
"C20":"exhaustive enumeration of template combinations against an independent decoder and encoder model",
"C21":"exhaustive enumeration of all edits and structural replacements of valid inputs and all short strings",
"C22":"exhaustive enumeration of all strings up to a length over a syntax alphabet against a grammar model",
"C23":"exhaustive enumeration of values and encodings within bounds against a DER model",
"C24":"exhaustive enumeration of byte strings and read sequences within bounds against a reader model",
"C25":"exhaustive enumeration of builder programs within bounds against an interpreter model",
"C27":"exhaustive enumeration of points, pairs, coordinates and scalars of small curves and boundary cases of the SM2 curve against the group law",
"C26":"exhaustive enumeration of documents over all forms of each field and extension, from an independent encoder, against what it encoded",
}
ids=[json.loads(l)["id"] for l in open(V+"/properties.jsonl")]
m={"version":1,"setup_cmd":"bin/setup","checks":[],"not_applicable":[],
"notes":"Every check builds the explorer in /verif/mc against /repo's working tree (module replacement) into a temporary directory. No hooks in /repo: random sources are replaced through crypto/rand.Reader, small curves come in through the curve parameters carried by keys, and for C17 scheduling points are added to a temporary copy of the sources."}
for i in ids:
    if i in reg:
        m["checks"].append({"property":i,"quick_cmd":f"bin/check {i} quick","thorough_cmd":f"bin/check {i} thorough","technique":"model checking: "+tech[i],"level":"model_checking","level_note":note.get(i,GEN)})
    else:
        m["not_applicable"].append({"property":i,"reason":"check not built yet"})
open(V+"/MANIFEST.json","w").write(json.dumps(m,indent=1)+"\n")
print(len(m["checks"]),"claimed",[x["property"] for x in m["not_applicable"]])

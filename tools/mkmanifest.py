#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json,os
here=os.path.join(os.path.dirname(__file__),'..')
T={
"C01":("generative fuzzing of inputs, readers and modes against a liveness/no-panic oracle","generated hostile inputs; a hang means 25 s of CPU in one case (usual: under 10 ms), reproduced by a replay in a fresh process"),
"C02":("generative fuzzing against an automaton of the documented event grammar","valid and malformed generated texts in both modes"),
"C03":("differential property test between readers and random read schedules","str reader is the reference for byte slice and io::Read readers"),
"C04":("differential property test of lazy against eager processing over evaluation orders","eager processing is the reference"),
"C05":("structured generation of block trees written together with their events","oracle by construction"),
"C06":("structured generation of flow trees written together with their events","oracle by construction"),
"C07":("structured generation of trees with omitted nodes written together with their events","oracle by construction"),
"C08":("piecewise generation of double quoted scalars against an independent decoder","oracle by construction"),
"C09":("piecewise generation of single quoted scalars against an independent decoder","oracle by construction"),
"C10":("piecewise generation of plain scalars against an independent decoder","oracle by construction"),
"C11":("generated block scalar bodies against a line based reference model","independent reference model"),
"C12":("generated block scalar headers and bodies against a line based reference model","independent reference model"),
"C13":("structured generation of document streams written together with their events","oracle by construction"),
"C14":("structured generation of documents with directives written together with their events","oracle by construction, and injected faults"),
"C15":("structured generation of tagged trees written together with their events","oracle by construction, and undeclared handles"),
"C16":("structured generation of trees with anchors and aliases written together with their events","oracle by construction"),
"C17":("metamorphic property test: two layouts of one tree","equality of events"),
"C18":("metamorphic property test: line break forms exchanged","equality of events"),
"C19":("metamorphic property test over histories of documents: concatenation against separate runs","each document's separate run is the reference"),
"C20":("fault injection into generated documents, rejection oracle","faults that are certain by construction"),
"C21":("fault injection into generated read schedules","fault free run is the reference; the payload is identified"),
"C22":("ill formed byte injection under generated read schedules","std's UTF-8 validation and the valid prefix are the reference"),
"C23":("differential and invariant property test of event positions","range, order and equality between readers and modes"),
"C24":("stateful property test: histories of keeping, cloning and evaluating events","the events as first produced are the reference; addresses for borrowing"),
"C25":("stateful property test: histories of iterator use against one plain iteration","an uninterrupted run is the reference"),
"C26":("boundary value generation of keys around the limit","oracle by construction"),
"C27":("generation of scaled up documents written together with their events","oracle by construction"),
"C28":("stateful property test under a counting allocator: histories of use of generated, malformed and scaled inputs","nothing is held afterwards; bytes held and allocated at one size bound those at six times the size"),
"C29":("property test over malformed texts, faults of tables, cut quoted scalars, bytes that are not UTF-8 and failing sources","expected categories by construction; errors of all readers and modes compared; conversion to io::Error"),
"C30":("stateful property test: histories of cloning, changing, comparing and printing events obtained in two ways","a model of each event that is changed alongside; equality of models"),
"C31":("metamorphic property test: generated units, tokens and nestings repeated n and 8n times","the processor time of the second is less than 3.5 x 8 times that of the first (5 x 8 for a single token from a byte source), in the best of up to eight measurements"),
}
ids=[json.loads(l)["id"] for l in open(here+'/properties.jsonl')]
assert sorted(T)==sorted(ids)
m={"version":1,"setup_cmd":"bash check.sh build","checks":[
 {"property":i,"quick_cmd":"bash check.sh run %s"%i,"thorough_cmd":"VERIF_TIER=thorough bash check.sh run %s"%i,
  "technique":"property-based testing: "+T[i][0],"level":"exploration",
  "level_note":"Random exploration, fixed work per tier, failures shrunk to a replay file; oracle: "+T[i][1]+". No claim beyond the cases generated."} for i in ids],
 "not_applicable":[],
 "notes":"No hooks: the checks use yary's public API only. Repaired defects are listed in known-findings.txt."}
json.dump(m,open(here+'/MANIFEST.json','w'),indent=1); open(here+'/MANIFEST.json','a').write('\n')

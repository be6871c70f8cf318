#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json,os
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
model="model-based property testing: random templates, fonts, images and operation histories, saved files read by an independent reader and compared with a reference model, shrinking"
tech={
"C13":"property-based testing of random passwords and permissions against an independent implementation of the standard security handler",
"C14":"differential property testing: decrypted protected file against the unprotected file of the same random history",
"C15":"metamorphic property testing of random histories: with and without saves, repeats and queries",
"C16":"metamorphic and model-based property testing: random histories split by save and reopen",
"C17":"structure-aware random mutation fuzzing of templates; oracle: no panic, hang or memory blow-up, and saved files hold what was opened",
"C18":"mutation fuzzing of fonts, images and arguments; metamorphic oracle: history with and without the failing calls",
"C19":"random schedules of histories on several documents, differential oracle against solo runs, under the race detector",
"C20":"differential property testing: render calls against the insertions they stand for",
"C21":"property-based testing against a reference splitter",
"C24":"fault injection at enumerated read and write offsets over random histories; differential oracle against the fault-free run",
"C25":"property-based testing of generated and real fonts against an independent TrueType reader",
"C26":"metamorphic property testing: arguments compared and scribbled over after each call",
"C28":"property-based testing of generated fonts and maps; the written definition parsed and compared with an independent TrueType reader",
"C23":"model-based property testing of random drawing calls, compiled files read by an independent reader and interpreter",
}
checks=[]
for l in open(os.path.join(root,"properties.jsonl")):
    p=json.loads(l); i=p["id"]
    checks.append({"property":i,"quick_cmd":f"bash check.sh {i} quick","thorough_cmd":f"bash check.sh {i} thorough",
      "technique":tech.get(i,model),"level":"fault_enumeration" if i=="C24" else "exploration",
      "level_note":"Generated-input search with an explicit oracle: evidence of absence only up to the cases generated (counts in the evidence file). Trusts the independent PDF reader, content interpreter, TrueType and image code and the models in /verif/harness; inputs outside the domain stated in DESIGN.md are not covered."})
m={"version":1,"setup_cmd":"bash setup.sh","checks":checks,"not_applicable":[]}
json.dump(m,open(os.path.join(root,"MANIFEST.json"),"w"),indent=1,ensure_ascii=False)
open(os.path.join(root,"MANIFEST.json"),"a").write("\n")

import json,sys
T={
"C01":"property-based testing: generated laws spelled by an independent reference writer, which is the oracle",
"C02":"property-based testing: round trip over generated laws",
"C03":"property-based testing: differential against an independent reference vocabulary of the schema",
"C04":"metamorphic property-based testing over XML spellings of generated documents",
"C05":"fuzzing: structured mutation of documents and bytes, crash, overflow and CPU-time oracle",
"C06":"property-based testing with fault injection: one defect placed in a generated valid document",
"C07":"property-based testing with fault injection in sinks and files",
"C08":"property-based testing and bounded exhaustive enumeration of strings against a reference notation",
"C09":"property-based testing and enumeration against a reference notation",
"C10":"property-based testing and enumeration against a reference notation for sixteen label styles",
"C11":"property-based testing: differential against a walk over the reference tree",
"C12":"property-based testing: differential against a walk over the reference tree",
"C13":"property-based testing: differential against a walk over the reference tree",
"C14":"property-based testing: texts generated from a model tree, which is the oracle",
"C15":"fuzzing: grammar-based and mutated texts, crash, overflow and CPU-time oracle",
"C16":"property-based testing: conservation invariant over generated line sequences",
"C17":"property-based testing: JSON round trip over generated laws",
"C18":"stateful property-based testing: call histories against the same calls alone in a fresh process",
"C19":"property-based testing: round trip over laws structured from generated texts",
"C20":"exhaustive enumeration of dates and generated dates against a reference calendar",
}
N="Random search over a documented generator: it shows the property on the cases generated, not on all of them."
checks=[{"property":k,"quick_cmd":f"./check.sh {k} quick","thorough_cmd":f"./check.sh {k} thorough","evidence_file":f"evidence/{k}.json","technique":v,"level":"exploration","level_note":N} for k,v in sorted(T.items())]
na=[{"property":f"C{i:02}","reason":"check under construction"} for i in range(1,21) if f"C{i:02}" not in T]
json.dump({"version":1,"setup_cmd":"./check.sh build","checks":checks,"not_applicable":na,"notes":"No hooks: everything is checked through the public API. Defects repaired by fix: commits are listed in KNOWN_FINDINGS.txt."},open("/verif/MANIFEST.json","w"),ensure_ascii=False,indent=1)

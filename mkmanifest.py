#!/usr/bin/env python3
# Regenerates MANIFEST.json (run by hand when the list of checks changes).
import json
T={
"C01":"property-based testing: random schemas and objects, generated encoders of 9 targets against a reference bit codec",
"C02":"property-based testing: round trip of random objects of random schemas through each target's own encoder and decoder",
"C03":"property-based testing: random messages of random schemas decoded by 9 targets against a reference codec",
"C04":"property-based testing: size queries and static sizes of random schemas and messages against a reference codec",
"C05":"property-based testing: every truncation point of random messages, exact-size buffers under AddressSanitizer",
"C06":"metamorphic property-based testing: random option combinations against the defaults on random schemas and cases",
"C07":"property-based testing: random accessor expressions and setter histories against an expression evaluator",
"C08":"property-based testing with injected faults: corrupted constants in messages of random schemas",
"C09":"metamorphic property-based testing: single-field changes of objects and messages of random schemas",
"C10":"metamorphic property-based testing: encoding over complementary buffers, decoding into used objects",
"C11":"property-based testing: overwriting the source buffer after decoding random messages",
"C12":"metamorphic property-based testing: schemas with embedded structs against their inlined form",
"C13":"property-based testing: random enum declarations, member values read back from every target",
"C14":"grammar-based generation: random valid schemas, and each with one rule broken, against the documented rules",
"C15":"fuzzing: mutated, spliced and random schema files and options, exit status and panics as oracle",
"C16":"metamorphic property-based testing: schemas split over random import graphs against the unsplit schema; faulty graphs",
"C17":"metamorphic property-based testing: repeated runs, trivia edits and invocation contexts against byte-equal output",
"C18":"property-based testing: output trees of random packages and options against a path model",
"C19":"property-based testing: random schemas and option combinations compiled with each language's toolchain",
"C20":"property-based testing: equal and one-leaf-different object pairs of random schemas",
"C22":"fuzzing with a reference decoder: messages with unusual lengths, edited messages and random bytes under AddressSanitizer",
"C23":"fault injection: random outputs blocked or cut by a file length limit, against an undisturbed run",
"C21":"stateful property-based testing: random setter histories against a model object",
}
import os,re
have=set(re.findall(r'checks\["(C\d\d)"\]', ''.join(open('harness/'+f).read() for f in os.listdir('harness') if f.endswith('.go'))))
m={"version":1,"setup_cmd":"cd harness && go vet ./... >/dev/null 2>&1; go build -o /dev/null .","checks":[]}
for i in sorted(T):
    if i not in have: continue
    m["checks"].append({"property":i,"quick_cmd":f"./run.sh {i} quick","thorough_cmd":f"./run.sh {i} thorough","technique":T[i],"level":"exploration",
      "level_note":"generated-input search with an explicit oracle and shrinking; shows absence of failures only on what was generated (counts in the evidence file)"})
m["not_applicable"]=[{"property":i,"reason":"check not built yet"} for i in sorted(T) if i not in have]
open('MANIFEST.json','w').write(json.dumps(m,indent=1)+'\n')

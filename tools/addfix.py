"""addfix.py PROPERTY COMMIT WHAT : record a repaired defect."""
import json,sys,subprocess
p,c,w=sys.argv[1:4]
c=subprocess.check_output(['git','-C','/repo','rev-parse','--short=7',c],text=True).strip()
open('/verif/known_findings.jsonl','a').write(json.dumps({"status":"fixed","property":p,"commit":c,"what":f"fixed: property={p} {c} {w}"})+"\n")

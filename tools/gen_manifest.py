import json
P=[json.loads(l) for l in open('/verif/properties.jsonl')]
T=dict(
C01="panic/abort/overflow/hang monitors on generated hostile input, checked + optimised + unoptimised builds, 2 MiB stack; ASan and Miri in thorough",
C02="panic/abort/hang monitors over operation sequences on damaged sprites, checked + optimised builds; ASan and Miri in thorough",
C03="counting allocator, code-counter and valgrind instruction-count monitors against bounds and scaling law",
C21="offline checker of recorded results of concurrent and repeated operations; second process; TSan and Miri in thorough",
C22="address monitor on borrowed spans and counting allocator",
C23="online checker of hash/pixel consistency, second process",
C24="trace comparison between a checked and an optimised build",
C25="online checker of value and remaining input of every item parser call, against the stored bytes, repeated calls and the whole file's parse",
C26="online checker: every error of decoding and rendering must be explained by a fault found in the stored bytes (independent inflate)",
C27="online consistency checker between the observed raw, file and sprite views of the same bytes",
C28="online metamorphic checker: observed pictures of pairs of files that store the same sprite differently")
D="online oracle: every observed result compared with an independent reference implementation on generated inputs"
N=dict(
C12="Trusts the harness's own inflate, palette merge and conversions. One recorded finding (background layers of indexed sprites).",
C17="Trusts the harness's reimplementation of Aseprite's blend functions; tolerance of one level on the HSL modes.",
)
base="Exploration by seeded generation; assurance is for the executions observed (counts in the evidence file), not a proof. Trusts the harness's reference decoder/renderer (written from the file format and Aseprite's documented behaviour, independent of the crate)."
ck=[]
for p in P:
    i=p['id']
    ck.append(dict(property=i,quick_cmd=f"./check {i} quick",thorough_cmd=f"./check {i} thorough",evidence_file=f"evidence/{i}.json",technique="runtime monitoring: "+T.get(i,D),level="exploration",level_note=(N.get(i,"")+" "+base).strip()))
m=dict(version=1,setup_cmd="./check build",checks=ck,not_applicable=[],notes="No hooks in /repo: the binary and loader APIs are public, heap use is observed by a counting global allocator and executed work by the compiler's coverage counters (-Cinstrument-coverage), both outside /repo.")
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1,ensure_ascii=False)

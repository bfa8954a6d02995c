import json,os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EX="exhaustive enumeration of a bounded input/configuration space, executed on the real code"
HI="exhaustive enumeration of operation histories (explicit-state, real code)"
SC="stateless model checking of the real code under a controlled scheduler (deviation-bounded DFS over schedules and pool choices)"
T=dict(C01=EX+"; all circuits of bounded depth",C02=SC+"; plus exhaustive batch sizes/contents",C03=EX,C04=EX,C05=EX+"; all straight-line programs of bounded length",C06=EX,C07=EX,C08=EX,C09=EX,C10=EX,
 C11=EX+"; complete tree of coin outcomes",C12=HI,C13=HI,C14=SC,C15=SC+"; complete tree of coin outcomes; every key entry decrypted",C16=HI+" of level switches; exhaustive level table",C17=EX,C18=EX,C19=EX+"; all generator histories of bounded length",C20="exhaustive enumeration of scripted random draws and call orders, executed on the real code",C23=HI+" against a reference model of the pools and accumulators")
N=dict(
C01="every gate on every case of the declared spaces gives its truth table with the refreshed error bound; assumes noiseless scripted keys at reduced dimensions represent the arithmetic (shipped levels are run as well)",
C02="every schedule within the deviation bound, at statement granularity, of small batches; sizes and contents beyond that on the default schedule; data races by the race detector on free-running executions; sequentially consistent memory otherwise",
C03="all functions for small moduli, families above; every message, in-slot error positions and entry points",
C04="all phases of the torus seen by the decision functions (2^32 in the thorough tier), all keys at small dimensions, scripted masks and noise",
C05="boundary alphabet of words and multipliers, every aliasing and every straight-line program to the stated length",
C06="every monomial pair, every shift, boundary polynomials at all degrees; rounding tolerance computed from the operand sizes",
C07="every word (thorough) or every top-bit value with boundary low bits (quick), every shape",
C08="basis/boundary plaintexts, masks and keys; both implementations",
C09="every rotation amount and every coefficient index at the stated degrees",
C10="every digit value, boundary digits at every position, all keys at small dimensions",
C11="every coin outcome of the encryptor for small public keys; every digit value and key pair for re-encryption",
C12="all sequences of the operation alphabet to the stated length, word-for-word against fresh evaluators",
C13="all sequences to the stated length with every live result re-read after every step",
C14="every schedule within the deviation bound of 2-3 threads running the documented concurrent uses; data races by the race detector on free-running executions",
C15="every schedule within the deviation bound of the generating goroutines at tiny sizes, every secret key at small dimensions, every entry of the key at the shipped levels",
C16="all shipped levels against the documented table; all sequences of level switches to the stated length, with keys and evaluators used after every switch",
C17="all 8/16-bit (32-bit thorough) values, structured 64-bit ones, all short bit vectors, ownership of returned vectors",
C18="all 2^32 torus elements, structured reals against exact arithmetic, all messages of the stated moduli",
C19="every position of every table for the stated moduli, functions and scales",
C20="draws are observed through a stand-in for math/rand; statistical quality of the generator itself is trusted",
C23="all sequences of pool and buffer operations to the stated length against an exact model; storage disjointness of all pairs of evaluators")
have=[l.strip() for l in os.popen("grep -ho 'register(&Check{ID: \"C[0-9]*' %s/mc/*.go | grep -o 'C[0-9]*$' | sort"%here)]
NA={"C21":"computational hardness of LWE against adversaries is not a property of executions: no bounded exploration of the code's behaviours can decide it",
    "C22":"a probability over Gaussian noise at cryptographic rates (2^-40 and below) is a numerical estimate, not an enumeration of executions; the deterministic part (correct for every error below the margin) is decided by C01, C03, C04, C10 and C11"}
for i in range(1,21):
    k="C%02d"%i
    if k not in have: NA[k]="check under construction"
m=dict(version=1,setup_cmd="bash setup.sh",checks=[dict(property=k,quick_cmd="bash run.sh %s quick"%k,thorough_cmd="bash run.sh %s thorough"%k,technique=T[k],level="model_checking",level_note=N[k]) for k in have],
 not_applicable=[dict(property=k,reason=v) for k,v in sorted(NA.items())],
 notes="No hooks are committed in /repo: instrumentation is generated at check time as a go build overlay (tools/instr). The commits in /repo are fix: commits only.")
json.dump(m,open(here+"/MANIFEST.json","w"),indent=1); open(here+"/MANIFEST.json","a").write("\n")

import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook)))

p("C01","Every homomorphic Boolean gate computes its truth table",
"For every two-input gate (AND, OR, NAND, NOR, XOR, XNOR, ANDNY, ANDYN, ORNY, ORYN), NOT, Copy, Constant and MUX, decrypting the gate's output yields exactly the gate's truth table applied to the decrypted inputs, for every secret key, every input mask and every input error that keeps the gate's linear combination inside its decision region. This holds at every supported security level, when the same ciphertext object is passed for several operands, and when gate outputs are fed into further gates to any depth: a gate output is refreshed, i.e. its error does not depend on the error of its inputs. The same holds when a gate is evaluated by hand, preparing its input with an evaluator and bootstrapping it into new, used, operand or input storage. Inputs that are not the output are never modified.",
["inputs","configurations","programs"],"All gates x all input bits x all keys x all masks x all tolerable errors x all operand aliasings x all circuits",
"The tests evaluate each gate on fresh encryptions under one random key per run and one security level; they never vary the mask, the error, the aliasing of operands, and most gates are only run at the default level.",
["gates/gates.go","evaluator/gates_helper.go","evaluator/evaluator.go","trgsw/keyswitch.go"],
[("gate-specific linear combination + constant","gates/gates.go, evaluator/gates_helper.go"),("bootstrap of the combination","evaluator/evaluator.go BootstrapAssign")],
["gates.* return value decrypted with the level-0 key","operand slices before/after"])

p("C02","Batch gates equal single gates, item by item, under every schedule",
"Each batch gate (AND, OR, NAND, NOR, XOR, XNOR) returns exactly one result per input pair, in input order, each decrypting to what the single gate gives for that pair, for every batch size including empty and single, every goroutine schedule and every reuse pattern of pooled working storage. The call terminates only after all results are final: no result, input or key is written afterwards by the library, and later batches never change earlier results.",
["schedules","inputs","histories"],"All interleavings of the worker goroutines (bounded preemptions), all pool hand-out choices, all batch sizes 0..K and content patterns, all sequences of batches",
"The tests run a handful of small batches on whatever schedule the machine produces; pool recycling between items never happened in them, which is how BatchXNOR and result overwriting stayed unnoticed.",
["gates/gates.go","trgsw/trgsw.go"],
[("sync.Pool of polynomial evaluators","trgsw/trgsw.go evaluatorPool"),("WaitGroup joins","trgsw/trgsw.go BatchBlindRotate, gates/gates.go Batch*")],
["returned slice: length, order, decryptions, stability after later batches"],
[dict(name="evaluatorPool",meaning="per-goroutine scratch shared between batches",where="trgsw/trgsw.go")])

p("C03","Programmable bootstrapping evaluates any function on any message",
"For every message modulus m that the ring supports (powers of two or not), every function f on {0..m-1} and every ciphertext of a message x whose error plus rounding stays inside x's slot, each programmable-bootstrapping entry point (from a function or from a prebuilt table, allocating, temporary or writing into a given ciphertext) yields a ciphertext that decrypts to f(x) mod m. The result can be bootstrapped again with further functions; writing the result over the input ciphertext is allowed; the table and all other inputs stay unchanged.",
["inputs","configurations","programs"],"All moduli, all functions (exhaustively for small m, a spanning family above), all messages, all in-slot error positions, all five entry points, compositions",
"The tests sample four or five functions with moduli 2, 4 and 8 on fresh ciphertexts; function tables, error positions inside a slot and non-dividing moduli form a space no sample covers.",
["evaluator/programmable_bootstrap.go","lut/generator.go","tlwe/programmable_encrypt.go"],
[("LUT slots of width N/m rotated by half a slot","lut/generator.go"),("blind rotation of the LUT by the mod-switched phase","evaluator/evaluator.go")],
["Bootstrap* results decrypted with DecryptLWEMessage"])

p("C04","Decryption inverts encryption for every message, key and mask",
"For every key, every random mask and every noise below the decision margin, decrypting a fresh encryption returns the plaintext: booleans at level 0 and level 1, every position of a ring-encrypted Boolean vector, and integer messages of any modulus (negative or oversized messages being reduced modulo it). Encrypting into a previously used ciphertext object gives the same guarantee as into a new one, and decryption never changes the ciphertext or the key.",
["inputs","configurations"],"All messages, moduli, keys, masks and all phases of the torus as seen by the decision function",
"The tests round-trip random encryptions; the decision regions cover 2^32 phases, and boundary phases, odd moduli and object reuse are not sampled.",
["tlwe/tlwe.go","tlwe/programmable_encrypt.go","trlwe/trlwe.go"],
[("b = <a,s> + message + noise","tlwe/tlwe.go EncryptF64"),("sign / nearest-slot rounding","tlwe DecryptBool, DecryptLWEMessage")],
["Decrypt* return values"])

p("C05","Linear ciphertext arithmetic is exact on the phase",
"Adding, subtracting, negating, scaled adding and scaled subtracting ciphertexts produces a ciphertext whose phase is exactly that combination of the operands' phases modulo 2^32 (element-wise multiplication gives the word products), for every operand value, every multiplier and every aliasing of operands and output. Operands that are not the output stay unchanged, and returned ciphertexts share no storage with operands.",
["inputs","programs"],"All operand words from a boundary alphabet, all multipliers, all aliasings, all short straight-line programs",
"The tests check one addition and one negation on random encryptions by decrypting a bit, which sees one bit of the phase of one pair.",
["tlwe/tlwe.go","gates/gates.go"],
[("coordinate-wise wrapping arithmetic","tlwe/tlwe.go Add/Sub/Neg/AddMul/SubMul/AddAssign")],
["ciphertext words"])

p("C06","Polynomial arithmetic is the negacyclic ring Z_2^32[X]/(X^N+1)",
"For every supported ring degree, polynomial multiplication (plain, accumulating, subtracting), the Fourier-domain round trip and the Fourier-domain linear operations agree with exact negacyclic arithmetic, up to the documented floating-point rounding and exactly when one factor is small; multiplying by X^k is the negacyclic shift for every integer k, positive, zero, negative or beyond 2N (a wrapped coefficient may differ from exact negation by one unit). Operands that are not outputs stay unchanged; multiplication and Fourier-domain operations written over one of their operands give the same result.",
["inputs","configurations"],"All degrees 16..2048, all monomial pairs, all shifts k, basis and boundary polynomials, all aliasings",
"The tests multiply a few random polynomials at one degree; an error confined to one butterfly, one index pair or one shift amount is invisible to them.",
["poly/fourier_transform.go","poly/fourier_ops.go","poly/poly_mul.go","poly/buffer_methods.go","poly/poly_evaluator.go"],
[("folded twisted FFT","poly/fourier_transform.go"),("PolyMulWithXK rotation","poly/buffer_methods.go")],
["MulPoly*, To*Poly*, *FourierPoly*, PolyMulWithXK* results"])

p("C07","Gadget decomposition: bounded digits that recompose the input",
"For every torus word and every shipped gadget shape, decomposition yields exactly L digits, each in [-Bg/2, Bg/2), whose weighted sum differs from the word by less than one gadget unit 2^(32-L*log2 Bg), using the offset published in the evaluation key. The result depends only on the word itself: every coefficient of a polynomial is decomposed independently, whatever the other coefficients or the buffers' earlier content.",
["inputs","configurations"],"All 2^32 words x all shipped shapes (thorough), all top-bit values x boundary low bits (quick), all coefficient positions",
"No test inspects digits; a wrong digit only adds noise that decryption usually absorbs.",
["poly/decomposer.go","trgsw/trgsw.go","cloudkey/cloudkey.go"],
[("offset + shift/mask - Bg/2","poly/decomposer.go DecomposePolyAssign, trgsw/trgsw.go decompositionInPlace"),("offset generation","cloudkey/cloudkey.go")],
["decomposition output polynomials"])

p("C08","External product and CMUX select exactly the encrypted branch",
"Multiplying a ring ciphertext by an encrypted bit gives a ciphertext of (bit x plaintext), and CMUX gives the first input when the bit is 0 and the second when it is 1, up to the decomposition error, for every plaintext polynomial, key and mask. Both implementations (evaluator method and package function) agree; inputs and key material stay unchanged, and writing the external product over its input or the CMUX over its first input (the accumulator form) gives the same result.",
["inputs","configurations"],"Both bits x boundary/basis plaintext and mask polynomials x small keys exhaustively x all shipped gadget shapes x aliasings",
"Tests reach these operations only through whole gates under one random key; an error in one decomposition row or one coefficient is absorbed by the gate's margin.",
["evaluator/evaluator.go","trgsw/trgsw.go"],
[("sum over 2L rows in the Fourier domain","evaluator ExternalProductAssign, trgsw ExternalProductWithFFT"),("ct0 + bit*(ct1-ct0)","CMuxAssign, CMUX")],
["phase of the output ring ciphertext under the level-1 key"])

p("C09","Blind rotation rotates by the rounded phase; extraction reads a coefficient",
"Blind rotation of a test polynomial by a ciphertext returns an encryption of X^(-r) times the test polynomial, where r is the ciphertext's phase after each coordinate is rounded to the nearest multiple of 1/2N, for every ciphertext word, key and test polynomial and in all three implementations (evaluator, package function, batch). Sample extraction at any index k returns a level-1 ciphertext whose phase is coefficient k of the ring ciphertext's phase, in the allocating and the in-place form.",
["inputs","configurations"],"All mod-switched ciphertexts x all keys at small dimension, boundary words around every rounding boundary at shipped dimensions, all extraction indices",
"Tests only see the sign of one extracted coefficient after a whole gate; wrong rounding, one wrong rotation amount or extraction index other than 0 are not observed.",
["evaluator/evaluator.go","trgsw/trgsw.go","trlwe/trlwe.go","trlwe/trlwe_ops.go"],
[("modulus switch round-to-nearest","BlindRotateAssign / BlindRotate"),("CMUX chain","evaluator/evaluator.go"),("sample extract","trlwe/trlwe.go")],
["phase of rotated ring ciphertext, phase of extracted sample"])

p("C10","Key switching preserves the phase up to bounded rounding",
"Switching a level-1 ciphertext to the level-0 key preserves its phase up to half a unit of the last decomposition digit per set key coefficient plus the key's own noise, for every digit pattern at every coefficient position, every key and every shipped base/level shape. Both forms (allocating and writing into a possibly dirty output) give the same words, and the input and key stay unchanged.",
["inputs","configurations"],"All digit patterns per position x all positions x keys x shipped shapes",
"Tests see it only through whole gates; a wrong table entry for one digit value or position shifts the phase by an amount that decryption mostly absorbs.",
["trgsw/trgsw.go","trgsw/keyswitch.go","cloudkey/cloudkey.go"],
[("digit-indexed table subtraction with rounding offset","IdentityKeySwitching(Assign)")],
["phase of the output under the level-0 key"])

p("C11","Public-key encryption and proxy re-encryption preserve messages",
"A ciphertext produced with a public key decrypts, under the matching secret key, to the encrypted value for every outcome of the encryptor's random coins; re-encrypting any ciphertext from key A to key B (key built symmetrically or from B's public key, default or custom base/levels) yields a ciphertext under B with the same phase up to half a unit of the last digit per set bit of A plus the key noise, and chains A->B->C compose. Re-encryption never modifies its inputs and works for every secret key pair, including A = B.",
["inputs","configurations","histories"],"All coin outcomes for small public keys, all key pairs at small dimension, all digit patterns, all base/level combinations with base bits x levels <= 31, chains up to length 3",
"Tests sample a few coins and random keys and accept a success rate; the coin space and the digit space are only enumerable at reduced dimension.",
["proxyreenc/proxyreenc.go"],
[("random +-1/0 combination of zero encryptions","PublicKeyLv0.EncryptF64"),("digit-indexed key switching","ReencryptTLWELv0")],
["phase under the target key"])

p("C12","Evaluation is a pure function of its arguments, whatever happened before",
"The result of any evaluator, gate, polynomial or key-switching operation depends only on its arguments: after any history of other operations on the same evaluator (other inputs, other tables, other keys, buffer resets) it returns the very same words as on a fresh evaluator. No operation modifies its input ciphertexts, tables or keys.",
["histories","programs"],"All operation sequences up to a depth bound over the whole operation alphabet of one evaluator, compared with a fresh evaluator",
"Tests call operations in a few fixed orders and look at decrypted bits only; stale scratch state needs a particular predecessor and shows up first in low-order words.",
["evaluator/evaluator.go","evaluator/buffers.go","evaluator/programmable_bootstrap.go","poly/buffer_methods.go","trgsw/trgsw.go","gates/gates.go"],
[("scratch buffers fully overwritten before use","evaluator/buffers.go, poly/buffer_methods.go")],
["output words vs fresh evaluator; argument snapshots"],
[dict(name="evaluator scratch and result pool",meaning="reused between operations",where="evaluator/buffers.go")])

p("C13","Results stay intact for their documented lifetime",
"A ciphertext returned by a gate, batch gate, programmable bootstrap, arithmetic, key switching, encryption or re-encryption call belongs to the caller: no later library call changes it and it shares storage with nothing else the library hands out. A result documented as temporary (plain bootstrap and temporary table bootstrap) stays intact through at least the next three such operations on the same evaluator, so compound operations may hold several results at once.",
["histories","programs"],"All operation sequences up to a depth bound; every live result re-read after every step",
"Tests decrypt each result immediately; overwriting needs a later operation while an earlier result is still held.",
["evaluator/evaluator.go","evaluator/buffers.go","gates/gates.go","trgsw/trgsw.go"],
[("copy out of internal buffers","gates bootstrap, BootstrapLUT, BatchBlindRotate"),("rotating pool of result buffers","evaluator/buffers.go GetNextResult")],
["words of every held result after every later call"],
[dict(name="ResultPool",meaning="rotating temporary results",where="evaluator/buffers.go")])

p("C14","Separate evaluators work concurrently without interfering",
"Goroutines that each use their own evaluator (newly created or shallow-copied from a shared one), sharing only read-only keys, tables and ciphertexts, get exactly the results they would get alone, under every interleaving, with no data race and no deadlock. The same holds for concurrent encryption, decryption, arithmetic, key switching, table generation and concurrent batch gate calls.",
["schedules","programs"],"All interleavings with bounded preemptions at statement granularity of 2-3 goroutines over the operation alphabet",
"Tests contain no concurrent use of two evaluators; a shared scratch buffer needs a preemption at a particular statement.",
["evaluator/evaluator.go","poly/poly_evaluator.go","poly/decomposer.go","trgsw/trgsw.go"],
[("per-evaluator buffers, shared read-only twiddles","poly/poly_evaluator.go ShallowCopy, evaluator/evaluator.go ShallowCopy")],
["per-goroutine results vs sequential reference"])

p("C15","Key generation yields well-formed keys for every secret and schedule",
"Secret keys have exactly the level's dimensions with every bit drawn as an independent fair coin; in the evaluation key every key-switching entry decrypts to digit x secret-bit at its level, every bootstrapping entry is a gadget encryption of the matching secret bit, the offset and test polynomial match the level, and each entry carries the noise magnitude of its own level. This holds for every secret key, every security level and every interleaving of the generating goroutines, and the secret key is not modified.",
["schedules","inputs","configurations"],"All secrets at small dimension, every entry at shipped dimensions, all schedules of the generator goroutines (bounded), scripted noise",
"Tests only see that gates work with the key; a single wrong entry or a wrong noise level is masked by margins.",
["key/key.go","cloudkey/cloudkey.go","trgsw/trgsw.go"],
[("parallel generation of KSK and BSK","cloudkey/cloudkey.go"),("coin per bit","key/key.go")],
["every entry of the key decrypted with the secret key"])

p("C16","Security levels are self-consistent and can be switched at run time",
"Every supported security level offers a consistent parameter set (ring degree and its logarithm, gadget and key-switching shapes that fit 32 bits, equal ring degree in all components, noise values ordered as documented), with the dimensions, message space and description its documentation promises. After any sequence of switches between levels, keys and evaluators created at the current level work as if no other level had ever been used, and keys created earlier work again after switching back.",
["configurations","histories"],"All levels, all ordered pairs and triples of switches, with encryption, gates, batch gates, bootstraps and re-encryption at each stop",
"Tests set one level per test binary run and never return to a previous one; state cached at one level is used at another only in such histories.",
["params/params.go","gates/gates.go","trgsw/trgsw.go","evaluator/evaluator.go"],
[("level switch read at every use","params/params.go Get*"),("evaluators rebuilt when the level changed","gates/gates.go, trgsw/trgsw.go")],
["results of operations after each switch"],
[dict(name="CurrentSecurityLevel",meaning="global configuration",where="params/params.go"),dict(name="globalEval / evaluatorPool",meaning="cached working storage",where="gates/gates.go, trgsw/trgsw.go")])

p("C17","Bit-vector and integer conversions are inverse to each other",
"Converting an unsigned integer to bits is little-endian and complete, converting bits back returns the integer, for every value of every width (8, 16, 32, 64) and for arbitrary sizes from 0 to 64, where missing bits read as zero. Encrypting a bit vector and decrypting it returns the same vector, bit by bit and in order, for every length including zero. A returned vector belongs to the caller: overwriting or extending it changes no other vector and no later conversion.",
["inputs","histories"],"All values up to 16 bits, all single/double-bit and run patterns at 32 and 64 bits, all sizes 0..64, all vectors up to 8 bits encrypted",
"Tests convert two or three constants.",
["bitutils/bitutils.go"],
[("shift loops","bitutils/bitutils.go")],
["returned integers and bit slices"])

p("C18","Torus conversions and message encoding are faithful",
"Converting a real number to a torus element is reduction modulo 1 with less than one unit of error for every finite real including negatives and large magnitudes, converting back and forth is the identity on every torus element, and vector conversion acts element-wise. Encoding then decoding returns the message modulo m for every message (negative and oversized included), every modulus and custom scale; decoding tolerates every perturbation smaller than half a slot (for scales whose slots tile the torus, as the default does), and added Gaussian noise is exactly the drawn normal sample times the requested deviation.",
["inputs"],"All torus elements by boundary patterns (quick) or 2^32 (thorough), dyadic and boundary reals, all moduli 2..N, all messages, all in-slot perturbation positions by boundary",
"Tests convert a few constants and encode a few messages without perturbation.",
["utils/utils.go","lut/encoder.go"],
[("fmod and scaling","utils/utils.go"),("nearest-slot rounding","lut/encoder.go Decode")],
["returned values"])

p("C19","Lookup tables hold f for every modulus and leave the generator unchanged",
"A lookup table generated for a function f and modulus m holds, at every position, the encoding of f at the message whose slot (centred on it, wrapping with sign change below zero) contains that position, up to one position at slot boundaries, whatever the output table held before. Integer, full-torus, custom-scale, allocating and in-place generation agree with each other, f is consulted only on 0..m-1, and generating one table (even when f panics and the caller recovers) never changes the generator or an earlier table; copies are independent. Modulus switching maps every torus element to the nearest table position.",
["inputs","configurations","histories"],"All moduli 1..N at small degree and all documented ones at shipped degrees, all functions for small m and a spanning family above, all call sequences of length 3",
"Tests compare a few tables with the same formula that the code uses, for powers of two.",
["lut/generator.go","lut/lut.go","lut/encoder.go"],
[("slot fill, half-slot rotation, sign flip","lut/generator.go"),("encoder swap and restore","GenLookUpTableCustom")],
["table coefficients"])

p("C20","Every encryption uses fresh, full-range randomness and the asked noise",
"Every encryption (level 0, level 1, ring, gadget, public key, keys) draws a fresh mask: each mask word ranges over the whole torus, no two words of one ciphertext and no two ciphertexts - even of equal messages, in the same process, in any call order or concurrently - reuse the same mask, and what is drawn never depends on the message or key. The noise added is exactly one fresh normal sample times the deviation the caller asked for, per component.",
["inputs","histories","schedules"],"All message x API combinations with scripted and recorded randomness, all call sequences to depth 3",
"Tests only decrypt; a reused mask, a truncated mask or a missing/extra noise sample still decrypts correctly.",
["tlwe/tlwe.go","trlwe/trlwe.go","trgsw/trgsw.go","proxyreenc/proxyreenc.go","utils/utils.go"],
[("fresh generator per encryption","tlwe/trlwe EncryptF64"),("Gaussian sampling","utils/utils.go")],
["ciphertext words under recorded/scripted random source"])

p("C21","Ciphertexts and keys hide the secret from an adversary",
"No efficient adversary given ciphertexts, public keys, re-encryption keys and evaluation keys learns the messages or the secret keys, at the claimed security level of each parameter set.",
["inputs"],"All efficient adversaries",
"A computational hardness assumption about LWE plus entropy of the random source; no execution exhibits it.",
["params/params.go","key/key.go","tlwe/tlwe.go"],[("LWE parameters","params/params.go"),("seeding","math/rand")],["-"])

p("C22","Decryption failure probability stays below the documented rate",
"With the documented noise deviations the probability that a gate, programmable bootstrap or re-encryption at a supported level decrypts wrongly stays below the documented rate.",
["inputs","configurations"],"The distribution over all noise samples",
"A statement about a probability measure over all noise samples; tests estimate it from tens of samples.",
["params/params.go"],[("noise budget of the parameter sets","params/params.go")],["-"])

p("C23","Working-storage pools never hand out storage that is still owned",
"The working storage an evaluator, polynomial evaluator, buffer manager or result pool hands out (rotation, ring-ciphertext, result and decomposition buffers) has the evaluator's size and stays exclusively its receiver's through the next three hand-outs of the same pool, whatever other pools and operations are used in between and after any history of resets; the two components of a ring buffer are distinct. Named Fourier accumulators hold exactly what was accumulated since they were last cleared. No two evaluators, newly created or shallow copies (or copies of copies), share any working storage.",
["histories","configurations"],"All sequences of hand-outs, resets and buffer operations up to a depth; all ring degrees and gadget shapes; all pairs of evaluators",
"No test holds two hand-outs of one pool at a time or interleaves the buffer operations; an aliased or undersized buffer shows only in a particular history.",
["poly/buffer_methods.go","poly/buffer_manager.go","poly/decomposer.go","poly/poly_evaluator.go","evaluator/buffers.go","evaluator/evaluator.go"],
[("round-robin index over four slots","poly/buffer_methods.go, poly/buffer_manager.go, evaluator/buffers.go GetNextResult"),("ShallowCopy allocates new buffers","poly/poly_evaluator.go, evaluator/evaluator.go")],
["contents and addresses of the slices handed out"])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x,ensure_ascii=False)+'\n')
print(len(P))

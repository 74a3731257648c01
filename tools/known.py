#!/usr/bin/env python3
"""Writes known_findings.json: recorded findings, and the fix commits of /repo (hash looked up by subject)."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FINDINGS = [
 ("C08","ckks-parameters-json/decode/logslots0","a ckks parameter set with LogSlots=0 decodes from its own JSON with the default number of slots: the JSON form shares the literal's convention that 0 means unset"),
 ("C08","rlwe-parameters-json/decode/sigma0","an rlwe parameter set with Sigma=0 (noiseless) decodes from its own JSON with the default Sigma 3.2: 0 means unset in the JSON form"),
 ("C08","rlwe-parameters-json/decode/h0","an rlwe parameter set with H=0 decodes from its own JSON with the default H=N/2: 0 means unset in the JSON form"),
]
FIXED = { # subject -> property (several: separated by blanks)
 "ring scalar addition and subtraction write the receiver and reduce the scalar":"C02",
 "Ring.MulByPow2Lvl multiplies the Montgomery form when the receiver is not the operand":"C02",
 "Ring.MultByMonomial accepts negative degrees":"C02",
 "Ring.Shift reduces the amount modulo N and never shares memory with its operand":"C06",
 "Ring.Rotate writes its receiver and reduces the amount modulo N":"C06",
 "PolyQP.Equals distinguishes a missing part from a present one":"C02",
 "SimpleScaler returns values reduced modulo t":"C05",
 "NTTLazy variants return values in their documented range [0, 2q-1]":"C03",
 "ConjugateInvariantRing rejects rings whose half degree the NTT does not support":"C03 C12",
 "ModDownQPtoP divides by the product of the Q moduli of the level":"C04",
 "DivFloor/DivRoundByLastModulusNTTLvl use the exact residue of the dropped limb":"C05",
 "DivRoundByLastModulusLvl leaves its operand unchanged":"C05",
 "SwitchCiphertextRingDegree(NTT) writes its receiver only and clears stale coefficients":"C06",
 "ternary sampler restarts instead of reading past its probability matrix":"C07",
 "ternary sampler does not reuse the sign bit for the next coefficient":"C07",
 "encoding a polynomial writes its flag bytes also when they are zero":"C08",
 "decoding into a used polynomial replaces its previous shape, flags and parts":"C08",
 "decoding a switching key without auxiliary primes leaves its P part absent":"C08",
 "Ring.UnmarshalBinary restores the ring type":"C08",
 "rlwe.Parameters.MarshalJSON includes the ring type":"C08",
 "ckks.Parameters.UnmarshalJSON reports malformed input":"C08",
 "constructors return an empty ring or parameter set together with an error":"C12",
 "rlwe.NewParametersFromLiteral returns an error on an invalid degree or ring type":"C12",
 "CheckModuli rejects moduli above the sizes the library supports":"C12",
 "NewRing returns an error on a zero modulus":"C12",
 "NextNTTPrime and PreviousNTTPrime stop at the ends of their range":"C12",
 "slice equality takes the length into account":"C12 C09",
 "frlwe.NewParametersFromLiteral supports moduli given by their sizes":"C13 C12",
 "CheckModuli rejects auxiliary moduli of 62 bits, which overflow the lazy NTT":"C12",
 "Rotate*Slice returns a new slice also for k = 0":"C09",
 "overflow margins are computed exactly":"C12",
 "CheckModuli rejects a prime that is in both chains":"C12",
 "decoding truncated parameters returns an error":"C12",
 "encrypting into a ciphertext of another degree resizes it":"C10",
 "frlwe GenSecretKey and GenPublicKey call the embedded generator":"C13",
 "CKKS fixed-point conversion of exactly 2^64 does not overflow":"C14",
 "EncodeCoeffs clears the coefficients it does not set":"C14",
 "slot encoding records that its output is in the NTT domain":"C14",
 "the arbitrary-precision decoder accepts plaintexts outside of the NTT domain":"C14",
 "encoding a few slots does not use the NTT below its minimum degree":"C14",
 "the unrolled FFT of 8 values does not write beyond them":"C14",
 "MulRelin reduces the key switched part before adding it":"C15",
 "Rotate and Conjugate can be evaluated in place":"C16",
 "MulAndAdd adds both cross products":"C15",
 "multiplying into a receiver of a larger degree discards its other parts":"C16",
 "MultByiNew and DivByiNew keep the degree of their operand":"C15",
 "Rescale stops at level 0 and rejects a receiver of another level":"C15",
 "SetScale takes the ratio of the scales into account when rescaling":"C15",
 "int64 Gaussian integers are reduced modulo each prime":"C15",
 "integer constants of 2^63 and more are integers":"C15",
 "unary operations leave no stale levels or parts in their receiver":"C16",
 "AddConst writes all parts of its receiver":"C16",
 "fckks SwitchKeys accepts ciphertexts in the NTT domain":"C18",
 "fckks DecryptToMsg does not keep the level of an earlier ciphertext":"C18",
 "fckks Rotate sets the level and scale of its receiver":"C18",
 "fckks SwitchKeys leaves no stale levels in its receiver":"C18",
 "NewAdditiveShare allocates a share at the maximum level, as documented":"C19",
 "PopulateElementRandom samples at the level of the element":"C19",
 "a refused multiplication (degree, missing relinearization key) leaves an operand used as receiver unchanged":"C20",
 "additions of ciphertexts of degree 3 and more with different scales do not exceed the pool":"C15",
 "basis extension and decomposition accept more than 32 moduli (up to 100 are valid)":"C04 C11 C13",
 "products of complex numbers do not keep the precision of earlier operands":"C16",
 "SetScale refuses a ciphertext of level 0 before modifying it":"C20",
 "Rescale returns the documented error for a ciphertext outside the NTT domain":"C20 C15",
 "ckks.NewCiphertextRandom returns a ciphertext in the NTT domain, like NewCiphertext":"C19",
}
def main():
    log = subprocess.check_output(["git","-C","/repo","log","--reverse","--format=%h %s"],text=True).splitlines()
    fixed=[]
    for l in log:
        h,s=l.split(" ",1)
        if not s.startswith("fix: "): continue
        s=s[5:]
        if s not in FIXED: raise SystemExit("unlisted fix: "+s)
        for p in FIXED[s].split(): fixed.append(f"fixed: property={p} {h} {s}")
    out={"findings":[{"property":p,"sig":g,"what":w} for p,g,w in FINDINGS],"fixed":fixed}
    json.dump(out,open(os.path.join(ROOT,"known_findings.json"),"w"),indent=1)
    open(os.path.join(ROOT,"known_findings.json"),"a").write("\n")
main()

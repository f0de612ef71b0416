"""Writes DESIGN.md from the check modules, the properties, the findings and the results of the planted bugs."""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path[:0] = [ROOT, '/repo']; sys.path.append(HERE)
sys.dont_write_bytecode = True
import plants
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
known = json.load(open(os.path.join(ROOT, 'known_findings.json')))
results = json.load(open(os.path.join(HERE, 'plant_results.json')))
try: COST = json.load(open(os.path.join(HERE, 'cost.json')))
except OSError: COST = {}

HEAD = open(os.path.join(HERE, 'design_head.md')).read()
TAIL = open(os.path.join(HERE, 'design_tail.md')).read()
WHY = {
 'C01': 'The tests decode a handful of vectors. A wrong count of leading zeros, an unchecked character or a truncated checksum shows on one text in thousands; all short texts, all leading-zero counts and every single edit are covered here.',
 'C02': 'The tests use one secret. Padding, truncation at leading zero bytes and confusions of the compression marker with the last key byte need particular secrets, which are all in the space.',
 'C03': 'The tests use a few mainnet addresses. Version/type/network confusions and lost zero bytes need the full product of versions, lengths and hashes.',
 'C04': 'The tests use a few keys. Points with leading zero bytes, coordinates at the field bound and x without a root are enumerated around both ends of the field.',
 'C05': 'On secp256k1 the special cases of the group law (equal points, inverses, infinity, r or s = 0) are out of reach of any test. The code is generic in the curve, so the checks explore whole groups of small curves, where every special case occurs.',
 'C06': 'The length of the DER integers and the low-S rule depend on the numbers; digests are solved for so that S takes each wanted value. The entropy is an environment choice.',
 'C07': 'The tests follow the BIP32 vectors. Indexes at 2^31 and 2^32, children with leading zero bytes and commutation need the exploration of the tree.',
 'C08': 'The tests read four vectors. Each field is varied over the product, each byte of a payload over all its bits.',
 'C09': 'The tests read a few transactions. Lengths at the bounds of the variable-length integers and every corruption of every byte are enumerated.',
 'C10': 'The tests sample a few integers. All operation sequences on buffers up to depth 4 are run in lockstep with a byte-string model, which shows positions, consumption and failed reads.',
 'C11': 'The tests sign one input once. Here signing is a transition system: all orders of signing all subsets of inputs.',
 'C12': 'The tests try two key lists; the answer is a predicate on all lists of keys.',
 'C13': 'The tests build one output per kind.',
 'C14': 'The tests parse a dozen scripts; pushes that run past the end and non-minimal pushes need the enumeration of short byte strings.',
 'C15': 'The tests parse a dozen texts; the language of accepted texts is explored over all short token lists.',
 'C16': 'The tests recognise one script of each template. "No other" is a statement about all the rest, explored over all sequences of instruction kinds.',
 'C17': 'Complete around zero and at all powers of two; "exactly the shortest encodings" is decided on all short strings.',
 'C18': 'The tests run bitcoind vectors partly (most are disabled in the repository). Every operation is run on every small stack, and all short programs.',
 'C19': 'Limits are off-by-one territory, and flags interact: all 512 flag sets are run on every scenario.',
 'C20': '"Never raises" and "a forgery is never accepted" are statements about all scripts and all forgeries.',
 'C21': 'Binary floating point errors show for one amount in thousands; 2.2 million conversions, and all amounts around the powers of ten.',
 'C22': 'The tests use a few ASCII texts; every character of the basic plane and all pairs of special ones are taken through.',
 'C23': 'The tests give a few bad inputs per function. Exceptions of the wrong family escape only for particular malformed inputs.',
 'C24': 'All ordered pairs of a pool whose contents differ in exactly one component, each built in all ways.',
 'C25': 'A wrongly keyed cache or left-over state needs a particular history. Tests run each operation once per process.',
 'C26': 'Races need a particular interleaving; the scheduler puts a switch at every source line.',
 'C27': 'Lost entropy cannot be seen in the values of a few keys; the entropy source is replaced and all one- and two-bit neighbours of streams are run.',
 'C28': 'No test calls the function. All layouts of lengths and leading bytes are enumerated.',
 'C29': 'No test calls most of these helpers.',
 'C30': 'Off-by-one ranges show only at particular numbers; all of them are in the space.',
 'C31': 'Confusions between kinds and networks show only for particular prefixes; all prefixes are given to all readers.',
}
out = [HEAD]
out.append('## Properties and how each is decided\n')
for p in props:
    i = p['id']
    try: m = importlib.import_module('mc.checks.' + i.lower())
    except ImportError: continue
    out.append('### %s  %s\n' % (i, p['title']))
    out.append('*What is explored, against what oracle.* %s\n' % m.RULE)
    out.append('*Bounds, quick.* %s.\n' % m.BOUNDS['quick'])
    out.append('*Bounds, thorough.* %s.\n' % m.BOUNDS['thorough'])
    a = getattr(m, 'ASSUMPTIONS', [])
    if a: out.append('*Assumptions.* %s\n' % ' '.join(x.rstrip('.') + '.' for x in a))
    out.append('*Why tests cannot settle it.* %s\n' % WHY[i])
    if i in COST: out.append('*Cost.* quick %s s on 8 cores%s.\n' % (COST[i][0], '' if len(COST[i]) < 2 else ', thorough %s s' % COST[i][1]))
out.append('## Known findings (not repaired)\n')
for f in known['findings']: out.append('- **%s**: %s. (%d keys)\n' % (f['property'], f['what'].rstrip('.'), len(f['keys'])))
out.append('## Repaired defects\n\n%d `fix:` commits in /repo; the list with the property each broke is in known_findings.json. The checks found them on the tree as it was, and report them again if a repair is undone.\n' % len(known['fixed']))
out.append('## Planted bugs and the checks that catch them\n')
out.append('Written from the statements and the code. Those marked (own) change lines that a repair of mine added, so they are kept only as specifications in tools/plants.py. Result of the quick check of the property (others where listed):\n')
out.append('| bug | needs | caught by | missed by |\n|---|---|---|---|')
for s in plants.SPECS:
    r = results.get(s['id'], {})
    out.append('| %s%s | %s | %s | %s |' % (s['id'], ' (own)' if s['own'] else '', s['needs'].replace('|', '/'), ', '.join(k for k in r if r[k] == 'CAUGHT'), ', '.join(k for k in r if r[k] != 'CAUGHT') or '-'))
out.append('')
out.append(TAIL)
open(os.path.join(ROOT, 'DESIGN.md'), 'w').write('\n'.join(out))
print('DESIGN.md: %d properties, %d planted bugs' % (len(props), len(plants.SPECS)))

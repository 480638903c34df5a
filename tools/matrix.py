import json,glob,os,re
p='/verif/DESIGN.md'; s=open(p).read()
new='''Every line below is one change that builds and passes the 141 stable tests.
All are caught by the quick check of their property (`VERIF_SEED=1`). Those
marked * were missed at first; what was added to catch them is in brackets.

| property | planted changes |
|---|---|
'''
star={'c03-dedupe-link':'same place rewritten with other data','c08-intermediate-float':'double precision','c09-key-order':'many files, unpadded numbers','c11-swap-name':'decoys under the names a clean run uses','c12-list-reverse':'many points given as an array','c19-shuffled-candidates':'many points given as an array','c12-seterr':'zero images, settings of the calling thread','c14-flush-swallow':'disk judged at the return','c13-leftover-size':'existing empty/tiny leftovers','c02-basename-cache':'folders with the same base names','c02-emulator-cache':'the caller changes a result and asks again','c09-pattern-fallback':'decoys in other letter case','c09-meta-scalar':'scalar metadata of other types','c12-chdir':'concurrent callers of file operations','c17-timeout':'delays beside every failure, future timeouts','c17-signal-chunk':'every exception class inside the worker','c18-progress-rounding':'less round centre ranges','c10-average-num':'more references','c14-truncated-ok':'images larger than one read','c14-coef-silent':'faults on coefficient files','c12-weight-modified':'optional array arguments','c13-folder-name-file':'clutter names','c19-hash-order':'peer processes with other hash seeds','c19-time-noise':'successive calls draw new values','c19-subsample':'large images','c12-mask-cache':'near-identical histories','c10-first-reference-index':'scans starting at different places','c05-default-chunk-rest':'large chunks','c09-extract-blocks':'larger inputs','c08-stat-subset':'larger inputs','c03-many-names':'larger inputs','c01-hdf-reuse':'larger inputs','c07-wide-points':'every point of a global shift on its own'}
by={}
for m in sorted(glob.glob('/verif/seeded/*/meta.json')):
    i=os.path.basename(os.path.dirname(m)); by.setdefault(json.load(open(m))['property'],[]).append(i)
for k in sorted(by):
    new+='| %s | %s |\n'%(k,', '.join(i+('* ['+star[i]+']' if i in star else '') for i in by[k]))
a=s.index('CATCH-MATRIX') if 'CATCH-MATRIX' in s else s.index('Every line below is one change')
open(p,'w').write(s[:a]+new)

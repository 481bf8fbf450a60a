import json,os,glob,subprocess
H='/verif/'
head=open(H+'DESIGN.md').read()
top=head[:head.index('## 2.')]
top=top.replace('''* **Faults**: scan loss/duplication/reordering/delay, invalid ranges, empty scans, TF gaps/late TF, clock
  jumps, slow matcher, slow/failing optimizer, thread stalls, node crash at any scheduling point
  with only the disk surviving, torn bags, write errors, disk full, read errors, missing/corrupt files,
  shutdown at any scheduling point.
''','''* **Faults**: scan loss/duplication/reordering/delay, invalid ranges, empty scans, scans with malformed
  metadata (angles, times, maximum range NaN/inf/negative), scans before the sensor's mounting is known, initial poses
  that are not finite, without or with invalid covariance, in a wrong frame or far away, unusual but valid parameters,
  TF gaps/late TF, clock jumps, slow matcher, matches that are NaN/singular (scripted matcher), slow/failing optimizer,
  stalls of single threads (planned, and drawn at synchronisation operations, more often while a lock is held; "jams" around
  the last change), node crash at any scheduling point with only the disk surviving, torn bags, write errors, disk full,
  read errors, missing/corrupt files, shutdown or unloading at any scheduling point.
''')
table='''## 2. Kinds of simulated runs

* **paced** - one operation at a time, each brought to rest; a sequential reference model of the whole mapper (`model.cpp`)
  predicts every stored pose, constraint, window, candidate, optimization and transform, and the map is probed (by a save
  request) after every operation. Randomness is in histories, configurations and faults.
* **conc** - operations overlap under a random, PCT or explicit schedule with preemption at synchronisation (fast) or at
  memory accesses (fine); `conc.cpp` judges the recorded history: each published graph, grid and transform and each
  saved map must be a state the map went through, in order, with all alternatives that racing operations leave open.
* **comp** - a single library class (matcher, NDT, graph, solver, filter, motion model, KD-tree) with generated histories
  of calls, simulator-supplied randomness, and injected failures.
* **track** - the system in a room against the simulated truth (C29).
* **tools** - the four scripts in CPython against simulated rclpy modules with a simulated clock.

`check.py ID quick` searches 14 s of seeds (all 8 cores), `thorough` 1500 s. Seeds start at `VERIF_SEED*10^8+1`; time is
divided between the parts listed in `sim/parts.py`. 2 % of the runs are repeated with the same seed and must give the same event-log hash.

## 3. Per property

| id | runs | what decides it |
|----|------|-----------------|
| C01 | conc, fine + fast; all faults and modes, extreme parameters | no signal, abort, escaped exception, heap bounds/use-after-free (fine), deadlock or livelock; with plausible inputs also the history oracle |
| C02 | conc, fine | vector-clock race detector over every instrumented access; order only from locks, atomics, create/join |
| C03 | conc + paced, also particle filter | every transform is map->odom, finite, belongs to exactly one localization update, never an older one than published before; PF mean moves with odometry |
| C04 | paced + conc | structural invariants, each accepted scan exactly once, append-only history, every published/saved graph is a state the map was in |
| C05 | paced + conc with crashes | file written == snapshot (bitwise); restart on the surviving disk == file; re-save == file, over generations |
| C06 | paced + conc with a fault at any storage operation | node alive and answering, map and localization as before, other files byte-identical, later requests succeed |
| C07 | paced + conc with loads anywhere | contents == file plus what is added later: windows, candidates, optimum, grid, graph, saved map; scans are offered and optimized again |
| C08 | paced + conc | reference ray renderer over the snapshot, tolerant only where a point lies on a cell border |
| C09 | paced + conc (half of them with stalls and jams around the last scan, half "live" with time limits) | after the last change the published grid and graph equal the snapshot; transform period and service latency |
| C10 | paced, all gate borders, odometry faults, late mounting | reference gate: not processed when clearly below the thresholds, processed when clearly above |
| C11 | paced, all mountings (either sign of the quaternion), sweeps, bad readings, readings exactly at and just beyond the range limits, bad metadata | reference projection of every beam, one point per valid reading, tolerance one beam of motion |
| C12 | paced + conc, matcher plugins that sometimes answer with NaN or infinite scores or corrections | ids, points and poses handed to the matcher equal the window; stored pose == prediction + correction; parameters and plugin |
| C13 | comp | brute-force reference search, score, covariance, histories of add/reset/match on one instance |
| C14 | comp | batch statistics and likelihood in long double |
| C15 | paced + conc | constraint == relative pose, inverse covariance at creation |
| C16 | paced + conc | reference candidate list (order, distance, window, limit), acceptance threshold, moved once, exactly |
| C17 | comp + paced | independent LM descent: objective not above the start, no better neighbourhood; anchor; untouched on failure, injected failures |
| C18 | comp + paced (node with PF) | reference statistics of the particles, initial cloud, spied measurements |
| C19 | comp + paced | KLD stopping rule, members only, proportional frequencies |
| C20 | comp + paced | exact motion without noise, bias/deviation/independence bounds with noise (8 sigma) |
| C21 | paced + conc | localization state model, new scan/constraint of a pose, refusals |
| C22 | paced + conc, also PF | all outputs finite, recovery; malformed scans leave nothing behind |
| C23 | conc, shutdown/unload at any step | gone within a few simulated seconds plus work in progress; threads joined; no use of freed data |
| C24 | comp + paced | brute-force nearest, order, limit |
| C25 | paced + conc in both localization modes | map bitwise constant; matcher content == the whole map |
| C26 | paced + conc | nodes/edges one-to-one with the snapshot, colours |
| C27 | tools | request log against availability and answer delays |
| C29 | track | published pose within 0.45 m/0.25 rad (PF: 0.6 m/0.5 rad) of the truth at all times; 75 % of occupied cells within a cell + 0.1 m of a wall |
| C28 | not applicable | a pure function of its argument: no schedule, clock, fault, randomness or history |

Tolerances of C29 come from soaks on the clean tree (tens of thousands of drives; typical error 1-5 cm, the worst were half the bound).

## 4. Soundness of the checks

* A violation is reported only after two identical re-runs of its plan and a fresh replay of the written file.
* False alarms met and corrected (never listed as findings): optimum test too strict with stiff constraints (now an independent
  descent must find a better one); a correction of exactly zero leaves the reference unsure which odometry the last update had
  (both are kept); a loop-closure match in flight while mapping was switched off and on again may or may not be committed
  (the reference stops predicting candidates until the next probe); ties in distance; points on cell borders; initial poses
  with a zero quaternion; scans interrupted by DISABLE. Oddities deliberately not claimed: a candidate region of one
  neighbour instead of two (`end_idx`), asymmetric search windows, unused `odom_alpha5`, covariance with n instead of n-1,
  `optimization_node_limit` counted from the last optimization, KD-tree positions beyond 5e8 m.
* Un-fixing: each `fix:` commit that reverts without conflict was reverted alone and the named property's check reports it.

## 5. Findings in ndt_2d

One known finding is kept because two tests pin the behaviour (C14-clamp in `known_findings.txt`). All other defects found were
repaired, one commit each:

'''
log=subprocess.check_output(['git','-C','/repo','log','--reverse','--format=%h %s','bdde976..HEAD'],text=True).strip().split('\n')
prop={}
for l in open(H+'known_findings.txt'):
    if l.startswith('fixed:'):
        a=l.split(); prop[a[2]]=a[1].split('=')[1]
fx=''
for l in log:
    h,s=l.split(' ',1)
    fx+='* `%s` (%s) %s\n'%(h,prop.get(h,'?'),s.replace('fix: ',''))
seeds='''
## 6. Planted bugs

In `/verif/seeded`; each compiles, passes the stable tests and has a demonstration. The named check (quick, seed 1) catches it:

| bug | caught by | needs |
|-----|-----------|-------|
'''
rows=[]
for d in sorted(glob.glob(H+'seeded/*/meta.json')):
    m=json.load(open(d)); rows.append('| %s | %s | %s |'%(os.path.basename(os.path.dirname(d)),m['property'],m['needs'].replace('|','/')))
rest='''
The rarest are lock-order (C01: a deadlock of two locks taken in opposite order; one in a few thousand runs),
two-locks-append (C04) and tf-two-locks (C03); weights and stall probabilities were raised until their checks find them in a
quick run. About 90 further single-edit mutants of all parts were tried and not kept; those that a check missed either led
to a stronger check or are equivalent in behaviour (a flag set again before it is read, a pose cached in the only thread that changes it).

## 7. Limits

ROS itself (DDS, executors with several threads, real TF interpolation, rosbag2 storage plugins) is a model; Ceres and the
standard library are real but not preempted inside. Search is sampling: no bound is proved. The `fine` build has an arena allocator and
smaller worlds. Particle-filter accuracy is judged statistically (8 sigma) or with zero noise.
'''
open(H+'DESIGN.md','w').write(top+table+fx+seeds+'\n'.join(rows)+'\n'+rest)
